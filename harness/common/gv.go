package common

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// gvCase is one generated case: its random source and the trace of what was done.
type gvCase struct {
	*rand.Rand
	mu    sync.Mutex
	trace []string
}

type gvFailure string

func (c *gvCase) logf(f string, a ...interface{}) {
	c.mu.Lock()
	c.trace = append(c.trace, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *gvCase) failf(f string, a ...interface{}) {
	panic(gvFailure(fmt.Sprintf(f, a...)))
}

func (c *gvCase) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.trace
	if len(t) > 400 {
		t = t[len(t)-400:]
	}
	return strings.Join(t, "\n")
}

var gvStop = map[string]bool{}

func gvIsKnown(key string) bool {
	for _, k := range strings.Split(os.Getenv("GV_KNOWN"), ",") {
		if k == key {
			return true
		}
	}
	return false
}

func gvReport(name string, seed int64, c *gvCase, msg string) {
	out := fmt.Sprintf("test %s, case seed %d\n%s\n=> %s\n", name, seed, c.text(), msg)
	if p := os.Getenv("GV_OUT"); p != "" {
		os.WriteFile(p, []byte(out), 0644)
	}
	fmt.Println(out)
}

var gvShare = 1.0

// gvRun runs f on generated cases until the time is used up.
func gvRun(t *testing.T, name string, f func(c *gvCase)) {
	secs, _ := strconv.ParseFloat(os.Getenv("GV_SECS"), 64)
	if secs <= 0 {
		secs = 2
	}
	secs *= gvShare
	base, _ := strconv.ParseInt(os.Getenv("GV_SEED"), 10, 64)
	gvRunFor(t, name, secs, base, f)
}

func gvRunFor(t *testing.T, name string, secs float64, base int64, f func(c *gvCase)) {
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var n int64
	cur := os.Getenv("GV_CUR")
	for n = 0; n < 5 || time.Now().Before(end); n++ {
		seed := base*1000003 + n
		c := &gvCase{Rand: rand.New(rand.NewSource(seed))}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					if g, ok := e.(gvFailure); ok {
						done <- string(g)
					} else {
						done <- fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					}
					return
				}
				done <- ""
			}()
			f(c)
		}()
		var msg string
		timer := time.NewTimer(20 * time.Second)
		select {
		case msg = <-done:
		case <-timer.C:
			msg = "the call does not return (20 s)"
		}
		timer.Stop()
		if msg != "" {
			gvReport(name, seed, c, msg)
			fmt.Printf("GV-CASES %d\n", n+1)
			t.Fatal(msg)
		}
	}
	_ = cur
	fmt.Printf("GV-CASES %d\n", n)
}

// gvDeath notes what is running in case the process is ended by log.Fatal or a fatal error.
func gvDeath(c *gvCase) {
	if p := os.Getenv("GV_CUR"); p != "" {
		os.WriteFile(p, []byte(c.text()), 0644)
	}
}

// gvBound is an offset or a maximum of any sign and size, often near n.
func gvBound(c *gvCase, n int) int {
	switch c.Intn(6) {
	case 0:
		return []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt64 / 2, 1 << 32, -1, 1 << 31}[c.Intn(8)]
	case 1:
		return math.MaxInt64 - c.Intn(n+3)
	case 2:
		return -c.Intn(n + 3)
	}
	return c.Intn(n + 3)
}

// gvWindow is the window of a list of n.
func gvWindow(o, m, n int) (int, int) {
	start := o
	if start < 0 {
		start = 0
	}
	if start > n {
		start = n
	}
	end := n
	if m > 0 && m < n-start {
		end = start + m
	}
	return start, end
}
