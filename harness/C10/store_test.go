// gv:pkg store
package store

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)

type gvPair struct{ k, v []byte }

type gvStore struct {
	c     *gvCase
	name  string
	db    Store
	model map[string]string
	got   []gvPair // what the engine handed out, with copies of it
	want  []gvPair
}

func (g *gvStore) keep(k, v []byte) {
	g.got = append(g.got, gvPair{k, v})
	g.want = append(g.want, gvPair{append([]byte{}, k...), append([]byte{}, v...)})
}

func (g *gvStore) kept() {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	for i, p := range g.got {
		if !bytes.Equal(p.k, g.want[i].k) || !bytes.Equal(p.v, g.want[i].v) {
			g.c.failf("%s: a returned pair (%q, %q) became (%q, %q)", g.name, g.want[i].k, g.want[i].v, p.k, p.v)
		}
	}
}

func (g *gvStore) key() []byte {
	c := g.c
	if len(g.model) > 0 && c.Intn(2) == 0 {
		n := c.Intn(len(g.model))
		for i := 0; i < 40; i++ {
			k := fmt.Sprintf("k%d", i)
			if _, ok := g.model[k]; ok {
				if n == 0 {
					return []byte(k)
				}
				n--
			}
		}
	}
	return []byte(fmt.Sprintf("k%d", c.Intn(40)))
}

func (g *gvStore) forEach() {
	c := g.c
	stop := -1
	if len(g.model) > 0 && c.Intn(2) == 0 {
		stop = c.Intn(len(g.model))
	}
	bad := errors.New("stop here")
	seen := map[string]bool{}
	n := 0
	stopped := false
	c.logf("%s: ForEach, stopping at %d", g.name, stop)
	err := g.db.ForEach(func(k, v []byte) error {
		if stopped {
			c.failf("%s: the callback is called after its error", g.name)
		}
		w, ok := g.model[string(k)]
		if !ok || w != string(v) {
			c.failf("%s: iteration visits (%q, %q), which is not stored", g.name, k, v)
		}
		if seen[string(k)] {
			c.failf("%s: iteration visits %q twice", g.name, k)
		}
		seen[string(k)] = true
		g.keep(k, v)
		n++
		if n-1 == stop {
			stopped = true
			return bad
		}
		return nil
	})
	if stopped && err != bad {
		c.failf("%s: iteration returns %v instead of the callback's error", g.name, err)
	}
	if !stopped && (err != nil || n != len(g.model)) {
		c.failf("%s: iteration visits %d of %d pairs: %v", g.name, n, len(g.model), err)
	}
}

func (g *gvStore) run(ops int) {
	c := g.c
	for i := 0; i < ops; i++ {
		k := g.key()
		switch c.Intn(8) {
		case 0, 1, 2:
			v := bytes.Repeat([]byte{byte('a' + c.Intn(26))}, []int{0, 1, 5, 300}[c.Intn(4)])
			c.logf("%s: Set(%q, %d bytes)", g.name, k, len(v))
			if err := g.db.Set(k, v); err != nil {
				c.failf("%s: Set: %v", g.name, err)
			}
			g.model[string(k)] = string(v)
		case 3:
			c.logf("%s: Delete(%q)", g.name, k)
			if err := g.db.Delete(k); err != nil {
				c.failf("%s: Delete: %v", g.name, err)
			}
			delete(g.model, string(k))
		case 4, 5:
			c.logf("%s: Get(%q)", g.name, k)
			v, err := g.db.Get(k)
			w, ok := g.model[string(k)]
			if ok && err != nil {
				c.failf("%s: Get of a set key: %v", g.name, err)
			}
			if string(v) != w {
				c.failf("%s: Get(%q) returns %d bytes %q, stored are %d bytes", g.name, k, len(v), v, len(w))
			}
			g.keep(k, v)
		case 6:
			c.logf("%s: Has(%q)", g.name, k)
			has, err := g.db.Has(k)
			if _, ok := g.model[string(k)]; err != nil || has != ok {
				c.failf("%s: Has(%q) = %v, %v", g.name, k, has, err)
			}
		case 7:
			if i%3 == 0 {
				g.forEach()
			}
		}
		g.kept()
	}
}

func TestVerifC10Engines(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	gvRun(t, "C10", func(c *gvCase) {
		dir, err := ioutil.TempDir("", "gvstore")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		name := []string{"ldb", "bolt", "bg", "", "env"}[c.Intn(5)]
		want := name
		os.Unsetenv("Riot_Store_Engine")
		switch name {
		case "":
			want = "ldb"
		case "env":
			name, want = "", []string{"bolt", "ldb"}[c.Intn(2)]
			os.Setenv("Riot_Store_Engine", want)
		}
		path := filepath.Join(dir, "db")
		c.logf("OpenStore(%q), environment %q", name, os.Getenv("Riot_Store_Engine"))
		gvDeath(c)
		db, err := OpenStore(path, name)
		if err != nil {
			c.failf("OpenStore(%q): %v", name, err)
		}
		if ty := fmt.Sprintf("%T", db); ty != map[string]string{"ldb": "*store.Leveldb", "bolt": "*store.Bolt", "bg": "*store.Badger"}[want] {
			c.failf("OpenStore(%q) opens a %s", name, ty)
		}
		g := &gvStore{c: c, name: want, db: db, model: map[string]string{}}
		ops := 60
		if want == "bg" {
			ops = 200
		}
		g.run(ops)
		if c.Intn(2) == 0 {
			c.logf("Close and open again")
			if err := g.db.Close(); err != nil {
				c.failf("Close: %v", err)
			}
			g.kept()
			if g.db, err = OpenStore(path, want); err != nil {
				c.failf("OpenStore again: %v", err)
			}
			g.forEach()
			g.run(20)
		}
		g.forEach()
		if err := g.db.Close(); err != nil {
			c.failf("Close: %v", err)
		}
		g.kept()
	})
}

func TestVerifC10Open(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	gvRun(t, "C10", func(c *gvCase) {
		dir, err := ioutil.TempDir("", "gvstore")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		os.Unsetenv("Riot_Store_Engine")
		name := []string{"nosuch", "LDB", "badger", "ldb "}[c.Intn(4)]
		env := c.Intn(2) == 0
		if env {
			os.Setenv("Riot_Store_Engine", name)
			defer os.Unsetenv("Riot_Store_Engine")
		}
		c.logf("OpenStore of an unknown engine %q", name)
		var db Store
		if env {
			db, err = OpenStore(filepath.Join(dir, "x"))
		} else {
			db, err = OpenStore(filepath.Join(dir, "x"), name)
		}
		if err == nil || db != nil {
			c.failf("OpenStore(%q) = %v, %v", name, db, err)
		}
		// an engine that cannot be opened: a file in the place of a directory and the like
		bad := filepath.Join(dir, "bad")
		os.Mkdir(bad, 0755)
		which := []string{"ldb", "bg", "bolt"}[c.Intn(3)]
		c.logf("OpenStore(%s) of a path that cannot be opened", which)
		gvDeath(c)
		if which == "bolt" {
			db, err = OpenStore(bad, which)
		} else {
			ioutil.WriteFile(filepath.Join(dir, "file"), []byte("x"), 0644)
			db, err = OpenStore(filepath.Join(dir, "file"), which)
		}
		if err == nil || db != nil {
			c.failf("OpenStore(%s) of a path that cannot be opened = %v, %v", which, db, err)
		}
		RegisterStore("gvown", func(p string) (Store, error) { return nil, errors.New("own " + p) })
		if _, err := OpenStore("p", "gvown"); err == nil || err.Error() != "own p" {
			c.failf("a registered engine is not used: %v", err)
		}
	})
}
