// gv:pkg .
package riot

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gse"
	"github.com/go-ego/riot/types"
)

var (
	tkOnce sync.Once
	tkSeg  gse.Segmenter
	tkErr  error
)

var tkPieces = []string{"检索", "文字", "文", "字", "go", "Go", "LANG", "golang", " ", "  ", "a", "b", "a b", "中", "1", ",", "引擎"}
var tkKeys = []string{"检索", "文", "文字", "go", "a", "b", "zz", "L1", "", "L2", "golang", "wen", "wz"}

// tkSegmenter has a small dictionary, kept in a scratch folder.
func tkSegmenter(c *gvCase) gse.Segmenter {
	tkOnce.Do(func() {
		f, err := os.CreateTemp("", "gvdict")
		if err != nil {
			tkErr = err
			return
		}
		defer os.Remove(f.Name())
		for _, w := range []string{"检索", "文字", "检", "文", "字", "go", "golang", "lang", "引擎", "文字检索"} {
			fmt.Fprintf(f, "%s 10 n\n", w)
		}
		f.Close()
		tkErr = tkSeg.LoadDict(f.Name())
	})
	if tkErr != nil {
		c.failf("the dictionary does not load: %v", tkErr)
	}
	return tkSeg
}

// tkEngine is an engine with only what the segmenter worker and the query tokens use.
func tkEngine(c *gvCase) (*Engine, map[string]bool) {
	o := types.EngineOpts{Using: c.Intn(7), GseMode: c.Intn(2) == 0, PinYin: c.Intn(3) == 0, NumShards: 1}
	e := &Engine{}
	if c.Intn(3) == 0 {
		o.NotUseGse = true
		if o.Using == 1 || o.Using == 3 {
			o.Using = 4
		}
	} else {
		e.segmenter = tkSegmenter(c)
	}
	stop := map[string]bool{}
	if !o.NotUseGse {
		file := ""
		if c.Intn(2) == 0 {
			f, err := os.CreateTemp("", "gvstop")
			if err != nil {
				c.failf("no scratch file: %v", err)
			}
			defer os.Remove(f.Name())
			for _, w := range tkKeys {
				if c.Intn(3) == 0 {
					stop[w] = w != ""
					fmt.Fprintln(f, w)
				}
			}
			delete(stop, "")
			f.Close()
			file = f.Name()
		}
		e.stopTokens.Init(file)
	}
	e.initOptions = o
	c.logf("engine: using %d, no segmenter %v, segmenter mode %v, pinyin %v, stop words %v", o.Using, o.NotUseGse, o.GseMode, o.PinYin, stop)
	return e, stop
}

func tkText(c *gvCase) (s string) {
	if c.Intn(6) == 0 {
		return ""
	}
	for n := 1 + c.Intn(6); n > 0; n-- {
		s += tkPieces[c.Intn(len(tkPieces))]
	}
	return
}

// tkSplit gives the keys of a text split at sep: the pieces, the text up to each, and with more also what follows each.
func tkSplit(out map[string]bool, s, sep string, more bool) {
	ps := strings.Split(s, sep)
	for i, p := range ps {
		if p == "" {
			continue
		}
		out[p] = true
		out[strings.Join(ps[:i+1], "")] = true
		if more {
			for k := i + 2; k <= len(ps); k++ {
				out[strings.Join(ps[i+1:k], "")] = true
			}
		}
	}
}

func tkCut(e *Engine, s string) []string {
	if e.initOptions.GseMode {
		return e.segmenter.CutSearch(s, e.initOptions.Hmm)
	}
	return e.segmenter.Cut(s, e.initOptions.Hmm)
}

func tkPinyin(e *Engine, out map[string]bool, s string) {
	up := ""
	for _, p := range strings.Split(s, "") {
		if p != "" {
			out[p] = true
			up += p
		}
		out[up] = true
	}
	if !e.initOptions.NotUseGse {
		for _, w := range tkCut(e, s) {
			out[w] = true
		}
	}
	py, first := "", ""
	for _, p := range gpy.LazyConvert(s, nil) {
		py += p
		out[py] = true
		if p != "" {
			first += p[:1]
			out[first] = true
		}
	}
}

func TestVerifC09Keys(t *testing.T) {
	gvRun(t, "C09", func(c *gvCase) {
		e, stop := tkEngine(c)
		o := e.initOptions
		e.segmenterChan = make(chan segmenterReq, 1)
		e.indexerAddDocChans = []chan indexerAddDocReq{make(chan indexerAddDocReq, 1)}
		e.rankerAddDocChans = []chan rankerAddDocReq{make(chan rankerAddDocReq, 1)}
		bad := make(chan string, 1)
		go func() {
			defer func() { bad <- fmt.Sprint(recover()) }()
			e.segmenterWorker()
		}()
		// ends the worker
		defer func() {
			e.indexerAddDocChans = nil
			e.segmenterChan <- segmenterReq{docId: "end"}
		}()
		for round := 0; round < 4; round++ {
			data := types.DocData{Content: tkText(c)}
			for n := c.Intn(4); n > 0; n-- {
				t := types.TokenData{Text: tkKeys[c.Intn(len(tkKeys))]}
				for p, k := 0, c.Intn(4); k > 0; k-- {
					p += 1 + c.Intn(4)
					t.Locations = append(t.Locations, p)
				}
				data.Tokens = append(data.Tokens, t)
			}
			for n := c.Intn(3); n > 0; n-- {
				data.Labels = append(data.Labels, tkKeys[c.Intn(len(tkKeys))])
			}
			c.logf("document: content %q, tokens %+v, labels %q", data.Content, data.Tokens, data.Labels)

			found := map[string]bool{}  // from the content
			exact := map[string][]int{} // the places of the segments
			if s := data.Content; s != "" {
				seg := func(s string) {
					for _, g := range e.segmenter.ModeSegment([]byte(s), o.GseMode) {
						found[g.Token().Text()] = true
						exact[g.Token().Text()] = append(exact[g.Token().Text()], g.Start())
					}
				}
				switch {
				case o.Using == 4, o.Using == 0 && o.NotUseGse:
					tkSplit(found, strings.ToLower(s), " ", false)
				case o.Using == 0, o.Using == 1:
					seg(s)
				case o.Using == 2:
				default:
					if o.Using == 3 {
						seg(strings.ToLower(s))
						exact = map[string][]int{}
					}
					tkSplit(found, strings.ToLower(s), "", o.Using == 6)
				}
			}
			if o.PinYin {
				tkPinyin(e, found, data.Content)
			}
			given := map[string][]int{}
			isGiven := map[string]bool{}
			if o.Using != 1 || data.Content == "" {
				for _, t := range data.Tokens {
					given[t.Text], isGiven[t.Text] = t.Locations, true
				}
			}
			want := map[string]bool{}
			for k := range found {
				want[k] = !stop[k]
			}
			for k := range given {
				want[k] = !stop[k]
			}
			label := map[string]bool{}
			for _, k := range data.Labels {
				if !stop[k] {
					label[k] = true
					want[k] = true
				}
			}

			e.segmenterChan <- segmenterReq{docId: "d", data: data}
			var doc *types.DocIndex
			select {
			case q := <-e.indexerAddDocChans[0]:
				doc = q.doc
			case m := <-bad:
				c.failf("the segmenter worker panics: %s", m)
			}
			select {
			case <-e.rankerAddDocChans[0]:
			case m := <-bad:
				c.failf("the segmenter worker panics: %s", m)
			}
			got := map[string]types.KeywordIndex{}
			for _, k := range doc.Keywords {
				if _, ok := got[k.Text]; ok {
					c.failf("key %q is there twice", k.Text)
				}
				got[k.Text] = k
				if !want[k.Text] {
					c.failf("key %q is indexed but no token or label of the document, or it is a stop word", k.Text)
				}
				if k.Frequency != float32(len(k.Starts)) {
					c.failf("key %q has frequency %v and positions %v", k.Text, k.Frequency, k.Starts)
				}
				switch {
				case isGiven[k.Text]:
					if len(k.Starts)+len(given[k.Text]) > 0 && !reflect.DeepEqual(k.Starts, given[k.Text]) {
						c.failf("key %q is given with positions %v and indexed with %v", k.Text, given[k.Text], k.Starts)
					}
				case found[k.Text]:
					if len(k.Starts) == 0 || !sort.IntsAreSorted(k.Starts) {
						c.failf("key %q has positions %v", k.Text, k.Starts)
					}
					if x := exact[k.Text]; x != nil && !reflect.DeepEqual(x, k.Starts) {
						c.failf("key %q is at %v and indexed with %v", k.Text, x, k.Starts)
					}
				default:
					if len(k.Starts) != 0 {
						c.failf("label %q has positions %v", k.Text, k.Starts)
					}
				}
			}
			for k, w := range want {
				if _, ok := got[k]; w && !ok {
					c.failf("key %q is not indexed: %v", k, got)
				}
			}
		}
	})
}

func TestVerifC09Query(t *testing.T) {
	gvRun(t, "C09", func(c *gvCase) {
		e, stop := tkEngine(c)
		for round := 0; round < 6; round++ {
			q := types.SearchReq{Text: tkText(c)}
			for n := c.Intn(3); n > 0; n-- {
				q.Tokens = append(q.Tokens, tkKeys[c.Intn(len(tkKeys))])
			}
			var want []string
			if q.Text != "" {
				if e.initOptions.NotUseGse {
					for _, p := range strings.Split(strings.ToLower(q.Text), " ") {
						if p != "" {
							want = append(want, p)
						}
					}
				} else {
					for _, w := range tkCut(e, strings.ToLower(q.Text)) {
						if !stop[w] {
							want = append(want, w)
						}
					}
				}
			}
			want = append(want, q.Tokens...)
			c.logf("Tokens(text %q, tokens %q)", q.Text, q.Tokens)
			got := e.Tokens(q)
			if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				c.failf("the tokens of the query are %q, want %q", got, want)
			}
		}
	})
}
