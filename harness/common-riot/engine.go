package common

import (
	"fmt"
	"io"
	"log"
	"reflect"
	"sort"
	"time"

	"github.com/go-ego/riot/types"
)

func init() { log.SetOutput(io.Discard) }

// edoc is a document of the reference engine: its keys and what it was stored with.
type edoc struct {
	id     string
	keys   map[string]bool
	data   types.DocData
	fields efields
}

type efields struct {
	scores []float32
	ver    int
}

type ebyFields struct{}

func (ebyFields) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	f, ok := fields.(efields)
	if !ok {
		return nil
	}
	return append([]float32(nil), f.scores...)
}

// eprobe tells the version a ranker knows.
type eprobe struct{}

func (eprobe) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	f, _ := fields.(efields)
	return []float32{float32(f.ver)}
}

type emodel struct {
	c       *gvCase
	e       *Engine
	opts    types.EngineOpts
	docs    map[string]*edoc
	touched map[string]bool
	ids     []string
	ver     int
}

var ekeys = []string{"a", "b", "c", "go", "文", "zz"}
var elabels = []string{"L1", "L2"}

func epick(c *gvCase, ss []string) string { return ss[c.Intn(len(ss))] }

func newEngine(c *gvCase) *emodel {
	o := types.EngineOpts{NotUseGse: true, NumShards: 1 + c.Intn(5), IDOnly: c.Intn(2) == 0,
		NumGseThreads: 1 + c.Intn(2), NumIndexerThreads: 1 + c.Intn(2), NumRankerThreads: 1 + c.Intn(2),
		IndexerOpts: &types.IndexerOpts{IndexType: c.Intn(3), DocCacheSize: 1 + c.Intn(4)},
		DefRankOpts: &types.RankOpts{ScoringCriteria: ebyFields{}}}
	if c.Intn(2) == 0 {
		o.DefRankOpts.ReverseOrder, o.DefRankOpts.OutputOffset, o.DefRankOpts.MaxOutputs = c.Intn(2) == 0, c.Intn(3), c.Intn(5)
	}
	m := &emodel{c: c, e: new(Engine), opts: o, docs: map[string]*edoc{}, touched: map[string]bool{}}
	for i := 0; i < 4+c.Intn(24); i++ {
		m.ids = append(m.ids, fmt.Sprintf("d%d", i))
	}
	c.logf("engine: %d shards, idOnly %v, index type %d, cache %d, default rank options %+v", o.NumShards, o.IDOnly, o.IndexerOpts.IndexType, o.IndexerOpts.DocCacheSize, *o.DefRankOpts)
	gvDeath(c)
	m.e.Init(o)
	return m
}

func (m *emodel) flush() {
	m.e.Flush()
	m.touched = map[string]bool{}
	// the rankers are not waited for by Flush
	end := time.Now().Add(2 * time.Second)
	for !m.ranked() && time.Now().Before(end) {
		time.Sleep(200 * time.Microsecond)
	}
}

func (m *emodel) ranked() bool {
	for _, id := range m.ids {
		ver, known := -1, 0
		for s := range m.e.rankers {
			page, n := m.e.rankers[s].Rank([]types.IndexedDoc{{DocId: id}}, types.RankOpts{ScoringCriteria: eprobe{}}, false)
			known += n
			if n > 0 {
				if m.opts.IDOnly {
					ver = int(page.(types.ScoredIDs)[0].Scores[0])
				} else {
					ver = int(page.(types.ScoredDocs)[0].Scores[0])
				}
			}
		}
		d := m.docs[id]
		if d == nil && known > 0 || d != nil && ver != d.fields.ver {
			return false
		}
	}
	return true
}

func (m *emodel) randData() (*edoc, types.DocData) {
	c := m.c
	m.ver++
	d := &edoc{keys: map[string]bool{}, fields: efields{ver: m.ver}}
	var data types.DocData
	for _, k := range c.Perm(len(ekeys))[:1+c.Intn(4)] {
		d.keys[ekeys[k]] = true
		pos := c.Intn(5)
		data.Tokens = append(data.Tokens, types.TokenData{Text: ekeys[k], Locations: []int{pos, pos + 3}})
	}
	if c.Intn(2) == 0 {
		l := epick(c, elabels)
		d.keys[l] = true
		data.Labels = append(data.Labels, l)
	}
	for k := c.Intn(3); k >= 0; k-- {
		d.fields.scores = append(d.fields.scores, float32(c.Intn(6)))
	}
	if c.Intn(8) == 0 {
		d.fields.scores = nil
	}
	data.Fields = d.fields
	data.Attri = []interface{}{nil, "at", 5}[c.Intn(3)]
	d.data = data
	return d, data
}

func (m *emodel) history(n int) {
	c := m.c
	for i := 0; i < n; i++ {
		id := epick(c, m.ids)
		if m.touched[id] {
			m.flush()
		}
		m.touched[id] = true
		if c.Intn(4) == 0 {
			force := c.Intn(4) == 0
			c.logf("RemoveDoc(%q, %v)", id, force)
			m.e.RemoveDoc(id, force)
			delete(m.docs, id)
			continue
		}
		d, data := m.randData()
		d.id = id
		force := c.Intn(4) == 0
		c.logf("Index(%q, %+v, %v)", id, data, force)
		if c.Intn(2) == 0 {
			m.e.Index(id, data, force)
		} else {
			m.e.IndexDoc(id, data, force)
		}
		m.docs[id] = d
	}
}

func (m *emodel) randKeys(max int) (ks []string) {
	for n := m.c.Intn(max + 1); n > 0; n-- {
		ks = append(ks, epick(m.c, ekeys))
	}
	return
}

// randReq is a search request with what it must find.
func (m *emodel) randReq() (types.SearchReq, map[string]bool) {
	c := m.c
	var q types.SearchReq
	q.Tokens = m.randKeys(2)
	if c.Intn(4) == 0 {
		q.Labels = []string{epick(c, elabels)}
	}
	if c.Intn(4) == 0 {
		q.DocIds = map[string]bool{}
		for _, id := range m.ids {
			if c.Intn(2) == 0 {
				q.DocIds[id] = c.Intn(2) == 0
			}
		}
	}
	logic := c.Intn(3) == 0
	if logic {
		q.Logic.Expr.Must = m.randKeys(2)
		q.Logic.Expr.Should = append(m.randKeys(2), epick(c, ekeys))
		q.Logic.Expr.NotIn = m.randKeys(1)
	}
	found := map[string]bool{}
	for id, d := range m.docs {
		if q.DocIds != nil {
			if _, ok := q.DocIds[id]; !ok {
				continue
			}
		}
		ok := true
		if logic {
			for _, k := range q.Logic.Expr.Must {
				ok = ok && d.keys[k]
			}
			any := false
			for _, k := range q.Logic.Expr.Should {
				any = any || d.keys[k]
			}
			ok = ok && any
			for _, k := range q.Logic.Expr.NotIn {
				ok = ok && !d.keys[k]
			}
		} else {
			ok = len(q.Tokens)+len(q.Labels) > 0
			for _, k := range q.Tokens {
				ok = ok && d.keys[k]
			}
			for _, k := range q.Labels {
				ok = ok && d.keys[k]
			}
		}
		if ok {
			found[id] = true
		}
	}
	return q, found
}

func emore(a, b []float32) bool {
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] > b[k]
		}
	}
	return len(a) > len(b)
}

// sorted lists the scorable documents found, in order; ties in any order.
func (m *emodel) sorted(found map[string]bool, reverse bool) (out []*edoc) {
	for id := range found {
		if d := m.docs[id]; len(d.fields.scores) > 0 {
			out = append(out, d)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	sort.SliceStable(out, func(i, j int) bool {
		if reverse {
			return emore(out[j].fields.scores, out[i].fields.scores)
		}
		return emore(out[i].fields.scores, out[j].fields.scores)
	})
	return
}

func (m *emodel) page(what string, docs interface{}) (out types.ScoredDocs) {
	switch p := docs.(type) {
	case types.ScoredDocs:
		if m.opts.IDOnly {
			m.c.failf("%s: an id-only engine answers full documents", what)
		}
		return p
	case types.ScoredIDs:
		if !m.opts.IDOnly {
			m.c.failf("%s: an engine of full documents answers ids", what)
		}
		for _, d := range p {
			out = append(out, types.ScoredDoc{ScoredID: d})
		}
		return
	}
	m.c.failf("%s: the page is a %T", what, docs)
	return
}

// search runs a request and compares its answer with the reference engine.
func (m *emodel) search(q types.SearchReq, found map[string]bool) {
	c := m.c
	ro := *m.opts.DefRankOpts
	if q.RankOpts != nil {
		ro = *q.RankOpts
	}
	what := fmt.Sprintf("Search(tokens %q labels %q ids %v logic %+v options %+v count only %v orderless %v timeout %d)",
		q.Tokens, q.Labels, q.DocIds, q.Logic, ro, q.CountDocsOnly, q.Orderless, q.Timeout)
	c.logf("%s", what)
	resp := m.e.Search(q)
	if resp.Timeout {
		return
	}
	if len(q.Tokens) != len(resp.Tokens) || len(q.Tokens) > 0 && !reflect.DeepEqual(q.Tokens, resp.Tokens) {
		c.failf("%s: reports tokens %q", what, resp.Tokens)
	}
	if q.CountDocsOnly {
		if resp.Docs != nil || resp.NumDocs != len(found) {
			c.failf("%s: counts %d (documents %v), want %d without documents", what, resp.NumDocs, resp.Docs, len(found))
		}
		return
	}
	got := m.page(what, resp.Docs)
	if q.Orderless {
		if resp.NumDocs != len(found) || len(got) != len(found) {
			c.failf("%s: counts %d with %d documents, want %d", what, resp.NumDocs, len(got), len(found))
		}
		seen := map[string]bool{}
		for _, d := range got {
			if !found[d.DocId] || seen[d.DocId] {
				c.failf("%s: document %q is unexpected or there twice", what, d.DocId)
			}
			seen[d.DocId] = true
		}
		return
	}
	want := m.sorted(found, ro.ReverseOrder)
	if resp.NumDocs != len(want) {
		c.failf("%s: counts %d, want %d: %v", what, resp.NumDocs, len(want), found)
	}
	start, end := gvWindow(ro.OutputOffset, ro.MaxOutputs, len(want))
	if len(got) != end-start {
		c.failf("%s: %d documents, want [%d, %d) of %d", what, len(got), start, end, len(want))
	}
	seen := map[string]bool{}
	for k, d := range got {
		w := m.docs[d.DocId]
		if w == nil || !found[d.DocId] || seen[d.DocId] {
			c.failf("%s: document %q is unexpected or there twice", what, d.DocId)
		}
		seen[d.DocId] = true
		if !reflect.DeepEqual(d.Scores, w.fields.scores) || !reflect.DeepEqual(d.Scores, want[start+k].fields.scores) {
			c.failf("%s: document %q with scores %v is at place %d, where scores %v belong; its own are %v", what, d.DocId, d.Scores, start+k, want[start+k].fields.scores, w.fields.scores)
		}
		if !m.opts.IDOnly && (!reflect.DeepEqual(d.Fields, w.data.Fields) || d.Content != w.data.Content || !reflect.DeepEqual(d.Attri, w.data.Attri)) {
			c.failf("%s: document %q has content %q, attribute %v, fields %v; want %+v", what, d.DocId, d.Content, d.Attri, d.Fields, w.data)
		}
	}
}
