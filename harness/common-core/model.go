package core

import (
	"fmt"
	"math"
	"sort"

	"github.com/go-ego/riot/types"
)

// mkey is one key of a document in the reference model.
type mkey struct {
	freq float32
	locs []int
}

type mdoc struct {
	id   string
	keys map[string]mkey
	len  float32
}

// mindex is the reference model of one index shard: what is indexed after a forced flush.
type mindex struct {
	c       *gvCase
	ix      *Indexer
	opts    types.IndexerOpts
	docs    map[string]*mdoc // last version of each document
	pending map[string]bool  // possibly still in the add cache
	touched map[string]bool  // touched since the last forced flush
	ids     []string
	big     bool
	unsure  map[string]bool // removed while possibly pending: both outcomes are allowed
}

var mvocab = []string{"a", "b", "ab", "中", "go", "zz", "k6", "k7"}
var mlabels = []string{"L1", "L2"}
var mids0 = []string{"1", "2", "3", "10", "a", "b", "文", "", "zz", "21", "7", "8"}

func mpick(c *gvCase, ss []string) string { return ss[c.Intn(len(ss))] }

func newModel(c *gvCase, indexType int) *mindex {
	o := types.IndexerOpts{IndexType: indexType, DocCacheSize: 1 + c.Intn(5)}
	if c.Intn(3) > 0 {
		o.BM25Parameters = &types.BM25Parameters{K1: float32(c.Intn(4)) * 0.75, B: float32(c.Intn(3)) * 0.5}
	}
	m := &mindex{c: c, ix: new(Indexer), opts: o, docs: map[string]*mdoc{}, pending: map[string]bool{}, touched: map[string]bool{}, unsure: map[string]bool{}}
	m.ids = mids0
	if c.Intn(6) == 0 {
		// many documents, so that posting lists get long
		m.ids = nil
		for i := 0; i < 40; i++ {
			m.ids = append(m.ids, fmt.Sprintf("d%d", i))
		}
		m.opts.DocCacheSize = 1 + c.Intn(20)
		m.big = true
	}
	o = m.opts
	bm := "none"
	if o.BM25Parameters != nil {
		bm = fmt.Sprintf("%+v", *o.BM25Parameters)
	}
	c.logf("Init IndexType=%d DocCacheSize=%d BM25=%s", o.IndexType, o.DocCacheSize, bm)
	m.ix.Init(o)
	return m
}

func (m *mindex) randDoc(id string) (*mdoc, *types.DocIndex) {
	c := m.c
	d := &mdoc{id: id, keys: map[string]mkey{}, len: float32(c.Intn(12))}
	x := &types.DocIndex{DocId: id, TokenLen: d.len}
	perm := c.Perm(len(mvocab))
	n := c.Intn(6)
	for _, p := range perm[:n] {
		k := mkey{}
		np := c.Intn(4)
		if c.Intn(4) > 0 && np == 0 {
			np = 1 + c.Intn(6)
		}
		at := 0
		for i := 0; i < np; i++ {
			at += c.Intn(9)
			k.locs = append(k.locs, at)
			at++
		}
		k.freq = float32(np)
		d.keys[mvocab[p]] = k
		x.Keywords = append(x.Keywords, types.KeywordIndex{Text: mvocab[p], Frequency: k.freq, Starts: append([]int(nil), k.locs...)})
	}
	for _, l := range mlabels {
		if c.Intn(3) == 0 {
			d.keys[l] = mkey{}
			x.Keywords = append(x.Keywords, types.KeywordIndex{Text: l})
		}
	}
	return d, x
}

func (d *mdoc) String() string {
	var ks []string
	for k, v := range d.keys {
		ks = append(ks, fmt.Sprintf("%s%v/%v", k, v.locs, v.freq))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%q len %v %v", d.id, d.len, ks)
}

func (m *mindex) add(id string, force bool) {
	d, x := m.randDoc(id)
	m.c.logf("AddDocToCache(%v, %v)", d, force)
	m.docs[id] = d
	m.touched[id] = true
	m.pending[id] = true
	delete(m.unsure, id)
	m.ix.AddDocToCache(x, force)
	if force {
		m.settle()
	}
}

func (m *mindex) remove(id string, force bool) {
	m.c.logf("RemoveDocToCache(%q, %v)", id, force)
	m.touched[id] = true
	if m.pending[id] {
		m.unsure[id] = true
	} else {
		delete(m.docs, id)
	}
	m.ix.RemoveDocToCache(id, force)
}

func (m *mindex) flush() {
	m.c.logf("AddDocToCache(nil, true)")
	m.ix.AddDocToCache(nil, true)
	m.settle()
}

// settle: after a forced flush the outcome is fixed.
func (m *mindex) settle() {
	for id := range m.unsure {
		if !m.ix.HasDoc(id) {
			delete(m.docs, id)
		}
	}
	m.pending = map[string]bool{}
	m.touched = map[string]bool{}
	m.unsure = map[string]bool{}
}

// history runs a random history.
func (m *mindex) history(n int) {
	if m.big {
		n *= 6
	}
	for i := 0; i < n; i++ {
		switch r := m.c.Intn(20); {
		case r < 11:
			m.add(mpick(m.c, m.ids), m.c.Intn(6) == 0)
		case r < 16:
			m.remove(mpick(m.c, m.ids), m.c.Intn(4) == 0)
		case r < 17:
			m.c.logf("RemoveDocToCache(0, true)")
			m.ix.RemoveDocToCache("0", true)
		default:
			m.flush()
		}
	}
}

// settled returns the model documents whose indexed version is known for certain.
func (m *mindex) settled() map[string]*mdoc {
	r := map[string]*mdoc{}
	for id, d := range m.docs {
		if !m.touched[id] {
			r[id] = d
		}
	}
	return r
}

// filter returns a document filter over the ids whose state is certain.
func (m *mindex) certain() map[string]bool {
	f := map[string]bool{}
	for _, id := range m.ids {
		if !m.touched[id] || (m.docs[id] == nil && !m.pending[id]) {
			f[id] = true
		}
	}
	return f
}

func (d *mdoc) has(k string) bool { _, ok := d.keys[k]; return ok }

func (m *mindex) randKeys(max int) (ks []string) {
	n := m.c.Intn(max + 1)
	for i := 0; i < n; i++ {
		switch m.c.Intn(12) {
		case 0:
			ks = append(ks, "unknown")
		case 1, 2:
			ks = append(ks, mpick(m.c, mlabels))
		default:
			ks = append(ks, mpick(m.c, mvocab))
		}
	}
	return
}

func (m *mindex) randFilter() map[string]bool {
	if len(m.touched) == 0 && m.c.Intn(2) == 0 {
		return nil
	}
	f := m.certain()
	for id := range f {
		if m.c.Intn(4) == 0 {
			delete(f, id)
		} else if m.c.Intn(4) == 0 {
			f[id] = false // the value is ignored
		}
	}
	return f
}

// sameDocs compares the ids of a result with the expected set.
func sameDocs(c *gvCase, what string, docs []types.IndexedDoc, n int, want map[string]bool, countOnly bool) {
	if n != len(want) {
		c.failf("%s: count %d, want %d (%v)", what, n, len(want), want)
	}
	if countOnly {
		if len(docs) != 0 {
			c.failf("%s: count-only search returned documents %v", what, docs)
		}
		return
	}
	seen := map[string]bool{}
	for _, d := range docs {
		if seen[d.DocId] {
			c.failf("%s: document %q returned twice", what, d.DocId)
		}
		seen[d.DocId] = true
		if !want[d.DocId] {
			c.failf("%s: document %q returned, want %v", what, d.DocId, want)
		}
	}
	if len(seen) != len(want) {
		c.failf("%s: documents %v, want %v", what, seen, want)
	}
}

func inFilter(f map[string]bool, id string) bool {
	if f == nil {
		return true
	}
	_, ok := f[id]
	return ok
}

func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsInf(a, 0) {
		return false
	}
	d := math.Abs(a - b)
	return d <= 1e-3 || d <= 1e-3*math.Max(math.Abs(a), math.Abs(b))
}

// checkIndex compares the whole flushed index with the model.
func (m *mindex) checkIndex() {
	c := m.c
	for _, id := range m.ids {
		if got, want := m.ix.HasDoc(id), m.docs[id] != nil; got != want {
			c.failf("HasDoc(%q) = %v, want %v", id, got, want)
		}
	}
	for _, k := range append(append([]string{}, mvocab...), mlabels...) {
		want := map[string]bool{}
		for id, d := range m.docs {
			if d.has(k) {
				want[id] = true
			}
		}
		docs, n := m.ix.Lookup([]string{k}, nil, nil, false)
		sameDocs(c, fmt.Sprintf("Lookup([%s])", k), docs, n, want, false)
		for _, x := range docs {
			m.checkLocs(x, []string{k})
		}
		docs, n = m.ix.Lookup(nil, []string{k}, nil, false)
		sameDocs(c, fmt.Sprintf("Lookup(labels [%s])", k), docs, n, want, false)
	}
}

// checkLocs compares the position data of a found document with the model.
func (m *mindex) checkLocs(x types.IndexedDoc, tokens []string) {
	c := m.c
	d := m.docs[x.DocId]
	if m.opts.IndexType != types.LocsIndex || d == nil || len(tokens) == 0 {
		return
	}
	for _, t := range tokens {
		if len(d.keys[t].locs) == 0 {
			if len(x.TokenLocs) != 0 || len(x.TokenSnippetLocs) != 0 {
				c.failf("Lookup(%v) document %q: a token has no position but TokenLocs %v TokenSnippetLocs %v", tokens, x.DocId, x.TokenLocs, x.TokenSnippetLocs)
			}
			return
		}
	}
	if len(x.TokenLocs) != len(tokens) || len(x.TokenSnippetLocs) != len(tokens) {
		c.failf("Lookup(%v) document %q: TokenLocs %v TokenSnippetLocs %v", tokens, x.DocId, x.TokenLocs, x.TokenSnippetLocs)
	}
	for i, t := range tokens {
		if fmt.Sprint(x.TokenLocs[i]) != fmt.Sprint(d.keys[t].locs) {
			c.failf("Lookup(%v) document %q: positions of %q are %v, indexed %v", tokens, x.DocId, t, x.TokenLocs[i], d.keys[t].locs)
		}
	}
	// the snippet positions realise the proximity, and it is minimal
	cost := func(p []int) int {
		s := 0
		for i := 1; i < len(p); i++ {
			v := p[i] - p[i-1] - len(tokens[i-1])
			if v < 0 {
				v = -v
			}
			s += v
		}
		return s
	}
	for i, t := range tokens {
		ok := false
		for _, p := range d.keys[t].locs {
			ok = ok || p == x.TokenSnippetLocs[i]
		}
		if !ok {
			c.failf("Lookup(%v) document %q: snippet position %d of %q is not among %v", tokens, x.DocId, x.TokenSnippetLocs[i], t, d.keys[t].locs)
		}
	}
	if cost(x.TokenSnippetLocs) != int(x.TokenProximity) {
		c.failf("Lookup(%v) document %q: snippet positions %v cost %d, TokenProximity %d", tokens, x.DocId, x.TokenSnippetLocs, cost(x.TokenSnippetLocs), x.TokenProximity)
	}
	best := -1
	var rec func(i int, p []int)
	rec = func(i int, p []int) {
		if i == len(tokens) {
			if v := cost(p); best < 0 || v < best {
				best = v
			}
			return
		}
		for _, q := range d.keys[tokens[i]].locs {
			rec(i+1, append(p, q))
		}
	}
	if len(tokens) <= 5 {
		rec(0, nil)
		if best != int(x.TokenProximity) {
			c.failf("Lookup(%v) document %q with %v: TokenProximity %d, minimum %d", tokens, x.DocId, d, x.TokenProximity, best)
		}
	}
}

// bm25 is the documented score.
func (m *mindex) bm25(d *mdoc, tokens []string) float64 {
	if m.opts.BM25Parameters == nil || m.opts.IndexType == types.DocIdsIndex {
		return 0
	}
	f := func(d *mdoc, t string) float64 {
		if m.opts.IndexType == types.LocsIndex {
			return float64(len(d.keys[t].locs))
		}
		return float64(d.keys[t].freq)
	}
	if m.opts.IndexType == types.LocsIndex {
		for _, t := range tokens {
			if f(d, t) == 0 {
				return 0
			}
		}
	}
	k1, b := float64(m.opts.BM25Parameters.K1), float64(m.opts.BM25Parameters.B)
	total := 0.0
	for _, o := range m.docs {
		total += float64(o.len)
	}
	n := float64(len(m.docs))
	avg := total / n
	s := 0.0
	for _, t := range tokens {
		df := 0.0
		for _, o := range m.docs {
			if o.has(t) {
				df++
			}
		}
		tf := f(d, t)
		if tf > 0 && avg != 0 {
			s += math.Log2(n/df+1) * tf * (k1 + 1) / (tf + k1*(1-b+b*float64(d.len)/avg))
		}
	}
	return s
}
