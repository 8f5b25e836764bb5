package common

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/go-ego/riot/types"
)

// rdoc is what the reference ranker knows of a document.
type rdoc struct {
	fields  interface{}
	content string
	attri   interface{}
}

type rmodel struct {
	c      *gvCase
	rk     *Ranker
	idOnly bool
	docs   map[string]rdoc
	ids    []string
}

// rfields is what a document is scored by: its score list.
type rfields struct{ scores []float32 }

type rbyFields struct{}

func (rbyFields) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	f, ok := fields.(rfields)
	if !ok {
		return nil
	}
	return append([]float32(nil), f.scores...)
}

// rmixed looks at the found document as well.
type rmixed struct{}

func (rmixed) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	if doc.TokenProximity < 0 {
		return []float32{}
	}
	s := []float32{doc.BM25}
	if f, ok := fields.(rfields); ok {
		s = append(s, f.scores...)
	}
	return s
}

func newRanker(c *gvCase) *rmodel {
	m := &rmodel{c: c, rk: new(Ranker), idOnly: c.Intn(2) == 0, docs: map[string]rdoc{}}
	n := 4 + c.Intn(30)
	for i := 0; i < n; i++ {
		m.ids = append(m.ids, fmt.Sprintf("d%d", i))
	}
	m.ids[0] = ""
	if m.idOnly {
		m.rk.Init(true)
	} else if c.Intn(2) == 0 {
		m.rk.Init()
	} else {
		m.rk.Init(false)
	}
	c.logf("ranker idOnly=%v", m.idOnly)
	return m
}

func (m *rmodel) randFields() interface{} {
	c := m.c
	if c.Intn(6) == 0 {
		return []interface{}{nil, "other", 7}[c.Intn(3)]
	}
	var s []float32
	for k := c.Intn(4); k > 0; k-- {
		s = append(s, []float32{0, 1, 2, -1, 0.5, 3e38, -3e38, 1e-40}[c.Intn(8)])
	}
	if c.Intn(2) == 0 {
		s = append(s, float32(c.Intn(1000)))
	}
	return rfields{s}
}

func (m *rmodel) history(n int) {
	c := m.c
	for i := 0; i < n; i++ {
		id := mpick(c, m.ids)
		if c.Intn(4) == 0 {
			c.logf("RemoveDoc(%q)", id)
			m.rk.RemoveDoc(id)
			delete(m.docs, id)
			continue
		}
		d := rdoc{fields: m.randFields(), content: mpick(c, []string{"", "x", "yy", "文"}), attri: []interface{}{nil, "at", 3}[c.Intn(3)]}
		if m.idOnly {
			c.logf("AddDoc(%q, %v)", id, d.fields)
			m.rk.AddDoc(id, d.fields)
			d.content, d.attri = "", nil
		} else {
			c.logf("AddDoc(%q, %v, %q, %v)", id, d.fields, d.content, d.attri)
			m.rk.AddDoc(id, d.fields, d.content, d.attri)
		}
		m.docs[id] = d
	}
}

func (m *rmodel) randFound() (docs []types.IndexedDoc) {
	c := m.c
	for _, k := range c.Perm(len(m.ids)) {
		if c.Intn(4) == 0 {
			continue
		}
		docs = append(docs, types.IndexedDoc{DocId: m.ids[k], BM25: float32(c.Intn(5)), TokenProximity: int32(c.Intn(6) - 1),
			TokenSnippetLocs: []int{k, c.Intn(9)}, TokenLocs: [][]int{{k}, {c.Intn(9), 11}}})
	}
	return
}

func rcopy(docs []types.IndexedDoc) []types.IndexedDoc {
	return append([]types.IndexedDoc(nil), docs...)
}

func (m *rmodel) randOpts() types.RankOpts {
	c := m.c
	o := types.RankOpts{ReverseOrder: c.Intn(2) == 0}
	o.ScoringCriteria = []types.ScoringCriteria{rbyFields{}, rmixed{}, types.RankByBM25{}}[c.Intn(3)]
	return o
}

func rmore(a, b []float32) bool {
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] > b[k]
		}
	}
	return len(a) > len(b)
}

// expected is the list of all scorable documents, in order (ties in any order).
func (m *rmodel) expected(docs []types.IndexedDoc, o types.RankOpts) (out types.ScoredDocs) {
	for _, d := range docs {
		r, ok := m.docs[d.DocId]
		if !ok {
			continue
		}
		s := o.ScoringCriteria.Score(d, r.fields)
		if len(s) == 0 {
			continue
		}
		out = append(out, types.ScoredDoc{ScoredID: types.ScoredID{DocId: d.DocId, Scores: s, TokenSnippetLocs: d.TokenSnippetLocs, TokenLocs: d.TokenLocs},
			Content: r.content, Attri: r.attri, Fields: r.fields})
	}
	sort.SliceStable(out, func(i, j int) bool {
		if o.ReverseOrder {
			return rmore(out[j].Scores, out[i].Scores)
		}
		return rmore(out[i].Scores, out[j].Scores)
	})
	return
}

// asDocs turns a page of either kind into documents.
func (m *rmodel) asDocs(page interface{}) (out types.ScoredDocs) {
	switch p := page.(type) {
	case types.ScoredDocs:
		if m.idOnly {
			m.c.failf("an id-only ranker answers full documents")
		}
		return p
	case types.ScoredIDs:
		if !m.idOnly {
			m.c.failf("a ranker of full documents answers ids")
		}
		for _, d := range p {
			out = append(out, types.ScoredDoc{ScoredID: d})
		}
		return
	}
	m.c.failf("the page is a %T", page)
	return
}

// checkPage compares a page with the places [from, from+len) of the ranked list; documents of equal scores may change places.
func (m *rmodel) checkPage(what string, got, want types.ScoredDocs, from, n int) {
	if len(got) != n {
		m.c.failf("%s: %d documents, want %d", what, len(got), n)
	}
	byID := map[string]types.ScoredDoc{}
	for _, d := range want {
		byID[d.DocId] = d
	}
	seen := map[string]bool{}
	for k, d := range got {
		w, ok := byID[d.DocId]
		if !ok || seen[d.DocId] {
			m.c.failf("%s: document %q at place %d is unexpected or there twice", what, d.DocId, k)
		}
		seen[d.DocId] = true
		if m.idOnly {
			w.Content, w.Attri, w.Fields = "", nil, nil
		}
		if !reflect.DeepEqual(d, w) {
			m.c.failf("%s: document %q is %+v, want %+v", what, d.DocId, d, w)
		}
		if !reflect.DeepEqual(d.Scores, want[from+k].Scores) {
			m.c.failf("%s: place %d has scores %v, want %v", what, from+k, d.Scores, want[from+k].Scores)
		}
	}
}
