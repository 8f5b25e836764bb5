// gv:pkg core
package core

import (
	"fmt"
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC06Rank(t *testing.T) {
	gvRun(t, "C06", func(c *gvCase) {
		m := newRanker(c)
		for round := 0; round < 6; round++ {
			m.history(c.Intn(40))
			docs, o := m.randFound(), m.randOpts()
			want := m.expected(docs, o)
			what := fmt.Sprintf("Rank(%v, %T reverse %v)", docs, o.ScoringCriteria, o.ReverseOrder)
			given := rcopy(docs)
			page, n := m.rk.Rank(docs, o, false)
			if fmt.Sprint(given) != fmt.Sprint(docs) {
				c.failf("%s changed the documents given", what)
			}
			if n != len(want) {
				c.failf("%s counts %d, want %d", what, n, len(want))
			}
			m.checkPage(what, m.asDocs(page), want, 0, len(want))
			page, n = m.rk.Rank(docs, o, true)
			if n != len(want) || len(m.asDocs(page)) != 0 {
				c.failf("%s, count only: count %d with %d documents, want %d with none", what, n, len(m.asDocs(page)), len(want))
			}
		}
	})
}

func TestVerifC06Order(t *testing.T) {
	gvRun(t, "C06", func(c *gvCase) {
		var ids types.ScoredIDs
		var docs types.ScoredDocs
		m := newRanker(c)
		for i := 0; i < 12; i++ {
			var s []float32
			if f, ok := m.randFields().(rfields); ok {
				s = f.scores
			}
			d := types.ScoredID{DocId: fmt.Sprint(i), Scores: s}
			ids = append(ids, d)
			docs = append(docs, types.ScoredDoc{ScoredID: d, Content: "c" + d.DocId})
		}
		for i := range ids {
			for j := range ids {
				want := rmore(ids[i].Scores, ids[j].Scores)
				if ids.Less(i, j) != want || docs.Less(i, j) != want {
					c.failf("Less of scores %v and %v is %v and %v, want %v", ids[i].Scores, ids[j].Scores, ids.Less(i, j), docs.Less(i, j), want)
				}
			}
		}
		i, j := c.Intn(len(ids)), c.Intn(len(ids))
		a, b := docs[i], docs[j]
		docs.Swap(i, j)
		ids.Swap(i, j)
		if docs[i].DocId != b.DocId || docs[j].DocId != a.DocId || docs[i].Content != b.Content || ids[i].DocId != b.DocId || ids[j].DocId != a.DocId || docs.Len() != 12 || ids.Len() != 12 {
			c.failf("Swap(%d, %d) does not exchange", i, j)
		}
	})
}
