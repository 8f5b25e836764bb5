// gv:pkg core
package core

import (
	"fmt"
	"testing"
)

func TestVerifC07Ranker(t *testing.T) {
	gvRun(t, "C07", func(c *gvCase) {
		m := newRanker(c)
		for round := 0; round < 4; round++ {
			m.history(c.Intn(60))
			docs, o := m.randFound(), m.randOpts()
			want := m.expected(docs, o)
			for k := 0; k < 4; k++ {
				o.OutputOffset, o.MaxOutputs = gvBound(c, len(want)), gvBound(c, len(want))
				what := fmt.Sprintf("Rank(%v, %T reverse %v offset %d max %d)", docs, o.ScoringCriteria, o.ReverseOrder, o.OutputOffset, o.MaxOutputs)
				c.logf("%s", what)
				page, n := m.rk.Rank(rcopy(docs), o, false)
				if n != len(want) {
					c.failf("%s counts %d, want %d", what, n, len(want))
				}
				start, end := gvWindow(o.OutputOffset, o.MaxOutputs, len(want))
				m.checkPage(what, m.asDocs(page), want, start, end-start)
			}
		}
	})
}
