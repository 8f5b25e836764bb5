// gv:pkg core
package core

import (
	"fmt"
	"testing"
)

func TestVerifC04BM25(t *testing.T) {
	gvRun(t, "C04", func(c *gvCase) {
		m := newModel(c, c.Intn(3))
		for round := 0; round < 3; round++ {
			m.history(2 + c.Intn(16))
			m.flush()
			for q := 0; q < 10; q++ {
				tokens := m.randKeys(3)
				var labels []string
				if c.Intn(3) == 0 {
					labels = m.randKeys(2)
				}
				what := fmt.Sprintf("Lookup(%q, %q, nil, false)", tokens, labels)
				c.logf("%s", what)
				docs, _ := m.ix.Lookup(tokens, labels, nil, false)
				for _, x := range docs {
					d := m.docs[x.DocId]
					if d == nil {
						continue
					}
					if want := m.bm25(d, tokens); !near(float64(x.BM25), want) {
						all := ""
						for _, o := range m.docs {
							all += o.String() + "\n"
						}
						c.failf("%s: document %q has BM25 %v, want %v; documents:\n%s", what, x.DocId, x.BM25, want, all)
					}
				}
			}
		}
	})
}
