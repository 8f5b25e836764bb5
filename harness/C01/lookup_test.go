// gv:pkg core
package core

import (
	"fmt"
	"testing"
)

func TestVerifC01Lookup(t *testing.T) {
	gvRun(t, "C01", func(c *gvCase) {
		m := newModel(c, c.Intn(3))
		for round := 0; round < 3; round++ {
			m.history(c.Intn(12))
			if c.Intn(2) == 0 {
				m.flush()
			}
			for q := 0; q < 6; q++ {
				tokens, labels := m.randKeys(3), m.randKeys(2)
				if c.Intn(3) == 0 {
					labels = nil
				}
				filter := m.randFilter()
				if len(m.touched) > 0 && filter == nil {
					filter = map[string]bool{}
				}
				countOnly := c.Intn(4) == 0
				want := map[string]bool{}
				if len(tokens)+len(labels) > 0 {
				doc:
					for id, d := range m.settled() {
						if !inFilter(filter, id) {
							continue
						}
						for _, k := range tokens {
							if !d.has(k) {
								continue doc
							}
						}
						for _, k := range labels {
							if !d.has(k) {
								continue doc
							}
						}
						want[id] = true
					}
				}
				what := fmt.Sprintf("Lookup(%q, %q, %v, %v)", tokens, labels, filter, countOnly)
				c.logf("%s", what)
				for rep := 0; rep < 2; rep++ { // the search changes nothing
					docs, n := m.ix.Lookup(tokens, labels, filter, countOnly)
					sameDocs(c, what, docs, n, want, countOnly)
				}
			}
		}
		m.flush()
		m.checkIndex()
	})
}
