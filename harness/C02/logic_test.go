// gv:pkg core
package core

import (
	"fmt"
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC02Logic(t *testing.T) {
	gvRun(t, "C02", func(c *gvCase) {
		m := newModel(c, c.Intn(3))
		for round := 0; round < 2; round++ {
			m.history(4 + c.Intn(14))
			if c.Intn(4) > 0 {
				m.flush()
			}
			for q := 0; q < 12; q++ {
				tokens, labels := m.randKeys(2), m.randKeys(1)
				filter := m.randFilter()
				if len(m.touched) > 0 && filter == nil {
					filter = map[string]bool{}
				}
				countOnly := c.Intn(5) == 0
				var l types.Logic
				l.Must, l.Should, l.NotIn = c.Intn(3) == 0, c.Intn(2) == 0, c.Intn(3) == 0
				if c.Intn(2) == 0 {
					l.Expr.Must = m.randKeys(2)
				}
				if c.Intn(2) == 0 {
					l.Expr.Should = m.randKeys(3)
				}
				if c.Intn(2) == 0 {
					l.Expr.NotIn = m.randKeys(2)
				}
				keys := append(append([]string{}, tokens...), labels...)
				clause := func(on bool, ks []string) []string {
					if len(ks) > 0 {
						return ks
					}
					if on {
						return keys
					}
					return nil
				}
				must, should, notin := clause(l.Must, l.Expr.Must), clause(l.Should, l.Expr.Should), clause(l.NotIn, l.Expr.NotIn)
				what := fmt.Sprintf("Lookup(%q, %q, %v, %v, %+v)", tokens, labels, filter, countOnly, l)
				c.logf("%s", what)
				docs, n := m.ix.Lookup(tokens, labels, filter, countOnly, l)
				if len(must) == 0 && len(should) == 0 {
					continue // only a not-in clause, or none: outside the property, but it must not panic
				}
				want := map[string]bool{}
				for id, d := range m.settled() {
					if !inFilter(filter, id) {
						continue
					}
					ok := true
					for _, k := range must {
						ok = ok && d.has(k)
					}
					if len(should) > 0 {
						any := false
						for _, k := range should {
							any = any || d.has(k)
						}
						ok = ok && any
					}
					for _, k := range notin {
						ok = ok && !d.has(k)
					}
					if ok {
						want[id] = true
					}
				}
				sameDocs(c, what, docs, n, want, countOnly)
			}
		}
	})
}
