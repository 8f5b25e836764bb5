// gv:pkg .
package riot

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC08Shards(t *testing.T) {
	gvRun(t, "C08", func(c *gvCase) {
		m := newEngine(c)
		for round := 0; round < 3; round++ {
			m.history(4 + c.Intn(30))
			m.flush()
			for _, id := range m.ids {
				_, want := m.docs[id]
				if got := m.e.HasDoc(id); got != want {
					c.failf("HasDoc(%q) = %v, want %v", id, got, want)
				}
			}
			for k := 0; k < 8; k++ {
				q, found := m.randReq()
				q.CountDocsOnly, q.Orderless = c.Intn(5) == 0, c.Intn(5) == 0
				if c.Intn(2) == 0 {
					q.RankOpts = &types.RankOpts{ReverseOrder: c.Intn(2) == 0, OutputOffset: c.Intn(5), MaxOutputs: c.Intn(6)}
				}
				if c.Intn(4) == 0 {
					q.Timeout = 20000
				}
				m.search(q, found)
			}
		}
	})
}
