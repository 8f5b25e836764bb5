// gv:pkg .
package riot

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC07Engine(t *testing.T) {
	gvRun(t, "C07", func(c *gvCase) {
		m := newEngine(c)
		m.history(10 + c.Intn(30))
		m.flush()
		for k := 0; k < 20; k++ {
			q, found := m.randReq()
			if len(q.Tokens) > 1 {
				continue
			}
			n := len(found)
			q.RankOpts = &types.RankOpts{ReverseOrder: c.Intn(2) == 0, OutputOffset: gvBound(c, n), MaxOutputs: gvBound(c, n)}
			m.search(q, found)
		}
	})
}
