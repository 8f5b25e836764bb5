// gv:pkg core
package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC05Proximity(t *testing.T) {
	gvRun(t, "C05", func(c *gvCase) {
		m := newModel(c, types.LocsIndex)
		m.history(6 + c.Intn(16))
		m.flush()
		for q := 0; q < 12; q++ {
			tokens := m.randKeys(4)
			labels := m.randKeys(1)
			c.logf("Lookup(%q, %q, nil, false)", tokens, labels)
			docs, _ := m.ix.Lookup(tokens, labels, nil, false)
			for _, x := range docs {
				m.checkLocs(x, tokens)
			}
		}
	})
}
