// gv:pkg core
package core

import "testing"

func TestVerifC03History(t *testing.T) {
	gvRun(t, "C03", func(c *gvCase) {
		m := newModel(c, c.Intn(3))
		for round := 0; round < 4; round++ {
			m.history(c.Intn(16))
			m.flush()
			m.checkIndex()
		}
		// everything removed: nothing is left
		if c.Intn(4) == 0 {
			for _, id := range m.ids {
				m.remove(id, false)
			}
			m.flush()
			m.ix.RemoveDocToCache("0", true)
			m.checkIndex()
		}
	})
}
