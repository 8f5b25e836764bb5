// gv:pkg .
package riot

import (
	"fmt"
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC12Start(t *testing.T) {
	gvRun(t, "C12", func(c *gvCase) {
		b := func() bool { return c.Intn(2) == 0 }
		o := types.EngineOpts{NotUseGse: b(), GseDict: []string{"", "zh", "x"}[c.Intn(3)], UseStore: b(), StoreFolder: []string{"", "f"}[c.Intn(2)],
			Using: c.Intn(9), NumShards: c.Intn(9), StoreShards: c.Intn(3), StopTokenFile: []string{"", "s"}[c.Intn(2)], Model: []string{"", "m"}[c.Intn(2)], IDOnly: b(), PinYin: b(), GseMode: b(), Hmm: b(), StoreEngine: []string{"", "ldb"}[c.Intn(2)]}
		var e Engine
		e.loaded = b()
		want := o
		if o.GseDict == "" && !o.NotUseGse && !e.loaded {
			want.GseDict = "zh"
		}
		if o.UseStore && o.StoreFolder == "" {
			want.StoreFolder = DefaultPath
		}
		c.logf("options %+v loaded %v", o, e.loaded)
		if got := e.initDef(o); fmt.Sprint(got) != fmt.Sprint(want) {
			c.failf("start-up options %+v, want %+v", got, want)
		}
	})
}
