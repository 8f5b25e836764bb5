// gv:pkg core
package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestVerifC12Shard(t *testing.T) {
	gvRun(t, "C12", func(c *gvCase) {
		o := types.IndexerOpts{IndexType: c.Intn(3), DocCacheSize: c.Intn(4), BM25Parameters: []*types.BM25Parameters{nil, {K1: 1}}[c.Intn(2)]}
		var ix Indexer
		ix.Init(o)
		want := o
		if want.DocCacheSize == 0 {
			want.DocCacheSize = 300000
		}
		c.logf("options %+v", o)
		if ix.initOptions != want || len(ix.addCacheLock.addCache) < want.DocCacheSize {
			c.failf("the shard runs with %+v and a cache of %d, want %+v", ix.initOptions, len(ix.addCacheLock.addCache), want)
		}
	})
}
