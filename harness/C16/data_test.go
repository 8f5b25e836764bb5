// gv:pkg core
// gv:race
package core

import (
	"fmt"
	"sync"
	"testing"

	"github.com/go-ego/riot/types"
)

type gvDocShard struct {
	docs map[string]*types.DocInfo
	n    uint64
}

type gvRowShard struct {
	rows map[string]*types.KeywordIndices
	n    float32
}

func TestVerifC16Registries(t *testing.T) {
	gvRun(t, "C16", func(c *gvCase) {
		DocInfoGroup = make(map[int]*types.DocInfosShard)
		InvertedIndexGroup = make(map[int]*types.InvertedIndexShard)
		ds, rs := map[int]*gvDocShard{}, map[int]*gvRowShard{}
		for k := 0; k < 1+c.Intn(30); k++ {
			s := c.Intn(5) - 1
			id := fmt.Sprint("d", c.Intn(6))
			switch c.Intn(4) {
			case 0:
				c.logf("AddDocInfosShard(%d)", s)
				AddDocInfosShard(s)
				if ds[s] == nil {
					ds[s] = &gvDocShard{docs: map[string]*types.DocInfo{}}
				}
			case 1:
				d := &types.DocInfo{TokenLens: float32(k)}
				if c.Intn(8) == 0 {
					d = nil
				}
				c.logf("AddDocInfo(%d, %q, %v)", s, id, d)
				AddDocInfo(s, id, d)
				if ds[s] == nil {
					ds[s] = &gvDocShard{docs: map[string]*types.DocInfo{}}
				}
				ds[s].docs[id] = d
				ds[s].n++
			case 2:
				c.logf("AddInvertedIndexShard(%d)", s)
				AddInvertedIndexShard(s)
				if rs[s] == nil {
					rs[s] = &gvRowShard{rows: map[string]*types.KeywordIndices{}}
				}
			case 3:
				r := &types.KeywordIndices{DocIds: []uint64{uint64(k)}}
				c.logf("AddKeywordIndices(%d, %q, %v)", s, id, r)
				AddKeywordIndices(s, id, r)
				if rs[s] == nil {
					rs[s] = &gvRowShard{rows: map[string]*types.KeywordIndices{}}
				}
				rs[s].rows[id] = r
				rs[s].n++
			}
			if len(DocInfoGroup) != len(ds) || len(InvertedIndexGroup) != len(rs) {
				c.failf("%d document shards and %d row shards, want %d and %d", len(DocInfoGroup), len(InvertedIndexGroup), len(ds), len(rs))
			}
			for s, w := range ds {
				g := DocInfoGroup[s]
				if g == nil || g.NumDocs != w.n || len(g.DocInfos) != len(w.docs) {
					c.failf("document shard %d: %+v, want %+v", s, g, w)
				}
				for id, d := range w.docs {
					if got, ok := g.DocInfos[id]; !ok || got != d {
						c.failf("document shard %d: %q is %v, want %v", s, id, got, d)
					}
				}
			}
			for s, w := range rs {
				g := InvertedIndexGroup[s]
				if g == nil || g.TotalTokenLen != w.n || len(g.InvertedIndex) != len(w.rows) {
					c.failf("row shard %d: %+v, want %+v", s, g, w)
				}
				for id, r := range w.rows {
					if got, ok := g.InvertedIndex[id]; !ok || got != r {
						c.failf("row shard %d: %q is %v, want %v", s, id, got, r)
					}
				}
			}
			for i := 0; i < 6; i++ {
				id, want := fmt.Sprint("d", i), false
				for _, w := range ds {
					_, ok := w.docs[id]
					want = want || ok
				}
				if got := IsDocExist(id); got != want {
					c.failf("IsDocExist(%q) = %v, want %v", id, got, want)
				}
			}
		}
	})
}

// concurrent callers: a missing lock shows as lost counts or a crash of the map
func TestVerifC16Concurrent(t *testing.T) {
	gvRun(t, "C16", func(c *gvCase) {
		DocInfoGroup = make(map[int]*types.DocInfosShard)
		InvertedIndexGroup = make(map[int]*types.InvertedIndexShard)
		var wg sync.WaitGroup
		const workers, each = 8, 200
		c.logf("%d goroutines of %d calls", workers, each)
		gvDeath(c)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < each; i++ {
					AddDocInfo(i%3, fmt.Sprint(w, "-", i), nil)
					AddKeywordIndices(i%3, fmt.Sprint(w, "-", i), nil)
					AddDocInfosShard(i % 7)
					AddInvertedIndexShard(i % 7)
					IsDocExist(fmt.Sprint(w+1, "-", i))
				}
			}(w)
		}
		wg.Wait()
		docs, rows, n, l := 0, 0, uint64(0), float32(0)
		for _, s := range DocInfoGroup {
			docs += len(s.DocInfos)
			n += s.NumDocs
		}
		for _, s := range InvertedIndexGroup {
			rows += len(s.InvertedIndex)
			l += s.TotalTokenLen
		}
		if docs != workers*each || n != workers*each || rows != workers*each || l != workers*each {
			c.failf("%d documents counted %d, %d rows counted %v, want %d of each", docs, n, rows, l, workers*each)
		}
	})
}
