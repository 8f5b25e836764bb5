// gv:pkg core
// gv:race
package core

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/go-ego/riot/types"
)

func gvRaceDoc(r *rand.Rand) *types.DocIndex {
	d := &types.DocIndex{DocId: fmt.Sprint("d", r.Intn(9)), TokenLen: float32(1 + r.Intn(9))}
	for _, p := range r.Perm(len(mvocab))[:1+r.Intn(4)] {
		k := types.KeywordIndex{Text: mvocab[p], Frequency: 1}
		for n, at := 1+r.Intn(3), r.Intn(5); n > 0; n-- {
			k.Starts = append(k.Starts, at)
			at += 1 + r.Intn(9)
		}
		d.Keywords = append(d.Keywords, k)
	}
	return d
}

func gvTogether(c *gvCase, workers, each int, f func(r *rand.Rand)) {
	gvDeath(c)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		r := rand.New(rand.NewSource(c.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				f(r)
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		c.failf("deadlock: the operations do not return")
	}
}

// gvFree fails when a lock is still held after all operations are done.
func gvFree(c *gvCase, name string, l interface {
	TryLock() bool
	Unlock()
}) {
	if !l.TryLock() {
		c.failf("%s is still held after all operations returned", name)
	}
	l.Unlock()
}

func TestVerifC13Indexer(t *testing.T) {
	gvRun(t, "C13", func(c *gvCase) {
		ix := new(Indexer)
		o := types.IndexerOpts{IndexType: c.Intn(3), DocCacheSize: 1 + c.Intn(4), BM25Parameters: &types.BM25Parameters{K1: 2, B: 0.75}}
		ix.Init(o)
		workers, each := 2+c.Intn(5), 10+c.Intn(40)
		kinds := 1 + c.Intn(63)
		c.logf("Init %+v, %d goroutines of %d operations on one indexer, kinds %b", o, workers, each, kinds)
		for i := 0; i < 12; i++ {
			ix.AddDocToCache(gvRaceDoc(c.Rand), i == 11)
		}
		gvTogether(c, workers, each, func(r *rand.Rand) {
			k := r.Intn(6)
			for kinds&(1<<uint(k)) == 0 {
				k = (k + 1) % 6
			}
			switch k {
			case 0:
				ix.AddDocToCache(gvRaceDoc(r), r.Intn(8) == 0)
			case 1:
				ix.RemoveDocToCache(fmt.Sprint("d", r.Intn(9)), r.Intn(8) == 0)
			case 2:
				ix.HasDoc(fmt.Sprint("d", r.Intn(9)))
			case 3:
				docs, _ := ix.Lookup([]string{mpick(c1(r), mvocab), mpick(c1(r), mvocab)}[:1+r.Intn(2)], nil, nil, r.Intn(4) == 0)
				for _, d := range docs {
					for _, l := range d.TokenLocs {
						for _, p := range l {
							if p < 0 {
								panic("negative position")
							}
						}
					}
				}
			case 4:
				l := types.Logic{Must: r.Intn(2) == 0, Should: r.Intn(2) == 0, NotIn: r.Intn(2) == 0,
					Expr: types.Expr{Must: []string{mpick(c1(r), mvocab)}[:r.Intn(2)], Should: []string{mpick(c1(r), mvocab)}, NotIn: []string{mpick(c1(r), mvocab)}[:r.Intn(2)]}}
				ix.Lookup([]string{mpick(c1(r), mvocab)}, nil, nil, r.Intn(4) == 0, l)
			case 5:
				ix.AddDocToCache(nil, true)
			}
		})
		gvFree(c, "tableLock", &ix.tableLock)
		gvFree(c, "addCacheLock", &ix.addCacheLock)
		gvFree(c, "removeCacheLock", &ix.removeCacheLock)
	})
}

func c1(r *rand.Rand) *gvCase { return &gvCase{Rand: r} }

func TestVerifC13Ranker(t *testing.T) {
	gvRun(t, "C13", func(c *gvCase) {
		rk := new(Ranker)
		idOnly := c.Intn(2) == 0
		rk.Init(idOnly)
		workers, each := 2+c.Intn(5), 20+c.Intn(60)
		c.logf("%d goroutines of %d operations on one ranker, idOnly %v", workers, each, idOnly)
		gvTogether(c, workers, each, func(r *rand.Rand) {
			id := fmt.Sprint("d", r.Intn(9))
			switch r.Intn(4) {
			case 0:
				rk.AddDoc(id, r.Intn(9), "text", r.Intn(9))
			case 1:
				rk.RemoveDoc(id)
			default:
				var docs []types.IndexedDoc
				for k := r.Intn(6); k >= 0; k-- {
					docs = append(docs, types.IndexedDoc{DocId: fmt.Sprint("d", k), BM25: float32(k)})
				}
				rk.Rank(docs, types.RankOpts{ScoringCriteria: types.RankByBM25{}, MaxOutputs: r.Intn(4), ReverseOrder: r.Intn(2) == 0}, r.Intn(4) == 0)
			}
		})
		gvFree(c, "Ranker.lock", &rk.lock)
	})
}
