// gv:pkg types
package types

import (
	"reflect"
	"runtime"
	"testing"
)

type gvCriteria struct{ n int }

func (gvCriteria) Score(doc IndexedDoc, fields interface{}) []float32 { return nil }

func gvStr(c *gvCase) string { return []string{"", "x", "zh", "./idx"}[c.Intn(4)] }

func gvInt(c *gvCase) int { return []int{0, 0, 1, 2, 7, 300, 1 << 20, -1}[c.Intn(8)] }

func gvOptions(c *gvCase) EngineOpts {
	b := func() bool { return c.Intn(2) == 0 }
	o := EngineOpts{NotUseGse: b(), Using: gvInt(c), GseDict: gvStr(c), PinYin: b(), UsePhrase: b(), StopTokenFile: gvStr(c),
		GseMode: b(), Hmm: b(), Model: gvStr(c), NumGseThreads: gvInt(c), NumShards: gvInt(c), IndexerBufLen: gvInt(c),
		NumIndexerThreads: gvInt(c), RankerBufLen: gvInt(c), NumRankerThreads: gvInt(c), StoreOnly: b(), UseStore: b(),
		StoreFolder: gvStr(c), StoreShards: gvInt(c), StoreEngine: gvStr(c), IDOnly: b()}
	if b() {
		o.IndexerOpts = &IndexerOpts{IndexType: c.Intn(3), DocCacheSize: gvInt(c)}
		if b() {
			o.IndexerOpts.BM25Parameters = &BM25Parameters{K1: float32(c.Intn(3)), B: float32(c.Intn(2))}
		}
	}
	if b() {
		o.DefRankOpts = &RankOpts{ReverseOrder: b(), OutputOffset: gvInt(c), MaxOutputs: gvInt(c)}
		if b() {
			o.DefRankOpts.ScoringCriteria = gvCriteria{c.Intn(9)}
		}
	}
	return o
}

// gvFlat copies what the pointers of the options point to.
type gvFlat struct {
	o EngineOpts
	i *IndexerOpts
	b *BM25Parameters
	r *RankOpts
}

func gvFlatten(o EngineOpts) (f gvFlat) {
	f.o = o
	f.o.IndexerOpts, f.o.DefRankOpts = nil, nil
	if o.IndexerOpts != nil {
		i := *o.IndexerOpts
		if i.BM25Parameters != nil {
			b := *i.BM25Parameters
			f.b = &b
		}
		i.BM25Parameters = nil
		f.i = &i
	}
	if o.DefRankOpts != nil {
		r := *o.DefRankOpts
		f.r = &r
	}
	return
}

func TestVerifC12Options(t *testing.T) {
	gvRun(t, "C12", func(c *gvCase) {
		o := gvOptions(c)
		want := gvFlatten(o)
		show := func(f gvFlat) []interface{} { return []interface{}{f.o, f.i, f.b, f.r} }
		oi, or := o.IndexerOpts, o.DefRankOpts
		var ob *BM25Parameters
		if oi != nil {
			ob = oi.BM25Parameters
		}
		cpus := runtime.NumCPU()
		set := func(p *int, d int) {
			if *p == 0 {
				*p = d
			}
		}
		set(&want.o.NumGseThreads, cpus)
		set(&want.o.NumShards, 8)
		set(&want.o.IndexerBufLen, cpus)
		set(&want.o.NumIndexerThreads, cpus)
		set(&want.o.RankerBufLen, cpus)
		set(&want.o.NumRankerThreads, cpus)
		set(&want.o.StoreShards, 8)
		if want.i == nil {
			want.i = &IndexerOpts{IndexType: FrequenciesIndex}
		}
		if want.b == nil {
			want.b = &BM25Parameters{K1: 2, B: 0.75}
		}
		if want.r == nil {
			want.r = &RankOpts{}
		}
		if want.r.ScoringCriteria == nil {
			want.r.ScoringCriteria = RankByBM25{}
		}
		c.logf("options %+v", gvFlatten(o))
		for n := 1; n <= 2; n++ {
			o.Init()
			if got := gvFlatten(o); !reflect.DeepEqual(got, want) {
				c.failf("after Init number %d: %+v, want %+v", n, show(got), show(want))
			}
			if oi != nil && o.IndexerOpts != oi || ob != nil && o.IndexerOpts.BM25Parameters != ob || or != nil && o.DefRankOpts != or {
				c.failf("Init replaced option objects that were set")
			}
		}
		i := IndexerOpts{IndexType: c.Intn(3), DocCacheSize: gvInt(c), BM25Parameters: ob}
		wi := i
		set(&wi.DocCacheSize, 300000)
		for n := 1; n <= 2; n++ {
			if i.Init(); i != wi {
				c.failf("IndexerOpts after Init number %d: %+v, want %+v", n, i, wi)
			}
		}
	})
}
