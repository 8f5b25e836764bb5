# Option defaults (C12).
package types

macro isBM25(v) = v != nil && is("types.RankByBM25", v)
# the documented defaults; nothing but the package initialiser writes them
macro defaultsOk() = defaultNumGseThreads >= 1 && defaultNumShards == 8 && defaultIndexerBufLen >= 1 && defaultNumIndexerThreads >= 1 &&
  defaultRankerBufLen >= 1 && defaultNumRankerThreads >= 1 && defaultStoreShards == 8 &&
  isBM25(defaultRankOpts.ScoringCriteria) && defaultRankOpts.ReverseOrder == false && defaultRankOpts.OutputOffset == 0 && defaultRankOpts.MaxOutputs == 0 &&
  defaultIndexerOpts.IndexType == 1 && defaultIndexerOpts.DocCacheSize == 0 && defaultIndexerOpts.BM25Parameters == addr(defaultBM25Parameters) &&
  defaultBM25Parameters.K1 == 2.0 && defaultBM25Parameters.B == 0.75

function numCPU() int
func "runtime.NumCPU"() (n)
  trusted "the number of CPUs is at least one and does not change"
  ensures n >= 1 && n == numCPU()

func init()
  ensures [defaults; C12] !old(init$guard) ==> defaultsOk()
  ensures [cpus; C12] !old(init$guard) ==> defaultNumGseThreads == numCPU() && defaultIndexerBufLen == numCPU() && defaultNumIndexerThreads == numCPU() && defaultRankerBufLen == numCPU() && defaultNumRankerThreads == numCPU()
  modifies defaultNumGseThreads, defaultNumShards, defaultIndexerBufLen, defaultNumIndexerThreads, defaultRankerBufLen, defaultNumRankerThreads, defaultStoreShards, obj(addr(defaultRankOpts)), obj(addr(defaultIndexerOpts)), obj(addr(defaultBM25Parameters))
  for C12

macro dflt(now, was, d) = now == (if was == 0 then d else was)

func EngineOpts.Init(options)
  requires options != nil && defaultsOk()
  modifies options.NumGseThreads, options.NumShards, options.IndexerBufLen, options.NumIndexerThreads, options.RankerBufLen, options.NumRankerThreads, options.IndexerOpts, options.DefRankOpts, options.StoreShards,
    options.IndexerOpts.BM25Parameters, options.DefRankOpts.ScoringCriteria
  ensures [threads; C12] dflt(options.NumGseThreads, old(options.NumGseThreads), defaultNumGseThreads) && dflt(options.NumIndexerThreads, old(options.NumIndexerThreads), defaultNumIndexerThreads) && dflt(options.NumRankerThreads, old(options.NumRankerThreads), defaultNumRankerThreads)
  ensures [shards; C12] dflt(options.NumShards, old(options.NumShards), defaultNumShards) && dflt(options.StoreShards, old(options.StoreShards), defaultStoreShards)
  ensures [buffers; C12] dflt(options.IndexerBufLen, old(options.IndexerBufLen), defaultIndexerBufLen) && dflt(options.RankerBufLen, old(options.RankerBufLen), defaultRankerBufLen)
  ensures [indexer; C12] options.IndexerOpts == (if old(options.IndexerOpts) == nil then addr(defaultIndexerOpts) else old(options.IndexerOpts))
  ensures [bm25; C12] options.IndexerOpts.BM25Parameters == (if old(options.IndexerOpts) == nil || old(options.IndexerOpts.BM25Parameters) == nil then addr(defaultBM25Parameters) else old(options.IndexerOpts.BM25Parameters))
  ensures [ranker; C12] options.DefRankOpts == (if old(options.DefRankOpts) == nil then addr(defaultRankOpts) else old(options.DefRankOpts))
  ensures [criteria; C12] options.DefRankOpts.ScoringCriteria == (if old(options.DefRankOpts) == nil || old(options.DefRankOpts.ScoringCriteria) == nil then defaultRankOpts.ScoringCriteria else old(options.DefRankOpts.ScoringCriteria))
  ensures [defaults; C12] defaultsOk()
  ensures [enough; C12] (old(options.NumShards) >= 0 ==> options.NumShards >= 1) && (old(options.StoreShards) >= 0 ==> options.StoreShards >= 1) && (old(options.NumGseThreads) >= 0 ==> options.NumGseThreads >= 1) &&
    (old(options.NumIndexerThreads) >= 0 ==> options.NumIndexerThreads >= 1) && (old(options.NumRankerThreads) >= 0 ==> options.NumRankerThreads >= 1) && (old(options.IndexerBufLen) >= 0 ==> options.IndexerBufLen >= 1) && (old(options.RankerBufLen) >= 0 ==> options.RankerBufLen >= 1)
  for C12

func IndexerOpts.Init(options)
  requires options != nil
  modifies options.DocCacheSize
  ensures [cache; C12] dflt(options.DocCacheSize, old(options.DocCacheSize), 300000)
  for C12
