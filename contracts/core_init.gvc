# A new index shard (C12): the options it runs with and the size of its caches.
package core

func Indexer.Init(indexer, options)
  requires indexer != nil && !indexer.initialized && options.DocCacheSize >= 0 && options.DocCacheSize <= 1073741824
  modifies indexer.initOptions, indexer.initialized, indexer.tableLock.table, indexer.tableLock.docsState, indexer.addCacheLock.addCache, indexer.removeCacheLock.removeCache, indexer.docTokenLens
  ensures [options; C12] indexer.initOptions.DocCacheSize == (if options.DocCacheSize == 0 then 300000 else options.DocCacheSize) && indexer.initOptions.IndexType == options.IndexType && indexer.initOptions.BM25Parameters == options.BM25Parameters
  ensures [caches; C12] len(indexer.addCacheLock.addCache) == indexer.initOptions.DocCacheSize && len(indexer.removeCacheLock.removeCache) == 2 * indexer.initOptions.DocCacheSize && len(indexer.addCacheLock.addCache) >= 1
  ensures [empty; C12] indexer.initialized && card(dom(indexer.tableLock.table)) == 0 && card(dom(indexer.tableLock.docsState)) == 0 && card(dom(indexer.docTokenLens)) == 0
  for C12
