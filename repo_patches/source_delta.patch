From 2cc2558b2823efd8cefc450fce87b2a92da918fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 01/25] fix: index the last added version of a document queued
 several times

---
 core/indexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ac9fc56..d85679d 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -137,8 +137,10 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 				// ok && docState == 0 表示存在于索引中，需先删除再添加
 				// ok && docState == 1 表示不一定存在于索引中，等待删除，需先删除再添加
 				if position != i {
-					indexer.addCacheLock.addCache[position], indexer.addCacheLock.addCache[i] =
-						indexer.addCacheLock.addCache[i], indexer.addCacheLock.addCache[position]
+					// 保持其余文档的先后顺序，同一文档以最后加入的为准
+					copy(indexer.addCacheLock.addCache[position+1:i+1],
+						indexer.addCacheLock.addCache[position:i])
+					indexer.addCacheLock.addCache[position] = docIndex
 				}
 
 				if docState == 0 {
@@ -168,7 +170,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
-		sort.Sort(addCachedDocs)
+		sort.Stable(addCachedDocs)
 		indexer.AddDocs(&addCachedDocs)
 	} else {
 		indexer.addCacheLock.Unlock()
-- 
2.43.0


From d19074c4b431f8b106f73c0a8be81a5437000cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 02/25] fix: do not overflow the add cache when one document
 fills it

---
 core/indexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index d85679d..6a38ced 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -161,7 +161,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
-		if indexer.RemoveDocToCache("0", forceUpdate) {
+		// addCache 已满且全部在等待删除时，必须强制删除，否则 addCache 将会溢出
+		full := position >= indexer.initOptions.DocCacheSize
+		if indexer.RemoveDocToCache("0", forceUpdate || full) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
-- 
2.43.0


From 7e610574690729e60fa10a252b7ce084283138c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 03/25] fix: take the table and remove cache locks in one order

---
 core/indexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 6a38ced..3a11619 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -126,6 +126,8 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 	docSize := indexer.addCacheLock.addCachePointer >= indexer.initOptions.DocCacheSize
 	if docSize || forceUpdate {
+		// 加锁顺序与 RemoveDocToCache 一致: removeCacheLock, tableLock
+		indexer.removeCacheLock.Lock()
 		indexer.tableLock.Lock()
 
 		position := 0
@@ -145,11 +147,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 				if docState == 0 {
 					// delete docs
-					indexer.removeCacheLock.Lock()
 					indexer.removeCacheLock.removeCache[indexer.removeCacheLock.removeCachePointer] =
 						docIndex.DocId
 					indexer.removeCacheLock.removeCachePointer++
-					indexer.removeCacheLock.Unlock()
 
 					indexer.tableLock.docsState[docIndex.DocId] = 1
 					indexer.numDocs--
@@ -161,6 +161,7 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
+		indexer.removeCacheLock.Unlock()
 		// addCache 已满且全部在等待删除时，必须强制删除，否则 addCache 将会溢出
 		full := position >= indexer.initOptions.DocCacheSize
 		if indexer.RemoveDocToCache("0", forceUpdate || full) {
-- 
2.43.0


From 3c92c6f78cc9181e198489ebf0f750bce2871574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 04/25] fix: do not use the cache arrays after their locks are
 released

---
 core/indexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 3a11619..827eed7 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -169,7 +169,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 			position = 0
 		}
 
-		addCachedDocs := indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer]
+		// 解锁后 addCache 会被其他协程改写，需复制
+		addCachedDocs := make(types.DocsIndex, indexer.addCacheLock.addCachePointer-position)
+		copy(addCachedDocs, indexer.addCacheLock.addCache[position:indexer.addCacheLock.addCachePointer])
 		indexer.addCacheLock.addCachePointer = position
 
 		indexer.addCacheLock.Unlock()
@@ -288,7 +290,9 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	docSizeFU := indexer.removeCacheLock.removeCachePointer >= indexer.initOptions.DocCacheSize ||
 		forceUpdate
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
-		removeCacheddocs := indexer.removeCacheLock.removeCache[:indexer.removeCacheLock.removeCachePointer]
+		// 解锁后 removeCache 会被其他协程改写，需复制
+		removeCacheddocs := make(types.DocsId, indexer.removeCacheLock.removeCachePointer)
+		copy(removeCacheddocs, indexer.removeCacheLock.removeCache)
 		indexer.removeCacheLock.removeCachePointer = 0
 		indexer.removeCacheLock.Unlock()
 		sort.Sort(removeCacheddocs)
-- 
2.43.0


From dda2efbed4f3dceb3feb10ea430728f65b2824a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 05/25] fix: read the document states under the table lock in
 HasDoc

---
 core/indexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/indexer.go b/core/indexer.go
index 827eed7..c59d02b 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -99,6 +99,9 @@ func (indexer *Indexer) getDocId(ti *KeywordIndices, i int) string {
 
 // HasDoc doc is exist return true
 func (indexer *Indexer) HasDoc(docId string) bool {
+	indexer.tableLock.RLock()
+	defer indexer.tableLock.RUnlock()
+
 	docState, ok := indexer.tableLock.docsState[docId]
 	if ok && docState == 0 {
 		return true
-- 
2.43.0


From ab07a63d061024bfee178a9e5cfdf580598c2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 06/25] fix: searching by labels only must not panic on a
 position index

---
 core/indexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index c59d02b..ce8bf2b 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -506,7 +506,7 @@ func (indexer *Indexer) internalLookup(
 						numTokensWithLocations++
 					}
 				}
-				if numTokensWithLocations != len(tokens) {
+				if len(tokens) == 0 || numTokensWithLocations != len(tokens) {
 					if !countDocsOnly {
 						docs = append(docs, types.IndexedDoc{
 							DocId: baseDocId,
-- 
2.43.0


From a83d392f19ef4421fb7608b2091592907a4478b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 07/25] fix: give every clause of a logic search its own keys

---
 core/indexer.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index ce8bf2b..53f9ac9 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -583,11 +583,9 @@ func (indexer *Indexer) LogicLookup(
 	// 如果存在与搜索键, 则要求所有的与搜索键都有对应的反向表
 	mustTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.Must) > 0 {
-		logicExpr = logic.Expr.Must
-	}
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
-		for _, keyword := range logicExpr {
+	mustKeys := logicKeys(logic.Must, logic.Expr.Must, logicExpr)
+	if len(mustKeys) > 0 {
+		for _, keyword := range mustKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if !found {
 				return
@@ -602,12 +600,9 @@ func (indexer *Indexer) LogicLookup(
 	// 2. 逻辑或和逻辑与之间是与关系
 	shouldTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.Should) > 0 {
-		logicExpr = logic.Expr.Should
-	}
-
-	if logic.Should == true || len(logic.Expr.Should) > 0 {
-		for _, keyword := range logicExpr {
+	shouldKeys := logicKeys(logic.Should, logic.Expr.Should, logicExpr)
+	if len(shouldKeys) > 0 {
+		for _, keyword := range shouldKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				shouldTable = append(shouldTable, indices)
@@ -623,11 +618,9 @@ func (indexer *Indexer) LogicLookup(
 	// 可以不存在逻辑非搜索（NotInTable为空), 允许逻辑非搜索键对应的反向表为空
 	notInTable := make([]*KeywordIndices, 0)
 
-	if len(logic.Expr.NotIn) > 0 {
-		logicExpr = logic.Expr.NotIn
-	}
-	if logic.NotIn == true || len(logic.Expr.NotIn) > 0 {
-		for _, keyword := range logicExpr {
+	notInKeys := logicKeys(logic.NotIn, logic.Expr.NotIn, logicExpr)
+	if len(notInKeys) > 0 {
+		for _, keyword := range notInKeys {
 			indices, found := indexer.tableLock.table[keyword]
 			if found {
 				notInTable = append(notInTable, indices)
@@ -637,7 +630,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 开始检索
 	numDocs = 0
-	if logic.Must == true || len(logic.Expr.Must) > 0 {
+	if len(mustKeys) > 0 {
 		// 如果存在逻辑与检索
 		for idx := indexer.getIndexLen(mustTable[0]) - 1; idx >= 0; idx-- {
 			baseDocId := indexer.getDocId(mustTable[0], idx)
@@ -667,7 +660,7 @@ func (indexer *Indexer) LogicLookup(
 
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
-	if logic.Should == true || len(logic.Expr.Should) > 0 {
+	if len(shouldKeys) > 0 {
 		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
@@ -696,6 +689,19 @@ func (indexer *Indexer) LogicLookup(
 	return
 }
 
+// logicKeys 返回一个逻辑子句的搜索键: 优先使用子句自身的搜索键,
+// 子句打开而没有自身的搜索键时使用查询的搜索键
+func logicKeys(on bool, keys, queryKeys []string) []string {
+	if len(keys) > 0 {
+		return keys
+	}
+	if on {
+		return queryKeys
+	}
+
+	return nil
+}
+
 // searchIndex 二分法查找 indices 中某文档的索引项
 // 第一个返回参数为找到的位置或需要插入的位置
 // 第二个返回参数标明是否找到
-- 
2.43.0


From f70d95295fb6f3e4d49554cf0a74a5a09d8daf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 08/25] fix: a logic search returns live documents of the id
 filter only

---
 core/indexer.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index 53f9ac9..115e494 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -645,7 +645,10 @@ func (indexer *Indexer) LogicLookup(
 			shouldFound := indexer.findInShouldTable(shouldTable, baseDocId)
 			notInFound := indexer.findInNotInTable(notInTable, baseDocId)
 
-			if mustFound && shouldFound && !notInFound {
+			docState, ok := indexer.tableLock.docsState[baseDocId]
+			live := ok && docState == 0
+
+			if live && mustFound && shouldFound && !notInFound {
 				indexedDoc := types.IndexedDoc{}
 				indexedDoc.DocId = baseDocId
 				if !countDocsOnly {
@@ -661,7 +664,8 @@ func (indexer *Indexer) LogicLookup(
 	// 不存在逻辑与检索, 则必须存在逻辑或检索
 	// 这时进行求并集操作
 	if len(shouldKeys) > 0 {
-		docs, numDocs = indexer.unionTable(shouldTable, notInTable, countDocsOnly)
+		docs, numDocs = indexer.unionTable(
+			shouldTable, notInTable, docIds, countDocsOnly)
 	} else {
 		uintDocIds := make([]string, 0)
 		// 当前直接返回 Not 逻辑数据
@@ -885,12 +889,21 @@ func (indexer *Indexer) findInNotInTable(table []*KeywordIndices, docId string)
 // 先求差集再求并集， 可以减小内存占用
 // docid 要保序
 func (indexer *Indexer) unionTable(table []*KeywordIndices,
-	notInTable []*KeywordIndices, countDocsOnly bool) (
+	notInTable []*KeywordIndices, filter map[string]bool, countDocsOnly bool) (
 	docs []types.IndexedDoc, numDocs int) {
 	docIds := make([]string, 0)
 	// 求并集
 	for i := 0; i < len(table); i++ {
 		for _, docid := range table[i].docIds {
+			if filter != nil {
+				if _, found := filter[docid]; !found {
+					continue
+				}
+			}
+			if docState, ok := indexer.tableLock.docsState[docid]; !ok || docState != 0 {
+				continue
+			}
+
 			if !indexer.findInNotInTable(notInTable, docid) {
 				found := false
 				for _, v := range docIds {
-- 
2.43.0


From 86bd4bcef9017fd7efd0bd7bf5b8c5fee18a10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 09/25] fix: compute the true minimal token proximity

---
 core/indexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/indexer.go b/core/indexer.go
index 115e494..b835e1b 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -784,8 +784,9 @@ func computeTokenProximity(table []*KeywordIndices,
 			if currentMinValues[iCurrent] == -1 {
 				continue
 			}
+			// 最接近的位置以 token 结束处为准
 			for iNext+1 < len(nextLocations) &&
-				nextLocations[iNext+1] < currentLocation {
+				nextLocations[iNext+1] < currentLocation+len(tokens[i-1]) {
 				iNext++
 			}
 
-- 
2.43.0


From f27db502d28a489fab86f1d0cf4d536aaa7a055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 10/25] fix: a search window with a negative or huge bound must
 not panic

---
 core/ranker.go   | 16 +++++++++-------
 engine.go        | 16 +++++++++-------
 ranker_worker.go | 10 ++++++++--
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/core/ranker.go b/core/ranker.go
index 5742568..603b44d 100755
--- a/core/ranker.go
+++ b/core/ranker.go
@@ -108,16 +108,18 @@ func (ranker *Ranker) RemoveDoc(docId string) {
 	ranker.lock.Unlock()
 }
 
+// maxOutput returns the bounds of the page: a negative offset counts as 0,
+// and there is no limit unless MaxOutputs is positive
 func maxOutput(options types.RankOpts, docsLen int) (int, int) {
-	var start, end int
-	if options.MaxOutputs != 0 {
-		start = utils.MinInt(options.OutputOffset, docsLen)
-		end = utils.MinInt(options.OutputOffset+options.MaxOutputs, docsLen)
-		return start, end
+	start := utils.MinInt(options.OutputOffset, docsLen)
+	if start < 0 {
+		start = 0
 	}
 
-	start = utils.MinInt(options.OutputOffset, docsLen)
-	end = docsLen
+	end := docsLen
+	if options.MaxOutputs > 0 && options.MaxOutputs < docsLen-start {
+		end = start + options.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/engine.go b/engine.go
index 5a83df7..43609d7 100755
--- a/engine.go
+++ b/engine.go
@@ -524,16 +524,18 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 	return
 }
 
+// maxRankOutput returns the bounds of the page: a negative offset counts as 0,
+// and there is no limit unless MaxOutputs is positive
 func maxRankOutput(rankOpts types.RankOpts, rankLen int) (int, int) {
-	var start, end int
-	if rankOpts.MaxOutputs == 0 {
-		start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-		end = rankLen
-		return start, end
+	start := utils.MinInt(rankOpts.OutputOffset, rankLen)
+	if start < 0 {
+		start = 0
 	}
 
-	start = utils.MinInt(rankOpts.OutputOffset, rankLen)
-	end = utils.MinInt(start+rankOpts.MaxOutputs, rankLen)
+	end := rankLen
+	if rankOpts.MaxOutputs > 0 && rankOpts.MaxOutputs < rankLen-start {
+		end = start + rankOpts.MaxOutputs
+	}
 	return start, end
 }
 
diff --git a/ranker_worker.go b/ranker_worker.go
index ef60590..163ae3f 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -60,8 +60,14 @@ func (engine *Engine) rankerAddDoc(shard int) {
 func (engine *Engine) rankerRank(shard int) {
 	for {
 		request := <-engine.rankerRankChans[shard]
-		if request.options.MaxOutputs != 0 {
-			request.options.MaxOutputs += request.options.OutputOffset
+		// every shard must return all that can be on the page
+		offset, max := request.options.OutputOffset, request.options.MaxOutputs
+		if offset > 0 && max > 0 {
+			// no limit when the sum overflows
+			if max += offset; max < 0 {
+				max = 0
+			}
+			request.options.MaxOutputs = max
 		}
 		request.options.OutputOffset = 0
 		outputDocs, numDocs := engine.rankers[shard].Rank(request.docs,
-- 
2.43.0


From c49e7375399fe7268169fe96388cbe143f83f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 11/25] fix: HasDoc must not add indexers to the engine

---
 riot.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/riot.go b/riot.go
index ffc121b..be398b0 100644
--- a/riot.go
+++ b/riot.go
@@ -23,7 +23,6 @@ import (
 	"encoding/gob"
 
 	"github.com/go-ego/murmur"
-	"github.com/go-ego/riot/core"
 	"github.com/go-ego/riot/types"
 	toml "github.com/go-vgo/gt/conf"
 )
@@ -105,8 +104,6 @@ func NewEngine(conf ...interface{}) *Engine {
 // HasDoc if the document is exist return true
 func (engine *Engine) HasDoc(docId string) bool {
 	for shard := 0; shard < engine.initOptions.NumShards; shard++ {
-		engine.indexers = append(engine.indexers, core.Indexer{})
-
 		has := engine.indexers[shard].HasDoc(docId)
 
 		if has {
-- 
2.43.0


From fe9c2b120af537c5d2573144cffc39d30c6622c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 12/25] fix: route every version of a document to the same
 shard

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 43609d7..3c84099 100755
--- a/engine.go
+++ b/engine.go
@@ -410,7 +410,9 @@ func (engine *Engine) internalIndexDoc(docId string, data types.DocData,
 		atomic.AddUint64(&engine.numForceUpdatingReqs, 1)
 	}
 
-	hash := murmur.Sum32(fmt.Sprintf("%s%s", docId, data.Content))
+	// the shard depends on the id only, so that an update reaches
+	// the shard that holds the document
+	hash := murmur.Sum32(docId)
 	engine.segmenterChan <- segmenterReq{
 		docId: docId, hash: hash, data: data, forceUpdate: forceUpdate}
 }
-- 
2.43.0


From 449641e564bf935f4e289c922691ca678c7d52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 13/25] fix: do not rely on overflow for the window of a shard

---
 ranker_worker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ranker_worker.go b/ranker_worker.go
index 163ae3f..c7cbbd9 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -16,6 +16,8 @@
 package riot
 
 import (
+	"math"
+
 	"github.com/go-ego/riot/types"
 )
 
@@ -63,9 +65,11 @@ func (engine *Engine) rankerRank(shard int) {
 		// every shard must return all that can be on the page
 		offset, max := request.options.OutputOffset, request.options.MaxOutputs
 		if offset > 0 && max > 0 {
-			// no limit when the sum overflows
-			if max += offset; max < 0 {
+			if max > math.MaxInt-offset {
+				// no limit when the sum overflows
 				max = 0
+			} else {
+				max += offset
 			}
 			request.options.MaxOutputs = max
 		}
-- 
2.43.0


From 36dc6e7544e72b09d277a1b7f90b867b96d4fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 14/25] fix: do not remove documents while the add cache is
 flushed

---
 core/indexer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/indexer.go b/core/indexer.go
index b835e1b..6f68fb7 100755
--- a/core/indexer.go
+++ b/core/indexer.go
@@ -164,10 +164,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 		}
 
 		indexer.tableLock.Unlock()
-		indexer.removeCacheLock.Unlock()
 		// addCache 已满且全部在等待删除时，必须强制删除，否则 addCache 将会溢出
 		full := position >= indexer.initOptions.DocCacheSize
-		if indexer.RemoveDocToCache("0", forceUpdate || full) {
+		if indexer.flushRemoveCache(forceUpdate || full) {
 			// 只有当存在于索引表中的文档已被删除，其才可以重新加入到索引表中
 			position = 0
 		}
@@ -179,7 +178,9 @@ func (indexer *Indexer) AddDocToCache(doc *types.DocIndex, forceUpdate bool) {
 
 		indexer.addCacheLock.Unlock()
 		sort.Stable(addCachedDocs)
+		// 加入完成前不可删除文档，否则删除等待加入的文档后其无法再次加入
 		indexer.AddDocs(&addCachedDocs)
+		indexer.removeCacheLock.Unlock()
 	} else {
 		indexer.addCacheLock.Unlock()
 	}
@@ -273,6 +274,7 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 	}
 
 	indexer.removeCacheLock.Lock()
+	defer indexer.removeCacheLock.Unlock()
 	if docId != "0" {
 		indexer.tableLock.Lock()
 		docState, ok := indexer.tableLock.docsState[docId]
@@ -290,20 +292,23 @@ func (indexer *Indexer) RemoveDocToCache(docId string, forceUpdate bool) bool {
 		indexer.tableLock.Unlock()
 	}
 
+	return indexer.flushRemoveCache(forceUpdate)
+}
+
+// flushRemoveCache 在 REMOVECACHE 已满或 forceUpdate 时删除其中所有文档，
+// 调用时需持有 removeCacheLock，返回值表示文档是否在索引表中被删除
+func (indexer *Indexer) flushRemoveCache(forceUpdate bool) bool {
 	docSizeFU := indexer.removeCacheLock.removeCachePointer >= indexer.initOptions.DocCacheSize ||
 		forceUpdate
 	if indexer.removeCacheLock.removeCachePointer > 0 && docSizeFU {
-		// 解锁后 removeCache 会被其他协程改写，需复制
 		removeCacheddocs := make(types.DocsId, indexer.removeCacheLock.removeCachePointer)
 		copy(removeCacheddocs, indexer.removeCacheLock.removeCache)
 		indexer.removeCacheLock.removeCachePointer = 0
-		indexer.removeCacheLock.Unlock()
 		sort.Sort(removeCacheddocs)
 		indexer.RemoveDocs(&removeCacheddocs)
 		return true
 	}
 
-	indexer.removeCacheLock.Unlock()
 	return false
 }
 
-- 
2.43.0


From 4aab3503097ea7cfcf0d788a6618648bed928d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 15/25] fix: Flush waits for the rankers as well

---
 engine.go        | 10 +++++++++-
 ranker_worker.go |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 3c84099..c0fd0ae 100755
--- a/engine.go
+++ b/engine.go
@@ -75,6 +75,9 @@ type Engine struct {
 	numTokenIndexAdded   uint64
 	numDocsStored        uint64
 
+	numDocsRanked     uint64
+	numRankersRemoved uint64
+
 	// 记录初始化参数
 	initOptions types.EngineOpts
 	initialized bool
@@ -824,7 +827,12 @@ func (engine *Engine) Flush() {
 		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
 		stored := !engine.initOptions.UseStore || nums
 
-		if inxd && rmd && stored {
+		// the rankers must be done too: a later request must not overtake
+		// one that is still in the channel of a ranker
+		ranked := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsRanked) &&
+			numRm == atomic.LoadUint64(&engine.numRankersRemoved)
+
+		if inxd && rmd && ranked && stored {
 			// 保证 CHANNEL 中 REQUESTS 全部被执行完
 			break
 		}
diff --git a/ranker_worker.go b/ranker_worker.go
index c7cbbd9..91ca3e5 100755
--- a/ranker_worker.go
+++ b/ranker_worker.go
@@ -17,6 +17,7 @@ package riot
 
 import (
 	"math"
+	"sync/atomic"
 
 	"github.com/go-ego/riot/types"
 )
@@ -56,6 +57,7 @@ func (engine *Engine) rankerAddDoc(shard int) {
 			engine.rankers[shard].AddDoc(request.docId, request.fields,
 				request.content, request.attri)
 		}
+		atomic.AddUint64(&engine.numDocsRanked, 1)
 	}
 }
 
@@ -86,5 +88,6 @@ func (engine *Engine) rankerRemoveDoc(shard int) {
 	for {
 		request := <-engine.rankerRemoveDocChans[shard]
 		engine.rankers[shard].RemoveDoc(request.docId)
+		atomic.AddUint64(&engine.numRankersRemoved, 1)
 	}
 }
-- 
2.43.0


From 0bdc66ebd34bb6167d78104cc94f1077f5ede637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 16/25] fix: OpenBadger returns its error like the other
 engines

---
 store/badger_store.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index faf8d9b..1eb08b8 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -15,8 +15,6 @@
 package store
 
 import (
-	"log"
-
 	"github.com/dgraph-io/badger"
 )
 
@@ -40,10 +38,10 @@ func OpenBadger(dbPath string) (Store, error) {
 	// opt.SyncWrites = true
 	kv, err := badger.Open(opt)
 	if err != nil {
-		log.Fatal("badger NewKV: ", err)
+		return nil, err
 	}
 
-	return &Badger{kv}, err
+	return &Badger{kv}, nil
 }
 
 // WALName is useless for this kv database
-- 
2.43.0


From 1dac7971b92d6746ec8953bb8967c94a614b98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 17/25] fix: Badger.Has reports a missing key without an error

---
 store/badger_store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index 1eb08b8..2bfe28c 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -92,12 +92,12 @@ func (s *Badger) Delete(k []byte) error {
 // Has returns true if the DB does contains the given key.
 func (s *Badger) Has(k []byte) (bool, error) {
 	// return s.db.Exists(k)
-	val, err := s.Get(k)
-	if string(val) == "" && err != nil {
-		return false, err
+	_, err := s.Get(k)
+	if err == badger.ErrKeyNotFound {
+		return false, nil
 	}
 
-	return true, err
+	return err == nil, err
 }
 
 // Len returns the size of lsm and value log files in bytes.
-- 
2.43.0


From 916cfe921158805ceb708a4646c690455ab7c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 18/25] fix: Bolt.Has finds keys with empty values

---
 store/bolt_store.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index b9988e2..e217cb6 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -88,12 +88,7 @@ func (s *Bolt) Has(k []byte) (bool, error) {
 		return nil
 	})
 
-	// b == nil
-	if err != nil || string(b) == "" {
-		return false, err
-	}
-
-	return true, nil
+	return b != nil, err
 }
 
 // ForEach get all key and value
-- 
2.43.0


From 0ec01cecb9f5422fa89ca7743ab34db90772b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 19/25] fix: Bolt.Get returns a copy of the value

---
 store/bolt_store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/bolt_store.go b/store/bolt_store.go
index e217cb6..09bc710 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -65,7 +65,10 @@ func (s *Bolt) Set(k []byte, v []byte) error {
 // Any error that is returned from the function is returned from the View() method.
 func (s *Bolt) Get(k []byte) (b []byte, err error) {
 	err = s.db.View(func(tx *bolt.Tx) error {
-		b = tx.Bucket(gdocs).Get(k)
+		// the value is only valid within the transaction
+		if v := tx.Bucket(gdocs).Get(k); v != nil {
+			b = append([]byte{}, v...)
+		}
 		return nil
 	})
 	return
-- 
2.43.0


From 7d4353eac36def0f9c57ed8ce30927d7458c15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 20/25] fix: pass copies of keys and values to the callback of
 ForEach

---
 store/badger_store.go | 2 +-
 store/bolt_store.go   | 5 ++++-
 store/ldb_store.go    | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/store/badger_store.go b/store/badger_store.go
index 2bfe28c..3f9583b 100755
--- a/store/badger_store.go
+++ b/store/badger_store.go
@@ -115,7 +115,7 @@ func (s *Badger) ForEach(fn func(k, v []byte) error) error {
 		defer it.Close()
 		for it.Rewind(); it.Valid(); it.Next() {
 			item := it.Item()
-			key := item.Key()
+			key := item.KeyCopy(nil)
 			val, err := item.ValueCopy(nil)
 			if err != nil {
 				return err
diff --git a/store/bolt_store.go b/store/bolt_store.go
index 09bc710..fb96c44 100755
--- a/store/bolt_store.go
+++ b/store/bolt_store.go
@@ -100,7 +100,10 @@ func (s *Bolt) ForEach(fn func(k, v []byte) error) error {
 		b := tx.Bucket(gdocs)
 		c := b.Cursor()
 		for k, v := c.First(); k != nil; k, v = c.Next() {
-			if err := fn(k, v); err != nil {
+			// k and v are only valid within the transaction
+			key := append([]byte{}, k...)
+			val := append([]byte{}, v...)
+			if err := fn(key, val); err != nil {
 				return err
 			}
 		}
diff --git a/store/ldb_store.go b/store/ldb_store.go
index ee9eba8..f9e0a86 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -90,8 +90,8 @@ func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
-		key := iter.Key()
-		val := iter.Value()
+		key := append([]byte{}, iter.Key()...)
+		val := append([]byte{}, iter.Value()...)
 		if err := fn(key, val); err != nil {
 			return err
 		}
-- 
2.43.0


From baf9ddc5ada7ec62c872fa2d7889fa01303ec387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 21/25] fix: Leveldb.ForEach releases its iterator when the
 callback fails

---
 store/ldb_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/ldb_store.go b/store/ldb_store.go
index f9e0a86..0496933 100755
--- a/store/ldb_store.go
+++ b/store/ldb_store.go
@@ -87,6 +87,7 @@ func (s *Leveldb) Len() (leveldb.Sizes, error) {
 // ForEach get all key and value
 func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 	iter := s.db.NewIterator(nil, nil)
+	defer iter.Release()
 	for iter.Next() {
 		// Remember that the contents of the returned slice should not be modified, and
 		// only valid until the next call to Next.
@@ -96,7 +97,6 @@ func (s *Leveldb) ForEach(fn func(k, v []byte) error) error {
 			return err
 		}
 	}
-	iter.Release()
 	return iter.Error()
 }
 
-- 
2.43.0


From fee8c9050ef32f751bf5389bafd292f7c0358ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 22/25] fix: order removals from the store after earlier
 additions

---
 engine.go       | 8 ++++++--
 store_worker.go | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index c0fd0ae..00303c9 100755
--- a/engine.go
+++ b/engine.go
@@ -77,6 +77,7 @@ type Engine struct {
 
 	numDocsRanked     uint64
 	numRankersRemoved uint64
+	numDocsUnstored   uint64
 
 	// 记录初始化参数
 	initOptions types.EngineOpts
@@ -463,7 +464,9 @@ func (engine *Engine) RemoveDoc(docId string, forceUpdate ...bool) {
 		// 从数据库中删除
 		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)
 
-		go engine.storeRemoveDoc(docId, hash)
+		// through the channel, so that it comes after earlier additions
+		engine.storeIndexDocChans[hash] <- storeIndexDocReq{
+			docId: docId, remove: true}
 	}
 }
 
@@ -824,7 +827,8 @@ func (engine *Engine) Flush() {
 		numRm := engine.numRemovingReqs * uint64(engine.initOptions.NumShards)
 		rmd := numRm == atomic.LoadUint64(&engine.numDocsRemoved)
 
-		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored)
+		nums := engine.numIndexingReqs == atomic.LoadUint64(&engine.numDocsStored) &&
+			engine.numRemovingReqs == atomic.LoadUint64(&engine.numDocsUnstored)
 		stored := !engine.initOptions.UseStore || nums
 
 		// the rankers must be done too: a later request must not overtake
diff --git a/store_worker.go b/store_worker.go
index 6463dfd..71c552a 100755
--- a/store_worker.go
+++ b/store_worker.go
@@ -27,6 +27,8 @@ import (
 type storeIndexDocReq struct {
 	docId string
 	data  types.DocData
+	// remove the document instead
+	remove bool
 	// data        types.DocumentIndexData
 }
 
@@ -34,6 +36,12 @@ func (engine *Engine) storeIndexDoc(shard int) {
 	for {
 		request := <-engine.storeIndexDocChans[shard]
 
+		if request.remove {
+			engine.storeRemoveDoc(request.docId, uint32(shard))
+			atomic.AddUint64(&engine.numDocsUnstored, 1)
+			continue
+		}
+
 		// 得到 key
 		b := []byte(request.docId)
 
-- 
2.43.0


From 6cea8b9652f5b530abe2241a2bdf78447157698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 23/25] fix: SearchDoc and SearchID do not panic when only
 counting

---
 engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 00303c9..5cc25fd 100755
--- a/engine.go
+++ b/engine.go
@@ -749,9 +749,12 @@ func (engine *Engine) Ranks(request types.SearchReq, rankOpts types.RankOpts,
 // This function is thread safe, return not IDonly
 func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc) {
 	resp := engine.Search(request)
+	// there are no documents when only counting
+	docs, _ := resp.Docs.(types.ScoredDocs)
+
 	return types.SearchDoc{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredDocs),
+		Docs:     docs,
 	}
 }
 
@@ -760,9 +763,12 @@ func (engine *Engine) SearchDoc(request types.SearchReq) (output types.SearchDoc
 func (engine *Engine) SearchID(request types.SearchReq) (output types.SearchID) {
 	// return types.SearchID(engine.Search(request))
 	resp := engine.Search(request)
+	// there are no documents when only counting
+	docs, _ := resp.Docs.(types.ScoredIDs)
+
 	return types.SearchID{
 		BaseResp: resp.BaseResp,
-		Docs:     resp.Docs.(types.ScoredIDs),
+		Docs:     docs,
 	}
 }
 
-- 
2.43.0


From 891da2ce0e09c319d8429ee03047921aacc74f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 24/25] fix: repeated spaces in the text of a query do not make
 empty tokens

---
 engine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 5cc25fd..2987b30 100755
--- a/engine.go
+++ b/engine.go
@@ -511,7 +511,12 @@ func (engine *Engine) Tokens(request types.SearchReq) (tokens []string) {
 	if request.Text != "" {
 		reqText := strings.ToLower(request.Text)
 		if engine.initOptions.NotUseGse {
-			tokens = strings.Split(reqText, " ")
+			for _, t := range strings.Split(reqText, " ") {
+				// repeated spaces do not make tokens
+				if t != "" {
+					tokens = append(tokens, t)
+				}
+			}
 		} else {
 			// querySegments := engine.segmenter.Segment([]byte(reqText))
 			// tokens = engine.Tokens([]byte(reqText))
-- 
2.43.0


From ca77496ff15149b7e9a64c5d8c0703fed20e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 25/25] fix: pinyin keys do not replace the locations of tokens

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index dddd2c4..dec27ec 100755
--- a/segment.go
+++ b/segment.go
@@ -235,7 +235,10 @@ func (engine *Engine) makeTokensMap(request segmenterReq) (map[string][]int, int
 		for i := 0; i < count; i++ {
 			str := strArr[i]
 			if !engine.stopTokens.IsStopToken(str) {
-				tokensMap[str] = []int{i}
+				// a key that is there already keeps its locations
+				if _, ok := tokensMap[str]; !ok {
+					tokensMap[str] = []int{i}
+				}
 			}
 		}
 
-- 
2.43.0

