# Updates of the inverted index: the add cache, the remove cache and the batch operations.
package core

# the shape of the index is proved under C03
relies C13 on C03
relies C04 on C03

lockorder core.Indexer.addCacheLock < core.Indexer.removeCacheLock < core.Indexer.tableLock

guard field core.Indexer.tableLock.table by indexer.tableLock
guard field core.Indexer.tableLock.docsState by indexer.tableLock
guard field core.Indexer.numDocs by indexer.tableLock
guard field core.Indexer.totalTokenLen by indexer.tableLock
guard field core.Indexer.docTokenLens by indexer.tableLock
guard map(indexer.tableLock.table) by indexer.tableLock
guard map(indexer.tableLock.docsState) by indexer.tableLock
guard map(indexer.docTokenLens) by indexer.tableLock
guard typefield core.KeywordIndices.docIds by indexer.tableLock
guard typefield core.KeywordIndices.frequencies by indexer.tableLock
guard typefield core.KeywordIndices.locations by indexer.tableLock
guard field core.Indexer.addCacheLock.addCache by indexer.addCacheLock
guard field core.Indexer.addCacheLock.addCachePointer by indexer.addCacheLock
guard elems(indexer.addCacheLock.addCache) by indexer.addCacheLock
guard field core.Indexer.removeCacheLock.removeCache by indexer.removeCacheLock
guard field core.Indexer.removeCacheLock.removeCachePointer by indexer.removeCacheLock
guard elems(indexer.removeCacheLock.removeCache) by indexer.removeCacheLock

macro unlocked(ix) = held(ix.tableLock) == 0 && held(ix.addCacheLock) == 0 && held(ix.removeCacheLock) == 0

# ---- documents and their keys

# the version of each document last put into the index, and how many of its keys are in it
ghost core.Indexer.$ver lmap[string]*types.DocIndex
ghost core.Indexer.$kn lmap[string]int

# kwIdx(doc, n, k): the last of the first n keys of doc that is k, -1 if there is none
function kwIdx(doc *types.DocIndex, n int, k string) int =
  if n <= 0 then -1 else if doc.Keywords[n-1].Text == k then n - 1 else kwIdx(doc, n - 1, k)
lemma kwIdxIs(doc *types.DocIndex, n int, k string)
  { kwIdx(doc, n, k) }
  ensures kwIdx(doc, n, k) == -1 || 0 <= kwIdx(doc, n, k) < n && doc.Keywords[kwIdx(doc, n, k)].Text == k
  ensures forall j int :: { doc.Keywords[j].Text } kwIdx(doc, n, k) < j < n && 0 <= j ==> doc.Keywords[j].Text != k
  induction n

# lastIdx(A, n, d): the last of the first n documents with id d, -1 if there is none
function lastIdx(A lmap[int]*types.DocIndex, n int, d string) int =
  if n <= 0 then -1 else if A[n-1].DocId == d then n - 1 else lastIdx(A, n - 1, d)
lemma lastIdxIs(A lmap[int]*types.DocIndex, n int, d string)
  { lastIdx(A, n, d) }
  ensures lastIdx(A, n, d) == -1 || 0 <= lastIdx(A, n, d) < n && A[lastIdx(A, n, d)].DocId == d
  ensures forall j int :: { A[j] } lastIdx(A, n, d) < j < n && 0 <= j ==> A[j].DocId != d
  induction n

macro docOk(doc) = doc != nil &&
  (forall a int, b int :: { doc.Keywords[a].Text, doc.Keywords[b].Text } 0 <= a < b < len(doc.Keywords) ==> doc.Keywords[a].Text != doc.Keywords[b].Text) &&
  (forall a int :: { doc.Keywords[a].Starts } 0 <= a < len(doc.Keywords) ==> posOk(doc.Keywords[a].Starts))

# ---- the index against the versions V of the documents, of which the first K[d] keys are indexed

macro entriesOk(ix, V, K) = forall k string, p int :: { rows(ix)[k].docIds[p] } k in rows(ix) && 0 <= p < len(rows(ix)[k].docIds) ==>
  (let d = rows(ix)[k].docIds[p] :: let j = kwIdx(V[d], K[d], k) :: j >= 0 &&
    (ix.initOptions.IndexType == types.LocsIndex ==> rows(ix)[k].locations[p] == V[d].Keywords[j].Starts) &&
    (ix.initOptions.IndexType == types.FrequenciesIndex ==> rows(ix)[k].frequencies[p] == V[d].Keywords[j].Frequency))
macro complete(ix, V, K) = forall k string, d string :: { kwIdx(V[d], K[d], k) } kwIdx(V[d], K[d], k) >= 0 ==> contains(ix, k, d)

# rows share no memory with each other nor with the remove cache
macro apart(ix) = (forall k string, l string :: { rows(ix)[k], rows(ix)[l] } k in rows(ix) && l in rows(ix) && k != l ==>
    rows(ix)[k] != rows(ix)[l] && arr(rows(ix)[k].docIds) != arr(rows(ix)[l].docIds) &&
    (ix.initOptions.IndexType == types.LocsIndex ==> arr(rows(ix)[k].locations) != arr(rows(ix)[l].locations)) &&
    (ix.initOptions.IndexType == types.FrequenciesIndex ==> arr(rows(ix)[k].frequencies) != arr(rows(ix)[l].frequencies)))
macro clear(ix, a) = forall k string :: { rows(ix)[k] } k in rows(ix) ==> arr(rows(ix)[k].docIds) != a

macro tableFine(ix) = rowsOk(ix) && apart(ix) && clear(ix, arr(ix.removeCacheLock.removeCache)) && ix.docTokenLens != nil

# state of a document: 0 indexed, 1 indexed and waiting for removal, 2 about to be indexed
macro stateOf(ix, d) = if d in ix.tableLock.docsState then ix.tableLock.docsState[d] else -1
macro statesOk(ix) = forall d string :: { ix.tableLock.docsState[d] } { ix.$kn[d] } -1 <= stateOf(ix, d) <= 2 && (d in ix.tableLock.docsState ==> ix.tableLock.docsState[d] >= 0) &&
  (if stateOf(ix, d) == 0 || stateOf(ix, d) == 1 then ix.$ver[d] != nil && ix.$ver[d].DocId == d && ix.$kn[d] == len(ix.$ver[d].Keywords) else ix.$kn[d] == 0)
macro settled(ix) = forall d string :: { ix.tableLock.docsState[d] } stateOf(ix, d) != 2
# the remove cache holds exactly the documents waiting for removal
macro removing(ix, d) = inR(row(ix.removeCacheLock.removeCache), 0, ix.removeCacheLock.removeCachePointer, d)
macro removesOk(ix) = (forall d string :: { ix.tableLock.docsState[d] } stateOf(ix, d) == 1 <==> removing(ix, d)) &&
  off(ix.removeCacheLock.removeCache) == 0 && len(ix.removeCacheLock.removeCache) == 2 * ix.initOptions.DocCacheSize &&
  0 <= ix.removeCacheLock.removeCachePointer <= len(ix.removeCacheLock.removeCache)
macro addsOk(ix) = off(ix.addCacheLock.addCache) == 0 && len(ix.addCacheLock.addCache) == ix.initOptions.DocCacheSize &&
  0 <= ix.addCacheLock.addCachePointer < ix.initOptions.DocCacheSize && 
  (forall q int :: { ix.addCacheLock.addCache[q] } 0 <= q < ix.addCacheLock.addCachePointer ==> docOk(ix.addCacheLock.addCache[q]))
macro sizesOk(ix) = 1 <= ix.initOptions.DocCacheSize && ix.initOptions.DocCacheSize <= 1073741824
macro tableIs(ix) = tableFine(ix) && entriesOk(ix, ix.$ver, ix.$kn) && complete(ix, ix.$ver, ix.$kn) && statesOk(ix)

# what a flush leaves: the document waiting in the add cache, else the indexed one that does not wait for removal
function lastVer(A lmap[int]*types.DocIndex, n int, d string) *types.DocIndex = if lastIdx(A, n, d) < 0 then nil else A[lastIdx(A, n, d)]
macro view(ix, d) = let c = lastVer(row(ix.addCacheLock.addCache), ix.addCacheLock.addCachePointer, d) :: if c != nil then c else if stateOf(ix, d) == 0 then ix.$ver[d] else nil

func Indexer.HasDoc(indexer, docId) (r)
  requires [C13] unlocked(indexer)
  ensures [live; C01] r <==> live(indexer, docId)
  for C01 C13

macro ptrOf(ptrs, k) = if k in ptrs then ptrs[k] else 0

func Indexer.AddDocs(indexer, docs)
  requires indexer.initialized && docs != nil
  requires [C13] held(indexer.tableLock) == 0
  requires [apart; C13] arr(deref(docs)) != arr(indexer.addCacheLock.addCache)
  requires [C03] tableIs(indexer) && off(deref(docs)) == 0
  requires [docs; C03] forall i int :: { deref(docs)[i] } 0 <= i < len(deref(docs)) ==> docOk(deref(docs)[i]) && (stateOf(indexer, deref(docs)[i].DocId) == -1 || stateOf(indexer, deref(docs)[i].DocId) == 2)
  requires [sorted; C03] forall i int, j int :: { deref(docs)[i], deref(docs)[j] } 0 <= i < j < len(deref(docs)) ==> deref(docs)[i].DocId <= deref(docs)[j].DocId
  modifies map(indexer.tableLock.docsState), map(indexer.tableLock.table), map(indexer.docTokenLens), indexer.numDocs, indexer.totalTokenLen, indexer.$ver, indexer.$kn,
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  ensures [table; C03] tableFine(indexer)
  ensures [entries; C03] entriesOk(indexer, indexer.$ver, indexer.$kn)
  ensures [complete; C03] complete(indexer, indexer.$ver, indexer.$kn)
  ensures [states; C03] statesOk(indexer)
  ensures [docs; C03] forall d string :: { indexer.tableLock.docsState[d] } { indexer.$ver[d] } let l = lastIdx(row(deref(docs)), len(deref(docs)), d) ::
    if l >= 0 then stateOf(indexer, d) == 0 && indexer.$ver[d] == deref(docs)[l] else stateOf(indexer, d) == old(stateOf(indexer, d)) && indexer.$ver[d] == old(indexer.$ver[d])
  ensures [frame; C03] rowof("string", arr(indexer.removeCacheLock.removeCache)) == old(rowof("string", arr(indexer.removeCacheLock.removeCache)))
  loop 0
    invariant [frame; C03] rowof("string", arr(indexer.removeCacheLock.removeCache)) == old(rowof("string", arr(indexer.removeCacheLock.removeCache)))
    invariant [rows; C03] rowsOk(indexer)
    invariant [apart; C03] apart(indexer)
    invariant [clear; C03] clear(indexer, arr(indexer.removeCacheLock.removeCache)) && indexer.docTokenLens != nil
    invariant [docok; C03] forall i int :: { deref(docs)[i] } 0 <= i < len(deref(docs)) ==> docOk(deref(docs)[i])
    invariant [entries; C03] entriesOk(indexer, indexer.$ver, indexer.$kn)
    invariant [complete; C03] complete(indexer, indexer.$ver, indexer.$kn)
    invariant [states; C03; by states state was docok] statesOk(indexer)
    invariant [docs; C03] forall d string :: { indexer.tableLock.docsState[d] } { indexer.$ver[d] } let l = lastIdx(row(deref(docs)), len(deref(docs)), d) ::
      if l >= 0 && l < $idx then stateOf(indexer, d) == 0 && indexer.$ver[d] == deref(docs)[l] else stateOf(indexer, d) == old(stateOf(indexer, d)) && indexer.$ver[d] == old(indexer.$ver[d])
    invariant [ptr; C03] forall k string :: { rows(indexer)[k] } k in rows(indexer) ==> 0 <= ptrOf(indexPointers, k) < len(rows(indexer)[k].docIds)
    invariant [ptr0; C03] forall k string :: { rows(indexer)[k] } !(k in rows(indexer)) ==> ptrOf(indexPointers, k) == 0
    invariant [below; C03] $idx < len(deref(docs)) ==> forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && 0 <= p < ptrOf(indexPointers, k) ==> rows(indexer)[k].docIds[p] < deref(docs)[$idx].DocId
    hint [was; C03] let d = doc.DocId :: iter(stateOf(indexer, d)) == -1 || iter(stateOf(indexer, d)) == 2
    hint [state; C03; by same] let d = doc.DocId :: stateOf(indexer, d) == 0 ==> forall d1 string :: { indexer.tableLock.docsState[d1] } d1 != d ==> stateOf(indexer, d1) == iter(stateOf(indexer, d1)) && (d1 in indexer.tableLock.docsState <==> iter(d1 in indexer.tableLock.docsState))
    hint [skip; C03] i < len(deref(docs)) - 1 && deref(docs)[i].DocId == deref(docs)[i+1].DocId ==> lastIdx(row(deref(docs)), len(deref(docs)), doc.DocId) > i
    hint [last; C03] !(i < len(deref(docs)) - 1 && deref(docs)[i].DocId == deref(docs)[i+1].DocId) ==> lastIdx(row(deref(docs)), len(deref(docs)), doc.DocId) == i
  set at loop 0 indexer.$kn := if stateOf(indexer, doc.DocId) == 0 then indexer.$kn[doc.DocId := len(doc.Keywords)] else indexer.$kn
  set at loop 0 indexer.$ver := if stateOf(indexer, doc.DocId) == 0 then indexer.$ver[doc.DocId := doc] else indexer.$ver
  loop 1
    invariant [frame; C03] rowof("string", arr(indexer.removeCacheLock.removeCache)) == old(rowof("string", arr(indexer.removeCacheLock.removeCache)))
    invariant [docok; C03] docOk(doc)
    invariant [rows; C03; by rows new at lens others ins ins2 ins3 sorted starts] rowsOk(indexer)
    invariant [apart; C03] apart(indexer)
    invariant [clear; C03] clear(indexer, arr(indexer.removeCacheLock.removeCache)) && indexer.docTokenLens != nil
    invariant [entries; C03; by ours theirs] entriesOk(indexer, indexer.$ver[doc.DocId := doc], indexer.$kn[doc.DocId := $idx])
    invariant [complete; C03; by complete kwv lens others rowsame inrow new] complete(indexer, indexer.$ver[doc.DocId := doc], indexer.$kn[doc.DocId := $idx])
    invariant [same; C03] forall d string :: { indexer.tableLock.docsState[d] } stateOf(indexer, d) == before(stateOf(indexer, d)) && (d in indexer.tableLock.docsState <==> before(d in indexer.tableLock.docsState))
    invariant [ptr; C03] forall k string :: { rows(indexer)[k] } k in rows(indexer) ==> 0 <= ptrOf(indexPointers, k) < len(rows(indexer)[k].docIds)
    invariant [ptr0; C03] forall k string :: { rows(indexer)[k] } !(k in rows(indexer)) ==> ptrOf(indexPointers, k) == 0
    invariant [below; C03] forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && 0 <= p < ptrOf(indexPointers, k) ==> rows(indexer)[k].docIds[p] < doc.DocId
    hint [new; C03] let t = keyword.Text :: let r = rows(indexer)[t] :: !iter(t in rows(indexer)) ==> t in rows(indexer) && len(r.docIds) == 1 && r.docIds[0] == doc.DocId &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> len(r.locations) == 1 && r.locations[0] == keyword.Starts) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> len(r.frequencies) == 1 && r.frequencies[0] == keyword.Frequency)
    hint [at; C03] let t = keyword.Text :: iter(t in rows(indexer)) ==> let r = rows(indexer)[t] :: let n = iter(len(r.docIds)) :: t in rows(indexer) && r == iter(rows(indexer)[t]) && len(r.docIds) == n + 1 && 0 <= indexPointers[t] <= n &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> len(r.locations) == n + 1) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> len(r.frequencies) == n + 1)
    hint [ins; C03] let t = keyword.Text :: iter(t in rows(indexer)) ==> let r = rows(indexer)[t] :: let pos = indexPointers[t] :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> r.docIds[q] == (if q < pos then iter(r.docIds[q]) else if q == pos then doc.DocId else iter(r.docIds[q-1]))
    hint [ins2; C03] let t = keyword.Text :: iter(t in rows(indexer)) && indexer.initOptions.IndexType == types.LocsIndex ==> let r = rows(indexer)[t] :: let pos = indexPointers[t] :: forall q int :: { r.locations[q] } 0 <= q < len(r.docIds) ==> r.locations[q] == (if q < pos then iter(r.locations[q]) else if q == pos then keyword.Starts else iter(r.locations[q-1]))
    hint [ins3; C03] let t = keyword.Text :: iter(t in rows(indexer)) && indexer.initOptions.IndexType == types.FrequenciesIndex ==> let r = rows(indexer)[t] :: let pos = indexPointers[t] :: forall q int :: { r.frequencies[q] } 0 <= q < len(r.docIds) ==> r.frequencies[q] == (if q < pos then iter(r.frequencies[q]) else if q == pos then keyword.Frequency else iter(r.frequencies[q-1]))
    hint [stay; C03] let t = keyword.Text :: iter(t in rows(indexer)) ==> let r = rows(indexer)[t] :: let pos = indexPointers[t] :: forall q int :: { iter(r.docIds[q]) } 0 <= q < iter(len(r.docIds)) ==> r.docIds[if q < pos then q else q + 1] == iter(r.docIds[q])
    hint [order; C03] let t = keyword.Text :: iter(t in rows(indexer)) ==> let r = rows(indexer)[t] :: let pos = indexPointers[t] :: forall q int :: { iter(r.docIds[q]) } 0 <= q < iter(len(r.docIds)) ==> if q < pos then iter(r.docIds[q]) < doc.DocId else doc.DocId < iter(r.docIds[q])
    hint [sorted; C03; by ins order rowsort at] let t = keyword.Text :: iter(t in rows(indexer)) ==> sortedRow(rows(indexer)[t].docIds)
    hint [lens; C03] let t = keyword.Text :: forall k string :: { rows(indexer)[k] } k in rows(indexer) && k != t ==> iter(k in rows(indexer)) && rows(indexer)[k] == iter(rows(indexer)[k]) && rows(indexer)[k].docIds == iter(rows(indexer)[k].docIds) &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> rows(indexer)[k].locations == iter(rows(indexer)[k].locations)) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> rows(indexer)[k].frequencies == iter(rows(indexer)[k].frequencies))
    hint [rowsame; C03] let t = keyword.Text :: forall k string :: { rows(indexer)[k] } k in rows(indexer) && k != t ==> row(rows(indexer)[k].docIds) == iter(row(rows(indexer)[k].docIds))
    hint [starts; C03; by docok] posOk(keyword.Starts)
    hint [kw; C03; by docok] let n = iter($idx) :: $idx == n + 1 && kwIdx(doc, n + 1, keyword.Text) == n && (forall k string :: { kwIdx(doc, n + 1, k) } k != keyword.Text ==> kwIdx(doc, n + 1, k) == kwIdx(doc, n, k))
    hint [kwv; C03; by kw] let t = keyword.Text :: let id = doc.DocId :: let n = iter($idx) :: forall d string, k string :: { kwIdx(indexer.$ver[id := doc][d], indexer.$kn[id := $idx][d], k) }
      kwIdx(indexer.$ver[id := doc][d], indexer.$kn[id := $idx][d], k) == (if d == id && k == t then n else kwIdx(indexer.$ver[id := doc][d], indexer.$kn[id := n][d], k))
    hint [inrow; C03; by new at ins stay] let t = keyword.Text :: let r = rows(indexer)[t] :: t in rows(indexer) && inRow(r.docIds, doc.DocId) && (forall d string :: { inRow(r.docIds, d) } iter(t in rows(indexer)) && iter(inRow(r.docIds, d)) ==> inRow(r.docIds, d))
    hint [mine; C03; by entries kw at new ins order] let t = keyword.Text :: let r = rows(indexer)[t] :: forall p int :: { r.docIds[p] } 0 <= p < len(r.docIds) ==> let d = r.docIds[p] :: let j = kwIdx(if d == doc.DocId then doc else indexer.$ver[d], if d == doc.DocId then $idx else indexer.$kn[d], t) :: j >= 0
    hint [mine2; C03; by entries kw at new ins ins2 order] indexer.initOptions.IndexType == types.LocsIndex ==> let t = keyword.Text :: let r = rows(indexer)[t] :: forall p int :: { r.docIds[p] } { r.locations[p] } 0 <= p < len(r.docIds) ==> let d = r.docIds[p] :: let j = kwIdx(if d == doc.DocId then doc else indexer.$ver[d], if d == doc.DocId then $idx else indexer.$kn[d], t) :: r.locations[p] == (if d == doc.DocId then doc else indexer.$ver[d]).Keywords[j].Starts
    hint [mine3; C03; by entries kw at new ins ins3 order] indexer.initOptions.IndexType == types.FrequenciesIndex ==> let t = keyword.Text :: let r = rows(indexer)[t] :: forall p int :: { r.docIds[p] } { r.frequencies[p] } 0 <= p < len(r.docIds) ==> let d = r.docIds[p] :: let j = kwIdx(if d == doc.DocId then doc else indexer.$ver[d], if d == doc.DocId then $idx else indexer.$kn[d], t) :: r.frequencies[p] == (if d == doc.DocId then doc else indexer.$ver[d]).Keywords[j].Frequency
    hint [others; C03] let t = keyword.Text :: forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && k != t && 0 <= p < len(rows(indexer)[k].docIds) ==> iter(k in rows(indexer)) && rows(indexer)[k].docIds[p] == iter(rows(indexer)[k].docIds[p]) && 
      (indexer.initOptions.IndexType == types.LocsIndex ==> rows(indexer)[k].locations[p] == iter(rows(indexer)[k].locations[p])) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> rows(indexer)[k].frequencies[p] == iter(rows(indexer)[k].frequencies[p]))
    hint [ours; C03; by mine mine2 mine3 at new] let t = keyword.Text :: let r = rows(indexer)[t] :: let V = indexer.$ver[doc.DocId := doc] :: let K = indexer.$kn[doc.DocId := $idx] ::
      forall p int :: { r.docIds[p] } 0 <= p < len(r.docIds) ==> let d = r.docIds[p] :: let j = kwIdx(V[d], K[d], t) :: j >= 0 &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> r.locations[p] == V[d].Keywords[j].Starts) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> r.frequencies[p] == V[d].Keywords[j].Frequency)
    hint [theirs; C03; by others lens entries kwv] let t = keyword.Text :: let V = indexer.$ver[doc.DocId := doc] :: let K = indexer.$kn[doc.DocId := $idx] ::
      forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && k != t && 0 <= p < len(rows(indexer)[k].docIds) ==>
      let d = rows(indexer)[k].docIds[p] :: let j = kwIdx(V[d], K[d], k) :: j >= 0 &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> rows(indexer)[k].locations[p] == V[d].Keywords[j].Starts) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> rows(indexer)[k].frequencies[p] == V[d].Keywords[j].Frequency)
  hint at call searchIndex [rowsort; C03] let r = indices :: sortedRow(r.docIds)
  hint at call searchIndex [was; C03; by entries] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: kwIdx(if d == doc.DocId then doc else indexer.$ver[d], if d == doc.DocId then iter($idx) else indexer.$kn[d], keyword.Text) >= 0
  hint at call searchIndex [mine; C03] kwIdx(doc, iter($idx), keyword.Text) < 0
  hint at aftercall searchIndex [found; C03] !$r1
  hint at aftercall searchIndex [order; C03] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> if q < $r0 then r.docIds[q] < doc.DocId else doc.DocId < r.docIds[q]
  for C03 C04 C13

macro inDocs(docs, n, d) = inR(row(deref(docs)), 0, n, d)

# element q before the loop
macro was(s, q) = before(row(s))[off(s) + (q)]

macro fromAt(q, indicesTop, indicesPointer) = if q < indicesTop then $from[q] else q + indicesPointer - indicesTop
macro toAt(k, indicesTop, indicesPointer) = if k < indicesPointer then $to[k] else k - (indicesPointer - indicesTop)

# $from[q]: where the q-th kept posting of a row was before the removal, $to: the inverse
ghost var $from lmap[int]int
ghost var $to lmap[int]int

func Indexer.RemoveDocs(indexer, docs)
  requires indexer.initialized && docs != nil
  requires [C13] held(indexer.tableLock) == 0
  requires [apart; C13] arr(deref(docs)) != arr(indexer.removeCacheLock.removeCache)
  requires [C03] tableIs(indexer) && off(deref(docs)) == 0 && clear(indexer, arr(deref(docs)))
  requires [sorted; C03] forall i int, j int :: { deref(docs)[i], deref(docs)[j] } 0 <= i < j < len(deref(docs)) ==> deref(docs)[i] <= deref(docs)[j]
  modifies map(indexer.tableLock.docsState), map(indexer.tableLock.table), map(indexer.docTokenLens), indexer.numDocs, indexer.totalTokenLen, indexer.$kn, global $from, global $to,
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  ensures [table; C03] tableFine(indexer)
  ensures [entries; C03] entriesOk(indexer, indexer.$ver, indexer.$kn)
  ensures [complete; C03] complete(indexer, indexer.$ver, indexer.$kn)
  ensures [states; C03] statesOk(indexer)
  ensures [docs; C03] forall d string :: { indexer.tableLock.docsState[d] } stateOf(indexer, d) == (if old(inDocs(docs, len(deref(docs)), d)) then -1 else old(stateOf(indexer, d)))
  ensures [frame; C03] rowof("string", arr(deref(docs))) == old(rowof("string", arr(deref(docs))))
  hint at call Search [was; C03; by entries] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: kwIdx(indexer.$ver[d], indexer.$kn[d], keyword) >= 0
  hint at call Search [was2; C03; by entries] let r = indices :: indexer.initOptions.IndexType == types.LocsIndex ==> forall q int :: { r.docIds[q] } { r.locations[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: r.locations[q] == indexer.$ver[d].Keywords[kwIdx(indexer.$ver[d], indexer.$kn[d], keyword)].Starts
  hint at call Search [was3; C03; by entries] let r = indices :: indexer.initOptions.IndexType == types.FrequenciesIndex ==> forall q int :: { r.docIds[q] } { r.frequencies[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: r.frequencies[q] == indexer.$ver[d].Keywords[kwIdx(indexer.$ver[d], indexer.$kn[d], keyword)].Frequency
  loop 0
    invariant [states; C03] forall d string :: { indexer.tableLock.docsState[d] } stateOf(indexer, d) == (if inDocs(docs, $idx, d) then -1 else old(stateOf(indexer, d))) && (d in indexer.tableLock.docsState <==> old(d in indexer.tableLock.docsState) && !inDocs(docs, $idx, d))
  loop 1
    invariant [C03] tableFine(indexer) && clear(indexer, arr(deref(docs)))
    invariant [entries; C03; by ours others entries] entriesOk(indexer, indexer.$ver, indexer.$kn)
    invariant [exact; C03] forall k string, d string :: { kwIdx(indexer.$ver[d], indexer.$kn[d], k) } kwIdx(indexer.$ver[d], indexer.$kn[d], k) >= 0 && !($visited[k] && inDocs(docs, len(deref(docs)), d)) ==> contains(indexer, k, d)
    invariant [gone; C03] forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && $visited[k] && 0 <= p < len(rows(indexer)[k].docIds) ==> !inDocs(docs, len(deref(docs)), rows(indexer)[k].docIds[p])
    hint [len; C03] let r = indices :: len(r.docIds) == iter(len(r.docIds)) - (indicesPointer - indicesTop) && arr(r.docIds) == iter(arr(r.docIds)) && off(r.docIds) == iter(off(r.docIds))
    hint [moved; C03] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> r.docIds[q] == iter(row(r.docIds))[off(r.docIds) + fromAt(q, indicesTop, indicesPointer)]
    hint [moved2; C03] indexer.initOptions.IndexType == types.LocsIndex ==> let r = indices :: forall q int :: { r.locations[q] } 0 <= q < len(r.docIds) ==> r.locations[q] == iter(row(r.locations))[iter(off(r.locations)) + fromAt(q, indicesTop, indicesPointer)]
    hint [moved3; C03] indexer.initOptions.IndexType == types.FrequenciesIndex ==> let r = indices :: forall q int :: { r.frequencies[q] } 0 <= q < len(r.docIds) ==> r.frequencies[q] == iter(row(r.frequencies))[iter(off(r.frequencies)) + fromAt(q, indicesTop, indicesPointer)]
    hint [stay; C03] let r = indices :: forall k int :: { iter(row(r.docIds))[k] } 0 <= k - off(r.docIds) < iter(len(r.docIds)) ==> let d = iter(row(r.docIds))[k] :: inDocs(docs, len(deref(docs)), d) || 0 <= toAt(k - off(r.docIds), indicesTop, indicesPointer) < len(r.docIds) && r.docIds[toAt(k - off(r.docIds), indicesTop, indicesPointer)] == d
    hint [row; C03] let r = indices :: forall d string :: { inRow(r.docIds, d) } iter(inRow(r.docIds, d)) && !inDocs(docs, len(deref(docs)), d) ==> inRow(r.docIds, d)
    hint [range; C03] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> 0 <= fromAt(q, indicesTop, indicesPointer) < iter(len(r.docIds))
    hint [ours1; C03; by was moved range] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: kwIdx(indexer.$ver[d], indexer.$kn[d], keyword) >= 0
    hint [ours; C03; by was was2 was3 moved moved2 moved3 range ours1] let r = indices :: forall q int :: { r.docIds[q] } 0 <= q < len(r.docIds) ==> let d = r.docIds[q] :: let j = kwIdx(indexer.$ver[d], indexer.$kn[d], keyword) :: j >= 0 &&
      (indexer.initOptions.IndexType == types.LocsIndex ==> r.locations[q] == indexer.$ver[d].Keywords[j].Starts) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> r.frequencies[q] == indexer.$ver[d].Keywords[j].Frequency)
    hint [others; C03] forall k string, p int :: { rows(indexer)[k].docIds[p] } k in rows(indexer) && k != keyword && 0 <= p < len(rows(indexer)[k].docIds) ==> rows(indexer)[k].docIds[p] == iter(rows(indexer)[k].docIds[p]) && 
      (indexer.initOptions.IndexType == types.LocsIndex ==> rows(indexer)[k].locations[p] == iter(rows(indexer)[k].locations[p])) && (indexer.initOptions.IndexType == types.FrequenciesIndex ==> rows(indexer)[k].frequencies[p] == iter(rows(indexer)[k].frequencies[p]))
    invariant [mine; C03] rowof("string", arr(deref(docs))) == old(rowof("string", arr(deref(docs))))
  loop 2
    invariant [C03] 0 <= indicesTop <= indicesPointer && indicesPointer <= len(indices.docIds) && 0 <= docsPointer <= len(deref(docs))
    invariant [sorted; C03] forall a int, b int :: { was(indices.docIds, a), was(indices.docIds, b) } 0 <= a < b < len(indices.docIds) ==> was(indices.docIds, a) < was(indices.docIds, b)
    invariant [frame; C03] forall r ref :: { rowof("string", r) } r != arr(indices.docIds) ==> rowof("string", r) == before(rowof("string", r))
    invariant [frame2; C03] forall r ref :: { rowof("float32", r) } r != arr(indices.frequencies) ==> rowof("float32", r) == before(rowof("float32", r))
    invariant [frame3; C03] forall r ref :: { rowof("[]int", r) } r != arr(indices.locations) ==> rowof("[]int", r) == before(rowof("[]int", r))
    invariant [rest; C03] forall q int :: { indices.docIds[q] } indicesPointer <= q < len(indices.docIds) ==> indices.docIds[q] == was(indices.docIds, q)
    invariant [rest2; C03] indexer.initOptions.IndexType == types.LocsIndex ==> forall q int :: { indices.locations[q] } indicesPointer <= q < len(indices.docIds) ==> indices.locations[q] == was(indices.locations, q)
    invariant [rest3; C03] indexer.initOptions.IndexType == types.FrequenciesIndex ==> forall q int :: { indices.frequencies[q] } indicesPointer <= q < len(indices.docIds) ==> indices.frequencies[q] == was(indices.frequencies, q)
    invariant [from; C03] forall q int :: { $from[q] } { indices.docIds[q] } 0 <= q < indicesTop ==> q <= $from[q] < indicesPointer && indices.docIds[q] == was(indices.docIds, $from[q])
    invariant [from2; C03] indexer.initOptions.IndexType == types.LocsIndex ==> forall q int :: { $from[q] } { indices.locations[q] } 0 <= q < indicesTop ==> indices.locations[q] == was(indices.locations, $from[q])
    invariant [from3; C03] indexer.initOptions.IndexType == types.FrequenciesIndex ==> forall q int :: { $from[q] } { indices.frequencies[q] } 0 <= q < indicesTop ==> indices.frequencies[q] == was(indices.frequencies, $from[q])
    invariant [mono; C03] forall a int, b int :: { $from[a], $from[b] } 0 <= a < b < indicesTop ==> $from[a] < $from[b]
    invariant [kept; C03] forall q int :: { $from[q] } { indices.docIds[q] } 0 <= q < indicesTop ==> !inDocs(docs, len(deref(docs)), indices.docIds[q])
    invariant [to; C03] forall q int :: { $to[q] } { was(indices.docIds, q) } 0 <= q < indicesPointer ==> inDocs(docs, len(deref(docs)), was(indices.docIds, q)) || 0 <= $to[q] < indicesTop && $from[$to[q]] == q
    invariant [below; C03] forall e int :: { deref(docs)[e] } 0 <= e < docsPointer && indicesPointer < len(indices.docIds) ==> deref(docs)[e] < was(indices.docIds, indicesPointer)
    decreases len(deref(docs)) - docsPointer + len(indices.docIds) - indicesPointer
    hint [row; C03] indicesTop > iter(indicesTop) ==> indicesTop == iter(indicesTop) + 1 && indicesPointer == iter(indicesPointer) + 1 && indices.docIds[iter(indicesTop)] == was(indices.docIds, iter(indicesPointer))
    hint [row2; C03] indexer.initOptions.IndexType == types.LocsIndex ==> indicesTop > iter(indicesTop) ==> indices.locations[iter(indicesTop)] == was(indices.locations, iter(indicesPointer))
    hint [row3; C03] indexer.initOptions.IndexType == types.FrequenciesIndex ==> indicesTop > iter(indicesTop) ==> indices.frequencies[iter(indicesTop)] == was(indices.frequencies, iter(indicesPointer))
    hint [next; C03] indicesPointer < len(indices.docIds) && indicesPointer > iter(indicesPointer) ==> was(indices.docIds, iter(indicesPointer)) < was(indices.docIds, indicesPointer)
    hint [same; C03] iter(indices.docIds[indicesPointer]) == was(indices.docIds, iter(indicesPointer))
  set at loop 2 $from := if indicesTop > iter(indicesTop) then $from[iter(indicesTop) := iter(indicesPointer)] else $from
  set at loop 2 $to := if indicesTop > iter(indicesTop) then $to[iter(indicesPointer) := iter(indicesTop)] else $to
  set at exit indexer.$kn := mapof d string :: if inDocs(docs, len(deref(docs)), d) then 0 else indexer.$kn[d]
  for C03 C04 C13

func Indexer.flushRemoveCache(indexer, forceUpdate) (r)
  requires indexer.initialized
  requires [C13] held(indexer.tableLock) == 0 && held(indexer.removeCacheLock) == 2
  requires [C03] tableIs(indexer) && removesOk(indexer) && sizesOk(indexer)
  modifies indexer.removeCacheLock.removeCachePointer,
    map(indexer.tableLock.docsState), map(indexer.tableLock.table), map(indexer.docTokenLens), indexer.numDocs, indexer.totalTokenLen, indexer.$kn, global $from, global $to,
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  ensures [table; C03] tableIs(indexer) && removesOk(indexer)
  ensures [flushed; C03] r <==> old(indexer.removeCacheLock.removeCachePointer) > 0 && (forceUpdate || old(indexer.removeCacheLock.removeCachePointer) >= indexer.initOptions.DocCacheSize)
  ensures [pointer; C03] indexer.removeCacheLock.removeCachePointer == (if r then 0 else old(indexer.removeCacheLock.removeCachePointer))
  ensures [docs; C03] forall d string :: { indexer.tableLock.docsState[d] } stateOf(indexer, d) == (if r && old(stateOf(indexer, d)) == 1 then -1 else old(stateOf(indexer, d)))
  for C03 C04 C13

func Indexer.RemoveDocToCache(indexer, docId, forceUpdate) (r)
  assumed C08 under C03 frame
  requires indexer.initialized
  requires [C13] held(indexer.tableLock) == 0 && held(indexer.removeCacheLock) == 0
  requires [C03] tableIs(indexer) && removesOk(indexer) && sizesOk(indexer) && settled(indexer)
  requires [C03] indexer.removeCacheLock.removeCachePointer < indexer.initOptions.DocCacheSize
  modifies indexer.removeCacheLock.removeCachePointer, elems(indexer.removeCacheLock.removeCache),
    map(indexer.tableLock.docsState), map(indexer.tableLock.table), map(indexer.docTokenLens), indexer.numDocs, indexer.totalTokenLen, indexer.$kn, global $from, global $to,
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  ensures [table; C03] tableIs(indexer) && removesOk(indexer) && settled(indexer)
  ensures [room; C03] indexer.removeCacheLock.removeCachePointer < indexer.initOptions.DocCacheSize
  ensures [forced; C03] forceUpdate ==> indexer.removeCacheLock.removeCachePointer == 0
  ensures [removed; C03] forall d string :: view(indexer, d) == (if docId != "0" && d == docId && old(lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d)) == nil then nil else old(view(indexer, d)))
  for C03 C04 C13

func Indexer.AddDocToCache(indexer, doc, forceUpdate)
  assumed C08 under C03 frame
  requires indexer.initialized
  requires [C13] unlocked(indexer)
  requires [C03] tableIs(indexer) && removesOk(indexer) && sizesOk(indexer) && addsOk(indexer)
  requires [settled; C03] settled(indexer)
  requires [C03] indexer.removeCacheLock.removeCachePointer < indexer.initOptions.DocCacheSize
  requires [doc; C03] doc != nil ==> docOk(doc)
  modifies indexer.addCacheLock.addCachePointer, elems(indexer.addCacheLock.addCache), indexer.removeCacheLock.removeCachePointer, elems(indexer.removeCacheLock.removeCache),
    map(indexer.tableLock.docsState), map(indexer.tableLock.table), map(indexer.docTokenLens), indexer.numDocs, indexer.totalTokenLen, indexer.$ver, indexer.$kn, global $from, global $to, global $perm, global $perminv,
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  ensures [table; C03] tableIs(indexer) && removesOk(indexer)
  ensures [settled; C03; by settled docs set2] settled(indexer)
  ensures [adds; C03] addsOk(indexer)
  ensures [room; C03] indexer.removeCacheLock.removeCachePointer < indexer.initOptions.DocCacheSize
  ensures [added; C03] forall d string :: view(indexer, d) == (if doc != nil && d == doc.DocId then doc else old(view(indexer, d)))
  ensures [forced; C03] forceUpdate ==> indexer.removeCacheLock.removeCachePointer == 0 && indexer.addCacheLock.addCachePointer == 0
  ensures [exact; C03] forceUpdate ==> forall k string, d string :: contains(indexer, k, d) <==> view(indexer, d) != nil && kwIdx(view(indexer, d), len(view(indexer, d).Keywords), k) >= 0
  hint at call AddDocs [copy; C03] forall k int :: { addCachedDocs[k] } 0 <= k < len(addCachedDocs) ==> 0 <= $perm[k] < len(addCachedDocs) && addCachedDocs[k] == indexer.addCacheLock.addCache[position + $perm[k]]
  hint at call AddDocs [copyinv; C03] forall y int :: { indexer.addCacheLock.addCache[y] } position <= y < position + len(addCachedDocs) ==> 0 <= $perminv[y-position] < len(addCachedDocs) && $perm[$perminv[y-position]] == y - position && addCachedDocs[$perminv[y-position]] == indexer.addCacheLock.addCache[y]
  hint at call AddDocs [stable; C03] forall i int, j int :: { addCachedDocs[i], addCachedDocs[j] } 0 <= i < j < len(addCachedDocs) && addCachedDocs[i].DocId == addCachedDocs[j].DocId ==> $perm[i] < $perm[j]
  hint at call AddDocs [lastS; C03; by copy copyinv stable] let A = row(indexer.addCacheLock.addCache) :: let S = row(addCachedDocs) :: let m = len(addCachedDocs) :: forall d string :: { lastIdx(S, m, d) } { lastIdx(A, position + m, d) }
    let l = lastIdx(A, position + m, d) :: if l >= position then lastIdx(S, m, d) >= 0 && S[lastIdx(S, m, d)] == A[l] else lastIdx(S, m, d) == -1
  hint at call AddDocs [sides1; C03] forall q int :: { indexer.addCacheLock.addCache[q] } 0 <= q < position ==> stateOf(indexer, indexer.addCacheLock.addCache[q].DocId) == 1
  hint at call AddDocs [sides2; C03] forall q int :: { indexer.addCacheLock.addCache[q] } position <= q < position + len(addCachedDocs) ==> stateOf(indexer, indexer.addCacheLock.addCache[q].DocId) == -1 || stateOf(indexer, indexer.addCacheLock.addCache[q].DocId) == 2
  hint at call AddDocs [set2; C03] let S = row(addCachedDocs) :: let m = len(addCachedDocs) :: forall d string :: { indexer.tableLock.docsState[d] } stateOf(indexer, d) == 2 ==> lastIdx(S, m, d) >= 0
  hint at call AddDocs [pushed2; C03; by pushed rot] let A = row(indexer.addCacheLock.addCache) :: let m = len(addCachedDocs) :: forall d string :: { lastIdx(A, position + m, d) } lastVer(A, position + m, d) == (if doc != nil && d == doc.DocId then doc else old(lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d)))
  hint at aftercall AddDocs [view; C03] forall d string :: view(indexer, d) == (if doc != nil && d == doc.DocId then doc else old(view(indexer, d)))
  hint at call AddDocs [lastA; C03; by sides1 sides2] let A = row(indexer.addCacheLock.addCache) :: let m = len(addCachedDocs) :: forall d string :: { lastIdx(A, position, d) } { lastIdx(A, position + m, d) }
    lastIdx(A, position, d) == (if lastIdx(A, position + m, d) < position then lastIdx(A, position + m, d) else -1)
  loop 0
    invariant [C03] 0 <= position <= i && i <= indexer.addCacheLock.addCachePointer
    invariant [cached; C03] forall q int :: { indexer.addCacheLock.addCache[q] } 0 <= q < indexer.addCacheLock.addCachePointer ==> docOk(indexer.addCacheLock.addCache[q])
    invariant [last; C03] forall d string :: { lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d) } { indexer.tableLock.docsState[d] }
      lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d) == before(lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d))
    invariant [pushed; C03] forall d string :: { lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d) } { indexer.tableLock.docsState[d] }
      lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d) == (if doc != nil && d == doc.DocId then doc else old(lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d)))
    invariant [front; C03] forall q int :: { indexer.addCacheLock.addCache[q] } 0 <= q < position ==> stateOf(indexer, indexer.addCacheLock.addCache[q].DocId) == 1
    invariant [back; C03] forall q int :: { indexer.addCacheLock.addCache[q] } position <= q < i ==> stateOf(indexer, indexer.addCacheLock.addCache[q].DocId) == 2
    invariant [states; C03] statesOk(indexer)
    invariant [others; C03] forall d string :: { indexer.tableLock.docsState[d] } lastVer(row(indexer.addCacheLock.addCache), indexer.addCacheLock.addCachePointer, d) == nil ==> stateOf(indexer, d) == before(stateOf(indexer, d))
    invariant [removing; C03] removesOk(indexer)
    invariant [room; C03] indexer.removeCacheLock.removeCachePointer <= before(indexer.removeCacheLock.removeCachePointer) + position
    invariant [table; C03] tableFine(indexer) && entriesOk(indexer, indexer.$ver, indexer.$kn) && complete(indexer, indexer.$ver, indexer.$kn)
    decreases indexer.addCacheLock.addCachePointer - i
    hint [rot; C03] let p0 = iter(position) :: let i0 = iter(i) :: forall q int :: { indexer.addCacheLock.addCache[q] } 0 <= q < indexer.addCacheLock.addCachePointer ==>
      indexer.addCacheLock.addCache[q] == (if position == p0 then iter(indexer.addCacheLock.addCache[q]) else if q == p0 then iter(indexer.addCacheLock.addCache[i]) else if p0 < q <= i0 then iter(indexer.addCacheLock.addCache[q-1]) else iter(indexer.addCacheLock.addCache[q]))
    hint [state; C03] let d0 = iter(indexer.addCacheLock.addCache[i].DocId) :: forall d string :: { indexer.tableLock.docsState[d] } d != d0 ==> stateOf(indexer, d) == iter(stateOf(indexer, d))
    hint [state0; C03] let d0 = iter(indexer.addCacheLock.addCache[i].DocId) :: (position > iter(position) <==> iter(stateOf(indexer, d0)) == 0 || iter(stateOf(indexer, d0)) == 1) && (position > iter(position) ==> position == iter(position) + 1 && stateOf(indexer, d0) == 1) && (position == iter(position) ==> stateOf(indexer, d0) == 2)
    hint [lastidx; C03; by rot back state0] let p0 = iter(position) :: let i0 = iter(i) :: let n = indexer.addCacheLock.addCachePointer :: forall d string :: { lastIdx(row(indexer.addCacheLock.addCache), n, d) }
      let l = lastIdx(iter(row(indexer.addCacheLock.addCache)), n, d) :: lastIdx(row(indexer.addCacheLock.addCache), n, d) == (if position == p0 then l else if l == i0 then p0 else if p0 <= l < i0 then l + 1 else l)
  for C03 C04 C13
