# The document and inverted-index registries (C16).
package core

guard field core.DocInfoGroup by docInfosGroupRWMutex
guard map(DocInfoGroup) by docInfosGroupRWMutex
guard typefield types.DocInfosShard.DocInfos by docInfosGroupRWMutex
guard typefield types.DocInfosShard.NumDocs by docInfosGroupRWMutex
guard maps map[string]*types.DocInfo by docInfosGroupRWMutex
guard field core.InvertedIndexGroup by invertedIndexGroupRWMutex
guard map(InvertedIndexGroup) by invertedIndexGroupRWMutex
guard typefield types.InvertedIndexShard.InvertedIndex by invertedIndexGroupRWMutex
guard typefield types.InvertedIndexShard.TotalTokenLen by invertedIndexGroupRWMutex
guard maps map[string]*types.KeywordIndices by invertedIndexGroupRWMutex

macro docReg() = DocInfoGroup != nil &&
  (forall s int :: { DocInfoGroup[s] } s in DocInfoGroup ==> DocInfoGroup[s] != nil && DocInfoGroup[s].DocInfos != nil) &&
  (forall s int, t int :: { DocInfoGroup[s], DocInfoGroup[t] } s in DocInfoGroup && t in DocInfoGroup && s != t ==> ref(DocInfoGroup[s]) != ref(DocInfoGroup[t]) && ref(DocInfoGroup[s].DocInfos) != ref(DocInfoGroup[t].DocInfos))
macro rowReg() = InvertedIndexGroup != nil &&
  (forall s int :: { InvertedIndexGroup[s] } s in InvertedIndexGroup ==> InvertedIndexGroup[s] != nil && InvertedIndexGroup[s].InvertedIndex != nil) &&
  (forall s int, t int :: { InvertedIndexGroup[s], InvertedIndexGroup[t] } s in InvertedIndexGroup && t in InvertedIndexGroup && s != t ==> ref(InvertedIndexGroup[s]) != ref(InvertedIndexGroup[t]) && ref(InvertedIndexGroup[s].InvertedIndex) != ref(InvertedIndexGroup[t].InvertedIndex))

# the entries and the counter of a shard; a shard that does not exist has none
macro docsOf(s) = if s in DocInfoGroup then dom(DocInfoGroup[s].DocInfos) else emptyset("string")
macro numOf(s) = if s in DocInfoGroup then DocInfoGroup[s].NumDocs else 0
macro rowsOf(s) = if s in InvertedIndexGroup then dom(InvertedIndexGroup[s].InvertedIndex) else emptyset("string")
macro lenOf(s) = if s in InvertedIndexGroup then InvertedIndexGroup[s].TotalTokenLen else 0.0

func AddDocInfosShard(shard)
  requires docReg() && held(docInfosGroupRWMutex) == 0
  modifies map(DocInfoGroup)
  ensures [reg; C16] docReg()
  ensures [there; C16] dom(DocInfoGroup) == old(dom(DocInfoGroup))[shard := true]
  ensures [kept; C16] forall s int :: { DocInfoGroup[s] } old(s in DocInfoGroup) ==> DocInfoGroup[s] == old(DocInfoGroup[s])
  ensures [empty; C16] !old(shard in DocInfoGroup) ==> card(dom(DocInfoGroup[shard].DocInfos)) == 0 && DocInfoGroup[shard].NumDocs == 0
  for C16

func AddDocInfo(shard, docId, docinfo)
  requires docReg() && held(docInfosGroupRWMutex) == 0
  modifies map(DocInfoGroup), DocInfoGroup[shard].NumDocs, map(DocInfoGroup[shard].DocInfos)
  ensures [reg; C16] docReg()
  ensures [shards; C16] dom(DocInfoGroup) == old(dom(DocInfoGroup))[shard := true]
  ensures [entry; C16] dom(DocInfoGroup[shard].DocInfos) == old(docsOf(shard))[docId := true] && DocInfoGroup[shard].DocInfos[docId] == docinfo
  ensures [others; C16] old(shard in DocInfoGroup) ==> forall d string :: { DocInfoGroup[shard].DocInfos[d] } d != docId ==> DocInfoGroup[shard].DocInfos[d] == old(DocInfoGroup[shard].DocInfos[d])
  ensures [count; C16] old(numOf(shard)) < 18446744073709551615 ==> DocInfoGroup[shard].NumDocs == old(numOf(shard)) + 1
  ensures [kept; C16] forall s int :: { DocInfoGroup[s] } old(s in DocInfoGroup) ==> DocInfoGroup[s] == old(DocInfoGroup[s])
  ensures [otherShards; C16] forall s int :: { DocInfoGroup[s] } s != shard && old(s in DocInfoGroup) ==> DocInfoGroup[s].NumDocs == old(DocInfoGroup[s].NumDocs) && dom(DocInfoGroup[s].DocInfos) == old(dom(DocInfoGroup[s].DocInfos)) && vals(DocInfoGroup[s].DocInfos) == old(vals(DocInfoGroup[s].DocInfos))
  for C16

func IsDocExist(docId) (found)
  requires docReg() && held(docInfosGroupRWMutex) == 0
  ensures [exact; C16] found <==> exists s int :: { DocInfoGroup[s] } s in DocInfoGroup && docId in DocInfoGroup[s].DocInfos
  loop 0
    invariant forall s int :: { DocInfoGroup[s] } $visited[s] ==> !(docId in DocInfoGroup[s].DocInfos)
  for C16

func AddInvertedIndexShard(shard)
  requires rowReg() && held(invertedIndexGroupRWMutex) == 0
  modifies map(InvertedIndexGroup)
  ensures [reg; C16] rowReg()
  ensures [there; C16] dom(InvertedIndexGroup) == old(dom(InvertedIndexGroup))[shard := true]
  ensures [kept; C16] forall s int :: { InvertedIndexGroup[s] } old(s in InvertedIndexGroup) ==> InvertedIndexGroup[s] == old(InvertedIndexGroup[s])
  ensures [empty; C16] !old(shard in InvertedIndexGroup) ==> card(dom(InvertedIndexGroup[shard].InvertedIndex)) == 0 && InvertedIndexGroup[shard].TotalTokenLen == 0.0
  for C16

func AddKeywordIndices(shard, keyword, keywordIndices)
  requires rowReg() && held(invertedIndexGroupRWMutex) == 0
  modifies map(InvertedIndexGroup), InvertedIndexGroup[shard].TotalTokenLen, map(InvertedIndexGroup[shard].InvertedIndex)
  ensures [reg; C16] rowReg()
  ensures [shards; C16] dom(InvertedIndexGroup) == old(dom(InvertedIndexGroup))[shard := true]
  ensures [entry; C16] dom(InvertedIndexGroup[shard].InvertedIndex) == old(rowsOf(shard))[keyword := true] && InvertedIndexGroup[shard].InvertedIndex[keyword] == keywordIndices
  ensures [others; C16] old(shard in InvertedIndexGroup) ==> forall k string :: { InvertedIndexGroup[shard].InvertedIndex[k] } k != keyword ==> InvertedIndexGroup[shard].InvertedIndex[k] == old(InvertedIndexGroup[shard].InvertedIndex[k])
  ensures [count; C16] InvertedIndexGroup[shard].TotalTokenLen == old(lenOf(shard)) + 1.0
  ensures [kept; C16] forall s int :: { InvertedIndexGroup[s] } old(s in InvertedIndexGroup) ==> InvertedIndexGroup[s] == old(InvertedIndexGroup[s])
  ensures [otherShards; C16] forall s int :: { InvertedIndexGroup[s] } s != shard && old(s in InvertedIndexGroup) ==> InvertedIndexGroup[s].TotalTokenLen == old(InvertedIndexGroup[s].TotalTokenLen) && dom(InvertedIndexGroup[s].InvertedIndex) == old(dom(InvertedIndexGroup[s].InvertedIndex)) && vals(InvertedIndexGroup[s].InvertedIndex) == old(vals(InvertedIndexGroup[s].InvertedIndex))
  for C16

# the registries start empty
func init()
  modifies DocInfoGroup, InvertedIndexGroup
  ensures [start; C16] !old(init$guard) ==> docReg() && rowReg() && card(dom(DocInfoGroup)) == 0 && card(dom(InvertedIndexGroup)) == 0
  for C16
