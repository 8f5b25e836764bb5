# The engine: sharding, routing, merging of the shard answers, and paging.
package riot

objelem core.Indexer
objelem core.Ranker

# start of the i-th reply in the concatenation of the replies; documents counted by the first i replies
ghost var $start lmap[int]int
ghost var $count lmap[int]int
ghost var $catIds lmap[int]types.ScoredID
ghost var $catDocs lmap[int]types.ScoredDoc
ghost var $replies chan rankerReturnReq
ghost var $rep lmap[int]rankerReturnReq

macro shards(e) = e.initOptions.NumShards
macro optsOk(e) = 1 <= shards(e) && shards(e) <= 65536
macro ranksOk(e) = len(e.rankers) == shards(e) && (forall s int :: { e.rankers[s].idOnly } { e.rankers[s].lock.docs } 0 <= s < shards(e) ==> rankerOk(e.rankers[s]) && e.rankers[s].idOnly == e.initOptions.IDOnly)

# what a shard answers
macro repIds(v) = as("types.ScoredIDs", v.docs)
macro repDocs(v) = as("types.ScoredDocs", v.docs)
macro repIdsOf(v) = as("types.ScoredIDs", v)
macro repDocsOf(v) = as("types.ScoredDocs", v)
macro repLen(idOnly, v) = if v.docs == nil then 0 else if idOnly then len(repIds(v)) else len(repDocs(v))
macro chaninv_riot_rankerReturnReq(v) = v.numDocs >= 0 && (v.docs == nil || (if engine.initOptions.IDOnly then is("types.ScoredIDs", v.docs) else is("types.ScoredDocs", v.docs)))
macro rcvinv_riot_rankerReturnReq(v) = v.numDocs <= 1099511627776 && (v.docs != nil ==> (if engine.initOptions.IDOnly then arr(repIds(v)) < old(next()) && off(repIds(v)) >= 0 else arr(repDocs(v)) < old(next()) && off(repDocs(v)) >= 0))
macro chaninv_riot_rankerRankReq(v) = v.options.ScoringCriteria != nil && v.rankerReturnChan != nil
macro chaninv_riot_indexerLookupReq(v) = v.options.ScoringCriteria != nil && v.rankerReturnChan != nil

func Engine.getShard(engine, hash) (shard)
  requires optsOk(engine)
  ensures [range; C08 C09] 0 <= shard < shards(engine)
  ensures [mod; C08 C09] shard == hash % shards(engine)
  for C08 C09

func maxRankOutput(rankOpts, rankLen) (start, end)
  requires rankLen >= 0
  ensures [window] start == pageStart(rankOpts.OutputOffset, rankLen) && end == pageEnd(rankOpts.OutputOffset, rankOpts.MaxOutputs, rankLen)
  for C07 C08

func Engine.rankOutID(engine, rankerOutput, rankOutArr) (out)
  requires is("types.ScoredIDs", rankerOutput.docs) && (rankOutArr == nil || arr(repIds(rankerOutput)) != arr(rankOutArr)) && off(rankOutArr) == 0
  modifies elems(rankOutArr)
  ensures len(out) == old(len(rankOutArr)) + len(repIds(rankerOutput)) && off(out) == 0
  ensures out == rankOutArr || fresh(out) || arr(out) == arr(rankOutArr)
  ensures forall k int :: { out[k] } 0 <= k < old(len(rankOutArr)) ==> out[k] == old(rankOutArr[k])
  ensures forall k int :: { out[k] } old(len(rankOutArr)) <= k < len(out) ==> out[k] == repIds(rankerOutput)[k - old(len(rankOutArr))]
  loop 0
    invariant len(rankOutArr) == before(len(rankOutArr)) + $idx && off(rankOutArr) == 0
    invariant arr(rankOutArr) == before(arr(rankOutArr)) || fresh(rankOutArr)
    invariant $idx == 0 ==> rankOutArr == before(rankOutArr)
    invariant forall k int :: { rankOutArr[k] } 0 <= k < before(len(rankOutArr)) ==> rankOutArr[k] == before(rankOutArr[k])
    invariant forall k int :: { rankOutArr[k] } before(len(rankOutArr)) <= k < len(rankOutArr) ==> rankOutArr[k] == repIds(rankerOutput)[k - before(len(rankOutArr))]
  for C08

func Engine.rankOutDocs(engine, rankerOutput, rankOutArr) (out)
  requires is("types.ScoredDocs", rankerOutput.docs) && (rankOutArr == nil || arr(repDocs(rankerOutput)) != arr(rankOutArr)) && off(rankOutArr) == 0
  modifies elems(rankOutArr)
  ensures len(out) == old(len(rankOutArr)) + len(repDocs(rankerOutput)) && off(out) == 0
  ensures out == rankOutArr || fresh(out) || arr(out) == arr(rankOutArr)
  ensures forall k int :: { out[k] } 0 <= k < old(len(rankOutArr)) ==> out[k] == old(rankOutArr[k])
  ensures forall k int :: { out[k] } old(len(rankOutArr)) <= k < len(out) ==> out[k] == repDocs(rankerOutput)[k - old(len(rankOutArr))]
  loop 0
    invariant len(rankOutArr) == before(len(rankOutArr)) + $idx && off(rankOutArr) == 0
    invariant arr(rankOutArr) == before(arr(rankOutArr)) || fresh(rankOutArr)
    invariant $idx == 0 ==> rankOutArr == before(rankOutArr)
    invariant forall k int :: { rankOutArr[k] } 0 <= k < before(len(rankOutArr)) ==> rankOutArr[k] == before(rankOutArr[k])
    invariant forall k int :: { rankOutArr[k] } before(len(rankOutArr)) <= k < len(rankOutArr) ==> rankOutArr[k] == repDocs(rankerOutput)[k - before(len(rankOutArr))]
  for C08

# the replies received so far: $rep lists them, $start gives the place of each in the concatenation
macro got(e, ch, n0, r, countOnly) = rcvd(ch) == n0 + r && $start[0] == 0 && $count[0] == 0 &&
  (forall i int :: { $rep[i] } 0 <= i < r ==> $rep[i] == rcvd(ch, n0 + i) && $rep[i].numDocs >= 0 && $rep[i].numDocs <= 1099511627776) &&
  (forall i int :: { $rep[i] } 0 <= i < r ==> $start[i + 1] == $start[i] + (if countOnly then 0 else repLen(e.initOptions.IDOnly, $rep[i]))) &&
  (forall i int :: { $rep[i] } 0 <= i < r ==> $count[i + 1] == $count[i] + $rep[i].numDocs) &&
  (forall i int, j int :: { $start[i], $start[j] } 0 <= i <= j <= r ==> $start[i] <= $start[j]) &&
  (forall i int :: { $count[i] } 0 <= i <= r ==> 0 <= $count[i] <= i * 1099511627776)
macro partIds(out, i) = forall j int :: { repIds($rep[i])[j] } 0 <= j < len(repIds($rep[i])) ==> out[$start[i] + j] == repIds($rep[i])[j]
macro partDocs(out, i) = forall j int :: { repDocs($rep[i])[j] } 0 <= j < len(repDocs($rep[i])) ==> out[$start[i] + j] == repDocs($rep[i])[j]
macro repsOk(e, r) = forall i int :: { $rep[i] } 0 <= i < r ==> $rep[i].docs == nil || (if e.initOptions.IDOnly then is("types.ScoredIDs", $rep[i].docs) && arr(repIds($rep[i])) < old(next()) && off(repIds($rep[i])) >= 0 else is("types.ScoredDocs", $rep[i].docs) && arr(repDocs($rep[i])) < old(next()) && off(repDocs($rep[i])) >= 0)
macro repTypes(e, r) = forall i int :: { $rep[i] } 0 <= i < r ==> $rep[i].docs == nil || (if e.initOptions.IDOnly then is("types.ScoredIDs", $rep[i].docs) else is("types.ScoredDocs", $rep[i].docs))
macro concatIds(e, r, out, countOnly) = len(out) == $start[r] && off(out) == 0 && (!countOnly ==> forall i int :: { $rep[i] } 0 <= i < r && $rep[i].docs != nil ==> partIds(out, i))
macro concatDocs(e, r, out, countOnly) = len(out) == $start[r] && off(out) == 0 && (!countOnly ==> forall i int :: { $rep[i] } 0 <= i < r && $rep[i].docs != nil ==> partDocs(out, i))

func Engine.NotTimeOut(engine, request, rankerReturnChan) (rankOutArr, numDocs)
  requires optsOk(engine) && rankerReturnChan != nil
  modifies chan(rankerReturnChan), global $start, global $count, global $rep
  set at entry $start := constmap("int", 0)
  set at entry $count := constmap("int", 0)
  ensures [type] if engine.initOptions.IDOnly then is("types.ScoredIDs", rankOutArr) else is("types.ScoredDocs", rankOutArr)
  ensures [all; C08] (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shards(engine)
  ensures repsOk(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
  ensures [count; C08] numDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
  ensures [replies; C08] got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
  ensures [mergedIds; C07 C08] engine.initOptions.IDOnly ==> concatIds(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repIdsOf(rankOutArr), request.CountDocsOnly)
  ensures [mergedDocs; C07 C08] !engine.initOptions.IDOnly ==> concatDocs(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repDocsOf(rankOutArr), request.CountDocsOnly)
  ensures [own] if engine.initOptions.IDOnly then repIdsOf(rankOutArr) == nil || fresh(repIdsOf(rankOutArr)) else repDocsOf(rankOutArr) == nil || fresh(repDocsOf(rankOutArr))
  loop 0
    invariant 0 <= shard <= shards(engine) && idOnly == engine.initOptions.IDOnly
    invariant (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shard
    invariant got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
    invariant repsOk(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
    invariant numDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
    invariant idOnly ==> concatIds(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), rankOutID, request.CountDocsOnly)
    invariant !idOnly ==> concatDocs(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), rankOutDoc, request.CountDocsOnly)
    invariant rankOutID == nil || fresh(rankOutID)
    invariant rankOutDoc == nil || fresh(rankOutDoc)
  set at loop 0 $start := $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) := if idOnly then len(rankOutID) else len(rankOutDoc)]
  set at loop 0 $count := $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) := numDocs]
  set at loop 0 $rep := $rep[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) - 1 := rcvd(rankerReturnChan, rcvd(rankerReturnChan) - 1)]
  for C07 C08

func Engine.TimeOut(engine, request, rankerReturnChan) (rankOutArr, numDocs, isTimeout)
  requires optsOk(engine) && rankerReturnChan != nil
  requires request.Timeout <= 1099511627776 && request.Timeout > 0
  modifies chan(rankerReturnChan), chans[time.Time], global $start, global $count, global $rep
  set at entry $start := constmap("int", 0)
  set at entry $count := constmap("int", 0)
  ensures [type] if engine.initOptions.IDOnly then is("types.ScoredIDs", rankOutArr) else is("types.ScoredDocs", rankOutArr)
  ensures [all; C08] 0 <= (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) <= shards(engine) && (!isTimeout ==> (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shards(engine))
  ensures repsOk(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
  ensures [count; C08] numDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
  ensures [replies; C08] got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
  ensures [mergedIds; C07 C08] engine.initOptions.IDOnly ==> concatIds(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repIdsOf(rankOutArr), request.CountDocsOnly)
  ensures [mergedDocs; C07 C08] !engine.initOptions.IDOnly ==> concatDocs(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repDocsOf(rankOutArr), request.CountDocsOnly)
  ensures [own] if engine.initOptions.IDOnly then repIdsOf(rankOutArr) == nil || fresh(repIdsOf(rankOutArr)) else repDocsOf(rankOutArr) == nil || fresh(repDocsOf(rankOutArr))
  loop 0
    invariant 0 <= shard <= shards(engine) && idOnly == engine.initOptions.IDOnly
    invariant 0 <= (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) <= shard && (!isTimeout ==> (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shard)
    invariant got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
    invariant repsOk(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
    invariant numDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
    invariant idOnly ==> concatIds(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), rankOutID, request.CountDocsOnly)
    invariant !idOnly ==> concatDocs(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), rankOutDoc, request.CountDocsOnly)
    invariant rankOutID == nil || fresh(rankOutID)
    invariant rankOutDoc == nil || fresh(rankOutDoc)
  set at loop 0 $start := $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) := if idOnly then len(rankOutID) else len(rankOutDoc)]
  set at loop 0 $count := $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) := numDocs]
  set at loop 0 $rep := if rcvd(rankerReturnChan) > iter(rcvd(rankerReturnChan)) then $rep[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) - 1 := rcvd(rankerReturnChan, rcvd(rankerReturnChan) - 1)] else $rep
  for C07 C08

# document i of the concatenation is better than document j
macro betterCat(cat, i, j) = better(scoresOf(cat[i].Scores), len(cat[i].Scores), scoresOf(cat[j].Scores), len(cat[j].Scores))

func Engine.RankID(engine, request, rankOpts, tokens, rankerReturnChan) (output)
  requires optsOk(engine) && rankerReturnChan != nil
  requires request.Timeout <= 1099511627776
  requires engine.initOptions.IDOnly
  modifies chan(rankerReturnChan), chans[time.Time], global $start, global $count, global $rep, global $catIds, global $perm, global $perminv
  ensures [tokens; C07 C08] output.Tokens == tokens
  ensures [all; C08] 0 <= (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) <= shards(engine) && (!output.Timeout ==> (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shards(engine)) && (request.Timeout <= 0 ==> !output.Timeout)
  ensures [count; C08] output.NumDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
  ensures [types; C07 C08] repTypes(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
  ensures [replies; C08] got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
  ensures [countOnly; C07 C08] request.CountDocsOnly ==> output.Docs == nil
  ensures [type; C07 C08] !request.CountDocsOnly ==> is("types.ScoredIDs", output.Docs)
  ensures [unordered; C08] !request.CountDocsOnly && request.Orderless ==> concatIds(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repIdsOf(output.Docs), false)
  ensures [window; C07] !request.CountDocsOnly && !request.Orderless ==> len(repIdsOf(output.Docs)) == pageEnd(rankOpts.OutputOffset, rankOpts.MaxOutputs, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]) - pageStart(rankOpts.OutputOffset, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))])
  ensures [merged; C07 C08] !request.CountDocsOnly && !request.Orderless ==> forall i int :: { $rep[i] } 0 <= i < (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) && $rep[i].docs != nil ==> partIds($catIds, i)
  ensures [all; C07 C08] !request.CountDocsOnly && !request.Orderless ==> bijection($start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))])
  ensures [sorted; C08] !request.CountDocsOnly && !request.Orderless ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))] ==>
    (if rankOpts.ReverseOrder then !betterCat($catIds, $perm[a], $perm[b]) else !betterCat($catIds, $perm[b], $perm[a]))
  ensures [page; C07 C08] !request.CountDocsOnly && !request.Orderless ==> forall k int :: { repIdsOf(output.Docs)[k] } 0 <= k < len(repIdsOf(output.Docs)) ==>
    repIdsOf(output.Docs)[k] == $catIds[$perm[pageStart(rankOpts.OutputOffset, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]) + k]]
  set at aftercall NotTimeOut $catIds := row(repIdsOf($r0))
  set at aftercall TimeOut $catIds := row(repIdsOf($r0))
  for C07 C08

func Engine.Ranks(engine, request, rankOpts, tokens, rankerReturnChan) (output)
  requires optsOk(engine) && rankerReturnChan != nil
  requires request.Timeout <= 1099511627776
  requires !engine.initOptions.IDOnly
  modifies chan(rankerReturnChan), chans[time.Time], global $start, global $count, global $rep, global $catDocs, global $perm, global $perminv
  ensures [tokens; C07 C08] output.Tokens == tokens
  ensures [all; C08] 0 <= (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) <= shards(engine) && (!output.Timeout ==> (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) == shards(engine)) && (request.Timeout <= 0 ==> !output.Timeout)
  ensures [count; C08] output.NumDocs == $count[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]
  ensures [types; C07 C08] repTypes(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))))
  ensures [replies; C08] got(engine, rankerReturnChan, old(rcvd(rankerReturnChan)), (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), request.CountDocsOnly)
  ensures [countOnly; C07 C08] request.CountDocsOnly ==> output.Docs == nil
  ensures [type; C07 C08] !request.CountDocsOnly ==> is("types.ScoredDocs", output.Docs)
  ensures [unordered; C08] !request.CountDocsOnly && request.Orderless ==> concatDocs(engine, (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))), repDocsOf(output.Docs), false)
  ensures [window; C07] !request.CountDocsOnly && !request.Orderless ==> len(repDocsOf(output.Docs)) == pageEnd(rankOpts.OutputOffset, rankOpts.MaxOutputs, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]) - pageStart(rankOpts.OutputOffset, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))])
  ensures [merged; C07 C08] !request.CountDocsOnly && !request.Orderless ==> forall i int :: { $rep[i] } 0 <= i < (rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan))) && $rep[i].docs != nil ==> partDocs($catDocs, i)
  ensures [all; C07 C08] !request.CountDocsOnly && !request.Orderless ==> bijection($start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))])
  ensures [sorted; C08] !request.CountDocsOnly && !request.Orderless ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))] ==>
    (if rankOpts.ReverseOrder then !betterCat($catDocs, $perm[a], $perm[b]) else !betterCat($catDocs, $perm[b], $perm[a]))
  ensures [page; C07 C08] !request.CountDocsOnly && !request.Orderless ==> forall k int :: { repDocsOf(output.Docs)[k] } 0 <= k < len(repDocsOf(output.Docs)) ==>
    repDocsOf(output.Docs)[k] == $catDocs[$perm[pageStart(rankOpts.OutputOffset, $start[(rcvd(rankerReturnChan) - old(rcvd(rankerReturnChan)))]) + k]]
  set at aftercall NotTimeOut $catDocs := row(repDocsOf($r0))
  set at aftercall TimeOut $catDocs := row(repDocsOf($r0))
  for C07 C08

# what every shard is asked
macro asked(v, request, tokens, rankOpts, ch) = v.countDocsOnly == request.CountDocsOnly && v.tokens == tokens && v.labels == request.Labels && v.docIds == request.DocIds &&
  v.options == rankOpts && v.rankerReturnChan == ch && v.orderless == request.Orderless && v.logic == request.Logic
macro distinctChans(c, n) = len(c) == n && (forall a int, b int :: { c[a], c[b] } 0 <= a < b < n ==> c[a] != c[b])
macro lookupChansOk(e) = distinctChans(e.indexerLookupChans, shards(e))
macro defOptsOk(e) = e.initOptions.DefRankOpts != nil && e.initOptions.DefRankOpts.ScoringCriteria != nil

macro optsFrom(o, r, d) = o.ReverseOrder == r.ReverseOrder && o.OutputOffset == r.OutputOffset && o.MaxOutputs == r.MaxOutputs && o.ScoringCriteria == (if r.ScoringCriteria == nil then d.ScoringCriteria else r.ScoringCriteria)
ghost var $opts types.RankOpts
ghost var $n0 int

func Engine.Search(engine, request) (output)
  requires optsOk(engine) && engine.initialized && defOptsOk(engine) && lookupChansOk(engine)
  requires request.Timeout <= 1099511627776
  modifies chans[indexerLookupReq], chans[rankerReturnReq], chans[time.Time], global $start, global $count, global $rep, global $catIds, global $catDocs, global $perm, global $perminv, global $replies, global $opts, global $n0, $split
  ensures [opts; C07 C08] let o = if request.RankOpts == nil then engine.initOptions.DefRankOpts else request.RankOpts ::
    optsFrom($opts, o, engine.initOptions.DefRankOpts)
  ensures [asked; C07 C08] forall s int :: { engine.indexerLookupChans[s] } 0 <= s < shards(engine) ==>
    sent(engine.indexerLookupChans[s]) == old(sent(engine.indexerLookupChans[s])) + 1 &&
    asked(sent(engine.indexerLookupChans[s], old(sent(engine.indexerLookupChans[s]))), request, output.Tokens, $opts, $replies)
  ensures [all; C08] fresh(ref($replies)) && 0 <= rcvd($replies) - $n0 && (!output.Timeout ==> rcvd($replies) - $n0 == shards(engine)) && (request.Timeout <= 0 ==> !output.Timeout)
  ensures [replies; C08] got(engine, $replies, $n0, rcvd($replies) - $n0, request.CountDocsOnly)
  ensures [count; C08] output.NumDocs == $count[rcvd($replies) - $n0]
  ensures [type; C07 C08] repTypes(engine, (rcvd($replies) - $n0))
  ensures [perm; C07 C08] !request.CountDocsOnly && !request.Orderless ==> bijection($start[(rcvd($replies) - $n0)])
  ensures [countOnly; C07 C08] request.CountDocsOnly ==> output.Docs == nil
  ensures [typeIds; C07 C08] engine.initOptions.IDOnly && !request.CountDocsOnly ==> is("types.ScoredIDs", output.Docs)
  ensures [unorderedIds; C08] engine.initOptions.IDOnly && !request.CountDocsOnly && request.Orderless ==> concatIds(engine, (rcvd($replies) - $n0), repIdsOf(output.Docs), false)
  ensures [windowIds; C07] engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> len(repIdsOf(output.Docs)) == pageEnd($opts.OutputOffset, $opts.MaxOutputs, $start[(rcvd($replies) - $n0)]) - pageStart($opts.OutputOffset, $start[(rcvd($replies) - $n0)])
  ensures [mergedIds; C07 C08] engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall i int :: { $rep[i] } 0 <= i < (rcvd($replies) - $n0) && $rep[i].docs != nil ==> partIds($catIds, i)
  ensures [sortedIds; C08] engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < $start[(rcvd($replies) - $n0)] ==>
    (if $opts.ReverseOrder then !betterCat($catIds, $perm[a], $perm[b]) else !betterCat($catIds, $perm[b], $perm[a]))
  ensures [pageIds; C07 C08] engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall k int :: { repIdsOf(output.Docs)[k] } 0 <= k < len(repIdsOf(output.Docs)) ==>
    repIdsOf(output.Docs)[k] == $catIds[$perm[pageStart($opts.OutputOffset, $start[(rcvd($replies) - $n0)]) + k]]
  ensures [typeDocs; C07 C08] !engine.initOptions.IDOnly && !request.CountDocsOnly ==> is("types.ScoredDocs", output.Docs)
  ensures [unorderedDocs; C08] !engine.initOptions.IDOnly && !request.CountDocsOnly && request.Orderless ==> concatDocs(engine, (rcvd($replies) - $n0), repDocsOf(output.Docs), false)
  ensures [windowDocs; C07] !engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> len(repDocsOf(output.Docs)) == pageEnd($opts.OutputOffset, $opts.MaxOutputs, $start[(rcvd($replies) - $n0)]) - pageStart($opts.OutputOffset, $start[(rcvd($replies) - $n0)])
  ensures [mergedDocs; C07 C08] !engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall i int :: { $rep[i] } 0 <= i < (rcvd($replies) - $n0) && $rep[i].docs != nil ==> partDocs($catDocs, i)
  ensures [sortedDocs; C08] !engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < $start[(rcvd($replies) - $n0)] ==>
    (if $opts.ReverseOrder then !betterCat($catDocs, $perm[a], $perm[b]) else !betterCat($catDocs, $perm[b], $perm[a]))
  ensures [pageDocs; C07 C08] !engine.initOptions.IDOnly && !request.CountDocsOnly && !request.Orderless ==> forall k int :: { repDocsOf(output.Docs)[k] } 0 <= k < len(repDocsOf(output.Docs)) ==>
    repDocsOf(output.Docs)[k] == $catDocs[$perm[pageStart($opts.OutputOffset, $start[(rcvd($replies) - $n0)]) + k]]
  loop 0
    invariant 0 <= shard <= shards(engine)
    invariant [C07 C08] forall s int :: { engine.indexerLookupChans[s] } 0 <= s < shard ==>
      sent(engine.indexerLookupChans[s]) == old(sent(engine.indexerLookupChans[s])) + 1 &&
      asked(sent(engine.indexerLookupChans[s], old(sent(engine.indexerLookupChans[s]))), request, tokens, rankOpts, rankerReturnChan)
    invariant forall s int :: { engine.indexerLookupChans[s] } shard <= s < shards(engine) ==> sent(engine.indexerLookupChans[s]) == old(sent(engine.indexerLookupChans[s]))
  set at call RankID $replies := rankerReturnChan
  set at call Ranks $replies := rankerReturnChan
  set at call RankID $n0 := rcvd(rankerReturnChan)
  set at call Ranks $n0 := rcvd(rankerReturnChan)
  set at call RankID $opts := rankOpts
  set at call Ranks $opts := rankOpts
  for C07 C08

macro chansOf(e, c) = len(c) == shards(e)
# a shard returns the first top documents of its ranked list: all that can be on the page
macro top(o, m, n) = if m <= 0 then n else min(n, (if o > 0 then o else 0) + m)
macro rankReq(e, s) = rcvd(e.rankerRankChans[s], old(rcvd(e.rankerRankChans[s])))

func Engine.rankerRank(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && ranksOk(engine) && len(engine.rankerRankChans) == shards(engine)
  requires forall s int :: { engine.rankers[s].idOnly } 0 <= s < shards(engine) ==> held(engine.rankers[s].lock) == 0
  modifies chans[rankerRankReq], chans[rankerReturnReq], global $src, global $dst, global $perm, global $perminv
  step 0
  ensures [one; C07 C08] rcvd(engine.rankerRankChans[shard]) == old(rcvd(engine.rankerRankChans[shard])) + 1
  ensures [reply; C07 C08] let q = rankReq(engine, shard) :: sent(q.rankerReturnChan) == old(sent(q.rankerReturnChan)) + 1
  ensures [only; C07 C08] let q = rankReq(engine, shard) :: forall c chan rankerReturnReq :: { sent(c) } c != q.rankerReturnChan ==> sent(c) == old(sent(c))
  ensures [window; C07] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    repLen(engine.initOptions.IDOnly, r) == (if q.countDocsOnly then 0 else top(q.options.OutputOffset, q.options.MaxOutputs, r.numDocs))
  ensures [kept; C08] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    kept(engine.rankers[shard], q.options.ScoringCriteria, q.docs, len(q.docs), r.numDocs)
  ensures [all; C07 C08] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) :: !q.countDocsOnly ==> bijection(r.numDocs)
  ensures [order; C08] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) :: !q.countDocsOnly ==> inOrder(engine.rankers[shard], q.options, q.docs, r.numDocs)
  ensures [ids; C08] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    !q.countDocsOnly && engine.initOptions.IDOnly ==> let p = repIds(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> outId(p[k], engine.rankers[shard], q.options.ScoringCriteria, ranked(q.docs, k))
  ensures [docs; C08] let q = rankReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    !q.countDocsOnly && !engine.initOptions.IDOnly ==> let p = repDocs(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> outDoc(p[k], engine.rankers[shard], q.options.ScoringCriteria, ranked(q.docs, k))
  for C07 C08

# the lookup workers: what a request makes of a shard
macro lookupReq(e, s) = rcvd(e.indexerLookupChans[s], old(rcvd(e.indexerLookupChans[s])))
macro shardOk(ix) = ix.initialized && rowsOk(ix) && statsOk(ix)
macro indexOk(e) = len(e.indexers) == shards(e) && (forall s int :: { e.indexers[s].initialized } 0 <= s < shards(e) ==> shardOk(e.indexers[s]))
macro rcvinv_riot_indexerLookupReq(v) = len(v.tokens) < 1073741824 && len(v.labels) < 1073741824 && (forall i int :: 0 <= i < len(v.tokens) ==> len(v.tokens[i]) < 1073741824)
macro sameLocs(o, d) = o.DocId == d.DocId && o.TokenSnippetLocs == d.TokenSnippetLocs && o.TokenLocs == d.TokenLocs

ghost var $docs []types.IndexedDoc
ghost var $n int

func Engine.orderLess(engine, request, docs)
  requires request.rankerReturnChan != nil
  modifies chan(request.rankerReturnChan)
  ensures [one; C08] sent(request.rankerReturnChan) == old(sent(request.rankerReturnChan)) + 1
  ensures [only; C07 C08] forall c chan rankerReturnReq :: { sent(c) } c != request.rankerReturnChan ==> sent(c) == old(sent(c))
  ensures [reply; C08] let r = sent(request.rankerReturnChan, old(sent(request.rankerReturnChan))) ::
    r.docs != nil && repLen(engine.initOptions.IDOnly, r) == len(docs) && r.numDocs == len(docs)
  ensures [ids; C08] let r = sent(request.rankerReturnChan, old(sent(request.rankerReturnChan))) ::
    engine.initOptions.IDOnly ==> let p = repIds(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> sameLocs(p[k], docs[k])
  ensures [docs; C08] let r = sent(request.rankerReturnChan, old(sent(request.rankerReturnChan))) ::
    !engine.initOptions.IDOnly ==> let p = repDocs(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> sameLocs(p[k], docs[k])
  loop 0
    invariant len(outputDocs) == $idx && off(outputDocs) == 0 && (outputDocs == nil || fresh(outputDocs))
    invariant forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> sameLocs(outputDocs[k], docs[k])
  loop 1
    invariant len(outputDocs) == $idx && off(outputDocs) == 0 && (outputDocs == nil || fresh(outputDocs))
    invariant forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> sameLocs(outputDocs[k], docs[k])
  for C08

func Engine.indexerLookup(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && indexOk(engine) && len(engine.indexerLookupChans) == shards(engine) && len(engine.rankerRankChans) == shards(engine)
  modifies chans[indexerLookupReq], chans[rankerRankReq], chans[rankerReturnReq], field core.Indexer.$found, global $val, global $chain, global $L, global $N, global $docs, global $n, calls "core.Indexer.Lookup"
  step 0
  set at aftercall Lookup $docs := $r0
  set at aftercall Lookup $n := $r1
  ensures [one; C08] rcvd(engine.indexerLookupChans[shard]) == old(rcvd(engine.indexerLookupChans[shard])) + 1
  ensures [countOnly; C08] let q = lookupReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    q.countDocsOnly ==> sent(q.rankerReturnChan) == old(sent(q.rankerReturnChan)) + 1 && r.docs == nil && r.numDocs == $n
  ensures [lookup; C08] called("core.Indexer.Lookup") == old(called("core.Indexer.Lookup")) + 1 && let q = lookupReq(engine, shard) :: let c = old(called("core.Indexer.Lookup")) ::
    called("core.Indexer.Lookup", c, 0) == addr(engine.indexers[shard]) && called("core.Indexer.Lookup", c, 1) == q.tokens && called("core.Indexer.Lookup", c, 2) == q.labels &&
    called("core.Indexer.Lookup", c, 3) == q.docIds && called("core.Indexer.Lookup", c, 4) == q.countDocsOnly
  ensures [empty; C08] let q = lookupReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    !q.countDocsOnly && len($docs) == 0 ==> sent(q.rankerReturnChan) == old(sent(q.rankerReturnChan)) + 1 && r.docs == nil && r.numDocs == 0
  ensures [orderless; C08] let q = lookupReq(engine, shard) :: let r = sent(q.rankerReturnChan, old(sent(q.rankerReturnChan))) ::
    !q.countDocsOnly && len($docs) > 0 && q.orderless ==> sent(q.rankerReturnChan) == old(sent(q.rankerReturnChan)) + 1 && r.docs != nil && repLen(engine.initOptions.IDOnly, r) == len($docs) && r.numDocs == len($docs) &&
      (engine.initOptions.IDOnly ==> let p = repIds(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> sameLocs(p[k], $docs[k])) &&
      (!engine.initOptions.IDOnly ==> let p = repDocs(r) :: forall k int :: { p[k] } 0 <= k < len(p) ==> sameLocs(p[k], $docs[k]))
  ensures [ranked; C07 C08] let q = lookupReq(engine, shard) :: let ch = engine.rankerRankChans[shard] :: let f = sent(ch, old(sent(ch))) ::
    !q.countDocsOnly && len($docs) > 0 && !q.orderless ==> sent(ch) == old(sent(ch)) + 1 && f.docs == $docs && f.options == q.options && f.rankerReturnChan == q.rankerReturnChan && !f.countDocsOnly && sent(q.rankerReturnChan) == old(sent(q.rankerReturnChan))
  ensures [notRanked; C08] let q = lookupReq(engine, shard) :: q.countDocsOnly || len($docs) == 0 || q.orderless ==> sent(engine.rankerRankChans[shard]) == old(sent(engine.rankerRankChans[shard]))
  ensures [only; C07 C08] let q = lookupReq(engine, shard) :: forall c chan rankerReturnReq :: { sent(c) } c != q.rankerReturnChan ==> sent(c) == old(sent(c))
  ensures [onlyRank; C07 C08] forall c chan rankerRankReq :: { sent(c) } c != engine.rankerRankChans[shard] ==> sent(c) == old(sent(c))
  for C07 C08

# ---- updates

# no two rankers share a table
macro ranksApart(e) = forall s int, t int :: { e.rankers[s].lock.docs, e.rankers[t].lock.docs } 0 <= s < shards(e) && 0 <= t < shards(e) && s != t ==>
  ref(e.rankers[s].lock.docs) != ref(e.rankers[t].lock.docs) && ref(e.rankers[s].lock.fields) != ref(e.rankers[t].lock.fields) && ref(e.rankers[s].lock.attri) != ref(e.rankers[t].lock.fields)

macro addReq(e, s) = rcvd(e.rankerAddDocChans[s], old(rcvd(e.rankerAddDocChans[s])))

func Engine.rankerAddDoc(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && ranksOk(engine) && ranksApart(engine) && len(engine.rankerAddDocChans) == shards(engine)
  modifies chans[rankerAddDocReq], maps[string,bool], maps[string,string], maps[string,interface{}], calls "core.Ranker.AddDoc", engine.numDocsRanked
  step 0
  ensures [one; C08] rcvd(engine.rankerAddDocChans[shard]) == old(rcvd(engine.rankerAddDocChans[shard])) + 1 && called("core.Ranker.AddDoc") == old(called("core.Ranker.AddDoc")) + 1
  ensures [add; C08] let q = addReq(engine, shard) :: let c = old(called("core.Ranker.AddDoc")) ::
    called("core.Ranker.AddDoc", c, 0) == addr(engine.rankers[shard]) && called("core.Ranker.AddDoc", c, 1) == q.docId && called("core.Ranker.AddDoc", c, 2) == q.fields
  ensures [content; C08] let q = addReq(engine, shard) :: let v = called("core.Ranker.AddDoc", old(called("core.Ranker.AddDoc")), 3) ::
    if engine.initOptions.IDOnly then len(v) == 0 else len(v) == 2 && is("string", v[0]) && as("string", v[0]) == q.content && v[1] == q.attri
  for C08

macro removeReq(e, s) = rcvd(e.rankerRemoveDocChans[s], old(rcvd(e.rankerRemoveDocChans[s])))

func Engine.rankerRemoveDoc(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && ranksOk(engine) && ranksApart(engine) && len(engine.rankerRemoveDocChans) == shards(engine)
  modifies chans[rankerRemoveDocReq], maps[string,bool], maps[string,string], maps[string,interface{}], calls "core.Ranker.RemoveDoc", engine.numRankersRemoved
  step 0
  ensures [one; C08] rcvd(engine.rankerRemoveDocChans[shard]) == old(rcvd(engine.rankerRemoveDocChans[shard])) + 1 && called("core.Ranker.RemoveDoc") == old(called("core.Ranker.RemoveDoc")) + 1
  ensures [remove; C08] let q = removeReq(engine, shard) :: let c = old(called("core.Ranker.RemoveDoc")) ::
    called("core.Ranker.RemoveDoc", c, 0) == addr(engine.rankers[shard]) && called("core.Ranker.RemoveDoc", c, 1) == q.docId
  for C08

macro chaninv_riot_indexerAddDocReq(v) = v.doc == nil ==> v.forceUpdate

macro indexersOk(e) = len(e.indexers) == shards(e) && (forall s int :: { e.indexers[s].initialized } 0 <= s < shards(e) ==> e.indexers[s].initialized)

func Engine.indexerAddDoc(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && indexersOk(engine) && len(engine.indexerAddDocChans) == shards(engine)
  modifies chans[indexerAddDocReq], engine.numTokenIndexAdded, engine.numDocsIndexed, engine.numDocsForceUpdated, calls "core.Indexer.AddDocToCache", field core.Indexer.$ver, field core.Indexer.$kn, global $from, global $to, global $perm, global $perminv, field core.Indexer.addCacheLock.addCachePointer, field core.Indexer.removeCacheLock.removeCachePointer, field core.Indexer.numDocs, field core.Indexer.totalTokenLen,
    maps[string,int], maps[string,*core.KeywordIndices], maps[string,float32], elems[*types.DocIndex],
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  step 0
  ensures [add; C08] let q = rcvd(engine.indexerAddDocChans[shard], old(rcvd(engine.indexerAddDocChans[shard]))) :: let c = old(called("core.Indexer.AddDocToCache")) ::
    called("core.Indexer.AddDocToCache") == c + 1 && rcvd(engine.indexerAddDocChans[shard]) == old(rcvd(engine.indexerAddDocChans[shard])) + 1 &&
    called("core.Indexer.AddDocToCache", c, 0) == addr(engine.indexers[shard]) && called("core.Indexer.AddDocToCache", c, 1) == q.doc && called("core.Indexer.AddDocToCache", c, 2) == q.forceUpdate
  for C08

func Engine.indexerRemoveDoc(engine, shard)
  requires optsOk(engine) && 0 <= shard < shards(engine) && indexersOk(engine) && len(engine.indexerRemoveDocChans) == shards(engine)
  modifies chans[indexerRemoveDocReq], engine.numDocsRemoved, engine.numDocsForceUpdated, calls "core.Indexer.RemoveDocToCache", field core.Indexer.$kn, global $from, global $to, field core.Indexer.addCacheLock.addCachePointer, field core.Indexer.removeCacheLock.removeCachePointer, field core.Indexer.numDocs, field core.Indexer.totalTokenLen,
    maps[string,int], maps[string,*core.KeywordIndices], maps[string,float32], elems[*types.DocIndex],
    field core.KeywordIndices.docIds, field core.KeywordIndices.frequencies, field core.KeywordIndices.locations, elems[string], elems[float32], elems[[]int]
  step 0
  ensures [remove; C08] let q = rcvd(engine.indexerRemoveDocChans[shard], old(rcvd(engine.indexerRemoveDocChans[shard]))) :: let c = old(called("core.Indexer.RemoveDocToCache")) ::
    called("core.Indexer.RemoveDocToCache") == c + 1 && rcvd(engine.indexerRemoveDocChans[shard]) == old(rcvd(engine.indexerRemoveDocChans[shard])) + 1 &&
    called("core.Indexer.RemoveDocToCache", c, 0) == addr(engine.indexers[shard]) && called("core.Indexer.RemoveDocToCache", c, 1) == q.docId && called("core.Indexer.RemoveDocToCache", c, 2) == q.forceUpdate
  for C08

macro removeChansOk(e) = distinctChans(e.indexerRemoveDocChans, shards(e)) && distinctChans(e.rankerRemoveDocChans, shards(e))
macro oneMore(c) = sent(c) == old(sent(c)) + 1
macro none(c) = sent(c) == old(sent(c))
macro last(c) = sent(c, old(sent(c)))

func Engine.RemoveDoc(engine, docId, forceUpdate)
  requires optsOk(engine) && engine.initialized && removeChansOk(engine)
  requires engine.initOptions.UseStore ==> 1 <= engine.initOptions.StoreShards && engine.initOptions.StoreShards <= 65536
  requires storeChansOk(engine)
  modifies chans[indexerRemoveDocReq], chans[rankerRemoveDocReq], chans[storeIndexDocReq], engine.numRemovingReqs, engine.numForceUpdatingReqs
  ensures [unstored; C11] engine.initOptions.UseStore && docId != "0" ==> let ch = engine.storeIndexDocChans[partOf(engine, docId)] :: oneMore(ch) && last(ch).docId == docId && last(ch).remove
  ensures [onlyThere; C11] forall c chan storeIndexDocReq :: { sent(c) } (engine.initOptions.UseStore && docId != "0" && c == engine.storeIndexDocChans[partOf(engine, docId)]) || none(c)
  ensures [everyShard; C08] forall s int :: { engine.indexerRemoveDocChans[s] } 0 <= s < shards(engine) ==> oneMore(engine.indexerRemoveDocChans[s]) && last(engine.indexerRemoveDocChans[s]).docId == docId && (last(engine.indexerRemoveDocChans[s]).forceUpdate <==> len(forceUpdate) > 0 && forceUpdate[0])
  ensures [everyRanker; C08] forall s int :: { engine.rankerRemoveDocChans[s] } 0 <= s < shards(engine) ==> if docId == "0" then none(engine.rankerRemoveDocChans[s]) else oneMore(engine.rankerRemoveDocChans[s]) && last(engine.rankerRemoveDocChans[s]).docId == docId
  loop 0
    invariant 0 <= shard <= shards(engine) && (force <==> len(forceUpdate) > 0 && forceUpdate[0])
    invariant forall s int :: { engine.indexerRemoveDocChans[s] } 0 <= s < shard ==> oneMore(engine.indexerRemoveDocChans[s]) && last(engine.indexerRemoveDocChans[s]).docId == docId && last(engine.indexerRemoveDocChans[s]).forceUpdate == force
    invariant forall s int :: { engine.indexerRemoveDocChans[s] } shard <= s < shards(engine) ==> none(engine.indexerRemoveDocChans[s])
    invariant forall s int :: { engine.rankerRemoveDocChans[s] } 0 <= s < shard ==> if docId == "0" then none(engine.rankerRemoveDocChans[s]) else oneMore(engine.rankerRemoveDocChans[s]) && last(engine.rankerRemoveDocChans[s]).docId == docId
    invariant forall s int :: { engine.rankerRemoveDocChans[s] } shard <= s < shards(engine) ==> none(engine.rankerRemoveDocChans[s])
  for C08 C11

function hashOf(s string) uint32
func "github.com/go-ego/murmur.Sum32"(s, seed) (r)
  trusted "murmur3 is a function of the string when no seed is given"
  ensures len(seed) == 0 ==> r == hashOf(s)

func Engine.internalIndexDoc(engine, docId, data, forceUpdate)
  requires engine.initialized
  modifies chan(engine.segmenterChan), engine.numIndexingReqs, engine.numForceUpdatingReqs
  ensures [one; C08 C11] oneMore(engine.segmenterChan)
  ensures [routed; C08 C11] let q = last(engine.segmenterChan) :: q.docId == docId && q.hash == hashOf(docId) && q.forceUpdate == forceUpdate && q.data == data
  for C08 C11

macro storeOk(e) = 1 <= e.initOptions.StoreShards && e.initOptions.StoreShards <= 65536
macro storeChansOk(e) = e.initOptions.UseStore ==> distinctChans(e.storeIndexDocChans, e.initOptions.StoreShards)
# the one partition of a document
macro partOf(e, d) = hashOf(d) % e.initOptions.StoreShards

func Engine.Index(engine, docId, data, forceUpdate)
  requires engine.initialized && storeOk(engine) && storeChansOk(engine)
  modifies chan(engine.segmenterChan), chans[storeIndexDocReq], engine.numIndexingReqs, engine.numForceUpdatingReqs
  ensures [one; C08 C11] oneMore(engine.segmenterChan)
  ensures [routed; C08 C11] let q = last(engine.segmenterChan) :: q.docId == docId && q.hash == hashOf(docId) && (q.forceUpdate <==> len(forceUpdate) > 0 && forceUpdate[0]) && q.data == data
  ensures [stored; C11] engine.initOptions.UseStore && docId != "0" ==> let ch = engine.storeIndexDocChans[partOf(engine, docId)] :: oneMore(ch) && last(ch).docId == docId && last(ch).data == data && !last(ch).remove
  ensures [onlyThere; C11] forall c chan storeIndexDocReq :: { sent(c) } (engine.initOptions.UseStore && docId != "0" && c == engine.storeIndexDocChans[partOf(engine, docId)]) || none(c)
  for C08 C11

func Engine.IndexDoc(engine, docId, data, forceUpdate)
  requires engine.initialized && storeOk(engine) && storeChansOk(engine)
  modifies chan(engine.segmenterChan), chans[storeIndexDocReq], engine.numIndexingReqs, engine.numForceUpdatingReqs
  ensures [one; C08 C11] oneMore(engine.segmenterChan)
  ensures [routed; C08 C11] let q = last(engine.segmenterChan) :: q.docId == docId && q.hash == hashOf(docId) && (q.forceUpdate <==> len(forceUpdate) > 0 && forceUpdate[0]) && q.data == data
  ensures [stored; C11] engine.initOptions.UseStore && docId != "0" ==> let ch = engine.storeIndexDocChans[partOf(engine, docId)] :: oneMore(ch) && last(ch).docId == docId && last(ch).data == data && !last(ch).remove
  for C08 C11

macro segReq(e) = rcvd(e.segmenterChan, old(rcvd(e.segmenterChan)))
macro homeOf(e, q) = q.hash % shards(e)
macro addChansOk(e) = distinctChans(e.indexerAddDocChans, shards(e)) && distinctChans(e.rankerAddDocChans, shards(e))
macro forced(c) = oneMore(c) && last(c).doc == nil && last(c).forceUpdate

macro newDoc(e) = last(e.indexerAddDocChans[homeOf(e, segReq(e))]).doc
# the keys a document is indexed under
macro labelKey(e, q, n, k) = !(!e.initOptions.NotUseGse && stopped(e, k)) && inPrefix(q.data.Labels, n, k)
macro wanted(e, q, k) = !stopped(e, k) && docKey(e, q, k) || labelKey(e, q, len(q.data.Labels), k)
# where they are in the document's list
ghost var $kwAt lmap[string]int
macro rcvinv_riot_segmenterReq(v) = small(len(v.data.Tokens))

func Engine.segmenterWorker(engine)
  requires optsOk(engine) && engine.segmenterChan != nil && addChansOk(engine)
  modifies chan(engine.segmenterChan), chans[indexerAddDocReq], chans[rankerAddDocReq], $ws, $pin, $kwAt
  step 0
  ensures [pins; C09] segReq(engine).docId != "0" ==> pinsOk(engine, segReq(engine).data.Content)
  ensures [keys; C09] let q = segReq(engine) :: q.docId != "0" ==> forall k string :: { $kwAt[k] } wanted(engine, q, k) ==> 0 <= $kwAt[k] < len(newDoc(engine).Keywords) && newDoc(engine).Keywords[$kwAt[k]].Text == k
  ensures [onlyOnce; C09] let q = segReq(engine) :: q.docId != "0" ==> let ks = newDoc(engine).Keywords :: forall i int :: { ks[i] } 0 <= i < len(ks) ==> wanted(engine, q, ks[i].Text) && $kwAt[ks[i].Text] == i
  ensures [given; C09] let q = segReq(engine) :: q.docId != "0" ==> let ks = newDoc(engine).Keywords :: forall i int :: { ks[i] } 0 <= i < len(ks) && lastAt(q.data.Tokens, given(engine, q), ks[i].Text) >= 0 && !stopped(engine, ks[i].Text) ==> ks[i].Starts == q.data.Tokens[lastAt(q.data.Tokens, given(engine, q), ks[i].Text)].Locations
  ensures [found; C09] let q = segReq(engine) :: q.docId != "0" ==> let ks = newDoc(engine).Keywords :: forall i int :: { ks[i] } 0 <= i < len(ks) && lastAt(q.data.Tokens, given(engine, q), ks[i].Text) < 0 && !stopped(engine, ks[i].Text) && docKey(engine, q, ks[i].Text) ==> len(ks[i].Starts) >= 1 && forall a int, b int :: { ks[i].Starts[a], ks[i].Starts[b] } 0 <= a <= b < len(ks[i].Starts) ==> ks[i].Starts[a] <= ks[i].Starts[b]
  ensures [exact; C09] let q = segReq(engine) :: q.docId != "0" && segmented(engine, q) ==> let ks = newDoc(engine).Keywords :: let n = numSegments(q.data.Content, engine.initOptions.GseMode) ::
    (forall i int :: { ks[i] } 0 <= i < len(ks) && !stopped(engine, ks[i].Text) && lastAt(q.data.Tokens, given(engine, q), ks[i].Text) < 0 && segCount(segsOf(engine, q.data.Content), n, ks[i].Text) >= 1 ==> len(ks[i].Starts) == segCount(segsOf(engine, q.data.Content), n, ks[i].Text)) &&
    (forall i int :: { segsOf(engine, q.data.Content)[i] } let k = textOf(tokenOf(segsOf(engine, q.data.Content)[i])) :: let c = segCount(segsOf(engine, q.data.Content), i, k) :: 0 <= i < n && !stopped(engine, k) && lastAt(q.data.Tokens, given(engine, q), k) < 0 ==> 0 <= c < len(ks[$kwAt[k]].Starts) && ks[$kwAt[k]].Starts[c] == startOf(segsOf(engine, q.data.Content)[i]))
  ensures [label; C09] let q = segReq(engine) :: q.docId != "0" ==> let ks = newDoc(engine).Keywords :: forall i int :: { ks[i] } 0 <= i < len(ks) && !(docKey(engine, q, ks[i].Text) && !stopped(engine, ks[i].Text)) ==> len(ks[i].Starts) == 0
  ensures [frequency; C09] let q = segReq(engine) :: q.docId != "0" ==> let ks = newDoc(engine).Keywords :: forall i int :: { ks[i] } 0 <= i < len(ks) ==> ks[i].Frequency == real(len(ks[i].Starts))
  ensures [flush; C08] let q = segReq(engine) :: q.docId == "0" ==> forall s int :: { engine.indexerAddDocChans[s] } 0 <= s < shards(engine) ==> if q.forceUpdate then forced(engine.indexerAddDocChans[s]) else none(engine.indexerAddDocChans[s])
  ensures [flushRank; C08] let q = segReq(engine) :: q.docId == "0" ==> forall s int :: { engine.rankerAddDocChans[s] } 0 <= s < shards(engine) ==> none(engine.rankerAddDocChans[s])
  ensures [home; C08 C09] let q = segReq(engine) :: q.docId != "0" ==> let ch = engine.indexerAddDocChans[homeOf(engine, q)] :: oneMore(ch) && last(ch).doc != nil && last(ch).doc.DocId == q.docId && last(ch).forceUpdate == q.forceUpdate
  ensures [others; C08] let q = segReq(engine) :: q.docId != "0" ==> forall s int :: { engine.indexerAddDocChans[s] } 0 <= s < shards(engine) && s != homeOf(engine, q) ==> if q.forceUpdate then forced(engine.indexerAddDocChans[s]) else none(engine.indexerAddDocChans[s])
  ensures [ranker; C08] let q = segReq(engine) :: q.docId != "0" ==> let ch = engine.rankerAddDocChans[homeOf(engine, q)] :: oneMore(ch) && last(ch).docId == q.docId && last(ch).fields == q.data.Fields && last(ch).content == q.data.Content && last(ch).attri == q.data.Attri
  ensures [otherRankers; C08] let q = segReq(engine) :: q.docId != "0" ==> forall s int :: { engine.rankerAddDocChans[s] } 0 <= s < shards(engine) && s != homeOf(engine, q) ==> none(engine.rankerAddDocChans[s])
  loop 1
    invariant 0 <= i <= shards(engine)
    invariant forall s int :: { engine.indexerAddDocChans[s] } 0 <= s < i ==> forced(engine.indexerAddDocChans[s])
    invariant forall s int :: { engine.indexerAddDocChans[s] } i <= s < shards(engine) ==> none(engine.indexerAddDocChans[s])
    decreases shards(engine) - i
  loop 2
    invariant fresh(tokensMap) && tokensMap != nil
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || labelKey(engine, request, $idx, k)
    invariant [same; C09] forall k string :: { tokensMap[k] } before(k in tokensMap) ==> tokensMap[k] == before(tokensMap[k])
    invariant [labels; C09] forall k string :: { tokensMap[k] } k in tokensMap && !before(k in tokensMap) ==> len(tokensMap[k]) == 0
    invariant [given; C09] givenOf(tokensMap, engine, request, given(engine, request))
    invariant [exact; C09] exactOf(tokensMap, engine, request)
    invariant [sorted; C09] forall k string, a int, b int :: { tokensMap[k][a], tokensMap[k][b] } k in tokensMap && lastAt(request.data.Tokens, given(engine, request), k) < 0 && 0 <= a <= b < len(tokensMap[k]) ==> tokensMap[k][a] <= tokensMap[k][b]
  set at loop 3 $kwAt := $kwAt[k := iter(iTokens)]
  loop 3
    invariant iTokens == card($visited) && (forall k string :: { $visited[k] } $visited[k] ==> k in tokensMap)
    invariant len(indexerRequest.doc.Keywords) == len(tokensMap)
    invariant [at; C09] forall k string :: { $kwAt[k] } $visited[k] ==> 0 <= $kwAt[k] < iTokens && indexerRequest.doc.Keywords[$kwAt[k]].Text == k
    invariant [once; C09] let ks = indexerRequest.doc.Keywords :: forall i int :: { ks[i] } 0 <= i < iTokens ==> $visited[ks[i].Text] && $kwAt[ks[i].Text] == i && ks[i].Starts == tokensMap[ks[i].Text] && ks[i].Frequency == real(len(ks[i].Starts))
  loop 4
    invariant 0 <= i <= shards(engine)
    invariant let ch = engine.indexerAddDocChans[shard] :: oneMore(ch) && last(ch).doc != nil && last(ch).doc.DocId == request.docId && last(ch).forceUpdate == request.forceUpdate
    invariant [same; C09] let ch = engine.indexerAddDocChans[shard] :: last(ch).doc == indexerRequest.doc
    invariant forall s int :: { engine.indexerAddDocChans[s] } 0 <= s < i && s != shard ==> forced(engine.indexerAddDocChans[s])
    invariant forall s int :: { engine.indexerAddDocChans[s] } i <= s < shards(engine) && s != shard ==> none(engine.indexerAddDocChans[s])
    decreases shards(engine) - i
  for C08 C09

# start-up options (C12)
func Engine.initDef(engine, options) (r)
  ensures [dict; C12] r.GseDict == (if options.GseDict == "" && !options.NotUseGse && !engine.loaded then "zh" else options.GseDict)
  ensures [folder; C12] r.StoreFolder == (if options.UseStore && options.StoreFolder == "" then DefaultPath else options.StoreFolder)
  ensures [kept; C12] r.NotUseGse == options.NotUseGse && r.Using == options.Using && r.PinYin == options.PinYin && r.UsePhrase == options.UsePhrase && r.StopTokenFile == options.StopTokenFile && r.GseMode == options.GseMode && r.Hmm == options.Hmm && r.Model == options.Model &&
    r.NumGseThreads == options.NumGseThreads && r.NumShards == options.NumShards && r.IndexerBufLen == options.IndexerBufLen && r.NumIndexerThreads == options.NumIndexerThreads && r.RankerBufLen == options.RankerBufLen && r.NumRankerThreads == options.NumRankerThreads &&
    r.IndexerOpts == options.IndexerOpts && r.DefRankOpts == options.DefRankOpts && r.StoreOnly == options.StoreOnly && r.UseStore == options.UseStore && r.StoreShards == options.StoreShards && r.StoreEngine == options.StoreEngine && r.IDOnly == options.IDOnly
  for C12
