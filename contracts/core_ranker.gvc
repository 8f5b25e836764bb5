# Ranking of the found documents, and the window of the ranked list that is returned.
package types

# the score list a criterion gives a document
function scoreLen(c types.ScoringCriteria, d types.IndexedDoc, fields interface{}) int
function scoreRow(c types.ScoringCriteria, d types.IndexedDoc, fields interface{}) lmap[int]real

func ScoringCriteria.Score(rule, doc, fields) (scores)
  trusted "a scoring criterion is a function of the document and its fields, and changes nothing"
  ensures len(scores) == scoreLen(rule, doc, fields)
  ensures forall k int :: { scores[k] } 0 <= k < len(scores) ==> scores[k] == scoreRow(rule, doc, fields)[k]

func RankByBM25.Score(rule, doc, fields) (scores)
  ensures [bm25; C06] len(scores) == 1 && scores[0] == doc.BM25
  for C06

package core

guard field core.Ranker.lock.fields by ranker.lock
guard field core.Ranker.lock.docs by ranker.lock
guard field core.Ranker.lock.content by ranker.lock
guard field core.Ranker.lock.attri by ranker.lock
guard map(ranker.lock.fields) by ranker.lock
guard map(ranker.lock.docs) by ranker.lock
guard map(ranker.lock.content) by ranker.lock
guard map(ranker.lock.attri) by ranker.lock

# output k of the ranking comes from document $src[k]; kept document j goes to output $dst[j]
ghost var $src lmap[int]int
ghost var $dst lmap[int]int
ghost var $perm lmap[int]int
ghost var $perminv lmap[int]int

macro rankerOk(rk) = rk.initialized && rk.lock.fields != nil && rk.lock.docs != nil &&
  (!rk.idOnly ==> rk.lock.content != nil && rk.lock.attri != nil && ref(rk.lock.attri) != ref(rk.lock.fields)) &&
  (forall d string :: d in rk.lock.docs <==> d in rk.lock.fields)

macro fieldsOf(rk, d) = if d in rk.lock.fields then rk.lock.fields[d] else nil
macro contentOf(rk, d) = if d in rk.lock.content then rk.lock.content[d] else ""
macro attriOf(rk, d) = if d in rk.lock.attri then rk.lock.attri[d] else nil

macro keeps(rk, c, d) = d.DocId in rk.lock.docs && scoreLen(c, d, fieldsOf(rk, d.DocId)) > 0

macro scoresAs(s, c, d, fs) = len(s) == scoreLen(c, d, fs) && (forall k int :: { s[k] } 0 <= k < len(s) ==> s[k] == scoreRow(c, d, fs)[k])
macro outId(s, rk, c, d) = s.DocId == d.DocId && s.TokenSnippetLocs == d.TokenSnippetLocs && s.TokenLocs == d.TokenLocs &&
  scoresAs(s.Scores, c, d, fieldsOf(rk, d.DocId))
macro outDoc(s, rk, c, d) = outId(s, rk, c, d) && s.Fields == fieldsOf(rk, d.DocId) && s.Content == contentOf(rk, d.DocId) && s.Attri == attriOf(rk, d.DocId)

# the first m documents: $src lists the kept ones in order, n of them
macro kept(rk, c, docs, m, n) =
  (forall k int :: { $src[k] } 0 <= k < n ==> 0 <= $src[k] < m && keeps(rk, c, docs[$src[k]]) && $dst[$src[k]] == k) &&
  (forall j int :: { docs[j] } { $dst[j] } 0 <= j < m && keeps(rk, c, docs[j]) ==> 0 <= $dst[j] < n && $src[$dst[j]] == j)

func Ranker.Init(ranker, onlyID)
  requires !ranker.initialized
  requires [C13] held(ranker.lock) == 0
  modifies ranker.initialized, ranker.idOnly, ranker.lock.fields, ranker.lock.docs, ranker.lock.content, ranker.lock.attri
  ensures [ok; C06] rankerOk(ranker)
  ensures [empty; C06] forall d string :: !(d in ranker.lock.docs)
  ensures [idOnly; C06] len(onlyID) > 0 ==> ranker.idOnly == onlyID[0]
  for C06

func Ranker.AddDoc(ranker, docId, fields, content)
  assumed C08 under C06
  requires rankerOk(ranker)
  requires [C13] held(ranker.lock) == 0
  requires !ranker.idOnly && len(content) > 0 ==> is("string", content[0])
  modifies map(ranker.lock.fields), map(ranker.lock.docs), map(ranker.lock.content), map(ranker.lock.attri)
  ensures [ok; C06] rankerOk(ranker)
  ensures [docs; C06] forall d string :: { d in ranker.lock.docs } d in ranker.lock.docs <==> d == docId || old(d in ranker.lock.docs)
  ensures [fields; C06] docId in ranker.lock.fields && ranker.lock.fields[docId] == fields
  ensures [content; C06] !ranker.idOnly && len(content) > 0 ==> docId in ranker.lock.content && ranker.lock.content[docId] == as("string", content[0])
  ensures [attri; C06] !ranker.idOnly && len(content) > 1 ==> docId in ranker.lock.attri && ranker.lock.attri[docId] == content[1]
  ensures [others; C06] forall d string :: d != docId && d in ranker.lock.fields ==> ranker.lock.fields[d] == old(ranker.lock.fields[d])
  ensures [othersC; C06] !ranker.idOnly ==> forall d string :: d != docId ==> (d in ranker.lock.content <==> old(d in ranker.lock.content)) && (d in ranker.lock.content ==> ranker.lock.content[d] == old(ranker.lock.content[d]))
  ensures [othersA; C06] !ranker.idOnly ==> forall d string :: d != docId ==> (d in ranker.lock.attri <==> old(d in ranker.lock.attri)) && (d in ranker.lock.attri ==> ranker.lock.attri[d] == old(ranker.lock.attri[d]))
  for C06 C13

func Ranker.RemoveDoc(ranker, docId)
  assumed C08 under C06
  requires rankerOk(ranker)
  requires [C13] held(ranker.lock) == 0
  modifies map(ranker.lock.fields), map(ranker.lock.docs), map(ranker.lock.content), map(ranker.lock.attri)
  ensures [ok; C06] rankerOk(ranker)
  ensures [docs; C06] forall d string :: { d in ranker.lock.docs } d in ranker.lock.docs <==> d != docId && old(d in ranker.lock.docs)
  ensures [gone; C06] !ranker.idOnly ==> !(docId in ranker.lock.content) && !(docId in ranker.lock.attri)
  ensures [others; C06] forall d string :: d != docId && d in ranker.lock.fields ==> ranker.lock.fields[d] == old(ranker.lock.fields[d])
  ensures [othersC; C06] !ranker.idOnly ==> forall d string :: d != docId ==> (d in ranker.lock.content <==> old(d in ranker.lock.content)) && (d in ranker.lock.content ==> ranker.lock.content[d] == old(ranker.lock.content[d]))
  ensures [othersA; C06] !ranker.idOnly ==> forall d string :: d != docId ==> (d in ranker.lock.attri <==> old(d in ranker.lock.attri)) && (d in ranker.lock.attri ==> ranker.lock.attri[d] == old(ranker.lock.attri[d]))
  for C06 C13

func Ranker.rankOutIDs(ranker, docs, options, countDocsOnly) (outputDocs, numDocs)
  requires rankerOk(ranker) && options.ScoringCriteria != nil
  requires [C13] held(ranker.lock) == 0
  modifies global $src, global $dst
  ensures [kept; C06] kept(ranker, options.ScoringCriteria, docs, len(docs), numDocs)
  ensures numDocs >= 0 && len(outputDocs) == (if countDocsOnly then 0 else numDocs)
  ensures [out; C06] forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> outId(outputDocs[k], ranker, options.ScoringCriteria, docs[$src[k]])
  ensures outputDocs == nil || fresh(outputDocs)
  ensures off(outputDocs) == 0
  loop 0
    invariant 0 <= numDocs <= $idx && len(outputDocs) == (if countDocsOnly then 0 else numDocs)
    invariant off(outputDocs) == 0
    invariant outputDocs == nil || fresh(outputDocs)
    invariant [kept; C06] kept(ranker, options.ScoringCriteria, docs, $idx, numDocs)
    invariant [out; C06] forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> outId(outputDocs[k], ranker, options.ScoringCriteria, docs[$src[k]])
  set at loop 0 $src := if numDocs > iter(numDocs) then $src[iter(numDocs) := iter($idx)] else $src
  set at loop 0 $dst := $dst[iter($idx) := iter(numDocs)]
  for C06 C07 C13

func Ranker.rankOutDocs(ranker, docs, options, countDocsOnly) (outputDocs, numDocs)
  requires rankerOk(ranker) && options.ScoringCriteria != nil
  requires [C13] held(ranker.lock) == 0
  modifies global $src, global $dst
  ensures [kept; C06] kept(ranker, options.ScoringCriteria, docs, len(docs), numDocs)
  ensures numDocs >= 0 && len(outputDocs) == (if countDocsOnly then 0 else numDocs)
  ensures [out; C06] forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> outDoc(outputDocs[k], ranker, options.ScoringCriteria, docs[$src[k]])
  ensures outputDocs == nil || fresh(outputDocs)
  ensures off(outputDocs) == 0
  loop 0
    invariant 0 <= numDocs <= $idx && len(outputDocs) == (if countDocsOnly then 0 else numDocs)
    invariant off(outputDocs) == 0
    invariant outputDocs == nil || fresh(outputDocs)
    invariant [kept; C06] kept(ranker, options.ScoringCriteria, docs, $idx, numDocs)
    invariant [out; C06] forall k int :: { outputDocs[k] } 0 <= k < len(outputDocs) ==> outDoc(outputDocs[k], ranker, options.ScoringCriteria, docs[$src[k]])
  set at loop 0 $src := if numDocs > iter(numDocs) then $src[iter(numDocs) := iter($idx)] else $src
  set at loop 0 $dst := $dst[iter($idx) := iter(numDocs)]
  for C06 C07 C13

# the window of a list of n documents
macro pageStart(o, n) = if o < 0 then 0 else min(o, n)
macro pageEnd(o, m, n) = if m > 0 then min(pageStart(o, n) + m, n) else n

func maxOutput(options, docsLen) (start, end)
  requires docsLen >= 0
  ensures [window] start == pageStart(options.OutputOffset, docsLen) && end == pageEnd(options.OutputOffset, options.MaxOutputs, docsLen)
  for C06 C07

lemma betterSame(a lmap[int]real, na int, b lmap[int]real, nb int, c lmap[int]real, d lmap[int]real)
  { better(a, na, b, nb), sameTo(a, c, na), sameTo(b, d, nb) }
  requires sameTo(a, c, na) && sameTo(b, d, nb)
  ensures better(c, na, d, nb) ==> better(a, na, b, nb)
  hint forall k int :: { betterAt(c, na, d, nb, k) } betterAt(c, na, d, nb, k) ==> betterAt(a, na, b, nb, k)

macro rowFor(rk, c, d) = scoreRow(c, d, fieldsOf(rk, d.DocId))
macro lenFor(rk, c, d) = scoreLen(c, d, fieldsOf(rk, d.DocId))
macro above(rk, c, x, y) = better(rowFor(rk, c, x), lenFor(rk, c, x), rowFor(rk, c, y), lenFor(rk, c, y))
# place k of the ranked list of all n kept documents
macro ranked(docs, k) = docs[$src[$perm[k]]]
macro bijection(n) = (forall k int :: { $perm[k] } 0 <= k < n ==> 0 <= $perm[k] < n && $perminv[$perm[k]] == k) &&
  (forall k int :: { $perminv[k] } 0 <= k < n ==> 0 <= $perminv[k] < n && $perm[$perminv[k]] == k)
macro inOrder(rk, options, docs, n) = forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < n ==>
  (if options.ReverseOrder then !above(rk, options.ScoringCriteria, ranked(docs, a), ranked(docs, b)) else !above(rk, options.ScoringCriteria, ranked(docs, b), ranked(docs, a)))

func Ranker.RankDocID(ranker, docs, options, countDocsOnly) (page, numDocs)
  requires rankerOk(ranker) && options.ScoringCriteria != nil
  requires [C13] held(ranker.lock) == 0
  modifies global $src, global $dst, global $perm, global $perminv
  ensures numDocs >= 0 && off(page) >= 0
  ensures [kept; C06] kept(ranker, options.ScoringCriteria, docs, len(docs), numDocs)
  ensures [countOnly; C06 C07] countDocsOnly ==> len(page) == 0
  ensures [window; C07] !countDocsOnly ==> len(page) == pageEnd(options.OutputOffset, options.MaxOutputs, numDocs) - pageStart(options.OutputOffset, numDocs)
  ensures [all; C06 C07] !countDocsOnly ==> bijection(numDocs)
  ensures [order; C06] !countDocsOnly ==> inOrder(ranker, options, docs, numDocs)
  ensures [out; C06] !countDocsOnly ==> forall k int :: { page[k] } 0 <= k < len(page) ==> outId(page[k], ranker, options.ScoringCriteria, ranked(docs, pageStart(options.OutputOffset, numDocs) + k))
  hint at exit [perm; C06] !countDocsOnly ==> forall k int :: { outputDocs[k] } { $perm[k] } 0 <= k < numDocs ==> outId(outputDocs[k], ranker, options.ScoringCriteria, ranked(docs, k))
  hint at exit [scores; C06] !countDocsOnly ==> forall k int :: { outputDocs[k] } { $perm[k] } 0 <= k < numDocs ==> sameTo(scoresOf(outputDocs[k].Scores), rowFor(ranker, options.ScoringCriteria, ranked(docs, k)), len(outputDocs[k].Scores)) && len(outputDocs[k].Scores) == lenFor(ranker, options.ScoringCriteria, ranked(docs, k))
  hint at exit [sorted; C06] !countDocsOnly && !options.ReverseOrder ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < numDocs ==> !better(scoresOf(outputDocs[b].Scores), len(outputDocs[b].Scores), scoresOf(outputDocs[a].Scores), len(outputDocs[a].Scores))
  hint at exit [reversed; C06] !countDocsOnly && options.ReverseOrder ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < numDocs ==> !better(scoresOf(outputDocs[a].Scores), len(outputDocs[a].Scores), scoresOf(outputDocs[b].Scores), len(outputDocs[b].Scores))
  for C06 C07 C13

func Ranker.RankDocs(ranker, docs, options, countDocsOnly) (page, numDocs)
  requires rankerOk(ranker) && options.ScoringCriteria != nil
  requires [C13] held(ranker.lock) == 0
  modifies global $src, global $dst, global $perm, global $perminv
  ensures numDocs >= 0 && off(page) >= 0
  ensures [kept; C06] kept(ranker, options.ScoringCriteria, docs, len(docs), numDocs)
  ensures [countOnly; C06 C07] countDocsOnly ==> len(page) == 0
  ensures [window; C07] !countDocsOnly ==> len(page) == pageEnd(options.OutputOffset, options.MaxOutputs, numDocs) - pageStart(options.OutputOffset, numDocs)
  ensures [all; C06 C07] !countDocsOnly ==> bijection(numDocs)
  ensures [order; C06] !countDocsOnly ==> inOrder(ranker, options, docs, numDocs)
  ensures [out; C06] !countDocsOnly ==> forall k int :: { page[k] } 0 <= k < len(page) ==> outDoc(page[k], ranker, options.ScoringCriteria, ranked(docs, pageStart(options.OutputOffset, numDocs) + k))
  hint at exit [perm; C06] !countDocsOnly ==> forall k int :: { outputDocs[k] } { $perm[k] } 0 <= k < numDocs ==> outDoc(outputDocs[k], ranker, options.ScoringCriteria, ranked(docs, k))
  hint at exit [scores; C06] !countDocsOnly ==> forall k int :: { outputDocs[k] } { $perm[k] } 0 <= k < numDocs ==> sameTo(scoresOf(outputDocs[k].Scores), rowFor(ranker, options.ScoringCriteria, ranked(docs, k)), len(outputDocs[k].Scores)) && len(outputDocs[k].Scores) == lenFor(ranker, options.ScoringCriteria, ranked(docs, k))
  hint at exit [sorted; C06] !countDocsOnly && !options.ReverseOrder ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < numDocs ==> !better(scoresOf(outputDocs[b].Scores), len(outputDocs[b].Scores), scoresOf(outputDocs[a].Scores), len(outputDocs[a].Scores))
  hint at exit [reversed; C06] !countDocsOnly && options.ReverseOrder ==> forall a int, b int :: { $perm[a], $perm[b] } 0 <= a < b < numDocs ==> !better(scoresOf(outputDocs[a].Scores), len(outputDocs[a].Scores), scoresOf(outputDocs[b].Scores), len(outputDocs[b].Scores))
  for C06 C07 C13

func Ranker.Rank(ranker, docs, options, countDocsOnly) (page, numDocs)
  assumed C08 under C06 C07
  requires rankerOk(ranker) && options.ScoringCriteria != nil
  requires [C13] held(ranker.lock) == 0
  modifies global $src, global $dst, global $perm, global $perminv
  ensures numDocs >= 0
  ensures [kept; C06] kept(ranker, options.ScoringCriteria, docs, len(docs), numDocs)
  ensures [type] if ranker.idOnly then is("types.ScoredIDs", page) else is("types.ScoredDocs", page)
  ensures [countOnly; C06 C07] countDocsOnly ==> (if ranker.idOnly then len(as("types.ScoredIDs", page)) == 0 else len(as("types.ScoredDocs", page)) == 0)
  ensures [window; C07] !countDocsOnly ==> (if ranker.idOnly then len(as("types.ScoredIDs", page)) else len(as("types.ScoredDocs", page))) == pageEnd(options.OutputOffset, options.MaxOutputs, numDocs) - pageStart(options.OutputOffset, numDocs)
  ensures [all; C06 C07] !countDocsOnly ==> bijection(numDocs)
  ensures [order; C06] !countDocsOnly ==> inOrder(ranker, options, docs, numDocs)
  ensures [outIds; C06] !countDocsOnly && ranker.idOnly ==> let p = as("types.ScoredIDs", page) :: forall k int :: { p[k] } 0 <= k < len(p) ==> outId(p[k], ranker, options.ScoringCriteria, ranked(docs, pageStart(options.OutputOffset, numDocs) + k))
  ensures [outDocs; C06] !countDocsOnly && !ranker.idOnly ==> let p = as("types.ScoredDocs", page) :: forall k int :: { p[k] } 0 <= k < len(p) ==> outDoc(p[k], ranker, options.ScoringCriteria, ranked(docs, pageStart(options.OutputOffset, numDocs) + k))
  for C06 C07 C13
