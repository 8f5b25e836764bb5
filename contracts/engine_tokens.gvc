# What documents and queries are indexed and searched under (C09). The word segmenter, the
# pinyin library and the string functions are trusted to return some function of their input.
package riot

function lower(s string) string
# the pieces a text is split into
function pieces(s string, sep string) lmap[int]string
function numPieces(s string, sep string) int
# what the segmenter returns
function segments(s string, mode bool) lmap[int]gse.Segment
function numSegments(s string, mode bool) int
function tokenOf(s gse.Segment) *gse.Token
function textOf(t *gse.Token) string
function startOf(s gse.Segment) int
function words(s string, search bool, hmm bool) lmap[int]string
function numWords(s string, search bool, hmm bool) int
function phrases(s string) lmap[int]string
function numPhrases(s string) int
function syllables(s string) lmap[int]string
function numSyllables(s string) int

# texts and lists are far shorter than what the counters hold
macro small(n) = 0 <= n <= 1073741824

func "strings.ToLower"(s) (r)
  trusted "strings.ToLower is a function of its argument"
  ensures r == lower(s)

func "strings.Split"(s, sep) (r)
  trusted "strings.Split returns a new list, a function of its arguments"
  ensures fresh(r) && len(r) == numPieces(s, sep) && small(len(r))
  ensures forall i int :: { r[i] } 0 <= i < len(r) ==> r[i] == pieces(s, sep)[i]

func "github.com/go-ego/gse.Segmenter.ModeSegment"(seg, b, mode) (r)
  trusted "the segmenter: a list of segments that is a function of the text and the mode, in the order of their starts"
  ensures len(mode) == 1 ==> len(r) == numSegments(str(b), mode[0])
  ensures fresh(r) && small(len(r)) && (len(mode) == 1 ==> forall i int :: { r[i] } 0 <= i < len(r) ==> r[i] == segments(str(b), mode[0])[i])
  ensures forall i int, j int :: { r[i], r[j] } 0 <= i <= j < len(r) ==> startOf(r[i]) <= startOf(r[j])

func "github.com/go-ego/gse.Segment.Token"(s) (t)
  trusted "the token of a segment does not change"
  ensures t == tokenOf(deref(s))

func "github.com/go-ego/gse.Segment.Start"(s) (n)
  trusted "the start of a segment does not change"
  ensures n == startOf(deref(s))

func "github.com/go-ego/gse.Token.Text"(t) (s)
  trusted "the text of a token does not change"
  ensures s == textOf(t)

func "github.com/go-ego/gse.Segmenter.Cut"(seg, s, hmm) (r)
  trusted "the segmenter: a list of words that is a function of the text and the mode"
  ensures fresh(r) && small(len(r)) && (len(hmm) == 1 ==> len(r) == numWords(s, false, hmm[0]) && forall i int :: { r[i] } 0 <= i < len(r) ==> r[i] == words(s, false, hmm[0])[i])

func "github.com/go-ego/gse.Segmenter.CutSearch"(seg, s, hmm) (r)
  trusted "the segmenter: a list of words that is a function of the text and the mode"
  ensures fresh(r) && small(len(r)) && (len(hmm) == 1 ==> len(r) == numWords(s, true, hmm[0]) && forall i int :: { r[i] } 0 <= i < len(r) ==> r[i] == words(s, true, hmm[0])[i])

macro isStop(e, k) = k in e.stopTokens.stopTokens

func StopTokens.IsStopToken(st, token) (found)
  inline

# the words among the first n that are not stop words, in order
function unstopped(stop map[string]bool, ws lmap[int]string, n int) int =
  if n <= 0 then 0 else unstopped(stop, ws, n - 1) + (if ws[n-1] in stop then 0 else 1)

func Engine.Segment(engine, content) (keywords)
  ensures [own; C09] keywords == nil || fresh(keywords)
  ensures len(keywords) <= 1073741824
  ensures [words; C09] let ws = words(content, engine.initOptions.GseMode, engine.initOptions.Hmm) :: let n = numWords(content, engine.initOptions.GseMode, engine.initOptions.Hmm) ::
    len(keywords) == unstopped(engine.stopTokens.stopTokens, ws, n) &&
    (forall i int :: { ws[i] } 0 <= i < n && !(ws[i] in engine.stopTokens.stopTokens) ==> 0 <= unstopped(engine.stopTokens.stopTokens, ws, i) < len(keywords) && keywords[unstopped(engine.stopTokens.stopTokens, ws, i)] == ws[i])
  ensures [only; C09] forall k string :: { inL(keywords, k) } inL(keywords, k) <==> !stopped(engine, k) && wordKey(words(content, engine.initOptions.GseMode, engine.initOptions.Hmm), numWords(content, engine.initOptions.GseMode, engine.initOptions.Hmm), k)
  loop 0
    invariant [only; C09] forall k string :: { inL(keywords, k) } inL(keywords, k) <==> !stopped(engine, k) && wordKey(words(content, engine.initOptions.GseMode, engine.initOptions.Hmm), $idx, k)
    invariant [own; C09] (keywords == nil || fresh(keywords)) && arr(keywords) != arr(segments)
    invariant len(keywords) <= $idx
    invariant [seg; C09] len(segments) == numWords(content, engine.initOptions.GseMode, engine.initOptions.Hmm) && (forall i int :: { segments[i] } 0 <= i < len(segments) ==> segments[i] == words(content, engine.initOptions.GseMode, engine.initOptions.Hmm)[i])
    invariant [words; C09] let ws = words(content, engine.initOptions.GseMode, engine.initOptions.Hmm) :: 
      len(keywords) == unstopped(engine.stopTokens.stopTokens, ws, $idx) &&
      (forall i int :: { ws[i] } 0 <= i < $idx && !(ws[i] in engine.stopTokens.stopTokens) ==> 0 <= unstopped(engine.stopTokens.stopTokens, ws, i) < len(keywords) && keywords[unstopped(engine.stopTokens.stopTokens, ws, i)] == ws[i])
  for C09

ghost var $split []string

# the pieces among the first n that are not empty, in order
function filled(ws lmap[int]string, n int) int =
  if n <= 0 then 0 else filled(ws, n - 1) + (if ws[n-1] == "" then 0 else 1)

macro splitPart(t, ws, n) = forall i int :: { ws[i] } 0 <= i < n && ws[i] != "" ==> 0 <= filled(ws, i) < len(t) && t[filled(ws, i)] == ws[i]
macro wordPart(e, t, ws, n) = forall i int :: { ws[i] } 0 <= i < n && !(ws[i] in e.stopTokens.stopTokens) ==> 0 <= unstopped(e.stopTokens.stopTokens, ws, i) < len(t) && t[unstopped(e.stopTokens.stopTokens, ws, i)] == ws[i]
macro spaced(q) = pieces(lower(q.Text), " ")
macro numSpaced(q) = numPieces(lower(q.Text), " ")
macro gsed(e, q) = words(lower(q.Text), e.initOptions.GseMode, e.initOptions.Hmm)
macro numGsed(e, q) = numWords(lower(q.Text), e.initOptions.GseMode, e.initOptions.Hmm)
# how many tokens the text of a query gives
macro fromText(e, q) = if q.Text == "" then 0 else if e.initOptions.NotUseGse then filled(spaced(q), numSpaced(q)) else unstopped(e.stopTokens.stopTokens, gsed(e, q), numGsed(e, q))
macro textTokens(e, q, t) = q.Text != "" ==> if e.initOptions.NotUseGse then splitPart(t, spaced(q), numSpaced(q)) else wordPart(e, t, gsed(e, q), numGsed(e, q))
macro ownTokens(t, q, m, n) = len(t) == m + n && (forall j int :: { q.Tokens[j] } 0 <= j < n ==> t[m + j] == q.Tokens[j])

func Engine.Tokens(engine, request) (tokens)
  assumed C07 C08 under C09
  modifies $split
  ensures len(tokens) >= 0
  ensures [text; C09] textTokens(engine, request, tokens)
  ensures [own; C09] ownTokens(tokens, request, fromText(engine, request), len(request.Tokens))
  set at aftercall Split $split := $r0
  loop 0
    invariant [own; C09] (tokens == nil || fresh(tokens)) && arr(tokens) != arr($split)
    invariant [pieces; C09] len($split) == numSpaced(request) && (forall i int :: { $split[i] } 0 <= i < len($split) ==> $split[i] == spaced(request)[i])
    invariant [text; C09] len(tokens) == filled(spaced(request), $idx) && splitPart(tokens, spaced(request), $idx)
  loop 1
    invariant [own; C09] (tokens == nil || fresh(tokens))
    invariant [text; C09] textTokens(engine, request, tokens)
    invariant [all; C09] ownTokens(tokens, request, fromText(engine, request), $idx)
  loop 2
    invariant [own; C09] (tokens == nil || fresh(tokens))
    invariant [all; C09] ownTokens(tokens, request, 0, $idx)
  for C09

# ---- the keys of a document

# the pieces from lo up to hi, joined
function joined(ss lmap[int]string, lo int, hi int) string = if hi <= lo then "" else joined(ss, lo, hi - 1) + ss[hi-1]
# k is one of the pieces from lo on, joined up to some piece below hi
function runKey(ss lmap[int]string, lo int, hi int, k string) bool = hi > lo && (runKey(ss, lo, hi - 1, k) || k == joined(ss, lo, hi))
# k is one of the first n of l pieces, or the pieces up to there joined; with more, also runs after it
function splitKey(ss lmap[int]string, n int, l int, more bool, k string) bool =
  n > 0 && (splitKey(ss, n - 1, l, more, k) || ss[n-1] != "" && (k == ss[n-1] || k == joined(ss, 0, n) || more && runKey(ss, n, l, k)))
# the pieces handed to ForSplitData
ghost var $ws lmap[int]string

macro stopped(e, k) = k in e.stopTokens.stopTokens
# every key has positions, in order, none above n
macro placesOk(m, n) = forall k string, a int, b int :: { m[k][a], m[k][b] } k in m && 0 <= a <= b < len(m[k]) ==> m[k][a] <= m[k][b] && m[k][b] <= n
macro someP(m) = forall k string :: { m[k] } k in m ==> len(m[k]) >= 1
macro ownP(m) = (forall k string :: { m[k] } k in m ==> fresh(m[k]) && off(m[k]) == 0) && (forall j string, k string :: { m[j], m[k] } j in m && k in m && j != k ==> arr(m[j]) != arr(m[k]))

func Engine.ForSplitData(engine, strData, num) (m, n)
  requires 0 <= num <= len(strData) && small(len(strData))
  requires [pieces; C09] forall i int :: { strData[i] } 0 <= i < len(strData) ==> strData[i] == $ws[i]
  ensures fresh(m) && 0 <= n <= 2305843009213693952
  ensures [keys; C09] forall k string :: { k in m } k in m <==> !stopped(engine, k) && splitKey($ws, num, len(strData), engine.initOptions.Using == 6, k)
  ensures [positions; C09] someP(m) && placesOk(m, n) && ownP(m)
  loop 0
    invariant fresh(tokensMap) && tokensMap != nil && 0 <= i <= num && 0 <= numTokens <= i * 2147483648 && splitStr == joined($ws, 0, i)
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> !stopped(engine, k) && splitKey($ws, i, len(strData), engine.initOptions.Using == 6, k)
    invariant [positions; C09] someP(tokensMap) && placesOk(tokensMap, numTokens) && ownP(tokensMap)
  loop 1
    invariant fresh(tokensMap) && tokensMap != nil && i < s && s <= len(strData) && before(numTokens) <= numTokens <= before(numTokens) + s - i && splitsStr == joined($ws, i + 1, s)
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || !stopped(engine, k) && runKey($ws, i + 1, s, k)
    invariant [positions; C09] someP(tokensMap) && placesOk(tokensMap, numTokens) && ownP(tokensMap)
  for C09

# k is one of the first n segments
function segKey(ws lmap[int]gse.Segment, n int, k string) bool = n > 0 && (segKey(ws, n - 1, k) || k == textOf(tokenOf(ws[n-1])))
# where k comes last among the texts of the first n tokens, -1 if nowhere
function lastAt(ts []types.TokenData, n int, k string) int = if n <= 0 then -1 else if ts[n-1].Text == k then n - 1 else lastAt(ts, n - 1, k)

macro usingOf(e) = e.initOptions.Using
# what the modes take from the content
macro gseKey(e, s, k) = segKey(segments(s, e.initOptions.GseMode), numSegments(s, e.initOptions.GseMode), k)
macro more(e) = usingOf(e) == 6
macro splitAll(e, s, sep, k) = splitKey(pieces(s, sep), numPieces(s, sep), numPieces(s, sep), more(e), k)
macro spacedKey(e, s, k) = splitAll(e, lower(s), " ", k)
macro letterKey(e, s, k) = splitAll(e, lower(s), "", k)
macro contentKey(e, s, k) = s != "" &&
  (if usingOf(e) == 4 || usingOf(e) == 0 && e.initOptions.NotUseGse then spacedKey(e, s, k)
   else if usingOf(e) == 0 || usingOf(e) == 1 then gseKey(e, s, k)
   else if usingOf(e) == 2 then false
   else letterKey(e, s, k) || usingOf(e) == 3 && gseKey(e, lower(s), k))
# mode 1 takes the given tokens only of documents without content
macro usesTokens(e, s) = usingOf(e) != 1 || s == "" 
macro given(e, q) = if usesTokens(e, q.data.Content) then len(q.data.Tokens) else 0

macro keysOf(m, e, q) = forall k string :: { k in m } k in m <==> !stopped(e, k) && (contentKey(e, q.data.Content, k) || lastAt(q.data.Tokens, given(e, q), k) >= 0)
macro givenOf(m, e, q, n) = forall k string :: { m[k] } { lastAt(q.data.Tokens, n, k) } !stopped(e, k) && lastAt(q.data.Tokens, n, k) >= 0 ==> m[k] == q.data.Tokens[lastAt(q.data.Tokens, n, k)].Locations
macro sortedOf(m, q, n) = (forall k string, a int, b int :: { m[k][a], m[k][b] } k in m && lastAt(q.data.Tokens, n, k) < 0 && 0 <= a <= b < len(m[k]) ==> m[k][a] <= m[k][b]) &&
  (forall k string :: { m[k] } k in m && lastAt(q.data.Tokens, n, k) < 0 ==> len(m[k]) >= 1)
# positions so far do not exceed those of the segments from n on
macro segPos(m, ws, n) = forall k string, a int, j int :: { m[k][a], ws[j] } k in m && 0 <= a < len(m[k]) && n <= j < len(ws) ==> m[k][a] <= startOf(ws[j])
macro sortedP(m) = forall k string, a int, b int :: { m[k][a], m[k][b] } k in m && 0 <= a <= b < len(m[k]) ==> m[k][a] <= m[k][b]
macro segsAre(ws, s, e) = len(ws) == numSegments(s, e.initOptions.GseMode) && (forall i int :: { ws[i] } 0 <= i < len(ws) ==> ws[i] == segments(s, e.initOptions.GseMode)[i])
macro segKeys(m, e, s, n) = forall k string :: { k in m } k in m <==> !stopped(e, k) && segKey(segments(s, e.initOptions.GseMode), n, k)

# how often k is the text of the first n segments
function segCount(ws lmap[int]gse.Segment, n int, k string) int = if n <= 0 then 0 else segCount(ws, n - 1, k) + (if textOf(tokenOf(ws[n-1])) == k then 1 else 0)
macro segsOf(e, s) = segments(s, e.initOptions.GseMode)
# the positions of the keys are the starts of the first n segments, but for the keys of given tokens
macro startsAre(m, e, s, n, q, g) = (forall k string :: { m[k] } !stopped(e, k) && lastAt(q.data.Tokens, g, k) < 0 && segCount(segsOf(e, s), n, k) >= 1 ==> k in m && len(m[k]) == segCount(segsOf(e, s), n, k)) &&
  (forall i int :: { segsOf(e, s)[i] } let k = textOf(tokenOf(segsOf(e, s)[i])) :: 0 <= i < n && !stopped(e, k) && lastAt(q.data.Tokens, g, k) < 0 ==> k in m && 0 <= segCount(segsOf(e, s), i, k) < len(m[k]) && m[k][segCount(segsOf(e, s), i, k)] == startOf(segsOf(e, s)[i]))
macro startsSoFar(m, e, s, n) = forall i int :: { segsOf(e, s)[i] } let k = textOf(tokenOf(segsOf(e, s)[i])) :: 0 <= i < n && !stopped(e, k) ==> k in m && 0 <= segCount(segsOf(e, s), i, k) < len(m[k]) && m[k][segCount(segsOf(e, s), i, k)] == startOf(segsOf(e, s)[i])
macro segCounts(m, e, s, n) = forall k string :: { m[k] } { k in m } !stopped(e, k) ==> segCount(segsOf(e, s), n, k) == (if k in m then len(m[k]) else 0)
macro segmented(e, q) = q.data.Content != "" && (usingOf(e) == 1 || usingOf(e) == 0 && !e.initOptions.NotUseGse)
macro exactOf(m, e, q) = segmented(e, q) ==> startsAre(m, e, q.data.Content, numSegments(q.data.Content, e.initOptions.GseMode), q, given(e, q))

func Engine.defaultTokens(engine, content) (tokensMap, numTokens)
  modifies $ws
  ensures fresh(tokensMap) && 0 <= numTokens <= 2305843009213693952
  ensures [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> !stopped(engine, k) && splitAll(engine, content, " ", k)
  ensures [positions; C09] someP(tokensMap) && placesOk(tokensMap, numTokens) && ownP(tokensMap)
  set at aftercall Split $ws := pieces(content, " ")
  loop 0
    invariant fresh(tokensMap) && tokensMap != nil && tokensMap != tokenMap
    invariant dom(tokenMap) == before(dom(tokenMap)) && vals(tokenMap) == before(vals(tokenMap))
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> $visited[k]
    invariant [same; C09] forall k string :: { tokensMap[k] } k in tokensMap ==> k in tokenMap && tokensMap[k] == tokenMap[k]
  for C09
func Engine.splitData(engine, request) (m, n)
  requires small(len(request.data.Tokens)) && usingOf(engine) != 1 && usingOf(engine) != 2 && (usingOf(engine) == 0 ==> request.data.Content == "")
  modifies $ws
  ensures fresh(m) && 0 <= n <= 2305843013508661248
  ensures [keys; C09] keysOf(m, engine, request)
  ensures [given; C09] givenOf(m, engine, request, len(request.data.Tokens))
  ensures [sorted; C09] sortedOf(m, request, len(request.data.Tokens))
  set at aftercall Split $ws := pieces(content, "")
  loop 0
    invariant fresh(tokensMap) && tokensMap != nil && segsAre(segments, content, engine)
    invariant [keys; C09] segKeys(tokensMap, engine, content, $idx)
    invariant [sorted; C09] someP(tokensMap) && ownP(tokensMap) && sortedP(tokensMap) && segPos(tokensMap, segments, $idx)
  loop 1
    invariant fresh(tokensMap) && tokensMap != nil && tokensMap != tokenMap && dom(tokenMap) == before(dom(tokenMap)) && vals(tokenMap) == before(vals(tokenMap))
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> $visited[k] || before(k in tokensMap)
    invariant [same; C09] forall k string :: { tokensMap[k] } tokensMap[k] == (if $visited[k] then tokenMap[k] else before(tokensMap[k]))
    invariant [in; C09] forall k string :: { $visited[k] } $visited[k] ==> k in tokenMap
  loop 2
    invariant fresh(tokensMap) && tokensMap != nil
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || !stopped(engine, k) && lastAt(request.data.Tokens, $idx, k) >= 0
    invariant [given; C09] givenOf(tokensMap, engine, request, $idx)
    invariant [rest; C09] forall k string :: { tokensMap[k] } lastAt(request.data.Tokens, $idx, k) < 0 ==> tokensMap[k] == before(tokensMap[k])
  for C09

func Engine.segmenterData(engine, request) (m, n)
  requires small(len(request.data.Tokens)) && !(usingOf(engine) == 0 && engine.initOptions.NotUseGse)
  modifies $ws
  ensures fresh(m) && 0 <= n <= 2305843013508661248
  ensures [keys; C09] keysOf(m, engine, request)
  ensures [given; C09] givenOf(m, engine, request, given(engine, request))
  ensures [sorted; C09] sortedOf(m, request, given(engine, request))
  ensures [exact; C09] exactOf(m, engine, request)
  loop 0
    invariant fresh(tokensMap) && tokensMap != nil && segsAre(segments, request.data.Content, engine)
    invariant [keys; C09] segKeys(tokensMap, engine, request.data.Content, $idx)
    invariant [sorted; C09] someP(tokensMap) && ownP(tokensMap) && sortedP(tokensMap) && segPos(tokensMap, segments, $idx)
    invariant [counts; C09] segCounts(tokensMap, engine, request.data.Content, $idx)
    invariant [exact; C09] startsSoFar(tokensMap, engine, request.data.Content, $idx)
  loop 1
    invariant fresh(tokensMap) && tokensMap != nil
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || !stopped(engine, k) && lastAt(request.data.Tokens, $idx, k) >= 0
    invariant [given; C09] givenOf(tokensMap, engine, request, $idx)
    invariant [rest; C09] forall k string :: { tokensMap[k] } lastAt(request.data.Tokens, $idx, k) < 0 ==> tokensMap[k] == before(tokensMap[k])
  loop 2
    invariant fresh(tokensMap) && tokensMap != nil && segsAre(segments, request.data.Content, engine)
    invariant [keys; C09] segKeys(tokensMap, engine, request.data.Content, $idx)
    invariant [sorted; C09] someP(tokensMap) && ownP(tokensMap) && sortedP(tokensMap) && segPos(tokensMap, segments, $idx)
    invariant [counts; C09] segCounts(tokensMap, engine, request.data.Content, $idx)
    invariant [exact; C09] startsSoFar(tokensMap, engine, request.data.Content, $idx)
  loop 3
    invariant fresh(tokensMap) && tokensMap != nil
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> !stopped(engine, k) && lastAt(request.data.Tokens, $idx, k) >= 0
    invariant [given; C09] givenOf(tokensMap, engine, request, $idx)
  for C09

# ---- pinyin
func "github.com/go-ego/gpy/phrase.WithGse"(seg)
  trusted "hands the segmenter to the pinyin library"

func "github.com/go-ego/gpy/phrase.Pinyin"(s, segs) (r)
  trusted "the pinyin library: a list of words"
  ensures fresh(r) && small(len(r))

func "github.com/go-ego/gpy.LazyConvert"(s, a) (r)
  trusted "the pinyin library: a list of syllables that is a function of the text"
  ensures fresh(r) && small(len(r)) && len(r) == numSyllables(s)
  ensures forall i int :: { r[i] } 0 <= i < len(r) ==> r[i] == syllables(s)[i]

macro inL(ss, k) = inPrefix(ss, len(ss), k)
function inPrefix(ss []string, n int, k string) bool = exists i int :: { ss[i] } 0 <= i < n && ss[i] == k
function hanKey(ss lmap[int]string, n int, k string) bool = n > 0 && (hanKey(ss, n - 1, k) || k == joined(ss, 0, n) || ss[n-1] != "" && k == ss[n-1])
function initials(ss lmap[int]string, n int) string = if n <= 0 then "" else initials(ss, n - 1) + (if ss[n-1] == "" then "" else ss[n-1][0:1])
function spelled(ss lmap[int]string, n int) string = if n <= 0 then "" else spelled(ss, n - 1) + ss[n-1]
function pyKey(ss lmap[int]string, n int, k string) bool = n > 0 && (pyKey(ss, n - 1, k) || k == spelled(ss, n) || ss[n-1] != "" && k == initials(ss, n))
function wordKey(ws lmap[int]string, n int, k string) bool = n > 0 && (wordKey(ws, n - 1, k) || k == ws[n-1])
macro hansKey(s, k) = hanKey(pieces(s, ""), numPieces(s, ""), k)
macro wordsKey(e, s, k) = wordKey(words(s, e.initOptions.GseMode, e.initOptions.Hmm), numWords(s, e.initOptions.GseMode, e.initOptions.Hmm), k)

func Engine.PinYin(engine, hans) (out)
  ensures [fresh; C09] out == nil || fresh(out)
  ensures len(out) <= 8589934592
  ensures [keys; C09] !engine.initOptions.UsePhrase ==> (forall k string :: { inL(out, k) } inL(out, k) <==> !stopped(engine, k) &&
    (hansKey(hans, k) || !engine.initOptions.NotUseGse && wordsKey(engine, hans, k) || pyKey(syllables(hans), numSyllables(hans), k)))
  loop 0
    invariant 0 <= i <= len(splitHans) && (strArr == nil || fresh(strArr)) && (strArr == nil || arr(strArr) != arr(splitHans)) && splitStr == joined(pieces(hans, ""), 0, i) && len(strArr) <= 2 * i
    invariant [hans; C09] len(splitHans) == numPieces(hans, "") && forall j int :: { splitHans[j] } 0 <= j < len(splitHans) ==> splitHans[j] == pieces(hans, "")[j]
    invariant [keys; C09] forall k string :: { inL(strArr, k) } inL(strArr, k) <==> !stopped(engine, k) && hanKey(pieces(hans, ""), i, k)
  loop 1
    invariant 0 <= h <= len(sehans) && (strArr == nil || fresh(strArr)) && (strArr == nil || arr(strArr) != arr(sehans)) && len(strArr) <= before(len(strArr)) + h
    invariant [words; C09] forall k string :: { inL(sehans, k) } inL(sehans, k) <==> !stopped(engine, k) && wordsKey(engine, hans, k)
    invariant [keys; C09] forall k string :: { inL(strArr, k) } inL(strArr, k) <==> !stopped(engine, k) && (hansKey(hans, k) || inPrefix(sehans, h, k))
  loop 2
    invariant 0 <= i <= len(py) && (strArr == nil || fresh(strArr)) && (strArr == nil || arr(strArr) != arr(py)) && len(strArr) <= before(len(strArr)) + 2 * i
    invariant [py; C09] len(py) == numSyllables(hans) && (forall j int :: { py[j] } 0 <= j < len(py) ==> py[j] == syllables(hans)[j]) && pyStr == spelled(syllables(hans), i) && str == initials(syllables(hans), i)
    invariant [keys; C09] forall k string :: { inL(strArr, k) } inL(strArr, k) <==> before(inL(strArr, k)) || !stopped(engine, k) && pyKey(syllables(hans), i, k)
  for C09

# what the pinyin of the content gives
ghost var $pin lmap[string]bool
macro pinsOk(e, s) = e.initOptions.PinYin && !e.initOptions.UsePhrase ==> forall k string :: { $pin[k] } $pin[k] <==> !stopped(e, k) && (hansKey(s, k) || !e.initOptions.NotUseGse && wordsKey(e, s, k) || pyKey(syllables(s), numSyllables(s), k))
macro docKey(e, q, k) = contentKey(e, q.data.Content, k) || lastAt(q.data.Tokens, given(e, q), k) >= 0 || e.initOptions.PinYin && $pin[k]

func Engine.makeTokensMap(engine, request) (tokensMap, numTokens)
  assumed C08 under C09
  requires [sizes; C09] small(len(request.data.Tokens))
  modifies $ws, $pin
  ensures fresh(tokensMap) && numTokens >= 0
  ensures [pins; C09] pinsOk(engine, request.data.Content)
  ensures [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> !stopped(engine, k) && docKey(engine, request, k)
  ensures [given; C09] givenOf(tokensMap, engine, request, given(engine, request))
  ensures [sorted; C09] sortedOf(tokensMap, request, given(engine, request))
  ensures [exact; C09] exactOf(tokensMap, engine, request)
  set at aftercall PinYin $pin := mapof k string :: inL($r0, k)
  loop 0
    invariant fresh(tokensMap) && tokensMap != nil
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || !stopped(engine, k) && lastAt(request.data.Tokens, $idx, k) >= 0
    invariant [given; C09] givenOf(tokensMap, engine, request, $idx)
    invariant [rest; C09] forall k string :: { tokensMap[k] } lastAt(request.data.Tokens, $idx, k) < 0 ==> tokensMap[k] == before(tokensMap[k])
  loop 1
    invariant fresh(tokensMap) && tokensMap != nil && 0 <= i <= count
    invariant [list; C09] forall k string :: { $pin[k] } $pin[k] <==> inL(strArr, k)
    invariant [keys; C09] forall k string :: { k in tokensMap } k in tokensMap <==> before(k in tokensMap) || !stopped(engine, k) && inPrefix(strArr, i, k)
    invariant [kept; C09] forall k string :: { tokensMap[k] } before(k in tokensMap) ==> tokensMap[k] == before(tokensMap[k])
    invariant [new; C09] forall k string :: { tokensMap[k] } k in tokensMap && !before(k in tokensMap) ==> len(tokensMap[k]) == 1
    invariant [order; C09] sortedOf(tokensMap, request, given(engine, request))
    invariant [exact; C09] exactOf(tokensMap, engine, request)
  for C09

# ---- the stop words: the lines of the file
ghost var $lines lmap[string]bool
ghost var $moreLines bool


func StopTokens.Init(st, stopTokenFile)
  fatal "a stop word file that cannot be opened ends the program"
  modifies st.stopTokens, $lines, $moreLines
  ensures st.stopTokens != nil && fresh(st.stopTokens)
  ensures [lines; C09] forall k string :: { k in st.stopTokens } k in st.stopTokens <==> stopTokenFile != "" && k != "" && $lines[k]
  ensures [all; C09] stopTokenFile != "" ==> !$moreLines
  set at entry $lines := emptyset("string")
  set at aftercall Scan $moreLines := $r0
  set at aftercall Text $lines := $lines[$r0 := true]
  loop 0
    invariant st.stopTokens != nil && fresh(st.stopTokens)
    invariant [lines; C09] forall k string :: { k in st.stopTokens } k in st.stopTokens <==> k != "" && $lines[k]
  for C09

func "bufio.Scanner.Scan"(s) (more)
  trusted "whether there is one more line"

func "bufio.Scanner.Text"(s) (line)
  trusted "the line that Scan moved to"
