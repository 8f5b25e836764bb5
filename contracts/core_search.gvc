# Search over the inverted index: binary search, AND lookup, logic lookup.
package core

macro sortedRow(d) = forall i int, j int :: 0 <= i < j < len(d) ==> d[i] < d[j]

# membership of a document in a postings row
# d is among r[lo:hi]
function inR(r lmap[int]string, lo int, hi int, d string) bool = exists k int :: lo <= k < hi && r[k] == d
macro inRow(d, x) = inR(row(d), off(d), off(d) + len(d), x)

# no row of t and no list of keys is the remove cache, which is private to the indexer
macro rowsApart(ix, t) = forall i int :: 0 <= i < len(t) ==> arr(t[i].docIds) != arr(ix.removeCacheLock.removeCache)
macro keysApart(ix, keys) = arr(keys) != arr(ix.removeCacheLock.removeCache) || len(keys) == 0

func Indexer.getDocId(indexer, ti, i) (id)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] arr(ti.docIds) != arr(indexer.removeCacheLock.removeCache)
  requires ti != nil && 0 <= i < len(ti.docIds)
  pure ti.docIds[i]
  for C01 C02 C03 C04 C13

func Indexer.getIndexLen(indexer, ti) (n)
  requires [C13] held(indexer.tableLock) >= 1
  requires ti != nil
  pure len(ti.docIds)
  for C01 C02 C03 C13

func Indexer.searchIndex(indexer, indices, start, end, docId) (pos, found)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] arr(indices.docIds) != arr(indexer.removeCacheLock.removeCache)
  requires indices != nil
  requires 0 <= start <= end + 1
  requires end < len(indices.docIds)
  requires start == end + 1 ==> start == len(indices.docIds)
  requires sortedRow(indices.docIds)
  ensures [hit] found ==> start <= pos <= end && indices.docIds[pos] == docId
  ensures [miss] !found ==> start <= pos <= end + 1 && (forall k int :: start <= k < pos ==> indices.docIds[k] < docId) && (forall k int :: pos <= k <= end ==> docId < indices.docIds[k])
  loop 0
    invariant [range] old(start) <= start < end <= old(end)
    invariant indices.docIds[start] < docId && docId < indices.docIds[end]
    decreases end - start
  for C01 C02 C03 C13

func Indexer.findInMustTable(indexer, table, docId) (r)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] rowsApart(indexer, table)
  requires forall i int :: 0 <= i < len(table) ==> table[i] != nil && len(table[i].docIds) > 0 && sortedRow(table[i].docIds)
  ensures [must; C02] r <==> (forall i int :: 0 <= i < len(table) ==> inRow(table[i].docIds, docId))
  loop 0
    invariant 0 <= i <= len(table)
    invariant forall j int :: 0 <= j < i ==> inRow(table[j].docIds, docId)
    decreases len(table) - i
  for C02 C13

func Indexer.findInShouldTable(indexer, table, docId) (r)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] rowsApart(indexer, table)
  requires forall i int :: 0 <= i < len(table) ==> table[i] != nil && len(table[i].docIds) > 0 && sortedRow(table[i].docIds)
  ensures [should; C02] r <==> (len(table) == 0 || (exists i int :: 0 <= i < len(table) && inRow(table[i].docIds, docId)))
  loop 0
    invariant 0 <= i <= len(table)
    invariant forall j int :: 0 <= j < i ==> !inRow(table[j].docIds, docId)
    decreases len(table) - i
  for C02 C13

func Indexer.findInNotInTable(indexer, table, docId) (r)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] rowsApart(indexer, table)
  requires forall i int :: 0 <= i < len(table) ==> table[i] != nil && len(table[i].docIds) > 0 && sortedRow(table[i].docIds)
  ensures [notin; C02] r <==> (exists i int :: 0 <= i < len(table) && inRow(table[i].docIds, docId))
  loop 0
    invariant 0 <= i <= len(table)
    invariant forall j int :: 0 <= j < i ==> !inRow(table[j].docIds, docId)
    decreases len(table) - i
  for C02 C13

func logicKeys(on, keys, queryKeys) (r)
  ensures [keys; C02 C13] r == (if len(keys) > 0 then keys else if on then queryKeys else nil)
  for C02 C13

func "math.Log2"(x) (r)
  trusted "math.Log2 is a function of its argument"
  ensures r == log2(x)

function log2(x real) real

# ---- the index seen through its data structure

ghost core.Indexer.$found lmap[string]bool

macro rows(ix) = ix.tableLock.table
macro contains(ix, k, d) = k in rows(ix) && inRow(rows(ix)[k].docIds, d)
macro live(ix, d) = d in ix.tableLock.docsState && ix.tableLock.docsState[d] == 0
macro passes(filter, d) = filter == nil || d in filter

# positions and token lengths stay below 1 GB, so that sums fit a machine word
# shift(r, o)[k] is r[o + k]
function shift(r lmap[int]int, o int) lmap[int]int
axiom shiftAt(r lmap[int]int, o int, k int)
  { shift(r, o)[k] }
  ensures shift(r, o)[k] == r[o + k]
function isPos(ls lmap[int]int, n int, k int) bool = 0 <= k < n
function sortedL(ls lmap[int]int, n int) bool = forall a int, b int :: { isPos(ls, n, a), isPos(ls, n, b) } isPos(ls, n, a) && isPos(ls, n, b) && a <= b ==> ls[a] <= ls[b]
function within(ls lmap[int]int, n int, lo int, hi int) bool = forall k int :: { ls[k] } 0 <= k < n ==> lo <= ls[k] <= hi
macro posOk(l) = sortedL(shift(row(l), off(l)), len(l)) && within(shift(row(l), off(l)), len(l), 0, 1073741823)

macro rowOk(ix, r) = r != nil && len(r.docIds) > 0 && sortedRow(r.docIds) &&
  (ix.initOptions.IndexType == types.LocsIndex ==> len(r.locations) == len(r.docIds) && (forall p int :: 0 <= p < len(r.locations) ==> posOk(r.locations[p]))) &&
  (ix.initOptions.IndexType == types.FrequenciesIndex ==> len(r.frequencies) == len(r.docIds))

macro rowsOk(ix) = rows(ix) != nil && ix.tableLock.docsState != nil &&
  (forall k string :: k in rows(ix) ==> rowOk(ix, rows(ix)[k]))

macro matchAll(ix, keys, filter, d) = len(keys) > 0 && live(ix, d) && passes(filter, d) &&
  (forall i int :: 0 <= i < len(keys) ==> contains(ix, keys[i], d))

# the documents returned are those of $found, once each
macro listed(ix, docs, n, countOnly) = n == card(ix.$found) &&
  (countOnly ==> len(docs) == 0) &&
  (!countOnly ==> len(docs) == n &&
    (forall i int :: 0 <= i < len(docs) ==> docs[i].DocId in ix.$found) &&
    (forall i int, j int :: 0 <= i < j < len(docs) ==> docs[i].DocId != docs[j].DocId) &&
    (forall d string :: d in ix.$found ==> (exists i int :: 0 <= i < len(docs) && docs[i].DocId == d)))

# ---- token proximity

macro locs(table, ptrs, i) = table[i].locations[ptrs[i]]

function proxCost(tokens []string, p lmap[int]int, n int) int =
  if n <= 1 then 0 else proxCost(tokens, p, n - 1) + abs(p[n-1] - p[n-2] - len(tokens[n-2]))

lemma proxPositive(tokens []string, p lmap[int]int, n int)
  { proxCost(tokens, p, n) }
  ensures proxCost(tokens, p, n) >= 0
  induction n

# p picks one position of every token
macro picks(table, ptrs, p, n) = forall i int :: { p[i] } 0 <= i < n ==> pickIn(shift(row(locs(table, ptrs, i)), off(locs(table, ptrs, i))), len(locs(table, ptrs, i)), p[i])

# $L[m][k]: position k of token m; $N[m]: number of its positions
ghost var $L lmap[int]lmap[int]int
ghost var $N lmap[int]int
# $val[m][k]: minimal cost of the first m+1 tokens ending in position k of token m, -1: not reached
ghost var $val lmap[int]lmap[int]int
# $chain[m]: cost of the chosen path up to token m
ghost var $chain lmap[int]int

function link(tokens []string, p lmap[int]int, v lmap[int]int, m int) bool = v[m] == v[m-1] + abs(p[m] - p[m-1] - len(tokens[m-1]))
function chained(tokens []string, p lmap[int]int, v lmap[int]int, n int) bool =
  v[0] == 0 && (forall m int :: { link(tokens, p, v, m) } 1 <= m < n ==> link(tokens, p, v, m))

lemma chainCost(tokens []string, p lmap[int]int, v lmap[int]int, n int)
  { chained(tokens, p, v, n) }
  requires n >= 1
  requires chained(tokens, p, v, n)
  ensures proxCost(tokens, p, n) == v[n-1]
  induction n
  hint n > 1 ==> link(tokens, p, v, n - 1)
  hint n > 1 ==> chained(tokens, p, v, n - 1)

function pickIn(ls lmap[int]int, n int, x int) bool = exists k int :: { isPos(ls, n, k) } { ls[k] } isPos(ls, n, k) && ls[k] == x
function pickL(L lmap[int]lmap[int]int, N lmap[int]int, p lmap[int]int, n int) bool = forall i int :: { p[i] } { L[i] } 0 <= i < n ==> pickIn(L[i], N[i], p[i])
function reached(vs lmap[int]int, n int) bool = exists k int :: { vs[k] } 0 <= k < n && vs[k] != -1

# every reached value of a token comes from a reached value of the token before
function stepAt(Lp lmap[int]int, Ln lmap[int]int, np int, nn int, vp lmap[int]int, vn lmap[int]int, pt lmap[int]int, l int) bool =
  forall q int :: { vn[q] } { pt[q] } 0 <= q < nn && vn[q] != -1 ==> 0 <= pt[q] < np && vp[pt[q]] != -1 && vn[q] == vp[pt[q]] + abs(Ln[q] - Lp[pt[q]] - l)

# what can be reached from position k of the token before is not beaten
function cov(Lp lmap[int]int, Ln lmap[int]int, nn int, vp lmap[int]int, vn lmap[int]int, l int, k int) bool =
  forall q int :: { isPos(Ln, nn, q) } isPos(Ln, nn, q) ==> (exists to int :: { vn[to] } 0 <= to < nn && vn[to] != -1 && vn[to] + abs(Ln[to] - Ln[q]) <= vp[k] + abs(Ln[q] - Lp[k] - l))
function covers(Lp lmap[int]int, Ln lmap[int]int, n int, nn int, vp lmap[int]int, vn lmap[int]int, l int) bool =
  forall k int :: { vp[k] } 0 <= k < n && vp[k] != -1 ==> cov(Lp, Ln, nn, vp, vn, l, k)

function lowered(vn lmap[int]int, vm lmap[int]int, nn int) bool = forall to int :: { vm[to] } { vn[to] } 0 <= to < nn && vn[to] != -1 ==> vm[to] != -1 && vm[to] <= vn[to]

lemma covLowered(Lp lmap[int]int, Ln lmap[int]int, nn int, vp lmap[int]int, vn lmap[int]int, vm lmap[int]int, l int, k int)
  { cov(Lp, Ln, nn, vp, vn, l, k), lowered(vn, vm, nn) }
  requires cov(Lp, Ln, nn, vp, vn, l, k)
  requires lowered(vn, vm, nn)
  ensures cov(Lp, Ln, nn, vp, vm, l, k)

# the two positions around the end of the token before were both tried
function tried(Lp lmap[int]int, Ln lmap[int]int, nn int, vp lmap[int]int, vn lmap[int]int, l int, k int, j int) bool =
  isPos(Ln, nn, j) && (j + 1 < nn ==> isPos(Ln, nn, j + 1)) && (j == 0 || Ln[j] < Lp[k] + l) && (j + 1 < nn ==> Ln[j+1] >= Lp[k] + l) &&
  vn[j] != -1 && vn[j] <= vp[k] + abs(Ln[j] - Lp[k] - l) &&
  (j + 1 < nn ==> vn[j+1] != -1 && vn[j+1] <= vp[k] + abs(Ln[j+1] - Lp[k] - l))

lemma covTried(Lp lmap[int]int, Ln lmap[int]int, nn int, vp lmap[int]int, vn lmap[int]int, l int, k int, j int)
  { tried(Lp, Ln, nn, vp, vn, l, k, j) }
  requires tried(Lp, Ln, nn, vp, vn, l, k, j)
  requires sortedL(Ln, nn)
  ensures cov(Lp, Ln, nn, vp, vn, l, k)

# some reached value of token n-1 is not worse than the path p
function minAt(tokens []string, ls lmap[int]int, nn int, vs lmap[int]int, p lmap[int]int, n int) bool =
  exists k int :: { vs[k] } { ls[k] } 0 <= k < nn && vs[k] != -1 && vs[k] + abs(ls[k] - p[n-1]) <= proxCost(tokens, p, n)

lemma minStep(tokens []string, Lp lmap[int]int, Ln lmap[int]int, np int, nn int, vp lmap[int]int, vn lmap[int]int, p lmap[int]int, n int)
  { minAt(tokens, Lp, np, vp, p, n), covers(Lp, Ln, np, nn, vp, vn, len(tokens[n-1])) }
  requires n >= 1
  requires minAt(tokens, Lp, np, vp, p, n)
  requires covers(Lp, Ln, np, nn, vp, vn, len(tokens[n-1]))
  requires pickIn(Ln, nn, p[n])
  ensures minAt(tokens, Ln, nn, vn, p, n + 1)
  hint proxCost(tokens, p, n + 1) == proxCost(tokens, p, n) + abs(p[n] - p[n-1] - len(tokens[n-1]))
  hint exists k int, q int :: { vp[k], isPos(Ln, nn, q) } 0 <= k < np && vp[k] != -1 && vp[k] + abs(Lp[k] - p[n-1]) <= proxCost(tokens, p, n) && cov(Lp, Ln, nn, vp, vn, len(tokens[n-1]), k) && isPos(Ln, nn, q) && Ln[q] == p[n]
  hint exists k int, q int, to int :: { vp[k], isPos(Ln, nn, q), vn[to] } vp[k] + abs(Lp[k] - p[n-1]) <= proxCost(tokens, p, n) && isPos(Ln, nn, q) && Ln[q] == p[n] && 0 <= to < nn && vn[to] != -1 && vn[to] + abs(Ln[to] - Ln[q]) <= vp[k] + abs(Ln[q] - Lp[k] - len(tokens[n-1]))

# snip picks one position of each of the n tokens, at the least cost
function proxOk(tokens []string, L lmap[int]lmap[int]int, N lmap[int]int, n int, snip lmap[int]int) bool = pickL(L, N, snip, n) &&
  (forall p lmap[int]int :: { proxCost(tokens, p, n) } { pickL(L, N, p, n) } pickL(L, N, p, n) ==> proxCost(tokens, snip, n) <= proxCost(tokens, p, n))
function sameL(L lmap[int]lmap[int]int, N lmap[int]int, M lmap[int]lmap[int]int, O lmap[int]int, n int) bool = forall j int :: { L[j] } { M[j] } { N[j] } { O[j] } 0 <= j < n ==> L[j] == M[j] && N[j] == O[j]
lemma samePicks(L lmap[int]lmap[int]int, N lmap[int]int, M lmap[int]lmap[int]int, O lmap[int]int, p lmap[int]int, n int)
  { sameL(L, N, M, O, n), pickL(L, N, p, n) }
  { sameL(L, N, M, O, n), pickL(M, O, p, n) }
  requires sameL(L, N, M, O, n)
  ensures pickL(L, N, p, n) <==> pickL(M, O, p, n)
lemma sameProx(tokens []string, L lmap[int]lmap[int]int, N lmap[int]int, M lmap[int]lmap[int]int, O lmap[int]int, n int, snip lmap[int]int)
  { sameL(L, N, M, O, n), proxOk(tokens, L, N, n, snip) }
  requires sameL(L, N, M, O, n)
  requires proxOk(tokens, L, N, n, snip)
  ensures proxOk(tokens, M, O, n, snip)

func computeTokenProximity(table, indexPointers, tokens) (minTokenProximity, TokenLocs)
  requires 1 <= len(tokens) && len(tokens) < 1073741824 && len(table) == len(tokens) && len(indexPointers) >= len(tokens)
  requires forall i int :: 0 <= i < len(tokens) ==> len(tokens[i]) < 1073741824
  requires forall i int :: 0 <= i < len(tokens) ==> table[i] != nil && 0 <= indexPointers[i] < len(table[i].locations) && len(locs(table, indexPointers, i)) > 0
  requires forall i int :: 0 <= i < len(tokens) ==> posOk(locs(table, indexPointers, i))
  modifies global $val, global $chain, global $L, global $N
  hint at entry [alloc] forall i int :: 0 <= i < len(tokens) ==> arr(locs(table, indexPointers, i)) < next()
  set at entry $L := mapof m int :: shift(row(locs(table, indexPointers, m)), off(locs(table, indexPointers, m)))
  set at entry $N := mapof m int :: len(locs(table, indexPointers, m))
  set at entry $val := $val[0 := constmap("int", 0)]
  hint at entry [sorted; C05] forall m int :: { $L[m] } 0 <= m < len(tokens) ==> sortedL($L[m], $N[m])
  hint at entry [within] forall m int :: { $L[m] } 0 <= m < len(tokens) ==> within($L[m], $N[m], 0, 1073741823)
  hint at entry [some] forall m int :: { $N[m] } 0 <= m < len(tokens) ==> $N[m] >= 1
  ensures [fresh] len(TokenLocs) == len(tokens) && off(TokenLocs) == 0 && fresh(TokenLocs)
  ensures [picks; C05; by eq eqn pick] picks(table, indexPointers, row(TokenLocs), len(tokens))
  ensures [realised; C05] proxCost(tokens, row(TokenLocs), len(tokens)) == minTokenProximity
  ensures [best; C05] proxOk(tokens, $L, $N, len(tokens), row(TokenLocs))
  ensures [lists; C05; by eq] forall m int :: { $L[m] } 0 <= m < len(tokens) ==> $L[m] == shift(row(locs(table, indexPointers, m)), off(locs(table, indexPointers, m)))
  ensures [lens; C05; by eqn] forall m int :: { $N[m] } 0 <= m < len(tokens) ==> $N[m] == len(locs(table, indexPointers, m))
  ensures [minimal; C05] forall p lmap[int]int :: picks(table, indexPointers, p, len(tokens)) ==> minTokenProximity <= proxCost(tokens, p, len(tokens))
  loop 0
    invariant 1 <= i <= max(1, len(path)) && len(path) == len(tokens) && off(path) == 0 && fresh(path)
    invariant [frame] forall r ref :: r < old(next()) ==> rowof("int", r) == old(rowof("int", r))
    invariant [frame2] forall r ref :: r < old(next()) ==> rowof("[]int", r) == old(rowof("[]int", r))
    invariant forall j int :: { path[j] } 1 <= j < i ==> len(path[j]) == $N[j] && off(path[j]) == 0 && fresh(path[j]) && arr(path[j]) != arr(TokenLocs)
    invariant [zero] forall m int :: { path[m] } 1 <= m < i ==> within(row(path[m]), $N[m], 0, 0)
    invariant [apart] forall a int, b int :: { path[a], path[b] } 1 <= a < b < i ==> arr(path[a]) != arr(path[b])
    decreases len(path) - i
  loop 1
    invariant 1 <= i <= len(tokens) && len(currentLocations) == $N[i-1] && len(currentMinValues) == $N[i-1]
    invariant [frame] forall r ref :: r < old(next()) ==> rowof("int", r) == old(rowof("int", r))
    invariant allocated(currentLocations) && arr(currentLocations) < old(next())
    invariant [shift; C05] shift(row(currentLocations), off(currentLocations)) == $L[i-1]
    invariant forall k int :: { currentLocations[k] } 0 <= k < len(currentLocations) ==> currentLocations[k] == $L[i-1][k]
    invariant off(currentMinValues) == 0 && fresh(currentMinValues)
    invariant forall j int :: { path[j] } 1 <= j < len(path) ==> arr(path[j]) != arr(currentMinValues)
    invariant forall k int :: { currentMinValues[k] } { $val[i-1][k] } 0 <= k < len(currentMinValues) ==> currentMinValues[k] == $val[i-1][k]
    invariant [range] within($val[i-1], $N[i-1], -1, (i - 1) * 4294967296)
    invariant [some] reached($val[i-1], $N[i-1])
    invariant $val[0] == constmap("int", 0)
    invariant [pathRange] forall m int :: { path[m] } 1 <= m < len(path) ==> within(row(path[m]), $N[m], 0, $N[m-1] - 1)
    invariant [path; C05] forall m int :: { path[m] } 1 <= m < i ==> stepAt($L[m-1], $L[m], $N[m-1], $N[m], $val[m-1], $val[m], row(path[m]), len(tokens[m-1]))
    invariant [min; C05; by post] forall p lmap[int]int :: { proxCost(tokens, p, i) } { pickL($L, $N, p, i) } pickL($L, $N, p, i) ==> minAt(tokens, $L[i-1], $N[i-1], $val[i-1], p, i)
    decreases len(tokens) - i
    hint [cov; C05] let j = iter(i) :: covers($L[j-1], $L[j], $N[j-1], $N[j], $val[j-1], $val[j], len(tokens[j-1]))
    hint [pre; C05; by min] let j = iter(i) :: forall p lmap[int]int :: { pickL($L, $N, p, j + 1) } pickL($L, $N, p, j + 1) ==> minAt(tokens, $L[j-1], $N[j-1], $val[j-1], p, j) && pickIn($L[j], $N[j], p[j])
    hint [post; C05; by pre cov] let j = iter(i) :: forall p lmap[int]int :: { pickL($L, $N, p, j + 1) } { proxCost(tokens, p, j + 1) } pickL($L, $N, p, j + 1) ==> minAt(tokens, $L[j], $N[j], $val[j], p, j + 1)
  set at loop 1 $val := $val[iter(i) := row(currentMinValues)]
  loop 2
    invariant forall j int :: 0 <= j < $idx ==> nextMinValues[j] == -1
    invariant forall r ref :: r != arr(nextMinValues) && r < before(next()) ==> rowof("int", r) == before(rowof("int", r))
  loop 3
    invariant 0 <= iNext < $N[i]
    invariant forall k int :: { nextLocations[k] } 0 <= k < len(nextLocations) ==> nextLocations[k] == $L[i][k]
    invariant [curVal] forall k int :: { currentMinValues[k] } 0 <= k < $N[i-1] ==> -1 <= currentMinValues[k] <= (i - 1) * 4294967296 && (currentMinValues[k] == -1 <==> $val[i-1][k] == -1)
    invariant [curLoc] forall k int :: { currentLocations[k] } 0 <= k < $N[i-1] ==> 0 <= currentLocations[k] <= 1073741823
    invariant [nextLoc] forall k int :: { nextLocations[k] } 0 <= k < $N[i] ==> 0 <= nextLocations[k] <= 1073741823
    invariant [next; C05] $idx < $N[i-1] ==> isPos($L[i-1], $N[i-1], $idx)
    invariant [behind; C05] iNext == 0 || $idx >= $N[i-1] || $L[i][iNext] < $L[i-1][$idx] + len(tokens[i-1])
    invariant forall r ref :: r != arr(nextMinValues) && r != arr(path[i]) && r < before(next()) ==> rowof("int", r) == before(rowof("int", r))
    invariant [pathRange] within(row(path[i]), $N[i], 0, $N[i-1] - 1)
    invariant [back; C05] stepAt($L[i-1], $L[i], $N[i-1], $N[i], $val[i-1], row(nextMinValues), row(path[i]), len(tokens[i-1]))
    invariant [range] within(row(nextMinValues), $N[i], -1, i * 4294967296)
    invariant [some] (exists k int :: { $val[i-1][k] } 0 <= k < $idx && $val[i-1][k] != -1) ==> reached(row(nextMinValues), $N[i])
    invariant [cover; C05] covers($L[i-1], $L[i], $idx, $N[i], $val[i-1], row(nextMinValues), len(tokens[i-1]))
    hint [low; C05] lowered(iter(row(nextMinValues)), row(nextMinValues), $N[i])
    hint [tried; C05] $val[i-1][iter($idx)] != -1 ==> tried($L[i-1], $L[i], $N[i], $val[i-1], row(nextMinValues), len(tokens[i-1]), iter($idx), iNext)
  loop 4
    invariant before(iNext) <= iNext < len(nextLocations)
    invariant [behind; C05] iNext == 0 || $L[i][iNext] < currentLocation + len(tokens[i-1])
    decreases len(nextLocations) - iNext
  loop 5
    invariant minTokenProximity >= -1
    invariant minTokenProximity == -1 ==> (forall k int :: 0 <= k < $idx ==> $val[len(tokens)-1][k] == -1)
    invariant minTokenProximity != -1 ==> 0 <= cursor < $idx && $val[len(tokens)-1][cursor] == minTokenProximity &&
      (forall k int :: 0 <= k < $idx ==> $val[len(tokens)-1][k] == -1 || minTokenProximity <= $val[len(tokens)-1][k])
  loop 6
    invariant -1 <= i <= len(tokens) - 1
    invariant forall r ref :: r != arr(TokenLocs) && r < before(next()) ==> rowof("int", r) == before(rowof("int", r))
    invariant [rows] forall m int :: { path[m] } 1 <= m < len(path) ==> within(row(path[m]), $N[m], 0, $N[m-1] - 1) && len(path[m]) == $N[m]
    invariant [cursorRange] 0 <= cursor < $N[if i == len(tokens) - 1 then i else i + 1]
    invariant [cursor; C05] let m = (if i == len(tokens) - 1 then i else i + 1) :: $val[m][cursor] != -1 &&
      (i == len(tokens) - 1 ==> $val[m][cursor] == minTokenProximity) &&
      (i < len(tokens) - 1 ==> $chain[m] == $val[m][cursor] && TokenLocs[m] == $L[m][cursor])
    invariant [last; C05] i < len(tokens) - 1 ==> $chain[len(tokens)-1] == minTokenProximity
    invariant [chain; C05; by one others] forall m int :: { link(tokens, row(TokenLocs), $chain, m) } i + 1 < m < len(tokens) ==> link(tokens, row(TokenLocs), $chain, m)
    invariant [pick; C05] forall m int :: { TokenLocs[m] } i < m < len(tokens) ==> pickIn($L[m], $N[m], TokenLocs[m])
    decreases i + 1
    hint [step; C05] let m = iter(i) + 1 :: m < len(tokens) ==> stepAt($L[m-1], $L[m], $N[m-1], $N[m], $val[m-1], $val[m], row(path[m]), len(tokens[m-1]))
    hint [one; C05] let m = iter(i) + 1 :: m < len(tokens) ==> link(tokens, row(TokenLocs), $chain, m)
    hint [others; C05] forall m int :: { link(tokens, row(TokenLocs), $chain, m) } iter(i) + 1 < m < len(tokens) ==> link(tokens, iter(row(TokenLocs)), iter($chain), m) && TokenLocs[m] == iter(TokenLocs[m]) && TokenLocs[m-1] == iter(TokenLocs[m-1])
  set at loop 6 $chain := $chain[iter(i) := $val[iter(i)][cursor]]
  hint at exit [eq; C05] forall m int :: { $L[m] } 0 <= m < len(tokens) ==> $L[m] == shift(row(locs(table, indexPointers, m)), off(locs(table, indexPointers, m)))
  hint at exit [eqn; C05] forall m int :: { $N[m] } 0 <= m < len(tokens) ==> $N[m] == len(locs(table, indexPointers, m))
  hint at exit [chain; C05] chained(tokens, row(TokenLocs), $chain, len(tokens))
  hint at exit [all; C05; by eq eqn] forall p lmap[int]int :: { proxCost(tokens, p, len(tokens)) } picks(table, indexPointers, p, len(tokens)) ==> pickL($L, $N, p, len(tokens))
  for C01 C05

# ---- BM25

# term frequency of the key's posting p
macro tf(ix, k, p) = if ix.initOptions.IndexType == types.LocsIndex then real(len(rows(ix)[k].locations[p])) else if ix.initOptions.IndexType == types.FrequenciesIndex then rows(ix)[k].frequencies[p] else 0

function bmTerm(f real, n real, df real, k1 real, b real, dl real, avg real) real =
  log2(n / df + 1) * f * (k1 + 1) / (f + k1 * (1 - b + b * dl / avg))

# fs[j]: frequency of the j-th key
function bmSum(ix *core.Indexer, keywords []string, fs lmap[int]real, dl real, avg real, n int) real =
  if n <= 0 then 0 else bmSum(ix, keywords, fs, dl, avg, n - 1) +
    (if fs[n-1] > 0 && ix.initOptions.BM25Parameters != nil && avg != 0
     then bmTerm(fs[n-1], real(ix.numDocs), real(len(rows(ix)[keywords[n-1]].docIds)), ix.initOptions.BM25Parameters.K1, ix.initOptions.BM25Parameters.B, dl, avg)
     else 0)

# ps gives the posting of d in each of the first n keys, fs the frequencies there
function postings(ix *core.Indexer, keywords []string, d string, ps lmap[int]int, n int) bool =
  forall j int :: 0 <= j < n ==> 0 <= ps[j] < len(rows(ix)[keywords[j]].docIds) && rows(ix)[keywords[j]].docIds[ps[j]] == d
function freqs(ix *core.Indexer, keywords []string, ps lmap[int]int, fs lmap[int]real, n int) bool =
  forall j int :: 0 <= j < n ==> fs[j] == tf(ix, keywords[j], ps[j])

function bmScore(ix *core.Indexer, keywords []string, fs lmap[int]real, n int, d string) real =
  if ix.initOptions.IndexType == types.LocsIndex && n > 0 && (forall j int :: 0 <= j < n ==> fs[j] > 0) || ix.initOptions.IndexType == types.FrequenciesIndex
  then bmSum(ix, keywords, fs, if d in ix.docTokenLens then ix.docTokenLens[d] else 0, ix.totalTokenLen / real(ix.numDocs), n)
  else 0

function sameKeys(a []string, b []string, n int) bool = forall j int :: { a[j] } { b[j] } 0 <= j < n ==> a[j] == b[j]

lemma bmSumSame(ix *core.Indexer, a []string, b []string, fs lmap[int]real, dl real, avg real, n int)
  { bmSum(ix, a, fs, dl, avg, n), sameKeys(a, b, n) }
  requires sameKeys(a, b, n)
  ensures bmSum(ix, a, fs, dl, avg, n) == bmSum(ix, b, fs, dl, avg, n)
  induction n
  hint n > 0 ==> sameKeys(a, b, n - 1)

# Ls[j]: the positions of the j-th key in the posting ps[j], Ns[j]: how many they are
function positions(ix *core.Indexer, keywords []string, ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int, n int) bool =
  forall j int :: { Ls[j] } { Ns[j] } { ps[j] } 0 <= j < n ==> (let l = rows(ix)[keywords[j]].locations[ps[j]] :: Ls[j] == shift(row(l), off(l)) && Ns[j] == len(l))
function listsOf(r lmap[int][]int, ix *core.Indexer, keywords []string, ps lmap[int]int, n int) bool =
  forall j int :: { r[j] } 0 <= j < n ==> r[j] == rows(ix)[keywords[j]].locations[ps[j]]
function allPlaced(Ns lmap[int]int, n int) bool = n > 0 && (forall j int :: { Ns[j] } 0 <= j < n ==> Ns[j] > 0)
# what a found document says about the positions of the tokens
func Indexer.internalLookup(indexer, keywords, tokens, docIds, countDocsOnly) (docs, numDocs)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] clear(indexer, arr(indexer.removeCacheLock.removeCache)) && keysApart(indexer, keywords) && keysApart(indexer, tokens)
  requires rowsOk(indexer)
  requires indexer.numDocs > 0
  requires len(tokens) <= len(keywords)
  requires len(tokens) < 1073741824 && (forall i int :: 0 <= i < len(tokens) ==> len(tokens[i]) < 1073741824)
  modifies indexer.$found, global $val, global $chain, global $L, global $N
  set at entry indexer.$found := emptyset("string")
  ensures numDocs >= 0
  ensures [matching; C01] forall d string :: d in indexer.$found <==> matchAll(indexer, keywords, docIds, d)
  ensures [listed; C01] listed(indexer, docs, numDocs, countDocsOnly)
  ensures [bm25; C04] forall i int, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) }
    0 <= i < len(docs) && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==>
    docs[i].BM25 == bmScore(indexer, keywords, fs, len(tokens), docs[i].DocId)
  ensures [prox; C05] forall i int, ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) }
    0 <= i < len(docs) && indexer.initOptions.IndexType == types.LocsIndex && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==>
      if allPlaced(Ns, len(tokens))
      then len(docs[i].TokenLocs) == len(tokens) && off(docs[i].TokenLocs) == 0 && (let r = row(docs[i].TokenLocs) :: old(listsOf(r, indexer, keywords, ps, len(tokens)))) &&
        len(docs[i].TokenSnippetLocs) == len(tokens) && off(docs[i].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[i].TokenSnippetLocs)) &&
        (proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[i].TokenProximity == proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)))
      else len(docs[i].TokenLocs) == 0 && len(docs[i].TokenSnippetLocs) == 0 && docs[i].TokenProximity == 0
  hint at entry [alloc; C05] forall k string, p int :: { rows(indexer)[k].locations[p] } k in rows(indexer) && 0 <= p < len(rows(indexer)[k].locations) ==> arr(rows(indexer)[k].locations[p]) < next()
  hint at aftercall computeTokenProximity [tab; C05] forall j int :: { keywords[j] } { indexPointers[j] } 0 <= j < len(tokens) ==> (let q = indexPointers[j] :: locs(table, indexPointers, j) == old(rows(indexer)[keywords[j]].locations[q]) && row(locs(table, indexPointers, j)) == old(row(rows(indexer)[keywords[j]].locations[q])))
  hint at aftercall computeTokenProximity [mine; C05; by tab lists lens] forall j int :: { keywords[j] } { $L[j] } { $N[j] } 0 <= j < len(tokens) ==> (let q = indexPointers[j] :: $L[j] == old(shift(row(rows(indexer)[keywords[j]].locations[q]), off(rows(indexer)[keywords[j]].locations[q]))) && $N[j] == old(len(rows(indexer)[keywords[j]].locations[q])))
  hint at aftercall computeTokenProximity [ps; C05] forall ps lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)) } postings(indexer, keywords, baseDocId, ps, len(tokens)) ==> (forall j int :: { ps[j] } 0 <= j < len(tokens) ==> ps[j] == indexPointers[j])
  hint at aftercall computeTokenProximity [pos; C05; by ps mine] forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) }
    postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> sameL($L, $N, Ls, Ns, len(tokens))
  loop 0
    invariant len(table) == len(keywords) && fresh(table)
    invariant forall j int :: 0 <= j < $idx ==> keywords[j] in rows(indexer) && table[j] == rows(indexer)[keywords[j]]
  loop 1
    invariant 0 <= iTable <= len(table) && len(indexPointers) == len(table) && fresh(indexPointers)
    invariant forall j int :: 0 <= j < iTable ==> indexPointers[j] == len(table[j].docIds) - 1
    decreases len(table) - iTable
  loop 2
    invariant -1 <= indexPointers[0] < len(table[0].docIds)
    invariant forall j int :: 1 <= j < len(table) ==> 0 <= indexPointers[j] < len(table[j].docIds)
    invariant [skip] indexPointers[0] >= 0 ==> (forall j int, k int :: 1 <= j < len(table) && indexPointers[j] < k < len(table[j].docIds) ==> table[0].docIds[indexPointers[0]] < table[j].docIds[k])
    invariant [found; C01] forall d string :: d in indexer.$found <==> matchAll(indexer, keywords, docIds, d) && inR(row(table[0].docIds), off(table[0].docIds) + indexPointers[0] + 1, off(table[0].docIds) + len(table[0].docIds), d)
    invariant [listed; C01] listed(indexer, docs, numDocs, countDocsOnly)
    invariant docs == nil || fresh(docs)
    invariant 0 <= numDocs && numDocs + indexPointers[0] < len(table[0].docIds)
    invariant [bm25; C04] forall i int, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) }
    0 <= i < len(docs) && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==>
      docs[i].BM25 == bmScore(indexer, keywords, fs, len(tokens), docs[i].DocId)
    invariant [prox; C05; by oldProx newProx kept last] forall i int, ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) }
    0 <= i < len(docs) && indexer.initOptions.IndexType == types.LocsIndex && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==>
      if allPlaced(Ns, len(tokens))
      then len(docs[i].TokenLocs) == len(tokens) && off(docs[i].TokenLocs) == 0 && (let r = row(docs[i].TokenLocs) :: old(listsOf(r, indexer, keywords, ps, len(tokens)))) &&
        len(docs[i].TokenSnippetLocs) == len(tokens) && off(docs[i].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[i].TokenSnippetLocs)) &&
        (proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[i].TokenProximity == proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)))
      else len(docs[i].TokenLocs) == 0 && len(docs[i].TokenSnippetLocs) == 0 && docs[i].TokenProximity == 0
    invariant [frame; C05] forall r ref :: { rowof("int", r) } r < old(next()) ==> rowof("int", r) == old(rowof("int", r))
    invariant [frame2; C05] forall r ref :: { rowof("[]int", r) } r < old(next()) ==> rowof("[]int", r) == old(rowof("[]int", r))
    invariant [snips; C05] forall i int :: { docs[i] } 0 <= i < len(docs) ==> arr(docs[i].TokenSnippetLocs) != arr(indexPointers)
    decreases indexPointers[0] + 1
    hint [same; C04 C05] forall ps lmap[int]int :: numDocs > iter(numDocs) && postings(indexer, keywords, baseDocId, ps, len(tokens)) ==> (forall j int :: 0 <= j < len(tokens) ==> ps[j] == indexPointers[j] + (if j == 0 then 1 else 0))
    hint [rowsKept; C04] forall d string, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, d, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) } postings(indexer, keywords, d, ps, len(tokens)) ==> iter(freqs(indexer, keywords, ps, fs, len(tokens))) == freqs(indexer, keywords, ps, fs, len(tokens))
    hint [s1; C04] forall ps lmap[int]int, fs lmap[int]real :: numDocs > iter(numDocs) && !countDocsOnly && postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> (indexer.initOptions.IndexType != types.LocsIndex && indexer.initOptions.IndexType != types.FrequenciesIndex ==> docs[len(docs)-1].BM25 == 0)
    hint [s2; C04] forall ps lmap[int]int, fs lmap[int]real :: numDocs > iter(numDocs) && !countDocsOnly && postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> (indexer.initOptions.IndexType == types.LocsIndex && !(len(tokens) > 0 && (forall j int :: 0 <= j < len(tokens) ==> fs[j] > 0)) ==> docs[len(docs)-1].BM25 == 0)
    hint [s3; C04] forall ps lmap[int]int, fs lmap[int]real :: numDocs > iter(numDocs) && !countDocsOnly && postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> (indexer.initOptions.IndexType == types.FrequenciesIndex ==> docs[len(docs)-1].BM25 == bmSum(indexer, keywords, fs, if baseDocId in indexer.docTokenLens then indexer.docTokenLens[baseDocId] else 0, indexer.totalTokenLen / real(indexer.numDocs), len(tokens)))
    hint [s4; C04] forall ps lmap[int]int, fs lmap[int]real :: numDocs > iter(numDocs) && !countDocsOnly && postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> (indexer.initOptions.IndexType == types.LocsIndex && (len(tokens) > 0 && (forall j int :: 0 <= j < len(tokens) ==> fs[j] > 0)) ==> docs[len(docs)-1].BM25 == bmSum(indexer, keywords, fs, if baseDocId in indexer.docTokenLens then indexer.docTokenLens[baseDocId] else 0, indexer.totalTokenLen / real(indexer.numDocs), len(tokens)))
    hint [score; C04] forall ps lmap[int]int, fs lmap[int]real :: numDocs > iter(numDocs) && !countDocsOnly && postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> docs[len(docs)-1].BM25 == bmScore(indexer, keywords, fs, len(tokens), baseDocId)
    hint [last; C04 C05] numDocs > iter(numDocs) && !countDocsOnly ==> len(docs) > 0 && docs[len(docs)-1].DocId == baseDocId
    hint [kept; C04 C05] len(docs) <= len(iter(docs)) + 1 && (len(docs) > len(iter(docs)) ==> numDocs > iter(numDocs) && !countDocsOnly) && (forall i int :: 0 <= i < len(iter(docs)) ==> docs[i] == iter(docs[i]))
    hint [snipBound; C05] forall i int :: { iter(docs[i]) } 0 <= i < len(iter(docs)) ==> iter(arr(docs[i].TokenSnippetLocs)) < iter(next()) && iter(arr(docs[i].TokenLocs)) < iter(next())
    hint [intRows; C05] forall r ref :: { rowof("int", r) } r < iter(next()) && r != arr(indexPointers) ==> rowof("int", r) == iter(rowof("int", r))
    hint [listRows; C05] forall r ref :: { rowof("[]int", r) } r < iter(next()) ==> rowof("[]int", r) == iter(rowof("[]int", r))
    hint [snipRows; C05; by kept snipBound intRows listRows snips] forall i int :: { docs[i] } 0 <= i < len(iter(docs)) ==> row(docs[i].TokenSnippetLocs) == iter(row(docs[i].TokenSnippetLocs)) && row(docs[i].TokenLocs) == iter(row(docs[i].TokenLocs))
    hint [placed2; C05; by placed last] numDocs > iter(numDocs) && !countDocsOnly && indexer.initOptions.IndexType == types.LocsIndex ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> (allPlaced(Ns, len(tokens)) <==> len(docs[len(docs)-1].TokenLocs) > 0)
    hint [newLists; C05] numDocs > iter(numDocs) && !countDocsOnly && indexer.initOptions.IndexType == types.LocsIndex ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> allPlaced(Ns, len(tokens)) ==> len(docs[len(docs)-1].TokenLocs) == len(tokens) && off(docs[len(docs)-1].TokenLocs) == 0 && (let r = row(docs[len(docs)-1].TokenLocs) :: old(listsOf(r, indexer, keywords, ps, len(tokens))))
    hint [newBest; C05; by placed2 last pos] numDocs > iter(numDocs) && !countDocsOnly && indexer.initOptions.IndexType == types.LocsIndex ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> allPlaced(Ns, len(tokens)) ==> len(docs[len(docs)-1].TokenSnippetLocs) == len(tokens) && off(docs[len(docs)-1].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[len(docs)-1].TokenSnippetLocs))
    hint [newCost; C05; by placed2 last] numDocs > iter(numDocs) && !countDocsOnly && indexer.initOptions.IndexType == types.LocsIndex ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> allPlaced(Ns, len(tokens)) ==> (proxCost(tokens, row(docs[len(docs)-1].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[len(docs)-1].TokenProximity == proxCost(tokens, row(docs[len(docs)-1].TokenSnippetLocs), len(tokens)))
    hint [newNone; C05; by placed2 last] numDocs > iter(numDocs) && !countDocsOnly && indexer.initOptions.IndexType == types.LocsIndex ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> !allPlaced(Ns, len(tokens)) ==> len(docs[len(docs)-1].TokenLocs) == 0 && len(docs[len(docs)-1].TokenSnippetLocs) == 0 && docs[len(docs)-1].TokenProximity == 0
    hint [newProx; C05; by newLists newBest newCost newNone] numDocs > iter(numDocs) && !countDocsOnly ==> forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) }
    indexer.initOptions.IndexType == types.LocsIndex && postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==>
      if allPlaced(Ns, len(tokens))
      then len(docs[len(docs)-1].TokenLocs) == len(tokens) && off(docs[len(docs)-1].TokenLocs) == 0 && (let r = row(docs[len(docs)-1].TokenLocs) :: old(listsOf(r, indexer, keywords, ps, len(tokens)))) &&
        len(docs[len(docs)-1].TokenSnippetLocs) == len(tokens) && off(docs[len(docs)-1].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[len(docs)-1].TokenSnippetLocs)) &&
        (proxCost(tokens, row(docs[len(docs)-1].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[len(docs)-1].TokenProximity == proxCost(tokens, row(docs[len(docs)-1].TokenSnippetLocs), len(tokens)))
      else len(docs[len(docs)-1].TokenLocs) == 0 && len(docs[len(docs)-1].TokenSnippetLocs) == 0 && docs[len(docs)-1].TokenProximity == 0
    hint [oldProx; C05; by prox kept snipRows] forall i int, ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) }
    0 <= i < len(iter(docs)) && indexer.initOptions.IndexType == types.LocsIndex && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==>
      if allPlaced(Ns, len(tokens))
      then len(docs[i].TokenLocs) == len(tokens) && off(docs[i].TokenLocs) == 0 && (let r = row(docs[i].TokenLocs) :: old(listsOf(r, indexer, keywords, ps, len(tokens)))) &&
        len(docs[i].TokenSnippetLocs) == len(tokens) && off(docs[i].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[i].TokenSnippetLocs)) &&
        (proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[i].TokenProximity == proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)))
      else len(docs[i].TokenLocs) == 0 && len(docs[i].TokenSnippetLocs) == 0 && docs[i].TokenProximity == 0
    hint [old1; C04] forall i int, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) }
      0 <= i < len(iter(docs)) && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==>
      iter(docs[i].BM25 == bmScore(indexer, keywords, fs, len(tokens), docs[i].DocId))
    hint [old2; C04] forall i int, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, docs[i].DocId, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) }
      0 <= i < len(iter(docs)) && postings(indexer, keywords, docs[i].DocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==>
      docs[i].BM25 == bmScore(indexer, keywords, fs, len(tokens), docs[i].DocId)
    hint [all; C01] matchAll(indexer, keywords, docIds, baseDocId) ==> (forall j int :: { table[j] } 0 <= j < len(table) ==> inRow(table[j].docIds, baseDocId))
    hint [C01] numDocs > iter(numDocs) ==> matchAll(indexer, keywords, docIds, baseDocId)
    hint [C01] matchAll(indexer, keywords, docIds, baseDocId) ==> numDocs > iter(numDocs)
  hint at aftercall searchIndex [above; C01] forall k int :: { table[iTable].docIds[k] } indexPointers[iTable] < k < len(table[iTable].docIds) ==> baseDocId < table[iTable].docIds[k]
  hint at aftercall searchIndex [none; C01] !$r1 ==> forall k int :: { table[iTable].docIds[k] } 0 <= k < len(table[iTable].docIds) ==> baseDocId != table[iTable].docIds[k]
  hint at aftercall searchIndex [miss; C01] !$r1 ==> !inRow(table[iTable].docIds, baseDocId)
  set at loop 2 indexer.$found := if numDocs > iter(numDocs) then indexer.$found[baseDocId := true] else indexer.$found
  loop 3
    invariant 1 <= iTable <= len(table) && found
    invariant forall j int :: 0 <= j < len(table) ==> 0 <= indexPointers[j] < len(table[j].docIds)
    invariant indexPointers[0] == before(indexPointers[0])
    invariant forall j int :: 0 <= j < iTable ==> table[j].docIds[indexPointers[j]] == baseDocId
    invariant forall j int, k int :: 1 <= j < len(table) && indexPointers[j] < k < len(table[j].docIds) ==> baseDocId < table[j].docIds[k]
    invariant [frame; C05] forall r ref :: { rowof("int", r) } r < before(next()) && r != arr(indexPointers) ==> rowof("int", r) == before(rowof("int", r))
    decreases len(table) - iTable
  loop 4
    invariant 0 <= numTokensWithLocations <= $idx
    invariant numTokensWithLocations == $idx <==> (forall j int :: 0 <= j < $idx ==> len(table[j].locations[indexPointers[j]]) > 0)
    invariant [placed; C05] forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> (numTokensWithLocations == $idx <==> (forall j int :: { Ns[j] } 0 <= j < $idx ==> Ns[j] > 0))
    hint [samePs; C05] forall ps lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)) } postings(indexer, keywords, baseDocId, ps, len(tokens)) ==> (forall j int :: { ps[j] } 0 <= j < len(tokens) ==> ps[j] == indexPointers[j])
    hint [one; C05] let j = iter($idx) :: forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) } postings(indexer, keywords, baseDocId, ps, len(tokens)) && old(positions(indexer, keywords, ps, Ls, Ns, len(tokens))) ==> Ns[j] == len(table[j].locations[indexPointers[j]])
  loop 5
    invariant [lists; C05] forall j int :: { indexedDoc.TokenLocs[j] } 0 <= j < $idx ==> indexedDoc.TokenLocs[j] == table[j].locations[indexPointers[j]]
    invariant [frame; C05] forall r ref :: { rowof("[]int", r) } r < before(next()) && r != arr(indexedDoc.TokenLocs) ==> rowof("[]int", r) == before(rowof("[]int", r))
  loop 6
    invariant [bm; C04] forall ps lmap[int]int, fs lmap[int]real :: { postings(indexer, keywords, baseDocId, ps, len(tokens)), freqs(indexer, keywords, ps, fs, len(tokens)) }
      postings(indexer, keywords, baseDocId, ps, len(tokens)) && freqs(indexer, keywords, ps, fs, len(tokens)) ==> bm25 == bmSum(indexer, keywords, fs, d, avgDocLength, $idx)
  for C01 C04 C05 C13



# ---- logic search

macro inFrom(ids, lo, hi, d) = inR(row(ids), off(ids) + lo, off(ids) + hi, d)
macro inFirst(table, n, d) = exists a int :: 0 <= a < n && inFrom(table[a].docIds, 0, len(table[a].docIds), d)

macro tableOk(t) = forall i int :: 0 <= i < len(t) ==> t[i] != nil && len(t[i].docIds) > 0 && sortedRow(t[i].docIds)
macro inTable(t, d) = exists i int :: 0 <= i < len(t) && inRow(t[i].docIds, d)
macro listedNow(ix, ids, n) = n == card(ix.$found) && len(ids) == n && (forall i int :: 0 <= i < len(ids) ==> ids[i] in ix.$found) &&
  (forall i int, j int :: 0 <= i < j < len(ids) ==> ids[i] != ids[j]) && (forall d string :: d in ix.$found ==> inRow(ids, d))

func Indexer.unionTable(indexer, table, notInTable, filter, countDocsOnly) (docs, numDocs)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] rowsApart(indexer, table) && rowsApart(indexer, notInTable)
  requires rowsOk(indexer) && tableOk(table) && tableOk(notInTable)
  modifies indexer.$found
  set at entry indexer.$found := emptyset("string")
  ensures numDocs >= 0
  ensures [union; C02] forall d string :: d in indexer.$found <==> live(indexer, d) && passes(filter, d) && inTable(table, d) && !inTable(notInTable, d)
  ensures [listed; C02] listed(indexer, docs, numDocs, countDocsOnly)
  loop 0
    invariant 0 <= i <= len(table)
    invariant [listed; C02] listedNow(indexer, docIds, len(docIds))
    invariant docIds == nil || fresh(docIds)
    invariant [union; C02] forall d string :: d in indexer.$found <==> live(indexer, d) && passes(filter, d) && !inTable(notInTable, d) && inFirst(table, i, d)
    decreases len(table) - i
  loop 1
    invariant [listed; C02] listedNow(indexer, docIds, len(docIds))
    invariant docIds == nil || fresh(docIds)
    invariant [union; C02] forall d string :: d in indexer.$found <==> live(indexer, d) && passes(filter, d) && !inTable(notInTable, d) &&
      (inFirst(table, i, d) || inFrom(table[i].docIds, 0, $idx, d))
    hint [C02] (len(docIds) == len(iter(docIds)) || len(docIds) == len(iter(docIds)) + 1 && docIds[len(docIds)-1] == docid && !(docid in iter(indexer.$found))) && (forall a int :: 0 <= a < len(iter(docIds)) ==> docIds[a] == iter(docIds[a]))
    hint [rows; C02] forall a int :: 0 <= a < len(table) ==> row(table[a].docIds) == iter(row(table[a].docIds))
    hint [first; C02] forall d string :: { d in indexer.$found } inFirst(table, i, d) <==> iter(inFirst(table, i, d))
    hint [not; C02] forall d string :: { d in indexer.$found } inTable(notInTable, d) <==> iter(inTable(notInTable, d))
    hint [old; C02] forall d string :: { d in indexer.$found } d in iter(indexer.$found) <==> live(indexer, d) && passes(filter, d) && !inTable(notInTable, d) && (inFirst(table, i, d) || inFrom(table[i].docIds, 0, $idx - 1, d))
    hint [row; C02] forall d string :: inFrom(table[i].docIds, 0, $idx, d) <==> (d == docid || inFrom(table[i].docIds, 0, $idx - 1, d))
    hint [C02] live(indexer, docid) && passes(filter, docid) && !inTable(notInTable, docid) <==> docid in indexer.$found
  set at loop 1 indexer.$found := if len(docIds) > len(iter(docIds)) then indexer.$found[docid := true] else indexer.$found
  loop 2
    invariant !found && (forall k int :: 0 <= k < $idx ==> docIds[k] != docid)
  loop 3
    invariant docs == nil || fresh(docs)
    invariant numDocs == $idx
    invariant if countDocsOnly then len(docs) == 0 else len(docs) == $idx && (forall k int :: 0 <= k < $idx ==> docs[k].DocId == docIds[k])
  for C02 C13

macro clause(on, keys, q) = if len(keys) > 0 then keys else if on then q else nil
macro matchLogic(ix, must, should, notin, filter, d) = live(ix, d) && passes(filter, d) &&
  (forall i int :: 0 <= i < len(must) ==> contains(ix, must[i], d)) &&
  (len(should) > 0 ==> (exists i int :: 0 <= i < len(should) && contains(ix, should[i], d))) &&
  !(exists i int :: 0 <= i < len(notin) && contains(ix, notin[i], d))

macro fromKeys(ix, t, keys, n) = tableOk(t) && (forall a int :: 0 <= a < len(t) ==> (exists b int :: 0 <= b < n && keys[b] in rows(ix) && t[a] == rows(ix)[keys[b]])) &&
  (forall b int :: 0 <= b < n && keys[b] in rows(ix) ==> (exists a int :: 0 <= a < len(t) && t[a] == rows(ix)[keys[b]]))

func Indexer.LogicLookup(indexer, docIds, countDocsOnly, logicExpr, logic) (docs, numDocs)
  requires [C13] held(indexer.tableLock) >= 1
  requires [apart; C13] clear(indexer, arr(indexer.removeCacheLock.removeCache)) && keysApart(indexer, logicExpr) && keysApart(indexer, logic.Expr.Must) && keysApart(indexer, logic.Expr.Should) && keysApart(indexer, logic.Expr.NotIn)
  requires rowsOk(indexer)
  modifies indexer.$found
  set at entry indexer.$found := emptyset("string")
  ensures numDocs >= 0
  ensures [matching; C02] len(clause(logic.Must, logic.Expr.Must, logicExpr)) > 0 || len(clause(logic.Should, logic.Expr.Should, logicExpr)) > 0 ==>
    (forall d string :: d in indexer.$found <==> matchLogic(indexer, clause(logic.Must, logic.Expr.Must, logicExpr), clause(logic.Should, logic.Expr.Should, logicExpr), clause(logic.NotIn, logic.Expr.NotIn, logicExpr), docIds, d))
  ensures [listed; C02] len(clause(logic.Must, logic.Expr.Must, logicExpr)) > 0 || len(clause(logic.Should, logic.Expr.Should, logicExpr)) > 0 ==> listed(indexer, docs, numDocs, countDocsOnly)
  loop 0
    invariant mustTable == nil || fresh(mustTable)
    invariant len(mustTable) == $idx && tableOk(mustTable)
    invariant forall j int :: 0 <= j < $idx ==> mustKeys[j] in rows(indexer) && mustTable[j] == rows(indexer)[mustKeys[j]]
  loop 1
    invariant shouldTable == nil || fresh(shouldTable)
    invariant arr(shouldTable) >= before(next()) || cap(shouldTable) == 0
    invariant forall r ref :: r < before(next()) ==> rowof("*core.KeywordIndices", r) == before(rowof("*core.KeywordIndices", r))
    invariant [should] fromKeys(indexer, shouldTable, shouldKeys, $idx)
  loop 2
    invariant notInTable == nil || fresh(notInTable)
    invariant arr(notInTable) >= before(next()) || cap(notInTable) == 0
    invariant forall r ref :: r < before(next()) ==> rowof("*core.KeywordIndices", r) == before(rowof("*core.KeywordIndices", r))
    invariant [notin] fromKeys(indexer, notInTable, notInKeys, $idx)
  loop 3
    invariant -1 <= idx < len(mustTable[0].docIds)
    invariant docs == nil || fresh(docs)
    invariant 0 <= numDocs && numDocs + idx < len(mustTable[0].docIds)
    invariant [found; C02] forall d string :: d in indexer.$found <==> matchLogic(indexer, mustKeys, shouldKeys, notInKeys, docIds, d) && inFrom(mustTable[0].docIds, idx + 1, len(mustTable[0].docIds), d)
    invariant [listed; C02] listed(indexer, docs, numDocs, countDocsOnly)
    hint [m1; C02] inRow(mustTable[0].docIds, baseDocId)
    hint [m2; C02] forall i int :: 0 <= i < len(mustKeys) ==> (inRow(mustTable[i].docIds, baseDocId) <==> contains(indexer, mustKeys[i], baseDocId))
    hint [row; C02] forall d string :: inFrom(mustTable[0].docIds, idx + 1, len(mustTable[0].docIds), d) <==> (d == baseDocId || inFrom(mustTable[0].docIds, idx + 2, len(mustTable[0].docIds), d))
    hint [m3; C02] (forall i int :: 0 <= i < len(mustTable) ==> inRow(mustTable[i].docIds, baseDocId)) ==> (forall i int :: 0 <= i < len(mustKeys) ==> contains(indexer, mustKeys[i], baseDocId))
    hint [m4; C02] (forall i int :: 0 <= i < len(mustKeys) ==> contains(indexer, mustKeys[i], baseDocId)) ==> (forall i int :: 0 <= i < len(mustTable) ==> inRow(mustTable[i].docIds, baseDocId))
    hint [s; C02] (exists i int :: 0 <= i < len(shouldKeys) && contains(indexer, shouldKeys[i], baseDocId)) <==> inTable(shouldTable, baseDocId)
    hint [n; C02] (exists i int :: 0 <= i < len(notInKeys) && contains(indexer, notInKeys[i], baseDocId)) <==> inTable(notInTable, baseDocId)
    hint [C02] numDocs > iter(numDocs) <==> matchLogic(indexer, mustKeys, shouldKeys, notInKeys, docIds, baseDocId)
    decreases idx + 1
  set at loop 3 indexer.$found := if numDocs > iter(numDocs) then indexer.$found[baseDocId := true] else indexer.$found
  loop 4
    invariant 0 <= i <= len(notInTable)
    invariant uintDocIds == nil || fresh(uintDocIds)
    decreases len(notInTable) - i
  loop 5
    invariant uintDocIds == nil || fresh(uintDocIds)
  loop 6
    invariant docs == nil || fresh(docs)
    invariant numDocs == $idx
  for C02 C13

# ---- Lookup

macro statsOk(ix) = ix.numDocs == mapcount(ix.tableLock.docsState, 0)

macro allOf(ix, keys, d) = forall i int :: 0 <= i < len(keys) ==> contains(ix, keys[i], d)
macro anyOf(ix, keys, d) = exists i int :: 0 <= i < len(keys) && contains(ix, keys[i], d)
macro nkeys(on, keys, tokens, labels) = if len(keys) > 0 then len(keys) else if on then len(tokens) + len(labels) else 0
macro clauseAll(ix, on, keys, tokens, labels, d) = if len(keys) > 0 then allOf(ix, keys, d) else on ==> allOf(ix, tokens, d) && allOf(ix, labels, d)
macro clauseAny(ix, on, keys, tokens, labels, d) = if len(keys) > 0 then anyOf(ix, keys, d) else on && (anyOf(ix, tokens, d) || anyOf(ix, labels, d))

# a logic expression with a must or a should clause
macro logical(l, tokens, labels) = nkeys(l.Must, l.Expr.Must, tokens, labels) > 0 || nkeys(l.Should, l.Expr.Should, tokens, labels) > 0
# no logic expression at all: nothing switched on, no keys
macro plain(logic) = len(logic) == 0 || !logic[0].Must && !logic[0].Should && !logic[0].NotIn && len(logic[0].Expr.Must) == 0 && len(logic[0].Expr.Should) == 0

func Indexer.Lookup(indexer, tokens, labels, docIds, countDocsOnly, logic) (docs, numDocs)
  assumed C07 C08 under C01 C02
  requires [C13] held(indexer.tableLock) == 0
  requires [apart; C13] clear(indexer, arr(indexer.removeCacheLock.removeCache)) && keysApart(indexer, tokens) && keysApart(indexer, labels) && (len(logic) > 0 ==> keysApart(indexer, logic[0].Expr.Must) && keysApart(indexer, logic[0].Expr.Should) && keysApart(indexer, logic[0].Expr.NotIn))
  requires indexer.initialized
  requires rowsOk(indexer) && statsOk(indexer)
  requires len(tokens) < 1073741824 && len(labels) < 1073741824 && (forall i int :: 0 <= i < len(tokens) ==> len(tokens[i]) < 1073741824)
  modifies indexer.$found, global $val, global $chain, global $L, global $N
  set at entry indexer.$found := emptyset("string")
  ensures numDocs >= 0
  ensures [matching; C01] plain(logic) ==> (forall d string :: d in indexer.$found <==>
    len(tokens) + len(labels) > 0 && live(indexer, d) && passes(docIds, d) && allOf(indexer, tokens, d) && allOf(indexer, labels, d))
  ensures [listed; C01] plain(logic) ==> listed(indexer, docs, numDocs, countDocsOnly)
  ensures [logical; C02] len(logic) > 0 && logical(logic[0], tokens, labels) ==> (forall d string :: d in indexer.$found <==>
    live(indexer, d) && passes(docIds, d) &&
    clauseAll(indexer, logic[0].Must, logic[0].Expr.Must, tokens, labels, d) &&
    (nkeys(logic[0].Should, logic[0].Expr.Should, tokens, labels) > 0 ==> clauseAny(indexer, logic[0].Should, logic[0].Expr.Should, tokens, labels, d)) &&
    !clauseAny(indexer, logic[0].NotIn, logic[0].Expr.NotIn, tokens, labels, d))
  ensures [listedLogic; C02] len(logic) > 0 && logical(logic[0], tokens, labels) ==> listed(indexer, docs, numDocs, countDocsOnly)
  ensures [bm25; C04] plain(logic) ==> forall i int, ps lmap[int]int, fs lmap[int]real :: { postings(indexer, tokens, docs[i].DocId, ps, len(tokens)), freqs(indexer, tokens, ps, fs, len(tokens)) }
    0 <= i < len(docs) && postings(indexer, tokens, docs[i].DocId, ps, len(tokens)) && freqs(indexer, tokens, ps, fs, len(tokens)) ==>
      docs[i].BM25 == bmScore(indexer, tokens, fs, len(tokens), docs[i].DocId)
  ensures [prox; C05] plain(logic) ==> forall i int, ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { postings(indexer, tokens, docs[i].DocId, ps, len(tokens)), old(positions(indexer, tokens, ps, Ls, Ns, len(tokens))) }
    0 <= i < len(docs) && indexer.initOptions.IndexType == types.LocsIndex && postings(indexer, tokens, docs[i].DocId, ps, len(tokens)) && old(positions(indexer, tokens, ps, Ls, Ns, len(tokens))) ==>
      if allPlaced(Ns, len(tokens))
      then len(docs[i].TokenLocs) == len(tokens) && off(docs[i].TokenLocs) == 0 && (let r = row(docs[i].TokenLocs) :: old(listsOf(r, indexer, tokens, ps, len(tokens)))) &&
        len(docs[i].TokenSnippetLocs) == len(tokens) && off(docs[i].TokenSnippetLocs) == 0 && proxOk(tokens, Ls, Ns, len(tokens), row(docs[i].TokenSnippetLocs)) &&
        (proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)) <= 2147483647 ==> docs[i].TokenProximity == proxCost(tokens, row(docs[i].TokenSnippetLocs), len(tokens)))
      else len(docs[i].TokenLocs) == 0 && len(docs[i].TokenSnippetLocs) == 0 && docs[i].TokenProximity == 0
  hint at call internalLookup len(keywords) == len(tokens) + len(labels)
  hint at call internalLookup forall i int :: { tokens[i] } 0 <= i < len(tokens) ==> keywords[i] == tokens[i]
  hint at call internalLookup forall i int :: { keywords[i] } 0 <= i < len(tokens) ==> keywords[i] == tokens[i]
  hint at call internalLookup forall i int :: { labels[i] } 0 <= i < len(labels) ==> keywords[len(tokens) + i] == labels[i]
  hint at call internalLookup forall i int :: { keywords[i] } len(tokens) <= i < len(keywords) ==> keywords[i] == labels[i - len(tokens)]
  hint at aftercall internalLookup [t1; C01] forall d string :: { d in indexer.$found } allOf(indexer, keywords, d) ==> allOf(indexer, tokens, d)
  hint at aftercall internalLookup [l1; C01] forall d string :: { d in indexer.$found } allOf(indexer, keywords, d) ==> allOf(indexer, labels, d)
  hint at aftercall internalLookup [k1; C01] forall d string :: { d in indexer.$found } allOf(indexer, tokens, d) && allOf(indexer, labels, d) ==> allOf(indexer, keywords, d)
  hint at aftercall internalLookup [C04] sameKeys(tokens, keywords, len(tokens))
  hint at aftercall internalLookup [C04] forall d string, ps lmap[int]int :: { postings(indexer, tokens, d, ps, len(tokens)) } postings(indexer, tokens, d, ps, len(tokens)) ==> postings(indexer, keywords, d, ps, len(tokens))
  hint at aftercall internalLookup [C04] forall ps lmap[int]int, fs lmap[int]real :: { freqs(indexer, tokens, ps, fs, len(tokens)) } freqs(indexer, tokens, ps, fs, len(tokens)) ==> freqs(indexer, keywords, ps, fs, len(tokens))
  hint at call internalLookup [same; C05] sameKeys(tokens, keywords, len(tokens))
  hint at call internalLookup [posts; C05] forall d string, ps lmap[int]int :: { postings(indexer, tokens, d, ps, len(tokens)) } postings(indexer, tokens, d, ps, len(tokens)) ==> postings(indexer, keywords, d, ps, len(tokens))
  hint at call internalLookup [places; C05] forall ps lmap[int]int, Ls lmap[int]lmap[int]int, Ns lmap[int]int :: { old(positions(indexer, tokens, ps, Ls, Ns, len(tokens))) } old(positions(indexer, tokens, ps, Ls, Ns, len(tokens))) ==> positions(indexer, keywords, ps, Ls, Ns, len(tokens))
  hint at call internalLookup [lists; C05] forall r lmap[int][]int, ps lmap[int]int :: { listsOf(r, indexer, keywords, ps, len(tokens)) } listsOf(r, indexer, keywords, ps, len(tokens)) ==> old(listsOf(r, indexer, tokens, ps, len(tokens)))
  hint at call LogicLookup len(keywords) == len(tokens) + len(labels)
  hint at call LogicLookup forall i int :: { tokens[i] } 0 <= i < len(tokens) ==> keywords[i] == tokens[i]
  hint at call LogicLookup forall i int :: { keywords[i] } 0 <= i < len(tokens) ==> keywords[i] == tokens[i]
  hint at call LogicLookup forall i int :: { labels[i] } 0 <= i < len(labels) ==> keywords[len(tokens) + i] == labels[i]
  hint at call LogicLookup forall i int :: { keywords[i] } len(tokens) <= i < len(keywords) ==> keywords[i] == labels[i - len(tokens)]
  hint at aftercall LogicLookup [t1; C02] forall d string :: { d in indexer.$found } allOf(indexer, keywords, d) ==> allOf(indexer, tokens, d)
  hint at aftercall LogicLookup [l1; C02] forall d string :: { d in indexer.$found } allOf(indexer, keywords, d) ==> allOf(indexer, labels, d)
  hint at aftercall LogicLookup [k1; C02] forall d string :: { d in indexer.$found } allOf(indexer, tokens, d) && allOf(indexer, labels, d) ==> allOf(indexer, keywords, d)
  hint at aftercall LogicLookup [t2; C02] forall d string :: { d in indexer.$found } anyOf(indexer, tokens, d) ==> anyOf(indexer, keywords, d)
  hint at aftercall LogicLookup [l2; C02] forall d string :: { d in indexer.$found } anyOf(indexer, labels, d) ==> anyOf(indexer, keywords, d)
  hint at aftercall LogicLookup [k2; C02] forall d string :: { d in indexer.$found } anyOf(indexer, keywords, d) ==> anyOf(indexer, tokens, d) || anyOf(indexer, labels, d)
  for C01 C02 C04 C05 C13
