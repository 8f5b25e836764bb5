# Orders used for sorting.
package types

func DocsIndex.Len(docs) (n)
  pure len(docs)
  for C03 C13
func DocsIndex.Less(docs, i, j) (r)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  requires docs[i] != nil && docs[j] != nil
  pure docs[i].DocId < docs[j].DocId
  for C03 C13
func DocsIndex.Swap(docs, i, j)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  modifies elems(docs)
  ensures row(docs) == old(row(docs))[off(docs) + i := old(docs[j])][off(docs) + j := old(docs[i])]
  for C03 C13

func DocsId.Len(docs) (n)
  pure len(docs)
  for C03 C13
func DocsId.Less(docs, i, j) (r)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  pure docs[i] < docs[j]
  for C03 C13
func DocsId.Swap(docs, i, j)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  modifies elems(docs)
  ensures row(docs) == old(row(docs))[off(docs) + i := old(docs[j])][off(docs) + j := old(docs[i])]
  for C03 C13

# a is a better score list than b: lexicographically greater, a longer list above its own prefix
function sameTo(a lmap[int]real, b lmap[int]real, k int) bool = forall j int :: { a[j] } { b[j] } 0 <= j < k ==> a[j] == b[j]
function betterAt(a lmap[int]real, na int, b lmap[int]real, nb int, k int) bool =
  0 <= k && k <= na && k <= nb && sameTo(a, b, k) && (if k < na && k < nb then a[k] > b[k] else na > nb)
function better(a lmap[int]real, na int, b lmap[int]real, nb int) bool = exists k int :: { betterAt(a, na, b, nb, k) } betterAt(a, na, b, nb, k)

function rshift(r lmap[int]real, o int) lmap[int]real
axiom rshiftAt(r lmap[int]real, o int, k int)
  { rshift(r, o)[k] }
  ensures rshift(r, o)[k] == r[o + k]
macro scoresOf(s) = rshift(row(s), off(s))

# the order is a strict weak order: irreflexive, transitive, and incomparable lists are equal
lemma betterIrreflexive(a lmap[int]real, n int)
  ensures !better(a, n, a, n)

lemma betterTransitive(a lmap[int]real, na int, b lmap[int]real, nb int, c lmap[int]real, nc int)
  requires better(a, na, b, nb) && better(b, nb, c, nc)
  ensures better(a, na, c, nc)
  hint exists k int, l int :: { betterAt(a, na, b, nb, k), betterAt(b, nb, c, nc, l) } betterAt(a, na, b, nb, k) && betterAt(b, nb, c, nc, l) && betterAt(a, na, c, nc, min(k, l))

lemma firstDiff(a lmap[int]real, b lmap[int]real, n int)
  { sameTo(a, b, n) }
  requires n >= 0
  ensures exists k int :: { sameTo(a, b, k) } 0 <= k <= n && sameTo(a, b, k) && (k == n || a[k] != b[k])
  induction n
  hint sameTo(a, b, 0)
  hint n > 0 && sameTo(a, b, n - 1) && a[n-1] == b[n-1] ==> sameTo(a, b, n)

lemma betterTotal(a lmap[int]real, na int, b lmap[int]real, nb int)
  requires na >= 0 && nb >= 0
  requires !better(a, na, b, nb) && !better(b, nb, a, na)
  hint sameTo(a, b, min(na, nb)) ==> min(na, nb) >= 0
  ensures na == nb && sameTo(a, b, na)
  hint exists k int :: { sameTo(a, b, k) } 0 <= k <= min(na, nb) && sameTo(a, b, k) && (k == min(na, nb) || a[k] != b[k])
  hint exists k int :: { sameTo(a, b, k) } sameTo(a, b, k) && (betterAt(a, na, b, nb, k) || betterAt(b, nb, a, na, k) || k == na && k == nb)

func ScoredDocs.Len(docs) (n)
  pure len(docs)
  for C06 C07 C08
func ScoredDocs.Less(docs, i, j) (r)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  pure better(scoresOf(docs[i].Scores), len(docs[i].Scores), scoresOf(docs[j].Scores), len(docs[j].Scores))
  loop 0
    invariant 0 <= iScore && iScore <= len(docs[i].Scores) && iScore <= len(docs[j].Scores)
    invariant forall k int :: 0 <= k < iScore ==> docs[i].Scores[k] == docs[j].Scores[k]
    decreases len(docs[i].Scores) - iScore
  hint at exit r ==> betterAt(scoresOf(docs[i].Scores), len(docs[i].Scores), scoresOf(docs[j].Scores), len(docs[j].Scores), iScore)
  hint at exit !r ==> sameTo(scoresOf(docs[i].Scores), scoresOf(docs[j].Scores), iScore) && (iScore < len(docs[i].Scores) && iScore < len(docs[j].Scores) ==> scoresOf(docs[i].Scores)[iScore] < scoresOf(docs[j].Scores)[iScore])
  for C06 C07 C08
func ScoredDocs.Swap(docs, i, j)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  modifies elems(docs)
  ensures row(docs) == old(row(docs))[off(docs) + i := old(docs[j])][off(docs) + j := old(docs[i])]
  for C06 C07 C08

func ScoredIDs.Len(docs) (n)
  pure len(docs)
  for C06 C07 C08
func ScoredIDs.Less(docs, i, j) (r)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  pure better(scoresOf(docs[i].Scores), len(docs[i].Scores), scoresOf(docs[j].Scores), len(docs[j].Scores))
  loop 0
    invariant 0 <= iScore && iScore <= len(docs[i].Scores) && iScore <= len(docs[j].Scores)
    invariant forall k int :: 0 <= k < iScore ==> docs[i].Scores[k] == docs[j].Scores[k]
    decreases len(docs[i].Scores) - iScore
  hint at exit r ==> betterAt(scoresOf(docs[i].Scores), len(docs[i].Scores), scoresOf(docs[j].Scores), len(docs[j].Scores), iScore)
  hint at exit !r ==> sameTo(scoresOf(docs[i].Scores), scoresOf(docs[j].Scores), iScore) && (iScore < len(docs[i].Scores) && iScore < len(docs[j].Scores) ==> scoresOf(docs[i].Scores)[iScore] < scoresOf(docs[j].Scores)[iScore])
  for C06 C07 C08
func ScoredIDs.Swap(docs, i, j)
  requires 0 <= i < len(docs) && 0 <= j < len(docs)
  modifies elems(docs)
  ensures row(docs) == old(row(docs))[off(docs) + i := old(docs[j])][off(docs) + j := old(docs[i])]
  for C06 C07 C08
