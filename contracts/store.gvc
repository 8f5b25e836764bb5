# The storage engines (C10). The libraries are described by trusted contracts over an
# abstract key-value map per database: $has[m] is the set of keys, $kv[m] their values,
# where m is the database (for bbolt: the bucket of a database with the given name).
# $lib marks byte arrays that belong to a library and may be reused or unmapped by it.
package store

ghost var $has lmap[int]lmap[string]bool
ghost var $kv lmap[int]lmap[string]string
ghost var $lib lmap[int]bool
ghost var $txdb lmap[int]int
ghost var $made lmap[int]bool
# a failure of the storage itself (a disk error, say)
ghost var $dbfail bool

# the iteration under way
ghost var $itn int
ghost var $itcur int
ghost var $itkey lmap[int]string
ghost var $itval lmap[int]string
ghost var $itidx lmap[string]int
ghost var $iterr error

# the calls of the callback so far
ghost var $nseen int
ghost var $seenK lmap[int]string
ghost var $seenV lmap[int]string
ghost var $cberr error

function bucketOf(db int, name string) int

macro libOk() = forall a int :: { $lib[a] } $lib[a] ==> 0 < a && allocated(a)
macro itOk(m) = 0 <= $itn && (forall i int :: { $itkey[i] } 0 <= i < $itn ==> $has[m][$itkey[i]] && $itval[i] == $kv[m][$itkey[i]] && $itidx[$itkey[i]] == i)
  && (forall k string :: { $has[m][k] } { $itidx[k] } $has[m][k] ==> 0 <= $itidx[k] && $itidx[k] < $itn && $itkey[$itidx[k]] == k)
macro seenIs(n) = $nseen == n && $cberr == nil && (forall i int :: { $seenK[i] } { $seenV[i] } 0 <= i < n ==> $seenK[i] == $itkey[i] && $seenV[i] == $itval[i])

# what the engines promise, m being the map behind the engine
macro setsKey(m, k, v) = forall n string :: { $has[m][n] } $has[m][n] == (n == str(k) || old($has[m][n]))
macro setsVal(m, k, v) = forall n string :: { $kv[m][n] } $kv[m][n] == (if n == str(k) then str(v) else old($kv[m][n]))
macro deletesKey(m, k) = forall n string :: { $has[m][n] } $has[m][n] == (n != str(k) && old($has[m][n]))
macro keepsVals(m, k) = forall n string :: { $kv[m][n] } n != str(k) ==> $kv[m][n] == old($kv[m][n])
macro others(m) = forall o int :: { $has[o] } { $kv[o] } o != m ==> $has[o] == old($has[o]) && $kv[o] == old($kv[o])
macro visited(m) = forall i int :: { $seenK[i] } { $seenV[i] } 0 <= i < $nseen ==> $has[m][$seenK[i]] && $seenV[i] == $kv[m][$seenK[i]] && $itidx[$seenK[i]] == i
macro visitedAll(m) = forall k string :: { $has[m][k] } $has[m][k] ==> 0 <= $itidx[k] && $itidx[k] < $nseen && $seenK[$itidx[k]] == k && $seenV[$itidx[k]] == $kv[m][k]

func "store.fn()"(k, v) (err)
  trusted "the callback of ForEach: its calls are recorded; it keeps what it is given"
  requires [stop; C10] $cberr == nil
  requires [valid; C10] !$lib[arr(k)] && !$lib[arr(v)]
  modifies $nseen, $seenK, $seenV, $cberr
  ensures $nseen == old($nseen) + 1 && $cberr == err
  ensures $seenK[old($nseen)] == str(k) && $seenV[old($nseen)] == str(v)
  ensures forall i int :: { $seenK[i] } { $seenV[i] } i != old($nseen) ==> $seenK[i] == old($seenK[i]) && $seenV[i] == old($seenV[i])

# ---------- leveldb

func "github.com/syndtr/goleveldb/leveldb.DB.Put"(db, k, v, wo) (err)
  trusted "leveldb: sets the key, or fails"
  modifies $has, $kv
  ensures others(ref(db))
  ensures err == nil ==> setsKey(ref(db), k, v) && setsVal(ref(db), k, v)
  ensures err != nil ==> $has[ref(db)] == old($has[ref(db)]) && $kv[ref(db)] == old($kv[ref(db)])

func "github.com/syndtr/goleveldb/leveldb.DB.Get"(db, k, ro) (b, err)
  trusted "leveldb: a copy of the value, or an error"
  ensures err == nil ==> $has[ref(db)][str(k)] && str(b) == $kv[ref(db)][str(k)]
  ensures err != nil ==> len(b) == 0
  ensures !$lib[arr(b)]

func "github.com/syndtr/goleveldb/leveldb.DB.Has"(db, k, ro) (r, err)
  trusted "leveldb: whether the key is set, or an error"
  ensures err == nil ==> (r <==> $has[ref(db)][str(k)])
  ensures err != nil ==> !r && $dbfail

func "github.com/syndtr/goleveldb/leveldb.DB.Delete"(db, k, wo) (err)
  trusted "leveldb: deletes the key, or fails"
  modifies $has, $kv
  ensures others(ref(db))
  ensures err == nil ==> deletesKey(ref(db), k) && keepsVals(ref(db), k)
  ensures err != nil ==> $has[ref(db)] == old($has[ref(db)]) && $kv[ref(db)] == old($kv[ref(db)])

func "github.com/syndtr/goleveldb/leveldb.DB.NewIterator"(db, slice, ro) (it)
  trusted "leveldb: an iterator over a snapshot of the whole database when no range is given"
  modifies $itn, $itcur, $itkey, $itval, $itidx, $iterr
  ensures it != nil && $itcur == 0 - 1
  ensures slice == nil ==> itOk(ref(db))

func "github.com/syndtr/goleveldb/leveldb/iterator.Iterator.Next"(it) (r)
  trusted "leveldb: moves on; false at the end or after an error"
  modifies $itcur, $iterr
  ensures r ==> $itcur == old($itcur) + 1 && $itcur < $itn && $iterr == old($iterr)
  ensures !r ==> $itcur == old($itcur) && ($itcur + 1 == $itn || $iterr != nil)

func "github.com/syndtr/goleveldb/leveldb/iterator.Iterator.Key"(it) (k)
  trusted "leveldb: the current key, valid until the next move"
  modifies $lib
  ensures str(k) == $itkey[$itcur] && $lib[arr(k)] && (fresh(arr(k)) || old($lib[arr(k)]))
  ensures forall a int :: { $lib[a] } a != arr(k) ==> $lib[a] == old($lib[a])

func "github.com/syndtr/goleveldb/leveldb/iterator.Iterator.Value"(it) (v)
  trusted "leveldb: the current value, valid until the next move"
  modifies $lib
  ensures str(v) == $itval[$itcur] && $lib[arr(v)] && (fresh(arr(v)) || old($lib[arr(v)]))
  ensures forall a int :: { $lib[a] } a != arr(v) ==> $lib[a] == old($lib[a])

func "github.com/syndtr/goleveldb/leveldb/iterator.Iterator.Error"(it) (err)
  trusted "leveldb: the error that ended the iteration"
  ensures err == $iterr

func Leveldb.Set(s, k, v) (err)
  requires s != nil
  modifies $has, $kv
  ensures [set; C10] err == nil ==> setsKey(ref(s.db), k, v) && setsVal(ref(s.db), k, v)
  ensures [others; C10] others(ref(s.db))
  for C10

func Leveldb.Get(s, k) (b, err)
  requires s != nil
  ensures [value; C10] err == nil && $has[ref(s.db)][str(k)] ==> str(b) == $kv[ref(s.db)][str(k)]
  ensures [missing; C10] !$has[ref(s.db)][str(k)] ==> len(b) == 0
  ensures [own; C10] !$lib[arr(b)]
  for C10

func Leveldb.Delete(s, k) (err)
  requires s != nil
  modifies $has, $kv
  ensures [delete; C10] err == nil ==> deletesKey(ref(s.db), k) && keepsVals(ref(s.db), k)
  ensures [others; C10] others(ref(s.db))
  for C10

func Leveldb.Has(s, k) (r, err)
  requires s != nil
  ensures [has; C10] err == nil ==> (r <==> $has[ref(s.db)][str(k)])
  ensures [missing; C10] !$has[ref(s.db)][str(k)] && !$dbfail ==> err == nil
  for C10

func Leveldb.ForEach(s, fn) (err)
  requires s != nil && fn != nil && libOk() && $nseen == 0 && $cberr == nil
  modifies $itn, $itcur, $itkey, $itval, $itidx, $iterr, $nseen, $seenK, $seenV, $cberr, $lib
  ensures [pairs; C10] visited(ref(s.db))
  ensures [all; C10] err == nil ==> visitedAll(ref(s.db))
  ensures [error; C10] $cberr != nil ==> err == $cberr
  loop 0
    invariant [lib; C10] libOk()
    invariant [it; C10] itOk(ref(s.db)) && -1 <= $itcur && $itcur < $itn
    invariant [seen; C10] seenIs($itcur + 1)
  for C10

# ---------- bbolt

func "go.etcd.io/bbolt.DB.View"(db, fn) (err)
  trusted "bbolt: runs fn in a read-only transaction and returns its error"
  runs fn(tx) where $txdb[ref(tx)] == ref(db)
  ensures err == $r

func "go.etcd.io/bbolt.DB.Update"(db, fn) (err)
  trusted "bbolt: runs fn in a transaction; without an error it is committed (or the commit fails), with an error it is rolled back"
  runs fn(tx) where $txdb[ref(tx)] == ref(db)
  modifies $has, $kv, $made
  ensures $r != nil ==> err == $r
  ensures err == nil ==> $r == nil && $has == old($has) && $kv == old($kv) && $made == old($made)
  ensures err != nil ==> $has == before($has) && $kv == before($kv) && $made == before($made)

func "go.etcd.io/bbolt.Tx.Bucket"(tx, name) (b)
  trusted "bbolt: the bucket, nil when it does not exist"
  ensures $made[bucketOf($txdb[ref(tx)], str(name))] ==> ref(b) == bucketOf($txdb[ref(tx)], str(name)) && b != nil
  ensures !$made[bucketOf($txdb[ref(tx)], str(name))] ==> b == nil

func "go.etcd.io/bbolt.Tx.CreateBucketIfNotExists"(tx, name) (b, err)
  trusted "bbolt: the bucket exists afterwards, or it fails"
  modifies $made
  ensures err == nil ==> ref(b) == bucketOf($txdb[ref(tx)], str(name)) && b != nil && $made[ref(b)]
  ensures forall o int :: { $made[o] } o != bucketOf($txdb[ref(tx)], str(name)) ==> $made[o] == old($made[o])

func "go.etcd.io/bbolt.Bucket.Put"(b, k, v) (err)
  trusted "bbolt: sets the key, or fails"
  requires b != nil
  modifies $has, $kv
  ensures others(ref(b))
  ensures err == nil ==> setsKey(ref(b), k, v) && setsVal(ref(b), k, v)
  ensures err != nil ==> $has[ref(b)] == old($has[ref(b)]) && $kv[ref(b)] == old($kv[ref(b)])

func "go.etcd.io/bbolt.Bucket.Get"(b, k) (v)
  trusted "bbolt: the value, valid within the transaction; nil when the key is not set"
  requires b != nil
  modifies $lib
  ensures (v != nil) <==> $has[ref(b)][str(k)]
  ensures v != nil ==> str(v) == $kv[ref(b)][str(k)] && $lib[arr(v)] && (fresh(arr(v)) || old($lib[arr(v)]))
  ensures forall a int :: { $lib[a] } v == nil || a != arr(v) ==> $lib[a] == old($lib[a])

func "go.etcd.io/bbolt.Bucket.Delete"(b, k) (err)
  trusted "bbolt: deletes the key, or fails"
  requires b != nil
  modifies $has, $kv
  ensures others(ref(b))
  ensures err == nil ==> deletesKey(ref(b), k) && keepsVals(ref(b), k)
  ensures err != nil ==> $has[ref(b)] == old($has[ref(b)]) && $kv[ref(b)] == old($kv[ref(b)])

func "go.etcd.io/bbolt.Bucket.Cursor"(b) (c)
  trusted "bbolt: a cursor over the bucket (of keys and values only)"
  requires b != nil
  modifies $itn, $itkey, $itval, $itidx
  ensures c != nil && itOk(ref(b))

func "go.etcd.io/bbolt.Cursor.First"(c) (k, v)
  trusted "bbolt: the first pair, valid within the transaction"
  requires c != nil
  modifies $itcur, $lib
  ensures $itcur == 0 && ((k != nil) <==> $itcur < $itn)
  ensures k != nil ==> str(k) == $itkey[$itcur] && str(v) == $itval[$itcur] && $lib[arr(k)] && $lib[arr(v)] && (fresh(arr(k)) || old($lib[arr(k)])) && (fresh(arr(v)) || old($lib[arr(v)]))
  ensures forall a int :: { $lib[a] } a != arr(k) && a != arr(v) ==> $lib[a] == old($lib[a])
  ensures libOk()

func "go.etcd.io/bbolt.Cursor.Next"(c) (k, v)
  trusted "bbolt: the next pair, valid within the transaction; a nil key at the end"
  requires c != nil
  modifies $itcur, $lib
  ensures $itcur == old($itcur) + 1 && ((k != nil) <==> $itcur < $itn)
  ensures k != nil ==> str(k) == $itkey[$itcur] && str(v) == $itval[$itcur] && $lib[arr(k)] && $lib[arr(v)] && (fresh(arr(k)) || old($lib[arr(k)])) && (fresh(arr(v)) || old($lib[arr(v)]))
  ensures forall a int :: { $lib[a] } a != arr(k) && a != arr(v) ==> $lib[a] == old($lib[a])
  ensures libOk()

macro boltMap(s) = bucketOf(ref(s.db), str(gdocs))

func Bolt.Set(s, k, v) (err)
  requires s != nil && $made[boltMap(s)]
  modifies $has, $kv, $made
  ensures [set; C10] err == nil ==> setsKey(boltMap(s), k, v) && setsVal(boltMap(s), k, v)
  ensures [others; C10] others(boltMap(s)) && $made == old($made)
  for C10

func Bolt.Get(s, k) (b, err)
  requires s != nil && $made[boltMap(s)] && libOk()
  modifies $lib
  ensures [value; C10] err == nil && $has[boltMap(s)][str(k)] ==> str(b) == $kv[boltMap(s)][str(k)]
  ensures [missing; C10] !$has[boltMap(s)][str(k)] ==> len(b) == 0
  ensures [own; C10] !$lib[arr(b)]
  for C10

func Bolt.Delete(s, k) (err)
  requires s != nil && $made[boltMap(s)]
  modifies $has, $kv, $made
  ensures [delete; C10] err == nil ==> deletesKey(boltMap(s), k) && keepsVals(boltMap(s), k)
  ensures [others; C10] others(boltMap(s)) && $made == old($made)
  for C10

func Bolt.Has(s, k) (r, err)
  requires s != nil && $made[boltMap(s)]
  modifies $lib
  ensures [has; C10] err == nil && (r <==> $has[boltMap(s)][str(k)])
  for C10

func Bolt.ForEach(s, fn) (err)
  requires s != nil && fn != nil && libOk() && $nseen == 0 && $cberr == nil && $made[boltMap(s)]
  modifies $itn, $itcur, $itkey, $itval, $itidx, $nseen, $seenK, $seenV, $cberr, $lib
  ensures [pairs; C10] visited(boltMap(s))
  ensures [all; C10] err == nil ==> visitedAll(boltMap(s))
  ensures [error; C10] $cberr != nil ==> err == $cberr
  loop 0
    invariant [lib; C10] libOk()
    invariant [it; C10] itOk(boltMap(s)) && 0 <= $itcur && $itcur <= $itn
    invariant [pair; C10] ((k != nil) <==> $itcur < $itn) && (k != nil ==> str(k) == $itkey[$itcur] && str(v) == $itval[$itcur])
    invariant [seen; C10] seenIs($itcur)
  for C10

# ---------- badger

func "github.com/dgraph-io/badger.DB.View"(db, fn) (err)
  trusted "badger: runs fn in a read-only transaction and returns its error"
  runs fn(tx) where $txdb[ref(tx)] == ref(db)
  ensures err == $r

func "github.com/dgraph-io/badger.DB.Update"(db, fn) (err)
  trusted "badger: runs fn in a transaction; without an error it is committed (or the commit fails), with an error it is discarded"
  runs fn(tx) where $txdb[ref(tx)] == ref(db)
  modifies $has, $kv
  ensures $r != nil ==> err == $r
  ensures err == nil ==> $r == nil && $has == old($has) && $kv == old($kv)
  ensures err != nil ==> $has == before($has) && $kv == before($kv)

func "github.com/dgraph-io/badger.Txn.Set"(tx, k, v) (err)
  trusted "badger: sets the key, or fails"
  modifies $has, $kv
  ensures others($txdb[ref(tx)])
  ensures err == nil ==> setsKey($txdb[ref(tx)], k, v) && setsVal($txdb[ref(tx)], k, v)
  ensures err != nil ==> $has[$txdb[ref(tx)]] == old($has[$txdb[ref(tx)]]) && $kv[$txdb[ref(tx)]] == old($kv[$txdb[ref(tx)]])

func "github.com/dgraph-io/badger.Txn.Delete"(tx, k) (err)
  trusted "badger: deletes the key, or fails"
  modifies $has, $kv
  ensures others($txdb[ref(tx)])
  ensures err == nil ==> deletesKey($txdb[ref(tx)], k) && keepsVals($txdb[ref(tx)], k)
  ensures err != nil ==> $has[$txdb[ref(tx)]] == old($has[$txdb[ref(tx)]]) && $kv[$txdb[ref(tx)]] == old($kv[$txdb[ref(tx)]])

transparent "github.com/dgraph-io/badger.IteratorOptions"

ghost var $itemKey lmap[int]string
ghost var $itemVal lmap[int]string

func "github.com/dgraph-io/badger.Txn.Get"(tx, k) (item, err)
  trusted "badger: the item of the key, ErrKeyNotFound when it is not set, or another error"
  modifies $itemKey, $itemVal
  ensures err == nil ==> item != nil && $has[$txdb[ref(tx)]][str(k)] && $itemKey[ref(item)] == str(k) && $itemVal[ref(item)] == $kv[$txdb[ref(tx)]][str(k)]
  ensures err == badger.ErrKeyNotFound ==> !$has[$txdb[ref(tx)]][str(k)]
  ensures !$has[$txdb[ref(tx)]][str(k)] && !$dbfail ==> err == badger.ErrKeyNotFound

func "github.com/dgraph-io/badger.Item.Key"(item) (k)
  trusted "badger: the key, valid until the iterator moves"
  requires item != nil
  modifies $lib
  ensures str(k) == $itemKey[ref(item)] && $lib[arr(k)] && (fresh(arr(k)) || old($lib[arr(k)]))
  ensures forall a int :: { $lib[a] } a != arr(k) ==> $lib[a] == old($lib[a])

func "github.com/dgraph-io/badger.Item.KeyCopy"(item, dst) (k)
  trusted "badger: a copy of the key, in dst when it is large enough"
  requires item != nil && dst == nil
  ensures str(k) == $itemKey[ref(item)] && !$lib[arr(k)]

func "github.com/dgraph-io/badger.Item.ValueCopy"(item, dst) (v, err)
  trusted "badger: a copy of the value, in dst when it is large enough, or an error"
  requires item != nil && dst == nil
  ensures err == nil ==> str(v) == $itemVal[ref(item)]
  ensures err != nil ==> err != badger.ErrKeyNotFound
  ensures !$lib[arr(v)]

func "github.com/dgraph-io/badger.Txn.NewIterator"(tx, opt) (it)
  trusted "badger: an iterator over all keys, without prefix and older versions"
  modifies $itn, $itkey, $itval, $itidx
  ensures it != nil
  ensures len(opt.Prefix) == 0 && !opt.AllVersions ==> itOk($txdb[ref(tx)])

func "github.com/dgraph-io/badger.Iterator.Rewind"(it)
  trusted "badger: starts the iteration"
  requires it != nil
  modifies $itcur, $itemKey, $itemVal
  ensures $itcur == 0

func "github.com/dgraph-io/badger.Iterator.Valid"(it) (r)
  trusted "badger: whether there is a current item"
  requires it != nil
  ensures r <==> $itcur < $itn

func "github.com/dgraph-io/badger.Iterator.Next"(it)
  trusted "badger: moves on; the item handed out before is reused"
  requires it != nil
  modifies $itcur, $itemKey, $itemVal
  ensures $itcur == old($itcur) + 1

func "github.com/dgraph-io/badger.Iterator.Item"(it) (item)
  trusted "badger: the current item, valid until the iterator moves"
  requires it != nil && $itcur < $itn
  modifies $itemKey, $itemVal
  ensures item != nil && $itemKey[ref(item)] == $itkey[$itcur] && $itemVal[ref(item)] == $itval[$itcur]

macro badgerOk() = badger.ErrKeyNotFound != nil && len(badger.DefaultIteratorOptions.Prefix) == 0 && !badger.DefaultIteratorOptions.AllVersions

func Badger.Set(s, k, v) (err)
  requires s != nil
  modifies $has, $kv
  ensures [set; C10] err == nil ==> setsKey(ref(s.db), k, v) && setsVal(ref(s.db), k, v)
  ensures [others; C10] others(ref(s.db))
  for C10

func Badger.Get(s, k) (b, err)
  requires s != nil && badgerOk() && libOk()
  modifies $itemKey, $itemVal
  ensures [value; C10] err == nil && $has[ref(s.db)][str(k)] ==> str(b) == $kv[ref(s.db)][str(k)]
  ensures [missing; C10] !$has[ref(s.db)][str(k)] ==> len(b) == 0
  ensures [errors; C10] (err == nil ==> $has[ref(s.db)][str(k)]) && (err == badger.ErrKeyNotFound ==> !$has[ref(s.db)][str(k)]) && (!$has[ref(s.db)][str(k)] && !$dbfail ==> err == badger.ErrKeyNotFound)
  ensures [own; C10] !$lib[arr(b)]
  for C10

func Badger.Delete(s, k) (err)
  requires s != nil
  modifies $has, $kv
  ensures [delete; C10] err == nil ==> deletesKey(ref(s.db), k) && keepsVals(ref(s.db), k)
  ensures [others; C10] others(ref(s.db))
  for C10

func Badger.Has(s, k) (r, err)
  requires s != nil && badgerOk() && libOk()
  modifies $itemKey, $itemVal
  ensures [has; C10] err == nil ==> (r <==> $has[ref(s.db)][str(k)])
  ensures [missing; C10] !$has[ref(s.db)][str(k)] && !$dbfail ==> err == nil
  for C10

func Badger.ForEach(s, fn) (err)
  requires s != nil && fn != nil && badgerOk() && libOk() && $nseen == 0 && $cberr == nil
  modifies $itn, $itcur, $itkey, $itval, $itidx, $itemKey, $itemVal, $nseen, $seenK, $seenV, $cberr, $lib
  ensures [pairs; C10] visited(ref(s.db))
  ensures [all; C10] err == nil ==> visitedAll(ref(s.db))
  ensures [error; C10] $cberr != nil ==> err == $cberr
  loop 0
    invariant [lib; C10] libOk()
    invariant [it; C10] itOk(ref(s.db)) && 0 <= $itcur && $itcur <= $itn
    invariant [seen; C10] seenIs($itcur)
  for C10

# ---------- opening

ghost var $path lmap[int]string
ghost var $storeEnv string

func "github.com/syndtr/goleveldb/leveldb.OpenFile"(path, o) (db, err)
  trusted "leveldb: the database in the directory, or an error"
  modifies $path
  ensures err == nil ==> db != nil && $path[ref(db)] == path

func "github.com/dgraph-io/badger.DefaultOptions"(path) (o)
  trusted "badger: the default options for the directory"
  ensures o.Dir == path && o.ValueDir == path

func "github.com/dgraph-io/badger.Open"(o) (db, err)
  trusted "badger: the database in the directory, or an error"
  modifies $path
  ensures err == nil ==> db != nil && (o.Dir == o.ValueDir ==> $path[ref(db)] == o.Dir)

transparent "github.com/dgraph-io/badger.Options"
transparent "go.etcd.io/bbolt.Options"

func "go.etcd.io/bbolt.Open"(path, mode, o) (db, err)
  trusted "bbolt: the database in the file, or an error"
  modifies $path
  ensures err == nil ==> db != nil && $path[ref(db)] == path

func "os.Getenv"(key) (v)
  trusted "the environment"
  ensures key == "Riot_Store_Engine" ==> v == $storeEnv

func OpenLeveldb(dbPath) (s, err)
  modifies $path
  ensures [open; C10] err == nil ==> is("*Leveldb", s) && as("*Leveldb", s) != nil && as("*Leveldb", s).db != nil && $path[ref(as("*Leveldb", s).db)] == dbPath
  ensures [error; C10] err != nil ==> s == nil
  for C10

func OpenBadger(dbPath) (s, err)
  modifies $path
  ensures [open; C10] err == nil ==> is("*Badger", s) && as("*Badger", s) != nil && as("*Badger", s).db != nil && $path[ref(as("*Badger", s).db)] == dbPath
  ensures [error; C10] err != nil ==> s == nil
  for C10

func OpenBolt(dbPath) (s, err)
  modifies $path, $made, $has, $kv
  ensures [open; C10] err == nil ==> is("*Bolt", s) && as("*Bolt", s) != nil && as("*Bolt", s).db != nil && $path[ref(as("*Bolt", s).db)] == dbPath
  ensures [bucket; C10] err == nil ==> $made[boltMap(as("*Bolt", s))]
  ensures [error; C10] err != nil ==> s == nil
  ensures [keep; C10] $has == old($has) && $kv == old($kv)
  for C10

func init()
  requires !init$guard
  ensures [engines; C10] supportedStore["ldb"] == OpenLeveldb && supportedStore["bg"] == OpenBadger && supportedStore["bolt"] == OpenBolt
  ensures [only; C10] forall n string :: { n in supportedStore } n in supportedStore <==> n == "ldb" || n == "bg" || n == "bolt"
  for C10

func RegisterStore(name, fn)
  requires supportedStore != nil
  modifies map(supportedStore)
  ensures [known; C10] name in supportedStore && supportedStore[name] == fn
  ensures [others; C10] forall n string :: { n in supportedStore } n != name ==> (n in supportedStore <==> old(n in supportedStore)) && supportedStore[n] == old(supportedStore[n])
  for C10

macro engineName(args) = if len(args) > 0 && args[0] != "" then args[0] else if $storeEnv != "" then $storeEnv else "ldb"

func OpenStore(path, args) (s, err)
  requires forall n string :: { supportedStore[n] } n in supportedStore ==> supportedStore[n] != nil
  ensures [unknown; C10] !(engineName(args) in supportedStore) ==> err != nil && s == nil && called("fn") == old(called("fn"))
  ensures [known; C10] engineName(args) in supportedStore ==> called("fn") == old(called("fn")) + 1 && called("fn", old(called("fn")), 0) == path && called("fn", old(called("fn")), 1) == supportedStore[engineName(args)]
  ensures [result; C10] engineName(args) in supportedStore ==> s == called("fn", old(called("fn")), 2) && err == called("fn", old(called("fn")), 3)
  for C10
