# What is stored is found again (C11): the store workers, start-up and the queries of the
# store. The engines themselves are C10; here a call of an engine is recorded with its
# arguments and results, and the gob encoding is an uninterpreted, trusted function.
package riot

function gobOf(d types.DocData) string
function gobData(s string) types.DocData
function gobOk(s string) bool
# what buffers and readers hold, where encoders write and decoders read, which are used up
ghost var $content lmap[int]string
ghost var $sink lmap[int]int
ghost var $used lmap[int]bool
ghost var $pairK string
ghost var $pairV string
ghost var $cb error

macro usedOk() = forall a int :: { $used[a] } $used[a] ==> allocated(a)
macro zeroData(d) = d.Content == "" && d.Attri == nil && d.Tokens == nil && d.Labels == nil && d.Fields == nil

func "encoding/gob.NewEncoder"(w) (enc)
  trusted "gob: an encoder writing to w"
  modifies $sink
  ensures fresh(enc) && (is("*bytes.Buffer", w) ==> $sink[ref(enc)] == ref(as("*bytes.Buffer", w)))

func "encoding/gob.Encoder.Encode"(enc, e) (err)
  trusted "gob: with an encoder and a buffer not used before, the buffer holds the encoding; the encoding is a function of the value"
  requires enc != nil
  modifies $content, $used
  ensures err == nil && is("types.DocData", e) && !old($used[ref(enc)]) && !old($used[$sink[ref(enc)]]) ==> $content[$sink[ref(enc)]] == gobOf(as("types.DocData", e))
  ensures forall a int :: { $used[a] } $used[a] == (old($used[a]) || a == ref(enc) || a == $sink[ref(enc)])

func "bytes.Buffer.Bytes"(b) (s)
  trusted "the content of the buffer"
  ensures str(s) == $content[ref(b)]

func "bytes.NewReader"(b) (r)
  trusted "a reader of the bytes"
  modifies $content
  ensures fresh(r) && $content[ref(r)] == str(b)
  ensures forall a int :: { $content[a] } a != ref(r) ==> $content[a] == old($content[a])

func "encoding/gob.NewDecoder"(r) (dec)
  trusted "gob: a decoder reading from r"
  modifies $sink
  ensures fresh(dec) && (is("*bytes.Reader", r) ==> $sink[ref(dec)] == ref(as("*bytes.Reader", r)))

func "encoding/gob.Decoder.Decode"(dec, e) (err)
  trusted "gob: decodes into a zero value what was encoded, or fails; fields that are not in the encoding are left alone"
  requires dec != nil
  modifies obj(as("*types.DocData", e))
  ensures err == nil <==> gobOk($content[$sink[ref(dec)]])
  ensures err == nil && is("*types.DocData", e) && old(zeroData(deref(as("*types.DocData", e)))) ==> deref(as("*types.DocData", e)) == gobData($content[$sink[ref(dec)]])

func "store.Store.ForEach"(s, fn) (err)
  trusted "the engines call fn with every stored pair until it fails (C10); here one arbitrary call is run, after any number of others"
  repeats fn(k, v) where str(k) == $pairK && str(v) == $pairV
  modifies $cb
  ensures $cb == $r

macro partsOk(e) = len(e.dbs) == e.initOptions.StoreShards && (forall s int :: { e.dbs[s] } 0 <= s < len(e.dbs) ==> e.dbs[s] != nil)

macro storeReq(e, s) = rcvd(e.storeIndexDocChans[s], old(rcvd(e.storeIndexDocChans[s])))

# one request: an addition sets the key in the partition of the worker, a removal deletes it
func Engine.storeIndexDoc(engine, shard)
  requires storeOk(engine) && partsOk(engine) && 0 <= shard < engine.initOptions.StoreShards && len(engine.storeIndexDocChans) == engine.initOptions.StoreShards && usedOk()
  modifies chans[storeIndexDocReq], engine.numDocsStored, engine.numDocsUnstored, $content, $sink, $used, calls "store.Store.Set", calls "store.Store.Delete", calls "encoding/gob.Encoder.Encode"
  step 0
  ensures [one; C11] rcvd(engine.storeIndexDocChans[shard]) == old(rcvd(engine.storeIndexDocChans[shard])) + 1
  ensures [set; C11] let q = storeReq(engine, shard) :: let n = old(called("store.Store.Set")) :: !q.remove ==>
    called("store.Store.Delete") == old(called("store.Store.Delete")) && (called("store.Store.Set") == n + 1 || called("store.Store.Set") == n && called("encoding/gob.Encoder.Encode") == old(called("encoding/gob.Encoder.Encode")) + 1 && called("encoding/gob.Encoder.Encode", old(called("encoding/gob.Encoder.Encode")), 2) != nil)
  ensures [pair; C11] let q = storeReq(engine, shard) :: let n = old(called("store.Store.Set")) :: called("store.Store.Set") != n ==>
    called("store.Store.Set", n, 0) == engine.dbs[shard] && str(called("store.Store.Set", n, 1)) == q.docId && str(called("store.Store.Set", n, 2)) == gobOf(q.data)
  ensures [delete; C11] let q = storeReq(engine, shard) :: let n = old(called("store.Store.Delete")) :: q.remove ==>
    called("store.Store.Set") == old(called("store.Store.Set")) && called("store.Store.Delete") == n + 1 && called("store.Store.Delete", n, 0) == engine.dbs[shard] && str(called("store.Store.Delete", n, 1)) == q.docId
  loop 0
    invariant [used; C11] usedOk()
  for C11

func Engine.storeRemoveDoc(engine, docId, shard)
  requires shard < len(engine.dbs) && engine.dbs[shard] != nil
  modifies calls "store.Store.Delete"
  ensures [delete; C11] let n = old(called("store.Store.Delete")) :: called("store.Store.Delete") == n + 1 && called("store.Store.Delete", n, 0) == engine.dbs[shard] && str(called("store.Store.Delete", n, 1)) == docId
  for C11

# start-up: every stored document that decodes is indexed under its id with its data
func Engine.storeInit(engine, shard)
  requires engine.initialized && storeOk(engine) && partsOk(engine) && 0 <= shard < engine.initOptions.StoreShards && engine.storeInitChan != nil && engine.segmenterChan != nil
  modifies chan(engine.segmenterChan), chan(engine.storeInitChan), engine.numIndexingReqs, engine.numForceUpdatingReqs, $content, $sink, $cb, calls "store.Store.ForEach"
  ensures [all; C11] let n = old(called("store.Store.ForEach")) :: called("store.Store.ForEach") == n + 1 && called("store.Store.ForEach", n, 0) == engine.dbs[shard]
  ensures [index; C11] if gobOk($pairV) then oneMore(engine.segmenterChan) && last(engine.segmenterChan).docId == $pairK && last(engine.segmenterChan).data == gobData($pairV) && last(engine.segmenterChan).hash == hashOf($pairK) else none(engine.segmenterChan)
  ensures [goOn; C11] $cb == nil
  ensures [done; C11] oneMore(engine.storeInitChan)
  for C11

func Engine.HasDocDB(engine, docId) (has)
  requires storeOk(engine) && partsOk(engine)
  modifies calls "store.Store.Has"
  ensures [has; C11] let n = old(called("store.Store.Has")) :: called("store.Store.Has") == n + 1 && called("store.Store.Has", n, 0) == engine.dbs[partOf(engine, docId)] && str(called("store.Store.Has", n, 1)) == docId && has == called("store.Store.Has", n, 2)
  for C11

func Engine.InitStore(engine)
  requires 0 <= engine.initOptions.StoreShards && engine.initOptions.StoreShards <= 65536
  modifies engine.storeIndexDocChans, engine.storeInitChan
  ensures [chans; C11] distinctChans(engine.storeIndexDocChans, engine.initOptions.StoreShards) && engine.storeInitChan != nil
  loop 0
    invariant 0 <= shard <= engine.initOptions.StoreShards && len(engine.storeIndexDocChans) == engine.initOptions.StoreShards && fresh(engine.storeIndexDocChans)
    invariant forall s int :: { engine.storeIndexDocChans[s] } 0 <= s < shard ==> fresh(engine.storeIndexDocChans[s]) && engine.storeIndexDocChans[s] != nil
    invariant forall s int, t int :: { engine.storeIndexDocChans[s], engine.storeIndexDocChans[t] } 0 <= s < shard && 0 <= t < shard && s != t ==> engine.storeIndexDocChans[s] != engine.storeIndexDocChans[t]
  for C11

function itoa(i int) string

func "strconv.Itoa"(i) (s)
  trusted "strconv.Itoa is a function of its argument"
  ensures s == itoa(i)

macro pathOf(e, s) = e.initOptions.StoreFolder + "/" + StoreFilePrefix + "." + itoa(s)
macro parts(e) = e.initOptions.StoreShards
macro opened(e, i, s) = called("store.OpenStore", i, 0) == pathOf(e, s) && allocated(arr(called("store.OpenStore", i, 1))) && len(called("store.OpenStore", i, 1)) == 1 && called("store.OpenStore", i, 1)[0] == e.initOptions.StoreEngine

# start: every partition is opened under its own path, recovered, opened again and served by its worker
func Engine.Store(engine)
  requires forall n string :: { store.supportedStore[n] } n in store.supportedStore ==> store.supportedStore[n] != nil
  requires engine.initialized && storeOk(engine) && usedOk() && engine.storeInitChan != nil && engine.segmenterChan != nil && len(engine.storeIndexDocChans) == parts(engine)
  fatal "the store folder cannot be made or a partition cannot be opened"
  modifies engine.dbs, chan(engine.storeInitChan), calls "store.OpenStore"
  ensures [parts; C11] partsOk(engine)
  ensures [opens; C11] let n = old(called("store.OpenStore")) :: called("store.OpenStore") == n + 2 * parts(engine) && (forall s int :: { engine.dbs[s] } 0 <= s < parts(engine) ==> opened(engine, n + s, s) && opened(engine, n + parts(engine) + s, s) && engine.dbs[s] == called("store.OpenStore", n + parts(engine) + s, 2))
  loop 0
    invariant [parts; C11] 0 <= shard && shard <= parts(engine) && len(engine.dbs) == parts(engine) && off(engine.dbs) == 0 && fresh(engine.dbs) && called("store.OpenStore") == before(called("store.OpenStore")) + shard
    invariant [opens; C11] let n = before(called("store.OpenStore")) :: forall s int :: { engine.dbs[s] } 0 <= s < shard ==> engine.dbs[s] != nil && opened(engine, n + s, s)
  loop 4
    invariant [parts; C11] 0 <= shard && shard <= parts(engine) && partsOk(engine) && off(engine.dbs) == 0 && fresh(engine.dbs) && called("store.OpenStore") == before(called("store.OpenStore")) + shard
    invariant [opens; C11] let n = before(called("store.OpenStore")) :: forall s int :: { engine.dbs[s] } 0 <= s < shard ==> opened(engine, n + s, s) && engine.dbs[s] == called("store.OpenStore", n + s, 2)
    invariant [first; C11] let m = old(called("store.OpenStore")) :: before(called("store.OpenStore")) == m + parts(engine) && (forall s int :: { engine.dbs[s] } 0 <= s < parts(engine) ==> opened(engine, m + s, s))
  loop 1
    invariant [shard; C11] 0 <= shard
  loop 5
    invariant [shard; C11] 0 <= shard
  for C11
