package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is *Term, *Addr, *Closure, Tuple or *Iter
type Value interface{}

type Tuple []Value

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
}

type Iter struct {
	M     *Term
	Map   *types.Map
	Vis   string // cell key of the visited set
	Dom0  *Term
	Str   bool
	StrT  *Term
	Index string
}

// Addr is an lvalue.
type Addr struct {
	Kind byte // c cell, f heap field of object, e slice/array element, b box, g global
	Cell string
	Ref  *Term
	Root types.Type
	HP   string // heap path for f
	Arr  *Term
	Idx  *Term
	Elem types.Type
	Path []string // path inside the stored value
	Typ  types.Type
	Base types.Type // type of the stored base value (c, e, b, g)
}

type Fact struct {
	seq  int
	lab  string // name of the clause it comes from
	t    *Term
	node *Node
}

type Node struct {
	id    int
	preds []*Node
	edges []*Term // edge literals (one per pred), nil for the root
	guard *Term
	facts []Fact
	idom  *Node
	depth int
	dead  bool
}

type Obligation struct {
	Fn      string
	Kind    string // post pre inv-entry inv-keep frame nil bounds ...
	Name    string
	Tags    []string
	Pos     string
	Src     string
	Node    *Node
	Seq     int
	By      []string
	Goal    *Term
	Entry   *State
	Ex      *Exec
	Result  string
	Solver  string
	Ms      int64
	Detail  string
	parts   []*Term
	texts   [][]string
	axLimit int
}

type State struct {
	m map[string]Value
}

func (s *State) clone() *State {
	n := &State{m: make(map[string]Value, len(s.m))}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Frame struct {
	id     int
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	cells  []*ssa.Alloc // in execution order
	parent *Frame
	defers []*deferred
	binds  []Value
	closN  int
	top    bool
	loops  map[*ssa.BasicBlock]*loopInfo
	lnum   map[*ssa.BasicBlock]int
}

type deferred struct {
	call  *ssa.CallCommon
	block *ssa.BasicBlock
	args  []Value
	fnv   Value
	instr *ssa.Defer
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type heapInfo struct {
	sort string
	kind byte
	typ  types.Type // leaf type
}

type modPred func(ref *Term) *Term

type Exec struct {
	label   string   // of the facts being added
	by      []string // facts the obligation being stated is proved from
	v       *Verifier
	fn      *ssa.Function
	con     *Contract
	name    string
	nodes   []*Node
	cur     *Node
	st      *State
	seq     int
	obls    []*Obligation
	entry   *State
	params  map[string]TV
	pnames  []string
	dry     bool
	writes  map[string]bool
	frameN  int
	frame   *Frame
	mods    map[string][]modPred
	loopCnt int
	loopSt  []*loopCtx
	proven  map[string]bool
	entryNx *Term
	root    *Node
	grefs   []*Term
	calls   []string
	assumed map[string]bool
	callCnt map[string]int
	depth   int
	decr0   *Term
	results []TV
	exitN   int
	vacuity []*Vac
	panicOk bool
	ghostIt int
	stepSt  *State
	stepped bool
}

type Vac struct {
	Name string
	Node *Node
	Seq  int
}

type loopCtx struct {
	before *State
	header *State
	spec   *LoopSpec
	idx    func() *Term
	vis    *Iter
	decr   *Term
	num    int
}

type unsupported struct{ msg string }

func (x *Exec) unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// ---------- nodes and facts

func (x *Exec) newNode(preds []*Node, conds []*Term) *Node {
	n := &Node{id: len(x.nodes), preds: preds}
	x.nodes = append(x.nodes, n)
	if len(preds) == 0 {
		n.guard = tTrue
		return n
	}
	n.guard = constT(fmt.Sprintf("g@%s@%d", sanitize(x.name), n.id), sBool)
	var es []*Term
	for i, p := range preds {
		e := n.guard
		if len(preds) > 1 {
			e = constT(fmt.Sprintf("e@%s@%d@%d", sanitize(x.name), n.id, i), sBool)
		}
		es = append(es, e)
		x.addFact(n, implies(e, and(p.guard, conds[i])), true)
	}
	n.edges = es
	if len(preds) > 1 {
		x.addFact(n, implies(n.guard, or(es...)), true)
	}
	// dominator
	d := preds[0]
	for _, p := range preds[1:] {
		d = commonDom(d, p)
	}
	n.idom = d
	n.depth = d.depth + 1
	return n
}

func commonDom(a, b *Node) *Node {
	for a != b {
		if a.depth >= b.depth {
			a = a.idom
		} else {
			b = b.idom
		}
	}
	return a
}

func (n *Node) dominates(m *Node) bool {
	for m != nil && m.depth > n.depth {
		m = m.idom
	}
	return m == n
}

func (x *Exec) addFact(n *Node, t *Term, raw bool) {
	if x.dry || t.Op == "true" {
		return
	}
	if len(t.bound) > 0 {
		panic("fact with free bound variable: " + t.String())
	}
	x.seq++
	f := Fact{seq: x.seq, t: t, lab: x.label}
	if raw {
		f.node = nil
	} else {
		f.node = n
	}
	n.facts = append(n.facts, f)
}

// assume adds a fact at the current point.
func (x *Exec) assume(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			x.assume(a)
		}
		return
	}
	x.addFact(x.cur, t, false)
}

// assumeAs adds a fact with the name of the clause it comes from.
func (x *Exec) assumeAs(label string, t *Term) {
	saved := x.label
	x.label = label
	x.assume(t)
	x.label = saved
}

// clauseLabel is the name of the clause in the name of an obligation.
func clauseLabel(name string) string {
	if i := strings.LastIndexByte(name, ' '); i >= 0 {
		name = name[i+1:]
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		name = name[:i]
	}
	return name
}

// obligeBy states the obligation of a clause, to be proved from the facts it names.
func (x *Exec) obligeBy(kind, name string, c *Clause, pos token.Pos, goal *Term) {
	x.by = c.By
	x.oblige(kind, name, c.Tags, pos, c.Src, goal)
	x.by = nil
}

func (x *Exec) oblige(kind, name string, tags []string, pos token.Pos, src string, goal *Term) {
	if x.dry {
		return
	}
	if goal.Op == "and" && (kind == "post" || kind == "pre" || strings.HasPrefix(kind, "inv") || kind == "hint" || kind == "lemma") {
		for i, g := range goal.Args {
			x.oblige(kind, fmt.Sprintf("%s.%d", name, i), tags, pos, src, g)
		}
		return
	}
	if goal.Op == "true" {
		return
	}
	key := fmt.Sprint(goal.id)
	// skip when the same goal is already a fact at a dominating node
	for n := x.cur; n != nil; n = n.idom {
		if x.proven[fmt.Sprintf("%d/%s/%s", n.id, key, tagKey(kind, tags))] {
			return
		}
	}
	x.proven[fmt.Sprintf("%d/%s/%s", x.cur.id, key, tagKey(kind, tags))] = true
	x.seq++
	o := &Obligation{Fn: x.name, Kind: kind, Name: name, Tags: tags, Pos: x.v.pos(pos), Src: src, Node: x.cur, Seq: x.seq, Goal: goal, Ex: x, By: x.by}
	x.obls = append(x.obls, o)
	x.assumeAs(clauseLabel(name), goal)
}

// hint proves an expression and assumes its form as a fact.
func (x *Exec) hint(name string, c *Clause, pos token.Pos, env *Env) {
	g := x.specBool(env, c.E, true)
	x.obligeBy("hint", name, c, pos, g)
	if f := x.specBool(env, c.E, false); f != g {
		x.assumeAs(clauseLabel(name), f)
	}
}

func tagKey(kind string, tags []string) string {
	return strings.Join(tags, ",")
}

// ---------- heaps

func (x *Exec) heap(st *State, key string) *Term {
	if v, ok := st.m[key]; ok {
		return v.(*Term)
	}
	hi, ok := x.v.heaps[key]
	if !ok {
		panic("unknown heap " + key)
	}
	t := constT(sanitize(key)+"@0", hi.sort)
	if !x.v.initDone[key] {
		x.v.initDone[key] = true
		// well-formedness of the initial heap
		if w := x.heapWF(key, t, constT("next@0", sInt)); w != nil {
			x.v.initFacts[t.Op] = w
		}
	}
	return t
}

func (x *Exec) regHeap(key, srt string, kind byte, typ types.Type) string {
	if _, ok := x.v.heaps[key]; !ok {
		x.v.heaps[key] = &heapInfo{srt, kind, typ}
	}
	return key
}

func (x *Exec) setHeap(key string, t *Term) {
	if x.writes != nil {
		x.writes[key] = true
	}
	if t.size > 12 && t.Op == "store" {
		n := fresh(heapBase(key), t.Sort)
		x.assume(eq(n, t))
		t = n
	}
	x.st.m[key] = t
}

func heapBase(key string) string { return sanitize(key) }

func (x *Exec) fieldKey(root types.Type, path string, leafT types.Type) string {
	key := "F:" + typeName(root) + path
	return x.regHeap(key, arrSort(sInt, sortOf(leafT)), 'F', leafT)
}

func (x *Exec) elemKey(elem types.Type) string {
	return x.regHeap("E:"+typeName(types.Unalias(elem)), arrSort(sInt, arrSort(sInt, sortOf(elem))), 'E', elem)
}
func (x *Exec) boxKey(t types.Type) string {
	return x.regHeap("B:"+typeName(t), arrSort(sInt, sortOf(t)), 'B', t)
}
func (x *Exec) mapKeys(m *types.Map) (string, string) {
	n := typeName(m.Key()) + "->" + typeName(m.Elem())
	return x.regHeap("MD:"+n, arrSort(sInt, arrSort(sortOf(m.Key()), sBool)), 'D', m),
		x.regHeap("MV:"+n, arrSort(sInt, arrSort(sortOf(m.Key()), sortOf(m.Elem()))), 'V', m)
}

func (x *Exec) globalKey(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	p := "?"
	if g.Pkg != nil {
		p = pkgRel(g.Pkg.Pkg.Path())
	}
	if isMutex(t) {
		return x.regHeap("LG:"+p+"."+g.Name(), sInt, 'L', nil)
	}
	return x.regHeap("G:"+p+"."+g.Name(), sortOf(t), 'G', t)
}

func (x *Exec) nextT(st *State) *Term {
	if v, ok := st.m["$next"]; ok {
		return v.(*Term)
	}
	return constT("next@0", sInt)
}

// isRefType: values of this type are object references (Int, 0 = nil)
func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// heapWF: every reference stored in an allocated object is allocated.
func (x *Exec) heapWF(key string, h, next *Term) *Term {
	hi := x.v.heaps[key]
	r := boundVar("r", sInt)
	switch hi.kind {
	case 'F', 'B':
		v := sel(h, r)
		if b := x.refBound(hi.typ, v, next); b != nil {
			return forall([]*Term{r}, implies(lt(r, next), b), []*Term{v})
		}
	case 'E':
		i := boundVar("i", sInt)
		v := sel(sel(h, r), i)
		if b := x.refBound(hi.typ, v, next); b != nil {
			return forall([]*Term{r, i}, implies(lt(r, next), b), []*Term{v})
		}
	case 'V':
		m := hi.typ.(*types.Map)
		k := boundVar("k", sortOf(m.Key()))
		v := sel(sel(h, r), k)
		if b := x.refBound(m.Elem(), v, next); b != nil {
			return forall([]*Term{r, k}, implies(lt(r, next), b), []*Term{v})
		}
	case 'G':
		return x.refBound(hi.typ, h, next)
	}
	return nil
}

// refBound: type-directed well-formedness of a value (references allocated, integers in range).
func (x *Exec) refBound(t types.Type, v *Term, next *Term) *Term {
	if t == nil {
		return nil
	}
	switch t.(type) {
	case *LogicMap, *logicRef:
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return lt(v, next)
	case *types.Slice:
		return lt(app("sl.arr", v), next)
	case *types.Struct:
		// references inside struct values
		u := t.Underlying().(*types.Struct)
		if isOpaque(t) {
			return nil
		}
		var bs []*Term
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Struct:
				if b := x.refBound(u.Field(i).Type(), field(v, fieldName(u, i)), next); b != nil {
					bs = append(bs, b)
				}
			}
		}
		if len(bs) > 0 {
			return and(bs...)
		}
		return nil
	}
	if isInteger(t) {
		lo, hi, _ := intBounds(t)
		return and(le(bigLit(lo), v), le(v, bigLit(hi)))
	}
	return nil
}

// typeFacts assumes what the type of a value guarantees.
func (x *Exec) typeFacts(t types.Type, v *Term) {
	if v.bound != nil {
		return
	}
	if _, ok := v.lit(); ok {
		return
	}
	if v.Sort == sSlice && v.Op == "nilslice" {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isOpaque(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			x.typeFacts(u.Field(i).Type(), field(v, fieldName(u, i)))
		}
		return
	}
	if b := x.refBound(t, v, x.nextT(x.st)); b != nil {
		x.assume(b)
	}
}

// checkWrite generates the frame obligation for a write to object ref in heap key.
func (x *Exec) checkWrite(key string, ref *Term, pos token.Pos) {
	if x.con == nil || x.dry {
		return
	}
	alts := []*Term{x.freshRef(ref)}
	for _, p := range x.mods[key] {
		alts = append(alts, p(ref))
	}
	if x.mods["*"] != nil {
		return
	}
	x.oblige("frame", "modifies "+key, nil, pos, "", or(alts...))
}

// ---------- lvalues

func (x *Exec) leafType(a *Addr) types.Type { return a.Typ }

func (x *Exec) load(a *Addr, pos token.Pos) Value {
	switch a.Kind {
	case 'c':
		v, ok := x.st.m[a.Cell]
		if !ok {
			x.unsup("read of unset cell %s", a.Cell)
		}
		if t, ok := v.(*Term); ok {
			for _, p := range a.Path {
				t = x.stepInto(t, p)
			}
			return t
		}
		return v
	case 'f':
		v := x.loadField(x.st, a)
		x.guardAccess(a, false, pos)
		x.typeFacts(a.Typ, v)
		return v
	case 'e':
		x.guardElem(a.Elem, a.Arr, false, pos)
		v := sel(sel(x.heap(x.st, x.elemKey(a.Elem)), a.Arr), a.Idx)
		for _, p := range a.Path {
			v = x.stepInto(v, p)
		}
		x.typeFacts(a.Typ, v)
		return v
	case 'b':
		v := sel(x.heap(x.st, x.boxKey(a.Base)), a.Ref)
		for _, p := range a.Path {
			v = x.stepInto(v, p)
		}
		x.typeFacts(a.Typ, v)
		return v
	case 'g':
		v := x.heap(x.st, a.Cell)
		x.guardGlobal(a, false, pos)
		for _, p := range a.Path {
			v = x.stepInto(v, p)
		}
		x.typeFacts(a.Typ, v)
		return v
	}
	panic("load")
}

// stepInto follows a datatype field name or an array index ("[i]").
func (x *Exec) stepInto(t *Term, p string) *Term { return field(t, p) }

func (x *Exec) loadField(st *State, a *Addr) *Term {
	if isStruct(a.Typ) && !isOpaque(a.Typ) {
		u := a.Typ.Underlying().(*types.Struct)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			sub := *a
			sub.HP = a.HP + "." + fieldName(u, i)
			sub.Typ = u.Field(i).Type()
			args = append(args, x.loadField(st, &sub))
		}
		return construct(sortOf(a.Typ), args...)
	}
	return sel(x.heap(st, x.fieldKey(a.Root, a.HP, a.Typ)), a.Ref)
}

func updPath(t *Term, path []string, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return withField(t, path[0], updPath(field(t, path[0]), path[1:], v))
}

func (x *Exec) setCell(key string, v Value) {
	if x.writes != nil {
		x.writes[key] = true
	}
	if t, ok := v.(*Term); ok && t.size > 24 && t.bound == nil && datatypes[t.Sort] == nil {
		n := fresh(strings.SplitN(key, ":", 2)[1], t.Sort)
		x.assume(eq(n, t))
		v = n
	}
	x.st.m[key] = v
}

func (x *Exec) storeTo(a *Addr, v Value, pos token.Pos) {
	switch a.Kind {
	case 'c':
		if len(a.Path) == 0 {
			x.setCell(a.Cell, v)
			return
		}
		old := x.st.m[a.Cell].(*Term)
		x.setCell(a.Cell, updPath(old, a.Path, x.term(v)))
	case 'f':
		x.guardAccess(a, true, pos)
		x.storeField(a, x.term(v), pos)
	case 'e':
		x.guardElem(a.Elem, a.Arr, true, pos)
		key := x.elemKey(a.Elem)
		x.checkWrite(key, a.Arr, pos)
		h := x.heap(x.st, key)
		row := sel(h, a.Arr)
		nv := x.term(v)
		if len(a.Path) > 0 {
			nv = updPath(sel(row, a.Idx), a.Path, nv)
		}
		x.setHeap(key, store(h, a.Arr, store(row, a.Idx, nv)))
	case 'b':
		key := x.boxKey(a.Base)
		x.checkWrite(key, a.Ref, pos)
		h := x.heap(x.st, key)
		nv := x.term(v)
		if len(a.Path) > 0 {
			nv = updPath(sel(h, a.Ref), a.Path, nv)
		}
		x.setHeap(key, store(h, a.Ref, nv))
	case 'g':
		x.guardGlobal(a, true, pos)
		if x.con != nil && x.mods[a.Cell] == nil && x.mods["*"] == nil && !strings.HasSuffix(a.Cell, ".init$guard") {
			x.oblige("frame", "modifies "+a.Cell, nil, pos, "", tFalse)
		}
		nv := x.term(v)
		if len(a.Path) > 0 {
			nv = updPath(x.heap(x.st, a.Cell), a.Path, nv)
		}
		x.setHeap(a.Cell, nv)
	}
}

func (x *Exec) storeField(a *Addr, v *Term, pos token.Pos) {
	if isStruct(a.Typ) && !isOpaque(a.Typ) {
		u := a.Typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			sub := *a
			sub.HP = a.HP + "." + fieldName(u, i)
			sub.Typ = u.Field(i).Type()
			x.storeField(&sub, field(v, fieldName(u, i)), pos)
		}
		return
	}
	if isMutex(a.Typ) {
		return
	}
	key := x.fieldKey(a.Root, a.HP, a.Typ)
	x.checkWrite(key, a.Ref, pos)
	x.setHeap(key, store(x.heap(x.st, key), a.Ref, v))
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.RWMutex" || s == "sync.Mutex"
}

// deref turns a pointer value into an lvalue.
func (x *Exec) deref(v Value, pt types.Type, pos token.Pos) *Addr {
	if a, ok := v.(*Addr); ok {
		return a
	}
	p := v.(*Term)
	el := pt.Underlying().(*types.Pointer).Elem()
	x.oblige("nil", "nil dereference", nil, pos, "", neq(p, intLit(0)))
	return x.addrOf(p, el)
}

func (x *Exec) addrOf(p *Term, el types.Type) *Addr {
	if isStruct(el) && !isOpaque(el) {
		return &Addr{Kind: 'f', Ref: p, Root: el, Typ: el}
	}
	if _, ok := el.Underlying().(*types.Array); ok {
		return &Addr{Kind: 'e', Arr: p, Idx: intLit(0), Typ: el}
	}
	return &Addr{Kind: 'b', Ref: p, Base: el, Typ: el}
}

func (x *Exec) fieldAddr(a *Addr, st *types.Struct, i int) *Addr {
	n := *a
	f := st.Field(i)
	n.Typ = f.Type()
	if a.Kind == 'f' {
		n.HP = a.HP + "." + fieldName(st, i)
	} else {
		n.Path = append(append([]string{}, a.Path...), fieldName(st, i))
	}
	return &n
}

// term converts a value to a first-class term.
func (x *Exec) term(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		switch {
		case v.Kind == 'f' && v.HP == "":
			return v.Ref
		case v.Kind == 'b' && len(v.Path) == 0:
			return v.Ref
		case v.Kind == 'e' && v.Elem == nil:
			return v.Arr
		case v.Kind == 'f':
			// interior pointer: injective function of the object and the path
			n := "interior." + sanitize(typeName(v.Root)+v.HP)
			declFun(n, []string{sInt}, sInt)
			return app(n, v.Ref)
		}
		x.unsup("address of %c lvalue %s %s escapes", v.Kind, v.Cell, v.HP)
	case *VarSlice:
		if len(v.vals) == 0 {
			return constT("nilslice", sSlice)
		}
		r := x.alloc()
		k := x.elemKey(v.elem)
		row := constArr(arrSort(sInt, sortOf(v.elem)), zeroOf(v.elem))
		for i, e := range v.vals {
			row = store(row, intLit(int64(i)), x.term(e))
		}
		x.setHeap(k, store(x.heap(x.st, k), r, row))
		n := intLit(int64(len(v.vals)))
		return x.mkSlice("va", r, intLit(0), n, n)
	case *Closure:
		n := fmt.Sprintf("closure.%s", sanitize(v.Fn.String()))
		return constT(n, sFunc)
	}
	x.unsup("value %T is not a term", v)
	return nil
}

// ---------- allocation

func (x *Exec) alloc() *Term {
	nx := x.nextT(x.st)
	r := nx
	if nx.size > 1 || true {
		r = fresh("ref", sInt)
		x.assume(eq(r, nx))
	}
	if x.writes != nil {
		x.writes["$next"] = true
	}
	x.st.m["$next"] = add(r, intLit(1))
	x.assume(lt(intLit(0), r))
	return r
}

func (x *Exec) initObject(r *Term, t types.Type) {
	for _, l := range structLeaves(t) {
		if isMutex(l.typ) {
			k := x.lockKeyOf(t, l.path)
			x.setHeap(k, store(x.heap(x.st, k), r, intLit(0)))
			continue
		}
		k := x.fieldKey(t, l.path, l.typ)
		x.setHeap(k, store(x.heap(x.st, k), r, zeroOf(l.typ)))
	}
}

func (x *Exec) lockKeyOf(root types.Type, path string) string {
	return x.regHeap("L:"+typeName(root)+path, arrSort(sInt, sInt), 'L', nil)
}

// mkSlice names a slice value with the given parts.
func (x *Exec) mkSlice(name string, arr, off, ln, cp *Term) *Term {
	s := fresh(name, sSlice)
	x.assume(eq(app("sl.arr", s), arr))
	x.assume(eq(app("sl.off", s), off))
	x.assume(eq(app("sl.len", s), ln))
	x.assume(eq(app("sl.cap", s), cp))
	return s
}

// globalObj: a struct variable whose address is used as a value is an object
// allocated before entry.
func (x *Exec) globalObj(g *ssa.Global) *Addr {
	if !x.v.escapingGlobals()[g] {
		return nil
	}
	r := constT("gref."+pkgRel(g.Pkg.Pkg.Path())+"."+g.Name(), sInt)
	known := false
	for _, q := range x.grefs {
		known = known || q == r
	}
	if !known {
		x.addFact(x.root, and(lt(intLit(0), r), lt(r, x.entryNx)), true)
		for _, q := range x.grefs {
			x.addFact(x.root, neq(q, r), true)
		}
		x.grefs = append(x.grefs, r)
	}
	t := g.Type().(*types.Pointer).Elem()
	return &Addr{Kind: 'f', Ref: r, Root: t, Typ: t}
}

// escapingGlobals are the struct variables of the repository whose address is
// more than loaded from and stored to.
func (v *Verifier) escapingGlobals() map[*ssa.Global]bool {
	if v.escGlobals != nil {
		return v.escGlobals
	}
	v.escGlobals = map[*ssa.Global]bool{}
	for _, fn := range v.fns {
		if fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					t := g.Type().(*types.Pointer).Elem()
					if !isStruct(t) || isOpaque(t) {
						continue
					}
					esc := true
					switch i := in.(type) {
					case *ssa.DebugRef, *ssa.UnOp:
						esc = false
					case *ssa.Store:
						esc = i.Val == g
					case *ssa.FieldAddr:
						esc = escapes(i, map[ssa.Value]bool{})
					case *ssa.Call:
						if c := i.Common().StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync" {
							esc = false
						}
					}
					if esc {
						v.escGlobals[g] = true
					}
				}
			}
		}
	}
	return v.escGlobals
}

// ---------- escape analysis for allocs

func escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if i.Val == v {
				return true
			}
		case *ssa.FieldAddr:
			if escapes(i, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if escapes(i, seen) {
				return true
			}
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v && escapes(fn.FreeVars[k], seen) {
					return true
				}
			}
		case *ssa.Call:
			if c := i.Common().StaticCallee(); c != nil && c.Pkg != nil && c.Pkg.Pkg.Path() == "sync" {
				continue
			}
			return true
		case *ssa.Slice:
			return true
		default:
			return true
		}
	}
	return false
}

func (x *Exec) cellKey(f *Frame, a *ssa.Alloc) string {
	return fmt.Sprintf("c%d:%s.%s", f.id, a.Comment, a.Name())
}

func (x *Exec) execAlloc(f *Frame, a *ssa.Alloc) {
	t := a.Type().(*types.Pointer).Elem()
	if ar, isArr := t.Underlying().(*types.Array); isArr && a.Comment == "varargs" && ar.Len() < 16 {
		va := &VarArr{key: x.cellKey(f, a), n: int(ar.Len()), elem: ar.Elem()}
		for i := 0; i < va.n; i++ {
			x.setCell(fmt.Sprintf("%s#%d", va.key, i), zeroOf(ar.Elem()))
		}
		f.regs[a] = va
		return
	}
	if _, isArr := t.Underlying().(*types.Array); !isArr && !escapes(a, map[ssa.Value]bool{}) {
		if isMutex(t) {
			x.unsup("local mutex")
		}
		key := x.cellKey(f, a)
		x.setCell(key, zeroOf(t))
		f.regs[a] = &Addr{Kind: 'c', Cell: key, Typ: t, Base: t}
		f.noteCell(a)
		return
	}
	r := x.alloc()
	switch u := t.Underlying().(type) {
	case *types.Array:
		k := x.elemKey(u.Elem())
		x.setHeap(k, store(x.heap(x.st, k), r, constArr(arrSort(sInt, sortOf(u.Elem())), zeroOf(u.Elem()))))
		f.regs[a] = r
	default:
		if isStruct(t) && !isOpaque(t) {
			x.initObject(r, t)
			f.regs[a] = r
		} else {
			k := x.boxKey(t)
			x.setHeap(k, store(x.heap(x.st, k), r, zeroOf(t)))
			f.regs[a] = r
		}
	}
	f.noteCell(a)
}

func (f *Frame) noteCell(a *ssa.Alloc) {
	for i, c := range f.cells {
		if c == a {
			f.cells = append(f.cells[:i], f.cells[i+1:]...)
			break
		}
	}
	f.cells = append(f.cells, a)
}

// ---------- values

func (x *Exec) val(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v.Value, v.Type())
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		if a := x.globalObj(v); a != nil {
			return a
		}
		return &Addr{Kind: 'g', Cell: x.globalKey(v), Typ: t, Base: t}
	case *ssa.Function:
		return &Closure{Fn: v}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.regs[v]
	if !ok {
		x.unsup("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}

func (x *Exec) tval(f *Frame, v ssa.Value) *Term { return x.term(x.val(f, v)) }

func (x *Exec) constVal(c constant.Value, t types.Type) Value {
	if c == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			return constT("zero."+tp.String(), sortOf(t))
		}
		return zeroOf(t)
	}
	switch {
	case c.Kind() == constant.Bool:
		return boolLit(constant.BoolVal(c))
	case c.Kind() == constant.String:
		return strConst(constant.StringVal(c))
	case isFloat(t):
		r, ok := new(big.Rat).SetString(constant.ToFloat(c).ExactString())
		if !ok {
			f, _ := constant.Float64Val(c)
			r = new(big.Rat)
			r.SetFloat64(f)
		}
		return litOf(r, sReal)
	case isInteger(t):
		b, ok := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
		if !ok {
			x.unsup("const %s", c)
		}
		return bigLit(b)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		x.unsup("const iface")
	}
	x.unsup("const %s of type %s", c, t)
	return nil
}

// ---------- control flow

type inEdge struct {
	node *Node
	cond *Term
	st   *State
	from *ssa.BasicBlock
}

type retInfo struct {
	node *Node
	st   *State
	vals []Value
}

// join merges incoming edges; sets x.cur and x.st
func (x *Exec) join(edges []inEdge) (edgeLits []*Term) {
	if len(edges) == 1 {
		e := edges[0]
		x.st = e.st
		if e.cond.Op == "true" {
			x.cur = e.node
		} else {
			x.cur = x.newNode([]*Node{e.node}, []*Term{e.cond})
		}
		return []*Term{x.cur.guard}
	}
	var ps []*Node
	var cs []*Term
	for _, e := range edges {
		ps = append(ps, e.node)
		cs = append(cs, e.cond)
	}
	n := x.newNode(ps, cs)
	x.cur = n
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	st := &State{m: map[string]Value{}}
	x.st = st
	for _, k := range sortedKeys(keys) {
		var vals []Value
		same := true
		missing := false
		for _, e := range edges {
			v, ok := e.st.m[k]
			if !ok {
				if strings.HasPrefix(k, "c") {
					missing = true
					break
				}
				if k == "$next" {
					v = x.nextT(e.st)
				} else {
					v = x.heap(e.st, k)
				}
			}
			vals = append(vals, v)
			if len(vals) > 1 && !sameVal(vals[0], v) {
				same = false
			}
		}
		if missing {
			continue // a cell not live on all paths
		}
		if same {
			st.m[k] = vals[0]
			continue
		}
		if _, ok := vals[0].(*Term); !ok {
			// non-term values that differ: drop; a later use fails as unsupported
			continue
		}
		st.m[k] = x.mergeTerms(cellBase(k), n, vals)
	}
	return n.edges
}

func cellBase(k string) string {
	if i := strings.Index(k, ":"); i >= 0 && strings.HasPrefix(k, "c") {
		s := k[i+1:]
		if j := strings.LastIndex(s, "."); j > 0 {
			s = s[:j]
		}
		return s
	}
	return k
}

func sameVal(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		return ok && a == bt
	case *Addr:
		bt, ok := b.(*Addr)
		return ok && (a == bt || a.Kind == bt.Kind && a.Cell == bt.Cell && a.Ref == bt.Ref && a.HP == bt.HP && a.Arr == bt.Arr && a.Idx == bt.Idx && strings.Join(a.Path, ".") == strings.Join(bt.Path, "."))
	case *Closure:
		bt, ok := b.(*Closure)
		if !ok || a.Fn != bt.Fn || len(a.Binds) != len(bt.Binds) {
			return false
		}
		for i := range a.Binds {
			if !sameVal(a.Binds[i], bt.Binds[i]) {
				return false
			}
		}
		return true
	case *Iter:
		return a == b
	case Tuple:
		bt, ok := b.(Tuple)
		if !ok || len(a) != len(bt) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], bt[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func (x *Exec) mergeTerms(name string, n *Node, vals []Value) *Term {
	t0 := x.term(vals[0])
	v := fresh(name, t0.Sort)
	for i, e := range n.edges {
		x.addFact(n, implies(e, eq(v, x.term(vals[i]))), true)
	}
	return v
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range c.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// numberLoops gives every loop (including loops of inlined callees, by
// occurrence) its number in source order.
func (x *Exec) numberLoops(f *Frame) {
	f.loops = findLoops(f.fn)
	f.lnum = map[*ssa.BasicBlock]int{}
}

// countLoops counts the loops of fn with everything inlined in it.
func (x *Exec) countLoops(fn *ssa.Function, depth int) int {
	if fn == nil || depth > 6 || len(fn.Blocks) == 0 {
		return 0
	}
	n := len(findLoops(fn))
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n += x.inlineLoopsAt(in, depth)
		}
	}
	return n
}

func (x *Exec) inlineLoopsAt(in ssa.Instruction, depth int) int {
	var cc *ssa.CallCommon
	switch c := in.(type) {
	case *ssa.Call:
		cc = c.Common()
	case *ssa.Defer:
		cc = c.Common()
	}
	if cc == nil {
		return 0
	}
	if cal := cc.StaticCallee(); cal != nil {
		if x.v.wouldInline(cal) {
			return x.countLoops(cal, depth+1)
		}
		if con := x.v.specs.Contracts[fnName(cal)]; con != nil && con.Runs != nil {
			n := 0
			for _, a := range cc.Args {
				if fnv := x.v.closureOf(a); fnv != nil {
					n += x.countLoops(fnv, depth+1)
				}
			}
			return n
		}
		return 0
	}
	// call of a local closure: find the closure by the variable
	if fnv := x.v.closureOf(cc.Value); fnv != nil {
		return x.countLoops(fnv, depth+1)
	}
	return 0
}

// loopNumber returns the number of the loop with this header within the top function.
func (x *Exec) assignLoopNumbers(f *Frame, base int) {
	type ent struct {
		idx, ii int
		hdr     *ssa.BasicBlock
		n       int
		in      ssa.Instruction
	}
	cnt := base
	for _, b := range f.fn.Blocks {
		if _, ok := f.loops[b]; ok {
			f.lnum[b] = cnt
			cnt++
		}
		for _, in := range b.Instrs {
			if k := x.inlineLoopsAt(in, 0); k > 0 {
				if x.v.inlineBase == nil {
					x.v.inlineBase = map[string]int{}
				}
				x.v.inlineBase[fmt.Sprintf("%d/%p", f.id, in)] = cnt
				cnt += k
			}
		}
	}
}

// runBody executes the body of f.fn from the current node/state.
func (x *Exec) runBody(f *Frame, base int) []Value {
	x.depth++
	if x.depth > 12 {
		x.unsup("inlining too deep at %s", f.fn)
	}
	saved := x.frame
	x.frame = f
	x.numberLoops(f)
	x.assignLoopNumbers(f, base)
	rets := x.runBlocks(f, rpo(f.fn), nil, inEdge{x.cur, tTrue, x.st, nil})
	x.frame = saved
	x.depth--
	if len(rets) == 0 {
		// never returns
		x.cur = x.newNode([]*Node{x.cur}, []*Term{tFalse})
		x.cur.dead = true
		x.st = x.st.clone()
		var vs []Value
		res := f.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, zeroOf(res.At(i).Type()))
		}
		return vs
	}
	var edges []inEdge
	for _, r := range rets {
		edges = append(edges, inEdge{r.node, tTrue, r.st, nil})
	}
	x.join(edges)
	if len(rets) == 1 {
		return rets[0].vals
	}
	n := x.cur
	var vs []Value
	for i := range rets[0].vals {
		var col []Value
		same := true
		for _, r := range rets {
			col = append(col, r.vals[i])
			if !sameVal(r.vals[0+i], rets[0].vals[i]) {
				same = false
			}
		}
		if same {
			vs = append(vs, col[0])
		} else {
			vs = append(vs, x.mergeTerms("ret", n, col))
		}
	}
	return vs
}

// runBlocks executes blocks (in RPO). If loop is non-nil only the blocks of
// that loop are executed starting at its header (used for dry runs).
func (x *Exec) runBlocks(f *Frame, order []*ssa.BasicBlock, only *loopInfo, start inEdge) []retInfo {
	in := map[*ssa.BasicBlock][]inEdge{}
	first := f.fn.Blocks[0]
	if only != nil {
		first = only.header
	}
	in[first] = []inEdge{start}
	var rets []retInfo
	type open struct {
		l   *loopInfo
		ctx *loopCtx
	}
	ctxs := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range order {
		if only != nil && !only.blocks[b] {
			continue
		}
		edges := in[b]
		if len(edges) == 0 {
			continue
		}
		lits := x.join(edges)
		x.st = x.st.clone()
		// phis
		x.doPhis(f, b, edges, lits)
		// loop contexts active for this block
		if l, ok := f.loops[b]; ok && x.isStep(f, b) {
			if only == nil && !x.dry && x.stepPrelude() {
				// what the code before the loop made is not as it was made in later iterations
				x.enterLoop(f, l)
				x.stepRequires(f)
			}
			if x.stepSt == nil {
				x.stepSt = x.st.clone()
			}
		} else if ok && !(only != nil && only.header == b) {
			ctxs[b] = x.enterLoop(f, l)
		}
		// set the active loop context stack
		savedStack := x.loopSt
		x.loopSt = append([]*loopCtx{}, savedStack...)
		var hs []*ssa.BasicBlock
		for h, l := range f.loops {
			if l.blocks[b] && ctxs[h] != nil {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Dominates(hs[j]) && hs[i] != hs[j] })
		for _, h := range hs {
			x.loopSt = append(x.loopSt, ctxs[h])
		}
		alive := true
		for _, instr := range b.Instrs {
			switch t := instr.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				c := x.tval(f, t.Cond)
				x.pushEdge(f, in, ctxs, b, b.Succs[0], c, only)
				x.pushEdge(f, in, ctxs, b, b.Succs[1], not(c), only)
				alive = false
			case *ssa.Jump:
				x.pushEdge(f, in, ctxs, b, b.Succs[0], tTrue, only)
				alive = false
			case *ssa.Return:
				var vs []Value
				for _, r := range t.Results {
					vs = append(vs, x.val(f, r))
				}
				if f.top {
					x.atReturn(f, vs, t.Pos())
				}
				rets = append(rets, retInfo{x.cur, x.st, vs})
				alive = false
			case *ssa.Panic:
				if !x.panicOk {
					x.oblige("panic", "panic unreachable", nil, t.Pos(), "", tFalse)
				}
				alive = false
			default:
				x.instr(f, instr)
				if x.cur.dead {
					alive = false
				}
			}
			if !alive {
				break
			}
		}
		x.loopSt = savedStack
	}
	return rets
}

func (x *Exec) pushEdge(f *Frame, in map[*ssa.BasicBlock][]inEdge, ctxs map[*ssa.BasicBlock]*loopCtx, from, to *ssa.BasicBlock, cond *Term, only *loopInfo) {
	if cond.Op == "false" {
		return
	}
	if to.Dominates(from) && f.loops[to] != nil {
		// back edge
		if x.isStep(f, to) {
			if only == nil && !x.dry {
				sc, ss := x.cur, x.st
				if cond.Op != "true" {
					x.cur = x.newNode([]*Node{x.cur}, []*Term{cond})
				}
				x.st = x.st.clone()
				x.stepEnd(f, f.loops[to].pos())
				x.cur, x.st = sc, ss
			}
			return
		}
		if only != nil && only.header == to {
			sc, ss, sl := x.cur, x.st, x.loopSt
			x.st = x.st.clone()
			x.loopSt = append(append([]*loopCtx{}, sl...), &loopCtx{num: f.lnum[to], header: x.st, before: x.st})
			x.loopGhosts(f, f.lnum[to])
			x.cur, x.st, x.loopSt = sc, ss, sl
			return
		}
		if ctxs[to] != nil {
			sc, ss := x.cur, x.st
			if cond.Op != "true" {
				x.cur = x.newNode([]*Node{x.cur}, []*Term{cond})
			}
			x.st = x.st.clone()
			x.closeLoop(f, f.loops[to], ctxs[to])
			x.cur, x.st = sc, ss
		}
		return
	}
	in[to] = append(in[to], inEdge{x.cur, cond, x.st, from})
}

// isStep: b heads the server loop of which the contract describes one iteration.
func (x *Exec) isStep(f *Frame, b *ssa.BasicBlock) bool {
	return f.top && x.con != nil && x.con.Step >= 0 && f.lnum[b] == x.con.Step
}

func (x *Exec) doPhis(f *Frame, b *ssa.BasicBlock, edges []inEdge, lits []*Term) {
	for _, instr := range b.Instrs {
		phi, ok := instr.(*ssa.Phi)
		if !ok {
			continue
		}
		var vals []Value
		for _, e := range edges {
			for i, p := range b.Preds {
				if p == e.from {
					vals = append(vals, x.val(f, phi.Edges[i]))
					break
				}
			}
		}
		if len(vals) == 1 {
			f.regs[phi] = vals[0]
			continue
		}
		same := true
		for _, v := range vals {
			if !sameVal(v, vals[0]) {
				same = false
			}
		}
		if same {
			f.regs[phi] = vals[0]
			continue
		}
		t0 := x.term(vals[0])
		v := fresh("phi", t0.Sort)
		for i, e := range lits {
			x.addFact(x.cur, implies(e, eq(v, x.term(vals[i]))), true)
		}
		f.regs[phi] = v
	}
}

// ---------- loops

func (x *Exec) enterLoop(f *Frame, l *loopInfo) *loopCtx {
	num := f.lnum[l.header]
	ctx := &loopCtx{num: num, before: x.st.clone()}
	if x.con != nil {
		ctx.spec = x.con.Loops[num]
	}
	if x.dry {
		w := x.dryRun(f, l)
		x.st = x.st.clone()
		x.dryHavoc(w)
		ctx.header = x.st.clone()
		ctx.spec = nil
		return ctx
	}
	// 1. which keys may change
	writes := x.dryRun(f, l)
	// iteration counter
	ctx.idx = x.loopIndex(f, l, writes)
	x.loopSt = append(x.loopSt, ctx)
	ctx.header = x.st
	// 2. invariants hold on entry
	x.autoInv(f, l, ctx, writes, true)
	if ctx.spec != nil {
		for i, c := range ctx.spec.Invs {
			if !x.v.active(c) {
				continue
			}
			x.oblige("inv-entry", fmt.Sprintf("loop%d %s", num, cname(c, i)), c.Tags, l.pos(), c.Src, x.specBool(x.envHere(f), c.E, true))
		}
	}
	// 3. havoc
	pre := x.st
	preNext := x.nextT(pre)
	// new node so that pre-loop facts stay apart
	x.cur = x.newNode([]*Node{x.cur}, []*Term{tTrue})
	x.st = x.st.clone()
	if writes["$next"] {
		nx := fresh("next", sInt)
		x.assume(le(preNext, nx))
		x.st.m["$next"] = nx
	}
	for _, k := range sortedKeys(writes) {
		if k == "$next" {
			continue
		}
		old, had := pre.m[k]
		if strings.HasPrefix(k, "c") {
			if !had {
				continue
			}
			ot, isT := old.(*Term)
			if !isT {
				continue
			}
			nv := fresh(cellBase(k), ot.Sort)
			x.st.m[k] = nv
			if t := x.cellType(k); t != nil {
				x.typeFacts(t, nv)
			}
			continue
		}
		oh := x.heap(pre, k)
		nh := fresh(heapBase(k), oh.Sort)
		x.st.m[k] = nh
		if x.v.heaps[k].kind == 'L' {
			// locks: loops are lock-neutral unless stated
			x.st.m[k] = nh
			continue
		}
		if w := x.heapWF(k, nh, x.nextT(x.st)); w != nil {
			x.assume(w)
		}
		x.loopFrame(k, oh, nh)
	}
	// locks: neutral
	for _, k := range sortedKeys(writes) {
		if hi, ok := x.v.heaps[k]; ok && hi.kind == 'L' {
			x.assume(eq(x.st.m[k].(*Term), x.heap(pre, k)))
		}
	}
	ctx.header = x.st.clone()
	x.autoInv(f, l, ctx, writes, false)
	if ctx.spec != nil {
		for i, c := range ctx.spec.Invs {
			if !x.v.active(c) {
				continue
			}
			x.assumeAs(cname(c, i), x.specBool(x.envHere(f), c.E, false))
		}
		if ctx.spec.Decr != nil {
			ctx.decr = x.specTerm(x.envHere(f), ctx.spec.Decr)
		}
	}
	x.vacuity = append(x.vacuity, &Vac{fmt.Sprintf("loop%d invariants satisfiable", num), x.cur, x.seq})
	x.loopSt = x.loopSt[:len(x.loopSt)-1]
	return ctx
}

func cname(c *Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("#%d", i)
}

func (l *loopInfo) pos() token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) cellType(key string) types.Type {
	return x.v.cellTypes[key]
}

// loopFrame: objects that existed at function entry and are outside the
// modifies clause are unchanged (every write inside is checked for that).
func (x *Exec) loopFrame(k string, pre, post *Term) {
	hi := x.v.heaps[k]
	if hi.kind == 'G' {
		return
	}
	// recorded calls are only ever added
	if strings.HasPrefix(k, "$calls:") {
		x.assume(le(pre, post))
		return
	}
	if strings.HasPrefix(k, "$callarg:") {
		name := k[len("$callarg:"):strings.LastIndex(k, ":")]
		if n, ok := x.loopSt[len(x.loopSt)-1].before.m["$calls:"+name].(*Term); ok {
			r := boundVar("r", sInt)
			x.assume(forall([]*Term{r}, implies(lt(r, n), eq(sel(post, r), sel(pre, r))), []*Term{sel(post, r)}))
		}
		return
	}
	entry := x.heap(x.entry, k)
	r := boundVar("r", sInt)
	var ps []*Term
	for _, p := range x.mods[k] {
		ps = append(ps, p(r))
	}
	if x.con == nil || x.mods["*"] != nil {
		return
	}
	x.assume(forall([]*Term{r}, implies(and(lt(r, x.entryNx), not(or(ps...))), eq(sel(post, r), sel(entry, r))), []*Term{sel(post, r)}))
}

func (x *Exec) dryRun(f *Frame, l *loopInfo) map[string]bool {
	savedSt, savedCur, savedW, savedNodes, savedSeq := x.st, x.cur, x.writes, len(x.nodes), x.seq
	savedCells := append([]*ssa.Alloc{}, f.cells...)
	savedStack := x.loopSt
	savedCalls := map[string]int{}
	for k, v := range x.callCnt {
		savedCalls[k] = v
	}
	savedDefers := len(f.defers)
	savedDry, savedFrame := x.dry, x.frameN
	x.dry = true
	// until no more writes appear: a branch that is dead with the values before the loop may be
	// taken once they change
	w := map[string]bool{}
	for {
		x.writes = map[string]bool{}
		x.frameN = savedFrame
		x.st = savedSt.clone()
		x.dryHavoc(w)
		x.cur = x.newNode([]*Node{savedCur}, []*Term{tTrue})
		x.runBlocks(f, rpo(f.fn), l, inEdge{x.cur, tTrue, x.st, nil})
		n := len(w)
		for k := range x.writes {
			w[k] = true
		}
		if len(w) == n {
			break
		}
		f.cells = append([]*ssa.Alloc{}, savedCells...)
		f.defers = f.defers[:savedDefers]
	}
	x.dry = savedDry
	x.writes = savedW
	if x.writes != nil {
		for k := range w {
			x.writes[k] = true
		}
	}
	x.st, x.cur = savedSt, savedCur
	x.nodes = x.nodes[:savedNodes]
	x.seq = savedSeq
	f.cells = savedCells
	x.loopSt = savedStack
	x.callCnt = savedCalls
	f.defers = f.defers[:savedDefers]
	return w
}

// dryHavoc makes the given keys of the current state arbitrary (in a dry run only).
func (x *Exec) dryHavoc(keys map[string]bool) {
	for _, k := range sortedKeys(keys) {
		if k == "$next" {
			x.st.m[k] = fresh("next", sInt)
			continue
		}
		if strings.HasPrefix(k, "c") {
			if t, ok := x.st.m[k].(*Term); ok {
				x.st.m[k] = fresh(cellBase(k), t.Sort)
			}
			continue
		}
		if hi := x.v.heaps[k]; hi != nil && hi.kind != 'L' {
			x.st.m[k] = fresh(heapBase(k), x.heap(x.st, k).Sort)
		}
	}
}

// autoInv: range-index bounds.
func (x *Exec) autoInv(f *Frame, l *loopInfo, ctx *loopCtx, writes map[string]bool, check bool) {
	for _, in := range l.header.Instrs {
		st, ok := in.(*ssa.Store)
		if !ok {
			continue
		}
		al, ok := st.Addr.(*ssa.Alloc)
		if !ok || al.Comment != "rangeindex" {
			continue
		}
		// header: v = *idx + 1; store; if v < len
		key := x.cellKey(f, al)
		cur := x.st.m[key].(*Term)
		var bound *Term
		for _, in2 := range l.header.Instrs {
			if bo, ok := in2.(*ssa.BinOp); ok && bo.Op == token.LSS {
				if v, ok := f.regs[bo.Y]; ok {
					bound = x.term(v)
				} else if c, ok := bo.Y.(*ssa.Const); ok {
					bound = x.term(x.constVal(c.Value, c.Type()))
				}
			}
		}
		inv := le(intLit(-1), cur)
		if bound != nil {
			inv = and(inv, or(lt(cur, bound), eq(cur, intLit(-1))))
		}
		if check {
			// holds trivially: initial value -1
			x.oblige("inv-entry", "range index", nil, l.pos(), "", inv)
		} else {
			x.assume(inv)
		}
	}
}

// loopIndex returns an accessor for the number of completed iterations.
func (x *Exec) loopIndex(f *Frame, l *loopInfo, writes map[string]bool) func() *Term {
	for _, in := range l.header.Instrs {
		if st, ok := in.(*ssa.Store); ok {
			if al, ok := st.Addr.(*ssa.Alloc); ok && al.Comment == "rangeindex" {
				key := x.cellKey(f, al)
				return func() *Term { return add(x.st.m[key].(*Term), intLit(1)) }
			}
		}
	}
	// classic loop: the single cell incremented by 1 in a latch block
	for _, p := range l.header.Preds {
		if !l.blocks[p] {
			continue
		}
		for _, in := range p.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			al, ok := st.Addr.(*ssa.Alloc)
			if !ok {
				continue
			}
			bo, ok := st.Val.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD {
				continue
			}
			if c, ok := bo.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "1" {
				continue
			}
			key := x.cellKey(f, al)
			return func() *Term {
				if t, ok := x.st.m[key].(*Term); ok {
					return t
				}
				return nil
			}
		}
	}
	return nil
}

func (x *Exec) loopGhosts(f *Frame, num int) {
	if x.con == nil {
		return
	}
	for _, g := range x.con.Ghosts {
		if g.At == fmt.Sprint("loop ", num) {
			x.ghostSet(f, g, nil)
		}
	}
}

func (x *Exec) closeLoop(f *Frame, l *loopInfo, ctx *loopCtx) {
	saved := x.loopSt
	// context stack up to and including ctx
	has := false
	for i, c := range x.loopSt {
		if c == ctx {
			x.loopSt = x.loopSt[:i+1]
			has = true
			break
		}
	}
	if !has {
		x.loopSt = append(append([]*loopCtx{}, x.loopSt...), ctx)
	}
	defer func() { x.loopSt = saved }()
	x.loopGhosts(f, ctx.num)
	if x.dry {
		return
	}
	for k := range x.st.m {
		if hi, ok := x.v.heaps[k]; ok && hi.kind == 'L' {
			if pre := x.heap(ctx.header, k); pre != x.st.m[k].(*Term) {
				x.oblige("lock", "loop leaves lock state unchanged", lockTags, l.pos(), "", eq(x.st.m[k].(*Term), pre))
			}
		}
	}
	for _, in := range l.header.Instrs {
		st, ok := in.(*ssa.Store)
		if !ok {
			continue
		}
		if al, ok := st.Addr.(*ssa.Alloc); ok && al.Comment == "rangeindex" {
			x.autoInv(f, l, ctx, nil, true)
		}
	}
	if ctx.spec == nil {
		return
	}
	for i, c := range ctx.spec.Hints {
		if !x.v.active(c) {
			continue
		}
		x.hint(fmt.Sprintf("loop%d %s", ctx.num, cname(c, i)), c, l.pos(), x.envHere(f))
	}
	for i, c := range ctx.spec.Invs {
		if !x.v.active(c) {
			continue
		}
		x.obligeBy("inv-keep", fmt.Sprintf("loop%d %s", ctx.num, cname(c, i)), c, l.pos(), x.specBool(x.envHere(f), c.E, true))
	}
	if ctx.spec.Decr != nil {
		d := x.specTerm(x.envHere(f), ctx.spec.Decr)
		x.oblige("decreases", fmt.Sprintf("loop%d", ctx.num), nil, l.pos(), "", and(le(intLit(0), ctx.decr), lt(d, ctx.decr)))
	}
}
