package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VarArr is the hidden array of a variadic call; VarSlice the slice made of it.
type VarArr struct {
	key  string
	n    int
	elem types.Type
}
type VarSlice struct {
	vals []Value
	elem types.Type
}

// fnName is the name under which a function's contract is looked up.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fnName(fn.Parent()) + n
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return pkgRel(fn.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return pkgRel(fn.Object().Pkg().Path()) + "." + fn.Name()
	}
	return fn.Name()
}

func (x *Exec) call(f *Frame, cc *ssa.CallCommon, pos token.Pos, in ssa.Instruction) Value {
	var fnv Value
	if cc.IsInvoke() {
		fnv = x.val(f, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fnv = x.val(f, cc.Value)
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(f, a))
	}
	return x.callWith(f, cc, fnv, args, pos, in)
}

func (x *Exec) callWith(f *Frame, cc *ssa.CallCommon, fnv Value, args []Value, pos token.Pos, in ssa.Instruction) Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(f, b, cc, args, pos)
	}
	if cc.IsInvoke() {
		return x.invoke(f, cc, x.term(fnv), args, pos, in)
	}
	if c, ok := fnv.(*Closure); ok {
		return x.callFn(f, c, args, pos, in)
	}
	// dynamic call of a function value
	var name string
	if n := x.paramFn(x.term(fnv)); n != "" {
		return x.dynCall(f, n, cc.Signature(), x.term(fnv), args, pos)
	}
	name = dynName(cc)
	return x.dynCall(f, name, cc.Signature(), x.term(fnv), args, pos)
}

func dynTypes(sig *types.Signature) []types.Type {
	ts := append(sigTypes(sig), sig)
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

// dynName: the name under which a call of a function value is recorded.
func dynName(cc *ssa.CallCommon) string {
	switch v := cc.Value.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok {
			return a.Comment
		}
		if a, ok := v.X.(*ssa.FreeVar); ok {
			return a.Name()
		}
	}
	return "dynamic"
}

// paramFn: the contract's name of the parameter of the verified function with this value.
func (x *Exec) paramFn(t *Term) string {
	for _, n := range x.pnames {
		if tv, ok := x.params[n]; ok && tv.t == t {
			return n
		}
	}
	return ""
}

// dynCall: a call of an unknown function value: arbitrary results, recorded.
func (x *Exec) dynCall(f *Frame, name string, sig *types.Signature, fn *Term, args []Value, pos token.Pos) Value {
	if fn.Op == "nilfunc" {
		x.oblige("nil", "call of nil function", nil, pos, "", tFalse)
	}
	if c := x.v.specs.Contracts[x.conPkg()+"."+name+"()"]; c != nil && len(c.Params) == len(args) {
		return x.contractCall(f, c, sig, args, pos)
	}
	x.v.note("callbacks passed as function values are assumed not to modify the state tracked here")
	// the function value itself is the argument after the last, then come the results
	r := x.freshResults(sig, "dyn")
	as := append(append([]Value{}, args...), fn)
	if t, ok := r.(Tuple); ok {
		as = append(as, t...)
	} else {
		as = append(as, r)
	}
	x.recordT(name, dynTypes(sig), as)
	return r
}

func (x *Exec) recordT(name string, ts []types.Type, args []Value) *Term {
	key := x.regHeap("$calls:"+name, sInt, 'T', nil)
	if x.v.recorded[name] == nil {
		x.v.recorded[name] = ts
	}
	n := x.heap(x.st, key)
	x.recordArgs(name, 0, n, args)
	x.setHeap(key, add(n, intLit(1)))
	return n
}

func (x *Exec) recordArgs(name string, from int, n *Term, args []Value) {
	ts := x.v.recorded[name]
	for i, a := range args {
		if _, ok := a.(*Closure); ok || from+i >= len(ts) {
			continue
		}
		ak := x.regHeap(fmt.Sprintf("$callarg:%s:%d", name, from+i), arrSort(sInt, sortOf(ts[from+i])), 'T', nil)
		x.setHeap(ak, store(x.heap(x.st, ak), n, x.term(a)))
	}
}

// watch records a call of a function the contract being verified lists under "modifies calls";
// what it returns records the results, which come after the arguments.
func (x *Exec) watch(name string, pts []types.Type, sig *types.Signature, args []Value) func(Value) Value {
	none := func(v Value) Value { return v }
	if x.con == nil || len(pts) != len(args) {
		return none
	}
	for _, m := range x.con.Mods {
		if m.Kind == "calls" && m.Fld == name {
			n := x.recordT(name, withResTypes(pts, sig), args)
			return func(v Value) Value {
				var rs Tuple
				if t, ok := v.(Tuple); ok {
					rs = t
				} else {
					rs = Tuple{v}
				}
				x.recordArgs(name, len(args), n, rs)
				return v
			}
		}
	}
	return none
}

func withResTypes(pts []types.Type, sig *types.Signature) []types.Type {
	ts := append([]types.Type{}, pts...)
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

func sigTypes(sig *types.Signature) (ts []types.Type) {
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return
}

// declareCalls makes the argument types of the watched functions known before the first call.
func (x *Exec) declareCalls(c *Contract) {
	if x.fn != nil {
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() || cc.StaticCallee() != nil {
						continue
					}
					if n := dynName(cc); x.v.recorded[n] == nil {
						x.v.recorded[n] = dynTypes(cc.Signature())
					}
				}
			}
		}
	}
	for _, m := range c.Mods {
		if m.Kind != "calls" || x.v.recorded[m.Fld] != nil {
			continue
		}
		if f := x.v.fns[strings.TrimPrefix(m.Fld, "go ")]; f != nil {
			x.v.recorded[m.Fld] = withResTypes(paramTypes(f.Signature), f.Signature)
		} else if i := strings.LastIndex(m.Fld, "."); i > 0 {
			// a method of an interface
			if j := strings.LastIndex(m.Fld[:i], "."); j > 0 && x.v.pkgByRel(m.Fld[:j]) != nil {
				p := x.v.pkgByRel(m.Fld[:j])
				if o := p.Scope().Lookup(m.Fld[j+1 : i]); o != nil {
					if mo, _, _ := types.LookupFieldOrMethod(o.Type(), true, p, m.Fld[i+1:]); mo != nil {
						if sig, ok := mo.Type().(*types.Signature); ok {
							x.v.recorded[m.Fld] = withResTypes(append([]types.Type{o.Type()}, sigTypes(sig)...), sig)
						}
					}
				}
			}
		}
	}
}

func (x *Exec) freshResults(sig *types.Signature, name string) Value {
	rs := sig.Results()
	var out Tuple
	for i := 0; i < rs.Len(); i++ {
		r := fresh(name, sortOf(rs.At(i).Type()))
		x.typeFacts(rs.At(i).Type(), r)
		out = append(out, r)
	}
	return tupleVal(out)
}

func tupleVal(out Tuple) Value {
	switch len(out) {
	case 0:
		return Tuple{}
	case 1:
		return out[0]
	}
	return out
}

func (x *Exec) invoke(f *Frame, cc *ssa.CallCommon, recv *Term, args []Value, pos token.Pos, in ssa.Instruction) Value {
	it := cc.Value.Type()
	x.ifaceFacts(recv)
	x.oblige("nil", "method call on nil interface", nil, pos, "", neq(app("if.tag", recv), intLit(0)))
	name := typeName(it) + "." + cc.Method.Name()
	sig := cc.Method.Type().(*types.Signature)
	done := x.watch(name, append([]types.Type{it}, sigTypes(sig)...), sig, append([]Value{recv}, args...))
	if c := x.v.specs.Contracts[name]; c != nil {
		return done(x.contractCall(f, c, sig, append([]Value{recv}, args...), pos, in))
	}
	// statically known dynamic type
	if t, ok := boxTypes[recv.Op]; ok {
		ms := x.v.prog.MethodSets.MethodSet(t)
		if s := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
			if fn := x.v.prog.MethodValue(s); fn != nil {
				return done(x.callFn(f, &Closure{Fn: fn}, append([]Value{recv.Args[0]}, args...), pos, in))
			}
		}
	}
	x.v.assume(x, "interface method "+name+": arbitrary result, no effect on tracked state")
	return done(x.freshResults(sig, cc.Method.Name()))
}

func (x *Exec) callFn(f *Frame, c *Closure, args []Value, pos token.Pos, in ssa.Instruction) Value {
	fn := c.Fn
	name := fnName(fn)
	done := x.watch(name, paramTypes(fn.Signature), fn.Signature, args)
	return done(x.callFn1(f, c, name, args, pos, in))
}

func (x *Exec) callFn1(f *Frame, c *Closure, name string, args []Value, pos token.Pos, in ssa.Instruction) Value {
	fn := c.Fn
	if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") {
		if len(fn.Blocks) == 0 {
			fn.Prog.Build()
		}
	} else if con := x.v.specs.Contracts[name]; con != nil && !con.Inline {
		return x.contractCall(f, con, fn.Signature, args, pos, in)
	}
	if r, ok := x.extern(f, fn, name, args, pos); ok {
		return r
	}
	if x.v.inlinable(fn) {
		return x.inline(f, c, args, in)
	}
	x.v.assume(x, "external function "+name+": arbitrary result, no effect on tracked state")
	return x.freshResults(fn.Signature, sanitize(fn.Name()))
}

func (v *Verifier) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Parent() != nil {
		return v.inlinable(fn.Parent()) || fn.Parent().Pkg != nil && inRepo(fn.Parent().Pkg.Pkg)
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && inRepo(fn.Object().Pkg()) {
			return true
		}
		return fn.Synthetic != "" && fn.Signature.Recv() != nil
	}
	return inRepo(fn.Pkg.Pkg)
}

func (v *Verifier) wouldInline(fn *ssa.Function) bool {
	if !v.inlinable(fn) {
		return false
	}
	c := v.specs.Contracts[fnName(fn)]
	return c == nil || c.Inline
}

func (v *Verifier) closureOf(val ssa.Value) *ssa.Function {
	switch u := val.(type) {
	case *ssa.MakeClosure:
		return u.Fn.(*ssa.Function)
	case *ssa.Function:
		if v.wouldInline(u) {
			return u
		}
	case *ssa.UnOp:
		if a, ok := u.X.(*ssa.Alloc); ok {
			var found *ssa.Function
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					f := v.closureOf(s.Val)
					if f == nil || found != nil {
						return nil
					}
					found = f
				}
			}
			return found
		}
	}
	return nil
}

func (x *Exec) inline(f *Frame, c *Closure, args []Value, in ssa.Instruction) Value {
	fn := c.Fn
	for p := f; p != nil; p = p.parent {
		if p.fn == fn {
			x.unsup("recursive function %s needs a contract", fn)
		}
	}
	x.frameN++
	nf := &Frame{id: x.frameN, fn: fn, regs: map[ssa.Value]Value{}, parent: f, binds: c.Binds}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	base := 0
	if b, ok := x.v.inlineBase[fmt.Sprintf("%d/%p", f.id, in)]; ok {
		base = b
	} else {
		base = 1000 + 10*x.frameN
	}
	x.calls = append(x.calls, "inlined "+fnName(fn))
	saved := x.loopSt
	vs := x.runBody(nf, base)
	x.loopSt = saved
	return tupleVal(Tuple(vs))
}

// ---------- contract calls

func paramTypes(sig *types.Signature) (ts []types.Type) {
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return
}

// recvPtr: contracts on pointer receivers require a non-nil receiver.
func recvPtr(sig *types.Signature) bool {
	if sig.Recv() == nil {
		return false
	}
	_, ok := sig.Recv().Type().(*types.Pointer)
	return ok
}

func (x *Exec) contractCall(f *Frame, c *Contract, sig *types.Signature, args []Value, pos token.Pos, in ...ssa.Instruction) Value {
	x.calls = append(x.calls, c.Name)
	x.v.used[c.Name] = true
	x.v.allUsed[c.Name] = true
	x.v.allUsed[c.Name] = true
	if c.Trusted {
		n := "trusted contract " + c.Name
		if c.Note != "" {
			n += ": " + c.Note
		}
		x.v.assume(x, n)
	}
	from := c.AssumedFor[x.v.prop]
	if from != nil {
		x.v.assume(x, "contract of "+c.Name+" relied on here; it is verified under "+strings.Join(append(append([]string{}, from...), c.FrameOf[x.v.prop]...), " and "))
	}
	active := func(cl *Clause) bool {
		if x.v.active(cl) {
			return true
		}
		for _, t := range from {
			if hasTag(cl.Tags, t) {
				return true
			}
		}
		return false
	}
	pts := paramTypes(sig)
	if len(pts) == len(args)-1 && sig.Recv() == nil {
		pts = append([]types.Type{types.NewInterfaceType(nil, nil)}, pts...)
	}
	env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.st, pkg: c.Pkg}
	for i, p := range c.Params {
		if i >= len(args) {
			x.unsup("contract %s has too many parameters", c.Name)
		}
		if cl, ok := args[i].(*Closure); ok {
			env.vars[p] = TV{t: x.term(cl), typ: pts[i], fn: cl}
			continue
		}
		env.vars[p] = TV{t: x.term(args[i]), typ: pts[i]}
	}
	short := c.Name[strings.LastIndex(c.Name, ".")+1:]
	x.callHints(f, "call "+short, pos, nil)
	if recvPtr(sig) && !c.Trusted {
		x.oblige("nil", "method call on nil receiver", nil, pos, "", neq(x.term(args[0]), intLit(0)))
	}
	for i, r := range c.Requires {
		if !active(r) {
			continue
		}
		x.oblige("pre", c.Name+" "+cname(r, i), tagsFor(r.Tags, from, x.v.prop), pos, r.Src, x.specBool(env, r.E, true))
	}
	if c.NoReturn {
		x.cur = x.newNode([]*Node{x.cur}, []*Term{tFalse})
		x.cur.dead = true
		return x.freshResults(sig, "dead")
	}
	if x.con == c && c.Decr != nil {
		d := x.specTerm(env, c.Decr)
		x.oblige("decreases", "recursive call", nil, pos, "", and(le(intLit(0), d), lt(d, x.decr0)))
	}
	var run Value
	var runCtx *loopCtx
	if c.Runs != nil {
		runCtx = &loopCtx{before: x.st.clone()}
		run = x.runArg(f, c, env, sig, args, pos, in)
	}
	pre := x.st.clone()
	env.old = pre
	env.st = pre
	mods := x.compileMods(c, env)
	if len(mods) > 0 || !(c.PureFn || c.Pure != nil) {
		x.havocMods(mods, pre, pos, c.Name)
	}
	post := *env
	post.st = x.st
	post.loop = runCtx
	post.vars = map[string]TV{}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	if t, ok := run.(*Term); ok {
		post.vars["$r"] = TV{t: t, typ: env.vars["$rtype"].typ}
	}
	var out Tuple
	rs := sig.Results()
	var tvs []TV
	for i := 0; i < rs.Len(); i++ {
		var r *Term
		t := rs.At(i).Type()
		if (c.Pure != nil || c.PureFn) && i == 0 {
			var as []TV
			for _, p := range c.Params {
				as = append(as, env.vars[p])
			}
			pe := *env
			tv := pe.pureCall(c, as, &Expr{File: c.File, Line: c.Line})
			r = pe.rvAs(tv, t, &Expr{File: c.File, Line: c.Line})
			if r.size > 10 {
				n := fresh(short, r.Sort)
				x.assume(eq(n, r))
				r = n
			}
		} else {
			r = fresh(short, sortOf(t))
		}
		x.typeFacts(t, r)
		out = append(out, r)
		tv := TV{t: r, typ: t}
		tvs = append(tvs, tv)
		if i < len(c.Results) {
			post.vars[c.Results[i]] = tv
		}
		if rs.Len() == 1 {
			post.vars["result"] = tv
		}
	}
	for i, e := range c.Ensures {
		if !active(e) {
			continue
		}
		x.assumeAs(cname(e, i), x.specBool(&post, e.E, false))
	}
	x.callHints(f, "aftercall "+short, pos, tvs)
	return tupleVal(out)
}

// runArg executes the function value a contract with a "runs" clause calls.
func (x *Exec) runArg(f *Frame, c *Contract, env *Env, sig *types.Signature, args []Value, pos token.Pos, in []ssa.Instruction) Value {
	for i, p := range c.Params {
		if p != c.Runs.Fn {
			continue
		}
		fs := sig.Params().At(i - len(c.Params) + sig.Params().Len()).Type().Underlying().(*types.Signature)
		var as []Value
		wenv := *env
		wenv.vars = map[string]TV{}
		for k, v := range env.vars {
			wenv.vars[k] = v
		}
		for j, a := range c.Runs.Args {
			t := fs.Params().At(j).Type()
			var r *Term
			if _, ok := t.Underlying().(*types.Pointer); ok {
				r = x.alloc()
			} else {
				r = fresh(a, sortOf(t))
			}
			x.typeFacts(t, r)
			as = append(as, r)
			wenv.vars[a] = TV{t: r, typ: t}
		}
		wenv.st = x.st
		wenv.old = x.st
		for _, w := range c.Runs.Where {
			x.assume(x.specBool(&wenv, w.E, false))
		}
		if fs.Results().Len() == 1 {
			env.vars["$rtype"] = TV{typ: fs.Results().At(0).Type()}
		}
		if cl, ok := args[i].(*Closure); ok {
			var at ssa.Instruction
			if len(in) > 0 {
				at = in[0]
			}
			if !c.Runs.Many {
				return x.callFn(f, cl, as, pos, at)
			}
			var w map[string]bool
			if !x.dry {
				w = x.dryCall(f, func() { x.callFn(f, cl, as, pos, at) })
				x.forgetLocal(w)
			}
			r := x.callFn(f, cl, as, pos, at)
			if !x.dry {
				x.forgetLocal(w)
			}
			return r
		}
		return x.dynCall(f, p, fs, x.term(args[i]), as, pos)
	}
	x.unsup("contract %s: runs names no parameter", c.Name)
	return nil
}

// dryCall runs fn for the keys it writes only.
func (x *Exec) dryCall(f *Frame, fn func()) map[string]bool {
	savedSt, savedCur, savedW, savedNodes, savedSeq := x.st, x.cur, x.writes, len(x.nodes), x.seq
	savedCells := append([]*ssa.Alloc{}, f.cells...)
	savedStack := x.loopSt
	savedCalls := map[string]int{}
	for k, v := range x.callCnt {
		savedCalls[k] = v
	}
	savedDefers := len(f.defers)
	savedDry, savedFrame := x.dry, x.frameN
	x.dry = true
	w := map[string]bool{}
	for {
		x.writes = map[string]bool{}
		x.frameN = savedFrame
		x.st = savedSt.clone()
		x.dryHavoc(w)
		x.cur = x.newNode([]*Node{savedCur}, []*Term{tTrue})
		fn()
		n := len(w)
		for k := range x.writes {
			w[k] = true
		}
		if len(w) == n {
			break
		}
		f.cells = append([]*ssa.Alloc{}, savedCells...)
		f.defers = f.defers[:savedDefers]
	}
	x.dry = savedDry
	x.writes = savedW
	if x.writes != nil {
		for k := range w {
			x.writes[k] = true
		}
	}
	x.st, x.cur = savedSt, savedCur
	x.nodes = x.nodes[:savedNodes]
	x.seq = savedSeq
	f.cells = savedCells
	x.loopSt = savedStack
	x.callCnt = savedCalls
	f.defers = f.defers[:savedDefers]
	return w
}

// forgetLocal makes the variables of this function, the memory it allocated and the ghosts
// among the keys arbitrary.
func (x *Exec) forgetLocal(writes map[string]bool) {
	pre := x.st
	x.cur = x.newNode([]*Node{x.cur}, []*Term{tTrue})
	x.st = x.st.clone()
	if writes["$next"] {
		nx := fresh("next", sInt)
		x.assume(le(x.nextT(pre), nx))
		x.st.m["$next"] = nx
	}
	for _, k := range sortedKeys(writes) {
		if k == "$next" || strings.HasPrefix(k, "$calls:") || strings.HasPrefix(k, "$callarg:") {
			continue
		}
		if strings.HasPrefix(k, "c") {
			if old, ok := pre.m[k].(*Term); ok {
				nv := fresh(cellBase(k), old.Sort)
				x.st.m[k] = nv
				if t := x.cellType(k); t != nil {
					x.typeFacts(t, nv)
				}
			}
			continue
		}
		hi := x.v.heaps[k]
		if hi == nil || hi.kind == 'L' {
			continue
		}
		oh := x.heap(pre, k)
		nh := fresh(heapBase(k), oh.Sort)
		x.st.m[k] = nh
		if w := x.heapWF(k, nh, x.nextT(x.st)); w != nil {
			x.assume(w)
		}
		if hi.kind != 'G' {
			r := boundVar("r", sInt)
			x.assume(forall([]*Term{r}, implies(lt(r, x.entryNx), eq(sel(nh, r), sel(oh, r))), []*Term{sel(nh, r)}))
		}
	}
}

// tagsFor: a precondition taken over from other properties is an obligation of this one.
func tagsFor(tags, from []string, prop string) []string {
	if from == nil || len(tags) == 0 {
		return tags
	}
	return append(append([]string{}, tags...), prop)
}

func (x *Exec) callHints(f *Frame, at string, pos token.Pos, res []TV) {
	if x.con == nil || x.dry {
		if x.con != nil {
			for _, g := range x.con.Ghosts {
				if g.At == at {
					x.ghostSet(f, g, res)
				}
			}
		}
		return
	}
	for i, h := range x.con.Hints {
		if h.At != at || !x.v.active(h.C) {
			continue
		}
		env := x.envHere(f)
		env = withResults(env, res)
		x.hint(fmt.Sprintf("%s %s", at, cname(h.C, i)), h.C, pos, env)
	}
	for _, g := range x.con.Ghosts {
		if g.At == at {
			x.ghostSet(f, g, res)
		}
	}
}

func withResults(env *Env, res []TV) *Env {
	for i, r := range res {
		env = env.with(fmt.Sprintf("$r%d", i), r)
	}
	return env
}

func (x *Exec) ghostSet(f *Frame, g *GhostSet, res []TV) {
	env := withResults(x.envHere(f), res)
	t := env.eval(g.Target)
	if t.addr == nil {
		env.fail(g.Target, "ghost assignment needs an lvalue")
	}
	v := env.rvAs(env.eval(g.E), t.typ, g.E)
	x.storeTo(t.addr, v, token.NoPos)
}

// compileMods turns modifies items into per-heap predicates over object references.
func (x *Exec) compileMods(c *Contract, env *Env) map[string][]modPred {
	mods := map[string][]modPred{}
	addP := func(k string, p modPred) { mods[k] = append(mods[k], p) }
	is := func(r *Term) modPred { return func(q *Term) *Term { return eq(q, r) } }
	condP := func(m *ModItem, t types.Type) modPred {
		if m.Cond == nil {
			return func(q *Term) *Term { return tTrue }
		}
		return func(q *Term) *Term {
			e := env.with(m.Var, TV{t: q, typ: t})
			return e.rv(e.eval(m.Cond), m.Cond)
		}
	}
	var fieldMods func(root types.Type, hp string, t types.Type, p modPred)
	fieldMods = func(root types.Type, hp string, t types.Type, p modPred) {
		if isMutex(t) {
			return
		}
		if isStruct(t) && !isOpaque(t) {
			for _, l := range structLeaves(t) {
				if isMutex(l.typ) {
					continue
				}
				addP(x.fieldKey(root, hp+l.path, l.typ), p)
			}
			return
		}
		addP(x.fieldKey(root, hp, t), p)
	}
	for _, m := range c.Mods {
		switch m.Kind {
		case "field":
			tv := env.eval(m.E)
			a := tv.addr
			if a == nil {
				env.fail(m.E, "modifies needs an lvalue")
			}
			switch a.Kind {
			case 'f':
				fieldMods(a.Root, a.HP, a.Typ, is(a.Ref))
			case 'g':
				addP(a.Cell, func(q *Term) *Term { return tTrue })
			case 'e':
				addP(x.elemKey(a.Elem), is(a.Arr))
			case 'b':
				addP(x.boxKey(a.Base), is(a.Ref))
			}
		case "obj":
			tv := env.eval(m.E)
			p, ok := tv.typ.Underlying().(*types.Pointer)
			if !ok {
				env.fail(m.E, "obj needs a pointer")
			}
			r := env.rv(tv, m.E)
			if isStruct(p.Elem()) {
				fieldMods(p.Elem(), "", p.Elem(), is(r))
			} else {
				addP(x.boxKey(p.Elem()), is(r))
			}
		case "elems":
			tv := env.eval(m.E)
			s, ok := tv.typ.Underlying().(*types.Slice)
			if !ok {
				env.fail(m.E, "elems needs a slice")
			}
			arr, _, _, _ := env.slParts(tv, m.E)
			if x.v.objElem(s.Elem()) {
				fieldMods(s.Elem(), "", s.Elem(), func(q *Term) *Term { return and(lt(q, intLit(0)), eq(app("elemref.a", q), arr)) })
			} else {
				// a nil slice has no elements
				addP(x.elemKey(s.Elem()), func(q *Term) *Term { return and(eq(q, arr), neq(arr, intLit(0))) })
			}
		case "map":
			tv := env.eval(m.E)
			mt, ok := tv.typ.Underlying().(*types.Map)
			if !ok {
				env.fail(m.E, "map needs a map")
			}
			d, mv := x.mapKeys(mt)
			r := env.rv(tv, m.E)
			addP(d, is(r))
			addP(mv, is(r))
		case "chan":
			tv := env.eval(m.E)
			ct, ok := tv.typ.Underlying().(*types.Chan)
			if !ok {
				env.fail(m.E, "chan needs a channel")
			}
			r := env.rv(tv, m.E)
			a, b := x.chanKeys(ct)
			cc, d := x.rcvKeys(ct)
			for _, k := range []string{a, b, cc, d} {
				addP(k, is(r))
			}
		case "chans":
			t := x.v.resolveType(m.Type, c.Pkg)
			ct := types.NewChan(types.SendRecv, t)
			a, b := x.chanKeys(ct)
			cc, d := x.rcvKeys(ct)
			for _, k := range []string{a, b, cc, d} {
				addP(k, condP(m, types.NewChan(types.SendRecv, t)))
			}
		case "typeelems":
			t := x.v.resolveType(m.Type, c.Pkg)
			if x.v.objElem(t) {
				fieldMods(t, "", t, func(q *Term) *Term { return and(lt(q, intLit(0)), condP(m, tyRef)(app("elemref.a", q))) })
			} else {
				addP(x.elemKey(t), condP(m, tyRef))
			}
		case "typemap":
			mt := x.v.resolveType(m.Type, c.Pkg).(*types.Map)
			d, mv := x.mapKeys(mt)
			addP(d, condP(m, mt))
			addP(mv, condP(m, mt))
		case "typefield":
			t := x.v.resolveType(m.Type, c.Pkg)
			tv := TV{addr: &Addr{Kind: 'f', Ref: intLit(0), Root: t, Typ: t}, typ: t}
			for _, fn := range strings.Split(m.Fld, ".") {
				tv = env.fieldOf(tv, fn, &Expr{File: m.File, Line: m.Line})
			}
			a := tv.addr
			fieldMods(a.Root, a.HP, a.Typ, condP(m, types.NewPointer(t)))
		case "box":
			t := x.v.resolveType(m.Type, c.Pkg)
			addP(x.boxKey(t), condP(m, types.NewPointer(t)))
		case "calls":
			addP(x.regHeap("$calls:"+m.Fld, sInt, 'T', nil), func(q *Term) *Term { return tTrue })
			for i, t := range x.v.recorded[m.Fld] {
				addP(x.regHeap(fmt.Sprintf("$callarg:%s:%d", m.Fld, i), arrSort(sInt, sortOf(t)), 'T', nil), func(q *Term) *Term { return tTrue })
			}
		case "global":
			e := &Expr{Kind: "id", Name: m.Fld, File: m.File, Line: m.Line}
			tv := env.eval(e)
			addP(tv.addr.Cell, func(q *Term) *Term { return tTrue })
		}
	}
	return mods
}

func isWholeKey(k string) bool {
	return strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "LG:") || strings.HasPrefix(k, "$call")
}

// freshRef: the object was allocated after function entry.
func (x *Exec) freshRef(r *Term) *Term {
	if _, ok := funcDecls["elemref"]; ok && len(x.v.specs.ObjElems) > 0 {
		return or(ge(r, x.entryNx), and(lt(r, intLit(0)), ge(app("elemref.a", r), x.entryNx)))
	}
	return ge(r, x.entryNx)
}

func (x *Exec) havocMods(mods map[string][]modPred, pre *State, pos token.Pos, what string) {
	preNext := x.nextT(pre)
	nx := fresh("next", sInt)
	x.assume(le(preNext, nx))
	if x.writes != nil {
		x.writes["$next"] = true
	}
	x.st.m["$next"] = nx
	for _, k := range sortedKeys(mods) {
		ps := mods[k]
		old := x.heap(pre, k)
		nh := fresh(heapBase(k), old.Sort)
		if x.writes != nil {
			x.writes[k] = true
		}
		x.st.m[k] = nh
		if isWholeKey(k) {
			if x.con != nil && x.mods[k] == nil && x.mods["*"] == nil && !strings.HasPrefix(k, "$call") {
				x.oblige("frame", what+" modifies "+k, nil, pos, "", tFalse)
			}
			if w := x.heapWF(k, nh, nx); w != nil {
				x.assume(w)
			}
			continue
		}
		r := boundVar("r", sInt)
		var alts []*Term
		for _, p := range ps {
			alts = append(alts, p(r))
		}
		mod := or(alts...)
		x.assume(forall([]*Term{r}, implies(and(x.before(r, preNext), not(mod)), eq(sel(nh, r), sel(old, r))), []*Term{sel(nh, r)}))
		if w := x.heapWF(k, nh, nx); w != nil {
			x.assume(w)
		}
		if x.con != nil && x.mods["*"] == nil && !x.dry {
			sk := fresh("modref", sInt)
			var as []*Term
			for _, p := range ps {
				as = append(as, p(sk))
			}
			var allowed []*Term
			for _, p := range x.mods[k] {
				allowed = append(allowed, p(sk))
			}
			allowed = append(allowed, x.freshRef(sk))
			x.oblige("frame", what+" modifies "+k, nil, pos, "", implies(or(as...), or(allowed...)))
		}
	}
}

// before: the object existed when the allocation counter was nx.
func (x *Exec) before(r, nx *Term) *Term { return lt(r, nx) }

// ---------- builtins

func (x *Exec) builtin(f *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, pos token.Pos) Value {
	switch b.Name() {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if vs, ok := args[0].(*VarSlice); ok {
				return intLit(int64(len(vs.vals)))
			}
			return x.slen(x.term(args[0]))
		case *types.Map:
			d, _ := x.mapKeys(u)
			m := x.term(args[0])
			dom := sel(x.heap(x.st, d), m)
			x.guardMap(u, m, false, pos)
			x.mapNilDom(u, m)
			c := x.card(dom)
			x.assume(le(intLit(0), c))
			x.assume(le(c, intLit(1<<47)))
			x.assume(implies(eq(m, intLit(0)), eq(c, intLit(0))))
			k := boundVar("k", sortOf(u.Key()))
			x.assume(implies(eq(c, intLit(0)), forall([]*Term{k}, not(sel(dom, k)), []*Term{sel(dom, k)})))
			return c
		case *types.Chan:
			declFun("chan.pending", []string{sInt}, sInt)
			r := fresh("chanlen", sInt)
			x.assume(le(intLit(0), r))
			return r
		case *types.Basic:
			return app("gstr.len", x.term(args[0]))
		case *types.Array:
			return intLit(u.Len())
		case *types.Pointer:
			return intLit(u.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(args[0])
			if s.Op == "nilslice" {
				return intLit(0)
			}
			return app("sl.cap", s)
		case *types.Chan:
			declFun("chan.cap", []string{sInt}, sInt)
			return app("chan.cap", x.term(args[0]))
		}
	case "append":
		return x.appendOp(f, cc, args, pos)
	case "copy":
		return x.copyOp(f, cc, args, pos)
	case "delete":
		m := cc.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(m, x.term(args[0]), x.term(args[1]), pos)
		return Tuple{}
	case "close", "print", "println":
		return Tuple{}
	case "recover":
		return constT("nilif", sIface)
	case "ssa:deferstack":
		return intLit(0)
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			if b.Name() == "min" {
				r = ite(le(r, t), r, t)
			} else {
				r = ite(le(t, r), r, t)
			}
		}
		return r
	}
	x.unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) appendOp(f *Frame, cc *ssa.CallCommon, args []Value, pos token.Pos) Value {
	st := cc.Args[0].Type().Underlying().(*types.Slice)
	el := st.Elem()
	if x.v.objElem(el) {
		x.unsup("append to object slice")
	}
	s := x.term(args[0])
	key := x.elemKey(el)
	sarr, soff, sl, scap := app("sl.arr", s), app("sl.off", s), x.slen(s), app("sl.cap", s)
	if s.Op == "nilslice" {
		sarr, soff, sl, scap = intLit(0), intLit(0), intLit(0), intLit(0)
	}
	var n *Term
	vs, isVar := args[1].(*VarSlice)
	isStr := false
	if isVar {
		n = intLit(int64(len(vs.vals)))
	} else if isStringT(cc.Args[1].Type()) {
		isStr = true
		n = app("gstr.len", x.term(args[1]))
	} else {
		t := x.term(args[1])
		if t.Op == "nilslice" {
			return s
		}
		n = x.slen(t)
	}
	nl := add(sl, n)
	fits := le(nl, scap)
	if scap.Op == "#0" && isVar {
		fits = tFalse
	}
	nr := x.alloc()
	arr := nr
	if fits.Op != "false" {
		arr = fresh("arr", sInt)
		x.assume(eq(arr, ite(fits, sarr, nr)))
		x.guardElem(el, arr, true, pos)
		// an append of nothing writes nothing
		if isVar {
			x.checkWrite(key, arr, pos)
		} else {
			x.checkWriteIf(key, arr, lt(intLit(0), n), pos)
		}
	}
	h := x.heap(x.st, key)
	row := sel(h, sarr)
	var nrow *Term
	if isVar {
		nrow = row
		for i, v := range vs.vals {
			nrow = store(nrow, add(add(soff, sl), intLit(int64(i))), x.term(v))
		}
	} else {
		nrow = fresh("row", row.Sort)
		k := boundVar("k", sInt)
		end := add(soff, sl)
		x.assume(forall([]*Term{k}, implies(lt(k, end), eq(sel(nrow, k), sel(row, k))), []*Term{sel(nrow, k)}))
		if isStr {
			declFun("gstr.at", []string{sStr, sInt}, sInt)
			x.assume(forall([]*Term{k}, implies(and(le(end, k), lt(k, add(end, n))), eq(sel(nrow, k), app("gstr.at", x.term(args[1]), sub(k, end)))), []*Term{sel(nrow, k)}))
		} else {
			t := x.term(args[1])
			trow := sel(h, app("sl.arr", t))
			toff := app("sl.off", t)
			d := sub(toff, end)
			x.assume(forall([]*Term{k}, implies(and(le(end, k), lt(k, add(end, n))), eq(sel(nrow, k), sel(trow, add(k, d)))), []*Term{sel(nrow, k)}))
			k2 := boundVar("k", sInt)
			x.assume(forall([]*Term{k2}, implies(and(le(toff, k2), lt(k2, add(toff, n))), eq(sel(nrow, sub(k2, d)), sel(trow, k2))), []*Term{sel(trow, k2)}))
			if t.Sort == sSlice {
				x.assume(implies(eq(n, intLit(0)), eq(nrow, row)))
			}
		}
	}
	x.setHeap(key, store(h, arr, nrow))
	cp := fresh("cap", sInt)
	x.assume(ite(fits, eq(cp, scap), le(nl, cp)))
	x.assume(le(nl, intLit(1<<46)))
	if !isVar {
		// append(nil, empty...) stays nil
		ra := fresh("arr", sInt)
		x.assume(eq(ra, ite(and(eq(n, intLit(0)), eq(sarr, intLit(0))), intLit(0), arr)))
		cp2 := fresh("cap", sInt)
		x.assume(eq(cp2, ite(eq(ra, intLit(0)), intLit(0), cp)))
		return x.mkSlice("app", ra, soff, nl, cp2)
	}
	return x.mkSlice("app", arr, soff, nl, cp)
}

func (x *Exec) checkWriteIf(key string, ref, cond *Term, pos token.Pos) {
	if x.con == nil || x.dry || x.mods["*"] != nil {
		return
	}
	alts := []*Term{not(cond), x.freshRef(ref)}
	for _, p := range x.mods[key] {
		alts = append(alts, p(ref))
	}
	x.oblige("frame", "modifies "+key, nil, pos, "", or(alts...))
}

func (x *Exec) copyOp(f *Frame, cc *ssa.CallCommon, args []Value, pos token.Pos) Value {
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	d := x.term(args[0])
	key := x.elemKey(el)
	if isStringT(cc.Args[1].Type()) {
		x.unsup("copy from string")
	}
	s := x.term(args[1])
	dl, sl := x.slen(d), x.slen(s)
	n := fresh("copied", sInt)
	x.assume(eq(n, ite(le(dl, sl), dl, sl)))
	darr, doff, sarr, soff := app("sl.arr", d), app("sl.off", d), app("sl.arr", s), app("sl.off", s)
	x.guardElem(el, darr, true, pos)
	x.checkWriteIf(key, darr, lt(intLit(0), n), pos)
	h := x.heap(x.st, key)
	row, srow := sel(h, darr), sel(h, sarr)
	nrow := fresh("row", row.Sort)
	k := boundVar("k", sInt)
	in := and(le(doff, k), lt(k, add(doff, n)))
	x.assume(forall([]*Term{k}, eq(sel(nrow, k), ite(in, sel(srow, add(k, sub(soff, doff))), sel(row, k))), []*Term{sel(nrow, k)}))
	k2 := boundVar("k", sInt)
	x.assume(forall([]*Term{k2}, implies(and(le(soff, k2), lt(k2, add(soff, n))), eq(sel(nrow, add(k2, sub(doff, soff))), sel(srow, k2))), []*Term{sel(srow, k2)}))
	x.setHeap(key, store(h, darr, nrow))
	return n
}

// ---------- go statements

func (x *Exec) goStmt(f *Frame, i *ssa.Go) {
	cc := i.Common()
	x.v.note("go statements: the spawned function runs concurrently and is verified on its own; only its preconditions are checked at the go statement")
	c := cc.StaticCallee()
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(f, a))
	}
	name := "go"
	if c != nil {
		name = fnName(c)
	} else if cl, ok := x.maybeVal(f, cc.Value).(*Closure); ok {
		c = cl.Fn
		name = fnName(c)
	}
	if c != nil {
		if con := x.v.specs.Contracts[name]; con != nil {
			env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.st, pkg: con.Pkg}
			pts := paramTypes(c.Signature)
			for k, p := range con.Params {
				env.vars[p] = TV{t: x.term(args[k]), typ: pts[k]}
			}
			for k, r := range con.Requires {
				if hasTag(r.Tags, "C13") && len(r.Tags) == 1 || !x.v.active(r) {
					continue // the new goroutine holds no locks
				}
				x.oblige("pre", "go "+name+" "+cname(r, k), r.Tags, i.Pos(), r.Src, x.specBool(env, r.E, true))
			}
		}
		if len(args) == c.Signature.Params().Len() || c.Signature.Recv() != nil {
			x.recordGo(name, c.Signature, args)
		}
	}
}

func (x *Exec) maybeVal(f *Frame, v ssa.Value) Value {
	if _, ok := v.(*ssa.Builtin); ok {
		return nil
	}
	return x.val(f, v)
}

func hasTag(ts []string, t string) bool {
	for _, s := range ts {
		if s == t {
			return true
		}
	}
	return false
}

func (x *Exec) recordGo(name string, sig *types.Signature, args []Value) {
	name = "go " + name
	key := x.regHeap("$calls:"+name, sInt, 'T', nil)
	pts := paramTypes(sig)
	x.v.recorded[name] = pts
	n := x.heap(x.st, key)
	for i, t := range pts {
		if _, ok := args[i].(*Closure); ok {
			continue
		}
		ak := x.regHeap(fmt.Sprintf("$callarg:%s:%d", name, i), arrSort(sInt, sortOf(t)), 'T', nil)
		x.setHeap(ak, store(x.heap(x.st, ak), n, x.term(args[i])))
	}
	x.setHeap(key, add(n, intLit(1)))
}

// ---------- external models

func (x *Exec) lockOp(a Value, pos token.Pos, op string) {
	ad, ok := a.(*Addr)
	if !ok {
		x.unsup("lock through a pointer value")
	}
	var key string
	var ref *Term
	switch ad.Kind {
	case 'g':
		key = ad.Cell
	case 'f':
		key = x.lockKeyOf(ad.Root, ad.HP)
		ref = ad.Ref
	default:
		x.unsup("lock of kind %c", ad.Kind)
	}
	get := func() *Term {
		h := x.heap(x.st, key)
		if ref == nil {
			return h
		}
		return sel(h, ref)
	}
	set := func(v *Term) {
		if x.writes != nil {
			x.writes[key] = true
		}
		if ref == nil {
			x.st.m[key] = v
		} else {
			x.setHeap(key, store(x.heap(x.st, key), ref, v))
		}
	}
	cur := get()
	tag := lockTags
	if (op == "Lock" || op == "RLock") && ad.Kind == 'f' {
		// one global order: no later lock of the same object is held
		cut := func(s string) string { return strings.TrimSuffix(strings.TrimSuffix(s, ".RWMutex"), ".Mutex") }
		me := cut(typeName(ad.Root) + ad.HP)
		for i, n := range x.v.specs.LockOrder {
			if n != me {
				continue
			}
			for _, l := range x.v.specs.LockOrder[i+1:] {
				hp, ok := strings.CutPrefix(l, typeName(ad.Root))
				if !ok {
					continue
				}
				k := x.lockKeyOf(ad.Root, hp+strings.TrimPrefix(ad.HP, cut(ad.HP)))
				x.oblige("lock", "lock order: "+l+" is not held when "+me+" is taken", tag, pos, "", eq(sel(x.heap(x.st, k), ref), intLit(0)))
			}
		}
	}
	switch op {
	case "Lock":
		x.oblige("lock", "lock not already held", tag, pos, "", eq(cur, intLit(0)))
		set(intLit(2))
	case "RLock":
		x.oblige("lock", "read lock not already held", tag, pos, "", eq(cur, intLit(0)))
		set(intLit(1))
	case "Unlock":
		x.oblige("lock", "unlock of a held lock", tag, pos, "", eq(cur, intLit(2)))
		set(intLit(0))
	case "RUnlock":
		x.oblige("lock", "read-unlock of a held lock", tag, pos, "", eq(cur, intLit(1)))
		set(intLit(0))
	}
}

func (x *Exec) extern(f *Frame, fn *ssa.Function, name string, args []Value, pos token.Pos) (Value, bool) {
	switch name {
	case "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock", "sync.Mutex.Lock", "sync.Mutex.Unlock":
		x.lockOp(args[0], pos, fn.Name())
		return Tuple{}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit":
		if x.con != nil && x.con.Fatal != "" && strings.HasPrefix(name, "log.Fatal") {
			x.v.assume(x, x.con.Name+" may end the process: "+x.con.Fatal)
		} else if !x.panicOk {
			x.oblige("panic", name+" unreachable", nil, pos, "", tFalse)
		}
		x.cur = x.newNode([]*Node{x.cur}, []*Term{tFalse})
		x.cur.dead = true
		return Tuple{}, true
	case "sort.Sort", "sort.Stable":
		x.callHints(f, "call "+fn.Name(), pos, nil)
		x.sortOp(x.term(args[0]), name == "sort.Stable", pos)
		x.callHints(f, "aftercall "+fn.Name(), pos, nil)
		return Tuple{}, true
	case "sort.Search":
		cl, ok := args[1].(*Closure)
		if !ok {
			x.unsup("sort.Search with an unknown predicate")
		}
		x.callHints(f, "call Search", pos, nil)
		r := x.sortSearch(f, cl, x.term(args[0]), pos)
		x.callHints(f, "aftercall Search", pos, nil)
		return r, true
	case "sort.Reverse":
		declFun("sort.reversed", []string{sIface}, sIface)
		return app("sort.reversed", x.term(args[0])), true
	case "sort.Strings":
		x.sortSlice(x.term(args[0]), tyString, pos)
		return Tuple{}, true
	case "sort.Ints":
		x.sortSlice(x.term(args[0]), tyInt, pos)
		return Tuple{}, true
	case "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddUint32":
		a := x.deref(args[0], fn.Signature.Params().At(0).Type(), pos)
		t := fn.Signature.Results().At(0).Type()
		nv := x.intResult(add(x.term(x.load(a, pos)), x.term(args[1])), t, pos, "atomic add")
		x.storeTo(a, nv, pos)
		return nv, true
	case "sync/atomic.LoadUint64", "sync/atomic.LoadInt64":
		a := x.deref(args[0], fn.Signature.Params().At(0).Type(), pos)
		return x.load(a, pos), true
	case "runtime.Gosched", "runtime.GC":
		return Tuple{}, true
	case "runtime.NumCPU":
		r := fresh("numcpu", sInt)
		x.assume(and(le(intLit(1), r), le(r, intLit(1<<20))))
		return r, true
	case "errors.New", "fmt.Errorf":
		r := fresh("err", sIface)
		x.ifaceFacts(r)
		x.assume(lt(intLit(0), app("if.tag", r)))
		return r, true
	}
	return nil, false
}

// sortSearch models sort.Search(n, pred): the result r is in [0, n], pred holds at r if r < n and
// fails at r-1 if r > 0 (binary search keeps exactly this, whether or not pred is monotone).
// The predicate is executed for an arbitrary index of [0, n) and must not write anything.
func (x *Exec) sortSearch(f *Frame, cl *Closure, n *Term, pos token.Pos) Value {
	x.v.assume(x, "sort.Search returns r in [0, n] with the predicate true at r if r < n and false at r-1 if r > 0")
	call := func(i *Term) Value { return x.callFn(f, cl, []Value{i}, pos, nil) }
	if !x.dry {
		for k := range x.dryCall(f, func() { call(fresh("i", sInt)) }) {
			if !strings.HasPrefix(k, "c") && k != "$next" && !strings.HasPrefix(k, "$call") {
				x.unsup("the predicate of sort.Search writes state")
			}
		}
	}
	base, st := x.cur, x.st
	i := fresh("i", sInt)
	x.cur, x.st = x.newNode([]*Node{base}, []*Term{and(le(intLit(0), i), lt(i, n))}), st.clone()
	call(i)
	x.cur, x.st = x.newNode([]*Node{base}, []*Term{tTrue}), st
	r := fresh("search", sInt)
	x.assume(and(le(intLit(0), r), or(le(r, n), eq(r, intLit(0)))))
	for _, s := range []struct {
		at, in *Term
		want   bool
	}{{r, lt(r, n), true}, {sub(r, intLit(1)), lt(intLit(0), r), false}} {
		base := x.cur
		x.cur, x.st = x.newNode([]*Node{base}, []*Term{s.in}), st.clone()
		b := x.term(call(s.at))
		if !s.want {
			b = not(b)
		}
		yes := x.cur
		no := x.newNode([]*Node{base}, []*Term{not(s.in)})
		x.cur, x.st = x.newNode([]*Node{yes, no}, []*Term{b, tTrue}), st
	}
	return r
}

// sortOp models sort.Sort / sort.Stable on a boxed slice (possibly reversed).
func (x *Exec) sortOp(v *Term, stable bool, pos token.Pos) {
	rev := false
	for v.Op == "sort.reversed" {
		rev = !rev
		v = v.Args[0]
	}
	t, ok := boxTypes[v.Op]
	if !ok {
		x.unsup("sort of an unknown interface value")
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		x.unsup("sort of a non-slice")
	}
	c := x.v.specs.Contracts[typeName(t)+".Less"]
	if c == nil || c.Pure == nil {
		x.unsup("sort.Sort needs a pure contract for %s.Less", typeName(t))
	}
	for _, m := range []string{"Len", "Swap"} {
		if x.v.specs.Contracts[typeName(t)+"."+m] == nil {
			x.unsup("sort.Sort needs a contract for %s.%s", typeName(t), m)
		}
		x.v.used[typeName(t)+"."+m] = true
	}
	x.v.used[typeName(t)+".Less"] = true
	x.v.assume(x, "sort.Sort/sort.Stable permute the elements through Swap and leave them ordered by Less (stable: ties keep their order); Less is a strict weak order")
	s := v.Args[0]
	if s.Op == "nilslice" {
		return
	}
	el := sl.Elem()
	less := func(i, j *Term) *Term { // absolute indices
		env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.st, pkg: c.Pkg}
		off := app("sl.off", s)
		a, b := sub(i, off), sub(j, off)
		if rev {
			a, b = b, a
		}
		tv := env.pureCall(c, []TV{{t: s, typ: t}, {t: a, typ: tyInt}, {t: b, typ: tyInt}}, &Expr{File: c.File, Line: c.Line})
		return env.rv(tv, c.Pure)
	}
	x.permute(s, el, less, stable, pos)
}

func (x *Exec) permute(s *Term, el types.Type, less func(i, j *Term) *Term, stable bool, pos token.Pos) {
	key := x.elemKey(el)
	arr, off, ln := app("sl.arr", s), app("sl.off", s), x.slen(s)
	x.guardElem(el, arr, true, pos)
	x.checkWriteIf(key, arr, lt(intLit(1), ln), pos)
	h := x.heap(x.st, key)
	row := sel(h, arr)
	nrow := fresh("sorted", row.Sort)
	pn := fresh("perm", arrSort(sInt, sInt))
	qn := fresh("perminv", arrSort(sInt, sInt))
	end := add(off, ln)
	k := boundVar("k", sInt)
	in := func(k *Term) *Term { return and(le(off, k), lt(k, end)) }
	x.setHeap(key, store(h, arr, nrow))
	p, q := sel(pn, k), sel(qn, k)
	// the permutation is remembered in the ghost variables $perm and $perminv of contracts that modify them
	if x.con != nil {
		for _, m := range x.con.Mods {
			if m.Kind == "global" && (m.Fld == "$perm" || m.Fld == "$perminv") {
				t := pn
				if m.Fld == "$perminv" {
					t = qn
				}
				tv := x.envHere(nil).eval(&Expr{Kind: "id", Name: m.Fld, File: m.File, Line: m.Line})
				x.storeTo(tv.addr, t, token.NoPos)
			}
		}
	}
	x.assume(forall([]*Term{k}, implies(not(in(k)), eq(sel(nrow, k), sel(row, k))), []*Term{sel(nrow, k)}))
	x.assume(forall([]*Term{k}, implies(in(k), and(in(p), eq(sel(qn, p), k), eq(sel(nrow, k), sel(row, p)))), []*Term{sel(nrow, k)}, []*Term{p}))
	k2 := boundVar("k", sInt)
	q = sel(qn, k2)
	x.assume(forall([]*Term{k2}, implies(in(k2), and(in(q), eq(sel(pn, q), k2), eq(sel(nrow, q), sel(row, k2)))), []*Term{sel(row, k2)}, []*Term{q}))
	i, j := boundVar("i", sInt), boundVar("j", sInt)
	x.assume(forall([]*Term{i, j}, implies(and(le(off, i), lt(i, j), lt(j, end)), not(less(j, i))), []*Term{sel(nrow, i), sel(nrow, j)}))
	if stable {
		i, j := boundVar("i", sInt), boundVar("j", sInt)
		x.assume(forall([]*Term{i, j}, implies(and(le(off, i), lt(i, j), lt(j, end), not(less(i, j))), lt(sel(pn, i), sel(pn, j))), []*Term{sel(nrow, i), sel(nrow, j)}))
	}
}

func (x *Exec) sortSlice(s *Term, el types.Type, pos token.Pos) {
	if s.Op == "nilslice" {
		return
	}
	x.v.assume(x, "sort.Strings/sort.Ints permute the elements and leave them in increasing order")
	arr := app("sl.arr", s)
	less := func(i, j *Term) *Term {
		r := sel(x.heap(x.st, x.elemKey(el)), arr)
		a, b := sel(r, i), sel(r, j)
		if el == tyString {
			a, b = app("gstr.ord", a), app("gstr.ord", b)
		}
		return lt(a, b)
	}
	x.permute(s, el, less, false, pos)
}

// ---------- return

func (x *Exec) atReturn(f *Frame, vs []Value, pos token.Pos) {
	if x.con == nil {
		return
	}
	x.exitN++
	sig := f.fn.Signature
	var tvs []TV
	for i, v := range vs {
		tvs = append(tvs, TV{t: x.term(v), typ: sig.Results().At(i).Type()})
	}
	addRes := func(env *Env) *Env {
		e := *env
		e.vars = map[string]TV{}
		for k, v := range env.vars {
			e.vars[k] = v
		}
		for i, r := range x.con.Results {
			if i < len(tvs) {
				e.vars[r] = tvs[i]
			}
		}
		if len(tvs) == 1 {
			e.vars["result"] = tvs[0]
		}
		return &e
	}
	for _, g := range x.con.Ghosts {
		if g.At != "exit" {
			continue
		}
		env := addRes(x.envHere(f))
		t := env.eval(g.Target)
		if t.addr == nil {
			env.fail(g.Target, "ghost assignment needs an lvalue")
		}
		v := env.rvAs(env.eval(g.E), t.typ, g.E)
		x.storeTo(t.addr, v, token.NoPos)
	}
	if x.dry {
		return
	}
	for i, h := range x.con.Hints {
		if h.At != "exit" || !x.v.active(h.C) {
			continue
		}
		env := addRes(x.envHere(f))
		x.hint(fmt.Sprintf("exit %s", cname(h.C, i)), h.C, pos, env)
	}
	env := addRes(&Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: x.con.Pkg, par: x.params})
	for i, e := range x.con.Ensures {
		if !x.v.active(e) {
			continue
		}
		x.obligeBy("post", cname(e, i), e, pos, x.specBool(env, e.E, true))
	}
	if (x.con.Pure != nil || x.con.PureFn) && len(tvs) > 0 && x.con.Pure != nil {
		pe := &Env{x: x, vars: map[string]TV{}, st: x.entry, old: x.entry, pkg: x.con.Pkg, par: x.params}
		want := pe.rvAs(pe.eval(x.con.Pure), tvs[0].typ, x.con.Pure)
		x.oblige("post", "result", nil, pos, "", eq(tvs[0].t, want))
	}
	for _, k := range sortedKeys(x.st.m) {
		hi, ok := x.v.heaps[k]
		if !ok || hi.kind != 'L' {
			continue
		}
		cur, old := x.st.m[k].(*Term), x.heap(x.entry, k)
		if cur == old {
			continue
		}
		if cur.Sort == sInt {
			x.oblige("lock", "lock "+k+" released at return", lockTags, pos, "", eq(cur, old))
			continue
		}
		r := boundVar("r", sInt)
		x.oblige("lock", "lock "+k+" released at return", lockTags, pos, "", forall([]*Term{r}, implies(lt(r, x.entryNx), eq(sel(cur, r), sel(old, r))), []*Term{sel(cur, r)}))
	}
}

var _ = big.NewInt
