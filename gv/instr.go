package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(f *Frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Alloc:
		x.v.cellTypes[x.cellKey(f, i)] = i.Type().(*types.Pointer).Elem()
		x.execAlloc(f, i)
	case *ssa.Store:
		v := x.val(f, i.Val)
		a := x.deref(x.val(f, i.Addr), i.Addr.Type(), i.Pos())
		x.storeTo(a, v, i.Pos())
	case *ssa.UnOp:
		f.regs[i] = x.unop(f, i)
	case *ssa.BinOp:
		f.regs[i] = x.binop(i.Op, x.val(f, i.X), x.val(f, i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos())
	case *ssa.FieldAddr:
		a := x.deref(x.val(f, i.X), i.X.Type(), i.Pos())
		st := a.Typ.Underlying().(*types.Struct)
		f.regs[i] = x.fieldAddr(a, st, i.Field)
	case *ssa.Field:
		t := x.tval(f, i.X)
		st := i.X.Type().Underlying().(*types.Struct)
		f.regs[i] = field(t, fieldName(st, i.Field))
	case *ssa.IndexAddr:
		f.regs[i] = x.indexAddr(f, i)
	case *ssa.Index:
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			idx := x.tval(f, i.Index)
			x.oblige("bounds", "array index", nil, i.Pos(), "", and(le(intLit(0), idx), lt(idx, intLit(u.Len()))))
			f.regs[i] = sel(x.tval(f, i.X), idx)
		default:
			s := x.tval(f, i.X)
			idx := x.tval(f, i.Index)
			x.oblige("bounds", "string index", nil, i.Pos(), "", and(le(intLit(0), idx), lt(idx, app("gstr.len", s))))
			declFun("gstr.at", []string{sStr, sInt}, sInt)
			r := app("gstr.at", s, idx)
			x.typeFacts(i.Type(), r)
			f.regs[i] = r
		}
	case *ssa.Slice:
		f.regs[i] = x.sliceOp(f, i)
	case *ssa.MakeSlice:
		ln, cp := x.tval(f, i.Len), x.tval(f, i.Cap)
		x.oblige("bounds", "make length", nil, i.Pos(), "", and(le(intLit(0), ln), le(ln, cp)))
		x.assume(le(cp, intLit(1<<46)))
		el := i.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc()
		if x.v.objElem(el) {
			x.unsup("make of object slice")
		}
		k := x.elemKey(el)
		x.setHeap(k, store(x.heap(x.st, k), r, constArr(arrSort(sInt, sortOf(el)), zeroOf(el))))
		f.regs[i] = x.mkSlice("mk", r, intLit(0), ln, cp)
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		r := x.alloc()
		d, mv := x.mapKeys(m)
		dom := constArr(arrSort(sortOf(m.Key()), sBool), tFalse)
		x.setHeap(d, store(x.heap(x.st, d), r, dom))
		_ = mv
		x.assume(eq(x.card(dom), intLit(0)))
		x.mapEmptyFacts(m, dom)
		f.regs[i] = r
	case *ssa.MakeChan:
		r := x.alloc()
		ct := i.Type().Underlying().(*types.Chan)
		n, _ := x.chanKeys(ct)
		x.setHeap(n, store(x.heap(x.st, n), r, intLit(0)))
		n2, _ := x.rcvKeys(ct)
		x.setHeap(n2, store(x.heap(x.st, n2), r, intLit(0)))
		declFun("chan.cap", []string{sInt}, sInt)
		x.assume(eq(app("chan.cap", r), x.tval(f, i.Size)))
		f.regs[i] = r
	case *ssa.MakeInterface:
		t := i.X.Type()
		v := x.term(x.val(f, i.X))
		f.regs[i] = box(t, v)
		x.v.noteMethods(t)
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Binds = append(c.Binds, x.val(f, b))
		}
		f.regs[i] = c
	case *ssa.ChangeType:
		f.regs[i] = x.val(f, i.X)
	case *ssa.ChangeInterface:
		f.regs[i] = x.val(f, i.X)
	case *ssa.Convert:
		f.regs[i] = x.convert(f, i)
	case *ssa.MultiConvert:
		x.unsup("multiconvert")
	case *ssa.Extract:
		t, ok := f.regs[i.Tuple].(Tuple)
		if !ok {
			x.unsup("extract from non-tuple")
		}
		f.regs[i] = t[i.Index]
	case *ssa.Lookup:
		x.lookup(f, i)
	case *ssa.MapUpdate:
		m := x.tval(f, i.Map)
		x.oblige("nil", "assignment to nil map", nil, i.Pos(), "", neq(m, intLit(0)))
		x.mapStore(i.Map.Type().Underlying().(*types.Map), m, x.tval(f, i.Key), x.tval(f, i.Value), i.Pos())
	case *ssa.Range:
		x.rangeOp(f, i)
	case *ssa.Next:
		x.nextOp(f, i)
	case *ssa.TypeAssert:
		x.typeAssert(f, i)
	case *ssa.Call:
		r := x.call(f, i.Common(), i.Pos(), i)
		f.regs[i] = r
	case *ssa.Defer:
		d := &deferred{call: i.Common(), block: i.Block(), instr: i}
		cc := i.Common()
		if !cc.IsInvoke() {
			if _, ok := cc.Value.(*ssa.Builtin); !ok {
				d.fnv = x.val(f, cc.Value)
			}
		} else {
			d.fnv = x.val(f, cc.Value)
		}
		for _, a := range cc.Args {
			d.args = append(d.args, x.val(f, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for k := len(f.defers) - 1; k >= 0; k-- {
			d := f.defers[k]
			if !d.block.Dominates(in.Block()) {
				// a defer on another path: executed only there
				if reaches(d.block, in.Block()) {
					x.unsup("conditional defer")
				}
				continue
			}
			x.callWith(f, d.call, d.fnv, d.args, d.instr.Pos(), d.instr)
		}
	case *ssa.Go:
		x.goStmt(f, i)
	case *ssa.Send:
		ch := x.tval(f, i.Chan)
		x.send(i.Chan.Type().Underlying().(*types.Chan), ch, x.tval(f, i.X), i.Pos())
	case *ssa.Select:
		x.selectOp(f, i)
	default:
		x.unsup("instruction %T", in)
	}
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(c *ssa.BasicBlock) bool
	rec = func(c *ssa.BasicBlock) bool {
		if c == b {
			return true
		}
		if seen[c] {
			return false
		}
		seen[c] = true
		for _, s := range c.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

func (x *Exec) unop(f *Frame, i *ssa.UnOp) Value {
	switch i.Op {
	case token.MUL:
		v := x.val(f, i.X)
		a := x.deref(v, i.X.Type(), i.Pos())
		if a.Kind == 'e' && a.Elem == nil {
			u := a.Typ.Underlying().(*types.Array)
			return sel(x.heap(x.st, x.elemKey(u.Elem())), a.Arr)
		}
		return x.load(a, i.Pos())
	case token.NOT:
		return not(x.tval(f, i.X))
	case token.SUB:
		t := x.tval(f, i.X)
		r := neg(t)
		if isInteger(i.Type()) {
			r = x.intResult(r, i.Type(), i.Pos(), "-x")
		}
		return r
	case token.ARROW:
		ch := x.tval(f, i.X)
		ct := i.X.Type().Underlying().(*types.Chan)
		v := x.recv(ct, ch, i.Pos())
		if i.CommaOk {
			return Tuple{v, fresh("ok", sBool)}
		}
		return v
	case token.XOR:
		declFun("bit.not", []string{sInt}, sInt)
		r := app("bit.not", x.tval(f, i.X))
		x.typeFacts(i.Type(), r)
		return r
	}
	x.unsup("unop %s", i.Op)
	return nil
}

// intResult checks (signed) or wraps (unsigned) an integer result.
func (x *Exec) intResult(r *Term, t types.Type, pos token.Pos, what string) *Term {
	if _, ok := r.lit(); ok {
		return r
	}
	lo, hi, ok := intBounds(t)
	if !ok {
		return r
	}
	if isUnsigned(t) {
		w, _ := intWidth(t.Underlying().(*types.Basic))
		m := bigLit(new(big.Int).Lsh(big.NewInt(1), w))
		return ite(and(le(intLit(0), r), lt(r, m)), r, mk("mod", sInt, r, m))
	}
	x.oblige("overflow", "integer overflow "+what, nil, pos, "", and(le(bigLit(lo), r), le(r, bigLit(hi))))
	return r
}

func (x *Exec) binop(op token.Token, xv, yv Value, xt, yt, rt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if _, ok := xt.Underlying().(*types.Slice); ok {
			a, b := x.term(xv), x.term(yv)
			s := a
			if a.Op == "nilslice" {
				s = b
			}
			r = eq(app("sl.arr", s), intLit(0))
		} else if c, ok := xv.(*Closure); ok && c != nil {
			r = tFalse
		} else {
			a, b := x.term(xv), x.term(yv)
			if a.Sort == sIface && b.Sort != sIface {
				b = box(yt, b)
			} else if b.Sort == sIface && a.Sort != sIface {
				a = box(xt, a)
			}
			if a.Sort == sIface && (a.Op == "nilif" || b.Op == "nilif") {
				o := a
				if a.Op == "nilif" {
					o = b
				}
				x.ifaceFacts(o)
				r = eq(app("if.tag", o), intLit(0))
			} else {
				r = eq(a, b)
			}
		}
		if op == token.NEQ {
			r = not(r)
		}
		return r
	}
	a, b := x.term(xv), x.term(yv)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Sort == sStr {
			a, b = app("gstr.ord", a), app("gstr.ord", b)
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return gt(a, b)
		}
		return ge(a, b)
	case token.ADD:
		if a.Sort == sStr {
			return app("gstr.cat", a, b)
		}
		r := add(a, b)
		if isInteger(rt) {
			r = x.intResult(r, rt, pos, "+")
		}
		return r
	case token.SUB:
		r := sub(a, b)
		if isInteger(rt) {
			r = x.intResult(r, rt, pos, "-")
		}
		return r
	case token.MUL:
		r := mul(a, b)
		if isInteger(rt) {
			r = x.intResult(r, rt, pos, "*")
		}
		return r
	case token.QUO:
		if a.Sort == sReal {
			return mk("/", sReal, a, b)
		}
		x.oblige("divzero", "division by zero", nil, pos, "", neq(b, intLit(0)))
		if isUnsigned(rt) {
			return x.divFacts(mk("div", sInt, a, b), a, b)
		}
		return x.divFacts(ite(ge(a, intLit(0)), mk("div", sInt, a, b), neg(mk("div", sInt, neg(a), b))), a, b)
	case token.REM:
		x.oblige("divzero", "division by zero", nil, pos, "", neq(b, intLit(0)))
		if isUnsigned(rt) {
			return x.modFacts(mk("mod", sInt, a, b), b)
		}
		return ite(ge(a, intLit(0)), mk("mod", sInt, a, b), neg(mk("mod", sInt, neg(a), b)))
	case token.SHR:
		if l, ok := b.lit(); ok && l.IsInt() && l.Num().IsInt64() && l.Num().Int64() < 63 {
			return mk("div", sInt, a, intLit(1<<uint(l.Num().Int64())))
		}
	case token.SHL:
		if l, ok := b.lit(); ok && l.IsInt() && l.Num().IsInt64() && l.Num().Int64() < 62 {
			return x.intResult(mul(a, intLit(1<<uint(l.Num().Int64()))), rt, pos, "<<")
		}
	}
	n := "bit." + op.String()
	declFun(n, []string{sInt, sInt}, sInt)
	r := app(n, a, b)
	x.typeFacts(rt, r)
	return r
}

func (x *Exec) divFacts(t, a, b *Term) *Term {
	if _, ok := b.lit(); ok {
		return t
	}
	// q = a div b with b > 0, a >= 0: q*b <= a < q*b + b
	q := mk("div", sInt, a, b)
	x.assume(implies(and(lt(intLit(0), b), le(intLit(0), a)), and(le(mul(q, b), a), lt(a, add(mul(q, b), b)), le(intLit(0), q), le(q, a))))
	return t
}

func (x *Exec) modFacts(t, b *Term) *Term {
	if _, ok := b.lit(); ok {
		return t
	}
	x.assume(implies(lt(intLit(0), b), and(le(intLit(0), t), lt(t, b))))
	return t
}

func (x *Exec) ifaceFacts(i *Term) {
	x.assume(eq(eq(app("if.tag", i), intLit(0)), eq(i, constT("nilif", sIface))))
	x.assume(le(intLit(0), app("if.tag", i)))
}

func (x *Exec) indexAddr(f *Frame, i *ssa.IndexAddr) Value {
	idx := x.tval(f, i.Index)
	if va, ok := x.maybeVal(f, i.X).(*VarArr); ok {
		return &Addr{Kind: 'c', Cell: fmt.Sprintf("%s#%s", va.key, idx.Op[1:]), Typ: va.elem, Base: va.elem}
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.tval(f, i.X)
		x.oblige("bounds", "index", nil, i.Pos(), "", and(le(intLit(0), idx), lt(idx, x.slen(s))))
		return x.elemAddr(s, idx, u.Elem())
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		v := x.val(f, i.X)
		a, ok := v.(*Addr)
		var base *Term
		if ok {
			base = x.term(a)
		} else {
			base = v.(*Term)
		}
		x.oblige("bounds", "array index", nil, i.Pos(), "", and(le(intLit(0), idx), lt(idx, intLit(ar.Len()))))
		return &Addr{Kind: 'e', Arr: base, Idx: idx, Elem: ar.Elem(), Typ: ar.Elem(), Base: ar.Elem()}
	}
	x.unsup("indexaddr on %s", i.X.Type())
	return nil
}

func (x *Exec) slen(s *Term) *Term {
	if s.Op == "nilslice" {
		return intLit(0)
	}
	return app("sl.len", s)
}

func (x *Exec) elemAddr(s, idx *Term, el types.Type) *Addr {
	arr, abs := app("sl.arr", s), add(app("sl.off", s), idx)
	if x.v.objElem(el) {
		return &Addr{Kind: 'f', Ref: app("elemref", arr, abs), Root: el, Typ: el}
	}
	return &Addr{Kind: 'e', Arr: arr, Idx: abs, Elem: el, Typ: el, Base: el}
}

func (x *Exec) sliceOp(f *Frame, i *ssa.Slice) Value {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.tval(f, v)
	}
	if va, ok := x.maybeVal(f, i.X).(*VarArr); ok {
		vs := &VarSlice{elem: va.elem}
		for k := 0; k < va.n; k++ {
			vs.vals = append(vs.vals, x.st.m[fmt.Sprintf("%s#%d", va.key, k)])
		}
		return vs
	}
	if isStringT(i.X.Type()) {
		s := x.tval(f, i.X)
		n := app("gstr.len", s)
		lo := opt(i.Low, intLit(0))
		hi := opt(i.High, n)
		x.oblige("bounds", "string slice", nil, i.Pos(), "", and(le(intLit(0), lo), le(lo, hi), le(hi, n)))
		declFun("gstr.sub", []string{sStr, sInt, sInt}, sStr)
		r := app("gstr.sub", s, lo, hi)
		x.assume(eq(app("gstr.len", r), sub(hi, lo)))
		if l, ok := lo.lit(); ok && l.Sign() == 0 {
			x.assume(implies(eq(hi, n), eq(r, s)))
		}
		return r
	}
	var arr, off, ln, cp *Term
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		v := x.val(f, i.X)
		arr = x.term(v)
		n := intLit(p.Elem().Underlying().(*types.Array).Len())
		off, ln, cp = intLit(0), n, n
		x.oblige("nil", "slice of nil array", nil, i.Pos(), "", neq(arr, intLit(0)))
	} else {
		s := x.tval(f, i.X)
		arr, off, ln, cp = app("sl.arr", s), app("sl.off", s), x.slen(s), app("sl.cap", s)
	}
	lo := opt(i.Low, intLit(0))
	hi := opt(i.High, ln)
	// hi <= len, not cap: see DESIGN (append representation)
	x.oblige("bounds", "slice bounds", nil, i.Pos(), "", and(le(intLit(0), lo), le(lo, hi), le(hi, ln)))
	mx := cp
	if i.Max != nil {
		mx = x.tval(f, i.Max)
		x.oblige("bounds", "slice max", nil, i.Pos(), "", and(le(hi, mx), le(mx, cp)))
	}
	return x.mkSlice("sub", arr, add(off, lo), sub(hi, lo), sub(mx, lo))
}

func (x *Exec) convert(f *Frame, i *ssa.Convert) Value {
	from, to := i.X.Type(), i.Type()
	v := x.tval(f, i.X)
	switch {
	case isInteger(from) && isInteger(to):
		flo, fhi, _ := intBounds(from)
		tlo, thi, _ := intBounds(to)
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return v
		}
		if _, ok := v.lit(); ok {
			return v
		}
		in := and(le(bigLit(tlo), v), le(v, bigLit(thi)))
		w, _ := intWidth(to.Underlying().(*types.Basic))
		m := new(big.Int).Lsh(big.NewInt(1), w)
		if isUnsigned(to) {
			return ite(in, v, mk("mod", sInt, v, bigLit(m)))
		}
		half := new(big.Int).Rsh(m, 1)
		return ite(in, v, sub(mk("mod", sInt, add(v, bigLit(half)), bigLit(m)), bigLit(half)))
	case isInteger(from) && isFloat(to):
		return toReal(v)
	case isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInteger(to):
		r := fresh("trunc", sInt)
		z := litOf(new(big.Rat), sReal)
		x.assume(implies(ge(v, z), and(le(toReal(r), v), lt(v, add(toReal(r), realLit(big.NewRat(1, 1)))))))
		x.typeFacts(to, r)
		return r
	case isStringT(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			declFun("gstr.of", []string{arrSort(sInt, sInt), sInt, sInt}, sStr)
			row := sel(x.heap(x.st, x.elemKey(s.Elem())), app("sl.arr", v))
			r := app("gstr.of", row, app("sl.off", v), x.slen(v))
			x.bytesAxiom()
			x.assume(eq(app("gstr.len", r), x.slen(v)))
			return r
		}
		if isInteger(from) {
			declFun("gstr.rune", []string{sInt}, sStr)
			return app("gstr.rune", v)
		}
	case isStringT(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			x.bytesAxiom()
			declFun("gstr.bytes", []string{sStr}, arrSort(sInt, sInt))
			r := x.alloc()
			k := x.elemKey(s.Elem())
			x.setHeap(k, store(x.heap(x.st, k), r, app("gstr.bytes", v)))
			n := app("gstr.len", v)
			sl := x.mkSlice("bytes", r, intLit(0), n, n)
			return sl
		}
	}
	if sortOf(from) == sortOf(to) {
		return v
	}
	x.unsup("convert %s to %s", from, to)
	return nil
}

var bytesAx bool

func (x *Exec) bytesAxiom() {
	declFun("gstr.of", []string{arrSort(sInt, sInt), sInt, sInt}, sStr)
	declFun("gstr.bytes", []string{sStr}, arrSort(sInt, sInt))
	if bytesAx {
		return
	}
	bytesAx = true
	s := boundVar("s", sStr)
	r1, r2 := boundVar("r1", arrSort(sInt, sInt)), boundVar("r2", arrSort(sInt, sInt))
	o1, o2, n := boundVar("o1", sInt), boundVar("o2", sInt), boundVar("n", sInt)
	declFun("gstr.diff", []string{arrSort(sInt, sInt), sInt, arrSort(sInt, sInt), sInt, sInt}, sInt)
	d := app("gstr.diff", r1, o1, r2, o2, n)
	s1, s2 := app("gstr.of", r1, o1, n), app("gstr.of", r2, o2, n)
	axioms = append(axioms, &Axiom{"bytes-ext", []string{"gstr.of"}, forall([]*Term{r1, o1, r2, o2, n}, or(eq(s1, s2), and(le(intLit(0), d), lt(d, n), neq(sel(r1, add(o1, d)), sel(r2, add(o2, d))))), []*Term{s1, s2})})
	axioms = append(axioms, &Axiom{"bytes-len", []string{"gstr.of"}, forall([]*Term{r1, o1, n}, implies(le(intLit(0), n), eq(app("gstr.len", s1), n)), []*Term{s1})})
	axioms = append(axioms, &Axiom{"bytes-roundtrip", []string{"gstr.bytes", "gstr.of"}, forall([]*Term{s}, eq(app("gstr.of", app("gstr.bytes", s), intLit(0), app("gstr.len", s)), s), []*Term{app("gstr.bytes", s)})})
}

// ---------- maps

func (x *Exec) card(dom *Term) *Term {
	n := "card." + sanitize(dom.Sort)
	if funcDecls[n] == nil {
		declFun(n, []string{dom.Sort}, sInt)
		ks, _ := splitArr(dom.Sort)
		d, k := boundVar("d", dom.Sort), boundVar("k", ks)
		c := app(n, d)
		axioms = append(axioms, &Axiom{"card " + n, []string{n}, forall([]*Term{d}, le(intLit(0), c), []*Term{c})})
		axioms = append(axioms, &Axiom{"card0 " + n, []string{n}, forall([]*Term{d, k}, implies(sel(d, k), lt(intLit(0), c)), []*Term{c, sel(d, k)})})
		e := constArr(dom.Sort, tFalse)
		axioms = append(axioms, &Axiom{"cardE " + n, []string{n}, eq(app(n, e), intLit(0))})
	}
	t := app(n, dom)
	return t
}

func (x *Exec) mapSum(m *types.Map, dom, vals *Term) *Term {
	n := "msum." + sanitize(dom.Sort+vals.Sort)
	_, vs := splitArr(vals.Sort)
	declFun(n, []string{dom.Sort, vals.Sort}, vs)
	return app(n, dom, vals)
}

func (x *Exec) mapCount(m *types.Map, dom, vals, v *Term) *Term {
	n := "mcount." + sanitize(dom.Sort+vals.Sort)
	_, vs := splitArr(vals.Sort)
	if funcDecls[n] == nil {
		declFun(n, []string{dom.Sort, vals.Sort, vs}, sInt)
		ks, _ := splitArr(dom.Sort)
		d, w, c, k := boundVar("d", dom.Sort), boundVar("w", vals.Sort), boundVar("c", vs), boundVar("k", ks)
		mc := app(n, d, w, c)
		axioms = append(axioms, &Axiom{"mcount " + n, []string{n}, forall([]*Term{d, w, c}, le(intLit(0), mc), []*Term{mc})})
		axioms = append(axioms, &Axiom{"mcount0 " + n, []string{n}, forall([]*Term{d, w, c, k}, implies(and(sel(d, k), eq(sel(w, k), c)), lt(intLit(0), mc)), []*Term{mc, sel(d, k)})})
	}
	return app(n, dom, vals, v)
}

func (x *Exec) mapEmptyFacts(m *types.Map, dom *Term) {
	vs := arrSort(sortOf(m.Key()), sortOf(m.Elem()))
	v := boundVar("v", vs)
	if sortOf(m.Elem()) == sReal || sortOf(m.Elem()) == sInt {
		z := litOf(new(big.Rat), sortOf(m.Elem()))
		s := x.mapSum(m, dom, v)
		x.assume(forall([]*Term{v}, eq(s, z), []*Term{s}))
	}
	if sortOf(m.Elem()) == sInt {
		c := boundVar("c", sInt)
		mc := x.mapCount(m, dom, v, c)
		x.assume(forall([]*Term{v, c}, eq(mc, intLit(0)), []*Term{mc}))
	}
}

// mapUpdFacts relates the aggregates of a map before and after an update.
func (x *Exec) mapUpdFacts(m *types.Map, d0, v0, d1, v1, k *Term, del bool) {
	was := sel(d0, k)
	c0, c1 := x.card(d0), x.card(d1)
	x.assume(le(intLit(0), c0))
	if del {
		x.assume(eq(c1, ite(was, sub(c0, intLit(1)), c0)))
	} else {
		x.assume(eq(c1, ite(was, c0, add(c0, intLit(1)))))
	}
	es := sortOf(m.Elem())
	if es == sReal || es == sInt {
		z := litOf(new(big.Rat), es)
		s0, s1 := x.mapSum(m, d0, v0), x.mapSum(m, d1, v1)
		oldv := ite(was, sel(v0, k), z)
		if del {
			x.assume(eq(s1, sub(s0, oldv)))
		} else {
			x.assume(eq(s1, add(sub(s0, oldv), sel(v1, k))))
		}
	}
	if es == sInt {
		c := boundVar("c", sInt)
		m0, m1 := x.mapCount(m, d0, v0, c), x.mapCount(m, d1, v1, c)
		oldc := ite(and(was, eq(sel(v0, k), c)), intLit(1), intLit(0))
		newc := intLit(0)
		if !del {
			newc = ite(eq(sel(v1, k), c), intLit(1), intLit(0))
		}
		x.assume(forall([]*Term{c}, and(eq(m1, add(sub(m0, oldc), newc)), le(intLit(0), m0), le(intLit(0), m1), le(oldc, m0)), []*Term{m1}))
	}
}

func (x *Exec) mapStore(m *types.Map, r, k, v *Term, pos token.Pos) {
	d, mv := x.mapKeys(m)
	x.guardMap(m, r, true, pos)
	x.checkWrite(d, r, pos)
	d0, v0 := sel(x.heap(x.st, d), r), sel(x.heap(x.st, mv), r)
	d1, v1 := store(d0, k, tTrue), store(v0, k, v)
	x.mapUpdFacts(m, d0, v0, d1, v1, k, false)
	x.setHeap(d, store(x.heap(x.st, d), r, d1))
	x.setHeap(mv, store(x.heap(x.st, mv), r, v1))
}

func (x *Exec) mapDelete(m *types.Map, r, k *Term, pos token.Pos) {
	d, mv := x.mapKeys(m)
	x.guardMap(m, r, true, pos)
	x.checkWrite(d, r, pos)
	d0, v0 := sel(x.heap(x.st, d), r), sel(x.heap(x.st, mv), r)
	d1 := store(d0, k, tFalse)
	x.mapUpdFacts(m, d0, v0, d1, v0, k, true)
	x.setHeap(d, store(x.heap(x.st, d), r, d1))
}

func (x *Exec) mapNilDom(m *types.Map, r *Term) {
	d, _ := x.mapKeys(m)
	// a nil map has no keys
	k := boundVar("k", sortOf(m.Key()))
	t := sel(sel(x.heap(x.st, d), intLit(0)), k)
	x.assume(forall([]*Term{k}, not(t), []*Term{t}))
}

func (x *Exec) lookup(f *Frame, i *ssa.Lookup) {
	if m, ok := i.X.Type().Underlying().(*types.Map); ok {
		r := x.tval(f, i.X)
		k := x.tval(f, i.Index)
		x.guardMap(m, r, false, i.Pos())
		x.mapNilDom(m, r)
		d, mv := x.mapKeys(m)
		has := sel(sel(x.heap(x.st, d), r), k)
		val := sel(sel(x.heap(x.st, mv), r), k)
		if b := x.refBound(m.Elem(), val, x.nextT(x.st)); b != nil && val.bound == nil {
			x.assume(implies(has, b))
		}
		res := ite(has, val, zeroOf(m.Elem()))
		if i.CommaOk {
			f.regs[i] = Tuple{res, has}
		} else {
			f.regs[i] = res
		}
		return
	}
	s := x.tval(f, i.X)
	idx := x.tval(f, i.Index)
	x.oblige("bounds", "string index", nil, i.Pos(), "", and(le(intLit(0), idx), lt(idx, app("gstr.len", s))))
	declFun("gstr.at", []string{sStr, sInt}, sInt)
	r := app("gstr.at", s, idx)
	x.typeFacts(types.Typ[types.Uint8], r)
	f.regs[i] = r
}

func (x *Exec) iterIn(st *State) *Iter {
	var best *Iter
	for _, it := range x.v.iters {
		if _, ok := st.m[it.Vis]; ok {
			best = it
		}
	}
	return best
}

func (x *Exec) rangeOp(f *Frame, i *ssa.Range) {
	m, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		it := &Iter{Str: true, StrT: x.tval(f, i.X)}
		f.regs[i] = it
		return
	}
	r := x.tval(f, i.X)
	x.guardMap(m, r, false, i.Pos())
	d, _ := x.mapKeys(m)
	vis := fmt.Sprintf("c%d:$visited.%s", f.id, i.Name())
	x.setCell(vis, constArr(arrSort(sortOf(m.Key()), sBool), tFalse))
	x.v.cellTypes[vis] = &LogicMap{m.Key(), tyBool}
	x.mapNilDom(m, r)
	it := &Iter{M: r, Map: m, Vis: vis, Dom0: sel(x.heap(x.st, d), r)}
	for k, o := range x.v.iters {
		if o.Vis == vis {
			x.v.iters = append(x.v.iters[:k], x.v.iters[k+1:]...)
			break
		}
	}
	x.v.iters = append(x.v.iters, it)
	f.regs[i] = it
}

func (x *Exec) nextOp(f *Frame, i *ssa.Next) {
	it := f.regs[i.Iter].(*Iter)
	if it.Str {
		ok := fresh("ok", sBool)
		k := fresh("k", sInt)
		v := fresh("rune", sInt)
		x.assume(implies(ok, and(le(intLit(0), k), lt(k, app("gstr.len", it.StrT)))))
		x.typeFacts(types.Typ[types.Int32], v)
		f.regs[i] = Tuple{ok, k, v}
		return
	}
	x.guardMap(it.Map, it.M, false, i.Pos())
	d, mv := x.mapKeys(it.Map)
	ks := sortOf(it.Map.Key())
	ok := fresh("more", sBool)
	k := fresh("key", ks)
	dom := sel(x.heap(x.st, d), it.M)
	vis := x.st.m[it.Vis].(*Term)
	x.assume(implies(ok, and(sel(dom, k), not(sel(vis, k)), sel(dom, k))))
	b := boundVar("k", ks)
	x.assume(implies(not(ok), forall([]*Term{b}, implies(and(sel(dom, b), sel(it.Dom0, b)), sel(vis, b)), []*Term{sel(dom, b)}, []*Term{sel(vis, b)})))
	v := sel(sel(x.heap(x.st, mv), it.M), k)
	if rb := x.refBound(it.Map.Elem(), v, x.nextT(x.st)); rb != nil {
		x.assume(implies(ok, rb))
	}
	x.typeFacts(it.Map.Key(), k)
	nv := fresh("visited", vis.Sort)
	x.assume(eq(nv, ite(ok, store(vis, k, tTrue), vis)))
	x.setCell(it.Vis, nv)
	// sizes of finite sets: a set with one more element, a part of a set
	cv, cn, cd := x.card(vis), x.card(nv), x.card(dom)
	b2 := boundVar("k", ks)
	part := forall([]*Term{b2}, implies(sel(vis, b2), sel(dom, b2)), []*Term{sel(vis, b2)})
	x.assume(implies(ok, eq(cn, add(cv, intLit(1)))))
	x.assume(implies(and(ok, part), le(cn, cd)))
	x.assume(implies(and(not(ok), part, eq(dom, it.Dom0)), eq(cv, cd)))
	f.regs[i] = Tuple{ok, k, v}
}

func (x *Exec) typeAssert(f *Frame, i *ssa.TypeAssert) {
	v := x.tval(f, i.X)
	if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		if i.CommaOk {
			f.regs[i] = Tuple{v, fresh("ok", sBool)}
		} else {
			x.oblige("typeassert", "type assertion to interface", nil, i.Pos(), "", neq(app("if.tag", v), intLit(0)))
			f.regs[i] = v
		}
		return
	}
	ok := eq(app("if.tag", v), tagOf(i.AssertedType))
	u := unbox(i.AssertedType, v)
	if i.CommaOk {
		f.regs[i] = Tuple{ite(ok, u, zeroOf(i.AssertedType)), ok}
		return
	}
	x.oblige("typeassert", "type assertion", nil, i.Pos(), "", ok)
	x.typeFacts(i.AssertedType, u)
	f.regs[i] = u
}

// ---------- channels

func (x *Exec) chanKeys(ct *types.Chan) (string, string) {
	n := typeName(ct.Elem())
	return x.regHeap("CN:"+n, arrSort(sInt, sInt), 'T', nil), x.regHeap("CV:"+n, arrSort(sInt, arrSort(sInt, sortOf(ct.Elem()))), 'T', nil)
}
func (x *Exec) rcvKeys(ct *types.Chan) (string, string) {
	n := typeName(ct.Elem())
	return x.regHeap("RN:"+n, arrSort(sInt, sInt), 'T', nil), x.regHeap("RV:"+n, arrSort(sInt, arrSort(sInt, sortOf(ct.Elem()))), 'T', nil)
}

func (x *Exec) send(ct *types.Chan, ch, v *Term, pos token.Pos) {
	n, vals := x.chanKeys(ct)
	if a := x.v.chanInv(ct); a != nil && !x.dry {
		env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: a.Pkg, par: x.params}
		env.vars[a.MPar[0]] = TV{t: v, typ: ct.Elem()}
		x.oblige("send", "sent "+typeName(ct.Elem()), nil, pos, a.Name, x.specBool(env, a.Body, true))
	}
	x.checkWrite(n, ch, pos)
	c := sel(x.heap(x.st, n), ch)
	row := sel(x.heap(x.st, vals), ch)
	x.setHeap(vals, store(x.heap(x.st, vals), ch, store(row, c, v)))
	x.setHeap(n, store(x.heap(x.st, n), ch, add(c, intLit(1))))
}

// rcvFacts assumes what is stated about a received value.
func (x *Exec) rcvFacts(ct *types.Chan, v *Term) {
	for _, pre := range []string{"chaninv_", "rcvinv_"} {
		a := x.v.chanSpec(pre, ct)
		if a == nil {
			continue
		}
		if pre == "rcvinv_" {
			x.v.assume(x, "received "+typeName(ct.Elem())+" values satisfy "+a.Name)
		}
		env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: a.Pkg, par: x.params}
		env.vars[a.MPar[0]] = TV{t: v, typ: ct.Elem()}
		x.assume(x.specBool(env, a.Body, false))
	}
}

func (x *Exec) recv(ct *types.Chan, ch *Term, pos token.Pos) *Term {
	n, vals := x.rcvKeys(ct)
	c := sel(x.heap(x.st, n), ch)
	row := sel(x.heap(x.st, vals), ch)
	v := fresh("recv", sortOf(ct.Elem()))
	x.typeFacts(ct.Elem(), v)
	x.setHeap(vals, store(x.heap(x.st, vals), ch, store(row, c, v)))
	x.setHeap(n, store(x.heap(x.st, n), ch, add(c, intLit(1))))
	x.rcvFacts(ct, v)
	return v
}

func (x *Exec) selectOp(f *Frame, i *ssa.Select) {
	// nondeterministic choice; every received value is arbitrary
	idx := fresh("selidx", sInt)
	lo := intLit(0)
	if !i.Blocking {
		lo = intLit(-1)
	}
	x.assume(and(le(lo, idx), lt(idx, intLit(int64(len(i.States))))))
	t := Tuple{idx, fresh("recvok", sBool)}
	for k, s := range i.States {
		ct := s.Chan.Type().Underlying().(*types.Chan)
		if s.Dir == types.RecvOnly {
			v := fresh("recv", sortOf(ct.Elem()))
			x.typeFacts(ct.Elem(), v)
			x.rcvFacts(ct, v)
			t = append(t, v)
			// recorded when this case was chosen
			ch := x.tval(f, s.Chan)
			n, vals := x.rcvKeys(ct)
			c := sel(x.heap(x.st, n), ch)
			row := sel(x.heap(x.st, vals), ch)
			here := eq(idx, intLit(int64(k)))
			x.setHeap(vals, store(x.heap(x.st, vals), ch, store(row, c, ite(here, v, sel(row, c)))))
			x.setHeap(n, store(x.heap(x.st, n), ch, ite(here, add(c, intLit(1)), c)))
		} else {
			x.unsup("select with send")
		}
	}
	x.v.note("select statements choose any ready case: the choice is arbitrary")
	f.regs[i] = t
}

// ---------- lock guards

// lockTags are the properties about lock discipline.
var lockTags = []string{"C13", "C16"}

func (x *Exec) lockState(env *Env, a *Addr) *Term {
	if a.Kind == 'g' {
		return env.heap(a.Cell)
	}
	hp := a.HP
	if !isMutex(a.Typ) {
		st, ok := a.Typ.Underlying().(*types.Struct)
		if !ok {
			panic(specErr{"held: not a lock"})
		}
		for i := 0; i < st.NumFields(); i++ {
			if isMutex(st.Field(i).Type()) {
				hp += "." + fieldName(st, i)
			}
		}
	}
	return sel(env.heap(x.lockKeyOf(a.Root, hp)), a.Ref)
}

func (x *Exec) guardEnv() *Env {
	return &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: x.conPkg(), par: x.params}
}

func (x *Exec) guardOblige(g *Guard, env *Env, cond *Term, write bool, pos token.Pos) {
	if x.dry || x.con == nil || x.fn.Synthetic == "package initializer" {
		return // nothing else runs before the initialisers are done
	}
	lv := env.eval(g.Lock)
	if lv.addr == nil {
		return
	}
	ls := x.lockState(env, lv.addr)
	need := le(intLit(1), ls)
	what := "read"
	if write {
		need = eq(ls, intLit(2))
		what = "write"
	}
	// objects created in this call are private
	x.oblige("lock", what+" of guarded state", lockTags, pos, "", implies(cond, need))
}

func (x *Exec) guardAccess(a *Addr, write bool, pos token.Pos) {
	if !x.v.lockCheck || x.dry {
		return
	}
	name := typeName(a.Root) + a.HP
	for _, g := range x.v.specs.Guards {
		if g.Kind != "field" && g.Kind != "typefield" || !(name == g.Field || strings.HasPrefix(g.Field, name+".")) {
			continue
		}
		env := x.guardEnv()
		env.pkg = g.Pkg
		if g.Kind == "field" {
			root := rootIdent(g.Lock)
			env.vars[root] = TV{t: a.Ref, typ: types.NewPointer(a.Root)}
		} else if ri := rootIdent(g.Lock); x.params[ri].typ == nil && !x.globalName(g.Pkg, ri) {
			continue
		}
		x.guardOblige(g, env, lt(a.Ref, x.entryNx), write, pos)
	}
}

// globalName: n is a variable of the package being verified.
func (x *Exec) globalName(pkg, n string) bool {
	p := x.v.pkgByRel(pkg)
	return p != nil && pkg == x.conPkg() && p.Scope().Lookup(n) != nil
}

func rootIdent(e *Expr) string {
	for e.Kind != "id" {
		if len(e.Args) == 0 {
			return ""
		}
		e = e.Args[0]
	}
	return e.Name
}

func (x *Exec) guardElem(el types.Type, arr *Term, write bool, pos token.Pos) {
	if !x.v.lockCheck || x.dry {
		return
	}
	for _, g := range x.v.specs.Guards {
		if g.Kind != "elems" {
			continue
		}
		if _, ok := x.params[rootIdent(g.E)]; !ok {
			continue
		}
		env := x.guardEnv()
		env.pkg = g.Pkg
		v := env.eval(g.E)
		s, ok := v.typ.Underlying().(*types.Slice)
		if !ok || !types.Identical(s.Elem(), el) {
			continue
		}
		ga, _, _, _ := env.slParts(v, g.E)
		x.guardOblige(g, env, eq(arr, ga), write, pos)
	}
}

func (x *Exec) guardMap(m *types.Map, r *Term, write bool, pos token.Pos) {
	if !x.v.lockCheck || x.dry {
		return
	}
	for _, g := range x.v.specs.Guards {
		if g.Kind == "maps" {
			if g.Pkg == x.conPkg() && types.Identical(x.v.resolveType(g.Type, g.Pkg).Underlying(), m) {
				env := x.guardEnv()
				env.pkg = g.Pkg
				x.guardOblige(g, env, lt(r, x.entryNx), write, pos)
			}
			continue
		}
		if g.Kind != "map" {
			continue
		}
		ri := rootIdent(g.E)
		env := x.guardEnv()
		env.pkg = g.Pkg
		if _, ok := x.params[ri]; !ok {
			if p := x.v.pkgByRel(g.Pkg); p == nil || p.Scope().Lookup(ri) == nil {
				continue
			}
			if g.Pkg != x.conPkg() {
				continue
			}
		}
		v := env.eval(g.E)
		if !types.Identical(v.typ.Underlying(), m) {
			continue
		}
		x.guardOblige(g, env, eq(r, env.rv(v, g.E)), write, pos)
	}
}

func (x *Exec) guardGlobal(a *Addr, write bool, pos token.Pos) {
	if !x.v.lockCheck || x.dry {
		return
	}
	for _, g := range x.v.specs.Guards {
		if g.Kind != "field" || "G:"+g.Field != a.Cell {
			continue
		}
		env := x.guardEnv()
		env.pkg = g.Pkg
		x.guardOblige(g, env, tTrue, write, pos)
	}
}
