package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed specification value.
type TV struct {
	t    *Term
	typ  types.Type
	addr *Addr
	sl   *[4]*Term // virtual slice arr off len cap
	fn   *Closure
}

type Env struct {
	x     *Exec
	vars  map[string]TV
	st    *State
	old   *State
	oldFr *Frame
	frame *Frame
	pkg   string
	loop  *loopCtx
	goal  bool
	hook  func(key string) *Term
	par   map[string]TV // parameters (entry values)
	depth int
}

func (e *Env) with(n string, v TV) *Env {
	c := *e
	c.vars = make(map[string]TV, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

type specErr struct{ msg string }

func (env *Env) fail(e *Expr, f string, a ...interface{}) {
	panic(specErr{e.pos() + ": " + fmt.Sprintf(f, a...)})
}

func (env *Env) heap(key string) *Term {
	if env.hook != nil {
		return env.hook(key)
	}
	return env.x.heap(env.st, key)
}

func (x *Exec) envHere(f *Frame) *Env {
	env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, frame: f, pkg: x.conPkg(), par: x.params}
	if len(x.loopSt) > 0 {
		env.loop = x.loopSt[len(x.loopSt)-1]
	}
	return env
}

func (x *Exec) conPkg() string {
	if x.con != nil {
		return x.con.Pkg
	}
	return ""
}

func (x *Exec) specBool(env *Env, e *Expr, goal bool) *Term {
	c := *env
	c.goal = goal
	v := c.eval(e)
	t := c.rv(v, e)
	if t.Sort != sBool {
		env.fail(e, "boolean expected, got %s", t.Sort)
	}
	return t
}

func (x *Exec) specTerm(env *Env, e *Expr) *Term {
	return env.rv(env.eval(e), e)
}

// rv converts a TV to a term (loading lvalues, naming virtual slices).
func (env *Env) rv(v TV, e *Expr) *Term {
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		return env.loadAddr(v.addr, e)
	}
	if v.sl != nil {
		// a virtual slice as a term: uninterpreted constructor
		declFun("mkslice", []string{sInt, sInt, sInt, sInt}, sSlice)
		return app("mkslice", v.sl[0], v.sl[1], v.sl[2], v.sl[3])
	}
	env.fail(e, "not a value")
	return nil
}

func (env *Env) loadAddr(a *Addr, e *Expr) *Term {
	x := env.x
	step := func(t *Term) *Term {
		for _, p := range a.Path {
			t = field(t, p)
		}
		return t
	}
	switch a.Kind {
	case 'c':
		v, ok := env.st.m[a.Cell]
		if !ok {
			env.fail(e, "local %s is not live here", a.Cell)
		}
		t, ok := v.(*Term)
		if !ok {
			if ad, ok := v.(*Addr); ok {
				return x.term(ad)
			}
			env.fail(e, "local %s has no value", a.Cell)
		}
		return step(t)
	case 'f':
		return env.loadField(a)
	case 'e':
		return step(sel(sel(env.heap(x.elemKey(a.Elem)), a.Arr), a.Idx))
	case 'b':
		return step(sel(env.heap(x.boxKey(a.Base)), a.Ref))
	case 'g':
		return step(env.heap(a.Cell))
	}
	panic("loadAddr")
}

func (env *Env) loadField(a *Addr) *Term {
	if isStruct(a.Typ) && !isOpaque(a.Typ) {
		u := a.Typ.Underlying().(*types.Struct)
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			sub := *a
			sub.HP = a.HP + "." + fieldName(u, i)
			sub.Typ = u.Field(i).Type()
			args = append(args, env.loadField(&sub))
		}
		return construct(sortOf(a.Typ), args...)
	}
	return sel(env.heap(env.x.fieldKey(a.Root, a.HP, a.Typ)), a.Ref)
}

func (env *Env) slParts(v TV, e *Expr) (arr, off, ln, cp *Term) {
	if v.sl != nil {
		return v.sl[0], v.sl[1], v.sl[2], v.sl[3]
	}
	t := env.rv(v, e)
	if t.Sort != sSlice {
		env.fail(e, "slice expected, got %s", t.Sort)
	}
	if t.Op == "nilslice" {
		return intLit(0), intLit(0), intLit(0), intLit(0)
	}
	if t.Op == "mkslice" {
		return t.Args[0], t.Args[1], t.Args[2], t.Args[3]
	}
	return app("sl.arr", t), app("sl.off", t), app("sl.len", t), app("sl.cap", t)
}

// ---------- types in specs

func (v *Verifier) resolveType(te *TypeExpr, pkg string) types.Type {
	switch te.Name {
	case "*":
		return types.NewPointer(v.resolveType(te.Args[0], pkg))
	case "[]":
		return types.NewSlice(v.resolveType(te.Args[0], pkg))
	case "map":
		return types.NewMap(v.resolveType(te.Args[0], pkg), v.resolveType(te.Args[1], pkg))
	case "chan":
		return types.NewChan(types.SendRecv, v.resolveType(te.Args[0], pkg))
	case "lmap":
		return &LogicMap{v.resolveType(te.Args[0], pkg), v.resolveType(te.Args[1], pkg)}
	case "ref":
		return tyRef
	case "real":
		return tyReal
	case "interface":
		return types.NewInterfaceType(nil, nil)
	case "slice":
		return types.NewSlice(types.Typ[types.Int])
	case "func":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if o := types.Universe.Lookup(te.Name); o != nil {
		return o.Type()
	}
	name := te.Name
	p := pkg
	if i := strings.LastIndex(name, "."); i >= 0 {
		p, name = name[:i], name[i+1:]
	}
	tp := v.pkgByRel(p)
	if tp == nil {
		panic(specErr{"unknown package " + p + " in type " + te.Name})
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		panic(specErr{"unknown type " + te.Name})
	}
	return o.Type()
}

// ---------- evaluation

func (env *Env) eval(e *Expr) TV {
	x := env.x
	switch e.Kind {
	case "num":
		if strings.Contains(e.Name, ".") {
			r, _ := new(big.Rat).SetString(e.Name)
			return TV{t: realLit(r), typ: tyReal}
		}
		b, _ := new(big.Int).SetString(e.Name, 10)
		return TV{t: bigLit(b), typ: tyInt}
	case "str":
		return TV{t: strConst(e.Name), typ: tyString}
	case "id":
		return env.evalId(e)
	case "un":
		if e.Name == "!" {
			c := *env
			c.goal = false
			return TV{t: not(c.rv(c.eval(e.Args[0]), e)), typ: tyBool}
		}
		v := env.eval(e.Args[0])
		return TV{t: neg(env.rv(v, e)), typ: v.typ}
	case "bin":
		return env.evalBin(e)
	case "if":
		ce := *env
		ce.goal = false
		c := ce.rv(ce.eval(e.Args[0]), e)
		a := env.eval(e.Args[1])
		b := env.eval(e.Args[2])
		at, bt := env.coerce2(a, b, e)
		ty := a.typ
		if ty == tyNil {
			ty = b.typ
		}
		return TV{t: ite(c, at, bt), typ: ty}
	case "let":
		v := env.eval(e.Args[0])
		if v.t == nil && v.addr != nil {
			// a value, not a place: old, before and iter in the body do not reach it
			switch v.typ.Underlying().(type) {
			case *types.Pointer, *types.Basic, *types.Map, *types.Slice:
				v = TV{t: env.rv(v, e), typ: v.typ}
			}
		}
		return env.with(e.Name, v).eval(e.Args[1])
	case "forall", "exists":
		return env.evalQuant(e)
	case "mapof":
		return env.evalMapof(e)
	case "field":
		return env.evalField(e)
	case "index":
		return env.evalIndex(e)
	case "upd":
		m := env.eval(e.Args[0])
		lm, ok := m.typ.(*LogicMap)
		if !ok {
			env.fail(e, "update of a non-logical map")
		}
		m0, k0 := env.rv(m, e), env.rvAs(env.eval(e.Args[1]), lm.K, e)
		v0 := env.rvAs(env.eval(e.Args[2]), lm.V, e)
		r := store(m0, k0, v0)
		if v0.Sort == sBool && r.bound == nil && env.hook == nil {
			// cardinality of a finite set after inserting / removing one element
			b2i := func(t *Term) *Term { return ite(t, intLit(1), intLit(0)) }
			x.assume(eq(x.card(r), add(sub(x.card(m0), b2i(sel(m0, k0))), b2i(v0))))
		}
		return TV{t: r, typ: lm}
	case "slice":
		s := env.eval(e.Args[0])
		if s.typ != nil && isStringT(s.typ) {
			t := env.rv(s, e)
			lo, hi := intLit(0), app("gstr.len", t)
			if e.Args[1] != nil {
				lo = env.rv(env.eval(e.Args[1]), e)
			}
			if e.Args[2] != nil {
				hi = env.rv(env.eval(e.Args[2]), e)
			}
			declFun("gstr.sub", []string{sStr, sInt, sInt}, sStr)
			return TV{t: app("gstr.sub", t, lo, hi), typ: s.typ}
		}
		arr, off, ln, cp := env.slParts(s, e)
		lo := intLit(0)
		hi := ln
		if e.Args[1] != nil {
			lo = env.rv(env.eval(e.Args[1]), e)
		}
		if e.Args[2] != nil {
			hi = env.rv(env.eval(e.Args[2]), e)
		}
		return TV{sl: &[4]*Term{arr, add(off, lo), sub(hi, lo), sub(cp, lo)}, typ: s.typ}
	case "call":
		return env.evalCall(e)
	}
	_ = x
	env.fail(e, "cannot evaluate %s", e.Kind)
	return TV{}
}

func (env *Env) rvAs(v TV, t types.Type, e *Expr) *Term {
	if v.typ == tyNil {
		return nilOf(t)
	}
	r := env.rv(v, e)
	if r.Sort == sInt && sortOf(t) == sReal {
		return toReal(r)
	}
	return r
}

func toReal(t *Term) *Term {
	if t.Sort == sReal {
		return t
	}
	if l, ok := t.lit(); ok {
		return litOf(l, sReal)
	}
	return mk("to_real", sReal, t)
}

func (env *Env) coerce2(a, b TV, e *Expr) (*Term, *Term) {
	if a.typ == tyNil && b.typ == tyNil {
		return intLit(0), intLit(0)
	}
	if a.typ == tyNil {
		bt := env.rv(b, e)
		return nilOf(b.typ), bt
	}
	if b.typ == tyNil {
		at := env.rv(a, e)
		return at, nilOf(a.typ)
	}
	at, bt := env.rv(a, e), env.rv(b, e)
	if at.Sort == sInt && bt.Sort == sReal {
		at = toReal(at)
	}
	if at.Sort == sReal && bt.Sort == sInt {
		bt = toReal(bt)
	}
	return at, bt
}

func (env *Env) evalBin(e *Expr) TV {
	switch e.Name {
	case "&&":
		return TV{t: and(env.rv(env.eval(e.Args[0]), e), env.rv(env.eval(e.Args[1]), e)), typ: tyBool}
	case "||":
		c := *env
		c.goal = false
		return TV{t: or(c.rv(c.eval(e.Args[0]), e), c.rv(c.eval(e.Args[1]), e)), typ: tyBool}
	case "==>":
		c := *env
		c.goal = false
		return TV{t: implies(c.rv(c.eval(e.Args[0]), e), env.rv(env.eval(e.Args[1]), e)), typ: tyBool}
	}
	c := *env
	c.goal = false
	env = &c
	if e.Name == "in" {
		k := env.eval(e.Args[0])
		m := env.eval(e.Args[1])
		switch mt := m.typ.Underlying().(type) {
		case *LogicMap:
			return TV{t: sel(env.rv(m, e), env.rvAs(k, mt.K, e)), typ: tyBool}
		case *types.Map:
			d, _ := env.x.mapKeys(mt)
			return TV{t: sel(sel(env.heap(d), env.rv(m, e)), env.rvAs(k, mt.Key(), e)), typ: tyBool}
		}
		env.fail(e, "'in' needs a map")
	}
	a := env.eval(e.Args[0])
	b := env.eval(e.Args[1])
	// slices compared with nil
	if (e.Name == "==" || e.Name == "!=") && (a.typ == tyNil || b.typ == tyNil) {
		s := a
		if a.typ == tyNil {
			s = b
		}
		if s.typ != nil && s.typ != tyNil {
			if _, ok := s.typ.Underlying().(*types.Slice); ok {
				arr, _, _, _ := env.slParts(s, e)
				r := eq(arr, intLit(0))
				if e.Name == "!=" {
					r = not(r)
				}
				return TV{t: r, typ: tyBool}
			}
		}
	}
	at, bt := env.coerce2(a, b, e)
	ty := a.typ
	if ty == tyNil {
		ty = b.typ
	}
	switch e.Name {
	case "<==>":
		return TV{t: eq(at, bt), typ: tyBool}
	case "==", "!=":
		if at.Sort != bt.Sort {
			env.fail(e, "comparison of %s and %s", at.Sort, bt.Sort)
		}
		r := eq(at, bt)
		if e.Name == "!=" {
			r = not(r)
		}
		return TV{t: r, typ: tyBool}
	case "<", "<=", ">", ">=":
		if at.Sort == sStr {
			at, bt = app("gstr.ord", at), app("gstr.ord", bt)
		}
		if at.Sort != bt.Sort {
			env.fail(e, "comparison of %s and %s", at.Sort, bt.Sort)
		}
		switch e.Name {
		case "<":
			return TV{t: lt(at, bt), typ: tyBool}
		case "<=":
			return TV{t: le(at, bt), typ: tyBool}
		case ">":
			return TV{t: gt(at, bt), typ: tyBool}
		}
		return TV{t: ge(at, bt), typ: tyBool}
	case "+":
		if at.Sort == sStr {
			return TV{t: app("gstr.cat", at, bt), typ: tyString}
		}
		if at.Sort == sReal {
			ty = tyReal
		}
		return TV{t: add(at, bt), typ: ty}
	case "-":
		if at.Sort == sReal {
			ty = tyReal
		}
		return TV{t: sub(at, bt), typ: ty}
	case "*":
		if at.Sort == sReal {
			ty = tyReal
		}
		return TV{t: mul(at, bt), typ: ty}
	case "/":
		if at.Sort == sReal {
			return TV{t: mk("/", sReal, at, bt), typ: tyReal}
		}
		return TV{t: mk("div", sInt, at, bt), typ: ty}
	case "%":
		return TV{t: mk("mod", sInt, at, bt), typ: ty}
	}
	env.fail(e, "operator %s", e.Name)
	return TV{}
}

func (env *Env) evalId(e *Expr) TV {
	x := env.x
	n := e.Name
	switch n {
	case "true":
		return TV{t: tTrue, typ: tyBool}
	case "false":
		return TV{t: tFalse, typ: tyBool}
	case "nil":
		return TV{t: intLit(0), typ: tyNil}
	case "$idx":
		if x.dry {
			return TV{t: fresh("idx", sInt), typ: tyInt}
		}
		if env.loop == nil || env.loop.idx == nil {
			env.fail(e, "no loop counter here")
		}
		s := x.st
		x.st = env.st
		t := env.loop.idx()
		x.st = s
		if t == nil {
			env.fail(e, "no loop counter here")
		}
		return TV{t: t, typ: tyInt}
	case "$visited":
		for i := len(x.loopSt) - 1; i >= 0; i-- {
			if it := x.iterIn(env.st); it != nil {
				v := env.st.m[it.Vis].(*Term)
				return TV{t: v, typ: &LogicMap{it.Map.Key(), tyBool}}
			}
		}
		env.fail(e, "no map iteration here")
	}
	if v, ok := env.vars[n]; ok {
		return v
	}
	if g := x.v.specs.GhostVars[n]; g != nil {
		t := x.v.resolveType(g.Type, g.Pkg)
		return TV{addr: &Addr{Kind: 'g', Cell: x.regHeap("G:"+n, sortOf(t), 'G', t), Typ: t, Base: t}, typ: t}
	}
	if env.frame != nil {
		if v, ok := env.local(env.frame, n); ok {
			return v
		}
	}
	if v, ok := env.par[n]; ok {
		return v
	}
	if f, ok := x.v.specs.Funcs[n]; ok {
		if f.Macro && len(f.MPar) == 0 {
			return env.evalMacro(f, nil, e)
		}
		if !f.Macro && len(f.Params) == 0 {
			return env.evalSFunc(f, nil, e)
		}
	}
	// package-level objects
	if p := x.v.pkgByRel(env.pkg); p != nil {
		if o := p.Scope().Lookup(n); o != nil {
			return env.pkgObj(o, e)
		}
		if sp := x.v.prog.Package(p); sp != nil && n == "init$guard" {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				return TV{addr: &Addr{Kind: 'g', Cell: x.globalKey(g), Typ: tyBool, Base: tyBool}, typ: tyBool}
			}
		}
	}
	if x.v.pkgByRel(n) != nil {
		return TV{typ: nil, t: nil, fn: nil}
	}
	env.fail(e, "unknown identifier %s", n)
	return TV{}
}

func (env *Env) pkgObj(o types.Object, e *Expr) TV {
	x := env.x
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return TV{t: bigLit(b), typ: o.Type()}
		case constant.String:
			return TV{t: strConst(constant.StringVal(o.Val())), typ: tyString}
		case constant.Bool:
			return TV{t: boolLit(constant.BoolVal(o.Val())), typ: tyBool}
		case constant.Float:
			r, _ := new(big.Rat).SetString(o.Val().ExactString())
			return TV{t: realLit(r), typ: tyReal}
		}
	case *types.Var:
		sp := x.v.prog.Package(o.Pkg())
		if sp != nil {
			if g, ok := sp.Members[o.Name()].(*ssa.Global); ok {
				t := o.Type()
				if a := x.globalObj(g); a != nil {
					return TV{addr: a, typ: t}
				}
				return TV{addr: &Addr{Kind: 'g', Cell: x.globalKey(g), Typ: t, Base: t}, typ: t}
			}
		}
	}
	if fo, ok := o.(*types.Func); ok {
		if fn := x.v.prog.FuncValue(fo); fn != nil {
			return TV{t: x.term(&Closure{Fn: fn}), typ: fo.Type()}
		}
	}
	env.fail(e, "cannot use %s in a specification", o.Name())
	return TV{}
}

// local resolves a source-level variable of the frame (or of its callers).
func (env *Env) local(f *Frame, n string) (TV, bool) {
	x := env.x
	for fr := f; fr != nil; fr = fr.parent {
		for i := len(fr.cells) - 1; i >= 0; i-- {
			a := fr.cells[i]
			if a.Comment != n {
				continue
			}
			t := a.Type().(*types.Pointer).Elem()
			switch av := fr.regs[a].(type) {
			case *Addr:
				if _, ok := env.st.m[av.Cell]; !ok {
					continue
				}
				if ad, ok := env.st.m[av.Cell].(*Addr); ok {
					return TV{addr: ad, typ: types.NewPointer(ad.Typ)}, true
				}
				return TV{addr: av, typ: t}, true
			case *Term:
				ad := x.addrOf(av, t)
				return TV{addr: ad, typ: t}, true
			}
		}
		for i, fv := range fr.fn.FreeVars {
			if fv.Name() == n && i < len(fr.binds) {
				if ad, ok := fr.binds[i].(*Addr); ok {
					return TV{addr: ad, typ: ad.Typ}, true
				}
				if t, ok := fr.binds[i].(*Term); ok {
					el := fv.Type().(*types.Pointer).Elem()
					return TV{addr: x.addrOf(t, el), typ: el}, true
				}
			}
		}
	}
	return TV{}, false
}

func (env *Env) evalField(e *Expr) TV {
	x := env.x
	// package-qualified name
	if b := e.Args[0]; b.Kind == "id" {
		if _, ok := env.vars[b.Name]; !ok {
			isLocal := false
			if env.frame != nil {
				_, isLocal = env.local(env.frame, b.Name)
			}
			if _, ok := env.par[b.Name]; !ok && !isLocal {
				if p := x.v.pkgByRel(b.Name); p != nil {
					o := p.Scope().Lookup(e.Name)
					if o == nil {
						env.fail(e, "unknown %s.%s", b.Name, e.Name)
					}
					return env.pkgObj(o, e)
				}
			}
		}
	}
	v := env.eval(e.Args[0])
	return env.fieldOf(v, e.Name, e)
}

func (env *Env) fieldOf(v TV, name string, e *Expr) TV {
	x := env.x
	if v.typ == nil {
		env.fail(e, "field %s of untyped value", name)
	}
	if strings.HasPrefix(name, "$") {
		// ghost field
		t := v.typ
		var ref *Term
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			ref = env.rv(v, e)
		} else if v.addr != nil && v.addr.Kind == 'f' && v.addr.HP == "" {
			ref = v.addr.Ref
		} else {
			env.fail(e, "ghost field of a value")
		}
		te := x.v.specs.GhostFlds[typeName(t)][name]
		if te == nil {
			env.fail(e, "unknown ghost field %s.%s", typeName(t), name)
		}
		gt := x.v.resolveType(te, env.pkg)
		return TV{addr: &Addr{Kind: 'f', Ref: ref, Root: t, HP: "." + name, Typ: gt}, typ: gt}
	}
	t := v.typ
	addr := v.addr
	if p, ok := t.Underlying().(*types.Pointer); ok {
		r := env.rv(v, e)
		t = p.Elem()
		addr = x.addrOf(r, t)
		v = TV{addr: addr, typ: t}
	}
	pkg := x.v.typesPkgOf(t)
	obj, path, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if obj == nil {
		obj, path, _ = types.LookupFieldOrMethod(t, true, x.v.pkgByRel(env.pkg), name)
	}
	if obj == nil {
		// an unexported field of an unnamed struct type of another package
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					obj, path = st.Field(i), []int{i}
				}
			}
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		env.fail(e, "no field %s in %s", name, typeName(t))
	}
	for _, i := range path {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			r := env.rv(v, e)
			t = p.Elem()
			v = TV{addr: x.addrOf(r, t), typ: t}
		}
		st := t.Underlying().(*types.Struct)
		ft := st.Field(i).Type()
		if v.addr != nil {
			v = TV{addr: x.fieldAddr(v.addr, st, i), typ: ft}
		} else {
			v = TV{t: field(v.t, fieldName(st, i)), typ: ft}
		}
		t = ft
	}
	return v
}

func (env *Env) evalIndex(e *Expr) TV {
	x := env.x
	s := env.eval(e.Args[0])
	i := env.eval(e.Args[1])
	if s.typ == nil {
		env.fail(e, "index of untyped value")
	}
	switch u := s.typ.Underlying().(type) {
	case *types.Slice:
		arr, off, _, _ := env.slParts(s, e)
		idx := add(off, env.rv(i, e))
		if x.v.objElem(u.Elem()) {
			return TV{addr: &Addr{Kind: 'f', Ref: app("elemref", arr, idx), Root: u.Elem(), Typ: u.Elem()}, typ: u.Elem()}
		}
		return TV{addr: &Addr{Kind: 'e', Arr: arr, Idx: idx, Elem: u.Elem(), Typ: u.Elem()}, typ: u.Elem()}
	case *types.Map:
		_, mv := x.mapKeys(u)
		return TV{t: sel(sel(env.heap(mv), env.rv(s, e)), env.rvAs(i, u.Key(), e)), typ: u.Elem()}
	case *LogicMap:
		return TV{t: sel(env.rv(s, e), env.rvAs(i, u.K, e)), typ: u.V}
	case *types.Array:
		if s.addr != nil && s.addr.Kind == 'e' && s.addr.Elem == nil {
			return TV{addr: &Addr{Kind: 'e', Arr: s.addr.Arr, Idx: env.rv(i, e), Elem: u.Elem(), Typ: u.Elem()}, typ: u.Elem()}
		}
		return TV{t: sel(env.rv(s, e), env.rv(i, e)), typ: u.Elem()}
	}
	env.fail(e, "cannot index %s", s.typ)
	return TV{}
}

func (env *Env) evalMacro(f *SFunc, args []*Expr, e *Expr) TV {
	if len(args) != len(f.MPar) {
		env.fail(e, "macro %s: %d arguments expected", f.Name, len(f.MPar))
	}
	ne := *env
	ne.vars = map[string]TV{}
	for i, a := range args {
		c := *env
		c.goal = false
		ne.vars[f.MPar[i]] = c.eval(a)
	}
	ne.frame = nil
	ne.par = nil
	ne.pkg = f.Pkg
	ne.depth++
	if ne.depth > 40 {
		env.fail(e, "macro recursion")
	}
	r := ne.eval(f.Body)
	if r.addr != nil && r.addr.Kind != 'c' {
		return r
	}
	return r
}

// ---------- spec functions

type sfInfo struct {
	heaps []string
	busy  bool
	done  bool
	args  []string
	ret   string
	name  string
	// in the definition of a recursive function its own calls are of the limited twin, so
	// that only the calls that are there get unfolded, each once
	limiting, rec bool
}

func (env *Env) sfInfo(f *SFunc) *sfInfo {
	x := env.x
	v := x.v
	if in, ok := v.sfs[f.Name]; ok {
		return in
	}
	in := &sfInfo{name: "f." + f.Name}
	v.sfs[f.Name] = in
	in.ret = sortOf(v.resolveType(f.Ret, f.Pkg))
	var pts []types.Type
	for _, p := range f.Params {
		t := v.resolveType(p.Type, f.Pkg)
		pts = append(pts, t)
		in.args = append(in.args, sortOf(t))
	}
	if f.Body == nil {
		declFun(in.name, in.args, in.ret)
		in.done = true
		return in
	}
	in.busy = true
	elab := func(keys []string) (*Term, []*Term, []*Term, []string, [][]*Term) {
		hv := map[string]*Term{}
		var order []string
		env2 := &Env{x: x, vars: map[string]TV{}, st: &State{m: map[string]Value{}}, pkg: f.Pkg}
		for _, k := range keys {
			hv[k] = boundVar("H", v.heaps[k].sort)
			order = append(order, k)
		}
		env2.hook = func(k string) *Term {
			if h, ok := hv[k]; ok {
				return h
			}
			h := boundVar("H", v.heaps[k].sort)
			hv[k] = h
			order = append(order, k)
			return h
		}
		var ps []*Term
		for i, p := range f.Params {
			b := boundVar(p.Name, in.args[i])
			ps = append(ps, b)
			env2.vars[p.Name] = TV{t: b, typ: pts[i]}
		}
		body := env2.rvAs(env2.eval(f.Body), v.resolveType(f.Ret, f.Pkg), f.Body)
		var hs []*Term
		for _, k := range order {
			hs = append(hs, hv[k])
		}
		var trigs [][]*Term
		for _, tr := range f.Trigs {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, env2.rv(env2.eval(t), t))
			}
			trigs = append(trigs, ts)
		}
		return body, ps, hs, order, trigs
	}
	// pass 1: collect heaps (recursive calls contribute nothing new)
	_, _, _, keys, _ := elab(nil)
	in.heaps = keys
	args := append([]string{}, in.args...)
	for _, k := range keys {
		args = append(args, v.heaps[k].sort)
	}
	declFun(in.name+"!", nil, in.ret)
	delete(funcDecls, in.name)
	declFun(in.name, args, in.ret)
	in.busy = false
	in.done = true
	in.limiting = true
	lim := in.name + "!lim"
	declFun(lim, args, in.ret)
	body, ps, hs, _, trigs := elab(keys)
	in.limiting = false
	fa := app(in.name, append(append([]*Term{}, ps...), hs...)...)
	if in.rec {
		axioms = append(axioms, &Axiom{"lim " + f.Name, []string{in.name}, forall(append(append([]*Term{}, ps...), hs...), eq(app(lim, append(append([]*Term{}, ps...), hs...)...), fa), []*Term{fa})})
	}
	trigs = append(trigs, []*Term{fa})
	ax := forall(append(append([]*Term{}, ps...), hs...), eq(fa, body), trigs...)
	axioms = append(axioms, &Axiom{"def " + f.Name, []string{in.name}, ax})
	return in
}

func (env *Env) evalSFunc(f *SFunc, args []*Expr, e *Expr) TV {
	in := env.sfInfo(f)
	rt := env.x.v.resolveType(f.Ret, f.Pkg)
	if len(args) != len(f.Params) {
		env.fail(e, "function %s: %d arguments expected", f.Name, len(f.Params))
	}
	var ts []*Term
	for i, a := range args {
		c := *env
		c.goal = false
		t := c.rvAs(c.eval(a), env.x.v.resolveType(f.Params[i].Type, f.Pkg), a)
		if t.Sort != in.args[i] {
			env.fail(e, "argument %d of %s: want %s got %s", i, f.Name, in.args[i], t.Sort)
		}
		ts = append(ts, t)
	}
	if in.busy {
		// first pass of a recursive definition
		n := "rec!" + f.Name
		declFun(n, in.args, in.ret)
		return TV{t: app(n, ts...), typ: rt}
	}
	for _, k := range in.heaps {
		ts = append(ts, env.heap(k))
	}
	if in.limiting {
		in.rec = true
		return TV{t: app(in.name+"!lim", ts...), typ: rt}
	}
	return TV{t: app(in.name, ts...), typ: rt}
}

// ---------- quantifiers

func (env *Env) evalQuant(e *Expr) TV {
	x := env.x
	ne := *env
	ne.vars = make(map[string]TV, len(env.vars)+len(e.Vars))
	for k, v := range env.vars {
		ne.vars[k] = v
	}
	var vs []*Term
	for _, sv := range e.Vars {
		t := x.v.resolveType(sv.Type, env.pkg)
		b := boundVar(sv.Name, sortOf(t))
		vs = append(vs, b)
		ne.vars[sv.Name] = TV{t: b, typ: t}
	}
	if e.Kind == "exists" {
		ne.goal = false
	}
	body := ne.rv(ne.eval(e.Args[0]), e)
	var trigs [][]*Term
	tenv := ne
	tenv.goal = false
	for _, tr := range e.Trigs {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, tenv.rv(tenv.eval(t), t))
		}
		trigs = append(trigs, ts)
	}
	return TV{t: mkQuant(e.Kind, vs, body, trigs, env.goal), typ: tyBool}
}

// evalMapof gives the map defined pointwise: a fresh constant with its definition.
// Only for ghost assignments, where the definition is conservative.
func (env *Env) evalMapof(e *Expr) TV {
	x := env.x
	ne := *env
	ne.goal = false
	ne.vars = make(map[string]TV, len(env.vars)+len(e.Vars))
	for k, v := range env.vars {
		ne.vars[k] = v
	}
	var vs []*Term
	var tys []types.Type
	for _, sv := range e.Vars {
		t := x.v.resolveType(sv.Type, env.pkg)
		b := boundVar(sv.Name, sortOf(t))
		vs = append(vs, b)
		tys = append(tys, t)
		ne.vars[sv.Name] = TV{t: b, typ: t}
	}
	bv := ne.eval(e.Args[0])
	body := ne.rv(bv, e)
	for b := range body.bound {
		ok := false
		for _, w := range vs {
			ok = ok || w == b
		}
		if !ok {
			env.fail(e, "mapof under a quantifier")
		}
	}
	typ := bv.typ
	for i := len(tys) - 1; i >= 0; i-- {
		typ = &LogicMap{K: tys[i], V: typ}
	}
	m := fresh("mapof", sortOf(typ))
	at := m
	for _, b := range vs {
		at = sel(at, b)
	}
	x.assume(forall(vs, eq(at, body), []*Term{at}))
	return TV{t: m, typ: typ}
}

// mkQuant normalises slice indices to absolute positions and infers triggers.
func mkQuant(q string, vs []*Term, body *Term, trigs [][]*Term, single bool) *Term {
	if len(trigs) > 0 {
		return explicitQuant(q, vs, body, trigs, single)
	}
	offs := map[*Term][]*Term{}
	n := 1
	for _, v := range vs {
		if v.Sort != sInt || !body.bound[v] {
			continue
		}
		offs[v] = indexOffsets(body, v, vs)
		if len(offs[v]) > n {
			n = len(offs[v])
		}
	}
	if n > 3 {
		n = 3
	}
	var vers []*Term
	for k := 0; k < n; k++ {
		m := map[*Term]*Term{}
		nvs := make([]*Term, len(vs))
		ch := false
		for i, v := range vs {
			nvs[i] = v
			os := offs[v]
			if len(os) == 0 {
				continue
			}
			o := os[min(k, len(os)-1)]
			if l, ok := o.lit(); ok && l.Sign() == 0 {
				continue
			}
			nv := boundVar(strings.SplitN(v.Op, "!", 2)[0], sInt)
			nvs[i] = nv
			m[v] = sub(nv, o)
			ch = true
		}
		b := body
		if ch || k > 0 {
			if !ch {
				// identity version
				for i, v := range vs {
					nv := boundVar(strings.SplitN(v.Op, "!", 2)[0], v.Sort)
					m[v] = nv
					nvs[i] = nv
				}
			} else if k > 0 {
				// a version of its own for every variable
				plain := map[*Term]*Term{}
				for i, v := range vs {
					if nvs[i] == v {
						nvs[i] = boundVar(strings.SplitN(v.Op, "!", 2)[0], v.Sort)
						plain[v] = nvs[i]
					}
				}
				for v, t := range m {
					m[v] = subst(t, plain)
				}
				for v, t := range plain {
					m[v] = t
				}
			}
			b = subst(body, m)
		}
		vers = append(vers, quant(q, nvs, b, inferTrigs(b, nvs)))
		if single {
			break
		}
	}
	if len(vers) == 1 {
		return vers[0]
	}
	if q == "forall" {
		return mk("and", sBool, vers...)
	}
	return mk("or", sBool, vers...)
}

// explicitQuant shifts the variables so that the indices in the triggers
// given are plain variables, one version for every trigger.
func explicitQuant(q string, vs []*Term, body *Term, trigs [][]*Term, single bool) *Term {
	if single {
		return quant(q, vs, body, trigs)
	}
	var vers []*Term
	for k, tr := range trigs {
		m := map[*Term]*Term{}
		nvs := make([]*Term, len(vs))
		for i, v := range vs {
			nv := boundVar(strings.SplitN(v.Op, "!", 2)[0], v.Sort)
			nvs[i] = nv
			m[v] = nv
			if v.Sort != sInt {
				continue
			}
			for _, t := range tr {
				if os := indexOffsets(t, v, vs); len(os) > 0 {
					m[v] = sub(nv, os[0])
					break
				}
			}
		}
		plain := map[*Term]*Term{}
		for i, v := range vs {
			if v.Sort != sInt {
				plain[v] = nvs[i]
			}
		}
		for i, v := range vs {
			if m[v] != nvs[i] {
				m[v] = subst(m[v], plain)
			}
		}
		nt := [][]*Term{}
		for j, o := range trigs {
			if j != k {
				continue
			}
			var ps []*Term
			for _, t := range o {
				ps = append(ps, subst(t, m))
			}
			nt = append(nt, ps)
		}
		vers = append(vers, quant(q, nvs, subst(body, m), nt))
	}
	if len(vers) == 1 {
		return vers[0]
	}
	if q == "forall" {
		return mk("and", sBool, vers...)
	}
	return mk("or", sBool, vers...)
}

// indexOffsets finds the offsets c with select(_, v+c) in t.
func indexOffsets(t *Term, v *Term, vs []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !t.bound[v] {
			return
		}
		seen[t] = true
		if d := funcDecls[t.Op]; (d != nil || t.Op == "select") && len(t.Args) > 0 {
			for i, a := range t.Args {
				if t.Op == "select" && i == 0 {
					continue
				}
				if a.Sort == sInt && a.bound[v] && okIndex(a) {
					c := sub(a, v)
					if c.bound[v] {
						continue
					}
					bad := false
					for _, w := range vs {
						// variables of other sorts are not shifted themselves
						if c.bound[w] && w.Sort == sInt {
							bad = true
						}
					}
					if d != nil && t.Op != "elemref" {
						// function of v+const: only plain variables count
						if l, ok := c.lit(); !ok || l.Sign() != 0 {
							continue
						}
					}
					if len(c.bound) > 0 {
						// depends on an outer bound variable: fine
					}
					if bad {
						continue
					}
					dup := false
					for _, o := range out {
						if o == c {
							dup = true
						}
					}
					if !dup {
						out = append(out, c)
					}
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	// drop offsets differing from an earlier one by a literal: same slice, neighbouring index
	var keep []*Term
	for _, o := range out {
		dup := false
		for _, k := range keep {
			if _, ok := sub(o, k).lit(); ok {
				dup = true
			}
		}
		if !dup {
			keep = append(keep, o)
		}
	}
	// prefer, within such a class, the plain one (handled by order of occurrence)
	return keep
}

func okIndex(a *Term) bool {
	switch a.Op {
	case "ite", "div", "mod":
		return false
	}
	return true
}

func okPattern(t *Term) bool {
	switch t.Op {
	case "and", "or", "not", "=>", "=", "ite", "<", "<=", "forall", "exists", "store", "constarr", "div", "mod", "to_real":
		return t.bound == nil && t.Op == "store"
	}
	for _, a := range t.Args {
		if !okPattern(a) {
			return false
		}
	}
	return true
}

func inferTrigs(body *Term, vs []*Term) [][]*Term {
	isV := map[*Term]bool{}
	for _, v := range vs {
		if body.bound[v] {
			isV[v] = true
		}
	}
	if len(isV) == 0 {
		return nil
	}
	var cands []*Term
	seen := map[*Term]bool{}
	inner := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(t.bound) == 0 {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			for _, v := range t.Vars {
				inner[v] = true
			}
		}
		if (t.Op == "select" || funcDecls[t.Op] != nil) && okPattern(t) {
			direct := false
			arith := false
			for _, a := range t.Args {
				if isV[a] {
					direct = true
				} else if (a.Op == "+" || a.Op == "*" || a.Op == "-") && len(a.bound) > 0 {
					for v := range a.bound {
						if isV[v] {
							arith = true
						}
					}
				}
			}
			if t.Op == "gstr.ord" && direct {
				direct = false
				for _, a := range t.Args {
					_ = a
				}
				direct = true
			}
			if direct && !arith {
				cands = append(cands, t)
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	var ok []*Term
	for _, c := range cands {
		bad := false
		for v := range c.bound {
			if inner[v] {
				bad = true
			}
		}
		if !bad {
			ok = append(ok, c)
		}
	}
	cover := func(t *Term) int {
		n := 0
		for v := range isV {
			if t.bound[v] {
				n++
			}
		}
		return n
	}
	var full, part []*Term
	for _, c := range ok {
		if cover(c) == len(isV) {
			full = append(full, c)
		} else {
			part = append(part, c)
		}
	}
	var out [][]*Term
	// drop full candidates that contain another full candidate
	for _, c := range full {
		sub := false
		for _, d := range full {
			if d != c && contains(c, d) {
				sub = true
			}
		}
		if !sub && len(out) < 4 {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 0 {
		return out
	}
	var ordered []*Term
	for _, v := range vs {
		if isV[v] {
			ordered = append(ordered, v)
		}
	}
	seenT := map[string]bool{}
	for _, c := range part {
		if !c.bound[ordered[0]] {
			continue
		}
		trig := []*Term{c}
		cov := map[*Term]bool{}
		for v := range c.bound {
			cov[v] = true
		}
		for _, v := range ordered {
			if cov[v] {
				continue
			}
			var pick *Term
			for _, d := range part {
				if d.bound[v] && d.Op == c.Op && len(d.Args) > 0 && d.Args[0] == c.Args[0] {
					pick = d
					break
				}
			}
			if pick == nil {
				for _, d := range part {
					if d.bound[v] {
						pick = d
						break
					}
				}
			}
			if pick == nil {
				trig = nil
				break
			}
			trig = append(trig, pick)
			for w := range pick.bound {
				cov[w] = true
			}
		}
		if trig == nil {
			return nil
		}
		k := ""
		for _, t := range trig {
			k += fmt.Sprint(t.id, ",")
		}
		if !seenT[k] && len(out) < 4 {
			seenT[k] = true
			out = append(out, trig)
		}
	}
	return out
}

func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if contains(a, s) {
			return true
		}
	}
	return false
}

// ---------- calls in specifications

func (env *Env) evalCall(e *Expr) TV {
	x := env.x
	arg := func(i int) TV {
		if i >= len(e.Args) {
			env.fail(e, "%s: missing argument", e.Name)
		}
		c := *env
		c.goal = false
		return c.eval(e.Args[i])
	}
	rv := func(i int) *Term { return env.rv(arg(i), e) }
	switch e.Name {
	case "len":
		v := arg(0)
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			_, _, l, _ := env.slParts(v, e)
			return TV{t: l, typ: tyInt}
		case *types.Map:
			d, _ := x.mapKeys(u)
			return TV{t: x.card(sel(env.heap(d), env.rv(v, e))), typ: tyInt}
		case *types.Basic:
			return TV{t: app("gstr.len", env.rv(v, e)), typ: tyInt}
		}
		env.fail(e, "len of %s", v.typ)
	case "cap":
		_, _, _, c := env.slParts(arg(0), e)
		return TV{t: c, typ: tyInt}
	case "arr":
		a, _, _, _ := env.slParts(arg(0), e)
		return TV{t: a, typ: tyRef}
	case "off":
		_, o, _, _ := env.slParts(arg(0), e)
		return TV{t: o, typ: tyInt}
	case "str": // the bytes of a slice as a string
		v := arg(0)
		a, o, l, _ := env.slParts(v, e)
		el := v.typ.Underlying().(*types.Slice).Elem()
		x.bytesAxiom()
		return TV{t: app("gstr.of", sel(env.heap(x.elemKey(el)), a), o, l), typ: types.Typ[types.String]}
	case "row":
		v := arg(0)
		a, _, _, _ := env.slParts(v, e)
		el := v.typ.Underlying().(*types.Slice).Elem()
		return TV{t: sel(env.heap(x.elemKey(el)), a), typ: &LogicMap{tyInt, el}}
	case "rowof": // rowof("T", arrayref)
		el := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		return TV{t: sel(env.heap(x.elemKey(el)), rv(1)), typ: &LogicMap{tyInt, el}}
	case "dom":
		v := arg(0)
		m := v.typ.Underlying().(*types.Map)
		d, _ := x.mapKeys(m)
		return TV{t: sel(env.heap(d), env.rv(v, e)), typ: &LogicMap{m.Key(), tyBool}}
	case "vals":
		v := arg(0)
		m := v.typ.Underlying().(*types.Map)
		_, d := x.mapKeys(m)
		return TV{t: sel(env.heap(d), env.rv(v, e)), typ: &LogicMap{m.Key(), m.Elem()}}
	case "card":
		return TV{t: x.card(rv(0)), typ: tyInt}
	case "mapsum": // mapsum(m): sum of the values of a map
		v := arg(0)
		m := v.typ.Underlying().(*types.Map)
		d, mv := x.mapKeys(m)
		r := env.rv(v, e)
		return TV{t: x.mapSum(m, sel(env.heap(d), r), sel(env.heap(mv), r)), typ: m.Elem()}
	case "mapcount": // mapcount(m, v): number of keys with value v
		v := arg(0)
		m := v.typ.Underlying().(*types.Map)
		d, mv := x.mapKeys(m)
		r := env.rv(v, e)
		return TV{t: x.mapCount(m, sel(env.heap(d), r), sel(env.heap(mv), r), rv(1)), typ: tyInt}
	case "old":
		c := *env
		c.st = env.old
		c.frame = nil
		if env.oldFr != nil {
			c.frame = env.oldFr
		}
		c.goal = false
		v := c.eval(e.Args[0])
		return c.freeze(v, e)
	case "before", "iter":
		if env.loop == nil {
			env.fail(e, "%s outside a loop", e.Name)
		}
		c := *env
		c.goal = false
		if e.Name == "before" {
			c.st = env.loop.before
		} else {
			c.st = env.loop.header
		}
		return c.freeze(c.eval(e.Args[0]), e)
	case "fresh": // allocated since function entry (since the call, for callers)
		v := arg(0)
		var r *Term
		if v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Slice); ok {
				r, _, _, _ = env.slParts(v, e)
			}
		}
		if r == nil {
			r = env.rv(v, e)
		}
		return TV{t: and(ge(r, x.nextT(env.old)), lt(r, x.nextT(env.st))), typ: tyBool}
	case "allocated":
		v := arg(0)
		var r *Term
		if v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Slice); ok {
				r, _, _, _ = env.slParts(v, e)
			}
		}
		if r == nil {
			r = env.rv(v, e)
		}
		if env.hook != nil {
			env.fail(e, "allocated in a function body")
		}
		return TV{t: lt(r, x.nextT(env.st)), typ: tyBool}
	case "next":
		return TV{t: x.nextT(env.st), typ: tyInt}
	case "held":
		a := arg(0)
		if a.addr == nil {
			env.fail(e, "held needs a lock field")
		}
		return TV{t: x.lockState(env, a.addr), typ: tyInt}
	case "abs":
		v := arg(0)
		t := env.rv(v, e)
		z := litOf(new(big.Rat), t.Sort)
		return TV{t: ite(lt(t, z), neg(t), t), typ: v.typ}
	case "min", "max":
		a, b := arg(0), arg(1)
		at, bt := env.coerce2(a, b, e)
		if e.Name == "min" {
			return TV{t: ite(le(at, bt), at, bt), typ: a.typ}
		}
		return TV{t: ite(le(at, bt), bt, at), typ: a.typ}
	case "real":
		return TV{t: toReal(rv(0)), typ: tyReal}
	case "ref":
		return TV{t: rv(0), typ: tyRef}
	case "asref": // asref("T", r): r as pointer to T
		t := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		return TV{t: rv(1), typ: types.NewPointer(t)}
	case "deref": // deref(p): the value p points to
		v := arg(0)
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			env.fail(e, "deref needs a pointer")
		}
		return TV{addr: x.addrOf(env.rv(v, e), p.Elem()), typ: p.Elem()}
	case "addr":
		v := arg(0)
		if v.addr == nil {
			env.fail(e, "addr needs an lvalue")
		}
		return TV{t: x.term(v.addr), typ: types.NewPointer(v.typ)}
	case "is":
		t := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		return TV{t: eq(app("if.tag", rv(1)), tagOf(t)), typ: tyBool}
	case "as":
		t := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		return TV{t: unbox(t, rv(1)), typ: t}
	case "boxed":
		v := arg(0)
		t := v.typ
		i := 0
		if e.Args[0].Kind == "str" {
			t = x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
			i = 1
		}
		return TV{t: box(t, rv(i)), typ: types.NewInterfaceType(nil, nil)}
	case "emptyset":
		t := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		lm := &LogicMap{t, tyBool}
		return TV{t: constArr(sortOf(lm), tFalse), typ: lm}
	case "constmap": // constmap("int", v): maps every int to v
		kt := x.v.resolveTypeStr(e.Args[0].Name, env.pkg)
		v := arg(1)
		lm := &LogicMap{kt, v.typ}
		return TV{t: constArr(sortOf(lm), env.rv(v, e)), typ: lm}
	case "ord":
		return TV{t: app("gstr.ord", rv(0)), typ: tyReal}
	case "sent":
		// sent(ch): number of values sent so far on ch ; sent(ch, i): the i-th value
		v := arg(0)
		ct, ok := v.typ.Underlying().(*types.Chan)
		if !ok {
			env.fail(e, "sent needs a channel")
		}
		n, vals := x.chanKeys(ct)
		r := env.rv(v, e)
		if len(e.Args) == 1 {
			return TV{t: sel(env.heap(n), r), typ: tyInt}
		}
		return TV{t: sel(sel(env.heap(vals), r), rv(1)), typ: ct.Elem()}
	case "rcvd":
		v := arg(0)
		ct, ok := v.typ.Underlying().(*types.Chan)
		if !ok {
			env.fail(e, "rcvd needs a channel")
		}
		n, vals := x.rcvKeys(ct)
		r := env.rv(v, e)
		if len(e.Args) == 1 {
			return TV{t: sel(env.heap(n), r), typ: tyInt}
		}
		return TV{t: sel(sel(env.heap(vals), r), rv(1)), typ: ct.Elem()}
	case "called": // called("name"): number of recorded calls ; called("name", i, k): k-th argument of the i-th call
		key := "$calls:" + e.Args[0].Name
		env.x.regHeap(key, sInt, 'T', nil)
		if len(e.Args) == 1 {
			return TV{t: env.heap(key), typ: tyInt}
		}
		k := 0
		fmt.Sscan(e.Args[2].Name, &k)
		ci := x.v.recorded[e.Args[0].Name]
		if ci == nil || k >= len(ci) {
			env.fail(e, "called: no recorded call %s", e.Args[0].Name)
		}
		ak := fmt.Sprintf("$callarg:%s:%d", e.Args[0].Name, k)
		x.regHeap(ak, arrSort(sInt, sortOf(ci[k])), 'T', nil)
		return TV{t: sel(env.heap(ak), rv(1)), typ: ci[k]}
	case "let":
	}
	if f, ok := x.v.specs.Funcs[e.Name]; ok {
		if f.Macro {
			return env.evalMacro(f, e.Args, e)
		}
		return env.evalSFunc(f, e.Args, e)
	}
	// pure functions / methods of the program
	if strings.HasPrefix(e.Name, ".") {
		recv := arg(0)
		t := recv.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		name := typeName(t) + e.Name
		c := x.v.specs.Contracts[name]
		if c == nil {
			env.fail(e, "no contract %s", name)
		}
		var args []TV
		for i := range e.Args {
			args = append(args, arg(i))
		}
		return env.pureCall(c, args, e)
	}
	if c := x.v.specs.Contracts[env.pkg+"."+e.Name]; c != nil {
		var args []TV
		for i := range e.Args {
			args = append(args, arg(i))
		}
		return env.pureCall(c, args, e)
	}
	env.fail(e, "unknown function %s", e.Name)
	return TV{}
}

func (env *Env) freeze(v TV, e *Expr) TV {
	if v.addr != nil {
		// keep struct-typed lvalues of objects readable in that state by loading
		t := env.loadAddr(v.addr, e)
		return TV{t: t, typ: v.typ}
	}
	return v
}

func (env *Env) pureCall(c *Contract, args []TV, e *Expr) TV {
	x := env.x
	if c.Pure != nil {
		ne := *env
		ne.vars = map[string]TV{}
		for i, p := range c.Params {
			if i < len(args) {
				ne.vars[p] = args[i]
			}
		}
		ne.frame = nil
		ne.par = nil
		ne.pkg = c.Pkg
		return ne.eval(c.Pure)
	}
	if c.PureFn {
		sig := x.v.sigOf(c.Name)
		if sig == nil {
			env.fail(e, "no signature for %s", c.Name)
		}
		var ts []*Term
		var ss []string
		for _, a := range args {
			t := env.rv(a, e)
			ts = append(ts, t)
			ss = append(ss, t.Sort)
		}
		rt := sig.Results().At(0).Type()
		n := "pf." + sanitize(c.Name)
		declFun(n, ss, sortOf(rt))
		return TV{t: app(n, ts...), typ: rt}
	}
	env.fail(e, "%s is not pure", c.Name)
	return TV{}
}
