package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// LogicMap is a mathematical map (SMT array).
type LogicMap struct{ K, V types.Type }

func (l *LogicMap) Underlying() types.Type { return l }
func (l *LogicMap) String() string         { return "lmap[" + typeName(l.K) + "]" + typeName(l.V) }

// LogicRef is an untyped object reference.
type logicRef struct{}

func (l *logicRef) Underlying() types.Type { return l }
func (l *logicRef) String() string         { return "ref" }

var tyRef = &logicRef{}
var tyInt = types.Typ[types.Int]
var tyBool = types.Typ[types.Bool]
var tyString = types.Typ[types.String]
var tyReal = types.Typ[types.Float64]
var tyNil = types.Typ[types.UntypedNil]

const modPath = "github.com/go-ego/riot"

func pkgRel(path string) string {
	if path == modPath {
		return "riot"
	}
	if strings.HasPrefix(path, modPath+"/") {
		return path[len(modPath)+1:]
	}
	return path
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return pkgRel(p.Path()) })
}

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// transparent: struct types of other modules whose fields are visible to the contracts
var transparent = map[string]bool{}

// opaque structs: structs of other modules (mutexes, segmenters, times ...)
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return isStruct(t) && !inRepo(n.Obj().Pkg()) && !transparent[typeName(n)]
}

func sortOf(t types.Type) string {
	if t == nil {
		panic("sortOf nil")
	}
	if t == types.Typ[types.Invalid] {
		return sInt // unconstrained type parameter
	}
	switch u := t.(type) {
	case *LogicMap:
		return arrSort(sortOf(u.K), sortOf(u.V))
	case *logicRef:
		return sInt
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return "TP." + tp.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsFloat != 0:
			return sReal
		case u.Info()&types.IsString != 0:
			return sStr
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return sInt
		}
		panic("sortOf basic " + u.String())
	case *types.Pointer, *types.Map, *types.Chan:
		return sInt
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sIface
	case *types.Signature:
		return sFunc
	case *types.Array:
		return arrSort(sInt, sortOf(u.Elem()))
	case *types.Tuple:
		if u.Len() == 0 {
			return "Unit"
		}
	case *types.Struct:
		name := "S." + sanitize(typeName(t))
		if isOpaque(t) {
			name = "X." + sanitize(typeName(t))
			sortDecls[name] = true
			return name
		}
		if _, ok := datatypes[name]; !ok {
			d := &Datatype{Name: name}
			datatypes[name] = d
			for i := 0; i < u.NumFields(); i++ {
				d.Fields = append(d.Fields, DField{fieldName(u, i), sortOf(u.Field(i).Type())})
			}
		}
		return name
	}
	panic("sortOf " + t.String())
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

func intBounds(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, unsigned := intWidth(b)
	one := big.NewInt(1)
	if unsigned {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func intWidth(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- slices

func declPrelude() {
	for _, s := range []string{sStr, sSlice, sIface, sFunc} {
		sortDecls[s] = true
	}
	declFun("sl.arr", []string{sSlice}, sInt)
	declFun("sl.off", []string{sSlice}, sInt)
	declFun("sl.len", []string{sSlice}, sInt)
	declFun("sl.cap", []string{sSlice}, sInt)
	s := boundVar("s", sSlice)
	a, o, l, c := app("sl.arr", s), app("sl.off", s), app("sl.len", s), app("sl.cap", s)
	lim := intLit(1 << 47)
	wf := and(le(intLit(0), a), le(intLit(0), o), le(intLit(0), l), le(l, c), le(c, lim), le(o, lim), implies(eq(a, intLit(0)), eq(c, intLit(0))))
	axioms = append(axioms,
		&Axiom{"slice-wf-len", []string{"sl.len"}, forall([]*Term{s}, wf, []*Term{l})},
		&Axiom{"slice-wf-arr", []string{"sl.arr"}, forall([]*Term{s}, and(le(intLit(0), a), implies(eq(a, intLit(0)), eq(c, intLit(0)))), []*Term{a})},
		&Axiom{"slice-wf-off", []string{"sl.off"}, forall([]*Term{s}, and(le(intLit(0), o), le(o, lim)), []*Term{o})},
	)
	nilS := constT("nilslice", sSlice)
	axioms = append(axioms, &Axiom{"nilslice", []string{"nilslice"}, and(eq(app("sl.arr", nilS), intLit(0)), eq(app("sl.off", nilS), intLit(0)), eq(app("sl.len", nilS), intLit(0)), eq(app("sl.cap", nilS), intLit(0)))})
	// strings
	declFun("gstr.ord", []string{sStr}, sReal)
	declFun("gstr.unord", []string{sReal}, sStr)
	declFun("gstr.len", []string{sStr}, sInt)
	declFun("gstr.cat", []string{sStr, sStr}, sStr)
	x := boundVar("x", sStr)
	axioms = append(axioms, &Axiom{"ord-inj", []string{"gstr.ord"}, forall([]*Term{x}, eq(app("gstr.unord", app("gstr.ord", x)), x), []*Term{app("gstr.ord", x)})})
	axioms = append(axioms, &Axiom{"strlen", []string{"gstr.len"}, forall([]*Term{x}, and(le(intLit(0), app("gstr.len", x)), le(app("gstr.len", x), lim), implies(eq(app("gstr.len", x), intLit(0)), eq(x, strConst("")))), []*Term{app("gstr.len", x)})})
	axioms = append(axioms, &Axiom{"strlen0", []string{"gstr.len"}, eq(app("gstr.len", strConst("")), intLit(0))})
	y := boundVar("y", sStr)
	cat := app("gstr.cat", x, y)
	axioms = append(axioms, &Axiom{"catlen", []string{"gstr.cat", "gstr.len"}, forall([]*Term{x, y}, eq(app("gstr.len", cat), add(app("gstr.len", x), app("gstr.len", y))), []*Term{cat})})
	axioms = append(axioms, &Axiom{"cate", []string{"gstr.cat"}, forall([]*Term{x}, and(eq(app("gstr.cat", x, strConst("")), x), eq(app("gstr.cat", strConst(""), x), x)), []*Term{app("gstr.cat", x, strConst(""))}, []*Term{app("gstr.cat", strConst(""), x)})})
	// interfaces
	declFun("if.tag", []string{sIface}, sInt)
	ni := constT("nilif", sIface)
	axioms = append(axioms, &Axiom{"nilif", []string{"nilif", "if.tag"}, eq(app("if.tag", ni), intLit(0))})
	declFun("elemref", []string{sInt, sInt}, sInt)
	declFun("elemref.a", []string{sInt}, sInt)
	declFun("elemref.i", []string{sInt}, sInt)
	p, q := boundVar("a", sInt), boundVar("i", sInt)
	er := app("elemref", p, q)
	axioms = append(axioms, &Axiom{"elemref", []string{"elemref"}, forall([]*Term{p, q}, and(lt(er, intLit(0)), eq(app("elemref.a", er), p), eq(app("elemref.i", er), q)), []*Term{er})})
}

var strConsts = map[string]*Term{}
var strConstRev = map[string]string{}

func strConst(s string) *Term {
	if t, ok := strConsts[s]; ok {
		return t
	}
	n := fmt.Sprintf("str$%d_%s", len(strConsts), sanitize(s))
	if len(n) > 40 {
		n = n[:40]
	}
	t := constT(n, sStr)
	strConsts[s] = t
	strConstRev[n] = s
	return t
}

// interface boxing
var boxTypes = map[string]types.Type{}
var tagNums = map[string]int{}

func tagOf(t types.Type) *Term {
	n := typeName(t)
	k, ok := tagNums[n]
	if !ok {
		k = len(tagNums) + 1
		tagNums[n] = k
	}
	return intLit(int64(k))
}

func boxFn(t types.Type) (string, string) {
	n := sanitize(typeName(t))
	b, u := "box."+n, "unbox."+n
	if _, ok := boxTypes[b]; !ok {
		boxTypes[b] = t
		s := sortOf(t)
		declFun(b, []string{s}, sIface)
		declFun(u, []string{sIface}, s)
		v := boundVar("v", s)
		bv := app(b, v)
		axioms = append(axioms, &Axiom{"box", []string{b}, forall([]*Term{v}, and(eq(app(u, bv), v), eq(app("if.tag", bv), tagOf(t))), []*Term{bv})})
		i := boundVar("i", sIface)
		ub := app(u, i)
		axioms = append(axioms, &Axiom{"unbox", []string{u}, forall([]*Term{i}, implies(eq(app("if.tag", i), tagOf(t)), eq(app(b, ub), i)), []*Term{ub})})
	}
	return b, u
}

func box(t types.Type, v *Term) *Term {
	b, _ := boxFn(t)
	return app(b, v)
}
func unbox(t types.Type, v *Term) *Term {
	b, u := boxFn(t)
	if v.Op == b {
		return v.Args[0]
	}
	return app(u, v)
}

func nilOf(t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		return constT("nilslice", sSlice)
	case *types.Interface:
		return constT("nilif", sIface)
	case *types.Signature:
		return constT("nilfunc", sFunc)
	}
	return intLit(0)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case sBool:
			return tFalse
		case sInt:
			return intLit(0)
		case sReal:
			return litOf(new(big.Rat), sReal)
		case sStr:
			return strConst("")
		}
	case *types.Struct:
		s := sortOf(t)
		if isOpaque(t) {
			return constT("zero."+s, s)
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroOf(u.Field(i).Type()))
		}
		return construct(s, args...)
	case *types.Array:
		return constArr(sortOf(t), zeroOf(u.Elem()))
	}
	return nilOf(t)
}

// leaves of a struct type for heap storage
type leaf struct {
	path string
	typ  types.Type
}

func structLeaves(t types.Type) []leaf {
	var out []leaf
	var rec func(prefix string, t types.Type)
	rec = func(prefix string, t types.Type) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			p := prefix + "." + fieldName(u, i)
			if isStruct(f.Type()) && !isOpaque(f.Type()) {
				rec(p, f.Type())
			} else {
				out = append(out, leaf{p, f.Type()})
			}
		}
	}
	rec("", t)
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
