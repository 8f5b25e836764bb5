package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Vars  []*Term   // quantifier variables
	Trigs [][]*Term // quantifier triggers
	id    int
	bound map[*Term]bool // free bound-variables (nil if ground)
	size  int
}

var (
	termTab  = map[string]*Term{}
	termNext = 0
)

const (
	sInt   = "Int"
	sBool  = "Bool"
	sReal  = "Real"
	sStr   = "Str"
	sSlice = "Slice"
	sIface = "Iface"
	sFunc  = "Func"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns the key and value sorts of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad sort " + s)
}

func mk(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: srt, size: 1}
	for _, a := range args {
		t.size += a.size
		for v := range a.bound {
			if t.bound == nil {
				t.bound = map[*Term]bool{}
			}
			t.bound[v] = true
		}
	}
	if t.size > 1<<28 {
		t.size = 1 << 28
	}
	termNext++
	t.id = termNext
	termTab[k] = t
	return t
}

var bvCount = 0

var termMu sync.Mutex

func boundVar(name, srt string) *Term {
	termMu.Lock()
	defer termMu.Unlock()
	bvCount++
	t := &Term{Op: fmt.Sprintf("%s!%d", sanitize(name), bvCount), Sort: srt, size: 1}
	termNext++
	t.id = termNext
	t.bound = map[*Term]bool{t: true}
	return t
}

func quant(q string, vars []*Term, body *Term, trigs [][]*Term) *Term {
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	var vs []*Term
	for _, v := range vars {
		if body.bound[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	var ts [][]*Term
	for _, tr := range trigs {
		cov := map[*Term]bool{}
		for _, p := range tr {
			for v := range p.bound {
				cov[v] = true
			}
		}
		ok := true
		for _, v := range vs {
			if !cov[v] {
				ok = false
			}
		}
		if ok {
			ts = append(ts, tr)
		}
	}
	t := &Term{Op: q, Args: []*Term{body}, Sort: sBool, Vars: vs, Trigs: ts, size: body.size + 1}
	for v := range body.bound {
		skip := false
		for _, w := range vs {
			if v == w {
				skip = true
			}
		}
		if !skip {
			if t.bound == nil {
				t.bound = map[*Term]bool{}
			}
			t.bound[v] = true
		}
	}
	termNext++
	t.id = termNext
	return t
}

func forall(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return quant("forall", vars, body, trigs)
}
func exists(vars []*Term, body *Term, trigs ...[]*Term) *Term {
	return quant("exists", vars, body, trigs)
}

var (
	tTrue  = mk("true", sBool)
	tFalse = mk("false", sBool)
)

func intLit(n int64) *Term     { return mk("#"+strconv.FormatInt(n, 10), sInt) }
func bigLit(n *big.Int) *Term  { return mk("#"+n.String(), sInt) }
func realLit(r *big.Rat) *Term { return mk("#"+r.RatString(), sReal) }
func boolLit(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func (t *Term) lit() (*big.Rat, bool) {
	if strings.HasPrefix(t.Op, "#") {
		r, ok := new(big.Rat).SetString(t.Op[1:])
		return r, ok
	}
	return nil, false
}
func litOf(r *big.Rat, srt string) *Term {
	return mk("#"+r.RatString(), srt)
}

// --- declarations

type FuncDecl struct {
	Name string
	Args []string
	Ret  string
}

type Axiom struct {
	Name string
	Syms []string // included in a query when all of these symbols occur
	T    *Term
}

var (
	funcDecls  = map[string]*FuncDecl{}
	constDecls = map[string]string{}
	sortDecls  = map[string]bool{}
	datatypes  = map[string]*Datatype{}
	axioms     []*Axiom
	freshCnt   = map[string]int{}
)

type Datatype struct {
	Name   string
	Fields []DField
}
type DField struct{ Name, Sort string }

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '!', c == '@':
			sb.WriteRune(c)
		case c == '*':
			sb.WriteString("ptr.")
		case c == '[':
			sb.WriteString("<")
		case c == ']':
			sb.WriteString(">")
		case c == '/':
			sb.WriteString(".")
		default:
			sb.WriteString("_")
		}
	}
	r := sb.String()
	if r == "" || r[0] == '.' || r[0] == '@' || (r[0] >= '0' && r[0] <= '9') {
		r = "v" + r
	}
	return r
}

func constT(name, srt string) *Term {
	if old, ok := constDecls[name]; ok && old != srt {
		panic("const redeclared " + name + " " + old + " " + srt)
	}
	constDecls[name] = srt
	return mk(name, srt)
}

func fresh(name, srt string) *Term {
	name = sanitize(name)
	freshCnt[name]++
	return constT(fmt.Sprintf("%s@%d", name, freshCnt[name]), srt)
}

func declFun(name string, args []string, ret string) {
	if _, ok := funcDecls[name]; !ok {
		funcDecls[name] = &FuncDecl{name, args, ret}
	}
}

func app(name string, args ...*Term) *Term {
	d := funcDecls[name]
	if d == nil {
		panic("undeclared function " + name)
	}
	if len(d.Args) != len(args) {
		panic(fmt.Sprintf("arity of %s: %d vs %d", name, len(d.Args), len(args)))
	}
	for i := range args {
		if d.Args[i] != args[i].Sort {
			panic(fmt.Sprintf("sort of arg %d of %s: want %s got %s (%s)", i, name, d.Args[i], args[i].Sort, args[i]))
		}
	}
	return mk(name, d.Ret, args...)
}

// --- smart constructors

func not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", sBool, a)
}

func and(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var addAll func(xs []*Term) bool
	addAll = func(xs []*Term) bool {
		for _, a := range xs {
			if a.Sort != sBool {
				panic("and: non-bool " + a.String())
			}
			if a.Op == "true" || seen[a] {
				continue
			}
			if a.Op == "false" || seen[not(a)] {
				return false
			}
			if a.Op == "and" {
				if !addAll(a.Args) {
					return false
				}
				continue
			}
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	if !addAll(as) {
		return tFalse
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", sBool, out...)
}

func or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Sort != sBool {
			panic("or: non-bool " + a.String())
		}
		if a.Op == "false" || seen[a] {
			continue
		}
		if a.Op == "true" || seen[not(a)] {
			return tTrue
		}
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", sBool, out...)
}

func implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	if b.Op == "false" {
		return not(a)
	}
	if b.Op == "=>" {
		return implies(and(a, b.Args[0]), b.Args[1])
	}
	return mk("=>", sBool, a, b)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq: sorts %s / %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if la, ok := a.lit(); ok {
		if lb, ok := b.lit(); ok {
			return boolLit(la.Cmp(lb) == 0)
		}
	}
	if a.Sort == sBool {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return not(b)
		case b.Op == "false":
			return not(a)
		}
	}
	if strings.HasPrefix(a.Op, "str$") && strings.HasPrefix(b.Op, "str$") {
		return tFalse
	}
	if d, ok := datatypes[a.Sort]; ok && a.Op == "mk_"+d.Name && b.Op == a.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, eq(a.Args[i], b.Args[i]))
		}
		return and(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", sBool, a, b)
}

func neq(a, b *Term) *Term { return not(eq(a, b)) }

func ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite: sorts %s / %s", a.Sort, b.Sort))
	}
	if a.Sort == sBool {
		if a.Op == "true" {
			return or(c, b)
		}
		if a.Op == "false" {
			return and(not(c), b)
		}
		if b.Op == "true" {
			return or(not(c), a)
		}
		if b.Op == "false" {
			return and(c, a)
		}
	}
	return mk("ite", a.Sort, c, a, b)
}

// linear sums: normal form  (+ t1 t2 ... const)
func linParts(t *Term, coef *big.Rat, m map[*Term]*big.Rat, c *big.Rat) {
	if l, ok := t.lit(); ok {
		c.Add(c, new(big.Rat).Mul(l, coef))
		return
	}
	switch t.Op {
	case "+":
		for _, a := range t.Args {
			linParts(a, coef, m, c)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			linParts(t.Args[0], new(big.Rat).Neg(coef), m, c)
			return
		}
		linParts(t.Args[0], coef, m, c)
		for _, a := range t.Args[1:] {
			linParts(a, new(big.Rat).Neg(coef), m, c)
		}
		return
	case "*":
		if l, ok := t.Args[0].lit(); ok && len(t.Args) == 2 {
			linParts(t.Args[1], new(big.Rat).Mul(coef, l), m, c)
			return
		}
	}
	if o, ok := m[t]; ok {
		o.Add(o, coef)
	} else {
		m[t] = new(big.Rat).Set(coef)
	}
}

func linBuild(m map[*Term]*big.Rat, c *big.Rat, srt string) *Term {
	var ks []*Term
	for k, v := range m {
		if v.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	one := big.NewRat(1, 1)
	for _, k := range ks {
		v := m[k]
		if v.Cmp(one) == 0 {
			args = append(args, k)
		} else {
			args = append(args, mk("*", srt, litOf(v, srt), k))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, litOf(c, srt))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", srt, args...)
}

func add(a, b *Term) *Term { return lin2(a, b, 1) }
func sub(a, b *Term) *Term { return lin2(a, b, -1) }
func lin2(a, b *Term, s int64) *Term {
	if a.Sort != b.Sort {
		panic("add: sorts " + a.Sort + " " + b.Sort + ": " + a.String() + " ; " + b.String())
	}
	m := map[*Term]*big.Rat{}
	c := new(big.Rat)
	linParts(a, big.NewRat(1, 1), m, c)
	linParts(b, big.NewRat(s, 1), m, c)
	return linBuild(m, c, a.Sort)
}
func neg(a *Term) *Term { return sub(litOf(new(big.Rat), a.Sort), a) }

func mul(a, b *Term) *Term {
	if la, ok := a.lit(); ok {
		m := map[*Term]*big.Rat{}
		c := new(big.Rat)
		linParts(b, la, m, c)
		return linBuild(m, c, a.Sort)
	}
	if _, ok := b.lit(); ok {
		return mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", a.Sort, a, b)
}

func cmp(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic("cmp: sorts " + a.Sort + " " + b.Sort)
	}
	if la, ok := a.lit(); ok {
		if lb, ok := b.lit(); ok {
			c := la.Cmp(lb)
			switch op {
			case "<":
				return boolLit(c < 0)
			case "<=":
				return boolLit(c <= 0)
			}
		}
	}
	if a == b {
		return boolLit(op == "<=")
	}
	return mk(op, sBool, a, b)
}
func lt(a, b *Term) *Term { return cmp("<", a, b) }
func le(a, b *Term) *Term { return cmp("<=", a, b) }
func gt(a, b *Term) *Term { return cmp("<", b, a) }
func ge(a, b *Term) *Term { return cmp("<=", b, a) }

func sel(a, i *Term) *Term {
	_, v := splitArr(a.Sort)
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		_, ok1 := a.Args[1].lit()
		_, ok2 := i.lit()
		s1 := strings.HasPrefix(a.Args[1].Op, "str$")
		s2 := strings.HasPrefix(i.Op, "str$")
		if ok1 && ok2 || s1 && s2 {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return mk("select", v, a, i)
}
func store(a, i, v *Term) *Term {
	k, vs := splitArr(a.Sort)
	if i.Sort != k || v.Sort != vs {
		panic(fmt.Sprintf("store: %s [%s]=%s", a.Sort, i.Sort, v.Sort))
	}
	return mk("store", a.Sort, a, i, v)
}
func constArr(srt string, v *Term) *Term { return mk("constarr", srt, v) }

func field(t *Term, name string) *Term {
	d := datatypes[t.Sort]
	if d == nil {
		panic("field of non-datatype " + t.Sort)
	}
	for i, f := range d.Fields {
		if f.Name == name {
			if t.Op == "mk_"+d.Name {
				return t.Args[i]
			}
			if t.Op == "ite" && t.size < 60 {
				return ite(t.Args[0], field(t.Args[1], name), field(t.Args[2], name))
			}
			return mk(d.Name+"."+name, f.Sort, t)
		}
	}
	panic("no field " + name + " in " + t.Sort)
}
func construct(srt string, args ...*Term) *Term {
	d := datatypes[srt]
	if len(d.Fields) == 0 {
		return mk("mk_"+d.Name, srt)
	}
	for i, f := range d.Fields {
		if args[i].Sort != f.Sort {
			panic(fmt.Sprintf("construct %s.%s: want %s got %s", srt, f.Name, f.Sort, args[i].Sort))
		}
	}
	return mk("mk_"+d.Name, srt, args...)
}
func withField(t *Term, name string, v *Term) *Term {
	d := datatypes[t.Sort]
	args := make([]*Term, len(d.Fields))
	for i, f := range d.Fields {
		if f.Name == name {
			args[i] = v
		} else {
			args[i] = field(t, f.Name)
		}
	}
	return construct(t.Sort, args...)
}

// subst replaces bound variables (or any atoms) by terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			body := rec(t.Args[0])
			var trigs [][]*Term
			for _, tr := range t.Trigs {
				var ps []*Term
				for _, p := range tr {
					ps = append(ps, rec(p))
				}
				trigs = append(trigs, ps)
			}
			r = quant(t.Op, t.Vars, body, trigs)
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t.Op, t.Sort, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(op, srt string, args []*Term) *Term {
	switch op {
	case "not":
		return not(args[0])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "=>":
		return implies(args[0], args[1])
	case "=":
		return eq(args[0], args[1])
	case "ite":
		return ite(args[0], args[1], args[2])
	case "<", "<=":
		return cmp(op, args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = add(r, a)
		}
		return r
	case "-":
		if len(args) == 2 {
			return sub(args[0], args[1])
		}
	case "*":
		if len(args) == 2 {
			return mul(args[0], args[1])
		}
	case "select":
		return sel(args[0], args[1])
	}
	if len(args) == 1 {
		if d, ok := datatypes[args[0].Sort]; ok && strings.HasPrefix(op, d.Name+".") {
			return field(args[0], op[len(d.Name)+1:])
		}
	}
	return mk(op, srt, args...)
}

// --- printing

// nlUF prints nonlinear operations as uninterpreted functions (under buildMu).
var nlUF, nlSeen bool

func nonlinear(t *Term) string {
	switch t.Op {
	case "*", "/":
		if len(t.Args) != 2 {
			return ""
		}
		if _, ok := t.Args[1].lit(); ok {
			return ""
		}
		if t.Op == "/" {
			return "nl.rdiv"
		}
		if _, ok := t.Args[0].lit(); ok {
			return ""
		}
		if t.Sort == sReal {
			return "nl.rmul"
		}
		return "nl.imul"
	}
	return ""
}

const nlDecls = "(declare-fun nl.rmul (Real Real) Real)\n(declare-fun nl.imul (Int Int) Int)\n(declare-fun nl.rdiv (Real Real) Real)\n" +
	"(assert (forall ((a Real) (b Real)) (! (= (nl.rmul a b) (nl.rmul b a)) :pattern ((nl.rmul a b)))))\n" +
	"(assert (forall ((a Int) (b Int)) (! (= (nl.imul a b) (nl.imul b a)) :pattern ((nl.imul a b)))))\n"

func (t *Term) String() string {
	var sb strings.Builder
	printTerm(&sb, t, nil)
	s := sb.String()
	return s
}

func litString(op, srt string) string {
	r, _ := new(big.Rat).SetString(op[1:])
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if srt == sReal {
		if a.IsInt() {
			s = a.Num().String() + ".0"
		} else {
			s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
		}
	} else {
		s = a.Num().String()
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func symb(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.$!@<>-+*/=", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

func printTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch {
	case t.Op == "forall" || t.Op == "exists":
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + symb(v.Op) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Trigs) > 0 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.Args[0], names)
		for _, tr := range t.Trigs {
			sb.WriteString(" :pattern (")
			for i, p := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				printTerm(sb, p, nil)
			}
			sb.WriteString(")")
		}
		if len(t.Trigs) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case strings.HasPrefix(t.Op, "#"):
		sb.WriteString(litString(t.Op, t.Sort))
	case len(t.Args) == 0:
		sb.WriteString(symb(t.Op))
	case t.Op == "constarr":
		sb.WriteString("((as const " + t.Sort + ") ")
		printTerm(sb, t.Args[0], names)
		sb.WriteString(")")
	default:
		op := symb(t.Op)
		if n := nonlinear(t); n != "" {
			nlSeen = true
			if nlUF {
				op = n
			}
		}
		sb.WriteString("(" + op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTerm(sb, a, names)
		}
		sb.WriteString(")")
	}
}

// resetTerms forgets every term and declaration: each function is verified on its own,
// so that its queries depend on nothing else.
func resetTerms() {
	termTab = map[string]*Term{"true|Bool": tTrue, "false|Bool": tFalse}
	termNext = 2
	bvCount = 0
	funcDecls = map[string]*FuncDecl{}
	constDecls = map[string]string{}
	sortDecls = map[string]bool{}
	datatypes = map[string]*Datatype{}
	axioms = nil
	freshCnt = map[string]int{}
	strConsts = map[string]*Term{}
	strConstRev = map[string]string{}
	boxTypes = map[string]types.Type{}
	tagNums = map[string]int{}
	bytesAx = false
}
