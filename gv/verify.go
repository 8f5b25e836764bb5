package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	escGlobals map[*ssa.Global]bool
	prog       *ssa.Program
	repo       string
	specs      *Specs
	heaps      map[string]*heapInfo
	initDone   map[string]bool
	initFacts  map[string]*Term
	cellTypes  map[string]types.Type
	sfs        map[string]*sfInfo
	iters      []*Iter
	recorded   map[string][]types.Type
	inlineBase map[string]int
	lockCheck  bool
	pkgs       map[string]*types.Package
	fns        map[string]*ssa.Function
	notes      map[string]bool
	assumes    map[string]map[string]bool // assumption -> functions
	used       map[string]bool
	allUsed    map[string]bool
	lemmaAx    int
	prop       string // property being checked, "" for all
}

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := v.prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(v.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (v *Verifier) note(s string) { v.notes[s] = true }
func (v *Verifier) assume(x *Exec, s string) {
	if v.assumes[s] == nil {
		v.assumes[s] = map[string]bool{}
	}
	v.assumes[s][x.name] = true
}
func (v *Verifier) noteMethods(t types.Type) {}

func (v *Verifier) pkgByRel(p string) *types.Package {
	if q, ok := v.pkgs[p]; ok {
		return q
	}
	return nil
}

func (v *Verifier) typesPkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (v *Verifier) resolveTypeStr(s, pkg string) types.Type {
	p := &parser{lexer: lexer{toks: lexFile("type", s)}}
	return v.resolveType(p.typ(), pkg)
}

func (v *Verifier) objElem(t types.Type) bool {
	if len(v.specs.ObjElems) == 0 {
		return false
	}
	return v.specs.ObjElems[typeName(t)]
}

func (v *Verifier) sigOf(name string) *types.Signature {
	if f := v.fns[name]; f != nil {
		return f.Signature
	}
	return nil
}

func (v *Verifier) chanInv(ct *types.Chan) *SFunc { return v.chanSpec("chaninv_", ct) }

// chanSpec finds what is stated about the values of a channel: chaninv_ is checked at every send and
// assumed at every receive, rcvinv_ is only assumed.
func (v *Verifier) chanSpec(pre string, ct *types.Chan) *SFunc {
	return v.specs.Funcs[pre+strings.ReplaceAll(strings.ReplaceAll(typeName(ct.Elem()), ".", "_"), "/", "_")]
}

// buildDir is where derived files go (never committed).
func buildDir() string {
	if d := os.Getenv("GV_BUILD"); d != "" {
		return d
	}
	return "/verif/build"
}

// goEnv prepares the module file (the repository's own, less the one
// requirement that cannot be resolved offline) and the go environment.
func goEnv(repo string) ([]string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.Contains(l, "github.com/go-vgo/gt/info ") {
			out = append(out, l)
		}
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp("", "gvmod")
	if err != nil {
		return nil, err
	}
	tmpDirs = append(tmpDirs, d)
	os.WriteFile(filepath.Join(d, "riot.mod"), []byte(strings.Join(out, "\n")), 0644)
	os.WriteFile(filepath.Join(d, "riot.sum"), sum, 0644)
	env := append([]string{}, os.Environ()...)
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -modfile="+filepath.Join(d, "riot.mod"), "HOME=/root", "GOMODCACHE=/root/go/pkg/mod"), nil
}

var tmpDirs []string

func cleanup() {
	for _, d := range tmpDirs {
		os.RemoveAll(d)
	}
}

func loadProgram(repo string, extra map[string][]byte, pats []string) (*Verifier, error) {
	ov := map[string][]byte{filepath.Join(repo, "info.go"): []byte("package riot\n")}
	for k, b := range extra {
		ov[k] = b
	}
	env, err := goEnv(repo)
	if err != nil {
		return nil, err
	}
	// the packages of the repository which these depend on, with their bodies
	deps, err := packages.Load(&packages.Config{Dir: repo, Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps | packages.NeedModule, Overlay: ov, Env: env}, pats...)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	var more []string
	packages.Visit(deps, nil, func(p *packages.Package) {
		if p.Module != nil && p.Module.Main && !seen[p.PkgPath] {
			seen[p.PkgPath] = true
			more = append(more, p.PkgPath)
		}
	})
	if len(more) > 0 {
		sort.Strings(more)
		pats = more
	}
	cfg := &packages.Config{Dir: repo, Mode: packages.LoadSyntax | packages.NeedModule, Overlay: ov, Env: env}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug)
	prog.Build()
	v := &Verifier{prog: prog, repo: repo, heaps: map[string]*heapInfo{}, initDone: map[string]bool{}, initFacts: map[string]*Term{},
		cellTypes: map[string]types.Type{}, sfs: map[string]*sfInfo{}, recorded: map[string][]types.Type{}, pkgs: map[string]*types.Package{},
		fns: map[string]*ssa.Function{}, notes: map[string]bool{}, assumes: map[string]map[string]bool{}, used: map[string]bool{}, allUsed: map[string]bool{}, lockCheck: true}
	for _, p := range prog.AllPackages() {
		rel := pkgRel(p.Pkg.Path())
		v.pkgs[rel] = p.Pkg
	}
	for _, p := range prog.AllPackages() {
		if inRepo(p.Pkg) {
			if _, ok := v.pkgs[p.Pkg.Name()]; !ok {
				v.pkgs[p.Pkg.Name()] = p.Pkg
			}
		}
	}
	ext := prog.AllPackages()
	sort.Slice(ext, func(i, j int) bool { return ext[i].Pkg.Path() < ext[j].Pkg.Path() })
	for _, p := range ext {
		if _, ok := v.pkgs[p.Pkg.Name()]; !ok {
			v.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil {
			continue
		}
		v.fns[fnName(fn)] = fn
	}
	// methods not reachable through AllFunctions
	for _, p := range prog.AllPackages() {
		if !inRepo(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				nt, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil {
						v.fns[fnName(f)] = f
					}
				}
			}
		}
	}
	declPrelude()
	return v, nil
}

// isolate prepares the verification of one function (or of the lemmas).
func (v *Verifier) isolate() {
	resetTerms()
	v.heaps = map[string]*heapInfo{}
	v.initDone = map[string]bool{}
	v.initFacts = map[string]*Term{}
	v.cellTypes = map[string]types.Type{}
	v.sfs = map[string]*sfInfo{}
	v.iters = nil
	v.recorded = map[string][]types.Type{}
	v.inlineBase = map[string]int{}
	declPrelude()
}

// lemmas states every lemma of the loaded packages.
func (v *Verifier) lemmas() []*FnResult {
	var out []*FnResult
	for _, l := range v.specs.Lemmas {
		if v.pkgByRel(l.Pkg) != nil {
			out = append(out, v.doLemma(l))
		}
	}
	return out
}

// ---------- function verification

type FnResult struct {
	Name     string
	Contract *Contract
	Ex       *Exec
	Err      string
}

func (v *Verifier) newExec(name string) *Exec {
	x := &Exec{v: v, name: name, proven: map[string]bool{}, callCnt: map[string]int{}, assumed: map[string]bool{}, params: map[string]TV{}, mods: map[string][]modPred{}}
	x.cur = x.newNode(nil, nil)
	x.root = x.cur
	x.st = &State{m: map[string]Value{}}
	x.entry = x.st
	x.entryNx = constT("next@0", sInt)
	x.assume(lt(intLit(0), x.entryNx))
	return x
}

func (v *Verifier) verifyFunc(name string) (res *FnResult) {
	c := v.specs.Contracts[name]
	res = &FnResult{Name: name, Contract: c}
	fn := v.fns[name]
	if fn == nil || len(fn.Blocks) == 0 {
		res.Err = "no such function in the current tree: " + name
		return
	}
	x := v.newExec(name)
	x.fn = fn
	x.con = c
	res.Ex = x
	v.inlineBase = map[string]int{}
	v.iters = nil
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.Err = "unsupported: " + e.msg
			case specErr:
				res.Err = "contract does not fit the code: " + e.msg
			default:
				if os.Getenv("GV_DEBUG") != "" {
					debug.PrintStack()
				}
				res.Err = fmt.Sprint("internal: ", r)
			}
		}
	}()
	f := &Frame{id: 0, fn: fn, regs: map[ssa.Value]Value{}, top: true}
	if len(c.Params) != len(fn.Params) {
		res.Err = fmt.Sprintf("contract does not fit the code: %d parameters, contract has %d", len(fn.Params), len(c.Params))
		return
	}
	for i, p := range fn.Params {
		t := constT(sanitize(c.Params[i])+"@p@"+sanitize(name), sortOf(p.Type()))
		f.regs[p] = t
		x.typeFacts(p.Type(), t)
		x.params[c.Params[i]] = TV{t: t, typ: p.Type()}
	}
	if recvPtr(fn.Signature) {
		x.assume(neq(f.regs[fn.Params[0]].(*Term), intLit(0)))
	}
	x.declareCalls(c)
	env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.st, pkg: c.Pkg, par: x.params}
	for i, r := range c.Requires {
		if !v.active(r) {
			continue
		}
		x.assumeAs(cname(r, i), x.specBool(env, r.E, false))
	}
	x.entry = x.st.clone()
	x.vacuity = append(x.vacuity, &Vac{"preconditions satisfiable", x.cur, x.seq})
	env.st, env.old = x.entry, x.entry
	x.mods = x.compileMods(c, env)
	if fn.Synthetic == "package initializer" {
		// runs before everything else: nobody relies on its frame
		x.mods["*"] = []modPred{func(*Term) *Term { return tTrue }}
	}
	if c.Decr != nil {
		x.decr0 = x.specTerm(env, c.Decr)
	}
	for _, g := range c.Ghosts {
		if g.At == "entry" {
			x.ghostSet(f, g, nil)
		}
	}
	env.st = x.st
	for i, h := range c.Hints {
		if h.At == "entry" && v.active(h.C) {
			x.hint("entry "+cname(h.C, i), h.C, fn.Pos(), env)
		}
	}
	x.runBody(f, 0)
	if c.Step >= 0 && !x.stepped {
		res.Err = fmt.Sprintf("contract does not fit the code: no server loop %d", c.Step)
	}
	return
}

// stepEnd closes one iteration of a server loop: the postconditions hold for the iteration,
// and the next one starts from a state satisfying the preconditions.
func (x *Exec) stepEnd(f *Frame, pos token.Pos) {
	x.stepped = true
	for k, v := range x.stepSt.m {
		if w, ok := x.st.m[k]; ok && strings.HasPrefix(k, "c") && !sameVal(v, w) {
			x.unsup("server loop changes the variable %s declared outside it", k)
		}
	}
	x.atReturn(f, nil, pos)
	env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: x.con.Pkg, par: x.params}
	for i, r := range x.con.Requires {
		if x.v.active(r) {
			x.oblige("step", cname(r, i), r.Tags, pos, r.Src, x.specBool(env, r.E, true))
		}
	}
}

// stepPrelude: the code before the server loop changed memory.
func (x *Exec) stepPrelude() bool {
	for k, v := range x.st.m {
		if strings.HasPrefix(k, "c") {
			continue
		}
		if w, ok := x.entry.m[k]; !ok || !sameVal(v, w) {
			if h, isT := v.(*Term); isT && !ok && h == x.heap(x.entry, k) {
				continue
			}
			return true
		}
	}
	return false
}

// stepRequires assumes the preconditions, which every iteration re-establishes.
func (x *Exec) stepRequires(f *Frame) {
	env := &Env{x: x, vars: map[string]TV{}, st: x.st, old: x.entry, pkg: x.con.Pkg, par: x.params}
	for _, r := range x.con.Requires {
		if x.v.active(r) {
			x.assume(x.specBool(env, r.E, false))
		}
	}
}

// ---------- lemmas

func (v *Verifier) doLemma(l *Lemma) (res *FnResult) {
	name := "lemma " + l.Name
	res = &FnResult{Name: name}
	x := v.newExec(name)
	res.Ex = x
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				res.Err = e.msg
				return
			}
			if os.Getenv("GV_DEBUG") != "" {
				debug.PrintStack()
			}
			res.Err = fmt.Sprint(r)
		}
	}()
	hv := map[string]*Term{}
	var order []string
	env := &Env{x: x, vars: map[string]TV{}, st: &State{m: map[string]Value{}}, pkg: l.Pkg}
	env.hook = func(k string) *Term {
		if h, ok := hv[k]; ok {
			return h
		}
		h := boundVar("H", v.heaps[k].sort)
		hv[k] = h
		order = append(order, k)
		return h
	}
	var ps []*Term
	for _, p := range l.Params {
		t := v.resolveType(p.Type, l.Pkg)
		b := boundVar(p.Name, sortOf(t))
		ps = append(ps, b)
		env.vars[p.Name] = TV{t: b, typ: t}
	}
	ev := func(e *Expr, goal bool) *Term { return x.specBool(env, e, goal) }
	var reqs, enss, hints []*Term
	for _, r := range l.Requires {
		reqs = append(reqs, ev(r, false))
	}
	for _, e := range l.Ensures {
		enss = append(enss, ev(e.E, false))
	}
	var gens []*Term
	for _, e := range l.Ensures {
		gens = append(gens, ev(e.E, true))
	}
	for _, h := range l.Hints {
		hints = append(hints, ev(h, true))
	}
	var trigs [][]*Term
	for _, tr := range l.Trigs {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, env.rv(env.eval(t), t))
		}
		trigs = append(trigs, ts)
	}
	vars := append([]*Term{}, ps...)
	for _, k := range order {
		vars = append(vars, hv[k])
	}
	stmt := implies(and(reqs...), and(enss...))
	if len(trigs) == 0 {
		trigs = inferTrigs(stmt, vars)
	}
	if !l.Axiom {
		m := map[*Term]*Term{}
		for _, b := range vars {
			m[b] = fresh("lem."+l.Name, b.Sort)
		}
		for _, r := range reqs {
			x.assume(subst(r, m))
		}
		if l.Induct != "" {
			iv := env.vars[l.Induct].t
			m2 := map[*Term]*Term{}
			var vs []*Term
			for _, b := range vars {
				nb := boundVar("ih", b.Sort)
				m2[b] = nb
				vs = append(vs, nb)
			}
			ih := implies(and(le(intLit(0), m2[iv]), lt(m2[iv], m[iv])), subst(stmt, m2))
			var ts [][]*Term
			for _, tr := range trigs {
				var t2 []*Term
				for _, t := range tr {
					t2 = append(t2, subst(t, m2))
				}
				ts = append(ts, t2)
			}
			x.assume(implies(le(intLit(0), m[iv]), forall(vs, ih, ts...)))
			// direct instance at n-1 with the same other parameters
			m3 := map[*Term]*Term{}
			for _, b := range vars {
				m3[b] = m[b]
			}
			m3[iv] = sub(m[iv], intLit(1))
			x.assume(implies(lt(intLit(0), m[iv]), subst(stmt, m3)))
		}
		for i, h := range hints {
			x.oblige("lemma", fmt.Sprintf("hint%d", i), nil, token.NoPos, "", subst(h, m))
		}
		for i, g := range gens {
			x.oblige("lemma", cname(l.Ensures[i], i), nil, token.NoPos, l.Ensures[i].Src, subst(g, m))
		}
		for _, o := range x.obls {
			o.Detail = fmt.Sprint(len(axioms))
		}
	}
	syms := map[string]bool{}
	for _, tr := range trigs {
		s := map[string]bool{}
		for _, t := range tr {
			collectSyms(t, s, map[*Term]bool{})
		}
		for k := range s {
			if funcDecls[k] != nil {
				syms[k] = true
			}
		}
	}
	axioms = append(axioms, &Axiom{"lemma " + l.Name, sortedKeys(syms), forall(vars, stmt, trigs...)})
	return
}

func collectSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	out[t.Op] = true
	for _, a := range t.Args {
		collectSyms(a, out, seen)
	}
	for _, tr := range t.Trigs {
		for _, p := range tr {
			collectSyms(p, out, seen)
		}
	}
}

// ---------- obligations of a property

// active reports whether a clause counts for the property being checked: clauses
// tagged for other properties only are neither assumed nor proved.
func (v *Verifier) active(c *Clause) bool {
	if v.prop == "" || len(c.Tags) == 0 || hasTag(c.Tags, v.prop) {
		return true
	}
	for _, p := range v.specs.Relies[v.prop] {
		if hasTag(c.Tags, p) {
			return true
		}
	}
	return false
}

func (c *Contract) inScope(prop string) bool {
	return hasTag(c.Tags, prop)
}

func relevant(o *Obligation, prop string) bool {
	if prop == "C13" {
		// lock discipline only; the other obligations belong to the other properties
		return hasTag(o.Tags, prop)
	}
	if prop == "" || len(o.Tags) == 0 {
		return true
	}
	return hasTag(o.Tags, prop)
}

func (v *Verifier) contractNames(prop string) []string {
	var out []string
	for _, n := range sortedKeys(v.specs.Contracts) {
		c := v.specs.Contracts[n]
		if c.Trusted || c.Inline {
			continue
		}
		if prop == "" || c.inScope(prop) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
