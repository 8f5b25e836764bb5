package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type query struct {
	text string
}

// ancestors of a node
func ancestors(n *Node) map[*Node]bool {
	out := map[*Node]bool{}
	var rec func(*Node)
	rec = func(m *Node) {
		if out[m] {
			return
		}
		out[m] = true
		for _, p := range m.preds {
			rec(p)
		}
	}
	rec(n)
	return out
}

// skolem strips outer universal quantifiers / implications of a goal.
func skolem(goal *Term, hyps *[]*Term) *Term {
	k := 0
	for {
		switch goal.Op {
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range goal.Vars {
				k++
				m[v] = constT(fmt.Sprintf("sk.%s.%d.%s", strings.SplitN(v.Op, "!", 2)[0], k, sanitize(v.Sort)), v.Sort)
			}
			goal = subst(goal.Args[0], m)
		case "=>":
			*hyps = append(*hyps, goal.Args[0])
			goal = goal.Args[1]
		default:
			return goal
		}
	}
}

// factsAt collects what is known at a node before seq.
func factsAt(n *Node, seq int) []*Term { return factsBy(n, seq, nil) }

// factsBy collects the facts at a point; with names, it leaves out the quantified facts of
// clauses that are not among them.
func factsBy(n *Node, seq int, by []string) []*Term {
	use := map[string]bool{}
	for _, b := range by {
		use[b] = true
	}
	anc := ancestors(n)
	var nodes []*Node
	for a := range anc {
		nodes = append(nodes, a)
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].id < nodes[j].id })
	var out []*Term
	for _, a := range nodes {
		dom := a.dominates(n)
		if dom && a.guard.Op != "true" {
			out = append(out, a.guard)
		}
		for _, f := range a.facts {
			if f.seq >= seq {
				continue
			}
			t := f.t
			if by != nil && f.lab != "" && !use[f.lab] && hasQuant(t) {
				continue
			}
			if f.node != nil && !dom {
				t = implies(a.guard, t)
			}
			out = append(out, t)
		}
	}
	return out
}

type builder struct {
	mu sync.Mutex
}

var buildMu sync.Mutex

// buildQuery prints the query; when it has nonlinear operations, a second text with
// them left uninterpreted (a weaker set of hypotheses) follows.
func buildQuery(v *Verifier, facts []*Term, goal *Term, axLimit int) []string {
	buildMu.Lock()
	defer buildMu.Unlock()
	nlSeen = false
	var hyps []*Term
	var g *Term
	if goal != nil {
		g = skolem(goal, &hyps)
		hyps = append(hyps, not(g))
	}
	all := append(append([]*Term{}, facts...), hyps...)
	// simplification: unit guards
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range all {
		collectSyms(t, syms, seen)
	}
	var axs []*Term
	used := map[int]bool{}
	usedInit := map[string]bool{}
	for {
		ch := false
		for i, a := range axioms {
			if used[i] || axLimit >= 0 && i >= axLimit && strings.HasPrefix(a.Name, "lemma ") {
				continue
			}
			ok := true
			for _, s := range a.Syms {
				if !syms[s] {
					ok = false
					break
				}
			}
			if ok {
				used[i] = true
				ch = true
				axs = append(axs, a.T)
				collectSyms(a.T, syms, seen)
			}
		}
		for _, k := range sortedKeys(v.initFacts) {
			if !usedInit[k] && syms[k] {
				usedInit[k] = true
				ch = true
				axs = append(axs, v.initFacts[k])
				collectSyms(v.initFacts[k], syms, seen)
			}
		}
		if !ch {
			break
		}
	}
	all = append(axs, all...)
	one := func(uf bool) string {
		nlUF = uf
		defer func() { nlUF = false }()
		var sb strings.Builder
		// sorts
		for _, s := range sortedKeys(sortDecls) {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", symb(s))
		}
		// datatypes in dependency order
		needDT := map[string]bool{}
		var addDT func(srt string)
		var order []string
		addDT = func(srt string) {
			if d, ok := datatypes[srt]; ok {
				if needDT[srt] {
					return
				}
				needDT[srt] = true
				for _, f := range d.Fields {
					addDT(f.Sort)
				}
				order = append(order, srt)
				return
			}
			if strings.HasPrefix(srt, "(Array ") {
				k, vv := splitArr(srt)
				addDT(k)
				addDT(vv)
			}
		}
		for t := range seen {
			addDT(t.Sort)
		}
		var consts, funs []string
		for s := range syms {
			if _, ok := constDecls[s]; ok {
				consts = append(consts, s)
			} else if _, ok := funcDecls[s]; ok {
				funs = append(funs, s)
			}
		}
		sort.Strings(consts)
		sort.Strings(funs)
		for _, c := range consts {
			addDT(constDecls[c])
		}
		for _, f := range funs {
			for _, a := range funcDecls[f].Args {
				addDT(a)
			}
			addDT(funcDecls[f].Ret)
		}
		sort.Strings(order)
		// dependency order again (sorted names, then stable topological)
		done := map[string]bool{}
		var emit func(s string)
		emit = func(s string) {
			d, ok := datatypes[s]
			if !ok {
				if strings.HasPrefix(s, "(Array ") {
					k, vv := splitArr(s)
					emit(k)
					emit(vv)
				}
				return
			}
			if done[s] {
				return
			}
			done[s] = true
			for _, f := range d.Fields {
				emit(f.Sort)
			}
			fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", symb(s), symb("mk_"+s))
			for _, f := range d.Fields {
				fmt.Fprintf(&sb, " (%s %s)", symb(s+"."+f.Name), f.Sort)
			}
			sb.WriteString("))))\n")
		}
		for _, s := range order {
			emit(s)
		}
		for _, c := range consts {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", symb(c), constDecls[c])
		}
		for _, f := range funs {
			d := funcDecls[f]
			var as []string
			as = append(as, d.Args...)
			fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", symb(f), strings.Join(as, " "), d.Ret)
		}
		if uf {
			sb.WriteString(nlDecls)
		}
		// distinct string constants
		var strs []string
		for _, c := range consts {
			if _, ok := strConstRev[c]; ok {
				strs = append(strs, symb(c))
			}
		}
		if len(strs) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(strs, " "))
		}
		for _, c := range consts {
			if s, ok := strConstRev[c]; ok && syms["gstr.len"] {
				fmt.Fprintf(&sb, "(assert (= (gstr.len %s) %d))\n", symb(c), len(s))
			}
		}
		// shared subterms
		names := shareNames(&sb, all)
		_ = names
		for _, t := range all {
			sb.WriteString("(assert ")
			if n, ok := names[t]; ok {
				sb.WriteString(n)
			} else {
				printTerm(&sb, t, names)
			}
			sb.WriteString(")\n")
		}
		return sb.String()
	}
	out := []string{one(false)}
	if nlSeen {
		out = append(out, one(true))
	}
	return out
}

// shareNames defines big ground subterms used several times.
func shareNames(sb *strings.Builder, all []*Term) map[*Term]string {
	cnt := map[*Term]int{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
		order = append(order, t)
	}
	for _, t := range all {
		rec(t)
	}
	names := map[*Term]string{}
	k := 0
	for _, t := range order {
		if cnt[t] > 1 && t.size > 8 && len(t.bound) == 0 && t.Op != "forall" && t.Op != "exists" {
			k++
			n := fmt.Sprintf("$d%d", k)
			fmt.Fprintf(sb, "(define-fun %s () %s ", n, t.Sort)
			printTerm(sb, t, names)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	return names
}

// ---------- running solvers

type solverRes struct {
	verdict string // unsat sat unknown
	solver  string
	ms      int64
}

var slots = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, texts []string, secs float64) solverRes {
	text := texts[0]
	full := name
	if strings.HasSuffix(name, " uf") {
		text, name = texts[1], name[:len(name)-3]
	}
	r := runSolver1(ctx, name, text, secs)
	r.solver = full
	return r
}

func runSolver1(ctx context.Context, name, text string, secs float64) solverRes {
	var cmd *exec.Cmd
	f, err := os.CreateTemp("", "gv*.smt2")
	if err != nil {
		return solverRes{"unknown", name, 0}
	}
	defer os.Remove(f.Name())
	var pre string
	switch name {
	case "z3-new", "z3":
		pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n"
		if name == "z3" {
			pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"
		}
	case "z3-mbqi":
		pre = ""
	case "cvc5":
		pre = "(set-logic ALL)\n"
		text = constArrays(text)
	}
	f.WriteString(pre + text + "(check-sat)\n")
	f.Close()
	slots <- struct{}{}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return solverRes{"unknown", name, 0}
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs*1000+500)*time.Millisecond)
	defer cancel()
	switch name {
	case "z3-new", "z3-mbqi":
		cmd = exec.CommandContext(c2, "z3-new", fmt.Sprintf("-T:%d", int(secs+0.99)), "memory_max_size=4000", f.Name())
	case "z3":
		cmd = exec.CommandContext(c2, "z3", fmt.Sprintf("-T:%d", int(secs+0.99)), "memory_max_size=4000", f.Name())
	case "cvc5":
		cmd = exec.CommandContext(c2, "cvc5", fmt.Sprintf("--tlimit=%d", int(secs*1000)), f.Name())
	}
	start := time.Now()
	out, _ := cmd.Output()
	ms := time.Since(start).Milliseconds()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return solverRes{l, name, ms}
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, name, l)
				os.WriteFile("/tmp/gv-err.smt2", []byte(pre+text+"(check-sat)\n"), 0644)
			}
			return solverRes{"error " + l, name, ms}
		}
	}
	return solverRes{"unknown", name, ms}
}

func portfolio(texts []string, names []string, secs float64) solverRes {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverRes, len(names))
	for _, n := range names {
		go func(n string) { ch <- runSolver(ctx, n, texts, secs) }(n)
	}
	best := solverRes{"unknown", "", 0}
	var total int64
	for range names {
		r := <-ch
		total += r.ms
		if r.verdict == "unsat" {
			r.ms = total
			return r
		}
		if r.verdict == "sat" || strings.HasPrefix(r.verdict, "error") && best.verdict == "unknown" {
			best = r
		}
	}
	best.ms = total
	return best
}

var cacheDir = os.Getenv("GV_CACHE")

func cacheKey(text string) string {
	return fmt.Sprintf("%x", sha256.Sum256([]byte(text)))
}

type Budget struct {
	Quick, Slow float64
	Deadline    time.Time
}

// splitGoal distributes universal quantifiers and implications over conjunctions and
// splits equivalences into their two directions.
func splitGoal(g *Term) []*Term {
	var out []*Term
	switch g.Op {
	case "and":
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
	case "forall":
		ps := splitGoal(g.Args[0])
		if len(ps) == 1 {
			return []*Term{g}
		}
		for _, p := range ps {
			out = append(out, quant("forall", g.Vars, p, nil))
		}
	case "=>":
		ps := splitGoal(g.Args[1])
		if len(ps) == 1 {
			return []*Term{g}
		}
		for _, p := range ps {
			out = append(out, implies(g.Args[0], p))
		}
	case "=":
		if len(g.Args) == 2 && g.Args[0].Sort == sBool && (hasQuant(g.Args[0]) || hasQuant(g.Args[1])) {
			return append(splitGoal(implies(g.Args[0], g.Args[1])), splitGoal(implies(g.Args[1], g.Args[0]))...)
		}
		return []*Term{g}
	default:
		return []*Term{g}
	}
	if len(out) > 12 {
		return []*Term{g}
	}
	return out
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (v *Verifier) solveObl(o *Obligation, b Budget) {
	start := time.Now()
	defer func() { o.Ms = time.Since(start).Milliseconds() }()
	if len(o.parts) > 1 {
		// first the whole, briefly
		q := b
		q.Slow = 0
		if v.solveGoal(o, o.parts[0], o.texts[0], q) {
			return
		}
		for i, g := range o.parts[1:] {
			if !v.solveGoal(o, g, o.texts[i+1], b) {
				return
			}
		}
		return
	}
	v.solveGoal(o, o.parts[0], o.texts[0], b)
}

// prepare splits the goal and prints its queries.
func (v *Verifier) prepare(o *Obligation) {
	if o.parts != nil {
		return
	}
	buildMu.Lock()
	parts := splitGoal(o.Goal)
	buildMu.Unlock()
	o.parts = []*Term{o.Goal}
	if len(parts) > 1 {
		o.parts = append(o.parts, parts...)
	}
	o.axLimit = -1
	if o.Kind == "lemma" {
		fmt.Sscan(o.Detail, &o.axLimit)
	}
	facts := factsBy(o.Node, o.Seq, o.By)
	for _, g := range o.parts {
		o.texts = append(o.texts, buildQuery(v, facts, g, o.axLimit))
	}
}

func (v *Verifier) solveGoal(o *Obligation, goal *Term, text []string, b Budget) bool {
	o.Result, o.Solver = v.solveText(text, b)
	if o.Result != "unsat" && b.Slow > 0 && len(o.Node.preds) > 0 && (b.Deadline.IsZero() || time.Now().Before(b.Deadline)) {
		// split on the nearest join
		if r, s := v.splitSolve(o, goal, factsBy(o.Node, o.Seq, o.By), o.axLimit, b); r == "unsat" {
			o.Result, o.Solver = r, s
		}
	}
	return o.Result == "unsat"
}

func (v *Verifier) solveText(texts []string, b Budget) (string, string) {
	text := texts[0]
	var ck string
	if cacheDir != "" {
		ck = filepath.Join(cacheDir, cacheKey(text))
		if d, err := os.ReadFile(ck); err == nil {
			return "unsat", string(bytes.TrimSpace(d))
		}
	}
	names := []string{"z3-mbqi", "z3-new", "z3", "cvc5"}
	if len(texts) > 1 {
		names = []string{"z3-new", "z3-mbqi uf", "z3-mbqi", "z3-new uf", "z3", "cvc5 uf"}
	}
	r := portfolio(texts, names[:len(texts)], b.Quick)
	if r.verdict != "unsat" && b.Slow > 0 && (b.Deadline.IsZero() || time.Now().Before(b.Deadline)) {
		r = portfolio(texts, names, b.Slow)
	}
	if r.verdict == "unsat" && ck != "" {
		os.WriteFile(ck, []byte(r.solver), 0644)
	}
	return r.verdict, r.solver
}

// splitSolve proves the goal separately for every way of reaching the nearest join points.
func (v *Verifier) splitSolve(o *Obligation, goal *Term, facts []*Term, axLimit int, b Budget) (string, string) {
	n := o.Node
	depth := 0
	cases := [][]*Term{nil}
	for n != nil && depth < 2 {
		if len(n.edges) > 1 {
			var nc [][]*Term
			for _, c := range cases {
				for i, e := range n.edges {
					_ = i
					nc = append(nc, append(append([]*Term{}, c...), e))
				}
			}
			if len(nc) > 16 {
				break
			}
			cases = nc
			depth++
		}
		if len(n.preds) == 0 {
			break
		}
		n = n.idom
	}
	if depth == 0 {
		return "unknown", ""
	}
	solver := ""
	for _, c := range cases {
		if !b.Deadline.IsZero() && time.Now().After(b.Deadline) {
			return "unknown", ""
		}
		text := buildQuery(v, append(append([]*Term{}, facts...), c...), goal, axLimit)
		r, s := v.solveText(text, b)
		if r != "unsat" {
			return r, s
		}
		solver = s
	}
	return "unsat", solver + "+split"
}

func (v *Verifier) solveAll(obls []*Obligation, b Budget) {
	var wg sync.WaitGroup
	work := make(chan *Obligation)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range work {
				v.solveObl(o, b)
			}
		}()
	}
	for _, o := range obls {
		// main texts are built in order, so that they do not depend on scheduling
		v.prepare(o)
		work <- o
	}
	close(work)
	wg.Wait()
}

// vacuous reports whether the facts at a point are contradictory.
func (v *Verifier) vacuous(vc *Vac) bool {
	text := buildQuery(v, factsAt(vc.Node, vc.Seq+1), nil, -1)
	if cacheDir != "" {
		ck := filepath.Join(cacheDir, "vac"+cacheKey(text[0]))
		if _, err := os.ReadFile(ck); err == nil {
			return false
		}
		r := portfolio(text, []string{"z3-new"}, 1)
		if r.verdict != "unsat" {
			os.WriteFile(ck, nil, 0644)
		}
		return r.verdict == "unsat"
	}
	r := portfolio(text, []string{"z3-new"}, 1)
	return r.verdict == "unsat"
}

// constArrays rewrites constant arrays over symbolic values, which cvc5 does not take, to defined constants.
func constArrays(text string) string {
	const mark = "((as const "
	if !strings.Contains(text, mark) {
		return text
	}
	balanced := func(s string) int { // length of the first s-expression
		d := 0
		bar := false
		for i := 0; i < len(s); i++ {
			switch c := s[i]; {
			case c == '|':
				bar = !bar
			case bar:
			case c == '(':
				d++
			case c == ')':
				d--
				if d < 0 {
					return i
				}
				if d == 0 {
					return i + 1
				}
			case (c == ' ' || c == '\n') && d == 0:
				return i
			}
		}
		return len(s)
	}
	var out, decls strings.Builder
	names := map[string]string{}
	first := -1
	for {
		i := strings.Index(text, mark)
		if i < 0 {
			break
		}
		rest := text[i+len(mark):]
		n := balanced(rest)
		srt := rest[:n]
		rest = rest[n+2:] // ") "
		m := balanced(rest)
		def := rest[:m]
		rest = rest[m+1:]
		out.WriteString(text[:i])
		lit := def == "true" || def == "false" || def[0] >= '0' && def[0] <= '9' || strings.HasPrefix(def, "(- ") && !strings.ContainsAny(def, "|$") && balanced(def[3:]) == len(def)-4
		if lit || strings.Contains(def, "$d") {
			out.WriteString(mark + srt + ") " + def + ")")
		} else {
			nm, ok := names[srt+def]
			if !ok {
				nm = fmt.Sprintf("ca.%d", len(names))
				names[srt+def] = nm
				ks, _ := splitArr(srt)
				fmt.Fprintf(&decls, "(declare-const %s %s)\n(assert (forall ((k %s)) (! (= (select %s k) %s) :pattern ((select %s k)))))\n", nm, srt, ks, nm, def, nm)
			}
			out.WriteString(nm)
		}
		text = rest
	}
	out.WriteString(text)
	res := out.String()
	for _, m := range []string{"\n(assert ", "\n(define-fun "} {
		if i := strings.Index(res, m); i >= 0 && (first < 0 || i < first) {
			first = i
		}
	}
	if first < 0 {
		return res
	}
	return res[:first+1] + decls.String() + res[first+1:]
}
