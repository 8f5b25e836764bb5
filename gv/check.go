package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// FnReport is the outcome of one verified function (or of the lemmas).
type FnReport struct {
	Name    string
	Err     string
	Obls    []*Obligation
	Failed  []*Obligation
	Vacuous []string
	Ms      int64
}

func (r *FnReport) ok() bool { return r.Err == "" && len(r.Failed) == 0 && len(r.Vacuous) == 0 }

// runUnit verifies one function, or all lemmas when name is "lemmas".
func (v *Verifier) runUnit(name string, b Budget) (reps []*FnReport) {
	t := time.Now()
	v.isolate()
	lem := v.lemmas()
	var res []*FnResult
	if name == "lemmas" {
		res = lem
	} else {
		for _, l := range lem {
			if l.Err != "" {
				return []*FnReport{{Name: l.Name, Err: l.Err}}
			}
		}
		res = []*FnResult{v.verifyFunc(name)}
	}
	for _, r := range res {
		rep := &FnReport{Name: r.Name, Err: r.Err}
		reps = append(reps, rep)
		if r.Ex == nil {
			continue
		}
		for _, o := range r.Ex.obls {
			if relevant(o, v.prop) {
				rep.Obls = append(rep.Obls, o)
			}
		}
		v.solveAll(rep.Obls, b)
		sort.Slice(rep.Obls, func(i, j int) bool { return rep.Obls[i].Seq < rep.Obls[j].Seq })
		for _, o := range rep.Obls {
			if o.Result != "unsat" {
				rep.Failed = append(rep.Failed, o)
			}
		}
		for _, vc := range r.Ex.vacuity {
			if v.vacuous(vc) {
				rep.Vacuous = append(rep.Vacuous, vc.Name)
			}
		}
		rep.Ms = time.Since(t).Milliseconds()
	}
	return
}

// units lists the functions under contract that a property needs: those in its scope and,
// transitively, every contract they rely on.
func (v *Verifier) units(prop, match string, run func(name string)) {
	done := map[string]bool{}
	todo := v.contractNames(prop)
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if done[n] {
			continue
		}
		done[n] = true
		c := v.specs.Contracts[n]
		if c == nil || c.AssumedFor[prop] != nil || c.Trusted || c.Inline || v.pkgByRel(c.Pkg) == nil {
			continue
		}
		if match != "" && !strings.HasSuffix(n, match) {
			continue
		}
		v.used = map[string]bool{}
		run(n)
		todo = append(todo, sortedKeys(v.used)...)
	}
}

// pkgsOf lists the packages holding the contracts of a property.
func (s *Specs) pkgsOf(prop string) []string {
	m := map[string]bool{}
	for _, c := range s.Contracts {
		if c.inScope(prop) && !c.Trusted {
			p := c.Pkg
			if p == "riot" || p == "" || p == "." {
				m["."] = true
			} else {
				m["./"+p] = true
			}
		}
	}
	return sortedKeys(m)
}

// ---------- replay harness

type harnessResult struct {
	ran     []string // harness files run
	notes   []string
	failure string // description of the failing input
	file    string
	cases   int64
	known   []string
	secs    float64
}

var casesRe = regexp.MustCompile(`(?m)^GV-CASES (\d+)`)
var knownRe = regexp.MustCompile(`(?m)^GV-KNOWN (\S+) (.*)$`)

// runHarness runs the executable oracle of the property on the real code, in-package,
// through go test -overlay.
func runHarness(repo, verif, prop string, secs float64, seed int, known []string, outDir string) *harnessResult {
	h := &harnessResult{}
	t0 := time.Now()
	defer func() { h.secs = time.Since(t0).Seconds() }()
	files, _ := filepath.Glob(filepath.Join(verif, "harness", prop, "*_test.go"))
	sort.Strings(files)
	if len(files) == 0 {
		return h
	}
	byPkg := map[string][]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		first, _, _ := strings.Cut(string(b), "\n")
		pkg := strings.TrimSpace(strings.TrimPrefix(first, "// gv:pkg"))
		byPkg[pkg] = append(byPkg[pkg], f)
	}
	env, err := goEnv(repo)
	if err != nil {
		h.notes = append(h.notes, err.Error())
		return h
	}
	pkgs := sortedKeys(byPkg)
	for _, pkg := range pkgs {
		fs := byPkg[pkg]
		ov := map[string]map[string]string{"Replace": {}}
		ov["Replace"][filepath.Join(repo, "info.go")] = filepath.Join(verif, "harness", "info.go.txt")
		// the tests of the repository itself stay out of the way
		old, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
		for _, o := range old {
			ov["Replace"][o] = ""
		}
		for _, f := range fs {
			ov["Replace"][filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f))] = f
		}
		common, _ := filepath.Glob(filepath.Join(verif, "harness", "common", "*.go"))
		base := filepath.Base(pkg)
		if pkg == "." {
			base = "riot"
		}
		own, _ := filepath.Glob(filepath.Join(verif, "harness", "common-"+base, "*.go"))
		common = append(common, own...)
		for _, f := range common {
			b, _ := os.ReadFile(f)
			name := "riot"
			if pkg != "." {
				name = filepath.Base(pkg)
			}
			if fb, err := os.ReadFile(fs[0]); err == nil {
				if m := regexp.MustCompile(`(?m)^package (\S+)`).FindSubmatch(fb); m != nil {
					name = string(m[1])
				}
			}
			g := filepath.Join(outDir, "common_"+sanitize(pkg)+"_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
			os.WriteFile(g, bytes.Replace(b, []byte("package common"), []byte("package "+name), 1), 0644)
			ov["Replace"][filepath.Join(repo, pkg, "zz_verif_common_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = g
		}
		oj, _ := json.Marshal(ov)
		of := filepath.Join(outDir, "overlay.json")
		os.WriteFile(of, oj, 0644)
		out := filepath.Join(outDir, "input.txt")
		cur := filepath.Join(outDir, "current.txt")
		os.Remove(out)
		os.Remove(cur)
		bin := filepath.Join(outDir, "h.test")
		target := "./" + pkg
		tests, race := 0, false
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			tests += bytes.Count(b, []byte("func TestVerif"+prop))
			race = race || bytes.Contains(b, []byte("// gv:race"))
		}
		tags := []string{"-vet=off"}
		if race {
			tags = append(tags, "-race")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		build := exec.CommandContext(ctx, "go", append(append([]string{"test", "-c", "-o", bin, "-overlay", of}, tags[1:]...), target)...)
		build.Dir = repo
		build.Env = env
		bo, err := build.CombinedOutput()
		cancel()
		if err != nil {
			h.notes = append(h.notes, fmt.Sprintf("harness of %s did not build: %s", pkg, tail(string(bo), 600)))
			continue
		}
		work := filepath.Join(outDir, "work")
		os.MkdirAll(work, 0755)
		each := secs / float64(len(pkgs))
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration((each+60)*float64(time.Second)))
		run := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif"+prop, "-test.timeout", fmt.Sprintf("%ds", int(each)+45))
		run.Dir = work
		run.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		run.Cancel = func() error { return syscall.Kill(-run.Process.Pid, syscall.SIGKILL) }
		run.Env = append(append([]string{}, env...), "GV_SEED="+strconv.Itoa(seed), fmt.Sprintf("GV_SECS=%g", each/float64(max(tests, 1))), "GV_OUT="+out, "GORACE=halt_on_error=1", "GV_CUR="+cur, "TMPDIR="+work, "GV_KNOWN="+strings.Join(known, ","))
		ro, err := run.CombinedOutput()
		cancel()
		for _, f := range fs {
			h.ran = append(h.ran, filepath.Base(f)+" on "+pkg)
		}
		for _, m := range casesRe.FindAllStringSubmatch(string(ro), -1) {
			n, _ := strconv.ParseInt(m[1], 10, 64)
			h.cases += n
		}
		for _, m := range knownRe.FindAllStringSubmatch(string(ro), -1) {
			h.known = append(h.known, m[1]+" "+m[2])
		}
		if b, e := os.ReadFile(out); e == nil && len(b) > 0 {
			h.failure = string(b)
		} else if err != nil {
			c, _ := os.ReadFile(cur)
			txt := string(ro)
			if len(c) > 0 && (strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") || strings.Contains(txt, "WARNING: DATA RACE") || strings.Contains(txt, "GV-FATAL")) {
				h.failure = "the program under test died on:\n" + string(c) + "\n" + tail(txt, 3000)
			} else {
				h.notes = append(h.notes, fmt.Sprintf("harness of %s ended without a verdict: %v: %s", pkg, err, tail(txt, 600)))
			}
		}
		if h.failure != "" {
			h.file = strings.Join(fs, " ")
			return h
		}
	}
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------- known findings

type finding struct {
	Kind string // known or fixed
	Prop string
	Key  string
	Text string
}

func readFindings(file string) ([]finding, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		k, rest, ok := strings.Cut(l, ": property=")
		if !ok {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		out = append(out, finding{k, f[0], f[1], f[2]})
	}
	return out, nil
}

// ---------- check

func checkCmd(args []string) (code int) {
	prop := args[0]
	verif, repo := "/verif", "/repo"
	if d := os.Getenv("GV_VERIF"); d != "" {
		verif = d
	}
	if d := os.Getenv("GV_REPO"); d != "" {
		repo = d
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0755)
	replay := filepath.Join(evDir, prop+".replay.txt")
	os.Remove(replay)
	outDir, err := os.MkdirTemp("", "gvcheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmpDirs = append(tmpDirs, outDir)

	finds, err := readFindings(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var known []string
	for _, f := range finds {
		if f.Kind == "known" && f.Prop == prop {
			known = append(known, f.Key)
		}
	}

	secs, quick, slow, limit := 12.0, 3.0, 40.0, 520*time.Second
	if tier == "thorough" {
		secs, quick, slow, limit = 120, 10, 150, 3*time.Hour
	}
	h := runHarness(repo, verif, prop, secs, seed, known, outDir)
	if h.failure != "" {
		// a failing input is in hand; the proof only has to name what it breaks
		quick, slow, limit = 2, 4, 150*time.Second
	}

	var reps []*FnReport
	var fatal string
	specs, err := loadSpecs(filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v, err := loadProgram(repo, nil, specs.pkgsOf(prop))
	if err != nil {
		fatal = "the working tree does not load: " + err.Error()
	} else {
		v.specs = specs
		v.prop = prop
		b := Budget{Quick: quick, Slow: slow, Deadline: time.Now().Add(limit)}
		fails := 0
		add := func(n string) {
			bb := b
			if fails > 4 && tier == "quick" {
				// enough to report; the rest gets a short look
				bb.Slow = 5
			}
			rs := v.runUnit(n, bb)
			for _, r := range rs {
				fails += len(r.Failed)
				if r.Err != "" {
					fails++
				}
			}
			reps = append(reps, rs...)
		}
		add("lemmas")
		v.units(prop, "", add)
	}

	var total, done int
	backs := map[string]int{}
	var solverMs int64
	var fnames []string
	var bad []string
	kinds := map[string]int{}
	for _, r := range reps {
		if r.Err != "" {
			bad = append(bad, r.Name+": "+r.Err)
		}
		if !strings.HasPrefix(r.Name, "lemma ") {
			fnames = append(fnames, r.Name)
		}
		for _, o := range r.Obls {
			total++
			kinds[o.Kind]++
			solverMs += o.Ms
			if o.Result == "unsat" {
				done++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				backs[s]++
			} else {
				bad = append(bad, fmt.Sprintf("%s: %s/%s at %s: %s", o.Fn, o.Kind, o.Name, o.Pos, o.Src))
			}
		}
		for _, c := range r.Vacuous {
			bad = append(bad, r.Name+": contradictory facts: "+c)
		}
	}
	if fatal != "" {
		bad = append(bad, fatal)
	}
	if total == 0 && fatal == "" {
		bad = append(bad, "no obligation generated")
	}
	if len(bad) > 0 && h.failure == "" && fatal == "" {
		// search harder for a failing input
		n := &harnessResult{}
		more := 90.0
		if left := 760*time.Second - time.Since(t0); tier == "quick" && left.Seconds() < more+70 {
			more = left.Seconds() - 70
		}
		if more > 5 {
			n = runHarness(repo, verif, prop, more, seed+7919, known, outDir)
			n.cases += h.cases
			n.known = append(h.known, n.known...)
			h = n
		}
	}

	violations := 0
	if h.failure != "" || len(bad) > 0 {
		violations = 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n", prop)
		if h.failure != "" {
			fmt.Fprintf(&sb, "\nfailing input on the real code (harness %s, VERIF_SEED=%d):\n%s\n", h.file, seed, h.failure)
		} else {
			fmt.Fprintf(&sb, "\nno failing input found by the replay harness (%d cases)\n", h.cases)
		}
		fmt.Fprintf(&sb, "\nobligations not discharged (%d of %d):\n", len(bad), total)
		for _, s := range bad {
			fmt.Fprintf(&sb, "  %s\n", s)
		}
		nq := 0
		for _, r := range reps {
			for _, o := range r.Failed {
				if nq < 2 && len(o.texts) > 0 {
					nq++
					fmt.Fprintf(&sb, "\nverifier output for %s %s/%s: %s (%s)\nquery:\n%s(check-sat)\n", o.Fn, o.Kind, o.Name, o.Result, o.Solver, tail(o.texts[0][0], 20000))
				}
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
	}

	var assumptions []string
	trusted := []string{
		"gv (/verif/gv): verification condition generator for Go SSA, written for this task; golang.org/x/tools go/ssa and go/packages; the Go compiler",
		"SMT back ends z3 4.8.12, z3 5.3.2, cvc5 1.1.2 (one answering unsat discharges an obligation)",
		"float64 arithmetic is treated as real arithmetic; integers are 64-bit machine integers with overflow obligations; strings are abstract values with an injective order embedding",
	}
	if v != nil {
		for _, a := range sortedKeys(v.assumes) {
			fs := sortedKeys(v.assumes[a])
			assumptions = append(assumptions, a+" [in "+strings.Join(fs, ", ")+"]")
		}
		assumptions = append(assumptions, sortedKeys(v.notes)...)
		for _, p := range specs.Relies[prop] {
			assumptions = append(assumptions, "clauses tagged "+p+" are relied on here; they are proved by the check of "+p)
		}
		for _, f := range fnames {
			c := specs.Contracts[f]
			if c == nil {
				continue
			}
			for _, r := range c.Requires {
				if v.active(r) && r.Src != "" {
					assumptions = append(assumptions, "precondition of "+f+": "+r.Src)
				}
			}
		}
		for _, n := range sortedKeys(v.allUsed) {
			if c := specs.Contracts[n]; c != nil && c.Trusted {
				trusted = append(trusted, "assumed contract of "+n+": "+c.Note)
			}
		}
	}
	cov := map[string]any{
		"obligations": total, "discharged": done,
		"checker_cmd":         "/verif/build/gv check " + prop,
		"trusted_base":        trusted,
		"functions":           fnames,
		"obligation_kinds":    kinds,
		"back_ends":           backs,
		"solver_time_s":       float64(solverMs) / 1000,
		"bounded_replay":      map[string]any{"note": "bounded, not counted as proved: the executable oracle of the property run on the real code", "harness": h.ran, "cases": h.cases, "secs": h.secs, "notes": h.notes},
		"undischarged":        bad,
		"known_findings_seen": h.known,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0644); err != nil {
		fmt.Println(err)
		return 2
	}

	fmt.Printf("%s: %d/%d obligations discharged in %d functions, harness %d cases, %.1fs\n", prop, done, total, len(fnames), h.cases, time.Since(t0).Seconds())
	for _, n := range h.notes {
		fmt.Println("note:", strings.ReplaceAll(n, "\n", " | "))
	}
	for _, f := range finds {
		if f.Kind == "known" && f.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, f.Key, f.Text)
		}
	}
	for _, s := range bad {
		fmt.Println("failed:", s)
	}
	if violations == 0 {
		return 0
	}
	if h.failure != "" {
		fmt.Println(tail(h.failure, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	return 1
}
