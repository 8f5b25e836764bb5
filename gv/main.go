package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

var allPkgs = []string{"."}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gv dump|verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "verify":
		verifyCmd(os.Args[2:])
	case "harness": // harness PROP SECS: the replay harness alone
		secs, _ := strconv.ParseFloat(os.Args[3], 64)
		d, _ := os.MkdirTemp("", "gvh")
		tmpDirs = append(tmpDirs, d)
		repo, verif := "/repo", "/verif"
		if s := os.Getenv("GV_REPO"); s != "" {
			repo = s
		}
		if s := os.Getenv("GV_VERIF"); s != "" {
			verif = s
		}
		finds, _ := readFindings(filepath.Join(verif, "known-findings.txt"))
		var known []string
		for _, f := range finds {
			if f.Kind == "known" && f.Prop == os.Args[2] {
				known = append(known, f.Key)
			}
		}
		h := runHarness(repo, verif, os.Args[2], secs, 1, known, d)
		fmt.Printf("cases %d notes %v known %v failure:\n%s\n", h.cases, h.notes, h.known, h.failure)
		cleanup()
		if h.failure != "" {
			os.Exit(1)
		}
	case "check":
		c := checkCmd(os.Args[2:])
		cleanup()
		os.Exit(c)
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func dump(args []string) {
	v, err := loadProgram("/repo", nil, args[:1])
	if err != nil {
		panic(err)
	}
	for _, n := range sortedKeys(v.fns) {
		for _, w := range args[1:] {
			if strings.HasSuffix(n, w) {
				fmt.Println("==", n)
				v.fns[n].WriteTo(os.Stdout)
			}
		}
	}
}

func verifyCmd(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	pats := fs.String("pkgs", "./...", "")
	match := fs.String("f", "", "function suffix")
	prop := fs.String("p", "", "property")
	quick := fs.Float64("q", 2, "")
	slow := fs.Float64("s", 10, "")
	verbose := fs.Bool("v", false, "")
	save := fs.String("save", "", "save failing queries in dir")
	fs.Parse(args)
	t0 := time.Now()
	specs, err := loadSpecs(*dir)
	if err != nil {
		panic(err)
	}
	v, err := loadProgram(*repo, nil, strings.Split(*pats, ","))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	v.specs = specs
	v.prop = *prop
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	bad := 0
	b := Budget{Quick: *quick, Slow: *slow}
	show := func(n string) {
		for _, r := range v.runUnit(n, b) {
			if r.Err != "" {
				fmt.Printf("ERROR %s: %s\n", r.Name, r.Err)
				bad++
			}
			ok := 0
			for _, o := range r.Obls {
				if o.Result == "unsat" {
					ok++
					if *verbose && o.Ms > 1500 {
						fmt.Printf("   slow %s/%s %s %dms %s\n", o.Kind, o.Name, o.Pos, o.Ms, o.Solver)
					}
					continue
				}
				bad++
				fmt.Printf("FAIL %s: %s/%s at %s [%s %s %dms] %s\n", o.Fn, o.Kind, o.Name, o.Pos, o.Result, o.Solver, o.Ms, o.Src)
				if *save != "" {
					os.MkdirAll(*save, 0755)
					fn := fmt.Sprintf("%s/%s-%d.smt2", *save, sanitize(o.Fn+"-"+o.Kind), o.Seq)
					os.WriteFile(fn, []byte("; "+o.Name+" "+o.Src+"\n"+o.texts[0][0]+"(check-sat)\n"), 0644)
					fmt.Println("     saved", fn)
				}
			}
			for _, c := range r.Vacuous {
				bad++
				fmt.Printf("VACUOUS %s: %s\n", r.Name, c)
			}
			fmt.Printf("%-50s %d/%d  %dms\n", r.Name, ok, len(r.Obls), r.Ms)
		}
	}
	if *match == "" || strings.HasPrefix(*match, "lemma") {
		show("lemmas")
	}
	v.units(*prop, *match, show)
	fmt.Printf("total %v, bad %d\n", time.Since(t0).Round(time.Millisecond), bad)
	cleanup()
	if bad > 0 {
		os.Exit(1)
	}
}
