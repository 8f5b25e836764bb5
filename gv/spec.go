package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- contract language: lexer

type tok struct {
	kind string // id, num, str, op, eof
	s    string
	line int
	file string
	nl   bool // first token on its line
}

type lexer struct {
	toks []tok
	p    int
}

func lexFile(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	nl := true
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line, file, nl})
			nl = false
			i = j + 1
			continue
		}
		r := rune(c)
		if unicode.IsLetter(r) || c == '_' || c == '$' {
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, file, nl})
			nl = false
			i = j
			continue
		}
		if unicode.IsDigit(r) {
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1]))) {
				j++
			}
			out = append(out, tok{"num", src[i:j], line, file, nl})
			nl = false
			i = j
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o, line, file, nl})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			out = append(out, tok{"op", string(c), line, file, nl})
			i++
		}
		nl = false
	}
	out = append(out, tok{"eof", "", line, file, true})
	return out
}

// ---------- AST

type Expr struct {
	Kind  string // id num str call field index slice un bin forall exists if let old
	Name  string
	Args  []*Expr
	Vars  []SVar
	Trigs [][]*Expr
	Line  int
	File  string
}

type SVar struct {
	Name string
	Type *TypeExpr
}

type TypeExpr struct {
	Name string // int, string, "*", "[]", "map", named
	Args []*TypeExpr
}

func (e *Expr) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(e.File), e.Line) }

type Clause struct {
	Name string
	Tags []string
	E    *Expr
	Src  string
	By   []string // when not nil: the named facts the proof uses (the other named ones with quantifiers are left out)
	Def  bool     // defining: assumed by callers, checked, etc.
}

type ModItem struct {
	Kind string // field elems map typefield typeelems typemap global all
	E    *Expr
	Type *TypeExpr
	Fld  string
	Var  string
	Cond *Expr
	Line int
	File string
}

type LoopSpec struct {
	Invs  []*Clause
	Decr  *Expr
	Mods  []*ModItem
	Hints []*Clause // asserted at the end of the body
	Exits []*Clause
	Over  *Expr // "over e": number of iterations hint (unused)
}

type Hint struct {
	At string // exit, call NAME#k, entry
	C  *Clause
}

type GhostSet struct {
	Target *Expr
	E      *Expr
	At     string
}

// RunSpec: the (trusted) function calls its function value Fn once, with fresh
// arguments Args of which Where holds; its result is $r in the postconditions.
type RunSpec struct {
	Fn    string
	Args  []string
	Where []*Clause
	Many  bool // called any number of times; one arbitrary call is executed
}

type Contract struct {
	Name       string // full go name: pkg.(*T).M
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Mods       []*ModItem
	Loops      map[int]*LoopSpec
	Hints      []*Hint
	Ghosts     []*GhostSet
	Trusted    bool
	Inline     bool
	Pure       *Expr // pure definition of the result
	NoReturn   bool
	PureFn     bool // uninterpreted function of its arguments
	Decr       *Expr
	Uses       []string
	Tags       []string
	Pkg        string
	File       string
	Line       int
	AssumedFor map[string][]string
	FrameOf    map[string][]string
	Step       int // -1: none; verify one iteration of the server loop
	Note       string
	Fatal      string
	Runs       *RunSpec // the function value parameter it calls once
	Locals     map[string]string
	Writes     []string
}

type SFunc struct {
	Name   string
	Params []SVar
	Ret    *TypeExpr
	Body   *Expr
	Pkg    string
	Trigs  [][]*Expr
	Macro  bool
	MPar   []string
	Line   int
	File   string
	Opaque bool
}

type Lemma struct {
	Name     string
	Params   []SVar
	Requires []*Expr
	Ensures  []*Clause
	Induct   string
	From     *Expr
	Trigs    [][]*Expr
	Pkg      string
	Axiom    bool
	File     string
	Line     int
	Tags     []string
	Hints    []*Expr
	Src      string
}

type Guard struct {
	Pkg   string
	Kind  string // field | elems | map
	Type  *TypeExpr
	Field string
	E     *Expr
	Lock  *Expr
	Recv  string
}

type GhostVar struct {
	Name string
	Type *TypeExpr
	Pkg  string
}

type Specs struct {
	GhostVars map[string]*GhostVar
	Contracts map[string]*Contract
	Funcs     map[string]*SFunc
	Lemmas    []*Lemma
	GhostFlds map[string]map[string]*TypeExpr // type -> field -> type
	Guards    []*Guard
	Files     []string
	ObjElems  map[string]bool
	LockOrder []string
	Relies    map[string][]string // property -> properties whose clauses are relied on, not proved
}

type parser struct {
	by []string
	lexer
	pkg   string
	specs *Specs
	alias map[string]string
}

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *parser) fail(msg string) {
	t := p.cur()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", t.file, t.line, msg, t.s))
}
func (p *parser) accept(s string) bool {
	if p.cur().s == s && p.cur().kind != "str" {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	if p.cur().kind != "id" {
		p.fail("expected identifier")
	}
	return p.next().s
}

func (p *parser) mke(kind, name string, args ...*Expr) *Expr {
	t := p.toks[max(0, p.p-1)]
	return &Expr{Kind: kind, Name: name, Args: args, Line: t.line, File: t.file}
}

func (p *parser) typ() *TypeExpr {
	if p.accept("*") {
		return &TypeExpr{Name: "*", Args: []*TypeExpr{p.typ()}}
	}
	if p.accept("[") {
		p.expect("]")
		return &TypeExpr{Name: "[]", Args: []*TypeExpr{p.typ()}}
	}
	if p.cur().s == "map" || p.cur().s == "lmap" {
		n := p.next().s
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Name: n, Args: []*TypeExpr{k, p.typ()}}
	}
	if p.cur().s == "chan" {
		p.next()
		return &TypeExpr{Name: "chan", Args: []*TypeExpr{p.typ()}}
	}
	n := p.ident()
	for p.accept(".") {
		n += "." + p.ident()
	}
	if n == "interface" {
		p.expect("{")
		p.expect("}")
	}
	return &TypeExpr{Name: n}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "*": 7, "/": 7, "%": 7,
}

func (p *parser) expr() *Expr { return p.binary(1) }

func (p *parser) binary(prec int) *Expr {
	l := p.unary()
	for {
		t := p.cur()
		if t.kind != "op" && t.s != "in" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < prec {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.binary(pr) // right assoc
		} else {
			r = p.binary(pr + 1)
		}
		// comparison chains a <= b < c
		if pr == 5 && l.Kind == "bin" && binPrec[l.Name] == 5 && l.Name != "==" && l.Name != "in" && t.s != "in" && l.File == "chain" {
			p.fail("chain")
		}
		l = p.mke("bin", t.s, l, r)
		if pr == 5 {
			// allow chains: a <= b < c
			for {
				t2 := p.cur()
				if t2.kind == "op" && binPrec[t2.s] == 5 {
					p.next()
					r2 := p.binary(6)
					l = p.mke("bin", "&&", l, p.mke("bin", t2.s, r, r2))
					r = r2
					continue
				}
				break
			}
		}
	}
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return p.mke("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mke("un", "-", p.unary())
	}
	t := p.cur()
	if t.s == "forall" || t.s == "exists" || t.s == "mapof" {
		p.next()
		e := p.mke(t.s, "")
		for {
			n := p.ident()
			names := []string{n}
			for p.accept(",") {
				names = append(names, p.ident())
			}
			ty := p.typ()
			for _, n := range names {
				e.Vars = append(e.Vars, SVar{n, ty})
			}
			if !p.accept(";") && !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trigs = append(e.Trigs, tr)
		}
		e.Args = []*Expr{p.expr()}
		return e
	}
	if t.s == "if" {
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return p.mke("if", "", c, a, b)
	}
	if t.s == "let" {
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("::")
		b := p.expr()
		e := p.mke("let", n, v, b)
		return e
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch {
	case t.kind == "num":
		e = p.mke("num", t.s)
	case t.kind == "str":
		e = p.mke("str", t.s)
	case t.s == "(":
		e = p.expr()
		p.expect(")")
	case t.kind == "id":
		if p.cur().s == "(" && !p.cur().nl {
			p.next()
			var args []*Expr
			for !p.accept(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					p.expect(")")
					break
				}
			}
			e = p.mke("call", t.s, args...)
		} else {
			e = p.mke("id", t.s)
		}
	default:
		p.p--
		p.fail("expression expected")
	}
	for {
		if p.cur().s == "." && !p.cur().nl {
			p.next()
			n := p.ident()
			if p.cur().s == "(" && !p.cur().nl {
				p.next()
				args := []*Expr{e}
				for !p.accept(")") {
					args = append(args, p.expr())
					if !p.accept(",") {
						p.expect(")")
						break
					}
				}
				e = p.mke("call", "."+n, args...)
				continue
			}
			e = p.mke("field", n, e)
			continue
		}
		if p.cur().s == "[" && !p.cur().nl {
			p.next()
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = p.mke("slice", "", e, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = p.mke("upd", "", e, i, v)
				continue
			}
			if p.accept(":") {
				if p.accept("]") {
					e = p.mke("slice", "", e, i, nil)
				} else {
					hi := p.expr()
					p.expect("]")
					e = p.mke("slice", "", e, i, hi)
				}
				continue
			}
			p.expect("]")
			e = p.mke("index", "", e, i)
			continue
		}
		return e
	}
}

func (p *parser) tags() (string, []string) {
	if p.cur().s != "[" || p.cur().nl {
		return "", nil
	}
	p.next()
	name := ""
	var tags []string
	first := true
	for !p.accept("]") {
		t := p.next()
		if t.kind != "id" && t.kind != "num" {
			continue
		}
		s := t.s
		if s == "by" && !first {
			p.by = []string{}
			for !p.accept("]") {
				p.by = append(p.by, p.next().s)
			}
			break
		}
		for p.cur().s == "-" {
			p.next()
			s += "-" + p.next().s
		}
		if len(s) >= 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' {
			tags = append(tags, s)
		} else if first {
			name = s
		}
		first = false
	}
	return name, tags
}

func (p *parser) clause() *Clause {
	p.by = nil
	n, tg := p.tags()
	st := p.p
	by := p.by
	e := p.expr()
	c := &Clause{Name: n, Tags: tg, E: e, By: by}
	var ws []string
	for _, t := range p.toks[st:p.p] {
		ws = append(ws, t.s)
	}
	c.Src = strings.Join(ws, " ")
	return c
}

func (p *parser) params() []SVar {
	p.expect("(")
	var out []SVar
	for !p.accept(")") {
		names := []string{p.ident()}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		ty := p.typ()
		for _, n := range names {
			out = append(out, SVar{n, ty})
		}
		if !p.accept(";") && !p.accept(",") {
			p.expect(")")
			break
		}
	}
	return out
}

func (p *parser) modItem() *ModItem {
	m := &ModItem{Line: p.cur().line, File: p.cur().file}
	switch {
	case p.accept("elems"):
		if p.accept("[") { // elems[T] {a: cond}
			m.Kind = "typeelems"
			m.Type = p.typ()
			p.expect("]")
			p.modCond(m)
		} else {
			m.Kind = "elems"
			p.expect("(")
			m.E = p.expr()
			p.expect(")")
		}
	case p.cur().s == "map" && p.toks[p.p+1].s == "(":
		p.next()
		m.Kind = "map"
		p.expect("(")
		m.E = p.expr()
		p.expect(")")
	case p.cur().s == "chan" && p.toks[p.p+1].s == "(":
		p.next()
		m.Kind = "chan"
		p.expect("(")
		m.E = p.expr()
		p.expect(")")
	case p.cur().s == "obj" && p.toks[p.p+1].s == "(":
		p.next()
		m.Kind = "obj"
		p.expect("(")
		m.E = p.expr()
		p.expect(")")
	case p.accept("chans"):
		m.Kind = "chans"
		p.expect("[")
		m.Type = p.typ()
		p.expect("]")
		p.modCond(m)
	case p.accept("calls"):
		m.Kind = "calls"
		m.Fld = p.next().s
	case p.accept("maps"):
		m.Kind = "typemap"
		p.expect("[")
		k := p.typ()
		p.expect(",")
		v := p.typ()
		p.expect("]")
		m.Type = &TypeExpr{Name: "map", Args: []*TypeExpr{k, v}}
		p.modCond(m)
	case p.accept("field"):
		m.Kind = "typefield"
		m.Type = p.typ()
		// typ consumed T.f ; split
		// (pkg.T.f, or pkg.T.f.g with nested structs; T.f without the package)
		parts := strings.Split(m.Type.Name, ".")
		k := min(2, len(parts)-1)
		m.Fld = strings.Join(parts[k:], ".")
		m.Type = &TypeExpr{Name: strings.Join(parts[:k], ".")}
		p.modCond(m)
	case p.accept("global"):
		m.Kind = "global"
		m.Fld = p.ident()
	case p.accept("boxes"):
		m.Kind = "box"
		p.expect("[")
		m.Type = p.typ()
		p.expect("]")
		p.modCond(m)
	default:
		m.Kind = "field"
		m.E = p.postfix()
	}
	return m
}

func (p *parser) modCond(m *ModItem) {
	if p.accept("{") {
		m.Var = p.ident()
		p.expect(":")
		m.Cond = p.expr()
		p.expect("}")
	}
}

func (p *parser) parseFile() {
	for p.cur().kind != "eof" {
		t := p.next()
		switch t.s {
		case "package":
			n := p.ident()
			for p.accept("/") || p.accept(".") {
				n += "/" + p.ident()
			}
			p.pkg = n
		case "transparent":
			transparent[p.next().s] = true
		case "objelem":
			ty := p.typ()
			p.specs.ObjElems[ty.Name] = true
		case "relies":
			// relies C13 on C03: clauses of C03 hold under C13; they are proved under C03
			a := p.ident()
			p.expect("on")
			if p.specs.Relies == nil {
				p.specs.Relies = map[string][]string{}
			}
			for p.cur().kind == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
				p.specs.Relies[a] = append(p.specs.Relies[a], p.next().s)
			}
		case "lockorder":
			for {
				n := p.ident()
				for p.accept(".") {
					n += "." + p.ident()
				}
				p.specs.LockOrder = append(p.specs.LockOrder, n)
				if !p.accept("<") {
					break
				}
			}
		case "ghost":
			// ghost T.f type  |  ghost var $x type
			if p.cur().s == "var" {
				p.next()
				n := p.ident()
				if p.specs.GhostVars[n] != nil {
					p.fail(n + " is declared twice")
				}
				p.specs.GhostVars[n] = &GhostVar{n, p.typ(), p.pkg}
				continue
			}
			ty := p.ident()
			for {
				p.expect(".")
				n := p.ident()
				if p.cur().s == "." {
					ty += "." + n
					continue
				}
				g := p.specs.GhostFlds[ty]
				if g == nil {
					g = map[string]*TypeExpr{}
					p.specs.GhostFlds[ty] = g
				}
				g[n] = p.typ()
				break
			}
		case "macro":
			f := &SFunc{Name: p.ident(), Macro: true, Pkg: p.pkg, Line: t.line, File: t.file}
			p.expect("(")
			for !p.accept(")") {
				f.MPar = append(f.MPar, p.ident())
				p.accept(",")
			}
			p.expect("=")
			f.Body = p.expr()
			p.define(f)
		case "function":
			f := &SFunc{Name: p.ident(), Pkg: p.pkg, Line: t.line, File: t.file}
			f.Params = p.params()
			f.Ret = p.typ()
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				f.Trigs = append(f.Trigs, tr)
			}
			if p.accept("=") {
				f.Body = p.expr()
			}
			p.define(f)
		case "axiom", "lemma":
			l := &Lemma{Name: p.ident(), Axiom: t.s == "axiom", Pkg: p.pkg, Line: t.line, File: t.file}
			if p.cur().s == "(" {
				l.Params = p.params()
			}
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				l.Trigs = append(l.Trigs, tr)
			}
			for {
				if p.accept("requires") {
					l.Requires = append(l.Requires, p.expr())
				} else if p.accept("ensures") {
					l.Ensures = append(l.Ensures, p.clause())
				} else if p.accept("induction") {
					l.Induct = p.ident()
				} else if p.accept("hint") {
					l.Hints = append(l.Hints, p.expr())
				} else {
					break
				}
			}
			p.specs.Lemmas = append(p.specs.Lemmas, l)
		case "guard":
			g := &Guard{Pkg: p.pkg}
			switch p.next().s {
			case "field":
				g.Kind = "field"
				ty := p.typ()
				i := strings.LastIndex(ty.Name, ".")
				_ = i
				g.Field = ty.Name
			case "maps":
				g.Kind = "maps"
				g.Type = p.typ()
			case "elems":
				g.Kind = "elems"
				p.expect("(")
				g.E = p.expr()
				p.expect(")")
			case "map":
				g.Kind = "map"
				p.expect("(")
				g.E = p.expr()
				p.expect(")")
			case "typefield":
				g.Kind = "typefield"
				ty := p.typ()
				g.Field = ty.Name
			default:
				p.fail("guard kind")
			}
			p.expect("by")
			g.Lock = p.expr()
			p.specs.Guards = append(p.specs.Guards, g)
		case "func":
			p.contract()
		default:
			p.p--
			p.fail("declaration expected")
		}
	}
}

// contract name forms:  f   |  T.m  (value or pointer receiver)  | pkgalias.T.m with package prefix in quotes
// define adds a macro or function; names are common to all packages.
func (p *parser) define(f *SFunc) {
	if p.specs.Funcs[f.Name] != nil {
		p.fail(f.Name + " is defined twice")
	}
	p.specs.Funcs[f.Name] = f
}

func (p *parser) contract() {
	c := &Contract{Loops: map[int]*LoopSpec{}, Pkg: p.pkg, Line: p.cur().line, File: p.cur().file, Step: -1}
	name := ""
	if p.cur().kind == "str" {
		name = p.next().s
	} else {
		name = p.ident()
		for p.accept(".") {
			name += "." + p.ident()
		}
		name = p.pkg + "." + name
	}
	c.Name = name
	plist := func() (out []string) {
		p.expect("(")
		for !p.accept(")") {
			out = append(out, p.ident())
			p.accept(",")
		}
		return
	}
	c.Params = plist()
	if p.cur().s == "(" {
		c.Results = plist()
	}
	var loop *LoopSpec
	for {
		t := p.cur()
		switch t.s {
		case "requires":
			p.next()
			c.Requires = append(c.Requires, p.clause())
		case "ensures":
			p.next()
			c.Ensures = append(c.Ensures, p.clause())
		case "modifies":
			p.next()
			for {
				m := p.modItem()
				if loop != nil {
					loop.Mods = append(loop.Mods, m)
				} else {
					c.Mods = append(c.Mods, m)
				}
				if !p.accept(",") {
					break
				}
			}
		case "loop":
			p.next()
			n := 0
			fmt.Sscan(p.next().s, &n)
			loop = &LoopSpec{}
			c.Loops[n] = loop
		case "invariant":
			p.next()
			loop.Invs = append(loop.Invs, p.clause())
		case "decreases":
			p.next()
			if loop != nil {
				loop.Decr = p.expr()
			} else {
				c.Decr = p.expr()
			}
		case "hint":
			p.next()
			// hint at exit: e   | in a loop: asserted at the end of the body
			if loop != nil && p.cur().s != "at" {
				loop.Hints = append(loop.Hints, p.clause())
			} else {
				p.expect("at")
				at := p.ident()
				if at == "call" || at == "aftercall" {
					at += " " + p.ident()
				}
				h := &Hint{At: at}
				h.C = p.clause()
				c.Hints = append(c.Hints, h)
			}
		case "set":
			p.next()
			p.expect("at")
			at := p.ident()
			if at == "call" || at == "aftercall" {
				at += " " + p.ident()
			} else if at == "loop" {
				at += " " + p.next().s
			}
			tgt := p.postfix()
			p.expect(":=")
			c.Ghosts = append(c.Ghosts, &GhostSet{Target: tgt, E: p.expr(), At: at})
		case "trusted":
			p.next()
			c.Trusted = true
			if p.cur().kind == "str" {
				c.Note = p.next().s
			}
		case "assumed":
			// assumed C08 under C06 C07: relied on under C08 as it is verified under C06 and C07
			p.next()
			if c.AssumedFor == nil {
				c.AssumedFor = map[string][]string{}
			}
			ids := func() (out []string) {
				for p.cur().kind == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
					out = append(out, p.next().s)
				}
				return
			}
			for1 := ids()
			p.expect("under")
			from := ids()
			if p.accept("frame") {
				// only the untagged clauses and the frame are relied on
				if c.FrameOf == nil {
					c.FrameOf = map[string][]string{}
				}
				for _, i := range for1 {
					c.FrameOf[i] = from
				}
				from = []string{}
			}
			for _, i := range for1 {
				c.AssumedFor[i] = from
			}
		case "runs", "repeats":
			many := p.next().s == "repeats"
			c.Runs = &RunSpec{Fn: p.ident(), Args: plist(), Many: many}
			for p.accept("where") {
				c.Runs.Where = append(c.Runs.Where, p.clause())
			}
		case "fatal":
			// the function may end the process by log.Fatal, for the reason given
			p.next()
			c.Fatal = p.next().s
		case "inline":
			p.next()
			c.Inline = true
		case "noreturn":
			p.next()
			c.NoReturn = true
		case "purefn":
			p.next()
			c.PureFn = true
		case "pure":
			p.next()
			c.Pure = p.expr()
		case "step":
			p.next()
			fmt.Sscan(p.next().s, &c.Step)
		case "for":
			p.next()
			for p.cur().kind == "id" && len(p.cur().s) == 3 && p.cur().s[0] == 'C' {
				c.Tags = append(c.Tags, p.next().s)
				p.accept(",")
			}
		default:
			if _, dup := p.specs.Contracts[c.Name]; dup {
				panic(fmt.Sprintf("%s:%d: duplicate contract %s", c.File, c.Line, c.Name))
			}
			p.specs.Contracts[c.Name] = c
			return
		}
	}
}

func loadSpecs(dir string) (*Specs, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	sp := &Specs{Contracts: map[string]*Contract{}, Funcs: map[string]*SFunc{}, GhostFlds: map[string]map[string]*TypeExpr{}, GhostVars: map[string]*GhostVar{}, ObjElems: map[string]bool{}}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p := &parser{lexer: lexer{toks: lexFile(f, string(b))}, specs: sp}
		p.parseFile()
		sp.Files = append(sp.Files, f)
	}
	return sp, nil
}
