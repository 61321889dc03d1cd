package main

// Contract language: lexer, parser, AST.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type tok struct {
	k    string // id, int, str, op, eof, char
	s    string
	line int
}

func lex(file, src string) []tok {
	var ts []tok
	i, line := 0, 1
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", ":=", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isIdStart(c):
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
		case c == '\'' && i+2 < len(src) && src[i+2] == '\'':
			ts = append(ts, tok{"int", strconv.Itoa(int(src[i+1])), line})
			i += 3
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			ts = append(ts, tok{"str", s, line})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts
}

func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

type Expr struct {
	Op   string // id,int,str,call,sel,index,slice,unary,binary,forall,exists,old,cond,conv,assert
	Name string
	Args []*Expr
	Vars []Param
	Trig [][]*Expr
	V    *big.Int
	Type string
	Loc  string
	Text string
}

type Param struct {
	Name string
	Type string
}

type Clause struct {
	E    *Expr
	Name string
	Loc  string
	Prop []string
}

type LoopSpec struct {
	Ord    int
	Inv    []Clause
	Use    []Clause
	Entry  []Clause // lemma instances at the loop head
	Decr   *Clause
	Unroll int
	Auto   bool
	Mods   []*Expr
	NoFr   bool
}

type Contract struct {
	Kind     string // func, extern, iface, lemma
	Target   string // resolved key
	Params   []string
	PTypes   []string
	Results  []string
	Req      []Clause
	Ens      []Clause
	Mod      []*Expr
	ModAll   bool
	Props    []string
	Apart    []string
	Aside    bool
	Pure     bool
	NilOK    map[string]bool
	Loops    map[int]*LoopSpec
	Use      []Clause
	Entry    []Clause // lemma instances assumed at function entry
	Inline   bool     // contract is verified but calls are still inlined
	Trusted  bool     // body not verified (assumption)
	NoVerify bool
	Loc      string
	Pkg      string
	Induct   string
	Trig     [][]*Expr
	Lets     []Let
	Timeout  int
	Unfold   *int
	Opaque   map[string]bool
	AllowPan bool
	NoAlloc  bool
	Decr     *Clause
	Ghost    []Let
	Like     *Contract
	RetSpec  []Clause
	Bounded  string
	MustPan  bool
	Optional bool
	KeepArr  bool
	Checks   []*Check
	Hints    []*Check
	Caps     []*Capture
	Callback []Clause
}

// Check: an obligation at every call of Callee made while the function is verified.
// Capture names a result of the latest call of a function.
type Capture struct {
	Name, Callee, Res string
	Loc               string
}

type Check struct {
	Callee string
	Clause
}

type Let struct {
	Name string
	E    *Expr
}

type LogicFn struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Expr
	Rec    bool
	Depth  int
	Pkg    string
	Loc    string
	// resolved
	heapKeys []string
	def      *recDef
}

type Axiom struct {
	Name string
	E    *Expr
	Loc  string
	Pkg  string
}

type GhostDecl struct {
	Name   string
	Params []Param
	Ret    string
	Pkg    string
	Free   bool
	Rep    map[string]*Expr
}

type SpecFile struct {
	Contracts []*Contract
	Logic     []*LogicFn
	Axioms    []*Axiom
	Ghosts    []*GhostDecl
	Sorts     []string
	Opaque    [][2]string
	Reps      []Rep
	Text      map[string]string
}

// Rep: for receiver type T, ghost g(x) is represented by an expression over the fields of x.
type Rep struct {
	Ghost string
	Type  string
	Var   string
	E     *Expr
	Pkg   string
}

var clauseKw = map[string]bool{"prop": true, "requires": true, "ensures": true, "modifies": true, "pure": true, "nilable": true,
	"loop": true, "invariant": true, "decreases": true, "unroll": true, "trusted": true, "inline": true, "use": true, "induct": true,
	"trigger": true, "let": true, "timeout": true, "panics": true, "noalloc": true, "auto": true, "bounded": true, "mustpanic": true, "optional": true, "noframe": true, "keeparr": true, "entry": true, "unfold": true, "opaque": true, "like": true, "check": true, "hint": true, "capture": true, "callback": true, "apart": true, "aside": true}
var topKw = map[string]bool{"package": true, "sort": true, "opaque": true, "ghost": true, "logic": true, "rec": true, "axiom": true,
	"lemma": true, "func": true, "extern": true, "iface": true, "represents": true}

type parser struct {
	ts   []tok
	p    int
	file string
	pkg  string
	out  *SpecFile
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok {
	t := p.ts[p.p]
	p.p++
	return t
}
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *parser) is(s string) bool { return p.peek().s == s && p.peek().k != "str" }
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	if p.peek().k != "id" {
		p.fail("identifier expected")
	}
	return p.next().s
}
func (p *parser) loc() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line) }

func parseSpecs(dir string) *SpecFile {
	out := &SpecFile{Text: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		p := &parser{ts: lex(f, string(b)), file: f, out: out}
		p.parseFile()
	}
	return out
}

func (p *parser) parseFile() {
	for p.peek().k != "eof" {
		loc := p.loc()
		kw := p.ident()
		switch kw {
		case "package":
			p.pkg = p.pathStr()
		case "sort":
			p.out.Sorts = append(p.out.Sorts, p.ident())
		case "opaque":
			t := p.typeStr()
			p.out.Opaque = append(p.out.Opaque, [2]string{t, p.ident()})
		case "ghost":
			g := &GhostDecl{Pkg: p.pkg}
			if p.accept("free") {
				g.Free = true
			}
			g.Name = p.ident()
			g.Params = p.params()
			g.Ret = p.typeStr()
			p.out.Ghosts = append(p.out.Ghosts, g)
		case "represents":
			r := Rep{Pkg: p.pkg}
			r.Ghost = p.ident()
			p.expect("(")
			r.Var = p.ident()
			r.Type = p.typeStr()
			p.expect(")")
			p.expect("=")
			r.E = p.expr()
			p.out.Reps = append(p.out.Reps, r)
		case "logic", "rec":
			l := &LogicFn{Pkg: p.pkg, Rec: kw == "rec", Loc: loc, Depth: 2}
			if kw == "rec" && p.peek().k == "int" {
				l.Depth, _ = strconv.Atoi(p.next().s)
			}
			l.Name = p.ident()
			l.Params = p.params()
			l.Ret = p.typeStr()
			if p.accept("=") {
				l.Body = p.expr()
			}
			p.out.Logic = append(p.out.Logic, l)
		case "axiom":
			a := &Axiom{Loc: loc, Pkg: p.pkg}
			a.Name = p.ident()
			p.expect(":")
			a.E = p.expr()
			p.out.Axioms = append(p.out.Axioms, a)
		case "lemma":
			c := &Contract{Kind: "lemma", Loc: loc, Pkg: p.pkg, Loops: map[int]*LoopSpec{}, NilOK: map[string]bool{}}
			c.Target = p.ident()
			for _, q := range p.params() {
				c.Params = append(c.Params, q.Name)
				c.PTypes = append(c.PTypes, q.Type)
			}
			p.clauses(c)
			p.out.Contracts = append(p.out.Contracts, c)
		case "func", "extern", "iface":
			c := &Contract{Kind: kw, Loc: loc, Pkg: p.pkg, Loops: map[int]*LoopSpec{}, NilOK: map[string]bool{}}
			c.Trusted = kw != "func"
			p.header(c)
			p.clauses(c)
			p.out.Contracts = append(p.out.Contracts, c)
		default:
			p.p--
			p.fail("unknown top-level keyword")
		}
	}
}

func (p *parser) pathStr() string {
	var b strings.Builder
	line := p.peek().line
	for p.peek().line == line && p.peek().k != "eof" {
		b.WriteString(p.next().s)
	}
	return b.String()
}

// header: optional (recv Type) . Name (params) (results)
// forms:   (r *T).M(a, b) (x, y)      F(a) (x)     io.Reader.Read(r, p) (n, err)
func (p *parser) header(c *Contract) {
	var recv string
	if p.accept("(") {
		recv = p.ident()
		t := p.typeStr()
		p.expect(")")
		p.expect(".")
		name := p.ident()
		c.Target = "(" + t + ")." + name
		c.Params = append(c.Params, recv)
	} else {
		var b strings.Builder
		b.WriteString(p.ident())
		for p.is(".") || p.is("/") || p.is("-") || p.is("$") {
			b.WriteString(p.next().s)
			if p.peek().k == "id" || p.peek().k == "int" {
				b.WriteString(p.next().s)
			}
		}
		c.Target = b.String()
	}
	p.expect("(")
	for !p.accept(")") {
		c.Params = append(c.Params, p.ident())
		p.accept(",")
	}
	if p.accept("(") {
		for !p.accept(")") {
			c.Results = append(c.Results, p.ident())
			p.accept(",")
		}
	}
}

func (p *parser) params() []Param {
	var out []Param
	p.expect("(")
	for !p.accept(")") {
		n := p.ident()
		t := p.typeStr()
		out = append(out, Param{n, t})
		p.accept(",")
	}
	return out
}

// typeStr reads a Go type expression as text.
func (p *parser) typeStr() string {
	switch {
	case p.accept("*"):
		return "*" + p.typeStr()
	case p.accept("["):
		if p.accept("]") {
			return "[]" + p.typeStr()
		}
		n := p.next().s
		p.expect("]")
		return "[" + n + "]" + p.typeStr()
	case p.is("map"):
		p.next()
		p.expect("[")
		k := p.typeStr()
		p.expect("]")
		return "map[" + k + "]" + p.typeStr()
	case p.is("func"):
		p.fail("func types unsupported")
	}
	n := p.ident()
	if n == "interface" {
		p.expect("{")
		p.expect("}")
		return "interface{}"
	}
	if n == "row" && p.accept("!") {
		return "row!" + p.typeStr()
	}
	for p.is(".") || p.is("/") {
		n += p.next().s + p.ident()
	}
	return n
}

func (p *parser) clauses(c *Contract) {
	var lp *LoopSpec
	for p.peek().k == "id" && clauseKw[p.peek().s] {
		loc := p.loc()
		kw := p.next().s
		line := p.ts[p.p-1].line
		mk := func() Clause {
			cl := Clause{Loc: loc}
			// optional [name] label
			if p.is("[") && p.ts[p.p+1].k == "id" && p.ts[p.p+2].s == "]" {
				p.next()
				cl.Name = p.ident()
				p.expect("]")
			}
			cl.E = p.expr()
			return cl
		}
		switch kw {
		case "prop":
			for p.peek().line == line && p.peek().k == "id" {
				c.Props = append(c.Props, p.next().s)
				p.accept(",")
			}
		case "aside": // an additional contract: proved of the body, not used at calls
			c.Aside = true
		case "apart": // apart CXX f g: in the check of CXX these callees are decided by their own property's check
			pr := p.next().s
			for p.peek().line == line && p.peek().k == "id" {
				c.Apart = append(c.Apart, pr+" "+p.next().s)
				p.accept(",")
			}
		case "requires":
			c.Req = append(c.Req, mk())
		case "ensures":
			c.Ens = append(c.Ens, mk())
		case "modifies":
			if p.accept("*") && (p.peek().line != line || p.peek().k == "eof") {
				c.ModAll = true
				break
			} else if p.ts[p.p-1].s == "*" {
				p.p--
			}
			for {
				e := p.expr()
				if lp != nil {
					lp.Mods = append(lp.Mods, e)
				} else {
					c.Mod = append(c.Mod, e)
				}
				if !p.accept(",") {
					break
				}
			}
		case "pure":
			c.Pure = true
		case "noalloc":
			c.NoAlloc = true
		case "nilable":
			for p.peek().line == line && p.peek().k == "id" {
				c.NilOK[p.next().s] = true
				p.accept(",")
			}
		case "trusted":
			c.Trusted = true
		case "inline":
			c.Inline = true
		case "keeparr":
			c.KeepArr = true
		case "capture": // capture name = callee.result: what the latest call returned
			cp := &Capture{Name: p.ident(), Loc: loc}
			p.expect("=")
			ns := []string{p.ident()}
			for p.accept(".") {
				ns = append(ns, p.ident())
			}
			if len(ns) < 2 {
				p.fail("capture name = callee.result")
			}
			cp.Callee, cp.Res = strings.Join(ns[:len(ns)-1], "."), ns[len(ns)-1]
			c.Caps = append(c.Caps, cp)
		case "check", "hint": // check callee : [name] expr (before a call); hint callee : lemma or fact (after it)
			var b strings.Builder
			b.WriteString(p.ident())
			for p.is(".") || p.is("$") {
				b.WriteString(p.next().s)
				if p.peek().k == "id" || p.peek().k == "int" {
					b.WriteString(p.next().s)
				}
			}
			p.expect(":")
			if kw == "hint" {
				c.Hints = append(c.Hints, &Check{b.String(), mk()})
			} else {
				c.Checks = append(c.Checks, &Check{b.String(), mk()})
			}
		case "callback": // holds whenever unknown code may run the closures of this function
			c.Callback = append(c.Callback, mk())
		case "bounded":
			c.Bounded = p.next().s
		case "mustpanic":
			c.MustPan = true
		case "optional":
			c.Optional = true
		case "panics":
			c.AllowPan = true
		case "opaque": // logic functions that are not unfolded here
			if c.Opaque == nil {
				c.Opaque = map[string]bool{}
			}
			for {
				c.Opaque[p.ident()] = true
				if !p.accept(",") {
					break
				}
			}
		case "unfold": // limits how often recursive logic functions are unfolded
			k, _ := strconv.Atoi(p.next().s)
			c.Unfold = &k
		case "timeout":
			c.Timeout, _ = strconv.Atoi(p.next().s)
		case "entry":
			for {
				e := p.expr()
				if lp != nil {
					lp.Entry = append(lp.Entry, Clause{E: e, Loc: e.Loc})
				} else {
					c.Entry = append(c.Entry, Clause{E: e, Loc: e.Loc})
				}
				if !p.accept(",") {
					break
				}
			}
		case "use":
			if lp != nil {
				lp.Use = append(lp.Use, mk())
			} else {
				c.Use = append(c.Use, mk())
			}
		case "like": // the pre- and postconditions of another contract
			q := &Contract{Kind: "func", Pkg: c.Pkg}
			var b strings.Builder
			if p.accept("(") {
				b.WriteString("(" + p.typeStr() + ").")
				p.expect(")")
				p.expect(".")
			}
			b.WriteString(p.ident())
			q.Target = b.String()
			c.Like = q
		case "let":
			n := p.ident()
			p.expect("=")
			c.Lets = append(c.Lets, Let{n, p.expr()})
		case "induct":
			c.Induct = p.ident()
		case "trigger":
			p.expect("{")
			var tr []*Expr
			for !p.accept("}") {
				tr = append(tr, p.expr())
				p.accept(",")
			}
			c.Trig = append(c.Trig, tr)
		case "loop":
			n, err := strconv.Atoi(p.next().s)
			if err != nil {
				p.fail("loop number")
			}
			lp = c.Loops[n]
			if lp == nil {
				lp = &LoopSpec{Ord: n}
				c.Loops[n] = lp
			}
		case "invariant":
			if lp == nil {
				p.fail("invariant outside loop")
			}
			lp.Inv = append(lp.Inv, mk())
		case "decreases":
			cl := mk()
			if lp == nil {
				c.Decr = &cl
			} else {
				lp.Decr = &cl
			}
		case "unroll":
			lp.Unroll, _ = strconv.Atoi(p.next().s)
		case "auto":
			lp.Auto = true
		case "noframe":
			lp.NoFr = true
		}
	}
}

// ---- expressions ----

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 4, "&&": 5,
	"==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6,
	"+": 7, "-": 7, "|": 7, "^": 7,
	"*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8, "&^": 8,
}

func (p *parser) expr() *Expr { return p.cond() }

func (p *parser) cond() *Expr {
	e := p.bin(1)
	if p.accept("?") {
		a := p.cond()
		p.expect(":")
		b := p.cond()
		return &Expr{Op: "cond", Args: []*Expr{e, a, b}, Loc: e.Loc}
	}
	return e
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Expr{Op: "binary", Name: t.s, Args: []*Expr{l, r}, Loc: l.Loc}
	}
}

func (p *parser) unary() *Expr {
	loc := p.loc()
	for _, o := range []string{"!", "-", "^", "*", "&"} {
		if p.peek().k == "op" && p.peek().s == o {
			p.next()
			return &Expr{Op: "unary", Name: o, Args: []*Expr{p.unary()}, Loc: loc}
		}
	}
	if p.is("forall") || p.is("exists") {
		k := p.next().s
		e := &Expr{Op: k, Loc: loc}
		for {
			n := p.ident()
			t := p.typeStr()
			e.Vars = append(e.Vars, Param{n, t})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		for p.accept("{") {
			var tr []*Expr
			for !p.accept("}") {
				tr = append(tr, p.expr())
				p.accept(",")
			}
			e.Trig = append(e.Trig, tr)
		}
		e.Args = []*Expr{p.expr()}
		return e
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.next()
			if p.accept("(") {
				t := p.typeStr()
				p.expect(")")
				e = &Expr{Op: "assert", Type: t, Args: []*Expr{e}, Loc: e.Loc}
				continue
			}
			if p.accept("*") {
				e = &Expr{Op: "star", Args: []*Expr{e}, Loc: e.Loc}
				continue
			}
			e = &Expr{Op: "sel", Name: p.ident(), Args: []*Expr{e}, Loc: e.Loc}
		case p.is("["):
			p.next()
			var lo, hi *Expr
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}, Loc: e.Loc}
				continue
			}
			lo = p.expr()
			if p.accept(":") {
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, lo, hi}, Loc: e.Loc}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, lo}, Loc: e.Loc}
		case p.is("("):
			p.next()
			c := &Expr{Op: "call", Args: []*Expr{e}, Loc: e.Loc}
			for !p.accept(")") {
				c.Args = append(c.Args, p.expr())
				p.accept(",")
			}
			e = c
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	loc := p.loc()
	switch t.k {
	case "int":
		p.next()
		v, ok := new(big.Int).SetString(strings.ReplaceAll(t.s, "_", ""), 0)
		if !ok {
			p.fail("bad int %s", t.s)
		}
		return &Expr{Op: "int", V: v, Loc: loc}
	case "str":
		p.next()
		return &Expr{Op: "str", Name: t.s, Loc: loc}
	case "id":
		p.next()
		return &Expr{Op: "id", Name: t.s, Loc: loc}
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	if p.is("[") {
		// type conversion such as []byte(x) or type literal
		ty := p.typeStr()
		return &Expr{Op: "id", Name: ty, Loc: loc}
	}
	p.fail("expression expected")
	return nil
}

func (e *Expr) String() string {
	switch e.Op {
	case "id":
		return e.Name
	case "int":
		return e.V.String()
	case "str":
		return strconv.Quote(e.Name)
	case "binary":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "unary":
		return e.Name + e.Args[0].String()
	case "sel":
		return e.Args[0].String() + "." + e.Name
	case "star":
		return e.Args[0].String() + ".*"
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "slice":
		s := func(x *Expr) string {
			if x == nil {
				return ""
			}
			return x.String()
		}
		return e.Args[0].String() + "[" + s(e.Args[1]) + ":" + s(e.Args[2]) + "]"
	case "call":
		var a []string
		for _, x := range e.Args[1:] {
			a = append(a, x.String())
		}
		return e.Args[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "cond":
		return "(" + e.Args[0].String() + " ? " + e.Args[1].String() + " : " + e.Args[2].String() + ")"
	case "forall", "exists":
		var v []string
		for _, x := range e.Vars {
			v = append(v, x.Name+" "+x.Type)
		}
		return "(" + e.Op + " " + strings.Join(v, ", ") + " :: " + e.Args[0].String() + ")"
	case "assert":
		return e.Args[0].String() + ".(" + e.Type + ")"
	}
	return e.Op
}
