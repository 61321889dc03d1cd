package main

// The program under verification: loading, contract lookup, type resolution, globals.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/abema/go-mp4"

type World struct {
	mu          sync.Mutex // guards the term table
	unfoldCap   *int
	opaque      map[string]bool
	prog        *ssa.Program
	fset        *token.FileSet
	pkgs        map[string]*types.Package
	ssaPkgs     map[string]*ssa.Package
	repo        string
	spec        *SpecFile
	typeIDs     map[string]int
	idTypes     map[int]types.Type
	logic       map[string]*LogicFn
	ghosts      map[string]*GhostDecl
	freeGhost   map[string]bool
	recHeapSort map[string]*Sort
	contracts   map[string]*Contract
	lemmas      []*Contract
	reps        []Rep
	fns         map[string]*ssa.Function
	resMemo     map[string]types.Type
	gconst      map[*ssa.Global]*gval
	inlineStd   map[string]bool
	axMemo      map[int][]axiomInst
	tags        map[string]int
}

type gval struct {
	known bool
	v     Val
	err   bool
}

func loadWorld(repo, specDir string) *World {
	w := &World{repo: repo, pkgs: map[string]*types.Package{}, ssaPkgs: map[string]*ssa.Package{}, typeIDs: map[string]int{}, idTypes: map[int]types.Type{},
		logic: map[string]*LogicFn{}, ghosts: map[string]*GhostDecl{}, freeGhost: map[string]bool{}, recHeapSort: map[string]*Sort{},
		contracts: map[string]*Contract{}, fns: map[string]*ssa.Function{}, resMemo: map[string]types.Type{}, gconst: map[*ssa.Global]*gval{},
		inlineStd: map[string]bool{"encoding/binary": true, "math/bits": true}}
	cfg := &packages.Config{Dir: repo, Mode: packages.LoadAllSyntax, Tests: false}
	ps, err := packages.Load(cfg, modPath, modPath+"/internal/bitio", modPath+"/internal/util")
	if err != nil {
		panic(err)
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				fmt.Println("load error:", e)
				nerr++
			}
		}
	})
	if nerr > 0 {
		panic("the repository does not type-check")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p.Pkg
		w.ssaPkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), modPath) || w.inlineStd[p.Pkg.Path()] {
			p.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Pkg == nil {
			w.fns[fn.RelString(nil)] = fn
		}
	}
	for _, p := range w.ssaPkgs {
		if !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							w.addFn(f)
						}
					}
				}
			}
		}
	}
	w.spec = parseSpecs(specDir)
	w.install()
	return w
}

func (w *World) addFn(f *ssa.Function) {
	w.fns[f.RelString(nil)] = f
	for _, a := range f.AnonFuncs {
		w.addFn(a)
	}
}

func (w *World) install() {
	s := w.spec
	for _, n := range s.Sorts {
		ghostType(n, UnS(n))
	}
	for _, o := range s.Opaque {
		t := w.resolveType(o[0], nil)
		if t == nil {
			panic("opaque: unknown type " + o[0])
		}
		opaque[types.TypeString(t, nil)] = UnS(o[1])
	}
	for _, l := range s.Logic {
		if w.logic[l.Name] != nil {
			panic(l.Loc + ": duplicate logic " + l.Name)
		}
		w.logic[l.Name] = l
	}
	for _, g := range s.Ghosts {
		w.ghosts[g.Name] = g
		if g.Free {
			w.freeGhost["g:"+g.Name] = true
		}
	}
	w.reps = s.Reps
	for _, c := range s.Contracts {
		if c.Kind == "lemma" {
			w.lemmas = append(w.lemmas, c)
			continue
		}
		k := w.targetKey(c)
		if c.Aside {
			c.Target = k
			continue
		}
		if o := w.contracts[k]; o != nil {
			// several contracts for one function are joined
			panic(c.Loc + ": duplicate contract for " + k + " (" + o.Loc + ")")
		}
		c.Target = k
		w.contracts[k] = c
		if c.Kind == "func" && w.fns[k] == nil {
			if f := w.promoted(k); f != nil {
				w.fns[k] = f
			}
		}
		if c.Kind == "func" && w.fns[k] == nil && !c.Optional {
			w.spec.Text["missing:"+k] = c.Loc
		}
	}
	for _, c := range s.Contracts {
		if c.Like == nil {
			continue
		}
		o := w.contracts[w.targetKey(c.Like)]
		if o == nil {
			panic(c.Loc + ": like: no contract " + c.Like.Target)
		}
		if fmt.Sprint(o.Params, o.Results) != fmt.Sprint(c.Params, c.Results) {
			panic(c.Loc + ": like: parameter names differ from " + o.Loc)
		}
		c.Req = append(append([]Clause{}, o.Req...), c.Req...)
		c.Ens = append(append([]Clause{}, o.Ens...), c.Ens...)
		c.Lets = append(append([]Let{}, o.Lets...), c.Lets...)
	}
}

// promoted finds the wrapper of a method promoted from an embedded field: "(*pkg.T).M".
func (w *World) promoted(k string) *ssa.Function {
	if !strings.HasPrefix(k, "(") {
		return nil
	}
	i := strings.LastIndex(k, ").")
	t := w.resolveType(strings.TrimPrefix(k[1:i], "*"), nil)
	if t == nil {
		return nil
	}
	if k[1] == '*' {
		t = types.NewPointer(t)
	}
	ms := w.prog.MethodSets.MethodSet(t)
	for j := 0; j < ms.Len(); j++ {
		if ms.At(j).Obj().Name() == k[i+2:] {
			return w.prog.MethodValue(ms.At(j))
		}
	}
	return nil
}

// targetKey qualifies names relative to the contract file's package.
func (w *World) targetKey(c *Contract) string {
	t := c.Target
	if c.Kind == "iface" && !strings.HasPrefix(t, "(") {
		i := strings.LastIndex(t, ".")
		tn := t[:i]
		if !strings.Contains(tn, ".") {
			tn = c.Pkg + "." + tn
		} else {
			tn = w.expandPkg(tn)
		}
		return "(" + tn + ")." + t[i+1:]
	}
	if c.Kind != "func" {
		// (io.Reader).Read  errors.New  (*bytes.Buffer).Write : already qualified by import path; names of the
		// current package may be used unqualified
		if strings.HasPrefix(t, "(") {
			i := strings.Index(t, ")")
			tn := t[1:i]
			if !strings.Contains(tn, ".") {
				return "(" + qualStar(tn, c.Pkg) + ")" + t[i+1:]
			}
			return "(" + w.expandPkg(tn) + ")" + t[i+1:]
		}
		if !strings.Contains(t, ".") {
			return c.Pkg + "." + t
		}
		return w.expandPkg(t)
	}
	if strings.HasPrefix(t, "(") {
		i := strings.Index(t, ")")
		return "(" + qualStar(t[1:i], c.Pkg) + ")" + t[i+1:]
	}
	return c.Pkg + "." + t
}

func qualStar(t, pkg string) string {
	if strings.HasPrefix(t, "*") {
		return "*" + qualStar(t[1:], pkg)
	}
	return pkg + "." + t
}

// expandPkg: bitio.Reader -> full path
func (w *World) expandPkg(t string) string {
	st := ""
	if strings.HasPrefix(t, "*") {
		st, t = "*", t[1:]
	}
	i := strings.LastIndex(t, ".")
	if i < 0 {
		return st + t
	}
	p := w.pkgByName(t[:i])
	if p == nil {
		return st + t
	}
	return st + p.Path() + t[i:]
}

var pkgAlias = map[string]string{"mp4": modPath, "bitio": modPath + "/internal/bitio", "util": modPath + "/internal/util"}

func (w *World) pkgByName(n string) *types.Package {
	if p, ok := w.pkgs[n]; ok {
		return p
	}
	if a, ok := pkgAlias[n]; ok {
		return w.pkgs[a]
	}
	var found *types.Package
	var paths []string
	for p := range w.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if w.pkgs[p].Name() == n && !strings.Contains(p, "internal/") && !strings.Contains(p, "vendor/") {
			if found == nil || len(p) < len(found.Path()) {
				found = w.pkgs[p]
			}
		}
	}
	return found
}

func (w *World) resolveType(name string, pkg *types.Package) types.Type {
	k := name
	if pkg != nil {
		k = pkg.Path() + "|" + name
	}
	if t, ok := w.resMemo[k]; ok {
		return t
	}
	t := w.resolveType0(name, pkg)
	w.resMemo[k] = t
	return t
}

func (w *World) resolveType0(name string, pkg *types.Package) types.Type {
	switch {
	case name == "ref":
		return refT
	case name == "error":
		return types.Universe.Lookup("error").Type()
	case name == "interface{}" || name == "any":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(name, "*"):
		if e := w.resolveType(name[1:], pkg); e != nil {
			return types.NewPointer(e)
		}
		return nil
	case strings.HasPrefix(name, "[]"):
		if e := w.resolveType(name[2:], pkg); e != nil {
			return types.NewSlice(e)
		}
		return nil
	case strings.HasPrefix(name, "["):
		i := strings.Index(name, "]")
		var n int64
		fmt.Sscan(name[1:i], &n)
		if e := w.resolveType(name[i+1:], pkg); e != nil {
			return types.NewArray(e, n)
		}
		return nil
	case strings.HasPrefix(name, "map["):
		d := 0
		for i := 4; i < len(name); i++ {
			if name[i] == '[' {
				d++
			}
			if name[i] == ']' {
				if d == 0 {
					a, b := w.resolveType(name[4:i], pkg), w.resolveType(name[i+1:], pkg)
					if a == nil || b == nil {
						return nil
					}
					return types.NewMap(a, b)
				}
				d--
			}
		}
		return nil
	}
	if t, ok := ghostTypes[name]; ok {
		return t
	}
	if strings.HasPrefix(name, "row!") { // row!byte : ghost type for backing rows
		e := w.resolveType(name[4:], pkg)
		if e == nil {
			return nil
		}
		return rowType(e)
	}
	if i := strings.LastIndex(name, "."); i > 0 {
		p := w.pkgByName(name[:i])
		if p == nil {
			return nil
		}
		if tn, ok := p.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
			return tn.Type()
		}
		return nil
	}
	if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	if pkg != nil {
		if tn, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

func rowType(e types.Type) types.Type {
	return ghostType("row!"+tname(e), rowSort(leafSorts(e)[0]))
}

func (w *World) qualified(p, n string, from *types.Package) types.Object {
	pk := w.pkgByName(p)
	if pk == nil {
		return nil
	}
	return pk.Scope().Lookup(n)
}

func (w *World) contractFor(fn *ssa.Function) *Contract {
	if fn == nil {
		return nil
	}
	if c := w.contracts[fn.RelString(nil)]; c != nil {
		return c
	}
	if o := fn.Origin(); o != nil && o != fn {
		return w.contracts[o.RelString(nil)]
	}
	return nil
}

func (w *World) repFor(g string, t types.Type) *Rep {
	for i := range w.reps {
		r := &w.reps[i]
		if r.Ghost != g {
			continue
		}
		rt := w.resolveType(r.Type, w.pkgs[r.Pkg])
		if rt != nil && types.Identical(rt, t) {
			return r
		}
	}
	return nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := w.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (w *World) allowPanic(x *Exec, fn *ssa.Function) bool {
	return x.contract != nil && x.contract.AllowPan
}

// ---- globals ----

// globalConst: package variables that are set once, by their initialiser, to a value this tool can evaluate.
func (w *World) globalConst(x *Exec, g *ssa.Global) (Val, bool) {
	gv, ok := w.gconst[g]
	if !ok {
		gv = &gval{}
		w.gconst[g] = gv
		w.evalGlobal(g, gv)
	}
	if gv.known {
		return gv.v, true
	}
	return Val{}, false
}

func (w *World) singleStore(g *ssa.Global) ssa.Value {
	p := g.Pkg
	if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
		return nil
	}
	var val ssa.Value
	n := 0
	bad := false
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == g {
						n++
						val = in.Val
						if f.Name() != "init" {
							bad = true
						}
						continue
					}
					if in.Val == g {
						bad = true
					}
				case *ssa.UnOp, *ssa.DebugRef:
					continue
				default:
					for _, op := range in.Operands(nil) {
						if *op == g {
							bad = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, f := range w.fns {
		if f.Pkg == p && f.Parent() == nil {
			scan(f)
		}
	}
	if f := p.Func("init"); f != nil {
		n0 := n
		if w.fns[f.RelString(nil)] == nil {
			scan(f)
		}
		_ = n0
	}
	if bad || n != 1 {
		return nil
	}
	return val
}

// allocInit: the value of an array literal: a local whose elements are each set once to a constant before it is read.
func (x *Exec) allocInit(a *ssa.Alloc) (Val, bool) {
	at, ok := elemOf(a.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > 64 || len(leafSorts(at.Elem())) != 1 {
		return Val{}, false
	}
	r := zeroVal(elemOf(a.Type()))
	r.L = append([]*Term{}, r.L...)
	for _, rf := range *a.Referrers() {
		switch rf := rf.(type) {
		case *ssa.DebugRef, *ssa.UnOp:
		case *ssa.IndexAddr:
			k, isC := rf.Index.(*ssa.Const)
			if !isC {
				return Val{}, false
			}
			for _, q := range *rf.Referrers() {
				st, isS := q.(*ssa.Store)
				if !isS || st.Addr != rf {
					return Val{}, false
				}
				c, isC := st.Val.(*ssa.Const)
				if !isC {
					return Val{}, false
				}
				r.L[k.Int64()] = x.constVal(c).L[0]
			}
		default:
			return Val{}, false
		}
	}
	return r, true
}

func (w *World) evalGlobal(g *ssa.Global, gv *gval) {
	v := w.singleStore(g)
	if v == nil {
		return
	}
	if types.Identical(elemOf(g.Type()), types.Universe.Lookup("error").Type()) {
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && (f.RelString(nil) == "errors.New" || f.RelString(nil) == "fmt.Errorf") {
				gv.err = true
			}
		}
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				return
			}
			panic(r)
		}
	}()
	x := newExec(w)
	x.dry = 1
	st := &State{pc: True, heap: map[string]*Term{}, top: NamedVar("topG", IntS)}
	r, ok := x.evalInit(st, v)
	if !ok {
		return
	}
	for _, l := range r.L {
		if !isVal(l) && l != True && l != False {
			return
		}
	}
	r.T = elemOf(g.Type())
	gv.v = r
	gv.known = true
}

func (x *Exec) evalInit(st *State, v ssa.Value) (Val, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v), true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || len(f.Blocks) == 0 {
			return Val{}, false
		}
		var args []Val
		for _, a := range v.Call.Args {
			av, ok := x.evalInit(st, a)
			if !ok {
				return Val{}, false
			}
			args = append(args, av)
		}
		r, st2 := x.runFunc(f, args, nil, st, 1)
		return r, st2 != nil
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			return x.allocInit(a)
		}
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			r, ok := x.W.globalConst(x, g)
			return r, ok
		}
	}
	return Val{}, false
}

func (w *World) globalFacts(x *Exec, g *ssa.Global, v Val) {
	gv := w.gconst[g]
	if gv == nil {
		w.globalConst(x, g)
		gv = w.gconst[g]
	}
	if gv.err && len(v.L) == 2 {
		x.assumeOnce(Not(Eq(v.L[0], IntC(0))))
	}
	// standard library error values are set and never changed
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && len(v.L) == 2 && types.Identical(elemOf(g.Type()), types.Universe.Lookup("error").Type()) {
		x.assumeOnce(Not(Eq(v.L[0], IntC(0))))
	}
}
