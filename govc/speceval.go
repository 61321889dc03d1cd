package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecEnv struct {
	x    *Exec
	vars map[string]Val
	st   *State
	old  *State
	pkg  *types.Package
	// names resolves source-level variables at loop heads
	names    func(string) (Val, bool)
	depth    int
	conc     bool   // evaluating inside quantifier: no wf assumptions
	st0      *State // state before the loop
	head     *State // state at the loop head
	headPhis []Val
	rep      bool
	oldVars  map[string]Val // entry values of parameters that have been assigned to
}

type specErr struct{ msg string }

func serr(e *Expr, f string, a ...interface{}) {
	loc := ""
	if e != nil {
		loc = e.Loc + ": "
	}
	panic(specErr{loc + fmt.Sprintf(f, a...)})
}

var untypedInt = types.Typ[types.UntypedInt]
var untypedNil = types.Typ[types.UntypedNil]

func (env *SpecEnv) with(vars map[string]Val) *SpecEnv {
	n := *env
	n.vars = vars
	return &n
}

func (env *SpecEnv) Bool(e *Expr) *Term {
	v := env.Eval(e)
	if len(v.L) != 1 || v.L[0].S != BoolS {
		serr(e, "boolean expected: %s", e)
	}
	return v.L[0]
}

func coerce(v Val, t types.Type, e *Expr) Val {
	if v.T == untypedInt {
		if isInteger(t) {
			w := intWidth(t.Underlying().(*types.Basic))
			return mkVal(t, BVbig(v.L[0].V, w))
		}
		if s := isOpaque(t); s != nil && s == IntS {
			return mkVal(t, v.L[0])
		}
		if t == refT {
			return mkVal(t, v.L[0])
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkVal(t, App("flt!"+sanitize(v.L[0].V.String()), FltS))
		}
		serr(e, "cannot use integer constant as %s", t)
	}
	if v.T == untypedNil {
		z := zeroVal(t)
		return z
	}
	return v
}

func (env *SpecEnv) typ(name string, e *Expr) types.Type {
	t := env.x.W.resolveType(name, env.pkg)
	if t == nil {
		serr(e, "unknown type %s", name)
	}
	return t
}

func (env *SpecEnv) Eval(e *Expr) Val {
	x := env.x
	switch e.Op {
	case "int":
		return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: e.V}))
	case "str":
		return mkVal(strT, StrLit(e.Name))
	case "id":
		return env.ident(e)
	case "cond":
		c := env.Bool(e.Args[0])
		a, b := env.Eval(e.Args[1]), env.Eval(e.Args[2])
		a, b = env.unify(a, b, e)
		r := Val{T: a.T}
		for k := range a.L {
			r.L = append(r.L, Ite(c, a.L[k], b.L[k]))
		}
		return r
	case "unary":
		if e.Name == "&" {
			return env.addr(e.Args[0])
		}
		a := env.Eval(e.Args[0])
		switch e.Name {
		case "!":
			return boolVal(Not(a.term()))
		case "-":
			if a.T == untypedInt {
				return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: new(big.Int).Neg(a.L[0].V)}))
			}
			return mkVal(a.T, BVNeg(a.term()))
		case "^":
			return mkVal(a.T, BVNot(a.term()))
		case "*":
			return env.load(a)
		}
	case "star":
		return env.load(env.Eval(e.Args[0]))
	case "binary":
		return env.binary(e)
	case "forall", "exists":
		n := *env
		n.vars = map[string]Val{}
		n.conc = true
		for k, v := range env.vars {
			n.vars[k] = v
		}
		var bs []*Term
		for _, p := range e.Vars {
			t := env.typ(p.Type, e)
			v := Val{T: t}
			for _, s := range leafSorts(t) {
				b := BoundVar(p.Name, s)
				bs = append(bs, b)
				v.L = append(v.L, b)
			}
			n.vars[p.Name] = v
		}
		body := n.Bool(e.Args[0])
		var trigs [][]*Term
		for _, tr := range e.Trig {
			var ts []*Term
			for _, q := range tr {
				ts = append(ts, n.Eval(q).term())
			}
			trigs = append(trigs, ts)
		}
		if e.Op == "forall" {
			if len(trigs) == 0 {
				trigs = autoTrig(bs, body)
			}
			return boolVal(Forall(bs, body, trigs...))
		}
		return boolVal(Exists(bs, body))
	case "sel":
		return env.sel(e)
	case "index":
		return env.index(e)
	case "slice":
		a := env.Eval(e.Args[0])
		lo := BVc(0, 64)
		if e.Args[1] != nil {
			lo = env.Int64(e.Args[1])
		}
		if isString(a.T) {
			hi := x.strlen(a.term())
			if e.Args[2] != nil {
				hi = env.Int64(e.Args[2])
			}
			return mkVal(a.T, strOf(strrow(a.term()), lo, BVOp("bvsub", hi, lo)))
		}
		hi := a.ln()
		if e.Args[2] != nil {
			hi = env.Int64(e.Args[2])
		}
		return Val{T: a.T, L: []*Term{a.arr(), BVOp("bvadd", a.off(), lo), BVOp("bvsub", hi, lo), BVOp("bvsub", a.cp(), lo)}}
	case "assert":
		a := env.Eval(e.Args[0])
		t := env.typ(e.Type, e)
		return x.unbox(a.L[1], t)
	case "call":
		return env.call(e)
	}
	serr(e, "cannot evaluate %s", e)
	return Val{}
}

func (env *SpecEnv) load(a Val) Val {
	v := env.x.loadQ(env.st, a, env.conc)
	return v
}

// loadQ loads without recording well-formedness facts when inside quantifiers.
func (x *Exec) loadQ(st *State, a Val, quiet bool) Val {
	if quiet {
		sv := x.snapshotLite()
		v := x.load(st, a)
		x.restoreLite(sv)
		fixOffsets(&v)
		return v
	}
	v := x.load(st, a)
	fixOffsets(&v)
	return v
}

type lite struct{ n, w int }

func (x *Exec) snapshotLite() lite { return lite{len(x.assumes), len(x.wfLog)} }
func (x *Exec) restoreLite(s lite) {
	for i := s.w; i < len(x.wfLog); i++ {
		delete(x.wfSeen, x.wfLog[i])
	}
	x.wfLog = x.wfLog[:min(s.w, len(x.wfLog))]
	for _, t := range x.assumes[s.n:] {
		delete(x.once, t)
	}
	x.assumes = x.assumes[:s.n]
}

func (env *SpecEnv) ident(e *Expr) Val {
	switch e.Name {
	case "true":
		return boolVal(True)
	case "false":
		return boolVal(False)
	case "nil":
		return mkVal(untypedNil, IntC(0))
	}
	if a, ok := env.vars["&"+e.Name]; ok { // captured variable: its cell in the state at hand
		v := env.x.loadQ(env.st, a, env.conc)
		return v
	}
	if v, ok := env.vars[e.Name]; ok {
		return v
	}
	if v, ok := env.x.captured(env.st, e.Name); ok {
		return v
	}
	if env.names != nil {
		if v, ok := env.names(e.Name); ok {
			return v
		}
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(e.Name); o != nil {
			switch o := o.(type) {
			case *types.Const:
				k := ssa.NewConst(o.Val(), o.Type())
				if b, ok := o.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Info()&types.IsInteger != 0 {
					bi, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
					return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: bi}))
				}
				return env.x.constVal(k)
			case *types.Var:
				return env.global(o)
			}
		}
	}
	if i := strings.Index(e.Name, "."); i > 0 {
		// handled by sel
	}
	serr(e, "unknown identifier %s", e.Name)
	return Val{}
}

func (env *SpecEnv) global(o *types.Var) Val {
	x := env.x
	p := x.W.prog.Package(o.Pkg())
	if p == nil {
		serr(nil, "no ssa package for %s", o)
	}
	g, ok := p.Members[o.Name()].(*ssa.Global)
	if !ok {
		serr(nil, "not a global: %s", o)
	}
	if v, ok := x.W.globalConst(x, g); ok {
		return v
	}
	v := x.load(env.st, x.globalAddr(g))
	fixOffsets(&v)
	x.W.globalFacts(x, g, v)
	return v
}

func (env *SpecEnv) Int64(e *Expr) *Term {
	v := env.Eval(e)
	if v.T == untypedInt {
		return BVbig(v.L[0].V, 64)
	}
	if !isInteger(v.T) {
		serr(e, "integer expected: %s", e)
	}
	if isSigned(v.T) {
		return SExt(v.term(), 64)
	}
	return ZExt(v.term(), 64)
}

func (env *SpecEnv) unify(a, b Val, e *Expr) (Val, Val) {
	if a.T == untypedInt && b.T != untypedInt {
		a = coerce(a, b.T, e)
	} else if b.T == untypedInt && a.T != untypedInt {
		b = coerce(b, a.T, e)
	} else if a.T == untypedNil && b.T != untypedNil {
		a = coerce(a, b.T, e)
	} else if b.T == untypedNil && a.T != untypedNil {
		b = coerce(b, a.T, e)
	}
	if len(a.L) != len(b.L) {
		serr(e, "type mismatch %s vs %s in %s", a.T, b.T, e)
	}
	for k := range a.L {
		if a.L[k].S != b.L[k].S {
			serr(e, "sort mismatch %s vs %s in %s", a.T, b.T, e)
		}
	}
	return a, b
}

func (env *SpecEnv) binary(e *Expr) Val {
	switch e.Name {
	case "&&":
		l := env.Bool(e.Args[0])
		if l == False {
			return boolVal(False)
		}
		return boolVal(And(l, env.Bool(e.Args[1])))
	case "||":
		return boolVal(Or(env.Bool(e.Args[0]), env.Bool(e.Args[1])))
	case "==>":
		l := env.Bool(e.Args[0])
		if l == False {
			return boolVal(True)
		}
		return boolVal(Implies(l, env.Bool(e.Args[1])))
	case "<==>":
		return boolVal(Eq(env.Bool(e.Args[0]), env.Bool(e.Args[1])))
	}
	a, b := env.Eval(e.Args[0]), env.Eval(e.Args[1])
	if e.Name == "<<" || e.Name == ">>" {
		if a.T == untypedInt && b.T == untypedInt {
			r := new(big.Int)
			if e.Name == "<<" {
				r.Lsh(a.L[0].V, uint(b.L[0].V.Uint64()))
			} else {
				r.Rsh(a.L[0].V, uint(b.L[0].V.Uint64()))
			}
			return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: r}))
		}
		if a.T == untypedInt {
			a = coerce(a, u64T, e)
		}
		if b.T == untypedInt {
			b = coerce(b, types.Typ[types.Uint], e)
		}
		op := token.SHL
		if e.Name == ">>" {
			op = token.SHR
		}
		// no safety obligation for spec shifts
		x := env.x
		x.dry++
		sv := x.snapshotLite()
		v := x.binop(env.st, op, a, b, a.T, b.T, a.T, token.NoPos)
		x.restoreLite(sv)
		x.dry--
		return v
	}
	if e.Name == "==" || e.Name == "!=" {
		var t *Term
		if a.T == untypedNil || b.T == untypedNil {
			o := a
			if a.T == untypedNil {
				o = b
			}
			if o.LV != nil {
				t = False
			} else {
				t = Eq(o.L[0], IntC(0))
			}
		} else {
			a, b = env.unify(a, b, e)
			var cs []*Term
			if _, ok := a.T.Underlying().(*types.Slice); ok && isOpaque(a.T) == nil {
				cs = append(cs, Eq(a.arr(), b.arr()), Eq(a.off(), b.off()), Eq(a.ln(), b.ln()))
			} else {
				for k := range a.L {
					cs = append(cs, Eq(a.L[k], b.L[k]))
				}
			}
			t = And(cs...)
		}
		if e.Name == "!=" {
			t = Not(t)
		}
		return boolVal(t)
	}
	a, b = env.unify(a, b, e)
	if a.T == untypedInt {
		r := new(big.Int)
		x, y := a.L[0].V, b.L[0].V
		switch e.Name {
		case "+":
			r.Add(x, y)
		case "-":
			r.Sub(x, y)
		case "*":
			r.Mul(x, y)
		case "/":
			r.Quo(x, y)
		case "%":
			r.Rem(x, y)
		case "|":
			r.Or(x, y)
		case "&":
			r.And(x, y)
		case "<":
			return boolVal(BoolC(x.Cmp(y) < 0))
		case "<=":
			return boolVal(BoolC(x.Cmp(y) <= 0))
		case ">":
			return boolVal(BoolC(x.Cmp(y) > 0))
		case ">=":
			return boolVal(BoolC(x.Cmp(y) >= 0))
		}
		return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: r}))
	}
	s, t := a.term(), b.term()
	if s.S == IntS {
		switch e.Name {
		case "<":
			return boolVal(ILt(s, t))
		case "<=":
			return boolVal(ILe(s, t))
		case ">":
			return boolVal(ILt(t, s))
		case ">=":
			return boolVal(ILe(t, s))
		}
		serr(e, "bad operator on references: %s", e)
	}
	if s.S == FltS {
		switch e.Name {
		case "+", "-", "*", "/":
			return mkVal(a.T, App("fop!"+e.Name+"!"+floatName(a.T), FltS, s, t))
		case "<", "<=", ">", ">=":
			return mkVal(types.Typ[types.Bool], App("fcmp!"+e.Name, BoolS, s, t))
		}
	}
	if s.S == StrS && e.Name == "+" {
		return mkVal(a.T, App("strcat", StrS, s, t))
	}
	if s.S.K != SBV {
		serr(e, "bad operands: %s", e)
	}
	sg := isSigned(a.T)
	switch e.Name {
	case "+":
		return mkVal(a.T, BVOp("bvadd", s, t))
	case "-":
		return mkVal(a.T, BVOp("bvsub", s, t))
	case "*":
		return mkVal(a.T, mulTerm(s, t))
	case "/":
		return mkVal(a.T, divTerm(token.QUO, sg, s, t))
	case "%":
		return mkVal(a.T, divTerm(token.REM, sg, s, t))
	case "&":
		return mkVal(a.T, BVOp("bvand", s, t))
	case "|":
		return mkVal(a.T, BVOp("bvor", s, t))
	case "^":
		return mkVal(a.T, BVOp("bvxor", s, t))
	case "&^":
		return mkVal(a.T, BVOp("bvand", s, BVNot(t)))
	case "<":
		return boolVal(cmpT(sg, false, s, t))
	case "<=":
		return boolVal(cmpT(sg, true, s, t))
	case ">":
		return boolVal(cmpT(sg, false, t, s))
	case ">=":
		return boolVal(cmpT(sg, true, t, s))
	}
	serr(e, "operator %s", e.Name)
	return Val{}
}

// sel: field selection (through pointers and embedding), or package-qualified name.
func (env *SpecEnv) sel(e *Expr) Val {
	if e.Args[0].Op == "id" {
		if _, ok := env.vars[e.Args[0].Name]; !ok {
			if o := env.x.W.qualified(e.Args[0].Name, e.Name, env.pkg); o != nil {
				if v, ok := o.(*types.Var); ok {
					return env.global(v)
				}
				if c, ok := o.(*types.Const); ok {
					if b, ok := c.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Info()&types.IsInteger != 0 {
						bi, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
						return mkVal(untypedInt, intern(Term{Op: "const", S: IntS, V: bi}))
					}
					return env.x.constVal(ssa.NewConst(c.Val(), c.Type()))
				}
			}
		}
	}
	a := env.Eval(e.Args[0])
	return env.selField(a, e.Name, e)
}

func (env *SpecEnv) fieldPath(t types.Type, name string, e *Expr) []int {
	var pkg *types.Package
	if n, ok := derefT(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	} else {
		pkg = env.pkg
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	if _, ok := o.(*types.Var); !ok {
		serr(e, "no field %s in %s", name, t)
	}
	return idx
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (env *SpecEnv) selField(a Val, name string, e *Expr) Val {
	for _, i := range env.fieldPath(a.T, name, e) {
		if _, ok := a.T.Underlying().(*types.Pointer); ok {
			a = env.load(fieldAddr(elemOf(a.T), i, a.term()))
		} else {
			a = a.field(i)
		}
	}
	return a
}

// addr evaluates an lvalue expression to an address.
func (env *SpecEnv) addr(e *Expr) Val {
	switch e.Op {
	case "sel":
		var a Val
		// base: if it is itself a pointer value use it, else take its address
		bv := env.tryPtr(e.Args[0])
		a = bv
		path := env.fieldPath(a.T, e.Name, e)
		for k, i := range path {
			fa := fieldAddr(elemOf(a.T), i, a.term())
			if k < len(path)-1 {
				if _, ok := elemOf(fa.T).Underlying().(*types.Pointer); ok {
					fa = env.load(fa)
				}
			}
			a = fa
		}
		return a
	case "index":
		b := env.Eval2(e.Args[0])
		i := env.Int64(e.Args[1])
		if _, ok := b.T.Underlying().(*types.Slice); ok {
			return indexAddr(elemOf(b.T), b.arr(), BVOp("bvadd", b.off(), i))
		}
		p := env.addr(e.Args[0])
		return indexAddr(elemOf(elemOf(p.T)), p.term(), i)
	case "unary":
		if e.Name == "*" {
			return env.Eval(e.Args[0])
		}
	case "id":
		if v, ok := env.vars["&"+e.Name]; ok {
			return v
		}
		if env.pkg != nil {
			if o, ok := env.pkg.Scope().Lookup(e.Name).(*types.Var); ok {
				if g, ok := env.x.W.prog.Package(o.Pkg()).Members[o.Name()].(*ssa.Global); ok {
					return env.x.globalAddr(g)
				}
			}
		}
	}
	serr(e, "not addressable: %s", e)
	return Val{}
}

func (env *SpecEnv) Eval2(e *Expr) Val { return env.Eval(e) }

func (env *SpecEnv) tryPtr(e *Expr) Val {
	v := env.Eval(e)
	if _, ok := v.T.Underlying().(*types.Pointer); ok {
		return v
	}
	return env.addr(e)
}

func (env *SpecEnv) index(e *Expr) Val {
	a := env.Eval(e.Args[0])
	if isString(a.T) {
		return mkVal(u8T, env.x.strat(a.term(), env.Int64(e.Args[1])))
	}
	switch u := a.T.Underlying().(type) {
	case *types.Slice:
		i := env.Int64(e.Args[1])
		return env.load(indexAddr(u.Elem(), a.arr(), BVOp("bvadd", a.off(), i)))
	case *types.Array:
		return arrIndex(a, u, env.Int64(e.Args[1]))
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return env.load(indexAddr(at.Elem(), a.term(), env.Int64(e.Args[1])))
		}
	case *types.Map:
		k := coerce(env.Eval(e.Args[1]), u.Key(), e)
		v, _ := env.x.mapGet(env.st, a.T, a.term(), k)
		return v
	}
	serr(e, "index of %s", a.T)
	return Val{}
}

func (env *SpecEnv) call(e *Expr) Val {
	x := env.x
	f := e.Args[0]
	args := e.Args[1:]
	if f.Op == "id" {
		switch f.Name {
		case "old":
			n := *env
			if env.old != nil {
				n.st = env.old
			}
			if len(env.oldVars) > 0 {
				n.vars = map[string]Val{}
				for k, v := range env.vars {
					n.vars[k] = v
				}
				for k, v := range env.oldVars {
					n.vars[k] = v
				}
				n.oldVars = nil
			}
			return n.Eval(args[0])
		case "pre": // value in the state before the loop
			n := *env
			if env.st0 != nil {
				n.st = env.st0
			}
			return n.Eval(args[0])
		case "head": // value at the head of the current iteration (lemma uses)
			n := *env
			if env.head != nil {
				n.st = env.head
			}
			return n.Eval(args[0])
		case "len":
			a := env.Eval(args[0])
			if isString(a.T) {
				return mkVal(intT, x.strlen(a.term()))
			}
			if at, ok := a.T.Underlying().(*types.Array); ok {
				return mkVal(intT, BVc(uint64(at.Len()), 64))
			}
			return mkVal(intT, a.ln())
		case "cap":
			return mkVal(intT, env.Eval(args[0]).cp())
		case "off":
			return mkVal(intT, env.Eval(args[0]).off())
		case "fresh":
			// object allocated since the old state
			a := env.Eval(args[0])
			return boolVal(ILt(env.old.top, baseTerm(refLeaf(a))))
		case "freshSince":
			a := env.Eval(args[0])
			return boolVal(ILt(x.entryTop, baseTerm(refLeaf(a))))
		case "ref":
			if args[0].Op == "id" && env.pkg != nil {
				if o, ok := env.pkg.Scope().Lookup(args[0].Name).(*types.Func); ok {
					return mkVal(refT, App("fn!"+o.FullName(), IntS))
				}
			}
			a := env.Eval(args[0])
			return mkVal(refT, refLeaf(a))
		case "base":
			a := env.Eval(args[0])
			return mkVal(refT, baseTerm(refLeaf(a)))
		case "row":
			// the backing row of a slice as a ghost value
			a := env.Eval(args[0])
			et := elemOf(a.T)
			s := leafSorts(et)[0]
			m := x.hget(env.st, keyFor("S:"+tname(et), et, 0, len(leafSorts(et))), ArrS(IntS, rowSort(s)))
			return mkVal(rowType(et), Select(m, a.arr()))
		case "at": // at(row, i)
			a := env.Eval(args[0])
			et := env.x.W.resolveType(strings.TrimPrefix(tname(a.T), "row!"), env.pkg)
			if et == nil {
				serr(e, "at: not a row: %s", a.T)
			}
			return mkVal(et, Select(a.term(), env.Int64(args[1])))
		case "dyn":
			// dyn(i, T): interface i holds exactly type T
			a := env.Eval(args[0])
			t := env.typ(args[1].typeText(), e)
			return boolVal(Eq(a.L[0], x.W.typeID(t)))
		case "typeid":
			return mkVal(refT, x.W.typeID(env.typ(args[0].typeText(), e)))
		case "impl":
			return boolVal(x.implements(env.Eval(args[0]).L[0], env.typ(args[1].typeText(), e)))
		case "typeof":
			return mkVal(refT, env.Eval(args[0]).L[0])
		case "boxtype":
			s := args[0].Name
			bt := env.typ("github.com/abema/go-mp4.BoxType", e)
			return Val{T: bt, L: []*Term{BVc(uint64(s[0]), 8), BVc(uint64(s[1]), 8), BVc(uint64(s[2]), 8), BVc(uint64(s[3]), 8)}}
		case "iface":
			// iface(p, T): the interface value of type T holding pointer p
			a := env.Eval(args[0])
			t := env.typ(args[1].typeText(), e)
			return x.makeIface(a, a.T, t)
		case "has":
			m := env.Eval(args[0])
			k := coerce(env.Eval(args[1]), m.T.Underlying().(*types.Map).Key(), e)
			_, ok := x.mapGet(env.st, m.T, m.term(), k)
			return boolVal(ok)
		case "zero":
			return zeroVal(env.typ(args[0].typeText(), e))
		case "bytestr":
			a := env.Eval(args[0])
			m := x.hget(env.st, "S:"+tname(elemOf(a.T)), ArrS(IntS, rowSort(BV(8))))
			return mkVal(strT, strOf(Select(m, a.arr()), a.off(), a.ln()))
		case "same":
			// same(p): the object p points to has the same contents as in the old state
			a := env.Eval(args[0])
			n := *env
			n.st = env.old
			va, vb := env.load(a), n.load(a)
			var cs []*Term
			for k := range va.L {
				cs = append(cs, Eq(va.L[k], vb.L[k]))
			}
			return boolVal(And(cs...))
		case "method":
			break
		}
		if l := x.W.logic[f.Name]; l != nil {
			return env.callLogic(l, args, e)
		}
		if g := x.W.ghosts[f.Name]; g != nil {
			return env.ghost(g, args, e)
		}
		if t := x.W.resolveType(f.Name, env.pkg); t != nil && len(args) == 1 {
			return env.conv(env.Eval(args[0]), t, e)
		}
		serr(e, "unknown function %s", f.Name)
	}
	if f.Op == "sel" {
		if f.Args[0].Op == "id" {
			if t := x.W.resolveType(f.Args[0].Name+"."+f.Name, env.pkg); t != nil && len(args) == 1 {
				return env.conv(env.Eval(args[0]), t, e)
			}
		}
	}
	serr(e, "cannot call %s", f)
	return Val{}
}

func (e *Expr) typeText() string {
	switch e.Op {
	case "unary":
		return e.Name + e.Args[0].typeText()
	case "sel":
		return e.Args[0].typeText() + "." + e.Name
	case "id":
		return e.Name
	}
	return e.String()
}

func refLeaf(a Val) *Term {
	if _, ok := a.T.Underlying().(*types.Interface); ok && len(a.L) == 2 {
		return a.L[1]
	}
	if a.LV != nil {
		return a.LV.Obj
	}
	return a.L[0]
}

func (env *SpecEnv) conv(v Val, t types.Type, e *Expr) Val {
	if v.T == untypedInt || v.T == untypedNil {
		return coerce(v, t, e)
	}
	if t == refT {
		return mkVal(refT, refLeaf(v))
	}
	if isInteger(t) && isInteger(v.T) {
		w := intWidth(t.Underlying().(*types.Basic))
		if isSigned(v.T) {
			return mkVal(t, SExt(v.term(), w))
		}
		return mkVal(t, ZExt(v.term(), w))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return env.x.convert(env.st, v, v.T, t, 0)
	}
	if isString(t) {
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			m := env.x.hget(env.st, "S:"+tname(elemOf(v.T)), ArrS(IntS, rowSort(BV(8))))
			return mkVal(t, strOf(Select(m, v.arr()), v.off(), v.ln()))
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := v.T.Underlying().(*types.Interface); !ok {
			return env.x.makeIface(v, v.T, t)
		}
	}
	if len(leafSorts(t)) == len(v.L) {
		v.T = t
		return v
	}
	serr(e, "conversion to %s", t)
	return Val{}
}

func (env *SpecEnv) ghostArgs(ps []Param, args []*Expr, e *Expr, pkg *types.Package) ([]Val, []*Term) {
	if len(args) != len(ps) {
		serr(e, "arity of %s", e)
	}
	var vs []Val
	var ls []*Term
	for i, p := range ps {
		v := env.Eval(args[i])
		v = env.x.adaptArg(v, p.Type, pkg, e)
		vs = append(vs, v)
		ls = append(ls, v.L...)
	}
	return vs, ls
}

func (x *Exec) adaptArg(v Val, tn string, pkg *types.Package, e *Expr) Val {
	t := x.W.resolveType(tn, pkg)
	if t == nil {
		serr(e, "unknown type %s", tn)
	}
	if v.T == untypedInt || v.T == untypedNil {
		v = coerce(v, t, e)
	}
	if t == refT {
		return mkVal(refT, refLeaf(v))
	}
	ss := leafSorts(t)
	if len(ss) != len(v.L) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			v = x.makeIface(v, v.T, t)
		} else {
			serr(e, "argument type %s for %s", v.T, t)
		}
	}
	for k := range ss {
		if ss[k] != v.L[k].S {
			serr(e, "argument sort mismatch: %s for %s in %s", v.T, t, e)
		}
	}
	v.T = t
	return v
}

// ghost state: an array from a reference to a value.
func (env *SpecEnv) ghost(g *GhostDecl, args []*Expr, e *Expr) Val {
	x := env.x
	if len(args) == 1 {
		// represents clause by static type
		if v := env.Eval(args[0]); v.T != nil {
			if len(v.L) == 2 && v.L[0].isConst() {
				if _, ok := v.T.Underlying().(*types.Interface); ok {
					if t, ok := x.W.idTypes[int(v.L[0].V.Int64())]; ok && x.W.repFor(g.Name, t) != nil {
						v = x.unbox(v.L[1], t)
					}
				}
			}
			if r := x.W.repFor(g.Name, v.T); r != nil {
				n := *env
				n.vars = map[string]Val{r.Var: v}
				n.names = nil
				n.pkg = x.W.pkgs[r.Pkg]
				rv := n.Eval(r.E)
				return coerce(rv, x.W.resolveType(g.Ret, nil), e)
			}
		}
	}
	_, ls := env.ghostArgs(g.Params, args, e, x.W.pkgs[g.Pkg])
	rt := x.W.resolveType(g.Ret, x.W.pkgs[g.Pkg])
	key := "g:" + g.Name
	if len(ls) == 0 {
		return mkVal(rt, x.hget(env.st, key, leafSorts(rt)[0]))
	}
	v := Val{T: rt}
	ss := leafSorts(rt)
	for k, s := range ss {
		m := x.hget(env.st, keyFor(key, rt, k, len(ss)), ghostSort(ls, s))
		for _, l := range ls {
			m = Select(m, l)
		}
		v.L = append(v.L, m)
		if rt == refT && env.st.top != nil && !m.bound {
			x.assumeOnce(ILe(baseTerm(m), env.st.top)) // ghost references are to existing objects
		}
	}
	return v
}

func ghostSort(ls []*Term, s *Sort) *Sort {
	r := s
	for i := len(ls) - 1; i >= 0; i-- {
		r = ArrS(ls[i].S, r)
	}
	return r
}

func (env *SpecEnv) callLogic(l *LogicFn, args []*Expr, e *Expr) Val {
	x := env.x
	pkg := x.W.pkgs[l.Pkg]
	vs, ls := env.ghostArgs(l.Params, args, e, pkg)
	if l.Body != nil && !l.Rec {
		if env.depth > 60 {
			serr(e, "logic function recursion: %s", l.Name)
		}
		n := *env
		n.depth++
		n.pkg = pkg
		n.names = nil
		n.vars = map[string]Val{}
		for i, p := range l.Params {
			n.vars[p.Name] = vs[i]
		}
		r := n.Eval(l.Body)
		rt := x.W.resolveType(l.Ret, pkg)
		if rt == nil {
			serr(e, "unknown type %s", l.Ret)
		}
		return coerce(r, rt, e)
	}
	rt := x.W.resolveType(l.Ret, pkg)
	if rt == nil {
		serr(e, "unknown type %s in %s", l.Ret, l.Name)
	}
	if l.Rec {
		x.W.defineRec(l)
		na := len(ls)
		// the capacity of a slice plays no part in specifications
		o := 0
		for _, v := range vs {
			if v.T != nil {
				if _, ok := v.T.Underlying().(*types.Slice); ok && len(v.L) == 4 {
					ls[o+3] = ls[o+2]
				}
			}
			o += len(v.L)
		}
		for i, k := range l.heapKeys {
			var tags map[string]bool
			if l.def != nil && i < len(l.def.tags) {
				tags = l.def.tags[i]
			}
			ls = append(ls, dropLocals(x.hget(env.st, k, x.W.recHeapSort[k]), ls[:na], tags))
		}
	}
	v := Val{T: rt}
	ss := leafSorts(rt)
	for k, s := range ss {
		n := "L!" + l.Name
		if len(ss) > 1 {
			n = fmt.Sprintf("%s#%d", n, k)
		}
		v.L = append(v.L, App(n, s, ls...))
	}
	return v
}

// localRef holds the references of local variables whose address is only used for loads and stores:
// nothing in memory refers to them, so a function of other values does not depend on what they hold.
var localRef = map[*Term]bool{}

// dropLocals removes the stores to local variables from a heap map passed to a recursive function of args.
// With tags, the stores to other kinds of locations go as well: locations of different kinds are distinct.
func dropLocals(m *Term, args []*Term, tags map[string]bool) *Term {
	if len(localRef) == 0 && tags == nil {
		return m
	}
	other := func(r *Term) bool {
		if tags == nil {
			return false
		}
		if r.Op == "fresh" {
			return true
		}
		return r.Op == "app" && (strings.HasPrefix(r.Name, "sub!") || strings.HasPrefix(r.Name, "elem!")) && !tags[r.Name]
	}
	used := map[*Term]bool{}
	collect(args, func(t *Term) {
		if localRef[t] {
			used[t] = true
		}
	})
	memo := map[*Term]*Term{}
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.Op {
		case "store":
			in := strip(t.Args[0])
			if b := baseOf(t.Args[1]); localRef[b] && !used[b] || other(t.Args[1]) {
				r = in
			} else if in != t.Args[0] {
				r = Store(in, t.Args[1], t.Args[2])
			}
		case "ite":
			a, b := strip(t.Args[1]), strip(t.Args[2])
			if a != t.Args[1] || b != t.Args[2] {
				r = Ite(t.Args[0], a, b)
			}
		}
		memo[t] = r
		return r
	}
	return strip(m)
}

// ---- recursive logic functions ----

type recDef struct {
	formals []*Term
	bodies  []*Term // per leaf
	depth   int
	tags    []map[string]bool // per heap map: the kinds of locations it is read at (nil: any)
}

// footprint lists, for each heap map a recursive function reads, the kinds of locations (fields, elements) it reads there.
func (w *World) footprint(l *LogicFn, nheap int) []map[string]bool {
	fs := l.def.formals
	hs := fs[len(fs)-nheap:]
	out := make([]map[string]bool, nheap)
	any := make([]bool, nheap)
	pos := map[*Term]int{}
	for i, h := range hs {
		pos[h] = i
		out[i] = map[string]bool{}
	}
	collect(l.def.bodies, func(t *Term) {
		for k, a := range t.Args {
			i, ok := pos[a]
			if !ok {
				continue
			}
			if t.Op == "select" && k == 0 {
				if r := t.Args[1]; r.Op == "app" && (strings.HasPrefix(r.Name, "sub!") || strings.HasPrefix(r.Name, "elem!")) {
					out[i][r.Name] = true
					continue
				}
			}
			if t.Op == "app" && logicBase(t.Name) == l.Name && k == len(t.Args)-nheap+i {
				continue
			}
			if t.Op == "app" && strings.HasPrefix(t.Name, "L!") {
				if o := w.logic[logicBase(t.Name)]; o != nil && o != l && o.def != nil {
					if j := k - (len(t.Args) - len(o.heapKeys)); j >= 0 && j < len(o.def.tags) && o.def.tags[j] != nil {
						for n := range o.def.tags[j] {
							out[i][n] = true
						}
						continue
					}
				}
			}
			any[i] = true
		}
		if t.Op == "forall" || t.Op == "exists" {
			for _, tr := range t.Trig {
				for _, a := range tr {
					if _, ok := pos[a]; ok {
						any[pos[a]] = true
					}
				}
			}
		}
	})
	for i := range out {
		if any[i] {
			out[i] = nil
		}
	}
	return out
}

func (w *World) defineRec(l *LogicFn) {
	if l.def != nil {
		return
	}
	l.def = &recDef{depth: l.Depth}
	pkg := w.pkgs[l.Pkg]
	build := func(keys []string) ([]*Term, []*Term, []string) {
		x := newExec(w)
		x.dry = 1
		vars := map[string]Val{}
		var formals []*Term
		for _, p := range l.Params {
			t := w.resolveType(p.Type, pkg)
			if t == nil {
				panic(specErr{l.Loc + ": unknown type " + p.Type})
			}
			v := Val{T: t}
			for _, s := range leafSorts(t) {
				b := BoundVar(p.Name, s)
				formals = append(formals, b)
				v.L = append(v.L, b)
			}
			vars[p.Name] = v
		}
		st := &State{pc: True, heap: map[string]*Term{}, top: NamedVar("topR", IntS)}
		for _, k := range keys {
			b := BoundVar("H:"+k, w.recHeapSort[k])
			formals = append(formals, b)
			st.heap[k] = b
			x.heapSort[k] = w.recHeapSort[k]
		}
		env := &SpecEnv{x: x, vars: vars, st: st, old: st, pkg: pkg, conc: true}
		r := env.Eval(l.Body)
		rt := w.resolveType(l.Ret, pkg)
		r = coerce(r, rt, l.Body)
		var extra []string
		for k := range x.initHeap {
			extra = append(extra, k)
			w.recHeapSort[k] = x.heapSort[k]
		}
		return formals, r.L, extra
	}
	keys := map[string]bool{}
	for {
		ks := sortedKeys(keys)
		l.heapKeys = ks
		f, b, extra := build(ks)
		n := len(keys)
		for _, k := range extra {
			keys[k] = true
		}
		if len(keys) == n {
			l.def.formals, l.def.bodies = f, b
			l.def.tags = w.footprint(l, len(ks))
			return
		}
	}
}

// autoTrig picks array selections / applications that contain all bound variables as triggers.
func autoTrig(bs []*Term, body *Term) [][]*Term {
	var cands []*Term
	collect([]*Term{body}, func(t *Term) {
		if !t.bound || (t.Op != "select" && t.Op != "app") {
			return
		}
		ok := true
		collect([]*Term{t}, func(s *Term) {
			switch s.Op {
			case "ite", "and", "or", "not", "=", "forall", "exists", "=>", "bvult", "bvule", "bvslt", "bvsle":
				ok = false
			}
		})
		if !ok {
			return
		}
		for _, b := range bs {
			if !contains(t, b) {
				return
			}
		}
		cands = append(cands, t)
	})
	// keep minimal candidates
	var out [][]*Term
	for _, c := range cands {
		min := true
		for _, d := range cands {
			if d != c && contains(c, d) {
				min = false
			}
		}
		// prefer triggers where the bound variable appears directly as an argument
		if min && directArg(c, bs) {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

func directArg(t *Term, bs []*Term) bool {
	ok := true
	collect([]*Term{t}, func(s *Term) {
		if strings.HasPrefix(s.Op, "bv") && s.Op != "bvar" && s.bound {
			ok = false
		}
	})
	return ok
}

func contains(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if contains(a, s) {
			return true
		}
	}
	return false
}
