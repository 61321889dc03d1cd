package main

// Calls: builtins, inlining, contract application.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) storeHook(c *fctx, st *State, in *ssa.Store, a, v Val) {}

func (x *Exec) call(c *fctx, st *State, cc *ssa.CallCommon, site ssa.Instruction) (Val, *State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, x.val(c, st, a))
		}
		return x.builtin(c, st, b.Name(), cc, args, site)
	}
	var fn Val
	fn = x.val(c, st, cc.Value)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(c, st, a))
	}
	return x.callVal(c, st, cc, fn, args, site)
}

func (x *Exec) callVal(c *fctx, st *State, cc *ssa.CallCommon, fn Val, args []Val, site ssa.Instruction) (Val, *State) {
	if cc.IsInvoke() {
		return x.invoke(c, st, cc, fn, args, site)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(c, st, b.Name(), cc, args, site)
	}
	fv := fn.Fn
	if fv == nil && len(fn.L) == 1 {
		fv = x.fnvals[fn.L[0]]
	}
	if fv != nil {
		return x.callFn(c, st, fv.Fn, args, fv.Bind, site)
	}
	// unknown function value
	x.safe(st, "call of nil function", site.Pos(), Not(Eq(fn.term(), IntC(0))))
	key := funcValKey(cc.Value)
	con := x.W.contracts[key]
	if con == nil {
		unsup("call of unknown function value %s (%s) in %s", cc.Value.Name(), key, c.fn)
	}
	rt := resultType(cc.Signature())
	cb := x.contract != nil && len(x.contract.Callback) > 0 && x.topC != nil
	if cb {
		x.cbOblige(st, "before "+calleeName(key), site.Pos())
	}
	r, s2 := x.applyContract(c, st, con, append([]Val{fn}, args...), rt, site, key)
	if s2 == nil {
		return r, s2
	}
	// unknown code may run the closure at hand again: what it captured and assigns to is arbitrary afterwards
	for i, fv := range c.fn.FreeVars {
		if storedCapture(c.fn, i) {
			x.havocCell(s2, c.env[fv])
		}
	}
	if cb {
		if x.inCB {
			env := x.topEnv(s2)
			for _, cl := range x.contract.Callback {
				x.assume(s2.pc, env.Bool(cl.E))
			}
		} else {
			x.runCallbacks(s2, site)
		}
	}
	return r, s2
}

// storedCapture: does the closure, or a sibling that captures the same variable, assign to its i-th captured variable?
func storedCapture(fn *ssa.Function, i int) bool {
	name := fn.FreeVars[i].Name()
	fs := []*ssa.Function{fn}
	if fn.Parent() != nil {
		fs = fn.Parent().AnonFuncs
	}
	for _, f := range fs {
		for _, fv := range f.FreeVars {
			if fv.Name() != name {
				continue
			}
			for _, r := range *fv.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) havocCell(st *State, p Val) {
	v := x.symVal(elemOf(p.T), "cb")
	fixOffsets(&v)
	x.wf(st, v)
	x.store(st, p, v)
}

// topEnv resolves the locals of the function under contract at the current point.
func (x *Exec) topEnv(st *State) *SpecEnv {
	c := x.topC
	env := &SpecEnv{x: x, vars: map[string]Val{}, st: st, old: x.entry, pkg: x.W.pkgs[x.contract.Pkg]}
	for k, v := range x.vars {
		env.vars[k] = v
	}
	env.names = func(n string) (Val, bool) {
		if a, ok := c.addrs[n]; ok {
			return x.loadQ(st, a, false), true
		}
		if m := c.nvals[n]; m != nil && c.cur != nil {
			for b := c.cur; b != nil; b = b.Idom() {
				if q, ok := m[b]; ok {
					if v, ok := c.env[q]; ok {
						v.T = q.Type()
						return v, true
					}
				}
			}
		}
		if v, ok := c.names[n]; ok {
			return v, true
		}
		return Val{}, false
	}
	if c.cur != nil {
		lc := *c
		lc.lspec = x.contract
		env.shadow(&lc, c.cur)
	}
	// captured parameters live in cells
	for i, n := range x.contract.Params {
		if i < len(c.fn.Params) {
			if a, ok := c.addrs[c.fn.Params[i].Name()]; ok && a.T != nil {
				env.vars[n] = x.loadQ(st, a, false)
			}
		}
	}
	return env
}

func calleeName(key string) string {
	key = strings.ReplaceAll(key, modPath+"/internal/bitio", "bitio")
	key = strings.ReplaceAll(key, modPath+"/internal/util", "util")
	key = strings.ReplaceAll(key, modPath+".", "")
	key = strings.NewReplacer("(", "", ")", "", "*", "").Replace(key)
	return key
}

func (x *Exec) callChecks(st *State, con *Contract, args []Val, site ssa.Instruction, key string) {
	if x.contract == nil || len(x.contract.Checks) == 0 || x.topC == nil {
		return
	}
	name := calleeName(key)
	var env *SpecEnv
	for i, ck := range x.contract.Checks {
		if ck.Callee != name {
			continue
		}
		if env == nil {
			env = x.topEnv(st)
			for j, n := range con.Params {
				env.vars["$"+n] = args[j]
			}
		}
		if x.checked == nil {
			x.checked = map[*Check]bool{}
		}
		x.checked[ck] = true
		x.obligeConj(st, "check", fmt.Sprintf("%s#%s", name, clauseName(ck.Clause, i)), site.Pos(), env, ck.E)
	}
}

// makeChecks: what the contract says of the lengths the function allocates ($len, $cap).
func (x *Exec) makeChecks(st *State, l, cp *Term, site ssa.Instruction) {
	if x.contract == nil || x.topC == nil {
		return
	}
	var env *SpecEnv
	for i, ck := range x.contract.Checks {
		if ck.Callee != "make" {
			continue
		}
		if env == nil {
			env = x.topEnv(st)
			env.vars["$len"] = mkVal(types.Typ[types.Int], l)
			env.vars["$cap"] = mkVal(types.Typ[types.Int], cp)
		}
		x.obligeConj(st, "check", fmt.Sprintf("make#%s", clauseName(ck.Clause, i)), site.Pos(), env, ck.E)
	}
}

// callCaptures keeps results of calls under the names the contract gives them.
func (x *Exec) callCaptures(st *State, con *Contract, vars map[string]Val, key string) {
	if x.contract == nil || len(x.contract.Caps) == 0 || x.topC == nil {
		return
	}
	name := calleeName(key)
	for _, cp := range x.contract.Caps {
		if cp.Callee != name {
			continue
		}
		if x.inBody > 0 {
			panic(specErr{cp.Loc + ": capture of a call in a loop"})
		}
		v, ok := vars[cp.Res]
		if !ok {
			panic(specErr{cp.Loc + ": no result " + cp.Res})
		}
		if x.capVal == nil {
			x.capVal = map[string]Val{}
		}
		x.capVal[cp.Name] = v
		for k, t := range v.L {
			kk := fmt.Sprintf("cap:%s:%d", cp.Name, k)
			x.hget(st, kk, t.S)
			st.heap[kk] = t
		}
	}
}

// ofCaptures: does the clause mention a result captured inside the function?
func (con *Contract) ofCaptures(e *Expr) bool {
	if e == nil || len(con.Caps) == 0 {
		return false
	}
	if e.Op == "id" {
		for _, cp := range con.Caps {
			if cp.Name == e.Name {
				return true
			}
		}
	}
	for _, a := range e.Args {
		if con.ofCaptures(a) {
			return true
		}
	}
	return false
}

func (x *Exec) captured(st *State, name string) (Val, bool) {
	v, ok := x.capVal[name]
	if !ok {
		return v, false
	}
	v.L = append([]*Term{}, v.L...)
	for k, t := range v.L {
		v.L[k] = x.hget(st, fmt.Sprintf("cap:%s:%d", name, k), t.S)
	}
	return v, true
}

// callHints: lemmas and facts stated where a call returns.
func (x *Exec) callHints(st *State, con *Contract, args []Val, vars map[string]Val, key string) {
	if x.contract == nil || len(x.contract.Hints) == 0 || x.topC == nil {
		return
	}
	name := calleeName(key)
	var env *SpecEnv
	for i, h := range x.contract.Hints {
		if h.Callee != name {
			continue
		}
		if env == nil {
			env = x.topEnv(st)
			for j, n := range con.Params {
				env.vars["$"+n] = args[j]
			}
			for _, n := range con.Results {
				if v, ok := vars[n]; ok {
					env.vars["$"+n] = v
				}
			}
		}
		x.useLemma(env, h.Clause, st, fmt.Sprintf("after %s#%s", name, clauseName(h.Clause, i)))
	}
}

func (x *Exec) obligeConj(st *State, kind, name string, pos token.Pos, env *SpecEnv, e *Expr) {
	if e.Op == "binary" && e.Name == "&&" {
		x.obligeConj(st, kind, name, pos, env, e.Args[0])
		x.obligeConj(st, kind, name, pos, env, e.Args[1])
		return
	}
	g := env.Bool(e)
	x.oblige(st, kind, name, pos, g)
}

func (x *Exec) cbOblige(st *State, name string, pos token.Pos) {
	env := x.topEnv(st)
	for i, cl := range x.contract.Callback {
		x.obligeConj(st, "callback", name+"#"+clauseName(cl, i), pos, env, cl.E)
	}
}

// runCallbacks: unknown code was given closures of the function under contract.  Their cells become arbitrary up to the
// callback invariant, and each closure is run once from such a state: its obligations are those of an arbitrary call.
func (x *Exec) runCallbacks(st *State, site ssa.Instruction) {
	var fvs []*FuncVal
	var ids []*Term
	for id, f := range x.fnvals {
		if f.Fn.Parent() == x.topC.fn {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return x.fnvals[ids[i]].Fn.Name() < x.fnvals[ids[j]].Fn.Name() })
	seenFn := map[*ssa.Function]bool{}
	for _, id := range ids {
		f := x.fnvals[id]
		if seenFn[f.Fn] {
			continue
		}
		seenFn[f.Fn] = true
		fvs = append(fvs, f)
		for i := range f.Fn.FreeVars {
			if storedCapture(f.Fn, i) {
				x.havocCell(st, f.Bind[i])
			}
		}
	}
	env := x.topEnv(st)
	for _, cl := range x.contract.Callback {
		x.assume(st.pc, env.Bool(cl.E))
	}
	x.inCB = true
	cur := x.topC.cur
	for _, f := range fvs {
		s := st.clone()
		var args []Val
		for _, p := range f.Fn.Params {
			v := x.symVal(p.Type(), "cbarg_"+p.Name())
			fixOffsets(&v)
			x.wf(s, v)
			if needsNonNil(p.Type()) {
				x.assume(True, Not(Eq(v.L[0], IntC(0))))
			}
			args = append(args, v)
		}
		// a closure of a named function type is only called as that type's contract allows
		if con := x.W.contracts[x.cbKey[f.Fn]]; con != nil {
			env := &SpecEnv{x: x, vars: x.bindParams(con, append([]Val{{T: f.Fn.Signature, L: []*Term{NewVar("cbf", IntS)}}}, args...)), st: s, old: s, pkg: x.conPkg(con)}
			x.evalLets(env, con)
			for _, r := range con.Req {
				x.assume(s.pc, env.Bool(r.E))
			}
		}
		_, s2 := x.runFunc(f.Fn, args, f.Bind, s, 1)
		x.topC.cur = cur
		if s2 != nil {
			x.cbOblige(s2, "after "+f.Fn.Name(), site.Pos())
		}
	}
	x.inCB = false
}

// funcValKey names the contract of a dynamic function value: by the struct field it was read from, else by its named type.
func funcValKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			t := derefT(fa.X.Type())
			return "(" + types.TypeString(t, nil) + ")." + structOf(t).Field(fa.Field).Name()
		}
	case *ssa.Field:
		return "(" + types.TypeString(v.X.Type(), nil) + ")." + structOf(v.X.Type()).Field(v.Field).Name()
	}
	return "(" + types.TypeString(v.Type(), nil) + ").call"
}

func (x *Exec) invoke(c *fctx, st *State, cc *ssa.CallCommon, recv Val, args []Val, site ssa.Instruction) (Val, *State) {
	x.safe(st, "nil interface call ."+cc.Method.Name(), site.Pos(), Not(Eq(recv.L[0], IntC(0))))
	return x.invokeOn(c, st, cc, recv, args, site, 0)
}

func (x *Exec) invokeOn(c *fctx, st *State, cc *ssa.CallCommon, recv Val, args []Val, site ssa.Instruction, d int) (Val, *State) {
	tid := recv.L[0]
	if tid.isConst() {
		if t, ok := x.W.idTypes[int(tid.V.Int64())]; ok {
			fn := x.lookupMethod(t, cc.Method)
			if fn == nil {
				unsup("no method %s on %s", cc.Method.Name(), t)
			}
			return x.callFn(c, st, fn, append([]Val{x.unbox(recv.L[1], t)}, args...), nil, site)
		}
	}
	if tid.Op == "ite" && d < 4 && (tid.Args[1].isConst() || tid.Args[2].isConst()) {
		// branch on the dynamic type
		cond := tid.Args[0]
		pick := func(v Val, yes bool) Val {
			r := Val{T: v.T}
			for _, l := range v.L {
				if l.Op == "ite" && l.Args[0] == cond {
					if yes {
						l = l.Args[1]
					} else {
						l = l.Args[2]
					}
				}
				r.L = append(r.L, l)
			}
			return r
		}
		var es []edge
		for _, yes := range []bool{true, false} {
			s := st.clone()
			if yes {
				s.pc = And(st.pc, cond)
			} else {
				s.pc = And(st.pc, Not(cond))
			}
			if s.pc == False {
				continue
			}
			rv := pick(recv, yes)
			if rv.L[0].isConst() && rv.L[0].V.Sign() == 0 {
				continue // nil: excluded by the safety obligation
			}
			v, s2 := x.invokeOn(c, s, cc, rv, args, site, d+1)
			if s2 != nil {
				es = append(es, edge{st: s2, phis: []Val{v}})
			}
		}
		if len(es) == 0 {
			return Val{}, nil
		}
		s2, ph := x.mergeEdges(es, 1)
		return ph[0], s2
	}
	it := cc.Value.Type()
	key := ifaceKey(it, cc.Method)
	con := x.W.contracts[key]
	if con == nil {
		// embedded interface: try the interface that declares the method
		for _, k := range declaringKeys(it, cc.Method) {
			if con = x.W.contracts[k]; con != nil {
				key = k
				break
			}
		}
	}
	if con == nil {
		unsup("no contract for interface method %s", key)
	}
	return x.applyContract(c, st, con, append([]Val{recv}, args...), resultType(cc.Signature()), site, key)
}

func ifaceKey(t types.Type, m *types.Func) string {
	return "(" + types.TypeString(t, nil) + ")." + m.Name()
}

func declaringKeys(t types.Type, m *types.Func) []string {
	var out []string
	var rec func(t types.Type)
	rec = func(t types.Type) {
		out = append(out, ifaceKey(t, m))
		if it, ok := t.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				rec(it.EmbeddedType(i))
			}
		}
	}
	rec(t)
	return out
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := x.W.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.W.prog.MethodValue(sel)
}

func (x *Exec) callFn(c *fctx, st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction) (Val, *State) {
	con := x.W.contractFor(fn)
	if con != nil && !con.Inline {
		return x.applyContract(c, st, con, args, resultType(fn.Signature), site, fn.RelString(nil))
	}
	// extern by method of embedded promoted wrapper etc.
	inRepo := fn.Pkg != nil && (strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || x.W.inlineStd[fn.Pkg.Pkg.Path()])
	if fn.Pkg == nil { // wrappers, bound methods
		inRepo = true
	}
	if !inRepo || len(fn.Blocks) == 0 {
		if con == nil {
			unsup("no contract for %s", fn.RelString(nil))
		}
	}
	x.inlined[fn.RelString(nil)] = true
	v, s2 := x.runFunc(fn, args, bind, st, c.depth+1)
	return v, s2
}

func (x *Exec) builtin(c *fctx, st *State, name string, cc *ssa.CallCommon, args []Val, site ssa.Instruction) (Val, *State) {
	switch name {
	case "len":
		a := args[0]
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return mkVal(intT, a.ln()), st
		case *types.Basic:
			return mkVal(intT, x.strlen(a.term())), st
		case *types.Array:
			return mkVal(intT, BVc(uint64(u.Len()), 64)), st
		case *types.Pointer:
			return mkVal(intT, BVc(uint64(u.Elem().Underlying().(*types.Array).Len()), 64)), st
		case *types.Map:
			n := App("maplen", BV(64), Select(x.hget(st, "M:"+tname(cc.Args[0].Type()), ArrS(IntS, UnS("MapVer"))), a.term()))
			x.assumeOnce(Ule(n, BVc(maxLen, 64)))
			return mkVal(intT, n), st
		}
	case "cap":
		return mkVal(intT, args[0].cp()), st
	case "append":
		s, t := args[0], args[1]
		et := elemOf(cc.Args[0].Type())
		if isString(cc.Args[1].Type()) {
			s0 := t.term()
			l := x.strlen(s0)
			f := x.freshObj(st, "str")
			key := "S:" + tname(et)
			m := x.hget(st, key, ArrS(IntS, rowSort(BV(8))))
			st.heap[key] = Store(m, f, strrow(s0))
			t = Val{T: s.T, L: []*Term{f, BVc(0, 64), l, l}}
		}
		if isNilConst(s) || s.T == nil {
			s = zeroVal(cc.Args[0].Type())
		}
		if len(t.L) != 4 {
			t = zeroVal(cc.Args[0].Type())
		}
		return x.appendSlice(st, s, t, et), st
	case "copy":
		return x.copySlice(st, args[0], args[1], cc), st
	case "print", "println":
		return Val{}, st
	case "min", "max":
		r := args[0].term()
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			lt := cmpT(sg, false, a.term(), r)
			if name == "max" {
				lt = cmpT(sg, false, r, a.term())
			}
			r = Ite(lt, a.term(), r)
		}
		return mkVal(cc.Args[0].Type(), r), st
	case "panic":
		x.oblige(st, "safe", "panic unreachable", site.Pos(), False)
		return Val{}, nil
	case "delete":
		m := args[0]
		key, _ := x.mapKey(cc.Args[0].Type())
		ms := UnS("MapVer")
		mm := x.hget(st, key, ArrS(IntS, ms))
		x.noteWrite(st, key, m.term())
		a := append([]*Term{Select(mm, m.term())}, args[1].L...)
		st.heap[key] = Store(mm, m.term(), App("mapdel!"+key, ms, a...))
		return Val{}, st
	case "recover":
		unsup("recover")
	}
	unsup("builtin %s", name)
	return Val{}, nil
}

func (x *Exec) copySlice(st *State, d, s Val, cc *ssa.CallCommon) Val {
	et := elemOf(cc.Args[0].Type())
	var sl *Term
	if isString(cc.Args[1].Type()) {
		sl = x.strlen(s.term())
	} else {
		sl = s.ln()
	}
	n := Ite(Ult(sl, d.ln()), sl, d.ln())
	if isAggr(et) {
		if isString(cc.Args[1].Type()) {
			unsup("copy of string to aggregates")
		}
		i := BoundVar("i", BV(64))
		de := elemRef(et, d.arr(), i)
		se := elemRef(et, s.arr(), BVOp("bvadd", s.off(), BVOp("bvsub", i, d.off())))
		la, lb := locsAt(et, de), locsAt(et, se)
		old := st.clone()
		done := map[string]bool{}
		for k := range la {
			ms := ArrS(IntS, la[k].s)
			if la[k].row {
				ms = ArrS(IntS, rowSort(la[k].s))
			}
			x.hget(st, la[k].key, ms)
			x.hget(old, la[k].key, ms)
			if !done[la[k].key] {
				done[la[k].key] = true
				x.havocLoc(st, modLoc{key: la[k].key, obj: d.arr(), elems: true})
			}
		}
		var facts []*Term
		inr := Ult(BVOp("bvsub", i, d.off()), n)
		for k := range la {
			nm, om := st.heap[la[k].key], old.heap[la[k].key]
			if la[k].row && la[k].idx != nil {
				facts = append(facts, Eq(Select(selRaw(nm, la[k].obj), la[k].idx), Ite(inr, Select(Select(om, lb[k].obj), lb[k].idx), Select(Select(om, la[k].obj), la[k].idx))))
			} else {
				facts = append(facts, Eq(selRaw(nm, la[k].obj), Ite(inr, Select(om, lb[k].obj), Select(om, la[k].obj))))
			}
		}
		x.assume(st.pc, Forall([]*Term{i}, And(facts...), []*Term{de}))
		return mkVal(intT, n)
	}
	ss := leafSorts(et)
	for k, so := range ss {
		key := keyFor("S:"+tname(et), et, k, len(ss))
		m := x.hget(st, key, ArrS(IntS, rowSort(so)))
		var src, soff *Term
		if isString(cc.Args[1].Type()) {
			src, soff = strrow(s.term()), BVc(0, 64)
		} else {
			src, soff = Select(m, s.arr()), s.off()
		}
		row := x.blit(Select(m, d.arr()), d.off(), src, soff, n)
		x.noteWrite(st, key, d.arr())
		st.heap[key] = Store(m, d.arr(), row)
	}
	return mkVal(intT, n)
}

// ---- contracts ----

func (x *Exec) bindParams(con *Contract, args []Val) map[string]Val {
	vars := map[string]Val{}
	if len(con.Params) != len(args) {
		panic(specErr{fmt.Sprintf("%s: contract of %s has %d parameters, the function has %d", con.Loc, con.Target, len(con.Params), len(args))})
	}
	for i, n := range con.Params {
		vars[n] = args[i]
	}
	return vars
}

func bindResults(con *Contract, vars map[string]Val, r Val) {
	if len(con.Results) == 0 {
		return
	}
	if tt, ok := r.T.(*types.Tuple); ok {
		if tt.Len() != len(con.Results) {
			panic(specErr{fmt.Sprintf("%s: contract of %s names %d results, the function has %d", con.Loc, con.Target, len(con.Results), tt.Len())})
		}
		for i, n := range con.Results {
			v := r.tupleAt(i)
			fixOffsetsResult(&v)
			vars[n] = v
		}
		return
	}
	if len(con.Results) != 1 {
		panic(specErr{fmt.Sprintf("%s: contract of %s names %d results", con.Loc, con.Target, len(con.Results))})
	}
	vars[con.Results[0]] = r
}

func fixOffsetsResult(v *Val) {}

// needsNonNil: parameters of these types must not be nil unless the contract says so.
func needsNonNil(t types.Type) bool {
	if isOpaque(t) != nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return false
		}
		return u.NumMethods() > 0
	case *types.Signature:
		return true
	}
	return false
}

func (x *Exec) conPkg(con *Contract) *types.Package { return x.W.pkgs[con.Pkg] }

func (x *Exec) evalLets(env *SpecEnv, con *Contract) {
	for _, l := range con.Lets {
		env.vars[l.Name] = env.Eval(l.E)
	}
}

func (x *Exec) applyContract(c *fctx, st *State, con *Contract, args []Val, rt types.Type, site ssa.Instruction, key string) (Val, *State) {
	x.used[key] = true
	if con.MustPan {
		return Val{}, nil
	}
	short := strings.ReplaceAll(key, modPath, "mp4")
	vars := x.bindParams(con, args)
	for i, n := range con.Params {
		if needsNonNil(args[i].T) && !con.NilOK[n] && args[i].LV == nil && len(args[i].L) > 0 && (args[i].Fn == nil) {
			x.safe(st, "call "+short+": "+n+" != nil", site.Pos(), Not(Eq(args[i].L[0], IntC(0))))
		}
	}
	x.callChecks(st, con, args, site, key)
	env := &SpecEnv{x: x, vars: vars, st: st, old: st, pkg: x.conPkg(con)}
	x.evalLets(env, con)
	for i, r := range con.Req {
		g := env.Bool(r.E)
		if g == True {
			continue
		}
		x.oblige(st, "pre", fmt.Sprintf("%s#%s", short, clauseName(r, i)), site.Pos(), g)
		x.assume(st.pc, g)
	}
	cbs := false
	for _, a := range args {
		f := a.Fn
		if f == nil && len(a.L) == 1 && a.T != nil {
			f = x.fnvals[a.L[0]]
		}
		if f != nil && x.topC != nil && f.Fn.Parent() == x.topC.fn && len(f.Fn.FreeVars) > 0 {
			cbs = true
			if x.cbKey == nil {
				x.cbKey = map[*ssa.Function]string{}
			}
			x.cbKey[f.Fn] = "(" + types.TypeString(a.T, nil) + ").call"
		}
	}
	if cbs {
		x.cbOblige(st, "before "+calleeName(key), site.Pos())
	}
	old := st.clone()
	st = st.clone()
	x.havocMods(st, env, con)
	// results
	var r Val
	if con.NoAlloc {
	} else if !con.Pure || refResult(rt) {
		nt := NewVar("top", IntS)
		x.assume(True, ILe(st.top, nt))
		st.top = nt
	}
	birthClock++
	r = x.resultVal(st, con, rt, old)
	bindResults(con, vars, r)
	env2 := &SpecEnv{x: x, vars: vars, st: st, old: old, pkg: env.pkg}
	for _, e := range con.Ens {
		if con.ofCaptures(e.E) { // about what only the callee sees
			continue
		}
		x.assume(st.pc, env2.Bool(e.E))
	}
	x.callCaptures(st, con, vars, key)
	x.callHints(st, con, args, vars, key)
	if cbs && !x.inCB {
		x.runCallbacks(st, site)
	}
	return r, st
}

func refResult(t types.Type) bool {
	for _, s := range leafSorts(t) {
		if s == IntS {
			return true
		}
	}
	return false
}

func clauseName(c Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprintf("%d", i)
}

// resultVal makes symbolic results; a result declared unconditionally fresh becomes an allocation.
func (x *Exec) resultVal(st *State, con *Contract, rt types.Type, old *State) Val {
	fresh := map[string]bool{}
	for _, e := range con.Ens {
		if e.E.Op == "call" && e.E.Args[0].Op == "id" && e.E.Args[0].Name == "fresh" && e.E.Args[1].Op == "id" {
			fresh[e.E.Args[1].Name] = true
		}
	}
	mk := func(t types.Type, name string) Val {
		v := x.symVal(t, "r_"+name)
		if fresh[name] {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice:
				v.L[0] = x.freshObj(st, "r_"+name)
			case *types.Interface:
				v.L[1] = x.freshObj(st, "r_"+name)
			}
		}
		fixOffsets(&v)
		x.wf(st, v)
		return v
	}
	if tt, ok := rt.(*types.Tuple); ok {
		v := Val{T: rt}
		for i := 0; i < tt.Len(); i++ {
			n := fmt.Sprint(i)
			if i < len(con.Results) {
				n = con.Results[i]
			}
			e := mk(tt.At(i).Type(), n)
			v.L = append(v.L, e.L...)
		}
		return v
	}
	n := "0"
	if len(con.Results) > 0 {
		n = con.Results[0]
	}
	return mk(rt, n)
}

// modLocsOf evaluates a modifies item.
func (env *SpecEnv) modLocs(e *Expr) []modLoc {
	x := env.x
	if e.Op == "cond" {
		serr(e, "conditional modifies unsupported")
	}
	if e.Op == "call" && e.Args[0].Op == "id" {
		switch n := e.Args[0].Name; n {
		case "elems":
			a := env.Eval(e.Args[1])
			et := elemOf(a.T)
			var out []modLoc
			if isAggr(et) {
				for _, l := range locsAt(et, elemRef(et, a.arr(), BVc(0, 64))) {
					out = append(out, modLoc{key: l.key, obj: a.arr(), elems: true})
				}
				return out
			}
			ss := leafSorts(et)
			for k := range ss {
				key := keyFor("S:"+tname(et), et, k, len(ss))
				x.hget(env.st, key, ArrS(IntS, rowSort(ss[k])))
				out = append(out, modLoc{key: key, obj: a.arr()})
			}
			return out
		case "heap": // heap(T): every cell of objects of struct type T
			t := env.typ(e.Args[1].typeText(), e)
			var out []modLoc
			for _, l := range locsAt(t, IntC(0)) {
				out = append(out, modLoc{key: l.key, all: true})
			}
			return out
		case "all": // all(g): the whole ghost map
			g := x.W.ghosts[e.Args[1].Name]
			if g == nil {
				serr(e, "all(%s): no such ghost", e.Args[1].Name)
			}
			rt := x.W.resolveType(g.Ret, x.W.pkgs[g.Pkg])
			ss := leafSorts(rt)
			var out []modLoc
			for k := range ss {
				out = append(out, modLoc{key: keyFor("g:"+g.Name, rt, k, len(ss)), all: true})
			}
			return out
		case "target": // target(i): the object an interface value of known dynamic type points to
			a := env.Eval(e.Args[1])
			if !a.L[0].isConst() {
				serr(e, "target: dynamic type not known here")
			}
			t := x.W.idTypes[int(a.L[0].V.Int64())]
			p := x.unbox(a.L[1], t)
			var out []modLoc
			for _, l := range locsAt(elemOf(t), p.term()) {
				out = append(out, modLoc{key: l.key, obj: l.obj, idx: l.idx})
			}
			return out
		case "object": // object(p): everything p points to
			a := env.Eval(e.Args[1])
			var out []modLoc
			for _, l := range locsAt(elemOf(a.T), a.term()) {
				out = append(out, modLoc{key: l.key, obj: l.obj, idx: l.idx})
			}
			return out
		}
		if g := x.W.ghosts[e.Args[0].Name]; g != nil {
			args := e.Args[1:]
			if len(args) == 1 {
				v := env.Eval(args[0])
				rt := v.T
				if len(v.L) == 2 && v.L[0].isConst() {
					if _, ok := v.T.Underlying().(*types.Interface); ok {
						if t, ok := x.W.idTypes[int(v.L[0].V.Int64())]; ok {
							rt = t
							if x.W.repFor(g.Name, t) != nil {
								v = x.unbox(v.L[1], t)
							}
						}
					}
				}
				if r := x.W.repFor(g.Name, rt); r != nil {
					n := *env
					n.vars = map[string]Val{r.Var: v}
					n.names = nil
					n.pkg = x.W.pkgs[r.Pkg]
					return n.modLocs(r.E)
				}
			}
			_, ls := env.ghostArgs(g.Params, args, e, x.W.pkgs[g.Pkg])
			rt := x.W.resolveType(g.Ret, x.W.pkgs[g.Pkg])
			ss := leafSorts(rt)
			var out []modLoc
			for k := range ss {
				m := modLoc{key: keyFor("g:"+g.Name, rt, k, len(ss))}
				if len(ls) > 0 {
					m.obj = ls[0]
				}
				out = append(out, m)
			}
			return out
		}
		if t := x.W.resolveType(e.Args[0].Name, env.pkg); t != nil {
			return env.modLocs(e.Args[1])
		}
	}
	if e.Op == "star" || (e.Op == "unary" && e.Name == "*") {
		a := env.Eval(e.Args[0])
		var out []modLoc
		for _, l := range locsOf(a) {
			out = append(out, modLoc{key: l.key, obj: l.obj, idx: l.idx})
		}
		return out
	}
	p := env.addr(e)
	var out []modLoc
	for _, l := range locsOf(p) {
		m := modLoc{key: l.key, obj: l.obj, idx: l.idx}
		if strings.HasPrefix(l.key, "G:") {
			m.obj = nil
		}
		out = append(out, m)
	}
	return out
}

func (x *Exec) keySort(st *State, key string) *Sort {
	if t, ok := st.heap[key]; ok {
		return t.S
	}
	if t, ok := x.initHeap[key]; ok {
		return t.S
	}
	return nil
}

func (x *Exec) havocMods(st *State, env *SpecEnv, con *Contract) {
	if con.ModAll {
		unsup("modifies * at a call")
	}
	var locs []modLoc
	for _, e := range con.Mod {
		locs = append(locs, x.touchMod(st, env, e)...)
	}
	for _, l := range locs {
		x.havocLoc(st, l)
	}
}

// touchMod evaluates a modifies item, making sure the maps exist in st.
func (x *Exec) touchMod(st *State, env *SpecEnv, e *Expr) []modLoc {
	// evaluating loads creates the maps: do a dummy load for addressable things
	locs := env.modLocs(e)
	for _, l := range locs {
		if _, ok := st.heap[l.key]; !ok {
			s := x.sortOfKey(l.key, env, e)
			x.hget(st, l.key, s)
			if env.old != nil && env.old != st {
				x.hget(env.old, l.key, s)
			}
		}
	}
	return locs
}

// sortOfKey recovers the sort of a heap map from its key.
func (x *Exec) sortOfKey(key string, env *SpecEnv, e *Expr) *Sort {
	if s, ok := x.heapSort[key]; ok {
		return s
	}
	if s, ok := x.W.recHeapSort[key]; ok {
		return s
	}
	if s := keySorts[key]; s != nil {
		return s
	}
	if strings.HasPrefix(key, "g:") {
		n := key[2:]
		k := 0
		if i := strings.Index(n, "#"); i >= 0 {
			fmt.Sscan(n[i+1:], &k)
			n = n[:i]
		}
		g := x.W.ghosts[n]
		pkg := x.W.pkgs[g.Pkg]
		s := leafSorts(x.W.resolveType(g.Ret, pkg))[k]
		for i := len(g.Params) - 1; i >= 0; i-- {
			ps := leafSorts(x.W.resolveType(g.Params[i].Type, pkg))
			for j := len(ps) - 1; j >= 0; j-- {
				s = ArrS(ps[j], s)
			}
		}
		return s
	}
	serr(e, "unknown heap map %s", key)
	return nil
}

func (x *Exec) havocLoc(st *State, l modLoc) {
	s := x.keySort(st, l.key)
	m := x.hget(st, l.key, s)
	birthClock++
	if l.all || l.elems {
		nm := NewVar("hv_"+l.key, s)
		if l.elems {
			et := l.obj
			fi := &frameInfo{prev: m, birth: birthClock - 1, excl: []*Term{App("elemOf!any", IntS, et)}}
			_ = fi
			// references that are not elements of this backing keep their contents
			frameElems[nm] = append(frameElems[nm], elemFrame{m, l.obj})
			x.elemFrameFact(nm, m, l.obj)
		}
		x.noteWriteLoc(st, l)
		st.heap[l.key] = nm
		return
	}
	x.noteWriteLoc(st, l)
	if l.obj == nil {
		st.heap[l.key] = NewVar("hv_"+l.key, s)
		return
	}
	if l.idx != nil {
		row := Select(m, l.obj)
		st.heap[l.key] = Store(m, l.obj, Store(row, l.idx, NewVar("hv_"+l.key, row.S.B)))
		return
	}
	st.heap[l.key] = Store(m, l.obj, NewVar("hv_"+l.key, s.B))
}

type elemFrame struct {
	prev, arr *Term
}

var frameElems = map[*Term][]elemFrame{}

// elemFrameFact: nm equals m at every reference that is not an element of backing arr.
func (x *Exec) elemFrameFact(nm, m, arr *Term) {
	r := BoundVar("r", IntS)
	x.assume(True, Forall([]*Term{r}, Or(Eq(App("elemarr", IntS, r), arr), Eq(selRaw(nm, r), selRaw(m, r))), []*Term{selRaw(nm, r)}))
}

func selRaw(m, i *Term) *Term {
	return intern(Term{Op: "select", S: m.S.B, Args: []*Term{m, i}})
}

func (x *Exec) noteWriteLoc(st *State, l modLoc) {
	if l.all {
		if x.logging > 0 {
			x.writeLog = append(x.writeLog, writeRec{l.key, nil})
		}
		if x.dry > 0 || x.entry == nil || x.noFrame > 0 || x.modAll || x.W.freeGhost[l.key] {
			return
		}
		for _, m := range x.modLocs {
			if m.key == l.key && m.all {
				return
			}
		}
		x.oblige(st, "frame", "write all "+l.key, token.NoPos, False)
		return
	}
	if l.elems {
		if x.logging > 0 {
			x.writeLog = append(x.writeLog, writeRec{l.key, App("elem!*", IntS, l.obj, BVc(0, 64))})
		}
		if x.dry > 0 || x.entry == nil || x.noFrame > 0 || x.modAll {
			return
		}
		opts := []*Term{ILt(x.entryTop, baseTerm(l.obj))}
		for _, m := range x.modLocs {
			if m.key == l.key && m.all {
				return
			}
			if m.key == l.key && m.elems {
				opts = append(opts, Eq(m.obj, l.obj))
			}
		}
		x.oblige(st, "frame", "write elems "+l.key, token.NoPos, Or(opts...))
		return
	}
	x.noteWrite(st, l.key, l.obj)
}
