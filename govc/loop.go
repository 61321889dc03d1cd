package main

// Loops: concrete unrolling, or invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxConcrete = 80

func (x *Exec) handleLoop(c *fctx, l *loop, es []edge) []edge {
	var sp *LoopSpec
	if c.lspec != nil {
		sp = c.lspec.Loops[l.ord]
	}
	x.loopsSeen[fmt.Sprintf("%s#%d", c.fn.RelString(nil), l.ord)] = true
	st0, ph0 := x.mergeEdges(es, countPhis(l.header))
	if sp != nil && sp.Unroll > 0 {
		out, ok := x.unroll(c, l, st0, ph0, sp.Unroll, true)
		if ok {
			return out
		}
	}
	if sp == nil || (len(sp.Inv) == 0 && sp.Unroll == 0) {
		sn := x.snapshot()
		nr := len(c.rets)
		stc := st0.clone()
		if out, ok := x.unroll(c, l, stc, ph0, maxConcrete, false); ok {
			return out
		}
		x.restore(sn)
		c.rets = c.rets[:nr]
	}
	return x.invLoop(c, l, sp, st0, ph0)
}

// liveOut: values defined in the loop and used outside of it.
func liveOut(fn *ssa.Function, l *loop) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (x *Exec) keepLive(c *fctx, lv []ssa.Value, es []edge) {
	for i := range es {
		st := es[i].st
		for _, v := range lv {
			r, ok := c.env[v]
			if !ok {
				continue
			}
			if st.vals == nil {
				st.vals = map[ssa.Value]Val{}
			} else if _, has := st.vals[v]; has {
				continue
			}
			st.vals[v] = r
		}
	}
}

// unroll executes the loop iteration by iteration. Without force it only succeeds when the header condition folds.
func (x *Exec) unroll(c *fctx, l *loop, st *State, ph []Val, max int, force bool) ([]edge, bool) {
	lv := liveOut(c.fn, l)
	var out []edge
	for it := 0; ; it++ {
		if it > max {
			if force {
				x.oblige(st, "unwind", fmt.Sprintf("%s loop %d", shortFn(c.fn), l.ord), loopPos(l), False)
				return out, true
			}
			return nil, false
		}
		x.setPhis(c, l.header, ph, st)
		var start []edge
		for _, e := range x.execBlock(c, l.header, st) {
			start = append(start, e)
		}
		if !force {
			// header must decide its own exit
			if _, isIf := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !isIf {
				return nil, false
			}
			inn, outn := 0, 0
			for _, e := range start {
				if l.blocks[e.to] {
					inn++
				} else {
					outn++
				}
			}
			if inn > 0 && outn > 0 {
				return nil, false
			}
			if outn == 0 && l.blocks[l.header.Succs[0]] && l.blocks[l.header.Succs[1]] {
				return nil, false
			}
		}
		var ins []edge
		for _, e := range start {
			if e.to == l.header {
				ins = append(ins, e)
			} else if l.blocks[e.to] {
				ins = append(ins, e)
			} else {
				x.keepLive(c, lv, []edge{e})
				out = append(out, e)
			}
		}
		if len(ins) == 0 {
			return out, true
		}
		region := map[*ssa.BasicBlock]bool{}
		for b := range l.blocks {
			if b != l.header {
				region[b] = true
			}
		}
		var back []edge
		var body []edge
		for _, e := range ins {
			if e.to == l.header {
				back = append(back, e)
			} else {
				body = append(body, e)
			}
		}
		if len(body) > 0 {
			bk, ex := x.runRegionTo(c, region, l.header, body)
			back = append(back, bk...)
			x.keepLive(c, lv, ex)
			out = append(out, ex...)
		}
		if len(back) == 0 {
			return out, true
		}
		st, ph = x.mergeEdges(back, countPhis(l.header))
		if st.pc == False {
			return out, true
		}
	}
}

// runRegionTo is runRegion for a loop body without its header.
func (x *Exec) runRegionTo(c *fctx, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, start []edge) (back, exits []edge) {
	b, e := x.runRegion(c, region, header, start)
	return b, e
}

// ---- invariants ----

type hvKind int

type leafPlan struct {
	inv   bool // unchanged by the loop: keep the entry value
	alloc bool // reference: the entry value or an object allocated by an earlier iteration
}

type keyPlan struct {
	objs  []*Term // loop-invariant objects written
	elems []*Term // backings whose elements are written
	all   bool
}

func (x *Exec) invLoop(c *fctx, l *loop, sp *LoopSpec, st0 *State, ph0 []Val) []edge {
	phis := phisOf(l.header)
	name := fmt.Sprintf("%s loop %d", shortFn(c.fn), l.ord)
	n := len(phis)
	plan := make([][]leafPlan, n)
	for i, v := range ph0 {
		plan[i] = make([]leafPlan, len(v.L))
		for k := range v.L {
			plan[i][k] = leafPlan{inv: true, alloc: v.L[k].S == IntS}
		}
	}
	written := map[string]*keyPlan{}
	cellAlloc := map[string]bool{} // key+obj id -> alloc plan for reference cells
	region := map[*ssa.BasicBlock]bool{}
	for b := range l.blocks {
		region[b] = true
	}
	// fixpoint of dry runs
	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop analysis does not converge in %s", name)
		}
		sn := x.snapshot()
		nr := len(c.rets)
		x.dry++
		x.logging++
		nw := len(x.writeLog)
		st, ph, hv := x.havocLoop(c, l, st0, ph0, plan, written, cellAlloc)
		lb := hv.birth
		// user invariants are assumed during the analysis as well (they only prune)
		x.setPhisFor(c, l, ph, st)
		x.tickVar(c, l, st)
		x.assumeInvs(c, l, sp, st, ph, ph0, st0)
		back, _ := x.runBody(c, l, region, st, ph)
		log := append([]writeRec{}, x.writeLog[nw:]...)
		x.writeLog = x.writeLog[:nw]
		x.logging--
		x.dry--
		changed := false
		dep := func(t *Term) bool { return dependsOn(t, hv) }
		// phis
		bodyFreshUse := map[*Term]int{}
		for i := range phis {
			seen := map[*Term]bool{}
			for _, e := range back {
				for _, lf := range e.phis[i].L {
					if lf.S == IntS {
						for _, q := range iteLeaves(lf) {
							if q.Op == "fresh" && q.I > lb && !seen[q] {
								seen[q] = true
								bodyFreshUse[q]++
							}
						}
					}
				}
			}
		}
		for i := range phis {
			for k := range ph0[i].L {
				for _, e := range back {
					if e.phis[i].LV != nil {
						unsup("interior pointer phi in loop")
					}
					t := e.phis[i].L[k]
					if plan[i][k].inv && t != ph[i].L[k] {
						plan[i][k].inv = false
						changed = true
					}
					if plan[i][k].alloc && !plan[i][k].inv {
						for _, q := range iteLeaves(t) {
							if q == ph0[i].L[k] || q == hv.phFresh[[2]int{i, k}] || inLeaves(ph0[i].L[k], q) {
								continue
							}
							if q.Op == "fresh" && q.I > lb && bodyFreshUse[q] == 1 {
								continue
							}
							plan[i][k].alloc = false
							changed = true
							break
						}
					}
				}
			}
		}
		// heap writes
		for _, wr := range log {
			kp := written[wr.key]
			if kp == nil {
				kp = &keyPlan{}
				written[wr.key] = kp
				changed = true
			}
			if wr.obj == nil {
				if strings.HasPrefix(wr.key, "G:") {
					continue
				}
				if !kp.all {
					kp.all = true
					changed = true
				}
				continue
			}
			for _, ob := range iteLeaves(wr.obj) {
				if ob.Op == "app" && ob.Name == "elem!*" {
					arr := ob.Args[0]
					for _, a := range iteLeaves(arr) {
						changed = x.addElemWrite(kp, a, dep, lb, hv) || changed
					}
					continue
				}
				b := baseOf(ob)
				if b.Op == "fresh" && (b.I > lb || hv.isPhFresh(b)) {
					continue
				}
				if !dep(ob) {
					if !containsTerm(kp.objs, ob) && !kp.all {
						kp.objs = append(kp.objs, ob)
						changed = true
					}
					continue
				}
				if ow := elemOwner(ob); ow != nil {
					for _, a := range iteLeaves(ow) {
						changed = x.addElemWrite(kp, a, dep, lb, hv) || changed
					}
					continue
				}
				if !kp.all {
					debugf("loop %s: write %s at %s depends on loop state\n", name, wr.key, ob.short())
					kp.all = true
					changed = true
				}
			}
		}
		// reference cells written at loop-invariant objects
		for key, kp := range written {
			if kp.all || strings.HasPrefix(key, "S:") {
				continue
			}
			for _, ob := range kp.objs {
				ck := key + "@" + fmt.Sprint(ob.id)
				al, known := cellAlloc[ck]
				s := x.keySort(st0, key)
				if s == nil {
					s = x.heapSort[key]
				}
				if s == nil || s.K != SArr || s.B != IntS || strings.HasPrefix(key, "g:") {
					continue
				}
				if !known {
					cellAlloc[ck] = true
					changed = true
					continue
				}
				if al {
					v0 := Select(x.hget(st0, key, s), ob)
					for _, e := range back {
						m, ok := e.st.heap[key]
						if !ok {
							continue
						}
						for _, q := range iteLeaves(Select(m, ob)) {
							if inLeaves(v0, q) || q == hv.cellFresh[ck] || (q.Op == "fresh" && q.I > lb) {
								continue
							}
							cellAlloc[ck] = false
							changed = true
							break
						}
					}
				}
			}
		}
		x.restore(sn)
		c.rets = c.rets[:nr]
		if !changed {
			break
		}
	}
	// entry obligations
	x.curLoop = append(x.curLoop, loopCtx{l, ph0, ph0, st0})
	x.setPhisFor(c, l, ph0, st0)
	x.setTick(c, l, BVc(0, 64))
	if sp != nil {
		env := x.loopEnv(c, l, sp, st0, ph0, ph0, st0)
		for i, iv := range sp.Inv {
			x.oblige(st0, "inv-init", fmt.Sprintf("%s#%s", name, clauseName(iv, i)), loopPos(l), env.Bool(iv.E))
		}
	}
	x.curLoop = x.curLoop[:len(x.curLoop)-1]
	// arbitrary iteration
	st, ph, hv := x.havocLoop(c, l, st0, ph0, plan, written, cellAlloc)
	// logged writes of this loop for an enclosing analysis
	if x.logging > 0 {
		for key, kp := range written {
			if kp.all || strings.HasPrefix(key, "G:") {
				x.writeLog = append(x.writeLog, writeRec{key, nil})
			}
			for _, o := range kp.objs {
				x.writeLog = append(x.writeLog, writeRec{key, o})
			}
			for _, o := range kp.elems {
				x.writeLog = append(x.writeLog, writeRec{key, App("elem!*", IntS, o, BVc(0, 64))})
			}
		}
	}
	x.setPhisFor(c, l, ph, st)
	tick := x.tickVar(c, l, st)
	x.autoInvs(c, l, st, ph, ph0, st0, true, name)
	x.assumeInvs(c, l, sp, st, ph, ph0, st0)
	var m0 *Term
	if sp != nil && sp.Decr != nil {
		m0 = x.loopEnv(c, l, sp, st, ph, ph0, st0).Int64(sp.Decr.E)
	} else if !isCounted(l) {
		x.notes["termination not shown: "+name] = true
	}
	if sp != nil {
		env := x.loopEnv(c, l, sp, st, ph, ph0, st0)
		for i, u := range sp.Entry {
			x.useLemma(env, u, st, name+fmt.Sprintf(" entry %d", i))
		}
	}
	x.hvCur = append(x.hvCur, hv)
	head := st.clone()
	back, exits := x.runBody(c, l, region, st, ph)
	x.hvCur = x.hvCur[:len(x.hvCur)-1]
	lvs := liveOut(c.fn, l)
	savedEnv := map[ssa.Value]Val{}
	for _, v := range lvs {
		if r, ok := c.env[v]; ok {
			savedEnv[v] = r
		}
	}
	for _, e := range back {
		if e.st.pc == False {
			continue
		}
		x.setPhisFor(c, l, e.phis, e.st)
		x.setTick(c, l, BVOp("bvadd", tick, BVc(1, 64)))
		// obligations for the reference shapes assumed by the analysis are syntactic (checked above)
		x.autoInvs(c, l, e.st, e.phis, ph0, st0, false, name)
		if sp != nil {
			env := x.loopEnv(c, l, sp, e.st, e.phis, ph0, st0)
			env.head = head
			env.headPhis = ph
			for i, u := range sp.Use {
				x.useLemma(env, u, e.st, name+fmt.Sprintf(" use %d", i))
			}
			for i, iv := range sp.Inv {
				x.oblige(e.st, "inv-pres", fmt.Sprintf("%s#%s", name, clauseName(iv, i)), loopPos(l), env.Bool(iv.E))
			}
			if sp.Decr != nil {
				m1 := env.Int64(sp.Decr.E)
				x.oblige(e.st, "decr", name, loopPos(l), Ult(m1, m0))
			}
		}
	}
	x.setTick(c, l, tick)
	// restore header values for code after the loop
	x.setPhisFor(c, l, ph, st)
	for v, r := range savedEnv {
		c.env[v] = r
	}
	return exits
}

// A loop without a counter of its own gets a ghost one ($k): no execution completes 2^62 iterations.
func (x *Exec) tickVar(c *fctx, l *loop, st *State) *Term {
	if findCounter(l) != nil {
		return BVc(0, 64)
	}
	k := FreshVar("ticks", BV(64))
	x.assume(st.pc, Ult(k, BVc(1<<62, 64)))
	x.setTick(c, l, k)
	return k
}

func (x *Exec) setTick(c *fctx, l *loop, k *Term) {
	if c.ticks == nil {
		c.ticks = map[*loop]*Term{}
	}
	c.ticks[l] = k
}

func (x *Exec) addElemWrite(kp *keyPlan, a *Term, dep func(*Term) bool, lb int, hv *havocInfo) bool {
	b := baseOf(a)
	if b.Op == "fresh" && (b.I > lb || hv.isPhFresh(b)) {
		return false
	}
	if kp.all {
		return false
	}
	if dep(a) {
		kp.all = true
		return true
	}
	if containsTerm(kp.elems, a) {
		return false
	}
	kp.elems = append(kp.elems, a)
	return true
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

func inLeaves(t, q *Term) bool {
	for _, l := range iteLeaves(t) {
		if l == q {
			return true
		}
	}
	return false
}

type havocInfo struct {
	birth     int
	vars      map[*Term]bool
	phFresh   map[[2]int]*Term
	cellFresh map[string]*Term
}

func (h *havocInfo) isPhFresh(t *Term) bool {
	for _, f := range h.phFresh {
		if f == t {
			return true
		}
	}
	for _, f := range h.cellFresh {
		if f == t {
			return true
		}
	}
	return false
}

func dependsOn(t *Term, hv *havocInfo) bool {
	found := false
	collect([]*Term{t}, func(q *Term) {
		if hv.vars[q] {
			found = true
		}
		if q.Op == "fresh" && q.I > hv.birth {
			found = true
		}
		// variables created inside the body (call results, havocs)
		if q.Op == "var" && varBirth[q] > hv.birth {
			found = true
		}
	})
	return found
}

func (x *Exec) havocLoop(c *fctx, l *loop, st0 *State, ph0 []Val, plan [][]leafPlan, written map[string]*keyPlan, cellAlloc map[string]bool) (*State, []Val, *havocInfo) {
	birthClock++
	hv := &havocInfo{birth: birthClock, vars: map[*Term]bool{}, phFresh: map[[2]int]*Term{}, cellFresh: map[string]*Term{}}
	st := st0.clone()
	top0 := st0.top
	newRef := func(nm string) *Term {
		f := FreshRef(nm)
		x.assume(True, ILt(top0, f))
		return f
	}
	var fr []*Term
	phis := phisOf(l.header)
	var ph []Val
	for i, p := range phis {
		v := Val{T: p.Type(), LV: ph0[i].LV}
		allInv := true
		for k, t := range ph0[i].L {
			if plan[i][k].inv {
				v.L = append(v.L, t)
				continue
			}
			allInv = false
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			if plan[i][k].alloc {
				f := newRef("it_" + nm)
				fr = append(fr, f)
				hv.phFresh[[2]int{i, k}] = f
				b := FreshVar("first_"+nm, BoolS)
				hv.vars[b] = true
				v.L = append(v.L, Ite(b, t, f))
				continue
			}
			q := NewVar("l_"+nm, t.S)
			hv.vars[q] = true
			v.L = append(v.L, q)
		}
		if allInv {
			v.Fn = ph0[i].Fn
		}
		ph = append(ph, v)
	}
	for _, key := range sortedKeys(written) {
		kp := written[key]
		s := x.keySort(st0, key)
		if s == nil {
			s = x.heapSort[key]
		}
		if s == nil {
			s = keySorts[key]
		}
		m := x.hget(st, key, s)
		x.hget(st0, key, s)
		if strings.HasPrefix(key, "G:") {
			q := NewVar("l_"+key, s)
			hv.vars[q] = true
			st.heap[key] = q
			continue
		}
		if !kp.all && len(kp.elems) == 0 {
			for _, ob := range kp.objs {
				ck := key + "@" + fmt.Sprint(ob.id)
				var val *Term
				if cellAlloc[ck] {
					f := newRef("itc")
					fr = append(fr, f)
					hv.cellFresh[ck] = f
					b := FreshVar("first", BoolS)
					hv.vars[b] = true
					val = Ite(b, Select(m, ob), f)
				} else {
					val = NewVar("l_"+key, m.S.B)
					hv.vars[val] = true
				}
				m = Store(m, ob, val)
			}
			st.heap[key] = m
			continue
		}
		if !kp.all {
			// elements of loop-invariant backings, and loop-invariant objects
			nm := NewVar("l_"+key, s)
			hv.vars[nm] = true
			fi := &frameInfo{prev: m, birth: hv.birth}
			for _, a := range kp.elems {
				fi.excl = append(fi.excl, App("elem!"+"*", IntS, a, BVc(0, 64)))
			}
			fi.excl = append(fi.excl, kp.objs...)
			fi.elems = kp.elems
			frameOf[nm] = fi
			r := BoundVar("r", IntS)
			conds := []*Term{ILt(top0, App("base", IntS, r))}
			for _, a := range kp.elems {
				conds = append(conds, Eq(App("elemarr", IntS, r), a))
			}
			for _, o := range kp.objs {
				conds = append(conds, Eq(r, o))
			}
			conds = append(conds, Eq(selRaw(nm, r), selRaw(m, r)))
			x.assume(True, Forall([]*Term{r}, Or(conds...), []*Term{selRaw(nm, r)}))
			st.heap[key] = nm
			continue
		}
		nm := NewVar("l_"+key, s)
		hv.vars[nm] = true
		st.heap[key] = nm
	}
	nt := NewVar("top", IntS)
	hv.vars[nt] = true
	x.assume(True, ILe(top0, nt))
	// what memory refers to is allocated
	for _, key := range sortedKeys(written) {
		if strings.HasPrefix(key, "S:*") {
			x.closedRows(st.heap[key], nt)
		}
	}
	for _, f := range fr {
		x.assume(True, ILe(f, nt))
	}
	st.top = nt
	birthClock++
	// everything created from here on is newer
	hv.birth = birthClock
	for _, v := range ph {
		x.wfPhi(st, v)
	}
	return st, ph, hv
}

// closedRows assumes that the pointers held by the rows of a backing-store map (its stored rows, or all of it) are allocated.
func (x *Exec) closedRows(m, top *Term) {
	i := BoundVar("i", BV(64))
	for m.Op == "store" {
		if row := m.Args[2]; row.Op == "var" {
			e := selRaw(row, i)
			x.assumeOnce(Forall([]*Term{i}, ILe(App("base", IntS, e), top), []*Term{e}))
		}
		m = m.Args[0]
	}
	if m.Op == "var" {
		r := BoundVar("r", IntS)
		e := selRaw(selRaw(m, r), i)
		x.assumeOnce(Forall([]*Term{r, i}, ILe(App("base", IntS, e), top), []*Term{e}))
	}
}

func (x *Exec) wfPhi(st *State, v Val) {
	if v.LV != nil {
		return
	}
	x.wf(st, v)
}

func (x *Exec) setPhisFor(c *fctx, l *loop, ph []Val, st *State) {
	x.setPhis(c, l.header, ph, st)
}

func (x *Exec) runBody(c *fctx, l *loop, region map[*ssa.BasicBlock]bool, st *State, ph []Val) (back, exits []edge) {
	// execute the header, then the rest
	x.inBody++
	defer func() { x.inBody-- }()
	var start []edge
	x.setPhis(c, l.header, ph, st)
	for _, e := range x.execBlock(c, l.header, st) {
		switch {
		case e.to == l.header:
			back = append(back, e)
		case region[e.to]:
			start = append(start, e)
		default:
			exits = append(exits, e)
		}
	}
	r2 := map[*ssa.BasicBlock]bool{}
	for b := range region {
		if b != l.header {
			r2[b] = true
		}
	}
	if len(start) > 0 {
		bk, ex := x.runRegion(c, r2, l.header, start)
		back = append(back, bk...)
		exits = append(exits, ex...)
	}
	return
}

type loopCtx struct {
	l   *loop
	ph  []Val
	ph0 []Val
	st0 *State
}

// counter recognises  phi = [init, phi+1]  controlled by  phi(+1) < bound.
type counter struct {
	idx   int
	plus1 bool // range loop: condition is on phi+1
	bound ssa.Value
	sgn   bool
}

func findCounter(l *loop) *counter {
	last := l.header.Instrs[len(l.header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	if !l.blocks[l.header.Succs[0]] {
		return nil
	}
	for i, p := range phisOf(l.header) {
		if !isInteger(p.Type()) {
			continue
		}
		// back edge values must be phi + 1
		var inc *ssa.BinOp
		good := true
		for k, pred := range l.header.Preds {
			if !l.blocks[pred] {
				continue
			}
			b, ok := p.Edges[k].(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != p {
				good = false
				break
			}
			if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
				good = false
				break
			}
			inc = b
		}
		if !good || inc == nil {
			continue
		}
		x := stripConv(cmp.X)
		if x == ssa.Value(p) {
			return &counter{idx: i, bound: cmp.Y, sgn: isSigned(p.Type())}
		}
		if cmp.X == ssa.Value(inc) {
			return &counter{idx: i, plus1: true, bound: cmp.Y, sgn: isSigned(p.Type())}
		}
	}
	return nil
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch c := v.(type) {
		case *ssa.Convert:
			if isInteger(c.Type()) && isInteger(c.X.Type()) {
				v = c.X
				continue
			}
		case *ssa.ChangeType:
			v = c.X
			continue
		}
		return v
	}
}

func inLoop(l *loop, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.blocks[in.Block()]
}

func isCounted(l *loop) bool {
	ct := findCounter(l)
	if ct == nil {
		return false
	}
	if inLoop(l, ct.bound) {
		// len(x) evaluated in the header of something defined outside is fine
		if c, ok := ct.bound.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && !inLoop(l, c.Call.Args[0]) {
				return true
			}
		}
		return false
	}
	return true
}

// autoInvs: facts about counters. assume=true assumes them, otherwise they are obligations (discharged like any other).
func (x *Exec) autoInvs(c *fctx, l *loop, st *State, ph, ph0 []Val, st0 *State, assume bool, name string) {
	ct := findCounter(l)
	if ct == nil {
		return
	}
	p := ph[ct.idx].L[0]
	p0 := ph0[ct.idx].L[0]
	w := p.S.W
	lower := cmpT(ct.sgn, true, p0, p)
	var upper *Term = True
	if !inLoop(l, ct.bound) {
		b := x.val(c, st0, ct.bound).term()
		// the comparison may be at a converted (wider) type: only when widths agree
		if b.S.W == w {
			if ct.plus1 {
				// -1 <= p < bound   (or still at the start)
				upper = Or(Eq(p, p0), cmpT(ct.sgn, false, p, b))
			} else {
				upper = Or(Eq(p, p0), cmpT(ct.sgn, true, p, b))
			}
		}
	}
	if assume {
		x.assume(st.pc, lower)
		x.assume(st.pc, upper)
	} else {
		x.oblige(st, "inv-pres", name+"#counter", loopPos(l), And(lower, upper))
	}
}

// ---- invariants in source terms ----

func (x *Exec) loopEnv(c *fctx, l *loop, sp *LoopSpec, st *State, ph, ph0 []Val, st0 *State) *SpecEnv {
	env := &SpecEnv{x: x, vars: map[string]Val{}, st: st, old: x.entryFor(c, st0), pkg: nil}
	if c.lspec != nil {
		env.pkg = x.W.pkgs[c.lspec.Pkg]
		for k, v := range c.pvars {
			env.vars[k] = v
		}
		for k, v := range x.vars {
			if x.contract == c.lspec {
				if _, ok := env.vars[k]; !ok {
					env.vars[k] = v
				}
			}
		}
	} else if c.fn.Pkg != nil {
		env.pkg = c.fn.Pkg.Pkg
	}
	env.st0 = st0
	phis := phisOf(l.header)
	if c.lspec != nil {
		env.shadow(c, l.header)
	}
	env.names = func(n string) (Val, bool) {
		if strings.HasPrefix(n, "$k") {
			return x.iterCount(c, l, n, ph, ph0)
		}
		if strings.HasPrefix(n, "$init_") { // value of a loop variable before the loop
			for i, p := range phis {
				if p.Comment == n[6:] {
					return ph0[i], true
				}
			}
		}
		for i, p := range phis {
			if p.Comment == n {
				v := ph[i]
				v.T = p.Type()
				return v, true
			}
		}
		// an addressed local
		if a, ok := c.addrs[n]; ok {
			v := x.loadQ(st, a, true)
			return v, true
		}
		// phis of enclosing loops and values defined before the loop
		if q, ok := c.nameAt(n, l.header); ok {
			v := x.val(c, st, q)
			v.T = q.Type()
			return v, true
		}
		if v, ok := c.names[n]; ok {
			return v, true
		}
		return Val{}, false
	}
	return env
}

// shadow: a parameter that is assigned to denotes its current value, and its entry value under old().
func (env *SpecEnv) shadow(c *fctx, at *ssa.BasicBlock) {
	for i, p := range c.fn.Params {
		if i >= len(c.lspec.Params) {
			break
		}
		n := c.lspec.Params[i]
		_, assigned := c.addrs[p.Name()]
		for b := at; b != nil; b = b.Idom() {
			for _, q := range phisOf(b) {
				if q.Comment == p.Name() {
					assigned = true
				}
			}
			if v, ok := c.nvals[p.Name()][b]; ok && v != ssa.Value(p) {
				assigned = true
			}
		}
		if assigned && n == p.Name() {
			if env.oldVars == nil {
				env.oldVars = map[string]Val{}
			}
			env.oldVars[n] = env.vars[n]
			delete(env.vars, n)
		}
	}
}

// iterCount: $k — completed iterations of this loop; $kN — of loop N (an enclosing one).
func (x *Exec) iterCount(c *fctx, l *loop, n string, ph, ph0 []Val) (Val, bool) {
	tl := l
	if n != "$k" {
		var ord int
		fmt.Sscan(n[2:], &ord)
		tl = nil
		for _, o := range c.loops.loops {
			if o.ord == ord {
				tl = o
			}
		}
		if tl == nil {
			return Val{}, false
		}
	}
	ct := findCounter(tl)
	if ct == nil {
		if t := c.ticks[tl]; t != nil {
			return mkVal(intT, t), true
		}
		return Val{}, false
	}
	var v, v0 *Term
	if tl == l {
		v, v0 = ph[ct.idx].L[0], ph0[ct.idx].L[0]
	} else {
		p := phisOf(tl.header)[ct.idx]
		e, ok := c.env[p]
		if !ok {
			return Val{}, false
		}
		v = e.L[0]
		v0 = nil
		for k, pred := range tl.header.Preds {
			if !tl.blocks[pred] {
				if kc, ok := p.Edges[k].(*ssa.Const); ok {
					v0 = x.constVal(kc).L[0]
				}
			}
		}
		if v0 == nil {
			return Val{}, false
		}
	}
	d := BVOp("bvsub", v, v0)
	if d.S.W < 64 {
		d = ZExt(d, 64)
	}
	return mkVal(intT, d), true
}

func (x *Exec) entryFor(c *fctx, st0 *State) *State {
	if c.entry != nil {
		return c.entry
	}
	if x.entry != nil {
		return x.entry
	}
	return st0
}

func (x *Exec) assumeInvs(c *fctx, l *loop, sp *LoopSpec, st *State, ph, ph0 []Val, st0 *State) {
	if sp == nil {
		return
	}
	env := x.loopEnv(c, l, sp, st, ph, ph0, st0)
	for _, iv := range sp.Inv {
		x.assume(st.pc, env.Bool(iv.E))
	}
}

// useLemma instantiates a lemma: its requires become obligations, its ensures are assumed.
func (x *Exec) useLemma(env *SpecEnv, u Clause, st *State, name string) {
	e := u.E
	var guard *Term = True
	if e.Op == "binary" && e.Name == "==>" {
		guard = env.Bool(e.Args[0])
		e = e.Args[1]
	}
	if e.Op != "call" || e.Args[0].Op != "id" {
		// a plain fact to prove and keep (assert)
		g := env.Bool(u.E)
		x.oblige(st, "assert", name, token.NoPos, g)
		x.assume(st.pc, g)
		return
	}
	var lm *Contract
	for _, l := range x.W.lemmas {
		if l.Target == e.Args[0].Name {
			lm = l
		}
	}
	if lm == nil {
		g := env.Bool(u.E)
		x.oblige(st, "assert", name, token.NoPos, g)
		x.assume(st.pc, g)
		return
	}
	if x.lemmaIdx >= 0 {
		for i, l := range x.W.lemmas {
			if l == lm && i >= x.lemmaIdx && !(i == x.lemmaIdx && x.allowSelf) {
				serr(e, "lemma %s is not proved before its use", lm.Target)
			}
		}
	}
	x.used["lemma "+lm.Target] = true
	vars := map[string]Val{}
	pkg := x.W.pkgs[lm.Pkg]
	if len(e.Args)-1 != len(lm.Params) {
		serr(e, "arity of lemma %s", lm.Target)
	}
	for i, p := range lm.Params {
		v := env.Eval(e.Args[i+1])
		vars[p] = x.adaptArg(v, lm.PTypes[i], pkg, e)
	}
	le := &SpecEnv{x: x, vars: vars, st: env.st, old: env.old, pkg: pkg}
	x.evalLets(le, lm)
	s := st.clone()
	s.pc = And(st.pc, guard)
	for i, r := range lm.Req {
		x.oblige(s, "pre", fmt.Sprintf("%s: lemma %s#%d", name, lm.Target, i), token.NoPos, le.Bool(r.E))
	}
	for _, r := range lm.Ens {
		x.assume(s.pc, le.Bool(r.E))
	}
}

var _ = types.Identical
