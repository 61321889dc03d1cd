package main

// Merging symbolic execution over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Func    string
	Name    string
	Kind    string // post, pre, inv-init, inv-pres, decr, safe, frame, unwind, lemma, cover
	Pos     string
	Goal    *Term
	NAss    int
	Cover   bool
	Assumes []*Term // filled in at the end
	// result
	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Model  string
	Detail string
}

type Exec struct {
	inBody    int            // loop bodies being executed
	capVal    map[string]Val // captured results
	W         *World
	fnName    string
	contract  *Contract
	assumes   []*Term
	once      map[*Term]bool
	onceLog   []*Term
	obls      []*Obl
	initHeap  map[string]*Term
	heapSort  map[string]*Sort
	wfSeen    map[*Term]*Term
	wfLog     []*Term
	fnvals    map[*Term]*FuncVal
	dry       int
	writeLog  []writeRec
	logging   int
	entry     *State
	entryTop  *Term
	entryBirt int
	modLocs   []modLoc
	modAll    bool
	vars      map[string]Val // contract parameter bindings
	callStack []*ssa.Function
	nsafe     int
	oblSeen   map[string]int
	notes     map[string]bool
	inlined   map[string]bool
	used      map[string]bool // contracts used
	deferRet  bool
	steps     int
	loopsSeen map[string]bool
	noFrame   int
	curLoop   []loopCtx
	hvCur     []*havocInfo
	lemmaIdx  int
	allowSelf bool
	fvCells   []*Term
	decr0     *Term
	trace     bool
	topC      *fctx
	checked   map[*Check]bool
	inCB      bool
	cbKey     map[*ssa.Function]string
}

type writeRec struct {
	key string
	obj *Term
}

type modLoc struct {
	key   string
	obj   *Term
	idx   *Term
	all   bool // whole map
	elems bool // refs that are elements of arr obj
}

func newExec(w *World) *Exec {
	return &Exec{W: w, once: map[*Term]bool{}, initHeap: map[string]*Term{}, heapSort: map[string]*Sort{}, wfSeen: map[*Term]*Term{},
		fnvals: map[*Term]*FuncVal{}, oblSeen: map[string]int{}, notes: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, loopsSeen: map[string]bool{}, lemmaIdx: -1}
}

type snap struct {
	na, no, nw int
	once       map[*Term]bool
	wf         map[*Term]*Term
	obs        map[string]int
}

func (x *Exec) snapshot() snap {
	o := make(map[*Term]bool, len(x.once))
	for k, v := range x.once {
		o[k] = v
	}
	wf := make(map[*Term]*Term, len(x.wfSeen))
	for k, v := range x.wfSeen {
		wf[k] = v
	}
	obs := make(map[string]int, len(x.oblSeen))
	for k, v := range x.oblSeen {
		obs[k] = v
	}
	return snap{len(x.assumes), len(x.obls), len(x.writeLog), o, wf, obs}
}
func (x *Exec) restore(s snap) {
	x.assumes = x.assumes[:s.na]
	x.obls = x.obls[:s.no]
	x.once = s.once
	x.wfSeen = s.wf
	x.oblSeen = s.obs
}

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) {
	g := Implies(st.pc, goal)
	if x.dry > 0 {
		return
	}
	full := kind + ":" + name
	x.oblSeen[full]++
	if n := x.oblSeen[full]; n > 1 {
		full = fmt.Sprintf("%s~%d", full, n)
	}
	x.obls = append(x.obls, &Obl{Func: x.fnName, Name: full, Kind: kind, Pos: x.W.pos(pos), Goal: g, NAss: len(x.assumes)})
}

// safety obligation followed by assuming it
func (x *Exec) safe(st *State, what string, pos token.Pos, goal *Term) {
	if goal == True {
		return
	}
	x.oblige(st, "safe", what, pos, goal)
	x.assume(st.pc, goal)
	// goals keep later simplification honest: nothing else to do
}

func (x *Exec) noteWrite(st *State, key string, obj *Term) {
	if x.logging > 0 {
		x.writeLog = append(x.writeLog, writeRec{key, obj})
	}
	if x.dry > 0 || x.entry == nil || x.noFrame > 0 {
		return
	}
	if strings.HasPrefix(key, "g:") && x.W.freeGhost[key] {
		return
	}
	if x.modAll {
		return
	}
	var opts []*Term
	if obj != nil {
		b := baseOf(obj)
		if b.Op == "fresh" && b.I > x.entryBirt {
			return
		}
		opts = append(opts, ILt(x.entryTop, baseTerm(obj)))
	}
	for _, m := range x.modLocs {
		if m.key != key {
			continue
		}
		if m.all {
			return
		}
		if m.elems {
			if ow := elemOwner(obj); ow != nil {
				opts = append(opts, Eq(ow, m.obj))
			}
			continue
		}
		if obj == nil || m.obj == nil {
			if obj == nil && m.obj == nil {
				return
			}
			continue
		}
		opts = append(opts, Eq(obj, m.obj))
	}
	g := Or(opts...)
	if g == True {
		return
	}
	x.oblige(st, "frame", "write "+key, token.NoPos, g)
}

// elemOwner: the backing array a sub-object of a slice element belongs to.
func elemOwner(t *Term) *Term {
	for t != nil && t.Op == "app" && strings.HasPrefix(t.Name, "sub!") {
		t = t.Args[0]
	}
	if t != nil && t.Op == "app" && strings.HasPrefix(t.Name, "elem!") {
		return t.Args[0]
	}
	return nil
}

// ---- function contexts ----

type fctx struct {
	fn    *ssa.Function
	env   map[ssa.Value]Val
	rets  []retRec
	loops *loopInfo
	names map[string]Val
	nvals map[string]map[*ssa.BasicBlock]ssa.Value
	addrs map[string]Val
	pvars map[string]Val
	lspec *Contract
	depth int
	site  string
	entry *State
	ticks map[*loop]*Term // ghost iteration counters
	cur   *ssa.BasicBlock
}

type retRec struct {
	st  *State
	val Val
	pos token.Pos
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     []Val
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	ord    int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	rpo      []*ssa.BasicBlock
	loops    []*loop
}

var loopMemo = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := loopMemo[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	// ordinal by source position of the header/its body: use RPO index of header
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range li.rpo {
		idx[b] = i
	}
	sort.Slice(li.loops, func(i, j int) bool {
		pi, pj := loopPos(li.loops[i]), loopPos(li.loops[j])
		if pi != pj {
			return pi < pj
		}
		if a, b := len(li.loops[i].blocks), len(li.loops[j].blocks); a != b {
			return a > b
		}
		return idx[li.loops[i].header] < idx[li.loops[j].header]
	})
	for i, l := range li.loops {
		l.ord = i
		for _, m := range li.loops {
			if m != l && m.blocks[l.header] {
				if l.parent == nil || l.parent.blocks[m.header] {
					l.parent = m
				}
			}
		}
	}
	loopMemo[fn] = li
	return li
}

// loopPos: smallest valid source position in the loop
func loopPos(l *loop) token.Pos {
	var best token.Pos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			p := in.Pos()
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if d, ok := in.(*ssa.DebugRef); ok {
				p = d.Expr.Pos()
			}
			if p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

type abortVC struct{ msg string }

func (x *Exec) runFunc(fn *ssa.Function, args []Val, bind []Val, st *State, depth int) (Val, *State) {
	rets, _ := x.runFuncRets(fn, args, bind, st, depth)
	return x.mergeRets(fn, rets)
}

func (x *Exec) mergeRets(fn *ssa.Function, rets []retRec) (Val, *State) {
	rt := resultType(fn.Signature)
	if len(rets) == 0 {
		return Val{T: rt}, nil // never returns
	}
	if len(rets) == 1 {
		return rets[0].val, rets[0].st
	}
	var es []edge
	for _, r := range rets {
		es = append(es, edge{st: r.st, phis: []Val{r.val}})
	}
	st, ph := x.mergeEdges(es, 1)
	return ph[0], st
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) runFuncRets(fn *ssa.Function, args []Val, bind []Val, st *State, depth int) ([]retRec, *fctx) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	for _, f := range x.callStack {
		if f == fn {
			unsup("recursive call of %s needs a contract", fn)
		}
	}
	if len(x.callStack) > 40 {
		unsup("call depth")
	}
	x.callStack = append(x.callStack, fn)
	defer func() { x.callStack = x.callStack[:len(x.callStack)-1] }()
	c := &fctx{fn: fn, env: map[ssa.Value]Val{}, loops: loopsOf(fn), names: map[string]Val{}, nvals: map[string]map[*ssa.BasicBlock]ssa.Value{}, addrs: map[string]Val{}, depth: depth}
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		c.env[p] = a
		c.names[p.Name()] = a
	}
	for i, fv := range fn.FreeVars {
		c.env[fv] = bind[i]
		c.addrs[fv.Name()] = bind[i]
	}
	c.lspec = x.W.contractFor(fn)
	if c.lspec != nil {
		c.pvars = map[string]Val{}
		for i, n := range c.lspec.Params {
			if i < len(args) {
				c.pvars[n] = c.env[fn.Params[i]]
			}
		}
	}
	if depth == 0 && x.topC == nil {
		x.topC = c
	}
	saved := st.defers
	st.defers = nil
	c.entry = st.clone()
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range c.loops.rpo {
		region[b] = true
	}
	x.runRegion(c, region, nil, []edge{{to: fn.Blocks[0], st: st}})
	for i := range c.rets {
		c.rets[i].st.defers = saved
	}
	return c.rets, c
}

// runRegion executes the blocks of region starting from the given edges. If header is non-nil it is the loop header
// that closes the region: edges back to it are returned separately.
func (x *Exec) runRegion(c *fctx, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, start []edge) (back, exits []edge) {
	pend := map[*ssa.BasicBlock][]edge{}
	for _, e := range start {
		pend[e.to] = append(pend[e.to], e)
	}
	first := true
	for _, b := range c.loops.rpo {
		if !region[b] || len(pend[b]) == 0 {
			continue
		}
		es := pend[b]
		pend[b] = nil
		route := func(e edge) {
			if header != nil && e.to == header {
				back = append(back, e)
			} else if region[e.to] {
				pend[e.to] = append(pend[e.to], e)
			} else {
				exits = append(exits, e)
			}
		}
		if l := c.loops.byHeader[b]; l != nil && b != header {
			for _, e := range x.handleLoop(c, l, es) {
				route(e)
			}
			continue
		}
		_ = first
		nphi := countPhis(b)
		st, ph := x.mergeEdges(es, nphi)
		x.setPhis(c, b, ph, st)
		for _, e := range x.execBlock(c, b, st) {
			route(e)
		}
	}
	return
}

func countPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		}
	}
	return n
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

func (x *Exec) setPhis(c *fctx, b *ssa.BasicBlock, vals []Val, st *State) {
	for i, p := range phisOf(b) {
		if st.vals != nil {
			delete(st.vals, p)
		}
		v := vals[i]
		v.T = p.Type()
		c.env[p] = v
		if p.Comment != "" {
			if c.nvals[p.Comment][b] == nil {
				c.setName(p.Comment, b, p)
			}
		}
	}
}

func (x *Exec) mkEdge(c *fctx, from, to *ssa.BasicBlock, st *State) edge {
	e := edge{from: from, to: to, st: st}
	pi := -1
	// a block can be the predecessor twice (If with equal targets)
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, p := range phisOf(to) {
		e.phis = append(e.phis, x.val(c, st, p.Edges[pi]))
	}
	return e
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

// mergeEdges merges the states; returns merged phi values.
func (x *Exec) mergeEdges(es []edge, nphi int) (*State, []Val) {
	if len(es) == 1 {
		return es[0].st, es[0].phis
	}
	// common path condition
	common := map[*Term]bool{}
	for _, t := range conjuncts(es[0].st.pc) {
		common[t] = true
	}
	for _, e := range es[1:] {
		s := map[*Term]bool{}
		for _, t := range conjuncts(e.st.pc) {
			s[t] = true
		}
		for t := range common {
			if !s[t] {
				delete(common, t)
			}
		}
	}
	var comm []*Term
	for _, t := range conjuncts(es[0].st.pc) {
		if common[t] {
			comm = append(comm, t)
		}
	}
	var rest []*Term
	for _, e := range es {
		var r []*Term
		for _, t := range conjuncts(e.st.pc) {
			if !common[t] {
				r = append(r, t)
			}
		}
		rest = append(rest, And(r...))
	}
	out := &State{heap: map[string]*Term{}}
	out.pc = And(append(comm, orSimp(rest))...)
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	n := len(es)
	// choose conditions: ite(rest0, v0, ite(rest1, v1, ... vn-1))
	mix := func(vs []*Term) *Term {
		r := vs[n-1]
		for i := n - 2; i >= 0; i-- {
			r = Ite(rest[i], vs[i], r)
		}
		return r
	}
	for _, k := range sortedKeys(keys) {
		var vs []*Term
		same := true
		for _, e := range es {
			v, ok := e.st.heap[k]
			if !ok {
				v = x.initHeap[k]
			}
			vs = append(vs, v)
			if v != vs[0] {
				same = false
			}
		}
		if same {
			out.heap[k] = vs[0]
		} else {
			out.heap[k] = mix(vs)
		}
	}
	var tops []*Term
	for _, e := range es {
		tops = append(tops, e.st.top)
	}
	out.top = mix(tops)
	// registers
	if es[0].st.vals != nil {
		for v, v0 := range es[0].st.vals {
			all := []Val{v0}
			ok := true
			for _, e := range es[1:] {
				o, has := e.st.vals[v]
				if !has || len(o.L) != len(v0.L) || (o.LV != nil) != (v0.LV != nil) {
					ok = false
					break
				}
				all = append(all, o)
			}
			if !ok {
				continue
			}
			nv := Val{T: v0.T, Fn: v0.Fn}
			if v0.LV != nil {
				for _, o := range all {
					if *o.LV != *v0.LV {
						ok = false
					}
				}
				if !ok {
					continue
				}
				nv.LV = v0.LV
			}
			for k := range v0.L {
				var vs []*Term
				for _, o := range all {
					vs = append(vs, o.L[k])
				}
				nv.L = append(nv.L, mix(vs))
			}
			for _, o := range all {
				if o.Fn != v0.Fn {
					nv.Fn = nil
				}
			}
			if out.vals == nil {
				out.vals = map[ssa.Value]Val{}
			}
			out.vals[v] = nv
		}
	}
	var phis []Val
	for i := 0; i < nphi; i++ {
		v0 := es[0].phis[i]
		allLV := false
		for _, e := range es {
			if e.phis[i].LV != nil {
				allLV = true
			}
		}
		if allLV {
			for _, e := range es {
				if e.phis[i].LV == nil || *e.phis[i].LV != *v0.LV {
					unsup("phi of interior pointers")
				}
			}
			phis = append(phis, v0)
			continue
		}
		nv := Val{T: v0.T}
		sameFn := true
		for _, e := range es {
			if len(e.phis[i].L) != len(v0.L) {
				unsup("phi leaf mismatch")
			}
			if e.phis[i].Fn != v0.Fn {
				sameFn = false
			}
		}
		for k := range v0.L {
			var vs []*Term
			for _, e := range es {
				vs = append(vs, e.phis[i].L[k])
			}
			nv.L = append(nv.L, mix(vs))
		}
		if sameFn {
			nv.Fn = v0.Fn
		}
		phis = append(phis, nv)
	}
	// deferred calls: union by site
	seen := map[ssa.Instruction]bool{}
	for _, e := range es {
		for _, d := range e.st.defers {
			if !seen[d.site] {
				seen[d.site] = true
				out.defers = append(out.defers, d)
			}
		}
	}
	return out, phis
}

func orSimp(ts []*Term) *Term {
	// repeatedly join pairs  A&c , A&!c -> A
	ts = append([]*Term{}, ts...)
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(ts); i++ {
			for j := i + 1; j < len(ts); j++ {
				if r := joinPair(ts[i], ts[j]); r != nil {
					ts[i] = r
					ts = append(ts[:j], ts[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return Or(ts...)
}

func joinPair(a, b *Term) *Term {
	if a == True || b == True {
		return True
	}
	ca, cb := conjuncts(a), conjuncts(b)
	sb := map[*Term]bool{}
	for _, t := range cb {
		sb[t] = true
	}
	sa := map[*Term]bool{}
	for _, t := range ca {
		sa[t] = true
	}
	var comm, ra, rb []*Term
	for _, t := range ca {
		if sb[t] {
			comm = append(comm, t)
		} else {
			ra = append(ra, t)
		}
	}
	for _, t := range cb {
		if !sa[t] {
			rb = append(rb, t)
		}
	}
	if len(ra) == 0 {
		return a
	}
	if len(rb) == 0 {
		return b
	}
	if len(ra) == 1 && len(rb) == 1 && Not(ra[0]) == rb[0] {
		return And(comm...)
	}
	// A&c&X , A&!c (X absorbed): leave
	return nil
}

// ---- blocks ----

func (x *Exec) execBlock(c *fctx, b *ssa.BasicBlock, st *State) []edge {
	c.cur = b
	for _, in := range b.Instrs {
		x.steps++
		if x.steps > 2000000 {
			unsup("too many steps")
		}
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			cond := x.val(c, st, in.Cond).term()
			var out []edge
			t, f := b.Succs[0], b.Succs[1]
			pc := st.pc
			if cond != False {
				s1 := st
				if cond != True {
					s1 = st.clone()
					s1.pc = And(pc, cond)
				}
				if s1.pc != False {
					out = append(out, x.mkEdge(c, b, t, s1))
				}
			}
			if cond != True {
				s2 := st
				if cond != False {
					s2 = st.clone()
					s2.pc = And(pc, Not(cond))
				}
				if s2.pc != False {
					e := x.mkEdge(c, b, f, s2)
					if t == f {
						// second occurrence in Preds
						n := 0
						for i, p := range f.Preds {
							if p == b {
								n++
								if n == 2 {
									e.phis = nil
									for _, ph := range phisOf(f) {
										e.phis = append(e.phis, x.val(c, s2, ph.Edges[i]))
									}
								}
							}
						}
					}
					out = append(out, e)
				}
			}
			return out
		case *ssa.Jump:
			return []edge{x.mkEdge(c, b, b.Succs[0], st)}
		case *ssa.Return:
			var v Val
			if len(in.Results) == 1 {
				v = x.val(c, st, in.Results[0])
				v.T = resultType(c.fn.Signature)
			} else {
				v = Val{T: resultType(c.fn.Signature)}
				for _, r := range in.Results {
					rv := x.val(c, st, r)
					if rv.LV != nil {
						unsup("returning interior pointer")
					}
					v.L = append(v.L, rv.L...)
				}
			}
			c.rets = append(c.rets, retRec{st, v, in.Pos()})
			return nil
		case *ssa.Panic:
			if x.W.allowPanic(x, c.fn) {
				return nil
			}
			x.oblige(st, "safe", "panic unreachable in "+shortFn(c.fn), in.Pos(), False)
			return nil
		case *ssa.RunDefers:
			for i := len(st.defers) - 1; i >= 0; i-- {
				d := st.defers[i]
				st = x.runDeferred(c, st, d)
				if st == nil {
					return nil
				}
			}
			st.defers = nil
		default:
			if st.vals != nil {
				if v, ok := in.(ssa.Value); ok {
					delete(st.vals, v)
				}
			}
			st2 := x.instr(c, st, in)
			if st2 == nil {
				return nil // does not return
			}
			st = st2
		}
	}
	return nil
}

func (x *Exec) runDeferred(c *fctx, st *State, d deferred) *State {
	yes := st.clone()
	yes.pc = And(st.pc, d.guard)
	no := st.clone()
	no.pc = And(st.pc, Not(d.guard))
	rest := st.defers
	_, st1 := x.callVal(c, yes, d.call, d.fn, d.args, d.site)
	var es []edge
	if st1 != nil && st1.pc != False {
		es = append(es, edge{st: st1})
	}
	if no.pc != False && impliesSyn(st.pc, d.guard) == false {
		es = append(es, edge{st: no})
	}
	if len(es) == 0 {
		return nil
	}
	m, _ := x.mergeEdges(es, 0)
	m.defers = rest
	return m
}

func impliesSyn(pc, g *Term) bool {
	s := map[*Term]bool{}
	for _, t := range conjuncts(pc) {
		s[t] = true
	}
	for _, t := range conjuncts(g) {
		if !s[t] {
			return false
		}
	}
	return true
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/abema/go-mp4/internal/", "")
	s = strings.ReplaceAll(s, "github.com/abema/go-mp4.", "mp4.")
	return s
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkVal(t, BoolC(constant.BoolVal(k.Value)))
		case u.Info()&types.IsString != 0:
			return mkVal(t, StrLit(constant.StringVal(k.Value)))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return mkVal(t, BVbig(bi, intWidth(u)))
		case u.Info()&types.IsFloat != 0:
			return mkVal(t, App("flt!"+sanitize(k.Value.ExactString()), FltS))
		}
	}
	unsup("const %s", k)
	return Val{}
}

func (x *Exec) val(c *fctx, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		id := App("fn!"+v.RelString(nil), IntS)
		fv := &FuncVal{Fn: v}
		x.fnvals[id] = fv
		x.assumeOnce(ILt(IntC(0), id))
		return Val{T: v.Type(), L: []*Term{id}, Fn: fv}
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return Val{T: v.Type()}
	}
	if st.vals != nil {
		if r, ok := st.vals[v]; ok {
			return r
		}
	}
	r, ok := c.env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), c.fn)
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	et := elemOf(g.Type())
	name := g.RelString(nil)
	if isAggr(et) {
		return Val{T: g.Type(), L: []*Term{App("glob!"+name, IntS)}}
	}
	return Val{T: g.Type(), LV: &LVal{Key: "G:" + name, T: et}}
}

func (x *Exec) ptrNonNil(st *State, p Val, what string, pos token.Pos) {
	if p.LV != nil {
		return
	}
	x.refNonNil(st, p.term(), what, pos)
}

func (x *Exec) refNonNil(st *State, t *Term, what string, pos token.Pos) {
	if t.Op == "app" && strings.HasPrefix(t.Name, "sub!") {
		return
	}
	if t.Op == "app" && (strings.HasPrefix(t.Name, "elem!") || strings.HasPrefix(t.Name, "glob!")) {
		return
	}
	if t.Op == "fresh" {
		return
	}
	if t.Op == "ite" {
		a, b := nilStatus(t.Args[1]), nilStatus(t.Args[2])
		if a && b {
			return
		}
	}
	x.safe(st, "nil dereference "+what, pos, Not(Eq(t, IntC(0))))
}
func nilStatus(t *Term) bool {
	if t.Op == "ite" {
		return nilStatus(t.Args[1]) && nilStatus(t.Args[2])
	}
	return t.Op == "fresh" || t.Op == "app" && (strings.HasPrefix(t.Name, "sub!") || strings.HasPrefix(t.Name, "elem!") || strings.HasPrefix(t.Name, "glob!"))
}

func (x *Exec) instr(c *fctx, st *State, in ssa.Instruction) *State {
	set := func(v ssa.Value, r Val) {
		if r.T == nil || len(r.L) > 0 || r.LV != nil {
			r.T = v.Type()
		}
		c.env[v] = r
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		if id := identName(in); id != "" {
			if v, ok := c.env[in.X]; ok {
				if in.IsAddr {
					c.addrs[id] = v
				} else {
					c.setName(id, in.Block(), in.X)
				}
			} else if k, ok := in.X.(*ssa.Const); ok && !in.IsAddr {
				c.setName(id, in.Block(), k)
			}
		}
	case *ssa.Alloc:
		et := elemOf(in.Type())
		f := x.freshObj(st, "new_"+sanitize(tname(et)))
		if !in.Heap {
			localRef[f] = true
		}
		set(in, Val{T: in.Type(), L: []*Term{f}})
		if in.Comment != "" {
			c.addrs[in.Comment] = c.env[in]
		}
		x.initObj(st, et, f)
	case *ssa.BinOp:
		a, b := x.val(c, st, in.X), x.val(c, st, in.Y)
		set(in, x.binop(st, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Type(), in.Pos()))
	case *ssa.UnOp:
		a := x.val(c, st, in.X)
		switch in.Op {
		case token.MUL:
			x.ptrNonNil(st, a, "", in.Pos())
			v := x.loadChecked(st, a, in)
			set(in, v)
			if len(v.L) == 1 {
				if f, ok := x.fnvals[v.L[0]]; ok {
					v.Fn = f
					v.T = in.Type()
					c.env[in] = v
				}
			}
		case token.NOT:
			set(in, mkVal(in.Type(), Not(a.term())))
		case token.SUB:
			if a.term().S == FltS {
				set(in, mkVal(in.Type(), App("fneg", FltS, a.term())))
			} else {
				set(in, mkVal(in.Type(), BVNeg(a.term())))
			}
		case token.XOR:
			set(in, mkVal(in.Type(), BVNot(a.term())))
		default:
			unsup("unop %s", in.Op)
		}
	case *ssa.Call:
		v, st2 := x.call(c, st, &in.Call, in)
		if st2 == nil {
			return nil
		}
		st = st2
		if v.T == nil {
			v.T = in.Type()
		}
		c.env[in] = v
	case *ssa.ChangeInterface:
		set(in, x.val(c, st, in.X))
	case *ssa.ChangeType:
		v := x.val(c, st, in.X)
		v.T = in.Type()
		c.env[in] = v
	case *ssa.Convert:
		set(in, x.convert(st, x.val(c, st, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.Extract:
		t := x.val(c, st, in.Tuple)
		if t.T == nil {
			unsup("extract of void")
		}
		v := t.tupleAt(in.Index)
		set(in, v)
		if len(v.L) == 1 {
			if f, ok := x.fnvals[v.L[0]]; ok {
				v.Fn = f
				c.env[in] = v
			}
		}
	case *ssa.Field:
		a := x.val(c, st, in.X)
		a.T = in.X.Type()
		set(in, a.field(in.Field))
	case *ssa.FieldAddr:
		a := x.val(c, st, in.X)
		x.ptrNonNil(st, a, "."+structOf(elemOf(in.X.Type())).Field(in.Field).Name(), in.Pos())
		if a.LV != nil {
			unsup("field of interior pointer")
		}
		set(in, fieldAddr(elemOf(in.X.Type()), in.Field, a.term()))
	case *ssa.Index:
		a := x.val(c, st, in.X)
		i := x.idx64(x.val(c, st, in.Index), in.Index.Type())
		if isString(in.X.Type()) {
			x.safe(st, "string index", in.Pos(), Ult(i, x.strlen(a.term())))
			set(in, mkVal(in.Type(), x.strat(a.term(), i)))
			break
		}
		at := in.X.Type().Underlying().(*types.Array)
		x.safe(st, "array index", in.Pos(), Ult(i, BVc(uint64(at.Len()), 64)))
		set(in, arrIndex(a, at, i))
	case *ssa.IndexAddr:
		a := x.val(c, st, in.X)
		i := x.idx64(x.val(c, st, in.Index), in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safe(st, "index out of range", in.Pos(), Ult(i, a.ln()))
			set(in, indexAddr(u.Elem(), a.arr(), BVOp("bvadd", a.off(), i)))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.ptrNonNil(st, a, "array", in.Pos())
			x.safe(st, "array index", in.Pos(), Ult(i, BVc(uint64(at.Len()), 64)))
			set(in, indexAddr(at.Elem(), a.term(), i))
		default:
			unsup("IndexAddr %s", in.X.Type())
		}
	case *ssa.Lookup:
		set(in, x.lookup(c, st, in))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		fv := &FuncVal{Fn: fn}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, x.val(c, st, b))
		}
		id := x.freshObj(st, "closure_"+sanitize(fn.Name()))
		x.fnvals[id] = fv
		set(in, Val{T: in.Type(), L: []*Term{id}, Fn: fv})
	case *ssa.MakeInterface:
		set(in, x.makeIface(x.val(c, st, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeMap:
		f := x.freshObj(st, "map")
		set(in, Val{T: in.Type(), L: []*Term{f}})
		x.setMapEmpty(st, in.Type(), f)
	case *ssa.MakeSlice:
		l := x.idx64(x.val(c, st, in.Len), in.Len.Type())
		cp := x.idx64(x.val(c, st, in.Cap), in.Cap.Type())
		et := elemOf(in.Type())
		x.safe(st, "makeslice: len out of range", in.Pos(), And(Sle(BVc(0, 64), l), Sle(l, cp), Ule(cp, BVc(maxLen, 64))))
		x.makeChecks(st, l, cp, in)
		set(in, x.makeSlice(st, in.Type(), et, l, cp))
	case *ssa.MapUpdate:
		m := x.val(c, st, in.Map)
		x.ptrNonNil(st, m, "map", in.Pos())
		x.mapUpdate(st, in.Map.Type(), m.term(), x.val(c, st, in.Key), x.val(c, st, in.Value))
	case *ssa.Slice:
		set(in, x.slice(c, st, in))
	case *ssa.Store:
		a := x.val(c, st, in.Addr)
		x.ptrNonNil(st, a, "store", in.Pos())
		v := x.val(c, st, in.Val)
		x.storeHook(c, st, in, a, v)
		x.store(st, a, v)
	case *ssa.TypeAssert:
		set(in, x.typeAssert(st, x.val(c, st, in.X), in.X.Type(), in.AssertedType, in.CommaOk, in.Pos()))
	case *ssa.Defer:
		d := deferred{guard: st.pc, call: &in.Call, site: in}
		if in.Call.IsInvoke() {
			unsup("defer invoke")
		}
		d.fn = x.val(c, st, in.Call.Value)
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(c, st, a))
		}
		st.defers = append(st.defers, d)
	case *ssa.Range:
		if isString(in.X.Type()) {
			unsup("range over a string in %s", c.fn)
		}
		set(in, x.val(c, st, in.X))
	case *ssa.Next:
		// some entry of the map, or the end: the order of iteration is unspecified
		m := x.val(c, st, in.Iter.(*ssa.Range).X)
		mt := m.T.Underlying().(*types.Map)
		ok := NewVar("next_ok", BoolS)
		k := x.symVal(mt.Key(), "next_key")
		x.wf(st, k)
		v, h := x.mapGet(st, m.T, m.term(), k)
		x.assume(st.pc, Implies(ok, h))
		out := Val{T: in.Type(), L: []*Term{ok}}
		tt := in.Type().(*types.Tuple)
		if len(leafSorts(tt.At(1).Type())) > 0 {
			out.L = append(out.L, k.L...)
		}
		if len(leafSorts(tt.At(2).Type())) > 0 {
			out.L = append(out.L, v.L...)
		}
		set(in, out)
	default:
		unsup("instruction %T in %s", in, c.fn)
	}
	return st
}

func identName(d *ssa.DebugRef) string {
	if o := d.Object(); o != nil {
		if v, ok := o.(*types.Var); ok && !v.IsField() {
			return v.Name()
		}
	}
	return ""
}

func arrIndex(a Val, at *types.Array, i *Term) Val {
	n := len(leafSorts(at.Elem()))
	r := Val{T: at.Elem()}
	if i.isConst() {
		k := int(i.V.Int64())
		if k >= int(at.Len()) {
			k = 0
		}
		r.L = a.L[k*n : k*n+n]
		return r
	}
	for j := 0; j < n; j++ {
		t := a.L[(int(at.Len())-1)*n+j]
		for k := int(at.Len()) - 2; k >= 0; k-- {
			t = Ite(Eq(i, BVc(uint64(k), 64)), a.L[k*n+j], t)
		}
		r.L = append(r.L, t)
	}
	return r
}

func (x *Exec) loadChecked(st *State, a Val, in *ssa.UnOp) Val {
	if g, ok := in.X.(*ssa.Global); ok {
		if v, ok := x.W.globalConst(x, g); ok {
			return v
		}
	}
	v := x.load(st, a)
	fixOffsets(&v)
	if g, ok := in.X.(*ssa.Global); ok {
		x.W.globalFacts(x, g, v)
	}
	return v
}

// fixOffsets: slice headers found in memory are viewed with offset 0 of their own backing (documented modelling choice).
func fixOffsets(v *Val) {
	if v.LV != nil {
		return
	}
	pos := sliceOffs(v.T)
	if len(pos) == 0 {
		return
	}
	l := append([]*Term{}, v.L...)
	for _, p := range pos {
		l[p] = dropOff(l[p])
	}
	v.L = l
}

func dropOff(t *Term) *Term {
	switch t.Op {
	case "select", "var":
		return BVc(0, 64)
	case "ite":
		return Ite(t.Args[0], dropOff(t.Args[1]), dropOff(t.Args[2]))
	}
	return t
}

var offMemo = map[types.Type][]int{}

func sliceOffs(t types.Type) []int {
	if p, ok := offMemo[t]; ok {
		return p
	}
	var r []int
	if isOpaque(t) == nil {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			r = []int{1}
		case *types.Struct:
			o := 0
			for i := 0; i < u.NumFields(); i++ {
				for _, p := range sliceOffs(u.Field(i).Type()) {
					r = append(r, o+p)
				}
				o += len(leafSorts(u.Field(i).Type()))
			}
		case *types.Array:
			n := len(leafSorts(u.Elem()))
			for i := 0; i < int(u.Len()); i++ {
				for _, p := range sliceOffs(u.Elem()) {
					r = append(r, i*n+p)
				}
			}
		case *types.Tuple:
			o := 0
			for i := 0; i < u.Len(); i++ {
				for _, p := range sliceOffs(u.At(i).Type()) {
					r = append(r, o+p)
				}
				o += len(leafSorts(u.At(i).Type()))
			}
		}
	}
	offMemo[t] = r
	return r
}

func (x *Exec) initObj(st *State, t types.Type, ref *Term) {
	// zero initialisation of a fresh object: writes to fresh objects are never framed
	x.noFrame++
	defer func() { x.noFrame-- }()
	if at, ok := t.Underlying().(*types.Array); ok && isOpaque(t) == nil && !isAggr(at.Elem()) {
		ss := leafSorts(at.Elem())
		for k, s := range ss {
			key := keyFor("S:"+tname(at.Elem()), at.Elem(), k, len(ss))
			m := x.hget(st, key, ArrS(IntS, rowSort(s)))
			x.noteWrite(st, key, ref)
			st.heap[key] = Store(m, ref, ConstArr(rowSort(s), zeroLeaf(s)))
		}
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == nil {
		for i := 0; i < s.NumFields(); i++ {
			fa := fieldAddr(t, i, ref)
			if isAggr(s.Field(i).Type()) {
				x.initObj(st, s.Field(i).Type(), fa.term())
			} else {
				x.store(st, fa, zeroVal(s.Field(i).Type()))
			}
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok && isOpaque(t) == nil {
		for i := int64(0); i < at.Len(); i++ {
			x.initObj(st, at.Elem(), elemRef(at.Elem(), ref, BVc(uint64(i), 64)))
		}
		return
	}
	x.storeAt(st, t, ref, zeroVal(t))
}

func (x *Exec) makeSlice(st *State, t, et types.Type, l, cp *Term) Val {
	f := x.freshObj(st, "mk_"+sanitize(tname(et)))
	if !isAggr(et) {
		x.noFrame++
		ss := leafSorts(et)
		for k, s := range ss {
			key := keyFor("S:"+tname(et), et, k, len(ss))
			m := x.hget(st, key, ArrS(IntS, rowSort(s)))
			x.noteWrite(st, key, f)
			st.heap[key] = Store(m, f, ConstArr(rowSort(s), zeroLeaf(s)))
		}
		x.noFrame--
	} else if !l.isConst() || l.V.Sign() != 0 {
		x.zeroElems(st, et, f, l)
	}
	return Val{T: t, L: []*Term{f, BVc(0, 64), l, cp}}
}

// zeroElems assumes that all elements (struct objects) of the fresh backing f are zero.
func (x *Exec) zeroElems(st *State, et types.Type, f, l *Term) {
	if l.isConst() && l.V.IsUint64() && l.V.Uint64() <= 8 {
		for i := uint64(0); i < l.V.Uint64(); i++ {
			x.initObj(st, et, elemRef(et, f, BVc(i, 64)))
		}
		return
	}
	i := BoundVar("i", BV(64))
	var facts []*Term
	ref := elemRef(et, f, i)
	for _, lc := range locsAt(et, ref) {
		ms := ArrS(IntS, lc.s)
		if lc.row {
			ms = ArrS(IntS, rowSort(lc.s))
		}
		m := x.hget(st, lc.key, ms)
		if lc.row {
			if lc.idx != nil {
				facts = append(facts, Eq(Select(Select(m, lc.obj), lc.idx), zeroLeaf(lc.s)))
			} else {
				facts = append(facts, Eq(Select(m, lc.obj), ConstArr(rowSort(lc.s), zeroLeaf(lc.s))))
			}
		} else {
			facts = append(facts, Eq(Select(m, lc.obj), zeroLeaf(lc.s)))
		}
	}
	// the backing object is new: nothing was known about its elements
	x.assume(st.pc, Forall([]*Term{i}, And(facts...), []*Term{ref}))
}

func (x *Exec) idx64(v Val, t types.Type) *Term {
	i := v.term()
	if i.S.K != SBV {
		unsup("index sort")
	}
	if isSigned(t) {
		return SExt(i, 64)
	}
	return ZExt(i, 64)
}

// ---- strings ----

func (x *Exec) strlen(s *Term) *Term {
	if s.Op == "str" {
		return BVc(uint64(len(s.Name)), 64)
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], x.strlen(s.Args[1]), x.strlen(s.Args[2]))
	}
	if s.Op == "app" && s.Name == "str_of" {
		return s.Args[2]
	}
	if s.Op == "app" && s.Name == "strcat" {
		return BVOp("bvadd", x.strlen(s.Args[0]), x.strlen(s.Args[1]))
	}
	return App("strlen", BV(64), s)
}
func (x *Exec) strat(s, i *Term) *Term {
	if s.Op == "str" && i.isConst() && i.V.IsUint64() && i.V.Uint64() < uint64(len(s.Name)) {
		return BVc(uint64(s.Name[i.V.Uint64()]), 8)
	}
	if s.Op == "app" && s.Name == "str_of" {
		return Select(s.Args[0], BVOp("bvadd", s.Args[1], i))
	}
	return Select(strrow(s), i)
}
func strrow(s *Term) *Term {
	return App("strrow", rowSort(BV(8)), s)
}

// ---- operators ----

func (x *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.eqVals(st, a, b, ta, tb)
		if op == token.NEQ {
			e = Not(e)
		}
		return mkVal(tr, e)
	}
	if isString(ta) {
		s, t := a.term(), b.term()
		switch op {
		case token.ADD:
			if s.Op == "str" && t.Op == "str" {
				return mkVal(tr, StrLit(s.Name+t.Name))
			}
			return mkVal(tr, App("strcat", StrS, s, t))
		}
		return mkVal(tr, App("strcmp!"+op.String(), BoolS, s, t))
	}
	if isBool(ta) {
		switch op {
		case token.AND, token.LAND:
			return mkVal(tr, And(a.term(), b.term()))
		case token.OR, token.LOR:
			return mkVal(tr, Or(a.term(), b.term()))
		}
	}
	s, t := a.term(), b.term()
	if s.S == FltS {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkVal(tr, App("fcmp!"+op.String(), BoolS, s, t))
		}
		return mkVal(tr, App("fop!"+op.String()+"!"+floatName(tr), FltS, s, t))
	}
	sg := isSigned(ta)
	switch op {
	case token.SHL, token.SHR:
		// shift count: compare at full width
		w := s.S.W
		var big *Term // count >= w
		cnt := t
		if isSigned(tb) && !t.isConst() {
			x.safe(st, "negative shift", pos, Sle(BVc(0, t.S.W), t))
		}
		if t.S.W > w {
			big = Not(Ult(t, BVc(uint64(w), t.S.W)))
			cnt = Extract(t, w-1, 0)
		} else {
			cnt = ZExt(t, w)
			big = False // SMT shifts saturate correctly at same width
		}
		var r *Term
		switch {
		case op == token.SHL:
			r = Ite(big, BVc(0, w), BVOp("bvshl", s, cnt))
		case sg:
			r = Ite(big, BVOp("bvashr", s, BVc(uint64(w-1), w)), BVOp("bvashr", s, cnt))
		default:
			r = Ite(big, BVc(0, w), BVOp("bvlshr", s, cnt))
		}
		return mkVal(tr, r)
	case token.ADD:
		return mkVal(tr, BVOp("bvadd", s, t))
	case token.SUB:
		return mkVal(tr, BVOp("bvsub", s, t))
	case token.MUL:
		return mkVal(tr, mulTerm(s, t))
	case token.QUO, token.REM:
		x.safe(st, "division by zero", pos, Not(Eq(t, BVc(0, t.S.W))))
		return mkVal(tr, divTerm(op, sg, s, t))
	case token.AND:
		return mkVal(tr, BVOp("bvand", s, t))
	case token.OR:
		return mkVal(tr, BVOp("bvor", s, t))
	case token.XOR:
		return mkVal(tr, BVOp("bvxor", s, t))
	case token.AND_NOT:
		return mkVal(tr, BVOp("bvand", s, BVNot(t)))
	case token.LSS:
		return mkVal(tr, cmpT(sg, false, s, t))
	case token.LEQ:
		return mkVal(tr, cmpT(sg, true, s, t))
	case token.GTR:
		return mkVal(tr, cmpT(sg, false, t, s))
	case token.GEQ:
		return mkVal(tr, cmpT(sg, true, t, s))
	}
	unsup("binop %s", op)
	return Val{}
}

func cmpT(sg, le bool, a, b *Term) *Term {
	op := "bvu"
	if sg {
		op = "bvs"
	}
	if le {
		op += "le"
	} else {
		op += "lt"
	}
	return Cmp(op, a, b)
}

// Products and quotients of two symbolic operands of 32 bits or more are kept as uninterpreted functions
// (sound: fewer facts); everything else is exact bit-vector arithmetic.
func mulTerm(s, t *Term) *Term {
	if s.isConst() || t.isConst() || s.S.W <= 16 {
		return BVOp("bvmul", s, t)
	}
	// distribute constants out: (c*x)*y -> c*(x*y)
	if s.Op == "bvmul" && s.Args[1].isConst() {
		return BVOp("bvmul", mulTerm(s.Args[0], t), s.Args[1])
	}
	if t.Op == "bvmul" && t.Args[1].isConst() {
		return BVOp("bvmul", mulTerm(s, t.Args[0]), t.Args[1])
	}
	if s.id > t.id {
		s, t = t, s
	}
	return App(fmt.Sprintf("umul%d", s.S.W), s.S, s, t)
}

func divTerm(op token.Token, sg bool, s, t *Term) *Term {
	n := map[token.Token]string{token.QUO: "div", token.REM: "rem"}[op]
	u := "bvu"
	if sg {
		u = "bvs"
	}
	if t.isConst() || s.S.W <= 16 {
		return BVOp(u+n, s, t)
	}
	return App(fmt.Sprintf("%s%s%d", u[2:], n, s.S.W), s.S, s, t)
}

func (x *Exec) eqVals(st *State, a, b Val, ta, tb types.Type) *Term {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		if isNilConst(b) {
			return Eq(a.L[0], IntC(0))
		}
		b = x.makeIface(b, tb, ta)
	} else if ib && !ia {
		if isNilConst(a) {
			return Eq(b.L[0], IntC(0))
		}
		a = x.makeIface(a, ta, tb)
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		// comparison with nil only
		if len(b.L) == 4 && b.arr().isConst() && b.arr().V.Sign() == 0 {
			return Eq(a.arr(), IntC(0))
		}
		return Eq(b.arr(), IntC(0))
	}
	if a.LV != nil || b.LV != nil {
		if a.LV != nil && b.LV != nil {
			unsup("comparison of interior pointers")
		}
		return False // an interior pointer is never nil
	}
	if ia || ib {
		if a.L[0].isConst() && a.L[0].V.Sign() == 0 {
			return Eq(b.L[0], IntC(0))
		}
		if b.L[0].isConst() && b.L[0].V.Sign() == 0 {
			return Eq(a.L[0], IntC(0))
		}
	}
	var cs []*Term
	for k := range a.L {
		cs = append(cs, x.eqLeaf(a.L[k], b.L[k]))
	}
	return And(cs...)
}

func (x *Exec) eqLeaf(a, b *Term) *Term { return Eq(a, b) }

func isNilConst(v Val) bool {
	if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return true
	}
	return false
}

func floatName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return "float"
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			t := v.term()
			w := intWidth(tb)
			if isSigned(from) {
				return mkVal(to, SExt(t, w))
			}
			return mkVal(to, ZExt(t, w))
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return mkVal(to, App(fmt.Sprintf("tofloat!%s!%s", fb.Name(), floatName(to)), FltS, v.term()))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if floatName(from) == floatName(to) {
				return mkVal(to, v.term())
			}
			return mkVal(to, App("fltconv!"+floatName(from)+"!"+floatName(to), FltS, v.term()))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return mkVal(to, App("fromfloat!"+tb.Name(), BV(intWidth(tb)), v.term()))
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return mkVal(to, v.term())
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return mkVal(to, App("runestr", StrS, ZExt(v.term(), 64)))
		}
	}
	if sl, ok := fu.(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if isByte(sl.Elem()) {
			m := x.hget(st, "S:"+tname(sl.Elem()), ArrS(IntS, rowSort(BV(8))))
			return mkVal(to, strOf(Select(m, v.arr()), v.off(), v.ln()))
		}
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 && isByte(sl.Elem()) {
		f := x.freshObj(st, "bytes")
		key := "S:" + tname(sl.Elem())
		m := x.hget(st, key, ArrS(IntS, rowSort(BV(8))))
		x.noteWrite(st, key, f)
		s := v.term()
		l := x.strlen(s)
		st.heap[key] = Store(m, f, strrow(s))
		return Val{T: to, L: []*Term{f, BVc(0, 64), l, l}}
	}
	if len(v.L) == 1 && len(leafSorts(to)) == 1 && v.L[0].S == leafSorts(to)[0] {
		v.T = to
		return v
	}
	unsup("convert %s -> %s", from, to)
	return Val{}
}

func strOf(row, off, l *Term) *Term {
	if row.Op == "app" && row.Name == "strrow" && off.isConst() && off.V.Sign() == 0 {
		s := row.Args[0]
		if s.Op == "str" && l.isConst() && l.V.Uint64() == uint64(len(s.Name)) {
			return s
		}
		if l.Op == "app" && l.Name == "strlen" && l.Args[0] == s {
			return s
		}
	}
	if l.isConst() && l.V.Sign() == 0 {
		return StrLit("")
	}
	return App("str_of", StrS, row, off, l)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- interfaces ----

func (w *World) typeID(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if id, ok := w.typeIDs[k]; ok {
		return IntC(int64(id))
	}
	n := len(w.typeIDs) + 1
	w.typeIDs[k] = n
	w.idTypes[n] = t
	return IntC(int64(n))
}

func (x *Exec) makeIface(v Val, from, to types.Type) Val {
	if _, ok := from.Underlying().(*types.Interface); ok {
		v.T = to
		return v
	}
	if isNilConst(v) {
		return zeroVal(to)
	}
	id := x.W.typeID(from)
	return Val{T: to, L: []*Term{id, x.box(v, from)}, Fn: v.Fn}
}

func (x *Exec) box(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return v.term()
	}
	if len(v.L) == 0 {
		return App("box!"+tname(t), IntS)
	}
	if v.LV != nil {
		unsup("boxing an interior pointer")
	}
	return App("box!"+tname(t), IntS, v.L...)
}

func (x *Exec) unbox(val *Term, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return mkVal(t, val)
	}
	ss := leafSorts(t)
	if val.Op == "app" && val.Name == "box!"+tname(t) && len(val.Args) == len(ss) {
		return Val{T: t, L: val.Args}
	}
	r := Val{T: t}
	for k, s := range ss {
		r.L = append(r.L, App(fmt.Sprintf("unbox!%s!%d", tname(t), k), s, val))
	}
	return r
}

func (x *Exec) typeAssert(st *State, v Val, from, to types.Type, commaOk bool, pos token.Pos) Val {
	var ok *Term
	var r Val
	if _, isI := to.Underlying().(*types.Interface); isI {
		r = Val{T: to, L: v.L}
		ok = x.implements(v.L[0], to)
	} else {
		ok = Eq(v.L[0], x.W.typeID(to))
		r = x.unbox(v.L[1], to)
	}
	if commaOk {
		z := zeroVal(to)
		out := Val{T: types.NewTuple(types.NewVar(0, nil, "", to), types.NewVar(0, nil, "", boolT))}
		for k := range r.L {
			out.L = append(out.L, Ite(ok, r.L[k], z.L[k]))
		}
		out.L = append(out.L, ok)
		return out
	}
	x.safe(st, "type assertion to "+tname(to), pos, ok)
	x.wf(st, r)
	return r
}

func (x *Exec) implements(typ *Term, to types.Type) *Term {
	if typ.isConst() {
		n := int(typ.V.Int64())
		if n == 0 {
			return False
		}
		if t, ok := x.W.idTypes[n]; ok {
			return BoolC(types.Implements(t, to.Underlying().(*types.Interface)))
		}
	}
	if typ.Op == "ite" {
		return Ite(typ.Args[0], x.implements(typ.Args[1], to), x.implements(typ.Args[2], to))
	}
	if to.Underlying().(*types.Interface).NumMethods() == 0 {
		return Not(Eq(typ, IntC(0)))
	}
	return And(Not(Eq(typ, IntC(0))), App("impl!"+tname(to), BoolS, typ))
}

// ---- maps (uninterpreted lookup) ----

func (x *Exec) mapKey(t types.Type) (string, *types.Map) {
	m := t.Underlying().(*types.Map)
	return "M:" + tname(t), m
}

func (x *Exec) setMapEmpty(st *State, t types.Type, f *Term) {
	key, _ := x.mapKey(t)
	ms := UnS("MapVer")
	m := x.hget(st, key, ArrS(IntS, ms))
	x.noFrame++
	x.noteWrite(st, key, f)
	x.noFrame--
	st.heap[key] = Store(m, f, App("emptymap!"+key, ms))
}

func (x *Exec) mapUpdate(st *State, t types.Type, ref *Term, k, v Val) {
	key, _ := x.mapKey(t)
	ms := UnS("MapVer")
	m := x.hget(st, key, ArrS(IntS, ms))
	x.noteWrite(st, key, ref)
	args := append([]*Term{Select(m, ref)}, k.L...)
	args = append(args, v.L...)
	st.heap[key] = Store(m, ref, App("mapset!"+key, ms, args...))
}

func (x *Exec) lookup(c *fctx, st *State, in *ssa.Lookup) Val {
	if isString(in.X.Type()) {
		a := x.val(c, st, in.X)
		i := x.idx64(x.val(c, st, in.Index), in.Index.Type())
		x.safe(st, "string index", in.Pos(), Ult(i, x.strlen(a.term())))
		return mkVal(in.Type(), x.strat(a.term(), i))
	}
	v, ok := x.mapGet(st, in.X.Type(), x.val(c, st, in.X).term(), x.val(c, st, in.Index))
	if in.CommaOk {
		out := Val{T: in.Type(), L: append(append([]*Term{}, v.L...), ok)}
		return out
	}
	return v
}

func (x *Exec) mapGet(st *State, t types.Type, ref *Term, k Val) (Val, *Term) {
	key, mt := x.mapKey(t)
	m := x.hget(st, key, ArrS(IntS, UnS("MapVer")))
	ss := leafSorts(mt.Elem())
	h, ls := mapAt(key, ss, Select(m, ref), k.L, 0)
	ok := And(Not(Eq(ref, IntC(0))), h)
	z := zeroVal(mt.Elem())
	v := Val{T: mt.Elem()}
	raw := Val{T: mt.Elem()}
	plain := true
	for i := range ss {
		v.L = append(v.L, Ite(ok, ls[i], z.L[i]))
		raw.L = append(raw.L, ls[i])
		plain = plain && ls[i].Op == "app"
	}
	if plain {
		// an entry of a map that exists refers only to objects that exist
		x.wf(st, raw)
	}
	x.wf(st, v)
	return v, ok
}

// mapAt looks key k up in a map version, through updates.
func mapAt(key string, ss []*Sort, ver *Term, k []*Term, d int) (*Term, []*Term) {
	merge := func(c, h1 *Term, l1 []*Term, h2 *Term, l2 []*Term) (*Term, []*Term) {
		var ls []*Term
		for i := range l1 {
			ls = append(ls, Ite(c, l1[i], l2[i]))
		}
		return Ite(c, h1, h2), ls
	}
	if d < 12 {
		same := func(a []*Term) *Term {
			var cs []*Term
			for i := range k {
				cs = append(cs, Eq(k[i], a[i]))
			}
			return And(cs...)
		}
		switch {
		case ver.Op == "ite":
			h1, l1 := mapAt(key, ss, ver.Args[1], k, d+1)
			h2, l2 := mapAt(key, ss, ver.Args[2], k, d+1)
			return merge(ver.Args[0], h1, l1, h2, l2)
		case ver.Op == "app" && ver.Name == "mapset!"+key:
			h, l := mapAt(key, ss, ver.Args[0], k, d+1)
			return merge(same(ver.Args[1:1+len(k)]), True, ver.Args[1+len(k):], h, l)
		case ver.Op == "app" && ver.Name == "mapdel!"+key:
			h, l := mapAt(key, ss, ver.Args[0], k, d+1)
			return merge(same(ver.Args[1:1+len(k)]), False, l, h, l)
		}
	}
	args := append([]*Term{ver}, k...)
	h := App("maphas!"+key, BoolS, args...)
	if ver.Op == "app" && ver.Name == "emptymap!"+key {
		h = False
	}
	var ls []*Term
	for i, s := range ss {
		ls = append(ls, App(fmt.Sprintf("mapget!%s!%d", key, i), s, args...))
	}
	return h, ls
}

// ---- slices ----

func (x *Exec) slice(c *fctx, st *State, in *ssa.Slice) Val {
	a := x.val(c, st, in.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.idx64(x.val(c, st, v), v.Type())
	}
	zero := BVc(0, 64)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		lo := get(in.Low, zero)
		hi := get(in.High, a.ln())
		mx := get(in.Max, a.cp())
		x.safe(st, "slice bounds", in.Pos(), And(Ule(lo, hi), Ule(hi, mx), Ule(mx, a.cp())))
		return Val{T: in.Type(), L: []*Term{a.arr(), BVOp("bvadd", a.off(), lo), BVOp("bvsub", hi, lo), BVOp("bvsub", mx, lo)}}
	case *types.Basic:
		lo := get(in.Low, zero)
		n := x.strlen(a.term())
		hi := get(in.High, n)
		x.safe(st, "string slice bounds", in.Pos(), And(Ule(lo, hi), Ule(hi, n)))
		if a.term().Op == "str" && lo.isConst() && hi.isConst() {
			return mkVal(in.Type(), StrLit(a.term().Name[lo.V.Int64():hi.V.Int64()]))
		}
		return mkVal(in.Type(), strOf(strrow(a.term()), lo, BVOp("bvsub", hi, lo)))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.ptrNonNil(st, a, "array slice", in.Pos())
		n := BVc(uint64(at.Len()), 64)
		lo := get(in.Low, zero)
		hi := get(in.High, n)
		mx := get(in.Max, n)
		x.safe(st, "slice bounds", in.Pos(), And(Ule(lo, hi), Ule(hi, mx), Ule(mx, n)))
		return Val{T: in.Type(), L: []*Term{a.term(), lo, BVOp("bvsub", hi, lo), BVOp("bvsub", mx, lo)}}
	}
	unsup("slice of %s", in.X.Type())
	return Val{}
}

// appendVals models append(s, elems of t...).
func (x *Exec) appendSlice(st *State, s, t Val, et types.Type) Val {
	n := t.ln()
	newLen := BVOp("bvadd", s.ln(), n)
	if n.isConst() && n.V.Sign() == 0 {
		return s
	}
	inPlace := Ule(newLen, s.cp())
	f := x.freshObj(st, "app_"+sanitize(tname(et)))
	arr := Ite(inPlace, s.arr(), f)
	ncap := NewVar("cap", BV(64))
	x.assume(True, Implies(Not(inPlace), And(Ule(newLen, ncap), Ule(ncap, BVc(maxLen, 64)))))
	ncap = Ite(inPlace, s.cp(), ncap)
	x.assume(st.pc, Ule(newLen, BVc(maxLen, 64))) // memory bound
	off := s.off()
	res := Val{T: s.T, L: []*Term{arr, off, newLen, ncap}}
	if isAggr(et) {
		if !n.isConst() || n.V.Uint64() > 16 {
			unsup("append of symbolic number of aggregates")
		}
		// new backing gets a copy of old elements: the copied objects must be equal. Elements are objects
		// elem(arr,i); when reallocated, contents are transferred.
		x.copyElems(st, et, s, f, inPlace)
		for i := uint64(0); i < n.V.Uint64(); i++ {
			src := x.loadAt(st, et, elemRef(et, t.arr(), BVOp("bvadd", t.off(), BVc(i, 64))))
			dst := elemRef(et, arr, BVOp("bvadd", off, BVOp("bvadd", s.ln(), BVc(i, 64))))
			x.storeAt(st, et, dst, src)
		}
		return res
	}
	ss := leafSorts(et)
	for k, so := range ss {
		key := keyFor("S:"+tname(et), et, k, len(ss))
		m := x.hget(st, key, ArrS(IntS, rowSort(so)))
		row := Select(m, s.arr())
		if n.isConst() && n.V.Uint64() <= 64 {
			src := Select(m, t.arr())
			for i := uint64(0); i < n.V.Uint64(); i++ {
				row = Store(row, BVOp("bvadd", off, BVOp("bvadd", s.ln(), BVc(i, 64))), Select(src, BVOp("bvadd", t.off(), BVc(i, 64))))
			}
		} else {
			src := Select(m, t.arr())
			row = x.blit(row, BVOp("bvadd", off, s.ln()), src, t.off(), n)
		}
		x.noteWrite(st, key, arr)
		st.heap[key] = Store(m, arr, row)
	}
	return res
}

// blit: row with n elements copied from src[so..] to dst index do.
func (x *Exec) blit(row, do, src, so, n *Term) *Term {
	if n.isConst() && n.V.Uint64() <= 64 {
		r := row
		for i := uint64(0); i < n.V.Uint64(); i++ {
			r = Store(r, BVOp("bvadd", do, BVc(i, 64)), Select(src, BVOp("bvadd", so, BVc(i, 64))))
		}
		return r
	}
	r := NewVar("blit", row.S)
	i := BoundVar("i", BV(64))
	x.assume(True, Forall([]*Term{i}, Eq(Select(r, i),
		Ite(Ult(BVOp("bvsub", i, do), n), Select(src, BVOp("bvadd", so, BVOp("bvsub", i, do))), Select(row, i))), []*Term{Select(r, i)}))
	return r
}

func (x *Exec) copyElems(st *State, et types.Type, s Val, f, inPlace *Term) {
	// for all i < len(s): contents of elem(f, off+i) == contents of elem(s.arr, off+i) (only when reallocated)
	i := BoundVar("i", BV(64))
	a, b := elemRef(et, f, i), elemRef(et, s.arr(), i)
	if s.ln().isConst() && s.ln().V.Uint64() <= 8 {
		for k := uint64(0); k < s.ln().V.Uint64(); k++ {
			idx := BVOp("bvadd", s.off(), BVc(k, 64))
			x.storeAt(st, et, elemRef(et, f, idx), x.loadAt(st, et, elemRef(et, s.arr(), idx)))
		}
		return
	}
	la, lb := locsAt(et, a), locsAt(et, b)
	var facts []*Term
	for k := range la {
		ms := ArrS(IntS, la[k].s)
		if la[k].row {
			ms = ArrS(IntS, rowSort(la[k].s))
		}
		m := x.hget(st, la[k].key, ms)
		if la[k].row && la[k].idx != nil {
			facts = append(facts, Eq(Select(Select(m, la[k].obj), la[k].idx), Select(Select(m, lb[k].obj), lb[k].idx)))
		} else {
			facts = append(facts, Eq(Select(m, la[k].obj), Select(m, lb[k].obj)))
		}
	}
	x.assume(st.pc, Forall([]*Term{i}, And(facts...), []*Term{a}))
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f, a...)
	}
}

func (c *fctx) setName(n string, b *ssa.BasicBlock, v ssa.Value) {
	m := c.nvals[n]
	if m == nil {
		m = map[*ssa.BasicBlock]ssa.Value{}
		c.nvals[n] = m
	}
	m[b] = v
}

// nameAt finds the value a source variable has on entry to block h.
func (c *fctx) nameAt(n string, h *ssa.BasicBlock) (ssa.Value, bool) {
	m := c.nvals[n]
	for b := h.Idom(); b != nil; b = b.Idom() {
		if v, ok := m[b]; ok {
			return v, true
		}
	}
	return nil, false
}
