package main

// SMT-LIB generation and the solver portfolio.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type factSet struct {
	seen map[*Term]bool
	out  []*Term
}

func (f *factSet) add(t *Term) {
	if t == True || f.seen[t] {
		return
	}
	f.seen[t] = true
	f.out = append(f.out, t)
}

type axiomInst struct {
	name string
	t    *Term
	syms map[string]bool
}

// axiomsFor evaluates the declared axioms and the lemmas proved before index upto, once per World.
func (w *World) axiomTerms(upto int) []axiomInst {
	if w.axMemo == nil {
		w.axMemo = map[int][]axiomInst{}
	}
	if r, ok := w.axMemo[upto]; ok {
		return r
	}
	var out []axiomInst
	for _, a := range w.spec.Axioms {
		x := newExec(w)
		x.dry = 1
		st := &State{pc: True, heap: map[string]*Term{}, top: NamedVar("topA", IntS)}
		env := &SpecEnv{x: x, vars: map[string]Val{}, st: st, old: st, pkg: w.pkgs[a.Pkg], conc: true}
		t := env.Bool(a.E)
		out = append(out, axiomInst{"axiom " + a.Name, t, logicSyms(t)})
	}
	for i, l := range w.lemmas {
		if upto >= 0 && i >= upto {
			break
		}
		if len(l.Trig) == 0 {
			continue
		}
		t := w.lemmaTerm(l)
		out = append(out, axiomInst{"lemma " + l.Target, t, logicSyms(t)})
	}
	w.axMemo[upto] = out
	return out
}

func (w *World) lemmaTerm(l *Contract) *Term {
	x := newExec(w)
	x.dry = 1
	st := &State{pc: True, heap: map[string]*Term{}, top: NamedVar("topA", IntS)}
	pkg := w.pkgs[l.Pkg]
	env := &SpecEnv{x: x, vars: map[string]Val{}, st: st, old: st, pkg: pkg, conc: true}
	var bs []*Term
	for i, p := range l.Params {
		t := w.resolveType(l.PTypes[i], pkg)
		if t == nil {
			panic(specErr{l.Loc + ": unknown type " + l.PTypes[i]})
		}
		v := Val{T: t}
		for _, s := range leafSorts(t) {
			b := BoundVar(p, s)
			bs = append(bs, b)
			v.L = append(v.L, b)
		}
		env.vars[p] = v
	}
	x.evalLets(env, l)
	var pre, post []*Term
	for _, r := range l.Req {
		pre = append(pre, env.Bool(r.E))
	}
	for _, r := range l.Ens {
		post = append(post, env.Bool(r.E))
	}
	var trigs [][]*Term
	for _, tr := range l.Trig {
		var ts []*Term
		for _, q := range tr {
			ts = append(ts, env.Eval(q).term())
		}
		trigs = append(trigs, ts)
	}
	if len(x.initHeap) > 0 {
		panic(specErr{l.Loc + ": a triggered lemma may not read the heap"})
	}
	return Forall(bs, Implies(And(pre...), And(post...)), trigs...)
}

func logicSyms(t *Term) map[string]bool {
	r := map[string]bool{}
	collect([]*Term{t}, func(q *Term) {
		if q.Op == "app" && !strings.HasPrefix(q.Name, "sub!") && !strings.HasPrefix(q.Name, "elem!") {
			r[q.Name] = true
		}
	})
	return r
}

// buildVC returns the SMT-LIB text of (assumptions and not goal).
func (w *World) buildVC(ass []*Term, goal *Term, lemmaIdx int, withModel bool) string {
	fs := &factSet{seen: map[*Term]bool{}}
	base := append(append([]*Term{}, ass...), Not(goal))
	for _, t := range base {
		fs.add(t)
	}
	seen := map[*Term]bool{}
	done := 0
	recRounds := map[*Term]int{}
	axDone := map[string]bool{}
	quant := map[string]*Term{}
	lits := map[*Term]bool{}
	freshes := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		n := len(fs.out)
		cur := fs.out[done:n]
		done = n
		var newT []*Term
		var rec func(t *Term, d int)
		vis := map[*Term]bool{}
		rec = func(t *Term, d int) {
			if vis[t] {
				return
			}
			vis[t] = true
			for _, a := range t.Args {
				rec(a, d)
			}
			if !seen[t] {
				seen[t] = true
				newT = append(newT, t)
			}
		}
		for _, t := range cur {
			rec(t, 0)
		}
		syms := map[string]bool{}
		for t := range seen {
			if t.Op == "app" {
				syms[t.Name] = true
			}
		}
		for _, ax := range w.axiomTerms(lemmaIdx) {
			if axDone[ax.name] {
				continue
			}
			need := true
			// all trigger symbols of the axiom must occur
			need = axiomRelevant(ax, syms)
			if need {
				axDone[ax.name] = true
				fs.add(ax.t)
			}
		}
		sort.Slice(newT, func(i, j int) bool { return newT[i].id < newT[j].id })
		for _, t := range newT {
			if t.bound {
				if t.Op == "app" && (strings.HasPrefix(t.Name, "elem!") || strings.HasPrefix(t.Name, "sub!") || t.Name == "str_of" || strings.HasPrefix(t.Name, "box!")) {
					quant[t.Name] = t
				}
				if t.Op == "app" && t.Name == "base" && baseOf(t.Args[0]).Op == "bvar" {
					quant["base"] = t
				}
				continue
			}
			w.groundFacts(fs, t, recRounds)
			switch t.Op {
			case "str":
				lits[t] = true
			case "fresh":
				freshes[t] = true
			}
		}
		if len(fs.out) == done {
			break
		}
	}
	for _, n := range sortedKeys(quant) {
		quantFacts(fs, n, quant[n])
	}
	return renderVC(fs.out, sortTerms(lits), sortTerms(freshes), withModel)
}

func renderVC(facts, ls, frs []*Term, withModel bool) string {
	// distinctness
	p := newPrinter()
	for _, t := range facts {
		p.count(t)
	}
	for _, t := range facts {
		s := p.str(t)
		fmt.Fprintf(&p.body, "(assert %s)\n", s)
	}
	dist := func(ts []*Term) {
		if len(ts) > 1 {
			var ns []string
			for _, t := range ts {
				ns = append(ns, p.str(t))
			}
			fmt.Fprintf(&p.body, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	dist(ls)
	dist(frs)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if withModel {
		b.WriteString("(set-option :produce-models true)\n")
	}
	// sorts first
	for _, d := range p.decls {
		if strings.HasPrefix(d, "(declare-sort") {
			b.WriteString(d + "\n")
		}
	}
	for _, d := range p.decls {
		if !strings.HasPrefix(d, "(declare-sort") {
			b.WriteString(d + "\n")
		}
	}
	b.WriteString(p.body.String())
	b.WriteString("(check-sat)\n")
	return b.String()
}

func sortTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func axiomRelevant(ax axiomInst, syms map[string]bool) bool {
	t := ax.t
	if t.Op == "forall" && len(t.Trig) > 0 {
		for _, tr := range t.Trig {
			ok := true
			collect(tr, func(q *Term) {
				if q.Op == "app" && !syms[q.Name] {
					ok = false
				}
			})
			if ok {
				return true
			}
		}
		return false
	}
	for s := range ax.syms {
		if syms[s] {
			return true
		}
	}
	return false
}

// groundFacts adds the theory facts a closed term needs.
func (w *World) groundFacts(fs *factSet, t *Term, recRounds map[*Term]int) {
	zero := IntC(0)
	switch t.Op {
	case "fresh":
		fs.add(Eq(App("base", IntS, t), t))
		fs.add(Eq(App("tag", IntS, t), zero))
		fs.add(Eq(App("elemarr", IntS, t), IntC(-1)))
		fs.add(ILt(zero, t))
	case "str":
		n := len(t.Name)
		fs.add(Eq(App("strlen", BV(64), t), BVc(uint64(n), 64)))
		if n <= 40 {
			for i := 0; i < n; i++ {
				fs.add(Eq(Select(strrow(t), BVc(uint64(i), 64)), BVc(uint64(t.Name[i]), 8)))
			}
		}
	case "app":
		switch {
		case strings.HasPrefix(t.Name, "sub!"):
			fs.add(Eq(App("base", IntS, t), App("base", IntS, t.Args[0])))
			fs.add(Eq(App("inv!"+t.Name, IntS, t), t.Args[0]))
			fs.add(Eq(App("tag", IntS, t), IntC(int64(w.tagOf(t.Name)))))
			fs.add(Eq(App("elemarr", IntS, t), App("elemarr", IntS, t.Args[0])))
			fs.add(ILt(zero, t))
		case strings.HasPrefix(t.Name, "elem!"):
			fs.add(Eq(App("base", IntS, t), App("base", IntS, t.Args[0])))
			fs.add(Eq(App("elemarr", IntS, t), t.Args[0]))
			fs.add(Eq(App("elemidx", BV(64), t), t.Args[1]))
			fs.add(Eq(App("tag", IntS, t), IntC(int64(w.tagOf(t.Name)))))
			fs.add(ILt(zero, t))
		case strings.HasPrefix(t.Name, "glob!"):
			fs.add(Eq(App("base", IntS, t), t))
			fs.add(Eq(App("tag", IntS, t), IntC(int64(w.tagOf(t.Name)))))
			fs.add(ILt(zero, t))
			fs.add(ILe(t, NamedVar("top0", IntS)))
		case t.Name == "base":
			// the base of a base is itself
			if a := t.Args[0]; !(a.Op == "app" && a.Name == "base") {
				fs.add(Eq(App("base", IntS, t), t))
				fs.add(Implies(Eq(a, zero), Eq(t, zero)))
			}
		case strings.HasPrefix(t.Name, "umul") && len(t.Args) == 2:
			a, b := t.Args[0], t.Args[1]
			fs.add(Eq(t, App(t.Name, t.S, b, a)))
		case t.Name == "strlen":
			fs.add(Ule(t, BVc(maxLen, 64)))
		case t.Name == "str_of":
			fs.add(Implies(Ule(t.Args[2], BVc(maxLen, 64)), Eq(App("strlen", BV(64), t), t.Args[2])))
			i := BoundVar("i", BV(64))
			sel := Select(strrow(t), i)
			fs.add(Forall([]*Term{i}, Implies(Ult(i, t.Args[2]), Eq(sel, Select(t.Args[0], BVOp("bvadd", t.Args[1], i)))), []*Term{sel}))
		case t.Name == "strcat":
			fs.add(Eq(App("strlen", BV(64), t), BVOp("bvadd", App("strlen", BV(64), t.Args[0]), App("strlen", BV(64), t.Args[1]))))
		case strings.HasPrefix(t.Name, "box!"):
			tn := t.Name[4:]
			for k, a := range t.Args {
				fs.add(Eq(App(fmt.Sprintf("unbox!%s!%d", tn, k), a.S, t), a))
			}
			fs.add(ILt(zero, t))
		case strings.HasPrefix(t.Name, "L!"):
			n := t.Name[2:]
			leaf := 0
			if i := strings.Index(n, "#"); i >= 0 {
				fmt.Sscan(n[i+1:], &leaf)
				n = n[:i]
			}
			l := w.logic[n]
			if l != nil && l.Rec {
				d := recRounds[t]
				lim := l.Depth
				if w.unfoldCap != nil && w.logicReachesAny(l, n) && *w.unfoldCap < lim {
					lim = *w.unfoldCap
				}
				if w.opaque[n] {
					lim = 0
				}
				if d < lim {
					m := map[*Term]*Term{}
					for i, f := range l.def.formals {
						m[f] = t.Args[i]
					}
					body := Subst(l.def.bodies[leaf], m)
					// nested applications get one round less
					collect([]*Term{body}, func(q *Term) {
						if q.Op == "app" && strings.HasPrefix(q.Name, "L!") && q != t {
							nd := d
							if w.logicReaches(logicBase(q.Name), n, map[string]bool{}) {
								nd++
							}
							if _, ok := recRounds[q]; !ok {
								recRounds[q] = nd
							}
						}
					})
					fs.add(Eq(t, body))
				}
			}
		}
	}
}

func (w *World) tagOf(n string) int {
	if w.tags == nil {
		w.tags = map[string]int{}
	}
	if t, ok := w.tags[n]; ok {
		return t
	}
	w.tags[n] = len(w.tags) + 1
	return w.tags[n]
}

func quantFacts(fs *factSet, name string, t *Term) {
	switch {
	case strings.HasPrefix(name, "elem!"):
		a, i := BoundVar("a", IntS), BoundVar("i", BV(64))
		e := App(name, IntS, a, i)
		fs.add(Forall([]*Term{a, i}, And(Eq(App("elemarr", IntS, e), a), Eq(App("elemidx", BV(64), e), i), Eq(App("base", IntS, e), App("base", IntS, a)), ILt(IntC(0), e)), []*Term{e}))
	case strings.HasPrefix(name, "sub!"):
		a := BoundVar("a", IntS)
		e := App(name, IntS, a)
		fs.add(Forall([]*Term{a}, And(Eq(App("inv!"+name, IntS, e), a), Eq(App("elemarr", IntS, e), App("elemarr", IntS, a)), Eq(App("base", IntS, e), App("base", IntS, a)), ILt(IntC(0), e)), []*Term{e}))
	}
}

// ---- running solvers ----

type solverRun struct {
	name string
	cmd  []string
}

func solverList(sec int) []solverRun {
	ms := fmt.Sprint(sec * 1000)
	return []solverRun{
		{"z3-new", []string{"z3-new", "-smt2", "-T:" + fmt.Sprint(sec), "smt.random_seed=0"}},
		{"z3-new/ematch", []string{"z3-new", "-smt2", "-T:" + fmt.Sprint(sec), "smt.mbqi=false", "auto_config=false"}},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=" + ms}},
		{"z3", []string{"z3", "-smt2", "-T:" + fmt.Sprint(sec)}},
	}
}

func runSolver(ctx context.Context, s solverRun, file string) (string, string) {
	args := append(append([]string{}, s.cmd[1:]...), file)
	cmd := exec.CommandContext(ctx, s.cmd[0], args...)
	out, _ := cmd.CombinedOutput()
	txt := string(out)
	for _, l := range strings.Split(txt, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			return l, txt
		}
	}
	if ctx.Err() != nil {
		return "timeout", txt
	}
	return "error", txt
}

type Solver struct {
	dir     string
	timeout int
	quick   int
	par     int
	keep    bool
	mu      sync.Mutex
	time    map[string]float64
	proved  map[string]int
	n       int
	sem     chan struct{}

	deadline time.Time // no attempt starts later
	failures int       // after several failures the rest get short attempts
}

func (s *Solver) late(o *Obl) bool {
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		o.Status, o.Detail = "unknown", "not attempted: out of time"
		return true
	}
	return false
}

func (s *Solver) limit() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.failures >= 8 && s.timeout > 4 {
		return 4
	}
	return s.timeout
}

var arithDecl = regexp.MustCompile(`\(declare-fun (umul|udiv|sdiv|urem|srem)(\d+) \([^\n]*\n`)

func interpret(text string) string {
	return arithDecl.ReplaceAllStringFunc(text, func(d string) string {
		m := arithDecl.FindStringSubmatch(d)
		op := map[string]string{"umul": "bvmul", "udiv": "bvudiv", "sdiv": "bvsdiv", "urem": "bvurem", "srem": "bvsrem"}[m[1]]
		so := "(_ BitVec " + m[2] + ")"
		return fmt.Sprintf("(define-fun %s%s ((a %s) (b %s)) %s (%s a b))\n", m[1], m[2], so, so, so, op)
	})
}

// vcPart is one piece of a split goal.
type vcPart struct {
	ass  []*Term
	goal *Term
}

func hasQuant(t *Term) bool {
	r := false
	collect([]*Term{t}, func(q *Term) {
		if q.Op == "forall" || q.Op == "exists" {
			r = true
		}
	})
	return r
}

var skolemN int

func skolemize(t *Term) *Term {
	m := map[*Term]*Term{}
	n := len(t.Args) - 1
	for _, b := range t.Args[:n] {
		skolemN++
		m[b] = NamedVar(fmt.Sprintf("sk!%s!%d", b.Name, skolemN), b.S)
	}
	return Subst(t.Args[n], m)
}

// splitGoal strips the outer logical structure of a goal.
func splitGoal(ass []*Term, goal *Term, depth int) []vcPart {
	if depth > 12 {
		return []vcPart{{ass, goal}}
	}
	with := func(a *Term) []*Term { return append(append([]*Term{}, ass...), assume1(a, 0)...) }
	switch goal.Op {
	case "and":
		var r []vcPart
		for _, g := range goal.Args {
			r = append(r, splitGoal(ass, g, depth+1)...)
		}
		return r
	case "=>":
		return splitGoal(with(goal.Args[0]), goal.Args[1], depth+1)
	case "forall":
		return splitGoal(ass, skolemize(goal), depth+1)
	case "not":
		if g := goal.Args[0]; hasQuant(g) {
			return []vcPart{{with(g), False}}
		}
	case "or":
		if hasQuant(goal) {
			k := -1
			for i, d := range goal.Args {
				if hasQuant(d) {
					k = i
				}
			}
			as := ass
			for i, d := range goal.Args {
				if i != k {
					as = append(append([]*Term{}, as...), assume1(Not(d), 0)...)
				}
			}
			return splitGoal(as, goal.Args[k], depth+1)
		}
	case "=":
		if goal.Args[0].S == BoolS && hasQuant(goal) {
			a, b := goal.Args[0], goal.Args[1]
			return append(splitGoal(with(a), b, depth+1), splitGoal(with(b), a, depth+1)...)
		}
	}
	if depth < 6 && !hasQuant(goal) && (strings.HasPrefix(goal.Op, "bv") || goal.Op == "=" && goal.Args[0].S.K == SBV) {
		if it := arithIte(goal, 0); it != nil {
			c := it.Args[0]
			return append(splitGoal(with(c), Subst(goal, map[*Term]*Term{it: it.Args[1]}), depth+1),
				splitGoal(with(Not(c)), Subst(goal, map[*Term]*Term{it: it.Args[2]}), depth+1)...)
		}
	}
	return []vcPart{{ass, goal}}
}

// arithIte finds a conditional among the operands of the arithmetic of a comparison.
func arithIte(t *Term, depth int) *Term {
	if t.Op == "ite" && t.S.K == SBV {
		return t
	}
	if depth > 5 {
		return nil
	}
	switch t.Op {
	case "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvneg":
		for _, a := range t.Args {
			if r := arithIte(a, depth+1); r != nil {
				return r
			}
		}
	}
	return nil
}

// assume1 flattens an assumption and names its witnesses.
func assume1(a *Term, depth int) []*Term {
	if depth > 8 {
		return []*Term{a}
	}
	switch a.Op {
	case "and":
		var r []*Term
		for _, q := range a.Args {
			r = append(r, assume1(q, depth+1)...)
		}
		return r
	case "exists":
		return assume1(skolemize(a), depth+1)
	case "not":
		if g := a.Args[0]; g.Op == "forall" {
			return assume1(Not(skolemize(g)), depth+1)
		} else if g.Op == "=>" && hasQuant(g) {
			return append(assume1(g.Args[0], depth+1), assume1(Not(g.Args[1]), depth+1)...)
		} else if g.Op == "or" && hasQuant(g) {
			var r []*Term
			for _, q := range g.Args {
				r = append(r, assume1(Not(q), depth+1)...)
			}
			return r
		}
	}
	return []*Term{a}
}

// Task is one obligation waiting for the solvers.
type Task struct {
	o    *Obl
	ass  []*Term
	goal *Term
	idx  int
	cap  *int
	opq  map[string]bool
}

// build runs f with the term table locked.
func (s *Solver) build(w *World, t *Task, f func() string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.unfoldCap, w.opaque = t.cap, t.opq
	return f()
}

func (s *Solver) newFile(suffix, head, text string) string {
	s.mu.Lock()
	s.n++
	id := s.n
	s.mu.Unlock()
	file := filepath.Join(s.dir, fmt.Sprintf("o%05d%s.smt2", id, suffix))
	os.WriteFile(file, []byte("; "+strings.ReplaceAll(head, "\n", " ")+"\n"+text), 0o644)
	return file
}

func (s *Solver) drop(f string) {
	if !s.keep {
		os.Remove(f)
	}
}

func (s *Solver) rec(n string, d float64, ok bool) {
	s.mu.Lock()
	s.time[n] += d
	if ok {
		s.proved[n]++
	}
	s.mu.Unlock()
}

func (s *Solver) one(sv solverRun, sec int, file string) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	r, out := runSolver(ctx, sv, file)
	s.rec(sv.name, time.Since(t0).Seconds(), r == "unsat")
	return r, out
}

// solveTask decides one obligation: the whole condition first, then piece by piece.
func (s *Solver) solveTask(w *World, t *Task) {
	o := t.o
	start := time.Now()
	defer func() { o.Time = time.Since(start).Seconds() }()
	if s.late(o) {
		return
	}
	defer func() {
		if o.Status != "proved" {
			s.mu.Lock()
			s.failures++
			s.mu.Unlock()
		}
	}()
	head := o.Func + " " + o.Name
	text := s.build(w, t, func() string { return w.buildVC(t.ass, t.goal, t.idx, false) })
	file := s.newFile("", head, text)
	defer s.drop(file)
	sv := solverList(2)[0]
	r, out := s.one(sv, 2, file)
	o.Solver = sv.name
	if o.Cover {
		// vacuity: only a refutation is bad
		if r == "unsat" {
			o.Status = "failed"
			o.Detail = "the precondition and assumptions are contradictory"
		} else {
			o.Status = "proved"
			if r != "sat" {
				o.Detail = "reachability not refuted (" + r + ")"
			}
		}
		return
	}
	if r == "unsat" {
		o.Status = "proved"
		return
	}
	if r == "error" {
		o.Detail = firstLine(out)
	}
	var parts []vcPart
	w.mu.Lock()
	parts = splitGoal(t.ass, t.goal, 0)
	w.mu.Unlock()
	if r == "sat" && interpret(text) == text && len(parts) == 1 && parts[0].goal == t.goal {
		o.Status = "failed"
		o.Model = s.model(file, text)
		o.Detail = "z3-new=sat"
		return
	}
	if len(parts) > 40 {
		parts = []vcPart{{t.ass, t.goal}}
	}
	for i, p := range parts {
		q := &Task{o: &Obl{Func: o.Func, Name: o.Name, Kind: o.Kind}, ass: p.ass, goal: p.goal, idx: t.idx, cap: t.cap, opq: t.opq}
		s.solvePart(w, q, len(parts) > 1)
		o.Solver = q.o.Solver
		if q.o.Status == "unknown" && s.byPath(w, q) {
			q.o.Status = "proved"
		}
		if q.o.Status != "proved" {
			o.Status, o.Model, o.Detail = q.o.Status, q.o.Model, q.o.Detail
			if len(parts) > 1 {
				o.Detail = fmt.Sprintf("part %d of %d: %s", i+1, len(parts), o.Detail)
			}
			return
		}
	}
	o.Status = "proved"
}

// byPath decides a condition on a merged return once per path that reaches it: path i is the
// first disjunct of the path condition that holds.
func (s *Solver) byPath(w *World, t *Task) bool {
	w.mu.Lock()
	k := -1
	for i, a := range t.ass {
		if a.Op == "or" && len(a.Args) >= 3 && len(a.Args) <= 24 && !hasQuant(a) && (k < 0 || len(a.Args) > len(t.ass[k].Args)) {
			k = i
		}
	}
	if k < 0 {
		w.mu.Unlock()
		return false
	}
	ds := t.ass[k].Args
	var cases []vcPart
	for i, d := range ds {
		m := map[*Term]*Term{d: True}
		for _, e := range ds[:i] {
			m[e] = False
		}
		var ass []*Term
		for j, a := range t.ass {
			if j != k {
				ass = append(ass, Subst(a, m))
			}
		}
		// a path's own condition first: the substitution may have simplified it away elsewhere
		ass = append(ass, assume1(d, 0)...)
		for _, e := range ds[:i] {
			ass = append(ass, Not(e))
		}
		cases = append(cases, splitGoal(ass, Subst(t.goal, m), 0)...)
	}
	w.mu.Unlock()
	if len(cases) > 60 {
		return false
	}
	for i, p := range cases {
		q := &Task{o: &Obl{Func: t.o.Func, Name: t.o.Name, Kind: t.o.Kind}, ass: p.ass, goal: p.goal, idx: t.idx, cap: t.cap, opq: t.opq}
		s.solvePart(w, q, true)
		if q.o.Status != "proved" {
			t.o.Detail = fmt.Sprintf("path %d of %d: %s", i+1, len(cases), q.o.Detail)
			return false
		}
		t.o.Solver = q.o.Solver
	}
	return true
}

func (s *Solver) solvePart(w *World, t *Task, quick bool) {
	o := t.o
	head := o.Func + " " + o.Name
	text := s.build(w, t, func() string { return w.buildVC(t.ass, t.goal, t.idx, false) })
	file := s.newFile("p", head, text)
	defer s.drop(file)
	if quick {
		sv := solverList(2)[0]
		r, _ := s.one(sv, 2, file)
		o.Solver = sv.name
		if r == "unsat" {
			o.Status = "proved"
			return
		}
		if r == "sat" && interpret(text) == text {
			o.Status, o.Model, o.Detail = "failed", s.model(file, text), "z3-new=sat"
			return
		}
	}
	type cfg struct {
		sv    solverRun
		file  string
		exact bool // a model is a counterexample
	}
	var list []cfg
	interp := interpret(text) != text
	limit := s.limit()
	for _, sv := range solverList(limit) {
		list = append(list, cfg{sv, file, !interp})
	}
	addAll := func(txt, suffix string, exact bool, names ...string) {
		f := s.newFile(suffix, head, txt)
		for _, sv := range solverList(limit) {
			for _, n := range names {
				if sv.name == n {
					sv.name += "/" + strings.TrimPrefix(suffix, "p")
					list = append(list, cfg{sv, f, exact})
				}
			}
		}
	}
	if interp {
		addAll(interpret(text), "pbv", true, "z3-new", "cvc5")
	}
	for _, k := range []int{50, 130} {
		w.mu.Lock()
		few := relevant(t.ass, t.goal, k)
		w.mu.Unlock()
		if few == nil {
			continue
		}
		addAll(s.build(w, t, func() string { return w.buildVC(few, t.goal, t.idx, false) }), fmt.Sprintf("prel%d", k), false, "z3-new", "z3-new/ematch")
	}
	g := s.build(w, t, func() string { return w.groundVC(t.ass, t.goal, t.idx) })
	if g != "" {
		addAll(g, "pground", false, "z3-new", "cvc5")
		if i := interpret(g); i != g {
			addAll(i, "pgroundbv", false, "z3-new", "cvc5")
		}
	}
	defer func() {
		for _, c := range list {
			if c.file != file {
				s.drop(c.file)
			}
		}
	}()
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if s.late(o) {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit+2)*time.Second)
	defer cancel()
	type rr struct {
		c      cfg
		r, out string
		d      float64
	}
	ch := make(chan rr, len(list))
	for _, c := range list {
		c := c
		go func() {
			t := time.Now()
			r, out := runSolver(ctx, c.sv, c.file)
			ch <- rr{c, r, out, time.Since(t).Seconds()}
		}()
	}
	res := map[string]string{}
	mfile := ""
	for range list {
		q := <-ch
		res[q.c.sv.name] = q.r
		s.rec(q.c.sv.name, q.d, q.r == "unsat")
		if q.r == "unsat" {
			o.Status, o.Solver = "proved", q.c.sv.name
			return
		}
		if q.r == "sat" && q.c.exact {
			o.Status, o.Solver = "failed", q.c.sv.name
			mfile = q.c.file
			break
		}
		if q.r == "error" && o.Detail == "" {
			o.Detail = q.c.sv.name + ": " + firstLine(q.out)
		}
	}
	cancel()
	if o.Status == "" {
		o.Status = "unknown"
	}
	var ks []string
	for k, v := range res {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	o.Detail = strings.TrimSpace(strings.Join(ks, " ") + " " + o.Detail)
	if mfile != "" {
		b, _ := os.ReadFile(mfile)
		o.Model = s.model(mfile, string(b))
	}
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func (s *Solver) model(file, text string) string {
	f := file + ".m"
	os.WriteFile(f, []byte(strings.Replace(text, "(check-sat)", "(check-sat)\n(get-model)", 1)), 0o644)
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-smt2", "-T:8", f)
	out, _ := cmd.CombinedOutput()
	return string(out)
}

func logicBase(n string) string {
	n = strings.TrimPrefix(n, "L!")
	if i := strings.Index(n, "#"); i >= 0 {
		n = n[:i]
	}
	return n
}

// logicReaches: can unfolding from lead back to to?
func (w *World) logicReaches(from, to string, seen map[string]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	l := w.logic[from]
	if l == nil || l.def == nil {
		return false
	}
	r := false
	collect(l.def.bodies, func(q *Term) {
		if !r && q.Op == "app" && strings.HasPrefix(q.Name, "L!") {
			if w.logicReaches(logicBase(q.Name), to, seen) {
				r = true
			}
		}
	})
	return r
}

// logicReachesAny: is the function recursive?
func (w *World) logicReachesAny(l *LogicFn, n string) bool {
	r := false
	collect(l.def.bodies, func(q *Term) {
		if !r && q.Op == "app" && strings.HasPrefix(q.Name, "L!") {
			if w.logicReaches(logicBase(q.Name), n, map[string]bool{}) {
				r = true
			}
		}
	})
	return r
}
