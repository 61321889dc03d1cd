package main

// govc: contract verification of go-mp4 functions from their go/ssa form.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Name        string   `json:"name"`
	Contract    string   `json:"contract"`
	Kind        string   `json:"kind"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Failed      []string `json:"failed,omitempty"`
	Error       string   `json:"error,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
	Uses        []string `json:"uses,omitempty"`
	Notes       []string `json:"notes,omitempty"`
	Bounded     string   `json:"bounded,omitempty"`
	Seconds     float64  `json:"seconds"`
}

type OblReport struct {
	Func   string  `json:"func"`
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver,omitempty"`
	Time   float64 `json:"time"`
	Detail string  `json:"detail,omitempty"`
	Model  string  `json:"model,omitempty"`
}

type Report struct {
	Property   string             `json:"property"`
	OK         bool               `json:"ok"`
	Functions  []FuncReport       `json:"functions"`
	Failed     []OblReport        `json:"failed"`
	Total      int                `json:"total"`
	Discharged int                `json:"discharged"`
	ByKind     map[string]int     `json:"by_kind"`
	BySolver   map[string]int     `json:"by_solver"`
	SolverTime map[string]float64 `json:"solver_time"`
	Trusted    []string           `json:"trusted"`
	Axioms     []string           `json:"axioms"`
	Missing    []string           `json:"missing,omitempty"`
	LoadSec    float64            `json:"load_seconds"`
	Wall       float64            `json:"wall_seconds"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property id")
	only := flag.String("func", "", "verify only functions whose name contains this")
	out := flag.String("json", "", "write a JSON report")
	timeout := flag.Int("timeout", 20, "solver timeout (s)")
	quick := flag.Int("quick", 5, "first attempt timeout (s)")
	keep := flag.String("keep", "", "keep SMT files in this directory")
	retry := flag.Int("retry", 0, "retry that many undecided obligations at most, three times as long")
	deadline := flag.Int("deadline", 0, "start no attempt after this many seconds")
	onlyObl := flag.String("obl", "", "verify only obligations whose name contains this")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list functions")
	closure := flag.Bool("closure", true, "also verify every contract used by the property's functions")
	layouts := flag.String("layouts", "C05", "the property decided by layouts.txt as well")
	flag.Parse()
	t0 := time.Now()
	w := loadWorld(*repo, *specs)
	load := time.Since(t0).Seconds()
	if *list {
		for _, k := range sortedKeys(w.fns) {
			fmt.Println(k)
		}
		return
	}
	dir := *keep
	if dir == "" {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			panic(err)
		}
		dir = d
		defer os.RemoveAll(d)
	} else {
		os.MkdirAll(dir, 0o755)
	}
	s := &Solver{dir: dir, timeout: *timeout, quick: *quick, par: runtime.NumCPU(), keep: *keep != "", time: map[string]float64{}, sem: make(chan struct{}, 3), proved: map[string]int{}}
	if *deadline > 0 {
		s.deadline = t0.Add(time.Duration(*deadline) * time.Second)
	}
	rep := &Report{Property: *prop, ByKind: map[string]int{}, BySolver: map[string]int{}, LoadSec: load}
	// select
	var todo []*Contract
	inTodo := map[*Contract]bool{}
	add := func(c *Contract) {
		if !inTodo[c] {
			inTodo[c] = true
			todo = append(todo, c)
		}
	}
	has := func(c *Contract) bool {
		if *prop == "" {
			return true
		}
		for _, p := range c.Props {
			if p == *prop {
				return true
			}
		}
		return false
	}
	for _, c := range w.spec.Contracts {
		if c.Kind == "func" && !c.Trusted && has(c) && (*only == "" || strings.Contains(c.Target, *only)) {
			add(c)
		}
		if c.Kind == "lemma" && has(c) && len(c.Props) > 0 && (*only == "" || strings.Contains(c.Target, *only)) {
			add(c)
		}
	}
	trusted := map[string]bool{}
	usedAx := map[string]bool{}
	jobs := make(chan *Task, 4096)
	var wg sync.WaitGroup
	var undecided []*Task
	for i := 0; i < s.par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				s.solveTask(w, j)
				if j.o.Status == "unknown" && !j.o.Cover {
					s.mu.Lock()
					undecided = append(undecided, j)
					s.mu.Unlock()
				}
			}
		}()
	}
	type pending struct {
		fr   *FuncReport
		obls []*Obl
	}
	var pend []pending
	for i := 0; i < len(todo); i++ {
		c := todo[i]
		st := time.Now()
		w.mu.Lock()
		x, obls, err := w.verify(c)
		w.mu.Unlock()
		fr := &FuncReport{Name: c.Target, Contract: c.Loc, Kind: c.Kind, Bounded: c.Bounded}
		if err != nil {
			fr.Error = err.Error()
			obls = nil
			rep.Failed = append(rep.Failed, OblReport{Func: c.Target, Name: "verification condition generation", Kind: "vcgen", Status: "unknown", Detail: err.Error()})
		}
		if x != nil {
			fr.Inlined = sortedKeys(x.inlined)
			fr.Uses = sortedKeys(x.used)
			fr.Notes = sortedKeys(x.notes)
			for u := range x.used {
				if strings.HasPrefix(u, "lemma ") {
					for _, l := range w.lemmas {
						if "lemma "+l.Target == u && *closure {
							add(l)
						}
					}
					continue
				}
				uc := w.contracts[u]
				if uc == nil {
					continue
				}
				apart := false
				for _, a := range c.Apart {
					pr, name, _ := strings.Cut(a, " ")
					apart = apart || pr == *prop && strings.HasSuffix(uc.Target, "."+name)
				}
				if apart {
					trusted["contract verified in its own property's check: "+uc.Target+" ("+uc.Loc+")"] = true
				} else if uc.Kind == "func" && !uc.Trusted {
					if *closure && *only == "" {
						add(uc)
					}
				} else {
					trusted[uc.Kind+" "+strings.ReplaceAll(u, modPath, "mp4")+" ("+uc.Loc+")"] = true
				}
			}
		}
		if *onlyObl != "" {
			var f []*Obl
			for _, o := range obls {
				if strings.Contains(o.Name, *onlyObl) {
					f = append(f, o)
				}
			}
			obls = f
		}
		for _, o := range obls {
			if o.Goal == True && !o.Cover {
				o.Status = "proved"
				o.Solver = "simplifier"
				continue
			}
			idx := -1
			if c.Kind == "lemma" {
				idx = x.lemmaIdx
			}
			jobs <- &Task{o, o.Assumes, o.Goal, idx, c.Unfold, c.Opaque}
			o.Assumes = nil
		}
		fr.Seconds = time.Since(st).Seconds()
		pend = append(pend, pending{fr, obls})
	}
	close(jobs)
	wg.Wait()
	// a busy machine can starve the solvers: what is undecided gets one longer attempt, alone
	if len(undecided) > 0 && len(undecided) <= *retry {
		s.failures, s.timeout = 0, 3*s.timeout
		for _, j := range undecided {
			d := j.o.Detail
			j.o.Status, j.o.Detail = "", ""
			s.solveTask(w, j)
			if j.o.Detail == "" {
				j.o.Detail = d
			}
		}
	}
	_ = usedAx
	for _, p := range pend {
		for _, o := range p.obls {
			rep.Total++
			p.fr.Obligations++
			rep.ByKind[o.Kind]++
			if o.Status == "proved" {
				rep.Discharged++
				p.fr.Discharged++
				rep.BySolver[o.Solver]++
			} else {
				p.fr.Failed = append(p.fr.Failed, o.Name)
				rep.Failed = append(rep.Failed, OblReport{o.Func, o.Name, o.Kind, o.Pos, o.Status, o.Solver, o.Time, o.Detail, o.Model})
			}
			if *verbose {
				fmt.Printf("  %-8s %-60s %s %s %.2fs %s\n", o.Status, o.Func+" "+o.Name, o.Pos, o.Solver, o.Time, o.Detail)
			}
		}
		rep.Functions = append(rep.Functions, *p.fr)
	}
	if *layouts == *prop && *only == "" {
		frs, bad, n := w.checkLayouts(*prop, filepath.Join(*specs, "layouts.txt"))
		rep.Functions = append(rep.Functions, frs...)
		rep.Failed = append(rep.Failed, bad...)
		rep.Total += n
		rep.Discharged += n - len(bad)
		rep.ByKind["layout"] += n
		rep.BySolver["evaluation"] += n - len(bad)
	}
	for k, l := range w.spec.Text {
		if strings.HasPrefix(k, "missing:") {
			c := w.contracts[k[8:]]
			if c != nil && has(c) && *only == "" {
				rep.Missing = append(rep.Missing, k[8:]+" ("+l+")")
			}
		}
	}
	sort.Strings(rep.Missing)
	for _, a := range w.spec.Axioms {
		rep.Axioms = append(rep.Axioms, a.Name+" ("+a.Loc+")")
	}
	rep.Trusted = sortedKeys(trusted)
	rep.SolverTime = s.time
	rep.OK = len(rep.Failed) == 0 && len(rep.Missing) == 0 && rep.Total > 0
	rep.Wall = time.Since(t0).Seconds()
	for _, f := range rep.Functions {
		st := "ok"
		if f.Error != "" {
			st = "ERROR " + f.Error
		} else if f.Discharged < f.Obligations {
			st = "FAILED " + strings.Join(f.Failed, "; ")
		}
		fmt.Printf("%-70s %4d/%-4d %s\n", strings.ReplaceAll(f.Name, modPath, "mp4"), f.Discharged, f.Obligations, st)
		if *verbose {
			fmt.Println("     inlined:", f.Inlined, "uses:", f.Uses, "notes:", f.Notes)
		}
	}
	for _, m := range rep.Missing {
		fmt.Println("MISSING function under contract:", m)
	}
	fmt.Printf("total %d/%d obligations, wall %.1fs (load %.1fs)\n", rep.Discharged, rep.Total, rep.Wall, load)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if !rep.OK {
		os.Exit(1)
	}
}

// verify generates the obligations of one contract.
func (w *World) verify(c *Contract) (x *Exec, obls []*Obl, err error) {
	x = newExec(w)
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = fmt.Errorf("outside the supported subset: %s", e.msg)
			case specErr:
				err = fmt.Errorf("contract error: %s", e.msg)
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal error: %v", r)
			}
		}
	}()
	if c.Kind == "lemma" {
		obls = x.verifyLemma(c)
	} else {
		fn := w.fns[c.Target]
		if fn == nil {
			return x, nil, fmt.Errorf("function %s does not exist", c.Target)
		}
		obls = x.verifyFunc(c, fn)
	}
	for _, o := range obls {
		if o.Assumes == nil {
			o.Assumes = append([]*Term{}, x.assumes[:o.NAss]...)
		}
	}
	return
}

func (x *Exec) verifyFunc(c *Contract, fn *ssa.Function) []*Obl {
	w := x.W
	x.fnName = strings.ReplaceAll(c.Target, modPath, "mp4")
	x.contract = c
	x.entryTop = NamedVar("top0", IntS)
	st := &State{pc: True, heap: map[string]*Term{}, top: x.entryTop}
	x.assume(True, ILe(IntC(0), x.entryTop))
	var args []Val
	if len(fn.Params) != len(c.Params) {
		panic(specErr{fmt.Sprintf("%s: contract has %d parameters, the function has %d", c.Loc, len(c.Params), len(fn.Params))})
	}
	vars := map[string]Val{}
	for i, p := range fn.Params {
		v := x.symVal(p.Type(), "p_"+c.Params[i])
		fixOffsets(&v)
		args = append(args, v)
		vars[c.Params[i]] = v
		x.wf(st, v)
		if needsNonNil(p.Type()) && !c.NilOK[c.Params[i]] {
			x.assume(True, Not(Eq(v.L[0], IntC(0))))
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			_ = pt
			x.assume(True, Implies(Not(Eq(v.L[0], IntC(0))), ILt(IntC(0), v.L[0])))
		}
	}
	var bind []Val
	for _, fv := range fn.FreeVars {
		v := x.symVal(fv.Type(), "fv_"+fv.Name())
		fixOffsets(&v)
		x.wf(st, v)
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			x.assume(True, ILt(IntC(0), v.L[0]))
			// captured variable cells are objects of their own
			vars["&"+fv.Name()] = v
			x.fvCells = append(x.fvCells, v.L[0])
			vars[fv.Name()] = x.loadQ(st, v, false)
		} else {
			vars[fv.Name()] = v
		}
		bind = append(bind, v)
	}
	for i := range x.fvCells {
		for j := i + 1; j < len(x.fvCells); j++ {
			x.assume(True, Not(Eq(x.fvCells[i], x.fvCells[j])))
		}
	}
	x.vars = vars
	pkg := w.pkgs[c.Pkg]
	env := &SpecEnv{x: x, vars: vars, st: st, old: st, pkg: pkg}
	x.evalLets(env, c)
	for _, r := range c.Req {
		x.assume(True, env.Bool(r.E))
	}
	// cover: the precondition is satisfiable
	cover := &Obl{Func: x.fnName, Name: "cover:precondition", Kind: "cover", Cover: true, Goal: False, NAss: len(x.assumes)}
	for i, u := range c.Entry {
		x.useLemma(env, u, st, fmt.Sprintf("entry %d", i))
	}
	x.modAll = c.ModAll
	for _, e := range c.Mod {
		x.modLocs = append(x.modLocs, x.touchMod(st, env, e)...)
	}
	if c.Decr != nil {
		x.decr0 = env.Int64(c.Decr.E)
	}
	x.entry = st.clone()
	birthClock++
	x.entryBirt = birthClock
	rets, fc := x.runFuncRets(fn, args, bind, st, 0)
	_ = fc
	x.obls = append([]*Obl{cover}, x.obls...)
	var reach []*Term
	for _, r := range rets {
		if r.st.pc == False {
			continue
		}
		reach = append(reach, r.st.pc)
		bindResults(c, vars, r.val)
		e := &SpecEnv{x: x, vars: vars, st: r.st, old: x.entry, pkg: pkg}
		for i, u := range c.Use {
			x.useLemma(e, u, r.st, fmt.Sprintf("use %d", i))
		}
		for i, en := range c.Ens {
			// conjunctions are split
			x.obligeSplit(r.st, "post", clauseName(en, i), r, e, en.E)
		}
	}
	for i, ck := range c.Checks {
		if !x.checked[ck] && ck.Callee != "make" {
			x.obls = append(x.obls, &Obl{Func: x.fnName, Name: fmt.Sprintf("check %s#%s: no such call", ck.Callee, clauseName(ck.Clause, i)), Kind: "check", Goal: False, NAss: len(x.assumes)})
		}
	}
	if len(rets) == 0 && !c.MustPan {
		x.notes["no normal return"] = true
	}
	if len(reach) > 0 {
		x.obls = append(x.obls, &Obl{Func: x.fnName, Name: "cover:return", Kind: "cover", Cover: true, Goal: Not(Or(reach...)), NAss: len(x.assumes)})
	}
	return x.obls
}

func (x *Exec) obligeSplit(st *State, kind, name string, r retRec, env *SpecEnv, e *Expr) {
	if e.Op == "binary" && e.Name == "&&" {
		x.obligeSplit(st, kind, name, r, env, e.Args[0])
		x.obligeSplit(st, kind, name, r, env, e.Args[1])
		return
	}
	x.oblige(st, kind, name, r.pos, env.Bool(e))
}

func (x *Exec) verifyLemma(c *Contract) []*Obl {
	w := x.W
	x.fnName = "lemma " + c.Target
	x.contract = c
	for i, l := range w.lemmas {
		if l == c {
			x.lemmaIdx = i
		}
	}
	pkg := w.pkgs[c.Pkg]
	st := &State{pc: True, heap: map[string]*Term{}, top: NamedVar("top0", IntS)}
	vars := map[string]Val{}
	for i, p := range c.Params {
		t := w.resolveType(c.PTypes[i], pkg)
		if t == nil {
			panic(specErr{c.Loc + ": unknown type " + c.PTypes[i]})
		}
		v := x.symVal(t, "p_"+p)
		fixOffsets(&v)
		vars[p] = v
		x.wf(st, v)
	}
	env := &SpecEnv{x: x, vars: vars, st: st, old: st, pkg: pkg}
	x.evalLets(env, c)
	for _, r := range c.Req {
		x.assume(True, env.Bool(r.E))
	}
	x.obls = append(x.obls, &Obl{Func: x.fnName, Name: "cover:precondition", Kind: "cover", Cover: true, Goal: False, NAss: len(x.assumes)})
	if c.Induct != "" {
		x.inductHyp(c, vars, st, pkg)
	}
	for i, u := range c.Use {
		x.useLemma(env, u, st, fmt.Sprintf("use %d", i))
	}
	for i, e := range c.Ens {
		x.oblige(st, "lemma", clauseName(e, i), 0, env.Bool(e.E))
	}
	return x.obls
}

// inductHyp: the lemma may be assumed for parameter value n-1 (unsigned induction) with all other parameters universally
// quantified where a trigger is given, or equal otherwise.
func (x *Exec) inductHyp(c *Contract, vars map[string]Val, st *State, pkg *types.Package) {
	n := vars[c.Induct]
	t := n.term()
	if t.S.K != SBV {
		panic(specErr{c.Loc + ": induction variable must be an integer"})
	}
	prev := BVOp("bvsub", t, BVc(1, t.S.W))
	hv := map[string]Val{}
	var bs []*Term
	for i, p := range c.Params {
		if p == c.Induct {
			hv[p] = mkVal(n.T, prev)
			continue
		}
		if len(c.Trig) == 0 {
			hv[p] = vars[p]
			continue
		}
		tt := x.W.resolveType(c.PTypes[i], pkg)
		v := Val{T: tt}
		for _, s := range leafSorts(tt) {
			b := BoundVar(p, s)
			bs = append(bs, b)
			v.L = append(v.L, b)
		}
		hv[p] = v
	}
	env := &SpecEnv{x: x, vars: hv, st: st, old: st, pkg: pkg, conc: len(bs) > 0}
	x.evalLets(env, c)
	var pre, post []*Term
	for _, r := range c.Req {
		pre = append(pre, env.Bool(r.E))
	}
	for _, e := range c.Ens {
		post = append(post, env.Bool(e.E))
	}
	h := Implies(And(pre...), And(post...))
	if len(bs) > 0 {
		var trigs [][]*Term
		for _, tr := range c.Trig {
			var ts []*Term
			for _, q := range tr {
				ts = append(ts, env.Eval(q).term())
			}
			trigs = append(trigs, ts)
		}
		h = Forall(bs, h, trigs...)
	}
	x.assume(Not(Eq(t, BVc(0, t.S.W))), h)
}
