package main

// Ground instantiation: quantified assumptions are replaced by the instances their triggers select among the
// ground terms of the verification condition, and what is left of the quantifiers is dropped. Every step only
// weakens the assumptions (or introduces witnesses), so "unsat" carries over to the original condition.

import "strings"

type grounder struct {
	uf      map[*Term]*Term
	members map[*Term][]*Term
	index   map[string][]*Term // op/name -> ground terms
	have    map[*Term]bool
	doneIns map[string]bool
	quants  map[*Term]int
	n       int
}

func gkey(t *Term) string {
	if t.Op == "app" {
		return "app " + t.Name
	}
	return t.Op
}

func newGrounder() *grounder {
	return &grounder{uf: map[*Term]*Term{}, members: map[*Term][]*Term{}, index: map[string][]*Term{}, have: map[*Term]bool{}, doneIns: map[string]bool{}, quants: map[*Term]int{}}
}

func (g *grounder) find(t *Term) *Term {
	for {
		p, ok := g.uf[t]
		if !ok {
			return t
		}
		t = p
	}
}

func (g *grounder) union(a, b *Term) {
	a, b = g.find(a), g.find(b)
	if a == b {
		return
	}
	ma, mb := g.cls(a), g.cls(b)
	g.uf[b] = a
	g.members[a] = append(append([]*Term{}, ma...), mb...)
	delete(g.members, b)
}

func (g *grounder) cls(r *Term) []*Term {
	if m, ok := g.members[r]; ok {
		return m
	}
	return []*Term{r}
}

func (g *grounder) addTerm(t *Term) {
	if g.have[t] || t.bound {
		return
	}
	g.have[t] = true
	g.index[gkey(t)] = append(g.index[gkey(t)], t)
}

// pos returns t with its existentials (at this polarity) replaced by witnesses.
func pos(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.Op {
	case "and":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, pos(a))
		}
		return And(r...)
	case "or":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, pos(a))
		}
		return Or(r...)
	case "=>":
		return Or(neg(t.Args[0]), pos(t.Args[1]))
	case "not":
		return neg(t.Args[0])
	case "exists":
		return pos(skolemize(t))
	case "=":
		if t.Args[0].S == BoolS {
			a, b := t.Args[0], t.Args[1]
			return And(Or(neg(a), pos(b)), Or(pos(a), neg(b)))
		}
	case "ite":
		if t.S == BoolS {
			return And(Or(neg(t.Args[0]), pos(t.Args[1])), Or(pos(t.Args[0]), pos(t.Args[2])))
		}
	}
	return t
}

func neg(t *Term) *Term {
	if !hasQuant(t) {
		return Not(t)
	}
	switch t.Op {
	case "and":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, neg(a))
		}
		return Or(r...)
	case "or":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, neg(a))
		}
		return And(r...)
	case "=>":
		return And(pos(t.Args[0]), neg(t.Args[1]))
	case "not":
		return pos(t.Args[0])
	case "forall":
		return neg(skolemize(t))
	case "exists":
		n := len(t.Args) - 1
		body := t.Args[n]
		return Forall(t.Args[:n], Not(body), autoTrig(t.Args[:n], body)...)
	case "=":
		if t.Args[0].S == BoolS {
			a, b := t.Args[0], t.Args[1]
			return And(Or(pos(a), pos(b)), Or(neg(a), neg(b)))
		}
	case "ite":
		if t.S == BoolS {
			return And(Or(neg(t.Args[0]), neg(t.Args[1])), Or(pos(t.Args[0]), neg(t.Args[2])))
		}
	}
	return Not(t)
}

// conjList splits an assertion.
func conjList(t *Term, out []*Term) []*Term {
	if t.Op == "and" {
		for _, a := range t.Args {
			out = conjList(a, out)
		}
		return out
	}
	return append(out, t)
}

// topForalls: universal quantifiers in positive position (under and/or only).
func topForalls(t *Term, out []*Term) []*Term {
	switch t.Op {
	case "and", "or":
		for _, a := range t.Args {
			out = topForalls(a, out)
		}
	case "forall":
		out = append(out, t)
	}
	return out
}

func replaceTop(t, q, by *Term) *Term {
	if t == q {
		return by
	}
	switch t.Op {
	case "and", "or":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, replaceTop(a, q, by))
		}
		if t.Op == "and" {
			return And(r...)
		}
		return Or(r...)
	}
	return t
}

func (g *grounder) match(p, t *Term, s map[*Term]*Term, own map[*Term]bool, k func()) {
	if p.Op == "bvar" && own[p] {
		if p.S != t.S {
			return
		}
		if o, ok := s[p]; ok {
			if g.find(o) == g.find(t) {
				k()
			}
			return
		}
		s[p] = t
		k()
		delete(s, p)
		return
	}
	if !p.bound {
		if g.find(p) == g.find(t) {
			k()
		}
		return
	}
	for _, m := range g.cls(g.find(t)) {
		if m.Op != p.Op || m.Name != p.Name || len(m.Args) != len(p.Args) || m.I != p.I || m.J != p.J || m.S != p.S {
			continue
		}
		var rec func(i int)
		rec = func(i int) {
			if i == len(p.Args) {
				k()
				return
			}
			g.match(p.Args[i], m.Args[i], s, own, func() { rec(i + 1) })
		}
		rec(0)
	}
}

// instances calls f for every substitution the triggers of q give.
func (g *grounder) instances(q *Term, f func(map[*Term]*Term) bool) {
	nv := len(q.Args) - 1
	own := map[*Term]bool{}
	for _, v := range q.Args[:nv] {
		own[v] = true
	}
	trigs := q.Trig
	if len(trigs) == 0 {
		trigs = autoTrig(q.Args[:nv], q.Args[nv])
	}
	for _, tr := range trigs {
		s := map[*Term]*Term{}
		stop := false
		var rec func(i int)
		rec = func(i int) {
			if stop {
				return
			}
			if i == len(tr) {
				for v := range own {
					if s[v] == nil {
						return
					}
				}
				c := map[*Term]*Term{}
				for k, v := range s {
					c[k] = v
				}
				if !f(c) {
					stop = true
				}
				return
			}
			cands := g.index[gkey(tr[i])]
			for _, t := range cands {
				if stop {
					return
				}
				g.match1(tr[i], t, s, own, func() { rec(i + 1) })
			}
		}
		rec(0)
	}
}

// match1 matches the top of a pattern against this very term.
func (g *grounder) match1(p, t *Term, s map[*Term]*Term, own map[*Term]bool, k func()) {
	if t.Op != p.Op || t.Name != p.Name || len(t.Args) != len(p.Args) || t.S != p.S {
		return
	}
	var rec func(i int)
	rec = func(i int) {
		if i == len(p.Args) {
			k()
			return
		}
		g.match(p.Args[i], t.Args[i], s, own, func() { rec(i + 1) })
	}
	rec(0)
}

// groundVC returns the quantifier-free weakening of (assumptions and not goal), or "" when there was no quantifier.
func (w *World) groundVC(ass []*Term, goal *Term, lemmaIdx int) string {
	fs := &factSet{seen: map[*Term]bool{}}
	anyQ := false
	add := func(t *Term) {
		if hasQuant(t) {
			anyQ = true
		}
		for _, c := range conjList(pos(t), nil) {
			fs.add(c)
		}
	}
	for _, t := range ass {
		add(t)
	}
	add(Not(goal))
	g := newGrounder()
	seen := map[*Term]bool{}
	recRounds := map[*Term]int{}
	axDone := map[string]bool{}
	lits := map[*Term]bool{}
	freshes := map[*Term]bool{}
	done := 0
	const maxInst, perQuant, maxRounds = 4000, 600, 7
	for round := 0; round < maxRounds; round++ {
		// theory facts to a fixpoint
		for k := 0; k < 8; k++ {
			n := len(fs.out)
			cur := fs.out[done:n]
			done = n
			var newT []*Term
			vis := map[*Term]bool{}
			var rec func(t *Term)
			rec = func(t *Term) {
				if vis[t] || seen[t] {
					return
				}
				vis[t] = true
				for _, a := range t.Args {
					rec(a)
				}
				if !t.bound {
					seen[t] = true
					newT = append(newT, t)
				}
			}
			for _, t := range cur {
				rec(t)
				if t.Op == "=" && !t.bound {
					g.union(t.Args[0], t.Args[1])
				}
			}
			// equalities between non-boolean terms nested in conjunction were split above
			syms := map[string]bool{}
			collect(fs.out, func(q *Term) {
				if q.Op == "app" {
					syms[q.Name] = true
				}
			})
			for _, ax := range w.axiomTerms(lemmaIdx) {
				if !axDone[ax.name] && axiomRelevant(ax, syms) {
					axDone[ax.name] = true
					add(ax.t)
				}
			}
			for _, t := range newT {
				g.addTerm(t)
				m := len(fs.out)
				w.groundFacts(fs, t, recRounds)
				for i := m; i < len(fs.out); i++ {
					if hasQuant(fs.out[i]) {
						fs.out[i] = pos(fs.out[i])
					}
				}
				switch t.Op {
				case "str":
					lits[t] = true
				case "fresh":
					freshes[t] = true
				}
			}
			if len(fs.out) == done {
				break
			}
		}
		// instances
		before := len(fs.out)
		for _, f := range fs.out[:before:before] {
			if !hasQuant(f) {
				continue
			}
			anyQ = true
			for _, q := range topForalls(f, nil) {
				if g.quants[q] > perQuant || g.n > maxInst {
					continue
				}
				g.instances(q, func(s map[*Term]*Term) bool {
					var kb strings.Builder
					kb.WriteString(itoa(f.id) + "/" + itoa(q.id))
					for _, v := range q.Args[:len(q.Args)-1] {
						kb.WriteString("," + itoa(s[v].id))
					}
					if g.doneIns[kb.String()] {
						return true
					}
					g.doneIns[kb.String()] = true
					inst := pos(Subst(q.Args[len(q.Args)-1], s))
					g.quants[q]++
					g.n++
					for _, c := range conjList(replaceTop(f, q, inst), nil) {
						fs.add(c)
					}
					return g.quants[q] <= perQuant && g.n <= maxInst
				})
			}
		}
		if len(fs.out) == before {
			break
		}
	}
	if !anyQ {
		return ""
	}
	var keep []*Term
	for _, t := range fs.out {
		if !hasQuant(t) {
			keep = append(keep, t)
		}
	}
	return renderVC(keep, sortTerms(lits), sortTerms(freshes), false)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}
