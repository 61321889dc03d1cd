package main

// Relevance filter: an extra attempt on each stubborn piece with only the
// assumptions closest to the goal (in shared symbols). Leaving assumptions
// out is sound: what follows from fewer follows from all.

import (
	"math"
	"sort"
	"strings"
)

func relSyms(t *Term) map[string]bool {
	r := map[string]bool{}
	collect([]*Term{t}, func(q *Term) {
		switch q.Op {
		case "app":
			if !strings.HasPrefix(q.Name, "sub!") && !strings.HasPrefix(q.Name, "elem!") && q.Name != "base" && q.Name != "tag" && q.Name != "elemarr" && q.Name != "elemidx" {
				r["a:"+q.Name] = true
			}
		case "var", "fresh", "str":
			r["v:"+q.Name] = true
		case "bvar", "const", "true", "false":
		default:
			if len(q.Args) == 0 && q.Name != "" {
				r["v:"+q.Name] = true
			}
		}
	})
	return r
}

// relevant returns the k assumptions closest to the goal, in their order.
func relevant(ass []*Term, goal *Term, k int) []*Term {
	if len(ass) <= k {
		return nil
	}
	syms := make([]map[string]bool, len(ass))
	freq := map[string]int{}
	for i, a := range ass {
		syms[i] = relSyms(a)
		for s := range syms[i] {
			freq[s]++
		}
	}
	wt := func(s string) float64 { return 1 + 4/math.Log2(float64(freq[s])+2) }
	cur := relSyms(goal)
	picked := make([]bool, len(ass))
	n := 0
	thr := 0.75
	for n < k {
		type sc struct {
			i int
			v float64
		}
		var c []sc
		for i := range ass {
			if picked[i] {
				continue
			}
			in, out := 0.0, 0.0
			for s := range syms[i] {
				if cur[s] {
					in += wt(s)
				} else {
					out += 1
				}
			}
			if in == 0 {
				continue
			}
			c = append(c, sc{i, in / (in + out)})
		}
		if len(c) == 0 {
			break
		}
		sort.SliceStable(c, func(a, b int) bool {
			if c[a].v != c[b].v {
				return c[a].v > c[b].v
			}
			return c[a].i > c[b].i
		})
		added := 0
		for _, q := range c {
			if n >= k || q.v < thr && added > 0 {
				break
			}
			picked[q.i] = true
			n++
			added++
			if added >= 1+k/8 {
				break
			}
		}
		for i := range ass {
			if picked[i] {
				for s := range syms[i] {
					cur[s] = true
				}
			}
		}
		thr += (1 - thr) / 6
	}
	var r []*Term
	for i, a := range ass {
		if picked[i] {
			r = append(r, a)
		}
	}
	return r
}
