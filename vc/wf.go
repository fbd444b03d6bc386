package main

// The recursive definitions of the specification are well founded: along every
// call inside a cycle of definitions a measure goes down, or stays the same
// along calls that form no cycle. (An ill-founded definition could make the
// logic inconsistent, and everything provable.)

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

type wfCall struct {
	from, to *Def
	args     []*Term
	guard    []*Term
}

func (d *Def) pbody() *Term {
	if d.PBody != nil {
		return d.PBody
	}
	return d.Body
}

// wfCalls lists the calls of comp in a body, with the conditions under which
// the body needs them.
func wfCalls(d *Def, comp map[*Def]bool) []wfCall {
	has := map[*Term]bool{}
	memo := map[*Term]bool{}
	var mark func(t *Term) bool
	mark = func(t *Term) bool {
		if memo[t] {
			return has[t]
		}
		memo[t] = true
		r := t.op == OApp && comp[t.def]
		for _, a := range t.args {
			if mark(a) {
				r = true
			}
		}
		has[t] = r
		return r
	}
	mark(d.pbody())
	var out []wfCall
	type key struct{ t, g *Term }
	seen := map[key]bool{}
	var rec func(t *Term, g []*Term)
	rec = func(t *Term, g []*Term) {
		if !has[t] {
			return
		}
		gt := True
		for _, x := range g {
			gt = And(gt, x)
		}
		if gt == False || seen[key{t, gt}] {
			return
		}
		seen[key{t, gt}] = true
		with := func(x *Term) []*Term { return append(append([]*Term{}, g...), x) }
		switch t.op {
		case OIte:
			rec(t.args[0], g)
			rec(t.args[1], with(t.args[0]))
			rec(t.args[2], with(Not(t.args[0])))
			return
		case OAnd, OOr: // what needs no call is looked at first
			var free []*Term
			for _, a := range t.args {
				if !has[a] {
					if t.op == OOr {
						a = Not(a)
					}
					free = append(free, a)
				}
			}
			// then the others, the shorter ones first
			h := append(append([]*Term{}, g...), free...)
			var rest []*Term
			for _, a := range t.args {
				if has[a] {
					rest = append(rest, a)
				}
			}
			sort.SliceStable(rest, func(x, y int) bool { return len(rest[x].String()) < len(rest[y].String()) })
			for _, a := range rest {
				rec(a, h)
				if t.op == OOr {
					a = Not(a)
				}
				h = append(append([]*Term{}, h...), a)
			}
			return
		case OApp:
			if comp[t.def] {
				out = append(out, wfCall{d, t.def, t.args, g})
			}
		}
		for _, a := range t.args {
			rec(a, g)
		}
	}
	rec(d.pbody(), nil)
	return out
}

type wfMeasure struct {
	name string
	of   map[*Def]func(args []*Term) *Term // not below 0
}

// wfMeasures: what may go down along the calls of a cycle.
func wfMeasures(comp []*Def) []wfMeasure {
	type gen struct {
		name string
		f    func(d *Def) func([]*Term) *Term
	}
	at := func(d *Def, n string, s *Sort) int {
		for k, p := range d.Params {
			if p.s == n && p.sort == s {
				return k
			}
		}
		return -1
	}
	nat := func(x *Term) *Term { return Ite(Ge(x, Int(0)), x, Int(0)) }
	var gens []gen
	done := map[string]bool{}
	for _, d := range comp {
		for _, p := range d.Params {
			if p.sort.Kind == KList {
				l, s := p.s, p.sort
				for _, q := range d.Params {
					if q.sort != SInt {
						continue
					}
					i := q.s
					gens = append(gens, gen{"len " + l + " - " + i, func(d *Def) func([]*Term) *Term {
						a, b := at(d, l, s), at(d, i, SInt)
						if a < 0 || b < 0 {
							return nil
						}
						return func(x []*Term) *Term { return nat(Sub(Len(x[a]), x[b])) }
					}})
				}
				gens = append(gens, gen{"len " + l, func(d *Def) func([]*Term) *Term {
					a := at(d, l, s)
					if a < 0 {
						return nil
					}
					return func(x []*Term) *Term { return Len(x[a]) }
				}})
			}
			if p.sort == SInt {
				i := p.s
				gens = append(gens, gen{i, func(d *Def) func([]*Term) *Term {
					b := at(d, i, SInt)
					if b < 0 {
						return nil
					}
					return func(x []*Term) *Term { return nat(x[b]) }
				}})
				for _, q := range d.Params {
					if q.sort != SInt || q == p {
						continue
					}
					j := q.s
					gens = append(gens, gen{j + " - " + i, func(d *Def) func([]*Term) *Term {
						a, b := at(d, j, SInt), at(d, i, SInt)
						if a < 0 || b < 0 {
							return nil
						}
						return func(x []*Term) *Term { return nat(Sub(x[a], x[b])) }
					}})
				}
			}
		}
	}
	var out []wfMeasure
	for _, g := range gens {
		if done[g.name] {
			continue
		}
		done[g.name] = true
		m := wfMeasure{g.name, map[*Def]func([]*Term) *Term{}}
		ok := true
		for _, d := range comp {
			f := g.f(d)
			if f == nil {
				ok = false
				break
			}
			m.of[d] = f
		}
		if ok {
			out = append(out, m)
		}
	}
	return out
}

// wellFounded discharges the obligations of all cycles of definitions.
func (sp *Spec) wellFounded(pr *Prover) []*Ob {
	var defs []*Def
	idx := map[*Def]int{}
	for _, d := range sp.defs {
		if !d.Macro && d.Body != nil {
			idx[d] = len(defs)
			defs = append(defs, d)
		}
	}
	adj := make([][]int, len(defs))
	for i, d := range defs {
		for _, x := range d.calls() {
			if j, ok := idx[x]; ok {
				adj[i] = append(adj[i], j)
			}
		}
	}
	comp := scc(adj)
	groups := map[int][]*Def{}
	for i, d := range defs {
		if d.Rec {
			groups[comp[i]] = append(groups[comp[i]], d)
		}
	}
	var ks []int
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	lem := lemSet(wfLemmas)
	obs := make([]*Ob, len(ks))
	var wg sync.WaitGroup
	for n, k := range ks {
		wg.Add(1)
		go func(n int, g []*Def) {
			defer wg.Done()
			obs[n] = wfGroup(pr, g, lem)
		}(n, groups[k])
	}
	wg.Wait()
	return obs
}

var wfLemmas = []string{"skipUp", "fwd", "eolUp", "blkUp", "strUp", "cvRestUp",
	"cvNamesUp", "cvRefUp", "cvConsUp", "cvColUp", "cvTcUp", "cvDefsUp"}

func wfGroup(pr *Prover, g []*Def, lem LemSet) *Ob {
	o := &Ob{Fn: g[0].Name, Kind: "wf", Label: fmt.Sprintf("definition is well founded (%d in the cycle)", len(g)), Goal: True}
	in := map[*Def]bool{}
	for _, d := range g {
		in[d] = true
	}
	var calls []wfCall
	for _, d := range g {
		calls = append(calls, wfCalls(d, in)...)
	}
	if os.Getenv("DBGWF") != "" {
		fmt.Fprintln(os.Stderr, "WF", g[0].Name, len(g), "calls", len(calls))
	}
	for _, m := range wfMeasures(g) {
		type edge struct{ a, b int }
		num := map[*Def]int{}
		for i, d := range g {
			num[d] = i
		}
		// calls that may leave the measure as it is, where it is 0 and elsewhere
		same := [2][][]int{make([][]int, len(g)), make([][]int, len(g))}
		var mu sync.Mutex
		bad := 0
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, c := range calls {
			wg.Add(1)
			sem <- true
			go func(c wfCall) {
				defer func() { <-sem; wg.Done() }()
				ps := make([]*Term, len(c.from.Params))
				copy(ps, c.from.Params)
				m0, m1 := m.of[c.from](ps), m.of[c.to](c.args)
				prove := func(goal *Term, hy ...*Term) bool {
					h := append(append([]*Term{}, c.guard...), hy...)
					all := append([]*Term{goal}, h...)
					for rounds := 0; rounds < 2; rounds++ {
						var roots []*Term
						if rounds > 0 {
							for _, x := range all {
								roots = append(roots, apps(x)...)
							}
						}
						if ok, _ := pr.Prove(&Query{Hyps: h, Goal: goal, Roots: roots, Rounds: rounds, Lem: lem}); ok {
							return true
						}
					}
					return false
				}
				if prove(Lt(m1, m0)) {
					return
				}
				if !prove(Le(m1, m0)) {
					mu.Lock()
					bad++
					if os.Getenv("DBGWF") != "" {
						fmt.Fprintln(os.Stderr, "  UP", m.name, c.from.Name, "->", App(c.to, c.args...), "when", c.guard)
					}
					mu.Unlock()
					return
				}
				for z, cond := range []*Term{Eq(m0, Int(0)), Gt(m0, Int(0))} {
					if !prove(Lt(m1, m0), cond) {
						mu.Lock()
						same[z][num[c.from]] = append(same[z][num[c.from]], num[c.to])
						mu.Unlock()
					}
				}
			}(c)
		}
		wg.Wait()
		if bad == 0 && acyclic(same[0]) && acyclic(same[1]) {
			o.Ok, o.How = true, "measure "+m.name
			return o
		}
		if os.Getenv("DBGWF") != "" && bad == 0 {
			for z := range same {
				for a, bs := range same[z] {
					for _, b := range bs {
						fmt.Fprintln(os.Stderr, "  SAME", z, m.name, g[a].Name, "->", g[b].Name)
					}
				}
			}
		}
	}
	return o
}

func acyclic(adj [][]int) bool {
	st := make([]int, len(adj))
	var dfs func(int) bool
	dfs = func(x int) bool {
		st[x] = 1
		for _, y := range adj[x] {
			if st[y] == 1 || st[y] == 0 && !dfs(y) {
				return false
			}
		}
		st[x] = 2
		return true
	}
	for x := range adj {
		if st[x] == 0 && !dfs(x) {
			return false
		}
	}
	return true
}
