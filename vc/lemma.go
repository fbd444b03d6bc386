package main

// Lemmas about the specification functions: proved by induction, used as
// ground instances in the obligations of contracts and lemmas that name them.
// They do not mention the code.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

type Lemma struct {
	Name    string
	Params  []*Term
	Trigs   []*Term // applications whose instances trigger it
	Body    *Term
	How     string // int, up, list, nt, direct
	Var     *Term  // induction variable
	Bound   *Term
	By      []*Term
	Nt      *NT
	Uses    []string
	Fam     string // lemmas of a family may use each other (grammar induction)
	Ok      bool
	Ans     string
	Queries int
	Limit   int // >0: how often instances may follow from instances
}

// instance of a lemma for a triggering application, or nil
func (l *Lemma) inst(app *Term) *Term {
	for _, tr := range l.Trigs {
		m := map[*Term]*Term{}
		if !match(tr, app, m) {
			continue
		}
		all := true
		for _, p := range l.Params {
			if m[p] == nil {
				all = false
			}
		}
		if all {
			return Subst(l.Body, m)
		}
	}
	return nil
}

type LemSet map[*Def][]*Lemma

func (s LemSet) add(l *Lemma) {
	for _, t := range l.Trigs {
		had := false
		for _, x := range s[t.def] {
			if x == l {
				had = true
			}
		}
		if !had {
			s[t.def] = append(s[t.def], l)
		}
	}
}

var lemmas []*Lemma
var lemmaByName map[string][]*Lemma

func lemSet(names []string) LemSet {
	s := LemSet{}
	for _, n := range names {
		ls := lemmaByName[n]
		if len(ls) == 0 {
			panic("no lemma " + n)
		}
		for _, l := range ls {
			s.add(l)
		}
	}
	return s
}

// loadLemmas reads the (lemma ...) and (ntlemma ...) forms.
func (sp *Spec) loadLemmas() {
	lemmas = nil
	lemmaByName = map[string][]*Lemma{}
	add := func(l *Lemma) {
		lemmas = append(lemmas, l)
		lemmaByName[l.Name] = append(lemmaByName[l.Name], l)
		if l.Fam != "" {
			lemmaByName[l.Fam] = append(lemmaByName[l.Fam], l)
		}
	}
	ntEnv := func(n *NT) (map[string]*Term, []*Term, *Term, *Term, *Term) {
		T, i, r := Var("T", ListOf(SStr)), Var("i", SInt), Var("r", ListOf(SStr))
		ps := append(append([]*Term{T, i}, n.Params...), r)
		env := map[string]*Term{}
		for _, p := range ps {
			env[p.s] = p
		}
		ok := App(n.Ok, append([]*Term{T, i}, n.okArgs(n.Params)...)...)
		end := App(n.End, append([]*Term{T, i}, n.okArgs(n.Params)...)...)
		em := App(n.Em, ps...)
		env["i'"], env["r'"] = end, em
		return env, ps, ok, end, em
	}
	var names []string
	for n := range sp.NTs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, f := range sp.Forms {
		a := f.list[1:]
		switch f.head() {
		case "lemma":
			l := &Lemma{Name: a[0].atom, How: "direct"}
			env := map[string]*Term{}
			for _, p := range a[1].list {
				v := Var(p.list[0].atom, sp.sort(p.list[1]))
				env[v.s] = v
				l.Params = append(l.Params, v)
			}
			for _, x := range a[2:] {
				switch x.head() {
				case "trig":
					for _, y := range x.list[1:] {
						l.Trigs = append(l.Trigs, sp.expr(y, env))
					}
				case "int":
					l.How, l.Var = "int", env[x.list[1].atom]
				case "up": // (up i bound): from the bound downwards
					l.How, l.Var, l.Bound = "up", env[x.list[1].atom], sp.expr(x.list[2], env)
				case "by": // (by lemma args...): an instance
					o := lemmaByName[x.list[1].atom][0]
					m := map[*Term]*Term{}
					for k, y := range x.list[2:] {
						m[o.Params[k]] = sp.expr(y, env)
					}
					l.By = append(l.By, Subst(o.Body, m))
					l.Uses = append(l.Uses, o.Name)
				case "above": // (above i bound): at i, from everything between i and the bound
					l.How, l.Var, l.Bound = "above", env[x.list[1].atom], sp.expr(x.list[2], env)
				case "limit":
					fmt.Sscan(x.list[1].atom, &l.Limit)
				case "list":
					l.How, l.Var = "list", env[x.list[1].atom]
				case "uses":
					for _, y := range x.list[1:] {
						l.Uses = append(l.Uses, y.atom)
					}
				default:
					l.Body = sp.expr(x, env)
				}
			}
			add(l)
		case "ntlemma": // (ntlemma FAMILY (NT...) [(uses ...)] BODY)
			var on []string
			if !a[1].isl && a[1].atom == "all" {
				on = names
			} else {
				for _, y := range a[1].list {
					on = append(on, y.atom)
				}
			}
			var uses []string
			body := a[len(a)-1]
			noOk := false
			for _, x := range a[2 : len(a)-1] {
				switch x.head() {
				case "uses":
					for _, y := range x.list[1:] {
						uses = append(uses, y.atom)
					}
				case "always":
					noOk = true
				}
			}
			for _, nn := range on {
				n := sp.NTs[nn]
				if n == nil {
					f.errf("no nonterminal %s", nn)
				}
				env, ps, ok, end, em := ntEnv(n)
				b := sp.expr(body, env)
				if !noOk {
					b = Implies(ok, b)
				}
				usesR := false
				walk(b, map[*Term]bool{}, func(t *Term) {
					if t == em || t.op == OVar && t.s == "r" {
						usesR = true
					}
				})
				l := &Lemma{Name: a[0].atom + ":" + nn, Fam: a[0].atom, How: "nt", Nt: n, Uses: uses, Body: b}
				if usesR {
					l.Params, l.Trigs = ps, []*Term{em}
				} else {
					for _, p := range append([]*Term{ps[0], ps[1]}, n.okArgs(n.Params)...) {
						l.Params = append(l.Params, p)
					}
					l.Trigs = []*Term{end}
				}
				add(l)
			}
		default:
			f.errf("unknown form %s", f.head())
		}
	}
}

// prove discharges a lemma.
func (l *Lemma) prove(pr *Prover) {
	l.Queries = 0
	run := func(q *Query) bool {
		l.Queries++
		ok, how := pr.Prove(q)
		l.Ans = how
		return ok
	}
	ls := lemSet(l.Uses)
	// schematic variables become constants
	m := map[*Term]*Term{}
	for _, p := range l.Params {
		m[p] = Var("lm."+p.s, p.sort)
	}
	body := Subst(l.Body, m)
	switch l.How {
	case "direct":
		var hy []*Term
		for _, x := range l.By {
			hy = append(hy, Subst(x, m))
		}
		l.Ok = run(&Query{Hyps: hy, Goal: body, Roots: apps(body), Rounds: 2, Lem: ls})
	case "int":
		v := m[l.Var]
		ih := Subst(body, map[*Term]*Term{v: AddC(v, -1)})
		l.Ok = run(&Query{Hyps: []*Term{Implies(Ge(v, Int(1)), ih)}, Goal: body, Roots: apps(body), Rounds: 2, Lem: ls})
	case "up":
		v := m[l.Var]
		ih := Subst(body, map[*Term]*Term{v: AddC(v, 1)})
		l.Ok = run(&Query{Hyps: []*Term{Implies(Lt(v, Subst(l.Bound, m)), ih)}, Goal: body, Roots: apps(body), Rounds: 2, Lem: ls})
	case "above":
		v := m[l.Var]
		ih := *l
		ih.Body = Implies(And(Gt(l.Var, v), Lt(v, Subst(l.Bound, m)), Eq(l.Bound, Subst(l.Bound, m))), l.Body)
		all := LemSet{}
		for d, xs := range ls {
			all[d] = append(all[d], xs...)
		}
		all.add(&ih)
		self := map[*Term]bool{}
		for _, t := range l.Trigs {
			self[Subst(t, m)] = true
		}
		l.Ok = run(&Query{Goal: body, Roots: apps(body), Rounds: 1, Lem: all, NoInst: self})
	case "list":
		v := m[l.Var]
		base := Subst(body, map[*Term]*Term{v: EmpL(v.sort)})
		step := Subst(body, map[*Term]*Term{v: Snoc(v, Var("lm.elem", v.sort.Elem))})
		l.Ok = run(&Query{Goal: base, Roots: apps(base), Rounds: 2, Lem: ls}) &&
			run(&Query{Hyps: []*Term{body}, Goal: step, Roots: apps(step), Rounds: 2, Lem: ls})
	case "nt":
		// by induction over the derivation: the nonterminals called inside one
		// unfolding satisfy their lemmas
		fam := LemSet{}
		for _, x := range lemmaByName[l.Fam] {
			fam.add(x)
		}
		for d, xs := range ls {
			fam[d] = append(fam[d], xs...)
		}
		self := map[*Term]bool{}
		for _, t := range l.Trigs {
			self[Subst(t, m)] = true
		}
		keep := map[*Def]bool{} // not expanded: what the lemmas are about
		for _, x := range lemmaByName[l.Fam] {
			keep[x.Nt.Ok], keep[x.Nt.End], keep[x.Nt.Em] = true, true, true
		}
		g := body
		sub := map[*Term]*Term{}
		walk(body, map[*Term]bool{}, func(t *Term) {
			if t.op == OApp && (t.def == l.Nt.Ok || t.def == l.Nt.End || t.def == l.Nt.Em) {
				sub[t] = expand(Unfold(t.def, t.args), keep)
			}
		})
		g = Subst(body, sub)
		l.Ok = run(&Query{Goal: g, Rounds: 0, Max: 20000, Lem: fam, NoInst: self, Opaque: keep})
	}
}

// expand replaces applications of non-recursive definitions by their bodies.
func expand(t *Term, keep map[*Def]bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		a := make([]*Term, len(t.args))
		ch := false
		for i, x := range t.args {
			a[i] = rec(x)
			ch = ch || a[i] != x
		}
		r := t
		if ch {
			r = rebuild(t, a)
		}
		if r.op == OApp && !r.def.Rec && !keep[r.def] && strings.Contains(r.def.Name, ":") {
			r = rec(Unfold(r.def, r.args))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// proveLemmas discharges the named lemmas and those they use.
func proveLemmas(pr *Prover, names []string) []*Lemma {
	seen := map[*Lemma]bool{}
	var list []*Lemma
	var need func(n string)
	need = func(n string) {
		for _, l := range lemmaByName[n] {
			if seen[l] {
				continue
			}
			seen[l] = true
			for _, u := range l.Uses {
				need(u)
			}
			if l.Fam != "" {
				need(l.Fam)
			}
			list = append(list, l)
		}
	}
	for _, n := range names {
		need(n)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, l := range list {
		wg.Add(1)
		sem <- true
		go func(l *Lemma) {
			defer func() { <-sem; wg.Done() }()
			l.prove(pr)
		}(l)
	}
	wg.Wait()
	return list
}

func cmdLemmas(sp *Spec, pats []string) {
	pr := NewProver("z3-new", 8)
	defer pr.Close()
	if len(pats) == 0 {
		for n := range lemmaByName {
			pats = append(pats, n)
		}
	}
	for _, l := range proveLemmas(pr, pats) {
		if !l.Ok {
			fmt.Println("FAIL", l.Name, l.Ans)
		}
	}
	fmt.Println(len(lemmas), "lemmas, queries", pr.queries)
}
