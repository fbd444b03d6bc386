package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result struct {
	Runs    []*FnRun
	Missing []string
	Failed  []*Ob
	Demoted []string
	Time    time.Duration
}

// bindContracts attaches contracts to functions.
func (m *Module) bindContracts(cs []*Contract) (missing []string) {
	fns := m.functions()
	m.cs = cs
	m.scanFields()
	for _, c := range cs {
		c.fn = nil
		if fn := fns[c.Name]; fn != nil && (c.checkSig(fn) == nil || c.byValue(fn)) {
			c.fn = fn
			m.contract[fn] = c
		}
	}
	m.renamed = m.matchRenamed(cs, fns)
	for _, c := range cs {
		if c.fn != nil {
			continue
		}
		fn := fns[c.Name]
		if fn == nil {
			missing = append(missing, c.Name+": no such function")
			continue
		}
		if err := c.checkSig(fn); err != nil {
			missing = append(missing, c.Name+": "+err.Error())
		}
	}
	m.setOpaque(cs)
	return
}

// byValue: where the contract says what is left behind a pointer, the function
// may take the value and return the new one instead; the contract then says
// the same of the result.
func (c *Contract) byValue(fn *ssa.Function) bool {
	if len(c.ptr) != 1 || len(c.ret) != 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	ptr := c.ptr
	c.ptr = map[int]*Sx{}
	for _, x := range ptr {
		c.ret = []*Sx{x}
	}
	if c.checkSig(fn) == nil {
		return true
	}
	c.ptr, c.ret = ptr, nil
	return false
}

func (m *Module) setOpaque(cs []*Contract) {
	m.prover.opaque = map[*Def]bool{}
	for _, c := range cs {
		if c.fn != nil && !c.off && c.nt != nil {
			m.prover.opaque[c.nt.Ok] = true
			m.prover.opaque[c.nt.End] = true
			m.prover.opaque[c.nt.Em] = true
		}
		if c.fn != nil && !c.off && c.view == "converter" {
			for _, d := range c.defs {
				m.prover.opaque[d] = true
			}
		}
	}
}

// prove discharges obligations in parallel. Obligations with the same
// hypotheses are first tried together, then one by one.
func (m *Module) prove(obs []*Ob) {
	groups := map[string][]*Ob{}
	var order []string
	for _, o := range obs {
		if o.Ok {
			continue
		}
		var k strings.Builder
		for _, h := range o.Hyps {
			fmt.Fprintf(&k, "%d ", h.id)
		}
		k.WriteString("|")
		for _, h := range o.Roots {
			fmt.Fprintf(&k, "%d ", h.id)
		}
		ks := k.String()
		if groups[ks] == nil {
			order = append(order, ks)
		}
		groups[ks] = append(groups[ks], o)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, k := range order {
		g := groups[k]
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			if len(g) > 1 {
				goal := True
				for _, o := range g {
					goal = And(goal, o.Goal)
				}
				if ok, how := m.prover.Prove(&Query{Hyps: g[0].Hyps, Goal: goal, Roots: g[0].Roots, Rounds: 0, Lem: g[0].Lem}); ok {
					for _, o := range g {
						o.Ok, o.How = true, how
					}
					return
				}
			}
			for _, o := range g {
				o.Ok, o.How = m.prover.Prove(&Query{Hyps: o.Hyps, Goal: o.Goal, Roots: o.Roots, Rounds: 2, Lem: o.Lem})
			}
		}()
	}
	wg.Wait()
}

func (m *Module) verifyFn(c *Contract) *FnRun {
	r := m.exec(c, c.fn, 0)
	m.prove(r.Obs)
	if r.Cuts > 0 && len(r.failed()) > 0 { // stronger loop invariants
		r = m.exec(c, c.fn, 1)
		m.prove(r.Obs)
	}
	if r.Cuts > 0 && len(r.failed()) > 0 && r.helped { // by way of helper definitions alone
		if q := m.exec(c, c.fn, 2); q.Cuts > 0 {
			m.prove(q.Obs)
			if len(q.failed()) == 0 {
				return q
			}
			if os.Getenv("DBGHELP") != "" {
				return q
			}
		}
	}
	return r
}

func (r *FnRun) failed() []*Ob {
	var f []*Ob
	for _, o := range r.Obs {
		if !o.Ok {
			f = append(f, o)
		}
	}
	return f
}

func cmdVerify(sp *Spec, repo string, pats []string) {
	pr := NewProver("z3-new", 8)
	defer pr.Close()
	t0 := time.Now()
	initViews(sp)
	m, err := LoadModule(sp, repo, pr)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	cs := LoadContracts(sp, "/verif/contracts")
	for _, x := range m.bindContracts(cs) {
		fmt.Println("unbound", x)
	}
	fmt.Println("loaded", time.Since(t0), m.initErr)
	verbose := os.Getenv("V") != ""
	for _, c := range cs {
		if c.fn == nil {
			continue
		}
		hit := len(pats) == 0
		for _, p := range pats {
			if strings.Contains(c.Name, p) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		t1 := time.Now()
		r := m.verifyFn(c)
		f := r.failed()
		fmt.Printf("%-60s obs %4d failed %3d leaves %4d steps %6d cuts %d %v\n", c.Name, len(r.Obs), len(f), r.Leaves, r.Steps, r.Cuts, time.Since(t1).Round(time.Millisecond))
		sort.Slice(f, func(i, j int) bool { return f[i].Name() < f[j].Name() })
		for k, o := range f {
			if k > 8 && !verbose {
				break
			}
			fmt.Println("   FAIL", o.Name(), o.How)
			if verbose {
				for _, h := range o.Hyps {
					fmt.Println("       H", h)
				}
				fmt.Println("       G", o.Goal)
				for _, x := range o.Roots {
					fmt.Println("       R", x)
				}
			}
		}
		if verbose {
			for _, x := range r.LoopI {
				fmt.Println("   LI", x)
			}
		}
	}
	fmt.Println("total", time.Since(t0), "queries", pr.queries, "cached", pr.cached, "solver", time.Duration(pr.nanos))
}
