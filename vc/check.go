package main

// The check of one property: all contracts are verified against the code in
// the repository; undischarged obligations that bear on the property are
// violations. A failing input is looked for by running the real code next to
// the specification.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const verifDir = "/verif"

// verifyAll verifies contracts in parallel.
func (m *Module) verifyAll(cs []*Contract) map[*Contract]*FnRun {
	size := func(c *Contract) int {
		n := 0
		for _, b := range c.fn.Blocks {
			n += len(b.Instrs)
		}
		if len(m.loopsOf(c.fn)) > 0 {
			n += 1000
		}
		return n
	}
	list := append([]*Contract{}, cs...)
	sort.SliceStable(list, func(i, j int) bool { return size(list[i]) > size(list[j]) })
	out := map[*Contract]*FnRun{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.GOMAXPROCS(0))
	for _, c := range list {
		wg.Add(1)
		sem <- true
		go func(c *Contract) {
			defer func() { <-sem; wg.Done() }()
			r := m.verifyFn(c)
			mu.Lock()
			out[c] = r
			mu.Unlock()
		}(c)
	}
	wg.Wait()
	return out
}

// Verification is the state of a run over the whole module.
type Verification struct {
	m       *Module
	cs      []*Contract
	wf      []*Ob // cycles of definitions
	runs    map[*Contract]*FnRun
	missing []string
	rec     []*Ob // termination of recursion
	demoted []string
	rebound []string
	log     []string
}

func (v *Verification) logf(f string, a ...interface{}) { v.log = append(v.log, fmt.Sprintf(f, a...)) }

func (v *Verification) active() []*Contract {
	var r []*Contract
	for _, c := range v.cs {
		if c.fn != nil && !c.off {
			r = append(r, c)
		}
	}
	return r
}

// obligations, those of recursion included
func (v *Verification) obs() []*Ob {
	var r []*Ob
	for _, c := range v.active() {
		if x := v.runs[c]; x != nil {
			r = append(r, x.Obs...)
		}
	}
	return append(r, v.rec...)
}

func (v *Verification) failed() []*Ob {
	var f []*Ob
	for _, o := range v.obs() {
		if !o.Ok {
			f = append(f, o)
		}
	}
	if len(f) > 0 { // with contracts that have no function, more may be unproved than what failed
		for _, c := range v.cs {
			if c.fn == nil {
				f = append(f, &Ob{Fn: c.Name, Kind: "support", Label: "no function has this contract", Goal: False, How: "unbound"})
			}
		}
	}
	sort.SliceStable(f, func(i, j int) bool { return f[i].Name() < f[j].Name() })
	return f
}

// recursion: calls inside a cycle of contracts must move the cursor forward,
// or not move it back along an acyclic set of calls.
func (v *Verification) recursion() {
	v.rec = nil
	idx := map[*Contract]int{}
	act := v.active()
	for i, c := range act {
		idx[c] = i
	}
	adj := make([][]int, len(act))
	var edges []callEdge
	for i, c := range act {
		r := v.runs[c]
		if r == nil {
			continue
		}
		for _, e := range r.Edges {
			if j, ok := idx[e.to]; ok {
				adj[i] = append(adj[i], j)
				edges = append(edges, e)
			}
		}
	}
	comp := scc(adj)
	size := map[int]int{}
	for _, k := range comp {
		size[k]++
	}
	self := map[int]bool{}
	for i, js := range adj {
		for _, j := range js {
			if i == j {
				self[i] = true
			}
		}
	}
	var obs []*Ob
	var es []callEdge
	for _, e := range edges {
		i, j := idx[e.from], idx[e.to]
		if comp[i] != comp[j] || size[comp[i]] == 1 && !self[i] {
			continue
		}
		es = append(es, e)
		if e.ob.How != "no measure" {
			obs = append(obs, e.ob)
		}
	}
	v.m.prove(obs)
	weak := make([][]int, len(act))
	wob := map[[2]int]*Ob{}
	for _, e := range es {
		if !e.ob.Ok {
			i, j := idx[e.from], idx[e.to]
			weak[i] = append(weak[i], j)
			wob[[2]int{i, j}] = e.ob
		}
	}
	// calls that may not advance: the cursor does not go back, and no cycle
	wc := scc(weak)
	ws := map[int]int{}
	for _, k := range wc {
		ws[k]++
	}
	for _, e := range es {
		o := &Ob{Fn: e.from.Name, Kind: "term", Label: "recursion through " + e.to.Name + " advances", Pos: e.ob.Pos}
		i, j := idx[e.from], idx[e.to]
		switch {
		case e.ob.Ok:
			o.Ok, o.How, o.Goal = true, e.ob.How, True
		case i == j || wc[i] == wc[j] && ws[wc[i]] > 1:
			o.Goal, o.Hyps, o.Roots, o.How = e.ob.Goal, e.ob.Hyps, e.ob.Roots, e.ob.How
		default:
			if e.ob2 == nil {
				o.Goal, o.How = False, "no measure"
				break
			}
			v.m.prove([]*Ob{e.ob2})
			o.Ok, o.How, o.Goal = e.ob2.Ok, e.ob2.How, e.ob2.Goal
		}
		v.rec = append(v.rec, o)
	}
}

func scc(adj [][]int) []int {
	n := len(adj)
	comp := make([]int, n)
	num := make([]int, n)
	low := make([]int, n)
	on := make([]bool, n)
	var st []int
	k, cn := 0, 0
	var dfs func(u int)
	dfs = func(u int) {
		k++
		num[u], low[u] = k, k
		st = append(st, u)
		on[u] = true
		for _, w := range adj[u] {
			if num[w] == 0 {
				dfs(w)
				if low[w] < low[u] {
					low[u] = low[w]
				}
			} else if on[w] && num[w] < low[u] {
				low[u] = num[w]
			}
		}
		if low[u] == num[u] {
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				comp[w] = cn
				if w == u {
					break
				}
			}
			cn++
		}
	}
	for u := range adj {
		if num[u] == 0 {
			dfs(u)
		}
	}
	return comp
}

// recursive functions of the code (static calls)
func (m *Module) recursiveFns() map[*ssa.Function]bool {
	fns := m.functions()
	var list []*ssa.Function
	idx := map[*ssa.Function]int{}
	for _, k := range sortedFnKeys(fns) {
		idx[fns[k]] = len(list)
		list = append(list, fns[k])
	}
	adj := make([][]int, len(list))
	rec := map[*ssa.Function]bool{}
	for i, f := range list {
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							if j, ok := idx[g]; ok {
								adj[i] = append(adj[i], j)
								if i == j {
									rec[list[i]] = true
								}
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		visit(f)
	}
	comp := scc(adj)
	n := map[int]int{}
	for _, k := range comp {
		n[k]++
	}
	for i := range list {
		if n[comp[i]] > 1 {
			rec[list[i]] = true
		}
	}
	return rec
}

func sortedFnKeys(m map[string]*ssa.Function) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// rebind looks for a function that satisfies the contract of one that is gone.
func (v *Verification) rebind() {
	m := v.m
	fns := m.functions()
	for _, c := range v.cs {
		if c.fn != nil {
			continue
		}
		rec := strings.SplitN(c.Name, ".", 2)[0]
		for _, k := range sortedFnKeys(fns) {
			fn := fns[k]
			if m.contract[fn] != nil || strings.SplitN(k, ".", 2)[0] != rec {
				continue
			}
			if c.checkSig(fn) != nil {
				continue
			}
			c.fn = fn
			m.contract[fn] = c
			m.setOpaque(v.cs)
			r := m.verifyFn(c)
			if len(r.failed()) == 0 {
				v.runs[c] = r
				v.rebound = append(v.rebound, c.Name+" -> "+k)
				break
			}
			c.fn = nil
			delete(m.contract, fn)
			m.setOpaque(v.cs)
		}
	}
}

// useSpares gives new functions with loops a contract of the spare ones, where
// they satisfy it.
func (v *Verification) useSpares() {
	m := v.m
	known := loadPrints()
	fns := m.functions()
	rec := m.recursiveFns()
	defer func(d time.Duration) { m.limit = d }(m.limit)
	m.limit = 20 * time.Second
	for _, k := range sortedFnKeys(fns) {
		fn := fns[k]
		if _, ok := known[k]; ok || m.contract[fn] != nil || len(m.loopsOf(fn)) == 0 && !rec[fn] {
			continue
		}
		for _, s := range spares {
			c := *s
			c.Name = k
			if c.checkSig(fn) != nil {
				continue
			}
			c.fn = fn
			m.contract[fn] = &c
			if r := m.verifyFn(&c); len(r.failed()) == 0 {
				v.cs = append(v.cs, &c)
				m.cs = v.cs
				v.rebound = append(v.rebound, s.Name+" -> "+k)
				break
			}
			delete(m.contract, fn)
		}
	}
	m.setOpaque(v.cs)
}

// run verifies everything once.
func (v *Verification) run() {
	v.useSpares()
	act := v.active()
	v.runs = v.m.verifyAll(act)
	if len(v.missing) > 0 {
		old := len(v.rebound)
		v.rebind()
		if len(v.rebound) > old {
			// callers could not use the contract before
			for c, r := range v.m.verifyAll(v.failedContracts()) {
				v.runs[c] = r
			}
		}
	}
	v.recursion()
}

func (v *Verification) failedContracts() []*Contract {
	var cs []*Contract
	for _, c := range v.active() {
		if r := v.runs[c]; r != nil && len(r.failed()) > 0 {
			cs = append(cs, c)
		}
	}
	return cs
}

// demote drops contracts of helper functions that fail (or whose precondition
// a caller fails): their bodies are then verified as part of their callers.
// It reports whether everything is discharged afterwards; otherwise the state
// is as before.
func (v *Verification) demote(stop func() bool) bool {
	rec := v.m.recursiveFns()
	byName := map[string]*Contract{}
	for _, c := range v.cs {
		byName[c.Name] = c
	}
	runs0 := map[*Contract]*FnRun{}
	for c, r := range v.runs {
		runs0[c] = r
	}
	rec0 := v.rec
	best := len(v.failedContracts())
	var off []*Contract
	for round := 0; round < 4 && !stop(); round++ {
		drop := map[*Contract]bool{}
		redo := map[*Contract]bool{}
		for _, c := range v.active() {
			r := v.runs[c]
			if r == nil {
				continue
			}
			f := r.failed()
			if len(f) == 0 {
				continue
			}
			preOnly := true
			for _, o := range f {
				if o.Kind == "pre" {
					q := byName[strings.SplitN(o.Label, " ", 2)[0]]
					if q != nil && !q.top && !rec[q.fn] {
						drop[q] = true
						redo[c] = true
						continue
					}
				}
				preOnly = false
			}
			if !preOnly && !c.top && !rec[c.fn] {
				drop[c] = true
			}
		}
		if len(drop) == 0 {
			break
		}
		for c := range drop {
			c.off = true
			off = append(off, c)
			delete(v.runs, c)
		}
		v.m.setOpaque(v.cs)
		for _, c := range v.active() {
			r := v.runs[c]
			if r == nil {
				continue
			}
			for _, e := range r.Edges {
				if drop[e.to] {
					redo[c] = true
				}
			}
			for _, d := range r.Calls {
				if drop[d] {
					redo[c] = true
				}
			}
			if len(r.failed()) > 0 {
				redo[c] = true
			}
		}
		var list []*Contract
		for _, c := range v.active() {
			if redo[c] {
				list = append(list, c)
			}
		}
		for c, r := range v.m.verifyAll(list) {
			v.runs[c] = r
		}
		n := len(v.failedContracts())
		if n == 0 {
			break
		}
		if n > best+1 { // spreading, not settling
			break
		}
		if n < best {
			best = n
		}
	}
	if !stop() {
		v.recursion()
		if len(v.failed()) == 0 {
			for _, c := range off {
				v.demoted = append(v.demoted, c.Name)
			}
			return true
		}
	}
	for _, c := range off {
		c.off = false
	}
	v.m.setOpaque(v.cs)
	v.runs, v.rec = runs0, rec0
	return false
}

// focusOf: where in the grammar to look for inputs, from what is not discharged.
func (v *Verification) focusOf(fail []*Ob) map[string]bool {
	f := map[string]bool{}
	rdOf := map[string]string{"sqliteValidator": "SQLite", "postgresqlValidator": "PostgreSQL", "mysqlValidator": "MySQL"}
	nts := map[string][]string{
		"convertTableName": {"TableName"}, "convertTableDefinition": {"Defs"}, "convertColumnDefinition": {"Def"},
		"convertDateType": {"Type"}, "convertConstraint": {"ColCons"}, "convertConstraintAux": {"ColCon"},
		"convertReference": {"ColCon", "TableCons"}, "convertTableConstraint": {"TableCons"},
		"convertCommaSeparatedColumnNames": {"TableCons"},
	}
	byName := map[string]*Contract{}
	for _, c := range v.cs {
		byName[c.Name] = c
	}
	wide := false
	for _, o := range fail {
		typ, fn := fnParts(o.Fn)
		rd := rdOf[typ]
		c := byName[o.Fn]
		switch {
		case rd != "":
			f[rd] = true
			if c != nil && c.nt != nil && !strings.HasSuffix(c.nt.Name, ".Script") {
				f[c.nt.Name] = true
			}
		case typ == "converter" && nts[fn] != nil:
			wide = true
			for _, n := range nts[fn] {
				for _, px := range ntPrefix {
					f[px+"."+n] = true
				}
			}
		default:
			wide = true
		}
	}
	if wide {
		for _, rd := range dialects {
			delete(f, rd)
		}
	}
	return f
}

// ---- which obligations bear on which property ----

func fnParts(name string) (string, string) {
	p := strings.SplitN(name, ".", 2)
	return p[0], p[1]
}

var dialectOf = map[string]string{"sqliteValidator": "C06", "postgresqlValidator": "C07", "mysqlValidator": "C08"}

func hasAny(s string, xs ...string) bool {
	for _, x := range xs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// owners of an obligation
func owners(o *Ob) map[string]bool {
	w := map[string]bool{}
	add := func(ps ...string) {
		for _, p := range ps {
			w[p] = true
		}
	}
	typ, fn := fnParts(o.Fn)
	switch o.Kind {
	case "safe", "term":
		add("C01")
		return w
	case "support":
		add("C01")
		if hasAny(o.Label, "package variable", "shared", "slice passed on", "spare capacity", "goroutine", "global", "call of time.", "call of math/rand", "call of os.", "sync.", "atomic.", "channel", "select") {
			add("C16")
		}
	case "pre":
		add("C01")
	}
	switch o.Label {
	case "inv", "progress", "frame":
		add("C01")
	}
	post := o.Kind == "post"
	lab := o.Label
	switch typ {
	case "lexer":
		if lab == "loc" || lab == "line" {
			add("C03")
		} else {
			add("C04", "C05")
			if lab == "emit" {
				add("C03")
			}
		}
		if lab == "acc" {
			add("C02")
		}
	case "common":
		add("C06", "C07", "C08")
	case "validator":
		if lab == "line" || lab == "loc" {
			add("C03")
		} else {
			add("C06", "C07", "C08")
			if fn == "next" {
				add("C03", "C04")
			}
			if lab == "emit" {
				add("C12", "C13", "C14")
			}
		}
	case "sqliteValidator", "postgresqlValidator", "mysqlValidator":
		if lab == "loc" || lab == "line" {
			add("C03")
			break
		}
		if lab == "loc" || lab == "acc" {
			add("C02")
		}
		if !post || lab != "emit" {
			add(dialectOf[typ])
			if hasAny(fn, "Name") {
				add("C09")
			}
		}
		if lab == "emit" || !post {
			switch {
			case fn == "validate" || hasAny(fn, "Ddl", "CreateTable", "IfNotExists"):
				add("C10")
			case hasAny(fn, "CreateOther"):
				add("C10", "C15")
			case fn == "validateName":
				add("C09")
			case hasAny(fn, "TableName"):
				add("C09", "C10")
			case hasAny(fn, "ColumnType", "TypeDigit", "TableDefinition", "ColumnDefinition"):
				add("C11", "C15")
			case hasAny(fn, "ReferencesAux", "Conflict", "Generated", "IndexParam", "IndexType", "IndexOption", "TableOption"):
				add("C15")
			case hasAny(fn, "ColumnConstraint", "ConstraintCheck"):
				add("C12", "C13", "C15")
			case hasAny(fn, "Literal", "StringValue"):
				add("C13", "C15")
			case hasAny(fn, "TableConstraint", "ColumnNames", "IndexKeys"):
				add("C14", "C15")
			}
		}
	case "converter":
		switch fn {
		case "convert", "convertTable":
			add("C10")
		case "convertTableName":
			add("C09", "C10", "C12", "C14")
		case "convertTableDefinition":
			add("C11", "C12", "C14")
		case "convertColumnDefinition":
			add("C09", "C11", "C12")
		case "convertDateType":
			add("C11")
		case "convertConstraint", "convertConstraintAux":
			add("C09", "C12", "C13")
		case "convertExpr", "convertExprAux":
			add("C12", "C13", "C14")
		case "convertReference":
			add("C12", "C14")
		case "convertTableConstraint", "convertCommaSeparatedColumnNames":
			add("C09", "C14")
		}
	case "ValidateError":
		add("C03")
	case "ddlparse":
		add("C02")
		if fn == "Parse" {
			add("C01", "C10")
		}
	}
	return w
}

// ---- the check ----

type Evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func cmdCheck(prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	scratch, err := os.MkdirTemp("", "verif-check")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	hard := start.Add(780 * time.Second)
	vend := start.Add(300 * time.Second)
	if tier == "thorough" {
		hard, vend = start.Add(3*time.Hour), start.Add(time.Hour)
	}

	sp := spec
	pr := NewProver("z3-new", runtime.GOMAXPROCS(0))
	defer pr.Close()
	watchMemory(9 << 30)
	pr.keep = tier == "thorough"
	var stopped atomic.Bool
	var verifyEnd atomic.Int64
	verifyEnd.Store(vend.UnixNano())
	pr.stop = func() bool { return stopped.Load() || aborted.Load() || time.Now().UnixNano() > verifyEnd.Load() }
	initViews(sp)
	v := &Verification{}
	m, err := LoadModule(sp, repo, pr)
	if err != nil {
		fmt.Println("the code does not load:", err)
		return 2
	}
	v.m = m
	v.cs = LoadContracts(sp, filepath.Join(verifDir, "contracts"))
	v.missing = m.bindContracts(v.cs)
	v.rebound = m.renamed

	// the search runs next to the proof for a short while
	se := &Searcher{sp: sp, verif: verifDir, scratch: scratch, repo: repo, prop: prop, seed: seed}
	budget := 12 * time.Second
	if tier == "thorough" {
		budget = 120 * time.Second
	}
	searched := make(chan bool, 1)
	go func() {
		if err := se.run(budget, 3, false); err != nil {
			fmt.Fprintln(os.Stderr, "search:", err)
		}
		searched <- true
	}()
	var lems []*Lemma
	var lemNames []string
	for _, c := range v.cs {
		lemNames = append(lemNames, c.uses...)
	}
	lemNames = append(lemNames, "mdStep")
	lemNames = append(lemNames, wfLemmas...)
	done := make(chan bool, 1)
	go func() {
		lems = proveLemmas(pr, lemNames)
		v.wf = sp.wellFounded(pr)
		v.run()
		done <- true
	}()
	early := false
	select {
	case <-done:
		<-searched
	case <-searched:
		if se.found.Load() != nil { // let the verifier name an obligation, but not for long
			select {
			case <-done:
			case <-time.After(40 * time.Second):
				stopped.Store(true)
				early = true
				<-done
			}
		} else {
			<-done
		}
	}
	w := se.found.Load()
	vacuous := []string{}
	if !early {
		vacuous = v.vacuity()
	}
	fail := v.failed()
	own := ownFailed(prop, fail)
	explained := false
	if w == nil && len(fail) > 0 {
		// A failing input is looked for; meanwhile contracts of helpers are
		// dropped, as maybe only the division into functions changed.
		se.focus = v.focusOf(fail)
		long := 70 * time.Second
		if len(own) > 0 {
			long = 200 * time.Second
		}
		if tier == "thorough" {
			long = 20 * time.Minute
		}
		verifyEnd.Store(time.Now().Add(dur(200*time.Second, hard)).UnixNano())
		proved := make(chan bool, 1)
		go func() { proved <- v.demote(pr.stop) }()
		go func() {
			if err := se.run(dur(long, hard), 6, true); err != nil {
				fmt.Fprintln(os.Stderr, "search:", err)
			}
			searched <- true
		}()
		ok := false
		select {
		case ok = <-proved:
			if ok {
				se.stop.Store(true)
			}
			<-searched
		case <-searched:
			if se.found.Load() != nil {
				stopped.Store(true)
			}
			ok = <-proved
		}
		w = se.found.Load()
		if ok {
			fail = v.failed()
		}
		own = ownFailed(prop, fail)
		if o := se.other.Load(); w == nil && o != nil {
			// the same obligations fail because another property is broken
			explained = true
			for _, x := range own {
				if !owners(x)[o.Property] {
					explained = false
				}
			}
		}
	}
	unproved := len(fail) > 0
	other := se.other.Load()
	ev := &Evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof"}
	code := 0
	replay := filepath.Join(verifDir, "evidence", "replay", prop+".json")
	report := func(kind string, suffix string) {
		os.MkdirAll(filepath.Dir(replay), 0755)
		var names []interface{}
		for i, o := range append(append([]*Ob{}, own...), fail...) {
			if i >= 40 {
				break
			}
			names = append(names, map[string]interface{}{"obligation": o.Name(), "answer": o.How, "goal": clip(o.Goal, 1500), "hypotheses": clipAll(o.Hyps, 40)})
		}
		rep := map[string]interface{}{"property": prop, "kind": kind, "witness": w, "failed_obligations": names, "unbound_contracts": v.missing, "demoted": v.demoted}
		if w != nil {
			rep["how_to_replay"] = "witness.Ddl parsed with dialect witness.Rd by the code in /repo gives witness.Got; the specification in /verif/spec gives witness.Want"
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(replay, b, 0644)
		for i, o := range own {
			if i < 6 {
				fmt.Println("FAILED OBLIGATION", o.Name(), o.How)
			}
		}
		if w != nil {
			fmt.Printf("FAILING INPUT (%s) %q: %s\n  expected %s\n  got      %s\n", w.Rd, w.Ddl, w.What, clipS(w.Want, 600), clipS(w.Got, 600))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replay, suffix)
		code = 1
	}
	badLem := []string{}
	for _, l := range lems {
		if !l.Ok {
			badLem = append(badLem, l.Name+": "+l.Ans)
		}
	}
	for _, o := range v.wf {
		if !o.Ok {
			badLem = append(badLem, o.Fn+": "+o.Label)
		}
	}
	switch {
	case w != nil:
		report("failing input", "")
	case len(own) > 0 && !explained:
		report("undischarged obligation", " no-failing-input-found")
	case unproved:
		why := "no obligation of this property failed"
		if explained {
			why = "the behaviour changed in a way another property reports: " + other.Property + ": " + other.What
		}
		fmt.Printf("NOTE %d obligations elsewhere are not discharged (%s); the proof of %s is conditional on them\n", len(fail), why, prop)
		for i, o := range fail {
			if i < 6 {
				fmt.Println("  ", o.Name(), o.How)
			}
		}
	}
	if code == 0 && (len(badLem) > 0 || len(vacuous) > 0) {
		fmt.Println("lemmas not proved:", badLem, "vacuous:", vacuous)
		code = 2
	}
	v.evidence(ev, prop, lems, &se.stats, own, vacuous, pr)
	if tier == "thorough" && code == 0 {
		v.crossCheck(ev, pr)
	}
	ev.WallS = time.Since(start).Seconds()
	ev.Violations = 0
	if code == 1 {
		ev.Violations = 1
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0644)
	if code == 0 {
		fmt.Printf("OK %s: %v obligations discharged of %v in %d functions, %d lemmas, %.1f s\n", prop, ev.Coverage["discharged"], ev.Coverage["obligations"], len(v.active()), len(lems), ev.WallS)
	}
	return code
}

func dur(d time.Duration, hard time.Time) time.Duration {
	if r := time.Until(hard); r < d {
		if r < 0 {
			return 0
		}
		return r
	}
	return d
}

func ownFailed(prop string, fs []*Ob) []*Ob {
	var r []*Ob
	for _, o := range fs {
		if owners(o)[prop] {
			r = append(r, o)
		}
	}
	return r
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func clip(t *Term, n int) string {
	if t == nil {
		return ""
	}
	return clipS(t.String(), n)
}

func clipAll(ts []*Term, n int) []string {
	var r []string
	for i, t := range ts {
		if i >= n {
			break
		}
		r = append(r, clip(t, 300))
	}
	return r
}

// vacuity: preconditions must be satisfiable.
func (v *Verification) vacuity() []string {
	var bad []string
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, c := range v.active() {
		r := v.runs[c]
		if r == nil || len(r.Entry) == 0 {
			continue
		}
		wg.Add(1)
		go func(c *Contract, r *FnRun) {
			defer wg.Done()
			if ok, _ := v.m.prover.Prove(&Query{Hyps: r.Entry, Goal: False, Rounds: 0}); ok {
				mu.Lock()
				bad = append(bad, c.Name)
				mu.Unlock()
			}
		}(c, r)
	}
	wg.Wait()
	sort.Strings(bad)
	return bad
}

func (v *Verification) evidence(ev *Evidence, prop string, lems []*Lemma, st *SearchStats, own []*Ob, vac []string, pr *Prover) {
	kinds := map[string]int{}
	hows := map[string]int{}
	total, ok, mine, mineOk := 0, 0, 0, 0
	for _, o := range v.obs() {
		total++
		kinds[o.Kind]++
		if o.Ok {
			ok++
			hows[o.How]++
		}
		if owners(o)[prop] {
			mine++
			if o.Ok {
				mineOk++
			}
		}
	}
	lq, lok := 0, 0
	for _, l := range lems {
		lq++
		if l.Ok {
			lok++
		}
	}
	wq, wok := 0, 0
	for _, o := range v.wf {
		wq++
		if o.Ok {
			wok++
		}
	}
	var fns []string
	inl := map[string]bool{}
	loops := 0
	for _, c := range v.active() {
		fns = append(fns, c.Name)
		if r := v.runs[c]; r != nil {
			for _, f := range r.Inl {
				inl[fnKey(f)] = true
			}
			loops += len(r.LoopI)
		}
	}
	sort.Strings(fns)
	solved := map[string]int{}
	for h, n := range hows {
		switch {
		case h == "unsat":
			solved["z3"] += n
		case h == "simplified":
			solved["rewriting"] += n
		default:
			solved["z3 (loop invariants and measures)"] += n
		}
	}
	ev.Coverage = map[string]interface{}{
		"obligations":                     total + lq + wq,
		"discharged":                      ok + lok + wok,
		"checker_cmd":                     "bash /verif/check.sh " + prop + " (z3 5.3 -in, one process per core, z3 4.8 where it gives no answer; scripts generated from the SSA of /repo)",
		"trusted_base":                    trusted,
		"functions_under_contract":        fns,
		"functions_verified_in_callers":   sortedStr(inl),
		"obligations_by_kind":             kinds,
		"obligations_bearing_on_property": mine,
		"of_those_discharged":             mineOk,
		"lemmas":                          lq,
		"lemmas_proved":                   lok,
		"definition_cycles":               wq,
		"definition_cycles_well_founded":  wok,
		"discharged_by":                   solved,
		"loop_invariants":                 loops,
		"solver_queries":                  pr.queries,
		"answered_by_fallback_solver":     pr.altN,
		"solver_seconds":                  float64(pr.nanos) / 1e9,
		"replay_inputs_compared":          st.Inputs,
		"contracts_without_function":      v.missing,
		"contracts_rebound":               v.rebound,
		"contracts_demoted":               v.demoted,
		"vacuous_contracts":               vac,
	}
	ev.Assumptions = trusted
}

var trusted = []string{
	"the translation of Go SSA (golang.org/x/tools/go/ssa) to logic in /verif/vc, and z3",
	"assumed contracts of the standard library: strings.ToUpper/ToLower, strconv.Atoi/ParseFloat, regexp.MatchString and the conversions string/[]rune, as functions of their arguments that agree with Go's on every constant",
	"integers are mathematical, memory and stack are unbounded",
	"nil and empty slices are not told apart except in the replay of C02",
}

// crossCheck repeats the discharged goals with a second solver.
func (v *Verification) crossCheck(ev *Evidence, pr *Prover) {
	p2 := NewProver("cvc5", runtime.GOMAXPROCS(0))
	defer p2.Close()
	p2.timeout = 20 * time.Second
	var wg sync.WaitGroup
	var mu sync.Mutex
	agree, disagree, unknown := 0, 0, 0
	sem := make(chan bool, runtime.GOMAXPROCS(0))
	for _, s := range pr.goals {
		wg.Add(1)
		sem <- true
		go func(s string) {
			defer func() { <-sem; wg.Done() }()
			if i := strings.Index(s, "(set-option"); i >= 0 {
				j := strings.Index(s[i:], "\n")
				s = s[:i] + "(set-logic ALL)" + s[i+j:]
			}
			r := p2.run(s)
			mu.Lock()
			switch r {
			case "unsat":
				agree++
			case "sat":
				disagree++
			default:
				unknown++
			}
			mu.Unlock()
		}(s)
	}
	wg.Wait()
	ev.Coverage["second_solver"] = map[string]int{"agree": agree, "disagree": disagree, "no_answer": unknown}
	if disagree > 0 {
		fmt.Println("NOTE cvc5 disagrees with z3 on", disagree, "goals")
	}
}
