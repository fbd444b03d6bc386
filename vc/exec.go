package main

// Symbolic execution of the SSA form of the code in /repo. Every path of a
// function is followed; loops whose bounds are not constants are cut at
// invariants (loops.go); calls of functions under contract use the contract
// (contract.go); other calls are followed into the callee.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	ex       *Exec
	heap     map[int]Value
	pc       *PC
	f        *Facts
	consumed map[int]bool
	gh       map[*Term]bool // positions whose ghost step is available
	hyC      []*Term
	hyPC     *PC
	hyN      int
}

func (s *State) fork() *State {
	n := &State{ex: s.ex, heap: make(map[int]Value, len(s.heap)), pc: s.pc, f: s.f.copy(), consumed: map[int]bool{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.consumed {
		n.consumed[k] = true
	}
	if s.gh != nil {
		n.gh = map[*Term]bool{}
		for k := range s.gh {
			n.gh[k] = true
		}
	}
	return n
}

// touch makes the ghost lemma's instance at position k of the ghost list
// available; instances hold everywhere, so paths may share them.
func (s *State) touch(k *Term) {
	if s.ex.ghost == nil || s.gh[k] {
		return
	}
	if s.gh == nil {
		s.gh = map[*Term]bool{}
	}
	s.gh[k] = true
}

// assume adds a path condition; false: the path is infeasible.
func (s *State) assume(t *Term) bool {
	t = s.f.simp(t)
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	s.pc = &PC{s.pc, t}
	return s.f.assume(t)
}

func (s *State) hyps() []*Term {
	if s.hyC != nil && s.hyPC == s.pc && s.hyN == len(s.gh) {
		return s.hyC
	}
	hs := append(append([]*Term{}, s.ex.base...), s.pc.list()...)
	if len(s.gh) > 0 {
		var g []*Term
		for k := range s.gh {
			g = append(g, k)
		}
		sort.Slice(g, func(i, j int) bool { return g[i].id < g[j].id })
		f := s.f.copy()
		l := s.ex.ghost
		for _, k := range g {
			raw := Subst(l.Body, map[*Term]*Term{l.Params[0]: s.ex.ghostL, l.Params[1]: k})
			x := f.simp(expandNonRec(raw))
			if x == True {
				continue
			}
			n := 0
			walk(x, map[*Term]bool{}, func(*Term) { n++ })
			if n > 60 {
				x = raw
			} else {
				f.assume(x)
			}
			hs = append(hs, x)
		}
	}
	s.hyC, s.hyPC, s.hyN = hs, s.pc, len(s.gh)
	return hs
}

// expandNonRec replaces applications of non-recursive definitions by their bodies.
func expandNonRec(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		a := make([]*Term, len(t.args))
		ch := false
		for i, x := range t.args {
			a[i] = rec(x)
			ch = ch || a[i] != x
		}
		r := t
		if ch {
			r = rebuild(t, a)
		}
		if r.op == OApp && !r.def.Rec {
			r = rec(Unfold(r.def, r.args))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (s *State) root(p *PtrV) Value {
	if p.global != nil {
		v, ok := s.ex.M.globals[p.global]
		if !ok {
			unsupf("global %s", p.global)
		}
		return v
	}
	if p.obj == 0 {
		unsupf("nil pointer dereference")
	}
	if v, ok := s.heap[p.obj]; ok {
		return v
	}
	if v, ok := s.ex.M.initHeap[p.obj]; ok {
		return v
	}
	unsupf("dangling object")
	return nil
}

func (s *State) load(p *PtrV) Value {
	v := s.root(p)
	for _, k := range p.path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[k]
		case *ArrayV:
			v = x.El[k]
		default:
			unsupf("load through %T", v)
		}
	}
	return v
}

func updPath(v Value, path []int, n Value) Value {
	if len(path) == 0 {
		return n
	}
	k := path[0]
	switch x := v.(type) {
	case *StructV:
		c := &StructV{T: x.T, N: x.N, F: append([]Value{}, x.F...)}
		c.F[k] = updPath(x.F[k], path[1:], n)
		return c
	case *ArrayV:
		c := &ArrayV{El: append([]Value{}, x.El...)}
		c.El[k] = updPath(x.El[k], path[1:], n)
		return c
	}
	unsupf("store through %T", v)
	return nil
}

func (s *State) store(p *PtrV, n Value) {
	if p.slice != nil {
		if p.slice.L == nil && p.idx.op == OInt && len(p.path) == 0 {
			q := &PtrV{obj: p.slice.obj, path: append(append([]int{}, p.slice.path...), p.slice.off+int(p.idx.n))}
			s.store(q, n)
			return
		}
		unsupf("store into a slice element")
	}
	if p.global != nil {
		if !s.ex.initMode {
			unsupf("store to package variable %s", p.global)
		}
		if len(p.path) == 0 {
			s.ex.M.globals[p.global] = n
			return
		}
		s.ex.M.globals[p.global] = updPath(s.ex.M.globals[p.global], p.path, n)
		return
	}
	if p.obj == 0 {
		unsupf("store through nil")
	}
	r, ok := s.heap[p.obj]
	if !ok {
		unsupf("store to shared data")
	}
	s.heap[p.obj] = updPath(r, p.path, n)
}

// Module is the loaded program and what verification runs share.
type Module struct {
	prog     *ssa.Program
	pkgs     []*ssa.Package
	globals  map[*ssa.Global]Value
	initHeap map[int]Value
	sp       *Spec
	prover   *Prover
	contract map[*ssa.Function]*Contract
	rec      map[*ssa.Function]int // SCC number of recursive functions
	loops    map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	progress map[*Contract]bool
	modPath  string
	initErr  []string
	renamed  []string // contracts found under another name
	cs       []*Contract
	limit    time.Duration // for one function
}

// Exec is one verification run (of one function).
type Exec struct {
	M          *Module
	C          *Contract
	fnName     string
	obs        []*Ob
	mute       int
	initMode   bool
	base       []*Term // hypotheses of the run (preconditions, ...)
	roots      []*Term
	aux        []*Term // applications to unfold in every query
	edges      []callEdge
	entryI     *Term
	self       *Inst // the contract of the function at its entry
	lenT       *Term
	inlined    map[*ssa.Function]bool
	steps      int
	cutN       int
	loopInv    []string
	survived   map[string]survivors
	relevant   []*Def
	ghost      *Lemma // instantiated at the positions of ghostL that are read
	ghostL     *Term
	lem        LemSet
	start      time.Time
	candRounds int // rounds of unfolding for candidate invariants
}

type callEdge struct {
	from, to *Contract
	ob, ob2  *Ob // the cursor has advanced; has not gone back
}

type Ob struct {
	Fn     string
	Kind   string // safe, pre, post, inv, term, support, frame
	Label  string
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Roots  []*Term
	Rounds int
	Lem    LemSet
	Ok     bool
	How    string
}

func (o *Ob) Name() string { return o.Fn + "#" + o.Kind + ":" + o.Label + "@" + o.Pos }

func (e *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term, roots ...*Term) *Ob {
	if e.mute > 0 {
		return nil
	}
	o := &Ob{Fn: e.fnName, Kind: kind, Label: label, Pos: e.M.pos(pos), Goal: goal}
	if st.f.simp(goal) == True {
		o.Ok, o.How = true, "simplified"
		o.Goal = True
	} else {
		o.Hyps = st.hyps()
		o.Roots = append(append([]*Term{}, e.aux...), roots...)
		o.Lem = e.lem
	}
	e.obs = append(e.obs, o)
	return o
}

func (m *Module) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := m.prog.Fset.Position(p)
	f := q.Filename
	if k := strings.LastIndexByte(f, '/'); k >= 0 {
		f = f[k+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

type Frame struct {
	fn     *ssa.Function
	args   []Value
	parent *Frame
	depth  int
	at     uint64 // the path to the call
}

func (fr *Frame) has(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

type Path struct {
	st   *State
	env  map[ssa.Value]Value
	cuts []*ssa.BasicBlock
	cnt  map[*ssa.BasicBlock]int
	thr  *threading
	sig  uint64 // the choices made on the way
}

func (p *Path) took(k int) { p.sig = (p.sig ^ uint64(k)) * 1099511628211 }

func (p *Path) fork() *Path {
	n := &Path{st: p.st.fork(), env: make(map[ssa.Value]Value, len(p.env)+8), cuts: p.cuts, cnt: map[*ssa.BasicBlock]int{}, thr: p.thr, sig: p.sig}
	for k, v := range p.env {
		n.env[k] = v
	}
	for k, v := range p.cnt {
		n.cnt[k] = v
	}
	return n
}

const (
	LRet = iota
	LBack
	LExit
)

type Leaf struct {
	kind   int
	p      *Path
	res    []Value
	prev   *ssa.BasicBlock
	target *ssa.BasicBlock
}

type Tree struct {
	cond *Term
	a, b *Tree
	leaf *Leaf
}

var deadTree = &Tree{}

func (t *Tree) leaves(f func(*Leaf)) {
	if t.leaf != nil {
		f(t.leaf)
		return
	}
	if t.cond != nil {
		t.a.leaves(f)
		t.b.leaves(f)
	}
}

// mapLeaves replaces leaves by trees.
func (t *Tree) mapLeaves(f func(*Leaf) *Tree) *Tree {
	if t.leaf != nil {
		return f(t.leaf)
	}
	if t.cond == nil {
		return t
	}
	return node(t.cond, t.a.mapLeaves(f), t.b.mapLeaves(f))
}

func node(c *Term, a, b *Tree) *Tree {
	if a.leaf == nil && a.cond == nil {
		return b
	}
	if b.leaf == nil && b.cond == nil {
		return a
	}
	return &Tree{cond: c, a: a, b: b}
}

// ---- operands ----

func (e *Exec) val(p *Path, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Global:
		return &PtrV{global: x}
	case *ssa.Builtin:
		return &FuncV{Blt: x.Name()}
	}
	r, ok := p.env[v]
	if !ok {
		unsupf("no value for %s in %s", v.Name(), v.Parent())
	}
	return r
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	s := sortOf(c.Type())
	if s == nil {
		unsupf("constant of type %s", c.Type())
	}
	switch s {
	case SBool:
		return Bool(constant.BoolVal(c.Value))
	case SStr:
		return Str(constant.StringVal(c.Value))
	case SInt:
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			unsupf("constant %s", c)
		}
		return Int(n)
	case SFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return U("pf", Str(fmt.Sprint(f)))
	}
	unsupf("constant of type %s", c.Type())
	return nil
}

func (e *Exec) term(p *Path, v ssa.Value) *Term {
	x := e.val(p, v)
	t, ok := x.(*Term)
	if !ok {
		unsupf("%s is %T, not a scalar", v.Name(), x)
	}
	return t
}

// ---- functions ----

// runFn executes a body; the tree's leaves are its returns.
func (e *Exec) runFn(fr *Frame, st *State) *Tree {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		unsupf("no body: %s", fn)
	}
	p := &Path{st: st, env: map[ssa.Value]Value{}, cnt: map[*ssa.BasicBlock]int{}}
	for i, a := range fn.Params {
		p.env[a] = fr.args[i]
	}
	return e.goTo(fr, p, nil, fn.Blocks[0])
}

type Group struct {
	cond *Term
	st   *State
	res  []Value
}

// callFn: outcomes of a call, mutually exclusive.
func (e *Exec) callFn(fr *Frame, p *Path, fn *ssa.Function, args []Value, pos token.Pos) []Group {
	if r, ok := e.intrinsic(p, fn, args, pos); ok {
		return []Group{{True, p.st, r}}
	}
	if e.M.inModule(fn) || len(fn.Blocks) > 0 && inlineStd[pkgPath(fn)] {
		if c := e.M.contract[fn]; c != nil && !e.initMode {
			if !c.off {
				return e.applyContract(fr, p, c, fn, args, pos)
			}
		}
		if fr.has(fn) {
			unsupf("recursive function %s has no contract", fn)
		}
		if fr.depth > 40 {
			unsupf("call depth")
		}
		if e.inlined != nil {
			e.inlined[fn] = true
		}
		return e.inline(&Frame{fn: fn, args: args, parent: fr, depth: fr.depth + 1, at: p.sig ^ uint64(pos)}, p.st)
	}
	unsupf("call of %s", fn)
	return nil
}

var inlineStd = map[string]bool{"slices": true, "cmp": true}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPath(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (m *Module) inModule(fn *ssa.Function) bool {
	p := pkgPath(fn)
	if fn.Synthetic != "" && p == "" {
		return true
	}
	return p == m.modPath || strings.HasPrefix(p, m.modPath+"/")
}

type grp struct {
	cond *Term
	st   *State
	res  []Value
}

func (e *Exec) inline(fr *Frame, st0 *State) []Group {
	base := st0.fork()
	tree := e.runFn(fr, st0)
	pre := map[int]bool{}
	for k := range base.heap {
		pre[k] = true
	}
	gs := e.collapse(tree, base, pre)
	var out []Group
	for _, g := range gs {
		out = append(out, Group{g.cond, g.st, g.res})
	}
	return out
}

func reach(v Value, f func(int)) {
	switch x := v.(type) {
	case *PtrV:
		if x.obj != 0 {
			f(x.obj)
		}
		if x.slice != nil {
			reach(x.slice, f)
		}
	case *SliceV:
		if x.L == nil {
			f(x.obj)
		}
	case *StructV:
		for _, y := range x.F {
			reach(y, f)
		}
	case *ArrayV:
		for _, y := range x.El {
			reach(y, f)
		}
	case *IfaceV:
		if x.T != nil {
			reach(x.V, f)
		}
	case *FuncV:
		for _, y := range x.Bind {
			reach(y, f)
		}
	case *MapRef:
		f(x.obj)
	case *IterV:
		f(x.obj)
	case *ChoiceV:
		reach(x.a, f)
		reach(x.b, f)
	case *MapV:
		for _, y := range x.vals {
			reach(y, f)
		}
	case *TupleV:
		for _, y := range x.E {
			reach(y, f)
		}
	}
}

// gc drops objects that neither existed before the call nor are reachable.
func gc(st *State, pre map[int]bool, res []Value) {
	if st.ex.initMode { // package variables may hold them
		return
	}
	keep := map[int]bool{}
	var mark func(o int)
	mark = func(o int) {
		if keep[o] {
			return
		}
		keep[o] = true
		if v, ok := st.heap[o]; ok {
			reach(v, mark)
		}
	}
	for o := range pre {
		mark(o)
	}
	for _, v := range res {
		reach(v, mark)
	}
	for o := range st.heap {
		if !keep[o] {
			delete(st.heap, o)
		}
	}
}

func sameHeap(a, b *State) bool {
	if len(a.heap) != len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok || !sameValue(v, w) {
			return false
		}
	}
	return true
}

func (e *Exec) collapse(t *Tree, base *State, pre map[int]bool) []grp {
	if t.leaf != nil {
		gc(t.leaf.p.st, pre, t.leaf.res)
		return []grp{{True, t.leaf.p.st, t.leaf.res}}
	}
	if t.cond == nil {
		return nil
	}
	A, B := e.collapse(t.a, base, pre), e.collapse(t.b, base, pre)
	e.checkSpent()
	var out []grp
	used := map[int]bool{}
	for _, ga := range A {
		merged := false
		for j, gb := range B {
			if used[j] || !sameHeap(ga.st, gb.st) {
				continue
			}
			var res []Value
			ok := true
			for k := range ga.res {
				v := iteValue(t.cond, ga.res[k], gb.res[k])
				if v == nil {
					ok = false
					break
				}
				res = append(res, v)
			}
			if !ok {
				continue
			}
			used[j] = true
			merged = true
			c := Ite(t.cond, ga.cond, gb.cond)
			st := base.fork()
			st.heap = ga.st.heap
			for o := range ga.st.consumed {
				st.consumed[o] = true
			}
			for o := range gb.st.consumed {
				st.consumed[o] = true
			}
			for _, g := range []*State{ga.st, gb.st} {
				for k := range g.gh {
					st.touch(k)
				}
			}
			in := map[*Term]bool{}
			for q := ga.st.pc; q != nil && q != base.pc; q = q.prev {
				in[q.t] = true
			}
			inB := map[*Term]bool{}
			for _, x := range gb.st.pc.list() {
				inB[x] = true
				if in[x] {
					st.assume(x)
				}
			}
			// what is known on one side only
			side := func(g grp, cond *Term, skip map[*Term]bool) {
				known := map[*Term]bool{}
				k := And(cond, g.cond)
				known[k] = true
				if k.op == OAnd {
					for _, x := range k.args {
						known[x] = true
					}
				}
				var xs []*Term
				for q := g.st.pc; q != nil && q != base.pc; q = q.prev {
					if !skip[q.t] && !known[q.t] {
						xs = append(xs, q.t)
					}
				}
				for i := len(xs) - 1; i >= 0; i-- {
					st.assume(Implies(k, xs[i]))
				}
			}
			side(ga, t.cond, inB)
			side(gb, Not(t.cond), in)
			out = append(out, grp{c, st, res})
			break
		}
		if !merged {
			out = append(out, grp{And(t.cond, ga.cond), ga.st, ga.res})
		}
	}
	for j, gb := range B {
		if !used[j] {
			out = append(out, grp{And(Not(t.cond), gb.cond), gb.st, gb.res})
		}
	}
	return out
}

// goTo moves control along an edge.
func (e *Exec) goTo(fr *Frame, p *Path, prev, b *ssa.BasicBlock) *Tree {
	loops := e.M.loopsOf(fr.fn)
	if n := len(p.cuts); n > 0 {
		h := p.cuts[n-1]
		l := loops[h]
		if th := p.thr; th != nil && th.loop == l && (b == h || l.in[b] && !e.M.testBlock(l, b)) {
			q := &Path{st: p.st, env: th.env, cuts: p.cuts, cnt: p.cnt}
			return &Tree{leaf: &Leaf{kind: LBack, p: q, prev: th.prev, target: h}}
		}
		if b == h && prev != nil && l.in[prev] {
			if e.M.threads(l) {
				q := p.fork()
				q.thr = &threading{loop: l, prev: prev, env: p.env}
				e.phis(q, prev, b)
				return e.run(fr, q, b, numPhis(b), prev)
			}
			return &Tree{leaf: &Leaf{kind: LBack, p: p, prev: prev, target: b}}
		}
		if !l.in[b] {
			p.thr = nil
			return &Tree{leaf: &Leaf{kind: LExit, p: p, prev: prev, target: b}}
		}
	}
	if l := loops[b]; l != nil {
		if !e.unrollable(fr, p, prev, b) {
			return e.cutLoop(fr, p, prev, l)
		}
		p.cnt[b]++
		if p.cnt[b] > 5000 {
			unsupf("loop bound")
		}
	}
	e.phis(p, prev, b)
	return e.run(fr, p, b, numPhis(b), prev)
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIdx(prev, b *ssa.BasicBlock) int {
	for k, x := range b.Preds {
		if x == prev {
			return k
		}
	}
	return -1
}

func (e *Exec) phis(p *Path, prev, b *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	k := predIdx(prev, b)
	var vs []Value
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, e.val(p, ph.Edges[k]))
		ps = append(ps, ph)
	}
	for i, ph := range ps {
		p.env[ph] = vs[i]
	}
}

// steady: a value that a loop changes by the same amount in every iteration, if
// it is one of its variables.
func steady(v ssa.Value, head *ssa.BasicBlock) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != head {
		return true
	}
	for k, x := range ph.Edges {
		if !head.Dominates(head.Preds[k]) {
			continue
		}
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			return false
		}
		if _, ok := b.Y.(*ssa.Const); !ok || b.X != ph {
			return false
		}
	}
	return true
}

// unrollable: the loop's condition is a constant on this entry.
func (e *Exec) unrollable(fr *Frame, p *Path, prev, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	switch bo := iff.Cond.(type) {
	case *ssa.BinOp:
		if sortOf(bo.X.Type()) != SInt || !steady(bo.X, b) || !steady(bo.Y, b) {
			return false
		}
	case *ssa.Extract:
		n, ok := bo.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		it, ok := p.env[n.Iter].(*IterV)
		if !ok || it.s.op != OStr {
			return false
		}
	default:
		return false
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Call:
			if c := in.(*ssa.Call); c.Call.IsInvoke() {
				return false
			} else if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		}
	}
	q := p.fork()
	e.mute++
	defer func() { e.mute-- }()
	e.phis(q, prev, b)
	for _, in := range b.Instrs[numPhis(b) : len(b.Instrs)-1] {
		if call, ok := in.(*ssa.Call); ok {
			gs := e.call(fr, q, call)
			if len(gs) != 1 || len(gs[0].res) != 1 {
				return false
			}
			q.st = gs[0].st
			q.env[call] = gs[0].res[0]
			continue
		}
		if !e.step(fr, q, in) {
			return false
		}
	}
	c := q.st.f.simp(e.term(q, iff.Cond))
	return c == True || c == False
}

// aborted is set when memory runs short.
var aborted atomic.Bool

func watchMemory(limit uint64) {
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for !aborted.Load() {
			metrics.Read(s)
			if s[0].Value.Uint64() > limit {
				aborted.Store(true)
			}
			time.Sleep(200 * time.Millisecond)
		}
	}()
}

func (e *Exec) checkSpent() {
	if e.start.IsZero() {
		e.start = time.Now()
	}
	switch {
	case e.steps > 300000:
		panic(spent{"too many steps"})
	case time.Since(e.start) > e.M.limit:
		panic(spent{"too long"})
	case aborted.Load():
		panic(spent{"too large"})
	case e.M.prover.stop != nil && e.M.prover.stop():
		panic(spent{"stopped"})
	}
}

func (e *Exec) run(fr *Frame, p *Path, b *ssa.BasicBlock, k int, prev *ssa.BasicBlock) *Tree {
	e.steps++
	e.checkSpent()
	for ; k < len(b.Instrs); k++ {
		switch in := b.Instrs[k].(type) {
		case *ssa.Jump:
			return e.goTo(fr, p, b, b.Succs[0])
		case *ssa.If:
			c := p.st.f.simp(e.term(p, in.Cond))
			if c == True {
				p.took(2 * b.Index)
				return e.goTo(fr, p, b, b.Succs[0])
			}
			if c == False {
				p.took(2*b.Index + 1)
				return e.goTo(fr, p, b, b.Succs[1])
			}
			q := p.fork()
			p.took(2 * b.Index)
			q.took(2*b.Index + 1)
			a, d := deadTree, deadTree
			if p.st.assume(c) {
				a = e.guard(fr, p.st, func() *Tree { return e.goTo(fr, p, b, b.Succs[0]) })
			}
			if q.st.assume(Not(c)) {
				d = e.guard(fr, q.st, func() *Tree { return e.goTo(fr, q, b, b.Succs[1]) })
			}
			return node(c, a, d)
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, e.val(p, r))
			}
			return &Tree{leaf: &Leaf{kind: LRet, p: p, res: res}}
		case *ssa.Panic:
			e.oblige(p.st, "safe", "panic is unreachable", in.Pos(), False)
			return deadTree
		case *ssa.RunDefers, *ssa.DebugRef:
		case *ssa.Call:
			gs := e.call(fr, p, in)
			if len(gs) == 0 {
				return deadTree
			}
			return e.cont(fr, p, in, gs, b, k, prev)
		default:
			if !e.step(fr, p, b.Instrs[k]) {
				return deadTree
			}
		}
	}
	unsupf("block without terminator")
	return nil
}

// cont continues after a call for each of its outcomes.
func (e *Exec) cont(fr *Frame, p *Path, in *ssa.Call, gs []Group, b *ssa.BasicBlock, k int, prev *ssa.BasicBlock) *Tree {
	if len(gs) == 0 {
		return deadTree
	}
	g := gs[0]
	rest := gs[1:]
	q := &Path{st: g.st, env: p.env, cuts: p.cuts, cnt: p.cnt, thr: p.thr, sig: p.sig}
	q.took(len(gs))
	if len(rest) > 0 {
		q.env = map[ssa.Value]Value{}
		for x, y := range p.env {
			q.env[x] = y
		}
		q.cnt = map[*ssa.BasicBlock]int{}
		for x, y := range p.cnt {
			q.cnt[x] = y
		}
	}
	t := deadTree
	if q.st.assume(g.cond) {
		t = e.guard(fr, q.st, func() *Tree {
			var r Value
			switch len(g.res) {
			case 0:
				r = &TupleV{}
			case 1:
				r = g.res[0]
			default:
				r = &TupleV{g.res}
			}
			if tm, ok := r.(*Term); ok {
				r = q.st.f.simp(tm)
			}
			q.env[in] = r
			return e.run(fr, q, b, k+1, prev)
		})
	}
	if len(rest) == 0 {
		return t
	}
	return node(g.cond, t, e.cont(fr, p, in, rest, b, k, prev))
}

func (e *Exec) call(fr *Frame, p *Path, in *ssa.Call) []Group {
	c := &in.Call
	if c.IsInvoke() {
		r := e.val(p, c.Value)
		if t, ok := r.(*Term); ok && c.Method.Name() == "Error" {
			_ = t
			return []Group{{True, p.st, []Value{Fresh("errtext", SStr)}}}
		}
		iv, ok := r.(*IfaceV)
		if !ok || iv.T == nil {
			unsupf("method call on unknown interface value")
		}
		fn := e.M.prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsupf("no method %s", c.Method)
		}
		args := []Value{iv.V}
		for _, a := range c.Args {
			args = append(args, e.val(p, a))
		}
		return e.callFn(fr, p, fn, args, in.Pos())
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	f := e.val(p, c.Value)
	return e.callValue(fr, p, f, args, in)
}

func (e *Exec) callValue(fr *Frame, p *Path, f Value, args []Value, in *ssa.Call) []Group {
	c := &in.Call
	if ch, ok := f.(*ChoiceV); ok {
		var out []Group
		for k, g := range []Value{ch.a, ch.b} {
			cond := ch.cond
			if k == 1 {
				cond = Not(cond)
			}
			q := p.fork()
			if !q.st.assume(cond) {
				continue
			}
			for _, r := range e.callValue(fr, q, g, args, in) {
				out = append(out, Group{And(cond, r.cond), r.st, r.res})
			}
		}
		return out
	}
	fv, ok := f.(*FuncV)
	if !ok {
		unsupf("call of %T", f)
	}
	if fv.Blt != "" {
		var ts []types.Type
		for _, a := range c.Args {
			ts = append(ts, a.Type())
		}
		return []Group{{True, p.st, []Value{e.builtin(p, fv.Blt, args, ts, in)}}}
	}
	if fv.Fn == nil {
		e.oblige(p.st, "safe", "call of a nil function", in.Pos(), False)
		return nil
	}
	if len(fv.Bind) > 0 || fv.Fn.Parent() != nil {
		if fr.has(fv.Fn) {
			unsupf("recursive closure")
		}
		if e.inlined != nil {
			e.inlined[fv.Fn] = true
		}
		return e.inlineClosure(fr, p, fv, args)
	}
	return e.callFn(fr, p, fv.Fn, args, in.Pos())
}

func (e *Exec) inlineClosure(fr *Frame, p *Path, fv *FuncV, args []Value) []Group {
	base := p.st.fork()
	fn := fv.Fn
	nf := &Frame{fn: fn, args: args, parent: fr, depth: fr.depth + 1, at: p.sig}
	q := &Path{st: p.st, env: map[ssa.Value]Value{}, cnt: map[*ssa.BasicBlock]int{}}
	for i, a := range fn.Params {
		q.env[a] = args[i]
	}
	for i, a := range fn.FreeVars {
		q.env[a] = fv.Bind[i]
	}
	tree := e.goTo(nf, q, nil, fn.Blocks[0])
	pre := map[int]bool{}
	for k := range base.heap {
		pre[k] = true
	}
	var out []Group
	for _, g := range e.collapse(tree, base, pre) {
		out = append(out, Group{g.cond, g.st, g.res})
	}
	return out
}

func (e *Exec) builtin(p *Path, name string, args []Value, ts []types.Type, in ssa.Instruction) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			return U("strlen", x)
		case *SliceV:
			if x.L == nil {
				return Int(int64(x.n))
			}
			return Len(x.L)
		case *MapV, *MapRef:
			m := e.mapOf(p, x)
			if m.set != nil {
				unsupf("length of a map of unknown keys")
			}
			for _, k := range m.keys {
				if !isVal(k) {
					unsupf("length of a map of unknown keys")
				}
			}
			return Int(int64(len(m.keys)))
		case *ArrayV:
			return Int(int64(len(x.El)))
		}
	case "append":
		return e.appendV(p, args[0].(*SliceV), args[1].(*SliceV), ts[0], ts[1])
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if r.sort != SInt {
				unsupf("min/max")
			}
			c := Le(r, b)
			if name == "max" {
				c = Le(b, r)
			}
			r = Ite(c, r, b)
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsupf("builtin %s", name)
	return nil
}

func (e *Exec) appendV(p *Path, s, t *SliceV, ts, tt types.Type) Value {
	st := p.st
	sl := st.listOf(s, ts)
	tl := st.listOf(t, tt)
	if tl.op == OEmp {
		return s
	}
	var r *Term
	if es, ok := constElems(tl); ok {
		r = sl
		for _, x := range es {
			r = Snoc(r, x)
		}
	} else if sl.op == OEmp && s.own == 0 {
		r = tl
	} else {
		unsupf("append of a slice of unknown contents")
	}
	if s.L == nil {
		if s.own < 0 {
			unsupf("append to part of an array")
		}
	} else if s.own < 0 {
		unsupf("append to a slice that may be shared")
	} else if s.own > 0 {
		if st.consumed[s.own] {
			unsupf("append to a slice whose spare capacity may be in use")
		}
		st.consumed[s.own] = true
	}
	return &SliceV{L: r, own: freshOwn(), nonnil: True}
}

func (e *Exec) safe(p *Path, label string, pos token.Pos, goal *Term) bool {
	if p.st.f.simp(goal) == True {
		if e.mute == 0 {
			e.oblige(p.st, "safe", label, pos, goal)
		}
		return true
	}
	e.oblige(p.st, "safe", label, pos, goal)
	return p.st.assume(goal)
}

// step executes a simple instruction; false: the path ends.
func (e *Exec) step(fr *Frame, p *Path, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		o := freshOwn()
		p.st.heap[o] = zero(x.Type().Underlying().(*types.Pointer).Elem())
		p.env[x] = &PtrV{obj: o}
	case *ssa.BinOp:
		p.env[x] = e.binop(p, x)
	case *ssa.UnOp:
		v := e.val(p, x.X)
		switch x.Op {
		case token.MUL:
			q, ok := v.(*PtrV)
			if !ok {
				unsupf("load through %T", v)
			}
			if q.slice != nil {
				if len(q.path) > 0 {
					v := e.elem(p, q.slice, q.idx, q.et)
					p.env[x] = getPath(v, q.path)
					return true
				}
				p.env[x] = e.elem(p, q.slice, q.idx, x.Type())
				return true
			}
			if q.obj == 0 && q.global == nil {
				e.oblige(p.st, "safe", "nil dereference", x.Pos(), False)
				return false
			}
			p.env[x] = p.st.load(q)
		case token.NOT:
			p.env[x] = Not(v.(*Term))
		case token.SUB:
			t := v.(*Term)
			if t.sort != SInt {
				unsupf("negation")
			}
			p.env[x] = MulC(t, -1)
		default:
			unsupf("operator %s", x.Op)
		}
	case *ssa.ChangeType:
		p.env[x] = e.val(p, x.X)
	case *ssa.ChangeInterface:
		p.env[x] = e.val(p, x.X)
	case *ssa.Convert:
		p.env[x] = e.convert(p, x)
	case *ssa.Extract:
		t, ok := e.val(p, x.Tuple).(*TupleV)
		if !ok {
			unsupf("extract")
		}
		p.env[x] = t.E[x.Index]
	case *ssa.Field:
		p.env[x] = e.val(p, x.X).(*StructV).F[x.Field]
	case *ssa.FieldAddr:
		q, ok := e.val(p, x.X).(*PtrV)
		if !ok {
			unsupf("field address")
		}
		if q.obj == 0 && q.global == nil && q.slice == nil {
			e.oblige(p.st, "safe", "nil dereference", x.Pos(), False)
			return false
		}
		if q.slice != nil {
			i := p.st.f.simp(q.idx)
			if q.slice.L == nil && i.op == OInt {
				q = &PtrV{obj: q.slice.obj, path: append(append([]int{}, q.slice.path...), q.slice.off+int(i.n))}
			} else {
				et := q.et
				if et == nil {
					et = ptrElem(x.X.Type())
				}
				p.env[x] = &PtrV{slice: q.slice, idx: q.idx, et: et, path: append(append([]int{}, q.path...), x.Field)}
				return true
			}
		}
		p.env[x] = &PtrV{obj: q.obj, global: q.global, path: append(append([]int{}, q.path...), x.Field)}
	case *ssa.IndexAddr:
		i := e.term(p, x.Index)
		switch b := e.val(p, x.X).(type) {
		case *PtrV:
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			i = p.st.f.simp(i)
			if i.op != OInt {
				unsupf("array index is not constant")
			}
			if i.n < 0 || i.n >= n {
				e.oblige(p.st, "safe", "index in range", x.Pos(), False)
				return false
			}
			p.env[x] = &PtrV{obj: b.obj, global: b.global, path: append(append([]int{}, b.path...), int(i.n))}
		case *SliceV:
			n := Int(int64(b.n))
			if b.L != nil {
				n = Len(b.L)
			}
			if !e.safe(p, "index in range", x.Pos(), And(Ge(i, Int(0)), Lt(i, n))) {
				return false
			}
			if b.L != nil && b.L == e.ghostL {
				p.st.touch(i)
			}
			p.env[x] = &PtrV{slice: b, idx: i}
		default:
			unsupf("index of %T", b)
		}
	case *ssa.Index:
		i := e.term(p, x.Index)
		switch b := e.val(p, x.X).(type) {
		case *Term:
			if !e.safe(p, "index in range", x.Pos(), And(Ge(i, Int(0)), Lt(i, U("strlen", b)))) {
				return false
			}
			p.env[x] = U("byteat", b, i)
		case *ArrayV:
			if i.op != OInt || i.n < 0 || int(i.n) >= len(b.El) {
				unsupf("array index")
			}
			p.env[x] = b.El[i.n]
		default:
			unsupf("index of %T", b)
		}
	case *ssa.Lookup:
		b := e.val(p, x.X)
		switch str := b.(type) {
		case *Term:
			i := e.term(p, x.Index)
			if !e.safe(p, "index in range", x.Pos(), And(Ge(i, Int(0)), Lt(i, U("strlen", str)))) {
				return false
			}
			p.env[x] = U("byteat", str, i)
		case *MapV, *MapRef:
			m := e.mapOf(p, b)
			k := e.term(p, x.Index)
			mt := x.X.Type().Underlying().(*types.Map)
			var r Value = zero(mt.Elem())
			if m.set != nil {
				if r = iteValue(mapHas(m, k), m.pres, r); r == nil {
					unsupf("map of %s", mt.Elem())
				}
			}
			for j := 0; j < len(m.keys); j++ {
				// runs of constant keys with one value are one set
				n := j
				var ws []string
				for n < len(m.keys) && m.keys[n].op == OStr && sameValue(m.vals[n], m.vals[j]) {
					ws = append(ws, m.keys[n].s)
					n++
				}
				if len(ws) > 1 {
					if v := iteValue(In(k, mkSet(ws)), m.vals[j], r); v != nil {
						r = v
						j = n - 1
						continue
					}
				}
				if v := iteValue(Eq(k, m.keys[j]), m.vals[j], r); v != nil {
					r = v
				} else {
					unsupf("map of %s", mt.Elem())
				}
			}
			if x.CommaOk {
				p.env[x] = &TupleV{[]Value{r, mapHas(m, k)}}
			} else {
				p.env[x] = r
			}
		default:
			unsupf("lookup in %T", b)
		}
	case *ssa.MakeMap:
		o := freshOwn()
		p.st.heap[o] = &MapV{}
		p.env[x] = &MapRef{o}
	case *ssa.MapUpdate:
		r, ok := e.val(p, x.Map).(*MapRef)
		if !ok {
			if m, is := e.val(p, x.Map).(*MapV); is && m.isNil {
				e.oblige(p.st, "safe", "assignment to an entry of a nil map", x.Pos(), False)
				return false
			}
			unsupf("map update")
		}
		m, ok := p.st.heap[r.obj].(*MapV)
		if !ok {
			unsupf("update of a shared map")
		}
		k := e.term(p, x.Key)
		if m.set != nil {
			if !sameValue(m.pres, e.val(p, x.Value)) {
				unsupf("map with different values in a loop")
			}
			p.st.heap[r.obj] = &MapV{set: Snoc(m.set, k), pres: m.pres}
			break
		}
		n := &MapV{keys: append([]*Term{}, m.keys...), vals: append([]Value{}, m.vals...)}
		for i := range n.keys {
			if n.keys[i] == k {
				// an earlier equal key: a later entry with the same key cannot hide it, entries are searched from the end
				n.keys = append(n.keys[:i], n.keys[i+1:]...)
				n.vals = append(n.vals[:i], n.vals[i+1:]...)
				break
			}
		}
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, e.val(p, x.Value))
		p.st.heap[r.obj] = n
	case *ssa.Range:
		t, ok := e.val(p, x.X).(*Term)
		if !ok || t.sort != SStr {
			unsupf("range over a map")
		}
		o := freshOwn()
		p.st.heap[o] = Int(0)
		p.env[x] = &IterV{t, o}
	case *ssa.Next:
		it, ok := e.val(p, x.Iter).(*IterV)
		if !ok {
			unsupf("range over a map")
		}
		k, ok := p.st.heap[it.obj].(*Term)
		if !ok {
			unsupf("iterator")
		}
		l := U("runes", it.s)
		more := p.st.f.simp(Lt(k, Len(l)))
		var bi Value = Fresh("byteindex", SInt)
		if k == Int(0) {
			bi = Int(0)
		}
		p.env[x] = &TupleV{[]Value{more, bi, At(l, k)}}
		p.st.heap[it.obj] = p.st.f.simp(Ite(more, AddC(k, 1), k))
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(p, b))
		}
		p.env[x] = f
	case *ssa.MakeInterface:
		p.env[x] = e.makeInterface(p, x)
	case *ssa.MakeSlice:
		n := p.st.f.simp(e.term(p, x.Len))
		s := sortOf(x.Type())
		if s == nil {
			unsupf("make %s", x.Type())
		}
		c := p.st.f.simp(e.term(p, x.Cap))
		if !e.safe(p, "make: sizes in range", x.Pos(), And(Ge(n, Int(0)), Ge(c, n))) {
			return false
		}
		if n.op != OInt || n.n > 4096 {
			unsupf("make of unknown length")
		}
		if n.n == 0 {
			p.env[x] = &SliceV{L: EmpL(s), own: freshOwn(), nonnil: True}
			return true
		}
		if c != n {
			unsupf("make with a capacity")
		}
		a := &ArrayV{}
		el := x.Type().Underlying().(*types.Slice).Elem()
		for i := int64(0); i < n.n; i++ {
			a.El = append(a.El, zero(el))
		}
		o := freshOwn()
		p.st.heap[o] = a
		p.env[x] = &SliceV{obj: o, n: int(n.n), nonnil: True}
	case *ssa.Slice:
		return e.slice(p, x)
	case *ssa.Store:
		q, ok := e.val(p, x.Addr).(*PtrV)
		if !ok {
			unsupf("store address")
		}
		p.st.store(q, e.val(p, x.Val))
	case *ssa.TypeAssert:
		p.env[x] = e.typeAssert(p, x)
	default:
		unsupf("instruction %T", in)
	}
	return true
}

func (e *Exec) mapOf(p *Path, v Value) *MapV {
	switch x := v.(type) {
	case *MapV:
		return x
	case *MapRef:
		if m, ok := p.st.heap[x.obj].(*MapV); ok {
			return m
		}
		if m, ok := e.M.initHeap[x.obj].(*MapV); ok {
			return m
		}
	}
	unsupf("map value")
	return nil
}

// asSet: the keys of a map from strings whose entries all have one value.
func (m *MapV) asSet() (*Term, Value) {
	if m.set != nil {
		return m.set, m.pres
	}
	if m.isNil {
		return nil, nil
	}
	l := EmpL(ListOf(SStr))
	var v Value
	for i, k := range m.keys {
		if k.sort != SStr || v != nil && !sameValue(v, m.vals[i]) {
			return nil, nil
		}
		v = m.vals[i]
		l = Snoc(l, k)
	}
	return l, v
}

func mapHas(m *MapV, k *Term) *Term {
	if m.set != nil {
		return App(spec.Defs["memFrom"], m.set, Int(0), k)
	}
	var ws []string
	for _, x := range m.keys {
		if x.op != OStr {
			r := False
			for _, y := range m.keys {
				r = Or(r, Eq(k, y))
			}
			return r
		}
		ws = append(ws, x.s)
	}
	return In(k, mkSet(ws))
}

func (e *Exec) elem(p *Path, s *SliceV, i *Term, t types.Type) Value {
	if s.L == nil {
		if i.op != OInt {
			i = p.st.f.simp(i)
		}
		if i.op == OInt {
			a := p.st.load(&PtrV{obj: s.obj, path: s.path}).(*ArrayV)
			return a.El[s.off+int(i.n)]
		}
		return fromTerm(At(p.st.listOf(s, types.NewSlice(t)), i), t)
	}
	return fromTerm(At(s.L, i), t)
}

func (e *Exec) slice(p *Path, x *ssa.Slice) bool {
	var lo, hi *Term
	if x.Low != nil {
		lo = p.st.f.simp(e.term(p, x.Low))
	}
	if x.High != nil {
		hi = p.st.f.simp(e.term(p, x.High))
	}
	if x.Max != nil {
		unsupf("three-index slice")
	}
	switch b := e.val(p, x.X).(type) {
	case *Term: // string
		if lo == nil {
			lo = Int(0)
		}
		n := U("strlen", b)
		if hi == nil {
			hi = n
		}
		if !e.safe(p, "slice bounds in range", x.Pos(), And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, n))) {
			return false
		}
		p.env[x] = U("substr", b, lo, hi)
		return true
	case *PtrV: // array
		a, ok := p.st.load(b).(*ArrayV)
		if !ok || b.global != nil {
			unsupf("slice of array")
		}
		l, h := 0, len(a.El)
		if lo != nil {
			if lo.op != OInt {
				unsupf("slice bounds")
			}
			l = int(lo.n)
		}
		if hi != nil {
			if hi.op != OInt {
				unsupf("slice bounds")
			}
			h = int(hi.n)
		}
		if l < 0 || l > h || h > len(a.El) {
			e.oblige(p.st, "safe", "slice bounds in range", x.Pos(), False)
			return false
		}
		own := 0
		if h < len(a.El) {
			own = -1
		}
		p.env[x] = &SliceV{obj: b.obj, path: b.path, off: l, n: h - l, own: own, nonnil: True}
		if h == l {
			if s := sortOf(x.Type()); s != nil && own == 0 {
				p.env[x] = &SliceV{L: EmpL(s), nonnil: True}
			}
		}
		return true
	case *SliceV:
		if (lo == nil || lo == Int(0)) && hi == nil {
			p.env[x] = b
			return true
		}
		if b.L == nil {
			l, h := 0, b.n
			if lo != nil {
				if lo.op != OInt {
					unsupf("slice bounds")
				}
				l = int(lo.n)
			}
			if hi != nil {
				if hi.op != OInt {
					unsupf("slice bounds")
				}
				h = int(hi.n)
			}
			if l < 0 || l > h || h > b.n {
				e.oblige(p.st, "safe", "slice bounds in range", x.Pos(), False)
				return false
			}
			own := b.own
			if h < b.n {
				own = -1
			}
			p.env[x] = &SliceV{obj: b.obj, path: b.path, off: b.off + l, n: h - l, own: own, nonnil: True}
			return true
		}
		if b.L.sort != ListOf(SInt) && b.L.sort != ListOf(SStr) {
			unsupf("slice of a list")
		}
		n := Len(b.L)
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		if !e.safe(p, "slice bounds in range", x.Pos(), And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, n))) {
			return false
		}
		p.env[x] = &SliceV{L: subList(b.L, lo, hi), own: -1, nonnil: True}
		return true
	}
	unsupf("slice operation")
	return false
}

func (e *Exec) binop(p *Path, x *ssa.BinOp) Value {
	a, b := e.val(p, x.X), e.val(p, x.Y)
	ta, oka := a.(*Term)
	tb, okb := b.(*Term)
	if !oka || !okb {
		if x.Op == token.EQL || x.Op == token.NEQ {
			r := eqValues(p.st, a, b, x.X.Type())
			if x.Op == token.NEQ {
				return Not(r)
			}
			return r
		}
		unsupf("operator %s on %T", x.Op, a)
	}
	if ta.sort != tb.sort {
		if ta.sort.Name == "Any" || tb.sort.Name == "Any" {
			unsupf("comparison of interface values")
		}
		unsupf("operator %s on different sorts", x.Op)
	}
	switch x.Op {
	case token.EQL:
		if ta.sort == SFloat {
			unsupf("float comparison")
		}
		return Eq(ta, tb)
	case token.NEQ:
		if ta.sort == SFloat {
			unsupf("float comparison")
		}
		return Not(Eq(ta, tb))
	}
	if ta.sort == SStr {
		if x.Op == token.ADD {
			return U("cat", ta, tb)
		}
		unsupf("string operator %s", x.Op)
	}
	if ta.sort == SBool {
		switch x.Op {
		case token.AND:
			return And(ta, tb)
		case token.OR:
			return Or(ta, tb)
		}
	}
	if ta.sort != SInt {
		unsupf("operator %s", x.Op)
	}
	switch x.Op {
	case token.ADD:
		if tb.op == OInt && tb.n > 1 && tb.n <= 4 { // steps over tokens
			for j := int64(0); j < tb.n; j++ {
				p.st.touch(AddC(ta, j))
			}
		}
		return Add(ta, tb)
	case token.SUB:
		return Sub(ta, tb)
	case token.MUL:
		if tb.op == OInt {
			return MulC(ta, tb.n)
		}
		if ta.op == OInt {
			return MulC(tb, ta.n)
		}
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	}
	unsupf("operator %s", x.Op)
	return nil
}

func eqValues(st *State, a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return Bool(sameValue(x, y))
		}
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && y.nonnil == False && y.L != nil && y.L.op == OEmp {
			return Not(x.nonnil)
		}
		if ok && x.nonnil == False && x.L != nil && x.L.op == OEmp {
			return Not(y.nonnil)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && (x.T == nil || y.T == nil) {
			return Bool((x.T == nil) == (y.T == nil))
		}
	case *ChoiceV:
		return Ite(x.cond, eqValues(st, x.a, b, t), eqValues(st, x.b, b, t))
	case *MapV:
		if _, ok := b.(*MapRef); ok && x.isNil {
			return False
		}
		if y, ok := b.(*MapV); ok && (x.isNil || y.isNil) {
			return Bool(x.isNil == y.isNil)
		}
	case *MapRef:
		if y, ok := b.(*MapV); ok && y.isNil {
			return False
		}
	case *FuncV:
		if y, ok := b.(*ChoiceV); ok {
			return Ite(y.cond, eqValues(st, a, y.a, t), eqValues(st, a, y.b, t))
		}
		if y, ok := b.(*FuncV); ok {
			n := func(f *FuncV) bool { return f.Fn == nil && f.Blt == "" }
			if n(x) || n(y) {
				return Bool(n(x) == n(y))
			}
		}
	case *StructV:
		if _, ok := b.(*StructV); ok {
			return Eq(st.toTerm(a, t), st.toTerm(b, t))
		}
	}
	unsupf("comparison of %T", a)
	return nil
}

func (e *Exec) convert(p *Path, x *ssa.Convert) Value {
	v := e.val(p, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := sortOf(x.X.Type()), sortOf(x.Type())
	if s, ok := v.(*SliceV); ok && s.L != nil && s.L.sort == ListOf(SInt) && ts == SStr {
		if b, ok := from.(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			if l, lo, hi, ok := isSub(s.L); ok {
				return App(spec.Defs["span"], l, lo, hi)
			}
			return App(spec.Defs["span"], s.L, Int(0), Len(s.L))
		}
	}
	if t, ok := v.(*Term); ok {
		switch {
		case fs == SInt && ts == SStr:
			return U("chr", t)
		case fs == ts && fs == SInt:
			fb, _ := from.(*types.Basic)
			tb, _ := to.(*types.Basic)
			if fb != nil && tb != nil && (tb.Kind() == types.Uint8 || tb.Kind() == types.Int8 || tb.Kind() == types.Int16 || tb.Kind() == types.Uint16) && fb.Kind() != tb.Kind() {
				unsupf("narrowing conversion")
			}
			return t
		case fs == ts && fs == SStr:
			return t
		case fs == SStr && ts != nil && ts.Kind == KList:
			if b, ok := to.(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return &SliceV{L: U("runes", t), own: freshOwn(), nonnil: True}
			}
		}
	}
	unsupf("conversion %s to %s", from, to)
	return nil
}

func isValidateError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "ValidateError"
}

func (e *Exec) makeInterface(p *Path, x *ssa.MakeInterface) Value {
	v := e.val(p, x.X)
	if isErrorType(types.Unalias(x.Type())) {
		if isValidateError(x.X.Type()) {
			s := v.(*StructV)
			var ln, near *Term
			for i := 0; i < s.T.NumFields(); i++ {
				switch s.T.Field(i).Name() {
				case "Line":
					ln, _ = s.F[i].(*Term)
				case "Near":
					near, _ = s.F[i].(*Term)
				}
			}
			if ln == nil || near == nil || len(s.F) != 2 {
				unsupf("shape of ValidateError")
			}
			return Mk(spec.Ctors["VE"], ln, near)
		}
		return Mk(spec.Ctors["eother"], Fresh("err", SInt))
	}
	if s := sortOf(x.Type()); s != nil && s.Name == "Any" {
		if t, ok := v.(*Term); ok {
			named := false
			if _, ok := types.Unalias(x.X.Type()).(*types.Named); ok {
				named = true
			}
			if !named {
				b, _ := x.X.Type().Underlying().(*types.Basic)
				switch {
				case t.sort == SStr:
					return Mk(spec.Ctors["astr"], t)
				case t.sort == SBool:
					return Mk(spec.Ctors["abool"], t)
				case t.sort == SInt && b != nil && b.Kind() == types.Int:
					return Mk(spec.Ctors["aint"], t)
				case t.sort == SFloat && b != nil && b.Kind() == types.Float64:
					return Mk(spec.Ctors["afloat"], t)
				}
			}
		}
		return Mk(spec.Ctors["aother"], Fresh("any", SInt))
	}
	return &IfaceV{T: x.X.Type(), V: v}
}

func (e *Exec) typeAssert(p *Path, x *ssa.TypeAssert) Value {
	v := e.val(p, x.X)
	if t, ok := v.(*Term); ok && t.sort.Name == "Err" && isValidateError(x.AssertedType) {
		ve := spec.Ctors["VE"]
		is := Is(ve, t)
		u := x.AssertedType.Underlying().(*types.Struct)
		r := &StructV{T: u, N: x.AssertedType}
		for i := 0; i < u.NumFields(); i++ {
			k := ve.field(u.Field(i).Name())
			if k < 0 {
				unsupf("shape of ValidateError")
			}
			r.F = append(r.F, Sel(ve, k, t))
		}
		if x.CommaOk {
			z := iteValue(is, r, zero(x.AssertedType))
			return &TupleV{[]Value{z, is}}
		}
		if !e.safe(p, "type assertion", x.Pos(), is) {
			return r
		}
		return r
	}
	if iv, ok := v.(*IfaceV); ok && iv.T != nil {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
			same := types.Identical(iv.T, x.AssertedType)
			if x.CommaOk {
				if same {
					return &TupleV{[]Value{iv.V, True}}
				}
				return &TupleV{[]Value{zero(x.AssertedType), False}}
			}
			if same {
				return iv.V
			}
		}
	}
	unsupf("type assertion to %s", x.AssertedType)
	return nil
}

// intrinsic models library functions (the trusted base; see DESIGN.md).
func (e *Exec) intrinsic(p *Path, fn *ssa.Function, args []Value, pos token.Pos) ([]Value, bool) {
	name := fn.String()
	if e.initMode && fn.Name() == "init" && fn.Synthetic != "" {
		return nil, true
	}
	t := func(i int) *Term {
		x, ok := args[i].(*Term)
		if !ok {
			unsupf("%s: argument", name)
		}
		return x
	}
	one := func(v Value) ([]Value, bool) { return []Value{v}, true }
	errOf := func(ok *Term) *Term {
		return Ite(ok, Mk(spec.Ctors["enil"]), Mk(spec.Ctors["eother"], Int(0)))
	}
	switch name {
	case "strings.ToUpper":
		return one(U("upper", t(0)))
	case "strings.ToLower":
		return one(U("lower", t(0)))
	case "strconv.Atoi":
		return []Value{U("atoi", t(0)), errOf(U("isint", t(0)))}, true
	case "strconv.ParseFloat":
		if b := t(1); b.op != OInt || b.n != 64 {
			unsupf("ParseFloat size")
		}
		return []Value{U("pf", t(0)), errOf(U("isnum", t(0)))}, true
	case "regexp.MustCompile":
		if t(0).op != OStr {
			unsupf("regexp pattern is not constant")
		}
		return one(&ReV{t(0)})
	case "(*regexp.Regexp).MatchString":
		r, ok := args[0].(*ReV)
		if !ok {
			unsupf("regexp value")
		}
		return one(U("rematch", r.pat, t(1)))
	case "regexp.MatchString":
		if t(0).op != OStr {
			unsupf("regexp pattern is not constant")
		}
		return []Value{U("rematch", t(0), t(1)), Mk(spec.Ctors["enil"])}, true
	case "strings.HasPrefix":
		c := t(1)
		if c.op == OStr && c.s == "" {
			return one(True)
		}
		if c.op == OStr && len(c.s) == 1 {
			return one(Eq(U("first", t(0)), c))
		}
		if n := U("strlen", c); true {
			return one(And(Ge(U("strlen", t(0)), n), Eq(U("substr", t(0), Int(0), n), c)))
		}
	case "strings.HasSuffix":
		n, m := U("strlen", t(0)), U("strlen", t(1))
		return one(And(Ge(n, m), Eq(U("substr", t(0), Sub(n, m), n), t(1))))
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
		// which of a constant's characters
		c := t(0)
		if c.op != OStr || t(1).sort != SInt || strings.ToValidUTF8(c.s, "") != c.s {
			unsupf("%s in a text that is not constant", name)
		}
		has, at := False, Int(-1)
		if name == "strings.IndexByte" {
			for k := len(c.s) - 1; k >= 0; k-- {
				at = Ite(Eq(t(1), Int(int64(c.s[k]))), Int(int64(k)), at)
			}
			return one(at)
		}
		var ks []int
		for k, r := range c.s {
			if r == 0xFFFD {
				unsupf("%s", name)
			}
			has = Or(has, Eq(t(1), Int(int64(r))))
			ks = append(ks, k)
		}
		if name == "strings.ContainsRune" {
			return one(has)
		}
		for j := len(ks) - 1; j >= 0; j-- {
			r := []rune(c.s[ks[j]:])[0]
			at = Ite(Eq(t(1), Int(int64(r))), Int(int64(ks[j])), at)
		}
		return one(at)
	case "strings.Contains":
		return one(containsT(t(0), t(1)))
	case "strings.EqualFold":
		// agrees with comparing in upper case on texts without I and K (the
		// dotless i and the Kelvin sign are folded differently)
		for _, k := range []int{0, 1} {
			c := t(k)
			if c.op == OStr && ascii(c.s) && !strings.ContainsAny(strings.ToUpper(c.s), "IK") {
				return one(Eq(U("upper", t(1-k)), Str(strings.ToUpper(c.s))))
			}
		}
		return one(U("eqfold", t(0), t(1)))
	case "strings.Join":
		sl, ok := args[0].(*SliceV)
		if !ok {
			unsupf("strings.Join")
		}
		es, ok := constElems(p.st.listOf(sl, fn.Signature.Params().At(0).Type()))
		if !ok {
			unsupf("strings.Join of a list of unknown length")
		}
		r := Str("")
		for k, x := range es {
			if k > 0 {
				r = U("cat", r, t(1))
			}
			r = U("cat", r, x)
		}
		return one(r)
	case "unicode.IsDigit":
	case "unicode/utf8.RuneCountInString":
		return one(Len(U("runes", t(0))))
	case "strconv.Itoa":
		return one(U("itoa", t(0)))
	case "errors.New", "fmt.Errorf":
		return one(Mk(spec.Ctors["eother"], Fresh("err", SInt)))
	case "fmt.Sprintf":
		if r := sprintf(p, fn, t(0), args[1]); r != nil {
			return one(r)
		}
		return one(Fresh("text", SStr))
	case "fmt.Sprint":
		return one(Fresh("text", SStr))
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteByte":
		q := args[0].(*PtrV)
		b := e.builderGet(p, q)
		s := t(1)
		if s.sort == SInt {
			s = U("chr", s)
			if name == "(*strings.Builder).WriteByte" && !(t(1).op == OInt && t(1).n < 128) {
				unsupf("WriteByte")
			}
		}
		e.builderSet(p, q, U("cat", b, s))
		switch name {
		case "(*strings.Builder).WriteByte":
			return one(Mk(spec.Ctors["enil"]))
		}
		return []Value{U("strlen", s), Mk(spec.Ctors["enil"])}, true
	case "(*strings.Builder).String":
		return one(e.builderGet(p, args[0].(*PtrV)))
	case "(*strings.Builder).Len":
		return one(U("strlen", e.builderGet(p, args[0].(*PtrV))))
	case "(*strings.Builder).Grow":
		return nil, true
	case "(*strings.Builder).Reset":
		e.builderSet(p, args[0].(*PtrV), Str(""))
		return nil, true
	}
	return nil, false
}

// sprintf puts a text together from the verbs %s, %d and %v.
func sprintf(p *Path, fn *ssa.Function, format *Term, list Value) *Term {
	sl, ok := list.(*SliceV)
	if !ok || format.op != OStr {
		return nil
	}
	es, ok := constElems(p.st.listOf(sl, fn.Signature.Params().At(1).Type()))
	if !ok {
		return nil
	}
	var parts []*Term
	lit := ""
	f := format.s
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if len(es) == 0 || es[0].op != OCtor {
			return nil
		}
		x := es[0]
		es = es[1:]
		var y *Term
		switch {
		case x.ctor.Name == "astr" && (f[i] == 's' || f[i] == 'v'):
			y = x.args[0]
		case x.ctor.Name == "aint" && (f[i] == 'd' || f[i] == 'v'):
			y = U("itoa", x.args[0])
		default:
			return nil
		}
		parts = append(parts, Str(lit), y)
		lit = ""
	}
	if len(es) > 0 {
		return nil
	}
	parts = append(parts, Str(lit))
	r := parts[len(parts)-1]
	for k := len(parts) - 2; k >= 0; k-- {
		r = U("cat", parts[k], r)
	}
	return r
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// a strings.Builder is represented by its text, in place of its last field
func (e *Exec) builderGet(p *Path, q *PtrV) *Term {
	s, ok := p.st.load(q).(*StructV)
	if !ok {
		unsupf("strings.Builder")
	}
	if t, ok := s.F[len(s.F)-1].(*Term); ok && t.sort == SStr {
		return t
	}
	return Str("")
}

func (e *Exec) builderSet(p *Path, q *PtrV, t *Term) {
	s, ok := p.st.load(q).(*StructV)
	if !ok {
		unsupf("strings.Builder")
	}
	c := &StructV{T: s.T, N: s.N, F: append([]Value{}, s.F...)}
	c.F[len(c.F)-1] = t
	p.st.store(q, c)
}

// ---- loops of a function ----

type Loop struct {
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

func (m *Module) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	dynMu.Lock()
	defer dynMu.Unlock()
	if l, ok := m.loops[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &Loop{head: s, in: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.in[x] {
						return
					}
					l.in[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	m.loops[fn] = r
	return r
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// containsT: the first text contains the second.
func containsT(c, k *Term) *Term {
	switch {
	case c.op == OIte:
		return Ite(c.args[0], containsT(c.args[1], k), containsT(c.args[2], k))
	case c.op != OStr:
	case k.op == OUF && k.uf.Name == "chr" && strings.ToValidUTF8(c.s, "") == c.s:
		var ws []string
		for _, r := range c.s {
			ws = append(ws, string(r))
		}
		return In(k, mkSet(ws))
	case k.op == OUF && k.uf.Name == "first": // its first byte, if it has one
		var ws []string
		for i := 0; i < len(c.s); i++ {
			ws = append(ws, c.s[i:i+1])
		}
		return Or(Le(U("strlen", k.args[0]), Int(0)), In(k, mkSet(ws)))
	case len(c.s) <= 8:
		ws := []string{""}
		for i := 0; i < len(c.s); i++ {
			for j := i + 1; j <= len(c.s); j++ {
				ws = append(ws, c.s[i:j])
			}
		}
		return In(k, mkSet(ws))
	}
	return U("contains", c, k)
}

// survivors: which candidate invariants of a loop were left the last time it
// was run in the same place, as where to start when it is run again for the
// loop around it.
type survivors struct {
	n    int
	live map[int]bool
}

func (c *cutState) place() string {
	s := fmt.Sprintf("%s %d %x", c.fr.fn, c.loop.head.Index, c.p.sig)
	for f := c.fr; f != nil; f = f.parent {
		s += fmt.Sprintf(" %s %x", f.fn, f.at)
	}
	return s
}
