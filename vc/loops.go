package main

// Loops whose bounds are not constants are cut at their head: what the body
// changes is replaced by fresh values, constrained by an invariant. Candidate
// invariants come from the specification functions the contract mentions and
// from simple bounds; those that are not inductive are discarded.

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var dbgLoop = os.Getenv("DBGLOOP")

type loc struct {
	phi    *ssa.Phi
	obj    int
	path   []int
	sub    []int // inside a struct value of a phi
	entry  *Term
	head   *Term
	nnE    *Term // slices: non-nil
	nnH    *Term
	isSl   bool
	own    int
	shared bool
	isMap  bool
	pres   Value // maps: the value of every entry
}

func (l *loc) key() string {
	if l.phi != nil {
		return fmt.Sprintf("phi %s %v", l.phi.Name(), l.sub)
	}
	return fmt.Sprintf("%d %v", l.obj, l.path)
}

func (l *loc) name() string {
	if l.phi != nil {
		if l.phi.Comment != "" {
			return l.phi.Comment
		}
		return l.phi.Name()
	}
	return fmt.Sprintf("field%v", l.path)
}

// leavesOf lists the scalar parts of a value.
func leavesOf(v Value, path []int, f func(path []int, v Value)) {
	if s, ok := v.(*StructV); ok {
		for i, x := range s.F {
			leavesOf(x, append(append([]int{}, path...), i), f)
		}
		return
	}
	f(path, v)
}

func getPath(v Value, path []int) Value {
	for _, k := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[k]
		case *ArrayV:
			v = x.El[k]
		default:
			unsupf("structure changed in a loop")
		}
	}
	return v
}

type cutState struct {
	e    *Exec
	fr   *Frame
	p    *Path
	prev *ssa.BasicBlock
	loop *Loop
	phis []*ssa.Phi
	phiE map[*ssa.Phi]Value
	locs []*loc
	has  map[string]bool
}

func (c *cutState) add(l *loc) {
	if c.has[l.key()] {
		return
	}
	c.has[l.key()] = true
	c.locs = append(c.locs, l)
}

// newLoc makes a location for a scalar or slice value.
func (c *cutState) newLoc(v Value, l *loc, pres Value) bool {
	switch x := v.(type) {
	case *Term:
		l.entry = x
		l.head = Fresh("h."+l.name(), x.sort)
	case *SliceV:
		if x.L == nil {
			return false
		}
		l.entry, l.isSl = x.L, true
		l.head = Fresh("h."+l.name(), x.L.sort)
		l.nnE, l.nnH = x.nonnil, Fresh("h.nn", SBool)
		l.own = x.own
	case *MapV:
		s, v := x.asSet()
		if v == nil {
			v = pres
		}
		if s == nil || v == nil || pres != nil && !sameValue(v, pres) {
			return false
		}
		l.entry, l.isMap, l.pres = s, true, v
		l.head = Fresh("h.map", s.sort)
	default:
		return false
	}
	c.add(l)
	return true
}

func (l *loc) headVal() Value {
	if l.isMap {
		return &MapV{set: l.head, pres: l.pres}
	}
	if l.isSl {
		own := freshOwn()
		if l.own < 0 || l.shared {
			own = -1
		}
		return &SliceV{L: l.head, own: own, nonnil: l.nnH}
	}
	return l.head
}

// headPath is the path at the loop head with every location havocked.
func (c *cutState) headPath() *Path {
	q := c.p.fork()
	phiV := map[*ssa.Phi]Value{}
	for _, ph := range c.phis {
		phiV[ph] = c.phiE[ph]
	}
	for _, l := range c.locs {
		if l.isSl && l.own > 0 {
			q.st.consumed[l.own] = true
		}
		if l.phi != nil {
			phiV[l.phi] = updPath(phiV[l.phi], l.sub, l.headVal())
		} else {
			q.st.heap[l.obj] = updPath(q.st.heap[l.obj], l.path, l.headVal())
		}
	}
	for ph, v := range phiV {
		q.env[ph] = v
	}
	q.cuts = append(append([]*ssa.BasicBlock{}, q.cuts...), c.loop.head)
	for _, l := range c.locs {
		if l.head.sort == SInt {
			q.st.touch(l.head)
		}
	}
	return q
}

// shares: the slice may have other owners at the back edge.
func (c *cutState) shares(lf *Leaf, l *loc, x *SliceV) bool {
	return !l.shared && l.own >= 0 && (x.own < 0 || x.own > 0 && lf.p.st.consumed[x.own])
}

// backVal: value of a location at a back edge.
func (c *cutState) backVal(lf *Leaf, l *loc) (*Term, *Term) {
	var v Value
	if l.phi != nil {
		k := predIdx(lf.prev, c.loop.head)
		v = getPath(c.e.val(lf.p, l.phi.Edges[k]), l.sub)
	} else {
		v = getPath(lf.p.st.heap[l.obj], l.path)
	}
	switch x := v.(type) {
	case *Term:
		return x, nil
	case *MapV:
		if s, v := x.asSet(); l.isMap && s != nil && (v == nil || sameValue(v, l.pres)) {
			return s, nil
		}
	case *SliceV:
		if l.isSl {
			if x.L == nil {
				return nil, nil
			}
			if c.shares(lf, l, x) {
				unsupf("slice shared across iterations")
			}
			return x.L, x.nonnil
		}
	}
	return nil, nil
}

func (e *Exec) cutLoop(fr *Frame, p *Path, prev *ssa.BasicBlock, loop *Loop) *Tree {
	t0 := time.Now()
	c := &cutState{e: e, fr: fr, p: p, prev: prev, loop: loop, has: map[string]bool{}, phiE: map[*ssa.Phi]Value{}}
	e.cutN++
	if e.cutN > 400 {
		unsupf("too many loops")
	}
	k := predIdx(prev, loop.head)
	for _, in := range loop.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(p, ph.Edges[k])
		c.phis = append(c.phis, ph)
		c.phiE[ph] = v
		leavesOf(v, nil, func(sub []int, x Value) {
			if s, ok := x.(*SliceV); ok && s.L == nil { // array-backed: as a list
				x = &SliceV{L: p.st.listOf(s, ph.Type()), own: -1, nonnil: s.nonnil}
				if len(sub) == 0 {
					c.phiE[ph] = x
				}
			}
			c.newLoc(x, &loc{phi: ph, sub: sub}, nil)
		})
	}
	// what the body changes
	for round := 0; ; round++ {
		if round > 12 {
			unsupf("loop modifies too much")
		}
		n := len(c.locs)
		again := false
		e.mute++
		q := c.headPath()
		base := map[int]Value{}
		for o, v := range q.st.heap {
			base[o] = v
		}
		phiH := map[*ssa.Phi]Value{}
		for _, ph := range c.phis {
			phiH[ph] = q.env[ph]
		}
		t := e.guard(fr, q.st, func() *Tree { return e.run(fr, q, loop.head, numPhis(loop.head), prev) })
		e.mute--
		t.leaves(func(lf *Leaf) {
			if lf.kind != LBack || lf.target != loop.head {
				return
			}
			for o, v := range base {
				w, ok := lf.p.st.heap[o]
				if !ok || sameValue(v, w) {
					continue
				}
				leavesOf(v, nil, func(path []int, x Value) {
					y := getPath(w, path)
					if sameValue(x, y) {
						return
					}
					l := &loc{obj: o, path: path}
					if c.has[l.key()] {
						return
					}
					var pres Value
					if m, ok := y.(*MapV); ok {
						_, pres = m.asSet()
					}
					if !c.newLoc(getPath(c.p.st.heap[o], path), l, pres) {
						unsupf("loop changes a %T", x)
					}
				})
			}
			for _, l := range c.locs {
				if !l.isSl || l.shared {
					continue
				}
				var v Value
				if l.phi != nil {
					v = getPath(e.val(lf.p, l.phi.Edges[predIdx(lf.prev, loop.head)]), l.sub)
				} else {
					v = getPath(lf.p.st.heap[l.obj], l.path)
				}
				if x, ok := v.(*SliceV); ok && x.L != nil && c.shares(lf, l, x) {
					l.shared, again = true, true // the loop may not append to it
				}
			}
			kk := predIdx(lf.prev, loop.head)
			for _, ph := range c.phis {
				w := e.val(lf.p, ph.Edges[kk])
				leavesOf(phiH[ph], nil, func(sub []int, x Value) {
					l := &loc{phi: ph, sub: sub}
					if !c.has[l.key()] && !sameValue(x, getPath(w, sub)) {
						unsupf("loop variable of type %T", x)
					}
				})
			}
		})
		if len(c.locs) == n && !again {
			break
		}
	}
	// candidates
	entryMap := map[*Term]*Term{}
	for _, l := range c.locs {
		entryMap[l.head] = l.entry
		if l.isSl {
			entryMap[l.nnH] = l.nnE
		}
	}
	cands := c.candidates()
	var live []*Term
	seen := map[*Term]bool{}
	var todo []*Term
	for _, x := range cands {
		if x == True || seen[x] {
			continue
		}
		seen[x] = true
		todo = append(todo, x)
	}
	if dbgLoop != "" {
		fmt.Fprintln(os.Stderr, "candidates", len(todo), "locs", len(c.locs), "time", time.Since(t0))
	}
	key := c.place()
	nTodo := len(todo)
	at := map[*Term]int{}
	for i, x := range todo {
		at[x] = i
	}
	if s, ok := e.survived[key]; ok && s.n == nTodo {
		var k []*Term
		for i, x := range todo {
			if s.live[i] {
				k = append(k, x)
			}
		}
		todo = k
	}
	ok := e.proveAll(p.st, todo, func(x *Term) *Term { return Subst(x, entryMap) }, nil)
	for i, x := range todo {
		if ok[i] {
			live = append(live, x)
		}
	}
	// the largest inductive subset
	for round := 0; ; round++ {
		if dbgLoop != "" {
			fmt.Fprintln(os.Stderr, "round", round, "live", len(live), "time", time.Since(t0))
		}
		e.mute++
		q := c.headPath()
		dead := false
		for _, x := range live {
			if !q.st.assume(x) {
				dead = true
			}
		}
		t := deadTree
		if !dead {
			t = e.guard(fr, q.st, func() *Tree { return e.run(fr, q, loop.head, numPhis(loop.head), prev) })
		}
		e.mute--
		bad := map[*Term]bool{}
		t.leaves(func(lf *Leaf) {
			if lf.kind != LBack || lf.target != loop.head {
				return
			}
			bm := map[*Term]*Term{}
			for _, l := range c.locs {
				v, nn := c.backVal(lf, l)
				if v == nil {
					unsupf("loop value of unexpected kind")
				}
				bm[l.head] = v
				if l.isSl {
					bm[l.nnH] = nn
				}
			}
			var chk []*Term
			for _, x := range live {
				if !bad[x] {
					chk = append(chk, x)
				}
			}
			ok := e.proveAll(lf.p.st, chk, func(x *Term) *Term { return Subst(x, bm) }, func(x *Term) []*Term { return apps(x) })
			for i, x := range chk {
				if !ok[i] {
					bad[x] = true
					if dbgLoop != "" && strings.Contains(x.String(), dbgLoop) {
						fmt.Fprintln(os.Stderr, "DROP round", round, x)
						for _, h := range lf.p.st.hyps() {
							fmt.Fprintln(os.Stderr, "    H", h)
						}
						fmt.Fprintln(os.Stderr, "    G", lf.p.st.f.simp(Subst(x, bm)))
						for _, a := range apps(x) {
							fmt.Fprintln(os.Stderr, "    U", a, ":=", Unfold(a.def, a.args))
						}
					}
				}
			}
		})
		if len(bad) == 0 {
			break
		}
		var nl []*Term
		for _, x := range live {
			if !bad[x] {
				nl = append(nl, x)
			}
		}
		live = nl
		if round > 40 {
			unsupf("no invariant")
		}
	}
	{
		s := survivors{n: nTodo, live: map[int]bool{}}
		for _, x := range live {
			s.live[at[x]] = true
		}
		if e.survived == nil {
			e.survived = map[string]survivors{}
		}
		e.survived[key] = s
	}
	if e.mute == 0 {
		pos := e.M.pos(firstPos(loop))
		for _, x := range live {
			e.obs = append(e.obs, &Ob{Fn: e.fnName, Kind: "inv", Label: "loop invariant", Pos: pos, Goal: True, Ok: true, How: "inductive"})
			e.loopInv = append(e.loopInv, pos+" "+x.String())
		}
	}
	// the body once more, keeping its obligations
	q := c.headPath()
	for _, x := range live {
		if !q.st.assume(x) {
			return deadTree
		}
	}
	t := e.guard(fr, q.st, func() *Tree { return e.run(fr, q, loop.head, numPhis(loop.head), prev) })
	c.termination(t)
	n := len(p.cuts)
	return t.mapLeaves(func(lf *Leaf) *Tree {
		switch lf.kind {
		case LBack:
			return deadTree
		case LExit:
			np := lf.p
			np.cuts = np.cuts[:n]
			return e.guard(fr, np.st, func() *Tree { return e.goTo(fr, np, lf.prev, lf.target) })
		}
		lf.p.cuts = lf.p.cuts[:n]
		return &Tree{leaf: lf}
	})
}

func firstPos(l *Loop) (p token.Pos) {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.in {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				if p == 0 || in.Pos() < p {
					p = in.Pos()
				}
			}
		}
	}
	return p
}

func apps(x *Term) []*Term {
	var r []*Term
	walk(x, map[*Term]bool{}, func(t *Term) {
		if t.op == OApp {
			r = append(r, t)
		}
	})
	return r
}

// proveAll decides candidates in a state, in parallel.
func (e *Exec) proveAll(st *State, xs []*Term, f func(*Term) *Term, extra func(*Term) []*Term) []bool {
	out := make([]bool, len(xs))
	var wg sync.WaitGroup
	hy := st.hyps()
	dead := 0
	for i := range xs {
		g := st.f.simp(f(xs[i]))
		if g == True {
			out[i] = true
			continue
		}
		if g == False && dead > 0 {
			out[i] = dead == 1
			continue
		}
		if g == False { // unless the path cannot be taken
			dead = 2
			if ok, _ := e.M.prover.Prove(&Query{Hyps: hy, Goal: g, Roots: e.aux, Rounds: e.candRounds, Lem: e.lem}); ok {
				dead = 1
			}
			out[i] = dead == 1
			continue
		}
		var roots []*Term
		roots = append(roots, e.aux...)
		roots = append(roots, apps(g)...)
		roots = append(roots, apps(f(xs[i]))...)
		if extra != nil {
			roots = append(roots, extra(xs[i])...)
		}
		wg.Add(1)
		go func(i int, g *Term, roots []*Term) {
			defer wg.Done()
			ok, _ := e.M.prover.Prove(&Query{Hyps: hy, Goal: g, Roots: roots, Rounds: e.candRounds, Lem: e.lem})
			out[i] = ok
		}(i, g, roots)
	}
	wg.Wait()
	return out
}

// termination: some counter moves towards a bound in every iteration.
func (c *cutState) termination(t *Tree) {
	e := c.e
	if e.mute > 0 {
		return
	}
	type back struct {
		lf *Leaf
		bm map[*loc]*Term
	}
	var backs []back
	t.leaves(func(lf *Leaf) {
		if lf.kind == LBack && lf.target == c.loop.head {
			m := map[*loc]*Term{}
			for _, l := range c.locs {
				v, _ := c.backVal(lf, l)
				m[l] = v
			}
			backs = append(backs, back{lf, m})
		}
	})
	pos := firstPos(c.loop)
	if len(backs) == 0 {
		return
	}
	var bounds []*Term
	for _, l := range c.lists() {
		bounds = append(bounds, Len(l))
	}
	for _, l := range c.locs {
		if l.head.sort != SInt {
			continue
		}
		// decreasing towards zero, or increasing towards a bound
		type meas struct{ f func(*Term) *Term }
		ms := []func(x *Term) *Term{func(x *Term) *Term { return x }}
		for _, b := range bounds {
			b := b
			ms = append(ms, func(x *Term) *Term { return Sub(b, x) })
		}
		for _, m := range ms {
			all := true
			for _, b := range backs {
				g := And(Lt(m(b.bm[l]), m(l.head)), Ge(m(l.head), Int(0)))
				ok := e.proveAll(b.lf.p.st, []*Term{g}, func(x *Term) *Term { return x }, nil)
				if !ok[0] {
					all = false
					break
				}
			}
			if all {
				e.obs = append(e.obs, &Ob{Fn: e.fnName, Kind: "term", Label: "loop ends", Pos: e.M.pos(pos), Goal: True, Ok: true, How: "measure " + m(l.head).String()})
				return
			}
		}
	}
	// maybe the back edges are impossible
	for _, b := range backs {
		e.oblige(b.lf.p.st, "term", "loop ends", pos, False)
	}
}

// ---- candidates ----

func entryOf(c *cutState, h *Term) *Term {
	for _, l := range c.locs {
		if l.head == h {
			return l.entry
		}
	}
	return nil
}

type roleEnv struct {
	b *Bound
}

// selfObj: the object under a view that the loop works on.
func (c *cutState) selfObj() *Bound {
	for f := c.fr; f != nil; f = f.parent {
		for k, a := range f.args {
			q, ok := a.(*PtrV)
			if !ok || q.obj == 0 || q.slice != nil || k >= len(f.fn.Params) {
				continue
			}
			el := ptrElem(f.fn.Params[k].Type())
			if el == nil {
				continue
			}
			for _, vn := range []string{"validator", "lexer", "converter"} {
				if b, err := bindView(views[vn], el); err == nil {
					b.ptr = q
					return b
				}
			}
		}
	}
	return nil
}

func (c *cutState) lists() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	mod := map[*Term]bool{}
	for _, l := range c.locs {
		mod[l.head] = true
	}
	add := func(t *Term) {
		if t != nil && t.sort.Kind == KList && !seen[t] {
			ok := true
			walk(t, map[*Term]bool{}, func(x *Term) {
				if mod[x] {
					ok = false
				}
			})
			if ok {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	q := c.headPath()
	if b := c.selfObj(); b != nil {
		add(b.get(q.st, b.view.list()))
	}
	// lists indexed or measured in the loop
	for b := range c.loop.in {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if v, ok := q.env[*op]; ok {
					if s, ok := v.(*SliceV); ok && s.L != nil {
						add(s.L)
					}
					if t, ok := v.(*Term); ok && t.op == OLen {
						add(t.args[0])
					}
				}
			}
		}
	}
	for _, a := range c.fr.args {
		if s, ok := a.(*SliceV); ok && s.L != nil {
			add(s.L)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (c *cutState) candidates() []*Term {
	var out []*Term
	q := c.headPath()
	b := c.selfObj()
	head := map[string]*Term{}
	if b != nil {
		head = b.env(q.st)
		for _, k := range viewInv(b.view, head) {
			out = append(out, k.t)
		}
	}
	lists := c.lists()
	hset := map[*Term]bool{}
	for _, l := range c.locs {
		hset[l.head] = true
	}
	var ints, strs, sls, bools []*Term
	for _, l := range c.locs {
		out = append(out, Eq(l.head, l.entry))
		switch l.head.sort {
		case SInt:
			if l.head == head["line"] || l.head == head["size"] {
				continue
			}
			ints = append(ints, l.head)
			out = append(out, Ge(l.head, l.entry), Ge(l.head, Int(0)), Ge(l.head, Int(-1)))
			for _, x := range lists {
				out = append(out, Le(l.head, Len(x)), Lt(l.head, Len(x)))
			}
		case SStr:
			strs = append(strs, l.head)
			out = append(out, Not(In(U("first", l.head), mkSet([]string{"\"", "'", "`"}))),
				Ge(U("strlen", l.head), Int(1)), Eq(U("first", l.head), U("first", l.entry)))
		case SBool:
			bools = append(bools, l.head)
		case ListOf(SStr):
			sls = append(sls, l.head)
			out = append(out, U("allgood", l.head), Implies(U("allgood", l.entry), U("allgood", l.head)))
		}
		if l.isSl {
			out = append(out, l.nnH)
		}
	}
	if len(ints) <= 3 {
		for _, x := range ints {
			for _, y := range ints {
				if x != y {
					out = append(out, Le(x, y))
				}
			}
		}
	}
	if b != nil {
		out = append(out, c.preCands(b, head, hset)...)
	}
	if b != nil && b.view.Name == "converter" {
		R, i := head["R"], head["i"]
		md, dp := spec.Defs["md"], spec.Defs["dp"]
		if l := entryOf(c, i); l != nil {
			out = append(out, Eq(App(md, R, i), App(md, R, l)), Eq(App(dp, R, i), App(dp, R, l)))
			for _, d := range c.locs { // a counter of open brackets
				if d.head.sort == SInt && d.head != i {
					out = append(out, Eq(Sub(App(dp, R, i), d.head), Sub(App(dp, R, l), d.entry)),
						Or(Le(d.head, Int(0)), Eq(App(md, R, i), App(md, R, l))))
					for _, x := range c.selfEns(head) { // once all are closed
						out = append(out, Or(Gt(d.head, Int(0)), x))
					}
				}
			}
		}
		for _, n := range []string{"cf.def", "cf.con", "cf.end"} {
			out = append(out, And(Lt(i, Len(R)), Eq(App(md, R, AddC(i, 1)), App(spec.Defs[n], At(R, i)))))
		}
		out = append(out, In(tkAt(R, i), mkSet([]string{",", ")"})))
	}
	if b != nil && head["line"] != nil && hset[head["line"]] {
		switch b.view.Name {
		case "validator":
			la := spec.Defs["lineAt"]
			out = append(out, Eq(head["line"], App(la, head["T"], head["i"])), Eq(head["line"], App(la, head["T"], AddC(head["i"], 1))))
		}
	}
	focus := c.e.candRounds > 1
	if b != nil && b.view.Name == "validator" && !focus {
		out = append(out, c.residualCands(head, hset)...)
	}
	// specification functions keep their value
	defs := c.e.relevant
	if focus {
		defs = nil
		for _, d := range c.e.relevant {
			if spec.isHelper[d] {
				defs = append(defs, d)
			}
		}
	}
	has := map[*Def]bool{}
	for _, d := range defs {
		has[d] = true
	}
	for _, n := range []string{"skip"} {
		if d := spec.Defs[n]; d != nil && !has[d] && b != nil && b.view.Name == "validator" {
			defs = append(defs, d)
		}
	}
	// arguments seen in unfolded roots
	seenArg := map[*Def]map[int]map[*Term]bool{}
	note := func(t *Term) {
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.op != OApp {
				return
			}
			m := seenArg[x.def]
			if m == nil {
				m = map[int]map[*Term]bool{}
				seenArg[x.def] = m
			}
			for k, a := range x.args {
				if m[k] == nil {
					m[k] = map[*Term]bool{}
				}
				if len(m[k]) < 6 {
					m[k][a] = true
				}
			}
		})
	}
	for _, r := range c.e.roots {
		note(r)
		note(c.p.st.f.simp(Unfold(r.def, r.args)))
	}
	for pc := c.p.st.pc; pc != nil; pc = pc.prev {
		for _, a := range apps(pc.t) {
			if has[a.def] && len(a.args) > 0 {
				note(a)
				note(c.p.st.f.simp(Unfold(a.def, a.args)))
			}
		}
	}
	em := map[*Term]*Term{}
	for _, l := range c.locs {
		em[l.head] = l.entry
	}
	var structs []*Term
	done, donePhi := map[int]bool{}, map[*ssa.Phi]bool{}
	for _, l := range c.locs {
		if l.phi == nil && len(l.path) > 0 && !done[l.obj] {
			done[l.obj] = true
			if s, ok := q.st.heap[l.obj].(*StructV); ok && sortOf(s.N) != nil {
				if t := c.e.resTerm(q.st, s, s.N); t != nil {
					structs = append(structs, t)
				}
			}
		}
		if l.phi != nil && len(l.sub) > 0 && !donePhi[l.phi] {
			donePhi[l.phi] = true
			if s, ok := q.env[l.phi].(*StructV); ok && sortOf(s.N) != nil {
				if t := c.e.resTerm(q.st, s, s.N); t != nil {
					structs = append(structs, t)
				}
			}
		}
	}
	var spans []*Term // what has been read since some position
	if D, i := head["D"], head["i"]; D != nil && i != nil {
		from := []*Term{em[i], c.e.entryI}
		for _, x := range ints {
			if x != i {
				from = append(from, x)
			}
		}
		for _, x := range from {
			if x != nil {
				spans = append(spans, App(spec.Defs["span"], D, x, i))
			}
		}
		for _, s := range spans {
			out = append(out, Not(In(U("first", s), mkSet([]string{"\"", "'", "`"}))))
		}
	}
	emOf := map[*Def]*NT{}
	for _, n := range spec.NTs {
		emOf[n.Em] = n
	}
	for _, d := range defs {
		opts := make([][]*Term, len(d.Params))
		for k, prm := range d.Params {
			var o []*Term
			addO := func(t *Term) {
				if t == nil || t.sort != prm.sort {
					return
				}
				for _, x := range o {
					if x == t {
						return
					}
				}
				o = append(o, t)
			}
			switch prm.s {
			case "T", "R", "D", "rd":
				addO(head[prm.s])
			case "i":
				if head["i"] != nil {
					addO(head["i"])
					addO(AddC(head["i"], 1))
				}
				for _, x := range ints {
					if e := em[x]; head["i"] != nil && e != nil && e.op == OInt && e.n != 0 {
						continue // a counter, not a position
					}
					addO(x)
					addO(AddC(x, 1))
				}
			case "d": // a counter
				for _, x := range ints {
					if x != head["i"] {
						addO(x)
						addO(AddC(x, 1))
					}
				}
			case "r":
				addO(head["r"])
				for _, x := range sls {
					addO(x)
				}
			default:
				switch prm.sort {
				case SInt:
					for _, x := range ints {
						addO(x)
						addO(AddC(x, 1))
					}
				case SStr:
					for _, x := range strs {
						addO(x)
					}
					for _, x := range spans {
						addO(x)
					}
				case SBool:
					for _, x := range bools {
						addO(x)
					}
				}
				for _, x := range structs {
					addO(x)
				}
				for _, l := range c.locs {
					if l.head.sort == prm.sort && prm.sort != SInt {
						addO(l.head)
					}
				}
				for _, x := range lists {
					addO(x)
				}
				for _, a := range c.fr.args {
					if t, ok := a.(*Term); ok {
						addO(t)
					}
					if s, ok := a.(*SliceV); ok && s.L != nil {
						addO(s.L)
					}
				}
				var sa []*Term
				for t := range seenArg[d][k] {
					sa = append(sa, t)
				}
				sort.Slice(sa, func(i, j int) bool { return sa[i].id < sa[j].id })
				for _, t := range sa {
					addO(t)
				}
				if prm.sort == SBool {
					addO(True)
					addO(False)
				}
			}
			if len(o) > 8 {
				o = o[:8]
			}
			opts[k] = o
		}
		n := 0
		args := make([]*Term, len(d.Params))
		var rec func(k int)
		rec = func(k int) {
			if n > 96 {
				return
			}
			if k == len(opts) {
				x := App(d, args...)
				uses := false
				walk(x, map[*Term]bool{}, func(t *Term) {
					if hset[t] {
						uses = true
					}
				})
				if !uses {
					return
				}
				n++
				out = append(out, Eq(x, Subst(x, em)))
				if nt := emOf[d]; nt != nil { // tokens passed on, where the nonterminal accepts
					var oa []*Term
					for k, prm := range d.Params {
						for _, op := range nt.Ok.Params {
							if op.s == prm.s && op.sort == prm.sort {
								oa = append(oa, args[k])
							}
						}
					}
					if len(oa) == len(nt.Ok.Params) {
						out = append(out, Implies(App(nt.Ok, oa...), Eq(x, Subst(x, em))))
					}
				}
				if d.Ret == SStr {
					for _, s := range strs {
						y := U("cat", s, x)
						out = append(out, Eq(y, Subst(y, em)))
					}
				}
				return
			}
			for _, o := range opts[k] {
				args[k] = o
				rec(k + 1)
			}
		}
		rec(0)
	}
	return out
}

// selfEns: what the function ensures, of the state at the head of the loop.
func (c *cutState) selfEns(head map[string]*Term) (out []*Term) {
	if c.e.self == nil || c.e.self.ens == nil || c.e.C == nil || c.e.C.fn != c.fr.fn {
		return nil
	}
	defer func() {
		if recover() != nil { // mentions a result
			out = nil
		}
	}()
	for _, k := range c.e.self.ens(head, nil) {
		out = append(out, k.t)
	}
	return out
}

// preCands: the preconditions of the function and of what the loop calls, at
// the head of the loop.
func (c *cutState) preCands(b *Bound, head map[string]*Term, hset map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(k *Contract) {
		if k == nil || k.view != b.view.Name {
			return
		}
		for _, x := range k.pre {
			func() {
				defer func() { recover() }() // mentions a parameter
				t := spec.expr(x, head)
				ys := []*Term{t}
				if t.op == OAnd {
					ys = t.args
				}
				for _, y := range ys {
					uses := false
					walk(y, map[*Term]bool{}, func(z *Term) { uses = uses || hset[z] })
					if uses && !seen[y] {
						seen[y] = true
						out = append(out, y)
					}
				}
			}()
		}
	}
	add(c.e.C)
	fns := map[*ssa.Function]bool{}
	var scan func(in ssa.Instruction, d int)
	scan = func(in ssa.Instruction, d int) {
		cl, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		f := cl.Common().StaticCallee()
		if f == nil || fns[f] || d == 0 {
			return
		}
		fns[f] = true
		if k := c.e.M.contract[f]; k != nil && !k.off {
			add(k)
			return
		}
		for _, bb := range f.Blocks {
			for _, y := range bb.Instrs {
				scan(y, d-1)
			}
		}
	}
	for _, bb := range c.fr.fn.Blocks {
		if c.loop.in[bb] {
			for _, y := range bb.Instrs {
				scan(y, 3)
			}
		}
	}
	return out
}

func dumpInv(xs []string) string { return strings.Join(xs, "\n") }
