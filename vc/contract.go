package main

// Contracts: pre- and postconditions of the functions of /repo, read from
// contracts/*.sx, and their use at call sites.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A View names the fields of an object that contracts talk about.
type Role struct {
	Name  string
	Field string
	Sort  *Sort
	opt   bool
}

type View struct {
	Name  string
	Roles []Role
}

var views map[string]*View

func initViews(sp *Spec) {
	SL, IL := ListOf(SStr), ListOf(SInt)
	views = map[string]*View{
		"validator": {"validator", []Role{{"T", "tokens", SL, false}, {"i", "i", SInt, false}, {"r", "result", SL, false}, {"size", "size", SInt, true}, {"line", "line", SInt, true}}},
		"lexer":     {"lexer", []Role{{"rd", "rdbms", SStr, false}, {"D", "ddlr", IL, false}, {"i", "i", SInt, false}, {"r", "result", SL, false}, {"size", "size", SInt, true}, {"line", "line", SInt, true}}},
		"converter": {"converter", []Role{{"rd", "rdbms", SStr, false}, {"R", "tokens", SL, false}, {"i", "i", SInt, false}, {"result", "result", ListOf(sp.Sorts["Table"]), false}, {"size", "size", SInt, true}}},
	}
}

type Contract struct {
	Name  string // Type.func or package.func
	kind  string // nt, fun
	view  string
	nt    *NT
	args  []*Sx
	pre   []*Sx
	okx   *Sx
	sets  map[string]*Sx
	ptr   map[int]*Sx // post value of what pointer parameter k points to
	ret   []*Sx
	fail  []*Sx
	ens   []*Sx
	ensF  []*Sx
	noinv bool
	strct bool // ok => i' > i
	top   bool
	spare bool
	tags  []string
	fn    *ssa.Function
	sx    *Sx
	defs  []*Def   // specification functions it is about
	uses  []string // lemmas
	off   bool     // demoted: the body is used at call sites
}

func LoadContracts(sp *Spec, dir string) []*Contract {
	files, _ := filepath.Glob(filepath.Join(dir, "*.sx"))
	sort.Strings(files)
	var cs []*Contract
	nullable := sp.nullable()
	for _, f := range files {
		for _, x := range readSx(f) {
			if x.head() != "contract" {
				x.errf("expected a contract")
			}
			c := &Contract{Name: x.list[1].atom, kind: "fun", sets: map[string]*Sx{}, ptr: map[int]*Sx{}, sx: x}
			for _, y := range x.list[2:] {
				a := y.list[1:]
				switch y.head() {
				case "nt":
					c.kind = "nt"
					c.view = "validator"
					c.nt = sp.NTs[a[0].atom]
					if c.nt == nil {
						y.errf("no nonterminal %s", a[0])
					}
					c.args = a[1:]
					c.strct = !nullable[c.nt]
				case "view":
					c.view = a[0].atom
				case "pre":
					c.pre = append(c.pre, a...)
				case "ok":
					c.okx = a[0]
				case "set":
					c.sets[a[0].atom] = a[1]
				case "ptr":
					var k int
					fmt.Sscanf(a[0].atom, "%d", &k)
					c.ptr[k] = a[1]
				case "ret":
					c.ret = a
				case "fail":
					c.fail = a
				case "ens":
					c.ens = append(c.ens, a...)
				case "uses":
					for _, z := range a {
						c.uses = append(c.uses, z.atom)
					}
				case "noinv":
					c.noinv = true
				case "strict":
					c.strct = true
				case "top":
					c.top = true
				case "spare":
					c.spare = true
				case "tags":
					for _, z := range a {
						c.tags = append(c.tags, z.atom)
					}
				default:
					y.errf("unknown clause %s", y)
				}
			}
			if c.spare {
				spares = append(spares, c)
			} else {
				cs = append(cs, c)
			}
		}
	}
	return cs
}

// contracts for functions the code may come to have
var spares []*Contract

// nullable: nonterminals that may succeed without consuming a token.
func (sp *Spec) nullable() map[*NT]bool {
	null := map[*NT]bool{}
	var seq func(xs []*Sx) bool
	var st func(x *Sx) bool
	seq = func(xs []*Sx) bool {
		for _, x := range xs {
			if !st(x) {
				return false
			}
		}
		return true
	}
	st = func(x *Sx) bool {
		a := x.list[1:]
		switch x.head() {
		case "tok", "take", "any", "fail":
			return false
		case "opt", "optdo", "emit":
			return true
		case "if":
			if seq(a[1].list) {
				return true
			}
			return len(a) < 3 || seq(a[2].list)
		case "case":
			for _, c := range a {
				if seq(c.list[1:]) {
					return true
				}
			}
			return false
		case "do":
			return seq(a)
		case "let":
			return seq(a[1:])
		}
		return null[sp.NTs[x.head()]]
	}
	for ch := true; ch; {
		ch = false
		for _, n := range sp.NTs {
			if !null[n] && seq(n.Stmts) {
				null[n] = true
				ch = true
			}
		}
	}
	return null
}

var finSx = parseSx("(fin R)")

func fnKey(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.Name()
}

// ---- views ----

type cell struct {
	path []int
	name string
	typ  types.Type
	st   *types.Struct // the struct it is a field of
}

func flatten(t types.Type, path []int, out *[]cell) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok || sortOf(t) != nil && !hasName(t, "validator") && !isObjType(t) {
		*out = append(*out, cell{append([]int{}, path...), "", t, nil})
		return
	}
	for k := 0; k < u.NumFields(); k++ {
		f := u.Field(k)
		p := append(append([]int{}, path...), k)
		if _, ok := f.Type().Underlying().(*types.Struct); ok && (f.Embedded() || isObjType(f.Type())) {
			flatten(f.Type(), p, out)
			continue
		}
		*out = append(*out, cell{p, f.Name(), f.Type(), u})
	}
}

func hasName(t types.Type, n string) bool {
	x, ok := types.Unalias(t).(*types.Named)
	return ok && x.Obj().Name() == n
}

func isObjType(t types.Type) bool {
	x, ok := types.Unalias(t).(*types.Named)
	return ok && x.Obj().Pkg() != nil && strings.Contains(x.Obj().Pkg().Path(), "/") && !strings.HasSuffix(x.Obj().Pkg().Path(), "internal/types")
}

type Bound struct {
	view  *View
	ptr   *PtrV
	role  map[string]cell
	extra []cell
}

// bind resolves a view on the struct a pointer points to.
func bindView(v *View, t types.Type) (*Bound, error) {
	var cells []cell
	flatten(t, nil, &cells)
	b := &Bound{view: v, role: map[string]cell{}}
	used := map[int]bool{}
	take := func(r Role, k int) {
		used[k] = true
		b.role[r.Name] = cells[k]
	}
	each := func(f func(r Role) int) {
		for _, r := range v.Roles {
			if _, ok := b.role[r.Name]; !ok {
				if k := f(r); k >= 0 {
					take(r, k)
				}
			}
		}
	}
	each(func(r Role) int { // by name
		hit := -1
		for k, c := range cells {
			if c.name == r.Field && sortOf(c.typ) == r.Sort && !used[k] {
				hit = k
			}
		}
		return hit
	})
	each(func(r Role) int { return inferRole(r, cells, used) })
	each(func(r Role) int { // by type, if unique
		hit := -1
		for k, c := range cells {
			if !r.opt && sortOf(c.typ) == r.Sort && !used[k] {
				if hit >= 0 {
					return -1
				}
				hit = k
			}
		}
		return hit
	})
	for _, r := range v.Roles {
		if _, ok := b.role[r.Name]; !ok && !r.opt {
			return nil, fmt.Errorf("%s has no field for %s", t, r.Field)
		}
	}
	for k, c := range cells {
		if !used[k] {
			b.extra = append(b.extra, c)
		}
	}
	return b, nil
}

func (b *Bound) at(c cell) *PtrV {
	return &PtrV{obj: b.ptr.obj, path: append(append([]int{}, b.ptr.path...), c.path...)}
}

func (b *Bound) get(st *State, role string) *Term {
	c, ok := b.role[role]
	if !ok {
		return nil
	}
	return st.toTerm(st.load(b.at(c)), c.typ)
}

func (b *Bound) env(st *State) map[string]*Term {
	m := map[string]*Term{}
	for r := range b.role {
		m[r] = b.get(st, r)
	}
	return m
}

func (b *Bound) put(st *State, role string, t *Term) {
	c, ok := b.role[role]
	if !ok {
		return
	}
	if t.sort.Kind == KList {
		st.store(b.at(c), &SliceV{L: t, own: freshOwn(), nonnil: Fresh("nn", SBool)})
		return
	}
	st.store(b.at(c), t)
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// list role of a view: what i indexes
func (v *View) list() string {
	switch v.Name {
	case "validator":
		return "T"
	case "lexer":
		return "D"
	}
	return "R"
}

// inv: the invariant of an object under a view, as (label, condition).
func viewInv(v *View, m map[string]*Term) []clause {
	l := m[v.list()]
	i := m["i"]
	n := Len(l)
	cs := []clause{{"inv", Ge(i, Int(0))}, {"inv", Le(i, n)}}
	if s := m["size"]; s != nil {
		cs = append(cs, clause{"inv", Eq(s, n)})
	}
	switch v.Name {
	case "validator":
		cs = append(cs, clause{"inv", Implies(Lt(i, n), Not(Eq(At(l, i), Str("\n"))))})
		if s := m["line"]; s != nil {
			cs = append(cs, clause{"line", Eq(s, App(spec.Defs["lineAt"], l, i))})
		}
	case "lexer":
		if s := m["line"]; s != nil {
			cs = append(cs, clause{"line", Eq(s, AddC(App(spec.Defs["nl"], l, i), 1))})
		}
	}
	return cs
}

func viewLine(v *View, m map[string]*Term, i *Term) *Term {
	switch v.Name {
	case "validator":
		return App(spec.Defs["lineAt"], m["T"], i)
	case "lexer":
		return AddC(App(spec.Defs["nl"], m["D"], i), 1)
	}
	return nil
}

type clause struct {
	label string
	t     *Term
}

// ---- instances ----

// Inst is a contract for given entry values.
type Inst struct {
	pre  []clause
	ok   *Term
	sets map[string]*Term // on success (roles)
	fset map[string]*Term // on failure; nil: unknown
	ptr  map[int]*Term
	ret  []*Term // nil entry: unspecified
	fail []*Term
	ens  func(post map[string]*Term, ret []*Term) []clause
	env  map[string]*Term
}

func (c *Contract) instance(m map[string]*Term) *Inst {
	sp := spec
	in := &Inst{ok: True, sets: map[string]*Term{}, ptr: map[int]*Term{}, env: m}
	v := views[c.view]
	ex := func(x *Sx) *Term {
		if !x.isl && x.atom == "_" {
			return nil
		}
		return sp.expr(x, m)
	}
	if v != nil {
		if !c.noinv {
			in.pre = append(in.pre, viewInv(v, m)...)
		} else {
			in.pre = append(in.pre, clause{"inv", Ge(m["i"], Int(0))}, clause{"inv", Le(m["i"], Len(m[v.list()]))})
			if s := m["size"]; s != nil {
				in.pre = append(in.pre, clause{"inv", Eq(s, Len(m[v.list()]))})
			}
		}
		if v.Name != "lexer" {
			in.pre = append(in.pre, clause{"good", U("allgood", m[v.list()])})
		}
		if v.Name == "converter" {
			in.pre = append(in.pre, clause{"flow", sp.expr(finSx, m)})
		}
	}
	for _, x := range c.pre {
		if strings.Contains(x.String(), "line") && m["line"] == nil {
			continue
		}
		in.pre = append(in.pre, clause{"pre", ex(x)})
	}
	if c.kind == "nt" {
		var args []*Term
		for _, x := range c.args {
			args = append(args, ex(x))
		}
		oa := append([]*Term{m["T"], m["i"]}, c.nt.okArgs(args)...)
		in.ok = App(c.nt.Ok, oa...)
		end := App(c.nt.End, oa...)
		in.sets["i"] = end
		in.sets["r"] = App(c.nt.Em, append(append([]*Term{m["T"], m["i"]}, args...), m["r"])...)
		in.fset = map[string]*Term{"i": end}
		in.ret = []*Term{Mk(sp.Ctors["enil"])}
		in.fail = []*Term{App(sp.Defs["errAt"], m["T"], end)}
		return in
	}
	if c.okx != nil {
		in.ok = ex(c.okx)
	}
	for r, x := range c.sets {
		in.sets[r] = ex(x)
	}
	for k, x := range c.ptr {
		in.ptr[k] = ex(x)
	}
	for _, x := range c.ret {
		in.ret = append(in.ret, ex(x))
	}
	for _, x := range c.fail {
		in.fail = append(in.fail, ex(x))
	}
	in.ens = func(post map[string]*Term, ret []*Term) []clause {
		e := map[string]*Term{}
		for k, t := range m {
			e[k] = t
		}
		for k, t := range post {
			e[k+"'"] = t
		}
		for k, t := range ret {
			e[fmt.Sprintf("$ret%d", k)] = t
		}
		var cs []clause
		for _, x := range c.ens {
			cs = append(cs, clause{"ens", sp.expr(x, e)})
		}
		return cs
	}
	return in
}

// roots: applications of the contract at the entry values
func (in *Inst) roots() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		walk(t, map[*Term]bool{}, func(x *Term) {
			if x.op == OApp && !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		})
	}
	add(in.ok)
	for _, k := range sortedKeys(in.sets) {
		add(in.sets[k])
	}
	for _, t := range in.ptr {
		add(t)
	}
	for _, t := range in.ret {
		add(t)
	}
	for _, t := range in.fail {
		add(t)
	}
	return r
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkSig compares a function's signature with its contract.
func (c *Contract) checkSig(fn *ssa.Function) error {
	sig := fn.Signature
	if c.view != "" {
		if sig.Recv() == nil {
			return fmt.Errorf("no receiver")
		}
		e := ptrElem(sig.Recv().Type())
		if e == nil {
			return fmt.Errorf("receiver is not a pointer")
		}
		if _, err := bindView(views[c.view], e); err != nil {
			return err
		}
	}
	m := map[string]*Term{}
	if c.view != "" {
		for _, r := range views[c.view].Roles {
			m[r.Name] = Var("sig."+r.Name, r.Sort)
		}
	}
	if r := sig.Recv(); r != nil && ptrElem(r.Type()) == nil {
		if s := sortOf(r.Type()); s != nil {
			m["$self"] = Var("sig.self", s)
		}
	}
	for k := 0; k < sig.Params().Len(); k++ {
		t := sig.Params().At(k).Type()
		if e := ptrElem(t); e != nil {
			t = e
		}
		s := sortOf(t)
		if s == nil {
			return fmt.Errorf("parameter %d has type %s", k, t)
		}
		m[fmt.Sprintf("$%d", k)] = Var(fmt.Sprintf("sig.p%d", k), s)
	}
	if sig.Variadic() {
		return fmt.Errorf("variadic")
	}
	var in *Inst
	err := func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("%v", e)
			}
		}()
		in = c.instance(m)
		return nil
	}()
	if err != nil {
		return err
	}
	c.defs = nil
	for _, t := range in.roots() {
		c.defs = append(c.defs, t.def)
	}
	if len(in.ret) != sig.Results().Len() {
		return fmt.Errorf("%d results", sig.Results().Len())
	}
	for k, r := range in.ret {
		if s := sortOf(sig.Results().At(k).Type()); s == nil || r != nil && s != r.sort {
			return fmt.Errorf("result %d has type %s", k, sig.Results().At(k).Type())
		}
	}
	for k := range in.ptr {
		if k >= sig.Params().Len() || ptrElem(sig.Params().At(k).Type()) == nil {
			return fmt.Errorf("parameter %d is not a pointer", k)
		}
	}
	for k := 0; k < sig.Params().Len(); k++ {
		if ptrElem(sig.Params().At(k).Type()) != nil && in.ptr[k] == nil {
			return fmt.Errorf("parameter %d is a pointer", k)
		}
	}
	return nil
}

// applyContract: the outcomes of a call according to the callee's contract.
func (e *Exec) applyContract(fr *Frame, p *Path, c *Contract, fn *ssa.Function, args []Value, pos token.Pos) []Group {
	st := p.st
	sig := fn.Signature
	m := map[string]*Term{}
	var b *Bound
	off := 0
	if sig.Recv() != nil {
		off = 1
		if ptrElem(sig.Recv().Type()) == nil && sortOf(sig.Recv().Type()) != nil {
			m["$self"] = st.toTerm(args[0], sig.Recv().Type())
		}
	}
	if c.view != "" {
		q, ok := args[0].(*PtrV)
		if !ok || q.obj == 0 || q.slice != nil {
			unsupf("receiver of %s", fn)
		}
		var err error
		b, err = bindView(views[c.view], ptrElem(sig.Recv().Type()))
		if err != nil {
			unsupf("%v", err)
		}
		b.ptr = q
		m = b.env(st)
	}
	for k := 0; k < sig.Params().Len(); k++ {
		t := sig.Params().At(k).Type()
		a := args[off+k]
		if el := ptrElem(t); el != nil {
			q, ok := a.(*PtrV)
			if !ok || q.obj == 0 || q.slice != nil {
				unsupf("pointer argument of %s", fn)
			}
			m[fmt.Sprintf("$%d", k)] = st.toTerm(st.load(q), el)
			continue
		}
		m[fmt.Sprintf("$%d", k)] = st.toTerm(a, t)
		if s, ok := a.(*SliceV); ok && s.own != 0 && (c.view != "" || len(c.ptr) > 0 || returnsList(sig)) {
			e.consume(st, s)
		}
	}
	in := c.instance(m)
	if m["R"] != nil && m["R"] == e.ghostL {
		st.touch(m["i"])
	}
	for _, q := range in.pre {
		o := e.oblige(st, "pre", c.Name+" "+q.label, pos, q.t)
		_ = o
	}
	for _, q := range in.pre {
		if !st.assume(q.t) {
			return nil
		}
	}
	e.noteEdge(fr, st, c, m["i"], pos)
	if b != nil {
		if r, ok := b.role["r"]; ok && (in.sets["r"] != nil || in.ok != True && in.fset == nil) {
			if s, ok := st.load(b.at(r)).(*SliceV); ok {
				e.consume(st, s)
			}
		}
		if r, ok := b.role["result"]; ok && in.sets["result"] != nil {
			if s, ok := st.load(b.at(r)).(*SliceV); ok {
				e.consume(st, s)
			}
		}
	}
	var out []Group
	ok := st.f.simp(in.ok)
	var fst *State
	if ok != True {
		fst = st.fork()
	}
	if ok != False {
		s := st
		if s.assume(in.ok) && e.outcome(c, b, in, s, args, off, sig, true) {
			res := e.results(in, in.ret, sig)
			var rts []*Term
			for k, r := range res {
				rts = append(rts, e.resTerm(s, r, sig.Results().At(k).Type()))
			}
			if in.ens != nil && len(c.ens) > 0 {
				post := map[string]*Term{}
				if b != nil {
					post = b.env(s)
				}
				for _, q := range in.ens(post, rts) {
					s.assume(q.t)
				}
			}
			out = append(out, Group{in.ok, s, res})
		}
	}
	if ok != True {
		if fst.assume(Not(in.ok)) && e.outcome(c, b, in, fst, args, off, sig, false) {
			out = append(out, Group{Not(in.ok), fst, e.results(in, in.fail, sig)})
		}
	}
	return out
}

func (e *Exec) resTerm(st *State, v Value, t types.Type) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsup); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	return st.toTerm(v, t)
}

func returnsList(sig *types.Signature) bool {
	for k := 0; k < sig.Results().Len(); k++ {
		if _, ok := sig.Results().At(k).Type().Underlying().(*types.Basic); !ok && !isErrorType(sig.Results().At(k).Type()) {
			return true
		}
	}
	return false
}

func (e *Exec) consume(st *State, s *SliceV) {
	if s.own == 0 {
		return
	}
	if s.own < 0 {
		return // cannot be appended to by us either; the callee is checked on its own
	}
	if st.consumed[s.own] {
		unsupf("slice passed on after its spare capacity may be in use")
	}
	st.consumed[s.own] = true
}

func (e *Exec) results(in *Inst, ts []*Term, sig *types.Signature) []Value {
	var r []Value
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		if k >= len(ts) || ts[k] == nil {
			r = append(r, symbolic("res", t))
			continue
		}
		v := fromTerm(ts[k], t)
		if s, ok := v.(*SliceV); ok {
			s.own = freshOwn()
		}
		r = append(r, v)
	}
	return r
}

// outcome updates the state after a call.
func (e *Exec) outcome(c *Contract, b *Bound, in *Inst, st *State, args []Value, off int, sig *types.Signature, ok bool) bool {
	if b != nil {
		v := b.view
		for _, x := range b.extra {
			if !e.M.mayWrite(c.fn, x) {
				continue
			}
			st.store(b.at(x), symbolic("x", x.typ))
		}
		sets := in.sets
		if !ok {
			sets = in.fset
		}
		if ok || in.fset != nil {
			i := sets["i"]
			if i == nil {
				i = in.env["i"]
			} else {
				b.put(st, "i", i)
				if in.env["R"] != nil && in.env["R"] == e.ghostL {
					st.touch(i)
				}
			}
			if in.env["line"] != nil {
				if l := sets["line"]; l != nil {
					b.put(st, "line", l)
				} else if v.Name != "converter" {
					b.put(st, "line", viewLine(v, in.env, i))
				}
			}
			for _, r := range []string{"r", "result"} {
				if _, has := b.role[r]; !has {
					continue
				}
				if t := sets[r]; t != nil {
					b.put(st, r, t)
				} else if !ok {
					b.put(st, r, Fresh("r", in.env[r].sort))
				} else if in.sets[r] == nil {
					// unchanged
				}
			}
			if sets["i"] != nil {
				n := Len(in.env[v.list()])
				fs := []*Term{Ge(i, in.env["i"]), Le(i, n)}
				if v.Name == "validator" {
					fs = append(fs, Implies(Lt(i, n), Not(Eq(At(in.env["T"], i), Str("\n")))))
				}
				if ok && c.strct {
					fs = append(fs, Gt(i, in.env["i"]))
				}
				for _, f := range fs {
					if !st.assume(f) {
						return false
					}
				}
			}
		} else {
			for _, r := range v.Roles {
				if r.Name == "T" || r.Name == "D" || r.Name == "R" || r.Name == "rd" || r.Name == "size" {
					continue
				}
				if cl, has := b.role[r.Name]; has {
					st.store(b.at(cl), symbolic("f", cl.typ))
				}
			}
		}
	}
	for k := 0; k < sig.Params().Len(); k++ {
		el := ptrElem(sig.Params().At(k).Type())
		if el == nil {
			continue
		}
		q := args[off+k].(*PtrV)
		if t := in.ptr[k]; t != nil && ok {
			st.store(q, own(fromTerm(t, el)))
		} else {
			st.store(q, symbolic("p", el))
		}
	}
	return true
}

// own gives the slices in a value fresh identities (nothing else refers to them).
func own(v Value) Value {
	switch x := v.(type) {
	case *SliceV:
		return &SliceV{L: x.L, own: freshOwn(), nonnil: x.nonnil}
	case *StructV:
		c := &StructV{T: x.T, N: x.N}
		for _, f := range x.F {
			c.F = append(c.F, own(f))
		}
		return c
	}
	return v
}

// noteEdge records a call for the termination argument.
func (e *Exec) noteEdge(fr *Frame, st *State, c *Contract, i *Term, pos token.Pos) {
	if e.mute > 0 || e.C == nil {
		return
	}
	if e.C.view != c.view || e.entryI == nil || i == nil {
		e.edges = append(e.edges, callEdge{from: e.C, to: c, ob: &Ob{Fn: e.fnName, Kind: "term", Label: "calls " + c.Name, Pos: e.M.pos(pos), Goal: False, How: "no measure"}})
		return
	}
	o2 := &Ob{Fn: e.fnName, Kind: "term", Label: "calls " + c.Name, Pos: e.M.pos(pos), Goal: Ge(i, e.entryI), Hyps: st.hyps(), Roots: e.aux, Lem: e.lem}
	o := &Ob{Fn: e.fnName, Kind: "term", Label: "calls " + c.Name, Pos: e.M.pos(pos), Goal: Gt(i, e.entryI), Hyps: st.hyps(), Roots: e.aux, Lem: e.lem}
	e.edges = append(e.edges, callEdge{e.C, c, o, o2})
}

// ---- verifying a function against its contract ----

type FnRun struct {
	C      *Contract
	Fn     *ssa.Function
	Obs    []*Ob
	Edges  []callEdge
	Inl    []*ssa.Function
	Steps  int
	Err    string
	Leaves int
	LoopI  []string
	Cuts   int
	helped bool
	Entry  []*Term
	Calls  []*Contract
}

func (m *Module) exec(c *Contract, fn *ssa.Function, candRounds int) (r *FnRun) {
	r = &FnRun{C: c, Fn: fn}
	e := &Exec{M: m, C: c, fnName: c.Name, inlined: map[*ssa.Function]bool{}, candRounds: candRounds}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unsup)
			if s, is := x.(spent); is {
				u, ok = unsup{s.msg}, true
				e.obs, e.edges = nil, nil
			}
			if !ok {
				panic(x)
			}
			r.Err = u.msg
			e.obs = append(e.obs, &Ob{Fn: c.Name, Kind: "support", Label: u.msg, Pos: m.pos(fn.Pos()), Goal: False})
		}
		r.Obs, r.Edges, r.Steps, r.Inl = e.obs, e.edges, e.steps, sortedFns(e.inlined)
		r.LoopI, r.Cuts = e.loopInv, e.cutN
	}()
	st := &State{ex: e, heap: map[int]Value{}, f: newFacts(), consumed: map[int]bool{}}
	sig := fn.Signature
	var args []Value
	env := map[string]*Term{}
	var b *Bound
	if sig.Recv() != nil {
		el := ptrElem(sig.Recv().Type())
		if el == nil {
			v := symbolic("self", sig.Recv().Type())
			args = append(args, v)
			if sortOf(sig.Recv().Type()) != nil {
				env["$self"] = st.toTerm(v, sig.Recv().Type())
			}
		} else {
			o := freshOwn()
			v := symbolic("self", el)
			st.heap[o] = v
			q := &PtrV{obj: o}
			args = append(args, q)
			if c.view != "" {
				var err error
				b, err = bindView(views[c.view], el)
				if err != nil {
					unsupf("%v", err)
				}
				b.ptr = q
				for _, rl := range []string{"T", "D", "R"} {
					if cl, ok := b.role[rl]; ok {
						s := st.load(b.at(cl)).(*SliceV)
						st.store(b.at(cl), &SliceV{L: s.L, own: -1, nonnil: s.nonnil})
					}
				}
				if cl, ok := b.role["size"]; ok { // invariant: the length of the list
					st.store(b.at(cl), Len(b.get(st, b.view.list())))
				}
				env = b.env(st)
			}
		}
	}
	type pp struct {
		k  int
		q  *PtrV
		el types.Type
	}
	var ptrs []pp
	for k := 0; k < sig.Params().Len(); k++ {
		t := sig.Params().At(k).Type()
		nm := fmt.Sprintf("a%d", k)
		if el := ptrElem(t); el != nil {
			o := freshOwn()
			st.heap[o] = symbolic(nm, el)
			q := &PtrV{obj: o}
			args = append(args, q)
			ptrs = append(ptrs, pp{k, q, el})
			env[fmt.Sprintf("$%d", k)] = st.toTerm(st.heap[o], el)
			continue
		}
		v := symbolic(nm, t)
		args = append(args, v)
		env[fmt.Sprintf("$%d", k)] = st.toTerm(v, t)
	}
	in := c.instance(env)
	for _, q := range in.pre {
		if q.label == "line" && q.t.op == OEq { // define the line counter by its invariant
			if s := env["line"]; s != nil {
				_ = s
			}
		}
		st.assume(q.t)
	}
	e.lem = lemSet(c.uses)
	if b != nil && b.view.Name == "converter" {
		e.ghost, e.ghostL = lemmaByName["mdStep"][0], env["R"]
		st.touch(env["i"])
	}
	if b != nil {
		e.entryI = env["i"]
		e.lenT = Len(env[b.view.list()])
	}
	r.Entry = st.hyps()
	e.roots = in.roots()
	e.self = in
	e.relevant, r.helped = m.relevantDefs(c, e.roots)
	fr := &Frame{fn: fn, args: args}
	entry := st.fork()
	_ = entry
	tree := e.guard(fr, st, func() *Tree { return e.runFn(fr, st) })
	tree.leaves(func(l *Leaf) {
		r.Leaves++
		if l.kind != LRet {
			e.oblige(l.p.st, "support", "loop structure", fn.Pos(), False)
			return
		}
		e.exit(c, b, in, l, sig, func(f func(k int, q *PtrV, el types.Type)) {
			for _, x := range ptrs {
				f(x.k, x.q, x.el)
			}
		}, fn.Pos())
	})
	return r
}

// guard turns an unsupported construct into an obligation that the path is impossible.
func (e *Exec) guard(fr *Frame, st *State, f func() *Tree) (t *Tree) {
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unsup)
			if !ok {
				panic(x)
			}
			e.oblige(st, "support", u.msg, fr.fn.Pos(), False)
			t = deadTree
		}
	}()
	return f()
}

func (e *Exec) exit(c *Contract, b *Bound, in *Inst, l *Leaf, sig *types.Signature, ptrs func(func(int, *PtrV, types.Type)), pos token.Pos) {
	st := l.p.st
	var cs []clause
	ok := in.ok
	onOk := func(t *Term) *Term { return Implies(ok, t) }
	var rts []*Term
	defer func() {
		if x := recover(); x != nil {
			u, is := x.(unsup)
			if !is {
				panic(x)
			}
			e.oblige(st, "support", u.msg, pos, False)
		}
	}()
	for k := 0; k < sig.Results().Len(); k++ {
		rts = append(rts, st.toTerm(l.res[k], sig.Results().At(k).Type()))
	}
	enil := Mk(spec.Ctors["enil"])
	for k, want := range in.ret {
		got := rts[k]
		if want == nil {
			continue
		}
		if want == enil && ok != True {
			cs = append(cs, clause{"acc", Eq(Eq(got, enil), ok)})
		} else {
			cs = append(cs, clause{fmt.Sprintf("ret%d", k), onOk(Eq(got, want))})
		}
	}
	if ok != True {
		for k, want := range in.fail {
			if want != nil {
				cs = append(cs, clause{"loc", Or(ok, Eq(rts[k], want))})
			}
		}
	}
	if b != nil {
		post := b.env(st)
		v := b.view
		if v.Name == "converter" {
			st.touch(post["i"])
		}
		for _, rl := range []string{"T", "D", "R", "rd"} {
			if in.env[rl] != nil {
				cs = append(cs, clause{"frame", Eq(post[rl], in.env[rl])})
			}
		}
		if in.env["size"] != nil {
			cs = append(cs, clause{"frame", Eq(post["size"], Len(in.env[v.list()]))})
		}
		n := Len(in.env[v.list()])
		i1 := post["i"]
		want := in.sets["i"]
		if want == nil {
			want = in.env["i"]
		}
		cs = append(cs, clause{"pos", onOk(Eq(i1, want))})
		if in.fset != nil && ok != True {
			cs = append(cs, clause{"loc", Or(ok, Eq(i1, in.fset["i"]))})
		}
		if in.sets["i"] != nil {
			f := And(Ge(i1, in.env["i"]), Le(i1, n))
			if v.Name == "validator" {
				f = And(f, Implies(Lt(i1, n), Not(Eq(At(in.env["T"], i1), Str("\n")))))
			}
			if in.fset != nil {
				cs = append(cs, clause{"inv", f})
			} else {
				cs = append(cs, clause{"inv", onOk(f)})
			}
			if c.strct {
				cs = append(cs, clause{"progress", onOk(Gt(i1, in.env["i"]))})
			}
		}
		if in.env["line"] != nil {
			var w *Term
			if t := in.sets["line"]; t != nil {
				w = t
			} else {
				w = viewLine(v, in.env, i1)
			}
			if w != nil {
				if in.fset != nil {
					cs = append(cs, clause{"line", Eq(post["line"], w)})
				} else {
					cs = append(cs, clause{"line", onOk(Eq(post["line"], w))})
				}
			}
		}
		for _, r := range []string{"r", "result"} {
			if in.env[r] == nil {
				continue
			}
			w := in.sets[r]
			if w == nil {
				w = in.env[r]
			}
			cs = append(cs, clause{"emit", onOk(Eq(post[r], w))})
			// the new list must be usable by the caller
			if cl := b.role[r]; true {
				if s, is := st.load(b.at(cl)).(*SliceV); is && s.own > 0 && st.consumed[s.own] {
					cs = append(cs, clause{"emit", onOk(False)})
				}
			}
		}
		for _, q := range in.ensOf(post, rts) {
			cs = append(cs, clause{q.label, onOk(q.t)})
		}
	} else {
		for _, q := range in.ensOf(nil, rts) {
			cs = append(cs, clause{q.label, onOk(q.t)})
		}
	}
	ptrs(func(k int, q *PtrV, el types.Type) {
		if w := in.ptr[k]; w != nil {
			cs = append(cs, clause{fmt.Sprintf("ptr%d", k), onOk(Eq(st.toTerm(st.load(q), el), w))})
		}
	})
	for _, q := range cs {
		e.oblige(st, "post", q.label, pos, q.t, e.roots...)
	}
}

func (in *Inst) ensOf(post map[string]*Term, ret []*Term) []clause {
	if in.ens == nil {
		return nil
	}
	return in.ens(post, ret)
}

// relevantDefs: recursive definitions a contract depends on (and its own).
func (m *Module) relevantDefs(c *Contract, roots []*Term) (out []*Def, helped bool) {
	seen := map[*Def]bool{}
	var visit func(d *Def, root bool)
	covered := map[*Def]bool{}
	for _, o := range m.cs {
		if o != c && o.fn != nil && !o.off {
			for _, d := range o.defs {
				covered[d] = true
			}
		}
	}
	visit = func(d *Def, root bool) {
		if seen[d] {
			return
		}
		seen[d] = true
		if d.Rec && !(covered[d] && !root) || root {
			out = append(out, d)
		}
		if (m.prover.opaque[d] || covered[d]) && !root {
			return
		}
		for _, x := range d.calls() {
			visit(x, false)
		}
	}
	for _, r := range roots {
		visit(r.def, true)
	}
	for _, d := range append([]*Def{}, out...) {
		for _, h := range spec.Helpers[d] {
			if !seen[h] {
				seen[h] = true
				out = append(out, h)
				helped = true
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].idx < out[j].idx })
	return out, helped
}
