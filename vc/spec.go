package main

// Loader for the specification files (spec/*.sx): algebraic data types,
// recursive functions, and grammars that are compiled to recursive functions.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type NT struct {
	Name   string
	Params []*Term // extra parameters (set, ls, ...)
	Stmts  []*Sx
	Ok     *Def // ok(T,i,params without set)
	End    *Def // end(T,i,params without set): end, or position of the error
	Em     *Def // em(T,i,params,r): tokens passed on
	sx     *Sx
}

func (n *NT) okArgs(args []*Term) []*Term {
	var r []*Term
	for i, p := range n.Params {
		if p.s != "set" {
			r = append(r, args[i])
		}
	}
	return r
}

type Spec struct {
	Helpers  map[*Def][]*Def
	isHelper map[*Def]bool
	Sorts map[string]*Sort
	Ctors map[string]*Ctor
	Defs  map[string]*Def
	NTs   map[string]*NT
	Sets  map[string][]string
	Forms []*Sx // forms left for other readers (contracts, properties)
	defs  []*Def
}

var spec *Spec

func LoadSpec(dir string) *Spec {
	sp := &Spec{Sorts: map[string]*Sort{}, Ctors: map[string]*Ctor{}, Defs: map[string]*Def{}, NTs: map[string]*NT{}, Sets: map[string][]string{}}
	spec = sp
	for _, s := range []*Sort{SInt, SBool, SStr, SFloat} {
		sp.Sorts[s.Name] = s
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.sx"))
	sort.Strings(files)
	var forms []*Sx
	for _, f := range files {
		forms = append(forms, readSx(f)...)
	}
	// pass 1: sorts, sets
	for _, f := range forms {
		switch f.head() {
		case "adt":
			n := f.list[1].atom
			sp.Sorts[n] = &Sort{Kind: KAdt, Name: n}
		case "words":
			var ws []string
			for _, x := range f.list[2:] {
				ws = append(ws, x.atom)
			}
			sp.Sets[f.list[1].atom] = ws
		}
	}
	for _, f := range forms {
		if f.head() == "adt" {
			s := sp.Sorts[f.list[1].atom]
			for k, c := range f.list[2:] {
				ct := &Ctor{Name: c.list[0].atom, Sort: s, Idx: k}
				for _, fl := range c.list[1:] {
					ct.Fields = append(ct.Fields, CField{fl.list[0].atom, sp.sort(fl.list[1])})
				}
				s.Ctors = append(s.Ctors, ct)
				sp.Ctors[ct.Name] = ct
			}
		}
	}
	// pass 2: signatures
	type pend struct {
		d *Def
		f *Sx
	}
	var ps []pend
	var helpers []*Sx
	SL := ListOf(SStr)
	for _, f := range forms {
		switch f.head() {
		case "def", "macro":
			d := &Def{Name: f.list[1].atom, Ret: sp.sort(f.list[3]), Macro: f.head() == "macro"}
			for _, p := range f.list[2].list {
				d.Params = append(d.Params, Var(p.list[0].atom, sp.sort(p.list[1])))
			}
			sp.add(d, f)
			ps = append(ps, pend{d, f})
		case "nt":
			n := &NT{Name: f.list[1].atom, Stmts: f.list[3:], sx: f}
			T, i, r := Var("T", SL), Var("i", SInt), Var("r", SL)
			base := []*Term{T, i}
			for _, p := range f.list[2].list {
				n.Params = append(n.Params, Var(p.list[0].atom, sp.sort(p.list[1])))
			}
			op := append(append([]*Term{}, base...), n.okArgs(n.Params)...)
			n.Ok = &Def{Name: "ok:" + n.Name, Params: op, Ret: SBool}
			n.End = &Def{Name: "end:" + n.Name, Params: op, Ret: SInt}
			n.Em = &Def{Name: "em:" + n.Name, Params: append(append(append([]*Term{}, base...), n.Params...), r), Ret: SL}
			sp.add(n.Ok, f)
			sp.add(n.End, f)
			sp.add(n.Em, f)
			sp.NTs[n.Name] = n
		case "adt", "words":
		case "helper": // (helper NAME FOR...): of use in loops that compute FOR
			helpers = append(helpers, f)
		default:
			sp.Forms = append(sp.Forms, f)
		}
	}
	// pass 3: bodies. Macros are expanded on application, so in file order.
	for _, p := range ps {
		env := map[string]*Term{}
		for _, v := range p.d.Params {
			env[v.s] = v
		}
		p.d.Body = sp.expr(p.f.list[4], env)
		if p.d.Body.sort != p.d.Ret {
			p.f.errf("%s: body has sort %s", p.d.Name, p.d.Body.sort.Name)
		}
	}
	var nts []string
	for n := range sp.NTs {
		nts = append(nts, n)
	}
	sort.Strings(nts)
	for _, n := range nts {
		sp.compileNT(sp.NTs[n])
	}
	sp.Helpers = map[*Def][]*Def{}
	sp.isHelper = map[*Def]bool{}
	for _, f := range helpers {
		var hs []*Def
		if n := sp.NTs[f.list[1].atom]; n != nil {
			hs = []*Def{n.Ok, n.End, n.Em}
		} else {
			hs = []*Def{sp.Defs[f.list[1].atom]}
		}
		for _, h := range hs {
			sp.isHelper[h] = true
		}
		for _, x := range f.list[2:] {
			d := sp.Defs[x.atom]
			if n := sp.NTs[x.atom]; n != nil {
				d = n.Ok
			}
			sp.Helpers[d] = append(sp.Helpers[d], hs...)
		}
	}
	for _, d := range sp.defs {
		d.compile()
	}
	sp.markRec()
	sp.loadLemmas()
	return sp
}

// calls: definitions a definition's body applies
func (d *Def) calls() []*Def {
	seen := map[*Def]bool{}
	var r []*Def
	b := d.Body
	if d.PBody != nil {
		b = d.PBody
	}
	walk(b, map[*Term]bool{}, func(t *Term) {
		if t.op == OApp && !seen[t.def] {
			seen[t.def] = true
			r = append(r, t.def)
		}
	})
	sort.Slice(r, func(i, j int) bool { return r[i].idx < r[j].idx })
	return r
}

// markRec finds the definitions that reach themselves.
func (sp *Spec) markRec() {
	succ := map[*Def][]*Def{}
	for _, d := range sp.defs {
		if !d.Macro {
			succ[d] = d.calls()
		}
	}
	for _, d := range sp.defs {
		seen := map[*Def]bool{}
		var dfs func(x *Def) bool
		dfs = func(x *Def) bool {
			for _, y := range succ[x] {
				if y == d {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						return true
					}
				}
			}
			return false
		}
		d.Rec = !d.Macro && dfs(d)
	}
}

func (sp *Spec) add(d *Def, f *Sx) {
	if sp.Defs[d.Name] != nil {
		f.errf("%s defined twice", d.Name)
	}
	d.idx = len(sp.defs)
	sp.Defs[d.Name] = d
	sp.defs = append(sp.defs, d)
}

func (sp *Spec) sort(x *Sx) *Sort {
	if x.isl {
		if x.head() == "List" {
			return ListOf(sp.sort(x.list[1]))
		}
		x.errf("bad sort %s", x)
	}
	if x.atom == "SL" {
		return ListOf(SStr)
	}
	if x.atom == "IL" {
		return ListOf(SInt)
	}
	s := sp.Sorts[x.atom]
	if s == nil {
		x.errf("unknown sort %s", x)
	}
	return s
}

func (sp *Spec) words(xs []*Sx, kw bool) *StrSet {
	var ws []string
	for _, x := range xs {
		if !x.str && strings.HasPrefix(x.atom, "@") {
			s, ok := sp.Sets[x.atom[1:]]
			if !ok {
				x.errf("unknown set %s", x)
			}
			ws = append(ws, s...)
		} else {
			ws = append(ws, x.atom)
		}
	}
	if kw {
		var u []string
		for _, w := range ws {
			u = append(u, strings.ToUpper(w), strings.ToLower(w))
		}
		ws = u
	}
	return mkSet(ws)
}

// tkAt is the token at position i, or the end marker.
func tkAt(T, i *Term) *Term { return Ite(Lt(i, Len(T)), At(T, i), Str("<EOF>")) }

func (sp *Spec) expr(x *Sx, env map[string]*Term) *Term {
	if !x.isl {
		if x.str {
			return Str(x.atom)
		}
		if v, ok := env[x.atom]; ok {
			return v
		}
		if n, err := strconv.ParseInt(x.atom, 10, 64); err == nil {
			return Int(n)
		}
		switch x.atom {
		case "true":
			return True
		case "false":
			return False
		}
		if c, ok := sp.Ctors[x.atom]; ok && len(c.Fields) == 0 {
			return Mk(c)
		}
		if d, ok := sp.Defs[x.atom]; ok && len(d.Params) == 0 {
			return sp.app(x, d, nil)
		}
		x.errf("unknown name %s", x.atom)
	}
	h := x.head()
	a := x.list[1:]
	ev := func(i int) *Term { return sp.expr(a[i], env) }
	all := func() []*Term {
		var r []*Term
		for i := range a {
			r = append(r, ev(i))
		}
		return r
	}
	switch h {
	case "let":
		e2 := map[string]*Term{}
		for k, v := range env {
			e2[k] = v
		}
		for _, b := range a[0].list {
			e2[b.list[0].atom] = sp.expr(b.list[1], e2)
		}
		return sp.expr(a[1], e2)
	case "if":
		return Ite(ev(0), ev(1), ev(2))
	case "cond":
		r := (*Term)(nil)
		for i := len(a) - 1; i >= 0; i-- {
			v := sp.expr(a[i].list[1], env)
			if !a[i].list[0].isl && a[i].list[0].atom == "else" {
				r = v
			} else {
				r = Ite(sp.expr(a[i].list[0], env), v, r)
			}
		}
		return r
	case "and":
		return And(all()...)
	case "or":
		return Or(all()...)
	case "not":
		return Not(ev(0))
	case "=>":
		return Implies(ev(0), ev(1))
	case "=":
		return Eq(ev(0), ev(1))
	case "!=":
		return Not(Eq(ev(0), ev(1)))
	case "<":
		return Lt(ev(0), ev(1))
	case "<=":
		return Le(ev(0), ev(1))
	case ">":
		return Gt(ev(0), ev(1))
	case ">=":
		return Ge(ev(0), ev(1))
	case "+":
		r := Int(0)
		for _, t := range all() {
			r = Add(r, t)
		}
		return r
	case "-":
		return Sub(ev(0), ev(1))
	case "in":
		return In(ev(0), sp.words(a[1:], false))
	case "kw":
		return In(ev(0), sp.words(a[1:], true))
	case "len":
		return Len(ev(0))
	case "at":
		return At(ev(0), ev(1))
	case "tk":
		return tkAt(ev(0), ev(1))
	case "snoc":
		r := ev(0)
		for i := 1; i < len(a); i++ {
			r = Snoc(r, ev(i))
		}
		return r
	case "nil":
		return NilL(ListOf(sp.sort(a[0])))
	case "emp":
		return EmpL(ListOf(sp.sort(a[0])))
	case "cat":
		r := Str("")
		ts := all()
		for i := len(ts) - 1; i >= 0; i-- {
			r = U("cat", ts[i], r)
		}
		return r
	case "update": // (update Ctor e (field v)...)
		c := sp.Ctors[a[0].atom]
		if c == nil {
			x.errf("no constructor %s", a[0])
		}
		e := ev(1)
		var fs []*Term
		for i := range c.Fields {
			fs = append(fs, Sel(c, i, e))
		}
		for _, u := range a[2:] {
			k := c.field(u.list[0].atom)
			if k < 0 {
				u.errf("no field %s", u.list[0])
			}
			fs[k] = sp.expr(u.list[1], env)
		}
		return Mk(c, fs...)
	}
	if h == "is" && len(a) == 2 {
		return Is(sp.Ctors[a[0].atom], ev(1))
	}
	if c, ok := sp.Ctors[h]; ok {
		return Mk(c, all()...)
	}
	if k := strings.LastIndexByte(h, '.'); k > 0 {
		if c, ok := sp.Ctors[h[:k]]; ok {
			i := c.field(h[k+1:])
			if i < 0 {
				x.errf("no field %s", h)
			}
			return Sel(c, i, ev(0))
		}
	}
	if d, ok := sp.Defs[h]; ok {
		return sp.app(x, d, all())
	}
	if u, ok := UFs[h]; ok {
		return Apply(u, all()...)
	}
	x.errf("unknown function %s", h)
	return nil
}

func (sp *Spec) app(x *Sx, d *Def, args []*Term) *Term {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok && !strings.HasPrefix(s, x.file) {
				x.errf("%s", s)
			}
			panic(e)
		}
	}()
	return App(d, args...)
}

func (c *Ctor) field(n string) int {
	for i, f := range c.Fields {
		if f.Name == n {
			return i
		}
	}
	return -1
}

// ---- grammar ----

// gst is a point in a production: p is the position reached if all went well
// so far, ok whether it did, and end what `end` is if it did not.
type gst struct {
	p, r *Term
	oks  []*Term // conditions of the steps so far, in order
	fail []*Term // position reported when the step fails
}

func (g gst) add(ok, failpos, p, r *Term) gst {
	n := gst{p: p, r: r}
	n.oks = append(append([]*Term{}, g.oks...), ok)
	n.fail = append(append([]*Term{}, g.fail...), failpos)
	return n
}

func (g gst) ok() *Term { return And(g.oks...) }
func (g gst) end() *Term {
	e := g.p
	for i := len(g.oks) - 1; i >= 0; i-- {
		e = Ite(g.oks[i], e, g.fail[i])
	}
	return e
}

type gctx struct {
	sp  *Spec
	T   *Term
	env map[string]*Term
}

func (c *gctx) withTk(p *Term) map[string]*Term {
	e := map[string]*Term{}
	for k, v := range c.env {
		e[k] = v
	}
	e["tk"] = tkAt(c.T, p)
	e["tk2"] = tkAt(c.T, skipTo(AddC2(c.T, p)))
	e["i"] = p
	return e
}

// AddC2/skipTo build skip(T, p+1).
func AddC2(T, p *Term) [2]*Term   { return [2]*Term{T, AddC(p, 1)} }
func skipTo(a [2]*Term) *Term     { return App(spec.Defs["skip"], a[0], a[1]) }
func (c *gctx) nxt(p *Term) *Term { return skipTo(AddC2(c.T, p)) }

func (c *gctx) emit(e *Sx, r, tok *Term) *Term {
	switch e.atom {
	case "+":
		return Snoc(r, tok)
	case "-":
		return r
	}
	v := c.env[e.atom]
	if v == nil {
		e.errf("bad emission mode %s", e)
	}
	return Ite(v, Snoc(r, tok), r)
}

func (c *gctx) cond(x *Sx, p *Term) *Term {
	e := c.withTk(p)
	switch x.head() {
	case "peek":
		return In(e["tk"], c.sp.words(x.list[1:], true))
	case "peek2":
		return In(e["tk2"], c.sp.words(x.list[1:], true))
	case "at-end":
		return Ge(p, Len(c.T))
	case "and":
		var cs []*Term
		for _, y := range x.list[1:] {
			cs = append(cs, c.cond(y, p))
		}
		return And(cs...)
	case "or":
		var cs []*Term
		for _, y := range x.list[1:] {
			cs = append(cs, c.cond(y, p))
		}
		return Or(cs...)
	case "not":
		return Not(c.cond(x.list[1], p))
	}
	return c.sp.expr(x, e)
}

func (c *gctx) stmts(xs []*Sx, g gst) gst {
	for _, x := range xs {
		g = c.stmt(x, g)
	}
	return g
}

// block runs statements from a point as one step.
func (c *gctx) branch(cond *Term, th, el []*Sx, g gst) gst {
	g0 := gst{p: g.p, r: g.r}
	a, b := c.stmts(th, g0), c.stmts(el, g0)
	ok := Ite(cond, a.ok(), b.ok())
	fail := Ite(cond, a.end(), b.end())
	p := Ite(cond, a.p, b.p)
	r := Ite(cond, a.r, b.r)
	if ok == True {
		n := g
		n.p, n.r = p, r
		return n
	}
	return g.add(ok, fail, p, r)
}

func (c *gctx) stmt(x *Sx, g gst) gst {
	a := x.list[1:]
	switch x.head() {
	case "tok": // (tok E K...)
		k := In(tkAt(c.T, g.p), c.sp.words(a[1:], true))
		return g.add(k, g.p, c.nxt(g.p), c.emit(a[0], g.r, At(c.T, g.p)))
	case "take": // (take E PRED)
		k := c.cond(a[1], g.p)
		return g.add(k, g.p, c.nxt(g.p), c.emit(a[0], g.r, At(c.T, g.p)))
	case "any":
		return g.add(Lt(g.p, Len(c.T)), g.p, c.nxt(g.p), c.emit(a[0], g.r, At(c.T, g.p)))
	case "opt": // (opt E K...)
		k := In(tkAt(c.T, g.p), c.sp.words(a[1:], true))
		n := g
		n.p = Ite(k, c.nxt(g.p), g.p)
		n.r = Ite(k, c.emit(a[0], g.r, At(c.T, g.p)), g.r)
		return n
	case "optdo": // (optdo E (K...) stmts...)
		k := In(tkAt(c.T, g.p), c.sp.words(a[1].list, true))
		tk := &Sx{isl: true, list: append([]*Sx{{atom: "tok"}, a[0]}, a[1].list...), file: x.file, line: x.line}
		return c.branch(k, append([]*Sx{tk}, a[2:]...), nil, g)
	case "if": // (if COND (stmts) (stmts))
		var el []*Sx
		if len(a) > 2 {
			el = a[2].list
		}
		return c.branch(c.cond(a[0], g.p), a[1].list, el, g)
	case "case": // (case (COND stmts...)... ) last may be (else stmts...)
		cl := a[0]
		if cl.list[0].atom == "else" && !cl.list[0].isl {
			return c.stmts(cl.list[1:], g)
		}
		var el []*Sx
		if len(a) > 1 {
			el = []*Sx{{isl: true, list: append([]*Sx{{atom: "case"}}, a[1:]...), file: x.file, line: x.line}}
		} else {
			el = []*Sx{{isl: true, list: []*Sx{{atom: "fail"}}, file: x.file, line: x.line}}
		}
		return c.branch(c.cond(cl.list[0], g.p), cl.list[1:], el, g)
	case "fail":
		return g.add(False, g.p, g.p, g.r)
	case "emit":
		n := g
		for _, w := range a {
			n.r = Snoc(n.r, Str(w.atom))
		}
		return n
	case "do": // (do stmts...)
		return c.stmts(a, g)
	case "let": // (let ((x expr)...) stmts...): expressions at the current position
		c2 := &gctx{sp: c.sp, T: c.T, env: map[string]*Term{}}
		for k, v := range c.env {
			c2.env[k] = v
		}
		for _, b := range a[0].list {
			c2.env[b.list[0].atom] = c.sp.expr(b.list[1], c2.withTk(g.p))
		}
		return c2.stmts(a[1:], g)
	}
	// call of a nonterminal: (N args...)
	n := c.sp.NTs[x.head()]
	if n == nil {
		x.errf("unknown grammar statement %s", x)
	}
	if len(a) != len(n.Params) {
		x.errf("%s takes %d arguments", n.Name, len(n.Params))
	}
	var args []*Term
	env := c.withTk(g.p)
	for i, y := range a {
		if n.Params[i].sort == SBool && !y.isl && (y.atom == "+" || y.atom == "-") {
			args = append(args, Bool(y.atom == "+"))
			continue
		}
		args = append(args, c.sp.expr(y, env))
	}
	oa := append([]*Term{c.T, g.p}, n.okArgs(args)...)
	ea := append(append([]*Term{c.T, g.p}, args...), g.r)
	return g.add(App(n.Ok, oa...), App(n.End, oa...), App(n.End, oa...), App(n.Em, ea...))
}

func (sp *Spec) compileNT(n *NT) {
	T, i, r := Var("T", ListOf(SStr)), Var("i", SInt), Var("r", ListOf(SStr))
	c := &gctx{sp: sp, T: T, env: map[string]*Term{}}
	for _, p := range n.Params {
		c.env[p.s] = p
	}
	g := c.stmts(n.Stmts, gst{p: i, r: r})
	n.Ok.Body = g.ok()
	n.End.Body = g.end()
	n.Em.Body = g.r
	n.Em.PBody = Ite(g.ok(), g.r, r)
	if n.Ok.Body == nil {
		panic(fmt.Sprint("empty nt ", n.Name))
	}
}
