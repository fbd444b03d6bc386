package main

// Hash-consed terms with simplifying constructors. Terms are the language of
// specifications, of symbolic values and of proof obligations.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type SortKind uint8

const (
	KInt SortKind = iota
	KBool
	KStr
	KFloat
	KList
	KAdt
)

type Sort struct {
	Kind  SortKind
	Name  string
	Elem  *Sort   // lists
	Ctors []*Ctor // ADTs
}

type Ctor struct {
	Name   string
	Sort   *Sort
	Fields []CField
	Idx    int
}

type CField struct {
	Name string
	Sort *Sort
}

var (
	SInt   = &Sort{Kind: KInt, Name: "Int"}
	SBool  = &Sort{Kind: KBool, Name: "Bool"}
	SStr   = &Sort{Kind: KStr, Name: "Str"}
	SFloat = &Sort{Kind: KFloat, Name: "Float"}
)

var listSorts = map[*Sort]*Sort{}

func ListOf(e *Sort) *Sort {
	tmu.Lock()
	defer tmu.Unlock()
	if s, ok := listSorts[e]; ok {
		return s
	}
	s := &Sort{Kind: KList, Name: "L_" + e.Name, Elem: e}
	listSorts[e] = s
	return s
}

type Op uint8

const (
	OVar Op = iota
	OInt
	OBool
	OStr
	OLin // n + sum coefs[k]*args[k]
	OLe0 // args[0] <= 0
	OAnd
	OOr
	ONot
	OIte
	OEq
	OIn // string membership in a constant set
	OCtor
	OSel // field n of constructor `ctor`
	OIs
	ONil
	OEmp
	OSnoc
	OLen
	OAt
	OUF
	OApp
)

type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	s     string
	n     int64
	coefs []int64
	set   *StrSet
	ctor  *Ctor
	uf    *UF
	def   *Def
}

// Def is a (possibly recursive) specification function.
type Def struct {
	Name   string
	Params []*Term // OVar
	Ret    *Sort
	Body   *Term
	Macro  bool // expanded when applied
	Rec    bool
	PBody  *Term // body the prover unfolds, if different
	nodes  int
	idx    int
	comp   *compiled
}

// UF is a function the solver treats as uninterpreted (beyond the axioms
// instantiated in axioms.go) and that has a Go interpretation.
type UF struct {
	Name string
	Args []*Sort
	Ret  *Sort
	Eval func(a []Val) Val
}

type StrSet struct {
	id  int
	el  []string
	has map[string]bool
}

var (
	tmu    sync.Mutex
	table  = map[string]*Term{}
	nextID = 1
	sets   = map[string]*StrSet{}
)

func key(t *Term) string {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(t.sort.Name)
	switch t.op {
	case OVar, OStr:
		b.WriteString(strconv.Quote(t.s))
	case OInt, OBool:
		b.WriteString(strconv.FormatInt(t.n, 10))
	case OLin:
		b.WriteString(strconv.FormatInt(t.n, 10))
		for _, c := range t.coefs {
			b.WriteByte('c')
			b.WriteString(strconv.FormatInt(c, 10))
		}
	case OIn:
		b.WriteString(strconv.Itoa(t.set.id))
	case OCtor, OIs:
		b.WriteString(t.ctor.Name)
	case OSel:
		b.WriteString(t.ctor.Name)
		b.WriteByte('.')
		b.WriteString(strconv.FormatInt(t.n, 10))
	case OUF:
		b.WriteString(t.uf.Name)
	case OApp:
		b.WriteString(t.def.Name)
	}
	as := t.args
	if t.op == OAnd || t.op == OOr { // commutative: the key ignores the order
		as = append([]*Term{}, as...)
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	}
	for _, a := range as {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	tmu.Lock()
	defer tmu.Unlock()
	if o, ok := table[k]; ok {
		return o
	}
	t.id = nextID
	nextID++
	table[k] = t
	return t
}

func mkSet(el []string) *StrSet {
	m := map[string]bool{}
	for _, e := range el {
		m[e] = true
	}
	u := make([]string, 0, len(m))
	for e := range m {
		u = append(u, e)
	}
	sort.Strings(u)
	k := strings.Join(u, "\x00") + fmt.Sprint("#", len(u))
	tmu.Lock()
	defer tmu.Unlock()
	if s, ok := sets[k]; ok {
		return s
	}
	s := &StrSet{id: len(sets) + 1, el: u, has: m}
	sets[k] = s
	return s
}

func (s *StrSet) subset(o *StrSet) bool {
	if len(s.el) > len(o.el) {
		return false
	}
	for _, e := range s.el {
		if !o.has[e] {
			return false
		}
	}
	return true
}

func (s *StrSet) disjoint(o *StrSet) bool {
	if len(s.el) > len(o.el) {
		s, o = o, s
	}
	for _, e := range s.el {
		if o.has[e] {
			return false
		}
	}
	return true
}

func union(a, b *StrSet) *StrSet {
	return mkSet(append(append([]string{}, a.el...), b.el...))
}

func inter(a, b *StrSet) *StrSet {
	var r []string
	for _, e := range a.el {
		if b.has[e] {
			r = append(r, e)
		}
	}
	return mkSet(r)
}

func minus(a, b *StrSet) *StrSet {
	var r []string
	for _, e := range a.el {
		if !b.has[e] {
			r = append(r, e)
		}
	}
	return mkSet(r)
}

// ---- constructors ----

func Var(name string, s *Sort) *Term { return mk(&Term{op: OVar, sort: s, s: name}) }

var freshN = 0

func Fresh(prefix string, s *Sort) *Term {
	tmu.Lock()
	freshN++
	n := freshN
	tmu.Unlock()
	return Var(fmt.Sprintf("%s!%d", prefix, n), s)
}

func Int(n int64) *Term { return mk(&Term{op: OInt, sort: SInt, n: n}) }

func Bool(b bool) *Term {
	n := int64(0)
	if b {
		n = 1
	}
	return mk(&Term{op: OBool, sort: SBool, n: n})
}
func Str(s string) *Term { return mk(&Term{op: OStr, sort: SStr, s: s}) }

var (
	True  = Bool(true)
	False = Bool(false)
)

func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }

type linform struct {
	n int64
	m map[*Term]int64
}

func addLin(l *linform, t *Term, c int64) {
	switch t.op {
	case OInt:
		l.n += c * t.n
	case OLin:
		l.n += c * t.n
		for k, a := range t.args {
			l.m[a] += c * t.coefs[k]
		}
	default:
		l.m[t] += c
	}
}

func fromLin(l *linform) *Term {
	var at []*Term
	for a, c := range l.m {
		if c != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return Int(l.n)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && l.n == 0 && l.m[at[0]] == 1 {
		return at[0]
	}
	cs := make([]int64, len(at))
	for i, a := range at {
		cs[i] = l.m[a]
	}
	return mk(&Term{op: OLin, sort: SInt, n: l.n, args: at, coefs: cs})
}

func lin2(a *Term, ca int64, b *Term, cb int64, n int64) *Term {
	l := &linform{n: n, m: map[*Term]int64{}}
	addLin(l, a, ca)
	addLin(l, b, cb)
	return fromLin(l)
}

func Add(a, b *Term) *Term        { return lin2(a, 1, b, 1, 0) }
func Sub(a, b *Term) *Term        { return lin2(a, 1, b, -1, 0) }
func AddC(a *Term, n int64) *Term { return lin2(a, 1, Int(0), 0, n) }
func MulC(a *Term, n int64) *Term { return lin2(a, n, Int(0), 0, 0) }
func Le(a, b *Term) *Term         { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term         { return le0(lin2(a, 1, b, -1, 1)) }
func Ge(a, b *Term) *Term         { return Le(b, a) }
func Gt(a, b *Term) *Term         { return Lt(b, a) }

func le0(x *Term) *Term {
	if x.op == OInt {
		return Bool(x.n <= 0)
	}
	if x.op == OIte && (x.args[1].op == OInt || x.args[2].op == OInt) {
		return Ite(x.args[0], le0(x.args[1]), le0(x.args[2]))
	}
	return mk(&Term{op: OLe0, sort: SBool, args: []*Term{x}})
}

func Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return Bool(a.n == 0)
	case ONot:
		return a.args[0]
	case OLe0:
		return le0(lin2(a.args[0], -1, Int(0), 0, 1))
	case OIte:
		if a.sort == SBool {
			return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
		}
	}
	return mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func And(xs ...*Term) *Term { return nary(OAnd, xs) }
func Or(xs ...*Term) *Term  { return nary(OOr, xs) }

func nary(op Op, xs []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	var fl []*Term
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		fl = append(fl, x)
		return true
	}
	for _, x := range xs {
		if !rec(x) {
			return zero
		}
	}
	// merge memberships of the same term
	pos := map[*Term]*StrSet{}
	neg := map[*Term]*StrSet{}
	rest := fl[:0:0]
	var order []*Term
	for _, x := range fl {
		if x.op == OIn {
			y := x.args[0]
			if s, ok := pos[y]; ok {
				if op == OAnd {
					pos[y] = inter(s, x.set)
				} else {
					pos[y] = union(s, x.set)
				}
			} else {
				pos[y] = x.set
				order = append(order, x)
			}
			continue
		}
		if x.op == ONot && x.args[0].op == OIn {
			y := x.args[0].args[0]
			if s, ok := neg[y]; ok {
				if op == OAnd {
					neg[y] = union(s, x.args[0].set)
				} else {
					neg[y] = inter(s, x.args[0].set)
				}
			} else {
				neg[y] = x.args[0].set
				order = append(order, x)
			}
			continue
		}
		rest = append(rest, x)
	}
	for _, x := range order {
		if x.op == OIn {
			y := x.args[0]
			p := pos[y]
			if q, ok := neg[y]; ok {
				if op == OAnd { // y in p and y not in q
					p = minus(p, q)
				} else { // y in p or y not in q  == not (y in q\p)
					q = minus(q, p)
					n := Not(In(y, q))
					if n == zero {
						return zero
					}
					if n != unit {
						rest = append(rest, n)
					}
					continue
				}
			}
			v := In(y, p)
			if v == zero {
				return zero
			}
			if v != unit {
				rest = append(rest, v)
			}
		} else {
			y := x.args[0].args[0]
			if _, ok := pos[y]; ok {
				continue
			}
			v := Not(In(y, neg[y]))
			if v == zero {
				return zero
			}
			if v != unit {
				rest = append(rest, v)
			}
		}
	}
	fl = rest
	out := fl[:0]
	seen := map[int]bool{}
	for _, x := range fl {
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range out {
		if x.op == ONot && seen[x.args[0].id] {
			return zero
		}
		if x.op == OLe0 {
			n := Not(x)
			if seen[n.id] {
				return zero
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: op, sort: SBool, args: append([]*Term{}, out...)})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if c.op == OLe0 {
		if n := Not(c); n.op == OLe0 && n.id < c.id {
			return Ite(n, b, a)
		}
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True || a == c {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False || b == c {
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	return mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func isVal(t *Term) bool { return t.op == OInt || t.op == OBool || t.op == OStr }

// definite reports whether equality between a and b can be decided locally.
func ctorLike(t *Term) bool {
	switch t.op {
	case OInt, OBool, OStr, OCtor, ONil, OEmp, OSnoc:
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort.Name, b.sort.Name, a, b))
	}
	if isVal(a) && isVal(b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if a == False {
			return Not(b)
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SStr {
		if b.op == OStr {
			return In(a, mkSet([]string{b.s}))
		}
		if a.op == OStr {
			return In(b, mkSet([]string{a.s}))
		}
	}
	if a.op == OIte && ctorLike(b) {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x.op == OBool || y.op == OBool {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte && ctorLike(a) {
		x, y := Eq(b.args[1], a), Eq(b.args[2], a)
		if x.op == OBool || y.op == OBool {
			return Ite(b.args[0], x, y)
		}
	}
	switch {
	case a.op == OCtor && b.op == OCtor:
		if a.ctor != b.ctor {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	case ctorLike(a) && ctorLike(b) && a.sort.Kind == KList:
		if a.op != b.op {
			return False
		}
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.sort == SInt {
		if b.op == OUF {
			a, b = b, a
		}
		if a.op == OUF && a.uf.Name == "byteat" && a.args[1].op == OInt && a.args[1].n == 0 && b.op == OInt && b.n > 0 && b.n < 128 {
			return In(Apply(UFs["first"], a.args[0]), mkSet([]string{string(rune(b.n))}))
		}
		d := Sub(a, b)
		if d.op == OInt {
			return Bool(d.n == 0)
		}
		if d.op == OLin && d.coefs[0] < 0 {
			d = MulC(d, -1)
		}
		if d.op == OLin && len(d.args) == 1 && (d.coefs[0] == 1) {
			a, b = d.args[0], Int(-d.n)
		} else if d.op != OLin {
			a, b = d, Int(0)
		} else {
			a, b = d, Int(0)
		}
		return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func In(t *Term, s *StrSet) *Term {
	if len(s.el) == 0 {
		return False
	}
	if t.op == OStr {
		return Bool(s.has[t.s])
	}
	if t.op == OIte {
		return Ite(t.args[0], In(t.args[1], s), In(t.args[2], s))
	}
	if t.op == OUF && t.uf.Name == "chr" {
		// chr(x) = "c" iff x is that code point
		var cs []*Term
		for _, e := range s.el {
			r := []rune(e)
			if len(r) == 1 && string(r) == e && r[0] != 0xFFFD {
				cs = append(cs, Eq(t.args[0], Int(int64(r[0]))))
			} else if e == "\uFFFD" {
				return mk(&Term{op: OIn, sort: SBool, args: []*Term{t}, set: s})
			}
		}
		return Or(cs...)
	}
	return mk(&Term{op: OIn, sort: SBool, args: []*Term{t}, set: s})
}

// eraseFields holds "Ctor.field" names that the current run does not track.
var eraseFields = map[string]bool{}

func erasedValue(s *Sort) *Term { return Var("erased_"+s.Name, s) }

func Mk(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Fields) {
		panic("ctor arity " + c.Name)
	}
	a := append([]*Term{}, args...)
	for i, f := range c.Fields {
		if eraseFields[c.Name+"."+f.Name] {
			a[i] = erasedValue(f.Sort)
		}
		if a[i].sort != f.Sort {
			panic(fmt.Sprintf("ctor %s field %s: sort %s, want %s", c.Name, f.Name, a[i].sort.Name, f.Sort.Name))
		}
	}
	return mk(&Term{op: OCtor, sort: c.Sort, ctor: c, args: a})
}

func Sel(c *Ctor, i int, t *Term) *Term {
	if t.op == OCtor && t.ctor == c {
		return t.args[i]
	}
	if t.op == OIte {
		return Ite(t.args[0], Sel(c, i, t.args[1]), Sel(c, i, t.args[2]))
	}
	return mk(&Term{op: OSel, sort: c.Fields[i].Sort, ctor: c, n: int64(i), args: []*Term{t}})
}

func Is(c *Ctor, t *Term) *Term {
	if len(c.Sort.Ctors) == 1 {
		return True
	}
	if t.op == OCtor {
		return Bool(t.ctor == c)
	}
	if t.op == OIte {
		return Ite(t.args[0], Is(c, t.args[1]), Is(c, t.args[2]))
	}
	return mk(&Term{op: OIs, sort: SBool, ctor: c, args: []*Term{t}})
}

// nil and empty lists are one value; nil-ness is tracked by the executor only
func NilL(s *Sort) *Term { return EmpL(s) }
func EmpL(s *Sort) *Term { return mk(&Term{op: OEmp, sort: s}) }
func Snoc(l, x *Term) *Term {
	if l.sort.Kind != KList || l.sort.Elem != x.sort {
		panic(fmt.Sprintf("snoc %s %s", l.sort.Name, x.sort.Name))
	}
	return mk(&Term{op: OSnoc, sort: l.sort, args: []*Term{l, x}})
}
// subList: the elements from lo to hi (in bounds) of a list.
func subList(l, lo, hi *Term) *Term {
	if lo == Int(0) && hi == Len(l) {
		return l
	}
	if lo == hi {
		return EmpL(l.sort)
	}
	if b, a, _, ok := isSub(l); ok {
		return subList(b, Add(a, lo), Add(a, hi))
	}
	n := "sub." + l.sort.Name
	if UFs[n] == nil {
		panic("sublist of " + l.sort.Name)
	}
	return U(n, l, lo, hi)
}

func isSub(l *Term) (b, lo, hi *Term, ok bool) {
	if l.op == OUF && strings.HasPrefix(l.uf.Name, "sub.") {
		return l.args[0], l.args[1], l.args[2], true
	}
	return nil, nil, nil, false
}

func Len(l *Term) *Term {
	if _, lo, hi, ok := isSub(l); ok {
		return Sub(hi, lo)
	}
	switch l.op {
	case ONil, OEmp:
		return Int(0)
	case OSnoc:
		return AddC(Len(l.args[0]), 1)
	case OIte:
		if l.args[1].op != OApp && l.args[2].op != OApp {
			return Ite(l.args[0], Len(l.args[1]), Len(l.args[2]))
		}
	}
	return mk(&Term{op: OLen, sort: SInt, args: []*Term{l}})
}
func At(l, i *Term) *Term {
	if b, lo, _, ok := isSub(l); ok {
		return At(b, Add(lo, i))
	}
	if l.op == OSnoc {
		n := Len(l.args[0])
		d := Sub(i, n)
		if d.op == OInt {
			if d.n == 0 {
				return l.args[1]
			}
			if d.n < 0 {
				return At(l.args[0], i)
			}
		}
	}
	return mk(&Term{op: OAt, sort: l.sort.Elem, args: []*Term{l, i}})
}

func constElems(l *Term) ([]*Term, bool) {
	var r []*Term
	for l.op == OSnoc {
		r = append(r, l.args[1])
		l = l.args[0]
	}
	if l.op != ONil && l.op != OEmp {
		return nil, false
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, true
}

func Apply(u *UF, args ...*Term) *Term {
	all := true
	for i, a := range args {
		if a.sort != u.Args[i] {
			panic(fmt.Sprintf("uf %s arg %d sort %s", u.Name, i, a.sort.Name))
		}
		if !isVal(a) {
			all = false
		}
	}
	if all {
		vs := make([]Val, len(args))
		for i, a := range args {
			vs[i] = a.val()
		}
		if t := valTerm(u.Eval(vs), u.Ret); t != nil {
			return t
		}
	}
	for i, a := range args {
		if a.op == OIte && (len(args) == 1 || u.Name == "rematch") && (isVal(a.args[1]) || isVal(a.args[2])) {
			b := append([]*Term{}, args...)
			c := append([]*Term{}, args...)
			b[i], c[i] = a.args[1], a.args[2]
			return Ite(a.args[0], Apply(u, b...), Apply(u, c...))
		}
	}
	if u.Name == "cat" {
		a, b := args[0], args[1]
		if a.op == OStr && a.s == "" {
			return b
		}
		if b.op == OStr && b.s == "" {
			return a
		}
		if a.op == OUF && a.uf == u { // right-associate
			return Apply(u, a.args[0], Apply(u, a.args[1], b))
		}
		if a.op == OStr && b.op == OUF && b.uf == u && b.args[0].op == OStr {
			return Apply(u, Str(a.s+b.args[0].s), b.args[1])
		}
	}
	if u.Name == "allgood" {
		switch a := args[0]; a.op {
		case OEmp:
			return True
		case OIte:
			return Ite(a.args[0], Apply(u, a.args[1]), Apply(u, a.args[2]))
		case OSnoc:
			return And(Apply(u, a.args[0]), goodTok(a.args[1]))
		}
	}
	if u.Name == "mdL" || u.Name == "dpL" {
		switch a := args[0]; a.op {
		case OEmp:
			return Int(0)
		case OIte:
			return Ite(a.args[0], Apply(u, a.args[1]), Apply(u, a.args[2]))
		case OSnoc:
			n := "cf.step"
			if u.Name == "dpL" {
				n = "cf.depth"
			}
			return App(spec.Defs[n], U("mdL", a.args[0]), U("dpL", a.args[0]), a.args[1])
		}
	}
	if u.Name == "rematch" && args[0].op == OStr {
		args = []*Term{Str(canonRe(args[0].s)), args[1]}
	}
	if u.Name == "strlen" {
		a := args[0]
		if a.op == OUF && a.uf.Name == "cat" {
			return Add(Apply(u, a.args[0]), Apply(u, a.args[1]))
		}
	}
	if u.Name == "substr" {
		// t[0:1] is first(t); t[0:len t] is t
		a := args[0]
		if args[1].op == OInt && args[1].n == 0 {
			if args[2].op == OInt && args[2].n == 1 {
				return Apply(UFs["first"], a)
			}
			if args[2] == Apply(UFs["strlen"], a) {
				return a
			}
		}
	}
	return mk(&Term{op: OUF, sort: u.Ret, uf: u, args: append([]*Term{}, args...)})
}

func U(name string, args ...*Term) *Term {
	u := UFs[name]
	if u == nil {
		panic("no UF " + name)
	}
	return Apply(u, args...)
}

func App(d *Def, args ...*Term) *Term {
	if len(args) != len(d.Params) {
		panic(fmt.Sprintf("%s: %d args, want %d", d.Name, len(args), len(d.Params)))
	}
	for i, a := range args {
		if a.sort != d.Params[i].sort {
			panic(fmt.Sprintf("%s arg %d (%s): sort %s, want %s: %s", d.Name, i, d.Params[i].s, a.sort.Name, d.Params[i].sort.Name, a))
		}
	}
	if d.Macro {
		return Unfold(d, args)
	}
	if d.Name == "memFrom" {
		if r := simpMem(d, args); r != nil {
			return r
		}
	}
	return mk(&Term{op: OApp, sort: d.Ret, def: d, args: append([]*Term{}, args...)})
}

func Unfold(d *Def, args []*Term) *Term {
	if d.Body == nil {
		panic("no body: " + d.Name)
	}
	m := map[*Term]*Term{}
	for i, p := range d.Params {
		m[p] = args[i]
	}
	if d.PBody != nil {
		return Subst(d.PBody, m)
	}
	return Subst(d.Body, m)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OLin:
		l := &linform{n: t.n, m: map[*Term]int64{}}
		for i, x := range a {
			addLin(l, x, t.coefs[i])
		}
		return fromLin(l)
	case OLe0:
		return le0(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case ONot:
		return Not(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OIn:
		return In(a[0], t.set)
	case OCtor:
		return Mk(t.ctor, a...)
	case OSel:
		return Sel(t.ctor, int(t.n), a[0])
	case OIs:
		return Is(t.ctor, a[0])
	case OSnoc:
		return Snoc(a[0], a[1])
	case OLen:
		return Len(a[0])
	case OAt:
		return At(a[0], a[1])
	case OUF:
		return Apply(t.uf, a...)
	case OApp:
		return App(t.def, a...)
	}
	return t
}

// Subst replaces terms (usually variables) by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.op == OIte { // lazily, to skip dead branches
			c := rec(t.args[0])
			var r *Term
			if c == True {
				r = rec(t.args[1])
			} else if c == False {
				r = rec(t.args[2])
			} else {
				r = Ite(c, rec(t.args[1]), rec(t.args[2]))
			}
			memo[t] = r
			return r
		}
		a := make([]*Term, len(t.args))
		ch := false
		for i, x := range t.args {
			a[i] = rec(x)
			if a[i] != x {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, a)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, 0)
	return b.String()
}

func (t *Term) print(b *strings.Builder, depth int) {
	if depth > 14 || b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	list := func(h string) {
		b.WriteString("(" + h)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.print(b, depth+1)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OVar:
		b.WriteString(t.s)
	case OInt:
		fmt.Fprint(b, t.n)
	case OBool:
		fmt.Fprint(b, t.n == 1)
	case OStr:
		b.WriteString(strconv.Quote(t.s))
	case OLin:
		b.WriteString("(+")
		for i, a := range t.args {
			b.WriteByte(' ')
			if t.coefs[i] != 1 {
				fmt.Fprintf(b, "%d*", t.coefs[i])
			}
			a.print(b, depth+1)
		}
		if t.n != 0 {
			fmt.Fprintf(b, " %d", t.n)
		}
		b.WriteByte(')')
	case OLe0:
		list("<=0")
	case OAnd:
		list("and")
	case OOr:
		list("or")
	case ONot:
		list("not")
	case OIte:
		list("if")
	case OEq:
		list("=")
	case OIn:
		b.WriteString("(in ")
		t.args[0].print(b, depth+1)
		if len(t.set.el) > 6 {
			fmt.Fprintf(b, " {%q..%d}", t.set.el[:4], len(t.set.el))
		} else {
			fmt.Fprintf(b, " %q", t.set.el)
		}
		b.WriteByte(')')
	case OCtor:
		list(t.ctor.Name)
	case OSel:
		list(t.ctor.Name + "." + t.ctor.Fields[t.n].Name)
	case OIs:
		list("is-" + t.ctor.Name)
	case ONil:
		b.WriteString("nil")
	case OEmp:
		b.WriteString("emp")
	case OSnoc:
		list("snoc")
	case OLen:
		list("len")
	case OAt:
		list("at")
	case OUF:
		list(t.uf.Name)
	case OApp:
		list(t.def.Name)
	}
}

// walk visits each distinct subterm once.
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

// simpMem applies the definition of memFrom where its arguments determine it.
func simpMem(d *Def, a []*Term) *Term {
	l, k, x := a[0], a[1], a[2]
	if k.op != OInt || k.n < 0 {
		return nil
	}
	if es, ok := constElems(l); ok {
		if int(k.n) >= len(es) {
			return False
		}
		es = es[k.n:]
		var ws []string
		for _, e := range es {
			if e.op == OStr {
				ws = append(ws, e.s)
			}
		}
		if len(ws) == len(es) {
			return In(x, mkSet(ws))
		}
		var cs []*Term
		for _, e := range es {
			cs = append(cs, Eq(e, x))
		}
		return Or(cs...)
	}
	if l.op == OSnoc && k.n == 0 {
		return Or(App(d, l.args[0], k, x), Eq(l.args[1], x))
	}
	return nil
}
