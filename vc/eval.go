package main

// Concrete evaluation of specifications: the same definitions the proofs use
// serve as the oracle when a failed obligation is replayed on the real code.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"
)

type Val interface{}

type LVal struct { // list value; backing shared by snoc
	nilp bool
	el   []Val
}

type AVal struct {
	c *Ctor
	f []Val
}

func (l *LVal) snoc(x Val) *LVal {
	if len(l.el) < cap(l.el) {
		// copy unless the next slot is unused; a sentinel marks it free
		b := l.el[:len(l.el)+1]
		if b[len(l.el)] == nil {
			b[len(l.el)] = x
			return &LVal{el: b}
		}
	}
	n := make([]Val, len(l.el), 2*len(l.el)+4)
	copy(n, l.el)
	n = n[:len(l.el)+1]
	n[len(l.el)] = x
	return &LVal{el: n}
}

func (t *Term) val() Val {
	switch t.op {
	case OInt:
		return t.n
	case OBool:
		return t.n == 1
	case OStr:
		return t.s
	}
	panic("val")
}

func valTerm(v Val, s *Sort) *Term {
	switch x := v.(type) {
	case int64:
		return Int(x)
	case bool:
		return Bool(x)
	case string:
		return Str(x)
	case *LVal:
		r := EmpL(s)
		if x.nilp {
			r = NilL(s)
		}
		for _, e := range x.el {
			t := valTerm(e, s.Elem)
			if t == nil {
				return nil
			}
			r = Snoc(r, t)
		}
		return r
	}
	return nil
}

var reCache = map[string]*regexp.Regexp{}

var UFs = map[string]*UF{}

func addUF(name string, args []*Sort, ret *Sort, f func(a []Val) Val) {
	UFs[name] = &UF{Name: name, Args: args, Ret: ret, Eval: f}
}

func init() {
	S1 := []*Sort{SStr}
	addUF("upper", S1, SStr, func(a []Val) Val { return strings.ToUpper(a[0].(string)) })
	addUF("lower", S1, SStr, func(a []Val) Val { return strings.ToLower(a[0].(string)) })
	addUF("isnum", S1, SBool, func(a []Val) Val { _, e := strconv.ParseFloat(a[0].(string), 64); return e == nil })
	addUF("pf", S1, SFloat, func(a []Val) Val { f, _ := strconv.ParseFloat(a[0].(string), 64); return f })
	addUF("isint", S1, SBool, func(a []Val) Val { _, e := strconv.Atoi(a[0].(string)); return e == nil })
	addUF("atoi", S1, SInt, func(a []Val) Val { n, _ := strconv.Atoi(a[0].(string)); return int64(n) })
	addUF("itoa", []*Sort{SInt}, SStr, func(a []Val) Val { return strconv.FormatInt(a[0].(int64), 10) })
	addUF("cat", []*Sort{SStr, SStr}, SStr, func(a []Val) Val { return a[0].(string) + a[1].(string) })
	addUF("strlen", S1, SInt, func(a []Val) Val { return int64(len(a[0].(string))) })
	addUF("first", S1, SStr, func(a []Val) Val {
		s := a[0].(string)
		if s == "" {
			return ""
		}
		return s[0:1]
	})
	addUF("substr", []*Sort{SStr, SInt, SInt}, SStr, func(a []Val) Val {
		s, i, j := a[0].(string), a[1].(int64), a[2].(int64)
		if i < 0 || j < i || j > int64(len(s)) {
			return ""
		}
		return s[i:j]
	})
	addUF("byteat", []*Sort{SStr, SInt}, SInt, func(a []Val) Val {
		s, i := a[0].(string), a[1].(int64)
		if i < 0 || i >= int64(len(s)) {
			return int64(0)
		}
		return int64(s[i])
	})
	addUF("chr", []*Sort{SInt}, SStr, func(a []Val) Val {
		n := a[0].(int64)
		if n < 0 || n > 0x10FFFF {
			return "\uFFFD"
		}
		return string(rune(n))
	})
	for _, t := range []*Sort{ListOf(SInt), ListOf(SStr)} {
		addUF("sub."+t.Name, []*Sort{t, SInt, SInt}, t, nil)
	}
	addUF("runes", S1, ListOf(SInt), func(a []Val) Val {
		l := &LVal{}
		for _, r := range a[0].(string) {
			l = l.snoc(int64(r))
		}
		return l
	})
	addUF("contains", []*Sort{SStr, SStr}, SBool, func(a []Val) Val { return strings.Contains(a[0].(string), a[1].(string)) })
	addUF("eqfold", []*Sort{SStr, SStr}, SBool, func(a []Val) Val { return strings.EqualFold(a[0].(string), a[1].(string)) })
	addUF("rematch", []*Sort{SStr, SStr}, SBool, func(a []Val) Val {
		p := a[0].(string)
		tmu.Lock()
		re := reCache[p]
		tmu.Unlock()
		if re == nil {
			var err error
			re, err = regexp.Compile(p)
			if err != nil {
				return false
			}
			tmu.Lock()
			reCache[p] = re
			tmu.Unlock()
		}
		return re.MatchString(a[1].(string))
	})
}

var reCanon = map[string]string{}

// canonRe writes a pattern in one of the equivalent ways.
func canonRe(p string) string {
	dynMu.Lock()
	defer dynMu.Unlock()
	if c, ok := reCanon[p]; ok {
		return c
	}
	c := p
	if r, err := syntax.Parse(p, syntax.Perl); err == nil {
		c = r.Simplify().String()
	}
	reCanon[p], reCanon[c] = c, c
	return c
}

type compiled struct {
	idx map[*Term]int // slots: parameters and shared nodes
	n   int
	pn  int
}

func (d *Def) compile() *compiled {
	if d.comp == nil {
		c := &compiled{idx: map[*Term]int{}}
		for _, p := range d.Params {
			c.idx[p] = c.n
			c.n++
		}
		cnt := map[*Term]int{}
		walk(d.Body, map[*Term]bool{}, func(t *Term) {
			for _, a := range t.args {
				cnt[a]++
			}
		})
		walk(d.Body, map[*Term]bool{}, func(t *Term) {
			switch t.op {
			case OInt, OBool, OStr, OVar, OEmp:
				return
			}
			if cnt[t] > 1 {
				c.idx[t] = c.n
				c.n++
			}
		})
		d.comp = c
	}
	return d.comp
}

type mkey struct {
	d *Def
	a [8]Val
}

// Ev is one concrete evaluation (its memo table is private to it).
type Ev struct {
	memo  map[mkey]Val
	steps int
	stack []Val
	max   int
}

type evalLimit struct{}

func NewEv() *Ev { return &Ev{memo: map[mkey]Val{}, max: 3000000} }

type frame struct {
	c    *compiled
	base int
}

var noMemo = map[string]bool{"lexS": true, "skip": true, "memFrom": true, "eol": true, "eolR": true, "strR": true, "strTxt": true, "blkR": true, "nl": true, "parse": true}

func (ev *Ev) Call(d *Def, args ...Val) Val {
	var k mkey
	memo := !noMemo[d.Name] || (d.Name == "lexS" && args[2] == Val(int64(0)))
	if memo {
		k.d = d
		copy(k.a[:], args)
		if v, ok := ev.memo[k]; ok {
			return v
		}
	}
	c := d.comp
	base := len(ev.stack)
	for i := 0; i < c.n; i++ {
		ev.stack = append(ev.stack, nil)
	}
	copy(ev.stack[base:], args)
	fr := frame{c: c, base: base}
	v := ev.eval(d.Body, fr)
	for i := base; i < len(ev.stack); i++ {
		ev.stack[i] = nil
	}
	ev.stack = ev.stack[:base]
	if memo {
		ev.memo[k] = v
	}
	return v
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case *LVal:
		y := b.(*LVal)
		if x == y {
			return true
		}
		if len(x.el) != len(y.el) {
			return false
		}
		for i := range x.el {
			if !valEq(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	case *AVal:
		y := b.(*AVal)
		if x.c != y.c {
			return false
		}
		for i := range x.f {
			if !valEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func defaultVal(s *Sort) Val {
	switch s.Kind {
	case KInt:
		return int64(0)
	case KBool:
		return false
	case KStr:
		return ""
	case KFloat:
		return float64(0)
	case KList:
		return &LVal{nilp: true}
	}
	c := s.Ctors[0]
	f := make([]Val, len(c.Fields))
	for i := range f {
		f[i] = defaultVal(c.Fields[i].Sort)
	}
	return &AVal{c, f}
}

func (ev *Ev) eval(t *Term, fr frame) Val {
	switch t.op {
	case OInt:
		return t.n
	case OBool:
		return t.n == 1
	case OStr:
		return t.s
	}
	j, shared := fr.c.idx[t]
	if shared {
		if v := ev.stack[fr.base+j]; v != nil {
			return v
		}
	}
	ev.steps++
	if ev.steps > ev.max {
		panic(evalLimit{})
	}
	v := ev.eval1(t, fr)
	if shared {
		ev.stack[fr.base+j] = v
	}
	return v
}

func (ev *Ev) eval1(t *Term, fr frame) Val {
	a := t.args
	switch t.op {
	case OVar:
		panic("unbound " + t.s)
	case OLin:
		n := t.n
		for i, x := range a {
			n += t.coefs[i] * ev.eval(x, fr).(int64)
		}
		return n
	case OLe0:
		return ev.eval(a[0], fr).(int64) <= 0
	case OAnd:
		for _, x := range lazy(t) {
			if !ev.eval(x, fr).(bool) {
				return false
			}
		}
		return true
	case OOr:
		for _, x := range lazy(t) {
			if ev.eval(x, fr).(bool) {
				return true
			}
		}
		return false
	case ONot:
		return !ev.eval(a[0], fr).(bool)
	case OIte:
		if ev.eval(a[0], fr).(bool) {
			return ev.eval(a[1], fr)
		}
		return ev.eval(a[2], fr)
	case OEq:
		return valEq(ev.eval(a[0], fr), ev.eval(a[1], fr))
	case OIn:
		return t.set.has[ev.eval(a[0], fr).(string)]
	case OCtor:
		f := make([]Val, len(a))
		for i, x := range a {
			f[i] = ev.eval(x, fr)
		}
		return &AVal{t.ctor, f}
	case OSel:
		v := ev.eval(a[0], fr).(*AVal)
		if v.c != t.ctor {
			return defaultVal(t.sort)
		}
		return v.f[t.n]
	case OIs:
		return ev.eval(a[0], fr).(*AVal).c == t.ctor
	case ONil:
		return &LVal{nilp: true}
	case OEmp:
		return &LVal{}
	case OSnoc:
		return ev.eval(a[0], fr).(*LVal).snoc(ev.eval(a[1], fr))
	case OLen:
		return int64(len(ev.eval(a[0], fr).(*LVal).el))
	case OAt:
		l, i := ev.eval(a[0], fr).(*LVal), ev.eval(a[1], fr).(int64)
		if i < 0 || i >= int64(len(l.el)) {
			return defaultVal(t.sort)
		}
		return l.el[i]
	case OUF:
		vs := make([]Val, len(a))
		for i, x := range a {
			vs[i] = ev.eval(x, fr)
		}
		return t.uf.Eval(vs)
	case OApp:
		vs := make([]Val, len(a))
		for i, x := range a {
			vs[i] = ev.eval(x, fr)
		}
		return ev.Call(t.def, vs...)
	}
	panic(fmt.Sprint("eval ", t.op))
}

func valString(v Val) string {
	switch x := v.(type) {
	case *LVal:
		if x.nilp && len(x.el) == 0 {
			return "nil"
		}
		var p []string
		for _, e := range x.el {
			p = append(p, valString(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *AVal:
		var p []string
		for i, e := range x.f {
			p = append(p, x.c.Fields[i].Name+":"+valString(e))
		}
		return x.c.Name + "{" + strings.Join(p, " ") + "}"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

var lazyOrder sync.Map

// lazy orders the operands of a connective: those free of specification
// functions first, so that guards are evaluated before what they guard.
func lazy(t *Term) []*Term {
	if o, ok := lazyOrder.Load(t); ok {
		return o.([]*Term)
	}
	var a, b []*Term
	for _, x := range t.args {
		app := false
		walk(x, map[*Term]bool{}, func(y *Term) {
			if y.op == OApp {
				app = true
			}
		})
		if app {
			b = append(b, x)
		} else {
			a = append(a, x)
		}
	}
	o := append(a, b...)
	lazyOrder.Store(t, o)
	return o
}

func init() {
	addUF("allgood", []*Sort{ListOf(SStr)}, SBool, func(a []Val) Val {
		for _, x := range a[0].(*LVal).el {
			s := x.(string)
			if s == "" || (strings.Contains("'\"`", s[:1]) && len(s) < 2) {
				return false
			}
		}
		return true
	})
	fold := func(a []Val) (int64, int64) {
		ev := NewEv()
		m, d := int64(0), int64(0)
		for _, x := range a[0].(*LVal).el {
			m2 := ev.Call(spec.Defs["cf.step"], m, d, x)
			d2 := ev.Call(spec.Defs["cf.depth"], m, d, x)
			m, d = m2.(int64), d2.(int64)
		}
		return m, d
	}
	addUF("mdL", []*Sort{ListOf(SStr)}, SInt, func(a []Val) Val { m, _ := fold(a); return m })
	addUF("dpL", []*Sort{ListOf(SStr)}, SInt, func(a []Val) Val { _, d := fold(a); return d })
}
