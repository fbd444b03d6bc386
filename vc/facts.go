package main

// A cheap decision procedure over the conditions of a path; it only prunes and
// simplifies, so being incomplete is harmless.

type PC struct {
	prev *PC
	t    *Term
}

func (p *PC) list() []*Term {
	var r []*Term
	for ; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type Facts struct {
	known map[*Term]bool
	in    map[*Term]*StrSet
	out   map[*Term]*StrSet
	ub    map[*Term]int64
}

func newFacts() *Facts {
	return &Facts{map[*Term]bool{}, map[*Term]*StrSet{}, map[*Term]*StrSet{}, map[*Term]int64{}}
}

func (f *Facts) copy() *Facts {
	n := newFacts()
	for k, v := range f.known {
		n.known[k] = v
	}
	for k, v := range f.in {
		n.in[k] = v
	}
	for k, v := range f.out {
		n.out[k] = v
	}
	for k, v := range f.ub {
		n.ub[k] = v
	}
	return n
}

func splitLin(x *Term) (*Term, int64) {
	if x.op == OLin && x.n != 0 {
		return AddC(x, -x.n), x.n
	}
	if x.op == OInt {
		return Int(0), x.n
	}
	return x, 0
}

// assume adds a condition known to hold; false if it contradicts.
func (f *Facts) assume(t *Term) bool {
	t = f.simp(t)
	if t == True {
		return true
	}
	if t == False {
		return false
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			if !f.assume(a) {
				return false
			}
		}
		return true
	case OIn:
		x := t.args[0]
		s := t.set
		if o := f.in[x]; o != nil {
			s = inter(s, o)
		}
		if o := f.out[x]; o != nil {
			s = minus(s, o)
		}
		if len(s.el) == 0 {
			return false
		}
		f.in[x] = s
	case OLe0:
		l, n := splitLin(t.args[0])
		if o, ok := f.ub[l]; !ok || -n < o {
			f.ub[l] = -n
		}
	case OEq:
		if t.args[0].sort == SInt && t.args[1].op == OInt {
			l, n := splitLin(t.args[0])
			f.ub[l] = t.args[1].n - n
			m := MulC(l, -1)
			f.ub[m] = -(t.args[1].n - n)
		}
	case ONot:
		a := t.args[0]
		if a.op == OOr {
			for _, b := range a.args {
				if !f.assume(Not(b)) {
					return false
				}
			}
			return true
		}
		if a.op == OIn {
			x := a.args[0]
			s := a.set
			if o := f.out[x]; o != nil {
				s = union(s, o)
			}
			f.out[x] = s
			if i := f.in[x]; i != nil {
				i = minus(i, s)
				if len(i.el) == 0 {
					return false
				}
				f.in[x] = i
			}
		}
		f.known[a] = false
		return true
	}
	f.known[t] = true
	return true
}

func (f *Facts) decide(t *Term) (bool, bool) {
	if v, ok := f.known[t]; ok {
		return v, true
	}
	switch t.op {
	case OIn:
		x := t.args[0]
		if s := f.in[x]; s != nil {
			if s.subset(t.set) {
				return true, true
			}
			if s.disjoint(t.set) {
				return false, true
			}
		}
		if s := f.out[x]; s != nil && t.set.subset(s) {
			return false, true
		}
	case OLe0:
		l, n := splitLin(t.args[0])
		if u, ok := f.ub[l]; ok && u+n <= 0 {
			return true, true
		}
		m := MulC(l, -1)
		if u, ok := f.ub[m]; ok && -u+n > 0 {
			return false, true
		}
	case OEq:
		if t.args[0].sort == SInt && t.args[1].op == OInt {
			l, n := splitLin(t.args[0])
			c := t.args[1].n - n
			if u, ok := f.ub[l]; ok && u < c {
				return false, true
			}
			if u, ok := f.ub[MulC(l, -1)]; ok && -u > c {
				return false, true
			}
		}
	}
	return false, false
}

func (f *Facts) simp(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.sort == SBool {
			if v, ok := f.decide(t); ok {
				return Bool(v)
			}
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OIte {
			c := rec(t.args[0])
			switch c {
			case True:
				r = rec(t.args[1])
			case False:
				r = rec(t.args[2])
			default:
				r = Ite(c, rec(t.args[1]), rec(t.args[2]))
			}
		} else {
			a := make([]*Term, len(t.args))
			ch := false
			for i, x := range t.args {
				a[i] = rec(x)
				ch = ch || a[i] != x
			}
			r = t
			if ch {
				r = rebuild(t, a)
			}
		}
		if r != t && r.sort == SBool {
			if v, ok := f.decide(r); ok {
				r = Bool(v)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
