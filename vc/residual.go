package main

// Continuations of grammar productions: what is left to match at a point inside
// a production. A loop that replaces recursion has its head at such a point,
// and its invariant says that the rest of the production, matched from there,
// gives what the whole gives from the start.

type gframe struct {
	xs  []*Sx
	env map[string]*Term
}

// residuals lists the continuations inside xs followed by rest, depth first.
func (sp *Spec) residuals(xs []*Sx, env map[string]*Term, rest []gframe, depth int, closed func(*NT) bool, out func([]gframe)) {
	for k, x := range xs {
		tail := append([]gframe{{xs[k+1:], env}}, rest...)
		if k > 0 {
			out(append([]gframe{{xs[k:], env}}, rest...))
		}
		if !x.isl || len(x.list) == 0 {
			continue
		}
		a := x.list[1:]
		in := func(ys []*Sx) {
			out(append([]gframe{{ys, env}}, tail...))
			sp.residuals(ys, env, tail, depth, closed, out)
		}
		switch x.head() {
		case "optdo":
			in(a[2:])
		case "if":
			in(a[1].list)
			if len(a) > 2 {
				in(a[2].list)
			}
		case "case":
			for _, cl := range a {
				in(cl.list[1:])
			}
		case "do":
			in(a)
		default:
			n := sp.NTs[x.head()]
			if n == nil || depth <= 0 || closed(n) {
				continue
			}
			e := map[string]*Term{}
			ok := true
			for j, p := range n.Params {
				switch y := a[j]; {
				case p.sort == SBool && !y.isl && (y.atom == "+" || y.atom == "-"):
					e[p.s] = Bool(y.atom == "+")
				case !y.isl && env[y.atom] != nil:
					e[p.s] = env[y.atom]
				default:
					ok = false
				}
			}
			if ok {
				if k == 0 {
					out(append([]gframe{{n.Stmts, e}}, tail...))
				}
				sp.residuals(n.Stmts, e, tail, depth-1, closed, out)
			}
		}
	}
	if len(rest) > 0 {
		out(rest)
	}
}

// match compiles frames from a point.
func (sp *Spec) matchFrames(fs []gframe, T *Term, g gst) gst {
	for _, f := range fs {
		c := &gctx{sp: sp, T: T, env: f.env}
		g = c.stmts(f.xs, g)
	}
	return g
}

// residualCands: candidate invariants for a loop inside the production of the
// contract, at cursor i with tokens r passed on so far.
func (c *cutState) residualCands(head map[string]*Term, hset map[*Term]bool) []*Term {
	e := c.e
	nt := e.C.nt
	if nt == nil || head["T"] == nil || head["i"] == nil || head["r"] == nil {
		return nil
	}
	var ok, end, em *Term
	for _, r := range e.roots {
		switch r.def {
		case nt.Ok:
			ok = r
		case nt.End:
			end = r
		case nt.Em:
			em = r
		}
	}
	if ok == nil || end == nil || em == nil {
		return nil
	}
	env := map[string]*Term{}
	for k, p := range nt.Em.Params {
		env[p.s] = em.args[k]
	}
	closed := func(n *NT) bool {
		if n == nt {
			return true
		}
		for _, o := range e.M.cs {
			if o.nt == n && o.fn != nil && !o.off {
				return true
			}
		}
		return false
	}
	var out []*Term
	seen := map[*Term]bool{}
	n := 0
	add := func(t *Term) {
		if t != True && t != False && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	spec.residuals(nt.Stmts, env, nil, 2, closed, func(fs []gframe) {
		if n > 60 {
			return
		}
		g := spec.matchFrames(fs, head["T"], gst{p: head["i"], r: head["r"]})
		o := g.ok()
		if seen[Eq(end, g.end())] {
			return
		}
		n++
		add(Eq(ok, o))
		add(Eq(end, g.end()))
		add(Implies(o, Eq(em, g.r)))
	})
	return out
}
