package main

// Obligations to SMT-LIB. Specification functions are uninterpreted symbols
// plus ground instances of their definitions (and of proved lemmas); strings
// are an uninterpreted sort with pairwise distinct constants.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- solver processes ----

type solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startSolver(name string) (*solver, error) {
	var c *exec.Cmd
	if name == "cvc5" {
		c = exec.Command("cvc5", "--lang=smt2", "--incremental", "--tlimit-per=10000", "-q")
	} else {
		c = exec.Command(name, "-in", "-smt2", "memory_max_size=3000")
	}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &solver{c, in, bufio.NewReader(out)}, nil
}

func (s *solver) kill() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// ask sends one self-contained script and returns the answer to check-sat.
func (s *solver) ask(script string, timeout time.Duration) (string, error) {
	type rv struct {
		l string
		e error
	}
	ch := make(chan rv, 1)
	go func() {
		if _, e := io.WriteString(s.in, script); e != nil {
			ch <- rv{"", e}
			return
		}
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if e != nil || l == "sat" || l == "unsat" || l == "unknown" || strings.HasPrefix(l, "(error") {
				ch <- rv{l, e}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		return r.l, r.e
	case <-time.After(timeout):
		s.kill()
		r := <-ch
		_ = r
		return "timeout", fmt.Errorf("timeout")
	}
}

type Prover struct {
	name    string
	pool    chan *solver
	mu      sync.Mutex
	cache   map[[32]byte]bool
	queries int64
	cached  int64
	trivial int64
	nanos   int64
	timeout time.Duration
	opaque  map[*Def]bool // not unfolded unless needed
	log     func(string)
	stop    func() bool
	keep    bool
	goals   []string // scripts of discharged goals, for a second solver
	alt     *Prover  // asked when this one gives no answer
	altN    int64
}

func NewProver(name string, n int) *Prover {
	p := &Prover{name: name, pool: make(chan *solver, n), cache: map[[32]byte]bool{}, timeout: 10 * time.Second, opaque: map[*Def]bool{}}
	for i := 0; i < n; i++ {
		p.pool <- nil
	}
	if name == "z3-new" {
		p.alt = NewProver("z3", 4)
	}
	return p
}

func (p *Prover) Close() {
	if p.alt != nil {
		p.alt.Close()
	}
	for i := 0; i < cap(p.pool); i++ {
		select {
		case s := <-p.pool:
			if s != nil {
				s.kill()
			}
		default:
		}
	}
}

func (p *Prover) run(script string) string {
	h := sha256.Sum256([]byte(script))
	p.mu.Lock()
	if v, ok := p.cache[h]; ok {
		p.mu.Unlock()
		atomic.AddInt64(&p.cached, 1)
		if v {
			return "unsat"
		}
		return "sat"
	}
	p.mu.Unlock()
	s := <-p.pool
	defer func() { p.pool <- s }()
	var err error
	if s == nil {
		s, err = startSolver(p.name)
		if err != nil {
			return "error: " + err.Error()
		}
	}
	t0 := time.Now()
	r, err := s.ask(script, p.timeout+5*time.Second)
	atomic.AddInt64(&p.nanos, int64(time.Since(t0)))
	atomic.AddInt64(&p.queries, 1)
	if err != nil {
		s.kill()
		s = nil
		if r == "" {
			r = "error: " + err.Error()
		}
	}
	if r == "sat" || r == "unsat" {
		p.mu.Lock()
		p.cache[h] = r == "unsat"
		p.mu.Unlock()
	}
	if strings.HasPrefix(r, "(error") && p.log != nil {
		p.log(r + "\n" + script)
	}
	return r
}

// ---- encoding ----

type enc struct {
	b     strings.Builder
	names map[*Term]string
	sorts map[*Sort]bool
	adts  []*Sort
	decl  map[string]bool
	strs  map[string]*Term
	tail  strings.Builder
	n     int
}

func san(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "_%x_", c)
		}
	}
	return b.String()
}

func (e *enc) sort(s *Sort) string {
	switch s.Kind {
	case KInt:
		return "Int"
	case KBool:
		return "Bool"
	}
	e.sorts[s] = true
	return "S_" + san(s.Name)
}

func (e *enc) declare(name string, args []*Sort, ret *Sort) string {
	if !e.decl[name] {
		e.decl[name] = true
		var a []string
		for _, x := range args {
			a = append(a, e.sort(x))
		}
		fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", name, strings.Join(a, " "), e.sort(ret))
	}
	return name
}

func num(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

func (e *enc) term(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	var a []string
	for _, x := range t.args {
		a = append(a, e.term(x))
	}
	args := func() []*Sort {
		var r []*Sort
		for _, x := range t.args {
			r = append(r, x.sort)
		}
		return r
	}
	ap := func(f string) string {
		if len(a) == 0 {
			return f
		}
		return "(" + f + " " + strings.Join(a, " ") + ")"
	}
	var r string
	leaf := false
	switch t.op {
	case OVar:
		r, leaf = e.declare("v_"+san(t.s), nil, t.sort), true
	case OInt:
		r, leaf = num(t.n), true
	case OBool:
		r, leaf = "false", true
		if t.n == 1 {
			r = "true"
		}
	case OStr:
		r, leaf = e.declare(fmt.Sprintf("str_%d", t.id), nil, SStr), true
		e.strs[t.s] = t
	case OLin:
		p := []string{}
		if t.n != 0 {
			p = append(p, num(t.n))
		}
		for i := range a {
			if t.coefs[i] == 1 {
				p = append(p, a[i])
			} else {
				p = append(p, "(* "+num(t.coefs[i])+" "+a[i]+")")
			}
		}
		if len(p) == 1 {
			r = p[0]
		} else {
			r = "(+ " + strings.Join(p, " ") + ")"
		}
	case OLe0:
		r = "(<= " + a[0] + " 0)"
	case OAnd:
		r = ap("and")
	case OOr:
		r = ap("or")
	case ONot:
		r = ap("not")
	case OIte:
		r = ap("ite")
	case OEq:
		r = ap("=")
	case OIn:
		if len(t.set.el) > 40 {
			r = ap(e.declare(fmt.Sprintf("in_%d", t.set.id), []*Sort{SStr}, SBool))
		} else {
			var p []string
			for _, w := range t.set.el {
				p = append(p, "(= "+a[0]+" "+e.term(Str(w))+")")
			}
			r = p[0]
			if len(p) > 1 {
				r = "(or " + strings.Join(p, " ") + ")"
			}
		}
	case OCtor:
		e.sort(t.sort)
		r = ap("c_" + san(t.ctor.Name))
		leaf = len(a) == 0
	case OSel:
		e.sort(t.args[0].sort)
		r = ap(fmt.Sprintf("sel_%s_%d", san(t.ctor.Name), t.n))
	case OIs:
		e.sort(t.args[0].sort)
		r = "((_ is c_" + san(t.ctor.Name) + ") " + a[0] + ")"
	case OEmp, ONil:
		r, leaf = e.declare("emp_"+san(t.sort.Name), nil, t.sort), true
	case OSnoc:
		r = ap(e.declare("snoc_"+san(t.sort.Name), args(), t.sort))
	case OLen:
		r = ap(e.declare("len_"+san(t.args[0].sort.Name), args(), SInt))
	case OAt:
		r = ap(e.declare("at_"+san(t.args[0].sort.Name), args(), t.sort))
	case OUF:
		r = ap(e.declare("u_"+san(t.uf.Name), t.uf.Args, t.sort))
	case OApp:
		r = ap(e.declare("d_"+san(t.def.Name), args(), t.sort))
	default:
		panic(fmt.Sprint("smt op ", t.op))
	}
	if !leaf {
		e.n++
		n := fmt.Sprintf("n%d", e.n)
		fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, e.sort(t.sort), r)
		r = n
	}
	e.names[t] = r
	return r
}

// sortDecls: declarations of the sorts used.
func (e *enc) sortDecls() string {
	var b strings.Builder
	done := map[*Sort]bool{}
	var need func(s *Sort)
	var adts []*Sort
	need = func(s *Sort) {
		if done[s] || s.Kind == KInt || s.Kind == KBool {
			return
		}
		done[s] = true
		if s.Kind == KAdt {
			for _, c := range s.Ctors {
				for _, f := range c.Fields {
					need(f.Sort)
				}
			}
			adts = append(adts, s)
			return
		}
		fmt.Fprintf(&b, "(declare-sort S_%s 0)\n", san(s.Name))
	}
	var ss []*Sort
	for s := range e.sorts {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Name < ss[j].Name })
	for _, s := range ss {
		need(s)
	}
	for _, s := range adts {
		fmt.Fprintf(&b, "(declare-datatypes ((S_%s 0)) ((", san(s.Name))
		for _, c := range s.Ctors {
			fmt.Fprintf(&b, "(c_%s", san(c.Name))
			for i, f := range c.Fields {
				fmt.Fprintf(&b, " (sel_%s_%d %s)", san(c.Name), i, e.sort(f.Sort))
			}
			b.WriteString(") ")
		}
		b.WriteString(")))\n")
	}
	return b.String()
}

// axioms about built-in symbols, for the terms that occur.
func builtinAxioms(all []*Term) []*Term {
	var ax []*Term
	seenStr := map[*Term]bool{}
	var strs []*Term
	addStr := func(t *Term) {
		if !seenStr[t] {
			seenStr[t] = true
			strs = append(strs, t)
		}
	}
	ufs := map[*UF]bool{}
	bigsets := map[*StrSet]*Term{}
	pats := map[*Term]bool{}
	goods := map[*Term]bool{}
	eqc := map[*Term][]*Term{}
	for _, t := range all {
		if t.op == OEq && t.args[1].op == OInt {
			eqc[t.args[0]] = append(eqc[t.args[0]], t)
		}
	}
	for _, t := range all {
		if t.op == OUF && t.uf.Name == "allgood" {
			goods[t.args[0]] = true
		}
	}
	for _, t := range all {
		switch t.op {
		case OStr:
			addStr(t)
		case OIn:
			if len(t.set.el) <= 40 {
				for _, w := range t.set.el {
					addStr(Str(w))
				}
			} else {
				bigsets[t.set] = t
			}
		case OLen:
			ax = append(ax, Ge(t, Int(0)))
		case OSnoc:
			ln := rawLen(t)
			ax = append(ax, rawEq(ln, AddC(rawLen(t.args[0]), 1)))
			ax = append(ax, Ge(rawLen(t.args[0]), Int(0)))
		case OEmp:
			ax = append(ax, rawEq(rawLen(t), Int(0)))
		case OAt:
			if t.sort == SStr && goods[t.args[0]] {
				ag := Apply(UFs["allgood"], t.args[0])
				ax = append(ax, Implies(And(ag, Ge(t.args[1], Int(0)), Lt(t.args[1], Len(t.args[0]))), goodTok(t)))
			}
			if t.args[0].op == OSnoc {
				l := t.args[0]
				ax = append(ax, Eq(t, Ite(Eq(t.args[1], Len(l.args[0])), l.args[1], At(l.args[0], t.args[1]))))
			}
		case OUF:
			if len(t.uf.Args) == 1 && t.uf.Args[0] == SStr {
				ufs[t.uf] = true
			}
			switch t.uf.Name {
			case "rematch":
				if t.args[0].op == OStr {
					pats[t.args[0]] = true
				}
			case "strlen":
				ax = append(ax, Ge(t, Int(0)), Eq(Eq(t, Int(0)), Eq(t.args[0], Str(""))))
			case "chr":
				ax = append(ax, Ge(U("strlen", t), Int(1)))
				for _, q := range eqc[t.args[0]] {
					ax = append(ax, Implies(q, rawEq(t, U("chr", q.args[1]))))
				}
				for _, q := range []string{"\"", "'", "`"} {
					ax = append(ax, Eq(Eq(U("first", t), Str(q)), Eq(t.args[0], Int(int64(q[0])))))
				}
			case "cat":
				ax = append(ax, Eq(U("first", t), Ite(Eq(t.args[0], Str("")), U("first", t.args[1]), U("first", t.args[0]))))
				ax = append(ax, Implies(Eq(t.args[0], Str("")), rawEq(t, t.args[1])), Implies(Eq(t.args[1], Str("")), rawEq(t, t.args[0])))
				ax = append(ax, rawEq(rawUF("strlen", t), Add(U("strlen", t.args[0]), U("strlen", t.args[1]))))
			case "allgood":
				if l := t.args[0]; l.op == OSnoc {
					ax = append(ax, rawEq(t, And(Apply(t.uf, l.args[0]), goodTok(l.args[1]))))
				} else if l.op == OEmp {
					ax = append(ax, t)
				} else if l.op == OIte {
					ax = append(ax, rawEq(t, Ite(l.args[0], Apply(t.uf, l.args[1]), Apply(t.uf, l.args[2]))))
				}
			}
		}
	}
	ax = append(ax, catAxioms(all)...)
	for u := range ufs {
		for _, s := range strs {
			v := valTerm(u.Eval([]Val{s.s}), u.Ret)
			if v != nil && isVal(v) {
				ax = append(ax, rawEq(mk(&Term{op: OUF, sort: u.Ret, uf: u, args: []*Term{s}}), v))
			}
		}
	}
	for p := range pats {
		u := UFs["rematch"]
		for _, s := range strs {
			ax = append(ax, rawEq(mk(&Term{op: OUF, sort: SBool, uf: u, args: []*Term{p, s}}), Apply(u, p, s)))
		}
	}
	if len(bigsets) > 0 { // sets spelled out in the code, or compared with each other
		occ := map[string]bool{}
		for _, t := range strs {
			occ[t.s] = true
		}
		for set := range bigsets {
			n := 0
			for _, w := range set.el {
				if occ[w] {
					n++
				}
			}
			for o := range bigsets {
				if o != set {
					for _, w := range set.el {
						if o.has[w] {
							n += 2
						}
					}
				}
			}
			if n*4 < len(set.el) {
				continue
			}
			for _, t := range all {
				if t.op != OIn || t.set != set || t.args[0].op == OStr {
					continue
				}
				var eqs []*Term
				for _, w := range set.el {
					addStr(Str(w))
					eqs = append(eqs, mk(&Term{op: OEq, sort: SBool, args: []*Term{t.args[0], Str(w)}}))
				}
				ax = append(ax, rawEq(t, mk(&Term{op: OOr, sort: SBool, args: eqs})))
			}
		}
	}
	for set, t := range bigsets {
		for _, s := range strs {
			ax = append(ax, rawEq(mk(&Term{op: OIn, sort: SBool, args: []*Term{s}, set: t.set}), Bool(set.has[s.s])))
		}
	}
	return ax
}

// catAxioms: (a b) y = a (b y) where x y occurs and x unfolds to a b.
func catAxioms(all []*Term) []*Term {
	var cats []*Term
	body := map[*Term][]*Term{}
	var leaves func(x, t *Term)
	leaves = func(x, t *Term) {
		switch {
		case t.op == OIte:
			leaves(x, t.args[1])
			leaves(x, t.args[2])
		case t.op == OUF && t.uf.Name == "cat":
			for _, o := range body[x] {
				if o == t {
					return
				}
			}
			body[x] = append(body[x], t)
		}
	}
	for _, t := range all {
		switch {
		case t.op == OUF && t.uf.Name == "cat" && t.args[0].op == OApp:
			cats = append(cats, t)
		case t.op == OEq && t.args[0].sort == SStr:
			if t.args[0].op == OApp {
				leaves(t.args[0], t.args[1])
			}
			if t.args[1].op == OApp {
				leaves(t.args[1], t.args[0])
			}
		}
	}
	if len(body) == 0 {
		return nil
	}
	var ax []*Term
	done := map[*Term]bool{}
	for len(cats) > 0 && len(ax) < 400 {
		t := cats[0]
		cats = cats[1:]
		if done[t] {
			continue
		}
		done[t] = true
		for _, b := range body[t.args[0]] {
			n := U("cat", b, t.args[1])
			ax = append(ax, Implies(rawEq(t.args[0], b), rawEq(t, n)))
			for c := n; c.op == OUF && c.uf.Name == "cat"; c = c.args[1] {
				if c.args[0].op == OApp {
					cats = append(cats, c)
				}
			}
		}
	}
	return ax
}

func goodTok(t *Term) *Term { return App(spec.Defs["good"], t) }

func rawLen(l *Term) *Term { return mk(&Term{op: OLen, sort: SInt, args: []*Term{l}}) }
func rawUF(n string, a ...*Term) *Term {
	return mk(&Term{op: OUF, sort: UFs[n].Ret, uf: UFs[n], args: a})
}
func rawEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func match(pat, t *Term, m map[*Term]*Term) bool {
	if pat.op == OVar {
		if x, ok := m[pat]; ok {
			return x == t
		}
		if pat.sort != t.sort {
			return false
		}
		m[pat] = t
		return true
	}
	if pat == t {
		return true
	}
	if pat.op != t.op || pat.sort != t.sort || len(pat.args) != len(t.args) || pat.def != t.def || pat.uf != t.uf || pat.ctor != t.ctor || pat.n != t.n || pat.s != t.s {
		return false
	}
	if pat.op == OLin {
		return false
	}
	for i := range pat.args {
		if !match(pat.args[i], t.args[i], m) {
			return false
		}
	}
	return true
}

var dbgSlow = os.Getenv("SLOW") != ""

type Query struct {
	Hyps   []*Term
	Goal   *Term
	Roots  []*Term // applications to unfold first
	Rounds int     // extra rounds of unfolding everything
	Lem    LemSet
	NoInst map[*Term]bool // no lemma instances for these applications
	Max    int            // unfoldings
	Opaque map[*Def]bool
}

func (p *Prover) script(q *Query, rounds int) string {
	var asserts []*Term
	asserts = append(asserts, q.Hyps...)
	asserts = append(asserts, Not(q.Goal))
	unf := map[*Term]bool{}
	lem := map[string]bool{}
	seen := map[*Term]bool{}
	var all []*Term
	collect := func(ts []*Term) []*Term {
		var fresh []*Term
		for _, t := range ts {
			walk(t, seen, func(x *Term) { all = append(all, x); fresh = append(fresh, x) })
		}
		return fresh
	}
	gen := map[*Term]int{}
	count := 0
	unfold := func(t *Term) *Term {
		if unf[t] || count > q.max() {
			return nil
		}
		unf[t] = true
		count++
		return rawEq(t, Unfold(t.def, t.args))
	}
	fresh := collect(asserts)
	root := map[*Term]bool{}
	for _, r := range q.Roots {
		root[r] = true
		fresh = append(fresh, collect([]*Term{r})...)
	}
	// roots and transparent definitions to a fixed point, then rounds of everything
	level := 0
	for {
		var add []*Term
		for _, t := range fresh {
			if t.op != OApp {
				continue
			}
			if root[t] || (!p.opaque[t.def] && !q.Opaque[t.def] && !t.def.Rec) {
				if a := unfold(t); a != nil {
					add = append(add, a)
				}
			}
			for _, l := range q.Lem[t.def] {
				if q.NoInst[t] {
					continue
				}
				k := l.Name + fmt.Sprint(t.id)
				if !lem[k] && (l.Limit == 0 || gen[t] < l.Limit) {
					lem[k] = true
					if x := l.inst(t); x != nil && x != True {
						add = append(add, x)
						if l.Limit > 0 {
							for _, a := range apps(x) {
								if _, ok := gen[a]; !ok && !seen[a] {
									gen[a] = gen[t] + 1
								}
							}
						}
					}
				}
			}
		}
		if len(add) == 0 {
			if level >= rounds {
				break
			}
			level++
			for _, t := range append([]*Term{}, all...) {
				if t.op == OApp && !unf[t] {
					if a := unfold(t); a != nil {
						add = append(add, a)
					}
				}
			}
			if len(add) == 0 {
				break
			}
		}
		asserts = append(asserts, add...)
		fresh = collect(add)
	}
	for k := 0; k < 3; k++ {
		ax := builtinAxioms(all)
		n := len(all)
		collect(ax)
		if k == 2 || n == len(all) {
			asserts = append(asserts, ax...)
			break
		}
	}
	e := &enc{names: map[*Term]string{}, sorts: map[*Sort]bool{}, decl: map[string]bool{}, strs: map[string]*Term{}}
	var tail strings.Builder
	done := map[*Term]bool{}
	for _, a := range asserts {
		if a == True || done[a] {
			continue
		}
		done[a] = true
		fmt.Fprintf(&tail, "(assert %s)\n", e.term(a))
	}
	if len(e.strs) > 1 {
		var ws []string
		for w := range e.strs {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		tail.WriteString("(assert (distinct")
		for _, w := range ws {
			tail.WriteString(" " + e.names[e.strs[w]])
		}
		tail.WriteString("))\n")
	}
	head := "(reset)\n"
	if p.name == "cvc5" {
		head += "(set-logic ALL)\n"
	} else {
		head += fmt.Sprintf("(set-option :timeout %d)\n", p.timeout.Milliseconds())
	}
	return head + e.sortDecls() + e.b.String() + tail.String() + "(check-sat)\n"
}

// Prove decides hyps |- goal; the string is the solver's last answer.
func (p *Prover) Prove(q *Query) (bool, string) {
	if q.Goal == True {
		atomic.AddInt64(&p.trivial, 1)
		return true, "simplified"
	}
	for _, h := range q.Hyps {
		if h == False || h == q.Goal {
			atomic.AddInt64(&p.trivial, 1)
			return true, "simplified"
		}
	}
	if p.stop != nil && p.stop() {
		return false, "stopped"
	}
	last := ""
	prev := ""
	for r := 0; r <= q.Rounds; r++ {
		s := p.script(q, r)
		if s == prev {
			break
		}
		prev = s
		t0 := time.Now()
		last = p.run(s)
		if p.alt != nil && last != "sat" && last != "unsat" {
			if p.alt.run(s) == "unsat" {
				last = "unsat"
				atomic.AddInt64(&p.altN, 1)
			}
		}
		if d := time.Since(t0); dbgSlow && d > time.Second {
			g := q.Goal.String()
			if len(g) > 300 {
				g = g[:300]
			}
			fmt.Fprintln(os.Stderr, "SLOW", d, last, "round", r, "size", len(s), "GOAL", g)
			if os.Getenv("SLOWDIR") != "" {
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", os.Getenv("SLOWDIR"), time.Now().UnixNano()), []byte(s), 0644)
			}
		}
		if last == "unsat" {
			if p.keep {
				p.mu.Lock()
				p.goals = append(p.goals, s)
				p.mu.Unlock()
			}
			return true, "unsat"
		}
		if p.stop != nil && p.stop() {
			return false, "stopped"
		}
	}
	return false, last
}

func (q *Query) max() int {
	if q.Max > 0 {
		return q.Max
	}
	return 600
}
