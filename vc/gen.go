package main

// Input generator for replay: derivations of the grammar in spec/*.sx, then
// token, character and layout mutations. It only proposes inputs; the
// specification evaluator judges them.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Tok struct {
	s    string
	name bool // a name position
	drop bool // not passed on
}

// Input is a proposed text; the rest says how it was made.
type Input struct {
	rd   string
	ddl  string
	toks []Tok
	opts [][2]int // token ranges that are optional in the grammar
	pure bool     // an unmutated derivation
}

type Dict struct {
	words []string // string constants of the specification
	novel []string // string constants of the current source that the specification does not have
	ints  []int    // integer constants of the current source
}

var dialects = []string{"SQLite", "PostgreSQL", "MySQL"}
var ntPrefix = map[string]string{"SQLite": "sq", "PostgreSQL": "pg", "MySQL": "my"}

// loadDict reads the constants of the source files under root.
func loadDict(sp *Spec, root string) *Dict {
	d := &Dict{}
	known := map[string]bool{}
	var rec func(x *Sx)
	rec = func(x *Sx) {
		if x.str {
			known[x.atom] = true
		}
		for _, y := range x.list {
			rec(y)
		}
	}
	for _, n := range sp.NTs {
		rec(n.sx)
	}
	for _, ws := range sp.Sets {
		for _, w := range ws {
			known[w] = true
		}
	}
	for _, w := range []string{"(", ")", ",", ".", ";", "\n", "-", "/", "*", "#", "<EOF>"} {
		known[w] = true
	}
	for w := range known {
		d.words = append(d.words, w)
	}
	sort.Strings(d.words)
	seen := map[string]bool{}
	ints := map[int]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.STRING:
				s, err := strconv.Unquote(b.Value)
				if err == nil && s != "" && !strings.HasPrefix(b.Value, "`json") && !known[s] && !known[strings.ToUpper(s)] && !seen[s] {
					seen[s] = true
					d.novel = append(d.novel, s)
				}
			case token.CHAR:
				s, err := strconv.Unquote(b.Value)
				if err == nil && !known[s] && !seen[s] {
					seen[s] = true
					d.novel = append(d.novel, s)
				}
			case token.INT:
				n, err := strconv.ParseInt(b.Value, 0, 64)
				if err == nil && n > 1 && n <= 5000 {
					ints[int(n)] = true
				}
			}
			return true
		})
		return nil
	})
	sort.Strings(d.novel)
	for n := range ints {
		d.ints = append(d.ints, n)
	}
	sort.Ints(d.ints)
	return d
}

type Gen struct {
	r     *rand.Rand
	sp    *Spec
	d     *Dict
	rd    string
	px    string
	toks  []Tok
	opts  [][2]int
	force []string
	used  map[string]bool
	depth int
	exot  float64 // how often names, literals and numbers are unusual
	reps  int     // extra repetitions wanted somewhere
	dropP float64 // probability of optional clauses
	same  float64 // how often a name is one used before in this input
	pool  []string

	focus map[string]bool // nonterminals to visit
	rds   []string        // dialects to concentrate on
	reach map[*NT]bool    // nonterminals that lead to one in focus
	seek  bool            // not visited yet
	at    [][2]int        // token ranges made by nonterminals in focus
}

// setFocus makes the generator visit some nonterminals more often.
func (g *Gen) setFocus(f map[string]bool) {
	g.focus, g.reach, g.rds = map[string]bool{}, map[*NT]bool{}, nil
	for _, rd := range dialects {
		if f[rd] {
			g.rds = append(g.rds, rd)
		}
	}
	for k := range f {
		if g.sp.NTs[k] != nil {
			g.focus[k] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, n := range g.sp.NTs {
			if !g.reach[n] && (g.focus[n.Name] || g.leads(n.Stmts)) {
				g.reach[n] = true
				changed = true
			}
		}
	}
}

func (g *Gen) leads(xs []*Sx) bool {
	for _, x := range xs {
		if !x.isl {
			continue
		}
		if n := g.sp.NTs[x.head()]; n != nil && g.reach[n] {
			return true
		}
		if g.leads(x.list) {
			return true
		}
	}
	return false
}


func (g *Gen) pick(xs []string) string { return xs[g.r.Intn(len(xs))] }
func (g *Gen) p(x float64) bool        { return g.r.Float64() < x }

func (g *Gen) count() int { // a size, sometimes near a constant of the source
	if g.p(0.1) && len(g.d.ints) > 0 {
		c := g.d.ints[g.r.Intn(len(g.d.ints))]
		if c <= 300 {
			return c - 1 + g.r.Intn(3)
		}
	}
	if g.p(0.05) {
		return 5 + g.r.Intn(60)
	}
	return g.r.Intn(4)
}

func (g *Gen) mixCase(s string) string {
	switch k := g.r.Intn(20); {
	case k < 12:
		return strings.ToUpper(s)
	case k < 19:
		return strings.ToLower(s)
	}
	if !g.p(g.exot) {
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if g.p(0.5) {
			b[i] = strings.ToLower(string(b[i]))[0]
		} else {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

var oddText = []string{"", " ", ",", ")", "(", ";", "--", "/*", "*/", "#", "\n", "\r\n", "a b", "x;y", "select", "PRIMARY KEY", "/* c */", "-- x\n", "é", "日本", "\\", "%", "a.b", "1.5", "<EOF>", "\t", "NULL", "''", "\"", "`", "'"}

func (g *Gen) content(q string) string {
	s := ""
	for k := g.r.Intn(4); k >= 0; k-- {
		switch g.r.Intn(4) {
		case 0:
			s += g.pick(oddText)
		case 1:
			s += g.word()
		case 2:
			s += g.plain()
		default:
			if len(g.d.novel) > 0 {
				s += g.pick(g.d.novel)
			}
		}
	}
	if g.p(0.03) {
		s += strings.Repeat("y", g.count()*3)
	}
	return strings.ReplaceAll(s, q, "")
}

func (g *Gen) plain() string {
	n := "abcdefgxyz_"[g.r.Intn(11):]
	s := n[:1]
	for g.p(0.5) {
		s += string("abcxyz019_"[g.r.Intn(10)])
	}
	if g.p(0.2) {
		s = strings.ToUpper(s)
	}
	if g.p(0.01) {
		s += strings.Repeat("q", g.count())
	}
	return s + strconv.Itoa(g.r.Intn(30))
}

func (g *Gen) word() string {
	if len(g.d.novel) > 0 && g.p(0.2) {
		w := g.pick(g.d.novel)
		switch g.r.Intn(3) {
		case 0:
			return strings.ToUpper(w)
		case 1:
			return strings.ToLower(w)
		}
		return w
	}
	return g.mixCase(g.pick(g.d.words))
}

func (g *Gen) quotes() []string {
	switch g.rd {
	case "PostgreSQL":
		return []string{"\""}
	case "MySQL":
		return []string{"`"}
	}
	return []string{"\"", "`"}
}

func (g *Gen) name() string {
	if len(g.pool) > 0 && g.p(g.same) {
		s := g.pick(g.pool)
		switch g.r.Intn(12) {
		case 0:
			return g.mixCase(s)
		case 1:
			if !isQuoted(s) {
				q := g.pick(g.quotes())
				return q + s + q
			}
		}
		return s
	}
	s := g.name1()
	if len(g.pool) < 6 {
		g.pool = append(g.pool, s)
	}
	return s
}

func (g *Gen) name1() string {
	if !g.p(g.exot) {
		if g.p(0.12) {
			q := g.pick(g.quotes())
			return q + g.plain() + q
		}
		return g.plain()
	}
	switch g.r.Intn(9) {
	case 0, 1:
		q := g.pick(g.quotes())
		return q + g.content(q) + q
	case 2, 3:
		return g.word()
	case 4:
		q := g.pick([]string{"\"", "`", "'"})
		return q + g.content(q) + q
	case 5:
		return g.pick([]string{"_", "_a", "a_", "A1", "1a", "é", "aé", "a$", "$a", "a-b", "日本", "ﬁ", "a@b", "a#b", "[a]", "123", "1.5", "-", "*", "a*b", "<EOF>", "a/b", "=", "=a"})
	case 6:
		w := g.word()
		return w + g.pick([]string{"_", "1", "s", "x"})
	case 7:
		return "_" + g.word()
	}
	return g.plain()
}

func (g *Gen) number() string {
	return g.pick([]string{"0", "1", "10", "255", "1.5", "0.5", "-3", "-1.25", "+7", "1e5", "1E-3", ".5", "5.", "0x1F", "007", "1_000", "99999999999999999999", "1.5.2", "Inf", "nan", "infinity", "1..2", "-", "3.14159", "100.00"})
}

func (g *Gen) literal() string {
	if !g.p(g.exot) {
		switch g.r.Intn(3) {
		case 0:
			return g.pick([]string{"0", "1", "42", "1.5", "-3"})
		case 1:
			return "'" + g.plain() + "'"
		}
		return g.mixCase(g.pick([]string{"NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"}))
	}
	switch g.r.Intn(5) {
	case 0, 1:
		return g.number()
	case 2, 3:
		q := g.pick([]string{"'", "'", "\"", "`"})
		return q + g.content(q) + q
	}
	return g.word()
}

func (g *Gen) digits() string {
	if !g.p(g.exot) {
		return g.pick([]string{"1", "5", "10", "255", "20"})
	}
	return g.pick([]string{"0", "-1", "+5", "1.5", "007", "00", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999", "x", "'5'", "1e2", "0x10", "", "1_0"})
}

func (g *Gen) put(s string, name, drop bool) {
	g.force = nil
	if s != "" {
		g.toks = append(g.toks, Tok{s, name, drop})
	}
}

func inter2(a, b []string) []string {
	var r []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				r = append(r, x)
			}
		}
	}
	return r
}

func (g *Gen) sxWords(xs []*Sx) []string {
	var ws []string
	for _, x := range xs {
		if !x.str && strings.HasPrefix(x.atom, "@") {
			ws = append(ws, g.sp.Sets[x.atom[1:]]...)
		} else {
			ws = append(ws, x.atom)
		}
	}
	return ws
}

func (g *Gen) emode(e *Sx, env map[string]bool) bool { // dropped?
	switch e.atom {
	case "+":
		return false
	case "-":
		return true
	}
	return !env[e.atom]
}

// firsts of a condition: token sets that make it true (nil if unknown)
func (g *Gen) peekSet(x *Sx) []string {
	switch x.head() {
	case "peek":
		return g.sxWords(x.list[1:])
	case "or":
		var r []string
		for _, y := range x.list[1:] {
			r = append(r, g.peekSet(y)...)
		}
		return r
	case "and":
		for _, y := range x.list[1:] {
			if r := g.peekSet(y); r != nil {
				return r
			}
		}
	}
	return nil
}

func (g *Gen) stmts(xs []*Sx, env map[string]bool) {
	for _, x := range xs {
		g.stmt(x, env)
	}
}

func (g *Gen) tok(ks []string, drop bool) {
	if g.force != nil {
		if f := inter2(g.force, ks); f != nil {
			ks = f
		}
	}
	g.put(g.mixCase(g.pick(ks)), false, drop)
}

func (g *Gen) stmt(x *Sx, env map[string]bool) {
	a := x.list[1:]
	switch x.head() {
	case "tok":
		g.tok(g.sxWords(a[1:]), g.emode(a[0], env))
	case "take":
		drop := g.emode(a[0], env)
		h := a[1].head()
		switch {
		case strings.HasSuffix(h, ".name"):
			g.put(g.name(), true, drop)
		case strings.HasSuffix(h, ".literal"):
			g.put(g.literal(), false, drop)
		case strings.HasSuffix(h, ".string"):
			q := g.pick([]string{"'", "\""})
			if g.p(g.exot) {
				g.put(q+g.content(q)+q, false, drop)
			} else {
				g.put(q+g.plain()+q, false, drop)
			}
		case h == "posInt":
			g.put(g.digits(), false, drop)
		default:
			g.put(g.plain(), false, drop)
		}
	case "any":
		drop := g.emode(a[0], env)
		if g.force != nil {
			g.put(g.mixCase(g.pick(g.force)), false, drop)
		} else {
			g.put(g.plain(), false, drop)
		}
	case "opt":
		ks := g.sxWords(a[1:])
		if g.force != nil {
			if inter2(g.force, ks) != nil {
				g.tok(ks, g.emode(a[0], env))
			}
			return
		}
		if g.p(g.dropP) {
			s := len(g.toks)
			g.tok(ks, g.emode(a[0], env))
			g.opts = append(g.opts, [2]int{s, len(g.toks)})
		}
	case "optdo":
		ks := g.sxWords(a[1].list)
		take := false
		if g.force != nil {
			take = inter2(g.force, ks) != nil
		} else {
			take = g.p(g.dropP)
			if g.seek && g.p(0.95) && g.leads(a[2:]) {
				take = true
			}
			if len(g.toks) > 400 || g.depth > 400 {
				take = false
			} else if ks[0] == "," && g.reps > 0 {
				take, g.reps = true, g.reps-1
			}
		}
		if take {
			s := len(g.toks)
			g.tok(ks, g.emode(a[0], env))
			g.stmts(a[2:], env)
			g.opts = append(g.opts, [2]int{s, len(g.toks)})
		}
	case "if":
		g.branch([]*Sx{{isl: true, list: append([]*Sx{a[0]}, a[1].list...)}}, elseOf(a), env)
	case "case":
		var cl []*Sx
		var el *Sx
		for _, c := range a {
			if !c.list[0].isl && c.list[0].atom == "else" {
				el = c
			} else {
				cl = append(cl, c)
			}
		}
		if el != nil {
			g.branch(cl, el.list[1:], env)
		} else {
			g.branch(cl, nil, env)
		}
	case "fail", "emit":
	case "do":
		g.stmts(a, env)
	case "let":
		g.stmts(a[1:], env)
	default:
		g.nt(g.sp.NTs[x.head()], a, env)
	}
}

func elseOf(a []*Sx) []*Sx {
	if len(a) > 2 {
		return a[2].list
	}
	return []*Sx{}
}

// branch chooses a clause; el == nil means that one of them has to be taken.
func (g *Gen) branch(cl []*Sx, el []*Sx, env map[string]bool) {
	type cand struct {
		c  *Sx
		ks []string
	}
	var cs []cand
	for _, c := range cl {
		h := c.list[0]
		if h.head() == "mem" || h.head() == "at-end" {
			continue
		}
		if h.head() == "or" && h.list[1].head() == "at-end" { // (or (at-end) (peek ";"))
			if g.force == nil && g.p(0.6) {
				g.force = []string{";"}
				return
			}
			if g.force != nil && inter2(g.force, []string{";"}) != nil {
				return
			}
			continue
		}
		ks := g.peekSet(h)
		if ks == nil {
			continue
		}
		if g.force != nil {
			ks = inter2(ks, g.force)
			if ks == nil {
				continue
			}
		}
		cs = append(cs, cand{c, ks})
	}
	take := len(cs) > 0
	opt := el != nil
	if g.seek && g.force == nil && g.p(0.95) {
		var to []cand
		for _, c := range cs {
			if g.leads(c.c.list[1:]) {
				to = append(to, c)
			}
		}
		if len(to) > 0 {
			cs, el = to, nil
		} else if el != nil && g.leads(el) {
			take = false
		}
	}
	if take && el != nil {
		if g.force != nil {
			take = g.p(0.9)
		} else {
			take = g.p(g.dropP)
			if len(g.toks) > 400 || g.depth > 400 {
				take = false
			}
		}
	}
	if !take {
		if el != nil {
			if len(cl) == 1 && cl[0].list[0].head() == "at-end" && g.p(0.1) {
				return
			}
			g.stmts(el, env)
		}
		return
	}
	c := cs[g.r.Intn(len(cs))]
	ks := c.ks
	if len(ks) > 2 && len(g.used) < len(ks) {
		var f []string
		for _, k := range ks {
			if !g.used[k] {
				f = append(f, k)
			}
		}
		if len(f) > 0 && g.p(0.97) {
			ks = f
		}
	}
	k := g.pick(ks)
	g.used[k] = true
	if k == "NOT" {
		g.used["NULL"] = true
	}
	g.force = []string{k}
	s := len(g.toks)
	g.stmts(c.c.list[1:], env)
	if opt {
		g.opts = append(g.opts, [2]int{s, len(g.toks)})
	}
}

func (g *Gen) nt(n *NT, args []*Sx, env map[string]bool) {
	g.depth++
	defer func() { g.depth-- }()
	e := map[string]bool{}
	for i, p := range n.Params {
		if p.sort == SBool {
			switch args[i].atom {
			case "+", "true":
				e[p.s] = true
			case "-", "false":
			default:
				e[p.s] = env[args[i].atom]
			}
		}
	}
	switch {
	case n.Name == "BracketsRest":
		g.exprTokens(!e["set"], 0)
		g.force = nil
		return
	case n.Name == "SkipBody":
		g.skipBody()
		return
	case strings.HasSuffix(n.Name, ".ColCons"):
		g.used = map[string]bool{}
	}
	if g.focus[n.Name] {
		g.seek = false
		s := len(g.toks)
		g.stmts(n.Stmts, e)
		g.at = append(g.at, [2]int{s, len(g.toks)})
		return
	}
	g.stmts(n.Stmts, e)
}

func (g *Gen) exprTokens(drop bool, d int) {
	n0 := g.r.Intn(4)
	if d == 0 {
		n0 = g.count()
	}
	for k := n0; k > 0 && len(g.toks) < 400; k-- {
		switch g.r.Intn(8) {
		case 0:
			if d < 8 {
				g.put("(", false, drop)
				g.exprTokens(drop, d+1)
				g.put(")", false, drop)
			}
		case 1:
			g.put(g.literal(), false, drop)
		case 2:
			g.put(g.pick([]string{">", "=", "<>", "+", "-", "*", "/", ",", ".", ";", "||"}), false, drop)
		case 3:
			g.put(g.word2(), false, drop)
		case 4:
			g.put(g.number(), false, drop)
		default:
			g.put(g.plain(), false, drop)
		}
	}
	if d == 0 && g.p(0.03) { // deep nesting
		n := g.count()
		for i := 0; i < n; i++ {
			g.put("(", false, drop)
		}
		for i := 0; i < n; i++ {
			g.put(")", false, drop)
		}
	}
}

func (g *Gen) word2() string {
	for i := 0; i < 5; i++ {
		w := g.word()
		if !strings.ContainsAny(w, "()'\"`;\n") {
			return w
		}
	}
	return "x"
}

func (g *Gen) skipBody() {
	g.force = nil
	n := g.r.Intn(12)
	for k := 0; k < n; k++ {
		switch g.r.Intn(10) {
		case 0:
			g.put(g.mixCase("BEGIN"), false, true)
			for j := g.r.Intn(6); j > 0; j-- {
				g.put(g.pick([]string{";", "x", "CREATE", "TABLE", "(", ")", "select", "1", "begin", "BEGIN"}), false, true)
			}
			if g.p(0.9) {
				g.put(g.mixCase("END"), false, true)
			}
		case 1:
			g.put(g.literal(), false, true)
		case 2:
			g.put(g.word2(), false, true)
		case 3:
			g.put(g.pick([]string{"(", ")", ",", ".", "=", "*", "$$", "end", "END"}), false, true)
		case 4:
			for _, w := range []string{"CREATE", "TABLE", "t", "(", "a", "INTEGER", ")"} {
				g.put(w, false, true)
			}
		default:
			g.put(g.plain(), false, true)
		}
	}
}

// derive makes a script.
func (g *Gen) derive() {
	g.toks, g.opts, g.force, g.depth = nil, nil, nil, 0
	g.seek, g.at = len(g.focus) > 0, nil
	g.used = map[string]bool{}
	n := 1
	if g.p(0.3) {
		n = g.r.Intn(4)
	}
	if g.p(0.01) {
		n = g.count()
	}
	for i := 0; i < n; i++ {
		g.force = nil
		ddl := g.sp.NTs[g.px+".Ddl"]
		if g.p(0.8) { // a table
			g.put(g.mixCase("CREATE"), false, true)
			if g.rd == "SQLite" && g.p(0.1) {
				g.put(g.mixCase(g.pick([]string{"TEMP", "TEMPORARY"})), false, true)
				g.opts = append(g.opts, [2]int{len(g.toks) - 1, len(g.toks)})
			}
			g.nt(g.sp.NTs[g.px+".CreateTable"], nil, nil)
		} else {
			s := len(g.toks)
			g.nt(ddl, nil, nil)
			g.opts = append(g.opts, [2]int{s, len(g.toks)})
		}
	}
}

func isPunct(s string) bool { return len(s) == 1 && strings.Contains("(),.;", s) }
func isQuoted(s string) bool {
	return len(s) >= 2 && strings.Contains("'\"`", s[:1]) && s[len(s)-1] == s[0]
}

func (g *Gen) gap(must bool, level int) string {
	if level == 0 {
		return " "
	}
	s := ""
	if level == 1 {
		if must || g.p(0.3) {
			s = g.pick([]string{" ", "\n", "  ", "\t", " \n "})
		}
		return s
	}
	k := g.r.Intn(3)
	if must {
		k++
	}
	for ; k > 0; k-- {
		switch g.r.Intn(9) {
		case 0, 1, 2:
			s += " "
		case 3:
			s += "\n"
		case 4:
			s += g.pick([]string{"\t", "\r\n", "\n\n", " \n\t", "\r"})
		case 5:
			s += "--" + g.comment("\n") + "\n"
		case 6, 7:
			s += "/*" + g.comment("*/") + "*/"
		case 8:
			if g.rd == "MySQL" {
				s += "#" + g.comment("\n") + "\n"
			} else {
				s += " "
			}
		}
	}
	return s
}

func (g *Gen) comment(stop string) string {
	s := ""
	for k := g.r.Intn(4); k > 0; k-- {
		s += g.pick([]string{"", " ", "x", "*", "**", "/", "//", "-", "--", "'", "\"", "`", ";", "(", ")", "\n", "#", "/*", "CREATE TABLE", "é", "　", ",", "\r", "a b", "* /", "\t"})
		if len(g.d.novel) > 0 && g.p(0.1) {
			s += g.pick(g.d.novel)
		}
	}
	if g.p(0.01) {
		s += strings.Repeat("-", g.count())
	}
	for strings.Contains(s, stop) {
		s = strings.ReplaceAll(s, stop, "")
	}
	if stop == "*/" && strings.HasSuffix(s, "*") && g.p(0.5) {
		s += " "
	}
	return s
}

func (g *Gen) render(ts []Tok, level int) string {
	var b strings.Builder
	if level > 0 && g.p(0.3) {
		b.WriteString(g.gap(false, level))
	}
	for i, t := range ts {
		if i > 0 {
			a := ts[i-1].s
			must := !(isPunct(a) || isPunct(t.s) || (isQuoted(a) && g.p(0.3)) || (isQuoted(t.s) && g.p(0.3)))
			b.WriteString(g.gap(must, level))
		}
		b.WriteString(t.s)
	}
	if level > 0 && g.p(0.3) {
		b.WriteString(g.gap(false, level))
		if g.p(0.2) {
			b.WriteString("-- end")
		}
	}
	return b.String()
}

func (g *Gen) mutTokens(ts []Tok) []Tok {
	ts = append([]Tok{}, ts...)
	if len(g.opts) > 0 && g.p(0.3) { // repeat, move or drop an optional clause
		o := g.opts[g.r.Intn(len(g.opts))]
		run := append([]Tok{}, ts[o[0]:o[1]]...)
		rest := append(append([]Tok{}, ts[:o[0]]...), ts[o[1]:]...)
		switch g.r.Intn(4) {
		case 0, 1:
			return append(append(append([]Tok{}, ts[:o[1]]...), run...), ts[o[1]:]...)
		case 2:
			return rest
		}
		p := o[0] - 3 + g.r.Intn(8)
		if p < 0 {
			p = 0
		}
		if p > len(rest) {
			p = len(rest)
		}
		return append(append(append([]Tok{}, rest[:p]...), run...), rest[p:]...)
	}
	for k := 1 + g.r.Intn(2); k > 0 && len(ts) > 0; k-- {
		i := g.r.Intn(len(ts))
		if len(g.at) > 0 && g.p(0.7) {
			o := g.at[g.r.Intn(len(g.at))]
			if i = o[0] + g.r.Intn(o[1]-o[0]+2); i >= len(ts) {
				i = len(ts) - 1
			}
		}
		switch g.r.Intn(8) {
		case 0:
			ts = append(ts[:i], ts[i+1:]...)
		case 1:
			ts = append(ts[:i+1], ts[i:]...)
		case 2:
			j := g.r.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 3:
			ts = ts[:i]
		case 4:
			ts = append(ts[:i+1], ts[i:]...)
			ts[i] = Tok{s: g.anyTok()}
		case 5: // duplicate a run
			j := i + g.r.Intn(4)
			if j > len(ts) {
				j = len(ts)
			}
			run := append([]Tok{}, ts[i:j]...)
			ts = append(append(append([]Tok{}, ts[:j]...), run...), ts[j:]...)
		case 6: // move a run
			j := i + g.r.Intn(4)
			if j > len(ts) {
				j = len(ts)
			}
			run := append([]Tok{}, ts[i:j]...)
			rest := append(append([]Tok{}, ts[:i]...), ts[j:]...)
			p := 0
			if len(rest) > 0 {
				p = g.r.Intn(len(rest))
			}
			ts = append(append(append([]Tok{}, rest[:p]...), run...), rest[p:]...)
		default:
			ts[i] = Tok{s: g.anyTok()}
		}
	}
	return ts
}

func (g *Gen) anyTok() string {
	switch g.r.Intn(8) {
	case 0:
		return g.pick([]string{"(", ")", ",", ".", ";", "="})
	case 1:
		return g.literal()
	case 2:
		return g.name()
	case 3:
		return g.digits() + "x"[:g.r.Intn(2)]
	case 4:
		return g.plain()
	}
	return g.word2()
}

func (g *Gen) mutChars(s string) string {
	rs := []rune(s)
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		i := 0
		if len(rs) > 0 {
			i = g.r.Intn(len(rs))
		}
		ins := []rune(g.pick([]string{"'", "\"", "`", "-", "--", "/", "*", "/*", "*/", "#", "\n", "\r", " ", "\t", "　", ".", ",", "(", ")", ";", "é", "\x00", "\uFFFD", "1", "a", "-- ", "/**/", "\xff", "\u00a0", "\u2028", "1.5"}))
		switch g.r.Intn(4) {
		case 0, 1:
			rs = append(append(append([]rune{}, rs[:i]...), ins...), rs[i:]...)
		case 2:
			if len(rs) > 0 {
				rs = append(append([]rune{}, rs[:i]...), rs[i+1:]...)
			}
		case 3:
			if g.p(0.5) {
				rs = rs[:i]
			} else if len(rs) > 0 {
				rs = append(append(append([]rune{}, rs[:i]...), ins...), rs[i+1:]...)
			}
		}
	}
	return string(rs)
}

// next proposes an input.
func (g *Gen) next() *Input {
	g.rd = dialects[g.r.Intn(3)]
	if len(g.rds) > 0 && g.p(0.9) {
		g.rd = g.pick(g.rds)
	}
	if g.p(0.005) {
		g.rd = g.pick([]string{"", "Oracle", "sqlite"})
	}
	g.px = ntPrefix[g.rd]
	if g.px == "" {
		g.px = "sq"
	}
	g.exot = []float64{0, 0.05, 0.2}[g.r.Intn(3)]
	g.dropP = []float64{0.15, 0.35, 0.6}[g.r.Intn(3)]
	g.same = []float64{0, 0.2, 0.8}[g.r.Intn(3)]
	g.pool = g.pool[:0]
	g.reps = 0
	if g.p(0.15) {
		g.reps = g.count()
	}
	g.derive()
	in := &Input{rd: g.rd, toks: g.toks, opts: g.opts, pure: true}
	level := g.r.Intn(3)
	switch k := g.r.Intn(20); {
	case k < 11:
	case k < 16:
		in.toks = g.mutTokens(in.toks)
		in.opts, in.pure = nil, false
	default:
		in.ddl = g.mutChars(g.render(in.toks, level))
		in.toks, in.opts, in.pure = nil, nil, false
		return in
	}
	in.ddl = g.render(in.toks, level)
	return in
}
