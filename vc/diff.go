package main

// Replay: runs the real code (through the driver) next to the specification
// evaluator and decides, per property, whether an input refutes it.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Req struct {
	Op   string `json:",omitempty"`
	Fn   string `json:",omitempty"`
	Rd   string
	Ddl  []byte
	Rep  int   `json:",omitempty"`
	More []Req `json:",omitempty"`
}

type Res struct {
	Panic string
	Hang  bool
	Crash string
	Nil   bool
	Tab   interface{}
	Err   string
	Line  int
	Near  string
	Msg   string
	Diff  string
}

func (r *Res) bad() bool { return r.Panic != "" || r.Hang || r.Crash != "" }
func (r *Res) ok() bool  { return !r.bad() && r.Err == "" }

type Driver struct {
	bin  string
	env  []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	enc  *json.Encoder
	dec  *json.Decoder
	errb *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (d *Driver) start() error {
	d.cmd = exec.Command(d.bin)
	d.cmd.Env = append(os.Environ(), append([]string{"GOMAXPROCS=2", "GOTRACEBACK=single"}, d.env...)...)
	d.errb = &tail{}
	d.cmd.Stderr = d.errb
	var err error
	d.in, err = d.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := d.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := d.cmd.Start(); err != nil {
		return err
	}
	d.enc = json.NewEncoder(d.in)
	d.dec = json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	d.dec.UseNumber()
	return nil
}

func (d *Driver) stop() {
	if d.cmd != nil {
		d.in.Close()
		d.cmd.Process.Kill()
		d.cmd.Wait()
		d.cmd = nil
	}
}

func (d *Driver) Call(q Req) Res {
	if d.cmd == nil {
		if err := d.start(); err != nil {
			panic(err)
		}
	}
	var r Res
	err := d.enc.Encode(q)
	if err == nil {
		err = d.dec.Decode(&r)
	}
	if err != nil {
		d.in.Close()
		d.cmd.Wait()
		d.cmd = nil
		m := string(d.errb.b)
		if len(m) > 600 {
			m = m[:600]
		}
		return Res{Crash: "process ended: " + m}
	}
	if r.Hang {
		d.stop()
	}
	return r
}

// buildDriver builds the driver against the code in repo.
func buildDriver(verif, repo, out string, race bool) error {
	dir := out + ".src"
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	src := filepath.Join(verif, "driver")
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		if e.Name() == "go.mod" {
			b = []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo))
		}
		if err := os.WriteFile(filepath.Join(dir, e.Name()), b, 0644); err != nil {
			return err
		}
	}
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	c := exec.Command("go", append(args, ".")...)
	c.Dir = dir
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

// tree turns an evaluated value into what the driver prints.
func tree(v Val) interface{} {
	switch x := v.(type) {
	case int64:
		return json.Number(strconv.FormatInt(x, 10))
	case *LVal:
		l := []interface{}{}
		for _, e := range x.el {
			l = append(l, tree(e))
		}
		return l
	case *AVal:
		switch x.c.Name {
		case "anil":
			return map[string]interface{}{"k": "nil"}
		case "afloat":
			f := x.f[0].(float64)
			s := strconv.FormatFloat(f, 'g', -1, 64)
			if math.IsNaN(f) {
				s = "NaN"
			}
			return map[string]interface{}{"k": "float", "v": s}
		case "astr":
			return map[string]interface{}{"k": "string", "v": x.f[0]}
		case "abool":
			return map[string]interface{}{"k": "bool", "v": x.f[0]}
		}
		m := map[string]interface{}{}
		for i, f := range x.c.Fields {
			m[f.Name] = tree(x.f[i])
		}
		return m
	}
	return v
}

type SpecRes struct {
	Res
	lexed bool
	toks  []string
}

// specParse evaluates the specification; ok=false if it gave up (too large).
func specParse(sp *Spec, ddl, rd string) (sr *SpecRes, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalLimit); is {
				sr, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	ev := NewEv()
	sr = &SpecRes{}
	D := UFs["runes"].Eval([]Val{ddl})
	lx := ev.Call(sp.Defs["lexS"], rd, D, int64(0), "", &LVal{}).(*AVal)
	if lx.c.Name == "LexOk" {
		sr.lexed = true
		for _, t := range lx.f[0].(*LVal).el {
			sr.toks = append(sr.toks, t.(string))
		}
	}
	o := ev.Call(sp.Defs["parse"], ddl, rd).(*AVal)
	sr.Tab = tree(o.f[0])
	e := o.f[1].(*AVal)
	if e.c.Name == "VE" {
		sr.Err, sr.Line, sr.Near = "VE", int(e.f[0].(int64)), e.f[1].(string)
	}
	return sr, true
}

func canonText(toks []string) string {
	var r []string
	for _, t := range toks {
		if t != "\n" {
			r = append(r, t)
		}
	}
	return strings.Join(r, " ")
}

func noNL(toks []string) []string {
	r := []string{}
	for _, t := range toks {
		if t != "\n" {
			r = append(r, t)
		}
	}
	return r
}

func get(t interface{}, path ...string) interface{} {
	for _, p := range path {
		m, ok := t.(map[string]interface{})
		if !ok {
			return nil
		}
		t = m[p]
	}
	return t
}

func lst(t interface{}) []interface{} { l, _ := t.([]interface{}); return l }

func without(t interface{}, keys ...string) map[string]interface{} {
	m, _ := t.(map[string]interface{})
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	for _, k := range keys {
		delete(r, k)
	}
	return r
}

var eq = reflect.DeepEqual

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// W is one worker: a driver, the specification, a generator.
type W struct {
	sp   *Spec
	d    *Driver
	g    *Gen
	race *Driver
}

func (w *W) real(ddl, rd string) Res { return w.d.Call(Req{Rd: rd, Ddl: []byte(ddl)}) }

type Witness struct {
	Property string
	Ddl, Rd  string
	What     string
	Want     string
	Got      string
	Extra    string `json:",omitempty"`
	Inputs   []Req  `json:",omitempty"`
}

func show(r *Res) string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Hang:
		return "no answer within 3 s"
	case r.Crash != "":
		return "the process died: " + r.Crash
	case r.Err == "VE":
		return fmt.Sprintf("error at line %d near %q, tables %s", r.Line, r.Near, js(r.Tab))
	case r.Err != "":
		return "error of type " + r.Err + ": " + r.Near
	}
	return "tables " + js(r.Tab)
}

// cmpTables reports which of C10..C14 two accepted results disagree on.
func cmpTables(a, b interface{}) map[string]string {
	d := map[string]string{}
	ta, tb := lst(a), lst(b)
	if a == nil { // no result at all: what there is to report
		if len(tb) > 0 {
			d["C10"] = "the tables are not reported"
		}
		for _, y := range tb {
			for _, c := range lst(get(y, "Columns")) {
				d["C11"] = "the columns are not reported"
				k := get(c, "Constraint")
				if get(k, "Default") != nil {
					d["C13"] = "the default is not reported"
				}
				for _, f := range []string{"IsPrimaryKey", "IsUnique", "IsNotNull", "IsAutoincrement"} {
					if get(k, f) == true {
						d["C12"] = "the constraints are not reported"
					}
				}
			}
			for _, f := range []string{"PrimaryKey", "Unique", "Check", "ForeignKey"} {
				if len(lst(get(y, "Constraints", f))) > 0 {
					d["C14"] = "the table constraints are not reported"
				}
			}
		}
		return d
	}
	if len(ta) != len(tb) {
		d["C10"] = fmt.Sprintf("%d tables instead of %d", len(ta), len(tb))
		return d
	}
	for i := range ta {
		x, y := ta[i], tb[i]
		for _, f := range []string{"Schema", "Name", "IfNotExists"} {
			if !eq(get(x, f), get(y, f)) {
				d["C10"] = fmt.Sprintf("table %d: %s is %s instead of %s", i, f, js(get(x, f)), js(get(y, f)))
			}
		}
		cx, cy := lst(get(x, "Columns")), lst(get(y, "Columns"))
		if len(cx) != len(cy) {
			d["C11"] = fmt.Sprintf("table %d: %d columns instead of %d", i, len(cx), len(cy))
		} else {
			for j := range cx {
				if !eq(get(cx[j], "Name"), get(cy[j], "Name")) || !eq(get(cx[j], "DataType"), get(cy[j], "DataType")) {
					d["C11"] = fmt.Sprintf("table %d column %d: %s %s instead of %s %s", i, j, js(get(cx[j], "Name")), js(get(cx[j], "DataType")), js(get(cy[j], "Name")), js(get(cy[j], "DataType")))
				}
				k, l := get(cx[j], "Constraint"), get(cy[j], "Constraint")
				if !eq(without(k, "Default"), without(l, "Default")) {
					d["C12"] = fmt.Sprintf("table %d column %d: constraints %s instead of %s", i, j, js(k), js(l))
				}
				if !eq(get(k, "Default"), get(l, "Default")) {
					d["C13"] = fmt.Sprintf("table %d column %d: default %s instead of %s", i, j, js(get(k, "Default")), js(get(l, "Default")))
				}
			}
		}
		if !eq(get(x, "Constraints"), get(y, "Constraints")) {
			d["C14"] = fmt.Sprintf("table %d: table constraints %s instead of %s", i, js(get(x, "Constraints")), js(get(y, "Constraints")))
		}
	}
	return d
}

var acceptProp = map[string]string{"SQLite": "C06", "PostgreSQL": "C07", "MySQL": "C08"}

// judge returns what the input refutes: property -> what. Only properties in want are looked at.
func (w *W) judge(ddl, rd string, want func(string) bool) map[string]*Witness {
	out := map[string]*Witness{}
	hit := func(p, what, exp, got string) {
		if want(p) && out[p] == nil {
			out[p] = &Witness{Property: p, Ddl: ddl, Rd: rd, What: what, Want: exp, Got: got}
		}
	}
	r := w.real(ddl, rd)
	if r.bad() {
		hit("C01", "the call does not return normally", "tables or an error", show(&r))
		for _, p := range []string{"C02", "C06", "C07", "C08"} {
			if p == "C02" || p == acceptProp[rd] {
				hit(p, "the call does not return normally", "tables or an error", show(&r))
			}
		}
	}
	if want("C02") && !r.bad() {
		w.judgeC02(ddl, rd, &r, hit)
	}
	needSpec := false
	for _, p := range []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"} {
		if want(p) {
			needSpec = true
		}
	}
	if !needSpec {
		return out
	}
	s, ok := specParse(w.sp, ddl, rd)
	if !ok {
		return out
	}
	if r.bad() && s.ok() { // the promised result is not delivered
		for p, m := range cmpTables(nil, s.Tab) {
			hit(p, "the call does not return normally: "+m, show(&s.Res), show(&r))
		}
	}
	ap := acceptProp[rd]
	if r.ok() != s.ok() && ap != "" {
		hit(ap, "acceptance differs from the documented grammar", show(&s.Res), show(&r))
	}
	if !r.ok() && !r.bad() && !s.ok() && (r.Line != s.Line || r.Near != s.Near) {
		hit("C03", "the error names the wrong line or token", show(&s.Res), show(&r))
	} else if m := fmt.Sprintf("ValidateError: Syntax error: near '%s' at line %d.", r.Near, r.Line); r.Err == "VE" && r.Msg != m {
		hit("C03", "the message of the error does not state its line and text", m, r.Msg)
	}
	diff := map[string]string{}
	if r.ok() && s.ok() {
		diff = cmpTables(r.Tab, s.Tab)
		for p, m := range diff {
			hit(p, m, show(&s.Res), show(&r))
		}
	}
	same := r.ok() == s.ok() && len(diff) == 0
	if !s.lexed && r.ok() && strings.ContainsAny(ddl, "'\"`") {
		hit("C05", "unterminated or forbidden quote accepted", show(&s.Res), show(&r))
	}
	if !s.lexed && r.ok() && strings.ContainsAny(ddl, "/*#-") {
		hit("C04", "a comment is not ended as documented", show(&s.Res), show(&r))
	}
	if s.lexed && want("C04") {
		w.judgeC04(ddl, rd, &r, s, hit)
	}
	if !same && s.lexed && want("C05") {
		w.judgeC05(ddl, rd, s, hit)
	}
	if !same && s.lexed && want("C09") {
		w.judgeC09(ddl, rd, s, hit)
	}
	return out
}

func (w *W) judgeC02(ddl, rd string, r *Res, hit func(p, a, b, c string)) {
	chk := func(n string, r *Res) {
		if r.Err == "" {
			if r.Nil {
				hit("C02", n+" succeeded with a nil list", "a non-nil list", show(r))
			}
			return
		}
		if r.Err != "VE" {
			hit("C02", n+" failed with another error type", "a ValidateError", show(r))
		} else if r.Line < 1 || r.Near == "" {
			hit("C02", n+" failed without a line or text", "line >= 1 and text", show(r))
		}
		if len(lst(r.Tab)) != 0 {
			hit("C02", n+" failed and returned tables", "no tables", show(r))
		}
	}
	chk("Parse", r)
	var rs []Res
	for _, x := range dialects {
		a := w.real(ddl, x)
		b := w.d.Call(Req{Fn: "Parse" + x, Ddl: []byte(ddl)})
		if a.bad() || b.bad() {
			return
		}
		if !eq(a, b) {
			hit("C02", "Parse"+x+" differs from Parse with "+x, show(&a), show(&b))
		}
		rs = append(rs, a)
	}
	f := w.d.Call(Req{Fn: "ParseForce", Ddl: []byte(ddl)})
	if f.bad() {
		hit("C02", "ParseForce does not return normally", "", show(&f))
		return
	}
	for i := range rs {
		if rs[i].Err == "" || i == 2 {
			if rs[i].Err == "" && !(f.Err == "" && eq(f.Tab, rs[i].Tab)) {
				hit("C02", "ParseForce does not return what "+dialects[i]+", the first to accept, returns", show(&rs[i]), show(&f))
			}
			if rs[i].Err != "" && !(f.Err == rs[i].Err && f.Line == rs[i].Line && f.Near == rs[i].Near) {
				hit("C02", "ParseForce does not return the MySQL error when all dialects reject", show(&rs[i]), show(&f))
			}
			break
		}
	}
	chk("ParseForce", &f)
}

func (w *W) judgeC04(ddl, rd string, r *Res, s *SpecRes, hit func(p, a, b, c string)) {
	c := canonText(s.toks)
	if c == ddl {
		return
	}
	cs, ok := specParse(w.sp, c, rd)
	if !ok || !cs.lexed || !eq(noNL(cs.toks), noNL(s.toks)) {
		return
	}
	rc := w.real(c, rd)
	if rc.ok() != r.ok() {
		hit("C04", "accepted in one layout only; the other layout is: "+c, show(&rc), show(r))
	} else if r.ok() && !eq(rc.Tab, r.Tab) {
		hit("C04", "another layout gives other tables; the other layout is: "+c, show(&rc), show(r))
	}
}

func agree(r *Res, s *Res) bool {
	return r.ok() == s.ok() && (!r.ok() || eq(r.Tab, s.Tab))
}

// judgeC05: the text disagrees with the specification, but agrees once the
// quoted contents and decimals are made plain.
func (w *W) judgeC05(ddl, rd string, s *SpecRes, hit func(p, a, b, c string)) {
	ts := noNL(s.toks)
	c := strings.Join(ts, " ")
	cs, ok := specParse(w.sp, c, rd)
	if !ok {
		return
	}
	rc := w.real(c, rd)
	if agree(&rc, &cs.Res) {
		// only the original layout disagrees: blame quotes touching other text
		var touch bool
		for i, t := range ts {
			if isQuoted(t) && (i > 0 && strings.Contains(ddl, ts[i-1]+t) || i+1 < len(ts) && strings.Contains(ddl, t+ts[i+1])) {
				touch = true
			}
		}
		if !touch {
			return
		}
	}
	ch := false
	var p []string
	for k, t := range ts {
		if isQuoted(t) {
			q := t[:1]
			n := q + "x" + strconv.Itoa(k) + q
			if n != t {
				ch = true
			}
			t = n
		} else if strings.Contains(t, ".") && t != "." {
			t, ch = "15", true
		}
		p = append(p, t)
	}
	if !ch {
		return
	}
	pt := strings.Join(p, " ")
	ps, ok := specParse(w.sp, pt, rd)
	if !ok || ps.ok() != cs.ok() {
		return
	}
	rp := w.real(pt, rd)
	if agree(&rp, &ps.Res) {
		r := w.real(ddl, rd)
		hit("C05", "a quoted token or number is not read verbatim as one token", show(&s.Res), show(&r))
	}
}

// judgeC09: the text disagrees, but agrees once one token is a plain name.
func (w *W) judgeC09(ddl, rd string, s *SpecRes, hit func(p, a, b, c string)) {
	ts := noNL(s.toks)
	if len(ts) > 200 {
		return
	}
	c := strings.Join(ts, " ")
	cs, ok := specParse(w.sp, c, rd)
	if !ok {
		return
	}
	rc := w.real(c, rd)
	if agree(&rc, &cs.Res) {
		return
	}
	for i, t := range ts {
		if isPunct(t) {
			continue
		}
		p := append([]string{}, ts...)
		p[i] = "zq" + strconv.Itoa(i)
		pt := strings.Join(p, " ")
		ps, ok := specParse(w.sp, pt, rd)
		if !ok || !ps.ok() {
			continue
		}
		rp := w.real(pt, rd)
		if agree(&rp, &ps.Res) {
			// a name is allowed at this position: is t judged or reported wrongly there?
			if cs.ok() != rc.ok() || cs.ok() {
				hit("C09", fmt.Sprintf("the name %q (token %d) is judged or reported wrongly", t, i), show(&cs.Res), show(&rc))
				return
			}
		}
	}
}

// judgeC15: removing an optional dropped clause changes the reported tables.
func (w *W) judgeC15(in *Input, want func(string) bool) *Witness {
	if !want("C15") || !in.pure || len(in.opts) == 0 {
		return nil
	}
	full := renderPlain(in.toks)
	s, ok := specParse(w.sp, full, in.rd)
	if !ok || !s.ok() {
		return nil
	}
	r := w.real(full, in.rd)
	try := func(o [2]int) *Witness {
		if o[0] >= o[1] {
			return nil
		}
		drop := true
		for _, t := range in.toks[o[0]:o[1]] {
			drop = drop && t.drop
		}
		if !drop {
			return nil
		}
		ts := append(append([]Tok{}, in.toks[:o[0]]...), in.toks[o[1]:]...)
		x := renderPlain(ts)
		sx, ok := specParse(w.sp, x, in.rd)
		if !ok || !sx.ok() || !eq(sx.Tab, s.Tab) {
			return nil
		}
		rx := w.real(x, in.rd)
		if rx.ok() && (!r.ok() || !eq(rx.Tab, r.Tab)) {
			return &Witness{Property: "C15", Ddl: full, Rd: in.rd, What: "removing the clause " + renderPlain(in.toks[o[0]:o[1]]) + " changes the tables; without it: " + x,
				Want: show(&rx), Got: show(&r)}
		}
		return nil
	}
	k := w.g.r.Intn(len(in.opts))
	for n := 0; n < 3 && n < len(in.opts); n++ {
		if v := try(in.opts[(k+n)%len(in.opts)]); v != nil {
			return v
		}
	}
	// a clause that changes the tables although the specification reports nothing for it
	if !r.ok() || !eq(r.Tab, s.Tab) {
		for _, o := range in.opts {
			if v := try(o); v != nil {
				return v
			}
		}
	}
	return nil
}

func renderPlain(ts []Tok) string {
	var r []string
	for _, t := range ts {
		r = append(r, t.s)
	}
	return strings.Join(r, " ")
}

// shrink makes a witness smaller while it still refutes the property.
func (w *W) shrink(x *Witness) *Witness {
	if x.Property == "C15" || x.Property == "C16" {
		return x
	}
	want := func(p string) bool { return p == x.Property }
	dead := time.Now().Add(15 * time.Second)
	best := x
	size := 0
	if len(x.Ddl) > 20000 {
		return x
	}
	for size = len(best.Ddl) / 2; size >= 1; {
		changed := false
		for i := 0; i+size <= len(best.Ddl); {
			if time.Now().After(dead) {
				return best
			}
			c := best.Ddl[:i] + best.Ddl[i+size:]
			if strings.ToValidUTF8(c, "") == c || strings.ToValidUTF8(best.Ddl, "") != best.Ddl {
				if v := w.judge(c, best.Rd, want)[x.Property]; v != nil {
					best = v
					changed = true
					continue
				}
			}
			i += size
			if size > 1 {
				i -= size / 2
			}
		}
		if !changed {
			size /= 2
		}
	}
	return best
}

type SearchStats struct {
	Inputs, Accepted, Rejected int64
	Seconds                    float64
}

// Searcher runs the real code next to the specification on generated inputs.
type Searcher struct {
	sp                   *Spec
	verif, scratch, repo string
	prop                 string
	seed                 int64
	stats                SearchStats
	focus                map[string]bool // nonterminals, and dialects, to concentrate on
	stop                 atomic.Bool
	found, other         atomic.Pointer[Witness] // for the property, for another one
}

func (s *Searcher) driver() (string, error) {
	bin := filepath.Join(s.scratch, "driver")
	if _, err := os.Stat(bin); err != nil {
		if err := buildDriver(s.verif, s.repo, bin, false); err != nil {
			return "", err
		}
	}
	return bin, nil
}

// run searches until a witness is found, the time is over or stop is set.
// With all, witnesses against other properties are remembered too.
func (s *Searcher) run(budget time.Duration, nw int, all bool) error {
	bin, err := s.driver()
	if err != nil {
		return err
	}
	start := time.Now()
	defer func() { s.stats.Seconds += time.Since(start).Seconds() }()
	dict := loadDict(s.sp, s.repo)
	dead := time.Now().Add(budget)
	s.seed++
	if s.prop == "C16" {
		return s.runC16(bin, dict, dead)
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &W{sp: s.sp, d: &Driver{bin: bin}, g: &Gen{r: rand.New(rand.NewSource(s.seed*1000 + int64(k))), sp: s.sp, d: dict}}
			if k%4 != 3 {
				w.g.setFocus(s.focus)
			}
			defer w.d.stop()
			note := func(v *Witness) {
				if v.Property == s.prop {
					s.found.CompareAndSwap(nil, v)
				} else {
					s.other.CompareAndSwap(nil, v)
				}
			}
			for time.Now().Before(dead) && s.found.Load() == nil && !s.stop.Load() {
				others := all && s.other.Load() == nil && k%2 == 1
				want := func(p string) bool { return p == s.prop || others }
				in := w.g.next()
				atomic.AddInt64(&s.stats.Inputs, 1)
				for _, v := range w.judge(in.ddl, in.rd, want) {
					note(v)
				}
				if v := w.judgeC15(in, want); v != nil {
					note(v)
				}
			}
		}(k)
	}
	wg.Wait()
	if x := s.found.Load(); x != nil {
		w := &W{sp: s.sp, d: &Driver{bin: bin}, g: &Gen{r: rand.New(rand.NewSource(1)), sp: s.sp, d: dict}}
		defer w.d.stop()
		s.found.Store(w.shrink(x))
	}
	return nil
}

func (s *Searcher) runC16(bin string, dict *Dict, dead time.Time) error {
	rbin := filepath.Join(s.scratch, "driver-race")
	env := []string{"DRIVER_NOLIMIT=1", "GORACE=halt_on_error=1", "GOMAXPROCS=4"}
	if _, err := os.Stat(rbin); err != nil {
		if err := buildDriver(s.verif, s.repo, rbin, true); err != nil {
			rbin, env = bin, nil
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			g := &Gen{r: rand.New(rand.NewSource(s.seed*1000 + int64(k))), sp: s.sp, d: dict}
			d := &Driver{bin: rbin, env: env}
			fresh := &Driver{bin: bin}
			defer d.stop()
			defer fresh.stop()
			for time.Now().Before(dead) && s.found.Load() == nil && !s.stop.Load() {
				q := Req{Op: "conc", Rep: 6}
				if g.p(0.5) {
					q.Fn = "cold"
				}
				for i := 0; i < 25; i++ {
					in := g.next()
					if len(in.ddl) > 3000 {
						continue
					}
					fn := ""
					if g.p(0.2) {
						fn = "ParseForce"
					}
					q.More = append(q.More, Req{Fn: fn, Rd: in.rd, Ddl: []byte(in.ddl)})
				}
				atomic.AddInt64(&s.stats.Inputs, int64(len(q.More)))
				r := d.Call(q)
				m := r.Diff
				if r.Crash != "" && hasAny(r.Crash, "DATA RACE", "concurrent map") {
					m = r.Crash
				}
				if m == "" && g.p(0.2) { // history: an aged process against a fresh one
					i := g.r.Intn(len(q.More))
					a := d.Call(q.More[i])
					fresh.stop()
					b := fresh.Call(q.More[i])
					if !a.bad() && !b.bad() && !eq(a, b) {
						m = fmt.Sprintf("request %d: in a fresh process %s, after other calls %s", i, show(&b), show(&a))
					}
				}
				if m != "" {
					s.found.CompareAndSwap(nil, &Witness{Property: "C16", What: "results depend on other calls, or shared state is accessed", Got: m, Inputs: q.More})
				}
			}
		}(k)
	}
	wg.Wait()
	return nil
}
