package main

// Which function a contract belongs to, and which field has which role, when
// names have changed: a matter of finding the right proof, not of soundness
// (every contract is proved of the function it is attached to, and callers
// are checked against it).

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldUse: how the module uses a struct field.
type fieldUse struct {
	indexer  bool // used as an index
	indexed  bool // indexed by another field
	appended bool
	fromLen  bool // set to the length of something
	incr     bool
}

type fieldKey struct {
	st  *types.Struct
	idx int
}

var fieldUses = map[fieldKey]*fieldUse{}

func (m *Module) scanFields() {
	fieldUses = map[fieldKey]*fieldUse{}
	use := func(k fieldKey) *fieldUse {
		u := fieldUses[k]
		if u == nil {
			u = &fieldUse{}
			fieldUses[k] = u
		}
		return u
	}
	field := func(v ssa.Value) *fieldUse { // the field an address or a value comes from
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil
				}
				v = x.X
			case *ssa.BinOp:
				if _, ok := x.Y.(*ssa.Const); !ok {
					return nil
				}
				v = x.X
			case *ssa.FieldAddr:
				if el := ptrElem(x.X.Type()); el != nil {
					if st, ok := el.Underlying().(*types.Struct); ok {
						return use(fieldKey{st, x.Field})
					}
				}
				return nil
			default:
				return nil
			}
		}
	}
	for _, fn := range m.functions() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if l, i := field(x.X), field(x.Index); l != nil && i != nil {
						l.indexed, i.indexer = true, true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if f := field(x.Call.Args[0]); f != nil {
							f.appended = true
						}
					}
				case *ssa.Store:
					f := field(x.Addr)
					if f == nil {
						continue
					}
					switch v := x.Val.(type) {
					case *ssa.Call:
						if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							f.fromLen = true
						}
					case *ssa.BinOp:
						if v.Op == token.ADD {
							f.incr = true
						}
					}
				}
			}
		}
	}
}

// inferRole: the cell for a role, by use.
func inferRole(r Role, cells []cell, used map[int]bool) int {
	fits := func(u *fieldUse) bool {
		switch r.Name {
		case "T", "D", "R":
			return u.indexed && !u.appended
		case "r", "result":
			return u.appended
		case "i":
			return u.indexer
		case "size":
			return u.fromLen
		case "line":
			return u.incr && !u.indexer && !u.fromLen
		}
		return false
	}
	hit := -1
	for k, c := range cells {
		if used[k] || sortOf(c.typ) != r.Sort || c.st == nil {
			continue
		}
		u := fieldUses[fieldKey{c.st, c.path[len(c.path)-1]}]
		if u == nil || !fits(u) {
			continue
		}
		if hit >= 0 {
			return -1
		}
		hit = k
	}
	return hit
}

// print of a function: what a change of name leaves in place.
type fingerprint struct {
	Strings  []string `json:"strings,omitempty"`
	Calls    []string `json:"calls,omitempty"`
	Params   int      `json:"params"`
	Contract bool     `json:"contract,omitempty"`
}

func printOf(fn *ssa.Function) fingerprint {
	s, c := map[string]bool{}, map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					s[constant.StringVal(k.Value)] = true
				}
			}
			if cl, ok := in.(ssa.CallInstruction); ok {
				if f := cl.Common().StaticCallee(); f != nil {
					c[f.Name()] = true
				}
			}
		}
	}
	return fingerprint{Strings: sortedStr(s), Calls: sortedStr(c), Params: len(fn.Params)}
}

func printsFile() string { return filepath.Join(verifDir, "contracts", "fingerprints.json") }

func loadPrints() map[string]fingerprint {
	m := map[string]fingerprint{}
	if b, err := os.ReadFile(printsFile()); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

func (m *Module) writePrints() error {
	r := map[string]fingerprint{}
	for k, fn := range m.functions() {
		p := printOf(fn)
		p.Contract = m.contract[fn] != nil
		r[k] = p
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(printsFile(), append(b, '\n'), 0644)
}

func jaccard(a, b []string) float64 {
	if len(a) == 0 && len(b) == 0 {
		return 0.5
	}
	in := map[string]bool{}
	for _, x := range a {
		in[x] = true
	}
	n, u := 0, len(in)
	for _, x := range b {
		if in[x] {
			n++
		} else {
			u++
		}
	}
	return float64(n) / float64(u)
}

func bigrams(s string) []string {
	s = strings.ToLower(s)
	seen := map[string]bool{}
	for i := 0; i+2 <= len(s); i++ {
		seen[s[i:i+2]] = true
	}
	return sortedStr(seen)
}

func splitKey(k string) (string, string) {
	i := strings.LastIndex(k, ".")
	if i < 0 {
		return "", k
	}
	return k[:i], k[i+1:]
}

// matchRenamed attaches contracts whose function is gone to functions that
// are new.
func (m *Module) matchRenamed(cs []*Contract, fns map[string]*ssa.Function) []string {
	prints := loadPrints()
	var note []string
	type cand struct {
		c     *Contract
		key   string
		score float64
	}
	var cands []cand
	now := map[string]fingerprint{}
	for _, c := range cs {
		if c.fn != nil || fns[c.Name] != nil {
			continue
		}
		ty, nm := splitKey(c.Name)
		old := prints[c.Name]
		for k, fn := range fns {
			if _, known := prints[k]; known || m.contract[fn] != nil {
				continue
			}
			if c.checkSig(fn) != nil {
				continue
			}
			p, ok := now[k]
			if !ok {
				p = printOf(fn)
				now[k] = p
			}
			if p.Params > old.Params {
				continue
			}
			t2, n2 := splitKey(k)
			s := 2*jaccard(old.Strings, p.Strings) + jaccard(old.Calls, p.Calls) + jaccard(bigrams(nm), bigrams(n2)) + jaccard(bigrams(ty), bigrams(t2))
			if s >= 1.8 {
				cands = append(cands, cand{c, k, s})
			}
		}
	}
	sort.Slice(cands, func(i, j int) bool {
		a, b := cands[i], cands[j]
		if a.score != b.score {
			return a.score > b.score
		}
		if a.c.Name != b.c.Name {
			return a.c.Name < b.c.Name
		}
		return a.key < b.key
	})
	for _, x := range cands {
		fn := fns[x.key]
		if x.c.fn != nil || m.contract[fn] != nil {
			continue
		}
		if x.c.checkSig(fn) != nil { // also records what the contract is about
			continue
		}
		x.c.fn = fn
		m.contract[fn] = x.c
		note = append(note, fmt.Sprintf("%s is now %s", x.c.Name, x.key))
	}
	return note
}
