package main

// Which fields outside a view a function may change: a call leaves the others
// as they are.

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type writeKey struct {
	fn *ssa.Function
	fieldKey
}

var (
	writeMu   sync.Mutex
	writeMemo = map[writeKey]bool{}
)

// mayWrite: calling fn may change the field.
func (m *Module) mayWrite(fn *ssa.Function, c cell) bool {
	if _, ok := c.typ.Underlying().(*types.Basic); !ok {
		return true
	}
	k := writeKey{fn, fieldKey{c.st, c.path[len(c.path)-1]}}
	writeMu.Lock()
	defer writeMu.Unlock()
	r, ok := writeMemo[k]
	if !ok {
		r = m.writes(fn, k.fieldKey, map[*ssa.Function]bool{})
		writeMemo[k] = r
	}
	return r
}

func holds(t types.Type, st *types.Struct) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		if a, ok := t.Underlying().(*types.Array); ok {
			return holds(a.Elem(), st)
		}
		return false
	}
	if u == st || types.Identical(u, st) {
		return true
	}
	for k := 0; k < u.NumFields(); k++ {
		if holds(u.Field(k).Type(), st) {
			return true
		}
	}
	return false
}

func (m *Module) writes(fn *ssa.Function, key fieldKey, seen map[*ssa.Function]bool) bool {
	if fn == nil {
		return true
	}
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if !m.inModule(fn) { // the library does not know our types, and is not given the field's address
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				el := ptrElem(x.X.Type())
				if el == nil {
					return true
				}
				st, ok := el.Underlying().(*types.Struct)
				if !ok || !types.Identical(st, key.st) || x.Field != key.idx {
					continue
				}
				for _, r := range *x.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := r.(*ssa.DebugRef); ok {
						continue
					}
					return true
				}
			case *ssa.Store:
				if holds(x.Val.Type(), key.st) {
					return true
				}
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && m.writes(f, key, seen) {
					return true
				}
			}
			cl, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := cl.Common()
			if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			if c.IsInvoke() {
				if c.Method.Name() == "Error" {
					continue
				}
				return true
			}
			f := c.StaticCallee()
			if f == nil {
				return true
			}
			if m.writes(f, key, seen) {
				return true
			}
		}
	}
	return false
}
