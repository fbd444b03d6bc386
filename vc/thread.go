package main

// A loop may be left on a flag or an error set by the body. At a back edge the
// loop's test is run on the values of that path: outcomes that leave the loop
// leave it from there, so that the invariant is only about paths that go on.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type threading struct {
	loop *Loop
	prev *ssa.BasicBlock
	env  map[ssa.Value]Value
}

// pureFn: calls change nothing but fresh memory.
func (m *Module) pureFn(f *ssa.Function, depth int) bool {
	if f == nil || depth == 0 || len(f.Blocks) == 0 || f.Pkg == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !m.pureInstr(in, depth) {
				return false
			}
		}
	}
	return true
}

func (m *Module) pureInstr(in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.Store:
		a := x.Addr
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
				continue
			case *ssa.IndexAddr:
				a = y.X
				continue
			}
			break
		}
		_, ok := a.(*ssa.Alloc)
		return ok
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
		return false
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len"
		}
		return m.pureFn(x.Call.StaticCallee(), depth-1)
	}
	return true
}

// testBlock: the block only decides whether the loop goes on.
func (m *Module) testBlock(l *Loop, b *ssa.BasicBlock) bool {
	if len(b.Succs) != 2 || !l.in[b] || l.in[b.Succs[0]] && l.in[b.Succs[1]] {
		return false
	}
	for _, in := range b.Instrs {
		if !m.pureInstr(in, 3) {
			return false
		}
	}
	return true
}

func flagTest(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return flagTest(x.X)
		}
		return x.Op == token.MUL
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if c, ok := p[1].(*ssa.Const); ok {
				_, call := p[0].(*ssa.Call)
				return !call && (c.Value == nil && nilable(c.Type()) || c.Value != nil && c.Value.Kind() == constant.Bool)
			}
		}
	}
	return false
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

// threads: some test at the head of the loop is on a flag or an error.
func (m *Module) threads(l *Loop) bool {
	b := l.head
	for n := 0; n < 4 && m.testBlock(l, b); n++ {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && flagTest(i.Cond) {
			return true
		}
		if l.in[b.Succs[0]] {
			b = b.Succs[0]
		} else {
			b = b.Succs[1]
		}
	}
	return false
}
