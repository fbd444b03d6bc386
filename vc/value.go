package main

// Symbolic values of the Go code under verification.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term (numbers, booleans, strings, errors, interface{}),
// *SliceV, *StructV, *ArrayV, *PtrV, *FuncV, *IfaceV, *MapV, *TupleV, *ReV, *OpaqueV.
type Value interface{}

type SliceV struct {
	L      *Term // contents (nil if array-backed)
	obj    int   // array-backed: heap object, elements [off, off+n)
	path   []int
	off, n int
	own    int   // identity of the backing store, for append
	nonnil *Term // Bool
}

type StructV struct {
	T *types.Struct
	N types.Type
	F []Value
}
type ArrayV struct {
	El   []Value
	list *Term
}
type PtrV struct {
	obj    int // 0: nil
	global *ssa.Global
	path   []int
	slice  *SliceV // element of a list
	et     types.Type
	idx    *Term
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Blt  string
}
type IfaceV struct {
	T types.Type // nil: nil interface
	V Value
}
// MapV: entries, the last that matches counts.
type MapV struct {
	keys  []*Term
	vals  []Value
	isNil bool
	set   *Term // a list of further keys, each with value pres (loops)
	pres  Value
}
type MapRef struct{ obj int }

// IterV iterates over the runes of a string; the object counts them.
type IterV struct {
	s   *Term
	obj int
}

// ChoiceV is one of two functions.
type ChoiceV struct {
	cond *Term
	a, b Value
}
type TupleV struct{ E []Value }
type ReV struct{ pat *Term }
type OpaqueV struct{ why string }

type unsup struct{ msg string }

// spent: the run took too long; no branch goes on.
type spent struct{ msg string }

func unsupf(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

var dynMu sync.Mutex
var dynSorts = map[string]*Sort{}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// sortOf gives the logical sort of a Go type, or nil.
func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isErrorType(t) {
		return spec.Sorts["Err"]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return SBool
		case i&types.IsInteger != 0:
			return SInt
		case i&types.IsString != 0:
			return SStr
		case i&types.IsFloat != 0:
			return SFloat
		}
	case *types.Slice:
		if e := sortOf(u.Elem()); e != nil {
			return ListOf(e)
		}
	case *types.Interface:
		if u.NumMethods() == 0 {
			return spec.Sorts["Any"]
		}
	case *types.Struct:
		n, ok := t.(*types.Named)
		if !ok {
			return nil
		}
		return structSort(n, u)
	}
	return nil
}

func structSort(n *types.Named, u *types.Struct) *Sort {
	name := n.Obj().Name()
	if n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/types") {
		if c := spec.Ctors[name]; c != nil {
			return c.Sort
		}
	}
	if name == "ValidateError" && u.NumFields() == 2 && u.Field(0).Name() == "Line" && u.Field(1).Name() == "Near" {
		return spec.Sorts["ValidateError"]
	}
	key := "Go_" + n.String()
	dynMu.Lock()
	s := dynSorts[key]
	dynMu.Unlock()
	if s != nil {
		return s
	}
	ct := &Ctor{Name: "Go_" + strings.ReplaceAll(n.String(), "/", "_")}
	for i := 0; i < u.NumFields(); i++ {
		fs := sortOf(u.Field(i).Type())
		if fs == nil {
			return nil
		}
		ct.Fields = append(ct.Fields, CField{u.Field(i).Name(), fs})
	}
	s = &Sort{Kind: KAdt, Name: ct.Name, Ctors: []*Ctor{ct}}
	ct.Sort = s
	dynMu.Lock()
	defer dynMu.Unlock()
	if o := dynSorts[key]; o != nil {
		return o
	}
	dynSorts[key] = s
	return s
}

// zero value of a type
func zero(t types.Type) Value {
	t = types.Unalias(t)
	if s := sortOf(t); s != nil {
		switch s.Kind {
		case KInt:
			return Int(0)
		case KBool:
			return False
		case KStr:
			return Str("")
		case KFloat:
			return U("pf", Str("0"))
		case KList:
			return &SliceV{L: EmpL(s), nonnil: False}
		case KAdt:
			if s.Name == "Err" {
				return Mk(spec.Ctors["enil"])
			}
			if s.Name == "Any" {
				return Mk(spec.Ctors["anil"])
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &StructV{T: u, N: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			v.El = append(v.El, zero(u.Elem()))
		}
		return v
	case *types.Pointer:
		return &PtrV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map:
		return &MapV{isNil: true}
	}
	return &OpaqueV{"zero value of " + t.String()}
}

// symbolic value of a type
func symbolic(prefix string, t types.Type) Value {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); ok {
		u := t.Underlying().(*types.Struct)
		v := &StructV{T: u, N: t}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, symbolic(prefix+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	}
	if s := sortOf(t); s != nil {
		x := Fresh(prefix, s)
		if s.Kind == KList {
			return &SliceV{L: x, own: freshOwn(), nonnil: Fresh(prefix+".nn", SBool)}
		}
		return x
	}
	return &OpaqueV{"unknown value of " + t.String()}
}

var ownMu sync.Mutex
var ownN = 0

func freshOwn() int {
	ownMu.Lock()
	defer ownMu.Unlock()
	ownN++
	return ownN
}

// toTerm reifies a value (heap: for array-backed slices).
func (st *State) toTerm(v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *SliceV:
		l := st.listOf(x, t)
		return l
	case *StructV:
		s := sortOf(t)
		if s == nil {
			unsupf("no sort for %s", t)
		}
		c := s.Ctors[0]
		fs := make([]*Term, len(c.Fields))
		for i := range c.Fields {
			k := -1
			for j := 0; j < x.T.NumFields(); j++ {
				if x.T.Field(j).Name() == c.Fields[i].Name {
					k = j
				}
			}
			if k < 0 {
				unsupf("type %s has no field %s", t, c.Fields[i].Name)
			}
			fs[i] = st.toTerm(x.F[k], x.T.Field(k).Type())
			if fs[i].sort != c.Fields[i].Sort {
				unsupf("field %s of %s has type %s", c.Fields[i].Name, t, x.T.Field(k).Type())
			}
		}
		if len(c.Fields) != x.T.NumFields() {
			unsupf("type %s has %d fields, the specification %d", t, x.T.NumFields(), len(c.Fields))
		}
		return Mk(c, fs...)
	}
	unsupf("value %T has no term", v)
	return nil
}

func (st *State) listOf(x *SliceV, t types.Type) *Term {
	if x.L != nil {
		return x.L
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		unsupf("slice type %s", t)
	}
	arr, ok := st.load(&PtrV{obj: x.obj, path: x.path}).(*ArrayV)
	if !ok {
		unsupf("array-backed slice")
	}
	s := sortOf(t)
	if s == nil {
		unsupf("no sort for %s", t)
	}
	full := x.off == 0 && x.n == len(arr.El)
	if full && arr.list != nil && arr.list.sort == s {
		return arr.list
	}
	l := EmpL(s)
	for _, e := range arr.El[x.off : x.off+x.n] {
		l = Snoc(l, st.toTerm(e, sl.Elem()))
	}
	if full {
		arr.list = l
	}
	return l
}

// fromTerm is the inverse of toTerm.
func fromTerm(x *Term, t types.Type) Value {
	t = types.Unalias(t)
	switch x.sort.Kind {
	case KList:
		return &SliceV{L: x, own: -1, nonnil: Fresh("nn", SBool)}
	case KAdt:
		if u, ok := t.Underlying().(*types.Struct); ok {
			c := x.sort.Ctors[0]
			v := &StructV{T: u, N: t}
			for i := 0; i < u.NumFields(); i++ {
				k := c.field(u.Field(i).Name())
				if k < 0 {
					unsupf("type %s: unexpected field %s", t, u.Field(i).Name())
				}
				v.F = append(v.F, fromTerm(Sel(c, k, x), u.Field(i).Type()))
			}
			return v
		}
	}
	return x
}

// sameValue decides syntactic equality.
func sameValue(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.nonnil != y.nonnil {
			return false
		}
		if x.L != nil || y.L != nil {
			return x.L == y.L && x.own == y.own
		}
		return x.obj == y.obj && x.off == y.off && x.n == y.n && fmt.Sprint(x.path) == fmt.Sprint(y.path)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameValue(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.El) != len(y.El) {
			return false
		}
		for i := range x.El {
			if !sameValue(x.El[i], y.El[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && x.global == y.global && fmt.Sprint(x.path) == fmt.Sprint(y.path) && x.slice == y.slice && x.idx == y.idx
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) || x.Blt != y.Blt {
			return false
		}
		for i := range x.Bind {
			if !sameValue(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && (x.T == nil) == (y.T == nil) && (x.T == nil || types.Identical(x.T, y.T) && sameValue(x.V, y.V))
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameValue(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *ReV:
		y, ok := b.(*ReV)
		return ok && x.pat == y.pat
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *IterV:
		y, ok := b.(*IterV)
		return ok && x.obj == y.obj && x.s == y.s
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.keys) != len(y.keys) || x.isNil != y.isNil || x.set != y.set {
			return false
		}
		for i := range x.keys {
			if x.keys[i] != y.keys[i] || !sameValue(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	case *ChoiceV:
		y, ok := b.(*ChoiceV)
		return ok && x.cond == y.cond && sameValue(x.a, y.a) && sameValue(x.b, y.b)
	}
	return false
}

// iteValue merges two values under a condition; nil if that is not possible.
func iteValue(c *Term, a, b Value) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if sameValue(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return Ite(c, x, y)
		}
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil
		}
		r := &StructV{T: x.T, N: x.N}
		for i := range x.F {
			f := iteValue(c, x.F[i], y.F[i])
			if f == nil {
				return nil
			}
			r.F = append(r.F, f)
		}
		return r
	case *FuncV, *ChoiceV:
		switch b.(type) {
		case *FuncV, *ChoiceV:
			return &ChoiceV{c, a, b}
		}
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.E) != len(y.E) {
			return nil
		}
		r := &TupleV{}
		for i := range x.E {
			f := iteValue(c, x.E[i], y.E[i])
			if f == nil {
				return nil
			}
			r.E = append(r.E, f)
		}
		return r
	}
	return nil
}
