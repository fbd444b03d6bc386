package main

// Loading of /repo and the values of its package variables.

import (
	"time"
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func LoadModule(sp *Spec, dir string, pr *Prover) (*Module, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	m := &Module{prog: prog, globals: map[*ssa.Global]Value{}, initHeap: map[int]Value{}, sp: sp, prover: pr,
		contract: map[*ssa.Function]*Contract{}, rec: map[*ssa.Function]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, progress: map[*Contract]bool{}, limit: 80 * time.Second}
	for _, p := range ps {
		if p.Module != nil {
			m.modPath = p.Module.Path
		}
	}
	if m.modPath == "" {
		return nil, fmt.Errorf("no module in %s", dir)
	}
	var order []*ssa.Package
	seen := map[string]bool{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		in := p.PkgPath == m.modPath || strings.HasPrefix(p.PkgPath, m.modPath+"/")
		if in || inlineStd[p.PkgPath] {
			sp := prog.Package(p.Types)
			if sp != nil {
				sp.Build()
				if in {
					order = append(order, sp)
				}
			}
		}
	})
	m.pkgs = order
	for _, p := range order {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m.globals[g] = zero(ptrElem(g.Type()))
			}
		}
	}
	for _, p := range order {
		if err := m.initPkg(p); err != nil {
			return nil, err
		}
	}
	return m, nil
}

// initPkg executes a package's initialisation.
func (m *Module) initPkg(p *ssa.Package) (err error) {
	fn := p.Func("init")
	if fn == nil {
		return nil
	}
	e := &Exec{M: m, fnName: "init", initMode: true}
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(unsup)
			if s, is := x.(spent); is {
				u, ok = unsup{s.msg}, true
			}
			if !ok {
				panic(x)
			}
			// what could not be computed is unknown
			m.initErr = append(m.initErr, p.Pkg.Path()+": "+u.msg)
			for _, mem := range p.Members {
				if g, ok := mem.(*ssa.Global); ok {
					m.globals[g] = &OpaqueV{"package variable " + g.Name()}
				}
			}
		}
	}()
	st := &State{ex: e, heap: map[int]Value{}, f: newFacts(), consumed: map[int]bool{}}
	t := e.runFn(&Frame{fn: fn}, st)
	if t.leaf == nil {
		unsupf("initialisation branches")
	}
	for o, v := range t.leaf.p.st.heap {
		m.initHeap[o] = v
	}
	return nil
}

// functions of the module, by contract key
func (m *Module) functions() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(m.prog) {
		if !m.inModule(fn) || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		if o := fn.Origin(); o != nil && o != fn {
			// an instance of a generic function stands for it, the first by
			// name if there are several (the others are inlined)
			k := fnKey(o)
			if old := r[k]; old == nil || old.Origin() == nil || old.Origin() == old || fn.Name() < old.Name() {
				r[k] = fn
			}
			continue
		}
		if fn.Synthetic == "" {
			if k := fnKey(fn); r[k] == nil {
				r[k] = fn
			}
		}
	}
	return r
}

func sortedStr(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
