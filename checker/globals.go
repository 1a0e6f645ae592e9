package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initGlobals interprets the module's package initialisers and folds globals that nothing else writes.
func (e *Eng) initGlobals() {
	e.mutable = map[string]bool{}
	fold := func(path string) bool { return inModule(path) || path == convPkg }
	fns := e.P.Funcs
	for f := range e.P.All {
		if f.Blocks != nil && fnPkg(f) == convPkg {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		isInit := f.Name() == "init" && f.Parent() == nil || f.Parent() != nil && false
		if f.Pkg != nil && f.Pkg.Func("init") == f {
			isInit = true
		}
		if isInit {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !fold(g.Pkg.Pkg.Path()) {
						continue
					}
					if !readOnlyUse(in, g, 0) {
						e.mutable[g.Pkg.Pkg.Path()+"."+g.Name()] = true
					}
				}
			}
		}
	}
	e.inInit, initPhase = true, true
	defer func() { e.inInit, initPhase = false, false }()
	e.globals = map[*Term]*Term{}
	st := newState()
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || done[p] || !fold(p.Pkg.Path()) {
			return
		}
		done[p] = true
		for _, imp := range p.Pkg.Imports() {
			visit(e.P.ByPath[imp.Path()])
		}
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			return
		}
		eng := e.with(Opts{MaxUnroll: 400, InlineDep: func(f *ssa.Function) bool {
			return isConverter(f) || fnPkg(f) == parslyPkg && f.Name() == "NewToken"
		}})
		eng.globals, eng.inInit = e.globals, true
		eng.O.Opaque = func(x *ssa.Function) bool {
			return x.Pkg != nil && x.Pkg.Func("init") == x && x != f
		}
		g := mk("global", p.Pkg.Path()+".init$guard", nil)
		st.heap[g] = tBool(false)
		outs := eng.Call(st, f, nil, nil)
		var ok []Outcome
		for _, o := range outs {
			if o.Panic == nil {
				ok = append(ok, o)
			}
		}
		if len(ok) != 1 {
			undecided("package initialiser of %s has %d outcomes", p.Pkg.Path(), len(ok))
		}
		st = ok[0].St
	}
	for _, p := range e.P.Pkgs {
		visit(p)
	}
	for a, v := range st.heap {
		e.globals[a] = v
	}
	// reflect types named by a dependency
	for n, t := range map[string]types.Type{"InterfaceType": types.NewInterfaceType(nil, nil), "ErrorType": types.Universe.Lookup("error").Type()} {
		e.globals[mk("global", "github.com/viant/xreflect."+n, nil)] = rtype(t)
	}
	// maps reachable from immutable globals keep their content
	for a, v := range st.heap {
		if a.Op == "mapelem" {
			e.globals[mk("mapmark", "", nil, a.Args[0])] = tBool(true)
		}
		if v.Op == "makemap" {
			e.globals[mk("mapmark", "", nil, v)] = tBool(true)
		}
	}
	e.initOK = true
}

// readOnlyUse reports whether an instruction only reads through the address v.
func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := in.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		return allReadOnly(x, depth)
	case *ssa.IndexAddr:
		return allReadOnly(x, depth)
	case *ssa.Slice:
		return sliceReadOnly(x, depth)
	case *ssa.Call:
		// a method called on the address of a dependency's value type (parsly tokens) is a read
		return false
	}
	return false
}

func sliceReadOnly(x *ssa.Slice, depth int) bool { return false }

func allReadOnly(v ssa.Value, depth int) bool {
	for _, r := range *v.Referrers() {
		if !readOnlyUse(r, v, depth+1) {
			return false
		}
	}
	return true
}
