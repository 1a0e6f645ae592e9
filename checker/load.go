package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/viant/velty"

// Prog is the type-checked, SSA-converted program under analysis.
type Prog struct {
	SSA      *ssa.Program
	Pkgs     []*ssa.Package
	ByPath   map[string]*ssa.Package
	Syntax   map[string]*packages.Package
	Fset     *token.FileSet
	Dir      string
	All      map[*ssa.Function]bool
	baseline map[string]fnPrint
	known    map[*ssa.Function]bool
	Funcs    []*ssa.Function // module functions (with bodies), sorted
	NumDeps  int
}

func loadProg(dir string) (*Prog, error) {
	goroot := os.Getenv("VERIF_GOROOT")
	if goroot == "" {
		goroot = "/opt/veriftools/go1.23.12"
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOROOT", "PATH", "CGO_ENABLED", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOROOT="+goroot, "GOFLAGS=-mod=readonly",
		"CGO_ENABLED=0", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Fset: token.NewFileSet()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{SSA: prog, ByPath: map[string]*ssa.Package{}, Fset: cfg.Fset, Dir: dir, Syntax: map[string]*packages.Package{}}
	for _, sp := range prog.AllPackages() {
		p.ByPath[sp.Pkg.Path()] = sp
		if inModule(sp.Pkg.Path()) {
			p.Pkgs = append(p.Pkgs, sp)
		} else {
			p.NumDeps++
		}
	}
	for _, lp := range pkgs {
		p.Syntax[lp.PkgPath] = lp
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].Pkg.Path() < p.Pkgs[j].Pkg.Path() })
	p.All = ssautil.AllFunctions(prog)
	for f := range p.All {
		if f.Blocks != nil && inModule(fnPkg(f)) {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	if len(p.Pkgs) < 10 || len(p.Funcs) < 300 {
		return nil, fmt.Errorf("only %d packages / %d functions of the module were loaded", len(p.Pkgs), len(p.Funcs))
	}
	return p, nil
}

// inModule reports whether an import path is one of the module's library packages (bench programs excluded).
func inModule(path string) bool {
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	return !strings.HasPrefix(path, modPath+"/bench") && !strings.HasPrefix(path, modPath+"/internal/bench")
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	// synthetic wrappers (bound methods, thunks)
	if len(f.FreeVars) > 0 {
		if n := namedOf(f.FreeVars[0].Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// pkg returns a module package by its path relative to the module root.
func (p *Prog) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	return p.ByPath[path]
}

// fn resolves "rel/pkg.Name" or "rel/pkg.Type.Method"; renamed functions are found by what they are.
func (p *Prog) fn(rel, name string) *ssa.Function {
	if p.pkg(rel) == nil {
		undecided("package %q is not part of the program", rel)
	}
	if f := p.fnOpt(rel, name); f != nil {
		return f
	}
	undecided("function %s.%s not found", rel, name)
	return nil
}

// fnOpt is fn for functions that may be absent.
func (p *Prog) fnOpt(rel, name string) *ssa.Function {
	if f := p.fnNamed(rel, name); f != nil {
		return f
	}
	return p.renamed(rel, name)
}

func (p *Prog) fnNamed(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	parts := strings.Split(name, ".")
	if len(parts) == 1 {
		return pk.Func(name)
	}
	tn, ok := pk.Members[parts[0]].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := p.SSA.MethodSets.MethodSet(T)
		if sel := ms.Lookup(pk.Pkg, parts[1]); sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) typ(rel, name string) types.Type {
	pk := p.pkg(rel)
	if pk == nil {
		undecided("package %q is not part of the program", rel)
	}
	o := pk.Pkg.Scope().Lookup(name)
	tn, ok := o.(*types.TypeName)
	if !ok {
		undecided("type %s.%s not found", rel, name)
	}
	return tn.Type()
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) fnPos(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	return p.pos(f.Pos())
}

// undecidedErr aborts the current obligation: the analysis could not decide it.
type undecidedErr struct{ msg string }

func undecided(f string, args ...interface{}) {
	panic(undecidedErr{fmt.Sprintf(f, args...)})
}

// typOf is a type of any package of the program.
func (p *Prog) typOf(path, name string) types.Type {
	sp := p.ByPath[path]
	if sp == nil || sp.Type(name) == nil {
		undecided("type %s.%s not found", path, name)
	}
	return sp.Type(name).Type()
}
