package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked program of /repo in SSA form.
type Program struct {
	Repo     string
	SSA      *ssa.Program
	Pkgs     map[string]*ssa.Package // by path below the module, "" for the root
	Module   string
	refs     map[*ssa.Global][]ssa.Instruction
	PkgNames []string
	NumFuncs int
}

var loaded = map[string]*Program{}

func loadProgram(repo string) (*Program, error) {
	if p := loaded[repo]; p != nil {
		return p, nil
	}
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOSUMDB", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir: repo, Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("/repo does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	prog.Build()
	p := &Program{Repo: repo, SSA: prog, Pkgs: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA form for %s", pkgs[i].PkgPath)
		}
		if pkgs[i].Module != nil {
			p.Module = pkgs[i].Module.Path
		}
	}
	for i, sp := range spkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, p.Module), "/")
		p.Pkgs[rel] = sp
		p.PkgNames = append(p.PkgNames, pkgs[i].PkgPath)
	}
	sort.Strings(p.PkgNames)
	for fn := range ssautil.AllFunctions(prog) {
		if p.inScope(fn) && len(fn.Blocks) > 0 {
			p.NumFuncs++
		}
	}
	loaded[repo] = p
	return p, nil
}

// inScope reports whether fn is defined in the repository.
func (p *Program) inScope(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), p.Module)
	}
	if o := fn.Origin(); o != nil && o != fn {
		return p.inScope(o)
	}
	if fn.Parent() != nil {
		return p.inScope(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), p.Module)
	}
	return false
}

// body returns the function whose SSA body stands for fn: the generic function of an instance.
func body(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func (p *Program) pos(x token.Pos) string {
	if !x.IsValid() {
		return ""
	}
	ps := p.SSA.Fset.Position(x)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.Repo+"/"), ps.Line)
}

func (p *Program) instrPos(i ssa.Instruction) string {
	if s := p.pos(i.Pos()); s != "" {
		return s
	}
	for _, j := range i.Block().Instrs {
		if s := p.pos(j.Pos()); s != "" {
			return s
		}
	}
	return p.pos(i.Parent().Pos())
}

// fn finds a package-level function.
func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// named finds a package-level named type.
func (p *Program) named(pkg, name string) *types.Named {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// method finds the function that implements method name of *T, and the field path from T to its receiver.
func (p *Program) method(t *types.Named, name string) (*ssa.Function, []int) {
	o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, t.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil, nil
	}
	fn := p.SSA.FuncValue(f.Origin())
	if fn == nil {
		return nil, nil
	}
	return fn, idx[:len(idx)-1]
}

func origin(n *types.Named) *types.Named {
	if n == nil {
		return nil
	}
	return n.Origin()
}

// namedOf returns the generic named type of t or of what t points to.
func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = types.Unalias(p.Elem())
		}
	}
	n, _ := t.(*types.Named)
	return origin(n)
}

func dumpSSA(repo, name string) {
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if p.inScope(fn) && strings.Contains(fn.String(), name) && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		fn.WriteTo(os.Stdout)
	}
}
