package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository in SSA form.
type Program struct {
	dir       string
	fset      *token.FileSet
	ssa       *ssa.Program
	pkgs      map[string]*ssa.Package // by import path suffix: "", parse, format, cljfmt
	pps       map[string]*packages.Package
	paths     map[string]bool
	infos     map[*ssa.Function]*fnInfo
	universes map[string]*universe
	fns       []*ssa.Function // every function of the repository with a body
	module    string
}

func loadProgram(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, fset: fset, pkgs: map[string]*ssa.Package{}, pps: map[string]*packages.Package{},
		paths: map[string]bool{}, infos: map[*ssa.Function]*fnInfo{}, universes: map[string]*universe{}}
	for _, pp := range ps {
		for _, e := range pp.Errors {
			return nil, fmt.Errorf("%s: %v", pp.PkgPath, e)
		}
		if pp.Module != nil {
			p.module = pp.Module.Path
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for i, sp := range sps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		key := strings.TrimPrefix(strings.TrimPrefix(ps[i].PkgPath, p.module), "/")
		p.pkgs[key] = sp
		p.pps[key] = ps[i]
		p.paths[ps[i].PkgPath] = true
	}
	for _, key := range []string{"", "parse", "format", "cljfmt"} {
		if p.pkgs[key] == nil {
			return nil, fmt.Errorf("package %q of module %s not found", key, p.module)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.ours(fn) && len(fn.Blocks) > 0 {
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.findUniverses()
	return p, nil
}

// fnPkg is the package a function belongs to, also for wrappers and closures.
func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (p *Program) ours(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && p.paths[pk.Path()]
}

func (p *Program) ourPkg(pk *types.Package) bool { return pk != nil && p.paths[pk.Path()] }

// findUniverses lists the implementations of the repository's interfaces
// that have an unexported method and so cannot be implemented elsewhere.
func (p *Program) findUniverses() {
	for _, sp := range p.pkgs {
		scope := sp.Pkg.Scope()
		for _, name := range scope.Names() {
			tn, ok := scope.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			it, ok := named.Underlying().(*types.Interface)
			if !ok {
				continue
			}
			closed := false
			for i := 0; i < it.NumMethods(); i++ {
				if !it.Method(i).Exported() {
					closed = true
				}
			}
			if !closed {
				continue
			}
			u := &universe{iface: named}
			for _, n2 := range scope.Names() {
				tn2, ok := scope.Lookup(n2).(*types.TypeName)
				if !ok || tn2.IsAlias() || types.IsInterface(tn2.Type()) {
					continue
				}
				for _, t := range []types.Type{tn2.Type(), types.NewPointer(tn2.Type())} {
					if types.Implements(t, it) {
						u.impls = append(u.impls, t)
						u.keys = append(u.keys, typeKey(t))
						break
					}
				}
			}
			p.universes[typeKey(named)] = u
		}
	}
}

// nodeIface returns the parse.Node interface: the closed interface that the
// elements of the tree's roots have.
func (p *Program) nodeIface() *types.Named {
	o := p.pkgs["parse"].Pkg.Scope().Lookup("Node")
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := sp.Pkg.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if sel := p.ssa.MethodSets.MethodSet(t).Lookup(sp.Pkg, name[i+1:]); sel != nil {
				return p.ssa.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(name)
}

// calleeName names a statically known or interface callee: "pkg.Func",
// "(*pkg.T).Method" or "(pkg.I).Method".
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.String()
}

// syntaxFiles returns the files of a package.
func (p *Program) files(pkg string) []*ast.File { return p.pps[pkg].Syntax }

// allCalls visits every call, go and defer instruction of the repository.
func (p *Program) allCalls(f func(fn *ssa.Function, c ssa.CallInstruction)) {
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					f(fn, c)
				}
			}
		}
	}
}
