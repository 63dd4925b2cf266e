package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/shellyln/go-open-soql-parser"
const (
	tkBase  = "github.com/shellyln/takenoco/base"
	tkStr   = "github.com/shellyln/takenoco/string"
	tkObj   = "github.com/shellyln/takenoco/object"
	tkExtra = "github.com/shellyln/takenoco/extra"
	nameutl = "github.com/shellyln/go-nameutil/nameutil"
)

// Program is the type-checked program in SSA form.
type Program struct {
	Dir   string
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path
	Syn   map[string]*packages.Package
	Repo  []*ssa.Package // packages of the repository, in dependency order
	Funcs int

	takenOnce sync.Once
	taken     map[string]string
}

// undecided is raised (as a panic) when the analysis cannot decide something.
type undecided struct{ msg string }

func (u undecided) Error() string { return u.msg }

func undec(format string, a ...interface{}) { panic(undecided{fmt.Sprintf(format, a...)}) }

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

func load(dir string, env []string, patterns ...string) *Program {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(append([]string{}, os.Environ()...), env...),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		undec("cannot load the program: %v", err)
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !isRepoPath(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			fmt.Println("type-check error:", e)
			nerr++
		}
	})
	if nerr > 0 || len(ps) == 0 {
		undec("the program does not type-check (%d errors, %d packages)", nerr, len(ps))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{Dir: dir, Prog: prog, Pkgs: map[string]*ssa.Package{}, Syn: map[string]*packages.Package{}}
	for _, p := range prog.AllPackages() {
		r.Pkgs[p.Pkg.Path()] = p
	}
	seen := map[string]bool{}
	packages.Visit(ps, nil, func(p *packages.Package) { // post order
		r.Syn[p.PkgPath] = p
		if isRepoPath(p.PkgPath) && !seen[p.PkgPath] {
			seen[p.PkgPath] = true
			if sp := r.Pkgs[p.PkgPath]; sp != nil {
				r.Repo = append(r.Repo, sp)
			}
		}
	})
	r.Funcs = len(ssautil.AllFunctions(prog))
	return r
}

func (p *Program) pos(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	ps := p.Prog.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", relPath(ps.Filename), ps.Line)
}

func relPath(f string) string {
	if i := strings.Index(f, "/soql/"); i >= 0 {
		return f[i+1:]
	}
	if i := strings.Index(f, "/wasm/"); i >= 0 {
		return f[i+1:]
	}
	if i := strings.LastIndex(f, "/mod/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

func (p *Program) at(i interface {
	Parent() *ssa.Function
	String() string
}) string {
	return fmt.Sprintf("%s [%s]", p.pos(i.Parent()), i.Parent().RelString(nil))
}

func (p *Program) instrPos(i ssa.Instruction) string {
	ps := p.Prog.Fset.Position(i.Pos())
	if !ps.IsValid() {
		// nearest preceding position in the block
		if b := i.Block(); b != nil {
			for _, j := range b.Instrs {
				if q := p.Prog.Fset.Position(j.Pos()); q.IsValid() {
					ps = q
				}
				if j == i {
					break
				}
			}
		}
	}
	fn := i.Parent()
	if !ps.IsValid() {
		return p.at(i.(ssa.Instruction))
	}
	return fmt.Sprintf("%s:%d [%s]", relPath(ps.Filename), ps.Line, shortFn(fn))
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/soql/", "")
}

// pkgFn finds a package-level function or method by package path and name.
func (p *Program) pkgFn(path, name string) *ssa.Function {
	sp := p.Pkgs[path]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) parseFn() *ssa.Function {
	f := p.pkgFn(modPath+"/soql/parser", "Parse")
	if f == nil {
		undec("function Parse of package soql/parser is not found")
	}
	return f
}

func (p *Program) namedType(path, name string) *types.Named {
	sp := p.Pkgs[path]
	if sp == nil {
		undec("package %s is not found", path)
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		undec("type %s.%s is not found", path, name)
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		undec("%s.%s is not a defined type", path, name)
	}
	return n
}

func fullName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// findFn finds a function or method (of any receiver) of a package by name.
func (p *Program) findFn(path, name string) *ssa.Function {
	if f := p.pkgFn(path, name); f != nil {
		return f
	}
	sp := p.Pkgs[path]
	if sp == nil {
		return nil
	}
	var r *ssa.Function
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Pkg == sp && f.Name() == name && f.Synthetic == "" {
			r = f
		}
	}
	return r
}
