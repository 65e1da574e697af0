package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------------------------------------------------------------------------
// Loading: type-check /repo's current source and build its SSA form.
// ---------------------------------------------------------------------------

type Program struct {
	root   string
	goarch string
	ssa    *ssa.Program
	fset   *token.FileSet
	pkgs   []*packages.Package // repository packages (non-test)
	byPath map[string]*packages.Package
	spkgs  map[string]*ssa.Package
	repo   map[*types.Package]bool
	module string
	errs   []string
}

func repoRoot() string {
	if r := os.Getenv("SVB_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// goEnv: goarch is an architecture, or os/arch.
func goEnv(goarch string) []string {
	goos := "linux"
	if i := strings.IndexByte(goarch, '/'); i >= 0 {
		goos, goarch = goarch[:i], goarch[i+1:]
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOSUMDB", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOOS="+goos, "GOARCH="+goarch, "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOSUMDB=off")
	return env
}

// Load type-checks the packages for an architecture and builds the SSA form of
// the repository's.
func Load(root, goarch string, patterns ...string) (*Program, error) {
	p, err := LoadTypes(root, goarch, patterns...)
	if err != nil || len(p.errs) > 0 {
		return p, err
	}
	p.buildSSA()
	return p, nil
}

// LoadTypes only type-checks.
func LoadTypes(root, goarch string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   root,
		Env:   goEnv(goarch),
		Tests: false,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{root: root, goarch: goarch, byPath: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, repo: map[*types.Package]bool{}}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages match %v", patterns)
	}
	p.fset = pk[0].Fset
	for _, x := range pk {
		if x.Module != nil {
			p.module = x.Module.Path
		}
		p.pkgs = append(p.pkgs, x)
		p.byPath[x.PkgPath] = x
	}
	packages.Visit(pk, nil, func(x *packages.Package) {
		for _, e := range x.Errors {
			p.errs = append(p.errs, e.Error())
		}
		if x.Types != nil && p.module != "" && (x.PkgPath == p.module || strings.HasPrefix(x.PkgPath, p.module+"/")) {
			p.repo[x.Types] = true
		}
	})
	sort.Strings(p.errs)
	return p, nil
}

func (p *Program) buildSSA() {
	pk := p.pkgs
	prog, spkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	p.ssa = prog
	for i, s := range spkgs {
		if s != nil {
			p.spkgs[pk[i].PkgPath] = s
		}
	}
	for _, s := range prog.AllPackages() {
		if p.repo[s.Pkg] {
			s.Build()
			p.spkgs[s.Pkg.Path()] = s
		} else if inlineStd[s.Pkg.Path()] {
			s.Build()
		}
	}
}

// standard library packages whose function bodies are analysed like the
// repository's (plain byte and bit manipulation)
var inlineStd = map[string]bool{"encoding/binary": true, "internal/byteorder": true}

func (p *Program) isRepo(s *ssa.Package) bool { return s != nil && p.repo[s.Pkg] }

func (p *Program) rel(f string) string {
	if r, err := filepath.Rel(p.root, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func (p *Program) pos(t token.Pos) string {
	if !t.IsValid() {
		return "?"
	}
	q := p.fset.Position(t)
	return fmt.Sprintf("%s:%d", p.rel(q.Filename), q.Line)
}

func (p *Program) posShort(t token.Pos) string {
	if !t.IsValid() {
		return "?"
	}
	q := p.fset.Position(t)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (p *Program) blockPos(b *ssa.BasicBlock) string {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			return p.pos(ins.Pos())
		}
	}
	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			if ins.Pos().IsValid() {
				return p.pos(ins.Pos())
			}
		}
	}
	return b.Parent().String()
}

// fn finds a package-level function; pkg is relative to the module.
func (p *Program) fn(pkg, name string) *ssa.Function {
	s := p.spkgs[p.module+"/"+pkg]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// funcsOf: all functions with source in a package, including methods and
// function literals.
func (p *Program) funcsOf(s *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range s.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := s.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.ssa.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.ssa.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" && f.Pkg == s {
						dup := false
						for _, o := range out {
							if o == f {
								dup = true
							}
						}
						if !dup {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Program) libPaths() []string {
	var out []string
	for path := range p.spkgs {
		out = append(out, path)
	}
	sort.Strings(out)
	return out
}

var _ = ast.Inspect
