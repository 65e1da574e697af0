package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

// ---------------------------------------------------------------------------
// C16: other architectures
// ---------------------------------------------------------------------------

func init() {
	prop("C16", "Every package of the module is type-checked for every architecture the toolchain supports (and for the other operating systems on amd64 and arm64); a function without a body needs an assembly TEXT symbol in that build; the exported functions and methods and their signatures are compared with amd64 (the assembly routines themselves excepted). For every build that differs in the files selected, the size of int or the value of a constant expression (thorough: for every architecture), the automatic and portable stream entry points and the batch coders are analysed as on amd64: no path may reach an explicit panic or a function without a body, and the content must be right.", checkC16)
}

var archs = []string{
	"386", "arm", "arm64", "loong64", "mips", "mipsle", "mips64", "mips64le", "ppc64", "ppc64le", "riscv64", "s390x",
	"js/wasm", "wasip1/wasm", "darwin/arm64", "windows/arm64", "darwin/amd64", "windows/amd64", "freebsd/amd64",
}

var textRe = regexp.MustCompile(`(?m)^\s*TEXT\s+([^\s(]*)[·.]([A-Za-z_0-9]+)(<[^>]*>)?\(SB\)`)

// bodyless: the function declarations without a body, per package path.
func (p *Program) bodyless() map[string]map[string]string {
	out := map[string]map[string]string{}
	for path, pk := range p.byPath {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body != nil {
					continue
				}
				if out[path] == nil {
					out[path] = map[string]string{}
				}
				out[path][fd.Name.Name] = p.pos(fd.Pos())
			}
		}
	}
	return out
}

func (p *Program) textSymbols(path string) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.byPath[path].OtherFiles {
		if !strings.HasSuffix(f, ".s") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range textRe.FindAllStringSubmatch(string(b), -1) {
			out[m[2]] = true
		}
	}
	return out
}

// api: exported functions and methods with their signatures.
func (p *Program) api() map[string]string {
	out := map[string]string{}
	qual := func(x *types.Package) string { return x.Path() }
	sig := func(f *types.Func) string {
		s := f.Type().(*types.Signature)
		return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), qual)
	}
	for path, pk := range p.byPath {
		if pk.Types == nil || pk.Name == "main" {
			continue
		}
		rel := strings.TrimPrefix(path, p.module+"/")
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if !o.Exported() {
				continue
			}
			switch x := o.(type) {
			case *types.Func:
				out[rel+"."+n] = sig(x)
			case *types.TypeName:
				ms := types.NewMethodSet(types.NewPointer(x.Type()))
				for i := 0; i < ms.Len(); i++ {
					if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Exported() {
						out[rel+"."+n+"."+f.Name()] = sig(f)
					}
				}
			}
		}
	}
	return out
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// wordBits: the size of int in the build.
func (p *Program) wordBits() int {
	for _, pk := range p.byPath {
		if pk.TypesSizes != nil {
			return 8 * int(pk.TypesSizes.Sizeof(types.Typ[types.Int]))
		}
	}
	return 64
}

// variant identifies what of a build can influence the analysis of the
// packages under pkg: the files selected (of these packages and of the standard
// packages whose bodies are analysed), the size of int and the value of every
// constant expression, which is where the compiler folds in GOARCH, sizes and
// the like.
func (p *Program) variant() string {
	h := sha256.New()
	var lines []string
	std := map[string]bool{}
	for path, pk := range p.byPath {
		if !strings.HasPrefix(path, p.module+"/pkg/") {
			continue
		}
		for _, f := range pk.CompiledGoFiles {
			lines = append(lines, "file "+p.rel(f))
		}
		for _, f := range pk.OtherFiles {
			lines = append(lines, "file "+p.rel(f))
		}
		packages.Visit([]*packages.Package{pk}, nil, func(x *packages.Package) {
			if inlineStd[x.PkgPath] && !std[x.PkgPath] {
				std[x.PkgPath] = true
				for _, f := range x.CompiledGoFiles {
					lines = append(lines, "file "+f)
				}
			}
		})
		if pk.TypesInfo == nil {
			continue
		}
		for e, tv := range pk.TypesInfo.Types {
			if tv.Value != nil {
				lines = append(lines, fmt.Sprintf("%s %d %s %s", p.fset.Position(e.Pos()), e.End()-e.Pos(), tv.Value.ExactString(), tv.Type))
			}
		}
	}
	sort.Strings(lines)
	fmt.Fprintf(h, "%d\n%s", p.wordBits(), strings.Join(lines, "\n"))
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

func checkC16(c *Check) {
	base, err := Load(repoRoot(), "amd64", "./...")
	if err != nil || len(base.errs) > 0 {
		c.fail("undecided", "load", "go.mod", fmt.Sprint("the amd64 build cannot be loaded: ", err, base.errs))
		return
	}
	c.prog = base
	c.count("packages_on_amd64", len(base.byPath))
	asmOnly := map[string]bool{}
	for path, m := range base.bodyless() {
		for n := range m {
			asmOnly[strings.TrimPrefix(path, base.module+"/")+"."+n] = true
		}
	}
	ref := base.api()
	// only a summary of each build is kept: the programs are large
	type res struct {
		err      error
		errs     []string
		files    map[string]int
		bodyless map[string]map[string]string
		syms     map[string]map[string]bool
		api      map[string]string
		bits     int
		variant  string
		mod      string
	}
	rs := make([]res, len(archs))
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for i, a := range archs {
		wg.Add(1)
		go func(i int, a string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			p, err := LoadTypes(repoRoot(), a, "./...")
			if err != nil {
				rs[i].err = err
				return
			}
			r := res{errs: p.errs, files: map[string]int{}, bodyless: p.bodyless(), syms: map[string]map[string]bool{}, api: p.api(), variant: p.variant(), bits: p.wordBits(), mod: p.module}
			for path, pk := range p.byPath {
				r.files[path] = len(pk.CompiledGoFiles)
				r.syms[path] = p.textSymbols(path)
			}
			rs[i] = r
		}(i, a)
	}
	wg.Wait()
	groups, wordOf := map[string]string{}, map[string]int{}
	var order, again []string
	for i, a := range archs {
		r := rs[i]
		if r.err != nil {
			c.fail("undecided", "load for "+a, "go.mod", r.err.Error())
			continue
		}
		c.count("builds_type_checked", 1)
		c.count("packages_type_checked", len(r.files))
		c.obl += len(r.files)
		for _, e := range r.errs {
			c.fail("compile", "build for "+a, "?", e)
		}
		for path := range base.byPath {
			c.obl++
			if len(base.byPath[path].CompiledGoFiles) == 0 {
				continue // only tests
			}
			if r.files[path] == 0 {
				c.fail("compile", "build for "+a, path, "the package has no files on this architecture")
			}
		}
		if len(r.errs) > 0 {
			continue
		}
		if !strings.HasSuffix(a, "amd64") {
			for path, m := range r.bodyless {
				syms := r.syms[path]
				for n, pos := range m {
					c.obl++
					if !syms[n] {
						c.fail("compile", "build for "+a, pos, n+" has neither a body nor an assembly routine on "+a)
					}
				}
			}
		}
		got := r.api
		for n, s := range ref {
			c.obl++
			c.count("api_entries_compared", 1)
			switch g, ok := got[n]; {
			case asmOnly[n]:
			case !ok:
				c.fail("api", n, "build for "+a, "exported on amd64 and missing on "+a)
			case g != s:
				c.fail("api", n, "build for "+a, fmt.Sprintf("has signature %s on %s and %s on amd64", g, a, s))
			}
		}
		for n := range got {
			if _, ok := ref[n]; !ok {
				if i := strings.LastIndexByte(n, '.'); r.bodyless[r.mod+"/"+n[:i]][n[i+1:]] != "" {
					continue
				}
				c.fail("api", n, "build for "+a, "exported on "+a+" and missing on amd64")
			}
		}
		if strings.HasSuffix(a, "amd64") {
			continue
		}
		wordOf[a] = r.bits
		if _, ok := groups[r.variant]; !ok {
			order = append(order, r.variant)
			groups[r.variant] = a
		} else if c.tier == "thorough" {
			// every architecture on its own, after one of each kind
			again = append(again, a)
			groups[a] = a
		}
	}
	c.count("distinct_builds", len(order))
	if len(c.findings) > 0 {
		return
	}
	for i, fs := range append(append([]string(nil), order...), again...) {
		if i >= len(order) && time.Since(c.start) > 300*time.Second {
			c.sample("build for %s: same files, sizes and constants as one analysed above, not repeated", fs)
			continue
		}
		a := groups[fs]
		c.count("builds_analysed", 1)
		c.sample("build for %s (%d-bit int): analysed", a, wordOf[a])
		setWord(wordOf[a])
		c.onArch(a)
		setWord(64)
	}
	if len(order) == 0 {
		c.fail("undecided", "architectures", "?", "no non-amd64 build was analysed")
	}
}

// onArch analyses the automatic and portable entry points of one architecture.
func (c *Check) onArch(a string) {
	p, err := Load(repoRoot(), a, "./pkg/...")
	if err != nil || len(p.errs) > 0 {
		c.fail("undecided", "load for "+a, "go.mod", fmt.Sprint(err, p.errs))
		return
	}
	sub := &Check{prop: c.prop, tier: c.tier, seen: map[string]bool{}, cov: map[string]any{}, counts: c.counts, start: c.start, prog: p}
	sub.world = makeWorld(p)
	w := sub.world
	for _, f := range w.findings {
		if f.Cat == "undecided" {
			sub.add(f)
		}
	}
	cats := []string{"panic", "termination", "undecided", "content"}
	sub.streams(func(s *Stream) bool { return s.variant != "accelerated" }, cats)
	sub.kernels(func(k *Kernel) bool {
		return !strings.HasSuffix(k.fn.Name(), "Fast") && !k.asm
	}, cats, false, "Put8uint32", "Put8uint32Delta", "Get8uint32", "Get8uint32Delta",
		"Put8uint32Scalar", "Put8uint32DeltaScalar", "Put4uint32Scalar", "Put4uint32DeltaScalar",
		"Get8uint32Scalar", "Get8uint32DeltaScalar", "Get4uint32Scalar", "Get4uint32DeltaScalar")
	c.obl += sub.obl
	for _, s := range sub.samples {
		c.sample("%s: %s", a, s)
	}
	for _, f := range sub.findings {
		f.Msg = "[" + a + "] " + f.Msg
		c.add(f)
	}
}
