package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Checks: one per property.
// ---------------------------------------------------------------------------

type Check struct {
	prop     string
	tier     string
	findings []Finding
	seen     map[string]bool
	obl      int // rule instances / obligations examined
	samples  []string
	cov      map[string]any
	counts   map[string]int
	assume   []string
	start    time.Time

	world *World
	prog  *Program
}

func (c *Check) thorough() bool { return c.tier == "thorough" }

func (c *Check) add(fs ...Finding) {
	for _, f := range fs {
		k := f.Cat + "|" + f.Fn + "|" + f.Pos + "|" + f.Msg
		if c.seen[k] {
			continue
		}
		c.seen[k] = true
		c.findings = append(c.findings, f)
	}
}

func (c *Check) fail(cat, fn, pos, msg string) { c.add(Finding{cat, fn, pos, msg}) }

func (c *Check) count(k string, n int) { c.counts[k] += n }

func (c *Check) sample(format string, a ...any) {
	if len(c.samples) < 40 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

func only(fs []Finding, cats ...string) []Finding {
	var out []Finding
	for _, f := range fs {
		for _, k := range cats {
			if f.Cat == k {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// load type-checks the amd64 build and analyses package initialisation.
func (c *Check) load() bool {
	if c.world != nil {
		return true
	}
	p, err := Load(repoRoot(), "amd64", "./pkg/...")
	if err != nil {
		c.fail("undecided", "load", "go.mod", "the source cannot be loaded: "+err.Error())
		return false
	}
	c.prog = p
	if len(p.errs) > 0 {
		for _, e := range p.errs {
			c.fail("undecided", "load", "?", "the source does not type-check: "+e)
		}
		return false
	}
	c.world = makeWorld(p)
	c.count("packages_loaded", len(p.pkgs))
	c.count("initialisation_cases", len(c.world.cases))
	c.count("initialisation_steps", c.world.steps)
	c.count("assembly_routines", len(c.world.asm.list))
	for _, f := range c.world.findings {
		if f.Cat == "undecided" {
			c.add(f)
		}
	}
	return true
}

func makeWorld(p *Program) *World {
	var inits []string
	for _, x := range p.libPaths() {
		if p.isRepo(p.spkgs[x]) && p.spkgs[x].Pkg.Name() != "main" {
			inits = append(inits, x)
		}
	}
	w := NewWorld(p, inits)
	w.LoadAsm()
	return w
}

// libFuncs: exported functions of the library packages (not util, not main).
func (w *World) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, path := range w.prog.libPaths() {
		sp := w.prog.spkgs[path]
		if !w.prog.isRepo(sp) || sp.Pkg.Name() == "main" || strings.HasSuffix(path, "/util") {
			continue
		}
		for _, f := range w.prog.funcsOf(sp) {
			if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}

func short(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.String()
}

// requireNames: the entry points a property is about must have been found.
func (c *Check) requireNames(have map[string]bool, names ...string) {
	for _, n := range names {
		if !have[n] {
			c.fail("undecided", n, "?", "entry point "+n+" was not found with the expected signature; nothing was decided about it")
		}
	}
}

// ---- streams ----

const (
	quickCounts    = 128
	thoroughCounts = 224
)

type streamVerdict struct {
	proved   bool // for every count
	bounded  int64
	findings []Finding
	run      StreamRun
	why      string
}

func (w *World) safeStream(s *Stream, ci int, count int64) (r StreamRun) {
	defer func() {
		if x := recover(); x != nil {
			r.findings = append(r.findings, Finding{"undecided", s.fn.RelString(nil), w.prog.pos(s.fn.Pos()), fmt.Sprint("analysis failure: ", x)})
		}
	}()
	return w.runStream(s, ci, count)
}

// decideStream decides one entry point in one initialisation case with respect
// to some categories of findings.
func (c *Check) decideStream(w *World, s *Stream, ci int, cats []string) streamVerdict {
	var v streamVerdict
	// With a broken coder a short list usually shows the violation at once;
	// only when none does is the entry point analysed with the coder inlined.
	w.fragile = true
	v.run = w.safeStream(s, ci, -1)
	w.fragile = false
	if len(only(v.run.findings, "undecided")) > 0 {
		for n := int64(0); n <= 8; n++ {
			var fs []Finding
			for _, f := range only(w.safeStream(s, ci, n).findings, cats...) {
				if f.Cat != "undecided" {
					f.Msg = fmt.Sprintf("[count=%d] %s", n, f.Msg)
					fs = append(fs, f)
				}
			}
			if len(fs) > 0 {
				v.findings = fs
				return v
			}
		}
		v.run = w.safeStream(s, ci, -1)
	}
	rel := only(v.run.findings, cats...)
	if len(rel) == 0 {
		v.proved = true
		if !c.thorough() {
			return v
		}
	}
	max := int64(quickCounts)
	if c.thorough() {
		max = thoroughCounts
	}
	v.bounded = max
	var mu sync.Mutex
	var wg sync.WaitGroup
	type cf struct {
		n  int64
		fs []Finding
	}
	var all []cf
	next := int64(0)
	var stop atomic.Bool
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ww := w.fork()
			ww.stop = &stop
			for {
				mu.Lock()
				n := next
				next++
				mu.Unlock()
				if n > max || stop.Load() {
					return
				}
				r := ww.safeStream(s, ci, n)
				mu.Lock()
				if stop.Load() {
					mu.Unlock()
					return
				}
				c.obl += r.obl + r.bounds
				c.count("constant_count_analyses", 1)
				if v.run.called == nil {
					v.run.called = map[*ssa.Function]bool{}
				}
				for f := range r.called {
					v.run.called[f] = true
				}
				if fs := only(r.findings, cats...); len(fs) > 0 {
					all = append(all, cf{n, fs})
					// one failing count is enough, unless it is merely
					// undecided: a smaller one may tell more
					for _, f := range fs {
						if f.Cat != "undecided" {
							stop.Store(true)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(all, func(i, j int) bool { return all[i].n < all[j].n })
	seen := map[string]bool{}
	for _, a := range all {
		for _, f := range a.fs {
			k := f.Cat + f.Fn + f.Pos
			if seen[k] {
				continue
			}
			seen[k] = true
			f.Msg = fmt.Sprintf("[count=%d] %s", a.n, f.Msg)
			v.findings = append(v.findings, f)
		}
	}
	if len(v.findings) > 0 || v.proved {
		return v
	}
	// no violation up to the bound, but no proof for every count either
	if why := w.beyondT(s.fn, max, false, v.run.called); why != "" {
		for _, f := range rel {
			f.Msg = "not established for every count, and " + why + ": " + f.Msg
			v.findings = append(v.findings, f)
		}
		return v
	}
	v.why = rel[0].String()
	return v
}

// beyond: does the code compare sizes with constants, or narrow them, such that
// behaviour up to the bound says nothing about larger counts?
func (w *World) beyond(fn *ssa.Function, max int64) string { return w.beyondT(fn, max, false, nil) }

// beyondT: as beyond; with signed set only signed sizes count, with within set
// only the functions in it (those that the analysed counts enter: a function
// that only larger counts enter needs a condition in one of these).
func (w *World) beyondT(fn *ssa.Function, max int64, signed bool, within map[*ssa.Function]bool) string {
	seen := map[*ssa.Function]bool{}
	why := ""
	var visit func(f *ssa.Function)
	isSize := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && (!signed || b.Info()&types.IsUnsigned == 0) && b.Kind() != types.Uint32 && b.Kind() != types.Uint8 && b.Kind() != types.Uint16
	}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !w.prog.isRepo(f.Pkg) || within != nil && !within[f] {
			return
		}
		seen[f] = true
		if k := w.kernel(f); k != nil && k.state == 2 && k.ok {
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					for _, o := range []ssa.Value{x.X, x.Y} {
						k, ok := o.(*ssa.Const)
						if !ok || k.Value == nil || !isSize(k.Type()) {
							continue
						}
						v := k.Int64()
						if x.Op == token.AND || x.Op == token.AND_NOT || x.Op == token.SHL || x.Op == token.SHR {
							continue
						}
						if v > max/8 || v < -max/8 {
							why = fmt.Sprintf("%s uses the constant %d at %s", f.Name(), v, w.prog.pos(x.Pos()))
						}
					}
				case *ssa.Convert:
					fw, _, ok1 := intType(x.X.Type())
					tw, _, ok2 := intType(x.Type())
					if ok1 && ok2 && isSize(x.X.Type()) && tw < fw && tw < 64 {
						if _, isC := x.X.(*ssa.Const); !isC {
							why = fmt.Sprintf("%s narrows a size to %d bits at %s", f.Name(), tw, w.prog.pos(x.Pos()))
						}
					}
				case ssa.CallInstruction:
					if t := x.Common().StaticCallee(); t != nil {
						visit(t)
					}
				case *ssa.MakeClosure:
					if t, ok := x.Fn.(*ssa.Function); ok {
						visit(t)
					}
				}
			}
		}
	}
	visit(fn)
	var fs []*ssa.Function
	for f := range within {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		visit(f)
	}
	return why
}

var streamCats = []string{"content", "panic", "termination", "undecided"}

// streamProps decides all entry points accepted by pick.
func (c *Check) streams(pick func(s *Stream) bool, cats []string) {
	w := c.world
	have := map[string]bool{}
	begin := time.Now()
	for _, s := range w.streams() {
		if !pick(s) {
			continue
		}
		have[s.fn.Name()] = true
		c.count("stream_entry_points", 1)
		for ci := range w.cases {
			// The verdict is known once something was found: a change that
			// also makes the loops hard to summarise must not run into the
			// time limit of the check.
			if len(c.findings) > 0 && time.Since(begin) > 90*time.Second {
				c.count("analyses_skipped_after_a_violation", 1)
				continue
			}
			v := c.decideStream(w, s, ci, cats)
			c.obl += v.run.obl + v.run.bounds
			c.count("analyses_for_every_count", 1)
			c.count("content_obligations", v.run.obl)
			c.count("bounds_obligations", v.run.bounds)
			c.count("loops_summarised", v.run.generalised)
			c.count("kernel_contract_uses", v.run.contracts)
			c.count("assembly_call_sites_visited", v.run.asm)
			c.count("assembly_footprints_checked", v.run.asmBnds)
			c.count("return_paths_checked", v.run.outcomes)
			c.add(v.findings...)
			if v.proved {
				c.count("entry_point_cases_decided_for_every_count", 1)
				c.sample("%s [%s]: every count, %d return paths, %d content and %d bounds obligations", short(s.fn), v.run.start, v.run.outcomes, v.run.obl, v.run.bounds)
			} else if len(v.findings) == 0 {
				c.count("entry_point_cases_decided_up_to_bound_only", 1)
				c.sample("%s [%s]: no summary for every count (%s); decided for counts 0..%d with no size-dependent behaviour beyond", short(s.fn), v.run.start, v.why, v.bounded)
			}
		}
	}
	var need []string
	for _, n := range []string{"WriteAll", "WriteAllScalar", "WriteAllFast", "WriteAllDelta", "WriteAllDeltaScalar", "WriteAllDeltaFast",
		"ReadAll", "ReadAllScalar", "ReadAllFast", "ReadAllDelta", "ReadAllDeltaScalar", "ReadAllDeltaFast"} {
		s := &Stream{dec: strings.HasPrefix(n, "Read"), delta: strings.Contains(n, "Delta")}
		switch {
		case strings.HasSuffix(n, "Scalar"):
			s.variant = "portable"
		case strings.HasSuffix(n, "Fast"):
			s.variant = "accelerated"
		default:
			s.variant = "automatic"
		}
		if pick(s) {
			need = append(need, n)
		}
	}
	c.requireNames(have, need...)
}

// ---- kernels ----

func (w *World) safeVerify(k *Kernel) {
	defer func() {
		if x := recover(); x != nil {
			k.state, k.ok = 2, false
			k.findings = append(k.findings, Finding{"undecided", k.fn.RelString(nil), w.prog.pos(k.fn.Pos()), fmt.Sprint("analysis failure: ", x)})
		}
	}()
	if k.state == 0 {
		w.verifyKernel(k)
	}
}

// tables with which the assembly is meant to be called
func (w *World) sharedTable(st *State, name string, n int) ([]uint8, bool) {
	g := w.global("pkg/shared", name)
	if g == nil {
		return nil, false
	}
	it := w.interp()
	o := it.globals[g]
	if o == nil {
		return nil, false
	}
	v := it.loadElem(st, o, K(0), g.Type().(*types.Pointer).Elem())
	return it.tableBytes(st, v, n)
}

// asmCheck analyses an assembly routine against its kernel, with the tables of
// the shared package.
func (c *Check) asmCheck(k *Kernel) *AsmSummary {
	w := c.world
	f := w.asm.fns[k.fn]
	if f == nil {
		c.fail("undecided", k.fn.RelString(nil), c.prog.pos(k.fn.Pos()), "declared without a body and without analysed assembly")
		return nil
	}
	st := w.start(0)
	tab := "EncodeShuffleTable"
	if k.dec {
		tab = "DecodeShuffleTable"
	}
	var sh, ln []uint8
	ok := true
	if k.shuffle >= 0 {
		if sh, ok = w.sharedTable(st, tab, 4096); !ok {
			c.fail("undecided", k.fn.RelString(nil), c.prog.pos(k.fn.Pos()), "shared."+tab+" is not a known constant table")
			return nil
		}
	}
	if k.lens >= 0 {
		if ln, ok = w.sharedTable(st, "PerControlLenTable", 256); !ok {
			c.fail("undecided", k.fn.RelString(nil), c.prog.pos(k.fn.Pos()), "shared.PerControlLenTable is not a known constant table")
			return nil
		}
	}
	return w.asmSummary(k, f, sh, ln)
}

func (c *Check) kernels(pick func(k *Kernel) bool, cats []string, exact bool, need ...string) {
	w := c.world
	have := map[string]bool{}
	for _, f := range w.libFuncs() {
		k := w.kernel(f)
		if k == nil || k.one || !pick(k) {
			continue
		}
		have[f.Name()] = true
		c.count("kernels", 1)
		if k.asm {
			sum := c.asmCheck(k)
			if sum == nil {
				continue
			}
			c.obl += sum.checks
			c.count("assembly_size_class_cases", sum.runs)
			c.add(only(sum.findings, append([]string{"abi"}, cats...)...)...)
			c.sample("%s: assembly, %d size combinations of a %s", short(f), sum.runs, k.desc())
			continue
		}
		w.safeVerify(k)
		c.obl += k.obl
		c.count("kernel_analyses", k.runs)
		if k.ok && (!exact || k.exact) {
			c.sample("%s: %s, %s, %d analyses, %d obligations", short(f), k.desc(), k.how, k.runs, k.obl)
			continue
		}
		fs := k.findings
		if k.ok && exact {
			fs = k.tight
		}
		c.add(only(fs, cats...)...)
	}
	c.requireNames(have, need...)
}

// ---- evidence and exit ----

func (c *Check) finish(dir string) int {
	ev := map[string]any{
		"property": c.prop,
		"tier":     c.tier,
		"seed":     envInt("VERIF_SEED", 1),
		"level":    "other",
		"wall_s":   time.Since(c.start).Seconds(),
	}
	cov := map[string]any{"explanation": explanation(c.prop)}
	for k, v := range c.cov {
		cov[k] = v
	}
	for k, v := range c.counts {
		cov[k] = v
	}
	cov["obligations"] = c.obl
	cov["discharged"] = max(0, c.obl-len(c.findings))
	cov["rule"] = rules[c.prop]
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	var fl []string
	for _, f := range c.findings {
		fl = append(fl, f.String())
	}
	if fl != nil {
		cov["reported"] = fl
	}
	ev["coverage"] = cov
	ev["violations"] = len(c.findings)
	ev["assumptions"] = append([]string{
		"the Go compiler, assembler and CPU implement the analysed source and the modelled instructions",
		"the analyser's transfer functions are sound (they are the trusted base of every verdict)",
	}, c.assume...)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(dir, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(dir, "evidence", c.prop+".findings.txt")
	if len(c.findings) == 0 {
		_ = os.Remove(rp)
		fmt.Printf("%s %s: held; %d obligations, %.1fs\n", c.prop, c.tier, c.obl, time.Since(c.start).Seconds())
		return 0
	}
	_ = os.WriteFile(rp, []byte(strings.Join(fl, "\n")+"\n"), 0o644)
	for i, f := range fl {
		if i >= 12 {
			fmt.Printf("... and %d more, see %s\n", len(fl)-i, rp)
			break
		}
		if len(f) > 700 {
			f = f[:700] + "..."
		}
		fmt.Println(f)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
	return 1
}

func envInt(k string, d int) int {
	n := d
	if v := os.Getenv(k); v != "" {
		fmt.Sscan(v, &n)
	}
	return n
}
