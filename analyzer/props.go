package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Properties C01-C13, C15, C17
// ---------------------------------------------------------------------------

var rules = map[string]string{}

type propFn func(c *Check)

var props = map[string]propFn{}

func prop(id, rule string, f propFn) {
	rules[id] = rule
	props[id] = f
}

func explanation(id string) string {
	return "Static analysis of the current source of the repository (type-checked Go in SSA form and parsed assembly); nothing of the repository is executed. " + rules[id]
}

const absint = "Whole-function abstract interpretation: integer values, byte lengths and the count are symbolic atoms of an affine domain with prefix sums; memory is tracked as region facts; loops are replaced by a closed form in the iteration number that is checked to be inductive; every return path yields content obligations and every access yields bounds obligations. An entry point for which no closed form is found is analysed by trace partitioning on the count up to a stated bound, which is accepted only if no size-dependent constant or narrowing lies beyond the bound."

func init() {
	prop("C01", "Each plain stream encoder, in each outcome of the CPU feature tests. "+absint, func(c *Check) {
		if c.load() {
			c.streams(func(s *Stream) bool { return !s.dec && !s.delta }, streamCats)
		}
	})
	prop("C02", "Each plain stream decoder on an arbitrary well-formed stream (lengths need not be minimal, unused control fields arbitrary). "+absint, func(c *Check) {
		if c.load() {
			c.streams(func(s *Stream) bool { return s.dec && !s.delta }, streamCats)
		}
	})
	prop("C03", "Composition: every encoder yields exactly the canonical stream of its list (or of its differences from the base value) and every decoder yields exactly the integers (or running sums) of any well-formed stream, so every pairing is the identity. Both premises are established here for all twelve entry points. "+absint, func(c *Check) {
		if c.load() {
			c.streams(func(s *Stream) bool { return true }, streamCats)
			n := 0
			for _, a := range c.world.streams() {
				for _, b := range c.world.streams() {
					if !a.dec && b.dec && a.delta == b.delta {
						n++
					}
				}
			}
			c.count("encoder_decoder_pairs", n)
		}
	})
	prop("C04", "Each differential stream encoder; the number encoded at position i must be list[i]-list[i-1] modulo 2^32 with the base value before the first. "+absint, func(c *Check) {
		if c.load() {
			c.streams(func(s *Stream) bool { return !s.dec && s.delta }, streamCats)
		}
	})
	prop("C05", "Each differential stream decoder; output element i must be the base value plus the first i+1 numbers modulo 2^32. "+absint, func(c *Check) {
		if c.load() {
			c.streams(func(s *Stream) bool { return s.dec && s.delta }, streamCats)
		}
	})
	prop("C06", "Each exported 4- and 8-integer encoder against the format's definition: symbolic byte lengths, or all 4^n length combinations where that is undecided; assembly by dataflow over byte provenance for all 65536 length combinations.", func(c *Check) {
		if c.load() {
			c.kernels(func(k *Kernel) bool { return !k.dec && !k.partial }, streamCats, false,
				"Put8uint32", "Put8uint32Delta", "Put8uint32Scalar", "Put8uint32DeltaScalar", "Put4uint32Scalar", "Put4uint32DeltaScalar",
				"Put8uint32Fast", "Put8uint32DeltaFast")
		}
	})
	prop("C07", "Each exported 4- and 8-integer decoder against the format's definition: symbolic byte lengths, or all 4^n length combinations where that is undecided; assembly by dataflow over byte provenance for all 65536 control values.", func(c *Check) {
		if c.load() {
			c.kernels(func(k *Kernel) bool { return k.dec && !k.partial }, streamCats, false,
				"Get8uint32", "Get8uint32Delta", "Get8uint32Scalar", "Get8uint32DeltaScalar", "Get4uint32Scalar", "Get4uint32DeltaScalar",
				"Get8uint32Fast", "Get8uint32DeltaFast")
		}
	})
	prop("C08", "Each exported partial-group coder for counts 0, 1, 2, 3, 4 and any larger count, with buffers exactly as large as the encoding: control byte, data bytes, elements stored, bytes consumed, and no access outside the first min(count,4) integers and their bytes.", func(c *Check) {
		if c.load() {
			c.kernels(func(k *Kernel) bool { return k.partial }, []string{"content", "panic", "termination", "undecided", "frame", "ro-write"}, true,
				"PutUint32Scalar", "PutUint32DeltaScalar", "GetUint32Scalar", "GetUint32DeltaScalar")
		}
	})
	prop("C09", "At every call of an assembly routine reached from a stream entry point (any count, any lengths, exact-size buffers) the routine's load and store footprint, computed from its instructions, must lie inside the slices; called directly, the footprint must be at most 8 integers and 32 bytes. "+absint, checkC09)
	prop("C10", "Every index, slice and allocation bound, nil dereference and explicit panic reachable from the stream entry points and coders on legal inputs is an obligation, and every loop needs a bound on its iterations. "+absint, func(c *Check) {
		if c.load() {
			cats := []string{"panic", "termination", "undecided"}
			c.streams(func(s *Stream) bool { return true }, cats)
			c.kernels(func(k *Kernel) bool { return true }, cats, false)
		}
	})
	prop("C11", "Stores are tracked to the memory they can reach: no store through the caller's list, stream or data bytes on any path (value-flow effect analysis of every exported coder, plus path-sensitive write checks), and no store at or past element count of the output. "+absint, checkC11)
	prop("C12", "Value-flow ownership analysis: the result of every encoder refers only to memory allocated during the call, and no parameter or result memory is stored anywhere that outlives the call (package-level variables, channels, pools, goroutines).", checkC12)
	prop("C13", "Effect analysis over everything reachable from the exported functions: no store to memory reachable from package-level variables, no pooled or atomic shared state, no call whose result depends on anything but its arguments, no goroutine, map iteration or channel receive.", checkC13)
	prop("C15", "For every outcome of the CPU feature tests, each assembly routine reached by an automatic entry point must only use instruction-set extensions that the path condition entails are reported; the reported mode is accelerated only then; plain and differential variants reach assembly in the same cases.", checkC15)
	prop("C17", "Every assembly routine, for all 65536 length combinations: argument names, offsets and widths against the Go declaration, frame size, result written before every return, stack and frame pointers and read-only data untouched, every address derived from an argument, stores only through the output slice, no call; every declaration without a body has exactly one routine.", checkC17)
}

// ---- C09 ----

func checkC09(c *Check) {
	if !c.load() {
		return
	}
	cats := []string{"asm-bounds", "undecided"}
	c.streams(func(s *Stream) bool { return true }, cats)
	if c.counts["assembly_call_sites_visited"] == 0 {
		c.fail("undecided", "stream entry points", "?", "no assembly call was reached; the rule matched nothing")
	}
	w := c.world
	for _, f := range w.libFuncs() {
		k := w.kernel(f)
		if k == nil || k.one || k.partial || k.n != 8 {
			continue
		}
		if k.asm {
			sum := c.asmCheck(k)
			if sum == nil {
				continue
			}
			c.count("direct_footprints", 2)
			c.obl += 2
			c.add(only(sum.findings, cats...)...)
			for _, x := range []struct {
				what string
				b    bound
			}{{"loads from the input", sum.inB}, {"stores to the output", sum.outB}} {
				c.sample("%s: %s end at byte %d", short(f), x.what, x.b.c)
				if x.b.neg || x.b.c > 32 {
					c.fail("asm-bounds", f.RelString(nil), c.prog.pos(f.Pos()), fmt.Sprintf("%s reach byte %d (or before the start); 8 integers and 32 data bytes are the limit", x.what, x.b.c))
				}
			}
			continue
		}
		w.safeVerify(k)
		c.obl += k.obl
		if !k.ok {
			c.add(only(k.findings, cats...)...)
		}
	}
}

// ---- C11 ----

func (c *Check) readonlyParams(f *ssa.Function) (ps []int, roles []string) {
	if s := classifyStream(f); s != nil {
		return []int{s.in}, []string{"list or stream"}
	}
	if k := c.world.kernel(f); k != nil && !k.one {
		ps = append(ps, k.in)
		roles = append(roles, "list or data bytes")
		if k.shuffle >= 0 {
			ps = append(ps, k.shuffle)
			roles = append(roles, "table")
		}
		if k.lens >= 0 {
			ps = append(ps, k.lens)
			roles = append(roles, "table")
		}
	}
	return
}

func checkC11(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	e := newEff(c.prog, w.asm)
	for _, f := range w.libFuncs() {
		ps, roles := c.readonlyParams(f)
		if len(ps) == 0 || len(f.Blocks) == 0 {
			continue
		}
		_, effs := e.run(f)
		c.count("functions_with_read_only_parameters", 1)
		c.count("store_and_call_sites", e.sites)
		c.obl += e.sites
		for i, p := range ps {
			c.sample("%s: parameter %s (%s) is never stored through (%d sites, %d functions)", short(f), f.Params[p].Name(), roles[i], e.sites, len(e.visited))
			for _, x := range effs {
				if x.kind == "write" && x.root == fmt.Sprintf("P%d", p) {
					c.fail("ro-write", x.fn, x.pos, fmt.Sprintf("%s may write parameter %s of %s [%s]", x.msg, f.Params[p].Name(), short(f), x.path))
				}
				if x.kind == "opaque" {
					c.fail("undecided", x.fn, x.pos, x.msg+" (entry "+short(f)+")")
				}
			}
		}
	}
	cats := []string{"ro-write", "frame", "undecided"}
	c.streams(func(s *Stream) bool { return true }, cats)
	c.kernels(func(k *Kernel) bool { return true }, append(cats, "abi"), false)
	// assembly decoders: nothing stored past the eighth element
	for _, f := range w.libFuncs() {
		if k := w.kernel(f); k != nil && k.asm {
			if sum := c.asmCheck(k); sum != nil {
				c.obl++
				if sum.outB.neg || sum.outB.c > int64(4*k.n) {
					c.fail("frame", f.RelString(nil), c.prog.pos(f.Pos()), fmt.Sprintf("stores up to byte %d of the output", sum.outB.c))
				}
			}
		}
	}
}

// ---- C12 ----

func checkC12(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	e := newEff(c.prog, w.asm)
	have := map[string]bool{}
	for _, f := range w.libFuncs() {
		if len(f.Blocks) == 0 || genOnly(f) {
			continue
		}
		res, effs := e.run(f)
		c.count("functions", 1)
		c.count("store_and_call_sites", e.sites)
		c.obl += e.sites
		s := classifyStream(f)
		if s != nil {
			have[f.Name()] = true
		}
		for i, r := range res {
			if !hasPointers(f.Signature.Results().At(i).Type()) {
				continue
			}
			if s == nil || s.dec {
				continue
			}
			c.count("results_traced", 1)
			c.obl++
			c.sample("%s: result refers to %s", short(f), strings.Join(r.list(), ", "))
			bad := false
			for _, root := range r.list() {
				if !strings.HasPrefix(root, "A:") {
					bad = true
					c.fail("ownership", f.RelString(nil), c.prog.pos(f.Pos()), "the returned stream may refer to "+rootName(root))
				}
			}
			if len(r) == 0 && !bad {
				c.fail("undecided", f.RelString(nil), c.prog.pos(f.Pos()), "the result's memory was not traced")
			}
		}
		for _, x := range effs {
			switch x.kind {
			case "retain":
				c.fail("ownership", x.fn, x.pos, fmt.Sprintf("%s is %s and outlives the call [%s]", rootName(x.root), x.msg, x.path))
			case "spawn":
				c.fail("ownership", x.fn, x.pos, "a goroutine may keep memory of the call ["+x.path+"]")
			case "opaque":
				c.fail("undecided", x.fn, x.pos, x.msg+" (entry "+short(f)+")")
			}
		}
	}
	c.requireNames(have, "WriteAll", "WriteAllScalar", "WriteAllFast", "WriteAllDelta", "WriteAllDeltaScalar", "WriteAllDeltaFast")
	// path-sensitive confirmation on the analysed entry points
	c.streams(func(s *Stream) bool { return !s.dec }, []string{"ownership"})
}

// ---- C13 ----

func checkC13(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	e := newEff(c.prog, w.asm)
	glob := map[string]bool{}
	for _, f := range w.libFuncs() {
		if len(f.Blocks) == 0 || f.Pkg == nil {
			continue
		}
		if genOnly(f) {
			continue
		}
		_, effs := e.run(f)
		c.count("entry_functions", 1)
		c.count("reachable_functions", len(e.visited))
		c.count("store_and_call_sites", e.sites)
		c.obl += e.sites
		for v := range e.visited {
			for _, b := range v.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							glob[g.RelString(nil)] = true
						}
					}
				}
			}
		}
		for _, x := range effs {
			switch {
			case x.kind == "write" && strings.HasPrefix(x.root, "G:"):
				c.fail("global-write", x.fn, x.pos, fmt.Sprintf("%s modifies %s after initialisation [%s]", x.msg, rootName(x.root), x.path))
			case x.kind == "write" && x.root == "U":
				c.fail("global-write", x.fn, x.pos, fmt.Sprintf("%s modifies memory of unknown origin [%s]", x.msg, x.path))
			case x.kind == "nondet" || x.kind == "spawn":
				c.fail("nondeterminism", x.fn, x.pos, fmt.Sprintf("%s [%s]", x.msg, x.path))
			case x.kind == "opaque":
				c.fail("undecided", x.fn, x.pos, x.msg+" (entry "+short(f)+")")
			}
		}
	}
	// initialisation must not leave anything running that changes state later
	for _, path := range c.prog.libPaths() {
		sp := c.prog.spkgs[path]
		if !c.prog.isRepo(sp) || sp.Pkg.Name() == "main" || strings.HasSuffix(path, "/util") {
			continue
		}
		for _, f := range c.prog.funcsOf(sp) {
			if !strings.HasPrefix(f.Name(), "init") {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if g, ok := ins.(*ssa.Go); ok {
						c.fail("nondeterminism", f.RelString(nil), c.prog.pos(g.Pos()), "initialisation starts a goroutine")
					}
				}
			}
		}
	}
	var gs []string
	for g := range glob {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	c.count("package_level_variables_read", len(gs))
	c.sample("package-level variables reachable: %s", strings.Join(gs, ", "))
	// path-sensitive confirmation
	c.streams(func(s *Stream) bool { return true }, []string{"global-write"})
}

// genOnly: helpers of the code generators (they build avo programs and are not
// library calls).
func genOnly(f *ssa.Function) bool {
	sig := f.Signature
	bad := func(t types.Type) bool { return strings.Contains(t.String(), "github.com/mmcloughlin/avo/") }
	for i := 0; i < sig.Params().Len(); i++ {
		if bad(sig.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if bad(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// ---- C15 ----

// isaOf: the extension an instruction needs beyond the amd64 baseline (SSE2).
func isaOf(in *AsmIns) (string, bool) {
	op := in.op
	mem := false
	yz := byte(0)
	for _, a := range in.args {
		if a.kind == 'm' || a.kind == 'f' || a.kind == 's' {
			mem = true
		}
		if a.kind == 'r' && len(a.reg) > 1 && (a.reg[0] == 'Y' || a.reg[0] == 'Z' || a.reg[0] == 'K') && a.reg[1] >= '0' && a.reg[1] <= '9' {
			if a.reg[0] == 'Z' || a.reg[0] == 'K' || yz == 0 {
				yz = a.reg[0]
			}
		}
	}
	if yz == 'Z' || yz == 'K' {
		return "AVX512F", true
	}
	switch op {
	case "PSHUFB", "PALIGNR", "PABSB", "PABSW", "PABSD", "PHADDW", "PHADDD", "PMADDUBSW", "PSIGNB", "PSIGNW", "PSIGND", "PMULHRSW":
		return "SSSE3", true
	case "PMINUW", "PMINUD", "PMINSB", "PMINSD", "PMAXUW", "PMAXUD", "PMAXSB", "PMAXSD", "PACKUSDW", "PBLENDVB", "PBLENDW",
		"PINSRB", "PINSRD", "PINSRQ", "PEXTRB", "PEXTRD", "PEXTRQ", "PTEST", "PMULLD", "PMULDQ", "PCMPEQQ", "ROUNDPS", "ROUNDPD",
		"PMOVZXBW", "PMOVZXBD", "PMOVZXBQ", "PMOVZXWD", "PMOVZXWQ", "PMOVZXDQ", "PMOVSXBW", "PMOVSXBD", "PMOVSXWD", "PMOVSXDQ", "MPSADBW", "PHMINPOSUW", "MOVNTDQA":
		return "SSE41", true
	case "PCMPGTQ", "CRC32B", "CRC32W", "CRC32L", "CRC32Q":
		return "SSE42", true
	case "POPCNTW", "POPCNTL", "POPCNTQ":
		return "POPCNT", true
	case "LDDQU", "HADDPS", "HADDPD", "MOVDDUP", "MOVSHDUP", "MOVSLDUP":
		return "SSE3", true
	case "TZCNTW", "TZCNTL", "TZCNTQ", "ANDNL", "ANDNQ", "BEXTRL", "BEXTRQ", "BLSIL", "BLSIQ", "BLSRL", "BLSRQ":
		return "BMI1", true
	case "PEXTL", "PEXTQ", "PDEPL", "PDEPQ", "SHLXL", "SHLXQ", "SHRXL", "SHRXQ", "SARXL", "SARXQ", "BZHIL", "BZHIQ", "RORXL", "RORXQ", "MULXL", "MULXQ":
		return "BMI2", true
	case "VPBROADCASTB", "VPBROADCASTW", "VPBROADCASTD", "VPBROADCASTQ", "VPSLLVD", "VPSLLVQ", "VPSRLVD", "VPSRLVQ", "VPSRAVD",
		"VPGATHERDD", "VPGATHERDQ", "VPGATHERQD", "VPGATHERQQ", "VPERMD", "VPERMQ", "VPERMPS", "VPERMPD", "VPERM2I128", "VINSERTI128", "VEXTRACTI128",
		"VPMASKMOVD", "VPMASKMOVQ", "VPBLENDD", "VBROADCASTI128":
		return "AVX2", true
	case "VBROADCASTSS", "VBROADCASTSD":
		if mem {
			return "AVX", true
		}
		return "AVX2", true
	}
	if strings.HasPrefix(op, "VPDP") || strings.HasPrefix(op, "VPERMB") || strings.HasPrefix(op, "VPCOMPRESS") || strings.HasPrefix(op, "VPEXPAND") {
		return "AVX512F", true
	}
	if strings.HasPrefix(op, "V") && op != "VERR" && op != "VERW" {
		if yz == 'Y' && strings.HasPrefix(op, "VP") && op != "VPERMILPS" && op != "VPERMILPD" && op != "VPTEST" {
			return "AVX2", true
		}
		return "AVX", true
	}
	return "", true
}

func (f *AsmFn) features() (fs []string, where map[string]string) {
	where = map[string]string{}
	for i := range f.ins {
		if x, _ := isaOf(&f.ins[i]); x != "" {
			if _, ok := where[x]; !ok {
				where[x] = fmt.Sprintf("%s:%d (%s)", f.file, f.ins[i].line, f.ins[i].text)
				fs = append(fs, x)
			}
		}
	}
	sort.Strings(fs)
	return
}

// featureEntailed: the path condition says the CPU reports the extension.
func (w *World) featureEntailed(it *Interp, st *State, feat string) bool {
	a := it.cx.Var("ext:golang.org/x/sys/cpu.X86.Has"+feat, 0, 1)
	return it.le(st, K(1), a.lin())
}

func checkC15(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	uses := map[string]map[string]map[string]bool{} // entry -> case -> asm functions
	var cur string
	var curCase string
	visited := 0
	hook := func(it *Interp, fn *ssa.Function, f *AsmFn, st *State) {
		visited++
		m := uses[cur]
		if m == nil {
			m = map[string]map[string]bool{}
			uses[cur] = m
		}
		if m[curCase] == nil {
			m[curCase] = map[string]bool{}
		}
		m[curCase][fn.Name()] = true
		feats, where := f.features()
		for _, ft := range feats {
			c.obl++
			if it.cx.unsat(st.cons) {
				continue
			}
			if !w.featureEntailed(it, st, ft) {
				c.fail("gating", cur, where[ft], fmt.Sprintf("%s executes %s code in %s although the CPU is not known to report %s (case %s)", cur, ft, fn.Name(), ft, curCase))
			}
		}
	}
	// contracts would hide the assembly behind them: functions that can reach
	// assembly are analysed in place
	w.noContract = c.prog.mayReachAsm()
	defer func() { w.noContract = nil }()
	auto := map[string]bool{}
	for _, s := range w.streams() {
		if s.variant != "automatic" {
			continue
		}
		auto[s.fn.Name()] = true
		for ci := range w.cases {
			cur, curCase = short(s.fn), describeCase(w.cases[ci])
			w.onAsm = hook
			c.count("automatic_entry_cases", 1)
			r := w.safeStream(s, ci, -1)
			bad := only(r.findings, "undecided")
			if len(bad) > 0 {
				// constant counts reach every call as well
				bad = nil
				first := r.findings
				for n := int64(0); n <= 80; n++ {
					bad = append(bad, only(w.safeStream(s, ci, n).findings, "undecided")...)
				}
				for _, n := range []int64{127, 128, 200, 256, 301} {
					bad = append(bad, only(w.safeStream(s, ci, n).findings, "undecided")...)
				}
				if why := w.beyond(s.fn, 256); why != "" && len(bad) == 0 {
					bad = only(first, "undecided")[:1]
					bad[0].Msg += "; longer lists may differ: " + why
				}
			}
			c.add(bad...)
		}
	}
	for _, f := range w.libFuncs() {
		k := w.kernel(f)
		if k == nil || k.one || k.partial || k.asm || k.n != 8 || strings.HasSuffix(f.Name(), "Scalar") || strings.HasSuffix(f.Name(), "Fast") || k.shuffle >= 0 || k.lens >= 0 {
			continue
		}
		auto[f.Name()] = true
		for ci := range w.cases {
			cur, curCase = short(f), describeCase(w.cases[ci])
			w.onAsm = hook
			c.count("automatic_entry_cases", 1)
			fs := only(w.safeKernel(k, kcfg{count: k.n}, ci), "undecided")
			if len(fs) > 0 {
				fs = nil
				for x := 0; x < 1<<16; x += 257 {
					cl := make([]int, 8)
					for j := range cl {
						cl[j] = x>>uint(2*j)&3 + 1
					}
					fs = append(fs, only(w.safeKernel(k, kcfg{classes: cl, count: k.n}, ci), "undecided")...)
				}
			}
			c.add(fs...)
		}
	}
	w.onAsm = nil
	c.requireNames(auto, "WriteAll", "WriteAllDelta", "ReadAll", "ReadAllDelta", "Put8uint32", "Put8uint32Delta", "Get8uint32", "Get8uint32Delta")
	c.count("assembly_calls_checked", visited)
	if visited == 0 {
		c.fail("undecided", "automatic entry points", "?", "no assembly call was reached in any case; the rule matched nothing")
	}
	// plain and differential agree
	for _, pr := range [][2]string{{"writer.WriteAll", "writer.WriteAllDelta"}, {"reader.ReadAll", "reader.ReadAllDelta"},
		{"encode.Put8uint32", "encode.Put8uint32Delta"}, {"decode.Get8uint32", "decode.Get8uint32Delta"}} {
		for ci := range w.cases {
			cs := describeCase(w.cases[ci])
			c.obl++
			a, b := len(uses[pr[0]][cs]) > 0, len(uses[pr[1]][cs]) > 0
			c.sample("%s / %s [%s]: accelerated=%v/%v", pr[0], pr[1], cs, a, b)
			if a != b {
				c.fail("gating", pr[0], "?", fmt.Sprintf("%s and %s do not choose alike (case %s: accelerated %v and %v)", pr[0], pr[1], cs, a, b))
			}
		}
	}
	// the reported mode
	needs := map[string]map[string]bool{} // package -> features
	for fn, f := range w.asm.fns {
		feats, _ := f.features()
		p := fn.Pkg.Pkg.Path()
		if needs[p] == nil {
			needs[p] = map[string]bool{}
		}
		for _, x := range feats {
			needs[p][x] = true
		}
	}
	modes := 0
	for _, f := range w.libFuncs() {
		if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
			continue
		}
		nt, ok := f.Signature.Results().At(0).Type().(*types.Named)
		if !ok || nt.Obj().Name() != "PerformanceMode" {
			continue
		}
		fast := modeConst(c.prog, "Fast")
		modes++
		for ci := range w.cases {
			outs, it, fs := w.callPlain(f, ci)
			c.add(fs...)
			for _, o := range outs {
				if it.cx.unsat(o.st.cons) {
					continue
				}
				c.obl++
				v, ok := o.ret.(*IntV)
				if !ok || fast == nil {
					c.fail("undecided", f.RelString(nil), c.prog.pos(f.Pos()), "the reported mode is not known")
					continue
				}
				b := &BoolV{op: token.EQL, lin: v.lin.AddK(-*fast)}
				for _, cs := range it.assume(o.st, b) {
					st := o.st.clone()
					st.cons = cs
					if it.cx.unsat(cs) {
						continue
					}
					for _, ft := range sortedSet(needs[f.Pkg.Pkg.Path()]) {
						if !w.featureEntailed(it, st, ft) {
							c.fail("gating", f.RelString(nil), c.prog.pos(f.Pos()), fmt.Sprintf("reports accelerated mode although the CPU is not known to report %s (case %s)", ft, describeCase(w.cases[ci])))
						}
					}
				}
			}
		}
	}
	c.count("mode_functions", modes)
	if modes < 2 {
		c.fail("undecided", "GetMode", "?", "fewer than two functions reporting the mode were found")
	}
}

// mayReachAsm: can the function reach a body-less function or call a function
// value?
func (p *Program) mayReachAsm() func(fn *ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	visit = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] || !p.isRepo(f.Pkg) {
			return false
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					if mc, ok := ins.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function), seen) {
						return true
					}
					continue
				}
				cc := call.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				t := cc.StaticCallee()
				if t == nil || visit(t, seen) {
					return true
				}
			}
		}
		return false
	}
	return func(fn *ssa.Function) bool {
		r, ok := memo[fn]
		if !ok {
			r = visit(fn, map[*ssa.Function]bool{})
			memo[fn] = r
		}
		return r
	}
}

func sortedSet(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func modeConst(p *Program, name string) *int64 {
	s := p.spkgs[p.module+"/pkg/shared"]
	if s == nil {
		return nil
	}
	k, ok := s.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil
	}
	v := k.Value.Int64()
	return &v
}

// callPlain analyses a function without arguments.
func (w *World) callPlain(f *ssa.Function, ci int) (outs []Outcome, it *Interp, fs []Finding) {
	it = w.interp()
	it.contracts = w.hook
	it.entryName = f.Name()
	defer func() {
		if x := recover(); x != nil {
			fs = append(fs, Finding{"undecided", f.RelString(nil), w.prog.pos(f.Pos()), fmt.Sprint("analysis failure: ", x)})
		}
	}()
	outs = it.Call(f, w.start(ci), nil, nil)
	return outs, it, it.findings
}

func (w *World) safeKernel(k *Kernel, cfg kcfg, ci int) (fs []Finding) {
	defer func() {
		if x := recover(); x != nil {
			fs = append(fs, Finding{"undecided", k.fn.RelString(nil), w.prog.pos(k.fn.Pos()), fmt.Sprint("analysis failure: ", x)})
		}
	}()
	old := k.state
	k.state = 1 // analyse the body itself
	fs, _ = w.runKernel(k, cfg, ci)
	k.state = old
	return
}

// ---- C17 ----

func checkC17(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	for _, e := range w.asm.errs {
		c.add(e)
	}
	for _, o := range w.asm.orphans {
		c.fail("abi", o.name, fmt.Sprintf("%s:%d", o.file, o.line), "assembly routine without a Go declaration")
	}
	byFn := map[*ssa.Function]int{}
	for _, f := range w.asm.list {
		if f.fn != nil {
			byFn[f.fn]++
		}
	}
	decls := 0
	for _, path := range c.prog.libPaths() {
		sp := c.prog.spkgs[path]
		if !c.prog.isRepo(sp) {
			continue
		}
		for _, f := range c.prog.funcsOf(sp) {
			if len(f.Blocks) > 0 || f.Synthetic != "" {
				continue
			}
			decls++
			if byFn[f] != 1 {
				c.fail("abi", f.RelString(nil), c.prog.pos(f.Pos()), fmt.Sprintf("declared without a body but has %d assembly routines", byFn[f]))
			}
		}
	}
	c.count("declarations_without_body", decls)
	if decls < 4 {
		c.fail("undecided", "assembly", "?", fmt.Sprintf("only %d assembly routines found, 4 expected", decls))
	}
	for _, f := range w.asm.list {
		if f.fn == nil {
			continue
		}
		pos := fmt.Sprintf("%s:%d", f.file, f.line)
		_, args, _ := frameLayout(f.fn.Signature)
		c.obl += 3
		if f.args != args {
			c.fail("abi", f.name, pos, fmt.Sprintf("declares %d bytes of arguments and results, the Go declaration has %d", f.args, args))
		}
		if f.frame < 0 || (f.frame > 0 && strings.Contains(f.flags, "NOFRAME")) {
			c.fail("abi", f.name, pos, fmt.Sprintf("frame size %d", f.frame))
		}
		if f.problem != "" {
			c.fail("undecided", f.name, pos, f.problem)
		}
		for i := range f.ins {
			for _, a := range f.ins[i].args {
				if a.kind == 'r' && f.ins[i].op != "NOP" {
					last := f.ins[i].args[len(f.ins[i].args)-1]
					if (last.reg == "SP" || last.reg == "BP") && last.kind == 'r' && !strings.HasPrefix(f.ins[i].op, "CMP") && !strings.HasPrefix(f.ins[i].op, "TEST") {
						c.fail("abi", f.name, fmt.Sprintf("%s:%d", f.file, f.ins[i].line), "changes "+last.reg)
					}
				}
			}
		}
		k := w.kernel(f.fn)
		if k == nil {
			c.fail("undecided", f.name, pos, "the routine does not have the shape of a kernel")
			continue
		}
		sum := c.asmCheck(k)
		if sum == nil {
			continue
		}
		c.count("routines", 1)
		c.count("instructions", len(f.ins))
		c.count("size_class_cases", sum.runs)
		c.obl += sum.runs * len(f.ins)
		c.sample("%s: %d instructions, frame $%d-%d (declaration needs %d), loads end at input byte %d, stores end at output byte %d", f.name, len(f.ins), f.frame, f.args, args, sum.inB.c, sum.outB.c)
		c.add(only(sum.findings, "abi", "undecided")...)
	}
	for key, sy := range w.asm.syms {
		c.obl++
		if !strings.Contains(sy.flags, "RODATA") && !strings.Contains(sy.flags, "8") {
			c.sample("static data %s is not marked read-only (%s)", key, sy.flags)
		}
	}
}
