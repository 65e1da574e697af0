package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C21: the performance mode reported is the one in force
// ---------------------------------------------------------------------------

func init() {
	prop("C21", "In every case of the CPU feature tests each mode function is analysed first and every automatic entry point of its package (and of the stream package for that direction) from each of its outcomes, as one history: reported Normal, no path may reach an assembly routine; reported Fast, every path of a batch coder must reach one and for lists of 256 integers and more at least half of them must pass through assembly (calls are counted symbolically through loop summaries); after the entry point the mode function must report the same; reported Normal must be infeasible on a CPU that reports AVX and AVX2. Contracts that would hide assembly are not used.", checkC21)
}

const (
	modeUnset  = 0
	modeNormal = 1
	modeFast   = 2
)

// callModed calls fn; where a mode function is set it is called first, fn from
// each of its outcomes, and the mode function again.
func (w *World) callModed(it *Interp, fn *ssa.Function, st *State, args []Val) []Outcome {
	if w.modeFn == nil {
		return it.Call(fn, st, args, nil)
	}
	fast := modeConst(w.prog, "Fast")
	split := func(st *State) (fs, ns []*State) {
		for _, o := range it.Call(w.modeFn, st, nil, nil) {
			v, ok := o.ret.(*IntV)
			if !ok || fast == nil {
				it.report(o.st, "undecided", "the reported mode is not known")
				continue
			}
			b := &BoolV{op: token.EQL, lin: v.lin.AddK(-*fast)}
			for i, x := range []*BoolV{b, b.not()} {
				for _, cs := range it.assume(o.st, x) {
					n := o.st.clone()
					n.cons = cs
					if it.cx.unsat(cs) {
						continue
					}
					if i == 0 {
						fs = append(fs, n)
					} else {
						ns = append(ns, n)
					}
				}
			}
		}
		return
	}
	fs, ns := split(st)
	if w.onlyFast {
		ns = nil
	}
	var outs []Outcome
	for i, states := range [][]*State{ns, fs} {
		for _, s := range states {
			s.mode = modeNormal + i
			s.asm = K(0)
			if w.onMode != nil {
				w.onMode(it, s)
			}
			for _, o := range it.Call(fn, s, args, nil) {
				outs = append(outs, o)
				if it.cx.unsat(o.st.cons) {
					continue
				}
				if w.onReturn != nil {
					w.onReturn(it, o.st)
				}
				f2, n2 := split(o.st.clone())
				if i == 0 && len(f2) > 0 || i == 1 && len(n2) > 0 {
					it.report(o.st, "gating", "the reported mode changes after the call")
				}
			}
		}
	}
	return outs
}

var avx2Implies = map[string]bool{"AVX2": true, "AVX": true, "SSE2": true, "SSE3": true, "SSSE3": true, "SSE41": true, "SSE42": true, "OSXSAVE": true, "POPCNT": true}

func isMode(f *ssa.Function) bool {
	if f.Signature.Recv() != nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
		return false
	}
	nt, ok := types.Unalias(f.Signature.Results().At(0).Type()).(*types.Named)
	return ok && nt.Obj().Name() == "PerformanceMode"
}

func checkC21(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	// the mode function of each direction: declared by the package that has
	// the automatic batch coder
	modes := map[bool]*ssa.Function{}
	var batch []*Kernel
	for _, f := range w.libFuncs() {
		k := w.kernel(f)
		if k == nil || k.one || k.partial || k.asm || k.n != 8 || strings.HasSuffix(f.Name(), "Scalar") || strings.HasSuffix(f.Name(), "Fast") || k.shuffle >= 0 || k.lens >= 0 {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		batch = append(batch, k)
		for _, m := range w.libFuncs() {
			if m.Pkg == f.Pkg && isMode(m) && m.Name() == "GetMode" {
				modes[k.dec] = m
			}
		}
	}
	have := map[string]bool{}
	for _, k := range batch {
		have[k.fn.Name()] = true
	}
	for _, dec := range []bool{false, true} {
		if modes[dec] == nil {
			c.fail("undecided", "GetMode", "?", "no function reports the mode of the "+map[bool]string{false: "encoders", true: "decoders"}[dec])
			return
		}
	}
	w.noContract = c.prog.mayReachAsm()
	visited := 0
	var cur, curCase string
	w.onAsm = func(it *Interp, fn *ssa.Function, f *AsmFn, st *State) {
		visited++
		if st.mode == modeNormal && !it.cx.unsat(st.cons) {
			c.fail("gating", cur, "?", fmt.Sprintf("%s runs the assembly routine %s although %s reports that it is not used (case %s)", cur, fn.Name(), w.modeFn.RelString(nil), curCase))
		}
	}
	reached := map[string][2]bool{}
	w.onMode = func(it *Interp, st *State) {
		r := reached[cur]
		r[st.mode-1] = true
		reached[cur] = r
		if st.mode == modeNormal {
			// not on a CPU that reports AVX and AVX2 (and what they imply)
			cs := st.cons
			for _, a := range it.cx.list {
				if f, ok := strings.CutPrefix(a.name, "ext:golang.org/x/sys/cpu.X86.Has"); ok && avx2Implies[f] {
					cs = cs.add(a.lin().AddK(-1), true)
				}
			}
			c.obl++
			if !it.cx.unsat(cs) {
				c.fail("gating", w.modeFn.RelString(nil), c.prog.pos(w.modeFn.Pos()), fmt.Sprintf("reports that the accelerated code is not used on an amd64 CPU with AVX and AVX2 (case %s)", curCase))
			}
		}
	}
	defer func() { w.noContract, w.onAsm, w.onMode, w.onReturn, w.modeFn = nil, nil, nil, nil, nil }()
	cats := []string{"undecided", "gating"}
	for _, s := range w.streams() {
		if s.variant != "automatic" {
			continue
		}
		have[s.fn.Name()] = true
		w.modeFn = modes[s.dec]
		for ci := range w.cases {
			cur, curCase = short(s.fn), describeCase(w.cases[ci])
			c.count("automatic_entry_cases", 1)
			work := func(it *Interp, st *State, n *Lin) {
				if st.mode != modeFast {
					return
				}
				c.obl++
				t := st.clone()
				t.cons = st.cons.add(K(256).Sub(n), false)
				if it.cx.unsat(t.cons) || it.le(t, n, st.asm.Scale(16)) {
					return
				}
				it.curFn, it.curPos = s.fn, s.fn.Pos()
				it.report(st, "share", fmt.Sprintf("the accelerated code is reported to be in use, but for a list of %s >= 256 integers a path is only known to run it %s times (case %s)", n, st.asm, curCase))
			}
			w.onReturn = func(it *Interp, st *State) {
				work(it, st, it.cx.Var("count", 0, maxCount).lin())
			}
			r := w.safeStream(s, ci, -1)
			bad := only(r.findings, cats...)
			if len(bad) > len(only(bad, "undecided")) {
				c.add(bad...)
				continue
			}
			share := only(r.findings, "share")
			if len(bad) == 0 && len(share) == 0 {
				continue
			}
			// counts up to a bound instead, unless longer lists may differ
			loop := []int64{256, 257, 271, 287, 319}
			if len(bad) > 0 {
				for n := int64(0); n <= 80; n++ {
					loop = append(loop, n)
				}
			}
			var found []Finding
			for _, n := range loop {
				n := n
				w.onlyFast = len(bad) == 0
				w.onReturn = func(it *Interp, st *State) { work(it, st, K(n)) }
				found = append(found, only(w.safeStream(s, ci, n).findings, "undecided", "gating", "share")...)
				if len(found) > 0 {
					break
				}
			}
			w.onlyFast = false
			if len(found) == 0 {
				if why := w.beyond(s.fn, 256); why != "" {
					found = append(bad, share...)[:1]
					found[0].Msg += "; longer lists may differ: " + why
				} else {
					c.sample("%s: decided for %d list lengths up to 319 only", cur, len(loop))
				}
			}
			c.addAs("gating", found...)
		}
	}
	for _, k := range batch {
		w.modeFn = modes[k.dec]
		for ci := range w.cases {
			cur, curCase = short(k.fn), describeCase(w.cases[ci])
			c.count("automatic_entry_cases", 1)
			w.onReturn = func(it *Interp, st *State) {
				if st.mode != modeFast {
					return
				}
				c.obl++
				if !it.le(st, K(1), st.asm) {
					c.fail("gating", cur, c.prog.pos(k.fn.Pos()), fmt.Sprintf("%s is reported to use the accelerated code, but a path does not (case %s)", cur, curCase))
				}
			}
			fs := only(w.safeKernel(k, kcfg{count: k.n}, ci), cats...)
			if len(fs) > 0 && len(only(fs, "undecided")) == len(fs) {
				fs = nil
				for x := 0; x < 1<<16; x += 257 {
					cl := make([]int, 8)
					for j := range cl {
						cl[j] = x>>uint(2*j)&3 + 1
					}
					fs = append(fs, only(w.safeKernel(k, kcfg{classes: cl, count: k.n}, ci), cats...)...)
				}
			}
			c.add(fs...)
		}
	}
	c.requireNames(have, "WriteAll", "WriteAllDelta", "ReadAll", "ReadAllDelta", "Put8uint32", "Put8uint32Delta", "Get8uint32", "Get8uint32Delta")
	c.count("assembly_calls_checked", visited)
	for _, e := range sortedKeysOf(reached) {
		c.sample("%s: analysed with reported mode Normal=%v Fast=%v", e, reached[e][0], reached[e][1])
	}
	if visited == 0 {
		c.fail("undecided", "automatic entry points", "?", "no assembly call was reached in any case; the rule matched nothing")
	}
}

func sortedKeysOf(m map[string][2]bool) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedSet(s)
}

func (c *Check) addAs(cat string, fs ...Finding) {
	for _, f := range fs {
		if f.Cat == "share" {
			f.Cat = cat
		}
		c.add(f)
	}
}
