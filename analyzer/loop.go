package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Loops: bounded unrolling where the guards decide it, otherwise
// generalisation to a closed form in the iteration number, verified inductive.
// ---------------------------------------------------------------------------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loopInfo
	list     []*loopInfo
}

func (it *Interp) loopsOf(fn *ssa.Function) *loopForest {
	if f, ok := it.loops[fn]; ok {
		return f
	}
	f := findLoops(fn)
	it.loops[fn] = f
	return f
}

func findLoops(fn *ssa.Function) *loopForest {
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.byHeader[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.byHeader[s] = l
					f.list = append(f.list, l)
				}
				l.latch = append(l.latch, b)
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return f
}

// body runs one iteration from a header state.
func (it *Interp) body(h *Frame, l *loopInfo) runResult {
	fr := h.clone()
	// execute the header block itself, then onward
	fr.atHead = true
	for fr.idx = 0; fr.idx < len(fr.block.Instrs); fr.idx++ {
		if _, ok := fr.block.Instrs[fr.idx].(*ssa.Phi); !ok {
			break
		}
	}
	if fr.idx == 0 {
		// no phis: avoid re-detecting the header
		return it.runNoHeader(fr, l)
	}
	return it.run([]*Frame{fr}, l)
}

func (it *Interp) runNoHeader(fr *Frame, l *loopInfo) runResult {
	return it.run([]*Frame{fr}, l)
}

type interpMark struct {
	nf   int
	seen map[string]bool
}

func (it *Interp) mark() interpMark {
	s := make(map[string]bool, len(it.seen))
	for k := range it.seen {
		s[k] = true
	}
	return interpMark{len(it.findings), s}
}

func (it *Interp) rollback(m interpMark) {
	it.findings = it.findings[:m.nf]
	it.seen = make(map[string]bool, len(m.seen))
	for k := range m.seen {
		it.seen[k] = true
	}
}

func (it *Interp) loop(h0 *Frame, l *loopInfo) runResult {
	mk := it.mark()
	pos := l.header
	// --- plain iteration
	var acc runResult
	cur := []*Frame{h0}
	limit := 8
	if it.unroll {
		limit = 20000
	}
	if it.inPure {
		limit = 70
	}
	forked, symbolic := false, 0
	ok, tried := false, false
	for iter := 0; ; iter++ {
		var next []*Frame
		for _, h := range cur {
			e0 := it.entailed
			r := it.body(h, l)
			if it.entailed > e0 {
				// the first iterations of a loop with a symbolic bound may
				// all be certain
				symbolic++
			}
			if len(r.backs) > 0 && (len(r.exits) > 0 || len(r.rets) > 0) || len(r.backs) > 1 {
				forked = true
			}
			acc.exits = append(acc.exits, r.exits...)
			acc.rets = append(acc.rets, r.rets...)
			next = append(next, r.backs...)
		}
		if len(next) == 0 {
			ok = true
			break
		}
		if it.unroll && iter > 64 {
			// a loop whose state repeats never ends
			if len(cur) == 1 && len(next) == 1 && it.sameHeader(cur[0], next[0], l) {
				it.report(next[0].st, "termination", "loop repeats the same state and cannot end: "+it.prog.blockPos(pos))
				ok = true
				break
			}
		}
		if len(next) > 300 {
			break
		}
		if (forked && iter >= 1 || symbolic > 3 || iter >= 40) && !it.unroll && !tried {
			// an input-dependent trip count: summarise the loop; only when no
			// summary is found are a few more iterations tried
			tried = true
			seen, fs := it.seen, append([]Finding(nil), it.findings...)
			it.rollback(mk)
			it.lossy = false
			r, ok := it.generalise(h0, l, false)
			if ok && !it.lossy {
				return r
			}
			// nothing, or a form that forgets part of memory: the first
			// iteration may be special
			lseen, lfs := it.seen, append([]Finding(nil), it.findings...)
			it.rollback(mk)
			it.lossy = false
			if r2, ok2 := it.peel(h0, l, 2); ok2 && !it.lossy {
				return r2
			}
			it.lossy = false
			if ok {
				it.seen, it.findings = lseen, lfs
				return r
			}
			it.seen, it.findings = seen, fs
		}
		if forked && iter >= limit && !it.unroll {
			break
		}
		if iter >= limit && it.unroll {
			it.report(next[0].st, "termination", fmt.Sprintf("loop still running after %d iterations: %s", limit, it.prog.blockPos(pos)))
			return acc
		}
		if iter >= 600 {
			break
		}
		cur = next
	}
	if ok {
		it.loopsUnrolled++
		return acc
	}
	if it.unroll {
		it.report(h0.st, "undecided", "loop forks too much at "+it.prog.blockPos(pos))
		return acc
	}
	it.rollback(mk)
	if !tried {
		if r, ok := it.generalise(h0, l, false); ok {
			return r
		}
	}
	if r, ok := it.generalise(h0, l, true); ok {
		return r
	}
	it.curFn = h0.fn
	it.report(h0.st, "undecided", "no inductive invariant found for the loop at "+it.prog.blockPos(pos))
	return runResult{}
}

// peel executes the first iteration on its own and summarises the rest.
func (it *Interp) peel(h0 *Frame, l *loopInfo, depth int) (runResult, bool) {
	r0 := it.body(h0, l)
	if len(r0.backs) > 4 {
		return runResult{}, false
	}
	res := runResult{exits: r0.exits, rets: r0.rets}
	lossy := false
	for _, b := range r0.backs {
		it.lossy = false
		r, ok := it.generalise(b, l, false)
		if !ok && depth > 1 {
			it.lossy = false
			r, ok = it.peel(b, l, depth-1)
		}
		if !ok {
			return runResult{}, false
		}
		lossy = lossy || it.lossy
		res.exits = append(res.exits, r.exits...)
		res.rets = append(res.rets, r.rets...)
	}
	it.lossy = lossy
	return res, true
}

// generalise summarises the loop by an inductive closed form; with mayForget
// set, header values without a closed form are replaced by unknowns.
func (it *Interp) generalise(h0 *Frame, l *loopInfo, mayForget bool) (runResult, bool) {
	it.muted++
	gs := it.candidates(h0, l)
	it.muted--
	dbg := os.Getenv("SVB_DEBUG") != ""
	var best runResult
	var bestF []Finding
	var bestSeen map[string]bool
	have := false
	for _, g := range gs {
		m2 := it.mark()
		it.lossy = false
		r, ok := it.tryClosed(h0, l, g, mayForget, dbg)
		if ok && len(it.findings) == m2.nf {
			it.loopsGeneralised++
			return r, true
		}
		if ok && !have {
			best, have = r, true
			bestF, bestSeen = append([]Finding(nil), it.findings...), it.seen
		}
		it.rollback(m2)
	}
	if have {
		it.loopsGeneralised++
		it.findings, it.seen = bestF, bestSeen
		return best, true
	}
	return runResult{}, false
}

func (it *Interp) sameHeader(a, b *Frame, l *loopInfo) bool {
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !sameVal(a.env[p], b.env[p]) {
			return false
		}
	}
	for o, m := range b.st.mem {
		if a.st.mem[o] != m {
			n := a.st.mem[o]
			if n == nil || len(n.dense) != len(m.dense) || len(n.facts) != len(m.facts) {
				return false
			}
			for k, v := range m.dense {
				if !sameVal(n.dense[k], v) {
					return false
				}
			}
			for i := range m.facts {
				if m.facts[i].String() != n.facts[i].String() {
					return false
				}
			}
		}
	}
	return true
}

type chain [3]*Frame

// candidates: chains of three consecutive header states after the entry.
func (it *Interp) candidates(h0 *Frame, l *loopInfo) []chain {
	var out []chain
	r1 := it.body(h0, l)
	for i, b1 := range r1.backs {
		if i >= 4 {
			break
		}
		r2 := it.body(b1, l)
		for j, b2 := range r2.backs {
			if j >= 4 {
				break
			}
			r3 := it.body(b2, l)
			for k, b3 := range r3.backs {
				if k >= 4 {
					break
				}
				out = append(out, chain{b1, b2, b3})
			}
		}
	}
	return out
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

// tryClosed builds the closed form from a chain and verifies it.
func (it *Interp) tryClosed(h0 *Frame, l *loopInfo, ch chain, mayForget, dbg bool) (runResult, bool) {
	c := it.cx
	n := c.Fresh("n", 1, int64(1)<<41)
	ps := phisOf(l.header)
	havoc := map[*ssa.Phi]bool{}
	dropFact := map[string]bool{}
	dropCons := map[string]bool{}
	for round := 0; round < 12; round++ {
		H := h0.clone()
		H.st.cons = h0.st.cons.add(K(1).Sub(n.lin()), false)
		vals := map[*ssa.Phi]Val{}
		for _, p := range ps {
			var v Val
			if !havoc[p] {
				v = it.genVal(n, ch[0].env[p], ch[1].env[p], ch[2].env[p])
			}
			if v == nil {
				if !mayForget {
					return runResult{}, false
				}
				if dbg {
					fmt.Fprintf(os.Stderr, "  havoc %s (%s): %s | %s | %s\n", p.Name(), p.Comment, valStr(ch[0].env[p]), valStr(ch[1].env[p]), valStr(ch[2].env[p]))
				}
				havoc[p] = true
				v = it.fresh(p.Type(), "havoc."+p.Comment)
			}
			vals[p] = v
			H.env[p] = v
		}
		it.genMem(H, n, ch, dropFact)
		if dbg {
			fmt.Fprintf(os.Stderr, "loop %s closed form round %d:\n", it.prog.blockPos(l.header), round)
			for _, p := range ps {
				fmt.Fprintf(os.Stderr, "   %s(%s) = %s\n", p.Name(), p.Comment, valStr(vals[p]))
			}
			for o, m := range H.st.mem {
				if o.alloc || o.param != "" {
					if o.global == "" {
						fmt.Fprintf(os.Stderr, "   mem %s: %s\n", o.name, m)
					}
				}
			}
		}
		asm0, work0, heavy0 := h0.st.asm, h0.st.work, h0.st.heavy
		// first pass (muted): learn the guard of the previous iteration
		it.muted++
		m := it.mark()
		r := it.body(H, l)
		it.rollback(m)
		it.muted--
		if len(r.backs) == 0 {
			if dbg {
				fmt.Fprintf(os.Stderr, "   no back state\n")
			}
			return runResult{}, false
		}
		cand := []*Cons{}
		seenC := map[string]bool{}
		for _, b := range r.backs {
			for _, k := range b.st.cons.since(H.st.cons) {
				key := fmt.Sprint(k.eq) + k.e.Key()
				if !seenC[key] && !dropCons[key] {
					seenC[key] = true
					cand = append(cand, k)
				}
			}
		}
		var kept []*Cons
		base := H.st.cons
		keep := func(k *Cons) bool {
			if dropCons[fmt.Sprint(k.eq)+k.e.Key()] {
				return false
			}
			e0, ok0 := c.Subst(k.e, n, K(0))
			em, okm := c.Subst(k.e, n, n.lin().AddK(-1))
			if !ok0 || !okm {
				return false
			}
			hold := it.le(ch[0].st, e0, K(0))
			if k.eq {
				hold = it.eq(ch[0].st, e0, K(0))
			}
			if !hold {
				return false
			}
			// must hold after every back state that is to be covered
			for _, b := range r.backs {
				if !it.covers(b, H, n, ps, vals, havoc) {
					continue
				}
				h := it.le(b.st, k.e, K(0))
				if k.eq {
					h = it.eq(b.st, k.e, K(0))
				}
				if !h {
					return false
				}
			}
			kept = append(kept, k)
			base = base.add(em, k.eq)
			return true
		}
		for _, k := range cand {
			if keep(k) || len(r.backs) < 2 || len(cand) > 24 {
				continue
			}
			// the guard may be a disjunction whose cases differ by one
			if k.eq {
				if !keep(&Cons{e: k.e}) {
					keep(&Cons{e: k.e.Scale(-1)})
				}
			} else {
				keep(&Cons{e: k.e.AddK(-1)})
			}
		}
		H.st.cons = base
		step := int64(-1)
		if asm0 != nil {
			for _, b := range append(append([]*Frame(nil), r.backs...), ch[0]) {
				d, ok := b.st.asm.Sub(asm0).isConst()
				if !ok {
					d = 0
				}
				if step < 0 || d < step {
					step = d
				}
			}
			H.st.asm = asm0.Add(n.lin().Scale(step))
		}
		wstep := it.workStep(H, n, work0, append(append([]*Frame(nil), r.backs...), ch[0]))
		// second pass: real
		m = it.mark()
		r = it.body(H, l)
		// check induction
		good := true
		anyCover := false
		var extra []*Frame
		for _, b := range r.backs {
			if c.unsat(b.st.cons) {
				continue
			}
			bad := it.checkBack(b, H, n, ps, vals, havoc, dropFact, kept, dropCons, false, dbg)
			if bad == 0 {
				anyCover = true
				if !it.le(b.st, n.lin(), K(int64(1)<<41-2)) || !it.bounded(b.st, n) {
					it.report(b.st, "termination", "no bound on the number of iterations of the loop at "+it.prog.blockPos(l.header))
				}
			} else {
				extra = append(extra, b)
			}
		}
		if !anyCover {
			// weaken by what failed in the first back state
			changed := false
			for _, b := range r.backs {
				if it.checkBack(b, H, n, ps, vals, havoc, dropFact, kept, dropCons, true, dbg) > 0 {
					changed = true
					break
				}
			}
			if len(havoc) > 0 && !mayForget {
				changed = false
			}
			it.rollback(m)
			if !changed {
				return runResult{}, false
			}
			continue
		}
		for _, b := range r.backs {
			if len(b.st.heap) > len(H.st.heap) {
				h := b.st.heap[len(H.st.heap)]
				it.report(b.st, "alloc", "allocates heap memory in a loop: "+h.what+" at "+h.pos)
			}
		}
		res := runResult{exits: r.exits, rets: r.rets}
		// states not covered by the closed form: must leave the loop soon
		for _, b := range extra {
			cur := []*Frame{b}
			for i := 0; i < 4 && len(cur) > 0; i++ {
				var next []*Frame
				for _, h := range cur {
					rr := it.body(h, l)
					res.exits = append(res.exits, rr.exits...)
					res.rets = append(res.rets, rr.rets...)
					next = append(next, rr.backs...)
				}
				cur = next
			}
			if len(cur) > 0 {
				good = false
			}
		}
		if !good {
			it.rollback(m)
			// maybe weakening helps
			changed := false
			for _, b := range extra {
				if it.checkBack(b, H, n, ps, vals, havoc, dropFact, kept, dropCons, true, dbg) > 0 {
					changed = true
					break
				}
			}
			if len(havoc) > 0 && !mayForget {
				changed = false
			}
			if !changed {
				return runResult{}, false
			}
			continue
		}
		// the first iteration from the entry
		r0 := it.body(h0, l)
		if asm0 != nil && step > 0 {
			ok := true
			for _, b := range r.backs {
				ok = ok && it.le(b.st, H.st.asm.AddK(step), b.st.asm)
			}
			for _, b := range r0.backs {
				ok = ok && it.le(b.st, asm0.AddK(step), b.st.asm)
			}
			if !ok {
				for _, x := range res.exits {
					x.st.asm = asm0
				}
				for _, x := range res.rets {
					x.st.asm = asm0
				}
			}
		}
		if work0 != nil && H.st.heavy == heavy0 {
			ok := true
			for _, b := range r.backs {
				ok = ok && b.st.heavy == heavy0 && (c.unsat(b.st.cons) || it.le(b.st, b.st.work, H.st.work.AddK(wstep)))
			}
			for _, b := range r0.backs {
				ok = ok && b.st.heavy == heavy0 && (c.unsat(b.st.cons) || it.le(b.st, b.st.work, work0.AddK(wstep)))
			}
			if !ok {
				why := "the loop at " + it.prog.blockPos(l.header) + " does more work in some iterations than in others"
				for _, x := range res.exits {
					x.st.heavy = why
				}
				for _, x := range res.rets {
					x.st.heavy = why
				}
			}
		}
		res.exits = append(res.exits, r0.exits...)
		res.rets = append(res.rets, r0.rets...)
		for _, b := range r0.backs {
			// must be the closed form at n=1
			if it.subsumedAt1(b, H, n, ps, vals, havoc, kept) {
				continue
			}
			// otherwise it must leave soon
			cur := []*Frame{b}
			for i := 0; i < 4 && len(cur) > 0; i++ {
				var next []*Frame
				for _, h := range cur {
					rr := it.body(h, l)
					res.exits = append(res.exits, rr.exits...)
					res.rets = append(res.rets, rr.rets...)
					next = append(next, rr.backs...)
				}
				cur = next
			}
			if len(cur) > 0 {
				if dbg {
					fmt.Fprintf(os.Stderr, "   entry successor not covered\n")
				}
				it.rollback(m)
				return runResult{}, false
			}
		}
		return res, true
	}
	return runResult{}, false
}

// bounded: the path condition of a back state limits n.
func (it *Interp) bounded(st *State, n *Atom) bool {
	// intrinsic range of n is 2^41; a proper bound must come from elsewhere
	return it.cx.entailsWithRange(st.cons, n, int64(1)<<50, n.lin().AddK(-(int64(1)<<41 - 2)))
}

// entailsWithRange: entailment with the intrinsic upper bound of atom a lifted.
func (c *Ctx) entailsWithRange(cons *Cons, a *Atom, hi int64, e *Lin) bool {
	old := a.hi
	a.hi = hi
	r := c.infeasible(cons, []*Lin{e.Scale(-1).AddK(1)}, false) || c.infeasible(cons, []*Lin{e.Scale(-1).AddK(1)}, true)
	a.hi = old
	return r
}

// covers: the phi values of b equal the closed form at n+1.
func (it *Interp) covers(b, H *Frame, n *Atom, ps []*ssa.Phi, vals map[*ssa.Phi]Val, havoc map[*ssa.Phi]bool) bool {
	for _, p := range ps {
		if havoc[p] {
			continue
		}
		w, ok := it.substVal(vals[p], n, n.lin().AddK(1))
		if !ok || !it.valEq(b.st, b.env[p], w) {
			return false
		}
	}
	return true
}

func (it *Interp) subsumedAt1(b, H *Frame, n *Atom, ps []*ssa.Phi, vals map[*ssa.Phi]Val, havoc map[*ssa.Phi]bool, kept []*Cons) bool {
	for _, p := range ps {
		if havoc[p] {
			continue
		}
		w, ok := it.substVal(vals[p], n, K(1))
		if !ok || !it.valEq(b.st, b.env[p], w) {
			return false
		}
	}
	for _, k := range kept {
		e0, ok := it.cx.Subst(k.e, n, K(0))
		if !ok {
			return false
		}
		if !it.le(b.st, e0, K(0)) || (k.eq && !it.le(b.st, K(0), e0)) {
			return false
		}
	}
	return it.memSubsumes(b.st, H.st, n, K(1), nil, false)
}

// checkBack counts what in b is not implied by the closed form at n+1; with
// weaken set, the failing parts are dropped from the next attempt.
func (it *Interp) checkBack(b, H *Frame, n *Atom, ps []*ssa.Phi, vals map[*ssa.Phi]Val, havoc map[*ssa.Phi]bool, dropFact map[string]bool, kept []*Cons, dropCons map[string]bool, weaken, dbg bool) int {
	bad := 0
	for _, p := range ps {
		if havoc[p] {
			continue
		}
		w, ok := it.substVal(vals[p], n, n.lin().AddK(1))
		if !ok || !it.valEq(b.st, b.env[p], w) {
			bad++
			if dbg && weaken {
				fmt.Fprintf(os.Stderr, "   phi %s(%s): got %s want %s\n", p.Name(), p.Comment, valStr(b.env[p]), valStr(w))
			}
			if weaken {
				havoc[p] = true
			}
		}
	}
	for _, k := range kept {
		h := it.le(b.st, k.e, K(0)) && (!k.eq || it.le(b.st, K(0), k.e))
		if !h {
			bad++
			if weaken {
				dropCons[fmt.Sprint(k.eq)+k.e.Key()] = true
			}
		}
	}
	d := dropFact
	if !weaken {
		d = nil
	}
	if !it.memSubsumes(b.st, H.st, n, n.lin().AddK(1), d, dbg && weaken) {
		bad++
	}
	return bad
}

// memSubsumes: every fact of hs (with n:=at) is implied by bs.
func (it *Interp) memSubsumes(bs, hs *State, n *Atom, at *Lin, drop map[string]bool, dbg bool) bool {
	ok := true
	var objs []*Obj
	for o := range hs.mem {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		hm := hs.mem[o]
		bm := bs.get(o)
		if hm == bm {
			continue
		}
		for k, v := range hm.dense {
			w, sok := it.substVal(v, n, at)
			if !sok || !it.valEq(bs, bm.dense[k], w) {
				ok = false
				if drop != nil {
					drop[fmt.Sprintf("%d:d%d", o.id, k)] = true
				}
			}
		}
		for i, f := range hm.facts {
			g, sok := it.substFact(f, n, at)
			if !sok || !it.implied(bs, o, bm, g) {
				ok = false
				if dbg {
					fmt.Fprintf(os.Stderr, "   fact %s not implied: %s by %s\n", o.name, f, bm)
				}
				if drop != nil {
					drop[factKey(o, hm.facts[i])] = true
				}
			}
		}
	}
	return ok
}

func factKey(o *Obj, f *Fact) string {
	k := fmt.Sprintf("%d:%d:%s:%s:%s", o.id, f.kind, f.fam, f.lo.Key(), f.hi.Key())
	if f.base != nil {
		k += ":" + f.base.Key()
	}
	return k
}

// implied: fact g follows from the memory m of o.
func (it *Interp) implied(st *State, o *Obj, m *OMem, g *Fact) bool {
	if g.kind != FPt && it.le(st, g.hi, g.lo) {
		return true
	}
	for _, f := range m.facts {
		if f.kind != g.kind {
			continue
		}
		switch g.kind {
		case FPt:
			if it.eq(st, f.lo, g.lo) && it.valEq(st, f.val, g.val) {
				return true
			}
			continue
		case FElem:
			if f.fam != g.fam || !it.eq(st, f.shift, g.shift) {
				continue
			}
		case FEnc:
			if f.fam != g.fam || !it.eq(st, f.base, g.base) {
				continue
			}
		case FCtrl:
			if !it.eq(st, f.base, g.base) {
				continue
			}
		}
		if it.le(st, f.lo, g.lo) && it.le(st, g.hi, f.hi) {
			return true
		}
	}
	if g.kind == FPt {
		if k, ok := g.lo.isConst(); ok {
			if v, ok := m.dense[k]; ok && it.valEq(st, v, g.val) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) valEq(st *State, a, b Val) bool {
	switch x := a.(type) {
	case *IntV:
		y, ok := b.(*IntV)
		return ok && it.eq(st, x.lin, y.lin)
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.obj != y.obj {
			return false
		}
		return x.obj == nil || (it.eq(st, x.off, y.off) && it.eq(st, x.len, y.len) && it.eq(st, x.cap, y.cap))
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.obj != y.obj || x.nil_ != y.nil_ {
			return false
		}
		return x.obj == nil || it.eq(st, x.pos, y.pos)
	case ArrayV:
		y, ok := b.(ArrayV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !it.valEq(st, x[i], y[i]) {
				return false
			}
		}
		return true
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !it.valEq(st, x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return sameVal(a, b)
}

func (it *Interp) substVal(v Val, a *Atom, r *Lin) (Val, bool) {
	c := it.cx
	switch x := v.(type) {
	case *IntV:
		l, ok := c.Subst(x.lin, a, r)
		if !ok {
			return nil, false
		}
		return mkInt(x.w, x.signed, l), true
	case *SliceV:
		if x.obj == nil {
			return x, true
		}
		o, k1 := c.Subst(x.off, a, r)
		l, k2 := c.Subst(x.len, a, r)
		p, k3 := c.Subst(x.cap, a, r)
		return &SliceV{x.obj, o, l, p}, k1 && k2 && k3
	case *PtrV:
		if x.obj == nil {
			return x, true
		}
		p, ok := c.Subst(x.pos, a, r)
		return &PtrV{obj: x.obj, pos: p}, ok
	case *BoolV:
		if x.known {
			return x, true
		}
		l, ok := c.Subst(x.lin, a, r)
		return &BoolV{op: x.op, lin: l}, ok
	case ArrayV:
		n := make(ArrayV, len(x))
		for i := range x {
			w, ok := it.substVal(x[i], a, r)
			if !ok {
				return nil, false
			}
			n[i] = w
		}
		return n, true
	case StructV:
		n := make(StructV, len(x))
		for i := range x {
			w, ok := it.substVal(x[i], a, r)
			if !ok {
				return nil, false
			}
			n[i] = w
		}
		return n, true
	}
	return v, true
}

func (it *Interp) substFact(f *Fact, a *Atom, r *Lin) (*Fact, bool) {
	c := it.cx
	g := *f
	ok := true
	s := func(l *Lin) *Lin {
		if l == nil {
			return nil
		}
		n, k := c.Subst(l, a, r)
		if !k {
			ok = false
			return l
		}
		return n
	}
	g.lo, g.hi, g.base, g.shift = s(f.lo), s(f.hi), s(f.base), s(f.shift)
	if f.val != nil {
		v, k := it.substVal(f.val, a, r)
		g.val = v
		ok = ok && k
	}
	return &g, ok
}

// ---- generalisation ----

func (it *Interp) genVal(n *Atom, a, b, d Val) Val {
	switch x := a.(type) {
	case *IntV:
		y, ok1 := b.(*IntV)
		z, ok2 := d.(*IntV)
		if !ok1 || !ok2 {
			return nil
		}
		l := it.genLin(n, x.lin, y.lin, z.lin)
		if l == nil {
			return nil
		}
		return mkInt(x.w, x.signed, l)
	case *SliceV:
		y, ok1 := b.(*SliceV)
		z, ok2 := d.(*SliceV)
		if !ok1 || !ok2 || x.obj != y.obj || y.obj != z.obj {
			return nil
		}
		if x.obj == nil {
			return x
		}
		o, l, c := it.genLin(n, x.off, y.off, z.off), it.genLin(n, x.len, y.len, z.len), it.genLin(n, x.cap, y.cap, z.cap)
		if o == nil || l == nil || c == nil {
			return nil
		}
		return &SliceV{x.obj, o, l, c}
	case *PtrV:
		y, ok1 := b.(*PtrV)
		z, ok2 := d.(*PtrV)
		if !ok1 || !ok2 || x.obj != y.obj || y.obj != z.obj {
			return nil
		}
		if x.obj == nil {
			return x
		}
		o := it.genLin(n, x.pos, y.pos, z.pos)
		if o == nil {
			return nil
		}
		return &PtrV{obj: x.obj, pos: o}
	case ArrayV:
		y, ok1 := b.(ArrayV)
		z, ok2 := d.(ArrayV)
		if !ok1 || !ok2 || len(x) != len(y) || len(y) != len(z) {
			return nil
		}
		r := make(ArrayV, len(x))
		for i := range x {
			if r[i] = it.genVal(n, x[i], y[i], z[i]); r[i] == nil {
				return nil
			}
		}
		return r
	case StructV:
		y, ok1 := b.(StructV)
		z, ok2 := d.(StructV)
		if !ok1 || !ok2 || len(x) != len(y) || len(y) != len(z) {
			return nil
		}
		r := make(StructV, len(x))
		for i := range x {
			if r[i] = it.genVal(n, x[i], y[i], z[i]); r[i] == nil {
				return nil
			}
		}
		return r
	}
	if sameVal(a, b) && sameVal(b, d) {
		return a
	}
	return nil
}

// genLin finds v(n) with v(1)=a, v(2)=b, v(3)=d.
func (it *Interp) genLin(n *Atom, a, b, d *Lin) *Lin {
	if a == nil || b == nil || d == nil {
		return nil
	}
	if a.Eq(b) && b.Eq(d) {
		return a
	}
	c := it.cx
	d1, d2 := b.Sub(a), d.Sub(b)
	n1 := n.lin().AddK(-1)
	if d1.Eq(d2) {
		if k, ok := d1.isConst(); ok {
			return a.Add(n1.Scale(k))
		}
	}
	// prefix sums of sizes, with multiplicity +-1
	for _, sg := range []int64{1, -1} {
		e1, m1, r1, ok1 := sumRun(d1, sg)
		e2, m2, r2, ok2 := sumRun(d2, sg)
		if ok1 && ok2 && m1 == m2 && m1 > 0 && r1 == r2 && e2.Eq(e1.AddK(m1)) {
			t := c.T(e1.Add(n1.Scale(m1))).Sub(c.T(e1))
			return a.Add(n1.Scale(r1)).Add(t.Scale(sg))
		}
	}
	// structural
	return it.genAtoms(n, a, b, d)
}

// sumRun: l = sg*(s(e)+...+s(e+m-1)) + k
func sumRun(l *Lin, sg int64) (e *Lin, m, k int64, ok bool) {
	if len(l.t) == 0 {
		return nil, 0, 0, false
	}
	var ids []*Lin
	for _, t := range l.t {
		if t.a.kind != ASz || t.c != sg {
			return nil, 0, 0, false
		}
		ids = append(ids, t.a.idx)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].k < ids[j].k })
	for i := 1; i < len(ids); i++ {
		if !ids[i].Eq(ids[0].AddK(int64(i))) {
			return nil, 0, 0, false
		}
	}
	return ids[0], int64(len(ids)), l.k, true
}

func (it *Interp) genAtoms(n *Atom, a, b, d *Lin) *Lin {
	c := it.cx
	if len(a.t) == 0 && len(b.t) == 0 && len(d.t) == 0 {
		return nil
	}
	// common terms
	out := K(0)
	split := func(l *Lin) []LT {
		var r []LT
		for _, t := range l.t {
			if a.coef(t.a) == t.c && b.coef(t.a) == t.c && d.coef(t.a) == t.c {
				continue
			}
			r = append(r, t)
		}
		return r
	}
	ra, rb, rd := split(a), split(b), split(d)
	if len(ra) != len(rb) || len(rb) != len(rd) || len(ra) > 6 {
		return nil
	}
	for _, t := range a.t {
		if b.coef(t.a) == t.c && d.coef(t.a) == t.c {
			out = out.Add(t.a.lin().Scale(t.c))
		}
	}
	// constants
	k := it.genLin(n, K(a.k), K(b.k), K(d.k))
	if k == nil {
		return nil
	}
	out = out.Add(k)
	usedB, usedD := make([]bool, len(rb)), make([]bool, len(rd))
	for _, ta := range ra {
		found := false
	search:
		for i, tb := range rb {
			if usedB[i] || tb.c != ta.c || tb.a.kind != ta.a.kind || tb.a.name != ta.a.name || tb.a.d != ta.a.d {
				continue
			}
			for j, td := range rd {
				if usedD[j] || td.c != ta.c || td.a.kind != ta.a.kind || td.a.name != ta.a.name || td.a.d != ta.a.d {
					continue
				}
				if ta.a.idx == nil || tb.a.idx == nil || td.a.idx == nil {
					continue
				}
				g := it.genLin(n, ta.a.idx, tb.a.idx, td.a.idx)
				if g == nil {
					continue
				}
				var x *Lin
				switch ta.a.kind {
				case ASz:
					x = c.S(g)
				case AT:
					x = c.T(g)
				case ADiv:
					x = c.Div(g, ta.a.d)
				case AWord:
					x = c.Word(ta.a.name, g).lin()
				case ATerm:
					x = c.TermAtom(g, int(ta.a.d)).lin()
				}
				if x == nil {
					continue
				}
				out = out.Add(x.Scale(ta.c))
				usedB[i], usedD[j] = true, true
				found = true
				break search
			}
		}
		if !found {
			return nil
		}
	}
	return out
}

// genMem generalises the memory of the chain into H.
func (it *Interp) genMem(H *Frame, n *Atom, ch chain, drop map[string]bool) {
	mem := map[*Obj]*OMem{}
	var objs []*Obj
	for o := range ch[0].st.mem {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		a := ch[0].st.mem[o]
		b, ok1 := ch[1].st.mem[o]
		d, ok2 := ch[2].st.mem[o]
		if !ok1 || !ok2 {
			continue
		}
		if a == b && b == d {
			mem[o] = a
			continue
		}
		m := &OMem{dense: map[int64]Val{}}
		for k, v := range a.dense {
			if drop[fmt.Sprintf("%d:d%d", o.id, k)] {
				continue
			}
			bv, ok1 := b.dense[k]
			dv, ok2 := d.dense[k]
			if !ok1 || !ok2 {
				continue
			}
			if g := it.genVal(n, v, bv, dv); g != nil {
				m.dense[k] = g
			}
		}
		usedB, usedD := map[int]bool{}, map[int]bool{}
		for _, fa := range a.facts {
			var got *Fact
		find:
			for i, fb := range b.facts {
				if usedB[i] || fb.kind != fa.kind || fb.fam != fa.fam {
					continue
				}
				for j, fd := range d.facts {
					if usedD[j] || fd.kind != fa.kind || fd.fam != fa.fam {
						continue
					}
					g := &Fact{kind: fa.kind, fam: fa.fam}
					g.lo = it.genLin(n, fa.lo, fb.lo, fd.lo)
					g.hi = it.genLin(n, fa.hi, fb.hi, fd.hi)
					if g.lo == nil || g.hi == nil {
						continue
					}
					if fa.base != nil {
						if g.base = it.genLin(n, fa.base, fb.base, fd.base); g.base == nil {
							continue
						}
					}
					if fa.shift != nil {
						if g.shift = it.genLin(n, fa.shift, fb.shift, fd.shift); g.shift == nil {
							continue
						}
					}
					if fa.val != nil {
						if g.val = it.genVal(n, fa.val, fb.val, fd.val); g.val == nil {
							continue
						}
					}
					if drop[factKey(o, g)] {
						continue
					}
					usedB[i], usedD[j] = true, true
					got = g
					break find
				}
			}
			if got != nil {
				m.facts = append(m.facts, got)
			}
		}
		mem[o] = m
		if len(usedD) < len(d.facts) {
			it.lossy = true
		}
	}
	H.st.mem = mem
}

var _ = token.ADD
var _ = types.Typ
