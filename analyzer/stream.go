package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Layer 3: the stream entry points. Every exported function whose signature is
// that of a stream encoder or decoder is analysed as a whole, for a symbolic
// number of integers of symbolic values and sizes.
// ---------------------------------------------------------------------------

type Stream struct {
	fn      *ssa.Function
	dec     bool
	delta   bool
	in      int // encoder: integer list; decoder: stream
	out     int
	count   int
	prev    int
	variant string // automatic, portable, accelerated, other
}

func classifyStream(fn *ssa.Function) *Stream {
	if fn.Signature.Recv() != nil || len(fn.FreeVars) > 0 || fn.Signature.Variadic() || len(fn.Blocks) == 0 {
		return nil
	}
	if fn.Object() == nil || !fn.Object().Exported() {
		return nil
	}
	s := &Stream{fn: fn, in: -1, out: -1, count: -1, prev: -1}
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	words, bytes := -1, -1
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		var p *int
		switch {
		case isSliceOf(t, types.Uint32):
			p = &words
		case isSliceOf(t, types.Uint8):
			p = &bytes
		case isBasic(t, types.Uint32):
			p = &s.prev
		case isBasic(t, types.Int):
			p = &s.count
		default:
			return nil
		}
		if *p >= 0 {
			return nil
		}
		*p = i
	}
	s.delta = s.prev >= 0
	switch {
	case words >= 0 && bytes < 0 && s.count < 0 && rs.Len() == 1 && isSliceOf(rs.At(0).Type(), types.Uint8):
		s.in = words
	case words >= 0 && bytes >= 0 && s.count >= 0 && rs.Len() == 0:
		s.dec, s.in, s.out = true, bytes, words
	default:
		return nil
	}
	n := fn.Name()
	switch {
	case strings.HasSuffix(n, "Scalar"):
		s.variant = "portable"
	case strings.HasSuffix(n, "Fast"):
		s.variant = "accelerated"
	default:
		s.variant = "automatic"
	}
	return s
}

// streams finds the stream entry points of the library.
func (w *World) streams() []*Stream {
	var out []*Stream
	for _, path := range w.prog.libPaths() {
		sp := w.prog.spkgs[path]
		if sp.Pkg.Name() == "main" || strings.HasSuffix(path, "/util") {
			continue
		}
		for _, f := range w.prog.funcsOf(sp) {
			if s := classifyStream(f); s != nil {
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.RelString(nil) < out[j].fn.RelString(nil) })
	return out
}

type StreamRun struct {
	findings                []Finding
	obl                     int
	bounds                  int
	steps                   int
	generalised, unrolled   int
	contracts, asm, asmBnds int
	outcomes                int
	work                    int64 // C23: most elementary steps of a path (constant counts)
	undecided               bool
	start                   string
	called                  map[*ssa.Function]bool // functions entered
}

// runStream analyses one entry point from one initialisation case. count < 0
// means a symbolic number of integers.
func (w *World) runStream(s *Stream, caseNo int, count int64) (r StreamRun) {
	it := w.interp()
	it.stop = w.stop
	it.fragile = w.fragile
	it.onAsm = w.onAsm
	it.contracts = w.hook
	it.entryName = s.fn.Name()
	it.called = map[*ssa.Function]bool{s.fn: true}
	r.called = it.called
	c := it.cx
	st := w.start(caseNo)
	r.start = describeCase(w.cases[caseNo])
	defer func() {
		if x := recover(); x != nil {
			a, ok := x.(abortErr)
			if !ok {
				panic(x)
			}
			it.findings = append(it.findings, Finding{"undecided", s.fn.RelString(nil), w.prog.pos(s.fn.Pos()), a.why})
		}
		r.findings = it.findings
		r.bounds = it.boundsChecked
		r.steps = it.steps
		r.generalised, r.unrolled = it.loopsGeneralised, it.loopsUnrolled
		r.contracts, r.asm, r.asmBnds = it.contractUses, it.asmCalls, it.asmBounds
		for _, f := range r.findings {
			if f.Cat == "undecided" {
				r.undecided = true
			}
		}
	}()
	n := K(count)
	if count < 0 {
		n = c.Var("count", 0, maxCount).lin()
	} else {
		it.unroll = true
	}
	ctrlLen := c.Div(n.AddK(3), 4)
	data := c.T(n)
	args := make([]Val, s.fn.Signature.Params().Len())
	u32, u8 := types.Typ[types.Uint32], types.Typ[types.Uint8]
	it.encFam = "in"
	if s.delta && !s.dec {
		it.encFam = "d"
	}
	var outObj *Obj
	if !s.dec {
		o := it.newObj("in", u32, n.Add(c.Var("spare.in", 0, maxExtra).lin()))
		o.param = "in"
		o.oracle = func(it *Interp, st *State, pos *Lin) Val {
			return mkInt(32, false, it.cx.Word("in", pos).lin())
		}
		o.ro, o.roWhy = true, "the caller's list"
		args[s.in] = &SliceV{obj: o, off: K(0), len: n, cap: o.n}
		if s.prev >= 0 {
			args[s.prev] = mkInt(32, false, c.Word("in", K(-1)).lin())
		}
	} else {
		if s.delta {
			c.fuse = true
		}
		total := ctrlLen.Add(data)
		ln := total.Add(c.Var("extra.stream", 0, maxExtra).lin())
		o := it.newObj("stream", u8, ln)
		o.param = "stream"
		o.ro, o.roWhy = true, "the caller's stream"
		o.enc = &Fact{kind: FEnc, base: ctrlLen, lo: K(0), hi: n, fam: "N"}
		o.oracle = func(it *Interp, st *State, pos *Lin) Val {
			if it.le(st, K(0), pos) && it.lt(st, pos, ctrlLen) {
				return it.ctrlByte(pos)
			}
			return it.encByte(st, ctrlLen, K(0), n, "N", pos)
		}
		args[s.in] = &SliceV{obj: o, off: K(0), len: ln, cap: ln}
		on := n.Add(c.Var("extra.out", 0, maxExtra).lin())
		outObj = it.newObj("out", u32, on)
		outObj.param = "out"
		outObj.wlimit = n
		args[s.out] = &SliceV{obj: outObj, off: K(0), len: on, cap: on}
		args[s.count] = mkInt(intBits, true, n)
		if s.prev >= 0 {
			args[s.prev] = mkInt(32, false, c.Word("X", K(-1)).lin())
		}
	}
	if w.countWork {
		st.work = K(0)
	}
	outs := w.callModed(it, s.fn, st, args)
	it.curFn, it.curPos = s.fn, s.fn.Pos()
	it.stack, it.calledAt = nil, nil
	for _, o := range outs {
		if c.unsat(o.st.cons) {
			continue
		}
		it.heapCheck(o.st, !s.dec, n)
		if m := it.workCheck(o.st, n); m > r.work {
			r.work = m
		}
		// the residue of the count decides the shape of the last group
		for res := int64(0); res < 4; res++ {
			st := o.st
			if count >= 0 {
				if count%4 != res {
					continue
				}
			} else {
				st = o.st.clone()
				st.cons = st.cons.add(n.Sub(c.Div(n, 4).Scale(4)).AddK(-res), true)
				if c.unsat(st.cons) {
					continue
				}
			}
			r.outcomes++
			if s.dec {
				fam := "N"
				if s.delta {
					fam = "X"
				}
				r.obl++
				g := &Fact{kind: FElem, lo: K(0), hi: n, fam: fam, shift: K(0)}
				if !it.implied(st, outObj, st.get(outObj), g) {
					it.report(st, "content", fmt.Sprintf("the first count elements of the output are not established to be the decoded integers (known about the output: %s)%s", st.get(outObj), it.when(st, count, res)))
				}
				continue
			}
			w.checkStream(it, st, s, o.ret, n, ctrlLen, data, res, count, &r)
		}
	}
	if r.outcomes == 0 && len(it.findings) == 0 {
		it.report(st, "panic", "never returns normally")
	}
	return
}

func (it *Interp) when(st *State, count, res int64) string {
	if count >= 0 {
		return fmt.Sprintf(" for count %d", count)
	}
	return fmt.Sprintf(" for count = 4q+%d", res)
}

func (w *World) checkStream(it *Interp, st *State, s *Stream, ret Val, n, ctrlLen, data *Lin, res, count int64, r *StreamRun) {
	c := it.cx
	at := it.when(st, count, res)
	sl, ok := ret.(*SliceV)
	if !ok {
		it.report(st, "undecided", "result is not a known slice"+at)
		return
	}
	r.obl++
	if !it.eq(st, sl.len, ctrlLen.Add(data)) && !it.eq(st, it.alignSizes(st, sl.len), ctrlLen.Add(data)) {
		it.report(st, "content", fmt.Sprintf("the returned stream's length is not ceil(count/4) plus the data bytes%s: %s", at, sl.len))
	}
	if sl.obj == nil {
		return
	}
	r.obl++
	if !sl.obj.alloc || sl.obj.global != "" || sl.obj.param != "" {
		it.report(st, "ownership", "the returned stream is not freshly allocated by the call: "+sl.obj.name)
	}
	q := c.Div(n, 4)
	if count >= 0 {
		q = K(count / 4)
	}
	// full groups
	r.obl++
	if g := (&Fact{kind: FCtrl, lo: K(0), hi: q, base: sl.off}); !it.implied(st, sl.obj, st.get(sl.obj), g) {
		it.report(st, "content", fmt.Sprintf("the control bytes of the full groups are not established%s (known: %s)", at, st.get(sl.obj)))
	}
	if res != 0 {
		r.obl++
		bs := make([]Bit, 8)
		for j := int64(0); j < res; j++ {
			a := c.SAtom(q.Scale(4).AddK(j))
			if count < 0 {
				a = c.SAtom(n.AddK(j - res))
			}
			bs[2*j], bs[2*j+1] = Bit{a: a, i: 0}, Bit{a: a, i: 1}
		}
		v, _ := it.loadElem(st, sl.obj, sl.off.Add(q), types.Typ[types.Uint8]).(*IntV)
		if v == nil || !it.sameBitsMod(st, v, bs) {
			it.report(st, "content", fmt.Sprintf("the control byte of the final partial group is not the code of its %d byte lengths with zero unused fields%s: %s (known: %s)", res, at, valStr(v), st.get(sl.obj)))
			if os.Getenv("SVB_DEBUG") != "" {
				fmt.Println("   state:", describeCase(st))
			}
		}
	}
	r.obl++
	g := &Fact{kind: FEnc, lo: K(0), hi: n, base: sl.off.Add(ctrlLen), fam: it.encFam}
	if !it.implied(st, sl.obj, st.get(sl.obj), g) {
		it.report(st, "content", fmt.Sprintf("the data region is not established to hold every integer's bytes in order%s (known: %s)", at, st.get(sl.obj)))
	}
}

// alignSizes rewrites sizes s(x) whose index equals y+k under the path condition,
// for a prefix sum T(y) of the same form.
func (it *Interp) alignSizes(st *State, l *Lin) *Lin {
	r := l
	for _, t := range l.t {
		if t.a.kind != ASz {
			continue
		}
		anchors := []*Lin{K(0)}
		for _, u := range l.t {
			if u.a.kind == AT {
				anchors = append(anchors, u.a.idx)
			}
		}
	search:
		for _, u := range anchors {
			if _, ok := t.a.idx.Sub(u).isConst(); ok {
				break
			}
			for k := int64(0); k < 4; k++ {
				if it.eq(st, t.a.idx, u.AddK(k)) {
					r = r.Add(it.cx.S(u.AddK(k)).Sub(t.a.lin()).Scale(t.c))
					break search
				}
			}
		}
	}
	return r
}

// sameBitsMod compares bit provenance where the indices of size atoms only need
// to be equal under the path condition.
func (it *Interp) sameBitsMod(st *State, v *IntV, want []Bit) bool {
	if it.sameBits(st, v, want) {
		return true
	}
	bs := it.cx.bitsOf(v)
	if bs == nil || len(bs) < len(want) {
		return false
	}
	for i := range bs {
		var w Bit
		if i < len(want) {
			w = want[i]
		}
		b := it.cx.normBit(bs[i])
		w = it.cx.normBit(w)
		if b == w {
			continue
		}
		if b.a == nil || w.a == nil || b.i != w.i || b.a.kind != ASz || w.a.kind != ASz || !it.eq(st, b.a.idx, w.a.idx) {
			return false
		}
	}
	return true
}
