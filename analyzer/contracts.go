package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Kernel contracts. Every function of the repository whose signature has the
// shape of an encode/decode kernel is itself analysed against the format's
// definition; only when that succeeds are its callers analysed with the
// contract, otherwise they are analysed with the body inlined.
// ---------------------------------------------------------------------------

type Kernel struct {
	fn                                                   *ssa.Function
	dec                                                  bool
	delta                                                bool
	one                                                  bool
	partial                                              bool
	asm                                                  bool
	n                                                    int
	in, out, prev, ctrl, count, size, num, shuffle, lens int // argument indexes, -1 if absent

	state    int // 0 new, 1 running, 2 done
	ok       bool
	exact    bool // encoder: needs and touches exactly the encoded bytes
	how      string
	findings []Finding
	tight    []Finding // why it is not exact
	obl      int
	runs     int
}

func isSliceOf(t types.Type, k types.BasicKind) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func ptrArray(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	if _, ok := p.Elem().Underlying().(*types.Array); !ok {
		return ""
	}
	return types.TypeString(p.Elem().Underlying(), nil)
}

// classify recognises a kernel by its signature alone.
func classify(fn *ssa.Function) *Kernel {
	if fn.Signature.Recv() != nil || len(fn.FreeVars) > 0 || fn.Signature.Variadic() {
		return nil
	}
	k := &Kernel{fn: fn, in: -1, out: -1, prev: -1, ctrl: -1, count: -1, size: -1, num: -1, shuffle: -1, lens: -1}
	ps := fn.Signature.Params()
	words, bytes, u32, small, ints := -1, -1, -1, -1, -1
	smallW := 0
	set := func(p *int, i int) bool {
		if *p >= 0 {
			return false
		}
		*p = i
		return true
	}
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		ok := false
		switch {
		case isSliceOf(t, types.Uint32):
			ok = set(&words, i)
		case isSliceOf(t, types.Uint8):
			ok = set(&bytes, i)
		case isBasic(t, types.Uint32):
			ok = set(&u32, i)
		case isBasic(t, types.Uint8), isBasic(t, types.Uint16):
			ok = set(&small, i)
			smallW = 8
			if isBasic(t, types.Uint16) {
				smallW = 16
			}
		case isBasic(t, types.Int):
			ok = set(&ints, i)
		default:
			switch ptrArray(t) {
			case "[256][16]uint8", "[256][16]byte":
				ok = set(&k.shuffle, i)
			case "[256]uint8", "[256]byte":
				ok = set(&k.lens, i)
			}
		}
		if !ok {
			return nil
		}
	}
	k.asm = len(fn.Blocks) == 0
	rs := fn.Signature.Results()
	if rs.Len() > 1 || bytes < 0 {
		return nil
	}
	var rt types.Type
	if rs.Len() == 1 {
		rt = rs.At(0).Type()
	}
	tables := k.shuffle >= 0 || k.lens >= 0
	switch {
	case words < 0 && u32 >= 0 && small < 0 && ints < 0 && !tables && rt != nil && isInt(rt):
		k.one, k.num, k.out, k.n = true, u32, bytes, 1
		return k
	case words < 0 && u32 < 0 && (small >= 0) != (ints >= 0) && !tables && rt != nil && isBasic(rt, types.Uint32):
		k.dec, k.one, k.in, k.n = true, true, bytes, 1
		k.size = small
		if small < 0 {
			k.size = ints
		}
		return k
	}
	if words < 0 {
		return nil
	}
	if rt != nil && (isBasic(rt, types.Uint8) || isBasic(rt, types.Uint16)) && small < 0 {
		k.in, k.out, k.prev, k.count = words, bytes, u32, ints
		k.delta = u32 >= 0
		k.n = 4
		if isBasic(rt, types.Uint16) {
			k.n = 8
		}
		if ints >= 0 {
			k.partial = true
			if k.n != 4 {
				return nil
			}
		}
		return k
	}
	if small >= 0 {
		k.dec = true
		k.in, k.out, k.prev, k.ctrl, k.count = bytes, words, u32, small, ints
		k.delta = u32 >= 0
		k.n = smallW / 2
		if ints >= 0 {
			k.partial = true
			if k.n != 4 || rt == nil || !isBasic(rt, types.Int) {
				return nil
			}
		} else if rt != nil {
			return nil
		}
		return k
	}
	return nil
}

func isInt(t types.Type) bool { _, _, ok := intType(t); return ok }

func (k *Kernel) desc() string {
	d := "encoder"
	if k.dec {
		d = "decoder"
	}
	s := fmt.Sprintf("%d-integer %s", k.n, d)
	if k.partial {
		s = "partial-group " + d
	}
	if k.delta {
		s = "differential " + s
	}
	return s
}

func (w *World) kernel(fn *ssa.Function) *Kernel {
	if w.kernels == nil {
		w.kernels = map[*ssa.Function]*Kernel{}
	}
	if k, ok := w.kernels[fn]; ok {
		return k
	}
	k := classify(fn)
	w.kernels[fn] = k
	return k
}

// hook is the contract dispatcher used by every analysis.
func (w *World) hook(it *Interp, fn *ssa.Function, st *State, args []Val, pos token.Pos) ([]Outcome, bool) {
	if fn.Pkg == nil || !w.prog.isRepo(fn.Pkg) || it.inInit {
		return nil, false
	}
	k := w.kernel(fn)
	if len(fn.Blocks) == 0 {
		return w.applyAsm(it, fn, k, st, args)
	}
	if k == nil || len(args) != fn.Signature.Params().Len() || w.noContract != nil && w.noContract(fn) {
		return nil, false
	}
	if k.state == 0 {
		w.verifyKernel(k)
	}
	if k.state != 2 || !k.ok {
		if k.state == 2 && it.fragile {
			for _, f := range k.findings {
				if f.Cat != "undecided" {
					it.abort(fn.RelString(nil) + " does not meet the contract of its signature: " + f.Msg)
				}
			}
		}
		return nil, false
	}
	// the call itself only runs the arithmetic when its shape is recognised
	it.work(st, K(8))
	outs, ok := w.apply(it, k, st, args)
	if ok {
		it.contractUses++
	}
	return outs, ok
}

// ---- verification ----

type kcfg struct {
	classes []int // nil: symbolic
	count   int   // partial: number of integers; 5 means "any count above 4"
	tight   bool  // encoder output exactly as large as the encoding
}

func sizeRange(cl int) (int64, int64) {
	switch cl {
	case 1:
		return 0, 1<<8 - 1
	case 2:
		return 1 << 8, 1<<16 - 1
	case 3:
		return 1 << 16, 1<<24 - 1
	}
	return 1 << 24, 1<<32 - 1
}

// runKernel analyses one kernel under one configuration.
func (w *World) runKernel(k *Kernel, cfg kcfg, caseNo int) (fs []Finding, obl int) {
	it := w.interp()
	it.contracts = w.hook
	it.entryName = k.fn.Name()
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok {
				fs = append(it.findings, Finding{"undecided", k.fn.RelString(nil), w.prog.pos(k.fn.Pos()), a.why})
				return
			}
			panic(r)
		}
	}()
	c := it.cx
	st := w.start(caseNo)
	n := k.n
	if k.partial {
		n = cfg.count
		if n > 4 {
			n = 4
		}
	}
	if cfg.classes != nil {
		it.unroll = true
	}
	it.encFam = "in"
	if k.delta && !k.dec {
		it.encFam = "d"
	}
	if k.dec && k.delta {
		c.fuse = true
	}
	for j := 0; j < len(cfg.classes) && j < n; j++ {
		cl := cfg.classes[j]
		lo, hi := sizeRange(cl)
		if k.dec {
			c.wordRange[c.Word("N", K(int64(j))).id] = [2]int64{0, hi}
		} else {
			v := it.famValue(it.encFam, K(int64(j)))
			if len(v.t) == 1 {
				c.wordRange[v.t[0].a.id] = [2]int64{lo, hi}
			}
		}
		c.sFixed[int64(j)] = cl
	}
	if k.dec {
		for j := n; j < len(cfg.classes); j++ {
			c.sFixed[int64(j)] = cfg.classes[j]
		}
	}
	args := make([]Val, k.fn.Signature.Params().Len())
	N := K(int64(n))
	data := c.T(N)
	var inObj, outObj *Obj
	u32, u8 := types.Typ[types.Uint32], types.Typ[types.Uint8]
	mkParam := func(name string, t types.Type, ln *Lin) (*Obj, *SliceV) {
		extra := c.Var("extra."+name, 0, maxExtra).lin()
		capx := c.Var("spare."+name, 0, maxExtra).lin()
		o := it.newObj(name, t, ln.Add(extra).Add(capx))
		o.param = name
		return o, &SliceV{obj: o, off: K(0), len: ln.Add(extra), cap: ln.Add(extra).Add(capx)}
	}
	if k.in >= 0 {
		var s *SliceV
		if k.dec {
			need := data
			if !cfg.tight {
				need = K(int64(4 * n))
			}
			inObj, s = mkParam("in", u8, need)
			inObj.enc = &Fact{kind: FEnc, base: K(0), lo: K(0), hi: N, fam: "N"}
			inObj.oracle = func(it *Interp, st *State, pos *Lin) Val {
				return it.encByte(st, K(0), K(0), N, "N", pos)
			}
		} else {
			inObj, s = mkParam("in", u32, N)
			inObj.oracle = func(it *Interp, st *State, pos *Lin) Val {
				return mkInt(32, false, it.cx.Word("in", pos).lin())
			}
		}
		inObj.ro, inObj.roWhy = true, "input of "+k.fn.Name()
		args[k.in] = s
	}
	if k.num >= 0 {
		args[k.num] = mkInt(32, false, c.Word("in", K(0)).lin())
	}
	if k.out >= 0 {
		var s *SliceV
		if k.dec {
			outObj, s = mkParam("out", u32, N)
			outObj.wlimit = N
		} else {
			need := data
			if !cfg.tight {
				need = K(int64(4 * n))
			}
			outObj, s = mkParam("out", u8, need)
			outObj.wlimit = need
		}
		args[k.out] = s
	}
	if k.prev >= 0 {
		if k.dec {
			args[k.prev] = mkInt(32, false, c.Word("X", K(-1)).lin())
		} else {
			args[k.prev] = mkInt(32, false, c.Word("in", K(-1)).lin())
		}
	}
	codeBits := func(w int) *IntV {
		bs := make([]Bit, w)
		for j := 0; j < w/2; j++ {
			s := c.S(K(int64(j)))
			if v, ok := s.isConst(); ok {
				bs[2*j], bs[2*j+1] = Bit{c: uint8((v - 1) & 1)}, Bit{c: uint8((v - 1) >> 1)}
				continue
			}
			a := c.SAtom(K(int64(j)))
			bs[2*j], bs[2*j+1] = Bit{a: a, i: 0}, Bit{a: a, i: 1}
		}
		return c.fromBits(w, false, bs)
	}
	if k.ctrl >= 0 {
		args[k.ctrl] = codeBits(2 * k.n)
	}
	if k.size >= 0 {
		wd, sg, _ := intType(k.fn.Signature.Params().At(k.size).Type())
		args[k.size] = mkInt(wd, sg, c.S(K(0)))
	}
	if k.count >= 0 {
		cv := K(int64(cfg.count))
		if cfg.count > 4 {
			cv = c.Var("count", 5, min(satMax/4, int64(1)<<uint(intBits-1)-1)).lin()
		}
		args[k.count] = mkInt(intBits, true, cv)
	}
	if k.shuffle >= 0 || k.lens >= 0 {
		return []Finding{{"undecided", k.fn.RelString(nil), w.prog.pos(k.fn.Pos()), "kernel takes tables"}}, 0
	}
	if w.countWork {
		st.work = K(0)
	}
	outs := w.callModed(it, k.fn, st, args)
	it.curFn, it.curPos = k.fn, k.fn.Pos()
	it.stack = nil
	what := ""
	if cfg.classes != nil {
		what = fmt.Sprintf(" for byte lengths %v", cfg.classes[:min(n, len(cfg.classes))])
	}
	if k.partial {
		what += fmt.Sprintf(" with count %d", cfg.count)
		if cfg.count > 4 {
			what += " or more"
		}
	}
	live := 0
	for _, o := range outs {
		if c.unsat(o.st.cons) {
			continue
		}
		live++
		it.heapCheck(o.st, false, nil)
		it.workCheck(o.st, nil)
		// result
		rv, _ := o.ret.(*IntV)
		if !k.dec {
			if k.one {
				obl++
				if rv == nil || !it.eq(o.st, rv.lin, c.S(K(0))) {
					it.report(o.st, "content", "does not return the number of bytes written"+what+": "+valStr(o.ret))
				}
			} else {
				obl++
				bs := make([]Bit, 2*k.n)
				for j := 0; j < n; j++ {
					s := c.S(K(int64(j)))
					if v, ok := s.isConst(); ok {
						bs[2*j], bs[2*j+1] = Bit{c: uint8((v - 1) & 1)}, Bit{c: uint8((v - 1) >> 1)}
						continue
					}
					a := c.SAtom(K(int64(j)))
					bs[2*j], bs[2*j+1] = Bit{a: a, i: 0}, Bit{a: a, i: 1}
				}
				if rv == nil || !it.sameBits(o.st, rv, bs) {
					it.report(o.st, "content", "returned control value is not the code of the byte lengths"+what+": "+valStr(o.ret))
				}
			}
			// data bytes
			obl++
			if outObj != nil {
				if msg := it.checkEncoded(o.st, outObj, K(0), N, it.encFam); msg != "" {
					it.report(o.st, "content", msg+what)
				}
			}
		} else {
			if k.one {
				obl++
				if rv == nil || !it.eq(o.st, rv.lin, c.Word("N", K(0)).lin()) {
					it.report(o.st, "content", "does not return the little-endian value"+what+": "+valStr(o.ret))
				}
			} else {
				fam := "N"
				if k.delta {
					fam = "X"
				}
				for j := 0; j < n; j++ {
					obl++
					v, _ := it.loadElem(o.st, outObj, K(int64(j)), u32).(*IntV)
					want := c.Word(fam, K(int64(j))).lin()
					if v == nil || !it.eq(o.st, v.lin, want) {
						it.report(o.st, "content", fmt.Sprintf("output element %d is not the decoded integer%s: %s", j, what, valStr(v)))
						break
					}
				}
				if k.partial {
					obl++
					if rv == nil || !it.eq(o.st, rv.lin, data) {
						it.report(o.st, "content", "does not return the number of bytes consumed"+what+": "+valStr(o.ret))
					}
				}
			}
		}
	}
	if live == 0 && len(it.findings) == 0 {
		it.report(st, "panic", "never returns normally"+what)
	}
	return it.findings, obl + it.boundsChecked
}

// sameBits: a value equals given bits.
func (it *Interp) sameBits(st *State, v *IntV, want []Bit) bool {
	w := it.cx.fromBits(v.w, v.signed, resize(append([]Bit(nil), want...), v.w, false))
	if it.eq(st, v.lin, w.lin) {
		return true
	}
	bs := it.cx.bitsOf(v)
	if bs == nil {
		return false
	}
	for i := range bs {
		if it.cx.normBit(bs[i]) != w.bits[i] {
			return false
		}
	}
	return true
}

// checkEncoded: object bytes at base hold the encoding of numbers 0..n-1.
func (it *Interp) checkEncoded(st *State, o *Obj, base, n *Lin, fam string) string {
	c := it.cx
	if n.Eq(K(0)) {
		return ""
	}
	m := st.get(o)
	g := &Fact{kind: FEnc, lo: K(0), hi: n, base: base, fam: fam}
	if it.implied(st, o, m, g) {
		return ""
	}
	nk, ok := n.isConst()
	if !ok {
		return fmt.Sprintf("the data region is not established to hold the integers' bytes in order (known: %s)", m)
	}
	// a prefix of numbers covered by facts, the rest byte by byte
	for j := int64(0); j < nk; j++ {
		gj := &Fact{kind: FEnc, lo: K(j), hi: K(j + 1), base: base, fam: fam}
		if it.implied(st, o, m, gj) {
			continue
		}
		s, isC := c.S(K(j)).isConst()
		if !isC {
			return fmt.Sprintf("the bytes of integer %d are not established (known: %s)", j, m)
		}
		w := it.famValue(fam, K(j))
		wb := c.bitsOf(mkInt(32, false, w))
		p := base.Add(c.T(K(j)))
		for b := int64(0); b < s; b++ {
			v, _ := it.loadElem(st, o, p.AddK(b), types.Typ[types.Uint8]).(*IntV)
			if v == nil || wb == nil || !it.sameBits(st, v, wb[8*b:8*b+8]) {
				return fmt.Sprintf("byte %d of integer %d is wrong: %s", b, j, valStr(v))
			}
		}
	}
	return ""
}

func (w *World) verifyKernel(k *Kernel) {
	k.state = 1
	hook, nc, mf := w.onAsm, w.noContract, w.modeFn
	w.onAsm, w.noContract, w.modeFn = nil, nil, nil
	defer func() {
		k.state = 2
		w.onAsm, w.noContract, w.modeFn = hook, nc, mf
	}()
	if k.asm {
		return
	}
	if k.shuffle >= 0 || k.lens >= 0 {
		return // wrappers with table arguments are inlined
	}
	counts := []int{k.n}
	if k.partial {
		counts = []int{0, 1, 2, 3, 4, 5}
	}
	try := func(tight, symbolic bool) ([]Finding, bool) {
		var all []Finding
		for ci := range w.cases {
			for _, cnt := range counts {
				if symbolic {
					fs, obl := w.runKernel(k, kcfg{count: cnt, tight: tight}, ci)
					k.runs++
					k.obl += obl
					all = append(all, fs...)
					if len(fs) > 0 {
						return all, false
					}
					continue
				}
				n := k.n
				if k.partial {
					n = min(cnt, 4)
				}
				if k.partial && k.dec {
					n = 4 // unused control fields take any value
				}
				fs, obl, runs := w.partition(k, n, cnt, tight, ci)
				k.runs += runs
				k.obl += obl
				all = append(all, fs...)
				if len(fs) > 0 {
					return all, false
				}
			}
		}
		return all, true
	}
	var fs []Finding
	type mode struct{ tight, sym bool }
	modes := []mode{{true, true}, {true, false}, {false, true}, {false, false}}
	if k.n == 8 {
		modes = []mode{{true, true}, {false, true}, {true, false}, {false, false}}
	}
	for _, m := range modes {
		tight, sym := m.tight, m.sym
		{
			f, ok := try(tight, sym)
			if ok {
				k.ok, k.exact = true, tight
				k.how = "size-class partition"
				if sym {
					k.how = "symbolic sizes"
				}
				k.findings = nil
				return
			}
			fs = f
			if tight {
				k.tight = f
			}
		}
	}
	k.findings = fs
}

// partition runs all 4^n size-class combinations.
func (w *World) partition(k *Kernel, n, cnt int, tight bool, ci int) (fs []Finding, obl, runs int) {
	total := 1 << uint(2*n)
	classes := func(x int) []int {
		cl := make([]int, n)
		for j := range cl {
			cl[j] = x>>uint(2*j)&3 + 1
		}
		return cl
	}
	if n <= 4 {
		for x := 0; x < total; x++ {
			f, o := w.runKernel(k, kcfg{classes: classes(x), count: cnt, tight: tight}, ci)
			obl += o
			runs++
			if len(f) > 0 {
				return f, obl, runs
			}
		}
		return nil, obl, runs
	}
	const workers = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := false
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ww := w.fork()
			kk := ww.kernel(k.fn)
			kk.state = 1
			for x := g; x < total; x += workers {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					return
				}
				f, o := ww.runKernel(kk, kcfg{classes: classes(x), count: cnt, tight: tight}, ci)
				mu.Lock()
				obl += o
				runs++
				if len(f) > 0 && !stop {
					stop = true
					fs = f
				}
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	return fs, obl, runs
}

// ---- application ----

// same: equal in the state.
func (it *Interp) same(st *State, a, b *Lin) bool {
	return a.Eq(b) || it.le(st, a, b) && it.le(st, b, a)
}

// famIndex: v is the value of number e of the encoded list.
func (it *Interp) famIndex(st *State, v *IntV) (*Lin, bool) {
	l := v.lin
	if len(l.t) != 1 || l.t[0].c != 1 || l.k != 0 {
		return nil, false
	}
	a := l.t[0].a
	if it.encFam == "in" {
		if a.kind == AWord && a.name == "in" {
			return a.idx, true
		}
		return nil, false
	}
	if a.kind != ATerm || a.d != 32 || len(a.idx.t) != 2 || a.idx.k != 0 {
		return nil, false
	}
	var plus, minus *Atom
	for _, t := range a.idx.t {
		if t.a.kind != AWord || t.a.name != "in" {
			return nil, false
		}
		if t.c == 1 {
			plus = t.a
		} else if t.c == -1 {
			minus = t.a
		}
	}
	if plus == nil || minus == nil {
		return nil, false
	}
	if e := minus.idx.AddK(1); !e.Eq(plus.idx) {
		// the same position, written in another way: the predecessor is what
		// links the number to those already encoded
		if st == nil || !it.same(st, e, plus.idx) {
			return nil, false
		}
		return e, true
	}
	return plus.idx, true
}

func (w *World) apply(it *Interp, k *Kernel, st *State, args []Val) ([]Outcome, bool) {
	if !k.partial {
		v, ok := w.applyN(it, k, st, args, k.n)
		if !ok {
			return nil, false
		}
		return []Outcome{{st, v}}, true
	}
	cnt, ok := args[k.count].(*IntV)
	if !ok {
		return nil, false
	}
	if v, isC := cnt.isConst(); isC {
		if v < 0 {
			return nil, false
		}
		r, ok := w.applyN(it, k, st, args, int(min(v, 4)))
		if !ok {
			return nil, false
		}
		return []Outcome{{st, r}}, true
	}
	if !it.le(st, K(0), cnt.lin) {
		return nil, false
	}
	var outs []Outcome
	for n := 0; n <= 4; n++ {
		b := &BoolV{op: token.EQL, lin: cnt.lin.AddK(int64(-n))}
		if n == 4 {
			b = &BoolV{op: token.LEQ, lin: K(4).Sub(cnt.lin)}
		}
		for _, cs := range it.assume(st, b) {
			s2 := st.clone()
			s2.cons = cs
			r, ok := w.applyN(it, k, s2, args, n)
			if !ok {
				return nil, false
			}
			outs = append(outs, Outcome{s2, r})
		}
	}
	if len(outs) == 0 {
		return nil, false
	}
	return outs, true
}

func (w *World) applyN(it *Interp, k *Kernel, st *State, args []Val, n int) (Val, bool) {
	c := it.cx
	if k.dec {
		return w.applyDec(it, k, st, args, n)
	}
	out, ok := args[k.out].(*SliceV)
	if !ok {
		return nil, false
	}
	wret, sret, _ := intType(k.fn.Signature.Results().At(0).Type())
	if n == 0 {
		return mkInt(wret, sret, K(0)), true
	}
	if out.obj == nil {
		return nil, false
	}
	var vals []*IntV
	if k.one {
		v, ok := args[k.num].(*IntV)
		if !ok {
			return nil, false
		}
		vals = append(vals, v)
	} else {
		in, ok := args[k.in].(*SliceV)
		if !ok || in.obj == nil {
			return nil, false
		}
		if !it.le(st, K(int64(n)), in.len) {
			return nil, false // the inlined body reports where it fails
		}
		for i := 0; i < n; i++ {
			v, ok := it.loadElem(st, in.obj, in.off.AddK(int64(i)), types.Typ[types.Uint32]).(*IntV)
			if !ok {
				return nil, false
			}
			vals = append(vals, v)
		}
		if k.delta {
			p, ok := args[k.prev].(*IntV)
			if !ok {
				return nil, false
			}
			prev := p.lin
			for i, v := range vals {
				d := mkInt(32, false, c.wrapMod(v.lin.Sub(prev), 32))
				prev = v.lin
				vals[i] = d
			}
		}
	}
	var e *Lin
	for i, v := range vals {
		x, ok := it.famIndex(st, v)
		if !ok {
			return nil, false
		}
		if i == 0 {
			e = x
		} else if w := e.AddK(int64(i)); !it.same(st, x, w) {
			return nil, false
		}
	}
	// which table position: two different positions may hold equal words, the
	// encoding is the same
	end := e.AddK(int64(n))
	size := c.T(end).Sub(c.T(e))
	need := size
	if !k.exact {
		need = K(int64(4 * n))
	}
	if !it.le(st, need, out.len) {
		return nil, false
	}
	it.boundsChecked++
	it.checkWrite(st, out.obj, out.off, out.off.Add(need), k.fn.Name())
	it.kill(st, out.obj, out.off, out.off.Add(need))
	it.addFact(st, out.obj, &Fact{kind: FEnc, base: out.off.Sub(c.T(e)), lo: e, hi: end, fam: it.encFam})
	if k.one {
		return mkInt(wret, sret, c.S(e)), true
	}
	return it.codeVal(wret, e, n), true
}

// codeVal: control bits of numbers e..e+n-1.
func (it *Interp) codeVal(w int, e *Lin, n int) *IntV {
	c := it.cx
	bs := make([]Bit, w)
	for j := 0; j < n; j++ {
		s := c.S(e.AddK(int64(j)))
		if v, ok := s.isConst(); ok {
			bs[2*j], bs[2*j+1] = Bit{c: uint8((v - 1) & 1)}, Bit{c: uint8((v - 1) >> 1)}
			continue
		}
		a := c.SAtom(e.AddK(int64(j)))
		bs[2*j], bs[2*j+1] = Bit{a: a, i: 0}, Bit{a: a, i: 1}
	}
	return c.fromBits(w, false, bs)
}

// encodedAt: number e.. e+n-1 of the stream are encoded at pos of o.
func (it *Interp) encodedAt(st *State, o *Obj, pos, e *Lin, n int) bool {
	c := it.cx
	fs := st.get(o).facts
	if o.enc != nil {
		fs = append([]*Fact{o.enc}, fs...)
	}
	for _, f := range fs {
		if f.kind != FEnc || f.fam != "N" {
			continue
		}
		if it.eq(st, pos, f.base.Add(c.T(e))) && it.le(st, f.lo, e) && it.le(st, e.AddK(int64(n)), f.hi) {
			return true
		}
	}
	return false
}

func (w *World) applyDec(it *Interp, k *Kernel, st *State, args []Val, n int) (Val, bool) {
	c := it.cx
	in, ok := args[k.in].(*SliceV)
	if !ok {
		return nil, false
	}
	if k.one {
		sz, ok := args[k.size].(*IntV)
		if !ok || in.obj == nil || len(sz.lin.t) != 1 || sz.lin.t[0].c != 1 || sz.lin.k != 0 || sz.lin.t[0].a.kind != ASz {
			return nil, false
		}
		e := sz.lin.t[0].a.idx
		need := c.S(e)
		if !k.exact {
			need = K(4)
		}
		if !it.encodedAt(st, in.obj, in.off, e, 1) || !it.le(st, need, in.len) {
			return nil, false
		}
		it.boundsChecked++
		return mkInt(32, false, c.Word("N", e).lin()), true
	}
	out, ok := args[k.out].(*SliceV)
	if !ok {
		return nil, false
	}
	if n == 0 {
		return mkInt(intBits, true, K(0)), true
	}
	if in.obj == nil || out.obj == nil {
		return nil, false
	}
	cv, ok := args[k.ctrl].(*IntV)
	if !ok {
		return nil, false
	}
	bs := c.bitsOf(cv)
	if bs == nil {
		return nil, false
	}
	m := make([]Bit, 2*n)
	copy(m, bs[:2*n])
	e, ok := it.codeRun(m, n)
	if !ok {
		return nil, false
	}
	size := c.T(e.AddK(int64(n))).Sub(c.T(e))
	N := K(int64(n))
	need := size
	if !k.exact {
		need = K(int64(4 * n))
	}
	if !it.encodedAt(st, in.obj, in.off, e, n) || !it.le(st, need, in.len) || !it.le(st, N, out.len) {
		return nil, false
	}
	fam := "N"
	if k.delta {
		p, ok := args[k.prev].(*IntV)
		if !ok || !it.eq(st, p.lin, c.Word("X", e.AddK(-1)).lin()) {
			return nil, false
		}
		fam = "X"
	}
	it.boundsChecked += 2
	it.checkWrite(st, out.obj, out.off, out.off.Add(N), k.fn.Name())
	it.kill(st, out.obj, out.off, out.off.Add(N))
	it.addFact(st, out.obj, &Fact{kind: FElem, lo: out.off, hi: out.off.Add(N), fam: fam, shift: e.Sub(out.off)})
	if k.partial {
		return mkInt(intBits, true, size), true
	}
	return nil, true
}

var _ = strings.Join
