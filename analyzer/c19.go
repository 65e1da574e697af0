package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C19: utility generators and codecs
// ---------------------------------------------------------------------------

func init() {
	prop("C19", "RandUint32: abstract interpretation with every random draw an independent atom; on each path the result must be a form whose exact set of values is an interval inside one byte-length class, and the intervals of all paths together must be the four classes. Delta: inductive loop summary, output element i is in[i]-in[i-1] (in[0] first). Varint: inductive loop summaries over prefix sums of varint sizes, with contracts for encoding/binary's PutUvarint and Uvarint; encoders write the varints of the numbers (differences) contiguously and return their total size, decoders given exactly such data store the numbers (running sums) and return its length.", checkC19)
}

func (c *Check) utilFn(name string) *ssa.Function {
	return c.prog.fn("pkg/util", name)
}

func checkC19(c *Check) {
	if !c.load() {
		return
	}
	c.checkRand()
	c.checkDelta()
	for _, n := range []string{"PutVarint", "GetVarint", "PutDeltaVarint", "GetDeltaVarint"} {
		c.checkVarint(n)
	}
}

// ---- random integers ----

// draws: the random sources, each call an independent value.
func drawRange(fn *ssa.Function, args []Val) (lo, hi int64, w int, signed, ok bool) {
	if fn.Pkg == nil {
		return
	}
	switch fn.Pkg.Pkg.Path() {
	case "math/rand", "math/rand/v2":
	default:
		return
	}
	big := int64(1) << 60
	argN := func() (int64, bool) {
		v, ok := argInt(args, len(args)-1)
		if !ok {
			return 0, false
		}
		return v.isConst()
	}
	switch fn.Name() {
	case "Uint32":
		return 0, 1<<32 - 1, 32, false, true
	case "Int31", "Int32":
		return 0, 1<<31 - 1, 32, true, true
	case "Int", "Int63", "Int64":
		return 0, big, 64, true, true
	case "Uint64", "Uint":
		return 0, big, 64, false, true
	case "Intn", "Int63n", "IntN", "Int64N":
		if k, ok := argN(); ok && k > 0 {
			return 0, k - 1, 64, true, true
		}
	case "Uint64N", "UintN":
		if k, ok := argN(); ok && k > 0 {
			return 0, k - 1, 64, false, true
		}
	case "Int31n", "Int32N":
		if k, ok := argN(); ok && k > 0 {
			return 0, k - 1, 32, true, true
		}
	case "Uint32N":
		if k, ok := argN(); ok && k > 0 {
			return 0, k - 1, 32, false, true
		}
	}
	return
}

func (it *Interp) isDraw(a *Atom) bool { return a.kind == AVar && strings.HasPrefix(a.name, "draw") }

// exactSet: the form takes exactly the values lo..hi as the draws vary within
// the path condition.
func (it *Interp) exactSet(st *State, l *Lin) (lo, hi int64, why string) {
	if k, ok := l.isConst(); ok {
		return k, k, ""
	}
	// a single draw, or a draw modulo a constant
	var x, dv *Atom
	for _, t := range l.t {
		switch {
		case it.isDraw(t.a) && t.c == 1 && x == nil:
			x = t.a
		case t.a.kind == ADiv && dv == nil:
			dv = t.a
			if t.c != -t.a.d && t.c != 1 {
				return 0, 0, "not a draw, a draw modulo a constant or a draw divided by a constant"
			}
		default:
			return 0, 0, "depends on the draws in a way that is not an interval: " + l.String()
		}
	}
	src := x
	switch {
	case dv == nil:
	case x == nil: // floor(draw/d)
		if len(dv.idx.t) != 1 || dv.idx.t[0].c != 1 || !it.isDraw(dv.idx.t[0].a) || dv.idx.k != 0 || l.coef(dv) != 1 {
			return 0, 0, "not an interval: " + l.String()
		}
		src = dv.idx.t[0].a
	default:
		if !dv.idx.Eq(x.lin()) || l.coef(dv) != -dv.d {
			return 0, 0, "not an interval: " + l.String()
		}
	}
	a, b, why := it.drawInterval(st, src)
	if why != "" {
		return 0, 0, why
	}
	switch {
	case dv == nil:
		return a + l.k, b + l.k, ""
	case x == nil:
		return floorDiv(a, dv.d) + l.k, floorDiv(b, dv.d) + l.k, ""
	default:
		if floorDiv(a, dv.d) == floorDiv(b, dv.d) {
			q := floorDiv(a, dv.d) * dv.d
			return a - q + l.k, b - q + l.k, ""
		}
		if b-a+1 < dv.d {
			return 0, 0, "a draw of fewer values than the modulus"
		}
		return l.k, l.k + dv.d - 1, ""
	}
}

// drawInterval: the values of a draw that the path condition allows.
func (it *Interp) drawInterval(st *State, a *Atom) (lo, hi int64, why string) {
	lo, hi = a.lo, a.hi
	for _, k := range st.cons.all() {
		d := map[int]bool{}
		k.e.deps(d)
		if !d[a.id] {
			continue
		}
		if len(k.e.t) != 1 || k.e.t[0].a != a || abs(k.e.t[0].c) != 1 {
			return 0, 0, "the path condition restricts the draw in an unmodelled way: " + k.e.String()
		}
		f := k.e.t[0].c
		if f > 0 || k.eq {
			hi = min(hi, -k.e.k*f)
		}
		if f < 0 || k.eq {
			lo = max(lo, k.e.k*-f)
		}
	}
	return lo, hi, ""
}

func byteLen(v int64) int {
	n := 1
	for v > 255 {
		v >>= 8
		n++
	}
	return n
}

func (c *Check) checkRand() {
	f := c.utilFn("RandUint32")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isBasic(f.Signature.Results().At(0).Type(), types.Uint32) {
		c.requireNames(map[string]bool{}, "RandUint32")
		return
	}
	pos := c.prog.pos(f.Pos())
	w := c.world
	for ci := range w.cases {
		if ci > 0 && len(w.cases[ci].cons.all()) > 0 {
			// the generators do not depend on the CPU; one case is enough when
			// they are built before any feature test
		}
		it := w.interp()
		it.contracts = nil
		it.splitIdx = true
		it.unroll = true
		it.entryName = f.Name()
		n := 0
		it.ext = func(it *Interp, fn *ssa.Function, st *State, args []Val) ([]Outcome, bool) {
			lo, hi, w, sg, ok := drawRange(fn, args)
			if !ok {
				return nil, false
			}
			n++
			a := it.cx.Var(fmt.Sprintf("draw%d.%s", n, fn.Name()), lo, hi)
			return []Outcome{{st, mkInt(w, sg, a.lin())}}, true
		}
		outs, fs := it.guarded(f, w.start(ci), nil)
		c.add(fs...)
		type iv struct{ lo, hi int64 }
		var got []iv
		for _, o := range outs {
			if it.cx.unsat(o.st.cons) {
				continue
			}
			c.obl++
			c.count("random_paths", 1)
			v, ok := o.ret.(*IntV)
			if !ok {
				c.fail("undecided", f.RelString(nil), pos, "the result is not tracked")
				continue
			}
			lo, hi, why := it.exactSet(o.st, v.lin)
			if why != "" {
				// at least the class must be right
				c.fail("undecided", f.RelString(nil), pos, "result "+v.lin.String()+": "+why)
				continue
			}
			if ci == 0 {
				c.sample("RandUint32: a path returns exactly the values %d..%d", lo, hi)
			}
			if lo < 0 || hi >= 1<<32 || byteLen(lo) != byteLen(hi) {
				c.fail("content", f.RelString(nil), pos, fmt.Sprintf("a chosen length returns the values %d..%d, which do not all encode to the same number of bytes", lo, hi))
			}
			got = append(got, iv{lo, hi})
		}
		sort.Slice(got, func(i, j int) bool { return got[i].lo < got[j].lo })
		next := int64(0)
		for _, g := range got {
			if g.lo > next {
				break
			}
			next = max(next, g.hi+1)
		}
		c.obl++
		if next != 1<<32 {
			c.fail("content", f.RelString(nil), pos, fmt.Sprintf("the value %d is never returned (paths return %v)", next, got))
		}
	}
}

// guarded runs fn and turns analysis failures into findings.
func (it *Interp) guarded(f *ssa.Function, st *State, args []Val) (outs []Outcome, fs []Finding) {
	defer func() {
		fs = append(fs, it.findings...)
		if x := recover(); x != nil {
			why := fmt.Sprint("analysis failure: ", x)
			if a, ok := x.(abortErr); ok {
				why = a.why
			}
			fs = append(fs, Finding{"undecided", f.RelString(nil), it.prog.pos(f.Pos()), why})
		}
	}()
	return it.Call(f, st, args, nil), nil
}

// ---- differences ----

func (c *Check) checkDelta() {
	f := c.utilFn("Delta")
	if f == nil || f.Signature.Params().Len() != 2 || !isSliceOf(f.Signature.Params().At(0).Type(), types.Uint32) || !isSliceOf(f.Signature.Params().At(1).Type(), types.Uint32) {
		c.requireNames(map[string]bool{}, "Delta")
		return
	}
	c.forCounts(f, func(w *World, n *Lin, it *Interp, st *State) []Finding {
		it.diffFam = true
		in := it.listObj(n)
		out := it.outObj(n, n)
		outs, fs := it.guarded(f, st, []Val{&SliceV{obj: in, off: K(0), len: n, cap: in.n}, &SliceV{obj: out, off: K(0), len: out.n, cap: out.n}})
		live := 0
		for _, o := range outs {
			if it.cx.unsat(o.st.cons) {
				continue
			}
			live++
			c.obl += 2
			m := o.st.get(out)
			first := &Fact{kind: FElem, lo: K(0), hi: K(1), fam: "in", shift: K(0)}
			if !it.le(o.st, n, K(0)) && !it.implied(o.st, out, m, first) {
				fs = append(fs, Finding{"content", f.RelString(nil), c.prog.pos(f.Pos()), "the first output element is not established to be the first input element"})
			}
			rest := &Fact{kind: FElem, lo: K(1), hi: n, fam: "d", shift: K(0)}
			if !it.implied(o.st, out, m, rest) {
				fs = append(fs, Finding{"content", f.RelString(nil), c.prog.pos(f.Pos()), "output elements from the second on are not established to be the differences of neighbours (known: " + m.String() + ")"})
			}
		}
		if live == 0 && len(fs) == 0 {
			fs = append(fs, Finding{"panic", f.RelString(nil), c.prog.pos(f.Pos()), "never returns normally"})
		}
		return fs
	})
}

func (it *Interp) listObj(n *Lin) *Obj {
	o := it.newObj("in", types.Typ[types.Uint32], n)
	o.param = "in"
	o.ro, o.roWhy = true, "the caller's list"
	o.oracle = func(it *Interp, st *State, pos *Lin) Val {
		return mkInt(32, false, it.cx.Word("in", pos).lin())
	}
	return o
}

func (it *Interp) outObj(n, limit *Lin) *Obj {
	o := it.newObj("out", types.Typ[types.Uint32], n.Add(it.cx.Var("extra.out", 0, 1<<30).lin()))
	o.param = "out"
	o.wlimit = limit
	return o
}

// forCounts decides a function of a list: for every count by summary, otherwise
// for every count up to a bound.
func (c *Check) forCounts(f *ssa.Function, run func(w *World, n *Lin, it *Interp, st *State) []Finding) {
	c.forCountsOr(f, nil, run)
}

// forCountsOr: other decides the function in another way when neither does.
func (c *Check) forCountsOr(f *ssa.Function, other func() (bool, string), run func(w *World, n *Lin, it *Interp, st *State) []Finding) {
	w := c.world
	cats := []string{"content", "panic", "termination", "undecided", "frame", "ro-write"}
	one := func(n int64) []Finding {
		it := w.interp()
		it.contracts = nil
		it.entryName = f.Name()
		var l *Lin
		if n < 0 {
			l = it.cx.Var("count", 0, maxCount).lin()
		} else {
			l = K(n)
			it.unroll = true
		}
		return only(run(w, l, it, w.start(0)), cats...)
	}
	fs := one(-1)
	if len(fs) == 0 {
		c.sample("%s: every count", short(f))
		c.count("functions_decided_for_every_count", 1)
		if !c.thorough() {
			return
		}
	}
	max := int64(24)
	if c.thorough() {
		max = 64
	}
	var bad []Finding
	for n := int64(0); n <= max && len(bad) == 0; n++ {
		for _, x := range one(n) {
			x.Msg = fmt.Sprintf("[count=%d] %s", n, x.Msg)
			bad = append(bad, x)
		}
	}
	if len(bad) > 0 {
		if other != nil {
			ok, what := other()
			if ok {
				c.sample("%s: %s", short(f), what)
				return
			}
			if what != "" {
				bad[0].Msg += "; by size classes: " + what
			}
		}
		c.add(bad...)
		return
	}
	if len(fs) == 0 {
		return
	}
	if why := w.beyond(f, max); why != "" {
		for _, x := range fs {
			x.Msg = "not established for every count, and " + why + ": " + x.Msg
			c.add(x)
		}
		return
	}
	c.sample("%s: counts 0..%d (no summary for every count: %s)", short(f), max, fs[0].Msg)
}

// ---- varints ----

const varFam = "v"

func (c *Check) checkVarint(name string) {
	f := c.utilFn(name)
	dec, delta := strings.HasPrefix(name, "Get"), strings.Contains(name, "Delta")
	bytes, words, prev := -1, -1, -1
	if f != nil {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			switch t := f.Signature.Params().At(i).Type(); {
			case isSliceOf(t, types.Uint8):
				bytes = i
			case isSliceOf(t, types.Uint32):
				words = i
			case isBasic(t, types.Uint32):
				prev = i
			}
		}
	}
	if f == nil || bytes < 0 || words < 0 || (prev >= 0) != delta || f.Signature.Results().Len() != 1 || !isBasic(f.Signature.Results().At(0).Type(), types.Int) {
		c.requireNames(map[string]bool{}, name)
		return
	}
	pos := c.prog.pos(f.Pos())
	byClass := func() (bool, string) {
		return c.varintClasses(f, bytes, words, prev, dec)
	}
	c.forCountsOr(f, byClass, func(w *World, n *Lin, it *Interp, st *State) (fs []Finding) {
		cx := it.cx
		cx.szMax[""] = 5
		it.varint = true
		it.ext = varintExt
		it.encFam = "in"
		if delta && !dec {
			it.encFam = "d"
		}
		args := make([]Val, f.Signature.Params().Len())
		total := cx.T(n)
		bad := func(cat, msg string) { fs = append(fs, Finding{cat, f.RelString(nil), pos, msg}) }
		var out *Obj
		if !dec {
			in := it.listObj(n)
			args[words] = &SliceV{obj: in, off: K(0), len: n, cap: n}
			out = it.newObj("out", types.Typ[types.Uint8], total.Add(cx.Var("extra.out", 0, 1<<30).lin()))
			out.param = "out"
			args[bytes] = &SliceV{obj: out, off: K(0), len: out.n, cap: out.n}
			if delta {
				args[prev] = mkInt(32, false, cx.Word("in", K(-1)).lin())
			}
		} else {
			cx.fuse = delta
			in := it.newObj("data", types.Typ[types.Uint8], total)
			in.param = "data"
			in.ro, in.roWhy = true, "the caller's data"
			in.enc = &Fact{kind: FEnc, base: K(0), lo: K(0), hi: n, fam: varFam}
			in.oracle = func(it *Interp, st *State, pos *Lin) Val { return nil }
			args[bytes] = &SliceV{obj: in, off: K(0), len: total, cap: total}
			out = it.outObj(n, n)
			args[words] = &SliceV{obj: out, off: K(0), len: out.n, cap: out.n}
			if delta {
				args[prev] = mkInt(32, false, cx.Word("X", K(-1)).lin())
			}
		}
		outs, ff := it.guarded(f, st, args)
		fs = append(fs, ff...)
		live := 0
		for _, o := range outs {
			if cx.unsat(o.st.cons) {
				continue
			}
			live++
			c.obl += 2
			m := o.st.get(out)
			g := &Fact{kind: FEnc, base: K(0), lo: K(0), hi: n, fam: varFam}
			what := "the numbers' varints one after the other"
			if delta {
				what = "the differences' varints one after the other"
			}
			if dec {
				g = &Fact{kind: FElem, lo: K(0), hi: n, fam: "N", shift: K(0)}
				what = "the encoded numbers"
				if delta {
					g.fam, what = "X", "the running sums of the encoded numbers"
				}
			}
			if !it.implied(o.st, out, m, g) {
				bad("content", "the output is not established to hold "+what+" (known: "+m.String()+")")
			}
			r, ok := o.ret.(*IntV)
			if !ok || !it.eq(o.st, r.lin, total) {
				bad("content", fmt.Sprintf("the result %s is not established to be the number of bytes %s", valStr(o.ret), map[bool]string{true: "read", false: "written"}[dec]))
			}
		}
		if live == 0 && len(fs) == 0 {
			bad("panic", "never returns normally")
		}
		return
	})
}

// varintClasses decides a varint coder by the size classes of the numbers: for
// every vector of classes of up to three numbers, and for longer lists of one
// class, each number is any value of its class, so the positions are known and
// every byte is compared bit by bit.
func (c *Check) varintClasses(f *ssa.Function, bytes, words, prev int, dec bool) (bool, string) {
	if why := c.world.beyondT(f, 512, true, nil); why != "" {
		return false, why
	}
	var vecs [][]int
	for n := 0; n <= 3; n++ {
		var rec func(v []int)
		rec = func(v []int) {
			if len(v) == n {
				vecs = append(vecs, append([]int(nil), v...))
				return
			}
			for s := 1; s <= 5; s++ {
				rec(append(v, s))
			}
		}
		rec(nil)
	}
	for s := 1; s <= 5; s++ {
		for _, n := range []int{4, 5, 6, 7, 8, 9, 17, 33, 70} {
			v := make([]int, n)
			for i := range v {
				v[i] = s
			}
			vecs = append(vecs, v)
		}
	}
	for _, v := range vecs {
		c.obl++
		if why := c.varintVector(f, bytes, words, prev, dec, v); why != "" {
			return false, fmt.Sprintf("numbers of %v bytes: %s", v, why)
		}
	}
	return true, fmt.Sprintf("every value of every size class, for all %d vectors of classes of up to 3 numbers and single classes of up to 70", len(vecs))
}

func (c *Check) varintVector(f *ssa.Function, bytes, words, prev int, dec bool, sizes []int) (why string) {
	it := c.world.interp()
	it.contracts = nil
	it.unroll, it.denseOnly = true, true
	it.entryName = f.Name()
	cx, st := it.cx, c.world.start(0)
	n := int64(len(sizes))
	delta := prev >= 0
	args := make([]Val, f.Signature.Params().Len())
	base := cx.Var("prev", 0, 1<<32-1)
	if delta {
		args[prev] = mkInt(32, false, base.lin())
	}
	// the list, and the bytes of its varints
	var list []*Lin
	var data []Val
	last := base.lin()
	for i, s := range sizes {
		lo, hi := int64(0), int64(1)<<(7*s)-1
		if s > 1 {
			lo = 1 << (7 * (s - 1))
		}
		hi = min(hi, 1<<32-1)
		v := mkInt(32, false, cx.Fresh(fmt.Sprintf("v%d", i), lo, hi).lin())
		e := v.lin
		if delta {
			e = cx.wrapMod(last.Add(v.lin), 32)
		}
		list = append(list, e)
		last = e
		bs := cx.bitsOf(v)
		if bs == nil {
			return "the bits of a number are not tracked"
		}
		for k := 0; k < s; k++ {
			b := make([]Bit, 8)
			for j := 0; j < 7; j++ {
				if 7*k+j < len(bs) {
					b[j] = bs[7*k+j]
				}
			}
			if k < s-1 {
				b[7] = Bit{c: 1}
			}
			data = append(data, cx.fromBits(8, false, b))
		}
	}
	total := int64(len(data))
	var out *Obj
	if dec {
		in := it.newObj("data", types.Typ[types.Uint8], K(total))
		in.param = "data"
		for i, b := range data {
			it.storeElem(st, in, K(int64(i)), b)
		}
		in.ro, in.roWhy = true, "the caller's data"
		args[bytes] = &SliceV{obj: in, off: K(0), len: K(total), cap: K(total)}
		out = it.outObj(K(n), K(n))
		args[words] = &SliceV{obj: out, off: K(0), len: out.n, cap: out.n}
	} else {
		in := it.newObj("in", types.Typ[types.Uint32], K(n))
		in.param = "in"
		for i, e := range list {
			it.storeElem(st, in, K(int64(i)), mkInt(32, false, e))
		}
		in.ro, in.roWhy = true, "the caller's list"
		args[words] = &SliceV{obj: in, off: K(0), len: K(n), cap: K(n)}
		out = it.newObj("out", types.Typ[types.Uint8], K(total).Add(cx.Var("extra.out", 0, 1<<30).lin()))
		out.param = "out"
		args[bytes] = &SliceV{obj: out, off: K(0), len: out.n, cap: out.n}
	}
	outs, fs := it.guarded(f, st, args)
	for _, x := range fs {
		return x.Msg
	}
	live := 0
	for _, o := range outs {
		if cx.unsat(o.st.cons) {
			continue
		}
		live++
		m := o.st.get(out)
		want := data
		if dec {
			want = nil
			for _, e := range list {
				want = append(want, mkInt(32, false, e))
			}
		}
		for i, w := range want {
			g, ok := m.dense[int64(i)].(*IntV)
			if !ok || !it.sameInt(o.st, g, w.(*IntV)) {
				return fmt.Sprintf("output element %d is %s instead of %s", i, valStr(m.dense[int64(i)]), valStr(w))
			}
		}
		r, ok := o.ret.(*IntV)
		if !ok || !it.eq(o.st, r.lin, K(total)) {
			return fmt.Sprintf("the result is %s instead of %d", valStr(o.ret), total)
		}
	}
	if live == 0 {
		return "never returns normally"
	}
	return ""
}

func (it *Interp) sameInt(st *State, a, b *IntV) bool {
	if it.eq(st, a.lin, b.lin) {
		return true
	}
	bs := it.cx.bitsOf(b)
	return bs != nil && a.w == b.w && it.sameBits(st, a, bs)
}

// varintExt: contracts of encoding/binary.
func varintExt(it *Interp, fn *ssa.Function, st *State, args []Val) ([]Outcome, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != "encoding/binary" || len(args) == 0 {
		return nil, false
	}
	c := it.cx
	buf, ok := args[0].(*SliceV)
	fresh := func() *IntV { return mkInt(64, true, c.Fresh("uvarint", 0, 10).lin()) }
	switch fn.Name() {
	case "PutUvarint":
		x, ok2 := argInt(args, 1)
		if !ok || !ok2 || buf.obj == nil {
			it.report(st, "undecided", "PutUvarint on an unknown buffer or value")
			return []Outcome{{st, fresh()}}, true
		}
		e, ok := it.famIndex(st, x)
		if !ok {
			it.report(st, "content", "the number written is not established to be an element (or difference) of the list: "+x.lin.String())
			it.kill(st, buf.obj, buf.off, buf.off.Add(buf.len))
			return []Outcome{{st, fresh()}}, true
		}
		s := c.S(e)
		it.require(st, "panic", "PutUvarint may run out of buffer", s.Sub(buf.len))
		end := buf.off.Add(s)
		it.checkWrite(st, buf.obj, buf.off, end, "PutUvarint")
		it.kill(st, buf.obj, buf.off, end)
		it.addFact(st, buf.obj, &Fact{kind: FEnc, base: buf.off.Sub(c.T(e)), lo: e, hi: e.AddK(1), fam: varFam})
		return []Outcome{{st, mkInt(64, true, s)}}, true
	case "Uvarint":
		num := mkInt(64, false, c.Fresh("num", 0, 1<<60).lin())
		if !ok || buf.obj == nil || buf.obj.enc == nil {
			it.report(st, "undecided", "Uvarint on unknown data")
			return []Outcome{{st, TupleV{num, fresh()}}}, true
		}
		e, ok := c.asT(buf.off.Sub(buf.obj.enc.base))
		if !ok || !it.le(st, K(0), e) || !it.lt(st, e, buf.obj.enc.hi) || !it.le(st, c.S(e), buf.len) {
			it.report(st, "content", "Uvarint is not established to read at the start of an encoded number (position "+buf.off.String()+")")
			return []Outcome{{st, TupleV{num, fresh()}}}, true
		}
		return []Outcome{{st, TupleV{mkInt(64, false, c.Word("N", e).lin()), mkInt(64, true, c.S(e))}}}, true
	}
	return nil, false
}

var _ = token.EQL
