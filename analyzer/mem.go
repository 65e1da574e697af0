package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Abstract memory: objects holding flat sequences of elements, and facts about
// element ranges.
// ---------------------------------------------------------------------------

type Obj struct {
	id     int
	name   string
	elem   types.Type // type of a flat element (scalar or reference)
	esize  int64      // bytes per flat element (integers only; 0 otherwise)
	n      *Lin       // number of flat elements
	ro     bool       // writing is a violation
	roWhy  string
	wlimit *Lin // elements at or past this index must not be written
	alloc  bool // allocated during the analysed call
	param  string
	global string
	ext    bool // memory outside the repository (opaque)
	oracle func(it *Interp, st *State, pos *Lin) Val
	enc    *Fact  // byte object: region holding encoded numbers
	fields []*Obj // struct object: one child per field
	elems  []*Obj // array of composite objects
	typ    types.Type
}

type FactKind uint8

const (
	FZero FactKind = iota // elements lo..hi-1 are zero
	FPt                   // element lo holds val (hi = lo+1)
	FElem                 // element i in lo..hi-1 holds word fam(i+shift)
	FEnc                  // numbers lo..hi-1 are encoded at base+T(lo)..base+T(hi)
	FCtrl                 // element base+q for q in lo..hi-1 is the control byte of group q
)

type Fact struct {
	kind   FactKind
	lo, hi *Lin
	base   *Lin
	fam    string
	shift  *Lin
	val    Val
}

func (f *Fact) String() string {
	switch f.kind {
	case FZero:
		return fmt.Sprintf("zero[%s,%s)", f.lo, f.hi)
	case FPt:
		return fmt.Sprintf("[%s]=%s", f.lo, valStr(f.val))
	case FElem:
		return fmt.Sprintf("[%s,%s)=%s(i+%s)", f.lo, f.hi, f.fam, f.shift)
	case FEnc:
		return fmt.Sprintf("enc %s[%s..%s) at %s+T", f.fam, f.lo, f.hi, f.base)
	case FCtrl:
		return fmt.Sprintf("ctrl[%s..%s) at %s+q", f.lo, f.hi, f.base)
	}
	return "?"
}

// span is the element range a fact covers.
func (f *Fact) span(c *Ctx) (*Lin, *Lin) {
	switch f.kind {
	case FEnc:
		return f.base.Add(c.T(f.lo)), f.base.Add(c.T(f.hi))
	case FCtrl:
		return f.base.Add(f.lo), f.base.Add(f.hi)
	}
	return f.lo, f.hi
}

type OMem struct {
	dense map[int64]Val
	facts []*Fact
}

type State struct {
	cons  *Cons
	mem   map[*Obj]*OMem
	trail []string
	mode  int       // C21: the mode reported before the call
	asm   *Lin      // lower bound of the assembly routines run on this path
	heap  []heapRec // C22: heap allocations made on this path
	work  *Lin      // C23: upper bound of the elementary steps of this path
	heavy string    // C23: why there is no such bound
}

func (st *State) clone() *State {
	n := &State{cons: st.cons, mem: make(map[*Obj]*OMem, len(st.mem)), trail: st.trail, mode: st.mode, asm: st.asm, heap: st.heap, work: st.work, heavy: st.heavy}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	return n
}

func (st *State) get(o *Obj) *OMem {
	if m, ok := st.mem[o]; ok {
		return m
	}
	return &OMem{}
}

// edit returns a private copy of the object's memory for modification.
func (st *State) edit(o *Obj) *OMem {
	m := st.get(o)
	n := &OMem{dense: make(map[int64]Val, len(m.dense)+1), facts: append([]*Fact(nil), m.facts...)}
	for k, v := range m.dense {
		n.dense[k] = v
	}
	st.mem[o] = n
	return n
}

func (m *OMem) String() string {
	var p []string
	var ks []int64
	for k := range m.dense {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for i, k := range ks {
		if i > 12 {
			p = append(p, "...")
			break
		}
		p = append(p, fmt.Sprintf("%d:%s", k, valStr(m.dense[k])))
	}
	for _, f := range m.facts {
		p = append(p, f.String())
	}
	return strings.Join(p, "; ")
}

// kill removes what is known about elements [a,b).
func (it *Interp) kill(st *State, o *Obj, a, b *Lin) {
	m := st.get(o)
	if len(m.dense) == 0 && len(m.facts) == 0 {
		return
	}
	c := it.cx
	var nd map[int64]Val
	ak, aok := a.isConst()
	bk, bok := b.isConst()
	if aok && bok && bk-ak <= 64 {
		for i := ak; i < bk; i++ {
			if _, ok := m.dense[i]; ok {
				if nd == nil {
					nd = make(map[int64]Val, len(m.dense))
					for k, v := range m.dense {
						nd[k] = v
					}
				}
				delete(nd, i)
			}
		}
	} else if len(m.dense) > 0 {
		// keep cells provably outside
		var ks []int64
		for k := range m.dense {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		// cells below a: find the largest k with k+1<=a by scanning down
		loKeep, hiKeep := int64(-1)<<62, int64(1)<<62
		for i := len(ks) - 1; i >= 0; i-- {
			if it.le(st, K(ks[i]+1), a) {
				loKeep = ks[i]
				break
			}
		}
		for i := 0; i < len(ks); i++ {
			if ks[i] > loKeep && it.le(st, b, K(ks[i])) {
				hiKeep = ks[i]
				break
			}
		}
		drop := false
		for _, k := range ks {
			if k > loKeep && k < hiKeep {
				drop = true
			}
		}
		if drop {
			nd = map[int64]Val{}
			for k, v := range m.dense {
				if k <= loKeep || k >= hiKeep {
					nd[k] = v
				}
			}
		}
	}
	var nf []*Fact
	changed := false
	for _, f := range m.facts {
		lo, hi := f.span(c)
		if it.le(st, hi, a) || it.le(st, b, lo) {
			nf = append(nf, f)
			continue
		}
		changed = true
		if f.kind == FPt {
			continue
		}
		// left part
		if it.le(st, lo, a) && it.le(st, a, hi) {
			if g := it.cut(st, f, nil, a); g != nil {
				nf = append(nf, g)
			}
		}
		if it.le(st, b, hi) && it.le(st, lo, b) {
			if g := it.cut(st, f, b, nil); g != nil {
				nf = append(nf, g)
			}
		}
	}
	if !changed && nd == nil {
		return
	}
	if nd == nil {
		nd = m.dense
	}
	if !changed {
		nf = m.facts
	}
	st.mem[o] = &OMem{dense: nd, facts: nf}
}

// cut restricts a range fact to elements >= from or < to.
func (it *Interp) cut(st *State, f *Fact, from, to *Lin) *Fact {
	g := *f
	conv := func(p *Lin) (*Lin, bool) {
		switch f.kind {
		case FZero, FElem:
			return p, true
		case FCtrl:
			return p.Sub(f.base), true
		case FEnc:
			if p == nil {
				return nil, false
			}
			e, ok := it.cx.asT(p.Sub(f.base))
			return e, ok
		}
		return nil, false
	}
	if from != nil {
		e, ok := conv(from)
		if !ok {
			return nil
		}
		g.lo = e
	}
	if to != nil {
		e, ok := conv(to)
		if !ok {
			return nil
		}
		g.hi = e
	}
	if it.eq(st, g.lo, g.hi) {
		return nil
	}
	return &g
}

func (it *Interp) le(st *State, a, b *Lin) bool {
	d := a.Sub(b)
	if k, ok := d.isConst(); ok {
		return k <= 0
	}
	if _, hi := it.cx.rangeOf(d); hi <= 0 {
		return true
	}
	return it.cx.entails(st.cons, d)
}

func (it *Interp) lt(st *State, a, b *Lin) bool { return it.le(st, a.AddK(1), b) }

func (it *Interp) eq(st *State, a, b *Lin) bool {
	d := a.Sub(b)
	if k, ok := d.isConst(); ok {
		return k == 0
	}
	lo, hi := it.cx.rangeOf(d)
	if lo > 0 || hi < 0 {
		return false
	}
	return it.cx.entEq(st.cons, a, b)
}

// addFact records a fact about a region just written (already killed).
func (it *Interp) addFact(st *State, o *Obj, f *Fact) {
	c := it.cx
	if f.kind != FPt && f.lo.Eq(f.hi) {
		return
	}
	m := st.get(o)
	nf := make([]*Fact, 0, len(m.facts)+1)
	cur := *f
	nf = append(nf, m.facts...)
	for again := true; again; {
		again = false
		for i, g := range nf {
			if g.kind != cur.kind || g.kind == FPt {
				continue
			}
			ok := false
			switch cur.kind {
			case FZero:
				ok = true
			case FElem:
				ok = g.fam == cur.fam && it.eq(st, g.shift, cur.shift)
			case FEnc:
				ok = g.fam == cur.fam && it.eq(st, g.base, cur.base)
			case FCtrl:
				ok = it.eq(st, g.base, cur.base)
			}
			if !ok {
				continue
			}
			if it.eq(st, g.hi, cur.lo) {
				cur.lo = g.lo
			} else if it.eq(st, g.lo, cur.hi) {
				cur.hi = g.hi
			} else {
				continue
			}
			nf = append(append([]*Fact(nil), nf[:i]...), nf[i+1:]...)
			again = true
			break
		}
	}
	_ = c
	nf = append(nf, &cur)
	st.mem[o] = &OMem{dense: m.dense, facts: nf}
}

// setDense stores a value at a constant position.
func (st *State) setDense(o *Obj, k int64, v Val) {
	m := st.get(o)
	nd := make(map[int64]Val, len(m.dense)+1)
	for a, b := range m.dense {
		nd[a] = b
	}
	nd[k] = v
	st.mem[o] = &OMem{dense: nd, facts: m.facts}
}

// checkWrite reports writes that the property forbids.
func (it *Interp) checkWrite(st *State, o *Obj, a, b *Lin, what string) {
	if o.ro {
		it.report(st, "ro-write", fmt.Sprintf("%s writes %s (%s)", what, o.name, o.roWhy))
	}
	if o.global != "" && !it.inInit {
		it.report(st, "global-write", fmt.Sprintf("%s writes package-level memory %s", what, o.global))
	}
	if o.wlimit != nil && !it.le(st, b, o.wlimit) {
		it.report(st, "frame", fmt.Sprintf("%s may write %s[%s..%s) past element %s", what, o.name, a, b, o.wlimit))
	}
}

// storeElem writes one flat element.
func (it *Interp) storeElem(st *State, o *Obj, pos *Lin, v Val) {
	if o.ext {
		it.report(st, "global-write", "writes external package memory "+o.name)
		return
	}
	it.checkWrite(st, o, pos, pos.AddK(1), "store")
	it.kill(st, o, pos, pos.AddK(1))
	if k, ok := pos.isConst(); ok {
		if iv, isInt := v.(*IntV); !isInt || o.esize != 4 || !it.famElem(iv) || it.denseOnly {
			if isInt && o.esize == 1 && !it.denseOnly {
				if q, ok := it.ctrlGroup(iv); ok {
					it.addFact(st, o, &Fact{kind: FCtrl, base: pos.Sub(q), lo: q, hi: q.AddK(1)})
					return
				}
			}
			if it.inInit && it.forks == 0 {
				// initialisation: update in place (single owner)
				m, have := st.mem[o]
				if !have {
					m = &OMem{dense: map[int64]Val{}}
					st.mem[o] = m
				}
				if m.dense == nil {
					m.dense = map[int64]Val{}
				}
				m.dense[k] = v
				return
			}
			st.setDense(o, k, v)
			return
		}
	}
	if iv, ok := v.(*IntV); ok && !it.denseOnly {
		if o.esize == 4 && it.famElem(iv) {
			fam, idx, _ := it.famOf(iv)
			it.addFact(st, o, &Fact{kind: FElem, lo: pos, hi: pos.AddK(1), fam: fam, shift: idx.Sub(pos)})
			return
		}
		if o.esize == 1 {
			if q, ok := it.ctrlGroup(iv); ok {
				it.addFact(st, o, &Fact{kind: FCtrl, base: pos.Sub(q), lo: q, hi: q.AddK(1)})
				return
			}
		}
	}
	it.addFact(st, o, &Fact{kind: FPt, lo: pos, hi: pos.AddK(1), val: v})
}

// famOf: v is an element of a word family (or, where asked for, the difference
// of two neighbours of the input).
func (it *Interp) famOf(v *IntV) (fam string, idx *Lin, ok bool) {
	if it.famWord(v) {
		a := v.lin.t[0].a
		return a.name, a.idx, true
	}
	if it.diffFam {
		enc := it.encFam
		it.encFam = "d"
		e, ok := it.famIndex(nil, v)
		it.encFam = enc
		if ok {
			return "d", e, true
		}
	}
	return "", nil, false
}

func (it *Interp) famElem(v *IntV) bool { _, _, ok := it.famOf(v); return ok }

func (it *Interp) famWord(v *IntV) bool {
	return len(v.lin.t) == 1 && v.lin.k == 0 && v.lin.t[0].c == 1 && v.lin.t[0].a.kind == AWord
}

// ctrlGroup: v is the control byte of group q (codes of s(4q)..s(4q+3)).
func (it *Interp) ctrlGroup(v *IntV) (*Lin, bool) {
	if v.w != 8 {
		return nil, false
	}
	bs := it.cx.bitsOf(v)
	if bs == nil {
		return nil, false
	}
	e, ok := it.codeRun(bs, 4)
	if !ok {
		return nil, false
	}
	q := it.cx.Div(e, 4)
	if !q.Scale(4).Eq(e) {
		return nil, false
	}
	return q, true
}

// codeRun: bits are exactly the codes of s(e),...,s(e+n-1).
func (it *Interp) codeRun(bs []Bit, n int) (*Lin, bool) {
	if len(bs) < 2*n {
		return nil, false
	}
	var e *Lin
	for i := 0; i < n; i++ {
		a := bs[2*i].a
		if a == nil || a.kind != ASz || bs[2*i+1].a != a || bs[2*i].i != 0 || bs[2*i+1].i != 1 {
			return nil, false
		}
		if i == 0 {
			e = a.idx
		} else if !a.idx.Eq(e.AddK(int64(i))) {
			return nil, false
		}
	}
	for _, b := range bs[2*n:] {
		if b != (Bit{}) {
			return nil, false
		}
	}
	return e, true
}

// loadElem reads one flat element of type t.
func (it *Interp) loadElem(st *State, o *Obj, pos *Lin, t types.Type) Val {
	c := it.cx
	if o.oracle != nil {
		if v := o.oracle(it, st, pos); v != nil {
			return v
		}
		return it.fresh(t, "unk")
	}
	m := st.get(o)
	if k, ok := pos.isConst(); ok {
		if v, ok := m.dense[k]; ok {
			return v
		}
	} else if len(m.dense) > 0 {
		if v := it.tableLoad(st, o, m, pos, t); v != nil {
			return v
		}
		if len(m.dense) <= 32 {
			for k, v := range m.dense {
				if it.eq(st, pos, K(k)) {
					return v
				}
			}
		}
	}
	for i := len(m.facts) - 1; i >= 0; i-- {
		f := m.facts[i]
		switch f.kind {
		case FPt:
			if it.eq(st, f.lo, pos) {
				return f.val
			}
		case FElem:
			if it.le(st, f.lo, pos) && it.lt(st, pos, f.hi) {
				w, s, _ := intType(t)
				return mkInt(w, s, c.Word(f.fam, pos.Add(f.shift)).lin())
			}
		case FZero:
			if it.le(st, f.lo, pos) && it.lt(st, pos, f.hi) {
				return it.zero(t)
			}
		case FCtrl:
			lo, hi := f.span(c)
			if it.le(st, lo, pos) && it.lt(st, pos, hi) {
				return it.ctrlByte(pos.Sub(f.base))
			}
		case FEnc:
			if v := it.encByte(st, f.base, f.lo, f.hi, f.fam, pos); v != nil {
				return v
			}
		}
	}
	return it.fresh(t, "unk")
}

// ctrlByte: the value of control byte q.
func (it *Interp) ctrlByte(q *Lin) *IntV {
	c := it.cx
	bs := make([]Bit, 8)
	for k := 0; k < 4; k++ {
		idx := q.Scale(4).AddK(int64(k))
		s := c.S(idx)
		if v, ok := s.isConst(); ok {
			bs[2*k] = Bit{c: uint8((v - 1) & 1)}
			bs[2*k+1] = Bit{c: uint8((v - 1) >> 1 & 1)}
			continue
		}
		a := c.SAtom(idx)
		bs[2*k] = Bit{a: a, i: 0}
		bs[2*k+1] = Bit{a: a, i: 1}
	}
	return c.fromBits(8, false, bs)
}

// encByte: byte at pos when numbers lo..hi-1 of family fam are encoded at base.
func (it *Interp) encByte(st *State, base, lo, hi *Lin, fam string, pos *Lin) Val {
	c := it.cx
	if it.varint {
		return nil
	}
	for k := int64(0); k < 4; k++ {
		j, ok := c.asT(pos.Sub(base).AddK(-k))
		if !ok {
			continue
		}
		if !(it.le(st, lo, j) && it.lt(st, j, hi) && it.le(st, K(k+1), c.S(j))) {
			continue
		}
		w := it.famValue(fam, j)
		bs := it.cx.bitsOf(mkInt(32, false, w))
		if bs == nil {
			return nil
		}
		return c.fromBits(8, false, append([]Bit(nil), bs[8*k:8*k+8]...))
	}
	return nil
}

// famValue: the value of number j of an encoded family.
func (it *Interp) famValue(fam string, j *Lin) *Lin {
	if fam == "d" {
		return it.cx.wrapMod(it.cx.Word("in", j).lin().Sub(it.cx.Word("in", j.AddK(-1)).lin()), 32)
	}
	return it.cx.Word(fam, j).lin()
}

// tableLoad reads a table at a position given by size codes or a small range.
func (it *Interp) tableLoad(st *State, o *Obj, m *OMem, pos *Lin, t types.Type) Val {
	c := it.cx
	w, signed, isInt := intType(t)
	if len(m.facts) > 0 {
		return nil
	}
	// enumerate size atoms
	type av struct {
		a      *Atom
		lo, hi int64
	}
	var as []av
	total := int64(1)
	for _, x := range pos.t {
		lo, hi := c.aRange(x.a)
		if !c.bounded(hi - lo) {
			return nil
		}
		// tighten by the path condition when small
		total *= hi - lo + 1
		if total > 1<<16 {
			return nil
		}
		as = append(as, av{x.a, lo, hi})
	}
	vals := make([]Val, 0, total)
	cur := make([]int64, len(as))
	for i := range as {
		cur[i] = as[i].lo
	}
	var pts [][]int64
	for {
		p := pos.k
		for i, x := range pos.t {
			p += x.c * cur[i]
		}
		v, ok := m.dense[p]
		if !ok {
			if p >= 0 && len(m.facts) == 0 {
				// outside the table: excluded by the bounds check on other paths
				v = nil
			} else {
				v = nil
			}
		}
		if v != nil {
			vals = append(vals, v)
			pts = append(pts, append([]int64(nil), cur...))
		}
		i := 0
		for ; i < len(cur); i++ {
			cur[i]++
			if cur[i] <= as[i].hi {
				break
			}
			cur[i] = as[i].lo
		}
		if i == len(cur) {
			break
		}
	}
	if len(vals) == 0 {
		return nil
	}
	if !isInt {
		for _, v := range vals[1:] {
			if !sameVal(v, vals[0]) {
				return nil
			}
		}
		return vals[0]
	}
	nums := make([]int64, len(vals))
	lo, hi := int64(1)<<62, int64(-1)<<62
	for i, v := range vals {
		iv, ok := v.(*IntV)
		if !ok {
			return nil
		}
		k, ok := iv.isConst()
		if !ok {
			return nil
		}
		nums[i] = k
		if k < lo {
			lo = k
		}
		if k > hi {
			hi = k
		}
	}
	if lo == hi {
		return mkInt(w, signed, K(lo))
	}
	// affine fit: coefficient of each atom from any two rows differing only there
	coef := make([]int64, len(as))
	for i := range as {
		found := false
	scan:
		for a := range pts {
			for b := range pts {
				if pts[b][i] != pts[a][i]+1 {
					continue
				}
				same := true
				for j := range as {
					if j != i && pts[a][j] != pts[b][j] {
						same = false
						break
					}
				}
				if same {
					coef[i] = nums[b] - nums[a]
					found = true
					break scan
				}
			}
		}
		if !found && as[i].hi > as[i].lo {
			coef[i] = 0
		}
	}
	k0 := nums[0]
	for i := range as {
		k0 -= coef[i] * pts[0][i]
	}
	fits := true
	for r := range pts {
		s := k0
		for i := range as {
			s += coef[i] * pts[r][i]
		}
		if s != nums[r] {
			fits = false
			break
		}
	}
	if fits {
		l := K(k0)
		for i := range as {
			l = l.Add(as[i].a.lin().Scale(coef[i]))
		}
		return mkInt(w, signed, l)
	}
	return mkInt(w, signed, c.Opq(fmt.Sprintf("tbl%d[%s]", o.id, pos.Key()), []*Lin{pos}, lo, hi).lin())
}

func (c *Ctx) bounded(n int64) bool { return n >= 0 && n <= 1<<16 }

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *IntV:
		y, ok := b.(*IntV)
		return ok && x.lin.Eq(y.lin)
	case *BoolV:
		y, ok := b.(*BoolV)
		return ok && x.known == y.known && x.val == y.val && x.op == y.op && (x.lin == nil) == (y.lin == nil) && (x.lin == nil || x.lin.Eq(y.lin))
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.obj == y.obj && (x.obj == nil || (x.off.Eq(y.off) && x.len.Eq(y.len) && x.cap.Eq(y.cap)))
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && x.nil_ == y.nil_ && (x.obj == nil || x.pos.Eq(y.pos))
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.fv) != len(y.fv) {
			return false
		}
		for i := range x.fv {
			if !sameVal(x.fv[i], y.fv[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		return ok && sameVals(x, y)
	case ArrayV:
		y, ok := b.(ArrayV)
		return ok && sameVals(x, y)
	case StructV:
		y, ok := b.(StructV)
		return ok && sameVals(x, y)
	case *StringV:
		y, ok := b.(*StringV)
		return ok && x.known && y.known && x.s == y.s
	case NilV:
		_, ok := b.(NilV)
		return ok
	case nil:
		return b == nil
	}
	return false
}

func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}
