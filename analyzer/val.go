package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract values
// ---------------------------------------------------------------------------

type Val interface{}

// Bit is one bit of provenance: a constant, or bit i of an atom. For a size
// atom s the bits are those of the two-bit code s-1.
type Bit struct {
	a *Atom
	i int16
	c uint8
}

// IntV is an integer of w bits: its exact value as a linear form and, when
// known, the provenance of each of its bits.
type IntV struct {
	w      int
	signed bool
	lin    *Lin
	bits   []Bit
}

type BoolV struct {
	known bool
	val   bool
	op    token.Token // LEQ, EQL, NEQ, GTR comparing lin with 0 when !known
	lin   *Lin
}

type SliceV struct {
	obj           *Obj // nil: nil slice
	off, len, cap *Lin
}

type PtrV struct {
	obj  *Obj
	pos  *Lin // flat element index inside obj
	nil_ bool
}

type FuncV struct {
	fn   *ssa.Function
	fv   []Val
	nil_ bool
}

type TupleV []Val
type StructV []Val
type ArrayV []Val

type OpaqueV struct{ why string }

type StringV struct {
	known bool
	s     string
}

type NilV struct{}

type IfaceV struct {
	v Val
	t types.Type
}

func (v *IntV) String() string {
	s := v.lin.String()
	return fmt.Sprintf("i%d(%s)", v.w, s)
}

func valStr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *IntV:
		return x.String()
	case *BoolV:
		if x.known {
			return fmt.Sprint(x.val)
		}
		return fmt.Sprintf("(%s %s 0)", x.lin, x.op)
	case *SliceV:
		if x.obj == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("%s[%s:+%s]", x.obj.name, x.off, x.len)
	case *PtrV:
		if x.nil_ {
			return "nil-ptr"
		}
		return fmt.Sprintf("&%s[%s]", x.obj.name, x.pos)
	case *FuncV:
		if x.nil_ {
			return "nil-func"
		}
		return x.fn.String()
	case ArrayV:
		var p []string
		for _, e := range x {
			p = append(p, valStr(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case StructV:
		var p []string
		for _, e := range x {
			p = append(p, valStr(e))
		}
		return "{" + strings.Join(p, " ") + "}"
	case TupleV:
		var p []string
		for _, e := range x {
			p = append(p, valStr(e))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func boolConst(b bool) *BoolV { return &BoolV{known: true, val: b} }

func (b *BoolV) not() *BoolV {
	if b.known {
		return boolConst(!b.val)
	}
	n := *b
	switch b.op {
	case token.LEQ:
		n.op = token.GTR
	case token.GTR:
		n.op = token.LEQ
	case token.EQL:
		n.op = token.NEQ
	case token.NEQ:
		n.op = token.EQL
	}
	return &n
}

func intType(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int:
		return intBits, true, true
	case types.Uint, types.Uintptr:
		return intBits, false, true
	case types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Uint64:
		return 64, false, true
	case types.Int32:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// typeRange gives the representable range, clipped to what fits comfortably in
// the analysis (64-bit ranges are clipped to +-2^61).
func typeRange(w int, signed bool) (int64, int64) {
	if w >= 62 {
		if signed {
			return -satMax, satMax
		}
		return 0, satMax
	}
	if signed {
		return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1
	}
	return 0, int64(1)<<uint(w) - 1
}

func mkInt(w int, signed bool, l *Lin) *IntV { return &IntV{w: w, signed: signed, lin: l} }

func (v *IntV) isConst() (int64, bool) { return v.lin.isConst() }

// rangeOf: interval of a linear form using the partition's ranges.
func (c *Ctx) rangeOf(l *Lin) (int64, int64) {
	lo, hi := l.k, l.k
	for _, t := range l.t {
		alo, ahi := c.aRange(t.a)
		a, b := satMul(alo, t.c), satMul(ahi, t.c)
		if t.c < 0 {
			a, b = b, a
		}
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	return lo, hi
}

func (c *Ctx) atomBitLen(a *Atom) int {
	if a.kind == ASz {
		return 2
	}
	lo, hi := c.aRange(a)
	if lo < 0 {
		return 64
	}
	return bits.Len64(uint64(hi))
}

func pow2(v int64) (int, bool) {
	if v > 0 && v&(v-1) == 0 {
		return bits.TrailingZeros64(uint64(v)), true
	}
	return 0, false
}

func constBits(w int, k int64) []Bit {
	b := make([]Bit, w)
	for i := range b {
		b[i].c = uint8(uint64(k) >> uint(i) & 1)
	}
	return b
}

// bitsOf decomposes a value into bit provenance; nil if it cannot.
func (c *Ctx) bitsOf(v *IntV) []Bit {
	if v.bits != nil {
		return v.bits
	}
	if k, ok := v.lin.isConst(); ok {
		v.bits = constBits(v.w, k)
		return v.bits
	}
	k := v.lin.k
	out := make([]Bit, v.w)
	occ := make([]bool, v.w)
	put := func(p int, a *Atom, from, n int) bool {
		for i := 0; i < n; i++ {
			if p+i >= v.w || occ[p+i] {
				return false
			}
			occ[p+i] = true
			out[p+i] = Bit{a: a, i: int16(from + i)}
		}
		return true
	}
	for _, t := range v.lin.t {
		p, ok := pow2(t.c)
		if !ok {
			return nil
		}
		a := t.a
		switch {
		case a.kind == ASz:
			if c.sMax() > 4 {
				return nil
			}
			k += t.c
			if !put(p, a, 0, 2) {
				return nil
			}
		case a.kind == ADiv && len(a.idx.t) == 1 && a.idx.t[0].c == 1 && a.idx.k == 0:
			q, ok := pow2(a.d)
			b := a.idx.t[0].a
			if !ok || b.lo < 0 || b.kind == ASz {
				return nil
			}
			n := c.atomBitLen(b) - q
			if n > 0 && !put(p, b, q, n) {
				return nil
			}
		default:
			if a.lo < 0 {
				return nil
			}
			if !put(p, a, 0, c.atomBitLen(a)) {
				return nil
			}
		}
	}
	if k < 0 {
		return nil
	}
	for i := 0; i < v.w; i++ {
		if k>>uint(i)&1 == 1 {
			if occ[i] {
				return nil
			}
			out[i] = Bit{c: 1}
		}
	}
	if v.w < 63 && k>>uint(v.w) != 0 {
		return nil
	}
	if v.signed && out[v.w-1] != (Bit{}) {
		return nil
	}
	v.bits = out
	return out
}

// normBits rewrites bits known constant by the partition.
func (c *Ctx) normBit(b Bit) Bit {
	if b.a == nil {
		return b
	}
	if b.a.kind != ASz && b.a.kind != ADiv {
		lo, hi := c.aRange(b.a)
		if lo >= 0 {
			if lo == hi {
				return Bit{c: uint8(uint64(lo) >> uint(b.i) & 1)}
			}
			if int(b.i) >= bits.Len64(uint64(hi)) {
				return Bit{}
			}
		}
	}
	return b
}

// fromBits builds the value of given bits.
func (c *Ctx) fromBits(w int, signed bool, bs []Bit) *IntV {
	for i := range bs {
		bs[i] = c.normBit(bs[i])
	}
	l := K(0)
	top := w
	if signed && bs[w-1] != (Bit{}) {
		if bs[w-1].a == nil {
			// negative constant top bit
			k := int64(0)
			allc := true
			for i, b := range bs {
				if b.a != nil {
					allc = false
					break
				}
				k |= int64(b.c) << uint(i)
			}
			if allc {
				if w < 64 {
					k = k << uint(64-w) >> uint(64-w)
				}
				return &IntV{w: w, signed: signed, lin: K(k), bits: bs}
			}
		}
		lo, hi := typeRange(w, signed)
		return &IntV{w: w, signed: signed, lin: c.Opq("bits:"+bitsKey(bs), nil, lo, hi).lin(), bits: bs}
	}
	ok := true
	for i := 0; i < top; {
		b := bs[i]
		if b.a == nil {
			if b.c == 1 {
				if i >= 61 {
					ok = false
					break
				}
				l = l.AddK(int64(1) << uint(i))
			}
			i++
			continue
		}
		j := i
		for j+1 < top && bs[j+1].a == b.a && bs[j+1].i == bs[j].i+1 {
			j++
		}
		n := j - i + 1
		from := int(b.i)
		if i+n > 61 {
			ok = false
			break
		}
		if b.a.kind == ASz {
			if from == 0 && n == 2 {
				l = l.Add(b.a.lin().AddK(-1).Scale(int64(1) << uint(i)))
			} else {
				o := c.Opq(fmt.Sprintf("codebit%d:%d", from, b.a.id), []*Lin{b.a.lin()}, 0, int64(1)<<uint(n)-1)
				l = l.Add(o.lin().Scale(int64(1) << uint(i)))
			}
		} else {
			al := b.a.lin()
			tot := c.atomBitLen(b.a)
			v := c.divW(al, int64(1)<<uint(from))
			if from+n < tot {
				v = v.Sub(c.divW(al, int64(1)<<uint(from+n)).Scale(int64(1) << uint(n)))
			}
			l = l.Add(v.Scale(int64(1) << uint(i)))
		}
		i = j + 1
	}
	if !ok {
		lo, hi := typeRange(w, signed)
		l = c.Opq("bits:"+bitsKey(bs), nil, lo, hi).lin()
	}
	return &IntV{w: w, signed: signed, lin: l, bits: bs}
}

// divW: floor division of an atom by a power of two, constant when the
// partition decides it.
func (c *Ctx) divW(l *Lin, d int64) *Lin {
	if d == 1 {
		return l
	}
	lo, hi := c.rangeOf(l)
	if floorDiv(lo, d) == floorDiv(hi, d) {
		return K(floorDiv(lo, d))
	}
	return c.Div(l, d)
}

func bitsKey(bs []Bit) string {
	var sb strings.Builder
	for _, b := range bs {
		if b.a == nil {
			fmt.Fprintf(&sb, "%d.", b.c)
		} else {
			fmt.Fprintf(&sb, "%d:%d.", b.a.id, b.i)
		}
	}
	return sb.String()
}

// bitsSimple reports whether bit provenance is the better representation: a
// combination of codes, words or constants.
func (c *Ctx) bitsSimple(v *IntV) bool {
	if v.bits != nil {
		return true
	}
	if _, ok := v.lin.isConst(); ok {
		return true
	}
	for _, t := range v.lin.t {
		switch t.a.kind {
		case ASz, AWord, ATerm, AOpq:
		case ADiv:
			if len(t.a.idx.t) != 1 || (t.a.idx.t[0].a.kind != AWord && t.a.idx.t[0].a.kind != ATerm) {
				return false
			}
		case AVar:
			if t.a.lo < 0 || !t.a.fresh {
				return false
			}
		default:
			return false
		}
	}
	return c.bitsOf(v) != nil
}

// expandMod expands wrapped terms of width w inside a linear form.
func (c *Ctx) expandMod(l *Lin, w int) *Lin {
	has := false
	for _, t := range l.t {
		if t.a.kind == ATerm && int(t.a.d) >= w {
			has = true
		}
	}
	if !has {
		return l
	}
	out := K(l.k)
	for _, t := range l.t {
		if t.a.kind == ATerm && int(t.a.d) >= w {
			out = out.Add(t.a.idx.Scale(t.c))
		} else {
			out = out.Add(t.a.lin().Scale(t.c))
		}
	}
	return out
}

func modK(k int64, w int) int64 {
	if w >= 62 {
		return k
	}
	m := int64(1) << uint(w)
	k %= m
	if k < 0 {
		k += m
	}
	if k > m/2 {
		k -= m
	}
	return k
}

// Wrap returns the value of l reduced modulo 2^w as a linear form, knowing
// that l may exceed the type's range.
func (c *Ctx) wrapMod(l *Lin, w int) *Lin {
	e := c.expandMod(l, w)
	r := &Lin{k: modK(e.k, w)}
	for _, t := range e.t {
		if k := modK(t.c, w); k != 0 {
			r.t = append(r.t, LT{t.a, k})
		}
	}
	if c.fuse {
		r = c.fuseXN(r)
	}
	if k, ok := r.isConst(); ok {
		if k < 0 && w < 62 {
			k += int64(1) << uint(w)
		}
		return K(k)
	}
	return c.TermAtom(r, w).lin()
}

// fuseXN rewrites X(i-1)+N(i) to X(i), repeatedly.
func (c *Ctx) fuseXN(l *Lin) *Lin {
	for again := true; again; {
		again = false
		for _, t := range l.t {
			if t.a.kind == AWord && t.a.name == "X" && t.c == 1 {
				n, ok := c.atoms["w:N:"+t.a.idx.AddK(1).Key()]
				if ok && l.coef(n) == 1 {
					l = l.Sub(t.a.lin()).Sub(n.lin()).Add(c.Word("X", t.a.idx.AddK(1)).lin())
					again = true
					break
				}
			}
		}
	}
	return l
}
