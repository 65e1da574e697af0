package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Layer 1: abstract execution of the assembly kernels. Vector registers are
// sequences of byte provenances; 32-bit lanes are linear combinations modulo
// 2^32; comparisons against zero bytes are tables over the zero/non-zero
// pattern of a lane. The control value (or the size classes of the input
// integers) is partitioned into all of its values.
// ---------------------------------------------------------------------------

type lane struct {
	key   string
	terms []laneTerm // sum of base lanes; nil for a base lane
	c     uint32
	bytes [4]bv // composite lanes
	comp  bool
	num   int // encoders: number index + 1 this lane is known to be, 0 otherwise
}

type laneTerm struct {
	l *lane
	c uint32
}

type bv struct {
	k   uint8 // 0 const, 1 data, 2 table over the lane's zero pattern, 3 unknown
	c   uint8
	src *lane
	i   int
	tab *[16]uint8
}

type vreg [16]bv

type gval struct {
	kind byte // 'c' const, 'p' pointer, 'd' data bytes, 'u' unknown
	c    uint64
	base string
	off  int64
	b    [8]bv
}

type asmAccess struct {
	base  string
	off   int64
	size  int64
	write bool
	ins   *AsmIns
}

type asmRun struct {
	f             *AsmFn
	k             *Kernel
	set           *AsmSet
	g             map[string]gval
	x             map[string]vreg
	lanes         map[string]*lane
	classes       []int
	ctrl          int
	shuffle       []uint8
	lens          []uint8
	slots         []frameSlot
	resOff        int64
	argSize       int64
	acc           []asmAccess
	outMem        map[int64]bv
	res           map[int64]bv
	inMem         func(off int64) bv
	prob          []Finding
	ended         bool
	unk           int
	cur           *AsmIns
	zeroFlagValid bool
}

func (r *asmRun) pos() string {
	if r.cur != nil {
		return fmt.Sprintf("%s:%d", r.f.file, r.cur.line)
	}
	return fmt.Sprintf("%s:%d", r.f.file, r.f.line)
}

func (r *asmRun) fail(cat, msg string) {
	for _, p := range r.prob {
		if p.Cat == cat && p.Pos == r.pos() {
			return
		}
	}
	r.prob = append(r.prob, Finding{cat, r.f.name, r.pos(), msg})
}

func (r *asmRun) base(key string) *lane {
	if l, ok := r.lanes[key]; ok {
		return l
	}
	l := &lane{key: key}
	r.lanes[key] = l
	return l
}

func (r *asmRun) unknown() bv { return bv{k: 3} }

func (r *asmRun) laneOf(b []bv) *lane {
	if b[0].k == 1 && b[0].i == 0 && b[0].src.key != "in" {
		same := true
		for i := range b {
			if b[i].k != 1 || b[i].src != b[0].src || b[i].i != i {
				same = false
				break
			}
		}
		if same {
			return b[0].src
		}
	}
	allc := true
	c := uint32(0)
	key := make([]byte, 0, 48)
	key = append(key, 'b')
	for i := range b {
		switch b[i].k {
		case 0:
			c |= uint32(b[i].c) << uint(8*i)
			key = append(key, '#')
			key = appendInt(key, int64(b[i].c))
		case 1:
			allc = false
			key = append(key, '.')
			key = append(key, b[i].src.key...)
			key = append(key, '@')
			key = appendInt(key, int64(b[i].i))
		default:
			r.unk++
			return r.base(fmt.Sprintf("?%d", r.unk))
		}
	}
	if allc {
		return r.sum(nil, c)
	}
	l, ok := r.lanes[string(key)]
	if !ok {
		l = &lane{key: string(key), comp: true}
		copy(l.bytes[:], b)
		r.lanes[l.key] = l
	}
	return l
}

func appendInt(b []byte, v int64) []byte { return append(b, fmt.Sprint(v)...) }

func (r *asmRun) sum(ts []laneTerm, c uint32) *lane {
	var out []laneTerm
	sort.Slice(ts, func(i, j int) bool { return ts[i].l.key < ts[j].l.key })
	for _, t := range ts {
		if len(out) > 0 && out[len(out)-1].l == t.l {
			out[len(out)-1].c += t.c
		} else {
			out = append(out, t)
		}
	}
	ts = out
	out = nil
	for _, t := range ts {
		if t.c != 0 {
			out = append(out, t)
		}
	}
	if len(out) == 1 && out[0].c == 1 && c == 0 {
		return out[0].l
	}
	var sb strings.Builder
	sb.WriteString("s")
	for _, t := range out {
		fmt.Fprintf(&sb, "(%d*%s)", int32(t.c), t.l.key)
	}
	fmt.Fprintf(&sb, "+%d", c)
	k := sb.String()
	if l, ok := r.lanes[k]; ok {
		return l
	}
	l := &lane{key: k, terms: out, c: c}
	r.lanes[k] = l
	return l
}

func (l *lane) expand() ([]laneTerm, uint32) {
	if l.terms != nil || strings.HasPrefix(l.key, "s+") {
		return l.terms, l.c
	}
	return []laneTerm{{l, 1}}, 0
}

func (r *asmRun) add(a, b *lane, f uint32) *lane {
	ta, ca := a.expand()
	tb, cb := b.expand()
	ts := append([]laneTerm(nil), ta...)
	for _, t := range tb {
		ts = append(ts, laneTerm{t.l, t.c * f})
	}
	return r.sum(ts, ca+cb*f)
}

func (r *asmRun) bytesOf(l *lane) [4]bv {
	if l.comp {
		return l.bytes
	}
	var o [4]bv
	if strings.HasPrefix(l.key, "s+") {
		for i := range o {
			o[i] = bv{c: uint8(l.c >> uint(8*i))}
		}
		return o
	}
	for i := range o {
		o[i] = bv{k: 1, src: l, i: i}
	}
	return o
}

// patterns allowed for a lane (bit i set: byte i non-zero).
func (r *asmRun) allowed(l *lane, p int) bool {
	if l.num == 0 || r.classes == nil {
		return true
	}
	cl := r.classes[l.num-1]
	for b := cl; b < 4; b++ {
		if p>>uint(b)&1 == 1 {
			return false
		}
	}
	return cl == 1 || p>>uint(cl-1)&1 == 1
}

func (r *asmRun) normTab(l *lane, t [16]uint8) bv {
	first, have := uint8(0), false
	for p := 0; p < 16; p++ {
		if !r.allowed(l, p) {
			continue
		}
		if !have {
			first, have = t[p], true
		} else if t[p] != first {
			x := t
			return bv{k: 2, src: l, tab: &x}
		}
	}
	return bv{c: first}
}

// simp: a data byte known to be zero acts as the constant zero.
func (r *asmRun) simp(b bv) bv {
	if b.k == 1 && b.src.num > 0 && r.classes != nil && b.i >= r.classes[b.src.num-1] {
		return bv{}
	}
	return b
}

// pointwise evaluates f on groups of bytes that are constants or tables over a
// single lane's pattern.
func (r *asmRun) pointwise(in []bv, nout int, f func([]uint8) []uint8) []bv {
	out := make([]bv, nout)
	var src *lane
	ok := true
	allc := true
	for i := range in {
		in[i] = r.simp(in[i])
		switch in[i].k {
		case 0:
		case 2:
			allc = false
			if src != nil && src != in[i].src {
				ok = false
			}
			src = in[i].src
		default:
			ok = false
		}
	}
	if !ok {
		for i := range out {
			out[i] = bv{k: 3}
		}
		return out
	}
	vals := make([]uint8, len(in))
	if allc {
		for i := range in {
			vals[i] = in[i].c
		}
		for i, v := range f(vals) {
			out[i] = bv{c: v}
		}
		return out
	}
	tabs := make([][16]uint8, nout)
	for p := 0; p < 16; p++ {
		for i := range in {
			if in[i].k == 0 {
				vals[i] = in[i].c
			} else {
				vals[i] = in[i].tab[p]
			}
		}
		for i, v := range f(vals) {
			tabs[i][p] = v
		}
	}
	for i := range out {
		out[i] = r.normTab(src, tabs[i])
	}
	return out
}

func (r *asmRun) getX(o Operand) (vreg, bool) {
	switch o.kind {
	case 'r':
		if strings.HasPrefix(o.reg, "X") {
			v, ok := r.x[o.reg]
			if !ok {
				for i := range v {
					v[i] = bv{k: 3}
				}
			}
			return v, true
		}
	case 'm', 's', 'f':
		var v vreg
		b := r.loadMem(o, 16)
		copy(v[:], b)
		return v, true
	}
	r.fail("undecided", "operand is not analysed: "+o.text)
	return vreg{}, false
}

// loadMem loads n bytes through a memory operand.
func (r *asmRun) loadMem(o Operand, n int64) []bv {
	out := make([]bv, n)
	for i := range out {
		out[i] = bv{k: 3}
	}
	switch o.kind {
	case 'f':
		for i := int64(0); i < n; i++ {
			out[i] = r.argByte(o.off + i)
		}
		r.checkFP(o, n)
		return out
	case 's':
		sy := r.set.syms[o.name]
		if sy == nil {
			r.fail("undecided", "unknown static symbol "+o.name)
			return out
		}
		if o.off < 0 || o.off+n > sy.size {
			r.fail("asm-bounds", fmt.Sprintf("reads %d bytes at offset %d of static data of %d bytes", n, o.off, sy.size))
			return out
		}
		for i := int64(0); i < n; i++ {
			out[i] = bv{c: sy.data[o.off+i]}
		}
		return out
	case 'm':
		base, off, ok := r.addr(o)
		if !ok {
			return out
		}
		r.acc = append(r.acc, asmAccess{base, off, n, false, r.cur})
		switch base {
		case "in":
			for i := int64(0); i < n; i++ {
				out[i] = r.inMem(off + i)
			}
		case "out":
			for i := int64(0); i < n; i++ {
				if b, ok := r.outMem[off+i]; ok {
					out[i] = b
				}
			}
		case "shuffle", "lens":
			t := r.shuffle
			if base == "lens" {
				t = r.lens
			}
			for i := int64(0); i < n; i++ {
				if p := off + i; p >= 0 && p < int64(len(t)) {
					out[i] = bv{c: t[p]}
				}
			}
		}
		return out
	}
	r.fail("undecided", "operand is not analysed: "+o.text)
	return out
}

func (r *asmRun) addr(o Operand) (string, int64, bool) {
	off := o.off
	base := ""
	addReg := func(reg string, sc int64) bool {
		v := r.getG(reg)
		switch v.kind {
		case 'c':
			off += int64(v.c) * sc
			return true
		case 'p':
			if sc == 1 && base == "" {
				base = v.base
				off += v.off
				return true
			}
		}
		return false
	}
	if o.reg != "" && !addReg(o.reg, 1) || o.idx != "" && !addReg(o.idx, o.scale) {
		r.fail("abi", "address "+o.text+" is not derived from an argument slice or table")
		return "", 0, false
	}
	if base == "" {
		r.fail("abi", "address "+o.text+" is not derived from an argument slice or table")
		return "", 0, false
	}
	return base, off, true
}

func (r *asmRun) checkFP(o Operand, n int64) {
	for _, s := range r.slots {
		if s.off == o.off {
			if s.name != o.name {
				r.fail("abi", fmt.Sprintf("%s names offset %d but the declaration has %s there", o.text, o.off, s.name))
			}
			if n > s.size {
				r.fail("abi", fmt.Sprintf("%s accesses %d bytes of the %d-byte argument %s", o.text, n, s.size, s.name))
			}
			return
		}
	}
	for _, s := range r.slots {
		if o.off > s.off && o.off+n <= s.off+s.size {
			return // part of an argument
		}
	}
	r.fail("abi", fmt.Sprintf("%s accesses no declared argument", o.text))
}

func (r *asmRun) argByte(off int64) bv {
	for _, s := range r.slots {
		if off < s.off || off >= s.off+s.size || s.param < 0 {
			continue
		}
		i := int(off - s.off)
		switch s.param {
		case r.k.ctrl:
			return bv{c: uint8(r.ctrl >> uint(8*i))}
		case r.k.prev:
			return bv{k: 1, src: r.base("prev"), i: i}
		}
	}
	return bv{k: 3}
}

func subReg(reg string) (string, int) {
	switch reg {
	case "AL", "BL", "CL", "DL":
		return reg[:1] + "X", 1
	case "SIB", "DIB", "BPB", "SPB":
		return reg[:2], 1
	}
	if strings.HasPrefix(reg, "R") {
		switch reg[len(reg)-1] {
		case 'B':
			return reg[:len(reg)-1], 1
		case 'W':
			return reg[:len(reg)-1], 2
		case 'L':
			return reg[:len(reg)-1], 4
		}
	}
	return reg, 0
}

func (r *asmRun) getG(reg string) gval {
	f, _ := subReg(reg)
	if v, ok := r.g[f]; ok {
		return v
	}
	return gval{kind: 'u'}
}

func (r *asmRun) setG(reg string, v gval) {
	f, _ := subReg(reg)
	switch f {
	case "SP", "BP":
		r.fail("abi", "writes the reserved register "+f)
	}
	if strings.HasSuffix(reg, "H") && len(reg) == 2 {
		v = gval{kind: 'u'}
	}
	r.g[f] = v
}

// readG reads n bytes of an integer operand (register, memory, immediate).
func (r *asmRun) readG(o Operand, n int64) gval {
	switch o.kind {
	case 'i':
		return gval{kind: 'c', c: trunc(uint64(o.imm), n)}
	case 'r':
		if o.reg[0] == 'X' && (len(o.reg) > 1 && o.reg[1] >= '0' && o.reg[1] <= '9') {
			v, _ := r.getX(o)
			return r.fromBytes(v[:n])
		}
		if strings.HasSuffix(o.reg, "H") {
			v := r.getG(o.reg[:1] + "X")
			if v.kind == 'c' {
				return gval{kind: 'c', c: v.c >> 8 & 0xff}
			}
			return gval{kind: 'u'}
		}
		v := r.getG(o.reg)
		if v.kind == 'c' {
			return gval{kind: 'c', c: trunc(v.c, n)}
		}
		if v.kind == 'd' {
			for i := n; i < 8; i++ {
				v.b[i] = bv{}
			}
			return r.fromBytes(v.b[:8])
		}
		if v.kind == 'p' && n == 8 {
			return v
		}
		return gval{kind: 'u'}
	case 'f':
		if n == 8 {
			for _, s := range r.slots {
				if s.off != o.off || s.param < 0 {
					continue
				}
				r.checkFP(o, n)
				switch {
				case s.param == r.k.in && s.comp == 0:
					return gval{kind: 'p', base: "in"}
				case s.param == r.k.out && s.comp == 0:
					return gval{kind: 'p', base: "out"}
				case s.param == r.k.shuffle:
					return gval{kind: 'p', base: "shuffle"}
				case s.param == r.k.lens:
					return gval{kind: 'p', base: "lens"}
				}
			}
		}
		return r.fromBytes(r.loadMem(o, n))
	default:
		return r.fromBytes(r.loadMem(o, n))
	}
}

func trunc(v uint64, n int64) uint64 {
	if n >= 8 {
		return v
	}
	return v & (uint64(1)<<uint(8*n) - 1)
}

func (r *asmRun) fromBytes(b []bv) gval {
	c := uint64(0)
	allc := true
	var g gval
	for i := range b {
		x := b[i]
		g.b[i] = x
		if x.k != 0 {
			allc = false
		}
		c |= uint64(x.c) << uint(8*i)
	}
	if allc {
		return gval{kind: 'c', c: c}
	}
	for i := range b {
		if b[i].k == 3 {
			return gval{kind: 'u'}
		}
	}
	g.kind = 'd'
	return g
}

func (g gval) byte(i int) bv {
	switch g.kind {
	case 'c':
		return bv{c: uint8(g.c >> uint(8*i))}
	case 'd':
		return g.b[i]
	}
	return bv{k: 3}
}

// writeG writes n bytes to a register or memory operand.
func (r *asmRun) writeG(o Operand, n int64, v gval, zeroExt bool) {
	switch o.kind {
	case 'r':
		if o.reg[0] == 'X' && len(o.reg) > 1 && o.reg[1] >= '0' && o.reg[1] <= '9' {
			var x vreg
			for i := int64(0); i < n; i++ {
				x[i] = v.byte(int(i))
			}
			r.x[o.reg] = x
			return
		}
		if n >= 4 || zeroExt {
			if v.kind == 'c' {
				v.c = trunc(v.c, n)
			} else if v.kind == 'p' && n < 8 {
				v = gval{kind: 'u'}
			}
			r.setG(o.reg, v)
			return
		}
		old := r.getG(o.reg)
		if old.kind == 'c' && v.kind == 'c' {
			m := uint64(1)<<uint(8*n) - 1
			r.setG(o.reg, gval{kind: 'c', c: old.c&^m | v.c&m})
			return
		}
		r.setG(o.reg, gval{kind: 'u'})
	case 'f':
		r.checkFP(o, n)
		for i := int64(0); i < n; i++ {
			if o.off+i < r.resOff {
				r.fail("abi", fmt.Sprintf("%s overwrites an argument", o.text))
			}
			if o.off+i >= r.argSize {
				r.fail("abi", fmt.Sprintf("%s writes past the argument frame", o.text))
			}
			r.res[o.off+i] = v.byte(int(i))
		}
	case 'm':
		bs := make([]bv, n)
		for i := range bs {
			bs[i] = v.byte(i)
		}
		r.storeMem(o, bs)
	default:
		r.fail("abi", "writes "+o.text)
	}
}

func (r *asmRun) storeMem(o Operand, bs []bv) {
	if o.kind == 's' {
		r.fail("abi", "writes static data "+o.text)
		return
	}
	if o.kind != 'm' {
		r.fail("undecided", "store operand is not analysed: "+o.text)
		return
	}
	if o.reg == "SP" {
		r.fail("abi", "writes the stack at "+o.text)
		return
	}
	base, off, ok := r.addr(o)
	if !ok {
		return
	}
	r.acc = append(r.acc, asmAccess{base, off, int64(len(bs)), true, r.cur})
	if base != "out" {
		r.fail("abi", fmt.Sprintf("stores through %s, which is not the output slice", base))
		return
	}
	for i, b := range bs {
		r.outMem[off+int64(i)] = b
	}
}

// ---- instruction semantics ----

func (r *asmRun) setX(o Operand, v vreg) {
	if o.kind != 'r' || !strings.HasPrefix(o.reg, "X") {
		r.fail("undecided", "vector destination is not analysed: "+o.text)
		return
	}
	r.x[o.reg] = v
}

func s16(lo, hi uint8) int { return int(int16(uint16(lo) | uint16(hi)<<8)) }
func u16(lo, hi uint8) int { return int(uint16(lo) | uint16(hi)<<8) }

func word(v int) []uint8 { return []uint8{uint8(v), uint8(v >> 8)} }

func clampInt(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

var byteOps = map[string]func(a, b uint8) uint8{
	"PMINUB": func(a, b uint8) uint8 { return min(a, b) },
	"PMAXUB": func(a, b uint8) uint8 { return max(a, b) },
	"PCMPEQB": func(a, b uint8) uint8 {
		if a == b {
			return 255
		}
		return 0
	},
	"PADDB":   func(a, b uint8) uint8 { return a + b },
	"PADDUSB": func(a, b uint8) uint8 { return uint8(clampInt(int(a)+int(b), 0, 255)) },
	"PSUBUSB": func(a, b uint8) uint8 { return uint8(clampInt(int(a)-int(b), 0, 255)) },
	"PSUBB":   func(a, b uint8) uint8 { return a - b },
	"PAND":    func(a, b uint8) uint8 { return a & b },
	"POR":     func(a, b uint8) uint8 { return a | b },
	"PXOR":    func(a, b uint8) uint8 { return a ^ b },
	"PANDN":   func(a, b uint8) uint8 { return ^a & b },
	"PCMPGTB": func(a, b uint8) uint8 {
		if int8(a) > int8(b) {
			return 255
		}
		return 0
	},
	"PMINSB": func(a, b uint8) uint8 {
		if int8(a) < int8(b) {
			return a
		}
		return b
	},
	"PMAXSB": func(a, b uint8) uint8 {
		if int8(a) > int8(b) {
			return a
		}
		return b
	},
	"PADDSB": func(a, b uint8) uint8 { return uint8(clampInt(int(int8(a))+int(int8(b)), -128, 127)) },
}

var wordOps = map[string]func(a, b int, ua, ub int) int{
	"PMINSW":  func(a, b, ua, ub int) int { return min(a, b) },
	"PMAXSW":  func(a, b, ua, ub int) int { return max(a, b) },
	"PMINUW":  func(a, b, ua, ub int) int { return min(ua, ub) },
	"PMAXUW":  func(a, b, ua, ub int) int { return max(ua, ub) },
	"PADDUSW": func(a, b, ua, ub int) int { return clampInt(ua+ub, 0, 65535) },
	"PSUBUSW": func(a, b, ua, ub int) int { return clampInt(ua-ub, 0, 65535) },
	"PADDSW":  func(a, b, ua, ub int) int { return clampInt(a+b, -32768, 32767) },
	"PADDW":   func(a, b, ua, ub int) int { return a + b },
	"PSUBW":   func(a, b, ua, ub int) int { return a - b },
	"PCMPEQW": func(a, b, ua, ub int) int {
		if ua == ub {
			return 65535
		}
		return 0
	},
	"PCMPGTW": func(a, b, ua, ub int) int {
		if a > b {
			return 65535
		}
		return 0
	},
}

// step executes one instruction.
func (r *asmRun) step(in *AsmIns) {
	r.cur = in
	op := in.op
	a := in.args
	for _, o := range a {
		if o.kind == 'r' && (o.reg[0] == 'Y' || o.reg[0] == 'Z' || o.reg[0] == 'K') {
			r.fail("undecided", "register "+o.reg+" is not modelled")
			return
		}
	}
	vec := op
	three := false
	if strings.HasPrefix(op, "V") {
		vec = op[1:]
		three = true
	}
	// binary vector operations: src2(mem ok), src1, dst  (Go operand order)
	binary := func() (b2, b1 vreg, dst Operand, ok bool) {
		if three {
			if len(a) != 3 {
				return
			}
			b2, _ = r.getX(a[0])
			b1, ok = r.getX(a[1])
			return b2, b1, a[2], ok
		}
		if len(a) != 2 {
			return
		}
		b2, _ = r.getX(a[0])
		b1, ok = r.getX(a[1])
		return b2, b1, a[1], ok
	}
	bad := func() { r.fail("undecided", "instruction is not modelled: "+in.text) }
	r.checkAligned(op, a)
	if f, ok := byteOps[strings.TrimSuffix(vec, "_")]; ok || vec == "ANDPS" {
		b2, b1, dst, ok2 := binary()
		if !ok2 || f == nil {
			bad()
			return
		}
		var v vreg
		for i := range v {
			v[i] = r.byteOp(vec, f, b1[i], b2[i])
		}
		if vec == "PXOR" && a[0].kind == 'r' && a[0].text == a[1].text {
			v = vreg{}
		}
		r.setX(dst, v)
		return
	}
	if f, ok := wordOps[vec]; ok {
		b2, b1, dst, ok2 := binary()
		if !ok2 {
			bad()
			return
		}
		var v vreg
		for i := 0; i < 16; i += 2 {
			o := r.pointwise([]bv{b1[i], b1[i+1], b2[i], b2[i+1]}, 2, func(x []uint8) []uint8 {
				return word(f(s16(x[0], x[1]), s16(x[2], x[3]), u16(x[0], x[1]), u16(x[2], x[3])))
			})
			v[i], v[i+1] = o[0], o[1]
		}
		r.setX(dst, v)
		return
	}
	switch vec {
	case "PADDD", "PSUBD":
		b2, b1, dst, ok := binary()
		if !ok {
			bad()
			return
		}
		f := uint32(1)
		if vec == "PSUBD" {
			f = ^uint32(0)
		}
		var v vreg
		for l := 0; l < 4; l++ {
			x := r.bytesOf(r.add(r.laneOf(b1[4*l:4*l+4]), r.laneOf(b2[4*l:4*l+4]), f))
			copy(v[4*l:], x[:])
		}
		r.setX(dst, v)
		return
	case "PACKUSWB", "PACKSSWB":
		b2, b1, dst, ok := binary()
		if !ok {
			bad()
			return
		}
		var v vreg
		for i := 0; i < 8; i++ {
			for h, s := range []*vreg{&b1, &b2} {
				o := r.pointwise([]bv{s[2*i], s[2*i+1]}, 1, func(x []uint8) []uint8 {
					if vec == "PACKUSWB" {
						return []uint8{uint8(clampInt(s16(x[0], x[1]), 0, 255))}
					}
					return []uint8{uint8(clampInt(s16(x[0], x[1]), -128, 127))}
				})
				v[8*h+i] = o[0]
			}
		}
		r.setX(dst, v)
		return
	case "PSHUFB":
		b2, b1, dst, ok := binary()
		if !ok {
			bad()
			return
		}
		var v vreg
		for i := range v {
			if b2[i].k != 0 {
				v[i] = bv{k: 3}
			} else if b2[i].c&0x80 == 0 {
				v[i] = b1[b2[i].c&15]
			}
		}
		r.setX(dst, v)
		return
	case "PALIGNR":
		if !three || len(a) != 4 || a[0].kind != 'i' {
			bad()
			return
		}
		lo, _ := r.getX(a[1])
		hi, _ := r.getX(a[2])
		var v vreg
		for i := range v {
			p := i + int(a[0].imm)
			switch {
			case p < 16:
				v[i] = lo[p]
			case p < 32:
				v[i] = hi[p-16]
			}
		}
		r.setX(a[3], v)
		return
	case "PSLLDQ", "PSRLDQ", "PSLLO", "PSRLO":
		if len(a) < 2 || a[0].kind != 'i' {
			bad()
			return
		}
		s, ok := r.getX(a[1])
		if !ok {
			return
		}
		var v vreg
		n := int(a[0].imm)
		for i := range v {
			p := i - n
			if vec == "PSRLDQ" || vec == "PSRLO" {
				p = i + n
			}
			if p >= 0 && p < 16 {
				v[i] = s[p]
			}
		}
		r.setX(a[len(a)-1], v)
		return
	case "PSHUFD", "PSHUFL":
		if len(a) != 3 || a[0].kind != 'i' {
			bad()
			return
		}
		s, _ := r.getX(a[1])
		var v vreg
		for l := 0; l < 4; l++ {
			k := int(a[0].imm>>uint(2*l)) & 3
			copy(v[4*l:4*l+4], s[4*k:4*k+4])
		}
		r.setX(a[2], v)
		return
	case "SHUFPS":
		if !three || len(a) != 4 || a[0].kind != 'i' {
			bad()
			return
		}
		s2, _ := r.getX(a[1])
		s1, _ := r.getX(a[2])
		var v vreg
		for l := 0; l < 4; l++ {
			k := int(a[0].imm>>uint(2*l)) & 3
			s := &s1
			if l >= 2 {
				s = &s2
			}
			copy(v[4*l:4*l+4], s[4*k:4*k+4])
		}
		r.setX(a[3], v)
		return
	case "PBLENDW", "PBLENDD":
		if !three || len(a) != 4 || a[0].kind != 'i' {
			bad()
			return
		}
		s2, _ := r.getX(a[1])
		s1, _ := r.getX(a[2])
		w := 2
		if vec == "PBLENDD" {
			w = 4
		}
		v := s1
		for l := 0; l < 16/w; l++ {
			if a[0].imm>>uint(l)&1 == 1 {
				copy(v[w*l:w*l+w], s2[w*l:w*l+w])
			}
		}
		r.setX(a[3], v)
		return
	case "PUNPCKLLQ", "PUNPCKLDQ", "PUNPCKHDQ", "PUNPCKHLQ", "PUNPCKLQDQ", "PUNPCKHQDQ":
		b2, b1, dst, ok := binary()
		if !ok {
			bad()
			return
		}
		w, st := 4, 0
		if strings.HasSuffix(vec, "QDQ") {
			w = 8
		}
		if strings.Contains(vec, "CKH") {
			st = 8
		}
		var v vreg
		for i := 0; i < 8/w; i++ {
			copy(v[2*w*i:2*w*i+w], b1[st+w*i:st+w*i+w])
			copy(v[2*w*i+w:2*w*i+2*w], b2[st+w*i:st+w*i+w])
		}
		r.setX(dst, v)
		return
	case "PBROADCASTB", "PBROADCASTW", "PBROADCASTD", "PBROADCASTQ", "BROADCASTSS":
		w := map[string]int{"PBROADCASTB": 1, "PBROADCASTW": 2, "PBROADCASTD": 4, "PBROADCASTQ": 8, "BROADCASTSS": 4}[vec]
		var b []bv
		if a[0].kind == 'r' {
			x, _ := r.getX(a[0])
			b = x[:w]
		} else {
			b = r.loadMem(a[0], int64(w))
		}
		var v vreg
		for i := range v {
			v[i] = b[i%w]
		}
		r.setX(a[1], v)
		return
	case "LDDQU", "MOVDQU", "MOVDQA", "MOVUPS", "MOVAPS", "MOVUPD", "MOVOU", "MOVOA":
		if len(a) != 2 {
			bad()
			return
		}
		s, ok := r.getX(a[0])
		if !ok {
			return
		}
		if a[1].kind == 'r' {
			r.setX(a[1], s)
		} else {
			r.storeMem(a[1], s[:])
		}
		return
	case "PMOVMSKB":
		s, ok := r.getX(a[0])
		if !ok {
			return
		}
		c := uint64(0)
		for i, b := range s {
			b = r.simp(b)
			known := false
			var bit uint8
			switch b.k {
			case 0:
				known, bit = true, b.c>>7
			case 2:
				var t [16]uint8
				for p := range t {
					t[p] = b.tab[p] >> 7
				}
				if n := r.normTab(b.src, t); n.k == 0 {
					known, bit = true, n.c
				}
			}
			if !known {
				r.fail("content", fmt.Sprintf("control bit %d is not determined by the byte lengths of the integers", i))
				r.setG(a[1].reg, gval{kind: 'u'})
				return
			}
			c |= uint64(bit) << uint(i)
		}
		r.setG(a[1].reg, gval{kind: 'c', c: c})
		return
	case "MOVD":
		if three {
			r.writeG(a[1], 4, r.readG(a[0], 4), true)
			return
		}
	case "MOVQ":
		if three {
			r.writeG(a[1], 8, r.readG(a[0], 8), true)
			return
		}
	case "ZEROUPPER":
		return
	}
	switch op {
	case "RET":
		r.ended = true
	case "NOP", "NOPL", "NOPW", "PREFETCHT0", "PREFETCHNTA", "PREFETCHT1", "PREFETCHT2":
	case "MOVQ":
		r.writeG(a[1], 8, r.readG(a[0], 8), true)
	case "MOVL":
		r.writeG(a[1], 4, r.readG(a[0], 4), true)
	case "MOVW":
		r.writeG(a[1], 2, r.readG(a[0], 2), false)
	case "MOVB":
		r.writeG(a[1], 1, r.readG(a[0], 1), false)
	case "MOVWQZX", "MOVWLZX":
		r.writeG(a[1], 8, r.readG(a[0], 2), true)
	case "MOVBQZX", "MOVBLZX":
		r.writeG(a[1], 8, r.readG(a[0], 1), true)
	case "MOVLQZX":
		r.writeG(a[1], 8, r.readG(a[0], 4), true)
	case "LEAQ":
		if a[0].kind == 'm' {
			base, off, ok := r.addrAny(a[0])
			if ok {
				if base == "" {
					r.writeG(a[1], 8, gval{kind: 'c', c: uint64(off)}, true)
				} else {
					r.writeG(a[1], 8, gval{kind: 'p', base: base, off: off}, true)
				}
				return
			}
		}
		r.writeG(a[1], 8, gval{kind: 'u'}, true)
	case "ADDQ", "SUBQ", "ADDL", "SUBL", "ANDQ", "ANDL", "ORQ", "ORL", "XORQ", "XORL", "SHLQ", "SHLL", "SHRQ", "SHRL", "ANDB", "ANDW", "SHRW", "SHLW", "ADDW", "ADDB", "SHRB", "SHLB", "ORW", "ORB":
		n := map[byte]int64{'Q': 8, 'L': 4, 'W': 2, 'B': 1}[op[len(op)-1]]
		o := op[:len(op)-1]
		s, d := r.readG(a[0], n), r.readG(a[1], n)
		res := gval{kind: 'u'}
		switch {
		case o == "XOR" && a[0].text == a[1].text:
			res = gval{kind: 'c'}
		case s.kind == 'c' && d.kind == 'c':
			v := d.c
			switch o {
			case "ADD":
				v += s.c
			case "SUB":
				v -= s.c
			case "AND":
				v &= s.c
			case "OR":
				v |= s.c
			case "XOR":
				v ^= s.c
			case "SHL":
				v <<= s.c & 63
			case "SHR":
				v >>= s.c & 63
			}
			res = gval{kind: 'c', c: trunc(v, n)}
		case o == "ADD" && n == 8 && s.kind == 'p' && d.kind == 'c':
			res = gval{kind: 'p', base: s.base, off: s.off + int64(d.c)}
		case o == "ADD" && n == 8 && s.kind == 'c' && d.kind == 'p':
			res = gval{kind: 'p', base: d.base, off: d.off + int64(s.c)}
		case o == "SUB" && n == 8 && s.kind == 'c' && d.kind == 'p':
			res = gval{kind: 'p', base: d.base, off: d.off - int64(s.c)}
		}
		r.writeG(a[1], n, res, n == 4)
	case "INCQ", "DECQ":
		d := r.readG(a[0], 8)
		k := int64(1)
		if op == "DECQ" {
			k = -1
		}
		switch d.kind {
		case 'c':
			d.c += uint64(k)
		case 'p':
			d.off += k
		}
		r.writeG(a[0], 8, d, true)
	case "CALL":
		r.fail("abi", "performs a call")
	default:
		bad()
		// anything it may write is unknown
		if len(a) > 0 {
			d := a[len(a)-1]
			if d.kind == 'r' {
				if strings.HasPrefix(d.reg, "X") {
					delete(r.x, d.reg)
				} else {
					r.setG(d.reg, gval{kind: 'u'})
				}
			}
		}
	}
}

// checkAligned: 16-byte memory operands of aligned moves and of legacy SSE
// instructions fault on an address that is not a multiple of 16. Slices of
// bytes and 32-bit integers promise no such thing.
func (r *asmRun) checkAligned(op string, a []Operand) {
	vec := false
	mem := -1
	for i, o := range a {
		switch o.kind {
		case 'r':
			if len(o.reg) > 1 && o.reg[0] == 'X' {
				vec = true
			}
		case 'm', 'f', 's':
			mem = i
		}
	}
	if !vec || mem < 0 {
		return
	}
	aligned := false
	switch strings.TrimPrefix(op, "V") {
	case "MOVDQA", "MOVAPS", "MOVAPD", "MOVOA", "MOVO", "MOVNTDQ", "MOVNTDQA", "MOVNTPS", "MOVNTPD", "MOVNTO":
		aligned = true
	default:
		switch {
		case strings.HasPrefix(op, "V"), strings.HasPrefix(op, "MOV"), strings.HasPrefix(op, "PMOV"), strings.HasPrefix(op, "PINSR"), strings.HasPrefix(op, "PEXTR"), op == "LDDQU", op == "INSERTPS", op == "EXTRACTPS":
		case strings.HasSuffix(op, "SS"), strings.HasSuffix(op, "SD"):
		default:
			aligned = true
		}
	}
	if !aligned {
		return
	}
	o := a[mem]
	switch o.kind {
	case 's':
		if sy := r.set.syms[o.name]; sy != nil && sy.size >= 16 && o.off%16 == 0 {
			return
		}
	case 'm':
		if b, off, ok := r.addrAny(o); ok && (b == "shuffle" || b == "lens") && off%16 == 0 {
			return
		}
	}
	r.fail("panic", op+" needs a 16-byte aligned address, which "+o.text+" need not be")
}

func (r *asmRun) addrAny(o Operand) (string, int64, bool) {
	off := o.off
	base := ""
	for i, reg := range []string{o.reg, o.idx} {
		if reg == "" {
			continue
		}
		sc := int64(1)
		if i == 1 {
			sc = o.scale
		}
		v := r.getG(reg)
		switch {
		case v.kind == 'c':
			off += int64(v.c) * sc
		case v.kind == 'p' && sc == 1 && base == "":
			base = v.base
			off += v.off
		default:
			return "", 0, false
		}
	}
	return base, off, true
}

func (r *asmRun) byteOp(op string, f func(a, b uint8) uint8, x, y bv) bv {
	// cases that keep or test data bytes
	for s := 0; s < 2; s++ {
		p, q := r.simp(x), r.simp(y)
		if s == 1 {
			p, q = q, p
		}
		if p.k == 1 && q.k == 0 {
			nz := func(zero, non uint8) bv {
				var t [16]uint8
				for k := range t {
					t[k] = zero
					if k>>uint(p.i)&1 == 1 {
						t[k] = non
					}
				}
				return r.normTab(p.src, t)
			}
			isNum := p.src.key != "in" && p.i < 4
			switch {
			case op == "PMINUB" && q.c == 0, op == "PAND" && q.c == 0:
				return bv{}
			case op == "PMINUB" && q.c == 1 && isNum:
				return nz(0, 1)
			case op == "PCMPEQB" && q.c == 0 && isNum:
				return nz(255, 0)
			case op == "PMINUB" && q.c == 255, op == "PAND" && q.c == 255, op == "POR" && q.c == 0, op == "PXOR" && q.c == 0, op == "PADDB" && q.c == 0, op == "PADDUSB" && q.c == 0, op == "PMAXUB" && q.c == 0:
				return p
			case op == "PSUBUSB" && q.c == 255 && s == 0:
				return bv{}
			}
		}
		if p.k == 0 && q.k == 1 && s == 0 && op == "PANDN" && p.c == 0 {
			return q
		}
	}
	if x.k == 1 && y.k == 1 && x.src == y.src && x.i == y.i {
		switch op {
		case "PMINUB", "PMAXUB", "PAND", "POR":
			return x
		case "PXOR", "PSUBB", "PSUBUSB", "PCMPGTB":
			return bv{}
		case "PCMPEQB":
			return bv{c: 255}
		}
	}
	return r.pointwise([]bv{x, y}, 1, func(v []uint8) []uint8 { return []uint8{f(v[0], v[1])} })[0]
}

// ---- verification of one routine ----

type bound struct {
	ok        bool
	c, b1, b2 int64 // end <= c, end <= len(first 4)+b1, end <= len(all 8)+b2
	neg       bool
	maxLine   int
}

type AsmSummary struct {
	ok       bool
	findings []Finding
	runs     int
	inB      bound
	outB     bound
	checks   int
}

func (w *World) asmSummary(k *Kernel, f *AsmFn, shuffle, lens []uint8) *AsmSummary {
	key := fmt.Sprintf("%s|%x|%x", f.fn.RelString(nil), hashBytes(shuffle), hashBytes(lens))
	asmMu.Lock()
	defer asmMu.Unlock()
	if s, ok := w.asm.sums[key]; ok {
		return s
	}
	s := w.verifyAsm(k, f, shuffle, lens)
	w.asm.sums[key] = s
	return s
}

var asmMu sync.Mutex

func hashBytes(b []uint8) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h ^ uint64(len(b))
}

func (w *World) verifyAsm(k *Kernel, f *AsmFn, shuffle, lens []uint8) *AsmSummary {
	sum := &AsmSummary{ok: true}
	n := k.n
	total := 1 << uint(2*n)
	const workers = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]bool{}
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var in, out bound
			in.c, in.b1, in.b2 = 0, -1<<40, -1<<40
			out = in
			runs, checks := 0, 0
			var fs []Finding
			for x := g; x < total; x += workers {
				r := w.runAsm(k, f, shuffle, lens, x)
				runs++
				checks += len(f.ins) + n
				fs = append(fs, r.prob...)
				cl := make([]int64, n)
				l1, l2 := int64(0), int64(0)
				for j := 0; j < n; j++ {
					cl[j] = int64(x>>uint(2*j)&3) + 1
					if j < 4 {
						l1 += cl[j]
					}
					l2 += cl[j]
				}
				for _, ac := range r.acc {
					var b *bound
					switch ac.base {
					case "in":
						b = &in
					case "out":
						b = &out
					default:
						continue
					}
					end := ac.off + ac.size
					if ac.off < 0 {
						b.neg = true
					}
					b.c, b.b1, b.b2 = max(b.c, end), max(b.b1, end-l1), max(b.b2, end-l2)
				}
				if len(fs) > 40 {
					break
				}
			}
			mu.Lock()
			defer mu.Unlock()
			sum.runs += runs
			sum.checks += checks
			for _, p := range fs {
				kk := p.Cat + p.Pos + p.Msg
				if p.Cat != "content" {
					kk = p.Cat + p.Pos
				} else {
					kk = p.Cat + p.Pos
				}
				if !seen[kk] {
					seen[kk] = true
					sum.findings = append(sum.findings, p)
				}
			}
			mrg := func(d *bound, s bound) {
				if !d.ok {
					*d = s
					d.ok = true
					return
				}
				d.c, d.b1, d.b2 = max(d.c, s.c), max(d.b1, s.b1), max(d.b2, s.b2)
				d.neg = d.neg || s.neg
			}
			mrg(&sum.inB, in)
			mrg(&sum.outB, out)
		}(g)
	}
	wg.Wait()
	sort.Slice(sum.findings, func(i, j int) bool { return sum.findings[i].Pos < sum.findings[j].Pos })
	for _, p := range sum.findings {
		if p.Cat == "content" || p.Cat == "undecided" || p.Cat == "abi" {
			sum.ok = false
		}
	}
	return sum
}

// runAsm executes the routine for one combination of byte lengths.
func (w *World) runAsm(k *Kernel, f *AsmFn, shuffle, lens []uint8, x int) *asmRun {
	r := &asmRun{f: f, k: k, set: w.asm, g: map[string]gval{}, x: map[string]vreg{}, lanes: map[string]*lane{},
		shuffle: shuffle, lens: lens, outMem: map[int64]bv{}, res: map[int64]bv{}}
	r.slots, r.argSize, r.resOff = frameLayout(f.fn.Signature)
	n := k.n
	cl := make([]int, n)
	for j := range cl {
		cl[j] = x>>uint(2*j)&3 + 1
	}
	var nums []*lane
	if k.dec {
		r.ctrl = x
		src := r.base("in")
		r.inMem = func(off int64) bv { return bv{k: 1, src: src, i: int(off)} }
	} else {
		r.classes = cl
		for j := 0; j < n; j++ {
			nums = append(nums, r.base(fmt.Sprintf("in%d", j)))
		}
		r.inMem = func(off int64) bv {
			j := off / 4
			if off < 0 || j >= int64(n) {
				return bv{k: 3}
			}
			return bv{k: 1, src: nums[j], i: int(off % 4)}
		}
		if k.delta {
			prev := r.base("prev")
			ins := nums
			nums = nil
			for j := 0; j < n; j++ {
				p := prev
				if j > 0 {
					p = ins[j-1]
				}
				nums = append(nums, r.add(ins[j], p, ^uint32(0)))
			}
			insC := ins
			r.inMem = func(off int64) bv {
				j := off / 4
				if off < 0 || j >= int64(n) {
					return bv{k: 3}
				}
				return bv{k: 1, src: insC[j], i: int(off % 4)}
			}
		}
		for j, l := range nums {
			l.num = j + 1
		}
	}
	for i := range f.ins {
		r.step(&f.ins[i])
		if r.ended {
			break
		}
	}
	r.cur = nil
	if !r.ended {
		r.fail("abi", "control falls off the end of the routine")
	}
	what := fmt.Sprintf("for byte lengths %v", cl)
	// table accesses
	for _, ac := range r.acc {
		lim := int64(-1)
		switch ac.base {
		case "shuffle":
			lim = int64(len(shuffle))
		case "lens":
			lim = int64(len(lens))
		}
		if lim >= 0 && (ac.off < 0 || ac.off+ac.size > lim) {
			r.cur = ac.ins
			r.fail("asm-bounds", fmt.Sprintf("reads outside the %s table %s", ac.base, what))
		}
	}
	r.cur = nil
	// result
	if f.fn.Signature.Results().Len() > 0 {
		var got uint64
		known := true
		for i := r.resOff; i < r.argSize; i++ {
			b, ok := r.res[i]
			if !ok {
				r.fail("abi", "the result is not written")
				known = false
				break
			}
			if b.k != 0 {
				known = false
				r.fail("content", "the returned control value is not determined by the byte lengths")
				break
			}
			got |= uint64(b.c) << uint(8*(i-r.resOff))
		}
		if known && got != uint64(x) {
			r.fail("content", fmt.Sprintf("returns control value %#x, not %#x, %s", got, x, what))
		}
	}
	// contents
	if k.dec {
		src := r.base("in")
		off := 0
		acc := (*lane)(nil)
		if k.delta {
			acc = r.base("prev")
		}
		for j := 0; j < n; j++ {
			var b [4]bv
			for i := 0; i < cl[j]; i++ {
				b[i] = bv{k: 1, src: src, i: off + i}
			}
			off += cl[j]
			want := r.laneOf(b[:])
			if k.delta {
				acc = r.add(acc, want, 1)
				want = acc
			}
			var g [4]bv
			missing := false
			for i := 0; i < 4; i++ {
				v, ok := r.outMem[int64(4*j+i)]
				if !ok {
					missing = true
				}
				g[i] = v
			}
			if missing {
				r.fail("content", fmt.Sprintf("output element %d is not written %s", j, what))
				break
			}
			if got := r.laneOf(g[:]); got != want {
				r.fail("content", fmt.Sprintf("output element %d is not the decoded integer %s", j, what))
				break
			}
		}
	} else {
		p := int64(0)
	enc:
		for j := 0; j < n; j++ {
			want := r.bytesOf(nums[j])
			for i := 0; i < cl[j]; i++ {
				v, ok := r.outMem[p]
				if !ok || v.k != 1 || v.src != want[i].src || v.i != want[i].i {
					r.fail("content", fmt.Sprintf("encoded byte %d of integer %d is wrong %s", i, j, what))
					break enc
				}
				p++
			}
		}
	}
	return r
}

// ---- application at a call site ----

func (it *Interp) tableBytes(st *State, v Val, n int) ([]uint8, bool) {
	p, ok := v.(*PtrV)
	if !ok || p.obj == nil {
		return nil, false
	}
	off, ok := p.pos.isConst()
	if !ok {
		return nil, false
	}
	m := st.get(p.obj)
	out := make([]uint8, n)
	for i := range out {
		iv, ok := m.dense[off+int64(i)].(*IntV)
		if !ok {
			return nil, false
		}
		k, ok := iv.isConst()
		if !ok {
			return nil, false
		}
		out[i] = uint8(k)
	}
	return out, true
}

func (w *World) applyAsm(it *Interp, fn *ssa.Function, k *Kernel, st *State, args []Val) ([]Outcome, bool) {
	c := it.cx
	f := (*AsmFn)(nil)
	if w.asm != nil {
		f = w.asm.fns[fn]
	}
	if f == nil {
		it.report(st, "undecided", "call of "+fn.RelString(nil)+", which has no Go body and no analysed assembly")
		return []Outcome{{st, it.freshResult(fn.Signature)}}, true
	}
	if k == nil || k.one || k.partial {
		it.report(st, "undecided", "assembly routine "+fn.Name()+" does not have the shape of a kernel")
		return []Outcome{{st, it.freshResult(fn.Signature)}}, true
	}
	in, ok1 := args[k.in].(*SliceV)
	out, ok2 := args[k.out].(*SliceV)
	if !ok1 || !ok2 {
		it.report(st, "undecided", "unknown slice passed to "+fn.Name())
		return []Outcome{{st, it.freshResult(fn.Signature)}}, true
	}
	it.asmCalls++
	if st.asm != nil {
		st.asm = st.asm.AddK(1)
	}
	if it.onAsm != nil {
		it.onAsm(it, fn, f, st)
	}
	var shuffle, lens []uint8
	ok := true
	if k.shuffle >= 0 {
		shuffle, ok = it.tableBytes(st, args[k.shuffle], 4096)
		if !ok {
			it.report(st, "undecided", "the shuffle table passed to "+fn.Name()+" is not a known constant table")
			return []Outcome{{st, it.freshResult(fn.Signature)}}, true
		}
	}
	if k.lens >= 0 {
		lens, ok = it.tableBytes(st, args[k.lens], 256)
		if !ok {
			it.report(st, "undecided", "the length table passed to "+fn.Name()+" is not a known constant table")
			return []Outcome{{st, it.freshResult(fn.Signature)}}, true
		}
	}
	sum := w.asmSummary(k, f, shuffle, lens)
	if in.obj == nil || out.obj == nil {
		it.report(st, "asm-bounds", "nil slice passed to "+fn.Name())
		return []Outcome{{st, it.freshResult(fn.Signature)}}, true
	}
	if !sum.ok {
		why := ""
		if len(sum.findings) > 0 {
			why = ": " + sum.findings[0].String()
		}
		it.report(st, "content", fn.Name()+" does not compute its kernel with the tables passed here"+why)
	}
	// identify the numbers involved
	var e *Lin
	haveE := false
	if k.dec {
		if cv, ok := args[k.ctrl].(*IntV); ok {
			if bs := c.bitsOf(cv); bs != nil {
				if x, ok := it.codeRun(bs, k.n); ok && it.encodedAt(st, in.obj, in.off, x, k.n) {
					e, haveE = x, true
				}
			}
		}
		if haveE && k.delta {
			p, ok := args[k.prev].(*IntV)
			if !ok || !it.eq(st, p.lin, c.Word("X", e.AddK(-1)).lin()) {
				haveE = false
			}
		}
	} else {
		haveE = true
		var prev *Lin
		if k.delta {
			p, ok := args[k.prev].(*IntV)
			if ok {
				prev = p.lin
			} else {
				haveE = false
			}
		}
		for i := 0; haveE && i < k.n; i++ {
			if !it.le(st, in.off.AddK(int64(i)+1), in.obj.n) {
				haveE = false
				break
			}
			v, ok := it.loadElem(st, in.obj, in.off.AddK(int64(i)), types.Typ[types.Uint32]).(*IntV)
			if !ok {
				haveE = false
				break
			}
			w := v
			if k.delta {
				w = mkInt(32, false, c.wrapMod(v.lin.Sub(prev), 32))
				prev = v.lin
			}
			x, ok := it.famIndex(st, w)
			if !ok || (i > 0 && !it.same(st, x, e.AddK(int64(i)))) {
				haveE = false
				break
			}
			if i == 0 {
				e = x
			}
		}
	}
	var len1, len2 *Lin
	if haveE {
		len1 = c.T(e.AddK(4)).Sub(c.T(e))
		len2 = c.T(e.AddK(int64(k.n))).Sub(c.T(e))
	}
	// memory footprint
	check := func(s *SliceV, b bound, verb string) {
		es := s.obj.esize
		if es == 0 {
			es = 1
		}
		it.asmBounds++
		if b.neg {
			it.report(st, "asm-bounds", fmt.Sprintf("%s may %s before the start of the slice", fn.Name(), verb))
		}
		end := func(l *Lin, k int64) *Lin { // in bytes
			return s.off.Scale(es).Add(l).AddK(k)
		}
		lim := s.obj.n.Scale(es)
		if it.le(st, end(K(0), b.c), lim) {
			return
		}
		best := end(K(0), b.c)
		if haveE {
			if it.le(st, end(len1, b.b1), lim) || it.le(st, end(len2, b.b2), lim) {
				return
			}
			best = end(len1, b.b1)
		}
		it.report(st, "asm-bounds", fmt.Sprintf("%s may %s past the end of %s: vector access ends at byte %s of %s", fn.Name(), verb, s.obj.name, best, lim))
	}
	check(in, sum.inB, "load")
	check(out, sum.outB, "store")
	// effects on the output
	es := out.obj.esize
	if es == 0 {
		es = 1
	}
	wend := out.off.AddK(ceilDiv(sum.outB.c, es))
	if out.obj.wlimit != nil && haveE && es == 1 {
		wend = out.off.Add(len1).AddK(sum.outB.b1)
	}
	it.checkWrite(st, out.obj, out.off, wend, fn.Name())
	it.kill(st, out.obj, out.off, out.off.AddK(ceilDiv(sum.outB.c, es)))
	if !haveE || !sum.ok {
		if !haveE && !k.dec {
			it.report(st, "content", fn.Name()+" is not given eight consecutive integers of the list with their predecessor")
		} else if !haveE {
			it.report(st, "content", fn.Name()+" is not given the control value, data position and base value of one pair of groups")
		}
		return []Outcome{{st, it.freshResult(fn.Signature)}}, true
	}
	if k.dec {
		fam := "N"
		if k.delta {
			fam = "X"
		}
		it.addFact(st, out.obj, &Fact{kind: FElem, lo: out.off, hi: out.off.AddK(int64(k.n)), fam: fam, shift: e.Sub(out.off)})
		return []Outcome{{st, nil}}, true
	}
	it.addFact(st, out.obj, &Fact{kind: FEnc, base: out.off.Sub(c.T(e)), lo: e, hi: e.AddK(int64(k.n)), fam: it.encFam})
	wret, _, _ := intType(fn.Signature.Results().At(0).Type())
	return []Outcome{{st, it.codeVal(wret, e, k.n)}}, true
}
