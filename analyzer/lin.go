package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// Atoms and linear forms: the numeric part of the abstract domain.
//
// An integer value is abstracted to a linear form over hash-consed atoms:
//   var      an unknown integer (the input length, a loop-iteration count, ...)
//   s(i)     the encoded byte length (1..4) of integer number i of the list
//   T(i)     the prefix sum s(0)+...+s(i-1), i.e. where integer i's bytes start
//   div(e,d) floor(e/d)
//   word     an unknown machine word indexed by position (input element i, ...)
//   term     a machine word that is a linear combination (mod 2^w) of words
// ---------------------------------------------------------------------------

type AtomKind uint8

const (
	AVar AtomKind = iota
	ASz
	AT
	ADiv
	AWord
	ATerm
	AOpq
)

type Atom struct {
	id     int
	kind   AtomKind
	name   string
	idx    *Lin
	d      int64
	lo, hi int64
	fresh  bool
	deps   map[int]bool // AOpq: ids of atoms the value depends on
}

type LT struct {
	a *Atom
	c int64
}

type Lin struct {
	t   []LT
	k   int64
	key string
}

// The machine of the build being analysed: bits of int, uint and uintptr, the
// bound assumed on list lengths (memory would be exhausted long before) and on
// how much longer than needed a caller's buffer may be.
var (
	intBits  = 64
	maxCount = int64(1) << 40
	maxExtra = int64(1) << 30
)

func setWord(bits int) {
	intBits, maxCount, maxExtra = bits, 1<<40, 1<<30
	if bits == 32 {
		maxCount, maxExtra = 1<<26, 1<<28
	}
}

type sizeKey struct {
	tag string
	idx string
}

type Ctx struct {
	atoms     map[string]*Atom
	list      []*Atom
	seq       int
	sFixed    map[int64]int // partition: fixed size class of number j (const index)
	wordRange map[int][2]int64
	fuse      bool // rewrite N(i)+X(i-1) to X(i)
	szMax     map[string]int64
	debug     bool
	entCalls  int
	deadline  time.Time
	ticks     int
}

// tick aborts the run once its time is up.
func (c *Ctx) tick() {
	if c.ticks++; c.ticks&15 == 0 && !c.deadline.IsZero() && time.Now().After(c.deadline) {
		panic(abortErr{"time limit of one analysis run exceeded"})
	}
}

func NewCtx() *Ctx {
	return &Ctx{atoms: map[string]*Atom{}, sFixed: map[int64]int{}, wordRange: map[int][2]int64{}, szMax: map[string]int64{}}
}

func (c *Ctx) mk(key string, a Atom) *Atom {
	if x, ok := c.atoms[key]; ok {
		return x
	}
	x := new(Atom)
	*x = a
	x.id = len(c.list)
	c.list = append(c.list, x)
	c.atoms[key] = x
	return x
}

func (c *Ctx) Var(name string, lo, hi int64) *Atom {
	return c.mk("v:"+name, Atom{kind: AVar, name: name, lo: lo, hi: hi})
}

func (c *Ctx) Fresh(name string, lo, hi int64) *Atom {
	c.seq++
	n := fmt.Sprintf("%s#%d", name, c.seq)
	return c.mk("v:"+n, Atom{kind: AVar, name: n, lo: lo, hi: hi, fresh: true})
}

// Opq: value-numbered opaque integer.
func (c *Ctx) Opq(key string, deps []*Lin, lo, hi int64) *Atom {
	k := "o:" + key
	if x, ok := c.atoms[k]; ok {
		return x
	}
	d := map[int]bool{}
	for _, l := range deps {
		if l != nil {
			l.deps(d)
		}
	}
	return c.mk(k, Atom{kind: AOpq, name: key, lo: lo, hi: hi, deps: d})
}

func (l *Lin) deps(d map[int]bool) {
	for _, t := range l.t {
		t.a.depsInto(d)
	}
}

func (a *Atom) depsInto(d map[int]bool) {
	if d[a.id] {
		return
	}
	d[a.id] = true
	if a.idx != nil {
		a.idx.deps(d)
	}
	for k := range a.deps {
		d[k] = true
	}
}

func (l *Lin) dependsOn(id int) bool {
	d := map[int]bool{}
	l.deps(d)
	return d[id]
}

func (c *Ctx) S(i *Lin) *Lin {
	if v, ok := i.isConst(); ok {
		if f, ok := c.sFixed[v]; ok {
			return K(int64(f))
		}
	}
	return c.SAtom(i).lin()
}

func (c *Ctx) SAtom(i *Lin) *Atom {
	return c.mk("s:"+i.Key(), Atom{kind: ASz, idx: i, lo: 1, hi: c.sMax()})
}

func (c *Ctx) sMax() int64 {
	if m, ok := c.szMax[""]; ok {
		return m
	}
	return 4
}

func (c *Ctx) T(i *Lin) *Lin {
	base := &Lin{t: i.t}
	res := K(0)
	if len(base.t) > 0 {
		res = c.mk("T:"+base.Key(), Atom{kind: AT, idx: base, lo: 0, hi: maxCount * 16}).lin()
	}
	if i.k > 4096 || i.k < -4096 {
		return c.mk("T:"+i.Key(), Atom{kind: AT, idx: i, lo: 0, hi: maxCount * 16}).lin()
	}
	for j := int64(0); j < i.k; j++ {
		res = res.Add(c.S(base.AddK(j)))
	}
	for j := i.k; j < 0; j++ {
		res = res.Sub(c.S(base.AddK(j)))
	}
	return res
}

// Div returns floor(l/d).
func (c *Ctx) Div(l *Lin, d int64) *Lin {
	if d == 1 {
		return l
	}
	if k, ok := l.isConst(); ok {
		return K(floorDiv(k, d))
	}
	out := K(0)
	rest := &Lin{k: 0}
	for _, t := range l.t {
		if t.c%d == 0 {
			out = out.Add(t.a.lin().Scale(t.c / d))
		} else {
			q := floorDiv(t.c, d)
			_ = q
			rest = rest.Add(t.a.lin().Scale(t.c))
		}
	}
	q := floorDiv(l.k, d)
	out = out.AddK(q)
	rest = rest.AddK(l.k - q*d)
	if k, ok := rest.isConst(); ok {
		return out.AddK(floorDiv(k, d))
	}
	// common factor: floor((g*x + r)/(g*e)) = floor((x + floor(r/g))/e)
	g := d
	for _, t := range rest.t {
		g = gcd(g, abs(t.c))
	}
	if g > 1 {
		r := &Lin{}
		for _, t := range rest.t {
			r = r.Add(t.a.lin().Scale(t.c / g))
		}
		r = r.AddK(floorDiv(rest.k, g))
		d = d / g
		if d == 1 {
			return out.Add(r)
		}
		return out.Add(c.Div(r, d))
	}
	lo, hi := rest.Range()
	a := c.mk(fmt.Sprintf("d:%d:%s", d, rest.Key()), Atom{kind: ADiv, idx: rest, d: d, lo: floorDiv(lo, d), hi: floorDiv(hi, d)})
	return out.Add(a.lin())
}

// Word returns the atom for element idx of the word family name.
func (c *Ctx) Word(name string, idx *Lin) *Atom {
	return c.mk("w:"+name+":"+idx.Key(), Atom{kind: AWord, name: name, idx: idx, lo: 0, hi: 1<<32 - 1})
}

func (c *Ctx) TermAtom(mod *Lin, w int) *Atom {
	if len(mod.t) == 1 && mod.t[0].c == 1 && mod.k == 0 {
		if lo, hi := c.aRange(mod.t[0].a); lo >= 0 && (w >= 62 || hi < int64(1)<<uint(w)) {
			return mod.t[0].a
		}
	}
	hi := int64(1)<<62 - 1
	if w < 62 {
		hi = int64(1)<<uint(w) - 1
	}
	return c.mk(fmt.Sprintf("t:%d:%s", w, mod.Key()), Atom{kind: ATerm, idx: mod, d: int64(w), lo: 0, hi: hi})
}

func (c *Ctx) aRange(a *Atom) (int64, int64) {
	if r, ok := c.wordRange[a.id]; ok {
		return r[0], r[1]
	}
	return a.lo, a.hi
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func K(k int64) *Lin { return &Lin{k: k} }

func (a *Atom) lin() *Lin { return &Lin{t: []LT{{a, 1}}} }

func (l *Lin) isConst() (int64, bool) {
	if len(l.t) == 0 {
		return l.k, true
	}
	return 0, false
}

func (l *Lin) Key() string {
	if l.key != "" {
		return l.key
	}
	var b strings.Builder
	for _, t := range l.t {
		b.WriteString(strconv.FormatInt(t.c, 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(t.a.id))
		b.WriteByte('+')
	}
	b.WriteString(strconv.FormatInt(l.k, 10))
	l.key = b.String()
	return l.key
}

func (l *Lin) Eq(m *Lin) bool { return l == m || l.Key() == m.Key() }

func (l *Lin) AddK(k int64) *Lin {
	if k == 0 {
		return l
	}
	return &Lin{t: l.t, k: l.k + k}
}

func (l *Lin) Add(m *Lin) *Lin { return l.comb(1, m) }
func (l *Lin) Sub(m *Lin) *Lin { return l.comb(-1, m) }

func (l *Lin) comb(f int64, m *Lin) *Lin {
	r := &Lin{k: l.k + f*m.k}
	if len(m.t) == 0 {
		r.t = l.t
		return r
	}
	r.t = make([]LT, 0, len(l.t)+len(m.t))
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].a.id < m.t[j].a.id):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a.id < l.t[i].a.id:
			r.t = append(r.t, LT{m.t[j].a, f * m.t[j].c})
			j++
		default:
			if c := l.t[i].c + f*m.t[j].c; c != 0 {
				r.t = append(r.t, LT{l.t[i].a, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) Scale(f int64) *Lin {
	if f == 0 {
		return K(0)
	}
	if f == 1 {
		return l
	}
	r := &Lin{k: l.k * f, t: make([]LT, len(l.t))}
	for i, t := range l.t {
		r.t[i] = LT{t.a, t.c * f}
	}
	return r
}

// Range: interval from intrinsic atom ranges (saturating).
func (l *Lin) Range() (int64, int64) {
	lo, hi := l.k, l.k
	for _, t := range l.t {
		a, b := satMul(t.a.lo, t.c), satMul(t.a.hi, t.c)
		if t.c < 0 {
			a, b = b, a
		}
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	return lo, hi
}

const satMax = int64(1) << 61

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || r > satMax || r < -satMax {
		if (a < 0) != (b < 0) {
			return -satMax
		}
		return satMax
	}
	return r
}

func satAdd(a, b int64) int64 {
	r := a + b
	if r > satMax {
		return satMax
	}
	if r < -satMax {
		return -satMax
	}
	return r
}

func (l *Lin) coef(a *Atom) int64 {
	for _, t := range l.t {
		if t.a == a {
			return t.c
		}
	}
	return 0
}

// Subst replaces atom a by r everywhere, also inside indexes. ok=false if the
// form depends on a through an opaque atom.
func (c *Ctx) Subst(l *Lin, a *Atom, r *Lin) (*Lin, bool) {
	if l == nil {
		return nil, true
	}
	if !l.dependsOn(a.id) {
		return l, true
	}
	out := K(l.k)
	for _, t := range l.t {
		n, ok := c.substAtom(t.a, a, r)
		if !ok {
			return nil, false
		}
		out = out.Add(n.Scale(t.c))
	}
	return out, true
}

func (c *Ctx) substAtom(x, a *Atom, r *Lin) (*Lin, bool) {
	if x == a {
		return r, true
	}
	switch x.kind {
	case AVar:
		return x.lin(), true
	case AOpq:
		if x.deps[a.id] {
			return nil, false
		}
		return x.lin(), true
	}
	if x.idx == nil || !x.idx.dependsOn(a.id) {
		return x.lin(), true
	}
	i, ok := c.Subst(x.idx, a, r)
	if !ok {
		return nil, false
	}
	switch x.kind {
	case ASz:
		return c.S(i), true
	case AT:
		return c.T(i), true
	case ADiv:
		return c.Div(i, x.d), true
	case AWord:
		return c.Word(x.name, i).lin(), true
	case ATerm:
		return c.TermAtom(i, int(x.d)).lin(), true
	}
	return nil, false
}

func (l *Lin) String() string {
	var p []string
	ts := append([]LT(nil), l.t...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].a.id < ts[j].a.id })
	for _, t := range ts {
		s := t.a.String()
		switch t.c {
		case 1:
		case -1:
			s = "-" + s
		default:
			s = fmt.Sprintf("%d*%s", t.c, s)
		}
		p = append(p, s)
	}
	if l.k != 0 || len(p) == 0 {
		p = append(p, strconv.FormatInt(l.k, 10))
	}
	return strings.ReplaceAll(strings.Join(p, "+"), "+-", "-")
}

func (a *Atom) String() string {
	switch a.kind {
	case ASz:
		return "s(" + a.idx.String() + ")"
	case AT:
		return "T(" + a.idx.String() + ")"
	case ADiv:
		return fmt.Sprintf("floor((%s)/%d)", a.idx, a.d)
	case AWord:
		return a.name + "[" + a.idx.String() + "]"
	case ATerm:
		return "(" + a.idx.String() + ")"
	}
	return a.name
}

// asT: if l == T(e) for some e, return e.
func (c *Ctx) asT(l *Lin) (*Lin, bool) {
	var base *Atom
	n := int64(0)
	for _, t := range l.t {
		switch t.a.kind {
		case AT:
			if base != nil || t.c != 1 {
				return nil, false
			}
			base = t.a
		case ASz:
			if t.c != 1 && t.c != -1 {
				return nil, false
			}
			n += t.c
		default:
			return nil, false
		}
	}
	var e *Lin
	if base != nil {
		e = base.idx.AddK(n)
		if c.T(e).Eq(l) {
			return e, true
		}
		if len(c.sFixed) == 0 {
			return nil, false
		}
	}
	if base == nil {
		// T(const): try constants
		for j := int64(0); j <= 64; j++ {
			tt := c.T(K(j))
			if tt.Eq(l) {
				return K(j), true
			}
			if len(tt.t) > len(l.t)+0 && tt.k > l.k {
				break
			}
		}
	}
	return nil, false
}
