package main

import "sort"

// ---------------------------------------------------------------------------
// Constraint store: conjunctions of integer linear constraints (the relational
// part of the abstract domain) with an emptiness test by Fourier-Motzkin
// elimination and integer tightening.
// ---------------------------------------------------------------------------

type Cons struct {
	parent *Cons
	e      *Lin // e <= 0, or e == 0
	eq     bool
	depth  int
	cache  map[string]bool
}

var rootCons = &Cons{}

func (c *Cons) add(e *Lin, eq bool) *Cons {
	if k, ok := e.isConst(); ok && ((!eq && k <= 0) || (eq && k == 0)) {
		return c
	}
	key := e.Key()
	for p := c; p != nil && p.e != nil; p = p.parent {
		if p.eq == eq && p.e.Key() == key {
			return c
		}
	}
	return &Cons{parent: c, e: e, eq: eq, depth: c.depth + 1}
}

func (c *Cons) all() []*Cons {
	var out []*Cons
	for p := c; p != nil && p.e != nil; p = p.parent {
		out = append(out, p)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// since returns the constraints added after base (base must be an ancestor).
func (c *Cons) since(base *Cons) []*Cons {
	var out []*Cons
	for p := c; p != nil && p.e != nil && p != base; p = p.parent {
		out = append(out, p)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// row is a dense constraint sum c[v]*x_v + k <= 0 over a query's local columns.
type row struct {
	c []int64
	k int64
}

func norm(r *row) (infeasible, trivial bool) {
	g := int64(0)
	for _, c := range r.c {
		if c != 0 {
			if c == 1 || c == -1 {
				return false, false
			}
			g = gcd(abs(c), g)
			if g == 1 {
				return false, false
			}
		}
	}
	if g == 0 {
		return r.k > 0, r.k <= 0
	}
	if g > 1 {
		for v := range r.c {
			r.c[v] /= g
		}
		r.k = ceilDiv(r.k, g)
	}
	return false, false
}

func rowHash(c []int64) uint64 {
	h := uint64(14695981039346656037)
	for i, x := range c {
		if x != 0 {
			h ^= uint64(x) + uint64(i)*0x9E3779B97F4A7C15
			h *= 1099511628211
			h ^= h >> 29
		}
	}
	return h
}

func sameCoef(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const coefLimit = int64(1) << 50

// fm decides (incompletely) whether the rows have no integer solution.
func fm(rows []*row, nv int) bool {
	pos, neg := make([]int32, nv), make([]int32, nv)
	pbig, nbig := make([]bool, nv), make([]bool, nv)
	for iter := 0; iter < 400; iter++ {
		best := make(map[uint64]int, len(rows))
		out := rows[:0:0]
		for _, r := range rows {
			inf, triv := norm(r)
			if inf {
				return true
			}
			if triv {
				continue
			}
			h := rowHash(r.c)
			if i, ok := best[h]; ok && sameCoef(out[i].c, r.c) {
				if r.k > out[i].k {
					out[i] = r
				}
			} else {
				if !ok {
					best[h] = len(out)
				}
				out = append(out, r)
			}
		}
		if len(out) == 0 {
			return false
		}
		rows = out
		for v := 0; v < nv; v++ {
			pos[v], neg[v], pbig[v], nbig[v] = 0, 0, false, false
		}
		for _, r := range rows {
			for v, c := range r.c {
				if c == 0 {
					continue
				}
				if c > 0 {
					pos[v]++
					pbig[v] = pbig[v] || c != 1
				} else {
					neg[v]++
					nbig[v] = nbig[v] || c != -1
				}
			}
		}
		bv, bc := -1, int(1<<30)
		for v := 0; v < nv; v++ {
			p, n := int(pos[v]), int(neg[v])
			if p+n == 0 {
				continue
			}
			cost := (p*n - p - n) * 2
			if pbig[v] && nbig[v] {
				cost += 60 // the projection would not be exact over the integers
			} else if pbig[v] || nbig[v] {
				cost++
			}
			if cost < bc {
				bv, bc = v, cost
			}
		}
		if bv < 0 {
			return false
		}
		var P, N, Z []*row
		for _, r := range rows {
			switch c := r.c[bv]; {
			case c > 0:
				P = append(P, r)
			case c < 0:
				N = append(N, r)
			default:
				Z = append(Z, r)
			}
		}
		if len(P)*len(N)+len(Z) > 4000 {
			return false
		}
		for _, p := range P {
			for _, n := range N {
				a, b := p.c[bv], -n.c[bv]
				g := gcd(a, b)
				fa, fb := b/g, a/g
				if abs(p.k) > 1<<55/max64(1, fa) || abs(n.k) > 1<<55/max64(1, fb) {
					continue
				}
				nr := &row{c: make([]int64, nv)}
				over := false
				for v, c := range p.c {
					x := c*fa + n.c[v]*fb
					if abs(x) > coefLimit {
						over = true
						break
					}
					nr.c[v] = x
				}
				if over {
					continue
				}
				nr.k = p.k*fa + n.k*fb
				nr.c[bv] = 0
				Z = append(Z, nr)
			}
		}
		rows = Z
	}
	return false
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// touches: the atom is relevant, directly or through the quotient (or prefix
// sum) it is defined by.
func touches(want map[int]*Atom, a *Atom, lemmas bool) bool {
	if _, ok := want[a.id]; ok {
		return true
	}
	if a.kind == ADiv || lemmas && a.kind == AT {
		for _, t := range a.idx.t {
			if touches(want, t.a, lemmas) {
				return true
			}
		}
	}
	return false
}

// infeasible: cons (plus extra e<=0 constraints) has no integer solution.
func (cx *Ctx) infeasible(cons *Cons, extra []*Lin, lemmas bool) bool {
	cx.tick()
	cx.entCalls++
	// relevance closure
	want := map[int]*Atom{}
	var queue []*Atom
	var addAtom func(a *Atom)
	addLin := func(l *Lin) {
		for _, t := range l.t {
			addAtom(t.a)
		}
	}
	addAtom = func(a *Atom) {
		if _, ok := want[a.id]; ok {
			return
		}
		want[a.id] = a
		queue = append(queue, a)
		if a.kind == ADiv {
			addLin(a.idx)
		}
		if lemmas && (a.kind == AT || a.kind == ASz) {
			addLin(a.idx)
		}
	}
	all := cons.all()
	if len(extra) == 0 {
		for _, c := range all {
			addLin(c.e)
		}
	}
	for _, e := range extra {
		addLin(e)
		if k, ok := e.isConst(); ok && k > 0 {
			return true
		}
	}
	used := make([]bool, len(all))
	for changed := true; changed; {
		changed = false
		for i, c := range all {
			if used[i] {
				continue
			}
			if k, ok := c.e.isConst(); ok {
				if (c.eq && k != 0) || k > 0 {
					return true
				}
				used[i] = true
				continue
			}
			hit := false
			for _, t := range c.e.t {
				if touches(want, t.a, lemmas) {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				addLin(c.e)
				changed = true
			}
		}
	}
	var lins, eqs []*Lin
	for i, c := range all {
		if !used[i] {
			continue
		}
		if c.eq {
			eqs = append(eqs, c.e)
		} else {
			lins = append(lins, c.e)
		}
	}
	lins = append(lins, extra...)
	if lemmas {
		for _, l := range cx.tLemmas(cons, want) {
			lins = append(lins, l)
			for _, t := range l.t {
				addAtom(t.a)
			}
		}
	}
	ids := make([]int, 0, len(want))
	for id := range want {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	nv := len(ids)
	col := make(map[int]int, nv)
	for i, id := range ids {
		col[id] = i
	}
	toRow := func(l *Lin) *row {
		r := &row{c: make([]int64, nv), k: l.k}
		for _, t := range l.t {
			r.c[col[t.a.id]] = t.c
		}
		return r
	}
	rows := make([]*row, 0, len(lins)+3*nv)
	for _, l := range lins {
		rows = append(rows, toRow(l))
	}
	for _, id := range ids {
		a := want[id]
		lo, hi := cx.aRange(a)
		up := &row{c: make([]int64, nv), k: -hi}
		up.c[col[id]] = 1
		dn := &row{c: make([]int64, nv), k: lo}
		dn.c[col[id]] = -1
		rows = append(rows, up, dn)
		if a.kind == ADiv {
			// d*q <= num <= d*q + d-1
			rows = append(rows, toRow(a.lin().Scale(a.d).Sub(a.idx)), toRow(a.idx.Sub(a.lin().Scale(a.d)).AddK(-(a.d - 1))))
		}
	}
	// substitute equalities with a unit coefficient
	var erows []*row
	for _, e := range eqs {
		erows = append(erows, toRow(e))
	}
	for i := 0; i < len(erows); i++ {
		e := erows[i]
		sv := -1
		for v, c := range e.c {
			if c == 1 || c == -1 {
				sv = v
				break
			}
		}
		if sv < 0 {
			n := &row{c: make([]int64, nv), k: -e.k}
			p := &row{c: make([]int64, nv), k: e.k}
			for v, c := range e.c {
				n.c[v] = -c
				p.c[v] = c
			}
			rows = append(rows, p, n)
			continue
		}
		sc := e.c[sv]
		sub := func(r *row) {
			c := r.c[sv]
			if c == 0 {
				return
			}
			f := -c * sc // r + f*e eliminates sv since sc*sc==1
			for v, x := range e.c {
				if x != 0 {
					r.c[v] += f * x
				}
			}
			r.k += f * e.k
			r.c[sv] = 0
		}
		for _, r := range rows {
			sub(r)
		}
		for j := i + 1; j < len(erows); j++ {
			sub(erows[j])
		}
	}
	return fm(rows, nv)
}

type tpoint struct {
	idx  *Lin
	expr *Lin
	base int
}

// tLemmas: for ordered positions x <= y: y-x <= T(y)-T(x) <= 4(y-x).
func (cx *Ctx) tLemmas(cons *Cons, want map[int]*Atom) []*Lin {
	var ts []*Atom
	smap := map[string]bool{}
	minS, maxS := map[string]int64{}, map[string]int64{}
	var ids []int
	for id := range want {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	anyT := false
	for _, id := range ids {
		a := want[id]
		if a.kind == AT {
			ts = append(ts, a)
			anyT = true
		}
		if a.kind == ASz {
			smap[a.idx.Key()] = true
			b := (&Lin{t: a.idx.t}).Key()
			if v, ok := minS[b]; !ok || a.idx.k < v {
				minS[b] = a.idx.k
			}
			if v, ok := maxS[b]; !ok || a.idx.k > v {
				maxS[b] = a.idx.k
			}
		}
	}
	if !anyT {
		return nil
	}
	var pts []tpoint
	addPts := func(base *Lin, bi int) {
		m := int64(0)
		for smap[base.AddK(m).Key()] {
			m++
		}
		lo := int64(0)
		for smap[base.AddK(lo-1).Key()] {
			lo--
		}
		seen := map[int64]bool{}
		for _, o := range []int64{0, m, lo} {
			if seen[o] {
				continue
			}
			seen[o] = true
			pts = append(pts, tpoint{base.AddK(o), cx.T(base.AddK(o)), bi})
		}
	}
	for i, t := range ts {
		addPts(t.idx, i)
	}
	addPts(K(0), -1)
	var out []*Lin
	sm := cx.sMax()
	for i := range pts {
		for j := range pts {
			if i == j || pts[i].base == pts[j].base {
				continue
			}
			d := pts[j].idx.Sub(pts[i].idx)
			if cx.entailsNL(cons, d.Scale(-1)) {
				dt := pts[j].expr.Sub(pts[i].expr)
				out = append(out, d.Sub(dt), dt.Sub(d.Scale(sm)))
			}
		}
	}
	return out
}

// entails: cons |= e <= 0
func (cx *Ctx) entails(cons *Cons, e *Lin) bool {
	return cx.ent(cons, e, true)
}

func (cx *Ctx) entailsNL(cons *Cons, e *Lin) bool { return cx.ent(cons, e, false) }

func (cx *Ctx) ent(cons *Cons, e *Lin, lem bool) bool {
	if k, ok := e.isConst(); ok {
		if k <= 0 {
			return true
		}
	} else if _, hi := e.Range(); hi <= 0 {
		return true
	} else if lo, _ := e.Range(); lo > 0 && cons.e == nil {
		return false
	}
	key := e.Key()
	if !lem {
		key = "n" + key
	}
	if cons.cache == nil {
		cons.cache = map[string]bool{}
	} else if v, ok := cons.cache[key]; ok {
		return v
	}
	r := cx.infeasible(cons, []*Lin{e.Scale(-1).AddK(1)}, false)
	if !r && lem {
		r = cx.infeasible(cons, []*Lin{e.Scale(-1).AddK(1)}, true)
	}
	cons.cache[key] = r
	return r
}

func (cx *Ctx) entEq(cons *Cons, a, b *Lin) bool {
	if a.Eq(b) {
		return true
	}
	d := a.Sub(b)
	if _, ok := d.isConst(); ok {
		return cx.unsat(cons)
	}
	return cx.entails(cons, d) && cx.entails(cons, d.Scale(-1))
}

func (cx *Ctx) entLe(cons *Cons, a, b *Lin) bool { return cx.entails(cons, a.Sub(b)) }
func (cx *Ctx) entLt(cons *Cons, a, b *Lin) bool { return cx.entails(cons, a.Sub(b).AddK(1)) }

func (cx *Ctx) unsat(cons *Cons) bool {
	if cons.e == nil {
		return false
	}
	if cons.cache == nil {
		cons.cache = map[string]bool{}
	} else if v, ok := cons.cache["!"]; ok {
		return v
	}
	r := cx.infeasible(cons, nil, true)
	cons.cache["!"] = r
	return r
}
