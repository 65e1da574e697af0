package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Path-sensitive dataflow of text: a small abstract interpreter for command
// line tools. Byte strings are ropes, backing arrays of byte slices are
// objects (so that appending over live data is seen), integers are linear
// forms under a path condition, files are identified by name.
// ---------------------------------------------------------------------------

type tInt struct{ l *Lin }
type tBool struct {
	known, val bool
	key        string // boolean atom
	neg        bool
	op         token.Token // LEQ, EQL, NEQ against zero
	lin        *Lin
}
type tStr struct{ r rope }
type tBytes struct { // view of obj
	obj      int // 0: nil
	off, len *Lin
}
type tList struct { // slice of non-byte elements
	open  string // elements of unknown number first
	prov  int
	elems []tval
}
type tPtr struct{ cell string }
type tFn struct {
	fn *ssa.Function
	fv []tval
}
type tFile struct {
	name     string // key of the name
	nameR    rope
	mode     byte // 'r', 'w'
	append   bool
	consumed bool
	id       int
}
type tErr struct{ key string }
type tOpq struct {
	key   string
	prov  int
	src   tval   // what a reader reads from
	multi []tval // what a writer writes to
}
type tNil struct{}
type tTuple []tval
type tStruct struct{ f []tval }

type tval interface{}

type fileState struct {
	content rope
	trunc   bool // changed
	failed  bool // by an operation that reported an error
	pos     string
}

type tobj struct {
	content rope
	parent  int
	poff    *Lin
	kids    []int
}

type tState struct {
	cons  *Cons
	cells map[string]tval
	objs  map[int]*tobj
	files map[string]*fileState
	bools map[string]bool
	reads []string
	emits []emitIns
	path  []string
}

func (s *tState) clone() *tState {
	n := &tState{cons: s.cons, cells: map[string]tval{}, objs: map[int]*tobj{}, files: map[string]*fileState{}, bools: map[string]bool{}}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.objs {
		c := *v
		c.kids = append([]int(nil), v.kids...)
		n.objs[k] = &c
	}
	for k, v := range s.files {
		c := *v
		n.files[k] = &c
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	n.reads = append([]string(nil), s.reads...)
	n.emits = s.emits[:len(s.emits):len(s.emits)]
	n.path = append([]string(nil), s.path...)
	return n
}

type tOut struct {
	st  *tState
	ret tval
	end string // "" returned, "fatal", "panic"
	pos token.Pos
}

type tFrame struct {
	fn     *ssa.Function
	env    map[ssa.Value]tval
	st     *tState
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []*ssa.Defer
	visits map[*ssa.BasicBlock]int
	sum    map[*ssa.BasicBlock]bool // loop headers being summarised
	id     int
}

func (f *tFrame) clone() *tFrame {
	n := *f
	n.env = make(map[ssa.Value]tval, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.st = f.st.clone()
	n.defers = append([]*ssa.Defer(nil), f.defers...)
	n.visits = map[*ssa.BasicBlock]int{}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.sum = map[*ssa.BasicBlock]bool{}
	for k, v := range f.sum {
		n.sum[k] = v
	}
	return &n
}

type idxFact struct {
	view rope
	pat  rope
	at   *Lin
	kind string
}

type loopLine struct {
	lists map[string][]tval // appended elements per list phi
	bools map[string]bool
	entry map[string]bool // assumptions made before the loop
	pos   string
}

// tExtra is text appended to a string.
type tExtra struct{ r rope }

type Text struct {
	prog      *Program
	cx        *Ctx
	seq       int
	idx       map[string]idxFact // by atom key
	paths     int
	steps     int
	depth     int
	loops     map[*ssa.Function]*loopForest
	joins     map[string]*tList
	target    map[string]tval
	cellType  map[string]string
	cellGo    map[string]types.Type
	stdinScan map[string]bool
	// list loops: open id -> what each iteration appends
	appended map[string][]loopLine
	provOf   map[string]int
	derived  map[string]string // opaque id -> id it was trimmed from
	bad      []Finding
	unknown  map[string]bool
	maxSteps int
	maxPaths int
	comps    map[string]*component
	syms     map[string]*AsmSym
	curSym   string
	dyn      map[*tInt]types.Type
	emit     func(t *Text, fr *tFrame, fn *ssa.Function, args []tval, pos token.Pos) ([]tOut, bool)
	unrollN  int
}

func newText(p *Program) *Text {
	t := &Text{prog: p, cx: NewCtx(), idx: map[string]idxFact{}, loops: map[*ssa.Function]*loopForest{}, appended: map[string][]loopLine{},
		joins: map[string]*tList{}, target: map[string]tval{}, cellType: map[string]string{}, cellGo: map[string]types.Type{}, stdinScan: map[string]bool{},
		provOf: map[string]int{}, derived: map[string]string{}, unknown: map[string]bool{}, maxSteps: 2_000_000, maxPaths: 60000, unrollN: 64}
	t.cx.deadline = deadlineFrom(time.Now())
	return t
}

func (t *Text) start() *tState {
	return &tState{cons: rootConsNew(), cells: map[string]tval{}, objs: map[int]*tobj{}, files: map[string]*fileState{}, bools: map[string]bool{}}
}

func (t *Text) next() int { t.seq++; return t.seq }

func (t *Text) eq(st *tState) func(a, b *Lin) bool {
	return func(a, b *Lin) bool { return a.Eq(b) || t.cx.entEq(st.cons, a, b) }
}

func (t *Text) opq(name string, prov int) seg {
	id := fmt.Sprintf("%s#%d", name, t.next())
	t.provOf[id] = prov
	return seg{kind: 'o', id: id, n: t.cx.Fresh("len", 0, maxCount).lin(), prov: prov}
}

// ---- objects ----

func (t *Text) newObj(st *tState, r rope) *tBytes {
	id := t.next()
	st.objs[id] = &tobj{content: r}
	return &tBytes{obj: id, off: K(0), len: r.size()}
}

// sub cuts [a,b) out of a rope.
func (t *Text) sub(st *tState, r rope, a, b *Lin) rope {
	le := func(x, y *Lin) bool { return t.cx.entLe(st.cons, x, y) }
	eq := t.eq(st)
	if eq(a, b) {
		return nil
	}
	var out rope
	pos := K(0)
	total := r.size()
	opaque := func() rope {
		s := t.opq("part", r.prov())
		s.n = b.Sub(a)
		return rope{s}
	}
	if eq(a, K(0)) && eq(b, total) {
		return r
	}
	for _, s := range r {
		end := pos.Add(s.size())
		switch {
		case le(end, a):
		case le(b, pos):
		default:
			x, y := pos, end
			if !le(a, pos) {
				if !le(pos, a) {
					return opaque()
				}
				x = a
			}
			if !le(end, b) {
				if !le(b, end) {
					return opaque()
				}
				y = b
			}
			if x == pos && y == end {
				out = out.cat(rope{s}, eq)
				break
			}
			switch s.kind {
			case 'c':
				i, ok1 := x.Sub(pos).isConst()
				j, ok2 := y.Sub(pos).isConst()
				if !ok1 || !ok2 || i < 0 || j > int64(len(s.s)) || i > j {
					return opaque()
				}
				out = out.cat(constRope(s.s[i:j]), eq)
			case 'f':
				out = out.cat(rope{{kind: 'f', file: s.file, from: s.from.Add(x.Sub(pos)), to: s.from.Add(y.Sub(pos))}}, eq)
			default:
				o := t.opq("part", s.prov)
				o.n = y.Sub(x)
				t.derived[o.id] = s.id
				out = out.cat(rope{o}, eq)
			}
		}
		pos = end
	}
	return out
}

func (t *Text) bytesRope(st *tState, v tval) (rope, bool) {
	switch x := v.(type) {
	case *tStr:
		return x.r, true
	case *tBytes:
		if x.obj == 0 {
			return nil, true
		}
		o := st.objs[x.obj]
		return t.sub(st, o.content, x.off, x.off.Add(x.len)), true
	case tNil:
		return nil, true
	case *tOpq:
		return rope{t.opq("bytes", x.prov|provUnknown)}, true
	case *tInt:
		return nil, false
	}
	return rope{t.opq("bytes", t.prov(st, v)|provUnknown)}, true
}

// clobber: bytes [a,b) of an object may change (b nil: to the end).
func (t *Text) clobber(st *tState, id int, a, b *Lin, why string, from int) {
	o := st.objs[id]
	if o == nil {
		return
	}
	n := o.content.size()
	if !t.cx.entLe(st.cons, n, a) && !(b != nil && t.cx.entLe(st.cons, b, a)) {
		keepHead := t.cx.entLe(st.cons, K(0), a) && t.cx.entLe(st.cons, a, n)
		if keepHead {
			h := t.sub(st, o.content, K(0), a)
			s := t.opq(why, o.content.prov()|provUnknown)
			s.n = n.Sub(a)
			var tail rope
			if b != nil && t.cx.entLe(st.cons, b, n) {
				s.n = b.Sub(a)
				tail = t.sub(st, o.content, b, n)
			}
			o.content = append(append(append(rope(nil), h...), s), tail...)
		} else {
			s := t.opq(why, o.content.prov()|provUnknown)
			s.n = n
			o.content = rope{s}
		}
	}
	if o.parent != 0 && o.parent != from {
		pb := b
		if pb != nil {
			pb = pb.Add(o.poff)
		}
		t.clobber(st, o.parent, a.Add(o.poff), pb, why, id)
	}
	for _, k := range o.kids {
		if k == from {
			continue
		}
		c := st.objs[k]
		kb := b
		if kb != nil {
			kb = kb.Sub(c.poff)
		}
		// ranges before the kid's start do not matter, keep it simple
		ka := a.Sub(c.poff)
		if !t.cx.entLe(st.cons, K(0), ka) {
			ka = K(0)
		}
		t.clobber(st, k, ka, kb, why, id)
	}
}

func (t *Text) appendBytes(st *tState, base tval, add rope) tval {
	var b *tBytes
	switch x := base.(type) {
	case *tBytes:
		b = x
	case tNil:
		b = &tBytes{}
	default:
		r, _ := t.bytesRope(st, base)
		return t.newObj(st, r.cat(add, t.eq(st)))
	}
	if b.obj == 0 {
		return t.newObj(st, add)
	}
	r, _ := t.bytesRope(st, b)
	e := b.off.Add(b.len)
	n := add.size()
	if k, ok := n.isConst(); !ok || k > 0 {
		t.clobber(st, b.obj, e, e.Add(n), "overwritten by append", 0)
	}
	v := t.newObj(st, r.cat(add, t.eq(st)))
	st.objs[v.obj].parent = b.obj
	st.objs[v.obj].poff = b.off
	st.objs[b.obj].kids = append(st.objs[b.obj].kids, v.obj)
	return v
}

// prov: where a value may come from.
func (t *Text) prov(st *tState, v tval) int {
	return t.provD(st, v, 0)
}

func (t *Text) provD(st *tState, v tval, d int) int {
	if d > 6 {
		return 0
	}
	switch x := v.(type) {
	case *tStr:
		return x.r.prov()
	case *tBytes:
		r, _ := t.bytesRope(st, x)
		return r.prov()
	case *tOpq:
		return x.prov
	case *tList:
		p := x.prov
		for _, e := range x.elems {
			p |= t.provD(st, e, d+1)
		}
		return p
	case *tFile:
		if x.name == "<stdin>" {
			return provStdin
		}
		if x.mode == 'r' {
			return provFile
		}
	case *tStruct:
		p := 0
		for _, e := range x.f {
			p |= t.provD(st, e, d+1)
		}
		return p
	case *tPtr:
		p := 0
		for k, c := range st.cells {
			if k == x.cell || strings.HasPrefix(k, x.cell+".") {
				p |= t.provD(st, c, d+1)
			}
		}
		return p
	}
	return 0
}

// ---- values ----

func (t *Text) zero(ty types.Type) tval {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &tStr{}
		case u.Info()&types.IsBoolean != 0:
			return &tBool{known: true}
		case u.Info()&types.IsInteger != 0:
			return &tInt{K(0)}
		}
		return &tOpq{key: "zero"}
	case *types.Slice:
		if isByte(u.Elem()) {
			return &tBytes{}
		}
		return &tList{}
	case *types.Struct:
		s := &tStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, t.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &tStruct{}
		if u.Len() <= 4096 {
			for i := int64(0); i < u.Len(); i++ {
				s.f = append(s.f, t.zero(u.Elem()))
			}
		}
		return s
	case *types.Tuple:
		var tt tTuple
		for i := 0; i < u.Len(); i++ {
			tt = append(tt, t.zero(u.At(i).Type()))
		}
		return tt
	}
	return tNil{}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isErr(ty types.Type) bool {
	return types.Identical(ty, types.Universe.Lookup("error").Type())
}

func (t *Text) fresh(st *tState, ty types.Type, name string, prov int) tval {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &tStr{rope{t.opq(name, prov)}}
		case u.Info()&types.IsBoolean != 0:
			return &tBool{key: fmt.Sprintf("%s#%d", name, t.next())}
		case u.Info()&types.IsInteger != 0:
			lo, hi := int64(-1)<<40, int64(1)<<40
			if w, sg, ok := intType(ty); ok && w < 40 {
				lo, hi = typeRange(w, sg)
			}
			return &tInt{t.cx.Fresh(name, lo, hi).lin()}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return t.newObj(st, rope{t.opq(name, prov)})
		}
		return &tList{open: fmt.Sprintf("%s#%d", name, t.next()), prov: prov}
	case *types.Tuple:
		var tt tTuple
		for i := 0; i < u.Len(); i++ {
			tt = append(tt, t.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), prov))
		}
		return tt
	case *types.Struct:
		s := &tStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, t.fresh(st, u.Field(i).Type(), name, prov))
		}
		return s
	}
	if isErr(ty) {
		return &tErr{fmt.Sprintf("err:%s#%d", name, t.next())}
	}
	return &tOpq{key: fmt.Sprintf("%s#%d", name, t.next()), prov: prov}
}

func (t *Text) load(st *tState, cell string, ty types.Type) tval {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if v, ok := st.cells[cell]; ok {
			return v
		}
		s := &tStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, t.load(st, fmt.Sprintf("%s.%d", cell, i), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 4096 {
			return &tOpq{key: "array"}
		}
		s := &tStruct{}
		for i := int64(0); i < u.Len(); i++ {
			s.f = append(s.f, t.load(st, fmt.Sprintf("%s.%d", cell, i), u.Elem()))
		}
		return s
	}
	if v, ok := st.cells[cell]; ok {
		return v
	}
	if strings.HasPrefix(cell, "?") { // unknown memory
		switch u := ty.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				return &tBool{key: "deref:" + cell}
			}
			if u.Info()&types.IsString != 0 {
				return &tStr{rope{{kind: 'o', id: "deref:" + cell, n: t.cx.Opq("len:"+cell, nil, 0, maxCount).lin(), prov: t.provOf[cell]}}}
			}
		}
		v := t.fresh(st, ty, "deref:"+cell, provUnknown)
		st.cells[cell] = v
		return v
	}
	return t.zero(ty)
}

func (t *Text) store(st *tState, cell string, v tval, ty types.Type) {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			var f tval = t.zero(u.Field(i).Type())
			if s, ok := v.(*tStruct); ok && i < len(s.f) {
				f = s.f[i]
			} else if _, isNil := v.(tNil); !isNil {
				f = t.fresh(st, u.Field(i).Type(), "field", t.prov(st, v))
			}
			t.store(st, fmt.Sprintf("%s.%d", cell, i), f, u.Field(i).Type())
		}
		return
	case *types.Array:
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			var f tval
			if s, ok := v.(*tStruct); ok && int(i) < len(s.f) {
				f = s.f[i]
			} else {
				f = t.fresh(st, u.Elem(), "elem", t.prov(st, v))
			}
			t.store(st, fmt.Sprintf("%s.%d", cell, i), f, u.Elem())
		}
		return
	}
	st.cells[cell] = v
}

func (t *Text) val(fr *tFrame, v ssa.Value) tval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return t.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.String:
			return &tStr{constRope(constant.StringVal(x.Value))}
		case constant.Bool:
			return &tBool{known: true, val: constant.BoolVal(x.Value)}
		case constant.Int:
			if i, ok := constant.Int64Val(x.Value); ok {
				return &tInt{K(i)}
			}
		}
		return &tOpq{key: "const:" + x.Value.ExactString()}
	case *ssa.Global:
		return &tPtr{"g:" + x.Pkg.Pkg.Path() + "." + x.Name()}
	case *ssa.Function:
		return &tFn{fn: x}
	case *ssa.Builtin:
		return &tOpq{key: "builtin"}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return &tOpq{key: "undef:" + v.Name(), prov: provUnknown}
}

func valKey(v tval) string {
	switch x := v.(type) {
	case *tStr:
		return x.r.key()
	case *tInt:
		return x.l.String()
	case *tBool:
		if x.known {
			return fmt.Sprint(x.val)
		}
		return fmt.Sprint(x.neg, x.key, x.op, x.lin)
	case *tBytes:
		return fmt.Sprintf("obj%d[%v+%v]", x.obj, x.off, x.len)
	case *tPtr:
		return "&" + x.cell
	case *tFile:
		return "file:" + string(x.mode) + x.name
	case *tErr:
		return x.key
	case *tOpq:
		return x.key
	case *tList:
		p := []string{x.open}
		for _, e := range x.elems {
			p = append(p, valKey(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case *tStruct:
		var p []string
		for _, e := range x.f {
			p = append(p, valKey(e))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *tFn:
		return x.fn.String()
	case tTuple:
		var p []string
		for _, e := range x {
			p = append(p, valKey(e))
		}
		return "(" + strings.Join(p, ",") + ")"
	case tNil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

// ---- execution ----

func (t *Text) call(fn *ssa.Function, st *tState, args, fv []tval) []tOut {
	t.depth++
	defer func() { t.depth-- }()
	if t.depth > 24 {
		panic(abortErr{"call depth at " + fn.String()})
	}
	fr := &tFrame{fn: fn, env: map[ssa.Value]tval{}, st: st, block: fn.Blocks[0], visits: map[*ssa.BasicBlock]int{}, sum: map[*ssa.BasicBlock]bool{}, id: t.next()}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fv) {
			fr.env[p] = fv[i]
		}
	}
	outs, _, _ := t.exec([]*tFrame{fr}, nil)
	return outs
}

// exec runs frames until they return; within a loop (lp) frames that reach the
// header again or leave the loop are handed back.
func (t *Text) exec(work []*tFrame, lp *loopInfo) (outs []tOut, backs, exits []*tFrame) {
	for len(work) > 0 {
		fr := work[len(work)-1]
		work = work[:len(work)-1]
		if t.paths++; t.paths > t.maxPaths {
			panic(abortErr{"too many paths"})
		}
	blocks:
		for {
			lf := t.loopsOf(fr.fn)
			if l := lf.byHeader[fr.block]; l != nil && (lp == nil || l.header != lp.header) && (fr.prev == nil || !l.blocks[fr.prev]) {
				// entering a loop
				o, ex := t.loop(fr, l)
				outs = append(outs, o...)
				for _, e := range ex {
					if lp != nil && !lp.blocks[e.block] {
						exits = append(exits, e)
					} else if lp != nil && e.block == lp.header {
						backs = append(backs, e)
					} else {
						work = append(work, e)
					}
				}
				break blocks
			}
			// phis
			t.phis(fr)
			var i int
			for i = 0; i < len(fr.block.Instrs); i++ {
				if _, ok := fr.block.Instrs[i].(*ssa.Phi); !ok {
					break
				}
			}
			nf, o := t.instrs(fr, i)
			outs = append(outs, o...)
			for _, f := range nf {
				// each f sits at the end of its block with a successor chosen
				if lp != nil && f.block == lp.header {
					backs = append(backs, f)
				} else if lp != nil && !lp.blocks[f.block] {
					exits = append(exits, f)
				} else {
					work = append(work, f)
				}
			}
			break blocks
		}
	}
	return
}

func (t *Text) loopsOf(fn *ssa.Function) *loopForest {
	if f, ok := t.loops[fn]; ok {
		return f
	}
	f := findLoops(fn)
	t.loops[fn] = f
	return f
}

func (t *Text) phis(fr *tFrame) {
	if fr.prev == nil {
		return
	}
	idx := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			idx = i
		}
	}
	var ps []*ssa.Phi
	var vs []tval
	for _, p := range phisOf(fr.block) {
		ps = append(ps, p)
		vs = append(vs, t.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

// instrs runs a block from instruction i; returned frames have moved to a
// successor block.
func (t *Text) instrs(fr *tFrame, i int) (next []*tFrame, outs []tOut) {
	for ; i < len(fr.block.Instrs); i++ {
		if t.steps++; t.steps > t.maxSteps {
			panic(abortErr{"analysis budget exhausted"})
		}
		if t.steps&255 == 0 {
			t.cx.tick()
		}
		switch x := fr.block.Instrs[i].(type) {
		case *ssa.Jump:
			fr.prev, fr.block = fr.block, fr.block.Succs[0]
			return []*tFrame{fr}, outs
		case *ssa.If:
			a, b := fr.block.Succs[0], fr.block.Succs[1]
			c := t.val(fr, x.Cond)
			if k, ok := c.(*tBool); ok && k.known {
				fr.prev, fr.block = fr.block, b
				if k.val {
					fr.block = a
				}
				return append(next, fr), outs
			}
			ft := fr.clone()
			okT := t.assume(fr.st, c, true)
			okF := t.assume(ft.st, c, false)
			if okF {
				ft.prev, ft.block = ft.block, b
				next = append(next, ft)
			}
			if okT {
				fr.prev, fr.block = fr.block, a
				next = append(next, fr)
			}
			return next, outs
		case *ssa.Return:
			var r tval
			if len(x.Results) == 1 {
				r = t.val(fr, x.Results[0])
			} else if len(x.Results) > 1 {
				var tt tTuple
				for _, v := range x.Results {
					tt = append(tt, t.val(fr, v))
				}
				r = tt
			}
			return next, append(outs, tOut{fr.st, r, "", x.Pos()})
		case *ssa.Panic:
			return next, append(outs, tOut{fr.st, nil, "panic", x.Pos()})
		case *ssa.RunDefers:
			cur := []*tFrame{fr}
			ds := fr.defers
			for k := len(ds) - 1; k >= 0; k-- {
				var nc []*tFrame
				for _, f := range cur {
					for _, o := range t.callCommon(f, &ds[k].Call, ds[k].Pos(), types.NewTuple()) {
						if o.end != "" {
							outs = append(outs, o)
							continue
						}
						g := f.clone()
						g.st = o.st
						nc = append(nc, g)
					}
				}
				cur = nc
			}
			if len(cur) != 1 {
				for _, f := range cur {
					f.defers = nil
					n, o := t.instrs(f, i+1)
					next = append(next, n...)
					outs = append(outs, o...)
				}
				return next, outs
			}
			fr = cur[0]
			fr.defers = nil
		case *ssa.Defer:
			fr.defers = append(fr.defers, x)
		case *ssa.Call:
			os := t.callCommon(fr, &x.Call, x.Pos(), x.Type())
			var live []tOut
			for _, o := range os {
				if o.end != "" {
					outs = append(outs, o)
				} else {
					live = append(live, o)
				}
			}
			if len(live) == 0 {
				return next, outs
			}
			if len(live) == 1 {
				fr.st = live[0].st
				fr.env[x] = live[0].ret
				continue
			}
			for _, o := range live {
				f := fr.clone()
				f.st = o.st
				f.env[x] = o.ret
				n, os := t.instrs(f, i+1)
				next = append(next, n...)
				outs = append(outs, os...)
			}
			return next, outs
		default:
			t.instr(fr, x)
		}
	}
	return next, outs
}

// assume adds a condition; false: contradiction.
func (t *Text) assume(st *tState, c tval, want bool) bool {
	b, ok := c.(*tBool)
	if !ok {
		return true
	}
	if b.known {
		return b.val == want
	}
	if b.key != "" {
		w := want != b.neg
		if v, ok := st.bools[b.key]; ok {
			return v == w
		}
		// exclusive prefixes of one text
		if w && strings.HasPrefix(b.key, "hp:") {
			p := strings.SplitN(b.key[3:], "|", 2)
			for k, v := range st.bools {
				if v && strings.HasPrefix(k, "hp:"+p[0]+"|") {
					q := k[len("hp:"+p[0]+"|"):]
					if !strings.HasPrefix(q, p[1]) && !strings.HasPrefix(p[1], q) {
						return false
					}
				}
			}
		}
		st.bools[b.key] = w
		return true
	}
	op, l := b.op, b.lin
	if !want {
		switch op {
		case token.LEQ:
			op, l = token.LEQ, l.Scale(-1).AddK(1)
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.LEQ:
		st.cons = st.cons.add(l, false)
	case token.EQL:
		st.cons = st.cons.add(l, true)
	case token.NEQ:
		if t.cx.entEq(st.cons, l, K(0)) {
			return false
		}
		if t.cx.entLe(st.cons, K(0), l) {
			st.cons = st.cons.add(l.Scale(-1).AddK(1), false)
		} else if t.cx.entLe(st.cons, l, K(0)) {
			st.cons = st.cons.add(l.AddK(1), false)
		}
	}
	return !t.cx.unsat(st.cons)
}

func (t *Text) cmp(st *tState, op token.Token, a, b tval) tval {
	if x, ok := a.(*tInt); ok {
		if y, ok := b.(*tInt); ok {
			d := x.l.Sub(y.l)
			var r *tBool
			switch op {
			case token.LSS:
				r = &tBool{op: token.LEQ, lin: d.AddK(1)}
			case token.LEQ:
				r = &tBool{op: token.LEQ, lin: d}
			case token.GTR:
				r = &tBool{op: token.LEQ, lin: d.Scale(-1).AddK(1)}
			case token.GEQ:
				r = &tBool{op: token.LEQ, lin: d.Scale(-1)}
			case token.EQL, token.NEQ:
				r = &tBool{op: op, lin: d}
			}
			if k, ok := r.lin.isConst(); ok {
				switch r.op {
				case token.LEQ:
					return &tBool{known: true, val: k <= 0}
				case token.EQL:
					return &tBool{known: true, val: k == 0}
				case token.NEQ:
					return &tBool{known: true, val: k != 0}
				}
			}
			return r
		}
	}
	if x, ok := a.(*tStr); ok {
		if y, ok := b.(*tStr); ok && (op == token.EQL || op == token.NEQ) {
			p, ok1 := x.r.constant()
			q, ok2 := y.r.constant()
			if ok1 && ok2 {
				return &tBool{known: true, val: (p == q) == (op == token.EQL)}
			}
			if ok1 && p == "" || ok2 && q == "" {
				l := x.r.size()
				if ok1 {
					l = y.r.size()
				}
				return t.cmp(st, op, &tInt{l}, &tInt{K(0)})
			}
			return &tBool{key: "eq:" + x.r.key() + "|" + y.r.key(), neg: op == token.NEQ}
		}
	}
	if x, ok := a.(*tBool); ok {
		if y, ok := b.(*tBool); ok && y.known {
			n := *x
			if y.val != (op == token.EQL) {
				return t.not(&n)
			}
			return &n
		}
	}
	nilOf := func(v tval) bool { _, ok := v.(tNil); return ok }
	if nilOf(b) || nilOf(a) {
		v := a
		if nilOf(a) {
			v = b
		}
		neg := op == token.EQL
		switch x := v.(type) {
		case tNil:
			return &tBool{known: true, val: op == token.EQL}
		case *tErr:
			return &tBool{key: x.key, neg: neg}
		case *tFile, *tPtr, *tFn:
			return &tBool{known: true, val: op != token.EQL}
		case *tOpq:
			return &tBool{key: "nonnil:" + x.key, neg: neg}
		}
	}
	if x, ok := a.(*tBytes); ok {
		if y, ok := b.(*tBytes); ok && y.obj == 0 {
			if x.obj == 0 {
				return &tBool{known: true, val: op == token.EQL}
			}
			return &tBool{key: fmt.Sprintf("nonnil:obj%d", x.obj), neg: op == token.EQL}
		}
	}
	return &tBool{key: fmt.Sprintf("cmp#%d", t.next())}
}

func (t *Text) not(b *tBool) *tBool {
	n := *b
	if n.known {
		n.val = !n.val
		return &n
	}
	if n.key != "" {
		n.neg = !n.neg
		return &n
	}
	switch n.op {
	case token.LEQ:
		n.lin = n.lin.Scale(-1).AddK(1)
	case token.EQL:
		n.op = token.NEQ
	case token.NEQ:
		n.op = token.EQL
	}
	return &n
}

func (t *Text) instr(fr *tFrame, ins ssa.Instruction) {
	st := fr.st
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		cell := fmt.Sprintf("c%d", t.next())
		t.cellType[cell] = types.TypeString(x.Type(), nil)
		t.cellGo[cell] = x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = &tPtr{cell}
	case *ssa.Store:
		p, ok := t.val(fr, x.Addr).(*tPtr)
		v := t.val(fr, x.Val)
		if !ok {
			if ba, isB := t.val(fr, x.Addr).(*tBytes); isB && ba.obj != 0 {
				t.clobber(st, ba.obj, ba.off, ba.off.AddK(1), "stored to", 0)
			}
			return
		}
		t.store(st, p.cell, v, x.Val.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			switch p := t.val(fr, x.X).(type) {
			case *tPtr:
				if strings.HasPrefix(p.cell, "g:os.Std") {
					n := map[string]string{"g:os.Stdin": "<stdin>", "g:os.Stdout": "<stdout>", "g:os.Stderr": "<stderr>"}[p.cell]
					m := byte('w')
					if n == "<stdin>" {
						m = 'r'
					}
					fr.env[x] = &tFile{name: n, mode: m}
					return
				}
				if strings.HasPrefix(p.cell, "g:") {
					if _, ok := st.cells[p.cell]; !ok {
						g, isG := x.X.(*ssa.Global)
						if isG && !t.prog.isRepo(g.Pkg) {
							if isErr(x.Type()) {
								fr.env[x] = &tErr{"sentinel:" + p.cell}
							} else {
								fr.env[x] = &tOpq{key: p.cell}
							}
							return
						}
					}
				}
				fr.env[x] = t.load(st, p.cell, x.Type())
			case *tOpq:
				t.provOf["?"+p.key] = p.prov
				fr.env[x] = t.load(st, "?"+p.key, x.Type())
			case *tBytes:
				r := t.sub(st, st.objs[p.obj].content, p.off, p.off.AddK(1))
				if s, ok := r.constant(); ok && len(s) == 1 {
					fr.env[x] = &tInt{K(int64(s[0]))}
				} else {
					fr.env[x] = &tInt{t.cx.Fresh("byte", 0, 255).lin()}
				}
			default:
				fr.env[x] = t.fresh(st, x.Type(), "load", provUnknown)
			}
		case token.NOT:
			if b, ok := t.val(fr, x.X).(*tBool); ok {
				fr.env[x] = t.not(b)
			} else {
				fr.env[x] = t.fresh(st, x.Type(), "not", 0)
			}
		case token.SUB:
			if v, ok := t.val(fr, x.X).(*tInt); ok {
				fr.env[x] = &tInt{v.l.Scale(-1)}
			} else {
				fr.env[x] = t.fresh(st, x.Type(), "neg", 0)
			}
		default:
			fr.env[x] = t.fresh(st, x.Type(), "unop", t.prov(st, t.val(fr, x.X)))
		}
	case *ssa.BinOp:
		a, b := t.val(fr, x.X), t.val(fr, x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			fr.env[x] = t.cmp(st, x.Op, a, b)
			return
		case token.ADD:
			if p, ok := a.(*tStr); ok {
				if q, ok := b.(*tStr); ok {
					fr.env[x] = &tStr{p.r.cat(q.r, t.eq(st))}
					return
				}
			}
		}
		p, ok1 := a.(*tInt)
		q, ok2 := b.(*tInt)
		if ok1 && ok2 {
			w, sg, _ := intType(x.Type())
			var r *Lin
			pk, pc := p.l.isConst()
			qk, qc := q.l.isConst()
			switch x.Op {
			case token.ADD:
				r = p.l.Add(q.l)
			case token.SUB:
				r = p.l.Sub(q.l)
			case token.MUL:
				if qc {
					r = p.l.Scale(qk)
				} else if pc {
					r = q.l.Scale(pk)
				}
			case token.SHL:
				if qc && qk < 40 {
					r = p.l.Scale(1 << uint(qk))
				}
			case token.QUO:
				if pc && qc && qk != 0 {
					r = K(pk / qk)
				}
			case token.REM:
				if pc && qc && qk != 0 {
					r = K(pk % qk)
				}
			case token.AND, token.OR, token.XOR, token.SHR, token.AND_NOT:
				if pc && qc {
					switch x.Op {
					case token.AND:
						r = K(pk & qk)
					case token.OR:
						r = K(pk | qk)
					case token.XOR:
						r = K(pk ^ qk)
					case token.AND_NOT:
						r = K(pk &^ qk)
					default:
						if qk >= 63 {
							qk = 63
						}
						r = K(pk >> uint(qk))
					}
				}
			}
			if r != nil && w < 64 {
				lo, hi := typeRange(w, sg)
				if k, ok := r.isConst(); ok {
					m := int64(1) << uint(w)
					k = ((k-lo)%m+m)%m + lo
					r = K(k)
				} else if rl, rh := r.Range(); rl < lo || rh > hi {
					r = nil
				}
			}
			if r != nil {
				fr.env[x] = &tInt{r}
				return
			}
		}
		fr.env[x] = t.fresh(st, x.Type(), "binop", t.prov(st, a)|t.prov(st, b))
	case *ssa.Convert:
		v := t.val(fr, x.X)
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		if s, ok := to.(*types.Slice); ok && isByte(s.Elem()) {
			if p, ok := v.(*tStr); ok {
				fr.env[x] = t.newObj(st, p.r)
				return
			}
		}
		if bt, ok := to.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			switch p := v.(type) {
			case *tBytes:
				r, _ := t.bytesRope(st, p)
				fr.env[x] = &tStr{r}
				return
			case *tStr:
				fr.env[x] = p
				return
			case *tInt:
				if k, ok := p.l.isConst(); ok {
					fr.env[x] = &tStr{constRope(string(rune(k)))}
					return
				}
			}
		}
		if p, ok := v.(*tInt); ok {
			w, sg, ok := intType(x.Type())
			if ok {
				lo, hi := typeRange(w, sg)
				if k, isC := p.l.isConst(); isC && w < 64 {
					m := int64(1) << uint(w)
					fr.env[x] = &tInt{K(((k-lo)%m+m)%m + lo)}
					return
				}
				if w == 64 || t.cx.entLe(st.cons, p.l, K(hi)) && t.cx.entLe(st.cons, K(lo), p.l) {
					fr.env[x] = p
					return
				}
			}
		}
		_ = from
		fr.env[x] = t.fresh(st, x.Type(), "convert", t.prov(st, v))
	case *ssa.ChangeType:
		fr.env[x] = t.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = t.val(fr, x.X)
	case *ssa.MakeInterface:
		v := t.val(fr, x.X)
		if i, ok := v.(*tInt); ok && t.dyn != nil {
			n := *i
			t.dyn[&n] = x.X.Type()
			v = &n
		}
		fr.env[x] = v
	case *ssa.TypeAssert:
		v := t.val(fr, x.X)
		if x.CommaOk {
			fr.env[x] = tTuple{v, &tBool{key: fmt.Sprintf("assert#%d", t.next())}}
		} else {
			fr.env[x] = v
		}
	case *ssa.Extract:
		if tt, ok := t.val(fr, x.Tuple).(tTuple); ok && x.Index < len(tt) {
			fr.env[x] = tt[x.Index]
		} else {
			fr.env[x] = t.fresh(st, x.Type(), "extract", t.prov(st, t.val(fr, x.Tuple)))
		}
	case *ssa.MakeClosure:
		f := &tFn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.fv = append(f.fv, t.val(fr, b))
		}
		fr.env[x] = f
	case *ssa.FieldAddr:
		switch p := t.val(fr, x.X).(type) {
		case *tPtr:
			fr.env[x] = &tPtr{fmt.Sprintf("%s.%d", p.cell, x.Field)}
		case *tOpq:
			fr.env[x] = &tOpq{key: fmt.Sprintf("%s.%d", p.key, x.Field), prov: p.prov}
		default:
			fr.env[x] = &tOpq{key: fmt.Sprintf("field#%d", t.next()), prov: provUnknown}
		}
	case *ssa.Field:
		if s, ok := t.val(fr, x.X).(*tStruct); ok && x.Field < len(s.f) {
			fr.env[x] = s.f[x.Field]
		} else {
			fr.env[x] = t.fresh(st, x.Type(), "field", provUnknown)
		}
	case *ssa.Index:
		if s, ok := t.val(fr, x.X).(*tStruct); ok {
			if i, ok := t.val(fr, x.Index).(*tInt); ok {
				if k, ok := i.l.isConst(); ok && k >= 0 && int(k) < len(s.f) {
					fr.env[x] = s.f[k]
					return
				}
			}
		}
		fr.env[x] = t.fresh(st, x.Type(), "index", t.prov(st, t.val(fr, x.X)))
	case *ssa.IndexAddr:
		i, _ := t.val(fr, x.Index).(*tInt)
		switch p := t.val(fr, x.X).(type) {
		case *tPtr:
			if i != nil {
				if k, ok := i.l.isConst(); ok {
					fr.env[x] = &tPtr{fmt.Sprintf("%s.%d", p.cell, k)}
					return
				}
			}
			fr.env[x] = &tOpq{key: fmt.Sprintf("elem#%d", t.next()), prov: t.prov(st, p) | provUnknown}
		case *tBytes:
			if i != nil && p.obj != 0 {
				fr.env[x] = &tBytes{obj: p.obj, off: p.off.Add(i.l), len: K(1)}
				return
			}
			fr.env[x] = &tOpq{key: "nilindex", prov: provUnknown}
		case *tList:
			if i != nil && p.open == "" {
				if k, ok := i.l.isConst(); ok && k >= 0 && int(k) < len(p.elems) {
					cell := fmt.Sprintf("l%d", t.next())
					st.cells[cell] = p.elems[k]
					if s, ok := p.elems[k].(*tStruct); ok {
						et := x.Type().Underlying().(*types.Pointer).Elem()
						delete(st.cells, cell)
						t.store(st, cell, s, et)
					}
					fr.env[x] = &tPtr{cell}
					return
				}
			}
			fr.env[x] = &tOpq{key: fmt.Sprintf("elem#%d", t.next()), prov: t.prov(st, p)}
		default:
			fr.env[x] = &tOpq{key: fmt.Sprintf("elem#%d", t.next()), prov: t.prov(st, p) | provUnknown}
		}
	case *ssa.Slice:
		t.slice(fr, x)
	case *ssa.MakeSlice:
		n, _ := t.val(fr, x.Len).(*tInt)
		if isByte(x.Type().Underlying().(*types.Slice).Elem()) && n != nil {
			if k, ok := n.l.isConst(); ok && k == 0 {
				fr.env[x] = t.newObj(st, nil)
				return
			}
			s := t.opq("zeros", 0)
			s.n = n.l
			fr.env[x] = t.newObj(st, rope{s})
			return
		}
		if n != nil {
			if k, ok := n.l.isConst(); ok && k <= 4096 {
				l := &tList{}
				for i := int64(0); i < k; i++ {
					l.elems = append(l.elems, t.zero(x.Type().Underlying().(*types.Slice).Elem()))
				}
				fr.env[x] = l
				return
			}
		}
		fr.env[x] = t.fresh(st, x.Type(), "make", 0)
	case *ssa.Range:
		fr.env[x] = &tOpq{key: fmt.Sprintf("range#%d", t.next()), prov: t.prov(st, t.val(fr, x.X))}
	case *ssa.Next:
		fr.env[x] = t.fresh(st, x.Type(), "next", t.prov(st, t.val(fr, x.Iter)))
	case *ssa.Go, *ssa.Send, *ssa.Select:
		panic(abortErr{"concurrency is not analysed at " + t.prog.pos(ins.Pos())})
	case *ssa.MapUpdate:
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = t.fresh(st, v.Type(), "value", provUnknown)
		}
	}
}

func (t *Text) slice(fr *tFrame, x *ssa.Slice) {
	st := fr.st
	v := t.val(fr, x.X)
	bound := func(b ssa.Value, d *Lin) *Lin {
		if b == nil {
			return d
		}
		if i, ok := t.val(fr, b).(*tInt); ok {
			return i.l
		}
		return nil
	}
	in := func(a, b, n *Lin) {
		for _, e := range []*Lin{a.Scale(-1), a.Sub(b), b.Sub(n)} {
			if !t.cx.entails(st.cons, e) {
				if t.touched(st) {
					t.report("panic", fr.fn, x.Pos(), "a slice bound that is not established, after the file was truncated")
				}
				st.cons = st.cons.add(e, false)
			}
		}
	}
	switch p := v.(type) {
	case *tStr:
		n := p.r.size()
		a, b := bound(x.Low, K(0)), bound(x.High, n)
		if a != nil && b != nil {
			in(a, b, n)
			fr.env[x] = &tStr{t.sub(st, p.r, a, b)}
			return
		}
	case *tBytes:
		if p.obj == 0 {
			fr.env[x] = p
			return
		}
		a, b := bound(x.Low, K(0)), bound(x.High, p.len)
		if a != nil && b != nil {
			total := st.objs[p.obj].content.size().Sub(p.off)
			if t.cx.entLe(st.cons, b, total) || x.High == nil {
				in(a, b, total)
				fr.env[x] = &tBytes{obj: p.obj, off: p.off.Add(a), len: b.Sub(a)}
				return
			}
			if b == nil || x.High != nil {
				// may reach into spare capacity
				in(a, b, b)
				if t.cx.entLe(st.cons, p.len, total) {
					// assume within the slice: a bound beyond it is spare capacity
					if t.mayExceed(st, b, p.len) {
						fr.env[x] = t.newObj(st, rope{t.opq("resliced", t.prov(st, p)|provUnknown)})
						return
					}
				}
				fr.env[x] = &tBytes{obj: p.obj, off: p.off.Add(a), len: b.Sub(a)}
				return
			}
		}
	case *tPtr: // array
		at, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			break
		}
		arr, ok := at.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		a, b := bound(x.Low, K(0)), bound(x.High, K(arr.Len()))
		if a == nil || b == nil {
			break
		}
		i, ok1 := a.isConst()
		j, ok2 := b.isConst()
		if !ok1 || !ok2 || i < 0 || j > arr.Len() || i > j {
			break
		}
		if isByte(arr.Elem()) {
			var r rope
			for k := i; k < j; k++ {
				e, ok := t.load(st, fmt.Sprintf("%s.%d", p.cell, k), arr.Elem()).(*tInt)
				var s rope
				if ok {
					if c, ok := e.l.isConst(); ok {
						s = constRope(string([]byte{byte(c)}))
					}
				}
				if s == nil {
					o := t.opq("byte", provUnknown)
					o.n = K(1)
					s = rope{o}
				}
				r = r.cat(s, t.eq(st))
			}
			fr.env[x] = t.newObj(st, r)
			return
		}
		l := &tList{}
		for k := i; k < j; k++ {
			l.elems = append(l.elems, t.load(st, fmt.Sprintf("%s.%d", p.cell, k), arr.Elem()))
		}
		fr.env[x] = l
		return
	case *tList:
		a, b := bound(x.Low, K(0)), x.High
		if a != nil && b == nil {
			if i, ok := a.isConst(); ok && p.open == "" && i >= 0 && int(i) <= len(p.elems) {
				fr.env[x] = &tList{elems: p.elems[i:]}
				return
			}
			if i, ok := a.isConst(); ok && i == 0 {
				fr.env[x] = p
				return
			}
		}
		if a != nil && b != nil && p.open == "" {
			i, ok1 := a.isConst()
			if j, ok := bound(x.High, nil).isConst(); ok && ok1 && i >= 0 && i <= j && int(j) <= len(p.elems) {
				fr.env[x] = &tList{elems: p.elems[i:j:j]}
				return
			}
		}
	}
	fr.env[x] = t.fresh(st, x.Type(), "slice", t.prov(st, v)|provUnknown)
}

func (t *Text) mayExceed(st *tState, a, n *Lin) bool { return !t.cx.entLe(st.cons, a, n) }

func (t *Text) touched(st *tState) bool {
	for n, f := range st.files {
		if f.trunc && !strings.HasPrefix(n, "<") {
			return true
		}
	}
	return false
}

func (t *Text) report(cat string, fn *ssa.Function, pos token.Pos, msg string) {
	f := Finding{cat, fn.RelString(nil), t.prog.pos(pos), msg}
	for _, x := range t.bad {
		if x == f {
			return
		}
	}
	t.bad = append(t.bad, f)
}

// ---- loops ----

func (t *Text) loop(fr *tFrame, l *loopInfo) (outs []tOut, exits []*tFrame) {
	// decided loops are unrolled
	save := t.seq
	cur := []*tFrame{fr.clone()}
	var uo []tOut
	var ue []*tFrame
	ok := true
	for n := 0; len(cur) > 0; n++ {
		if n > t.unrollN {
			ok = false
			break
		}
		var next []*tFrame
		for _, h := range cur {
			o, b, e := t.exec([]*tFrame{h}, &loopInfo{header: l.header, blocks: l.blocks, latch: l.latch})
			uo = append(uo, o...)
			ue = append(ue, e...)
			next = append(next, b...)
			if len(b) > 0 && len(e) > 0 && !t.sameOrigin(l, h, b, e) {
				ok = false
			}
		}
		if len(next) > 8 {
			ok = false
		}
		if !ok {
			break
		}
		cur = next
	}
	if ok {
		return uo, ue
	}
	_ = save
	return t.summarise(fr, l)
}

// sameOrigin: whether leaving was decided by the data only through early
// exits (a search loop over a constant list), in which case unrolling is fine.
func (t *Text) sameOrigin(l *loopInfo, h *tFrame, backs, exits []*tFrame) bool {
	// the header condition itself must be decided: exits leave from the body
	for _, e := range exits {
		if e.prev == l.header {
			return false
		}
	}
	return true
}

func (t *Text) summarise(fr *tFrame, l *loopInfo) (outs []tOut, exits []*tFrame) {
	ps := phisOf(l.header)
	// entry values
	entry := fr.clone()
	t.phis(entry)
	opaqueCell := map[string]int{} // 1: grows, 2: changes
	opaquePhi := map[*ssa.Phi]bool{}
	lostProv := map[string]int{}
	lostScan := map[string]bool{}
	for round := 0; round < 10; round++ {
		h := entry.clone()
		h.prev = nil
		phi0 := map[*ssa.Phi]tval{}
		segOf := map[string]*seg{}
		gen := func(key string, v tval, opaque bool, ty types.Type, name string) (tval, *seg) {
			if !opaque {
				switch x := v.(type) {
				case *tStr:
					s := t.opq("loop."+name, 0)
					return &tStr{append(append(rope(nil), x.r...), s)}, &s
				case *tBytes:
					r, _ := t.bytesRope(h.st, x)
					s := t.opq("loop."+name, 0)
					return t.newObj(h.st, append(append(rope(nil), r...), s)), &s
				case *tList:
					id := fmt.Sprintf("loop.%s#%d", name, t.next())
					return &tList{open: id, prov: x.prov | t.prov(h.st, x)}, &seg{id: id}
				}
			}
			return t.fresh(h.st, ty, "loop."+name, lostProv[key]), nil
		}
		for _, p := range ps {
			v, s := gen(fmt.Sprintf("%p", p), entry.env[p], opaquePhi[p], p.Type(), p.Comment)
			h.env[p] = v
			phi0[p] = v
			if s != nil {
				segOf[fmt.Sprintf("%p", p)] = s
			}
		}
		cellV := map[string]tval{}
		for c := range h.st.cells {
			if lostScan[c] {
				delete(h.st.cells, c)
			}
		}
		for c, lvl := range opaqueCell {
			v0, ok := entry.st.cells[c]
			if !ok {
				v0 = &tStr{} // a buffer that is still empty
				if !strings.HasSuffix(c, ".buf") {
					continue
				}
			}
			v, s := gen("cell:"+c, v0, lvl == 2, t.typeOfVal(v0), "cell")
			h.st.cells[c] = v
			cellV[c] = v
			if s != nil {
				segOf["cell:"+c] = s
			}
		}
		o, backs, ex := t.execFrom(h, l)
		// check the back states
		again := false
		var lines []loopLine
		ext := func(before, after tval, st *tState) (rope, []tval, bool) {
			switch b := before.(type) {
			case *tStr, *tBytes:
				br, _ := t.bytesRope(st, b)
				if bb, isB := b.(*tBytes); isB {
					_ = bb
				}
				ar, ok := t.bytesRope(st, after)
				if !ok || len(ar) < len(br) {
					return nil, nil, false
				}
				for i := range br {
					if ar[i].key() != br[i].key() {
						if i == len(br)-1 && br[i].kind == 'c' && ar[i].kind == 'c' && strings.HasPrefix(ar[i].s, br[i].s) {
							rest := constRope(ar[i].s[len(br[i].s):])
							return append(rest, ar[i+1:]...), nil, true
						}
						return nil, nil, false
					}
				}
				return ar[len(br):], nil, true
			case *tList:
				a, ok := after.(*tList)
				if !ok || a.open != b.open || len(a.elems) < len(b.elems) {
					return nil, nil, false
				}
				return nil, a.elems[len(b.elems):], true
			}
			return nil, nil, valKey(before) == valKey(after)
		}
		provAdd := map[string]int{}
		nlAll := map[string]bool{}
		for _, b := range backs {
			idx := -1
			for i, p := range l.header.Preds {
				if p == b.prev {
					idx = i
				}
			}
			ll := loopLine{lists: map[string][]tval{}, bools: b.st.bools, entry: map[string]bool{}, pos: t.prog.blockPos(l.header)}
			for k := range entry.st.bools {
				ll.entry[k] = true
			}
			one := func(name string, s *seg, before, after tval) bool {
				r, el, ok := ext(before, after, b.st)
				if !ok {
					return false
				}
				if s != nil {
					p := r.prov()
					for _, e := range el {
						p |= t.prov(b.st, e)
					}
					provAdd[name] |= p
					if len(r) > 0 {
						last := r[len(r)-1]
						nl := last.kind == 'c' && strings.HasSuffix(last.s, "\n") || last.kind == 'o' && last.nl
						if v, ok := nlAll[name]; ok {
							nlAll[name] = v && nl
						} else {
							nlAll[name] = nl
						}
					}
					if _, isL := before.(*tList); isL {
						ll.lists[s.id] = el
					} else {
						for _, g := range r {
							ll.lists[s.id] = append(ll.lists[s.id], tExtra{rope{g}})
						}
					}
				}
				return true
			}
			for _, p := range ps {
				k := fmt.Sprintf("%p", p)
				if opaquePhi[p] {
					if q := t.prov(b.st, t.val(b, p.Edges[idx])); q&^lostProv[k] != 0 {
						lostProv[k] |= q
						again = true
					}
					continue
				}
				s := segOf[k]
				if s == nil {
					continue // already unknown
				}
				if v := t.val(b, p.Edges[idx]); !one(k, s, phi0[p], v) {
					opaquePhi[p] = true
					lostProv[k] |= t.prov(b.st, v)
					again = true
				}
			}
			// memory
			for c, v := range b.st.cells {
				ev, ok := entry.st.cells[c]
				if strings.HasPrefix(c, "~scan") {
					if !lostScan[c] && (!ok || valKey(ev) != valKey(v)) {
						lostScan[c] = true
						again = true
					}
					continue
				}
				if opaqueCell[c] != 0 {
					continue
				}
				if ok && valKey(ev) != valKey(v) || !ok && strings.HasSuffix(c, ".buf") && t.before(entry, c) {
					opaqueCell[c] = 1
					again = true
				}
			}
			for c, lvl := range opaqueCell {
				k := "cell:" + c
				if lvl == 2 {
					if q := t.prov(b.st, b.st.cells[c]); q&^lostProv[k] != 0 {
						lostProv[k] |= q
						again = true
					}
				} else if s := segOf[k]; s != nil {
					if !one(k, s, cellV[c], b.st.cells[c]) {
						opaqueCell[c] = 2
						lostProv[k] |= t.prov(b.st, b.st.cells[c])
						again = true
					}
				}
			}
			for id, o := range b.st.objs {
				if e := entry.st.objs[id]; e != nil && e.content.key() != o.content.key() {
					e.content = rope{t.opq("changed in loop", e.content.prov()|o.content.prov()|provUnknown)}
					again = true
				}
			}
			for n, f := range b.st.files {
				e := entry.st.files[n]
				if e == nil || e.content.key() != f.content.key() || e.trunc != f.trunc {
					if strings.HasPrefix(n, "<std") {
						continue
					}
					t.report("undecided", fr.fn, l.header.Instrs[0].Pos(), "a file is written inside a loop that could not be unrolled")
				}
			}
			lines = append(lines, ll)
		}
		if again {
			continue
		}
		// fill in provenance of what the loop adds
		fix := map[string]seg{}
		for k, s := range segOf {
			n := *s
			n.prov |= provAdd[k]
			n.nl = nlAll[k]
			t.provOf[n.id] = n.prov
			fix[s.id] = n
			t.appended[s.id] = lines
		}
		for _, e := range ex {
			t.patch(e, fix)
		}
		for i := range o {
			t.patchState(o[i].st, fix)
			o[i].ret = patchVal(o[i].ret, fix)
		}
		// assumptions about one iteration must not leak
		for _, e := range ex {
			e.visits = fr.visits
		}
		return o, ex
	}
	panic(abortErr{"loop at " + t.prog.blockPos(l.header) + " has no summary"})
}

// before: does a cell belong to memory that existed when the loop was entered?
func (t *Text) before(entry *tFrame, c string) bool {
	base := strings.SplitN(c, ".", 2)[0]
	if !strings.HasPrefix(base, "c") {
		return true
	}
	for _, v := range entry.env {
		if p, ok := v.(*tPtr); ok && strings.SplitN(p.cell, ".", 2)[0] == base {
			return true
		}
	}
	for _, v := range entry.st.cells {
		if p, ok := v.(*tPtr); ok && strings.SplitN(p.cell, ".", 2)[0] == base {
			return true
		}
	}
	return false
}

func (t *Text) execFrom(h *tFrame, l *loopInfo) ([]tOut, []*tFrame, []*tFrame) {
	h.prev = nil
	return t.exec([]*tFrame{h}, l)
}

func (t *Text) typeOfVal(v tval) types.Type {
	switch x := v.(type) {
	case *tStr:
		return types.Typ[types.String]
	case *tBytes:
		return types.NewSlice(types.Typ[types.Uint8])
	case *tInt:
		return types.Typ[types.Int]
	case *tBool:
		return types.Typ[types.Bool]
	case *tList:
		return types.NewSlice(types.Typ[types.String])
	case *tErr:
		_ = x
		return types.Universe.Lookup("error").Type()
	}
	return types.NewPointer(types.Typ[types.Int])
}

func patchRope(r rope, fix map[string]seg) rope {
	var out rope
	for _, s := range r {
		if f, ok := fix[s.id]; ok && s.kind == 'o' {
			s.prov, s.nl = f.prov, f.nl
		}
		out = append(out, s)
	}
	return out
}

func patchVal(v tval, fix map[string]seg) tval {
	switch x := v.(type) {
	case *tStr:
		return &tStr{patchRope(x.r, fix)}
	case *tList:
		n := *x
		if f, ok := fix[x.open]; ok {
			n.prov |= f.prov
		}
		n.elems = nil
		for _, e := range x.elems {
			n.elems = append(n.elems, patchVal(e, fix))
		}
		return &n
	}
	return v
}

func (t *Text) patchState(st *tState, fix map[string]seg) {
	for k, v := range st.cells {
		st.cells[k] = patchVal(v, fix)
	}
	for _, o := range st.objs {
		o.content = patchRope(o.content, fix)
	}
	for _, f := range st.files {
		f.content = patchRope(f.content, fix)
	}
}

func (t *Text) patch(f *tFrame, fix map[string]seg) {
	for k, v := range f.env {
		f.env[k] = patchVal(v, fix)
	}
	t.patchState(f.st, fix)
}

// ---- calls ----

func (t *Text) callCommon(fr *tFrame, cc *ssa.CallCommon, pos token.Pos, rt types.Type) []tOut {
	st := fr.st
	var args []tval
	for _, a := range cc.Args {
		args = append(args, t.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []tOut{{st, t.builtin(fr, b.Name(), cc, args), "", pos}}
	}
	if cc.IsInvoke() {
		recv := t.val(fr, cc.Value)
		if t.comps != nil {
			if o, ok := t.genMethod(fr, cc.Method.Name(), append([]tval{recv}, args...), pos, rt); ok {
				return o
			}
		}
		return t.method(fr, cc.Method.Name(), "", append([]tval{recv}, args...), pos, rt)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var fv []tval
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if f, ok := t.val(fr, mc).(*tFn); ok {
				fv = f.fv
			}
		}
		return t.dispatch(fr, fn, args, fv, pos, rt)
	}
	if f, ok := t.val(fr, cc.Value).(*tFn); ok {
		return t.dispatch(fr, f.fn, args, f.fv, pos, rt)
	}
	t.unknown["dynamic call at "+t.prog.pos(pos)] = true
	return []tOut{{st, t.fresh(st, rt, "dyn", provUnknown), "", pos}}
}

func (t *Text) builtin(fr *tFrame, name string, cc *ssa.CallCommon, args []tval) tval {
	st := fr.st
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *tStr:
			return &tInt{x.r.size()}
		case *tBytes:
			if x.obj == 0 {
				return &tInt{K(0)}
			}
			if name == "len" {
				return &tInt{x.len}
			}
		case *tList:
			if x.open == "" && name == "len" {
				return &tInt{K(int64(len(x.elems)))}
			}
			if name == "len" {
				return &tInt{t.cx.Opq("len:"+x.open, nil, 0, maxCount).lin().AddK(int64(len(x.elems)))}
			}
		case *tStruct:
			return &tInt{K(int64(len(x.f)))}
		}
		return &tInt{t.cx.Fresh("len", 0, maxCount).lin()}
	case "append":
		rs := cc.Signature().Results().At(0).Type().Underlying().(*types.Slice)
		if isByte(rs.Elem()) {
			r, _ := t.bytesRope(st, args[1])
			return t.appendBytes(st, args[0], r)
		}
		base, ok := args[0].(*tList)
		if _, isNil := args[0].(tNil); isNil {
			base, ok = &tList{}, true
		}
		add, ok2 := args[1].(*tList)
		if _, isNil := args[1].(tNil); isNil {
			add, ok2 = &tList{}, true
		}
		if ok && ok2 && add.open == "" {
			return &tList{open: base.open, prov: base.prov | t.prov(st, add), elems: append(append([]tval(nil), base.elems...), add.elems...)}
		}
		return t.fresh(st, rs, "append", t.prov(st, args[0])|t.prov(st, args[1]))
	case "copy":
		d, ok := args[0].(*tBytes)
		if !ok || d.obj == 0 {
			return &tInt{t.cx.Fresh("copied", 0, maxCount).lin()}
		}
		r, _ := t.bytesRope(st, args[1])
		n := r.size()
		o := st.objs[d.obj]
		tot := o.content.size()
		if t.cx.entLe(st.cons, n, d.len) && t.cx.entLe(st.cons, d.off.Add(n), tot) {
			// exact overwrite of [off, off+n)
			head := t.sub(st, o.content, K(0), d.off)
			tail := t.sub(st, o.content, d.off.Add(n), tot)
			t.clobber(st, d.obj, d.off, d.off.Add(n), "overwritten by copy", 0)
			o.content = head.cat(r, t.eq(st)).cat(tail, t.eq(st))
			return &tInt{n}
		}
		t.clobber(st, d.obj, d.off, d.off.Add(d.len), "overwritten by copy", 0)
		return &tInt{t.cx.Fresh("copied", 0, maxCount).lin()}
	case "print", "println", "close", "delete":
		return nil
	case "min", "max":
	}
	if cc.Signature().Results().Len() > 0 {
		return t.fresh(st, cc.Signature().Results().At(0).Type(), name, provUnknown)
	}
	return nil
}

func (t *Text) dispatch(fr *tFrame, fn *ssa.Function, args, fv []tval, pos token.Pos, rt types.Type) []tOut {
	if t.emit != nil {
		if o, ok := t.emit(t, fr, fn, args, pos); ok {
			return o
		}
	}
	if fn.Pkg == nil && fn.Signature.Recv() == nil && len(fn.Blocks) > 0 { // wrappers
		return t.call(fn, fr.st, args, fv)
	}
	if fn.Pkg != nil && t.prog.isRepo(fn.Pkg) && len(fn.Blocks) > 0 {
		return t.call(fn, fr.st, args, fv)
	}
	if fn.Signature.Recv() != nil {
		rn := types.TypeString(fn.Signature.Recv().Type(), nil)
		return t.method(fr, fn.Name(), rn, args, pos, rt)
	}
	return t.library(fr, fn, args, pos, rt)
}
