package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract interpreter over SSA
// ---------------------------------------------------------------------------

type Finding struct {
	Cat string // content, panic, asm-bounds, frame, ro-write, global-write, termination, ownership, undecided
	Fn  string
	Pos string
	Msg string
}

func (f Finding) String() string {
	return fmt.Sprintf("%s: [%s] %s: %s", f.Pos, f.Cat, f.Fn, f.Msg)
}

type abortErr struct{ why string }

type Interp struct {
	called                            map[*ssa.Function]bool // functions entered
	prog                              *Program
	cx                                *Ctx
	findings                          []Finding
	seen                              map[string]bool
	lossy                             bool
	muted                             int
	stack                             []string
	curFn                             *ssa.Function
	curPos                            token.Pos
	steps                             int
	maxSteps                          int
	objSeq                            int
	globals                           map[*ssa.Global]*Obj
	loops                             map[*ssa.Function]*loopForest
	inInit                            bool
	denseOnly                         bool
	unroll                            bool // plain unrolling only (constant counts)
	encFam                            string
	delta                             bool
	contracts                         func(it *Interp, fn *ssa.Function, st *State, args []Val, pos token.Pos) ([]Outcome, bool)
	accesses                          int
	loopsGeneralised, loopsUnrolled   int
	calls                             map[string]int
	depth                             int
	boundsChecked                     int
	retained                          []string
	initMem                           map[*Obj]*OMem
	calledAt                          []callSite // positions of the calls in progress (C22)
	entailed                          int        // symbolic branch conditions decided by the context
	forks                             int
	trace                             bool
	entryName                         string
	world                             *World
	contractUses, asmCalls, asmBounds int
	ext                               func(it *Interp, fn *ssa.Function, st *State, args []Val) ([]Outcome, bool)
	splitIdx                          bool // fork on indices with few possible values
	diffFam                           bool // differences of neighbours are words of family d
	varint                            bool // encoded numbers are varints
	onAsm                             func(it *Interp, fn *ssa.Function, f *AsmFn, st *State)
	fragile                           bool // give up when a coder does not meet its contract
	pure                              map[*ssa.Function]bool
	inPure                            bool         // exploring the paths of a pure call
	stop                              *atomic.Bool // set when nobody needs this run any more
}

// Time limits: a run that exceeds them is undecided. They are far above what
// the committed tree needs (a few seconds at most per run).
const (
	runLimit = 60 * time.Second
	allLimit = 600 * time.Second
)

var processStart = time.Now()

func deadlineFrom(now time.Time) time.Time {
	d := now.Add(runLimit)
	if all := processStart.Add(allLimit); d.After(all) {
		d = all
	}
	return d
}

type Outcome struct {
	st  *State
	ret Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	st     *State
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int // next instruction; 0 means phis are to be evaluated
	atHead bool
	defers []*ssa.Defer
	args   []Val
	dargs  [][]Val
}

func NewInterp(p *Program) *Interp {
	cx := NewCtx()
	cx.deadline = deadlineFrom(time.Now())
	return &Interp{prog: p, cx: cx, seen: map[string]bool{}, maxSteps: 20_000_000,
		globals: map[*ssa.Global]*Obj{}, loops: map[*ssa.Function]*loopForest{}, encFam: "in", calls: map[string]int{}}
}

func (it *Interp) report(st *State, cat, msg string) {
	if it.muted > 0 {
		return
	}
	if st != nil && it.cx.unsat(st.cons) {
		return
	}
	fn := "?"
	if it.curFn != nil {
		fn = it.curFn.RelString(nil)
	}
	pos := it.prog.pos(it.curPos)
	via := ""
	if len(it.stack) > 1 {
		via = " (via " + strings.Join(it.stack, " -> ") + ")"
	}
	if it.entryName != "" && !strings.HasSuffix(fn, it.entryName) {
		via += " [entry " + it.entryName + "]"
	}
	key := cat + "|" + fn + "|" + pos + "|" + it.entryName
	if it.seen[key] {
		return
	}
	it.seen[key] = true
	it.findings = append(it.findings, Finding{cat, fn, pos, msg + via})
}

func (it *Interp) abort(why string) { panic(abortErr{why}) }

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.st = fr.st.clone()
	n.defers = append([]*ssa.Defer(nil), fr.defers...)
	n.dargs = append([][]Val(nil), fr.dargs...)
	return &n
}

// Call runs fn abstractly and returns its outcomes.
func (it *Interp) Call(fn *ssa.Function, st *State, args []Val, fv []Val) []Outcome {
	if it.depth > 60 {
		it.abort("call depth (recursion?) at " + fn.String())
	}
	if len(fn.Blocks) == 0 {
		it.report(st, "undecided", "call to a function without analysable body: "+fn.String())
		return []Outcome{{st, it.freshResult(fn.Signature)}}
	}
	if it.called != nil {
		it.called[fn] = true
	}
	it.work(st, K(1))
	if o, ok := it.pureCall(fn, st, args, fv); ok {
		return []Outcome{o}
	}
	it.depth++
	saveFn, savePos := it.curFn, it.curPos
	it.stack = append(it.stack, fn.Name())
	it.pushCall(fn)
	defer func() {
		it.popCall()
		it.depth--
		it.curFn, it.curPos = saveFn, savePos
		it.stack = it.stack[:len(it.stack)-1]
	}()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, st: st, block: fn.Blocks[0], args: args}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(fv) {
			fr.env[f] = fv[i]
		}
	}
	r := it.run([]*Frame{fr}, nil)
	return r.rets
}

func (it *Interp) freshResult(sig *types.Signature) Val {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		return it.fresh(sig.Results().At(0).Type(), "ret")
	}
	var t TupleV
	for i := 0; i < n; i++ {
		t = append(t, it.fresh(sig.Results().At(i).Type(), "ret"))
	}
	return t
}

type runResult struct {
	backs, exits []*Frame
	rets         []Outcome
}

func (it *Interp) run(work []*Frame, stop *loopInfo) runResult {
	var res runResult
	push := func(fr *Frame) { work = append(work, fr) }
	goTo := func(fr *Frame, succ *ssa.BasicBlock) {
		fr.prev = fr.block
		fr.block = succ
		fr.idx = 0
		fr.atHead = false
		if stop != nil {
			if succ == stop.header {
				it.phis(fr)
				it.work(fr.st, K(1))
				res.backs = append(res.backs, fr)
				return
			}
			if !stop.blocks[succ] {
				res.exits = append(res.exits, fr)
				return
			}
		}
		push(fr)
	}
	for len(work) > 0 {
		fr := work[len(work)-1]
		work = work[:len(work)-1]
		if it.forks > 60000 {
			it.abort("too many paths")
		}
		// loop header?
		if fr.idx == 0 {
			lf := it.loopsOf(fr.fn)
			if l := lf.byHeader[fr.block]; l != nil && (stop == nil || l != stop) {
				if !fr.atHead {
					it.phis(fr)
				}
				lr := it.loop(fr, l)
				res.rets = append(res.rets, lr.rets...)
				for _, e := range lr.exits {
					// e.block is the target outside l
					if stop != nil {
						if e.block == stop.header {
							it.phis(e)
							it.work(e.st, K(1))
							res.backs = append(res.backs, e)
							continue
						}
						if !stop.blocks[e.block] {
							res.exits = append(res.exits, e)
							continue
						}
					}
					push(e)
				}
				continue
			}
			if !fr.atHead {
				it.phis(fr)
			}
		}
		if fr.idx == 0 {
			// skip phis
			for fr.idx < len(fr.block.Instrs) {
				if _, ok := fr.block.Instrs[fr.idx].(*ssa.Phi); !ok {
					break
				}
				fr.idx++
			}
		}
	instrs:
		for fr.idx < len(fr.block.Instrs) {
			ins := fr.block.Instrs[fr.idx]
			it.steps++
			if it.steps > it.maxSteps {
				it.abort("analysis budget exhausted")
			}
			if it.steps&63 == 0 {
				it.cx.tick()
				if it.stop != nil && it.stop.Load() {
					it.abort("stopped")
				}
			}
			it.curFn = fr.fn
			if p := ins.Pos(); p.IsValid() {
				it.curPos = p
			}
			switch x := ins.(type) {
			case *ssa.Jump:
				goTo(fr, fr.block.Succs[0])
				break instrs
			case *ssa.If:
				ts, fs := it.branch(fr.st, it.val(fr, x.Cond))
				total := len(ts) + len(fs)
				if total > 1 {
					it.forks += total - 1
				} else if b, ok := it.val(fr, x.Cond).(*BoolV); ok && !b.known {
					it.entailed++
				}
				k := 0
				for _, c := range ts {
					n := fr
					if k < total-1 {
						n = fr.clone()
					}
					k++
					n.st.cons = c
					goTo(n, fr.block.Succs[0])
				}
				for _, c := range fs {
					n := fr
					blk := fr.block
					if k < total-1 {
						n = fr.clone()
					}
					k++
					n.st.cons = c
					goTo(n, blk.Succs[1])
				}
				break instrs
			case *ssa.Return:
				var ret Val
				switch len(x.Results) {
				case 0:
				case 1:
					ret = it.val(fr, x.Results[0])
				default:
					var t TupleV
					for _, r := range x.Results {
						t = append(t, it.val(fr, r))
					}
					ret = t
				}
				res.rets = append(res.rets, Outcome{fr.st, ret})
				break instrs
			case *ssa.Panic:
				it.report(fr.st, "panic", "explicit panic is reachable")
				break instrs
			case *ssa.Call:
				outs := it.call(fr, &x.Call, x)
				if len(outs) == 0 {
					break instrs
				}
				it.forks += len(outs) - 1
				base := fr
				for i, o := range outs {
					n := base
					if i < len(outs)-1 {
						n = &Frame{}
						*n = *base
						n.env = make(map[ssa.Value]Val, len(base.env))
						for k, v := range base.env {
							n.env[k] = v
						}
						n.defers = append([]*ssa.Defer(nil), base.defers...)
						n.dargs = append([][]Val(nil), base.dargs...)
					}
					n.st = o.st
					n.env[x] = o.ret
					n.idx = base.idx + 1
					if i < len(outs)-1 {
						push(n)
					}
				}
				continue
			case *ssa.BinOp:
				// truncated division of a value of undecided sign
				if x.Op == token.QUO || x.Op == token.REM {
					if iv, ok := it.val(fr, x.X).(*IntV); ok && iv.signed {
						if d, ok := it.val(fr, x.Y).(*IntV); ok {
							if k, c := d.isConst(); c && k > 0 && !it.le(fr.st, K(0), iv.lin) && !it.le(fr.st, iv.lin, K(0)) {
								ns := it.assume(fr.st, &BoolV{op: token.LEQ, lin: iv.lin.AddK(1)})
								ps := it.assume(fr.st, &BoolV{op: token.GTR, lin: iv.lin.AddK(1)})
								if len(ns) > 0 && len(ps) > 0 {
									for _, cs := range append(ns, ps...) {
										n := fr.clone()
										n.st.cons = cs
										n.env[x] = it.binop(n.st, x.Op, it.val(n, x.X), it.val(n, x.Y), x.X.Type(), x.Type())
										n.idx++
										push(n)
									}
									it.forks += len(ns) + len(ps) - 1
									break instrs
								}
							}
						}
					}
				}
				it.instr(fr, ins)
			case *ssa.IndexAddr:
				if it.splitIdx {
					if iv, ok := it.val(fr, x.Index).(*IntV); ok {
						if _, isC := iv.isConst(); !isC {
							var ks []int64
							for k := int64(0); k < 16; k++ {
								if cs := it.assume(fr.st, &BoolV{op: token.EQL, lin: iv.lin.AddK(-k)}); len(cs) > 0 {
									ks = append(ks, k)
								}
							}
							if len(ks) > 0 && it.le(fr.st, K(0), iv.lin) && it.le(fr.st, iv.lin, K(15)) {
								for _, k := range ks {
									n := fr.clone()
									n.st.cons = it.assume(fr.st, &BoolV{op: token.EQL, lin: iv.lin.AddK(-k)})[0]
									n.env[x.Index] = mkInt(iv.w, iv.signed, K(k))
									push(n)
								}
								it.forks += len(ks) - 1
								break instrs
							}
						}
					}
				}
				it.instr(fr, ins)
			case *ssa.Defer:
				fr.defers = append(fr.defers, x)
				var as []Val
				for _, a := range x.Call.Args {
					as = append(as, it.val(fr, a))
				}
				fr.dargs = append(fr.dargs, as)
			case *ssa.RunDefers:
				for i := len(fr.defers) - 1; i >= 0; i-- {
					d := fr.defers[i]
					outs := it.callWith(fr, &d.Call, fr.dargs[i], d.Pos(), nil)
					if len(outs) != 1 {
						it.abort("deferred call forks")
					}
					fr.st = outs[0].st
				}
				fr.defers, fr.dargs = nil, nil
			default:
				it.instr(fr, ins)
			}
			fr.idx++
		}
	}
	return res
}

func (it *Interp) phis(fr *Frame) {
	var vs []Val
	var ps []*ssa.Phi
	pi := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	for _, ins := range fr.block.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			it.abort("phi without predecessor")
		}
		vs = append(vs, it.val(fr, p.Edges[pi]))
		ps = append(ps, p)
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
	fr.atHead = true
}

// branch returns the constraint stores for the true and the false side.
func (it *Interp) branch(st *State, cond Val) (ts, fs []*Cons) {
	b, ok := cond.(*BoolV)
	if !ok {
		// unknown condition: both sides
		return []*Cons{st.cons}, []*Cons{st.cons}
	}
	if b.known {
		if b.val {
			return []*Cons{st.cons}, nil
		}
		return nil, []*Cons{st.cons}
	}
	return it.assume(st, b), it.assume(st, b.not())
}

// assume returns the feasible refinements of st under b (none if infeasible).
func (it *Interp) assume(st *State, b *BoolV) []*Cons {
	if b.known {
		if b.val {
			return []*Cons{st.cons}
		}
		return nil
	}
	c := it.cx
	switch b.op {
	case token.LEQ:
		if it.le(st, K(1), b.lin) {
			return nil
		}
		return []*Cons{it.monotone(st.cons.add(b.lin, false), b.lin)}
	case token.GTR:
		if it.le(st, b.lin, K(0)) {
			return nil
		}
		e := K(1).Sub(b.lin)
		return []*Cons{it.monotone(st.cons.add(e, false), e)}
	case token.EQL:
		lo, hi := c.rangeOf(b.lin)
		if lo > 0 || hi < 0 {
			return nil
		}
		if it.le(st, K(1), b.lin) || it.le(st, b.lin, K(-1)) {
			return nil
		}
		n := st.cons.add(b.lin, true)
		if c.infeasible(n, nil, true) {
			return nil
		}
		return []*Cons{n}
	case token.NEQ:
		var out []*Cons
		if !it.le(st, K(0), b.lin) {
			out = append(out, st.cons.add(b.lin.AddK(1), false))
		}
		if !it.le(st, b.lin, K(0)) {
			out = append(out, st.cons.add(K(1).Sub(b.lin), false))
		}
		return out
	}
	it.abort("condition")
	return nil
}

// monotone: from T(a) < T(b) follows a < b, from T(a) <= T(b) follows a <= b.
func (it *Interp) monotone(cs *Cons, e *Lin) *Cons {
	if !it.varint {
		return cs
	}
	pos, neg := K(0), K(0)
	for _, t := range e.t {
		if t.a.kind != AT && t.a.kind != ASz {
			return cs
		}
		if t.c > 0 {
			pos = pos.Add(t.a.lin().Scale(t.c))
		} else {
			neg = neg.Add(t.a.lin().Scale(-t.c))
		}
	}
	if e.k != 0 && e.k != 1 {
		return cs
	}
	a, ok1 := it.cx.asT(pos)
	b, ok2 := it.cx.asT(neg)
	if !ok1 || !ok2 {
		return cs
	}
	return cs.add(a.Sub(b).AddK(e.k), false)
}

// val returns the abstract value of an SSA value.
func (it *Interp) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return it.constVal(x)
	case *ssa.Global:
		return &PtrV{obj: it.globalObj(x), pos: K(0)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		return &OpaqueV{"undefined " + v.Name()}
	}
	return r
}

func (it *Interp) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return it.zero(t)
	}
	if w, s, ok := intType(t); ok {
		k, exact := constant.Int64Val(constant.ToInt(x.Value))
		if !exact {
			u, _ := constant.Uint64Val(constant.ToInt(x.Value))
			if u > uint64(satMax) {
				return mkInt(w, s, it.cx.Opq("const:"+x.Value.ExactString(), nil, satMax, satMax).lin())
			}
			k = int64(u)
		}
		return mkInt(w, s, K(k))
	}
	if isBool(t) {
		return boolConst(constant.BoolVal(x.Value))
	}
	if isString(t) {
		return &StringV{known: true, s: constant.StringVal(x.Value)}
	}
	return &OpaqueV{"const"}
}

func (it *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := intType(t); ok {
			return mkInt(w, s, K(0))
		}
		if isBool(t) {
			return boolConst(false)
		}
		if isString(t) {
			return &StringV{known: true}
		}
		return &OpaqueV{"zero"}
	case *types.Slice:
		return &SliceV{off: K(0), len: K(0), cap: K(0)}
	case *types.Pointer:
		return &PtrV{nil_: true, pos: K(0)}
	case *types.Signature:
		return &FuncV{nil_: true}
	case *types.Array:
		if u.Len() > 5000 {
			return &OpaqueV{"big array"}
		}
		a := make(ArrayV, u.Len())
		for i := range a {
			a[i] = it.zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = it.zero(u.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(TupleV, u.Len())
		for i := range s {
			s[i] = it.zero(u.At(i).Type())
		}
		return s
	}
	return NilV{}
}

func (it *Interp) fresh(t types.Type, why string) Val {
	if w, s, ok := intType(t); ok {
		lo, hi := typeRange(w, s)
		return mkInt(w, s, it.cx.Fresh(why, lo, hi).lin())
	}
	if isBool(t) {
		return &BoolV{op: token.GTR, lin: it.cx.Fresh(why, 0, 1).lin()}
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		if u.Len() <= 64 {
			a := make(ArrayV, u.Len())
			for i := range a {
				a[i] = it.fresh(u.Elem(), why)
			}
			return a
		}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = it.fresh(u.Field(i).Type(), why)
		}
		return s
	}
	return &OpaqueV{why}
}

// ---- objects ----

// leaf flattens arrays: element type, number of flat elements.
func leaf(t types.Type) (types.Type, int64) {
	if a, ok := t.Underlying().(*types.Array); ok {
		e, n := leaf(a.Elem())
		return e, n * a.Len()
	}
	return t, 1
}

func flatLen(t types.Type) int64 { _, n := leaf(t); return n }

func (it *Interp) newObj(name string, t types.Type, count *Lin) *Obj {
	e, n := leaf(t)
	it.objSeq++
	o := &Obj{id: it.objSeq, name: name, elem: e, n: count.Scale(n), typ: t}
	if w, _, ok := intType(e); ok {
		o.esize = int64(w / 8)
	}
	if st, ok := e.Underlying().(*types.Struct); ok {
		if k, ok := o.n.isConst(); ok && k <= 512 {
			mk := func(nm string) *Obj {
				it.objSeq++
				s := &Obj{id: it.objSeq, name: nm, elem: e, n: K(1), typ: e}
				for i := 0; i < st.NumFields(); i++ {
					s.fields = append(s.fields, it.newObj(nm+"."+st.Field(i).Name(), st.Field(i).Type(), K(1)))
				}
				return s
			}
			if k == 1 {
				return mk(name)
			}
			for i := int64(0); i < k; i++ {
				o.elems = append(o.elems, mk(fmt.Sprintf("%s[%d]", name, i)))
			}
		}
	}
	return o
}

func (it *Interp) zeroInit(st *State, o *Obj) {
	for _, f := range o.fields {
		it.zeroInit(st, f)
	}
	for _, f := range o.elems {
		it.zeroInit(st, f)
	}
	if len(o.fields)+len(o.elems) == 0 {
		st.mem[o] = &OMem{facts: []*Fact{{kind: FZero, lo: K(0), hi: o.n}}}
	}
}

func (it *Interp) globalObj(g *ssa.Global) *Obj {
	if o, ok := it.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	name := g.RelString(nil)
	o := it.newObj(name, t, K(1))
	ext := g.Pkg == nil || !it.prog.isRepo(g.Pkg)
	var mark func(o *Obj)
	mark = func(o *Obj) {
		o.global = name
		if ext {
			o.ext = true
			nm := o.name
			o.oracle = func(it *Interp, st *State, pos *Lin) Val {
				return it.extVal(o, nm+"["+pos.Key()+"]")
			}
		}
		for _, f := range o.fields {
			mark(f)
		}
		for _, f := range o.elems {
			mark(f)
		}
	}
	mark(o)
	it.globals[g] = o
	return o
}

// extVal: an unchanging but unknown value outside the repository.
func (it *Interp) extVal(o *Obj, name string) Val {
	if w, s, ok := intType(o.elem); ok {
		lo, hi := typeRange(w, s)
		return mkInt(w, s, it.cx.Var("ext:"+name, lo, hi).lin())
	}
	if isBool(o.elem) {
		return &BoolV{op: token.GTR, lin: it.cx.Var("ext:"+strings.TrimSuffix(name, "[0]"), 0, 1).lin()}
	}
	return &OpaqueV{"external " + name}
}

func (it *Interp) markOpq(l *Lin) {}

// resolve struct pointers
func (it *Interp) structObj(p *PtrV) *Obj {
	if p.obj == nil {
		return nil
	}
	if len(p.obj.fields) > 0 {
		return p.obj
	}
	if len(p.obj.elems) > 0 {
		if k, ok := p.pos.isConst(); ok && k >= 0 && k < int64(len(p.obj.elems)) {
			return p.obj.elems[k]
		}
	}
	return nil
}

func (it *Interp) load(st *State, p Val, t types.Type) Val {
	ptr, ok := p.(*PtrV)
	if !ok {
		return it.fresh(t, "load")
	}
	if ptr.nil_ {
		it.report(st, "panic", "nil pointer dereference")
		return it.fresh(t, "nilload")
	}
	it.accesses++
	if w, ok := t.Underlying().(*types.Struct); ok {
		so := it.structObj(ptr)
		if so == nil {
			return it.fresh(t, "struct")
		}
		s := make(StructV, w.NumFields())
		for i := range s {
			s[i] = it.load(st, &PtrV{obj: so.fields[i], pos: K(0)}, w.Field(i).Type())
		}
		return s
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if a.Len() > 4096 {
			return &OpaqueV{"big array"}
		}
		fl := flatLen(a.Elem())
		v := make(ArrayV, a.Len())
		for i := range v {
			v[i] = it.load(st, &PtrV{obj: ptr.obj, pos: ptr.pos.AddK(int64(i) * fl)}, a.Elem())
		}
		return v
	}
	return it.loadElem(st, ptr.obj, ptr.pos, t)
}

func (it *Interp) store(st *State, p Val, v Val, t types.Type) {
	ptr, ok := p.(*PtrV)
	if !ok {
		it.report(st, "undecided", "store through an unknown pointer")
		return
	}
	if ptr.nil_ {
		it.report(st, "panic", "nil pointer dereference")
		return
	}
	it.accesses++
	if w, ok := t.Underlying().(*types.Struct); ok {
		so := it.structObj(ptr)
		sv, ok2 := v.(StructV)
		if so == nil || !ok2 {
			it.report(st, "undecided", "struct store")
			return
		}
		for i := 0; i < w.NumFields(); i++ {
			it.store(st, &PtrV{obj: so.fields[i], pos: K(0)}, sv[i], w.Field(i).Type())
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		av, ok2 := v.(ArrayV)
		if !ok2 {
			it.kill(st, ptr.obj, ptr.pos, ptr.pos.AddK(flatLen(t)))
			it.checkWrite(st, ptr.obj, ptr.pos, ptr.pos.AddK(flatLen(t)), "array store")
			return
		}
		fl := flatLen(a.Elem())
		for i := range av {
			it.store(st, &PtrV{obj: ptr.obj, pos: ptr.pos.AddK(int64(i) * fl)}, av[i], a.Elem())
		}
		return
	}
	if ptr.obj.global != "" && !it.inInit {
		it.retain(st, v, "stored in package-level variable "+ptr.obj.global)
	}
	it.storeElem(st, ptr.obj, ptr.pos, v)
}

// retain reports references to caller memory that outlive the call.
func (it *Interp) retain(st *State, v Val, why string) {
	switch x := v.(type) {
	case *SliceV:
		if x.obj != nil && x.obj.param != "" {
			it.report(st, "ownership", "parameter "+x.obj.param+" is "+why)
		} else if x.obj != nil {
			it.report(st, "ownership", "memory "+x.obj.name+" is "+why)
		}
	case *PtrV:
		if x.obj != nil && x.obj.param != "" {
			it.report(st, "ownership", "parameter "+x.obj.param+" is "+why)
		}
	}
}

// require reports a finding unless the condition is certain; afterwards the
// condition is assumed.
func (it *Interp) require(st *State, cat, msg string, conds ...*Lin) {
	for _, e := range conds { // e <= 0
		it.boundsChecked++
		if !it.le(st, e, K(0)) {
			it.report(st, cat, msg+" ["+e.String()+" <= 0 not established]")
			if _, ok := e.isConst(); !ok {
				st.cons = st.cons.add(e, false)
			}
		}
	}
}

// ---- instructions ----

func (it *Interp) instr(fr *Frame, ins ssa.Instruction) {
	st := fr.st
	c := it.cx
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := it.newObj(x.Comment+"@"+x.Name(), t, K(1))
		it.setAlloc(o)
		it.zeroInit(st, o)
		it.heapSite(st, x, K(elemBytes(t)))
		fr.env[x] = &PtrV{obj: o, pos: K(0)}
	case *ssa.Store:
		it.store(st, it.val(fr, x.Addr), it.val(fr, x.Val), x.Val.Type())
	case *ssa.UnOp:
		fr.env[x] = it.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = it.binop(st, x.Op, it.val(fr, x.X), it.val(fr, x.Y), x.X.Type(), x.Type())
	case *ssa.Convert:
		fr.env[x] = it.convert(st, it.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		fr.env[x] = it.val(fr, x.X)
	case *ssa.MakeInterface:
		it.heapSite(st, x, nil)
		fr.env[x] = &IfaceV{it.val(fr, x.X), x.X.Type()}
	case *ssa.ChangeInterface:
		fr.env[x] = it.val(fr, x.X)
	case *ssa.TypeAssert:
		v := it.val(fr, x.X)
		if iv, ok := v.(*IfaceV); ok && types.Identical(iv.t, x.AssertedType) {
			if x.CommaOk {
				fr.env[x] = TupleV{iv.v, boolConst(true)}
			} else {
				fr.env[x] = iv.v
			}
			return
		}
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			fr.env[x] = TupleV{it.fresh(tt.At(0).Type(), "ta"), it.fresh(types.Typ[types.Bool], "ta")}
		} else {
			fr.env[x] = it.fresh(x.Type(), "ta")
		}
	case *ssa.MakeClosure:
		it.heapSite(st, x, nil)
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.fv = append(f.fv, it.val(fr, b))
		}
		fr.env[x] = f
	case *ssa.MakeSlice:
		ln, ok1 := it.val(fr, x.Len).(*IntV)
		cp, ok2 := it.val(fr, x.Cap).(*IntV)
		if !ok1 || !ok2 {
			fr.env[x] = &OpaqueV{"make"}
			return
		}
		it.require(st, "panic", "make: length may be negative or exceed capacity", ln.lin.Scale(-1), ln.lin.Sub(cp.lin))
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := it.newObj("make@"+it.prog.posShort(x.Pos()), et, cp.lin)
		o.alloc = true
		it.zeroInit(st, o)
		it.heapSite(st, x, cp.lin.Scale(elemBytes(et)))
		it.work(st, cp.lin)
		fr.env[x] = &SliceV{obj: o, off: K(0), len: ln.lin, cap: cp.lin}
	case *ssa.FieldAddr:
		p, ok := it.val(fr, x.X).(*PtrV)
		if ok && p.nil_ {
			it.report(st, "panic", "nil pointer dereference")
		}
		if ok && !p.nil_ {
			if so := it.structObj(p); so != nil {
				fr.env[x] = &PtrV{obj: so.fields[x.Field], pos: K(0)}
				return
			}
		}
		fr.env[x] = &OpaqueV{"fieldaddr"}
	case *ssa.Field:
		if s, ok := it.val(fr, x.X).(StructV); ok {
			fr.env[x] = s[x.Field]
		} else {
			fr.env[x] = it.fresh(x.Type(), "field")
		}
	case *ssa.IndexAddr:
		idx, ok := it.val(fr, x.Index).(*IntV)
		if !ok {
			fr.env[x] = &OpaqueV{"index"}
			return
		}
		switch b := it.val(fr, x.X).(type) {
		case *SliceV:
			it.require(st, "panic", fmt.Sprintf("index %s may be out of range with length %s", idx.lin, b.len),
				idx.lin.Scale(-1), idx.lin.Sub(b.len).AddK(1))
			if b.obj == nil {
				fr.env[x] = &OpaqueV{"nil slice"}
				return
			}
			et := x.X.Type().Underlying().(*types.Slice).Elem()
			fr.env[x] = &PtrV{obj: b.obj, pos: b.off.Add(idx.lin.Scale(flatLen(et)))}
		case *PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if b.nil_ {
				it.report(st, "panic", "nil pointer dereference")
				fr.env[x] = &OpaqueV{"nil"}
				return
			}
			it.require(st, "panic", fmt.Sprintf("index %s may be out of range with length %d", idx.lin, at.Len()),
				idx.lin.Scale(-1), idx.lin.AddK(1-at.Len()))
			fr.env[x] = &PtrV{obj: b.obj, pos: b.pos.Add(idx.lin.Scale(flatLen(at.Elem())))}
		default:
			fr.env[x] = &OpaqueV{"indexaddr"}
		}
	case *ssa.Index:
		idx, ok := it.val(fr, x.Index).(*IntV)
		if !ok {
			fr.env[x] = it.fresh(x.Type(), "index")
			return
		}
		switch a := it.val(fr, x.X).(type) {
		case ArrayV:
			it.require(st, "panic", fmt.Sprintf("index %s may be out of range with length %d", idx.lin, len(a)),
				idx.lin.Scale(-1), idx.lin.AddK(1-int64(len(a))))
			fr.env[x] = it.arrayIndex(st, a, idx.lin, x.Type())
		case *StringV:
			fr.env[x] = it.fresh(x.Type(), "strindex")
			if k, ok := idx.isConst(); ok && a.known && k >= 0 && k < int64(len(a.s)) {
				fr.env[x] = mkInt(8, false, K(int64(a.s[k])))
			} else if a.known {
				lo, hi := c.rangeOf(idx.lin)
				if lo >= 0 && hi < int64(len(a.s)) {
					av := make(ArrayV, len(a.s))
					for i := range av {
						av[i] = mkInt(8, false, K(int64(a.s[i])))
					}
					fr.env[x] = it.arrayIndex(st, av, idx.lin, x.Type())
				} else {
					it.require(st, "panic", "string index may be out of range", idx.lin.Scale(-1), idx.lin.AddK(1-int64(len(a.s))))
				}
			}
		default:
			fr.env[x] = it.fresh(x.Type(), "index")
		}
	case *ssa.Slice:
		fr.env[x] = it.slice(fr, x)
	case *ssa.SliceToArrayPointer:
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s, ok := it.val(fr, x.X).(*SliceV)
		if !ok || s.obj == nil {
			fr.env[x] = &OpaqueV{"s2a"}
			return
		}
		it.require(st, "panic", "slice may be shorter than the array", K(at.Len()).Sub(s.len))
		fr.env[x] = &PtrV{obj: s.obj, pos: s.off}
	case *ssa.Extract:
		if t, ok := it.val(fr, x.Tuple).(TupleV); ok && x.Index < len(t) {
			fr.env[x] = t[x.Index]
		} else {
			fr.env[x] = it.fresh(x.Type(), "extract")
		}
	case *ssa.Lookup, *ssa.MakeMap, *ssa.MapUpdate, *ssa.Range, *ssa.Next, *ssa.MakeChan, *ssa.Select, *ssa.Send, *ssa.Go:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = it.fresh(v.Type(), "unsupported")
		}
		switch ins.(type) {
		case *ssa.MakeMap, *ssa.MakeChan, *ssa.MapUpdate:
			if it.world != nil && it.world.esc != nil {
				it.addHeap(st, it.prog.pos(ins.Pos()), strings.ToLower(strings.TrimPrefix(fmt.Sprintf("%T", ins), "*ssa.")), nil)
			}
		}
		switch ins.(type) {
		case *ssa.Go, *ssa.Send, *ssa.Select:
			it.report(st, "undecided", fmt.Sprintf("concurrency construct %T is not analysed", ins))
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = it.fresh(v.Type(), "unsupported")
		}
	}
	_ = c
}

func (it *Interp) setAlloc(o *Obj) {
	o.alloc = true
	for _, f := range o.fields {
		it.setAlloc(f)
	}
	for _, f := range o.elems {
		it.setAlloc(f)
	}
}

func (it *Interp) arrayIndex(st *State, a ArrayV, idx *Lin, t types.Type) Val {
	if k, ok := idx.isConst(); ok {
		if k >= 0 && k < int64(len(a)) {
			return a[k]
		}
		return it.fresh(t, "oob")
	}
	// temporary table
	o := &Obj{id: -1, name: "array"}
	m := &OMem{dense: map[int64]Val{}}
	for i, v := range a {
		m.dense[int64(i)] = v
	}
	if v := it.tableLoad(st, o, m, idx, t); v != nil {
		return v
	}
	return it.fresh(t, "arrindex")
}

func (it *Interp) slice(fr *Frame, x *ssa.Slice) Val {
	st := fr.st
	var obj *Obj
	var off, ln, cp *Lin
	unit := int64(1)
	isPtr := false
	switch b := it.val(fr, x.X).(type) {
	case *SliceV:
		obj, off, ln, cp = b.obj, b.off, b.len, b.cap
		unit = flatLen(x.X.Type().Underlying().(*types.Slice).Elem())
	case *PtrV:
		if b.nil_ {
			it.report(st, "panic", "nil pointer dereference")
			return &OpaqueV{"nil"}
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj, off, ln, cp = b.obj, b.pos, K(at.Len()), K(at.Len())
		unit = flatLen(at.Elem())
		isPtr = true
	case *StringV:
		return &StringV{}
	default:
		return &OpaqueV{"slice"}
	}
	_ = isPtr
	lo, hi, mx := K(0), ln, cp
	get := func(v ssa.Value, d *Lin) *Lin {
		if v == nil {
			return d
		}
		if i, ok := it.val(fr, v).(*IntV); ok {
			return i.lin
		}
		return it.cx.Fresh("sl", -satMax, satMax).lin()
	}
	lo, hi, mx = get(x.Low, lo), get(x.High, hi), get(x.Max, mx)
	msg := fmt.Sprintf("slice bounds [%s:%s] may be out of range (len %s, cap %s)", lo, hi, ln, cp)
	it.require(st, "panic", msg, lo.Scale(-1), lo.Sub(hi), hi.Sub(mx), mx.Sub(cp))
	return &SliceV{obj: obj, off: off.Add(lo.Scale(unit)), len: hi.Sub(lo), cap: mx.Sub(lo)}
}

func (it *Interp) unop(fr *Frame, x *ssa.UnOp) Val {
	st := fr.st
	switch x.Op {
	case token.MUL:
		return it.load(st, it.val(fr, x.X), x.Type())
	case token.NOT:
		if b, ok := it.val(fr, x.X).(*BoolV); ok {
			return b.not()
		}
		return it.fresh(x.Type(), "not")
	case token.SUB:
		w, s, ok := intType(x.Type())
		if v, ok2 := it.val(fr, x.X).(*IntV); ok && ok2 {
			return it.arith(st, w, s, v.lin.Scale(-1))
		}
	case token.XOR:
		w, s, ok := intType(x.Type())
		if v, ok2 := it.val(fr, x.X).(*IntV); ok && ok2 {
			if s {
				return mkInt(w, s, v.lin.Scale(-1).AddK(-1))
			}
			if w < 62 {
				return mkInt(w, s, K(int64(1)<<uint(w)-1).Sub(v.lin))
			}
		}
	case token.ARROW:
		it.report(st, "undecided", "channel receive is not analysed")
	}
	return it.fresh(x.Type(), "unop")
}

// arith normalises an exact arithmetic result to the type.
func (it *Interp) arith(st *State, w int, signed bool, r *Lin) *IntV {
	c := it.cx
	if it.fits(st, w, signed, r) {
		if e := c.expandMod(r, w); w <= 32 && !signed && e != r {
			// keep a canonical form for wrapped terms
			return mkInt(w, signed, c.wrapMod(r, w))
		}
		if c.fuse && !signed && w <= 32 {
			if f := c.wrapMod(r, w); len(f.t) == 1 && f.t[0].a.kind == AWord {
				return mkInt(w, signed, f)
			}
		}
		return mkInt(w, signed, r)
	}
	if w >= 64 {
		// 64-bit overflow is outside the analysed ranges
		lo, hi := typeRange(w, signed)
		return mkInt(w, signed, c.Opq("ovf:"+r.Key(), []*Lin{r}, lo, hi).lin())
	}
	if !signed {
		return mkInt(w, signed, c.wrapMod(r, w))
	}
	lo, hi := typeRange(w, signed)
	return mkInt(w, signed, c.Opq(fmt.Sprintf("wrap%d:%s", w, r.Key()), []*Lin{r}, lo, hi).lin())
}

func (it *Interp) fits(st *State, w int, signed bool, r *Lin) bool {
	lo, hi := typeRange(w, signed)
	rlo, rhi := it.cx.rangeOf(r)
	if rlo >= lo && rhi <= hi {
		return true
	}
	return (rlo >= lo || it.le(st, K(lo), r)) && (rhi <= hi || it.le(st, r, K(hi)))
}

func (it *Interp) binop(st *State, op token.Token, xv, yv Val, xt, rt types.Type) Val {
	c := it.cx
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return it.compare(st, op, xv, yv)
	}
	x, ok1 := xv.(*IntV)
	y, ok2 := yv.(*IntV)
	w, signed, ok3 := intType(rt)
	if bx, ok := xv.(*BoolV); ok {
		if by, ok := yv.(*BoolV); ok && bx.known && by.known {
			switch op {
			case token.AND:
				return boolConst(bx.val && by.val)
			case token.OR:
				return boolConst(bx.val || by.val)
			case token.XOR:
				return boolConst(bx.val != by.val)
			}
		}
	}
	if isString(rt) {
		a, ok1 := xv.(*StringV)
		b, ok2 := yv.(*StringV)
		if ok1 && ok2 && a.known && b.known && op == token.ADD {
			return &StringV{known: true, s: a.s + b.s}
		}
		return &StringV{}
	}
	if !ok1 || !ok2 || !ok3 {
		return it.fresh(rt, "binop")
	}
	xk, xc := x.isConst()
	yk, yc := y.isConst()
	opq := func() Val {
		lo, hi := typeRange(w, signed)
		return mkInt(w, signed, c.Opq(fmt.Sprintf("%s(%d,%s,%s)", op, w, x.lin.Key(), y.lin.Key()), []*Lin{x.lin, y.lin}, lo, hi).lin())
	}
	switch op {
	case token.ADD:
		// disjoint bits add like OR
		if x.bits != nil && y.bits != nil && !xc && !yc {
			if b := orBits(x.bits, y.bits); b != nil {
				r := c.fromBits(w, signed, b)
				return r
			}
		}
		return it.arith(st, w, signed, x.lin.Add(y.lin))
	case token.SUB:
		return it.arith(st, w, signed, x.lin.Sub(y.lin))
	case token.MUL:
		if xc {
			return it.arith(st, w, signed, y.lin.Scale(xk))
		}
		if yc {
			return it.arith(st, w, signed, x.lin.Scale(yk))
		}
		if kx, ok := it.constUnder(st, x.lin); ok {
			return it.arith(st, w, signed, y.lin.Scale(kx))
		}
		if ky, ok := it.constUnder(st, y.lin); ok {
			return it.arith(st, w, signed, x.lin.Scale(ky))
		}
		return opq()
	case token.QUO, token.REM:
		if !yc {
			it.require(st, "panic", "division by zero is possible", K(1).Sub(y.lin))
			return opq()
		}
		if yk == 0 {
			it.report(st, "panic", "division by zero")
			return opq()
		}
		var q *Lin
		if yk > 0 && (!signed || it.le(st, K(0), x.lin)) {
			q = c.Div(x.lin, yk)
			q = it.divRange(st, x.lin, yk, q)
		} else if yk > 0 && it.le(st, x.lin, K(0)) {
			q = c.Div(x.lin.Scale(-1), yk).Scale(-1)
		} else if xc {
			q = K(xk / yk)
		} else {
			return opq()
		}
		if op == token.QUO {
			return mkInt(w, signed, q)
		}
		return mkInt(w, signed, x.lin.Sub(q.Scale(yk)))
	case token.SHL, token.SHR:
		k := yk
		if !yc {
			if kk, ok := it.constUnder(st, y.lin); ok {
				k, yc = kk, true
			}
		}
		if !yc {
			if _, ysigned, _ := intType(xt); ysigned {
				_ = ysigned
			}
			return it.shiftSym(st, op, x, y, w, signed)
		}
		if k < 0 {
			it.report(st, "panic", "negative shift amount")
			return opq()
		}
		return it.shift(st, op, x, k, w, signed)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return it.bitop(st, op, x, y, w, signed)
	}
	return opq()
}

// constUnder: the form has a single value under the path condition.
func (it *Interp) constUnder(st *State, l *Lin) (int64, bool) {
	if k, ok := l.isConst(); ok {
		return k, true
	}
	lo, hi := it.cx.rangeOf(l)
	if lo == hi {
		return lo, true
	}
	for p := st.cons; p != nil && p.e != nil; p = p.parent {
		if p.eq {
			for _, f := range []int64{1, -1} {
				d := l.Sub(p.e.Scale(f))
				if k, ok := d.isConst(); ok {
					return k, true
				}
			}
		}
	}
	if hi-lo <= 64 && hi-lo >= 0 {
		for k := lo; k <= hi; k++ {
			if it.eq(st, l, K(k)) {
				return k, true
			}
		}
	}
	return 0, false
}

func (it *Interp) divRange(st *State, l *Lin, d int64, q *Lin) *Lin {
	lo, hi := it.cx.rangeOf(l)
	if floorDiv(lo, d) == floorDiv(hi, d) {
		return K(floorDiv(lo, d))
	}
	return q
}

func (it *Interp) shift(st *State, op token.Token, x *IntV, k int64, w int, signed bool) *IntV {
	c := it.cx
	if k == 0 {
		return x
	}
	if xb := x; c.bitsSimple(xb) && len(x.lin.t) > 0 {
		bs := c.bitsOf(x)
		if bs != nil {
			n := make([]Bit, w)
			if op == token.SHL {
				for i := int64(0); i < int64(w); i++ {
					if i-k >= 0 {
						n[i] = bs[i-k]
					}
				}
			} else {
				for i := int64(0); i < int64(w); i++ {
					if i+k < int64(w) {
						n[i] = bs[i+k]
					} else if signed {
						n[i] = bs[w-1]
					}
				}
			}
			return c.fromBits(w, signed, n)
		}
	}
	if op == token.SHL {
		if k >= int64(w) {
			return mkInt(w, signed, K(0))
		}
		if k < 61 {
			return it.arith(st, w, signed, x.lin.Scale(int64(1)<<uint(k)))
		}
		lo, hi := typeRange(w, signed)
		return mkInt(w, signed, c.Opq(fmt.Sprintf("shl%d:%s", k, x.lin.Key()), []*Lin{x.lin}, lo, hi).lin())
	}
	if k >= 61 || k >= int64(w) {
		if it.le(st, K(0), x.lin) {
			return mkInt(w, signed, K(0))
		}
		return mkInt(w, signed, c.Div(x.lin, int64(1)<<60))
	}
	d := int64(1) << uint(k)
	return mkInt(w, signed, it.divRange(st, x.lin, d, c.Div(x.lin, d)))
}

// shiftSym: shift by a symbolic amount with few values and a constant operand.
func (it *Interp) shiftSym(st *State, op token.Token, x, y *IntV, w int, signed bool) Val {
	c := it.cx
	lo, hi := c.rangeOf(y.lin)
	if xk, ok := x.isConst(); ok && lo >= 0 && hi < int64(w) && hi <= 64 {
		a := ArrayV{}
		for k := int64(0); k <= hi; k++ {
			a = append(a, it.shift(st, op, mkInt(w, signed, K(xk)), k, w, signed))
		}
		o := &Obj{id: -2, name: "shift"}
		m := &OMem{dense: map[int64]Val{}}
		for i, v := range a {
			m.dense[int64(i)] = v
		}
		t := types.Typ[types.Int]
		if v := it.tableLoad(st, o, m, y.lin, t); v != nil {
			iv := v.(*IntV)
			return mkInt(w, signed, iv.lin)
		}
	}
	tlo, thi := typeRange(w, signed)
	return mkInt(w, signed, c.Opq(fmt.Sprintf("%s(%d,%s,%s)", op, w, x.lin.Key(), y.lin.Key()), []*Lin{x.lin, y.lin}, tlo, thi).lin())
}

func orBits(a, b []Bit) []Bit {
	out := make([]Bit, len(a))
	for i := range a {
		switch {
		case a[i] == (Bit{}):
			out[i] = b[i]
		case b[i] == (Bit{}):
			out[i] = a[i]
		default:
			return nil
		}
	}
	return out
}

func (it *Interp) bitop(st *State, op token.Token, x, y *IntV, w int, signed bool) *IntV {
	c := it.cx
	xk, xc := x.isConst()
	yk, yc := y.isConst()
	if xc && yc {
		var r int64
		switch op {
		case token.AND:
			r = xk & yk
		case token.OR:
			r = xk | yk
		case token.XOR:
			r = xk ^ yk
		case token.AND_NOT:
			r = xk &^ yk
		}
		return mkInt(w, signed, K(r))
	}
	if xc && !yc && op != token.AND_NOT {
		x, y, xk, yk, xc, yc = y, x, yk, xk, yc, xc
	}
	if c.bitsSimple(x) && c.bitsSimple(y) {
		xb, yb := c.bitsOf(x), c.bitsOf(y)
		if xb != nil && yb != nil {
			out := make([]Bit, w)
			ok := true
			for i := 0; i < w; i++ {
				a, b := c.normBit(xb[i]), c.normBit(yb[i])
				switch op {
				case token.AND_NOT:
					if b.a != nil {
						if a == (Bit{}) {
							continue
						}
						ok = false
					} else if b.c == 0 {
						out[i] = a
					}
				case token.AND:
					switch {
					case a == (Bit{}) || b == (Bit{}):
					case a.a == nil:
						out[i] = b
					case b.a == nil || a == b:
						out[i] = a
					default:
						ok = false
					}
				case token.OR:
					switch {
					case a == (Bit{}):
						out[i] = b
					case b == (Bit{}) || a == b:
						out[i] = a
					case (a.a == nil && a.c == 1) || (b.a == nil && b.c == 1):
						out[i] = Bit{c: 1}
					default:
						ok = false
					}
				case token.XOR:
					switch {
					case a == (Bit{}):
						out[i] = b
					case b == (Bit{}):
						out[i] = a
					case a == b:
					case a.a == nil && b.a == nil:
						out[i] = Bit{c: a.c ^ b.c}
					default:
						ok = false
					}
				}
			}
			if ok {
				return c.fromBits(w, signed, out)
			}
		}
	}
	if yc && (op == token.AND || op == token.AND_NOT) {
		// masks of low bits on general integers
		mask, not := yk, op == token.AND_NOT
		if mask >= 0 || signed {
			if !not && mask < 0 {
				// x & ^low
				if p, ok := pow2(-mask); ok {
					d := int64(1) << uint(p)
					return mkInt(w, signed, it.divRange(st, x.lin, d, c.Div(x.lin, d)).Scale(d))
				}
			}
			if p, ok := pow2(mask + 1); ok && mask >= 0 && p < 61 {
				d := int64(1) << uint(p)
				q := it.divRange(st, x.lin, d, c.Div(x.lin, d))
				if not {
					return mkInt(w, signed, q.Scale(d))
				}
				return mkInt(w, signed, x.lin.Sub(q.Scale(d)))
			}
		}
		if !signed && !not && w < 62 {
			// high mask within the width
			inv := (int64(1)<<uint(w) - 1) &^ mask
			if p, ok := pow2(inv + 1); ok {
				d := int64(1) << uint(p)
				return mkInt(w, signed, it.divRange(st, x.lin, d, c.Div(x.lin, d)).Scale(d))
			}
		}
	}
	// interval result
	lo, hi := typeRange(w, signed)
	xlo, xhi := c.rangeOf(x.lin)
	ylo, yhi := c.rangeOf(y.lin)
	if xlo >= 0 && ylo >= 0 {
		up := func(h int64) int64 { return int64(1)<<uint(bits.Len64(uint64(h))) - 1 }
		switch op {
		case token.AND:
			lo, hi = 0, min(xhi, yhi)
		case token.OR:
			lo, hi = max64(xlo, ylo), min(hi, up(max64(xhi, yhi)))
		case token.XOR:
			lo, hi = 0, min(hi, up(max64(xhi, yhi)))
		case token.AND_NOT:
			lo, hi = 0, xhi
		}
		if lo == hi {
			return mkInt(w, signed, K(lo))
		}
	}
	return mkInt(w, signed, c.Opq(fmt.Sprintf("%s(%d,%s,%s)", op, w, x.lin.Key(), y.lin.Key()), []*Lin{x.lin, y.lin}, lo, hi).lin())
}

func (it *Interp) compare(st *State, op token.Token, xv, yv Val) Val {
	if x, ok := xv.(*IntV); ok {
		if y, ok := yv.(*IntV); ok {
			d := x.lin.Sub(y.lin)
			var b *BoolV
			switch op {
			case token.LEQ:
				b = &BoolV{op: token.LEQ, lin: d}
			case token.LSS:
				b = &BoolV{op: token.LEQ, lin: d.AddK(1)}
			case token.GEQ:
				b = &BoolV{op: token.LEQ, lin: d.Scale(-1)}
			case token.GTR:
				b = &BoolV{op: token.LEQ, lin: d.Scale(-1).AddK(1)}
			case token.EQL, token.NEQ:
				b = &BoolV{op: op, lin: d}
			}
			return it.decide(b)
		}
	}
	if x, ok := xv.(*BoolV); ok {
		if y, ok := yv.(*BoolV); ok && (op == token.EQL || op == token.NEQ) {
			if x.known {
				x, y = y, x
			}
			if y.known {
				r := x
				if !y.val {
					r = x.not()
				}
				if op == token.NEQ {
					r = r.not()
				}
				return r
			}
		}
		return it.fresh(types.Typ[types.Bool], "boolcmp")
	}
	isNil := func(v Val) (bool, bool) { // (nil, known)
		switch z := v.(type) {
		case NilV:
			return true, true
		case *SliceV:
			return z.obj == nil, z.obj == nil || z.obj.param == ""
		case *PtrV:
			return z.nil_, true
		case *FuncV:
			return z.nil_, true
		case *IfaceV:
			return false, true
		}
		return false, false
	}
	nx, kx := isNil(xv)
	ny, ky := isNil(yv)
	if kx && ky && (nx || ny) {
		eq := nx && ny
		return boolConst(eq == (op == token.EQL))
	}
	if sx, ok := xv.(*SliceV); ok && sx.obj != nil && sx.obj.param != "" {
		// parameter slice compared with nil: nil only if empty
		return &BoolV{op: token.GTR, lin: it.cx.Var("nonnil:"+sx.obj.name, 0, 1).lin()}
	}
	if a, ok := xv.(*StringV); ok {
		if b, ok := yv.(*StringV); ok && a.known && b.known {
			switch op {
			case token.EQL:
				return boolConst(a.s == b.s)
			case token.NEQ:
				return boolConst(a.s != b.s)
			case token.LSS:
				return boolConst(a.s < b.s)
			}
		}
	}
	if fx, ok := xv.(*PtrV); ok {
		if fy, ok := yv.(*PtrV); ok && fx.obj != nil && fy.obj != nil {
			if fx.obj == fy.obj && fx.pos.Eq(fy.pos) {
				return boolConst(op == token.EQL)
			}
			if fx.obj != fy.obj {
				return boolConst(op == token.NEQ)
			}
		}
	}
	return it.fresh(types.Typ[types.Bool], "cmp")
}

// decide folds a comparison that the value ranges settle.
func (it *Interp) decide(b *BoolV) *BoolV {
	lo, hi := it.cx.rangeOf(b.lin)
	switch b.op {
	case token.LEQ:
		if hi <= 0 {
			return boolConst(true)
		}
		if lo > 0 {
			return boolConst(false)
		}
	case token.EQL, token.NEQ:
		if lo == 0 && hi == 0 {
			return boolConst(b.op == token.EQL)
		}
		if lo > 0 || hi < 0 {
			return boolConst(b.op == token.NEQ)
		}
		// divisibility
		if len(b.lin.t) > 0 {
			g := int64(0)
			for _, t := range b.lin.t {
				g = gcd(abs(t.c), g)
			}
			if g > 1 && b.lin.k%g != 0 {
				return boolConst(b.op == token.NEQ)
			}
		}
	}
	return b
}

func (it *Interp) convert(st *State, v Val, from, to types.Type) Val {
	c := it.cx
	w, signed, ok := intType(to)
	x, ok2 := v.(*IntV)
	if !ok || !ok2 {
		if isString(to) || isString(from) {
			if isString(to) {
				return &StringV{}
			}
			if s, ok := v.(*StringV); ok && s.known {
				if sl, ok := to.Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						o := it.newObj("bytes", sl.Elem(), K(int64(len(s.s))))
						o.alloc = true
						m := &OMem{dense: map[int64]Val{}}
						for i := 0; i < len(s.s); i++ {
							m.dense[int64(i)] = mkInt(8, false, K(int64(s.s[i])))
						}
						st.mem[o] = m
						return &SliceV{obj: o, off: K(0), len: o.n, cap: o.n}
					}
				}
			}
			return &OpaqueV{"strconv"}
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return v
		}
		if ok {
			return it.fresh(to, "conv")
		}
		if _, ok := to.Underlying().(*types.Pointer); ok {
			it.report(st, "undecided", "unsafe pointer conversion is not analysed")
		}
		return &OpaqueV{"conv"}
	}
	if k, ok := x.isConst(); ok {
		if w < 64 {
			if signed {
				k = k << uint(64-w) >> uint(64-w)
			} else {
				k &= int64(1)<<uint(w) - 1
			}
		} else if !signed && k < 0 {
			return mkInt(w, signed, c.Opq(fmt.Sprintf("u64:%d", k), nil, satMax, satMax).lin())
		}
		return mkInt(w, signed, K(k))
	}
	if it.fits(st, w, signed, x.lin) {
		r := mkInt(w, signed, x.lin)
		if x.bits != nil {
			r.bits = resize(x.bits, w, x.signed)
		}
		return r
	}
	if c.bitsSimple(x) {
		if bs := c.bitsOf(x); bs != nil && !(w > x.w && x.signed) {
			return c.fromBits(w, signed, resize(bs, w, false))
		}
	}
	if w < 62 {
		d := int64(1) << uint(w)
		if !signed {
			// exact: low w bits
			if e := c.expandMod(x.lin, w); e != x.lin {
				return mkInt(w, signed, c.wrapMod(x.lin, w))
			}
			pure := true
			for _, t := range x.lin.t {
				if t.a.kind == AWord || t.a.kind == ATerm {
					pure = false
				}
			}
			if !pure {
				return mkInt(w, signed, c.wrapMod(x.lin, w))
			}
			return mkInt(w, signed, x.lin.Sub(c.Div(x.lin, d).Scale(d)))
		}
		h := d / 2
		return mkInt(w, signed, x.lin.Sub(c.Div(x.lin.AddK(h), d).Scale(d)))
	}
	lo, hi := typeRange(w, signed)
	return mkInt(w, signed, c.Opq(fmt.Sprintf("conv%d:%s", w, x.lin.Key()), []*Lin{x.lin}, lo, hi).lin())
}

func resize(bs []Bit, w int, signExt bool) []Bit {
	out := make([]Bit, w)
	for i := range out {
		if i < len(bs) {
			out[i] = bs[i]
		} else if signExt {
			out[i] = bs[len(bs)-1]
		}
	}
	return out
}

// ---- calls ----

func (it *Interp) call(fr *Frame, cc *ssa.CallCommon, x *ssa.Call) []Outcome {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, it.val(fr, a))
	}
	return it.callWith(fr, cc, args, cc.Pos(), x)
}

func (it *Interp) callWith(fr *Frame, cc *ssa.CallCommon, args []Val, pos token.Pos, x *ssa.Call) []Outcome {
	st := fr.st
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []Outcome{{st, it.builtin(fr, b, cc, args)}}
	}
	if cc.IsInvoke() {
		recv := it.val(fr, cc.Value)
		if iv, ok := recv.(*IfaceV); ok {
			if m := it.prog.ssa.LookupMethod(iv.t, cc.Method.Pkg(), cc.Method.Name()); m != nil && it.prog.isRepo(m.Pkg) {
				return it.dispatch(st, m, append([]Val{iv.v}, args...), nil, pos)
			}
		}
		it.report(st, "undecided", "dynamic call "+cc.Method.FullName()+" is not analysed")
		return []Outcome{{st, it.freshResult(cc.Signature())}}
	}
	var f *FuncV
	if fn := cc.StaticCallee(); fn != nil {
		f = &FuncV{fn: fn}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if fv, ok := it.val(fr, mc).(*FuncV); ok {
				f = fv
			}
		}
	} else if fv, ok := it.val(fr, cc.Value).(*FuncV); ok {
		f = fv
	}
	if f == nil || f.fn == nil {
		if f != nil && f.nil_ {
			it.report(st, "panic", "call of a nil function value")
		} else {
			it.report(st, "undecided", "call through an unresolved function value")
		}
		return []Outcome{{st, it.freshResult(cc.Signature())}}
	}
	return it.dispatch(st, f.fn, args, f.fv, pos)
}

func (it *Interp) dispatch(st *State, fn *ssa.Function, args, fv []Val, pos token.Pos) []Outcome {
	it.calls[fn.RelString(nil)]++
	if it.ext != nil {
		if outs, ok := it.ext(it, fn, st, args); ok {
			return outs
		}
	}
	if v, ok := it.intrinsic(st, fn, args); ok {
		return []Outcome{{st, v}}
	}
	if it.contracts != nil {
		if outs, ok := it.contracts(it, fn, st, args, pos); ok {
			return outs
		}
	}
	return it.Call(fn, st, args, fv)
}

func (it *Interp) intrinsic(st *State, fn *ssa.Function, args []Val) (Val, bool) {
	if fn.Pkg == nil {
		return nil, false
	}
	if fn.Name() == "init" && fn.Synthetic != "" && !it.prog.isRepo(fn.Pkg) {
		return nil, true // initialisation of other modules and the standard library
	}
	c := it.cx
	switch fn.Pkg.Pkg.Path() {
	case "math/bits":
		x, ok := argInt(args, 0)
		if !ok {
			return nil, false
		}
		w := 0
		switch {
		case strings.HasSuffix(fn.Name(), "8"):
			w = 8
		case strings.HasSuffix(fn.Name(), "16"):
			w = 16
		case strings.HasSuffix(fn.Name(), "32"):
			w = 32
		case strings.HasSuffix(fn.Name(), "64"):
			w = 64
		default:
			w = intBits
		}
		base := strings.TrimRight(fn.Name(), "0123456789")
		lo, hi := c.rangeOf(x.lin)
		if lo < 0 {
			lo = 0
		}
		// tighten by path condition at powers of two
		for b := 0; b < w && b < 61; b += 1 {
			p := int64(1) << uint(b)
			if p > lo && p <= hi && it.le(st, K(p), x.lin) {
				lo = p
			}
		}
		for b := w - 1; b >= 0; b-- {
			if b >= 61 {
				continue
			}
			p := int64(1)<<uint(b) - 1
			if p < hi && p >= lo && it.le(st, x.lin, K(p)) {
				hi = p
			}
		}
		l1, l2 := int64(bits.Len64(uint64(lo))), int64(bits.Len64(uint64(hi)))
		switch base {
		case "Len", "LeadingZeros":
			if base == "LeadingZeros" {
				l1, l2 = int64(w)-l2, int64(w)-l1
			}
			if l1 == l2 {
				return mkInt(intBits, true, K(l1)), true
			}
			return mkInt(intBits, true, c.Opq(fmt.Sprintf("%s:%s:%d:%d", fn.Name(), x.lin.Key(), l1, l2), []*Lin{x.lin}, l1, l2).lin()), true
		case "TrailingZeros", "OnesCount":
			if k, ok := x.isConst(); ok {
				if base == "OnesCount" {
					return mkInt(intBits, true, K(int64(bits.OnesCount64(uint64(k))))), true
				}
				if k == 0 {
					return mkInt(intBits, true, K(int64(w))), true
				}
				return mkInt(intBits, true, K(int64(bits.TrailingZeros64(uint64(k))))), true
			}
			return mkInt(intBits, true, c.Opq(fmt.Sprintf("%s:%s", fn.Name(), x.lin.Key()), []*Lin{x.lin}, 0, int64(w)).lin()), true
		case "ReverseBytes":
			if bs := c.bitsOf(x); bs != nil && len(bs) == w {
				n := make([]Bit, w)
				for i := 0; i < w; i++ {
					n[i] = bs[w-8-(i/8)*8+i%8]
				}
				return c.fromBits(w, false, n), true
			}
		}
	}
	return nil, false
}

func argInt(args []Val, i int) (*IntV, bool) {
	if i >= len(args) {
		return nil, false
	}
	v, ok := args[i].(*IntV)
	return v, ok
}

func (it *Interp) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) Val {
	st := fr.st
	switch b.Name() {
	case "len", "cap":
		switch s := args[0].(type) {
		case *SliceV:
			if b.Name() == "len" {
				return mkInt(intBits, true, s.len)
			}
			return mkInt(intBits, true, s.cap)
		case *StringV:
			if s.known {
				return mkInt(intBits, true, K(int64(len(s.s))))
			}
		case ArrayV:
			return mkInt(intBits, true, K(int64(len(s))))
		case *PtrV:
			if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return mkInt(intBits, true, K(a.Len()))
				}
			}
		}
		return mkInt(intBits, true, it.cx.Fresh("len", 0, maxCount).lin())
	case "append":
		return it.appendB(st, cc, args)
	case "copy":
		return it.copyB(st, cc, args)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*IntV)
			y, ok2 := a.(*IntV)
			if !ok1 || !ok2 {
				return it.fresh(cc.Signature().Results().At(0).Type(), "minmax")
			}
			switch {
			case it.le(st, x.lin, y.lin):
				if b.Name() == "max" {
					r = y
				}
			case it.le(st, y.lin, x.lin):
				if b.Name() == "min" {
					r = y
				}
			default:
				lo, hi := typeRange(x.w, x.signed)
				o := it.cx.Opq(b.Name()+":"+x.lin.Key()+":"+y.lin.Key(), []*Lin{x.lin, y.lin}, lo, hi)
				for _, z := range []*Lin{x.lin, y.lin} {
					if b.Name() == "min" {
						st.cons = st.cons.add(o.lin().Sub(z), false)
					} else {
						st.cons = st.cons.add(z.Sub(o.lin()), false)
					}
				}
				r = mkInt(x.w, x.signed, o.lin())
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		it.report(st, "undecided", "recover is not analysed")
		return NilV{}
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if s, ok := args[0].(*SliceV); ok && s.obj != nil {
			it.checkWrite(st, s.obj, s.off, s.off.Add(s.len), "clear")
			it.work(st, s.len)
			it.kill(st, s.obj, s.off, s.off.Add(s.len))
			it.addFact(st, s.obj, &Fact{kind: FZero, lo: s.off, hi: s.off.Add(s.len)})
			return nil
		}
	}
	if cc.Signature().Results().Len() > 0 {
		it.report(st, "undecided", "builtin "+b.Name()+" is not analysed")
		return it.freshResult(cc.Signature())
	}
	return nil
}

// copyRange transfers what is known about src[a,a+n) to dst[b,b+n).
func (it *Interp) copyRange(st *State, dst *Obj, b *Lin, src *Obj, a, n *Lin) {
	c := it.cx
	if k, ok := n.isConst(); ok && k <= 64 {
		vals := make([]Val, k)
		for i := int64(0); i < k; i++ {
			vals[i] = it.loadElem(st, src, a.AddK(i), src.elem)
		}
		for i := int64(0); i < k; i++ {
			it.storeElem(st, dst, b.AddK(i), vals[i])
		}
		return
	}
	var add []*Fact
	sm := st.get(src)
	end := a.Add(n)
	delta := b.Sub(a)
	for _, f := range sm.facts {
		lo, hi := f.span(c)
		g := *f
		if f.kind == FPt {
			if it.le(st, a, lo) && it.le(st, hi, end) {
				g.lo, g.hi = f.lo.Add(delta), f.hi.Add(delta)
				add = append(add, &g)
			}
			continue
		}
		h := &g
		if !it.le(st, a, lo) {
			if !it.le(st, lo, a) {
				continue
			}
			if h = it.cut(st, h, a, nil); h == nil {
				continue
			}
		}
		if !it.le(st, hi, end) {
			if !it.le(st, end, hi) {
				continue
			}
			if h = it.cut(st, h, nil, end); h == nil {
				continue
			}
		}
		z := *h
		switch f.kind {
		case FZero:
			z.lo, z.hi = h.lo.Add(delta), h.hi.Add(delta)
		case FElem:
			z.lo, z.hi, z.shift = h.lo.Add(delta), h.hi.Add(delta), h.shift.Sub(delta)
		case FEnc, FCtrl:
			z.base = h.base.Add(delta)
		}
		add = append(add, &z)
	}
	if src.oracle != nil && src.param != "" && src.esize == 4 {
		// a list parameter: element i is in(i)
		if iv, ok := src.oracle(it, st, a).(*IntV); ok && it.famWord(iv) {
			w := iv.lin.t[0].a
			add = append(add, &Fact{kind: FElem, lo: b, hi: b.Add(n), fam: w.name, shift: w.idx.Sub(b)})
		}
	}
	for k, v := range sm.dense {
		if it.le(st, a, K(k)) && it.le(st, K(k+1), end) {
			add = append(add, &Fact{kind: FPt, lo: K(k).Add(delta), hi: K(k + 1).Add(delta), val: v})
		}
	}
	it.checkWrite(st, dst, b, b.Add(n), "copy")
	it.kill(st, dst, b, b.Add(n))
	for _, f := range add {
		it.addFact(st, dst, f)
	}
}

func (it *Interp) copyB(st *State, cc *ssa.CallCommon, args []Val) Val {
	d, ok1 := args[0].(*SliceV)
	s, ok2 := args[1].(*SliceV)
	if !ok1 || !ok2 {
		if ok1 && d.obj != nil {
			it.checkWrite(st, d.obj, d.off, d.off.Add(d.len), "copy")
			it.work(st, d.len)
			it.kill(st, d.obj, d.off, d.off.Add(d.len))
		} else {
			it.report(st, "undecided", "copy to unknown memory")
		}
		return mkInt(intBits, true, it.cx.Fresh("copied", 0, maxCount).lin())
	}
	var n *Lin
	switch {
	case it.le(st, d.len, s.len):
		n = d.len
	case it.le(st, s.len, d.len):
		n = s.len
	default:
		o := it.cx.Opq("min:"+d.len.Key()+":"+s.len.Key(), []*Lin{d.len, s.len}, 0, maxCount)
		st.cons = st.cons.add(o.lin().Sub(d.len), false).add(o.lin().Sub(s.len), false)
		n = o.lin()
	}
	if d.obj == nil || s.obj == nil {
		return mkInt(intBits, true, K(0))
	}
	it.work(st, n)
	it.copyRange(st, d.obj, d.off, s.obj, s.off, n)
	return mkInt(intBits, true, n)
}

func (it *Interp) appendB(st *State, cc *ssa.CallCommon, args []Val) Val {
	d, ok1 := args[0].(*SliceV)
	if !ok1 {
		return &OpaqueV{"append"}
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if len(args) < 2 {
		return d
	}
	s, ok2 := args[1].(*SliceV)
	if !ok2 {
		if str, ok := args[1].(*StringV); ok && str.known {
			s = it.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])).(*SliceV)
		} else {
			return &OpaqueV{"append"}
		}
	}
	newLen := d.len.Add(s.len)
	if s.obj == nil {
		return d
	}
	it.work(st, s.len)
	if d.obj != nil && it.le(st, newLen, d.cap) {
		it.copyRange(st, d.obj, d.off.Add(d.len), s.obj, s.off, s.len)
		return &SliceV{obj: d.obj, off: d.off, len: newLen, cap: d.cap}
	}
	if d.obj != nil && !it.lt(st, d.cap, newLen) {
		if d.obj.param != "" {
			it.report(st, "frame", "append may write into the spare capacity of parameter "+d.obj.param)
		}
	}
	if it.world != nil && it.world.esc != nil {
		it.addHeap(st, it.prog.pos(cc.Pos()), "growing append", newLen.Scale(elemBytes(et)))
	}
	if d.obj != nil && !d.obj.alloc {
		// growth of a slice of the library's own is amortised
		it.work(st, d.len)
	}
	cp := it.cx.Fresh("cap", 0, maxCount*8).lin()
	st.cons = st.cons.add(newLen.Sub(cp), false)
	o := it.newObj("append@"+it.prog.posShort(cc.Pos()), et, cp)
	o.alloc = true
	if d.obj != nil {
		it.copyRange(st, o, K(0), d.obj, d.off, d.len)
	}
	it.copyRange(st, o, d.len, s.obj, s.off, s.len)
	return &SliceV{obj: o, off: K(0), len: newLen, cap: cp}
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
