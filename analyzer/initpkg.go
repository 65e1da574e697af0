package main

import (
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Layer 0: abstract execution of package initialisation. Yields the contents
// of the package-level variables (lookup tables, dispatch variables) as a small
// set of disjoint cases, one per outcome of the CPU feature tests.
// ---------------------------------------------------------------------------

type World struct {
	fragile    bool
	stop       *atomic.Bool
	prog       *Program
	base       *Ctx
	globals    map[*ssa.Global]*Obj
	objSeq     int
	cases      []*State
	findings   []Finding
	initFns    int
	steps      int
	kernels    map[*ssa.Function]*Kernel
	asm        *AsmSet
	inits      []string
	noContract func(fn *ssa.Function) bool
	modeFn     *ssa.Function
	esc        *escapes // C22: which allocation sites are on the heap
	countWork  bool     // C23: count elementary steps
	workObl    int
	heapObl    int
	onlyFast   bool // analyse only the histories that start with accelerated mode reported
	onMode     func(it *Interp, st *State)
	onReturn   func(it *Interp, st *State)
	onAsm      func(it *Interp, fn *ssa.Function, f *AsmFn, st *State)
}

func (c *Ctx) clone() *Ctx {
	n := NewCtx()
	n.list = append([]*Atom(nil), c.list...)
	for k, v := range c.atoms {
		n.atoms[k] = v
	}
	n.seq = c.seq
	return n
}

func NewWorld(p *Program, inits []string) *World {
	w := &World{prog: p, inits: inits}
	it := NewInterp(p)
	it.inInit = true
	it.denseOnly = true
	it.unroll = true
	it.maxSteps = 50_000_000
	states := []*State{{cons: rootConsNew(), mem: map[*Obj]*OMem{}}}
	// package-level variables start zero
	for _, path := range p.libPaths() {
		s := p.spkgs[path]
		if !p.isRepo(s) {
			continue
		}
		var names []string
		for n := range s.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := s.Members[n].(*ssa.Global); ok {
				it.zeroInit(states[0], it.globalObj(g))
			}
		}
	}
	for _, path := range inits {
		s := p.spkgs[path]
		if s == nil {
			continue
		}
		f := s.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		w.initFns++
		var next []*State
		for _, st := range states {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if a, ok := r.(abortErr); ok {
							w.findings = append(w.findings, Finding{"undecided", path + ".init", "?", "package initialisation not analysable: " + a.why})
							next = append(next, st)
							return
						}
						panic(r)
					}
				}()
				for _, o := range it.Call(f, st, nil, nil) {
					if !it.cx.unsat(o.st.cons) {
						next = append(next, o.st)
					}
				}
			}()
		}
		states = next
	}
	w.cases = states
	w.findings = append(w.findings, it.findings...)
	w.steps = it.steps
	for _, st := range states {
		for o := range st.mem {
			if o.global == "" {
				o.global = "(memory created by package initialisation: " + o.name + ")"
			}
		}
	}
	for _, st := range states {
		reach := map[*Obj]bool{}
		var visit func(o *Obj)
		var visitV func(v Val)
		visitV = func(v Val) {
			switch x := v.(type) {
			case *SliceV:
				visit(x.obj)
			case *PtrV:
				visit(x.obj)
			case *FuncV:
				for _, f := range x.fv {
					visitV(f)
				}
			case ArrayV:
				for _, e := range x {
					visitV(e)
				}
			case StructV:
				for _, e := range x {
					visitV(e)
				}
			case *IfaceV:
				visitV(x.v)
			}
		}
		visit = func(o *Obj) {
			if o == nil || reach[o] {
				return
			}
			reach[o] = true
			for _, f := range o.fields {
				visit(f)
			}
			for _, f := range o.elems {
				visit(f)
			}
			if _, _, isNum := intType(o.elem); isNum {
				return
			}
			m := st.get(o)
			for _, v := range m.dense {
				visitV(v)
			}
			for _, f := range m.facts {
				if f.val != nil {
					visitV(f.val)
				}
			}
		}
		for g, o := range it.globals {
			if g.Pkg != nil && g.Pkg.Pkg.Name() != "main" {
				visit(o)
			}
		}
		for o := range st.mem {
			if !reach[o] {
				delete(st.mem, o)
			}
		}
	}
	w.base = it.cx
	w.globals = it.globals
	w.objSeq = it.objSeq
	return w
}

// fork makes an independent copy for another goroutine.
func (w *World) fork() *World {
	n := NewWorld(w.prog, w.inits)
	n.asm = w.asm
	n.esc = w.esc
	n.countWork = w.countWork
	// verified kernels are shared by value
	n.kernels = map[*ssa.Function]*Kernel{}
	for f, k := range w.kernels {
		if k != nil {
			c := *k
			n.kernels[f] = &c
		} else {
			n.kernels[f] = nil
		}
	}
	return n
}

func rootConsNew() *Cons { return &Cons{} }

// interp creates an analysis starting from the state after initialisation.
// Each case is a separate start state.
func (w *World) interp() *Interp {
	it := NewInterp(w.prog)
	it.cx = w.base.clone()
	it.cx.deadline = deadlineFrom(time.Now())
	it.globals = make(map[*ssa.Global]*Obj, len(w.globals))
	for k, v := range w.globals {
		it.globals[k] = v
	}
	it.objSeq = w.objSeq
	it.world = w
	it.onAsm = w.onAsm
	return it
}

func (w *World) start(i int) *State {
	c := w.cases[i]
	cons := rootConsNew()
	for _, k := range c.cons.all() {
		cons = cons.add(k.e, k.eq)
	}
	st := &State{cons: cons, mem: make(map[*Obj]*OMem, len(c.mem))}
	for o, m := range c.mem {
		st.mem[o] = m
	}
	return st
}

func (w *World) global(pkg, name string) *ssa.Global {
	s := w.prog.spkgs[w.prog.module+"/"+pkg]
	if s == nil {
		return nil
	}
	g, _ := s.Members[name].(*ssa.Global)
	return g
}

func describeCase(st *State) string {
	var p []string
	for _, k := range st.cons.all() {
		op := "<="
		if k.eq {
			op = "=="
		}
		p = append(p, k.e.String()+op+"0")
	}
	if len(p) == 0 {
		return "always"
	}
	return strings.Join(p, " && ")
}
