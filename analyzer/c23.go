package main

import (
	"fmt"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C23: the work of a call is linear in the integers it handles
// ---------------------------------------------------------------------------

func init() {
	prop("C23", "Elementary steps (loop iterations, calls, elements copied, cleared, appended or allocated) are counted along every path as a linear form; a loop summary multiplies the largest number of steps of one iteration, which must be bounded by a constant, by the number of iterations. At every return of a stream entry point the count must be at most 64n+65536 for n integers, at every return of a batch or partial-group coder at most 1024, whatever the lengths and capacities of the slices. Where a loop has no such summary, the same is checked for n = 32, 96, 160, 224, and that the count does not grow ever faster between these.", checkC23)
}

const (
	workPerInt = 64
	workFixed  = 65536
	workCoder  = 1024
	workIter   = 65536
)

// work adds steps to the count of a state.
func (it *Interp) work(st *State, n *Lin) {
	if st.work != nil {
		st.work = st.work.Add(n)
	}
}

// upper: a constant bound.
func (it *Interp) upper(st *State, d *Lin) (int64, bool) {
	if k, ok := d.isConst(); ok {
		return k, true
	}
	if !it.le(st, d, K(workIter)) {
		return 0, false
	}
	lo, hi := int64(-1), int64(workIter) // hi holds
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if it.le(st, d, K(m)) {
			hi = m
		} else {
			lo = m
		}
	}
	return hi, true
}

// workStep determines the steps of one iteration from its back states and sets
// the count at the loop head in iteration n.
func (it *Interp) workStep(H *Frame, n *Atom, from *Lin, backs []*Frame) int64 {
	if from == nil {
		return 0
	}
	most := int64(0)
	for _, b := range backs {
		if it.cx.unsat(b.st.cons) {
			continue
		}
		d, ok := it.upper(b.st, b.st.work.Sub(from))
		if !ok {
			H.st.heavy = fmt.Sprintf("one iteration of the loop at %s takes %s steps", it.prog.blockPos(H.block), b.st.work.Sub(from))
		}
		most = max(most, d)
		if b.st.heavy != "" {
			H.st.heavy = b.st.heavy
		}
	}
	H.st.work = from.Add(n.lin().Scale(most))
	return most
}

// workCheck is applied at a normal return; n is nil for a coder. It returns the
// count if it is constant.
func (it *Interp) workCheck(st *State, n *Lin) int64 {
	if st.work == nil || it.cx.unsat(st.cons) {
		return 0
	}
	it.world.workObl++
	lim, what := K(workCoder), fmt.Sprint(workCoder)
	if n != nil {
		lim, what = n.Scale(workPerInt).AddK(workFixed), fmt.Sprintf("%dn+%d", workPerInt, workFixed)
	}
	if st.heavy != "" {
		it.report(st, "work", "the number of steps is not established to be bounded by "+what+": "+st.heavy)
	} else if !it.le(st, st.work, lim) {
		if os.Getenv("SVB_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "work %s\n", st.work)
			for _, k := range st.cons.all() {
				fmt.Fprintf(os.Stderr, "   %s eq=%v\n", k.e, k.eq)
			}
		}
		it.report(st, "work", fmt.Sprintf("takes %s steps, which is not established to be at most %s", st.work, what))
	} else if n != nil {
		if _, ok := n.isConst(); ok {
			k, _ := it.upper(st, st.work)
			return k
		}
	}
	return 0
}

func checkC23(c *Check) {
	if !c.load() {
		return
	}
	old := c.world
	defer func() { c.world = old }()
	w := makeWorld(c.prog)
	w.countWork = true
	c.world = w
	cats := []string{"work", "undecided"}
	have := map[string]bool{}
	for _, s := range w.streams() {
		have[s.fn.Name()] = true
		c.count("stream_entry_points", 1)
		for ci := range w.cases {
			if len(c.findings) > 0 {
				// one entry point is enough
				break
			}
			r := w.safeStream(s, ci, -1)
			c.count("analyses_for_every_count", 1)
			c.count("loops_summarised", r.generalised)
			c.count("return_paths_checked", r.outcomes)
			bad := only(r.findings, cats...)
			if len(bad) == 0 {
				c.count("entry_point_cases_decided_for_every_count", 1)
				c.sample("%s [%s]: every count, %d loops summarised, at most %dn+%d steps", short(s.fn), r.start, r.generalised, workPerInt, workFixed)
				if !c.thorough() {
					continue
				}
			}
			c.growth(w, s, ci, bad, r.called)
		}
	}
	c.requireNames(have, "WriteAll", "WriteAllScalar", "WriteAllFast", "WriteAllDelta", "WriteAllDeltaScalar", "WriteAllDeltaFast",
		"ReadAll", "ReadAllScalar", "ReadAllFast", "ReadAllDelta", "ReadAllDeltaScalar", "ReadAllDeltaFast")
	c.kernels(func(k *Kernel) bool { return !k.asm }, cats, false, "Put8uint32", "Put8uint32Delta", "Get8uint32", "Get8uint32Delta",
		"Put8uint32Scalar", "Put8uint32DeltaScalar", "Put4uint32Scalar", "Put4uint32DeltaScalar", "PutUint32Scalar", "PutUint32DeltaScalar",
		"Get8uint32Scalar", "Get8uint32DeltaScalar", "Get4uint32Scalar", "Get4uint32DeltaScalar", "GetUint32Scalar", "GetUint32DeltaScalar")
	c.obl += w.workObl
	c.count("normal_returns_with_counted_steps", w.workObl)
}

// growth decides a stream whose loops have no summary from constant counts.
func (c *Check) growth(w *World, s *Stream, ci int, bad []Finding, called map[*ssa.Function]bool) {
	ns := []int64{32, 96, 160, 224, 221, 222, 223}
	rs := make([]StreamRun, len(ns))
	var wg sync.WaitGroup
	for i := range ns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = w.fork().safeStream(s, ci, ns[i])
		}()
	}
	wg.Wait()
	for i, r := range rs {
		c.count("constant_count_analyses", 1)
		c.obl += r.outcomes
		if fs := only(r.findings, "work", "undecided"); len(fs) > 0 {
			if sym := only(bad, "work"); len(sym) > 0 && len(only(fs, "work")) == 0 {
				c.add(sym...)
				return
			}
			for _, f := range fs {
				f.Msg = fmt.Sprintf("[count=%d] %s", ns[i], f.Msg)
				c.add(f)
			}
			return
		}
	}
	d1, d2, d3 := rs[1].work-rs[0].work, rs[2].work-rs[1].work, rs[3].work-rs[2].work
	if d2-d1 >= 12 && d3-d2 >= 12 {
		c.fail("work", s.fn.RelString(nil), c.prog.pos(s.fn.Pos()), fmt.Sprintf("the number of steps grows faster than the number of integers: %d, %d, %d, %d steps for 32, 96, 160, 224 integers", rs[0].work, rs[1].work, rs[2].work, rs[3].work))
		c.add(only(bad, "work")...)
		return
	}
	if len(bad) == 0 {
		return
	}
	within := map[*ssa.Function]bool{}
	for f := range called {
		within[f] = true
	}
	for _, r := range rs {
		for f := range r.called {
			within[f] = true
		}
	}
	if why := w.beyondT(s.fn, 224, false, within); why != "" {
		for _, f := range bad {
			f.Msg = "not established for every count, and " + why + ": " + f.Msg
			c.add(f)
		}
		return
	}
	c.count("entry_point_cases_decided_up_to_bound_only", 1)
	c.sample("%s [%s]: no summary for every count (%s); steps counted for 32, 96, 160, 224 integers: %d, %d, %d, %d", short(s.fn), rs[0].start, bad[0].String(), rs[0].work, rs[1].work, rs[2].work, rs[3].work)
}
