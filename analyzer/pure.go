package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Calls of functions without effects. Such a function may branch or loop over
// its arguments (a length table written as a loop over the control bits, say)
// where the callers see one value. Its paths are explored on their own, and
// when the result of one of them equals, under each path's condition, the
// result of that path, then that expression is the result of the call.

const maxPureInstrs = 400

// isPure: integer parameters and one integer result, no stores outside its own
// frame, no calls other than of pure functions of the repository, math/bits
// and len/cap/min/max.
func (it *Interp) isPure(fn *ssa.Function, depth int) bool {
	if v, ok := it.pure[fn]; ok {
		return v
	}
	if it.pure == nil {
		it.pure = map[*ssa.Function]bool{}
	}
	it.pure[fn] = false // recursion
	ok := it.isPure1(fn, depth)
	it.pure[fn] = ok
	return ok
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (it *Interp) isPure1(fn *ssa.Function, depth int) bool {
	sig := fn.Signature
	if depth > 4 || len(fn.Blocks) == 0 || sig.Results().Len() != 1 || !isIntType(sig.Results().At(0).Type()) ||
		len(fn.FreeVars) > 0 || !it.prog.isRepo(fn.Pkg) || fn.Recover != nil {
		return false
	}
	for _, p := range fn.Params {
		if !isIntType(p.Type()) {
			return false
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !localRoot(x.Addr) {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					return false
				}
				callee := x.Call.StaticCallee()
				if callee == nil || callee.Pkg == nil {
					return false
				}
				if callee.Pkg.Pkg.Path() != "math/bits" && !it.isPure(callee, depth+1) {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.IndexAddr, *ssa.Index,
				*ssa.Slice, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.MultiConvert:
			case *ssa.Alloc:
				if x.Heap {
					return false
				}
			default:
				return false
			}
		}
	}
	return n <= maxPureInstrs
}

func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func (it *Interp) pureCall(fn *ssa.Function, st *State, args, fv []Val) (out Outcome, ok bool) {
	if len(fn.Blocks) < 2 || it.inPure || len(args) != len(fn.Params) || !it.isPure(fn, 0) {
		return
	}
	if it.world != nil && it.world.esc != nil && it.world.staticHeap(fn, map[*ssa.Function]bool{}) != "" {
		return
	}
	known := true
	for _, a := range args {
		iv, isInt := a.(*IntV)
		if !isInt {
			return
		}
		if _, c := iv.isConst(); !c {
			known = false
		}
	}
	if known {
		return
	}
	mk := it.mark()
	muted, unroll, lossy := it.muted, it.unroll, it.lossy
	it.muted, it.unroll, it.inPure = 0, true, true
	defer func() {
		it.muted, it.unroll, it.lossy, it.inPure = muted, unroll, lossy, false
		if !ok {
			it.rollback(mk)
		}
	}()
	rets := it.Call(fn, st.clone(), args, fv)
	if len(it.findings) > mk.nf || len(rets) == 0 || len(rets) > 64 {
		return
	}
	most := int64(0)
	for i := len(rets) - 1; i >= 0; i-- {
		v, isInt := rets[i].ret.(*IntV)
		if !isInt {
			return
		}
		all := true
		for j, r := range rets {
			if j == i {
				continue
			}
			w, isInt := r.ret.(*IntV)
			if !isInt || !it.le(r.st, v.lin, w.lin) || !it.le(r.st, w.lin, v.lin) {
				all = false
				break
			}
		}
		if all {
			for _, r := range rets {
				if st.work != nil && !it.cx.unsat(r.st.cons) {
					d, ok := it.upper(r.st, r.st.work.Sub(st.work))
					if !ok {
						st.heavy = "a helper function"
					} else if d > most {
						most = d
					}
				}
			}
			it.work(st, K(most))
			return Outcome{st, v}, true
		}
	}
	return
}
