package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os/exec"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C22: decoding allocates nothing, encoding only its result
// ---------------------------------------------------------------------------

func init() {
	prop("C22", "The compiler's escape analysis (go build -gcflags=-m, its diagnostics only) classifies every allocation site of the packages under pkg as heap or stack, following inlining along the call path. Every stream entry point is analysed abstractly for every count, every batch and partial-group coder for every size combination; each path carries the heap allocations made on it. At a normal return a decoder or coder must have made none, a stream encoder at most one, of at most 5n+64 bytes; a loop whose number of iterations depends on the input must not allocate.", checkC22)
}

// heapRec is one heap allocation on a path; size in bytes.
type heapRec struct {
	pos  string
	what string
	size *Lin
}

// escapes is what the compiler says about allocation sites, by file and line.
type escapes struct {
	msgs    map[string][]string
	inlined map[string][]string
	sites   int
}

var diagRe = regexp.MustCompile(`^([^:\s]+\.go):(\d+):\d+: (.*)$`)

func loadEscapes(p *Program) (*escapes, error) {
	cmd := exec.Command("go", "build", "-gcflags=-m", "./pkg/...")
	cmd.Dir = p.root
	cmd.Env = goEnv("amd64")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("go build -gcflags=-m: %v: %s", err, firstLine(string(out)))
	}
	e := &escapes{msgs: map[string][]string{}, inlined: map[string][]string{}}
	for _, l := range strings.Split(string(out), "\n") {
		m := diagRe.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		at := strings.TrimPrefix(m[1], "./") + ":" + m[2]
		if n, ok := strings.CutPrefix(m[3], "inlining call to "); ok {
			e.inlined[at] = append(e.inlined[at], n)
			continue
		}
		if strings.HasPrefix(m[3], "moved to heap") || strings.HasSuffix(m[3], "escapes to heap") || strings.HasSuffix(m[3], "does not escape") {
			e.msgs[at] = append(e.msgs[at], m[3])
			e.sites++
		}
	}
	return e, nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			return l
		}
	}
	return ""
}

// on reports whether the site at a position is a heap allocation.
func (e *escapes) on(at, kind, name string) bool {
	known := false
	for _, m := range e.msgs[at] {
		heap := strings.HasSuffix(m, "escapes to heap")
		switch {
		case strings.HasPrefix(m, "moved to heap: "):
			if kind == "variable" && strings.TrimPrefix(m, "moved to heap: ") == name {
				return true
			}
			continue
		case strings.HasPrefix(m, "make("):
			if kind != "make" {
				continue
			}
		case strings.HasPrefix(m, "func literal"):
			if kind != "closure" {
				continue
			}
		case strings.HasPrefix(m, "... argument"):
			if kind != "varargs" {
				continue
			}
		default:
			if kind != "literal" && kind != "boxing" && kind != "closure" && kind != "convert" {
				continue
			}
		}
		known = true
		if heap {
			return true
		}
	}
	// no statement about it: only a slice of unknown size is taken as heap
	return kind == "make" && !known
}

func siteKind(ins ssa.Instruction) (kind, name string) {
	switch x := ins.(type) {
	case *ssa.MakeSlice:
		return "make", ""
	case *ssa.MakeClosure:
		return "closure", ""
	case *ssa.MakeInterface:
		return "boxing", ""
	case *ssa.Convert:
		return "convert", ""
	case *ssa.Alloc:
		switch x.Comment {
		case "makeslice":
			return "make", ""
		case "varargs":
			return "varargs", ""
		case "complit", "slicelit", "new":
			return "literal", ""
		}
		return "variable", x.Comment
	}
	return "", ""
}

// doomed: from this block every path ends in a panic.
func doomed(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return false
	}
	seen[b] = true
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			return true
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !doomed(s, seen) {
			return false
		}
	}
	return true
}

// heapSite records a heap allocation at ins on the path of st, if it is one.
func (it *Interp) heapSite(st *State, ins ssa.Instruction, size *Lin) {
	if it.world == nil || it.world.esc == nil {
		return
	}
	kind, name := siteKind(ins)
	if kind == "" {
		return
	}
	if mi, ok := ins.(*ssa.MakeInterface); ok {
		if _, isConst := mi.X.(*ssa.Const); isConst {
			return
		}
	}
	if al, ok := ins.(*ssa.Alloc); ok && kind == "variable" && !al.Pos().IsValid() {
		return
	}
	if doomed(ins.Block(), map[*ssa.BasicBlock]bool{}) {
		return
	}
	pos := ins.Pos()
	if !pos.IsValid() {
		pos = it.curPos
	}
	at := it.outermost(it.prog.pos(pos))
	if !it.world.esc.on(at, kind, name) {
		// a slice of variable size that does not escape is on the stack only
		// up to a size of 32 bytes
		if _, ok := ins.(*ssa.MakeSlice); !ok || size == nil || it.le(st, size, K(32)) {
			return
		}
	}
	it.addHeap(st, it.prog.pos(pos), kind, size)
}

// outermost follows inlining from a site in the current function outwards.
func (it *Interp) outermost(at string) string {
	for i := len(it.calledAt) - 1; i >= 0; i-- {
		c := it.calledAt[i]
		if c.fn == "" {
			break
		}
		inl := false
		for _, n := range it.world.esc.inlined[c.at] {
			if n == c.fn || strings.HasSuffix(n, "."+c.fn) {
				inl = true
			}
		}
		if !inl {
			break
		}
		at = c.at
	}
	return at
}

type callSite struct{ fn, at string }

func (it *Interp) pushCall(fn *ssa.Function) {
	if it.world == nil || it.world.esc == nil {
		return
	}
	n := strings.ReplaceAll(fn.Name(), "$", ".func")
	at := ""
	if it.curPos.IsValid() {
		at = it.prog.pos(it.curPos)
	}
	it.calledAt = append(it.calledAt, callSite{n, at})
}

func (it *Interp) popCall() {
	if n := len(it.calledAt); n > 0 {
		it.calledAt = it.calledAt[:n-1]
	}
}

func (it *Interp) addHeap(st *State, pos, what string, size *Lin) {
	st.heap = append(st.heap[:len(st.heap):len(st.heap)], heapRec{pos, what, size})
}

// heapCheck is applied at a normal return.
func (it *Interp) heapCheck(st *State, encoder bool, n *Lin) {
	if it.world == nil || it.world.esc == nil || it.cx.unsat(st.cons) {
		return
	}
	it.world.heapObl++
	if len(st.heap) == 0 {
		return
	}
	where := func(h heapRec) string { return h.what + " at " + h.pos }
	if !encoder {
		it.report(st, "alloc", "returns after a heap allocation: "+where(st.heap[0]))
		return
	}
	if len(st.heap) > 1 {
		it.report(st, "alloc", fmt.Sprintf("returns after %d heap allocations: %s, %s", len(st.heap), where(st.heap[0]), where(st.heap[1])))
		return
	}
	h := st.heap[0]
	if h.size == nil || !it.le(st, h.size, n.Scale(5).AddK(64)) {
		it.report(st, "alloc", fmt.Sprintf("the buffer allocated (%s, %s bytes) is not established to have at most 5n+64 bytes for n integers", where(h), h.size))
	}
}

func elemBytes(t types.Type) int64 {
	return max(1, types.SizesFor("gc", "amd64").Sizeof(t))
}

// staticHeap: heap allocation sites in a function and the functions it calls,
// whatever the path; for helpers that are used through a summary.
func (w *World) staticHeap(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] || !w.prog.isRepo(fn.Pkg) {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		if doomed(b, map[*ssa.BasicBlock]bool{}) {
			continue
		}
		for _, ins := range b.Instrs {
			if kind, name := siteKind(ins); kind != "" && ins.Pos() != token.NoPos {
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					if _, isConst := mi.X.(*ssa.Const); isConst {
						continue
					}
				}
				if w.esc.on(w.prog.pos(ins.Pos()), kind, name) {
					return kind + " at " + w.prog.pos(ins.Pos())
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					if s := w.staticHeap(f, seen); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

func checkC22(c *Check) {
	if !c.load() {
		return
	}
	esc, err := loadEscapes(c.prog)
	if err != nil {
		c.fail("undecided", "build", "go.mod", err.Error())
		return
	}
	c.count("allocation_sites_classified_by_the_compiler", esc.sites)
	old := c.world
	defer func() { c.world = old }()
	w := makeWorld(c.prog)
	w.esc = esc
	c.world = w
	cats := []string{"alloc", "undecided"}
	c.streams(func(s *Stream) bool { return true }, cats)
	c.kernels(func(k *Kernel) bool { return !k.asm }, cats, false, "Put8uint32", "Put8uint32Delta", "Get8uint32", "Get8uint32Delta",
		"Put8uint32Scalar", "Put8uint32DeltaScalar", "Put4uint32Scalar", "Put4uint32DeltaScalar", "PutUint32Scalar", "PutUint32DeltaScalar",
		"Get8uint32Scalar", "Get8uint32DeltaScalar", "Get4uint32Scalar", "Get4uint32DeltaScalar", "GetUint32Scalar", "GetUint32DeltaScalar")
	for _, f := range w.libFuncs() {
		// used through a summary only
		if k := w.kernel(f); k != nil && k.one && len(f.Blocks) > 0 {
			c.obl++
			c.count("single_integer_coders", 1)
			if s := w.staticHeap(f, map[*ssa.Function]bool{}); s != "" {
				c.fail("alloc", f.RelString(nil), c.prog.pos(f.Pos()), "allocates on the heap: "+s)
			}
		}
	}
	c.obl += w.heapObl
	c.count("normal_returns_checked_for_allocations", w.heapObl)
}
