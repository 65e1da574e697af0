package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C18: regeneration
// ---------------------------------------------------------------------------

func init() {
	prop("C18", "Every go:generate directive of the packages is resolved to its generator, whose main function is interpreted abstractly on the current source with the flags of the directive (text of known content, decided loops unrolled; calls of the assembler library are recorded as emitted instructions over virtual registers). For the tables, the emitted Go source is parsed, type-checked and constant-evaluated and every declared table must have the name, the type and all values of the committed one. For the assembly, every emitted routine and its committed counterpart are turned into value graphs (instructions with their operands, loads with the memory version, frame slots by offset, constants by content; register copies are transparent) and their stores, results, frame layout and flags must be the same.", checkC18)
}

const avo = "github.com/mmcloughlin/avo/"

type emitIns struct {
	op   string // "TEXT" begins a routine
	args []Operand
	pos  token.Pos
	sig  string
	flag string
}

type component struct {
	typ  types.Type
	addr tval
}

type directive struct {
	dir  string // relative directory
	file string // generator file, relative to the repository
	args map[string]string
	pos  string
}

var genRe = regexp.MustCompile(`^//go:generate\s+go run\s+(.*)$`)

func (p *Program) directives() []directive {
	var out []directive
	var paths []string
	for path := range p.byPath {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		for i, f := range p.byPath[path].Syntax {
			name := p.byPath[path].CompiledGoFiles[i]
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					m := genRe.FindStringSubmatch(cm.Text)
					if m == nil {
						continue
					}
					d := directive{dir: filepath.Dir(p.rel(name)), args: map[string]string{}, pos: p.pos(cm.Pos())}
					fs := strings.Fields(m[1])
					for j := 0; j < len(fs); j++ {
						if strings.HasPrefix(fs[j], "-") {
							k := strings.TrimLeft(fs[j], "-")
							if e := strings.IndexByte(k, '='); e >= 0 {
								d.args[k[:e]] = k[e+1:]
							} else if j+1 < len(fs) {
								d.args[k] = fs[j+1]
								j++
							}
						} else if d.file == "" {
							d.file = filepath.Join(d.dir, fs[j])
						}
					}
					out = append(out, d)
				}
			}
		}
	}
	return out
}

func checkC18(c *Check) {
	if !c.load() {
		return
	}
	p := c.prog
	done := map[string]bool{}
	for _, d := range p.directives() {
		dir := d.file
		if strings.HasSuffix(dir, ".go") {
			dir = filepath.Dir(dir)
		}
		sp := p.spkgs[p.module+"/"+filepath.ToSlash(dir)]
		if sp == nil || sp.Pkg.Name() != "main" || sp.Func("main") == nil {
			c.fail("undecided", "go:generate", d.pos, "the generator "+d.file+" of this directive was not found")
			continue
		}
		out := d.args["out"]
		if out == "" {
			c.fail("undecided", "go:generate", d.pos, "the directive names no output file")
			continue
		}
		target := filepath.Join(d.dir, out)
		done[target] = true
		if _, err := os.Stat(filepath.Join(p.root, target)); err != nil {
			c.fail("content", "go:generate", d.pos, "regeneration writes "+target+", which is not a committed file")
			continue
		}
		c.count("generators", 1)
		if strings.HasSuffix(target, ".s") {
			c.genAsm(d, sp, target)
		} else {
			c.genGo(d, sp, target)
		}
	}
	for _, want := range []string{"pkg/shared/tables.go", "pkg/encode/encode_amd64.s", "pkg/decode/decode_amd64.s"} {
		if _, err := os.Stat(filepath.Join(p.root, want)); err == nil && !done[want] {
			c.fail("undecided", "go:generate", want, "no go:generate directive regenerates this file, so nothing was decided about it")
		}
	}
}

func newGen(p *Program, d directive) *Text {
	t := newText(p)
	t.unrollN = 5000
	t.maxPaths = 1 << 30
	t.maxSteps = 20_000_000
	t.comps = map[string]*component{}
	t.syms = map[string]*AsmSym{}
	t.dyn = map[*tInt]types.Type{}
	t.emit = func(t *Text, fr *tFrame, fn *ssa.Function, args []tval, pos token.Pos) ([]tOut, bool) {
		return t.genCall(d, fr, fn, args, pos)
	}
	return t
}

func pkgOf(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (t *Text) reg(name string, size int) tval {
	return &tOpq{key: fmt.Sprintf("reg:%s/%d", name, size)}
}

func regOf(v tval) (name string, size int, ok bool) {
	o, is := v.(*tOpq)
	if !is || !strings.HasPrefix(o.key, "reg:") {
		return
	}
	i := strings.LastIndexByte(o.key, '/')
	size, _ = strconv.Atoi(o.key[i+1:])
	return o.key[4:i], size, true
}

// mem is the analysis' picture of operand.Mem.
func memOf(sym string, disp int64) *tStruct {
	return &tStruct{f: []tval{&tStruct{f: []tval{&tStr{constRope(sym)}, &tBool{known: true}}}, &tInt{K(disp)}, tNil{}, tNil{}, &tInt{K(0)}}}
}

func (t *Text) genCall(d directive, fr *tFrame, fn *ssa.Function, args []tval, pos token.Pos) ([]tOut, bool) {
	st := fr.st
	is := func(v tval) ([]tOut, bool) { return []tOut{{st, v, "", pos}}, true }
	pkg := pkgOf(fn)
	switch pkg {
	case "flag":
		if fn.Signature.Recv() == nil && len(args) == 3 {
			name, ok := t.str(st, args[0])
			if !ok {
				return nil, false
			}
			c := t.newCell("flag")
			v, set := d.args[name]
			switch fn.Name() {
			case "String":
				st.cells[c.cell] = args[1]
				if set {
					st.cells[c.cell] = &tStr{constRope(v)}
				}
				return is(c)
			case "Int", "Int64", "Uint":
				st.cells[c.cell] = args[1]
				if k, err := strconv.ParseInt(v, 0, 64); set && err == nil {
					st.cells[c.cell] = &tInt{K(k)}
				}
				return is(c)
			case "Bool":
				st.cells[c.cell] = args[1]
				if set {
					st.cells[c.cell] = &tBool{known: true, val: v == "" || v == "true"}
				}
				return is(c)
			}
		}
		if fn.Name() == "Parse" {
			return is(nil)
		}
	case "go/format":
		if fn.Name() == "Source" {
			return is(tTuple{args[0], tNil{}})
		}
	}
	if !strings.HasPrefix(pkg, avo) {
		return nil, false
	}
	if fn.Signature.Recv() != nil && pkg == avo+"operand" {
		m, ok := args[0].(*tStruct)
		if ok && len(m.f) == 5 {
			n := &tStruct{f: append([]tval(nil), m.f...)}
			switch fn.Name() {
			case "Offset":
				a, ok1 := m.f[1].(*tInt)
				b, ok2 := args[1].(*tInt)
				if ok1 && ok2 {
					n.f[1] = &tInt{a.l.Add(b.l)}
					return is(n)
				}
			case "Idx":
				n.f[3], n.f[4] = args[1], args[2]
				return is(n)
			}
		}
		t.report("undecided", fr.fn, pos, "operand method "+fn.Name()+" is not modelled")
		return is(t.fresh(st, fn.Signature.Results(), "avo", 0))
	}
	if pkg == avo+"operand" {
		switch fn.Name() {
		case "Imm":
			if i, ok := args[0].(*tInt); ok {
				return is(&tInt{i.l})
			}
		case "NewParamAddr":
			off, ok := args[1].(*tInt)
			if k, isC := off.l.isConst(); ok && isC {
				return is(memOf(fmt.Sprintf("fp:%d", k), 0))
			}
		}
		if fn.Name() == "init" {
			return is(nil)
		}
		t.report("undecided", fr.fn, pos, "operand function "+fn.Name()+" is not modelled")
		return is(t.fresh(st, fn.Signature.Results(), "avo", 0))
	}
	if pkg != avo+"build" {
		return nil, false
	}
	if fn.Signature.Recv() != nil {
		args = args[1:]
	}
	name := fn.Name()
	unknown := func() ([]tOut, bool) {
		t.report("undecided", fr.fn, pos, "the assembler call "+name+" is not modelled")
		r := fn.Signature.Results()
		switch r.Len() {
		case 0:
			return is(nil)
		case 1:
			return is(t.fresh(st, r.At(0).Type(), "avo", 0))
		}
		return is(t.fresh(st, r, "avo", 0))
	}
	switch name {
	case "TEXT":
		nm, ok1 := t.str(st, args[0])
		sig, ok2 := t.str(st, args[2])
		if !ok1 || !ok2 {
			return unknown()
		}
		fl := ""
		if i, ok := args[1].(*tInt); ok {
			if k, ok := i.l.isConst(); ok {
				fl = fmt.Sprint(k)
			}
		}
		st.emits = append(st.emits, emitIns{op: "TEXT " + nm, pos: pos, sig: sig, flag: fl})
		return is(nil)
	case "GP64", "GP32", "GP16", "GP8", "GP8L", "GP8H", "XMM", "YMM", "ZMM":
		sz := map[string]int{"GP64": 8, "GP32": 4, "GP16": 2, "GP8": 1, "GP8L": 1, "GP8H": 1, "XMM": 16, "YMM": 32, "ZMM": 64}[name]
		if name == "GP8H" {
			return unknown()
		}
		return is(t.reg(fmt.Sprintf("v%d", t.next()), sz))
	case "Param", "Return", "ParamIndex", "ReturnIndex":
		sig := t.curSig(st)
		if sig == nil {
			return unknown()
		}
		slots, _, _ := frameLayout(sig)
		tup, base := sig.Params(), true
		if strings.HasPrefix(name, "Return") {
			tup, base = sig.Results(), false
		}
		ix := -1
		if strings.HasSuffix(name, "Index") {
			if i, ok := args[0].(*tInt); ok {
				if k, ok := i.l.isConst(); ok {
					ix = int(k)
				}
			}
		} else if s, ok := t.str(st, args[0]); ok {
			for i := 0; i < tup.Len(); i++ {
				if tup.At(i).Name() == s {
					ix = i
				}
			}
		}
		if ix < 0 || ix >= tup.Len() {
			t.report("content", fr.fn, pos, "the generator refers to a parameter that its signature does not have")
			return is(&tOpq{key: "comp:none"})
		}
		n := -1
		for _, s := range slots {
			if s.comp != 0 {
				continue
			}
			if base && s.param == ix || !base && s.param == -1 && s.typ == tup.At(ix).Type() && nameOf(s.name) == tup.At(ix).Name() {
				n = int(s.off)
			}
		}
		if n < 0 {
			return unknown()
		}
		return is(t.comp(tup.At(ix).Type(), memOf(fmt.Sprintf("fp:%d", n), 0)))
	case "Load":
		c := t.compOf(args[0])
		_, sz, ok := regOf(args[1])
		if c == nil || !ok {
			return unknown()
		}
		t.mov(fr, pos, c.addr, args[1], sizeOf(c.typ), sz, c.typ)
		return is(args[1])
	case "Store":
		c := t.compOf(args[1])
		_, sz, ok := regOf(args[0])
		if c == nil || !ok {
			return unknown()
		}
		t.mov(fr, pos, args[0], c.addr, sz, sizeOf(c.typ), c.typ)
		return is(nil)
	case "Dereference":
		c := t.compOf(args[0])
		if c == nil {
			return unknown()
		}
		pt, ok := c.typ.Underlying().(*types.Pointer)
		if !ok {
			return unknown()
		}
		r := t.reg(fmt.Sprintf("v%d", t.next()), 8)
		t.mov(fr, pos, c.addr, r, 8, 8, types.Typ[types.Uintptr])
		m := memOf("", 0)
		m.f[2] = r
		return is(t.comp(pt.Elem(), m))
	case "ConstData":
		nm, ok := t.str(st, args[0])
		i, ok2 := args[1].(*tInt)
		if !ok || !ok2 {
			return unknown()
		}
		k, ok3 := i.l.isConst()
		w := int64(0)
		if dt := t.dyn[i]; dt != nil {
			w = types.SizesFor("gc", "amd64").Sizeof(dt)
		}
		if !ok3 || w == 0 {
			return unknown()
		}
		s := &AsmSym{data: map[int64]uint8{}, size: w, flags: "RODATA|NOPTR"}
		for b := int64(0); b < w; b++ {
			s.data[b] = uint8(uint64(k) >> uint(8*b))
		}
		t.syms[nm] = s
		t.curSym = nm
		return is(memOf("sym:"+nm, 0))
	case "GLOBL":
		nm, ok := t.str(st, args[0])
		if !ok {
			return unknown()
		}
		t.syms[nm] = &AsmSym{data: map[int64]uint8{}}
		t.curSym = nm
		return is(memOf("sym:"+nm, 0))
	case "DATA":
		off, ok := args[0].(*tInt)
		i, ok2 := args[1].(*tInt)
		s := t.syms[t.curSym]
		if !ok || !ok2 || s == nil || t.dyn[i] == nil {
			return unknown()
		}
		o, ok3 := off.l.isConst()
		k, ok4 := i.l.isConst()
		if !ok3 || !ok4 {
			return unknown()
		}
		w := types.SizesFor("gc", "amd64").Sizeof(t.dyn[i])
		for b := int64(0); b < w; b++ {
			s.data[o+b] = uint8(uint64(k) >> uint(8*b))
		}
		if s.size < o+w {
			s.size = o + w
		}
		return is(nil)
	case "Generate":
		st.bools["generated"] = true
		return is(nil)
	case "Doc", "Comment", "Commentf", "Pragma", "Package", "Constraint", "ConstraintExpr", "init":
		return is(nil)
	}
	if name == strings.ToUpper(name) && name != "" {
		e := emitIns{op: name, pos: pos}
		var flat []tval
		for _, a := range args {
			if l, ok := a.(*tList); ok && l.open == "" {
				flat = append(flat, l.elems...)
			} else if _, isNil := a.(tNil); !isNil {
				flat = append(flat, a)
			}
		}
		for _, a := range flat {
			o, ok := t.operand(a)
			if !ok {
				return unknown()
			}
			e.args = append(e.args, o)
		}
		st.emits = append(st.emits, e)
		return is(nil)
	}
	return unknown()
}

func nameOf(s string) string { return strings.TrimSuffix(s, "_base") }

func sizeOf(t types.Type) int { return int(types.SizesFor("gc", "amd64").Sizeof(t)) }

func (t *Text) comp(ty types.Type, addr tval) tval {
	k := fmt.Sprintf("comp:%d", t.next())
	t.comps[k] = &component{ty, addr}
	return &tOpq{key: k}
}

func (t *Text) compOf(v tval) *component {
	if o, ok := v.(*tOpq); ok {
		return t.comps[o.key]
	}
	return nil
}

// curSig: the signature of the routine being emitted.
func (t *Text) curSig(st *tState) *types.Signature {
	for i := len(st.emits) - 1; i >= 0; i-- {
		if strings.HasPrefix(st.emits[i].op, "TEXT ") {
			return parseSig(st.emits[i].sig)
		}
	}
	return nil
}

var sigCache = map[string]*types.Signature{}

func parseSig(s string) *types.Signature {
	if r, ok := sigCache[s]; ok {
		return r
	}
	tv, err := types.Eval(token.NewFileSet(), types.NewPackage("x", "x"), token.NoPos, "("+s+")(nil)")
	var r *types.Signature
	if err == nil {
		r, _ = tv.Type.(*types.Signature)
	}
	sigCache[s] = r
	return r
}

// genMethod models the methods of registers and components.
func (t *Text) genMethod(fr *tFrame, name string, args []tval, pos token.Pos, rt types.Type) ([]tOut, bool) {
	st := fr.st
	is := func(v tval) ([]tOut, bool) { return []tOut{{st, v, "", pos}}, true }
	if n, _, ok := regOf(args[0]); ok {
		sz := map[string]int{"As8": 1, "As8L": 1, "As16": 2, "As32": 4, "As64": 8, "AsX": 16, "AsY": 32, "AsZ": 64}[name]
		if sz != 0 {
			return is(t.reg(n, sz))
		}
		if name == "As8H" {
			return is(t.reg(n+".H", 1))
		}
		t.report("undecided", fr.fn, pos, "register method "+name+" is not modelled")
		return nil, false
	}
	c := t.compOf(args[0])
	if c == nil {
		return nil, false
	}
	at := func(d int64) tval {
		m := c.addr.(*tStruct)
		n := &tStruct{f: append([]tval(nil), m.f...)}
		if i, ok := m.f[1].(*tInt); ok {
			n.f[1] = &tInt{i.l.AddK(d)}
		}
		return n
	}
	switch name {
	case "Base":
		return is(t.comp(types.Typ[types.Uintptr], at(0)))
	case "Len":
		return is(t.comp(types.Typ[types.Int], at(8)))
	case "Cap":
		return is(t.comp(types.Typ[types.Int], at(16)))
	case "Resolve":
		ty := c.typ
		if _, ok := ty.Underlying().(*types.Pointer); ok {
			ty = types.Typ[types.Uintptr]
		}
		if _, ok := ty.Underlying().(*types.Basic); !ok {
			return is(tTuple{tNil{}, t.someErr(st, "resolve")})
		}
		cell := t.newCell("basic")
		// type Basic struct { Addr operand.Mem; Type *types.Basic }
		st.cells[cell.cell+".0"] = c.addr
		return is(tTuple{cell, tNil{}})
	case "Dereference":
		pt, ok := c.typ.Underlying().(*types.Pointer)
		if ok {
			m := memOf("", 0)
			m.f[2] = args[1]
			return is(t.comp(pt.Elem(), m))
		}
	case "Index":
		if i, ok := args[1].(*tInt); ok {
			if a, ok := c.typ.Underlying().(*types.Array); ok {
				if k, ok := i.l.isConst(); ok {
					return is(t.comp(a.Elem(), at(k*int64(sizeOf(a.Elem())))))
				}
			}
		}
	}
	t.report("undecided", fr.fn, pos, "component method "+name+" is not modelled")
	return nil, false
}

// mov picks the instruction as the assembler library does.
func (t *Text) mov(fr *tFrame, pos token.Pos, a, b tval, an, bn int, ty types.Type) {
	if _, ok := ty.Underlying().(*types.Pointer); ok {
		ty = types.Typ[types.Uintptr]
	}
	bt, ok := ty.Underlying().(*types.Basic)
	op := ""
	if ok && bt.Info()&types.IsInteger != 0 {
		z := "S"
		if bt.Info()&types.IsUnsigned != 0 {
			z = "Z"
		}
		l := map[int]string{1: "B", 2: "W", 4: "L", 8: "Q"}
		switch {
		case an == bn && an <= 8:
			op = "MOV" + l[an]
		case an == 16 && bn == 16:
			op = "MOVOU"
		case an < bn && bn <= 8 && an != 4 || an == 4 && bn == 8:
			op = "MOV" + l[an] + l[bn] + z + "X"
		case (an == 4 || an == 8) && bn == 16, an == 16 && (bn == 4 || bn == 8):
			op = "MOVQ"
		}
	}
	if ok && bt.Info()&types.IsFloat != 0 {
		switch {
		case an == 8 && bn == 16, an == 16 && bn == 8:
			op = "MOVSD"
		case an == 4 && bn == 16, an == 16 && bn == 4:
			op = "MOVSS"
		}
	}
	x, ok1 := t.operand(a)
	y, ok2 := t.operand(b)
	if op == "" || !ok1 || !ok2 {
		t.report("undecided", fr.fn, pos, "the move instruction of this load or store cannot be deduced")
		return
	}
	fr.st.emits = append(fr.st.emits, emitIns{op: op, args: []Operand{x, y}, pos: pos})
}

func (t *Text) operand(v tval) (Operand, bool) {
	o := Operand{scale: 1}
	if n, _, ok := regOf(v); ok {
		o.kind, o.reg = 'r', n
		return o, true
	}
	switch x := v.(type) {
	case *tInt:
		k, ok := x.l.isConst()
		o.kind, o.imm = 'i', k
		return o, ok
	case *tOpq:
		if strings.HasPrefix(x.key, "g:"+avo+"reg.") {
			o.kind, o.reg = 'r', strings.TrimPrefix(x.key, "g:"+avo+"reg.")
			return o, true
		}
	case *tStruct:
		if len(x.f) != 5 {
			return o, false
		}
		d, ok := x.f[1].(*tInt)
		if !ok {
			return o, false
		}
		k, ok := d.l.isConst()
		if !ok {
			return o, false
		}
		o.off = k
		if y, ok := x.f[0].(*tStruct); ok && len(y.f) > 0 {
			key := ""
			if z, ok := y.f[0].(*tStr); ok {
				if key, ok = z.r.constant(); !ok {
					return o, false
				}
			}
			if strings.HasPrefix(key, "fp:") {
				n, _ := strconv.ParseInt(key[3:], 10, 64)
				o.kind = 'f'
				o.off += n
				return o, true
			}
			if strings.HasPrefix(key, "sym:") {
				o.kind, o.name = 's', key[4:]
				return o, true
			}
			if key != "" {
				return o, false
			}
		}
		o.kind = 'm'
		if n, _, ok := regOf(x.f[2]); ok {
			o.reg = n
		} else if _, isNil := x.f[2].(tNil); !isNil {
			return o, false
		}
		if n, _, ok := regOf(x.f[3]); ok {
			o.idx = n
			if s, ok := x.f[4].(*tInt); ok {
				if k, ok := s.l.isConst(); ok && k > 0 {
					o.scale = k
				}
			}
		}
		return o, true
	}
	return o, false
}

// ---- value graphs ----

type graph struct {
	nodes map[string]int
	names []string
	regs  map[string]int
	ver   int
	out   []string // stores in order
	outAt []string // where
	fp    map[string]string
	fpAt  map[string]string
	seq   []int    // node or effect of every instruction
	text  []string // its text
	bad   string
}

func (g *graph) node(k string) int {
	if n, ok := g.nodes[k]; ok {
		return n
	}
	g.nodes[k] = len(g.names)
	g.names = append(g.names, k)
	return len(g.names) - 1
}

func regBase(r string) (string, string) {
	if strings.HasSuffix(r, ".H") {
		return r[:len(r)-2], "H"
	}
	switch r {
	case "AL", "BL", "CL", "DL":
		return r[:1] + "X", ""
	case "AH", "BH", "CH", "DH":
		return r[:1] + "X", "H"
	case "SIB", "DIB", "BPB", "SPB":
		return r[:2], ""
	}
	if r[0] == 'R' && len(r) > 2 {
		return strings.TrimRight(r, "BWL"), ""
	}
	if (r[0] == 'Y' || r[0] == 'Z') && len(r) > 1 && r[1] >= '0' && r[1] <= '9' {
		return "X" + r[1:], ""
	}
	return r, ""
}

func (g *graph) read(r string) string {
	b, part := regBase(r)
	n, ok := g.regs[b]
	if !ok {
		n = g.node("uninitialised " + b)
	}
	return fmt.Sprintf("%d%s", n, part)
}

var rmwExtra = map[string]bool{"MOVB": true, "MOVW": true}

// build follows a routine; every symbol is replaced by its content.
func (g *graph) build(ins []AsmIns, syms map[string]*AsmSym) {
	for _, in := range ins {
		if g.bad != "" {
			return
		}
		op := in.op
		if op == "RET" {
			return
		}
		if strings.HasPrefix(op, "J") || op == "CALL" || strings.HasPrefix(op, "CMP") || strings.HasPrefix(op, "TEST") || strings.HasPrefix(op, "SET") || strings.HasPrefix(op, "CMOV") || op == "XCHGQ" || op == "ADCQ" || op == "SBBQ" || op == "VPTEST" {
			g.bad = "instruction " + in.text + " is not followed"
			return
		}
		if op == "NOP" || len(in.args) == 0 {
			if op != "NOP" && op != "VZEROUPPER" && op != "VZEROALL" {
				g.bad = "instruction " + in.text + " is not followed"
			}
			continue
		}
		src := func(o Operand) string {
			switch o.kind {
			case 'i':
				return fmt.Sprintf("$%d", o.imm)
			case 'r':
				return g.read(o.reg)
			case 'f':
				if v, ok := g.fp[fmt.Sprint(o.off)]; ok {
					return v
				}
				return fmt.Sprintf("frame+%d", o.off)
			case 's':
				s := syms[o.name]
				if s == nil {
					return "symbol " + o.name
				}
				k := "const["
				for i := o.off; i < s.size; i++ {
					k += fmt.Sprintf("%02x", s.data[i])
				}
				ro := "writable"
				if strings.Contains(s.flags, "RODATA") {
					ro = "read-only"
				}
				return k + "]" + ro
			case 'm':
				return g.addr(o) + fmt.Sprintf("@%d", g.ver)
			}
			g.bad = "operand " + o.text + " is not followed"
			return "?"
		}
		dst := in.args[len(in.args)-1]
		var ps []string
		for _, a := range in.args[:len(in.args)-1] {
			ps = append(ps, src(a))
		}
		write := strings.HasPrefix(op, "V") || strings.HasPrefix(op, "MOV") && !rmwExtra[op] || strings.HasPrefix(op, "LEA") || strings.HasPrefix(op, "PMOV")
		if strings.HasPrefix(op, "VFMADD") || strings.HasPrefix(op, "VPDP") {
			write = false
		}
		if dst.kind == 'r' {
			if !write || len(in.args) == 1 {
				ps = append(ps, g.read(dst.reg))
			}
			b, part := regBase(dst.reg)
			if part != "" {
				g.bad = "a high byte register is written"
				return
			}
			var n int
			copyOp := op == "MOVQ" || op == "VMOVDQU" || op == "VMOVDQA" || op == "VMOVUPS" || op == "VMOVAPS" || op == "MOVOU" || op == "MOVO"
			if copyOp && in.args[0].kind == 'r' && len(in.args) == 2 && isVec(in.args[0].reg) == isVec(dst.reg) {
				if r, ok := g.regs[func() string { b, _ := regBase(in.args[0].reg); return b }()]; ok {
					n = r
				} else {
					n = g.node(ps[0])
				}
			} else if (op == "VPXOR" || op == "XORQ" || op == "XORL" || op == "VXORPS" || op == "PXOR") && len(in.args) >= 2 && in.args[0].kind == 'r' && in.args[1].kind == 'r' && in.args[0].reg == in.args[1].reg {
				n = g.node("zero " + op)
			} else {
				n = g.node(op + " " + strings.Join(ps, ", "))
			}
			g.regs[b] = n
			g.seq = append(g.seq, n)
			g.text = append(g.text, in.text)
			continue
		}
		switch dst.kind {
		case 'f':
			if !write && op != "MOVB" && op != "MOVW" {
				ps = append(ps, src(dst))
			}
			e := op + " " + strings.Join(ps, ", ")
			k := fmt.Sprint(dst.off)
			g.fp[k] = e
			g.fpAt[k] = in.text
			g.seq = append(g.seq, g.node("frame "+k+" = "+e))
		case 'm':
			if !write && op != "MOVB" && op != "MOVW" {
				ps = append(ps, src(dst))
			}
			e := op + " " + strings.Join(ps, ", ") + " -> " + g.addr(dst)
			g.ver++
			g.out = append(g.out, e)
			g.outAt = append(g.outAt, in.text)
			g.seq = append(g.seq, g.node("store "+e))
		default:
			g.bad = "instruction " + in.text + " is not followed"
		}
		g.text = append(g.text, in.text)
	}
}

func isVec(r string) bool {
	return r != "" && (r[0] == 'X' || r[0] == 'Y' || r[0] == 'Z') || strings.HasPrefix(r, "vx")
}

func (g *graph) addr(o Operand) string {
	b := ""
	if o.reg != "" {
		b = g.read(o.reg)
	}
	i := ""
	if o.idx != "" {
		i = fmt.Sprintf("+%s*%d", g.read(o.idx), o.scale)
	}
	return fmt.Sprintf("[%s%s+%d]", b, i, o.off)
}

func newGraph(nodes map[string]int) *graph {
	return &graph{nodes: nodes, regs: map[string]int{}, fp: map[string]string{}, fpAt: map[string]string{}}
}

func (c *Check) genAsm(d directive, sp *ssa.Package, target string) {
	p := c.prog
	t := newGen(p, d)
	outs, err := t.runMain(sp.Func("main"))
	mainPos := p.pos(sp.Func("main").Pos())
	fn := sp.Func("main").RelString(nil)
	if err != nil {
		c.fail("undecided", fn, mainPos, "analysis failure: "+err.Error())
		return
	}
	c.add(t.bad...)
	if len(t.bad) > 0 {
		return
	}
	var end *tState
	for _, o := range outs {
		if o.end == "" {
			if end != nil {
				c.fail("undecided", fn, mainPos, "what the generator emits depends on something that is not known")
				return
			}
			end = o.st
		}
	}
	if end == nil || !end.bools["generated"] {
		c.fail("content", fn, mainPos, "the generator emits nothing")
		return
	}
	fns, syms, errs := parseAsmFile(filepath.Join(p.root, target), target)
	c.add(errs...)
	have := map[string]*AsmFn{}
	for _, f := range fns {
		have[f.name] = f
	}
	decl := p.spkgs[p.module+"/"+filepath.ToSlash(filepath.Dir(target))]
	seen := map[string]bool{}
	for i := 0; i < len(end.emits); {
		e := end.emits[i]
		if !strings.HasPrefix(e.op, "TEXT ") {
			c.fail("content", fn, p.pos(e.pos), "an instruction is emitted outside a routine")
			return
		}
		nm := e.op[5:]
		j := i + 1
		var ins []AsmIns
		var at []string
		vec := map[string]bool{}
		for ; j < len(end.emits) && !strings.HasPrefix(end.emits[j].op, "TEXT "); j++ {
			x := end.emits[j]
			in := AsmIns{op: x.op, args: x.args}
			var as []string
			for _, a := range x.args {
				as = append(as, showOperand(a))
			}
			in.text = x.op + " " + strings.Join(as, ", ")
			ins = append(ins, in)
			at = append(at, p.pos(x.pos))
		}
		_ = vec
		i = j
		seen[nm] = true
		c.count("routines", 1)
		com := have[nm]
		if com == nil {
			c.fail("content", nm, p.pos(e.pos), "the generator emits "+nm+", which "+target+" does not contain")
			continue
		}
		where := fmt.Sprintf("%s:%d", com.file, com.line)
		sig := parseSig(e.sig)
		if sig == nil {
			c.fail("undecided", nm, p.pos(e.pos), "the signature "+e.sig+" cannot be parsed")
			continue
		}
		_, args, _ := frameLayout(sig)
		if com.args != args {
			c.fail("content", nm, where, fmt.Sprintf("the committed routine declares %d bytes of arguments, the generator's signature has %d", com.args, args))
		}
		if com.frame != 0 {
			c.fail("content", nm, where, fmt.Sprintf("the committed routine has a frame of %d bytes, the generator emits none", com.frame))
		}
		if e.flag == "4" != (strings.TrimSpace(com.flags) == "NOSPLIT") {
			c.fail("content", nm, where, "the flags of the committed routine ("+com.flags+") differ from those the generator emits ("+e.flag+")")
		}
		if decl != nil {
			if df := decl.Func(nm); df != nil {
				q := func(*types.Package) string { return "" }
				a := types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(df.Signature.Params()), stripNames(df.Signature.Results()), false), q)
				b := types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(sig.Params()), stripNames(sig.Results()), false), q)
				c.obl++
				if a != b {
					c.fail("content", nm, p.pos(df.Pos()), "the Go declaration is "+a+", the generator's signature "+b)
				}
			}
		}
		nodes := map[string]int{}
		var names []string
		g1 := newGraph(nodes)
		g1.build(ins, t.syms)
		names = g1.names
		g2 := newGraph(nodes)
		g2.names = append(g2.names, names...)
		g2.build(com.ins, syms)
		c.obl += len(ins) + len(com.ins)
		c.count("instructions_emitted", len(ins))
		c.count("instructions_committed", len(com.ins))
		if g1.bad != "" || g2.bad != "" {
			c.fail("undecided", nm, where, g1.bad+g2.bad)
			continue
		}
		c.compareGraphs(nm, where, com, at, g1, g2)
		c.sample("%s: %d emitted and %d committed instructions, %d stores and %d results agree", nm, len(ins), len(com.ins), len(g1.out), len(g1.fp))
	}
	for _, f := range fns {
		if !seen[f.name] {
			c.fail("content", f.name, fmt.Sprintf("%s:%d", f.file, f.line), "the committed routine "+f.name+" is not emitted by the generator, so regeneration removes it")
		}
	}
}

func showOperand(o Operand) string {
	switch o.kind {
	case 'i':
		return fmt.Sprintf("$%#x", o.imm)
	case 'r':
		return o.reg
	case 'f':
		return fmt.Sprintf("+%d(FP)", o.off)
	case 's':
		return o.name + "(SB)"
	}
	s := ""
	if o.off != 0 {
		s = fmt.Sprint(o.off)
	}
	s += "(" + o.reg + ")"
	if o.idx != "" {
		s += fmt.Sprintf("(%s*%d)", o.idx, o.scale)
	}
	return s
}

func (c *Check) compareGraphs(nm, where string, com *AsmFn, at []string, g1, g2 *graph) {
	same := len(g1.out) == len(g2.out) && len(g1.fp) == len(g2.fp)
	what := ""
	for i := 0; same && i < len(g1.out); i++ {
		if g1.out[i] != g2.out[i] {
			same = false
			what = fmt.Sprintf("store %d (%s)", i, g2.outAt[i])
		}
	}
	for k, v := range g1.fp {
		if same && g2.fp[k] != v {
			same = false
			what = "the result at frame offset " + k
		}
	}
	if same {
		return
	}
	if what == "" {
		what = fmt.Sprintf("the stores (%d emitted, %d committed)", len(g1.out), len(g2.out))
	}
	// the first instruction that computes something the other side never does
	first := ""
	in2 := map[int]bool{}
	for _, n := range g2.seq {
		in2[n] = true
	}
	in1 := map[int]bool{}
	for _, n := range g1.seq {
		in1[n] = true
	}
	for i, n := range g1.seq {
		if !in2[n] {
			p := "?"
			if i < len(at) {
				p = at[i]
			}
			first += "; the generator emits " + g1.text[i] + " at " + p
			break
		}
	}
	pos := where
	for i, n := range g2.seq {
		if !in1[n] {
			first += "; the committed code has " + g2.text[i]
			if i < len(com.ins) {
				pos = fmt.Sprintf("%s:%d", com.file, com.ins[i].line)
			}
			break
		}
	}
	c.fail("content", nm, pos, "regeneration changes "+what+first)
}

// ---- generated Go ----

func (c *Check) genGo(d directive, sp *ssa.Package, target string) {
	p := c.prog
	t := newGen(p, d)
	m := sp.Func("main")
	outs, err := t.runMain(m)
	fn, pos := m.RelString(nil), p.pos(m.Pos())
	if err != nil {
		c.fail("undecided", fn, pos, "analysis failure: "+err.Error())
		return
	}
	c.add(t.bad...)
	c.count("generator_paths", len(outs))
	c.count("generator_steps", t.steps)
	name := constRope(d.args["out"]).key()
	text, found := "", false
	for _, o := range outs {
		fs := o.st.files[name]
		if fs == nil || !fs.trunc || fs.failed || t.cx.unsat(o.st.cons) {
			continue
		}
		s, ok := fs.content.constant()
		if !ok {
			c.fail("undecided", fn, pos, "what the generator writes is not known: "+clip(t.show(fs.content), 300))
			return
		}
		if found && s != text {
			c.fail("undecided", fn, pos, "what the generator writes depends on something that is not known")
			return
		}
		text, found = s, true
	}
	if !found {
		c.fail("content", fn, pos, "the generator does not write "+target)
		return
	}
	gen, err1 := goTables(target+" (regenerated)", text)
	b, _ := os.ReadFile(filepath.Join(p.root, target))
	com, err2 := goTables(target, string(b))
	if err1 != nil {
		c.fail("content", fn, pos, "what the generator writes does not compile: "+err1.Error())
		return
	}
	if err2 != nil {
		c.fail("undecided", fn, target, "the committed tables cannot be evaluated: "+err2.Error())
		return
	}
	if gen.pkg != com.pkg {
		c.fail("content", fn, target, "regeneration changes the package name to "+gen.pkg)
	}
	for _, n := range sortedStr(com.vals) {
		if _, ok := gen.vals[n]; !ok {
			c.fail("content", fn, target, "regeneration removes "+n)
		}
	}
	for _, n := range sortedStr(gen.vals) {
		g := gen.vals[n]
		cm, ok := com.vals[n]
		c.count("tables", 1)
		if !ok {
			c.fail("content", fn, target, "regeneration adds "+n)
			continue
		}
		if gen.typ[n] != com.typ[n] {
			c.fail("content", fn, com.pos[n], "regeneration changes the type of "+n+" from "+com.typ[n]+" to "+gen.typ[n])
			continue
		}
		c.obl += len(g)
		c.count("table_entries", len(g))
		bad := 0
		for _, k := range unionKeys(g, cm) {
			if g[k] != cm[k] {
				if bad++; bad <= 3 {
					c.fail("content", fn, com.at[n+k], fmt.Sprintf("regeneration changes %s%s from %s to %s", n, k, or0(cm[k]), or0(g[k])))
				}
			}
		}
		c.sample("%s %s: %d entries agree", n, gen.typ[n], len(g)-bad)
	}
}

func or0(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func sortedStr[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func unionKeys(a, b map[string]string) []string {
	u := map[string]bool{}
	for k, v := range a {
		if v != "0" {
			u[k] = true
		}
	}
	for k, v := range b {
		if v != "0" {
			u[k] = true
		}
	}
	return sortedStr(u)
}

type tableFile struct {
	pkg  string
	vals map[string]map[string]string // variable -> index path -> value
	typ  map[string]string
	pos  map[string]string
	at   map[string]string // variable and index path -> position
}

// goTables evaluates the package-level variables and constants of a file whose
// initialisers are literals.
func goTables(name, src string) (*tableFile, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		return nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: importer.ForCompiler(fs, "source", nil)}
	pk, err := cfg.Check("x", fs, []*ast.File{f}, info)
	if err != nil {
		return nil, err
	}
	r := &tableFile{f.Name.Name, map[string]map[string]string{}, map[string]string{}, map[string]string{}, map[string]string{}}
	q := func(*types.Package) string { return "" }
	where := func(p token.Pos) string { x := fs.Position(p); return fmt.Sprintf("%s:%d", x.Filename, x.Line) }
	var eval func(v string, path string, e ast.Expr) error
	eval = func(v, path string, e ast.Expr) error {
		r.at[v+path] = where(e.Pos())
		if tv := info.Types[e]; tv.Value != nil {
			r.vals[v][path] = tv.Value.ExactString()
			return nil
		}
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(v, path, x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				return eval(v, path, x.X)
			}
		case *ast.CompositeLit:
			switch info.Types[x].Type.Underlying().(type) {
			case *types.Array, *types.Slice:
			default:
				return fmt.Errorf("%s: literal is not evaluated", where(x.Pos()))
			}
			i := int64(0)
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					k, ok := constant.Int64Val(constant.ToInt(info.Types[kv.Key].Value))
					if !ok {
						return fmt.Errorf("%s: key is not evaluated", where(kv.Pos()))
					}
					i = k
					el = kv.Value
				}
				if err := eval(v, fmt.Sprintf("%s[%d]", path, i), el); err != nil {
					return err
				}
				i++
			}
			return nil
		}
		return fmt.Errorf("%s: initialiser is not evaluated", where(e.Pos()))
	}
	for _, dcl := range f.Decls {
		switch x := dcl.(type) {
		case *ast.FuncDecl:
			r.vals["func "+x.Name.Name] = map[string]string{}
			r.typ["func "+x.Name.Name] = "func"
		case *ast.GenDecl:
			for _, sp := range x.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok {
					continue
				}
				for i, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					o := pk.Scope().Lookup(id.Name)
					r.vals[id.Name] = map[string]string{}
					r.typ[id.Name] = types.TypeString(o.Type(), q)
					r.pos[id.Name] = where(id.Pos())
					if cn, ok := o.(*types.Const); ok {
						r.vals[id.Name][""] = cn.Val().ExactString()
						continue
					}
					if i < len(vs.Values) {
						if err := eval(id.Name, "", vs.Values[i]); err != nil {
							return nil, err
						}
					}
				}
			}
		}
	}
	return r, nil
}
