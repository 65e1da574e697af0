package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Go assembly: parsing
// ---------------------------------------------------------------------------

type Operand struct {
	kind  byte // 'i' imm, 'r' reg, 'm' mem, 'f' FP, 's' SB symbol, 'l' label, '?' other
	imm   int64
	reg   string
	idx   string
	scale int64
	off   int64
	name  string
	text  string
}

type AsmIns struct {
	op   string
	args []Operand
	line int
	text string
}

type AsmFn struct {
	name    string
	file    string // relative
	line    int
	frame   int64
	args    int64
	flags   string
	ins     []AsmIns
	labels  map[string]int
	fn      *ssa.Function
	problem string
}

type AsmSym struct {
	data  map[int64]uint8
	size  int64
	flags string
}

type AsmSet struct {
	fns     map[*ssa.Function]*AsmFn
	list    []*AsmFn
	syms    map[string]*AsmSym // file-local name
	errs    []Finding
	sums    map[string]*AsmSummary
	orphans []*AsmFn // TEXT without a declaration
}

func parseOperand(s string) Operand {
	s = strings.TrimSpace(s)
	o := Operand{kind: '?', text: s, scale: 1}
	num := func(x string) (int64, bool) {
		x = strings.TrimSpace(x)
		neg := false
		if strings.HasPrefix(x, "-") {
			neg = true
			x = x[1:]
		} else if strings.HasPrefix(x, "+") {
			x = x[1:]
		}
		v, err := strconv.ParseUint(x, 0, 64)
		if err != nil {
			return 0, false
		}
		r := int64(v)
		if neg {
			r = -r
		}
		return r, true
	}
	if strings.HasPrefix(s, "$") {
		if v, ok := num(strings.Trim(s[1:], "()")); ok {
			o.kind, o.imm = 'i', v
		}
		return o
	}
	if i := strings.Index(s, "("); i >= 0 {
		pre := s[:i]
		var groups []string
		rest := s[i:]
		for strings.HasPrefix(rest, "(") {
			j := strings.Index(rest, ")")
			if j < 0 {
				return o
			}
			groups = append(groups, strings.TrimSpace(rest[1:j]))
			rest = strings.TrimSpace(rest[j+1:])
		}
		if rest != "" {
			return o
		}
		base := groups[0]
		if base == "FP" || base == "SB" {
			nm, off := pre, int64(0)
			if k := strings.LastIndexAny(pre, "+-"); k > 0 {
				v, ok := num(pre[k:])
				if !ok {
					return o
				}
				nm, off = pre[:k], v
			}
			o.name, o.off = nm, off
			o.kind = 'f'
			if base == "SB" {
				o.kind = 's'
			}
			return o
		}
		if pre != "" {
			v, ok := num(pre)
			if !ok {
				return o
			}
			o.off = v
		}
		setIdx := func(g string) bool {
			p := strings.Split(g, "*")
			o.idx = strings.TrimSpace(p[0])
			if len(p) == 2 {
				v, ok := num(p[1])
				if !ok {
					return false
				}
				o.scale = v
			}
			return true
		}
		if strings.Contains(base, "*") {
			if !setIdx(base) {
				return o
			}
		} else {
			o.reg = base
		}
		if len(groups) > 1 && !setIdx(groups[1]) {
			return o
		}
		o.kind = 'm'
		return o
	}
	if s != "" && isRegName(s) {
		o.kind, o.reg = 'r', s
		return o
	}
	o.kind = 'l'
	return o
}

func isRegName(s string) bool {
	switch s {
	case "AX", "BX", "CX", "DX", "SI", "DI", "BP", "SP", "AL", "AH", "BL", "BH", "CL", "CH", "DL", "DH", "SIB", "DIB", "BPB", "SPB":
		return true
	}
	if len(s) >= 2 && (s[0] == 'R' || s[0] == 'X' || s[0] == 'Y' || s[0] == 'Z' || s[0] == 'K') {
		t := strings.TrimRight(s[1:], "BWL")
		_, err := strconv.Atoi(t)
		return err == nil
	}
	return false
}

func parseAsmFile(path, rel string) (fns []*AsmFn, syms map[string]*AsmSym, errs []Finding) {
	syms = map[string]*AsmSym{}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, syms, []Finding{{"undecided", rel, rel, err.Error()}}
	}
	var cur *AsmFn
	inBlock := false
	for li, raw := range strings.Split(string(b), "\n") {
		line := li + 1
		s := raw
		if inBlock {
			if j := strings.Index(s, "*/"); j >= 0 {
				s = s[j+2:]
				inBlock = false
			} else {
				continue
			}
		}
		for {
			j := strings.Index(s, "/*")
			if j < 0 {
				break
			}
			e := strings.Index(s[j:], "*/")
			if e < 0 {
				s = s[:j]
				inBlock = true
				break
			}
			s = s[:j] + " " + s[j+e+2:]
		}
		if j := strings.Index(s, "//"); j >= 0 {
			s = s[:j]
		}
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		if strings.HasPrefix(s, "#") {
			if !strings.HasPrefix(s, "#include") {
				errs = append(errs, Finding{"undecided", rel, fmt.Sprintf("%s:%d", rel, line), "preprocessor directive is not analysed: " + s})
			}
			continue
		}
		for _, st := range strings.Split(s, ";") {
			st = strings.TrimSpace(st)
			if st == "" {
				continue
			}
			if i := strings.Index(st, ":"); i > 0 && !strings.ContainsAny(st[:i], " \t,($") {
				if cur != nil {
					cur.labels[st[:i]] = len(cur.ins)
				}
				st = strings.TrimSpace(st[i+1:])
				if st == "" {
					continue
				}
			}
			f := strings.Fields(st)
			op := f[0]
			rest := strings.TrimSpace(st[len(op):])
			var parts []string
			if rest != "" {
				depth := 0
				last := 0
				for i, ch := range rest {
					switch ch {
					case '(':
						depth++
					case ')':
						depth--
					case ',':
						if depth == 0 {
							parts = append(parts, strings.TrimSpace(rest[last:i]))
							last = i + 1
						}
					}
				}
				parts = append(parts, strings.TrimSpace(rest[last:]))
			}
			pos := fmt.Sprintf("%s:%d", rel, line)
			switch op {
			case "TEXT":
				cur = nil
				if len(parts) < 2 {
					errs = append(errs, Finding{"undecided", rel, pos, "malformed TEXT"})
					continue
				}
				nm := strings.TrimSuffix(parts[0], "(SB)")
				if i := strings.LastIndex(nm, "·"); i >= 0 {
					nm = nm[i+len("·"):]
				}
				nm = strings.TrimSuffix(nm, "<>")
				sz := strings.TrimPrefix(parts[len(parts)-1], "$")
				fr, ar := sz, ""
				if i := strings.LastIndex(sz, "-"); i > 0 {
					fr, ar = sz[:i], sz[i+1:]
				}
				cur = &AsmFn{name: nm, file: rel, line: line, labels: map[string]int{}, args: -1}
				if len(parts) == 3 {
					cur.flags = parts[1]
				}
				cur.frame, _ = strconv.ParseInt(strings.TrimSpace(fr), 0, 64)
				if ar != "" {
					cur.args, _ = strconv.ParseInt(strings.TrimSpace(ar), 0, 64)
				}
				fns = append(fns, cur)
			case "DATA":
				if len(parts) != 2 {
					errs = append(errs, Finding{"undecided", rel, pos, "malformed DATA"})
					continue
				}
				dst := parts[0]
				w := int64(0)
				if i := strings.LastIndex(dst, "/"); i >= 0 {
					w, _ = strconv.ParseInt(dst[i+1:], 10, 64)
					dst = dst[:i]
				}
				o := parseOperand(dst)
				v := parseOperand(parts[1])
				if o.kind != 's' || v.kind != 'i' || w <= 0 || w > 8 {
					errs = append(errs, Finding{"undecided", rel, pos, "DATA form is not analysed: " + st})
					continue
				}
				sy := syms[o.name]
				if sy == nil {
					sy = &AsmSym{data: map[int64]uint8{}}
					syms[o.name] = sy
				}
				for i := int64(0); i < w; i++ {
					sy.data[o.off+i] = uint8(uint64(v.imm) >> uint(8*i))
				}
			case "GLOBL":
				if len(parts) < 2 {
					continue
				}
				o := parseOperand(parts[0])
				sy := syms[o.name]
				if sy == nil {
					sy = &AsmSym{data: map[int64]uint8{}}
					syms[o.name] = sy
				}
				sz := parseOperand(parts[len(parts)-1])
				sy.size = sz.imm
				if len(parts) == 3 {
					sy.flags = parts[1]
				}
			case "PCALIGN", "NO_LOCAL_POINTERS", "FUNCDATA", "PCDATA":
			default:
				if cur == nil {
					errs = append(errs, Finding{"undecided", rel, pos, "statement outside TEXT: " + st})
					continue
				}
				in := AsmIns{op: op, line: line, text: st}
				for _, p := range parts {
					in.args = append(in.args, parseOperand(p))
				}
				cur.ins = append(cur.ins, in)
			}
		}
	}
	return
}

// LoadAsm parses every assembly file that the amd64 build of the repository
// uses and pairs the routines with their Go declarations.
func (w *World) LoadAsm() {
	a := &AsmSet{fns: map[*ssa.Function]*AsmFn{}, syms: map[string]*AsmSym{}, sums: map[string]*AsmSummary{}}
	w.asm = a
	p := w.prog
	var paths []string
	for path := range p.byPath {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.byPath[path]
		sp := p.spkgs[path]
		for _, f := range pk.OtherFiles {
			if !strings.HasSuffix(f, ".s") {
				continue
			}
			rel := p.rel(f)
			fns, syms, errs := parseAsmFile(f, rel)
			a.errs = append(a.errs, errs...)
			for n, s := range syms {
				key := n
				if strings.HasSuffix(n, "<>") {
					key = filepath.Base(f) + ":" + path + ":" + n
				}
				a.syms[key] = s
			}
			for _, fn := range fns {
				if sp != nil {
					if sf := sp.Func(fn.name); sf != nil && len(sf.Blocks) == 0 {
						fn.fn = sf
						a.fns[sf] = fn
					}
				}
				if fn.fn == nil {
					a.orphans = append(a.orphans, fn)
				}
				a.list = append(a.list, fn)
				for n := range fn.ins {
					for m := range fn.ins[n].args {
						o := &fn.ins[n].args[m]
						if o.kind == 's' && strings.HasSuffix(o.name, "<>") {
							o.name = filepath.Base(f) + ":" + path + ":" + o.name
						}
					}
				}
			}
		}
	}
}

// frameSlot is one argument or result component of the ABI0 frame.
type frameSlot struct {
	name  string // as go vet names it: x, x_base, x_len, x_cap
	off   int64
	size  int64
	param int // parameter index, -1 for results
	comp  int // slice: 0 base 1 len 2 cap
	typ   types.Type
}

func frameLayout(sig *types.Signature) (slots []frameSlot, argSize int64, results int64) {
	sz := types.SizesFor("gc", "amd64")
	off := int64(0)
	add := func(v *types.Var, idx int, res bool) {
		t := v.Type()
		al := sz.Alignof(t)
		off = (off + al - 1) / al * al
		nm := v.Name()
		if nm == "" && res {
			nm = "ret"
		}
		p := idx
		if res {
			p = -1
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			for c, s := range []string{"_base", "_len", "_cap"} {
				slots = append(slots, frameSlot{nm + s, off + int64(8*c), 8, p, c, t})
			}
		} else {
			slots = append(slots, frameSlot{nm, off, sz.Sizeof(t), p, 0, t})
		}
		off += sz.Sizeof(t)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		add(sig.Params().At(i), i, false)
	}
	results = off
	if sig.Results().Len() > 0 {
		off = (off + 7) / 8 * 8
		results = off
		for i := 0; i < sig.Results().Len(); i++ {
			add(sig.Results().At(i), i, true)
		}
	}
	return slots, off, results
}
