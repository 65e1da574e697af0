package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C14: lookup tables and size helpers
// ---------------------------------------------------------------------------

func init() {
	prop("C14", "Constant evaluation of the package initialisers (abstract interpretation with every CPU-feature outcome kept apart) gives the contents of each exported table after initialisation; every row is compared with the format's definition. The size helpers are analysed for an arbitrary control value (size codes symbolic), or for every control value separately when that is undecided.", checkC14)
}

func codesOf(b int) [4]int {
	return [4]int{b&3 + 1, b>>2&3 + 1, b>>4&3 + 1, b>>6&3 + 1}
}

// tableDef: a table of the shared package, its row width and the test a byte of
// it must pass.
type tableDef struct {
	name string
	row  int
	want func(b, i int) (text string, ok func(v uint8) bool)
}

func exactly(v int) (string, func(uint8) bool) {
	return fmt.Sprintf("%#02x", v), func(x uint8) bool { return int(x) == v }
}

func clearMark() (string, func(uint8) bool) {
	return "a clear marker (bit 7 set)", func(x uint8) bool { return x&0x80 != 0 }
}

var tableDefs = []tableDef{
	{"PerNumLenTable", 4, func(b, i int) (string, func(uint8) bool) { return exactly(codesOf(b)[i]) }},
	{"PerControlLenTable", 1, func(b, i int) (string, func(uint8) bool) {
		c := codesOf(b)
		return exactly(c[0] + c[1] + c[2] + c[3])
	}},
	{"EncodeShuffleTable", 16, func(b, i int) (string, func(uint8) bool) {
		p := 0
		for j, n := range codesOf(b) {
			if i < p+n {
				return exactly(4*j + i - p)
			}
			p += n
		}
		return clearMark()
	}},
	{"DecodeShuffleTable", 16, func(b, i int) (string, func(uint8) bool) {
		c := codesOf(b)
		p := 0
		for j := 0; j < i/4; j++ {
			p += c[j]
		}
		if i%4 < c[i/4] {
			return exactly(p + i%4)
		}
		return clearMark()
	}},
}

// tableContent: the bytes a table variable leads to after initialisation.
func (w *World) tableContent(ci int, name string, n int) ([]uint8, string) {
	g := w.global("pkg/shared", name)
	if g == nil {
		return nil, "there is no variable shared." + name
	}
	it := w.interp()
	o := it.globals[g]
	if o == nil {
		return nil, "the variable is not analysed"
	}
	st := w.start(ci)
	et := g.Type().(*types.Pointer).Elem()
	switch et.Underlying().(type) {
	case *types.Array:
		if b, ok := it.tableBytes(st, &PtrV{obj: o, pos: K(0)}, n); ok {
			return b, ""
		}
		return nil, "its contents are not constant"
	case *types.Slice:
		v := it.loadElem(st, o, K(0), et)
		s, ok := v.(*SliceV)
		if !ok || s.obj == nil {
			return nil, "it is not a known slice"
		}
		if b, ok := it.tableBytes(st, &PtrV{obj: s.obj, pos: s.off}, n); ok {
			return b, ""
		}
		return nil, "its contents are not constant"
	}
	v := it.loadElem(st, o, K(0), et)
	if b, ok := it.tableBytes(st, v, n); ok {
		return b, ""
	}
	return nil, "its contents are not constant after initialisation"
}

func checkC14(c *Check) {
	if !c.load() {
		return
	}
	w := c.world
	for _, d := range tableDefs {
		rows := 0
		pos := "pkg/shared"
		if g := w.global("pkg/shared", d.name); g != nil {
			pos = c.prog.pos(g.Pos())
		}
		for ci := range w.cases {
			b, why := w.tableContent(ci, d.name, 256*d.row)
			if b == nil {
				c.fail("undecided", "shared."+d.name, pos, "not a constant table of 256 rows: "+why+" [case "+describeCase(w.cases[ci])+"]")
				continue
			}
			for r := 0; r < 256; r++ {
				rows++
				for i := 0; i < d.row; i++ {
					c.obl++
					text, ok := d.want(r, i)
					if v := b[r*d.row+i]; !ok(v) {
						c.fail("content", "shared."+d.name, pos, fmt.Sprintf("row %d (control byte %#02x), position %d holds %#02x; the definition requires %s", r, r, i, v, text))
					}
				}
			}
		}
		c.count("table_rows", rows)
		c.sample("shared.%s: %d rows of %d bytes in %d initialisation cases", d.name, 256, d.row, len(w.cases))
	}
	have := map[string]bool{}
	for _, f := range w.libFuncs() {
		n := 0
		switch f.Name() {
		case "ControlByteToSize":
			n = 4
		case "ControlByteToSizeTwo":
			n = 8
		default:
			continue
		}
		if f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		if pw, _, ok := intType(f.Signature.Params().At(0).Type()); !ok || pw < 2*n {
			continue
		}
		have[f.Name()] = true
		for ci := range w.cases {
			fs := w.sizeHelper(f, n, ci, -1)
			c.obl++
			if len(fs) == 0 {
				c.sample("%s: every control value at once", short(f))
				continue
			}
			// every control value separately
			all, runs := w.sizeHelperAll(f, n, ci)
			c.obl += runs
			c.count("control_values_analysed_separately", runs)
			if len(all) == 0 {
				c.sample("%s: %d control values separately (%s)", short(f), runs, fs[0].Msg)
			}
			c.add(all...)
		}
	}
	c.requireNames(have, "ControlByteToSize", "ControlByteToSizeTwo")
}

func (w *World) sizeHelperAll(f *ssa.Function, n, ci int) (fs []Finding, runs int) {
	total := 1 << uint(2*n)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ww := w.fork()
			for x := g; x < total; x += 8 {
				mu.Lock()
				stop := len(fs) >= 3
				mu.Unlock()
				if stop {
					return
				}
				r := ww.sizeHelper(f, n, ci, x)
				mu.Lock()
				runs++
				fs = append(fs, r...)
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	return
}

// sizeHelper: f applied to the control value of n numbers returns the number of
// their data bytes. x < 0: any control value.
func (w *World) sizeHelper(f *ssa.Function, n, ci, x int) (fs []Finding) {
	defer func() {
		if r := recover(); r != nil {
			why := fmt.Sprint(r)
			if a, ok := r.(abortErr); ok {
				why = a.why
			}
			fs = append(fs, Finding{"undecided", f.RelString(nil), w.prog.pos(f.Pos()), "analysis failure: " + why})
		}
	}()
	it := w.interp()
	it.contracts = nil
	it.entryName = f.Name()
	c := it.cx
	st := w.start(ci)
	pw, psg, _ := intType(f.Signature.Params().At(0).Type())
	var arg Val
	var want *Lin
	desc := "any control value"
	if x < 0 {
		v := it.codeVal(pw, K(0), n)
		v.signed = psg
		arg = v
		want = c.T(K(int64(n)))
	} else {
		arg = mkInt(pw, psg, K(int64(x)))
		s := 0
		for j := 0; j < n; j++ {
			s += x>>uint(2*j)&3 + 1
		}
		want = K(int64(s))
		desc = fmt.Sprintf("control value %#x", x)
	}
	it.unroll = true
	outs := it.Call(f, st, []Val{arg}, nil)
	live := 0
	for _, o := range outs {
		if c.unsat(o.st.cons) {
			continue
		}
		live++
		r, ok := o.ret.(*IntV)
		if !ok || !it.eq(o.st, r.lin, want) {
			fs = append(fs, Finding{"content", f.RelString(nil), w.prog.pos(f.Pos()), fmt.Sprintf("for %s the result is %s, not %s", desc, valStr(o.ret), want)})
		}
	}
	if live == 0 {
		fs = append(fs, Finding{"panic", f.RelString(nil), w.prog.pos(f.Pos()), "does not return normally for " + desc})
	}
	fs = append(fs, it.findings...)
	return
}
