package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Library model of the text analysis: searching, joining, files and buffers.
// ---------------------------------------------------------------------------

// fileContent: the current content of a file.
func (t *Text) fileContent(st *tState, name string) *fileState {
	f := st.files[name]
	if f == nil {
		f = &fileState{content: rope{{kind: 'f', file: name, from: K(0), to: t.fileLen(name)}}}
		if name == "<stdout>" || name == "<stderr>" {
			f.content = nil
		}
		st.files[name] = f
	}
	return f
}

func (t *Text) fileLen(name string) *Lin {
	return t.cx.Opq("len of "+name, nil, 0, maxCount).lin()
}

func (t *Text) posOf(st *tState, f *tFile) *Lin {
	if v, ok := st.cells[f.cell()].(*tInt); ok {
		return v.l
	}
	return K(0)
}

func (f *tFile) cell() string { return fmt.Sprintf("~pos%d", f.id) }

// writeFile: a write that succeeds.
func (t *Text) writeFile(st *tState, f *tFile, r rope, pos string) {
	fs := t.fileContent(st, f.name)
	n := r.size()
	if k, ok := n.isConst(); ok && k == 0 {
		return
	}
	size := fs.content.size()
	p := t.posOf(st, f)
	if f.append {
		p = size
	}
	eq := t.eq(st)
	fs.trunc = true
	fs.pos = pos
	switch {
	case eq(p, size):
		fs.content = fs.content.cat(r, eq)
	case t.cx.entLe(st.cons, p.Add(n), size):
		fs.content = t.sub(st, fs.content, K(0), p).cat(r, eq).cat(t.sub(st, fs.content, p.Add(n), size), eq)
	default:
		head := t.sub(st, fs.content, K(0), p)
		rest := t.opq("rest of the old content", fs.content.prov()|provFile)
		fs.content = head.cat(r, eq).cat(rope{rest}, eq)
	}
	st.cells[f.cell()] = &tInt{p.Add(n)}
}

// write sends bytes to a writer; the outcomes return (n, err).
func (t *Text) write(st *tState, w tval, r rope, pos token.Pos, pair bool) []tOut {
	ret := func(n *Lin, err tval) tval {
		if pair {
			return tTuple{&tInt{n}, err}
		}
		return err
	}
	switch x := w.(type) {
	case *tFile:
		ok := st.clone()
		t.writeFile(ok, x, r, t.prog.pos(pos))
		if strings.HasPrefix(x.name, "<") {
			key := fmt.Sprintf("err:write#%d", t.next())
			return []tOut{{ok, ret(r.size(), &tErr{key}), "", pos}}
		}
		bad := st.clone()
		fs := t.fileContent(bad, x.name)
		fs.trunc, fs.failed = true, true
		fs.content = rope{t.opq("partial write", fs.content.prov()|r.prov())}
		return []tOut{
			{ok, ret(r.size(), tNil{}), "", pos},
			{bad, ret(t.cx.Fresh("written", 0, maxCount).lin(), t.someErr(bad, "write")), "", pos},
		}
	case *tPtr:
		c := x.cell + ".buf"
		old, _ := st.cells[c].(*tStr)
		if old == nil {
			old = &tStr{}
		}
		st.cells[c] = &tStr{old.r.cat(r, t.eq(st))}
		return []tOut{{st, ret(r.size(), tNil{}), "", pos}}
	}
	if o, ok := w.(*tOpq); ok && len(o.multi) > 0 {
		outs := []tOut{{st, nil, "", pos}}
		for _, m := range o.multi {
			var next []tOut
			for _, u := range outs {
				next = append(next, t.write(u.st, m, r, pos, pair)...)
			}
			outs = next
		}
		return outs
	}
	t.unknown["write to an unknown writer at "+t.prog.pos(pos)] = true
	return []tOut{{st, ret(r.size(), &tErr{fmt.Sprintf("err:write#%d", t.next())}), "", pos}}
}

// someErr: an error known to be set.
func (t *Text) someErr(st *tState, name string) tval {
	k := fmt.Sprintf("err:%s#%d", name, t.next())
	st.bools[k] = true
	return &tErr{k}
}

// source: the file behind a reader.
func (t *Text) source(v tval) *tFile {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *tFile:
			return x
		case *tOpq:
			if x.src == nil {
				return nil
			}
			v = x.src
		default:
			return nil
		}
	}
	return nil
}

// readAll: everything a reader delivers, or a failure.
func (t *Text) readAll(st *tState, v tval, pos token.Pos) []tOut {
	f := t.source(v)
	if f == nil {
		if p, ok := v.(*tPtr); ok {
			if s, ok := st.cells[p.cell+".buf"].(*tStr); ok {
				return []tOut{{st, tTuple{t.newObj(st, s.r), tNil{}}, "", pos}}
			}
		}
		return []tOut{{st, tTuple{t.newObj(st, rope{t.opq("read", t.prov(st, v))}), &tErr{fmt.Sprintf("err:read#%d", t.next())}}, "", pos}}
	}
	ok, bad := st.clone(), st.clone()
	r := t.fileContent(ok, f.name).content
	if f.consumed {
		r = rope{t.opq("rest", provFile)}
	}
	ok.reads = append(ok.reads, f.name)
	ok.bools["read:"+f.name] = true
	bad.reads = append(bad.reads, f.name)
	return []tOut{
		{ok, tTuple{t.newObj(ok, r), tNil{}}, "", pos},
		{bad, tTuple{t.newObj(bad, rope{t.opq("partial read", provFile)}), t.someErr(bad, "read")}, "", pos},
	}
}

func (t *Text) open(st *tState, name tval, flags int64, pos token.Pos) []tOut {
	r, _ := t.bytesRope(st, name)
	ok, bad := st.clone(), st.clone()
	f := &tFile{name: r.key(), nameR: r, mode: 'r', id: t.next()}
	if flags&3 != 0 {
		f.mode = 'w'
	}
	if flags&0x400 != 0 {
		f.append = true
	}
	fs := t.fileContent(ok, f.name)
	if flags&0x200 != 0 && flags&3 != 0 {
		fs.content, fs.trunc, fs.pos, fs.failed = nil, true, t.prog.pos(pos), false
	}
	return []tOut{
		{ok, tTuple{f, tNil{}}, "", pos},
		{bad, tTuple{tNil{}, t.someErr(bad, "open")}, "", pos},
	}
}

func (t *Text) str(st *tState, v tval) (string, bool) {
	r, ok := t.bytesRope(st, v)
	if !ok {
		return "", false
	}
	return r.constant()
}

// index forks on whether pat occurs in the view.
func (t *Text) index(st *tState, view, pat tval, kind string) (found, missing *tState, at *Lin) {
	v, _ := t.bytesRope(st, view)
	p, _ := t.bytesRope(st, pat)
	vs, ok1 := v.constant()
	ps, ok2 := p.constant()
	if ok1 && ok2 {
		i := strings.Index(vs, ps)
		if kind != "idx" {
			i = strings.LastIndex(vs, ps)
		}
		if i < 0 {
			return nil, st, K(-1)
		}
		return st, nil, K(int64(i))
	}
	a := t.cx.Opq(kind+":"+v.key()+"|"+p.key(), nil, -1, maxCount)
	t.idx[a.name] = idxFact{v, p, a.lin(), kind}
	l := a.lin()
	f, m := st.clone(), st.clone()
	f.cons = f.cons.add(l.Scale(-1), false).add(l.Add(p.size()).Sub(v.size()), false)
	m.cons = m.cons.add(l.AddK(1), true)
	if t.cx.unsat(f.cons) {
		f = nil
	}
	if t.cx.unsat(m.cons) {
		m = nil
	}
	return f, m, l
}

// pure: a result that is a function of the arguments.
func (t *Text) pure(st *tState, name string, args []tval, ty types.Type) tval {
	var ks []string
	prov := 0
	for _, a := range args {
		k := valKey(a)
		if b, ok := a.(*tBytes); ok {
			r, _ := t.bytesRope(st, b)
			k = r.key()
		}
		ks = append(ks, k)
		prov |= t.prov(st, a)
	}
	return t.pureKey(st, "call:"+name+"("+strings.Join(ks, ",")+")", prov, ty)
}

func (t *Text) pureKey(st *tState, key string, prov int, ty types.Type) tval {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			t.provOf[key] = prov
			return &tStr{rope{{kind: 'o', id: key, n: t.cx.Opq("len:"+key, nil, 0, maxCount).lin(), prov: prov}}}
		case u.Info()&types.IsBoolean != 0:
			return &tBool{key: key}
		case u.Info()&types.IsInteger != 0:
			return &tInt{t.cx.Opq(key, nil, -1<<40, 1<<40).lin()}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return t.newObj(st, rope{{kind: 'o', id: key, n: t.cx.Opq("len:"+key, nil, 0, maxCount).lin(), prov: prov}})
		}
		return &tList{open: key, prov: prov}
	case *types.Tuple:
		var tt tTuple
		for i := 0; i < u.Len(); i++ {
			tt = append(tt, t.pureKey(st, fmt.Sprintf("%s.%d", key, i), prov, u.At(i).Type()))
		}
		return tt
	}
	if isErr(ty) {
		return &tErr{"err:" + key}
	}
	return &tOpq{key: key, prov: prov}
}

// text formats arguments as fmt.Print, Println and Printf do; ok is false when
// the text is not followed.
func (t *Text) text(st *tState, kind string, args []tval) rope {
	var elems []tval
	format := ""
	i := 0
	if kind == "f" {
		f, ok := t.str(st, args[0])
		if !ok {
			return rope{t.opq("format", t.provAll(st, args))}
		}
		format = f
		i = 1
	}
	if len(args) > i {
		switch l := args[i].(type) {
		case *tList:
			if l.open != "" {
				return rope{t.opq("format", t.provAll(st, args))}
			}
			elems = l.elems
		case tNil:
		default:
			return rope{t.opq("format", t.provAll(st, args))}
		}
	}
	// all arguments known: format them
	var native []any
	for _, e := range elems {
		switch x := e.(type) {
		case *tStr:
			if s, ok := x.r.constant(); ok {
				native = append(native, s)
			}
		case *tInt:
			if k, ok := x.l.isConst(); ok {
				native = append(native, k)
			}
		case *tBool:
			if x.known {
				native = append(native, x.val)
			}
		}
	}
	if len(native) == len(elems) {
		switch kind {
		case "f":
			return constRope(fmt.Sprintf(format, native...))
		case "ln":
			return constRope(fmt.Sprintln(native...))
		}
		return constRope(fmt.Sprint(native...))
	}
	eq := t.eq(st)
	one := func(v tval, verb byte) rope {
		switch x := v.(type) {
		case *tStr:
			return x.r
		case *tBytes:
			if verb == 's' {
				r, _ := t.bytesRope(st, x)
				return r
			}
		case *tInt:
			if k, ok := x.l.isConst(); ok {
				if verb == 'c' {
					return constRope(string(rune(k)))
				}
				return constRope(fmt.Sprint(k))
			}
		}
		return rope{t.opq("formatted", t.prov(st, v))}
	}
	var r rope
	switch kind {
	case "f":
		n := 0
		for j := 0; j < len(format); j++ {
			if format[j] != '%' || j+1 >= len(format) {
				r = r.cat(constRope(format[j:j+1]), eq)
				continue
			}
			j++
			v := format[j]
			switch {
			case v == '%':
				r = r.cat(constRope("%"), eq)
			case strings.IndexByte("svdcqwx", v) >= 0 && n < len(elems):
				if v == 'q' || v == 'x' {
					r = r.cat(rope{t.opq("formatted", t.prov(st, elems[n]))}, eq)
				} else {
					r = r.cat(one(elems[n], v), eq)
				}
				n++
			default:
				return rope{t.opq("format", t.provAll(st, args))}
			}
		}
	case "ln":
		for k, e := range elems {
			if k > 0 {
				r = r.cat(constRope(" "), eq)
			}
			r = r.cat(one(e, 'v'), eq)
		}
		r = r.cat(constRope("\n"), eq)
	default:
		for _, e := range elems {
			if _, ok := e.(*tStr); !ok && len(elems) > 1 {
				return rope{t.opq("format", t.provAll(st, args))}
			}
			r = r.cat(one(e, 'v'), eq)
		}
	}
	return r
}

func (t *Text) provAll(st *tState, args []tval) int {
	p := 0
	for _, a := range args {
		p |= t.prov(st, a)
	}
	return p
}

func (t *Text) newCell(typ string) *tPtr {
	c := &tPtr{fmt.Sprintf("c%d", t.next())}
	t.cellType[c.cell] = typ
	return c
}

func (t *Text) library(fr *tFrame, fn *ssa.Function, args []tval, pos token.Pos, rt types.Type) []tOut {
	st := fr.st
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
		if fn.Origin().Pkg != nil {
			pkg = fn.Origin().Pkg.Pkg.Path()
		}
	}
	full := pkg + "." + name
	is := func(v tval) []tOut { return []tOut{{st, v, "", pos}} }
	isStr := pkg == "strings"
	// mk builds a string or a byte slice
	mk := func(s *tState, r rope) tval {
		if isStr {
			return &tStr{r}
		}
		return t.newObj(s, r)
	}
	// view cuts an argument without copying
	view := func(s *tState, v tval, a, b *Lin) tval {
		if x, ok := v.(*tBytes); ok && x.obj != 0 {
			return &tBytes{obj: x.obj, off: x.off.Add(a), len: b.Sub(a)}
		}
		r, _ := t.bytesRope(s, v)
		return mk(s, t.sub(s, r, a, b))
	}
	size := func(v tval) *Lin {
		if x, ok := v.(*tBytes); ok {
			if x.obj == 0 {
				return K(0)
			}
			return x.len
		}
		r, _ := t.bytesRope(st, v)
		return r.size()
	}
	switch pkg {
	case "strings", "bytes":
		switch name {
		case "Index", "LastIndex":
			k := "idx"
			if name == "LastIndex" {
				k = "lastidx"
			}
			f, m, at := t.index(st, args[0], args[1], k)
			var o []tOut
			if f != nil {
				o = append(o, tOut{f, &tInt{at}, "", pos})
			}
			if m != nil {
				o = append(o, tOut{m, &tInt{K(-1)}, "", pos})
			}
			return o
		case "Contains":
			f, m, _ := t.index(st, args[0], args[1], "idx")
			var o []tOut
			if f != nil {
				o = append(o, tOut{f, &tBool{known: true, val: true}, "", pos})
			}
			if m != nil {
				o = append(o, tOut{m, &tBool{known: true}, "", pos})
			}
			return o
		case "Cut":
			f, m, at := t.index(st, args[0], args[1], "idx")
			var o []tOut
			n := size(args[0])
			if f != nil {
				o = append(o, tOut{f, tTuple{view(f, args[0], K(0), at), view(f, args[0], at.Add(size(args[1])), n), &tBool{known: true, val: true}}, "", pos})
			}
			if m != nil {
				o = append(o, tOut{m, tTuple{args[0], mk(m, nil), &tBool{known: true}}, "", pos})
			}
			return o
		case "Split", "SplitN", "SplitAfter", "SplitAfterN":
			lim := int64(-1)
			if strings.HasSuffix(name, "N") {
				if i, ok := args[2].(*tInt); ok {
					if k, ok := i.l.isConst(); ok {
						lim = k
					}
				}
			}
			if lim == 2 {
				f, m, at := t.index(st, args[0], args[1], "idx")
				var o []tOut
				n := size(args[0])
				if f != nil {
					e := at
					if strings.HasPrefix(name, "SplitAfter") {
						e = at.Add(size(args[1]))
					}
					o = append(o, tOut{f, &tList{elems: []tval{view(f, args[0], K(0), e), view(f, args[0], at.Add(size(args[1])), n)}}, "", pos})
				}
				if m != nil {
					o = append(o, tOut{m, &tList{elems: []tval{args[0]}}, "", pos})
				}
				return o
			}
		case "HasPrefix", "HasSuffix":
			r, _ := t.bytesRope(st, args[0])
			p, pok := t.str(st, args[1])
			if s, ok := r.constant(); ok && pok {
				if name == "HasPrefix" {
					return is(&tBool{known: true, val: strings.HasPrefix(s, p)})
				}
				return is(&tBool{known: true, val: strings.HasSuffix(s, p)})
			}
			if pok {
				if p == "" {
					return is(&tBool{known: true, val: true})
				}
				if name == "HasPrefix" {
					return is(&tBool{key: "hp:" + r.key() + "|" + p})
				}
				return is(&tBool{key: "hs:" + r.key() + "|" + p})
			}
		case "TrimPrefix", "CutPrefix":
			r, _ := t.bytesRope(st, args[0])
			p, pok := t.str(st, args[1])
			if pok {
				ret := func(v tval, b bool) tval {
					if name == "CutPrefix" {
						return tTuple{v, &tBool{known: true, val: b}}
					}
					return v
				}
				if s, ok := r.constant(); ok {
					return is(ret(mk(st, constRope(strings.TrimPrefix(s, p))), strings.HasPrefix(s, p)))
				}
				c := &tBool{key: "hp:" + r.key() + "|" + p}
				a, b := st.clone(), st.clone()
				var o []tOut
				if t.assume(a, c, true) {
					id := "trim:" + r.key() + "|" + p
					t.derived[id] = r.key()
					s := seg{kind: 'o', id: id, n: r.size().AddK(-int64(len(p))), prov: r.prov()}
					a.cons = a.cons.add(K(int64(len(p))).Sub(r.size()), false)
					o = append(o, tOut{a, ret(mk(a, rope{s}), true), "", pos})
				}
				if t.assume(b, c, false) {
					o = append(o, tOut{b, ret(args[0], false), "", pos})
				}
				return o
			}
		case "Join":
			if l, ok := args[0].(*tList); ok {
				sep, _ := t.bytesRope(st, args[1])
				if l.open == "" {
					var r rope
					for i, e := range l.elems {
						if i > 0 {
							r = r.cat(sep, t.eq(st))
						}
						x, _ := t.bytesRope(st, e)
						r = r.cat(x, t.eq(st))
					}
					return is(mk(st, r))
				}
				id := "join:" + valKey(l) + "|" + sep.key()
				t.joins[id] = l
				s := seg{kind: 'o', id: id, n: t.cx.Opq("len:"+id, nil, 0, maxCount).lin(), prov: t.prov(st, l) | sep.prov()}
				return is(mk(st, rope{s}))
			}
		case "Clone":
			r, _ := t.bytesRope(st, args[0])
			return is(mk(st, r))
		case "Equal":
			a, _ := t.bytesRope(st, args[0])
			b, _ := t.bytesRope(st, args[1])
			return is(t.cmp(st, token.EQL, &tStr{a}, &tStr{b}))
		case "Repeat":
			if s, ok := t.str(st, args[0]); ok {
				if i, ok := args[1].(*tInt); ok {
					if k, ok := i.l.isConst(); ok && k >= 0 && k*int64(len(s)) < 4096 {
						return is(mk(st, constRope(strings.Repeat(s, int(k)))))
					}
				}
			}
		case "NewBuffer", "NewBufferString":
			c := t.newCell("*bytes.Buffer")
			r, _ := t.bytesRope(st, args[0])
			st.cells[c.cell+".buf"] = &tStr{r}
			return is(c)
		case "NewReader":
			c := t.newCell("*bytes.Buffer")
			r, _ := t.bytesRope(st, args[0])
			st.cells[c.cell+".buf"] = &tStr{r}
			return is(c)
		case "ToUpper", "ToLower", "TrimSpace", "Trim", "TrimRight", "TrimLeft", "TrimSuffix", "Title", "TrimFunc", "Replace", "ReplaceAll":
			r, _ := t.bytesRope(st, args[0])
			if s, ok := r.constant(); ok && len(args) == 2 {
				if p, ok := t.str(st, args[1]); ok {
					switch name {
					case "Trim":
						return is(mk(st, constRope(strings.Trim(s, p))))
					case "TrimRight":
						return is(mk(st, constRope(strings.TrimRight(s, p))))
					case "TrimLeft":
						return is(mk(st, constRope(strings.TrimLeft(s, p))))
					case "TrimSuffix":
						return is(mk(st, constRope(strings.TrimSuffix(s, p))))
					}
				}
			}
			if s, ok := r.constant(); ok && name == "TrimSpace" {
				return is(mk(st, constRope(strings.TrimSpace(s))))
			}
		}
	case "slices":
		switch name {
		case "Clone":
			if b, ok := args[0].(*tBytes); ok {
				r, _ := t.bytesRope(st, b)
				return is(t.newObj(st, r))
			}
			return is(args[0])
		case "Concat":
			if l, ok := args[0].(*tList); ok && l.open == "" {
				if s, ok := rt.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
					var r rope
					for _, e := range l.elems {
						x, _ := t.bytesRope(st, e)
						r = r.cat(x, t.eq(st))
					}
					return is(t.newObj(st, r))
				}
			}
		}
	case "os":
		switch name {
		case "Open":
			return t.open(st, args[0], 0, pos)
		case "Create":
			return t.open(st, args[0], 0x2|0x40|0x200, pos)
		case "OpenFile":
			if i, ok := args[1].(*tInt); ok {
				if k, ok := i.l.isConst(); ok {
					return t.open(st, args[0], k, pos)
				}
			}
			t.report("undecided", fr.fn, pos, "os.OpenFile with flags that are not constant")
			return t.open(st, args[0], 2, pos)
		case "CreateTemp":
			r := rope{t.opq("tempname", 0)}
			return t.open(st, &tStr{r}, 0x2|0x40|0x200, pos)
		case "ReadFile":
			var outs []tOut
			for _, o := range t.open(st, args[0], 0, pos) {
				tt := o.ret.(tTuple)
				if f, ok := tt[0].(*tFile); ok {
					outs = append(outs, t.readAll(o.st, f, pos)...)
				} else {
					o.ret = tTuple{&tBytes{}, tt[1]}
					outs = append(outs, o)
				}
			}
			return outs
		case "WriteFile":
			return t.writeWhole(st, args[0], args[1], pos)
		case "Rename":
			a, _ := t.bytesRope(st, args[0])
			b, _ := t.bytesRope(st, args[1])
			ok, bad := st.clone(), st.clone()
			n := *t.fileContent(ok, a.key())
			n.trunc, n.pos = true, t.prog.pos(pos)
			ok.files[b.key()] = &n
			delete(ok.files, a.key())
			return []tOut{{ok, tNil{}, "", pos}, {bad, t.someErr(bad, "rename"), "", pos}}
		case "Remove", "RemoveAll", "Truncate":
			a, _ := t.bytesRope(st, args[0])
			ok, bad := st.clone(), st.clone()
			fs := t.fileContent(ok, a.key())
			fs.trunc, fs.pos = true, t.prog.pos(pos)
			if name == "Truncate" {
				n, isInt := args[1].(*tInt)
				if isInt && t.cx.entLe(ok.cons, n.l, fs.content.size()) {
					fs.content = t.sub(ok, fs.content, K(0), n.l)
				} else {
					fs.content = rope{t.opq("truncated", provFile)}
				}
			} else {
				fs.content = nil
			}
			return []tOut{{ok, tNil{}, "", pos}, {bad, t.someErr(bad, "remove"), "", pos}}
		case "Exit":
			return []tOut{{st, nil, "fatal", pos}}
		}
	case "io/ioutil":
		switch name {
		case "ReadAll":
			return t.readAll(st, args[0], pos)
		case "ReadFile":
			var outs []tOut
			for _, o := range t.open(st, args[0], 0, pos) {
				tt := o.ret.(tTuple)
				if f, ok := tt[0].(*tFile); ok {
					outs = append(outs, t.readAll(o.st, f, pos)...)
				} else {
					o.ret = tTuple{&tBytes{}, tt[1]}
					outs = append(outs, o)
				}
			}
			return outs
		case "WriteFile":
			return t.writeWhole(st, args[0], args[1], pos)
		}
	case "io":
		switch name {
		case "ReadAll":
			return t.readAll(st, args[0], pos)
		case "WriteString":
			r, _ := t.bytesRope(st, args[1])
			return t.write(st, args[0], r, pos, true)
		case "Copy":
			var outs []tOut
			for _, o := range t.readAll(st, args[1], pos) {
				tt := o.ret.(tTuple)
				r, _ := t.bytesRope(o.st, tt[0])
				if _, failed := tt[1].(*tErr); failed {
					r = rope{t.opq("partial copy", r.prov())}
					for _, u := range t.write(o.st, args[0], r, pos, true) {
						u.ret = tTuple{u.ret.(tTuple)[0], tt[1]}
						outs = append(outs, u)
					}
					continue
				}
				outs = append(outs, t.write(o.st, args[0], r, pos, true)...)
			}
			return outs
		case "MultiWriter":
			if l, ok := args[0].(*tList); ok && l.open == "" {
				return is(&tOpq{key: fmt.Sprintf("multi#%d", t.next()), multi: l.elems})
			}
		case "TeeReader", "NopCloser", "MultiReader", "LimitReader":
			if name == "NopCloser" {
				return is(args[0])
			}
			if l, ok := args[0].(*tList); ok && name == "MultiReader" && l.open == "" && len(l.elems) == 1 {
				return is(l.elems[0])
			}
			return is(&tOpq{key: fmt.Sprintf("reader#%d", t.next()), prov: t.provAll(st, args)})
		}
	case "bufio":
		switch name {
		case "NewScanner":
			k := fmt.Sprintf("scanner#%d", t.next())
			st.cells["~scanlast:"+k] = &tBool{known: true, val: true}
			o := &tOpq{key: k, prov: t.prov(st, args[0])}
			if f := t.source(args[0]); f != nil {
				o.src = f
				if f.name == "<stdin>" {
					t.stdinScan[k] = true
				}
			}
			return is(o)
		case "NewReader", "NewReaderSize":
			return is(&tOpq{key: fmt.Sprintf("reader#%d", t.next()), prov: t.prov(st, args[0]), src: args[0]})
		case "NewWriter", "NewWriterSize":
			c := t.newCell("*bufio.Writer")
			t.target[c.cell] = args[0]
			return is(c)
		}
	case "fmt":
		switch name {
		case "Fprint", "Fprintln", "Fprintf":
			r := t.text(st, strings.TrimPrefix(name, "Fprint"), args[1:])
			return t.write(st, args[0], r, pos, true)
		case "Sprint", "Sprintln", "Sprintf":
			return is(&tStr{t.text(st, strings.TrimPrefix(name, "Sprint"), args)})
		case "Print", "Println", "Printf":
			r := t.text(st, strings.TrimPrefix(name, "Print"), args)
			return t.write(st, &tFile{name: "<stdout>", mode: 'w'}, r, pos, true)
		case "Append", "Appendln", "Appendf":
			r := t.text(st, strings.TrimPrefix(name, "Append"), args[1:])
			return is(t.appendBytes(st, args[0], r))
		case "Errorf":
			return is(t.someErr(st, "errorf"))
		}
	case "errors":
		if name == "New" {
			return is(t.someErr(st, "new"))
		}
	case "log":
		switch name {
		case "Fatal", "Fatalf", "Fatalln":
			return []tOut{{st, nil, "fatal", pos}}
		case "Panic", "Panicf", "Panicln":
			return []tOut{{st, nil, "panic", pos}}
		}
	case "runtime":
		if name == "Goexit" {
			return []tOut{{st, nil, "fatal", pos}}
		}
	case "flag":
		switch name {
		case "Bool", "String", "Int":
			return is(t.pure(st, full, args, rt))
		case "BoolVar":
			if p, ok := args[0].(*tPtr); ok {
				st.cells[p.cell] = &tBool{key: "deref:flag.BoolVar(" + valKey(args[1]) + "," + valKey(args[2]) + ",...)"}
				return is(nil)
			}
		}
	}
	// results derive from the arguments
	if _, ok := pureText[pkg]; !ok {
		for _, a := range args {
			if b, ok := a.(*tBytes); ok && b.obj != 0 {
				t.clobber(st, b.obj, b.off, b.off.Add(b.len), "passed to "+full, 0)
			}
			t.lose(st, a)
		}
		if pkg != "" {
			t.unknown["unmodelled function "+full] = true
		}
		return is(t.fresh(st, rt, full, t.provAll(st, args)))
	}
	if pkg == "sort" || name == "Reverse" || strings.HasPrefix(name, "Sort") {
		for _, a := range args {
			t.lose(st, a)
		}
	}
	return is(t.pure(st, full, args, rt))
}

var pureText = map[string]bool{
	"strings": true, "bytes": true, "fmt": true, "strconv": true, "errors": true, "path": true, "path/filepath": true,
	"regexp": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "flag": true, "log": true, "time": true,
	"os": true, "io": true, "bufio": true, "math": true, "runtime": true, "cmp": true,
}

// lose forgets what is stored behind a pointer.
func (t *Text) lose(st *tState, v tval) {
	p, ok := v.(*tPtr)
	if !ok {
		return
	}
	for k, c := range st.cells {
		if k == p.cell || strings.HasPrefix(k, p.cell+".") {
			st.cells[k] = t.fresh(st, t.typeOfVal(c), "lost", t.prov(st, c)|provUnknown)
		}
	}
}

func (t *Text) writeWhole(st *tState, name, data tval, pos token.Pos) []tOut {
	r, _ := t.bytesRope(st, data)
	var outs []tOut
	for _, o := range t.open(st, name, 0x2|0x40|0x200, pos) {
		tt := o.ret.(tTuple)
		f, ok := tt[0].(*tFile)
		if !ok {
			// the file may have been truncated before the failure
			o.ret = tt[1]
			outs = append(outs, o)
			continue
		}
		outs = append(outs, t.write(o.st, f, r, pos, false)...)
	}
	return outs
}

func (t *Text) method(fr *tFrame, name, recv string, args []tval, pos token.Pos, rt types.Type) []tOut {
	st := fr.st
	is := func(v tval) []tOut { return []tOut{{st, v, "", pos}} }
	self := args[0]
	switch x := self.(type) {
	case *tFile:
		switch name {
		case "Write", "WriteString":
			r, _ := t.bytesRope(st, args[1])
			return t.write(st, x, r, pos, true)
		case "ReadFrom":
			var outs []tOut
			for _, o := range t.readAll(st, args[1], pos) {
				r, _ := t.bytesRope(o.st, o.ret.(tTuple)[0])
				outs = append(outs, t.write(o.st, x, r, pos, true)...)
			}
			return outs
		case "WriteAt":
			r, _ := t.bytesRope(st, args[1])
			g := *x
			g.id = t.next()
			g.append = false
			if i, ok := args[2].(*tInt); ok {
				st.cells[g.cell()] = i
			}
			return t.write(st, &g, r, pos, true)
		case "Truncate":
			fs := t.fileContent(st, x.name)
			fs.trunc, fs.pos = true, t.prog.pos(pos)
			if i, ok := args[1].(*tInt); ok && t.cx.entLe(st.cons, i.l, fs.content.size()) {
				fs.content = t.sub(st, fs.content, K(0), i.l)
			} else {
				fs.content = rope{t.opq("truncated", provFile)}
			}
			return is(&tErr{fmt.Sprintf("err:truncate#%d", t.next())})
		case "Seek":
			i, ok1 := args[1].(*tInt)
			wh, ok2 := args[2].(*tInt)
			at := t.cx.Fresh("seek", 0, maxCount).lin()
			if ok1 && ok2 {
				if k, ok := wh.l.isConst(); ok {
					switch k {
					case 0:
						at = i.l
					case 2:
						at = i.l.Add(t.fileContent(st, x.name).content.size())
					}
				}
			}
			st.cells[x.cell()] = &tInt{at}
			return is(tTuple{&tInt{at}, &tErr{fmt.Sprintf("err:seek#%d", t.next())}})
		case "Name":
			return is(&tStr{x.nameR})
		case "Close", "Sync", "Chmod":
			return is(&tErr{fmt.Sprintf("err:%s#%d", name, t.next())})
		case "Read":
			if b, ok := args[1].(*tBytes); ok && b.obj != 0 {
				t.clobber(st, b.obj, b.off, b.off.Add(b.len), "read", 0)
			}
			return is(tTuple{&tInt{t.cx.Fresh("read", 0, maxCount).lin()}, &tErr{fmt.Sprintf("err:read#%d", t.next())}})
		}
		return is(t.fresh(st, rt, name, 0))
	case *tErr:
		if name == "Error" {
			return is(&tStr{rope{t.opq("error text", provUnknown)}})
		}
	case *tOpq:
		if strings.HasPrefix(x.key, "scanner#") {
			switch name {
			case "Scan":
				b := &tBool{key: fmt.Sprintf("scan#%d", t.next())}
				st.cells["~scanlast:"+x.key] = b
				delete(st.cells, "~scantext:"+x.key)
				return is(b)
			case "Text", "Bytes":
				v, ok := st.cells["~scantext:"+x.key].(*tStr)
				if !ok {
					v = &tStr{rope{t.opq("line", x.prov)}}
					st.cells["~scantext:"+x.key] = v
				}
				if name == "Bytes" {
					return is(t.newObj(st, v.r))
				}
				return is(v)
			case "Err":
				return is(&tErr{"err:" + x.key})
			}
			return is(t.fresh(st, rt, name, x.prov))
		}
		if strings.HasPrefix(x.key, "reader#") {
			return is(t.fresh(st, rt, name, x.prov))
		}
	case *tPtr:
		kind := t.cellType[x.cell]
		c := x.cell + ".buf"
		switch kind {
		case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer":
			cur, _ := st.cells[c].(*tStr)
			if cur == nil {
				cur = &tStr{}
			}
			switch name {
			case "Write", "WriteString", "WriteByte", "WriteRune":
				var r rope
				if i, ok := args[1].(*tInt); ok {
					if k, ok := i.l.isConst(); ok {
						if name == "WriteByte" {
							r = constRope(string([]byte{byte(k)}))
						} else {
							r = constRope(string(rune(k)))
						}
					} else {
						s := t.opq("byte", provUnknown)
						s.n = K(1)
						r = rope{s}
					}
				} else {
					r, _ = t.bytesRope(st, args[1])
				}
				return t.write(st, x, r, pos, name != "WriteByte")
			case "ReadFrom":
				var outs []tOut
				for _, o := range t.readAll(st, args[1], pos) {
					r, _ := t.bytesRope(o.st, o.ret.(tTuple)[0])
					for _, u := range t.write(o.st, x, r, pos, true) {
						u.ret = tTuple{u.ret.(tTuple)[0], o.ret.(tTuple)[1]}
						outs = append(outs, u)
					}
				}
				return outs
			case "String":
				return is(&tStr{cur.r})
			case "Bytes":
				return is(t.newObj(st, cur.r))
			case "Len", "Buffered":
				return is(&tInt{cur.r.size()})
			case "Reset":
				st.cells[c] = &tStr{}
				return is(nil)
			case "Grow":
				return is(nil)
			case "Truncate":
				if i, ok := args[1].(*tInt); ok && t.cx.entLe(st.cons, i.l, cur.r.size()) && t.cx.entLe(st.cons, K(0), i.l) {
					st.cells[c] = &tStr{t.sub(st, cur.r, K(0), i.l)}
				} else {
					st.cells[c] = &tStr{rope{t.opq("truncated", cur.r.prov())}}
				}
				return is(nil)
			case "WriteTo":
				st.cells[c] = &tStr{}
				return t.write(st, args[1], cur.r, pos, true)
			case "Flush":
				st.cells[c] = &tStr{}
				return t.write(st, t.target[x.cell], cur.r, pos, false)
			}
			t.lose(st, x)
			return is(t.fresh(st, rt, name, t.prov(st, x)))
		}
		// a method of a type of the repository reached through an interface
		if ty := t.cellGo[x.cell]; ty != nil {
			ms := t.prog.ssa.MethodSets.MethodSet(types.NewPointer(ty))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					if f := t.prog.ssa.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 && t.prog.isRepo(f.Pkg) {
						return t.call(f, st, args, nil)
					}
				}
			}
		}
	}
	if strings.HasSuffix(recv, "regexp.Regexp") || strings.HasSuffix(recv, "strings.Replacer") {
		return is(t.pure(st, recv+"."+name, args, rt))
	}
	for _, a := range args {
		t.lose(st, a)
		if b, ok := a.(*tBytes); ok && b.obj != 0 {
			t.clobber(st, b.obj, b.off, b.off.Add(b.len), "passed to "+name, 0)
		}
	}
	t.unknown["unmodelled method "+recv+"."+name] = true
	return is(t.fresh(st, rt, name, t.provAll(st, args)))
}
