package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C20: the README tool
// ---------------------------------------------------------------------------

func init() {
	prop("C20", "The README tool is analysed from package initialisation through main on every path: byte strings are ropes over the README, standard input and constants; the position of a fence is the symbolic result of a search (not found is a separate path); byte slices share backing arrays, so an append over text still in use is seen; files are written, truncated, renamed symbolically and every file operation also has a failing outcome. On every path that changed the README without reporting a failure, its content must be README[0:S] ++ opening fence ++ text that comes only from standard input and constants and ends a line ++ README[E:], with S the first opening fence, E the first closing fence after it, and both known to exist; input must have been read to its end without error; a benchmark line with a known prefix must be kept exactly once and no other line.", checkC20)
}

const (
	fenceOpen  = "## Benchmarks\n\n```text\n"
	fenceClose = "```\n"
)

var benchPrefixes = []string{"goos", "goarch", "pkg", "cpu", "Benchmark"}

func checkC20(c *Check) { c.readmeTools((*Check).readmeTool) }

// readmeTools applies a check to every command under tools/; one of them must
// be the README tool.
func (c *Check) readmeTools(check func(c *Check, p *Program, m *ssa.Function) bool) {
	p, err := Load(repoRoot(), "amd64", "./tools/...")
	if err != nil {
		c.fail("undecided", "load", "tools", "the source cannot be loaded: "+err.Error())
		return
	}
	c.prog = p
	for _, e := range p.errs {
		c.fail("undecided", "load", "?", "the source does not type-check: "+e)
	}
	if len(p.errs) > 0 {
		return
	}
	var mains []*ssa.Function
	for _, path := range p.libPaths() {
		sp := p.spkgs[path]
		if !p.isRepo(sp) || sp.Pkg.Name() != "main" {
			continue
		}
		if m := sp.Func("main"); m != nil {
			mains = append(mains, m)
		}
	}
	found := false
	for _, m := range mains {
		if check(c, p, m) {
			found = true
		}
	}
	if !found {
		c.fail("undecided", "tools", "?", "no command under tools/ reads and rewrites a file")
	}
}

// runMain analyses package initialisation and main.
func (t *Text) runMain(m *ssa.Function) (outs []tOut, err error) {
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(abortErr); ok {
				err = fmt.Errorf("%s", a.why)
				return
			}
			panic(x)
		}
	}()
	st := t.start()
	states := []*tState{st}
	for _, pk := range t.initOrder(m.Pkg) {
		f := pk.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		var next []*tState
		for _, s := range states {
			for _, o := range t.call(f, s, nil, nil) {
				if o.end == "" {
					next = append(next, o.st)
				} else {
					outs = append(outs, o)
				}
			}
		}
		states = next
	}
	for _, s := range states {
		outs = append(outs, t.call(m, s, nil, nil)...)
	}
	return outs, nil
}

func (t *Text) initOrder(sp *ssa.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if s := t.prog.ssa.Package(p); s != nil && t.prog.isRepo(s) {
			out = append(out, s)
		}
	}
	visit(sp.Pkg)
	return out
}

func (c *Check) readmeTool(p *Program, m *ssa.Function) bool {
	t := newText(p)
	outs, err := t.runMain(m)
	if err != nil {
		c.fail("undecided", m.RelString(nil), p.pos(m.Pos()), "analysis failure: "+err.Error())
		return true
	}
	wrote, readme := 0, ""
	c.count("paths", len(outs))
	c.count("instructions", t.steps)
	c.add(t.bad...)
	for _, o := range outs {
		for _, r := range o.st.reads {
			if !strings.HasPrefix(r, "<") {
				readme = r
			}
		}
	}
	if readme == "" {
		return false
	}
	fn := m.RelString(nil)
	kept := map[string]bool{}
	idleOK := []tOut{}
	for _, o := range outs {
		st := o.st
		c.obl++
		fs := st.files[readme]
		where := p.pos(o.pos)
		if fs == nil || !fs.trunc {
			if o.end == "" {
				idleOK = append(idleOK, o)
			}
			continue
		}
		if fs.failed {
			continue // the tool reported or met an I/O error while writing
		}
		wrote++
		if fs.pos != "" {
			where = fs.pos
		}
		if t.cx.unsat(st.cons) {
			continue
		}
		mid, why := t.matchReadme(st, readme, fs.content)
		if why != "" {
			c.fail("content", fn, where, why+"; the README becomes "+t.show(fs.content)+t.end(o))
			continue
		}
		for k := range t.stdinScan {
			last, ok := st.cells["~scanlast:"+k].(*tBool)
			done := ok && (last.known && !last.val || !last.known && has(st.bools, last.key, last.neg))
			if !done {
				c.fail("content", fn, where, "the README is rewritten before standard input is known to be exhausted, so benchmark lines can be missing"+t.end(o))
			}
			if v, ok := st.bools["err:"+k]; !ok || v {
				c.fail("content", fn, where, "the README is rewritten although reading the benchmark lines may have failed, so lines can be missing")
			}
		}
		c.sample("path ending at %s: README = %s", p.pos(o.pos), t.show(fs.content))
		for _, s := range mid {
			t.linesOf(c, fn, s, kept)
		}
	}
	// an update that silently does nothing
	for _, o := range idleOK {
		asked, excused := true, false
		for k, v := range o.st.bools {
			if !v && strings.HasPrefix(k, "deref:") && strings.Contains(k, "flag.Bool") {
				asked = false
			}
			if v && (strings.HasPrefix(k, "eq:") || strings.HasPrefix(k, "err:")) {
				excused = true
			}
		}
		if asked && !excused && !t.cx.unsat(o.st.cons) && o.st.bools["read:"+readme] {
			c.fail("content", fn, p.pos(o.pos), "even with the write flag set, main returns without having updated the README and without reporting a failure")
		}
	}
	if wrote == 0 {
		c.fail("content", fn, p.pos(m.Pos()), "no path updates the README that is read")
	}
	c.count("paths_that_write", wrote)
	for k := range t.unknown {
		c.assume = append(c.assume, k)
	}
	sort.Strings(c.assume)
	return true
}

func has(m map[string]bool, k string, neg bool) bool {
	v, ok := m[k]
	return ok && v == neg
}

func (t *Text) end(o tOut) string {
	if o.end == "" {
		return ""
	}
	return " and the run ends with a " + o.end + " exit at " + t.prog.pos(o.pos)
}

func (t *Text) show(r rope) string {
	var p []string
	for _, s := range r {
		switch s.kind {
		case 'o':
			n := s.id
			if i := strings.IndexByte(n, '|'); i > 0 && len(n) > 60 {
				n = n[:60] + "…"
			}
			p = append(p, "<"+n+">")
		case 'f':
			p = append(p, "old["+t.pos(s.from)+":"+t.pos(s.to)+"]")
		default:
			p = append(p, s.key())
		}
	}
	if len(p) == 0 {
		return "empty"
	}
	return strings.Join(p, " ++ ")
}

// pos shortens a position.
func (t *Text) pos(l *Lin) string {
	s := l.String()
	var ks []string
	for k := range t.idx {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		f := t.idx[k]
		s = strings.ReplaceAll(s, f.at.String(), fmt.Sprintf("%s%d(%s)", f.kind, i, f.pat.key()))
	}
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// matchReadme: the middle part, or why the content is wrong.
func (t *Text) matchReadme(st *tState, readme string, r rope) (rope, string) {
	eq := t.eq(st)
	le := func(a, b *Lin) bool { return t.cx.entLe(st.cons, a, b) }
	L := t.fileLen(readme)
	whole := rope{{kind: 'f', file: readme, from: K(0), to: L}}
	S := t.cx.Opq("idx:"+whole.key()+"|"+constRope(fenceOpen).key(), nil, -1, maxCount).lin()
	if !le(K(0), S) {
		return nil, "the README is changed without the opening fence being known to exist"
	}
	on := K(int64(len(fenceOpen)))
	// head
	open := constRope(fenceOpen)
	var rest rope
	isF := func(s seg) bool { return s.kind == 'f' && s.file == readme }
	switch {
	case len(r) > 0 && isF(r[0]) && eq(r[0].from, K(0)) && eq(r[0].to, S.Add(on)):
		rest = r[1:]
	case len(r) > 0 && isF(r[0]) && eq(r[0].from, K(0)) && eq(r[0].to, S):
		rest = r[1:]
		for len(open) > 0 {
			if len(rest) == 0 {
				return nil, "the text before the benchmark block is not kept"
			}
			h := rest[0]
			if h.kind == 'f' && h.file == readme && eq(h.from, S) && eq(h.to, S.Add(on)) {
				rest = rest[1:]
				break
			}
			if h.kind != 'c' || !strings.HasPrefix(h.s, fenceOpen) {
				return nil, "the opening fence does not follow the text before it"
			}
			h.s = h.s[len(fenceOpen):]
			rest = append(constRope(h.s), rest[1:]...)
			break
		}
	default:
		return nil, "the text before the first opening fence is not kept"
	}
	// tail
	if len(rest) == 0 {
		return nil, "the text from the closing fence on is not kept"
	}
	last := rest[len(rest)-1]
	mid := append(rope(nil), rest[:len(rest)-1]...)
	if !isF(last) || !eq(last.to, L) {
		return nil, "the text from the closing fence to the end is not kept"
	}
	ok := false
	var keys []string
	for k := range t.idx {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := t.idx[k]
		if f.kind != "idx" || len(f.view) != 1 || !isF(f.view[0]) || !eq(f.view[0].to, L) {
			continue
		}
		pat, isC := f.pat.constant()
		if !isC {
			continue
		}
		cs := f.view[0].from
		E := cs.Add(f.at)
		switch pat {
		case fenceClose:
			// no closing fence can begin inside the opening fence
			if !le(S, cs) || !le(cs, S.Add(on)) {
				continue
			}
		case "\n" + fenceClose:
			if !le(S, cs) || !le(cs, S.Add(on).AddK(-1)) {
				continue
			}
			E = E.AddK(1)
		default:
			continue
		}
		if !le(K(0), f.at) {
			continue
		}
		if eq(last.from, E) {
			ok = true
			break
		}
		if eq(last.from, E.AddK(int64(len(fenceClose)))) && len(mid) > 0 {
			l := mid[len(mid)-1]
			if l.kind == 'c' && strings.HasSuffix(l.s, fenceClose) {
				l.s = l.s[:len(l.s)-len(fenceClose)]
				mid[len(mid)-1] = l
				if l.s == "" {
					mid = mid[:len(mid)-1]
				}
				ok = true
				break
			}
			if l.kind == 'f' && isF(l) && eq(l.from, E) && eq(l.to, last.from) {
				mid = mid[:len(mid)-1]
				ok = true
				break
			}
		}
	}
	if !ok {
		return nil, "the text that is kept at the end does not begin at the first closing fence after the opening fence, known to exist"
	}
	// middle
	lines := false
	for _, s := range mid {
		switch {
		case s.kind == 'f':
			return nil, "old text of the README remains between the fences"
		case s.kind == 'o' && s.prov&(provFile|provUnknown) != 0:
			return nil, "the text between the fences does not come from standard input alone"
		case s.kind == 'o' && s.prov&provStdin != 0:
			lines = true
		}
	}
	if !lines {
		return nil, "no benchmark lines are written between the fences"
	}
	e := mid[len(mid)-1]
	if !(e.kind == 'c' && strings.HasSuffix(e.s, "\n") || e.kind == 'o' && e.nl) {
		return nil, "the line before the closing fence is not ended, so the fence does not begin a line"
	}
	return mid, ""
}

// linesOf checks which lines a loop over the input keeps.
func (t *Text) linesOf(c *Check, fn string, s seg, done map[string]bool) {
	id := s.id
	if l, ok := t.joins[id]; ok {
		id = l.open
	}
	if done[id] {
		return
	}
	done[id] = true
	ls, ok := t.appended[id]
	if !ok {
		return
	}
	for _, l := range ls {
		// the line of this iteration
		line := ""
		decided := true
		for k := range l.bools {
			if l.entry[k] {
				continue
			}
			switch {
			case strings.HasPrefix(k, "hp:line#"):
				line = strings.SplitN(k[3:], "|", 2)[0]
			case strings.HasPrefix(k, "scan#"), strings.HasPrefix(k, "loop."), strings.HasPrefix(k, "deref:"), strings.HasPrefix(k, "err:"), strings.HasPrefix(k, "hp:trim:"):
			default:
				decided = false
			}
		}
		if line == "" || !decided {
			continue
		}
		c.count("line_filter_paths", 1)
		c.obl++
		yes, maybe := "", ""
		for _, p := range benchPrefixes {
			v, known := l.bools["hp:"+line+"|"+p]
			if known && v {
				yes = p
			}
			if !known {
				maybe = p
			}
		}
		n := 0
		for _, e := range l.lists[id] {
			if t.fromLine(e, line) {
				n++
			}
		}
		switch {
		case yes != "" && n != 1:
			c.fail("content", fn, l.pos, fmt.Sprintf("a benchmark line beginning with %q is kept %d times instead of once", yes, n))
		case yes == "" && maybe == "" && n != 0:
			c.fail("content", fn, l.pos, "a line that is no benchmark line is kept")
		case yes == "" && maybe != "" && n != 1 && t.possible(l.bools, line, maybe):
			c.fail("content", fn, l.pos, fmt.Sprintf("a benchmark line beginning with %q is dropped", maybe))
		case yes == "" && maybe != "" && n != 0 && !t.other(l.bools, line):
			c.fail("content", fn, l.pos, "a line that is no benchmark line is kept")
		}
	}
}

// possible: a line with this prefix can take a path with these assumptions.
func (t *Text) possible(b map[string]bool, line, p string) bool {
	for k, v := range b {
		if !strings.HasPrefix(k, "hp:"+line+"|") {
			continue
		}
		q := k[len("hp:"+line+"|"):]
		if v && !strings.HasPrefix(q, p) && !strings.HasPrefix(p, q) {
			return false
		}
		if !v && strings.HasPrefix(p, q) {
			return false
		}
	}
	return true
}

// other: some prefix test that is not one of the known prefixes holds.
func (t *Text) other(b map[string]bool, line string) bool {
	for k, v := range b {
		if v && strings.HasPrefix(k, "hp:"+line+"|") {
			q := k[len("hp:"+line+"|"):]
			for _, p := range benchPrefixes {
				if strings.HasPrefix(q, p) {
					return true // a longer prefix
				}
			}
		}
	}
	return false
}

func (t *Text) fromLine(v tval, line string) bool {
	var r rope
	switch x := v.(type) {
	case *tStr:
		r = x.r
	case tExtra:
		r = x.r
	default:
		return false
	}
	for _, s := range r {
		id := s.id
		for i := 0; i < 8 && id != ""; i++ {
			if id == line {
				return true
			}
			id = t.derived[id]
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C24: the preview of the README tool
// ---------------------------------------------------------------------------

func init() {
	prop("C24", "The paths of the README tool (the text analysis of C20: ropes, symbolic search results, symbolic files with failing operations) are split by the value of its write flag. On every path on which the flag is not known to be set, no file that was read is opened for truncation, written, renamed over or removed; on every path on which it is known not to be set and that returns normally without a reported error, the text on standard output must be README[0:S] ++ opening fence ++ text from standard input ++ README[E:], the text C20 requires in the file.", checkC24)
}

func checkC24(c *Check) { c.readmeTools((*Check).previewTool) }

var flagDecl = regexp.MustCompile(`flag\.[^"]*Bool(?:Var)?\([^"]*"([^"]*)",(true|false),`)

// flagOf: whether the write flag is known on the path.
func flagOf(st *tState) (val, known bool) {
	for k, v := range st.bools {
		if strings.HasPrefix(k, "deref:") && strings.Contains(k, "flag.") {
			return v, true
		}
	}
	return false, false
}

func (c *Check) previewTool(p *Program, m *ssa.Function) bool {
	t := newText(p)
	outs, err := t.runMain(m)
	if err != nil {
		c.fail("undecided", m.RelString(nil), p.pos(m.Pos()), "analysis failure: "+err.Error())
		return true
	}
	readme := ""
	for _, o := range outs {
		for _, r := range o.st.reads {
			if !strings.HasPrefix(r, "<") {
				readme = r
			}
		}
	}
	if readme == "" {
		return false
	}
	c.count("paths", len(outs))
	c.count("instructions", t.steps)
	fn := m.RelString(nil)
	shown := 0
	flags := map[string]bool{}
	for _, o := range outs {
		for k := range o.st.bools {
			if x := flagDecl.FindStringSubmatch(k); x != nil && strings.HasPrefix(k, "deref:") && !flags[k] {
				flags[k] = true
				c.obl++
				if x[1] != "w" {
					c.fail("content", fn, p.pos(m.Pos()), fmt.Sprintf("the write flag is called %q, not \"w\"", x[1]))
				}
				if x[2] == "true" {
					c.fail("content", fn, p.pos(m.Pos()), "the write flag is set unless the command line clears it")
				}
			}
		}
	}
	for _, o := range outs {
		st := o.st
		set, known := flagOf(st)
		if set && known || t.cx.unsat(st.cons) {
			continue
		}
		c.obl++
		c.count("paths_without_the_write_flag", 1)
		if fs := st.files[readme]; fs != nil && fs.trunc {
			where := p.pos(o.pos)
			if fs.pos != "" {
				where = fs.pos
			}
			c.fail("content", fn, where, "the README is rewritten although the write flag is not known to be set"+t.end(o))
			continue
		}
		if o.end != "" || !known || !st.bools["read:"+readme] {
			continue
		}
		excused := false
		for k, v := range st.bools {
			if v && (strings.HasPrefix(k, "eq:") || strings.HasPrefix(k, "err:")) {
				excused = true
			}
		}
		if excused {
			continue
		}
		var got rope
		if fs := st.files["<stdout>"]; fs != nil {
			got = fs.content
		}
		if _, why := t.matchReadme(st, readme, got); why != "" {
			c.fail("content", fn, p.pos(o.pos), "without the write flag, the text on standard output is not the new README: "+why+"; it is "+t.show(got))
			continue
		}
		shown++
		c.sample("path ending at %s: standard output = %s", p.pos(o.pos), t.show(got))
	}
	if shown == 0 && len(c.findings) == 0 {
		c.fail("content", fn, p.pos(m.Pos()), "no path without the write flag prints the new README")
	}
	c.count("paths_that_print", shown)
	for k := range t.unknown {
		c.assume = append(c.assume, k)
	}
	sort.Strings(c.assume)
	return true
}
