package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Effects and ownership. For one entry point, a context-sensitive value-flow
// analysis computes for every pointer-carrying value the set of memory roots it
// may refer to (the entry's parameters, package-level variables, memory
// allocated by the call, or unknown memory), and collects the effects: which
// roots are written, which are stored somewhere that outlives the call, what
// the results refer to, and calls whose outcome is not a function of the
// arguments.
// ---------------------------------------------------------------------------

type rootSet map[string]bool

func (s rootSet) addAll(o rootSet) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

func (s rootSet) key() string {
	var k []string
	for x := range s {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func (s rootSet) list() []string {
	var k []string
	for x := range s {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

type effect struct {
	kind string // write, retain, nondet, spawn, opaque
	root string
	fn   string
	pos  string
	msg  string
	path string
}

type effAnalysis struct {
	prog     *Program
	asm      *AsmSet
	globals  map[*ssa.Global][]*ssa.Function // function values ever stored in a global
	memo     map[string]*effResult
	contents map[string]rootSet // pointers stored in memory with this root
	effects  map[string]effect
	visited  map[*ssa.Function]bool
	sites    int
	changed  bool
	stack    []string
	funcs    map[*ssa.Global]rootSet
}

type effResult struct {
	res     []rootSet
	running bool
}

func newEff(p *Program, asm *AsmSet) *effAnalysis {
	e := &effAnalysis{prog: p, asm: asm, globals: map[*ssa.Global][]*ssa.Function{}}
	for _, path := range p.libPaths() {
		sp := p.spkgs[path]
		if !p.isRepo(sp) {
			continue
		}
		fns := p.funcsOf(sp)
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					g := globalBase(s.Addr)
					if g == nil {
						continue
					}
					for _, t := range funcTargets(s.Val, map[ssa.Value]bool{}) {
						e.globals[g] = append(e.globals[g], t)
					}
				}
			}
		}
	}
	return e
}

// globalBase: the package-level variable an address lies in.
func globalBase(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func funcTargets(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok {
			return []*ssa.Function{f}
		}
	case *ssa.ChangeType:
		return funcTargets(x.X, seen)
	case *ssa.Phi:
		var o []*ssa.Function
		for _, e := range x.Edges {
			o = append(o, funcTargets(e, seen)...)
		}
		return o
	case *ssa.MakeInterface:
		return funcTargets(x.X, seen)
	}
	return nil
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.String || u.Kind() == types.Uintptr
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPointers(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// run analyses one entry point.
func (e *effAnalysis) run(fn *ssa.Function) (results []rootSet, effs []effect) {
	e.contents = map[string]rootSet{}
	for round := 0; round < 12; round++ {
		e.memo = map[string]*effResult{}
		e.effects = map[string]effect{}
		e.visited = map[*ssa.Function]bool{}
		e.changed = false
		e.stack = nil
		e.sites = 0
		args := make([]rootSet, fn.Signature.Params().Len())
		for i := range args {
			args[i] = rootSet{}
			if hasPointers(fn.Signature.Params().At(i).Type()) {
				args[i][fmt.Sprintf("P%d", i)] = true
			}
		}
		if fn.Signature.Recv() != nil {
			args = append([]rootSet{{"P-recv": true}}, args...)
		}
		results = e.analyse(fn, args, nil)
		if !e.changed {
			break
		}
	}
	var keys []string
	for k := range e.effects {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		effs = append(effs, e.effects[k])
	}
	return
}

// site names the memory an instruction allocates.
func (e *effAnalysis) site(v ssa.Value) string {
	return fmt.Sprintf("A:%s#%s.%s", e.prog.pos(v.Pos()), v.Parent().Name(), v.Name())
}

func (e *effAnalysis) eff(kind, root string, fn *ssa.Function, pos token.Pos, msg string) {
	k := kind + "|" + root + "|" + fn.String() + "|" + e.prog.pos(pos)
	if _, ok := e.effects[k]; !ok {
		e.effects[k] = effect{kind, root, fn.RelString(nil), e.prog.pos(pos), msg, strings.Join(e.stack, " -> ")}
	}
}

func (e *effAnalysis) reach(s rootSet) rootSet {
	out := rootSet{}
	var add func(r string)
	add = func(r string) {
		if out[r] {
			return
		}
		out[r] = true
		for c := range e.contents[r] {
			add(c)
		}
	}
	for r := range s {
		add(r)
	}
	return out
}

func (e *effAnalysis) put(root string, v rootSet) {
	m := e.contents[root]
	if m == nil {
		m = rootSet{}
		e.contents[root] = m
	}
	if m.addAll(v) {
		e.changed = true
	}
}

// write records a store of v (may be nil) through an address.
func (e *effAnalysis) write(fn *ssa.Function, pos token.Pos, addr, v rootSet, what string) {
	e.sites++
	for r := range addr {
		e.eff("write", r, fn, pos, what)
		for x := range v {
			if x != r {
				e.put(r, rootSet{x: true})
				if strings.HasPrefix(r, "G:") || r == "U" || strings.HasPrefix(r, "P") {
					if strings.HasPrefix(x, "P") || strings.HasPrefix(x, "A:") {
						e.eff("retain", x, fn, pos, "stored in "+rootName(r))
					}
				}
			}
		}
	}
}

func rootName(r string) string {
	switch {
	case strings.HasPrefix(r, "G:"):
		return "package-level variable " + r[2:]
	case strings.HasPrefix(r, "A:"):
		return "memory allocated at " + strings.SplitN(r[2:], "#", 2)[0]
	case r == "U":
		return "unknown memory"
	case strings.HasPrefix(r, "P"):
		return "the memory of parameter " + r[1:]
	}
	return r
}

// pure standard-library packages: results depend on the arguments only and
// nothing is kept.
var purePkgs = map[string]bool{
	"math/bits": true, "math": true, "encoding/binary": true, "errors": true, "fmt": true, "strconv": true,
	"strings": true, "bytes": true, "unicode/utf8": true, "sort": true, "slices": true, "cmp": true, "unsafe": true,
	"internal/byteorder": true, "io": true, "bufio": true, "maps": true,
}

var nondetPkgs = map[string]bool{
	"math/rand": true, "math/rand/v2": true, "time": true, "os": true, "crypto/rand": true, "runtime": true,
	"net": true, "syscall": true, "hash/maphash": true, "runtime/debug": true, "math/rand/internal": true,
}

func (e *effAnalysis) analyse(fn *ssa.Function, args []rootSet, fv []rootSet) []rootSet {
	key := fmt.Sprintf("%p", fn)
	for _, a := range args {
		key += "|" + a.key()
	}
	for _, a := range fv {
		key += "^" + a.key()
	}
	if r, ok := e.memo[key]; ok {
		return r.res
	}
	nres := fn.Signature.Results().Len()
	r := &effResult{res: make([]rootSet, nres), running: true}
	for i := range r.res {
		r.res[i] = rootSet{}
	}
	e.memo[key] = r
	e.visited[fn] = true
	e.stack = append(e.stack, fn.RelString(nil))
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if len(e.stack) > 40 {
		e.eff("opaque", "", fn, fn.Pos(), "call chain too deep")
		return r.res
	}
	vals := map[ssa.Value]rootSet{}
	tup := map[ssa.Value][]rootSet{}
	for i, p := range fn.Params {
		if i < len(args) {
			vals[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fv) {
			vals[p] = fv[i]
		}
	}
	get := func(v ssa.Value) rootSet {
		switch x := v.(type) {
		case *ssa.Global:
			return rootSet{"G:" + x.RelString(nil): true}
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			return nil
		}
		return vals[v]
	}
	for iter := 0; iter < 30; iter++ {
		ch := false
		set := func(v ssa.Value, s rootSet) {
			m := vals[v]
			if m == nil {
				m = rootSet{}
				vals[v] = m
			}
			if m.addAll(s) {
				ch = true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Alloc:
					set(x, rootSet{e.site(x): true})
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
					set(x.(ssa.Value), rootSet{e.site(ins.(ssa.Value)): true})
				case *ssa.MakeClosure:
					s := rootSet{e.site(x): true}
					for _, bd := range x.Bindings {
						s.addAll(get(bd))
					}
					set(x, s)
				case *ssa.FieldAddr:
					set(x, get(x.X))
				case *ssa.IndexAddr:
					set(x, get(x.X))
				case *ssa.Field:
					if hasPointers(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Index:
					if hasPointers(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Slice:
					set(x, get(x.X))
				case *ssa.Phi:
					for _, ed := range x.Edges {
						if hasPointers(x.Type()) {
							set(x, get(ed))
						}
					}
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.Convert:
					if hasPointers(x.Type()) {
						if isString(x.Type()) != isString(x.X.Type()) {
							set(x, rootSet{e.site(x): true})
						} else {
							set(x, get(x.X))
						}
					}
				case *ssa.ChangeInterface:
					set(x, get(x.X))
				case *ssa.SliceToArrayPointer:
					set(x, get(x.X))
				case *ssa.MakeInterface:
					if hasPointers(x.X.Type()) {
						set(x, get(x.X))
					}
				case *ssa.TypeAssert:
					set(x, get(x.X))
				case *ssa.Extract:
					if t := tup[x.Tuple]; t != nil {
						if x.Index < len(t) {
							set(x, t[x.Index])
						}
					} else if hasPointers(x.Type()) {
						set(x, get(x.Tuple))
					}
				case *ssa.Lookup:
					if hasPointers(x.Type()) {
						set(x, e.reach(get(x.X)))
					}
				case *ssa.BinOp:
					if hasPointers(x.Type()) && !isString(x.Type()) {
						set(x, get(x.X))
						set(x, get(x.Y))
					} else if isString(x.Type()) {
						set(x, rootSet{e.site(x): true})
					}
				case *ssa.UnOp:
					switch x.Op {
					case token.MUL:
						if hasPointers(x.Type()) {
							s := rootSet{}
							for rt := range get(x.X) {
								if strings.HasPrefix(rt, "A:") {
									s.addAll(e.contents[rt])
								} else {
									s[rt] = true
									s.addAll(e.contents[rt])
								}
							}
							set(x, s)
						}
					case token.ARROW:
						e.eff("nondet", "", fn, x.Pos(), "receives from a channel")
						set(x, e.reach(get(x.X)))
					}
				case *ssa.Store:
					var v rootSet
					if hasPointers(x.Val.Type()) {
						v = get(x.Val)
					}
					e.write(fn, x.Pos(), get(x.Addr), v, "store")
				case *ssa.MapUpdate:
					v := rootSet{}
					v.addAll(get(x.Value))
					v.addAll(get(x.Key))
					e.write(fn, x.Pos(), get(x.Map), v, "map update")
				case *ssa.Send:
					e.write(fn, x.Pos(), get(x.Chan), get(x.X), "channel send")
				case *ssa.Select:
					e.eff("nondet", "", fn, x.Pos(), "select statement")
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						e.eff("nondet", "", fn, x.Pos(), "iterates over a map")
					}
					set(x, get(x.X))
				case *ssa.Next:
					set(x, e.reach(get(x.Iter)))
				case *ssa.Go:
					e.eff("spawn", "", fn, x.Pos(), "starts a goroutine")
					e.callSites(fn, &x.Call, get, x.Pos())
				case *ssa.Defer:
					e.callSites(fn, &x.Call, get, x.Pos())
				case *ssa.Call:
					rs := e.callSites(fn, &x.Call, get, x.Pos())
					if len(rs) == 1 {
						set(x, rs[0])
					} else if len(rs) > 1 {
						old := tup[x]
						if old == nil {
							tup[x] = rs
							ch = true
						} else {
							for i := range rs {
								if old[i].addAll(rs[i]) {
									ch = true
								}
							}
						}
					}
				case *ssa.Return:
					for i, v := range x.Results {
						if hasPointers(v.Type()) {
							if r.res[i].addAll(get(v)) {
								ch = true
							}
						}
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	r.running = false
	return r.res
}

func (e *effAnalysis) callSites(fn *ssa.Function, cc *ssa.CallCommon, get func(ssa.Value) rootSet, pos token.Pos) []rootSet {
	e.sites++
	var args []rootSet
	for _, a := range cc.Args {
		s := rootSet{}
		if hasPointers(a.Type()) {
			s.addAll(get(a))
		}
		args = append(args, s)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			s := rootSet{"A:" + e.prog.pos(pos) + "#append" + fmt.Sprint(pos): true}
			if len(args) > 0 {
				s.addAll(args[0])
				if len(args) > 1 {
					var v rootSet
					if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && hasPointers(sl.Elem()) {
						v = e.reach(args[1])
					}
					e.write(fn, pos, s, v, "append")
				}
			}
			return []rootSet{s}
		case "copy":
			var v rootSet
			if sl, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && hasPointers(sl.Elem()) {
				v = e.reach(args[1])
			}
			e.write(fn, pos, args[0], v, "copy")
		case "delete", "clear":
			e.write(fn, pos, args[0], nil, b.Name())
		case "recover":
			e.eff("opaque", "", fn, pos, "recover")
		}
		if cc.Signature() != nil && cc.Signature().Results() != nil {
			n := cc.Signature().Results().Len()
			out := make([]rootSet, n)
			for i := range out {
				out[i] = rootSet{}
				if hasPointers(cc.Signature().Results().At(i).Type()) {
					for _, a := range args {
						out[i].addAll(a)
					}
				}
			}
			return out
		}
		return nil
	}
	var targets []*ssa.Function
	var fvs [][]rootSet
	if cc.IsInvoke() {
		recv := rootSet{}
		recv.addAll(get(cc.Value))
		args = append([]rootSet{recv}, args...)
		for _, path := range e.prog.libPaths() {
			for _, f := range e.prog.funcsOf(e.prog.spkgs[path]) {
				if f.Signature.Recv() != nil && f.Name() == cc.Method.Name() && types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
					targets = append(targets, f)
					fvs = append(fvs, nil)
				}
			}
		}
		if len(targets) == 0 {
			e.eff("opaque", "", fn, pos, "dynamic call "+cc.Method.FullName())
			for _, a := range args {
				for r := range e.reach(a) {
					e.eff("write", r, fn, pos, "passed to the dynamic call "+cc.Method.FullName())
				}
			}
		}
	} else if f := cc.StaticCallee(); f != nil {
		targets = append(targets, f)
		var fv []rootSet
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				s := rootSet{}
				s.addAll(get(b))
				fv = append(fv, s)
			}
		}
		fvs = append(fvs, fv)
	} else {
		targets = e.resolve(cc.Value, map[ssa.Value]bool{})
		if targets == nil {
			// any repository function of this signature
			for _, path := range e.prog.libPaths() {
				sp := e.prog.spkgs[path]
				if !e.prog.isRepo(sp) {
					continue
				}
				for _, f := range e.prog.funcsOf(sp) {
					if f.Signature.Recv() == nil && types.Identical(f.Signature, cc.Signature()) {
						targets = append(targets, f)
					}
				}
			}
		}
		all := rootSet{}
		all.addAll(e.reach(get(cc.Value)))
		for _, t := range targets {
			var fv []rootSet
			for range t.FreeVars {
				fv = append(fv, all)
			}
			fvs = append(fvs, fv)
		}
		if len(targets) == 0 {
			e.eff("opaque", "", fn, pos, "call through an unresolved function value")
		}
	}
	var out []rootSet
	for i, t := range targets {
		res := e.callOne(fn, t, args, fvs[i], pos)
		if out == nil {
			for _, r := range res {
				s := rootSet{}
				s.addAll(r)
				out = append(out, s)
			}
		} else {
			for j := range res {
				out[j].addAll(res[j])
			}
		}
	}
	if out == nil && cc.Signature().Results().Len() > 0 {
		out = make([]rootSet, cc.Signature().Results().Len())
		for i := range out {
			out[i] = rootSet{}
			if hasPointers(cc.Signature().Results().At(i).Type()) {
				out[i]["U"] = true
			}
		}
	}
	return out
}

// resolve: functions a value may denote, following loads of package-level
// function variables.
func (e *effAnalysis) resolve(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g := globalBase(x.X); g != nil {
				return e.globals[g]
			}
		}
	case *ssa.Phi:
		var o []*ssa.Function
		for _, ed := range x.Edges {
			r := e.resolve(ed, seen)
			o = append(o, r...)
		}
		return o
	}
	return funcTargets(v, map[ssa.Value]bool{})
}

func (e *effAnalysis) callOne(fn, t *ssa.Function, args []rootSet, fv []rootSet, pos token.Pos) []rootSet {
	nres := t.Signature.Results().Len()
	out := make([]rootSet, nres)
	for i := range out {
		out[i] = rootSet{}
	}
	if e.prog.isRepo(t.Pkg) || (t.Pkg == nil && len(t.Blocks) > 0) {
		if len(t.Blocks) > 0 {
			return e.analyse(t, args, fv)
		}
		// assembly: the ABI rules establish that it only stores through its
		// output slice and keeps nothing
		e.visited[t] = true
		k := classify(t)
		for i, a := range args {
			if k != nil && i != k.out {
				continue
			}
			for r := range a {
				e.eff("write", r, fn, pos, "written by assembly routine "+t.Name())
			}
		}
		return out
	}
	pkg := ""
	if t.Pkg != nil {
		pkg = t.Pkg.Pkg.Path()
	} else if t.Object() != nil && t.Object().Pkg() != nil {
		pkg = t.Object().Pkg().Path()
	}
	nm := t.RelString(nil)
	pkgHas := func(p string) bool { return pkg == p || strings.HasPrefix(pkg, p+"/") }
	all := rootSet{}
	for _, a := range args {
		all.addAll(e.reach(a))
	}
	switch {
	case nondetPkgs[pkg]:
		if nm != "runtime.KeepAlive" {
			e.eff("nondet", "", fn, pos, "calls "+nm)
		}
	case pkgHas("sync"):
		for r := range all {
			if strings.HasPrefix(r, "G:") {
				e.eff("write", r, fn, pos, "passed to "+nm)
			}
		}
		if strings.Contains(nm, "Pool") {
			e.eff("nondet", "", fn, pos, "calls "+nm)
			if strings.HasSuffix(nm, "Put") {
				for r := range all {
					if !strings.HasPrefix(r, "G:") {
						e.eff("retain", r, fn, pos, "handed to "+nm)
					}
				}
			}
		}
		for i := range out {
			if hasPointers(t.Signature.Results().At(i).Type()) {
				out[i]["U"] = true
				out[i].addAll(all)
			}
		}
		return out
	case pkgHas("golang.org/x/sys/cpu"):
		return out
	case purePkgs[pkg]:
		// writers: the destination argument
		base := t.Name()
		if (pkg == "encoding/binary" || pkg == "internal/byteorder") && (strings.HasPrefix(base, "Put") || strings.HasPrefix(base, "LEPut") || strings.HasPrefix(base, "BEPut") || strings.HasPrefix(base, "Append") || strings.Contains(base, "Encode")) ||
			(pkg == "sort" || pkg == "slices") && !strings.HasPrefix(base, "Search") && !strings.HasPrefix(base, "Is") && !strings.HasPrefix(base, "Equal") && !strings.HasPrefix(base, "Contains") && !strings.HasPrefix(base, "Index") && !strings.HasPrefix(base, "Min") && !strings.HasPrefix(base, "Max") && !strings.HasPrefix(base, "Clone") && !strings.HasPrefix(base, "Compare") && !strings.HasPrefix(base, "BinarySearch") {
			for _, a := range args {
				for r := range a {
					e.eff("write", r, fn, pos, "written by "+nm)
				}
			}
		}
	default:
		e.eff("opaque", "", fn, pos, "calls "+nm+", which is outside the analysed code")
		for r := range all {
			if strings.HasPrefix(r, "G:") {
				e.eff("write", r, fn, pos, "passed to "+nm)
			}
		}
	}
	fresh := strings.HasPrefix(t.Name(), "Clone") || strings.HasPrefix(t.Name(), "Repeat")
	for i := range out {
		if hasPointers(t.Signature.Results().At(i).Type()) {
			out[i]["A:"+e.prog.pos(pos)+"#call"+fmt.Sprint(pos)] = true
			if !fresh {
				out[i].addAll(all)
			}
		}
	}
	return out
}
