package main

// Effects and ownership: an inclusion-based points-to analysis over the SSA form, cloned per call
// path from an API entry whose arguments are symbolic objects. Branches on the identity of objects
// (m == matrix, mask == nil) are followed only where the points-to sets leave them open, so that an
// entry can be analysed under each aliasing of its arguments. The result of a run is the set of
// memory locations written, with the instruction that writes, and what each result can reach.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type objKind int

const (
	kRoot   objKind = iota // an argument of the entry, or what is reachable from one
	kAlloc                 // allocated during the analysed call
	kFunc                  // a function value
	kNil                   // nil
	kGlobal                // a package variable
	kOpaque                // something of another package
)

type obj struct {
	id    int
	kind  objKind
	typ   types.Type // of the memory block; for slices the element type with elems set
	elems bool       // backing array, map or channel: contents at path "[]"
	root  string     // name of the argument it belongs to
	group string     // aliasing group for identity comparisons
	depth int
	fn    *ssa.Function
	binds []val
	label string
	site  ssa.Instruction
	mem   map[string]val // contents by path
	lazy  map[string]bool
}

type target struct {
	o    *obj
	path string
	clip bool // a slice with no spare capacity: append copies
}

// elem is a target at a position inside an aggregate value.
type elem struct {
	sub string
	t   target
}
type val map[elem]bool

func (v val) add(w val) bool {
	ch := false
	for e := range w {
		if !v[e] {
			v[e] = true
			ch = true
		}
	}
	return ch
}
func (v val) project(sub string) val {
	out := val{}
	for e := range v {
		if e.sub == sub {
			out[elem{"", e.t}] = true
		} else if strings.HasPrefix(e.sub, sub) {
			rest := e.sub[len(sub):]
			if rest != "" && (rest[0] == '.' || rest[0] == '[' || rest[0] == '#') {
				out[elem{rest, e.t}] = true
			}
		}
	}
	return out
}
func (v val) inject(sub string) val {
	out := val{}
	for e := range v {
		out[elem{sub + e.sub, e.t}] = true
	}
	return out
}
func single(t target) val { return val{elem{"", t}: true} }

type frame struct {
	fn     *ssa.Function
	parent *frame
	site   ssa.Instruction
	depth  int
	vals   map[ssa.Value]val
	free   []val
	ret    val
	reach  map[*ssa.BasicBlock]bool
	kids   map[frameKey]*frame
	objs   map[ssa.Instruction]*obj
}
type frameKey struct {
	site ssa.Instruction
	fn   *ssa.Function
	clos *obj
}

type memKey struct {
	o    *obj
	path string
}

type effect struct {
	instr ssa.Instruction
	f     *frame
	t     target
	what  string
}

type pta struct {
	p        *Program
	nobj     int
	globals  map[*ssa.Global]*obj
	funcs    map[*ssa.Function]*obj
	tops     map[string]*frame
	roots    map[string][]*obj
	nilObj   *obj
	opaque   *obj
	changed  bool
	effects  map[string]effect
	reads    map[string]effect
	wantRead bool
	nframes  int
	problems map[string]string
	noret    map[*ssa.Function]int
	calls    int
}

func newPTA(p *Program) *pta {
	e := &pta{p: p, globals: map[*ssa.Global]*obj{}, funcs: map[*ssa.Function]*obj{},
		tops: map[string]*frame{}, roots: map[string][]*obj{}, effects: map[string]effect{}, reads: map[string]effect{}, problems: map[string]string{}, noret: map[*ssa.Function]int{}}
	e.nilObj = e.newObj(kNil, nil, "nil")
	e.opaque = e.newObj(kOpaque, nil, "opaque")
	return e
}

func (e *pta) newObj(k objKind, t types.Type, label string) *obj {
	e.nobj++
	return &obj{id: e.nobj, kind: k, typ: t, label: label}
}

func (e *pta) problem(key, format string, args ...any) {
	e.problems[key] = fmt.Sprintf(format, args...)
}

// solve runs the script until nothing changes.
func (e *pta) solve(script func()) {
	for i := 0; ; i++ {
		e.changed = false
		e.calls = 0
		script()
		if !e.changed {
			return
		}
		if i > 200 {
			e.problem("fixpoint", "no fixpoint after %d rounds", i)
			return
		}
	}
}

// ---- types

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// pointerLike reports whether a value of type t can point to memory.
func pointerLike(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false // the constraints only admit basic types
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// leaves lists the paths of the pointer-like parts of a value of type t.
func leaves(t types.Type, path string, out *[]string, ts *[]types.Type) {
	if pointerLike(t) {
		*out = append(*out, path)
		*ts = append(*ts, t)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leaves(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), out, ts)
		}
	case *types.Array:
		leaves(u.Elem(), path+"[]", out, ts)
	}
}

func (e *pta) typeAt(o *obj, path string) types.Type {
	t := o.typ
	if t == nil {
		return nil
	}
	if o.elems {
		if path == "" {
			return nil
		}
		if !strings.HasPrefix(path, "[]") {
			return nil
		}
		path = path[2:]
	}
	for path != "" {
		if strings.HasPrefix(path, "[]") {
			switch a := t.Underlying().(type) {
			case *types.Array:
				t = a.Elem()
			case *types.Slice:
				t = a.Elem()
			default:
				return nil
			}
			path = path[2:]
			continue
		}
		var i int
		n, err := fmt.Sscanf(path, ".%d", &i)
		if n != 1 || err != nil {
			return nil
		}
		s := structOf(t)
		if s == nil || i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
		path = path[1+len(fmt.Sprint(i)):]
	}
	return t
}

// implementers lists the repository's named types whose pointer has all methods of the interface.
func (p *Program) implementers(it *types.Interface) []*types.Named {
	var out []*types.Named
	for _, rel := range sortedKeys(p.Pkgs) {
		sc := p.Pkgs[rel].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || structOf(n) == nil {
				continue
			}
			if p.hasMethods(n, it) {
				out = append(out, n)
			}
		}
	}
	return out
}

func (p *Program) hasMethods(n *types.Named, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, m.Pkg(), m.Name())
		f, ok := o.(*types.Func)
		if !ok {
			return false
		}
		a, b := f.Type().(*types.Signature), m.Type().(*types.Signature)
		if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() {
			return false
		}
		for j := 0; j < a.Results().Len(); j++ {
			x, y := namedOf(a.Results().At(j).Type()), namedOf(b.Results().At(j).Type())
			if x != y {
				return false
			}
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// rootVal makes the symbolic value of an argument (or of a field of one).
func (e *pta) rootVal(name, group string, t types.Type, depth int) val {
	if depth > 5 {
		return val{}
	}
	mk := func(typ types.Type, elems bool, label string) *obj {
		o := e.newObj(kRoot, typ, label)
		o.elems, o.root, o.group, o.depth = elems, name, group, depth
		e.roots[name] = append(e.roots[name], o)
		return o
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return val{}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return single(target{o: mk(u.Elem(), false, name)})
	case *types.Slice:
		return single(target{o: mk(u.Elem(), true, name+"[]")})
	case *types.Map:
		return single(target{o: mk(u.Elem(), true, name+"[]")})
	case *types.Chan:
		return single(target{o: mk(u.Elem(), true, name+"<-")})
	case *types.Signature:
		o := mk(t, false, name)
		return single(target{o: o})
	case *types.Interface:
		out := val{}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.p.Module) {
			for _, im := range e.p.implementers(u) {
				o := mk(im, false, name+":"+im.Obj().Name())
				out[elem{"", target{o: o}}] = true
			}
		}
		if len(out) == 0 {
			out[elem{"", target{o: e.opaque}}] = true
		}
		return out
	case *types.Struct, *types.Array:
		out := val{}
		var paths []string
		var ts []types.Type
		leaves(t, "", &paths, &ts)
		for i := range paths {
			out.add(e.rootVal(name, "", ts[i], depth+1).inject(paths[i]))
		}
		return out
	}
	return val{}
}

// ---- memory

func (e *pta) load(t target, typ types.Type) val {
	out := val{}
	if t.o.kind == kNil || t.o.kind == kOpaque {
		if pointerLike(typ) && t.o.kind == kOpaque {
			out[elem{"", target{o: e.opaque}}] = true
		}
		return out
	}
	var paths []string
	var ts []types.Type
	leaves(typ, "", &paths, &ts)
	for i, sub := range paths {
		k := memKey{t.o, t.path + sub}
		if t.o.kind == kRoot && !t.o.lazy[k.path] {
			if t.o.lazy == nil {
				t.o.lazy = map[string]bool{}
			}
			t.o.lazy[k.path] = true
			ft := e.typeAt(t.o, t.path+sub)
			if ft == nil {
				ft = ts[i]
			}
			e.store1(k, e.rootVal(t.o.root, "", ft, t.o.depth+1))
		}
		out.add(t.o.mem[k.path].inject(sub))
	}
	return out
}

func (e *pta) store1(k memKey, v val) {
	m := k.o.mem[k.path]
	if m == nil {
		m = val{}
		if k.o.mem == nil {
			k.o.mem = map[string]val{}
		}
		k.o.mem[k.path] = m
	}
	if m.add(v) {
		e.changed = true
	}
}

func (e *pta) storeAt(t target, typ types.Type, v val) {
	if t.o.kind == kNil || t.o.kind == kOpaque {
		return
	}
	var paths []string
	var ts []types.Type
	leaves(typ, "", &paths, &ts)
	for _, sub := range paths {
		pv := val{}
		for el := range v {
			if el.sub == sub {
				pv[elem{"", el.t}] = true
			}
		}
		e.store1(memKey{t.o, t.path + sub}, pv)
	}
}

func (e *pta) effectOn(f *frame, i ssa.Instruction, t target, what string) {
	if t.o.kind == kNil || t.o.kind == kOpaque || t.o.kind == kFunc {
		return
	}
	k := fmt.Sprintf("%p|%p|%d|%s", f, i, t.o.id, t.path)
	if _, ok := e.effects[k]; !ok {
		e.effects[k] = effect{i, f, t, what}
	}
}

func (e *pta) readOf(f *frame, i ssa.Instruction, t target) {
	if !e.wantRead || t.o.kind == kNil || t.o.kind == kOpaque || t.o.kind == kFunc {
		return
	}
	k := fmt.Sprintf("%p|%p|%d|%s", f, i, t.o.id, t.path)
	if _, ok := e.reads[k]; !ok {
		e.reads[k] = effect{i, f, t, "read"}
	}
}

// ---- frames

func (e *pta) top(key string, fn *ssa.Function, args []val) val {
	f := e.tops[key]
	if f == nil {
		f = e.newFrame(fn, nil, nil)
		e.tops[key] = f
	}
	return e.enter(f, args)
}

func (e *pta) newFrame(fn *ssa.Function, parent *frame, site ssa.Instruction) *frame {
	e.nframes++
	e.changed = true
	f := &frame{fn: fn, parent: parent, site: site, vals: map[ssa.Value]val{}, ret: val{}, reach: map[*ssa.BasicBlock]bool{}, kids: map[frameKey]*frame{}, objs: map[ssa.Instruction]*obj{}}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	return f
}

func (e *pta) enter(f *frame, args []val) val {
	for i, p := range f.fn.Params {
		if i < len(args) {
			e.bind(f, p, args[i])
		}
	}
	e.runFrame(f)
	return f.ret
}

func (e *pta) bind(f *frame, v ssa.Value, x val) {
	m := f.vals[v]
	if m == nil {
		m = val{}
		f.vals[v] = m
	}
	if m.add(x) {
		e.changed = true
	}
}

func (e *pta) callFn(f *frame, site ssa.Instruction, fn *ssa.Function, clos *obj, args []val) val {
	fn = body(fn)
	if len(fn.Blocks) == 0 {
		return e.external(f, site, fn, args)
	}
	if !e.p.inScope(fn) {
		return e.external(f, site, fn, args)
	}
	// recursion: join the frame already active for this function
	n := 0
	for a := f; a != nil; a = a.parent {
		if a.fn == fn {
			n++
			if n >= 2 || a == f {
				for i, p := range a.fn.Params {
					if i < len(args) {
						e.bind(a, p, args[i])
					}
				}
				return a.ret
			}
		}
	}
	if f.depth > 60 || e.nframes > 400000 {
		e.problem("depth", "call depth or number of call paths exceeded at %s", fn)
		return val{}
	}
	k := frameKey{site, fn, clos}
	kid := f.kids[k]
	if kid == nil {
		kid = e.newFrame(fn, f, site)
		f.kids[k] = kid
	}
	if clos != nil {
		kid.free = clos.binds
	}
	return e.enter(kid, args)
}

var noReturnExternal = map[string]bool{
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"os.Exit": true, "runtime.Goexit": true,
	"(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
}

// noReturn reports whether a call of fn never returns.
func (p *Program) noReturn(fn *ssa.Function) bool {
	fn = body(fn)
	if noReturnExternal[fn.String()] {
		return true
	}
	if len(fn.Blocks) == 0 || !p.inScope(fn) {
		return false
	}
	if r, ok := p.noRetMemo()[fn]; ok {
		return r
	}
	p.noRetMemo()[fn] = false
	seen := map[*ssa.BasicBlock]bool{}
	returns := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				if c := i.Call.StaticCallee(); c != nil && p.noReturn(c) {
					return
				}
			case *ssa.Return:
				returns = true
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(fn.Blocks[0])
	if fn.Recover != nil {
		returns = true
	}
	p.noRetMemo()[fn] = !returns
	return !returns
}

var noRetMemos = map[*Program]map[*ssa.Function]bool{}

func (p *Program) noRetMemo() map[*ssa.Function]bool {
	if noRetMemos[p] == nil {
		noRetMemos[p] = map[*ssa.Function]bool{}
	}
	return noRetMemos[p]
}

func (e *pta) get(f *frame, v ssa.Value) val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil && pointerLike(v.Type()) {
			return single(target{o: e.nilObj})
		}
		return val{}
	case *ssa.Global:
		o := e.globals[v]
		if o == nil {
			o = e.newObj(kGlobal, v.Type().Underlying().(*types.Pointer).Elem(), v.String())
			e.globals[v] = o
		}
		return single(target{o: o})
	case *ssa.Function:
		o := e.funcs[v]
		if o == nil {
			o = e.newObj(kFunc, v.Type(), v.String())
			o.fn = v
			e.funcs[v] = o
		}
		return single(target{o: o})
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == v && i < len(f.free) {
				return f.free[i]
			}
		}
		return val{}
	case *ssa.Builtin:
		return val{}
	}
	return f.vals[v]
}

func (e *pta) alloc(f *frame, i ssa.Instruction, t types.Type, elems bool) *obj {
	o := f.objs[i]
	if o == nil {
		o = e.newObj(kAlloc, t, "allocated at "+e.p.instrPos(i))
		o.elems = elems
		o.site = i
		f.objs[i] = o
		e.changed = true
	}
	return o
}

// tri is a three-valued truth: bit 0 may be true, bit 1 may be false.
func (e *pta) cond(f *frame, v ssa.Value) (mayTrue, mayFalse bool) {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value != nil && c.Value.Kind() == constant.Bool {
			b := constant.BoolVal(c.Value)
			return b, !b
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			t, fl := e.cond(f, c.X)
			return fl, t
		}
	case *ssa.Phi:
		for i, ed := range c.Edges {
			if !f.reach[c.Block().Preds[i]] {
				continue
			}
			if _, same := ed.(*ssa.Phi); same {
				return true, true
			}
			t, fl := e.cond(f, ed)
			mayTrue = mayTrue || t
			mayFalse = mayFalse || fl
		}
		return
	case *ssa.BinOp:
		if (c.Op == token.EQL || c.Op == token.NEQ) && pointerLike(c.X.Type()) {
			a, b := e.get(f, c.X), e.get(f, c.Y)
			if len(a) == 0 || len(b) == 0 {
				return false, false
			}
			disjoint := true
			for x := range a {
				if b[x] || x.t.o.kind == kOpaque {
					disjoint = false
				}
				for y := range b {
					if x.t.o == y.t.o && !(x.t.o.kind == kRoot && x.t.path != y.t.path) || y.t.o.kind == kOpaque {
						disjoint = false
					}
				}
			}
			eq, ne := true, true
			if disjoint {
				eq = false
			} else if len(a) == len(b) {
				same := true
				group := ""
				for x := range a {
					if !b[x] || x.t.o.group == "" && x.t.o.kind != kNil || group != "" && x.t.o.group != group {
						same = false
					}
					group = x.t.o.group
				}
				if same {
					ne = false
				}
			}
			if c.Op == token.NEQ {
				eq, ne = ne, eq
			}
			return eq, ne
		}
	}
	return true, true
}

func (e *pta) runFrame(f *frame) {
	if len(f.fn.Blocks) == 0 {
		return
	}
	f.reach[f.fn.Blocks[0]] = true
	for {
		n := len(f.reach)
		for _, b := range f.fn.Blocks {
			if f.reach[b] {
				e.runBlock(f, b)
			}
		}
		if len(f.reach) == n {
			break
		}
		e.changed = true
	}
}

func (e *pta) runBlock(f *frame, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if e.instr(f, in) {
			return // does not return
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	if c, ok := last.(*ssa.If); ok {
		t, fl := e.cond(f, c.Cond)
		if t {
			f.reach[b.Succs[0]] = true
		}
		if fl {
			f.reach[b.Succs[1]] = true
		}
		return
	}
	for _, s := range b.Succs {
		f.reach[s] = true
	}
}

func (e *pta) instr(f *frame, in ssa.Instruction) (stop bool) {
	switch i := in.(type) {
	case *ssa.Alloc:
		o := e.alloc(f, i, i.Type().Underlying().(*types.Pointer).Elem(), false)
		e.bind(f, i, single(target{o: o}))
	case *ssa.FieldAddr:
		for el := range e.get(f, i.X) {
			if el.t.o.kind == kNil {
				continue
			}
			if el.t.o.kind == kOpaque {
				e.bind(f, i, single(target{o: e.opaque}))
				continue
			}
			e.bind(f, i, single(target{o: el.t.o, path: fmt.Sprintf("%s.%d", el.t.path, i.Field)}))
		}
	case *ssa.Field:
		e.bind(f, i, e.get(f, i.X).project(fmt.Sprintf(".%d", i.Field)))
	case *ssa.IndexAddr:
		for el := range e.get(f, i.X) {
			if el.t.o.kind == kNil {
				continue
			}
			if el.t.o.kind == kOpaque {
				e.bind(f, i, single(target{o: e.opaque}))
				continue
			}
			e.bind(f, i, single(target{o: el.t.o, path: el.t.path + "[]"}))
		}
	case *ssa.Index:
		e.bind(f, i, e.get(f, i.X).project("[]"))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			for el := range e.get(f, i.X) {
				e.readOf(f, i, el.t)
				e.bind(f, i, e.load(el.t, i.Type()))
			}
		case token.ARROW:
			for el := range e.get(f, i.X) {
				t := i.Type()
				if i.CommaOk {
					t = t.(*types.Tuple).At(0).Type()
					e.bind(f, i, e.load(target{o: el.t.o, path: "[]"}, t).inject("#0"))
				} else {
					e.bind(f, i, e.load(target{o: el.t.o, path: "[]"}, t))
				}
			}
		}
	case *ssa.Store:
		for el := range e.get(f, i.Addr) {
			e.effectOn(f, i, el.t, "store")
			e.storeAt(el.t, i.Val.Type(), e.get(f, i.Val))
		}
	case *ssa.Send:
		for el := range e.get(f, i.Chan) {
			e.storeAt(target{o: el.t.o, path: "[]"}, i.X.Type(), e.get(f, i.X))
		}
	case *ssa.Select:
		n := 2
		for _, st := range i.States {
			if st.Dir == types.SendOnly {
				for el := range e.get(f, st.Chan) {
					e.storeAt(target{o: el.t.o, path: "[]"}, st.Send.Type(), e.get(f, st.Send))
				}
			} else {
				ct := st.Chan.Type().Underlying().(*types.Chan)
				for el := range e.get(f, st.Chan) {
					e.bind(f, i, e.load(target{o: el.t.o, path: "[]"}, ct.Elem()).inject(fmt.Sprintf("#%d", n)))
				}
				n++
			}
		}
	case *ssa.MapUpdate:
		for el := range e.get(f, i.Map) {
			t := target{o: el.t.o, path: "[]"}
			e.effectOn(f, i, t, "map update")
			e.storeAt(t, i.Value.Type(), e.get(f, i.Value))
		}
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			mt := i.X.Type().Underlying().(*types.Map)
			for el := range e.get(f, i.X) {
				v := e.load(target{o: el.t.o, path: "[]"}, mt.Elem())
				if i.CommaOk {
					v = v.inject("#0")
				}
				e.bind(f, i, v)
			}
		}
	case *ssa.Phi:
		for k, ed := range i.Edges {
			if f.reach[i.Block().Preds[k]] {
				e.bind(f, i, e.get(f, ed))
			}
		}
	case *ssa.ChangeType:
		e.bind(f, i, e.get(f, i.X))
	case *ssa.Convert:
		if pointerLike(i.Type()) {
			if pointerLike(i.X.Type()) {
				e.bind(f, i, e.get(f, i.X))
			} else if sl, ok := i.Type().Underlying().(*types.Slice); ok { // string to slice: fresh
				e.bind(f, i, single(target{o: e.alloc(f, i, sl.Elem(), true)}))
			}
		}
	case *ssa.MultiConvert:
		e.bind(f, i, e.get(f, i.X))
	case *ssa.ChangeInterface:
		e.bind(f, i, e.get(f, i.X))
	case *ssa.MakeInterface:
		if pointerLike(i.X.Type()) {
			e.bind(f, i, e.get(f, i.X))
		} else {
			var paths []string
			var ts []types.Type
			leaves(i.X.Type(), "", &paths, &ts)
			if len(paths) > 0 { // a boxed struct: an object that holds its parts
				o := e.alloc(f, i, i.X.Type(), false)
				e.storeAt(target{o: o}, i.X.Type(), e.get(f, i.X))
				e.bind(f, i, single(target{o: o}))
			}
		}
	case *ssa.TypeAssert:
		out := val{}
		for el := range e.get(f, i.X) {
			if e.assertOK(el.t, i.AssertedType) {
				out[el] = true
			}
		}
		if i.CommaOk {
			out = out.inject("#0")
		}
		e.bind(f, i, out)
	case *ssa.Extract:
		e.bind(f, i, e.get(f, i.Tuple).project(fmt.Sprintf("#%d", i.Index)))
	case *ssa.Slice:
		x := e.get(f, i.X)
		for el := range x {
			if el.t.o.kind == kNil {
				e.bind(f, i, single(el.t))
				continue
			}
			t := el.t
			if _, isPtr := i.X.Type().Underlying().(*types.Pointer); isPtr {
				// slicing an array: the array's memory becomes the backing store
				if t.path == "" && !t.o.elems {
					bo := e.backingOf(f, i, t.o)
					e.bind(f, i, single(target{o: bo}))
					continue
				}
			}
			t.clip = i.Max != nil && sameValue(i.Max, i.High)
			e.bind(f, i, single(t))
		}
	case *ssa.SliceToArrayPointer:
		e.bind(f, i, e.get(f, i.X))
	case *ssa.MakeSlice:
		e.bind(f, i, single(target{o: e.alloc(f, i, i.Type().Underlying().(*types.Slice).Elem(), true)}))
	case *ssa.MakeMap:
		e.bind(f, i, single(target{o: e.alloc(f, i, i.Type().Underlying().(*types.Map).Elem(), true)}))
	case *ssa.MakeChan:
		e.bind(f, i, single(target{o: e.alloc(f, i, i.Type().Underlying().(*types.Chan).Elem(), true)}))
	case *ssa.MakeClosure:
		o := f.objs[i]
		if o == nil {
			o = e.newObj(kFunc, i.Type(), i.Fn.String())
			o.fn = i.Fn.(*ssa.Function)
			o.binds = make([]val, len(i.Bindings))
			for k := range o.binds {
				o.binds[k] = val{}
			}
			f.objs[i] = o
			e.changed = true
		}
		for k, b := range i.Bindings {
			if o.binds[k].add(e.get(f, b)) {
				e.changed = true
			}
		}
		e.bind(f, i, single(target{o: o}))
	case *ssa.Range:
		e.bind(f, i, e.get(f, i.X))
	case *ssa.Next:
		if !i.IsString {
			tup := i.Type().(*types.Tuple)
			for el := range e.get(f, i.Iter) {
				e.bind(f, i, e.load(target{o: el.t.o, path: "[]"}, tup.At(2).Type()).inject("#2"))
			}
		}
	case *ssa.Return:
		v := val{}
		if len(i.Results) == 1 {
			v.add(e.get(f, i.Results[0]))
		} else {
			for k, r := range i.Results {
				v.add(e.get(f, r).inject(fmt.Sprintf("#%d", k)))
			}
		}
		if f.ret.add(v) {
			e.changed = true
		}
	case ssa.CallInstruction:
		r, never := e.call(f, i)
		if v, ok := in.(*ssa.Call); ok && r != nil {
			e.bind(f, v, r)
		}
		if _, ok := in.(*ssa.Call); ok && never {
			return true
		}
	}
	return false
}

// backingOf is the slice view of an array variable.
func (e *pta) backingOf(f *frame, i ssa.Instruction, arr *obj) *obj {
	// array elements live at path "[]" of the array object already
	return arr
}

func sameValue(a, b ssa.Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && ca.Value != nil && cb.Value != nil && constant.Compare(ca.Value, token.EQL, cb.Value)
}

func (e *pta) assertOK(t target, at types.Type) bool {
	if t.o.kind == kNil {
		return false
	}
	if t.o.kind == kOpaque || t.o.kind == kFunc {
		return true
	}
	typ := e.typeAt(t.o, t.path)
	if typ == nil {
		return true
	}
	n := namedOf(typ)
	if n == nil {
		return true
	}
	if it, ok := at.Underlying().(*types.Interface); ok {
		return it.NumMethods() == 0 || e.p.hasMethods(n, it)
	}
	return namedOf(at) == n
}

func (e *pta) call(f *frame, ci ssa.CallInstruction) (val, bool) {
	c := ci.Common()
	e.calls++
	var args []val
	for _, a := range c.Args {
		args = append(args, e.get(f, a))
	}
	if c.IsInvoke() {
		return e.invoke(f, ci, e.get(f, c.Value), c.Method.Name(), args, c.Signature()), false
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(f, ci, b.Name(), args), b.Name() == "panic"
	}
	if fn := c.StaticCallee(); fn != nil {
		if e.p.noReturn(fn) {
			return val{}, true
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			o := f.objs[mc]
			if o == nil {
				return val{}, false
			}
			return e.callFn(f, ci, fn, o, args), false
		}
		return e.callFn(f, ci, fn, nil, args), false
	}
	out := val{}
	for el := range e.get(f, c.Value) {
		if el.t.o.kind == kFunc && el.t.o.fn != nil {
			out.add(e.callFn(f, ci, el.t.o.fn, el.t.o, args))
		}
		// a function argument of the entry: the caller's business
	}
	return out, false
}

func (e *pta) invoke(f *frame, site ssa.Instruction, recv val, name string, args []val, sig *types.Signature) val {
	out := val{}
	for el := range recv {
		switch el.t.o.kind {
		case kNil, kFunc:
			continue
		case kOpaque:
			out.add(e.opaqueResult(sig))
			continue
		}
		typ := e.typeAt(el.t.o, el.t.path)
		var n *types.Named
		if typ != nil {
			n = namedOf(typ)
		}
		if n == nil {
			out.add(e.opaqueResult(sig))
			continue
		}
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.p.Module) {
			out.add(e.opaqueResult(sig))
			continue
		}
		out.add(e.invokeOn(f, site, el.t, n, name, args))
	}
	return out
}

// invokeOn calls method name on the object of type n at t.
func (e *pta) invokeOn(f *frame, site ssa.Instruction, t target, n *types.Named, name string, args []val) val {
	fn, path := e.p.method(n, name)
	if fn == nil {
		// promoted through an embedded interface
		return e.promoted(f, site, t, n, name, args)
	}
	rt := t
	cur := types.Type(n)
	for _, ix := range path {
		st := structOf(cur)
		ft := st.Field(ix).Type()
		rt.path += fmt.Sprintf(".%d", ix)
		if _, isPtr := ft.Underlying().(*types.Pointer); isPtr {
			// embedded pointer: follow it
			out := val{}
			for el := range e.load(rt, ft) {
				if el.t.o.kind == kNil {
					continue
				}
				nn := namedOf(ft)
				out.add(e.invokeOn(f, site, el.t, nn, name, args))
			}
			return out
		}
		cur = ft
	}
	all := append([]val{single(rt)}, args...)
	if f == nil {
		return e.top(fmt.Sprintf("%d%s.%s", rt.o.id, rt.path, name), fn, all)
	}
	return e.callFn(f, site, fn, nil, all)
}

func (e *pta) promoted(f *frame, site ssa.Instruction, t target, n *types.Named, name string, args []val) val {
	o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	if m, ok := o.(*types.Func); ok && len(idx) > 1 {
		cur := types.Type(n)
		rt := t
		for _, ix := range idx[:len(idx)-1] {
			rt.path += fmt.Sprintf(".%d", ix)
			cur = structOf(cur).Field(ix).Type()
		}
		if _, ok := cur.Underlying().(*types.Interface); ok {
			return e.invoke(f, site, e.load(rt, cur), name, args, m.Type().(*types.Signature))
		}
	}
	e.problem("method "+n.Obj().Name()+"."+name, "method %s of %s not found", name, n)
	return val{}
}

func (e *pta) opaqueResult(sig *types.Signature) val {
	out := val{}
	if sig == nil {
		return out
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if pointerLike(sig.Results().At(i).Type()) {
			sub := ""
			if sig.Results().Len() > 1 {
				sub = fmt.Sprintf("#%d", i)
			}
			out[elem{sub, target{o: e.opaque}}] = true
		}
	}
	return out
}

func (e *pta) elemType(v ssa.Value) types.Type {
	switch t := v.Type().Underlying().(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Pointer:
		if a, ok := t.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

func (e *pta) builtin(f *frame, ci ssa.CallInstruction, name string, args []val) val {
	c := ci.Common()
	switch name {
	case "append":
		et := e.elemType(c.Args[0])
		if et == nil {
			return val{}
		}
		fresh := e.alloc(f, ci, et, true)
		out := single(target{o: fresh})
		src := val{}
		if len(args) > 1 {
			for el := range args[1] {
				e.readOf(f, ci, target{o: el.t.o, path: el.t.path + "[]"})
				src.add(e.load(target{o: el.t.o, path: el.t.path + "[]"}, et))
			}
		}
		e.storeAt(target{o: fresh, path: "[]"}, et, src)
		for el := range args[0] {
			if el.t.o.kind == kNil {
				continue
			}
			// growing copies the old elements
			e.readOf(f, ci, target{o: el.t.o, path: el.t.path + "[]"})
			e.storeAt(target{o: fresh, path: "[]"}, et, e.load(target{o: el.t.o, path: el.t.path + "[]"}, et))
			if el.t.clip {
				if len(args) > 1 {
					continue
				}
			}
			t := target{o: el.t.o, path: el.t.path + "[]"}
			if len(args) > 1 && !emptySlice(c.Args[1]) {
				e.effectOn(f, ci, t, "append within the capacity")
				e.storeAt(t, et, src)
			}
			out[elem{"", target{o: el.t.o, path: el.t.path}}] = true
		}
		return out
	case "copy":
		et := e.elemType(c.Args[0])
		for d := range args[0] {
			t := target{o: d.t.o, path: d.t.path + "[]"}
			e.effectOn(f, ci, t, "copy")
			for s := range args[1] {
				e.readOf(f, ci, target{o: s.t.o, path: s.t.path + "[]"})
				if et != nil {
					e.storeAt(t, et, e.load(target{o: s.t.o, path: s.t.path + "[]"}, et))
				}
			}
		}
	case "clear", "delete":
		for d := range args[0] {
			e.effectOn(f, ci, target{o: d.t.o, path: d.t.path + "[]"}, name)
		}
	}
	return val{}
}

func emptySlice(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// external models calls of other packages: what they write among their arguments and what their results alias.
func (e *pta) external(f *frame, site ssa.Instruction, fn *ssa.Function, args []val) val {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	res := fn.Signature.Results()
	fresh := func() val {
		out := val{}
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			sub := ""
			if res.Len() > 1 {
				sub = fmt.Sprintf("#%d", i)
			}
			if _, isTP := types.Unalias(t).(*types.TypeParam); !isTP && !pointerLike(t) {
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Slice:
				out[elem{sub, target{o: e.alloc(f, site, u.Elem(), true)}}] = true
			case *types.Interface:
				if sl := sliceOfConstraint(t); sl != nil {
					out[elem{sub, target{o: e.alloc(f, site, nil, true)}}] = true
				} else {
					out[elem{sub, target{o: e.opaque}}] = true
				}
			default:
				out[elem{sub, target{o: e.opaque}}] = true
			}
		}
		return out
	}
	switch pkg {
	case "log", "fmt", "reflect", "strings", "strconv", "errors", "math", "math/bits", "math/cmplx", "unicode", "unicode/utf8", "cmp", "context", "runtime", "time", "testing", "unsafe", "golang.org/x/net/context":
		return fresh()
	case "sync", "sync/atomic":
		return fresh()
	case "maps":
		if strings.HasSuffix(name, "maps.Clone") {
			return fresh()
		}
	case "sort":
		switch fn.Name() {
		case "Search", "SearchInts", "SearchStrings", "SearchFloat64s", "Find", "IntsAreSorted", "SliceIsSorted", "IsSorted":
			for i, a := range args {
				_ = i
				for el := range a {
					if el.t.o.kind == kFunc && el.t.o.fn != nil {
						e.callFn(f, site, el.t.o.fn, el.t.o, nil)
					} else {
						e.readOf(f, site, target{o: el.t.o, path: el.t.path + "[]"})
					}
				}
			}
			return fresh()
		}
	case "slices":
		switch fn.Name() {
		case "Clone", "Concat", "Repeat", "Equal", "EqualFunc", "Compare", "Index", "IndexFunc", "Contains", "ContainsFunc", "BinarySearch", "BinarySearchFunc", "Max", "Min", "IsSorted":
			for _, a := range args {
				for el := range a {
					if el.t.o.kind == kFunc && el.t.o.fn != nil {
						e.callFn(f, site, el.t.o.fn, el.t.o, nil)
					} else {
						e.readOf(f, site, target{o: el.t.o, path: el.t.path + "[]"})
					}
				}
			}
			out := fresh()
			for el := range out { // elements of a clone are those of its source
				for _, a := range args {
					for s := range a {
						for _, sub := range e.subpaths(s.t, "[]") {
							e.store1(memKey{el.t.o, sub}, s.t.o.mem[s.t.path+sub])
						}
					}
				}
			}
			return out
		case "Insert", "Delete", "Replace", "Grow", "Clip", "Compact", "DeleteFunc":
			out := fresh()
			for i, a := range args {
				for el := range a {
					if i == 0 {
						e.readOf(f, site, target{o: el.t.o, path: el.t.path + "[]"})
						if fn.Name() != "Clip" && fn.Name() != "Grow" {
							e.effectOn(f, site, target{o: el.t.o, path: el.t.path + "[]"}, "slices."+fn.Name())
						}
						if el.t.o.kind != kNil {
							out[elem{"", el.t}] = true
						}
					}
				}
			}
			for el := range out {
				for _, a := range args {
					for s := range a {
						for _, sub := range e.subpaths(s.t, "[]") {
							e.store1(memKey{el.t.o, sub}, s.t.o.mem[s.t.path+sub])
						}
					}
				}
			}
			return out
		}
	}
	// unknown: it may write whatever its arguments reach and return any of it
	out := fresh()
	for _, a := range args {
		for el := range a {
			if el.t.o.kind == kFunc || el.t.o.kind == kNil || el.t.o.kind == kOpaque {
				continue
			}
			for o := range e.reachable(val{el: true}, nil) {
				e.effectOn(f, site, target{o: o, path: "[]"}, "call of "+name+", which is not modelled")
			}
			for i := 0; i < res.Len(); i++ {
				sub := ""
				if res.Len() > 1 {
					sub = fmt.Sprintf("#%d", i)
				}
				out[elem{sub, el.t}] = true
			}
		}
	}
	return out
}

func sliceOfConstraint(t types.Type) types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		if u, ok := it.EmbeddedType(i).(*types.Union); ok {
			for j := 0; j < u.Len(); j++ {
				if s, ok := u.Term(j).Type().Underlying().(*types.Slice); ok {
					return s
				}
			}
		}
		if s, ok := it.EmbeddedType(i).Underlying().(*types.Slice); ok {
			return s
		}
	}
	return nil
}

func (e *pta) subpaths(t target, prefix string) []string {
	var out []string
	for path := range t.o.mem {
		if strings.HasPrefix(path, t.path+prefix) {
			out = append(out, path[len(t.path):])
		}
	}
	return out
}

// reachable lists the objects v can reach through memory. stop objects are not entered.
func (e *pta) reachable(v val, stop func(*obj) bool) map[*obj]bool {
	seen := map[*obj]bool{}
	var visit func(o *obj)
	visit = func(o *obj) {
		if o.kind == kNil || o.kind == kOpaque || seen[o] {
			return
		}
		if stop != nil && stop(o) {
			return
		}
		seen[o] = true
		for _, b := range o.binds {
			for el := range b {
				visit(el.t.o)
			}
		}
		for _, m := range o.mem {
			for el := range m {
				visit(el.t.o)
			}
		}
	}
	for el := range v {
		visit(el.t.o)
	}
	return seen
}

// expand materialises everything reachable from the roots, so that sharing with parts that the
// analysed code never loads itself is seen too.
func (e *pta) expand(v val) {
	seen := map[*obj]bool{}
	var visit func(o *obj)
	visit = func(o *obj) {
		if seen[o] || o.kind == kNil || o.kind == kOpaque || o.kind == kFunc || o.typ == nil {
			return
		}
		seen[o] = true
		if o.kind == kRoot {
			if o.elems {
				e.load(target{o: o, path: "[]"}, o.typ)
			} else {
				e.load(target{o: o}, o.typ)
			}
		}
		for _, m := range o.mem {
			for el := range m {
				visit(el.t.o)
			}
		}
	}
	for el := range v {
		visit(el.t.o)
	}
}

// path describes the call path of a frame.
func (e *pta) path(f *frame) string {
	var parts []string
	for ; f != nil; f = f.parent {
		parts = append([]string{shortFn(f.fn)}, parts...)
	}
	return strings.Join(parts, " -> ")
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/rossmerr/graphblas/", "")
	s = strings.ReplaceAll(s, "github.com/rossmerr/graphblas.", "")
	return s
}
