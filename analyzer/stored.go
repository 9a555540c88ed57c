package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	. "graphverif/dom"
	"graphverif/interp"
)

// field is a field of a named struct.
type field struct {
	owner *types.Named
	name  string
}

// storageFields are the fields of the sparse formats that hold what is stored.
func (h *host) storageFields() (map[field]string, string) {
	out := map[field]string{}
	for _, f := range h.sortedFormats() {
		if !h.sparse[f] {
			continue
		}
		l, why := h.layoutOf(f)
		if l == nil {
			return nil, "the layout of " + f.Obj().Name() + " is not known: " + why
		}
		for _, path := range []string{l.idx, l.vals, l.starts} {
			if path == "" {
				continue
			}
			found := false
			var walk func(n *types.Named, prefix string)
			walk = func(n *types.Named, prefix string) {
				s, ok := n.Underlying().(*types.Struct)
				if !ok {
					return
				}
				for i := 0; i < s.NumFields(); i++ {
					at := interp.FieldPath(prefix, i)
					if at == path {
						out[field{n.Origin(), s.Field(i).Name()}] = f.Obj().Name()
						found = true
					} else if m, ok := types.Unalias(s.Field(i).Type()).(*types.Named); ok {
						walk(m, at)
					}
				}
			}
			walk(f, "")
			if !found {
				return nil, "a storage field of " + f.Obj().Name() + " is not found"
			}
		}
	}
	return out, ""
}

// bodies are the functions of the repository that have a body, closures included.
func (p *Program) bodies() (fns []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		fn = body(fn)
		if seen[fn] || len(fn.Blocks) == 0 || !p.inScope(fn) {
			return
		}
		seen[fn] = true
		fns = append(fns, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for fn := range ssautil.AllFunctions(p.SSA) {
		add(fn)
	}
	// methods of generic types
	for _, pkg := range p.Pkgs {
		for _, m := range pkg.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := types.Unalias(t.Type()).(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if fn := p.SSA.FuncValue(n.Method(i)); fn != nil {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].Pos() != fns[j].Pos() {
			return fns[i].Pos() < fns[j].Pos()
		}
		return fns[i].String() < fns[j].String()
	})
	return
}

// writesStorage finds what a function does to storage fields other than read them.
func writesStorage(fn *ssa.Function, fields map[field]string, owners map[*types.Named]bool) (what string, at ssa.Instruction, n int) {
	fieldOf := func(v ssa.Value) (field, bool) {
		var x types.Type
		var i int
		switch v := v.(type) {
		case *ssa.FieldAddr:
			x, i = v.X.Type(), v.Field
		case *ssa.Field:
			x, i = v.X.Type(), v.Field
		default:
			return field{}, false
		}
		if p, ok := x.Underlying().(*types.Pointer); ok {
			x = p.Elem()
		}
		n, ok := types.Unalias(x).(*types.Named)
		if !ok {
			return field{}, false
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return field{}, false
		}
		f := field{n.Origin(), s.Field(i).Name()}
		return f, fields[f] != ""
	}
	// the slices that may be a storage field's, and the addresses of such fields
	slices, addrs := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !slices[v] {
				slices[v], changed = true, true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if _, ok := fieldOf(v); ok && !addrs[v] {
						addrs[v], changed = true, true
						n++
					}
				case *ssa.Field:
					if _, ok := fieldOf(v); ok {
						mark(v)
					}
				case *ssa.UnOp:
					if addrs[v.X] {
						mark(v)
					}
				case *ssa.Slice:
					if slices[v.X] {
						mark(v)
					}
				case *ssa.Phi:
					for _, e := range v.Edges {
						if slices[e] {
							mark(v)
						}
					}
				case *ssa.ChangeType:
					if slices[v.X] {
						mark(v)
					}
				case *ssa.Convert:
					if slices[v.X] {
						mark(v)
					}
				}
			}
		}
	}
	found := func(w string, i ssa.Instruction) {
		if what == "" {
			what, at = w, i
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store:
				switch {
				case addrs[v.Addr]:
					found("assigns a storage field", in)
				case addrs[v.Val] || slices[v.Val]:
					found("keeps a reference to a storage field", in)
				default:
					if ix, ok := v.Addr.(*ssa.IndexAddr); ok && slices[ix.X] {
						found("assigns an element of the storage", in)
					}
					if p, ok := v.Addr.Type().Underlying().(*types.Pointer); ok {
						if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && owners[n.Origin()] {
							found("assigns a whole matrix", in)
						}
					}
				}
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.Index, *ssa.DebugRef, *ssa.Range, *ssa.BinOp, *ssa.If:
			case *ssa.IndexAddr:
				if slices[v.X] && v.Referrers() != nil {
					for _, u := range *v.Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if u.Val == v {
								found("keeps the address of a stored element", in)
							}
						default:
							found("passes on the address of a stored element", in)
						}
					}
				}
			case ssa.CallInstruction:
				c := v.Common()
				bi, _ := c.Value.(*ssa.Builtin)
				for i, a := range c.Args {
					if !slices[a] && !addrs[a] {
						continue
					}
					if bi != nil && (bi.Name() == "len" || bi.Name() == "cap" || i > 0 && (bi.Name() == "append" || bi.Name() == "copy")) {
						continue
					}
					found("passes storage to "+calleeName(c), in)
				}
			default:
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && (slices[*op] || addrs[*op]) {
						found(fmt.Sprintf("passes storage on (%T)", in), in)
					}
				}
			}
		}
	}
	return
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	return c.Value.Name()
}

// delegate is the function whose alias the method is, or the method.
func (h *host) delegate(fn *ssa.Function) *ssa.Function {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && h.Alias(nil, g) == fn.Name() {
					return g
				}
			}
		}
	}
	return fn
}

// covered are the functions whose effect on storage other obligations decide.
func (h *host) covered() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range h.sortedFormats() {
		names := append(append(append([]string{"Enumerate", "Map"}, elementStorers...), elementReaders...), extractors...)
		for _, name := range names {
			fn, _ := h.Method(f, name)
			if fn == nil {
				continue
			}
			fn = body(fn)
			out[fn] = true
			out[body(h.delegate(fn))] = true
			if name != "Map" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok {
						t := m.X.Type()
						if p, ok := t.(*types.Pointer); ok {
							t = p.Elem()
						}
						if n, ok := types.Unalias(t).(*types.Named); ok {
							if g, _ := h.Method(n, "Map"); g != nil {
								out[body(g)] = true
							}
						}
					}
				}
			}
		}
	}
	for _, c := range h.constructions() {
		out[body(c.fn)] = true
	}
	z := h.operations()
	for _, c := range z.ks {
		if c.fn != nil {
			out[body(c.fn)] = true
		}
	}
	return out
}

// storageWriters checks that nothing but the functions covered reaches a write to storage.
func (h *host) storageWriters(r *Report, rule string) {
	fields, why := h.storageFields()
	if fields == nil {
		r.Undecided(rule, "storage fields", "", "%s", why)
		return
	}
	owners := map[*types.Named]bool{}
	for f := range fields {
		owners[f.owner] = true
	}
	covered := h.covered()
	fns := h.p.bodies()
	calls := map[*ssa.Function]map[*ssa.Function]bool{} // callee to callers
	byName := map[string][]*ssa.Function{}
	for _, fn := range fns {
		byName[fn.Name()] = append(byName[fn.Name()], fn)
	}
	refer := func(to, from *ssa.Function) {
		to = body(to)
		if calls[to] == nil {
			calls[to] = map[*ssa.Function]bool{}
		}
		calls[to][from] = true
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range byName[c.Common().Method.Name()] {
						if g.Signature.Recv() != nil {
							refer(g, fn)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						refer(g, fn)
					}
					if m, ok := (*op).(*ssa.MakeClosure); ok {
						refer(m.Fn.(*ssa.Function), fn)
					}
				}
			}
		}
		if fn.Parent() != nil {
			refer(fn, body(fn.Parent()))
		}
	}
	for _, fn := range fns {
		what, at, n := writesStorage(fn, fields, owners)
		r.Count("storage_accesses", n)
		if what == "" {
			continue
		}
		r.Count("storage_writers", 1)
		construct := fn.RelString(nil)
		if fn.Pkg != nil {
			construct = fn.RelString(fn.Pkg.Pkg)
		}
		pos := h.p.instrPos(at)
		// up to the covered functions
		seen := map[*ssa.Function]bool{}
		var open []string
		var up func(g *ssa.Function)
		up = func(g *ssa.Function) {
			if seen[g] || covered[g] {
				return
			}
			seen[g] = true
			if g.Parent() == nil && (g.Object() == nil || g.Object().Exported() || g.Name() == "init") {
				open = append(open, g.Name())
				return
			}
			for c := range calls[g] {
				up(c)
			}
		}
		up(fn)
		sort.Strings(open)
		if len(open) > 0 {
			r.Undecided(rule, construct, pos, "%s and is reached from %s, for which nothing shows what is stored", what, strings.Join(open, ", "))
			continue
		}
		r.OK(rule, construct, pos, "%s; reached only through functions whose effect is decided", what)
	}
}

// operations are the operations that make a matrix.
func (h *host) operations() *kernelSet {
	z := &kernelSet{h: h}
	z.elementMethods()
	z.productMethods()
	z.transposeMethods()
	z.transposes()
	return z
}

func init() {
	stores := "no zero is stored"
	counts := "the number of values is the number stored"
	handed := "what is handed on is well formed"
	writers := "nothing else writes what is stored"
	zero := func(w string) bool {
		return w == zeroStored || w == "the number of values need not be the number of indices" || w == "never returns"
	}
	register(&Check{ID: "C15", Level: "proof", MinObs: 135,
		Rules: storageRule + "after every method that stores, every step of a Map, every extraction and copy and every construction no stored value is zero and there are as many values as indices; Values returns their number; every other function that writes, hands on or keeps the storage of a sparse format (dataflow of the storage fields, over all functions of the repository) is reached only through those",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.storageJobs(r, stores, elementStorers, true, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.storeCase(l, name, false)
				why, _ = split(why, zero)
				settle(r, in, stores, construct, pos, why, "no stored value is zero")
			})
			h.iteratorJobs(r, stores, []string{"Map"}, true, zero, "no stored value is zero after a step")
			h.storageJobs(r, stores, extractors, true, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.extractCase(l, name, false)
				why, _ = split(why, zero)
				settle(r, in, stores, construct, pos, why, "no stored value is zero")
			})
			for _, c := range h.constructions() {
				if !h.sparse[c.f] {
					continue
				}
				c := c
				r.Job(stores, c.fn.Name(), func(r *Report) {
					why, in := h.constructCase(c, false)
					why, _ = split(why, zero)
					settle(r, in, stores, c.fn.Name(), r.Prog.pos(c.fn.Pos()), why, "no stored value is zero")
				})
			}
			h.storageJobs(r, counts, []string{"Values"}, true, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.accessCase(l, name, func(s *stored) *Poly { return s.n })
				settle(r, in, counts, construct, pos, why, "the number of stored values on every return")
			})
			h.operations().jobs(r, func(c kcase) bool { return !c.masked }, func(r *Report, c kcase, pos string, res *kresult) {
				r.OK(handed, c.name, pos, "whatever it builds itself is well formed before any other code sees it")
			})
			h.storageWriters(r, writers)
		}})
}
