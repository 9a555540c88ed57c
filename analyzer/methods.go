package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// fields of a struct by path, embedded ones included.
func structFields(t types.Type, path string, f func(path string, t types.Type)) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		f(path, t)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		structFields(s.Field(i).Type(), interp.FieldPath(path, i), f)
	}
}

// dimFields tells which integer fields of the format hold the number of rows and of columns, as its
// Rows and Columns methods report them.
func (h *host) dimFields(n *types.Named) map[string]string {
	if d, ok := h.dims[n]; ok {
		return d
	}
	d := map[string]string{}
	if h.dims == nil {
		h.dims = map[*types.Named]map[string]string{}
	}
	h.dims[n] = d
	in := interp.New(h)
	st := in.NewState()
	cells := map[string]interp.Val{}
	syms := map[*Poly]string{}
	structFields(n, "", func(path string, t types.Type) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			s := S(Int, "field"+path)
			syms[s] = path
			cells[path] = interp.Num{P: s}
		} else {
			cells[path] = interp.Unknown{Why: "field " + path}
		}
	})
	id := in.NewObj(st, &interp.Obj{Kind: interp.Cells, Type: n, Cells: cells})
	in.Inline[id] = true
	for _, m := range []string{"Rows", "Columns"} {
		fn, path := h.Method(n, m)
		if fn == nil {
			continue
		}
		p := interp.Ptr{Obj: id}
		for _, f := range path {
			p.Path = interp.FieldPath(p.Path, f)
		}
		rs := in.Run(st.Clone(), fn, []interp.Val{p}, nil)
		if len(rs) != 1 || len(rs[0].Vals) != 1 {
			continue
		}
		if v, ok := rs[0].Vals[0].(interp.Num); ok {
			if f, ok := syms[v.P]; ok {
				d[m] = f
			}
		}
	}
	return d
}

// rep gives an abstract matrix the fields that hold its dimensions.
func (h *host) rep(in *interp.Interp, st *interp.State, id int) bool {
	o := st.Obj(id)
	d := h.dimFields(o.Fmt)
	cells := map[string]interp.Val{}
	structFields(o.Fmt, "", func(path string, t types.Type) {
		switch path {
		case d["Rows"]:
			cells[path] = interp.Num{P: o.Rows}
		case d["Columns"]:
			cells[path] = interp.Num{P: o.Cols}
		default:
			cells[path] = interp.Unknown{Why: "field " + path + " of an operand"}
		}
	})
	in.SetCells(st, id, cells)
	return true
}

// sortedFormats are the storage formats by name.
func (h *host) sortedFormats() []*types.Named {
	var l []*types.Named
	for f := range h.formats {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Obj().Name() < l[j].Obj().Name() })
	return l
}

func (h *host) isVec(f *types.Named) bool {
	fn, _ := h.Method(f, "AtVec")
	return fn != nil
}

// receiver is a matrix of the format with any dimensions and elements.
func (h *host) receiver(in *interp.Interp, st *interp.State, base string, f *types.Named) int {
	id := in.NewMat(st, base, h.sparse[f], h.isVec(f))
	st.Obj(id).Fmt = f
	st.Obj(id).Type = f
	in.Rep = h.rep
	return id
}

// bound is the function and receiver of a method of the format.
func (h *host) bound(f *types.Named, name string, id int) (*ssa.Function, interp.Ptr) {
	fn, path := h.Method(f, name)
	p := interp.Ptr{Obj: id}
	for _, i := range path {
		p.Path = interp.FieldPath(p.Path, i)
	}
	return fn, p
}

// method makes the cases of a method that returns a matrix: for every format, and for a binary one
// every kind of operand.
func (z *kernelSet) method(name string, kind string, shape func(s, m *interp.Obj) []Lit, f func(s, m *interp.Obj) (rows, cols *Poly, c *interp.Content)) {
	h := z.h
	for _, t := range h.sortedFormats() {
		fn, _ := h.Method(t, name)
		if fn == nil {
			continue
		}
		type other struct{ sparse, vec, self bool }
		others := []other{{}}
		if kind == "binary" {
			others = []other{{}, {sparse: true}, {self: true}}
			if h.isVec(t) {
				others = append(others, other{vec: true}, other{sparse: true, vec: true})
			}
		}
		for _, ot := range others {
			cname := fmt.Sprintf("%s.%s", t.Obj().Name(), name)
			if kind == "binary" {
				what := operand{sparse: ot.sparse}.String()
				if ot.vec {
					what += " vector"
				}
				if ot.self {
					what = "itself"
				}
				cname += "(" + what + ")"
			}
			build := func(laidOut bool) *kernel {
				in, st := z.begin()
				k := &kernel{in: in, st: st}
				var s int
				var so *interp.Obj
				if laidOut {
					l, why := h.layoutOf(t)
					if l == nil {
						panic(why)
					}
					x := h.newStored(in, st, l, "S", true)
					s, so = x.id, x.mat
					k.stored = x
				} else {
					s = h.receiver(in, st, "S", t)
					so = st.Obj(s)
				}
				_, p := h.bound(t, name, s)
				k.args = []interp.Val{p}
				mo := so
				switch kind {
				case "binary":
					if ot.self {
						k.args = append(k.args, interp.Iface{T: types.NewPointer(t), V: interp.Ptr{Obj: s}})
					} else {
						m := in.NewMat(st, "M", ot.sparse, ot.vec)
						mo = st.Obj(m)
						k.args = append(k.args, interp.Ptr{Obj: m})
					}
				case "scalar":
					k.args = append(k.args, interp.Num{P: alpha})
				}
				if shape != nil {
					k.shape = shape(so, mo)
				}
				rows, cols, c := f(so, mo)
				k.want = func(k *kernel, r interp.Return) (int, *Poly, *Poly, *interp.Content, []Clause, string) {
					id, ok := in.MatrixOf(r.St, r.Vals[0])
					if !ok {
						return 0, nil, nil, nil, nil, fmt.Sprintf("returns %v", r.Vals[0])
					}
					if id == s {
						return 0, nil, nil, nil, nil, "returns the receiver itself"
					}
					return id, rows, cols, c, nil, ""
				}
				return k
			}
			z.add(fn, false, cname, func() *kernel { return build(false) })
			if l, _ := h.layoutOf(t); l != nil {
				z.ks[len(z.ks)-1].stored = func() *kernel {
					k := build(true)
					k.name, k.fn = cname, fn
					return k
				}
			}
		}
	}
}

func sameShape(s, m *interp.Obj) []Lit {
	return []Lit{Same(s.Rows, m.Rows), Same(s.Cols, m.Cols)}
}

// elementMethods makes the cases of the element-wise methods of the formats.
func (z *kernelSet) elementMethods() {
	z.method("Add", "binary", sameShape, func(s, m *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, s.Cols, one(s.C.Base.Add(m.C.Base))
	})
	z.method("Subtract", "binary", sameShape, func(s, m *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, s.Cols, one(s.C.Base.Sub(m.C.Base))
	})
	z.method("Negative", "", nil, func(s, _ *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, s.Cols, one(s.C.Base.Neg())
	})
	z.method("Scalar", "scalar", nil, func(s, _ *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, s.Cols, one(alpha.Mul(s.C.Base))
	})
}

func (z *kernelSet) productMethods() {
	z.method("Multiply", "binary", func(s, m *interp.Obj) []Lit { return []Lit{Same(s.Cols, m.Rows)} }, func(s, m *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, m.Cols, interp.Product(s.C, m.C, s.Cols)
	})
}

func (z *kernelSet) transposeMethods() {
	z.method("Transpose", "", nil, func(s, _ *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Cols, s.Rows, s.C.Subst(Subst{B0a: B1, B1a: B0})
	})
}
