package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// A construction is an exported function that makes a matrix or vector of a format.
type construction struct {
	fn *ssa.Function
	f  *types.Named
}

// constructions are the exported functions returning a pointer to a format.
func (h *host) constructions() (cs []construction) {
	pkgs := map[*ssa.Package]bool{}
	for f := range h.formats {
		pkgs[h.p.SSA.Package(f.Obj().Pkg())] = true
	}
	for pkg := range pkgs {
		for _, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
				continue
			}
			p, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := types.Unalias(p.Elem()).(*types.Named)
			if !ok {
				continue
			}
			if f := h.format(n); h.formats[f] {
				cs = append(cs, construction{body(fn), f})
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].fn.Name() < cs[j].fn.Name() })
	return
}

// constructCase checks what a constructor makes.
func (h *host) constructCase(c construction, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	rows, cols := S(Int, "A.rows"), S(Int, "A.cols")
	st.F.Add(GeL(rows), GeL(cols))
	want := func(i, j *Poly) *Poly { return C(Elem, 0) }
	ps := c.fn.Signature.Params()
	var kinds []string
	for i := 0; i < ps.Len(); i++ {
		k := "?"
		switch t := ps.At(i).Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() == types.Int {
				k = "int"
			}
		case *types.Slice:
			k = "array"
			if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				k = "table"
			}
		}
		kinds = append(kinds, k)
	}
	var args []interp.Val
	elem := func() types.Type {
		t := ps.At(0).Type().Underlying().(*types.Slice).Elem()
		if s, ok := t.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
		return t
	}
	switch strings.Join(kinds, ",") {
	case "int,int":
		args = []interp.Val{interp.Num{P: rows}, interp.Num{P: cols}}
	case "int":
		cols = I(1)
		args = []interp.Val{interp.Num{P: rows}}
	case "array":
		cols = I(1)
		id := in.NewObj(st, &interp.Obj{Kind: interp.Arr, Sort: Elem, Type: elem(), C: one(Select(Elem, "A.val", interp.B0)), Len: rows, Old: true, Name: "array"})
		args = []interp.Val{interp.Slice{Arr: id, Off: I(0), Len: rows, Cap: rows}}
		want = func(i, _ *Poly) *Poly { return Select(Elem, "A.val", i) }
	case "table":
		st.F.Add(GeL(rows.AddC(-1)))
		id := in.NewObj(st, &interp.Obj{Kind: interp.Arr2, Sort: Elem, Type: elem(), C: one(Select(Elem, "A.val", interp.B0, interp.B1)), RowLen: one(cols), Len: rows, Old: true, Name: "table"})
		args = []interp.Val{interp.Slice{Arr: id, Off: I(0), Len: rows, Cap: rows}}
		want = func(i, j *Poly) *Poly { return Select(Elem, "A.val", i, j) }
	default:
		return []string{"parameters " + strings.Join(kinds, ",") + " of no known meaning"}, in
	}
	rets := in.Run(st, c.fn, args, nil)
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		n++
		v := x.Vals[0]
		p, ok := v.(interp.Ptr)
		if !ok {
			why = append(why, fmt.Sprintf("returns %v", v))
			continue
		}
		why = append(why, h.holds(in, x.St, p.Obj, rows, cols, want, func(i, j *Poly) []*Poly { return nil })...)
		if l, _ := h.layoutOf(c.f); l != nil && l.data != "" && x.St.Obj(p.Obj).Kind == interp.Cells {
			if s, ok := x.St.Obj(p.Obj).Cells[l.data].(interp.Slice); ok && s.Arr >= 0 {
				if sh := x.St.Obj(s.Arr).Shared; sh != "" {
					why = append(why, sh)
				}
			}
		}
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return
}

func tryConstruct(h *host, filter string) {
	for _, c := range h.constructions() {
		if !strings.Contains(c.fn.Name(), filter) {
			continue
		}
		t0 := time.Now()
		w, in := h.constructCase(c, debugKernels != "")
		for _, x := range in.Problems {
			fmt.Println("  problem", x.Pos, x.Why)
		}
		fmt.Println(c.fn.Name(), c.f.Obj().Name(), len(w), few(w), time.Since(t0))
	}
}

// resizers are the methods that change the length of a vector.
var resizers = []string{"ReSize"}

// resizeCase checks that a vector of another length keeps its leading elements.
func (h *host) resizeCase(l *layout, name string, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.Debug = debug
	in.NoTwin = func(m string) bool { return m == name }
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	x := S(Int, "x")
	st.F.Add(GeL(x))
	want := func(i, _ *Poly) *Poly { return s.elem(i, I(0)) }
	rets, ok := s.call(in, st, name, interp.Num{P: x})
	if !ok {
		return []string{"the method does not exist"}, in
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, r := range rets {
		if r.St.F.Inconsistent() {
			continue
		}
		n++
		if v, ok := r.Vals[0].(interp.Num); !ok || !r.St.F.EqInt(v.P, x) {
			why = append(why, "the length returned need not be the one requested")
		}
		// the elements both lengths have, and the added ones
		a := r.St.Clone()
		i := S(Int, "i")
		a.F.Add(Lt(i, s.rows))
		if !a.F.Inconsistent() {
			why = append(why, h.holds(in, a, s.id, x, I(1), want, nil)...)
		}
		b := r.St.Clone()
		b.F.Add(Le(s.rows, i))
		if !b.F.Inconsistent() {
			why = append(why, h.holds(in, b, s.id, x, I(1), func(i, j *Poly) *Poly { return C(Elem, 0) }, nil)...)
		}
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return
}

func init() {
	made := "what is made has the dimensions and elements given"
	mask := "an empty mask has the dimensions given and no element"
	register(&Check{ID: "C26", Level: "proof", MinObs: 15,
		Rules: "interpreting every exported function that returns a format on any dimensions, or on any array or rectangular table of at least one row: on every path the result's representation is well formed, has the dimensions, holds zero or the given element at any position, and its rows do not share memory",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			seen := map[*types.Named]bool{}
			for _, c := range h.constructions() {
				c := c
				seen[c.f] = true
				r.Job(made, c.fn.Name(), func(r *Report) {
					why, in := h.constructCase(c, false)
					settle(r, in, made, c.fn.Name(), r.Prog.pos(c.fn.Pos()), why, "dimensions, elements and representation of "+c.f.Obj().Name())
				})
			}
			for _, f := range h.sortedFormats() {
				if !seen[f] {
					r.Undecided(made, f.Obj().Name(), "", "no exported function makes this format")
				}
			}
			h.emptyMasks(r, mask)
		}})
	rule := "resizing keeps the leading elements"
	register(&Check{ID: "C27", Level: "proof", MinObs: 2,
		Rules: storageRule + "on every path the length returned, the length of the vector and the length of its storage are the requested one, the elements at positions both lengths have are the old ones and those at added positions are zero; no path panics for a length that is not negative",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.storageJobs(r, rule, resizers, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.resizeCase(l, name, false)
				settle(r, in, rule, construct, pos, why, "length, kept and added elements")
			})
		}})
}

// emptyMasks checks the exported functions that make a mask, which is no matrix, from dimensions.
func (h *host) emptyMasks(r *Report, rule string) {
	pkgs := map[*ssa.Package]bool{}
	for f := range h.formats {
		pkgs[h.p.SSA.Package(f.Obj().Pkg())] = true
	}
	for pkg := range pkgs {
		for name, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 || fn.Signature.Params().Len() != 2 {
				continue
			}
			p, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := types.Unalias(p.Elem()).(*types.Named)
			if !ok || h.formats[h.format(n)] {
				continue
			}
			if el, _ := h.Method(n, "Element"); el == nil {
				continue
			}
			if at, _ := h.Method(n, "At"); at != nil {
				continue
			}
			in := interp.New(h)
			st := in.NewState()
			rows, cols := S(Int, "A.rows"), S(Int, "A.cols")
			st.F.Add(GeL(rows), GeL(cols))
			x, y := S(Int, "x"), S(Int, "y")
			var why []string
			bad := func(s string) {
				if len(why) == 0 {
					why = append(why, s)
				}
			}
			k := 0
			for _, ret := range in.Run(st, body(fn), []interp.Val{interp.Num{P: rows}, interp.Num{P: cols}}, nil) {
				v := interp.Iface{T: p, V: ret.Vals[0]}
				dim := func(name string, want *Poly) {
					for _, d := range in.Method(ret.St.Clone(), v, name, nil) {
						k++
						if q, ok := d.Vals[0].(interp.Num); !ok || !d.St.F.EqInt(q.P, want) {
							bad("the dimensions need not be those given")
						}
					}
				}
				dim("Rows", rows)
				dim("Columns", cols)
				u := ret.St.Clone()
				u.F.Add(GeL(x), Lt(x, rows), GeL(y), Lt(y, cols))
				for _, d := range in.Method(u, v, "Element", []interp.Val{interp.Num{P: x}, interp.Num{P: y}}) {
					k++
					if q, ok := d.Vals[0].(interp.BoolV); !ok || !d.St.F.Contradicts(q.L) {
						bad("a position may be masked")
					}
				}
			}
			if k < 3 {
				bad("never returns")
			}
			for _, p := range in.Panics {
				if !p.St.F.Inconsistent() {
					bad("panics: " + p.Why)
				}
			}
			settle(r, in, rule, name, r.Prog.pos(fn.Pos()), why, "rows, columns and no element")
		}
	}
}
