package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// layout says which fields of a storage format hold what. It is read off the object its constructor
// makes: the window starts are the integer slice one longer than a dimension, the minor indices the
// other integer slice.
type layout struct {
	f          *types.Named
	rows, cols string // paths; "" when the dimension is constant
	starts     string
	idx        string
	vals       string
	data       string // rows of a dense matrix
	major      int    // 0: windows are rows, 1: columns, -1: one window or none
	vec        bool
}

// layoutOf finds the layout of the format.
func (h *host) layoutOf(f *types.Named) (*layout, string) {
	if l, ok := h.layouts[f]; ok {
		return l, ""
	}
	l := &layout{f: f, major: -1, vec: h.isVec(f)}
	ctor := h.constructor(f)
	if ctor == nil {
		return nil, "it has no exported constructor that takes dimensions only"
	}
	d := h.dimFields(f)
	l.rows, l.cols = d["Rows"], d["Columns"]
	if l.rows == "" || l.cols == "" && !l.vec {
		return nil, "no field holds its dimensions"
	}
	in := interp.New(h)
	st := in.NewState()
	r, c := S(Int, "r"), S(Int, "c")
	st.F.Add(GeL(r), GeL(c))
	args := []interp.Val{interp.Num{P: r}}
	if ctor.Signature.Params().Len() > 1 {
		args = append(args, interp.Num{P: c})
	}
	for _, x := range in.Run(st, ctor, args, nil) {
		if x.St.F.Inconsistent() || len(x.Vals) == 0 {
			continue
		}
		p, ok := x.Vals[0].(interp.Ptr)
		if !ok {
			return nil, "its constructor does not return a new object"
		}
		why := ""
		structFields(f, "", func(path string, t types.Type) {
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return
			}
			set := func(where *string) {
				if *where != "" && *where != path {
					why = "two of its fields could hold the same"
				}
				*where = path
			}
			elem := sl.Elem()
			if _, ok := elem.Underlying().(*types.Slice); ok {
				set(&l.data)
				return
			}
			if interp.SortOf(elem) != Int {
				set(&l.vals)
				return
			}
			v, _ := x.St.Obj(p.Obj).Cells[path].(interp.Slice)
			if v.Len == nil {
				why = "the length of " + path + " is not known"
				return
			}
			switch {
			case x.St.F.EqInt(v.Len, r.AddC(1)) && !l.vec:
				l.major = 0
				set(&l.starts)
			case x.St.F.EqInt(v.Len, c.AddC(1)) && !l.vec:
				l.major = 1
				set(&l.starts)
			default:
				set(&l.idx)
			}
		})
		if why != "" {
			return nil, why
		}
	}
	if h.sparse[f] && (l.idx == "" || l.vals == "" || (l.starts == "") != l.vec) || !h.sparse[f] && l.data == "" && l.vals == "" {
		return nil, "its fields do not make up a known storage scheme"
	}
	if h.layouts == nil {
		h.layouts = map[*types.Named]*layout{}
	}
	h.layouts[f] = l
	return l, ""
}

// constructor is the exported function that makes a format from its dimensions.
func (h *host) constructor(f *types.Named) *ssa.Function {
	pkg := h.p.SSA.Package(f.Obj().Pkg())
	var names []string
	for name := range pkg.Members {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		fn, ok := pkg.Members[name].(*ssa.Function)
		if !ok || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		p, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		if !ok || n.Origin() != f.Origin() {
			continue
		}
		ints := fn.Signature.Params().Len() > 0
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ints = ints && types.Identical(fn.Signature.Params().At(i).Type(), types.Typ[types.Int])
		}
		if ints {
			return body(fn)
		}
	}
	return nil
}

// stored is a well-formed matrix of a format with any dimensions and any elements.
type stored struct {
	l          *layout
	h          *host
	id         int
	mat        *interp.Obj // its abstract twin
	rows, cols *Poly
	n          *Poly // number of stored elements
	base       string
}

func (s *stored) at(x *Poly) *Poly  { return Select(Int, s.base+".idx", x) }
func (s *stored) val(x *Poly) *Poly { return Select(Elem, s.base+".val", x) }
func (s *stored) st(x *Poly) *Poly  { return Select(Int, s.base+".start", x) }

// dims are the major and the minor dimension.
func (s *stored) dims() (major, minor *Poly) {
	if s.l.major == 1 {
		return s.cols, s.rows
	}
	return s.rows, s.cols
}

// newStored adds a matrix of the format whose contents are named after the base. Two with the same base
// have the same contents in different memory.
func (h *host) newStored(in *interp.Interp, st *interp.State, l *layout, base string, old bool) *stored {
	s := &stored{l: l, h: h, base: base, rows: S(Int, base+".rows"), cols: S(Int, base+".cols")}
	if l.vec {
		s.cols = I(1)
	}
	st.F.Add(GeL(s.rows), GeL(s.cols))
	cells := map[string]interp.Val{}
	sparse := Lit{Op: No}
	if h.sparse[l.f] {
		sparse = Lit{Op: Yes}
	}
	arr := func(sort Sort, what string, n *Poly, t types.Type) interp.Slice {
		id := in.NewObj(st, &interp.Obj{Kind: interp.Arr, Sort: sort, Type: t, C: one(Select(sort, base+"."+what, B0)), Len: n, Old: old, Name: what})
		return interp.Slice{Arr: id, Off: I(0), Len: n, Cap: n}
	}
	// a slice whose array may be longer
	long := func(sort Sort, what string, n *Poly, t types.Type) interp.Slice {
		c := S(Int, base+"."+what+".cap")
		st.F.Add(Le(n, c))
		id := in.NewObj(st, &interp.Obj{Kind: interp.Arr, Sort: sort, Type: t, C: one(Select(sort, base+"."+what, B0)), Len: c, Old: old, Name: what})
		return interp.Slice{Arr: id, Off: I(0), Len: n, Cap: c}
	}
	structFields(l.f, "", func(path string, t types.Type) {
		switch path {
		case l.rows:
			cells[path] = interp.Num{P: s.rows}
		case l.cols:
			cells[path] = interp.Num{P: s.cols}
		default:
			cells[path] = interp.Unknown{Why: "field " + path + " of " + l.f.Obj().Name()}
		}
	})
	elemOf := func(path string) types.Type {
		var e types.Type
		structFields(l.f, "", func(p string, t types.Type) {
			if p == path {
				e = t.Underlying().(*types.Slice).Elem()
			}
		})
		return e
	}
	f := st.F
	switch {
	case h.sparse[l.f]:
		s.n = S(Int, base+".n")
		f.Add(GeL(s.n))
		cells[l.idx] = long(Int, "idx", s.n, types.Typ[types.Int])
		cells[l.vals] = long(Elem, "val", s.n, elemOf(l.vals))
		major, minor := s.dims()
		if l.starts != "" {
			cells[l.starts] = arr(Int, "start", major.AddC(1), types.Typ[types.Int])
			f.Add(EqL(s.st(I(0))), Same(s.st(major), s.n))
		} else {
			minor = s.rows
		}
		for _, q := range s.wellFormed(major, minor) {
			f.AddQuant(q)
		}
		for _, q := range s.abstraction() {
			f.AddQuant(q)
		}
	case l.data != "":
		s.n = s.rows.Mul(s.cols)
		id := in.NewObj(st, &interp.Obj{Kind: interp.Arr2, Sort: Elem, Type: elemOf(l.data), C: one(Select(Elem, base+".val", B0, B1)), RowLen: one(s.cols), Len: s.rows, Old: old, Name: "data"})
		cells[l.data] = interp.Slice{Arr: id, Off: I(0), Len: s.rows, Cap: s.rows}
	default:
		s.n = s.rows
		cells[l.vals] = long(Elem, "val", s.rows, elemOf(l.vals))
	}
	s.id = in.NewObj(st, &interp.Obj{Kind: interp.Cells, Type: l.f, Cells: cells, Old: old, Name: base})
	mat := in.NewObj(st, &interp.Obj{Kind: interp.Mat, Name: base, Type: l.f, Fmt: l.f, Sort: Elem, C: one(s.elem(B0, B1)), Rows: s.rows, Cols: s.cols, Sparse: sparse, Vec: l.vec, Old: old})
	in.SetTwin(st, s.id, mat)
	s.mat = st.Obj(mat)
	return s
}

// wellFormed is what holds of every stored matrix of the format, as quantified facts.
func (s *stored) wellFormed(major, minor *Poly) []*Quant {
	i, k, p, q := SA(Int, "wf.i"), SA(Int, "wf.k"), SA(Int, "wf.p"), SA(Int, "wf.q")
	I_, K, Pp, Q := P(i), P(k), P(p), P(q)
	sel := func(x *Poly) *Atom { return x.AsAtom() }
	qs := []*Quant{
		{Vars: []*Atom{p}, Trig: []*Atom{sel(s.at(Pp))}, Guard: []Lit{GeL(Pp), Lt(Pp, s.n)}, Body: Clause{{GeL(s.at(Pp)), Lt(s.at(Pp), minor)}}, New: true},
		{Vars: []*Atom{p}, Trig: []*Atom{sel(s.val(Pp))}, Guard: []Lit{GeL(Pp), Lt(Pp, s.n)}, Body: Clause{{ENeL(s.val(Pp))}}, New: true},
	}
	if s.l.starts == "" {
		return append(qs, &Quant{Vars: []*Atom{p, q}, Trig: []*Atom{sel(s.at(Pp)), sel(s.at(Q))}, Guard: []Lit{GeL(Pp), Lt(Pp, Q), Lt(Q, s.n)}, Body: Clause{{Lt(s.at(Pp), s.at(Q))}}, New: true})
	}
	return append(qs,
		&Quant{Vars: []*Atom{i}, Trig: []*Atom{sel(s.st(I_))}, Guard: []Lit{GeL(I_), Le(I_, major)}, Body: Clause{{GeL(s.st(I_)), Le(s.st(I_), s.n)}}, New: true},
		&Quant{Vars: []*Atom{i, k}, Trig: []*Atom{sel(s.st(I_)), sel(s.st(K))}, Guard: []Lit{GeL(I_), Lt(I_, K), Le(K, major)}, Body: Clause{{Le(s.st(I_), s.st(K))}}, New: true},
		&Quant{Vars: []*Atom{i, p, q}, Trig: []*Atom{sel(s.st(I_)), sel(s.at(Pp)), sel(s.at(Q))}, Guard: []Lit{GeL(I_), Lt(I_, major), Le(s.st(I_), Pp), Lt(Pp, Q), Lt(Q, s.st(I_.AddC(1)))},
			Body: Clause{{Lt(s.at(Pp), s.at(Q))}}, New: true})
}

// abstraction says which element of the matrix an entry holds, and that other elements are zero.
func (s *stored) abstraction() []*Quant {
	i, j, p := SA(Int, "wf.i"), SA(Int, "wf.j"), SA(Int, "wf.p")
	I_, J, Pp := P(i), P(j), P(p)
	mj, mn := I_, J
	vars := []*Atom{i, j}
	at := s.elem(I_, J)
	if s.l.major == 1 {
		mj, mn = J, I_
	}
	lo, hi := s.st(mj), s.st(mj.AddC(1))
	sk := Apply(Int, s.base+".entry", I_, J)
	if s.l.vec {
		vars = []*Atom{i}
		lo, hi, mn = I(0), s.n, I_
		sk = Apply(Int, s.base+".entry", I_)
	}
	return []*Quant{
		{Vars: append(vars[:len(vars):len(vars)], p), Trig: []*Atom{at.AsAtom(), s.at(Pp).AsAtom()}, Guard: []Lit{Le(lo, Pp), Lt(Pp, hi), Same(s.at(Pp), mn)}, Body: Clause{{EEqL(at.Sub(s.val(Pp)))}}, New: true},
		{Vars: vars, Trig: []*Atom{at.AsAtom()}, Guard: []Lit{ENeL(at)}, Body: Clause{{Le(lo, sk), Lt(sk, hi), Same(s.at(sk), mn)}}, New: true},
	}
}

// call interprets a method of the stored matrix.
func (s *stored) call(in *interp.Interp, st *interp.State, name string, args ...interp.Val) ([]interp.Return, bool) {
	fn, p := s.h.bound(s.l.f, name, s.id)
	if fn == nil {
		return nil, false
	}
	return in.Run(st, fn, append([]interp.Val{p}, args...), nil), true
}

// access reads an element of a slice field.
type access struct {
	path string
	at   []*Poly
}

// reads evaluates slice elements, partitioning by what applies.
func (s *stored) reads(in *interp.Interp, st *interp.State, as []access, k func(st *interp.State, v []*Poly)) {
	var rec func(st *interp.State, i int, v []*Poly)
	rec = func(st *interp.State, i int, v []*Poly) {
		if i == len(as) {
			k(st, v)
			return
		}
		sl := s.slice(st, as[i].path)
		in.Read(st, in.SliceContent(st, sl), as[i].at, func(t *interp.State, x *Poly) { rec(t, i+1, append(v[:len(v):len(v)], x)) })
	}
	rec(st, 0, nil)
}

func (s *stored) slice(st *interp.State, path string) interp.Slice {
	v, _ := st.Obj(s.id).Cells[path].(interp.Slice)
	return v
}

func (s *stored) num(st *interp.State, path string) *Poly {
	v, _ := st.Obj(s.id).Cells[path].(interp.Num)
	return v.P
}

// formed checks that the object is still well formed, and returns why not.
func (s *stored) formed(in *interp.Interp, st *interp.State) (why []string) {
	o := st.Obj(s.id)
	if o.Kind == interp.Mat { // the contract of another method says so
		if !st.F.EqInt(o.Rows, s.rows) || !st.F.EqInt(o.Cols, s.cols) {
			return []string{"the dimensions change"}
		}
		return nil
	}
	l := s.l
	bad := func(format string, a ...any) { why = append(why, fmt.Sprintf(format, a...)) }
	if p := s.num(st, l.rows); p == nil || !st.F.EqInt(p, s.rows) {
		bad("the number of rows changes")
	}
	if l.cols != "" {
		if p := s.num(st, l.cols); p == nil || !st.F.EqInt(p, s.cols) {
			bad("the number of columns changes")
		}
	}
	length := func(path, what string, want *Poly) {
		if x := s.slice(st, path); x.Len == nil || !st.F.EqInt(x.Len, want) {
			bad("the length of the %s need not be right", what)
		}
	}
	if !s.h.sparse[l.f] {
		if l.data != "" {
			length(l.data, "rows", s.rows)
			i := S(Int, "wfc.i")
			t := st.Clone()
			t.F.Add(GeL(i), Lt(i, s.rows))
			if x := s.slice(t, l.data); x.Len != nil {
				in.Read(t, t.Obj(x.Arr).RowLen, []*Poly{i}, func(u *interp.State, n *Poly) {
					if !u.F.EqInt(n, s.cols) {
						bad("the length of a row need not be the number of columns")
					}
				})
			}
		} else {
			length(l.vals, "values", s.rows)
		}
		return
	}
	idx, vals := s.slice(st, l.idx), s.slice(st, l.vals)
	if idx.Len == nil || vals.Len == nil || !st.F.EqInt(idx.Len, vals.Len) {
		bad("the number of values need not be the number of indices")
		return
	}
	n := vals.Len
	major, minor := s.dims()
	i, p := S(Int, "wfc.i"), S(Int, "wfc.p")
	ask := func(assume []Lit, as []access, what string, goal func(u *interp.State, v []*Poly) bool) {
		t := st.Clone()
		t.F.Add(assume...)
		if t.F.Inconsistent() {
			return
		}
		ok := true
		s.reads(in, t, as, func(u *interp.State, v []*Poly) {
			if !ok || u.F.Inconsistent() || goal(u, v) {
				return
			}
			ok = false
			if in.Debug {
				fmt.Printf("  %s: %v under %v\n", what, v, u.F.Lits)
			}
		})
		if !ok {
			bad("%s", what)
		}
	}
	if l.starts != "" {
		length(l.starts, "window starts", major.AddC(1))
		ask(nil, []access{{l.starts, []*Poly{I(0)}}, {l.starts, []*Poly{major}}}, "the first window need not start at 0 or the last not end at the number of values", func(u *interp.State, v []*Poly) bool {
			return u.F.EqInt(v[0], I(0)) && u.F.EqInt(v[1], n)
		})
		ask([]Lit{GeL(i), Lt(i, major)}, []access{{l.starts, []*Poly{i}}, {l.starts, []*Poly{i.AddC(1)}}}, "a window may end before it starts", func(u *interp.State, v []*Poly) bool {
			return u.F.Entails(Le(v[0], v[1]))
		})
	} else {
		minor = s.rows
	}
	ask([]Lit{GeL(p), Lt(p, n)}, []access{{l.idx, []*Poly{p}}}, "an index may be out of range", func(u *interp.State, v []*Poly) bool {
		return u.F.EntailsAll([]Lit{GeL(v[0]), Lt(v[0], minor)})
	})
	ask([]Lit{GeL(p), Lt(p, n)}, []access{{l.vals, []*Poly{p}}}, zeroStored, func(u *interp.State, v []*Poly) bool {
		return u.F.Entails(ENeL(v[0]))
	})
	pq := []access{{l.idx, []*Poly{p}}, {l.idx, []*Poly{p.AddC(1)}}}
	what := "the indices of a window need not increase"
	if l.starts == "" {
		ask([]Lit{GeL(p), Lt(p.AddC(1), n)}, pq, what, func(u *interp.State, v []*Poly) bool { return u.F.Entails(Lt(v[0], v[1])) })
		return
	}
	t := st.Clone()
	t.F.Add(GeL(i), Lt(i, major))
	ok := true
	s.reads(in, t, []access{{l.starts, []*Poly{i}}, {l.starts, []*Poly{i.AddC(1)}}}, func(u *interp.State, w []*Poly) {
		u.F.Add(Le(w[0], p), Lt(p.AddC(1), w[1]))
		if !ok || u.F.Inconsistent() {
			return
		}
		s.reads(in, u, pq, func(u *interp.State, v []*Poly) {
			if !ok || u.F.Inconsistent() || u.F.Entails(Lt(v[0], v[1])) {
				return
			}
			ok = false
			if in.Debug {
				fmt.Printf("  %s: %v under %v\n", what, v, u.F.Lits)
			}
		})
	})
	if !ok {
		bad("%s", what)
	}
	return
}

// IllFormed says what is wrong with the representation of a matrix.
func (h *host) IllFormed(in *interp.Interp, st *interp.State, id int, n *types.Named, rows, cols *Poly) string {
	l, why := h.layoutOf(h.format(n))
	if l == nil {
		return "the layout of its format is not known: " + why
	}
	s := &stored{l: l, h: h, id: id, rows: rows, cols: cols, base: "result"}
	return few(s.formed(in, st))
}

// elem is the element of the matrix at a position.
func (s *stored) elem(i, j *Poly) *Poly {
	if s.l.vec {
		j = I(0)
	}
	switch {
	case s.h.sparse[s.l.f]:
		return Select(Elem, s.base+".at", i, j)
	case s.l.data != "":
		return Select(Elem, s.base+".val", i, j)
	}
	return s.val(i)
}

// window is the range of entries of a major index, after the method.
func (s *stored) window(in *interp.Interp, st *interp.State, major *Poly, k func(st *interp.State, lo, hi *Poly)) {
	if s.l.starts == "" {
		k(st, I(0), s.slice(st, s.l.vals).Len)
		return
	}
	s.reads(in, st, []access{{s.l.starts, []*Poly{major}}, {s.l.starts, []*Poly{major.AddC(1)}}}, func(u *interp.State, v []*Poly) { k(u, v[0], v[1]) })
}

// candidates are the entries a content or a path treats specially.
func (s *stored) candidates(st *interp.State) (out []*Poly) {
	seen := map[*Poly]bool{}
	add := func(p *Poly) {
		if !seen[p] && !p.Has(B0a) && len(out) < 40 {
			seen[p] = true
			out = append(out, p)
		}
	}
	for _, path := range []string{s.l.idx, s.l.vals} {
		sl := s.slice(st, path)
		if sl.Off == nil {
			continue
		}
		for _, l := range in_(st, sl).Layers {
			for _, g := range l.Guard {
				if g.P == nil || g.P.Sort != Int {
					continue
				}
				if c, elsewhere := g.P.Coef(B0a); !elsewhere && (c == 1 || c == -1) {
					add(g.P.Sub(B0.Scale(c)).Scale(-c))
				}
			}
		}
	}
	for _, l := range st.F.Lits {
		for _, a := range l.Atoms() {
			if a.Kind == Sel && (a.Name == s.base+".idx" || a.Name == s.base+".val") {
				add(a.Args[0])
			}
		}
	}
	for _, p := range out {
		add(p.AddC(1))
	}
	return
}

func in_(st *interp.State, sl interp.Slice) *interp.Content {
	return st.Obj(sl.Arr).C.Subst(Subst{B0a: B0.Add(sl.Off)})
}

// has reports whether the window of the major index has an entry with the minor index, one of the
// candidates.
func (s *stored) has(in *interp.Interp, st *interp.State, major, minor *Poly, cands []*Poly) bool {
	ok := true
	s.window(in, st, major, func(t *interp.State, lo, hi *Poly) {
		var try func(u *interp.State, cs []*Poly)
		try = func(u *interp.State, cs []*Poly) {
			if !ok || u.F.Inconsistent() {
				return
			}
			if len(cs) == 0 {
				ok = false
				if in.Debug {
					fmt.Printf("  no entry for %s,%s under %v\n", major, minor, u.F.Lits)
				}
				return
			}
			p := cs[0]
			inside := []Lit{Le(lo, p), Lt(p, hi)}
			if u.F.Contradicts(inside...) {
				try(u, cs[1:])
				return
			}
			s.reads(in, u, []access{{s.l.idx, []*Poly{p}}}, func(w *interp.State, v []*Poly) {
				w = w.Clone()
				w.F.AddClause(Clause{{inside[0].Not()}, {inside[1].Not()}, {Same(v[0], minor).Not()}})
				try(w, cs[1:])
			})
		}
		try(t.Clone(), cands)
	})
	return ok
}

// changed checks that the stored matrix has the element want at (r,c) and its old elements elsewhere.
func (s *stored) changed(in *interp.Interp, st *interp.State, r, c, want *Poly) (why []string) {
	here, other := "the element stored need not be the one read back", "another element may change"
	i, j, p := S(Int, "i"), S(Int, "j"), S(Int, "p")
	if s.l.vec {
		j = I(0)
	}
	o := st.Obj(s.id)
	if o.Kind == interp.Mat || !s.h.sparse[s.l.f] {
		for _, where := range [][]Lit{{Same(i, r), Same(j, c)}, {NeL(i.Sub(r))}, {Same(i, r), NeL(j.Sub(c))}} {
			t := st.Clone()
			t.F.Add(GeL(i), Lt(i, s.rows), GeL(j), Lt(j, s.cols)).Add(where...)
			if t.F.Inconsistent() {
				continue
			}
			path, at := s.l.vals, []*Poly{i}
			cont := o.C
			if s.l.data != "" {
				path = s.l.data
			}
			if o.Kind == interp.Mat {
				at = append(at, j)
			} else {
				cont = in_(t, s.slice(t, path))
				if s.l.data != "" {
					at = append(at, j)
				}
			}
			in.Read(t, cont, at, func(u *interp.State, v *Poly) {
				is := u.F.Entails(Same(i, r)) && u.F.Entails(Same(j, c))
				switch {
				case u.F.Inconsistent():
				case is && !u.F.EqElem(v, want):
					why = append(why, here)
				case !is && !u.F.EqElem(v, s.elem(i, j)):
					why = append(why, other)
				}
			})
		}
		return
	}
	mj, mn := i, j // the major and minor index of (i,j)
	mr, mc := r, c
	if s.l.major == 1 {
		mj, mn, mr, mc = j, i, c, r
	}
	major, _ := s.dims()
	if s.l.vec {
		mj, mn, mr, mc = I(0), i, I(0), r
		major = I(1)
	}
	elem := func(mj, mn *Poly) *Poly {
		if s.l.vec {
			return s.elem(mn, I(0))
		}
		if s.l.major == 1 {
			return s.elem(mn, mj)
		}
		return s.elem(mj, mn)
	}
	// every entry is that of the element at its position
	t := st.Clone()
	t.F.Add(GeL(mj), Lt(mj, major))
	s.window(in, t, mj, func(u *interp.State, lo, hi *Poly) {
		u.F.Add(Le(lo, p), Lt(p, hi))
		if u.F.Inconsistent() {
			return
		}
		s.reads(in, u, []access{{s.l.idx, []*Poly{p}}, {s.l.vals, []*Poly{p}}}, func(u *interp.State, v []*Poly) {
			in.Decide(u, Same(mj, mr), func(u *interp.State) {
				in.Decide(u, Same(v[0], mc), func(u *interp.State) {
					if !u.F.Inconsistent() && !u.F.EqElem(v[1], want) {
						if in.Debug {
							fmt.Printf("  entry %s is not %s under %v\n", v[1], want, u.F.Lits)
						}
						why = append(why, here)
					}
				}, func(u *interp.State) {
					if !u.F.Inconsistent() && !u.F.EqElem(v[1], elem(mr, v[0])) {
						if in.Debug {
							fmt.Printf("  entry %s is not %s under %v\n", v[1], elem(mr, v[0]), u.F.Lits)
						}
						why = append(why, other)
					}
				})
			}, func(u *interp.State) {
				if !u.F.Inconsistent() && !u.F.EqElem(v[1], elem(mj, v[0])) {
					if in.Debug {
						fmt.Printf("  entry %s is not %s under %v\n", v[1], elem(mj, v[0]), u.F.Lits)
					}
					why = append(why, other)
				}
			})
		})
	})
	// every other entry is still there
	q := S(Int, "q")
	olo, ohi := I(0), s.n
	if s.l.starts != "" {
		olo, ohi = s.st(mj), s.st(mj.AddC(1))
	}
	for _, d := range []Lit{Lt(mj, mr), Lt(mr, mj), Same(mj, mr)} {
		t := st.Clone()
		t.F.Add(GeL(mj), Lt(mj, major), Le(olo, q), Lt(q, ohi), d)
		if d.Op == Eq || d.Op == Yes {
			t.F.Add(NeL(s.at(q).Sub(mc)))
		}
		if !t.F.Inconsistent() && !s.has(in, t, mj, s.at(q), []*Poly{q, q.AddC(1), q.AddC(-1)}) {
			why = append(why, "another element may get lost")
		}
	}
	// and so is the new one, unless it is zero
	t = st.Clone()
	t.F.Add(ENeL(want))
	if !t.F.Inconsistent() && !s.has(in, t, mr, mc, s.candidates(t)) {
		why = append(why, "the element stored may get lost")
	}
	_ = mn
	return
}

// readCase checks a method that returns an element.
func (h *host) readCase(l *layout, name string, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.NoTwin = func(m string) bool { return m == name }
	in.Debug = debug
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	r, c := S(Int, "r"), S(Int, "c")
	if l.vec {
		c = I(0)
	}
	st.F.Add(GeL(r), Lt(r, s.rows), GeL(c), Lt(c, s.cols))
	args := []interp.Val{interp.Num{P: r}, interp.Num{P: c}}
	if name == "AtVec" {
		args = args[:1]
	}
	rets, ok := s.call(in, st, name, args...)
	if !ok {
		return []string{"the method does not exist"}, in
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		n++
		switch v := x.Vals[0].(type) {
		case interp.Num:
			if !x.St.F.EqElem(v.P, s.elem(r, c)) {
				why = append(why, "does not return the element stored at the position")
				if debug {
					fmt.Printf("  %s under %v\n", v.P, x.St.F.Lits)
				}
			}
		case interp.BoolV:
			for _, b := range tf {
				t := x.St.Clone()
				res, el := v.L, ENeL(s.elem(r, c))
				if !b {
					res, el = res.Not(), el.Not()
				}
				t.F.Add(res)
				if !t.F.Inconsistent() && !t.F.Entails(el) {
					why = append(why, fmt.Sprintf("may be %v although the element is not", b))
				}
			}
		default:
			why = append(why, fmt.Sprintf("returns %v", v))
		}
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return
}

// storeCase checks a method that stores an element.
func (h *host) storeCase(l *layout, name string, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.NoTwin = func(m string) bool { return m == name }
	in.Debug = debug
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	r, c := S(Int, "r"), S(Int, "c")
	if l.vec {
		c = I(0)
	}
	st.F.Add(GeL(r), Lt(r, s.rows), GeL(c), Lt(c, s.cols))
	args := []interp.Val{interp.Num{P: r}, interp.Num{P: c}}
	if name == "SetVec" {
		args = args[:1]
	}
	want := alpha
	if strings.HasPrefix(name, "Update") {
		args = append(args, interp.FuncSym{Name: "f", Sort: Elem})
		want = Apply(Elem, "f", s.elem(r, c))
	} else {
		args = append(args, interp.Num{P: alpha})
	}
	rets, ok := s.call(in, st, name, args...)
	if !ok {
		return []string{"the method does not exist"}, in
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		n++
		if debug {
			fmt.Println("RETURN", x.St.Path, in.Blocks, len(in.Problems))
		}
		why = append(why, s.formed(in, x.St)...)
		why = append(why, s.changed(in, x.St, r, c, want)...)
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return why, in
}

func tryStorage(repo, filter string) {
	p, err := loadProgram(repo)
	if err != nil {
		panic(err)
	}
	h := newHost(&Report{Counts: map[string]int{}}, p)
	if pf := os.Getenv("PROF"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if strings.HasPrefix(filter, "div:") {
		for _, fn := range h.dividing() {
			dims, why, in, n, calls := h.divideRun(body(fn), divideCase{"", true, false}, debugKernels != "")
			fmt.Println(fn.Name(), n, calls, dims, why, problems(in))
		}
		return
	}
	if strings.HasPrefix(filter, "ex:") {
		tryExtract(h, filter[3:])
		return
	}
	if strings.HasPrefix(filter, "new:") {
		tryConstruct(h, filter[4:])
		return
	}
	if strings.HasPrefix(filter, "it:") {
		tryIterators(h, filter[3:])
		return
	}
	for _, f := range h.sortedFormats() {
		l, why := h.layoutOf(f)
		if l == nil {
			fmt.Println(f.Obj().Name(), why)
			continue
		}
		for i, name := range []string{"At", "AtVec", "Element", "Set", "Update", "SetVec", "UpdateReturnPointer", "SetReturnPointer"} {
			if !strings.Contains(f.Obj().Name()+"."+name, filter) || func() bool { fn, _ := h.Method(f, name); return fn == nil }() {
				continue
			}
			t0 := time.Now()
			do := h.storeCase
			if i < 3 {
				do = h.readCase
			}
			why, in := do(l, name, debugKernels != "")
			for _, x := range in.Problems {
				fmt.Println("  problem", x.Pos, x.Why)
			}
			fmt.Println(f.Obj().Name(), name, len(why), few(why), time.Since(t0))
		}
	}
}
