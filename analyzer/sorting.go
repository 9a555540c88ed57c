package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// rootFunc is the body of a function of the root package.
func (h *host) rootFunc(name string) *ssa.Function {
	if p := h.p.Pkgs[""]; p != nil {
		if f := p.Func(name); f != nil {
			return body(f)
		}
	}
	return nil
}

// spell checks that String writes every element of the matrix once, row by row.
func (h *host) spell(sparse, vec, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	a := in.NewMat(st, "s", sparse, vec)
	ao := st.Obj(a)
	ghost := newFoldGhost(in, st, map[string]*Poly{".written": I(0)})
	bad := notes{in: in}
	in.OnBuild = func(s *interp.State, site ssa.Instruction, name string, b int, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		n := ghost.get(s, ".written")
		write := func(v *Poly, done func(*interp.State)) {
			x := v.AsAtom()
			if x == nil || x.Kind != Sel || x.Name != "s" || len(x.Args) != 2 {
				if x, isC := v.IsConst(); !isC || x != 0 || !sparse {
					bad.add("%s: writes %s, which is not an element", h.Pos(site), v)
				} else {
					bad.add("%s: writes a zero of its own", h.Pos(site))
				}
				return
			}
			i, j := x.Args[0], x.Args[1]
			if !s.F.EqInt(n, i.Mul(ao.Cols).Add(j)) || !s.F.Entails(GeL(j)) || !s.F.Entails(Lt(j, ao.Cols)) {
				bad.add("%s: writes the element at (%s, %s) at place %s", h.Pos(site), i, j, n)
			}
			ghost.set(s, ".written", n.AddC(1))
			done(s)
		}
		switch name {
		case "Grow":
			k(s, nil)
		case "WriteRune":
			v, ok := args[0].(interp.Num)
			if !ok {
				return false
			}
			write(v.P, func(s *interp.State) { k(s, []interp.Val{interp.Num{P: I(1)}, interp.NilV{}}) })
		case "WriteString":
			v, ok := args[0].(interp.RuneStr)
			if !ok {
				return false
			}
			write(v.P, func(s *interp.State) { k(s, []interp.Val{interp.Num{P: I(1)}, interp.NilV{}}) })
		case "String":
			if !s.F.EqInt(n, ao.Rows.Mul(ao.Cols)) {
				bad.add("%s: the string is taken when %s elements are written", h.Pos(site), n)
			}
			k(s, []interp.Val{interp.StrOf{ID: "s"}})
		default:
			return false
		}
		return true
	}
	// the same, of the elements of a slice
	seq, appends := notes{in: in}, false
	stored := map[int]bool{}
	in.OnElem = func(s *interp.State, arr int, appended bool, at, v *Poly) {
		o := s.Obj(arr)
		if !appended {
			if o == nil || o.Grown != nil {
				seq.add("changes what was appended")
				return
			}
			if _, isC := o.Len.IsConst(); isC {
				return // the list of what is appended
			}
			if stored[arr] = true; len(stored) > 1 {
				seq.add("another slice is written to")
			}
		} else if appends = true; !at.Zero() && (o == nil || o.Grown == nil) {
			seq.add("appends to what was not appended")
		}
		n := ghost.get(s, ".written")
		if v == nil {
			seq.add("appends several")
			return
		}
		x := v.AsAtom()
		if x == nil || x.Kind != Sel || x.Name != "s" || len(x.Args) != 2 {
			seq.add("writes what is not an element")
			return
		}
		i, j := x.Args[0], x.Args[1]
		if !s.F.EqInt(n, at) || !s.F.EqInt(n, i.Mul(ao.Cols).Add(j)) || !s.F.Entails(GeL(j)) || !s.F.Entails(Lt(j, ao.Cols)) {
			seq.add("writes the element at (%s, %s) at place %s", i, j, at)
		}
		ghost.set(s, ".written", n.AddC(1))
	}
	n := 0
	for _, r := range in.Run(st, h.rootFunc("String"), []interp.Val{interp.CtxV{}, interp.Ptr{Obj: a}}, nil) {
		if r.St.F.Inconsistent() {
			continue
		}
		n++
		if l, ok := r.Vals[0].(interp.RunesStr); ok {
			// all at once
			if !r.St.F.EqInt(l.Len, ao.Rows.Mul(ao.Cols)) {
				bad.add("returns the string of %s elements", l.Len)
			}
			if o := r.St.Obj(l.Arr); o != nil && len(seq.l) == 0 && r.St.F.EqInt(ghost.get(r.St, ".written"), l.Len) {
				// every element was written at its place, one after the other
				if len(stored) == 0 && o.Grown != nil && r.St.F.EqInt(o.Grown, l.Len) || stored[l.Arr] && len(stored) == 1 && !appends {
					continue
				}
			}
			if debug {
				fmt.Println(seq.l, stored, ghost.get(r.St, ".written"), l.Len)
			}
			i, j := S(Int, "i"), S(Int, "j")
			t := r.St.Clone()
			t.F.Add(GeL(i), Lt(i, ao.Rows), GeL(j), Lt(j, ao.Cols))
			in.Read(t, ao.C, []*Poly{i, j}, func(t *interp.State, v *Poly) {
				in.Read(t, l.C, []*Poly{i.Mul(ao.Cols).Add(j)}, func(t *interp.State, w *Poly) {
					if !t.F.Inconsistent() && !t.F.EqElem(v, w) {
						bad.add("the element at (i, j) need not be at place i*columns+j of the string: %s", w)
					}
				})
			})
		} else if s, ok := r.Vals[0].(interp.StrOf); !ok || s.ID != "s" {
			bad.add("returns %v", r.Vals[0])
		}
	}
	if n == 0 && len(in.Problems) == 0 {
		bad.add("never returns")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return bad.l, in
}

// compares checks what Compare, Less and Greater answer, given the strings of both operands.
func (h *host) compares(name string, sparseS, sparseM, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	a, b := in.NewMat(st, "s", sparseS, false), in.NewMat(st, "m", sparseM, false)
	st.F.Add(Same(st.Obj(a).Rows, st.Obj(b).Rows), Same(st.Obj(a).Cols, st.Obj(b).Cols))
	str := h.rootFunc("String")
	bad := notes{in: in}
	in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, f *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		if str == nil || body(f) != str || len(args) < 2 {
			return false
		}
		id, ok := in.MatrixOf(s, args[1])
		if !ok {
			return false
		}
		switch id {
		case a:
			k(s, []interp.Val{interp.StrOf{ID: "s"}})
		case b:
			k(s, []interp.Val{interp.StrOf{ID: "m"}})
		default:
			return false
		}
		return true
	}
	less, greater := interp.StrOf{ID: "s"}.Less(interp.StrOf{ID: "m"}), interp.StrOf{ID: "m"}.Less(interp.StrOf{ID: "s"})
	n := 0
	for _, r := range in.Run(st, h.rootFunc(name), []interp.Val{interp.CtxV{}, interp.Ptr{Obj: a}, interp.Ptr{Obj: b}}, nil) {
		// the strings are before, after or the same as each other, and the same when the matrices are equal
		for i, way := range []struct {
			l    []Lit
			want [3]int64 // Compare, Less, Greater
		}{
			{[]Lit{less, greater.Not()}, [3]int64{-1, 1, 0}},
			{[]Lit{less.Not(), greater}, [3]int64{1, 0, 1}},
			{[]Lit{less.Not(), greater.Not()}, [3]int64{0, 0, 0}},
		} {
			s := r.St.Clone()
			s.F.Add(way.l...)
			for id := range in.Eqs {
				eq := in.Eqs[id]
				if eq == nil {
					continue
				}
				l := Truth(Pred(id, eq.Params...))
				if i == 2 {
					s.F.Add(l)
				} else {
					s.F.Add(l.Not())
				}
			}
			if s.F.Inconsistent() {
				continue
			}
			n++
			switch v := r.Vals[0].(type) {
			case interp.Num:
				if name != "Compare" || !s.F.EqInt(v.P, I(way.want[0])) {
					bad.add("answers %s when the first is %s", v.P, []string{"before", "after", "equal to"}[i]+" the second")
				}
			case interp.BoolV:
				want := way.want[1]
				if name == "Greater" {
					want = way.want[2]
				}
				l := v.L
				if want == 0 {
					l = l.Not()
				}
				if name == "Compare" || !s.F.Entails(l) {
					bad.add("does not answer %v when the first is %s the second", want == 1, []string{"before", "after", "equal to"}[i])
				}
			default:
				bad.add("answers %v", v)
			}
		}
	}
	if n < 3 && len(in.Problems) == 0 {
		bad.add("does not answer in every case")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return bad.l, in
}

// sorters are the functions that take a matrix of runes and return one, apart from the root package.
func (h *host) sorters() (l []*ssa.Function) {
	p := h.p.Pkgs["sort"]
	if p == nil {
		return nil
	}
	for _, name := range []string{"BubbleRow", "BubbleColumns"} {
		if f := p.Func(name); f != nil {
			l = append(l, f)
		}
	}
	return
}

// sorts checks a sort by comparisons of rows or columns: what it returns is what results from its
// comparisons if every one of them exchanges its two rows if the first is the greater; every pair is
// compared, and those of a position with all the later ones before those of a later position.
func (h *host) sorts(fn *ssa.Function, columns, sparse, debug bool) (why []string, in *interp.Interp, events int) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	a := in.NewMat(st, "a", sparse, false)
	ao := st.Obj(a)
	size := ao.Rows
	line, taken := B0, "RowsAt"
	if columns {
		size, line, taken = ao.Cols, B1, "ColumnsAt"
	}
	bad := notes{in: in}
	spec := in.NewObj(st, &interp.Obj{Kind: interp.Mat, Name: "ghost sorted", Sort: Elem, C: ao.C, Rows: ao.Rows, Cols: ao.Cols, Sparse: ao.Sparse})
	done := in.NewObj(st, &interp.Obj{Kind: interp.Mat, Name: "ghost compared", Sort: Elem, C: &interp.Content{Base: C(Elem, 0)}, Rows: size, Cols: size, Sparse: Lit{Op: No}})
	names := map[*ssa.Function]string{}
	for _, n := range []string{"Compare", "Less", "Greater"} {
		if f := h.rootFunc(n); f != nil {
			names[f] = n
		}
	}
	swap := func(c *interp.Content, x, y *Poly) *interp.Content {
		sub := Subst{B0a: x}
		back := Subst{B0a: y}
		if columns {
			sub, back = Subst{B1a: x}, Subst{B1a: y}
		}
		if len(c.Layers) > 0 {
			return nil
		}
		return &interp.Content{Base: c.Base, Layers: []interp.Layer{
			{Guard: []Lit{Same(line, x)}, Val: c.Base.Subst(back)}, {Guard: []Lit{Same(line, y)}, Val: c.Base.Subst(sub)}}}
	}
	in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, f *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		name := names[body(f)]
		if name == "" || len(args) < 3 {
			return false
		}
		if !in.Trying() {
			events++
		}
		pos := func(v interp.Val) *Poly {
			id, ok := in.MatrixOf(s, v)
			if !ok || s.Obj(id).From == nil || s.Obj(id).From.Name != taken {
				bad.add("%s: compares what is not a whole row or column", h.Pos(site))
				return nil
			}
			o := s.Obj(id)
			at := Subst{B0a: o.From.At, B1a: B0}
			if columns {
				at = Subst{B1a: o.From.At}
			}
			if ok, _ := in.ContentEq(s, o.C, s.Obj(spec).C.Subst(at), o); !ok {
				bad.add("%s: compares what may no longer be the row or column at its place", h.Pos(site))
			}
			return o.From.At
		}
		x, y := pos(args[1]), pos(args[2])
		if x == nil || y == nil {
			return true
		}
		up := s.F.Entails(Lt(x, y))
		if !up && !s.F.Entails(Lt(y, x)) {
			bad.add("%s: the places compared need not differ", h.Pos(site))
			up = true
		}
		lo, hi := x, y
		if !up {
			lo, hi = y, x
		}
		// those of earlier positions are done
		t := s.Clone()
		p, q := S(Int, "p"), S(Int, "q")
		t.F.Add(GeL(p), Lt(p, lo), Lt(p, q), Lt(q, size))
		if !t.F.Inconsistent() {
			in.Read(t, t.Obj(done).C, []*Poly{p, q}, func(u *interp.State, v *Poly) {
				if !u.F.Inconsistent() && !u.F.EqElem(v, C(Elem, 1)) {
					bad.add("%s: compares before a smaller position was compared with all that follow it", h.Pos(site))
				}
			})
		}
		in.SetContent(s, done, s.Obj(done).C.With(interp.Layer{Guard: []Lit{Same(B0, lo), Same(B1, hi)}, Val: C(Elem, 1)}))
		key := "@" + h.Pos(site)
		less, greater := Truth(Pred("less"+key, s.Params...)), Truth(Pred("greater"+key, s.Params...))
		if !up {
			less, greater = greater, less // of the lower position
		}
		answer := func(s *interp.State, c int64) {
			if !up {
				c = -c
			}
			switch name {
			case "Compare":
				k(s, []interp.Val{interp.Num{P: I(c)}})
			case "Less":
				k(s, []interp.Val{boolVal(c < 0)})
			case "Greater":
				k(s, []interp.Val{boolVal(c > 0)})
			}
		}
		in.Decide(s, greater, func(s *interp.State) {
			if c := swap(s.Obj(spec).C, lo, hi); c != nil {
				in.SetContent(s, spec, c)
			} else {
				bad.add("%s: compares in the middle of an exchange", h.Pos(site))
			}
			answer(s, 1)
		}, func(s *interp.State) {
			in.Decide(s, less, func(s *interp.State) { answer(s, -1) }, func(s *interp.State) {
				// then they are equal
				c := Fresh(Int, "c")
				sub := func(x *Poly) *Poly {
					if columns {
						return s.Obj(spec).C.Base.Subst(Subst{B1a: x, B0a: P(c)})
					}
					return s.Obj(spec).C.Base.Subst(Subst{B0a: x, B1a: P(c)})
				}
				if len(s.Obj(spec).C.Layers) == 0 {
					l, m := sub(lo), sub(hi)
					for _, tr := range []*Poly{l, m} {
						if tr.AsAtom() != nil {
							s.F.AddQuant(&Quant{Vars: []*Atom{c}, Trig: []*Atom{tr.AsAtom()}, Body: Clause{{EEqL(l.Sub(m))}}, New: true})
						}
					}
				}
				answer(s, 0)
			})
		})
		return true
	}
	n := 0
	for _, r := range in.Run(st, body(fn), []interp.Val{interp.CtxV{}, interp.Ptr{Obj: a}}, nil) {
		s := r.St
		if s.F.Inconsistent() {
			continue
		}
		n++
		id, ok := in.MatrixOf(s, r.Vals[0])
		if !ok {
			bad.add("returns %v", r.Vals[0])
			continue
		}
		o := s.Obj(id)
		if !s.F.EqInt(o.Rows, ao.Rows) || !s.F.EqInt(o.Cols, ao.Cols) {
			bad.add("the result is %s by %s", o.Rows, o.Cols)
			continue
		}
		if ok, w := in.ContentEq(s, o.C, s.Obj(spec).C, o); !ok {
			bad.add("the result need not hold the rows or columns as the comparisons put them: %s", w)
		}
		if ok, _ := in.ContentEq(s, s.Obj(a).C, ao.C, o); !ok || id == a {
			bad.add("the matrix given is changed or returned")
		}
		t := s.Clone()
		p, q := S(Int, "p"), S(Int, "q")
		t.F.Add(GeL(p), Lt(p, q), Lt(q, size))
		in.Read(t, t.Obj(done).C, []*Poly{p, q}, func(u *interp.State, v *Poly) {
			if !u.F.Inconsistent() && !u.F.EqElem(v, C(Elem, 1)) {
				bad.add("positions p < q need not have been compared")
				if debug {
					fmt.Println("  ", v, u.F.Lits)
				}
			}
		})
	}
	if n == 0 && len(in.Problems) == 0 {
		bad.add("never returns")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return bad.l, in, events
}

func boolVal(b bool) interp.Val {
	if b {
		return interp.BoolV{L: Lit{Op: Yes}}
	}
	return interp.BoolV{L: Lit{Op: No}}
}

func trySorting(repo, filter string, debug bool) {
	p, err := loadProgram(repo)
	if err != nil {
		panic(err)
	}
	h := newHost(&Report{Counts: map[string]int{}}, p)
	show := func(name string, why []string, in *interp.Interp) { fmt.Println(name, why, in.Problems) }
	for _, sp := range []bool{false, true} {
		switch filter {
		case "Search":
			w, in, p, t := h.searchCase(h.search(), sp, debug)
			show(fmt.Sprint("Search", p, t), w, in)
		case "String":
			w, in := h.spell(sp, false, debug)
			show("String", w, in)
		case "Compare", "Less", "Greater":
			w, in := h.compares(filter, sp, false, debug)
			show(filter, w, in)
		default:
			for _, f := range h.sorters() {
				if f.Name() == filter {
					w, in, n := h.sorts(f, f.Name() == "BubbleColumns", sp, debug)
					show(fmt.Sprint(filter, n), w, in)
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C23", Level: "proof", MinObs: 18,
		Rules: "string of all positions: String writes the element at (r,c) of a matrix at place r*columns+c, and returns when all are written. " +
			"order of matrices: on every path of Compare, Less and Greater the answer agrees with the order of the two strings. " +
			"sorted by exchanges: whatever the comparisons answer, the result of a sort is what follows from exchanging, at each, the two whole rows or columns if the first is the greater; every pair of positions is compared, each position with all later ones before the next is begun",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			for _, n := range []string{"String", "Compare", "Less", "Greater"} {
				if h.rootFunc(n) == nil {
					r.Undecided("order of matrices", n, "", "the function is gone")
					return
				}
			}
			kinds := map[bool]string{false: "dense", true: "sparse"}
			for _, sp := range []bool{false, true} {
				for _, vec := range []bool{false, true} {
					name := "String(" + kinds[sp] + ")"
					if vec {
						name = "String(" + kinds[sp] + " vector)"
					}
					sp, vec := sp, vec
					r.Job("string of all positions", name, func(r *Report) {
						why, in := h.spell(sp, vec, false)
						settle(r, in, "string of all positions", name, h.p.pos(h.rootFunc("String").Pos()), why, "every element, row by row")
					})
				}
				for _, f := range []string{"Compare", "Less", "Greater"} {
					for _, sm := range []bool{false, true} {
						sp, sm, f := sp, sm, f
						name := fmt.Sprintf("%s(%s,%s)", f, kinds[sp], kinds[sm])
						r.Job("order of matrices", name, func(r *Report) {
							why, in := h.compares(f, sp, sm, false)
							settle(r, in, "order of matrices", name, h.p.pos(h.rootFunc(f).Pos()), why, "answers by the order of the strings")
						})
					}
				}
				for _, f := range h.sorters() {
					f, sp := f, sp
					name := f.Name() + "(" + kinds[sp] + ")"
					r.Job("sorted by exchanges", name, func(r *Report) {
						why, in, n := h.sorts(f, f.Name() == "BubbleColumns", sp, false)
						r.Count("comparisons", n)
						if n == 0 {
							why = append(why, "nothing is compared")
						}
						settle(r, in, "sorted by exchanges", name, h.p.pos(f.Pos()), why, "exchanges whole lines, in the order of their comparisons, for all pairs")
					})
				}
			}
			if len(h.sorters()) < 2 {
				r.Undecided("sorted by exchanges", "sort", "", "BubbleRow and BubbleColumns are not both there")
			}
		}})
}
