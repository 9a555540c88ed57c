package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// A product that divides its operands is decided by induction on their size: its calls of itself, on
// smaller operands, give the product of these.

// flat is the content of a matrix within its dimensions, if that is one term.
func (h *host) flat(in *interp.Interp, st *interp.State, o *interp.Obj) *Poly {
	if len(o.C.Layers) == 0 {
		return o.C.Base
	}
	s := st.Clone()
	s.F.Add(GeL(B0), Lt(B0, o.Rows), GeL(B1), Lt(B1, o.Cols))
	s.Params = append(s.Params[:len(s.Params):len(s.Params)], B0, B1)
	var p *Poly
	n := 0
	in.Read(s, o.C, []*Poly{B0, B1}, func(s *interp.State, v *Poly) {
		if s.F.Inconsistent() {
			return
		}
		if p == nil || p != v {
			n++
		}
		p = v
	})
	if n != 1 {
		return nil
	}
	return p
}

// dividing are the functions of two matrices and perhaps a size that return a matrix and call themselves.
func (h *host) dividing() (l []*ssa.Function) {
	for name, pkg := range h.p.Pkgs {
		if name == "" {
			continue
		}
		for _, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			ps, rs := fn.Signature.Params(), fn.Signature.Results()
			if ps.Len() < 3 || rs.Len() != 1 || !h.isMat(rs.At(0).Type()) || !h.isMat(ps.At(1).Type()) || !h.isMat(ps.At(2).Type()) {
				continue
			}
			l = append(l, fn)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l
}

type divideCase struct {
	name             string
	sparseA, sparseB bool
}

func (h *host) divideRun(fn *ssa.Function, c divideCase, debug bool) (dims, why []string, in *interp.Interp, n, calls int) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	a := in.NewMat(st, "A", c.sparseA, false)
	b := in.NewMat(st, "B", c.sparseB, false)
	ao, bo := st.Obj(a), st.Obj(b)
	bad, dim := notes{in: in}, notes{in: in}
	agree := Same(ao.Cols, bo.Rows)
	args := []interp.Val{interp.CtxV{}, interp.Ptr{Obj: a}, interp.Ptr{Obj: b}}
	for i := 3; i < fn.Signature.Params().Len(); i++ {
		if t, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
			bad.add("a parameter the analysis does not know")
			return nil, bad.l, in, 0, 0
		}
		args = append(args, interp.Num{P: S(Int, fmt.Sprintf("p%d", i))})
	}
	targets := map[*ssa.Function]bool{}
	for _, f := range h.dividing() {
		targets[body(f)] = true
	}
	started := false
	in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, f *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		if !targets[body(f)] || len(args) < 3 {
			return false
		}
		if !started && body(f) == fn {
			started = true
			return false
		}
		x, ok1 := in.MatrixOf(s, args[1])
		y, ok2 := in.MatrixOf(s, args[2])
		if !ok1 || !ok2 {
			bad.add("%s: multiplies %v and %v", h.Pos(site), args[1], args[2])
			return true
		}
		xo, yo := s.Obj(x), s.Obj(y)
		calls++
		smaller := body(f) != fn || s.F.Entails(Lt(yo.Rows, bo.Rows)) && s.F.Entails(GeL(yo.Rows))
		if !smaller {
			bad.add("%s: calls itself on operands that need not be smaller", h.Pos(site))
		}
		p, q := h.flat(in, s, xo), h.flat(in, s, yo)
		if p == nil || q == nil {
			bad.add("%s: the operands of a smaller product are not known", h.Pos(site))
			return true
		}
		in.Decide(s, Same(xo.Cols, yo.Rows), func(s *interp.State) {
			m := in.NewObj(s, &interp.Obj{Kind: interp.Mat, Name: "product", Sort: Elem, Rows: xo.Rows, Cols: yo.Cols, Sparse: Truth(Pred("sparse@"+h.Pos(site), s.Params...)),
				C: interp.Product(one(p), one(q), xo.Cols)})
			k(s, []interp.Val{interp.Ptr{Obj: m}})
		}, func(s *interp.State) { in.Fail(s, site, "the inner dimensions differ") })
		return true
	}
	i, j := S(Int, "i"), S(Int, "j")
	for _, r := range in.Run(st, fn, args, nil) {
		if r.St.F.Inconsistent() {
			continue
		}
		n++
		if !r.St.F.Entails(agree) {
			bad.add("returns although the inner dimensions differ")
			continue
		}
		id, ok := in.MatrixOf(r.St, r.Vals[0])
		if !ok {
			bad.add("returns %v", r.Vals[0])
			continue
		}
		o := r.St.Obj(id)
		if !r.St.F.EqInt(o.Rows, ao.Rows) || !r.St.F.EqInt(o.Cols, bo.Cols) {
			dim.add("the result is %s by %s", o.Rows, o.Cols)
		}
		want := interp.Product(ao.C, bo.C, ao.Cols).Base.Subst(Subst{B0a: i, B1a: j})
		// as one sum, or as two of half the summands each
		s := r.St.Clone()
		s.F.Add(GeL(i), Lt(i, ao.Rows), GeL(j), Lt(j, bo.Cols))
		in.Read(s, o.C, []*Poly{i, j}, func(s *interp.State, v *Poly) {
			if s.F.Inconsistent() || s.F.EqElem(v, want) {
				return
			}
			if s.F.EqInt(ao.Cols, I(0)) && s.F.EqElem(v, C(Elem, 0)) {
				return
			}
			if h.halved(s, v, ao, bo, i, j) {
				return
			}
			if debug {
				fmt.Println("PATH", s.Path, "CONTENT", o.C)
			}
			bad.add("the element at (i,j) can be %s", v)
		})
	}
	if n == 0 && len(in.Problems) == 0 {
		bad.add("never returns")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() && !p.St.F.Contradicts(agree) {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return dim.l, bad.l, in, n, calls
}

// halved reports whether a term is the inner product of row i and column j, as sums over the first
// and the second half of the positions.
func (h *host) halved(s *interp.State, v *Poly, a, b *interp.Obj, i, j *Poly) bool {
	for _, x := range v.Atoms() {
		if x.Kind != Sum {
			continue
		}
		n := x.Args[0]
		if !s.F.EqInt(n.Add(n), a.Cols) {
			continue
		}
		at := func(o *interp.Obj, r, c *Poly) *Poly { return o.C.Base.Subst(Subst{B0a: r, B1a: c}) }
		want := MkSum(I(0), n, func(t *Poly) *Poly {
			return at(a, i, t).Mul(at(b, t, j)).Add(at(a, i, t.Add(n)).Mul(at(b, t.Add(n), j)))
		})
		return s.F.EqElem(v, want)
	}
	return false
}

func init() {
	rule := "the divided product is the product"
	register(&Check{ID: "C22", Level: "proof", MinObs: 8,
		Rules: kernelRule + "by induction on the size: given that its calls of itself, on operands proved smaller and of agreeing inner dimensions, return products, the element of the result at every position is the inner product of a row and a column, as one sum or as the sums of both halves, in every order in which the goroutines deliver, and the dimensions are the product's",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			fns := h.dividing()
			if len(fns) < 2 {
				r.Undecided(rule, "Strassen", "", "no function divides its operands")
			}
			for _, fn := range fns {
				fn := fn
				for _, c := range []divideCase{{"(sparse,sparse)", true, true}, {"(sparse,dense)", true, false}, {"(dense,sparse)", false, true}, {"(dense,dense)", false, false}} {
					c := c
					name := fn.Name() + c.name
					r.Job(rule, name, func(r *Report) {
						dims, why, in, n, calls := h.divideRun(body(fn), c, false)
						r.Count("returns_examined", n)
						r.Count("calls_by_contract", calls)
						settle(r, in, rule, name, h.p.pos(fn.Pos()), append(dims, why...), "the product at every position")
					})
				}
			}
		}})
}
