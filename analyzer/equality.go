package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// eqCase is a comparison of two matrices: what is called, and how its result relates to equality.
type eqCase struct {
	name string
	fn   *ssa.Function
	neg  bool
	args func(in *interp.Interp, st *interp.State) (args []interp.Val, s, m int)
}

// decided reports how a result literal stands to "the operands are equal".
func truthOf(st *interp.State, v interp.Val, neg bool) (isTrue, isFalse, ok bool) {
	b, isB := v.(interp.BoolV)
	if !isB {
		return false, false, false
	}
	l := b.L
	if neg {
		l = l.Not()
	}
	return st.F.Entails(l), st.F.Entails(l.Not()), true
}

// pointwise reports whether the state entails that the two matrices are equal at every place. Between
// two sparse matrices it is enough that every non-zero element of one is the other's and that they
// have equally many.
func pointwise(st *interp.State, a, b *interp.Obj, na, nb *Poly) (bool, string) {
	if !st.F.EqInt(a.Rows, b.Rows) || !st.F.EqInt(a.Cols, b.Cols) {
		return false, "the dimensions need not be equal"
	}
	i, j := S(Int, "i"), S(Int, "j")
	if st.F.EqInt(a.Cols, I(1)) {
		j = I(0)
	}
	at := func(o *interp.Obj) (*Poly, bool) {
		if len(o.C.Layers) > 0 {
			return nil, false
		}
		return o.C.Base.Subst(Subst{B0a: i, B1a: j}), true
	}
	x, ok1 := at(a)
	y, ok2 := at(b)
	if !ok1 || !ok2 {
		return false, "the operands were changed"
	}
	s := st.Clone()
	s.F.Add(GeL(i), Lt(i, a.Rows), GeL(j), Lt(j, a.Cols))
	if s.F.Inconsistent() || s.F.Entails(EEqL(x.Sub(y))) {
		return true, ""
	}
	if na != nil && nb != nil && st.F.EqInt(na, nb) {
		for _, z := range []*Poly{x, y} {
			t := s.Clone()
			t.F.Add(ENeL(z))
			if t.F.Inconsistent() || t.F.Entails(EEqL(x.Sub(y))) {
				return true, ""
			}
		}
	}
	return false, "the elements need not be equal at every position"
}

func (c *eqCase) check(h *host, r *Report) {
	pos := h.p.pos(c.fn.Pos())
	rule := "equality is exact"
	// different operands: a true result entails equality
	var why []string
	for _, same := range tf {
		in := interp.New(h)
		in.Debug = debugKernels != "" && strings.Contains(c.name, debugKernels)
		st := in.NewState()
		args, s, m := c.args(in, st)
		if same && m != 0 {
			// equal operands: every result is true
			so, mo := st.Obj(s), st.Obj(m)
			mo.C, mo.Rows, mo.Cols = so.C, so.Rows, so.Cols
		}
		rets := in.Run(st, c.fn, args, nil)
		if len(in.Problems) > 0 {
			r.Undecided(rule, c.name, pos, "%s", problems(in))
			return
		}
		for _, p := range in.Panics {
			if !p.St.F.Inconsistent() {
				why = append(why, p.Pos+": panics: "+p.Why)
			}
		}
		n := 0
		for _, x := range rets {
			if x.St.F.Inconsistent() {
				continue
			}
			n++
			isT, isF, ok := truthOf(x.St, x.Vals[0], c.neg)
			if !ok || !isT && !isF {
				why = append(why, fmt.Sprintf("returns %v", x.Vals[0]))
				continue
			}
			a, b := x.St.Obj(s), x.St.Obj(m)
			switch {
			case m == 0: // a nil operand: args say what is expected
				want := s == 0
				if isT != want {
					why = append(why, fmt.Sprintf("reports %v for a nil operand", isT))
				}
			case same && !isT:
				why = append(why, "reports equal matrices as different")
			case !same && isT:
				var na, nb *Poly
				if a.Sparse.Op == Yes && b.Sparse.Op == Yes {
					na, nb = in.Count(x.St, a), in.Count(x.St, b)
				}
				if ok, w := pointwise(x.St, a, b, na, nb); !ok {
					why = append(why, "reports matrices as equal although "+w)
				}
			}
		}
		if n == 0 {
			why = append(why, "never returns")
		}
		r.Count("returns_examined", n)
		r.Count("loops_summarised", in.Loops)
		if m == 0 {
			break
		}
	}
	verdict(r, rule, c.name, pos, why, "true entails equal dimensions and elements, equal operands entail true")
}

func equalityCases(h *host) (cs []*eqCase) {
	for _, name := range []string{"Equal", "NotEqual"} {
		fn := h.p.fn("", name)
		neg := name == "NotEqual"
		for _, ss := range tf {
			for _, ms := range tf {
				cs = append(cs, &eqCase{name: fmt.Sprintf("%s(%s,%s)", name, operand{sparse: ss}, operand{sparse: ms}), fn: fn, neg: neg,
					args: func(in *interp.Interp, st *interp.State) ([]interp.Val, int, int) {
						s, m := in.NewMat(st, "S", ss, false), in.NewMat(st, "M", ms, false)
						return []interp.Val{interp.CtxV{}, interp.Ptr{Obj: s}, interp.Ptr{Obj: m}}, s, m
					}})
			}
		}
		for i, what := range []string{"nil,nil", "nil,matrix", "matrix,nil"} {
			cs = append(cs, &eqCase{name: name + "(" + what + ")", fn: fn, neg: neg,
				args: func(in *interp.Interp, st *interp.State) ([]interp.Val, int, int) {
					id := in.NewMat(st, "S", false, false)
					m := interp.Val(interp.Ptr{Obj: id})
					switch i {
					case 0:
						return []interp.Val{interp.CtxV{}, interp.NilV{}, interp.NilV{}}, 0, 0
					case 1:
						return []interp.Val{interp.CtxV{}, interp.NilV{}, m}, id, 0
					}
					return []interp.Val{interp.CtxV{}, m, interp.NilV{}}, id, 0
				}})
		}
		for _, f := range h.sortedFormats() {
			fn, _ := h.Method(f, name)
			if fn == nil {
				cs = append(cs, &eqCase{name: f.Obj().Name() + "." + name})
				continue
			}
			for _, ms := range tf {
				cs = append(cs, &eqCase{name: fmt.Sprintf("%s.%s(%s)", f.Obj().Name(), name, operand{sparse: ms}), fn: fn, neg: neg,
					args: func(in *interp.Interp, st *interp.State) ([]interp.Val, int, int) {
						s, m := h.receiver(in, st, "S", f), in.NewMat(st, "M", ms, false)
						_, p := h.bound(f, name, s)
						return []interp.Val{p, interp.Ptr{Obj: m}}, s, m
					}})
			}
			cs = append(cs, &eqCase{name: fmt.Sprintf("%s.%s(nil)", f.Obj().Name(), name), fn: fn, neg: neg,
				args: func(in *interp.Interp, st *interp.State) ([]interp.Val, int, int) {
					s := h.receiver(in, st, "S", f)
					_, p := h.bound(f, name, s)
					return []interp.Val{p, interp.NilV{}}, s, 0
				}})
		}
	}
	return
}

func init() {
	register(&Check{ID: "C11", Level: "proof", MinObs: 50,
		Rules: kernelRule + "every return of true entails equal dimensions and equal elements at every position (between sparse operands: equally many non-zero elements, all of one found in the other); with operands of equal dimensions and elements every return is true; NotEqual is the negation; nil operands",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			for _, c := range equalityCases(h) {
				if c.fn == nil {
					r.Undecided("equality is exact", c.name, "", "the function does not exist")
					continue
				}
				r.Job("equality is exact", c.name, func(r *Report) { c.check(h, r) })
			}
		}})
}

var _ = types.Typ
