package main

import (
	"fmt"

	. "graphverif/dom"
	"graphverif/interp"
)

// learn adds what a comparison's being true says of the elements.
func learn(in *interp.Interp, st *interp.State, l Lit) {
	if l.Op != Tru {
		return
	}
	e := in.Eqs[l.A.Name]
	if e == nil || len(e.Params) > 0 || len(e.A.Layers) > 0 || len(e.B.Layers) > 0 {
		return
	}
	st.F.Add(Same(e.ARows, e.BRows), Same(e.ACols, e.BCols))
	i, j := SA(Int, "li"), SA(Int, "lj")
	sub := Subst{B0a: P(i), B1a: P(j)}
	x, y := e.A.Base.Subst(sub), e.B.Base.Subst(sub)
	body := Clause{{EEqL(x.Sub(y))}}
	guard := []Lit{GeL(P(i)), Lt(P(i), e.ARows), GeL(P(j)), Lt(P(j), e.ACols)}
	for _, p := range []*Poly{x, y} {
		for _, a := range p.Atoms() {
			if a.Kind == Sel {
				st.F.AddQuant(&Quant{Vars: []*Atom{i, j}, Trig: []*Atom{a}, Guard: guard, Body: body, New: true})
			}
		}
	}
}

// proves reports whether the operands of a comparison are equal in the state.
func proves(in *interp.Interp, st *interp.State, a *Atom) bool {
	e := in.Eqs[a.Name]
	if e == nil || len(e.Params) > 0 || !st.F.EqInt(e.ARows, e.BRows) || !st.F.EqInt(e.ACols, e.BCols) {
		return false
	}
	ok, _ := in.ContentEq(st, e.A, e.B, &interp.Obj{Kind: interp.Mat, Rows: e.ARows, Cols: e.ACols})
	return ok
}

func checkSymmetry(r *Report) {
	h := newHost(r, r.Prog)
	for _, t := range []struct {
		pkg, name string
		f         func(x *Poly) *Poly
	}{
		{"math/symmetric", "Symmetric", func(x *Poly) *Poly { return x }},
		{"math/skewsymmetric", "SkewSymmetric", func(x *Poly) *Poly { return x.Neg() }},
	} {
		fn := r.Prog.fn(t.pkg, t.name)
		rule := "symmetry is decided"
		if fn == nil {
			r.Undecided(rule, t.name, "", "the function does not exist")
			continue
		}
		pos := r.Prog.pos(fn.Pos())
		type operandCase struct {
			name string
			make func(in *interp.Interp, st *interp.State) int
		}
		cases := []operandCase{
			{"sparse", func(in *interp.Interp, st *interp.State) int { return in.NewMat(st, "S", true, false) }},
			{"dense", func(in *interp.Interp, st *interp.State) int { return in.NewMat(st, "S", false, false) }},
		}
		for _, c := range cases {
			name := t.name + "(" + c.name + ")"
			r.Job(rule, name, func(r *Report) {
				var why []string
				for _, mode := range []string{"a true result", "an operand that is", "an operand that is not square"} {
					in := interp.New(h)
					st := in.NewState()
					id := c.make(in, st)
					o := st.Obj(id)
					at := func(i, j *Poly) *Poly { return o.C.Base.Subst(Subst{B0a: i, B1a: j}) }
					switch mode {
					case "an operand that is":
						i, j := SA(Int, "hi"), SA(Int, "hj")
						st.F.Add(Same(o.Rows, o.Cols))
						body := Clause{{EEqL(at(P(i), P(j)).Sub(t.f(at(P(j), P(i)))))}}
						guard := []Lit{GeL(P(i)), Lt(P(i), o.Rows), GeL(P(j)), Lt(P(j), o.Cols)}
						st.F.AddQuant(&Quant{Vars: []*Atom{i, j}, Trig: []*Atom{at(P(i), P(j)).AsAtom()}, Guard: guard, Body: body, New: true})
					case "an operand that is not square":
						st.F.AddClause(Clause{{Lt(o.Rows, o.Cols)}, {Lt(o.Cols, o.Rows)}})
					}
					rets := in.Run(st, fn, []interp.Val{interp.Ptr{Obj: id}}, nil)
					if len(in.Problems) > 0 {
						r.Undecided(rule, name, pos, "%s", problems(in))
						return
					}
					for _, p := range in.Panics {
						why = append(why, p.Pos+": panics: "+p.Why)
					}
					n := 0
					for _, x := range rets {
						b, ok := x.Vals[0].(interp.BoolV)
						if !ok {
							why = append(why, fmt.Sprintf("returns %v", x.Vals[0]))
							continue
						}
						s := x.St
						if mode == "an operand that is" {
							// comparisons that have to come out true, here
							bad := false
							for _, l := range s.Path {
								if l.Op == Fls && proves(in, s, l.A) {
									bad = true
								}
							}
							if bad {
								continue
							}
						}
						for _, l := range s.Path {
							learn(in, s, l)
						}
						if s.F.Inconsistent() {
							continue
						}
						n++
						switch mode {
						case "a true result":
							s.F.Add(b.L)
							learn(in, s, b.L)
							if s.F.Inconsistent() {
								continue
							}
							if !s.F.EqInt(o.Rows, o.Cols) {
								why = append(why, "can be true for a matrix that is not square")
								continue
							}
							i, j := S(Int, "i"), S(Int, "j")
							s.F.Add(GeL(i), Lt(i, o.Rows), GeL(j), Lt(j, o.Cols))
							for _, rel := range []Lit{Lt(i, j), Lt(j, i), Same(i, j)} {
								u := s.Clone()
								u.F.Add(rel)
								d := at(i, j).Sub(t.f(at(j, i)))
								if rel.Op == Eq {
									d = at(i, i).Sub(t.f(at(i, i)))
								}
								if !u.F.Inconsistent() && !u.F.Entails(EEqL(d)) {
									why = append(why, "can be true although elements differ from those across the diagonal ("+rel.String()+")")
								}
							}
						case "an operand that is":
							if !s.F.Entails(b.L) && !(b.L.Op == Tru && proves(in, s, b.L.A)) {
								why = append(why, fmt.Sprintf("can be false (%s) although it has to be true", b.L))
							}
						default:
							if !s.F.Entails(b.L.Not()) {
								why = append(why, "can be true for a matrix that is not square")
							}
						}
					}
					if n == 0 {
						why = append(why, "never returns for "+mode)
					}
					r.Count("returns_examined", n)
				}
				verdict(r, rule, name, pos, why, "true entails square and equal to the (negated) transpose, and the converse")
			})
		}
	}
}

func init() {
	register(&Check{ID: "C29", Level: "proof", MinObs: 4,
		Rules: kernelRule + "a true result entails that the matrix is square and equal to its (negated) transpose at every position; with an operand of which that is assumed every result is true; with one that is not square every result is false",
		Run:   checkSymmetry})
}
