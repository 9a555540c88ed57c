package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// kernel is a function analysed under one combination of formats, aliasing and mask.
type kernel struct {
	stored *stored // the receiver, when its representation is laid out
	name   string
	fn     *ssa.Function
	in     *interp.Interp
	st     *interp.State
	args   []interp.Val
	out    int      // the output object, or 0
	shape  []Lit    // what the shapes of the arguments have to satisfy
	known  []Clause // what is assumed of the shapes beforehand
	want   func(k *kernel, ret interp.Return) (id int, rows, cols *Poly, c *interp.Content, assume []Clause, why string)
}

type operand struct {
	sparse, vec bool
}

func (o operand) String() string {
	s := "dense"
	if o.sparse {
		s = "sparse"
	}
	return s
}

// the bound indices of contents
var (
	B0, B1   = interp.B0, interp.B1
	B0a, B1a = interp.B0a, interp.B1a
)

var debugKernels = ""

// result of a kernel run, per aspect
type kresult struct {
	shapeOK, shapeBad int
	elemOK            int
	shapeWhy, elemWhy []string
	dimWhy            []string
	undecided         []string
	returns, panics   int
	pos               string
}

func (k *kernel) run() *kresult {
	in := k.in
	res := &kresult{}
	start := k.st.Clone()
	in.Debug = debugKernels != "" && strings.Contains(k.name, debugKernels)
	before := map[int]*interp.Content{}
	if k.out != 0 {
		before[k.out] = k.st.Obj(k.out).C
	}
	rets := in.Run(k.st, k.fn, k.args, nil)
	_ = start
	for _, p := range in.Problems {
		res.undecided = append(res.undecided, p.Pos+": "+p.Why)
	}
	for _, p := range in.Panics {
		res.panics++
		if len(k.shape) > 0 && p.St.F.Contradicts(k.shape...) {
			if k.out != 0 && p.St.Obj(k.out).C != before[k.out] {
				res.shapeWhy = append(res.shapeWhy, fmt.Sprintf("%s: the output is written before the panic (%s)", p.Pos, p.Why))
			}
			continue
		}
		if !p.Explicit || strings.Contains(p.Why, "out of range") || true {
			res.elemWhy = append(res.elemWhy, fmt.Sprintf("%s: can panic for arguments of matching shape: %s", p.Pos, p.Why))
		}
	}
	known := len(in.Problems)
	defer func() {
		for _, p := range in.Problems[known:] {
			res.undecided = append(res.undecided, p.Pos+": "+p.Why)
		}
	}()
	for _, r := range rets {
		if r.St.F.Inconsistent() {
			continue
		}
		res.returns++
		ok := true
		for _, l := range k.shape {
			if !r.St.F.Entails(l) {
				res.shapeWhy = append(res.shapeWhy, fmt.Sprintf("returns although not %s", l))
				ok = false
			}
		}
		if !ok {
			continue
		}
		built := r.St.Clone()
		id, rows, cols, c, assume, why := k.want(k, r)
		if why != "" {
			res.elemWhy = append(res.elemWhy, why)
			continue
		}
		o := r.St.Obj(id)
		if o == nil || o.Kind != interp.Mat {
			res.undecided = append(res.undecided, "the result is not a matrix the analysis knows")
			continue
		}
		if !r.St.F.EqInt(o.Rows, rows) || !r.St.F.EqInt(o.Cols, cols) {
			res.dimWhy = append(res.dimWhy, fmt.Sprintf("the result is %s by %s, not %s by %s", o.Rows, o.Cols, rows, cols))
		}
		s := r.St.Clone()
		for _, a := range assume {
			s.F.AddClause(a)
		}
		if good, why := in.ContentEq(s, o.C, c, o); !good {
			// by the representation of what was built, if the receiver's is known
			if k.stored != nil && len(c.Layers) == 0 && built.Obj(id).Kind == interp.Cells {
				h := k.stored.h
				want := func(i, j *Poly) *Poly { return c.Base.Subst(Subst{B0a: i, B1a: j}) }
				entries := func(i, j *Poly) []*Poly { return []*Poly{k.stored.entry(i, j), k.stored.entry(j, i)} }
				if len(h.holds(in, built, id, rows, cols, want, entries)) == 0 {
					continue
				}
			}
			res.elemWhy = append(res.elemWhy, why)
		}
	}
	return res
}

// kcase is a kernel to be built and run in a job.
type kcase struct {
	name   string
	fn     *ssa.Function
	masked bool
	build  func() *kernel
	// stored builds it with the representation of the receiver laid out
	stored func() *kernel
}

type kernelSet struct {
	h  *host
	ks []kcase
}

func (z *kernelSet) add(fn *ssa.Function, masked bool, name string, build func() *kernel) {
	z.ks = append(z.ks, kcase{name: name, fn: fn, masked: masked, build: func() *kernel {
		k := build()
		k.name, k.fn = name, fn
		return k
	}})
}

func (z *kernelSet) begin() (*interp.Interp, *interp.State) {
	in := interp.New(z.h)
	return in, in.NewState()
}

// binary makes the cases of an operation of two operands, a mask and an output of their shape.
func (z *kernelSet) binary(pkg, name string, vec bool, aliases []string, f func(s, m *Poly) *interp.Content) {
	fn := z.h.p.fn(pkg, name)
	for _, alias := range aliases {
		for _, ss := range []bool{false, true} {
			for _, ms := range []bool{false, true} {
				for _, masked := range []bool{false, true} {
					if (alias == "s=m" || alias == "s=m=out") && ss != ms {
						continue
					}
					name := fmt.Sprintf("%s(%s,%s%s%s)", name, operand{sparse: ss}, operand{sparse: ms}, map[bool]string{true: ",mask", false: ""}[masked], map[bool]string{true: ", " + alias, false: ""}[alias != ""])
					z.add(fn, masked, name, func() *kernel {
						in, st := z.begin()
						k := &kernel{fn: fn, in: in, st: st}
						s := in.NewMat(st, "S", ss, vec)
						m, out := s, s
						if alias != "s=m" && alias != "s=m=out" {
							m = in.NewMat(st, "M", ms, vec)
						}
						switch alias {
						case "", "s=m":
							out = in.NewMat(st, "Out", false, vec)
							st.Obj(out).Sparse = Truth(Pred("out.sparse"))
						case "m=out":
							out = m
						}
						so, mo, oo := st.Obj(s), st.Obj(m), st.Obj(out)
						k.out = out
						// the output has the shape of the left operand
						st.F.Add(Same(oo.Rows, so.Rows), Same(oo.Cols, so.Cols))
						if out == m {
							// checked when the output is not the right operand
							st.F.Add(Same(oo.Rows, mo.Rows))
						}
						k.shape = []Lit{Same(so.Rows, mo.Rows), Same(so.Cols, mo.Cols)}
						var mv interp.Val = interp.NilV{}
						var mk *Poly
						if masked {
							mid := in.NewMat(st, "Mask", false, false)
							st.Obj(mid).MaskOnly = true
							mv = interp.Ptr{Obj: mid}
							mobj := st.Obj(mid)
							mk = mobj.C.Base
							k.shape = append(k.shape, Same(mobj.Rows, oo.Rows), Same(mobj.Cols, oo.Cols))
						}
						k.args = []interp.Val{interp.CtxV{}, interp.Ptr{Obj: s}, interp.Ptr{Obj: m}, mv, interp.Ptr{Obj: out}}
						want := f(so.C.Base, mo.C.Base)
						o0 := oo.C.Base
						k.want = func(k *kernel, r interp.Return) (int, *Poly, *Poly, *interp.Content, []Clause, string) {
							w := want
							var as []Clause
							if alias == "" || alias == "s=m" {
								c := Clause{{EEqL(o0)}}
								if mk != nil {
									c = append(c, []Lit{ENeL(mk)})
								}
								as = append(as, c)
							}
							if mk != nil {
								w = &interp.Content{Base: w.Base, Layers: append(append([]interp.Layer{}, w.Layers...), interp.Layer{Guard: []Lit{ENeL(mk)}, Val: o0})}
							}
							return out, so.Rows, so.Cols, w, as, ""
						}
						return k
					})
				}
			}
		}
	}
}

func (z *kernelSet) mask(k *kernel, masked bool, out *interp.Obj) (interp.Val, *Poly) {
	if !masked {
		return interp.NilV{}, nil
	}
	id := k.in.NewMat(k.st, "Mask", false, false)
	o := k.st.Obj(id)
	o.MaskOnly = true
	k.shape = append(k.shape, Same(o.Rows, out.Rows), Same(o.Cols, out.Cols))
	return interp.Ptr{Obj: id}, o.C.Base
}

func withMask(c *interp.Content, mk, o0 *Poly) *interp.Content {
	if mk == nil {
		return c
	}
	return &interp.Content{Base: c.Base, Layers: append(append([]interp.Layer{}, c.Layers...), interp.Layer{Guard: []Lit{ENeL(mk)}, Val: o0})}
}

func startsEmpty(mk, o0 *Poly) []Clause {
	c := Clause{{EEqL(o0)}}
	if mk != nil {
		c = append(c, []Lit{ENeL(mk)})
	}
	return []Clause{c}
}

var tf = []bool{false, true}

// unary makes the cases of an operation of one operand, a mask and an output.
func (z *kernelSet) unary(name string, transposed bool, extra []interp.Val, f func(s *Poly) *Poly, stored bool) {
	fn := z.h.p.fn("", name)
	for _, inPlace := range tf {
		for _, ss := range tf {
			for _, masked := range tf {
				if inPlace && transposed {
					continue
				}
				name := fmt.Sprintf("%s(%s%s%s)", name, operand{sparse: ss}, map[bool]string{true: ",mask"}[masked], map[bool]string{true: ", s=out"}[inPlace])
				z.add(fn, masked, name, func() *kernel {
					in, st := z.begin()
					k := &kernel{fn: fn, in: in, st: st}
					s := in.NewMat(st, "S", ss, false)
					out := s
					if !inPlace {
						out = in.NewMat(st, "Out", false, false)
						st.Obj(out).Sparse = Truth(Pred("out.sparse"))
					}
					k.out = out
					so, oo := st.Obj(s), st.Obj(out)
					rows, cols := so.Rows, so.Cols
					c := so.C
					if transposed {
						rows, cols = cols, rows
						c = c.Subst(Subst{B0a: B1, B1a: B0})
					}
					st.F.Add(Same(oo.Rows, rows), Same(oo.Cols, cols))
					mv, mk := z.mask(k, masked, oo)
					k.args = append([]interp.Val{interp.CtxV{}, interp.Ptr{Obj: s}, mv}, append(append([]interp.Val{}, extra...), interp.Ptr{Obj: out})...)
					o0 := oo.C.Base
					w := one(f(c.Base))
					if stored && ss {
						// only the stored elements
						w = one(o0).With(interp.Layer{Guard: []Lit{ENeL(c.Base)}, Val: f(c.Base)})
					}
					want := withMask(w, mk, o0)
					k.want = func(k *kernel, r interp.Return) (int, *Poly, *Poly, *interp.Content, []Clause, string) {
						var as []Clause
						if !inPlace {
							as = startsEmpty(mk, o0)
						}
						return out, rows, cols, want, as, ""
					}
					return k
				})
			}
		}
	}
}

// product makes the cases of the products.
func (z *kernelSet) product(name string, svec, mvec, swap bool) {
	fn := z.h.p.fn("", name)
	for _, same := range tf {
		for _, ss := range tf {
			for _, ms := range tf {
				for _, masked := range tf {
					if same && (ss != ms || svec != mvec) {
						continue
					}
					name := fmt.Sprintf("%s(%s,%s%s%s)", name, operand{sparse: ss}, operand{sparse: ms}, map[bool]string{true: ",mask"}[masked], map[bool]string{true: ", s=m"}[same])
					z.add(fn, masked, name, func() *kernel {
						in, st := z.begin()
						k := &kernel{fn: fn, in: in, st: st}
						s := in.NewMat(st, "S", ss, svec)
						m := s
						if !same {
							m = in.NewMat(st, "M", ms, mvec)
						}
						out := in.NewMat(st, "Out", false, svec || mvec)
						st.Obj(out).Sparse = Truth(Pred("out.sparse"))
						k.out = out
						l, r := st.Obj(s), st.Obj(m)
						if swap {
							l, r = r, l
						}
						oo := st.Obj(out)
						st.F.Add(Same(oo.Rows, l.Rows), Same(oo.Cols, r.Cols))
						k.shape = []Lit{Same(l.Cols, r.Rows)}
						mv, mk := z.mask(k, masked, oo)
						k.args = []interp.Val{interp.CtxV{}, interp.Ptr{Obj: s}, interp.Ptr{Obj: m}, mv, interp.Ptr{Obj: out}}
						o0 := oo.C.Base
						want := withMask(interp.Product(l.C, r.C, l.Cols), mk, o0)
						k.want = func(k *kernel, _ interp.Return) (int, *Poly, *Poly, *interp.Content, []Clause, string) {
							return out, l.Rows, r.Cols, want, nil, ""
						}
						return k
					})
				}
			}
		}
	}
}

// made makes the cases of functions of one operand that return a new matrix.
func (z *kernelSet) made(name string, f func(s *interp.Obj) (rows, cols *Poly, c *interp.Content), extra ...interp.Val) {
	fn := z.h.p.fn("", name)
	for _, ss := range tf {
		name := fmt.Sprintf("%s(%s)", name, operand{sparse: ss})
		z.add(fn, false, name, func() *kernel {
			in, st := z.begin()
			k := &kernel{fn: fn, in: in, st: st}
			s := in.NewMat(st, "S", ss, false)
			so := st.Obj(s)
			k.args = append([]interp.Val{interp.CtxV{}, interp.Ptr{Obj: s}}, extra...)
			rows, cols, c := f(so)
			k.want = func(k *kernel, r interp.Return) (int, *Poly, *Poly, *interp.Content, []Clause, string) {
				id, ok := in.MatrixOf(r.St, r.Vals[0])
				if !ok {
					return 0, nil, nil, nil, nil, fmt.Sprintf("returns %v", r.Vals[0])
				}
				return id, rows, cols, c, nil, ""
			}
			return k
		})
	}
}

func one(p *Poly) *interp.Content { return &interp.Content{Base: p} }

var (
	allAliases = []string{"", "s=out", "m=out", "s=m", "s=m=out"}
	alpha      = S(Elem, "alpha")
)

// elementWise makes the cases of the element-wise kernels.
func (z *kernelSet) elementWise() {
	z.binary("", "Add", false, allAliases, func(s, m *Poly) *interp.Content { return one(s.Add(m)) })
	z.binary("", "Subtract", false, allAliases, func(s, m *Poly) *interp.Content { return one(s.Sub(m)) })
	z.binary("", "ElementWiseMatrixMultiply", false, allAliases, func(s, m *Poly) *interp.Content { return one(s.Mul(m)) })
	ewadd := func(s, m *Poly) *interp.Content {
		return &interp.Content{Base: s, Layers: []interp.Layer{{Guard: []Lit{ENeL(m)}, Val: m}}}
	}
	z.binary("", "ElementWiseMatrixAdd", false, allAliases, ewadd)
	z.binary("", "ElementWiseVectorMultiply", true, allAliases, func(s, m *Poly) *interp.Content { return one(s.Mul(m)) })
	z.binary("", "ElementWiseVectorAdd", true, allAliases, ewadd)
	z.unary("Negative", false, nil, func(s *Poly) *Poly { return s.Neg() }, false)
	z.unary("Apply", false, []interp.Val{interp.OpV{F: interp.FuncSym{Name: "u", Sort: Elem}}}, func(s *Poly) *Poly { return Apply(Elem, "u", s) }, true)
	z.made("Scalar", func(s *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Rows, s.Cols, one(alpha.Mul(s.C.Base))
	}, interp.Num{P: alpha})
}

func (z *kernelSet) products() {
	z.product("MatrixMatrixMultiply", false, false, false)
	z.product("MatrixVectorMultiply", false, true, false)
	z.product("VectorMatrixMultiply", true, false, true)
}

func (z *kernelSet) transposes() {
	z.unary("Transpose", true, nil, func(s *Poly) *Poly { return s }, false)
	tr := func(s *interp.Obj) (*Poly, *Poly, *interp.Content) {
		return s.Cols, s.Rows, s.C.Subst(Subst{B0a: B1, B1a: B0})
	}
	z.made("TransposeToCSR", tr)
	z.made("TransposeToCSC", tr)
}

// jobs adds a job for each case that fits.
func (z *kernelSet) jobs(r *Report, fits func(c kcase) bool, judge func(r *Report, c kcase, pos string, res *kresult)) {
	for _, c := range z.ks {
		if c.fn == nil {
			r.Undecided("kernels", c.name, "", "the function does not exist")
			continue
		}
		if !fits(c) {
			continue
		}
		r.Job("kernels", c.name, func(r *Report) {
			k := c.build()
			res := k.run()
			if len(res.undecided) > 0 && c.stored != nil {
				k = c.stored()
				res = k.run()
				r.Count("with_representation", 1)
			}
			r.Count("blocks_interpreted", k.in.Blocks)
			r.Count("loops_summarised", k.in.Loops)
			pos := z.h.p.pos(c.fn.Pos())
			if len(res.undecided) > 0 {
				r.Undecided("kernels", c.name, pos, "%s", few(res.undecided))
				return
			}
			if res.returns == 0 {
				r.Bad("kernels", c.name, pos, "the operation never returns")
				return
			}
			r.Count("returns_examined", res.returns)
			r.Count("panics_examined", res.panics)
			judge(r, c, pos, res)
		})
	}
}

// few joins the first of a list.
func few(l []string) string {
	seen := map[string]bool{}
	var out []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) > 3 {
		out = append(out[:3], fmt.Sprintf("and %d more", len(out)-3))
	}
	return strings.Join(out, "; ")
}

func verdict(r *Report, rule, name, pos string, why []string, ok string) {
	if len(why) > 0 {
		r.Bad(rule, name, pos, "%s", few(why))
		return
	}
	r.OK(rule, name, pos, "%s", ok)
}

func tryKernels(repo, filter string) {
	p, err := loadProgram(repo)
	if err != nil {
		panic(err)
	}
	z := &kernelSet{h: newHost(&Report{Counts: map[string]int{}}, p)}
	z.elementWise()
	z.products()
	z.transposes()
	z.elementMethods()
	z.productMethods()
	z.transposeMethods()
	for _, c := range equalityCases(z.h) {
		if strings.Contains(c.name, filter) {
			r := &Report{Prog: p, Counts: map[string]int{}}
			c.check(z.h, r)
			for _, o := range r.Obs {
				fmt.Println(c.name, o)
			}
		}
	}
	for _, c := range z.ks {
		if !strings.Contains(c.name, filter) {
			continue
		}
		k := c.build()
		r := k.run()
		if len(r.undecided) > 0 && c.stored != nil {
			fmt.Println("with representation, for", few(r.undecided))
			k = c.stored()
			r = k.run()
		}
		fmt.Printf("%-50s returns %d panics %d steps %d\n", k.name, r.returns, r.panics, k.in.Blocks)
		for _, x := range [][]string{r.undecided, r.shapeWhy, r.elemWhy, r.dimWhy} {
			for _, y := range x {
				fmt.Println("     ", y)
			}
		}
	}
}

const kernelRule = "abstract interpretation of the kernel's SSA form: matrices are functions of the index over a relational domain of linear inequalities and ring terms, loops are summarised by inductive invariants that are verified in the domain; "

func init() {
	register(&Check{ID: "C06", Level: "proof", MinObs: 150,
		Rules: kernelRule + "every return entails that the shapes agree, every panic contradicts it and leaves the output as it was",
		Run: func(r *Report) {
			z := &kernelSet{h: newHost(r, r.Prog)}
			z.elementWise()
			z.products()
			z.transposes()
			z.elementMethods()
			z.productMethods()
			z.jobs(r, func(c kcase) bool { return true }, func(r *Report, c kcase, pos string, res *kresult) {
				verdict(r, "shapes are checked before the output is written", c.name, pos, res.shapeWhy, "every return entails agreeing shapes, every panic contradicts them with the output unwritten")
			})
			z.h.feedJobs(r, "shapes are checked before the output is written", func(f feed) bool { return f.mask != "" }, func(f feed) []string { return f.shape }, "every return entails that the mask has the operand's shape, every panic contradicts it")
		}})
	register(&Check{ID: "C07", Level: "proof", MinObs: 80,
		Rules: kernelRule + "on every return the output's element is the initial one where the mask holds and the defined one elsewhere",
		Run: func(r *Report) {
			z := &kernelSet{h: newHost(r, r.Prog)}
			z.elementWise()
			z.products()
			z.transposes()
			z.jobs(r, func(c kcase) bool { return c.masked }, func(r *Report, c kcase, pos string, res *kresult) {
				verdict(r, "masked positions are kept, the others computed", c.name, pos, res.elemWhy, "the final content equals the defined one where the mask is false and the initial one where it is true")
			})
			z.h.feedJobs(r, "masked positions are kept, the others computed", func(f feed) bool { return f.mask != "" }, func(f feed) []string { return f.content }, "exactly the elements enumerated that the mask does not cover are combined")
		}})
	elems := func(id string, min int, what string, f func(z *kernelSet)) {
		register(&Check{ID: id, Level: "proof", MinObs: min,
			Rules: kernelRule + what,
			Run: func(r *Report) {
				z := &kernelSet{h: newHost(r, r.Prog)}
				f(z)
				z.jobs(r, func(c kcase) bool { return !c.masked }, func(r *Report, c kcase, pos string, res *kresult) {
					verdict(r, "every element is the defined one", c.name, pos, res.elemWhy, "the final content equals the defined one at every position")
				})
			}})
	}
	elems("C08", 60, "on every return the content of the output is the defined function of the operands' initial contents at every position", func(z *kernelSet) { z.elementWise(); z.elementMethods() })
	elems("C09", 10, "on every return the content of the output is the sum over k of left(i,k)*right(k,j) at every position", func(z *kernelSet) { z.products(); z.productMethods() })
	elems("C10", 6, "on every return the content of the output at (i,j) is the operand's at (j,i)", func(z *kernelSet) { z.transposes(); z.transposeMethods() })
}

var _ = types.Typ
