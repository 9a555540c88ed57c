package main

import (
	"strings"

	. "graphverif/dom"
	"graphverif/interp"
)

// accessors are the methods that say how large a matrix is, and what they return.
var accessors = map[string]func(s *stored) *Poly{
	"Rows":    func(s *stored) *Poly { return s.rows },
	"Columns": func(s *stored) *Poly { return s.cols },
	"Length":  func(s *stored) *Poly { return s.rows },
	"Size":    func(s *stored) *Poly { return s.rows.Mul(s.cols) },
}

// accessCase checks that a method without arguments returns a number.
func (h *host) accessCase(l *layout, name string, want func(s *stored) *Poly) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.NoTwin = func(m string) bool { return m == name }
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	rets, ok := s.call(in, st, name)
	if !ok {
		return []string{"the method does not exist"}, in
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, r := range rets {
		if r.St.F.Inconsistent() {
			continue
		}
		n++
		if v, ok := r.Vals[0].(interp.Num); !ok || !r.St.F.EqInt(v.P, want(s)) {
			why = append(why, "the number returned need not be right")
		}
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return
}

// aboutSize reports whether what is wrong with a result is its size.
func aboutSize(w string) bool {
	for _, s := range []string{"dimensions", "number of rows", "number of columns", "length", "layout", "known format", "never returns"} {
		if strings.Contains(w, s) {
			return true
		}
	}
	return false
}

func init() {
	says := "a matrix says the dimensions it has"
	has := "a result has the dimensions its operation defines"
	register(&Check{ID: "C24", Level: "proof", MinObs: 130,
		Rules: kernelRule + "the dimensions of the matrix returned by a sum, difference, negation, scalar product, product or transpose of every format, with every kind of operand, of the copies and of the extracted rows and columns are the defined terms of the operands' dimensions on every return; " + storageRule + "Rows, Columns, Length and Size return the dimensions on every path",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			var names []string
			for _, n := range []string{"Columns", "Length", "Rows", "Size"} {
				names = append(names, n)
			}
			h.storageJobs(r, says, names, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.accessCase(l, name, accessors[name])
				settle(r, in, says, construct, pos, why, "the defined number on every return")
			})
			z := &kernelSet{h: h}
			z.elementMethods()
			z.productMethods()
			z.transposeMethods()
			z.transposes()
			z.jobs(r, func(c kcase) bool { return !c.masked }, func(r *Report, c kcase, pos string, res *kresult) {
				verdict(r, has, c.name, pos, res.dimWhy, "the defined dimensions on every return")
			})
			var taken []string
			for _, n := range extractors {
				if n != "Clear" {
					taken = append(taken, n)
				}
			}
			h.storageJobs(r, has, taken, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.extractCase(l, name, false)
				why, _ = split(why, aboutSize)
				settle(r, in, has, construct, pos, why, "the defined length or dimensions on every return")
			})
		}})
}
