package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

const storageRule = "interpreting the method on a matrix of the format of any size and well-formed content: "

// zeroStored is the one defect of a representation that its reader does not notice.
const zeroStored = "a stored value may be zero"

var (
	elementReaders = []string{"At", "AtVec", "Element"}
	elementStorers = []string{"Set", "Update", "SetVec", "UpdateReturnPointer", "SetReturnPointer"}
)

// storageJobs makes a job for every format and method of the names that exist.
func (h *host) storageJobs(r *Report, rule string, names []string, sparseOnly bool, job func(r *Report, l *layout, name, construct, pos string)) {
	for _, f := range h.sortedFormats() {
		if sparseOnly && !h.sparse[f] {
			continue
		}
		for _, name := range names {
			f, name := f, name
			fn, _ := h.Method(f, name)
			if fn == nil {
				continue
			}
			construct := f.Obj().Name() + "." + name
			r.Job(rule, construct, func(r *Report) {
				pos := r.Prog.pos(fn.Pos())
				l, why := h.layoutOf(f)
				if l == nil {
					r.Undecided(rule, construct, pos, "the layout of the format is not known: %s", why)
					return
				}
				job(r, l, name, construct, pos)
			})
		}
	}
}

// settle reports what a case found.
func settle(r *Report, in *interp.Interp, rule, construct, pos string, why []string, ok string) {
	r.Count("blocks_interpreted", in.Blocks)
	if len(in.Problems) > 0 {
		r.Undecided(rule, construct, pos, "%s", problems(in))
		return
	}
	verdict(r, rule, construct, pos, why, ok)
}

func split(why []string, part func(string) bool) (in, out []string) {
	for _, w := range why {
		if part(w) {
			in = append(in, w)
		} else {
			out = append(out, w)
		}
	}
	return
}

// rangeCase checks that a method panics for exactly the positions outside the matrix, having done nothing.
func (h *host) rangeCase(l *layout, name string, debug bool) (why []string, in *interp.Interp, returns, panics int) {
	in = interp.New(h)
	in.NoTwin = func(m string) bool { return m == name }
	in.Debug = debug
	did := func(what string) func(st *interp.State) {
		return func(st *interp.State) { st.Tags[what] = interp.Num{P: I(1)} }
	}
	wrote, called := did("written"), did("called")
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	r, c := S(Int, "r"), S(Int, "c")
	row := []Lit{GeL(r), Lt(r, s.rows)}
	col := []Lit{GeL(c), Lt(c, s.cols)}
	num := func(p *Poly) interp.Val { return interp.Num{P: p} }
	f := interp.FuncSym{Name: "f", Sort: Elem}
	var args []interp.Val
	inside := append(append([]Lit{}, row...), col...)
	switch name {
	case "At", "Element":
		args = []interp.Val{num(r), num(c)}
	case "Set", "SetReturnPointer":
		args = []interp.Val{num(r), num(c), num(alpha)}
	case "Update", "UpdateReturnPointer":
		args = []interp.Val{num(r), num(c), f}
	case "AtVec", "RowsAt", "RowsAtToArray":
		args, inside = []interp.Val{num(r)}, row
	case "SetVec":
		args, inside = []interp.Val{num(r), num(alpha)}, row
	case "ColumnsAt":
		args, inside = []interp.Val{num(c)}, col
	}
	in.OnWrite = func(st *interp.State, _ ssa.Instruction, _ int) { wrote(st) }
	in.OnCall = func(st *interp.State, _ ssa.Instruction, _ interp.FuncSym, _ []interp.Val) { called(st) }
	rets, ok := s.call(in, st, name, args...)
	if !ok {
		return []string{"the method does not exist"}, in, 0, 0
	}
	for _, p := range in.Panics {
		if p.St.F.Inconsistent() {
			continue
		}
		panics++
		if !p.St.F.Contradicts(inside...) {
			why = append(why, fmt.Sprintf("%s: may panic for a position inside the matrix: %s", p.Pos, p.Why))
			continue
		}
		if p.St.Tags["written"] != nil {
			why = append(why, p.Pos+": the matrix is written before the panic")
		}
		if p.St.Tags["called"] != nil {
			why = append(why, p.Pos+": the function is called before the panic")
		}
	}
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		returns++
		for _, g := range inside {
			if !x.St.F.Entails(g) {
				why = append(why, fmt.Sprintf("returns although not %s", g))
				if debug {
					fmt.Println("  under", x.St.F.Lits)
				}
			}
		}
	}
	if returns == 0 {
		why = append(why, "never returns")
	}
	return
}

func init() {
	rule := "positions outside panic"
	register(&Check{ID: "C05", Level: "proof", MinObs: 55,
		Rules: storageRule + "every return entails that the position is inside the dimensions, every panic contradicts it and is reached without a write to memory that existed before the call and without a call of the update function",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			names := append(append([]string{"ColumnsAt", "RowsAt", "RowsAtToArray"}, elementReaders...), elementStorers...)
			h.storageJobs(r, rule, names, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in, n, p := h.rangeCase(l, name, false)
				r.Count("returns", n)
				r.Count("panics", p)
				settle(r, in, rule, construct, pos, why, fmt.Sprintf("%d returns entail that the position is inside, %d panics contradict it with nothing done before", n, p))
			})
		}})

	stores := "the stored element is stored and no other changes"
	reads := "the element of the position is read"
	register(&Check{ID: "C14", Level: "proof", MinObs: 35,
		Rules: storageRule + "a reading method returns the element of the position; after a storing method the representation is well formed (window starts monotone from 0 to the number of values, indices in range and increasing in each window), the position holds the new value, which for an update is the function applied to the old one, every other position keeps its element and no element is lost; no path panics for a position inside",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.storageJobs(r, reads, elementReaders, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.readCase(l, name, false)
				settle(r, in, reads, construct, pos, why, "every return is the element at the position")
			})
			h.storageJobs(r, stores, elementStorers, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.storeCase(l, name, false)
				_, why = split(why, func(w string) bool { return w == zeroStored })
				settle(r, in, stores, construct, pos, why, "well formed, the new element at the position, the old ones elsewhere")
			})
		}})
}
