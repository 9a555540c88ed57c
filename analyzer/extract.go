package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	. "graphverif/dom"
	"graphverif/interp"
)

var wrongElement = "a position need not hold the element it was taken from"

// holds checks that an object is a matrix of the dimensions with the elements. Entries are where an
// element that is not zero may be stored.
func (h *host) holds(in *interp.Interp, st *interp.State, id int, rows, cols *Poly, want func(i, j *Poly) *Poly, entries func(i, j *Poly) []*Poly) (why []string) {
	o := st.Obj(id)
	i, j := S(Int, "i"), S(Int, "j")
	inside := func(t *interp.State) {
		t.F.Add(GeL(i), Lt(i, rows), GeL(j), Lt(j, cols))
		if j == I(0) {
			t.F.Add(GeL(rows))
		}
	}
	compare := func(c *interp.Content, at []*Poly) {
		t := st.Clone()
		inside(t)
		if t.F.Inconsistent() {
			return
		}
		in.Read(t, c, at, func(u *interp.State, v *Poly) {
			if len(why) == 0 && !u.F.Inconsistent() && !u.F.EqElem(v, want(i, j)) {
				why = append(why, wrongElement)
				if in.Debug {
					fmt.Printf("  %s, not %s under %v\n", v, want(i, j), u.F.Lits)
					for _, q := range u.F.Quants {
						fmt.Println("   ", q, q.Trig)
					}
				}
			}
		})
	}
	if o.Kind == interp.Mat {
		if !st.F.EqInt(o.Rows, rows) || !st.F.EqInt(o.Cols, cols) {
			return []string{"the dimensions need not be right"}
		}
		if o.Vec {
			j = I(0)
		}
		compare(o.C, []*Poly{i, j})
		return
	}
	n, _ := types.Unalias(o.Type).(*types.Named)
	if o.Kind != interp.Cells || n == nil {
		return []string{"the result is not a matrix of a known format"}
	}
	l, w := h.layoutOf(h.format(n))
	if l == nil {
		return []string{"the layout of the result is not known: " + w}
	}
	t := &stored{l: l, h: h, id: id, rows: rows, cols: cols, base: "result"}
	if l.vec {
		j = I(0)
		if !st.F.EqInt(cols, I(1)) {
			return []string{"the dimensions need not be right"}
		}
	}
	_, why = split(t.formed(in, st), func(w string) bool { return w == zeroStored })
	if len(why) > 0 {
		return
	}
	if !h.sparse[l.f] {
		path, at := l.vals, []*Poly{i}
		if l.data != "" {
			path, at = l.data, []*Poly{i, j}
		}
		compare(in_(st, t.slice(st, path)), at)
		return
	}
	mj, mn := i, j
	if l.major == 1 {
		mj, mn = j, i
	}
	major, _ := t.dims()
	at := func(mj, mn *Poly) *Poly {
		if l.major == 1 {
			return want(mn, mj)
		}
		return want(mj, mn)
	}
	if l.vec {
		mj, mn, major = I(0), i, I(1)
		at = func(_, mn *Poly) *Poly { return want(mn, I(0)) }
	}
	u := st.Clone()
	u.F.Add(GeL(mj), Lt(mj, major))
	p := S(Int, "p")
	t.window(in, u, mj, func(u *interp.State, lo, hi *Poly) {
		u.F.Add(Le(lo, p), Lt(p, hi))
		if u.F.Inconsistent() {
			return
		}
		t.reads(in, u, []access{{l.idx, []*Poly{p}}, {l.vals, []*Poly{p}}}, func(u *interp.State, v []*Poly) {
			if len(why) == 0 && !u.F.Inconsistent() && !u.F.EqElem(v[1], at(mj, v[0])) {
				why = append(why, wrongElement)
				if in.Debug {
					fmt.Printf("  entry %s is not %s under %v\n", v[1], at(mj, v[0]), u.F.Lits)
				}
			}
		})
	})
	u = st.Clone()
	inside(u)
	u.F.Add(ENeL(want(i, j)))
	if !u.F.Inconsistent() && !t.has(in, u, mj, mn, entries(i, j)) {
		why = append(why, "an element may be missing")
	}
	return
}

// format is the format a type is an instance of.
func (h *host) format(n *types.Named) *types.Named {
	for f := range h.formats {
		if f.Origin() == n.Origin() {
			return f
		}
	}
	return n
}

// entry is where an element of the stored matrix that is not zero is stored.
func (s *stored) entry(i, j *Poly) *Poly {
	if s.l.vec {
		return Apply(Int, s.base+".entry", i)
	}
	return Apply(Int, s.base+".entry", i, j)
}

var extractors = []string{"RowsAt", "ColumnsAt", "RowsAtToArray", "Copy", "CopyLogical", "Clear"}

// extractCase checks a method that takes elements out of a matrix.
func (h *host) extractCase(l *layout, name string, debug bool) (why []string, in *interp.Interp) {
	in = interp.New(h)
	in.Debug = debug
	in.NoTwin = func(m string) bool { return m == name }
	st := in.NewState()
	s := h.newStored(in, st, l, "S", true)
	x := S(Int, "x")
	var args []interp.Val
	rows, cols := s.rows, s.cols
	want := s.elem
	entries := func(i, j *Poly) []*Poly { e := s.entry(i, j); return []*Poly{e} }
	switch name {
	case "RowsAt", "RowsAtToArray":
		st.F.Add(GeL(x), Lt(x, s.rows))
		args = []interp.Val{interp.Num{P: x}}
		rows, cols = s.cols, I(1)
		want = func(i, _ *Poly) *Poly { return s.elem(x, i) }
		entries = func(i, _ *Poly) []*Poly {
			e := s.entry(x, i)
			return []*Poly{e, e.Sub(s.st(x))}
		}
	case "ColumnsAt":
		st.F.Add(GeL(x), Lt(x, s.cols))
		args = []interp.Val{interp.Num{P: x}}
		cols = I(1)
		want = func(i, _ *Poly) *Poly { return s.elem(i, x) }
		entries = func(i, _ *Poly) []*Poly {
			e := s.entry(i, x)
			return []*Poly{e, e.Sub(s.st(x))}
		}
	case "Clear":
		want = func(i, j *Poly) *Poly { return C(Elem, 0) }
	}
	rets, ok := s.call(in, st, name, args...)
	if !ok {
		return []string{"the method does not exist"}, in
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			why = append(why, p.Pos+": panics: "+p.Why)
		}
	}
	n := 0
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		n++
		var v interp.Val = interp.Ptr{Obj: s.id}
		if name != "Clear" {
			v = x.Vals[0]
		}
		if i, ok := v.(interp.Iface); ok {
			v = i.V
		}
		switch v := v.(type) {
		case interp.Ptr:
			why = append(why, h.holds(in, x.St, v.Obj, rows, cols, want, entries)...)
		case interp.Slice:
			if v.Len == nil || v.Arr < 0 && !x.St.F.EqInt(rows, I(0)) || !x.St.F.EqInt(v.Len, rows) {
				why = append(why, "the length need not be right")
				continue
			}
			if v.Arr < 0 {
				continue
			}
			i := S(Int, "i")
			t := x.St.Clone()
			t.F.Add(GeL(i), Lt(i, rows))
			if t.F.Inconsistent() {
				continue
			}
			in.Read(t, in.SliceContent(t, v), []*Poly{i}, func(u *interp.State, e *Poly) {
				if len(why) == 0 && !u.F.Inconsistent() && !u.F.EqElem(e, want(i, I(0))) {
					why = append(why, wrongElement)
					if debug {
						fmt.Printf("  %s, not %s under %v\n", e, want(i, I(0)), u.F.Lits)
					}
				}
			})
		default:
			why = append(why, fmt.Sprintf("returns %v", v))
		}
	}
	if n == 0 {
		why = append(why, "never returns")
	}
	return
}

func tryExtract(h *host, filter string) {
	for _, f := range h.sortedFormats() {
		for _, name := range extractors {
			if fn, _ := h.Method(f, name); fn == nil || !strings.Contains(f.Obj().Name()+"."+name, filter) {
				continue
			}
			l, why := h.layoutOf(f)
			if l == nil {
				fmt.Println(f.Obj().Name(), why)
				continue
			}
			t0 := time.Now()
			w, in := h.extractCase(l, name, debugKernels != "")
			for _, x := range in.Problems {
				fmt.Println("  problem", x.Pos, x.Why)
			}
			fmt.Println(f.Obj().Name(), name, len(w), few(w), time.Since(t0))
		}
	}
}

func init() {
	rule := "extraction holds the elements taken"
	register(&Check{ID: "C17", Level: "proof", MinObs: 40,
		Rules: storageRule + "on every path the returned vector, array or matrix has the length or dimensions of what is extracted, its representation is well formed, the element at any position is the operand's element it stands for, and every non-zero element of the operand is in it; Clear leaves the dimensions and only zeros; no path panics for a row or column inside",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.storageJobs(r, rule, extractors, false, func(r *Report, l *layout, name, construct, pos string) {
				why, in := h.extractCase(l, name, false)
				_, why = split(why, func(w string) bool { return w == zeroStored })
				settle(r, in, rule, construct, pos, why, "length, elements and completeness of the result")
			})
		}})
}
