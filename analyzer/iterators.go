package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// iterator infers what holds of an iterator that has visited p of the n elements of its matrix, and
// checks that a step visits the next one. The state of the iterator is the integers reachable from it.
type iterator struct {
	h     *host
	l     *layout
	maps  bool // Map rather than Enumerate
	order int  // dense: 0 row by row, 1 column by column
	debug bool

	in     *interp.Interp
	s      *stored
	st0    *interp.State // before the call
	tmpl   *interp.State // after it, with its facts dropped
	iface  interp.Iface
	cells  []itCell
	live   []*Poly // the integers a step depends on
	invs   []Clause
	why    []string
	rounds int
	nCands int
}

// itCell is a number of the iterator.
type itCell struct {
	key  string
	obj  int
	path string
	sym  *Atom
}

func (z *iterator) bad(format string, a ...any) {
	z.why = append(z.why, fmt.Sprintf(format, a...))
}

// walk lists the cells of the objects reachable from a value, by the way they are reached.
func walk(in *interp.Interp, st *interp.State, v interp.Val, key string, seen map[int]bool, f func(key string, obj int, path string, v interp.Val)) {
	switch v := v.(type) {
	case interp.Iface:
		walk(in, st, v.V, key, seen, f)
	case interp.Ptr:
		o := st.Obj(v.Obj)
		if o == nil || o.Old || seen[v.Obj] || o.Kind != interp.Cells || o.Type == nil {
			return
		}
		seen[v.Obj] = true
		structFields(o.Type, "", func(path string, t types.Type) {
			x := in.Cell(st, v.Obj, path, t)
			f(key+path, v.Obj, path, x)
			walk(in, st, x, key+path+"*", seen, f)
		})
	}
}

var ghost = S(Int, "p")

func (z *iterator) check() {
	h := z.h
	z.in = interp.New(h)
	in := z.in
	in.Debug = false
	in.NoTwin = func(name string) bool {
		return name == "Enumerate" || name == "Map" || h.sparse[z.l.f] && (name == "Set" || name == "Update" || name == "SetVec" || strings.HasSuffix(name, "ReturnPointer"))
	}
	z.st0 = in.NewState()
	z.s = h.newStored(in, z.st0, z.l, "S", true)
	z.st0.F.Add(GeL(ghost), Le(ghost, z.s.n))
	name := "Enumerate"
	if z.maps {
		name = "Map"
	}
	rets, ok := z.s.call(in, z.st0.Clone(), name)
	if !ok {
		z.bad("the method does not exist")
		return
	}
	z.panics("making the iterator", ghost)
	var live []interp.Return
	for _, x := range rets {
		if !x.St.F.Inconsistent() {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		z.bad("never returns an iterator")
		return
	}
	if !z.template(live[0]) {
		return
	}
	z.prune()
	// invariants: stage by stage, what holds initially and is kept by a step
	for stage := 0; stage < 2; stage++ {
		cands := z.candidates(stage)
		z.nCands += len(cands)
		var keep []Clause
		for _, c := range cands {
			ok := true
			for _, x := range live {
				if !z.holds(x.St, x.Vals[0], c, I(0)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		old := z.invs
		for {
			z.rounds++
			z.invs = append(old[:len(old):len(old)], keep...)
			steps := z.step(true)
			if z.debug {
				fmt.Printf("  stage %d: %d candidates, %d steps\n", stage, len(keep), len(steps))
			}
			var next []Clause
			for _, c := range keep {
				ok := true
				for _, b := range steps {
					if !z.holds(b.st, z.iface, c, b.p) {
						ok = false
						break
					}
				}
				if ok {
					next = append(next, c)
				}
			}
			same := len(next) == len(keep)
			keep = next
			if same {
				break
			}
		}
		z.invs = append(old[:len(old):len(old)], keep...)
	}
	if z.debug {
		for _, c := range z.start().F.Clauses {
			fmt.Println("  inv", c)
		}
		for _, l := range z.start().F.Lits {
			fmt.Println("  inv", l)
		}
	}
	// the initial state and what else the iterator holds
	for _, x := range live {
		z.others(x.St, x.Vals[0], "the iterators made on different paths differ")
	}
	z.hasNext()
	in.Debug = z.debug
	for _, b := range z.step(false) {
		z.others(b.st, z.iface, "a step changes what the iterator refers to")
	}
}

// template turns what the call returned into an iterator in any state.
func (z *iterator) template(x interp.Return) bool {
	v, ok := x.Vals[0].(interp.Iface)
	if !ok {
		z.bad("the iterator returned is %v", x.Vals[0])
		return false
	}
	z.iface = v
	z.tmpl = x.St.Clone()
	z.tmpl.F = z.st0.F.Clone()
	walk(z.in, z.tmpl, v, "", map[int]bool{}, func(key string, obj int, path string, v interp.Val) {
		if n, ok := v.(interp.Num); ok {
			z.cells = append(z.cells, itCell{key, obj, path, SA(n.P.Sort, "it"+key)})
		}
	})
	for _, c := range z.cells {
		z.in.SetCell(z.tmpl, c.obj, c.path, interp.Num{P: P(c.sym)})
	}
	return true
}

// start is the iterator with p elements visited, as far as the invariants say.
func (z *iterator) start() *interp.State {
	st := z.tmpl.Clone()
	z.lemmas(st)
	for _, c := range z.invs {
		if !interp.EntailsClause(st.F, c) {
			st.F.AddClause(c)
		}
	}
	return st
}

// lemmas adds facts of arithmetic about products with the dimensions.
func (z *iterator) lemmas(st *interp.State) {
	if z.l.data == "" {
		return
	}
	lemma := func(x, n, m *Poly) { // x >= n or (n-1-x)m >= 0; x <= n-1 or (x-n)m >= 0
		st.F.AddClause(Clause{{GeL(x.Sub(n))}, {GeL(n.AddC(-1).Sub(x).Mul(m))}})
		st.F.AddClause(Clause{{Lt(x, n)}, {GeL(x.Sub(n).Mul(m))}})
	}
	for _, c := range z.cells {
		if c.sym.Sort != Int {
			continue
		}
		x := P(c.sym)
		for _, d := range []int64{0, 1} {
			lemma(x.AddC(d), z.s.rows, z.s.cols)
			lemma(x.AddC(d), z.s.cols, z.s.rows)
		}
	}
}

// value finds the numbers of the iterator in a state.
func (z *iterator) numbers(st *interp.State, v interp.Val) map[string]*Poly {
	m := map[string]*Poly{}
	walk(z.in, st, v, "", map[int]bool{}, func(key string, obj int, path string, v interp.Val) {
		if n, ok := v.(interp.Num); ok {
			m[key] = n.P
		}
	})
	return m
}

// others checks what is not a number.
func (z *iterator) others(st *interp.State, v interp.Val, why string) {
	a, b := map[string]interp.Val{}, map[string]interp.Val{}
	collect := func(m map[string]interp.Val) func(key string, obj int, path string, v interp.Val) {
		return func(key string, obj int, path string, v interp.Val) {
			if _, ok := v.(interp.Num); ok {
				m[key] = interp.NilV{}
				return
			}
			if p, ok := v.(interp.Ptr); ok {
				if o := st.Obj(p.Obj); o != nil && !o.Old {
					m[key] = interp.NilV{}
					return
				}
			}
			m[key] = v
		}
	}
	walk(z.in, z.tmpl, z.iface, "", map[int]bool{}, collect(a))
	walk(z.in, st, v, "", map[int]bool{}, collect(b))
	for k, x := range a {
		if y, ok := b[k]; !ok || !interp.SameVal(x, y) {
			z.bad("%s (%s)", why, k)
			return
		}
	}
	if len(a) != len(b) {
		z.bad("%s", why)
	}
}

// holds reports whether a clause holds of the iterator in a state, with p elements visited.
func (z *iterator) holds(st *interp.State, v interp.Val, c Clause, p *Poly) bool {
	sub := Subst{ghost.AsAtom(): p}
	m := z.numbers(st, v)
	for _, x := range z.cells {
		if m[x.key] == nil {
			return false
		}
		sub[x.sym] = m[x.key]
	}
	s := z.s
	if s.h.sparse[s.l.f] {
		sl := s.slice(st, s.l.vals)
		if sl.Len == nil {
			return false
		}
		sub[s.n.AsAtom()] = sl.Len
	}
	// reads of the arrays
	var sels []*Atom
	seen := map[*Atom]bool{}
	for _, d := range c {
		for _, l := range d {
			for _, a := range l.Atoms() {
				if !seen[a] && a.Kind == Sel && a.Sort == Int && strings.HasPrefix(a.Name, s.base+".") {
					seen[a] = true
					sels = append(sels, a)
				}
			}
		}
	}
	ok := true
	var rec func(st *interp.State, i int)
	rec = func(st *interp.State, i int) {
		if !ok {
			return
		}
		if i == len(sels) {
			ok = interp.EntailsClause(st.F, c.Subst(sub))
			return
		}
		a := sels[i]
		path := s.l.idx
		if a.Name == s.base+".start" {
			path = s.l.starts
		}
		at := a.Args[0].Subst(sub)
		sl := s.slice(st, path)
		if sl.Len == nil {
			ok = false
			return
		}
		s.reads(z.in, st, []access{{path, []*Poly{at}}}, func(u *interp.State, v []*Poly) {
			old, had := sub[a]
			sub[a] = v[0]
			rec(u, i+1)
			if had {
				sub[a] = old
			} else {
				delete(sub, a)
			}
		})
	}
	rec(st.Clone(), 0)
	return ok
}

// candidates are the clauses that may be invariant.
func (z *iterator) candidates(stage int) (out []Clause) {
	s := z.s
	seen := map[string]bool{}
	add := func(c Clause) {
		k := c.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	fields := z.live
	pool := append([]*Poly{ghost, I(0), s.rows, s.n}, fields...)
	if !s.l.vec {
		pool = append(pool, s.cols)
	}
	cmp := func(x, y *Poly, ds []int64, guard Clause) {
		for _, d := range ds {
			add(append(guard[:len(guard):len(guard)], []Lit{Same(x, y.AddC(d))}))
		}
		for _, d := range ds {
			add(append(guard[:len(guard):len(guard)], []Lit{GeL(x.Sub(y).AddC(d))}))
			add(append(guard[:len(guard):len(guard)], []Lit{GeL(y.Sub(x).AddC(d))}))
		}
	}
	near := []int64{0, -1, 1}
	switch stage {
	case 0:
		for i, x := range fields {
			for j, y := range pool {
				if y != x && (j < 4 || j >= 4+len(fields) || i < j-4) {
					cmp(x, y, near, nil)
				}
			}
		}
		if s.l.data != "" {
			for _, x := range fields {
				for _, y := range fields {
					if x != y {
						for _, d := range near {
							add(Clause{{Same(ghost, x.AddC(d).Mul(s.cols).Add(y))}})
							add(Clause{{Same(ghost, x.AddC(d).Mul(s.rows).Add(y))}})
						}
					}
				}
			}
		}
		if s.l.starts == "" {
			return
		}
		for _, x := range fields {
			for _, d := range []int64{0, 1} {
				e := s.st(x.AddC(d))
				for _, y := range pool[:1] {
					cmp(e, y, near[:1], nil)
					cmp(e, y, near[:1], Clause{{Lt(x.AddC(d), I(0))}})
				}
				for _, y := range fields {
					if y != x {
						cmp(e, y, near[:1], nil)
						cmp(e, y, near[:1], Clause{{Lt(x.AddC(d), I(0))}})
					}
				}
			}
		}
	case 1:
		if s.l.idx == "" {
			return nil
		}
		guards := append(z.branches(), Clause{{GeL(ghost.Sub(s.n))}})
		for _, x := range append([]*Poly{ghost}, fields...) {
			for _, y := range fields {
				if x == y {
					continue
				}
				for _, g := range guards {
					if len(g[0]) == 1 {
						cmp(s.at(x), y, near[:1], g)
					}
				}
			}
		}
		// the end of the row or column it is in
		for _, x := range fields {
			for _, c := range z.invs {
				if interp.LoopSeen == nil {
					break // only the progress of its loops depends on it
				}
				if len(c) != 1 || len(c[0]) != 1 || c[0][0].Op != Eq || !c[0][0].Has(x.AsAtom()) || !hasSel(c[0][0].P) {
					continue
				}
				for _, y := range fields {
					if y != x {
						cmp(s.at(ghost), y, near[:1], Clause{{GeL(ghost.Sub(x))}})
					}
				}
				break
			}
		}
	}
	return
}

// branches are the conditions on the state of the iterator a step decides by, and their negations.
func (z *iterator) branches() (out []Clause) {
	mine := map[*Atom]bool{ghost.AsAtom(): true}
	for _, c := range z.cells {
		mine[c.sym] = true
	}
	seen := map[Lit]bool{}
	for _, b := range z.step(true) {
		for _, l := range b.st.Path {
			if l.P == nil || l.P.Sort != Int {
				continue
			}
			ok := true
			for _, a := range l.P.Atoms() {
				ok = ok && mine[a]
			}
			for _, g := range []Lit{l, l.Not()} {
				if ok && !seen[g] {
					seen[g] = true
					out = append(out, Clause{{g}})
				}
			}
		}
	}
	return
}

// prune drops the cells that a step does not read before it writes them.
func (z *iterator) prune() {
	used := map[*Atom]bool{}
	z.in.OnLoad = func(v interp.Val) {
		var see func(v interp.Val)
		see = func(v interp.Val) {
			switch v := v.(type) {
			case interp.Num:
				for _, c := range z.cells {
					if v.P != nil && v.P.Has(c.sym) {
						used[c.sym] = true
					}
				}
			case interp.StructV:
				for _, x := range v.F {
					see(x)
				}
			}
		}
		see(v)
	}
	z.step(true)
	z.in.Method(z.start(), z.iface, "HasNext", nil)
	z.in.OnLoad = nil
	z.live = nil
	for _, c := range z.cells {
		if used[c.sym] && c.sym.Sort == Int {
			z.live = append(z.live, P(c.sym))
		}
	}
}

// after is a state a step leads to.
type after struct {
	st *interp.State
	p  *Poly
}

// panics reports panics of a part.
func (z *iterator) panics(what string, _ *Poly) {
	for _, p := range z.in.Panics {
		if !p.St.F.Inconsistent() {
			z.bad("%s: %s panics: %s", p.Pos, what, p.Why)
		}
	}
	z.in.Panics = nil
}

// mute drops what was reported, for trial runs.
func (z *iterator) reset() {
	z.in.Panics = nil
	z.in.Problems = nil
	z.in.OnCall = nil
}

// step interprets a step of an iterator that has an element left.
func (z *iterator) step(trial bool) (out []after) {
	in, s := z.in, z.s
	in.Probing = trial
	defer func() { in.Probing = false }()
	st := z.start()
	st.F.Add(Lt(ghost, s.n))
	z.reset()
	type visit struct{ r, c, v *Poly }
	right := func(st *interp.State, r, c, v *Poly) bool {
		if r == nil || c == nil || v == nil {
			return false
		}
		f := st.F
		switch {
		case s.h.sparse[s.l.f]:
			mj, mn := r, c
			if s.l.major == 1 {
				mj, mn = c, r
			}
			major, _ := s.dims()
			if s.l.vec {
				return f.EqInt(s.at(ghost), r) && f.EqInt(c, I(0)) && f.EqElem(v, s.val(ghost))
			}
			return f.EntailsAll([]Lit{GeL(mj), Lt(mj, major), Le(s.st(mj), ghost), Lt(ghost, s.st(mj.AddC(1)))}) && f.EqInt(s.at(ghost), mn) && f.EqElem(v, s.val(ghost))
		case s.l.data != "":
			where := r.Mul(s.cols).Add(c)
			if z.order == 1 {
				where = c.Mul(s.rows).Add(r)
			}
			return f.EntailsAll([]Lit{GeL(r), Lt(r, s.rows), GeL(c), Lt(c, s.cols)}) && f.EqInt(where, ghost) && f.EqElem(v, s.elem(r, c))
		}
		return f.EqInt(r, ghost) && f.EqInt(c, I(0)) && f.EqElem(v, s.val(ghost))
	}
	numOf := func(v interp.Val) *Poly {
		n, _ := v.(interp.Num)
		return n.P
	}
	name := "Next"
	var args []interp.Val
	if z.maps {
		name = "Map"
		args = []interp.Val{interp.FuncSym{Name: "f", Sort: Elem}}
		in.OnCall = func(st *interp.State, _ ssa.Instruction, _ interp.FuncSym, args []interp.Val) {
			if st.Tags["visit"] != nil {
				if !trial {
					z.bad("the function is called twice in a step")
				}
				return
			}
			if len(args) != 3 {
				return
			}
			r, c, v := numOf(args[0]), numOf(args[1]), numOf(args[2])
			if !trial && !st.F.Inconsistent() && !right(st, r, c, v) {
				z.bad("the function may be given another row, column or value than those of the next element")
				if z.debug {
					fmt.Println("   ", r, c, v, "under", st.F.Lits)
				}
			}
			if r != nil && c != nil && v != nil {
				st.Tags["visit"] = interp.Tuple{interp.Num{P: r}, interp.Num{P: c}, interp.Num{P: v}}
			}
		}
	}
	rets := in.Method(st, z.iface, name, args)
	if !trial {
		z.panics("a step with an element left", ghost)
		if len(in.Problems) > 0 {
			return
		}
	}
	n := 0
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		n++
		if !z.maps {
			if len(x.Vals) != 3 || !right(x.St, numOf(x.Vals[0]), numOf(x.Vals[1]), numOf(x.Vals[2])) {
				if !trial {
					z.bad("a step need not return the row, column and value of the next element")
					if z.debug {
						fmt.Println("   ", x.Vals, "under", x.St.F.Lits)
					}
				}
			}
			out = append(out, after{x.St, ghost.AddC(1)})
			continue
		}
		t, ok := x.St.Tags["visit"].(interp.Tuple)
		if !ok {
			if !trial {
				z.bad("a step may not call the function")
			}
			continue
		}
		r, c, v := numOf(t[0]), numOf(t[1]), numOf(t[2])
		w := Apply(Elem, "f", r, c, v)
		if !trial {
			z.why = append(z.why, s.formed(in, x.St)...)
			z.why = append(z.why, s.changed(in, x.St, r, c, w)...)
		}
		p := ghost.AddC(1)
		if s.h.sparse[s.l.f] {
			l := s.slice(x.St, s.l.vals).Len
			switch {
			case l != nil && x.St.F.EqInt(l, s.n):
			case l != nil && x.St.F.EqInt(l, s.n.AddC(-1)):
				p = ghost
			default:
				if !trial {
					z.bad("a step need not keep the number of values or take away one")
				}
			}
		}
		out = append(out, after{x.St, p})
	}
	if n == 0 && !trial {
		z.bad("a step never returns")
	}
	return
}

// hasNext checks that the iterator says whether an element is left, and stays as it is.
func (z *iterator) hasNext() {
	z.reset()
	rets := z.in.Method(z.start(), z.iface, "HasNext", nil)
	z.panics("asking for a next element", ghost)
	if len(z.in.Problems) > 0 {
		return
	}
	for _, x := range rets {
		if x.St.F.Inconsistent() {
			continue
		}
		b, ok := x.Vals[0].(interp.BoolV)
		if !ok {
			z.bad("HasNext returns %v", x.Vals[0])
			return
		}
		for _, want := range tf {
			t := x.St.Clone()
			l, left := b.L, Lt(ghost, z.s.n)
			if !want {
				l, left = l.Not(), left.Not()
			}
			t.F.Add(l)
			if !t.F.Inconsistent() && !t.F.Entails(left) {
				z.bad("HasNext may be %v although that is wrong", want)
			}
		}
		for _, c := range z.invs {
			if !z.holds(x.St, z.iface, c, ghost) {
				z.bad("HasNext changes the iterator")
				break
			}
		}
		z.others(x.St, z.iface, "HasNext changes what the iterator refers to")
	}
}

// iterate checks the iterator of a format.
func (h *host) iterate(l *layout, maps, debug bool) *iterator {
	var z *iterator
	orders := 1
	if l.data != "" {
		orders = 2
	}
	for o := 0; o < orders; o++ {
		y := &iterator{h: h, l: l, maps: maps, order: o, debug: debug}
		y.check()
		if z == nil || len(y.why) == 0 && len(y.in.Problems) == 0 {
			z = y
		}
		if len(z.why) == 0 && len(z.in.Problems) == 0 {
			break
		}
	}
	return z
}

func tryIterators(h *host, filter string) {
	for _, f := range h.sortedFormats() {
		for _, name := range []string{"Enumerate", "Map"} {
			if fn, _ := h.Method(f, name); fn == nil || !strings.Contains(f.Obj().Name()+"."+name, filter) {
				continue
			}
			l, why := h.layoutOf(f)
			if l == nil {
				fmt.Println(f.Obj().Name(), why)
				continue
			}
			t0 := time.Now()
			z := h.iterate(l, name == "Map", debugKernels != "")
			for _, x := range z.in.Problems {
				fmt.Println("  problem", x.Pos, x.Why)
			}
			fmt.Println(f.Obj().Name(), name, len(z.why), few(z.why), "cands", z.nCands, "invs", len(z.invs), "rounds", z.rounds, time.Since(t0))
		}
	}
}

// iteratorJobs makes a job for the iterators of every format.
func (h *host) iteratorJobs(r *Report, rule string, names []string, sparseOnly bool, keep func(why string) bool, ok string) {
	h.storageJobs(r, rule, names, sparseOnly, func(r *Report, l *layout, name, construct, pos string) {
		z := h.iterate(l, name == "Map", false)
		r.Count("invariants", len(z.invs))
		r.Count("invariant_candidates", z.nCands)
		why, _ := split(z.why, keep)
		settle(r, z.in, rule, construct, pos, why, ok)
	})
}

func init() {
	rule := "every element is visited once"
	register(&Check{ID: "C16", Level: "proof", MinObs: 12,
		Rules: storageRule + "an invariant of the iterator that has visited p of n elements is inferred: it holds of the iterator returned, with p=0; HasNext is p<n; from a state with p<n a step visits exactly element p (in storage order, or row by row or column by column of a dense format) with its own row, column and value, without a panic, and reaches the state with p+1; Map calls the function once with them, leaves the matrix well formed with the function's result at the position and the other elements unchanged, and reaches the state with p+1, or with p when the element was removed",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.iteratorJobs(r, rule, []string{"Enumerate", "Map"}, false, func(w string) bool { return w != zeroStored }, "holds initially, kept by every step")
		}})
}

func hasSel(p *Poly) bool {
	for _, a := range p.Atoms() {
		if a.Kind == Sel {
			return true
		}
	}
	return false
}
