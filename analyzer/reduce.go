package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// A reduction is two sides of a protocol. The monoid's Reduce gets a channel of values and one that
// says there are no more, and gives back a channel with the result. The side that calls it hands over
// the values. Each is decided against the other's contract, with ghost cells: what the values handed
// over so far fold to.

type foldOp func(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly))

func opaqueOp(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly)) {
	k(st, Apply(Elem, "op", a, b))
}

func plus(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly)) {
	k(st, a.Add(b))
}
func times(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly)) {
	k(st, a.Mul(b))
}

// the order of elements is total: neither less is equal
func larger(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly)) {
	in.Decide(st, Lt(ord(a), ord(b)), func(s *interp.State) { k(s, b) }, func(s *interp.State) {
		in.Decide(s, Lt(ord(b), ord(a)), func(s *interp.State) { k(s, a) }, func(s *interp.State) {
			s.F.Add(EEqL(a.Sub(b)))
			k(s, a)
		})
	})
}

func smaller(in *interp.Interp, st *interp.State, a, b *Poly, k func(*interp.State, *Poly)) {
	larger(in, st, a, b, func(s *interp.State, w *Poly) {
		if w == a {
			k(s, b)
		} else {
			k(s, a)
		}
	})
}

var opsByName = map[string]foldOp{"Addition": plus, "Multiplication": times, "Maximum": larger, "Minimum": smaller}

// ghost is a cell of the analysis.
type foldGhost struct {
	in *interp.Interp
	id int
}

func (g foldGhost) get(st *interp.State, name string) *Poly {
	n, _ := st.Obj(g.id).Cells[name].(interp.Num)
	return n.P
}

func (g foldGhost) set(st *interp.State, name string, p *Poly) {
	g.in.SetCell(st, g.id, name, interp.Num{P: p})
}

func newFoldGhost(in *interp.Interp, st *interp.State, cells map[string]*Poly) foldGhost {
	m := map[string]interp.Val{}
	for k, v := range cells {
		m[k] = interp.Num{P: v}
	}
	return foldGhost{in, in.NewObj(st, &interp.Obj{Kind: interp.Cells, Type: types.NewStruct(nil, nil), Cells: m, Name: "ghost"})}
}

// notes are findings, each once.
type notes struct {
	in *interp.Interp // none are made while it works out what holds in a loop
	l  []string
}

func (n *notes) add(format string, a ...any) {
	if n.in != nil && n.in.Trying() {
		return
	}
	s := fmt.Sprintf(format, a...)
	for _, x := range n.l {
		if x == s {
			return
		}
	}
	n.l = append(n.l, s)
}

// foldCase decides whether Reduce of a monoid answers with the fold of the values it gets from the unit.
func (h *host) foldCase(in *interp.Interp, st *interp.State, monoid interp.Val, unit *Poly, op foldOp) (why []string, n int) {
	out := notes{in: in}
	if in.OnOpaque == nil {
		in.OrdElems = true
	}
	done := in.NewObj(st, &interp.Obj{Kind: interp.ChanO, Name: "done"})
	slice := in.NewObj(st, &interp.Obj{Kind: interp.ChanO, Name: "values"})
	g := newFoldGhost(in, st, map[string]*Poly{".spec": unit, ".done": I(0)})
	recv := 0
	take := func(s *interp.State, site ssa.Instruction, k func(*interp.State, interp.Val)) {
		if !s.F.EqInt(g.get(s, ".done"), I(0)) {
			out.add("%s: waits for a value after there are no more", h.Pos(site))
			return
		}
		v := SA(Elem, fmt.Sprintf("value@%s", h.Pos(site)), s.Params...)
		op(in, s, g.get(s, ".spec"), P(v), func(s *interp.State, w *Poly) {
			g.set(s, ".spec", w)
			recv++
			k(s, interp.Num{P: P(v)})
		})
	}
	end := func(s *interp.State, site ssa.Instruction, k func(*interp.State, interp.Val)) {
		if !s.F.EqInt(g.get(s, ".done"), I(0)) {
			out.add("%s: waits for the end twice", h.Pos(site))
			return
		}
		g.set(s, ".done", I(1))
		k(s, interp.StructV{})
	}
	in.OnSelect = func(s *interp.State, site *ssa.Select, chans []interp.Val, k func(*interp.State, int, interp.Val)) bool {
		var vi, di = -1, -1
		for i, c := range chans {
			p, ok := c.(interp.Ptr)
			if !ok || site.States[i].Dir != types.RecvOnly || p.Obj != done && p.Obj != slice {
				return false
			}
			if p.Obj == done {
				di = i
			} else {
				vi = i
			}
		}
		if di < 0 || vi < 0 || !site.Blocking {
			return false
		}
		if in.Goro == nil {
			out.add("%s: waits for values before it has returned", h.Pos(site))
			return true
		}
		in.Decide(s, Truth(Pred("another@"+h.Pos(site), s.Params...)), func(s *interp.State) {
			take(s, site, func(s *interp.State, v interp.Val) { k(s, vi, v) })
		}, func(s *interp.State) {
			end(s, site, func(s *interp.State, v interp.Val) { k(s, di, v) })
		})
		return true
	}
	in.OnRecv = func(s *interp.State, site ssa.Instruction, ch int, k func(*interp.State, interp.Val)) bool {
		switch ch {
		case slice:
			out.add("%s: waits for a value when there may be no more", h.Pos(site))
			return true
		case done:
			out.add("%s: waits for the end when there may be more values", h.Pos(site))
			return true
		}
		return false
	}
	in.OnSend = func(s *interp.State, site ssa.Instruction, ch int, v interp.Val, k func(*interp.State)) bool {
		if ch == slice || ch == done {
			out.add("%s: sends on a channel it was given", h.Pos(site))
			return true
		}
		if !s.F.EqInt(g.get(s, ".done"), I(1)) {
			out.add("%s: answers before there are no more values", h.Pos(site))
		}
		if in.Goro == nil && !s.Obj(ch).Buffered {
			out.add("%s: answers before it has returned", h.Pos(site))
		}
		return false
	}
	in.OnClose = func(s *interp.State, site ssa.Instruction, ch int, k func(*interp.State)) bool {
		if ch == slice || ch == done {
			out.add("%s: closes a channel it was given", h.Pos(site))
			return true
		}
		return false
	}
	defer func() { in.OnSelect, in.OnRecv, in.OnSend, in.OnClose = nil, nil, nil, nil }()
	in.Invoke(st, nil, monoid, "Reduce", []interp.Val{interp.Ptr{Obj: done}, interp.Ptr{Obj: slice}}, func(s *interp.State, vals []interp.Val) {
		if s.F.Inconsistent() {
			return
		}
		n++
		if len(vals) != 1 {
			out.add("returns no channel")
			return
		}
		p, ok := vals[0].(interp.Ptr)
		if !ok || s.Obj(p.Obj) == nil || s.Obj(p.Obj).Kind != interp.ChanO {
			out.add("returns no channel")
			return
		}
		q := s.Obj(p.Obj).Queue
		if len(q) != 1 {
			out.add("answers %d times", len(q))
			return
		}
		v, ok := q[0].(interp.Num)
		if !ok || !s.F.EqElem(v.P, g.get(s, ".spec")) {
			out.add("answers %v, which need not be the fold of the values received from the unit (%v)", q[0], g.get(s, ".spec"))
		}
	})
	if n == 0 && len(in.Problems) == 0 {
		out.add("never answers")
	}
	if recv == 0 && len(in.Problems) == 0 {
		out.add("takes no values")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			out.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return out.l, n
}

// monoidT is the interface of monoids.
func (h *host) monoidT() *types.Named {
	for name := range h.p.Pkgs {
		n := h.p.named(name, "MonoID")
		if n != nil && types.IsInterface(n) {
			return n
		}
	}
	return nil
}

// feedCase decides whether a reduction hands each stored element its mask does not cover to the
// monoid, once, and gives back what that answers.
// The monoid is a parameter, or (own) one the function makes itself, which has to be judged.
func (h *host) feedCase(fn *ssa.Function, vec, sparse bool, masked string, own func(in *interp.Interp, st *interp.State, monoid interp.Val) string, debug bool) (shape, fold []string, in *interp.Interp, returns int) {
	in = interp.New(h)
	in.Debug = debug
	st := in.NewState()
	bad := notes{in: in}
	src := in.NewMat(st, "S", sparse, vec)
	var mask interp.Val = interp.NilV{}
	maskID := 0
	if masked != "" {
		maskID = in.NewMat(st, "K", masked == "sparse", false)
		mask = interp.Ptr{Obj: maskID}
	}
	unit := S(Elem, "unit")
	g := newFoldGhost(in, st, map[string]*Poly{".acc": unit, ".spec": unit, ".done": I(0), ".taken": I(0), ".reducing": I(0)})
	M := interp.Opaque{Name: "monoid"}
	values, end, out := 0, 0, 0
	chans := map[int]string{}
	who := map[ssa.Instruction]bool{}
	reduce := func(s *interp.State, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		d, ok1 := args[0].(interp.Ptr)
		v, ok2 := args[1].(interp.Ptr)
		if !ok1 || !ok2 || !s.F.EqInt(g.get(s, ".reducing"), I(0)) {
			bad.add("the monoid is asked to reduce more than once, or unknown channels")
			return true
		}
		if s.Obj(v.Obj).Buffered {
			bad.add("the values are buffered: the end can overtake them")
		}
		g.set(s, ".reducing", I(1))
		s.Tags["begun"] = interp.NilV{}
		values, end = v.Obj, d.Obj
		out = in.NewObj(s, &interp.Obj{Kind: interp.ChanO, Name: "answer"})
		chans[values], chans[end], chans[out] = "values", "end", "answer"
		k(s, []interp.Val{interp.Ptr{Obj: out}})
		return true
	}
	in.OnOpaque = func(in *interp.Interp, s *interp.State, o interp.Opaque, method string, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		switch {
		case o != M:
			return false
		case method == "Zero":
			k(s, []interp.Val{interp.Num{P: unit}})
			return true
		}
		return method == "Reduce" && len(args) == 2 && reduce(s, args, k)
	}
	if own != nil {
		in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, fn *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
			if !h.isReduce(fn) || len(args) != 3 {
				return false
			}
			if why := own(in, s, interp.Iface{T: fn.Signature.Recv().Type(), V: args[0]}); why != "" {
				bad.add("%s", why)
			}
			return reduce(s, args[1:], k)
		}
	}
	finish := func(s *interp.State, site ssa.Instruction) bool {
		who[in.Goro] = true
		if !s.F.EqInt(g.get(s, ".done"), I(0)) {
			return false
		}
		g.set(s, ".done", I(1))
		return true
	}
	in.OnSend = func(s *interp.State, site ssa.Instruction, ch int, v interp.Val, k func(*interp.State)) bool {
		switch chans[ch] {
		case "values":
			who[in.Goro] = true
			x, ok := v.(interp.Num)
			if !ok {
				return false
			}
			if !s.F.EqInt(g.get(s, ".done"), I(0)) {
				bad.add("%s: hands over a value after the end", h.Pos(site))
				return true
			}
			opaqueOp(in, s, g.get(s, ".acc"), x.P, func(s *interp.State, w *Poly) {
				g.set(s, ".acc", w)
				k(s)
			})
			return true
		case "end":
			if !finish(s, site) {
				bad.add("%s: says twice that there are no more values", h.Pos(site))
				return true
			}
			k(s)
			return true
		}
		return false
	}
	in.OnClose = func(s *interp.State, site ssa.Instruction, ch int, k func(*interp.State)) bool {
		if s.Tags["panicking"] != nil {
			k(s)
			return true
		}
		switch chans[ch] {
		case "values":
			if !s.F.EqInt(g.get(s, ".taken"), I(1)) {
				bad.add("%s: closes the channel of values before the answer", h.Pos(site))
				return true
			}
			k(s)
			return true
		case "end":
			// a close after the answer is nobody's business any more
			if !s.F.EqInt(g.get(s, ".taken"), I(1)) && !finish(s, site) {
				bad.add("%s: says twice that there are no more values", h.Pos(site))
				return true
			}
			k(s)
			return true
		}
		return false
	}
	in.OnRecv = func(s *interp.State, site ssa.Instruction, ch int, k func(*interp.State, interp.Val)) bool {
		if chans[ch] != "answer" {
			return false
		}
		if !s.F.EqInt(g.get(s, ".done"), I(1)) {
			bad.add("%s: waits for the answer although there may be more values", h.Pos(site))
			return true
		}
		g.set(s, ".taken", I(1))
		k(s, interp.Num{P: g.get(s, ".acc")})
		return true
	}
	in.OnNext = func(s *interp.State, site ssa.Instruction, iter int, r, c, v *Poly, k func(*interp.State)) {
		if s.Obj(iter).Mat != src {
			k(s)
			return
		}
		take := func(s *interp.State) {
			opaqueOp(in, s, g.get(s, ".spec"), v, func(s *interp.State, w *Poly) {
				g.set(s, ".spec", w)
				k(s)
			})
		}
		if maskID == 0 {
			take(s)
			return
		}
		in.Read(s, s.Obj(maskID).C, []*Poly{r, c}, func(s *interp.State, m *Poly) {
			in.Decide(s, ENeL(m), k, take)
		})
	}
	var agree []Lit
	o := st.Obj(src)
	if maskID != 0 {
		m := st.Obj(maskID)
		agree = []Lit{Same(m.Rows, o.Rows), Same(m.Cols, o.Cols)}
	}
	sh := notes{in: in}
	args := []interp.Val{interp.CtxV{}, interp.Ptr{Obj: src}, M, mask}
	if own != nil {
		args = append(args[:2:2], mask)
	}
	for _, r := range in.Run(st, fn, args, nil) {
		if r.St.F.Inconsistent() {
			continue
		}
		returns++
		for _, l := range agree {
			if !r.St.F.Entails(l) {
				sh.add("returns although not %s", l)
			}
		}
		v, ok := r.Vals[0].(interp.Num)
		if !ok {
			bad.add("returns %v", r.Vals[0])
			continue
		}
		if !r.St.F.EqElem(v.P, g.get(r.St, ".spec")) {
			bad.add("returns %v, not the fold of the elements enumerated that the mask does not cover", v.P)
		}
		its := 0
		for _, id := range r.St.IDs() {
			if x := r.St.Obj(id); x.Kind == interp.Iter && x.Mat == src {
				its++
				if !r.St.F.EqInt(x.Pos, x.Count) {
					bad.add("returns before every element was enumerated")
				}
			}
		}
		if its != 1 {
			bad.add("the elements are enumerated %d times", its)
		}
	}
	if len(who) > 1 {
		bad.add("the values and the end are sent by different goroutines")
	}
	for _, p := range in.Panics {
		if p.St.F.Inconsistent() {
			continue
		}
		if len(agree) > 0 && p.St.F.Contradicts(agree...) {
			continue
		}
		sh.add("%s: can panic for a mask of the operand's shape: %s", p.Pos, p.Why)
	}
	if returns == 0 && len(in.Problems) == 0 {
		bad.add("never returns")
	}
	return sh.l, bad.l, in, returns
}

type feed struct {
	name           string
	vec, sparse    bool
	mask           string
	shape, content []string
	begun          []string // panics after goroutines have begun
}

// begunPanics are the panics that can happen after goroutines have been started.
func begunPanics(in *interp.Interp) (l []string) {
	n := notes{in: in}
	for _, p := range in.Panics {
		if p.St.Tags["begun"] != nil && !p.St.F.Inconsistent() {
			n.add("%s: can panic once goroutines run: %s", p.Pos, p.Why)
		}
	}
	return n.l
}

func feeds() (l []feed) {
	for _, vec := range []bool{false, true} {
		for _, sparse := range []bool{true, false} {
			for _, m := range []string{"", "dense", "sparse"} {
				f := feed{vec: vec, sparse: sparse, mask: m}
				what := "matrix"
				if vec {
					what = "vector"
				}
				s := "dense "
				if sparse {
					s = "sparse "
				}
				k := ""
				if m != "" {
					k = ", " + m + " mask"
				}
				f.name = "(" + s + what + k + ")"
				l = append(l, f)
			}
		}
	}
	return
}

// reducing are the functions that give back what is asked for, from a context, a matrix or vector and
// what the types say.
func (h *host) reducing(result func(t types.Type) bool, params ...func(t types.Type) bool) (l []*ssa.Function) {
	for _, pkg := range h.p.Pkgs {
		for _, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Object() == nil {
				continue
			}
			ps, rs := fn.Signature.Params(), fn.Signature.Results()
			if ps.Len() != 2+len(params) || rs.Len() != 1 || !result(rs.At(0).Type()) || !h.isMat(ps.At(1).Type()) {
				continue
			}
			for i, p := range params {
				if !p(ps.At(2 + i).Type()) {
					ok = false
				}
			}
			if ok {
				l = append(l, fn)
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l
}

func isElem(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func (h *host) isMonoid(t types.Type) bool {
	mt := h.monoidT()
	return mt != nil && isNamed(t, mt)
}

func (h *host) isMask(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Mask"
}

func (h *host) isMat(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Enumerate")
	return o != nil
}

// isReduce reports whether the function is the Reduce of a monoid.
func (h *host) isReduce(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	if rv == nil || fn.Name() != "Reduce" {
		return false
	}
	z, _, _ := types.LookupFieldOrMethod(rv.Type(), true, fn.Object().Pkg(), "Zero")
	return z != nil
}

func (h *host) reducers() []*ssa.Function { return h.reducing(isElem, h.isMonoid, h.isMask) }

func isNamed(t types.Type, n *types.Named) bool {
	m, ok := types.Unalias(t).(*types.Named)
	return ok && m.Origin() == n.Origin()
}

// feedJobs runs the cases of the functions that reduce to an element.
func (h *host) feedJobs(r *Report, rule string, keep func(f feed) bool, judge func(f feed) []string, ok string) {
	given := h.reducers()
	own := h.reducing(isElem, h.isMask)
	if len(given) == 0 || len(own) == 0 {
		r.Undecided(rule, "reductions", "", "no function reduces to an element")
	}
	for i, fn := range append(given, own...) {
		fn := fn
		var judgeOwn func(in *interp.Interp, st *interp.State, m interp.Val) string
		if i >= len(given) {
			judgeOwn = func(in *interp.Interp, st *interp.State, m interp.Val) string {
				return strings.Join(h.isFold(in, st, m, C(Elem, 0), plus), "; ")
			}
		}
		onlyVec := h.isVecT(fn.Signature.Params().At(1).Type())
		for _, f := range feeds() {
			f := f
			if !keep(f) || onlyVec && !f.vec {
				continue
			}
			name := fn.Name() + f.name
			r.Job(rule, name, func(r *Report) {
				shape, content, in, n := h.feedCase(body(fn), f.vec, f.sparse, f.mask, judgeOwn, false)
				f.shape, f.content, f.begun = shape, content, begunPanics(in)
				r.Count("returns_examined", n)
				settle(r, in, rule, name, h.p.pos(fn.Pos()), judge(f), ok)
			})
		}
	}
}

// isFold reports what is wrong with a monoid found in another run.
func (h *host) isFold(other *interp.Interp, st *interp.State, m interp.Val, unit *Poly, op foldOp) []string {
	in := interp.New(h)
	in.After(other)
	if unit == nil {
		f, ok := m.(interp.Iface)
		if !ok {
			return []string{"it is not known"}
		}
		for _, z := range in.Method(st.Clone(), f, "Zero", nil) {
			if v, ok := z.Vals[0].(interp.Num); ok {
				unit = v.P
			}
		}
		if unit == nil {
			return []string{"its unit is not known"}
		}
	}
	why, _ := h.foldCase(in, st.Clone(), m, unit, op)
	for _, p := range in.Problems {
		why = append(why, p.Pos+": "+p.Why)
	}
	return why
}

// columnsCase decides whether a function that reduces to a vector reduces every column.
func (h *host) columnsCase(fn *ssa.Function, sparse, masked bool, given bool) (dims, content []string, in *interp.Interp) {
	in = interp.New(h)
	st := in.NewState()
	bad, dim := notes{in: in}, notes{in: in}
	src := in.NewMat(st, "S", sparse, false)
	var mask interp.Val = interp.NilV{}
	if masked {
		mask = interp.Ptr{Obj: in.NewMat(st, "K", true, false)}
	}
	in.OrdElems = !given
	M := interp.Opaque{Name: "monoid"}
	so := st.Obj(src)
	x := S(Int, "x")
	in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, fn *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		if len(args) != 4 {
			return false
		}
		is := false
		for _, g := range h.reducers() {
			if body(g) == body(fn) {
				is = true
			}
		}
		if !is {
			return false
		}
		if given && args[2] != interp.Val(M) {
			bad.add("%s: reduces with another monoid", h.Pos(site))
		}
		if !given {
			for _, w := range h.isFold(in, s, args[2], nil, larger) {
				bad.add("%s: reduces with a monoid that is not the maximum: %s", h.Pos(site), w)
			}
		}
		if args[3] != mask {
			bad.add("%s: reduces with another mask", h.Pos(site))
		}
		v := args[1]
		for {
			i, ok := v.(interp.Iface)
			if !ok {
				break
			}
			v = i.V
		}
		p, ok := v.(interp.Ptr)
		var o *interp.Obj
		if ok {
			o = s.Obj(p.Obj)
		}
		if o == nil || o.Kind != interp.Mat || len(o.C.Layers) > 0 {
			bad.add("%s: reduces %v", h.Pos(site), args[1])
			return true
		}
		// the column it is
		e := o.C.Base.Subst(Subst{B0a: x, B1a: I(0)})
		a := e.AsAtom()
		if !o.Vec || a == nil || len(a.Args) < 2 || so.C.Base.Subst(Subst{B0a: x, B1a: a.Args[1]}) != e || !s.F.EqInt(o.Rows, so.Rows) {
			bad.add("%s: reduces something that is no column of the matrix", h.Pos(site))
			return true
		}
		k(s, []interp.Val{interp.Num{P: Apply(Elem, "reduced", a.Args[1])}})
		return true
	}
	args := []interp.Val{interp.CtxV{}, interp.Ptr{Obj: src}, M, mask}
	if !given {
		args = args[:2]
	}
	n := 0
	for _, r := range in.Run(st, fn, args, nil) {
		if r.St.F.Inconsistent() {
			continue
		}
		n++
		id, ok := in.MatrixOf(r.St, r.Vals[0])
		if !ok {
			bad.add("the result is not a matrix the analysis knows: %v", r.Vals[0])
			continue
		}
		o := r.St.Obj(id)
		if !r.St.F.EqInt(o.Rows, so.Cols) || !r.St.F.EqInt(o.Cols, I(1)) {
			dim.add("the result has %s entries, not one per column", o.Rows)
		}
		s := r.St.Clone()
		i := S(Int, "i")
		s.F.Add(GeL(i), Lt(i, so.Cols))
		in.Read(s, o.C, []*Poly{i, I(0)}, func(s *interp.State, v *Poly) {
			if !s.F.EqElem(v, Apply(Elem, "reduced", i)) {
				bad.add("the entry of column i is %s", v)
			}
		})
	}
	if n == 0 && len(in.Problems) == 0 {
		bad.add("never returns")
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return dim.l, bad.l, in
}

// isVecT reports whether an interface type is one of vectors.
func (h *host) isVecT(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "AtVec")
	if o == nil {
		o, _, _ = types.LookupFieldOrMethod(t, true, nil, "Length")
	}
	return o != nil
}

// columnJobs runs the cases of the functions that reduce to a vector.
func (h *host) columnJobs(r *Report, rule string, judge func(dims, content []string) []string, ok string) {
	given := h.reducing(h.isVecT, h.isMonoid, h.isMask)
	own := h.reducing(h.isVecT)
	if len(given) == 0 || len(own) == 0 {
		r.Undecided(rule, "reductions to vectors", "", "no function reduces to a vector")
	}
	for i, fn := range append(given, own...) {
		fn := fn
		has := i < len(given)
		for _, c := range []struct {
			name           string
			sparse, masked bool
		}{{"(sparse)", true, false}, {"(dense)", false, false}, {"(sparse, mask)", true, true}, {"(dense, mask)", false, true}} {
			c := c
			if c.masked && !has {
				continue
			}
			r.Job(rule, fn.Name()+c.name, func(r *Report) {
				dims, content, in := h.columnsCase(body(fn), c.sparse, c.masked, has)
				settle(r, in, rule, fn.Name()+c.name, h.p.pos(fn.Pos()), judge(dims, content), ok)
			})
		}
	}
}

// monoidJobs checks the functions that make a monoid.
func (h *host) monoidJobs(r *Report, rule, unitRule string) {
	made := 0
	for _, pkg := range h.p.Pkgs {
		for _, m := range pkg.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 || !h.isMonoid(fn.Signature.Results().At(0).Type()) {
				continue
			}
			made++
			pos := h.p.pos(fn.Pos())
			name := fn.Pkg.Pkg.Name() + "." + fn.Name()
			switch fn.Signature.Params().Len() {
			case 0:
				var op foldOp
				for n, f := range opsByName {
					if strings.HasSuffix(fn.Name(), n) {
						op = f
					}
				}
				if op == nil {
					r.Undecided(rule, name, pos, "the analysis knows no operator of that name")
					continue
				}
				r.Job(rule, name, func(r *Report) { h.ownMonoid(r, rule, unitRule, name, pos, body(fn), op) })
			default:
				r.Job(rule, name, func(r *Report) { h.givenMonoid(r, rule, name, pos, fn) })
			}
		}
	}
	if made < 2 {
		r.Undecided(rule, "monoids", "", "only %d functions make monoids", made)
	}
}

func (h *host) givenMonoid(r *Report, rule, name, pos string, fn *ssa.Function) {
	in := interp.New(h)
	st := in.NewState()
	unit := S(Elem, "unit")
	var args []interp.Val
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if isElem(ps.At(i).Type()) {
			args = append(args, interp.Num{P: unit})
		} else {
			args = append(args, interp.OpV{F: interp.FuncSym{Name: "op", Sort: Elem}})
		}
	}
	var why []string
	k := 0
	for _, ret := range in.Run(st, body(fn), args, nil) {
		k++
		why = append(why, h.isFold(in, ret.St, ret.Vals[0], unit, opaqueOp)...)
		f, ok := ret.Vals[0].(interp.Iface)
		if !ok {
			why = append(why, fmt.Sprintf("returns %v", ret.Vals[0]))
			continue
		}
		for _, z := range in.Method(ret.St.Clone(), f, "Zero", nil) {
			if v, ok := z.Vals[0].(interp.Num); !ok || v.P != unit {
				why = append(why, fmt.Sprintf("Zero is %v, not the unit given", z.Vals[0]))
			}
		}
	}
	if k == 0 && len(in.Problems) == 0 {
		why = append(why, "never returns")
	}
	settle(r, in, rule, name, pos, why, "Reduce answers with the fold of what it receives from the unit given")
}

func (h *host) ownMonoid(r *Report, rule, unitRule, name, pos string, fn *ssa.Function, op foldOp) {
	in := interp.New(h)
	in.OrdElems = true
	st := in.NewState()
	var why, unitWhy []string
	k := 0
	for _, ret := range in.Run(st, fn, nil, nil) {
		f, ok := ret.Vals[0].(interp.Iface)
		if !ok {
			why = append(why, fmt.Sprintf("returns %v", ret.Vals[0]))
			continue
		}
		for _, z := range in.Method(ret.St.Clone(), f, "Zero", nil) {
			k++
			unit, ok := z.Vals[0].(interp.Num)
			if !ok {
				why = append(why, fmt.Sprintf("Zero is %v", z.Vals[0]))
				continue
			}
			why = append(why, h.isFold(in, ret.St, ret.Vals[0], unit.P, op)...)
			x := S(Elem, "x")
			op(in, z.St.Clone(), unit.P, x, func(s *interp.State, v *Poly) {
				if !s.F.EqElem(v, x) && !s.F.Inconsistent() {
					unitWhy = append(unitWhy, fmt.Sprintf("combining the unit %s with x can give %s, not x", unit.P, v))
				}
			})
		}
	}
	if k == 0 && len(in.Problems) == 0 {
		why = append(why, "never returns")
	}
	settle(r, in, rule, name, pos, why, "Reduce answers with the fold of what it receives by the operator it is named after")
	settle(r, in, unitRule, name, pos, unitWhy, "the unit is the operator's identity")
}

func init() {
	register(&Check{ID: "C20", Level: "proof", MinObs: 40,
		Rules: kernelRule + "a monoid's Reduce, given channels of values and of the end by an environment that behaves in every possible way, answers once, after the end, with a cell that at every point equals the ghost fold of the values received; a reduction, given a monoid that behaves like that, hands over each element enumerated that the mask does not cover, once and before the end, and returns the answer; the unit of each ready-made monoid is an identity of its operator",
		Run: func(r *Report) {
			h := newHost(r, r.Prog)
			h.monoidJobs(r, "monoid-fold", "monoid-unit")
			h.feedJobs(r, "reduction-feed", func(f feed) bool { return true }, func(f feed) []string { return f.content }, "the answer is the fold of every element the mask does not cover")
			h.columnJobs(r, "reduction-columns", func(dims, content []string) []string { return content }, "the entry of each column is its reduction")
		}})
}
