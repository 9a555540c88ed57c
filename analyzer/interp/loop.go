package interp

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// loopAt is the natural loop with that header, or nil.
func (in *Interp) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loop {
	m, ok := in.loops[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loop{}
		for _, x := range fn.Blocks {
			for _, s := range x.Succs {
				if !s.Dominates(x) {
					continue
				}
				l := m[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var walk func(y *ssa.BasicBlock)
				walk = func(y *ssa.BasicBlock) {
					if l.blocks[y] {
						return
					}
					l.blocks[y] = true
					for _, p := range y.Preds {
						walk(p)
					}
				}
				walk(x)
			}
		}
		in.loops[fn] = m
	}
	return m[b]
}

const maxUnroll = 24

// constTrip evaluates the condition of the header if nothing but arithmetic comes before it, and
// reports which way the branch goes if the condition is a constant.
func (in *Interp) constTrip(st *State, fr *frame, l *loop) (taken int, ok bool) {
	s := st.Clone()
	m := in.mute
	in.mute++
	defer func() { in.mute = m }()
	for _, x := range l.header.Instrs[firstNonPhi(l.header):] {
		switch x := x.(type) {
		case *ssa.If:
			c, isB := in.val(s, fr, x.Cond).(BoolV)
			if _, counts := x.Cond.(*ssa.BinOp); !isB || !counts {
				return 0, false // no counter decides it
			}
			switch c.L.Op {
			case Yes:
				return 0, true
			case No:
				return 1, true
			}
			return 0, false
		case *ssa.BinOp, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.UnOp:
		case *ssa.Call:
			b, isB := x.Call.Value.(*ssa.Builtin)
			if !isB || b.Name() != "len" {
				return 0, false
			}
		default:
			return 0, false
		}
		n := 0
		in.instr(s, fr, x, func(a *State, v Val) {
			n++
			if a == s && v != nil {
				s.set(fr.id, x.(ssa.Value), v)
			}
		})
		if n != 1 {
			return 0, false
		}
	}
	return 0, false
}

func (in *Interp) setPhis(st *State, fr *frame, b *ssa.BasicBlock, vals []Val) {
	for i, v := range vals {
		st.set(fr.id, b.Instrs[i].(*ssa.Phi), v)
	}
}

func (in *Interp) summarise(st *State, fr *frame, l *loop, prev *ssa.BasicBlock, hk *hook, k cont) {
	in.enterLoop(st, fr, l, in.phiVals(st, fr, l.header, prev), hk, k, 0)
}

func (in *Interp) enterLoop(st *State, fr *frame, l *loop, init []Val, hk *hook, k cont, n int) {
	in.setPhis(st, fr, l.header, init)
	if _, ok := in.constTrip(st, fr, l); ok && n < maxUnroll {
		h := &hook{l: l, fr: fr, up: hk}
		if st.stop.under {
			st.stop = st.stop.push(mark{header: l.header})
			in.cancelNote(l.header, "")
		}
		h.back = func(s *State, from *ssa.BasicBlock) {
			in.goesRound(s, l.header)
			in.over(s, l.header, nil)
			in.enterLoop(s, fr, l, in.phiVals(s, fr, l.header, from), hk, k, n+1)
		}
		h.exit = func(s *State, from, to *ssa.BasicBlock) {
			if in.mute == 0 && !in.Probing {
				seen(l.header, true, "")
			}
			in.over(s, l.header, nil)
			in.runBlock(s, fr, to, from, hk, k)
		}
		in.runInstrs(st, fr, l.header, firstNonPhi(l.header), h, k)
		return
	}
	z := &summary{in: in, st: st, fr: fr, l: l, hk: hk, k: k, init: init}
	z.run()
}

// variable is something a loop changes: a phi, or a cell, or the position of an iterator.
type variable struct {
	phi    int // index, or -1
	obj    int
	path   string
	pos    bool // the position of an iterator
	init   Val
	sort   Sort
	sym    *Atom     // its value at the start of iteration k, when it has no closed form
	closed *Poly     // its value at the start of iteration k
	opaque bool      // not a number: unknown inside the loop
	noInc  bool      // a closed form did not hold
	same   *variable // it always has the value of this one
	noSame bool      // it did not
	val    Val       // value it is given in an iteration
	rep    int       // the object that stands for those it points to
	owned  bool      // no other variable points to them
	grown  bool      // a slice that becomes another array: rep stands for them, and has what is in it
	length *variable // the length of that slice
	cap    *Poly     // its capacity
	slice  *variable // the slice that this is the length of
}

type content struct {
	obj    int
	rep    *variable // the variable that points to it
	rowlen bool
	same   *content // it always equals this one
	tried  map[*content]bool
	supp   *content // it is zero where this one is
	tried2 map[*content]bool
	init   *Content
	closed *Content // nil: opaque
	failed bool
	name   string
	why    string
}

type summary struct {
	in   *Interp
	st   *State
	fr   *frame
	l    *loop
	hk   *hook
	k    cont
	init []Val

	name     string
	ka       *Atom
	kp       *Poly
	vars     []*variable
	conts    []*content
	invs     []Clause
	prefix   [][]Lit // literals that hold on every way round the loop: one conjunction
	common   []Lit
	qcommon  []*Quant // what holds in every iteration, quantified
	conds    []*cond
	backs    []backState
	fatal    string
	liftObj  int // an object to treat as a matrix from the start
	liftFmt  *types.Named
	n0       int // length of Path at the start
	outerLen int
}

type backState struct {
	st   *State
	phis []Val
	path []Lit
}

func (z *summary) run() {
	in := z.in
	in.Loops++
	z.name = in.freshName(z.st, "k", z.l.header.Instrs[0])
	z.ka = SA(Int, z.name, z.st.Params...)
	NonNeg[z.name] = true
	if z.l.exits() > 1 {
		if in.innerVars == nil {
			in.innerVars = map[string]bool{}
		}
		in.innerVars[z.name] = true
	}
	z.kp = P(z.ka)
	z.outerLen = len(z.st.Params)
	z.n0 = len(z.st.Path)
	for i, v := range z.init {
		z.vars = append(z.vars, z.newVar(&variable{phi: i, init: v}))
	}
	in.mute++
	mutedN := len(in.muted)
	// what the loop changes
	for round := 0; round < 8; round++ {
		z.pass()
		grew := z.discover()
		if z.liftObj != 0 {
			// the body treats it as a matrix: it is one from the start
			in.mute--
			in.muted = in.muted[:mutedN]
			in.lift(z.st, z.l.header.Instrs[0], z.liftObj, z.liftFmt, func(s *State) {
				y := &summary{in: in, st: s, fr: z.fr, l: z.l, hk: z.hk, k: z.k, init: z.init}
				y.run()
			})
			return
		}
		if !grew {
			break
		}
		if round == 7 {
			z.fatal = "what the loop changes does not settle"
		}
	}
	// closed forms of integers, then of elements and contents
	z.guessInts()
	z.houdini(true)
	for round := 0; ; round++ {
		if round == 60 {
			z.fatal = "the loop's closed forms do not settle"
			break
		}
		z.pass()
		if !z.dropWrongInts() {
			break
		}
		z.houdini(true)
	}
	z.guessElems()
	z.guessSame()
	z.guessContents()
	// until closed forms and invariants hold together
	for round := 0; ; round++ {
		if round == 60 {
			z.fatal = "the loop's closed forms do not settle"
			break
		}
		z.pass()
		if z.verify() {
			if round == 0 {
				z.houdini(false)
			}
			continue
		}
		n := len(z.invs)
		z.houdini(false)
		if round > 0 && len(z.invs) == n || n == 0 && len(z.invs) == 0 {
			break
		}
	}
	z.pass()
	for _, v := range z.vars {
		for _, b := range z.backs {
			if v.grown {
				if !z.newArray(v, b) {
					z.fatal = "a variable changes to a slice of something that is not new"
				}
				continue
			}
			if v.rep != 0 && !z.newGuise(v, b, b.phis[v.phi]) {
				z.fatal = "a variable changes to point to something that is not new"
			}
			for _, w := range z.vars {
				if v.owned && v.rep != 0 && w != v && !w.grown && w.rep != 0 && unwrap(b.phis[v.phi]) == unwrap(b.phis[w.phi]) {
					z.fatal = "two variables come to point to the same"
				}
			}
		}
	}
	z.collectCommon()
	in.mute--
	in.muted = in.muted[:mutedN]
	if z.fatal != "" {
		if in.mute == 0 && !in.Probing {
			seen(z.l.header, false, z.fatal)
		}
		in.problem(z.st, z.l.header.Instrs[0], "%s", z.fatal)
		return
	}
	if in.mute == 0 && LoopSeen != nil && !in.Probing {
		if z.l.waits() || z.progress() {
			seen(z.l.header, true, "")
		} else {
			seen(z.l.header, false, "no measure is found that every iteration lessens")
		}
	}
	if in.Debug && in.mute == 0 {
		z.dump()
	}
	if in.OnLoad != nil && LoopSeen != nil {
		// what a variable of the loop starts with may be read in it
		for _, v := range z.vars {
			if v.phi < 0 && v.closed == nil && v.same == nil {
				in.OnLoad(v.init)
			}
		}
	}
	// the final pass: once more through the body, with what is known, following the exits
	s := z.start(true)
	if CancelSeen != nil && s.stop.under {
		in.cancelNote(z.l.header, "")
	}
	h := &hook{l: z.l, fr: z.fr, up: z.hk}
	h.back = func(s *State, _ *ssa.BasicBlock) { in.goesRound(s, z.l.header) }
	h.exit = func(s *State, from, to *ssa.BasicBlock) { z.leave(s, from, to) }
	in.runInstrs(s, z.fr, z.l.header, firstNonPhi(z.l.header), h, z.k)
}

func (z *summary) dump() {
	fmt.Printf("loop %s in %s at %s\n", z.name, z.fr.fn.Name(), z.in.pos(z.l.header.Instrs[len(z.l.header.Instrs)-1]))
	for _, v := range z.vars {
		fmt.Printf("  var phi=%d obj=%d%s pos=%v init=%v closed=%v sym=%v opaque=%v\n", v.phi, v.obj, v.path, v.pos, v.init, v.closed, v.sym, v.opaque)
	}
	for _, c := range z.conts {
		fmt.Printf("  content obj=%d %s rowlen=%v failed=%v %s\n     init %v\n     closed %v\n", c.obj, z.st.Obj(c.obj).Name, c.rowlen, c.failed, c.why, c.init, c.closed)
	}
	for _, c := range z.invs {
		fmt.Printf("  inv %s\n", c)
	}
	fmt.Printf("  common %v; back paths %d\n", z.common, len(z.backs))
	for _, q := range z.qcommon {
		fmt.Printf("  always %s\n", q)
	}
	for _, m := range z.in.muted {
		fmt.Println("  muted:", m)
	}
}

func (z *summary) newVar(v *variable) *variable {
	n, ok := v.init.(Num)
	if !ok {
		v.opaque = true
		return v
	}
	v.sort = n.P.Sort
	id := fmt.Sprintf("v%d.%d%s%v", v.phi, v.obj, v.path, v.pos)
	if z.in.innerVars == nil {
		z.in.innerVars = map[string]bool{}
	}
	z.in.innerVars[z.name+id] = true
	v.sym = SA(v.sort, z.name+id, append(z.st.Params[:z.outerLen:z.outerLen], z.kp)...)
	return v
}

// value is the value of the variable at the start of iteration k.
func (z *summary) value(v *variable) Val {
	if v.grown {
		return Slice{Arr: v.rep, Off: I(0), Len: z.value(v.length).(Num).P, Cap: v.cap}
	}
	if v.opaque {
		if v.val != nil {
			return v.val
		}
		return v.init
	}
	if v.closed != nil {
		return Num{v.closed}
	}
	if v.same != nil {
		return z.value(v.same)
	}
	return Num{P(v.sym)}
}

// start is the state at the start of iteration k.
func (z *summary) start(final bool) *State {
	in := z.in
	s := z.st.Clone()
	s.Params = append(s.Params[:len(s.Params):len(s.Params)], z.kp)
	s.F.Add(GeL(z.kp))
	if s.stop.under {
		s.stop = s.stop.push(mark{header: z.l.header})
	}
	for _, v := range z.vars {
		x := z.value(v)
		if v.grown {
			n := x.(Slice).Len
			s.F.Add(GeL(n), Le(n, v.cap))
			o := s.Obj(v.rep).clone()
			o.Len, o.Grown = v.cap, n
			s.putObj(v.rep, o)
		}
		switch {
		case v.slice != nil:
		case v.phi >= 0:
			s.set(z.fr.id, z.l.header.Instrs[v.phi].(*ssa.Phi), x)
		case v.pos:
			o := s.Obj(v.obj).clone()
			o.Pos = x.(Num).P
			s.setObj(v.obj, o)
		default:
			s.setObj(v.obj, s.Obj(v.obj).withCell(v.path, x))
		}
	}
	for _, c := range z.conts {
		o := s.Obj(c.obj).clone()
		x := c.closed
		if x == nil {
			x = z.opaque(c, o)
			if c.same != nil {
				x = z.opaque(c.same, o)
			}
		}
		if c.rowlen {
			o.RowLen = x
		} else {
			o.C = x
		}
		s.putObj(c.obj, o)
	}
	for _, c := range z.conts {
		if c.supp == nil || c.closed != nil {
			continue
		}
		// zero at the same places
		v := []*Atom{Fresh(Int, "x"), Fresh(Int, "y")}
		at := Subst{B0a: P(v[0]), B1a: P(v[1])}
		x, y := s.Obj(c.obj).C.Base.Subst(at), s.Obj(c.supp.obj).C.Base.Subst(at)
		for _, t := range []*Poly{x, y} {
			if a := t.AsAtom(); a != nil {
				s.F.AddQuant(&Quant{Vars: v, Trig: []*Atom{a}, Body: Clause{{EEqL(x), EEqL(y)}, {EEqL(x).Not(), EEqL(y).Not()}}, New: true})
			}
		}
	}
	for _, c := range z.invs {
		s.F.AddClause(c)
	}
	if len(z.common) > 0 {
		// linear inequalities apart from what is about elements
		var prev, elems []Lit
		sub := Subst{z.ka: z.kp.AddC(-1)}
		for _, l := range z.common {
			l = l.Subst(sub)
			if l.Op == Ge || l.Op == Eq {
				prev = append(prev, l)
			} else {
				elems = append(elems, l)
			}
		}
		s.F.AddClause(Clause{{EqL(z.kp)}, append(prev, GeL(z.kp.AddC(-1)))})
		if len(elems) > 0 {
			s.F.AddClause(Clause{{EqL(z.kp)}, elems})
		}
	}
	_ = in
	return s
}

func (z *summary) opaque(c *content, o *Obj) *Content {
	sort := o.Sort
	if c.rowlen {
		sort = Int
	}
	args := append(append([]*Poly{}, z.st.Params[:z.outerLen]...), z.kp, B0)
	if o.Kind == Arr2 && !c.rowlen || o.Kind == Mat {
		args = append(args, B1)
	}
	return &Content{Base: Apply(sort, c.name, args...)}
}

// pass runs one iteration and collects the states at its back edges.
func (z *summary) pass() {
	z.backs = nil
	s := z.start(false)
	h := &hook{l: z.l, fr: z.fr, up: nil}
	h.back = func(b *State, from *ssa.BasicBlock) {
		if b.F.Inconsistent() {
			return
		}
		path := append([]Lit{}, b.Path[z.n0:]...)
		for i, l := range path {
			// a number that is not zero, and on one side of it
			if l.Op == Ne && l.Has(z.ka) {
				if b.F.Entails(GeL(l.P)) {
					path[i] = GeL(l.P.AddC(-1))
				} else if b.F.Entails(GeL(l.P.Neg())) {
					path[i] = GeL(l.P.Neg().AddC(-1))
				}
			}
		}
		z.backs = append(z.backs, backState{b, z.in.phiVals(b, z.fr, z.l.header, from), path})
	}
	h.exit = func(*State, *ssa.BasicBlock, *ssa.BasicBlock) {}
	z.in.runInstrs(s, z.fr, z.l.header, firstNonPhi(z.l.header), h, func(*State, []Val) {})
}

// backVal is the value of the variable at a back edge.
func (z *summary) backVal(b backState, v *variable) Val {
	switch {
	case v.phi >= 0:
		return b.phis[v.phi]
	case v.slice != nil:
		if s, ok := z.backVal(b, v.slice).(Slice); ok {
			return Num{s.Len}
		}
		return nil
	case v.pos:
		return Num{b.st.Obj(v.obj).Pos}
	}
	o := b.st.Obj(v.obj)
	if x, ok := o.Cells[v.path]; ok {
		return x
	}
	return nil
}

func (z *summary) hasVar(obj int, path string, pos bool) *variable {
	for _, v := range z.vars {
		if v.phi < 0 && v.obj == obj && v.path == path && v.pos == pos {
			return v
		}
	}
	return nil
}

func (z *summary) hasCont(obj int, rowlen bool) bool {
	for _, c := range z.conts {
		if c.obj == obj && c.rowlen == rowlen {
			return true
		}
	}
	return false
}

// discover adds what the back states changed to the variables and contents of the loop.
func (z *summary) discover() (grew bool) {
	s0 := z.start(false)
	if z.grow(s0) {
		return true
	}
	for _, b := range z.backs {
		if len(b.st.lent) != len(s0.lent) {
			z.fatal = "goroutines are started in the loop"
		}
		if b.st.race != s0.race {
			z.st.race = b.st.race
		}
		for i := range z.init {
			// variables that exchange what they point to
			if v, w := z.vars[i], z.vars[i]; v.opaque && v.val == nil && !sameVal(b.phis[i], v.init) {
				if p, ok := unwrap(b.phis[i]).(Ptr); ok && p.Path == "" {
					for _, w = range z.vars[:len(z.init)] {
						if q, ok := unwrap(w.init).(Ptr); ok && w != v && q == p && w.val == nil {
							w.owned, v.owned = true, true
						}
					}
				}
			}
		}
		for i := range z.init {
			v := z.vars[i]
			if v.opaque && v.val == nil && (v.owned || !sameVal(b.phis[i], v.init)) {
				if !z.represent(v, b, b.phis[i]) {
					z.havocOther(v, b.phis[i])
				}
				grew = true
			}
		}
		for _, id := range sortedIDs(s0.heap) {
			o, n := s0.heap[id], b.st.heap[id]
			if n == nil || o == n {
				continue
			}
			if o.Kind == Cells && n.Kind == Mat && n.Fmt != nil {
				z.liftObj, z.liftFmt = id, n.Fmt
				continue
			}
			if o.Kind != n.Kind {
				z.fatal = "an object changes its kind in the loop"
				continue
			}
			if o.Kind == Cells {
				for _, p := range sortedCells(n.Cells) {
					x := n.Cells[p]
					y, ok := o.Cells[p]
					if !ok {
						y = z.in.loadCell(s0, o, p, typeAtOr(o, p))
					}
					if sameVal(x, y) {
						continue
					}
					v := z.hasVar(id, p, false)
					if v == nil {
						v = z.newVar(&variable{phi: -1, obj: id, path: p, init: y})
						z.vars = append(z.vars, v)
						grew = true
					}
					if v.opaque && v.val == nil {
						z.havocOther(v, x)
						grew = true
					}
				}
			}
			if o.Pos != n.Pos && z.hasVar(id, "", true) == nil {
				z.vars = append(z.vars, z.newVar(&variable{phi: -1, obj: id, pos: true, init: Num{o.Pos}}))
				grew = true
			}
			if o.C != n.C && !sameContent(o.C, n.C) && !z.hasCont(id, false) {
				z.conts = append(z.conts, &content{obj: id, init: z.st.Obj(id).C, name: z.in.contName(fmt.Sprintf("%sc%d", z.name, id))})
				grew = true
			}
			if o.RowLen != n.RowLen && !sameContent(o.RowLen, n.RowLen) && !z.hasCont(id, true) {
				z.conts = append(z.conts, &content{obj: id, rowlen: true, init: z.st.Obj(id).RowLen, name: z.in.contName(fmt.Sprintf("%sl%d", z.name, id))})
				grew = true
			}
			if o.FwdTo != n.FwdTo {
				z.fatal = "an array becomes a row of another in the loop"
			}
			if o.Closed != n.Closed {
				z.fatal = "a channel is closed in the loop"
			}
			if len(o.Queue) != len(n.Queue) {
				z.fatal = "a channel fills up in the loop"
			}
			changed := o.Kind == ValArr && len(o.Vals) != len(n.Vals)
			for i, v := range o.Vals {
				changed = changed || !sameVal(v, n.Vals[i])
			}
			if changed {
				z.fatal = "an array of other values is filled in the loop"
			}
			if o.Kind == MapO {
				z.fatal = "a map is changed in the loop"
			}
			if n.Shared != o.Shared {
				z.fatal = n.Shared
			}
		}
	}
	return grew
}

func typeAtOr(o *Obj, p string) types.Type { return typeAt(o.Type, p) }

// represent lets one matrix stand for those that a variable points to, one after the other, and none
// of which changes while the variable may point to it.
func (z *summary) represent(v *variable, b backState, now Val) bool {
	p, ok := unwrap(v.init).(Ptr)
	if !ok || p.Path != "" || z.st.Obj(p.Obj) == nil || z.st.Obj(p.Obj).Kind != Mat || z.st.Obj(p.Obj).Dead || !z.newGuise(v, b, now) {
		return false
	}
	o := z.st.Obj(p.Obj).clone()
	r := o.clone()
	o.Frozen, o.Dead = true, v.owned
	r.Frozen = !v.owned
	z.st.putObj(p.Obj, o)
	r.Name += " of a variable"
	v.rep = z.in.NewObj(z.st, r)
	v.val = Ptr{Obj: v.rep}
	if i, ok := v.init.(Iface); ok {
		v.val = Iface{T: i.T, V: v.val}
	}
	z.conts = append(z.conts, &content{obj: v.rep, rep: v, init: o.C, name: z.in.contName(fmt.Sprintf("%sc%d", z.name, v.rep))})
	return true
}

// newGuise reports whether what the variable points to at a back edge is another matrix, made in the
// iteration, of the same kind and dimensions.
func (z *summary) newGuise(v *variable, b backState, now Val) bool {
	if i, ok := v.init.(Iface); ok {
		// a matrix that is known by its contract says itself of what format it is
		if j, ok := now.(Iface); ok && !types.Identical(i.T, j.T) {
			return false
		}
	}
	p, ok := unwrap(now).(Ptr)
	if !ok || p.Path != "" {
		return false
	}
	if v.rep != 0 && p.Obj == v.rep {
		return true
	}
	if v.owned {
		for _, w := range z.vars[:len(z.init)] {
			if q, ok := unwrap(w.init).(Ptr); ok && w.owned && (q == p || w.rep == p.Obj) {
				n, o := z.st.Obj(q.Obj), z.st.Obj(unwrap(v.init).(Ptr).Obj)
				return n.Kind == Mat && o.Kind == Mat && n.Fmt == o.Fmt && n.Vec == o.Vec && n.Sparse == o.Sparse && n.Sort == o.Sort && n.MaskOnly == o.MaskOnly && z.st.F.EqInt(n.Rows, o.Rows) && z.st.F.EqInt(n.Cols, o.Cols)
			}
		}
	}
	n, o := b.st.Obj(p.Obj), z.st.Obj(unwrap(v.init).(Ptr).Obj)
	return n != nil && n.Kind == Mat && z.st.Obj(p.Obj) == nil && n.Fmt == o.Fmt && n.Vec == o.Vec && n.Sparse == o.Sparse && n.Sort == o.Sort && n.MaskOnly == o.MaskOnly && b.st.F.EqInt(n.Rows, o.Rows) && b.st.F.EqInt(n.Cols, o.Cols)
}

// grow lets an array stand for those that a slice is moved to as it grows.
func (z *summary) grow(s0 *State) bool {
	for _, b := range z.backs {
		for i, v := range z.vars[:len(z.init)] {
			if v.opaque && !v.grown && v.val == nil && !sameVal(b.phis[i], v.init) && z.regrow(v, b) {
				return true
			}
		}
		for _, id := range sortedIDs(s0.heap) {
			o, n := s0.heap[id], b.st.heap[id]
			if n == nil || o == n || o.Kind != Cells || n.Kind != Cells {
				continue
			}
			for _, p := range sortedCells(n.Cells) {
				if _, ok := n.Cells[p].(Slice); !ok || z.hasVar(id, p, false) != nil {
					continue
				}
				y, ok := o.Cells[p]
				if !ok {
					y = z.in.loadCell(s0, o, p, typeAtOr(o, p))
				}
				if sameVal(y, n.Cells[p]) {
					continue
				}
				v := z.newVar(&variable{phi: -1, obj: id, path: p, init: y})
				if z.regrow(v, b) {
					z.vars = append(z.vars, v)
					return true
				}
			}
		}
	}
	return false
}

func (z *summary) regrow(v *variable, b backState) bool {
	in := z.in
	s, ok := v.init.(Slice)
	if _, isNil := v.init.(NilV); isNil {
		s, ok = Slice{Arr: -1, Off: I(0), Len: I(0), Cap: I(0)}, true
	}
	now, ok2 := z.backVal(b, v).(Slice)
	if !ok || !ok2 || !z.newArray(v, b) {
		return false
	}
	n := b.st.Obj(in.resolve(b.st, now).Arr)
	r := &Obj{Kind: n.Kind, Name: "a slice that grows", Sort: n.Sort, Type: n.Type, C: &Content{Base: C(n.Sort, 0)}}
	if r.Kind == Arr2 {
		r.RowLen = &Content{Base: I(0)}
	}
	q := in.resolve(z.st, s)
	var old *Obj
	if q.Arr >= 0 {
		old = z.st.Obj(q.Arr)
		if old.Kind != r.Kind || q.Row != nil || old.Dead || r.Kind == Arr2 && old.Old {
			return false
		}
		r.C = old.C.Subst(Subst{B0a: B0.Add(q.Off)})
		if r.Kind == Arr2 {
			r.RowLen = old.RowLen.Subst(Subst{B0a: B0.Add(q.Off)})
			for _, x := range z.st.heap {
				if x != nil && x.FwdTo == q.Arr {
					return false
				}
			}
			r.Shared = old.Shared
			old = old.clone()
			old.Dead = true
			z.st.putObj(q.Arr, old)
			old = nil
		} else {
			r.Old = old.Old
		}
	}
	v.cap = S(Int, z.name+"cap"+fmt.Sprintf("%d.%d%s", v.phi, v.obj, v.path), append(z.st.Params[:z.outerLen:z.outerLen], z.kp)...)
	r.Len = s.Len
	if old != nil {
		// until it is moved it is the same
		r.Maybe = append(append(r.Maybe, old.Maybe...), q.Arr)
	}
	v.rep = in.NewObj(z.st, r)
	for _, m := range r.Maybe {
		x := z.st.Obj(m)
		if x == nil {
			continue
		}
		x = x.clone()
		x.Maybe = append(x.Maybe[:len(x.Maybe):len(x.Maybe)], v.rep)
		z.st.putObj(m, x)
	}
	v.grown, v.val = true, v.init
	v.length = z.newVar(&variable{phi: -1, obj: v.rep, path: "len", init: Num{s.Len}, slice: v})
	z.vars = append(z.vars, v.length)
	z.conts = append(z.conts, &content{obj: v.rep, rep: v, init: r.C, name: in.contName(fmt.Sprintf("%sc%d", z.name, v.rep))})
	if r.Kind == Arr2 {
		z.conts = append(z.conts, &content{obj: v.rep, rep: v, rowlen: true, init: r.RowLen, name: in.contName(fmt.Sprintf("%sl%d", z.name, v.rep))})
	}
	return true
}

// newArray reports whether the variable is, at a back edge, a slice of an array that no other is of.
func (z *summary) newArray(v *variable, b backState) bool {
	s, ok := z.backVal(b, v).(Slice)
	if !ok {
		return false
	}
	s = z.in.resolve(b.st, s)
	if s.Arr < 0 || s.Row != nil || b.st.Obj(s.Arr) == nil {
		return false
	}
	if o := b.st.Obj(s.Arr); o.Kind != Arr && o.Kind != Arr2 || o.Dead || v.grown && o.Kind != z.st.Obj(v.rep).Kind {
		return false
	}
	for _, w := range z.vars {
		if w != v && w.opaque {
			if t, ok := z.backVal(b, w).(Slice); ok && z.in.resolve(b.st, t).Arr == s.Arr {
				return false
			}
		}
	}
	return v.grown && s.Arr == v.rep || z.st.Obj(s.Arr) == nil
}

// havocOther gives a changed variable that is no number the most general value of its kind.
func (z *summary) havocOther(v *variable, now Val) {
	args := append(z.st.Params[:z.outerLen:z.outerLen], z.kp)
	id := fmt.Sprintf("%sb%d.%d%s", z.name, v.phi, v.obj, v.path)
	switch v.init.(type) {
	case BoolV:
		v.val = BoolV{Truth(Pred(id, args...))}
		return
	}
	v.val = Unknown{"changed in a loop"}
}

// loopSyms are the atoms that stand for unknown values at the start of an iteration.
func (z *summary) unknowns() []*Atom {
	var out []*Atom
	for _, v := range z.vars {
		if !v.opaque && v.closed == nil {
			out = append(out, v.sym)
		}
	}
	return out
}

func hasAny(p *Poly, as []*Atom) bool {
	for _, a := range as {
		if p.Has(a) {
			return true
		}
	}
	return false
}

func (z *summary) guessInts() {
	un := z.unknowns()
	for _, v := range z.vars {
		if v.opaque || v.sort != Int {
			continue
		}
		var d *Poly
		ok := len(z.backs) > 0
		for _, b := range z.backs {
			w, isN := z.backVal(b, v).(Num)
			if !isN {
				ok = false
				break
			}
			e := w.P.Sub(P(v.sym))
			if _, isC := e.IsConst(); !isC && (hasAny(e, un) || e.Has(z.ka)) {
				ok = false
				break
			}
			if d == nil {
				d = e
			} else if d != e {
				ok = false
				break
			}
		}
		if ok && d != nil && !v.noInc {
			v.closed = v.init.(Num).P.Add(d.Mul(z.kp))
		}
	}
}

// dropWrongInts gives up closed forms that do not hold after an iteration.
func (z *summary) dropWrongInts() (dropped bool) {
	next := Subst{z.ka: z.kp.AddC(1)}
	for _, v := range z.vars {
		if v.opaque || v.closed == nil || v.sort != Int {
			continue
		}
		for _, b := range z.backs {
			w, ok := z.backVal(b, v).(Num)
			if !ok || !b.st.F.EqInt(w.P, v.closed.Subst(next)) {
				v.closed, v.noInc = nil, true
				dropped = true
				break
			}
		}
	}
	return
}

func (z *summary) guessElems() {
	un := z.unknowns()
	if len(z.backs) == 0 {
		// never round
		for _, v := range z.vars {
			if !v.opaque && v.closed == nil && !v.noInc {
				v.closed = v.init.(Num).P
			}
		}
		return
	}
	for _, v := range z.vars {
		if v.opaque || v.sort != Elem || v.noInc {
			continue
		}
		var cand []*Poly
		for _, b := range z.backs {
			w, ok := z.backVal(b, v).(Num)
			if !ok {
				cand = nil
				break
			}
			cand = append(cand, w.P.Sub(P(v.sym)))
		}
		for _, d := range cand {
			if hasAny(d, un) || z.hasOpaque(d) {
				continue
			}
			good := true
			for i, b := range z.backs {
				if cand[i] != d && !b.st.F.EqElem(cand[i], d) {
					good = false
				}
			}
			if good {
				v.closed = v.init.(Num).P.Add(MkSum(I(0), z.kp, func(t *Poly) *Poly { return d.Subst(Subst{z.ka: t}) }))
				break
			}
		}
	}
}

// guessSame finds elements that always have the same value: all that begin alike, until proved otherwise.
func (z *summary) guessSame() {
	open := func(v *variable) bool { return !v.opaque && v.sort == Elem && v.closed == nil && v.same == nil }
	any := false
	for j, w := range z.vars {
		if !open(w) || w.noSame {
			continue
		}
		for _, v := range z.vars[:j] {
			if open(v) && v.init.(Num).P == w.init.(Num).P {
				w.same = v
				any = true
				break
			}
		}
	}
	for any {
		z.pass()
		if !z.verifySame() {
			break
		}
	}
}

func (z *summary) verifySame() (dropped bool) {
	for _, v := range z.vars {
		if v.same == nil {
			continue
		}
		for _, b := range z.backs {
			x, ok := z.backVal(b, v).(Num)
			y, ok2 := z.backVal(b, v.same).(Num)
			if !ok || !ok2 || !b.st.F.EqElem(x.P, y.P) {
				v.same, v.noSame = nil, true
				dropped = true
				break
			}
		}
	}
	return
}

// hasOpaque reports whether p reads a content that changes in the loop.
func (z *summary) hasOpaque(p *Poly) bool {
	for _, a := range p.Atoms() {
		for _, c := range z.conts {
			if a.Kind == App && a.Name == c.name {
				return true
			}
		}
	}
	return false
}

// backObj is the object of the content at a back edge; of one that grows, what is in use of it.
func (z *summary) backObj(b backState, c *content) *Obj {
	o := b.st.Obj(c.obj)
	if c.rep != nil && c.rep.grown {
		if s, ok := z.backVal(b, c.rep).(Slice); ok {
			o = o.clone()
			o.Len = s.Len
		}
	}
	return o
}

// newLayers are the layers of a back state's content on top of what it started the iteration with.
func (z *summary) backContent(b backState, c *content) *Content {
	o := b.st.Obj(c.obj)
	if c.rep != nil && c.rep.grown {
		if s, ok := z.backVal(b, c.rep).(Slice); ok {
			n := b.st.Obj(z.in.resolve(b.st, s).Arr)
			if n == nil || n.Kind != o.Kind {
				z.fatal = "a variable changes to a slice of something that is not new"
				return z.opaque(c, o)
			}
			o = n
			x := o.C
			if c.rowlen {
				x = o.RowLen
			}
			return x.Subst(Subst{B0a: B0.Add(s.Off)})
		}
	} else if c.rep != nil {
		if p, ok := unwrap(b.phis[c.rep.phi]).(Ptr); ok && b.st.Obj(p.Obj) != nil && b.st.Obj(p.Obj).Kind == Mat {
			return b.st.Obj(p.Obj).C
		}
	}
	if c.rowlen {
		return o.RowLen
	}
	return o.C
}

func commonLits(bs []backState) []Lit {
	if len(bs) == 0 {
		return nil
	}
	var out []Lit
	for _, l := range bs[0].path {
		all := true
		for _, b := range bs[1:] {
			has := false
			for _, m := range b.path {
				if m == l {
					has = true
				}
			}
			if !has {
				all = false
				break
			}
		}
		if all {
			out = append(out, l)
		}
	}
	return out
}

func without(ls, drop []Lit) []Lit {
	var out []Lit
	for _, l := range ls {
		has := false
		for _, d := range drop {
			if d == l {
				has = true
			}
		}
		if !has {
			out = append(out, l)
		}
	}
	return out
}

func (z *summary) guessContents() {
	if len(z.conts) == 0 {
		return
	}
	z.pass()
	common := commonLits(z.backs)
	for _, c := range z.conts {
		if c.failed {
			continue
		}
		type item struct {
			g    []Lit
			path []Lit
			v    *Poly
			b    int
		}
		var items []item
		maxLayers := 0
		for bi, b := range z.backs {
			bc := z.backContent(b, c)
			if a := bc.Base.AsAtom(); a == nil || a.Name != c.name {
				c.failed, c.why = true, "replaced in the loop"
				// by what it was?
				back := true
				for _, b := range z.backs {
					ok, _ := z.in.contentEq(b.st, z.backContent(b, c), c.init, z.backObj(b, c), nil)
					back = back && ok
				}
				if back {
					c.closed, c.failed = c.init, false
					break
				}
				// or by the same for every way round, of the iteration's number only
				for _, b := range z.backs {
					bd := z.backContent(b, c)
					back = len(bd.Layers) == 0 && bd.Base == bc.Base && !z.in.ofLoop(bd.Base) && !z.hasOpaque(bd.Base) && !hasAny(bd.Base, z.unknowns())
					if !back {
						break
					}
				}
				if back {
					c.closed, c.failed = c.init.with(Layer{[]Lit{GeL(z.kp.AddC(-1))}, bc.Base.Subst(Subst{z.ka: z.kp.AddC(-1)})}), false
				}
				break
			}
			if len(bc.Layers) > maxLayers {
				maxLayers = len(bc.Layers)
			}
			for _, ly := range bc.Layers {
				items = append(items, item{ly.Guard, without(b.path, common), ly.Val, bi})
			}
		}
		if c.failed || c.closed != nil {
			continue
		}
		// unify what different paths write to the same place
		var merged []item
		done := map[int]bool{}
		for i, it := range items {
			if done[i] {
				continue
			}
			same := []int{i}
			for j := i + 1; j < len(items); j++ {
				if !done[j] && items[j].b != it.b && guardKey(items[j].g) == guardKey(it.g) {
					same = append(same, j)
				}
			}
			unified := false
			for _, ci := range same {
				w := items[ci].v
				ok := true
				for bi, b := range z.backs {
					v := (*Poly)(nil)
					for _, j := range same {
						if items[j].b == bi {
							v = items[j].v
						}
					}
					if v == nil { // not written on this path
						if len(c.init.Layers) > 0 {
							ok = false
							break
						}
						v = c.init.Base
						if sub, good := solveIdx(it.g); good {
							v = v.Subst(sub)
						} else if _, isC := v.IsConst(); !isC {
							ok = false
							break
						}
					}
					if v != w && !eqPoly(b.st.F, v, w) {
						ok = false
						break
					}
				}
				if ok {
					merged = append(merged, item{it.g, nil, w, it.b})
					for _, j := range same {
						done[j] = true
					}
					unified = true
					break
				}
			}
			if !unified {
				done[i] = true
				merged = append(merged, it)
			}
		}
		closed := c.init
		if len(closed.Layers) == 0 && maxLayers == 1 {
			// what some paths write is there already
			n := 0
			for _, it := range merged {
				v := closed.Base
				if sub, good := solveIdx(it.g); good {
					v = v.Subst(sub)
				}
				if v != it.v {
					merged[n] = it
					n++
				}
			}
			if n > 0 {
				merged = merged[:n]
			}
		}
		for _, it := range merged {
			next, why := z.closeLayer(c, closed, it.g, it.path, it.v)
			if next == nil {
				c.failed, c.why = true, why
				break
			}
			closed = next
		}
		if !c.failed {
			c.closed = closed
		}
	}
}

func eqPoly(f *Facts, a, b *Poly) bool {
	if a.Sort == Int {
		return f.EqInt(a, b)
	}
	return f.EqElem(a, b)
}

func guardKey(g []Lit) string {
	var ks []string
	for _, l := range g {
		ks = append(ks, l.Key())
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// equalities adds to literals the equalities that opposite inequalities among them make.
func equalities(g []Lit) []Lit {
	for i, l := range g {
		for _, m := range g[:i] {
			if l.Op == Ge && m.Op == Ge && l.P.Add(m.P) == I(0) {
				g = append(g[:len(g):len(g)], EqL(l.P))
			}
		}
	}
	return g
}

// solveIdx reads the position off a guard that fixes it.
func solveIdx(g []Lit) (Subst, bool) {
	s := Subst{}
	for _, l := range g {
		if l.Op != Eq {
			continue
		}
		for _, b := range []*Atom{B0a, B1a} {
			if c, else_ := l.P.Coef(b); !else_ && (c == 1 || c == -1) && s[b] == nil {
				other := B1a
				if b == B1a {
					other = B0a
				}
				if !l.P.Has(other) {
					s[b] = l.P.Sub(P(b).Scale(c)).Scale(-c)
				}
			}
		}
	}
	return s, s[B0a] != nil
}

// closeLayer turns a layer written in iteration k into the layers left by all iterations before k.
func (z *summary) closeLayer(c *content, over *Content, guard, path []Lit, val *Poly) (*Content, string) {
	all := append(append([]Lit{}, guard...), path...)
	mentions := func(ls []Lit) bool {
		for _, l := range ls {
			if l.Has(z.ka) {
				return true
			}
		}
		return false
	}
	un := z.unknowns()
	if len(c.init.Layers) == 0 {
		// a place that no iteration has written yet holds what it held at the start
		for i, l := range all {
			sub := Subst{}
			for _, a := range l.Atoms() {
				if a.Kind == App && a.Name == c.name {
					sub[a] = c.init.Subst(z.placeOf(c, a)).Base
				}
			}
			if len(sub) > 0 {
				all[i] = l.Subst(sub)
			}
		}
		path = all[len(guard):]
	}
	for _, l := range all {
		for _, a := range un {
			if l.Has(a) {
				return nil, "the place written depends on " + a.String()
			}
		}
		if l.P != nil && z.hasOpaque(l.P) {
			return nil, "the place written depends on what is written"
		}
	}
	if hasAny(val, un) {
		return nil, "the value written has no closed form: " + val.String()
	}
	finish := func(g []Lit, v *Poly) (*Content, string) {
		// what the place held before: what it held at the start
		init := c.init
		if h := z.selfReads(c, v); len(h) > 0 {
			a := h[0]
			nidx := 1
			if z.twoDim(c) {
				nidx = 2
			}
			sub := Subst{B0a: a.Args[len(a.Args)-nidx]}
			if nidx == 2 {
				sub[B1a] = a.Args[len(a.Args)-1]
			}
			for _, b := range h[1:] {
				if b != a {
					return nil, "the value written combines several places"
				}
			}
			at := init.Subst(sub)
			return over.over(g, at.map1(func(p *Poly) *Poly { return v.Subst(Subst{a: p}) })), ""
		}
		return over.with(Layer{g, v}), ""
	}
	if !mentions(guard) {
		// the same place in every iteration
		if h := z.selfReads(c, val); len(h) == 1 {
			d := val.Sub(P(h[0]))
			if sub, ok := solveIdx(guard); ok {
				_ = sub
			}
			if !mentions(path) && len(z.selfReads(c, d)) == 0 && val.Sort == Elem {
				sum := MkSum(I(0), z.kp, func(t *Poly) *Poly { return d.Subst(Subst{z.ka: t}) })
				return finish(append(append([]Lit{}, all...), GeL(z.kp.AddC(-1))), P(h[0]).Add(sum))
			}
			if !mentions(path) && len(z.selfReads(c, d)) == 0 && !d.Has(z.ka) {
				return finish(append(append([]Lit{}, all...), GeL(z.kp.AddC(-1))), P(h[0]).Add(d.Mul(z.kp)))
			}
			return nil, "the value accumulates in a way without a closed form"
		}
		if mentions(path) {
			return nil, "a place is written in some of the iterations"
		}
		prev := Subst{z.ka: z.kp.AddC(-1)}
		return finish(append(append([]Lit{}, all...), GeL(z.kp.AddC(-1))), val.Subst(prev))
	}
	g, v, why := z.in.solve(z.st, all, val, z.ka, z.kp)
	if why != "" {
		if g, v, ok := z.scatter(all, val); ok {
			return finish(g, v)
		}
		return nil, why
	}
	return finish(g, v)
}

// placeOf are the indices of a read of the content.
func (z *summary) placeOf(c *content, a *Atom) Subst {
	if z.twoDim(c) {
		return Subst{B0a: a.Args[len(a.Args)-2], B1a: a.Args[len(a.Args)-1]}
	}
	return Subst{B0a: a.Args[len(a.Args)-1]}
}

func (z *summary) twoDim(c *content) bool {
	o := z.st.Obj(c.obj)
	return (o.Kind == Arr2 && !c.rowlen) || o.Kind == Mat
}

func (z *summary) selfReads(c *content, p *Poly) []*Atom {
	var out []*Atom
	for _, a := range p.Atoms() {
		if a.Kind == App && a.Name == c.name {
			out = append(out, a)
		}
	}
	return out
}

// solve eliminates the iteration from a layer: the result says in terms of the place alone whether
// one of the iterations before k wrote it, and what.
func (in *Interp) solve(st *State, all []Lit, val *Poly, ka *Atom, kp *Poly) ([]Lit, *Poly, string) {
	try := func(sub Subst, extra []Lit, skip map[int]bool) ([]Lit, *Poly, string) {
		sol := sub[ka]
		var g []Lit
		for i, l := range all {
			if skip[i] {
				continue
			}
			m := l.Subst(sub)
			if m.Has(ka) {
				return nil, nil, "the place does not determine the iteration: " + m.String()
			}
			if m.Op != Yes {
				g = append(g, m)
			}
		}
		v := val.Subst(sub)
		if v.Has(ka) {
			return nil, nil, "the value does not depend on the place alone: " + v.String()
		}
		g = append(g, GeL(sol))
		g = append(g, extra...)
		g = append(g, Lt(sol, kp))
		return g, v, ""
	}
	why := "no literal determines the iteration"
	// an index that is linear in the iteration
	for i, l := range all {
		if l.Op != Eq || !(l.P.Has(B0a) || l.P.Has(B1a)) {
			continue
		}
		c, else_ := l.P.Coef(ka)
		if else_ || (c != 1 && c != -1) {
			continue
		}
		sol := l.P.Sub(P(ka).Scale(c)).Scale(-c)
		g, v, w := try(Subst{ka: sol}, nil, map[int]bool{i: true})
		if w == "" {
			return g, v, ""
		}
		why = w
	}
	// the coordinates of an iterator
	type coord struct {
		lit  int
		rest *Poly
		a    *Atom
	}
	find := func(prefix string, id string) []coord {
		var out []coord
		for i, l := range all {
			if l.Op != Eq {
				continue
			}
			for _, t := range l.P.Terms {
				if len(t.Mono) != 1 || (t.Coef != 1 && t.Coef != -1) {
					continue
				}
				a := t.Mono[0]
				if a.Kind != App || !strings.HasPrefix(a.Name, prefix) || (id != "" && a.Name != prefix+id) || a.Args[len(a.Args)-1] != P(ka) {
					continue
				}
				rest := l.P.Sub(P(a).Scale(t.Coef)).Scale(-t.Coef)
				if rest.Has(ka) {
					continue
				}
				out = append(out, coord{i, rest, a})
			}
		}
		return out
	}
	for _, r := range find("RI:", "") {
		id := strings.TrimPrefix(r.a.Name, "RI:")
		it := in.iters[id]
		ps := r.a.Args[:len(r.a.Args)-1]
		cs := find("CI:", id)
		if it.vec {
			cs = []coord{{r.lit, I(0), nil}}
		}
		for _, c := range cs {
			sub := Subst{r.a: r.rest}
			if c.a != nil {
				sub[c.a] = c.rest
			}
			sub[ka] = Apply(Int, "IDX:"+id, append(append([]*Poly{}, ps...), r.rest, c.rest)...)
			psub := Subst{}
			for i, a := range it.params {
				if x := a.AsAtom(); x != nil {
					psub[x] = ps[i]
				}
			}
			extra := []Lit{GeL(r.rest), Lt(r.rest, it.rows.Subst(psub)), GeL(c.rest), Lt(c.rest, it.cols.Subst(psub))}
			if it.sparse {
				if len(it.c.Layers) > 0 {
					return nil, nil, "enumeration of a matrix under construction"
				}
				at := it.c.Subst(psub).Subst(Subst{B0a: r.rest, B1a: c.rest})
				extra = append(extra, ENeL(at.Base))
			}
			g, v, w := try(sub, extra, map[int]bool{r.lit: true, c.lit: true})
			if w == "" {
				return g, v, ""
			}
			why = w
		}
	}
	// quotient and remainder of the iteration
	for i, l := range all {
		if l.Op != Eq {
			continue
		}
		for _, t := range l.P.Terms {
			if len(t.Mono) != 1 || (t.Coef != 1 && t.Coef != -1) {
				continue
			}
			d := t.Mono[0]
			if d.Kind != Div || d.Args[0] != P(ka) || d.Args[1].Has(ka) {
				continue
			}
			q := l.P.Sub(P(d).Scale(t.Coef)).Scale(-t.Coef)
			n := d.Args[1]
			for j, m := range all {
				if m.Op != Eq {
					continue
				}
				for _, u := range m.P.Terms {
					if len(u.Mono) != 1 || (u.Coef != 1 && u.Coef != -1) {
						continue
					}
					e := u.Mono[0]
					if e.Kind != Mod || e.Args[0] != P(ka) || e.Args[1] != n {
						continue
					}
					r := m.P.Sub(P(e).Scale(u.Coef)).Scale(-u.Coef)
					sol := q.Mul(n).Add(r)
					g, v, w := try(Subst{d: q, e: r, ka: sol}, []Lit{GeL(q), GeL(r), Lt(r, n)}, map[int]bool{i: true, j: true})
					if w == "" {
						return g, v, ""
					}
					why = w
				}
			}
		}
	}
	return nil, nil, why
}

// scatter solves a layer written at the place an array names, when the array names different places in
// different iterations: the iteration is then a function of the place.
func (z *summary) scatter(all []Lit, val *Poly) ([]Lit, *Poly, bool) {
	un := z.unknowns()
	var window []Lit
	for _, l := range commonLits(z.backs) {
		clean := l.P != nil && l.Has(z.ka) && !z.hasOpaque(l.P)
		for _, a := range un {
			clean = clean && !l.Has(a)
		}
		if clean {
			window = append(window, l)
		}
	}
	for i, l := range all {
		if l.Op != Eq {
			continue
		}
		for _, t := range l.P.Terms {
			if len(t.Mono) != 1 || (t.Coef != 1 && t.Coef != -1) {
				continue
			}
			a := t.Mono[0]
			if a.Kind != Sel || a.Sort != Int || len(a.Args) == 0 {
				continue
			}
			last := len(a.Args) - 1
			c, else_ := a.Args[last].Coef(z.ka)
			if else_ || c != 1 {
				continue
			}
			lo := a.Args[last].Sub(z.kp)
			place := l.P.Sub(P(a).Scale(t.Coef)).Scale(-t.Coef)
			bad := place.Has(z.ka)
			for _, x := range a.Args[:last] {
				bad = bad || x.Has(z.ka)
			}
			if bad {
				continue
			}
			// different iterations, different places
			k1, k2 := SA(Int, z.name+"s1"), SA(Int, z.name+"s2")
			f := z.st.F.Clone()
			f.Add(GeL(P(k1)), Lt(P(k1), P(k2)))
			for _, w := range window {
				f.Add(w.Subst(Subst{z.ka: P(k1)}), w.Subst(Subst{z.ka: P(k2)}))
			}
			at := func(k *Poly) *Poly { return P(a).Subst(Subst{z.ka: k}) }
			if !f.Entails(NeL(at(P(k1)).Sub(at(P(k2))))) {
				continue
			}
			name := z.in.freshName(z.st, "inv", z.l.header.Instrs[0])
			inv := func(x *Poly) *Poly {
				return Apply(Int, name, append(z.st.Params[:z.outerLen:z.outerLen], x)...)
			}
			q := Fresh(Int, "q")
			args := append(append([]*Poly{}, a.Args[:last]...), P(q))
			sel := Select(Int, a.Name, args...)
			k := P(q).Sub(lo)
			guard := []Lit{GeL(k)}
			for _, w := range window {
				guard = append(guard, w.Subst(Subst{z.ka: k}))
			}
			z.st.F.AddQuant(&Quant{Vars: []*Atom{q}, Trig: []*Atom{sel.AsAtom()}, Guard: guard, Body: Clause{{Same(inv(sel), k)}}, New: true})
			sol := inv(place)
			var g []Lit
			for j, m := range all {
				if j == i {
					g = append(g, Same(at(sol), place))
					continue
				}
				if m = m.Subst(Subst{z.ka: sol}); m.Op != Yes {
					g = append(g, m)
				}
			}
			return append(g, GeL(sol), Lt(sol, z.kp)), val.Subst(Subst{z.ka: sol}), true
		}
	}
	return nil, nil, false
}

// verify checks the closed forms of elements and contents by one iteration; it gives up those that
// do not hold and reports whether there were any.
func (z *summary) verify() (dropped bool) {
	next := Subst{z.ka: z.kp.AddC(1)}
	dropped = z.verifySame()
	for _, v := range z.vars {
		if v.opaque || v.closed == nil {
			continue
		}
		for _, b := range z.backs {
			w, ok := z.backVal(b, v).(Num)
			good := ok
			if ok && v.sort == Int {
				good = b.st.F.EqInt(w.P, v.closed.Subst(next))
			} else if ok {
				d := w.P.Sub(v.closed)
				// one more summand
				want := v.closed.Subst(next).Sub(v.closed)
				good = b.st.F.EqElem(w.P, v.closed.Subst(next)) || z.oneMore(b, d, want, v)
			}
			if !good {
				v.closed, v.noInc = nil, true
				dropped = true
				break
			}
		}
	}
	for _, c := range z.conts {
		if c.closed == nil {
			continue
		}
		want := c.closed.Subst(next)
		for _, b := range z.backs {
			if ok, why := z.in.contentEq(b.st, z.backContent(b, c), want, z.backObj(b, c), z.unfold(b.st)); !ok {
				c.closed, c.failed, c.why = nil, true, why
				dropped = true
				break
			}
		}
	}
	// contents that always agree: those that begin alike, until proved otherwise
	for i, c := range z.conts {
		if !c.failed || c.closed != nil || c.rowlen {
			continue
		}
		if c.same != nil {
			for _, b := range z.backs {
				if ok, why := z.in.contentEq(b.st, z.backContent(b, c), z.backContent(b, c.same), z.backObj(b, c), nil); !ok {
					c.tried = with(c.tried, c.same)
					c.same, c.why = nil, why
					dropped = true
					break
				}
			}
			continue
		}
		o := z.st.Obj(c.obj)
		for _, d := range z.conts[:i] {
			p := z.st.Obj(d.obj)
			if !c.tried[d] && d.failed && d.closed == nil && d.same == nil && !d.rowlen && p.Kind == o.Kind && o.Kind == Mat && p.Sort == o.Sort && p.Rows == o.Rows && p.Cols == o.Cols {
				if ok, _ := z.in.contentEq(z.st, c.init, d.init, o, nil); !ok {
					c.tried = with(c.tried, d)
					continue
				}
				c.same = d
				dropped = true
				break
			}
		}
		if c.same != nil || !z.in.Supports {
			continue
		}
		if c.supp != nil {
			for _, b := range z.backs {
				if ok, _ := z.in.contentCmp(b.st, z.backContent(b, c), z.backContent(b, c.supp), z.backObj(b, c), nil, sameSupport); !ok {
					c.tried2 = with(c.tried2, c.supp)
					c.supp = nil
					dropped = true
					break
				}
			}
			continue
		}
		for _, d := range z.conts[:i] {
			p := z.st.Obj(d.obj)
			if !c.tried2[d] && d.failed && d.closed == nil && d.same == nil && !d.rowlen && p.Kind == o.Kind && o.Kind == Mat && p.Sort == o.Sort && p.Rows == o.Rows && p.Cols == o.Cols {
				if ok, _ := z.in.contentCmp(z.st, c.init, d.init, o, nil, sameSupport); !ok {
					c.tried2 = with(c.tried2, d)
					continue
				}
				c.supp = d
				dropped = true
				break
			}
		}
	}
	return
}

// contName keeps the name of what a loop changes in ways without a closed form.
func (in *Interp) contName(n string) string {
	if in.contNames == nil {
		in.contNames = map[string]bool{}
	}
	in.contNames[n] = true
	return n
}

// ofLoop reports whether p has the name of what a loop changes.
func (in *Interp) ofLoop(p *Poly) bool {
	for _, a := range p.Atoms() {
		if a.Kind == App && in.contNames[a.Name] {
			return true
		}
	}
	return false
}

func with(m map[*content]bool, c *content) map[*content]bool {
	if m == nil {
		m = map[*content]bool{}
	}
	m[c] = true
	return m
}

// unfold rewrites sums up to k+1 as sums up to k and the last summand.
func (z *summary) unfold(st *State) func(p *Poly) *Poly {
	k1 := z.kp.AddC(1)
	return func(p *Poly) *Poly {
		sub := Subst{}
		for _, a := range p.Atoms() {
			if a.Kind == Sum && a.Args[0] == k1 {
				_, last := a.SumParts(z.kp)
				prev := MkSum(I(0), z.kp, func(t *Poly) *Poly { _, b := a.SumParts(t); return b })
				sub[a] = prev.Add(last)
			}
			if a.Kind == App && a.Name == "ofInt" && a.Args[0] == k1 {
				sub[a] = Apply(Elem, "ofInt", z.kp).AddC(1)
			}
		}
		if len(sub) == 0 {
			return p
		}
		return p.Subst(sub)
	}
}

func (z *summary) oneMore(b backState, d, want *Poly, v *variable) bool {
	u := z.unfold(b.st)
	return b.st.F.EqElem(d, u(want))
}

// contentEq reports whether two contents are equal at every place.
func (in *Interp) contentEq(st *State, a, b *Content, o *Obj, norm func(*Poly) *Poly) (bool, string) {
	return in.contentCmp(st, a, b, o, norm, eqPoly)
}

// sameSupport reports whether x is zero if and only if y is.
func sameSupport(f *Facts, x, y *Poly) bool {
	g, h := f.Clone(), f.Clone()
	g.Add(EEqL(x))
	h.Add(EEqL(y))
	return (g.Inconsistent() || g.EqElem(y, C(Elem, 0))) && (h.Inconsistent() || h.EqElem(x, C(Elem, 0)))
}

// ContentSupport reports whether two contents of an object are zero at the same places.
func (in *Interp) ContentSupport(st *State, a, b *Content, o *Obj) bool {
	ok, _ := in.contentCmp(st, a, b, o, nil, sameSupport)
	return ok
}

func (in *Interp) contentCmp(st *State, a, b *Content, o *Obj, norm func(*Poly) *Poly, eq func(*Facts, *Poly, *Poly) bool) (bool, string) {
	s := st.Clone()
	if o.Kind == Mat && o.Rows != nil {
		s.F.Add(GeL(B0), Lt(B0, o.Rows), GeL(B1), Lt(B1, o.Cols))
	} else if o.Kind == Arr2 || o.Kind == Arr {
		s.F.Add(GeL(B0), Lt(B0, o.Len), GeL(B1))
	}
	ok, why := true, ""
	in.read(s, a, len(a.Layers)-1, func(s1 *State, x *Poly) {
		if !ok {
			return
		}
		in.read(s1, b, len(b.Layers)-1, func(s2 *State, y *Poly) {
			if !ok {
				return
			}
			if norm != nil {
				x, y = norm(x), norm(y)
			}
			if x == y || s2.F.Inconsistent() || eq(s2.F, x, y) {
				return
			}
			f := s2.F
			if sub, known := solveIdx(equalities(s2.Path[len(st.Path):])); known {
				x, y, f = x.Subst(sub), y.Subst(sub), f.Subst(sub)
			}
			if x == y || f.Inconsistent() || eq(f, x, y) {
				return
			}
			ok = false
			why = fmt.Sprintf("after an iteration %s, not %s, where %v", x, y, s2.Path[len(st.Path):])
		})
	})
	return ok, why
}

// ---------------------------------------------------------------- invariants

// houdini finds linear inequalities among the variables without closed form, and facts about
// array elements next to them, that hold at the start of every iteration.
func (z *summary) houdini(fresh bool) {
	in := z.in
	_ = in
	var cands []Clause
	if !fresh && len(z.invs) > 0 {
		cands = z.invs
	} else {
		cands = z.candidates()
	}
	z.invs = nil
	if len(cands) == 0 {
		return
	}
	// initially
	s0 := z.st.Clone()
	sub := Subst{}
	for _, v := range z.vars {
		if v.opaque {
			continue
		}
		if v.closed == nil {
			sub[v.sym] = v.init.(Num).P
		}
	}
	bools := map[string]Lit{}
	for _, v := range z.vars {
		if b, ok := v.val.(BoolV); ok {
			if now, ok := v.init.(BoolV); ok {
				bools[b.L.Key()], bools[b.L.Not().Key()] = now.L, now.L.Not()
			}
		}
	}
	var keep []Clause
	for _, c := range cands {
		d := change(c, bools, func(l Lit) Lit { return l.Subst(sub).Subst(Subst{z.ka: I(0)}) })
		if entailsClause(s0.F, d) {
			keep = append(keep, c)
		}
	}
	for len(keep) > 0 {
		z.invs = keep
		z.pass()
		var next []Clause
		for _, c := range keep {
			ok := true
			for _, b := range z.backs {
				t := Subst{}
				for _, v := range z.vars {
					if v.opaque || v.closed != nil {
						continue
					}
					if n, isN := z.backVal(b, v).(Num); isN {
						t[v.sym] = n.P
					} else {
						ok = false
					}
				}
				then := map[string]Lit{}
				for _, v := range z.vars {
					if at, isB := v.val.(BoolV); isB {
						if now, isB := z.backVal(b, v).(BoolV); isB {
							then[at.L.Key()], then[at.L.Not().Key()] = now.L, now.L.Not()
						} else {
							ok = false
						}
					}
				}
				if !ok || !entailsClause(b.st.F, z.step(c, t, then)) {
					ok = false
					break
				}
			}
			if ok {
				next = append(next, c)
			}
		}
		same := len(next) == len(keep)
		keep = next
		if same {
			break
		}
	}
	z.invs = nil
	for _, c := range keep {
		if len(c) > 1 && len(c[0]) > 1 && hasClause(keep, c[1:]) {
			continue // it holds without the exception
		}
		z.invs = append(z.invs, c)
	}
}

func hasClause(l []Clause, c Clause) bool {
	s := c.String()
	for _, x := range l {
		if x.String() == s {
			return true
		}
	}
	return false
}

// step is the clause one iteration later.
func (z *summary) step(c Clause, t Subst, bools map[string]Lit) Clause {
	// k occurs in closed forms and as argument of the symbols; the symbols are replaced as a whole,
	// k elsewhere by k+1, at the same time
	s := Subst{}
	for a, p := range t {
		s[a] = p
	}
	s[z.ka] = z.kp.AddC(1)
	return change(c, bools, func(l Lit) Lit { return l.Subst(s) })
}

// change replaces the literals on conditions by what they now are, and the others by f.
func change(c Clause, bools map[string]Lit, f func(Lit) Lit) Clause {
	var out Clause
	for _, d := range c {
		var e []Lit
		for _, l := range d {
			if now, ok := bools[l.Key()]; ok {
				e = append(e, now)
			} else {
				e = append(e, f(l))
			}
		}
		out = append(out, e)
	}
	return out
}

func entailsClause(f *Facts, c Clause) bool {
	// all but one disjunct false implies the last
	var lits [][]Lit
	for _, d := range c {
		dead := false
		allYes := true
		for _, l := range d {
			if l.Op == No {
				dead = true
			}
			if l.Op != Yes {
				allYes = false
			}
		}
		if dead {
			continue
		}
		if allYes {
			return true
		}
		lits = append(lits, d)
	}
	switch len(lits) {
	case 0:
		return f.Inconsistent()
	case 1:
		return f.EntailsAll(lits[0])
	}
	g := f.Clone()
	for _, d := range lits[:len(lits)-1] {
		if len(d) != 1 {
			// not (a and b) as a clause
			var n Clause
			for _, l := range d {
				n = append(n, []Lit{l.Not()})
			}
			g.AddClause(n)
			continue
		}
		g.Add(d[0].Not())
	}
	return g.EntailsAll(lits[len(lits)-1])
}

func (z *summary) candidates() []Clause {
	var out []Clause
	seen := map[string]bool{}
	add := func(c Clause) {
		k := c.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	var hv []*variable
	var pool []*Poly
	poolSeen := map[*Poly]bool{}
	addPool := func(p *Poly) {
		if !poolSeen[p] && len(pool) < 24 {
			poolSeen[p] = true
			pool = append(pool, p)
		}
	}
	addPool(I(0))
	for _, v := range z.vars {
		if v.opaque || v.sort != Int {
			continue
		}
		if v.closed == nil {
			hv = append(hv, v)
			addPool(P(v.sym))
		} else {
			addPool(v.closed)
		}
		addPool(v.init.(Num).P)
	}
	// a condition that goes with the value of a number, or with another condition
	for i, v := range z.vars {
		at, ok := v.val.(BoolV)
		if _, isB := v.init.(BoolV); !ok || !isB {
			continue
		}
		for _, u := range hv {
			vals := []*Poly{u.init.(Num).P}
			for _, b := range z.backs {
				if n, isN := z.backVal(b, u).(Num); isN {
					if _, isC := n.P.IsConst(); isC {
						vals = append(vals, n.P)
					}
				}
			}
			for _, c := range vals {
				e := Same(P(u.sym), c)
				for _, l := range []Lit{at.L, at.L.Not()} {
					add(Clause{{l}, {e}})
					add(Clause{{l}, {e.Not()}})
				}
			}
		}
		for _, u := range z.vars[:i] {
			o, ok := u.val.(BoolV)
			if _, isB := u.init.(BoolV); !ok || !isB {
				continue
			}
			for _, l := range []Lit{at.L, at.L.Not()} {
				add(Clause{{l}, {o.L}})
				add(Clause{{l}, {o.L.Not()}})
			}
		}
	}
	steady := false
	for _, v := range z.vars {
		steady = steady || !v.opaque && v.sort == Int && v.closed != nil && v.closed.Has(z.ka)
	}
	until := false // goes on until two numbers are equal
	for _, b := range z.backs {
		for _, l := range b.path {
			until = until || l.Op == Ne && l.Has(z.ka)
		}
	}
	if len(hv) == 0 && (!steady || LoopSeen == nil && !until) {
		return out
	}
	for _, b := range z.backs {
		for _, l := range b.path {
			if l.Op != Ge && l.Op != Eq && l.Op != Ne {
				continue
			}
			for _, t := range l.P.Terms {
				if len(t.Mono) == 1 {
					a := t.Mono[0]
					p := P(a)
					un := z.unknowns()
					if (a.Kind == Sym || a.Kind == Sel) && !hasAny(p, un) && !a.Has(z.ka) {
						addPool(p)
					}
				}
			}
		}
	}
	// what advances steadily stays within bounds
	for _, v := range z.vars {
		if v.opaque || v.sort != Int || v.closed == nil || !v.closed.Has(z.ka) {
			continue
		}
		for _, p := range pool {
			if !p.Has(z.ka) && p.AsAtom() != nil {
				for _, c := range []int64{0, -1} {
					add(Clause{{GeL(p.Sub(v.closed).AddC(c))}})
				}
			}
		}
	}
	for _, v := range hv {
		x := P(v.sym)
		for _, p := range pool {
			if p == x {
				continue
			}
			for _, c := range []int64{0, -1, 1} {
				add(Clause{{GeL(p.Sub(x).AddC(c))}})
				add(Clause{{GeL(x.Sub(p).AddC(c))}})
			}
		}
		// it follows an array element at another variable
		for _, b := range z.backs {
			w, ok := z.backVal(b, v).(Num)
			if !ok {
				continue
			}
			a := w.P.AsAtom()
			if a == nil || a.Kind != Sel || a.Sort != Int {
				continue
			}
			for _, u := range z.vars {
				if u == v || u.opaque || u.sort != Int {
					continue
				}
				y, ok := z.backVal(b, u).(Num)
				if !ok {
					continue
				}
				if d, isC := a.Args[len(a.Args)-1].Sub(y.P).IsConst(); isC {
					args := append(append([]*Poly{}, a.Args[:len(a.Args)-1]...), z.value(u).(Num).P.AddC(d))
					add(Clause{{Same(x, Select(Int, a.Name, args...))}})
					if LoopSeen != nil {
						first := []Lit{Same(x, v.init.(Num).P), Same(z.value(u).(Num).P, u.init.(Num).P)}
						add(Clause{first, {Same(x, Select(Int, a.Name, args...))}})
					}
				}
			}
		}
		// a fact about array elements found on the way round
		for _, b := range z.backs {
			w, ok := z.backVal(b, v).(Num)
			if !ok {
				continue
			}
			for _, l := range b.path {
				if l.P == nil || (l.Op != Ge && l.Op != Eq && l.Op != Ne) {
					continue
				}
				sub := Subst{}
				for _, a := range l.P.Atoms() {
					if a.Kind != Sel || a.Sort != Int {
						continue
					}
					p := a.Args[len(a.Args)-1]
					if d, isC := w.P.Sub(p).IsConst(); isC {
						args := append(append([]*Poly{}, a.Args[:len(a.Args)-1]...), x.AddC(-d))
						sub[a] = Select(Int, a.Name, args...)
					}
				}
				if len(sub) == 0 {
					continue
				}
				m := l.Subst(sub)
				bad := false
				for _, a := range z.unknowns() {
					if a != v.sym && m.Has(a) {
						bad = true
					}
				}
				if bad || m.Has(z.ka) && !m.Has(v.sym) {
					continue
				}
				add(Clause{{Same(x, v.init.(Num).P)}, {m}})
				add(Clause{{m}})
			}
		}
	}
	return out
}

// cond is a condition on a variable that only ever ceases to hold, and what holds in the iterations
// after which it still does.
type cond struct {
	at, init Lit // the condition at the start of iteration k, and on entry
	lits     []Lit
	quants   []*Quant
}

// collectCommon finds what holds on every way round the loop.
func (z *summary) collectCommon() {
	z.common, z.qcommon, z.conds = nil, nil, nil
	if len(z.backs) == 0 {
		z.common = []Lit{{Op: No}}
		return
	}
	have := map[string]bool{}
	for _, q := range z.start(false).F.Quants {
		have[q.String()] = true
	}
	z.common, z.qcommon = z.commonOf(z.backs, have)
	for _, l := range z.common {
		have[l.Key()] = true
	}
	for _, v := range z.vars {
		for _, c := range z.conditions(v) {
			var bs []backState
			ok := true
			for _, b := range z.backs {
				l, known := c.of(z.backVal(b, v))
				if !known {
					ok = false
					break
				}
				t := b.st.Clone()
				t.F.Add(l)
				if t.F.Inconsistent() {
					continue
				}
				if !t.F.Entails(c.at) {
					ok = false
					break
				}
				bs = append(bs, backState{t, b.phis, append(append([]Lit{}, b.path...), l)})
			}
			if !ok {
				continue
			}
			k := &cond{at: c.at, init: c.init}
			if len(bs) == 0 {
				k.lits = []Lit{{Op: No}}
			} else {
				ls, qs := z.commonOf(bs, have)
				for _, l := range ls {
					if !have[l.Key()] {
						k.lits = append(k.lits, l)
					}
				}
				k.quants = qs
			}
			z.conds = append(z.conds, k)
		}
	}
}

type condOf struct {
	at, init Lit
	of       func(Val) (Lit, bool)
}

// conditions are the candidates for conditions on a variable.
func (z *summary) conditions(v *variable) (out []condOf) {
	add := func(of func(Val) (Lit, bool)) {
		at, ok1 := of(z.value(v))
		init, ok2 := of(v.init)
		if ok1 && ok2 {
			out = append(out, condOf{at, init, of})
		}
	}
	if v.opaque {
		if _, ok := v.init.(BoolV); !ok || v.val == nil {
			return nil
		}
		for _, want := range []bool{true, false} {
			add(func(x Val) (Lit, bool) {
				b, ok := x.(BoolV)
				if !want {
					return b.L.Not(), ok
				}
				return b.L, ok
			})
		}
		return
	}
	if v.closed != nil || v.sort != Int || v.pos {
		return nil
	}
	first, ok := v.init.(Num)
	if !ok {
		return nil
	}
	for _, up := range []bool{true, false} {
		add(func(x Val) (Lit, bool) {
			n, ok := x.(Num)
			if !ok {
				return Lit{}, false
			}
			if up {
				return Le(n.P, first.P), true
			}
			return Le(first.P, n.P), true
		})
	}
	return
}

// commonOf are the literals and quantified facts that hold on all of the ways round the loop.
func (z *summary) commonOf(bs []backState, have map[string]bool) (out []Lit, qs []*Quant) {
	out = commonLits(bs)
	// a literal entailed on all of the ways counts too
	for _, l := range bs[0].path {
		in := true
		for _, m := range out {
			if m == l {
				in = false
			}
		}
		if !in {
			continue
		}
		ok := true
		for _, b := range bs[1:] {
			if !b.st.F.Entails(l) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, l)
		}
	}
	for _, q := range bs[0].st.F.Quants {
		if len(q.Vars) > 3 || have[q.String()] || len(qs) >= 12 {
			continue
		}
		about := false
		for _, l := range q.Guard {
			about = about || l.Has(z.ka)
		}
		for _, d := range q.Body {
			for _, l := range d {
				about = about || l.Has(z.ka)
			}
		}
		if !about {
			continue
		}
		// what the way round entails need not be assumed
		w := &Quant{Vars: q.Vars, Trig: q.Trig, Body: q.Body, New: q.New}
		for _, l := range q.Guard {
			free := true
			for _, v := range q.Vars {
				free = free && !l.Has(v)
			}
			if !free || !bs[0].st.F.Entails(l) {
				w.Guard = append(w.Guard, l)
			}
		}
		ok := true
		for _, b := range bs[1:] {
			f := b.st.F.Clone()
			sub := Subst{}
			for _, v := range w.Vars {
				sub[v] = P(Fresh(Int, "sk"))
			}
			for _, l := range w.Guard {
				f.Add(l.Subst(sub))
			}
			if !f.Inconsistent() && !entailsClause(f, w.Body.Subst(sub)) {
				ok = false
				break
			}
		}
		if ok {
			qs = append(qs, w)
		}
	}
	return
}

// leave continues after the loop.
func (z *summary) leave(s *State, from, to *ssa.BasicBlock) {
	in := z.in
	in.over(s, z.l.header, z.backs)
	// what held in all the iterations before
	for _, l := range z.common {
		z.forAll(s, l, nil)
	}
	for _, q := range z.qcommon {
		z.forAllQuant(s, q, nil)
	}
	z.forAllWays(s)
	for _, c := range z.conds {
		s.F.AddClause(Clause{{c.at.Not()}, {c.init}})
		for _, l := range c.lits {
			if l.Op == No {
				// it ceases to hold in the first iteration
				s.F.AddClause(Clause{{c.at.Not()}, {EqL(z.kp)}})
			}
			z.forAll(s, l, []Lit{c.at})
		}
		for _, q := range c.quants {
			z.forAllQuant(s, q, []Lit{c.at})
		}
	}
	// the number of iterations, where the path determines it
	finish := func(s *State) {
		s.Params = s.Params[:z.outerLen:z.outerLen]
		in.runBlock(s, z.fr, to, from, z.hk, z.k)
	}
	pop := func(s *State, n *Poly) {
		t := s.Subst(Subst{z.ka: n})
		if !n.Has(z.ka) && z.l.exits() > 1 {
			// other ways out leave under its name what is left here as well
			l := Same(z.kp, n)
			t.F.Add(l)
			t.Path = append(t.Path[:len(t.Path):len(t.Path)], l)
			for _, q := range s.F.Quants {
				if q.Has(z.ka) {
					t.F.AddQuant(q)
				}
			}
		}
		finish(t)
	}
	var bounds []*Poly
	for _, l := range s.Path[z.n0:] {
		if l.Op == Ge || l.Op == Eq {
			c, else_ := l.P.Coef(z.ka)
			if else_ || c != 1 && !(c == -1 && l.Op == Eq) {
				continue
			}
			n := l.P.Sub(z.kp.Scale(c)).Scale(-c)
			bounds = append(bounds, n)
		}
	}
	if s.F.EqInt(z.kp, I(0)) {
		pop(s, I(0))
		return
	}
	for _, n := range bounds {
		if s.F.EqInt(z.kp, n) {
			pop(s, n)
			return
		}
		t := s.Clone()
		t.F.Add(GeL(n))
		if !t.F.EqInt(z.kp, n) {
			continue
		}
		// no iteration at all when the bound is negative
		in.Decide(s, GeL(n), func(a *State) { pop(a, n) }, func(a *State) {
			if a.F.EqInt(z.kp, I(0)) {
				pop(a, I(0))
			} else {
				finish(a)
			}
		})
		return
	}
	finish(s)
}

// searched reports whether what the loop leaves behind depends on the outcome of inner loops.
func (z *summary) searched() bool {
	for _, c := range z.conts {
		if c.closed == nil {
			continue
		}
		for _, l := range c.closed.Layers {
			for _, g := range l.Guard {
				for _, a := range g.Atoms() {
					if z.in.innerVars[a.Name] {
						return true
					}
				}
			}
		}
	}
	return false
}

// forAllWays adds that every iteration before k went one of the ways round the loop, and what held on it.
func (z *summary) forAllWays(s *State) {
	if len(z.backs) < 2 || len(z.backs) > 8 || !z.searched() {
		return
	}
	start := z.start(false)
	have := map[Lit]bool{}
	for _, l := range start.F.Lits {
		have[l] = true
	}
	haveC := map[string]bool{}
	for _, c := range start.F.Clauses {
		haveC[c.String()] = true
	}
	t := Fresh(Int, "t")
	sub := Subst{z.ka: P(t)}
	in := []Lit{GeL(P(t)), Lt(P(t), z.kp)}
	var trig *Atom
	var ways Clause
	see := func(l Lit) {
		for _, a := range l.Atoms() {
			if a.Kind != Sel && a.Kind != App {
				continue
			}
			binds := false
			for _, x := range a.Args {
				if c, else_ := x.Coef(t); !else_ && c == 1 {
					binds = true
				}
			}
			if binds && (trig == nil || a.Kind == Sel && trig.Kind == App || a.Kind == trig.Kind && len(a.String()) < len(trig.String())) {
				trig = a
			}
		}
	}
	for _, b := range z.backs {
		var way []Lit
		for _, l := range b.path {
			if l.Has(z.ka) {
				l = l.Subst(sub)
				way = append(way, l)
				see(l)
			}
		}
		if len(way) == 0 {
			return
		}
		ways = append(ways, way)
	}
	if trig == nil {
		return
	}
	searched := func(l Lit) bool {
		for _, a := range l.Atoms() {
			if z.in.innerVars[a.Name] {
				return true
			}
		}
		return false
	}
	for i, b := range z.backs {
		// the variables of the inner loop at its end, which bring in what held of them
		at := trig
		var vars []Lit
		for _, l := range ways[i] {
			if !searched(l) {
				continue
			}
			vars = append(vars, l)
			for _, a := range l.Atoms() {
				if z.in.innerVars[a.Name] && len(a.Args) > 0 {
					if c, else_ := a.Args[0].Coef(t); !else_ && c == 1 {
						at = a
					}
				}
			}
		}
		guard := append(in[:2:2], vars...)
		said := map[*Poly]bool{}
		for _, l := range ways[i] {
			said[l.P] = true
		}
		lits := append([]Lit{}, b.st.F.Lits...)
		for _, l := range lits {
			if l.Has(z.ka) && searched(l) && !have[l] {
				weaker := false
				for _, m := range lits {
					if m.Op == Ge && l.Op == Ge {
						c, ok := l.P.Sub(m.P).IsConst()
						weaker = weaker || ok && c > 0
					}
				}
				if l = l.Subst(sub); !weaker && l.Op != Yes && !said[l.P] {
					ways[i] = append(ways[i], l)
				}
			}
		}
		for _, c := range b.st.F.Clauses {
			about := false
			for _, d := range c {
				for _, l := range d {
					about = about || l.Has(z.ka) && searched(l)
				}
			}
			if about && !haveC[c.String()] {
				s.F.AddQuant(&Quant{Vars: []*Atom{t}, Trig: []*Atom{at}, Guard: guard, Body: c.Subst(sub), New: true})
			}
		}
	}
	s.F.AddQuant(&Quant{Vars: []*Atom{t}, Trig: []*Atom{trig}, Guard: in, Body: ways, New: true})
}

// forAllQuant adds that a quantified fact held in every iteration before k, under the condition.
func (z *summary) forAllQuant(s *State, q *Quant, under []Lit) {
	t := Fresh(Int, "t")
	sub := Subst{z.ka: P(t)}
	w := q.Subst(sub)
	w.Vars = append(append([]*Atom{}, w.Vars...), t)
	w.Guard = append(append(w.Guard, GeL(P(t)), Lt(P(t), z.kp)), under...)
	binds := func(a *Atom) bool {
		for _, x := range a.Args {
			if c, else_ := x.Coef(t); !else_ && (c == 1 || c == -1) {
				return true
			}
		}
		return false
	}
	bound := false
	for _, a := range w.Trig {
		bound = bound || binds(a)
	}
	if !bound {
	search:
		for _, d := range w.Body {
			for _, l := range d {
				for _, a := range l.Atoms() {
					if (a.Kind == App || a.Kind == Sel) && binds(a) {
						w.Trig = append([]*Atom{a}, w.Trig...)
						bound = true
						break search
					}
				}
			}
		}
	}
	if bound && len(w.Trig) > 0 {
		s.F.AddQuant(w)
	}
}

// forAll adds that a literal held in every iteration before k, under the condition.
func (z *summary) forAll(s *State, l Lit, under []Lit) {
	if !l.Has(z.ka) || l.Op == No {
		return
	}
	t := Fresh(Int, "t")
	body := l.Subst(Subst{z.ka: P(t)})
	var trigs []*Atom
	for _, a := range body.Atoms() {
		if (a.Kind == App || a.Kind == Sel) && len(a.Args) > 0 {
			for _, x := range a.Args {
				if c, else_ := x.Coef(t); !else_ && (c == 1 || c == -1) {
					trigs = append(trigs, a)
					break
				}
			}
		}
	}
	for i, a := range trigs {
		if i == 3 {
			break
		}
		s.F.AddQuant(&Quant{Vars: []*Atom{t}, Trig: []*Atom{a}, Guard: append([]Lit{GeL(P(t)), Lt(P(t), z.kp)}, under...), Body: Clause{{body}}, New: true})
	}
	// by coordinates, when the iteration goes through an iterator
	for _, a := range body.Atoms() {
		if a.Kind != App || !strings.HasPrefix(a.Name, "RI:") || a.Args[len(a.Args)-1] != P(t) {
			continue
		}
		id := strings.TrimPrefix(a.Name, "RI:")
		it := z.in.iters[id]
		ps := a.Args[:len(a.Args)-1]
		i, j := Fresh(Int, "i"), Fresh(Int, "j")
		jp := P(j)
		if it.vec {
			jp = I(0)
		}
		psub := Subst{}
		for n, x := range it.params {
			if y := x.AsAtom(); y != nil {
				psub[y] = ps[n]
			}
		}
		at := it.c.Subst(psub).Subst(Subst{B0a: P(i), B1a: jp})
		if len(at.Layers) > 0 {
			continue
		}
		tr := at.Base.AsAtom()
		if tr == nil {
			continue
		}
		idx := Apply(Int, "IDX:"+id, append(append([]*Poly{}, ps...), P(i), jp)...)
		ci := mkApp("CI:"+id, a.Args)
		b := body.Subst(Subst{a: P(i), ci: jp}).Subst(Subst{t: idx})
		g := []Lit{GeL(P(i)), Lt(P(i), it.rows.Subst(psub)), GeL(jp), Lt(jp, it.cols.Subst(psub)), Lt(idx, z.kp)}
		g = append(g, under...)
		if it.sparse {
			g = append(g, ENeL(at.Base))
		}
		vars := []*Atom{i, j}
		if it.vec {
			vars = vars[:1]
		}
		trs := []*Atom{tr}
		for _, y := range b.Atoms() {
			if y.Kind == Sel && y.Sort == Elem && y != tr && y.Has(i) {
				trs = append(trs, y)
			}
		}
		for _, y := range trs {
			s.F.AddQuant(&Quant{Vars: vars, Trig: []*Atom{y}, Guard: g, Body: Clause{{b}}, New: true})
		}
	}
}

func mkApp(name string, args []*Poly) *Atom { return Apply(Int, name, args...).AsAtom() }

// Count is the number of values of a matrix.
func (in *Interp) Count(st *State, o *Obj) *Poly { return in.count(st, o) }

// ContentEq reports whether two contents are equal at every place of an object.
func (in *Interp) ContentEq(st *State, a, b *Content, o *Obj) (bool, string) {
	return in.contentEq(st, a, b, o, nil)
}

// exits is the number of edges that leave the loop.
func (l *loop) exits() (n int) {
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] {
				n++
			}
		}
	}
	return
}
