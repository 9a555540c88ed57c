package interp

import (
	"go/token"

	. "graphverif/dom"

	"golang.org/x/tools/go/ssa"
)

// LoopSeen is told of every loop that was gone through, and whether it makes progress.
var LoopSeen func(header *ssa.BasicBlock, progress bool, why string)

func seen(header *ssa.BasicBlock, progress bool, why string) {
	if LoopSeen != nil {
		LoopSeen(header, progress, why)
	}
}

// progress decides whether the loop ends: a measure, or two of them in order, that no iteration
// starts with below zero and every iteration lessens.
func (z *summary) progress() bool {
	if len(z.backs) == 0 {
		return true
	}
	n0 := len(z.start(false).F.Lits)
	own := map[*Atom]bool{}
	ints := map[*Atom]*variable{}
	for _, v := range z.vars {
		if v.opaque || v.sort != Int || v.closed != nil || v.same != nil {
			continue
		}
		own[v.sym] = true
		ints[v.sym] = v
	}
	// a measure speaks of what the loop does not change, its counters and the number of the iteration
	fit := func(p *Poly) bool {
		moves := false
		for _, a := range p.Atoms() {
			switch {
			case a == z.ka, own[a]:
				moves = true
			case a.Has(z.ka):
				return false
			default:
				for s := range own {
					if a.Has(s) {
						return false
					}
				}
			}
		}
		return moves && p.Sort == Int
	}
	var cands []*Poly
	have := map[*Poly]bool{}
	add := func(p *Poly) {
		if !have[p] && len(cands) < 60 && fit(p) {
			have[p] = true
			cands = append(cands, p)
		}
	}
	lit := func(l Lit) {
		switch l.Op {
		case Ge:
			add(l.P)
		case Eq, Ne:
			add(l.P)
			add(l.P.Scale(-1))
		}
	}
	for _, b := range z.backs {
		for _, l := range b.path {
			lit(l)
		}
	}
	for _, c := range z.invs {
		if len(c) == 1 {
			for _, l := range c[0] {
				lit(l)
			}
		}
	}
	for _, b := range z.backs {
		if len(b.st.F.Lits) > n0 {
			for _, l := range b.st.F.Lits[n0:] {
				lit(l)
			}
		}
	}
	after := make([]Subst, len(z.backs))
	for i, b := range z.backs {
		s := Subst{z.ka: z.kp.AddC(1)}
		for a, v := range ints {
			n, ok := z.backVal(b, v).(Num)
			if !ok {
				return false
			}
			s[a] = n.P
		}
		after[i] = s
	}
	type how struct{ less, same []bool }
	var pos []*Poly
	var hows []how
	for _, m := range cands {
		all, low := true, true
		w := how{make([]bool, len(z.backs)), make([]bool, len(z.backs))}
		for i, b := range z.backs {
			if !b.st.F.Entails(GeL(m)) {
				low = false
				break
			}
			d := m.Sub(m.Subst(after[i]))
			w.less[i] = b.st.F.Entails(GeL(d.AddC(-1)))
			w.same[i] = w.less[i] || b.st.F.Entails(GeL(d))
			all = all && w.less[i]
		}
		if !low {
			continue
		}
		if all {
			return true
		}
		pos = append(pos, m)
		hows = append(hows, w)
	}
	for i := range pos {
		for j := range pos {
			ok := i != j
			for b := range z.backs {
				ok = ok && (hows[i].less[b] || hows[i].same[b] && hows[j].less[b])
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// waits reports whether every way round the loop waits for another goroutine.
func (l *loop) waits() bool {
	var walk func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool
	walk = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
		if seen[b] || !l.blocks[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Select:
				if x.Blocking {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if s == l.header || walk(s, seen) {
				return true
			}
		}
		return false
	}
	return !walk(l.header, map[*ssa.BasicBlock]bool{})
}
