package interp

import (
	"golang.org/x/tools/go/ssa"
)

// CancelSeen, if set, makes a context that is given from outside one that may be cancelled at any time, and is told
// of every loop under it, and of what goes on when it should have stopped.
var CancelSeen func(header *ssa.BasicBlock, what string)

// mark is an iteration of a loop, or the call of an exported function, under a context.
type mark struct {
	header    *ssa.BasicBlock // nil: a call
	touched   bool            // elements were read or written
	polled    bool            // the context was looked at
	cancelled bool            // and was done
}

// stop is what a path knows of cancellation.
type stop struct {
	under bool
	marks []mark
}

func (s stop) push(m mark) stop {
	s.marks = append(s.marks[:len(s.marks):len(s.marks)], m)
	return s
}

func (s stop) pop() stop {
	if len(s.marks) > 0 {
		s.marks = s.marks[: len(s.marks)-1 : len(s.marks)-1]
	}
	return s
}

// each changes marks, from the innermost to the call they belong to, or all of them.
func (s stop) each(all bool, f func(m *mark)) stop {
	s.marks = append([]mark{}, s.marks...)
	for i := len(s.marks) - 1; i >= 0; i-- {
		f(&s.marks[i])
		if !all && s.marks[i].header == nil {
			break
		}
	}
	return s
}

func (s stop) cancelled() *mark {
	for i := len(s.marks) - 1; i >= 0; i-- {
		if s.marks[i].cancelled {
			return &s.marks[i]
		}
	}
	return nil
}

func (in *Interp) cancelNote(b *ssa.BasicBlock, what string) {
	if CancelSeen != nil && in.mute == 0 && !in.Probing {
		CancelSeen(b, what)
	}
}

// poll looks whether the context is done.
func (in *Interp) poll(st *State, bg bool, done, not func(*State)) {
	if CancelSeen == nil || bg || !st.stop.under {
		not(st)
		return
	}
	if st.stop.cancelled() != nil {
		done(st)
		return
	}
	t := st.Clone()
	t.stop = t.stop.each(false, func(m *mark) { m.cancelled, m.polled = true, true })
	done(t)
	st.stop = st.stop.each(false, func(m *mark) { m.polled = true })
	not(st)
}

// touch is told that elements are read or written.
func (in *Interp) touch(st *State, site ssa.Instruction, what string) {
	if CancelSeen == nil || !st.stop.under || site == nil {
		return
	}
	if m := st.stop.cancelled(); m != nil {
		b := m.header
		if b == nil {
			b = site.Block()
		}
		in.cancelNote(b, what+" at "+in.pos(site)+" after the context was found cancelled")
	}
	st.stop = st.stop.each(true, func(m *mark) { m.touched = true })
}

// goesRound is told that an iteration of the innermost loop is over.
func (in *Interp) goesRound(st *State, b *ssa.BasicBlock) {
	if CancelSeen == nil || !st.stop.under || len(st.stop.marks) == 0 {
		return
	}
	m := st.stop.marks[len(st.stop.marks)-1]
	switch {
	case m.header != b:
	case m.cancelled:
		in.cancelNote(b, "goes round again after the context was found cancelled")
	case m.touched && !m.polled && !in.exchanges(st, b):
		in.cancelNote(b, "goes round without looking whether the context is cancelled")
	default:
		in.cancelNote(b, "")
	}
}

// exchanges reports whether the loop is within another of a sort: an exchange of two rows is completed.
func (in *Interp) exchanges(st *State, b *ssa.BasicBlock) bool {
	if p := b.Parent().Package(); p == nil || p.Pkg.Name() != "sort" {
		return false
	}
	for _, m := range st.stop.marks[:len(st.stop.marks)-1] {
		if m.header != nil {
			return true
		}
	}
	return false
}

// over takes the mark of a loop away, at its exit.
func (in *Interp) over(st *State, b *ssa.BasicBlock, backs []backState) {
	if CancelSeen == nil || !st.stop.under || len(st.stop.marks) == 0 || st.stop.marks[len(st.stop.marks)-1].header != b {
		return
	}
	top := st.stop.marks[len(st.stop.marks)-1]
	st.stop = st.stop.pop()
	// one that may go round no time at all looks when it does
	touched, polled := false, len(backs) > 0 || in.looks(b)
	for _, x := range backs {
		if s := x.st.stop; len(s.marks) > 0 {
			m := s.marks[len(s.marks)-1]
			touched = touched || m.touched
			polled = polled && m.polled
		}
	}
	if touched {
		st.stop = st.stop.each(true, func(m *mark) { m.touched = true })
	}
	if polled || top.polled {
		st.stop = st.stop.each(false, func(m *mark) { m.polled = true })
	}
}

// enterCall is the state of cancellation in a function called with the arguments.
func (st *State) enterCall(fn *ssa.Function, args []Val) {
	if CancelSeen == nil {
		return
	}
	for i, a := range args {
		c, ok := unwrap(a).(CtxV)
		if !ok || i >= len(fn.Params) {
			continue
		}
		if c.Bg {
			st.stop = stop{}
		} else {
			st.stop.under = true
			if o := fn.Object(); o != nil && o.Exported() || len(st.stop.marks) == 0 {
				st.stop = st.stop.push(mark{})
			}
		}
		return
	}
}

// leaveCall takes back what enterCall did.
func (st *State) leaveCall(was stop) {
	if CancelSeen == nil {
		return
	}
	if !st.stop.under {
		st.stop = was
		return
	}
	st.stop.under = was.under
	if len(st.stop.marks) > len(was.marks) {
		st.stop.marks = st.stop.marks[:len(was.marks):len(was.marks)]
	}
}

// looks reports whether the loop has a call or a select with a context.
func (in *Interp) looks(header *ssa.BasicBlock) bool {
	l := in.loopAt(header.Parent(), header)
	if l == nil {
		return false
	}
	isCtx := func(v ssa.Value) bool { return v.Type().String() == "context.Context" }
	for b := range l.blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() && isCtx(c.Common().Value) {
				return true
			}
			for _, a := range c.Common().Args {
				if isCtx(a) {
					return true
				}
			}
		}
	}
	return false
}
