package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"graphverif/interp"
)

// What the other checks run, is run once more to see which loops it goes through.
var loopSources = []string{"C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17", "C20", "C21", "C22", "C23", "C26", "C27", "C29"}

func funcName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		for i, a := range p.AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", funcName(p), i+1)
			}
		}
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// loopsOf are the headers of the loops of a function, in order of their blocks.
func loopsOf(fn *ssa.Function) (l []*ssa.BasicBlock) {
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				l = append(l, b)
				break
			}
		}
	}
	return
}

func loopName(b *ssa.BasicBlock) string {
	for i, x := range loopsOf(b.Parent()) {
		if x == b {
			return fmt.Sprintf("%s, loop %d", funcName(b.Parent()), i+1)
		}
	}
	return funcName(b.Parent()) + ", a loop"
}

// logLoops reports what the interpreter says of the loops it goes through until the function it returns is called.
func logLoops(r *Report, h *host) func() {
	bad := map[*ssa.BasicBlock]string{}
	good := map[*ssa.BasicBlock]bool{}
	interp.LoopSeen = func(b *ssa.BasicBlock, ok bool, why string) {
		if ok {
			good[b] = true
		} else {
			bad[b] = why
		}
	}
	badc := map[*ssa.BasicBlock]string{}
	under := map[*ssa.BasicBlock]bool{}
	interp.CancelSeen = func(b *ssa.BasicBlock, what string) {
		under[b] = true
		if what != "" {
			badc[b] = what
		}
	}
	return func() {
		interp.LoopSeen, interp.CancelSeen = nil, nil
		for b := range good {
			if bad[b] == "" {
				r.OK("progress", loopName(b), h.loopPos(b), "every iteration lessens a measure, or waits")
			}
		}
		for b, why := range bad {
			r.Bad("progress", loopName(b), h.loopPos(b), "%s", why)
		}
		for b := range under {
			if badc[b] == "" {
				r.OK("cancellation", loopName(b), h.loopPos(b), "looks at the context on every way round that reads or writes elements, and stops when it is done")
			}
		}
		for b, why := range badc {
			r.Bad("cancellation", loopName(b), h.loopPos(b), "%s", why)
		}
	}
}

// takesContext reports whether the function, or the one it is written in, has a context.
func takesContext(fn *ssa.Function) bool {
	for ; fn != nil; fn = fn.Parent() {
		for _, p := range fn.Params {
			if p.Type().String() == "context.Context" {
				return true
			}
		}
	}
	return false
}

func (h *host) loopPos(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return h.p.pos(i.Pos())
		}
	}
	return h.p.pos(b.Parent().Pos())
}

func checkProgress(r *Report) {
	const rule = "progress"
	h := newHost(r, r.Prog)
	sub := &Report{Prog: r.Prog, Counts: map[string]int{}, Tier: "quick"}
	flush := logLoops(r, h)
	for _, id := range loopSources {
		n := len(sub.jobs)
		checks[id].Run(sub)
		for i := n; i < len(sub.jobs); i++ {
			j := sub.jobs[i]
			r.Job(rule, id+" "+j.rule+" "+j.name, func(r *Report) {
				flush := logLoops(r, h)
				t := &Report{Prog: r.Prog, Counts: map[string]int{}, Tier: r.Tier}
				j.run(t)
				flush()
				r.Count("cases", 1)
				if len(r.Obs) == 0 {
					r.OK(rule, "no loops: "+id+" "+j.rule+" "+j.name, "", "goes through none")
				}
			})
		}
	}
	flush()
	if p := h.p.Pkgs["math/reduced"]; p != nil && p.Func("Reduced") != nil {
		fn := p.Func("Reduced")
		for _, sp := range []bool{false, true} {
			sp := sp
			r.Job(rule, fmt.Sprintf("Reduced(%s)", map[bool]string{false: "dense", true: "sparse"}[sp]), func(r *Report) {
				flush := logLoops(r, h)
				in := interp.New(h)
				st := in.NewState()
				a := in.NewMat(st, "s", sp, false)
				in.Run(st, body(fn), []interp.Val{interp.Ptr{Obj: a}}, nil)
				flush()
				r.Count("cases", 1)
				for _, p := range in.Problems {
					r.Undecided(rule, "Reduced", h.p.pos(fn.Pos()), "%s", p)
				}
			})
		}
	}
	r.after = func() {
		seen := map[string]bool{}
		for _, o := range r.Obs {
			seen[o.Rule+" "+o.Construct] = true
		}
		for _, fn := range r.Prog.bodies() {
			for _, b := range loopsOf(fn) {
				n := loopName(b)
				if !seen["progress "+n] {
					r.Undecided(rule, n, h.loopPos(b), "no case goes through this loop")
				}
				if takesContext(fn) && !seen["cancellation "+n] {
					r.Undecided("cancellation", n, h.loopPos(b), "no case goes through this loop with a context that may be cancelled")
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C12", Level: "proof", MinObs: 70,
		Rules: "progress: for every loop of the packages, on every way round it in every case analysed, a measure that starts at or above zero is lessened (or one of an ordered pair)",
		Run:   checkProgress})
}
