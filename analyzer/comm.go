package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The communication behaviour of a function: every goroutine is reduced to its operations on channels
// and wait groups (calls that do none are left out, branches on what is not tracked go both ways),
// and all interleavings of these behaviours are gone through.

// cv is a tracked value; the zero value is anything.
type cv struct {
	k    byte // c channel, D done channel of a context, f function, p pointer, i number, b truth, n nil, t tuple, I interface
	n    int
	s    string // of a pointer
	fn   *ssa.Function
	el   []cv
	t    types.Type
	blt  string // built-in function
	recv bool
}

func (v cv) key(b *strings.Builder) {
	if v.k == 0 {
		b.WriteByte('_')
		return
	}
	b.WriteByte(v.k)
	switch v.k {
	case 'f':
		fmt.Fprintf(b, "%p%s", v.fn, v.blt)
	case 'p', 's':
		b.WriteString(v.s)
		fmt.Fprintf(b, "[%d", v.n)
	case 'I':
		b.WriteString(v.t.String())
	default:
		fmt.Fprintf(b, "%d", v.n)
	}
	if len(v.el) > 0 {
		b.WriteByte('(')
		for _, e := range v.el {
			e.key(b)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
}

type cframe struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	env    map[ssa.Value]cv
	free   []cv
	defers []cdefer
	call   ssa.Value // of the caller, that gets the results
	unwind bool      // panicking: after its deferred calls the frame is left
	ret    []cv      // results while deferred calls run
	rets   bool
}

type cdefer struct {
	f    cv
	args []cv
	pos  token.Pos
}

type cproc struct {
	id     int
	fs     []cframe
	ended  bool
	panics bool
	sites  map[string]int
}

type cchan struct {
	cap, n int
	closed bool
	what   string
}

type cstate struct {
	ps    []*cproc
	mem   map[string]cv
	ch    []cchan
	done  bool // the context is done
	began bool // goroutines were started
}

func (s *cstate) clone() *cstate {
	n := &cstate{mem: make(map[string]cv, len(s.mem)), ch: append([]cchan{}, s.ch...), done: s.done, began: s.began}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for _, p := range s.ps {
		q := &cproc{id: p.id, ended: p.ended, panics: p.panics, sites: map[string]int{}}
		for k, v := range p.sites {
			q.sites[k] = v
		}
		for _, f := range p.fs {
			g := f
			g.env = make(map[ssa.Value]cv, len(f.env))
			for k, v := range f.env {
				g.env[k] = v
			}
			g.defers = append([]cdefer{}, f.defers...)
			q.fs = append(q.fs, g)
		}
		n.ps = append(n.ps, q)
	}
	return n
}

func (s *cstate) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v%v", s.done, s.began)
	for _, c := range s.ch {
		fmt.Fprintf(&b, "|%d/%d%v", c.n, c.cap, c.closed)
	}
	ks := make([]string, 0, len(s.mem))
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString("|" + k + "=")
		s.mem[k].key(&b)
	}
	for _, p := range s.ps {
		fmt.Fprintf(&b, "#%d%v%v", p.id, p.ended, p.panics)
		for _, f := range p.fs {
			fmt.Fprintf(&b, "{%p %d %d %v%v", f.fn, f.b.Index, f.i, f.unwind, f.rets)
			if f.prev != nil {
				fmt.Fprintf(&b, "<%d", f.prev.Index)
			}
			var es []string
			for v, x := range f.env {
				if x.k != 0 {
					var c strings.Builder
					c.WriteString(v.Name() + "=")
					x.key(&c)
					es = append(es, c.String())
				}
			}
			sort.Strings(es)
			b.WriteString(strings.Join(es, ";"))
			for _, d := range f.defers {
				b.WriteByte('!')
				d.f.key(&b)
				for _, a := range d.args {
					a.key(&b)
				}
			}
			for _, r := range f.ret {
				r.key(&b)
			}
			b.WriteByte('}')
		}
		var ss []string
		for k, v := range p.sites {
			ss = append(ss, fmt.Sprint(k, v))
		}
		sort.Strings(ss)
		b.WriteString(strings.Join(ss, ","))
	}
	return b.String()
}

// comm explores the behaviours of a function.
type comm struct {
	p       *Program
	root    *ssa.Function
	talks   map[*ssa.Function]bool // does channel operations, itself or by what it calls
	closed  map[*ssa.Function]bool // starts and ends its own goroutines: a call is one step
	seen    map[*ssa.Function]bool // entered
	bad     []string
	fatal   []string
	states  int
	moves   int
	procs   int
	chans   int
	finals  int
	liveOut map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	phis    map[*ssa.Phi]bool
}

const (
	maxStates = 400000
	maxInt    = 16
	maxProcs  = 40
)

func (c *comm) note(l *[]string, format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range *l {
		if x == s {
			return
		}
	}
	if len(*l) < 8 {
		*l = append(*l, s)
	}
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

func isWaitGroup(t types.Type) bool { return strings.TrimPrefix(t.String(), "*") == "sync.WaitGroup" }

// ctxDone reports whether a channel is that of a context.
func ctxDone(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Done" && c.Call.Value.Type().String() == "context.Context"
}

// communicating finds the functions that do operations on channels, other than to look at a context, or on wait groups.
func communicating(p *Program) map[*ssa.Function]bool {
	talks := map[*ssa.Function]bool{}
	fns := p.bodies()
	own := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Go, *ssa.Send, *ssa.MakeChan:
					return true
				case *ssa.Select:
					for _, s := range i.States {
						if !ctxDone(s.Chan) {
							return true
						}
					}
					if i.Blocking {
						return true
					}
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						return true
					}
				case *ssa.Range:
					if isChan(i.X.Type()) {
						return true
					}
				case ssa.CallInstruction:
					c := i.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "close" {
						return true
					}
					if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && isWaitGroup(f.Signature.Recv().Type()) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range fns {
		if own(fn) {
			talks[fn] = true
		}
	}
	for grew := true; grew; {
		grew = false
		for _, fn := range fns {
			if talks[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						for _, g := range callees(p, ci.Common()) {
							if talks[g] {
								talks[fn] = true
							}
						}
					}
					if m, ok := i.(*ssa.MakeClosure); ok && talks[body(m.Fn.(*ssa.Function))] {
						talks[fn] = true
					}
				}
			}
			grew = grew || talks[fn]
		}
	}
	return talks
}

// callees are the functions of the repository a call may reach: for a call through an interface, the
// methods of that name with as many parameters and results.
func callees(p *Program, c *ssa.CallCommon) (l []*ssa.Function) {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{body(f)}
	}
	if !c.IsInvoke() {
		return nil
	}
	sig := c.Method.Type().(*types.Signature)
	for _, fn := range p.bodies() {
		if fn.Signature.Recv() != nil && fn.Name() == c.Method.Name() && fn.Signature.Params().Len() == sig.Params().Len() && fn.Signature.Results().Len() == sig.Results().Len() {
			l = append(l, fn)
		}
	}
	return
}

// selfContained reports whether a function neither takes nor returns a channel, a wait group or a function.
func selfContained(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	carries := func(t types.Type) bool {
		_, isFn := t.Underlying().(*types.Signature)
		return isFn || isChan(t) || isWaitGroup(t)
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if carries(fn.Signature.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if carries(fn.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (f *cframe) val(c *comm, v ssa.Value) cv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.IsNil() {
				return cv{k: 'n'}
			}
			return cv{}
		}
		switch v.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok && n >= -maxInt && n <= maxInt {
				return cv{k: 'i', n: int(n)}
			}
		case constant.Bool:
			if constant.BoolVal(v.Value) {
				return cv{k: 'b', n: 1}
			}
			return cv{k: 'b'}
		}
		return cv{}
	case *ssa.Function:
		return cv{k: 'f', fn: body(v)}
	case *ssa.Builtin:
		return cv{k: 'f', blt: v.Name()}
	case *ssa.FreeVar:
		for i, w := range f.fn.FreeVars {
			if w == v && i < len(f.free) {
				return f.free[i]
			}
		}
		return cv{}
	case *ssa.Global:
		return cv{k: 'p', s: "global " + v.Name()}
	}
	return f.env[v]
}

func (f *cframe) set(v ssa.Value, x cv) {
	if x.k == 0 {
		delete(f.env, v)
		return
	}
	f.env[v] = x
}

func (p *cproc) top() *cframe { return &p.fs[len(p.fs)-1] }

// op is what a process waits to do.
type cop struct {
	kind  string // send, recv, select, close, add, wait
	ch    cv
	val   cv
	instr ssa.Instruction
	sel   *ssa.Select
	delta int
}

// next is the operation the process is at.
func (c *comm) next(s *cstate, p *cproc) *cop {
	if p.ended || len(p.fs) == 0 {
		return nil
	}
	f := p.top()
	if f.unwind || f.rets {
		if len(f.defers) == 0 {
			return nil
		}
		d := f.defers[len(f.defers)-1]
		if d.f.blt == "close" {
			return &cop{kind: "close", ch: d.args[0]}
		}
		if o := c.group(s, d.f, d.args); o != nil {
			return o
		}
		return nil
	}
	switch x := f.b.Instrs[f.i].(type) {
	case *ssa.Send:
		return &cop{kind: "send", ch: f.val(c, x.Chan), val: f.val(c, x.X), instr: x}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return &cop{kind: "recv", ch: f.val(c, x.X), instr: x}
		}
	case *ssa.Select:
		return &cop{kind: "select", sel: x, instr: x}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return &cop{kind: "close", ch: f.val(c, x.Call.Args[0]), instr: x}
		}
		if g := x.Call.StaticCallee(); g != nil {
			var args []cv
			for _, a := range x.Call.Args {
				args = append(args, f.val(c, a))
			}
			if o := c.group(s, cv{k: 'f', fn: body(g)}, args); o != nil {
				o.instr = x
				return o
			}
		}
	}
	return nil
}

// group is an operation of a wait group.
func (c *comm) group(s *cstate, f cv, args []cv) *cop {
	if f.fn == nil || f.fn.Signature.Recv() == nil || !isWaitGroup(f.fn.Signature.Recv().Type()) || len(args) == 0 {
		return nil
	}
	if args[0].k != 'p' {
		c.note(&c.fatal, "a wait group that is not known")
		return nil
	}
	o := &cop{ch: args[0]}
	switch f.fn.Name() {
	case "Add":
		o.kind = "add"
		if len(args) < 2 || args[1].k != 'i' {
			c.note(&c.fatal, "a wait group counts by what is not known")
			return nil
		}
		o.delta = args[1].n
	case "Done":
		o.kind, o.delta = "add", -1
	case "Wait":
		o.kind = "wait"
	default:
		c.note(&c.fatal, "WaitGroup.%s", f.fn.Name())
		return nil
	}
	return o
}

// settle runs what the process does on its own up to its next operation, in every way.
func (c *comm) settle(s *cstate, pid int) (out []*cstate) {
	seen := map[string]bool{}
	work := []*cstate{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		p := s.ps[pid]
		for {
			if p.ended || c.next(s, p) != nil {
				out = append(out, s)
				break
			}
			c.moves++
			more, branch := c.local(s, p)
			if branch || more != nil {
				for _, t := range append(more, s) {
					c.tidy(t)
					k := t.key()
					if !seen[k] {
						seen[k] = true
						work = append(work, t)
					}
				}
				break
			}
			if len(seen) > maxStates || len(c.fatal) > 0 {
				c.note(&c.fatal, "more states than can be gone through")
				return nil
			}
		}
	}
	return
}

func (c *comm) pos(i ssa.Instruction) string { return c.p.instrPos(i) }

// local does one step that is not an operation; more are other outcomes, branch says that the
// step was the end of a block.
func (c *comm) local(s *cstate, p *cproc) (more []*cstate, branch bool) {
	f := p.top()
	if f.unwind || f.rets {
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			c.enter(s, p, nil, d.f, d.args)
			return nil, false
		}
		if f.rets && !f.unwind {
			// RunDefers is done
			f.rets = false
			f.i++
			return nil, false
		}
		c.leave(s, p, nil, true)
		return nil, false
	}
	jump := func(to *ssa.BasicBlock) {
		vals := map[*ssa.Phi]cv{}
		for k, pr := range to.Preds {
			if pr != f.b {
				continue
			}
			for _, i := range to.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					vals[ph] = f.val(c, ph.Edges[k])
				}
			}
			break
		}
		for ph, v := range vals {
			if v.k == 'i' && !c.counts(ph) {
				v = cv{}
			}
			f.set(ph, v)
		}
		f.prev, f.b, f.i = f.b, to, 0
		for f.i < len(to.Instrs) {
			if _, ok := to.Instrs[f.i].(*ssa.Phi); !ok {
				break
			}
			f.i++
		}
	}
	switch x := f.b.Instrs[f.i].(type) {
	case *ssa.If:
		v := f.val(c, x.Cond)
		if v.k == 'b' {
			jump(f.b.Succs[1-v.n])
			return nil, true
		}
		t := s.clone()
		b := f.b
		jump(b.Succs[0])
		f = t.ps[p.id].top()
		jump(f.b.Succs[1])
		return []*cstate{t}, true
	case *ssa.Jump:
		jump(f.b.Succs[0])
		return nil, true
	case *ssa.Return:
		var l []cv
		for _, r := range x.Results {
			l = append(l, f.val(c, r))
		}
		c.leave(s, p, l, false)
	case *ssa.Panic:
		f.unwind = true
	case *ssa.RunDefers:
		f.rets = true
	case *ssa.Defer:
		d := cdefer{pos: x.Pos()}
		d.f = f.val(c, x.Call.Value)
		if x.Call.IsInvoke() {
			d.f = cv{}
		} else if g := x.Call.StaticCallee(); g != nil && d.f.k != 'f' {
			d.f = cv{k: 'f', fn: body(g)}
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, f.val(c, a))
		}
		f.defers = append(f.defers, d)
		f.i++
	case *ssa.Go:
		c.spawn(s, p, x)
	case *ssa.Call:
		return c.call(s, p, x), false
	default:
		c.plain(s, p, f, x)
		f.i++
	}
	return nil, false
}

// leave ends the top frame with the results, or in a panic.
func (c *comm) leave(s *cstate, p *cproc, l []cv, panics bool) {
	f := p.top()
	call := f.call
	p.fs = p.fs[:len(p.fs)-1]
	if len(p.fs) == 0 {
		p.ended, p.panics = true, panics
		p.fs = nil
		return
	}
	g := p.top()
	if panics {
		g.unwind = true
		return
	}
	if g.unwind || g.rets {
		return // a deferred call
	}
	if call != nil {
		switch len(l) {
		case 0:
		case 1:
			g.set(call, l[0])
		default:
			g.set(call, cv{k: 't', el: l})
		}
	}
	g.i++
}

// enter calls a function; the results go to the value.
func (c *comm) enter(s *cstate, p *cproc, call ssa.Value, f cv, args []cv) bool {
	if f.k != 'f' || f.fn == nil || len(f.fn.Blocks) == 0 || !c.p.inScope(f.fn) || !c.talks[f.fn] {
		return false
	}
	if c.closed[f.fn] || f.fn == c.root {
		return false
	}
	for _, g := range p.fs {
		if g.fn == f.fn {
			c.note(&c.fatal, "%s calls itself", funcName(f.fn))
			return false
		}
	}
	n := cframe{fn: f.fn, b: f.fn.Blocks[0], env: map[ssa.Value]cv{}, free: f.el, call: call}
	for i, q := range f.fn.Params {
		if i < len(args) {
			n.set(q, args[i])
		}
	}
	c.seen[f.fn] = true
	p.fs = append(p.fs, n)
	return true
}

func (c *comm) spawn(s *cstate, p *cproc, x *ssa.Go) {
	f := p.top()
	s.began = true
	var args []cv
	for _, a := range x.Call.Args {
		args = append(args, f.val(c, a))
	}
	v := f.val(c, x.Call.Value)
	if x.Call.IsInvoke() {
		v = cv{}
	} else if g := x.Call.StaticCallee(); g != nil && v.k != 'f' {
		v = cv{k: 'f', fn: body(g)}
	}
	if v.k != 'f' {
		c.note(&c.fatal, "%s: the function started as a goroutine is not known", c.pos(x))
	}
	f.i++
	if len(s.ps) >= maxProcs {
		c.note(&c.fatal, "%s: goroutines without a bound", c.pos(x))
		return
	}
	q := &cproc{id: len(s.ps), sites: map[string]int{}}
	s.ps = append(s.ps, q)
	if len(s.ps) > c.procs {
		c.procs = len(s.ps)
	}
	if !c.enter(s, q, nil, v, args) {
		if v.fn == c.root {
			c.note(&c.fatal, "%s: starts itself as a goroutine", c.pos(x))
		}
		q.ended = true // does nothing on channels
	}
}

func (c *comm) call(s *cstate, p *cproc, x *ssa.Call) (more []*cstate) {
	f := p.top()
	var args []cv
	for _, a := range x.Call.Args {
		args = append(args, f.val(c, a))
	}
	skip := func(f *cframe) { f.set(x, cv{}); f.i++ }
	if x.Call.IsInvoke() {
		if ctxDone(x) {
			f.set(x, cv{k: 'D'})
			f.i++
			return
		}
		recv := f.val(c, x.Call.Value)
		var l []*ssa.Function
		all := callees(c.p, &x.Call)
		if recv.k == 'I' {
			if fn, path := c.p.method(namedType(recv.t), x.Call.Method.Name()); fn != nil && len(path) == 0 {
				all = []*ssa.Function{body(fn)}
			}
			recv = recv.el[0]
		}
		quiet := len(all) == 0
		for _, g := range all {
			if c.talks[g] && !c.closed[g] {
				l = append(l, g)
			} else {
				quiet = true
			}
		}
		if len(l) == 0 {
			skip(f)
			return
		}
		n := len(l)
		if quiet {
			n++
		}
		states := []*cstate{s}
		for i := 1; i < n; i++ {
			states = append(states, s.clone())
		}
		for i, t := range states {
			q := t.ps[p.id]
			if i >= len(l) || !c.enter(t, q, x, cv{k: 'f', fn: l[i]}, append([]cv{recv}, args...)) {
				skip(q.top())
			}
		}
		return states[1:]
	}
	v := f.val(c, x.Call.Value)
	if g := x.Call.StaticCallee(); g != nil {
		if v.k != 'f' {
			v = cv{k: 'f', fn: body(g)}
		}
		if c.p.noReturn(g) {
			f.unwind = true
			return
		}
	}
	if v.k == 'f' && v.fn != nil && c.closed[v.fn] && c.talks[v.fn] && v.fn != c.root {
		// it starts and ends its own goroutines; that is decided for itself
		skip(f)
		return
	}
	if !c.enter(s, p, x, v, args) {
		for _, a := range args {
			if a.k == 'c' && v.k == 'f' && v.blt == "" && v.fn != nil && c.talks[v.fn] {
				c.note(&c.fatal, "%s: a channel is given to %s", c.pos(x), v.fn.Name())
			}
		}
		if v.blt == "append" && len(args) == 2 {
			a, b := args[0], args[1]
			if a.k == 'n' {
				a = cv{k: 's'}
			}
			if a.k == 's' && b.k == 's' && a.n+b.n <= maxProcs {
				n := cv{k: 's', s: c.fresh(p, f, "s"), n: a.n + b.n}
				if !strings.Contains(n.s, "#many") {
					from := func(o cv, at int) {
						for i := 0; i < o.n; i++ {
							k := fmt.Sprintf("%s.%d", o.s, i)
							for m, v := range s.mem {
								if m == k || strings.HasPrefix(m, k+".") {
									s.mem[fmt.Sprintf("%s.%d%s", n.s, at+i, m[len(k):])] = v
								}
							}
						}
					}
					from(a, 0)
					from(b, a.n)
					f.set(x, n)
					f.i++
					return
				}
			}
		}
		if v.blt == "len" && args[0].k == 's' && args[0].n <= maxInt {
			f.set(x, cv{k: 'i', n: args[0].n})
			f.i++
			return
		}
		if v.k == 'f' && v.blt != "" && (v.blt == "len" || v.blt == "cap") {
			skip(f)
			return
		}
		if v.k == 0 {
			for _, a := range args {
				if a.k == 'c' {
					c.note(&c.fatal, "%s: a channel is given to a function that is not known", c.pos(x))
				}
			}
		}
		skip(f)
	}
	return
}

// fresh names memory that is made at an instruction.
func (c *comm) fresh(p *cproc, f *cframe, kind string) string {
	k := fmt.Sprintf("%s%d/%d/%d@%p", kind, p.id, f.b.Index, f.i, f.fn)
	n := p.sites[k]
	p.sites[k] = n + 1
	if n >= maxInt {
		p.sites[k] = maxInt
		return k + "#many"
	}
	return fmt.Sprintf("%s#%d", k, n)
}

// plain does an instruction that neither branches, calls nor communicates.
func (c *comm) plain(s *cstate, p *cproc, f *cframe, x ssa.Instruction) {
	fresh := func(kind string) string { return c.fresh(p, f, kind) }
	switch x := x.(type) {
	case *ssa.MakeChan:
		n := f.val(c, x.Size)
		if n.k != 'i' {
			c.note(&c.fatal, "%s: a channel of unknown capacity", c.pos(x))
			return
		}
		if len(s.ch) > maxProcs {
			c.note(&c.fatal, "%s: channels without a bound", c.pos(x))
			return
		}
		s.ch = append(s.ch, cchan{cap: n.n, what: c.pos(x)})
		if len(s.ch) > c.chans {
			c.chans = len(s.ch)
		}
		f.set(x, cv{k: 'c', n: len(s.ch) - 1})
	case *ssa.Alloc:
		k := fresh("a")
		for m := range s.mem {
			if m == k || strings.HasPrefix(m, k+".") {
				delete(s.mem, m)
			}
		}
		f.set(x, cv{k: 'p', s: k})
		// zero values
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if strings.HasSuffix(k, "#many") {
			return
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				s.mem[k] = cv{k: 'i'}
			} else if b.Info()&types.IsBoolean != 0 {
				s.mem[k] = cv{k: 'b'}
			}
		} else if isChan(t) {
			s.mem[k] = cv{k: 'n'}
		}
	case *ssa.FieldAddr:
		if v := f.val(c, x.X); v.k == 'p' {
			f.set(x, cv{k: 'p', s: fmt.Sprintf("%s.%d", v.s, x.Field)})
		} else {
			f.set(x, cv{})
		}
	case *ssa.IndexAddr:
		v, i := f.val(c, x.X), f.val(c, x.Index)
		if (v.k == 'p' || v.k == 's' && i.n < v.n) && i.k == 'i' && i.n >= 0 {
			f.set(x, cv{k: 'p', s: fmt.Sprintf("%s.%d", v.s, i.n)})
		} else {
			if (v.k == 'p' || v.k == 's') && isChan(x.Type().Underlying().(*types.Pointer).Elem()) {
				c.note(&c.fatal, "%s: a channel among many", c.pos(x))
			}
			f.set(x, cv{})
		}
	case *ssa.Store:
		a, v := f.val(c, x.Addr), f.val(c, x.Val)
		if a.k != 'p' {
			if v.k == 'c' {
				c.note(&c.fatal, "%s: a channel is stored where it is not known", c.pos(x))
			}
			return
		}
		for m := range s.mem {
			if strings.HasPrefix(m, a.s+".") {
				delete(s.mem, m)
			}
		}
		if strings.Contains(a.s, "#many") {
			if v.k == 'c' {
				c.note(&c.fatal, "%s: channels without a bound", c.pos(x))
			}
			delete(s.mem, a.s)
			return
		}
		if v.k == 't' { // a struct
			for i, e := range v.el {
				s.store(fmt.Sprintf("%s.%d", a.s, i), e)
			}
			return
		}
		s.store(a.s, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := f.val(c, x.X)
			if a.k != 'p' {
				f.set(x, cv{})
				return
			}
			if st, ok := x.Type().Underlying().(*types.Struct); ok {
				v := cv{k: 't'}
				for i := 0; i < st.NumFields(); i++ {
					v.el = append(v.el, s.mem[fmt.Sprintf("%s.%d", a.s, i)])
				}
				f.set(x, v)
				return
			}
			f.set(x, s.mem[a.s])
		case token.NOT:
			if v := f.val(c, x.X); v.k == 'b' {
				f.set(x, cv{k: 'b', n: 1 - v.n})
				return
			}
			f.set(x, cv{})
		case token.SUB:
			if v := f.val(c, x.X); v.k == 'i' {
				f.set(x, cv{k: 'i', n: -v.n})
				return
			}
			f.set(x, cv{})
		}
	case *ssa.Field:
		v := f.val(c, x.X)
		if v.k == 't' && x.Field < len(v.el) {
			f.set(x, v.el[x.Field])
			return
		}
		f.set(x, cv{})
	case *ssa.Extract:
		v := f.val(c, x.Tuple)
		if v.k == 't' && x.Index < len(v.el) {
			f.set(x, v.el[x.Index])
			return
		}
		f.set(x, cv{})
	case *ssa.BinOp:
		f.set(x, binop(x.Op, f.val(c, x.X), f.val(c, x.Y)))
	case *ssa.MakeClosure:
		v := cv{k: 'f', fn: body(x.Fn.(*ssa.Function))}
		for _, b := range x.Bindings {
			v.el = append(v.el, f.val(c, b))
		}
		f.set(x, v)
	case *ssa.Slice:
		v := f.val(c, x.X)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && v.k == 'p' && x.Low == nil && x.High == nil {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok && a.Len() <= maxProcs {
				f.set(x, cv{k: 's', s: v.s, n: int(a.Len())})
				return
			}
		}
		if v.k == 's' && x.Low == nil {
			if x.High == nil {
				f.set(x, v)
				return
			}
			if n := f.val(c, x.High); n.k == 'i' && n.n >= 0 && n.n <= v.n {
				f.set(x, cv{k: 's', s: v.s, n: n.n})
				return
			}
		}
		f.set(x, cv{})
	case *ssa.MakeSlice:
		if n := f.val(c, x.Len); n.k == 'i' {
			k := fresh("s")
			f.set(x, cv{k: 's', s: k, n: n.n})
			return
		}
		f.set(x, cv{})
	case *ssa.MakeInterface:
		f.set(x, cv{k: 'I', t: x.X.Type(), el: []cv{f.val(c, x.X)}})
	case *ssa.ChangeType:
		f.set(x, f.val(c, x.X))
	case *ssa.ChangeInterface:
		f.set(x, f.val(c, x.X))
	case *ssa.TypeAssert:
		v := f.val(c, x.X)
		if v.k == 'I' && types.Identical(v.t, x.AssertedType) {
			v = v.el[0]
		} else if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
			v = cv{}
		}
		if x.CommaOk {
			v = cv{k: 't', el: []cv{v, {}}}
		}
		f.set(x, v)
	case ssa.Value:
		if isChan(x.Type()) {
			c.note(&c.fatal, "%s: a channel that is not followed", c.pos(x.(ssa.Instruction)))
		}
		f.set(x, cv{})
	case *ssa.MapUpdate:
		if f.val(c, x.Value).k == 'c' {
			c.note(&c.fatal, "%s: a channel in a map", c.pos(x))
		}
	case *ssa.DebugRef:
	default:
		c.note(&c.fatal, "%s: %T", c.pos(x), x)
	}
}

// live are the values that are used at or after an instruction.
func (c *comm) live(b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	fn := b.Parent()
	out, ok := c.liveOut[fn]
	if !ok {
		out = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			out[b] = map[ssa.Value]bool{}
		}
		for grew := true; grew; {
			grew = false
			for k := len(fn.Blocks) - 1; k >= 0; k-- {
				b := fn.Blocks[k]
				for _, t := range b.Succs {
					for v := range liveAt(t, 0, out[t]) {
						if p, ok := v.(*ssa.Phi); ok && p.Block() == t {
							continue
						}
						if !out[b][v] {
							out[b][v], grew = true, true
						}
					}
					for j, p := range t.Preds {
						if p != b {
							continue
						}
						for _, i := range t.Instrs {
							if ph, ok := i.(*ssa.Phi); ok && !out[b][ph.Edges[j]] {
								out[b][ph.Edges[j]], grew = true, true
							}
						}
					}
				}
			}
		}
		if c.liveOut == nil {
			c.liveOut = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
		}
		c.liveOut[fn] = out
	}
	return liveAt(b, i, out[b])
}

func liveAt(b *ssa.BasicBlock, i int, out map[ssa.Value]bool) map[ssa.Value]bool {
	l := make(map[ssa.Value]bool, len(out))
	for v := range out {
		l[v] = true
	}
	for j := len(b.Instrs) - 1; j >= i; j-- {
		x := b.Instrs[j]
		if v, ok := x.(ssa.Value); ok {
			delete(l, v)
		}
		if _, ok := x.(*ssa.Phi); ok {
			continue
		}
		for _, o := range x.Operands(nil) {
			if *o != nil {
				l[*o] = true
			}
		}
	}
	return l
}

func (c *comm) counts(ph *ssa.Phi) bool {
	if b, ok := c.phis[ph]; ok {
		return b
	}
	if c.phis == nil {
		c.phis = map[*ssa.Phi]bool{}
	}
	c.phis[ph] = bounded(ph)
	return c.phis[ph]
}

// tidy forgets what can no longer be used.
func (c *comm) tidy(s *cstate) {
	used := map[string]bool{}
	var walk func(v cv)
	var mark func(k string)
	under := func(k string) string {
		if i := strings.IndexByte(k, '#'); i >= 0 {
			if j := strings.IndexByte(k[i:], '.'); j >= 0 {
				return k[:i+j]
			}
		} else if j := strings.IndexByte(k, '.'); j >= 0 {
			return k[:j]
		}
		return k
	}
	mem := map[string][]string{}
	for k := range s.mem {
		mem[under(k)] = append(mem[under(k)], k)
	}
	mark = func(k string) {
		k = under(k)
		if used[k] {
			return
		}
		used[k] = true
		for _, m := range mem[k] {
			walk(s.mem[m])
		}
	}
	walk = func(v cv) {
		if v.k == 'p' || v.k == 's' {
			mark(v.s)
		}
		for _, e := range v.el {
			walk(e)
		}
	}
	for k := range mem {
		if strings.HasPrefix(k, "global ") {
			mark(k)
		}
	}
	for _, p := range s.ps {
		for i := range p.fs {
			f := &p.fs[i]
			if f.unwind {
				f.env = map[ssa.Value]cv{}
			} else {
				l := c.live(f.b, f.i)
				for v := range f.env {
					if !l[v] {
						delete(f.env, v)
					}
				}
			}
			f.prev = nil
			for _, v := range f.env {
				walk(v)
			}
			for _, v := range f.free {
				walk(v)
			}
			for _, v := range f.ret {
				walk(v)
			}
			for _, d := range f.defers {
				walk(d.f)
				for _, a := range d.args {
					walk(a)
				}
			}
		}
		p.sites = map[string]int{}
	}
	// a name that is no longer used is free
	for k := range used {
		i, at := strings.IndexByte(k, '#'), strings.IndexByte(k, '/')
		if i < 0 || at < 0 {
			continue
		}
		var n, id int
		if _, err := fmt.Sscan(k[i+1:], &n); err != nil {
			n = maxInt - 1
		}
		if _, err := fmt.Sscan(k[1:at], &id); err != nil || id >= len(s.ps) {
			continue
		}
		if p := s.ps[id]; p.sites[k[:i]] <= n {
			p.sites[k[:i]] = n + 1
		}
	}
	for k, l := range mem {
		if !used[k] {
			for _, m := range l {
				delete(s.mem, m)
			}
		}
	}
}

// bounded reports whether a counter is compared with what is known.
func bounded(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var known func(v ssa.Value, d int) bool
	known = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.BinOp:
			return d < 4 && known(v.X, d+1) && known(v.Y, d+1)
		case *ssa.UnOp:
			return v.Op == token.MUL
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			return ok && (b.Name() == "len" || b.Name() == "cap")
		case *ssa.Phi, *ssa.FreeVar:
			return true
		}
		return false
	}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.BinOp:
				switch u.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					o := u.X
					if o == v {
						o = u.Y
					}
					if known(o, 0) {
						return true
					}
				default:
					if uses(u) {
						return true
					}
				}
			case *ssa.Phi:
				if uses(u) {
					return true
				}
			case *ssa.MakeChan, *ssa.Send, *ssa.Return:
				return true
			}
		}
		return false
	}
	return uses(ph)
}

func (s *cstate) store(k string, v cv) {
	if v.k == 0 {
		delete(s.mem, k)
		return
	}
	s.mem[k] = v
}

func binop(op token.Token, a, b cv) cv {
	truth := func(b bool) cv {
		if b {
			return cv{k: 'b', n: 1}
		}
		return cv{k: 'b'}
	}
	if a.k == 'i' && b.k == 'i' {
		num := func(n int) cv {
			if n > maxInt || n < -maxInt {
				return cv{}
			}
			return cv{k: 'i', n: n}
		}
		switch op {
		case token.ADD:
			return num(a.n + b.n)
		case token.SUB:
			return num(a.n - b.n)
		case token.MUL:
			return num(a.n * b.n)
		case token.LSS:
			return truth(a.n < b.n)
		case token.LEQ:
			return truth(a.n <= b.n)
		case token.GTR:
			return truth(a.n > b.n)
		case token.GEQ:
			return truth(a.n >= b.n)
		case token.EQL:
			return truth(a.n == b.n)
		case token.NEQ:
			return truth(a.n != b.n)
		}
		return cv{}
	}
	if a.k == 'b' && b.k == 'b' || (a.k == 'c' || a.k == 'n') && (b.k == 'c' || b.k == 'n') {
		eq := a.k == b.k && a.n == b.n
		switch op {
		case token.EQL:
			return truth(eq)
		case token.NEQ:
			return truth(!eq)
		}
	}
	return cv{}
}

// offer is one thing a process is ready to do.
type offer struct {
	p    int
	send bool
	ch   cv
	val  cv
	sel  int // index of the case of a select, or -1
	op   *cop
}

func (c *comm) offers(s *cstate, p *cproc) (l []offer, blocking bool) {
	o := c.next(s, p)
	if o == nil {
		return nil, true
	}
	switch o.kind {
	case "send":
		return []offer{{p.id, true, o.ch, o.val, -1, o}}, true
	case "recv":
		return []offer{{p.id, false, o.ch, cv{}, -1, o}}, true
	case "select":
		f := p.top()
		for i, st := range o.sel.States {
			x := offer{p: p.id, send: st.Dir == types.SendOnly, ch: f.val(c, st.Chan), sel: i, op: o}
			if x.send {
				x.val = f.val(c, st.Send)
			}
			l = append(l, x)
		}
		return l, o.sel.Blocking
	}
	return nil, true
}

// took ends an operation of a process: it received v.
func (c *comm) took(s *cstate, o offer, v cv, ok bool) {
	p := s.ps[o.p]
	f := p.top()
	if f.unwind || f.rets {
		f.defers = f.defers[:len(f.defers)-1]
		return
	}
	switch x := f.b.Instrs[f.i].(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			b := cv{k: 'b'}
			if ok {
				b.n = 1
			}
			v = cv{k: 't', el: []cv{v, b}}
		}
		f.set(x, v)
	case *ssa.Select:
		b := cv{k: 'b'}
		if ok {
			b.n = 1
		}
		t := cv{k: 't', el: []cv{{k: 'i', n: o.sel}, b}}
		for i, st := range x.States {
			if st.Dir == types.RecvOnly {
				if i == o.sel {
					t.el = append(t.el, v)
				} else {
					t.el = append(t.el, cv{})
				}
			}
		}
		f.set(x, t)
	case *ssa.Call:
		f.set(x, cv{})
	}
	f.i++
}

// steps are the states after one operation of one or two processes, each with the processes that went on;
// sure says that at least one of them can happen whatever the context does.
func (c *comm) steps(s *cstate) (out []*cstate, who [][]int, sure bool) {
	add := func(t *cstate, ps ...int) { out = append(out, t); who = append(who, ps) }
	var all []offer
	block := map[int]bool{}
	for _, p := range s.ps {
		if p.ended {
			continue
		}
		l, b := c.offers(s, p)
		block[p.id] = b
		all = append(all, l...)
		o := c.next(s, p)
		if o == nil {
			continue
		}
		switch o.kind {
		case "close":
			sure = true
			switch {
			case o.ch.k == 'n':
				c.note(&c.bad, "%s: closes a channel that is nil", c.at(p))
			case o.ch.k != 'c':
				c.note(&c.fatal, "%s: closes a channel that is not known", c.at(p))
			case s.ch[o.ch.n].closed:
				c.note(&c.bad, "%s: closes a channel that may be closed", c.at(p))
			default:
				t := s.clone()
				t.ch[o.ch.n].closed = true
				c.took(t, offer{p: p.id}, cv{}, false)
				add(t, p.id)
			}
		case "add":
			sure = true
			t := s.clone()
			k := o.ch.s + ".count"
			n := t.mem[k].n + o.delta
			if n < 0 {
				c.note(&c.bad, "%s: a wait group counts below zero", c.at(p))
				continue
			}
			if n > maxProcs {
				c.note(&c.fatal, "%s: a wait group without a bound", c.at(p))
				continue
			}
			t.mem[k] = cv{k: 'i', n: n}
			c.took(t, offer{p: p.id}, cv{}, false)
			add(t, p.id)
		case "wait":
			if s.mem[o.ch.s+".count"].n == 0 {
				sure = true
				t := s.clone()
				c.took(t, offer{p: p.id}, cv{}, false)
				add(t, p.id)
			}
		}
	}
	can := map[int]bool{}
	for _, o := range all {
		switch {
		case o.ch.k == 'n':
			// never ready
		case o.ch.k == 'D':
			t := s.clone()
			t.done = true
			c.took(t, o, cv{}, false)
			add(t, o.p)
			if s.done {
				sure = true
				can[o.p] = true
			}
		case o.ch.k != 'c':
			c.note(&c.fatal, "%s: an operation on a channel that is not known", c.at(s.ps[o.p]))
		case o.send:
			ch := s.ch[o.ch.n]
			if ch.closed {
				c.note(&c.bad, "%s: sends on a channel that may be closed", c.at(s.ps[o.p]))
				continue
			}
			if ch.n < ch.cap {
				t := s.clone()
				t.ch[o.ch.n].n++
				c.took(t, o, cv{}, false)
				add(t, o.p)
				sure, can[o.p] = true, true
				continue
			}
			if ch.cap > 0 {
				continue
			}
			for _, q := range all {
				if !q.send && q.p != o.p && q.ch.k == 'c' && q.ch.n == o.ch.n {
					t := s.clone()
					c.took(t, o, cv{}, false)
					c.took(t, q, o.val, true)
					add(t, o.p, q.p)
					sure, can[o.p], can[q.p] = true, true, true
				}
			}
		default:
			ch := s.ch[o.ch.n]
			if ch.n > 0 {
				t := s.clone()
				t.ch[o.ch.n].n--
				c.took(t, o, cv{}, true)
				add(t, o.p)
				sure, can[o.p] = true, true
			} else if ch.closed {
				t := s.clone()
				c.took(t, o, cv{}, false)
				add(t, o.p)
				sure, can[o.p] = true, true
			}
		}
	}
	// selects that do not wait
	for _, p := range s.ps {
		if o := c.next(s, p); o != nil && o.kind == "select" && !o.sel.Blocking {
			sure = true
			if !can[p.id] {
				t := s.clone()
				c.took(t, offer{p: p.id, sel: -1}, cv{}, false)
				add(t, p.id)
			}
		}
	}
	return
}

// at is where a process is.
func (c *comm) at(p *cproc) string {
	f := p.top()
	if f.unwind || f.rets {
		return c.p.pos(f.defers[len(f.defers)-1].pos)
	}
	return c.pos(f.b.Instrs[f.i])
}

// explore goes through all interleavings.
func (c *comm) explore() {
	s := &cstate{mem: map[string]cv{}}
	m := &cproc{sites: map[string]int{}}
	s.ps = []*cproc{m}
	c.procs = 1
	m.fs = []cframe{{fn: c.root, b: c.root.Blocks[0], env: map[ssa.Value]cv{}}}
	seen := map[string]bool{}
	var work []*cstate
	// settle the processes, those just started included
	var all func(s *cstate, from int)
	push := func(s *cstate) {
		c.tidy(s)
		k := s.key()
		if !seen[k] {
			seen[k] = true
			work = append(work, s)
		}
	}
	all = func(s *cstate, from int) {
		for i := from; i < len(s.ps); i++ {
			if s.ps[i].ended || c.next(s, s.ps[i]) != nil {
				continue
			}
			for _, t := range c.settle(s, i) {
				all(t, 0)
			}
			return
		}
		push(s)
	}
	all(s, 0)
	for len(work) > 0 && len(c.fatal) == 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c.states++
		if c.states > maxStates {
			c.note(&c.fatal, "more states than can be gone through")
			return
		}
		live := false
		for _, p := range s.ps {
			live = live || !p.ended
		}
		if !live {
			c.finals++
			continue
		}
		next, _, sure := c.steps(s)
		if !sure {
			var at []string
			for _, p := range s.ps {
				if !p.ended {
					at = append(at, c.at(p))
				}
			}
			// is it a goroutine that crashed?
			crashed := false
			for _, p := range s.ps[1:] {
				crashed = crashed || p.panics
			}
			switch {
			case crashed:
			case s.ps[0].panics:
				c.note(&c.bad, "panics and leaves a goroutine blocked for ever at %s", strings.Join(at, ", "))
			case s.ps[0].ended:
				c.note(&c.bad, "returns and leaves a goroutine blocked for ever at %s", strings.Join(at, ", "))
			default:
				c.note(&c.bad, "may block for ever: all wait at %s", strings.Join(at, ", "))
			}
		}
		for _, t := range next {
			all(t, 0)
		}
	}
}

// protocols are the functions whose goroutines have to end with them.
func protocols(p *Program, talks map[*ssa.Function]bool) (l []*ssa.Function) {
	for _, fn := range p.bodies() {
		if talks[fn] && selfContained(fn) {
			l = append(l, fn)
		}
	}
	sort.Slice(l, func(i, j int) bool { return funcName(l[i]) < funcName(l[j]) })
	return
}

func checkProtocols(r *Report) {
	const rule = "goroutines end"
	h := newHost(r, r.Prog)
	quiet := "no panic once goroutines run"
	h.feedJobs(r, quiet, func(f feed) bool { return true }, func(f feed) []string { return f.begun }, "panics only before")
	for _, fn := range h.dividing() {
		fn := fn
		for _, c := range []divideCase{{"(sparse,dense)", true, false}, {"(dense,dense)", false, false}} {
			c := c
			name := fn.Name() + c.name
			r.Job(quiet, name, func(r *Report) {
				_, _, in, n, _ := h.divideRun(body(fn), c, false)
				r.Count("returns_examined", n)
				settle(r, in, quiet, name, h.p.pos(fn.Pos()), begunPanics(in), "panics only before")
			})
		}
	}
	talks := communicating(r.Prog)
	roots := protocols(r.Prog, talks)
	closed := map[*ssa.Function]bool{}
	for _, fn := range roots {
		closed[fn] = true
	}
	covered := map[*ssa.Function]bool{}
	for _, fn := range roots {
		c := &comm{seen: covered, p: r.Prog, root: fn, talks: talks, closed: closed}
		c.explore()
		name, pos := funcName(fn), r.Prog.pos(fn.Pos())
		r.Count("states", c.states)
		r.Count("local steps", c.moves)
		switch {
		case len(c.bad) > 0:
			r.Bad(rule, name, pos, "%s", strings.Join(c.bad, "; "))
		case len(c.fatal) > 0:
			r.Undecided(rule, name, pos, "%s", strings.Join(c.fatal, "; "))
		case c.finals == 0:
			r.Bad(rule, name, pos, "no way of going on ends")
		default:
			r.OK(rule, name, pos, "%d states of up to %d goroutines and %d channels: every one goes on until all have ended", c.states, c.procs, c.chans)
		}
	}
	var rest []string
	for fn := range talks {
		if !closed[fn] && !covered[fn] {
			rest = append(rest, funcName(fn))
		}
	}
	sort.Strings(rest)
	for _, n := range rest {
		r.Undecided(rule, n, "", "works with channels, but no function starts and ends what it takes part in")
	}
}

func init() {
	register(&Check{ID: "C13", Level: "proof", MinObs: 20,
		Rules: "no panic once goroutines run: a panic on a mask or operand of another shape comes before the first goroutine; goroutines end: in every interleaving of the goroutines a function starts, with the context done at any time or never, nobody sends on or closes a closed channel, the function returns or panics, and its goroutines end",
		Run:   checkProtocols})
}
