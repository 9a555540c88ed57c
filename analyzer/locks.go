package main

// Lock discipline of the mutex matrix: a forward must-lockset analysis over the same call-path
// cloned frames as the points-to analysis. The state is the level of each mutex of the receiver
// (free, read, write) with the deferred releases pending in every frame; it is checked at every
// access to memory of the wrapped matrix, at every return, and at every instruction that can panic.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockState: level per mutex path ('U','R','W'), and the pending deferred calls, frame by frame.
type lockState struct {
	levels string     // e.g. ".0=W;" sorted
	acq    int        // how many times a lock was acquired so far, up to 2
	defers []deferRec // innermost last
}
type deferRec struct {
	f *frame
	d *ssa.Defer
}

func (s lockState) key() string {
	var b strings.Builder
	b.WriteString(s.levels)
	fmt.Fprintf(&b, "#%d", s.acq)
	for _, d := range s.defers {
		fmt.Fprintf(&b, "|%p,%p", d.f, d.d)
	}
	return b.String()
}
func (s lockState) level(mu string) byte {
	i := strings.Index(s.levels, mu+"=")
	if i < 0 {
		return 'U'
	}
	return s.levels[i+len(mu)+1]
}
func (s lockState) with(mu string, l byte) lockState {
	m := map[string]byte{}
	for _, p := range strings.Split(s.levels, ";") {
		if k, v, ok := strings.Cut(p, "="); ok {
			m[k] = v[0]
		}
	}
	if l == 'U' {
		delete(m, mu)
	} else {
		m[mu] = l
	}
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%c;", k, m[k])
	}
	s.levels = b.String()
	return s
}

func (s lockState) acquired() lockState {
	if s.acq < 2 {
		s.acq++
	}
	return s
}

type stateSet map[string]lockState

func (a stateSet) add(b stateSet) bool {
	ch := false
	for k, s := range b {
		if _, ok := a[k]; !ok {
			a[k] = s
			ch = true
		}
	}
	return ch
}

type lockWalk struct {
	e        *pta
	recv     *obj
	mutexes  map[*obj]string // those the receiver points to
	at       map[*frame]map[ssa.Instruction]stateSet
	active   map[*frame]bool
	errs     map[string]string // text by position and rule
	panicMem map[*ssa.Function]int
}

func (w *lockWalk) err(i ssa.Instruction, f *frame, format string, args ...any) {
	w.errs[w.e.p.instrPos(i)+": "+fmt.Sprintf(format, args...)+" (in "+w.e.path(f)+")"] = w.e.p.instrPos(i)
}

// mutexOp recognises the operations of the receiver's own mutexes.
func (w *lockWalk) mutexOp(f *frame, c *ssa.CallCommon) (op, mu string) {
	own := func(v val) (mu string) {
		for el := range v {
			switch {
			case el.t.o == w.recv:
				mu = el.t.path
			case w.mutexes[el.t.o] != "":
				mu = w.mutexes[el.t.o]
			default:
				return ""
			}
		}
		return
	}
	method := func(s string) bool {
		return strings.HasPrefix(s, "(*sync.RWMutex).") || strings.HasPrefix(s, "(*sync.Mutex).")
	}
	if fn := c.StaticCallee(); fn != nil && len(c.Args) > 0 && method(fn.String()) {
		if mu = own(w.e.get(f, c.Args[0])); mu == "" {
			return "", ""
		}
		return fn.Name(), mu
	}
	if c.IsInvoke() || len(c.Args) > 0 {
		return "", ""
	}
	// a method value
	for el := range w.e.get(f, c.Value) {
		fn := el.t.o.fn
		if el.t.o.kind != kFunc || fn == nil || len(el.t.o.binds) != 1 {
			return "", ""
		}
		m, ok := fn.Object().(*types.Func)
		if !ok || !method(m.FullName()) || op != "" && op != m.Name() {
			return "", ""
		}
		now := own(el.t.o.binds[0])
		if now == "" || mu != "" && mu != now {
			return "", ""
		}
		op, mu = m.Name(), now
	}
	return op, mu
}

func (w *lockWalk) apply(f *frame, i ssa.Instruction, s lockState, op, mu string) lockState {
	l := s.level(mu)
	switch op {
	case "Lock":
		if l != 'U' {
			w.err(i, f, "Lock while the lock is already held deadlocks")
		}
		return s.acquired().with(mu, 'W')
	case "RLock":
		if l != 'U' {
			w.err(i, f, "RLock while the lock is already held can deadlock")
		}
		return s.acquired().with(mu, 'R')
	case "Unlock":
		if l != 'W' {
			w.err(i, f, "Unlock of a lock that is not held for writing")
		}
		return s.with(mu, 'U')
	case "RUnlock":
		if l != 'R' {
			w.err(i, f, "RUnlock of a lock that is not held for reading")
		}
		return s.with(mu, 'U')
	default:
		w.err(i, f, "%s of the mutex is not modelled", op)
	}
	return s
}

// walk propagates in through the frame and returns the states at its returns.
func (w *lockWalk) walk(f *frame, in stateSet) stateSet {
	if w.active[f] {
		return in
	}
	w.active[f] = true
	defer delete(w.active, f)
	if len(f.fn.Blocks) == 0 {
		return in
	}
	entry := map[*ssa.BasicBlock]stateSet{f.fn.Blocks[0]: {}}
	entry[f.fn.Blocks[0]].add(in)
	out := stateSet{}
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	if w.at[f] == nil {
		w.at[f] = map[ssa.Instruction]stateSet{}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := stateSet{}
		cur.add(entry[b])
		stopped := false
		for _, i := range b.Instrs {
			if w.at[f][i] == nil {
				w.at[f][i] = stateSet{}
			}
			w.at[f][i].add(cur)
			var never bool
			cur, never = w.step(f, i, cur)
			if never {
				stopped = true
				break
			}
			if _, ok := i.(*ssa.Return); ok {
				out.add(cur)
			}
		}
		if stopped {
			continue
		}
		for _, s := range b.Succs {
			if !f.reach[s] {
				continue
			}
			if entry[s] == nil {
				entry[s] = stateSet{}
			}
			if entry[s].add(cur) {
				work = append(work, s)
			}
		}
	}
	return out
}

func (w *lockWalk) step(f *frame, i ssa.Instruction, cur stateSet) (stateSet, bool) {
	if w.mayPanic(f, i) {
		for _, s := range cur {
			end := w.unwind(f, i, s)
			if strings.Trim(end.levels, ";") != "" {
				w.err(i, f, "a panic here leaves the lock held (%s)", end.levels)
			}
		}
	}
	switch i := i.(type) {
	case *ssa.Defer:
		out := stateSet{}
		for _, s := range cur {
			ns := s
			ns.defers = append(append([]deferRec(nil), s.defers...), deferRec{f, i})
			out[ns.key()] = ns
		}
		return out, false
	case *ssa.RunDefers:
		out := stateSet{}
		for _, s := range cur {
			ns := w.runDefers(f, i, s, false)
			out[ns.key()] = ns
		}
		return out, false
	case *ssa.Go:
		// a goroutine holds none of the caller's locks
		init := lockState{}
		for k, kid := range f.kids {
			if k.site == ssa.Instruction(i) {
				end := w.walk(kid, stateSet{init.key(): init})
				for _, s := range end {
					if s.levels != "" {
						w.err(i, f, "the goroutine ends with the lock held")
					}
				}
			}
		}
		return cur, false
	case *ssa.Call:
		if op, mu := w.mutexOp(f, &i.Call); op != "" {
			out := stateSet{}
			for _, s := range cur {
				ns := w.apply(f, i, s, op, mu)
				out[ns.key()] = ns
			}
			return out, false
		}
		if fn := i.Call.StaticCallee(); fn != nil && w.e.p.noReturn(fn) {
			return cur, true
		}
		out := stateSet{}
		called := false
		for k, kid := range f.kids {
			if k.site == ssa.Instruction(i) {
				called = true
				out.add(w.walk(kid, cur))
			}
		}
		if called && len(out) > 0 {
			return out, false
		}
		return cur, false
	case *ssa.Panic:
		return cur, true
	}
	return cur, false
}

// runDefers runs the deferred calls of frame f, last first.
func (w *lockWalk) runDefers(f *frame, at ssa.Instruction, s lockState, quiet bool) lockState {
	for len(s.defers) > 0 && s.defers[len(s.defers)-1].f == f {
		d := s.defers[len(s.defers)-1].d
		s.defers = s.defers[:len(s.defers)-1]
		if op, mu := w.mutexOp(f, &d.Call); op != "" {
			if quiet {
				switch op {
				case "Unlock", "RUnlock":
					s = s.with(mu, 'U')
				}
			} else {
				s = w.apply(f, d, s, op, mu)
			}
			continue
		}
		for k, kid := range f.kids {
			if k.site == ssa.Instruction(d) {
				saved := w.errs
				if quiet {
					w.errs = map[string]string{}
				}
				out := w.walk(kid, stateSet{s.key(): s})
				if quiet {
					w.errs = saved
				}
				for _, o := range out {
					s = o // deferred calls that release on one path only are reported by their own walk
				}
			}
		}
	}
	return s
}

// unwind is the state after a panic has run every deferred call up to the entry.
func (w *lockWalk) unwind(f *frame, at ssa.Instruction, s lockState) lockState {
	for g := f; g != nil; g = g.parent {
		s = w.runDefers(g, at, s, true)
	}
	return s
}

// mayPanic is conservative for code of unknown origin, precise for the instructions of the repository.
func (w *lockWalk) mayPanic(f *frame, i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.Panic:
		return true
	case *ssa.IndexAddr:
		_, isSlice := i.X.Type().Underlying().(*types.Slice)
		return isSlice
	case *ssa.Slice:
		return i.Low != nil || i.High != nil
	case *ssa.TypeAssert:
		return !i.CommaOk
	case *ssa.Call:
		if op, _ := w.mutexOp(f, &i.Call); op != "" {
			return false
		}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "panic"
		}
		if fn := i.Call.StaticCallee(); fn != nil {
			if w.e.p.noReturn(fn) {
				return true
			}
			if !w.e.p.inScope(fn) {
				return false
			}
			return false // the callee's own instructions are examined
		}
		for k := range f.kids {
			if k.site == ssa.Instruction(i) {
				return false
			}
		}
		return !i.Call.IsInvoke() // a call of a function given by the user
	}
	return false
}

func init() {
	register(&Check{ID: "C04", Level: "proof", MinObs: 60,
		Rules: "For every method of MutexMatrix, and for the iterators it returns, a must-lockset analysis over call-path cloned frames: every write to memory of the wrapped matrix (for each storage format that can be wrapped) happens with the write lock held, every read of memory that some method writes with the read or write lock held; locks are free at every return and after unwinding from every instruction that can panic; no lock is taken twice; and the result cannot reach the wrapped matrix except through the mutex matrix itself.",
		Run:   func(r *Report) { runLocks(r, false) }})
	register(&Check{ID: "C30", Level: "proof", MinObs: 20,
		Rules: "The classical reduction: a history of calls on an object is linearizable when every call makes all its accesses of the shared state in one critical section of the lock that guards it. The must-lockset analysis of C04 also counts acquisitions: in no call of a method of MutexMatrix, or of an iterator it returns, do accesses of memory that some method writes happen after a second acquisition when there were accesses after the first, and every such access holds the lock.",
		Run:   func(r *Report) { runLocks(r, true) }})
}

func runLocks(r *Report, sections bool) {
	p := r.Prog
	mm := p.named("", "MutexMatrix")
	if mm == nil {
		r.Undecided("anchor", "type MutexMatrix", "", "not found")
		return
	}
	st := structOf(mm)
	var wrapped = -1
	var mutexes []string
	for i := 0; i < st.NumFields(); i++ {
		n := namedOf(st.Field(i).Type())
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			mutexes = append(mutexes, fmt.Sprintf(".%d", i))
		}
		if n != nil && n == p.named("", "Matrix") {
			wrapped = i
		}
	}
	if wrapped < 0 || len(mutexes) == 0 {
		r.Undecided("anchor", "fields of MutexMatrix", p.pos(mm.Obj().Pos()), "no wrapped matrix or no mutex")
		return
	}
	type runRec struct {
		en  *entry
		e   *pta
		w   *lockWalk
		ret val
	}
	var runs []runRec
	ms := types.NewMethodSet(types.NewPointer(mm))
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if len(sel.Index()) > 1 || !sel.Obj().Exported() {
			continue // promoted methods of the mutex
		}
		fn := p.SSA.FuncValue(sel.Obj().(*types.Func).Origin())
		if fn == nil {
			r.Undecided("anchor", "MutexMatrix."+sel.Obj().Name(), "", "no body")
			continue
		}
		en := &entry{name: "MutexMatrix." + sel.Obj().Name(), fn: fn, recv: mm, out: -1}
		e := newPTA(p)
		e.wantRead = true
		recv := e.newObj(kRoot, mm, "s:MutexMatrix")
		recv.root, recv.group = "s", "s"
		wf := fmt.Sprintf(".%d", wrapped)
		recv.lazy = map[string]bool{wf: true}
		e.store1(memKey{recv, wf}, e.rootVal("s", "", st.Field(wrapped).Type(), 1))
		pointed := map[*obj]string{}
		for j := 0; j < st.NumFields(); j++ {
			if pt, ok := st.Field(j).Type().Underlying().(*types.Pointer); ok {
				if n := namedOf(pt); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
					o := e.newObj(kRoot, n, "s:mutex")
					o.root, o.group = "s", "s"
					f := fmt.Sprintf(".%d", j)
					recv.lazy[f] = true
					e.store1(memKey{recv, f}, single(target{o: o}))
					pointed[o] = f
				}
			}
		}
		args := []val{single(target{o: recv})}
		for j, prm := range fn.Params {
			if j > 0 {
				args = append(args, e.rootVal(prm.Name(), prm.Name(), prm.Type(), 0))
			}
		}
		var ret val
		iter := false
		if res := fn.Signature.Results(); res.Len() == 1 {
			if n := namedOf(res.At(0).Type()); n == p.named("", "Enumerate") || n == p.named("", "Map") {
				iter = true
			}
		}
		callbacks := map[string][]val{}
		e.solve(func() {
			ret = e.top("entry", fn, args)
			if iter {
				it := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface)
				for el := range ret {
					typ := e.typeAt(el.t.o, el.t.path)
					if typ == nil || namedOf(typ) == nil {
						continue
					}
					for k := 0; k < it.NumMethods(); k++ {
						m := it.Method(k)
						if _, ok := callbacks[m.Name()]; !ok {
							var margs []val
							for q := 0; q < m.Type().(*types.Signature).Params().Len(); q++ {
								margs = append(margs, e.rootVal("callback", "", m.Type().(*types.Signature).Params().At(q).Type(), 0))
							}
							callbacks[m.Name()] = margs
						}
						margs := callbacks[m.Name()]
						e.invokeOn(nil, nil, el.t, namedOf(typ), m.Name(), margs)
					}
				}
			}
		})
		w := &lockWalk{e: e, recv: recv, mutexes: pointed, at: map[*frame]map[ssa.Instruction]stateSet{}, active: map[*frame]bool{}, errs: map[string]string{}}
		for _, k := range sortedKeys(e.tops) {
			f := e.tops[k]
			init := lockState{}
			end := w.walk(f, stateSet{init.key(): init})
			for _, s := range end {
				if strings.Trim(s.levels, ";") != "" {
					w.errs["returns with the lock held ("+s.levels+") from "+shortFn(f.fn)] = p.pos(f.fn.Pos())
				}
			}
		}
		runs = append(runs, runRec{en, e, w, ret})
		r.Count("call_paths", e.nframes)
		r.Count("accesses_of_the_wrapped_matrix", len(e.reads))
	}
	// what some method writes
	cell := func(t target) string {
		n := "?"
		if t.o.typ != nil {
			if nn := namedOf(t.o.typ); nn != nil {
				n = nn.Obj().Name()
			}
		}
		if t.o.elems {
			n = "elements of " + t.o.label
		}
		return n + t.path
	}
	written := map[string]bool{}
	guarded := func(rr runRec, t target) bool {
		if t.o.kind != kRoot || t.o.root != "s" {
			return false
		}
		if t.o == rr.w.recv {
			for _, mu := range mutexes {
				if t.path == mu || strings.HasPrefix(t.path, mu+".") {
					return false
				}
			}
		}
		return true
	}
	for _, rr := range runs {
		for _, ef := range rr.e.effects {
			if guarded(rr, ef.t) {
				written[cell(ef.t)] = true
			}
		}
	}
	accesses := 0
	for _, rr := range runs {
		pos := p.pos(rr.en.fn.Pos())
		for k, v := range rr.e.problems {
			r.Undecided("analysis", rr.en.name, pos, "%s: %s", k, v)
		}
		var bad []string
		first, second := map[*frame]bool{}, map[*frame]string{}
		check := func(ef effect, need byte) {
			if !guarded(rr, ef.t) {
				return
			}
			if need == 'R' && !written[cell(ef.t)] {
				return
			}
			accesses++
			sts := rr.w.at[ef.f][ef.instr]
			if sts == nil {
				return // not reached by the lock walk: unreachable code
			}
			top := ef.f
			for top.parent != nil {
				top = top.parent
			}
			for _, s := range sts {
				if s.acq >= 2 {
					second[top] = p.instrPos(ef.instr) + " in " + rr.e.path(ef.f)
				} else {
					first[top] = true
				}
			}
			ok := false
			for _, mu := range mutexes {
				all := len(sts) > 0
				for _, s := range sts {
					l := s.level(mu)
					if !(l == 'W' || need == 'R' && l == 'R') {
						all = false
					}
				}
				ok = ok || all
			}
			if !ok {
				kind := "read"
				if need == 'W' {
					kind = "written"
				}
				bad = append(bad, fmt.Sprintf("%s: %s of the wrapped matrix is %s without the lock that needs (%s)", p.instrPos(ef.instr), cell(ef.t), kind, rr.e.path(ef.f)))
			}
		}
		for _, ef := range rr.e.effects {
			check(ef, 'W')
		}
		for _, ef := range rr.e.reads {
			check(ef, 'R')
		}
		if sections {
			rule := "one critical section for all accesses of a call"
			twice := ""
			for f, s := range second {
				if first[f] {
					twice = s
				}
			}
			switch {
			case twice != "":
				r.Bad(rule, rr.en.name, pos, "the call accesses the wrapped matrix in a first critical section and again in a second one: %s", twice)
			case len(bad) > 0:
				sort.Strings(bad)
				r.Bad(rule, rr.en.name, pos, "%s", bad[0])
			default:
				r.OK(rule, rr.en.name, pos, "")
			}
			continue
		}
		sort.Slice(bad, func(i, j int) bool {
			if len(bad[i]) != len(bad[j]) {
				return len(bad[i]) < len(bad[j])
			}
			return bad[i] < bad[j]
		})
		if len(bad) > 0 {
			r.Bad("every access of the wrapped matrix holds the lock it needs", rr.en.name, pos, "%s (%d in all)", bad[0], len(bad))
		} else {
			r.OK("every access of the wrapped matrix holds the lock it needs", rr.en.name, pos, "")
		}
		if ks := sortedKeys(rr.w.errs); len(ks) > 0 {
			r.Bad("locks are taken once and released on every way out", rr.en.name, rr.w.errs[ks[0]], "%s (%d in all)", ks[0], len(ks))
		} else {
			r.OK("locks are taken once and released on every way out", rr.en.name, pos, "")
		}
		leak := ""
		for o := range rr.e.reachable(rr.ret, func(o *obj) bool { return o == rr.w.recv }) {
			if o.kind == kRoot && o.root == "s" {
				leak = o.label
			}
		}
		if leak != "" {
			r.Bad("the result does not reach the wrapped matrix", rr.en.name, pos, "the result can reach %s without the lock", leak)
		} else {
			r.OK("the result does not reach the wrapped matrix", rr.en.name, pos, "")
		}
	}
	r.Count("guarded_accesses", accesses)
	if accesses < 50 {
		r.Undecided("coverage", "accesses of the wrapped matrix", "", "only %d found", accesses)
	}
}
