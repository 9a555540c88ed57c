package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
)

// Host is what the interpreter needs to know of the program.
type Host interface {
	Body(fn *ssa.Function) *ssa.Function
	NoReturn(fn *ssa.Function) bool
	Method(n *types.Named, name string) (*ssa.Function, []int)
	Pos(i ssa.Instruction) string
	InScope(fn *ssa.Function) bool
	IsFormat(n *types.Named) bool
	// Alias is the exported method that only calls the function
	Alias(n *types.Named, fn *ssa.Function) string
	// GlobalInit is the value of a package variable that only its initialisation writes
	GlobalInit(in *Interp, st *State, g *ssa.Global) (Val, bool)
	Sparse(n *types.Named) bool
	// IllFormed is what is wrong with the representation of a matrix of the format, if anything
	IllFormed(in *Interp, st *State, id int, n *types.Named, rows, cols *Poly) string
}

// Panic is a path that ends in a panic.
type Panic struct {
	St       *State
	Why      string
	Pos      string
	Explicit bool
}

// Return is a path that returns.
type Return struct {
	St   *State
	Vals []Val
}

// Problem is a construct the interpreter has no rule for.
type Problem struct{ Pos, Why string }

// Interp is an abstract interpreter.
type Interp struct {
	H           Host
	Panics      []Panic
	Problems    []Problem
	Probing     bool // what the runs start from is still being worked out: nothing is told of their loops
	mute        int
	muted       []string // problems of muted passes
	nobj        int
	nframe      int
	steps       int
	MaxSteps    int
	Globals     bool // package variables are part of the state
	NoContracts bool // methods of the formats and IsSparseMatrix are interpreted
	OrdElems    bool // elements are ordered by an unknown total order, not as numbers
	Blocks      int  // blocks interpreted
	Loops       int  // loops summarised
	// Model, if it returns true, interprets the call itself
	Model func(in *Interp, st *State, site ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool
	// OnOpaque interprets a method call on an opaque value
	OnOpaque func(in *Interp, st *State, o Opaque, method string, args []Val, k func(*State, []Val)) bool
	// OpaqueIs says whether an opaque value has a type, if that is known
	OpaqueIs func(o Opaque, t types.Type) (is, known bool)
	// Inline says that calls on the object are interpreted, not replaced by its contract
	Inline    map[int]bool
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	Debug     bool
	innerVars map[string]bool // names of the variables of loops without closed form
	contNames map[string]bool
	// OnLoad sees every value loaded from a cell, in trial runs too
	OnLoad func(v Val)
	// NoTwin says which methods of an object with a twin are interpreted all the same
	NoTwin func(name string) bool
	// OnCall sees every call of an unknown function
	OnCall func(st *State, site ssa.Instruction, f FuncSym, args []Val)
	// Supports says that what two matrices have in common may be where they are zero
	Supports bool
	// OnFunc interprets the call of a function known by its name only
	OnFunc func(st *State, site ssa.Instruction, f FuncSym, args []Val, k func(*State, []Val)) bool
	// OnWrite sees every write to an object that existed at the start
	OnWrite func(st *State, site ssa.Instruction, obj int)
	// OnSend, OnRecv, OnClose and OnSelect, if they return true, interpret a channel operation themselves
	OnSend  func(st *State, site ssa.Instruction, ch int, v Val, k func(*State)) bool
	OnRecv  func(st *State, site ssa.Instruction, ch int, k func(*State, Val)) bool
	OnClose func(st *State, site ssa.Instruction, ch int, k func(*State)) bool
	// OnElem is told of an element stored in an array, or appended to one; the value is nil if it is
	// several that are appended
	OnElem func(st *State, arr int, appended bool, at, v *Poly)
	// OnBuild interprets the methods of a strings.Builder
	OnBuild  func(st *State, site ssa.Instruction, name string, builder int, args []Val, k cont) bool
	OnSelect func(st *State, site *ssa.Select, chans []Val, k func(st *State, index int, v Val)) bool
	// Goro is the statement that started the goroutine being interpreted, nil for the one that called
	Goro ssa.Instruction
	// OnNext sees every element an iterator over an abstract matrix gives out
	OnNext    func(st *State, site ssa.Instruction, iter int, r, c, v *Poly, k func(*State))
	delivered map[ssa.Instruction]map[string]bool
	cur       []*ssa.Function
	curInstr  ssa.Instruction
	matID     map[string]string
	iters     map[string]*iterInfo
	Eqs       map[string]*EqInfo
	// Rep gives an abstract matrix of a known format its representation
	Rep func(in *Interp, st *State, id int) bool
	// Twins are the abstract matrices of concrete ones
	Twins map[int]*Twin
}

type cont = func(st *State, vals []Val)

type frame struct {
	id    int
	fn    *ssa.Function
	site  string
	depth int
}

type hook struct {
	l    *loop
	fr   *frame
	back func(st *State, from *ssa.BasicBlock)
	exit func(st *State, from, to *ssa.BasicBlock)
	up   *hook
}

// New makes an interpreter.
func New(h Host) *Interp {
	return &Interp{H: h, MaxSteps: 400000, Inline: map[int]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, matID: map[string]string{}}
}

// NewState makes an empty state.
func (in *Interp) NewState() *State { return newState() }

func (in *Interp) pos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	return in.H.Pos(i)
}

func (in *Interp) problem(st *State, i ssa.Instruction, format string, args ...any) {
	if i == nil {
		i = in.curInstr
	}
	why := fmt.Sprintf(format, args...)
	if in.mute > 0 {
		in.muted = append(in.muted, in.pos(i)+": "+why)
		return
	}
	if st != nil && st.F.Inconsistent() {
		return
	}
	in.Problems = append(in.Problems, Problem{in.pos(i), why})
}

func (in *Interp) panic_(st *State, i ssa.Instruction, explicit bool, format string, args ...any) {
	if i == nil {
		i = in.curInstr
	}
	if in.mute > 0 || st.F.Inconsistent() {
		return
	}
	if n := len(st.defers); n > 0 {
		// the deferred calls of the frames that are left
		s := st.Clone()
		s.Tags["panicking"] = NilV{}
		frame := s.defers[n-1].frame
		in.runDefers(s, frame, func(s *State) { in.panic_(s, i, explicit, format, args...) })
		return
	}
	in.Panics = append(in.Panics, Panic{st, fmt.Sprintf(format, args...), in.pos(i), explicit})
}

// NewObj adds an object to the heap.
func (in *Interp) NewObj(st *State, o *Obj) int {
	in.nobj++
	st.setObj(in.nobj, o)
	return in.nobj
}

// FreshName is a name not used on the path so far; the same on every run.
func (in *Interp) FreshName(st *State, base string, site ssa.Instruction) string {
	return in.freshName(st, base, site)
}

// Decide partitions the path by a literal.
func (in *Interp) Decide(st *State, l Lit, kT, kF func(*State)) {
	switch {
	case l.Op == Yes || st.F.Entails(l):
		kT(st)
		return
	case l.Op == No || st.F.Entails(l.Not()):
		kF(st)
		return
	}
	t := st.Clone()
	t.F.Add(l)
	t.Path = append(t.Path, l)
	kT(t)
	f := st.Clone()
	f.F.Add(l.Not())
	f.Path = append(f.Path, l.Not())
	kF(f)
}

// decideAll partitions by a conjunction.
func (in *Interp) decideAll(st *State, ls []Lit, kT, kF func(*State)) {
	if len(ls) == 0 {
		kT(st)
		return
	}
	in.Decide(st, ls[0], func(s *State) { in.decideAll(s, ls[1:], kT, kF) }, kF)
}

// Read reads a content at an index, partitioning by the layer that applies.
func (in *Interp) Read(st *State, c *Content, idx []*Poly, k func(*State, *Poly)) {
	s := Subst{}
	if len(idx) > 0 && idx[0] != B0 {
		s[B0a] = idx[0]
	}
	if len(idx) > 1 && idx[1] != B1 {
		s[B1a] = idx[1]
	}
	in.read(st, c.Subst(s), len(c.Subst(s).Layers)-1, k)
}

func (in *Interp) read(st *State, c *Content, i int, k func(*State, *Poly)) {
	if i < 0 {
		k(st, c.Base)
		return
	}
	in.decideAll(st, c.Layers[i].Guard, func(s *State) { k(s, c.Layers[i].Val) }, func(s *State) { in.read(s, c, i-1, k) })
}

// SortOf is the sort of the numbers of a type.
func SortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return Elem
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Kind() == types.Int32 || b.Kind() == types.UntypedRune:
			return Elem
		case b.Info()&types.IsInteger != 0:
			return Int
		case b.Info()&types.IsFloat != 0:
			return Elem
		case b.Info()&types.IsBoolean != 0:
			return Bool
		}
	}
	return Elem
}

func isNumType(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func structType(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// Zero is the zero value of a type.
func (in *Interp) Zero(st *State, t types.Type) Val {
	t = types.Unalias(t)
	if isNumType(t) {
		return Num{C(SortOf(t), 0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{Lit{Op: No}}
		}
		if u.Info()&types.IsString != 0 {
			return StrV{""}
		}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.Zero(st, u.Field(i).Type())
		}
		return StructV{f}
	case *types.Slice:
		return Slice{Arr: -1, Off: I(0), Len: I(0), Cap: I(0)}
	case *types.Array:
		return Unknown{"array value"}
	}
	return NilV{}
}

func fieldPath(p string, i int) string { return p + "." + strconv.Itoa(i) }

// typeAt is the type of the cell at a path.
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		rest := path[1:]
		n := strings.IndexByte(rest, '.')
		head := rest
		path = ""
		if n >= 0 {
			head, path = rest[:n], rest[n:]
		}
		s := structType(t)
		i, err := strconv.Atoi(head)
		if s == nil || err != nil || i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
	}
	return t
}

// Load reads a cell.
func (in *Interp) Load(st *State, p Ptr, t types.Type, k func(*State, Val)) {
	o := st.Obj(p.Obj)
	if o == nil {
		in.problem(st, nil, "load from an object that is not there")
		return
	}
	if o.Kind == Mat && o.Fmt != nil && o.Cells == nil {
		in.materialise(st, p.Obj, func(s *State) { in.Load(s, p, t, k) })
		return
	}
	if o.Kind != Cells && o.Cells == nil {
		in.problem(st, nil, "load of a cell of an object of kind %d", o.Kind)
		return
	}
	v := in.loadCell(st, o, p.Path, t)
	if in.OnLoad != nil {
		in.OnLoad(v)
	}
	k(st, v)
}

func (in *Interp) loadCell(st *State, o *Obj, path string, t types.Type) Val {
	if v, ok := o.Cells[path]; ok {
		return v
	}
	if s := structType(t); s != nil {
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = in.loadCell(st, o, fieldPath(path, i), s.Field(i).Type())
		}
		return StructV{f}
	}
	return in.Zero(st, t)
}

// Store writes a cell.
func (in *Interp) Store(st *State, p Ptr, v Val, k func(*State)) {
	o := st.Obj(p.Obj)
	if o == nil || o.Kind != Cells {
		in.problem(st, nil, "store to a cell of an object without cells")
		return
	}
	if o.Old && in.OnWrite != nil && in.mute == 0 {
		in.OnWrite(st, in.curInstr, p.Obj)
	}
	st.setObj(p.Obj, in.storeCell(o, p.Path, v))
	k(st)
}

func (in *Interp) storeCell(o *Obj, path string, v Val) *Obj {
	if s, ok := v.(StructV); ok {
		for i, x := range s.F {
			o = in.storeCell(o, fieldPath(path, i), x)
		}
		return o
	}
	return o.withCell(path, v)
}

// ---------------------------------------------------------------- calls

// Run interprets a call of fn and collects its outcomes.
func (in *Interp) Run(st *State, fn *ssa.Function, args []Val, free []Val) (rets []Return) {
	in.Call(st, nil, fn, args, free, func(s *State, vals []Val) {
		if s.race != "" {
			in.problem(s, nil, "%s", s.race)
		}
		rets = append(rets, Return{s, vals})
	})
	return
}

// Call interprets a call.
func (in *Interp) Call(st *State, site ssa.Instruction, fn *ssa.Function, args, free []Val, k cont) {
	if in.Model != nil && in.Model(in, st, site, fn, args, k) {
		return
	}
	if in.builtinModel(st, site, fn, args, k) {
		return
	}
	if site != nil && in.formatCall(st, site, fn, args, k) {
		return
	}
	g := in.H.Body(fn)
	if in.H.NoReturn(fn) || in.H.NoReturn(g) {
		in.panic_(st, site, true, "%s", fn.Name())
		return
	}
	if len(g.Blocks) == 0 || !in.H.InScope(g) {
		in.problem(st, site, "call of %s, which has no model", fn.String())
		return
	}
	if st.depth > 40 {
		in.problem(st, site, "call depth of %s", fn.Name())
		return
	}
	in.nframe++
	fr := &frame{id: in.nframe, fn: g}
	for i, p := range g.Params {
		if i < len(args) {
			st.set(fr.id, p, args[i])
		}
	}
	for i, p := range g.FreeVars {
		if i < len(free) {
			st.set(fr.id, p, free[i])
		}
	}
	was := st.stop
	st.enterCall(g, args)
	st.depth++
	st.Stack = append(st.Stack[:len(st.Stack):len(st.Stack)], in.siteKey(site))
	in.runBlock(st, fr, g.Blocks[0], nil, nil, func(s *State, vals []Val) {
		s.depth--
		s.Stack = s.Stack[: len(s.Stack)-1 : len(s.Stack)-1]
		delete(s.envs, fr.id)
		s.leaveCall(was)
		k(s, vals)
	})
}

func (in *Interp) siteKey(i ssa.Instruction) string {
	if i == nil {
		return "."
	}
	b := i.Block()
	n := 0
	for j, x := range b.Instrs {
		if x == i {
			n = j
		}
	}
	return fmt.Sprintf("%s/%d.%d", i.Parent().Name(), b.Index, n)
}

// freshName names what an instruction creates: by the call stack, so that it is the same in every pass.
func (in *Interp) freshName(st *State, what string, i ssa.Instruction) string {
	base := what + "@" + strings.Join(st.Stack, ">") + "|" + in.siteKey(i)
	n := st.seq[base]
	st.seq[base] = n + 1
	full := fmt.Sprintf("%s#%d", base, n)
	short := in.matID[full]
	if short == "" {
		short = fmt.Sprintf("%s%d", what, len(in.matID))
		in.matID[full] = short
	}
	return short
}

// FreshNum is a new number that may depend on the iteration of the loops around.
func (in *Interp) FreshNum(st *State, what string, sort Sort) *Poly {
	return S(sort, in.freshName(st, what, in.curInstr), st.Params...)
}

func (in *Interp) runBlock(st *State, fr *frame, b, prev *ssa.BasicBlock, hk *hook, k cont) {
	in.steps++
	if in.steps > in.MaxSteps {
		if in.steps == in.MaxSteps+1 || in.mute == 0 {
			m := in.mute
			in.mute = 0
			in.Problems = append(in.Problems, Problem{in.pos(b.Instrs[0]), "the analysis takes too many steps"})
			in.mute = m
		}
		return
	}
	if hk != nil && hk.fr == fr && prev != nil {
		if b == hk.l.header {
			hk.back(st, prev)
			return
		}
		if !hk.l.blocks[b] {
			hk.exit(st, prev, b)
			return
		}
	}
	if l := in.loopAt(fr.fn, b); l != nil {
		in.summarise(st, fr, l, prev, hk, k)
		return
	}
	in.Blocks++
	in.phis(st, fr, b, prev)
	in.runInstrs(st, fr, b, firstNonPhi(b), hk, k)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, x := range b.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (in *Interp) phis(st *State, fr *frame, b, prev *ssa.BasicBlock) {
	vals := in.phiVals(st, fr, b, prev)
	for i, v := range vals {
		st.set(fr.id, b.Instrs[i].(*ssa.Phi), v)
	}
}

func (in *Interp) phiVals(st *State, fr *frame, b, prev *ssa.BasicBlock) []Val {
	var out []Val
	for _, x := range b.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		v := Val(Unknown{"phi"})
		for i, q := range b.Preds {
			if q == prev {
				v = in.val(st, fr, p.Edges[i])
				break
			}
		}
		out = append(out, v)
	}
	return out
}

func (in *Interp) runInstrs(st *State, fr *frame, b *ssa.BasicBlock, i int, hk *hook, k cont) {
	for ; i < len(b.Instrs); i++ {
		x := b.Instrs[i]
		in.curInstr = x
		next := i + 1
		resume := func(s *State) { in.runInstrs(s, fr, b, next, hk, k) }
		switch x := x.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			in.runBlock(st, fr, b.Succs[0], b, hk, k)
			return
		case *ssa.If:
			c, ok := in.val(st, fr, x.Cond).(BoolV)
			if !ok {
				in.problem(st, x, "branch on a condition that is not known: %v", in.val(st, fr, x.Cond))
				return
			}
			in.Decide(st, c.L, func(s *State) { in.runBlock(s, fr, b.Succs[0], b, hk, k) },
				func(s *State) { in.runBlock(s, fr, b.Succs[1], b, hk, k) })
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, in.val(st, fr, r))
			}
			k(st, vals)
			return
		case *ssa.Panic:
			in.panic_(st, x, true, "panic")
			return
		case *ssa.RunDefers:
			if n := len(st.defers); n > 0 && st.defers[n-1].frame == fr.id {
				in.runDefers(st, fr.id, resume)
				return
			}
		case *ssa.Defer:
			if in.inLoop(b) {
				in.problem(st, x, "deferred call in a loop")
				return
			}
			d := deferred{frame: fr.id, site: x, fn: in.val(st, fr, x.Call.Value)}
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.val(st, fr, a))
			}
			st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
		case *ssa.Phi:
			continue
		default:
			done := false
			var after *State
			in.instr(st, fr, x, func(s *State, v Val) {
				if vv, ok := x.(ssa.Value); ok && v != nil {
					s.set(fr.id, vv, v)
				}
				if !done && s == st {
					// the common case of one outcome on the same state: continue without recursion
					done, after = true, s
					return
				}
				if done && after != nil {
					// a second outcome arrived: it has its own state
				}
				in.curInstr = x
				resume(s)
			})
			if after == nil {
				return
			}
			st = after
		}
	}
}

// runDefers makes the deferred calls of a frame, the last one first.
func (in *Interp) runDefers(st *State, frame int, k func(*State)) {
	n := len(st.defers)
	if n == 0 || st.defers[n-1].frame != frame {
		k(st)
		return
	}
	d := st.defers[n-1]
	st.defers = st.defers[: n-1 : n-1]
	next := func(s *State, _ []Val) { in.runDefers(s, frame, k) }
	c := d.site.Call
	if c.IsInvoke() {
		in.Invoke(st, d.site, d.fn, c.Method.Name(), d.args, next)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		in.builtin(st, nil, d.site, b.Name(), &c, d.args, next)
		return
	}
	in.CallVal(st, d.site, d.fn, d.args, next)
}

// inLoop reports whether the block can be reached from itself.
func (in *Interp) inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	return false
}

func (in *Interp) val(st *State, fr *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(st, v)
	case *ssa.Function:
		return Func{v, nil}
	case *ssa.Builtin:
		return Unknown{"builtin"}
	case *ssa.Global:
		return GlobalV{v}
	}
	if x, ok := st.get(fr.id, v); ok {
		return x
	}
	return Unknown{"value " + v.Name()}
}

// sameRange reports whether converting between the types keeps every value.
func sameRange(from, to types.Type) bool {
	if types.Identical(from, to) {
		return true
	}
	f, ok1 := types.Unalias(from).Underlying().(*types.Basic)
	t, ok2 := types.Unalias(to).Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if f.Kind() == t.Kind() {
		return true
	}
	size := types.SizesFor("gc", "amd64")
	fs, ts := size.Sizeof(f), size.Sizeof(t)
	if f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0 {
		fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
		return fu == tu && ts >= fs || fu && !tu && ts > fs
	}
	return f.Info()&types.IsFloat != 0 && t.Info()&types.IsFloat != 0 && ts >= fs
}

func (in *Interp) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return in.Zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return BoolV{Lit{Op: Yes}}
		}
		return BoolV{Lit{Op: No}}
	case constant.Int, constant.Float:
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return Num{C(SortOf(c.Type()), n)}
		}
		return Num{S(SortOf(c.Type()), "const:"+c.Value.ExactString())}
	case constant.String:
		return StrV{constant.StringVal(c.Value)}
	}
	return Unknown{"constant"}
}

// unwrap strips interfaces.
func unwrap(v Val) Val {
	for {
		i, ok := v.(Iface)
		if !ok {
			return v
		}
		v = i.V
	}
}

func (in *Interp) instr(st *State, fr *frame, x ssa.Instruction, k func(*State, Val)) {
	switch x := x.(type) {
	case *ssa.Alloc:
		k(st, in.alloc(st, x))
	case *ssa.BinOp:
		in.binop(st, fr, x, k)
	case *ssa.UnOp:
		in.unop(st, fr, x, k)
	case *ssa.ChangeType:
		k(st, in.val(st, fr, x.X))
	case *ssa.ChangeInterface:
		k(st, in.val(st, fr, x.X))
	case *ssa.MakeInterface:
		v := in.val(st, fr, x.X)
		if p, ok := v.(Ptr); ok {
			if o := st.Obj(p.Obj); o != nil && (o.Kind == Mat || o.Kind == Iter) {
				if p.Path == "" && o.Fmt == nil {
					k(st, v)
					return
				}
			}
		}
		switch v.(type) {
		case CtxV:
			k(st, v)
			return
		}
		k(st, Iface{x.X.Type(), v})
	case *ssa.Convert, *ssa.MultiConvert:
		ops := x.Operands(nil)
		v := in.val(st, fr, *ops[0])
		to := x.(ssa.Value).Type()
		if n, ok := v.(Num); ok && isNumType(to) {
			_, isC := n.P.IsConst()
			if n.P.Sort == SortOf(to) && (isC || sameRange((*ops[0]).Type(), to)) {
				k(st, v)
				return
			}
			if n.P.Sort == SortOf(to) {
				k(st, Num{Apply(SortOf(to), "conv:"+to.String(), n.P)})
				return
			}
			if c, ok := n.P.IsConst(); ok {
				k(st, Num{C(SortOf(to), c)})
				return
			}
			k(st, Num{Apply(SortOf(to), "conv", n.P)})
			return
		}
		if s, ok := v.(Slice); ok {
			if b, isB := to.Underlying().(*types.Basic); isB && b.Kind() == types.String {
				if o := st.Obj(s.Arr); s.Arr >= 0 && o != nil && s.Row == nil && o.Kind == Arr {
					k(st, RunesStr{o.C.Subst(Subst{B0a: s.Off.Add(B0)}), s.Len, in.resolve(st, s).Arr})
					return
				}
				k(st, Unknown{"conversion"})
				return
			}
			k(st, s)
			return
		}
		if b, isB := to.Underlying().(*types.Basic); isB && b.Kind() == types.String {
			if n, ok := v.(Num); ok {
				k(st, RuneStr{n.P})
				return
			}
		}
		k(st, Unknown{"conversion"})
	case *ssa.Extract:
		t, ok := in.val(st, fr, x.Tuple).(Tuple)
		if !ok || x.Index >= len(t) {
			k(st, Unknown{"tuple"})
			return
		}
		k(st, t[x.Index])
	case *ssa.Field:
		s, ok := in.val(st, fr, x.X).(StructV)
		if !ok {
			k(st, Unknown{"struct"})
			return
		}
		k(st, s.F[x.Field])
	case *ssa.FieldAddr:
		switch p := in.val(st, fr, x.X).(type) {
		case Ptr:
			k(st, Ptr{p.Obj, fieldPath(p.Path, x.Field)})
		case NilV:
			in.panic_(st, x, false, "nil dereference")
		default:
			in.problem(st, x, "field of %v", p)
		}
	case *ssa.IndexAddr:
		in.indexAddr(st, fr, x, k)
	case *ssa.Index:
		in.problem(st, x, "indexing of an array value")
	case *ssa.MakeClosure:
		var free []Val
		for _, b := range x.Bindings {
			free = append(free, in.val(st, fr, b))
		}
		k(st, Func{x.Fn.(*ssa.Function), free})
	case *ssa.MakeSlice:
		in.makeSlice(st, fr, x, k)
	case *ssa.MakeChan:
		n, ok := in.val(st, fr, x.Size).(Num)
		k(st, Ptr{in.NewObj(st, &Obj{Kind: ChanO, Buffered: !ok || !n.P.Zero(), Zero: in.Zero(st, x.Type().Underlying().(*types.Chan).Elem())}), ""})
	case *ssa.MakeMap, *ssa.MapUpdate, *ssa.Lookup:
		if !in.extInstr(st, fr, x, k) {
			in.problem(st, x, "no rule for %v", x)
		}
	case *ssa.Slice:
		if in.extInstr(st, fr, x, k) {
			return
		}
		in.slice(st, fr, x, k)
	case *ssa.Store:
		v := in.val(st, fr, x.Val)
		switch p := in.val(st, fr, x.Addr).(type) {
		case Ptr:
			in.Store(st, p, v, func(s *State) { k(s, nil) })
		case ElemPtr:
			in.storeElem(st, p, v, func(s *State) { k(s, nil) })
		case Slice:
			// an array variable gets its zero value
			if c, ok := x.Val.(*ssa.Const); !ok || c.Value != nil || p.Arr < 0 || p.Row != nil || st.Obj(p.Arr).Kind != ValArr || !p.Off.Zero() || p.Len != st.Obj(p.Arr).Len {
				in.problem(st, x, "store through %v", p)
				return
			}
			o := st.Obj(p.Arr).clone()
			o.Vals = map[int64]Val{}
			st.setObj(p.Arr, o)
			k(st, nil)
		case NilV:
			in.panic_(st, x, false, "nil dereference")
		case GlobalV:
			if in.Globals {
				g := map[*ssa.Global]Val{p.G: v}
				for a, b := range st.globals {
					if a != p.G {
						g[a] = b
					}
				}
				st.globals = g
				k(st, nil)
				return
			}
			in.problem(st, x, "store to %s", p.G.Name())
		default:
			in.problem(st, x, "store through %v", p)
		}
	case *ssa.TypeAssert:
		in.typeAssert(st, fr, x, k)
	case *ssa.Select:
		in.selectOp(st, fr, x, k)
	case *ssa.Call:
		in.call(st, fr, x, &x.Call, func(s *State, vals []Val) {
			switch len(vals) {
			case 0:
				k(s, Tuple(nil))
			case 1:
				k(s, vals[0])
			default:
				k(s, Tuple(vals))
			}
		})
	case *ssa.Go:
		// a goroutine of which only what it sends matters: interpreted at once
		was, floor, goro, left := in.Goro, st.floor, st.goro, st.left
		st.ngoro++
		in.Goro = x
		vs := []Val{in.val(st, fr, x.Call.Value)}
		for _, a := range x.Call.Args {
			vs = append(vs, in.val(st, fr, a))
		}
		st.lend(vs)
		st.floor = in.nobj
		st.goro, st.left = st.ngoro, false
		st.Tags["begun"] = NilV{}
		stop := st.stop
		st.stop.marks = nil
		if stop.under {
			st.stop = st.stop.push(mark{})
		}
		in.call(st, fr, x, &x.Call, func(s *State, vals []Val) {
			now := in.Goro
			in.Goro = was
			s.floor = floor
			s.goro, s.left = goro, left
			s.stop = stop
			k(s, nil)
			in.Goro = now
		})
		in.Goro = was
	case *ssa.Send:
		in.send(st, x, in.val(st, fr, x.Chan), in.val(st, fr, x.X), func(s *State) { k(s, nil) })
	default:
		in.problem(st, x, "no rule for %T", x)
	}
}

func (in *Interp) send(st *State, x ssa.Instruction, ch, v Val, k func(*State)) {
	c, ok := ch.(Ptr)
	if !ok {
		in.problem(st, x, "send on an unknown channel")
		return
	}
	if in.OnSend != nil && in.OnSend(st, x, c.Obj, v, k) {
		return
	}
	o := st.Obj(c.Obj).clone()
	o.Queue = append(o.Queue[:len(o.Queue):len(o.Queue)], v)
	st.setObj(c.Obj, o)
	k(st)
}

func (in *Interp) alloc(st *State, x *ssa.Alloc) Val {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
		if _, isTP := types.Unalias(t).(*types.TypeParam); !isTP {
			id := in.NewObj(st, in.newArr(st, a.Elem(), I(a.Len())))
			return Slice{Arr: id, Off: I(0), Len: I(a.Len()), Cap: I(a.Len())}
		}
	}
	return Ptr{in.NewObj(st, &Obj{Kind: Cells, Type: t, Cells: map[string]Val{}, Name: x.Comment}), ""}
}

// newArr is a zeroed array.
func (in *Interp) newArr(st *State, elem types.Type, n *Poly) *Obj {
	if isNumType(elem) {
		s := SortOf(elem)
		return &Obj{Kind: Arr, Sort: s, Type: elem, C: &Content{Base: C(s, 0)}, Len: n}
	}
	if sl, ok := types.Unalias(elem).Underlying().(*types.Slice); ok && isNumType(sl.Elem()) {
		s := SortOf(sl.Elem())
		return &Obj{Kind: Arr2, Sort: s, Type: elem, C: &Content{Base: C(s, 0)}, RowLen: &Content{Base: I(0)}, Len: n}
	}
	return &Obj{Kind: ValArr, Type: elem, Vals: map[int64]Val{}, Zero: in.Zero(st, elem), Len: n}
}

func (in *Interp) makeSlice(st *State, fr *frame, x *ssa.MakeSlice, k func(*State, Val)) {
	n, ok := in.val(st, fr, x.Len).(Num)
	c, ok2 := in.val(st, fr, x.Cap).(Num)
	if !ok || !ok2 {
		in.problem(st, x, "make with an unknown length")
		return
	}
	in.Decide(st, GeL(n.P), func(s *State) {
		id := in.NewObj(s, in.newArr(s, x.Type().Underlying().(*types.Slice).Elem(), c.P))
		k(s, Slice{Arr: id, Off: I(0), Len: n.P, Cap: c.P})
	}, func(s *State) { in.panic_(s, x, false, "make of negative length") })
}

func (in *Interp) binop(st *State, fr *frame, x *ssa.BinOp, k func(*State, Val)) {
	a, b := in.val(st, fr, x.X), in.val(st, fr, x.Y)
	if p, ok := a.(Num); ok {
		if q, ok := b.(Num); ok && p.P.Sort == q.P.Sort {
			in.arith(st, x, x.Op, p.P, q.P, k)
			return
		}
	}
	if p, ok := a.(BoolV); ok {
		if q, ok := b.(BoolV); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
			in.Decide(st, p.L, func(s *State) {
				l := q.L
				if x.Op == token.NEQ {
					l = l.Not()
				}
				k(s, BoolV{l})
			}, func(s *State) {
				l := q.L.Not()
				if x.Op == token.NEQ {
					l = l.Not()
				}
				k(s, BoolV{l})
			})
			return
		}
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		eq, ok := sameDynamic(a, b)
		if !ok {
			eq, ok = typedNotNil(a, b)
		}
		if !ok {
			eq, ok = in.sameRef(st, a, b)
		}
		if ok {
			if x.Op == token.NEQ {
				eq = eq.Not()
			}
			k(st, BoolV{eq})
			return
		}
	}
	if sa, ok := a.(StrV); ok {
		if sb, ok := b.(StrV); ok {
			if v, ok := strOp(x.Op.String(), sa.S, sb.S); ok {
				k(st, v)
				return
			}
		}
	}
	if ca, ok := a.(StrOf); ok {
		if cb, ok := b.(StrOf); ok {
			less, greater := ca.Less(cb), cb.Less(ca)
			switch x.Op {
			case token.LSS:
				k(st, BoolV{less})
				return
			case token.GTR:
				k(st, BoolV{greater})
				return
			case token.GEQ:
				k(st, BoolV{less.Not()})
				return
			case token.LEQ:
				k(st, BoolV{greater.Not()})
				return
			case token.EQL:
				in.Decide(st, less, func(s *State) { k(s, BoolV{Lit{Op: No}}) }, func(s *State) { k(s, BoolV{greater.Not()}) })
				return
			case token.NEQ:
				in.Decide(st, less, func(s *State) { k(s, BoolV{Lit{Op: Yes}}) }, func(s *State) { k(s, BoolV{greater}) })
				return
			}
		}
	}
	in.problem(st, x, "operation %s on %v and %v", x.Op, a, b)
}

// StrOf is the string built from the elements of a matrix.
type StrOf struct {
	ID   string
	Args []*Poly
}

// Less says that a string is before another.
func (a StrOf) Less(b StrOf) Lit {
	return Truth(Pred("strless:"+a.ID+"<"+b.ID, append(append([]*Poly{}, a.Args...), b.Args...)...))
}

// RuneStr is the string of one element.
type RuneStr struct{ P *Poly }

// RunesStr is the string of the elements of a slice.
type RunesStr struct {
	C   *Content
	Len *Poly
	Arr int
}

// sameDynamic compares interface values whose dynamic types differ, and opaque values.
// typedNotNil compares an interface that holds a value of a concrete type
// with the nil interface: they differ, even where the value is a nil pointer.
func typedNotNil(a, b Val) (Lit, bool) {
	no := Lit{Op: No}
	x, ok := a.(Iface)
	if !ok {
		x, ok = b.(Iface)
		a, b = b, a
	}
	if _, isNil := b.(NilV); ok && isNil && x.T != nil && !types.IsInterface(x.T) {
		return no, true
	}
	return no, false
}

func sameDynamic(a, b Val) (Lit, bool) {
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if ok1 && ok2 && !types.Identical(x.T, y.T) {
		return Lit{Op: No}, true
	}
	if ok1 && ok2 {
		if p, ok := x.V.(Num); ok {
			if q, ok := y.V.(Num); ok && p.P.Sort == Int && q.P.Sort == Int {
				return Same(p.P, q.P), true
			}
		}
		if p, ok := x.V.(StrV); ok {
			if q, ok := y.V.(StrV); ok {
				if p.S == q.S {
					return Lit{Op: Yes}, true
				}
				return Lit{Op: No}, true
			}
		}
	}
	if ok1 && ok2 {
		if p, ok := x.V.(Opaque); ok && x.V == y.V {
			return Lit{Op: Yes}, p.Name != ""
		}
	}
	e, ok1 := unwrap(a).(Ext)
	f, ok2 := unwrap(b).(Ext)
	if ok1 && ok2 {
		if e.Key() == f.Key() {
			return Lit{Op: Yes}, true
		}
		return Lit{Op: No}, true
	}
	_, na := a.(NilV)
	_, nb := b.(NilV)
	if ok1 && nb || ok2 && na {
		return Lit{Op: No}, true
	}
	g, ok1 := unwrap(a).(GlobalV)
	h, ok2 := unwrap(b).(GlobalV)
	if ok1 && ok2 {
		if g == h {
			return Lit{Op: Yes}, true
		}
		return Lit{Op: No}, true
	}
	o, ok1 := a.(Opaque)
	if !ok1 {
		o, ok1 = b.(Opaque)
		a, b = b, a
	}
	if ok1 {
		if b == Val(o) {
			return Lit{Op: Yes}, true
		}
		switch w := b.(type) {
		case NilV:
			return Lit{Op: No}, true
		case Iface:
			return Truth(Pred(fmt.Sprintf("%s is %s:%v", o.Name, w.T, w.V))), true
		}
	}
	return Lit{}, false
}

func (in *Interp) sameRef(st *State, a, b Val) (Lit, bool) {
	a, b = unwrap(a), unwrap(b)
	_, na := a.(NilV)
	_, nb := b.(NilV)
	yes, no := Lit{Op: Yes}, Lit{Op: No}
	if na && nb {
		return yes, true
	}
	if sl, ok := a.(Slice); ok && nb {
		return in.nilSlice(sl), true
	}
	if sl, ok := b.(Slice); ok && na {
		return in.nilSlice(sl), true
	}
	nonNil := func(v Val) bool {
		switch v.(type) {
		case Ptr, Func, FuncSym, CtxV, DoneV, StructV, ElemPtr:
			return true
		}
		return false
	}
	if na && nonNil(b) || nb && nonNil(a) {
		return no, true
	}
	if p, ok := a.(Ptr); ok {
		if q, ok := b.(Ptr); ok {
			if p.Obj == q.Obj {
				return yes, true // the address of a struct and of its first field are the same object
			}
			return no, true
		}
	}
	if p, ok := a.(StructV); ok {
		if q, ok := b.(StructV); ok && len(p.F) == 0 && len(q.F) == 0 {
			return yes, true
		}
	}
	return no, false
}

func (in *Interp) nilSlice(s Slice) Lit {
	if s.Arr < 0 {
		return Lit{Op: Yes}
	}
	return Lit{Op: No}
}

func (in *Interp) arith(st *State, x ssa.Instruction, op token.Token, p, q *Poly, k func(*State, Val)) {
	isInt := p.Sort == Int
	if in.OrdElems && !isInt {
		// an order about which nothing is known but that it is total
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			p, q, isInt = Apply(Int, "ord", p), Apply(Int, "ord", q), true
		}
	}
	switch op {
	case token.ADD:
		k(st, Num{p.Add(q)})
	case token.SUB:
		k(st, Num{p.Sub(q)})
	case token.MUL:
		k(st, Num{p.Mul(q)})
	case token.QUO, token.REM:
		f := MkDiv
		if op == token.REM {
			f = MkMod
		}
		if n, ok := q.IsConst(); ok && n != 0 {
			k(st, Num{f(p, q)})
			return
		}
		if !isInt {
			k(st, Num{f(p, q)})
			return
		}
		in.Decide(st, NeL(q), func(s *State) { k(s, Num{f(p, q)}) }, func(s *State) { in.panic_(s, x, false, "division by zero") })
	case token.SHR:
		if n, ok := q.IsConst(); ok && n >= 0 && n < 32 {
			// for what is not negative; a negative operand is left opaque
			in.Decide(st, GeL(p), func(s *State) { k(s, Num{MkDiv(p, C(p.Sort, 1<<uint(n)))}) },
				func(s *State) { k(s, Num{Apply(p.Sort, "shr", p, q)}) })
			return
		}
		k(st, Num{Apply(p.Sort, "shr", p, q)})
	case token.SHL:
		if n, ok := q.IsConst(); ok && n >= 0 && n < 32 {
			k(st, Num{p.Scale(1 << uint(n))})
			return
		}
		k(st, Num{Apply(p.Sort, "shl", p, q)})
	case token.AND:
		if n, ok := q.IsConst(); ok && n == 1 && isInt {
			in.Decide(st, GeL(p), func(s *State) { k(s, Num{MkMod(p, I(2))}) }, func(s *State) { k(s, Num{Apply(p.Sort, "and", p, q)}) })
			return
		}
		k(st, Num{Apply(p.Sort, "and", p, q)})
	case token.OR, token.XOR, token.AND_NOT:
		k(st, Num{Apply(p.Sort, op.String(), p, q)})
	case token.EQL:
		if isInt {
			k(st, BoolV{Same(p, q)})
		} else {
			k(st, BoolV{EEqL(p.Sub(q))})
		}
	case token.NEQ:
		if isInt {
			k(st, BoolV{Same(p, q).Not()})
		} else {
			k(st, BoolV{ENeL(p.Sub(q))})
		}
	case token.LSS:
		if isInt {
			k(st, BoolV{Lt(p, q)})
		} else {
			k(st, BoolV{EGtL(q.Sub(p))})
		}
	case token.GTR:
		if isInt {
			k(st, BoolV{Lt(q, p)})
		} else {
			k(st, BoolV{EGtL(p.Sub(q))})
		}
	case token.LEQ:
		if isInt {
			k(st, BoolV{Le(p, q)})
		} else {
			k(st, BoolV{EGtL(p.Sub(q)).Not()})
		}
	case token.GEQ:
		if isInt {
			k(st, BoolV{Le(q, p)})
		} else {
			k(st, BoolV{EGtL(q.Sub(p)).Not()})
		}
	default:
		in.problem(st, x, "operator %s", op)
	}
}

func (in *Interp) unop(st *State, fr *frame, x *ssa.UnOp, k func(*State, Val)) {
	v := in.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case Ptr:
			in.Load(st, p, x.Type(), k)
		case ElemPtr:
			in.loadElem(st, p, k)
		case NilV:
			in.panic_(st, x, false, "nil dereference")
		case Slice:
			k(st, p)
		case GlobalV:
			if in.Globals {
				w, ok := st.globals[p.G]
				if !ok {
					w = in.Zero(st, p.G.Type().Underlying().(*types.Pointer).Elem())
				}
				k(st, w)
				return
			}
			if w, ok := in.H.GlobalInit(in, st, p.G); ok {
				k(st, w)
				return
			}
			k(st, Unknown{"global " + p.G.Name()})
		default:
			in.problem(st, x, "load through %v", v)
		}
	case token.SUB:
		if n, ok := v.(Num); ok {
			k(st, Num{n.P.Neg()})
			return
		}
		in.problem(st, x, "negation of %v", v)
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			k(st, BoolV{b.L.Not()})
			return
		}
		in.problem(st, x, "not %v", v)
	case token.ARROW:
		in.receive(st, fr, x, v, x.CommaOk, k)
	default:
		in.problem(st, x, "operator %s", x.Op)
	}
}

func (in *Interp) receive(st *State, fr *frame, x ssa.Instruction, v Val, commaOk bool, k func(*State, Val)) {
	c, ok := v.(Ptr)
	if !ok {
		in.problem(st, x, "receive from %v", v)
		return
	}
	if in.OnRecv != nil && in.OnRecv(st, x, c.Obj, func(s *State, v Val) {
		if commaOk {
			k(s, Tuple{v, BoolV{Lit{Op: Yes}}})
			return
		}
		k(s, v)
	}) {
		return
	}
	o := st.Obj(c.Obj)
	if len(o.Queue) == 0 && o.Closed && commaOk && o.Zero != nil {
		k(st, Tuple{o.Zero, BoolV{Lit{Op: No}}})
		return
	}
	if len(o.Queue) == 0 {
		in.problem(st, x, "receive from a channel nothing was sent to")
		return
	}
	// goroutines deliver in any order: every one is followed, except from states that were before
	for i := range o.Queue {
		s := st
		if len(o.Queue) > 1 {
			s = st.Clone()
		}
		n := o.clone()
		n.Queue = append(append([]Val{}, o.Queue[:i]...), o.Queue[i+1:]...)
		s.setObj(c.Obj, n)
		if len(o.Queue) > 1 || in.delivered[x] != nil {
			key := in.afterReceive(s, fr, x, o.Queue[i])
			if in.delivered == nil {
				in.delivered = map[ssa.Instruction]map[string]bool{}
			}
			if in.delivered[x] == nil {
				in.delivered[x] = map[string]bool{}
			}
			if in.delivered[x][key] {
				continue
			}
			in.delivered[x][key] = true
		}
		if commaOk {
			k(s, Tuple{o.Queue[i], BoolV{Lit{Op: Yes}}})
			continue
		}
		k(s, o.Queue[i])
	}
}

// afterReceive is what the rest of an execution depends on after a receive: the facts and the heap,
// the values of its frame that can still be used, and what was received.
func (in *Interp) afterReceive(st *State, fr *frame, x ssa.Instruction, v Val) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d %v %v|", fr.id, in.mute, st.Path, v)
	for _, id := range st.IDs() {
		o := st.Obj(id)
		fmt.Fprintf(&b, "%d:%p ", id, o.C)
		for _, p := range sortedCells(o.Cells) {
			fmt.Fprintf(&b, "%s=%v ", p, o.Cells[p])
		}
		for _, q := range o.Queue {
			fmt.Fprintf(&b, "<%v", q)
		}
		var ix []int64
		for i := range o.Vals {
			ix = append(ix, i)
		}
		sort.Slice(ix, func(i, j int) bool { return ix[i] < ix[j] })
		for _, i := range ix {
			fmt.Fprintf(&b, "[%d]=%v ", i, o.Vals[i])
		}
	}
	// what the frame defines outside the blocks that can reach the receive again, and what goes round
	for _, blk := range fr.fn.Blocks {
		for _, i := range blk.Instrs {
			w, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			_, phi := i.(*ssa.Phi)
			used := phi
			if !used && blk != x.Block() {
				used = true
			}
			if !used && w.Referrers() != nil {
				for _, r := range *w.Referrers() {
					if r.Block() != blk {
						used = true
					}
				}
			}
			if used {
				if y, ok := st.get(fr.id, w); ok {
					fmt.Fprintf(&b, "%s:%v ", w.Name(), y)
				}
			}
		}
	}
	return b.String()
}

func (in *Interp) selectOp(st *State, fr *frame, x *ssa.Select, k func(*State, Val)) {
	if in.OnSelect != nil {
		var chans []Val
		for _, s := range x.States {
			chans = append(chans, in.val(st, fr, s.Chan))
		}
		if in.OnSelect(st, x, chans, func(st *State, index int, v Val) {
			t := Tuple{Num{I(int64(index))}, BoolV{Lit{Op: Yes}}}
			for i, s := range x.States {
				if s.Dir == types.RecvOnly {
					if i == index {
						t = append(t, v)
					} else {
						t = append(t, StructV{})
					}
				}
			}
			k(st, t)
		}) {
			return
		}
	}
	bg, at := true, -1
	talk := -1
	for i, s := range x.States {
		c := in.val(st, fr, s.Chan)
		if d, ok := c.(DoneV); ok && s.Dir == types.RecvOnly {
			if bg = bg && d.Bg; at < 0 && !d.Bg {
				at = i
			}
			continue
		}
		if !x.Blocking || talk >= 0 {
			in.problem(st, x, "select on %v", c)
			return
		}
		talk = i
	}
	if talk >= 0 {
		// it happens unless the context is done
		to := func(s *State, i int, v Val) {
			t := Tuple{Num{I(int64(i))}, BoolV{Lit{Op: Yes}}}
			for j, c := range x.States {
				if c.Dir != types.RecvOnly {
					continue
				}
				if i != j || v == nil {
					t = append(t, StructV{})
				} else {
					t = append(t, v)
				}
			}
			k(s, t)
		}
		in.poll(st, bg, func(s *State) { to(s, at, nil) }, func(s *State) {
			c := x.States[talk]
			ch := in.val(s, fr, c.Chan)
			if c.Dir == types.SendOnly {
				in.send(s, x, ch, in.val(s, fr, c.Send), func(s *State) { to(s, talk, nil) })
				return
			}
			in.receive(s, fr, x, ch, false, func(s *State, v Val) { to(s, talk, v) })
		})
		return
	}
	if x.Blocking {
		in.problem(st, x, "blocking select")
		return
	}
	to := func(st *State, i int) {
		t := Tuple{Num{I(int64(i))}, BoolV{Lit{Op: No}}}
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				t = append(t, StructV{})
			}
		}
		k(st, t)
	}
	in.poll(st, bg, func(s *State) { to(s, at) }, func(s *State) { to(s, -1) })
}

// ---------------------------------------------------------------- arrays

// resolve follows an array that became a row of an array of rows.
func (in *Interp) resolve(st *State, s Slice) Slice {
	if s.Arr < 0 || s.Row != nil {
		return s
	}
	if o := st.Obj(s.Arr); o != nil && o.FwdTo > 0 {
		s.Row = o.FwdRow
		s.Arr = o.FwdTo
	}
	return s
}

// SliceContent is the content of a slice as a function of the index B0.
func (in *Interp) SliceContent(st *State, s Slice) *Content {
	s = in.resolve(st, s)
	if s.Arr < 0 {
		return &Content{Base: I(0)}
	}
	o := st.Obj(s.Arr)
	if o.Kind == Arr2 {
		if o.Dead || s.Row == nil {
			in.problem(st, nil, "rows are used after they were appended to others")
			return &Content{Base: C(o.Sort, 0)}
		}
		return o.C.Subst(Subst{B0a: s.Row, B1a: B0.Add(s.Off)})
	}
	return o.C.Subst(Subst{B0a: B0.Add(s.Off)})
}

// sliceLen is the length of a slice; rows of an array of rows know it from there.
func (in *Interp) indexAddr(st *State, fr *frame, x *ssa.IndexAddr, k func(*State, Val)) {
	n, ok := in.val(st, fr, x.Index).(Num)
	s, ok2 := in.val(st, fr, x.X).(Slice)
	if !ok || !ok2 {
		in.problem(st, x, "index %v of %v", in.val(st, fr, x.Index), in.val(st, fr, x.X))
		return
	}
	out := func(s *State) {
		in.panic_(s, x, false, "index out of range: %s of %s", n.P, in.val(s, fr, x.X).(Slice).Len)
	}
	in.Decide(st, GeL(n.P), func(a *State) {
		in.Decide(a, Lt(n.P, s.Len), func(b *State) { k(b, ElemPtr{s, n.P}) }, out)
	}, out)
}

func (in *Interp) loadElem(st *State, p ElemPtr, k func(*State, Val)) {
	s := in.resolve(st, p.S)
	o := st.Obj(s.Arr)
	if o == nil {
		in.problem(st, nil, "load from an unknown array")
		return
	}
	if o.Kind == Arr2 && o.Dead {
		in.problem(st, nil, "rows are used after they were appended to others")
		return
	}
	switch o.Kind {
	case Arr:
		in.Read(st, o.C, []*Poly{s.Off.Add(p.Idx)}, func(a *State, v *Poly) { k(a, Num{v}) })
	case Arr2:
		if s.Row != nil {
			in.Read(st, o.C, []*Poly{s.Row, s.Off.Add(p.Idx)}, func(a *State, v *Poly) { k(a, Num{v}) })
			return
		}
		row := s.Off.Add(p.Idx)
		in.Read(st, o.RowLen, []*Poly{row}, func(a *State, n *Poly) {
			k(a, Slice{Arr: s.Arr, Row: row, Off: I(0), Len: n, Cap: n})
		})
	case ValArr:
		i, ok := s.Off.Add(p.Idx).IsConst()
		if !ok {
			in.problem(st, nil, "index %s of an array of other values", p.Idx)
			return
		}
		st.readElem(s.Arr, i)
		if v, ok := o.Vals[i]; ok {
			k(st, v)
			return
		}
		k(st, o.Zero)
	default:
		in.problem(st, nil, "load of an element of kind %d", o.Kind)
	}
}

func (in *Interp) storeElem(st *State, p ElemPtr, v Val, k func(*State)) {
	s := in.resolve(st, p.S)
	o := st.Obj(s.Arr)
	if o == nil {
		in.problem(st, nil, "store to an unknown array")
		return
	}
	if o.Kind == Arr2 && o.Dead {
		in.problem(st, nil, "rows are used after they were appended to others")
		return
	}
	if o.Old && in.OnWrite != nil && in.mute == 0 {
		in.OnWrite(st, in.curInstr, s.Arr)
	}
	switch o.Kind {
	case Arr:
		n, ok := v.(Num)
		if !ok {
			in.problem(st, nil, "store of %v", v)
			return
		}
		in.clobberMaybe(st, o)
		if in.OnElem != nil {
			in.OnElem(st, s.Arr, false, s.Off.Add(p.Idx), n.P)
			o = st.Obj(s.Arr)
		}
		o = o.clone()
		o.C = o.C.with(Layer{[]Lit{Same(B0, s.Off.Add(p.Idx))}, n.P})
		st.setObj(s.Arr, o)
		k(st)
	case Arr2:
		if s.Row != nil {
			n, ok := v.(Num)
			if !ok {
				in.problem(st, nil, "store of %v", v)
				return
			}
			o = o.clone()
			o.C = o.C.with(Layer{[]Lit{Same(B0, s.Row), Same(B1, s.Off.Add(p.Idx))}, n.P})
			st.setObj(s.Arr, o)
			k(st)
			return
		}
		row, ok := v.(Slice)
		if !ok {
			in.problem(st, nil, "store of %v as a row", v)
			return
		}
		in.storeRow(st, s, o, s.Off.Add(p.Idx), row, k)
	case ValArr:
		i, ok := s.Off.Add(p.Idx).IsConst()
		if !ok {
			in.problem(st, nil, "index %s of an array of other values", p.Idx)
			return
		}
		o = o.clone()
		m := map[int64]Val{}
		for a, b := range o.Vals {
			m[a] = b
		}
		m[i] = v
		o.Vals = m
		st.putElem(s.Arr, o, i)
		k(st)
	default:
		in.problem(st, nil, "store to an element of kind %d", o.Kind)
	}
}

func (in *Interp) storeRow(st *State, s Slice, o *Obj, i *Poly, row Slice, k func(*State)) {
	g := []Lit{Same(B0, i)}
	o = o.clone()
	if row.Arr < 0 {
		o.RowLen = o.RowLen.with(Layer{g, I(0)})
		st.setObj(s.Arr, o)
		k(st)
		return
	}
	ro := st.Obj(row.Arr)
	if row.Row != nil || ro.FwdTo > 0 || !row.Off.Zero() || ro.Old {
		o.Shared = "a row shares the memory of another"
	}
	c := in.SliceContent(st, row).Subst(Subst{B0a: B1})
	o.C = o.C.over(g, c)
	o.RowLen = o.RowLen.with(Layer{g, row.Len})
	st.setObj(s.Arr, o)
	if row.Row == nil && ro.FwdTo == 0 {
		ro = ro.clone()
		ro.FwdTo, ro.FwdRow = s.Arr, i
		st.setObj(row.Arr, ro)
	}
	k(st)
}

// clobberMaybe forgets the content of arrays that may share memory with one written to.
func (in *Interp) clobberMaybe(st *State, o *Obj) {
	for _, id := range o.Maybe {
		m := st.Obj(id)
		if m == nil || m.Kind != Arr {
			continue
		}
		m = m.clone()
		m.C = &Content{Base: Apply(m.Sort, in.freshName(st, "clob", in.curInstr), append(append([]*Poly{}, st.Params...), B0)...)}
		st.setObj(id, m)
	}
}

func (in *Interp) slice(st *State, fr *frame, x *ssa.Slice, k func(*State, Val)) {
	v := in.val(st, fr, x.X)
	s, ok := v.(Slice)
	if !ok {
		in.problem(st, x, "slice of %v", v)
		return
	}
	lo, hi := I(0), s.Len
	get := func(e ssa.Value, d *Poly) (*Poly, bool) {
		if e == nil {
			return d, true
		}
		n, ok := in.val(st, fr, e).(Num)
		if !ok {
			return nil, false
		}
		return n.P, true
	}
	lo, ok1 := get(x.Low, lo)
	hi, ok2 := get(x.High, hi)
	max, ok3 := get(x.Max, s.Cap)
	if !ok1 || !ok2 || !ok3 {
		in.problem(st, x, "slice bounds")
		return
	}
	bad := func(a *State) { in.panic_(a, x, false, "slice bounds out of range") }
	in.decideAll(st, []Lit{GeL(lo), Le(lo, hi), Le(hi, max), Le(max, s.Cap)}, func(a *State) {
		if o := a.Obj(s.Arr); o != nil && o.Grown != nil && !a.F.Entails(Le(s.Off.Add(hi), o.Grown)) {
			// what is there is not known
			if o.Kind != Arr {
				in.problem(a, x, "rows are taken that were not appended")
				return
			}
			o = o.clone()
			o.C = o.C.with(Layer{[]Lit{Le(o.Grown, B0)}, Apply(o.Sort, in.freshName(a, "spare", x), append(append([]*Poly{}, a.Params...), B0)...)})
			o.Grown = nil
			a.setObj(s.Arr, o)
		}
		k(a, Slice{Arr: s.Arr, Row: s.Row, Off: s.Off.Add(lo), Len: hi.Sub(lo), Cap: max.Sub(lo)})
	}, bad)
}

// Concat is the content of a followed by b, as a new array.
func (in *Interp) concat(st *State, a, b Slice) *Content {
	ca, cb := in.SliceContent(st, a), in.SliceContent(st, b)
	if a.Len.Zero() {
		return cb
	}
	if b.Len.Zero() {
		return ca
	}
	if b.Len == I(1) {
		if v := at0(cb); v != nil {
			return ca.with(Layer{[]Lit{Same(B0, a.Len)}, v})
		}
	}
	return ca.over([]Lit{Le(a.Len, B0)}, cb.Subst(Subst{B0a: B0.Sub(a.Len)}))
}

// appendRows appends rows to an array of rows. The arrays appended are not to be used any more: their
// rows are in the new one.
func (in *Interp) appendRows(st *State, a, b Slice, o *Obj) Slice {
	n := a.Len.Add(b.Len)
	for _, s := range []Slice{a, b} {
		if x := st.Obj(s.Arr); s.Row != nil || s.Arr >= 0 && (x == nil || x.Kind != Arr2 || x.Old) {
			in.problem(st, nil, "append of rows")
			return a
		}
	}
	if b.Arr < 0 {
		return a
	}
	join := func(f func(*Obj) *Content) *Content {
		cb := f(st.Obj(b.Arr))
		var ca *Content
		if a.Arr < 0 || a.Len.Zero() {
			return cb.Subst(Subst{B0a: B0.Add(b.Off)})
		}
		ca = f(st.Obj(a.Arr)).Subst(Subst{B0a: B0.Add(a.Off)})
		if b.Len == I(1) {
			return ca.over([]Lit{Same(B0, a.Len)}, cb.Subst(Subst{B0a: b.Off}))
		}
		return ca.over([]Lit{Le(a.Len, B0)}, cb.Subst(Subst{B0a: B0.Sub(a.Len).Add(b.Off)}))
	}
	o.C = join(func(x *Obj) *Content { return x.C })
	o.RowLen = join(func(x *Obj) *Content { return x.RowLen })
	c := S(Int, in.freshName(st, "cap", in.curInstr), st.Params...)
	st.F.Add(Le(n, c))
	o.Len, o.Grown = c, n
	id := in.NewObj(st, o)
	for _, i := range sortedIDs(st.heap) {
		x := st.heap[i]
		if x == nil || x.FwdTo <= 0 || x.FwdTo != a.Arr && x.FwdTo != b.Arr {
			continue
		}
		x = x.clone()
		if x.FwdTo == a.Arr {
			x.FwdRow = x.FwdRow.Sub(a.Off)
		} else {
			x.FwdRow = x.FwdRow.Sub(b.Off).Add(a.Len)
		}
		x.FwdTo = id
		st.putObj(i, x)
	}
	for _, s := range []Slice{a, b} {
		if s.Arr >= 0 {
			x := st.Obj(s.Arr).clone()
			x.Dead = true
			if x.Shared != "" {
				y := st.Obj(id).clone()
				y.Shared = x.Shared
				st.putObj(id, y)
			}
			st.putObj(s.Arr, x)
		}
	}
	return Slice{Arr: id, Off: I(0), Len: n, Cap: c}
}

// at0 is the value of the content at index zero, if no condition is left in it.
func at0(c *Content) *Poly {
	c = c.Subst(Subst{B0a: I(0)})
	for i := len(c.Layers) - 1; i >= 0; i-- {
		holds := true
		for _, l := range c.Layers[i].Guard {
			if l.Op == No {
				holds = false
				break
			}
			if l.Op != Yes {
				return nil
			}
		}
		if holds {
			return c.Layers[i].Val
		}
	}
	return c.Base
}

func (in *Interp) appendTo(st *State, a, b Slice, elem types.Type) Slice {
	n := a.Len.Add(b.Len)
	if a.Arr < 0 && b.Arr < 0 {
		return a
	}
	o := in.newArr(st, elem, n)
	if o.Kind == ValArr {
		o.Vals = map[int64]Val{}
		pos := int64(0)
		for _, s := range []Slice{a, b} {
			l, ok := s.Len.IsConst()
			off, ok2 := s.Off.IsConst()
			if !ok || !ok2 {
				in.problem(st, nil, "append to an array of other values")
				return a
			}
			st.readElem(s.Arr, -1)
			for i := int64(0); i < l; i++ {
				src := st.Obj(s.Arr)
				if v, ok := src.Vals[off+i]; ok {
					o.Vals[pos] = v
				}
				pos++
			}
		}
		id := in.NewObj(st, o)
		return Slice{Arr: id, Off: I(0), Len: n, Cap: n}
	}
	if o.Kind != Arr {
		return in.appendRows(st, a, b, o)
	}
	o.C = in.concat(st, a, b)
	if in.OnElem != nil {
		var v *Poly
		if b.Len == I(1) {
			v = at0(in.SliceContent(st, b))
		}
		in.OnElem(st, a.Arr, true, a.Len, v)
	}
	id := in.nobj + 1
	ra := in.resolve(st, a)
	// if the capacity suffices the elements after a are overwritten in place
	if ra.Arr >= 0 && !st.F.EqInt(a.Len, a.Cap) && !b.Len.Zero() {
		old := st.Obj(ra.Arr)
		if old.Old && in.OnWrite != nil && in.mute == 0 {
			in.OnWrite(st, in.curInstr, ra.Arr)
		}
		old = old.clone()
		if old.Kind == Arr {
			u := Apply(old.Sort, in.freshName(st, "over", in.curInstr), append(append([]*Poly{}, st.Params...), B0)...)
			old.C = old.C.with(Layer{[]Lit{Le(ra.Off.Add(a.Len), B0)}, u})
			for _, m := range old.Maybe {
				if x := st.Obj(m); x != nil {
					x = x.clone()
					x.Maybe = append(x.Maybe[:len(x.Maybe):len(x.Maybe)], id)
					st.putObj(m, x)
					o.Maybe = append(o.Maybe, m)
				}
			}
			old.Maybe = append(old.Maybe[:len(old.Maybe):len(old.Maybe)], id)
		} else {
			in.problem(st, nil, "append to a row")
		}
		st.setObj(ra.Arr, old)
		o.Maybe = append(o.Maybe, ra.Arr)
	}
	id = in.NewObj(st, o)
	// the capacity of the result is unknown
	c := S(Int, in.freshName(st, "cap", in.curInstr), st.Params...)
	st.F.Add(Le(n, c))
	o = o.clone()
	o.Len = c
	o.Grown = n
	st.setObj(id, o)
	return Slice{Arr: id, Off: I(0), Len: n, Cap: c}
}

func (in *Interp) copyTo(st *State, dst, src Slice, k func(*State, Val)) {
	do := func(s *State, n *Poly) {
		if n.Zero() {
			k(s, Num{n})
			return
		}
		d := in.resolve(s, dst)
		o := s.Obj(d.Arr)
		if o.Old && in.OnWrite != nil && in.mute == 0 {
			in.OnWrite(s, in.curInstr, d.Arr)
		}
		c := in.SliceContent(s, src)
		in.clobberMaybe(s, o)
		o = o.clone()
		if o.Kind == Arr2 && d.Row != nil {
			x := B1.Sub(d.Off)
			o.C = o.C.over([]Lit{Same(B0, d.Row), Le(I(0), x), Lt(x, n)}, c.Subst(Subst{B0a: x}))
		} else if o.Kind == Arr {
			x := B0.Sub(d.Off)
			o.C = o.C.over([]Lit{Le(I(0), x), Lt(x, n)}, c.Subst(Subst{B0a: x}))
		} else {
			in.problem(s, nil, "copy of rows")
			return
		}
		s.setObj(d.Arr, o)
		k(s, Num{n})
	}
	in.Decide(st, Le(dst.Len, src.Len), func(s *State) { do(s, dst.Len) }, func(s *State) { do(s, src.Len) })
}

// ---------------------------------------------------------------- calls

func (in *Interp) call(st *State, fr *frame, site ssa.Instruction, c *ssa.CallCommon, k cont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(st, fr, a))
	}
	if c.IsInvoke() {
		in.Invoke(st, site, in.val(st, fr, c.Value), c.Method.Name(), args, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		in.builtin(st, fr, site, b.Name(), c, args, k)
		return
	}
	in.CallVal(st, site, in.val(st, fr, c.Value), args, k)
}

// CallVal calls a function value.
func (in *Interp) CallVal(st *State, site ssa.Instruction, f Val, args []Val, k cont) {
	switch f := f.(type) {
	case Func:
		in.Call(st, site, f.Fn, args, f.Free, k)
	case FuncSym:
		if in.OnFunc != nil && in.OnFunc(st, site, f, args, k) {
			return
		}
		if in.OnCall != nil && in.mute == 0 {
			in.OnCall(st, site, f, args)
		}
		var ps []*Poly
		for _, a := range args {
			if n, ok := a.(Num); ok {
				ps = append(ps, n.P)
			}
		}
		switch f.Sort {
		case Bool:
			k(st, []Val{BoolV{Truth(Pred(f.Name, ps...))}})
		default:
			k(st, []Val{Num{Apply(f.Sort, f.Name, ps...)}})
		}
	case NilV:
		in.panic_(st, site, false, "call of a nil function")
	default:
		in.problem(st, site, "call of %v", f)
	}
}

// Invoke calls a method of an interface value.
func (in *Interp) Invoke(st *State, site ssa.Instruction, recv Val, name string, args []Val, k cont) {
	switch v := recv.(type) {
	case NilV:
		in.panic_(st, site, false, "call of a method of nil")
		return
	case CtxV:
		switch name {
		case "Done":
			k(st, []Val{DoneV{v.Bg}})
		case "Err":
			in.poll(st, v.Bg, func(s *State) { k(s, []Val{StructV{}}) }, func(s *State) { k(s, []Val{NilV{}}) })
		default:
			in.problem(st, site, "context method %s", name)
		}
		return
	case Iface:
		if p, ok := v.V.(Ptr); ok {
			if in.objectCall(st, site, p, name, args, k) {
				return
			}
		}
		if n := namedOf(v.T); n != nil {
			in.invokeNamed(st, site, n, v.V, name, args, k)
			return
		}
	case Ptr:
		if in.objectCall(st, site, v, name, args, k) {
			return
		}
	case Ext:
		if vals, ok := v.Call(in, st, name, args); ok {
			k(st, vals)
			return
		}
	case Opaque:
		if in.OnOpaque != nil && in.OnOpaque(in, st, v, name, args, k) {
			return
		}
	case OpV:
		if name == "Apply" {
			in.CallVal(st, site, v.F, args, k)
			return
		}
	}
	in.problem(st, site, "method %s of %v", name, recv)
}

// OpV is an operator known by the function it applies.
type OpV struct{ F Val }

func (in *Interp) invokeNamed(st *State, site ssa.Instruction, n *types.Named, v Val, name string, args []Val, k cont) {
	fn, path := in.H.Method(n, name)
	if fn == nil {
		// promoted from an embedded interface
		if obj, index, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name); obj != nil && len(index) > 1 {
			if f, ok := obj.(*types.Func); ok && types.IsInterface(f.Type().(*types.Signature).Recv().Type()) {
				in.descend(st, site, n, v, index[:len(index)-1], func(s *State, recv Val, iface bool) {
					in.Invoke(s, site, recv, name, args, k)
				})
				return
			}
		}
		in.problem(st, site, "no method %s of %s", name, n.Obj().Name())
		return
	}
	in.descend(st, site, n, v, path, func(s *State, recv Val, iface bool) {
		if iface {
			in.Invoke(s, site, recv, name, args, k)
			return
		}
		in.Call(s, site, fn, append([]Val{recv}, args...), nil, k)
	})
}

// descend follows embedded fields to the receiver of a promoted method.
func (in *Interp) descend(st *State, site ssa.Instruction, n *types.Named, v Val, path []int, k func(*State, Val, bool)) {
	if len(path) == 0 {
		k(st, v, false)
		return
	}
	p, ok := v.(Ptr)
	if !ok {
		in.problem(st, site, "promoted method of %v", v)
		return
	}
	t := n.Underlying()
	for i, f := range path {
		s, ok := t.(*types.Struct)
		if !ok {
			in.problem(st, site, "promoted method")
			return
		}
		ft := types.Unalias(s.Field(f).Type())
		p = Ptr{p.Obj, fieldPath(p.Path, f)}
		if _, ok := ft.Underlying().(*types.Interface); ok {
			in.Load(st, p, ft, func(s *State, v Val) { k(s, v, true) })
			return
		}
		if pt, ok := ft.(*types.Pointer); ok {
			rest := path[i+1:]
			in.Load(st, p, ft, func(s *State, v Val) {
				q := namedOf(pt.Elem())
				if q == nil {
					in.problem(s, site, "promoted method")
					return
				}
				in.descend(s, site, q, v, rest, k)
			})
			return
		}
		t = ft.Underlying()
	}
	k(st, p, false)
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n == nil {
		return nil
	}
	return n.Origin()
}

func (in *Interp) typeAssert(st *State, fr *frame, x *ssa.TypeAssert, k func(*State, Val)) {
	v := in.val(st, fr, x.X)
	ok := func(s *State, w Val) {
		if x.CommaOk {
			w = Tuple{w, BoolV{Lit{Op: Yes}}}
		}
		k(s, w)
	}
	fail := func(s *State) {
		if x.CommaOk {
			k(s, Tuple{in.Zero(s, x.AssertedType), BoolV{Lit{Op: No}}})
			return
		}
		in.panic_(s, x, false, "failed type assertion")
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch w := v.(type) {
	case NilV:
		fail(st)
	case Iface:
		if toIface {
			it := x.AssertedType.Underlying().(*types.Interface)
			if implementsByName(in.H, w.T, it) {
				ok(st, v)
			} else {
				fail(st)
			}
			return
		}
		n, m := namedOf(w.T), namedOf(x.AssertedType)
		same := n != nil && n == m
		if in.NoContracts && !hasParam(w.T) && !hasParam(x.AssertedType) {
			same = false // the type arguments count
		}
		if same || types.Identical(w.T, x.AssertedType) {
			ok(st, w.V)
			return
		}
		fail(st)
	case Opaque:
		if in.OpaqueIs != nil {
			if is, known := in.OpaqueIs(w, x.AssertedType); known && !is {
				fail(st)
				return
			}
		}
		in.Decide(st, Truth(Pred(fmt.Sprintf("%s is a %s", w.Name, x.AssertedType))), func(s *State) {
			if toIface {
				ok(s, v)
				return
			}
			ok(s, Opaque{w.Name + ".(" + x.AssertedType.String() + ")"})
		}, fail)
	case Ptr:
		o := st.Obj(w.Obj)
		if o != nil && o.Kind == Mat && toIface {
			// a copy of a vector is a vector
			if it := x.AssertedType.Underlying().(*types.Interface); hasMethod(it, "AtVec") && !o.Vec {
				fail(st)
				return
			}
			ok(st, v)
			return
		}
		in.problem(st, x, "type assertion of an abstract matrix")
	default:
		in.problem(st, x, "type assertion of %v", v)
	}
}

// hasParam tells whether the type's arguments include a type parameter.
func hasParam(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return true
	}
	for i := 0; i < n.TypeArgs().Len(); i++ {
		if _, ok := types.Unalias(n.TypeArgs().At(i)).(*types.TypeParam); ok {
			return true
		}
	}
	return false
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func implementsByName(h Host, t types.Type, it *types.Interface) bool {
	n := namedOf(t)
	if n == nil {
		return it.NumMethods() == 0
	}
	for i := 0; i < it.NumMethods(); i++ {
		if fn, _ := h.Method(n, it.Method(i).Name()); fn == nil {
			return false
		}
	}
	return true
}
