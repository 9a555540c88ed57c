// Package interp is an abstract interpreter over SSA. Values are terms of the domain in package dom,
// memory is a heap of cells, arrays and matrices whose content is a function of the index, loops are
// summarised by closed forms and inferred invariants, and paths are partitioned by the conditions on
// them. It never runs the code and handles unbounded sizes.
package interp

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
)

// Val is an abstract value.
type Val interface{}

type (
	// Num is an integer or an element.
	Num struct{ P *Poly }
	// BoolV is a truth value.
	BoolV struct{ L Lit }
	// Ptr is the address of a cell of an object.
	Ptr struct {
		Obj  int
		Path string
	}
	// ElemPtr is the address of an element of a slice.
	ElemPtr struct {
		S   Slice
		Idx *Poly
	}
	// Slice is a slice of an array, or of a row of an array of rows.
	Slice struct {
		Arr      int // -1: nil
		Row      *Poly
		Off      *Poly
		Len, Cap *Poly
	}
	// StructV is a struct value.
	StructV struct{ F []Val }
	// Iface is an interface value with a known dynamic type.
	Iface struct {
		T types.Type
		V Val
	}
	// NilV is nil.
	NilV struct{}
	// Func is a function or closure.
	Func struct {
		Fn   *ssa.Function
		Free []Val
	}
	// FuncSym is an unknown pure function.
	FuncSym struct {
		Name string
		Sort Sort
	}
	// Tuple is a tuple.
	Tuple []Val
	// Unknown is a value nothing is known about.
	Unknown struct{ Why string }
	// CtxV is a context.
	CtxV struct{ Bg bool }
	// DoneV is the done channel of a context.
	DoneV struct{ Bg bool }
	// Opaque is a value known by its name only; OnOpaque says what its methods do.
	Opaque struct{ Name string }
	// GlobalV is the address of a package variable.
	GlobalV struct{ G *ssa.Global }
	// StrV is a string constant or an opaque string.
	StrV struct{ S string }
)

// Bound index variables of contents.
var (
	B0a = SA(Int, "i")
	B1a = SA(Int, "j")
	B0  = P(B0a)
	B1  = P(B1a)
)

// Layer is a partial overwrite of a content: where all of Guard hold the content is Val.
type Layer struct {
	Guard []Lit
	Val   *Poly
}

// Content is a function of one or two indices: the newest layer whose guard holds, else Base.
type Content struct {
	Layers []Layer
	Base   *Poly
}

func (c *Content) with(l Layer) *Content {
	if len(c.Layers) == 0 && l.Val == c.Base {
		return c
	}
	return &Content{Layers: append(c.Layers[:len(c.Layers):len(c.Layers)], l), Base: c.Base}
}

// With adds a layer.
func (c *Content) With(l Layer) *Content { return c.with(l) }

// Subst replaces atoms in the content.
func (c *Content) Subst(s Subst) *Content {
	d := &Content{Base: c.Base.Subst(s)}
	for _, l := range c.Layers {
		var g []Lit
		dead := false
		for _, x := range l.Guard {
			y := x.Subst(s)
			if y.Op == No {
				dead = true
			}
			if y.Op != Yes {
				g = append(g, y)
			}
		}
		if !dead {
			d.Layers = append(d.Layers, Layer{g, l.Val.Subst(s)})
		}
	}
	return d
}

func (c *Content) has(a *Atom) bool {
	if c.Base.Has(a) {
		return true
	}
	for _, l := range c.Layers {
		if l.Val.Has(a) {
			return true
		}
		for _, g := range l.Guard {
			if g.Has(a) {
				return true
			}
		}
	}
	return false
}

// over lays the content d over c where guard holds.
func (c *Content) over(guard []Lit, d *Content) *Content {
	out := c
	out = out.with(Layer{guard, d.Base})
	for _, l := range d.Layers {
		out = out.with(Layer{append(append([]Lit{}, guard...), l.Guard...), l.Val})
	}
	return out
}

// map1 applies f to every value.
func (c *Content) map1(f func(*Poly) *Poly) *Content {
	d := &Content{Base: f(c.Base)}
	for _, l := range c.Layers {
		d.Layers = append(d.Layers, Layer{l.Guard, f(l.Val)})
	}
	return d
}

// map2 combines two contents.
func map2(a, b *Content, f func(x, y *Poly) *Poly) *Content {
	la := append([]Layer{{nil, a.Base}}, a.Layers...)
	lb := append([]Layer{{nil, b.Base}}, b.Layers...)
	out := &Content{Base: f(a.Base, b.Base)}
	for i, x := range la {
		for j, y := range lb {
			if i == 0 && j == 0 {
				continue
			}
			out.Layers = append(out.Layers, Layer{append(append([]Lit{}, x.Guard...), y.Guard...), f(x.Val, y.Val)})
		}
	}
	return out
}

func (c *Content) String() string {
	var b strings.Builder
	for i := len(c.Layers) - 1; i >= 0; i-- {
		var g []string
		for _, x := range c.Layers[i].Guard {
			g = append(g, x.String())
		}
		fmt.Fprintf(&b, "[%s ? %s] ", strings.Join(g, " & "), c.Layers[i].Val)
	}
	return b.String() + c.Base.String()
}

func sameContent(a, b *Content) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Base != b.Base || len(a.Layers) != len(b.Layers) {
		return false
	}
	for i := range a.Layers {
		if a.Layers[i].Val != b.Layers[i].Val || len(a.Layers[i].Guard) != len(b.Layers[i].Guard) {
			return false
		}
		for j := range a.Layers[i].Guard {
			if a.Layers[i].Guard[j] != b.Layers[i].Guard[j] {
				return false
			}
		}
	}
	return true
}

// ObjKind is the kind of an object.
type ObjKind uint8

const (
	Cells  ObjKind = iota // a variable or struct: one value per field path
	Arr                   // an array of numbers
	Arr2                  // an array of rows of numbers
	ValArr                // an array of other values, indexed by constants
	Mat                   // a matrix, vector or mask known by its elements
	Iter                  // an iterator over a matrix
	ChanO                 // a channel
	MapO                  // a map with constant keys
)

// Obj is an object of the heap; objects are replaced, never changed.
type Obj struct {
	Kind   ObjKind
	Name   string
	Type   types.Type
	Cells  map[string]Val
	Sort   Sort
	C      *Content // Arr, Arr2, Mat
	RowLen *Content // Arr2
	Len    *Poly
	Vals   map[int64]Val
	Zero   Val // of ValArr
	// Mat
	Rows, Cols *Poly
	Sparse     Lit // truth of "is a sparse format"
	Fmt        *types.Named
	Vec        bool
	MaskOnly   bool
	// Iter
	Mat   int
	Pos   *Poly
	IsMap bool
	Snap  *Content
	Count *Poly
	ItID  string
	// Arr stored as a row of an Arr2
	FwdTo  int
	FwdRow *Poly
	// ChanO
	Queue    []Val
	Buffered bool // or not known to be unbuffered
	Closed   bool
	Sent     *Poly
	// arrays that may share memory with this one
	Maybe  []int
	Grown  *Poly // the content is known up to here only
	Old    bool // existed before the function was entered
	Local  int  // loop nesting depth at the allocation
	Shared string
	From   *Taken // what it was taken from
	Frozen bool   // known under two names: it must not change
	Dead   bool   // known under another name: it must not be used under this one
}

// Taken is the row or column that a vector was taken from.
type Taken struct {
	Mat  int
	Name string
	At   *Poly
}

type env struct {
	m     map[ssa.Value]Val
	owner *State
}

// State is the abstract state on one path.
type State struct {
	heap    map[int]*Obj
	heapOwn bool
	envs    map[int]*env
	F       *Facts
	Params  []*Poly
	seq     map[string]int
	Path    []Lit // the branches taken
	Stack   []string
	depth   int
	Tags    map[string]Val // bookkeeping of the checks
	defers  []deferred
	globals map[*ssa.Global]Val
	lent    map[int]bool     // what goroutines can reach
	floor   int              // objects up to this one are older than the goroutine interpreted
	goro    int              // the goroutine interpreted, 0 the one that called
	ngoro   int              // started so far
	own     map[[2]int64]int // elements of shared arrays that a goroutine has written
	groups  map[int]group
	left    bool   // the goroutine has told a wait group that it is done
	race    string // an access that may race with one of another goroutine
	stop    stop   // of cancellation
}

// group is a wait group: what it counts and how many goroutines have said that they are done.
type group struct{ count, done int64 }

// putElem replaces an array of which one element was written.
func (s *State) putElem(id int, o *Obj, i int64) {
	was := s.heap[id]
	if was == nil || was.Frozen || s.race != "" || !s.lent[id] && id > s.floor {
		s.setObj(id, o)
		return
	}
	key := [2]int64{int64(id), i}
	if by, ok := s.own[key]; ok && by != s.goro || s.left {
		s.setObj(id, o)
		return
	}
	n := map[[2]int64]int{key: s.goro}
	for k, v := range s.own {
		n[k] = v
	}
	s.own = n
	s.putObj(id, o)
}

// readElem notes that an element is read; i < 0 stands for all.
func (s *State) readElem(id int, i int64) {
	for k, by := range s.own {
		if k[0] == int64(id) && (i < 0 || k[1] == i) && by != s.goro && s.race == "" {
			s.race = fmt.Sprintf("element %d of an array is read although a goroutine may write it at the same time", k[1])
		}
	}
}

// waitGroup interprets an operation of a wait group; why says what is wrong with it.
func (s *State) waitGroup(id int, op string, n int64) (why string) {
	g := s.groups[id]
	switch op {
	case "Add":
		if s.goro != 0 && n > 0 {
			return "a goroutine is counted after it was started"
		}
		g.count += n
	case "Done":
		g.count--
		g.done++
		s.left = s.goro != 0
	case "Wait":
		if g.count != 0 {
			return fmt.Sprintf("waits for %d goroutines that do not say that they are done", g.count)
		}
		if s.goro == 0 && int(g.done) == s.ngoro {
			s.lent, s.own = nil, nil
		}
		return ""
	}
	if g.count < 0 {
		return "a wait group counts below zero"
	}
	m := map[int]group{}
	for k, v := range s.groups {
		m[k] = v
	}
	m[id] = g
	s.groups = m
	return ""
}

// deferred is a deferred call of a frame.
type deferred struct {
	frame int
	site  *ssa.Defer
	fn    Val
	args  []Val
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, heapOwn: true, envs: map[int]*env{}, F: NewFacts(), seq: map[string]int{}, Tags: map[string]Val{}}
}

// Clone copies the state.
func (s *State) Clone() *State {
	n := &State{heap: s.heap, envs: map[int]*env{}, F: s.F.Clone(), Params: s.Params[:len(s.Params):len(s.Params)],
		seq: map[string]int{}, Path: s.Path[:len(s.Path):len(s.Path)], Stack: s.Stack[:len(s.Stack):len(s.Stack)], depth: s.depth, Tags: map[string]Val{}, defers: s.defers[:len(s.defers):len(s.defers)], lent: s.lent, floor: s.floor, goro: s.goro, ngoro: s.ngoro, own: s.own, groups: s.groups, left: s.left, race: s.race, stop: s.stop}
	s.heapOwn = false
	for k, e := range s.envs {
		e.owner = nil
		n.envs[k] = e
	}
	if s.globals != nil {
		n.globals = map[*ssa.Global]Val{}
		for k, v := range s.globals {
			n.globals[k] = v
		}
	}
	for k, v := range s.seq {
		n.seq[k] = v
	}
	for k, v := range s.Tags {
		n.Tags[k] = v
	}
	return n
}

// Obj returns an object.
func (s *State) Obj(id int) *Obj { return s.heap[id] }

func (s *State) setObj(id int, o *Obj) {
	if was := s.heap[id]; was != nil && s.race == "" && (s.lent[id] || id <= s.floor || was.Frozen) && was.differs(o) {
		s.race = was.Name
		if was.Name == "" {
			s.race = "an object"
		}
		if was.Frozen {
			s.race += " is written although a variable that changes in a loop may hold it as well"
		} else {
			s.race += " is written although a goroutine may use it at the same time"
		}
	}
	s.putObj(id, o)
}

func (s *State) putObj(id int, o *Obj) {
	if !s.heapOwn {
		h := make(map[int]*Obj, len(s.heap)+1)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap, s.heapOwn = h, true
	}
	s.heap[id] = o
}

func (s *State) get(fr int, v ssa.Value) (Val, bool) {
	e := s.envs[fr]
	if e == nil {
		return nil, false
	}
	x, ok := e.m[v]
	return x, ok
}

func (s *State) set(fr int, v ssa.Value, x Val) {
	e := s.envs[fr]
	if e == nil {
		e = &env{m: map[ssa.Value]Val{}, owner: s}
		s.envs[fr] = e
	} else if e.owner != s {
		m := make(map[ssa.Value]Val, len(e.m)+1)
		for k, w := range e.m {
			m[k] = w
		}
		e = &env{m: m, owner: s}
		s.envs[fr] = e
	}
	e.m[v] = x
}

func (o *Obj) clone() *Obj { n := *o; return &n }

func (o *Obj) withCell(path string, v Val) *Obj {
	n := o.clone()
	n.Cells = make(map[string]Val, len(o.Cells)+1)
	for k, w := range o.Cells {
		n.Cells[k] = w
	}
	n.Cells[path] = v
	return n
}

// substVal replaces atoms in a value.
func substVal(v Val, s Subst) Val {
	switch v := v.(type) {
	case Num:
		return Num{v.P.Subst(s)}
	case BoolV:
		return BoolV{v.L.Subst(s)}
	case Slice:
		return substSlice(v, s)
	case ElemPtr:
		return ElemPtr{substSlice(v.S, s), v.Idx.Subst(s)}
	case StructV:
		f := make([]Val, len(v.F))
		for i, x := range v.F {
			f[i] = substVal(x, s)
		}
		return StructV{f}
	case Iface:
		return Iface{v.T, substVal(v.V, s)}
	case Tuple:
		f := make(Tuple, len(v))
		for i, x := range v {
			f[i] = substVal(x, s)
		}
		return f
	case Func:
		f := make([]Val, len(v.Free))
		for i, x := range v.Free {
			f[i] = substVal(x, s)
		}
		return Func{v.Fn, f}
	}
	return v
}

func substSlice(v Slice, s Subst) Slice {
	if v.Row != nil {
		v.Row = v.Row.Subst(s)
	}
	if v.Off != nil {
		v.Off, v.Len, v.Cap = v.Off.Subst(s), v.Len.Subst(s), v.Cap.Subst(s)
	}
	return v
}

func (o *Obj) subst(s Subst) *Obj {
	n := o.clone()
	if o.Cells != nil {
		n.Cells = map[string]Val{}
		for k, v := range o.Cells {
			n.Cells[k] = substVal(v, s)
		}
	}
	if o.Vals != nil {
		n.Vals = map[int64]Val{}
		for k, v := range o.Vals {
			n.Vals[k] = substVal(v, s)
		}
	}
	for _, c := range []**Content{&n.C, &n.RowLen, &n.Snap} {
		if *c != nil {
			*c = (*c).Subst(s)
		}
	}
	for _, p := range []**Poly{&n.Len, &n.Rows, &n.Cols, &n.Pos, &n.Count, &n.FwdRow, &n.Sent, &n.Grown} {
		if *p != nil {
			*p = (*p).Subst(s)
		}
	}
	n.Sparse = o.Sparse.Subst(s)
	if o.Queue != nil {
		n.Queue = nil
		for _, v := range o.Queue {
			n.Queue = append(n.Queue, substVal(v, s))
		}
	}
	return n
}

// Subst replaces atoms everywhere in the state.
func (s *State) Subst(sub Subst) *State {
	n := s.Clone()
	n.F = s.F.Subst(sub)
	n.heap = map[int]*Obj{}
	n.heapOwn = true
	for id, o := range s.heap {
		n.heap[id] = o.subst(sub)
	}
	n.envs = map[int]*env{}
	for id, e := range s.envs {
		m := map[ssa.Value]Val{}
		for k, v := range e.m {
			m[k] = substVal(v, sub)
		}
		n.envs[id] = &env{m: m, owner: n}
	}
	for k, v := range s.Tags {
		n.Tags[k] = substVal(v, sub)
	}
	var ps []*Poly
	for _, p := range s.Params {
		ps = append(ps, p.Subst(sub))
	}
	n.Params = ps
	n.Path = nil
	for _, l := range s.Path {
		n.Path = append(n.Path, l.Subst(sub))
	}
	n.defers = nil
	for _, d := range s.defers {
		e := deferred{frame: d.frame, site: d.site, fn: substVal(d.fn, sub)}
		for _, a := range d.args {
			e.args = append(e.args, substVal(a, sub))
		}
		n.defers = append(n.defers, e)
	}
	return n
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Func:
		y, ok := b.(Func)
		if !ok || x.Fn != y.Fn || len(x.Free) != len(y.Free) {
			return false
		}
		for i := range x.Free {
			if !sameVal(x.Free[i], y.Free[i]) {
				return false
			}
		}
		return true
	case ElemPtr:
		y, ok := b.(ElemPtr)
		return ok && x.S == y.S && x.Idx == y.Idx
	case Num:
		y, ok := b.(Num)
		return ok && x.P == y.P
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x.L == y.L
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case NilV:
		_, ok := b.(NilV)
		return ok
	case CtxV:
		_, ok := b.(CtxV)
		return ok
	case DoneV:
		_, ok := b.(DoneV)
		return ok
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y && x.S != ""
	case FuncSym:
		y, ok := b.(FuncSym)
		return ok && x == y
	}
	return false
}

func sortedIDs(h map[int]*Obj) []int {
	ids := make([]int, 0, len(h))
	for id := range h {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func sortedCells(m map[string]Val) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// FieldPath is the path of a field of what is at the path.
func FieldPath(path string, i int) string { return fieldPath(path, i) }

// SetCells gives an object cells.
func (in *Interp) SetCells(st *State, id int, cells map[string]Val) {
	o := st.Obj(id).clone()
	o.Cells = cells
	st.setObj(id, o)
}

// Method calls the method of the dynamic type of an interface value; its body is interpreted.
func (in *Interp) Method(st *State, v Iface, name string, args []Val) (rets []Return) {
	n := namedOf(v.T)
	if n == nil {
		in.problem(st, nil, "method %s of %v", name, v)
		return
	}
	in.invokeNamed(st, nil, n, v.V, name, args, func(s *State, vals []Val) { rets = append(rets, Return{s, vals}) })
	return
}

// EntailsClause reports whether the facts entail a clause.
func EntailsClause(f *Facts, c Clause) bool { return entailsClause(f, c) }

// SetContent sets what an object holds.
func (in *Interp) SetContent(st *State, id int, c *Content) {
	o := st.Obj(id).clone()
	o.C = c
	st.setObj(id, o)
}

// SetCell sets a cell of an object.
func (in *Interp) SetCell(st *State, id int, path string, v Val) {
	st.setObj(id, st.Obj(id).withCell(path, v))
}

// SameVal reports whether two values are the same term.
func SameVal(a, b Val) bool { return sameVal(a, b) }

// Cell is the value of a cell.
func (in *Interp) Cell(st *State, id int, path string, t types.Type) Val {
	return in.loadCell(st, st.Obj(id), path, t)
}

// IDs are the objects of the state.
func (s *State) IDs() []int { return sortedIDs(s.heap) }

// differs reports whether an object holds something else than another.
func (o *Obj) differs(n *Obj) bool {
	if o.Kind != n.Kind || o.Kind == ChanO || o.Kind == Iter || o.Name == "ghost" {
		return false
	}
	if o.C != n.C && (o.C == nil || n.C == nil || !sameContent(o.C, n.C)) || o.RowLen != n.RowLen && !sameContent(o.RowLen, n.RowLen) {
		return true
	}
	for p, v := range n.Cells {
		// a cell without a value so far has been read only
		if w, ok := o.Cells[p]; ok && !sameVal(v, w) {
			return true
		}
	}
	if len(o.Vals) != len(n.Vals) {
		return true
	}
	for i, v := range o.Vals {
		if !sameVal(v, n.Vals[i]) {
			return true
		}
	}
	return false
}

// lend marks what can be reached from values as shared with a goroutine.
func (s *State) lend(vs []Val) {
	l := map[int]bool{}
	for id := range s.lent {
		l[id] = true
	}
	var visit func(v Val)
	obj := func(id int) {
		o := s.heap[id]
		if o == nil || l[id] || o.Kind == ChanO {
			return
		}
		l[id] = true
		for _, v := range o.Cells {
			visit(v)
		}
		for _, v := range o.Vals {
			visit(v)
		}
		if o.Kind == Iter {
			visit(Ptr{o.Mat, ""})
		}
		if o.FwdTo > 0 {
			visit(Ptr{o.FwdTo, ""})
		}
	}
	visit = func(v Val) {
		switch v := v.(type) {
		case Ptr:
			obj(v.Obj)
		case Slice:
			obj(v.Arr)
		case ElemPtr:
			obj(v.S.Arr)
		case Iface:
			visit(v.V)
		case Func:
			for _, x := range v.Free {
				visit(x)
			}
		case Tuple:
			for _, x := range v {
				visit(x)
			}
		case StructV:
			for _, x := range v.F {
				visit(x)
			}
		case OpV:
			visit(v.F)
		}
	}
	for _, v := range vs {
		visit(v)
	}
	s.lent = l
}

// IsNumType reports whether a type is a number.
func IsNumType(t types.Type) bool { return isNumType(t) }
