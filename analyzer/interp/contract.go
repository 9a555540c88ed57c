package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
)

// iterInfo is what an enumeration goes through.
type iterInfo struct {
	c          *Content
	rows, cols *Poly
	sparse     bool
	vec        bool
	params     []*Poly
	n          *Poly
}

// EqInfo is what an equality predicate compares.
type EqInfo struct {
	A, B         *Content
	ARows, ACols *Poly
	BRows, BCols *Poly
	Params       []*Poly
}

func (in *Interp) key(what, s string) string {
	full := what + "\x00" + s
	short := in.matID[full]
	if short == "" {
		short = fmt.Sprintf("%d", len(in.matID))
		in.matID[full] = short
	}
	return short
}

// NewMat adds an abstract matrix whose element at (i,j) is base[i,j].
func (in *Interp) NewMat(st *State, base string, sparse bool, vec bool) int {
	rows, cols := S(Int, base+".rows"), S(Int, base+".cols")
	c := &Content{Base: Select(Elem, base, B0, B1)}
	if vec {
		cols = I(1)
	}
	st.F.Add(GeL(rows), GeL(cols))
	l := Lit{Op: No}
	if sparse {
		l = Lit{Op: Yes}
	}
	return in.NewObj(st, &Obj{Kind: Mat, Name: base, Sort: Elem, C: c, Rows: rows, Cols: cols, Sparse: l, Vec: vec, Old: true})
}

func (in *Interp) newMatObj(st *State, name string, rows, cols *Poly, c *Content, sparse Lit, vec bool) Val {
	return Ptr{in.NewObj(st, &Obj{Kind: Mat, Name: name, Sort: Elem, C: c, Rows: rows, Cols: cols, Sparse: sparse, Vec: vec}), ""}
}

// matMethods are the methods replaced by their contract.
var matMethods = map[string]bool{"Rows": true, "Columns": true, "At": true, "Set": true, "Update": true, "ColumnsAt": true, "RowsAt": true,
	"RowsAtToArray": true, "Copy": true, "CopyLogical": true, "Enumerate": true, "Map": true, "Values": true, "Size": true, "Clear": true,
	"Length": true, "AtVec": true, "SetVec": true, "Transpose": true, "Equal": true, "NotEqual": true, "Scalar": true, "Multiply": true,
	"Add": true, "Subtract": true, "Negative": true, "Element": true, "SetReturnPointer": true, "UpdateReturnPointer": true}

// formatCall replaces static calls of methods of the storage formats by their contract.
func (in *Interp) formatCall(st *State, site ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool {
	if fn.Signature.Recv() == nil || len(args) == 0 {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || !in.H.IsFormat(n) {
		return false
	}
	name := fn.Name()
	if !matMethods[name] {
		if name = in.H.Alias(n, fn); !matMethods[name] {
			return false
		}
		// the method itself is being interpreted, so what it delegates to has to be, too
		if g := site.Parent(); g != nil && g.Name() == name {
			return false
		}
	}
	p, ok := unwrap(args[0]).(Ptr)
	if !ok {
		return false
	}
	return in.objectCall(st, site, p, name, args[1:], k)
}

// objectCall calls a method of an object by its contract; it reports false if the method has to be
// interpreted.
func (in *Interp) objectCall(st *State, site ssa.Instruction, p Ptr, name string, args []Val, k cont) bool {
	o := st.Obj(p.Obj)
	if o == nil {
		return false
	}
	if o.Dead {
		in.problem(st, site, "%s is used under the name it had before a loop as well", o.Name)
		return true
	}
	switch o.Kind {
	case Iter:
		in.iterCall(st, site, p.Obj, name, args, k)
		return true
	case Mat:
		if !matMethods[name] || in.Inline[p.Obj] && in.Twins[p.Obj] == nil {
			return false
		}
		in.matCall(st, site, p.Obj, name, args, k)
		return true
	case Cells:
		if t := in.Twins[p.Obj]; t != nil && matMethods[name] && (in.NoTwin == nil || !in.NoTwin(name)) && t.pristine(st, o) {
			if !readOnly[name] {
				m := st.Obj(t.Mat).clone()
				m.Old = o.Old
				st.setObj(p.Obj, m)
				in.matCall(st, site, p.Obj, name, args, k)
				return true
			}
			in.matCall(st, site, t.Mat, name, args, k)
			return true
		}
		if in.Inline[p.Obj] || !matMethods[name] {
			return false
		}
		n := namedOf(o.Type)
		if n == nil || !in.H.IsFormat(n) {
			return false
		}
		in.lift(st, site, p.Obj, n, func(s *State) { in.matCall(s, site, p.Obj, name, args, k) })
		return true
	}
	return false
}

// Twin is the abstract matrix a concrete one was made from, for calls on it that are replaced by their
// contract as long as the concrete one is as it was made.
type Twin struct {
	Mat   int
	cells map[string]Val
	arrs  map[int]*Content
}

// readOnly are the methods whose contract changes nothing and returns nothing that could.
var readOnly = map[string]bool{"Rows": true, "Columns": true, "At": true, "ColumnsAt": true, "RowsAt": true, "RowsAtToArray": true, "Copy": true,
	"CopyLogical": true, "Enumerate": true, "Values": true, "Size": true, "Length": true, "AtVec": true, "Element": true}

// SetTwin makes the abstract matrix stand for the concrete one.
func (in *Interp) SetTwin(st *State, id, mat int) {
	t := &Twin{Mat: mat, cells: map[string]Val{}, arrs: map[int]*Content{}}
	for p, v := range st.Obj(id).Cells {
		t.cells[p] = v
		if s, ok := v.(Slice); ok && s.Arr >= 0 {
			t.arrs[s.Arr] = st.Obj(s.Arr).C
		}
	}
	if in.Twins == nil {
		in.Twins = map[int]*Twin{}
	}
	in.Twins[id] = t
	in.Inline[id] = true
}

func (t *Twin) pristine(st *State, o *Obj) bool {
	if len(o.Cells) != len(t.cells) {
		return false
	}
	for p, v := range t.cells {
		if _, unknown := v.(Unknown); !unknown && !sameVal(o.Cells[p], v) {
			return false
		}
	}
	for a, c := range t.arrs {
		if !sameContent(st.Obj(a).C, c) {
			return false
		}
	}
	return true
}

// lift turns a concrete matrix into an abstract one, by interpreting its accessors.
func (in *Interp) lift(st *State, site ssa.Instruction, id int, n *types.Named, k func(*State)) {
	in.Inline[id] = true
	defer func() { delete(in.Inline, id) }()
	dim := func(s *State, name string) (*Poly, bool) {
		fn, path := in.H.Method(n, name)
		if fn == nil {
			return nil, false
		}
		p := Ptr{id, ""}
		for _, f := range path {
			p.Path = fieldPath(p.Path, f)
		}
		rs := in.Run(s.Clone(), fn, []Val{p}, nil)
		if len(rs) != 1 {
			return nil, false
		}
		v, ok := rs[0].Vals[0].(Num)
		return v.P, ok
	}
	rows, ok1 := dim(st, "Rows")
	cols, ok2 := dim(st, "Columns")
	if !ok1 || !ok2 {
		in.problem(st, site, "the dimensions of a new %s are not known", n.Obj().Name())
		return
	}
	if why := in.H.IllFormed(in, st, id, n, rows, cols); why != "" {
		in.problem(st, site, "a new %s is handed on although %s", n.Obj().Name(), why)
		return
	}
	c, why := in.AtContent(st, id, n, rows, cols)
	if c == nil {
		in.problem(st, site, "the elements of a new %s are not known: %s", n.Obj().Name(), why)
		return
	}
	o := st.Obj(id)
	vec, _ := in.H.Method(n, "AtVec")
	sp := Lit{Op: No}
	if in.H.Sparse(n) {
		sp = Lit{Op: Yes}
	}
	st.setObj(id, &Obj{Kind: Mat, Name: o.Name, Type: o.Type, Sort: Elem, C: c, Rows: rows, Cols: cols, Sparse: sp, Vec: vec != nil, Fmt: n, Local: o.Local})
	delete(in.Inline, id)
	k(st)
}

// AtContent is the content of a concrete matrix as its At method reports it.
func (in *Interp) AtContent(st *State, id int, n *types.Named, rows, cols *Poly) (*Content, string) {
	fn, path := in.H.Method(n, "At")
	if fn == nil {
		return nil, "no At"
	}
	p := Ptr{id, ""}
	for _, f := range path {
		p.Path = fieldPath(p.Path, f)
	}
	was := in.Inline[id]
	in.Inline[id] = true
	defer func() {
		if !was {
			delete(in.Inline, id)
		}
	}()
	s := st.Clone()
	s.F.Add(GeL(B0), Lt(B0, rows), GeL(B1), Lt(B1, cols))
	s.Params = append(s.Params[:len(s.Params):len(s.Params)], B0, B1)
	n0 := len(s.Path)
	np := len(in.Panics)
	nm := len(in.muted)
	nq := len(in.Problems)
	rs := in.Run(s, fn, []Val{p, Num{B0}, Num{B1}}, nil)
	if len(in.Panics) > np {
		why := in.Panics[np].Why + " at " + in.Panics[np].Pos
		in.Panics = in.Panics[:np]
		return nil, "At panics: " + why
	}
	if in.mute > 0 && len(in.muted) > nm {
		return nil, in.muted[nm]
	}
	if len(in.Problems) > nq {
		why := in.Problems[nq].Why
		return nil, why
	}
	var c *Content
	for i := len(rs) - 1; i >= 0; i-- {
		r := rs[i]
		if r.St.F.Inconsistent() {
			continue
		}
		v, ok := r.Vals[0].(Num)
		if !ok {
			return nil, "At returns no number"
		}
		if c == nil {
			c = &Content{Base: v.P}
			continue
		}
		c = c.with(Layer{append([]Lit{}, r.St.Path[n0:]...), v.P})
	}
	if c == nil {
		c = &Content{Base: C(Elem, 0)}
	}
	return c, ""
}

func num(v Val) *Poly {
	if n, ok := v.(Num); ok {
		return n.P
	}
	return nil
}

func (in *Interp) inRange(st *State, site ssa.Instruction, what string, ls []Lit, k func(*State)) {
	in.decideAll(st, ls, k, func(s *State) { in.panic_(s, site, true, "%s out of range", what) })
}

func (in *Interp) matCall(st *State, site ssa.Instruction, id int, name string, args []Val, k cont) {
	switch name {
	case "Rows", "Columns", "Size", "Length", "Enumerate", "Map":
	default:
		in.touch(st, site, name)
	}
	o := st.Obj(id)
	ret := func(s *State, v ...Val) { k(s, v) }
	coords := func(kk func(s *State, r, c *Poly)) {
		r, c := num(args[0]), num(args[1])
		if r == nil || c == nil {
			in.problem(st, site, "%s at unknown coordinates", name)
			return
		}
		in.inRange(st, site, fmt.Sprintf("%s(%s, %s) of %s", name, r, c, o.Name), []Lit{GeL(r), Lt(r, o.Rows), GeL(c), Lt(c, o.Cols)}, func(s *State) { kk(s, r, c) })
	}
	other := func() (*Obj, int) {
		switch p := unwrap(args[0]).(type) {
		case Ptr:
			q := st.Obj(p.Obj)
			if q != nil && q.Kind == Mat {
				return q, p.Obj
			}
		}
		return nil, 0
	}
	switch name {
	case "Rows", "Length":
		ret(st, Num{o.Rows})
	case "Columns":
		ret(st, Num{o.Cols})
	case "Size":
		ret(st, Num{o.Rows.Mul(o.Cols)})
	case "Values":
		ret(st, Num{in.count(st, o)})
	case "At":
		coords(func(s *State, r, c *Poly) {
			in.Read(s, s.Obj(id).C, []*Poly{r, c}, func(s *State, v *Poly) { ret(s, Num{v}) })
		})
	case "Element":
		coords(func(s *State, r, c *Poly) {
			in.Read(s, s.Obj(id).C, []*Poly{r, c}, func(s *State, v *Poly) { ret(s, BoolV{ENeL(v)}) })
		})
	case "AtVec":
		i := num(args[0])
		if i == nil {
			in.problem(st, site, "AtVec at an unknown index")
			return
		}
		in.inRange(st, site, fmt.Sprintf("AtVec(%s) of %s", i, o.Name), []Lit{GeL(i), Lt(i, o.Rows)}, func(s *State) {
			in.Read(s, s.Obj(id).C, []*Poly{i, I(0)}, func(s *State, v *Poly) { ret(s, Num{v}) })
		})
	case "Set", "SetReturnPointer":
		v := num(args[2])
		if v == nil {
			in.problem(st, site, "Set of an unknown value: %v", args[2])
			return
		}
		coords(func(s *State, r, c *Poly) {
			in.setMat(s, site, id, r, c, v)
			if name == "Set" {
				ret(s)
			} else {
				ret(s, Unknown{"pointer"}, Unknown{"start"})
			}
		})
	case "SetVec":
		i, v := num(args[0]), num(args[1])
		if i == nil || v == nil {
			in.problem(st, site, "SetVec of an unknown value")
			return
		}
		in.inRange(st, site, fmt.Sprintf("SetVec(%s) of %s", i, o.Name), []Lit{GeL(i), Lt(i, o.Rows)}, func(s *State) {
			in.setMat(s, site, id, i, I(0), v)
			ret(s)
		})
	case "Update", "UpdateReturnPointer":
		coords(func(s *State, r, c *Poly) {
			in.Read(s, s.Obj(id).C, []*Poly{r, c}, func(s *State, v *Poly) {
				in.CallVal(s, site, args[2], []Val{Num{v}}, func(s *State, vals []Val) {
					w := num(vals[0])
					if w == nil {
						in.problem(s, site, "Update to an unknown value")
						return
					}
					in.setMat(s, site, id, r, c, w)
					if name == "Update" {
						ret(s)
					} else {
						ret(s, Unknown{"pointer"}, Unknown{"start"})
					}
				})
			})
		})
	case "RowsAt":
		r := num(args[0])
		if r == nil {
			in.problem(st, site, "RowsAt of an unknown row")
			return
		}
		in.inRange(st, site, fmt.Sprintf("RowsAt(%s) of %s", r, o.Name), []Lit{GeL(r), Lt(r, o.Rows)}, func(s *State) {
			c := s.Obj(id).C.Subst(Subst{B0a: r, B1a: B0})
			v := in.newMatObj(s, "row of "+o.Name, o.Cols, I(1), c, o.Sparse, true)
			s.Obj(v.(Ptr).Obj).From = &Taken{id, name, r}
			ret(s, v)
		})
	case "ColumnsAt":
		c := num(args[0])
		if c == nil {
			in.problem(st, site, "ColumnsAt of an unknown column")
			return
		}
		in.inRange(st, site, fmt.Sprintf("ColumnsAt(%s) of %s", c, o.Name), []Lit{GeL(c), Lt(c, o.Cols)}, func(s *State) {
			d := s.Obj(id).C.Subst(Subst{B1a: c})
			v := in.newMatObj(s, "column of "+o.Name, o.Rows, I(1), d, o.Sparse, true)
			s.Obj(v.(Ptr).Obj).From = &Taken{id, name, c}
			ret(s, v)
		})
	case "RowsAtToArray":
		r := num(args[0])
		if r == nil {
			in.problem(st, site, "RowsAtToArray of an unknown row")
			return
		}
		in.inRange(st, site, fmt.Sprintf("RowsAtToArray(%s) of %s", r, o.Name), []Lit{GeL(r), Lt(r, o.Rows)}, func(s *State) {
			c := s.Obj(id).C.Subst(Subst{B0a: r, B1a: B0})
			a := in.NewObj(s, &Obj{Kind: Arr, Sort: Elem, C: c, Len: o.Cols})
			ret(s, Slice{Arr: a, Off: I(0), Len: o.Cols, Cap: o.Cols})
		})
	case "Copy", "CopyLogical":
		n := o.clone()
		n.Old, n.Name, n.Cells = false, "copy of "+o.Name, nil
		ret(st, Ptr{in.NewObj(st, n), ""})
	case "Transpose":
		c := o.C.Subst(Subst{B0a: B1, B1a: B0})
		ret(st, in.newMatObj(st, "transpose of "+o.Name, o.Cols, o.Rows, c, o.Sparse, false))
	case "Clear":
		if o.Old && in.OnWrite != nil && in.mute == 0 {
			in.OnWrite(st, site, id)
		}
		n := o.clone()
		n.C = &Content{Base: C(Elem, 0)}
		st.setObj(id, n)
		ret(st)
	case "Enumerate", "Map":
		ret(st, in.newIter(st, id, name == "Map"))
	case "Negative":
		ret(st, in.newMatObj(st, "negative of "+o.Name, o.Rows, o.Cols, o.C.map1((*Poly).Neg), o.Sparse, o.Vec))
	case "Scalar":
		a := num(args[0])
		if a == nil {
			in.problem(st, site, "Scalar by an unknown factor")
			return
		}
		ret(st, in.newMatObj(st, "multiple of "+o.Name, o.Rows, o.Cols, o.C.map1(func(p *Poly) *Poly { return a.Mul(p) }), o.Sparse, o.Vec))
	case "Add", "Subtract":
		q, _ := other()
		if q == nil {
			in.problem(st, site, "%s of %v", name, args[0])
			return
		}
		f := (*Poly).Add
		if name == "Subtract" {
			f = (*Poly).Sub
		}
		in.inRange(st, site, fmt.Sprintf("%s of %s and %s: shape", name, o.Name, q.Name), []Lit{Same(o.Rows, q.Rows), Same(o.Cols, q.Cols)}, func(s *State) {
			ret(s, in.newMatObj(s, "sum", o.Rows, o.Cols, map2(o.C, q.C, f), o.Sparse, o.Vec))
		})
	case "Multiply":
		q, _ := other()
		if q == nil || len(o.C.Layers) > 0 || len(q.C.Layers) > 0 {
			in.problem(st, site, "Multiply of %v", args[0])
			return
		}
		in.inRange(st, site, fmt.Sprintf("Multiply of %s and %s: shape", o.Name, q.Name), []Lit{Same(o.Cols, q.Rows)}, func(s *State) {
			ret(s, in.newMatObj(s, "product", o.Rows, q.Cols, Product(o.C, q.C, o.Cols), Lit{Op: No}, false))
		})
	case "Equal", "NotEqual":
		if _, isNil := unwrap(args[0]).(NilV); isNil {
			l := Lit{Op: No}
			if name == "NotEqual" {
				l = l.Not()
			}
			ret(st, BoolV{l})
			return
		}
		q, _ := other()
		if q == nil {
			in.problem(st, site, "%s of %v", name, args[0])
			return
		}
		l := Truth(in.eqPred(st, o, q))
		if name == "NotEqual" {
			l = l.Not()
		}
		ret(st, BoolV{l})
	default:
		in.problem(st, site, "no contract for %s", name)
	}
}

// Product is the content of a product.
func Product(a, b *Content, n *Poly) *Content {
	return &Content{Base: MkSum(I(0), n, func(t *Poly) *Poly {
		return a.Base.Subst(Subst{B1a: t}).Mul(b.Base.Subst(Subst{B0a: t}))
	})}
}

func (in *Interp) eqPred(st *State, a, b *Obj) *Atom {
	id := in.key("eq", a.C.String()+"|"+a.Rows.String()+"|"+a.Cols.String()+"~"+b.C.String()+"|"+b.Rows.String()+"|"+b.Cols.String()+"|"+fmt.Sprint(st.Params))
	if in.Eqs == nil {
		in.Eqs = map[string]*EqInfo{}
	}
	in.Eqs["equal:"+id] = &EqInfo{a.C, b.C, a.Rows, a.Cols, b.Rows, b.Cols, st.Params}
	return Pred("equal:"+id, st.Params...)
}

func (in *Interp) matKey(st *State, o *Obj) string {
	return in.key("mat", o.C.String()+"|"+o.Rows.String()+"|"+o.Cols.String()+"|"+fmt.Sprint(st.Params))
}

// count is the number of elements an enumeration goes through.
func (in *Interp) count(st *State, o *Obj) *Poly {
	if o.Sparse.Op == Yes {
		n := Apply(Int, "nnz:"+in.matKey(st, o), st.Params...)
		st.F.Add(GeL(n))
		return n
	}
	if o.Sparse.Op == No {
		return o.Rows.Mul(o.Cols)
	}
	n := Apply(Int, "values:"+in.matKey(st, o), st.Params...)
	st.F.Add(GeL(n))
	return n
}

func (in *Interp) setMat(st *State, site ssa.Instruction, id int, r, c, v *Poly) {
	o := st.Obj(id)
	if o.Old && in.OnWrite != nil && in.mute == 0 {
		in.OnWrite(st, site, id)
	}
	if o.Sparse.Op != No {
		for _, i := range sortedIDs(st.heap) {
			it := st.heap[i]
			if it.Kind == Iter && it.Mat == id && !st.F.Entails(Le(it.Count, it.Pos)) {
				in.problem(st, site, "a sparse matrix is modified while it is enumerated")
				return
			}
		}
	}
	n := o.clone()
	n.C = o.C.with(Layer{[]Lit{Same(B0, r), Same(B1, c)}, v})
	n.Cells = nil
	st.setObj(id, n)
}

func (in *Interp) newIter(st *State, id int, isMap bool) Val {
	o := st.Obj(id)
	key := in.matKey(st, o)
	sparse := o.Sparse.Op != No
	if in.iters == nil {
		in.iters = map[string]*iterInfo{}
	}
	key += fmt.Sprint(sparse)
	n := in.count(st, o)
	in.iters[key] = &iterInfo{c: o.C, rows: o.Rows, cols: o.Cols, sparse: sparse, vec: o.Vec, params: st.Params, n: n}
	st.F.Add(GeL(n))
	// where an element is enumerated
	i, j := SA(Int, "qi"), SA(Int, "qj")
	jp := P(j)
	vars := []*Atom{i, j}
	if o.Vec {
		jp = I(0)
		vars = vars[:1]
	}
	ps := st.Params
	idx := Apply(Int, "IDX:"+key, append(append([]*Poly{}, ps...), P(i), jp)...)
	g := []Lit{GeL(P(i)), Lt(P(i), o.Rows), GeL(jp), Lt(jp, o.Cols)}
	known := true
	if sparse {
		at := o.C.Subst(Subst{B0a: P(i), B1a: jp})
		if len(at.Layers) > 0 {
			known = false
		} else {
			g = append(g, ENeL(at.Base))
		}
	}
	if known {
		var gg []Lit
		for _, l := range g {
			if l.Op != Yes {
				gg = append(gg, l)
			}
		}
		st.F.AddQuant(&Quant{Vars: vars, Trig: []*Atom{idx.AsAtom()}, Guard: gg, New: true, Body: Clause{{
			GeL(idx), Lt(idx, n), Same(Apply(Int, "RI:"+key, append(append([]*Poly{}, ps...), idx)...), P(i)),
			Same(Apply(Int, "CI:"+key, append(append([]*Poly{}, ps...), idx)...), jp)}}})
	}
	p := SA(Int, "qp")
	args := append(append([]*Poly{}, ps...), P(p))
	ri := Apply(Int, "RI:"+key, args...)
	st.F.AddQuant(&Quant{Vars: []*Atom{p}, Trig: []*Atom{ri.AsAtom()}, Guard: []Lit{GeL(P(p)), Lt(P(p), n)}, New: true,
		Body: Clause{in.iterFacts(in.iters[key], key, ps, P(p))}})
	return Ptr{in.NewObj(st, &Obj{Kind: Iter, Mat: id, Pos: I(0), Count: n, ItID: key, IsMap: isMap, Snap: o.C, Local: len(ps)}), ""}
}

// iterFacts hold of the element enumerated at position p.
func (in *Interp) iterFacts(it *iterInfo, key string, ps []*Poly, p *Poly) []Lit {
	args := append(append([]*Poly{}, ps...), p)
	r := Apply(Int, "RI:"+key, args...)
	c := Apply(Int, "CI:"+key, args...)
	out := []Lit{GeL(r), Lt(r, it.rows)}
	if it.vec {
		out = append(out, EqL(c))
		c = I(0)
	} else {
		out = append(out, GeL(c), Lt(c, it.cols))
	}
	out = append(out, Same(Apply(Int, "IDX:"+key, append(append([]*Poly{}, ps...), r, c)...), p))
	if it.sparse && len(it.c.Layers) == 0 {
		out = append(out, ENeL(it.c.Subst(Subst{B0a: r, B1a: c}).Base))
	}
	return out
}

func (in *Interp) iterCall(st *State, site ssa.Instruction, id int, name string, args []Val, k cont) {
	o := st.Obj(id)
	if name == "HasNext" {
		k(st, []Val{BoolV{Lt(o.Pos, o.Count)}})
		return
	}
	in.touch(st, site, name)
	if name != "Next" && name != "Map" {
		in.problem(st, site, "no contract for %s of an iterator", name)
		return
	}
	in.Decide(st, Lt(o.Pos, o.Count), func(s *State) {
		it := in.iters[o.ItID]
		ps := append([]*Poly{}, it.params...)
		// the iterator was made with the first parameters of now
		fs := in.iterFacts(it, o.ItID, ps, o.Pos)
		s.F.Add(fs...)
		a := append(append([]*Poly{}, ps...), o.Pos)
		r := Apply(Int, "RI:"+o.ItID, a...)
		c := Apply(Int, "CI:"+o.ItID, a...)
		if it.vec {
			c = I(0)
		}
		m := s.Obj(o.Mat)
		n := o.clone()
		n.Pos = o.Pos.AddC(1)
		s.setObj(id, n)
		if !o.IsMap && it.sparse && !sameContent(m.C, it.c) {
			in.problem(s, site, "a sparse matrix is enumerated after it was modified")
			return
		}
		in.Read(s, m.C, []*Poly{r, c}, func(s *State, v *Poly) {
			if name == "Next" {
				if in.OnNext != nil {
					in.OnNext(s, site, id, r, c, v, func(s *State) { k(s, []Val{Num{r}, Num{c}, Num{v}}) })
					return
				}
				k(s, []Val{Num{r}, Num{c}, Num{v}})
				return
			}
			in.CallVal(s, site, args[0], []Val{Num{r}, Num{c}, Num{v}}, func(s *State, vals []Val) {
				if len(vals) != 1 || num(vals[0]) == nil {
					in.problem(s, site, "map to an unknown value")
					return
				}
				w := num(vals[0])
				m := s.Obj(o.Mat)
				if m.Old && in.OnWrite != nil && in.mute == 0 {
					in.OnWrite(s, site, o.Mat)
				}
				x := m.clone()
				x.C = m.C.with(Layer{[]Lit{Same(B0, r), Same(B1, c)}, w})
				x.Cells = nil
				s.setObj(o.Mat, x)
				k(s, nil)
			})
		})
	}, func(s *State) { in.panic_(s, site, true, "%s after the last element", name) })
}

// ---------------------------------------------------------------- builtins and the standard library

func (in *Interp) builtin(st *State, fr *frame, site ssa.Instruction, name string, c *ssa.CallCommon, args []Val, k cont) {
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case Slice:
			if name == "len" {
				k(st, []Val{Num{s.Len}})
			} else {
				k(st, []Val{Num{s.Cap}})
			}
			return
		case NilV:
			k(st, []Val{Num{I(0)}})
			return
		}
	case "append":
		a, ok := args[0].(Slice)
		b, ok2 := args[1].(Slice)
		if ok && ok2 {
			t := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			k(st, []Val{in.appendTo(st, a, b, t)})
			return
		}
	case "copy":
		a, ok := args[0].(Slice)
		b, ok2 := args[1].(Slice)
		if ok && ok2 {
			in.copyTo(st, a, b, func(s *State, v Val) { k(s, []Val{v}) })
			return
		}
	case "clear":
		if s, ok := args[0].(Slice); ok {
			if s.Arr < 0 || s.Len.Zero() {
				k(st, nil)
				return
			}
			r := in.resolve(st, s)
			o := st.Obj(r.Arr)
			if o.Old && in.OnWrite != nil && in.mute == 0 {
				in.OnWrite(st, in.curInstr, r.Arr)
			}
			in.clobberMaybe(st, o)
			o = o.clone()
			if o.Kind == Arr2 && r.Row != nil {
				o.C = o.C.with(Layer{[]Lit{Same(B0, r.Row), Le(r.Off, B1), Lt(B1, r.Off.Add(r.Len))}, C(o.Sort, 0)})
			} else if o.Kind == Arr {
				o.C = o.C.with(Layer{[]Lit{Le(r.Off, B0), Lt(B0, r.Off.Add(r.Len))}, C(o.Sort, 0)})
			} else {
				break
			}
			st.setObj(r.Arr, o)
			k(st, nil)
			return
		}
	case "min", "max":
		if len(args) == 2 {
			a, b := num(args[0]), num(args[1])
			if a != nil && b != nil {
				l := Le(a, b)
				if a.Sort == Elem {
					l = EGtL(a.Sub(b)).Not()
				}
				if name == "max" {
					a, b = b, a
				}
				in.Decide(st, l, func(s *State) { k(s, []Val{Num{a}}) }, func(s *State) { k(s, []Val{Num{b}}) })
				return
			}
		}
	case "close":
		c, ok := args[0].(Ptr)
		if !ok {
			break
		}
		if in.OnClose != nil && in.OnClose(st, site, c.Obj, func(s *State) { k(s, nil) }) {
			return
		}
		o := st.Obj(c.Obj).clone()
		if o.Closed {
			in.panic_(st, site, false, "close of a closed channel")
			return
		}
		o.Closed = true
		st.setObj(c.Obj, o)
		k(st, nil)
		return
	case "print", "println":
		k(st, nil)
		return
	}
	in.problem(st, site, "builtin %s of %v", name, args)
}

// builtinModel interprets functions of the standard library, and the few of the repository that
// other checks decide.
func (in *Interp) builtinModel(st *State, site ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool {
	g := in.H.Body(fn)
	if g.Pkg == nil {
		return false
	}
	path, name := g.Pkg.Pkg.Path(), g.Name()
	if in.H.InScope(g) {
		if name == "IsSparseMatrix" && len(args) == 1 && !in.NoContracts {
			switch v := unwrap(args[0]).(type) {
			case Ptr:
				o := st.Obj(v.Obj)
				if o == nil {
					return false
				}
				switch o.Kind {
				case Mat:
					k(st, []Val{BoolV{o.Sparse}})
					return true
				case Cells:
					if n := namedOf(o.Type); n != nil && in.H.IsFormat(n) {
						l := Lit{Op: No}
						if in.H.Sparse(n) {
							l = Lit{Op: Yes}
						}
						k(st, []Val{BoolV{l}})
						return true
					}
				}
			}
		}
		return false
	}
	switch path {
	case "context":
		switch name {
		case "Background", "TODO":
			k(st, []Val{CtxV{Bg: true}})
			return true
		}
	case "sync":
		if len(args) == 0 {
			return false
		}
		p, ok := args[0].(Ptr)
		if g.Signature.Recv() == nil || g.Signature.Recv().Type().String() != "*sync.WaitGroup" || !ok || p.Path != "" {
			return false
		}
		n := int64(0)
		if name == "Add" {
			v, _ := args[1].(Num)
			if v.P == nil {
				return false
			}
			if n, ok = v.P.IsConst(); !ok {
				return false
			}
		} else if name != "Done" && name != "Wait" {
			return false
		}
		if why := st.waitGroup(p.Obj, name, n); why != "" {
			in.problem(st, site, "%s", why)
		}
		k(st, nil)
		return true
	case "slices":
		return in.slicesModel(st, site, name, args, k)
	case "sort":
		if name == "SearchInts" && len(args) == 2 {
			return in.searchInts(st, site, args, false, k)
		}
		if name == "Search" && len(args) == 2 {
			return in.searchFunc(st, site, args, k)
		}
	case "strings":
		return in.stringsModel(st, site, fn, args, k)
	}
	return false
}

func (in *Interp) slicesModel(st *State, site ssa.Instruction, name string, args []Val, k cont) bool {
	sl := func(i int) (Slice, bool) {
		if i >= len(args) {
			return Slice{}, false
		}
		s, ok := args[i].(Slice)
		return s, ok
	}
	a, ok := sl(0)
	if !ok {
		return false
	}
	elem := func() types.Type {
		if a.Arr >= 0 {
			return st.Obj(in.resolve(st, a).Arr).Type
		}
		return types.Typ[types.Int]
	}
	switch name {
	case "Clone":
		if a.Arr < 0 {
			k(st, []Val{a})
			return true
		}
		src := st.Obj(in.resolve(st, a).Arr)
		o := &Obj{Kind: Arr, Sort: src.Sort, Type: src.Type, C: in.SliceContent(st, a), Len: a.Len}
		k(st, []Val{Slice{Arr: in.NewObj(st, o), Off: I(0), Len: a.Len, Cap: a.Len}})
		return true
	case "Insert":
		i, ok1 := args[1].(Num)
		v, ok2 := args[2].(Slice)
		if !ok1 || !ok2 {
			return false
		}
		in.decideAll(st, []Lit{GeL(i.P), Le(i.P, a.Len)}, func(s *State) {
			head := Slice{a.Arr, a.Row, a.Off, i.P, i.P}
			tail := Slice{a.Arr, a.Row, a.Off.Add(i.P), a.Len.Sub(i.P), a.Len.Sub(i.P)}
			mid := in.appendTo(s, head, v, elem())
			mid.Cap = mid.Len
			out := in.appendTo(s, mid, tail, elem())
			in.forget(s, a)
			k(s, []Val{out})
		}, func(s *State) { in.panic_(s, site, false, "slices.Insert out of range") })
		return true
	case "Delete":
		i, ok1 := args[1].(Num)
		j, ok2 := args[2].(Num)
		if !ok1 || !ok2 {
			return false
		}
		in.decideAll(st, []Lit{GeL(i.P), Le(i.P, j.P), Le(j.P, a.Len)}, func(s *State) {
			head := Slice{a.Arr, a.Row, a.Off, i.P, i.P}
			tail := Slice{a.Arr, a.Row, a.Off.Add(j.P), a.Len.Sub(j.P), a.Len.Sub(j.P)}
			out := in.appendTo(s, head, tail, elem())
			in.forget(s, a)
			k(s, []Val{out})
		}, func(s *State) { in.panic_(s, site, false, "slices.Delete out of range") })
		return true
	case "BinarySearch":
		return in.searchInts(st, site, args, true, k)
	}
	return false
}

// forget makes the content of an array unknown, after something that may have moved it in place.
func (in *Interp) forget(st *State, s Slice) {
	s = in.resolve(st, s)
	if s.Arr < 0 {
		return
	}
	o := st.Obj(s.Arr)
	if o.Old && in.OnWrite != nil && in.mute == 0 {
		in.OnWrite(st, in.curInstr, s.Arr)
	}
	if o.Kind != Arr {
		return
	}
	o = o.clone()
	o.C = &Content{Base: Apply(o.Sort, in.freshName(st, "forgot", in.curInstr), append(append([]*Poly{}, st.Params...), B0)...)}
	st.setObj(s.Arr, o)
}

// searchInts is the position where a value is or would be inserted in an increasing slice.
func (in *Interp) searchInts(st *State, site ssa.Instruction, args []Val, found bool, k cont) bool {
	a, ok := args[0].(Slice)
	x, ok2 := args[1].(Num)
	if !ok || !ok2 || x.P.Sort != Int {
		return false
	}
	if a.Arr < 0 {
		k(st, []Val{Num{I(0)}})
		return true
	}
	c := in.SliceContent(st, a)
	p := in.FreshNum(st, "search", Int)
	st.F.Add(GeL(p), Le(p, a.Len))
	finish := func(s *State) {
		if !found {
			k(s, []Val{Num{p}})
			return
		}
		in.Decide(s, Lt(p, a.Len), func(s *State) {
			in.Read(s, c, []*Poly{p}, func(s *State, v *Poly) { k(s, []Val{Num{p}, BoolV{Same(v, x.P)}}) })
		}, func(s *State) { k(s, []Val{Num{p}, BoolV{Lit{Op: No}}}) })
	}
	before := func(s *State, kk func(*State)) {
		in.Decide(s, GeL(p.AddC(-1)), func(s *State) {
			in.Read(s, c, []*Poly{p.AddC(-1)}, func(s *State, v *Poly) { s.F.Add(Lt(v, x.P)); kk(s) })
		}, kk)
	}
	in.Decide(st, Lt(p, a.Len), func(s *State) {
		in.Read(s, c, []*Poly{p}, func(s *State, v *Poly) {
			s.F.Add(Le(x.P, v))
			before(s, finish)
		})
	}, func(s *State) { before(s, finish) })
	return true
}

func (in *Interp) searchFunc(st *State, site ssa.Instruction, args []Val, k cont) bool {
	n, ok := args[0].(Num)
	if !ok {
		return false
	}
	p := in.FreshNum(st, "search", Int)
	st.F.Add(GeL(p), Le(p, n.P))
	test := func(s *State, at *Poly, want bool, kk func(*State)) {
		in.CallVal(s, site, args[1], []Val{Num{at}}, func(s *State, vals []Val) {
			b, ok := vals[0].(BoolV)
			if !ok {
				in.problem(s, site, "the condition of a search")
				return
			}
			l := b.L
			if !want {
				l = l.Not()
			}
			if s.F.Contradicts(l) {
				return
			}
			s.F.Add(l)
			kk(s)
		})
	}
	before := func(s *State) {
		in.Decide(s, GeL(p.AddC(-1)), func(s *State) { test(s, p.AddC(-1), false, func(s *State) { k(s, []Val{Num{p}}) }) },
			func(s *State) { k(s, []Val{Num{p}}) })
	}
	in.Decide(st, Lt(p, n.P), func(s *State) { test(s, p, true, before) }, before)
	return true
}

// materialise gives an abstract matrix of a known format a representation.
func (in *Interp) materialise(st *State, id int, k func(*State)) {
	o := st.Obj(id)
	if o.Cells == nil && in.Rep != nil {
		if in.Rep(in, st, id) {
			k(st)
			return
		}
	}
	in.problem(st, nil, "the representation of %s is not known", o.Name)
}

// MatrixOf is the matrix a value points to; one that has been built cell by cell is described by its
// elements first.
func (in *Interp) MatrixOf(st *State, v Val) (id int, ok bool) {
	p, isPtr := unwrap(v).(Ptr)
	if !isPtr {
		return 0, false
	}
	o := st.Obj(p.Obj)
	if o != nil && o.Kind == Cells {
		n := namedOf(o.Type)
		if n == nil || !in.H.IsFormat(n) {
			return 0, false
		}
		in.lift(st, nil, p.Obj, n, func(*State) { ok = true })
		return p.Obj, ok
	}
	return p.Obj, o != nil && o.Kind == Mat && !o.Dead
}

var _ = strings.HasPrefix

// After makes an interpreter continue with states of another.
func (in *Interp) After(other *Interp) {
	in.nobj, in.nframe = other.nobj+1000, other.nframe+1000
	in.matID, in.iters, in.Eqs, in.Twins, in.Rep = other.matID, other.iters, other.Eqs, other.Twins, other.Rep
	in.OrdElems = other.OrdElems
}

// Fail ends a path in a panic.
func (in *Interp) Fail(st *State, site ssa.Instruction, why string) {
	in.panic_(st, site, true, "%s", why)
}

// Trying is whether a loop is gone through to find out what holds in it: what goes wrong then
// need not go wrong once that is known.
func (in *Interp) Trying() bool { return in.mute > 0 }
