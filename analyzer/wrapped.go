package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// wrappedWorld is a matrix of which only the interface is known: what is done to it is noted in
// order, and what it answers is a symbol named by the call and by how much was done before.
type wrappedWorld struct {
	in    *interp.Interp
	types map[string]types.Type // the interfaces of the opaque values
}

func (w *wrappedWorld) did(st *interp.State) []string {
	if v, ok := st.Tags["did"].(interp.StrV); ok && v.S != "" {
		return strings.Split(v.S, "\n")
	}
	return nil
}

func (w *wrappedWorld) do(st *interp.State, what string) {
	st.Tags["did"] = interp.StrV{S: strings.Join(append(w.did(st), what), "\n")}
}

func (w *wrappedWorld) version(st *interp.State, name string) int {
	n := 0
	for _, d := range w.did(st) {
		if strings.HasPrefix(d, name+" ") {
			n++
		}
	}
	return n
}

// callName is the name of a call at a time.
func callName(obj, method string, version int, args []interp.Val) (string, []*Poly) {
	s := fmt.Sprintf("%s#%d.%s", obj, version, method)
	var ps []*Poly
	for _, a := range args {
		if n, ok := a.(interp.Num); ok {
			ps = append(ps, n.P)
			s += ",_"
			continue
		}
		s += "," + show(a)
	}
	return s, ps
}

// show names a value.
func show(v interp.Val) string {
	switch v := v.(type) {
	case interp.Num:
		return v.P.String()
	case interp.Opaque:
		return v.Name
	case interp.FuncSym:
		return v.Name
	}
	return fmt.Sprintf("%v", v)
}

// answer is what a call returns: numbers and truths as terms, all else opaque.
func (w *wrappedWorld) answer(name string, ps []*Poly, res *types.Tuple) []interp.Val {
	var out []interp.Val
	for i := 0; i < res.Len(); i++ {
		t, nm := res.At(i).Type(), fmt.Sprintf("%s:%d", name, i)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			out = append(out, interp.BoolV{L: Truth(Pred(nm, ps...))})
			continue
		}
		if _, ok := types.Unalias(t).(*types.TypeParam); ok || interp.IsNumType(t) {
			out = append(out, interp.Num{P: Apply(interp.SortOf(t), nm, ps...)})
			continue
		}
		for _, p := range ps {
			nm += "," + p.String()
		}
		w.types[nm] = t
		out = append(out, interp.Opaque{Name: nm})
	}
	return out
}

func (w *wrappedWorld) call(st *interp.State, o interp.Opaque, method string, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
	t := w.types[o.Name]
	if t == nil {
		return false
	}
	results, ok := resultsOf(t, method)
	if !ok {
		return false
	}
	version := w.version(st, o.Name)
	name, ps := callName(o.Name, method, version, args)
	switch method {
	case "Rows", "Columns":
		name = o.Name + "." + method
	case "Size":
		dim := func(m string) *Poly { return w.answer(o.Name+"."+m, nil, results)[0].(interp.Num).P }
		k(st, []interp.Val{interp.Num{P: dim("Rows").Mul(dim("Columns"))}})
		return true
	case "Element":
		if res, ok := resultsOf(t, "At"); ok {
			name, ps = callName(o.Name, "At", version, args)
			k(st, []interp.Val{interp.BoolV{L: ENeL(w.answer(name, ps, res)[0].(interp.Num).P)}})
			return true
		}
	case "NotEqual":
		name, ps = callName(o.Name, "Equal", version, args)
		b := w.answer(name, ps, results)[0].(interp.BoolV)
		k(st, []interp.Val{interp.BoolV{L: b.L.Not()}})
		return true
	case "Set":
		w.do(st, o.Name+" Set "+show(args[0])+" "+show(args[1])+" "+show(args[2]))
		k(st, nil)
		return true
	case "Update":
		if len(args) != 3 {
			return false
		}
		at, aps := callName(o.Name, "At", version, args[:2])
		res, ok := resultsOf(t, "At")
		if !ok {
			return false
		}
		w.in.CallVal(st, nil, args[2], w.answer(at, aps, res), func(s *interp.State, vals []interp.Val) {
			w.do(s, o.Name+" Set "+show(args[0])+" "+show(args[1])+" "+show(vals[0]))
			k(s, nil)
		})
		return true
	case "Clear", "Map", "Next":
		if method != "Map" || len(args) == 1 {
			s := o.Name + " " + method
			for _, a := range args {
				s += " " + show(a)
			}
			w.do(st, s)
		}
	}
	k(st, w.answer(name, ps, results))
	return true
}

// resultsOf are the results of a method of an interface, none where there is no such method.
func resultsOf(t types.Type, method string) (res *types.Tuple, found bool) {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == method {
			return ms.At(i).Type().(*types.Signature).Results(), true
		}
	}
	return nil, false
}

// checkWrapped decides C32.
func checkWrapped(r *Report) {
	p := r.Prog
	h := newHost(r, p)
	mm, newMM := p.named("", "MutexMatrix"), p.fn("", "NewMutexMatrix")
	if mm == nil || newMM == nil || newMM.Signature.Params().Len() != 1 {
		r.Undecided("anchor", "MutexMatrix, NewMutexMatrix", "", "no such type or function")
		return
	}
	wt := newMM.Signature.Params().At(0).Type()
	const W = "w"
	setup := func() (*wrappedWorld, *interp.State, interp.Val, string) {
		w := &wrappedWorld{in: interp.New(h), types: map[string]types.Type{W: wt}}
		in := w.in

		in.OnOpaque = func(in *interp.Interp, st *interp.State, o interp.Opaque, method string, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
			return w.call(st, o, method, args, k)
		}
		in.Model = func(in *interp.Interp, st *interp.State, site ssa.Instruction, fn *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
			s := fn.String()
			if !strings.HasPrefix(s, "(*sync.RWMutex).") && !strings.HasPrefix(s, "(*sync.Mutex).") {
				return false
			}
			switch strings.TrimSuffix(fn.Name(), "$bound") {
			case "Lock", "Unlock", "RLock", "RUnlock":
				k(st, nil) // C04 decides how the locks are used
				return true
			}
			return false
		}
		in.OnCall = func(st *interp.State, site ssa.Instruction, f interp.FuncSym, args []interp.Val) {
			s := f.Name
			for _, a := range args {
				s += " " + show(a)
			}
			w.do(st, s)
		}
		st := in.NewState()
		rs := in.Run(st, newMM, []interp.Val{interp.Opaque{Name: W}}, nil)
		if len(rs) != 1 || len(rs[0].Vals) != 1 || len(in.Problems) > 0 || len(in.Panics) > 0 {
			return nil, nil, nil, "what NewMutexMatrix returns is not known: " + problems(in)
		}
		if d := w.did(rs[0].St); len(d) > 0 {
			return nil, nil, nil, "NewMutexMatrix changes the matrix: " + strings.Join(d, ", ")
		}
		return w, rs[0].St, rs[0].Vals[0], ""
	}
	src := []string{W + "#0.Enumerate:0", W + "#0.Copy:0#0.Enumerate:0"}

	ms := types.NewMethodSet(types.NewPointer(mm))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if len(sel.Index()) > 1 || !sel.Obj().Exported() {
			continue // the methods of the lock
		}
		name := "MutexMatrix." + sel.Obj().Name()
		fn := p.SSA.FuncValue(sel.Obj().(*types.Func).Origin())
		if fn == nil || fn.Blocks == nil {
			r.Undecided("anchor", name, "", "no body")
			continue
		}
		n++
		r.Job("does what the matrix does", name, func(r *Report) {
			pos := p.pos(fn.Pos())
			w, st, recv, why := setup()
			if why != "" {
				r.Undecided("does what the matrix does", name, pos, "%s", why)
				return
			}
			in := w.in
			args := []interp.Val{recv}
			params := fn.Signature.Params()
			for j := 0; j < params.Len(); j++ {
				t, nm := params.At(j).Type(), fmt.Sprintf("a%d", j)
				_, tp := types.Unalias(t).(*types.TypeParam)
				_, isF := t.Underlying().(*types.Signature)
				switch {
				case tp || interp.IsNumType(t):
					args = append(args, interp.Num{P: S(interp.SortOf(t), nm)})
				case isF:
					args = append(args, interp.FuncSym{Name: nm, Sort: Elem})
				default:
					w.types[nm] = t
					args = append(args, interp.Opaque{Name: nm})
				}
			}
			// what the wrapped matrix itself would do
			type outcome struct {
				st   *interp.State
				vals []interp.Val
			}
			var want []outcome
			spec := in.NewState()
			in.OnOpaque(in, spec, interp.Opaque{Name: W}, fn.Name(), args[1:], func(s *interp.State, vals []interp.Val) {
				want = append(want, outcome{s, vals})
			})
			if len(want) != 1 {
				r.Undecided("does what the matrix does", name, pos, "the matrix has no such method")
				return
			}
			var bad []string
			got := 0
			for _, ret := range in.Run(st, fn, args, nil) {
				if ret.St.F.Inconsistent() {
					continue
				}
				got++
				if fn.Name() == "Enumerate" || fn.Name() == "Map" {
					bad = append(bad, w.iterator(ret.St, ret.Vals, fn.Name(), src)...)
					continue
				}
				if a, b := strings.Join(w.did(ret.St), "; "), strings.Join(w.did(want[0].st), "; "); a != b {
					bad = append(bad, fmt.Sprintf("does {%s} to the matrix, which itself would do {%s}", a, b))
				}
				if len(ret.Vals) != len(want[0].vals) {
					bad = append(bad, "returns another number of values")
					continue
				}
				for j, v := range ret.Vals {
					if s := sameAnswer(in, ret.St, v, want[0].vals[j]); s != "" {
						bad = append(bad, s)
					}
				}
			}
			if len(in.Problems) > 0 {
				r.Undecided("does what the matrix does", name, pos, "%s", problems(in))
				return
			}
			for _, x := range in.Panics {
				bad = append(bad, "panics: "+x.Why)
			}
			if got == 0 {
				bad = append(bad, "never returns")
			}
			r.Count("paths_examined", got)
			verdict(r, "does what the matrix does", name, pos, bad, "same calls, same arguments, same results on every path")
		})
	}
	r.Count("methods", n)
}

// sameAnswer says how a value differs from another.
func sameAnswer(in *interp.Interp, st *interp.State, v, want interp.Val) string {
	if a, ok := v.(interp.BoolV); ok {
		if b, ok := want.(interp.BoolV); ok {
			why := ""
			in.Decide(st, a.L, func(s *interp.State) {
				if !s.F.Entails(b.L) {
					why = fmt.Sprintf("may be true although the answer of the matrix, %v, is not", b.L)
				}
			}, func(s *interp.State) {
				if !s.F.Entails(b.L.Not()) {
					why = fmt.Sprintf("may be false although the answer of the matrix, %v, is not", b.L)
				}
			})
			return why
		}
	}
	if a, b := show(v), show(want); a != b {
		return fmt.Sprintf("returns %s, the matrix returns %s", a, b)
	}
	return ""
}

// iterator says how what Enumerate or Map returns differs from what the matrix would return.
func (w *wrappedWorld) iterator(st *interp.State, vals []interp.Val, kind string, src []string) (bad []string) {
	in := w.in
	if len(vals) != 1 {
		return []string{"returns another number of values"}
	}
	if d := w.did(st); len(d) > 0 {
		bad = append(bad, "changes something: "+strings.Join(d, ", "))
	}
	if o, ok := vals[0].(interp.Opaque); ok {
		if kind == "Map" && o.Name == "w#0.Map:0" {
			return
		}
		for _, s := range src {
			if kind == "Enumerate" && o.Name == s {
				return
			}
		}
		return append(bad, "returns "+o.Name)
	}
	// an iterator of its own: what it does is what the iterator of the matrix does
	from := ""
	count := 0
	in.Invoke(st.Clone(), nil, vals[0], "HasNext", nil, func(s *interp.State, got []interp.Val) {
		if s.F.Inconsistent() || len(got) != 1 {
			return
		}
		count++
		match := false
		for _, x := range src {
			want := interp.BoolV{L: Truth(Pred(x + "#0.HasNext:0"))}
			if sameAnswer(in, s, got[0], want) == "" {
				match, from = true, x
			}
		}
		if !match || len(w.did(s)) > 0 {
			bad = append(bad, fmt.Sprintf("HasNext of the iterator is %v", got[0]))
		}
	})
	if count == 0 || from == "" {
		return append(bad, "what HasNext of the iterator answers is not known")
	}
	next := func(i int, sort Sort) *Poly { return Apply(sort, fmt.Sprintf("%s#0.Next:%d", from, i)) }
	row, col, val := next(0, Int), next(1, Int), next(2, Elem)
	var args []interp.Val
	want := []string{from + " Next"}
	method := "Next"
	if kind == "Map" {
		method = "Map"
		args = []interp.Val{interp.FuncSym{Name: "f", Sort: Elem}}
		at := Apply(Elem, "w#0.At,_,_:0", row, col)
		want = append(want, "f "+row.String()+" "+col.String()+" "+at.String(),
			"w Set "+row.String()+" "+col.String()+" "+Apply(Elem, "f", row, col, at).String())
	}
	count = 0
	in.Invoke(st.Clone(), nil, vals[0], method, args, func(s *interp.State, got []interp.Val) {
		if s.F.Inconsistent() {
			return
		}
		count++
		if a, b := strings.Join(w.did(s), "; "), strings.Join(want, "; "); a != b {
			bad = append(bad, fmt.Sprintf("%s of the iterator does {%s}, not {%s}", method, a, b))
		}
		if kind == "Enumerate" && (len(got) != 3 || show(got[0]) != row.String() || show(got[1]) != col.String() || show(got[2]) != val.String()) {
			bad = append(bad, fmt.Sprintf("Next of the iterator returns %v", got))
		}
	})
	if count == 0 {
		bad = append(bad, method+" of the iterator never returns")
	}
	return bad
}

func init() {
	register(&Check{ID: "C32", Level: "proof", MinObs: 20,
		Rules: "Abstract interpretation of every exported method of MutexMatrix over a wrapped matrix of which only the interface is known. Calls of the wrapped matrix that change it are noted in order, and what it answers is a symbol named by the method, the arguments and the changes made before; locks have no effect on values (C04 decides them). On every path the changes and the results must be those of the same method of the wrapped matrix with the same arguments in the same order. Enumerate must visit what Enumerate of the matrix, or of a copy of it, visits; a step of Map must take one position of such an enumeration, call the function once with the position and the value there, and set the result there.",
		Run:   checkWrapped})
}
