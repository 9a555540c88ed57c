package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
)

// Ext is a value of a check, which says what its methods return.
type Ext interface {
	Call(in *Interp, st *State, name string, args []Val) ([]Val, bool)
	Key() string
}

// mapKey is the identity of a constant used as a map key.
func mapKey(v Val) (string, bool) {
	switch v := unwrap(v).(type) {
	case StrV:
		return "s:" + v.S, true
	case Ext:
		return "x:" + v.Key(), true
	case Num:
		if n, ok := v.P.IsConst(); ok {
			return fmt.Sprintf("n:%d", n), true
		}
	case StructV:
		if len(v.F) == 0 {
			return "e:", true
		}
	}
	return "", false
}

// extInstr interprets the instructions on maps, strings and package variables.
func (in *Interp) extInstr(st *State, fr *frame, i ssa.Instruction, k func(*State, Val)) bool {
	switch x := i.(type) {
	case *ssa.MakeMap:
		k(st, Ptr{in.NewObj(st, &Obj{Kind: MapO, Type: x.Type(), Cells: map[string]Val{}}), ""})
		return true
	case *ssa.MapUpdate:
		m, ok := in.val(st, fr, x.Map).(Ptr)
		key, ok2 := mapKey(in.val(st, fr, x.Key))
		if !ok || !ok2 || st.Obj(m.Obj) == nil || st.Obj(m.Obj).Kind != MapO {
			return false
		}
		o := st.Obj(m.Obj).clone()
		cells := map[string]Val{}
		for a, b := range o.Cells {
			cells[a] = b
		}
		cells[key] = in.val(st, fr, x.Value)
		o.Cells = cells
		st.setObj(m.Obj, o)
		k(st, nil)
		return true
	case *ssa.Lookup:
		xv := in.val(st, fr, x.X)
		if s, ok := xv.(StrV); ok {
			n, ok := in.val(st, fr, x.Index).(Num)
			if !ok {
				return false
			}
			c, ok := n.P.IsConst()
			if !ok {
				return false
			}
			if c < 0 || c >= int64(len(s.S)) {
				in.panic_(st, x, false, "index of a string out of range")
				return true
			}
			k(st, Num{C(SortOf(x.Type()), int64(s.S[c]))})
			return true
		}
		m, ok := xv.(Ptr)
		key, ok2 := mapKey(in.val(st, fr, x.Index))
		if !ok || !ok2 || st.Obj(m.Obj) == nil || st.Obj(m.Obj).Kind != MapO {
			return false
		}
		v, found := st.Obj(m.Obj).Cells[key]
		if !found {
			v = in.Zero(st, x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			l := Lit{Op: No}
			if found {
				l = Lit{Op: Yes}
			}
			v = Tuple{v, BoolV{l}}
		}
		k(st, v)
		return true
	case *ssa.Slice:
		s, ok := in.val(st, fr, x.X).(StrV)
		if !ok {
			return false
		}
		get := func(e ssa.Value, d int64) (int64, bool) {
			if e == nil {
				return d, true
			}
			n, ok := in.val(st, fr, e).(Num)
			if !ok {
				return 0, false
			}
			return n.P.IsConst()
		}
		lo, ok1 := get(x.Low, 0)
		hi, ok2 := get(x.High, int64(len(s.S)))
		if !ok1 || !ok2 {
			return false
		}
		if lo < 0 || hi < lo || hi > int64(len(s.S)) {
			in.panic_(st, x, false, "slice of a string out of range")
			return true
		}
		k(st, StrV{s.S[lo:hi]})
		return true
	}
	return false
}

// strOp is an operation on constant strings.
func strOp(op string, a, b string) (Val, bool) {
	l := func(v bool) (Val, bool) {
		if v {
			return BoolV{Lit{Op: Yes}}, true
		}
		return BoolV{Lit{Op: No}}, true
	}
	switch op {
	case "+":
		return StrV{a + b}, true
	case "==":
		return l(a == b)
	case "!=":
		return l(a != b)
	case "<":
		return l(a < b)
	case ">":
		return l(a > b)
	case "<=":
		return l(a <= b)
	case ">=":
		return l(a >= b)
	}
	return nil, false
}

// stringsModel evaluates functions of the strings package on constants.
func (in *Interp) stringsModel(st *State, site ssa.Instruction, fn *ssa.Function, args []Val, k cont) bool {
	if fn.Signature.Recv() != nil && len(args) > 0 && in.OnBuild != nil {
		p, ok := args[0].(Ptr)
		return ok && in.OnBuild(st, site, fn.Name(), p.Obj, args[1:], k)
	}
	if len(args) == 2 && fn.Name() == "Compare" {
		a, ok := args[0].(StrOf)
		b, ok2 := args[1].(StrOf)
		if !ok || !ok2 {
			return false
		}
		in.Decide(st, a.Less(b), func(s *State) { k(s, []Val{Num{I(-1)}}) }, func(s *State) {
			in.Decide(s, b.Less(a), func(s *State) { k(s, []Val{Num{I(1)}}) }, func(s *State) { k(s, []Val{Num{I(0)}}) })
		})
		return true
	}
	var s []string
	n, hasN := int64(-1), false
	for i, a := range args {
		if q, ok := a.(Num); ok && i == 2 && i == len(args)-1 {
			if c, ok := q.P.IsConst(); ok {
				n, hasN = c, true
				continue
			}
		}
		x, ok := a.(StrV)
		if !ok {
			return false
		}
		s = append(s, x.S)
	}
	list := func(l []string) {
		o := &Obj{Kind: ValArr, Type: types.Typ[types.String], Len: I(int64(len(l))), Vals: map[int64]Val{}, Zero: StrV{}}
		for i, x := range l {
			o.Vals[int64(i)] = StrV{x}
		}
		k(st, []Val{Slice{Arr: in.NewObj(st, o), Off: I(0), Len: o.Len, Cap: o.Len}})
	}
	if len(s) == 2 && hasN {
		switch fn.Name() {
		case "SplitN":
			list(strings.SplitN(s[0], s[1], int(n)))
			return true
		case "SplitAfterN":
			list(strings.SplitAfterN(s[0], s[1], int(n)))
			return true
		}
		return false
	}
	if len(s) == 1 {
		switch fn.Name() {
		case "TrimSpace":
			k(st, []Val{StrV{strings.TrimSpace(s[0])}})
		case "Fields":
			list(strings.Fields(s[0]))
		case "ToLower":
			k(st, []Val{StrV{strings.ToLower(s[0])}})
		case "ToUpper":
			k(st, []Val{StrV{strings.ToUpper(s[0])}})
		default:
			return false
		}
		return true
	}
	b := func(v bool) Val {
		if v {
			return BoolV{Lit{Op: Yes}}
		}
		return BoolV{Lit{Op: No}}
	}
	if len(s) != 2 {
		return false
	}
	switch fn.Name() {
	case "Cut":
		x, y, ok := strings.Cut(s[0], s[1])
		k(st, []Val{StrV{x}, StrV{y}, b(ok)})
	case "Index":
		k(st, []Val{Num{I(int64(strings.Index(s[0], s[1])))}})
	case "LastIndex":
		k(st, []Val{Num{I(int64(strings.LastIndex(s[0], s[1])))}})
	case "HasPrefix":
		k(st, []Val{b(strings.HasPrefix(s[0], s[1]))})
	case "HasSuffix":
		k(st, []Val{b(strings.HasSuffix(s[0], s[1]))})
	case "Contains":
		k(st, []Val{b(strings.Contains(s[0], s[1]))})
	case "TrimPrefix":
		k(st, []Val{StrV{strings.TrimPrefix(s[0], s[1])}})
	case "TrimSuffix":
		k(st, []Val{StrV{strings.TrimSuffix(s[0], s[1])}})
	case "Trim":
		k(st, []Val{StrV{strings.Trim(s[0], s[1])}})
	case "TrimLeft":
		k(st, []Val{StrV{strings.TrimLeft(s[0], s[1])}})
	case "TrimRight":
		k(st, []Val{StrV{strings.TrimRight(s[0], s[1])}})
	case "IndexAny":
		k(st, []Val{Num{I(int64(strings.IndexAny(s[0], s[1])))}})
	case "Split":
		list(strings.Split(s[0], s[1]))
	case "SplitAfter":
		list(strings.SplitAfter(s[0], s[1]))
	case "EqualFold":
		k(st, []Val{b(strings.EqualFold(s[0], s[1]))})
	default:
		return false
	}
	return true
}
