package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// typeV is a reflect.Type, of a type of the program.
type typeV struct{ T types.Type }

func (t typeV) Key() string { return types.TypeString(t.T, nil) }

func (t typeV) Call(in *interp.Interp, st *interp.State, name string, args []interp.Val) ([]interp.Val, bool) {
	str := func(s string) ([]interp.Val, bool) { return []interp.Val{interp.StrV{S: s}}, true }
	switch name {
	case "Elem":
		switch u := types.Unalias(t.T).(type) {
		case *types.Pointer:
			return []interp.Val{typeV{u.Elem()}}, true
		}
	case "Name":
		switch u := types.Unalias(t.T).(type) {
		case *types.Named:
			return str(u.Obj().Name() + typeArgs(u))
		case *types.Basic:
			return str(u.Name())
		}
		return str("")
	case "PkgPath":
		if u, ok := types.Unalias(t.T).(*types.Named); ok && u.Obj().Pkg() != nil {
			return str(u.Obj().Pkg().Path())
		}
		return str("")
	case "String":
		prefix, u := "", types.Unalias(t.T)
		for {
			p, ok := u.(*types.Pointer)
			if !ok {
				break
			}
			prefix, u = prefix+"*", types.Unalias(p.Elem())
		}
		switch u := u.(type) {
		case *types.Named:
			return str(prefix + u.Obj().Pkg().Name() + "." + u.Obj().Name() + typeArgs(u))
		case *types.Basic:
			return str(prefix + u.Name())
		}
	case "Kind":
		k := map[string]int64{"bool": 1, "int": 2, "int8": 3, "int16": 4, "int32": 5, "int64": 6, "uint": 7, "uint8": 8, "uint16": 9,
			"uint32": 10, "uint64": 11, "uintptr": 12, "float32": 13, "float64": 14, "complex64": 15, "complex128": 16, "string": 24}
		switch u := t.T.Underlying().(type) {
		case *types.Pointer:
			return []interp.Val{interp.Num{P: I(22)}}, true
		case *types.Slice:
			return []interp.Val{interp.Num{P: I(23)}}, true
		case *types.Struct:
			return []interp.Val{interp.Num{P: I(25)}}, true
		case *types.Basic:
			if n, ok := k[u.Name()]; ok {
				return []interp.Val{interp.Num{P: I(n)}}, true
			}
		}
	}
	return nil, false
}

// typeArgs are the type arguments as the reflect package writes them.
func typeArgs(n *types.Named) string {
	var s []string
	for i := 0; i < n.TypeArgs().Len(); i++ {
		s = append(s, types.TypeString(n.TypeArgs().At(i), nil))
	}
	if len(s) == 0 {
		return ""
	}
	return "[" + strings.Join(s, ",") + "]"
}

func checkRegistry(r *Report) {
	p := r.Prog
	h := newHost(r, p)
	is, reg := p.fn("", "IsSparseMatrix"), p.fn("", "RegisterMatrix")
	sp := p.Pkgs[""]
	if is == nil || reg == nil || sp == nil || sp.Func("init") == nil {
		r.Undecided("sparse formats", "IsSparseMatrix, RegisterMatrix", "", "no such function")
		return
	}
	in := interp.New(h)
	in.Globals, in.NoContracts = true, true
	in.Model = func(in *interp.Interp, st *interp.State, site ssa.Instruction, fn *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		g := body(fn)
		if g.Pkg == nil {
			return false
		}
		if g.Name() == "init" && g.Pkg != sp {
			k(st, nil)
			return true
		}
		if g.Pkg.Pkg.Path() == "reflect" && (g.Name() == "TypeOf" || g.Name() == "Indirect") && len(args) == 1 {
			if v, ok := args[0].(interp.Iface); ok && v.T != nil {
				k(st, []interp.Val{typeV{v.T}})
				return true
			}
		}
		if g.Pkg.Pkg.Path() == "reflect" && g.Name() == "TypeFor" && len(fn.TypeArgs()) == 1 {
			k(st, []interp.Val{typeV{fn.TypeArgs()[0]}})
			return true
		}
		return false
	}
	rule := "registration"
	st := in.NewState()
	inits := in.Run(st, sp.Func("init"), nil, nil)
	if len(inits) != 1 || len(in.Problems) > 0 || len(in.Panics) > 0 {
		r.Undecided(rule, "initialisation of the package", p.pos(reg.Pos()), "%s", problems(in)+panicsOf(in))
		return
	}
	st = inits[0].St
	r.OK(rule, "initialisation of the package", p.pos(reg.Pos()), "interpreted")

	reset := func() { in.Problems, in.Panics = nil, nil }
	// registering
	twice := func(name string, s *interp.State, t types.Type, first bool) {
		reset()
		states := []*interp.State{s}
		if first {
			states = nil
			for _, x := range in.Run(s.Clone(), reg, []interp.Val{typeV{t}}, nil) {
				states = append(states, x.St)
			}
			if len(in.Problems) > 0 {
				r.Undecided(rule, name, p.pos(reg.Pos()), "%s", problems(in))
				return
			}
			if len(states) == 0 {
				r.Bad(rule, name, p.pos(reg.Pos()), "registering it once panics")
				return
			}
		}
		reset()
		n := 0
		for _, s := range states {
			n += len(in.Run(s.Clone(), reg, []interp.Val{typeV{t}}, nil))
		}
		switch {
		case len(in.Problems) > 0:
			r.Undecided(rule, name, p.pos(reg.Pos()), "%s", problems(in))
		case n > 0 || len(in.Panics) == 0:
			r.Bad(rule, name, p.pos(reg.Pos()), "registering it again returns")
		default:
			r.OK(rule, name, p.pos(reg.Pos()), "registering it again panics")
		}
	}
	foreign := types.NewNamed(types.NewTypeName(0, types.NewPackage("example.com/x", "x"), "Foo", nil), types.NewStruct(nil, nil), nil)
	twice("a type of another package", st, foreign, true)

	for _, f := range p.matrixTypes(r) {
		name := f.Obj().Name()
		f = f.Origin()
		if f.TypeParams().Len() != 1 {
			r.Undecided("sparse formats", name, "", "not generic over the element")
			continue
		}
		want := h.sparse[f]
		con, ok := f.TypeParams().At(0).Constraint().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		var bad []string
		n := 0
		for _, elem := range types.Typ {
			if elem.Kind() == types.Invalid || elem.Kind() == types.UnsafePointer || elem.Info()&types.IsUntyped != 0 || !types.Satisfies(elem, con) {
				continue
			}
			inst, err := types.Instantiate(nil, f, []types.Type{elem}, true)
			if err != nil {
				continue
			}
			n++
			reset()
			s := st.Clone()
			v := in.Zero(s, inst)
			ptr := interp.Ptr{Obj: in.NewObj(s, &interp.Obj{Kind: interp.Cells, Type: inst, Cells: map[string]interp.Val{"": v}})}
			rs := in.Run(s, is, []interp.Val{interp.Iface{T: types.NewPointer(inst), V: ptr}}, nil)
			if len(in.Problems) > 0 {
				r.Undecided("sparse formats", name, p.pos(is.Pos()), "%s: %s", elem, problems(in))
				return
			}
			if len(rs) == 0 || len(in.Panics) > 0 {
				bad = append(bad, fmt.Sprintf("IsSparseMatrix panics for %s[%s]", name, elem))
			}
			for _, x := range rs {
				b, ok := x.Vals[0].(interp.BoolV)
				if ok && !want {
					b.L = b.L.Not()
				}
				if !ok || !x.St.F.Entails(b.L) {
					bad = append(bad, fmt.Sprintf("IsSparseMatrix is not %v for %s[%s]", want, name, elem))
				}
			}
		}
		r.Count("types_examined", n)
		if n < 12 {
			r.Undecided("sparse formats", name, p.pos(is.Pos()), "only %d element types", n)
			continue
		}
		verdict(r, "sparse formats", name, p.pos(is.Pos()), bad, fmt.Sprintf("%v for its %d element types", want, n))
		if want {
			// whatever was registered first, the second time panics
			if inst, err := types.Instantiate(nil, f, []types.Type{types.Typ[types.Float64]}, true); err == nil {
				first := false
				reset()
				if len(in.Run(st.Clone(), reg, []interp.Val{typeV{inst}}, nil)) > 0 {
					first = true
				}
				twice(name+"[float64]", st, inst, first)
			}
		}
	}
}

func panicsOf(in *interp.Interp) string {
	s := ""
	for _, x := range in.Panics {
		s += " panics: " + x.Why
	}
	return s
}

func init() {
	register(&Check{ID: "C18", Level: "proof", MinObs: 12,
		Rules: "abstract interpretation of the package's initialisation and of IsSparseMatrix with the type registry as a constant map: true for the three sparse formats and false for the four dense ones, for every element type their constraint admits; the second RegisterMatrix of a type does not return",
		Run:   checkRegistry})
}
