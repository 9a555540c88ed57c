package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// operSpec says what an operator computes of x and y.
type operSpec struct {
	args  int
	boolA bool // of booleans
	// judge reports what is wrong with a returned value
	judge func(st *interp.State, v interp.Val) string
}

func ord(p *Poly) *Poly { return Apply(Int, "ord", p) }

// operator arguments
func opArgs(sp *operSpec) (x, y *Poly, p, q Lit) {
	return S(Elem, "x"), S(Elem, "y"), Truth(Pred("p")), Truth(Pred("q"))
}

func operSpecs() map[string]*operSpec {
	x, y, p, q := opArgs(nil)
	num := func(v interp.Val) *Poly {
		if n, ok := v.(interp.Num); ok {
			return n.P
		}
		return nil
	}
	exact := func(want *Poly) *operSpec {
		return &operSpec{args: 2, judge: func(st *interp.State, v interp.Val) string {
			n := num(v)
			if n == nil {
				return fmt.Sprintf("returns %v", v)
			}
			if n == want {
				return ""
			}
			return fmt.Sprintf("returns %s, not %s", n, want)
		}}
	}
	extremum := func(less func(a, b *Poly) Lit) *operSpec {
		return &operSpec{args: 2, judge: func(st *interp.State, v interp.Val) string {
			n := num(v)
			if n != x && n != y {
				return fmt.Sprintf("returns %v, which is neither argument", v)
			}
			for _, a := range []*Poly{x, y} {
				if !st.F.Entails(less(ord(n), ord(a))) {
					return fmt.Sprintf("returns %s where it need not be the extremum", n)
				}
			}
			return ""
		}}
	}
	truth := func(n int, boolA bool, want func() []Clause, not func() []Clause) *operSpec {
		return &operSpec{args: n, boolA: boolA, judge: func(st *interp.State, v interp.Val) string {
			b, ok := v.(interp.BoolV)
			if !ok {
				return fmt.Sprintf("returns %v", v)
			}
			s := st.Clone()
			for _, c := range want() {
				s.F.AddClause(c)
			}
			if !s.F.Inconsistent() && !s.F.Entails(b.L) {
				return fmt.Sprintf("can be false (%s) where it has to be true", b.L)
			}
			s = st.Clone()
			for _, c := range not() {
				s.F.AddClause(c)
			}
			if !s.F.Inconsistent() && !s.F.Entails(b.L.Not()) {
				return fmt.Sprintf("can be true (%s) where it has to be false", b.L)
			}
			return ""
		}}
	}
	or := func(ls ...Lit) []Clause {
		var c Clause
		for _, l := range ls {
			c = append(c, []Lit{l})
		}
		return []Clause{c}
	}
	and := func(ls ...Lit) []Clause {
		var out []Clause
		for _, l := range ls {
			out = append(out, Clause{{l}})
		}
		return out
	}
	cmp := func(l Lit) *operSpec {
		return truth(2, false, func() []Clause { return and(l) }, func() []Clause { return and(l.Not()) })
	}
	n := func(l Lit) Lit { return l.Not() }
	xor := func(same bool) []Clause {
		a, b := Clause{{p, n(q)}, {n(p), q}}, Clause{{p, q}, {n(p), n(q)}}
		if same {
			return []Clause{b}
		}
		return []Clause{a}
	}
	return map[string]*operSpec{
		"Addition": exact(x.Add(y)), "Subtraction": exact(x.Sub(y)), "Multiplication": exact(x.Mul(y)), "Division": exact(MkDiv(x, y)),
		"FirstArgument": exact(x), "SecondArgument": exact(y), "Minimum": extremum(Le), "Maximum": extremum(func(a, b *Poly) Lit { return Le(b, a) }),
		"Equal": cmp(Same(ord(x), ord(y))), "NotEqual": cmp(Same(ord(x), ord(y)).Not()),
		"LessThan": cmp(Lt(ord(x), ord(y))), "GreaterThan": cmp(Lt(ord(y), ord(x))),
		"LessThanOrEqual": cmp(Le(ord(x), ord(y))), "GreaterThanOrEqual": cmp(Le(ord(y), ord(x))),
		"LOR":            truth(2, true, func() []Clause { return or(p, q) }, func() []Clause { return and(n(p), n(q)) }),
		"LAND":           truth(2, true, func() []Clause { return and(p, q) }, func() []Clause { return or(n(p), n(q)) }),
		"LXOR":           truth(2, true, func() []Clause { return xor(false) }, func() []Clause { return xor(true) }),
		"LogicalInverse": truth(1, true, func() []Clause { return and(n(p)) }, func() []Clause { return and(p) }),
	}
}

// globalValue finds the one value that package initialisation stores to the variable.
func globalValue(p *Program, g *ssa.Global) (ssa.Value, *ssa.Function, string) {
	var val ssa.Value
	var at *ssa.Function
	n := 0
	for _, ref := range p.globalRefs()[g] {
		switch i := ref.(type) {
		case *ssa.Store:
			if i.Addr != g || i.Val == g {
				return nil, nil, "its address is stored"
			}
			val, at = i.Val, i.Parent()
			n++
		case *ssa.UnOp:
		default:
			return nil, nil, "its address escapes"
		}
	}
	if n != 1 || (at.Name() != "init" && !strings.HasPrefix(at.Name(), "init#")) {
		return nil, nil, fmt.Sprintf("it is stored to %d times", n)
	}
	return val, at, ""
}

// globalRefs are the instructions of all functions that refer to a package variable.
func (p *Program) globalRefs() map[*ssa.Global][]ssa.Instruction {
	if p.refs != nil {
		return p.refs
	}
	p.refs = map[*ssa.Global][]ssa.Instruction{}
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						p.refs[g] = append(p.refs[g], i)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range p.Pkgs {
		for _, m := range pkg.Members {
			if fn, ok := m.(*ssa.Function); ok {
				add(fn)
			}
		}
	}
	for _, fn := range p.bodies() {
		add(fn)
	}
	return p.refs
}

// evalInit evaluates a value computed by straight-line initialisation code.
func evalInit(in *interp.Interp, st *interp.State, v ssa.Value) (interp.Val, *interp.State) {
	switch v := v.(type) {
	case *ssa.Function:
		return interp.Func{Fn: v}, st
	case *ssa.MakeInterface:
		x, s := evalInit(in, st, v.X)
		if x == nil {
			return nil, nil
		}
		return interp.Iface{T: v.X.Type(), V: x}, s
	case *ssa.ChangeInterface:
		return evalInit(in, st, v.X)
	case *ssa.ChangeType:
		return evalInit(in, st, v.X)
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return nil, nil
		}
		var args []interp.Val
		for _, a := range v.Call.Args {
			x, s := evalInit(in, st, a)
			if x == nil {
				return nil, nil
			}
			st = s
			args = append(args, x)
		}
		rs := in.Run(st, fn, args, nil)
		if len(rs) != 1 || len(rs[0].Vals) != 1 {
			return nil, nil
		}
		return rs[0].Vals[0], rs[0].St
	}
	return nil, nil
}

func checkOperators(r *Report) {
	p := r.Prog
	h := newHost(r, p)
	specs := operSpecs()
	found := map[string]int{}
	seen := map[*ssa.Function]bool{}
	for _, pkg := range []string{"operators", "binaryop"} {
		sp := p.Pkgs[pkg]
		if sp == nil {
			r.Undecided("operators", pkg, "", "no such package")
			continue
		}
		var names []string
		for name := range sp.Members {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			spec := specs[name]
			if spec == nil {
				continue
			}
			key := pkg + "." + name
			in := interp.New(h)
			in.OrdElems = true
			st := in.NewState()
			var op interp.Val
			var pos string
			switch m := sp.Members[name].(type) {
			case *ssa.Function:
				pos = p.pos(m.Pos())
				seen[m] = true
				rs := in.Run(st, m, nil, nil)
				if len(rs) == 1 && len(rs[0].Vals) == 1 {
					op, st = rs[0].Vals[0], rs[0].St
				}
			case *ssa.Global:
				pos = p.pos(m.Pos())
				v, _, why := globalValue(p, m)
				if v == nil {
					r.Undecided("operator computes its function", key, pos, "the value of the variable is not known: %s", why)
					continue
				}
				op, st = evalInit(in, st, v)
			default:
				continue
			}
			if op == nil {
				r.Undecided("operator computes its function", key, pos, "the operator it makes is not known: %s", problems(in))
				continue
			}
			found[name]++
			judgeOp(r, in, st, op, spec, key, pos)
		}
	}
	for name := range specs {
		if found[name] == 0 {
			r.Undecided("operator computes its function", name, "", "there is no operator of that name any more")
		}
	}
	// the constructors
	for _, c := range []struct {
		pkg, name string
		args      int
		sort      Sort
	}{{"binaryop", "NewBinaryOp", 2, Elem}, {"binaryop", "NewBinaryOpToBool", 2, Bool}, {"unaryop", "NewUnaryOp", 1, Elem}} {
		key := c.pkg + "." + c.name
		fn := p.fn(c.pkg, c.name)
		if fn == nil {
			r.Undecided("constructor applies its function", key, "", "no such function")
			continue
		}
		in := interp.New(h)
		st := in.NewState()
		f := interp.FuncSym{Name: "f", Sort: c.sort}
		rs := in.Run(st, fn, []interp.Val{f}, nil)
		if len(rs) != 1 || len(rs[0].Vals) != 1 {
			r.Undecided("constructor applies its function", key, p.pos(fn.Pos()), "what it returns is not known: %s", problems(in))
			continue
		}
		x, y := S(Elem, "x"), S(Elem, "y")
		spec := &operSpec{args: c.args}
		ps := []*Poly{x, y}[:c.args]
		if c.sort == Bool {
			want := Truth(Pred("f", ps...))
			spec.judge = func(st *interp.State, v interp.Val) string {
				if b, ok := v.(interp.BoolV); ok && b.L.Key() == want.Key() {
					return ""
				}
				return fmt.Sprintf("returns %v, not f(x,y)", v)
			}
		} else {
			want := Apply(Elem, "f", ps...)
			spec.judge = func(st *interp.State, v interp.Val) string {
				if n, ok := v.(interp.Num); ok && n.P == want {
					return ""
				}
				return fmt.Sprintf("returns %v, not %s", v, want)
			}
		}
		judgeOpRule(r, in, rs[0].St, rs[0].Vals[0], spec, key, p.pos(fn.Pos()), "constructor applies its function")
	}
}

func problems(in *interp.Interp) string {
	var l []string
	for _, p := range in.Problems {
		l = append(l, p.Pos+": "+p.Why)
	}
	return few(l)
}

func judgeOp(r *Report, in *interp.Interp, st *interp.State, op interp.Val, spec *operSpec, key, pos string) {
	judgeOpRule(r, in, st, op, spec, key, pos, "operator computes its function")
}

func judgeOpRule(r *Report, in *interp.Interp, st *interp.State, op interp.Val, spec *operSpec, key, pos, rule string) {
	x, y, p, q := opArgs(spec)
	args := []interp.Val{interp.Num{P: x}, interp.Num{P: y}}
	if spec.boolA {
		args = []interp.Val{interp.BoolV{L: p}, interp.BoolV{L: q}}
	}
	args = args[:spec.args]
	returns := 0
	var why []string
	in.Panics = nil
	in.Invoke(st, nil, op, "Apply", args, func(s *interp.State, vals []interp.Val) {
		if s.F.Inconsistent() {
			return
		}
		returns++
		if len(vals) != 1 {
			why = append(why, "does not return one value")
			return
		}
		if w := spec.judge(s, vals[0]); w != "" {
			why = append(why, w)
		}
	})
	if len(in.Problems) > 0 {
		r.Undecided(rule, key, pos, "%s", problems(in))
		return
	}
	for _, x := range in.Panics {
		why = append(why, x.Pos+": panics: "+x.Why)
	}
	if returns == 0 {
		why = append(why, "Apply never returns")
	}
	r.Count("paths_examined", returns)
	verdict(r, rule, key, pos, why, "every path of Apply returns the function of the arguments in order")
}

func init() {
	register(&Check{ID: "C19", Level: "proof", MinObs: 29,
		Rules: "abstract interpretation of each operator's constructor and of Apply on what it returns, with opaque arguments of an unknown totally ordered ring: every returned value is the term the operator is named after, and each constructor's Apply is the application of the function given, arguments in order",
		Run:   checkOperators})
}

var _ = types.Typ
