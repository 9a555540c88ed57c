package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// checkContext decides C25: the mode is found through the Value method, under a key no other package
// can make, and everything else is the parent's.
func checkContext(r *Report) {
	p := r.Prog
	h := newHost(r, p)
	newCtx, blocking := p.fn("", "NewContext"), p.fn("", "BlockingMode")
	if newCtx == nil || blocking == nil {
		r.Undecided("context", "NewContext, BlockingMode", "", "no such function")
		return
	}
	pos, bpos := p.pos(newCtx.Pos()), p.pos(blocking.Pos())
	m := S(Int, "m")

	// parent is a context of which only the interface is known; derived is one that the standard
	// library derived from made, which passes Value on to it
	type env struct {
		in   *interp.Interp
		st   *interp.State
		made interp.Val
		keys []interp.Val
	}
	nested := false
	setup := func() (*env, string) {
		e := &env{in: interp.New(h)}
		e.st = e.in.NewState()
		e.in.OnOpaque = func(in *interp.Interp, st *interp.State, o interp.Opaque, method string, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
			switch o.Name {
			case "parent":
				switch method {
				case "Value":
					if len(args) != 1 {
						return false
					}
					k(st, []interp.Val{interp.Opaque{Name: fmt.Sprintf("parent.Value(%v)", args[0])}})
				case "Deadline":
					k(st, []interp.Val{interp.Opaque{Name: "parent.Deadline.0"}, interp.Opaque{Name: "parent.Deadline.1"}})
				default:
					k(st, []interp.Val{interp.Opaque{Name: "parent." + method}})
				}
				return true
			case "derived":
				if method == "Value" {
					e.keys = append(e.keys, args...)
					in.Invoke(st, nil, e.made, "Value", args, k)
					return true
				}
				k(st, []interp.Val{interp.Opaque{Name: "derived." + method}})
				return true
			case "plain":
				if method == "Value" {
					e.keys = append(e.keys, args...)
					k(st, []interp.Val{interp.NilV{}})
					return true
				}
				k(st, []interp.Val{interp.Opaque{Name: "plain." + method}})
				return true
			}
			return false
		}
		// what the standard library derives, and any other context, is of none of this module's types
		e.in.OpaqueIs = func(o interp.Opaque, t types.Type) (bool, bool) {
			n := namedType(t)
			return false, (o.Name == "derived" || o.Name == "plain" || o.Name == "parent") && n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.Module)
		}
		rs := e.in.Run(e.st, newCtx, []interp.Val{interp.Opaque{Name: "parent"}, interp.Num{P: m}}, nil)
		if nested && len(rs) == 1 && len(rs[0].Vals) == 1 {
			// the parent has a mode, another one
			rs = e.in.Run(e.st, newCtx, []interp.Val{interp.Opaque{Name: "parent"}, interp.Num{P: S(Int, "m0")}}, nil)
			rs = e.in.Run(rs[0].St, newCtx, []interp.Val{rs[0].Vals[0], interp.Num{P: m}}, nil)
		}
		if len(rs) != 1 || len(rs[0].Vals) != 1 || len(e.in.Problems) > 0 || len(e.in.Panics) > 0 {
			return nil, "what NewContext returns is not known: " + problems(e.in)
		}
		e.st, e.made = rs[0].St, rs[0].Vals[0]
		return e, ""
	}
	// each runs something and hands every outcome to judge
	each := func(rule, name, pos string, e *env, run func(k func(*interp.State, []interp.Val)), judge func(s *interp.State, vals []interp.Val) string) {
		n := 0
		var why []string
		run(func(s *interp.State, vals []interp.Val) {
			if s.F.Inconsistent() {
				return
			}
			n++
			if w := judge(s, vals); w != "" {
				why = append(why, w)
			}
		})
		if len(e.in.Problems) > 0 {
			r.Undecided(rule, name, pos, "%s", problems(e.in))
			return
		}
		for _, x := range e.in.Panics {
			why = append(why, "panics: "+x.Why)
		}
		if n == 0 {
			why = append(why, "never returns")
		}
		r.Count("paths_examined", n)
		verdict(r, rule, name, pos, why, "on every path")
	}
	isNum := func(v interp.Val, p *Poly) bool {
		n, ok := v.(interp.Num)
		return ok && n.P == p
	}
	isBool := func(s *interp.State, v interp.Val, want bool) bool {
		b, ok := v.(interp.BoolV)
		if !ok {
			return false
		}
		if !want {
			b.L = b.L.Not()
		}
		return s.F.Entails(b.L)
	}
	found := func(s *interp.State, vals []interp.Val) string {
		if len(vals) != 2 || !isNum(vals[0], m) || !isBool(s, vals[1], true) {
			return fmt.Sprintf("returns %v, not the mode and true", vals)
		}
		return ""
	}

	for _, nested = range []bool{false, true} {
		suffix := ""
		if nested {
			suffix = ", the parent having a mode"
		}
		e, why := setup()
		if e == nil {
			r.Undecided("context", "NewContext", pos, "%s", why)
			return
		}
		each("the mode is reported", "BlockingMode of the context itself"+suffix, bpos, e, func(k func(*interp.State, []interp.Val)) {
			e.in.Call(e.st, nil, blocking, []interp.Val{e.made}, nil, k)
		}, found)

		e, _ = setup()
		each("the mode is reported", "BlockingMode of a derived context"+suffix, bpos, e, func(k func(*interp.State, []interp.Val)) {
			e.in.Call(e.st, nil, blocking, []interp.Val{interp.Opaque{Name: "derived"}}, nil, k)
		}, found)
		keys := e.keys
		if len(keys) == 0 {
			r.Bad("the mode's key is private", "BlockingMode", bpos, "BlockingMode does not ask a derived context for the mode")
		}
		for _, k := range keys {
			privateKey(r, p, k, bpos)
		}

		e, _ = setup()
		each("a context without a mode", "BlockingMode of any other context"+suffix, bpos, e, func(k func(*interp.State, []interp.Val)) {
			e.in.Call(e.st, nil, blocking, []interp.Val{interp.Opaque{Name: "plain"}}, nil, k)
		}, func(s *interp.State, vals []interp.Val) string {
			if len(vals) != 2 || !isNum(vals[0], I(blockingValue(p))) || !isBool(s, vals[1], false) {
				return fmt.Sprintf("returns %v, not Blocking and false", vals)
			}
			return ""
		})

		e, _ = setup()
		each("the mode is reported", "Mode of the context itself"+suffix, pos, e, func(k func(*interp.State, []interp.Val)) {
			e.in.Invoke(e.st, nil, e.made, "Mode", nil, k)
		}, func(s *interp.State, vals []interp.Val) string {
			if len(vals) != 1 || !isNum(vals[0], m) {
				return fmt.Sprintf("returns %v, not the mode", vals)
			}
			return ""
		})

		for _, method := range []string{"Done", "Err", "Deadline"} {
			e, _ = setup()
			each("otherwise like the parent", method+suffix, pos, e, func(k func(*interp.State, []interp.Val)) {
				e.in.Invoke(e.st, nil, e.made, method, nil, k)
			}, func(s *interp.State, vals []interp.Val) string {
				for i, v := range vals {
					want := "parent." + method
					if method == "Deadline" {
						want = fmt.Sprintf("parent.Deadline.%d", i)
					}
					if v != interp.Val(interp.Opaque{Name: want}) {
						return fmt.Sprintf("returns %v, not the parent's", vals)
					}
				}
				return ""
			})
		}

		e, _ = setup()
		key := interp.Opaque{Name: "key"}
		each("otherwise like the parent", "Value of any other key"+suffix, pos, e, func(k func(*interp.State, []interp.Val)) {
			e.in.Invoke(e.st, nil, e.made, "Value", []interp.Val{key}, k)
		}, func(s *interp.State, vals []interp.Val) string {
			// the path on which the key is the mode's
			for _, l := range s.Path {
				for _, k := range keys {
					i, ok := k.(interp.Iface)
					if ok && l.Op == Tru && (l.A.Name == fmt.Sprintf("key is %s:%v", i.T, i.V) || l.A.Name == fmt.Sprintf("key is a %s", i.T)) {
						return ""
					}
				}
			}
			if len(vals) != 1 || vals[0] != interp.Val(interp.Opaque{Name: "parent.Value({key})"}) {
				return fmt.Sprintf("returns %v, not the parent's value", vals)
			}
			return ""
		})
	}
}

func namedType(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func blockingValue(p *Program) int64 {
	if sp := p.Pkgs[""]; sp != nil {
		if c, ok := sp.Members["Blocking"].(*ssa.NamedConst); ok {
			return c.Value.Int64()
		}
	}
	return 0
}

// privateKey checks that no other package can make the key.
func privateKey(r *Report, p *Program, k interp.Val, pos string) {
	rule, name := "the mode's key is private", "BlockingMode"
	i, ok := k.(interp.Iface)
	if !ok {
		r.Undecided(rule, name, pos, "the key is %v", k)
		return
	}
	t := types.Unalias(i.T)
	ptr, isPtr := t.(*types.Pointer)
	if isPtr {
		t = types.Unalias(ptr.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.Module) && !n.Obj().Exported() {
		r.OK(rule, name, pos, "the key's type %s is not exported", n.Obj().Name())
		return
	}
	// an address is the key of whoever can name the variable; addresses of nothing may all be equal
	if isPtr && types.SizesFor("gc", "amd64").Sizeof(t.Underlying()) > 0 {
		exported, known := true, false
		switch v := i.V.(type) {
		case interp.GlobalV:
			exported, known = v.G.Object().Exported(), true
		case interp.Opaque:
			s, ok := strings.CutPrefix(v.Name, "global ")
			known = ok
			exported = token.IsExported(s[strings.LastIndexByte(s, '.')+1:])
		}
		if known && !exported {
			r.OK(rule, name, pos, "the key is the address of a variable of the package")
			return
		}
	}
	r.Bad(rule, name, pos, "any package can make a key of type %s and so hide or forge the mode", i.T)
}

func init() {
	register(&Check{ID: "C25", Level: "proof", MinObs: 17,
		Rules: "abstract interpretation of NewContext, its methods and BlockingMode with an opaque parent and an opaque derived context that passes Value on: the mode comes back, every other method and key is the parent's, the key is of a type private to the package",
		Run:   checkContext})
}
