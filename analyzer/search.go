package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	. "graphverif/dom"
	"graphverif/interp"
)

// searchCase runs the search in levels on an unknown graph. The product with the adjacency matrix
// answers with an unknown level; ghosts hold what the frontier and the visited vertices have to be.
func (h *host) searchCase(fn *ssa.Function, sparse, debug bool) (why []string, in *interp.Interp, products, tests int) {
	in = interp.New(h)
	in.Debug = debug
	in.Supports = true
	st := in.NewState()
	a := in.NewMat(st, "a", sparse, false)
	n := st.Obj(a).Rows
	st.F.Add(Same(n, st.Obj(a).Cols))
	src := S(Int, "source")
	st.F.Add(GeL(src), Lt(src, n))
	vec := func(name string, l ...interp.Layer) int {
		return in.NewObj(st, &interp.Obj{Kind: interp.Mat, Name: "ghost " + name, Sort: Elem, Vec: true, Rows: n, Cols: I(1), Sparse: Lit{Op: No},
			C: &interp.Content{Base: C(Elem, 0), Layers: l}})
	}
	one := interp.Layer{Guard: []Lit{Same(B0, src)}, Val: C(Elem, 1)}
	frontier, visited, level := vec("frontier", one), vec("visited", one), vec("level")
	const ready, multiplied, found = 0, 1, 2
	g := newFoldGhost(in, st, map[string]*Poly{".state": I(ready), ".rounds": I(0)})
	bad := notes{in: in}
	holds := func(s *interp.State, v interp.Val, c *interp.Content) (int, bool) {
		id, ok := in.MatrixOf(s, v)
		if !ok {
			return 0, false
		}
		o := s.Obj(id)
		if !s.F.EqInt(o.Rows, n) || !o.Vec && !s.F.EqInt(o.Cols, I(1)) {
			return id, false
		}
		ok, _ = in.ContentEq(s, o.C, c, o)
		return id, ok
	}
	product := h.rootFunc("MatrixVectorMultiply")
	in.Model = func(in *interp.Interp, s *interp.State, site ssa.Instruction, f *ssa.Function, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		if body(f) != product || len(args) != 5 {
			return false
		}
		if !in.Trying() {
			products++
		}
		at := h.Pos(site)
		if !s.F.EqInt(g.get(s, ".state"), I(ready)) {
			bad.add("%s: multiplies again before the goal was tested, or after it was met", at)
		}
		if !s.F.Entails(Lt(g.get(s, ".rounds"), n)) {
			bad.add("%s: there may be more rounds than vertices", at)
		}
		if id, ok := in.MatrixOf(s, args[1]); !ok || id != a {
			bad.add("%s: multiplies something else than the graph", at)
		}
		m, ok := holds(s, args[2], s.Obj(frontier).C)
		if !ok {
			bad.add("%s: the vector multiplied need not be the level before", at)
		}
		mask, ok := in.MatrixOf(s, args[3])
		if o := s.Obj(mask); !ok || !s.F.EqInt(o.Rows, n) || !o.Vec && !s.F.EqInt(o.Cols, I(1)) || !in.ContentSupport(s, o.C, s.Obj(visited).C, o) {
			bad.add("%s: the mask need not hold exactly the vertices visited", at)
		}
		out, ok := holds(s, args[4], &interp.Content{Base: C(Elem, 0)})
		if !ok {
			bad.add("%s: what the product is written to need not be empty", at)
		}
		if out == m || out == mask || out == a || out == 0 {
			bad.add("%s: the product is written over one of its operands", at)
			if out == 0 {
				k(s, nil)
				return true
			}
		}
		l := &interp.Content{Base: Apply(Elem, in.FreshName(s, "level", site), append(append([]*Poly{}, s.Params...), B0)...)}
		in.SetContent(s, out, l)
		in.SetContent(s, level, l)
		g.set(s, ".state", I(multiplied))
		g.set(s, ".rounds", g.get(s, ".rounds").AddC(1))
		k(s, nil)
		return true
	}
	in.OnFunc = func(s *interp.State, site ssa.Instruction, f interp.FuncSym, args []interp.Val, k func(*interp.State, []interp.Val)) bool {
		if f.Name != "goal" || len(args) != 1 {
			return false
		}
		if !in.Trying() {
			tests++
		}
		if !s.F.EqInt(g.get(s, ".state"), I(multiplied)) {
			bad.add("%s: the goal is tested without a new level", h.Pos(site))
		}
		if _, ok := holds(s, args[0], s.Obj(level).C); !ok {
			bad.add("%s: the goal is tested on something else than the new level", h.Pos(site))
		}
		in.Decide(s, Truth(Pred(in.FreshName(s, "goal", site), s.Params...)), func(s *interp.State) {
			g.set(s, ".state", I(found))
			k(s, []interp.Val{boolVal(true)})
		}, func(s *interp.State) {
			l := s.Obj(level).C
			in.SetContent(s, frontier, l)
			in.SetContent(s, visited, s.Obj(visited).C.With(interp.Layer{Guard: []Lit{EEqL(l.Base).Not()}, Val: l.Base}))
			g.set(s, ".state", I(ready))
			k(s, []interp.Val{boolVal(false)})
		})
		return true
	}
	ways := map[string]int{}
	for _, r := range in.Run(st, body(fn), []interp.Val{interp.CtxV{}, interp.Ptr{Obj: a}, interp.Num{P: src}, interp.FuncSym{Name: "goal", Sort: Bool}}, nil) {
		s := r.St
		if s.F.Inconsistent() {
			continue
		}
		switch x := g.get(s, ".state"); {
		case s.F.EqInt(x, I(found)):
			ways["found"]++
			if _, ok := holds(s, r.Vals[0], s.Obj(level).C); !ok {
				bad.add("what is returned need not be the level that met the goal")
			}
		case s.F.EqInt(x, I(ready)):
			ways["not found"]++
			if !s.F.EqInt(g.get(s, ".rounds"), n) {
				bad.add("returns after %s rounds although the goal is not met", g.get(s, ".rounds"))
			}
			if _, ok := holds(s, r.Vals[0], &interp.Content{Base: C(Elem, 0)}); !ok {
				bad.add("what is returned when the goal is not met need not be empty")
			}
		default:
			bad.add("returns in the middle of a round")
		}
		if ok, _ := in.ContentEq(s, s.Obj(a).C, st.Obj(a).C, st.Obj(a)); !ok {
			bad.add("the graph is changed")
		}
	}
	if len(ways) < 2 && len(in.Problems) == 0 {
		bad.add("returns only when the goal is met, or only when it is not: %v", ways)
	}
	for _, p := range in.Panics {
		if !p.St.F.Inconsistent() {
			bad.add("%s: panics: %s", p.Pos, p.Why)
		}
	}
	return bad.l, in, products, tests
}

func (h *host) search() *ssa.Function {
	if p := h.p.Pkgs["breadthfirst"]; p != nil {
		return p.Func("Search")
	}
	return nil
}

func init() {
	register(&Check{ID: "C21", Level: "proof", MinObs: 2,
		Rules: "search in levels: on every path each round multiplies the graph with the level before, masked by what was visited, into an empty vector; the goal is tested once on the level that results, and ends the search with it; otherwise the level is added to the visited vertices and is the next to multiply, for as many rounds as there are vertices",
		Run: func(r *Report) {
			const rule = "search in levels"
			h := newHost(r, r.Prog)
			if h.search() == nil || h.rootFunc("MatrixVectorMultiply") == nil {
				r.Undecided(rule, "Search", "", "the function is gone")
				return
			}
			for _, sp := range []bool{false, true} {
				sp, name := sp, fmt.Sprintf("Search(%s)", map[bool]string{false: "dense", true: "sparse"}[sp])
				r.Job(rule, name, func(r *Report) {
					why, in, p, t := h.searchCase(h.search(), sp, false)
					r.Count("products", p)
					r.Count("goal tests", t)
					if p == 0 || t == 0 {
						why = append(why, "there is no product or no test of the goal")
					}
					settle(r, in, rule, name, h.p.pos(h.search().Pos()), why, "masked product of the level before, goal test, union into what is visited, for as many rounds as there are vertices")
				})
			}
		}})
}
