package dom

import (
	"fmt"
	"sort"
	"strings"
)

// Clause is a disjunction of conjunctions.
type Clause [][]Lit

func (c Clause) String() string {
	var ds []string
	for _, d := range c {
		var ls []string
		for _, l := range d {
			ls = append(ls, l.String())
		}
		ds = append(ds, strings.Join(ls, " & "))
	}
	return strings.Join(ds, " | ")
}

// Quant is a universally quantified clause: for all Vars, Guard implies Body. It is instantiated
// where all of its trigger atoms match atoms at hand.
type Quant struct {
	Vars  []*Atom
	Trig  []*Atom
	Guard []Lit
	Body  Clause
	New   bool // its instances may contain array elements that are not at hand
}

func (q *Quant) String() string {
	var g []string
	for _, l := range q.Guard {
		g = append(g, l.String())
	}
	return fmt.Sprintf("forall %v: %s => %s", q.Vars, strings.Join(g, " & "), q.Body)
}

// Subst replaces atoms in the quantified clause.
// Has reports whether the atom occurs in it.
func (q *Quant) Has(a *Atom) bool {
	for _, l := range q.Guard {
		if l.Has(a) {
			return true
		}
	}
	for _, d := range q.Body {
		for _, l := range d {
			if l.Has(a) {
				return true
			}
		}
	}
	return false
}

func (q *Quant) Subst(s Subst) *Quant {
	out := &Quant{Vars: q.Vars, New: q.New}
	for _, t := range q.Trig {
		if a := t.Subst(s).AsAtom(); a != nil {
			out.Trig = append(out.Trig, a)
		}
	}
	for _, l := range q.Guard {
		out.Guard = append(out.Guard, l.Subst(s))
	}
	out.Body = q.Body.Subst(s)
	return out
}

// Subst replaces atoms in the clause.
func (c Clause) Subst(s Subst) Clause {
	var out Clause
	for _, d := range c {
		var e []Lit
		for _, l := range d {
			e = append(e, l.Subst(s))
		}
		out = append(out, e)
	}
	return out
}

// Facts are what is known on a path.
type Facts struct {
	Lits    []Lit
	Clauses []Clause
	Quants  []*Quant
	have    map[Lit]bool
	cache   map[Lit]bool
}

// NewFacts is the empty set of facts.
func NewFacts() *Facts { return &Facts{have: map[Lit]bool{}, cache: map[Lit]bool{}} }

// Clone copies the facts.
func (f *Facts) Clone() *Facts {
	g := &Facts{Lits: f.Lits[:len(f.Lits):len(f.Lits)], Clauses: f.Clauses[:len(f.Clauses):len(f.Clauses)],
		Quants: f.Quants[:len(f.Quants):len(f.Quants)], have: map[Lit]bool{}, cache: map[Lit]bool{}}
	for k := range f.have {
		g.have[k] = true
	}
	for k, v := range f.cache {
		if v { // what is entailed stays entailed
			g.cache[k] = true
		}
	}
	return g
}

func (f *Facts) changed() {
	for k, v := range f.cache {
		if !v {
			delete(f.cache, k)
		}
	}
}

// Add adds literals.
func (f *Facts) Add(ls ...Lit) *Facts {
	for _, l := range ls {
		if l.Op == Yes || f.have[l] {
			continue
		}
		f.have[l] = true
		f.Lits = append(f.Lits, l)
	}
	f.changed()
	return f
}

// AddClause adds a clause.
func (f *Facts) AddClause(c Clause) *Facts {
	var d Clause
	for _, x := range c {
		var y []Lit
		dead := false
		for _, l := range x {
			switch {
			case l.Op == No || f.have[l.Not()]:
				dead = true
			case l.Op == Yes || f.have[l]:
			default:
				y = append(y, l)
			}
		}
		if dead {
			continue
		}
		if len(y) == 0 {
			return f
		}
		d = append(d, y)
	}
	switch len(d) {
	case 0:
		f.Add(Lit{Op: No})
	case 1:
		f.Add(d[0]...)
	default:
		f.Clauses = append(f.Clauses, d)
		f.changed()
	}
	return f
}

// AddQuant adds a quantified clause.
func (f *Facts) AddQuant(q *Quant) *Facts { f.Quants = append(f.Quants, q); f.changed(); return f }

// Subst replaces atoms in all facts.
func (f *Facts) Subst(s Subst) *Facts {
	g := NewFacts()
	for _, l := range f.Lits {
		g.Add(l.Subst(s))
	}
	for _, c := range f.Clauses {
		g.AddClause(c.Subst(s))
	}
	for _, q := range f.Quants {
		g.AddQuant(q.Subst(s))
	}
	return g
}

// Queries counts the entailment tests, LPs the linear programs solved for them.
var Queries, LPs int

// Budget bounds the linear programs of one entailment test.
// NonNeg are the names of symbols that are not negative: how often loops have gone round.
var NonNeg = map[string]bool{}

var Budget = 8000

// Entails reports whether the facts imply the literal.
func (f *Facts) Entails(l Lit) bool {
	switch l.Op {
	case Yes:
		return true
	}
	if f.have[l] {
		return true
	}
	k := l
	if v, ok := f.cache[k]; ok {
		return v
	}
	v := f.unsat([]Lit{l.Not()})
	f.cache[k] = v
	return v
}

// EntailsAll reports whether the facts imply all of the literals.
func (f *Facts) EntailsAll(ls []Lit) bool {
	for _, l := range ls {
		if !f.Entails(l) {
			return false
		}
	}
	return true
}

// Contradicts reports whether the facts together with the literals are contradictory.
func (f *Facts) Contradicts(ls ...Lit) bool {
	if len(ls) == 1 {
		return f.Entails(ls[0].Not())
	}
	return f.unsat(ls)
}

// Inconsistent reports whether the facts contradict each other.
func (f *Facts) Inconsistent() bool { return f.unsat(nil) }

// EqInt reports whether the facts imply a == b.
func (f *Facts) EqInt(a, b *Poly) bool { return f.Entails(Same(a, b)) }

// EqElem reports whether the facts imply a == b.
func (f *Facts) EqElem(a, b *Poly) bool { return f.Entails(EEqL(a.Sub(b))) }

type solver struct {
	f       *Facts
	budget  int
	intOnly bool
	clauses []Clause
	seen    map[string]bool // instances generated
	atoms   []*Atom         // in the literals and clauses
	lp      *lp
	have    map[Lit]bool
}

func isElemLit(l Lit) bool { return l.Op == EEq || l.Op == ENe || l.Op == EGt || l.Op == EGe }

func (f *Facts) unsat(extra []Lit) bool {
	Queries++
	intOnly := len(extra) > 0
	for _, l := range extra {
		if isElemLit(l) || l.Op == Tru || l.Op == Fls {
			intOnly = false
		}
	}
	return f.unsatIn(extra, intOnly, Budget)
}

func (f *Facts) unsatIn(extra []Lit, intOnly bool, budget int) bool {
	s := &solver{f: f, budget: budget, intOnly: intOnly, seen: map[string]bool{}, lp: newLP(), have: map[Lit]bool{}}
	lits := append(f.Lits[:len(f.Lits):len(f.Lits)], extra...)
	s.clauses = append(s.clauses, f.Clauses...)
	s.instantiate(lits)
	seen := map[int]bool{}
	add := func(l Lit) {
		for _, a := range l.Atoms() {
			if !seen[a.ID] {
				seen[a.ID] = true
				s.atoms = append(s.atoms, a)
			}
		}
	}
	for _, l := range lits {
		add(l)
	}
	for _, c := range s.clauses {
		for _, d := range c {
			for _, l := range d {
				add(l)
			}
		}
	}
	return s.search(lits, 0, s.clauses)
}

// instantiate adds the instances of the quantified facts and of the built-in axioms.
func (s *solver) instantiate(lits []Lit) {
	atomSet := map[int]*Atom{}
	addAtoms := func(as []*Atom) {
		for _, a := range as {
			atomSet[a.ID] = a
		}
	}
	for _, l := range lits {
		addAtoms(l.Atoms())
	}
	for _, c := range s.clauses {
		for _, d := range c {
			for _, l := range d {
				addAtoms(l.Atoms())
			}
		}
	}
	for round := 0; round < 2; round++ {
		byHead := map[string][]*Atom{}
		ids := make([]int, 0, len(atomSet))
		for id := range atomSet {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			a := atomSet[id]
			h := a.Name + string(rune('0'+a.Kind))
			byHead[h] = append(byHead[h], a)
		}
		grew := false
		for qi, q := range s.f.Quants {
			s.match(q, 0, Subst{}, byHead, func(sub Subst) {
				key := fmt.Sprint(qi)
				for _, v := range q.Vars {
					if sub[v] == nil {
						return
					}
					key += "," + fmt.Sprint(sub[v].ID)
				}
				if s.seen[key] {
					return
				}
				s.seen[key] = true
				var c Clause
				for _, g := range q.Guard {
					g = g.Subst(sub).Not()
					if g.Op == Yes {
						return
					}
					if g.Op != No {
						c = append(c, []Lit{g})
					}
				}
				for _, d := range q.Body {
					var e []Lit
					for _, l := range d {
						e = append(e, l.Subst(sub))
					}
					c = append(c, e)
				}
				if !q.New {
					for _, d := range c {
						for _, l := range d {
							for _, a := range l.Atoms() {
								if a.Kind == Sel && atomSet[a.ID] == nil {
									return
								}
							}
						}
					}
				}
				s.clauses = append(s.clauses, c)
				for _, d := range c {
					for _, l := range d {
						for _, a := range l.Atoms() {
							if atomSet[a.ID] == nil {
								atomSet[a.ID] = a
								grew = true
							}
						}
					}
				}
			})
		}
		if !grew {
			break
		}
	}
	// quotients and remainders
	ids := make([]int, 0, len(atomSet))
	for id := range atomSet {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	prods := map[string][]*Atom{}
	for _, id := range ids {
		a := atomSet[id]
		if a.Sort != Int {
			continue
		}
		switch a.Kind {
		case Div, Mod:
			x, y := a.Args[0], a.Args[1]
			q, m := MkDiv(x, y), MkMod(x, y)
			nonneg := GeL(x).Not()
			pos := GeL(y.AddC(-1)).Not()
			c := Clause{{nonneg}, {pos}, {GeL(m), GeL(y.AddC(-1).Sub(m)), EqL(q.Mul(y).Add(m).Sub(x)), GeL(q)}}
			s.clauses = append(s.clauses, c)
		case Sym:
			if NonNeg[a.Name] {
				if l := GeL(P(a)); !s.f.have[l] {
					s.clauses = append(s.clauses, Clause{{l}})
				}
			}
		}
	}
	collect := func(p *Poly) {
		if p == nil || p.Sort != Int {
			return
		}
		for _, t := range p.Terms {
			if len(t.Mono) == 2 {
				prods[monoKey(t.Mono)] = t.Mono
			}
		}
	}
	for _, l := range lits {
		collect(l.P)
	}
	for _, c := range s.clauses {
		for _, d := range c {
			for _, l := range d {
				collect(l.P)
			}
		}
	}
	var pk []string
	for k := range prods {
		pk = append(pk, k)
	}
	sort.Strings(pk)
	for i, k := range pk {
		m := prods[k]
		x, y := P(m[0]), P(m[1])
		xy := x.Mul(y)
		s.clauses = append(s.clauses,
			Clause{{GeL(x).Not()}, {GeL(y).Not()}, {GeL(xy)}},
			Clause{{GeL(x.AddC(-1)).Not()}, {GeL(y).Not()}, {Le(y, xy)}},
			Clause{{GeL(y.AddC(-1)).Not()}, {GeL(x).Not()}, {Le(x, xy)}},
			Clause{{NeL(x)}, {EqL(xy)}}, Clause{{NeL(y)}, {EqL(xy)}})
		for _, k2 := range pk[i+1:] {
			n := prods[k2]
			for a := 0; a < 2; a++ {
				for b := 0; b < 2; b++ {
					if m[a] != n[b] {
						continue
					}
					c, u, v := P(m[a]), P(m[1-a]), P(n[1-b])
					uc, vc := u.Mul(c), v.Mul(c)
					s.clauses = append(s.clauses,
						Clause{{GeL(c).Not()}, {Lt(u, v), Le(uc.Add(c), vc)}, {Lt(v, u), Le(vc.Add(c), uc)}, {EqL(u.Sub(v)), EqL(uc.Sub(vc))}})
				}
			}
		}
	}
}

func (s *solver) match(q *Quant, i int, sub Subst, byHead map[string][]*Atom, k func(Subst)) {
	if i == len(q.Trig) {
		k(sub)
		return
	}
	t := q.Trig[i]
	for _, g := range byHead[t.Name+string(rune('0'+t.Kind))] {
		if len(g.Args) != len(t.Args) {
			continue
		}
		m := Subst{}
		for k, v := range sub {
			m[k] = v
		}
		ok := true
		for j, pat := range t.Args {
			if !unify(pat.Subst(m), g.Args[j], q.Vars, m) {
				ok = false
				break
			}
		}
		if ok {
			s.match(q, i+1, m, byHead, k)
		}
	}
}

// unify solves pat == g for the one variable in pat; a pattern without variable always matches when
// it is the same term, and otherwise does not match.
func unify(pat, g *Poly, vars []*Atom, m Subst) bool {
	for _, v := range vars {
		if m[v] != nil || !pat.Has(v) {
			continue
		}
		c, else_ := pat.Coef(v)
		if else_ || (c != 1 && c != -1) {
			return false
		}
		rest := pat.Sub(P(v).Scale(c))
		for _, w := range vars {
			if rest.Has(w) {
				return false
			}
		}
		m[v] = g.Sub(rest).Scale(c)
		return true
	}
	return pat == g
}

// search reports whether the literals and clauses are unsatisfiable.
// search reports whether the literals and clauses are contradictory. The literals before the n0-th are
// asserted already.
func (s *solver) search(lits []Lit, n0 int, clauses []Clause) bool {
	if s.budget <= 0 {
		return false
	}
	s.budget--
	have := s.have
	var added []Lit
	base, mark := s.lp, s.lp.mark()
	defer func() {
		for _, x := range added {
			delete(have, x)
		}
		if s.lp == base {
			s.lp.undo(mark)
			return
		}
		// it was built anew
		old := s.lp.asked
		s.lp = newLP()
		s.lp.asked = append(s.lp.asked, old[:mark.asked]...)
		s.lp.broken = true
	}()
	for _, x := range lits[n0:] {
		if x.Op == No || have[x.Not()] {
			return true
		}
		if x.Op == Yes || have[x] {
			continue
		}
		have[x] = true
		added = append(added, x)
		if x.Op == Ge || x.Op == Eq {
			if !s.assert(x.P, x.Op == Eq) {
				return true
			}
		}
	}
	LPs++
	m, ok := s.solve()
	if !ok {
		return false
	}
	if m == nil {
		return true
	}
	var nes []Lit
	for _, x := range lits {
		if x.Op == Ne {
			nes = append(nes, x)
		}
	}
	if !s.intOnly && s.elemConflict(lits, clauses, m) {
		return true
	}
	// a clause without a literal that holds in the model
	truth := func(x Lit) (known, v bool) {
		if have[x] {
			return true, true
		}
		if have[x.Not()] {
			return true, false
		}
		switch x.Op {
		case Yes:
			return true, true
		case No:
			return true, false
		case Ge, Eq, Ne:
			r, ok := m.eval(x.P)
			if !ok {
				return false, false
			}
			switch x.Op {
			case Ge:
				return false, r.n >= 0
			case Eq:
				return false, r.n == 0
			}
			return false, r.n != 0
		}
		return false, false
	}
	var best Clause
	var rest []Clause
	for _, c := range clauses {
		holds := false
		skip := false
		var open Clause
		for _, d := range c {
			all, dead := true, false
			for _, x := range d {
				known, v := truth(x)
				if !v {
					all = false
					if known {
						dead = true
					}
					if !known && s.intOnly && (isElemLit(x) || x.Op == Tru || x.Op == Fls) {
						skip = true
					}
				} else if !known {
					// holds in this model only
					if isElemLit(x) {
						all = false
					}
				}
			}
			if all {
				holds = true
				break
			}
			if !dead {
				open = append(open, d)
			}
		}
		known := false
		for _, d := range c { // entailed for good: drop
			k := true
			for _, x := range d {
				if !have[x] {
					k = false
				}
			}
			if k {
				known = true
			}
		}
		if known {
			continue
		}
		rest = append(rest, c)
		if holds || skip {
			continue
		}
		if len(open) == 0 {
			return true
		}
		if best == nil || len(open) < len(best) {
			best = open
		}
	}
	for _, x := range nes {
		if m.eval0(x.P).n != 0 {
			continue
		}
		c := Clause{{GeL(x.P.AddC(-1))}, {GeL(x.P.Neg().AddC(-1))}}
		if best == nil || len(c) < len(best) {
			best = c
		}
	}
	if best == nil || len(best) > 1 {
		if c := s.congruence(lits, m); c != nil && (best == nil || len(c) < len(best)) {
			best = c
		}
	}
	if best == nil {
		return false
	}
	for _, d := range best {
		if !s.search(append(lits[:len(lits):len(lits)], d...), len(lits), rest) {
			return false
		}
	}
	return true
}

// congruence finds two applications of a function that the model gives equal arguments and different
// values; the clause says that this cannot be.
func (s *solver) congruence(lits []Lit, m *model) (best Clause) {
	type app struct {
		a   *Atom
		pos int // 1 true, -1 false, 0 number
	}
	groups := map[string][]app{}
	seen := map[int]bool{}
	var names []string
	add := func(a *Atom, pos int) {
		if len(a.Args) == 0 || a.Kind != App && a.Kind != Sel && a.Kind != Sym {
			return
		}
		if len(groups[a.Name]) == 0 {
			names = append(names, a.Name)
		}
		groups[a.Name] = append(groups[a.Name], app{a, pos})
	}
	for _, l := range lits {
		switch l.Op {
		case Tru:
			add(l.A, 1)
		case Fls:
			add(l.A, -1)
		}
	}
	for _, a := range s.atoms {
		if a.Sort == Int && !seen[a.ID] {
			seen[a.ID] = true
			add(a, 0)
		}
	}
	for _, n := range names {
		g := groups[n]
	pair:
		for i, x := range g {
			for _, y := range g[:i] {
				if x.a == y.a || len(x.a.Args) != len(y.a.Args) || x.a.Kind != y.a.Kind || x.pos == y.pos && x.pos != 0 || (x.pos == 0) != (y.pos == 0) {
					continue
				}
				if x.pos == 0 {
					if m.eval0(P(x.a).Sub(P(y.a))).n == 0 {
						continue
					}
				}
				var c Clause
				eq := true
				for k := range x.a.Args {
					p, q := x.a.Args[k], y.a.Args[k]
					if p == q {
						continue
					}
					if p.Sort != Int {
						eq = false
						break
					}
					if m.eval0(p.Sub(q)).n != 0 {
						eq = false
						break
					}
					c = append(c, []Lit{Lt(p, q)}, []Lit{Lt(q, p)})
				}
				if !eq {
					continue
				}
				if x.pos == 0 {
					c = append(c, []Lit{Same(P(x.a), P(y.a))})
				}
				if best == nil || len(c) < len(best) {
					best = c
				}
				if len(best) <= 3 {
					break pair
				}
			}
		}
	}
	return best
}

// intEq reports whether the literals imply a == b over the integers.
func (s *solver) intEq(lits []Lit, clauses []Clause, m *model, a, b *Poly) bool {
	if a == b {
		return true
	}
	d := a.Sub(b)
	if n, ok := d.IsConst(); ok {
		return n == 0
	}
	if v, ok := m.eval(d); ok && v.n != 0 {
		return false
	}
	budget, intOnly := s.budget, s.intOnly
	defer func() { s.budget, s.intOnly = budget, intOnly }()
	s.intOnly = true
	for _, x := range []Lit{GeL(d.AddC(-1)), GeL(d.Neg().AddC(-1))} {
		s.budget = 40
		if !s.search(append(lits[:len(lits):len(lits)], x), len(lits), clauses) {
			return false
		}
	}
	return true
}

// assert asserts a literal in the tableau.
func (s *solver) assert(p *Poly, eq bool) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(lpOverflow); !is {
				panic(e)
			}
			s.lp.broken, ok = true, true
		}
	}()
	if s.lp.broken {
		s.lp.asked = append(s.lp.asked, asked{p, eq})
		return true
	}
	return s.lp.add(p, eq)
}

// solve solves the tableau, building it anew when it overflowed.
func (s *solver) solve() (*model, bool) {
	if !s.lp.broken {
		if m, ok := s.lp.solve(); ok {
			return m, true
		}
	}
	n := s.lp.rebuilt()
	if n == nil {
		return nil, false
	}
	s.lp = n
	if n.clash {
		return nil, true
	}
	m, ok := n.solve()
	return m, ok
}

// elemConflict looks for a contradiction among the element literals by congruence and rewriting.
func (s *solver) elemConflict(lits []Lit, clauses []Clause, m *model) bool {
	var eqs, nes []*Poly
	for _, x := range lits {
		switch x.Op {
		case EEq:
			eqs = append(eqs, x.P)
		case ENe:
			nes = append(nes, x.P)
		}
	}
	if len(nes) == 0 && len(eqs) == 0 {
		return false
	}
	rep := Subst{}
	atomSet := map[int]*Atom{}
	for _, p := range append(append([]*Poly{}, eqs...), nes...) {
		for _, a := range p.Atoms() {
			if a.Sort == Elem {
				atomSet[a.ID] = a
			}
		}
	}
	var list []*Atom
	for _, a := range atomSet {
		list = append(list, a)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
	intEq := func(a, b *Poly) bool { return s.intEq(lits, clauses, m, a, b) }
	norm := func(p *Poly) *Poly {
		for i := 0; i < 20; i++ {
			q := p.Subst(rep)
			if q == p {
				break
			}
			p = q
		}
		return p
	}
	conflict := func() bool {
		for _, p := range nes {
			if norm(p).Zero() {
				return true
			}
		}
		for _, p := range eqs {
			if n, ok := norm(p).IsConst(); ok && n != 0 {
				return true
			}
		}
		return false
	}
	same := func(a, b *Atom) bool {
		if a.Kind != b.Kind || a.Name != b.Name || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
			return false
		}
		for i := range a.Args {
			x, y := a.Args[i], b.Args[i]
			if x.Sort == Int {
				if !intEq(x, y) {
					return false
				}
			} else {
				d := norm(x.Sub(y))
				if !d.Zero() && !s.zeroByUnion(d, intEq) {
					return false
				}
			}
		}
		return true
	}
	for round := 0; round < 6; round++ {
		n := len(rep)
		for i, a := range list {
			for _, b := range list[:i] {
				if a.Kind != b.Kind || a.Name != b.Name {
					continue
				}
				if d := norm(P(a).Sub(P(b))); !d.Zero() && same(a, b) {
					eqs = append(eqs, P(a).Sub(P(b)))
					break
				}
			}
		}
		for _, p := range eqs {
			q := norm(p)
			if q.Zero() {
				continue
			}
			var pick *Atom
			var c int64
			for _, t := range q.Terms {
				if len(t.Mono) != 1 || (t.Coef != 1 && t.Coef != -1) {
					continue
				}
				a := t.Mono[0]
				if _, elsewhere := q.Coef(a); elsewhere {
					continue
				}
				if pick == nil || a.ID > pick.ID {
					pick, c = a, t.Coef
				}
			}
			if pick != nil {
				rep[pick] = P(pick).Sub(q.Scale(c))
			}
		}
		if conflict() {
			return true
		}
		if len(rep) == n {
			break
		}
	}
	return false
}

// zeroByUnion reports whether a difference vanishes once atoms with equal arguments are identified.
func (s *solver) zeroByUnion(d *Poly, intEq func(a, b *Poly) bool) bool {
	var list []*Atom
	for _, a := range d.Atoms() {
		if a.Sort == Elem && a.Kind != Sum && len(a.Args) > 0 {
			list = append(list, a)
		}
	}
	for i, a := range list {
		for _, b := range list[:i] {
			if a.Kind != b.Kind || a.Name != b.Name || len(a.Args) != len(b.Args) {
				continue
			}
			eq := true
			for k := range a.Args {
				if a.Args[k].Sort != Int || !intEq(a.Args[k], b.Args[k]) {
					eq = false
					break
				}
			}
			if eq {
				d = d.Subst(Subst{a: P(b)})
				if d.Zero() {
					return true
				}
				break
			}
		}
	}
	return false
}
