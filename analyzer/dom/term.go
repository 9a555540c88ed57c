// Package dom is the abstract domain of the interpreter: hash-consed terms, literals over them, and
// the entailment test of a relational domain of linear inequalities with array and ring terms.
package dom

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is the sort of a term.
type Sort uint8

const (
	Int  Sort = iota // indices and counts: mathematical integers
	Elem             // elements: a commutative ring
	Bool             // opaque truth values
)

// Kind distinguishes atoms.
type Kind uint8

const (
	Sym Kind = iota // a symbol, perhaps depending on arguments
	Sel             // an element of a named array or matrix
	Sum             // sum of Args[1] for the bound variable from 0 to Args[0]
	Div             // truncated quotient
	Mod             // remainder
	App             // application of an opaque function
	BV              // the bound variable of a Sum
)

// Atom is a hash-consed indivisible term.
type Atom struct {
	ID    int
	Kind  Kind
	Name  string
	Sort  Sort
	Args  []*Poly
	depth int
	all   map[int]bool // the atoms in it, itself included
}

// Term is a coefficient times a product of atoms.
type Term struct {
	Mono []*Atom
	Coef int64
}

// Poly is a hash-consed polynomial over atoms: an Int or an Elem.
type Poly struct {
	ID    int
	Sort  Sort
	Terms []Term
	all   map[int]bool // lazily
	depth int
	neg   *Poly // memo of Neg
	not   *Poly // memo of -p-1
}

var (
	atoms    = map[string]*Atom{}
	atomByID []*Atom
	polys    = map[string]*Poly{}
	npoly    int
	nfresh   int
)

func argKey(args []*Poly) string {
	var b strings.Builder
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	return b.String()
}

func mkAtom(k Kind, s Sort, name string, args []*Poly) *Atom {
	key := string(rune('0'+k)) + string(rune('0'+s)) + name + argKey(args)
	if a := atoms[key]; a != nil {
		return a
	}
	a := &Atom{ID: len(atomByID), Kind: k, Name: name, Sort: s, Args: args, all: map[int]bool{}}
	a.all[a.ID] = true
	for _, p := range args {
		for id := range p.atomSet() {
			a.all[id] = true
		}
		if p.depth > a.depth {
			a.depth = p.depth
		}
	}
	if k == Sum {
		a.depth++
	}
	atoms[key] = a
	atomByID = append(atomByID, a)
	return a
}

// S is the symbol of that name and sort, depending on args.
func S(sort Sort, name string, args ...*Poly) *Poly { return P(mkAtom(Sym, sort, name, args)) }

// SA is the symbol as an atom.
func SA(sort Sort, name string, args ...*Poly) *Atom { return mkAtom(Sym, sort, name, args) }

// Fresh is a new symbol.
func Fresh(sort Sort, name string) *Atom {
	nfresh++
	return mkAtom(Sym, sort, fmt.Sprintf("%s!%d", name, nfresh), nil)
}

// Select is an element of an array or a matrix.
func Select(sort Sort, base string, idx ...*Poly) *Poly { return P(mkAtom(Sel, sort, base, idx)) }

// Apply is an opaque function of its arguments.
func Apply(sort Sort, f string, args ...*Poly) *Poly { return P(mkAtom(App, sort, f, args)) }

// Pred is an opaque predicate of its arguments.
func Pred(name string, args ...*Poly) *Atom { return mkAtom(App, Bool, name, args) }

// P is the polynomial of one atom.
func P(a *Atom) *Poly { return mk(a.Sort, []Term{{Mono: []*Atom{a}, Coef: 1}}) }

// C is a constant.
func C(sort Sort, n int64) *Poly {
	if n == 0 {
		return mk(sort, nil)
	}
	return mk(sort, []Term{{Coef: n}})
}

// I is an integer constant.
func I(n int64) *Poly { return C(Int, n) }

func monoKey(m []*Atom) string {
	var b []byte
	for _, a := range m {
		b = strconv.AppendInt(b, int64(a.ID), 10)
		b = append(b, '*')
	}
	return string(b)
}

var (
	monos  = map[string]int{}
	nmonos int
)

// monoID identifies a monomial.
func monoID(m []*Atom) int {
	switch len(m) {
	case 0:
		return 0
	case 1:
		return m[0].ID + 1
	}
	k := monoKey(m)
	if i, ok := monos[k]; ok {
		return i
	}
	nmonos--
	monos[k] = nmonos
	return nmonos
}

func lessMono(a, b []*Atom) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].ID != b[i].ID {
			return a[i].ID < b[i].ID
		}
	}
	return false
}

// mk makes the polynomial with the terms, in any order.
func mk(s Sort, ts []Term) *Poly {
	sorted := true
	for i, t := range ts {
		if t.Coef == 0 || i > 0 && !lessMono(ts[i-1].Mono, t.Mono) {
			sorted = false
			break
		}
	}
	if sorted {
		return intern(s, ts)
	}
	m := map[int]int{}
	var out []Term
	for _, t := range ts {
		k := monoID(t.Mono)
		if i, ok := m[k]; ok {
			out[i].Coef += t.Coef
		} else {
			m[k] = len(out)
			out = append(out, t)
		}
	}
	n := 0
	for _, t := range out {
		if t.Coef != 0 {
			out[n] = t
			n++
		}
	}
	out = out[:n]
	sort.Slice(out, func(i, j int) bool { return lessMono(out[i].Mono, out[j].Mono) })
	return intern(s, out)
}

// intern makes the polynomial with the sorted terms.
func intern(s Sort, out []Term) *Poly {
	var buf [96]byte
	key := append(buf[:0], byte(s))
	for _, t := range out {
		key = binary.AppendVarint(key, t.Coef)
		key = binary.AppendVarint(key, int64(monoID(t.Mono)))
	}
	if p := polys[string(key)]; p != nil {
		return p
	}
	p := &Poly{ID: npoly, Sort: s, Terms: out}
	npoly++
	for _, t := range out {
		for _, a := range t.Mono {
			if a.depth > p.depth {
				p.depth = a.depth
			}
		}
	}
	polys[string(key)] = p
	return p
}

// atomSet is the atoms in the polynomial.
func (p *Poly) atomSet() map[int]bool {
	if p.all == nil {
		p.all = map[int]bool{}
		for _, t := range p.Terms {
			for _, a := range t.Mono {
				for id := range a.all {
					p.all[id] = true
				}
			}
		}
	}
	return p.all
}

// Add is the sum.
func (p *Poly) Add(q *Poly) *Poly {
	a, b := p.Terms, q.Terms
	switch {
	case len(a) == 0 && p.Sort == q.Sort:
		return q
	case len(b) == 0:
		return p
	}
	out := make([]Term, 0, len(a)+len(b))
	for len(a) > 0 || len(b) > 0 {
		switch {
		case len(b) == 0 || len(a) > 0 && lessMono(a[0].Mono, b[0].Mono):
			out = append(out, a[0])
			a = a[1:]
		case len(a) == 0 || lessMono(b[0].Mono, a[0].Mono):
			out = append(out, b[0])
			b = b[1:]
		default:
			if c := a[0].Coef + b[0].Coef; c != 0 {
				out = append(out, Term{a[0].Mono, c})
			}
			a, b = a[1:], b[1:]
		}
	}
	return intern(p.Sort, out)
}

// Scale is the multiple.
func (p *Poly) Scale(n int64) *Poly {
	ts := make([]Term, len(p.Terms))
	for i, t := range p.Terms {
		ts[i] = Term{t.Mono, t.Coef * n}
	}
	return mk(p.Sort, ts)
}

// Sub is the difference.
func (p *Poly) Sub(q *Poly) *Poly { return p.Add(q.Neg()) }

// Neg is the negation.
func (p *Poly) Neg() *Poly {
	if p.neg == nil {
		p.neg = p.Scale(-1)
	}
	return p.neg
}

// Not is -p-1.
func (p *Poly) notGe() *Poly {
	if p.not == nil {
		p.not = p.Neg().AddC(-1)
	}
	return p.not
}

// AddC adds a constant.
func (p *Poly) AddC(n int64) *Poly { return p.Add(C(p.Sort, n)) }

// Mul is the product.
func (p *Poly) Mul(q *Poly) *Poly {
	var ts []Term
	for _, a := range p.Terms {
		for _, b := range q.Terms {
			m := append(append([]*Atom{}, a.Mono...), b.Mono...)
			sort.Slice(m, func(i, j int) bool { return m[i].ID < m[j].ID })
			ts = append(ts, Term{m, a.Coef * b.Coef})
		}
	}
	return mk(p.Sort, ts)
}

// IsConst reports whether p is a constant, and which.
func (p *Poly) IsConst() (int64, bool) {
	if len(p.Terms) == 0 {
		return 0, true
	}
	if len(p.Terms) == 1 && len(p.Terms[0].Mono) == 0 {
		return p.Terms[0].Coef, true
	}
	return 0, false
}

// Zero reports whether p is 0.
func (p *Poly) Zero() bool { return len(p.Terms) == 0 }

// AsAtom is the atom p consists of, or nil.
func (p *Poly) AsAtom() *Atom {
	if len(p.Terms) == 1 && p.Terms[0].Coef == 1 && len(p.Terms[0].Mono) == 1 {
		return p.Terms[0].Mono[0]
	}
	return nil
}

// Has reports whether the atom occurs in p.
func (p *Poly) Has(a *Atom) bool { return p.atomSet()[a.ID] }

// Has reports whether b occurs in a.
func (a *Atom) Has(b *Atom) bool { return a.all[b.ID] }

// Atoms are all atoms in p, nested ones included.
func (p *Poly) Atoms() []*Atom {
	ids := make([]int, 0, len(p.atomSet()))
	for id := range p.atomSet() {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	out := make([]*Atom, len(ids))
	for i, id := range ids {
		out[i] = atomByID[id]
	}
	return out
}

// Atoms are all atoms in a, itself included.
func (a *Atom) Atoms() []*Atom {
	ids := make([]int, 0, len(a.all))
	for id := range a.all {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	out := make([]*Atom, len(ids))
	for i, id := range ids {
		out[i] = atomByID[id]
	}
	return out
}

// Coef is the coefficient of the atom in p where it stands alone, and whether it occurs elsewhere in p.
func (p *Poly) Coef(a *Atom) (c int64, elsewhere bool) {
	for _, t := range p.Terms {
		if len(t.Mono) == 1 && t.Mono[0] == a {
			c = t.Coef
			continue
		}
		for _, m := range t.Mono {
			if m.Has(a) {
				elsewhere = true
			}
		}
	}
	return
}

// Subst maps atoms to polynomials.
type Subst map[*Atom]*Poly

// Subst replaces atoms, everywhere.
func (p *Poly) Subst(s Subst) *Poly {
	hit := false
	for a := range s {
		if p.Has(a) {
			hit = true
			break
		}
	}
	if !hit {
		return p
	}
	out := C(p.Sort, 0)
	for _, t := range p.Terms {
		q := C(p.Sort, t.Coef)
		for _, a := range t.Mono {
			q = q.Mul(a.Subst(s))
		}
		out = out.Add(q)
	}
	return out
}

// Subst replaces atoms in the atom.
func (a *Atom) Subst(s Subst) *Poly {
	if q, ok := s[a]; ok {
		return q
	}
	hit := false
	for b := range s {
		if a.Has(b) {
			hit = true
			break
		}
	}
	if !hit {
		return P(a)
	}
	if a.Kind == Sum {
		bv := a.bound()
		return MkSum(I(0), a.Args[0].Subst(s), func(k *Poly) *Poly {
			tmp := Fresh(Int, "t")
			return a.Args[1].Subst(Subst{bv: P(tmp)}).Subst(s).Subst(Subst{tmp: k})
		})
	}
	args := make([]*Poly, len(a.Args))
	for i, x := range a.Args {
		args[i] = x.Subst(s)
	}
	switch a.Kind {
	case Div:
		return MkDiv(args[0], args[1])
	case Mod:
		return MkMod(args[0], args[1])
	}
	return P(mkAtom(a.Kind, a.Sort, a.Name, args))
}

func (a *Atom) bound() *Atom { return bvAtom(a.Args[1].depth + 1) }

func bvAtom(d int) *Atom { return mkAtom(BV, Int, "k"+strconv.Itoa(d), nil) }

// MkSum is the sum of body(k) for lo <= k < hi; it takes lo <= hi for granted.
func MkSum(lo, hi *Poly, body func(k *Poly) *Poly) *Poly {
	n := hi.Sub(lo)
	if c, ok := n.IsConst(); ok && c <= 0 {
		return C(Elem, 0)
	}
	tmp := Fresh(Int, "b")
	b := body(P(tmp).Add(lo))
	out := C(Elem, 0)
	for _, t := range b.Terms {
		var in, ex []*Atom
		for _, a := range t.Mono {
			if a.Has(tmp) {
				in = append(in, a)
			} else {
				ex = append(ex, a)
			}
		}
		f := mk(Elem, []Term{{ex, t.Coef}})
		if len(in) == 0 {
			out = out.Add(f.Mul(Apply(Elem, "ofInt", n)))
			continue
		}
		q := mk(Elem, []Term{{in, 1}})
		bv := bvAtom(q.depth + 1)
		out = out.Add(f.Mul(P(mkAtom(Sum, Elem, "", []*Poly{n, q.Subst(Subst{tmp: P(bv)})}))))
	}
	return out
}

// SumParts are the number of summands of a Sum atom and its summand at k.
func (a *Atom) SumParts(k *Poly) (n, body *Poly) {
	return a.Args[0], a.Args[1].Subst(Subst{a.bound(): k})
}

// MkDiv is the quotient.
func MkDiv(a, b *Poly) *Poly {
	if n, ok := b.IsConst(); ok && n != 0 {
		if m, ok := a.IsConst(); ok {
			return C(a.Sort, m/n)
		}
		if n == 1 {
			return a
		}
	}
	return P(mkAtom(Div, a.Sort, "", []*Poly{a, b}))
}

// MkMod is the remainder.
func MkMod(a, b *Poly) *Poly {
	if n, ok := b.IsConst(); ok && n != 0 {
		if m, ok := a.IsConst(); ok {
			return C(a.Sort, m%n)
		}
	}
	return P(mkAtom(Mod, a.Sort, "", []*Poly{a, b}))
}

func (a *Atom) String() string {
	var as []string
	for _, x := range a.Args {
		as = append(as, x.String())
	}
	l := strings.Join(as, ",")
	switch a.Kind {
	case Sel:
		return a.Name + "[" + l + "]"
	case Sum:
		return "sum(" + a.bound().Name + "<" + a.Args[0].String() + ": " + a.Args[1].String() + ")"
	case Div:
		return "(" + as[0] + "/" + as[1] + ")"
	case Mod:
		return "(" + as[0] + "%" + as[1] + ")"
	}
	if len(as) == 0 {
		return a.Name
	}
	return a.Name + "(" + l + ")"
}

func (p *Poly) String() string {
	if len(p.Terms) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, t := range p.Terms {
		c := t.Coef
		if c < 0 {
			b.WriteByte('-')
			c = -c
		} else if i > 0 {
			b.WriteByte('+')
		}
		if c != 1 || len(t.Mono) == 0 {
			b.WriteString(strconv.FormatInt(c, 10))
			if len(t.Mono) > 0 {
				b.WriteByte('*')
			}
		}
		for j, a := range t.Mono {
			if j > 0 {
				b.WriteByte('*')
			}
			b.WriteString(a.String())
		}
	}
	return b.String()
}

// Op is the relation of a literal.
type Op uint8

const (
	Ge  Op = iota // P >= 0, integers
	Eq            // P == 0, integers
	Ne            // P != 0, integers
	EEq           // P == 0, elements
	ENe           // P != 0, elements
	EGt           // P > 0, elements
	EGe           // P >= 0, elements
	Tru           // A
	Fls           // not A
	Yes           // true
	No            // false
)

// Lit is a literal.
type Lit struct {
	Op Op
	P  *Poly
	A  *Atom
}

// Not is the negation of the literal.
func (l Lit) Not() Lit {
	switch l.Op {
	case Ge:
		return GeL(l.P.notGe())
	case Eq:
		return NeL(l.P)
	case Ne:
		return EqL(l.P)
	case EEq:
		return ENeL(l.P)
	case ENe:
		return EEqL(l.P)
	case EGt:
		return Lit{Op: EGe, P: l.P.Neg()}
	case EGe:
		return Lit{Op: EGt, P: l.P.Neg()}
	case Tru:
		return Lit{Op: Fls, A: l.A}
	case Fls:
		return Lit{Op: Tru, A: l.A}
	case Yes:
		return Lit{Op: No}
	}
	return Lit{Op: Yes}
}

func yes(b bool) Lit {
	if b {
		return Lit{Op: Yes}
	}
	return Lit{Op: No}
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// content is the gcd of the non-constant coefficients, and the constant.
func content(p *Poly) (g, c int64) {
	for _, t := range p.Terms {
		if len(t.Mono) == 0 {
			c = t.Coef
		} else {
			g = gcd(g, t.Coef)
		}
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// GeL is p >= 0.
func GeL(p *Poly) Lit {
	if n, ok := p.IsConst(); ok {
		return yes(n >= 0)
	}
	if g, c := content(p); g > 1 {
		q := p.AddC(-c)
		ts := make([]Term, len(q.Terms))
		for i, t := range q.Terms {
			ts[i] = Term{t.Mono, t.Coef / g}
		}
		p = mk(Int, ts).AddC(floorDiv(c, g))
	}
	return Lit{Op: Ge, P: p}
}

func normEq(p *Poly) *Poly {
	if len(p.Terms) > 0 && p.Terms[len(p.Terms)-1].Coef < 0 {
		return p.Neg()
	}
	return p
}

// EqL is p == 0.
func EqL(p *Poly) Lit {
	if n, ok := p.IsConst(); ok {
		return yes(n == 0)
	}
	if g, c := content(p); g > 1 {
		if c%g != 0 {
			return Lit{Op: No}
		}
		ts := make([]Term, len(p.Terms))
		for i, t := range p.Terms {
			ts[i] = Term{t.Mono, t.Coef / g}
		}
		p = mk(Int, ts)
	}
	return Lit{Op: Eq, P: normEq(p)}
}

// NeL is p != 0.
func NeL(p *Poly) Lit {
	l := EqL(p)
	switch l.Op {
	case Yes:
		return Lit{Op: No}
	case No:
		return Lit{Op: Yes}
	}
	return Lit{Op: Ne, P: l.P}
}

// Lt is a < b, Le is a <= b, over the integers.
func Lt(a, b *Poly) Lit { return GeL(b.Sub(a).AddC(-1)) }
func Le(a, b *Poly) Lit { return GeL(b.Sub(a)) }

// Same is a == b over the integers.
func Same(a, b *Poly) Lit { return EqL(a.Sub(b)) }

// EEqL is p == 0 over the elements.
func EEqL(p *Poly) Lit {
	if n, ok := p.IsConst(); ok {
		return yes(n == 0)
	}
	return Lit{Op: EEq, P: normEq(p)}
}

// ENeL is p != 0 over the elements.
func ENeL(p *Poly) Lit {
	if n, ok := p.IsConst(); ok {
		return yes(n != 0)
	}
	return Lit{Op: ENe, P: normEq(p)}
}

// Truth is the literal of a predicate atom.
func Truth(a *Atom) Lit { return Lit{Op: Tru, A: a} }

// Subst replaces atoms in the literal.
func (l Lit) Subst(s Subst) Lit {
	if l.P == nil && l.A == nil {
		return l
	}
	switch l.Op {
	case Ge:
		return GeL(l.P.Subst(s))
	case Eq:
		return EqL(l.P.Subst(s))
	case Ne:
		return NeL(l.P.Subst(s))
	case EEq:
		return EEqL(l.P.Subst(s))
	case ENe:
		return ENeL(l.P.Subst(s))
	case EGt, EGe:
		return Lit{Op: l.Op, P: l.P.Subst(s)}
	case Tru, Fls:
		p := l.A.Subst(s)
		return Lit{Op: l.Op, A: p.AsAtom()}
	}
	return l
}

// Has reports whether the atom occurs in the literal.
func (l Lit) Has(a *Atom) bool {
	if l.P != nil {
		return l.P.Has(a)
	}
	return l.A != nil && l.A.Has(a)
}

// Atoms are the atoms in the literal.
func (l Lit) Atoms() []*Atom {
	if l.P != nil {
		return l.P.Atoms()
	}
	if l.A != nil {
		return l.A.Atoms()
	}
	return nil
}

// Key identifies the literal.
func (l Lit) Key() string {
	switch {
	case l.P != nil:
		return strconv.Itoa(int(l.Op)) + "p" + strconv.Itoa(l.P.ID)
	case l.A != nil:
		return strconv.Itoa(int(l.Op)) + "a" + strconv.Itoa(l.A.ID)
	}
	return strconv.Itoa(int(l.Op))
}

func (l Lit) String() string {
	switch l.Op {
	case Ge:
		return l.P.String() + ">=0"
	case Eq, EEq:
		return l.P.String() + "==0"
	case Ne, ENe:
		return l.P.String() + "!=0"
	case EGt:
		return l.P.String() + ">0"
	case EGe:
		return l.P.String() + ">=0"
	case Tru:
		return l.A.String()
	case Fls:
		return "!" + l.A.String()
	case Yes:
		return "true"
	}
	return "false"
}

// EGtL is p > 0 over the elements.
func EGtL(p *Poly) Lit {
	if n, ok := p.IsConst(); ok {
		return yes(n > 0)
	}
	return Lit{Op: EGt, P: p}
}

// Mark is a state of the term tables to go back to.
type Mark struct{ atoms, polys, fresh int }

// MarkNow is the present state of the term tables.
func MarkNow() Mark { return Mark{len(atomByID), npoly, nfresh} }

// Reset forgets the terms made since the mark, so that one analysis does not depend on those before
// it. No term made since may be in use.
func Reset(m Mark) {
	for k, a := range atoms {
		if a.ID >= m.atoms {
			delete(atoms, k)
		}
	}
	for k, p := range polys {
		if p.ID >= m.polys {
			delete(polys, k)
			continue
		}
		if p.neg != nil && p.neg.ID >= m.polys {
			p.neg = nil
		}
		if p.not != nil && p.not.ID >= m.polys {
			p.not = nil
		}
	}
	atomByID, npoly, nfresh = atomByID[:m.atoms], m.polys, m.fresh
}
