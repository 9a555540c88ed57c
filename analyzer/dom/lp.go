package dom

import "math/bits"

// rat is an exact rational; arithmetic panics with lpOverflow when it leaves int64.
type rat struct{ n, d int64 }

type lpOverflow struct{}

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	h, l := bits.Mul64(ua, ub)
	if h != 0 || l > 1<<62 {
		panic(lpOverflow{})
	}
	if (a < 0) != (b < 0) {
		return -int64(l)
	}
	return int64(l)
}

func add64(a, b int64) int64 {
	s := a + b
	if (a > 0 && b > 0 && s <= 0) || (a < 0 && b < 0 && s >= 0) {
		panic(lpOverflow{})
	}
	return s
}

func mkRat(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(n, d)
	return rat{n / g, d / g}
}

func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{add64(a.n, b.n), 1}
	}
	return mkRat(add64(mul64(a.n, b.d), mul64(b.n, a.d)), mul64(a.d, b.d))
}
func (a rat) neg() rat { return rat{-a.n, a.d} }
func (a rat) mul(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{mul64(a.n, b.n), 1}
	}
	return mkRat(mul64(a.n, b.n), mul64(a.d, b.d))
}
func (a rat) inv() rat      { return mkRat(a.d, a.n) }
func (a rat) zero() bool    { return a.n == 0 }
func (a rat) sign() int64   { return a.n }
func (a rat) cmp(b rat) int { return int(sgn(a.add(b.neg()).n)) }
func sgn(n int64) int64 {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// lp decides the feasibility of linear constraints over the rationals by the simplex method. Rows stay;
// bounds are asserted and taken back. Every variable, a monomial or a linear form, may have a lower and
// an upper bound.
type lp struct {
	cols   map[int]int   // monomial to variable
	forms  map[*Poly]int // linear form without constant, leading coefficient positive, to variable
	rowOf  []int         // the row a variable is basic in, or -1
	basic  []int         // the variable of a row
	a      [][]rat       // by row, over all variables; zero on basic ones
	val    []rat
	lo, hi []bound
	trail  []undo
	asked  []asked // what is asserted, to build it anew
	broken bool
	clash  bool // an assertion contradicted another when it was built
}

type bound struct {
	has bool
	v   int64
}

type undo struct {
	v  int
	up bool
	b  bound
}

type asked struct {
	p  *Poly
	eq bool
}

func newLP() *lp { return &lp{cols: map[int]int{}, forms: map[*Poly]int{}} }

func (l *lp) newVar() int {
	v := len(l.val)
	l.rowOf = append(l.rowOf, -1)
	l.val = append(l.val, rat{0, 1})
	l.lo = append(l.lo, bound{})
	l.hi = append(l.hi, bound{})
	return v
}

func (l *lp) variable(m []*Atom) int {
	k := monoID(m)
	if v, ok := l.cols[k]; ok {
		return v
	}
	v := l.newVar()
	l.cols[k] = v
	return v
}

// form is the variable that stands for the non-constant part of p, up to the sign.
func (l *lp) form(p *Poly) (v int, sign, c int64) {
	ts := p.Terms
	if len(ts) > 0 && len(ts[0].Mono) == 0 {
		c = ts[0].Coef
		ts = ts[1:]
	}
	sign = 1
	if ts[0].Coef < 0 {
		sign = -1
	}
	if len(ts) == 1 && ts[0].Coef*sign == 1 {
		return l.variable(ts[0].Mono), sign, c
	}
	f := p.AddC(-c)
	if sign < 0 {
		f = f.Neg()
	}
	if v, ok := l.forms[f]; ok {
		return v, sign, c
	}
	cols := make([]int, len(f.Terms))
	for i, t := range f.Terms {
		cols[i] = l.variable(t.Mono)
	}
	v = l.newVar()
	l.forms[f] = v
	row := make([]rat, len(l.val), len(l.val)+16)
	for i := range row {
		row[i] = rat{0, 1}
	}
	val := rat{0, 1}
	for i, t := range f.Terms {
		x, k := cols[i], rat{t.Coef, 1}
		val = val.add(l.val[x].mul(k))
		if r := l.rowOf[x]; r >= 0 {
			for j, y := range l.a[r] {
				if !y.zero() {
					row[j] = row[j].add(y.mul(k))
				}
			}
		} else {
			row[x] = row[x].add(k)
		}
	}
	l.val[v] = val
	l.rowOf[v] = len(l.a)
	l.basic = append(l.basic, v)
	l.a = append(l.a, row)
	return v, sign, c
}

func (l *lp) at(i, j int) rat {
	if j >= len(l.a[i]) {
		return rat{0, 1}
	}
	return l.a[i][j]
}

// add asserts p >= 0 or p == 0; it reports false when a bound contradicts another.
func (l *lp) add(p *Poly, eq bool) bool {
	l.asked = append(l.asked, asked{p, eq})
	return l.assert(p, eq)
}

func (l *lp) assert(p *Poly, eq bool) bool {
	if n, ok := p.IsConst(); ok {
		return n == 0 || !eq && n > 0
	}
	v, sign, c := l.form(p)
	// sign*v + c >= 0
	if eq || sign > 0 {
		if !l.lower(v, -c*sign) {
			return false
		}
	}
	if eq || sign < 0 {
		if !l.upper(v, -c*sign) {
			return false
		}
	}
	return true
}

func (l *lp) lower(v int, b int64) bool {
	if l.lo[v].has && l.lo[v].v >= b {
		return true
	}
	l.trail = append(l.trail, undo{v, false, l.lo[v]})
	l.lo[v] = bound{true, b}
	return !l.hi[v].has || l.hi[v].v >= b
}

func (l *lp) upper(v int, b int64) bool {
	if l.hi[v].has && l.hi[v].v <= b {
		return true
	}
	l.trail = append(l.trail, undo{v, true, l.hi[v]})
	l.hi[v] = bound{true, b}
	return !l.lo[v].has || l.lo[v].v <= b
}

type lpMark struct{ trail, asked int }

func (l *lp) mark() lpMark { return lpMark{len(l.trail), len(l.asked)} }

func (l *lp) undo(m lpMark) {
	for len(l.trail) > m.trail {
		u := l.trail[len(l.trail)-1]
		l.trail = l.trail[:len(l.trail)-1]
		if u.up {
			l.hi[u.v] = u.b
		} else {
			l.lo[u.v] = u.b
		}
	}
	l.asked = l.asked[:m.asked]
}

// model is an assignment of the monomials.
type model struct {
	l   *lp
	val []rat
}

func (m *model) eval(p *Poly) (v rat, ok bool) { return m.evalWith(p, false) }

// eval0 takes what the model says nothing about to be zero.
func (m *model) eval0(p *Poly) rat {
	v, _ := m.evalWith(p, true)
	return v
}

func (m *model) evalWith(p *Poly, zero bool) (v rat, ok bool) {
	v = rat{0, 1}
	for _, t := range p.Terms {
		if len(t.Mono) == 0 {
			v = v.add(rat{t.Coef, 1})
			continue
		}
		i, known := m.l.cols[monoID(t.Mono)]
		if !known || i >= len(m.val) {
			if zero {
				continue
			}
			return v, false
		}
		v = v.add(m.val[i].mul(rat{t.Coef, 1}))
	}
	return v, true
}

// solve returns a model, or nil when the constraints are infeasible. ok is false on overflow.
func (l *lp) solve() (m *model, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(lpOverflow); is {
				l.broken = true
				m, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	for iter := 0; ; iter++ {
		if iter > 3000 {
			l.broken = true
			return nil, false
		}
		// nonbasic variables keep to their bounds
		if iter == 0 {
			for v := range l.val {
				if l.rowOf[v] >= 0 {
					continue
				}
				switch {
				case l.lo[v].has && l.val[v].cmp(rat{l.lo[v].v, 1}) < 0:
					l.shift(v, rat{l.lo[v].v, 1})
				case l.hi[v].has && l.val[v].cmp(rat{l.hi[v].v, 1}) > 0:
					l.shift(v, rat{l.hi[v].v, 1})
				}
			}
		}
		// Bland's rule: smallest basic variable that violates its bound
		bi := -1
		var target rat
		var up bool
		for v := range l.val {
			i := l.rowOf[v]
			if i < 0 {
				continue
			}
			if l.lo[v].has {
				if lo := (rat{l.lo[v].v, 1}); l.val[v].cmp(lo) < 0 {
					bi, target, up = i, lo, true
					break
				}
			}
			if l.hi[v].has {
				if hi := (rat{l.hi[v].v, 1}); l.val[v].cmp(hi) > 0 {
					bi, target, up = i, hi, false
					break
				}
			}
		}
		if bi < 0 {
			return &model{l, append([]rat{}, l.val...)}, true
		}
		// a nonbasic variable that can move it towards the bound
		nj := -1
		for v, x := range l.a[bi] {
			if l.rowOf[v] >= 0 {
				continue
			}
			c := x.sign()
			if c == 0 {
				continue
			}
			inc := (c > 0) == up // v must increase
			if inc {
				if l.hi[v].has && l.val[v].cmp(rat{l.hi[v].v, 1}) >= 0 {
					continue
				}
			} else {
				if l.lo[v].has && l.val[v].cmp(rat{l.lo[v].v, 1}) <= 0 {
					continue
				}
			}
			nj = v
			break
		}
		if nj < 0 {
			return nil, true
		}
		bv := l.basic[bi]
		d := target.add(l.val[bv].neg()).mul(l.a[bi][nj].inv())
		l.val[bv] = target
		l.val[nj] = l.val[nj].add(d)
		for i := range l.a {
			if x := l.at(i, nj); i != bi && !x.zero() {
				l.val[l.basic[i]] = l.val[l.basic[i]].add(x.mul(d))
			}
		}
		// pivot: bv = sum a[bi]; solve for nj
		piv := l.a[bi][nj].inv()
		row := l.a[bi]
		if n := max(bv, nj) + 1; len(row) < n {
			row = l.widen(bi, n)
		}
		for v := range row {
			if v == nj {
				row[v] = rat{0, 1}
			} else if !row[v].zero() {
				row[v] = row[v].mul(piv).neg()
			}
		}
		row[bv] = piv
		for i := range l.a {
			if i == bi {
				continue
			}
			f := l.at(i, nj)
			if f.zero() {
				continue
			}
			r := l.a[i]
			if len(r) < len(row) {
				r = l.widen(i, len(row))
			}
			r[nj] = rat{0, 1}
			for v := range row {
				if !row[v].zero() {
					r[v] = r[v].add(f.mul(row[v]))
				}
			}
		}
		l.basic[bi] = nj
		l.rowOf[nj] = bi
		l.rowOf[bv] = -1
	}
}

func (l *lp) widen(i, n int) []rat {
	r := l.a[i]
	for len(r) < n {
		r = append(r, rat{0, 1})
	}
	l.a[i] = r
	return r
}

// shift moves a nonbasic variable.
func (l *lp) shift(v int, to rat) {
	d := to.add(l.val[v].neg())
	l.val[v] = to
	for i := range l.a {
		if x := l.at(i, v); !x.zero() {
			l.val[l.basic[i]] = l.val[l.basic[i]].add(x.mul(d))
		}
	}
}

// rebuilt is the same problem with a new tableau.
func (l *lp) rebuilt() (n *lp) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(lpOverflow); is {
				n = nil
				return
			}
			panic(e)
		}
	}()
	n = newLP()
	for _, x := range l.asked {
		if !n.add(x.p, x.eq) {
			n.clash = true
		}
	}
	return n
}
