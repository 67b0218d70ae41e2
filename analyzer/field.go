package main

// The field domain: elements of F_q or F_{q^2} are fractions of polynomials
// over symbolic elements.  Every symbol has a conjugate partner (itself when
// the element is in F_q).  Curve equations and square roots are oriented
// rewrite rules  y^2 -> f.

import (
	"fmt"
	"math/big"
	"sort"
)

type FieldDom struct {
	c      *Ctx
	sq     map[int]*KPoly    // y^2 -> f
	known  map[string]*KPoly // f -> y with y^2 = f  (known squares)
	order  []int
	trials []*KPoly
	nz     map[string]bool // unconditional non-zero facts (normal keys)
	uni    bool            // factor univariate polynomials
	ufac   map[string]*uniFac
	lins   map[int][]int // atoms v = constant of a symbol, in order
}

func newFieldDom(c *Ctx) *FieldDom {
	return &FieldDom{c: c, sq: map[int]*KPoly{}, known: map[string]*KPoly{}, nz: map[string]bool{}}
}

// sym makes a field symbol; real=false gives a conjugate pair.
func (d *FieldDom) sym(name string, real bool) *KPoly {
	c := d.c
	if id, ok := c.symIx[name]; ok {
		return kvar(id)
	}
	id := c.newSym(Sym{name: name, field: true})
	c.symIx[name] = id
	if real {
		c.syms[id].conj = id
	} else {
		id2 := c.newSym(Sym{name: name + "~", field: true, conj: id})
		c.symIx[name+"~"] = id2
		c.syms[id].conj = id2
	}
	return kvar(id)
}

func kvarOf(p *KPoly) int {
	for m := range p.t {
		return m.list()[0].V
	}
	return 0
}

// addSquare installs y^2 -> f for the symbol y (and its conjugate).
func (d *FieldDom) addSquare(y, f *KPoly) {
	v := kvarOf(y)
	d.sq[v] = f
	d.known[d.norm(f).Key()] = y
	if cv := d.c.syms[v].conj; cv != v {
		d.sq[cv] = d.conj(f)
		d.known[d.norm(d.conj(f)).Key()] = kvar(cv)
	}
}

func (d *FieldDom) conj(p *KPoly) *KPoly {
	r := &KPoly{t: make(map[Mono]K, len(p.t))}
	for m, c := range p.t {
		l := m.list()
		for i := range l {
			l[i].V = d.c.syms[l[i].V].conj
		}
		sort.Slice(l, func(i, j int) bool { return l[i].V < l[j].V })
		r.t[mkMono(l)] = c.Conj()
	}
	return r
}

// norm rewrites with the square rules to normal form.
func (d *FieldDom) norm(p *KPoly) *KPoly {
	if len(d.sq) == 0 {
		return p
	}
	for {
		best := 0
		for m := range p.t {
			for _, ve := range m.list() {
				if ve.E >= 2 && ve.V > best {
					if _, ok := d.sq[ve.V]; ok {
						best = ve.V
					}
				}
			}
		}
		if best == 0 {
			return p
		}
		f := d.sq[best]
		pows := []*KPoly{kint(1)}
		r := &KPoly{t: map[Mono]K{}}
		for m, co := range p.t {
			e := m.expOf(best)
			h := e / 2
			if h == 0 {
				r.accum(m, co)
				continue
			}
			for len(pows) <= h {
				pows = append(pows, pows[len(pows)-1].Mul(f))
			}
			rest := m.without(best)
			if e%2 == 1 {
				rest = rest.mul(monoVar(best, 1))
			}
			for n, c := range pows[h].t {
				r.accum(rest.mul(n), c.Mul(co))
			}
		}
		p = r
	}
}

// Elem is a field element: num/den.
type Elem struct {
	num, den *KPoly
	key      string
}

func (d *FieldDom) elem(p *KPoly) *Elem { return &Elem{num: d.norm(p), den: kint(1)} }
func (d *FieldDom) konst(k K) *Elem     { return &Elem{num: kconst(k), den: kint(1)} }

func kIsOne(p *KPoly) bool {
	c, ok := p.Const()
	return ok && c.a != nil && c.Equal(ki(1))
}

func monoGCD(a, b Mono) Mono {
	l := []VE{}
	for _, ve := range a.list() {
		e := b.expOf(ve.V)
		if e > ve.E {
			e = ve.E
		}
		if e > 0 {
			l = append(l, VE{ve.V, e})
		}
	}
	return mkMono(l)
}

func monoContent(p *KPoly) Mono {
	first := true
	var g Mono
	for m := range p.t {
		if first {
			g, first = m, false
		} else if g != "" {
			g = monoGCD(g, m)
		}
	}
	return g
}

func divMono(p *KPoly, g Mono) *KPoly {
	if g == "" {
		return p
	}
	r := &KPoly{t: make(map[Mono]K, len(p.t))}
	for m, c := range p.t {
		q, _ := m.div(g)
		r.t[q] = c
	}
	return r
}

// divExact divides p by q when it is an exact polynomial division.
func (d *FieldDom) divExact(p, q *KPoly) (*KPoly, bool) {
	if len(q.t) == 0 {
		return nil, false
	}
	if c, ok := q.Const(); ok {
		return p.Scale(c.Inv()), true
	}
	if len(p.t) > 3000 {
		return nil, false
	}
	qm := q.monos()[0]
	qc := q.t[qm].Inv()
	rem := p
	quo := &KPoly{t: map[Mono]K{}}
	for i := 0; len(rem.t) > 0; i++ {
		if i > 2000 {
			return nil, false
		}
		rm := rem.monos()[0]
		m, ok := rm.div(qm)
		if !ok {
			return nil, false
		}
		c := rem.t[rm].Mul(qc)
		quo.accum(m, c)
		rem = rem.Sub(q.mulTerm(m, c))
	}
	return quo, true
}

func (d *FieldDom) frac(num, den *KPoly) *Elem {
	num, den = d.norm(num), d.norm(den)
	if len(num.t) == 0 {
		return &Elem{num: num, den: kint(1)}
	}
	if c, ok := den.Const(); ok {
		if kIsOne(den) {
			return &Elem{num: num, den: den}
		}
		return &Elem{num: num.Scale(c.Inv()), den: kint(1)}
	}
	if g := monoGCD(monoContent(num), monoContent(den)); g != "" {
		num, den = divMono(num, g), divMono(den, g)
		if c, ok := den.Const(); ok {
			return &Elem{num: num.Scale(c.Inv()), den: kint(1)}
		}
	}
	if d.uni {
		num, den = d.uniReduce(num, den)
		if c, ok := den.Const(); ok {
			return &Elem{num: num.Scale(c.Inv()), den: kint(1)}
		}
	}
	if len(den.t) > 1 {
		if qn, ok := d.divExact(num, den); ok {
			return &Elem{num: qn, den: kint(1)}
		}
		if len(num.t) > 1 {
			if qd, ok := d.divExact(den, num); ok {
				num, den = kint(1), qd
			}
		}
	}
	// monic denominator
	lc := den.t[den.monos()[0]].Inv()
	return &Elem{num: num.Scale(lc), den: den.Scale(lc)}
}

func (d *FieldDom) Add(a, b *Elem) *Elem {
	if kIsOne(a.den) && kIsOne(b.den) {
		return &Elem{num: a.num.Add(b.num), den: a.den}
	}
	if a.den.Equal(b.den) {
		return d.frac(a.num.Add(b.num), a.den)
	}
	return d.frac(a.num.Mul(b.den).Add(b.num.Mul(a.den)), a.den.Mul(b.den))
}
func (d *FieldDom) Neg(a *Elem) *Elem    { return &Elem{num: a.num.Neg(), den: a.den} }
func (d *FieldDom) Sub(a, b *Elem) *Elem { return d.Add(a, d.Neg(b)) }
func (d *FieldDom) Mul(a, b *Elem) *Elem {
	if kIsOne(a.den) && kIsOne(b.den) {
		return &Elem{num: d.norm(a.num.Mul(b.num)), den: a.den}
	}
	return d.frac(a.num.Mul(b.num), a.den.Mul(b.den))
}
func (d *FieldDom) Inv(a *Elem) *Elem { return d.frac(a.den, a.num) }
func (d *FieldDom) Conj(a *Elem) *Elem {
	return d.frac(d.conj(a.num), d.conj(a.den))
}
func (d *FieldDom) Scale(a *Elem, k K) *Elem { return &Elem{num: a.num.Scale(k), den: a.den} }

func (e *Elem) Key() string {
	if e.key == "" {
		e.key = e.num.Key()
		if !kIsOne(e.den) {
			e.key += "/" + e.den.Key()
		}
	}
	return e.key
}

func (e *Elem) Const() (K, bool) {
	if !kIsOne(e.den) {
		return K{}, false
	}
	c, ok := e.num.Const()
	if ok && c.a == nil {
		c = ki(0)
	}
	return c, ok
}

// Equal decides equality as rational functions modulo the rules.
func (d *FieldDom) Equal(a, b *Elem) bool {
	if a == b || a.Key() == b.Key() {
		return true
	}
	return len(d.norm(a.num.Mul(b.den).Sub(b.num.Mul(a.den))).t) == 0
}

func (d *FieldDom) show(e *Elem) string {
	s := d.c.showK(e.num)
	if !kIsOne(e.den) {
		s = "(" + s + ")/(" + d.c.showK(e.den) + ")"
	}
	return s
}

// monic normalises up to a scalar, and picks p or its conjugate.
func (d *FieldDom) monic(p *KPoly) *KPoly {
	sc := func(p *KPoly) *KPoly { return p.Scale(p.t[p.monos()[0]].Inv()) }
	a, b := sc(p), sc(d.norm(d.conj(p)))
	if b.Key() < a.Key() {
		return b
	}
	return a
}

// isZero is the condition p == 0 under facts f.
func (d *FieldDom) isZero(p *KPoly, f *Facts) B {
	p = d.reduce(d.norm(p), f)
	if len(p.t) == 0 {
		return bTrue
	}
	if _, ok := p.Const(); ok {
		return bFalse
	}
	r := bFalse
	c := d.c
	for _, fac := range d.factors(p) {
		if _, ok := fac.Const(); ok {
			continue
		}
		if d.uni && d.deg(fac) > 1 { // irreducible: no root
			if _, _, _, ok := d.univar(fac); ok {
				continue
			}
		}
		fac = d.monic(fac)
		key := fac.Key()
		if d.nz[key] {
			continue
		}
		id := c.mkAtom("K"+key, Atom{kind: aKZero, k: fac})
		z := c.bdd.atom(id)
		if d.uni && d.deg(fac) == 1 { // different values exclude each other
			if v, _, _, ok := d.univar(fac); ok {
				if d.lins == nil {
					d.lins = map[int][]int{}
				}
				known := false
				for _, o := range d.lins[v] {
					if o == id {
						known = true
						break
					}
					z = c.bdd.and(z, c.bdd.not(c.bdd.atom(o)))
				}
				if !known {
					d.lins[v] = append(d.lins[v], id)
				}
			}
		}
		r = c.bdd.or(r, z)
	}
	return r
}

// reduce substitutes the zero facts that are linear in some symbol.
func (d *FieldDom) reduce(p *KPoly, f *Facts) *KPoly {
	if f == nil || len(f.kz) == 0 {
		return p
	}
	for _, z := range f.kz {
		for _, zz := range []*KPoly{z, d.conj(z)} {
			v, s := d.solve(zz)
			if v != 0 && p.hasVar(v) {
				p = d.norm(p.subst(v, s, ki(1)))
			}
		}
	}
	return p
}

// solve writes z = 0 as v = s for a symbol v occurring linearly, the newest
// such symbol first.
func (d *FieldDom) solve(z *KPoly) (int, *KPoly) {
	best, coef := 0, K{}
	for m, co := range z.t {
		l := m.list()
		if len(l) != 1 || l[0].E != 1 || l[0].V <= best {
			continue
		}
		v := l[0].V
		lin := true
		for n := range z.t {
			if n != m && n.expOf(v) > 0 {
				lin = false
			}
		}
		if lin {
			if _, ok := d.sq[v]; !ok {
				best, coef = v, co
			}
		}
	}
	if best == 0 {
		return 0, nil
	}
	rest := z.Sub(kvar(best).Scale(coef))
	return best, rest.Scale(coef.Neg().Inv())
}

// EqualUnder decides equality under the zero facts of f.
func (d *FieldDom) EqualUnder(a, b *Elem, f *Facts) bool {
	if d.Equal(a, b) {
		return true
	}
	if f == nil || len(f.kz) == 0 {
		return false
	}
	return len(d.reduce(d.norm(a.num.Mul(b.den).Sub(b.num.Mul(a.den))), f).t) == 0
}

// factors splits p into monomial factors, known factors and the rest.
func (d *FieldDom) factors(p *KPoly) []*KPoly {
	var out []*KPoly
	if u, ok := d.uniFactor(p); ok {
		return u.fac
	}
	g := monoContent(p)
	seen := map[int]bool{}
	for _, ve := range g.list() {
		v := ve.V
		if cv := d.c.syms[v].conj; cv < v {
			v = cv
		}
		if !seen[v] {
			seen[v] = true
			out = append(out, kvar(v))
		}
	}
	p = divMono(p, g)
	// trial division by known factors
	for changed := true; changed; {
		changed = false
		for _, t := range d.trial() {
			if _, ok := p.Const(); ok {
				break
			}
			if q, ok := d.divExact(p, t); ok {
				out = append(out, t)
				p = d.norm(q)
				changed = true
			}
		}
	}
	if _, ok := p.Const(); !ok {
		out = append(out, p)
	}
	return out
}

func (d *FieldDom) addTrial(p *KPoly) { d.trials = append(d.trials, p) }
func (d *FieldDom) trial() []*KPoly   { return d.trials }

// nonzero records an unconditional non-zero fact.
func (d *FieldDom) nonzero(p *KPoly) {
	p = d.norm(p)
	for _, f := range d.factors(p) {
		if _, ok := f.Const(); ok {
			continue
		}
		d.nz[d.monic(f).Key()] = true
		if len(f.t) > 1 {
			d.addTrial(f)
		}
	}
}

// contradict reports that zero facts of the form symbol = constant violate a
// rewrite rule.
func (d *FieldDom) contradict(kz []*KPoly) bool {
	if len(d.sq) == 0 || len(kz) < 2 {
		return false
	}
	for v, f := range d.sq {
		p := kvar(v).Mul(kvar(v)).Sub(f)
		for _, z := range kz {
			for _, zz := range []*KPoly{z, d.conj(z)} {
				vs := zz.vars()
				if len(vs) != 1 {
					continue
				}
				for w := range vs {
					co, ok := zz.t[monoVar(w, 1)]
					if !ok || len(zz.t) > 2 || (len(zz.t) == 2 && zz.t[""].a == nil) {
						continue
					}
					k := kconst(zz.t[""])
					if len(zz.t) == 1 {
						k = kint(0)
					}
					p = p.subst(w, k.Scale(co.Neg().Inv()), ki(1))
				}
			}
		}
		if c, ok := p.Const(); ok && c.a != nil && !c.IsZero() {
			return true
		}
	}
	return false
}

func (d *FieldDom) String() string { return fmt.Sprintf("%d rules", len(d.sq)) }

func modpow(b, e, m *big.Int) *big.Int { return new(big.Int).Exp(b, e, m) }

// sqrtFq / isSquareFq on constants.
func isSquareFq(a *big.Int) bool { return big.Jacobi(modq(a), bigQ) >= 0 }

func isSquareK(k K) bool {
	n := new(big.Int).Add(new(big.Int).Mul(k.a, k.a), new(big.Int).Mul(k.b, k.b))
	return isSquareFq(n)
}
