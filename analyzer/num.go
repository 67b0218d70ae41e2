package main

// The integer domain.  A machine word is an exact integer polynomial over
// input symbols and floor symbols F(e,k) = floor(e / 2^k); truncation of an
// expression e to k bits is e - 2^k*F(e,k).  Floor symbols are interned by
// (e,k), so that values which a program splits into words and recombines
// telescope back to the original polynomial.

import (
	"fmt"
	"math/big"
	"sort"
)

type Sym struct {
	name   string
	lo, hi *big.Int // nil: unbounded (integers only)
	field  bool     // field-element symbol (KPoly variable)
	// floor symbols
	e   *NPoly
	k   int
	rem int // remainder symbol id (0: none yet)
	// field symbols
	conj  int // conjugate partner (self when real)
	class string
	data  any
}

type AtomKind int

const (
	aEQ0    AtomKind = iota // integer polynomial == 0
	aLT0                    // integer polynomial < 0
	aKZero                  // field polynomial == 0
	aSquare                 // field polynomial is a square (in the named field)
	aOpaque                 // uninterpreted
)

type Atom struct {
	kind AtomKind
	n    *NPoly
	k    *KPoly
	name string
	data any
	eq   int // the zero atom that goes with a sign atom
}

type Facts struct {
	sole  map[[2]int]int // the bound of one symbol in ge
	ge    []*NPoly
	iv    map[int][2]*big.Int
	bcach map[string][2]*big.Int
	cond  B
	// nonzero and zero field polynomials
	knz []*KPoly
	kz  []*KPoly
}

// Ctx is one analysis context: symbols, atoms, facts.
type Ctx struct {
	poll     func() // called now and then; may abandon the analysis
	syms     []Sym
	bdd      *BDD
	atoms    []Atom
	atomIdx  map[string]int
	floorIx  map[string]int
	symIx    map[string]int
	base     *Facts
	assume   B // global assumption on atoms
	fcache   map[B]*Facts
	bits     map[B]*NPoly
	abits    map[int]*NPoly
	intGamma bool // join integers as alternatives
	grpGamma bool // join group elements as alternatives
	grpAny   bool // group elements are one abstract value
	nAny     int
	polyBits bool     // use two-valued polynomials as their own selectors
	polys    []*NPoly // numbered (bounds of byte slices)
	int32    bool
	// field domain
	F *FieldDom
}

func newCtx() *Ctx {
	c := &Ctx{bdd: newBDD(), atomIdx: map[string]int{}, floorIx: map[string]int{}, symIx: map[string]int{}, fcache: map[B]*Facts{}, assume: bTrue, bits: map[B]*NPoly{}, abits: map[int]*NPoly{}}
	c.syms = append(c.syms, Sym{name: "_"})
	c.atoms = append(c.atoms, Atom{name: "_"})
	c.base = &Facts{iv: map[int][2]*big.Int{}, bcach: map[string][2]*big.Int{}, cond: bTrue}
	c.F = newFieldDom(c)
	return c
}

func (c *Ctx) newSym(s Sym) int {
	c.syms = append(c.syms, s)
	return len(c.syms) - 1
}

// intSym makes (or finds) an integer symbol with bounds.
func (c *Ctx) intSym(name string, lo, hi *big.Int) *NPoly {
	if id, ok := c.symIx[name]; ok {
		return nvar(id)
	}
	id := c.newSym(Sym{name: name, lo: lo, hi: hi})
	c.symIx[name] = id
	return nvar(id)
}

func (c *Ctx) wordSym(name string, bits int) *NPoly {
	return c.intSym(name, new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1)))
}

func (c *Ctx) symName(v int) string {
	s := c.syms[v]
	if s.e != nil {
		return fmt.Sprintf("F%d", v)
	}
	return s.name
}

func (c *Ctx) show(p *NPoly) string  { return p.format(c.symName) }
func (c *Ctx) showK(p *KPoly) string { return p.format(c.symName) }

// assumeGE adds the global fact p >= 0.
func (c *Ctx) assumeGE(p *NPoly) {
	c.base.ge = append(c.base.ge, p)
	c.base.bcach = map[string][2]*big.Int{}
	c.fcache = map[B]*Facts{}
}

func (c *Ctx) facts(cond B) *Facts {
	if cond <= 1 {
		return c.base
	}
	if f, ok := c.fcache[cond]; ok {
		return f
	}
	f := &Facts{iv: map[int][2]*big.Int{}, bcach: map[string][2]*big.Int{}, cond: cond}
	f.ge = append(f.ge, c.base.ge...)
	f.knz = append(f.knz, c.base.knz...)
	f.kz = append(f.kz, c.base.kz...)
	c.fcache[cond] = f
	lits := c.bdd.implied(cond)
	for pass, n := 0, len(lits); pass < 1; pass++ { // disequalities once more, after the bounds
		for i := 0; i < n; i++ {
			if l := lits[i]; c.atoms[l.Atom].kind == aEQ0 && !l.Pos {
				lits = append(lits, l)
			}
		}
	}
	for at := range c.bdd.support(cond) { // p <= 0 and p >= 0 as disjunctions of the sign and zero atoms
		a := c.atoms[at]
		eid := 0
		if a.kind == aLT0 {
			eid = a.eq
		}
		if eid == 0 {
			continue
		}
		l, e := c.bdd.atom(at), c.bdd.atom(eid)
		if c.bdd.and(cond, c.bdd.not(c.bdd.or(l, e))) == bFalse {
			c.addGE(f, a.n.Neg())
		}
		if c.bdd.and(cond, c.bdd.and(l, c.bdd.not(e))) == bFalse {
			c.addGE(f, a.n)
		}
	}
	for _, l := range lits {
		a := c.atoms[l.Atom]
		switch a.kind {
		case aLT0:
			if l.Pos {
				c.addGE(f, a.n.Neg().Sub(nint(1)))
			} else {
				c.addGE(f, a.n)
			}
		case aEQ0:
			if l.Pos {
				c.addGE(f, a.n)
				c.addGE(f, a.n.Neg())
			} else {
				lo, hi := c.bounds(a.n, f)
				if lo != nil && lo.Sign() == 0 {
					c.addGE(f, a.n.Sub(nint(1)))
				} else if hi != nil && hi.Sign() == 0 {
					c.addGE(f, a.n.Neg().Sub(nint(1)))
				}
			}
		case aKZero:
			if l.Pos {
				f.kz = append(f.kz, a.k)
			} else {
				f.knz = append(f.knz, a.k)
			}
		}
	}
	f.bcach = map[string][2]*big.Int{}
	return f
}

// addGE adds p>=0; single-symbol linear facts refine the symbol's interval.
func (c *Ctx) addGE(f *Facts, p *NPoly) {
	if c.sole(f, p) {
		return
	}
	f.bcach = map[string][2]*big.Int{}
	if len(p.t) > 1 { // the same fact with the newest floor symbol replaced by its argument
		best := 0
		for v := range p.vars() {
			if c.syms[v].e != nil && v > best {
				best = v
			}
		}
		if best > 0 {
			if co, ok := p.t[monoVar(best, 1)]; ok {
				only := true
				for m := range p.t {
					if e := m.expOf(best); e > 0 && len(m.list()) > 1 || e > 1 {
						only = false
					}
				}
				if only {
					sy := c.syms[best]
					d := p.Sub(nvar(best).Scale(co)).Scale(Z{pow2(sy.k)})
					e := sy.e
					if co.Sign() < 0 {
						e = e.Sub(nconst(new(big.Int).Sub(pow2(sy.k), big.NewInt(1))))
					}
					f.ge = append(f.ge, d.Add(e.Scale(co)))
				}
			}
		}
	}
	vs := p.vars()
	if len(vs) == 1 && len(p.t) <= 2 {
		for v := range vs {
			a, ok := p.t[monoVar(v, 1)]
			if !ok {
				return
			}
			b := new(big.Int)
			if z, ok := p.t[""]; ok {
				b = z.Int
			}
			lo, hi := c.symIv(v, f)
			// a*v + b >= 0
			if a.Sign() > 0 { // v >= ceil(-b/a)
				x := cdiv(new(big.Int).Neg(b), a.Int)
				if lo == nil || x.Cmp(lo) > 0 {
					lo = x
				}
			} else { // v <= floor(b/-a)
				x := fdiv(b, new(big.Int).Neg(a.Int))
				if hi == nil || x.Cmp(hi) < 0 {
					hi = x
				}
			}
			f.iv[v] = [2]*big.Int{lo, hi}
			if sy := c.syms[v]; sy.e != nil { // bounds of a floor bound its argument
				if a.Sign() > 0 && lo != nil {
					f.ge = append(f.ge, sy.e.Sub(nconst(new(big.Int).Lsh(lo, uint(sy.k)))))
				}
				if a.Sign() < 0 && hi != nil {
					h := new(big.Int).Lsh(new(big.Int).Add(hi, big.NewInt(1)), uint(sy.k))
					f.ge = append(f.ge, nconst(h).Sub(nint(1)).Sub(sy.e))
				}
			}
		}
	}
}

// sole records p >= 0, keeping only the tightest of the bounds of one symbol;
// it reports that p says nothing new.
func (c *Ctx) sole(f *Facts, p *NPoly) bool {
	if len(p.t) == 2 {
		k, ok := p.t[""]
		for m, co := range p.t {
			if m == "" || !ok {
				continue
			}
			if co.CmpAbs(big.NewInt(1)) != 0 || len(m.list()) != 1 || m.list()[0].E != 1 {
				break
			}
			key := [2]int{m.list()[0].V, co.Sign()}
			if i, ok := f.sole[key]; ok {
				if f.ge[i].t[""].Cmp(k.Int) <= 0 { // x + k0 >= 0, k0 <= k
					return true
				}
				f.ge[i] = p
				return false
			}
			if f.sole == nil {
				f.sole = map[[2]int]int{}
			}
			f.sole[key] = len(f.ge)
		}
	}
	f.ge = append(f.ge, p)
	return false
}

func fdiv(a, b *big.Int) *big.Int { // floor division, b>0
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(a, b, m)
	return q
}
func cdiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(fdiv(new(big.Int).Neg(a), b))
}

func (c *Ctx) symIv(v int, f *Facts) (lo, hi *big.Int) {
	if f != nil {
		if x, ok := f.iv[v]; ok {
			return x[0], x[1]
		}
	}
	s := &c.syms[v]
	if f != nil && f.cond > 1 && s.class == "bit" {
		a := c.bdd.atom(s.data.(int))
		if c.bdd.and(f.cond, a) == bFalse {
			f.iv[v] = [2]*big.Int{s.lo, s.lo}
		} else if c.bdd.and(f.cond, c.bdd.not(a)) == bFalse {
			f.iv[v] = [2]*big.Int{s.hi, s.hi}
		} else {
			f.iv[v] = [2]*big.Int{s.lo, s.hi}
		}
		return f.iv[v][0], f.iv[v][1]
	}
	return s.lo, s.hi
}

// fixed substitutes 0/1 selectors decided by the facts.
func (c *Ctx) fixed(p *NPoly, f *Facts) *NPoly {
	for v := range p.vars() {
		if c.isBit(v) {
			if lo, hi := c.symIv(v, f); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				p = p.subst(v, nconst(lo), zi(1))
			}
		}
	}
	return p
}

// ival evaluates p by interval arithmetic, monomial by monomial.
func (c *Ctx) ival(p *NPoly, f *Facts) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for m, co := range p.t {
		mlo, mhi := big.NewInt(1), big.NewInt(1)
		first := true
		for _, ve := range m.list() {
			slo, shi := c.symIv(ve.V, f)
			for e := 0; e < ve.E; e++ {
				if first {
					mlo, mhi = slo, shi
				} else {
					mlo, mhi = imul(mlo, mhi, slo, shi)
				}
				first = false
			}
		}
		if co.Sign() >= 0 {
			if lo != nil {
				if mlo == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(mlo, co.Int))
				}
			}
			if hi != nil {
				if mhi == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(mhi, co.Int))
				}
			}
		} else {
			if lo != nil {
				if mhi == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(mhi, co.Int))
				}
			}
			if hi != nil {
				if mlo == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(mlo, co.Int))
				}
			}
		}
	}
	return
}

func imul(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
		lo = new(big.Int).Mul(alo, blo)
		if ahi != nil && bhi != nil {
			hi = new(big.Int).Mul(ahi, bhi)
		}
		return
	}
	if alo == nil || ahi == nil || blo == nil || bhi == nil {
		return nil, nil
	}
	ps := []*big.Int{new(big.Int).Mul(alo, blo), new(big.Int).Mul(alo, bhi), new(big.Int).Mul(ahi, blo), new(big.Int).Mul(ahi, bhi)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		if p.Cmp(lo) < 0 {
			lo = p
		}
		if p.Cmp(hi) > 0 {
			hi = p
		}
	}
	return
}

func maxB(a, b *big.Int) *big.Int { // larger of two lower bounds
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// useFacts tightens the interval of p (scaled by 2^s) with linear facts.
func (c *Ctx) useFacts(p *NPoly, f *Facts, depth int) (lo, hi *big.Int) {
	lo, hi = c.ival(p, f)
	if depth == 0 || f == nil || len(f.ge) == 0 {
		return
	}
	up := c.greedy(p, f, true)
	dn := c.greedy(p, f, false)
	return maxB(lo, dn), minB(hi, up)
}

func (c *Ctx) greedy(p *NPoly, f *Facts, upper bool) *big.Int {
	get := func(p *NPoly) *big.Int {
		lo, hi := c.ival(p, f)
		if upper {
			return hi
		}
		return lo
	}
	better := func(a, b *big.Int) bool { // a better than b
		if a == nil {
			return false
		}
		if b == nil {
			return true
		}
		if upper {
			return a.Cmp(b) < 0
		}
		return a.Cmp(b) > 0
	}
	best := get(p)
	cur := p
	scale := big.NewInt(1)
	rat := func(b *big.Int, s *big.Int) *big.Int {
		if b == nil {
			return nil
		}
		if upper {
			return fdiv(b, s)
		}
		return cdiv(b, s)
	}
	type cand struct {
		p *NPoly
		s *big.Int
		b *big.Int
	}
	for pass := 0; pass < 8; pass++ {
		var bestc *cand
		for _, g := range f.ge {
			tried := map[string]bool{}
			n := 0
			for m, cp := range cur.t {
				if m == "" {
					continue
				}
				cg, ok := g.t[m]
				if !ok {
					continue
				}
				// upper: cur + mu*g with mu>=0 cancelling: cp + mu*cg = 0
				// lower: cur - mu*g:                     cp - mu*cg = 0
				if upper == (cp.Sign() == cg.Sign()) {
					continue
				}
				// multiply: |cg|*cur +/- |cp|*g
				acg := new(big.Int).Abs(cg.Int)
				acp := new(big.Int).Abs(cp.Int)
				gg := new(big.Int).GCD(nil, nil, acg, acp)
				acg.Quo(acg, gg)
				acp.Quo(acp, gg)
				k := acg.String() + "/" + acp.String()
				if tried[k] {
					continue
				}
				tried[k] = true
				n++
				if n > 8 {
					break
				}
				var np *NPoly
				if upper {
					np = cur.Scale(Z{acg}).Add(g.Scale(Z{acp}))
				} else {
					np = cur.Scale(Z{acg}).Sub(g.Scale(Z{acp}))
				}
				ns := new(big.Int).Mul(scale, acg)
				nb := rat(get(np), ns)
				if bestc == nil || better(nb, bestc.b) {
					bestc = &cand{np, ns, nb}
				}
			}
		}
		if bestc == nil || !better(bestc.b, best) {
			break
		}
		best = bestc.b
		cur = bestc.p
		scale = bestc.s
	}
	return best
}

// decided replaces the two-valued floors whose value the facts decide.
func (c *Ctx) decided(p *NPoly, f *Facts) *NPoly {
	q := p
	for v := range p.vars() {
		sy := &c.syms[v]
		if sy.e == nil || sy.lo == nil || sy.hi == nil || new(big.Int).Sub(sy.hi, sy.lo).Cmp(big.NewInt(1)) > 0 {
			continue
		}
		if l, h := c.bounds(nvar(v), f); l != nil && h != nil && l.Cmp(h) == 0 {
			q = q.subst(v, nconst(l), zi(1))
		}
	}
	return q
}

// bounds computes sound bounds of p under facts f.
func (c *Ctx) bounds(p *NPoly, f *Facts) (lo, hi *big.Int) {
	if k := nconstOf(p); k != nil {
		return k, k
	}
	if f == nil {
		f = c.base
	}
	key := p.Key()
	if b, ok := f.bcach[key]; ok {
		return b[0], b[1]
	}
	f.bcach[key] = [2]*big.Int{nil, nil}
	p = c.fixed(p, f)
	lo, hi = c.useFacts(p, f, 2)
	cur := p
	s := 0
	for step := 0; step < 200; step++ {
		if bv := c.selector(cur); bv > 0 { // correlation through 0/1 selectors
			l, h := c.splitBounds(cur, f, bv)
			if l != nil {
				l = cdiv(l, pow2(s))
			}
			if h != nil {
				h = fdiv(h, pow2(s))
			}
			lo, hi = maxB(lo, l), minB(hi, h)
			break
		}
		// newest floor symbol
		best := 0
		for v := range cur.vars() {
			if c.syms[v].e != nil && v > best {
				best = v
			}
		}
		if best == 0 {
			break
		}
		cur, s = c.elim(cur, s, best)
		cur = c.fixed(cur, f)
		if len(cur.t) > 4000 {
			break
		}
		l, h := c.useFacts(cur, f, 2)
		if l != nil {
			l = cdiv(l, pow2(s))
		}
		if h != nil {
			h = fdiv(h, pow2(s))
		}
		lo, hi = maxB(lo, l), minB(hi, h)
	}
	if f != c.base && len(p.t) > 1 {
		if q := c.decided(p, f); q != p {
			l, h := c.bounds(q, f)
			lo, hi = maxB(lo, l), minB(hi, h)
		}
	}
	if f != c.base { // more facts never know less
		l, h := c.bounds(p, c.base)
		lo, hi = maxB(lo, l), minB(hi, h)
	}
	f.bcach[key] = [2]*big.Int{lo, hi}
	return
}

// selector picks a 0/1 selector of p when there are few of them.
func (c *Ctx) selector(p *NPoly) int {
	if len(p.t) > 600 {
		return 0
	}
	nb, bv := 0, 0
	for v := range p.vars() {
		if c.syms[v].class == "bit" {
			nb++
			if v > bv {
				bv = v
			}
		}
	}
	if nb > 6 {
		return 0
	}
	return bv
}

// splitBounds bounds p in both cases of selector bv.
func (c *Ctx) splitBounds(p *NPoly, f *Facts, bv int) (lo, hi *big.Int) {
	a := c.bdd.atom(c.syms[bv].data.(int))
	first := true
	for val := int64(0); val < 2; val++ {
		b := a
		if val == 0 {
			b = c.bdd.not(a)
		}
		nc := c.bdd.and(f.cond, b)
		if nc == bFalse {
			continue
		}
		f2 := c.facts(nc)
		l, h := c.bounds(p.subst(bv, nint(val), zi(1)), f2)
		if first {
			lo, hi = l, h
			first = false
			continue
		}
		if lo == nil || l == nil {
			lo = nil
		} else if l.Cmp(lo) < 0 {
			lo = l
		}
		if hi == nil || h == nil {
			hi = nil
		} else if h.Cmp(hi) > 0 {
			hi = h
		}
	}
	return
}

// remSym is the remainder of floor symbol v: e - 2^k*F in [0,2^k).
func (c *Ctx) remSym(v int) int {
	if c.syms[v].rem == 0 {
		r := c.newSym(Sym{name: fmt.Sprintf("R%d", v), lo: new(big.Int), hi: new(big.Int).Sub(pow2(c.syms[v].k), big.NewInt(1))})
		c.syms[v].rem = r
	}
	return c.syms[v].rem
}

// elim rewrites 2^s-scaled p replacing floor symbol v by (e-R)/2^k.
func (c *Ctx) elim(p *NPoly, s int, v int) (*NPoly, int) {
	sy := c.syms[v]
	maxe := 0
	for m := range p.t {
		if e := m.expOf(v); e > maxe {
			maxe = e
		}
	}
	num := sy.e.Sub(nvar(c.remSym(v)))
	pows := []*NPoly{nint(1)}
	for i := 1; i <= maxe; i++ {
		pows = append(pows, pows[i-1].Mul(num))
	}
	r := &NPoly{t: map[Mono]Z{}}
	for m, co := range p.t {
		e := m.expOf(v)
		rest := m.without(v)
		sc := Z{new(big.Int).Lsh(co.Int, uint((maxe-e)*sy.k))}
		for n, d := range pows[e].t {
			r.accum(rest.mul(n), d.Mul(sc))
		}
	}
	return r, s + maxe*sy.k
}

func v2(x *big.Int) int {
	if x.Sign() == 0 {
		return 1 << 20
	}
	return int(x.TrailingZeroBits())
}

// floor returns floor(e / 2^k).
func (c *Ctx) floor(e *NPoly, k int, f *Facts) *NPoly {
	if k == 0 {
		return e
	}
	if z := nconstOf(e); z != nil {
		return nconst(fdiv(z, pow2(k)))
	}
	P := pow2(k)
	e1 := &NPoly{t: map[Mono]Z{}}
	e0 := &NPoly{t: map[Mono]Z{}}
	for m, co := range e.t {
		var q, r *big.Int
		if m == "" {
			q = fdiv(co.Int, P)
			r = new(big.Int).Sub(co.Int, new(big.Int).Mul(q, P))
		} else {
			q = new(big.Int).Quo(co.Int, P)
			r = new(big.Int).Sub(co.Int, new(big.Int).Mul(q, P))
		}
		if q.Sign() != 0 {
			e1.t[m] = Z{q}
		}
		if r.Sign() != 0 {
			e0.t[m] = Z{r}
		}
	}
	if len(e0.t) == 0 {
		return e1
	}
	return e1.Add(c.floor0(e0, k, f))
}

func (c *Ctx) floor0(e *NPoly, k int, f *Facts) *NPoly {
	if z := nconstOf(e); z != nil {
		return nconst(fdiv(z, pow2(k)))
	}
	// common power of two
	g := 1 << 20
	for _, co := range e.t {
		if v := v2(co.Int); v < g {
			g = v
		}
	}
	if g > 0 {
		r := &NPoly{t: map[Mono]Z{}}
		for m, co := range e.t {
			r.t[m] = Z{new(big.Int).Rsh(co.Int, uint(g))}
		}
		return c.floor(r, k-g, f)
	}
	// a floor of a floor
	if len(e.t) == 1 {
		for m, co := range e.t {
			l := m.list()
			if len(l) == 1 && l[0].E == 1 && co.Int.IsInt64() && co.Int.Int64() == 1 {
				if s := c.syms[l[0].V]; s.e != nil {
					return c.floor(s.e, s.k+k, f)
				}
			}
		}
	}
	key := fmt.Sprintf("%d|", k) + e.Key()
	if id, ok := c.floorIx[key]; ok {
		if lo, hi := c.symIv(id, f); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return nconst(lo)
		}
		if f != nil && f != c.base {
			lo, hi := c.bounds(e, f)
			if lo != nil && hi != nil {
				l, h := fdiv(lo, pow2(k)), fdiv(hi, pow2(k))
				if l.Cmp(h) == 0 {
					return nconst(l)
				}
			}
		}
		return nvar(id)
	}
	// low part / high part
	js := map[int]bool{}
	for _, co := range e.t {
		if v := v2(co.Int); v > 0 && v <= k {
			js[v] = true
		}
	}
	var jl []int
	for j := range js {
		jl = append(jl, j)
	}
	sort.Ints(jl)
	for _, j := range jl {
		low, high := &NPoly{t: map[Mono]Z{}}, &NPoly{t: map[Mono]Z{}}
		for m, co := range e.t {
			if v2(co.Int) < j {
				low.t[m] = co
			} else {
				high.t[m] = Z{new(big.Int).Rsh(co.Int, uint(j))}
			}
		}
		lo, hi := c.bounds(low, f)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(j)) < 0 {
			return c.floor(high, k-j, f)
		}
	}
	lo, hi := c.bounds(e, f)
	if lo != nil && hi != nil {
		l, h := fdiv(lo, pow2(k)), fdiv(hi, pow2(k))
		if l.Cmp(h) == 0 {
			return nconst(l)
		}
	}
	blo, bhi := c.bounds(e, c.base)
	s := Sym{e: e, k: k, name: "F"}
	if blo != nil {
		s.lo = fdiv(blo, pow2(k))
	}
	if bhi != nil {
		s.hi = fdiv(bhi, pow2(k))
	}
	id := c.newSym(s)
	c.floorIx[key] = id
	return nvar(id)
}

// wrap truncates the mathematical value e to a Go integer type.
func (c *Ctx) wrap(e *NPoly, bits int, signed bool, f *Facts) *NPoly {
	if z := nconstOf(e); z != nil {
		m := pow2(bits)
		r := new(big.Int).Mod(z, m)
		if signed && r.Bit(bits-1) == 1 {
			r.Sub(r, m)
		}
		return nconst(r)
	}
	lo, hi := c.bounds(e, f)
	if signed {
		h := pow2(bits - 1)
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
			return e
		}
		sh := e.Add(nconst(h))
		return e.Sub(c.floor(sh, bits, f).Scale(Z{pow2(bits)}))
	}
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(bits)) < 0 {
		return e
	}
	return e.Sub(c.floor(e, bits, f).Scale(Z{pow2(bits)}))
}

// bitsField extracts bits [a,b) of x (x >= 0): 2^a * (floor(x,a) mod 2^(b-a)).
func (c *Ctx) bitField(x *NPoly, a, b int, f *Facts) *NPoly {
	r := c.floor(x, a, f).Sub(c.floor(x, b, f).Scale(Z{pow2(b - a)}))
	return r.Scale(Z{pow2(a)})
}

func (c *Ctx) andConst(x *NPoly, mask *big.Int, f *Facts) *NPoly {
	r := nint(0)
	i := 0
	for i < mask.BitLen() {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < mask.BitLen() && mask.Bit(j) == 1 {
			j++
		}
		r = r.Add(c.bitField(x, i, j, f))
		i = j
	}
	return r
}

// orDisjoint returns x|y when their bits are provably disjoint.
func (c *Ctx) orDisjoint(x, y *NPoly, f *Facts) (*NPoly, bool) {
	try := func(hiP, loP *NPoly) bool {
		g := 1 << 20
		for _, co := range hiP.t {
			if v := v2(co.Int); v < g {
				g = v
			}
		}
		if g == 0 {
			return false
		}
		lo, hi := c.bounds(loP, f)
		return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(g)) < 0
	}
	if try(x, y) || try(y, x) {
		return x.Add(y), true
	}
	if lo, hi := c.bounds(x.Add(y), f); lo != nil && hi != nil && hi.Cmp(big.NewInt(1)) <= 0 { // two bits, never both
		lx, _ := c.bounds(x, f)
		ly, _ := c.bounds(y, f)
		if lx != nil && ly != nil && lx.Sign() >= 0 && ly.Sign() >= 0 {
			return x.Add(y), true
		}
	}
	return nil, false
}

func (c *Ctx) mkAtom(key string, a Atom) int {
	if id, ok := c.atomIdx[key]; ok {
		return id
	}
	c.atoms = append(c.atoms, a)
	id := len(c.atoms) - 1
	c.atomIdx[key] = id
	return id
}

func content(p *NPoly) *big.Int {
	g := new(big.Int)
	for _, co := range p.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(co.Int))
	}
	return g
}

func leadNeg(p *NPoly) bool {
	for _, m := range p.monos() {
		if m != "" {
			return p.t[m].Sign() < 0
		}
	}
	return false
}

// eq0 is the condition p == 0.
func (c *Ctx) eq0(p *NPoly, f *Facts) B {
	if z := nconstOf(p); z != nil {
		if z.Sign() == 0 {
			return bTrue
		}
		return bFalse
	}
	lo, hi := c.bounds(p, f)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return bFalse
	}
	if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return bTrue
	}
	if len(p.t) == 1 { // a word built by | or ^ is zero iff its operands are zero / equal
		for m := range p.t {
			if l := m.list(); len(l) == 1 {
				if xy, ok := c.syms[l[0].V].data.([2]*NPoly); ok {
					switch c.syms[l[0].V].class {
					case "or":
						return c.bdd.and(c.eq0(xy[0], f), c.eq0(xy[1], f))
					case "xor":
						return c.eq0(xy[0].Sub(xy[1]), f)
					}
				}
			}
		}
	}
	// divide by content when it divides the constant as well
	g := content(p)
	if k, ok := p.t[""]; ok {
		nc := p.Sub(nconst(k.Int))
		g2 := content(nc)
		if new(big.Int).Mod(k.Int, g2).Sign() != 0 {
			return bFalse
		}
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		p = divContent(p, g)
	}
	if leadNeg(p) {
		p = p.Neg()
	}
	// two-valued quantity: normalise on the value 0 of (p - lo)
	lo, hi = c.bounds(p, c.base)
	if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(1)) == 0 {
		base := p.Sub(nconst(lo)) // in {0,1}
		neg := lo.Sign() != 0
		if b, ok := c.selAtom(base); ok { // base is 1 exactly under b
			if neg {
				return b
			}
			return c.bdd.not(b)
		}
		key := base.Key()
		nb := base.Neg().Add(nint(1))
		if nk := nb.Key(); nk < key {
			base, key = nb, nk
			neg = !neg
		}
		id := c.mkAtom("E"+key, Atom{kind: aEQ0, n: base, data: base})
		b := c.bdd.atom(id)
		if neg {
			b = c.bdd.not(b)
		}
		return b
	}
	id := c.mkAtom("E"+p.Key(), Atom{kind: aEQ0, n: p})
	return c.bdd.atom(id)
}

// selAtom recognises a selector symbol or its complement.
func (c *Ctx) selAtom(p *NPoly) (B, bool) {
	v := p.vars()
	if len(v) != 1 {
		return 0, false
	}
	for id := range v {
		if c.syms[id].class != "bit" {
			return 0, false
		}
		at, ok := c.syms[id].data.(int)
		if !ok {
			return 0, false
		}
		if p.Equal(nvar(id)) {
			return c.bdd.atom(at), true
		}
		if p.Equal(nint(1).Sub(nvar(id))) {
			return c.bdd.not(c.bdd.atom(at)), true
		}
	}
	return 0, false
}

func divContent(p *NPoly, g *big.Int) *NPoly {
	r := &NPoly{t: map[Mono]Z{}}
	for m, co := range p.t {
		r.t[m] = Z{new(big.Int).Quo(co.Int, g)}
	}
	return r
}

// lt0 is the condition p < 0.
func (c *Ctx) lt0(p *NPoly, f *Facts) B {
	lo, hi := c.bounds(p, f)
	if hi != nil && hi.Sign() < 0 {
		return bTrue
	}
	if lo != nil && lo.Sign() >= 0 {
		return bFalse
	}
	// a wrapped value compared with what it was made of: the sign is a carry
	if b, ok := c.carrySign(p, f); ok {
		return b
	}
	// p <= 0 known: p<0 iff p != 0 ; p >= -1 known: p<0 iff p == -1
	blo, bhi := c.bounds(p, c.base)
	if bhi != nil && bhi.Sign() == 0 {
		return c.bdd.not(c.eq0(p, f))
	}
	if blo != nil && blo.Cmp(big.NewInt(-1)) == 0 {
		return c.eq0(p.Add(nint(1)), f)
	}
	// primitive part of the non-constant terms: g*p' + k < 0  <=>  p' < -k/g  <=>  p' + floor(k/g)... on integers
	k := new(big.Int)
	if z, ok := p.t[""]; ok {
		k = z.Int
	}
	nc := p.Sub(nconst(k))
	g := content(nc)
	if g.Cmp(big.NewInt(1)) > 0 {
		// g*x + k < 0 <=> x < -k/g <=> x <= ceil(-k/g)-1 <=> x - ceil(-k/g) < 0
		nc = divContent(nc, g)
		k = new(big.Int).Neg(cdiv(new(big.Int).Neg(k), g))
		p = nc.Add(nconst(k))
		return c.lt0(p, f)
	}
	// trichotomy: one sign atom and one zero atom per quantity, up to sign
	ne := c.bdd.not(c.eq0(p, c.base))
	if leadNeg(p) {
		np := p.Neg()
		id := c.mkAtom("L"+np.Key(), Atom{kind: aLT0, n: np, eq: c.atomOf(ne)})
		return c.bdd.and(ne, c.bdd.not(c.bdd.atom(id)))
	}
	id := c.mkAtom("L"+p.Key(), Atom{kind: aLT0, n: p, eq: c.atomOf(ne)})
	return c.bdd.and(ne, c.bdd.atom(id))
}

// carrySign decides p < 0 when floor(p/2^k) is, without new floors, -1 or 0.
func (c *Ctx) carrySign(p *NPoly, f *Facts) (B, bool) {
	for m, co := range p.t {
		l := m.list()
		if len(l) != 1 || l[0].E != 1 {
			continue
		}
		s := c.syms[l[0].V]
		k := v2(co.Int)
		if s.e == nil || k < 8 || new(big.Int).Abs(co.Int).Cmp(pow2(k)) != 0 {
			continue
		}
		n := len(c.syms)
		fl := c.floor(p, k, f)
		if len(c.syms) != n {
			return 0, false
		}
		if lo, hi := c.bounds(fl, f); lo != nil && hi != nil && lo.Cmp(big.NewInt(-1)) >= 0 && hi.Sign() <= 0 {
			return c.eq0(fl.Add(nint(1)), f), true
		}
	}
	return 0, false
}

// atomOf returns the atom of a negated zero test (0: not a single atom).
func (c *Ctx) atomOf(ne B) int {
	if ne <= 1 {
		return 0
	}
	n := c.bdd.n[ne]
	if (n.lo == bTrue && n.hi == bFalse) && c.atoms[n.v].kind == aEQ0 {
		return int(n.v)
	}
	return 0
}

func (c *Ctx) showB(b B) string {
	if b == bTrue {
		return "true"
	}
	if b == bFalse {
		return "false"
	}
	cs, _ := c.bdd.cubes(b, 3)
	s := ""
	for i, cu := range cs {
		if i > 0 {
			s += " | "
		}
		for j, l := range cu {
			if j > 0 {
				s += " & "
			}
			if j > 6 {
				s += "..."
				break
			}
			if !l.Pos {
				s += "!"
			}
			s += c.showAtom(l.Atom)
		}
	}
	return s
}

func (c *Ctx) showAtom(id int) string {
	a := c.atoms[id]
	switch a.kind {
	case aEQ0:
		return "[" + c.show(a.n) + " == 0]"
	case aLT0:
		return "[" + c.show(a.n) + " < 0]"
	case aKZero:
		return "[" + c.showK(a.k) + " == 0]"
	case aSquare:
		return "[square " + c.showK(a.k) + "]"
	}
	return "[" + a.name + "]"
}
