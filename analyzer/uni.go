package main

// Univariate polynomials over F_q and F_{q^2}: factorisation, which makes the
// conditions "p(t) = 0" and "p(t) is a square" decidable up to the quadratic
// characters of the irreducible factors.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
)

func (a kp) trim() kp {
	for len(a) > 0 && a[len(a)-1].IsZero() {
		a = a[:len(a)-1]
	}
	return a
}

func (a kp) scale(k K) kp {
	r := make(kp, len(a))
	for i := range a {
		r[i] = a[i].Mul(k)
	}
	return r
}

func (a kp) sub(b kp) kp { return a.add(b.scale(ki(-1))).trim() }

func (a kp) monic() kp {
	a = a.trim()
	if len(a) == 0 {
		return a
	}
	return a.scale(a[len(a)-1].Inv())
}

// divmod by a monic b.
func (a kp) divmod(b kp) (q, r kp) {
	r = append(kp(nil), a.trim()...)
	if len(r) < len(b) {
		return nil, r
	}
	q = make(kp, len(r)-len(b)+1)
	for i := range q {
		q[i] = ki(0)
	}
	for len(r) >= len(b) {
		k, d := r[len(r)-1], len(r)-len(b)
		q[d] = k
		if !k.IsZero() {
			for i := 0; i < len(b)-1; i++ {
				r[d+i] = r[d+i].Add(b[i].Mul(k).Neg())
			}
		}
		r = r[:len(r)-1]
	}
	return q, r.trim()
}

func (a kp) mod(m kp) kp       { _, r := a.divmod(m); return r }
func (a kp) mulmod(b, m kp) kp { return a.mul(b).mod(m) }

func kgcd(a, b kp) kp {
	a, b = a.trim(), b.trim()
	for len(b) > 0 {
		b = b.monic()
		a, b = b, a.mod(b)
	}
	return a.monic()
}

func (a kp) powmod(e *big.Int, m kp) kp {
	r := kp{ki(1)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mulmod(r, m)
		if e.Bit(i) == 1 {
			r = r.mulmod(a, m)
		}
	}
	return r
}

// compose is a(h) mod m.
func (a kp) compose(h, m kp) kp {
	var r kp
	for i := len(a) - 1; i >= 0; i-- {
		r = r.mulmod(h, m)
		r = r.add(kp{a[i]}).trim()
	}
	return r
}

func (a kp) deriv() kp {
	var r kp
	for i := 1; i < len(a); i++ {
		r = append(r, a[i].Mul(ki(int64(i))))
	}
	return r.trim()
}

func (a kp) key() string { return fmt.Sprint([]K(a)) }

type kfac struct {
	p kp // monic irreducible
	e int
}

// kfactor factors a over F_q (real) or F_{q^2}: the leading coefficient and
// the monic irreducible factors.
func kfactor(a kp, real bool) (K, []kfac) {
	a = a.trim()
	lc := a[len(a)-1]
	a = a.monic()
	var out []kfac
	// squarefree decomposition (the characteristic exceeds the degree)
	c := kgcd(a, a.deriv())
	w, _ := a.divmod(c)
	for i := 1; len(w) > 1; i++ {
		y := kgcd(w, c)
		z, _ := w.divmod(y)
		for _, f := range splitSquarefree(z.monic(), real) {
			out = append(out, kfac{f, i})
		}
		w = y
		c, _ = c.divmod(y)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].p.key() < out[j].p.key() })
	return lc, out
}

func splitSquarefree(f kp, real bool) []kp {
	if len(f) < 2 {
		return nil
	}
	if len(f) == 2 {
		return []kp{f}
	}
	size := bigQ
	if !real {
		size = new(big.Int).Mul(bigQ, bigQ)
	}
	x := kp{ki(0), ki(1)}
	frob := x.powmod(size, f)
	var out []kp
	h := frob
	for d := 1; len(f)-1 >= 2*d; d++ {
		g := kgcd(f, h.sub(x))
		if len(g) > 1 {
			out = append(out, equalDegree(g, d, real, size)...)
			f, _ = f.divmod(g)
			if len(f) < 2 {
				return out
			}
			frob, h = frob.mod(f), h.mod(f)
		}
		h = h.compose(frob, f)
	}
	if len(f) > 1 {
		out = append(out, f)
	}
	return out
}

func equalDegree(f kp, d int, real bool, size *big.Int) []kp {
	if len(f)-1 == d {
		return []kp{f}
	}
	rng := rand.New(rand.NewSource(int64(len(f)*1000 + d)))
	frob := kp{ki(0), ki(1)}.powmod(size, f)
	half := new(big.Int).Rsh(new(big.Int).Sub(size, big.NewInt(1)), 1)
	for {
		r := make(kp, len(f)-1)
		for i := range r {
			a := new(big.Int).Rand(rng, bigQ)
			b := new(big.Int)
			if !real {
				b.Rand(rng, bigQ)
			}
			r[i] = kk(a, b)
		}
		// norm to the degree-1 part, then the half power
		n, cur := r.trim(), r.trim()
		for i := 1; i < d; i++ {
			cur = cur.compose(frob, f)
			n = n.mulmod(cur, f)
		}
		s := n.powmod(half, f).sub(kp{ki(1)})
		g := kgcd(f, s)
		if len(g) > 1 && len(g) < len(f) {
			o, _ := f.divmod(g)
			return append(equalDegree(g, d, real, size), equalDegree(o, d, real, size)...)
		}
	}
}

// univar reads p as a polynomial in one free symbol.
func (d *FieldDom) univar(p *KPoly) (v int, a kp, real, ok bool) {
	vs := p.vars()
	if len(vs) != 1 {
		return
	}
	for v = range vs {
	}
	if _, has := d.sq[v]; has {
		return
	}
	deg := 0
	for m := range p.t {
		if e := m.expOf(v); e > deg {
			deg = e
		}
	}
	a = make(kp, deg+1)
	for i := range a {
		a[i] = ki(0)
	}
	real = d.c.syms[v].conj == v
	for m, co := range p.t {
		a[m.expOf(v)] = co
		if co.b.Sign() != 0 && real {
			return v, a, real, false
		}
	}
	return v, a, real, true
}

func (d *FieldDom) unkp(a kp, v int) *KPoly {
	r := &KPoly{t: map[Mono]K{}}
	for i, co := range a {
		if i == 0 {
			r.accum("", co)
		} else {
			r.accum(monoVar(v, i), co)
		}
	}
	return r
}

type uniFac struct {
	lc  K
	fac []*KPoly
	exp []int
}

// uniFactor factors a univariate polynomial over the field of its symbol.
func (d *FieldDom) uniFactor(p *KPoly) (*uniFac, bool) {
	if !d.uni {
		return nil, false
	}
	v, a, real, ok := d.univar(p)
	if !ok {
		return nil, false
	}
	key := p.Key()
	if u, ok := d.ufac[key]; ok {
		return u, true
	}
	lc, fs := kfactor(a, real)
	u := &uniFac{lc: lc}
	for _, f := range fs {
		u.fac, u.exp = append(u.fac, d.unkp(f.p, v)), append(u.exp, f.e)
	}
	if d.ufac == nil {
		d.ufac = map[string]*uniFac{}
	}
	d.ufac[key] = u
	return u, true
}

func (d *FieldDom) deg(p *KPoly) int {
	n := 0
	for m := range p.t {
		if m.deg() > n {
			n = m.deg()
		}
	}
	return n
}

// uniReduce cancels the common factors of a univariate fraction.
func (d *FieldDom) uniReduce(num, den *KPoly) (*KPoly, *KPoly) {
	v, a, _, ok := d.univar(num)
	if !ok {
		return num, den
	}
	w, b, _, ok := d.univar(den)
	if !ok || v != w {
		return num, den
	}
	g := kgcd(a, b)
	if len(g) < 2 {
		return num, den
	}
	a, _ = a.divmod(g)
	b, _ = b.divmod(g)
	return d.unkp(a, v), d.unkp(b, v)
}
