package main

// Sparse multivariate polynomials with exact coefficients.  They are the
// abstract values of the two numeric domains: integers (coefficients in Z)
// and field elements (coefficients in F_{q^2} or F_r).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Coef[C any] interface {
	Add(C) C
	Mul(C) C
	Neg() C
	IsZero() bool
	String() string
}

// Mono is a monomial: a sorted list of (variable, exponent) pairs, six bytes
// each, encoded big-endian in a string.
type Mono string

type VE struct {
	V int
	E int
}

func mkMono(ves []VE) Mono {
	b := make([]byte, 0, 6*len(ves))
	for _, ve := range ves {
		if ve.E == 0 {
			continue
		}
		b = append(b, byte(ve.V>>24), byte(ve.V>>16), byte(ve.V>>8), byte(ve.V), byte(ve.E>>8), byte(ve.E))
	}
	return Mono(b)
}

func (m Mono) list() []VE {
	r := make([]VE, 0, len(m)/6)
	for i := 0; i+6 <= len(m); i += 6 {
		r = append(r, VE{int(m[i])<<24 | int(m[i+1])<<16 | int(m[i+2])<<8 | int(m[i+3]), int(m[i+4])<<8 | int(m[i+5])})
	}
	return r
}

func (m Mono) deg() int {
	d := 0
	for _, ve := range m.list() {
		d += ve.E
	}
	return d
}

func (m Mono) mul(n Mono) Mono {
	if m == "" {
		return n
	}
	if n == "" {
		return m
	}
	a, b := m.list(), n.list()
	out := make([]VE, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i].V < b[j].V) {
			out = append(out, a[i])
			i++
		} else if i >= len(a) || b[j].V < a[i].V {
			out = append(out, b[j])
			j++
		} else {
			out = append(out, VE{a[i].V, a[i].E + b[j].E})
			i++
			j++
		}
	}
	return mkMono(out)
}

// div returns m/n when n divides m.
func (m Mono) div(n Mono) (Mono, bool) {
	if n == "" {
		return m, true
	}
	a, b := m.list(), n.list()
	out := make([]VE, 0, len(a))
	i := 0
	for _, y := range b {
		for i < len(a) && a[i].V < y.V {
			out = append(out, a[i])
			i++
		}
		if i >= len(a) || a[i].V != y.V || a[i].E < y.E {
			return "", false
		}
		if a[i].E > y.E {
			out = append(out, VE{y.V, a[i].E - y.E})
		}
		i++
	}
	out = append(out, a[i:]...)
	return mkMono(out), true
}

func (m Mono) expOf(v int) int {
	for _, ve := range m.list() {
		if ve.V == v {
			return ve.E
		}
	}
	return 0
}

func (m Mono) without(v int) Mono {
	l := m.list()
	out := l[:0]
	for _, ve := range l {
		if ve.V != v {
			out = append(out, ve)
		}
	}
	return mkMono(out)
}

func monoVar(v, e int) Mono { return mkMono([]VE{{v, e}}) }

// Poly is immutable once built.
type Poly[C Coef[C]] struct {
	t   map[Mono]C
	key string
}

func constPoly[C Coef[C]](c C) *Poly[C] {
	p := &Poly[C]{t: map[Mono]C{}}
	if !c.IsZero() {
		p.t[""] = c
	}
	return p
}

func termPoly[C Coef[C]](m Mono, c C) *Poly[C] {
	p := &Poly[C]{t: map[Mono]C{}}
	if !c.IsZero() {
		p.t[m] = c
	}
	return p
}

func (p *Poly[C]) accum(m Mono, c C) {
	if o, ok := p.t[m]; ok {
		s := o.Add(c)
		if s.IsZero() {
			delete(p.t, m)
		} else {
			p.t[m] = s
		}
	} else if !c.IsZero() {
		p.t[m] = c
	}
}

func (p *Poly[C]) clone() *Poly[C] {
	q := &Poly[C]{t: make(map[Mono]C, len(p.t)+4)}
	for m, c := range p.t {
		q.t[m] = c
	}
	return q
}

func (p *Poly[C]) Add(o *Poly[C]) *Poly[C] {
	if len(p.t) == 0 {
		return o
	}
	if len(o.t) == 0 {
		return p
	}
	r := p.clone()
	for m, c := range o.t {
		r.accum(m, c)
	}
	return r
}

func (p *Poly[C]) Neg() *Poly[C] {
	r := &Poly[C]{t: make(map[Mono]C, len(p.t))}
	for m, c := range p.t {
		r.t[m] = c.Neg()
	}
	return r
}

func (p *Poly[C]) Sub(o *Poly[C]) *Poly[C] {
	if len(o.t) == 0 {
		return p
	}
	r := p.clone()
	for m, c := range o.t {
		r.accum(m, c.Neg())
	}
	return r
}

func (p *Poly[C]) Scale(c C) *Poly[C] {
	r := &Poly[C]{t: make(map[Mono]C, len(p.t))}
	if c.IsZero() {
		return r
	}
	for m, x := range p.t {
		y := x.Mul(c)
		if !y.IsZero() {
			r.t[m] = y
		}
	}
	return r
}

func (p *Poly[C]) mulTerm(m Mono, c C) *Poly[C] {
	r := &Poly[C]{t: make(map[Mono]C, len(p.t))}
	for n, x := range p.t {
		y := x.Mul(c)
		if !y.IsZero() {
			r.t[n.mul(m)] = y
		}
	}
	return r
}

func (p *Poly[C]) Mul(o *Poly[C]) *Poly[C] {
	if len(p.t) == 1 {
		for m, c := range p.t {
			return o.mulTerm(m, c)
		}
	}
	if len(o.t) == 1 {
		for m, c := range o.t {
			return p.mulTerm(m, c)
		}
	}
	r := &Poly[C]{t: make(map[Mono]C, len(p.t)*len(o.t)/2+1)}
	for m, c := range p.t {
		for n, d := range o.t {
			r.accum(m.mul(n), c.Mul(d))
		}
	}
	return r
}

func (p *Poly[C]) IsZero() bool { return len(p.t) == 0 }

// Const reports whether p is a constant.
func (p *Poly[C]) Const() (c C, ok bool) {
	if len(p.t) == 0 {
		return c, true
	}
	if len(p.t) == 1 {
		if c, ok := p.t[""]; ok {
			return c, true
		}
	}
	return c, false
}

func (p *Poly[C]) monos() []Mono {
	ms := make([]Mono, 0, len(p.t))
	for m := range p.t {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return monoLess(ms[i], ms[j]) })
	return ms
}

// monoLess is a graded order with larger monomials first.
func monoLess(a, b Mono) bool {
	da, db := a.deg(), b.deg()
	if da != db {
		return da > db
	}
	return a > b
}

func (p *Poly[C]) Key() string {
	if p.key == "" {
		var sb strings.Builder
		for _, m := range p.monos() {
			sb.WriteString(p.t[m].String())
			sb.WriteByte('*')
			sb.WriteString(string(m))
			sb.WriteByte('+')
		}
		p.key = "P" + sb.String()
	}
	return p.key
}

func (p *Poly[C]) Equal(o *Poly[C]) bool {
	if len(p.t) != len(o.t) {
		return false
	}
	return p.Sub(o).IsZero()
}

func (p *Poly[C]) vars() map[int]bool {
	r := map[int]bool{}
	for m := range p.t {
		for _, ve := range m.list() {
			r[ve.V] = true
		}
	}
	return r
}

func (p *Poly[C]) hasVar(v int) bool {
	for m := range p.t {
		if m.expOf(v) > 0 {
			return true
		}
	}
	return false
}

func (p *Poly[C]) Pow(n int, one C) *Poly[C] {
	r := constPoly(one)
	for i := 0; i < n; i++ {
		r = r.Mul(p)
	}
	return r
}

// subst replaces variable v by polynomial s.
func (p *Poly[C]) subst(v int, s *Poly[C], one C) *Poly[C] {
	if !p.hasVar(v) {
		return p
	}
	pows := []*Poly[C]{constPoly(one)}
	r := &Poly[C]{t: map[Mono]C{}}
	for m, c := range p.t {
		e := m.expOf(v)
		if e == 0 {
			r.accum(m, c)
			continue
		}
		for len(pows) <= e {
			pows = append(pows, pows[len(pows)-1].Mul(s))
		}
		rest := m.without(v)
		for n, d := range pows[e].t {
			r.accum(rest.mul(n), d.Mul(c))
		}
	}
	return r
}

func (p *Poly[C]) format(name func(int) string) string {
	if len(p.t) == 0 {
		return "0"
	}
	var parts []string
	for i, m := range p.monos() {
		if i >= 12 {
			parts = append(parts, fmt.Sprintf("... (%d terms)", len(p.t)))
			break
		}
		s := p.t[m].String()
		if len(s) > 24 {
			s = s[:10] + ".." + s[len(s)-6:]
		}
		for _, ve := range m.list() {
			s += "*" + name(ve.V)
			if ve.E > 1 {
				s += fmt.Sprintf("^%d", ve.E)
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, " + ")
}

// ---- integer coefficients

type Z struct{ *big.Int }

func (a Z) Add(b Z) Z      { return Z{new(big.Int).Add(a.Int, b.Int)} }
func (a Z) Mul(b Z) Z      { return Z{new(big.Int).Mul(a.Int, b.Int)} }
func (a Z) Neg() Z         { return Z{new(big.Int).Neg(a.Int)} }
func (a Z) IsZero() bool   { return a.Int == nil || a.Int.Sign() == 0 }
func (a Z) String() string { return a.Int.String() }

type NPoly = Poly[Z]

func zi(i int64) Z             { return Z{big.NewInt(i)} }
func nconst(i *big.Int) *NPoly { return constPoly(Z{i}) }
func nint(i int64) *NPoly      { return constPoly(zi(i)) }
func nvar(v int) *NPoly        { return termPoly(monoVar(v, 1), zi(1)) }
func nconstOf(p *NPoly) *big.Int { // nil when not constant
	c, ok := p.Const()
	if !ok {
		return nil
	}
	if c.Int == nil {
		return new(big.Int)
	}
	return c.Int
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// ---- coefficients in F_{q^2} = F_q[u]/(u^2+1)

type K struct{ a, b *big.Int }

var bigQ, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
var bigR, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
var bigX, _ = new(big.Int).SetString("-d201000000010000", 16)
var kzero = new(big.Int)

func modq(x *big.Int) *big.Int { return new(big.Int).Mod(x, bigQ) }

func kk(a, b *big.Int) K { return K{modq(a), modq(b)} }
func ki(i int64) K       { return kk(big.NewInt(i), kzero) }
func kbig(x *big.Int) K  { return kk(x, kzero) }

func (x K) Add(y K) K { return kk(new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b)) }
func (x K) Neg() K    { return kk(new(big.Int).Neg(x.a), new(big.Int).Neg(x.b)) }
func (x K) Mul(y K) K {
	if x.b.Sign() == 0 && y.b.Sign() == 0 {
		return K{modq(new(big.Int).Mul(x.a, y.a)), kzero}
	}
	ac := new(big.Int).Mul(x.a, y.a)
	bd := new(big.Int).Mul(x.b, y.b)
	ad := new(big.Int).Mul(x.a, y.b)
	bc := new(big.Int).Mul(x.b, y.a)
	return kk(ac.Sub(ac, bd), ad.Add(ad, bc))
}
func (x K) IsZero() bool { return x.a == nil || (x.a.Sign() == 0 && x.b.Sign() == 0) }
func (x K) Conj() K      { return kk(x.a, new(big.Int).Neg(x.b)) }
func (x K) Inv() K {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(modq(n), bigQ)
	return kk(new(big.Int).Mul(x.a, n), new(big.Int).Neg(new(big.Int).Mul(x.b, n)))
}
func (x K) Equal(y K) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func (x K) String() string {
	if x.b.Sign() == 0 {
		if x.a.BitLen() > 370 {
			return new(big.Int).Sub(x.a, bigQ).String()
		}
		return x.a.String()
	}
	return "(" + kbig(x.a).String() + "+" + kbig(x.b).String() + "u)"
}
func (x K) Exp(e *big.Int) K {
	r := ki(1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

type KPoly = Poly[K]

func kconst(c K) *KPoly   { return constPoly(c) }
func kint(i int64) *KPoly { return constPoly(ki(i)) }
func kvar(v int) *KPoly   { return termPoly(monoVar(v, 1), ki(1)) }
