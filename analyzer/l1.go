package main

// Level 1: field elements as atoms of the field domain.  Every function
// replaced here is replaced by its contract, which is an obligation of the
// property named next to it.

import (
	"fmt"
	"go/token"
	"math/big"
)

// reg remembers integers that represent an element.
type reg struct {
	e     *Elem
	words *ArrayV
	mont  bool
}

func fqKey() string  { return modPath + ".FQ" }
func fq2Key() string { return modPath + ".FQ2" }

// each forks over the alternatives of all values (pointers are loaded when
// ld is set) and calls k on the plain values.
func each(in *Interp, fr *Frame, st *State, vs []Val, k func(st *State, vs []Val) Val) Val {
	var rec func(st *State, i int, acc []Val) Val
	rec = func(st *State, i int, acc []Val) Val {
		if st.cond == bFalse {
			return nil
		}
		if i == len(vs) {
			return k(st, append([]Val(nil), acc...))
		}
		return in.fork(st, vs[i], func(st *State, v Val) Val {
			return rec(st, i+1, append(acc, v))
		})
	}
	return rec(st, 0, nil)
}

// elems loads the field elements behind vs.
func elems(in *Interp, fr *Frame, st *State, vs []Val, k func(st *State, es []*ElemV, ps []Val) Val) Val {
	return each(in, fr, st, vs, func(st *State, ps []Val) Val {
		ld := make([]Val, len(ps))
		for i, p := range ps {
			if pt, ok := p.(PtrV); ok {
				p = in.load(fr, st, pt, fr.site)
				if st.cond == bFalse {
					return nil
				}
			}
			ld[i] = p
		}
		return each(in, fr, st, ld, func(st *State, vs []Val) Val {
			es := make([]*ElemV, len(vs))
			for i, v := range vs {
				e, ok := v.(*ElemV)
				if !ok {
					in.fail(fr, token.NoPos, "field element expected, got %s", in.c.showV(v))
				}
				es[i] = e
			}
			return k(st, es, ps)
		})
	})
}

// mutator is an operation that replaces its receiver.
func mutator(ty string, n int, f func(in *Interp, st *State, es []*ElemV) *Elem) Intrinsic {
	return func(in *Interp, fr *Frame, st *State, args []Val) Val {
		if len(args) != n {
			in.fail(fr, token.NoPos, "%d arguments", len(args))
		}
		elems(in, fr, st, args, func(st *State, es []*ElemV, ps []Val) Val {
			r := f(in, st, es)
			if _, ok := ps[0].(PtrV); !ok {
				in.fail(fr, token.NoPos, "in-place operation on a value")
			}
			in.store(fr, st, ps[0], &ElemV{ty, r}, token.NoPos)
			return nil
		})
		return &TupleV{}
	}
}

func (g *G) elemConst(ty string, k K) *ElemV { return &ElemV{ty, g.c.F.konst(k)} }

func (in *Interp) isZeroE(st *State, e *Elem) B {
	return in.c.bdd.restrict(in.c.F.isZero(e.num, in.f(st)), st.cond)
}

// montWords are the words of the Montgomery form of a constant.
func constWords(x *big.Int, n int) *ArrayV {
	r := &ArrayV{}
	for i := 0; i < n; i++ {
		w := new(big.Int).Rsh(x, uint(64*i))
		w.And(w, new(big.Int).Sub(pow2(64), big.NewInt(1)))
		r.e = append(r.e, ibig(w))
	}
	return r
}

// wordsOfElem are the words of the integer an element stands for (or of its
// Montgomery form): constants are computed, others are named symbols.
func (in *Interp) wordsOfElem(e *Elem, mont bool) *ArrayV {
	if k, ok := e.Const(); ok {
		x := k.a
		if mont {
			x = modq(new(big.Int).Lsh(x, 384))
		}
		return constWords(x, 6)
	}
	for _, r := range in.regs {
		if r.mont == mont && in.c.F.Equal(r.e, e) {
			return r.words
		}
	}
	nm := fmt.Sprintf("canon%d.", len(in.regs))
	if mont {
		nm = fmt.Sprintf("mont%d.", len(in.regs))
	}
	w := &ArrayV{}
	for i := 0; i < 6; i++ {
		hi := new(big.Int).Sub(pow2(64), big.NewInt(1))
		if i == 5 {
			hi = new(big.Int).Rsh(bigQ, 320)
		}
		w.e = append(w.e, IntV{in.c.intSym(fmt.Sprintf("%s%d", nm, i), new(big.Int), hi)})
	}
	in.c.assumeGE(nconst(bigQ).Sub(nint(1)).Sub(wordSum(w)))
	in.regs = append(in.regs, reg{e, w, mont})
	return w
}

// elemOfWords is the element represented by words.
func (in *Interp) elemOfWords(w *ArrayV, mont bool) *Elem {
	w = intWords(in.c, w)
	s := wordSum(w)
	if k := nconstOf(s); k != nil {
		if mont {
			ri := new(big.Int).ModInverse(pow2(384), bigQ)
			k = new(big.Int).Mul(k, ri)
		}
		return in.c.F.konst(kbig(k))
	}
	for _, r := range in.regs {
		if r.mont == mont && wordSum(r.words).Equal(s) {
			return r.e
		}
	}
	id := len(in.regs)
	nm := fmt.Sprintf("int%d", id)
	if mont {
		nm = fmt.Sprintf("raw%d", id)
	}
	e := in.c.F.elem(in.c.F.sym(nm, true))
	in.regs = append(in.regs, reg{e, w, mont})
	return e
}

// orderLt is the (opaque) strict order of the integers of two elements.
func (in *Interp) orderLt(st *State, tag string, a, b *Elem) B {
	c, d := in.c, in.c.bdd
	ka, oka := a.Const()
	kb, okb := b.Const()
	if oka && okb {
		r := ka.b.Cmp(kb.b)
		if r == 0 {
			r = ka.a.Cmp(kb.a)
		}
		if r < 0 {
			return bTrue
		}
		return bFalse
	}
	eq := c.F.isZero(a.num.Mul(b.den).Sub(b.num.Mul(a.den)), in.f(st))
	if eq == bTrue {
		return bFalse
	}
	if c.F.uni {
		if r, ok := in.orderNeg(st, tag, a, b); ok {
			return r
		}
	}
	// nothing is below zero
	if okb && kb.IsZero() {
		return bFalse
	}
	if oka && ka.IsZero() {
		return d.not(eq)
	}
	// canonical pair, up to equality of the elements
	for i, p := range in.pairs {
		if p.tag != tag {
			continue
		}
		at := d.atom(c.mkAtom(fmt.Sprintf("order%d", i), Atom{kind: aOpaque, name: c.F.show(p.a) + " < " + c.F.show(p.b)}))
		if c.F.Equal(p.a, a) && c.F.Equal(p.b, b) {
			return d.and(d.not(eq), at)
		}
		if c.F.Equal(p.a, b) && c.F.Equal(p.b, a) {
			return d.and(d.not(eq), d.not(at))
		}
	}
	i := len(in.pairs)
	in.pairs = append(in.pairs, ordPair{tag, a, b})
	at := d.atom(c.mkAtom(fmt.Sprintf("order%d", i), Atom{kind: aOpaque, name: c.F.show(a) + " < " + c.F.show(b)}))
	return d.and(d.not(eq), at)
}

// upper is the condition that the integer of e is above (q-1)/2; exactly one of
// e, -e is, unless e is zero.
func (in *Interp) upper(st *State, e *Elem) B {
	c, d, F := in.c, in.c.bdd, in.c.F
	half := new(big.Int).Rsh(bigQ, 1)
	if k, ok := e.Const(); ok {
		if k.a.Cmp(half) > 0 {
			return bTrue
		}
		return bFalse
	}
	is := func(e *Elem, k *big.Int) B { return F.isZero(F.Sub(e, F.konst(kbig(k))).num, in.f(st)) }
	ix, neg := -1, false
	for i, u := range in.uppers {
		if F.Equal(u, e) {
			ix = i
		} else if F.Equal(u, F.Neg(e)) {
			ix, neg = i, true
		}
	}
	if ix < 0 {
		ix = len(in.uppers)
		in.uppers = append(in.uppers, e)
	}
	u := in.uppers[ix]
	nz := d.not(F.isZero(u.num, in.f(st)))
	at := d.atom(c.mkAtom(fmt.Sprintf("upper%d", ix), Atom{kind: aOpaque, name: c.F.show(u) + " > (q-1)/2"}))
	up := d.and(nz, d.and(d.not(is(u, half)), at))
	up = d.or(up, is(u, new(big.Int).Add(half, big.NewInt(1))))
	if neg {
		up = d.and(nz, d.not(up))
	}
	return up
}

// upperAx: an element has one value at a time.
func (in *Interp) upperAx(st *State) B {
	d, F := in.c.bdd, in.c.F
	half := new(big.Int).Rsh(bigQ, 1)
	half1 := new(big.Int).Add(half, big.NewInt(1))
	r := bTrue
	for _, u := range in.uppers {
		var is []B
		for _, k := range []*big.Int{half, half1, new(big.Int)} {
			is = append(is, F.isZero(F.Sub(u, F.konst(kbig(k))).num, in.f(st)))
		}
		for i := range is {
			for j := 0; j < i; j++ {
				r = d.and(r, d.not(d.and(is[i], is[j])))
			}
		}
	}
	return r
}

// zeroAx: what linear equations say about the other polynomials asked about.
func (c *Ctx) zeroAx() B {
	d, F := c.bdd, c.F
	r := bTrue
	for i, l := range c.atoms {
		if l.kind != aKZero || F.deg(l.k) != 1 {
			continue
		}
		f := &Facts{kz: []*KPoly{l.k}}
		li := d.atom(i)
		for j, a := range c.atoms {
			if i == j || a.kind != aKZero {
				continue
			}
			p := F.reduce(F.norm(a.k), f)
			if len(p.t) == 0 {
				r = d.and(r, d.or(d.not(li), d.atom(j)))
			} else if _, ok := p.Const(); ok {
				r = d.and(r, d.or(d.not(li), d.not(d.atom(j))))
			}
		}
	}
	return r
}

// orderNeg decides comparisons of an element with the middle of the field and
// with its own negative.
func (in *Interp) orderNeg(st *State, tag string, a, b *Elem) (B, bool) {
	d, F := in.c.bdd, in.c.F
	half := new(big.Int).Rsh(bigQ, 1)
	half1 := new(big.Int).Add(half, big.NewInt(1))
	ka, oka := a.Const()
	kb, okb := b.Const()
	zero := func(e *Elem) B { return F.isZero(e.num, in.f(st)) }
	eq := func() B { return zero(F.Sub(a, b)) }
	switch {
	case tag == "FQ" && okb && kb.a.Cmp(half) == 0:
		return d.and(d.not(eq()), d.not(in.upper(st, a))), true
	case tag == "FQ" && okb && kb.a.Cmp(half1) == 0:
		return d.not(in.upper(st, a)), true
	case tag == "FQ" && oka && ka.a.Cmp(half) == 0:
		return in.upper(st, b), true
	case tag == "FQ" && oka && ka.a.Cmp(half1) == 0:
		return d.and(d.not(eq()), in.upper(st, b)), true
	case oka || okb || !F.Equal(a, F.Neg(b)):
		return 0, false
	case tag == "FQ":
		return d.and(d.not(zero(a)), d.not(in.upper(st, a))), true
	}
	return d.and(d.not(zero(a)), d.not(in.upper2(st, a))), true
}

// upper2 is the condition that a non-zero element of F_q2 is greater than its
// negative.
func (in *Interp) upper2(st *State, e *Elem) B {
	d, F := in.c.bdd, in.c.F
	c0, c1 := F.parts(e)
	z := F.isZero(c1.num, in.f(st))
	real := &State{d.and(st.cond, z), st.heap} // c0 is only asked about when c1 is zero
	return d.ite(z, in.upper(real, c0), in.upper(st, c1))
}

type ordPair struct {
	tag  string
	a, b *Elem
}

// useFQ makes FQ atomic.
func (g *G) useFQ() {
	in, c := g.in, g.c
	F := c.F
	in.zeroAt[fqKey()] = func(in *Interp) Val { return &ElemV{"FQ", F.konst(ki(0))} }
	set := func(name string, h Intrinsic) {
		if f := g.P.method(modPath, "FQ", name); f != nil {
			in.intr[f.String()] = h
		}
	}
	fset := func(name string, h Intrinsic) {
		if f := g.P.fn(modPath, name); f != nil {
			in.intr[f.String()] = h
		}
	}
	fieldIntr(in, "FQ", set)
	// C02
	set("ToRepr", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val { return in.wordsOfElem(es[0].e, false) })
	})
	cmp := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
			return in.orderVal(st, "FQ", es[0].e, es[1].e)
		})
	}
	set("Cmp", cmp)
	conv := func(mont bool) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return each(in, fr, st, a, func(st *State, vs []Val) Val {
				w := wordsOf(in, fr, st, vs[0])
				s := wordSum(intWords(c, w))
				big := c.bdd.not(c.lt0(s.Sub(nconst(bigQ)), in.f(st)))
				big = c.bdd.restrict(big, st.cond)
				if mont && big != bFalse {
					in.fail(fr, fr.site, "raw words that may not be below the modulus")
				}
				if big == bTrue {
					return &ElemV{"FQ", F.konst(ki(0))}
				}
				e := &ElemV{"FQ", in.elemOfWords(w, mont)}
				return c.gamma(big, &ElemV{"FQ", F.konst(ki(0))}, e)
			})
		}
	}
	fset("FQReprToFQ", conv(false))
	fset("FQReprToFQRaw", conv(true))
	in.comp = func(in *Interp, v Val, i int) Val {
		e, ok := v.(*ElemV)
		if !ok {
			return nil
		}
		switch e.ty {
		case "FQ":
			if i == 0 {
				return in.wordsOfElem(e.e, true)
			}
		case "FQ2":
			c0, c1 := F.parts(e.e)
			return &ElemV{"FQ", []*Elem{c0, c1}[i]}
		}
		return nil
	}
	in.setComp = func(in *Interp, v Val, i int, nv Val) Val {
		e, ok := v.(*ElemV)
		if !ok {
			return nil
		}
		switch e.ty {
		case "FQ":
			if a, ok := nv.(*ArrayV); ok && i == 0 {
				s := wordSum(intWords(c, a))
				if lo, hi := c.bounds(s, c.base); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(bigQ) >= 0 {
					panic(Unresolved{"raw words that may not be below the modulus"})
				}
				return &ElemV{"FQ", in.elemOfWords(a, true)}
			}
		case "FQ2":
			if gv, ok := nv.(*GammaV); ok {
				r := &GammaV{}
				for _, al := range gv.alts {
					r.alts = append(r.alts, Alt{al.b, in.setComp(in, v, i, al.v)})
				}
				return r
			}
			x, ok := nv.(*ElemV)
			if !ok {
				return nil
			}
			c0, c1 := F.parts(e.e)
			if i == 0 {
				c0 = x.e
			} else {
				c1 = x.e
			}
			return &ElemV{"FQ2", F.compose(c0, c1)}
		}
		return nil
	}
}

// parts are the coefficients of c0 + c1 u.
func (d *FieldDom) parts(e *Elem) (c0, c1 *Elem) {
	if k, ok := e.Const(); ok {
		return d.konst(kk(k.a, kzero)), d.konst(kk(k.b, kzero))
	}
	cj := d.Conj(e)
	half := ki(2).Inv()
	hu := kk(kzero, big.NewInt(2)).Inv()
	return d.Scale(d.Add(e, cj), half), d.Scale(d.Sub(e, cj), hu)
}

func (d *FieldDom) compose(c0, c1 *Elem) *Elem {
	return d.Add(c0, d.Scale(c1, kk(kzero, big.NewInt(1))))
}

// orderVal is -1, 0, 1.
func (in *Interp) orderVal(st *State, tag string, a, b *Elem) Val {
	c := in.c
	eq := c.F.isZero(a.num.Mul(b.den).Sub(b.num.Mul(a.den)), in.f(st))
	lt := in.orderLt(st, tag, a, b)
	eq, lt = c.bdd.restrict(eq, st.cond), c.bdd.restrict(lt, st.cond)
	return c.gamma(eq, iconst(0), c.gamma(lt, iconst(-1), iconst(1)))
}

// fieldIntr installs the contracts common to FQ and FQ2 (C02, C06, C04).
func fieldIntr(in *Interp, ty string, set func(string, Intrinsic)) {
	c := in.c
	F := c.F
	mk := func(e *Elem) Val { return &ElemV{ty, e} }
	set("AddAssign", mutator(ty, 2, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Add(e[0].e, e[1].e) }))
	set("SubAssign", mutator(ty, 2, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Sub(e[0].e, e[1].e) }))
	set("MulAssign", mutator(ty, 2, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Mul(e[0].e, e[1].e) }))
	set("SquareAssign", mutator(ty, 1, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Mul(e[0].e, e[0].e) }))
	set("NegAssign", mutator(ty, 1, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Neg(e[0].e) }))
	set("DoubleAssign", mutator(ty, 1, func(in *Interp, st *State, e []*ElemV) *Elem { return F.Add(e[0].e, e[0].e) }))
	set("Copy", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val { return es[0] })
	})
	set("Equals", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val { return BoolV{in.elemEq(st, es[0], es[1])} })
	})
	set("IsZero", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val { return BoolV{in.isZeroE(st, es[0].e)} })
	})
	// Inverse: (1/e, true) or (zero, false)
	set("Inverse", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
			z := in.isZeroE(st, es[0].e)
			no := &TupleV{[]Val{mk(F.konst(ki(0))), BoolV{bFalse}}}
			if z == bTrue {
				return no
			}
			return c.gamma(z, no, &TupleV{[]Val{mk(F.Inv(es[0].e)), BoolV{bTrue}}})
		})
	})
	set("InverseAssign", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
			z := in.isZeroE(st, es[0].e)
			if z == bTrue {
				return BoolV{bFalse}
			}
			in.store(fr, st, ps[0], c.gamma(z, es[0], mk(F.Inv(es[0].e))), token.NoPos)
			return BoolV{c.bdd.not(z)}
		})
	})
}

// useFQ2 makes FQ2 atomic as well.
func (g *G) useFQ2() {
	in, c := g.in, g.c
	F := c.F
	in.zeroAt[fq2Key()] = func(in *Interp) Val { return &ElemV{"FQ2", F.konst(ki(0))} }
	set := func(name string, h Intrinsic) {
		if f := g.P.method(modPath, "FQ2", name); f != nil {
			in.intr[f.String()] = h
		}
	}
	fieldIntr(in, "FQ2", set)
	set("MultiplyByNonresidueAssign", mutator("FQ2", 1, func(in *Interp, st *State, e []*ElemV) *Elem {
		return F.Scale(e[0].e, kk(big.NewInt(1), big.NewInt(1)))
	}))
	set("FrobeniusMapAssign", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a[:1], func(st *State, es []*ElemV, ps []Val) Val {
			p := in.asInt(fr, a[1])
			par := p.Sub(c.floor(p, 1, in.f(st)).Scale(zi(2)))
			odd := c.bdd.not(c.eq0(par, in.f(st)))
			in.store(fr, st, ps[0], c.gamma(c.bdd.restrict(odd, st.cond), &ElemV{"FQ2", F.Conj(es[0].e)}, es[0]), token.NoPos)
			return &TupleV{}
		})
	})
	set("Norm", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
			return &ElemV{"FQ", F.Mul(es[0].e, F.Conj(es[0].e))}
		})
	})
	set("Cmp", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
			return in.orderVal(st, "FQ2", es[0].e, es[1].e)
		})
	})
	if f := g.P.fn(modPath, "NewFQ2"); f != nil {
		in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
				return &ElemV{"FQ2", F.compose(es[0].e, es[1].e)}
			})
		}
	}
}
