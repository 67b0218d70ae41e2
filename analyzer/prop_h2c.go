package main

// C24: the curve maps, the isogenies, cofactor clearing, and the encodings
// built from them.

import (
	"fmt"
	"go/token"
	"math/big"
)

type isoCurve struct {
	cv                        *curve
	mapN, isoN, mapAll, clear string
	a, b                      K // y^2 = x^3 + ax + b
	xi                        K
	deg                       int // of the isogeny
	lx, ly                    K   // its leading coefficients
}

func hexK(s string) K { v, _ := new(big.Int).SetString(s, 16); return kbig(v) }

var isoCurves = []isoCurve{
	{cv: &curves[0], mapN: "optimizedSWUMapHelper", isoN: "iso11", mapAll: "optimizedSWUMap", clear: "ClearH",
		a:  hexK("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"),
		b:  hexK("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"),
		xi: ki(-1), deg: 11,
		lx: hexK("6e08c248e260e70bd1e962381edee3d31d79d7e22c837bc23c0bf1bc24c6b68c24b1b80b64d391fa9c8ba2e8ba2d229"),
		ly: hexK("15e6be4e990f03ce4ea50b3b42df2eb5cb181d8f84965a3957add4fa95af01b2b665027efec01c7704b456be69c8b604")},
	{cv: &curves[1], mapN: "OptimizedSWU2MapHelper", isoN: "iso3", mapAll: "optimizedSWUMap2", clear: "clearH2",
		a: kk(kzero, big.NewInt(240)), b: kk(big.NewInt(1012), big.NewInt(1012)), xi: kXi, deg: 3,
		lx: hexK("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"),
		ly: hexK("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10")},
}

func (ic *isoCurve) rhs(F *FieldDom, x *Elem) *Elem {
	return F.Add(F.Add(F.Mul(x, F.Mul(x, x)), F.Scale(x, ic.a)), F.konst(ic.b))
}

func h2cMaps(r *Run, arch string, ic *isoCurve) {
	cv := ic.cv
	r.group(arch+"/"+ic.mapN, func(g *G) {
		g.l1(arch, cv.fq2)
		g.c.F.uni = true
		g.useSqrt()
		F, d := g.c.F, g.c.bdd
		fn := g.fn(ic.mapN)
		where := g.where(fn)
		t := cv.fsym(g, "t")
		mark, h0 := len(g.in.panics), g.st.heap
		v := g.callA(fn, cv.fv(t))
		g.noPanics(ic.mapN, mark, where)
		g.frame(ic.mapN+" changes nothing", where, h0)
		upper := func(st *State, e *Elem) B {
			if cv.fq2 {
				return d.and(d.not(F.isZero(e.num, g.in.f(st))), g.in.upper2(st, e))
			}
			return g.in.upper(st, e)
		}
		g.allAlts(ic.mapN+": a finite point of the isogenous curve", where, v, func(a *allOb, st *State, fs []Val) {
			f := g.in.f(st)
			x, y := fs[0].(*ElemV).e, fs[1].(*ElemV).e
			if g.in.asBool(nil, st, fs[2]) != bFalse {
				a.fail("flagged as the identity when %s", g.c.showB(st.cond))
			} else if !F.EqualUnder(F.Mul(y, y), ic.rhs(F, x), f) {
				a.fail("y^2 is not x^3+A'x+B' for x = %s, y = %s when %s", F.show(x), F.show(y), g.c.showB(st.cond))
			}
		})
		g.allAlts(ic.mapN+": the sign of y is that of t", where, v, func(a *allOb, st *State, fs []Val) {
			y := fs[1].(*ElemV).e
			nz := d.not(F.isZero(y.num, g.in.f(st)))
			s0 := &State{bTrue, st.heap}
			bad := d.and(d.and(st.cond, nz), d.xor(upper(s0, y), upper(s0, t)))
			bad = d.and(d.and(bad, g.in.upperAx(s0)), g.c.zeroAx())
			if cv.fq2 { // a non-zero element has a non-zero coefficient
				for _, e := range []*Elem{t, y} {
					c0, c1 := F.parts(e)
					z := d.and(F.isZero(c0.num, g.c.base), F.isZero(c1.num, g.c.base))
					bad = d.and(bad, d.or(d.not(z), F.isZero(e.num, g.c.base)))
				}
			}
			if bad != bFalse {
				a.fail("different signs of t and y when %s; y = %s", g.c.showB(bad), F.show(y))
			}
		})
		// the candidates are the two of the simplified SWU map
		g.allAlts(ic.mapN+": x is the first candidate exactly when that is on the curve", where, v, func(a *allOb, st *State, fs []Val) {
			x := fs[0].(*ElemV).e
			f := g.in.f(st)
			t2 := F.Scale(F.Mul(t, t), ic.xi)
			com := F.Add(F.Mul(t2, t2), t2)
			var x0 *Elem
			zero := d.restrict(F.isZero(com.num, f), st.cond)
			if zero == bTrue {
				x0 = F.konst(ic.b.Mul(ic.xi.Mul(ic.a).Inv()))
			} else if zero == bFalse {
				x0 = F.Mul(F.konst(ic.b.Neg().Mul(ic.a.Inv())), F.Add(F.konst(ki(1)), F.Inv(com)))
			} else {
				a.fail("the exceptional inputs are not told apart: x = %s when %s", F.show(x), g.c.showB(st.cond))
				return
			}
			ty := cv.fld
			sq := d.restrict(g.c.squareAtom(ty, ic.rhs(F, x0)), st.cond)
			switch {
			case sq == bTrue && F.EqualUnder(x, x0, f):
			case sq == bFalse && F.EqualUnder(x, F.Mul(t2, x0), f):
			default:
				a.fail("x = %s when %s", F.show(x), g.c.showB(st.cond))
			}
		})
	})
}

// h2cIso: the isogeny on every point of its curve.
func h2cIso(r *Run, arch string, ic *isoCurve) {
	cv := ic.cv
	r.group(arch+"/"+ic.isoN, func(g *G) {
		g.l1(arch, cv.fq2)
		g.c.F.uni = true
		F, d := g.c.F, g.c.bdd
		fn := g.fn(ic.isoN)
		where := g.where(fn)
		x, y := cv.fsym(g, "x"), cv.fsym(g, "y")
		F.addSquare(y.num, ic.rhs(F, x).num)
		a := cv.affObj(g, pt{x, y})
		av := g.deref(a)
		mark, h0 := len(g.in.panics), g.st.heap
		v := g.callA(fn, a)
		g.noPanics(ic.isoN, mark, where)
		g.frame(ic.isoN+" changes nothing", where, h0)
		g.unchanged(ic.isoN+": argument unchanged", where, a, av)
		// x = c is impossible when c^3+A'c+B' is not a square
		ax, atC := bTrue, bFalse
		xv := kvarOf(x.num)
		for _, id := range F.lins[xv] {
			k := g.c.atoms[id].k
			c0 := k.t[""]
			if c0.a == nil {
				c0 = ki(0)
			}
			if k.t[monoVar(xv, 1)].a == nil {
				continue
			}
			c, _ := ic.rhs(F, F.konst(c0.Neg().Mul(k.t[monoVar(xv, 1)].Inv()))).Const()
			sq := c.IsZero() || (!cv.fq2 && isSquareFq(c.a)) || (cv.fq2 && isSquareK(c))
			if sq {
				atC = d.or(atC, d.atom(id))
			} else {
				ax = d.and(ax, d.not(d.atom(id)))
			}
		}
		n := 0
		g.allAlts(ic.isoN+": every point of the isogenous curve goes to the target curve", where, v, func(a *allOb, st *State, fs []Val) {
			cond := d.and(st.cond, ax)
			if cond == bFalse {
				return
			}
			n++
			st2 := &State{cond, st.heap}
			f := g.in.f(st2)
			X, Y := fs[0].(*ElemV).e, fs[1].(*ElemV).e
			inf := d.restrict(g.in.asBool(nil, st2, fs[2]), cond)
			if inf == bTrue {
				if d.and(cond, d.not(atC)) != bFalse {
					a.fail("a point that is not in the kernel goes to the identity when %s", g.c.showB(cond))
				}
				return
			}
			if inf != bFalse {
				a.fail("the identity flag is not decided when %s", g.c.showB(cond))
			} else if d.and(cond, atC) != bFalse {
				a.fail("a point of the kernel goes to a finite point when %s", g.c.showB(d.and(cond, atC)))
			} else if rhs := F.Add(F.Mul(X, F.Mul(X, X)), F.konst(cv.b)); !F.EqualUnder(F.Mul(Y, Y), rhs, f) {
				a.fail("the image (%s, %s) is not on the target curve when %s", F.show(X), F.show(Y), g.c.showB(cond))
			} else {
				// the isogeny: its degree and leading coefficients
				lead := func(e *Elem, with int) (int, K) {
					top, co := -1, ki(0)
					for m, c := range e.num.t {
						if with != 0 && m.expOf(with) != 1 {
							return 0, ki(0)
						}
						if k := m.expOf(xv); k > top {
							top, co = k, c
						}
					}
					dt, dc := -1, ki(1)
					for m, c := range e.den.t {
						if k := m.expOf(xv); k > dt {
							dt, dc = k, c
						}
					}
					return top - dt, co.Mul(dc.Inv())
				}
				dx, lx := lead(X, 0)
				dy, ly := lead(Y, kvarOf(y.num))
				deg := 0
				for m := range X.num.t {
					if k := m.expOf(xv); k > deg {
						deg = k
					}
				}
				if deg != ic.deg || dx != 1 || dy != 0 || !lx.Equal(ic.lx) || !ly.Equal(ic.ly) {
					a.fail("the map is not the isogeny of the suite: degree %d, leading coefficients %v and %v", deg, lx, ly)
				}
			}
		})
		g.ob(ic.isoN+": some point is mapped", n > 0, where, "no alternative is feasible")
	})
}

// h2cCompose: the two mapped points are added on the target curve and cleared.
func h2cCompose(r *Run, arch string, ic *isoCurve) {
	cv := ic.cv
	for _, two := range []bool{true, false} {
		two := two
		nm := "two inputs"
		if !two {
			nm = "one input"
		}
		r.group(arch+"/"+ic.mapAll+"/"+nm, func(g *G) {
			g.l1(arch, true)
			g.usePoints()
			g.useMul()
			conv := g.pointConv(cv)
			fn, mp, iso, clr := g.fn(ic.mapAll), g.fn(ic.mapN), g.fn(ic.isoN), g.fn(ic.clear)
			where := g.where(fn)
			t := []*Elem{cv.fsym(g, "t1"), cv.fsym(g, "t2")}
			id := "E'" + cv.name
			g.in.intr[mp.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
					for i, e := range t {
						if g.c.F.Equal(es[0].e, e) {
							return in.newPtr(st, in.c.grpSym(id, fmt.Sprintf("map(t%d)", i+1), nil))
						}
					}
					in.fail(fr, fr.site, "the curve map is given %s", in.c.F.show(es[0].e))
					return nil
				})
			}
			g.in.intr[iso.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return grpGet(in, fr, st, a[0], PtrV{}, conv, func(st *State, p *GrpV, _ PtrV) Val {
					q := &GrpV{ty: cv.name, t: map[int]*NPoly{}}
					for k, co := range p.t {
						nm := in.c.syms[k].name
						if p.ty != id {
							in.fail(fr, fr.site, "the isogeny is applied to a point of the target curve")
						}
						q = in.c.grpAdd(q, in.c.grpScale(in.c.grpSym(cv.name, "iso("+nm+")", nil), co))
					}
					if len(p.t) != 1 {
						in.fail(fr, fr.site, "the isogeny is applied to %s: the addition formulas do not hold on the isogenous curve", in.c.showGrp(p))
					}
					return in.newPtr(st, q)
				})
			}
			res := g.newPtr(&OpqV{"cleared", nil})
			calls := 0
			want := g.c.grpSym(cv.name, "iso(map(t1))", nil)
			if two {
				want = g.c.grpAdd(want, g.c.grpSym(cv.name, "iso(map(t2))", nil))
			}
			g.in.intr[clr.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				calls++
				st0 := g.st
				g.st = *st
				g.sameGrp(ic.mapAll+": the sum of the mapped points is cleared ("+nm+")", where, a[0], want, conv)
				g.st = st0
				return res
			}
			args := []Val{g.newPtr(cv.fv(t[0])), PtrV{}}
			if two {
				args[1] = g.newPtr(cv.fv(t[1]))
			}
			mark, h0 := len(g.in.panics), g.st.heap
			v := g.callA(fn, args...)
			g.ob(ic.mapAll+": clears once ("+nm+")", calls == 1, where, "%d calls", calls)
			g.ob(ic.mapAll+": returns the cleared point ("+nm+")", veq(g.c.simp(v, g.st.cond), res), where, "returns %s", g.c.showV(v))
			g.frame(ic.mapAll+" changes nothing ("+nm+")", where, h0)
			g.noPanics(ic.mapAll, mark, where)
		})
	}
}

// ---- the endomorphism ring Z[w], w^2+w+1 = 0

type zw struct{ a, b *big.Int }

func (x zw) add(y zw) zw { return zw{new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b)} }
func (x zw) mul(y zw) zw {
	ac, bd := new(big.Int).Mul(x.a, y.a), new(big.Int).Mul(x.b, y.b)
	m := new(big.Int).Add(new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a))
	return zw{ac.Sub(ac, bd), m.Sub(m, bd)}
}
func (x zw) conj() zw { return zw{new(big.Int).Sub(x.a, x.b), new(big.Int).Neg(x.b)} }
func (x zw) norm() *big.Int {
	n := x.mul(x.conj())
	return n.a
}
func zwInt(n *big.Int) zw { return zw{n, new(big.Int)} }

// divides reports that x divides y.
func (x zw) divides(y zw) bool {
	n, q := x.norm(), y.mul(x.conj())
	return new(big.Int).Mod(q.a, n).Sign() == 0 && new(big.Int).Mod(q.b, n).Sign() == 0
}

// frobZ is the q-power Frobenius of y^2 = x^3 + 4 as an element of Z[w].
func frobZ() (zw, bool) {
	tr := new(big.Int).Add(bigX, big.NewInt(1))
	d := new(big.Int).Sub(new(big.Int).Lsh(bigQ, 2), new(big.Int).Mul(tr, tr))
	d.Div(d, big.NewInt(3))
	f := new(big.Int).Sqrt(d)
	ok := new(big.Int).Mul(f, f).Cmp(d) == 0
	a := new(big.Int).Add(tr, f)
	ok = ok && a.Bit(0) == 0
	p := zw{a.Rsh(a, 1), f}
	return p, ok && p.norm().Cmp(bigQ) == 0
}

// twistZ is the q^2-power Frobenius of the twist, which is the identity on
// E'(F_q2): the unit multiple of psi^2 that gives the number of points.
func (cv *curve) frobIdentity() (zw, bool) {
	psi, ok := frobZ()
	one := zwInt(big.NewInt(1))
	order := new(big.Int).Mul(cv.cofactor(), bigR)
	if !cv.fq2 {
		m := psi.add(zwInt(big.NewInt(-1)))
		return m, ok && m.norm().Cmp(order) == 0
	}
	w := zw{new(big.Int), big.NewInt(1)}
	var res zw
	n := 0
	for s := int64(-1); s <= 1; s += 2 {
		u := zwInt(big.NewInt(s))
		for k := 0; k < 3; k++ {
			m := u.mul(psi.mul(psi)).add(zw{new(big.Int).Neg(one.a), new(big.Int)})
			if m.norm().Cmp(order) == 0 {
				res = m
				n++
			}
			u = u.mul(w)
		}
	}
	return res, ok && n == 1
}

// h2cClear: clearing multiplies by the effective cofactor.
func h2cClear(r *Run, arch string, ic *isoCurve) {
	cv := ic.cv
	setup := func(g *G) grpConv {
		g.l1(arch, true)
		g.usePoints()
		g.useMul()
		return g.usePsi(cv)
	}
	r.group(arch+"/"+ic.clear+"/identity", func(g *G) {
		conv := setup(g)
		fn := g.fn(ic.clear)
		mark := len(g.in.panics)
		v := g.callA(fn, g.newPtr(&GrpV{ty: cv.name, t: map[int]*NPoly{}}))
		g.sameGrp(ic.clear+": the identity stays", g.where(fn), v, &GrpV{ty: cv.name, t: map[int]*NPoly{}}, conv)
		g.noPanics(ic.clear, mark, g.where(fn))
	})
	r.group(arch+"/"+ic.clear+"/finite", func(g *G) {
		conv := setup(g)
		fn := g.fn(ic.clear)
		where := g.where(fn)
		p := g.c.grpSym(cv.name, "P", nil)
		a := g.newPtr(p)
		odd := new(big.Int).Mul(cv.cofactor(), bigR).Bit(0) == 1
		for e := 0; e < 4; e++ { // P is finite, and so are its images and, the order being odd, their doubles
			q := g.c.grpSym(cv.name, psiName("P", e), nil)
			g.assume(g.c.bdd.not(g.c.grpIsZero(q)))
			if odd {
				g.assume(g.c.bdd.not(g.c.grpIsZero(g.c.grpAdd(q, q))))
			}
		}
		mark, h0 := len(g.in.panics), g.st.heap
		v := g.callA(fn, a)
		psi, _ := frobZ()
		m, mok := cv.frobIdentity()
		g.ob("reference: the order of the curve and its endomorphism", mok, where, "reference")
		// the effective cofactor
		x := bigX
		want := zwInt(new(big.Int).Sub(big.NewInt(1), x))
		if cv.fq2 {
			x2 := new(big.Int).Mul(x, x)
			x2.Sub(x2, x).Sub(x2, big.NewInt(1))
			want = zwInt(x2).add(zwInt(new(big.Int).Sub(x, big.NewInt(1))).mul(psi)).add(zwInt(big.NewInt(2)).mul(psi.mul(psi)))
		}
		g.ob("reference: r times the effective cofactor kills every point", mok && m.divides(want.mul(zwInt(bigR))), where, "reference")
		st := g.st
		ok, why, n := true, "", 0
		fr := &Frame{in: g.in, fn: fn}
		grpGet(g.in, fr, &st, v, PtrV{}, conv, func(st *State, gr *GrpV, _ PtrV) Val {
			n++
			got := zwInt(new(big.Int))
			for k, co := range gr.t {
				c := nconstOf(co)
				e, is := g.psiPow(k, "P")
				if c == nil || !is {
					ok, why = false, "returns "+g.c.showGrp(gr)
					return nil
				}
				w := zwInt(c)
				for ; e > 0; e-- {
					w = w.mul(psi)
				}
				got = got.add(w)
			}
			neg := zw{new(big.Int).Neg(want.a), new(big.Int).Neg(want.b)}
			if mok && !m.divides(got.add(neg)) {
				ok, why = false, "returns "+g.c.showGrp(gr)+", which is not the effective cofactor multiple"
			}
			return nil
		})
		g.ob(ic.clear+": the multiple by the effective cofactor", ok && n > 0, where, "%s", why)
		g.frame(ic.clear+" changes nothing", where, h0)
		g.noPanics(ic.clear, mark, where)
	})
	if !cv.fq2 {
		return
	}
	for _, id := range []bool{false, true} {
		id := id
		nm := "finite"
		if id {
			nm = "identity"
		}
		r.group(arch+"/psi/"+nm, func(g *G) {
			g.l1(arch, true)
			fn := g.P.role("psi")
			if fn == nil { // part of the clearing function
				g.ob("psi is part of the clearing function", true, ic.clear, "")
				return
			}
			F := g.c.F
			p := pt{}
			want := p
			if !id {
				p = cv.point(g, "1")
				cx, cy := psiCoef()
				want = pt{F.Scale(F.Conj(p.x), cx), F.Scale(F.Conj(p.y), cy)}
				rhs := F.Add(F.Mul(want.x, F.Mul(want.x, want.x)), F.konst(cv.b))
				g.ob("reference: psi maps the curve to itself", F.Equal(F.Mul(want.y, want.y), rhs), "", "reference")
			}
			a := cv.affObj(g, p)
			av := g.deref(a)
			mark := len(g.in.panics)
			v := g.callA(fn, a)
			cv.isAff(g, "psi: the twisted Frobenius map", g.where(fn), v, want)
			g.unchanged("psi: argument unchanged", g.where(fn), a, av)
			g.noPanics("psi", mark, g.where(fn))
		})
	}
}

func psiCoef() (cx, cy K) {
	e := new(big.Int).Sub(bigQ, big.NewInt(1))
	return kXi.Exp(new(big.Int).Div(e, big.NewInt(3))).Inv(), kXi.Exp(new(big.Int).Rsh(e, 1)).Inv()
}

// psiPow reads a generator symbol as a power of psi applied to base.
func (g *G) psiPow(k int, base string) (int, bool) {
	nm := g.c.syms[k].name
	for i := 0; i < 12; i++ {
		if nm == psiName(base, i) {
			return i, true
		}
	}
	return 0, false
}

func psiName(base string, k int) string {
	if k == 0 {
		return base
	}
	return fmt.Sprintf("psi^%d(%s)", k, base)
}

// usePsi gives the group elements coordinates, so that maps on coordinates are
// recognised: (x, y) with x, y those of a known point transformed by the
// powers of the twisted Frobenius map.
func (g *G) usePsi(cv *curve) grpConv {
	base := g.pointConv(cv)
	F, c := g.c.F, g.c
	type known struct {
		p    *GrpV
		x, y *Elem
	}
	var pts []known
	g.c.grpGamma = true
	canon := func(p *GrpV) (*GrpV, bool) {
		n := c.grpScale(p, nint(-1))
		if n.Key() < p.Key() {
			return n, true
		}
		return p, false
	}
	// shift applies psi k times.
	shift := func(p *GrpV, k int) *GrpV {
		r := &GrpV{ty: p.ty, t: map[int]*NPoly{}}
		for id, co := range p.t {
			e, ok := g.psiPow(id, "P")
			if !ok {
				return nil
			}
			r = c.grpAdd(r, c.grpScale(c.grpSym(p.ty, psiName("P", e+k), nil), co))
		}
		return r
	}
	prev := g.in.comp
	g.in.comp = func(in *Interp, v Val, i int) Val {
		gr, ok := v.(*GrpV)
		if !ok || gr.ty != cv.name {
			return prev(in, v, i)
		}
		if i == 2 {
			return BoolV{c.grpIsZero(gr)}
		}
		p, neg := canon(gr)
		ix := -1
		for j := range pts {
			if pts[j].p.Key() == p.Key() {
				ix = j
			}
		}
		if ix < 0 {
			ix = len(pts)
			n := fmt.Sprint(ix)
			k := known{p, cv.fsym(g, "px"+n), cv.fsym(g, "py"+n)}
			pts = append(pts, k)
		}
		if i == 0 {
			return cv.fv(pts[ix].x)
		}
		if neg {
			return cv.fv(F.Neg(pts[ix].y))
		}
		return cv.fv(pts[ix].y)
	}
	cx, cy := psiCoef()
	conv := func(in *Interp, fr *Frame, st *State, v Val) *GrpV {
		if p := base(in, fr, st, v); p != nil {
			return p
		}
		s, ok := v.(*StructV)
		if !ok || len(s.f) != 3 {
			return nil
		}
		x, ok1 := s.f[0].(*ElemV)
		y, ok2 := s.f[1].(*ElemV)
		inf, ok3 := s.f[2].(BoolV)
		if !ok1 || !ok2 || !ok3 {
			return nil
		}
		for _, k := range pts {
			X, Y := k.x, k.y
			for e := 0; e < 6; e++ {
				if F.Equal(X, x.e) && (F.Equal(Y, y.e) || F.Equal(Y, F.Neg(y.e))) {
					if c.bdd.and(st.cond, c.bdd.xor(inf.b, c.grpIsZero(k.p))) != bFalse {
						in.fail(fr, token.NoPos, "coordinates of %s without its identity flag", c.showGrp(k.p))
					}
					p := shift(k.p, e)
					if p != nil && !F.Equal(Y, y.e) {
						p = c.grpScale(p, nint(-1))
					}
					return p
				}
				X, Y = F.Scale(F.Conj(X), cx), F.Scale(F.Conj(Y), cy)
			}
		}
		return nil
	}
	// group operations through the extended conversion
	g.pointOps(cv, conv)
	g.mulOps(cv, conv)
	return conv
}

// swEncode: the older encoding.
func swEncode(r *Run, arch string) {
	cv := &curves[1]
	r.group(arch+"/SWEncodeG2", func(g *G) {
		g.l1(arch, true)
		g.c.F.uni = true
		g.useSqrt()
		F := g.c.F
		fn := g.P.fn(modPath, "SWEncodeG2")
		if fn == nil {
			panic(Unresolved{"API function SWEncodeG2 not found"})
		}
		where := g.where(fn)
		t := cv.fsym(g, "t")
		mark, h0 := len(g.in.panics), g.st.heap
		v := g.callA(fn, cv.fv(t))
		g.noPanics("SWEncodeG2", mark, where)
		g.frame("SWEncodeG2 changes nothing", where, h0)
		n := 0
		g.allAlts("SWEncodeG2: a point of the curve for every input", where, v, func(a *allOb, st *State, fs []Val) {
			n++
			f := g.in.f(st)
			x, y := fs[0].(*ElemV).e, fs[1].(*ElemV).e
			switch g.c.bdd.restrict(g.in.asBool(nil, st, fs[2]), st.cond) {
			case bTrue:
				if F.isZero(t.num, f) != bTrue {
					a.fail("the identity is returned when %s", g.c.showB(st.cond))
				}
			case bFalse:
				if !F.EqualUnder(F.Mul(y, y), F.Add(F.Mul(x, F.Mul(x, x)), F.konst(cv.b)), f) {
					a.fail("(%s, %s) is not on the curve when %s", F.show(x), F.show(y), g.c.showB(st.cond))
				}
			default:
				a.fail("the identity flag is not decided when %s", g.c.showB(st.cond))
			}
		})
	})
}

func init() {
	register("C24", 60, func(r *Run) {
		for _, a := range bothArch {
			for i := range isoCurves {
				h2cMaps(r, a, &isoCurves[i])
				h2cIso(r, a, &isoCurves[i])
				h2cCompose(r, a, &isoCurves[i])
				h2cClear(r, a, &isoCurves[i])
			}
			swEncode(r, a)
		}
	})
}
