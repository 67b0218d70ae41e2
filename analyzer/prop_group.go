package main

// C11, C12: the group law, case by case.  A finite point is given by affine
// symbols x, y with the rewrite rule y^2 -> x^3 + b and represented as
// (x z^2, y z^3, z) with z a non-zero symbol: every representation of every
// point.  The cases are: different x; equal points; opposite points; one or
// both the identity in any representation (X, Y, 0).

import (
	"fmt"
	"math/big"
)

type curve struct {
	name, fld string
	aff, proj string
	fq2       bool
	b         K
	eq        string
	coef      string
}

var curves = []curve{
	{"G1", "FQ", "G1Affine", "G1Projective", false, ki(4), "Equal", "BCoeff"},
	{"G2", "FQ2", "G2Affine", "G2Projective", true, kXi.Mul(ki(4)), "Equals", "BCoeffFQ2"},
}

type pt struct{ x, y *Elem } // nil x: the identity

func (cv *curve) fsym(g *G, n string) *Elem {
	if cv.fq2 {
		return g.fq2Sym(n)
	}
	return g.fqSym(n)
}

func (cv *curve) fv(e *Elem) Val { return &ElemV{cv.fld, e} }

// point makes a fresh finite point.
func (cv *curve) point(g *G, n string) pt {
	F := g.c.F
	x := cv.fsym(g, "x"+n)
	y := cv.fsym(g, "y"+n)
	F.addSquare(y.num, F.Add(F.Mul(F.Mul(x, x), x), F.konst(cv.b)).num)
	F.nonzero(y.num)
	return pt{x, y}
}

// noTwoTorsion: y = 0 would need -b to be a cube.
func (cv *curve) noTwoTorsion(g *G) {
	n := new(big.Int).Sub(bigQ, big.NewInt(1))
	if cv.fq2 {
		n = new(big.Int).Sub(new(big.Int).Mul(bigQ, bigQ), big.NewInt(1))
	}
	k := cv.b.Neg().Exp(new(big.Int).Div(n, big.NewInt(3)))
	g.ob("no point has y = 0: -b is not a cube", !k.Equal(ki(1)), cv.name, "-b is a cube")
}

func (cv *curve) neg(g *G, p pt) pt {
	if p.x == nil {
		return p
	}
	return pt{p.x, g.c.F.Neg(p.y)}
}

func (cv *curve) projObj(g *G, p pt, n string) PtrV {
	F := g.c.F
	if p.x == nil {
		return g.newPtr(&StructV{[]Val{cv.fv(cv.fsym(g, "X"+n)), cv.fv(cv.fsym(g, "Y"+n)), cv.fv(F.konst(ki(0)))}})
	}
	z := cv.fsym(g, "z"+n)
	F.nonzero(z.num)
	z2 := F.Mul(z, z)
	return g.newPtr(&StructV{[]Val{cv.fv(F.Mul(p.x, z2)), cv.fv(F.Mul(p.y, F.Mul(z2, z))), cv.fv(z)}})
}

func (cv *curve) affObj(g *G, p pt) PtrV {
	F := g.c.F
	if p.x == nil {
		return g.newPtr(&StructV{[]Val{cv.fv(F.konst(ki(0))), cv.fv(F.konst(ki(1))), BoolV{bTrue}}})
	}
	return g.newPtr(&StructV{[]Val{cv.fv(p.x), cv.fv(p.y), BoolV{bFalse}}})
}

// add is the group law on affine points; the case is known from the symbols.
func (cv *curve) add(g *G, p, q pt) pt {
	F := g.c.F
	switch {
	case p.x == nil:
		return q
	case q.x == nil:
		return p
	}
	var l *Elem
	if F.Equal(p.x, q.x) {
		if !F.Equal(p.y, q.y) {
			return pt{}
		}
		x2 := F.Mul(p.x, p.x)
		l = F.Mul(F.Scale(x2, ki(3)), F.Inv(F.Scale(p.y, ki(2))))
	} else {
		l = F.Mul(F.Sub(q.y, p.y), F.Inv(F.Sub(q.x, p.x)))
	}
	x3 := F.Sub(F.Sub(F.Mul(l, l), p.x), q.x)
	return pt{x3, F.Sub(F.Mul(l, F.Sub(p.x, x3)), p.y)}
}

// fields reads the components of a (pointer to a) struct in every alternative.
func (g *G) alts(v Val, f func(st *State, fs []Val)) {
	save := g.st
	st := g.st
	each(g.in, &Frame{in: g.in, fn: g.P.fn(modPath, "init")}, &st, []Val{v}, func(st *State, vs []Val) Val {
		v := vs[0]
		if p, ok := v.(PtrV); ok {
			if p.obj == 0 {
				f(st, nil)
				return nil
			}
			v = g.in.load(nil, st, p, 0)
		}
		return each(g.in, nil, st, []Val{v}, func(st *State, vs []Val) Val {
			sv, ok := vs[0].(*StructV)
			if !ok {
				panic(Unresolved{"structure expected, got " + g.c.showV(vs[0])})
			}
			return each(g.in, nil, st, sv.f, func(st *State, fs []Val) Val {
				f(st, fs)
				return nil
			})
		})
	})
	g.st = save
}

// obsAll aggregates a decision over alternatives into one obligation.
type allOb struct {
	ok  bool
	n   int
	why string
}

func (a *allOb) fail(f string, v ...interface{}) {
	if a.ok || a.n == 0 {
		a.why = fmt.Sprintf(f, v...)
	}
	a.ok = false
	a.n++
}

func (g *G) allAlts(name, where string, v Val, f func(a *allOb, st *State, fs []Val)) {
	a := &allOb{ok: true}
	n := 0
	g.alts(v, func(st *State, fs []Val) {
		n++
		if fs == nil {
			a.fail("nil result when %s", g.c.showB(st.cond))
			return
		}
		f(a, st, fs)
	})
	g.ob(name, a.ok && n > 0, where, "%s", a.why)
}

func (cv *curve) isProj(g *G, name, where string, v Val, want pt) {
	F := g.c.F
	g.allAlts(name, where, v, func(a *allOb, st *State, fs []Val) {
		f := g.in.f(st)
		X, Y, Z := fs[0].(*ElemV).e, fs[1].(*ElemV).e, fs[2].(*ElemV).e
		zero := F.konst(ki(0))
		if want.x == nil {
			if !F.EqualUnder(Z, zero, f) {
				a.fail("Z is %s instead of 0 when %s", F.show(Z), g.c.showB(st.cond))
			}
			return
		}
		if F.isZero(Z.num, f) != bFalse {
			a.fail("Z = %s may be zero when %s", F.show(Z), g.c.showB(st.cond))
			return
		}
		z2 := F.Mul(Z, Z)
		if w := F.Mul(want.x, z2); !F.EqualUnder(X, w, f) {
			a.fail("X is %s, expected %s when %s", F.show(X), F.show(w), g.c.showB(st.cond))
		} else if w := F.Mul(want.y, F.Mul(z2, Z)); !F.EqualUnder(Y, w, f) {
			a.fail("Y is %s, expected %s when %s", F.show(Y), F.show(w), g.c.showB(st.cond))
		}
	})
}

func (cv *curve) isAff(g *G, name, where string, v Val, want pt) {
	F := g.c.F
	g.allAlts(name, where, v, func(a *allOb, st *State, fs []Val) {
		f := g.in.f(st)
		inf := g.in.asBool(nil, st, fs[2])
		X, Y := fs[0].(*ElemV).e, fs[1].(*ElemV).e
		if want.x == nil {
			if inf != bTrue {
				a.fail("not flagged as the identity when %s", g.c.showB(st.cond))
			} else if !F.EqualUnder(X, F.konst(ki(0)), f) || !F.EqualUnder(Y, F.konst(ki(1)), f) {
				a.fail("the identity is not in its standard form when %s", g.c.showB(st.cond))
			}
			return
		}
		if inf != bFalse {
			a.fail("flagged as the identity when %s", g.c.showB(st.cond))
		} else if !F.EqualUnder(X, want.x, f) {
			a.fail("x is %s, expected %s when %s", F.show(X), F.show(want.x), g.c.showB(st.cond))
		} else if !F.EqualUnder(Y, want.y, f) {
			a.fail("y is %s, expected %s when %s", F.show(Y), F.show(want.y), g.c.showB(st.cond))
		}
	})
}

func (g *G) unchanged(name, where string, p PtrV, was Val) {
	now := g.deref(p)
	g.ob(name, veq(now, was), where, "becomes %s", g.c.showV(now))
}

// pairCase lists the cases of two points.
type pairCase struct {
	name string
	mk   func(g *G, cv *curve) (p, q pt)
}

var pairCases = []pairCase{
	{"different x", func(g *G, cv *curve) (pt, pt) {
		p, q := cv.point(g, "1"), cv.point(g, "2")
		g.c.F.nonzero(p.x.num.Sub(q.x.num))
		return p, q
	}},
	{"equal points", func(g *G, cv *curve) (pt, pt) { p := cv.point(g, "1"); return p, p }},
	{"opposite points", func(g *G, cv *curve) (pt, pt) { p := cv.point(g, "1"); return p, cv.neg(g, p) }},
	{"identity and finite", func(g *G, cv *curve) (pt, pt) { return pt{}, cv.point(g, "2") }},
	{"finite and identity", func(g *G, cv *curve) (pt, pt) { return cv.point(g, "1"), pt{} }},
	{"identity and identity", func(g *G, cv *curve) (pt, pt) { return pt{}, pt{} }},
}

func groupOps(r *Run, cv *curve, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+cv.name+"."+name, func(g *G) {
			g.l1(arch, cv.fq2)
			f(g)
		})
	}
	for _, pc := range pairCases {
		pc := pc
		grp("Add/"+pc.name, func(g *G) {
			fn := g.method(cv.proj, "Add")
			p, q := pc.mk(g, cv)
			a, b := cv.projObj(g, p, "1"), cv.projObj(g, q, "2")
			av, bv := g.deref(a), g.deref(b)
			mark := len(g.in.panics)
			v := g.callM(cv.proj, "Add", a, b)
			cv.isProj(g, "Add: the sum, "+pc.name, g.where(fn), v, cv.add(g, p, q))
			g.unchanged("Add: receiver unchanged", g.where(fn), a, av)
			g.unchanged("Add: argument unchanged", g.where(fn), b, bv)
			g.noPanics("Add", mark, g.where(fn))
		})
		grp("AddAffine/"+pc.name, func(g *G) {
			fn := g.method(cv.proj, "AddAffine")
			p, q := pc.mk(g, cv)
			a, b := cv.projObj(g, p, "1"), cv.affObj(g, q)
			av, bv := g.deref(a), g.deref(b)
			mark := len(g.in.panics)
			v := g.callM(cv.proj, "AddAffine", a, b)
			cv.isProj(g, "AddAffine: the sum, "+pc.name, g.where(fn), v, cv.add(g, p, q))
			g.unchanged("AddAffine: receiver unchanged", g.where(fn), a, av)
			g.unchanged("AddAffine: argument unchanged", g.where(fn), b, bv)
			g.noPanics("AddAffine", mark, g.where(fn))
		})
	}
	for _, id := range []bool{false, true} {
		id := id
		nm := "finite"
		if id {
			nm = "identity"
		}
		mk := func(g *G) pt {
			if id {
				return pt{}
			}
			return cv.point(g, "1")
		}
		grp("Add/same object, "+nm, func(g *G) {
			fn := g.method(cv.proj, "Add")
			p := mk(g)
			a := cv.projObj(g, p, "1")
			mark := len(g.in.panics)
			v := g.callM(cv.proj, "Add", a, a)
			cv.isProj(g, "Add: a point to itself", g.where(fn), v, cv.add(g, p, p))
			g.noPanics("Add", mark, g.where(fn))
		})
		grp("Double/"+nm, func(g *G) {
			fn := g.method(cv.proj, "Double")
			p := mk(g)
			a := cv.projObj(g, p, "1")
			av := g.deref(a)
			mark := len(g.in.panics)
			v := g.callM(cv.proj, "Double", a)
			cv.isProj(g, "Double: the double", g.where(fn), v, cv.add(g, p, p))
			g.unchanged("Double: receiver unchanged", g.where(fn), a, av)
			g.noPanics("Double", mark, g.where(fn))
		})
		for _, aff := range []bool{false, true} {
			aff := aff
			ty := cv.proj
			if aff {
				ty = cv.aff
			}
			mkObj := func(g *G, p pt) PtrV {
				if aff {
					return cv.affObj(g, p)
				}
				return cv.projObj(g, p, "1")
			}
			is := cv.isProj
			if aff {
				is = cv.isAff
			}
			if g0 := "NegAssign"; aff || cv.name == "G1" || true {
				grp(ty+"."+g0+"/"+nm, func(g *G) {
					fn := g.P.method(modPath, ty, g0)
					if fn == nil {
						g.ob(ty+" has no "+g0, true, ty, "")
						return
					}
					p := mk(g)
					a := mkObj(g, p)
					mark := len(g.in.panics)
					g.callM(ty, g0, a)
					is(g, "NegAssign: the inverse", g.where(fn), a, cv.neg(g, p))
					g.noPanics("NegAssign", mark, g.where(fn))
				})
			}
			grp(ty+".Copy/"+nm, func(g *G) {
				fn := g.method(ty, "Copy")
				p := mk(g)
				a := mkObj(g, p)
				mark := len(g.in.panics)
				v := g.callM(ty, "Copy", a)
				is(g, "Copy: the same point", g.where(fn), v, p)
				g.noPanics("Copy", mark, g.where(fn))
			})
			grp(ty+".IsZero/"+nm, func(g *G) {
				fn := g.method(ty, "IsZero")
				p := mk(g)
				a := mkObj(g, p)
				mark := len(g.in.panics)
				v := g.callM(ty, "IsZero", a)
				ok, why := g.sameCond(g.boolOf(v), map[bool]B{true: bTrue, false: bFalse}[id])
				g.ob("IsZero: true exactly for the identity", ok, g.where(fn), "%s", why)
				g.noPanics("IsZero", mark, g.where(fn))
			})
		}
		grp("IsOnCurve/"+nm, func(g *G) {
			fn := g.method(cv.aff, "IsOnCurve")
			p := mk(g)
			if !id { // any pair of coordinates
				p = pt{cv.fsym(g, "x"), cv.fsym(g, "y")}
			}
			mark := len(g.in.panics)
			v := g.callM(cv.aff, "IsOnCurve", cv.affObj(g, p))
			want := bTrue
			if !id {
				F := g.c.F
				e := F.Sub(F.Mul(p.y, p.y), F.Add(F.Mul(F.Mul(p.x, p.x), p.x), F.konst(cv.b)))
				want = F.isZero(e.num, g.c.base)
			}
			ok, why := g.sameCond(g.boolOf(v), want)
			g.ob("IsOnCurve: true exactly when y^2 = x^3 + b", ok, g.where(fn), "%s", why)
			g.noPanics("IsOnCurve", mark, g.where(fn))
		})
	}
	grp("constants", func(g *G) {
		cv.noTwoTorsion(g)
		F := g.c.F
		v := g.in.globalVal(&g.st, modPath, cv.coef)
		ok := v != nil && F.Equal(g.el(v), F.konst(cv.b))
		g.ob(cv.coef+" is the curve coefficient", ok, modPath, "value %s", g.c.showV(v))
		z := g.in.globalVal(&g.st, modPath, cv.proj+"Zero")
		if z == nil {
			g.ob("the identity exists", false, modPath, "no %sZero", cv.proj)
		} else {
			cv.isProj(g, cv.proj+"Zero is the identity", modPath, z, pt{})
		}
		z = g.in.globalVal(&g.st, modPath, cv.aff+"Zero")
		if z == nil {
			g.ob("the affine identity exists", false, modPath, "no %sZero", cv.aff)
		} else {
			cv.isAff(g, cv.aff+"Zero is the identity", modPath, z, pt{})
		}
	})
}

func init() {
	for i, id := range []string{"C11", "C12"} {
		cv := &curves[i]
		register(id, 70, func(r *Run) {
			for _, a := range bothArch {
				groupOps(r, cv, a)
			}
		})
	}
}
