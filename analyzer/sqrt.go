package main

// Contract of the square root (C10) at level 1, and of scalar multiplication
// and the identity test for points given by coordinates (C13, C11, C12).

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// squareAtom is the condition that e is a square in its field.
func (c *Ctx) squareAtom(ty string, e *Elem) B {
	k := c.F.norm(e.num.Mul(e.den))
	if r, ok := c.chi(ty, k); ok {
		return r
	}
	if v, ok := k.Const(); ok {
		if v.a == nil {
			return bTrue
		}
		if (ty == "FQ" && isSquareFq(v.a)) || (ty == "FQ2" && isSquareK(v)) {
			return bTrue
		}
		return bFalse
	}
	if id, ok := c.atomIdx["S"+ty+k.Key()]; ok { // asked before a root was named
		return c.bdd.atom(id)
	}
	if _, ok := c.F.known[k.Key()]; ok {
		return bTrue
	}
	return c.bdd.atom(c.mkAtom("S"+ty+k.Key(), Atom{kind: aSquare, k: k}))
}

// chi decides squareness of a univariate polynomial by the quadratic characters
// of its irreducible factors.
func (c *Ctx) chi(ty string, k *KPoly) (B, bool) {
	if _, cst := k.Const(); cst {
		return 0, false
	}
	u, ok := c.F.uniFactor(k)
	if !ok {
		return 0, false
	}
	if _, _, real, _ := c.F.univar(k); real != (ty == "FQ") {
		return 0, false
	}
	d := c.bdd
	sq := d.not(bFalse)
	if (ty == "FQ" && !isSquareFq(u.lc.a)) || (ty == "FQ2" && !isSquareK(u.lc)) {
		sq = bFalse
	}
	for i, f := range u.fac {
		if u.exp[i]%2 == 1 {
			m := c.F.monic(f) // conjugates have the same character
			at := d.atom(c.mkAtom("chi"+ty+m.Key(), Atom{kind: aOpaque, name: c.showK(m) + " is a square"}))
			sq = d.ite(at, sq, d.not(sq))
		}
	}
	return d.or(sq, c.F.isZero(k, c.base)), true
}

// rootOf is a fixed square root of e, assuming it is a square: a symbol with
// the rewrite rule s^2 -> e.
func (c *Ctx) rootOf(ty string, e *Elem) *Elem {
	if !kIsOne(e.den) { // the root of num*den over den
		r := c.rootOf(ty, c.F.elem(e.num.Mul(e.den)))
		return c.F.Mul(r, c.F.frac(kint(1), e.den))
	}
	k := c.F.norm(e.num)
	if y, ok := c.F.known[k.Key()]; ok {
		return c.F.elem(y)
	}
	if k.IsZero() {
		return c.F.konst(ki(0))
	}
	s := c.F.sym("sqrt("+k.Key()+")", ty == "FQ")
	c.F.addSquare(s, k)
	return c.F.elem(s)
}

// useSqrt installs the square-root contract: some square root, and true,
// exactly when the element is a square.
func (g *G) useSqrt() {
	c := g.c
	for _, ty := range []string{"FQ", "FQ2"} {
		ty := ty
		f := g.P.method(modPath, ty, "Sqrt")
		if f == nil {
			continue
		}
		g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val {
				e := es[0].e
				sq := c.bdd.restrict(c.squareAtom(ty, e), st.cond)
				no := &TupleV{[]Val{&ElemV{ty, c.F.konst(ki(0))}, BoolV{bFalse}}}
				if sq == bFalse {
					return no
				}
				r := c.rootOf(ty, e)
				sign := c.bdd.atom(c.mkAtom("rootsign"+ty+c.F.norm(e.num).Key(), Atom{kind: aOpaque, name: "choice of root of " + c.F.show(e)}))
				v := c.gamma(sign, &ElemV{ty, r}, &ElemV{ty, c.F.Neg(r)})
				return c.gamma(sq, &TupleV{[]Val{v, BoolV{bTrue}}}, no)
			})
		}
	}
}

// knownPts are the points met by their coordinates.
type knownPt struct {
	x, y *Elem
	p    *GrpV
}
type knownPts struct{ l []knownPt }

func (g *G) coordPts(cv *curve) []knownPt { return g.pts[cv.name].l }

// useScale is the contract of the cofactor helper (C13).
func (g *G) useScale(cv *curve, conv grpConv) {
	for _, ty := range []string{cv.aff, cv.proj} {
		if f := g.P.method(modPath, ty, "ScaleByCofactor"); f != nil {
			g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
					return in.newPtr(st, in.c.grpScale(gs[0], nconst(cv.cofactor())))
				})
			}
		}
	}
}

// coordConv names the group element with given affine coordinates: opposite
// points have the same x.
func (g *G) coordConv(cv *curve) grpConv {
	pts := &knownPts{}
	g.pts[cv.name] = pts
	return func(in *Interp, fr *Frame, st *State, v Val) *GrpV {
		s, ok := v.(*StructV)
		if !ok || len(s.f) != 3 {
			return nil
		}
		F := in.c.F
		X, ok1 := s.f[0].(*ElemV)
		Y, ok2 := s.f[1].(*ElemV)
		if !ok1 || !ok2 {
			return nil
		}
		x, y := X.e, Y.e
		switch z := s.f[2].(type) {
		case BoolV:
			if z.b == bTrue {
				return &GrpV{ty: cv.name, t: map[int]*NPoly{}}
			}
			if z.b != bFalse {
				return nil
			}
		case *ElemV:
			if F.isZero(z.e.num, in.f(st)) != bFalse {
				if F.EqualUnder(z.e, F.konst(ki(0)), in.f(st)) {
					return &GrpV{ty: cv.name, t: map[int]*NPoly{}}
				}
				return nil
			}
			zi := F.Inv(z.e)
			x, y = F.Mul(x, F.Mul(zi, zi)), F.Mul(y, F.Mul(zi, F.Mul(zi, zi)))
		default:
			return nil
		}
		for _, k := range pts.l {
			if F.Equal(k.x, x) {
				if F.Equal(k.y, y) {
					return k.p
				}
				if F.Equal(k.y, F.Neg(y)) {
					return in.c.grpScale(k.p, nint(-1))
				}
			}
		}
		p := in.c.grpSym(cv.name, fmt.Sprintf("%spt%d", cv.name, len(pts.l)), nil)
		pts.l = append(pts.l, knownPt{x, y, p})
		return p
	}
}

// useCoordMul makes multiples of coordinate points group elements.
func (g *G) useCoordMul(cv *curve) grpConv {
	conv := g.coordConv(cv)
	for _, ty := range []string{cv.aff, cv.proj} {
		for _, m := range []string{"Mul", "MulFR"} {
			if f := g.P.method(modPath, ty, m); f != nil {
				g.in.intr[f.String()] = mulIntr(conv)
			}
		}
		for _, m := range []string{"IsZero", "ToAffine", "ToProjective", "Copy"} {
			m := m
			f := g.P.method(modPath, ty, m)
			if f == nil {
				continue
			}
			g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return each(in, fr, st, a[:1], func(st *State, vs []Val) Val {
					v := vs[0]
					if p, ok := v.(PtrV); ok {
						v = in.load(fr, st, p, fr.site)
						if st.cond == bFalse {
							return nil
						}
					}
					return in.fork(st, v, func(st *State, v Val) Val {
						if gr, ok := v.(*GrpV); ok {
							if m == "IsZero" {
								return BoolV{in.c.grpIsZero(gr)}
							}
							return in.newPtr(st, gr)
						}
						return in.call(fr.caller, fr.site, st, f, vs, nil)
					})
				})
			}
		}
	}
	return conv
}

func mulIntr(conv grpConv) Intrinsic {
	return func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
			return each(in, fr, st, a[1:2], func(st *State, vs []Val) Val {
				k := wordSum(intWords(in.c, wordsOf(in, fr, st, vs[0])))
				if st.cond == bFalse {
					return nil
				}
				return in.newPtr(st, in.c.grpScale(gs[0], k))
			})
		})
	}
}

var _ = token.NoPos
var _ *ssa.Function
