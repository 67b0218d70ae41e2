package main

// Abelian-group values: curve points as elements of their group (contracts
// C11, C12, C14), and field elements as elements of the free monoid over one
// symbol, multiplicative or additive (contracts C02, C03, C06-C08).

import (
	"fmt"
	"go/token"
	"math/big"
)

// asGrp reads v as a group element; cell is where it is stored.
type grpConv func(in *Interp, fr *Frame, st *State, v Val) *GrpV

func grpGet(in *Interp, fr *Frame, st *State, v Val, cell PtrV, conv grpConv, k func(st *State, g *GrpV, cell PtrV) Val) Val {
	return in.fork(st, v, func(st *State, v Val) Val {
		switch x := v.(type) {
		case PtrV:
			y := in.load(fr, st, x, fr.site)
			if st.cond == bFalse {
				return nil
			}
			return grpGet(in, fr, st, y, x, conv, k)
		case *GrpV:
			return k(st, x, cell)
		case *StructV:
			if len(x.f) == 1 {
				if p, ok := x.f[0].(PtrV); ok {
					return grpGet(in, fr, st, p, cell, conv, k)
				}
			}
			for _, f := range x.f {
				if _, ok := in.c.simp(f, st.cond).(*GammaV); ok {
					return each(in, fr, st, x.f, func(st *State, fs []Val) Val {
						return grpGet(in, fr, st, &StructV{fs}, cell, conv, k)
					})
				}
			}
		}
		g := conv(in, fr, st, v)
		if g == nil {
			in.fail(fr, token.NoPos, "group element expected, got %s", in.c.showV(v))
		}
		if in.c.grpAny {
			g = in.c.grpSym(g.ty, "P", nil)
		}
		return k(st, g, cell)
	})
}

func grpGets(in *Interp, fr *Frame, st *State, vs []Val, conv grpConv, k func(st *State, gs []*GrpV, cells []PtrV) Val) Val {
	var rec func(st *State, i int, gs []*GrpV, cells []PtrV) Val
	rec = func(st *State, i int, gs []*GrpV, cells []PtrV) Val {
		if i == len(vs) {
			return k(st, append([]*GrpV(nil), gs...), append([]PtrV(nil), cells...))
		}
		return grpGet(in, fr, st, vs[i], PtrV{}, conv, func(st *State, g *GrpV, cell PtrV) Val {
			return rec(st, i+1, append(gs[:i:i], g), append(cells[:i:i], cell))
		})
	}
	return rec(st, 0, nil, nil)
}

// grpConstElems flattens constant coefficients.
func constElems(in *Interp, fr *Frame, st *State, v Val, out *[]K) bool {
	switch x := v.(type) {
	case PtrV:
		if x.obj == 0 {
			return false
		}
		return constElems(in, fr, st, in.load(fr, st, x, token.NoPos), out)
	case *StructV:
		for _, f := range x.f {
			if !constElems(in, fr, st, f, out) {
				return false
			}
		}
		return true
	case *ElemV:
		k, ok := x.e.Const()
		*out = append(*out, k)
		return ok
	}
	return false
}

// monoConv recognises the identity of a field monoid.
func monoConv(ty string, one bool) grpConv {
	return func(in *Interp, fr *Frame, st *State, v Val) *GrpV {
		id := &GrpV{ty: ty, t: map[int]*NPoly{}}
		if a, ok := v.(*ArrayV); ok { // words of FR, Montgomery form
			w := nconstOf(wordSum(a))
			want := new(big.Int)
			if one {
				want.Mod(pow2(256), bigR)
			}
			if w != nil && w.Cmp(want) == 0 {
				return id
			}
			return nil
		}
		var ks []K
		if !constElems(in, fr, st, v, &ks) {
			return nil
		}
		for i, k := range ks {
			if i == 0 && one {
				if !k.Equal(ki(1)) {
					return nil
				}
			} else if !k.IsZero() {
				return nil
			}
		}
		return id
	}
}

// useMonoid makes elements of ty elements of the free monoid: multiplicative
// (one) or additive.
func (g *G) useMonoid(ty string, one bool) {
	in, c := g.in, g.c
	c.polyBits = true
	conv := monoConv(ty, one)
	set := func(name string, h Intrinsic) {
		if f := g.P.method(modPath, ty, name); f != nil {
			in.intr[f.String()] = h
		}
	}
	mut := func(n int, f func(a []*GrpV) *GrpV) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			if len(a) != n {
				in.fail(fr, token.NoPos, "%d arguments", len(a))
			}
			grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
				if cells[0].obj == 0 {
					in.fail(fr, token.NoPos, "in-place operation on a value")
				}
				in.store(fr, st, cells[0], f(gs), token.NoPos)
				return nil
			})
			return &TupleV{}
		}
	}
	sum := mut(2, func(a []*GrpV) *GrpV { return c.grpAdd(a[0], a[1]) })
	dbl := mut(1, func(a []*GrpV) *GrpV { return c.grpAdd(a[0], a[0]) })
	other := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		in.fail(fr, fr.site, "%s is not an operation of the monoid", shortFn(fr.fn))
		return nil
	}
	for _, n := range []string{"AddAssign", "DoubleAssign", "MulAssign", "SquareAssign", "SubAssign", "NegAssign", "Equals", "IsZero", "Cmp", "Inverse", "InverseAssign", "DivAssign", "ToRepr"} {
		set(n, other)
	}
	if one {
		set("MulAssign", sum)
		set("SquareAssign", dbl)
	} else {
		set("AddAssign", sum)
		set("DoubleAssign", dbl)
	}
	if f := g.P.method(modPath, ty, "Copy"); f != nil {
		ptr := isPtrType(f.Signature.Results().At(0).Type())
		in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
				if !ptr {
					return gs[0]
				}
				if ty == "FR" {
					return in.newPtr(st, &StructV{[]Val{in.newPtr(st, gs[0])}})
				}
				return in.newPtr(st, gs[0])
			})
		}
	}
}

// scalarWords are the words of the integer s.
func (c *Ctx) scalarWords(s *NPoly, n int) *ArrayV {
	r := &ArrayV{}
	for i := 0; i < n; i++ {
		r.e = append(r.e, IntV{c.floor(s, 64*i, c.base).Sub(c.floor(s, 64*(i+1), c.base).Scale(Z{pow2(64)}))})
	}
	return r
}

// bitScalar is a fresh integer of exactly L bits.
func (g *G) bitScalar(name string, L int) *NPoly {
	if L == 0 {
		return nint(0)
	}
	return g.c.intSym(fmt.Sprintf("%s%d", name, L), pow2(L-1), new(big.Int).Sub(pow2(L), big.NewInt(1)))
}

// sameGrp decides that v is the group element want.
func (g *G) sameGrp(name, where string, v Val, want *GrpV, conv grpConv) bool {
	ok, why := true, ""
	n := 0
	st := g.st
	fr := &Frame{in: g.in, fn: g.P.fn(modPath, "init")}
	grpGet(g.in, fr, &st, v, PtrV{}, conv, func(st *State, gr *GrpV, cell PtrV) Val {
		n++
		d := g.c.grpAdd(gr, g.c.grpScale(want, nint(-1)))
		for _, p := range d.t {
			if z, w := g.isZeroInt(p, st.cond); !z {
				ok, why = false, fmt.Sprintf("result %s, expected %s (%s)", g.c.showGrp(gr), g.c.showGrp(want), w)
			}
		}
		return nil
	})
	return g.ob(name, ok && n > 0, where, "%s", why)
}

// ---- curve points

// grpOrder is the order of a named generator (0: unknown).
const genG1, genG2 = "gen1", "gen2"

// pointConv converts constant points.
func (g *G) pointConv(cv *curve) grpConv {
	return func(in *Interp, fr *Frame, st *State, v Val) *GrpV {
		s, ok := v.(*StructV)
		if !ok || len(s.f) != 3 {
			return nil
		}
		id := &GrpV{ty: cv.name, t: map[int]*NPoly{}}
		if o, ok := s.f[0].(*OpqV); ok && o.tag == "coord0" { // coordinates copied one by one
			for i, f := range s.f {
				x, ok := f.(*OpqV)
				if !ok || x.tag != fmt.Sprintf("coord%d", i) || !veq(x.args[0], o.args[0]) {
					return nil
				}
			}
			return o.args[0].(*GrpV)
		}
		if b, ok := s.f[2].(BoolV); ok {
			switch b.b {
			case bTrue:
				return id
			case bFalse:
				if g.isGen(cv, s.f[0], s.f[1]) {
					return in.c.grpSym(cv.name, "gen"+cv.name, nil)
				}
			}
			return nil
		}
		z, ok := s.f[2].(*ElemV)
		if !ok {
			return nil
		}
		k, ok := z.e.Const()
		if !ok {
			return nil
		}
		if k.IsZero() {
			return id
		}
		if k.Equal(ki(1)) && g.isGen(cv, s.f[0], s.f[1]) {
			return in.c.grpSym(cv.name, "gen"+cv.name, nil)
		}
		return nil
	}
}

// isGen compares coordinates with those of the generator constant.
func (g *G) isGen(cv *curve, x, y Val) bool {
	o := g.in.globalVal(&g.st, modPath, cv.aff+"One")
	p, ok := o.(PtrV)
	if !ok {
		return false
	}
	s, ok := g.in.initH.get(p.obj).(*StructV)
	return ok && veq(s.f[0], x) && veq(s.f[1], y)
}

// usePoints makes the points of both curves atomic group elements.
func (g *G) usePoints() {
	g.c.polyBits = true
	for i := range curves {
		g.usePoint(&curves[i])
	}
	prev := g.in.comp
	g.in.comp = func(in *Interp, v Val, i int) Val {
		if gr, ok := v.(*GrpV); ok {
			return &OpqV{fmt.Sprintf("coord%d", i), []Val{gr}}
		}
		if prev != nil {
			return prev(in, v, i)
		}
		return nil
	}
}

func (g *G) usePoint(cv *curve) { g.pointOps(cv, g.pointConv(cv)) }

func (g *G) pointOps(cv *curve, conv grpConv) {
	in, c := g.in, g.c
	set := func(ty, name string, h Intrinsic) {
		if f := g.P.method(modPath, ty, name); f != nil {
			in.intr[f.String()] = h
		}
	}
	op := func(n int, f func(in *Interp, fr *Frame, st *State, a []*GrpV) Val) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return grpGets(in, fr, st, a[:n], conv, func(st *State, gs []*GrpV, cells []PtrV) Val { return f(in, fr, st, gs) })
		}
	}
	same := op(1, func(in *Interp, fr *Frame, st *State, a []*GrpV) Val { return in.newPtr(st, a[0]) })
	add := op(2, func(in *Interp, fr *Frame, st *State, a []*GrpV) Val { return in.newPtr(st, c.grpAdd(a[0], a[1])) })
	neg := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
			in.store(fr, st, cells[0], c.grpScale(gs[0], nint(-1)), token.NoPos)
			return nil
		})
		return &TupleV{}
	}
	isZero := op(1, func(in *Interp, fr *Frame, st *State, a []*GrpV) Val { return BoolV{c.grpIsZero(a[0])} })
	equal := op(2, func(in *Interp, fr *Frame, st *State, a []*GrpV) Val {
		return BoolV{c.grpIsZero(c.grpAdd(a[0], c.grpScale(a[1], nint(-1))))}
	})
	for _, ty := range []string{cv.aff, cv.proj} {
		set(ty, "Copy", same)
		set(ty, "NegAssign", neg)
		set(ty, "IsZero", isZero)
		set(ty, "Equal", equal)
		set(ty, "Equals", equal)
		set(ty, "ToProjective", same)
		set(ty, "ToAffine", same)
	}
	set(cv.proj, "Add", add)
	set(cv.proj, "AddAffine", add)
	set(cv.proj, "Double", op(1, func(in *Interp, fr *Frame, st *State, a []*GrpV) Val { return in.newPtr(st, c.grpAdd(a[0], a[0])) }))
}

// grpIsZero is the condition that a group element is the identity.
func (c *Ctx) grpIsZero(a *GrpV) B {
	if c.grpAny {
		c.nAny++
		return c.bdd.atom(c.mkAtom(fmt.Sprintf("any:%d", c.nAny), Atom{kind: aOpaque, name: "unknown"}))
	}
	if len(a.t) == 0 {
		return bTrue
	}
	if bv := c.grpSelector(a); bv > 0 { // decide each case of a selector
		sub := func(x int64) B {
			r := &GrpV{ty: a.ty, t: map[int]*NPoly{}, mod: a.mod}
			for k, p := range a.t {
				r.t[k] = p.subst(bv, nint(x), zi(1))
			}
			return c.grpIsZero(c.grpNorm(r))
		}
		return c.bdd.ite(c.bdd.atom(c.syms[bv].data.(int)), sub(1), sub(0))
	}
	// up to sign
	n := c.grpScale(a, nint(-1))
	if n.Key() < a.Key() {
		a = n
	}
	return c.bdd.atom(c.mkAtom("isO:"+a.Key(), Atom{kind: aOpaque, name: c.showGrp(a) + " = O"}))
}

// grpSelector picks a selector bit of the coefficients when there are few.
func (c *Ctx) grpSelector(a *GrpV) int {
	n, bv := map[int]bool{}, 0
	for _, p := range a.t {
		for v := range p.vars() {
			if c.syms[v].class == "bit" {
				if _, ok := c.syms[v].data.(int); ok {
					n[v] = true
					if v > bv {
						bv = v
					}
				}
			}
		}
	}
	if len(n) > 12 {
		return 0
	}
	return bv
}

// useMul installs the scalar multiplication contracts (C13).
func (g *G) useMul() {
	for i := range curves {
		cv := &curves[i]
		g.mulOps(cv, g.pointConv(cv))
	}
}

func (g *G) mulOps(cv *curve, conv grpConv) {
	for _, ty := range []string{cv.aff, cv.proj} {
		for _, m := range []string{"Mul", "MulFR"} {
			if f := g.P.method(modPath, ty, m); f != nil {
				g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
					return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
						return each(in, fr, st, a[1:2], func(st *State, vs []Val) Val {
							k := wordSum(intWords(in.c, wordsOf(in, fr, st, vs[0])))
							if st.cond == bFalse {
								return nil
							}
							return in.newPtr(st, in.c.grpScale(gs[0], k))
						})
					})
				}
			}
		}
		if f := g.P.method(modPath, ty, "MulBig"); f != nil {
			g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
					b, ok := a[1].(BigV)
					if !ok {
						in.fail(fr, fr.site, "big.Int expected")
					}
					return in.newPtr(st, in.c.grpScale(gs[0], b.p))
				})
			}
		}
	}
}
