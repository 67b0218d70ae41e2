package main

// C10: square roots and Legendre symbols.  A non-zero element f of a field of
// N+1 elements is the generator of a free monoid whose exponents are taken
// modulo N/2 up to the sign chi = f^(N/2), which is +1 in the analysis of
// squares and -1 in that of non-squares.  Adding one to an element alpha with
// alpha^(q+1) = 1 gives a further generator s with s^(q-1) = 1/alpha.

import (
	"fmt"
	"go/token"
	"math/big"
)

type rootDom struct {
	g     *G
	half  *big.Int // N/2
	chi   int      // 0: f^half = 1, 1: f^half = -1
	f, i  int      // generators: the element, a primitive fourth root of one (u; -1 = u^2)
	sums  map[int]map[int]*big.Int
	order []int // sum generators in order of creation
	eqs   map[int]map[int]*big.Int
}

func newRootDom(g *G, half *big.Int, chi int) *rootDom {
	r := &rootDom{g: g, half: half, chi: chi, sums: map[int]map[int]*big.Int{}, eqs: map[int]map[int]*big.Int{}}
	for _, v := range []struct {
		n string
		p *int
	}{{"f", &r.f}, {"u", &r.i}} {
		for k := range g.c.grpSym("", v.n, nil).t {
			*v.p = k
		}
	}
	return r
}

// exps reads and reduces the exponents.
func (r *rootDom) exps(v *GrpV) map[int]*big.Int {
	m := map[int]*big.Int{}
	for k, p := range v.t {
		n := nconstOf(p)
		if n == nil {
			panic(Unresolved{"symbolic exponent"})
		}
		m[k] = new(big.Int).Set(n)
	}
	return r.reduce(m)
}

func (r *rootDom) reduce(m map[int]*big.Int) map[int]*big.Int {
	o := map[int]*big.Int{r.f: new(big.Int), r.i: new(big.Int)}
	for k, n := range m {
		o[k] = new(big.Int).Set(n)
	}
	qm1 := new(big.Int).Sub(bigQ, big.NewInt(1))
	for i := len(r.order) - 1; i >= 0; i-- {
		s := r.order[i]
		if n := o[s]; n != nil {
			a, b := new(big.Int).DivMod(n, qm1, new(big.Int))
			o[s] = b
			for k, e := range r.sums[s] {
				if o[k] == nil {
					o[k] = new(big.Int)
				}
				o[k].Sub(o[k], new(big.Int).Mul(a, e))
			}
		}
	}
	a, b := new(big.Int).DivMod(o[r.f], r.half, new(big.Int))
	o[r.f] = b
	if r.chi == 1 && a.Bit(0) == 1 {
		o[r.i].Add(o[r.i], big.NewInt(2))
	}
	o[r.i].Mod(o[r.i], big.NewInt(4))
	for k, n := range o {
		if n.Sign() == 0 {
			delete(o, k)
		}
	}
	return o
}

func (r *rootDom) val(ty string, m map[int]*big.Int) *GrpV {
	v := &GrpV{ty: ty, t: map[int]*NPoly{}}
	for k, n := range r.reduce(m) {
		v.t[k] = nconst(n)
	}
	return v
}

func (r *rootDom) pow(a *GrpV, n *big.Int) *GrpV {
	m := r.exps(a)
	for _, e := range m {
		e.Mul(e, n)
	}
	return r.val(a.ty, m)
}

func (r *rootDom) mul(a, b *GrpV) *GrpV {
	m := r.exps(a)
	for k, e := range r.exps(b) {
		if m[k] == nil {
			m[k] = new(big.Int)
		}
		m[k].Add(m[k], e)
	}
	return r.val(a.ty, m)
}

func (r *rootDom) inv(a *GrpV) *GrpV { return r.pow(a, big.NewInt(-1)) }

// equal is the condition a == b.
func (r *rootDom) equal(a, b *GrpV) B {
	d := r.mul(a, r.inv(b))
	m := r.exps(d)
	if len(m) == 0 {
		return bTrue
	}
	if len(m) == 1 && m[r.i] != nil {
		return bFalse
	}
	at := r.g.c.mkAtom("one:"+d.Key(), Atom{kind: aOpaque, name: r.show(d) + " = 1"})
	r.eqs[at] = m
	return r.g.c.bdd.atom(at)
}

func (r *rootDom) show(v *GrpV) string {
	s := r.g.c.showGrp(v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// isOne decides a == 1 under cond.
func (r *rootDom) isOne(a *GrpV, cond B) bool {
	if r.g.c.bdd.and(cond, r.g.c.bdd.not(r.equal(a, r.val(a.ty, nil)))) == bFalse {
		return true
	}
	for at, m := range r.eqs {
		if r.g.c.bdd.and(cond, r.g.c.bdd.not(r.g.c.bdd.atom(at))) != bFalse {
			continue
		}
		for j := int64(-3); j <= 3; j++ {
			if len(r.exps(r.mul(a, r.pow(r.val(a.ty, m), big.NewInt(j))))) == 0 {
				return true
			}
		}
	}
	return false
}

// plus1 is a + 1 for a norm-one element a != -1.
func (r *rootDom) plus1(fr *Frame, st *State, a *GrpV) *GrpV {
	in, d := r.g.in, r.g.c.bdd
	minus1 := r.val(a.ty, map[int]*big.Int{r.i: big.NewInt(2)})
	if d.and(st.cond, r.equal(a, minus1)) != bFalse {
		in.fail(fr, token.NoPos, "a sum that may be zero")
	}
	qp1 := new(big.Int).Add(bigQ, big.NewInt(1))
	if len(r.exps(r.pow(a, qp1))) != 0 {
		in.fail(fr, token.NoPos, "a sum with an element that is not of norm one")
	}
	v := r.g.c.grpSym(a.ty, "1+"+a.Key(), nil)
	for k := range v.t {
		if r.sums[k] == nil {
			r.sums[k] = r.exps(a)
			r.order = append(r.order, k)
		}
	}
	return v
}

// Coordinates.  The second coordinate of x is the first one of -ux, and
// conjugates have the same first coordinate, so "first coordinate of y" is all
// that is needed: negation and conjugation act on y.

func (r *rootDom) coord(x *GrpV, i int) Val {
	if i == 1 {
		x = r.mul(x, r.val(x.ty, map[int]*big.Int{r.i: big.NewInt(3)}))
	}
	return &OpqV{"coord", []Val{x}}
}

// fromCoords finds the element with the given coordinates.
func (r *rootDom) fromCoords(a, b Val) *GrpV {
	y, ok1 := coordOf(a)
	z, ok2 := coordOf(b)
	if !ok1 || !ok2 {
		return nil
	}
	mi := r.val(y.ty, map[int]*big.Int{r.i: big.NewInt(3)})
	for _, x := range []*GrpV{y, r.pow(y, bigQ)} {
		for _, w := range []*GrpV{z, r.pow(z, bigQ)} {
			if len(r.exps(r.mul(r.mul(x, mi), r.inv(w)))) == 0 {
				return x
			}
		}
	}
	return nil
}

func coordOf(v Val) (*GrpV, bool) {
	o, ok := v.(*OpqV)
	if !ok || o.tag != "coord" {
		return nil, false
	}
	return o.args[0].(*GrpV), true
}

// useCoords lets coordinates of elements of FQ2 be read, negated and stored.
func (r *rootDom) useCoords() {
	g := r.g
	in := g.in
	comp, setComp := in.comp, in.setComp
	in.comp = func(in *Interp, v Val, i int) Val {
		if x, ok := v.(*GrpV); ok && x.ty == "FQ2" {
			return r.coord(x, i)
		}
		return comp(in, v, i)
	}
	in.setComp = func(in *Interp, v Val, i int, nv Val) Val {
		if x, ok := v.(*GrpV); ok && x.ty == "FQ2" {
			fs := []Val{r.coord(x, 0), r.coord(x, 1)}
			fs[i] = nv
			if y := r.fromCoords(fs[0], fs[1]); y != nil {
				return y
			}
			return &StructV{fs}
		}
		return setComp(in, v, i, nv)
	}
	if mk := g.P.fn(modPath, "NewFQ2"); mk != nil && in.intr[mk.String()] != nil {
		old := in.intr[mk.String()]
		in.intr[mk.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			if y := r.fromCoords(in.c.simp(a[0], st.cond), in.c.simp(a[1], st.cond)); y != nil {
				return y
			}
			return old(in, fr, st, a)
		}
	}
	wrap := func(name string, f func(fr *Frame, st *State, y *GrpV, cell PtrV) Val) {
		fn := g.P.method(modPath, "FQ", name)
		if fn == nil || in.intr[fn.String()] == nil {
			return
		}
		old := in.intr[fn.String()]
		in.intr[fn.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			v := in.c.simp(a[0], st.cond)
			var cell PtrV
			if p, ok := v.(PtrV); ok && p.obj != 0 {
				cell = p
				v = in.c.simp(in.load(fr, st, p, token.NoPos), st.cond)
			}
			if y, ok := coordOf(v); ok {
				return f(fr, st, y, cell)
			}
			return old(in, fr, st, a)
		}
	}
	wrap("NegAssign", func(fr *Frame, st *State, y *GrpV, cell PtrV) Val {
		in.store(fr, st, cell, r.coord(r.mul(y, r.val(y.ty, map[int]*big.Int{r.i: big.NewInt(2)})), 0), token.NoPos)
		return &TupleV{}
	})
	wrap("Copy", func(fr *Frame, st *State, y *GrpV, cell PtrV) Val { return r.coord(y, 0) })
}

func (r *rootDom) conv(in *Interp, fr *Frame, st *State, v Val) *GrpV {
	if s, ok := v.(*StructV); ok && len(s.f) == 2 {
		if x := r.fromCoords(s.f[0], s.f[1]); x != nil {
			return x
		}
	}
	if a, ok := v.(*ArrayV); ok { // words of FR
		w := nconstOf(wordSum(a))
		if w == nil {
			return nil
		}
		switch x := cfield(w, bigR, mont256); {
		case x.Cmp(big.NewInt(1)) == 0:
			return r.val("", nil)
		case new(big.Int).Add(x, big.NewInt(1)).Cmp(bigR) == 0:
			return r.val("", map[int]*big.Int{r.i: big.NewInt(2)})
		}
		return nil
	}
	var ks []K
	if !constElems(in, fr, st, v, &ks) || len(ks) == 0 {
		return nil
	}
	k := ks[0]
	if len(ks) == 2 {
		k = kk(ks[0].a, ks[1].a)
	} else if len(ks) > 2 {
		return nil
	}
	c := ki(1)
	for e := int64(0); e < 4; e++ {
		if k.Equal(c) {
			return r.val("", map[int]*big.Int{r.i: big.NewInt(e)})
		}
		c = c.Mul(kk(new(big.Int), big.NewInt(1)))
	}
	return nil
}

func (r *rootDom) use(tys ...string) {
	g := r.g
	in := g.in
	g.c.grpGamma = true
	for _, ty := range tys {
		ty := ty
		set := func(name string, f func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val) {
			if fn := g.P.method(modPath, ty, name); fn != nil {
				in.intr[fn.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
					n := len(a)
					if name == "Exp" || name == "FrobeniusMapAssign" {
						n = 1
					}
					return grpGets(in, fr, st, a[:n], r.conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
						return f(fr, st, gs, cells, a[n:])
					})
				}
			}
		}
		mut := func(name string, f func(fr *Frame, st *State, a []*GrpV, args []Val) *GrpV) {
			set(name, func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val {
				if cells[0].obj == 0 {
					in.fail(fr, token.NoPos, "in-place operation on a value")
				}
				v := *f(fr, st, a, args)
				v.ty, v.key = ty, ""
				in.store(fr, st, cells[0], &v, token.NoPos)
				return &TupleV{}
			})
		}
		wrap := func(fnName string, st *State, v *GrpV) Val {
			w := *v
			w.ty, w.key = ty, ""
			f := g.P.method(modPath, ty, fnName)
			if !isPtrType(f.Signature.Results().At(0).Type()) {
				return &w
			}
			if ty == "FR" {
				return in.newPtr(st, &StructV{[]Val{in.newPtr(st, &w)}})
			}
			return in.newPtr(st, &w)
		}
		mut("MulAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV { return r.mul(a[0], a[1]) })
		mut("SquareAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV { return r.mul(a[0], a[0]) })
		mut("InverseAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV { return r.inv(a[0]) })
		mut("DivAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV { return r.mul(a[0], r.inv(a[1])) })
		mut("NegAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV {
			return r.mul(a[0], r.val(ty, map[int]*big.Int{r.i: big.NewInt(2)}))
		})
		if ty == "FQ2" {
			mut("FrobeniusMapAssign", func(fr *Frame, st *State, a []*GrpV, args []Val) *GrpV {
				n := nconstOf(in.asInt(fr, args[0]))
				if n == nil {
					in.fail(fr, token.NoPos, "symbolic Frobenius power")
				}
				if n.Bit(0) == 0 {
					return a[0]
				}
				return r.pow(a[0], bigQ)
			})
			mut("AddAssign", func(fr *Frame, st *State, a []*GrpV, _ []Val) *GrpV {
				if len(r.exps(a[1])) == 0 {
					return r.plus1(fr, st, a[0])
				}
				if len(r.exps(a[0])) == 0 {
					return r.plus1(fr, st, a[1])
				}
				in.fail(fr, token.NoPos, "a sum without one")
				return nil
			})
			set("Norm", func(fr *Frame, st *State, a []*GrpV, cells []PtrV, _ []Val) Val {
				v := r.pow(a[0], new(big.Int).Add(bigQ, big.NewInt(1)))
				v.ty = "FQ"
				if isPtrType(g.P.method(modPath, ty, "Norm").Signature.Results().At(0).Type()) {
					return in.newPtr(st, v)
				}
				return v
			})
		}
		set("Exp", func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val {
			n := nconstOf(wordSum(wordsOf(in, fr, st, args[0])))
			if n == nil {
				in.fail(fr, token.NoPos, "symbolic exponent")
			}
			return wrap("Exp", st, r.pow(a[0], n))
		})
		set("Copy", func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val { return wrap("Copy", st, a[0]) })
		set("IsZero", func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val { return BoolV{bFalse} })
		set("Equals", func(fr *Frame, st *State, a []*GrpV, cells []PtrV, args []Val) Val { return BoolV{r.equal(a[0], a[1])} })
	}
}

type rootField struct {
	ty   string
	size *big.Int // number of elements
	tys  []string
}

func rootFields() []rootField {
	q2 := new(big.Int).Mul(bigQ, bigQ)
	return []rootField{{"FQ", bigQ, []string{"FQ"}}, {"FQ2", q2, []string{"FQ2", "FQ"}}, {"FR", bigR, []string{"FR"}}}
}

func (f rootField) half() *big.Int {
	h := new(big.Int).Sub(f.size, big.NewInt(1))
	return h.Rsh(h, 1)
}

func init() {
	register("C10", 50, func(r *Run) {
		for _, arch := range bothArch {
			for _, fl := range rootFields() {
				rootGroups(r, arch, fl)
			}
		}
	})
}

func rootGroups(r *Run, arch string, fl rootField) {
	for chi, what := range []string{"squares", "non-squares"} {
		chi, what := chi, what
		r.group(fmt.Sprintf("%s/%s non-zero %s", arch, fl.ty, what), func(g *G) {
			g.use(arch)
			g.useFQ()
			if fl.ty == "FQ2" {
				g.useFQ2()
			}
			g.in.runInit(modPath)
			g.start()
			d := newRootDom(g, fl.half(), chi)
			d.use(fl.tys...)
			if fl.ty == "FQ2" {
				d.useCoords()
			}
			if fl.ty == "FR" {
				useConstFR(g)
			}
			rootObs(g, d, fl, chi)
		})
	}
	r.group(fmt.Sprintf("%s/%s zero", arch, fl.ty), func(g *G) { rootZero(g, arch, fl) })
}

// legendreIs checks the result of Legendre.
func legendreIs(g *G, name, where string, v Val, want int64) {
	iv, ok := g.simpV(v).(IntV)
	n := (*big.Int)(nil)
	if ok {
		n = nconstOf(iv.p)
	}
	g.ob(name, n != nil && n.Cmp(big.NewInt(want)) == 0, where, "the symbol is %s, expected %d", g.c.showV(v), want)
}

func rootObs(g *G, d *rootDom, fl rootField, chi int) {
	mk := func() (PtrV, *GrpV) {
		e := d.val(fl.ty, map[int]*big.Int{d.f: big.NewInt(1)})
		if fl.ty == "FR" {
			return g.newPtr(&StructV{[]Val{g.newPtr(e)}}), e
		}
		return g.newPtr(e), e
	}
	what := []string{"a non-zero square", "a non-square"}[chi]

	fn := g.method(fl.ty, "Legendre")
	p, _ := mk()
	mark := len(g.in.panics)
	before := snapshot(g, p)
	v := g.callM(fl.ty, "Legendre", p)
	legendreIs(g, fl.ty+".Legendre of "+what, g.where(fn), v, int64(1+chi))
	g.ob(fl.ty+".Legendre: operand unchanged", veq(before, snapshot(g, p)), g.where(fn), "the operand is written")
	g.noPanics(fl.ty+".Legendre", mark, g.where(fn))

	g.start()
	fn = g.method(fl.ty, "Sqrt")
	p, e := mk()
	mark = len(g.in.panics)
	before = snapshot(g, p)
	v = g.callM(fl.ty, "Sqrt", p)
	if fl.ty == "FR" {
		if chi == 1 {
			yes, _ := g.isNil(v)
			g.ob("FR.Sqrt refuses a non-square", yes, g.where(fn), "FR.Sqrt returns %s", g.c.showV(v))
			return
		}
		ok := false
		st := g.st
		grpGet(g.in, &Frame{in: g.in, fn: fn}, &st, v, PtrV{}, d.conv, func(st *State, r *GrpV, _ PtrV) Val {
			ok = d.isOne(d.mul(d.mul(r, r), d.inv(e)), st.cond)
			return nil
		})
		g.ob("FR.Sqrt of a square squares to it", ok, g.where(fn), "FR.Sqrt returns %s", g.c.showV(v))
		return
	}
	t := []Val{g.tuple(v, 0), g.tuple(v, 1)}
	ok, why := g.sameCond(g.boolOf(t[1]), []B{bTrue, bFalse}[chi])
	g.ob(fl.ty+".Sqrt: success for "+what, ok, g.where(fn), "the success flag of %s is wrong: %s", what, why)
	if chi == 0 {
		n := 0
		st := g.st
		grpGet(g.in, &Frame{in: g.in, fn: fn}, &st, t[0], PtrV{}, d.conv, func(st *State, r *GrpV, _ PtrV) Val {
			n++
			w := d.mul(d.mul(r, r), d.inv(e))
			g.ob(fmt.Sprintf("%s.Sqrt: the root squares to the element (case %d)", fl.ty, n), d.isOne(w, st.cond), g.where(fn), "root^2 / element = %s", d.show(w))
			return nil
		})
		g.ob(fl.ty+".Sqrt: a root is returned", n > 0, g.where(fn), "no root")
	}
	g.ob(fl.ty+".Sqrt: operand unchanged", veq(before, snapshot(g, p)), g.where(fn), "the operand is written")
	g.noPanics(fl.ty+".Sqrt", mark, g.where(fn))
}

func rootZero(g *G, arch string, fl rootField) {
	g.use(arch)
	g.useFQ()
	if fl.ty == "FQ2" {
		g.useFQ2()
	}
	g.in.runInit(modPath)
	g.start()
	mk := func() PtrV {
		if fl.ty == "FR" {
			return g.newPtr(&StructV{[]Val{g.newPtr(constWords(new(big.Int), 4))}})
		}
		return g.newPtr(g.elemConst(fl.ty, ki(0)))
	}
	fn := g.method(fl.ty, "Legendre")
	mark := len(g.in.panics)
	v := g.callM(fl.ty, "Legendre", mk())
	legendreIs(g, fl.ty+".Legendre of zero", g.where(fn), v, 0)
	g.noPanics(fl.ty+".Legendre of zero", mark, g.where(fn))
	if fl.ty == "FR" {
		return
	}
	g.start()
	fn = g.method(fl.ty, "Sqrt")
	mark = len(g.in.panics)
	v = g.callM(fl.ty, "Sqrt", mk())
	t := []Val{g.tuple(v, 0), g.tuple(v, 1)}
	g.ob(fl.ty+".Sqrt: success for zero", g.boolOf(t[1]) == bTrue, g.where(fn), "zero has no root")
	e, ok := g.simpV(t[0]).(*ElemV)
	g.ob(fl.ty+".Sqrt of zero is zero", ok && e.e.num.IsZero(), g.where(fn), "the root of zero is %s", g.c.showV(t[0]))
	g.noPanics(fl.ty+".Sqrt of zero", mark, g.where(fn))
}

// useConstFR computes FRReprToFR of constants.
func useConstFR(g *G) {
	g.in.intr[g.fn("FRReprToFR").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		n := nconstOf(wordSum(wordsOf(in, fr, st, a[0])))
		if n == nil {
			in.fail(fr, token.NoPos, "symbolic scalar")
		}
		if n.Cmp(bigR) >= 0 {
			return nilPtr()
		}
		m := new(big.Int).Mod(new(big.Int).Mul(n, mont256), bigR)
		return in.newPtr(st, &StructV{[]Val{in.newPtr(st, constWords(m, 4))}})
	}
}
