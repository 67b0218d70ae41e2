package main

// C06, C07, C08: the extension tower.

import (
	"fmt"
	"math/big"
)

var kXi = kk(big.NewInt(1), big.NewInt(1)) // 1+u

// l1 starts a context with atomic FQ (and FQ2) values.
func (g *G) l1(arch string, fq2 bool) {
	g.use(arch)
	g.useFQ()
	if fq2 {
		g.useFQ2()
	}
	g.in.runInit(modPath)
	g.start()
}

func (g *G) fqSym(name string) *Elem  { return g.c.F.elem(g.c.F.sym(name, true)) }
func (g *G) fq2Sym(name string) *Elem { return g.c.F.elem(g.c.F.sym(name, false)) }

// el reads an atomic element.
func (g *G) el(v Val) *Elem {
	if p, ok := v.(PtrV); ok {
		v = g.deref(p)
	}
	v = g.c.simp(v, g.st.cond)
	e, ok := v.(*ElemV)
	if !ok {
		panic(Unresolved{"field element expected, got " + g.c.showV(v)})
	}
	return e.e
}

// coefs reads the atomic elements of a tower object in field order.
func (g *G) coefs(v Val) []*Elem {
	switch x := g.c.simp(v, g.st.cond).(type) {
	case PtrV:
		y := g.deref(x)
		if y == nil {
			panic(Unresolved{"nil pointer in a field element"})
		}
		return g.coefs(y)
	case *StructV:
		var r []*Elem
		for _, f := range x.f {
			r = append(r, g.coefs(f)...)
		}
		return r
	case *ElemV:
		return []*Elem{x.e}
	default:
		panic(Unresolved{"field element expected, got " + g.c.showV(v)})
	}
}

// tower describes an extension for the generic obligations.
type tower struct {
	ty    string
	atom  string // atomic coefficient type
	n     int    // number of atomic coefficients
	order []int  // coefficient k belongs to basis element t^order[k]
	res   K      // t^n = res
	fq2   bool
}

var towers = []tower{
	{"FQ2", "FQ", 2, []int{0, 1}, ki(-1), false},
	{"FQ6", "FQ2", 3, []int{0, 1, 2}, kXi, true},
	{"FQ12", "FQ2", 6, []int{0, 2, 4, 1, 3, 5}, kXi, true},
}

func (t *tower) mk(g *G, name string) (PtrV, []*Elem) {
	var es []*Elem
	for i := 0; i < t.n; i++ {
		if t.fq2 {
			es = append(es, g.fq2Sym(fmt.Sprintf("%s%d", name, t.order[i])))
		} else {
			es = append(es, g.fqSym(fmt.Sprintf("%s%d", name, t.order[i])))
		}
	}
	return t.obj(g, es), es
}

func (t *tower) obj(g *G, es []*Elem) PtrV {
	var vs []Val
	for _, e := range es {
		vs = append(vs, &ElemV{t.atom, e})
	}
	if t.ty == "FQ12" {
		return g.newPtr(&StructV{[]Val{g.newPtr(&StructV{vs[:3]}), g.newPtr(&StructV{vs[3:]})}})
	}
	return g.newPtr(&StructV{vs})
}

// mul multiplies in the ring.
func (t *tower) mul(F *FieldDom, a, b []*Elem) []*Elem {
	acc := make([]*Elem, 2*t.n)
	for i := range a {
		for j := range b {
			k := t.order[i] + t.order[j]
			p := F.Mul(a[i], b[j])
			if acc[k] == nil {
				acc[k] = p
			} else {
				acc[k] = F.Add(acc[k], p)
			}
		}
	}
	out := make([]*Elem, t.n)
	for i := range out {
		k := t.order[i]
		e := acc[k]
		if e == nil {
			e = F.konst(ki(0))
		}
		if h := acc[k+t.n]; h != nil {
			e = F.Add(e, F.Scale(h, t.res))
		}
		out[i] = e
	}
	return out
}

func mapE(a []*Elem, f func(e *Elem) *Elem) []*Elem {
	r := make([]*Elem, len(a))
	for i := range a {
		r[i] = f(a[i])
	}
	return r
}

func mapE2(a, b []*Elem, f func(x, y *Elem) *Elem) []*Elem {
	r := make([]*Elem, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func (g *G) sameEs(name, where string, got, want []*Elem) bool {
	if len(got) != len(want) {
		return g.ob(name, false, where, "%d coefficients, expected %d", len(got), len(want))
	}
	for i := range want {
		if !g.c.F.Equal(got[i], want[i]) {
			return g.ob(name, false, where, "coefficient %d is %s, expected %s", i, g.c.F.show(got[i]), g.c.F.show(want[i]))
		}
	}
	return g.ob(name, true, where, "")
}

// basis places x at t^k.
func (t *tower) basis(F *FieldDom, xs map[int]*Elem) []*Elem {
	out := make([]*Elem, t.n)
	for i := range out {
		if e := xs[t.order[i]]; e != nil {
			out[i] = e
		} else {
			out[i] = F.konst(ki(0))
		}
	}
	return out
}

func towerOps(r *Run, t tower, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+t.ty+"."+name, func(g *G) {
			g.l1(arch, t.fq2)
			f(g)
		})
	}
	type op struct {
		name string
		n    int
		want func(F *FieldDom, a, b []*Elem) []*Elem
	}
	ops := []op{
		{"AddAssign", 2, func(F *FieldDom, a, b []*Elem) []*Elem { return mapE2(a, b, F.Add) }},
		{"SubAssign", 2, func(F *FieldDom, a, b []*Elem) []*Elem { return mapE2(a, b, F.Sub) }},
		{"MulAssign", 2, func(F *FieldDom, a, b []*Elem) []*Elem { return t.mul(F, a, b) }},
		{"SquareAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem { return t.mul(F, a, a) }},
		{"NegAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem { return mapE(a, F.Neg) }},
		{"DoubleAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem { return mapE2(a, a, F.Add) }},
	}
	switch t.ty {
	case "FQ2":
		ops = append(ops, op{"MultiplyByNonresidueAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem {
			return []*Elem{F.Sub(a[0], a[1]), F.Add(a[0], a[1])}
		}})
	case "FQ6":
		ops = append(ops, op{"MulByNonresidueAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem {
			return t.mul(F, a, t.basis(F, map[int]*Elem{1: F.konst(ki(1))}))
		}})
	case "FQ12":
		ops = append(ops, op{"ConjugateAssign", 1, func(F *FieldDom, a, b []*Elem) []*Elem {
			return append(append([]*Elem{}, a[:3]...), mapE(a[3:], F.Neg)...)
		}})
	}
	for _, o := range ops {
		o := o
		vars := []string{"distinct"}
		if o.n == 2 {
			vars = append(vars, "aliased")
		}
		for _, va := range vars {
			va := va
			grp(o.name+"/"+va, func(g *G) {
				fn := g.method(t.ty, o.name)
				recv, A := t.mk(g, "a")
				var args []Val
				other, B := recv, A
				if o.n == 2 {
					if va == "distinct" {
						other, B = t.mk(g, "b")
					}
					args = append(args, other)
				}
				mark := len(g.in.panics)
				g.callM(t.ty, o.name, recv, args...)
				g.sameEs(o.name+" "+va+": the ring's coefficients", g.where(fn), g.coefs(recv), o.want(g.c.F, A, B))
				if other != recv {
					g.sameEs(o.name+": argument is unchanged", g.where(fn), g.coefs(other), B)
				}
				g.noPanics(o.name, mark, g.where(fn))
			})
		}
	}
	grp("Copy", func(g *G) {
		fn := g.method(t.ty, "Copy")
		recv, A := t.mk(g, "a")
		mark := len(g.in.panics)
		v := g.callM(t.ty, "Copy", recv)
		g.sameEs("Copy: same element", g.where(fn), g.coefs(v), A)
		g.noPanics("Copy", mark, g.where(fn))
	})
	grp("New", func(g *G) {
		fn := g.fn("New" + t.ty)
		src, A := t.mk(g, "a")
		var args []Val
		for _, f := range g.deref(src).(*StructV).f {
			args = append(args, f)
		}
		mark := len(g.in.panics)
		v := g.callA(fn, args...)
		g.sameEs("New: the given coefficients", g.where(fn), g.coefs(v), A)
		g.noPanics("New", mark, g.where(fn))
	})
	grp("Equals", func(g *G) {
		fn := g.method(t.ty, "Equals")
		x, A := t.mk(g, "a")
		y, B := t.mk(g, "b")
		mark := len(g.in.panics)
		v := g.callM(t.ty, "Equals", x, y)
		want := bTrue
		for i := range A {
			want = g.c.bdd.and(want, g.in.elemEq(&g.st, &ElemV{t.atom, A[i]}, &ElemV{t.atom, B[i]}))
		}
		ok, why := g.sameCond(g.boolOf(v), want)
		g.ob("Equals: true exactly when all coefficients agree", ok, g.where(fn), "%s", why)
		g.sameEs("Equals: operand unchanged", g.where(fn), append(g.coefs(x), g.coefs(y)...), append(append([]*Elem{}, A...), B...))
		g.noPanics("Equals", mark, g.where(fn))
	})
	grp("IsZero", func(g *G) {
		fn := g.method(t.ty, "IsZero")
		x, A := t.mk(g, "a")
		mark := len(g.in.panics)
		v := g.callM(t.ty, "IsZero", x)
		want := bTrue
		for i := range A {
			want = g.c.bdd.and(want, g.in.isZeroE(&g.st, A[i]))
		}
		ok, why := g.sameCond(g.boolOf(v), want)
		g.ob("IsZero: true exactly when all coefficients are zero", ok, g.where(fn), "%s", why)
		g.noPanics("IsZero", mark, g.where(fn))
	})
	grp("constants", func(g *G) {
		z := mapE(make([]*Elem, t.n), func(*Elem) *Elem { return g.c.F.konst(ki(0)) })
		one := append([]*Elem{g.c.F.konst(ki(1))}, z[1:]...)
		for nm, w := range map[string][]*Elem{t.ty + "Zero": z, t.ty + "One": one} {
			v := g.in.globalVal(&g.st, modPath, nm)
			if v == nil {
				g.ob(nm+" exists", false, modPath, "no such variable")
				continue
			}
			g.sameEs(nm+" has the required value", modPath+"."+nm, g.coefs(v), w)
		}
	})
	switch t.ty {
	case "FQ2":
		grp("Norm", func(g *G) {
			fn := g.method("FQ2", "Norm")
			x, A := t.mk(g, "a")
			mark := len(g.in.panics)
			v := g.callM("FQ2", "Norm", x)
			F := g.c.F
			g.sameEs("Norm: c0^2+c1^2", g.where(fn), []*Elem{g.el(v)}, []*Elem{F.Add(F.Mul(A[0], A[0]), F.Mul(A[1], A[1]))})
			g.sameEs("Norm: operand unchanged", g.where(fn), g.coefs(x), A)
			g.noPanics("Norm", mark, g.where(fn))
		})
		grp("Cmp", func(g *G) {
			fn := g.method("FQ2", "Cmp")
			x, A := t.mk(g, "a")
			y, B := t.mk(g, "b")
			mark := len(g.in.panics)
			v := g.callM("FQ2", "Cmp", x, y)
			hi := g.in.orderVal(&g.st, "FQ", A[1], B[1])
			lo := g.in.orderVal(&g.st, "FQ", A[0], B[0])
			eq := g.in.elemEq(&g.st, &ElemV{"FQ", A[1]}, &ElemV{"FQ", B[1]})
			want := g.c.gamma(eq, lo, hi)
			g.ob("Cmp: lexicographic on (c1, c0)", g.sameInt(v, want), g.where(fn), "result %s", g.c.showV(v))
			g.noPanics("Cmp", mark, g.where(fn))
		})
		grp("Parity", func(g *G) {
			fn := g.method("FQ2", "Parity")
			x, A := t.mk(g, "a")
			mark := len(g.in.panics)
			v := g.callM("FQ2", "Parity", x)
			F := g.c.F
			n := mapE(A, F.Neg)
			eq1 := g.in.elemEq(&g.st, &ElemV{"FQ", A[1]}, &ElemV{"FQ", n[1]})
			gt := func(i int) B { return g.in.orderLt(&g.st, "FQ", n[i], A[i]) }
			ok, why := g.sameCond(g.boolOf(v), g.c.bdd.ite(eq1, gt(0), gt(1)))
			g.ob("Parity: true exactly when the element exceeds its negative", ok, g.where(fn), "%s", why)
			g.noPanics("Parity", mark, g.where(fn))
		})
		r.group(arch+"/FQ.Parity", func(g *G) {
			g.l1(arch, false)
			fn := g.method("FQ", "Parity")
			a := g.fqSym("a")
			mark := len(g.in.panics)
			v := g.callM("FQ", "Parity", g.newPtr(&ElemV{"FQ", a}))
			ok, why := g.sameCond(g.boolOf(v), g.in.orderLt(&g.st, "FQ", g.c.F.Neg(a), a))
			g.ob("Parity: true exactly when the element exceeds its negative", ok, g.where(fn), "%s", why)
			g.noPanics("Parity", mark, g.where(fn))
		})
	case "FQ6":
		sparse := func(name string, idx []int) {
			grp(name, func(g *G) {
				fn := g.method(t.ty, name)
				x, A := t.mk(g, "a")
				F := g.c.F
				b := map[int]*Elem{}
				var args []Val
				for _, i := range idx {
					b[i] = g.fq2Sym(fmt.Sprintf("b%d", i))
					args = append(args, &ElemV{"FQ2", b[i]})
				}
				mark := len(g.in.panics)
				g.callM(t.ty, name, x, args...)
				g.sameEs(name+": product with the sparse element", g.where(fn), g.coefs(x), t.mul(F, A, t.basis(F, b)))
				g.noPanics(name, mark, g.where(fn))
			})
		}
		sparse("MulBy1Assign", []int{1})
		sparse("MulBy01Assign", []int{0, 1})
	case "FQ12":
		grp("MulBy014Assign", func(g *G) {
			fn := g.method(t.ty, "MulBy014Assign")
			x, A := t.mk(g, "a")
			F := g.c.F
			c0, c1, c4 := g.fq2Sym("c0"), g.fq2Sym("c1"), g.fq2Sym("c4")
			mark := len(g.in.panics)
			g.callM(t.ty, "MulBy014Assign", x, &ElemV{"FQ2", c0}, &ElemV{"FQ2", c1}, &ElemV{"FQ2", c4})
			// c0 + c1 v + c4 v w
			g.sameEs("MulBy014Assign: product with c0 + c1*v + c4*v*w", g.where(fn), g.coefs(x), t.mul(F, A, t.basis(F, map[int]*Elem{0: c0, 2: c1, 3: c4})))
			g.noPanics("MulBy014Assign", mark, g.where(fn))
		})
	}
}

// frobenius: a^(q^k) coefficient by coefficient.
func (t *tower) frob(F *FieldDom, a []*Elem, k int) []*Elem {
	if !t.fq2 {
		if k%2 == 1 {
			return []*Elem{a[0], F.Neg(a[1])}
		}
		return a
	}
	qk := new(big.Int).Exp(bigQ, big.NewInt(int64(k)), nil)
	qk.Sub(qk, big.NewInt(1))
	qk.Div(qk, big.NewInt(int64(t.n))) // (q^k-1)/n, exact: n divides q-1
	ord := new(big.Int).Sub(new(big.Int).Mul(bigQ, bigQ), big.NewInt(1))
	qk.Mod(qk, ord)
	gam := kXi.Exp(qk)
	out := make([]*Elem, len(a))
	for i := range a {
		e := a[i]
		if k%2 == 1 {
			e = F.Conj(e)
		}
		out[i] = F.Scale(e, gam.Exp(big.NewInt(int64(t.order[i]))))
	}
	return out
}

func frobOps(r *Run, t tower, arch string) {
	for blk := 0; blk < 256; blk += 32 {
		blk := blk
		r.group(fmt.Sprintf("%s/%s.FrobeniusMapAssign/%d-%d", arch, t.ty, blk, blk+31), func(g *G) {
			g.l1(arch, t.fq2)
			fn := g.method(t.ty, "FrobeniusMapAssign")
			for k := blk; k < blk+32; k++ {
				g.start()
				x, A := t.mk(g, "a")
				mark := len(g.in.panics)
				g.callM(t.ty, "FrobeniusMapAssign", x, iconst(int64(k)))
				g.sameEs(fmt.Sprintf("power %d: the element raised to q^%d", k, k), g.where(fn), g.coefs(x), t.frob(g.c.F, A, k))
				g.noPanics(fmt.Sprintf("power %d", k), mark, g.where(fn))
			}
		})
	}
}

func init() {
	register("C06", 40, func(r *Run) {
		for _, a := range bothArch {
			towerOps(r, towers[0], a)
		}
	})
	register("C07", 80, func(r *Run) {
		for _, a := range bothArch {
			towerOps(r, towers[1], a)
			towerOps(r, towers[2], a)
		}
	})
	register("C08", 1500, func(r *Run) {
		for _, t := range towers {
			frobOps(r, t, "amd64")
			frobOps(r, t, "386")
		}
	})
}
