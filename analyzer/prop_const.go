package main

// C28: the package-level constants, as computed by the (abstractly
// interpreted) initialisers, satisfy the equations that define them.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// cv is a decoded constant: an integer, a field element, a list, a boolean.
type cval struct {
	n  *big.Int
	k  *K
	l  []cval
	b  *bool
	fr *big.Int
}

var mont384 = pow2(384)
var mont256 = pow2(256)

func (g *G) cword(v Val) *big.Int {
	i, ok := v.(IntV)
	if !ok {
		panic(Unresolved{"not a constant word: " + g.c.showV(v)})
	}
	x := nconstOf(i.p)
	if x == nil {
		panic(Unresolved{"not a constant word: " + g.c.show(i.p)})
	}
	return x
}

func (g *G) cwords(v Val) *big.Int {
	a, ok := v.(*ArrayV)
	if !ok {
		panic(Unresolved{"not a constant: " + g.c.showV(v)})
	}
	r := new(big.Int)
	for i, w := range a.e {
		r.Add(r, new(big.Int).Lsh(g.cword(w), uint(64*i)))
	}
	return r
}

func cfield(x, m, r *big.Int) *big.Int {
	if x.Cmp(m) >= 0 {
		panic(Unresolved{"field constant is not below the modulus"})
	}
	ri := new(big.Int).ModInverse(r, m)
	return ri.Mod(ri.Mul(ri, x), m)
}

// decode reads a constant of Go type t.
func (g *G) decode(v Val, t types.Type) cval {
	if v == nil {
		panic(Unresolved{"constant without value"})
	}
	switch named(t) {
	case modPath + ".FQRepr", modPath + ".FRRepr":
		return cval{n: g.cwords(v)}
	case modPath + ".FQ":
		k := kbig(cfield(g.cwords(v.(*StructV).f[0]), bigQ, mont384))
		return cval{k: &k}
	case modPath + ".FQ2":
		s := v.(*StructV)
		st := t.Underlying().(*types.Struct)
		a, b := g.decode(s.f[0], st.Field(0).Type()), g.decode(s.f[1], st.Field(1).Type())
		k := kk(a.k.a, b.k.a)
		return cval{k: &k}
	case modPath + ".FR":
		st := t.Underlying().(*types.Struct)
		d := g.decode(v.(*StructV).f[0], st.Field(0).Type())
		return cval{fr: cfield(d.n, bigR, mont256)}
	case "math/big.Int":
		b, ok := v.(BigV)
		if !ok || nconstOf(b.p) == nil {
			panic(Unresolved{"not a constant integer: " + g.c.showV(v)})
		}
		return cval{n: nconstOf(b.p)}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(PtrV)
		if !ok || p.obj == 0 {
			panic(Unresolved{"nil or unknown pointer constant"})
		}
		return g.decode(g.deref(p), u.Elem())
	case *types.Array:
		r := cval{}
		for _, e := range v.(*ArrayV).e {
			r.l = append(r.l, g.decode(e, u.Elem()))
		}
		return r
	case *types.Slice:
		r := cval{}
		for _, e := range g.in.sliceElems(nil, &g.st, v.(SliceV)) {
			r.l = append(r.l, g.decode(e, u.Elem()))
		}
		return r
	case *types.Struct:
		r := cval{}
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			r.l = append(r.l, g.decode(s.f[i], u.Field(i).Type()))
		}
		return r
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			b := g.in.asBool(nil, &g.st, v)
			if b == bTrue || b == bFalse {
				x := b == bTrue
				return cval{b: &x}
			}
		}
		if u.Info()&types.IsInteger != 0 {
			return cval{n: g.cword(v)}
		}
	}
	panic(Unresolved{"constant of type " + t.String() + " is not understood"})
}

type affK struct {
	x, y K
	inf  bool
}

func ksub(a, b K) K { return a.Add(b.Neg()) }

func ecAdd(p, q affK) affK {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l K
	if p.x.Equal(q.x) {
		if !p.y.Equal(q.y) || p.y.IsZero() {
			return affK{inf: true}
		}
		l = p.x.Mul(p.x).Mul(ki(3)).Mul(p.y.Add(p.y).Inv())
	} else {
		l = ksub(q.y, p.y).Mul(ksub(q.x, p.x).Inv())
	}
	x := ksub(ksub(l.Mul(l), p.x), q.x)
	return affK{x: x, y: ksub(l.Mul(ksub(p.x, x)), p.y)}
}

func ecMul(p affK, n *big.Int) affK {
	r := affK{inf: true}
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = ecAdd(r, r)
		if n.Bit(i) == 1 {
			r = ecAdd(r, p)
		}
	}
	return r
}

// polynomials over K in one variable, low degree first
type kp []K

func (a kp) mul(b kp) kp {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make(kp, len(a)+len(b)-1)
	for i := range r {
		r[i] = ki(0)
	}
	for i := range a {
		for j := range b {
			r[i+j] = r[i+j].Add(a[i].Mul(b[j]))
		}
	}
	return r
}

func (a kp) add(b kp) kp {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(kp, n)
	for i := range r {
		r[i] = ki(0)
		if i < len(a) {
			r[i] = r[i].Add(a[i])
		}
		if i < len(b) {
			r[i] = r[i].Add(b[i])
		}
	}
	return r
}

func (a kp) equal(b kp) bool {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := ki(0), ki(0)
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if !x.Equal(y) {
			return false
		}
	}
	return true
}

func (v cval) poly() kp {
	r := kp{}
	for _, e := range v.l {
		if e.k == nil {
			panic(Unresolved{"coefficient list expected"})
		}
		r = append(r, *e.k)
	}
	return r
}

// isogenyOK reports that (xn/xd, y yn/yd) maps y^2 = x^3+ax+b to y^2 = x^3+b2.
func isogenyOK(xn, xd, yn, yd kp, a, b, b2 K) bool {
	e := kp{b, a, ki(0), ki(1)}
	// e yn^2 xd^3 = (xn^3 + b2 xd^3) yd^2
	xd3 := xd.mul(xd).mul(xd)
	l := e.mul(yn).mul(yn).mul(xd3)
	r := xn.mul(xn).mul(xn).add(xd3.mul(kp{b2})).mul(yd).mul(yd)
	return l.equal(r)
}

func init() {
	register("C28", 120, func(r *Run) {
		for _, arch := range bothArch {
			arch := arch
			r.group("constants "+arch, func(g *G) {
				g.use(arch)
				g.in.runInit(modPath)
				g.start()
				checkConsts(g)
			})
		}
	})
}

func checkConsts(g *G) {
	sp := g.P.pkgs[modPath]
	one := big.NewInt(1)
	q, r, x := bigQ, bigR, bigX
	sub := func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
	div := func(a *big.Int, n int64) *big.Int {
		d, m := new(big.Int).DivMod(a, big.NewInt(n), new(big.Int))
		if m.Sign() != 0 {
			panic("not divisible")
		}
		return d
	}
	xp := func(c ...int64) *big.Int { // polynomial in the curve parameter, high degree first
		s := new(big.Int)
		for _, k := range c {
			s.Mul(s, x)
			s.Add(s, big.NewInt(k))
		}
		return s
	}
	pwr := func(i int) *big.Int { return new(big.Int).Exp(q, big.NewInt(int64(i)), nil) }
	xi := kk(one, one)

	// the reference values themselves
	h1 := div(new(big.Int).Mul(xp(1, -1), xp(1, -1)), 3)
	g.ob("reference: r = x^4-x^2+1", r.Cmp(xp(1, 0, -1, 0, 1)) == 0, "", "reference")
	g.ob("reference: q = (x-1)^2 (x^4-x^2+1)/3 + x", q.Cmp(new(big.Int).Add(new(big.Int).Mul(h1, r), x)) == 0, "", "reference")
	g.ob("reference: q and r are prime", q.ProbablyPrime(64) && r.ProbablyPrime(64), "", "reference")
	h2 := div(xp(1, -4, 5, 0, -4, 6, -4, -4, 13), 9)
	genX, _ := new(big.Int).SetString("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb", 16)
	genY, _ := new(big.Int).SetString("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1", 16)
	hex := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }
	gen1 := affK{x: kbig(genX), y: kbig(genY)}
	gen2 := affK{
		x: kk(hex("24aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")),
		y: kk(hex("ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), hex("606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")),
	}
	b1, b2 := ki(4), kk(big.NewInt(4), big.NewInt(4))
	onCurve := func(p affK, b K) bool { return p.y.Mul(p.y).Equal(p.x.Mul(p.x).Mul(p.x).Add(b)) }
	g.ob("reference: generators on the curves, of order r", onCurve(gen1, b1) && onCurve(gen2, b2) && ecMul(gen1, r).inf && ecMul(gen2, r).inf && !gen1.inf, "", "reference")

	// look finds the value of a package-level variable or constant.
	look := func(name string) (v cval, where string, ok bool) {
		switch m := sp.Members[name].(type) {
		case *ssa.Global:
			where = g.P.pos(m.Pos()) + " (" + name + ")"
			t := m.Type().(*types.Pointer).Elem()
			return g.decode(g.in.globalVal(&g.st, modPath, name), t), where, true
		case *ssa.NamedConst:
			where = g.P.pos(m.Pos()) + " (" + name + ")"
			if m.Value.Value.Kind() == constant.Bool {
				b := constant.BoolVal(m.Value.Value)
				return cval{b: &b}, where, true
			}
			n, ok := new(big.Int).SetString(constant.ToInt(m.Value.Value).ExactString(), 0)
			return cval{n: n}, where, ok
		}
		return v, "", false
	}
	with := func(name string, exported bool, f func(v cval, where string)) {
		g.try(name, name, func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(Unresolved); ok {
						panic(e)
					}
					panic(Unresolved{fmt.Sprintf("%s is not a constant of the expected form (%v)", name, e)})
				}
			}()
			v, where, ok := look(name)
			if !ok {
				if exported {
					g.ob(name+": defined", false, name, "%s is not defined", name)
				}
				return
			}
			f(v, where)
		})
	}
	isN := func(name string, want *big.Int) {
		with(name, false, func(v cval, where string) {
			var got *big.Int
			switch {
			case v.n != nil:
				got = v.n
			case v.fr != nil:
				got = v.fr
			case v.k != nil && v.k.b.Sign() == 0:
				got, want = v.k.a, modq(want)
			}
			g.ob(name+": value", got != nil && got.Cmp(want) == 0, where, "%s is %v, its definition gives %v", name, got, want)
		})
	}
	isK := func(name string, want K) {
		with(name, false, func(v cval, where string) {
			g.ob(name+": value", v.k != nil && v.k.Equal(want), where, "%s is %v, its definition gives %v", name, v.k, want)
		})
	}
	need := func(names ...string) {
		for _, n := range names {
			_, ok := sp.Members[n]
			g.ob(n+": defined", ok, n, "%s is not defined", n)
		}
	}
	need("QFieldModulus", "RFieldModulus", "FQR2", "FRR", "FRR2", "FQZero", "FQOne", "FQ2Zero", "FQ2One", "FQ6Zero", "FQ6One", "FQ12Zero", "FQ12One",
		"BCoeff", "BCoeffFQ2", "G1AffineZero", "G1AffineOne", "G1ProjectiveZero", "G1ProjectiveOne", "G2AffineZero", "G2AffineOne", "G2ProjectiveZero", "G2ProjectiveOne")

	// moduli and Montgomery constants
	isN("QFieldModulus", q)
	isN("RFieldModulus", r)
	isN("frChar", r)
	isN("FQR2", new(big.Int).Mod(pow2(768), q))
	isN("FRR", new(big.Int).Mod(pow2(256), r))
	isN("FRR2", new(big.Int).Mod(pow2(512), r))
	minv := func(m *big.Int) *big.Int {
		i := new(big.Int).ModInverse(m, pow2(64))
		return i.Sub(pow2(64), i)
	}
	isN("montInvFQ", minv(q))
	isN("montInvFR", minv(r))
	isN("oneLsh64", pow2(64))
	isN("oneLsh64MinusOne", sub(pow2(64), one))
	isN("oneLsh384MinusOne", sub(pow2(384), one))
	// exponents
	isN("qMinus1Over2", div(sub(q, one), 2))
	isN("qMinus3Over4", div(sub(q, big.NewInt(3)), 4))
	isN("negativeOne", sub(q, one))
	isN("negativeOneFQ", sub(q, one))
	isN("rMinus1Over2", div(sub(r, one), 2))
	if g.readOutsideInit("qSquaredPlus7Over16") { // unused today, and too wide for its type
		isN("qSquaredPlus7Over16", div(new(big.Int).Add(pwr(2), big.NewInt(7)), 16))
	}
	// small numbers
	for _, n := range []struct {
		name string
		v    int64
	}{{"bigZero", 0}, {"bigOne", 1}, {"bigTwo", 2}, {"bigThree", 3}, {"bigThreeFQ", 3}, {"bigIntZero", 0}, {"frOne", 1}, {"frZero", 0}, {"bigOneFR", 1}, {"bigZeroFR", 0},
		{"FQZero", 0}, {"FQOne", 1}, {"FQ2Zero", 0}, {"FQ2One", 1}, {"BCoeff", 4}, {"LegendreZero", 0}, {"LegendreQuadraticResidue", 1}, {"LegendreQuadraticNonResidue", 2}} {
		isN(n.name, big.NewInt(n.v))
	}
	tower := func(name string, want int64) {
		with(name, true, func(v cval, where string) {
			ok, first := true, true
			var rec func(v cval)
			rec = func(v cval) {
				if v.k != nil {
					w := ki(0)
					if first {
						w = ki(want)
					}
					first = false
					ok = ok && v.k.Equal(w)
					return
				}
				for _, e := range v.l {
					rec(e)
				}
			}
			rec(v)
			g.ob(name+": value", ok && !first, where, "%s is not the constant %d", name, want)
		})
	}
	tower("FQ6Zero", 0)
	tower("FQ6One", 1)
	tower("FQ12Zero", 0)
	tower("FQ12One", 1)
	isK("BCoeffFQ2", b2)
	isK("fq2nqr", xi)

	// Frobenius coefficients: roots of the non-residue to the right powers
	table := func(name string, n int, f func(i int) K) {
		with(name, false, func(v cval, where string) {
			if !g.ob(name+": length", len(v.l) == n, where, "%s has %d entries, %d are used", name, len(v.l), n) {
				return
			}
			for i := 0; i < n; i++ {
				w := f(i)
				g.ob(fmt.Sprintf("%s[%d]", name, i), v.l[i].k != nil && v.l[i].k.Equal(w), where, "%s[%d] is %v, the %d-th power of Frobenius needs %v", name, i, v.l[i].k, i, w)
			}
		})
	}
	table("frobeniusCoeffFQ2c1", 2, func(i int) K { return ki(-1).Exp(div(sub(pwr(i), one), 2)) })
	table("frobeniusCoeffFQ6c1", 6, func(i int) K { return xi.Exp(div(sub(pwr(i), one), 3)) })
	table("frobeniusCoeffFQ6c2", 6, func(i int) K { return xi.Exp(div(new(big.Int).Mul(sub(pwr(i), one), big.NewInt(2)), 3)) })
	table("frobeniusCoeffFQ12c1", 12, func(i int) K { return xi.Exp(div(sub(pwr(i), one), 6)) })

	// the curve: parameter, generators, cofactors
	isN("blsX", new(big.Int).Abs(x))
	with("blsIsNegative", false, func(v cval, where string) {
		g.ob("blsIsNegative: value", v.b != nil && *v.b, where, "the parameter of BLS12-381 is negative")
	})
	isN("g1Cofactor", h1)
	isN("g2Cofactor", h2)
	isN("g1GeneratorX", gen1.x.a)
	isN("g1GeneratorY", gen1.y.a)
	isN("g2GeneratorXC0", gen2.x.a)
	isN("g2GeneratorXC1", gen2.x.b)
	isN("g2GeneratorYC0", gen2.y.a)
	isN("g2GeneratorYC1", gen2.y.b)
	point := func(name string, zero bool, gen affK, b K) {
		with(name, true, func(v cval, where string) {
			m := sp.Members[name].(*ssa.Global)
			st, _ := m.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			f := map[string]cval{}
			for i := 0; i < st.NumFields(); i++ {
				f[st.Field(i).Name()] = v.l[i]
			}
			var p affK
			if z, ok := f["z"]; ok {
				if p.inf = z.k.IsZero(); !p.inf {
					zi := z.k.Inv()
					p.x, p.y = f["x"].k.Mul(zi).Mul(zi), f["y"].k.Mul(zi).Mul(zi).Mul(zi)
				}
			} else {
				p = affK{*f["x"].k, *f["y"].k, *f["infinity"].b}
			}
			if zero {
				g.ob(name+": identity", p.inf, where, "%s is not the point at infinity", name)
				return
			}
			if !g.ob(name+": finite", !p.inf, where, "%s is the point at infinity", name) {
				return
			}
			g.ob(name+": on the curve", onCurve(p, b), where, "%s does not satisfy the curve equation", name)
			g.ob(name+": order r", onCurve(p, b) && ecMul(p, r).inf, where, "%s does not have order r", name)
			g.ob(name+": standard generator", p.x.Equal(gen.x) && p.y.Equal(gen.y), where, "%s is not the standard generator", name)
		})
	}
	for _, s := range []struct {
		p   string
		gen affK
		b   K
	}{{"G1", gen1, b1}, {"G2", gen2, b2}} {
		point(s.p+"AffineZero", true, s.gen, s.b)
		point(s.p+"AffineOne", false, s.gen, s.b)
		point(s.p+"ProjectiveZero", true, s.gen, s.b)
		point(s.p+"ProjectiveOne", false, s.gen, s.b)
	}

	// hash-to-curve maps
	a1, _, ok1 := look("ellPA")
	bb1, _, ok2 := look("ellPB")
	isN("ellPARepr", hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"))
	isN("ellPBRepr", hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"))
	isN("ellPA", hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"))
	isN("ellPB", hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"))
	isK("ell2pA", kk(kzero, big.NewInt(240)))
	isK("ell2pB", kk(big.NewInt(1012), big.NewInt(1012)))
	if !ok1 || !ok2 {
		k1 := kbig(hex("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"))
		k2 := kbig(hex("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"))
		a1.k, bb1.k = &k1, &k2
	}
	iso := func(names [4]string, all string, a, b, bt K, deg int) {
		ps := [4]kp{}
		w := ""
		for i, n := range names {
			v, where, ok := look(n)
			if !ok {
				return
			}
			ps[i] = v.poly()
			w = where
		}
		g.ob("isogeny "+all+": maps its curve to the target curve", isogenyOK(ps[0], ps[1], ps[2], ps[3], a, b, bt), w, "the isogeny coefficients do not map y^2=x^3+A'x+B' to the target curve")
		g.ob("isogeny "+all+": degree", len(ps[0]) == deg+1 && len(ps[1]) == deg && !ps[0][deg].IsZero() && ps[1][deg-1].Equal(ki(1)), w, "the isogeny does not have degree %d", deg)
		with(all, false, func(v cval, where string) {
			ok := len(v.l) == 4
			for i := 0; ok && i < 4; i++ {
				ok = v.l[i].poly().equal(ps[i])
			}
			g.ob(all+": lists the four polynomials in order", ok, where, "%s does not hold x numerator, x denominator, y numerator, y denominator", all)
		})
	}
	g.try("isogeny 11", "hash.go", func() {
		iso([4]string{"xNum11", "xDen11", "yNum11", "yDen11"}, "mapCoeffs11", *a1.k, *bb1.k, b1, 11)
	})
	g.try("isogeny 3", "hash.go", func() {
		iso([4]string{"xNum3", "xDen3", "yNum3", "yDen3"}, "mapCoeffs3", kk(kzero, big.NewInt(240)), kk(big.NewInt(1012), big.NewInt(1012)), b2, 3)
	})

	// roots of unity, square-root correction factors
	eighth := func(k K) bool { return k.Exp(big.NewInt(8)).Equal(ki(1)) }
	with("rootsOfUnity", false, func(v cval, where string) {
		p := v.poly()
		g.ob("rootsOfUnity: length", len(p) == 4, where, "%d roots listed", len(p))
		for i, k := range p {
			g.ob(fmt.Sprintf("rootsOfUnity[%d]: eighth root of one", i), eighth(k), where, "rootsOfUnity[%d]^8 != 1", i)
			for j := 0; j < i; j++ {
				g.ob(fmt.Sprintf("rootsOfUnity: %d and %d differ in more than sign", j, i), !k.Mul(k).Equal(p[j].Mul(p[j])), where, "rootsOfUnity[%d] = +-rootsOfUnity[%d]", i, j)
			}
		}
	})
	half := hex("6af0e0437ff400b6831e36d6bd17ffe48395dabc2d3435e77f76e17009241c5ee67992f72ec05f4c81084fbede3cc09")
	isN("rv1", half)
	isN("qMinusRV1", sub(q, half))
	with("rv1", false, func(v cval, where string) { // rv1 (1+u) squared is u or -u
		t := v.k.Mul(xi)
		t = t.Mul(t)
		g.ob("rv1: (rv1(1+u))^4 = -1", t.Mul(t).Equal(ki(-1)), where, "rv1(1+u) is not an eighth root of one")
	})
	with("etas", false, func(v cval, where string) {
		p := v.poly()
		g.ob("etas: length", len(p) == 4, where, "%d values listed", len(p))
		xi3i := xi.Mul(xi).Mul(xi).Inv()
		for i, k := range p {
			w := k.Mul(k).Mul(xi3i)
			w4 := w.Mul(w)
			w4 = w4.Mul(w4)
			g.ob(fmt.Sprintf("etas[%d]: square is (1+u)^3 times a primitive eighth root of one", i), w4.Equal(ki(-1)), where, "(etas[%d]^2/(1+u)^3)^4 != -1", i)
			for j := 0; j < i; j++ {
				g.ob(fmt.Sprintf("etas: %d and %d differ in more than sign", j, i), !k.Mul(k).Equal(p[j].Mul(p[j])), where, "etas[%d] = +-etas[%d]", i, j)
			}
		}
	})
	with("ev2", false, func(v cval, where string) {
		if m, _, ok := look("qMinusEv2"); ok {
			g.ob("qMinusEv2: value", m.k != nil && m.k.Add(*v.k).IsZero(), where, "qMinusEv2 + ev2 != 0")
		}
	})

	// the twist endomorphism (x,y) -> (cx conj x, cy conj y)
	isK("iwsc", xi.Inv())
	cx := xi.Exp(div(sub(q, one), 3)).Inv()
	cy := xi.Exp(div(sub(q, one), 2)).Inv()
	g.ob("reference: psi maps the curve to itself", cx.Mul(cx).Mul(cx).Mul(b2.Conj()).Equal(b2) && cy.Mul(cy).Mul(b2.Conj()).Equal(b2), "", "reference")
	with("kQiX", false, func(v cval, where string) { // psi_x = xi * conj-with-kQiX(iwsc x)
		// (iwsc x).c0 kQiX - (iwsc x).c1 kQiX u = kQiX conj(iwsc x); times xi
		g.ob("kQiX: value", v.k.Mul(xi).Mul(xi.Inv().Conj()).Equal(cx), where, "kQiX is not the x coefficient of the twist endomorphism")
	})
	with("kQiY", false, func(v cval, where string) { // (c0+c1) + (c0-c1)u = (1+u) conj(c)
		g.ob("kQiY: value", v.k.Mul(xi).Mul(xi).Mul(xi.Inv().Conj()).Equal(cy), where, "kQiY is not the y coefficient of the twist endomorphism")
	})

	// the older encoding
	with("swencSqrtNegThree", false, func(v cval, where string) {
		k := kbig(v.n)
		g.ob("swencSqrtNegThree: square is -3", v.n.Cmp(q) < 0 && k.Mul(k).Equal(ki(-3)), where, "swencSqrtNegThree^2 != -3")
	})
	with("swencSqrtNegThreeFQ2", false, func(v cval, where string) {
		g.ob("swencSqrtNegThreeFQ2: square is -3", v.k.Mul(*v.k).Equal(ki(-3)), where, "swencSqrtNegThreeFQ2^2 != -3")
	})
	cube := func(name string) {
		with(name, false, func(v cval, where string) {
			k := v.k
			if k == nil {
				t := kbig(v.n)
				k = &t
			}
			g.ob(name+": (sqrt(-3)-1)/2 is a primitive cube root of one", k.Mul(*k).Add(*k).Add(ki(1)).IsZero(), where, "%s is not (sqrt(-3)-1)/2", name)
			if s, _, ok := look("swencSqrtNegThreeFQ2"); ok {
				g.ob(name+": matches swencSqrtNegThree", k.Add(*k).Add(ki(1)).Equal(*s.k), where, "2*%s+1 is not swencSqrtNegThree", name)
			}
		})
	}
	cube("swencSqrtNegThreeMinusOneDivTwo")
	cube("swencSqrtNegThreeMinusOneDivTwoFQ2")

	// every other package-level table is listed, so that nothing is left unread
	known := 0
	for _, m := range sp.Members {
		if _, ok := m.(*ssa.Global); ok {
			known++
		}
	}
	g.run.mu.Lock()
	if g.run.extra == nil {
		g.run.extra = map[string]interface{}{}
	}
	g.run.extra["package-level variables"] = known
	g.run.mu.Unlock()
}

// readOutsideInit reports that some function other than the initialiser uses
// the variable.
func (g *G) readOutsideInit(name string) bool {
	v, ok := g.P.pkgs[modPath].Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	for fn := range ssautil.AllFunctions(g.P.prog) {
		if fn.Pkg == nil || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if *o == v {
						return true
					}
				}
			}
		}
	}
	return false
}
