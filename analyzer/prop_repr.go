package main

// C05: fixed-width integers.

import (
	"fmt"
	"math/big"
)

type reprSpec struct {
	ty, pre string
	n       int
}

var reprs = []reprSpec{{"FQRepr", "FQRepr", 6}, {"FRRepr", "FRRepr", 4}}

func (g *G) isNil(v Val) (yes, no bool) {
	switch x := v.(type) {
	case IfaceV:
		return x.typ == nil, x.typ != nil
	case PtrV:
		return x.obj == 0, x.obj != 0
	case SliceV:
		return x.obj == 0, x.obj != 0
	case *GammaV:
		yes, no = true, true
		for _, a := range x.alts {
			if g.c.bdd.and(g.st.cond, a.b) == bFalse || g.infeasible(g.c.bdd.and(g.st.cond, a.b)) {
				continue
			}
			y, n := g.isNil(a.v)
			yes, no = yes && y, no && n
		}
		return
	case nil:
		return true, false
	}
	return false, false
}

// rd reads a repr value or the object behind a pointer.
func (g *G) rd(v Val) *ArrayV {
	if p, ok := v.(PtrV); ok {
		if p.obj == 0 {
			panic(Unresolved{"nil result"})
		}
		v = g.deref(p)
	}
	if gv, ok := v.(*GammaV); ok {
		v = g.c.simp(gv, g.st.cond)
		if _, ok := v.(*GammaV); ok {
			v = g.in.load(nil, &g.st, v, 0)
		}
	}
	a, ok := v.(*ArrayV)
	if !ok {
		panic(Unresolved{"words expected, got " + g.c.showV(v)})
	}
	return intWords(g.c, a)
}

// same decides that v is the integer w.
func (g *G) same(name, where string, v Val, w *NPoly) {
	ok, why := g.isZeroInt(wordSum(v).Sub(w), g.st.cond)
	g.ob(name, ok, where, "%s", why)
}

func reprOps(r *Run, rs reprSpec, arch string) {
	N := 64 * rs.n
	wbits := 64
	if arch == "386" {
		wbits = 32
	}
	top := pow2(N)
	grp := func(name string, f func(g *G, where string)) {
		r.group(arch+"/"+rs.ty+"."+name, func(g *G) {
			g.use(arch)
			g.in.runInit(modPath)
			g.start()
			f(g, "")
		})
	}
	reset := func(g *G) { g.st = State{bTrue, g.in.initH} }

	// shifts by every constant below the width, and by every larger amount
	for _, op := range []string{"Lsh", "Rsh"} {
		op := op
		for lo := 0; lo < N; lo += 64 {
			lo := lo
			grp(fmt.Sprintf("%s/%d", op, lo), func(g *G, _ string) {
				fn := g.method(rs.ty, op)
				where := g.where(fn)
				a := g.words("a", rs.n)
				A := wordSum(a)
				for n := lo; n < lo+64; n++ {
					reset(g)
					mark := len(g.in.panics)
					p := g.newPtr(a)
					g.callM(rs.ty, op, p, iconst(int64(n)))
					out := g.rd(p)
					var want *NPoly
					if op == "Rsh" {
						want = g.c.floor(A, n, g.c.base)
					} else {
						want = A.Scale(Z{pow2(n)})
						want = want.Sub(g.c.floor(A, N-n, g.c.base).Scale(Z{top}))
					}
					g.same(fmt.Sprintf("%s by %d", op, n), where, out, want)
					g.wordsInRange(fmt.Sprintf("%s by %d", op, n), where, out)
					g.noPanics(fmt.Sprintf("%s by %d", op, n), mark, where)
				}
			})
		}
		grp(op+"/large", func(g *G, _ string) {
			fn := g.method(rs.ty, op)
			a := g.words("a", rs.n)
			n := g.c.intSym("n", big.NewInt(int64(N)), new(big.Int).Sub(pow2(wbits), big.NewInt(1)))
			mark := len(g.in.panics)
			p := g.newPtr(a)
			g.callM(rs.ty, op, p, IntV{n})
			g.same(op+" by the width or more gives zero", g.where(fn), g.rd(p), nint(0))
			g.noPanics(op+" by the width or more", mark, g.where(fn))
		})
	}
	grp("Bit", func(g *G, _ string) {
		fn := g.method(rs.ty, "Bit")
		where := g.where(fn)
		a := g.words("a", rs.n)
		A := wordSum(a)
		for n := 0; n < N; n++ {
			reset(g)
			mark := len(g.in.panics)
			v := g.callM(rs.ty, "Bit", g.newPtr(a), iconst(int64(n)))
			bit := g.c.floor(A, n, g.c.base).Sub(g.c.floor(A, n+1, g.c.base).Scale(zi(2)))
			ok, why := g.sameCond(g.boolOf(v), g.c.bdd.not(g.c.eq0(bit, g.c.base)))
			g.ob(fmt.Sprintf("Bit %d", n), ok, where, "%s", why)
			g.noPanics(fmt.Sprintf("Bit %d", n), mark, where)
		}
	})
	grp("BitLen", func(g *G, _ string) {
		fn := g.method(rs.ty, "BitLen")
		where := g.where(fn)
		for k := 0; k <= N; k++ {
			reset(g)
			a := &ArrayV{}
			for i := 0; i < rs.n; i++ {
				switch {
				case 64*i >= k:
					a.e = append(a.e, iconst(0))
				case 64*(i+1) < k:
					a.e = append(a.e, g.word(fmt.Sprintf("a%d", i)))
				default:
					j := k - 64*i
					a.e = append(a.e, IntV{g.c.intSym(fmt.Sprintf("top%d.%d", i, j), pow2(j-1), new(big.Int).Sub(pow2(j), big.NewInt(1)))})
				}
			}
			mark := len(g.in.panics)
			v := g.callM(rs.ty, "BitLen", g.newPtr(a))
			g.ob(fmt.Sprintf("BitLen of every %d-bit number", k), g.sameInt(v, iconst(int64(k))), where, "result %s", g.c.showV(v))
			g.noPanics(fmt.Sprintf("BitLen %d", k), mark, where)
		}
	})
	grp("Cmp", func(g *G, _ string) { g.checkCmp(rs.ty, rs.n) })
	grp("compare", func(g *G, _ string) {
		a, b := g.words("a", rs.n), g.words("b", rs.n)
		z := &ArrayV{}
		for i := 0; i < rs.n; i++ {
			z.e = append(z.e, iconst(0))
		}
		do := func(name string, want B, args ...Val) {
			reset(g)
			fn := g.method(rs.ty, name)
			mark := len(g.in.panics)
			v := g.callM(rs.ty, name, g.newPtr(a), args...)
			ok, why := g.sameCond(g.boolOf(v), want)
			g.ob(name+": exact", ok, g.where(fn), "%s", why)
			g.noPanics(name, mark, g.where(fn))
		}
		reset(g)
		pb := g.newPtr(b)
		_ = pb
		fn := g.method(rs.ty, "Equals")
		mark := len(g.in.panics)
		v := g.callA(fn, g.newPtr(a), g.newPtr(b))
		ok, why := g.sameCond(g.boolOf(v), g.wordsEq(a, b))
		g.ob("Equals: exact", ok, g.where(fn), "%s", why)
		g.noPanics("Equals", mark, g.where(fn))
		do("IsZero", g.wordsEq(a, z))
		a0 := a.e[0].(IntV).p
		low := a0.Sub(g.c.floor(a0, 1, g.c.base).Scale(zi(2)))
		odd := g.c.bdd.not(g.c.eq0(low, g.c.base))
		do("IsOdd", odd)
		do("IsEven", g.c.bdd.not(odd))
	})
	grp("basic", func(g *G, _ string) {
		a, b := g.words("a", rs.n), g.words("b", rs.n)
		A, B := wordSum(a), wordSum(b)
		mod2 := func(name string, fnName string, want *NPoly, args ...Val) {
			reset(g)
			fn := g.method(rs.ty, fnName)
			mark := len(g.in.panics)
			p := g.newPtr(a)
			var as []Val
			var pb PtrV
			if len(args) > 0 {
				if args[0] == nil {
					pb = p
				} else {
					pb = g.newPtr(args[0])
				}
				as = append(as, pb)
			}
			g.callM(rs.ty, fnName, p, as...)
			out := g.rd(p)
			d := wordSum(out).Sub(want)
			g.ob(name+": exact modulo 2^width", congruent(d, top), g.where(fn), "differs by %s", g.c.show(d))
			g.wordsInRange(name, g.where(fn), out)
			if len(args) > 0 && args[0] != nil {
				g.ob(name+": argument unchanged", veq(g.deref(pb), b), g.where(fn), "argument becomes %s", g.c.showV(g.deref(pb)))
			}
			g.noPanics(name, mark, g.where(fn))
		}
		mod2("AddNoCarry", "AddNoCarry", A.Add(B), b)
		mod2("AddNoCarry to itself", "AddNoCarry", A.Add(A), nil)
		mod2("SubNoBorrow", "SubNoBorrow", A.Sub(B), b)
		mod2("SubNoBorrow from itself", "SubNoBorrow", nint(0), nil)
		mod2("Mul2", "Mul2", A.Scale(zi(2)))
		mod2("Div2", "Div2", g.c.floor(A, 1, g.c.base))
		reset(g)
		x := g.word("x")
		fn := g.fn("New" + rs.ty)
		g.same("New: the integer given", g.where(fn), g.rd(g.callA(fn, x)), x.p)
		reset(g)
		fn = g.method(rs.ty, "Copy")
		p := g.newPtr(a)
		v := g.callM(rs.ty, "Copy", p)
		g.same("Copy: same integer", g.where(fn), g.rd(v), A)
		if q, ok := v.(PtrV); ok {
			g.ob("Copy: a different object", q.obj != p.obj, g.where(fn), "Copy returns its receiver")
		}
		if rs.ty == "FRRepr" {
			reset(g)
			fn = g.method(rs.ty, "ToFQ")
			v := g.callM(rs.ty, "ToFQ", g.newPtr(a))
			g.same("ToFQ: same integer", g.where(fn), g.rd(v), A)
			g.wordsInRange("ToFQ", g.where(fn), g.rd(v))
		}
	})
	grp("bytes", func(g *G, _ string) {
		a := g.words("a", rs.n)
		A := wordSum(a)
		fn := g.method(rs.ty, "Bytes")
		mark := len(g.in.panics)
		v := g.callM(rs.ty, "Bytes", g.newPtr(a))
		bs, ok := v.(*ArrayV)
		if g.ob("Bytes: fixed length", ok && len(bs.e) == 8*rs.n, g.where(fn), "result %s", g.c.showV(v)) {
			for i, e := range bs.e {
				j := 8 * (8*rs.n - 1 - i)
				want := g.c.floor(A, j, g.c.base).Sub(g.c.floor(A, j+8, g.c.base).Scale(zi(256)))
				ok, why := g.isZeroInt(e.(IntV).p.Sub(want), g.st.cond)
				g.ob(fmt.Sprintf("Bytes: byte %d is digit %d of base 256", i, 8*rs.n-1-i), ok, g.where(fn), "%s", why)
			}
		}
		g.noPanics("Bytes", mark, g.where(fn))
		reset(g)
		fn = g.fn(rs.pre + "FromBytes")
		bv := &ArrayV{}
		S := nint(0)
		for i := 0; i < 8*rs.n; i++ {
			s := g.c.wordSym(fmt.Sprintf("byte%d", i), 8)
			bv.e = append(bv.e, IntV{s})
			S = S.Scale(zi(256)).Add(s)
		}
		mark = len(g.in.panics)
		out := g.rd(g.callA(fn, bv))
		g.same("FromBytes: big-endian integer", g.where(fn), out, S)
		g.wordsInRange("FromBytes", g.where(fn), out)
		g.noPanics("FromBytes", mark, g.where(fn))
	})
	grp("ToBig", func(g *G, _ string) {
		a := g.words("a", rs.n)
		fn := g.method(rs.ty, "ToBig")
		mark := len(g.in.panics)
		v := g.callM(rs.ty, "ToBig", g.newPtr(a))
		b, ok := g.deref(v.(PtrV)).(BigV)
		g.ob("ToBig: same integer", ok && b.p.Equal(wordSum(a)), g.where(fn), "result %s", g.c.showV(v))
		g.noPanics("ToBig", mark, g.where(fn))
	})
	// conversions from big integers, one case per number of significant words
	from := func(name string, call func(g *G, X *NPoly) Val) {
		refuse := func(sub string, lo, hi *big.Int) {
			grp(name+"/"+sub, func(g *G, _ string) {
				fn := g.fn(name)
				X := g.c.intSym("X", lo, hi)
				mark := len(g.in.panics)
				t := call(g, X).(*TupleV)
				_, no := g.isNil(t.e[1])
				g.ob(sub+" integers are refused", no, g.where(fn), "error is %s", g.c.showV(t.e[1]))
				g.noPanics(sub, mark, g.where(fn))
			})
		}
		refuse("negative", nil, big.NewInt(-1))
		refuse("too wide", top, nil)
		for w := 0; w <= rs.n; w++ {
			w := w
			grp(fmt.Sprintf("%s/%d words", name, w), func(g *G, _ string) {
				fn := g.fn(name)
				X := nint(0)
				if w > 0 {
					X = g.c.intSym("X", pow2(64*(w-1)), new(big.Int).Sub(pow2(64*w), big.NewInt(1)))
				}
				mark := len(g.in.panics)
				t := call(g, X).(*TupleV)
				yes, _ := g.isNil(t.e[1])
				if !g.ob("accepted", yes, g.where(fn), "error is %s", g.c.showV(t.e[1])) {
					return
				}
				out := g.rd(t.e[0])
				g.same("same integer", g.where(fn), out, X)
				g.wordsInRange("result", g.where(fn), out)
				g.noPanics("accepted", mark, g.where(fn))
			})
		}
	}
	from(rs.pre+"FromBigInt", func(g *G, X *NPoly) Val {
		p := g.newPtr(BigV{X})
		v := g.callA(g.fn(rs.pre+"FromBigInt"), p)
		b, ok := g.deref(p).(BigV)
		g.ob("argument unchanged", ok && b.p.Equal(X), g.where(g.fn(rs.pre+"FromBigInt")), "argument becomes %s", g.c.showV(g.deref(p)))
		return v
	})
	from(rs.pre+"FromString", func(g *G, X *NPoly) Val {
		g.in.intr["(*math/big.Int).SetString"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			o, ok := a[1].(*OpqV)
			b, ok2 := a[2].(IntV)
			if !ok || o.tag != "text" || !ok2 || nconstOf(b.p) != nil {
				panic(Unresolved{"parses something other than its argument in the given base"})
			}
			in.store(fr, st, a[0], BigV{X}, 0)
			return &TupleV{[]Val{a[0], BoolV{bTrue}}}
		}
		return g.callA(g.fn(rs.pre+"FromString"), &OpqV{"text", nil}, IntV{g.c.intSym("base", big.NewInt(2), big.NewInt(62))})
	})
	grp(rs.pre+"FromString/invalid", func(g *G, _ string) {
		fn := g.fn(rs.pre + "FromString")
		g.in.intr["(*math/big.Int).SetString"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			in.store(fr, st, a[0], BigV{g.c.intSym("undefined", nil, nil)}, 0)
			return &TupleV{[]Val{PtrV{}, BoolV{bFalse}}}
		}
		mark := len(g.in.panics)
		t := g.callA(fn, &OpqV{"text", nil}, IntV{g.c.intSym("base", big.NewInt(2), big.NewInt(62))}).(*TupleV)
		_, no := g.isNil(t.e[1])
		g.ob("text that is no number is refused", no, g.where(fn), "error is %s", g.c.showV(t.e[1]))
		g.noPanics("refusal", mark, g.where(fn))
	})
}

func init() {
	register("C05", 6000, func(r *Run) {
		for _, a := range bothArch {
			for _, rs := range reprs {
				reprOps(r, rs, a)
			}
		}
	})
}
