package main

// C02, C03: prime-field arithmetic on words.

import (
	"fmt"
	"math/big"
)

// fieldOps installs one obligation group per operation of a prime field.
func fieldOps(r *Run, fs *fieldSpec, arch string) {
	M1 := new(big.Int).Sub(fs.mod, big.NewInt(1))
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+fs.ty+"."+name, func(g *G) {
			g.use(arch)
			g.in.runInit(modPath)
			g.start()
			g.useWideCmp(fs.repr)
			g.useWordOps()
			f(g)
		})
	}
	grp("Cmp-contract", func(g *G) {
		delete(g.in.intr, g.method(fs.repr, "Cmp").String())
		g.checkCmp(fs.repr, fs.n)
	})
	r.group(arch+"/word-contract", func(g *G) {
		g.use(arch)
		g.start()
		g.checkWordOps()
	})
	R := nconst(fs.R)
	// mutating binary/unary operations: want gives an expression congruent to
	// 0 modulo the modulus from the result and the operands
	op := func(name string, arity int, want func(o, a, b *NPoly) *NPoly) {
		variants := []string{"distinct"}
		if arity == 2 {
			variants = append(variants, "aliased")
		}
		for _, va := range variants {
			va := va
			grp(name+"/"+va, func(g *G) {
				fn := g.method(fs.ty, name)
				where := g.where(fn)
				aw, A := g.wordsBelow("a", fs.n, fs.mod)
				recv := g.mkElem(fs, aw)
				args := []Val{}
				B := A
				var other PtrV
				var bw *ArrayV
				if arity == 2 {
					other = recv
					if va == "distinct" {
						bw, B = g.wordsBelow("b", fs.n, fs.mod)
						other = g.mkElem(fs, bw)
					}
					args = append(args, other)
				}
				mark := len(g.in.panics)
				g.callM(fs.ty, name, recv, args...)
				out := g.elemWords(fs, recv)
				O := wordSum(out)
				ok, why := g.congCases(want(O, A, B), fs.mod, g.st.cond)
				g.ob(name+" "+va+": exact modulo the field order", ok, where, "%s", why)
				g.wordsInRange(name+" "+va, where, out)
				ok, why = g.belowCases(out, M1, g.st.cond)
				g.ob(name+" "+va+": result is canonical", ok, where, "%s", why)
				if va == "distinct" && arity == 2 {
					g.ob(name+": argument is unchanged", veq(g.elemWords(fs, other), bw), where, "argument becomes %s", g.c.showV(g.elemWords(fs, other)))
				}
				g.noPanics(name+" "+va, mark, where)
			})
		}
	}
	op("AddAssign", 2, func(o, a, b *NPoly) *NPoly { return o.Sub(a).Sub(b) })
	op("SubAssign", 2, func(o, a, b *NPoly) *NPoly { return o.Sub(a).Add(b) })
	op("MulAssign", 2, func(o, a, b *NPoly) *NPoly { return o.Mul(R).Sub(a.Mul(b)) })
	op("SquareAssign", 1, func(o, a, b *NPoly) *NPoly { return o.Mul(R).Sub(a.Mul(a)) })
	op("NegAssign", 1, func(o, a, b *NPoly) *NPoly { return o.Add(a) })
	op("DoubleAssign", 1, func(o, a, b *NPoly) *NPoly { return o.Sub(a).Sub(a) })

	grp("ToRepr", func(g *G) {
		fn := g.method(fs.ty, "ToRepr")
		where := g.where(fn)
		aw, A := g.wordsBelow("a", fs.n, fs.mod)
		recv := g.mkElem(fs, aw)
		mark := len(g.in.panics)
		v := g.callM(fs.ty, "ToRepr", recv)
		out := g.elemWords(fs, v)
		O := wordSum(out)
		ok, why := g.congCases(O.Mul(R).Sub(A), fs.mod, g.st.cond)
		g.ob("ToRepr: the represented residue", ok, where, "%s", why)
		ok, why = g.belowCases(out, M1, g.st.cond)
		g.ob("ToRepr: below the field order", ok, where, "%s", why)
		g.wordsInRange("ToRepr", where, out)
		g.ob("ToRepr: receiver is unchanged", veq(g.elemWords(fs, recv), aw), where, "receiver becomes %s", g.c.showV(g.elemWords(fs, recv)))
		g.noPanics("ToRepr", mark, where)
	})
	grp(fs.fromRepr, func(g *G) {
		fn := g.fn(fs.fromRepr)
		where := g.where(fn)
		aw, A := g.wordsBelow("a", fs.n, fs.mod)
		arg := g.newPtr(aw)
		mark := len(g.in.panics)
		v := g.callA(fn, arg)
		if p, ok := v.(PtrV); ok && p.obj == 0 {
			g.ob("conversion of an integer below the order succeeds", false, where, "nil result")
			return
		}
		if gv, ok := v.(*GammaV); ok {
			g.ob("conversion of an integer below the order succeeds", false, where, "result %s", g.c.showV(gv))
			return
		}
		out := g.elemWords(fs, v)
		O := wordSum(out)
		RR := new(big.Int).Mul(fs.R, fs.R)
		ok, why := g.congCases(O.Mul(R).Sub(A.Scale(Z{RR})), fs.mod, g.st.cond)
		g.ob("from integer: the represented residue", ok, where, "%s", why)
		ok, why = g.belowCases(out, M1, g.st.cond)
		g.ob("from integer: canonical", ok, where, "%s", why)
		g.wordsInRange("from integer", where, out)
		g.ob("from integer: argument is unchanged", veq(g.deref(arg), aw), where, "argument becomes %s", g.c.showV(g.deref(arg)))
		g.noPanics("from integer", mark, where)
	})
	if fs.ptr {
		grp(fs.fromRepr+"/refused", func(g *G) {
			fn := g.fn(fs.fromRepr)
			aw := g.words("a", fs.n)
			g.c.assumeGE(wordSum(aw).Sub(nconst(fs.mod)))
			mark := len(g.in.panics)
			v := g.callA(fn, g.newPtr(aw))
			p, ok := v.(PtrV)
			g.ob("an integer of the order or more is refused", ok && p.obj == 0, g.where(fn), "result %s", g.c.showV(v))
			g.noPanics("refused", mark, g.where(fn))
		})
	}
	grp("Equals", func(g *G) {
		fn := g.method(fs.ty, "Equals")
		aw, _ := g.wordsBelow("a", fs.n, fs.mod)
		bw, _ := g.wordsBelow("b", fs.n, fs.mod)
		mark := len(g.in.panics)
		v := g.callM(fs.ty, "Equals", g.mkElem(fs, aw), g.mkElem(fs, bw))
		ok, why := g.sameCond(g.boolOf(v), g.wordsEq(aw, bw))
		g.ob("Equals: true exactly for equal residues", ok, g.where(fn), "%s", why)
		g.noPanics("Equals", mark, g.where(fn))
	})
	grp("IsZero", func(g *G) {
		fn := g.method(fs.ty, "IsZero")
		aw, A := g.wordsBelow("a", fs.n, fs.mod)
		mark := len(g.in.panics)
		v := g.callM(fs.ty, "IsZero", g.mkElem(fs, aw))
		z := &ArrayV{}
		for range aw.e {
			z.e = append(z.e, iconst(0))
		}
		b := g.boolOf(v)
		// either all words are compared with zero or the whole integer is
		want := g.wordsEq(aw, z)
		ok, why := g.sameCond(b, want)
		if !ok {
			ok, why = g.sameCond(b, g.c.eq0(A, g.c.facts(g.st.cond)))
		}
		g.ob("IsZero: true exactly for zero", ok, g.where(fn), "%s", why)
		g.noPanics("IsZero", mark, g.where(fn))
	})
	grp("Cmp", func(g *G) {
		fn := g.method(fs.ty, "Cmp")
		// ToRepr is replaced by its contract: words of the represented residue
		aw, _ := g.wordsBelow("a", fs.n, fs.mod)
		bw, _ := g.wordsBelow("b", fs.n, fs.mod)
		ca, CA := g.wordsBelow("canon.a", fs.n, fs.mod)
		cb, CB := g.wordsBelow("canon.b", fs.n, fs.mod)
		g.in.intr[g.method(fs.ty, "ToRepr").String()] = func(in *Interp, fr *Frame, st *State, args []Val) Val {
			s2 := g.st
			g.st = *st
			w := g.elemWords(fs, args[0])
			*st = g.st
			g.st = s2
			var res Val
			switch {
			case veq(w, aw):
				res = ca
			case veq(w, bw):
				res = cb
			default:
				panic(Unresolved{"ToRepr of an unexpected value"})
			}
			if fs.ptr {
				return in.newPtr(st, res)
			}
			return res
		}
		mark := len(g.in.panics)
		v := g.callM(fs.ty, "Cmp", g.mkElem(fs, aw), g.mkElem(fs, bw))
		d := CA.Sub(CB)
		lt := g.c.lt0(d, g.c.base)
		eq := g.c.eq0(d, g.c.base)
		want := g.c.gamma(lt, iconst(-1), g.c.gamma(eq, iconst(0), iconst(1)))
		g.ob("Cmp: orders the represented integers", g.sameInt(v, want), g.where(fn), "result %s", g.c.showV(v))
		g.noPanics("Cmp", mark, g.where(fn))
	})
	for _, zero := range []bool{false, true} {
		zero := zero
		nm := "non-zero"
		if zero {
			nm = "zero"
		}
		grp("Parity/"+nm, func(g *G) {
			fn := g.method(fs.ty, "Parity")
			var aw *ArrayV
			var A, CA *NPoly
			var ca *ArrayV
			if zero {
				aw = constWords(new(big.Int), fs.n)
				A, ca = nint(0), aw
				CA = A
			} else {
				aw, A = g.wordsBelow("a", fs.n, fs.mod)
				ca, CA = g.wordsBelow("canon.a", fs.n, fs.mod)
				g.c.assumeGE(A.Sub(nint(1)))
				g.c.assumeGE(CA.Sub(nint(1)))
			}
			cb, CB := g.wordsBelow("canon.b", fs.n, fs.mod)
			g.in.intr[g.method(fs.ty, "ToRepr").String()] = func(in *Interp, fr *Frame, st *State, args []Val) Val {
				s2 := g.st
				g.st = *st
				w := g.elemWords(fs, args[0])
				*st = g.st
				g.st = s2
				wrap := func(st *State, v Val) Val {
					if fs.ptr {
						return in.newPtr(st, v)
					}
					return v
				}
				if veq(w, aw) {
					return wrap(st, ca)
				}
				x := wordSum(w)
				if in.c.eq0(x.Sub(A), in.f(st)) == bTrue {
					return wrap(st, ca)
				}
				if in.c.eq0(x.Add(A).Sub(nconst(fs.mod)), in.f(st)) == bTrue {
					return wrap(st, cb)
				}
				panic(Unresolved{"ToRepr of neither the element nor its negative: " + in.c.show(x)})
			}
			mark := len(g.in.panics)
			v := g.callM(fs.ty, "Parity", g.mkElem(fs, aw))
			want := g.c.lt0(CB.Sub(CA), g.c.base)
			if zero {
				want = bFalse
			}
			ok, why := g.sameCond(g.boolOf(v), want)
			g.ob("Parity: true exactly when the residue exceeds that of its negative", ok, g.where(fn), "%s", why)
			g.noPanics("Parity", mark, g.where(fn))
		})
	}
	// the constants the operations rely on, as initialised by the package
	grp("constants", func(g *G) {
		find := func(name string, want *big.Int) {
			v := g.in.globalVal(&g.st, modPath, name)
			if v == nil {
				g.ob(name+" exists", false, modPath, "no such variable")
				return
			}
			w := wordSum(g.elemWords(fs, v))
			k := nconstOf(w)
			g.ob(name+" has the required value", k != nil && k.Cmp(want) == 0, modPath, "value %s, expected %v", g.c.show(w), want)
		}
		if fs.ty == "FQ" {
			find("QFieldModulus", fs.mod)
			find("FQZero", new(big.Int))
			find("FQOne", new(big.Int).Mod(fs.R, fs.mod))
		} else {
			find("RFieldModulus", fs.mod)
		}
	})
}

// sameInt decides that two integer values (with alternatives) agree.
func (g *G) sameInt(a, b Val) bool {
	toP := func(v Val) *NPoly {
		if gv, ok := v.(*GammaV); ok {
			v = g.c.gammaInt(gv)
		}
		iv, ok := v.(IntV)
		if !ok {
			return nil
		}
		return iv.p
	}
	x, y := toP(a), toP(b)
	if x == nil || y == nil {
		return false
	}
	ok, _ := g.isZeroInt(x.Sub(y), g.st.cond)
	return ok
}

func init() {
	register("C02", 150, func(r *Run) {
		for _, a := range bothArch {
			fieldOps(r, fqSpec(), a)
		}
	})
	register("C03", 130, func(r *Run) {
		for _, a := range bothArch {
			fieldOps(r, frSpec(), a)
		}
	})
	_ = fmt.Sprint
}
