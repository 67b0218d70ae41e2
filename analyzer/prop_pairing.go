package main

// C18 (lines and schedule of the Miller loop), C19 (final exponentiation),
// C20 (pairings and their comparison).

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var curveParam = new(big.Int).SetUint64(0xd201000000010000)

// step is one step of the double-and-add walk over the curve parameter.
type step struct {
	add bool
	bit int
}

func walk() []step {
	var r []step
	for i := curveParam.BitLen() - 2; i >= 0; i-- {
		r = append(r, step{false, i})
		if curveParam.Bit(i) == 1 {
			r = append(r, step{true, i})
		}
	}
	return r
}

// fieldIx finds a field of a named struct.
func (g *G) fieldIx(typ, name string) (*types.Struct, int) {
	p := g.P.pkgs[modPath]
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		panic(Unresolved{"type " + typ + " not found"})
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		panic(Unresolved{"type " + typ + " is not a struct"})
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s, i
		}
	}
	panic(Unresolved{"field " + typ + "." + name + " not found"})
}

// mkStruct makes a struct value from named fields.
func (g *G) mkStruct(typ string, f map[string]Val) *StructV {
	r := &StructV{}
	for n, v := range f {
		s, i := g.fieldIx(typ, n)
		for len(r.f) < s.NumFields() {
			r.f = append(r.f, g.in.zero(s.Field(len(r.f)).Type()))
		}
		r.f[i] = v
	}
	return r
}

// getField reads a named field.
func (g *G) getField(typ, name string, v Val) Val {
	_, i := g.fieldIx(typ, name)
	s, ok := g.c.simp(v, g.st.cond).(*StructV)
	if !ok {
		panic(Unresolved{typ + " expected, got " + g.c.showV(v)})
	}
	return g.c.simp(s.f[i], g.st.cond)
}

// triple reads three elements.
func triple(v Val) []*Elem {
	var vs []Val
	switch x := v.(type) {
	case *TupleV:
		vs = x.e
	case *ArrayV:
		vs = x.e
	}
	return triple3(vs)
}

func triple3(vs []Val) []*Elem {
	if len(vs) != 3 {
		return nil
	}
	var r []*Elem
	for _, v := range vs {
		e, ok := v.(*ElemV)
		if !ok || e.ty != "FQ2" {
			return nil
		}
		r = append(r, e.e)
	}
	return r
}

// prepared decides the coefficients of a prepared point.
func prepared(r *Run, arch string) {
	r.group(arch+"/G2AffineToPrepared", func(g *G) {
		g.l1(arch, true)
		cv := &curves[1]
		F := g.c.F
		fn := g.fn("G2AffineToPrepared")
		where := g.where(fn)
		cv.noTwoTorsion(g)
		Q := cv.point(g, "Q")
		q := cv.affObj(g, Q)
		cur := Q
		prev := g.st.heap
		var rec [][]*Elem
		spec := walk()
		isPt := func(fs []*Elem, want pt) bool {
			X, Y, Z := fs[0], fs[1], fs[2]
			if F.isZero(Z.num, g.c.base) != bFalse {
				return false
			}
			z2 := F.Mul(Z, Z)
			return F.Equal(X, F.Mul(want.x, z2)) && F.Equal(Y, F.Mul(want.y, F.Mul(z2, Z)))
		}
		event := func(st *State, l []*Elem, final bool) {
			if len(rec) > 0 {
				o := rec[len(rec)-1]
				if F.Equal(o[0], l[0]) && F.Equal(o[1], l[1]) && F.Equal(o[2], l[2]) {
					return
				}
			}
			k := len(rec)
			if k >= len(spec) {
				if final {
					g.ob("no line beyond the walk", false, where, "line %d is extra", k)
				}
				return
			}
			other, what := cur, "tangent at the doubled point"
			if spec[k].add {
				other, what = Q, "chord through the point and the base point"
				F.nonzero(F.Sub(cur.x, Q.x).num)
			}
			want := cv.add(g, cur, other)
			var hits []int
			seen := 0
			pdiff(prev, st.heap, func(o int, p, v Val) {
				s, ok := v.(*StructV)
				if !ok {
					return
				}
				fs := triple3(s.f)
				if fs == nil {
					return
				}
				seen++
				if isPt(fs, want) {
					hits = append(hits, o)
				}
			})
			if len(hits) == 0 && !final {
				return
			}
			op := "doubling"
			if spec[k].add {
				op = "addition"
			}
			name := fmt.Sprintf("step %02d (bit %d, %s)", k, spec[k].bit, op)
			if !g.ob(name+": the running point follows the walk", len(hits) > 0, where, "none of %d updated points is the expected multiple", seen) {
				panic(Unresolved{"the walk is lost at step " + fmt.Sprint(k)})
			}
			var lam *Elem
			if spec[k].add {
				lam = F.Mul(F.Sub(Q.y, cur.y), F.Inv(F.Sub(Q.x, cur.x)))
			} else {
				lam = F.Mul(F.Scale(F.Mul(cur.x, cur.x), ki(3)), F.Inv(F.Scale(cur.y, ki(2))))
			}
			g.ob(name+": the line is not degenerate", F.isZero(l[0].num, g.c.base) == bFalse, where, "coefficient %s may be zero", F.show(l[0]))
			g.ob(name+": the coefficient of x is that of the "+what, F.Equal(l[1], F.Neg(F.Mul(lam, l[0]))), where, "coefficient is %s", F.show(l[1]))
			g.ob(name+": the constant coefficient is that of the "+what, F.Equal(l[2], F.Mul(l[0], F.Sub(F.Mul(lam, cur.x), cur.y))), where, "coefficient is %s", F.show(l[2]))
			rec = append(rec, l)
			// go on from any representation of the new point
			cur = cv.point(g, fmt.Sprintf("R%d", k))
			n := cv.projObj(g, cur, fmt.Sprintf("R%d", k))
			nv := g.st.heap.get(n.obj)
			for _, o := range hits {
				st.heap = st.heap.set(o, nv)
			}
			prev = st.heap
		}
		g.in.onExit = func(fr *Frame, st *State, v Val) {
			if l := triple(v); l != nil {
				event(st, l, false)
			}
		}
		g.in.onApp = func(fr *Frame, st *State, es []Val) {
			for _, e := range es {
				if l := triple(e); l != nil {
					event(st, l, true)
				}
			}
		}
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, q)
		g.in.onExit, g.in.onApp = nil, nil
		g.ob("one line for every step of the walk", len(rec) == len(spec), where, "%d lines, expected %d", len(rec), len(spec))
		s := g.deref(v.(PtrV))
		inf := g.getField("G2Prepared", "infinity", s)
		g.ob("a finite point is not flagged as the identity", veq(inf, BoolV{bFalse}), where, "flag is %s", g.c.showV(inf))
		sl, ok := g.getField("G2Prepared", "coeffs", s).(SliceV)
		if g.ob("the coefficients are kept in order", ok && sl.len == len(spec), where, "%d coefficients", sl.len) {
			es := g.in.sliceElems(nil, &g.st, sl)
			bad := -1
			for i, e := range es {
				l := triple(e)
				if l == nil || i >= len(rec) || !F.Equal(l[0], rec[i][0]) || !F.Equal(l[1], rec[i][1]) || !F.Equal(l[2], rec[i][2]) {
					bad = i
				}
			}
			g.ob("every coefficient is the line of its step", bad < 0, where, "coefficient %d differs", bad)
		}
		g.frame("G2AffineToPrepared changes nothing", where, h0)
		g.noPanics("G2AffineToPrepared", mark, where)
	})
	r.group(arch+"/G2AffineToPrepared/identity", func(g *G) {
		g.l1(arch, true)
		fn := g.fn("G2AffineToPrepared")
		q := curves[1].affObj(g, pt{})
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, q)
		inf := g.getField("G2Prepared", "infinity", g.deref(v.(PtrV)))
		g.ob("the identity is flagged", veq(inf, BoolV{bTrue}), g.where(fn), "flag is %s", g.c.showV(inf))
		z := g.callM("G2Prepared", "IsZero", v)
		g.ob("and recognised", g.c.simp(g.boolOfV(z), g.st.cond).(BoolV).b == bTrue, g.where(fn), "IsZero is %s", g.c.showV(z))
		g.frame("G2AffineToPrepared changes nothing", g.where(fn), h0)
		g.noPanics("G2AffineToPrepared", mark, g.where(fn))
	})
}

func (g *G) boolOfV(v Val) Val { return BoolV{g.boolOf(v)} }

// ---- the Miller loop

// lineGen is the element c0 + c1 v + c4 v w.
func (g *G) lineGen(c0, c1, c4 *Elem) *GrpV {
	r := g.c.grpSym("FQ12", "line:"+c0.Key()+";"+c1.Key()+";"+c4.Key(), nil)
	for id := range r.t {
		g.c.syms[id].name = fmt.Sprintf("line%d", id)
	}
	return r
}

// conjGen is the conjugate of a product.
func (g *G) conjGen(a *GrpV) *GrpV {
	r := &GrpV{ty: a.ty, mod: a.mod, t: map[int]*NPoly{}}
	for k, p := range a.t {
		if b, ok := g.conj[k]; ok {
			r.t[b] = p
			continue
		}
		n := g.c.grpSym(a.ty, fmt.Sprintf("conj:%d", k), a.mod)
		for id := range n.t {
			g.c.syms[id].name = "conj " + g.c.syms[k].name
			g.conj[k], g.conj[id] = id, k
			r.t[id] = p
		}
	}
	return r
}

func (g *G) useLines() {
	g.useMonoid("FQ12", true)
	g.conj = map[int]int{}
	conv := monoConv("FQ12", true)
	g.in.intr[g.method("FQ12", "ConjugateAssign").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
			in.store(fr, st, cells[0], g.conjGen(gs[0]), token.NoPos)
			return nil
		})
		return &TupleV{}
	}
	g.in.intr[g.method("FQ12", "MulBy014Assign").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		elems(in, fr, st, a[1:], func(st *State, es []*ElemV, ps []Val) Val {
			return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
				in.store(fr, st, cells[0], in.c.grpAdd(gs[0], g.lineGen(es[0].e, es[1].e, es[2].e)), token.NoPos)
				return nil
			})
		})
		return &TupleV{}
	}
}

type millerItem struct {
	pInf, qInf bool
	share      string // what the pair shares with the first one
}

func miller(r *Run, arch string) {
	lists := [][]millerItem{{}, {{}}, {{pInf: true}}, {{qInf: true}}, {{pInf: true, qInf: true}},
		{{}, {}}, {{pInf: true}, {}}, {{}, {qInf: true}}, {{}, {pInf: true, qInf: true}}, {{qInf: true}, {pInf: true}},
		{{}, {}, {}}, {{}, {pInf: true}, {}}, {{qInf: true}, {}, {}}, {{}, {}, {}, {}, {}},
		{{}, {share: "P"}}, {{}, {share: "Q"}}, {{}, {share: "coefficients"}}, {{}, {share: "both"}}, {{}, {}, {share: "Q"}}, {{}, {share: "P"}, {share: "Q"}, {share: "both"}}}
	for _, n := range listLens(r.prog(arch), modPath, []int{9}, r.prog(arch).fn(modPath, "MillerLoop")) {
		if n > 5 && n <= 40 {
			lists = append(lists, make([]millerItem, n))
		}
	}
	for _, l := range lists {
		l := l
		nm := ""
		for _, it := range l {
			switch {
			case it.pInf && it.qInf:
				nm += "[O,O]"
			case it.pInf:
				nm += "[O,Q]"
			case it.qInf:
				nm += "[P,O]"
			case it.share != "":
				nm += "[the same " + it.share + "]"
			case len(l) > 5:
			default:
				nm += "[P,Q]"
			}
		}
		r.group(arch+"/MillerLoop/"+fmt.Sprint(len(l))+" pairs "+nm, func(g *G) {
			g.l1(arch, true)
			g.useLines()
			F := g.c.F
			fn := g.fn("MillerLoop")
			where := g.where(fn)
			spec := walk()
			var items []Val
			want := &GrpV{ty: "FQ12", t: map[int]*NPoly{}}
			var p0, q0, s0 Val
			var e0 [][3]*Elem
			var px0, py0 *Elem
			for i, it := range l {
				px, py := g.fqSym(fmt.Sprintf("px%d", i)), g.fqSym(fmt.Sprintf("py%d", i))
				if it.share == "P" || it.share == "both" {
					px, py = px0, py0
				}
				var p Val = g.newPtr(&StructV{[]Val{&ElemV{"FQ", px}, &ElemV{"FQ", py}, BoolV{bFalse}}})
				if it.pInf {
					p = curves[0].affObj(g, pt{})
				}
				if it.share == "P" || it.share == "both" {
					p = p0
				}
				var q, sl Val = g.newPtr(g.mkStruct("G2Prepared", map[string]Val{"infinity": BoolV{bTrue}})), nil
				var es [][3]*Elem
				if !it.qInf {
					var cs []Val
					for k := range spec {
						var e [3]*Elem
						a := &ArrayV{}
						for j := range e {
							e[j] = g.fq2Sym(fmt.Sprintf("c%d_%d_%d", i, k, j))
							if it.share != "" && it.share != "P" {
								e[j] = e0[k][j]
							}
							a.e = append(a.e, &ElemV{"FQ2", e[j]})
						}
						es = append(es, e)
						cs = append(cs, a)
						if !it.pInf {
							ln := g.lineGen(e[2], F.Mul(e[1], px), F.Mul(e[0], py))
							want = g.c.grpAdd(want, g.c.grpScale(ln, nconst(pow2(spec[k].bit))))
						}
					}
					sl = g.in.newSlice(&g.st, cs)
					if it.share == "coefficients" {
						sl = s0
					}
					q = g.newPtr(g.mkStruct("G2Prepared", map[string]Val{"coeffs": sl, "infinity": BoolV{bFalse}}))
				}
				if it.share == "Q" || it.share == "both" {
					q = q0
				}
				if i == 0 {
					p0, q0, s0, e0, px0, py0 = p, q, sl, es, px, py
				}
				items = append(items, g.mkStruct("MillerLoopItem", map[string]Val{"P": p, "Q": q}))
			}
			want = g.conjGen(want) // the parameter is negative
			arg := g.in.newSlice(&g.st, items)
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, arg)
			name := "the product over the finite pairs of every line at its point, to its power of two, conjugated"
			if len(want.t) == 0 {
				name = "pairs with the identity contribute nothing: the result is one"
			}
			g.sameGrp(name, where, v, want, monoConv("FQ12", true))
			g.frame("MillerLoop changes nothing", where, h0)
			g.noPanics("MillerLoop", mark, where)
		})
	}
}

// ---- final exponentiation

func finalExp(r *Run, arch string) {
	q12 := new(big.Int).Exp(bigQ, big.NewInt(12), nil)
	order := new(big.Int).Sub(q12, big.NewInt(1))
	setup := func(g *G) {
		g.l1(arch, true)
		g.useMonoid("FQ12", true)
		in, c := g.in, g.c
		conv := monoConv("FQ12", true)
		scale := func(f func(st *State, a []Val) *big.Int) Intrinsic {
			return func(in *Interp, fr *Frame, st *State, a []Val) Val {
				grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
					in.store(fr, st, cells[0], c.grpScale(gs[0], nconst(f(st, a))), token.NoPos)
					return nil
				})
				return &TupleV{}
			}
		}
		qk := func(k int64) *big.Int { return new(big.Int).Exp(bigQ, big.NewInt(k), order) }
		in.intr[g.method("FQ12", "ConjugateAssign").String()] = scale(func(st *State, a []Val) *big.Int { return qk(6) })
		in.intr[g.method("FQ12", "FrobeniusMapAssign").String()] = scale(func(st *State, a []Val) *big.Int {
			k := nconstOf(in.asInt(nil, a[1]))
			if k == nil {
				panic(Unresolved{"Frobenius power not constant"})
			}
			return qk(k.Int64())
		})
		in.intr[g.method("FQ12", "Exp").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
				return each(in, fr, st, a[1:2], func(st *State, vs []Val) Val {
					return in.newPtr(st, c.grpScale(gs[0], wordSum(intWords(c, wordsOf(in, fr, st, vs[0])))))
				})
			})
		}
		set := func(name string, h Intrinsic) {
			if f := g.P.method(modPath, "FQ12", name); f != nil {
				in.intr[f.String()] = h
			}
		}
		set("InverseAssign", func(in *Interp, fr *Frame, st *State, a []Val) Val {
			var ok Val
			ok = grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
				if g.zero {
					return BoolV{bFalse}
				}
				in.store(fr, st, cells[0], c.grpScale(gs[0], nint(-1)), token.NoPos)
				return BoolV{bTrue}
			})
			return ok
		})
		set("IsZero", func(in *Interp, fr *Frame, st *State, a []Val) Val {
			if g.zero {
				return BoolV{bTrue}
			}
			return BoolV{bFalse}
		})
	}
	r.group(arch+"/FinalExponentiation", func(g *G) {
		setup(g)
		fn := g.fn("FinalExponentiation")
		where := g.where(fn)
		x := g.c.grpSym("FQ12", "f", order)
		p := g.newPtr(x)
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, p)
		yes, no := g.isNil(v)
		if g.ob("does not fail for a non-zero element", no && !yes, where, "nil is returned") {
			r, ok := g.deref(v.(PtrV)).(*GrpV)
			if g.ob("the result is a power of the argument", ok && len(r.t) == 1, where, "result %s", g.c.showV(g.deref(v.(PtrV)))) {
				var e *big.Int
				for k, co := range r.t {
					if _, is := x.t[k]; is {
						e = nconstOf(co)
					}
				}
				if g.ob("one fixed exponent", e != nil, where, "result %s", g.c.showGrp(r)) {
					e.Mod(e, order)
					h := new(big.Int).Div(order, bigR)
					m, rem := new(big.Int).QuoRem(e, h, new(big.Int))
					g.ob("the exponent is a multiple of (q^12-1)/r", rem.Sign() == 0, where, "exponent %v", e)
					gcd := new(big.Int).GCD(nil, nil, new(big.Int).Mod(m, bigR), bigR)
					g.ob("the multiple is prime to r", gcd.Cmp(big.NewInt(1)) == 0 || rem.Sign() != 0, where, "multiple %v", m)
				}
			}
		}
		g.frame("FinalExponentiation changes nothing", where, h0)
		g.noPanics("FinalExponentiation", mark, where)
	})
	r.group(arch+"/FinalExponentiation/zero", func(g *G) {
		setup(g)
		g.zero = true
		fn := g.fn("FinalExponentiation")
		p := g.newPtr(g.c.grpSym("FQ12", "zero", order))
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, p)
		yes, no := g.isNil(v)
		g.ob("reports failure for zero", yes && !no, g.where(fn), "returns %s", g.c.showV(v))
		g.frame("FinalExponentiation changes nothing", g.where(fn), h0)
		g.noPanics("FinalExponentiation", mark, g.where(fn))
	})
}

// ---- pairings

func pairingOps(r *Run, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+name, func(g *G) {
			g.l1(arch, true)
			g.usePoints()
			g.usePairing()
			for _, n := range []string{"Pairing", "CompareTwoPairings"} {
				delete(g.in.intr, g.fn(n).String())
			}
			g.start()
			f(g)
		})
	}
	mk := func(g *G, cv *curve, name, kind string) (PtrV, *GrpV) {
		switch kind {
		case "O":
			return cv.projObj(g, pt{}, name), &GrpV{ty: cv.name, t: map[int]*NPoly{}}
		case "const":
			o := g.in.globalVal(&g.st, modPath, cv.proj+"One").(PtrV)
			return o, g.c.grpSym(cv.name, "gen"+cv.name, nil)
		}
		p := g.c.grpSym(cv.name, name, nil)
		return g.newPtr(p), p
	}
	kinds := []string{"any", "O", "const"}
	for _, a := range kinds {
		for _, b := range kinds {
			a, b := a, b
			grp("Pairing/"+a+","+b, func(g *G) {
				fn := g.fn("Pairing")
				p, P := mk(g, &curves[0], "P", a)
				q, Q := mk(g, &curves[1], "Q", b)
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, p, q)
				yes, no := g.isNil(v)
				if g.ob("never fails", no && !yes, g.where(fn), "nil is returned") {
					g.sameGrp("the pairing value of the two points", g.where(fn), v, g.c.pair(P, Q), monoConv("FQ12", true))
				}
				g.frame("Pairing changes nothing", g.where(fn), h0)
				g.noPanics("Pairing", mark, g.where(fn))
			})
		}
	}
	two := func(ks [4]string, same bool) {
		nm := "CompareTwoPairings/" + ks[0] + "," + ks[1] + "," + ks[2] + "," + ks[3]
		if same {
			nm += " same objects"
		}
		grp(nm, func(g *G) {
			fn := g.fn("CompareTwoPairings")
			p1, P1 := mk(g, &curves[0], "P1", ks[0])
			q1, Q1 := mk(g, &curves[1], "Q1", ks[1])
			p2, P2 := mk(g, &curves[0], "P2", ks[2])
			q2, Q2 := mk(g, &curves[1], "Q2", ks[3])
			if same {
				p2, P2, q2, Q2 = p1, P1, q1, Q1
			}
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, p1, q1, p2, q2)
			want := g.c.grpIsZero(g.c.grpAdd(g.c.pair(P1, Q1), g.neg(g.c.pair(P2, Q2))))
			ok, why := g.sameCond(g.boolOf(v), want)
			g.ob("true exactly when the two pairing values are equal", ok, g.where(fn), "%s", why)
			g.frame("CompareTwoPairings changes nothing", g.where(fn), h0)
			g.noPanics("CompareTwoPairings", mark, g.where(fn))
		})
	}
	for i := 0; i < 16; i++ {
		var ks [4]string
		for j := range ks {
			ks[j] = kinds[i>>j&1]
		}
		two(ks, false)
	}
	two([4]string{"const", "any", "any", "const"}, false)
	two([4]string{"any", "any", "any", "any"}, true)
}

var _ *ssa.Function

func init() {
	register("C18", 500, func(r *Run) {
		for _, a := range bothArch {
			prepared(r, a)
			miller(r, a)
		}
	})
	register("C19", 14, func(r *Run) {
		for _, a := range bothArch {
			finalExp(r, a)
		}
	})
	register("C20", 150, func(r *Run) {
		for _, a := range bothArch {
			pairingOps(r, a)
			miller(r, a)
			finalExp(r, a)
		}
	})
}
