package main

// C14 (conversion, equality), C15 and C16 (compressed encoding), C17 (raw
// encoding).

import (
	"fmt"
	"go/types"
	"math/big"
)

func pointOps(r *Run, cv *curve, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+cv.name+"."+name, func(g *G) {
			g.l1(arch, cv.fq2)
			f(g)
		})
	}
	for _, id := range []bool{false, true} {
		id := id
		nm := "finite"
		if id {
			nm = "identity"
		}
		mk := func(g *G) pt {
			if id {
				return pt{}
			}
			return cv.point(g, "1")
		}
		grp("ToProjective/"+nm, func(g *G) {
			fn := g.method(cv.aff, "ToProjective")
			p := mk(g)
			a := cv.affObj(g, p)
			av := g.deref(a)
			mark := len(g.in.panics)
			v := g.callM(cv.aff, "ToProjective", a)
			cv.isProj(g, "ToProjective: the same point", g.where(fn), v, p)
			g.unchanged("ToProjective: receiver unchanged", g.where(fn), a, av)
			// and back
			w := g.callM(cv.proj, "ToAffine", v)
			cv.isAff(g, "ToProjective and back: the same point", g.where(fn), w, p)
			g.noPanics("ToProjective", mark, g.where(fn))
		})
		grp("ToAffine/"+nm, func(g *G) {
			fn := g.method(cv.proj, "ToAffine")
			p := mk(g)
			a := cv.projObj(g, p, "1")
			av := g.deref(a)
			mark := len(g.in.panics)
			v := g.callM(cv.proj, "ToAffine", a)
			cv.isAff(g, "ToAffine: the same point", g.where(fn), v, p)
			g.unchanged("ToAffine: receiver unchanged", g.where(fn), a, av)
			w := g.callM(cv.aff, "ToProjective", v)
			cv.isProj(g, "ToAffine and back: the same point", g.where(fn), w, p)
			g.noPanics("ToAffine", mark, g.where(fn))
		})
		for _, aff := range []bool{false, true} {
			aff := aff
			ty, eq := cv.proj, cv.eq
			if aff {
				ty, eq = cv.aff, "Equals"
			}
			grp(ty+"."+eq+"/same object, "+nm, func(g *G) {
				fn := g.method(ty, eq)
				p := mk(g)
				a := cv.projObj(g, p, "1")
				if aff {
					a = cv.affObj(g, p)
				}
				mark := len(g.in.panics)
				b := g.boolOf(g.callM(ty, eq, a, a))
				ok, why := g.sameCond(b, bTrue)
				g.ob("a point equals itself", ok, g.where(fn), "%s", why)
				g.noPanics("equality", mark, g.where(fn))
			})
		}
	}
	for _, pc := range pairCases {
		pc := pc
		for _, aff := range []bool{false, true} {
			aff := aff
			ty, eq := cv.proj, cv.eq
			if aff {
				ty, eq = cv.aff, "Equals"
			}
			grp(ty+"."+eq+"/"+pc.name, func(g *G) {
				fn := g.method(ty, eq)
				p, q := pc.mk(g, cv)
				var a, b PtrV
				if aff {
					a, b = cv.affObj(g, p), cv.affObj(g, q)
				} else {
					a, b = cv.projObj(g, p, "1"), cv.projObj(g, q, "2")
				}
				av, bv := g.deref(a), g.deref(b)
				want := bFalse
				if pc.name == "equal points" || pc.name == "identity and identity" {
					want = bTrue
				}
				mark := len(g.in.panics)
				got := g.boolOf(g.callM(ty, eq, a, b))
				ok, why := g.sameCond(got, want)
				g.ob("equality: "+pc.name, ok, g.where(fn), "%s", why)
				g.unchanged("equality: receiver unchanged", g.where(fn), a, av)
				g.unchanged("equality: argument unchanged", g.where(fn), b, bv)
				g.noPanics("equality", mark, g.where(fn))
			})
		}
	}
	// affine points whose x agree by accident of representation only: any
	// two coordinate pairs that differ somewhere are different points
	grp(cv.aff+".Equals/arbitrary coordinates", func(g *G) {
		fn := g.method(cv.aff, "Equals")
		F := g.c.F
		p, q := pt{cv.fsym(g, "x1"), cv.fsym(g, "y1")}, pt{cv.fsym(g, "x2"), cv.fsym(g, "y2")}
		got := g.boolOf(g.callM(cv.aff, "Equals", cv.affObj(g, p), cv.affObj(g, q)))
		want := g.c.bdd.and(F.isZero(F.Sub(p.x, q.x).num, g.c.base), F.isZero(F.Sub(p.y, q.y).num, g.c.base))
		ok, why := g.sameCond(got, want)
		g.ob("finite affine points are equal exactly when both coordinates are", ok, g.where(fn), "%s", why)
	})
}

// codec names the encoding functions of a curve.
type codec struct {
	n                             int // bytes of a coordinate
	compress, decompress, uncheck string
}

func (cv *curve) codec() codec {
	if cv.fq2 {
		return codec{96, "CompressG2", "DecompressG2", "DecompressG2Unchecked"}
	}
	return codec{48, "CompressG1", "DecompressG1", "DecompressG1Unchecked"}
}

// coordBytes are the canonical integers of x in encoding order and the
// big-endian bytes.
func (cv *curve) coordInts(g *G, x *Elem, comp bool) []*NPoly {
	if !cv.fq2 {
		return []*NPoly{wordSum(g.in.wordsOfElem(x, false))}
	}
	c0, c1 := g.c.F.parts(x)
	a, b := wordSum(g.in.wordsOfElem(c0, false)), wordSum(g.in.wordsOfElem(c1, false))
	if comp {
		return []*NPoly{b, a}
	}
	return []*NPoly{a, b}
}

// byteAt is byte i (from the least significant) of the integer x.
func (c *Ctx) byteAt(x *NPoly, i int) *NPoly {
	return c.floor(x, 8*i, c.base).Sub(c.floor(x, 8*i+8, c.base).Scale(zi(256)))
}

func (c *Ctx) beBytes(xs []*NPoly, n int) []*NPoly {
	var out []*NPoly
	for _, x := range xs {
		for i := n - 1; i >= 0; i-- {
			out = append(out, c.byteAt(x, i))
		}
	}
	return out
}

func (g *G) l1points(arch string, cv *curve) grpConv {
	g.l1(arch, cv.fq2)
	g.useSqrt()
	g.useWideCmp("FQRepr")
	return g.useCoordMul(cv)
}

// isErr decides on which condition a result's error is non-nil.
func (g *G) errCond(v Val) B {
	d := g.c.bdd
	switch x := g.c.simp(v, g.st.cond).(type) {
	case IfaceV:
		if x.typ == nil {
			return bFalse
		}
		return bTrue
	case *GammaV:
		r := bFalse
		for _, a := range x.alts {
			r = d.or(r, d.and(a.b, g.errCond(a.v)))
		}
		return r
	}
	panic(Unresolved{"error value expected, got " + g.c.showV(v)})
}

func (g *G) tuple(v Val, i int) Val {
	switch x := g.c.simp(v, g.st.cond).(type) {
	case *TupleV:
		return x.e[i]
	case *GammaV:
		var r Val
		for j, a := range x.alts {
			y := g.tuple(a.v, i)
			if j == 0 {
				r = y
			} else {
				r = g.c.gamma(a.b, y, r)
			}
		}
		return r
	}
	panic(Unresolved{"tuple expected, got " + g.c.showV(v)})
}

func compressOps(r *Run, cv *curve, arch string) {
	cd := cv.codec()
	for _, id := range []bool{false, true} {
		id := id
		nm := "finite"
		if id {
			nm = "identity"
		}
		r.group(arch+"/"+cd.compress+"/"+nm, func(g *G) {
			conv := g.l1points(arch, cv)
			c := g.c
			fn := g.fn(cd.compress)
			p := pt{}
			var want []*NPoly
			if !id {
				p = cv.point(g, "1")
				want = c.beBytes(cv.coordInts(g, p.x, true), 48)
				ny := g.c.F.Neg(p.y)
				gt := c.bdd.not(g.in.orderLt(&g.st, cv.fld, p.y, ny))
				want[0] = want[0].Add(nint(128)).Add(c.bitOf(gt).Scale(zi(32)))
			} else {
				for i := 0; i < cd.n; i++ {
					want = append(want, nint(0))
				}
				want[0] = nint(0xc0)
			}
			a := cv.affObj(g, p)
			av := g.deref(a)
			mark := len(g.in.panics)
			v := g.callA(fn, a)
			got := g.rd(v)
			okN := len(got.e) == cd.n
			g.ob(cd.compress+": length", okN, g.where(fn), "%d bytes", len(got.e))
			for i := 0; okN && i < cd.n; i++ {
				ok, why := g.isZeroInt(got.e[i].(IntV).p.Sub(want[i]), g.st.cond)
				g.ob(fmt.Sprintf("%s: byte %d", cd.compress, i), ok, g.where(fn), "%s", why)
			}
			g.unchanged(cd.compress+": argument unchanged", g.where(fn), a, av)
			g.noPanics(cd.compress, mark, g.where(fn))
			// decode what was encoded
			for _, dn := range []string{cd.uncheck, cd.decompress} {
				fn := g.fn(dn)
				mark := len(g.in.panics)
				st := g.st
				d := g.callA(fn, v)
				e := g.errCond(g.tuple(d, 1))
				wantErr := bFalse
				if dn == cd.decompress && !id {
					fr := c.grpIsZero(c.grpScale(conv(g.in, nil, &g.st, g.c.simp(av, g.st.cond)), nconst(bigR)))
					wantErr = c.bdd.not(fr)
				}
				ok, why := g.sameCond(e, wantErr)
				g.ob(dn+" of "+cd.compress+": succeeds (in the subgroup)", ok, g.where(fn), "%s", why)
				g.assume(c.bdd.not(wantErr))
				cv.isAff(g, dn+" of "+cd.compress+": the same point", g.where(fn), g.tuple(d, 0), p)
				g.noPanics(dn, mark, g.where(fn))
				g.st.cond = st.cond
			}
		})
	}
}

// decodeOps: every byte string, split by its first byte.
func decodeOps(r *Run, cv *curve, arch string) {
	cd := cv.codec()
	parts := []struct {
		name   string
		lo, hi int64
		kind   int
		great  bool
	}{
		{"no compression flag", 0, 0x7f, 0, false},
		{"infinity flag", 0xc0, 0xff, 1, false},
		{"smaller y", 0x80, 0x9f, 2, false},
		{"larger y", 0xa0, 0xbf, 2, true},
	}
	for _, dn := range []string{cd.uncheck, cd.decompress} {
		for _, part := range parts {
			dn, part := dn, part
			r.group(arch+"/"+dn+"/"+part.name, func(g *G) {
				conv := g.l1points(arch, cv)
				c, d, F := g.c, g.c.bdd, g.c.F
				fn := g.fn(dn)
				t := c.intSym("t", new(big.Int), big.NewInt(part.hi-part.lo))
				bs := []*NPoly{t.Add(nint(part.lo))}
				sum := t
				arr := &ArrayV{[]Val{IntV{bs[0]}}}
				for i := 1; i < cd.n; i++ {
					b := c.wordSym(fmt.Sprintf("b%d_", i), 8)
					bs = append(bs, b)
					arr.e = append(arr.e, IntV{b})
					sum = sum.Scale(zi(256)).Add(b)
				}
				mark := len(g.in.panics)
				v := g.callA(fn, arr)
				e := g.errCond(g.tuple(v, 1))
				good := bFalse
				switch part.kind {
				case 1:
					good = bTrue
					for i, b := range bs {
						x := b
						if i == 0 {
							x = t
						}
						good = d.and(good, c.eq0(x, c.base))
					}
					ok, why := g.sameCond(e, d.not(good))
					g.ob("the identity is accepted exactly when all other bits are zero", ok, g.where(fn), "%s", why)
					g.assume(good)
					cv.isAff(g, "the identity is returned", g.where(fn), g.tuple(v, 0), pt{})
				case 0:
					ok, why := g.sameCond(e, bTrue)
					g.ob("refused without the compression flag", ok, g.where(fn), "%s", why)
				case 2:
					// coordinates
					good = bTrue
					var es []*Elem
					var ints []*NPoly
					for k := 0; k < cd.n/48; k++ {
						x := nint(0)
						for i := 0; i < 48; i++ {
							b := bs[48*k+i]
							if k == 0 && i == 0 {
								b = t
							}
							x = x.Scale(zi(256)).Add(b)
						}
						ints = append(ints, x)
						good = d.and(good, c.lt0(x.Sub(nconst(bigQ)), c.base))
					}
					canonical := good
					var x *Elem
					for _, i := range ints {
						var e *Elem
						for _, rg := range g.in.regs {
							if !rg.mont {
								if ok, _ := g.isZeroInt(wordSum(rg.words).Sub(i), bTrue); ok {
									e = rg.e
								}
							}
						}
						if e == nil {
							g.ob("the coordinate is the integer of its bytes", false, g.where(fn), "no field element is made from it")
							return
						}
						es = append(es, e)
					}
					x = es[0]
					if cv.fq2 {
						x = F.compose(es[1], es[0])
					}
					rhs := F.Add(F.Mul(F.Mul(x, x), x), F.konst(cv.b))
					good = d.and(good, c.squareAtom(cv.fld, rhs))
					if _, known := F.known[F.norm(rhs.num).Key()]; known {
						good = d.and(canonical, d.atom(c.mkAtom("S"+cv.fld+F.norm(rhs.num).Key(), Atom{kind: aSquare, k: F.norm(rhs.num)})))
					}
					y := c.rootOf(cv.fld, rhs)
					cv.noTwoTorsion(g)
					g.assume(d.not(F.isZero(y.num, c.base)))
					F.nonzero(y.num)
					if dn == cd.decompress {
						p := conv(g.in, nil, &g.st, &StructV{[]Val{cv.fv(x), cv.fv(y), BoolV{bFalse}}})
						good = d.and(good, c.grpIsZero(c.grpScale(p, nconst(bigR))))
					}
					ok, why := g.sameCond(e, d.not(good))
					g.ob("accepted exactly when the coordinate is canonical and the point is on the curve"+map[bool]string{true: " and in the subgroup"}[dn == cd.decompress], ok, g.where(fn), "%s", why)
					g.assume(good)
					lt := g.in.orderLt(&g.st, cv.fld, y, F.Neg(y))
					g.allAlts("the point has the x of the bytes and the y of the sign flag", g.where(fn), g.tuple(v, 0), func(a *allOb, st *State, fs []Val) {
						f := g.in.f(st)
						if g.in.asBool(nil, st, fs[2]) != bFalse {
							a.fail("flagged as the identity when %s", c.showB(st.cond))
							return
						}
						X, Y := fs[0].(*ElemV).e, fs[1].(*ElemV).e
						if !F.EqualUnder(X, x, f) {
							a.fail("x is %s", F.show(X))
						}
						// y is greater iff asked for
						isY, isN := F.EqualUnder(Y, y, f), F.EqualUnder(Y, F.Neg(y), f)
						switch {
						case isY && d.and(st.cond, d.xor(d.not(lt), map[bool]B{true: bTrue, false: bFalse}[part.great])) == bFalse:
						case isN && d.and(st.cond, d.xor(lt, map[bool]B{true: bTrue, false: bFalse}[part.great])) == bFalse:
						default:
							a.fail("y is %s when %s", F.show(Y), c.showB(st.cond))
						}
					})
				}
				g.noPanics(dn, mark, g.where(fn))
			})
		}
	}
}

func rawOps(r *Run, cv *curve, arch string) {
	r.group(arch+"/"+cv.aff+".raw bytes", func(g *G) {
		g.l1points(arch, cv)
		c := g.c
		cd := cv.codec()
		fn := g.method(cv.aff, "SerializeBytes")
		p := cv.point(g, "1")
		want := c.beBytes(append(cv.coordInts(g, p.x, false), cv.coordInts(g, p.y, false)...), 48)
		a := cv.affObj(g, p)
		av := g.deref(a)
		mark := len(g.in.panics)
		v := g.callM(cv.aff, "SerializeBytes", a)
		got := g.rd(v)
		okN := len(got.e) == 2*cd.n
		g.ob("SerializeBytes: length", okN, g.where(fn), "%d bytes", len(got.e))
		for i := 0; okN && i < 2*cd.n; i++ {
			ok, why := g.isZeroInt(got.e[i].(IntV).p.Sub(want[i]), g.st.cond)
			g.ob(fmt.Sprintf("SerializeBytes: byte %d", i), ok, g.where(fn), "%s", why)
		}
		g.unchanged("SerializeBytes: receiver unchanged", g.where(fn), a, av)
		fn2 := g.method(cv.aff, "SetRawBytes")
		for _, old := range []string{"fresh", "used"} {
			var b PtrV
			if old == "fresh" {
				b = g.newPtr(g.in.zero(fn2.Signature.Recv().Type().(*types.Pointer).Elem()))
			} else {
				b = cv.affObj(g, cv.point(g, "2"))
			}
			g.callM(cv.aff, "SetRawBytes", b, v)
			cv.isAff(g, "SetRawBytes of SerializeBytes into a "+old+" point: the same point", g.where(fn2), b, p)
		}
		g.noPanics("raw bytes", mark, g.where(fn2))
	})
}

func init() {
	reg := func(id string, min int, f func(r *Run, cv *curve, arch string)) {
		register(id, min, func(r *Run) {
			for _, a := range bothArch {
				for i := range curves {
					f(r, &curves[i], a)
				}
			}
		})
	}
	register("C14", 80, func(r *Run) {
		for _, a := range bothArch {
			for i := range curves {
				pointOps(r, &curves[i], a)
			}
			for i := range schemes {
				wrapperOps(r, &schemes[i], a)
			}
		}
	})
	reg("C15", 300, compressOps)
	register("C16", 60, func(r *Run) {
		for _, a := range bothArch {
			for i := range curves {
				decodeOps(r, &curves[i], a)
				cofactorObs(r, &curves[i], a) // the subgroup test, from additions and doublings
			}
			for _, fl := range rootFields()[:2] { // the square roots it takes
				rootGroups(r, a, fl)
			}
			for i := range schemes {
				deserializeOps(r, &schemes[i], a)
			}
		}
	})
	reg("C17", 500, rawOps)
}
