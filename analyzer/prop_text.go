package main

// C34: printed forms.

import "fmt"

func init() {
	register("C34", 150, func(r *Run) {
		for _, arch := range bothArch {
			arch := arch
			for _, rs := range []struct {
				ty string
				n  int
			}{{"FQRepr", 6}, {"FRRepr", 4}} {
				rs := rs
				r.group(arch+"/"+rs.ty+".String", func(g *G) {
					g.use(arch)
					g.in.useText()
					g.in.runInit(modPath)
					g.start()
					fn := g.method(rs.ty, "String")
					a := &ArrayV{}
					for i := 0; i < rs.n; i++ {
						a.e = append(a.e, IntV{g.c.wordSym(fmt.Sprintf("w%d_", i), 64)})
					}
					p := g.newPtr(a)
					mark := len(g.in.panics)
					v := g.callM(rs.ty, "String", p)
					g.prints("String", g.where(fn), v, []number{{wordSum(a), 16 * rs.n}})
					g.unchanged("String: receiver unchanged", g.where(fn), p, a)
					g.noPanics("String", mark, g.where(fn))
				})
			}
			r.group(arch+"/FR.String", func(g *G) {
				g.use(arch)
				g.in.useText()
				g.in.runInit(modPath)
				g.start()
				g.useFR()
				fn := g.method("FR", "String")
				p, k := g.newFR("s")
				mark := len(g.in.panics)
				v := g.callM("FR", "String", p)
				g.prints("String", g.where(fn), v, []number{{k, 64}})
				g.noPanics("String", mark, g.where(fn))
			})
			for _, t := range towers {
				t := t
				r.group(arch+"/"+t.ty+".String", func(g *G) {
					g.l1(arch, t.fq2)
					g.in.useText()
					if t.fq2 {
						g.useFQ2Text()
					}
					fn := g.method(t.ty, "String")
					x, A := t.mk(g, "a")
					mark := len(g.in.panics)
					v := g.callM(t.ty, "String", x)
					g.prints("String", g.where(fn), v, g.numbers(t.fq2, A))
					g.noPanics("String", mark, g.where(fn))
				})
			}
			for i := range curves {
				cv := &curves[i]
				for _, proj := range []bool{false, true} {
					for _, id := range []bool{false, true} {
						proj, id := proj, id
						ty, nm := cv.aff, "finite"
						if proj {
							ty = cv.proj
						}
						if id {
							nm = "identity"
						}
						r.group(arch+"/"+ty+".String/"+nm, func(g *G) {
							g.l1(arch, cv.fq2)
							g.in.useText()
							if cv.fq2 {
								g.useFQ2Text()
							}
							fn := g.method(ty, "String")
							var p pt
							if !id {
								p = cv.point(g, "1")
							}
							a := cv.affObj(g, p)
							if proj {
								a = cv.projObj(g, p, "1")
								// the conversion by its contract (C14)
								rv := g.deref(a)
								g.in.intr[g.method(cv.proj, "ToAffine").String()] = func(in *Interp, fr *Frame, st *State, x []Val) Val {
									v := x[0]
									if q, ok := v.(PtrV); ok {
										v = in.load(fr, st, q, fr.site)
									}
									if !veq(v, rv) {
										in.fail(fr, fr.site, "conversion of another point: %s", in.c.showV(v))
									}
									av := &StructV{[]Val{cv.fv(in.c.F.konst(ki(0))), cv.fv(in.c.F.konst(ki(1))), BoolV{bTrue}}}
									if !id {
										av = &StructV{[]Val{cv.fv(p.x), cv.fv(p.y), BoolV{bFalse}}}
									}
									return in.newPtr(st, av)
								}
							}
							av := g.deref(a)
							mark := len(g.in.panics)
							v := g.callM(ty, "String", a)
							var want []number
							if !id {
								want = g.numbers(cv.fq2, []*Elem{p.x, p.y})
							}
							g.prints("String", g.where(fn), v, want)
							t, ok := v.(StrV)
							g.ob("String: says something", !ok || t.s != "", g.where(fn), "empty")
							g.unchanged("String: receiver unchanged", g.where(fn), a, av)
							g.noPanics("String", mark, g.where(fn))
						})
					}
				}
			}
			for i := range schemes {
				s := &schemes[i]
				for _, k := range []struct {
					ty string
					cv *curve
				}{{"PublicKey", s.key}, {"Signature", s.sig}} {
					k := k
					r.group(arch+"/"+s.pkg+"."+k.ty+".String", func(g *G) {
						s.use(g, arch)
						g.in.useText()
						cvn := k.cv
						for _, ty := range []string{cvn.aff, cvn.proj} {
							g.in.intr[g.method(ty, "String").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
								return grpGets(in, fr, st, a[:1], g.pointConv(cvn), func(st *State, gs []*GrpV, _ []PtrV) Val {
									return textVal(TSeg{opq: &OpqV{"printed point", []Val{gs[0]}}})
								})
							}
						}
						fn := s.method(g, k.ty, "String")
						P := g.c.grpSym(k.cv.name, "P", nil)
						o := s.wrap(g, P)
						mark := len(g.in.panics)
						v := g.callA(fn, o)
						t, ok := v.(*TextV)
						n := 0
						if ok {
							for _, sg := range t.segs {
								if sg.num != nil {
									ok = false
								}
								if sg.opq != nil {
									n++
									q, isQ := sg.opq.(*OpqV)
									ok = ok && isQ && q.tag == "printed point" && veq(q.args[0], P)
								}
							}
						}
						g.ob("String: prints the point", ok && n == 1, g.where(fn), "gives %s", g.c.showV(v))
						g.noPanics("String", mark, g.where(fn))
					})
				}
				r.group(arch+"/"+s.pkg+".SecretKey.String", func(g *G) {
					s.use(g, arch)
					g.in.useText()
					fn := s.method(g, "SecretKey", "String")
					o, k := s.secret(g, "k")
					mark := len(g.in.panics)
					v := g.callA(fn, o)
					g.prints("String", g.where(fn), v, []number{{k, 64}})
					g.noPanics("String", mark, g.where(fn))
				})
			}
			r.group(arch+"/FQ.String", func(g *G) {
				g.l1(arch, false)
				g.in.useText()
				fn := g.method("FQ", "String")
				a := g.fqSym("a")
				mark := len(g.in.panics)
				v := g.callM("FQ", "String", g.newPtr(&ElemV{"FQ", a}))
				g.prints("String", g.where(fn), v, g.numbers(false, []*Elem{a}))
				g.noPanics("String", mark, g.where(fn))
			})
		}
	})
}

// numbers are the canonical integers of coefficients, as printed in full.
func (g *G) numbers(fq2 bool, es []*Elem) (out []number) {
	for _, e := range es {
		xs := []*Elem{e}
		if fq2 {
			c0, c1 := g.c.F.parts(e)
			xs = []*Elem{c0, c1}
		}
		for _, x := range xs {
			out = append(out, number{g.elemInt(x), 96})
		}
	}
	return
}

// useFQ2Text is the contract of printing an element of the quadratic
// extension, which the group of its own type decides.
func (g *G) useFQ2Text() {
	g.in.intr[g.method("FQ2", "String").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a[:1], func(st *State, es []*ElemV, _ []Val) Val {
			segs := []TSeg{{lit: "["}}
			for i, n := range g.numbers(true, []*Elem{es[0].e}) {
				if i > 0 {
					segs = append(segs, TSeg{lit: ", "})
				}
				segs = append(segs, TSeg{num: n.x, w: n.w})
			}
			return textVal(append(segs, TSeg{lit: "]"})...)
		})
	}
}
