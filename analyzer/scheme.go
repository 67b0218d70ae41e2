package main

// Models of the layers below the signature scheme: scalars, hashing to the
// curve, pairings.  Each is the contract of the property named next to it.

import (
	"fmt"
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- scalars (C03, C05)

type frReg struct{ canon, mont *ArrayV }

func (g *G) frSyms(name string) *ArrayV {
	w, _ := g.wordsBelow(name, 4, bigR)
	return w
}

// frOf is the registered pair of words of a scalar.
func (in *Interp) frOf(w *ArrayV, mont bool) frReg {
	w = intWords(in.c, w)
	s := wordSum(w)
	if z := nconstOf(s); z != nil {
		R := pow2(256)
		o := new(big.Int)
		if mont {
			o.Mul(z, new(big.Int).ModInverse(R, bigR))
		} else {
			o.Mul(z, R)
		}
		o.Mod(o, bigR)
		if mont {
			return frReg{constWords(o, 4), w}
		}
		return frReg{w, constWords(o, 4)}
	}
	for _, r := range in.frs {
		x := r.canon
		if mont {
			x = r.mont
		}
		if wordSum(x).Equal(s) {
			return r
		}
	}
	o := &ArrayV{}
	for i := 0; i < 4; i++ {
		hi := new(big.Int).Sub(pow2(64), big.NewInt(1))
		if i == 3 {
			hi = new(big.Int).Rsh(bigR, 192)
		}
		o.e = append(o.e, IntV{in.c.intSym(fmt.Sprintf("fr%d.%d", len(in.frs), i), new(big.Int), hi)})
	}
	in.c.assumeGE(nconst(bigR).Sub(nint(1)).Sub(wordSum(o)))
	r := frReg{w, o}
	if mont {
		r = frReg{o, w}
	}
	in.frs = append(in.frs, r)
	return r
}

// useFR replaces the conversions of scalars by their contracts.
func (g *G) useFR() {
	in, c := g.in, g.c
	frWords := func(in *Interp, fr *Frame, st *State, v Val, k func(st *State, w *ArrayV) Val) Val {
		var rec func(st *State, v Val) Val
		rec = func(st *State, v Val) Val {
			return in.fork(st, v, func(st *State, v Val) Val {
				switch x := v.(type) {
				case PtrV:
					y := in.load(fr, st, x, fr.site)
					if st.cond == bFalse {
						return nil
					}
					return rec(st, y)
				case *StructV:
					return rec(st, x.f[0])
				case *ArrayV:
					return k(st, x)
				}
				in.fail(fr, token.NoPos, "scalar expected, got %s", c.showV(v))
				return nil
			})
		}
		return rec(st, v)
	}
	in.intr[g.method("FR", "ToRepr").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return frWords(in, fr, st, a[0], func(st *State, w *ArrayV) Val { return in.newPtr(st, in.frOf(w, true).canon) })
	}
	in.intr[g.fn("FRReprToFR").String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return frWords(in, fr, st, a[0], func(st *State, w *ArrayV) Val {
			w = intWords(c, w)
			ok := c.bdd.restrict(c.lt0(wordSum(w).Sub(nconst(bigR)), in.f(st)), st.cond)
			if ok == bFalse {
				return PtrV{}
			}
			p := in.newPtr(st, &StructV{[]Val{in.newPtr(st, in.frOf(w, false).mont)}})
			return c.gamma(ok, p, PtrV{})
		})
	}
}

// useBigConv is the contract (C05) of making fixed-width integers from
// arbitrary-precision ones that fit.
func (g *G) useBigConv() {
	for _, t := range []struct {
		fn  string
		n   int
		ptr bool
	}{{"FQReprFromBigInt", 6, false}, {"FRReprFromBigInt", 4, true}} {
		t := t
		f := g.P.fn(modPath, t.fn)
		if f == nil {
			continue
		}
		g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return each(in, fr, st, a, func(st *State, vs []Val) Val {
				b, ok := in.load(fr, st, vs[0], fr.site).(BigV)
				if st.cond == bFalse {
					return nil
				}
				if ok {
					lo, hi := in.c.bounds(b.p, in.f(st))
					ok = lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(64*t.n)) < 0
				}
				if !ok {
					return in.call(fr.caller, fr.site, st, f, vs, nil)
				}
				var w Val
				if z := nconstOf(b.p); z != nil {
					w = constWords(z, t.n)
				} else {
					w = in.c.scalarWords(b.p, t.n)
				}
				if t.ptr {
					w = in.newPtr(st, w)
				}
				return &TupleV{[]Val{w, IfaceV{}}}
			})
		}
	}
}

// newFR makes a scalar object; its integer is the second result.
func (g *G) newFR(name string) (PtrV, *NPoly) {
	w := g.frSyms(name)
	m := g.in.frOf(w, false).mont
	return g.newPtr(&StructV{[]Val{g.newPtr(m)}}), wordSum(w)
}

// ---- hashing to the curve (C23, C24)

// hashPoint is the point some data is hashed to.
func (g *G) hashPoint(fn string, ss ...*SeqV) *GrpV {
	k := ""
	for _, s := range ss {
		k += "(" + g.c.seqKey(s) + ")"
	}
	ty := "G2"
	if fn == "HashG1" {
		ty = "G1"
	}
	return g.c.grpSym(ty, fn+k, nil)
}

func (g *G) useHash() {
	for _, n := range []string{"HashG1", "HashG2", "HashG2WithDomain"} {
		n := n
		f := g.P.fn(modPath, n)
		if f == nil {
			continue
		}
		g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			var rec func(st *State, i int, acc []*SeqV) Val
			rec = func(st *State, i int, acc []*SeqV) Val {
				if i == len(a) {
					return in.newPtr(st, g.hashPoint(n, acc...))
				}
				return in.fork(st, a[i], func(st *State, v Val) Val {
					switch x := v.(type) {
					case *ArrayV:
						s := &SeqV{}
						for _, e := range x.e {
							iv := IntV{in.asInt(fr, e)}
							s.segs = append(s.segs, Seg{b: &iv})
						}
						return rec(st, i+1, append(acc[:i:i], s))
					case SymV:
						return in.fork(st, st.heap.get(x.obj), func(st *State, v Val) Val {
							return rec(st, i+1, append(acc[:i:i], in.seqOf(fr, st, x, v)))
						})
					}
					return rec(st, i+1, append(acc[:i:i], in.content(fr, st, v)))
				})
			}
			return rec(st, 0, nil)
		}
	}
}

// ---- pairings (C18, C19, C20)

// pair is the pairing value: bilinear in its arguments.
func (c *Ctx) pair(p, q *GrpV) *GrpV {
	r := &GrpV{ty: "FQ12", t: map[int]*NPoly{}}
	for a, x := range p.t {
		for b, y := range q.t {
			s := c.grpSym("FQ12", "e("+c.syms[a].name+","+c.syms[b].name+")", nil)
			r = c.grpAdd(r, c.grpScale(s, x.Mul(y)))
		}
	}
	return r
}

func (g *G) usePairing() {
	in, c := g.in, g.c
	g.useMonoid("FQ12", true)
	conv := monoConv("FQ12", true)
	c1, c2 := g.pointConv(&curves[0]), g.pointConv(&curves[1])
	set := func(f *ssa.Function, h Intrinsic) {
		if f != nil {
			in.intr[f.String()] = h
		}
	}
	two := func(in *Interp, fr *Frame, st *State, p, q Val, k func(st *State, e *GrpV) Val) Val {
		return grpGet(in, fr, st, p, PtrV{}, c1, func(st *State, a *GrpV, _ PtrV) Val {
			return grpGet(in, fr, st, q, PtrV{}, c2, func(st *State, b *GrpV, _ PtrV) Val { return k(st, c.pair(a, b)) })
		})
	}
	set(g.P.method(modPath, "FQ12", "Equals"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return grpGets(in, fr, st, a, conv, func(st *State, gs []*GrpV, cells []PtrV) Val {
			return BoolV{c.bdd.restrict(c.grpIsZero(c.grpAdd(gs[0], c.grpScale(gs[1], nint(-1)))), st.cond)}
		})
	})
	set(g.P.fn(modPath, "Pairing"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return two(in, fr, st, a[0], a[1], func(st *State, e *GrpV) Val { return in.newPtr(st, e) })
	})
	set(g.P.fn(modPath, "CompareTwoPairings"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return two(in, fr, st, a[0], a[1], func(st *State, x *GrpV) Val {
			return two(in, fr, st, a[2], a[3], func(st *State, y *GrpV) Val {
				return BoolV{c.bdd.restrict(c.grpIsZero(c.grpAdd(x, c.grpScale(y, nint(-1)))), st.cond)}
			})
		})
	})
	g.useMiller()
}

// useMiller installs the contracts of preparation, Miller loop and final
// exponentiation as the factors of a pairing product.
func (g *G) useMiller() {
	in, c := g.in, g.c
	conv := monoConv("FQ12", true)
	c1, c2 := g.pointConv(&curves[0]), g.pointConv(&curves[1])
	set := func(f *ssa.Function, h Intrinsic) {
		if f != nil {
			in.intr[f.String()] = h
		}
	}
	set(g.P.fn(modPath, "G2AffineToPrepared"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return grpGet(in, fr, st, a[0], PtrV{}, c2, func(st *State, q *GrpV, _ PtrV) Val { return in.newPtr(st, q) })
	})
	set(g.P.fn(modPath, "MillerLoop"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s, ok := a[0].(SliceV)
		if !ok {
			in.fail(fr, token.NoPos, "list of pairs expected, got %s", c.showV(a[0]))
		}
		var flat []Val
		for _, e := range in.sliceElems(fr, st, s) {
			sv, ok := e.(*StructV)
			if !ok || len(sv.f) != 2 {
				in.fail(fr, token.NoPos, "pair expected, got %s", c.showV(e))
			}
			flat = append(flat, sv.f...)
		}
		var rec func(st *State, i int, acc *GrpV) Val
		rec = func(st *State, i int, acc *GrpV) Val {
			if i == len(flat) {
				return in.newPtr(st, acc)
			}
			return grpGet(in, fr, st, flat[i], PtrV{}, c1, func(st *State, p *GrpV, _ PtrV) Val {
				return grpGet(in, fr, st, flat[i+1], PtrV{}, c2, func(st *State, q *GrpV, _ PtrV) Val {
					return rec(st, i+2, c.grpAdd(acc, c.pair(p, q)))
				})
			})
		}
		return rec(st, 0, &GrpV{ty: "FQ12", t: map[int]*NPoly{}})
	})
	set(g.P.fn(modPath, "FinalExponentiation"), func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return grpGet(in, fr, st, a[0], PtrV{}, conv, func(st *State, e *GrpV, _ PtrV) Val { return in.newPtr(st, e) })
	})
}
