package main

// C23: the bytes hashed and the integers made from them.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fieldInt is the spec of hash_to_field: the digest of the message with the
// counter and indexes, two blocks, reduced.
func (c *Ctx) fieldInt(msg *SeqV, ctr, coord int64, mod *big.Int) *NPoly {
	one := func(x int64) Seg { v := iconst(x); return Seg{b: &v} }
	bytesSeq := func(ds []Val) []Seg {
		var r []Seg
		for _, d := range ds {
			iv := d.(IntV)
			r = append(r, Seg{b: &iv})
		}
		return r
	}
	prime := append(bytesSeq(c.digest(msg)), one(ctr))
	x := nint(0)
	for j := int64(1); j <= 2; j++ {
		blk := append(append([]Seg(nil), prime...), one(coord), one(j))
		for _, d := range c.digest(&SeqV{blk}) {
			x = x.Scale(zi(256)).Add(d.(IntV).p)
		}
	}
	return c.modSym(x, mod, c.base)
}

// elemInt is the canonical integer of an element made from an integer.
func (g *G) elemInt(e *Elem) *NPoly {
	for _, r := range g.in.regs {
		if !r.mont && g.c.F.Equal(r.e, e) {
			return wordSum(r.words)
		}
	}
	return wordSum(g.in.wordsOfElem(e, false))
}

func (g *G) sameInts(name, where string, es []*Elem, want []*NPoly) {
	if len(es) != len(want) {
		g.ob(name, false, where, "%d coordinates, expected %d", len(es), len(want))
		return
	}
	for i, e := range es {
		got := g.elemInt(e)
		ok, why := g.isZeroInt(got.Sub(want[i]), g.st.cond)
		g.ob(fmt.Sprintf("%s: coordinate %d", name, i), ok, where, "%s", why)
	}
}

func (g *G) hashLevel(arch string) {
	g.use(arch)
	g.useFQ()
	g.useFQ2()
	g.in.runInit(modPath)
	g.useFR()
	g.useBigConv()
	g.in.useBytes()
	g.in.useSha()
	g.start()
}

func suited(ms *SeqV) *SeqV {
	b := iconst(1)
	return &SeqV{append([]Seg{{b: &b}}, ms.segs...)}
}

func hashOps(r *Run, arch string) {
	for _, mk := range append([]string{"3 bytes", "63 bytes", "64 bytes"}, msgKinds...) {
		mk := mk
		for gi := range curves {
			cv := &curves[gi]
			hn, mn := "HashG1", "optimizedSWUMap"
			if cv.fq2 {
				hn, mn = "HashG2", "optimizedSWUMap2"
			}
			r.group(arch+"/"+hn+"/"+mk, func(g *G) {
				g.hashLevel(arch)
				fn, mp := g.fn(hn), g.fn(mn)
				var m Val
				var ms *SeqV
				n := 0
				if _, err := fmt.Sscanf(mk, "%d bytes", &n); err == nil {
					a, s := g.bytesOf("m", n)
					m, ms = g.in.newSlice(&g.st, a.e), s
				} else {
					m, ms = g.message(mk, "m")
				}
				calls := 0
				res := g.newPtr(&OpqV{"mapped", nil})
				g.in.intr[mp.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
					calls++
					st0 := g.st
					g.st = *st
					for k := 0; k < 2; k++ {
						e := g.el(a[k])
						es := []*Elem{e}
						if cv.fq2 {
							c0, c1 := g.c.F.parts(e)
							es = []*Elem{c0, c1}
						}
						var want []*NPoly
						for i := range es {
							want = append(want, g.c.fieldInt(suited(ms), int64(k), int64(i+1), bigQ))
						}
						g.sameInts(fmt.Sprintf("%s: map input %d is hash-to-field of the whole message with counter %d", hn, k, k), g.where(fn), es, want)
					}
					g.st = st0
					return res
				}
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, m)
				g.ob(hn+" maps two field elements once", calls == 1, g.where(fn), "%d calls of the map", calls)
				g.ob(hn+" returns the mapped point", veq(v, res), g.where(fn), "returns %s", g.c.showV(v))
				g.frame(hn+" changes nothing", g.where(fn), h0)
				g.noPanics(hn, mark, g.where(fn))
			})
		}
	}
	r.group(arch+"/HashSecretKey", func(g *G) {
		g.hashLevel(arch)
		fn := g.fn("HashSecretKey")
		b, bs := g.bytesOf("b", 32)
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, b)
		g.frScalar("HashSecretKey: hash-to-field of the 32 bytes modulo r", g.where(fn), v, g.c.fieldInt(bs, 0, 1, bigR))
		g.frame("HashSecretKey changes nothing", g.where(fn), h0)
		g.noPanics("HashSecretKey", mark, g.where(fn))
	})
	for _, s := range schemes {
		s := s
		r.group(arch+"/"+s.pkg+".DeriveSecretKey", func(g *G) {
			g.hashLevel(arch)
			fn := s.fn(g, "DeriveSecretKey")
			b, bs := g.bytesOf("b", 32)
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, b)
			g.frScalar("DeriveSecretKey: hash-to-field of the 32 bytes modulo r", g.where(fn), v, g.c.fieldInt(bs, 0, 1, bigR))
			g.frame("DeriveSecretKey changes nothing", g.where(fn), h0)
			g.noPanics("DeriveSecretKey", mark, g.where(fn))
		})
	}
	for _, k := range []struct{ fn, ty string }{{"HashFQ", "FQ"}, {"HashFR", "FR"}, {"HashFQ2", "FQ2"}} {
		k := k
		for _, n := range digestLens(r.prog(arch).fn(modPath, k.fn)) {
			r.group(fmt.Sprintf("%s/%s/digest%d", arch, k.fn, n), func(g *G) {
				g.use(arch)
				g.useFQ()
				g.useFQ2()
				g.in.useSha()
				g.in.runInit(modPath)
				g.start()
				g.useMonoid(k.ty, false)
				one := g.unitSym(k.ty)
				if f := g.P.method(modPath, k.ty, "MulBits"); f != nil {
					g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
						return grpGets(in, fr, st, a[:1], monoConv(k.ty, false), func(st *State, gs []*GrpV, _ []PtrV) Val {
							return in.fork(st, in.load(fr, st, a[1], fr.site), func(st *State, n Val) Val {
								var x *NPoly
								switch n := n.(type) {
								case BigV:
									x = n.p
								case *ArrayV:
									x = wordSum(n)
								default:
									in.fail(fr, fr.site, "multiplier %s", in.c.showV(n))
								}
								r := in.c.grpScale(gs[0], x)
								if k.ty == "FR" {
									return in.newPtr(st, &StructV{[]Val{in.newPtr(st, r)}})
								}
								return r
							})
						})
					}
				}
				fn := g.fn(k.fn)
				var bs []Val
				for i := 0; i < n; i++ {
					bs = append(bs, IntV{g.c.wordSym(fmt.Sprintf("h%d_", i), 8)})
				}
				h := IfaceV{fn.Params[0].Type(), &OpqV{"hash", bs}}
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, h)
				g.bytesWeights(k.fn+": every bit of the digest counts with its own power of two", g.where(fn), v, monoConv(k.ty, false), bs, one)
				g.frame(k.fn+" changes nothing", g.where(fn), h0)
				g.noPanics(k.fn, mark, g.where(fn))
			})
		}
	}
	r.group(arch+"/HashG2WithDomain", func(g *G) {
		g.hashLevel(arch)
		cv := &curves[1]
		g.c.grpGamma = true
		g.useSqrt()
		conv := g.useCoordMul(cv)
		g.useScale(cv, conv)
		fn := g.fn("HashG2WithDomain")
		where := g.where(fn)
		m, ms := g.bytesOf("m", 32)
		d, ds := g.bytesOf("d", 8)
		const cap = 3
		g.in.loopCap = cap
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, m, d)
		// the candidates
		var cs [2]*Elem
		for k := int64(1); k <= 2; k++ {
			segs := append(append([]Seg(nil), ms.segs...), ds.segs...)
			kv := iconst(k)
			segs = append(segs, Seg{b: &kv})
			y := nint(0)
			for _, dg := range g.c.digest(&SeqV{segs}) {
				y = y.Scale(zi(256)).Add(dg.(IntV).p)
			}
			for _, r := range g.in.regs {
				if !r.mont && wordSum(r.words).Equal(y) {
					cs[k-1] = r.e
				}
			}
			g.ob(fmt.Sprintf("HashG2WithDomain: the digest of message, domain and %d is made a field element", k), cs[k-1] != nil, where, "no field element is made from the integer of that digest")
		}
		if cs[0] == nil || cs[1] == nil {
			return
		}
		F, dd := g.c.F, g.c.bdd
		x, free := F.compose(cs[0], cs[1]), bTrue
		var xs []*Elem
		var conds []B
		for i := 0; i < cap; i++ {
			sq := g.c.squareAtom("FQ2", F.Add(F.Mul(x, F.Mul(x, x)), F.konst(cv.b)))
			xs, conds = append(xs, x), append(conds, dd.and(free, sq))
			free = dd.and(free, dd.not(sq))
			x = F.Add(x, F.konst(ki(1)))
		}
		ok, why, n, all := true, "", 0, bFalse
		fr := &Frame{in: g.in, fn: fn}
		grpGet(g.in, fr, &g.st, v, PtrV{}, conv, func(st *State, gr *GrpV, _ PtrV) Val {
			n++
			all = dd.or(all, st.cond)
			hit := -1
			for i := range xs {
				for _, p := range g.coordPts(cv) {
					for k, co := range gr.t {
						if _, has := p.p.t[k]; has && len(gr.t) == 1 && F.Equal(p.x, xs[i]) {
							if z := nconstOf(co); z != nil && new(big.Int).Abs(z).Cmp(cv.cofactor()) == 0 {
								hit = i
							}
						}
					}
				}
			}
			if hit < 0 {
				ok, why = false, "returns "+g.c.showGrp(gr)
			} else if dd.and(st.cond, dd.not(conds[hit])) != bFalse {
				ok, why = false, fmt.Sprintf("candidate %d is used when %s", hit, g.c.showB(st.cond))
			}
			return nil
		})
		g.ob("HashG2WithDomain: cofactor multiple of the point at the first usable candidate", ok && n > 0, where, "%s", why)
		want := bFalse
		for _, c := range conds {
			want = dd.or(want, c)
		}
		g.ob("HashG2WithDomain: returns as soon as a candidate is usable", dd.and(want, dd.not(all)) == bFalse, where, "does not return when %s", g.c.showB(dd.and(want, dd.not(all))))
		g.frame("HashG2WithDomain changes nothing", where, h0)
		g.noPanics("HashG2WithDomain", mark, where)
	})
}

// frScalar decides that v is a scalar whose integer is want.
func (g *G) frScalar(name, where string, v Val, want *NPoly) {
	if yes, no := g.isNil(v); yes || !no {
		g.ob(name, false, where, "nil is returned")
		return
	}
	for {
		v = g.c.simp(v, g.st.cond)
		p, ok := v.(PtrV)
		if ok {
			v = g.deref(p)
			continue
		}
		s, ok := v.(*StructV)
		if !ok {
			break
		}
		v = s.f[0]
	}
	w, ok := v.(*ArrayV)
	if !ok {
		g.ob(name, false, where, "scalar expected, got %s", g.c.showV(v))
		return
	}
	got := wordSum(g.in.frOf(w, true).canon)
	ok, why := g.isZeroInt(got.Sub(want), g.st.cond)
	g.ob(name, ok, where, "%s", why)
}

func init() {
	register("C23", 40, func(r *Run) {
		for _, a := range bothArch {
			hashOps(r, a)
		}
	})
}

// unitSym names the constants that hold the element one, so that multiples of one keep their multiplier.
func (g *G) unitSym(ty string) *GrpV {
	one := g.c.grpSym(ty, "one", nil)
	mont := new(big.Int).Mod(pow2(256), bigR)
	for _, m := range g.P.pkgs[modPath].Members {
		gl, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		t := gl.Type().(*types.Pointer).Elem()
		if typeName(t) != modPath+"."+ty {
			continue
		}
		o := g.in.global(gl)
		switch v := g.st.heap.get(o).(type) {
		case *ElemV:
			if k, ok := v.e.Const(); ok && k.Equal(ki(1)) {
				g.st.heap = g.st.heap.set(o, one)
			}
		case PtrV: // a scalar
			if s, ok := g.st.heap.get(v.obj).(*StructV); ok && ty == "FR" {
				if p, ok := s.f[0].(PtrV); ok && p.obj != 0 {
					if w := nconstOf(wordSum(g.deref(p).(*ArrayV))); w != nil && w.Cmp(mont) == 0 {
						g.st.heap = g.st.heap.set(p.obj, one)
					}
				}
			}
		}
	}
	return one
}

// digestLens are the digest sizes looked at: those of the usual hashes, and
// those that the constants of a function and of what it calls single out.
func digestLens(fn *ssa.Function) []int {
	set := map[int]bool{20: true, 32: true, 48: true, 64: true}
	if fn != nil {
		fns := map[*ssa.Function]bool{fn: true}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg {
						fns[f] = true
					}
				}
			}
		}
		for f := range fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, o := range i.Operands(nil) {
						if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
							if n, exact := constant.Int64Val(k.Value); exact && n > 1 && n < 130 {
								set[int(n)], set[int(n)+1] = true, true
							}
						}
					}
				}
			}
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}
