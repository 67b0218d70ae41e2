package main

// C09 and C13: double-and-add.  The exponents are partitioned by their bit
// length; within a part the exponent is one integer symbol, its bits are
// differences of floors and the accumulated multiple telescopes.

import (
	"fmt"
	"go/constant"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const mulChunk = 16

// mulKind says how the exponent is passed.
type mulKind struct {
	max  int
	pass func(g *G, s *NPoly) (Val, *ArrayV)
}

var (
	mulFQ  = mulKind{384, func(g *G, s *NPoly) (Val, *ArrayV) { w := g.c.scalarWords(s, 6); return g.newPtr(w), w }}
	mulFR  = mulKind{256, func(g *G, s *NPoly) (Val, *ArrayV) { w := g.c.scalarWords(s, 4); return g.newPtr(w), w }}
	mulBig = mulKind{640, func(g *G, s *NPoly) (Val, *ArrayV) { return g.newPtr(BigV{s}), nil }}
)

// mulObs analyses fn(elem, scalar) for every bit length.
func mulObs(r *Run, name, arch string, k mulKind, start func(g *G) (fn *ssa.Function, conv grpConv, mk func(g *G) (Val, *GrpV))) {
	max := k.max
	if max > 384 && r.tier == "thorough" {
		max = 1536
	}
	var parts [][2]int
	for lo := 0; lo <= max; lo += mulChunk {
		hi := lo + mulChunk - 1
		if hi > max {
			hi = max
		}
		parts = append(parts, [2]int{lo, hi})
	}
	if k.max > 384 {
		parts = append(parts, bigLens(r.prog(arch), name, max)...)
	}
	for _, p := range parts {
		lo, hi := p[0], p[1]
		r.group(fmt.Sprintf("%s/%s/exponents of %d..%d bits", arch, name, lo, hi), func(g *G) {
			g.use(arch)
			g.useFQ()
			g.useFQ2()
			g.in.runInit(modPath)
			g.start()
			fn, conv, mk := start(g)
			where := g.where(fn)
			for L := lo; L <= hi && !r.stop(); L++ {
				g.start()
				s := g.bitScalar("s", L)
				el, gr := mk(g)
				sc, _ := k.pass(g, s)
				before := g.deref(sc.(PtrV))
				elBefore := snapshot(g, el)
				mark := len(g.in.panics)
				v := g.callA(fn, el, sc)
				g.sameGrp(fmt.Sprintf("%s by every %d-bit exponent", name, L), where, v, g.c.grpScale(gr, s), conv)
				g.ob(fmt.Sprintf("%s: exponent unchanged (%d bits)", name, L), veq(before, g.deref(sc.(PtrV))), where, "becomes %s", g.c.showV(g.deref(sc.(PtrV))))
				g.ob(fmt.Sprintf("%s: operand unchanged (%d bits)", name, L), veq(elBefore, snapshot(g, el)), where, "becomes %s", g.c.showV(snapshot(g, el)))
				g.noPanics(fmt.Sprintf("%s (%d bits)", name, L), mark, where)
			}
		})
	}
}

// bigLens are lengths of big integers beyond max that constants of the function
// (bits, bytes or words) single out.
func bigLens(P *Prog, name string, max int) (out [][2]int) {
	var ty, m string
	if i := strings.IndexByte(name, '.'); i >= 0 {
		ty, m = name[:i], name[i+1:]
	}
	root := P.method(modPath, ty, m)
	if root == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	set := map[int]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if n, exact := constant.Int64Val(k.Value); exact && n > 1 && n <= 2048 {
							for _, u := range []int64{1, 8, 32, 64} {
								if l := int(n * u); l >= max && l <= 2048 {
									set[l] = true
								}
							}
						}
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg {
						for _, p := range g.Params {
							if typeName(p.Type()) == "math/big.Int" {
								visit(g)
							}
						}
					}
				}
			}
		}
	}
	visit(root)
	var ls []int
	for l := range set {
		ls = append(ls, l)
	}
	sort.Ints(ls)
	for n, l := range ls {
		if n < 8 {
			out = append(out, [2]int{l, l + 1})
		}
	}
	return
}

// snapshot is the value of an object with pointers followed.
func snapshot(g *G, v Val) Val {
	switch x := v.(type) {
	case PtrV:
		if x.obj == 0 {
			return x
		}
		return &StructV{[]Val{snapshot(g, g.deref(x))}}
	case *StructV:
		r := &StructV{}
		for _, f := range x.f {
			r.f = append(r.f, snapshot(g, f))
		}
		return r
	}
	return v
}

func pointMul(r *Run, cv *curve, arch, ty, name string, k mulKind) {
	mulObs(r, ty+"."+name, arch, k, func(g *G) (*ssa.Function, grpConv, func(g *G) (Val, *GrpV)) {
		g.usePoints()
		return g.method(ty, name), g.pointConv(cv), func(g *G) (Val, *GrpV) {
			p := g.c.grpSym(cv.name, "P", nil)
			return g.newPtr(p), p
		}
	})
}

func cofactorObs(r *Run, cv *curve, arch string) {
	r.group(arch+"/"+cv.name+".ScaleByCofactor and subgroup test", func(g *G) {
		g.use(arch)
		g.useFQ()
		g.useFQ2()
		g.in.runInit(modPath)
		g.start()
		g.usePoints()
		p := g.c.grpSym(cv.name, "P", nil)
		fn := g.method(cv.aff, "ScaleByCofactor")
		pp := g.newPtr(p)
		mark := len(g.in.panics)
		v := g.callM(cv.aff, "ScaleByCofactor", pp)
		g.sameGrp("ScaleByCofactor multiplies by the cofactor", g.where(fn), v, g.c.grpScale(p, nconst(cv.cofactor())), g.pointConv(cv))
		g.ob("ScaleByCofactor: operand unchanged", veq(g.deref(pp), p), g.where(fn), "becomes %s", g.c.showV(g.deref(pp)))
		g.noPanics("ScaleByCofactor", mark, g.where(fn))
		g.start()
		pp = g.newPtr(p)
		fn = g.method(cv.aff, "IsInCorrectSubgroupAssumingOnCurve")
		mark = len(g.in.panics)
		v = g.callM(cv.aff, "IsInCorrectSubgroupAssumingOnCurve", pp)
		ok, why := g.sameCond(g.boolOf(v), g.c.grpIsZero(g.c.grpScale(p, nconst(bigR))))
		g.ob("the subgroup test is true exactly when r times the point is the identity", ok, g.where(fn), "%s", why)
		g.ob("subgroup test: operand unchanged", veq(g.deref(pp), p), g.where(fn), "becomes %s", g.c.showV(g.deref(pp)))
		g.noPanics("subgroup test", mark, g.where(fn))
	})
}

// cofactor is #E/r computed from the curve parameter.
func (cv *curve) cofactor() *big.Int {
	x := new(big.Int).Neg(new(big.Int).SetUint64(0xd201000000010000))
	pw := func(n int64) *big.Int { return new(big.Int).Exp(x, big.NewInt(n), nil) }
	if cv.name == "G1" { // (x-1)^2/3
		y := new(big.Int).Sub(x, big.NewInt(1))
		y.Mul(y, y)
		return y.Div(y, big.NewInt(3))
	}
	// (x^8 - 4x^7 + 5x^6 - 4x^4 + 6x^3 - 4x^2 - 4x + 13)/9
	r := big.NewInt(13)
	for _, t := range [][2]int64{{8, 1}, {7, -4}, {6, 5}, {4, -4}, {3, 6}, {2, -4}, {1, -4}} {
		r.Add(r, new(big.Int).Mul(pw(t[0]), big.NewInt(t[1])))
	}
	return r.Div(r, big.NewInt(9))
}

func init() {
	register("C13", 3000, func(r *Run) {
		for _, arch := range bothArch {
			for i := range curves {
				cv := &curves[i]
				for _, ty := range []string{cv.aff, cv.proj} {
					pointMul(r, cv, arch, ty, "Mul", mulFQ)
					pointMul(r, cv, arch, ty, "MulFR", mulFR)
				}
				if cv.name == "G2" {
					pointMul(r, cv, arch, cv.aff, "MulBig", mulBig)
				}
				cofactorObs(r, cv, arch)
			}
		}
	})
}

// powKind is one exponentiation routine.
type powKind struct {
	ty, name string
	one      bool
	scalar   string
}

func init() {
	register("C09", 3000, func(r *Run) {
		for _, arch := range bothArch {
			for _, k := range []powKind{
				{"FQ", "Exp", true, "FQ"}, {"FQ2", "Exp", true, "FQ"}, {"FQ6", "Exp", true, "FQ"}, {"FQ12", "Exp", true, "FQ"}, {"FR", "Exp", true, "FR"},
				{"FQ", "MulBits", false, "FQ"}, {"FR", "MulBits", false, "FR"}, {"FQ2", "MulBits", false, "big"},
			} {
				k := k
				sc := map[string]mulKind{"FQ": mulFQ, "FR": mulFR, "big": mulBig}[k.scalar]
				mulObs(r, k.ty+"."+k.name, arch, sc, func(g *G) (*ssa.Function, grpConv, func(g *G) (Val, *GrpV)) {
					g.useMonoid(k.ty, k.one)
					return g.method(k.ty, k.name), monoConv(k.ty, k.one), func(g *G) (Val, *GrpV) {
						p := g.c.grpSym(k.ty, "a", nil)
						if k.ty == "FR" {
							return g.newPtr(&StructV{[]Val{g.newPtr(p)}}), p
						}
						return g.newPtr(p), p
					}
				})
			}
			for _, ty := range []string{"FQ", "FR"} {
				for _, n := range []int{0, 1, 20, 32, 48, 64} {
					ty, n := ty, n
					r.group(fmt.Sprintf("%s/%s.MulBytes/%d bytes", arch, ty, n), func(g *G) {
						g.use(arch)
						g.useFQ()
						g.useFQ2()
						g.in.runInit(modPath)
						g.start()
						g.useMonoid(ty, false)
						fn := g.method(ty, "MulBytes")
						p := g.c.grpSym(ty, "a", nil)
						var el Val = g.newPtr(p)
						if ty == "FR" {
							el = g.newPtr(&StructV{[]Val{el}})
						}
						var bs []Val
						for i := 0; i < n; i++ {
							bs = append(bs, IntV{g.c.wordSym(fmt.Sprintf("b%d_", i), 8)})
						}
						sl := g.in.newSlice(&g.st, bs)
						mark := len(g.in.panics)
						v := g.callA(fn, el, sl)
						g.bytesWeights(fmt.Sprintf("%s.MulBytes of %d bytes: every bit counts with its own power of two", ty, n), g.where(fn), v, monoConv(ty, false), bs, p)
						g.ob("MulBytes: bytes unchanged", veqs(bs, g.in.sliceElems(nil, &g.st, sl)), g.where(fn), "changed")
						g.noPanics("MulBytes", mark, g.where(fn))
					})
				}
			}
		}
	})
}

// bytesWeights decides that v is N times p where N is the integer whose
// binary digits are the bits of bs, in some order of the bits of each byte,
// the bytes being big-endian.
func (g *G) bytesWeights(name, where string, v Val, conv grpConv, bs []Val, p *GrpV) {
	c := g.c
	orders := map[string]func(i, j int) int{
		"bits from the most significant":  func(i, j int) int { return 8*(len(bs)-1-i) + j },
		"bits from the least significant": func(i, j int) int { return 8*(len(bs)-1-i) + 7 - j },
	}
	for _, w := range orders {
		N := nint(0)
		for i, b := range bs {
			x := b.(IntV).p
			for j := 0; j < 8; j++ {
				bit := c.floor(x, j, c.base).Sub(c.floor(x, j+1, c.base).Scale(zi(2)))
				N = N.Add(bit.Scale(Z{pow2(w(i, j))}))
			}
		}
		st := g.st
		ok := true
		var shown string
		fr := &Frame{in: g.in, fn: g.P.fn(modPath, "init")}
		grpGet(g.in, fr, &st, v, PtrV{}, conv, func(st *State, gr *GrpV, cell PtrV) Val {
			d := c.grpAdd(gr, c.grpScale(p, N.Neg()))
			if len(d.t) != 0 {
				ok = false
				shown = c.showGrp(gr)
			}
			return nil
		})
		if ok {
			g.ob(name, true, where, "")
			return
		}
		_ = shown
	}
	g.ob(name, false, where, "the multiplier is not the integer of those bytes")
}
