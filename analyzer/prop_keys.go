package main

// C25: serialization of keys, derivation of keys from integers, random keys
// and field elements.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// codecReg remembers the encodings of points met.
type codecReg struct {
	bytes []Val
	p     *GrpV
}

// useCodec installs the contracts of the point codecs (C15, C16): the
// compressed encoding is an injective function of the point, decompression
// inverts it and refuses everything that is not an encoding of a point of
// the subgroup.
func (g *G) useCodec() {
	for i := range curves {
		g.useCurveCodec(&curves[i])
	}
}

func (g *G) codecBytes(cv *curve, p *GrpV) []Val {
	n := 48
	if cv.fq2 {
		n = 96
	}
	k := "enc" + cv.name + ":" + p.Key()
	var out []Val
	for i := 0; i < n; i++ {
		out = append(out, IntV{g.c.intSym(fmt.Sprintf("%s[%d]", k, i), new(big.Int), big.NewInt(255))})
	}
	return out
}

func (g *G) useCurveCodec(cv *curve) {
	in, c := g.in, g.c
	conv := g.pointConv(cv)
	errT := types.Universe.Lookup("error").Type()
	var regs []codecReg
	enc := func(tag string) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return grpGets(in, fr, st, a[:1], conv, func(st *State, gs []*GrpV, _ []PtrV) Val {
				b := g.codecBytes(cv, gs[0])
				regs = append(regs, codecReg{b, gs[0]})
				return &ArrayV{b}
			})
		}
	}
	dec := func(tag string) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return in.fork(st, a[0], func(st *State, v Val) Val {
				arr, ok := v.(*ArrayV)
				if !ok {
					in.fail(fr, token.NoPos, "encoding expected, got %s", c.showV(v))
				}
				for _, r := range regs {
					if veqs(r.bytes, arr.e) {
						return &TupleV{[]Val{in.newPtr(st, r.p), IfaceV{}}}
					}
				}
				b, p := g.decoded(cv, tag, arr)
				pt := in.newPtr(st, p)
				return c.gamma(b, &TupleV{[]Val{pt, IfaceV{}}}, &TupleV{[]Val{PtrV{}, IfaceV{errT, &OpqV{"refused", nil}}}})
			})
		}
	}
	for _, n := range []string{"Compress", "Decompress", "Decompress%sUnchecked"} {
		name := n + cv.name
		if n == "Decompress%sUnchecked" {
			name = fmt.Sprintf(n, cv.name)
		}
		f := g.P.fn(modPath, name)
		if f == nil {
			continue
		}
		switch n {
		case "Compress":
			in.intr[f.String()] = enc(n)
		default:
			in.intr[f.String()] = dec(n)
		}
	}
}

// decoded is the condition that bytes are accepted and the point they
// encode.
func (g *G) decoded(cv *curve, tag string, arr *ArrayV) (B, *GrpV) {
	k := fmt.Sprintf("%s%s", tag, cv.name)
	for _, e := range arr.e {
		k += "," + e.(IntV).p.Key()
	}
	nm := "point " + tag + " gives"
	at := g.c.bdd.atom(g.c.mkAtom("accept:"+k, Atom{kind: aOpaque, name: tag + cv.name + " accepts the bytes"}))
	p := g.c.grpSym(cv.name, k, nil)
	for id := range p.t {
		g.c.syms[id].name = nm
	}
	return at, p
}

// frameOfScalar: out are the big-endian bytes of X.
func (g *G) beEqual(name, where string, v Val, X *NPoly, n int) {
	arr, ok := v.(*ArrayV)
	if !ok || len(arr.e) != n {
		g.ob(name, false, where, "%d bytes expected, got %s", n, g.c.showV(v))
		return
	}
	s := nint(0)
	for i, e := range arr.e {
		p, isInt := g.c.simp(e, g.st.cond).(IntV)
		if !isInt {
			g.ob(name, false, where, "byte %d is %s", i, g.c.showV(e))
			return
		}
		if ok, why := g.inRange(p.p, new(big.Int), big.NewInt(255), g.st.cond); !ok {
			g.ob(name, false, where, "byte %d: %s", i, why)
			return
		}
		s = s.Scale(zi(256)).Add(p.p)
	}
	ok, why := g.isZeroInt(s.Sub(X), g.st.cond)
	g.ob(name, ok, where, "%s", why)
}

// isErr is the condition that v is a non-nil error.
func (g *G) isErr(v Val) B {
	switch x := g.c.simp(v, g.st.cond).(type) {
	case IfaceV:
		if x.typ == nil {
			return bFalse
		}
		return bTrue
	case *GammaV:
		r := bFalse
		for _, a := range x.alts {
			r = g.c.bdd.or(r, g.c.bdd.and(a.b, g.isErr(a.v)))
		}
		return r
	}
	panic(Unresolved{"error expected, got " + g.c.showV(v)})
}

func keyOps(r *Run, s *scheme, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+s.pkg+"."+name, func(g *G) {
			s.use(g, arch)
			g.useCodec()
			g.useBigConv()
			g.start()
			f(g)
		})
	}
	grp("secret key bytes", func(g *G) {
		ser, de := s.method(g, "SecretKey", "Serialize"), s.fn(g, "DeserializeSecretKey")
		sk, k := s.secret(g, "k")
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(ser, sk)
		g.beEqual("Serialize: the 32 big-endian bytes of the scalar", g.where(ser), v, k, 32)
		w := g.callA(de, v)
		g.frScalar("DeserializeSecretKey: gives back an equal key", g.where(de), w, k)
		g.frame("secret key bytes change nothing", g.where(ser), h0)
		g.noPanics("secret key bytes", mark, g.where(ser))
	})
	grp("DeserializeSecretKey", func(g *G) {
		de := s.fn(g, "DeserializeSecretKey")
		b, bs := g.bytesOf("b", 32)
		x := nint(0)
		for _, sg := range bs.segs {
			x = x.Scale(zi(256)).Add(sg.b.p)
		}
		g.assume(g.c.lt0(x.Sub(nconst(bigR)), g.c.base))
		mark := len(g.in.panics)
		v := g.callA(de, b)
		g.frScalar("DeserializeSecretKey: the big-endian integer of any 32 bytes below r", g.where(de), v, x)
		g.noPanics("DeserializeSecretKey", mark, g.where(de))
	})
	grp("KeyFromFQRepr", func(g *G) {
		fn := s.fn(g, "KeyFromFQRepr")
		w, x := g.wordsBelow("i", 4, bigR)
		p := g.newPtr(w)
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, p)
		g.frScalar("KeyFromFQRepr: the key is the integer", g.where(fn), v, x)
		g.frame("KeyFromFQRepr changes nothing", g.where(fn), h0)
		g.noPanics("KeyFromFQRepr", mark, g.where(fn))
	})
	grp("GetFRElement", func(g *G) {
		fn := s.method(g, "SecretKey", "GetFRElement")
		sk, k := s.secret(g, "k")
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, sk)
		g.frScalar("GetFRElement: the scalar of the key", g.where(fn), v, k)
		g.frame("GetFRElement changes nothing", g.where(fn), h0)
		g.noPanics("GetFRElement", mark, g.where(fn))
	})
	grp("RandKey", func(g *G) {
		fn := s.fn(g, "RandKey")
		g.drawn(fn.Name(), g.where(fn), func(rd Val) Val { return g.callA(fn, rd) }, bigR, 1, true, func(v Val, xs []*NPoly) {
			g.frScalar("RandKey: the key is the integer drawn", g.where(fn), v, xs[0])
		})
	})
	for _, k := range []struct {
		ty   string
		cv   *curve
		mk   func(g *G, n string) (PtrV, *GrpV)
		name string
	}{
		{"PublicKey", s.key, func(g *G, n string) (PtrV, *GrpV) { return s.pub(g, n) }, "public key"},
		{"Signature", s.sig, func(g *G, n string) (PtrV, *GrpV) { return s.sigv(g, n) }, "signature"},
	} {
		k := k
		grp(k.name+" bytes", func(g *G) {
			ser, de := s.method(g, k.ty, "Serialize"), s.fn(g, "Deserialize"+k.ty)
			conv := g.pointConv(k.cv)
			p, P := k.mk(g, "P")
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(ser, p)
			arr, ok := v.(*ArrayV)
			g.ob("Serialize: the compressed encoding of the point", ok && veqs(arr.e, g.codecBytes(k.cv, P)), g.where(ser), "gives %s", g.c.showV(v))
			w := g.both(g.callA(de, v))
			g.sameGrp("Deserialize"+k.ty+": gives back an equal "+k.name, g.where(de), w[0], P, conv)
			g.ob("Deserialize"+k.ty+": accepts what Serialize gives", g.c.bdd.and(g.st.cond, g.isErr(w[1])) == bFalse, g.where(de), "an error is possible")
			g.frame(k.name+" bytes change nothing", g.where(ser), h0)
			g.noPanics(k.name+" bytes", mark, g.where(ser))
		})
		grp("Deserialize"+k.ty, func(g *G) {
			g.deserialize(s, k.ty, k.cv)
		})
	}
}

// deserializeOps: keys and signatures come only from the checked decoders.
func deserializeOps(r *Run, s *scheme, arch string) {
	for _, k := range []struct {
		ty string
		cv *curve
	}{{"PublicKey", s.key}, {"Signature", s.sig}} {
		k := k
		r.group(arch+"/"+s.pkg+".Deserialize"+k.ty, func(g *G) {
			s.use(g, arch)
			g.useCodec()
			g.start()
			g.deserialize(s, k.ty, k.cv)
		})
	}
}

// deserialize decides that a key or signature is made only by checked
// decompression of exactly the bytes given.
func (g *G) deserialize(s *scheme, ty string, cv *curve) {
	de := s.fn(g, "Deserialize"+ty)
	conv := g.pointConv(cv)
	n := 48
	if cv.fq2 {
		n = 96
	}
	b, _ := g.bytesOf("b", n)
	h0, mark := g.st.heap, len(g.in.panics)
	w := g.both(g.callA(de, b))
	good, P := g.decoded(cv, "Decompress", b)
	ok, why := g.sameCond(g.c.bdd.not(g.isErr(w[1])), good)
	g.ob("Deserialize"+ty+": accepted exactly when checked decompression accepts the bytes", ok, g.where(de), "%s", why)
	st0 := g.st
	g.assume(good)
	g.sameGrp("Deserialize"+ty+": the point decompressed", g.where(de), w[0], P, conv)
	g.st = st0
	g.assume(g.c.bdd.not(good))
	yes, no := g.isNil(w[0])
	g.ob("Deserialize"+ty+": nothing is returned with the error", yes && !no, g.where(de), "returns %s", g.c.showV(w[0]))
	g.st = st0
	g.frame("Deserialize"+ty+" changes nothing", g.where(de), h0)
	g.noPanics("Deserialize"+ty, mark, g.where(de))
}

// drawn decides that a result is made of n draws below mod from the reader
// given, and that errors are returned.
func (g *G) drawn(name, where string, f func(rd Val) Val, mod *big.Int, n int, ptr bool, check func(v Val, xs []*NPoly)) {
	var calls []randCall
	g.useRand(&calls)
	rd := newReader()
	h0, mark := g.st.heap, len(g.in.panics)
	w := g.both(f(rd))
	if !g.ob(fmt.Sprintf("%s: makes %d draw(s)", name, n), len(calls) == n, where, "%d draws", len(calls)) {
		return
	}
	bad := bFalse
	var xs []*NPoly
	for i, c := range calls {
		g.ob(fmt.Sprintf("%s: draw %d is from the reader given", name, i), veq(c.reader, rd), where, "reads %s", g.c.showV(c.reader))
		g.ob(fmt.Sprintf("%s: draw %d is uniform below the field order", name, i), c.max.Cmp(mod) == 0, where, "bound is %v", c.max)
		bad = g.c.bdd.or(bad, c.err)
		xs = append(xs, c.val)
	}
	ok, why := g.sameCond(g.isErr(w[1]), bad)
	g.ob(name+": an error exactly when a draw fails", ok, where, "%s", why)
	st0 := g.st
	if ptr {
		g.assume(bad)
		yes, no := g.isNil(w[0])
		g.ob(name+": nothing is returned with the error", yes && !no, where, "returns %s", g.c.showV(w[0]))
		g.st = st0
	}
	g.assume(g.c.bdd.not(bad))
	check(g.c.simp(w[0], g.st.cond), xs)
	g.st = st0
	g.frame(name+" changes nothing", where, h0)
	g.noPanics(name, mark, where)
}

// randPoint decides the sampling of points: the reader given is the only
// source, a failing read or draw is returned, and a point returned is the
// cofactor multiple of a curve point whose x was drawn.
func (g *G) randPoint(cv *curve, name string) {
	g.c.grpGamma = true
	g.useSqrt()
	conv := g.useCoordMul(cv)
	g.useScale(cv, conv)
	fn := g.fn(name)
	where := g.where(fn)
	var draws []randCall
	var reads []readCall
	g.useRand(&draws)
	g.useReader(&reads)
	rd := newReader()
	g.in.loopCap = 2
	h0, mark := g.st.heap, len(g.in.panics)
	w := g.both(g.callA(fn, rd))
	F, dd := g.c.F, g.c.bdd
	bad := bFalse
	for i, c := range reads {
		g.ob(fmt.Sprintf("%s: read %d is from the reader given", name, i), veq(c.reader, rd.(IfaceV).v) || veq(c.reader, rd), where, "reads %s", g.c.showV(c.reader))
		bad = dd.or(bad, dd.and(c.cond, c.err))
	}
	for i, c := range draws {
		g.ob(fmt.Sprintf("%s: draw %d is from the reader given", name, i), veq(c.reader, rd), where, "reads %s", g.c.showV(c.reader))
		g.ob(fmt.Sprintf("%s: draw %d is uniform below the field order", name, i), c.max.Cmp(bigQ) == 0, where, "bound is %v", c.max)
		bad = dd.or(bad, dd.and(c.cond, c.err))
	}
	e := g.isErr(w[1])
	ok, why := g.sameCond(e, bad)
	g.ob(name+": an error exactly when a read or draw fails", ok && len(draws) > 0, where, "%s", why)
	st0 := g.st
	g.assume(e)
	yes, no := g.isNil(w[0])
	g.ob(name+": nothing is returned with the error", yes && !no, where, "returns %s", g.c.showV(w[0]))
	g.st = st0
	g.assume(dd.not(e))
	ok, why = true, "nothing is returned"
	n := 0
	fr := &Frame{in: g.in, fn: fn}
	grpGet(g.in, fr, &g.st, g.c.simp(w[0], g.st.cond), PtrV{}, conv, func(st *State, gr *GrpV, _ PtrV) Val {
		n++
		var pt *Elem
		for _, p := range g.coordPts(cv) {
			for k, co := range gr.t {
				if _, has := p.p.t[k]; has && len(gr.t) == 1 {
					if z := nconstOf(co); z != nil && new(big.Int).Abs(z).Cmp(cv.cofactor()) == 0 {
						pt = p.x
					}
				}
			}
		}
		if pt == nil {
			ok, why = false, "returns "+g.c.showGrp(gr)
			return nil
		}
		es := []*Elem{pt}
		if cv.fq2 {
			c0, c1 := F.parts(pt)
			es = []*Elem{c0, c1}
		}
		used := map[int]bool{}
		for _, e := range es {
			hit := -1
			for i, d := range draws {
				if z, _ := g.isZeroInt(g.elemInt(e).Sub(d.val), st.cond); z && !used[i] {
					hit = i
				}
			}
			if hit < 0 {
				ok, why = false, fmt.Sprintf("the x coordinate %s is not drawn", F.show(e))
				return nil
			}
			used[hit] = true
		}
		return nil
	})
	g.ob(name+": the cofactor multiple of a point of the curve whose x was drawn", ok && n > 0, where, "%s", why)
	g.st = st0
	g.frame(name+" changes nothing", where, h0)
	g.noPanics(name, mark, where)
}

func randOps(r *Run, arch string) {
	for i, n := range []string{"RandG1", "RandG2"} {
		i, n := i, n
		r.group(arch+"/"+n, func(g *G) {
			g.hashLevel(arch)
			g.randPoint(&curves[i], n)
		})
	}
	for i, n := range []string{"RandFQ6", "RandFQ12"} {
		k, n := 6*(i+1), n
		r.group(arch+"/"+n, func(g *G) {
			g.hashLevel(arch)
			fn := g.fn(n)
			g.drawn(n, g.where(fn), func(rd Val) Val { return g.callA(fn, rd) }, bigQ, k, true, func(v Val, xs []*NPoly) {
				var es []*Elem
				for _, e := range g.coefs(v) {
					c0, c1 := g.c.F.parts(e)
					es = append(es, c0, c1)
				}
				used := map[int]bool{}
				bad := ""
				for _, e := range es {
					hit := -1
					for i, x := range xs {
						if z, _ := g.isZeroInt(g.elemInt(e).Sub(x), g.st.cond); z && !used[i] {
							hit = i
						}
					}
					if hit < 0 {
						bad = g.c.F.show(e)
					}
					used[hit] = true
				}
				g.ob(n+": every coefficient is a draw of its own", bad == "" && len(es) == len(xs), g.where(fn), "the coefficient %s is not", bad)
			})
		})
	}

	for _, n := range []struct {
		name string
		mod  *big.Int
		n    int
	}{{"RandFR", bigR, 1}, {"RandFQ", bigQ, 1}, {"RandFQ2", bigQ, 2}} {
		n := n
		r.group(arch+"/"+n.name, func(g *G) {
			g.hashLevel(arch)
			fn := g.fn(n.name)
			g.drawn(n.name, g.where(fn), func(rd Val) Val { return g.callA(fn, rd) }, n.mod, n.n, n.name == "RandFR", func(v Val, xs []*NPoly) {
				what := n.name + ": the integers drawn"
				if n.name == "RandFR" {
					g.frScalar(what, g.where(fn), v, xs[0])
					return
				}
				e := g.el(v)
				es := []*Elem{e}
				if n.n == 2 {
					c0, c1 := g.c.F.parts(e)
					es = []*Elem{c0, c1}
				}
				g.sameInts(what, g.where(fn), es, xs)
			})
		})
	}
}

func init() {
	register("C25", 60, func(r *Run) {
		for _, a := range bothArch {
			for i := range schemes {
				keyOps(r, &schemes[i], a)
			}
			randOps(r, a)
		}
	})
}

// both are the two results of a call.
func (g *G) both(v Val) [2]Val { return [2]Val{g.tuple(v, 0), g.tuple(v, 1)} }
