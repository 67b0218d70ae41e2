package main

// Models of the standard-library functions the repository uses.

import (
	"go/token"
	"go/types"
	"math/big"
)

type modInfo struct {
	e *NPoly
	m *big.Int
}

func (in *Interp) addStd() {
	c := in.c
	I := in.intr
	in.zeroAt["math/big.Int"] = func(in *Interp) Val { return BigV{nint(0)} }

	// math/bits
	u64 := func(p *NPoly, st *State) *NPoly { return c.wrap(p, 64, false, in.f(st)) }
	I["math/bits.Add64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s := in.asInt(fr, a[0]).Add(in.asInt(fr, a[1])).Add(in.asInt(fr, a[2]))
		o := u64(s, st)
		cy := c.floor(s, 64, in.f(st))
		if lo, hi := c.bounds(in.asInt(fr, a[2]), in.f(st)); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(1)) > 0 {
			in.fail(fr, token.NoPos, "bits.Add64 with a carry that may exceed 1: %s", in.c.showV(a[2]))
		}
		return &TupleV{[]Val{IntV{o}, IntV{cy}}}
	}
	I["math/bits.Sub64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		if lo, hi := c.bounds(in.asInt(fr, a[2]), in.f(st)); lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(1)) > 0 {
			in.fail(fr, token.NoPos, "bits.Sub64 with a borrow that may exceed 1: %s", in.c.showV(a[2]))
		}
		s := in.asInt(fr, a[0]).Sub(in.asInt(fr, a[1])).Sub(in.asInt(fr, a[2]))
		bo := c.floor(s, 64, in.f(st)) // -borrow
		return &TupleV{[]Val{IntV{s.Sub(bo.Scale(Z{pow2(64)}))}, IntV{bo.Neg()}}}
	}
	I["math/bits.Mul64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s := in.asInt(fr, a[0]).Mul(in.asInt(fr, a[1]))
		h := c.floor(s, 64, in.f(st))
		return &TupleV{[]Val{IntV{h}, IntV{s.Sub(h.Scale(Z{pow2(64)}))}}}
	}
	bitlen := func(in *Interp, fr *Frame, st *State, v Val, f func(n int) Val) Val {
		return in.fork(st, v, func(st *State, v Val) Val {
			x := in.asInt(fr, v)
			lo, hi := c.bounds(x, in.f(st))
			if lo == nil || hi == nil || lo.Sign() < 0 {
				in.fail(fr, token.NoPos, "bit length of %s", c.show(x))
			}
			a, b := lo.BitLen(), hi.BitLen()
			if a == b {
				return f(a)
			}
			g := &GammaV{}
			rest := bTrue
			for k := a; k <= b; k++ {
				l := bTrue
				if k < b {
					l = c.lt0(x.Sub(nconst(pow2(k))), in.f(st))
				}
				g.alts = append(g.alts, Alt{c.bdd.and(rest, l), f(k)})
				rest = c.bdd.and(rest, c.bdd.not(l))
			}
			return g
		})
	}
	I["math/bits.Len64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return bitlen(in, fr, st, a[0], func(n int) Val { return iconst(int64(n)) })
	}
	I["math/bits.LeadingZeros64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return bitlen(in, fr, st, a[0], func(n int) Val { return iconst(int64(64 - n)) })
	}
	for _, n := range []string{"Len8", "Len16", "Len32", "Len"} {
		I["math/bits."+n] = I["math/bits.Len64"]
	}
	I["math/bits.LeadingZeros8"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return bitlen(in, fr, st, a[0], func(n int) Val { return iconst(int64(8 - n)) })
	}

	// math/big
	big1 := func(in *Interp, fr *Frame, st *State, p Val) *NPoly {
		v := in.load(fr, st, p, token.NoPos)
		b, ok := v.(BigV)
		if !ok {
			in.fail(fr, token.NoPos, "big.Int expected, got %s", c.showV(v))
		}
		return b.p
	}
	set := func(in *Interp, fr *Frame, st *State, p Val, v *NPoly) Val {
		in.store(fr, st, p, BigV{v}, token.NoPos)
		return p
	}
	// arguments may be alternatives: fork on each
	un := func(f func(in *Interp, fr *Frame, st *State, a []Val, x *NPoly) Val) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			k := 0
			if len(a) > 1 {
				k = 1
			}
			return in.fork(st, a[k], func(st *State, p Val) Val {
				b := append([]Val(nil), a...)
				b[k] = p
				v := in.load(fr, st, p, token.NoPos)
				return in.fork(st, v, func(st *State, v Val) Val {
					bv, ok := v.(BigV)
					if !ok {
						in.fail(fr, token.NoPos, "big.Int expected, got %s", c.showV(v))
					}
					return f(in, fr, st, b, bv.p)
				})
			})
		}
	}
	B := "(*math/big.Int)."
	I["math/big.NewInt"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return in.newPtr(st, BigV{in.asInt(fr, a[0])})
	}
	I[B+"Set"] = un(func(in *Interp, fr *Frame, st *State, a []Val, x *NPoly) Val { return set(in, fr, st, a[0], x) })
	I[B+"SetUint64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return set(in, fr, st, a[0], in.asInt(fr, a[1]))
	}
	I[B+"SetInt64"] = I[B+"SetUint64"]
	I[B+"SetString"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s, ok := a[1].(StrV)
		base, ok2 := in.constInt(a[2])
		if !ok || !ok2 {
			// opaque string: either refused or some integer
			if o, isO := a[1].(*OpqV); isO {
				bad := c.bdd.atom(c.mkAtom("parse:"+c.showV(o), Atom{kind: aOpaque, name: "string does not parse"}))
				v := c.intSym("parsed:"+c.showV(o)+c.showV(a[2]), nil, nil)
				set(in, fr, st, a[0], v)
				return &TupleV{[]Val{c.gamma(bad, PtrV{}, a[0]), BoolV{c.bdd.not(bad)}}}
			}
			in.fail(fr, token.NoPos, "SetString on %s", c.showV(a[1]))
		}
		x, good := new(big.Int).SetString(s.s, base)
		if !good {
			return &TupleV{[]Val{PtrV{}, BoolV{bFalse}}}
		}
		set(in, fr, st, a[0], nconst(x))
		return &TupleV{[]Val{a[0], BoolV{bTrue}}}
	}
	bin := func(f func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			x, y := big1(in, fr, st, a[1]), big1(in, fr, st, a[2])
			return set(in, fr, st, a[0], f(in, fr, st, x, y))
		}
	}
	I[B+"Add"] = bin(func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly { return x.Add(y) })
	I[B+"Sub"] = bin(func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly { return x.Sub(y) })
	I[B+"Mul"] = bin(func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly { return x.Mul(y) })
	I[B+"And"] = bin(func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly {
		cx, cy := nconstOf(x), nconstOf(y)
		if cx != nil && cy != nil {
			return nconst(new(big.Int).And(cx, cy))
		}
		if cy == nil {
			x, cy = y, cx
		}
		if cy == nil || cy.Sign() < 0 {
			in.fail(fr, token.NoPos, "big And of %s and %s", c.show(x), c.show(y))
		}
		return c.andConst(x, cy, in.f(st))
	})
	I[B+"Mod"] = bin(func(in *Interp, fr *Frame, st *State, x, y *NPoly) *NPoly {
		m := nconstOf(y)
		if m == nil || m.Sign() <= 0 {
			in.fail(fr, token.NoPos, "big Mod by %s", c.show(y))
		}
		return c.modSym(x, m, in.f(st))
	})
	I[B+"Lsh"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		n, ok := in.constInt(a[2])
		if !ok {
			in.fail(fr, token.NoPos, "big Lsh by %s", c.showV(a[2]))
		}
		return set(in, fr, st, a[0], big1(in, fr, st, a[1]).Scale(Z{pow2(n)}))
	}
	I[B+"Rsh"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		n, ok := in.constInt(a[2])
		if !ok {
			in.fail(fr, token.NoPos, "big Rsh by %s", c.showV(a[2]))
		}
		return set(in, fr, st, a[0], c.floor(big1(in, fr, st, a[1]), n, in.f(st)))
	}
	tri := func(st *State, x *NPoly) Val {
		lt := c.bdd.restrict(c.lt0(x, in.f(st)), st.cond)
		eq := c.bdd.restrict(c.eq0(x, in.f(st)), st.cond)
		return c.gamma(lt, iconst(-1), c.gamma(eq, iconst(0), iconst(1)))
	}
	I[B+"Cmp"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return tri(st, big1(in, fr, st, a[0]).Sub(big1(in, fr, st, a[1])))
	}
	I[B+"Sign"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return tri(st, big1(in, fr, st, a[0])) }
	I[B+"BitLen"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		x := big1(in, fr, st, a[0])
		lo, hi := c.bounds(x, in.f(st))
		if lo != nil && hi != nil && lo.Sign() >= 0 && lo.BitLen() == hi.BitLen() {
			return iconst(int64(lo.BitLen()))
		}
		if lo != nil && hi != nil && hi.Sign() < 0 && lo.BitLen() == hi.BitLen() {
			return iconst(int64(lo.BitLen()))
		}
		// an abstract length: comparisons with constants are decided on x
		nlo, nhi := new(big.Int), (*big.Int)(nil)
		if blo, bhi := c.bounds(x, c.base); blo != nil && blo.Sign() >= 0 {
			nlo = big.NewInt(int64(blo.BitLen()))
			if bhi != nil {
				nhi = big.NewInt(int64(bhi.BitLen()))
			}
		} else if bhi != nil && bhi.Sign() <= 0 {
			nlo = big.NewInt(int64(bhi.BitLen()))
			if blo != nil {
				nhi = big.NewInt(int64(blo.BitLen()))
			}
		}
		n := c.intSym("bitlen:"+x.Key(), nlo, nhi)
		for v := range n.vars() {
			c.syms[v].data = x
			c.syms[v].class = "bitlen"
		}
		return IntV{n}
	}
	I[B+"Uint64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return IntV{c.wrap(big1(in, fr, st, a[0]), 64, false, in.f(st))}
	}
	I[B+"Int64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return IntV{c.wrap(big1(in, fr, st, a[0]), 64, true, in.f(st))}
	}
	I[B+"IsUint64"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		x := big1(in, fr, st, a[0])
		neg := c.lt0(x, in.f(st))
		sm := c.lt0(x.Sub(nconst(pow2(64))), in.f(st))
		return BoolV{c.bdd.and(c.bdd.not(neg), sm)}
	}
	I[B+"Bit"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		n, ok := in.constInt(a[1])
		if !ok {
			in.fail(fr, token.NoPos, "big Bit %s", c.showV(a[1]))
		}
		x := big1(in, fr, st, a[0])
		return IntV{c.floor(x, n, in.f(st)).Sub(c.floor(x, n+1, in.f(st)).Scale(zi(2)))}
	}
	I[B+"SetBit"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		n, ok := in.constInt(a[2])
		x := big1(in, fr, st, a[1])
		b, ok2 := in.constInt(a[3])
		if !ok || !ok2 {
			in.fail(fr, token.NoPos, "big SetBit")
		}
		cur := c.floor(x, n, in.f(st)).Sub(c.floor(x, n+1, in.f(st)).Scale(zi(2)))
		return set(in, fr, st, a[0], x.Sub(cur.Scale(Z{pow2(n)})).Add(nconst(new(big.Int).Lsh(big.NewInt(int64(b)), uint(n)))))
	}
	I[B+"Exp"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		x, y, m := nconstOf(big1(in, fr, st, a[1])), nconstOf(big1(in, fr, st, a[2])), nconstOf(big1(in, fr, st, a[3]))
		if x == nil || y == nil || m == nil {
			in.fail(fr, token.NoPos, "big Exp of symbolic values")
		}
		return set(in, fr, st, a[0], nconst(new(big.Int).Exp(x, y, m)))
	}
	I[B+"SetBytes"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return set(in, fr, st, a[0], in.bytesInt(fr, st, a[1]))
	}
	I[B+"Bytes"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		x := big1(in, fr, st, a[0])
		lo, hi := c.bounds(x, in.f(st))
		if lo == nil || hi == nil || lo.Sign() < 0 {
			in.fail(fr, token.NoPos, "big Bytes of %s", c.show(x))
		}
		if (lo.BitLen()+7)/8 != (hi.BitLen()+7)/8 {
			in.fail(fr, token.NoPos, "big Bytes of %s: length not decided", c.show(x))
		}
		return in.newSlice(st, in.intBytes(st, x, (lo.BitLen()+7)/8))
	}
	I[B+"FillBytes"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		x := big1(in, fr, st, a[0])
		s, ok := a[1].(SliceV)
		if !ok {
			in.fail(fr, token.NoPos, "FillBytes into %s", c.showV(a[1]))
		}
		over := c.bdd.not(c.lt0(x.Sub(nconst(pow2(8*s.len))), in.f(st)))
		in.panicIf(fr, st, over, "math/big: buffer too small to fit value", token.NoPos)
		in.setElems(fr, st, s, in.intBytes(st, x, s.len))
		return s
	}
	// errors, fmt, log
	errT := types.Universe.Lookup("error").Type()
	mkErr := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return IfaceV{errT, &OpqV{"error", nil}}
	}
	I["errors.New"] = mkErr
	I["fmt.Errorf"] = mkErr
	opq := func(tag string) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val { return &OpqV{tag, a} }
	}
	I["fmt.Sprintf"] = opq("sprintf")
	I["fmt.Sprint"] = opq("sprint")
	I["(*math/big.Int).String"] = opq("bigstring")
	I["(*math/big.Int).Text"] = opq("bigtext")
	lp := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		in.panic(fr, st, "explicit panic (log)", fr.site)
		return nil
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf"} {
		I[n] = lp
	}
}

// modSym is the residue of x modulo m in [0,m).
func (c *Ctx) modSym(x *NPoly, m *big.Int, f *Facts) *NPoly {
	if z := nconstOf(x); z != nil {
		return nconst(new(big.Int).Mod(z, m))
	}
	lo, hi := c.bounds(x, f)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return x
	}
	r := &NPoly{t: map[Mono]Z{}}
	for mo, co := range x.t {
		k := new(big.Int).Mod(co.Int, m)
		if k.Sign() != 0 {
			r.t[mo] = Z{k}
		}
	}
	s := c.intSym("mod"+m.String()+":"+r.Key(), new(big.Int), new(big.Int).Sub(m, big.NewInt(1)))
	for v := range s.vars() {
		c.syms[v].class = "mod"
		c.syms[v].data = modInfo{r, m}
	}
	return s
}

// intBytes is the n-byte big-endian encoding of x.
func (in *Interp) intBytes(st *State, x *NPoly, n int) []Val {
	f := in.f(st)
	out := make([]Val, n)
	for i := range out {
		lo := in.c.floor(x, 8*(n-1-i), f)
		out[i] = IntV{lo.Sub(in.c.floor(x, 8*(n-i), f).Scale(zi(256)))}
	}
	return out
}

// bytesInt is the big-endian integer of a byte slice.
func (in *Interp) bytesInt(fr *Frame, st *State, v Val) *NPoly {
	s, ok := v.(SliceV)
	if !ok {
		in.fail(fr, token.NoPos, "bytes of %s", in.c.showV(v))
	}
	r := nint(0)
	for _, e := range in.sliceElems(fr, st, s) {
		r = r.Scale(zi(256)).Add(in.asInt(fr, e))
	}
	return r
}
