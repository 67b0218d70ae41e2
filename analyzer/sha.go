package main

// Models of crypto/sha256, hash.Hash and crypto/rand.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// digest are the 32 bytes of the hash of some content: opaque, a function of
// the content.
func (c *Ctx) digest(s *SeqV) []Val {
	k := "sha256:" + c.seqKey(s)
	out := make([]Val, 32)
	for i := range out {
		v := c.intSym(fmt.Sprintf("%s[%d]", k, i), new(big.Int), big.NewInt(255))
		for x := range v.vars() {
			if len(c.syms[x].name) > 60 {
				c.syms[x].name = fmt.Sprintf("digest%d[%d]", x, i)
			}
		}
		out[i] = IntV{v}
	}
	return out
}

// anyHash is a caller's hash in any state: its sum is known, nothing else is.
func anyHash(in *Interp, fr *Frame, v Val) *OpqV {
	if o, ok := v.(*OpqV); ok && o.tag == "hash" {
		return o
	}
	return nil
}

func (in *Interp) useSha() {
	in.useBuffers()
	noErr := IfaceV{}
	hasher := func(in *Interp, fr *Frame, st *State, v Val) int {
		o, ok := v.(*OpqV)
		if !ok || o.tag != "sha256" {
			in.fail(fr, token.NoPos, "hash state expected, got %s", in.c.showV(v))
		}
		return o.args[0].(PtrV).obj
	}
	in.intr["crypto/sha256.New"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		p := in.newPtr(st, &SeqV{})
		return IfaceV{fr.fn.Signature.Results().At(0).Type(), &OpqV{"sha256", []Val{p}}}
	}
	in.intr["crypto/sha256.Sum256"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return &ArrayV{in.c.digest(in.content(fr, st, a[0]))}
	}
	state := func(in *Interp, fr *Frame, st *State, o int) *SeqV {
		s, ok := in.c.simp(st.heap.get(o), st.cond).(*SeqV)
		if !ok {
			in.fail(fr, token.NoPos, "the bytes hashed are not decided")
		}
		return s
	}
	in.intr["invoke:Write"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		o := hasher(in, fr, st, a[0])
		s, p := state(in, fr, st, o), in.content(fr, st, a[1])
		st.heap = st.heap.set(o, &SeqV{append(append([]Seg(nil), s.segs...), p.segs...)})
		return &TupleV{[]Val{IntV{p.length()}, noErr}}
	}
	in.intr["invoke:Reset"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		st.heap = st.heap.set(hasher(in, fr, st, a[0]), &SeqV{})
		return &TupleV{}
	}
	in.intr["invoke:Size"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		if o := anyHash(in, fr, a[0]); o != nil {
			return iconst(int64(len(o.args)))
		}
		return iconst(32)
	}
	in.intr["invoke:Sum"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		var d []Val
		if o := anyHash(in, fr, a[0]); o != nil {
			d = o.args
		} else {
			d = in.c.digest(state(in, fr, st, hasher(in, fr, st, a[0])))
		}
		n := len(d)
		switch b := a[1].(type) {
		case SliceV:
			if b.len == 0 && b.cap == 0 {
				return in.newSlice(st, d)
			}
			es := append(append([]Val(nil), in.sliceElems(fr, st, b)...), d...)
			if b.len+n <= b.cap {
				in.setElems(fr, st, SliceV{b.obj, b.path, b.off + b.len, n, n}, d)
				return SliceV{b.obj, b.path, b.off, b.len + n, b.cap}
			}
			return in.newSlice(st, es)
		}
		return in.appendHook(fr, st, a[1], in.newSlice(st, d))
	}
	in.intr["io.WriteString"] = nil
	delete(in.intr, "io.WriteString")
}

// randCall is one draw from crypto/rand.
type randCall struct {
	reader Val
	max    *big.Int
	err    B
	val    *NPoly
	cond   B // path condition of the call
}

// useRand models crypto/rand.Int: an error, or an integer uniform below max.
func (g *G) useRand(calls *[]randCall) {
	c := g.c
	errT := types.Universe.Lookup("error").Type()
	g.in.intr["crypto/rand.Int"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		b, ok := in.load(fr, st, a[1], fr.site).(BigV)
		if !ok || nconstOf(b.p) == nil {
			in.fail(fr, token.NoPos, "random integer below %s", c.showV(a[1]))
		}
		m := nconstOf(b.p)
		i := len(*calls)
		e := c.bdd.atom(c.mkAtom(fmt.Sprintf("randerr%d", i), Atom{kind: aOpaque, name: fmt.Sprintf("draw %d fails", i)}))
		v := c.intSym(fmt.Sprintf("rand%d", i), new(big.Int), new(big.Int).Sub(m, big.NewInt(1)))
		*calls = append(*calls, randCall{a[0], m, e, v, st.cond})
		p := in.newPtr(st, BigV{v})
		return &TupleV{[]Val{c.gamma(e, PtrV{}, p), c.gamma(e, IfaceV{errT, &OpqV{"rand error", []Val{iconst(int64(i))}}}, IfaceV{})}}
	}
}

// readCall is one read from an arbitrary source of bytes.
type readCall struct {
	reader    Val
	err, cond B
	bytes     []Val
}

// useReader models reads: an error, or arbitrary bytes in the slice given (at
// least one for Read, all of them for io.ReadFull).
func (g *G) useReader(reads *[]readCall) {
	c := g.c
	errT := types.Universe.Lookup("error").Type()
	read := func(full bool) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			s, ok := a[1].(SliceV)
			if !ok {
				in.fail(fr, token.NoPos, "read into %s", c.showV(a[1]))
			}
			i, n := len(*reads), s.len
			e := c.bdd.atom(c.mkAtom(fmt.Sprintf("readerr%d", i), Atom{kind: aOpaque, name: fmt.Sprintf("read %d fails", i)}))
			rc := readCall{a[0], e, st.cond, nil}
			for k := 0; k < n; k++ {
				rc.bytes = append(rc.bytes, IntV{c.intSym(fmt.Sprintf("read%d[%d]", i, k), new(big.Int), big.NewInt(255))})
			}
			in.setElems(fr, st, s, rc.bytes)
			*reads = append(*reads, rc)
			var cnt Val = iconst(int64(n))
			if !full {
				cnt = IntV{c.intSym(fmt.Sprintf("nread%d", i), new(big.Int), big.NewInt(int64(n)))}
			}
			return &TupleV{[]Val{cnt, c.gamma(e, IfaceV{errT, &OpqV{"read error", []Val{iconst(int64(i))}}}, IfaceV{})}}
		}
	}
	g.in.intr["invoke:Read"] = read(false)
	g.in.intr["io.ReadFull"] = read(true)
}

// newReader is an arbitrary source of bytes.
func newReader() Val {
	return IfaceV{types.Universe.Lookup("any").Type(), &OpqV{"reader", nil}}
}
