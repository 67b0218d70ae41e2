package main

// Byte sequences of symbolic length: a buffer object holds a *SeqV and SymV
// stands for the slice covering the whole of it.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// SymV is a slice of a buffer of symbolic length; lo and hi are the bounds
// (numbered polynomials; 0 is the start, respectively the end, of the buffer).
type SymV struct{ obj, lo, hi int }

// newSeq allocates a buffer with the given content.
func (in *Interp) newSeq(st *State, s *SeqV) SymV { return SymV{obj: in.newObj(st, s)} }

// maxLen bounds the length of a message: int, with room to add to it.
func (c *Ctx) maxLen() *big.Int {
	if c.int32 {
		return big.NewInt(1<<31 - 1<<16)
	}
	return new(big.Int).Lsh(big.NewInt(1), 48)
}

func (c *Ctx) polyID(p *NPoly) int {
	k := p.Key()
	for i, q := range c.polys {
		if q.Key() == k {
			return i + 1
		}
	}
	c.polys = append(c.polys, p)
	return len(c.polys)
}

// splitSeq makes pos a boundary between parts of s: it is that of part number
// at.  Filled parts are cut where needed.
func (in *Interp) splitSeq(fr *Frame, st *State, s *SeqV, pos *NPoly) (out *SeqV, at int) {
	c := in.c
	acc := nint(0)
	for i, g := range s.segs {
		rest := pos.Sub(acc)
		if z := nconstOf(rest); z != nil && z.Sign() == 0 {
			return s, i
		}
		n := nint(1)
		if g.b == nil {
			n = g.n
			if g.fill {
				lo, _ := c.bounds(rest, in.f(st))
				_, hi := c.bounds(rest.Sub(n), in.f(st))
				if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Sign() <= 0 {
					segs := append([]Seg(nil), s.segs[:i]...)
					segs = append(segs, fillSegs(rest)...)
					at := len(segs)
					segs = append(segs, fillSegs(n.Sub(rest))...)
					return &SeqV{append(segs, s.segs[i+1:]...)}, at
				}
			}
			if lo, _ := c.bounds(rest.Sub(n), in.f(st)); lo == nil || lo.Sign() < 0 {
				in.fail(fr, fr.site, "position %s of %s", c.show(pos), c.showV(s))
			}
		}
		acc = acc.Add(n)
	}
	if z := nconstOf(pos.Sub(acc)); z == nil || z.Sign() != 0 {
		in.fail(fr, fr.site, "position %s of %s", c.show(pos), c.showV(s))
	}
	return s, len(s.segs)
}

// fillSegs are n zero bytes.
func fillSegs(n *NPoly) []Seg {
	if z := nconstOf(n); z != nil && z.IsInt64() && z.Int64() <= 256 {
		var r []Seg
		for k := int64(0); k < z.Int64(); k++ {
			b := iconst(0)
			r = append(r, Seg{b: &b})
		}
		return r
	}
	return []Seg{{name: "zeros:" + n.Key(), n: n, fill: true}}
}

// window is the part of a buffer with content s that v covers: parts a to b.
func (in *Interp) window(fr *Frame, st *State, v SymV, s *SeqV) (out *SeqV, a, b int) {
	a = 0
	if v.lo > 0 {
		s, a = in.splitSeq(fr, st, s, in.c.polys[v.lo-1])
	}
	b = len(s.segs)
	if v.hi > 0 {
		s, b = in.splitSeq(fr, st, s, in.c.polys[v.hi-1])
	}
	if b < a {
		in.fail(fr, fr.site, "bounds of a slice of %s", in.c.showV(s))
	}
	return s, a, b
}

// seqOf is the content of v when the buffer holds s.
func (in *Interp) seqOf(fr *Frame, st *State, v SymV, s Val) *SeqV {
	q, ok := s.(*SeqV)
	if !ok {
		in.fail(fr, fr.site, "content of %s is not decided", in.c.showV(v))
	}
	q, a, b := in.window(fr, st, v, q)
	r := &SeqV{append([]Seg(nil), q.segs[a:b]...)}
	for i := range r.segs {
		r.segs[i].id = 0
	}
	return r
}

// setSeq changes the content of a buffer; buffers it may share storage with
// through append are unknown from then on.
func (in *Interp) setSeq(st *State, obj int, s *SeqV) {
	if in.writes != nil {
		in.writes[obj] = true
	}
	st.heap = st.heap.set(obj, s)
	in.spoilShared(st, obj)
}

// spoilShared forgets the buffers that may share storage with obj.
func (in *Interp) spoilShared(st *State, obj int) {
	if len(in.seqShare[obj]) == 0 {
		return
	}
	seen := map[int]bool{obj: true}
	var rec func(o int)
	rec = func(o int) {
		for _, x := range in.seqShare[o] {
			if !seen[x] {
				seen[x] = true
				in.spoil(st, x)
				rec(x)
			}
		}
	}
	rec(obj)
}

// spoil forgets the content of a buffer.
func (in *Interp) spoil(st *State, o int) {
	if s, ok := st.heap.get(o).(*SeqV); ok {
		in.nSpoil++
		if in.writes != nil {
			in.writes[o] = true
		}
		st.heap = st.heap.set(o, &SeqV{[]Seg{{name: fmt.Sprintf("overwritten%d", in.nSpoil), n: s.length()}}})
	}
}

// seqAddr is the address of one byte of a buffer.
func (in *Interp) seqAddr(fr *Frame, st *State, v SymV, idx *NPoly, pos token.Pos) Val {
	return in.fork(st, st.heap.get(v.obj), func(st *State, h Val) Val {
		c := in.c
		s, ok := h.(*SeqV)
		if !ok {
			in.fail(fr, pos, "element address of %s", c.showV(h))
		}
		n := in.seqOf(fr, st, v, s).length()
		bad := c.bdd.or(c.lt0(idx, in.f(st)), c.bdd.not(c.lt0(idx.Sub(n), in.f(st))))
		if c.bdd.and(st.cond, bad) != bFalse {
			in.fail(fr, pos, "index %s of %s", c.show(idx), c.showV(s))
		}
		if v.lo > 0 {
			idx = idx.Add(c.polys[v.lo-1])
		}
		s, at := in.splitSeq(fr, st, s, idx)
		if s.segs[at].b == nil {
			s, _ = in.splitSeq(fr, st, s, idx.Add(nint(1)))
		}
		if s.segs[at].b == nil {
			in.fail(fr, pos, "element address of %s", c.showV(s))
		}
		if s.segs[at].id == 0 {
			s = &SeqV{append([]Seg(nil), s.segs...)}
			in.segID++
			s.segs[at].id = in.segID
		}
		st.heap = st.heap.set(v.obj, s) // the same bytes
		return PtrV{v.obj, pathAdd("", s.segs[at].id)}
	})
}

// seqComp is one numbered byte.
func (s *SeqV) comp(id int) *IntV {
	for _, g := range s.segs {
		if g.id == id {
			return g.b
		}
	}
	return nil
}

func (s *SeqV) setComp(id int, v IntV) *SeqV {
	for i, g := range s.segs {
		if g.id == id {
			r := &SeqV{append([]Seg(nil), s.segs...)}
			r.segs[i].b = &v
			return r
		}
	}
	return nil
}

// seqSym is a byte sequence of arbitrary content and length.
func (c *Ctx) seqSym(name string) *SeqV {
	return &SeqV{[]Seg{{name: name, n: c.intSym("len:"+name, new(big.Int), c.maxLen())}}}
}

func (s *SeqV) length() *NPoly {
	n := nint(0)
	for _, g := range s.segs {
		if g.b != nil {
			n = n.Add(nint(1))
		} else {
			n = n.Add(g.n)
		}
	}
	return n
}

// key identifies the content.
func (c *Ctx) seqKey(s *SeqV) string {
	k := ""
	for _, g := range s.segs {
		if g.b != nil {
			k += "b" + g.b.p.Key() + ";"
		} else if z := nconstOf(g.n); z != nil && z.Sign() == 0 {
			continue
		} else {
			k += "s" + g.name + ";"
		}
	}
	return k
}

// content reads the bytes of any byte slice.
func (in *Interp) content(fr *Frame, st *State, v Val) *SeqV {
	switch x := v.(type) {
	case SymV:
		return in.seqOf(fr, st, x, in.c.simp(st.heap.get(x.obj), st.cond))
	case SliceV:
		r := &SeqV{}
		for _, e := range in.sliceElems(fr, st, x) {
			iv := IntV{in.asInt(fr, e)}
			r.segs = append(r.segs, Seg{b: &iv})
		}
		return r
	}
	in.fail(fr, 0, "bytes expected, got %s", in.c.showV(v))
	return nil
}

func (in *Interp) lenHook(fr *Frame, st *State, v Val) Val {
	if s, ok := v.(SymV); ok {
		return IntV{in.content(fr, st, s).length()}
	}
	return nil
}

func (in *Interp) makeSym(fr *Frame, st *State, i *ssa.MakeSlice, l Val, full bool) Val {
	if b, ok := i.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		if n, ok := l.(IntV); ok {
			if lo, _ := in.c.bounds(n.p, in.f(st)); lo != nil && lo.Sign() >= 0 {
				v := in.newSeq(st, &SeqV{fillSegs(n.p)})
				in.seqFull[v.obj] = full
				return v
			}
		}
	}
	in.fail(fr, i.Pos(), "make with symbolic length %s", in.c.showV(l))
	return nil
}

func (in *Interp) copyHook(fr *Frame, st *State, dst, src Val) Val {
	d, ok := dst.(SymV)
	if !ok {
		if _, isSym := src.(SymV); !isSym {
			return nil
		}
		if s, ok := dst.(SliceV); ok && s.len == 0 {
			return iconst(0)
		}
		return nil
	}
	s := in.content(fr, st, src)
	h, ok := in.c.simp(st.heap.get(d.obj), st.cond).(*SeqV)
	if !ok {
		in.fail(fr, fr.site, "content of %s is not decided", in.c.showV(d))
	}
	// the window, and how much of it is overwritten
	h, a, b := in.window(fr, st, d, h)
	w := (&SeqV{h.segs[a:b]}).length()
	n := s.length()
	if !w.Equal(n) {
		lo, hi := in.c.bounds(w.Sub(n), in.f(st))
		switch {
		case lo != nil && lo.Sign() >= 0:
			var k int
			sub, k := in.splitSeq(fr, st, &SeqV{h.segs[a:b]}, n)
			h = &SeqV{append(append(append([]Seg(nil), h.segs[:a]...), sub.segs...), h.segs[b:]...)}
			b = a + k
		case hi != nil && hi.Sign() <= 0:
			sub, k := in.splitSeq(fr, st, s, w)
			s, n = &SeqV{sub.segs[:k]}, w
		default:
			in.fail(fr, fr.site, "copy between buffers of lengths %s and %s", in.c.show(w), in.c.show(n))
		}
	}
	in.setSeq(st, d.obj, &SeqV{append(append(append([]Seg(nil), h.segs[:a]...), s.segs...), h.segs[b:]...)})
	return IntV{n}
}

// appendHook: the result is a new buffer; writing behind the destination in
// place is only harmless when the destination has no spare capacity.
func (in *Interp) appendHook(fr *Frame, st *State, dst, src Val) Val {
	if s, ok := dst.(SliceV); ok && s.len < s.cap {
		// the spare room may or may not be reused: keep its old content out of reach
		if in.writes != nil {
			in.writes[s.obj] = true
		}
		in.setElems(fr, st, SliceV{s.obj, s.path, s.off + s.len, s.cap - s.len, s.cap - s.len}, func() []Val {
			r := make([]Val, s.cap-s.len)
			for i := range r {
				r[i] = &OpqV{"overwritten", nil}
			}
			return r
		}())
	}
	a, b := in.content(fr, st, dst), in.content(fr, st, src)
	base := 0
	switch x := dst.(type) {
	case SliceV:
		if x.len < x.cap {
			base = x.obj
		}
	case SymV:
		if x.hi > 0 {
			if s, ok := in.c.simp(st.heap.get(x.obj), st.cond).(*SeqV); !ok || !s.length().Equal(in.c.polys[x.hi-1]) {
				in.fail(fr, fr.site, "append inside %s", in.c.showV(dst))
			}
		}
		if !in.seqFull[x.obj] {
			base = x.obj
		}
	}
	r := in.newSeq(st, &SeqV{append(append([]Seg(nil), a.segs...), b.segs...)})
	if base != 0 {
		// an earlier append to the same slice may have used the same storage
		for _, o := range in.seqApp[base] {
			in.spoil(st, o)
		}
		in.seqApp[base] = append(in.seqApp[base], r.obj)
		in.seqShare[base] = append(in.seqShare[base], r.obj)
		in.seqShare[r.obj] = append(in.seqShare[r.obj], base)
	}
	return r
}

func (in *Interp) sliceSym(fr *Frame, st *State, x Val, i *ssa.Slice, env []Val) Val {
	s, ok := x.(SymV)
	if !ok || i.Max != nil {
		return nil
	}
	c := in.c
	lo, hi := nint(0), in.content(fr, st, s).length()
	n := hi
	if i.Low != nil {
		lo = in.asInt(fr, fr.get(env, st, i.Low))
	}
	if i.High != nil {
		hi = in.asInt(fr, fr.get(env, st, i.High))
	}
	// only bounds within the length: room behind it is not modelled
	f := in.f(st)
	for _, p := range []*NPoly{lo, hi.Sub(lo), n.Sub(hi)} {
		if b, _ := c.bounds(p, f); b == nil || b.Sign() < 0 {
			in.fail(fr, i.Pos(), "bounds %s, %s of %s", c.show(lo), c.show(hi), c.showV(s))
		}
	}
	w := s
	base := nint(0)
	if s.lo > 0 {
		base = c.polys[s.lo-1]
	}
	if z := nconstOf(lo); z == nil || z.Sign() != 0 {
		w.lo = c.polyID(base.Add(lo))
	}
	if !hi.Equal(n) {
		w.hi = c.polyID(base.Add(hi))
	}
	return w
}

// seqCmp decides the order of two byte sequences: equal, less.
func (in *Interp) seqCmp(st *State, a, b *SeqV) (eq, lt B) {
	c, d := in.c, in.c.bdd
	ka, kb := c.seqKey(a), c.seqKey(b)
	if ka == kb {
		return bTrue, bFalse
	}
	conc := true
	for _, s := range append(append([]Seg(nil), a.segs...), b.segs...) {
		conc = conc && s.b != nil
	}
	if conc {
		eq = bTrue
		lt = bFalse
		for i := 0; i < len(a.segs) || i < len(b.segs); i++ {
			if i == len(a.segs) {
				return bFalse, d.or(lt, eq)
			}
			if i == len(b.segs) {
				return bFalse, lt
			}
			x, y := a.segs[i].b.p, b.segs[i].b.p
			lt = d.or(lt, d.and(eq, c.lt0(x.Sub(y), in.f(st))))
			eq = d.and(eq, c.eq0(x.Sub(y), in.f(st)))
		}
		return
	}
	sw := ka > kb
	if sw {
		ka, kb = kb, ka
		a, b = b, a
	}
	eq = d.atom(c.mkAtom("seqeq:"+ka+"|"+kb, Atom{kind: aOpaque, name: c.showV(a) + " == " + c.showV(b)}))
	lt = d.atom(c.mkAtom("seqlt:"+ka+"|"+kb, Atom{kind: aOpaque, name: c.showV(a) + " < " + c.showV(b)}))
	lt = d.and(lt, d.not(eq))
	if sw {
		lt = d.and(d.not(lt), d.not(eq))
	}
	return
}

// seqOrder is the condition that the comparisons of all seqs are those of a
// total order.
func (g *G) seqOrder(ss []*SeqV) B {
	d := g.c.bdd
	r := bTrue
	n := len(ss)
	eq := make([][]B, n)
	lt := make([][]B, n)
	for i := range ss {
		eq[i], lt[i] = make([]B, n), make([]B, n)
		for j := range ss {
			eq[i][j], lt[i][j] = g.in.seqCmp(&g.st, ss[i], ss[j])
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := 0; k < n; k++ {
				if i == j || j == k || i == k {
					continue
				}
				le1, le2 := d.or(lt[i][j], eq[i][j]), d.or(lt[j][k], eq[j][k])
				r = d.and(r, d.or(d.not(d.and(le1, le2)), d.or(lt[i][k], eq[i][k])))
				r = d.and(r, d.or(d.not(d.and(eq[i][j], eq[j][k])), eq[i][k]))
			}
		}
	}
	return r
}

// useBytes installs bytes.Equal, bytes.Compare and sort.Slice.
func (in *Interp) useBytes() {
	c := in.c
	two := func(f func(st *State, a, b *SeqV) Val) Intrinsic {
		return func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return each(in, fr, st, a, func(st *State, vs []Val) Val {
				var go1 func(k int, acc []*SeqV, st *State) Val
				go1 = func(k int, acc []*SeqV, st *State) Val {
					if k == 2 {
						return f(st, acc[0], acc[1])
					}
					if s, ok := vs[k].(SymV); ok {
						return in.fork(st, st.heap.get(s.obj), func(st *State, v Val) Val {
							return go1(k+1, append(acc[:k:k], in.seqOf(fr, st, s, v)), st)
						})
					}
					return go1(k+1, append(acc[:k:k], in.content(fr, st, vs[k])), st)
				}
				return go1(0, nil, st)
			})
		}
	}
	in.intr["bytes.Equal"] = two(func(st *State, a, b *SeqV) Val {
		eq, _ := in.seqCmp(st, a, b)
		return BoolV{c.bdd.restrict(eq, st.cond)}
	})
	in.intr["bytes.Compare"] = two(func(st *State, a, b *SeqV) Val {
		eq, lt := in.seqCmp(st, a, b)
		return c.gamma(c.bdd.restrict(eq, st.cond), iconst(0), c.gamma(c.bdd.restrict(lt, st.cond), iconst(-1), iconst(1)))
	})
	sortSlice := func(in *Interp, fr *Frame, st *State, a []Val) Val {
		iv, ok := a[0].(IfaceV)
		if !ok {
			in.fail(fr, 0, "sort of %s", c.showV(a[0]))
		}
		s, ok := iv.v.(SliceV)
		f, ok2 := a[1].(*FuncV)
		if !ok || !ok2 {
			in.fail(fr, 0, "sort of %s", c.showV(iv.v))
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				lv := in.invoke(fr, fr.site, st, f.fn, []Val{iconst(int64(j)), iconst(int64(j - 1))}, f.free)
				if st.cond == bFalse {
					return nil
				}
				b := in.asBool(fr, st, lv)
				es := in.sliceElems(fr, st, SliceV{s.obj, s.path, s.off + j - 1, 2, 2})
				in.setElems(fr, st, SliceV{s.obj, s.path, s.off + j - 1, 2, 2}, []Val{c.gamma(b, es[1], es[0]), c.gamma(b, es[0], es[1])})
			}
		}
		return &TupleV{}
	}
	in.intr["sort.Slice"] = sortSlice
	in.intr["sort.SliceStable"] = sortSlice
}

// bytesVal is a fresh slice of the given bytes.
func (in *Interp) bytesVal(st *State, s *SeqV) Val {
	var vs []Val
	for _, g := range s.segs {
		if g.b == nil {
			return in.newSeq(st, s)
		}
		vs = append(vs, *g.b)
	}
	return in.newSlice(st, vs)
}

// useBuffers models bytes.Join and the writing side of bytes.Buffer.
func (in *Interp) useBuffers() {
	noErr := IfaceV{}
	in.intr["bytes.Join"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		l, ok := a[0].(SliceV)
		if !ok {
			in.fail(fr, fr.site, "join of %s", in.c.showV(a[0]))
		}
		r := &SeqV{}
		for i, e := range in.sliceElems(fr, st, l) {
			if i > 0 {
				r.segs = append(r.segs, in.content(fr, st, a[1]).segs...)
			}
			r.segs = append(r.segs, in.content(fr, st, e).segs...)
		}
		return in.bytesVal(st, r)
	}
	buf := func(a Val) PtrV { p := a.(PtrV); return PtrV{p.obj, pathAdd(p.path, 0)} }
	old := func(fr *Frame, st *State, a Val) *SeqV { return in.content(fr, st, in.load(fr, st, buf(a), fr.site)) }
	add := func(fr *Frame, st *State, a Val, s *SeqV) {
		in.store(fr, st, buf(a), in.bytesVal(st, &SeqV{append(append([]Seg(nil), old(fr, st, a).segs...), s.segs...)}), fr.site)
	}
	in.intr["(*bytes.Buffer).Write"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s := in.content(fr, st, a[1])
		add(fr, st, a[0], s)
		return &TupleV{[]Val{IntV{s.length()}, noErr}}
	}
	in.intr["(*bytes.Buffer).WriteByte"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		iv := IntV{in.asInt(fr, a[1])}
		add(fr, st, a[0], &SeqV{[]Seg{{b: &iv}}})
		return noErr
	}
	in.intr["(*bytes.Buffer).WriteString"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		s, ok := in.asSeq(a[1])
		if !ok {
			in.fail(fr, fr.site, "text %s", in.c.showV(a[1]))
		}
		add(fr, st, a[0], s)
		return &TupleV{[]Val{IntV{s.length()}, noErr}}
	}
	in.intr["(*bytes.Buffer).Grow"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return &TupleV{} }
	in.intr["(*bytes.Buffer).Bytes"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return in.load(fr, st, buf(a[0]), fr.site)
	}
	in.intr["(*bytes.Buffer).String"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return old(fr, st, a[0]) }
	in.intr["(*bytes.Buffer).Len"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return IntV{old(fr, st, a[0]).length()}
	}
}
