package main

// C21 (signing and verifying), C22 (aggregation).

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scheme is one placement of keys and signatures.
type scheme struct {
	pkg      string
	key, sig *curve
	hash     string
	domain   bool
}

var schemes = []scheme{
	{"g1pubs", &curves[0], &curves[1], "HashG2", true},
	{"g2pubs", &curves[1], &curves[0], "HashG1", false},
}

func (s *scheme) path() string { return modPath + "/" + s.pkg }

func (s *scheme) fn(g *G, name string) *ssa.Function {
	return g.need(g.P.fn(s.path(), name), s.pkg+"."+name)
}

func (s *scheme) method(g *G, ty, name string) *ssa.Function {
	return g.need(g.P.method(s.path(), ty, name), s.pkg+"."+ty+"."+name)
}

// use prepares the analysis at the level of the scheme.
func (s *scheme) use(g *G, arch string) {
	g.use(arch)
	g.useFQ()
	g.useFQ2()
	g.in.runInit(modPath)
	g.in.runInit(s.path())
	g.usePoints()
	g.useMul()
	g.useFR()
	g.useHash()
	g.usePairing()
	g.in.useBytes()
	g.start()
}

func (s *scheme) gen(g *G, cv *curve) *GrpV { return g.c.grpSym(cv.name, "gen"+cv.name, nil) }

// pair orders the arguments of the pairing.
func (s *scheme) pair(g *G, key, sig *GrpV) *GrpV {
	if s.key.name == "G1" {
		return g.c.pair(key, sig)
	}
	return g.c.pair(sig, key)
}

func (s *scheme) secret(g *G, name string) (PtrV, *NPoly) {
	f, k := g.newFR(name)
	return g.newPtr(&StructV{[]Val{f}}), k
}

// wrap makes a key or signature object holding p.
func (s *scheme) wrap(g *G, p *GrpV) PtrV { return g.newPtr(&StructV{[]Val{g.newPtr(p)}}) }

func (s *scheme) pub(g *G, name string) (PtrV, *GrpV) {
	p := g.c.grpSym(s.key.name, name, nil)
	return s.wrap(g, p), p
}

func (s *scheme) sigv(g *G, name string) (PtrV, *GrpV) {
	p := g.c.grpSym(s.sig.name, name, nil)
	return s.wrap(g, p), p
}

// bytesOf makes a byte array value with symbolic content.
func (g *G) bytesOf(name string, n int) (*ArrayV, *SeqV) {
	a, s := &ArrayV{}, &SeqV{}
	for i := 0; i < n; i++ {
		b := IntV{g.c.wordSym(fmt.Sprintf("%s%d_", name, i), 8)}
		a.e = append(a.e, b)
		s.segs = append(s.segs, Seg{b: &b})
	}
	return a, s
}

// frame checks that nothing that existed before the call changed, except
// what is reachable from the allowed objects.
func (g *G) frame(name, where string, h0 *PMap, allowed ...Val) {
	ok := map[int]bool{}
	var mark func(v Val)
	mark = func(v Val) {
		if p, isP := v.(PtrV); isP && p.obj != 0 {
			ok[p.obj] = true
		}
	}
	for _, a := range allowed {
		mark(a)
	}
	var bad []string
	pdiff(h0, g.st.heap, func(k int, p, q Val) {
		if p == nil || ok[k] || len(bad) > 3 {
			return
		}
		if q == nil || !g.sameVal(p, q) {
			n := g.in.objName[k]
			if n == "" {
				n = fmt.Sprintf("object %d", k)
			}
			bad = append(bad, fmt.Sprintf("%s was %s, becomes %s", n, g.c.showV(p), g.c.showV(q)))
		}
	})
	g.ob(name, len(bad) == 0, where, "%v", bad)
}

// sameVal is equality of values on every path of the current condition.
func (g *G) sameVal(p, q Val) bool {
	return veq(p, q) || veq(g.c.simp(p, g.st.cond), g.c.simp(q, g.st.cond))
}

func (s *scheme) accepts(g *G, name, where string, v Val, want B) {
	ok, why := g.sameCond(g.boolOf(v), want)
	g.ob(name, ok, where, "%s", why)
}

// eqn is the condition that the pairing value e is one.
func (s *scheme) eqn(g *G, e *GrpV) B { return g.c.grpIsZero(e) }

func (g *G) neg(a *GrpV) *GrpV { return g.c.grpScale(a, nint(-1)) }

// messages of different kinds.
var msgKinds = []string{"any message", "empty message", "nil message"}

func (g *G) message(kind, name string) (Val, *SeqV) {
	switch kind {
	case "nil message":
		return SliceV{}, &SeqV{}
	case "empty message":
		return g.in.newSlice(&g.st, nil), &SeqV{}
	}
	q := g.c.seqSym(name)
	return g.in.newSeq(&g.st, q), q
}

func signOps(r *Run, s *scheme, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+s.pkg+"."+name, func(g *G) {
			s.use(g, arch)
			f(g)
		})
	}
	ck, cs := func(g *G) grpConv { return g.pointConv(s.key) }, func(g *G) grpConv { return g.pointConv(s.sig) }
	grp("PrivToPub", func(g *G) {
		fn := s.fn(g, "PrivToPub")
		sk, k := s.secret(g, "k")
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, sk)
		g.sameGrp("the public key is the generator times the secret scalar", g.where(fn), v, g.c.grpScale(s.gen(g, s.key), k), ck(g))
		g.frame("PrivToPub changes nothing", g.where(fn), h0)
		g.noPanics("PrivToPub", mark, g.where(fn))
	})
	for _, mk := range msgKinds {
		mk := mk
		grp("Sign/"+mk, func(g *G) {
			fn := s.fn(g, "Sign")
			sk, k := s.secret(g, "k")
			m, ms := g.message(mk, "m")
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, m, sk)
			H := g.hashPoint(s.hash, ms)
			g.sameGrp("the signature is the hash of the message times the secret scalar", g.where(fn), v, g.c.grpScale(H, k), cs(g))
			g.frame("Sign changes nothing", g.where(fn), h0)
			// it verifies under the public key of the same secret
			pk := g.callA(s.fn(g, "PrivToPub"), sk)
			b := g.callA(s.fn(g, "Verify"), m, pk, v)
			s.accepts(g, "a signature verifies under its own public key", g.where(s.fn(g, "Verify")), b, bTrue)
			g.noPanics("Sign", mark, g.where(fn))
		})
		grp("Verify/"+mk, func(g *G) {
			fn := s.fn(g, "Verify")
			m, ms := g.message(mk, "m")
			pk, P := s.pub(g, "P")
			sg, S := s.sigv(g, "S")
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, m, pk, sg)
			H := g.hashPoint(s.hash, ms)
			e := g.c.grpAdd(s.pair(g, s.gen(g, s.key), S), g.neg(s.pair(g, P, H)))
			s.accepts(g, "accepted exactly when e(generator, signature) = e(key, hash of the message)", g.where(fn), v, s.eqn(g, e))
			g.frame("Verify changes nothing", g.where(fn), h0)
			g.noPanics("Verify", mark, g.where(fn))
		})
	}
	for _, id := range []string{"key", "signature", "both"} {
		id := id
		grp("Verify/identity "+id, func(g *G) {
			fn := s.fn(g, "Verify")
			m, ms := g.message("", "m")
			P, S := g.c.grpSym(s.key.name, "P", nil), g.c.grpSym(s.sig.name, "S", nil)
			if id != "signature" {
				P = g.c.grpScale(P, nint(0))
			}
			if id != "key" {
				S = g.c.grpScale(S, nint(0))
			}
			mark := len(g.in.panics)
			v := g.callA(fn, m, s.wrap(g, P), s.wrap(g, S))
			e := g.c.grpAdd(s.pair(g, s.gen(g, s.key), S), g.neg(s.pair(g, P, g.hashPoint(s.hash, ms))))
			s.accepts(g, "identity "+id+": the same equation is checked", g.where(fn), v, s.eqn(g, e))
			g.noPanics("Verify", mark, g.where(fn))
		})
	}
	if !s.domain {
		return
	}
	grp("SignWithDomain", func(g *G) {
		fn := s.fn(g, "SignWithDomain")
		sk, k := s.secret(g, "k")
		m, ms := g.bytesOf("m", 32)
		d, ds := g.bytesOf("d", 8)
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, m, sk, d)
		H := g.hashPoint("HashG2WithDomain", ms, ds)
		g.sameGrp("the signature is the hash of message and domain times the secret scalar", g.where(fn), v, g.c.grpScale(H, k), cs(g))
		g.frame("SignWithDomain changes nothing", g.where(fn), h0)
		pk := g.callA(s.fn(g, "PrivToPub"), sk)
		b := g.callA(s.fn(g, "VerifyWithDomain"), m, pk, v, d)
		s.accepts(g, "a signature verifies under its own public key", g.where(s.fn(g, "VerifyWithDomain")), b, bTrue)
		g.noPanics("SignWithDomain", mark, g.where(fn))
	})
	grp("VerifyWithDomain", func(g *G) {
		fn := s.fn(g, "VerifyWithDomain")
		m, ms := g.bytesOf("m", 32)
		d, ds := g.bytesOf("d", 8)
		pk, P := s.pub(g, "P")
		sg, S := s.sigv(g, "S")
		h0, mark := g.st.heap, len(g.in.panics)
		v := g.callA(fn, m, pk, sg, d)
		H := g.hashPoint("HashG2WithDomain", ms, ds)
		e := g.c.grpAdd(s.pair(g, s.gen(g, s.key), S), g.neg(s.pair(g, P, H)))
		s.accepts(g, "accepted exactly when e(generator, signature) = e(key, hash of message and domain)", g.where(fn), v, s.eqn(g, e))
		g.frame("VerifyWithDomain changes nothing", g.where(fn), h0)
		g.noPanics("VerifyWithDomain", mark, g.where(fn))
	})
}

func ptrSlice(g *G, ps []Val) SliceV { return g.in.newSlice(&g.st, ps) }

func aggregateOps(r *Run, s *scheme, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+s.pkg+"."+name, func(g *G) {
			s.use(g, arch)
			f(g)
		})
	}
	lens := func(base []int, roots ...*ssa.Function) []int {
		return listLens(r.prog(arch), s.path(), base, roots...)
	}
	sigM := func(n string) *ssa.Function { return r.prog(arch).method(s.path(), "Signature", n) }
	type kind struct {
		ty, agg, blank string
		cv             *curve
	}
	for _, k := range []kind{{"Signature", "AggregateSignatures", "NewAggregateSignature", s.sig}, {"PublicKey", "AggregatePublicKeys", "NewAggregatePubkey", s.key}} {
		k := k
		grp(k.blank, func(g *G) {
			fn := s.fn(g, k.blank)
			h0 := g.st.heap
			v := g.callA(fn)
			g.sameGrp("a blank aggregate is the identity", g.where(fn), v, &GrpV{ty: k.cv.name, t: map[int]*NPoly{}}, g.pointConv(k.cv))
			// adding to it leaves the constants alone
			_, P := s.pub(g, "P")
			P = g.c.grpSym(k.cv.name, "P", nil)
			g.callA(s.method(g, k.ty, "Aggregate"), v, s.wrap(g, P))
			g.sameGrp("the first addition gives the element added", g.where(fn), v, P, g.pointConv(k.cv))
			w := g.callA(fn)
			g.sameGrp("a second blank aggregate is still the identity", g.where(fn), w, &GrpV{ty: k.cv.name, t: map[int]*NPoly{}}, g.pointConv(k.cv))
			g.frame(k.blank+" and Aggregate change no shared value", g.where(fn), h0)
		})
		for _, n := range lens([]int{0, 1, 2, 3, 4, 5, 8, 16, 17, 33, 65, 130, 257}, r.prog(arch).fn(s.path(), k.agg)) {
			n := n
			grp(fmt.Sprintf("%s/%d", k.agg, n), func(g *G) {
				fn := s.fn(g, k.agg)
				var ps []Val
				sum := &GrpV{ty: k.cv.name, t: map[int]*NPoly{}}
				for i := 0; i < n; i++ {
					p := g.c.grpSym(k.cv.name, fmt.Sprintf("P%d", i), nil)
					ps = append(ps, s.wrap(g, p))
					sum = g.c.grpAdd(sum, p)
				}
				l := ptrSlice(g, ps)
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, l)
				g.sameGrp(fmt.Sprintf("the sum of all %d", n), g.where(fn), v, sum, g.pointConv(k.cv))
				g.frame(k.agg+" changes nothing", g.where(fn), h0)
				g.noPanics(k.agg, mark, g.where(fn))
			})
		}
		for _, same := range []string{"a different element", "the same element twice", "itself"} {
			same := same
			grp(k.ty+".Aggregate/"+same, func(g *G) {
				fn := s.method(g, k.ty, "Aggregate")
				P, Q := g.c.grpSym(k.cv.name, "P", nil), g.c.grpSym(k.cv.name, "Q", nil)
				a, b := s.wrap(g, P), s.wrap(g, Q)
				want := g.c.grpAdd(P, Q)
				if same == "itself" {
					b, want = a, g.c.grpAdd(P, P)
				}
				h0, mark := g.st.heap, len(g.in.panics)
				g.callA(fn, a, b)
				if same == "the same element twice" {
					g.callA(fn, a, b)
					want = g.c.grpAdd(want, Q)
				}
				g.sameGrp("Aggregate adds "+same, g.where(fn), a, want, g.pointConv(k.cv))
				g.frame("Aggregate changes only its receiver", g.where(fn), h0, a)
				g.noPanics("Aggregate", mark, g.where(fn))
			})
		}
	}
	// aggregate verification
	type shape struct {
		keys, msgs int
		kind       string
	}
	var shapes []shape
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 4; m++ {
			if n != m && n <= 3 && m <= 3 || n == m {
				shapes = append(shapes, shape{n, m, "any messages"})
			}
		}
	}
	for _, n := range []int{2, 3, 6, 20} {
		shapes = append(shapes, shape{n, n, "distinct messages"}, shape{n, n, "first and last equal"}, shape{n, n, "last two the same slice"})
	}
	for _, n := range lens([]int{33, 65, 257}, sigM("VerifyAggregate")) {
		if n >= 2 {
			shapes = append(shapes, shape{n, n, "constant messages"}, shape{n, n, "constant messages, the last two equal"}, shape{n, n, "constant messages, first and last equal"})
		}
		if n >= 5 {
			shapes = append(shapes, shape{n, n - 1, "constant messages"}, shape{n - 1, n, "constant messages"})
		}
	}
	shapes = append(shapes, shape{2, 2, "empty and nil messages"}, shape{1, 1, "empty and nil messages"}, shape{3, 3, "the same key"})
	for _, sh := range shapes {
		sh := sh
		grp(fmt.Sprintf("VerifyAggregate/%d keys, %d messages, %s", sh.keys, sh.msgs, sh.kind), func(g *G) {
			d := g.c.bdd
			fn := s.method(g, "Signature", "VerifyAggregate")
			sg, S := s.sigv(g, "S")
			var ks, ms []Val
			var Ps []*GrpV
			var seqs []*SeqV
			for i := 0; i < sh.keys; i++ {
				k, P := s.pub(g, fmt.Sprintf("P%d", i))
				if sh.kind == "the same key" && i > 0 {
					k, P = ks[0].(PtrV), Ps[0]
				}
				ks, Ps = append(ks, k), append(Ps, P)
			}
			for i := 0; i < sh.msgs; i++ {
				m, q := g.message("", fmt.Sprintf("m%d", i))
				if strings.HasPrefix(sh.kind, "constant messages") {
					k := i
					if i == sh.msgs-1 && strings.HasSuffix(sh.kind, "last two equal") {
						k = i - 1
					} else if i == sh.msgs-1 && strings.HasSuffix(sh.kind, "first and last equal") {
						k = 0
					}
					k = (k*7 + 3) % 65521 // not in order
					q = &SeqV{}
					var bs []Val
					for _, x := range []int{k >> 8, k & 255, 9} {
						b := IntV{nint(int64(x))}
						bs = append(bs, b)
						q.segs = append(q.segs, Seg{b: &b})
					}
					m = g.in.newSlice(&g.st, bs)
				}
				if sh.kind == "first and last equal" && i == sh.msgs-1 {
					q = seqs[0]
					m = g.in.newSeq(&g.st, q)
				}
				if sh.kind == "last two the same slice" && i == sh.msgs-1 {
					m, q = ms[i-1], seqs[i-1]
				}
				if sh.kind == "empty and nil messages" {
					m, q = g.message(msgKinds[2-i], "")
				}
				ms, seqs = append(ms, m), append(seqs, q)
			}
			cond := bTrue
			if sh.kind == "any messages" || sh.kind == "the same key" {
				cond = g.seqOrder(seqs)
			} else if sh.kind != "empty and nil messages" && !strings.HasPrefix(sh.kind, "constant") {
				first := func(i int) int {
					for j := range seqs {
						if g.c.seqKey(seqs[i]) == g.c.seqKey(seqs[j]) {
							return (j*7 + 3) % sh.msgs
						}
					}
					return 0
				}
				for i := range seqs { // a fixed order
					for j := range seqs[:i] {
						if g.c.seqKey(seqs[i]) != g.c.seqKey(seqs[j]) {
							a, b := seqs[j], seqs[i]
							if first(i) < first(j) {
								a, b = b, a
							}
							eq, lt := g.in.seqCmp(&g.st, a, b)
							cond = d.and(cond, d.and(lt, d.not(eq)))
						}
					}
				}
			}
			g.assume(cond)
			want := bFalse
			if sh.keys == sh.msgs {
				want = bTrue
				e := s.pair(g, s.gen(g, s.key), S)
				for i := range seqs {
					for j := range seqs[:i] {
						eq, _ := g.in.seqCmp(&g.st, seqs[i], seqs[j])
						want = d.and(want, d.not(eq))
					}
					e = g.c.grpAdd(e, g.neg(s.pair(g, Ps[i], g.hashPoint(s.hash, seqs[i]))))
				}
				want = d.and(want, s.eqn(g, e))
			}
			kl, ml := ptrSlice(g, ks), ptrSlice(g, ms)
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, sg, kl, ml)
			s.accepts(g, "accepted exactly when counts agree, messages differ and the product of pairings matches", g.where(fn), v, want)
			g.frame("VerifyAggregate changes nothing", g.where(fn), h0)
			g.noPanics("VerifyAggregate", mark, g.where(fn))
		})
	}
	for _, n := range lens([]int{0, 1, 2, 3, 8, 17, 65}, sigM("VerifyAggregateCommon")) {
		for _, mk := range msgKinds {
			n, mk := n, mk
			if n > 3 && mk != msgKinds[0] {
				continue
			}
			grp(fmt.Sprintf("VerifyAggregateCommon/%d keys, %s", n, mk), func(g *G) {
				fn := s.method(g, "Signature", "VerifyAggregateCommon")
				sg, S := s.sigv(g, "S")
				m, q := g.message(mk, "m")
				var ks []Val
				sum := &GrpV{ty: s.key.name, t: map[int]*NPoly{}}
				for i := 0; i < n; i++ {
					k, P := s.pub(g, fmt.Sprintf("P%d", i))
					ks = append(ks, k)
					sum = g.c.grpAdd(sum, P)
				}
				kl := ptrSlice(g, ks)
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, sg, kl, m)
				e := g.c.grpAdd(s.pair(g, s.gen(g, s.key), S), g.neg(s.pair(g, sum, g.hashPoint(s.hash, q))))
				s.accepts(g, "accepted exactly when the signature verifies under the sum of all keys", g.where(fn), v, s.eqn(g, e))
				g.frame("VerifyAggregateCommon changes nothing", g.where(fn), h0)
				g.noPanics("VerifyAggregateCommon", mark, g.where(fn))
			})
		}
	}
	if !s.domain {
		return
	}
	for _, n := range lens([]int{0, 1, 2, 3, 8, 17, 65}, sigM("VerifyAggregateCommonWithDomain"), sigM("VerifyAggregateWithDomain")) {
		n := n
		grp(fmt.Sprintf("VerifyAggregateCommonWithDomain/%d keys", n), func(g *G) {
			fn := s.method(g, "Signature", "VerifyAggregateCommonWithDomain")
			sg, S := s.sigv(g, "S")
			m, q := g.bytesOf("m", 32)
			dm, dq := g.bytesOf("d", 8)
			var ks []Val
			sum := &GrpV{ty: s.key.name, t: map[int]*NPoly{}}
			for i := 0; i < n; i++ {
				k, P := s.pub(g, fmt.Sprintf("P%d", i))
				ks = append(ks, k)
				sum = g.c.grpAdd(sum, P)
			}
			kl := ptrSlice(g, ks)
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, sg, kl, m, dm)
			e := g.c.grpAdd(s.pair(g, s.gen(g, s.key), S), g.neg(s.pair(g, sum, g.hashPoint("HashG2WithDomain", q, dq))))
			s.accepts(g, "accepted exactly when the signature verifies under the sum of all keys", g.where(fn), v, s.eqn(g, e))
			g.frame("VerifyAggregateCommonWithDomain changes nothing", g.where(fn), h0)
			g.noPanics("VerifyAggregateCommonWithDomain", mark, g.where(fn))
		})
		for _, m := range []int{n, n + 1, n - 1} {
			m := m
			if m < 0 || n > 3 && m != n {
				continue
			}
			grp(fmt.Sprintf("VerifyAggregateWithDomain/%d keys, %d messages", n, m), func(g *G) {
				fn := s.method(g, "Signature", "VerifyAggregateWithDomain")
				sg, S := s.sigv(g, "S")
				dm, dq := g.bytesOf("d", 8)
				e := s.pair(g, s.gen(g, s.key), S)
				var ks, ms []Val
				var Ps []*GrpV
				for i := 0; i < n; i++ {
					k, P := s.pub(g, fmt.Sprintf("P%d", i))
					ks, Ps = append(ks, k), append(Ps, P)
				}
				for i := 0; i < m; i++ {
					a, q := g.bytesOf(fmt.Sprintf("m%d.", i), 32)
					ms = append(ms, a)
					if i < n {
						e = g.c.grpAdd(e, g.neg(s.pair(g, Ps[i], g.hashPoint("HashG2WithDomain", q, dq))))
					}
				}
				want := bFalse
				if n == m {
					want = s.eqn(g, e)
				}
				kl, ml := ptrSlice(g, ks), ptrSlice(g, ms)
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, sg, kl, ml, dm)
				s.accepts(g, "accepted exactly when counts agree and the product of pairings matches", g.where(fn), v, want)
				g.frame("VerifyAggregateWithDomain changes nothing", g.where(fn), h0)
				g.noPanics("VerifyAggregateWithDomain", mark, g.where(fn))
			})
		}
	}
}

func init() {
	register("C21", 80, func(r *Run) {
		for _, a := range bothArch {
			for i := range schemes {
				signOps(r, &schemes[i], a)
			}
			// the premises: what the hashes absorb and what is compared
			hashOps(r, a)
			pairingOps(r, a)
		}
	})
	register("C22", 400, func(r *Run) {
		for _, a := range bothArch {
			for i := range schemes {
				aggregateOps(r, &schemes[i], a)
			}
			pairingOps(r, a)
		}
	})
}

// wrapperOps covers the objects that hold points (C14): equality of public
// keys, copies, and conversion from and to points.
func wrapperOps(r *Run, s *scheme, arch string) {
	grp := func(name string, f func(g *G)) {
		r.group(arch+"/"+s.pkg+"."+name, func(g *G) {
			s.use(g, arch)
			f(g)
		})
	}
	grp("PublicKey.Equals", func(g *G) {
		fn := s.method(g, "PublicKey", "Equals")
		p, P := s.pub(g, "P")
		q, Q := s.pub(g, "Q")
		O := g.c.grpScale(P, nint(0))
		o, o2 := s.wrap(g, O), s.wrap(g, O)
		P2 := s.wrap(g, P)
		h0, mark := g.st.heap, len(g.in.panics)
		for _, t := range []struct {
			name string
			a, b PtrV
			want B
		}{
			{"keys are equal exactly when their points are", p, q, g.c.grpIsZero(g.c.grpAdd(P, g.neg(Q)))},
			{"a key equals itself", p, p, bTrue},
			{"keys of the same point are equal", p, P2, bTrue},
			{"a key equals the identity exactly when its point is the identity", p, o, g.c.grpIsZero(P)},
			{"identity keys are equal", o, o2, bTrue},
		} {
			b := g.boolOf(g.callA(fn, t.a, t.b))
			ok, why := g.sameCond(b, t.want)
			g.ob(t.name, ok, g.where(fn), "%s", why)
		}
		g.frame("PublicKey.Equals changes nothing", g.where(fn), h0)
		g.noPanics("PublicKey.Equals", mark, g.where(fn))
	})
	for _, ty := range []string{"PublicKey", "Signature"} {
		ty := ty
		cv := s.key
		if ty == "Signature" {
			cv = s.sig
		}
		for _, m := range []string{"Copy", "GetPoint"} {
			m := m
			grp(ty+"."+m, func(g *G) {
				fn := s.method(g, ty, m)
				P := g.c.grpSym(cv.name, "P", nil)
				p := s.wrap(g, P)
				h0, mark := g.st.heap, len(g.in.panics)
				v := g.callA(fn, p)
				g.sameGrp(m+" gives the same point", g.where(fn), v, P, g.pointConv(cv))
				g.frame(m+" changes nothing", g.where(fn), h0)
				g.noPanics(ty+"."+m, mark, g.where(fn))
			})
		}
		n := "New" + ty + "From" + cv.name
		grp(n, func(g *G) {
			fn := s.fn(g, n)
			P := g.c.grpSym(cv.name, "P", nil)
			h0, mark := g.st.heap, len(g.in.panics)
			v := g.callA(fn, g.newPtr(P))
			g.sameGrp(n+" holds the given point", g.where(fn), v, P, g.pointConv(cv))
			g.frame(n+" changes nothing", g.where(fn), h0)
			g.noPanics(n, mark, g.where(fn))
		})
	}
}

// listLens completes the lengths at which a function over lists is analysed
// with those its own integer constants and array sizes single out.
func listLens(P *Prog, path string, base []int, roots ...*ssa.Function) []int {
	set := map[int]bool{}
	for _, n := range base {
		set[n] = true
	}
	var cs []int
	seenC := map[int]bool{}
	note := func(n int64) {
		if n >= 2 && n <= 1200 && !seenC[int(n)] {
			seenC[int(n)] = true
			cs = append(cs, int(n))
		}
	}
	var typ func(t types.Type, d int)
	typ = func(t types.Type, d int) {
		if d > 3 {
			return
		}
		switch x := t.Underlying().(type) {
		case *types.Array:
			note(x.Len())
		case *types.Pointer:
			if _, named := x.Elem().(*types.Named); !named {
				typ(x.Elem(), d+1)
			}
		}
	}
	file := func(f *ssa.Function) string { return P.fset.Position(f.Pos()).Filename }
	near := map[string]bool{}
	for _, f := range roots {
		if f != nil {
			near[file(f)] = true
		}
	}
	for f := range reachFrom(P, roots) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != path || !near[file(f)] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if n, exact := constant.Int64Val(k.Value); exact {
							note(n)
						}
					}
				}
				if a, ok := i.(*ssa.Alloc); ok {
					typ(a.Type(), 0)
				}
			}
		}
	}
	sort.Ints(cs)
	if len(cs) > 16 { // tables and the like: the bounds are the small ones
		cs = cs[:16]
	}
	for _, c := range cs {
		set[c-1], set[c], set[c+1] = true, true, true
		if c <= 150 {
			set[2*c+1] = true
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}
