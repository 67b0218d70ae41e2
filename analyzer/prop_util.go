package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// adapt passes the object behind ptr as a parameter of type t: the pointer
// itself or the value it points to.
func (g *G) adapt(t types.Type, v Val) Val {
	p, ok := v.(PtrV)
	if gv, isG := v.(*GammaV); isG {
		v = g.c.simp(gv, g.st.cond)
		p, ok = v.(PtrV)
		if gv, isG = v.(*GammaV); isG {
			_, ok = gv.alts[0].v.(PtrV)
		}
	}
	if !ok {
		return v
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return v
	}
	if p.obj == 0 {
		return g.in.load(nil, &g.st, v, 0)
	}
	return g.deref(p)
}

func (g *G) deref(p PtrV) Val {
	return g.in.load(nil, &g.st, p, 0)
}

func (g *G) newPtr(v Val) PtrV { return g.in.newPtr(&g.st, v) }

// callM analyses method typ.name on the object behind recv.
func (g *G) callM(typ, name string, recv Val, args ...Val) Val {
	fn := g.method(typ, name)
	return g.callA(fn, append([]Val{recv}, args...)...)
}

// callA calls fn, adapting pointer arguments to by-value parameters.
func (g *G) callA(fn *ssa.Function, args ...Val) Val {
	if len(fn.Params) != len(args) {
		panic(Unresolved{fmt.Sprintf("%s takes %d arguments, expected %d", fn, len(fn.Params), len(args))})
	}
	as := make([]Val, len(args))
	for i, p := range fn.Params {
		as[i] = g.adapt(p.Type(), args[i])
	}
	return g.in.invoke(nil, fn.Pos(), &g.st, fn, as, nil)
}

// fieldSpec describes one prime-field implementation.
type fieldSpec struct {
	ty, repr    string
	n           int
	mod, R      *big.Int
	ptr         bool // the element holds a pointer to its words
	fromRepr    string
	elemPtrArgs bool
}

func fqSpec() *fieldSpec {
	return &fieldSpec{ty: "FQ", repr: "FQRepr", n: 6, mod: bigQ, R: pow2(384), fromRepr: "FQReprToFQ"}
}
func frSpec() *fieldSpec {
	return &fieldSpec{ty: "FR", repr: "FRRepr", n: 4, mod: bigR, R: pow2(256), ptr: true, fromRepr: "FRReprToFR"}
}

// topWords makes symbolic words of an integer below m.
func (g *G) wordsBelow(name string, n int, m *big.Int) (*ArrayV, *NPoly) {
	r := &ArrayV{}
	for i := 0; i < n; i++ {
		hi := new(big.Int).Sub(pow2(64), big.NewInt(1))
		if i == n-1 {
			hi = new(big.Int).Rsh(new(big.Int).Sub(m, big.NewInt(1)), uint(64*(n-1)))
		}
		r.e = append(r.e, IntV{g.c.intSym(fmt.Sprintf("%s%d", name, i), new(big.Int), hi)})
	}
	s := wordSum(r)
	g.c.assumeGE(nconst(m).Sub(nint(1)).Sub(s))
	return r, s
}

// mkElem wraps words as a field element object and returns its address.
func (g *G) mkElem(fs *fieldSpec, words Val) PtrV {
	if fs.ptr {
		return g.newPtr(&StructV{[]Val{g.newPtr(words)}})
	}
	return g.newPtr(&StructV{[]Val{words}})
}

// elemWords reads the words of a field element value or pointer.
func (g *G) elemWords(fs *fieldSpec, v Val) Val {
	for {
		switch x := v.(type) {
		case PtrV:
			v = g.deref(x)
			if v == nil {
				panic(Unresolved{"nil element"})
			}
		case *StructV:
			v = x.f[0]
		case *ArrayV:
			return intWords(g.c, x)
		case *GammaV:
			if _, ok := x.alts[0].v.(PtrV); !ok {
				panic(Unresolved{"field element expected, got " + g.c.showV(v)})
			}
			v = g.in.load(nil, &g.st, v, 0)
		default:
			panic(Unresolved{"field element expected, got " + g.c.showV(v)})
		}
	}
}

// wordsOf reads the words of a repr value or pointer inside an intrinsic.
func wordsOf(in *Interp, fr *Frame, st *State, v Val) *ArrayV {
	if p, ok := v.(PtrV); ok {
		v = in.load(fr, st, p, 0)
	}
	a, ok := v.(*ArrayV)
	if !ok {
		panic(Unresolved{"words expected: " + in.c.showV(v)})
	}
	return a
}

// intWords forces integer alternatives to polynomials.
func intWords(c *Ctx, a *ArrayV) *ArrayV {
	r := &ArrayV{make([]Val, len(a.e))}
	for i, e := range a.e {
		if gv, ok := e.(*GammaV); ok {
			e = c.gammaInt(gv)
		}
		r.e[i] = e
	}
	return r
}

// useWideCmp replaces typ.Cmp by its contract: the order of the integers.
// The contract itself is an obligation of checkCmp.
func (g *G) useWideCmp(typ string) {
	fn := g.method(typ, "Cmp")
	g.in.intr[fn.String()] = func(in *Interp, fr *Frame, st *State, args []Val) Val {
		a := wordSum(intWords(in.c, wordsOf(in, fr, st, args[0])))
		b := wordSum(intWords(in.c, wordsOf(in, fr, st, args[1])))
		if st.cond == bFalse {
			return nil
		}
		f := in.f(st)
		d := a.Sub(b)
		lt := in.c.lt0(d, f)
		eq := in.c.eq0(d, f)
		return in.c.gamma(lt, iconst(-1), in.c.gamma(eq, iconst(0), iconst(1)))
	}
}

// checkCmp establishes the contract of typ.Cmp, separately for the position
// and the direction of the most significant difference.
func (g *G) checkCmp(typ string, n int) {
	fn := g.method(typ, "Cmp")
	where := g.where(fn)
	save := g.st
	for i := -1; i < n; i++ {
		for _, want := range []int64{-1, 1} {
			name := fmt.Sprintf("%s.Cmp is %d when word %d is the first to differ", typ, want, i)
			if i < 0 {
				if want < 0 {
					continue
				}
				want, name = 0, typ+".Cmp is 0 for equal values"
			}
			a := g.words(fmt.Sprintf("%s.cmp.a%d.%d.", typ, i+1, want+1), n)
			b := &ArrayV{append([]Val(nil), a.e...)}
			for j := 0; j <= i; j++ {
				b.e[j] = g.word(fmt.Sprintf("%s.cmp.b%d.%d.%d", typ, i+1, want+1, j))
			}
			if i >= 0 {
				d := a.e[i].(IntV).p.Sub(b.e[i].(IntV).p)
				g.c.assumeGE(d.Scale(zi(want)).Sub(nint(1)))
			}
			g.st = save
			mark := len(g.in.panics)
			v := g.callA(fn, g.newPtr(a), g.newPtr(b))
			ok, why := true, ""
			alts := []Alt{{bTrue, v}}
			if gv, is := v.(*GammaV); is {
				alts = gv.alts
			}
			for _, al := range alts {
				cond := g.c.bdd.and(g.st.cond, al.b)
				if cond == bFalse || g.infeasible(cond) {
					continue
				}
				iv, is := al.v.(IntV)
				if is {
					is, _ = g.inRangeCases(iv.p, big.NewInt(want), big.NewInt(want), cond)
				}
				if !is {
					ok, why = false, fmt.Sprintf("returns %s when %s", g.c.showV(al.v), g.c.showB(cond))
				}
			}
			g.ob(name, ok, where, "%s", why)
			g.noPanics(name, mark, where)
			g.in.panics = g.in.panics[:mark]
		}
	}
	g.st = save
}

// inRangeCases decides lo <= p <= hi, splitting cond into its cubes.
func (g *G) inRangeCases(p *NPoly, lo, hi *big.Int, cond B) (bool, string) {
	return g.cases(cond, func(b B) (bool, string) { return g.inRange(p, lo, hi, b) })
}

// cases decides f on cond, or else on each of its cubes.
func (g *G) cases(cond B, f func(b B) (bool, string)) (bool, string) {
	if ok, _ := f(cond); ok {
		return true, ""
	}
	cs, complete := g.c.bdd.cubes(cond, 512)
	if !complete {
		return false, "too many cases"
	}
	for _, cu := range cs {
		b := cond
		for _, l := range cu {
			a := g.c.bdd.atom(l.Atom)
			if !l.Pos {
				a = g.c.bdd.not(a)
			}
			b = g.c.bdd.and(b, a)
		}
		if ok, why := f(b); !ok {
			return false, why
		}
	}
	return true, ""
}

// belowCases decides 0 <= sum w_i 2^(64i) <= hi for 64-bit words w (that each
// is one is a separate obligation): from the sum itself or from its top word.
func (g *G) belowCases(words Val, hi *big.Int, cond B) (bool, string) {
	ws, ok := flatWords(words)
	if !ok {
		return false, "words expected: " + g.c.showV(words)
	}
	n := len(ws)
	topMax := new(big.Int).Rsh(new(big.Int).Add(hi, big.NewInt(1)), uint(64*(n-1)))
	topMax.Sub(topMax, big.NewInt(1))
	for _, cs := range g.split(ws, cond, func(b B, ps []*NPoly) Val {
		r := &ArrayV{}
		for _, p := range ps {
			r.e = append(r.e, IntV{p})
		}
		return r
	}) {
		ps, _ := flatWords(cs.v)
		p := wordSum(cs.v)
		ok, why := g.cases(cs.cond, func(b B) (bool, string) {
			if ok, _ := g.inRange(ps[n-1], new(big.Int), topMax, b); ok {
				return true, ""
			}
			return g.inRange(p, new(big.Int), hi, b)
		})
		if !ok {
			return false, why
		}
	}
	return true, ""
}

// congCases decides p = 0 (mod m) in every selector case.
func (g *G) congCases(p *NPoly, m *big.Int, cond B) (bool, string) {
	for _, cs := range g.splitInt(p, cond) {
		q := g.c.underCond(cs.v.(IntV).p, cs.cond)
		if congruent(q, m) {
			continue
		}
		if cs.cond > 1 && congruent(g.c.decided(q, g.c.facts(cs.cond)), m) {
			continue
		}
		if lo, hi := g.c.bounds(q, g.c.facts(cs.cond)); lo != nil && hi != nil && lo.Cmp(hi) == 0 && new(big.Int).Mod(lo, m).Sign() == 0 {
			continue
		}
		if !g.infeasible(cs.cond) {
			if os.Getenv("VFLOOR") != "" {
				g.c.dumpFloors(q)
			}
			return false, fmt.Sprintf("residue %s when %s", g.c.show(q), g.c.showB(cs.cond))
		}
	}
	return true, ""
}

// wideCall evaluates boolean results.
func (g *G) boolOf(v Val) B { return g.in.asBool(nil, &g.st, v) }

// sameCond decides that two conditions agree.
func (g *G) sameCond(a, b B) (bool, string) {
	x := g.c.bdd.and(g.st.cond, g.c.bdd.xor(a, b))
	if x == bFalse {
		return true, ""
	}
	cs, complete := g.c.bdd.cubes(x, 64)
	if complete {
		all := true
		for _, cu := range cs {
			bb := x
			for _, l := range cu {
				at := g.c.bdd.atom(l.Atom)
				if !l.Pos {
					at = g.c.bdd.not(at)
				}
				bb = g.c.bdd.and(bb, at)
			}
			if !g.infeasible(bb) {
				all = false
			}
		}
		if all {
			return true, ""
		}
	}
	if os.Getenv("VSUP") != "" {
		for at := range g.c.bdd.support(x) {
			s := g.c.showAtom(at)
			if len(s) > 150 {
				s = s[:60] + "#" + s[len(s)-80:]
			}
			println("ATOM", at, s)
		}
		cs, _ := g.c.bdd.cubes(x, 3)
		for _, c := range cs {
			println(fmt.Sprint(c))
		}
	}
	return false, "differs when " + g.c.showB(x)
}

// wordsEq is the condition that all words agree.
func (g *G) wordsEq(a, b Val) B {
	x, _ := flatWords(a)
	y, _ := flatWords(b)
	r := bTrue
	for i := range x {
		r = g.c.bdd.and(r, g.c.eq0(x[i].Sub(y[i]), g.c.facts(g.st.cond)))
	}
	return r
}

func (c *Ctx) dumpFloors(p *NPoly) {
	seen := map[int]bool{}
	var rec func(p *NPoly)
	rec = func(p *NPoly) {
		for v := range p.vars() {
			if s := c.syms[v]; s.e != nil && !seen[v] {
				seen[v] = true
				rec(s.e)
				fmt.Fprintf(os.Stderr, "F%d = floor((%s) / 2^%d)\n", v, c.show(s.e), s.k)
			}
		}
	}
	rec(p)
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
