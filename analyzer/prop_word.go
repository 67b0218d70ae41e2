package main

// C01 (word primitives, both builds), C29 (assembly calling convention).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var bothArch = []string{"amd64", "386"}

func (g *G) word(name string) IntV { return IntV{g.c.wordSym(name, 64)} }

func (g *G) words(name string, n int) *ArrayV {
	r := &ArrayV{}
	for i := 0; i < n; i++ {
		r.e = append(r.e, g.word(fmt.Sprintf("%s%d", name, i)))
	}
	return r
}

// wordSum is sum_i w_i 2^(64 i).
func wordSum(v Val) *NPoly {
	ws, ok := flatWords(v)
	if !ok {
		panic(Unresolved{"words expected"})
	}
	r := nint(0)
	for i, w := range ws {
		r = r.Add(w.Scale(Z{pow2(64 * i)}))
	}
	return r
}

// congruent reports that every coefficient of p is a multiple of m.
func congruent(p *NPoly, m *big.Int) bool {
	for _, c := range p.t {
		if new(big.Int).Mod(c.Int, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (g *G) wordsInRange(name, where string, v Val) {
	ws, ok := flatWords(v)
	if !ok {
		g.ob(name+": words", false, where, "result %s", g.c.showV(v))
		return
	}
	max := new(big.Int).Sub(pow2(64), big.NewInt(1))
	for i, w := range ws {
		ok, why := g.inRange(w, new(big.Int), max, g.st.cond)
		g.ob(fmt.Sprintf("%s: word %d is a 64-bit value", name, i), ok, where, "%s", why)
	}
}

func (g *G) simpV(v Val) Val { return g.c.simp(v, g.st.cond) }

func init() {
	register("C01", 60, func(r *Run) {
		for _, arch := range bothArch {
			arch := arch
			r.group(arch+"/wide", func(g *G) {
				g.use(arch)
				g.start()
				a, b := g.words("a", 6), g.words("b", 6)
				A, B := wordSum(a), wordSum(b)
				check := func(name string, f func(v Val) (bool, string)) {
					fn := g.fn(name)
					g.st = State{bTrue, g.in.initH}
					mark := len(g.in.panics)
					v := g.callf(fn, a, b)
					ok, why := f(v)
					g.ob(name+": exact value", ok, g.where(fn), "%s", why)
					g.wordsInRange(name, g.where(fn), v)
					g.noPanics(name, mark, g.where(fn))
				}
				check("MultiplyFQRepr", func(v Val) (bool, string) {
					t := v.(*TupleV)
					d := wordSum(t.e[1]).Add(wordSum(t.e[0]).Scale(Z{pow2(384)})).Sub(A.Mul(B))
					return g.isZeroInt(d, g.st.cond)
				})
				check("AddNoCarry", func(v Val) (bool, string) {
					d := wordSum(v).Sub(A.Add(B))
					return congruent(d, pow2(384)), "sum differs from a+b by " + g.c.show(d) + ", not a multiple of 2^384"
				})
				check("SubNoBorrow", func(v Val) (bool, string) {
					d := wordSum(v).Sub(A.Sub(B))
					return congruent(d, pow2(384)), "difference differs from a-b by " + g.c.show(d) + ", not a multiple of 2^384"
				})
			})
			r.group(arch+"/word", func(g *G) {
				g.use(arch)
				g.start()
				g.checkWordOps()
			})
			r.group(arch+"/montgomery", func(g *G) {
				g.use(arch)
				g.in.runInit(modPath)
				g.start()
				hi, lo := g.words("h", 6), g.words("l", 6)
				T := wordSum(lo).Add(wordSum(hi).Scale(Z{pow2(384)}))
				qR := new(big.Int).Mul(bigQ, pow2(384))
				g.c.assumeGE(nconst(qR).Sub(T).Sub(nint(1)))
				fn := g.fn("MontReduce")
				mark := len(g.in.panics)
				v := g.callf(fn, hi, lo)
				d := wordSum(v).Scale(Z{pow2(384)}).Sub(T)
				g.ob("MontReduce: congruent to T/2^384 modulo q", congruent(d, bigQ), g.where(fn), "residue %s", g.c.show(d))
				g.wordsInRange("MontReduce", g.where(fn), v)
				max := new(big.Int).Lsh(bigQ, 1)
				max.Sub(max, big.NewInt(1))
				ok, why := g.inRange(wordSum(v), new(big.Int), max, g.st.cond)
				g.ob("MontReduce: result below 2q", ok, g.where(fn), "%s", why)
				g.noPanics("MontReduce", mark, g.where(fn))
			})
		}
	})

	register("C29", 60, func(r *Run) {
		r.group("amd64/abi", func(g *G) {
			g.use("amd64")
			P := g.P
			fs, err := P.asmFuncs()
			if err != nil {
				g.ob("assembly parses", false, modPath, "%v", err)
				return
			}
			sp := P.pkgs[modPath]
			declared := map[string]bool{}
			var names []string
			for n := range sp.Members {
				if f := sp.Func(n); f != nil && f.Synthetic == "" && len(f.Blocks) == 0 {
					declared[n] = true
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for n, as := range fs {
				g.ob(n+": declared in Go without a body", declared[n], fmt.Sprintf("%s:%d", as[0].file, as[0].line), "assembly function %s has no body-less Go declaration", n)
			}
			for _, n := range names {
				f := sp.Func(n)
				where := g.where(f)
				as := fs[n]
				if !g.ob(n+": exactly one implementation", len(as) == 1, where, "%d assembly implementations", len(as)) {
					continue
				}
				a := as[0]
				where = fmt.Sprintf("%s:%d (%s)", a.file, a.line, n)
				params, results, total, err := P.layout(f.Signature)
				if !g.ob(n+": signature laid out as words", err == nil, where, "%v", err) {
					continue
				}
				g.ob(n+": declared argument size", a.args == total, where, "TEXT declares %d argument bytes, the Go signature needs %d", a.args, total)
				okFlags := true
				for _, fl := range strings.FieldsFunc(a.flags, func(r rune) bool { return r == '|' || r == ' ' }) {
					if fl != "NOSPLIT" && fl != "0" && fl != "4" {
						okFlags = false
					}
				}
				g.ob(n+": ordinary function flags", okFlags, where, "flags %q", a.flags)
				g.c = newCtx()
				var words []*NPoly
				for i := range params {
					words = append(words, g.c.wordSym(fmt.Sprintf("p%d", i), 64))
				}
				st := &asmState{c: g.c, f: g.c.base, fn: a, reg: map[string]*NPoly{}, fp: map[int]*NPoly{}, sp: map[int]*NPoly{}, nargs: total}
				for i, o := range params {
					st.fp[o] = words[i]
				}
				msg := ""
				func() {
					defer func() {
						if e := recover(); e != nil {
							u, ok := e.(Unresolved)
							if !ok {
								panic(e)
							}
							msg = u.msg
						}
					}()
					st.run()
				}()
				for _, fi := range st.finds {
					g.ob(n+": "+fi.rule, false, fmt.Sprintf("%s:%d (%s)", a.file, fi.line, n), "%s", fi.msg)
				}
				g.ob(n+": straight-line body reaches RET within the model", msg == "", where, "%s", msg)
				for _, ru := range []string{"argument bounds", "frame bounds", "uninitialised read", "stack pointer"} {
					bad := false
					for _, fi := range st.finds {
						bad = bad || fi.rule == ru
					}
					if !bad {
						g.ob(n+": "+ru, msg == "", where, "%s", msg)
					}
				}
				if st.wroteBP != 0 {
					g.ob(n+": frame pointer preserved", a.frame > 0, fmt.Sprintf("%s:%d (%s)", a.file, st.wroteBP, n), "BP is overwritten in a function with an empty frame, so the assembler does not save it")
				} else {
					g.ob(n+": frame pointer preserved", true, where, "")
				}
				for i, o := range results {
					g.ob(fmt.Sprintf("%s: result word %d is written", n, i), st.fp[o] != nil, where, "result at offset %d is never written", o)
				}
			}
		})
		r.group("386/no-assembly", func(g *G) {
			g.use("386")
			sp := g.P.pkgs[modPath]
			var names []string
			for n := range sp.Members {
				if f := sp.Func(n); f != nil && f.Synthetic == "" && len(f.Blocks) == 0 {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			g.ob("portable build: every function has a Go body", len(names) == 0, modPath, "no body: %v", names)
		})
		r.group("api", func(g *G) {
			g.use("amd64")
			P2 := r.prog("386")
			for _, n := range []string{"MultiplyFQRepr", "MontReduce", "AddNoCarry", "SubNoBorrow", "AddWithCarry", "SubWithBorrow", "MACWithCarry"} {
				a, b := g.P.fn(modPath, n), P2.fn(modPath, n)
				ok := a != nil && b != nil
				sa, sb := "", ""
				if ok {
					sa, sb = wordSig(g.P, a), wordSig(P2, b)
				}
				g.ob(n+": same words in both builds", ok && sa == sb, modPath, "amd64 %s, portable %s", sa, sb)
			}
		})
	})
}

// checkWordOps establishes the contracts of the single-word primitives.
func (g *G) checkWordOps() {
	x, y, z, w := g.word("a"), g.word("b"), g.word("c"), g.word("d")
	two := Z{pow2(64)}
	do := func(name string, args []Val, want func(lo, hi *NPoly) *NPoly) {
		fn := g.fn(name)
		g.st = State{bTrue, g.in.initH}
		mark := len(g.in.panics)
		v := g.callf(fn, args...)
		t := v.(*TupleV)
		lo, hi := t.e[0].(IntV).p, t.e[1].(IntV).p
		ok, why := g.isZeroInt(want(lo, hi), g.st.cond)
		g.ob(name+": exact value", ok, g.where(fn), "%s", why)
		g.wordsInRange(name, g.where(fn), &ArrayV{[]Val{t.e[0], t.e[1]}})
		g.noPanics(name, mark, g.where(fn))
	}
	do("MACWithCarry", []Val{x, y, z, w}, func(lo, hi *NPoly) *NPoly {
		return lo.Add(hi.Scale(two)).Sub(x.p).Sub(y.p.Mul(z.p)).Sub(w.p)
	})
	do("AddWithCarry", []Val{x, y, z}, func(lo, hi *NPoly) *NPoly {
		return lo.Add(hi.Scale(two)).Sub(x.p).Sub(y.p).Sub(z.p)
	})
	br := IntV{g.c.intSym("borrow", new(big.Int), big.NewInt(1))}
	do("SubWithBorrow", []Val{x, y, br}, func(lo, hi *NPoly) *NPoly {
		return lo.Sub(hi.Scale(two)).Sub(x.p.Sub(y.p).Sub(br.p))
	})
	fn := g.fn("SubWithBorrow")
	v := g.callf(fn, x, y, br)
	ok, why := g.inRange(v.(*TupleV).e[1].(IntV).p, new(big.Int), big.NewInt(1), g.st.cond)
	g.ob("SubWithBorrow: borrow is 0 or 1", ok, g.where(fn), "%s", why)
}

// useWordOps replaces the single-word multiply-add by its contract, so that
// carries written as comparisons telescope (checkWordOps is the obligation).
func (g *G) useWordOps() {
	p64 := Z{pow2(64)}
	two := func(f func(a []*NPoly) *NPoly) func(in *Interp, fr *Frame, st *State, args []Val) Val {
		return func(in *Interp, fr *Frame, st *State, args []Val) Val {
			ws, ok := flatWords(intWords(in.c, &ArrayV{args}))
			if !ok {
				panic(Unresolved{"words expected"})
			}
			s := f(ws)
			hi := in.c.floor(s, 64, in.f(st))
			return &TupleV{[]Val{IntV{s.Sub(hi.Scale(p64))}, IntV{hi}}}
		}
	}
	g.in.intr[g.fn("MACWithCarry").String()] = two(func(a []*NPoly) *NPoly { return a[0].Add(a[1].Mul(a[2])).Add(a[3]) })
	g.in.intr[g.fn("AddWithCarry").String()] = two(func(a []*NPoly) *NPoly { return a[0].Add(a[1]).Add(a[2]) })
}
