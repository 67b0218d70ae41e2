package main

// C32: termination.  Every loop of the code reachable from the API is decided:
// counted loops by their induction variable, the binary extended-Euclid loops
// by invariants and a ranking function, other loops by following the abstract
// execution until no state is left at the head.  The call graph is acyclic.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// counted decides a loop by an induction variable: a header value that every
// back edge moves by a constant in one direction, and a test of it on the way
// to every back edge that leaves the loop before the value can wrap around.
func counted(L *Loop) (string, bool) {
	var latches []int
	for i, p := range L.head.Preds {
		if L.blocks[p] {
			latches = append(latches, i)
		}
	}
	onEvery := func(b *ssa.BasicBlock) bool {
		for _, i := range latches {
			if !b.Dominates(L.head.Preds[i]) {
				return false
			}
		}
		return true
	}
	for _, ins := range L.head.Instrs { // maps and strings: the iterator ends
		if nx, ok := ins.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !L.blocks[rg.Block()] {
				if nx.IsString || !L.writesMap() {
					return "range", true
				}
			}
		}
	}
	for _, ins := range L.head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); ok {
			good := len(latches) > 0
			for _, i := range latches {
				good = good && shrinks(phi, phi.Edges[i], L, 0)
			}
			if good {
				return "a slice loses elements with every round", true
			}
			continue
		}
		bt, ok := phi.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		var lo, hi *big.Int // steps
		good := true
		for _, i := range latches {
			l, h, ok := steps(phi, phi.Edges[i], L, 0)
			if !ok {
				good = false
				break
			}
			if lo == nil || l.Cmp(lo) < 0 {
				lo = l
			}
			if hi == nil || h.Cmp(hi) > 0 {
				hi = h
			}
		}
		if !good || lo == nil || lo.Sign()*hi.Sign() <= 0 {
			continue
		}
		for b := range L.blocks {
			if len(b.Instrs) == 0 || !onEvery(b) {
				continue
			}
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			var stay int
			switch {
			case !L.blocks[b.Succs[0]] && L.blocks[b.Succs[1]]:
				stay = 1
			case L.blocks[b.Succs[0]] && !L.blocks[b.Succs[1]]:
			default:
				continue
			}
			cmp, ok := br.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			if why, ok := guard(phi, cmp, stay == 0, lo, hi, L, bt); ok {
				return why, true
			}
		}
	}
	return "", false
}

// shrinks: v is a proper tail or head of phi (slicing an empty slice so panics).
func shrinks(phi *ssa.Phi, v ssa.Value, L *Loop, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if !L.blocks[x.Block()] || x == phi {
			return false
		}
		for _, p := range x.Block().Preds {
			if x.Block().Dominates(p) {
				return false
			}
		}
		for _, e := range x.Edges {
			if !shrinks(phi, e, L, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if x.X != phi && !shrinks(phi, x.X, L, depth+1) {
			return false
		}
		if x.X != phi {
			return true
		}
		if k := constPos(x.Low); k && x.High == nil {
			return true
		}
		if b, ok := x.High.(*ssa.BinOp); ok && x.Low == nil && b.Op == token.SUB && constPos(b.Y) {
			if c, ok := b.X.(*ssa.Call); ok && len(c.Call.Args) == 1 && c.Call.Args[0] == x.X {
				if f, ok := c.Call.Value.(*ssa.Builtin); ok {
					return f.Name() == "len"
				}
			}
		}
	}
	return false
}

func constPos(v ssa.Value) bool {
	if v == nil {
		return false
	}
	k := constOf(v)
	return k != nil && k.Sign() > 0
}

func (L *Loop) writesMap() bool {
	for b := range L.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
					return true
				}
			}
		}
	}
	return false
}

// steps is the range of v - phi, v being phi plus constants.
func steps(phi *ssa.Phi, v ssa.Value, L *Loop, depth int) (lo, hi *big.Int, ok bool) {
	if depth > 8 {
		return
	}
	if v == phi {
		return new(big.Int), new(big.Int), true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		k, y := constOf(x.Y), x.X
		if k == nil && x.Op == token.ADD {
			k, y = constOf(x.X), x.Y
		}
		if k == nil || (x.Op != token.ADD && x.Op != token.SUB) {
			return
		}
		if x.Op == token.SUB {
			k = new(big.Int).Neg(k)
		}
		l, h, ok := steps(phi, y, L, depth+1)
		if !ok {
			return nil, nil, false
		}
		return new(big.Int).Add(l, k), new(big.Int).Add(h, k), true
	case *ssa.Phi:
		if !L.blocks[x.Block()] || x.Block() == L.head {
			return
		}
		for _, p := range x.Block().Preds { // joins only: inner loops move by unknown amounts
			if x.Block().Dominates(p) {
				return nil, nil, false
			}
		}
		for _, e := range x.Edges {
			l, h, ok := steps(phi, e, L, depth+1)
			if !ok {
				return nil, nil, false
			}
			if lo == nil || l.Cmp(lo) < 0 {
				lo = l
			}
			if hi == nil || h.Cmp(hi) > 0 {
				hi = h
			}
		}
		return lo, hi, lo != nil
	}
	return
}

func constOf(v ssa.Value) *big.Int {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil
	}
	r, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
	if !ok {
		return nil
	}
	return r
}

// pureBig tells the methods of big.Int that only read.
func pureBig(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "math/big" || f.Signature.Recv() == nil {
		return false
	}
	switch f.Name() {
	case "Bit", "BitLen", "Cmp", "CmpAbs", "Sign", "Uint64", "Int64", "IsUint64", "IsInt64", "TrailingZeroBits":
		return true
	}
	return false
}

// keepsBig: nothing in the loop is handed a big.Int to write.
func (L *Loop) keepsBig() bool {
	isBig := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && p.Elem().String() == "math/big.Int"
	}
	for b := range L.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case ssa.CallInstruction:
				if pureBig(x.Common()) {
					continue
				}
				for _, o := range x.Operands(nil) {
					if *o != nil && isBig((*o).Type()) {
						return false
					}
				}
			case *ssa.Store:
				if isBig(x.Addr.Type()) {
					return false
				}
			}
		}
	}
	return true
}

// invariant values do not change while the loop runs.
func invariant(v ssa.Value, L *Loop, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Function, *ssa.Global:
		return true
	case ssa.Instruction:
		if !L.blocks[x.Block()] {
			return true
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			return invariant(y.X, L, depth+1) && invariant(y.Y, L, depth+1)
		case *ssa.Convert:
			return invariant(y.X, L, depth+1)
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return invariant(y.Call.Args[0], L, depth+1)
			}
			if pureBig(&y.Call) && invariant(y.Call.Args[0], L, depth+1) && len(y.Call.Args) == 1 {
				return L.keepsBig()
			}
		}
	}
	return false
}

// guard decides the test that stays in the loop when cmp is `stay`.
func guard(phi *ssa.Phi, cmp *ssa.BinOp, stay bool, lo, hi *big.Int, L *Loop, bt *types.Basic) (string, bool) {
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if !stay {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	off, _, ok := steps(phi, x, L, 0)
	if !ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		var h *big.Int
		if off, h, ok = steps(phi, x, L, 0); !ok || off.Cmp(h) != 0 {
			return "", false
		}
	} else if _, h, _ := steps(phi, x, L, 0); off.Cmp(h) != 0 {
		return "", false
	}
	if !invariant(y, L, 0) {
		return "", false
	}
	bits := map[types.BasicKind]int{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32}[bt.Kind()]
	if bits == 0 {
		bits = 64
		if bt.Kind() == types.Int || bt.Kind() == types.Uint || bt.Kind() == types.Uintptr {
			bits = 32 // the smaller of the builds
		}
	}
	unsigned := bt.Info()&types.IsUnsigned != 0
	min, max := new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
	if !unsigned {
		min, max = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	// the value that is tested is phi + off; the next one differs by a step of
	// [lo, hi]; it must not pass the end of the type before the test fails
	reach := new(big.Int).Add(new(big.Int).Abs(lo), new(big.Int).Abs(hi)) // more than one step
	reach.Add(reach, new(big.Int).Abs(off))
	yl, yh := valueRange(y, min, max)
	one := big.NewInt(1)
	if hi.Cmp(one) == 0 && lo.Cmp(one) == 0 && op == token.LSS && off.Sign() == 0 { // i < n implies i+1 <= n
		return "counts up by one to an unchanging bound", true
	}
	if new(big.Int).Neg(hi).Cmp(one) == 0 && new(big.Int).Neg(lo).Cmp(one) == 0 && op == token.GTR && off.Sign() == 0 {
		return "counts down by one to an unchanging bound", true
	}
	switch op {
	case token.LSS, token.LEQ:
		if lo.Sign() > 0 && new(big.Int).Add(yh, reach).Cmp(max) <= 0 {
			return "counts up to an unchanging bound", true
		}
	case token.GTR, token.GEQ:
		if hi.Sign() < 0 && new(big.Int).Sub(yl, reach).Cmp(min) >= 0 {
			return "counts down to an unchanging bound", true
		}
		// unsigned: i >= k > 0 with step k at most
		if hi.Sign() < 0 && op == token.GEQ && off.Sign() == 0 && yl.Cmp(new(big.Int).Neg(lo)) >= 0 && unsigned {
			return "counts down, never below zero", true
		}
		if hi.Sign() < 0 && op == token.GTR && off.Sign() == 0 && new(big.Int).Add(yl, one).Cmp(new(big.Int).Neg(lo)) >= 0 && unsigned {
			return "counts down, never below zero", true
		}
	case token.NEQ:
		// from a constant, by one, towards a bound on the right side
		if lo.Cmp(hi) != 0 || new(big.Int).Abs(lo).Cmp(one) != 0 || off.Sign() != 0 {
			return "", false
		}
		for i, p := range L.head.Preds {
			if L.blocks[p] {
				continue
			}
			s := phi.Edges[i]
			sl, sh := valueRange(s, min, max)
			if (lo.Sign() > 0 && sh.Cmp(yl) <= 0) || (lo.Sign() < 0 && sl.Cmp(yh) >= 0) {
				continue
			}
			return "", false
		}
		return "counts by one to an unchanging bound", true
	}
	return "", false
}

// valueRange bounds an integer value by its form.
func valueRange(v ssa.Value, min, max *big.Int) (lo, hi *big.Int) {
	if k := constOf(v); k != nil {
		return k, k
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			// memory is smaller than half the type
			return new(big.Int), new(big.Int).Rsh(max, 1)
		}
	}
	return min, max
}

func loopPos(L *Loop) token.Pos {
	for _, i := range L.head.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range L.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return L.head.Parent().Pos()
}

// invTerm proves that a field inversion ends, for every element.
func invTerm(g *G, arch, ty string, m *big.Int, n int) {
	g.use(arch)
	g.in.runInit(modPath)
	fn := g.method(ty, "Inverse")
	for _, zero := range []bool{false, true} {
		g.start()
		c := g.c
		d := &invDom{g: g, ty: ty, m: m, n: n, res: map[int]*NPoly{}, term: true, halves: map[string][]*NPoly{}}
		d.beta = c.intSym("beta", new(big.Int), new(big.Int).Sub(m, big.NewInt(1)))
		d.k = big.NewInt(1)
		d.a = c.intSym("a", big.NewInt(1), new(big.Int).Sub(m, big.NewInt(1)))
		d.cop = append(d.cop, [2]*NPoly{d.a, nconst(m)}) // the modulus is prime
		d.use()
		v := Val(BigV{d.a})
		if zero {
			v = BigV{nint(0)}
		}
		var arg PtrV
		if ty == "FR" {
			arg = g.newPtr(&StructV{[]Val{g.newPtr(v)}})
		} else {
			arg = g.newPtr(&StructV{[]Val{v}})
		}
		g.callM(ty, "Inverse", arg)
		g.ob(fmt.Sprintf("%s.Inverse returns (zero: %v)", ty, zero), true, g.where(fn), "%d ranking functions", d.ranked)
		if !zero {
			g.ob(ty+".Inverse: loops with ranking functions", d.ranked > 0, g.where(fn), "no loop")
		}
	}
}

// searches are the loops whose end depends on chance: try-and-increment and
// random sampling (C33).
var searches = map[string]bool{"HashG2WithDomain": true, "RandG1": true, "RandG2": true, "RandFQ": true, "RandFR": true}

// unrollers name the groups that follow the loops of a function to the end.
var unrollers = map[string]string{
	"FQReprFromBigInt": "C05", "FRReprFromBigInt": "C05", "G2AffineToPrepared": "C18", "MillerLoop": "C18",
}

func init() {
	register("C32", 60, func(r *Run) {
		r.unrollOnly = true
		for _, arch := range bothArch {
			arch := arch
			r.group(arch+"/FQ.Inverse", func(g *G) { invTerm(g, arch, "FQ", bigQ, 6) })
			r.group(arch+"/FR.Inverse", func(g *G) { invTerm(g, arch, "FR", bigR, 4) })
		}
		type loopAt struct {
			f    *ssa.Function
			L    *Loop
			arch string
			why  string
		}
		var all []loopAt
		need := map[string]bool{}
		skel := map[string]bool{}
		rest := false
		for _, arch := range bothArch {
			P := r.prog(arch)
			reach := reachFrom(P, P.apiFuncs())
			todo := map[*ssa.Function]bool{}
			for f := range reach {
				for _, L := range P.loopInfo(f).heads {
					why, ok := counted(L)
					if !ok {
						why = ""
					}
					all = append(all, loopAt{f, L, arch, why})
					if ok || f.Signature.Recv() == nil && searches[f.Name()] {
						continue
					}
					todo[f] = true
				}
			}
			for f := range todo { // the analyses of what calls it, or of its file
				found := false
				seen := map[*ssa.Function]bool{f: true}
				for work := []*ssa.Function{f}; len(work) > 0; work = work[1:] {
					h := work[0]
					n := h.Name()
					switch {
					case n == "Inverse":
					case h.Signature.Recv() != nil && (n == "Mul" || n == "MulFR" || n == "Exp" || n == "MulBits"):
						skel[strings.Trim(strings.SplitN(shortFn(h), ".", 2)[0], "(*)")+"."+n] = true
					case h.Signature.Recv() == nil && unrollers[n] != "":
						need[unrollers[n]] = true
					default:
						for c := range reach {
							if !seen[c] && refers(c, h) {
								seen[c] = true
								work = append(work, c)
							}
						}
						continue
					}
					found = true
				}
				if !found {
					pos := P.pos(f.Pos())
					ids, ok := fileProps[pos[:strings.LastIndex(pos, ":")]]
					if !ok {
						rest = true
					}
					for _, id := range ids {
						need[id] = true
					}
				}
			}
		}
		if rest { // some other loop: every analysis there is
			for _, id := range panicProps {
				need[id] = true
			}
		}
		var ids []string
		for id := range need {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			n := len(r.groups)
			props[id].setup(r)
			for i := n; i < len(r.groups); i++ {
				r.groups[i].name = id + ":" + r.groups[i].name
			}
		}
		for _, arch := range bothArch {
			for i := range curves {
				cv := &curves[i]
				for _, ty := range []string{cv.aff, cv.proj} {
					for n, w := range map[string]int{"Mul": 6, "MulFR": 4} {
						if skel[ty+"."+n] {
							scalarLoop(r, arch, ty, n, w, false, cv)
						}
					}
				}
			}
			for _, k := range []powKind{{"FQ", "Exp", true, ""}, {"FQ2", "Exp", true, ""}, {"FQ6", "Exp", true, ""}, {"FQ12", "Exp", true, ""}, {"FR", "Exp", true, ""}, {"FQ", "MulBits", false, ""}, {"FR", "MulBits", false, ""}} {
				words := 6
				if k.ty == "FR" {
					words = 4
				}
				if skel[k.ty+"."+k.name] {
					scalarLoop(r, arch, k.ty, k.name, words, k.one, nil)
				}
			}
		}
		r.last = func() {
			sort.Slice(all, func(i, j int) bool {
				if all[i].arch != all[j].arch {
					return all[i].arch < all[j].arch
				}
				return loopPos(all[i].L) < loopPos(all[j].L)
			})
			for _, l := range all {
				P := r.prog(l.arch)
				pos := P.pos(loopPos(l.L))
				o := &Ob{group: "loops/" + l.arch, name: shortFn(l.f) + ", loop at " + pos, ok: true, where: pos, detail: l.why}
				switch {
				case l.why != "":
				case r.unrolled[l.arch+" "+pos] > 0:
					o.detail = "ranking function, or no state is left at its head"
				case l.f.Signature.Recv() == nil && searches[l.f.Name()]:
					continue
				default:
					o.ok, o.detail = false, "no counter runs to a bound, and no analysis follows the loop to its end"
				}
				r.addOb(o)
			}
			for _, arch := range bothArch {
				P := r.prog(arch)
				reach := reachFrom(P, P.apiFuncs())
				cyc, wait := "", ""
				if c := callCycle(reach); c != nil {
					cyc = P.pos(c.Pos())
					r.addOb(&Ob{group: "calls/" + arch, name: "no recursion", where: cyc, detail: shortFn(c) + " calls itself"})
				} else {
					r.addOb(&Ob{group: "calls/" + arch, name: "no recursion", ok: true})
				}
				for f := range reach {
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							switch x := i.(type) {
							case *ssa.Send, *ssa.Select:
								wait = P.pos(i.Pos())
							case *ssa.UnOp:
								if x.Op == token.ARROW {
									wait = P.pos(i.Pos())
								}
							}
						}
					}
				}
				r.addOb(&Ob{group: "calls/" + arch, name: "nothing waits on a channel", ok: wait == "", where: wait, detail: "channel operation"})
			}
		}
	})
}

// scalarLoop follows an exponentiation loop for every exponent whose highest
// bit is in a range, at once: the length is one unknown, and what is asked of
// the bits below another.
func scalarLoop(r *Run, arch, ty, name string, words int, one bool, cv *curve) {
	const chunk = 32
	for from := 0; from <= 64*words; from += chunk {
		lo, hi := from, from+chunk-1
		if hi > 64*words {
			hi = 64 * words
		}
		r.group(fmt.Sprintf("loop:%s/%s.%s/exponents of %d..%d bits", arch, ty, name, lo, hi), func(g *G) {
			g.use(arch)
			g.useFQ()
			g.useFQ2()
			g.in.runInit(modPath)
			g.start()
			c := g.c
			c.grpAny, c.intGamma = true, true
			fn := g.method(ty, name)
			if cv != nil {
				g.usePoints()
			} else {
				g.useMonoid(ty, one)
			}
			repr := "FQRepr"
			if words == 4 {
				repr = "FRRepr"
			}
			if f := g.P.method(modPath, repr, "BitLen"); f != nil {
				g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
					return IntV{c.intSym("bits", big.NewInt(int64(lo)), big.NewInt(int64(hi)))}
				}
			}
			n := 0
			if f := g.P.method(modPath, repr, "Bit"); f != nil {
				g.in.intr[f.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
					n++
					return BoolV{c.bdd.atom(c.mkAtom(fmt.Sprintf("bit%d", n), Atom{kind: aOpaque, name: "a bit"}))}
				}
			}
			low := new(big.Int)
			if lo > 0 {
				low = pow2(lo - 1)
			}
			s := c.intSym("s", low, new(big.Int).Sub(pow2(hi), big.NewInt(1)))
			var p Val
			if cv != nil {
				p = g.newPtr(c.grpSym(cv.name, "P", nil))
			} else {
				p = g.newPtr(c.grpSym(ty, "P", nil))
				if ty == "FR" {
					p = g.newPtr(&StructV{[]Val{p}})
				}
			}
			g.callA(fn, p, g.newPtr(c.scalarWords(s, words)))
		})
	}
}

// fileProps are the checks that analyse the functions of a file.
var fileProps = map[string][]string{
	"fq.go": {"C02", "C10", "C25"}, "fr.go": {"C03", "C10", "C25"}, "fqrepr.go": {"C05"}, "frrepr.go": {"C05"},
	"fq2.go": {"C06", "C10"}, "fq6.go": {"C07", "C08"}, "fq12.go": {"C07", "C08"},
	"g1.go": {"C11", "C14", "C15", "C16", "C17", "C25"}, "g2.go": {"C12", "C14", "C15", "C16", "C17", "C18", "C23", "C25"},
	"pairing.go": {"C18", "C19", "C20"}, "hash.go": {"C23", "C24", "C25"},
	"g1pubs/bls.go": {"C21", "C22", "C25"}, "g2pubs/bls.go": {"C21", "C22", "C25"},
}

func refers(f, h *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if o != nil && *o == ssa.Value(h) {
					return true
				}
			}
		}
	}
	return false
}

// callCycle finds a function that can call itself.
func callCycle(fs map[*ssa.Function]bool) *ssa.Function {
	state := map[*ssa.Function]int{}
	var bad *ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		state[f] = 1
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					h, ok := (*o).(*ssa.Function)
					if !ok || !fs[h] {
						continue
					}
					switch state[h] {
					case 0:
						visit(h)
					case 1:
						bad = h
					}
				}
			}
		}
		state[f] = 2
	}
	for f := range fs {
		if state[f] == 0 {
			visit(f)
		}
	}
	return bad
}
