package main

// C04: inversion and division.  The binary extended-Euclid loops are decided
// with inductive invariants found by elimination: at every loop head each
// integer cell is a fresh symbol with a candidate range, and every candidate
// relation x = y beta (mod m) between two cells -- beta being the wanted
// inverse -- that does not survive one pass over the body is dropped.  The
// towers are decided as identities of fractions.

import (
	"fmt"
	"go/token"
	"math/big"
)

type invDom struct {
	g    *G
	ty   string // FQ or FR
	m    *big.Int
	n    int // words
	beta *NPoly
	a    *NPoly         // the operand (Montgomery form)
	k    *big.Int       // a beta = k (mod m)
	res  map[int]*NPoly // residues of symbols modulo m
	unk  int
	pin  [][2]*NPoly // (x, y): x = y beta for the live symbols, kept for reporting
	heads,
	invs int

	// termination
	term   bool
	cop    [][2]*NPoly // coprime
	ge     []condGE    // not negative
	halves map[string][]*NPoly
	ranked int
}

// asInt reads an integer cell.
func (d *invDom) num(fr *Frame, v Val) *NPoly {
	switch x := v.(type) {
	case BigV:
		return x.p
	case *ArrayV:
		if p := nconstOf(wordSum(x)); p != nil {
			return nconst(p)
		}
	}
	return nil
}

// resid is p modulo m over the base symbols.
func (d *invDom) resid(p *NPoly) *NPoly {
	for {
		ch := false
		for v := range p.vars() {
			if r := d.res[v]; r != nil {
				p = p.subst(v, r, zi(1))
				ch = true
			}
		}
		p = d.mod(p)
		if !ch {
			return p
		}
	}
}

func (d *invDom) mod(p *NPoly) *NPoly {
	// a beta = k
	av, bv := -1, -1
	for v := range d.a.vars() {
		av = v
	}
	for v := range d.beta.vars() {
		bv = v
	}
	r := &NPoly{t: map[Mono]Z{}}
	for mo, c := range p.t {
		co := new(big.Int).Set(c.Int)
		for av >= 0 && mo.expOf(av) > 0 && mo.expOf(bv) > 0 {
			var l []VE
			for _, ve := range mo.list() {
				if ve.V == av || ve.V == bv {
					ve.E--
				}
				if ve.E > 0 {
					l = append(l, ve)
				}
			}
			mo = mkMono(l)
			co.Mul(co, d.k)
		}
		co.Mod(co, d.m)
		if co.Sign() != 0 {
			r.accum(mo, Z{co})
		}
	}
	o := &NPoly{t: map[Mono]Z{}}
	for mo, c := range r.t {
		if co := new(big.Int).Mod(c.Int, d.m); co.Sign() != 0 {
			o.t[mo] = Z{co}
		}
	}
	return o
}

// half is the integer p/2, p being even under the path condition.
func (d *invDom) half(st *State, p *NPoly) *NPoly {
	c := d.g.c
	if k := nconstOf(p); k != nil {
		return nconst(new(big.Int).Rsh(k, 1))
	}
	even := c.bdd.and(st.cond, c.bdd.not(d.even(st, p))) == bFalse
	lo, hi := c.bounds(p, c.facts(st.cond))
	if lo == nil || hi == nil || lo.Sign() < 0 {
		panic(Unresolved{"halving a value that may be negative: " + c.show(p)})
	}
	low := new(big.Int)
	if even && lo.Sign() > 0 {
		low.SetInt64(1)
	}
	name := fmt.Sprintf("half%v:%s:%s:%s", even, low, hi, p.Key())
	if id, ok := c.symIx[name]; ok {
		d.halfFacts(st, p, nvar(id), lo.Sign() > 0)
		return nvar(id)
	}
	s := c.intSym(name, low, new(big.Int).Rsh(hi, 1))
	id := 0
	for v := range s.vars() {
		id = v
	}
	c.symIx[name] = id
	if d.term {
		if even {
			d.halves[s.Key()] = append(d.halves[s.Key()], p)
		}
	}
	d.halfFacts(st, p, s, lo.Sign() > 0)
	if even {
		i2 := new(big.Int).ModInverse(big.NewInt(2), d.m)
		d.res[id] = d.mod(d.resid(p).Scale(Z{i2}))
	}
	return s
}

// even is the condition that p is even: one atom per value modulo 2.
func (d *invDom) even(st *State, p *NPoly) B {
	c := d.g.c
	q := &NPoly{t: map[Mono]Z{}}
	odd := false
	for m, co := range p.t {
		if co.Int.Bit(0) == 0 {
			continue
		}
		if m == "" {
			odd = true
			continue
		}
		q.t[m] = zi(1)
	}
	b := bTrue
	if len(q.t) > 0 {
		b = c.bdd.atom(c.mkAtom("even:"+q.Key(), Atom{kind: aOpaque, name: c.show(q) + " is even"}))
	}
	if odd {
		b = c.bdd.not(b)
	}
	return c.bdd.restrict(b, st.cond)
}

func (d *invDom) leaf(fr *Frame, st *State, v Val, k func(st *State, p *NPoly, cell PtrV) Val) Val {
	var rec func(st *State, v Val, cell PtrV) Val
	rec = func(st *State, v Val, cell PtrV) Val {
		return d.g.in.fork(st, v, func(st *State, v Val) Val {
			switch x := v.(type) {
			case PtrV:
				y := d.g.in.load(fr, st, x, fr.site)
				if st.cond == bFalse {
					return nil
				}
				return rec(st, y, x)
			case *StructV:
				if len(x.f) == 1 {
					if cell.obj != 0 {
						if _, ok := x.f[0].(PtrV); !ok {
							cell = PtrV{cell.obj, pathAdd(cell.path, 0)}
						}
					}
					return rec(st, x.f[0], cell)
				}
			}
			p := d.num(fr, v)
			if p == nil {
				d.g.in.fail(fr, token.NoPos, "integer expected, got %s", d.g.c.showV(v))
			}
			return k(st, p, cell)
		})
	}
	return rec(st, v, PtrV{})
}

func (d *invDom) leaves(fr *Frame, st *State, vs []Val, k func(st *State, ps []*NPoly, cells []PtrV) Val) Val {
	var rec func(st *State, i int, ps []*NPoly, cells []PtrV) Val
	rec = func(st *State, i int, ps []*NPoly, cells []PtrV) Val {
		if i == len(vs) {
			return k(st, ps, cells)
		}
		return d.leaf(fr, st, vs[i], func(st *State, p *NPoly, cell PtrV) Val {
			return rec(st, i+1, append(ps[:i:i], p), append(cells[:i:i], cell))
		})
	}
	return rec(st, 0, nil, nil)
}

func (d *invDom) use() {
	g := d.g
	in, c := g.in, g.c
	repr := d.ty + "Repr"
	R := pow2(64 * d.n)
	set := func(ty, name string, f func(fr *Frame, st *State, ps []*NPoly, cells []PtrV) Val) {
		if fn := g.P.method(modPath, ty, name); fn != nil {
			in.intr[fn.String()] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
				return d.leaves(fr, st, a, func(st *State, ps []*NPoly, cells []PtrV) Val { return f(fr, st, ps, cells) })
			}
		}
	}
	mut := func(ty, name string, f func(fr *Frame, st *State, ps []*NPoly) Val) {
		set(ty, name, func(fr *Frame, st *State, ps []*NPoly, cells []PtrV) Val {
			if cells[0].obj == 0 {
				in.fail(fr, token.NoPos, "in-place operation on a value")
			}
			in.store(fr, st, cells[0], f(fr, st, ps), token.NoPos)
			return &TupleV{}
		})
	}
	below := func(fr *Frame, st *State, p *NPoly, hi *big.Int, what string) {
		l, h := c.bounds(p, c.facts(st.cond))
		if l == nil || h == nil || l.Sign() < 0 || h.Cmp(hi) >= 0 {
			in.fail(fr, token.NoPos, "%s may leave its range: %s in [%v,%v]", what, c.show(p), l, h)
		}
	}
	cmp := func(fr *Frame, st *State, ps []*NPoly) Val {
		f := c.facts(st.cond)
		x := ps[0].Sub(ps[1])
		lt := c.bdd.restrict(c.lt0(x, f), st.cond)
		eq := c.bdd.restrict(c.eq0(x, f), st.cond)
		return c.gamma(eq, iconst(0), c.gamma(lt, iconst(-1), iconst(1)))
	}
	for _, ty := range []string{repr, d.ty} {
		set(ty, "Cmp", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val {
			if ty == d.ty {
				in.fail(fr, token.NoPos, "order of field elements")
			}
			return cmp(fr, st, ps)
		})
		set(ty, "Equals", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val {
			return BoolV{c.eq0(ps[0].Sub(ps[1]), c.facts(st.cond))}
		})
		set(ty, "IsZero", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val {
			return BoolV{c.eq0(ps[0], c.facts(st.cond))}
		})
	}
	set(repr, "IsEven", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val { return BoolV{d.even(st, ps[0])} })
	set(repr, "IsOdd", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val { return BoolV{c.bdd.not(d.even(st, ps[0]))} })
	mut(repr, "Div2", func(fr *Frame, st *State, ps []*NPoly) Val { return BigV{d.half(st, ps[0])} })
	mut(repr, "AddNoCarry", func(fr *Frame, st *State, ps []*NPoly) Val {
		s := ps[0].Add(ps[1])
		below(fr, st, s, R, "sum")
		return BigV{s}
	})
	mut(repr, "SubNoBorrow", func(fr *Frame, st *State, ps []*NPoly) Val {
		s := ps[0].Sub(ps[1])
		below(fr, st, s, R, "difference")
		return BigV{s}
	})
	field := func(fr *Frame, st *State, ps []*NPoly) {
		for _, p := range ps {
			below(fr, st, p, d.m, "field element")
		}
	}
	mut(d.ty, "SubAssign", func(fr *Frame, st *State, ps []*NPoly) Val {
		field(fr, st, ps)
		x := ps[0].Sub(ps[1])
		return c.gamma(c.bdd.restrict(c.lt0(x, c.facts(st.cond)), st.cond), BigV{x.Add(nconst(d.m))}, BigV{x})
	})
	mut(d.ty, "AddAssign", func(fr *Frame, st *State, ps []*NPoly) Val {
		field(fr, st, ps)
		x := ps[0].Add(ps[1])
		y := x.Sub(nconst(d.m))
		return c.gamma(c.bdd.restrict(c.lt0(y, c.facts(st.cond)), st.cond), BigV{x}, BigV{y})
	})
	if fn := g.P.method(modPath, repr, "Copy"); fn != nil && isPtrType(fn.Signature.Results().At(0).Type()) {
		set(repr, "Copy", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val { return in.newPtr(st, BigV{ps[0]}) })
	} else {
		set(repr, "Copy", func(fr *Frame, st *State, ps []*NPoly, _ []PtrV) Val { return BigV{ps[0]} })
	}
	in.loopAny = d.loop
}

// place is an integer cell: a leaf of a heap object or of a register.
type place struct {
	obj, reg int // reg < 0: heap
	path     string
}

func (d *invDom) get(pl place, st *State, env []Val) Val {
	if pl.reg >= 0 {
		return d.g.in.getPath(env[pl.reg], pl.path)
	}
	return d.g.in.getPath(st.heap.get(pl.obj), pl.path)
}

// changed lists the integer leaves that differ; ok is false when something
// else differs as well.
func (d *invDom) changed(x, y Val, pl place, out map[place]bool) bool {
	if x == nil || y == nil || veq(x, y) {
		return true
	}
	if d.isNum(x) && d.isNum(y) {
		out[pl] = true
		return true
	}
	switch a := x.(type) {
	case *StructV:
		if b, ok := y.(*StructV); ok && len(a.f) == len(b.f) {
			for i := range a.f {
				q := pl
				q.path = pathAdd(pl.path, i)
				if !d.changed(a.f[i], b.f[i], q, out) {
					return false
				}
			}
			return true
		}
	case *ArrayV:
		if b, ok := y.(*ArrayV); ok && len(a.e) == len(b.e) {
			for i := range a.e {
				q := pl
				q.path = pathAdd(pl.path, i)
				if !d.changed(a.e[i], b.e[i], q, out) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (d *invDom) isNum(v Val) bool {
	switch x := v.(type) {
	case BigV:
		return true
	case *ArrayV:
		ws, ok := flatWords(x)
		return ok && len(ws) == d.n && d.num(nil, x) != nil
	case *GammaV:
		for _, a := range x.alts {
			if !d.isNum(a.v) {
				return false
			}
		}
		return true
	}
	return false
}

// loop decides a loop by invariants; loops that change no integer cell are
// unrolled.
func (d *invDom) loop(fr *Frame, L *Loop, ins []edge) ([]xedge, bool) {
	in, c := d.g.in, d.g.c
	st0, env0 := fr.merge(L.head, ins)
	var first []xedge
	if d.term && L.parent != nil { // the first iteration by itself: no iteration leaves everything as it was
		nret, mark := len(fr.rets), len(in.panics)
		var back []edge
		for _, x := range fr.regionAt(L, st0, env0) {
			if x.to != L.head {
				first = append(first, x)
			} else if !d.g.infeasible(x.e.st.cond) {
				back = append(back, x.e)
			}
		}
		if len(back) == 0 {
			return first, true
		}
		s1, e1 := fr.merge(L.head, back)
		ch := map[place]bool{}
		ok := true
		pdiff(st0.heap, s1.heap, func(k int, x, y Val) {
			if x != nil && !d.changed(x, y, place{k, -1, ""}, ch) {
				ok = false
			}
		})
		if !ok || len(ch) == 0 {
			fr.rets, in.panics = fr.rets[:nret], in.panics[:mark]
			return nil, false
		}
		st0, env0 = s1, e1
	}
	rk := &ranking{d: d, lo: map[place]int64{}, cop: map[coPair]bool{}, le: map[place]bool{}}
	mark := len(in.panics)
	set := map[place]bool{}
	var order []place
	// a cell is the join of its alternatives
	each := func(v Val, cond B, f func(cond B, p *NPoly) bool) bool {
		if g, ok := v.(*GammaV); ok {
			for _, a := range g.alts {
				b := c.bdd.and(cond, a.b)
				if b == bFalse || d.g.infeasible(b) {
					continue
				}
				p := d.num(fr, a.v)
				if p == nil || !f(b, p) {
					return false
				}
			}
			return true
		}
		p := d.num(fr, v)
		return p != nil && f(cond, p)
	}
	hi := map[place]*big.Int{}
	mm1 := new(big.Int).Sub(d.m, big.NewInt(1))
	tops := []*big.Int{mm1, d.m, new(big.Int).Sub(pow2(64*d.n), big.NewInt(1))}
	inRange := func(v Val, cond B, hi *big.Int) bool {
		return each(v, cond, func(cond B, p *NPoly) bool {
			l, h := c.bounds(p, c.facts(cond))
			return l != nil && h != nil && l.Sign() >= 0 && h.Cmp(hi) <= 0
		})
	}
	holds := func(x, y Val, cond B) bool {
		return each(x, cond, func(cond B, p *NPoly) bool {
			return each(y, cond, func(cond B, q *NPoly) bool {
				w := p.Sub(q.Mul(d.beta))
				if len(q.t) == 0 {
					return false // 0 beta says nothing
				}
				return len(d.resid(w).t) == 0
			})
		})
	}
	type pair struct{ x, y place }
	pairs := map[pair]bool{}
	lower := func(pl place, v Val, cond B) bool { // weakens the range until v is in it
		ch := false
		for {
			if inRange(v, cond, hi[pl]) {
				return ch
			}
			i := 0
			for tops[i].Cmp(hi[pl]) != 0 {
				i++
			}
			if i+1 == len(tops) {
				in.fail(fr, L.head.Instrs[0].Pos(), "a cell may leave the range of its type")
			}
			hi[pl], ch = tops[i+1], true
		}
	}
	ncell := 0
	for round := 0; round < 60; round++ {
		// entry
		st, env := st0, append([]Val(nil), env0...)
		syms := map[place]*NPoly{}
		for _, pl := range order {
			id := c.newSym(Sym{name: fmt.Sprintf("cell%d.%d", d.heads, ncell), lo: big.NewInt(rk.lo[pl]), hi: hi[pl]})
			ncell++
			syms[pl] = nvar(id)
		}
		d.heads++
		for p := range pairs {
			for v := range syms[p.x].vars() {
				d.res[v] = syms[p.y].Mul(d.beta)
			}
		}
		for _, pl := range order {
			if pl.reg >= 0 {
				env[pl.reg] = in.setPath(env[pl.reg], pl.path, BigV{syms[pl]})
			} else {
				st.heap = st.heap.set(pl.obj, in.setPath(st.heap.get(pl.obj), pl.path, BigV{syms[pl]}))
			}
		}
		if d.term {
			rk.assume(&st, syms)
		}
		in.panics = in.panics[:mark]
		nret := len(fr.rets)
		out := fr.regionAt(L, st, env)
		stable := true
		exits := append([]xedge(nil), first...)
		rk.open()
		for _, x := range out {
			if x.to != L.head {
				exits = append(exits, x)
				continue
			}
			if d.g.infeasible(x.e.st.cond) {
				continue
			}
			s1, e1 := fr.merge(L.head, []edge{x.e})
			// anything new that changes
			ch := map[place]bool{}
			ok := true
			pdiff(st.heap, s1.heap, func(k int, x, y Val) {
				if x != nil && !d.changed(x, y, place{k, -1, ""}, ch) {
					ok = false
				}
			})
			for r := range e1 {
				if e1[r] != nil && !d.changed(env[r], e1[r], place{0, r, ""}, ch) {
					ok = false
				}
			}
			if !ok {
				if len(order) == 0 && len(ch) == 0 {
					fr.rets = fr.rets[:nret]
					in.panics = in.panics[:mark]
					return nil, false
				}
				in.fail(fr, L.head.Instrs[0].Pos(), "the loop changes something that is not an integer cell")
			}
			for pl := range ch {
				if !set[pl] {
					stable = false
					set[pl] = true
				}
			}
			if !stable {
				continue
			}
			for _, pl := range order {
				if lower(pl, d.get(pl, &s1, e1), s1.cond) {
					stable = false
				}
			}
			for p := range pairs {
				if !holds(d.get(p.x, &s1, e1), d.get(p.y, &s1, e1), s1.cond) {
					delete(pairs, p)
					stable = false
				}
			}
			if d.term && len(order) > 0 && !rk.keep(fr, order, syms, func(pl place) Val { return d.get(pl, &s1, e1) }, s1.cond) {
				stable = false
			}
		}
		if stable && d.term && len(order) > 0 {
			rk.conclude(fr, L)
		}
		if stable {
			if len(order) == 0 {
				fr.rets = fr.rets[:nret]
				in.panics = in.panics[:mark]
				return nil, false // nothing changes: unroll
			}
			d.invs++
			return exits, true
		}
		fr.rets = fr.rets[:nret]
		if len(set) != len(order) { // start again with all candidates
			order = order[:0]
			for pl := range set {
				order = append(order, pl)
			}
			sortPlaces(order)
			pairs = map[pair]bool{}
			for _, pl := range order {
				hi[pl] = tops[0]
				lower(pl, d.get(pl, &st0, env0), st0.cond)
			}
			if d.term {
				rk.start(fr, L, order, func(pl place) Val { return d.get(pl, &st0, env0) }, st0.cond)
			}
			used := map[place]bool{}
			for _, x := range order {
				for _, y := range order {
					if x != y && !used[x] && holds(d.get(x, &st0, env0), d.get(y, &st0, env0), st0.cond) {
						pairs[pair{x, y}] = true
						used[x] = true
					}
				}
			}
			for p := range pairs { // no cycles
				if used[p.y] {
					delete(pairs, p)
				}
			}
		}
	}
	in.fail(fr, L.head.Instrs[0].Pos(), "no inductive invariant found")
	return nil, false
}

func sortPlaces(l []place) {
	less := func(a, b place) bool {
		if a.obj != b.obj {
			return a.obj < b.obj
		}
		if a.reg != b.reg {
			return a.reg < b.reg
		}
		return a.path < b.path
	}
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && less(l[j], l[j-1]); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// regionAt runs the loop body once from a given state at its head.
func (fr *Frame) regionAt(L *Loop, st State, env []Val) []xedge {
	return fr.region(L, L.head, []edge{{nil, st, env}})
}

func init() {
	register("C04", 60, func(r *Run) {
		for _, arch := range bothArch {
			arch := arch
			r.group(arch+"/FQ.Inverse", func(g *G) { invBase(g, arch, "FQ", bigQ, 6) })
			r.group(arch+"/FR.Inverse", func(g *G) { invBase(g, arch, "FR", bigR, 4) })
			for _, t := range append(append([]tower(nil), towers[:2]...), tower{ty: "FQ12", atom: "FQ6", n: 2, order: []int{0, 1}}) {
				t := t
				r.group(arch+"/"+t.ty+".InverseAssign", func(g *G) { invTower(g, arch, t) })
			}
			for _, ty := range []string{"FQ", "FQ2"} {
				ty := ty
				r.group(arch+"/"+ty+".DivAssign", func(g *G) { divObs(g, arch, ty) })
			}
		}
	})
}

func invBase(g *G, arch, ty string, m *big.Int, n int) {
	g.use(arch)
	g.in.runInit(modPath)
	fn := g.method(ty, "Inverse")
	where := g.where(fn)
	R := pow2(64 * n)
	ri := new(big.Int).ModInverse(R, m)
	for _, zero := range []bool{false, true} {
		g.start()
		c := g.c
		d := &invDom{g: g, ty: ty, m: m, n: n, res: map[int]*NPoly{}}
		d.beta = c.intSym("beta", new(big.Int), new(big.Int).Sub(m, big.NewInt(1)))
		d.k = new(big.Int).Mod(new(big.Int).Mul(R, R), m) // (aR) (R/a) = R^2
		d.a = c.intSym("a", big.NewInt(1), new(big.Int).Sub(m, big.NewInt(1)))
		d.use()
		v := Val(BigV{d.a})
		if zero {
			v = BigV{nint(0)}
		}
		_ = ri
		var arg PtrV
		if ty == "FR" {
			arg = g.newPtr(&StructV{[]Val{g.newPtr(v)}})
		} else {
			arg = g.newPtr(&StructV{[]Val{v}})
		}
		before := snapshot(g, arg)
		mark := len(g.in.panics)
		res := g.callM(ty, "Inverse", arg)
		if zero {
			if ty == "FR" {
				yes, _ := g.isNil(res)
				g.ob("FR.Inverse of zero is nil", yes, where, "returns %s", g.c.showV(res))
			} else {
				g.ob("FQ.Inverse of zero reports failure", g.boolOf(g.tuple(res, 1)) == bFalse, where, "success reported")
			}
		} else {
			val := res
			if ty == "FQ" {
				ok, why := g.sameCond(g.boolOf(g.tuple(res, 1)), bTrue)
				g.ob("FQ.Inverse of a non-zero element succeeds", ok, where, "%s", why)
				val = g.tuple(res, 0)
			}
			k := 0
			st := g.st
			fr := &Frame{in: g.in, fn: fn}
			d.leaf(fr, &st, val, func(st *State, p *NPoly, _ PtrV) Val {
				if g.infeasible(st.cond) {
					return nil
				}
				k++
				lo, hi := c.bounds(p, c.facts(st.cond))
				g.ob(fmt.Sprintf("%s.Inverse: result in canonical range (case %d)", ty, k), lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0, where, "%s is in [%v,%v]", c.show(p), lo, hi)
				w := d.resid(p)
				for v := range w.vars() {
					if c.syms[v].lo != nil && c.syms[v].hi != nil && c.bdd.and(st.cond, c.bdd.not(c.eq0(nvar(v).Sub(nint(1)), c.base))) == bFalse {
						w = w.subst(v, nint(1), zi(1))
					}
				}
				w = d.mod(w.Sub(d.beta))
				g.ob(fmt.Sprintf("%s.Inverse: result times the operand is one (case %d)", ty, k), len(w.t) == 0, where, "result differs from the inverse by %s (mod m)", c.show(w))
				return nil
			})
			g.ob(ty+".Inverse: result exists", k > 0, where, "no result")
			g.ob(ty+".Inverse: loops decided by invariants", d.invs > 0, where, "no loop")
		}
		g.ob(fmt.Sprintf("%s.Inverse: operand unchanged (zero: %v)", ty, zero), veq(before, snapshot(g, arg)), where, "the operand is written")
		g.noPanics(fmt.Sprintf("%s.Inverse (zero: %v)", ty, zero), mark, where)
	}
}

// useFQ6 makes FQ6 atomic: a field with a symbol v for the cubic root.
func (g *G) useFQ6() {
	in, c := g.in, g.c
	F := c.F
	in.zeroAt[modPath+".FQ6"] = func(in *Interp) Val { return &ElemV{"FQ6", F.konst(ki(0))} }
	set := func(name string, h Intrinsic) {
		if f := g.P.method(modPath, "FQ6", name); f != nil {
			in.intr[f.String()] = h
		}
	}
	fieldIntr(in, "FQ6", set)
	set("MulByNonresidueAssign", mutator("FQ6", 1, func(in *Interp, st *State, e []*ElemV) *Elem {
		return F.Mul(e[0].e, F.elem(F.sym("v", true)))
	}))
	set("Copy", func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return elems(in, fr, st, a, func(st *State, es []*ElemV, ps []Val) Val { return in.newPtr(st, es[0]) })
	})
}

func invTower(g *G, arch string, t tower) {
	g.l1(arch, t.ty != "FQ2")
	F := g.c.F
	fn := g.method(t.ty, "InverseAssign")
	where := g.where(fn)
	mk := func(zero bool) (PtrV, []*Elem) {
		if t.ty != "FQ12" {
			if zero {
				es := mapE(make([]*Elem, t.n), func(*Elem) *Elem { return F.konst(ki(0)) })
				return t.obj(g, es), es
			}
			return t.mk(g, "a")
		}
		es := []*Elem{F.elem(F.sym("a0", true)), F.elem(F.sym("a1", true))}
		if zero {
			es = []*Elem{F.konst(ki(0)), F.konst(ki(0))}
		}
		return g.newPtr(&StructV{[]Val{g.newPtr(&ElemV{"FQ6", es[0]}), g.newPtr(&ElemV{"FQ6", es[1]})}}), es
	}
	if t.ty == "FQ12" {
		g.useFQ6()
	}
	mul := func(a, b []*Elem) []*Elem {
		if t.ty != "FQ12" {
			return t.mul(F, a, b)
		}
		v := F.elem(F.sym("v", true))
		return []*Elem{F.Add(F.Mul(a[0], b[0]), F.Mul(v, F.Mul(a[1], b[1]))), F.Add(F.Mul(a[0], b[1]), F.Mul(a[1], b[0]))}
	}
	// the norm: the element is zero exactly when its norm is
	norm := func(a []*Elem) *Elem {
		switch t.ty {
		case "FQ2":
			return F.Add(F.Mul(a[0], a[0]), F.Mul(a[1], a[1]))
		case "FQ6":
			// a0^3 + xi a1^3 + xi^2 a2^3 - 3 xi a0 a1 a2
			c3 := func(e *Elem) *Elem { return F.Mul(e, F.Mul(e, e)) }
			r := F.Add(c3(a[0]), F.Scale(c3(a[1]), kXi))
			r = F.Add(r, F.Scale(c3(a[2]), kXi.Mul(kXi)))
			return F.Sub(r, F.Scale(F.Mul(a[0], F.Mul(a[1], a[2])), kXi.Mul(ki(3))))
		}
		return F.Sub(F.Mul(a[0], a[0]), F.Mul(F.elem(F.sym("v", true)), F.Mul(a[1], a[1])))
	}
	p, es := mk(false)
	g.assume(g.c.bdd.not(F.isZero(norm(es).num, g.c.facts(g.st.cond))))
	mark := len(g.in.panics)
	flag := g.callM(t.ty, "InverseAssign", p)
	ok, why := g.sameCond(g.boolOf(flag), bTrue)
	g.ob(t.ty+".InverseAssign of a non-zero element succeeds", ok, where, "%s", why)
	one := make([]*Elem, len(es))
	for i := range one {
		one[i] = F.konst(ki(0))
	}
	one[0] = F.konst(ki(1))
	g.sameEs(t.ty+".InverseAssign: the result times the element is one", where, mul(g.coefs(p), es), one)
	g.noPanics(t.ty+".InverseAssign", mark, where)
	g.start()
	p, es = mk(true)
	mark = len(g.in.panics)
	flag = g.callM(t.ty, "InverseAssign", p)
	g.ob(t.ty+".InverseAssign of zero reports failure", g.boolOf(flag) == bFalse, where, "success reported")
	g.sameEs(t.ty+".InverseAssign of zero leaves it", where, g.coefs(p), es)
	g.noPanics(t.ty+".InverseAssign of zero", mark, where)
}

func divObs(g *G, arch, ty string) {
	g.l1(arch, ty == "FQ2")
	F := g.c.F
	fn := g.method(ty, "DivAssign")
	where := g.where(fn)
	mk := func(n string) *Elem {
		if ty == "FQ" {
			return g.fqSym(n)
		}
		return g.fq2Sym(n)
	}
	a, b := mk("a"), mk("b")
	for _, alias := range []bool{false, true} {
		g.start()
		x, y := g.newPtr(&ElemV{ty, a}), g.newPtr(&ElemV{ty, b})
		d := b
		if alias {
			y, d = x, a
		}
		g.assume(g.c.bdd.not(F.isZero(d.num, g.c.facts(g.st.cond))))
		mark := len(g.in.panics)
		g.callM(ty, "DivAssign", x, y)
		name := fmt.Sprintf("%s.DivAssign (same operand: %v)", ty, alias)
		g.sameEs(name+": the quotient times the divisor is the dividend", where, []*Elem{F.Mul(g.el(x), d)}, []*Elem{a})
		if !alias {
			g.sameEs(name+": divisor unchanged", where, []*Elem{g.el(y)}, []*Elem{b})
		}
		g.noPanics(name, mark, where)
	}
}
