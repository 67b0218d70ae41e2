package main

// Ranking functions for the loops decided by invariants: the sum of one or two
// cells, none of them ever negative, falls with every iteration.  What makes it
// fall is found like the other invariants, as candidates that survive the
// body: lower bounds, coprimality of two cells (from which differences cannot
// be zero and two values cannot both be even), and bounds by the entry value.

type coPair struct {
	x, y place
	q    string // a value of an enclosing loop instead of y
}

type ranking struct {
	d     *invDom
	lo    map[place]int64
	cop   map[coPair]bool
	le    map[place]bool
	entry map[place]*NPoly
	pool  map[string]*NPoly
	meas  [][]place
	live  []bool
	edges int
}

func (rk *ranking) alts(v Val, cond B, f func(p *NPoly, cond B) bool) bool {
	d := rk.d
	if g, ok := v.(*GammaV); ok {
		for _, a := range g.alts {
			b := d.g.c.bdd.and(cond, a.b)
			if b == bFalse || d.g.infeasible(b) {
				continue
			}
			if !rk.alts(a.v, b, f) {
				return false
			}
		}
		return true
	}
	p := d.num(nil, v)
	return p != nil && f(p, cond)
}

func (rk *ranking) altsN(vs []Val, cond B, f func(ps []*NPoly, cond B) bool) bool {
	var rec func(i int, ps []*NPoly, cond B) bool
	rec = func(i int, ps []*NPoly, cond B) bool {
		if i == len(vs) {
			return f(ps, cond)
		}
		return rk.alts(vs[i], cond, func(p *NPoly, cond B) bool { return rec(i+1, append(ps[:i:i], p), cond) })
	}
	return rec(0, nil, cond)
}

// condGE is p >= 0 on the paths of a condition.
type condGE struct {
	p    *NPoly
	cond B
}

// halfFacts records floor(p/2) <= p, and < p when p is positive.
func (d *invDom) halfFacts(st *State, p, h *NPoly, pos bool) {
	if !d.term {
		return
	}
	x := p.Sub(h)
	if pos {
		x = x.Sub(nint(1))
	}
	for _, f := range d.ge {
		if f.cond == st.cond && f.p.Equal(x) {
			return
		}
	}
	d.ge = append(d.ge, condGE{x, st.cond})
}

// nonneg proves p >= 0 from its bounds and sums of known facts.
func (d *invDom) nonneg(p *NPoly, cond B, depth int) bool {
	c := d.g.c
	if lo, _ := c.bounds(p, c.facts(cond)); lo != nil && lo.Sign() >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for i := len(d.ge) - 1; i >= 0; i-- {
		if c.bdd.and(cond, c.bdd.not(d.ge[i].cond)) != bFalse {
			continue
		}
		f := d.ge[i].p
		use := false
		for m, co := range f.t { // removes a negative term
			if m == "" {
				continue
			}
			if pc, ok := p.t[m]; ok && pc.Sign() < 0 && co.Sign() < 0 {
				use = true
			}
		}
		if use && d.nonneg(p.Sub(f), cond, depth-1) {
			return true
		}
	}
	return false
}

// coprime derives gcd(p, q) = 1.
func (d *invDom) coprime(p, q *NPoly, depth int) bool {
	one := nint(1)
	if p.Equal(one) || q.Equal(one) {
		return true
	}
	for _, f := range d.cop {
		if f[0].Equal(p) && f[1].Equal(q) || f[0].Equal(q) && f[1].Equal(p) {
			return true
		}
	}
	if depth == 0 {
		return false
	}
	for _, w := range d.halves[p.Key()] {
		if d.coprime(w, q, depth-1) {
			return true
		}
	}
	for _, w := range d.halves[q.Key()] {
		if d.coprime(p, w, depth-1) {
			return true
		}
	}
	if nconstOf(p) == nil && nconstOf(q) == nil {
		for _, w := range [][2]*NPoly{{p.Add(q), q}, {p.Sub(q), q}, {p, q.Add(p)}, {p, q.Sub(p)}} {
			if len(w[0].t)+len(w[1].t) < len(p.t)+len(q.t) && d.coprime(w[0], w[1], depth-1) {
				return true
			}
		}
	}
	return false
}

// positive proves p >= 1.
func (d *invDom) positive(p *NPoly, cond B) bool {
	c := d.g.c
	f := c.facts(cond)
	lo, _ := c.bounds(p, f)
	if lo == nil || lo.Sign() < 0 {
		return false
	}
	if lo.Sign() > 0 {
		return true
	}
	not1 := func(q *NPoly) bool { return c.bdd.and(cond, c.eq0(q.Sub(nint(1)), f)) == bFalse }
	for _, w := range d.cop { // equal and coprime values are one
		x := w[0].Sub(w[1])
		if (x.Equal(p) || x.Equal(p.Scale(zi(-1)))) && (not1(w[0]) || not1(w[1])) {
			return true
		}
	}
	return false
}

func (rk *ranking) start(fr *Frame, L *Loop, order []place, get func(place) Val, cond B) {
	d := rk.d
	rk.pool = map[string]*NPoly{}
	for _, f := range d.cop {
		for _, p := range f {
			rk.pool[p.Key()] = p
		}
	}
	rk.lo, rk.cop, rk.le, rk.entry = map[place]int64{}, map[coPair]bool{}, map[place]bool{}, map[place]*NPoly{}
	for i, x := range order {
		v := get(x)
		if rk.alts(v, cond, func(p *NPoly, cond B) bool { return d.positive(p, cond) }) {
			rk.lo[x] = 1
		}
		if L.parent != nil {
			if p := d.num(nil, v); p != nil {
				rk.entry[x], rk.le[x] = p, true
			}
		}
		for _, y := range order[i+1:] {
			if rk.copIn(v, get(y), cond) {
				rk.cop[coPair{x: x, y: y}] = true
			}
		}
		for k, q := range rk.pool {
			if rk.copIn(v, BigV{q}, cond) {
				rk.cop[coPair{x: x, q: k}] = true
			}
		}
	}
	rk.meas = nil
	for i, x := range order {
		rk.meas = append(rk.meas, []place{x})
		for _, y := range order[i+1:] {
			rk.meas = append(rk.meas, []place{x, y})
		}
	}
}

func (rk *ranking) copIn(x, y Val, cond B) bool {
	return rk.altsN([]Val{x, y}, cond, func(ps []*NPoly, cond B) bool { return rk.d.coprime(ps[0], ps[1], 4) })
}

// assume adds the candidates at the head.
func (rk *ranking) assume(st *State, syms map[place]*NPoly) {
	d := rk.d
	c := d.g.c
	for k := range rk.cop {
		p, q := syms[k.x], rk.pool[k.q]
		if k.q == "" {
			q = syms[k.y]
		}
		d.cop = append(d.cop, [2]*NPoly{p, q})
		both := c.bdd.and(d.even(st, p), d.even(st, q))
		st.cond = c.bdd.and(st.cond, c.bdd.not(both))
	}
	for x := range rk.le {
		d.ge = append(d.ge, condGE{rk.entry[x].Sub(syms[x]), st.cond})
	}
}

func (rk *ranking) open() {
	rk.live = make([]bool, len(rk.meas))
	for i := range rk.live {
		rk.live[i] = true
	}
	rk.edges = 0
}

// keep drops the candidates a back edge does not keep and the measures it does
// not lower.
func (rk *ranking) keep(fr *Frame, order []place, syms map[place]*NPoly, get func(place) Val, cond B) bool {
	d := rk.d
	same := true
	rk.edges++
	for _, x := range order {
		v := get(x)
		if rk.lo[x] == 1 && !rk.alts(v, cond, func(p *NPoly, cond B) bool { return d.positive(p, cond) }) {
			rk.lo[x], same = 0, false
		}
		if rk.le[x] && !rk.alts(v, cond, func(p *NPoly, cond B) bool { return d.nonneg(rk.entry[x].Sub(p), cond, 3) }) {
			delete(rk.le, x)
			same = false
		}
	}
	for k := range rk.cop {
		y := Val(nil)
		if k.q == "" {
			y = get(k.y)
		} else {
			y = BigV{rk.pool[k.q]}
		}
		if !rk.copIn(get(k.x), y, cond) {
			delete(rk.cop, k)
			same = false
		}
	}
	for i, m := range rk.meas {
		if !rk.live[i] {
			continue
		}
		vs := make([]Val, len(m))
		old := nint(-1)
		for j, x := range m {
			vs[j] = get(x)
			old = old.Add(syms[x])
		}
		rk.live[i] = rk.altsN(vs, cond, func(ps []*NPoly, cond B) bool {
			w := old
			for _, p := range ps {
				w = w.Sub(p)
			}
			return d.nonneg(w, cond, 4)
		})
	}
	return same
}

// conclude requires a measure that every back edge lowers.
func (rk *ranking) conclude(fr *Frame, L *Loop) {
	d := rk.d
	ok := rk.edges == 0
	for _, l := range rk.live {
		ok = ok || l
	}
	if !ok {
		d.g.in.fail(fr, loopPos(L), "no value is shown to fall with every iteration: the loop may run for ever")
	}
	d.ranked++
	d.g.in.unrolled[L.head]++
}
