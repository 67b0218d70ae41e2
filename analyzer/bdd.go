package main

// Reduced ordered binary decision diagrams over interned atoms.  Path
// conditions and boolean program values are BDD nodes.

type B int32

const (
	bFalse B = 0
	bTrue  B = 1
)

type bddNode struct {
	v      int32 // atom
	lo, hi B
}

type iteKey struct{ f, g, h B }

type BDD struct {
	n    []bddNode
	uniq map[bddNode]B
	ite_ map[iteKey]B
}

func newBDD() *BDD {
	b := &BDD{uniq: map[bddNode]B{}, ite_: map[iteKey]B{}}
	b.n = append(b.n, bddNode{1 << 30, 0, 0}, bddNode{1 << 30, 1, 1})
	return b
}

func (d *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bddNode{v, lo, hi}
	if r, ok := d.uniq[k]; ok {
		return r
	}
	r := B(len(d.n))
	d.n = append(d.n, k)
	d.uniq[k] = r
	return r
}

func (d *BDD) atom(v int) B { return d.mk(int32(v), bFalse, bTrue) }

func (d *BDD) cof(f B, v int32, val bool) B {
	if d.n[f].v == v {
		if val {
			return d.n[f].hi
		}
		return d.n[f].lo
	}
	return f
}

func (d *BDD) ite(f, g, h B) B {
	if f == bTrue {
		return g
	}
	if f == bFalse {
		return h
	}
	if g == h {
		return g
	}
	if g == bTrue && h == bFalse {
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := d.ite_[k]; ok {
		return r
	}
	v := d.n[f].v
	if d.n[g].v < v {
		v = d.n[g].v
	}
	if d.n[h].v < v {
		v = d.n[h].v
	}
	lo := d.ite(d.cof(f, v, false), d.cof(g, v, false), d.cof(h, v, false))
	hi := d.ite(d.cof(f, v, true), d.cof(g, v, true), d.cof(h, v, true))
	r := d.mk(v, lo, hi)
	d.ite_[k] = r
	return r
}

func (d *BDD) not(f B) B    { return d.ite(f, bFalse, bTrue) }
func (d *BDD) and(f, g B) B { return d.ite(f, g, bFalse) }
func (d *BDD) or(f, g B) B  { return d.ite(f, bTrue, g) }
func (d *BDD) xor(f, g B) B { return d.ite(f, d.not(g), g) }

// constrain simplifies f under the assumption c (Coudert-Madre restrict).
func (d *BDD) restrict(f, c B) B {
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == bTrue || f <= 1 {
			return f
		}
		if c == bFalse {
			return f
		}
		if f == c {
			return bTrue
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		vf, vc := d.n[f].v, d.n[c].v
		var r B
		switch {
		case vc < vf:
			r = rec(f, d.or(d.n[c].lo, d.n[c].hi))
		case d.cof(c, vf, true) == bFalse:
			r = rec(d.n[f].lo, d.cof(c, vf, false))
		case d.cof(c, vf, false) == bFalse:
			r = rec(d.n[f].hi, d.cof(c, vf, true))
		default:
			r = d.mk(vf, rec(d.n[f].lo, d.cof(c, vf, false)), rec(d.n[f].hi, d.cof(c, vf, true)))
		}
		memo[k] = r
		return r
	}
	r := rec(f, c)
	if d.and(c, d.not(r)) == bFalse {
		return bTrue
	}
	if d.and(c, r) == bFalse {
		return bFalse
	}
	return r
}

type Lit struct {
	Atom int
	Pos  bool
}

// implied returns the literals implied by c.
func (d *BDD) implied(c B) []Lit {
	if c <= 1 {
		return nil
	}
	memo := map[B]map[int]int8{}
	var rec func(f B) map[int]int8
	rec = func(f B) map[int]int8 {
		if m, ok := memo[f]; ok {
			return m
		}
		m := map[int]int8{}
		if f > 1 {
			n := d.n[f]
			switch {
			case n.lo == bFalse:
				for k, v := range rec(n.hi) {
					m[k] = v
				}
				m[int(n.v)] = 1
			case n.hi == bFalse:
				for k, v := range rec(n.lo) {
					m[k] = v
				}
				m[int(n.v)] = -1
			default:
				a, b := rec(n.lo), rec(n.hi)
				for k, v := range a {
					if b[k] == v {
						m[k] = v
					}
				}
			}
		}
		memo[f] = m
		return m
	}
	var out []Lit
	for k, v := range rec(c) {
		out = append(out, Lit{k, v > 0})
	}
	sortLits(out)
	return out
}

func sortLits(l []Lit) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].Atom < l[j-1].Atom; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// cubes enumerates the disjoint cubes of f, up to max; ok=false if exceeded.
func (d *BDD) cubes(f B, max int) (out [][]Lit, ok bool) {
	ok = true
	var cur []Lit
	var rec func(f B)
	rec = func(f B) {
		if !ok || f == bFalse {
			return
		}
		if f == bTrue {
			if len(out) >= max {
				ok = false
				return
			}
			out = append(out, append([]Lit(nil), cur...))
			return
		}
		n := d.n[f]
		cur = append(cur, Lit{int(n.v), false})
		rec(n.lo)
		cur[len(cur)-1].Pos = true
		rec(n.hi)
		cur = cur[:len(cur)-1]
	}
	rec(f)
	return
}

func (d *BDD) support(f B) map[int]bool {
	s := map[int]bool{}
	seen := map[B]bool{}
	var rec func(B)
	rec = func(f B) {
		if f <= 1 || seen[f] {
			return
		}
		seen[f] = true
		s[int(d.n[f].v)] = true
		rec(d.n[f].lo)
		rec(d.n[f].hi)
	}
	rec(f)
	return s
}

func (d *BDD) cubeB(l []Lit) B {
	r := bTrue
	for _, x := range l {
		a := d.atom(x.Atom)
		if !x.Pos {
			a = d.not(a)
		}
		r = d.and(r, a)
	}
	return r
}
