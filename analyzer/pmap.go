package main

// PMap is a persistent radix map from small non-negative ints to values.
// Path states share structure; joins skip shared subtrees.

type pnode struct {
	kids [16]*pnode
	v    Val
}

type PMap struct {
	root  *pnode
	depth int // levels; capacity 16^depth
}

func newPMap() *PMap { return &PMap{depth: 1} }

func (m *PMap) get(k int) Val {
	if m == nil || k>>(4*m.depth) != 0 {
		return nil
	}
	n := m.root
	for d := m.depth - 1; d >= 0 && n != nil; d-- {
		n = n.kids[(k>>(4*d))&15]
	}
	if n == nil {
		return nil
	}
	return n.v
}

func (m *PMap) set(k int, v Val) *PMap {
	root, depth := m.root, m.depth
	for k>>(4*depth) != 0 {
		if root != nil {
			r := &pnode{}
			r.kids[0] = root
			root = r
		}
		depth++
	}
	return &PMap{root: pset(root, k, depth, v), depth: depth}
}

func pset(n *pnode, k, d int, v Val) *pnode {
	r := &pnode{}
	if n != nil {
		*r = *n
	}
	if d == 0 {
		r.v = v
		return r
	}
	i := (k >> (4 * (d - 1))) & 15
	r.kids[i] = pset(r.kids[i], k, d-1, v)
	return r
}

// pmerge joins two maps: f is called for keys bound differently.
func pmerge(a, b *PMap, f func(k int, x, y Val) Val) *PMap {
	if a.root == b.root {
		return a
	}
	for a.depth < b.depth {
		r := &pnode{}
		r.kids[0] = a.root
		if a.root == nil {
			r = nil
		}
		a = &PMap{root: r, depth: a.depth + 1}
	}
	for b.depth < a.depth {
		r := &pnode{}
		r.kids[0] = b.root
		if b.root == nil {
			r = nil
		}
		b = &PMap{root: r, depth: b.depth + 1}
	}
	var rec func(x, y *pnode, k, d int) *pnode
	rec = func(x, y *pnode, k, d int) *pnode {
		if x == y {
			return x
		}
		if d == 0 {
			var xv, yv Val
			if x != nil {
				xv = x.v
			}
			if y != nil {
				yv = y.v
			}
			v := f(k, xv, yv)
			if v == nil {
				return nil
			}
			return &pnode{v: v}
		}
		r := &pnode{}
		for i := 0; i < 16; i++ {
			var p, q *pnode
			if x != nil {
				p = x.kids[i]
			}
			if y != nil {
				q = y.kids[i]
			}
			if p == q {
				r.kids[i] = p
				continue
			}
			r.kids[i] = rec(p, q, k<<4|i, d-1)
		}
		return r
	}
	return &PMap{root: rec(a.root, b.root, 0, a.depth), depth: a.depth}
}

// each visits all bindings.
func (m *PMap) each(f func(k int, v Val)) {
	var rec func(n *pnode, k, d int)
	rec = func(n *pnode, k, d int) {
		if n == nil {
			return
		}
		if d == 0 {
			if n.v != nil {
				f(k, n.v)
			}
			return
		}
		for i, c := range n.kids {
			rec(c, k<<4|i, d-1)
		}
	}
	rec(m.root, 0, m.depth)
}

// pdiff calls f for the keys bound differently.
func pdiff(a, b *PMap, f func(k int, x, y Val)) {
	pmerge(a, b, func(k int, x, y Val) Val {
		f(k, x, y)
		return x
	})
}
