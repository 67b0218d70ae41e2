package main

// Abstract values.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type IntV struct{ p *NPoly }  // a machine integer (exact value)
type BoolV struct{ b B }      // a boolean
type StrV struct{ s string }  // a constant string
type FltV struct{ f float64 } // unused numerics
type OpqV struct {            // an opaque value identified by a term
	tag  string
	args []Val
}
type StructV struct{ f []Val }
type ArrayV struct{ e []Val }
type TupleV struct{ e []Val }
type PtrV struct { // obj 0: nil
	obj  int
	path string // bytes of 2-byte indexes
}
type SliceV struct { // obj 0: nil slice
	obj           int
	path          string
	off, len, cap int
}
type IfaceV struct { // typ nil: nil interface
	typ types.Type
	v   Val
}
type FuncV struct {
	fn   *ssa.Function
	free []Val
	nat  func(in *Interp, fr *Frame, st *State, args []Val) Val
}

// ElemV is an atomic field element of a named type.
type ElemV struct {
	ty string // FQ, FQ2
	e  *Elem
}

// GrpV is an element of a free abelian group: sum of coeff_i * gen_i.
type GrpV struct {
	ty  string
	t   map[int]*NPoly
	mod *big.Int
	key string
}

// BigV is the value of a big.Int.
type BigV struct{ p *NPoly }

// SeqV is a byte sequence of symbolic content.
type SeqV struct{ segs []Seg }
type Seg struct {
	name string // symbolic part
	n    *NPoly // its length
	b    *IntV  // or a single byte
	id   int    // number of a byte that has been addressed
	fill bool   // zero bytes
}

// GammaV is one of several values, selected by disjoint conditions.
type GammaV struct{ alts []Alt }
type Alt struct {
	b B
	v Val
}

func iconst(x int64) IntV  { return IntV{nint(x)} }
func ibig(x *big.Int) IntV { return IntV{nconst(x)} }
func iuint(x uint64) IntV  { return IntV{nconst(new(big.Int).SetUint64(x))} }
func nilPtr() PtrV         { return PtrV{} }
func pathAdd(p string, i int) string {
	return p + string([]byte{byte(i >> 8), byte(i)})
}
func pathHead(p string) int { return int(p[0])<<8 | int(p[1]) }

func (g *GrpV) Key() string {
	if g.key == "" {
		var ks []int
		for k := range g.t {
			ks = append(ks, k)
		}
		sortInts(ks)
		s := g.ty
		for _, k := range ks {
			s += fmt.Sprintf("|%d:%s", k, g.t[k].Key())
		}
		g.key = s
	}
	return g.key
}

func sortInts(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// veq is structural equality of abstract values (exact, not semantic).
func veq(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case IntV:
		y, ok := b.(IntV)
		return ok && (x.p == y.p || x.p.Equal(y.p))
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x == y
	case StrV:
		y, ok := b.(StrV)
		return ok && x == y
	case *TextV:
		y, ok := b.(*TextV)
		return ok && x.equal(y)
	case FltV:
		y, ok := b.(FltV)
		return ok && x == y
	case *OpqV:
		y, ok := b.(*OpqV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.tag == y.tag && veqs(x.args, y.args)
	case *StructV:
		y, ok := b.(*StructV)
		return ok && (x == y || veqs(x.f, y.f))
	case *ArrayV:
		y, ok := b.(*ArrayV)
		return ok && (x == y || veqs(x.e, y.e))
	case *TupleV:
		y, ok := b.(*TupleV)
		return ok && (x == y || veqs(x.e, y.e))
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case SymV:
		y, ok := b.(SymV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && veq(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && (x == y || (x.fn != nil && x.fn == y.fn && veqs(x.free, y.free)))
	case *ElemV:
		y, ok := b.(*ElemV)
		return ok && (x == y || x.e.Key() == y.e.Key())
	case *GrpV:
		y, ok := b.(*GrpV)
		return ok && (x == y || x.Key() == y.Key())
	case BigV:
		y, ok := b.(BigV)
		return ok && x.p.Equal(y.p)
	case *SeqV:
		y, ok := b.(*SeqV)
		if !ok || len(x.segs) != len(y.segs) {
			return false
		}
		for i := range x.segs {
			s, t := x.segs[i], y.segs[i]
			if s.name != t.name || (s.b == nil) != (t.b == nil) {
				return false
			}
			if s.b != nil {
				if !veq(*s.b, *t.b) {
					return false
				}
			} else if !s.n.Equal(t.n) {
				return false
			}
		}
		return true
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x.equal(y)
	case *GammaV:
		y, ok := b.(*GammaV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].b != y.alts[i].b || !veq(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	}
	return false
}

func veqs(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !veq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// bitOf is the 0/1 polynomial of a condition.
func (c *Ctx) bitOf(b B) *NPoly {
	if b == bFalse {
		return nint(0)
	}
	if b == bTrue {
		return nint(1)
	}
	if p, ok := c.bits[b]; ok {
		return p
	}
	n := c.bdd.n[b]
	a := c.atomBit(int(n.v))
	lo, hi := c.bitOf(n.lo), c.bitOf(n.hi)
	p := c.idem(lo.Add(a.Mul(hi.Sub(lo))))
	c.bits[b] = p
	return p
}

func (c *Ctx) atomBit(id int) *NPoly {
	if p, ok := c.atoms[id].data.(*NPoly); ok && (c.polyBits || len(p.vars()) == 1) { // true iff p == 0, p in {0,1}
		return nint(1).Sub(p)
	}
	if p, ok := c.abits[id]; ok {
		return p
	}
	v := c.newSym(Sym{name: fmt.Sprintf("bit%d", id), lo: new(big.Int), hi: big.NewInt(1), class: "bit", data: id})
	p := nvar(v)
	c.abits[id] = p
	return p
}

// idem reduces powers of 0/1 symbols.
func (c *Ctx) idem(p *NPoly) *NPoly {
	need := false
	for m := range p.t {
		for _, ve := range m.list() {
			if ve.E > 1 && c.isBit(ve.V) {
				need = true
			}
		}
	}
	if !need {
		return p
	}
	r := &NPoly{t: map[Mono]Z{}}
	for m, co := range p.t {
		l := m.list()
		for i := range l {
			if l[i].E > 1 && c.isBit(l[i].V) {
				l[i].E = 1
			}
		}
		r.accum(mkMono(l), co)
	}
	return r
}

func (c *Ctx) isBit(v int) bool {
	s := &c.syms[v]
	return s.lo != nil && s.hi != nil && s.lo.Sign() == 0 && s.hi.IsInt64() && s.hi.Int64() == 1
}

// underCond substitutes decided bit symbols.
func (c *Ctx) underCond(p *NPoly, cond B) *NPoly {
	if cond <= 1 {
		return p
	}
	has := false
	for v := range p.vars() {
		if c.syms[v].class == "bit" || c.isBit(v) {
			has = true
			break
		}
	}
	if !has {
		return p
	}
	f := c.facts(cond)
	for v := range p.vars() {
		if c.syms[v].class == "bit" {
			id := c.syms[v].data.(int)
			a := c.bdd.atom(id)
			if c.bdd.and(cond, c.bdd.not(a)) == bFalse {
				p = p.subst(v, nint(1), zi(1))
			} else if c.bdd.and(cond, a) == bFalse {
				p = p.subst(v, nint(0), zi(1))
			}
		} else if lo, hi := c.symIv(v, f); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			p = p.subst(v, nconst(lo), zi(1))
		}
	}
	return p
}

// gamma joins X (when b) and Y (when not b).
func (c *Ctx) gamma(b B, x, y Val) Val {
	if b == bTrue {
		return x
	}
	if b == bFalse {
		return y
	}
	if veq(x, y) {
		return x
	}
	if c.poll != nil {
		c.poll()
	}
	switch xv := x.(type) {
	case BoolV:
		if yv, ok := y.(BoolV); ok {
			return BoolV{c.bdd.ite(b, xv.b, yv.b)}
		}
	case IntV:
		if yv, ok := y.(IntV); ok {
			if nconstOf(xv.p) == nil || nconstOf(yv.p) == nil {
				if c.intGamma {
					break
				}
				return IntV{c.idem(yv.p.Add(c.bitOf(b).Mul(xv.p.Sub(yv.p))))}
			}
			if p, ok := c.carryBit(b, xv.p, yv.p); ok {
				return IntV{p}
			}
		}
		if yv, ok := y.(*GammaV); ok && nconstOf(xv.p) == nil && !c.intGamma {
			return c.gamma(b, x, c.gammaInt(yv))
		}
	case *StructV:
		if yv, ok := y.(*StructV); ok && len(xv.f) == len(yv.f) {
			r := &StructV{make([]Val, len(xv.f))}
			for i := range r.f {
				r.f[i] = c.gamma(b, xv.f[i], yv.f[i])
			}
			return r
		}
	case *ArrayV:
		if yv, ok := y.(*ArrayV); ok && len(xv.e) == len(yv.e) {
			r := &ArrayV{make([]Val, len(xv.e))}
			for i := range r.e {
				r.e[i] = c.gamma(b, xv.e[i], yv.e[i])
			}
			return r
		}
	case *TupleV:
		if yv, ok := y.(*TupleV); ok && len(xv.e) == len(yv.e) {
			r := &TupleV{make([]Val, len(xv.e))}
			for i := range r.e {
				r.e[i] = c.gamma(b, xv.e[i], yv.e[i])
			}
			return r
		}
	case *GrpV:
		if yv, ok := y.(*GrpV); ok && xv.ty == yv.ty && !c.grpGamma {
			bp := c.bitOf(b)
			return c.grpAdd(yv, c.grpScale(c.grpAdd(xv, c.grpScale(yv, nint(-1))), bp))
		}
	case *GammaV:
		if yv, ok := y.(IntV); ok && nconstOf(yv.p) == nil && !c.intGamma {
			return c.gamma(b, c.gammaInt(xv), y)
		}
	}
	// general alternatives
	var alts []Alt
	add := func(cond B, v Val) {
		if cond == bFalse {
			return
		}
		for i := range alts {
			if veq(alts[i].v, v) {
				alts[i].b = c.bdd.or(alts[i].b, cond)
				return
			}
		}
		alts = append(alts, Alt{cond, v})
	}
	exp := func(cond B, v Val) {
		if g, ok := v.(*GammaV); ok {
			for _, a := range g.alts {
				add(c.bdd.and(cond, a.b), a.v)
			}
			return
		}
		add(cond, v)
	}
	exp(b, x)
	exp(c.bdd.not(b), y)
	if len(alts) == 1 {
		return alts[0].v
	}
	return &GammaV{alts}
}

// carryBit is "1 if b else 0" for a condition on a carry.
func (c *Ctx) carryBit(b B, x, y *NPoly) (*NPoly, bool) {
	xz, yz := nconstOf(x), nconstOf(y)
	if xz == nil || yz == nil || xz.BitLen() > 1 || yz.BitLen() > 1 || xz.Sign() < 0 || yz.Sign() < 0 || xz.Cmp(yz) == 0 || b <= 1 {
		return nil, false
	}
	n := c.bdd.n[b]
	if n.lo > 1 || n.hi > 1 {
		return nil, false
	}
	p, ok := c.atoms[n.v].data.(*NPoly) // the atom holds iff p = 0
	if !ok || c.atoms[n.v].kind != aEQ0 {
		return nil, false
	}
	for v := range p.vars() {
		if c.syms[v].e == nil {
			return nil, false
		}
	}
	if (n.hi == bTrue) == (xz.Sign() != 0) {
		p = nint(1).Sub(p)
	}
	return p, true
}

// gammaInt converts integer alternatives to one polynomial.
func (c *Ctx) gammaInt(g *GammaV) Val {
	var r *NPoly
	for i, a := range g.alts {
		iv, ok := a.v.(IntV)
		if !ok {
			return g
		}
		if i == 0 {
			r = iv.p
			continue
		}
		r = c.idem(r.Add(c.bitOf(a.b).Mul(iv.p.Sub(r))))
	}
	return IntV{r}
}

// simp drops alternatives impossible under cond.
func (c *Ctx) simp(v Val, cond B) Val {
	switch x := v.(type) {
	case *GammaV:
		var keep []Alt
		for _, a := range x.alts {
			if c.bdd.and(a.b, cond) != bFalse {
				keep = append(keep, a)
			}
		}
		if len(keep) == 1 {
			return c.simp(keep[0].v, cond)
		}
		if len(keep) == 0 {
			return x.alts[0].v // unreachable
		}
		if len(keep) < len(x.alts) {
			return &GammaV{keep}
		}
	case IntV:
		if nconstOf(x.p) == nil {
			if p := c.underCond(x.p, cond); p != x.p {
				return IntV{p}
			}
		}
	case BoolV:
		return BoolV{c.bdd.restrict(x.b, cond)}
	}
	return v
}

// ---- abelian-group values

func (c *Ctx) grpNorm(g *GrpV) *GrpV {
	if c.grpAny { // some element
		return c.grpSym(g.ty, "P", nil)
	}
	for k, p := range g.t {
		if g.mod != nil {
			q := &NPoly{t: map[Mono]Z{}}
			for m, co := range p.t {
				r := new(big.Int).Mod(co.Int, g.mod)
				if r.Sign() != 0 {
					q.t[m] = Z{r}
				}
			}
			p = q
		}
		p = c.idem(p)
		if len(p.t) == 0 {
			delete(g.t, k)
		} else {
			g.t[k] = p
		}
	}
	return g
}

func (c *Ctx) grpAdd(a, b *GrpV) *GrpV {
	r := &GrpV{ty: a.ty, mod: a.mod, t: map[int]*NPoly{}}
	for k, p := range a.t {
		r.t[k] = p
	}
	for k, p := range b.t {
		if o, ok := r.t[k]; ok {
			r.t[k] = o.Add(p)
		} else {
			r.t[k] = p
		}
	}
	return c.grpNorm(r)
}

func (c *Ctx) grpScale(a *GrpV, n *NPoly) *GrpV {
	r := &GrpV{ty: a.ty, mod: a.mod, t: map[int]*NPoly{}}
	for k, p := range a.t {
		r.t[k] = p.Mul(n)
	}
	return c.grpNorm(r)
}

func (c *Ctx) grpSym(ty, name string, mod *big.Int) *GrpV {
	id, ok := c.symIx["grp:"+name]
	if !ok {
		id = c.newSym(Sym{name: name, class: "grp"})
		c.symIx["grp:"+name] = id
	}
	return &GrpV{ty: ty, mod: mod, t: map[int]*NPoly{id: nint(1)}}
}

func (c *Ctx) showGrp(g *GrpV) string {
	if len(g.t) == 0 {
		return "0"
	}
	var ks []int
	for k := range g.t {
		ks = append(ks, k)
	}
	sortInts(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("[%s]%s", c.show(g.t[k]), c.syms[k].name))
	}
	return strings.Join(s, " + ")
}

func (c *Ctx) showV(v Val) string {
	switch x := v.(type) {
	case nil:
		return "undef"
	case IntV:
		return c.show(x.p)
	case BoolV:
		return c.showB(x.b)
	case StrV:
		return fmt.Sprintf("%q", x.s)
	case *TextV:
		return x.show()
	case *OpqV:
		var s []string
		for _, a := range x.args {
			s = append(s, c.showV(a))
		}
		return x.tag + "(" + strings.Join(s, ", ") + ")"
	case *StructV:
		var s []string
		for _, a := range x.f {
			s = append(s, c.showV(a))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case *ArrayV:
		var s []string
		for i, a := range x.e {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, c.showV(a))
		}
		return "[" + strings.Join(s, "; ") + "]"
	case *TupleV:
		var s []string
		for _, a := range x.e {
			s = append(s, c.showV(a))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case PtrV:
		if x.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&obj%d%x", x.obj, x.path)
	case SliceV:
		return fmt.Sprintf("slice(obj%d%x,%d,%d)", x.obj, x.path, x.off, x.len)
	case SymV:
		if x.lo+x.hi > 0 {
			return fmt.Sprintf("part of buffer%d", x.obj)
		}
		return fmt.Sprintf("buffer%d", x.obj)
	case IfaceV:
		if x.typ == nil {
			return "nil"
		}
		return "iface(" + x.typ.String() + ":" + c.showV(x.v) + ")"
	case *ElemV:
		return c.F.show(x.e)
	case *GrpV:
		return c.showGrp(x)
	case BigV:
		return "big(" + c.show(x.p) + ")"
	case *SeqV:
		var s []string
		for _, g := range x.segs {
			if g.b != nil {
				s = append(s, c.show(g.b.p))
			} else {
				s = append(s, g.name)
			}
		}
		return "bytes<" + strings.Join(s, ",") + ">"
	case *GammaV:
		var s []string
		for i, a := range x.alts {
			if i > 4 {
				s = append(s, "...")
				break
			}
			s = append(s, c.showB(a.b)+" => "+c.showV(a.v))
		}
		return "γ(" + strings.Join(s, " || ") + ")"
	case *FuncV:
		return "func"
	}
	return fmt.Sprintf("%T", v)
}
