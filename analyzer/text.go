package main

// Text values: literal pieces and runs of hexadecimal digits of integers, and
// the formatting functions of the standard library over them.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TextV is a string built from pieces.
type TextV struct{ segs []TSeg }

// TSeg is a literal (num and opq nil), exactly w lower-case hexadecimal digits of num,
// or the printed form of something else.
type TSeg struct {
	lit string
	num *NPoly
	w   int
	opq Val
}

func (a *TextV) equal(b *TextV) bool {
	if len(a.segs) != len(b.segs) {
		return false
	}
	for i, x := range a.segs {
		y := b.segs[i]
		if x.lit != y.lit || x.w != y.w || (x.num == nil) != (y.num == nil) || (x.opq == nil) != (y.opq == nil) {
			return false
		}
		if x.num != nil && !x.num.Equal(y.num) || x.opq != nil && !veq(x.opq, y.opq) {
			return false
		}
	}
	return true
}

// textOf joins pieces; neighbouring digits make one number.
func textOf(segs ...TSeg) *TextV {
	t := &TextV{}
	for _, s := range segs {
		if s.num == nil && s.opq == nil && s.lit == "" {
			continue
		}
		if n := len(t.segs); n > 0 {
			l := &t.segs[n-1]
			switch {
			case l.num != nil && s.num != nil:
				*l = TSeg{num: l.num.Scale(Z{pow2(4 * s.w)}).Add(s.num), w: l.w + s.w}
				continue
			case l.num == nil && l.opq == nil && s.num == nil && s.opq == nil:
				*l = TSeg{lit: l.lit + s.lit}
				continue
			}
		}
		t.segs = append(t.segs, s)
	}
	return t
}

func asText(v Val) ([]TSeg, bool) {
	switch x := v.(type) {
	case StrV:
		return []TSeg{{lit: x.s}}, true
	case *TextV:
		return x.segs, true
	}
	return nil, false
}

// textVal is a plain constant where nothing else is left.
func textVal(segs ...TSeg) Val {
	t := textOf(segs...)
	switch {
	case len(t.segs) == 0:
		return StrV{""}
	case len(t.segs) == 1 && t.segs[0].num == nil && t.segs[0].opq == nil:
		return StrV{t.segs[0].lit}
	}
	return t
}

// hexSeg prints x with w digits if it always fits; otherwise its length varies.
func (in *Interp) hexSeg(st *State, x *NPoly, w int, verb string) TSeg {
	lo, hi := in.c.bounds(x, in.f(st))
	if w > 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(pow2(4*w)) < 0 {
		return TSeg{num: x, w: w}
	}
	return TSeg{opq: &OpqV{"printed " + verb, []Val{IntV{x}}}}
}

// many applies f to the texts of several values, by cases.
func (in *Interp) many(st *State, vs []func(st *State, k func(st *State, segs []TSeg) Val) Val) Val {
	var rec func(st *State, i int, acc []TSeg) Val
	rec = func(st *State, i int, acc []TSeg) Val {
		if i == len(vs) {
			return textVal(acc...)
		}
		return vs[i](st, func(st *State, s []TSeg) Val {
			return rec(st, i+1, append(append([]TSeg(nil), acc...), s...))
		})
	}
	return rec(st, 0, nil)
}

// printed is the text of one operand under a verb.
func (in *Interp) printed(fr *Frame, st *State, arg Val, verb byte, zero bool, w int, k func(st *State, segs []TSeg) Val) Val {
	return in.fork(st, arg, func(st *State, v Val) Val {
		iv, ok := v.(IfaceV)
		if !ok || iv.typ == nil {
			return k(st, []TSeg{{opq: &OpqV{"printed %" + string(verb), []Val{v}}}})
		}
		vb := "%" + string(verb)
		other := func(st *State, v Val) Val { return k(st, []TSeg{{opq: &OpqV{"printed " + vb, []Val{v}}}}) }
		if verb == 's' || verb == 'v' {
			if m := in.stringer(iv.typ); m != nil && w == 0 {
				r := in.invoke(fr, fr.site, st, m, []Val{iv.v}, nil)
				if st.cond == bFalse {
					return nil
				}
				return in.fork(st, r, func(st *State, v Val) Val {
					if s, ok := asText(v); ok {
						return k(st, s)
					}
					return other(st, v)
				})
			}
		}
		return in.fork(st, iv.v, func(st *State, v Val) Val {
			if s, ok := asText(v); ok && w == 0 && (verb == 's' || verb == 'v') {
				return k(st, s)
			}
			if verb != 'x' {
				return other(st, v)
			}
			switch x := v.(type) {
			case IntV:
				if !zero {
					w = 0
				}
				return k(st, []TSeg{in.hexSeg(st, x.p, w, vb)})
			case *ArrayV, SliceV:
				es, ok := in.bytesIn(fr, st, iv.typ, x)
				if !ok || w != 0 {
					return other(st, v)
				}
				return k(st, in.hexBytes(st, es))
			case PtrV:
				if n := typeName(iv.typ); n == "math/big.Int" && x.obj != 0 {
					if b, ok := in.load(fr, st, x, fr.site).(BigV); ok && zero {
						return k(st, []TSeg{in.hexSeg(st, b.p, w, vb)})
					}
				}
			}
			return other(st, v)
		})
	})
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// stringer is the String method formatting calls, if the type has one of the analysed packages.
func (in *Interp) stringer(t types.Type) (m *ssa.Function) {
	if !strings.HasPrefix(typeName(t), modPath) {
		return nil
	}
	sel := in.P.prog.MethodSets.MethodSet(t).Lookup(nil, "String")
	if sel == nil {
		return nil
	}
	if s, ok := sel.Type().(*types.Signature); !ok || s.Params().Len() != 0 || s.Results().Len() != 1 {
		return nil
	}
	return in.P.prog.MethodValue(sel)
}

func (in *Interp) bytesIn(fr *Frame, st *State, t types.Type, v Val) ([]Val, bool) {
	var el types.Type
	switch u := t.Underlying().(type) {
	case *types.Array:
		el = u.Elem()
	case *types.Slice:
		el = u.Elem()
	default:
		return nil, false
	}
	if b, ok := el.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ArrayV:
		return x.e, true
	case SliceV:
		return in.sliceElems(fr, st, x), true
	}
	return nil, false
}

func (in *Interp) hexBytes(st *State, es []Val) (out []TSeg) {
	for _, e := range es {
		b, ok := e.(IntV)
		if !ok {
			return []TSeg{{opq: &OpqV{"bytes", es}}}
		}
		out = append(out, in.hexSeg(st, b.p, 2, "byte"))
	}
	return
}

// format is fmt.Sprintf.
func (in *Interp) format(fr *Frame, st *State, f string, args []Val) Val {
	var ps []func(st *State, k func(st *State, segs []TSeg) Val) Val
	lit := func(s string) {
		ps = append(ps, func(st *State, k func(*State, []TSeg) Val) Val { return k(st, []TSeg{{lit: s}}) })
	}
	n := 0
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j + 1
		s := i
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			i++
		}
		if i == len(f) {
			lit("%!(NOVERB)")
			break
		}
		if f[i] == '%' && s == i {
			lit("%")
			continue
		}
		digits := f[s:i]
		zero := strings.HasPrefix(digits, "0")
		w, _ := strconv.Atoi(digits)
		verb := f[i]
		if n >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		ps = append(ps, func(st *State, k func(*State, []TSeg) Val) Val {
			return in.printed(fr, st, a, verb, zero, w, k)
		})
	}
	for ; n < len(args); n++ {
		lit("%!(EXTRA)")
	}
	return in.many(st, ps)
}

func (in *Interp) useText() {
	I := in.intr
	list := func(fr *Frame, st *State, v Val) []Val {
		s, ok := v.(SliceV)
		if !ok {
			in.fail(fr, token.NoPos, "arguments %s", in.c.showV(v))
		}
		return in.sliceElems(fr, st, s)
	}
	sprintf := func(in *Interp, fr *Frame, st *State, f, args Val) Val {
		return in.fork(st, f, func(st *State, f Val) Val {
			s, ok := f.(StrV)
			if !ok {
				in.fail(fr, token.NoPos, "format %s", in.c.showV(f))
			}
			return in.format(fr, st, s.s, list(fr, st, args))
		})
	}
	I["fmt.Sprintf"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return sprintf(in, fr, st, a[0], a[1]) }
	I["fmt.Sprint"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		var ps []func(st *State, k func(st *State, segs []TSeg) Val) Val
		as := list(fr, st, a[0])
		for i, x := range as {
			x := x
			if i > 0 {
				// a space goes between operands neither of which is a string
				p, ok := as[i-1].(IfaceV)
				q, ok2 := x.(IfaceV)
				if !ok || !ok2 || !isStringType(p.typ) && !isStringType(q.typ) {
					ps = append(ps, func(st *State, k func(*State, []TSeg) Val) Val { return k(st, []TSeg{{lit: " "}}) })
				}
			}
			ps = append(ps, func(st *State, k func(*State, []TSeg) Val) Val { return in.printed(fr, st, x, 'v', false, 0, k) })
		}
		return in.many(st, ps)
	}
	I["encoding/hex.EncodeToString"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		return textVal(in.hexBytes(st, list(fr, st, a[0]))...)
	}
	I["strings.Join"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		sep, _ := asText(a[1])
		var segs []TSeg
		for i, e := range list(fr, st, a[0]) {
			s, ok := asText(e)
			if !ok {
				in.fail(fr, token.NoPos, "join of %s", in.c.showV(e))
			}
			if i > 0 {
				segs = append(segs, sep...)
			}
			segs = append(segs, s...)
		}
		return textVal(segs...)
	}
	// builders and buffers hold the text written so far
	add := func(in *Interp, fr *Frame, st *State, p, v Val) {
		x, ok := asText(in.load(fr, st, p, fr.site))
		y, ok2 := asText(v)
		if !ok || !ok2 {
			in.fail(fr, token.NoPos, "write of %s", in.c.showV(v))
		}
		in.store(fr, st, p, textVal(append(append([]TSeg(nil), x...), y...)...), token.NoPos)
	}
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		in.zeroAt[b] = func(in *Interp) Val { return StrV{""} }
		p := "(*" + b + ")."
		write := func(in *Interp, fr *Frame, st *State, a []Val) Val {
			return in.fork(st, a[1], func(st *State, v Val) Val {
				add(in, fr, st, a[0], v)
				return &TupleV{[]Val{OpqVal("written"), IfaceV{}}}
			})
		}
		I[p+"WriteString"] = write
		I[p+"WriteByte"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			k, ok := in.constInt(a[1])
			if !ok {
				in.fail(fr, token.NoPos, "byte %s", in.c.showV(a[1]))
			}
			add(in, fr, st, a[0], StrV{string(rune(k))})
			return IfaceV{}
		}
		I[p+"WriteRune"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
			k, ok := in.constInt(a[1])
			if !ok {
				in.fail(fr, token.NoPos, "rune %s", in.c.showV(a[1]))
			}
			add(in, fr, st, a[0], StrV{string(rune(k))})
			return &TupleV{[]Val{OpqVal("written"), IfaceV{}}}
		}
		I[p+"Grow"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return &TupleV{} }
		I[p+"String"] = func(in *Interp, fr *Frame, st *State, a []Val) Val { return in.load(fr, st, a[0], fr.site) }
	}
	I["fmt.Fprintf"] = func(in *Interp, fr *Frame, st *State, a []Val) Val {
		w, ok := a[0].(IfaceV)
		if n := ""; ok && w.typ != nil {
			if n = typeName(w.typ); n == "strings.Builder" || n == "bytes.Buffer" {
				return in.fork(st, sprintf(in, fr, st, a[1], a[2]), func(st *State, v Val) Val {
					add(in, fr, st, w.v, v)
					return &TupleV{[]Val{OpqVal("written"), IfaceV{}}}
				})
			}
		}
		in.fail(fr, token.NoPos, "print to %s", in.c.showV(a[0]))
		return nil
	}
}

func OpqVal(n string) Val { return &OpqV{n, nil} }

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// number is one expected run of digits.
type number struct {
	x *NPoly
	w int
}

// show is a readable form of a text.
func (t *TextV) show() string {
	var b strings.Builder
	for _, s := range t.segs {
		switch {
		case s.num != nil:
			b.WriteString("{" + strconv.Itoa(s.w) + " digits}")
		case s.opq != nil:
			b.WriteString("{?}")
		default:
			b.WriteString(s.lit)
		}
	}
	return strconv.Quote(b.String())
}

// prints decides that a text shows exactly the numbers wanted, each with all its digits and set
// apart from its surroundings.
func (g *G) prints(name, where string, v Val, want []number) {
	v = g.c.simp(v, g.st.cond)
	if _, ok := v.(*GammaV); ok {
		all := v.(*GammaV).alts
		for _, a := range all {
			if g.c.bdd.and(a.b, g.st.cond) != bFalse && !g.infeasible(a.b) {
				st := g.st
				g.st.cond = g.c.bdd.and(st.cond, a.b)
				g.prints(name, where, a.v, want)
				g.st = st
			}
		}
		return
	}
	segs, ok := asText(v)
	if !ok {
		g.ob(name, false, where, "result %s", g.c.showV(v))
		return
	}
	hexDigit := func(b byte) bool { return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F' }
	k := 0
	for i, s := range segs {
		if s.opq != nil {
			g.ob(name, false, where, "prints %s with a width or form that varies", g.c.showV(s.opq))
			return
		}
		if s.num == nil {
			continue
		}
		if k >= len(want) {
			g.ob(name, false, where, "more numbers than coordinates: %s", g.c.showV(v))
			return
		}
		w := want[k]
		k++
		good := s.w == w.w && g.c.eq0(s.num.Sub(w.x), g.c.facts(g.st.cond)) == bTrue
		if !g.ob(name+": number "+strconv.Itoa(k)+" is the coordinate in full", good, where, "%d digits of %s, expected %d digits of %s", s.w, g.c.show(s.num), w.w, g.c.show(w.x)) {
			return
		}
		before := i == 0 || !hexDigit(segs[i-1].lit[len(segs[i-1].lit)-1])
		after := i+1 == len(segs) || !hexDigit(segs[i+1].lit[0])
		g.ob(name+": number "+strconv.Itoa(k)+" is set apart", before && after, where, "%s", g.c.showV(v))
	}
	g.ob(name+": every coordinate is printed", k == len(want), where, "%d numbers, expected %d: %s", k, len(want), g.c.showV(v))
}
