package main

// Maps and symbolic strings.  A map object lists its updates, latest last;
// the entry a key finds is the latest one with an equal key.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type MapObj struct{ ents []mapEnt }
type mapEnt struct {
	key, val Val // val nil: deleted
}

func (m *MapObj) equal(o *MapObj) bool {
	if m == o {
		return true
	}
	if len(m.ents) != len(o.ents) {
		return false
	}
	for i := range m.ents {
		if !veq(m.ents[i].key, o.ents[i].key) || !veq(m.ents[i].val, o.ents[i].val) {
			return false
		}
	}
	return true
}

// asSeq is the content of a string value.
func (in *Interp) asSeq(v Val) (*SeqV, bool) {
	switch x := v.(type) {
	case *SeqV:
		return x, true
	case StrV:
		r := &SeqV{}
		for k := 0; k < len(x.s); k++ {
			b := iconst(int64(x.s[k]))
			r.segs = append(r.segs, Seg{b: &b})
		}
		return r, true
	}
	return nil, false
}

// withMap runs f on the contents of the map v.
func (in *Interp) withMap(fr *Frame, st *State, v Val, pos token.Pos, f func(st *State, p PtrV, m *MapObj) Val) Val {
	return in.fork(st, v, func(st *State, v Val) Val {
		p, ok := v.(PtrV)
		if !ok {
			in.fail(fr, pos, "map expected, got %s", in.c.showV(v))
		}
		if p.obj == 0 {
			return f(st, p, &MapObj{})
		}
		return in.fork(st, st.heap.get(p.obj), func(st *State, v Val) Val {
			m, ok := v.(*MapObj)
			if !ok {
				in.fail(fr, pos, "map expected, got %s", in.c.showV(v))
			}
			return f(st, p, m)
		})
	})
}

func (in *Interp) mapUpdate(fr *Frame, st *State, mv, key, val Val, pos token.Pos) {
	in.withMap(fr, st, mv, pos, func(st *State, p PtrV, m *MapObj) Val {
		if p.obj == 0 {
			in.panic(fr, st, "assignment to entry in nil map", pos)
			return nil
		}
		if in.writes != nil {
			in.writes[p.obj] = true
		}
		st.heap = st.heap.set(p.obj, &MapObj{append(m.ents[:len(m.ents):len(m.ents)], mapEnt{key, val})})
		return &TupleV{}
	})
}

func (in *Interp) mapLookup(fr *Frame, st *State, i *ssa.Lookup, mv, key Val) Val {
	if _, ok := i.X.Type().Underlying().(*types.Map); !ok { // index of a string
		return in.fork(st, key, func(st *State, k Val) Val { return in.indexVal(fr, st, mv, in.asInt(fr, k), i.Pos()) })
	}
	t := i.X.Type().Underlying().(*types.Map).Elem()
	return in.withMap(fr, st, mv, i.Pos(), func(st *State, p PtrV, m *MapObj) Val {
		r := Val(&TupleV{[]Val{in.zero(t), BoolV{bFalse}}})
		for _, e := range m.ents {
			v := Val(&TupleV{[]Val{e.val, BoolV{bTrue}}})
			if e.val == nil {
				v = &TupleV{[]Val{in.zero(t), BoolV{bFalse}}}
			}
			r = in.c.gamma(in.c.bdd.restrict(in.equal(fr, st, key, e.key, i.Pos()), st.cond), v, r)
		}
		if !i.CommaOk {
			return in.fork(st, r, func(st *State, v Val) Val { return in.c.simp(v.(*TupleV).e[0], st.cond) })
		}
		return r
	})
}

// mapLen counts the different keys present.
func (in *Interp) mapLen(fr *Frame, st *State, m *MapObj) Val {
	n := Val(iconst(0))
	for k, e := range m.ents {
		live := in.c.bdd.not(bFalse)
		for _, l := range m.ents[k+1:] {
			live = in.c.bdd.and(live, in.c.bdd.not(in.equal(fr, st, e.key, l.key, token.NoPos)))
		}
		if e.val == nil {
			continue
		}
		live = in.c.bdd.restrict(live, st.cond)
		n = in.fork(st, n, func(st *State, v Val) Val {
			return in.c.gamma(live, IntV{in.asInt(fr, v).Add(nint(1))}, v)
		})
	}
	return n
}
