package main

// The abstract interpreter: a flow-sensitive dataflow analysis over SSA with
// joins.  Calls are analysed in their calling context; loops whose guards are
// decided by constant propagation are unrolled, the others are summarised by
// handlers.  A state is a path condition (a BDD) and an abstract heap; at
// control-flow joins states are merged value by value.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	cond B
	heap *PMap
}

type edge struct {
	pred *ssa.BasicBlock
	st   State
	env  []Val
}

type Frame struct {
	in     *Interp
	fn     *ssa.Function
	li     *LoopInfo
	caller *Frame
	site   token.Pos
	rets   []retS
	depth  int
}

type retS struct {
	st State
	v  Val
}

type Panic struct {
	cond  B
	kind  string
	pos   string
	stack string
}

type Intrinsic func(in *Interp, fr *Frame, st *State, args []Val) Val

type Interp struct {
	P      *Prog
	c      *Ctx
	intr   map[string]Intrinsic
	atomic map[string]string // named type -> atomic kind
	glob   map[*ssa.Global]int
	nobj   int
	// byte buffers of symbolic length
	segID, nSpoil    int
	seqApp, seqShare map[int][]int // results of appends; buffers that may share storage
	seqFull          map[int]bool  // no room behind the end
	objName          map[int]string
	objPos           map[int]string
	panics           []Panic
	visited          map[*ssa.Function]int
	unrolled         map[*ssa.BasicBlock]int // loops followed to their end, by head
	nsteps           int
	used             map[string]bool // functions replaced by their contracts
	tick             func(fr *Frame) // called now and then
	limit            int
	initH            *PMap
	loopH            map[string]func(fr *Frame, l *Loop, in []edge) ([]xedge, bool)
	loopAny          func(fr *Frame, l *Loop, in []edge) ([]xedge, bool) // tried on every loop
	zeroAt           map[string]func(in *Interp) Val
	comp             func(in *Interp, v Val, i int) Val
	setComp          func(in *Interp, v Val, i int, nv Val) Val
	writes           map[int]bool // objects written (when tracked)
	zeroExt          Val
	asm              map[string][]*AsmFn
	asmSeen          map[string]int
	regs             []reg
	pairs            []ordPair
	uppers           []*Elem
	frs              []frReg
	loopCap          int     // iterations of undecided loops to follow (0: no cap)
	capped           []State // what is left beyond
	onExit           func(fr *Frame, st *State, v Val)
	onApp            func(fr *Frame, st *State, es []Val)
}

// Unresolved aborts the analysis of an obligation.
type Unresolved struct{ msg string }

func (in *Interp) fail(fr *Frame, pos token.Pos, f string, a ...interface{}) {
	where := ""
	if fr != nil {
		if !pos.IsValid() {
			pos = fr.fn.Pos()
		}
		where = in.P.pos(pos) + " (" + shortFn(fr.fn) + "): "
	}
	panic(Unresolved{where + fmt.Sprintf(f, a...)})
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+".", "")
}

func (fr *Frame) stack() string {
	var s []string
	for f := fr; f != nil; f = f.caller {
		s = append(s, shortFn(f.fn))
		if len(s) > 8 {
			break
		}
	}
	return strings.Join(s, " < ")
}

func newInterp(P *Prog, c *Ctx) *Interp {
	return &Interp{seqApp: map[int][]int{}, seqShare: map[int][]int{}, seqFull: map[int]bool{}, P: P, c: c, intr: map[string]Intrinsic{}, atomic: map[string]string{}, glob: map[*ssa.Global]int{},
		objName: map[int]string{}, objPos: map[int]string{}, unrolled: map[*ssa.BasicBlock]int{}, visited: map[*ssa.Function]int{}, limit: 3000, initH: newPMap(), zeroAt: map[string]func(in *Interp) Val{},
		loopH: map[string]func(fr *Frame, l *Loop, in []edge) ([]xedge, bool){}, asmSeen: map[string]int{}}
}

func (in *Interp) newObj(st *State, v Val) int {
	in.nobj++
	st.heap = st.heap.set(in.nobj, v)
	return in.nobj
}

func (in *Interp) newPtr(st *State, v Val) PtrV { return PtrV{in.newObj(st, v), ""} }

// ---- types

func named(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (in *Interp) zero(t types.Type) Val {
	if n := named(t); n != "" {
		if f, ok := in.zeroAt[n]; ok {
			return f(in)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{bFalse}
		case u.Info()&types.IsInteger != 0:
			return iconst(0)
		case u.Info()&types.IsString != 0:
			return StrV{""}
		case u.Info()&types.IsFloat != 0:
			return FltV{0}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Struct:
		r := &StructV{make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = in.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := &ArrayV{make([]Val, u.Len())}
		if u.Len() > 0 {
			z := in.zero(u.Elem())
			for i := range r.e {
				r.e[i] = z
			}
		}
		return r
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map:
		return PtrV{}
	case *types.Chan:
		return PtrV{}
	case *types.Tuple:
		r := &TupleV{make([]Val, u.Len())}
		for i := range r.e {
			r.e[i] = in.zero(u.At(i).Type())
		}
		return r
	}
	panic(Unresolved{"zero value of " + t.String()})
}

func (in *Interp) intBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	n := int(in.P.sizes.Sizeof(b)) * 8
	return n, b.Info()&types.IsUnsigned == 0
}

// ---- memory

func (in *Interp) getPath(v Val, path string) Val {
	for path != "" {
		i := pathHead(path)
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *ArrayV:
			if i >= len(x.e) {
				panic(Unresolved{"index beyond abstract array"})
			}
			v = x.e[i]
		case *SeqV:
			b := x.comp(i)
			if b == nil {
				panic(Unresolved{"byte of a buffer that has changed"})
			}
			v = *b
		case *GammaV:
			var r Val
			for k, a := range x.alts {
				y := in.getPath(a.v, path)
				if k == 0 {
					r = y
				} else {
					r = in.c.gamma(a.b, y, r)
				}
			}
			return r
		default:
			if in.comp != nil {
				if y := in.comp(in, v, i); y != nil {
					v = y
					break
				}
			}
			panic(Unresolved{fmt.Sprintf("component %d of %T", i, v)})
		}
		path = path[2:]
	}
	return v
}

func (in *Interp) setPath(v Val, path string, nv Val) Val {
	if path == "" {
		return nv
	}
	i := pathHead(path)
	switch x := v.(type) {
	case *StructV:
		r := &StructV{append([]Val(nil), x.f...)}
		r.f[i] = in.setPath(x.f[i], path[2:], nv)
		return r
	case *ArrayV:
		r := &ArrayV{append([]Val(nil), x.e...)}
		r.e[i] = in.setPath(x.e[i], path[2:], nv)
		return r
	case *SeqV:
		if iv, ok := nv.(IntV); ok {
			if r := x.setComp(i, iv); r != nil {
				return r
			}
		}
		panic(Unresolved{"byte of a buffer that has changed"})
	case *GammaV:
		r := &GammaV{}
		for _, a := range x.alts {
			r.alts = append(r.alts, Alt{a.b, in.setPath(a.v, path, nv)})
		}
		return r
	}
	if in.setComp != nil {
		var sub Val = nv
		if len(path) > 2 {
			sub = in.setPath(in.comp(in, v, i), path[2:], nv)
		}
		if y := in.setComp(in, v, i, sub); y != nil {
			return y
		}
	}
	panic(Unresolved{fmt.Sprintf("store to component %d of %T", i, v)})
}

// fork runs f for every alternative of v and joins the resulting states.
func (in *Interp) fork(st *State, v Val, f func(st *State, v Val) Val) Val {
	v = in.c.simp(v, st.cond)
	g, ok := v.(*GammaV)
	if !ok {
		return f(st, v)
	}
	var acc *State
	var res Val
	d := in.c.bdd
	for _, a := range g.alts {
		s2 := &State{d.and(st.cond, a.b), st.heap}
		if s2.cond == bFalse {
			continue
		}
		r := f(s2, a.v)
		if s2.cond == bFalse {
			continue
		}
		if acc == nil {
			acc, res = s2, r
			continue
		}
		res = in.joinState(acc, s2, res, r)
	}
	if acc == nil {
		st.cond = bFalse
		return nil
	}
	*st = *acc
	return res
}

// joinState merges b into a and joins the values.
func (in *Interp) joinState(a, b *State, x, y Val) Val {
	d := in.c.bdd
	u := d.or(a.cond, b.cond)
	g := d.restrict(a.cond, u)
	r := in.joinVal(g, x, y)
	a.heap = pmerge(a.heap, b.heap, func(k int, p, q Val) Val { return in.joinVal(g, p, q) })
	a.cond = u
	return r
}

func (in *Interp) joinVal(g B, x, y Val) Val {
	if x == nil {
		return y
	}
	if y == nil {
		return x
	}
	return in.c.gamma(g, x, y)
}

func (in *Interp) load(fr *Frame, st *State, p Val, pos token.Pos) Val {
	return in.fork(st, p, func(st *State, p Val) Val {
		pt, ok := p.(PtrV)
		if !ok {
			in.fail(fr, pos, "load through %s", in.c.showV(p))
		}
		if pt.obj == 0 {
			in.panic(fr, st, "nil dereference", pos)
			return nil
		}
		root := st.heap.get(pt.obj)
		if root == nil && pt.path == "" {
			root = in.extGlobal(pt.obj)
		}
		if root == nil {
			in.fail(fr, pos, "load from unknown object %d (%s)", pt.obj, in.objName[pt.obj])
		}
		return in.c.simp(in.getPath(root, pt.path), st.cond)
	})
}

func (in *Interp) store(fr *Frame, st *State, p, v Val, pos token.Pos) {
	in.fork(st, p, func(st *State, p Val) Val {
		pt, ok := p.(PtrV)
		if !ok {
			in.fail(fr, pos, "store through %s", in.c.showV(p))
		}
		if pt.obj == 0 {
			in.panic(fr, st, "nil dereference", pos)
			return nil
		}
		root := st.heap.get(pt.obj)
		if root == nil {
			in.fail(fr, pos, "store to unknown object %d", pt.obj)
		}
		if in.writes != nil {
			in.writes[pt.obj] = true
		}
		st.heap = st.heap.set(pt.obj, in.setPath(root, pt.path, v))
		in.spoilShared(st, pt.obj)
		return nil
	})
}

// panic records a possible run-time panic and kills the state.
func (in *Interp) panic(fr *Frame, st *State, kind string, pos token.Pos) {
	in.panicIf(fr, st, st.cond, kind, pos)
	st.cond = bFalse
}

func (in *Interp) panicIf(fr *Frame, st *State, b B, kind string, pos token.Pos) {
	c := in.c.bdd.and(st.cond, b)
	if c == bFalse {
		return
	}
	p := Panic{cond: c, kind: kind}
	if fr != nil {
		if !pos.IsValid() {
			pos = fr.fn.Pos()
		}
		p.pos = in.P.pos(pos)
		p.stack = fr.stack()
	}
	in.panics = append(in.panics, p)
	st.cond = in.c.bdd.and(st.cond, in.c.bdd.not(b))
}

func (in *Interp) f(st *State) *Facts { return in.c.facts(st.cond) }

// ---- function execution

func (in *Interp) call(caller *Frame, site token.Pos, st *State, fn *ssa.Function, args []Val, free []Val) Val {
	if caller != nil && caller.depth > 60 {
		in.fail(caller, site, "call depth")
	}
	if fn.Package() != nil {
		fn.Package().Build() // once; safe for concurrent use
	}
	if len(fn.Blocks) == 0 {
		return in.asmCall(st, fn, args)
	}
	in.visited[fn]++
	fr := &Frame{in: in, fn: fn, li: in.P.loopInfo(fn), caller: caller, site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	env := make([]Val, fr.li.nregs)
	for i, p := range fn.Params {
		env[fr.li.regs[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[fr.li.regs[p]] = free[i]
	}
	ex := fr.region(nil, fn.Blocks[0], []edge{{nil, *st, env}})
	_ = ex
	if len(fr.rets) == 0 {
		st.cond = bFalse
		return nil
	}
	acc := fr.rets[0].st
	v := fr.rets[0].v
	for _, r := range fr.rets[1:] {
		v = in.joinState(&acc, &r.st, v, r.v)
	}
	*st = acc
	if in.onExit != nil {
		in.onExit(fr, st, v)
	}
	return v
}

// merge joins the edges into block b: phis first, then live registers.
func (fr *Frame) merge(b *ssa.BasicBlock, es []edge) (State, []Val) {
	in := fr.in
	live := fr.li.live[b]
	conv := func(e edge) []Val {
		n := make([]Val, fr.li.nregs)
		if e.pred == nil { // function entry, or a state made up at the block
			copy(n, e.env)
		}
		for _, r := range live {
			n[r] = e.env[r]
		}
		if e.pred != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == e.pred {
					pi = i
					break
				}
			}
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				st := e.st
				n[fr.li.regs[phi]] = fr.get(e.env, &st, phi.Edges[pi])
			}
		}
		return n
	}
	st := es[0].st
	env := conv(es[0])
	d := in.c.bdd
	for _, e := range es[1:] {
		env2 := conv(e)
		u := d.or(st.cond, e.st.cond)
		g := d.restrict(st.cond, u)
		for _, r := range live {
			if env[r] == nil && env2[r] == nil {
				continue
			}
			env[r] = in.joinVal(g, env[r], env2[r])
		}
		if st.heap != e.st.heap {
			st.heap = pmerge(st.heap, e.st.heap, func(k int, p, q Val) Val { return in.joinVal(g, p, q) })
		}
		st.cond = u
	}
	return st, env
}

// xedge is an edge leaving a region.
type xedge struct {
	to *ssa.BasicBlock
	e  edge
}

// region executes the blocks of loop L (nil: the whole function) once,
// starting at start, and returns the edges to the header of L and out of L.
func (fr *Frame) region(L *Loop, start *ssa.BasicBlock, ins []edge) (out []xedge) {
	in := fr.in
	pend := map[*ssa.BasicBlock][]edge{start: ins}
	first := true
	deliver := func(x xedge) {
		if x.e.st.cond == bFalse {
			return
		}
		if L != nil && (x.to == L.head || !L.blocks[x.to]) {
			out = append(out, x)
			return
		}
		pend[x.to] = append(pend[x.to], x.e)
	}
	for _, b := range fr.li.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		if lp := fr.li.heads[b]; lp != nil && lp != L {
			for _, x := range fr.loop(lp, es) {
				deliver(x)
			}
			continue
		}
		_ = first
		st, env := fr.merge(b, es)
		if st.cond == bFalse {
			continue
		}
		for _, x := range fr.block(b, st, env) {
			deliver(x)
		}
		in.nsteps++
		if in.nsteps&7 == 0 && in.tick != nil {
			in.tick(fr)
		}
	}
	for b, es := range pend {
		if len(es) > 0 {
			in.fail(fr, fr.fn.Pos(), "irreducible control flow at block %d", b.Index)
		}
	}
	return
}

// loop unrolls loop L until its back edges are infeasible.
func (fr *Frame) loop(L *Loop, ins []edge) (exits []xedge) {
	in := fr.in
	if h := in.loopHandler(fr, L); h != nil {
		if ex, ok := h(fr, L, ins); ok {
			return ex
		}
	}
	cur := ins
	for it := 0; ; it++ {
		if in.loopCap > 0 && it >= in.loopCap && len(exits) > 0 {
			for _, e := range cur {
				in.capped = append(in.capped, e.st)
			}
			return
		}
		if it > in.limit {
			in.fail(fr, L.head.Instrs[0].Pos(), "loop not bounded by constant propagation")
		}
		out := fr.region(L, L.head, cur)
		cur = nil
		for _, x := range out {
			if x.to == L.head {
				cur = append(cur, x.e)
			} else {
				exits = append(exits, x)
			}
		}
		if len(cur) == 0 {
			in.unrolled[L.head]++
			return
		}
	}
}

func (in *Interp) loopHandler(fr *Frame, L *Loop) func(fr *Frame, l *Loop, in []edge) ([]xedge, bool) {
	if in.loopAny != nil {
		return in.loopAny
	}
	if len(in.loopH) == 0 {
		return nil
	}
	return in.loopH[shortFn(fr.fn)]
}

func (fr *Frame) get(env []Val, st *State, v ssa.Value) Val {
	in := fr.in
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return PtrV{in.global(x), ""}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.li.regs[v]
	if !ok {
		in.fail(fr, v.Pos(), "no register for %s", v)
	}
	val := env[r]
	if val == nil {
		in.fail(fr, v.Pos(), "undefined value %s = %s", v.Name(), v)
	}
	switch val.(type) {
	case *GammaV, IntV:
		return in.c.simp(val, st.cond)
	}
	return val
}

func (in *Interp) global(g *ssa.Global) int {
	if o, ok := in.glob[g]; ok {
		return o
	}
	in.nobj++
	in.glob[g] = in.nobj
	in.objName[in.nobj] = g.String()
	return in.nobj
}

// extGlobal is the value of a variable of a dependency: empty structs have
// only one value, interfaces stand for themselves.
func (in *Interp) extGlobal(obj int) Val {
	for g, o := range in.glob {
		if o != obj {
			continue
		}
		if in.P.pkgs[g.Pkg.Pkg.Path()] == g.Pkg && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return nil
		}
		switch t := g.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Struct:
			if t.NumFields() == 0 {
				return &StructV{}
			}
		case *types.Interface:
			return &OpqV{g.String(), nil}
		}
	}
	return nil
}

func (in *Interp) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return in.zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return BoolV{bTrue}
		}
		return BoolV{bFalse}
	case constant.String:
		return StrV{constant.StringVal(x.Value)}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(x.Value)
			return FltV{f}
		}
		bi, ok := new(big.Int).SetString(x.Value.ExactString(), 10)
		if !ok {
			panic(Unresolved{"constant " + x.String()})
		}
		return ibig(bi)
	case constant.Float:
		f, _ := constant.Float64Val(x.Value)
		return FltV{f}
	}
	panic(Unresolved{"constant " + x.String()})
}

// block executes one basic block.
func (fr *Frame) block(b *ssa.BasicBlock, st State, env []Val) []xedge {
	in := fr.in
	d := in.c.bdd
	for _, ins := range b.Instrs {
		if st.cond == bFalse {
			return nil
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []xedge{{b.Succs[0], edge{b, st, env}}}
		case *ssa.If:
			cv := fr.get(env, &st, i.Cond)
			bv := in.asBool(fr, &st, cv)
			t := d.and(st.cond, bv)
			e := d.and(st.cond, d.not(bv))
			t, e = in.feasible(t), in.feasible(e)
			var out []xedge
			if t != bFalse {
				ne := env
				if e != bFalse {
					ne = append([]Val(nil), env...)
				}
				out = append(out, xedge{b.Succs[0], edge{b, State{t, st.heap}, ne}})
			}
			if e != bFalse {
				out = append(out, xedge{b.Succs[1], edge{b, State{e, st.heap}, env}})
			}
			return out
		case *ssa.Return:
			var v Val
			switch len(i.Results) {
			case 0:
				v = &TupleV{}
			case 1:
				v = fr.get(env, &st, i.Results[0])
			default:
				t := &TupleV{make([]Val, len(i.Results))}
				for k, r := range i.Results {
					t.e[k] = fr.get(env, &st, r)
				}
				v = t
			}
			fr.rets = append(fr.rets, retS{st, v})
			return nil
		case *ssa.Panic:
			in.panic(fr, &st, "explicit panic", i.Pos())
			return nil
		case *ssa.Store:
			in.store(fr, &st, fr.get(env, &st, i.Addr), fr.get(env, &st, i.Val), i.Pos())
		case *ssa.RunDefers:
		case *ssa.MapUpdate:
			in.mapUpdate(fr, &st, fr.get(env, &st, i.Map), fr.get(env, &st, i.Key), fr.get(env, &st, i.Value), i.Pos())
		case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
			in.fail(fr, ins.Pos(), "unsupported instruction %s", ins)
		default:
			v, ok := ins.(ssa.Value)
			if !ok {
				in.fail(fr, ins.Pos(), "unsupported instruction %s", ins)
			}
			r := fr.eval(v, &st, env)
			env[fr.li.regs[v]] = r
		}
	}
	return nil
}

// feasible drops conditions refuted by the numeric facts.
func (in *Interp) feasible(b B) B {
	return b
}

func (in *Interp) asBool(fr *Frame, st *State, v Val) B {
	switch x := v.(type) {
	case BoolV:
		return in.c.bdd.restrict(x.b, st.cond)
	case *GammaV:
		r := bFalse
		for _, a := range x.alts {
			bv, ok := a.v.(BoolV)
			if !ok {
				in.fail(fr, token.NoPos, "boolean alternative %T", a.v)
			}
			r = in.c.bdd.or(r, in.c.bdd.and(a.b, bv.b))
		}
		return in.c.bdd.restrict(r, st.cond)
	}
	in.fail(fr, token.NoPos, "boolean from %T", v)
	return bFalse
}

func (fr *Frame) eval(v ssa.Value, st *State, env []Val) Val {
	in := fr.in
	g := func(x ssa.Value) Val { return fr.get(env, st, x) }
	switch i := v.(type) {
	case *ssa.Alloc:
		o := in.newObj(st, in.zero(i.Type().(*types.Pointer).Elem()))
		if i.Comment != "" {
			in.objName[o] = i.Comment
		}
		in.objPos[o] = in.P.pos(i.Pos())
		return PtrV{o, ""}
	case *ssa.BinOp:
		return in.binop(fr, st, i, g(i.X), g(i.Y))
	case *ssa.UnOp:
		x := g(i.X)
		switch i.Op {
		case token.MUL:
			return in.load(fr, st, x, i.Pos())
		case token.NOT:
			return BoolV{in.c.bdd.not(in.asBool(fr, st, x))}
		case token.SUB:
			bits, sg := in.intBits(i.Type())
			return in.fork(st, x, func(st *State, x Val) Val {
				return IntV{in.c.wrap(in.asInt(fr, x).Neg(), bits, sg, in.f(st))}
			})
		case token.XOR:
			bits, sg := in.intBits(i.Type())
			return in.fork(st, x, func(st *State, x Val) Val {
				return IntV{in.c.wrap(in.asInt(fr, x).Neg().Sub(nint(1)), bits, sg, in.f(st))}
			})
		}
		in.fail(fr, i.Pos(), "operator %s", i)
	case *ssa.Call:
		return fr.callCommon(&i.Call, i, st, env)
	case *ssa.ChangeType:
		return g(i.X)
	case *ssa.ChangeInterface:
		return g(i.X)
	case *ssa.Convert:
		return in.convert(fr, st, i, g(i.X))
	case *ssa.MakeInterface:
		return IfaceV{i.X.Type(), g(i.X)}
	case *ssa.Extract:
		return in.fork(st, g(i.Tuple), func(st *State, t Val) Val {
			tv, ok := t.(*TupleV)
			if !ok {
				in.fail(fr, i.Pos(), "extract from %T", t)
			}
			return in.c.simp(tv.e[i.Index], st.cond)
		})
	case *ssa.Field:
		return in.c.simp(in.getPath(g(i.X), pathAdd("", i.Field)), st.cond)
	case *ssa.FieldAddr:
		return in.fork(st, g(i.X), func(st *State, p Val) Val {
			pt, ok := p.(PtrV)
			if !ok {
				in.fail(fr, i.Pos(), "field address of %s", in.c.showV(p))
			}
			if pt.obj == 0 {
				in.panic(fr, st, "nil dereference", i.Pos())
				return nil
			}
			return PtrV{pt.obj, pathAdd(pt.path, i.Field)}
		})
	case *ssa.Index:
		x := g(i.X)
		return in.fork(st, g(i.Index), func(st *State, iv Val) Val {
			return in.indexVal(fr, st, x, in.asInt(fr, iv), i.Pos())
		})
	case *ssa.IndexAddr:
		return in.fork(st, g(i.X), func(st *State, x Val) Val {
			return in.fork(st, g(i.Index), func(st *State, iv Val) Val {
				return in.indexAddr(fr, st, x, i.X.Type(), in.asInt(fr, iv), i.Pos())
			})
		})
	case *ssa.Slice:
		return in.sliceOp(fr, st, env, i)
	case *ssa.MakeSlice:
		return in.fork(st, g(i.Len), func(st *State, l Val) Val {
			return in.fork(st, g(i.Cap), func(st *State, cp Val) Val {
				n, ok := in.constInt(l)
				m, ok2 := in.constInt(cp)
				if !ok || !ok2 {
					return in.makeSym(fr, st, i, l, veq(l, cp))
				}
				if n < 0 || m < n {
					in.panic(fr, st, "makeslice: length out of range", i.Pos())
					return nil
				}
				a := &ArrayV{make([]Val, m)}
				z := in.zero(i.Type().Underlying().(*types.Slice).Elem())
				for k := range a.e {
					a.e[k] = z
				}
				o := in.newObj(st, a)
				in.objPos[o] = in.P.pos(i.Pos())
				return SliceV{o, "", 0, n, m}
			})
		})
	case *ssa.MakeMap:
		return in.newPtr(st, &MapObj{})
	case *ssa.Lookup:
		return in.mapLookup(fr, st, i, g(i.X), g(i.Index))
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.free = append(f.free, g(b))
		}
		return f
	case *ssa.TypeAssert:
		return in.fork(st, g(i.X), func(st *State, x Val) Val {
			iv, ok := x.(IfaceV)
			if !ok {
				in.fail(fr, i.Pos(), "type assertion on %T", x)
			}
			match := false
			if iv.typ != nil {
				if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
					match = types.Implements(iv.typ, it)
				} else {
					match = types.Identical(iv.typ, i.AssertedType)
				}
			}
			var r Val
			if match {
				r = iv.v
				if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
					r = iv
				}
			} else if i.CommaOk {
				r = in.zero(i.AssertedType)
			} else {
				in.panic(fr, st, "failed type assertion", i.Pos())
				return nil
			}
			if i.CommaOk {
				b := bFalse
				if match {
					b = bTrue
				}
				return &TupleV{[]Val{r, BoolV{b}}}
			}
			return r
		})
	}
	in.fail(fr, v.Pos(), "unsupported instruction %s (%T)", v, v)
	return nil
}

func (in *Interp) asInt(fr *Frame, v Val) *NPoly {
	switch x := v.(type) {
	case IntV:
		return x.p
	case *GammaV:
		if r, ok := in.c.gammaInt(x).(IntV); ok {
			return r.p
		}
	}
	in.fail(fr, token.NoPos, "integer expected, got %s", in.c.showV(v))
	return nil
}

func (in *Interp) constInt(v Val) (int, bool) {
	if x, ok := v.(IntV); ok {
		if z := nconstOf(x.p); z != nil && z.IsInt64() {
			return int(z.Int64()), true
		}
	}
	return 0, false
}

func (in *Interp) indexVal(fr *Frame, st *State, x Val, idx *NPoly, pos token.Pos) Val {
	return in.fork(st, x, func(st *State, x Val) Val {
		switch a := x.(type) {
		case *ArrayV:
			k := in.constIdx(fr, st, idx, len(a.e), pos)
			if k < 0 {
				return nil
			}
			return in.c.simp(a.e[k], st.cond)
		case StrV:
			k := in.constIdx(fr, st, idx, len(a.s), pos)
			if k < 0 {
				return nil
			}
			return iconst(int64(a.s[k]))
		}
		in.fail(fr, pos, "index of %T", x)
		return nil
	})
}

// constIdx checks 0 <= idx < n; it returns -1 when the state dies.
func (in *Interp) constIdx(fr *Frame, st *State, idx *NPoly, n int, pos token.Pos) int {
	z := nconstOf(idx)
	if z == nil {
		lo, hi := in.c.bounds(idx, in.f(st))
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			z = lo
		}
	}
	if z == nil {
		in.fail(fr, pos, "index %s is not decided", in.c.show(idx))
	}
	if z.Sign() < 0 || z.Cmp(big.NewInt(int64(n))) >= 0 {
		in.panic(fr, st, fmt.Sprintf("index out of range [%s] with length %d", z, n), pos)
		return -1
	}
	return int(z.Int64())
}

func (in *Interp) indexAddr(fr *Frame, st *State, x Val, t types.Type, idx *NPoly, pos token.Pos) Val {
	switch p := x.(type) {
	case PtrV: // pointer to array
		if p.obj == 0 {
			in.panic(fr, st, "nil dereference", pos)
			return nil
		}
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		k := in.constIdx(fr, st, idx, int(at.Len()), pos)
		if k < 0 {
			return nil
		}
		return PtrV{p.obj, pathAdd(p.path, k)}
	case SliceV:
		k := in.constIdx(fr, st, idx, p.len, pos)
		if k < 0 {
			return nil
		}
		return PtrV{p.obj, pathAdd(p.path, p.off+k)}
	}
	if s, ok := x.(SymV); ok {
		return in.seqAddr(fr, st, s, idx, pos)
	}
	in.fail(fr, pos, "element address of %s", in.c.showV(x))
	return nil
}

func (in *Interp) sliceOp(fr *Frame, st *State, env []Val, i *ssa.Slice) Val {
	g := func(x ssa.Value) Val { return fr.get(env, st, x) }
	opt := func(x ssa.Value, def int) (int, bool) {
		if x == nil {
			return def, true
		}
		return in.constInt(g(x))
	}
	return in.fork(st, g(i.X), func(st *State, x Val) Val {
		var base SliceV
		switch p := x.(type) {
		case PtrV:
			if p.obj == 0 {
				in.panic(fr, st, "nil dereference", i.Pos())
				return nil
			}
			n := int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			base = SliceV{p.obj, p.path, 0, n, n}
		case SliceV:
			base = p
		case StrV:
			lo, ok1 := opt(i.Low, 0)
			hi, ok2 := opt(i.High, len(p.s))
			if !ok1 || !ok2 {
				in.fail(fr, i.Pos(), "slice bounds")
			}
			if lo < 0 || hi < lo || hi > len(p.s) {
				in.panic(fr, st, "slice bounds out of range", i.Pos())
				return nil
			}
			return StrV{p.s[lo:hi]}
		default:
			if r := in.sliceSym(fr, st, x, i, env); r != nil {
				return r
			}
			in.fail(fr, i.Pos(), "slice of %s", in.c.showV(x))
		}
		lo, ok1 := opt(i.Low, 0)
		hi, ok2 := opt(i.High, base.len)
		mx, ok3 := opt(i.Max, base.cap)
		if !ok1 || !ok2 || !ok3 {
			in.fail(fr, i.Pos(), "slice bounds are not decided")
		}
		if lo < 0 || hi < lo || mx < hi || mx > base.cap {
			in.panic(fr, st, "slice bounds out of range", i.Pos())
			return nil
		}
		return SliceV{base.obj, base.path, base.off + lo, hi - lo, mx - lo}
	})
}

// sliceElems returns the elements of a concrete slice.
func (in *Interp) sliceElems(fr *Frame, st *State, s SliceV) []Val {
	if s.obj == 0 || s.len == 0 {
		return nil
	}
	root := in.getPath(st.heap.get(s.obj), s.path)
	out := make([]Val, s.len)
	for i := range out {
		out[i] = in.c.simp(in.getPath(root, pathAdd("", s.off+i)), st.cond)
	}
	return out
}

func (in *Interp) setElems(fr *Frame, st *State, s SliceV, vs []Val) {
	if len(vs) == 0 {
		return
	}
	root := st.heap.get(s.obj)
	arr := in.getPath(root, s.path)
	for i, v := range vs {
		arr = in.setPath(arr, pathAdd("", s.off+i), v)
	}
	if in.writes != nil {
		in.writes[s.obj] = true
	}
	st.heap = st.heap.set(s.obj, in.setPath(root, s.path, arr))
	in.spoilShared(st, s.obj)
}

func (in *Interp) newSlice(st *State, vs []Val) SliceV {
	o := in.newObj(st, &ArrayV{vs})
	return SliceV{o, "", 0, len(vs), len(vs)}
}

// ---- operators

func (in *Interp) convert(fr *Frame, st *State, i *ssa.Convert, x Val) Val {
	to := i.Type().Underlying()
	tb, ok := to.(*types.Basic)
	if ok && tb.Info()&types.IsInteger != 0 {
		if _, isInt := i.X.Type().Underlying().(*types.Basic); isInt {
			bits, sg := in.intBits(to)
			return in.fork(st, x, func(st *State, x Val) Val {
				return IntV{in.c.wrap(in.asInt(fr, x), bits, sg, in.f(st))}
			})
		}
	}
	return in.fork(st, x, func(st *State, x Val) Val {
		r := in.convHook(fr, st, i, x)
		if r == nil {
			in.fail(fr, i.Pos(), "conversion %s of %s", i, in.c.showV(x))
		}
		return r
	})
}

func (in *Interp) convHook(fr *Frame, st *State, i *ssa.Convert, x Val) Val {
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	if s, ok := x.(StrV); ok {
		if _, ok := to.(*types.Slice); ok {
			var vs []Val
			for k := 0; k < len(s.s); k++ {
				vs = append(vs, iconst(int64(s.s[k])))
			}
			return in.newSlice(st, vs)
		}
	}
	if s, ok := x.(*SeqV); ok {
		if _, ok := to.(*types.Slice); ok {
			return in.newSeq(st, s)
		}
	}
	if s, ok := x.(SymV); ok {
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return in.fork(st, st.heap.get(s.obj), func(st *State, v Val) Val { return in.seqOf(fr, st, s, v) })
		}
	}
	if s, ok := x.(SliceV); ok {
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			es := in.sliceElems(fr, st, s)
			all := []byte{}
			for _, e := range es {
				k, ok := in.constInt(e)
				if !ok {
					return in.content(fr, st, s)
				}
				all = append(all, byte(k))
			}
			return StrV{string(all)}
		}
	}
	_ = from
	return nil
}

func (in *Interp) binop(fr *Frame, st *State, i *ssa.BinOp, x, y Val) Val {
	switch i.Op {
	case token.EQL:
		return BoolV{in.equal(fr, st, x, y, i.Pos())}
	case token.NEQ:
		return BoolV{in.c.bdd.not(in.equal(fr, st, x, y, i.Pos()))}
	}
	if sx, ok := x.(StrV); ok {
		if sy, ok := y.(StrV); ok {
			switch i.Op {
			case token.ADD:
				return StrV{sx.s + sy.s}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				r := constant.Compare(constant.MakeString(sx.s), i.Op, constant.MakeString(sy.s))
				if r {
					return BoolV{bTrue}
				}
				return BoolV{bFalse}
			}
		}
	}
	if a, ok := asText(x); ok && i.Op == token.ADD {
		if b, ok := asText(y); ok {
			return textVal(append(append([]TSeg(nil), a...), b...)...)
		}
	}
	if a, ok := in.asSeq(x); ok {
		if b, ok := in.asSeq(y); ok {
			d := in.c.bdd
			eq, lt := in.seqCmp(st, a, b)
			switch i.Op {
			case token.ADD:
				return &SeqV{append(append([]Seg(nil), a.segs...), b.segs...)}
			case token.LSS:
				return BoolV{lt}
			case token.LEQ:
				return BoolV{d.or(lt, eq)}
			case token.GTR:
				return BoolV{d.not(d.or(lt, eq))}
			case token.GEQ:
				return BoolV{d.not(lt)}
			}
		}
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return &OpqV{"strop" + i.Op.String(), []Val{x, y}}
	}
	// integers
	gx, gok := x.(*GammaV)
	gy, gok2 := y.(*GammaV)
	if gok && len(gx.alts) > 40 {
		x = in.c.gammaInt(gx)
	}
	if gok2 && len(gy.alts) > 40 {
		y = in.c.gammaInt(gy)
	}
	return in.fork(st, x, func(st *State, x Val) Val {
		return in.fork(st, y, func(st *State, y Val) Val {
			return in.intop(fr, st, i, x, y)
		})
	})
}

func (in *Interp) intop(fr *Frame, st *State, i *ssa.BinOp, x, y Val) Val {
	c := in.c
	a, b := in.asInt(fr, x), in.asInt(fr, y)
	f := in.f(st)
	bo := func(v B) Val { return BoolV{v} }
	switch i.Op {
	case token.LSS:
		return bo(c.lt0(a.Sub(b), f))
	case token.GTR:
		return bo(c.lt0(b.Sub(a), f))
	case token.LEQ:
		return bo(c.bdd.not(c.lt0(b.Sub(a), f)))
	case token.GEQ:
		return bo(c.bdd.not(c.lt0(a.Sub(b), f)))
	}
	bits, sg := in.intBits(i.Type())
	w := func(p *NPoly) Val { return IntV{c.wrap(p, bits, sg, f)} }
	ca, cb := nconstOf(a), nconstOf(b)
	mask := func(z *big.Int) *big.Int { return new(big.Int).And(z, new(big.Int).Sub(pow2(bits), big.NewInt(1))) }
	switch i.Op {
	case token.ADD:
		return w(a.Add(b))
	case token.SUB:
		return w(a.Sub(b))
	case token.MUL:
		return w(a.Mul(b))
	case token.SHL, token.SHR:
		if cb == nil {
			if lo, hi := c.bounds(b, f); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				cb = lo
			}
		}
		if cb == nil {
			in.fail(fr, i.Pos(), "shift by %s", c.show(b))
		}
		if cb.Sign() < 0 {
			in.panic(fr, st, "negative shift amount", i.Pos())
			return nil
		}
		n := 1 << 20
		if cb.IsInt64() && cb.Int64() < 1<<20 {
			n = int(cb.Int64())
		}
		if i.Op == token.SHL {
			if n >= bits {
				return iconst(0)
			}
			return w(a.Scale(Z{pow2(n)}))
		}
		if n >= bits {
			if !sg {
				return iconst(0)
			}
			n = bits - 1
		}
		return IntV{c.floor(a, n, f)}
	case token.AND, token.AND_NOT, token.OR, token.XOR:
		if ca != nil && cb != nil {
			r := new(big.Int)
			switch i.Op {
			case token.AND:
				r.And(ca, cb)
			case token.AND_NOT:
				r.AndNot(ca, cb)
			case token.OR:
				r.Or(ca, cb)
			case token.XOR:
				r.Xor(ca, cb)
			}
			return w(nconst(r))
		}
		if i.Op == token.AND && (ca != nil || cb != nil) {
			m, v := cb, a
			if m == nil {
				m, v = ca, b
			}
			if lo, _ := c.bounds(v, f); lo == nil || lo.Sign() < 0 {
				in.fail(fr, i.Pos(), "and of possibly negative value")
			}
			return IntV{c.andConst(v, mask(m), f)}
		}
		if i.Op == token.AND_NOT && cb != nil {
			m := new(big.Int).Sub(pow2(bits), big.NewInt(1))
			m.AndNot(m, mask(cb))
			return IntV{c.andConst(a, m, f)}
		}
		if i.Op == token.OR || i.Op == token.XOR {
			if r, ok := c.orDisjoint(a, b, f); ok {
				return IntV{r}
			}
			if cb != nil && i.Op == token.OR { // x | m = (x &^ m) + m
				m := new(big.Int).Sub(pow2(bits), big.NewInt(1))
				m.AndNot(m, mask(cb))
				return IntV{c.andConst(a, m, f).Add(nconst(mask(cb)))}
			}
			if cb != nil && i.Op == token.XOR { // x ^ m = x + m - 2(x & m)
				return IntV{a.Add(nconst(mask(cb))).Sub(c.andConst(a, mask(cb), f).Scale(zi(2)))}
			}
		}
		// single-bit operands
		al, ah := c.bounds(a, f)
		bl, bh := c.bounds(b, f)
		one := big.NewInt(1)
		if al != nil && bl != nil && ah != nil && bh != nil && al.Sign() >= 0 && bl.Sign() >= 0 && ah.Cmp(one) <= 0 && bh.Cmp(one) <= 0 {
			ab := c.idem(a.Mul(b))
			switch i.Op {
			case token.AND:
				return IntV{ab}
			case token.OR:
				return IntV{a.Add(b).Sub(ab)}
			case token.XOR:
				return IntV{a.Add(b).Sub(ab.Scale(zi(2)))}
			}
		}
		if r := in.bitHook(fr, st, i, a, b); r != nil {
			return r
		}
		in.fail(fr, i.Pos(), "bit operation %s of %s and %s", i.Op, c.show(a), c.show(b))
	case token.QUO, token.REM:
		if cb != nil && cb.Sign() == 0 {
			in.panic(fr, st, "integer divide by zero", i.Pos())
			return nil
		}
		if ca != nil && cb != nil {
			if i.Op == token.QUO {
				return w(nconst(new(big.Int).Quo(ca, cb)))
			}
			return w(nconst(new(big.Int).Rem(ca, cb)))
		}
		if cb != nil && cb.Sign() > 0 {
			lo, _ := c.bounds(a, f)
			k := cb.BitLen() - 1
			if lo != nil && lo.Sign() >= 0 && cb.Cmp(pow2(k)) == 0 {
				q := c.floor(a, k, f)
				if i.Op == token.QUO {
					return IntV{q}
				}
				return IntV{a.Sub(q.Scale(Z{pow2(k)}))}
			}
		}
		in.fail(fr, i.Pos(), "division %s by %s", c.show(a), c.show(b))
	}
	in.fail(fr, i.Pos(), "operator %s", i.Op)
	return nil
}

func (in *Interp) bitHook(fr *Frame, st *State, i *ssa.BinOp, a, b *NPoly) Val {
	c := in.c
	// masks built from a 0/1 value:  (-b) & x  or  (b-1) & x
	f := in.f(st)
	bits, _ := in.intBits(i.Type())
	all := new(big.Int).Sub(pow2(bits), big.NewInt(1))
	for _, xy := range [][2]*NPoly{{a, b}, {b, a}} {
		m, v := xy[0], xy[1]
		// m in {0, all}
		g := content(m)
		if g.Cmp(all) == 0 {
			bit := divContent(m, g)
			lo, hi := c.bounds(bit, f)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(1)) <= 0 {
				switch i.Op {
				case token.AND:
					return IntV{c.idem(bit.Mul(v))}
				case token.OR: // v + bit*(all - v)
					return IntV{c.idem(v.Add(bit.Mul(nconst(all).Sub(v))))}
				case token.XOR:
					return IntV{c.idem(v.Add(bit.Mul(nconst(all).Sub(v.Scale(zi(2))))))}
				}
			}
		}
	}
	if _, signed := in.intBits(i.Type()); !signed && (i.Op == token.OR || i.Op == token.XOR) {
		cl := "or"
		if i.Op == token.XOR {
			cl = "xor"
			if a.Equal(b) {
				return iconst(0)
			}
		}
		key := cl + "|" + a.Key() + "|" + b.Key()
		id, ok := c.symIx[key]
		if !ok {
			id = c.newSym(Sym{name: cl, lo: new(big.Int), hi: all, class: cl, data: [2]*NPoly{a, b}})
			c.symIx[key] = id
		}
		return IntV{nvar(id)}
	}
	return nil
}

// equal is the condition x == y.
func (in *Interp) equal(fr *Frame, st *State, x, y Val, pos token.Pos) B {
	d := in.c.bdd
	if gx, ok := x.(*GammaV); ok {
		r := bFalse
		for _, a := range gx.alts {
			s2 := State{d.and(st.cond, a.b), st.heap}
			if s2.cond == bFalse {
				continue
			}
			r = d.or(r, d.and(a.b, in.equal(fr, &s2, a.v, y, pos)))
		}
		return r
	}
	if _, ok := y.(*GammaV); ok {
		return in.equal(fr, st, y, x, pos)
	}
	tf := func(b bool) B {
		if b {
			return bTrue
		}
		return bFalse
	}
	switch a := x.(type) {
	case IntV:
		if b, ok := y.(IntV); ok {
			return in.c.eq0(a.p.Sub(b.p), in.f(st))
		}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			return d.not(d.xor(a.b, b.b))
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			return tf(a == b)
		}
		if b, ok := y.(*SeqV); ok {
			s, _ := in.asSeq(a)
			eq, _ := in.seqCmp(st, s, b)
			return eq
		}
	case *SeqV:
		if b, ok := in.asSeq(y); ok {
			eq, _ := in.seqCmp(st, a, b)
			return eq
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			return tf(a == b)
		}
	case SliceV:
		if b, ok := y.(SliceV); ok && (a.obj == 0 || b.obj == 0) {
			return tf(a.obj == b.obj)
		}
		if _, ok := y.(SymV); ok && a.obj == 0 {
			return bFalse
		}
	case SymV:
		if b, ok := y.(SliceV); ok && b.obj == 0 {
			return bFalse
		}
	case *FuncV:
		if b, ok := y.(*FuncV); ok {
			return tf((a.fn == nil && a.nat == nil) == (b.fn == nil && b.nat == nil))
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			if a.typ == nil || b.typ == nil {
				return tf(a.typ == nil && b.typ == nil)
			}
			if !types.Identical(a.typ, b.typ) {
				return bFalse
			}
			return in.equal(fr, st, a.v, b.v, pos)
		}
	case *StructV:
		if b, ok := y.(*StructV); ok {
			r := bTrue
			for i := range a.f {
				r = d.and(r, in.equal(fr, st, a.f[i], b.f[i], pos))
			}
			return r
		}
	case *ArrayV:
		if b, ok := y.(*ArrayV); ok {
			r := bTrue
			for i := range a.e {
				r = d.and(r, in.equal(fr, st, a.e[i], b.e[i], pos))
			}
			return r
		}
	case *ElemV:
		if b, ok := y.(*ElemV); ok {
			return in.elemEq(st, a, b)
		}
	case *OpqV:
		if veq(x, y) {
			return bTrue
		}
		if b, ok := y.(*OpqV); ok {
			return d.atom(in.c.mkAtom("opq=="+in.c.showV(a)+"=="+in.c.showV(b), Atom{kind: aOpaque, name: in.c.showV(a) + " == " + in.c.showV(b)}))
		}
	}
	in.fail(fr, pos, "comparison of %s and %s", in.c.showV(x), in.c.showV(y))
	return bFalse
}

func (in *Interp) elemEq(st *State, a, b *ElemV) B {
	F := in.c.F
	if a.e.Key() == b.e.Key() {
		return bTrue
	}
	return in.c.bdd.restrict(F.isZero(a.e.num.Mul(b.e.den).Sub(b.e.num.Mul(a.e.den)), in.f(st)), st.cond)
}

// ---- calls

func (fr *Frame) callCommon(cc *ssa.CallCommon, site ssa.Instruction, st *State, env []Val) Val {
	in := fr.in
	pos := site.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, fr.get(env, st, a))
		}
		return in.builtin(fr, st, b, cc, args, pos)
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, fr.get(env, st, a))
	}
	if cc.IsInvoke() {
		recv := fr.get(env, st, cc.Value)
		return in.fork(st, recv, func(st *State, r Val) Val {
			iv, ok := r.(IfaceV)
			if !ok {
				if h, ok := in.intr["invoke:"+cc.Method.Name()]; ok {
					return h(in, fr, st, append([]Val{r}, args...))
				}
				in.fail(fr, pos, "method call %s on %s", cc.Method.Name(), in.c.showV(r))
			}
			if iv.typ == nil {
				in.panic(fr, st, "nil dereference", pos)
				return nil
			}
			if _, ok := iv.v.(*OpqV); ok {
				if h, ok := in.intr["invoke:"+cc.Method.Name()]; ok {
					return h(in, fr, st, append([]Val{iv.v}, args...))
				}
			}
			m := in.P.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				in.fail(fr, pos, "method %s of %s", cc.Method.Name(), iv.typ)
			}
			return in.invoke(fr, pos, st, m, append([]Val{iv.v}, args...), nil)
		})
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv := fr.get(env, st, mc).(*FuncV)
			return in.invoke(fr, pos, st, f, args, fv.free)
		}
		return in.invoke(fr, pos, st, f, args, nil)
	}
	fv := fr.get(env, st, cc.Value)
	return in.fork(st, fv, func(st *State, v Val) Val {
		f, ok := v.(*FuncV)
		if !ok {
			in.fail(fr, pos, "call of %s", in.c.showV(v))
		}
		if f.nat != nil {
			return f.nat(in, fr, st, args)
		}
		if f.fn == nil {
			in.panic(fr, st, "nil function call", pos)
			return nil
		}
		return in.invoke(fr, pos, st, f.fn, args, f.free)
	})
}

func (in *Interp) invoke(fr *Frame, pos token.Pos, st *State, f *ssa.Function, args, free []Val) Val {
	name := f.String()
	if f.Synthetic != "" && f.Object() == nil && strings.Contains(f.Name(), "init") {
		return &TupleV{}
	}
	if h, ok := in.intr[name]; ok {
		if in.used == nil {
			in.used = map[string]bool{}
		}
		in.used[name] = true
		fr2 := &Frame{in: in, fn: f, caller: fr, site: pos, depth: fr.depth + 1}
		return h(in, fr2, st, args)
	}
	return in.call(fr, pos, st, f, args, free)
}

func (in *Interp) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		return in.fork(st, args[0], func(st *State, v Val) Val {
			switch x := v.(type) {
			case SliceV:
				if b.Name() == "cap" {
					return iconst(int64(x.cap))
				}
				return iconst(int64(x.len))
			case StrV:
				return iconst(int64(len(x.s)))
			case *ArrayV:
				return iconst(int64(len(x.e)))
			case *SeqV:
				return IntV{x.length()}
			case PtrV:
				if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
					return in.withMap(fr, st, x, pos, func(st *State, _ PtrV, m *MapObj) Val { return in.mapLen(fr, st, m) })
				}
				if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
					return iconst(p.Elem().Underlying().(*types.Array).Len())
				}
			}
			if r := in.lenHook(fr, st, v); r != nil {
				return r
			}
			in.fail(fr, pos, "len of %s", in.c.showV(v))
			return nil
		})
	case "delete":
		in.withMap(fr, st, args[0], pos, func(st *State, p PtrV, m *MapObj) Val {
			if p.obj != 0 {
				if in.writes != nil {
					in.writes[p.obj] = true
				}
				st.heap = st.heap.set(p.obj, &MapObj{append(m.ents[:len(m.ents):len(m.ents)], mapEnt{args[1], nil})})
			}
			return &TupleV{}
		})
		return &TupleV{}
	case "append":
		return in.fork(st, args[0], func(st *State, dst Val) Val {
			return in.fork(st, args[1], func(st *State, src Val) Val {
				return in.appendOp(fr, st, cc, dst, src, pos)
			})
		})
	case "copy":
		return in.fork(st, args[0], func(st *State, dst Val) Val {
			return in.fork(st, args[1], func(st *State, src Val) Val {
				d, ok1 := dst.(SliceV)
				var es []Val
				switch s := src.(type) {
				case SliceV:
					es = in.sliceElems(fr, st, s)
				case StrV:
					for k := 0; k < len(s.s); k++ {
						es = append(es, iconst(int64(s.s[k])))
					}
				default:
					ok1 = false
				}
				if !ok1 {
					if r := in.copyHook(fr, st, dst, src); r != nil {
						return r
					}
					in.fail(fr, pos, "copy of %s to %s", in.c.showV(src), in.c.showV(dst))
				}
				if len(es) > d.len {
					es = es[:d.len]
				}
				in.setElems(fr, st, d, es)
				return iconst(int64(len(es)))
			})
		})
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := in.asInt(fr, r), in.asInt(fr, a)
			l := in.c.lt0(x.Sub(y), in.f(st))
			if b.Name() == "max" {
				l = in.c.bdd.not(l)
			}
			r = in.c.gamma(in.c.bdd.restrict(l, st.cond), r, a)
		}
		return r
	case "print", "println":
		return &TupleV{}
	case "clear":
	}
	in.fail(fr, pos, "builtin %s", b.Name())
	return nil
}

func (in *Interp) appendOp(fr *Frame, st *State, cc *ssa.CallCommon, dst, src Val, pos token.Pos) Val {
	d, ok := dst.(SliceV)
	var es []Val
	switch s := src.(type) {
	case SliceV:
		es = in.sliceElems(fr, st, s)
	case StrV:
		for k := 0; k < len(s.s); k++ {
			es = append(es, iconst(int64(s.s[k])))
		}
	default:
		ok = false
	}
	if !ok {
		if r := in.appendHook(fr, st, dst, src); r != nil {
			return r
		}
		in.fail(fr, pos, "append of %s to %s", in.c.showV(src), in.c.showV(dst))
	}
	if len(es) == 0 {
		return d
	}
	if in.onApp != nil {
		in.onApp(fr, st, es)
	}
	if d.len+len(es) <= d.cap {
		in.setElems(fr, st, SliceV{d.obj, d.path, d.off + d.len, len(es), len(es)}, es)
		return SliceV{d.obj, d.path, d.off, d.len + len(es), d.cap}
	}
	all := append(append([]Val(nil), in.sliceElems(fr, st, d)...), es...)
	n := len(all)
	// growth leaves spare capacity: later appends may write in place
	cp := n
	if d.cap > 0 && 2*d.cap > n {
		cp = 2 * d.cap
	}
	z := in.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
	for len(all) < cp {
		all = append(all, z)
	}
	o := in.newObj(st, &ArrayV{all})
	in.objPos[o] = in.P.pos(pos)
	return SliceV{o, "", 0, n, cp}
}

// ---- package initialisation

// runInit analyses the package initialiser to obtain package-level values.
func (in *Interp) runInit(pkg string) {
	sp := in.P.pkgs[pkg]
	st := State{bTrue, in.initH}
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			o := in.global(g)
			t := g.Type().(*types.Pointer).Elem()
			st.heap = st.heap.set(o, in.zero(t))
		}
	}
	in.call(nil, token.NoPos, &st, sp.Func("init"), nil, nil)
	in.initH = st.heap
	in.unrolled = map[*ssa.BasicBlock]int{} // the initialisation is one run only
}

func (in *Interp) globalVal(st *State, pkg, name string) Val {
	sp := in.P.pkgs[pkg]
	if sp == nil {
		return nil
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	return st.heap.get(in.global(g))
}
