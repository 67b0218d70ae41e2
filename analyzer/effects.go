package main

// C26: an interprocedural points-to and effect analysis (Salcianu-Rinard
// style).  Per function a flow-sensitive abstract heap over parameter,
// entry-content, global and allocation-site objects; the summary of a callee
// (what it writes, what it stores where, what its results reach) is
// instantiated at each call site.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type eKind uint8

const (
	eParam  eKind = iota // storage a parameter points to
	eEntry               // storage a slot of base pointed to when the function was entered
	eGlobal              // a package-level variable
	eFresh               // storage allocated during the call
	eFunc                // a function value
)

// EObj is an abstract object.
type EObj struct {
	id     int
	kind   eKind
	param  int    // eParam
	path   string // eParam: path of the pointer within the argument; eEntry: slot of base
	base   *EObj
	global *ssa.Global
	fn     *ssa.Function
	site   string
	many   bool // stands for several objects
}

// ELoc is a place within an object; dyn is the dynamic type when it is held by
// an interface; capped slices cannot be appended to in place.
type ELoc struct {
	obj    *EObj
	path   string
	dyn    types.Type
	capped bool
}

type eSet map[ELoc]bool

// EVal maps the pointer paths within a value to the places they may refer to.
type EVal map[string]eSet

func (s eSet) add(t eSet) bool {
	ch := false
	for l := range t {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

func (v EVal) add(p string, s eSet) {
	if len(s) == 0 {
		return
	}
	if v[p] == nil {
		v[p] = eSet{}
	}
	v[p].add(s)
}

func (v EVal) join(w EVal) {
	for p, s := range w {
		v.add(p, s)
	}
}

// sub is the part of v below prefix p.
func (v EVal) sub(p string) EVal {
	r := EVal{}
	for q, s := range v {
		if strings.HasPrefix(q, p) {
			r[q[len(p):]] = s
		}
	}
	return r
}

type eSlot struct {
	obj  *EObj
	path string
}

type eHeap map[eSlot]eSet

func (h eHeap) clone() eHeap {
	n := make(eHeap, len(h))
	for k, s := range h {
		n[k] = s
	}
	return n
}

// eWrite is where an object may be written.
type eWrite struct{ why string }

// ESummary is the effect of a function.
type ESummary struct {
	fn     *ssa.Function
	writes map[*EObj]eWrite
	heap   eHeap // stores into symbolic objects and contents of escaping fresh ones
	rets   []EVal
	opaque []string // calls whose effect is unknown
	gos    []string // goroutines started
}

// Effects analyses one build configuration.
type Effects struct {
	P     *Prog
	sums  map[string]*ESummary
	busy  map[string]bool
	objs  map[string]*EObj
	ptrs  map[types.Type][]string
	sites int
	calls int
}

func newEffects(P *Prog) *Effects {
	return &Effects{P: P, sums: map[string]*ESummary{}, busy: map[string]bool{}, objs: map[string]*EObj{}, ptrs: map[types.Type][]string{}}
}

func (E *Effects) obj(key string, mk func() *EObj) *EObj {
	if o := E.objs[key]; o != nil {
		return o
	}
	o := mk()
	o.id = len(E.objs)
	E.objs[key] = o
	return o
}

func (E *Effects) paramObj(fn *ssa.Function, i int, path string) *EObj {
	return E.obj(fmt.Sprintf("p %p %d %s", fn, i, path), func() *EObj { return &EObj{kind: eParam, param: i, path: path, fn: fn} })
}

func (E *Effects) globalObj(g *ssa.Global) *EObj {
	return E.obj(fmt.Sprintf("g %p", g), func() *EObj { return &EObj{kind: eGlobal, global: g} })
}

func (E *Effects) funcObj(f *ssa.Function) *EObj {
	return E.obj(fmt.Sprintf("f %p", f), func() *EObj { return &EObj{kind: eFunc, fn: f} })
}

func (E *Effects) entryObj(o *EObj, path string) *EObj {
	return E.obj(fmt.Sprintf("e %d %s", o.id, path), func() *EObj {
		return &EObj{kind: eEntry, base: o, path: path, many: o.many || strings.Contains(path, "[*]")}
	})
}

func (E *Effects) freshObj(key, site string, many bool) *EObj {
	return E.obj("n "+key, func() *EObj { return &EObj{kind: eFresh, site: site, many: many} })
}

func (o *EObj) symbolic() bool { return o.kind == eParam || o.kind == eEntry || o.kind == eGlobal }

// root is the parameter or variable a symbolic object belongs to.
func (o *EObj) root() *EObj {
	for o.kind == eEntry {
		o = o.base
	}
	return o
}

func (o *EObj) String() string {
	switch o.kind {
	case eParam:
		return paramName(o.fn, o.param) + o.path
	case eEntry:
		return o.base.String() + o.path
	case eGlobal:
		return "variable " + o.global.Pkg.Pkg.Name() + "." + o.global.Name()
	case eFunc:
		return "function " + shortFn(o.fn)
	}
	return "storage allocated at " + o.site
}

func paramName(fn *ssa.Function, i int) string {
	if i < len(fn.Params) {
		if fn.Signature.Recv() != nil && i == 0 {
			return "receiver " + fn.Params[i].Name()
		}
		return "argument " + fn.Params[i].Name()
	}
	return fmt.Sprintf("captured variable %d", i-len(fn.Params))
}

// pointers lists the paths of the pointers within a value of type t.
func (E *Effects) pointers(t types.Type) []string {
	if r, ok := E.ptrs[t]; ok {
		return r
	}
	var r []string
	seen := map[string]bool{}
	var walk func(t types.Type, p string, depth int)
	walk = func(t types.Type, p string, depth int) {
		if depth > 12 {
			panic(Unresolved{"type nesting of " + t.String()})
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			if !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		case *types.Basic:
			if u.Kind() == types.UnsafePointer && !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), p+"."+u.Field(i).Name(), depth+1)
			}
		case *types.Array:
			walk(u.Elem(), p+"[*]", depth+1)
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), fmt.Sprintf("%s#%d", p, i), depth+1)
			}
		}
	}
	walk(t, "", 0)
	E.ptrs[t] = r
	return r
}

// eFrame is the analysis of one function.
type eFrame struct {
	E    *Effects
	fn   *ssa.Function
	vals map[ssa.Value]EVal
	sum  *ESummary
	loop map[*ssa.BasicBlock]bool // blocks within a cycle
	heap eHeap
	ch   bool
	spec eSpec
}

// eSpec gives the function held by places a caller passed in.
type eSpec map[*EObj]*ssa.Function

// summary analyses fn for the function values spec.
func (E *Effects) summary(fn *ssa.Function, spec eSpec) *ESummary {
	var ks []string
	for o, t := range spec {
		ks = append(ks, fmt.Sprintf(" %d=%p", o.id, t))
	}
	sort.Strings(ks)
	key := fmt.Sprintf("%p%s", fn, strings.Join(ks, ""))
	if s := E.sums[key]; s != nil {
		return s
	}
	if E.busy[key] {
		return &ESummary{fn: fn, writes: map[*EObj]eWrite{}, heap: eHeap{}, opaque: []string{"recursive call of " + shortFn(fn)}}
	}
	E.busy[key] = true
	defer delete(E.busy, key)
	f := &eFrame{E: E, fn: fn, spec: spec, vals: map[ssa.Value]EVal{}, sum: &ESummary{fn: fn, writes: map[*EObj]eWrite{}, heap: eHeap{}}}
	f.run()
	E.sums[key] = f.sum
	return f.sum
}

// cyclic finds the blocks that can reach themselves.
func cyclic(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, x.Succs...)
		}
		r[b] = seen[b]
	}
	return r
}

func (f *eFrame) run() {
	fn := f.fn
	if len(fn.Blocks) == 0 {
		// assembly: values in, values out (C29 bounds what it touches)
		for _, p := range fn.Params {
			if len(f.E.pointers(p.Type())) > 0 {
				f.sum.opaque = append(f.sum.opaque, "body-less function "+shortFn(fn)+" takes pointers")
			}
		}
		f.sum.rets = make([]EVal, fn.Signature.Results().Len())
		return
	}
	f.loop = cyclic(fn)
	for i, p := range fn.Params {
		f.vals[p] = f.symbolicArg(i, p.Type())
	}
	for i, p := range fn.FreeVars {
		f.vals[p] = f.symbolicArg(len(fn.Params)+i, p.Type())
	}
	out := map[*ssa.BasicBlock]eHeap{}
	f.sum.rets = make([]EVal, fn.Signature.Results().Len())
	for i := range f.sum.rets {
		f.sum.rets[i] = EVal{}
	}
	final := eHeap{}
	for iter := 0; ; iter++ {
		if iter > 60 {
			panic(Unresolved{"effect analysis of " + shortFn(fn) + " does not stabilise"})
		}
		f.ch = false
		for _, b := range fn.Blocks {
			h := eHeap{}
			first := true
			if b == fn.Blocks[0] {
				first = false
			}
			for _, p := range b.Preds {
				o := out[p]
				if o == nil {
					continue
				}
				if first {
					h = o.clone()
					first = false
					continue
				}
				f.mergeHeap(h, o)
			}
			if first {
				continue // not reached yet
			}
			f.heap = h
			for _, ins := range b.Instrs {
				f.instr(b, ins)
			}
			if !heapEq(out[b], f.heap) {
				out[b] = f.heap
				f.ch = true
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				f.mergeHeap(final, f.heap)
			}
		}
		if !f.ch {
			break
		}
	}
	f.finish(final)
}

func heapEq(a, b eHeap) bool {
	if a == nil || len(a) != len(b) {
		return false
	}
	for k, s := range a {
		t, ok := b[k]
		if !ok || len(t) != len(s) {
			return false
		}
		for l := range s {
			if !t[l] {
				return false
			}
		}
	}
	return true
}

// mergeHeap joins o into h; a slot absent on one side still has its entry
// contents there.
func (f *eFrame) mergeHeap(h, o eHeap) {
	for k, s := range o {
		t, ok := h[k]
		n := eSet{}
		n.add(s)
		if ok {
			n.add(t)
		} else {
			n.add(f.initial(k))
		}
		h[k] = n
	}
	for k, t := range h {
		if _, ok := o[k]; !ok {
			n := eSet{}
			n.add(t)
			n.add(f.initial(k))
			h[k] = n
		}
	}
}

// initial is the entry contents of a slot.
func (f *eFrame) initial(k eSlot) eSet {
	if k.obj.symbolic() {
		return eSet{ELoc{obj: f.E.entryObj(k.obj, k.path)}: true}
	}
	return nil
}

func (f *eFrame) symbolicArg(i int, t types.Type) EVal {
	v := EVal{}
	for _, p := range f.E.pointers(t) {
		v[p] = eSet{ELoc{obj: f.E.paramObj(f.fn, i, p)}: true}
	}
	return v
}

// finish keeps what a caller can see.
func (f *eFrame) finish(h eHeap) {
	reach := map[*EObj]bool{}
	var st []*EObj
	push := func(o *EObj) {
		if !reach[o] {
			reach[o] = true
			st = append(st, o)
		}
	}
	for _, v := range f.sum.rets {
		for _, s := range v {
			for l := range s {
				push(l.obj)
			}
		}
	}
	for k, s := range h {
		if k.obj.symbolic() {
			push(k.obj)
			for l := range s {
				push(l.obj)
			}
		}
	}
	for len(st) > 0 {
		o := st[len(st)-1]
		st = st[:len(st)-1]
		for k, s := range h {
			if k.obj == o {
				for l := range s {
					push(l.obj)
				}
			}
		}
	}
	for k, s := range h {
		if reach[k.obj] {
			f.sum.heap[k] = s
		}
	}
}

func (f *eFrame) val(v ssa.Value) EVal {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return EVal{}
	case *ssa.Global:
		return EVal{"": eSet{ELoc{obj: f.E.globalObj(x)}: true}}
	case *ssa.Function:
		return EVal{"": eSet{ELoc{obj: f.E.funcObj(x)}: true}}
	}
	return f.vals[v]
}

func (f *eFrame) set(v ssa.Value, w EVal) {
	old := f.vals[v]
	if old == nil {
		old = EVal{}
		f.vals[v] = old
		f.ch = true
	}
	for p, s := range w {
		if len(s) == 0 {
			continue
		}
		if old[p] == nil {
			old[p] = eSet{}
		}
		if old[p].add(s) {
			f.ch = true
		}
	}
}

func (f *eFrame) site(i ssa.Instruction) string {
	return f.E.P.pos(i.Pos())
}

// load reads a value of type t at the places of s.
func (f *eFrame) load(s eSet, t types.Type) EVal {
	r := EVal{}
	for _, p := range f.E.pointers(t) {
		for l := range s {
			k := eSlot{l.obj, l.path + p}
			if c, ok := f.heap[k]; ok {
				r.add(p, c)
			} else {
				r.add(p, f.initial(k))
			}
			if r[p] == nil {
				r[p] = eSet{}
			}
		}
	}
	return r
}

func (f *eFrame) wrote(o *EObj, why string) {
	if _, ok := f.sum.writes[o]; !ok {
		f.sum.writes[o] = eWrite{why}
		f.ch = true
	}
}

// store writes v of type t at the places of s.
func (f *eFrame) store(s eSet, t types.Type, v EVal, why string) {
	for l := range s {
		f.wrote(l.obj, why)
		for _, p := range f.E.pointers(t) {
			k := eSlot{l.obj, l.path + p}
			n := eSet{}
			n.add(v[p])
			if !(len(s) == 1 && !l.obj.many && !strings.Contains(k.path, "[*]")) {
				if c, ok := f.heap[k]; ok {
					n.add(c)
				} else {
					n.add(f.initial(k))
				}
			}
			f.heap[k] = n
		}
	}
}

func at(s eSet, p string) eSet {
	r := eSet{}
	for l := range s {
		r[ELoc{obj: l.obj, path: l.path + p}] = true
	}
	return r
}

// direct reports that an interface holds values of type t by their own pointer.
func (E *Effects) direct(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (f *eFrame) fresh(i ssa.Instruction, tag string) *EObj {
	return f.E.freshObj(fmt.Sprintf("%p %s", i, tag), f.site(i), f.loop[i.Block()])
}

func (f *eFrame) unknown(what string, i ssa.Instruction) {
	m := what + " at " + f.site(i)
	for _, o := range f.sum.opaque {
		if o == m {
			return
		}
	}
	f.sum.opaque = append(f.sum.opaque, m)
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return "." + t.Underlying().(*types.Struct).Field(i).Name()
}

func (f *eFrame) instr(b *ssa.BasicBlock, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		o := f.fresh(i, "")
		f.set(i, EVal{"": eSet{ELoc{obj: o}: true}})
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Panic:
		if v, ok := ins.(ssa.Value); ok {
			f.set(v, EVal{})
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			f.set(i, f.load(f.val(i.X)[""], i.Type()))
			return
		}
		if i.Op == token.ARROW {
			f.unknown("channel receive", i)
		}
		f.set(i, EVal{})
	case *ssa.Store:
		f.store(f.val(i.Addr)[""], i.Val.Type(), f.val(i.Val), f.fnName()+" writes at "+f.site(i))
	case *ssa.FieldAddr:
		f.set(i, EVal{"": at(f.val(i.X)[""], fieldName(i.X.Type(), i.Field))})
	case *ssa.IndexAddr:
		f.set(i, EVal{"": at(f.val(i.X)[""], "[*]")})
	case *ssa.Field:
		f.set(i, f.val(i.X).sub(fieldName(i.X.Type(), i.Field)))
	case *ssa.Index:
		f.set(i, f.val(i.X).sub("[*]"))
	case *ssa.Extract:
		f.set(i, f.val(i.Tuple).sub(fmt.Sprintf("#%d", i.Index)))
	case *ssa.Phi:
		r := EVal{}
		for _, e := range i.Edges {
			r.join(f.val(e))
		}
		f.set(i, r)
	case *ssa.ChangeType:
		f.set(i, f.val(i.X))
	case *ssa.ChangeInterface:
		f.set(i, f.val(i.X))
	case *ssa.Convert:
		if len(f.E.pointers(i.Type())) == 0 {
			f.set(i, EVal{})
			return
		}
		if len(f.E.pointers(i.X.Type())) == 0 || isString(i.X.Type()) { // string to []byte
			f.set(i, EVal{"": eSet{ELoc{obj: f.fresh(i, "")}: true}})
			return
		}
		f.unknown("conversion "+i.X.Type().String()+" to "+i.Type().String(), i)
		f.set(i, f.val(i.X))
	case *ssa.SliceToArrayPointer:
		f.set(i, f.val(i.X))
	case *ssa.Slice:
		s := f.val(i.X)[""]
		if _, ok := i.X.Type().Underlying().(*types.Basic); ok {
			f.set(i, EVal{})
			return
		}
		if i.Max != nil && i.Max == i.High {
			n := eSet{}
			for l := range s {
				l.capped = true
				n[l] = true
			}
			s = n
		}
		f.set(i, EVal{"": s})
	case *ssa.MakeSlice:
		f.set(i, EVal{"": eSet{ELoc{obj: f.fresh(i, "")}: true}})
	case *ssa.MakeMap, *ssa.MakeChan:
		v := ins.(ssa.Value)
		f.set(v, EVal{"": eSet{ELoc{obj: f.fresh(ins, "")}: true}})
	case *ssa.MapUpdate:
		m := f.val(i.Map)[""]
		mt := i.Map.Type().Underlying().(*types.Map)
		f.store(at(m, "[k]"), mt.Key(), f.val(i.Key), f.fnName()+" writes a map at "+f.site(i))
		f.store(at(m, "[*]"), mt.Elem(), f.val(i.Value), f.fnName()+" writes a map at "+f.site(i))
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			f.set(i, EVal{})
			return
		}
		el := i.X.Type().Underlying().(*types.Map).Elem()
		v := f.load(at(f.val(i.X)[""], "[*]"), el)
		if i.CommaOk {
			w := EVal{}
			for p, s := range v {
				w["#0"+p] = s
			}
			v = w
		}
		f.set(i, v)
	case *ssa.Range:
		f.set(i, EVal{"": f.val(i.X)[""]})
	case *ssa.Next:
		v := EVal{}
		if !i.IsString {
			if mt, ok := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
				m := f.val(i.Iter)[""]
				for p, s := range f.load(at(m, "[k]"), mt.Key()) {
					v["#1"+p] = s
				}
				for p, s := range f.load(at(m, "[*]"), mt.Elem()) {
					v["#2"+p] = s
				}
			}
		}
		f.set(i, v)
	case *ssa.MakeInterface:
		x := f.val(i.X)
		t := i.X.Type()
		r := eSet{}
		if f.E.direct(t) {
			for l := range x[""] {
				r[ELoc{obj: l.obj, path: l.path, dyn: t, capped: l.capped}] = true
			}
		} else {
			o := f.fresh(i, "box")
			for _, p := range f.E.pointers(t) {
				n := eSet{}
				n.add(x[p])
				n.add(f.heap[eSlot{o, p}])
				f.heap[eSlot{o, p}] = n
			}
			r[ELoc{obj: o, dyn: t}] = true
		}
		f.set(i, EVal{"": r})
	case *ssa.TypeAssert:
		x := f.val(i.X)[""]
		v := EVal{}
		if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			v[""] = x
		} else {
			m := eSet{}
			for l := range x {
				if l.dyn == nil || types.Identical(l.dyn, i.AssertedType) {
					m[ELoc{obj: l.obj, path: l.path}] = true
				}
			}
			if f.E.direct(i.AssertedType) {
				v[""] = m
			} else {
				v = f.load(m, i.AssertedType)
			}
		}
		if i.CommaOk {
			w := EVal{}
			for p, s := range v {
				w["#0"+p] = s
			}
			v = w
		}
		f.set(i, v)
	case *ssa.MakeClosure:
		o := f.fresh(i, "fn")
		o.fn = i.Fn.(*ssa.Function)
		for n, bnd := range i.Bindings {
			for p, s := range f.val(bnd) {
				k := eSlot{o, fmt.Sprintf("#%d%s", n, p)}
				t := eSet{}
				t.add(s)
				t.add(f.heap[k])
				f.heap[k] = t
			}
		}
		f.set(i, EVal{"": eSet{ELoc{obj: o}: true}})
	case *ssa.Call:
		f.set(i, f.callCommon(i, i.Common()))
	case *ssa.Defer:
		f.callCommon(i, i.Common())
	case *ssa.Go:
		f.unknown("goroutine", i)
		f.callCommon(i, i.Common())
	case *ssa.RunDefers:
	case *ssa.Return:
		for n, r := range i.Results {
			for p, s := range f.val(r) {
				if f.sum.rets[n][p] == nil {
					f.sum.rets[n][p] = eSet{}
				}
				if f.sum.rets[n][p].add(s) {
					f.ch = true
				}
			}
		}
	default:
		f.unknown(fmt.Sprintf("%T", ins), ins)
		if v, ok := ins.(ssa.Value); ok {
			f.set(v, EVal{})
		}
	}
}

func (f *eFrame) fnName() string { return shortFn(f.fn) }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func tupleVal(vs []EVal) EVal {
	if len(vs) == 1 {
		return vs[0]
	}
	r := EVal{}
	for n, v := range vs {
		for p, s := range v {
			r[fmt.Sprintf("#%d%s", n, p)] = s
		}
	}
	return r
}

func (f *eFrame) callCommon(i ssa.Instruction, c *ssa.CallCommon) EVal {
	f.E.calls++
	var args []EVal
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	if c.IsInvoke() {
		r := EVal{}
		recv := f.val(c.Value)[""]
		var types_ []types.Type
		for l := range recv {
			if l.dyn == nil {
				r.join(f.library(i, c.Method, append([]EVal{f.val(c.Value)}, args...), c.Signature()))
				continue
			}
			types_ = append(types_, l.dyn)
		}
		sort.Slice(types_, func(a, b int) bool { return types_[a].String() < types_[b].String() })
		var last types.Type
		for _, t := range types_ {
			if last != nil && types.Identical(last, t) {
				continue
			}
			last = t
			r.join(f.invoke(i, t, recv, c.Method, args, c.Signature()))
		}
		return r
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		return f.builtin(i, fn, c, args)
	case *ssa.Function:
		return f.callFn(i, fn, args, nil)
	}
	r := EVal{}
	for l := range f.val(c.Value)[""] {
		if f.target(l.obj) == nil {
			f.unknown("call of an unknown function value", i)
			continue
		}
		r.join(f.callValue(i, l.obj, args))
	}
	return r
}

// callValue calls the function value o.
func (f *eFrame) callValue(i ssa.Instruction, o *EObj, args []EVal) EVal {
	var free []EVal
	fn := f.target(o)
	for k, fv := range fn.FreeVars {
		v := EVal{}
		if o.symbolic() {
			for _, p := range f.E.pointers(fv.Type()) {
				sl := eSlot{o, fmt.Sprintf("#%d%s", k, p)}
				c, ok := f.heap[sl]
				if !ok {
					c = f.initial(sl)
				}
				v[p] = c
			}
			free = append(free, v)
			continue
		}
		pre := fmt.Sprintf("#%d", k)
		for s, c := range f.heap {
			if s.obj == o && strings.HasPrefix(s.path, pre) && (len(s.path) == len(pre) || s.path[len(pre)] < '0' || s.path[len(pre)] > '9') {
				v[s.path[len(pre):]] = c
			}
		}
		free = append(free, v)
	}
	return f.callFn(i, fn, args, free)
}

// target is the function that o is known to be.
func (f *eFrame) target(o *EObj) *ssa.Function {
	if o.symbolic() {
		return f.spec[o]
	}
	return o.fn
}

// specialise finds the function values among the arguments of a call.
func (f *eFrame) specialise(fn *ssa.Function, all []EVal) eSpec {
	spec := eSpec{}
	one := func(o *EObj, s eSet) {
		var t *ssa.Function
		for l := range s {
			u := f.target(l.obj)
			if u == nil || t != nil && t != u {
				return
			}
			t = u
		}
		if t != nil {
			spec[o] = t
		}
	}
	isFunc := func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }
	n := 0
	arg := func(t types.Type) {
		i := n
		n++
		if i >= len(all) {
			return
		}
		if isFunc(t) {
			one(f.E.paramObj(fn, i, ""), all[i][""])
		} else if p, ok := t.Underlying().(*types.Pointer); ok && isFunc(p.Elem()) { // a captured variable
			s := eSet{}
			for l := range all[i][""] {
				k := eSlot{l.obj, l.path}
				c, ok := f.heap[k]
				if !ok {
					c = f.initial(k)
				}
				s.add(c)
			}
			one(f.E.entryObj(f.E.paramObj(fn, i, ""), ""), s)
		}
	}
	for _, p := range fn.Params {
		arg(p.Type())
	}
	for _, p := range fn.FreeVars {
		arg(p.Type())
	}
	return spec
}

// invoke calls the method of a known dynamic type.
func (f *eFrame) invoke(i ssa.Instruction, t types.Type, recv eSet, m *types.Func, args []EVal, sig *types.Signature) EVal {
	sel := f.E.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		f.unknown("method "+m.Name()+" of "+t.String(), i)
		return EVal{}
	}
	fn := f.E.P.prog.MethodValue(sel)
	if fn == nil {
		f.unknown("method "+m.Name()+" of "+t.String(), i)
		return EVal{}
	}
	mine := eSet{}
	for l := range recv {
		if l.dyn != nil && types.Identical(l.dyn, t) {
			mine[ELoc{obj: l.obj, path: l.path}] = true
		}
	}
	var rv EVal
	if f.E.direct(t) {
		rv = EVal{"": mine}
	} else {
		rv = f.load(mine, t)
	}
	return f.callFn(i, fn, append([]EVal{rv}, args...), nil)
}

func (f *eFrame) callFn(i ssa.Instruction, fn *ssa.Function, args, free []EVal) EVal {
	local := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	if !local && len(fn.Blocks) == 0 {
		if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" || o != nil && fn.Pkg != nil {
			return f.library(i, o, args, fn.Signature)
		}
	}
	if fn.Pkg == nil && len(fn.Blocks) == 0 {
		if o, ok := fn.Object().(*types.Func); ok {
			return f.library(i, o, args, fn.Signature)
		}
	}
	all := append(append([]EVal{}, args...), free...)
	s := f.E.summary(fn, f.specialise(fn, all))
	for _, o := range s.opaque {
		f.passUp(o)
	}
	// instantiate
	actual := map[*EObj]eSet{}
	var locs func(o *EObj) eSet
	locs = func(o *EObj) eSet {
		if r, ok := actual[o]; ok {
			return r
		}
		var r eSet
		switch o.kind {
		case eParam:
			r = all[o.param][o.path]
		case eGlobal, eFunc:
			r = eSet{ELoc{obj: o}: true}
		case eEntry:
			r = eSet{}
			for l := range locs(o.base) {
				k := eSlot{l.obj, l.path + o.path}
				if c, ok := f.heap[k]; ok {
					r.add(c)
				} else {
					r.add(f.initial(k))
				}
			}
		default:
			n := f.E.freshObj(fmt.Sprintf("%p<%d", i, o.id), o.site, o.many || f.loop[i.Block()])
			n.fn = o.fn
			r = eSet{ELoc{obj: n}: true}
		}
		actual[o] = r
		return r
	}
	mapSet := func(s eSet) eSet {
		r := eSet{}
		for l := range s {
			for m := range locs(l.obj) {
				n := ELoc{obj: m.obj, path: m.path + l.path, dyn: l.dyn, capped: l.capped || m.capped}
				if l.dyn == nil && l.path == "" {
					n.dyn = m.dyn
				}
				r[n] = true
			}
		}
		return r
	}
	// all reads refer to the state before the call
	for o := range s.writes {
		locs(o)
	}
	type upd struct {
		to  eSet
		p   string
		val eSet
	}
	var ups []upd
	for k, v := range s.heap {
		ups = append(ups, upd{locs(k.obj), k.path, mapSet(v)})
	}
	rets := make([]EVal, len(s.rets))
	for n, v := range s.rets {
		rets[n] = EVal{}
		for p, c := range v {
			rets[n][p] = mapSet(c)
		}
	}
	for o, w := range s.writes {
		for l := range locs(o) {
			f.wrote(l.obj, w.why)
		}
	}
	for _, u := range ups {
		for l := range u.to {
			k := eSlot{l.obj, l.path + u.p}
			n := eSet{}
			n.add(u.val)
			// The summary's final contents of a symbolic slot include what it
			// held before, unless the callee surely replaced it.
			strong := len(u.to) == 1 && !l.obj.many && !strings.Contains(k.path, "[*]")
			if !strong {
				if c, ok := f.heap[k]; ok {
					n.add(c)
				} else {
					n.add(f.initial(k))
				}
			}
			f.heap[k] = n
		}
	}
	return tupleVal(rets)
}

func (f *eFrame) passUp(o string) {
	for _, p := range f.sum.opaque {
		if p == o {
			return
		}
	}
	f.sum.opaque = append(f.sum.opaque, o)
}

func (f *eFrame) builtin(i ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []EVal) EVal {
	switch b.Name() {
	case "len", "cap", "print", "println", "min", "max", "recover", "real", "imag", "complex", "panic":
		return EVal{}
	case "append":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		o := f.fresh(i, "append")
		dst := eSet{}
		for l := range args[0][""] {
			dst[ELoc{obj: l.obj, path: l.path, capped: l.capped}] = true
		}
		res := eSet{ELoc{obj: o}: true}
		content := f.load(at(dst, "[*]"), el)
		var added EVal
		if !isString(c.Args[1].Type()) {
			added = f.load(at(args[1][""], "[*]"), el)
		}
		grow := eSet{}
		for l := range dst {
			res[l] = true
			if !l.capped {
				grow[l] = true
			}
		}
		why := f.fnName() + " appends in place at " + f.site(i)
		if len(grow) > 0 && !constNil(c.Args[0]) {
			f.store(at(grow, "[*]"), el, added, why)
		}
		n := EVal{}
		n.join(content)
		n.join(added)
		for _, p := range f.E.pointers(el) {
			k := eSlot{o, "[*]" + p}
			t := eSet{}
			t.add(n[p])
			t.add(f.heap[k])
			f.heap[k] = t
		}
		return EVal{"": res}
	case "copy":
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var src EVal
		if !isString(c.Args[1].Type()) {
			src = f.load(at(args[1][""], "[*]"), el)
		}
		f.store(at(args[0][""], "[*]"), el, src, f.fnName()+" copies into it at "+f.site(i))
		return EVal{}
	case "clear", "delete":
		for l := range args[0][""] {
			f.wrote(l.obj, f.fnName()+" clears at "+f.site(i))
		}
		return EVal{}
	}
	f.unknown("builtin "+b.Name(), i)
	return EVal{}
}

func constNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// library applies the effect of a standard-library function.
func (f *eFrame) library(i ssa.Instruction, o *types.Func, args []EVal, sig *types.Signature) EVal {
	name := o.FullName()
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	fresh := func() EVal {
		var vs []EVal
		for n := 0; n < sig.Results().Len(); n++ {
			v := EVal{}
			for _, p := range f.E.pointers(sig.Results().At(n).Type()) {
				v[p] = eSet{ELoc{obj: f.fresh(i, fmt.Sprintf("%s %d%s", name, n, p))}: true}
			}
			vs = append(vs, v)
		}
		return tupleVal(vs)
	}
	write := func(n int) {
		for l := range args[n][""] {
			f.wrote(l.obj, f.fnName()+" calls "+name+" on it at "+f.site(i))
		}
	}
	if recv := o.Type().(*types.Signature).Recv(); recv != nil {
		switch n := typeName(recv.Type()); {
		case n == "bytes.Buffer" && (strings.HasPrefix(o.Name(), "Write") && o.Name() != "WriteTo" || o.Name() == "Reset" || o.Name() == "Grow" || o.Name() == "Truncate"),
			n == "strings.Builder" && o.Name() != "String" && o.Name() != "Len" && o.Name() != "Cap":
			why := f.fnName() + " calls " + name + " on it at " + f.site(i)
			for l := range args[0][""] {
				f.wrote(l.obj, why)
				if n == "strings.Builder" {
					continue
				}
				k := eSlot{l.obj, l.path + ".buf"}
				old, ok := f.heap[k]
				if !ok {
					old = f.initial(k)
				}
				for d := range old {
					f.wrote(d.obj, why)
				}
				t := eSet{}
				t.add(old)
				t[ELoc{obj: f.fresh(i, "buffer")}] = true
				f.heap[k] = t
			}
			return fresh()
		case n == "bytes.Buffer" && o.Name() == "Bytes":
			r := eSet{}
			for l := range args[0][""] {
				k := eSlot{l.obj, l.path + ".buf"}
				old, ok := f.heap[k]
				if !ok {
					old = f.initial(k)
				}
				r.add(old)
			}
			return EVal{"": r}
		case n == "bytes.Buffer" && (o.Name() == "String" || o.Name() == "Len" || o.Name() == "Cap"):
			return fresh()
		}
	}
	switch pkg {
	case "math/bits", "errors", "fmt", "strconv", "math", "strings", "unicode/utf8", "encoding/hex", "log", "runtime", "crypto/subtle":
		if pkg == "fmt" && strings.Contains(name, "can") || pkg == "encoding/hex" && (strings.Contains(name, "Decode(") || name == "encoding/hex.Decode" || name == "encoding/hex.Encode") || name == "crypto/subtle.ConstantTimeCopy" || name == "crypto/subtle.XORBytes" {
			break
		}
		return fresh()
	case "bytes":
		switch o.Name() {
		case "Compare", "Equal", "HasPrefix", "HasSuffix", "Index", "IndexByte", "Contains", "Count", "Repeat", "Join", "Clone":
			return fresh()
		}
	case "crypto/sha256":
		switch o.Name() {
		case "New", "Sum256", "Sum224", "New224":
			return fresh()
		}
	case "crypto/rand":
		if o.Name() == "Int" {
			return fresh()
		}
	case "encoding/binary":
		switch {
		case strings.HasPrefix(o.Name(), "Put"):
			write(len(args) - 2)
			return EVal{}
		case strings.HasPrefix(o.Name(), "Uint"), o.Name() == "String":
			return EVal{}
		case strings.HasPrefix(o.Name(), "AppendUint"):
			r := EVal{"": eSet{ELoc{obj: f.fresh(i, "append")}: true}}
			b := args[len(args)-2]
			for l := range b[""] {
				if !l.capped {
					f.wrote(l.obj, f.fnName()+" appends to it at "+f.site(i))
				}
			}
			r.join(b)
			return r
		}
	case "io":
		switch o.Name() {
		case "Read":
			write(1)
			return EVal{}
		case "ReadFull":
			write(1)
			return EVal{}
		case "Write":
			return fresh()
		}
	case "hash":
		switch o.Name() {
		case "Write", "Reset":
			write(0)
			return EVal{}
		case "Size", "BlockSize":
			return EVal{}
		case "Sum":
			r := fresh()
			for l := range args[1][""] {
				if !l.capped {
					f.wrote(l.obj, f.fnName()+" appends a digest to it at "+f.site(i))
				}
			}
			r.join(args[1])
			return r
		}
	case "sort":
		switch o.Name() {
		case "Sort", "Stable":
			r := EVal{}
			it := o.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Interface)
			for n := 0; n < it.NumMethods(); n++ {
				m := it.Method(n)
				for l := range args[0][""] {
					if l.dyn == nil {
						f.unknown("sort of an unknown type", i)
						continue
					}
					ma := make([]EVal, m.Type().(*types.Signature).Params().Len())
					for k := range ma {
						ma[k] = EVal{}
					}
					r.join(f.invoke(i, l.dyn, args[0][""], m, ma, m.Type().(*types.Signature)))
				}
			}
			return EVal{}
		case "Slice", "SliceStable":
			// permutes the elements of its argument
			for l := range args[0][""] {
				f.wrote(l.obj, f.fnName()+" sorts it at "+f.site(i))
			}
			for l := range args[1][""] {
				if l.obj.fn != nil && !l.obj.symbolic() {
					f.callValue(i, l.obj, []EVal{{}, {}})
				}
			}
			return EVal{}
		case "Ints", "Strings":
			write(0)
			return EVal{}
		}
	case "math/big":
		return f.bigCall(i, o, args, sig, fresh)
	case "":
		if o.Name() == "Error" {
			return EVal{}
		}
	case "hash/maphash", "sync", "sync/atomic", "unsafe":
	}
	pure := true
	for _, a := range args {
		for _, s := range a {
			if len(s) > 0 {
				pure = false
			}
		}
	}
	if pure {
		return fresh()
	}
	if strings.HasSuffix(name, ".Error") && len(args) == 1 {
		return EVal{}
	}
	f.unknown("effect of "+name, i)
	return fresh()
}

var bigReaders = map[string]bool{"BitLen": true, "Bit": true, "Cmp": true, "CmpAbs": true, "Sign": true, "Uint64": true, "Int64": true, "IsInt64": true, "IsUint64": true,
	"Bytes": true, "FillBytes": false, "String": true, "Text": true, "ProbablyPrime": true, "TrailingZeroBits": true}

// bigCall: methods of big.Int that return *Int write their receiver; the
// digits live in the slice it holds.
func (f *eFrame) bigCall(i ssa.Instruction, o *types.Func, args []EVal, sig *types.Signature, fresh func() EVal) EVal {
	recv := o.Type().(*types.Signature).Recv()
	if recv == nil {
		if o.Name() == "NewInt" || o.Name() == "Jacobi" {
			return fresh()
		}
		f.unknown("effect of "+o.FullName(), i)
		return fresh()
	}
	if !strings.HasSuffix(recv.Type().String(), "big.Int") {
		f.unknown("effect of "+o.FullName(), i)
		return fresh()
	}
	if bigReaders[o.Name()] {
		return fresh()
	}
	why := f.fnName() + " calls " + o.FullName() + " on it at " + f.site(i)
	wr := func(n int) {
		for l := range args[n][""] {
			f.wrote(l.obj, why)
			k := eSlot{l.obj, l.path + ".abs"}
			old, ok := f.heap[k]
			if !ok {
				old = f.initial(k)
			}
			for d := range old {
				f.wrote(d.obj, why)
			}
			t := eSet{}
			t.add(old)
			t[ELoc{obj: f.fresh(i, "digits")}] = true
			f.heap[k] = t
		}
	}
	switch o.Name() {
	case "FillBytes":
		for l := range args[1][""] {
			f.wrote(l.obj, why)
		}
		return args[1]
	case "Bits", "SetBits":
		f.unknown("effect of "+o.FullName(), i)
		return fresh()
	case "DivMod", "QuoRem":
		wr(0)
		wr(3)
		return tupleVal([]EVal{args[0], args[3]})
	case "GCD":
		f.unknown("effect of "+o.FullName(), i)
		return args[0]
	}
	wr(0)
	switch sig.Results().Len() {
	case 0:
		return EVal{}
	case 1:
		return args[0]
	}
	r := EVal{}
	for p, s := range args[0] {
		r["#0"+p] = s
	}
	return r
}
