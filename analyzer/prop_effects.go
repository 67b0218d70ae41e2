package main

// C26: no call changes its inputs or shared constants, and results share no
// storage with anything that existed before the call.

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inPlace lists the methods documented to update their receiver: by the
// library's naming convention those called ...Assign, and the ones named here.
func inPlace(typ, name string) bool {
	if strings.HasSuffix(name, "Assign") {
		return true
	}
	switch typ + "." + name {
	case "FQRepr.Rsh", "FQRepr.Lsh", "FQRepr.Div2", "FQRepr.Mul2", "FQRepr.AddNoCarry", "FQRepr.SubNoBorrow",
		"FRRepr.Rsh", "FRRepr.Lsh", "FRRepr.Div2", "FRRepr.Mul2", "FRRepr.AddNoCarry", "FRRepr.SubNoBorrow",
		"BitIterator.Next", "G1Affine.SetRawBytes", "G2Affine.SetRawBytes",
		"Signature.Aggregate", "PublicKey.Aggregate":
		return true
	}
	return false
}

// wraps lists the plain constructors, whose results hold their arguments.
func wraps(name string) bool {
	switch name {
	case "NewFQ6", "NewFQ12", "NewBitIterator":
		return true
	}
	return false
}

// apiFuncs lists the exported functions and the exported methods of every
// named type of the packages.
func (P *Prog) apiFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, tp := range P.tpk {
		sp := P.pkgs[tp.PkgPath]
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if ast.IsExported(x.Name()) {
					r = append(r, x)
				}
			case *ssa.Type:
				if !ast.IsExported(x.Name()) {
					continue
				}
				nt, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					if ast.IsExported(nt.Method(i).Name()) {
						if f := P.prog.FuncValue(nt.Method(i)); f != nil {
							r = append(r, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return effName(r[i]) < effName(r[j]) })
	return r
}

func effName(f *ssa.Function) string {
	n := f.Name()
	if t := recvType(f); t != "" {
		n = t + "." + n
	}
	return f.Pkg.Pkg.Name() + "." + n
}

func recvType(f *ssa.Function) string {
	rv := f.Signature.Recv()
	if rv == nil {
		return ""
	}
	t := rv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.(*types.Named).Obj().Name()
}

// external reports storage that belongs to a reader or hash supplied by the
// caller, whose state is meant to change.
func external(o *EObj) bool {
	for o.kind == eEntry {
		o = o.base
	}
	if o.kind != eParam || o.param >= len(o.fn.Params) {
		return false
	}
	t := o.fn.Params[o.param].Type()
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	return true
}

func (g *G) effects(E *Effects, f *ssa.Function) {
	name := effName(f)
	s := E.summary(f, nil)
	where := g.where(f)
	g.ob(name+": every effect is known", len(s.opaque) == 0, where, "%s", strings.Join(s.opaque, "; "))
	typ := recvType(f)
	mut := typ != "" && inPlace(typ, f.Name())
	if rv := f.Signature.Recv(); rv != nil && f.Signature.Results().Len() == 0 {
		if _, ok := rv.Type().(*types.Pointer); ok {
			mut = true // a method without results exists for its effect
		}
	}

	var bad []string
	for o, w := range s.writes {
		if !o.symbolic() || external(o) {
			continue
		}
		r := o.root()
		if mut && r.kind == eParam && r.param == 0 {
			continue
		}
		bad = append(bad, fmt.Sprintf("changes %s: %s", o, w.why))
	}
	sort.Strings(bad)
	what := "changes nothing that existed before the call"
	if mut {
		what = "changes nothing but its receiver"
	}
	g.ob(name+": "+what, len(bad) == 0, where, "%s", strings.Join(bad, "; "))

	// what results, and the receiver of an in-place method, come to hold
	contents := func(start map[*EObj]bool) (map[*EObj]bool, map[*EObj]string) {
		seen := map[*EObj]bool{}
		from := map[*EObj]string{}
		var st []*EObj
		for o := range start {
			st = append(st, o)
		}
		for len(st) > 0 {
			o := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[o] {
				continue
			}
			seen[o] = true
			for k, c := range s.heap {
				if k.obj == o {
					for l := range c {
						st = append(st, l.obj)
					}
				}
			}
		}
		return seen, from
	}
	bad = nil
	res := f.Signature.Results()
	for n, v := range s.rets {
		t := res.At(n).Type()
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			continue
		}
		start := map[*EObj]bool{}
		for _, c := range v {
			for l := range c {
				start[l.obj] = true
			}
		}
		all, _ := contents(start)
		for o := range all {
			if o.kind == eFunc || !o.symbolic() || external(o) {
				continue
			}
			bad = append(bad, fmt.Sprintf("result %d shares %s", n, o))
		}
	}
	sort.Strings(bad)
	if !wraps(f.Name()) {
		g.ob(name+": results share no storage", len(bad) == 0, where, "%s", strings.Join(bad, "; "))
	}
	if mut {
		bad = nil
		for k, c := range s.heap {
			if r := k.obj.root(); !k.obj.symbolic() || r.kind != eParam || r.param != 0 {
				continue
			}
			start := map[*EObj]bool{}
			for l := range c {
				start[l.obj] = true
			}
			all, _ := contents(start)
			for o := range all {
				if !o.symbolic() {
					continue
				}
				if r := o.root(); r.kind == eParam && r.param == 0 {
					continue
				}
				bad = append(bad, fmt.Sprintf("%s%s comes to share %s", k.obj, k.path, o))
			}
		}
		sort.Strings(bad)
		g.ob(name+": the receiver shares no storage with arguments or variables", len(bad) == 0, where, "%s", strings.Join(bad, "; "))
	}
}

func init() {
	register("C26", 800, func(r *Run) {
		for _, arch := range bothArch {
			arch := arch
			r.group(arch, func(g *G) {
				g.use(arch)
				E := newEffects(g.P)
				fns := g.P.apiFuncs()
				for _, f := range fns {
					f := f
					g.try(effName(f)+": analysis", g.where(f), func() { g.effects(E, f) })
				}
				// initialisation apart, no function of the packages writes a
				// package-level variable, exported or not
				seen := map[*ssa.Function]bool{}
				for _, s := range E.sums {
					seen[s.fn] = true
				}
				for _, tp := range g.P.tpk {
					for _, m := range g.P.pkgs[tp.PkgPath].Members {
						if f, ok := m.(*ssa.Function); ok && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") && !seen[f] {
							g.try(f.Name()+": analysis", g.where(f), func() { E.summary(f, nil) })
						}
					}
				}
				var bad []string
				n := 0
				for _, s := range E.sums {
					n++
					g.in.visited[s.fn]++
					for o, w := range s.writes {
						if o.kind == eGlobal || o.kind == eEntry && o.root().kind == eGlobal {
							bad = append(bad, fmt.Sprintf("%s changes %s: %s", shortFn(s.fn), o, w.why))
						}
					}
				}
				sort.Strings(bad)
				g.ob("no function changes a package-level variable", len(bad) == 0, "", "%s", strings.Join(bad, "; "))
				g.in.nsteps += E.calls
				g.run.mu.Lock()
				if g.run.extra == nil {
					g.run.extra = map[string]interface{}{}
				}
				g.run.extra["summaries_"+arch] = n
				g.run.extra["call_sites_"+arch] = E.calls
				g.run.mu.Unlock()
			})
		}
	})
}
