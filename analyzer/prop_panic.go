package main

// C27: no panic is reachable from the calls an attacker feeds.  Assume and
// guarantee: every function reachable from an entry point is analysed by the
// groups that establish its contract, for every input its precondition allows;
// calls below use the contracts.  Here the panic conditions met on the way are
// the obligations, whatever the results are, together with a coverage
// obligation per reachable function.  The exponentiation loops are analysed
// with the group collapsed to one abstract element.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// panicProps are the checks whose analyses cover the reachable code.
var panicProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"}

// entryPoints are the attacker-facing calls.
func entryPoints(P *Prog) []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function, name string) {
		if f == nil {
			panic(Unresolved{"API function " + name + " not found"})
		}
		out = append(out, f)
	}
	for _, n := range []string{"DecompressG1", "DecompressG1Unchecked", "DecompressG2", "DecompressG2Unchecked", "CompressG1", "CompressG2", "HashG1", "HashG2", "HashG2WithDomain", "HashSecretKey", "Pairing", "CompareTwoPairings", "MillerLoop", "FinalExponentiation", "G2AffineToPrepared"} {
		add(P.fn(modPath, n), n)
	}
	for i := range curves {
		for _, n := range []string{"SetRawBytes", "SerializeBytes", "IsOnCurve", "IsInCorrectSubgroupAssumingOnCurve", "Equals"} {
			add(P.method(modPath, curves[i].aff, n), curves[i].aff+"."+n)
		}
	}
	for _, p := range []string{"g1pubs", "g2pubs"} {
		path := modPath + "/" + p
		fns := []string{"DeserializeSignature", "DeserializePublicKey", "Verify", "AggregateSignatures", "AggregatePublicKeys"}
		sigs := []string{"VerifyAggregate", "VerifyAggregateCommon", "Serialize", "Aggregate"}
		if p == "g1pubs" {
			fns = append(fns, "VerifyWithDomain")
			sigs = append(sigs, "VerifyAggregateCommonWithDomain", "VerifyAggregateWithDomain")
		}
		for _, n := range fns {
			add(P.fn(path, n), p+"."+n)
		}
		for _, n := range sigs {
			add(P.method(path, "Signature", n), p+".Signature."+n)
		}
		for _, n := range []string{"Serialize", "Aggregate", "Equals"} {
			add(P.method(path, "PublicKey", n), p+".PublicKey."+n)
		}
	}
	return out
}

// reachFrom lists the functions of the module reachable over calls, function
// values and interface methods of the module's own types.
func reachFrom(P *Prog, roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if !strings.HasPrefix(P.fset.Position(f.Pos()).Filename, repoDir+"/") {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					switch x := (*o).(type) {
					case *ssa.Function:
						add(x)
					}
				}
				if mi, ok := i.(*ssa.MakeInterface); ok {
					ms := P.prog.MethodSets.MethodSet(mi.X.Type())
					for k := 0; k < ms.Len(); k++ {
						add(P.prog.MethodValue(ms.At(k)))
					}
				}
			}
		}
	}
	for _, f := range roots {
		add(f)
	}
	return seen
}

func init() {
	register("C27", 1000, func(r *Run) {
		r.panicOnly = true
		for _, id := range panicProps {
			n := len(r.groups)
			props[id].setup(r)
			for i := n; i < len(r.groups); i++ {
				r.groups[i].name = id + ":" + r.groups[i].name
			}
		}
		for _, arch := range bothArch {
			for i := range curves {
				cofactorObs(r, &curves[i], arch)
			}
		}
		// the loops do not depend on the word arithmetic
		arch := bothArch[0]
		reach := reachFrom(r.prog(arch), entryPoints(r.prog(arch)))
		for i := range curves {
			cv := &curves[i]
			for _, ty := range []string{cv.aff, cv.proj} {
				for n, w := range map[string]int{"Mul": 6, "MulFR": 4} {
					if reach[r.prog(arch).method(modPath, ty, n)] {
						skeleton(r, arch, ty, n, w, false, cv)
					}
				}
			}
		}
		for _, k := range []powKind{{"FQ", "Exp", true, ""}, {"FQ2", "Exp", true, ""}, {"FQ6", "Exp", true, ""}, {"FQ12", "Exp", true, ""}, {"FR", "Exp", true, ""}, {"FQ", "MulBits", false, ""}, {"FR", "MulBits", false, ""}} {
			words := 6
			if k.ty == "FR" {
				words = 4
			}
			if reach[r.prog(arch).method(modPath, k.ty, k.name)] {
				skeleton(r, arch, k.ty, k.name, words, k.one, nil)
			}
		}
		r.last = func() {
			for _, arch := range bothArch {
				P := r.prog(arch)
				reach := reachFrom(P, entryPoints(P))
				var fs []*ssa.Function
				for f := range reach {
					fs = append(fs, f)
				}
				sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
				for _, f := range fs {
					o := &Ob{group: "coverage/" + arch, name: shortFn(f) + " is analysed", ok: r.visited[shortFn(f)] > 0, where: P.pos(f.Pos())}
					if !o.ok {
						o.detail = "reachable from an entry point, but no analysis covers it"
					}
					r.addOb(o)
				}
			}
		}
	})
}

// skeleton analyses the loop of an exponentiation for every exponent, by bit
// length, group elements being one abstract value whose tests are unknown.
func skeleton(r *Run, arch, ty, name string, words int, one bool, cv *curve) {
	const chunk = 48
	for lo := 0; lo <= 64*words; lo += chunk {
		lo := lo
		r.group(fmt.Sprintf("%s/%s.%s/exponents from %d bits", arch, ty, name, lo), func(g *G) {
			g.use(arch)
			g.useFQ()
			g.useFQ2()
			g.in.runInit(modPath)
			g.start()
			g.c.grpAny = true
			fn := g.method(ty, name)
			if cv != nil {
				g.usePoints()
			} else {
				g.useMonoid(ty, one)
			}
			for L := lo; L < lo+chunk && L <= 64*words && !r.stop(); L++ {
				g.start()
				s := g.bitScalar("s", L)
				var p Val
				if cv != nil {
					p = g.newPtr(g.c.grpSym(cv.name, "P", nil))
				} else {
					p = g.newPtr(g.c.grpSym(ty, "P", nil))
					if ty == "FR" {
						p = g.newPtr(&StructV{[]Val{p}})
					}
				}
				mark := len(g.in.panics)
				g.callA(fn, p, g.newPtr(g.c.scalarWords(s, words)))
				g.noPanics(fmt.Sprintf("%s.%s (%d bits)", ty, name, L), mark, g.where(fn))
			}
		})
	}
}
