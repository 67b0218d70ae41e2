package main

// Unexported functions by the part they play: when the name that the checked
// tree gives such a function is gone, the one function that has its signature
// and its place in the call graph of HashG1 or HashG2 is taken instead.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sigOf(f *ssa.Function) string {
	if f.Signature.Results().Len() != 1 || f.Signature.Recv() != nil {
		return ""
	}
	bare := func(*types.Package) string { return "" }
	var ps []string
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ps = append(ps, types.TypeString(f.Signature.Params().At(i).Type(), bare))
	}
	return strings.Join(ps, ",") + ">" + types.TypeString(f.Signature.Results().At(0).Type(), bare)
}

// role finds the function that plays the part of the named one, or nil.
func (P *Prog) role(name string) *ssa.Function {
	if f := P.fn(modPath, name); f != nil {
		return f
	}
	within := func(root *ssa.Function, sig string, not ...*ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		if root == nil {
			return nil
		}
	next:
		for f := range reachFrom(P, []*ssa.Function{root}) {
			if f == root || f.Parent() != nil || sigOf(f) != sig {
				continue
			}
			for _, n := range not {
				if f == n {
					continue next
				}
			}
			out = append(out, f)
		}
		return out
	}
	one := func(fs []*ssa.Function) *ssa.Function {
		if len(fs) == 1 {
			return fs[0]
		}
		return nil
	}
	g1, g2 := P.fn(modPath, "HashG1"), P.fn(modPath, "HashG2")
	// clear2 is the one that uses another of the same signature
	g2fns := func() (clear, psi, iso *ssa.Function) {
		const sig = "*G2Affine>*G2Affine"
		fs := within(P.role("optimizedSWUMap2"), sig)
		for _, f := range fs {
			if s := within(f, sig); len(s) == 1 {
				clear, psi = f, s[0]
			} else if len(s) > 1 {
				return nil, nil, nil
			}
		}
		if clear == nil {
			return nil, nil, nil
		}
		return clear, psi, one(within(P.role("optimizedSWUMap2"), sig, clear, psi))
	}
	switch name {
	case "optimizedSWUMap":
		return one(within(g1, "*FQ,*FQ>*G1Affine"))
	case "optimizedSWUMap2":
		return one(within(g2, "*FQ2,*FQ2>*G2Affine"))
	case "optimizedSWUMapHelper":
		return one(within(P.role("optimizedSWUMap"), "FQ>*G1Affine"))
	case "OptimizedSWU2MapHelper":
		return one(within(P.role("optimizedSWUMap2"), "FQ2>*G2Affine"))
	case "iso11":
		return one(within(P.role("optimizedSWUMap"), "*G1Affine>*G1Affine", P.fn(modPath, "ClearH")))
	case "ClearH":
		return one(within(P.role("optimizedSWUMap"), "*G1Affine>*G1Affine", P.role("iso11")))
	case "clearH2":
		c, _, _ := g2fns()
		return c
	case "psi":
		_, p, _ := g2fns()
		return p
	case "iso3":
		_, _, i := g2fns()
		return i
	}
	return nil
}
