package main

import (
	"golang.org/x/tools/go/ssa"
)

// LoopInfo is the natural-loop forest of a function plus value liveness.
type LoopInfo struct {
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*Loop // innermost
	heads  map[*ssa.BasicBlock]*Loop
	regs   map[ssa.Value]int
	live   map[*ssa.BasicBlock][]int // live-in registers
	nregs  int
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

func (P *Prog) loopInfo(fn *ssa.Function) *LoopInfo {
	P.mu.Lock()
	defer P.mu.Unlock()
	if li, ok := P.loops[fn]; ok {
		return li
	}
	li := &LoopInfo{loopOf: map[*ssa.BasicBlock]*Loop{}, heads: map[*ssa.BasicBlock]*Loop{}, regs: map[ssa.Value]int{}, live: map[*ssa.BasicBlock][]int{}}
	P.loops[fn] = li
	if len(fn.Blocks) == 0 {
		return li
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	var loops []*Loop
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
					loops = append(loops, l)
				}
				// natural loop body
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, b := range li.rpo {
		var best *Loop
		for _, l := range loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		li.loopOf[b] = best
	}
	for _, l := range loops {
		for _, m := range loops {
			if m != l && m.blocks[l.head] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	// registers
	add := func(v ssa.Value) {
		if _, ok := li.regs[v]; !ok {
			li.regs[v] = len(li.regs)
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range li.rpo {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	li.nregs = len(li.regs)
	// liveness
	n := li.nregs
	words := (n + 63) / 64
	use := map[*ssa.BasicBlock][]uint64{}
	def := map[*ssa.BasicBlock][]uint64{}
	out := map[*ssa.BasicBlock][]uint64{}
	liveIn := map[*ssa.BasicBlock][]uint64{}
	set := func(w []uint64, i int) { w[i/64] |= 1 << (i % 64) }
	has := func(w []uint64, i int) bool { return w[i/64]>>(i%64)&1 == 1 }
	for _, b := range li.rpo {
		u, d := make([]uint64, words), make([]uint64, words)
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				set(d, li.regs[phi])
				continue
			}
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				if i, ok := li.regs[*o]; ok && !has(d, i) {
					set(u, i)
				}
			}
			if v, ok := in.(ssa.Value); ok {
				set(d, li.regs[v])
			}
		}
		use[b], def[b] = u, d
		out[b], liveIn[b] = make([]uint64, words), make([]uint64, words)
	}
	for ch := true; ch; {
		ch = false
		for i := len(li.rpo) - 1; i >= 0; i-- {
			b := li.rpo[i]
			o := out[b]
			for _, s := range b.Succs {
				for w := range o {
					o[w] |= liveIn[s][w]
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if i, ok := li.regs[phi.Edges[pi]]; ok {
							set(o, i)
						}
					}
				}
			}
			for w := range o {
				nv := use[b][w] | (o[w] &^ def[b][w])
				if nv != liveIn[b][w] {
					liveIn[b][w] = nv
					ch = true
				}
			}
		}
	}
	for _, b := range li.rpo {
		var l []int
		for i := 0; i < n; i++ {
			if has(liveIn[b], i) {
				l = append(l, i)
			}
		}
		// phis of the block are carried by the edge state
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				l = append(l, li.regs[phi])
			} else {
				break
			}
		}
		li.live[b] = l
	}
	return li
}
