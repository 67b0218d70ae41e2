package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one execution of the check of one property.
type Run struct {
	prop       string
	tier       string
	progs      map[string]*Prog
	mu         sync.Mutex
	obs        []*Ob
	groups     []group
	visited    map[string]int
	unrolled   map[string]int  // loops followed to their end, by build and position
	unrollOnly bool            // groups with a colon serve to follow loops
	contracts  map[string]bool // functions replaced by contracts or models
	files      map[string]bool
	steps      int
	rules      []string
	minObs     int
	extra      map[string]interface{}
	arts       map[string][]string
	onlyGrp    string
	nPanicOb   int
	panicOnly  bool   // keep only the panic obligations
	last       func() // runs after every group
	known      map[string]string
	failed     bool // an obligation failed that is no known finding
	all        bool // go on after a failure
	done       bool // reporting has begun
}

type group struct {
	name string
	f    func(g *G)
}

// Ob is one proof obligation.
type Ob struct {
	group, name string
	ok          bool
	detail      string
	where       string
	key         string // stable identity for the known-findings file
}

// G is the context of one obligation group.
type G struct {
	run   *Run
	name  string
	arch  string
	P     *Prog
	c     *Ctx
	in    *Interp
	st    State
	t0    time.Time
	pts   map[string]*knownPts
	conj  map[int]int     // conjugate generators
	zero  bool            // the element analysed is zero
	seenP map[string]bool // panics reported already
}

func (r *Run) group(name string, f func(g *G)) {
	r.groups = append(r.groups, group{name, f})
}

func (r *Run) prog(arch string) *Prog {
	r.mu.Lock()
	defer r.mu.Unlock()
	if p := r.progs[arch]; p != nil {
		return p
	}
	p, err := loadProg(arch)
	if err != nil {
		panic(Unresolved{"cannot load the repository for " + arch + ": " + err.Error()})
	}
	r.progs[arch] = p
	return p
}

func (r *Run) addOb(o *Ob) {
	if r.unrollOnly && strings.Contains(o.group, ":") && (o.ok || !strings.HasPrefix(o.detail, "not established")) {
		return
	}
	if r.panicOnly && strings.Contains(o.group, ":") && !strings.HasSuffix(o.name, ": no panic") && (o.ok || !strings.HasPrefix(o.detail, "not established")) {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	o.detail = strings.Map(func(c rune) rune { // keys of terms are not text
		if c == 0xfffd || c < ' ' && c != '\n' || c == 0x7f {
			return '.'
		}
		return c
	}, strings.ToValidUTF8(o.detail, "."))
	r.obs = append(r.obs, o)
	if _, known := r.known[o.group+": "+o.name]; !o.ok && !known {
		r.failed = true
	}
}

// stop reports that the verdict is settled: what is left need not be analysed.
func (r *Run) stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.done || r.failed && !r.all
}

// abandoned stops a group when the verdict is settled.
type abandoned struct{}

// groupLimit is far above what any group needs.
const groupLimit = 420 * time.Second

// limits are the time and memory a run may take; a run that exceeds them has
// not established the property.
func (r *Run) watch(fin chan bool) string {
	limit := 780 * time.Second
	if s, err := time.ParseDuration(os.Getenv("VERIF_LIMIT")); err == nil {
		limit = s
	}
	t0 := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-fin:
			return ""
		case <-tick.C:
			if time.Since(t0) > limit {
				return fmt.Sprintf("the analysis did not finish within %v", limit)
			}
			if avail, rss := memState(); avail > 0 && avail < 1200<<20 && rss > 4<<30 {
				return fmt.Sprintf("the analysis ran out of memory (%d MB in use)", rss>>20)
			}
		}
	}
}

// memState is the memory available on the machine and that held by this
// process, in bytes; zero when unknown.
func memState() (avail, rss int64) {
	get := func(file, key string) int64 {
		b, err := os.ReadFile(file)
		if err != nil {
			return 0
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, key) {
				var n int64
				fmt.Sscan(strings.TrimPrefix(l, key), &n)
				return n << 10
			}
		}
		return 0
	}
	return get("/proc/meminfo", "MemAvailable:"), get("/proc/self/status", "VmRSS:")
}

func (r *Run) exec() {
	n := runtime.NumCPU()
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	for _, gr := range r.groups {
		if r.onlyGrp != "" && !strings.Contains(gr.name, r.onlyGrp) {
			continue
		}
		wg.Add(1)
		go func(gr group) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if r.stop() {
				return
			}
			g := &G{run: r, name: gr.name, t0: time.Now(), pts: map[string]*knownPts{}}
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(abandoned); ok {
						return
					}
					if u, ok := e.(Unresolved); ok {
						r.addOb(&Ob{group: gr.name, name: "analysis", detail: "not established: " + u.msg})
					} else {
						buf := make([]byte, 6000)
						buf = buf[:runtime.Stack(buf, false)]
						r.addOb(&Ob{group: gr.name, name: "analysis", detail: fmt.Sprintf("not established: %v", e)})
						if os.Getenv("VDEBUG") != "" {
							fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", gr.name, e, buf)
						}
					}
				}
				g.flush()
				if os.Getenv("VDEBUG") != "" {
					fmt.Fprintf(os.Stderr, "group %-50s %v\n", gr.name, time.Since(g.t0).Round(time.Millisecond))
				}
			}()
			gr.f(g)
		}(gr)
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	if why := r.watch(fin); why != "" {
		r.addOb(&Ob{group: "limits", name: "analysis", detail: "not established: " + why})
	} else if r.last != nil && r.onlyGrp == "" && !r.stop() {
		r.last()
	}
	r.mu.Lock()
	r.done = true
	r.mu.Unlock()
	sort.SliceStable(r.obs, func(i, j int) bool {
		if r.obs[i].group != r.obs[j].group {
			return r.obs[i].group < r.obs[j].group
		}
		return r.obs[i].name < r.obs[j].name
	})
}

// flush records what was analysed.
func (g *G) flush() {
	if g.in == nil {
		return
	}
	if g.run.panicOnly {
		for _, p := range g.in.panics {
			if !g.seenP[p.pos+p.kind] {
				g.ob(p.kind+": no panic", false, p.pos, "%s reachable at %s when %s", p.kind, p.pos, g.c.showB(p.cond))
			}
		}
	}
	g.run.mu.Lock()
	defer g.run.mu.Unlock()
	if g.run.done {
		return
	}
	for f, n := range g.in.visited {
		g.run.visited[shortFn(f)] += n
		if f.Pos().IsValid() {
			q := g.P.fset.Position(f.Pos())
			if strings.HasPrefix(q.Filename, repoDir+"/") {
				g.run.files[q.Filename[len(repoDir)+1:]] = true
			}
		}
	}
	for h, n := range g.in.unrolled {
		if g.run.unrolled == nil {
			g.run.unrolled = map[string]int{}
		}
		g.run.unrolled[g.arch+" "+g.P.pos(loopPos(g.P.loopInfo(h.Parent()).heads[h]))] += n
	}
	g.run.steps += g.in.nsteps
	for f := range g.in.used {
		if g.run.contracts == nil {
			g.run.contracts = map[string]bool{}
		}
		g.run.contracts[f] = true
	}
}

// use prepares a fresh analysis context for an architecture.
func (g *G) use(arch string) {
	g.flush()
	g.arch = arch
	g.P = g.run.prog(arch)
	g.c = newCtx()
	g.c.int32 = arch == "386"
	g.in = newInterp(g.P, g.c)
	var last *Frame
	g.c.poll = func() {
		if last != nil {
			g.in.tick(last)
		}
	}
	g.in.tick = func(fr *Frame) {
		last = fr
		if g.run.stop() {
			panic(abandoned{})
		}
		if time.Since(g.t0) > groupLimit {
			g.in.fail(fr, fr.fn.Pos(), "the analysis of this group did not finish within %v", groupLimit)
		}
	}
	g.in.addStd()
}

func (g *G) start() {
	g.st = State{bTrue, g.in.initH}
}

func (g *G) assume(b B) { g.st.cond = g.c.bdd.and(g.st.cond, b) }

// ob records an obligation.
func (g *G) ob(name string, ok bool, where, format string, a ...interface{}) bool {
	o := &Ob{group: g.name, name: name, ok: ok, where: where}
	if !ok {
		o.detail = fmt.Sprintf(format, a...)
	}
	g.run.addOb(o)
	return ok
}

// try runs f, turning an Unresolved analysis into a failed obligation.
func (g *G) try(name string, where string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(Unresolved); ok {
				g.ob(name, false, where, "not established: %s", u.msg)
				return
			}
			panic(e)
		}
	}()
	f()
}

// fnOrFail finds an API function.
func (g *G) need(f *ssa.Function, name string) *ssa.Function {
	if f == nil {
		panic(Unresolved{"API function " + name + " not found"})
	}
	return f
}

func (g *G) method(typ, name string) *ssa.Function {
	return g.need(g.P.method(modPath, typ, name), typ+"."+name)
}
func (g *G) fn(name string) *ssa.Function { return g.need(g.P.role(name), name) }

func (g *G) where(f *ssa.Function) string { return g.P.pos(f.Pos()) + " (" + shortFn(f) + ")" }

// callf analyses fn on the current state.
func (g *G) callf(f *ssa.Function, args ...Val) Val {
	return g.in.call(nil, f.Pos(), &g.st, f, args, nil)
}

// noPanics requires that no panic was reachable since mark.
func (g *G) noPanics(name string, mark int, where string) {
	ps := g.in.panics[mark:]
	if len(ps) == 0 {
		g.ob(name+": no panic", true, where, "")
		return
	}
	for _, p := range ps {
		if g.seenP == nil {
			g.seenP = map[string]bool{}
		}
		g.seenP[p.pos+p.kind] = true
		g.ob(name+": no panic", false, p.pos, "%s reachable at %s when %s", p.kind, p.pos, g.c.showB(p.cond))
	}
}

// valuesUnder enumerates the cases of v that matter: cubes of the conditions
// in v's selectors.
type caseV struct {
	cond B
	v    Val
}

// splitInt enumerates decided cases of an integer polynomial: the atoms whose
// 0/1 selectors occur in p are split.
func (g *G) splitInt(p *NPoly, cond B) []caseV {
	return g.split([]*NPoly{p}, cond, func(c B, ps []*NPoly) Val { return IntV{ps[0]} })
}

func (g *G) split(ps []*NPoly, cond B, f func(c B, ps []*NPoly) Val) []caseV {
	c := g.c
	type bitAtom struct {
		id int
		v  int
	}
	seen := map[int]bool{}
	var bits []bitAtom
	for _, p := range ps {
		for v := range p.vars() {
			if seen[v] {
				continue
			}
			seen[v] = true
			if c.syms[v].class == "bit" {
				bits = append(bits, bitAtom{c.syms[v].data.(int), v})
			}
		}
	}
	for id := range c.atoms { // atoms whose indicator is an existing 0/1 symbol
		if d, ok := c.atoms[id].data.(*NPoly); ok && len(d.t) == 1 {
			for v := range d.vars() {
				if seen[v] {
					bits = append(bits, bitAtom{id, v})
				}
			}
		}
	}
	out := []caseV{}
	var rec func(i int, cond B, ps []*NPoly)
	rec = func(i int, cond B, ps []*NPoly) {
		if cond == bFalse {
			return
		}
		if i == len(bits) {
			out = append(out, caseV{cond, f(cond, ps)})
			return
		}
		used := false
		for _, p := range ps {
			if p.hasVar(bits[i].v) {
				used = true
			}
		}
		if !used {
			rec(i+1, cond, ps)
			return
		}
		a := c.bdd.atom(bits[i].id)
		for val := 0; val < 2; val++ {
			b := a
			x := int64(1)
			isTrue := val == 1
			if !isTrue {
				b = c.bdd.not(a)
			}
			if c.syms[bits[i].v].class != "bit" {
				// atom true iff symbol == 0
				if isTrue {
					x = 0
				} else {
					x = 1
				}
			} else if !isTrue {
				x = 0
			}
			nc := c.bdd.and(cond, b)
			if nc == bFalse {
				continue
			}
			qs := make([]*NPoly, len(ps))
			for k := range ps {
				qs[k] = ps[k].subst(bits[i].v, nint(x), zi(1))
			}
			rec(i+1, nc, qs)
		}
	}
	rec(0, cond, ps)
	return out
}

// isZeroInt decides p == 0 under cond, splitting selectors.
func (g *G) isZeroInt(p *NPoly, cond B) (bool, string) {
	if len(p.t) == 0 {
		return true, ""
	}
	for _, cs := range g.splitInt(p, cond) {
		q := cs.v.(IntV).p
		q = g.c.underCond(q, cs.cond)
		if len(q.t) == 0 {
			continue
		}
		lo, hi := g.c.bounds(q, g.c.facts(cs.cond))
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			continue
		}
		if g.infeasible(cs.cond) {
			continue
		}
		return false, fmt.Sprintf("difference %s when %s", g.c.show(q), g.c.showB(cs.cond))
	}
	return true, ""
}

// inRange decides lo <= p <= hi under cond.
func (g *G) inRange(p *NPoly, lo, hi *big.Int, cond B) (bool, string) {
	for _, cs := range g.splitInt(p, cond) {
		q := cs.v.(IntV).p
		q = g.c.underCond(q, cs.cond)
		l, h := g.c.bounds(q, g.c.facts(cs.cond))
		if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
			continue
		}
		if g.infeasible(cs.cond) {
			continue
		}
		return false, fmt.Sprintf("range of %s is [%v, %v] when %s", g.c.show(q), l, h, g.c.showB(cs.cond))
	}
	return true, ""
}

// infeasible reports that the facts implied by cond contradict each other.
func (g *G) infeasible(cond B) bool {
	f := g.c.facts(cond)
	for _, iv := range f.iv {
		if iv[0] != nil && iv[1] != nil && iv[0].Cmp(iv[1]) > 0 {
			return true
		}
	}
	for _, ge := range f.ge {
		_, hi := g.c.bounds(ge, f)
		if hi != nil && hi.Sign() < 0 {
			return true
		}
	}
	return g.c.F.contradict(f.kz)
}
