package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type propDef struct {
	id     string
	minObs int
	setup  func(r *Run)
}

var props = map[string]*propDef{}

func register(id string, minObs int, f func(r *Run)) { props[id] = &propDef{id, minObs, f} }

func wordSig(P *Prog, f *ssa.Function) string {
	p, r, n, err := P.layout(f.Signature)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%v %v %d", p, r, n)
}

// knownFindings reads the committed list: "property=<id> key=<obligation key> -- text".
func knownFindings(dir, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		k := strings.SplitN(rest, " -- ", 2)
		if len(k) != 2 {
			continue
		}
		m[strings.TrimSpace(strings.TrimPrefix(k[0], "key="))] = k[1]
	}
	return m
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: analyzer <property> [group filter]")
		os.Exit(2)
	}
	id := os.Args[1]
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	d := props[id]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		os.Exit(2)
	}
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		time.AfterFunc(25*time.Second, pprof.StopCPUProfile)
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{prop: id, tier: tier, progs: map[string]*Prog{}, visited: map[string]int{}, files: map[string]bool{}, extra: map[string]interface{}{}, minObs: d.minObs}
	if len(os.Args) > 2 {
		r.onlyGrp = os.Args[2]
	}
	r.known = knownFindings(dir, id)
	r.all = os.Getenv("VALL") != ""
	if avail, _ := memState(); avail > 0 {
		debug.SetMemoryLimit(avail * 6 / 10)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(Unresolved); ok {
					r.addOb(&Ob{group: "load", name: "analysis", detail: u.msg})
				} else {
					r.addOb(&Ob{group: "load", name: "analysis", detail: fmt.Sprint(e)})
					if os.Getenv("VDEBUG") != "" {
						panic(e)
					}
				}
			}
		}()
		d.setup(r)
		r.exec()
	}()
	if r.onlyGrp == "" && len(r.obs) < d.minObs && !r.failed {
		r.addOb(&Ob{group: "coverage", name: "number of obligations", detail: fmt.Sprintf("only %d obligations were generated, %d expected: part of the analysed program is missing", len(r.obs), d.minObs)})
	}
	known := r.known
	bad, ok, kn := []*Ob{}, 0, 0
	for _, o := range r.obs {
		if o.ok {
			ok++
			continue
		}
		if t, isk := known[o.group+": "+o.name]; isk {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, t)
			kn++
			continue
		}
		bad = append(bad, o)
	}
	wall := time.Since(t0).Seconds()
	var fns []string
	for f := range r.visited {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var models []string
	for f := range r.contracts {
		models = append(models, strings.ReplaceAll(f, modPath, "bls"))
	}
	sort.Strings(models)
	var files []string
	for f := range r.files {
		files = append(files, f)
	}
	sort.Strings(files)
	groups := map[string]int{}
	for _, o := range r.obs {
		groups[o.group]++
	}
	var samples []string
	for _, o := range r.obs {
		if o.ok && len(samples) < 12 && (len(samples) == 0 || len(r.obs) < 24 || len(o.name)%3 == 0) {
			samples = append(samples, o.group+": "+o.name+" @ "+o.where)
		}
	}
	cov := map[string]interface{}{
		"explanation":          "Static analysis of the SSA form (and the assembly) of /repo's current working tree: each obligation is a fact decided at function exits of the analysed entry points for all abstract inputs; no code of the repository is executed.",
		"obligations":          len(r.obs),
		"discharged":           ok,
		"known_findings":       kn,
		"obligation_groups":    groups,
		"functions_analysed":   fns,
		"contracts_and_models": models,
		"function_contexts":    sumInts(r.visited),
		"basic_blocks_visited": r.steps,
		"source_files":         files,
		"samples":              samples,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": levelOf(dir, id), "coverage": cov, "wall_s": wall, "violations": len(bad),
		"assumptions": assumptionsFor(id),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if r.onlyGrp == "" {
		js, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(js, '\n'), 0o644)
	}
	fmt.Printf("property %s (%s): %d obligations, %d discharged, %d known, %d failed; %d functions in %d files, %.1fs\n", id, tier, len(r.obs), ok, kn, len(bad), len(fns), len(files), wall)
	if os.Getenv("VLIST") != "" {
		for _, o := range r.obs {
			fmt.Println(" ", o.ok, o.group, "|", o.name, "|", o.where, "|", o.detail)
		}
	}
	if len(bad) == 0 {
		return
	}
	rep := filepath.Join(dir, "evidence", id+".violation.txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "obligation: %s: %s\nwhere: %s\nwhy: %s\n\n", o.group, o.name, o.where, o.detail)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	for i, o := range bad {
		if i >= 12 {
			fmt.Printf("  ... %d more in %s\n", len(bad)-i, rep)
			break
		}
		dt := o.detail
		if len(dt) > 400 {
			dt = dt[:400] + "..."
		}
		fmt.Printf("  FAILED %s: %s\n    at %s\n    %s\n", o.group, o.name, o.where, dt)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	os.Exit(1)
}

func sumInts(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func levelOf(dir, id string) string {
	data, err := os.ReadFile(filepath.Join(dir, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(data, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == id {
					return c.Level
				}
			}
		}
	}
	return "other"
}

func assumptionsFor(id string) []string {
	return []string{
		"the Go compiler and assembler implement the language and instruction semantics the analysis interprets",
		"standard-library functions behave as documented (math/bits, math/big, sort, bytes, hash and blake2b are modelled, not analysed)",
	}
}
