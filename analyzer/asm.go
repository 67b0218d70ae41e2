package main

// Plan-9 assembly: parser, word-level abstract evaluation on the integer
// domain, and the calling-convention rules of ABI0.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type AsmFn struct {
	name   string
	flags  string
	frame  int
	args   int // -1: not declared
	ins    []AsmIns
	file   string
	line   int
	labels bool
}

type AsmIns struct {
	op   string
	args []string
	line int
}

var reText = regexp.MustCompile(`^TEXT\s+([^\s(<]*)(<>)?\(SB\)\s*,\s*(.*)$`)
var reMem = regexp.MustCompile(`^(?:([\pL_·][\pL\pN_·]*)([+-]\d+)?|(-?\d+)?)\((FP|SP|SB|[A-Z][A-Z0-9]*)\)$`)

func stripComments(s string) string {
	for {
		i := strings.Index(s, "/*")
		if i < 0 {
			break
		}
		j := strings.Index(s[i+2:], "*/")
		if j < 0 {
			s = s[:i]
			break
		}
		body := s[i : i+2+j+2]
		s = s[:i] + strings.Repeat("\n", strings.Count(body, "\n")) + s[i+2+j+2:]
	}
	return s
}

func parseAsm(file string) ([]*AsmFn, error) {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []*AsmFn
	var cur *AsmFn
	rel, _ := filepath.Rel(repoDir, file)
	for i, ln := range strings.Split(stripComments(string(data)), "\n") {
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		for _, s := range strings.Split(ln, ";") {
			s = strings.TrimSpace(s)
			if s == "" {
				continue
			}
			if strings.HasPrefix(s, "#include") {
				continue
			}
			if strings.HasPrefix(s, "#") {
				return nil, fmt.Errorf("%s:%d: preprocessor directive %q", rel, i+1, s)
			}
			if m := reText.FindStringSubmatch(s); m != nil {
				cur = &AsmFn{name: m[1], file: rel, line: i + 1, args: -1}
				if m[2] != "" {
					return nil, fmt.Errorf("%s:%d: static symbol", rel, i+1)
				}
				parts := strings.Split(m[3], ",")
				fs := strings.TrimSpace(parts[len(parts)-1])
				if len(parts) > 1 {
					cur.flags = strings.TrimSpace(strings.Join(parts[:len(parts)-1], ","))
				}
				fs = strings.TrimPrefix(fs, "$")
				a := strings.SplitN(fs, "-", 2)
				if strings.HasPrefix(fs, "-") {
					return nil, fmt.Errorf("%s:%d: negative frame", rel, i+1)
				}
				if cur.frame, err = strconv.Atoi(a[0]); err != nil {
					return nil, fmt.Errorf("%s:%d: frame size %q", rel, i+1, fs)
				}
				if len(a) == 2 {
					if cur.args, err = strconv.Atoi(a[1]); err != nil {
						return nil, fmt.Errorf("%s:%d: argument size %q", rel, i+1, fs)
					}
				}
				out = append(out, cur)
				continue
			}
			if cur == nil {
				return nil, fmt.Errorf("%s:%d: %q outside a function", rel, i+1, s)
			}
			f := strings.Fields(s)
			in := AsmIns{op: f[0], line: i + 1}
			rest := strings.TrimSpace(s[len(f[0]):])
			if rest != "" {
				for _, a := range strings.Split(rest, ",") {
					in.args = append(in.args, strings.TrimSpace(a))
				}
			}
			cur.ins = append(cur.ins, in)
		}
	}
	return out, nil
}

// asmFuncs returns the assembly functions of the root package.
func (P *Prog) asmFuncs() (map[string][]*AsmFn, error) {
	m := map[string][]*AsmFn{}
	for _, f := range P.files[modPath] {
		if !strings.HasSuffix(f, ".s") {
			continue
		}
		fs, err := parseAsm(f)
		if err != nil {
			return nil, err
		}
		for _, a := range fs {
			n := strings.TrimPrefix(strings.TrimPrefix(a.name, "·"), "github.com/phoreproject/bls·")
			m[n] = append(m[n], a)
		}
	}
	return m, nil
}

// layout is the ABI0 argument frame of a signature: the offset of every
// 8-byte word, in order, for parameters and results.
func (P *Prog) layout(sig *types.Signature) (params, results []int, total int, err error) {
	off := 0
	var walk func(t types.Type, out *[]int) error
	walk = func(t types.Type, out *[]int) error {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() != types.Uint64 && u.Kind() != types.Int64 {
				return fmt.Errorf("argument of type %s", t)
			}
			*out = append(*out, off)
			off += 8
			return nil
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				if e := walk(u.Elem(), out); e != nil {
					return e
				}
			}
			return nil
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if e := walk(u.Field(i).Type(), out); e != nil {
					return e
				}
			}
			return nil
		}
		return fmt.Errorf("argument of type %s", t)
	}
	if sig.Recv() != nil {
		return nil, nil, 0, fmt.Errorf("method")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if err = walk(sig.Params().At(i).Type(), &params); err != nil {
			return
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if err = walk(sig.Results().At(i).Type(), &results); err != nil {
			return
		}
	}
	return params, results, off, nil
}

// AsmFinding is a breach of the calling convention.
type AsmFinding struct {
	rule, msg string
	line      int
}

type asmState struct {
	c       *Ctx
	f       *Facts
	fn      *AsmFn
	reg     map[string]*NPoly
	fp, sp  map[int]*NPoly
	cf      *NPoly
	wroteBP int
	nargs   int
	finds   []AsmFinding
}

var gpr = map[string]bool{"AX": true, "BX": true, "CX": true, "DX": true, "SI": true, "DI": true, "BP": true,
	"R8": true, "R9": true, "R10": true, "R11": true, "R12": true, "R13": true, "R14": true, "R15": true}
var lowReg = map[string]string{"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX", "SIB": "SI", "DIB": "DI", "BPB": "BP",
	"R8B": "R8", "R9B": "R9", "R10B": "R10", "R11B": "R11", "R12B": "R12", "R13B": "R13", "R14B": "R14", "R15B": "R15"}

func (a *asmState) fail(line int, f string, x ...interface{}) {
	panic(Unresolved{fmt.Sprintf("%s:%d (asm %s): ", a.fn.file, line, a.fn.name) + fmt.Sprintf(f, x...)})
}

func (a *asmState) find(line int, rule, f string, x ...interface{}) {
	a.finds = append(a.finds, AsmFinding{rule, fmt.Sprintf(f, x...), line})
}

func (a *asmState) mem(s string, line int) (area map[int]*NPoly, off int, kind string) {
	m := reMem.FindStringSubmatch(s)
	if m == nil {
		a.fail(line, "operand %q", s)
	}
	o := 0
	if m[2] != "" {
		o, _ = strconv.Atoi(m[2])
	}
	if m[3] != "" {
		o, _ = strconv.Atoi(m[3])
	}
	switch m[4] {
	case "FP":
		if m[1] == "" {
			a.fail(line, "unnamed FP reference %q", s)
		}
		if o < 0 || o+8 > a.nargs {
			a.find(line, "argument bounds", "access at offset %d outside the %d-byte argument frame", o, a.nargs)
		}
		if o%8 != 0 {
			a.fail(line, "unaligned access %q", s)
		}
		return a.fp, o, "FP"
	case "SP":
		if m[1] != "" { // pseudo SP: top of the local frame
			o += a.fn.frame
		}
		if o < 0 || o+8 > a.fn.frame {
			a.find(line, "frame bounds", "stack access at offset %d outside the %d-byte frame", o, a.fn.frame)
		}
		if o%8 != 0 {
			a.fail(line, "unaligned access %q", s)
		}
		return a.sp, o, "SP"
	case "SB":
		a.fail(line, "global memory operand %q", s)
	}
	a.find(line, "memory access", "access through register: %q", s)
	a.fail(line, "memory access through a register: %q", s)
	return nil, 0, ""
}

func (a *asmState) read(s string, line int) *NPoly {
	if strings.HasPrefix(s, "$") {
		v, ok := new(big.Int).SetString(strings.TrimPrefix(s, "$"), 0)
		if !ok {
			a.fail(line, "immediate %q", s)
		}
		return nconst(new(big.Int).Mod(v, pow2(64)))
	}
	if gpr[s] {
		v := a.reg[s]
		if v == nil {
			a.find(line, "uninitialised read", "register %s is read before it is written", s)
			a.fail(line, "uninitialised register %s", s)
		}
		return v
	}
	ar, o, kind := a.mem(s, line)
	v := ar[o]
	if v == nil {
		a.find(line, "uninitialised read", "%s slot %d is read before it is written", kind, o)
		a.fail(line, "uninitialised %s slot %d", kind, o)
	}
	return v
}

func (a *asmState) write(s string, v *NPoly, line int) {
	if s == "SP" {
		a.find(line, "stack pointer", "SP is modified")
		a.fail(line, "SP modified")
	}
	if gpr[s] {
		if s == "BP" && a.wroteBP == 0 {
			a.wroteBP = line
		}
		a.reg[s] = v
		return
	}
	ar, o, _ := a.mem(s, line)
	ar[o] = v
}

// run evaluates the straight-line body.  It returns at RET.
func (a *asmState) run() {
	c := a.c
	w64 := Z{pow2(64)}
	for idx, in := range a.fn.ins {
		need := func(n int) {
			if len(in.args) != n {
				a.fail(in.line, "%s with %d operands", in.op, len(in.args))
			}
		}
		switch in.op {
		case "RET":
			if idx != len(a.fn.ins)-1 {
				a.fail(in.line, "instructions after RET")
			}
			return
		case "MOVQ":
			need(2)
			if lowReg[in.args[0]] != "" || lowReg[in.args[1]] != "" {
				a.fail(in.line, "byte register in MOVQ")
			}
			a.write(in.args[1], a.read(in.args[0], in.line), in.line)
		case "ADDQ", "ADCQ":
			need(2)
			s := a.read(in.args[1], in.line).Add(a.read(in.args[0], in.line))
			if in.op == "ADCQ" {
				if a.cf == nil {
					a.fail(in.line, "carry flag is undefined")
				}
				s = s.Add(a.cf)
			}
			a.cf = c.floor(s, 64, a.f)
			a.write(in.args[1], s.Sub(a.cf.Scale(w64)), in.line)
		case "SUBQ", "SBBQ", "CMPQ":
			need(2)
			x, y := in.args[0], in.args[1]
			if in.op == "CMPQ" {
				x, y = y, x
			}
			var s *NPoly
			if x == y && gpr[x] && in.op == "SBBQ" { // 0 - CF
				s = nint(0)
			} else {
				s = a.read(y, in.line).Sub(a.read(x, in.line))
			}
			if in.op == "SBBQ" {
				if a.cf == nil {
					a.fail(in.line, "carry flag is undefined")
				}
				s = s.Sub(a.cf)
			}
			fl := c.floor(s, 64, a.f)
			a.cf = fl.Neg()
			if in.op != "CMPQ" {
				a.write(y, s.Sub(fl.Scale(w64)), in.line)
			}
		case "NEGQ":
			need(1)
			s := a.read(in.args[0], in.line).Neg()
			fl := c.floor(s, 64, a.f)
			a.cf = fl.Neg()
			a.write(in.args[0], s.Sub(fl.Scale(w64)), in.line)
		case "INCQ", "DECQ": // the carry flag is kept
			need(1)
			d := nint(1)
			if in.op == "DECQ" {
				d = nint(-1)
			}
			s := a.read(in.args[0], in.line).Add(d)
			a.write(in.args[0], s.Sub(c.floor(s, 64, a.f).Scale(w64)), in.line)
		case "NOTQ":
			need(1)
			a.write(in.args[0], nconst(new(big.Int).Sub(pow2(64), big.NewInt(1))).Sub(a.read(in.args[0], in.line)), in.line)
		case "MULQ":
			need(1)
			p := a.read("AX", in.line).Mul(a.read(in.args[0], in.line))
			h := c.floor(p, 64, a.f)
			a.reg["DX"] = h
			a.reg["AX"] = p.Sub(h.Scale(w64))
			a.cf = nil
		case "MULXQ":
			need(3)
			p := a.read("DX", in.line).Mul(a.read(in.args[0], in.line))
			h := c.floor(p, 64, a.f)
			a.write(in.args[1], p.Sub(h.Scale(w64)), in.line)
			a.write(in.args[2], h, in.line)
		case "IMULQ":
			need(2)
			p := a.read(in.args[1], in.line).Mul(a.read(in.args[0], in.line))
			a.write(in.args[1], p.Sub(c.floor(p, 64, a.f).Scale(w64)), in.line)
			a.cf = nil
		case "XORQ", "ORQ", "ANDQ":
			need(2)
			if in.args[0] == in.args[1] && gpr[in.args[0]] {
				if in.op == "XORQ" {
					a.write(in.args[1], nint(0), in.line)
				} else {
					a.read(in.args[0], in.line)
				}
				a.cf = nint(0)
				continue
			}
			x, y := a.read(in.args[0], in.line), a.read(in.args[1], in.line)
			r := a.logic(in.op, x, y)
			if r == nil {
				a.fail(in.line, "%s of %s and %s", in.op, c.show(x), c.show(y))
			}
			a.cf = nint(0)
			a.write(in.args[1], r, in.line)
		case "SETCS", "SETCC":
			need(1)
			r := lowReg[in.args[0]]
			if r == "" {
				a.fail(in.line, "operand of %s", in.op)
			}
			if a.cf == nil {
				a.fail(in.line, "carry flag is undefined")
			}
			old := a.reg[r]
			if old == nil {
				a.find(in.line, "uninitialised read", "%s sets one byte of the uninitialised register %s", in.op, r)
				a.fail(in.line, "uninitialised register %s", r)
			}
			b := a.cf
			if in.op == "SETCC" {
				b = nint(1).Sub(b)
			}
			if r == "BP" && a.wroteBP == 0 {
				a.wroteBP = in.line
			}
			a.reg[r] = c.floor(old, 8, a.f).Scale(zi(256)).Add(b)
		case "SHLQ", "SHRQ":
			need(2)
			k := a.read(in.args[0], in.line)
			z := nconstOf(k)
			if z == nil || z.Sign() <= 0 || z.Cmp(big.NewInt(63)) > 0 {
				a.fail(in.line, "shift count")
			}
			n := int(z.Int64())
			v := a.read(in.args[1], in.line)
			if in.op == "SHLQ" {
				s := v.Scale(Z{pow2(n)})
				v = s.Sub(c.floor(s, 64, a.f).Scale(w64))
			} else {
				v = c.floor(v, n, a.f)
			}
			a.cf = nil
			a.write(in.args[1], v, in.line)
		case "XCHGQ":
			need(2)
			x, y := a.read(in.args[0], in.line), a.read(in.args[1], in.line)
			a.write(in.args[0], y, in.line)
			a.write(in.args[1], x, in.line)
		case "NOP", "PCALIGN":
		case "PUSHQ", "POPQ", "CALL", "PUSHFQ", "POPFQ":
			a.find(in.line, "stack pointer", "%s changes the stack pointer", in.op)
			a.fail(in.line, "instruction %s", in.op)
		default:
			a.fail(in.line, "instruction %s is outside the model", in.op)
		}
	}
	line := a.fn.line
	if n := len(a.fn.ins); n > 0 {
		line = a.fn.ins[n-1].line
	}
	a.find(line, "return", "control runs off the end of the function")
	a.fail(line, "no RET")
}

func (a *asmState) logic(op string, x, y *NPoly) *NPoly {
	c := a.c
	if x.Equal(y) {
		if op == "XORQ" {
			return nint(0)
		}
		return x
	}
	bit := func(p *NPoly) bool {
		lo, hi := c.bounds(p, a.f)
		return lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(1)) <= 0
	}
	if op == "ANDQ" {
		for _, p := range [][2]*NPoly{{x, y}, {y, x}} {
			if z := nconstOf(p[0]); z != nil {
				return c.andConst(p[1], z, a.f)
			}
		}
	}
	if bit(x) && bit(y) {
		s := x.Add(y)
		if bit(s) { // never both
			if op == "ANDQ" {
				return nint(0)
			}
			return s
		}
		xy := c.idem(x.Mul(y))
		switch op {
		case "ANDQ":
			return xy
		case "ORQ":
			return s.Sub(xy)
		case "XORQ":
			return s.Sub(xy.Scale(zi(2)))
		}
	}
	if op == "ORQ" || op == "XORQ" {
		if r, ok := c.orDisjoint(x, y, a.f); ok {
			return r
		}
	}
	return nil
}

// asmEval runs fn on argument words; returns the state after RET.
func asmEval(c *Ctx, f *Facts, fn *AsmFn, params, results []int, total int, words []*NPoly) (a *asmState) {
	a = &asmState{c: c, f: f, fn: fn, reg: map[string]*NPoly{}, fp: map[int]*NPoly{}, sp: map[int]*NPoly{}, nargs: total}
	for i, o := range params {
		a.fp[o] = words[i]
	}
	a.run()
	return a
}

func flatWords(v Val) ([]*NPoly, bool) {
	switch x := v.(type) {
	case IntV:
		return []*NPoly{x.p}, true
	case *ArrayV:
		var out []*NPoly
		for _, e := range x.e {
			w, ok := flatWords(e)
			if !ok {
				return nil, false
			}
			out = append(out, w...)
		}
		return out, true
	case *TupleV:
		return flatWords(&ArrayV{x.e})
	case *StructV:
		return flatWords(&ArrayV{x.f})
	}
	return nil, false
}

func unflat(t types.Type, words *[]*NPoly) Val {
	switch u := t.Underlying().(type) {
	case *types.Array:
		r := &ArrayV{make([]Val, u.Len())}
		for i := range r.e {
			r.e[i] = unflat(u.Elem(), words)
		}
		return r
	case *types.Struct:
		r := &StructV{make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = unflat(u.Field(i).Type(), words)
		}
		return r
	}
	w := (*words)[0]
	*words = (*words)[1:]
	return IntV{w}
}

// asmCall models a call of a Go function that is declared without a body.
func (in *Interp) asmCall(st *State, fn *ssa.Function, args []Val) Val {
	if in.asm == nil {
		m, err := in.P.asmFuncs()
		if err != nil {
			panic(Unresolved{err.Error()})
		}
		in.asm = m
	}
	as := in.asm[fn.Name()]
	if fn.Package() == nil || fn.Package().Pkg.Path() != modPath || len(as) != 1 {
		panic(Unresolved{fmt.Sprintf("call of %s, which has no body and no model", fn)})
	}
	params, results, total, err := in.P.layout(fn.Signature)
	if err != nil {
		panic(Unresolved{fn.String() + ": " + err.Error()})
	}
	var words []*NPoly
	for _, a := range args {
		if g, ok := a.(*GammaV); ok {
			a = in.c.gammaInt(g)
		}
		w, ok := flatWords(a)
		if !ok {
			panic(Unresolved{fmt.Sprintf("argument of %s: %s", fn, in.c.showV(a))})
		}
		words = append(words, w...)
	}
	if len(words) != len(params) {
		panic(Unresolved{"argument words of " + fn.String()})
	}
	a := asmEval(in.c, in.f(st), as[0], params, results, total, words)
	var res []*NPoly
	for _, o := range results {
		if a.fp[o] == nil {
			panic(Unresolved{fmt.Sprintf("%s:%d: result word at offset %d of %s is never written", as[0].file, as[0].line, o, fn.Name())})
		}
		res = append(res, a.fp[o])
	}
	in.asmSeen[fn.Name()] += len(as[0].ins)
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return unflat(rs.At(0).Type(), &res)
	}
	t := &TupleV{}
	for i := 0; i < rs.Len(); i++ {
		t.e = append(t.e, unflat(rs.At(i).Type(), &res))
	}
	return t
}
