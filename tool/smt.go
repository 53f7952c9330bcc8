package main

// SMT-LIB back ends: two encodings of the same proof obligation (integers, or bit-vectors wide
// enough that no sub-term can overflow) and a portfolio of solvers.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name string
	cmd  func(ms int) []string
}

var solvers = []solverCfg{
	{"z3-5.3.2", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5-1.1.2", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}
	}},
	{"z3-4.8.12", func(ms int) []string { return []string{"/usr/bin/z3", "-in", fmt.Sprintf("-t:%d", ms)} }},
}

type SMTStats struct {
	mu      sync.Mutex
	queries map[string]int
	time    map[string]float64
}

var smtStats = SMTStats{queries: map[string]int{}, time: map[string]float64{}}
var solverSem = make(chan struct{}, 8)

// with abs, products of unknowns are unknowns: enough to prove, not to refute
type encoder struct {
	abs   bool
	m     *TM
	bv    bool
	w     int
	names map[*Term]string
	buf   bytes.Buffer
	facts []string
	err   error
	funs  map[string]bool
	query []*Term
	inQ   map[string]bool
}

func smtName(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

func (e *encoder) num(k *big.Int) string {
	if e.bv {
		v := k
		if k.Sign() < 0 {
			v = new(big.Int).Add(k, p2(e.w))
		}
		return fmt.Sprintf("(_ bv%s %d)", v.String(), e.w)
	}
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (e *encoder) isort() string {
	if e.bv {
		return fmt.Sprintf("(_ BitVec %d)", e.w)
	}
	return "Int"
}
func (e *encoder) sortS(s Sort) string {
	switch s {
	case SInt:
		return e.isort()
	case SBool:
		return "Bool"
	}
	return "(Array " + e.isort() + " " + e.isort() + ")"
}

func (e *encoder) le(a, b string) string {
	if e.bv {
		return "(bvsle " + a + " " + b + ")"
	}
	return "(<= " + a + " " + b + ")"
}

func (e *encoder) bounds(n string, t *Term) {
	if t.lo != nil {
		e.facts = append(e.facts, e.le(e.num(t.lo), n))
	}
	if t.hi != nil {
		e.facts = append(e.facts, e.le(n, e.num(t.hi)))
	}
}

func hasBound(t *Term, memo map[*Term]bool) bool { return false }

func (e *encoder) term(t *Term) string {
	if s, ok := e.names[t]; ok {
		return s
	}
	var s string
	var as []string
	for _, a := range t.args {
		as = append(as, e.term(a))
	}
	plus, mul := "+", "*"
	if e.bv {
		plus, mul = "bvadd", "bvmul"
	}
	bound := false
	leaf := false
	switch t.op {
	case OConst:
		s = e.num(t.k)
		e.names[t] = s
		return s
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBVar, OAVar:
		s = smtName(t.name)
		fmt.Fprintf(&e.buf, "(declare-fun %s () %s)\n", s, e.sortS(t.sort))
		e.names[t] = s
		if t.op == OVar {
			e.bounds(s, t)
		}
		if t.op != OAVar {
			e.query = append(e.query, t)
		}
		return s
	case OTable:
		s = fmt.Sprintf("tbl%d", t.id)
		fmt.Fprintf(&e.buf, "(declare-fun %s () %s)\n", s, e.sortS(SArr))
		for i, v := range t.table {
			e.facts = append(e.facts, fmt.Sprintf("(= (select %s %s) %s)", s, e.num(big.NewInt(int64(i))), e.num(v)))
		}
		e.names[t] = s
		return s
	case OLin:
		var ps []string
		if t.k.Sign() != 0 {
			ps = append(ps, e.num(t.k))
		}
		for i, a := range as {
			if t.coef[i].Cmp(b1) == 0 {
				ps = append(ps, a)
			} else {
				ps = append(ps, "("+mul+" "+e.num(t.coef[i])+" "+a+")")
			}
		}
		if len(ps) == 1 {
			s = ps[0]
		} else if e.bv {
			s = ps[0]
			for _, p := range ps[1:] {
				s = "(bvadd " + s + " " + p + ")"
			}
		} else {
			s = "(" + plus + " " + strings.Join(ps, " ") + ")"
		}
	case OMul:
		if e.abs {
			fmt.Fprintf(&e.buf, "(declare-fun p%d () %s)\n", t.id, e.isort())
			s = fmt.Sprintf("p%d", t.id)
			bound = true
			break
		}
		s = as[0]
		for _, a := range as[1:] {
			s = "(" + mul + " " + s + " " + a + ")"
		}
	case ODiv:
		d := t.args[1]
		if e.abs && !d.isC() {
			fmt.Fprintf(&e.buf, "(declare-fun p%d () %s)\n", t.id, e.isort())
			s = fmt.Sprintf("p%d", t.id)
			bound = true
			break
		}
		if e.bv {
			switch {
			case d.op == OPow2:
				s = "(bvashr " + as[0] + " " + e.term(d.args[0]) + ")"
			case d.isC() && isP2(d.k):
				s = "(bvashr " + as[0] + " " + e.num(big.NewInt(int64(d.k.TrailingZeroBits()))) + ")"
			default:
				s = "(bvsdiv (bvsub " + as[0] + " (bvsmod " + as[0] + " " + as[1] + ")) " + as[1] + ")"
			}
		} else {
			if d.lo == nil || d.lo.Sign() < 0 {
				// floor division for any sign of the divisor
				s = fmt.Sprintf("(ite (> %s 0) (div %s %s) (div (- %s) (- %s)))", as[1], as[0], as[1], as[0], as[1])
			} else {
				s = "(div " + as[0] + " " + as[1] + ")"
			}
		}
		bound = true
	case OMod:
		d := t.args[1]
		if e.bv {
			switch {
			case d.op == OPow2 || d.isC() && isP2(d.k):
				s = "(bvand " + as[0] + " (bvsub " + as[1] + " " + e.num(b1) + "))"
			default:
				s = "(bvsmod " + as[0] + " " + as[1] + ")"
			}
		} else {
			if d.lo == nil || d.lo.Sign() < 0 {
				e.err = fmt.Errorf("mod by possibly negative divisor")
			}
			s = "(mod " + as[0] + " " + as[1] + ")"
		}
		bound = !t.args[1].isC()
	case OIte, OAIte, OBIte:
		s = "(ite " + strings.Join(as, " ") + ")"
	case OSel:
		s = "(select " + as[0] + " " + as[1] + ")"
		bound = true
		leaf = true
	case OApp:
		fn := smtName("f." + t.name)
		if !e.funs[fn] {
			e.funs[fn] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, e.sortS(a.sort))
			}
			fmt.Fprintf(&e.buf, "(declare-fun %s (%s) %s)\n", fn, strings.Join(ss, " "), e.isort())
		}
		if len(as) == 0 {
			s = fn
		} else {
			s = "(" + fn + " " + strings.Join(as, " ") + ")"
		}
		bound = true
		leaf = true
	case OPow2:
		if e.bv {
			s = "(bvshl " + e.num(b1) + " " + as[0] + ")"
		} else {
			k := t.args[0]
			lo, hi := int64(0), int64(70)
			if k.lo != nil && k.lo.IsInt64() {
				lo = max(lo, k.lo.Int64())
			}
			if k.hi != nil && k.hi.IsInt64() {
				hi = k.hi.Int64()
			}
			if hi-lo > 200 || k.hi == nil {
				// uninterpreted outside: positive only
				fn := "pow2u"
				if !e.funs[fn] {
					e.funs[fn] = true
					fmt.Fprintf(&e.buf, "(declare-fun pow2u (Int) Int)\n")
				}
				s = "(pow2u " + as[0] + ")"
				for j := 66; j >= 0; j-- {
					s = fmt.Sprintf("(ite (= %s %d) %s %s)", as[0], j, e.num(p2(j)), s)
				}
				bound = true
			} else {
				s = e.num(p2(int(hi)))
				for j := hi - 1; j >= lo; j-- {
					s = fmt.Sprintf("(ite (= %s %d) %s %s)", as[0], j, e.num(p2(int(j))), s)
				}
				bound = true
			}
		}
	case OBAnd, OBOr, OBXor:
		n := map[Op]string{OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor"}[t.op]
		if !e.bv {
			// uninterpreted: enough to prove, not to refute
			n = "u" + n
			if !e.funs[n] {
				e.funs[n] = true
				fmt.Fprintf(&e.buf, "(declare-fun %s (Int Int) Int)\n", n)
			}
			bound = true
		}
		s = "(" + n + " " + as[0] + " " + as[1] + ")"
	case ONot:
		s = "(not " + as[0] + ")"
	case OAndB:
		s = "(and " + strings.Join(as, " ") + ")"
	case OOrB:
		s = "(or " + strings.Join(as, " ") + ")"
	case OLe0:
		s = e.le(as[0], e.num(b0))
	case OEq0:
		if len(as) == 2 {
			s = "(= " + as[0] + " " + as[1] + ")"
		} else {
			s = "(= " + as[0] + " " + e.num(b0) + ")"
		}
	case OStore:
		s = "(store " + strings.Join(as, " ") + ")"
	case OConstArr:
		s = "((as const " + e.sortS(SArr) + ") " + as[0] + ")"
	default:
		e.err = fmt.Errorf("cannot encode op %d", t.op)
		return "0"
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&e.buf, "(define-fun %s () %s %s)\n", n, e.sortS(t.sort), s)
	e.names[t] = n
	if bound && t.sort == SInt {
		e.bounds(n, t)
	}
	if leaf && t.sort == SInt {
		e.query = append(e.query, t)
	}
	return n
}

// widthFor computes a bit-vector width in which no sub-term overflows, or 0.
func widthFor(ts []*Term) int {
	w := 8
	seen := map[*Term]bool{}
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if t.sort == SInt {
			if t.lo == nil || t.hi == nil {
				ok = false
				return
			}
			n := max(t.lo.BitLen(), t.hi.BitLen()) + 2
			if t.op == OLin {
				// partial sums
				s := new(big.Int).Abs(t.k)
				for i, a := range t.args {
					x := new(big.Int).Abs(a.lo)
					if y := new(big.Int).Abs(a.hi); y.Cmp(x) > 0 {
						x = y
					}
					s.Add(s, new(big.Int).Mul(x, new(big.Int).Abs(t.coef[i])))
				}
				n = max(n, s.BitLen()+2)
			}
			if t.op == OMul {
				s := big.NewInt(1)
				for _, a := range t.args {
					x := new(big.Int).Abs(a.lo)
					if y := new(big.Int).Abs(a.hi); y.Cmp(x) > 0 {
						x = y
					}
					s.Mul(s, x)
				}
				n = max(n, s.BitLen()+2)
			}
			w = max(w, n)
		}
		if t.op == OTable {
			w = max(w, big.NewInt(int64(len(t.table))).BitLen()+2)
		}
		if t.sort == SArr && t.elHi != nil && t.elLo != nil {
			w = max(w, max(t.elLo.BitLen(), t.elHi.BitLen())+2)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	if !ok || w > 300 {
		return 0
	}
	return w
}

func hasOp(ts []*Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if rec(t) {
			return true
		}
	}
	return false
}

type smtResult struct {
	res     string // unsat sat unknown
	backend string
	model   map[*Term]*big.Int
	secs    float64
	out     string
}

func encode(m *TM, hyps []*Term, goal *Term, bv bool, w int, abs bool) (string, []*Term, map[*Term]string, error) {
	e := &encoder{m: m, abs: abs, bv: bv, w: w, names: map[*Term]string{}, funs: map[string]bool{}}
	var asserts []string
	for _, h := range hyps {
		if h == m.T {
			continue
		}
		asserts = append(asserts, e.term(h))
	}
	g := e.term(goal)
	if e.err != nil {
		return "", nil, nil, e.err
	}
	var out bytes.Buffer
	out.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	out.Write(e.buf.Bytes())
	for _, f := range e.facts {
		fmt.Fprintf(&out, "(assert %s)\n", f)
	}
	for _, a := range asserts {
		fmt.Fprintf(&out, "(assert %s)\n", a)
	}
	fmt.Fprintf(&out, "(assert (not %s))\n(check-sat)\n", g)
	return out.String(), e.query, e.names, nil
}

func runSolver(ctx context.Context, s solverCfg, script string, ms int) (string, string, float64) {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled", 0
	}
	defer func() { <-solverSem }()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	c := s.cmd(ms)
	cmd := exec.CommandContext(cctx, c[0], c[1:]...)
	cmd.Stdin = strings.NewReader(script)
	t0 := time.Now()
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Seconds()
	smtStats.mu.Lock()
	smtStats.queries[s.name]++
	smtStats.time[s.name] += d
	smtStats.mu.Unlock()
	r := "unknown"
	if os.Getenv("GOVC_TRACE") != "" {
		defer func() { fmt.Fprintf(os.Stderr, "Q %s %d %.2f %s %d\n", s.name, ms, d, r, len(script)) }()
	}
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			r = l
			break
		}
	}
	return r, string(out), d
}

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int

// Solve decides hyps |= goal.
func Solve(m *TM, hyps []*Term, goal *Term, ms int, wantModel bool) smtResult {
	m.mu.Lock()
	all := append(append([]*Term(nil), hyps...), goal)
	bitops := hasOp(all, func(t *Term) bool { return t.op == OBAnd || t.op == OBOr || t.op == OBXor })
	pow := hasOp(all, func(t *Term) bool { return t.op == OPow2 })
	nonlin := hasOp(all, func(t *Term) bool { return t.op == OMul || (t.op == ODiv || t.op == OMod) && !t.args[1].isC() })
	type job struct {
		bv bool
		s  solverCfg
	}
	var jobs []job
	w := 0
	if bitops || pow || nonlin {
		w = widthFor(all)
	}
	if !bitops {
		jobs = append(jobs, job{false, solvers[0]}, job{false, solvers[1]}, job{false, solvers[2]})
	}
	if w > 0 {
		jobs = append(jobs, job{true, solvers[0]}, job{true, solvers[1]})
	}
	if bitops {
		jobs = append(jobs, job{false, solvers[0]}, job{false, solvers[1]})
	}
	res := smtResult{res: "unknown"}
	if len(jobs) == 0 {
		m.mu.Unlock()
		res.out = "no encoding: bit operations on unbounded integers"
		return res
	}
	scripts := map[bool]string{}
	queries := map[bool][]*Term{}
	names := map[bool]map[*Term]string{}
	for _, j := range jobs {
		if _, ok := scripts[j.bv]; ok {
			continue
		}
		s, q, n, err := encode(m, hyps, goal, j.bv, w, false)
		if err != nil {
			s = ""
			res.out += err.Error() + "\n"
		}
		var sb strings.Builder
		sb.WriteString(s)
		if wantModel && s != "" {
			sb.WriteString("(get-value (")
			for _, t := range q {
				sb.WriteString(n[t] + " ")
			}
			sb.WriteString("))\n")
		}
		scripts[j.bv], queries[j.bv], names[j.bv] = sb.String(), q, n
		if dumpDir != "" {
			dumpN++
			os.WriteFile(fmt.Sprintf("%s/q%d_%v.smt2", dumpDir, dumpN, j.bv), []byte(sb.String()), 0644)
		}
	}
	abstract := ""
	if hasOp(all, func(t *Term) bool { return t.op == OMul }) {
		abstract, _, _, _ = encode(m, hyps, goal, false, w, true)
	}
	if dumpDir != "" && abstract != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d_abs.smt2", dumpDir, dumpN), []byte(abstract), 0644)
	}
	m.mu.Unlock()
	t0 := time.Now()
	if abstract != "" {
		if r, _, _ := runSolver(context.Background(), solvers[0], abstract, min(ms, 1500)); r == "unsat" {
			return smtResult{res: "unsat", backend: solvers[0].name + "/Int", secs: time.Since(t0).Seconds()}
		}
	}
	finish := func(j job, r, out string) smtResult {
		x := smtResult{res: r, backend: j.s.name, secs: time.Since(t0).Seconds(), out: out}
		if j.bv {
			x.backend += "/BV"
		} else {
			x.backend += "/Int"
		}
		if r == "sat" && wantModel {
			x.model = parseModel(out, queries[j.bv], j.bv, w)
		}
		return x
	}
	run1 := func(ctx context.Context, j job, ms int) (string, string) {
		if scripts[j.bv] == "" {
			return "unknown", "no encoding"
		}
		r, out, _ := runSolver(ctx, j.s, scripts[j.bv], ms)
		if bitops && !j.bv && r == "sat" {
			return "unknown", "not refuted: bit operations are uninterpreted in this encoding"
		}
		return r, out
	}
	// quick attempt with the first solver
	q := min(ms, 3000)
	r, out := run1(context.Background(), jobs[0], q)
	if r != "unknown" {
		return finish(jobs[0], r, out)
	}
	if len(out) > 2000 {
		out = out[:2000]
	}
	res.out += jobs[0].s.name + ": " + out
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		j      job
		r, out string
	}
	ch := make(chan rr, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			r, out := run1(ctx, j, ms)
			ch <- rr{j, r, out}
		}()
	}
	for range jobs {
		x := <-ch
		if x.r != "unknown" {
			return finish(x.j, x.r, x.out)
		}
		if len(x.out) > 500 {
			x.out = x.out[:500]
		}
		res.out += "\n" + x.j.s.name + ": " + x.out
	}
	res.secs = time.Since(t0).Seconds()
	return res
}

// ---- model parsing: (get-value ((name val) ...))

func parseModel(out string, q []*Term, bv bool, w int) map[*Term]*big.Int {
	i := strings.Index(out, "((")
	if i < 0 {
		return nil
	}
	toks := tokenize(out[i:])
	pos := 0
	var parse func() any
	parse = func() any {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []any
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	root, _ := parse().([]any)
	mod := map[*Term]*big.Int{}
	for n, e := range root {
		p, ok := e.([]any)
		if !ok || len(p) != 2 || n >= len(q) {
			continue
		}
		v := evalLit(p[1], bv, w)
		if v != nil {
			mod[q[n]] = v
		}
	}
	return mod
}

func evalLit(x any, bv bool, w int) *big.Int {
	signed := func(v *big.Int) *big.Int {
		if v.Bit(w-1) == 1 {
			return v.Sub(v, p2(w))
		}
		return v
	}
	switch s := x.(type) {
	case string:
		switch {
		case s == "true":
			return big.NewInt(1)
		case s == "false":
			return big.NewInt(0)
		case strings.HasPrefix(s, "#x"):
			v, ok := new(big.Int).SetString(s[2:], 16)
			if ok {
				return signed(v)
			}
		case strings.HasPrefix(s, "#b"):
			v, ok := new(big.Int).SetString(s[2:], 2)
			if ok {
				return signed(v)
			}
		default:
			v, ok := new(big.Int).SetString(s, 10)
			if ok {
				return v
			}
		}
	case []any:
		if len(s) == 2 && s[0] == "-" {
			v := evalLit(s[1], bv, w)
			if v != nil {
				return new(big.Int).Neg(v)
			}
		}
		if len(s) == 3 && s[0] == "_" {
			if n, ok := s[1].(string); ok && strings.HasPrefix(n, "bv") {
				v, ok := new(big.Int).SetString(n[2:], 10)
				if ok {
					return signed(v)
				}
			}
		}
	}
	return nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
