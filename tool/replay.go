package main

// Replay: turn a failed obligation into concrete inputs and run the contract on the real code.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type rtBound struct {
	Lo, Hi *int64 `json:",omitempty"`
}
type rtBit struct {
	Slice string
	Pos   int64
	N     int64
	Val   uint64
}
type rtApp struct {
	Name  string
	Slice string
	Args  []int64
	Val   int64
}
type rtModel struct {
	Ints map[string]int64
	Bits []rtBit
	Apps []rtApp // values of opaque functions of byte slices
}
type rtJob struct {
	Contract string
	Params   []string
	Models   []rtModel
	Bounds   map[string]rtBound
	Names    map[string]bool // inputs the contract depends on (nil: all)
	Seed     int64
	Tries    int
	Seconds  float64
	Out      string
}
type rtResult struct {
	Found    bool
	Label    string
	Kind     string
	Inputs   map[string]string
	Detail   string
	Tries    int
	Skipped  int
	Distinct int
}

func i64b(b *big.Int) *int64 {
	if b == nil || !b.IsInt64() {
		return nil
	}
	v := b.Int64()
	return &v
}

// smallModel re-solves a failed obligation preferring short inputs.
func (d *Driver) smallModel(mo *modelOf) map[*Term]*big.Int {
	ex, o := mo.ex, mo.obl
	m := ex.m
	goal := m.Implies(o.pc, o.goal)
	h := append([]*Term(nil), ex.hyps[:o.nh]...)
	for _, t := range m.all {
		if t.op == OVar && !strings.Contains(t.name, "!") {
			if strings.HasPrefix(t.name, "len(") {
				lo := int64(256)
				if t.lo != nil && t.lo.IsInt64() && t.lo.Int64() > lo {
					lo = t.lo.Int64() * 2
				}
				h = append(h, m.Le(t, m.I(lo)))
			}
			if strings.HasSuffix(t.name, "Position") {
				h = append(h, m.Le(t, m.I(64)))
			}
		}
	}
	q := Solve(m, h, goal, 10000, true)
	if q.res == "sat" && q.model != nil {
		return q.model
	}
	return o.model
}

func (d *Driver) toModel(ex *Exec, mod map[*Term]*big.Int) rtModel {
	m := ex.m
	r := rtModel{Ints: map[string]int64{}}
	sub := map[*Term]*Term{}
	for t, v := range mod {
		switch t.op {
		case OVar:
			sub[t] = m.C(v)
			if v.IsInt64() {
				r.Ints[t.name] = v.Int64()
			}
		case OBVar:
			sub[t] = m.Bool(v.Sign() != 0)
			r.Ints[t.name] = v.Int64()
		}
	}
	for n, v := range ex.fixed {
		r.Ints[n] = v
	}
	for t, v := range mod {
		if t.op == OApp || t.op == OSel {
			sub[t] = m.C(v)
		}
	}
	ev := func(t *Term) (int64, bool) { return m.Subst(t, sub, map[*Term]*Term{}).i64() }
	for t, v := range mod {
		switch t.op {
		case OSel:
			if t.args[0].op == OAVar {
				if i, ok := ev(t.args[1]); ok && v.IsInt64() {
					r.Ints[fmt.Sprintf("%s[%d]", strings.TrimSuffix(t.args[0].name, "[]"), i)] = v.Int64()
				}
			}
		case OApp:
			if len(t.args) == 0 && v.IsInt64() {
				r.Ints["ghost"] = v.Int64()
			}
			if len(t.args) >= 3 && t.args[0].op == OAVar && v.IsInt64() {
				a := rtApp{Name: t.name, Slice: strings.TrimSuffix(t.args[0].name, "[]"), Val: v.Int64()}
				ok := true
				for _, x := range t.args[3:] {
					n, k := ev(x)
					ok = ok && k
					a.Args = append(a.Args, n)
				}
				if ok {
					r.Apps = append(r.Apps, a)
				}
			}
			// bit string functions: (array, offset, length, position, count)
			if strings.HasSuffix(t.name, "Bits") && len(t.args) == 5 && t.args[0].op == OAVar {
				p, ok1 := ev(t.args[3])
				n, ok2 := ev(t.args[4])
				off, ok3 := ev(t.args[1])
				if ok1 && ok2 && ok3 && v.Sign() >= 0 && v.IsUint64() && n >= 0 && n <= 64 {
					r.Bits = append(r.Bits, rtBit{strings.TrimSuffix(t.args[0].name, "[]"), p + 8*off, n, v.Uint64()})
				}
			}
		}
	}
	sort.Slice(r.Apps, func(i, j int) bool {
		a, b := r.Apps[i], r.Apps[j]
		if len(a.Args) > 0 && len(b.Args) > 0 && a.Args[0] != b.Args[0] {
			return a.Args[0] < b.Args[0]
		}
		return a.Name < b.Name
	})
	sort.Slice(r.Bits, func(i, j int) bool { return r.Bits[i].Pos < r.Bits[j].Pos })
	return r
}

// harness writes the overlay and the test file for a package.
func (d *Driver) harness(dir string, pk *Pkg) (string, error) {
	w := d.w
	repl := map[string]string{}
	for v, f := range w.overlays {
		repl[v] = f
		if src, ok := w.pruned[v]; ok {
			pf := filepath.Join(dir, strings.ReplaceAll(v, "/", "_"))
			if err := os.WriteFile(pf, src, 0644); err != nil {
				return "", err
			}
			repl[v] = pf
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\tzzvsr \"%s/internal/zzvs\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tif err := zzvsr.Replay(map[string]any{\n", pk.tp.Name(), w.module)
	for _, c := range w.contracts {
		if c.pkg == pk {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", c.fi.decl.Name.Name, c.fi.decl.Name.Name)
		}
	}
	sb.WriteString("\t}); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n")
	tf := filepath.Join(dir, pk.tp.Name()+"_replay_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	repl[filepath.Join(pk.dir, "zz_verif_replay_test.go")] = tf
	// the repository's own tests of the package are left out of the replay binary
	ts, _ := filepath.Glob(filepath.Join(pk.dir, "*_test.go"))
	for _, t := range ts {
		repl[t] = ""
	}
	ov := filepath.Join(dir, pk.tp.Name()+"_overlay.json")
	data, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	return ov, os.WriteFile(ov, data, 0644)
}

func goEnv(dir string) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOSUMDB=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off")
}

func (d *Driver) buildReplay(dir string, pk *Pkg) (string, error) {
	bin := filepath.Join(dir, pk.tp.Name()+".replay")
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(d.w.root, f))
		if err == nil {
			os.WriteFile(filepath.Join(dir, strings.Replace(f, "go.", "gov1.", 1)), data, 0644)
		}
	}
	ov, err := d.harness(dir, pk)
	if err != nil {
		return "", err
	}
	rel, _ := filepath.Rel(d.w.root, pk.dir)
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", filepath.Join(dir, "gov1.mod"), "-o", bin, "./"+rel)
	cmd.Dir = d.w.root
	cmd.Env = goEnv(dir)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

var indexRe = regexp.MustCompile(`\[\d+\]`)

func (d *Driver) runReplay(dir string, c *Contract, names map[string]bool, models []rtModel, bounds map[string]bound, seed int64, tries int, seconds float64) (*rtResult, string, error) {
	bin, err := d.buildReplay(dir, c.pkg)
	if err != nil {
		return nil, "", err
	}
	j := rtJob{Contract: c.fi.decl.Name.Name, Models: models, Seed: seed, Tries: tries, Seconds: seconds, Bounds: map[string]rtBound{}, Names: names, Out: filepath.Join(dir, c.name+".result.json")}
	sig := c.fi.obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		j.Params = append(j.Params, sig.Params().At(i).Name())
	}
	for n, b := range bounds {
		j.Bounds[n] = rtBound{i64b(b.lo), i64b(b.hi)}
	}
	// random inputs are drawn without looking at indices: the hull of the elements' bounds
	hull := map[string]rtBound{}
	for n, b := range j.Bounds {
		w := indexRe.ReplaceAllString(n, "[]")
		if w == n {
			continue
		}
		h, ok := hull[w]
		if !ok {
			hull[w] = b
			continue
		}
		if h.Lo == nil || b.Lo == nil || *b.Lo < *h.Lo {
			h.Lo = b.Lo
		}
		if h.Hi == nil || b.Hi == nil || *b.Hi > *h.Hi {
			h.Hi = b.Hi
		}
		hull[w] = h
	}
	for w, h := range hull {
		if _, ok := j.Bounds[w]; !ok {
			j.Bounds[w] = h
		}
	}
	jf := filepath.Join(dir, c.name+".job.json")
	if k := os.Getenv("GOVC_JOBCOPY"); k != "" {
		defer func() { d, _ := os.ReadFile(jf); os.WriteFile(k, d, 0644) }()
	}
	data, _ := json.MarshalIndent(j, "", " ")
	if err := os.WriteFile(jf, data, 0644); err != nil {
		return nil, "", err
	}
	os.Remove(j.Out)
	scratch := filepath.Join(dir, "cwd")
	os.MkdirAll(scratch, 0755)
	cmd := exec.Command("timeout", "-s", "KILL", fmt.Sprint(int(seconds)+40), "prlimit", "--as=12000000000", bin, "-test.run", "TestZZReplay", "-test.timeout", "0")
	cmd.Dir = scratch
	cmd.Env = append(goEnv(dir), "GOVC_JOB="+jf, "GOMAXPROCS=2")
	t0 := time.Now()
	out, rerr := cmd.CombinedOutput()
	res := &rtResult{}
	rd, err := os.ReadFile(j.Out)
	if err != nil {
		s := string(out)
		if len(s) > 2000 {
			s = s[:2000]
		}
		// the run died (fatal error, memory, runaway recursion)
		if rerr != nil && (strings.Contains(s, "fatal error") || strings.Contains(s, "out of memory") || strings.Contains(s, "stack overflow") || strings.Contains(s, "goroutine stack exceeds")) {
			return &rtResult{Found: true, Kind: "crash", Label: "the process dies", Detail: s}, "", nil
		}
		return nil, "", fmt.Errorf("replay run: %v after %.1fs: %s", rerr, time.Since(t0).Seconds(), s)
	}
	if err := json.Unmarshal(rd, res); err != nil {
		return nil, "", err
	}
	return res, string(data), nil
}
