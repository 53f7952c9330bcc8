package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type KF struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	Site       string `json:"site,omitempty"`
	What       string `json:"what"`
}
type KnownFile struct {
	Findings []KF     `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func main() {
	root := flag.String("repo", "/repo", "repository under verification")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("property", "", "decide this property")
	only := flag.String("contract", "", "prove these contracts (comma separated substrings)")
	list := flag.Bool("list", false, "list contracts")
	rand := flag.Bool("test", false, "run the contracts on random inputs (debugging aid)")
	rerun := flag.String("replay", "", "run a replay file again")
	seconds := flag.Float64("seconds", 5, "")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	if f := os.Getenv("GOVC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			go func() { time.Sleep(20 * time.Second); pprof.StopCPUProfile(); w.Close() }()
		}
	}
	t0 := time.Now()
	w, err := LoadWorld(*root, filepath.Join(*verif, "contracts"))
	if err == nil {
		w.CollectContracts()
	}
	seed := int64(1)
	if s, e := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); e == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if err != nil {
		fmt.Println("load:", err)
		if *prop != "" {
			d := &Driver{w: w}
			d.report(*verif, *prop, tier, seed, nil, []string{"cannot load the sources: " + err.Error()}, t0)
		}
		os.Exit(1)
	}
	d := NewDriver(w)
	d.verbose = *verbose
	switch {
	case *list:
		for _, c := range w.contracts {
			fmt.Println(c.name, "->", c.tname, c.props)
		}
		for _, m := range w.missing {
			fmt.Println("MISSING", m.msg, m.props)
		}
	case *rerun != "":
		os.Exit(d.replayFile(*rerun))
	case *only != "":
		for _, m := range w.missing {
			fmt.Println("MISSING", m.msg, m.props)
		}
		var cs []*Contract
		for _, c := range w.contracts {
			for _, s := range strings.Split(*only, ",") {
				if c.name == s || strings.HasSuffix(s, "*") && strings.Contains(c.name, strings.TrimSuffix(s, "*")) {
					cs = append(cs, c)
				}
			}
		}
		if *rand {
			dir, _ := os.MkdirTemp("", "govc")
			defer os.RemoveAll(dir)
			for _, c := range cs {
				pr := d.prove(c)
				r, _, err := d.runReplay(dir, c, pr.names, nil, pr.bounds, seed, 1000000, *seconds)
				fmt.Println(c.name, err)
				o, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(o))
			}
			return
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for _, c := range cs {
			c := c
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				r := d.prove(c)
				<-sem
				mu.Lock()
				defer mu.Unlock()
				fmt.Println(r.summary())
				if *verbose {
					for _, mo := range r.models {
						j, _ := json.Marshal(d.toModel(mo.ex, d.smallModel(mo)))
						fmt.Println("   model", mo.obl.name, string(j))
						fmt.Println("   pc", mo.obl.pc, "\n   goal", mo.obl.goal)
					}
				}
			}()
		}
		wg.Wait()
		fmt.Printf("%.1fs\n", time.Since(t0).Seconds())
	case *prop != "":
		budget := 500 * time.Second
		if tier == "thorough" {
			d.tmo = 120000
			budget = 700 * time.Second
		}
		d.deadline = t0.Add(budget)
		os.Exit(d.decide(*verif, *prop, tier, seed, t0))
	}
}

func (d *Driver) decide(verif, prop, tier string, seed int64, t0 time.Time) int {
	var start []*Contract
	for _, c := range d.w.contracts {
		for _, p := range c.props {
			if p == prop {
				start = append(start, c)
			}
		}
	}
	var problems []string
	if len(start) == 0 {
		problems = append(problems, "no contract of this property could be loaded")
	}
	for _, m := range d.w.missing {
		if d.concerns(prop, m) {
			problems = append(problems, m.msg)
		}
	}
	done := make(chan struct{})
	var ww sync.WaitGroup
	ww.Add(1)
	go func() {
		defer ww.Done()
		d.watch(40*time.Second, seed, done)
	}()
	rs := d.proveAll(start)
	close(done)
	ww.Wait()
	return d.report(verif, prop, tier, seed, rs, problems, t0)
}

// concerns: a loading problem is reported by the properties whose contracts it takes away.
func (d *Driver) concerns(prop string, m missing) bool {
	if m.props != nil {
		for _, p := range m.props {
			if p == prop {
				return true
			}
		}
		return false
	}
	for virt, real := range d.w.overlays {
		rel, _ := filepath.Rel(d.w.root, filepath.Dir(virt))
		if d.w.module+"/"+filepath.ToSlash(rel) != m.pkg {
			continue
		}
		data, _ := os.ReadFile(real)
		for _, l := range strings.Split(string(data), "\n") {
			l = strings.TrimSpace(strings.TrimPrefix(l, "//"))
			if strings.HasPrefix(l, "@ property:") || strings.HasPrefix(l, "@property:") {
				_, v, _ := strings.Cut(l, ":")
				for _, p := range strings.Split(v, ",") {
					if strings.TrimSpace(p) == prop {
						return true
					}
				}
			}
		}
	}
	return false
}

func (d *Driver) report(verif, prop, tier string, seed int64, rs []*CResult, problems []string, t0 time.Time) int {
	dir, err := os.MkdirTemp("", "govc")
	if err == nil {
		defer os.RemoveAll(dir)
	}
	var kf KnownFile
	if data, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(data, &kf)
	}
	total, dis := 0, 0
	back := map[string]int{}
	kinds := map[string]int{}
	assume := map[string]bool{}
	inl := map[string]bool{}
	var funcs, lemmas []string
	cases := 0
	covers := map[string]string{}
	type bad struct {
		r    *CResult
		os   []*Obl
		text []string
	}
	var bads []*bad
	known := map[string]bool{}
	for _, r := range rs {
		total += len(r.obls)
		cases += r.cases
		if r.c.lemma {
			lemmas = append(lemmas, r.c.name)
		} else {
			funcs = append(funcs, r.c.target0()+" (contract "+r.c.name+")")
		}
		covers[r.c.name] = r.cover
		if r.c.trusted != "" {
			assume["trusted contract "+r.c.name+": "+r.c.trusted] = true
		}
		for k := range r.assume {
			assume[k] = true
		}
		for k := range r.inlined {
			inl[k] = true
		}
		b := &bad{r: r}
		for _, o := range r.obls {
			kinds[o.kind]++
			if o.status == "discharged" {
				dis++
				back[o.backend]++
				continue
			}
			sup := false
			for _, k := range kf.Findings {
				if k.Property == prop && k.Contract == r.c.name && k.Obligation == o.name && (k.Site == "" || k.Site == o.pos) {
					known[k.What] = true
					sup = true
				}
			}
			if !sup {
				b.os = append(b.os, o)
			}
		}
		if r.c.trusted == "" {
			b.text = append(b.text, r.undec...)
			if r.vacuous {
				b.text = append(b.text, "the precondition is unsatisfiable or the target never returns")
			}
			if len(r.obls) == 0 && len(b.text) == 0 {
				b.text = append(b.text, "no obligation was generated")
			}
		}
		if len(b.os) > 0 || len(b.text) > 0 {
			bads = append(bads, b)
		}
	}
	if d.abort.Load() {
		// the search found a failing input: contracts that were merely cut off are not reported
		var keep []*bad
		for _, b := range bads {
			cut := true
			for _, o := range b.os {
				cut = cut && strings.HasPrefix(o.out, "not attempted")
			}
			for _, t := range b.text {
				cut = cut && strings.Contains(t, "not attempted")
			}
			if !cut {
				keep = append(keep, b)
			}
		}
		bads = keep
	}
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	viol := 0
	outDir := filepath.Join(verif, "out", prop)
	if len(bads) > 0 || len(problems) > 0 {
		os.MkdirAll(outDir, 0755)
	}
	var lines []string
	replays := []map[string]any{}
	evals := 0
	if len(problems) > 0 {
		p := filepath.Join(outDir, "load.txt")
		os.WriteFile(p, []byte(strings.Join(problems, "\n")+"\n"), 0644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, p))
		viol++
	}
	nb := 0
	for _, b := range bads {
		viol++
		nb++
		var models []rtModel
		for i, mo := range b.r.models {
			if i >= 6 {
				break
			}
			models = append(models, d.toModel(mo.ex, d.smallModel(mo)))
		}
		rec := map[string]any{"property": prop, "contract": b.r.c.name, "target": b.r.c.tname, "problems": b.text}
		var fo []map[string]any
		for i, o := range b.os {
			if i >= 20 {
				break
			}
			out := o.out
			if len(out) > 3000 {
				out = out[:3000]
			}
			fo = append(fo, map[string]any{"obligation": o.name, "kind": o.kind, "site": o.pos, "status": o.status, "solver": o.backend, "solver_output": out})
		}
		rec["failed_obligations"] = fo
		rec["models"] = models
		sec := 25.0
		if len(bads) > 3 {
			sec = 12
		}
		found := false
		if nb <= 10 && dir != "" {
			res, job, err := d.runReplay(dir, b.r.c, b.r.names, models, b.r.bounds, seed, 3000000, sec)
			if err == nil && res.Found && !moderate(res.Inputs) {
				res, job, err = d.runReplay(dir, b.r.c, b.r.names, nil, b.r.bounds, seed, 3000000, sec)
			}
			if err != nil {
				rec["replay_error"] = err.Error()
			} else {
				evals += res.Tries
				rec["replay"] = res
				if res.Found && moderate(res.Inputs) {
					found = true
					var j any
					json.Unmarshal([]byte(job), &j)
					rec["job"] = j
				}
			}
		}
		rec["rerun"] = filepath.Join(verif, "check.sh") + " --replay <this file>"
		rp := filepath.Join(outDir, b.r.c.name+".json")
		data, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(rp, data, 0644)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if !found {
			l += " no-failing-input-found"
			lines = append(lines, l)
		} else {
			lines = append([]string{l}, lines...)
		}
		replays = append(replays, map[string]any{"contract": b.r.c.name, "reproduced": found})
		fmt.Println(b.r.summary())
	}
	// a failing input found anywhere decides the property; then only such lines are printed
	hasReal := false
	for _, l := range lines {
		if !strings.HasSuffix(l, "no-failing-input-found") {
			hasReal = true
		}
	}
	for _, l := range lines {
		if hasReal && strings.HasSuffix(l, "no-failing-input-found") {
			continue
		}
		fmt.Println(l)
	}
	tb := []string{"govc verification condition generator (/verif/tool)", "go/parser and go/types of the installed Go toolchain", "solvers: z3 5.3.2, cvc5 1.1.2, z3 4.8.12"}
	var as []string
	for k := range assume {
		as = append(as, k)
	}
	sort.Strings(as)
	as = append(as, "pointer and slice parameters of a contracted function do not alias each other, and are not nil unless the contract says so",
		"int is 64 bits; signed overflow is an obligation, unsigned arithmetic wraps; memory exhaustion and stack depth are not modelled",
		"termination is shown for unrolled loops and loops with a variant; recursion only where it is unrolled")
	var is []string
	for k := range inl {
		is = append(is, k)
	}
	sort.Strings(is)
	sort.Strings(funcs)
	smtStats.mu.Lock()
	st := map[string]any{}
	for k, v := range smtStats.queries {
		st[k] = map[string]any{"queries": v, "seconds": float64(int(smtStats.time[k]*100)) / 100}
	}
	smtStats.mu.Unlock()
	samples := []string{}
	for _, r := range rs {
		for _, o := range r.obls {
			if o.kind == "post" && len(samples) < 12 {
				samples = append(samples, r.c.name+": "+o.kind+" "+o.name+" @ "+o.pos+" ["+o.backend+"]")
				break
			}
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": dis, "checker_cmd": "./check.sh " + prop, "trusted_base": tb,
			"functions_under_contract": funcs, "lemmas": lemmas, "functions_executed_inside_contracts": is,
			"discharged_by": back, "obligation_kinds": kinds, "case_splits_run": cases, "solver": st,
			"reachability": covers, "samples": samples, "replays": replays, "replay_executions": evals,
		},
		"assumptions": as, "wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": viol,
	}
	if len(known) > 0 {
		var ks []string
		for k := range known {
			ks = append(ks, k)
		}
		ev["coverage"].(map[string]any)["known_findings"] = ks
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), data, 0644)
	if viol > 0 {
		return 1
	}
	fmt.Printf("OK property=%s contracts=%d obligations=%d discharged=%d cases=%d %.1fs\n", prop, len(rs), total, dis, cases, time.Since(t0).Seconds())
	return 0
}

func (c *Contract) target0() string {
	if c.target == nil {
		return c.tname
	}
	return c.target.FullName()
}

// replayFile runs a stored replay job again.
func (d *Driver) replayFile(f string) int {
	data, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var rec struct {
		Contract string
		Job      *rtJob
		Models   []rtModel
	}
	json.Unmarshal(data, &rec)
	for _, c := range d.w.contracts {
		if c.name == rec.Contract {
			dir, _ := os.MkdirTemp("", "govc")
			defer os.RemoveAll(dir)
			seed := int64(1)
			if rec.Job != nil {
				seed = rec.Job.Seed
			}
			pr := d.prove(c)
			r, _, err := d.runReplay(dir, c, pr.names, rec.Models, pr.bounds, seed, 3000000, 25)
			o, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(o), err)
			if r != nil && r.Found {
				return 1
			}
		}
	}
	return 0
}

var _ = exec.Command
