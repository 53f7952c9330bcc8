package main

// Driver: runs contracts, discharges their obligations and decides properties.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Driver struct {
	w        *World
	tmo      int // per obligation, ms
	execSem  chan struct{}
	workSem  chan struct{} // obligations being put to the solvers
	deadline time.Time
	verbose  bool
	abort    atomic.Bool // a failing input is known: stop proving
	rmu      sync.Mutex
	running  map[*CResult]bool
}

// late: no further obligations are attempted.
func (d *Driver) late() bool {
	return d.abort.Load() || !d.deadline.IsZero() && time.Now().After(d.deadline)
}

// watch looks for failing inputs of the contracts that are still being proved after a while.
func (d *Driver) watch(after time.Duration, seed int64, done chan struct{}) {
	select {
	case <-done:
		return
	case <-time.After(after):
	}
	dir, err := os.MkdirTemp("", "govcw")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	tried := map[*CResult]bool{}
	for {
		var r *CResult
		d.rmu.Lock()
		for x := range d.running {
			// only contracts whose proof drags on, not whatever happens to be running
			if !tried[x] && time.Since(x.start) > after*3/4 && (r == nil || x.c.name < r.c.name) {
				r = x
			}
		}
		d.rmu.Unlock()
		select {
		case <-done:
			return
		default:
		}
		if r == nil {
			select {
			case <-done:
				return
			case <-time.After(2 * time.Second):
			}
			continue
		}
		tried[r] = true
		r.mu.Lock()
		names, bounds := map[string]bool{}, r.bounds
		for n := range r.names {
			names[n] = true
		}
		r.mu.Unlock()
		if bounds == nil {
			continue
		}
		res, _, err := d.runReplay(dir, r.c, names, nil, bounds, seed, 3000000, 12)
		if err == nil && res.Found && moderate(res.Inputs) {
			r.mu.Lock()
			r.undec = append(r.undec, "a clause fails when the contract is run on the code: "+res.Label)
			r.mu.Unlock()
			d.abort.Store(true)
			return
		}
	}
}

// moderate: no input is so large that a clause, run in machine arithmetic, could overflow where the
// proof's unbounded arithmetic does not.
func moderate(in map[string]string) bool {
	n := 0
	for _, v := range in {
		if strings.HasPrefix(v, "hex:") {
			continue
		}
		for _, c := range v {
			if c >= '0' && c <= '9' {
				n++
			} else {
				n = 0
			}
			if n > 11 {
				return false
			}
		}
		n = 0
	}
	return true
}

type CResult struct {
	c         *Contract
	start     time.Time
	mu        sync.Mutex
	obls      []*Obl
	undec     []string // constructs outside the verifier's reach, solver limits
	vacuous   bool
	cover     string
	cases     int
	assume    map[string]bool
	inlined   map[string]bool
	used      map[string]bool
	models    []*modelOf
	bounds    map[string]bound // for the search for failing inputs
	bounds0   map[string]bound // known without fixing an input
	names     map[string]bool  // symbolic inputs that the runs looked at
	wall      float64
	nfail     atomic.Int32
	firstFail atomic.Int64 // when the first obligation failed (ns)
}

// widen: inputs bounded only once some are fixed are drawn from the hull of the cases' bounds.
func (r *CResult) widen(c map[string]bound) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := map[string]bound{}
	for k, b := range r.bounds {
		n[k] = b
	}
	for k, b := range c {
		if _, ok := r.bounds0[k]; ok {
			continue
		}
		h, ok := n[k]
		if !ok {
			n[k] = b
			continue
		}
		if h.lo == nil || b.lo == nil || b.lo.Cmp(h.lo) < 0 {
			h.lo = b.lo
		}
		if h.hi == nil || b.hi == nil || b.hi.Cmp(h.hi) > 0 {
			h.hi = b.hi
		}
		n[k] = h
	}
	r.bounds = n
}

// note records the inputs a run looked at, as paths without indices.
func (r *CResult) note(ex *Exec) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.names == nil {
		r.names = map[string]bool{}
	}
	seen := map[*Term]bool{}
	used := map[string]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OBVar || t.op == OAVar {
			used[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, h := range ex.hyps {
		walk(h)
	}
	for _, o := range ex.obls {
		walk(o.pc)
		walk(o.goal)
	}
	for n := range ex.bounds {
		used[n] = true
	}
	for n := range ex.fixed {
		used[n] = true
	}
	for n := range used {
		if !strings.Contains(n, "!") {
			for _, f := range []string{"len(", "cap(", "nil("} {
				if strings.HasPrefix(n, f) {
					n = strings.TrimSuffix(n[len(f):], ")")
				}
			}
			n = idxRe.ReplaceAllString(n, "[]")
			for i, c := range n {
				if c == '.' || c == '[' {
					r.names[n[:i]] = true
				}
			}
			r.names[n] = true
		}
	}
}

var idxRe = regexp.MustCompile(`\[\d+\]`)

type modelOf struct {
	ex  *Exec
	obl *Obl
}

func (r *CResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.obls {
		if o.status != "discharged" {
			out = append(out, o)
		}
	}
	return out
}
func (r *CResult) ok() bool {
	return len(r.undec) == 0 && !r.vacuous && len(r.failed()) == 0 && len(r.obls) > 0
}

func NewDriver(w *World) *Driver {
	return &Driver{w: w, tmo: 20000, execSem: make(chan struct{}, runtime.NumCPU()), workSem: make(chan struct{}, 8)}
}

func (d *Driver) runOnce(ex *Exec, c *Contract) (sp *splitReq, uns string, cx *cctx, final *State) {
	ex.cur = c
	st := &State{heap: map[int]Value{}, pc: ex.m.T}
	cx = &cctx{c: c, proof: true, resVars: map[types.Object]bool{}, params: map[types.Object]bool{}}
	ex.ctxProof = cx
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case splitReq:
				sp = &x
			case stopBounds:
			case unsup:
				uns = x.msg
			default:
				uns = fmt.Sprintf("internal: %v", e)
				if d.verbose || os.Getenv("GOVC_TRACE") != "" {
					buf := make([]byte, 1<<14)
					n := runtime.Stack(buf, false)
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", c.name, e, buf[:n])
				}
			}
		}
	}()
	var args []Value
	sig := c.fi.obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		args = append(args, ex.force(ex.sym(p.Name(), p.Type())))
	}
	ex.inline(st, c.fi.decl.Name, c.fi, nil, args, cx)
	final = st
	return
}

func (d *Driver) prove(c *Contract) *CResult {
	t0 := time.Now()
	r := &CResult{c: c, start: time.Now(), assume: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}}
	if c.trusted != "" {
		return r
	}
	d.rmu.Lock()
	if d.running == nil {
		d.running = map[*CResult]bool{}
	}
	d.running[r] = true
	d.rmu.Unlock()
	collect := func(start map[string]bound, fixed map[string]int64, rounds int) map[string]bound {
		bounds := start
		for k := 0; k < rounds; k++ {
			ex := newExec(d.w)
			for n, b := range bounds {
				ex.bounds[n] = b
			}
			for n, v := range fixed {
				ex.fixed[n] = v
			}
			ex.boundsPass = true
			ex.mute = 1
			d.runOnce(ex, c)
			same := len(bounds) == len(ex.bounds)
			if same {
				for n, b := range ex.bounds {
					if !eqB(b.lo, bounds[n].lo) || !eqB(b.hi, bounds[n].hi) {
						same = false
					}
				}
			}
			bounds = ex.bounds
			if same {
				break
			}
		}
		return bounds
	}
	bounds := collect(map[string]bound{}, nil, 4)
	// the bounds known once some inputs are fixed
	var bmu sync.Mutex
	fixedBounds := map[string]map[string]bound{}
	boundsOf := func(fixed map[string]int64) map[string]bound {
		plain := map[string]int64{}
		for n, v := range fixed {
			if !strings.HasPrefix(n, "case@") {
				plain[n] = v
			}
		}
		if len(plain) == 0 {
			return bounds
		}
		key := fmt.Sprint(plain)
		bmu.Lock()
		b, ok := fixedBounds[key]
		bmu.Unlock()
		if !ok {
			b = collect(bounds, plain, 6)
			bmu.Lock()
			fixedBounds[key] = b
			bmu.Unlock()
			r.widen(b)
		}
		return b
	}
	r.mu.Lock()
	r.bounds = map[string]bound{}
	for n, b := range bounds {
		r.bounds[n] = b
	}
	r.bounds0 = bounds
	r.mu.Unlock()
	var wg sync.WaitGroup
	var launch func(fixed map[string]int64)
	splitSeen := map[string]bool{}
	coverSat, coverUnk, coverUnsat := 0, 0, 0
	var coverMu sync.Mutex
	launch = func(fixed map[string]int64) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d.execSem <- struct{}{}
			release := func() { <-d.execSem }
			ex := newExec(d.w)
			for n, b := range boundsOf(fixed) {
				ex.bounds[n] = b
			}
			for n, v := range fixed {
				ex.fixed[n] = v
			}
			ex.stop = func() bool { return d.late() || r.spent() }
			unk := 0
			ex.loopSMT = func(pc, cond *Term) bool {
				if unk >= 8 || d.late() || r.spent() {
					return false
				}
				h := d.cone(ex.m, ex.hyps, ex.m.And(pc, cond))
				res := Solve(ex.m, h, ex.m.Not(ex.m.And(pc, cond)), 3000, false)
				if res.res == "unknown" {
					unk++
				}
				return res.res == "unsat"
			}
			ex.loopInv = d.w.invariants
			sp, uns, cx, final := d.runOnce(ex, c)
			if sp != nil {
				release()
				var first bool
				r.mu.Lock()
				key := fmt.Sprint(fixed, sp.name)
				first = !splitSeen[key]
				splitSeen[key] = true
				r.mu.Unlock()
				if first {
					// only the coverage obligation of this run counts
					var so []*Obl
					for _, o := range ex.obls {
						if o.kind == "split" {
							so = append(so, o)
						}
					}
					d.discharge(ex, r, so)
				}
				for v := sp.lo; v <= sp.hi; v++ {
					nf := map[string]int64{sp.name: v}
					for n, x := range fixed {
						nf[n] = x
					}
					launch(nf)
				}
				return
			}
			r.note(ex)
			r.mu.Lock()
			r.cases++
			for k := range ex.assume {
				r.assume[k] = true
			}
			for k := range ex.inlined {
				r.inlined[k] = true
			}
			for k := range ex.usedC {
				r.used[k] = true
			}
			if uns != "" {
				r.undec = append(r.undec, uns)
			}
			r.mu.Unlock()
			if c.target != nil && uns == "" && !cx.called && final != nil && final.pc != ex.m.F {
				r.mu.Lock()
				r.undec = append(r.undec, "contract does not call its target")
				r.mu.Unlock()
			}
			var pend []*Obl
			for _, o := range ex.obls {
				if o.kind != "split" || true {
					pend = append(pend, o)
				}
			}
			release()
			d.discharge(ex, r, pend)
			// one model of one case shows that the contract is not vacuous
			coverMu.Lock()
			defer coverMu.Unlock()
			needCover := coverSat == 0 && coverUnk < 4 && uns == ""
			cover := ""
			if needCover && final != nil {
				pc := final.pc
				if c.target != nil && cx.post != nil {
					pc = cx.post.pc
				}
				goal := ex.m.Not(pc)
				if goal == ex.m.T {
					cover = "unsat"
				} else {
					q := Solve(ex.m, ex.hyps, goal, 5000, false)
					cover = q.res
				}
			}
			r.mu.Lock()
			switch cover {
			case "sat":
				coverSat++
			case "unsat":
				coverUnsat++
			case "unknown":
				coverUnk++
			}
			r.mu.Unlock()
		}()
	}
	launch(map[string]int64{})
	wg.Wait()
	switch {
	case coverSat > 0:
		r.cover = "reachable (model found)"
	case coverUnk > 0:
		r.cover = "reachability not decided by the solver"
	case len(r.undec) == 0:
		r.cover = "UNREACHABLE"
		r.vacuous = true
	}
	r.wall = time.Since(t0).Seconds()
	sort.Strings(r.undec)
	return r
}

func eqB(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

// ---- cone of influence

func (m *TM) atomsOf(t *Term, memo map[*Term]map[*Term]bool) map[*Term]bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	memo[t] = r
	switch t.op {
	case OVar, OBVar, OAVar:
		r[t] = true
		return r
	case OApp, OSel:
		r[t] = true
		return r
	}
	for _, a := range t.args {
		for k := range m.atomsOf(a, memo) {
			r[k] = true
		}
	}
	return r
}

func (d *Driver) cone(m *TM, hyps []*Term, goal *Term) []*Term {
	memo := map[*Term]map[*Term]bool{}
	need := map[*Term]bool{}
	for k := range m.atomsOf(goal, memo) {
		need[k] = true
	}
	used := make([]bool, len(hyps))
	for ch := true; ch; {
		ch = false
		for i, h := range hyps {
			if used[i] {
				continue
			}
			as := m.atomsOf(h, memo)
			hit := false
			for a := range as {
				if need[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for a := range as {
					need[a] = true
				}
			}
		}
	}
	var out []*Term
	for i, h := range hyps {
		if used[i] {
			out = append(out, h)
		}
	}
	return out
}

func (d *Driver) discharge(ex *Exec, r *CResult, obls []*Obl) {
	m := ex.m
	var rest []*Obl
	for _, o := range obls {
		g := m.Under(o.goal, o.pc)
		if g == m.T || m.Implies(o.pc, g) == m.T {
			o.status, o.backend = "discharged", "normaliser"
			continue
		}
		o.goal = g
		rest = append(rest, o)
	}
	// chunks with a common hypothesis prefix
	type chunk struct {
		os   []*Obl
		goal *Term
		hyps []*Term
	}
	var chunks []*chunk
	for _, o := range rest {
		n := len(chunks)
		if n > 0 && chunks[n-1].os[0].nh == o.nh && len(chunks[n-1].os) < 24 {
			chunks[n-1].os = append(chunks[n-1].os, o)
		} else {
			chunks = append(chunks, &chunk{os: []*Obl{o}})
		}
	}
	single := func(o *Obl, h []*Term, full []*Term, goal *Term) {
		tmo := d.tmo
		if r.nfail.Load() > 0 {
			tmo = min(tmo, 5000)
		}
		q := Solve(m, h, goal, tmo, true)
		if q.res == "sat" && len(h) < len(full) || q.res == "unknown" && len(h) < len(full) {
			q = Solve(m, full, goal, tmo, true)
		}
		o.secs, o.backend, o.out = q.secs, q.backend, q.out
		switch q.res {
		case "unsat":
			o.status = "discharged"
		case "sat":
			o.status = "failed"
			o.model = q.model
			r.mu.Lock()
			r.models = append(r.models, &modelOf{ex, o})
			r.mu.Unlock()
		default:
			o.status = "undecided"
		}
	}
	type prep struct {
		o       *Obl
		h, full []*Term
		goal    *Term
	}
	preps := map[*Obl]prep{}
	for _, c := range chunks {
		var gs []*Term
		for _, o := range c.os {
			g := m.Implies(o.pc, o.goal)
			full := ex.hyps[:o.nh]
			preps[o] = prep{o, d.cone(m, full, g), full, g}
			gs = append(gs, g)
		}
		c.goal = m.And(gs...)
		c.hyps = d.cone(m, ex.hyps[:c.os[0].nh], c.goal)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, c := range chunks {
		c := c
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			d.workSem <- struct{}{}
			defer func() { <-d.workSem }()
			if len(c.os) > 1 && !r.spent() && !d.late() {
				q := Solve(m, c.hyps, c.goal, min(d.tmo, 8000-1500*int(min(r.nfail.Load(), 4))), false)
				if q.res == "unsat" {
					for _, o := range c.os {
						o.status, o.backend, o.secs = "discharged", q.backend, q.secs/float64(len(c.os))
					}
					return
				}
			}
			for _, o := range c.os {
				if r.spent() || d.late() {
					o.status, o.out = "undecided", "not attempted: earlier obligations of the contract already failed, or the time budget ended"
					continue
				}
				p := preps[o]
				single(o, p.h, p.full, p.goal)
				if o.status != "discharged" {
					r.nfail.Add(1)
					r.firstFail.CompareAndSwap(0, time.Now().UnixNano())
				}
			}
		}()
	}
	wg.Wait()
	if os.Getenv("GOVC_TIME") != "" {
		for _, o := range obls {
			fmt.Fprintf(os.Stderr, "%7.1f %s %s %s %s %s\n", o.secs, o.status, o.backend, o.kind, o.name, o.pos)
		}
	}
	for _, o := range obls {
		if o.status == "discharged" {
			o.pc, o.goal = nil, nil
		}
	}
	r.mu.Lock()
	r.obls = append(r.obls, obls...)
	r.mu.Unlock()
}

// spent: enough obligations failed, or long enough ago, that no more of this contract are attempted.
func (r *CResult) spent() bool {
	f := r.firstFail.Load()
	return r.nfail.Load() >= 12 || f != 0 && time.Now().UnixNano()-f > int64(40*time.Second)
}

// closure returns the contracts tagged with a property and, once proved, those they use.
func (d *Driver) proveAll(start []*Contract) []*CResult {
	byName := map[string]*Contract{}
	for _, c := range d.w.contracts {
		byName[c.name] = c
	}
	done := map[string]bool{}
	var out []*CResult
	todo := start
	for len(todo) > 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		var rs []*CResult
		sem := make(chan struct{}, 8)
		for _, c := range todo {
			if done[c.name] {
				continue
			}
			done[c.name] = true
			c := c
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				r := d.prove(c)
				d.rmu.Lock()
				delete(d.running, r)
				d.rmu.Unlock()
				mu.Lock()
				rs = append(rs, r)
				mu.Unlock()
			}()
		}
		wg.Wait()
		todo = nil
		sort.Slice(rs, func(i, j int) bool { return rs[i].c.name < rs[j].c.name })
		for _, r := range rs {
			out = append(out, r)
			var us []string
			for u := range r.used {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				if c := byName[u]; c != nil && !done[u] {
					todo = append(todo, c)
				}
			}
		}
	}
	return out
}

func (r *CResult) summary() string {
	n, dis := len(r.obls), 0
	be := map[string]int{}
	for _, o := range r.obls {
		if o.status == "discharged" {
			dis++
			be[o.backend]++
		}
	}
	var bs []string
	for k, v := range be {
		bs = append(bs, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(bs)
	s := fmt.Sprintf("%s [%s] obligations %d discharged %d cases %d (%s) %.1fs; %s", r.c.name, r.c.tname, n, dis, r.cases, strings.Join(bs, " "), r.wall, r.cover)
	for _, u := range r.undec {
		s += "\n    undecided: " + u
	}
	cnt := map[string]int{}
	var order []string
	for _, o := range r.failed() {
		l := fmt.Sprintf("%s: %s %q at %s (%s)", o.status, o.kind, o.name, o.pos, o.backend)
		if o.status == "undecided" {
			t := o.out
			if len(t) > 160 {
				t = t[:160]
			}
			l += " " + strings.ReplaceAll(t, "\n", " ")
		}
		if cnt[l]++; cnt[l] == 1 {
			order = append(order, l)
		}
	}
	for k, l := range order {
		if k == 14 {
			s += fmt.Sprintf("\n    ... %d more", len(order)-k)
			break
		}
		s += fmt.Sprintf("\n    %s", l)
		if cnt[l] > 1 {
			s += fmt.Sprintf(" (x%d)", cnt[l])
		}
	}
	return s
}
