package zzvs

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type Bound struct {
	Lo, Hi *int64 `json:",omitempty"`
}
type BitVal struct {
	Slice string
	Pos   int64
	N     int64
	Val   uint64
}
type AppVal struct {
	Name  string
	Slice string
	Args  []int64
	Val   int64
}
type Model struct {
	Ints map[string]int64
	Bits []BitVal
	Apps []AppVal
}
type Job struct {
	Contract string
	Params   []string
	Models   []Model
	Bounds   map[string]Bound
	Names    map[string]bool
	Seed     int64
	Tries    int
	Seconds  float64
	Out      string
}
type Result struct {
	Found    bool
	Label    string
	Kind     string
	Inputs   map[string]string
	Detail   string
	Tries    int
	Skipped  int
	Distinct int
}

// Replay runs one contract on the real code with concrete inputs until a contract clause fails.
func Replay(fns map[string]any) error {
	data, err := os.ReadFile(os.Getenv("GOVC_JOB"))
	if err != nil {
		return err
	}
	var j Job
	if err := json.Unmarshal(data, &j); err != nil {
		return err
	}
	f := reflect.ValueOf(fns[j.Contract])
	res := Result{}
	if !f.IsValid() {
		res.Detail = "no such contract"
	} else {
		run(&j, f, &res)
	}
	o, _ := json.MarshalIndent(res, "", " ")
	return os.WriteFile(j.Out, o, 0644)
}

var names map[string]bool

// relevant: does the contract depend on this input?
func relevant(name string) bool {
	if len(names) == 0 {
		return true
	}
	out := make([]byte, 0, len(name))
	for i := 0; i < len(name); i++ {
		out = append(out, name[i])
		if name[i] == '[' {
			for i+1 < len(name) && name[i+1] != ']' {
				i++
			}
		}
	}
	return names[string(out)]
}

type gen struct {
	r     *rand.Rand
	m     *Model
	b     map[string]Bound
	mode  int
	fixed bool // only model values (zero elsewhere)
	scale int  // size class of byte slices
}

// size classes of byte slices; the classes whose runs meet the precondition are preferred
var scales = []int64{40, 300, 1500, 12000}
var scaleOK [4]int

func run(j *Job, f reflect.Value, res *Result) {
	r := rand.New(rand.NewSource(j.Seed))
	names = j.Names
	t0 := time.Now()
	seen := map[string]bool{}
	for i := 0; i < j.Tries && time.Since(t0).Seconds() < j.Seconds; i++ {
		g := &gen{r: r, b: j.Bounds, mode: r.Intn(6)}
		if i < len(j.Models) {
			g.m, g.fixed = &j.Models[i], true
		} else if len(j.Models) > 0 && i < 200+2*len(j.Models) || len(j.Models) > 0 && i%4 == 0 {
			g.m = &j.Models[i%len(j.Models)]
		}
		g.scale = i % len(scales)
		if best := g.r.Intn(1 + scaleOK[0] + scaleOK[1] + scaleOK[2] + scaleOK[3]); best > 0 && i%8 != 0 {
			for k, n := range scaleOK {
				if best <= n {
					g.scale = k
					break
				}
				best -= n
			}
		}
		if v, ok := g.model("ghost"); ok {
			ghost = int(v)
		} else if g.r.Intn(4) == 0 {
			ghost = g.r.Intn(70)
		} else {
			ghost = g.r.Intn(6)
		}
		memo = map[string]int{}
		cur.on = true
		cur.rand = nil
		if g.m == nil {
			cur.rand = r.Intn
		}
		cur.mods = nil
		cur.init = nil
		cur.snap = nil
		var in []reflect.Value
		ft := f.Type()
		for k := 0; k < ft.NumIn(); k++ {
			v := reflect.New(ft.In(k)).Elem()
			g.fill(v, j.Params[k], 0)
			c := reflect.New(ft.In(k)).Elem()
			clone(c, v)
			in = append(in, v)
			cur.init = append(cur.init, v)
			cur.snap = append(cur.snap, c)
		}
		res.Tries++
		kind, label, detail := once(f, in, j.Params)
		if kind == "skip" {
			res.Skipped++
			continue
		}
		if kind != "" {
			res.Found, res.Kind, res.Label, res.Detail = true, kind, label, detail
			maxDump = 40000
			res.Inputs = map[string]string{}
			for k, p := range j.Params {
				dump(res.Inputs, p, cur.snap[k], 0)
			}
			res.Inputs["ghost"] = fmt.Sprint(ghost)
			return
		}
		if scaleOK[g.scale] < 100 {
			scaleOK[g.scale] += 4 >> uint(g.scale)
		}
		if len(seen) < 5000 {
			m := map[string]string{}
			for k, p := range j.Params {
				dump(m, p, cur.snap[k], 0)
			}
			ks := []string{}
			for k, v := range m {
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			seen[strings.Join(ks, ";")] = true
			res.Distinct = len(seen)
		}
	}
}

func once(f reflect.Value, in []reflect.Value, params []string) (kind, label, detail string) {
	done := make(chan [3]string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case skip:
					done <- [3]string{"skip", "", ""}
				case failure:
					done <- [3]string{"postcondition", x.label, "clause is false"}
				default:
					st := string(debug.Stack())
					// a panic raised by evaluating the precondition is not a finding
					done <- [3]string{"panic", fmt.Sprint(e), trim(st)}
				}
			}
		}()
		f.Call(in)
		if cur.on {
			for k := range in {
				if r := frameDiff(params[k], cur.init[k], cur.snap[k]); r != "" {
					done <- [3]string{"frame", "unchanged: " + r, "location changed but is not in the frame"}
					return
				}
			}
		}
		done <- [3]string{"", "", ""}
	}()
	select {
	case r := <-done:
		return r[0], r[1], r[2]
	case <-time.After(20 * time.Second):
		return "timeout", "does not return within 20 s", ""
	}
}

func trim(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (g *gen) model(name string) (int64, bool) {
	if g.m == nil {
		return 0, false
	}
	v, ok := g.m.Ints[name]
	return v, ok
}

func (g *gen) num(name, alt string, lo, hi int64) int64 {
	if v, ok := g.model(name); ok {
		return v
	}
	clamp := func(b Bound) {
		if b.Lo != nil && *b.Lo > lo {
			lo = *b.Lo
		}
		if b.Hi != nil && *b.Hi < hi {
			hi = *b.Hi
		}
	}
	clamp(g.b[name])
	if alt != "" {
		clamp(g.b[alt])
	}
	if lo > hi {
		return lo
	}
	// values near the ends of int only show where machine arithmetic leaves the integers
	const big = 1 << 34
	if lo < -big && hi >= -big {
		lo = -big
	}
	if hi > big && lo <= big {
		hi = big
	}
	in := func(v int64) int64 {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	if g.fixed {
		return in(0)
	}
	if strings.HasSuffix(name, ".Position") {
		return in(int64(g.r.Intn(64)))
	}
	span := uint64(hi) - uint64(lo)
	uni := func() int64 {
		if span == math.MaxUint64 {
			return int64(g.r.Uint64())
		}
		return int64(uint64(lo) + g.r.Uint64()%(span+1))
	}
	if span <= 64 {
		return uni()
	}
	switch g.r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return uni()
	case 3:
		return in(int64(g.r.Intn(64)) - 8)
	case 4:
		return in(int64(1)<<uint(g.r.Intn(32)) + int64(g.r.Intn(3)) - 1)
	case 5:
		return in(-(int64(1) << uint(g.r.Intn(32))) + int64(g.r.Intn(3)) - 1)
	case 6:
		return in(int64(g.r.Intn(1 << 16)))
	}
	return in(int64(g.r.Intn(8)))
}

func (g *gen) fill(v reflect.Value, name string, depth int) {
	v = unlock(v)
	switch v.Kind() {
	case reflect.Bool:
		if x, ok := g.model(name); ok {
			v.SetBool(x != 0)
		} else if !g.fixed {
			v.SetBool(g.r.Intn(2) == 1)
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		bits := v.Type().Bits()
		v.SetInt(g.num(name, altName(name), -1<<(bits-1), 1<<(bits-1)-1))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		bits := v.Type().Bits()
		if bits == 64 {
			v.SetUint(uint64(g.num(name, altName(name), 0, math.MaxInt64)))
		} else {
			v.SetUint(uint64(g.num(name, altName(name), 0, 1<<bits-1)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if fn := name + "." + v.Type().Field(i).Name; relevant(fn) {
				g.fill(v.Field(i), fn, depth)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), g.elem(name, i), depth)
		}
	case reflect.Slice:
		ln, ok := g.model("len(" + name + ")")
		if !ok {
			lo, hi := int64(0), int64(40)
			b := g.b["len("+name+")"]
			if b.Lo != nil {
				lo = *b.Lo
				hi = lo + 40
			}
			if b.Hi != nil && *b.Hi < hi {
				hi = *b.Hi
			}
			if v.Type().Elem().Kind() == reflect.Uint8 {
				hi = lo + scales[g.scale]
				if b.Hi != nil && *b.Hi < hi {
					hi = *b.Hi
				}
				if hi < lo {
					hi = lo
				}
				if lo == 0 && g.scale > 0 && hi > scales[g.scale-1] {
					lo = scales[g.scale-1]
				}
			} else if depth > 0 && hi > lo+2 && b.Hi == nil && composite(v.Type().Elem()) {
				hi = lo + 2
			}
			if g.fixed {
				hi = lo
			}
			ln = lo
			if hi > lo {
				ln += g.r.Int63n(hi - lo + 1)
			}
		}
		if ln > 1<<23 || ln < 0 {
			ln = 1 << 14
		}
		s := reflect.MakeSlice(v.Type(), int(ln), int(ln))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			bs := make([]byte, ln)
			for i := range bs {
				var b byte
				if !g.fixed {
					x := g.r.Uint32()
					switch g.mode {
					case 0:
						b = byte(x) & byte(x>>8) & byte(x>>16)
					case 1:
						b = byte(x) | byte(x>>8) | byte(x>>16)
					case 2:
						b = byte(x) & byte(x>>8)
					default:
						b = byte(x)
					}
				}
				if g.m != nil {
					if x, ok := g.model(fmt.Sprintf("%s[%d]", name, i)); ok {
						b = byte(x)
					}
				}
				bs[i] = b
			}
			if g.mode >= 3 && !g.fixed {
				// runs of equal bits at the start
				for p := int64(0); p < 120; {
					n := int64(1 + g.r.Intn(12))
					if g.r.Intn(3) == 0 {
						p += n
						continue
					}
					PutBits(bs, p, n, int64(g.r.Intn(2))*(1<<12-1))
					p += n
				}
			}
			if g.m != nil {
				for _, a := range g.m.Apps {
					if f := realisers[a.Name]; f != nil && a.Slice == name {
						f(bs, a.Args, a.Val)
					}
				}
				for _, b := range g.m.Bits {
					if b.Slice == name {
						PutBits(bs, b.Pos, b.N, int64(b.Val))
					}
				}
			}
			reflect.Copy(s, reflect.ValueOf(bs).Convert(reflect.SliceOf(v.Type().Elem())))
		} else if depth < 40 {
			for i := 0; i < int(ln); i++ {
				g.fill(s.Index(i), g.elem(name, i), depth+1)
			}
		}
		v.Set(s)
	case reflect.Pointer:
		if depth > 6 {
			return
		}
		n := reflect.New(v.Type().Elem())
		g.fill(n.Elem(), name, depth+1)
		v.Set(n)
	}
}

// elem names an element; without a model the index does not matter
func (g *gen) elem(name string, i int) string {
	if g.m == nil {
		return name + "[]"
	}
	return fmt.Sprintf("%s[%d]", name, i)
}

// altName turns a[3] into a[] (bounds on all elements)
func altName(n string) string {
	if strings.HasSuffix(n, "]") {
		if i := strings.LastIndex(n, "["); i >= 0 {
			return n[:i] + "[]"
		}
	}
	return ""
}

var maxDump = 400

func dump(m map[string]string, name string, v reflect.Value, depth int) {
	v = unlock(v)
	if len(m) > maxDump {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if fn := name + "." + v.Type().Field(i).Name; relevant(fn) {
				dump(m, fn, v.Field(i), depth)
			}
		}
	case reflect.Pointer:
		if !v.IsNil() && depth < 6 {
			dump(m, name, v.Elem(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			b := v.Bytes()
			s := fmt.Sprintf("%x", b)
			if len(b) > 256 {
				s = fmt.Sprintf("%x... (%d bytes)", b[:256], len(b))
			}
			m[name] = "hex:" + s
			return
		}
		m["len("+name+")"] = fmt.Sprint(v.Len())
		for i := 0; i < v.Len() && i < 64; i++ {
			dump(m, fmt.Sprintf("%s[%d]", name, i), v.Index(i), depth)
		}
	case reflect.Bool:
		if v.Bool() {
			m[name] = "true"
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 {
			m[name] = fmt.Sprint(v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			m[name] = fmt.Sprint(v.Uint())
		}
	}
}

func composite(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Array, reflect.Struct, reflect.Pointer:
		return true
	}
	return false
}
