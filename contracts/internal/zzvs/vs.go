// Package zzvs is the contract language. The verifier interprets these calls symbolically; the
// bodies below are their run-time meaning, used only to replay a failed obligation on the real code.
package zzvs

import (
	"bytes"
	"fmt"
	"reflect"
	"unsafe"
)

type skip struct{}
type failure struct{ label string }

type modLoc struct{ lo, hi uintptr }

var cur struct {
	on   bool
	mods []modLoc
	init []reflect.Value // addressable originals
	snap []reflect.Value
	rand func(n int) int // set while random inputs are tried
}

// Param records inside Repair that the k-th parameter of the contract got a new value.
func Param(k int, v interface{}) { cur.init[k].Set(reflect.ValueOf(v)) }

// Repair turns random memory into memory that meets the precondition; only the search for failing
// inputs runs it. The verifier ignores it.
func Repair(f func(rand func(n int) int)) {
	if cur.rand == nil {
		return
	}
	f(cur.rand)
	for i := range cur.init {
		c := reflect.New(cur.init[i].Type()).Elem()
		clone(c, cur.init[i])
		cur.snap[i] = c
	}
}

// Requires states a precondition of the target.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Ensures states a named postcondition.
func Ensures(label string, c bool) {
	if !c {
		panic(failure{label})
	}
}

// Assert states a named intermediate fact (a lemma step).
func Assert(label string, c bool) {
	if !c {
		panic(failure{label})
	}
}

// Modifies lists the locations the target may change (pointers to locations, or slices).
func Modifies(locs ...any) {
	for _, l := range locs {
		v := reflect.ValueOf(l)
		switch v.Kind() {
		case reflect.Pointer:
			p := v.Pointer()
			cur.mods = append(cur.mods, modLoc{p, p + v.Type().Elem().Size()})
			if v.Elem().Kind() == reflect.Slice {
				cur.mods = append(cur.mods, sliceMods(v.Elem())...)
			}
		case reflect.Slice:
			cur.mods = append(cur.mods, sliceMods(v)...)
		}
	}
}

func sliceMods(v reflect.Value) []modLoc {
	if v.Len() == 0 {
		return nil
	}
	p := v.Pointer()
	out := []modLoc{{p, p + uintptr(v.Cap())*v.Type().Elem().Size()}}
	if v.Type().Elem().Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			out = append(out, sliceMods(v.Index(i))...)
		}
	}
	return out
}

func Split(x, lo, hi int)    {}
func SplitBool(b bool)       {}
func Transparent(fs ...any)  {}
func Unfold(x any)           {}
func MaxUnroll(n int)        {}
func NoFrame()               { cur.on = false }
func Implies(a, b bool) bool { return !a || b }

func Eq(a, b any) bool { return deepEq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func Forall(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Dims: the nested slice has exactly these lengths.
func Dims(s any, ds ...int) bool { return dims(reflect.ValueOf(s), ds) }

func dims(v reflect.Value, ds []int) bool {
	if len(ds) == 0 {
		return true
	}
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array || v.Len() != ds[0] {
		return false
	}
	if len(ds) == 1 {
		return true
	}
	for i := 0; i < v.Len(); i++ {
		if !dims(v.Index(i), ds[1:]) {
			return false
		}
	}
	return true
}

// Snap is a deep copy.
func Snap[T any](x T) T {
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	clone(v, reflect.ValueOf(&x).Elem())
	return *(v.Addr().Interface().(*T))
}

func unlock(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

var plainOf = map[reflect.Type]bool{}

// plain: values of the type hold no references
func plain(t reflect.Type) bool {
	if v, ok := plainOf[t]; ok {
		return v
	}
	r := false
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		r = true
	case reflect.Array:
		r = plain(t.Elem())
	case reflect.Struct:
		r = true
		for i := 0; i < t.NumField(); i++ {
			r = r && plain(t.Field(i).Type)
		}
	}
	plainOf[t] = r
	return r
}

func sameMemory(a, b reflect.Value) bool {
	n := int(a.Type().Size())
	if n == 0 {
		return true
	}
	return bytes.Equal(unsafe.Slice((*byte)(unsafe.Pointer(a.UnsafeAddr())), n), unsafe.Slice((*byte)(unsafe.Pointer(b.UnsafeAddr())), n))
}

func clone(d, s reflect.Value) {
	d, s = unlock(d), unlock(s)
	if plain(s.Type()) {
		d.Set(s)
		return
	}
	switch s.Kind() {
	case reflect.Struct:
		for i := 0; i < s.NumField(); i++ {
			clone(d.Field(i), s.Field(i))
		}
	case reflect.Array:
		for i := 0; i < s.Len(); i++ {
			clone(d.Index(i), s.Index(i))
		}
	case reflect.Slice:
		if s.IsNil() {
			return
		}
		n := reflect.MakeSlice(s.Type(), s.Len(), s.Len())
		if plain(s.Type().Elem()) {
			reflect.Copy(n, s)
			d.Set(n)
			return
		}
		for i := 0; i < s.Len(); i++ {
			clone(n.Index(i), s.Index(i))
		}
		d.Set(n)
	case reflect.Pointer:
		if s.IsNil() {
			return
		}
		n := reflect.New(s.Type().Elem())
		clone(n.Elem(), s.Elem())
		d.Set(n)
	default:
		d.Set(s)
	}
}

func deepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	a, b = unlock(a), unlock(b)
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Func, reflect.Interface, reflect.Map, reflect.Chan:
		return true
	}
	return true
}

// frameDiff reports the first location reachable from the inputs that changed and is not listed in Modifies.
func frameDiff(path string, live, old reflect.Value) string {
	live, old = unlock(live), unlock(old)
	if live.CanAddr() {
		if old.CanAddr() && plain(live.Type()) && sameMemory(live, old) {
			return ""
		}
		p := live.UnsafeAddr()
		for _, m := range cur.mods {
			if p >= m.lo && p+live.Type().Size() <= m.hi && live.Type().Size() > 0 {
				return ""
			}
		}
	}
	switch live.Kind() {
	case reflect.Struct:
		for i := 0; i < live.NumField(); i++ {
			if r := frameDiff(path+"."+live.Type().Field(i).Name, live.Field(i), old.Field(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Slice:
		if live.Len() != old.Len() {
			return path
		}
		if live.Len() > 0 && plain(live.Type().Elem()) {
			n := live.Len() * int(live.Type().Elem().Size())
			if n == 0 || bytes.Equal(unsafe.Slice((*byte)(live.UnsafePointer()), n), unsafe.Slice((*byte)(old.UnsafePointer()), n)) {
				return ""
			}
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < live.Len(); i++ {
			if r := frameDiff(fmt.Sprintf("%s[%d]", path, i), live.Index(i), old.Index(i)); r != "" {
				return r
			}
		}
		return ""
	case reflect.Pointer:
		if live.IsNil() || old.IsNil() {
			if live.IsNil() != old.IsNil() {
				return path
			}
			return ""
		}
		return frameDiff(path, live.Elem(), old.Elem())
	}
	if !deepEq(live, old) {
		return path
	}
	return ""
}

var ghost int

// Ghost is an arbitrary number, the same throughout one run of a contract.
func Ghost() int { return ghost }

var memo = map[string]int{}

// Cached and Cache memoise recursive specification functions at run time; the verifier ignores them.
func Cached(key string, args ...int) (int, bool) {
	v, ok := memo[fmt.Sprint(key, args)]
	return v, ok
}

func Cache(v int, key string, args ...int) int {
	memo[fmt.Sprint(key, args)] = v
	return v
}

var realisers = map[string]func(data []byte, args []int64, v int64){}

// Realise registers how to write bytes that give an opaque function of a byte slice a wanted value;
// replay uses it to turn a verifier's model into an input.
func Realise(name string, f func(data []byte, args []int64, v int64)) { realisers[name] = f }

// PutBits writes the n-bit number v at bit pos.
func PutBits(data []byte, pos, n, v int64) {
	for k := int64(0); k < n; k++ {
		p := pos + k
		if p < 0 || p/8 >= int64(len(data)) {
			continue
		}
		m := byte(0x80) >> uint(p%8)
		data[p/8] &^= m
		if k > n-64 && v>>uint(n-1-k)&1 == 1 {
			data[p/8] |= m
		}
	}
}

// Apart: no two slices reachable from own share storage, nor does one with a slice reachable from rest.
func Apart(own any, rest ...any) bool {
	seen := map[uintptr]bool{}
	ok := true
	storage(reflect.ValueOf(own), func(p uintptr) {
		ok = ok && !seen[p]
		seen[p] = true
	})
	for _, r := range rest {
		storage(reflect.ValueOf(r), func(p uintptr) { ok = ok && !seen[p] })
	}
	return ok
}

func storage(v reflect.Value, visit func(uintptr)) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			storage(v.Field(i), visit)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			visit(v.Pointer())
		}
		if k := v.Type().Elem().Kind(); k == reflect.Slice || k == reflect.Array || k == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				storage(v.Index(i), visit)
			}
		}
	}
}
