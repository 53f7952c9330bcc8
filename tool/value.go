package main

// Symbolic Go values, heap cells and program states.

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"
)

type Value interface{}

type VStruct struct {
	f []Value
	t *types.Struct
}
type VVec struct{ e []Value } // arrays and backing stores of known length
type VArrT struct {
	t      *Term
	isBool bool
} // backing store of unknown length, scalar elements (bools as 0/1)
type VSlice struct {
	cell         int
	path         []pe
	off, ln, cap *Term
	nilc         *Term
}
type VPtr struct {
	cell int
	path []pe
	nilc *Term
}
type VChoice struct {
	c    *Term
	a, b Value
}
type VFunc struct {
	lit  *ast.FuncLit
	fr   *frame
	obj  *types.Func
	recv Value
}
type VFloat struct {
	n   *Term
	den int // value = n / 2^den
}
type VStr struct {
	s     string
	known bool
}
type VTuple []Value
type VOpaque struct{ name string }
type VLazy struct {
	name string
	t    types.Type
}
type VNil struct{}

type pe struct {
	field int   // >=0: struct field
	idx   *Term // element
}

type State struct {
	heap map[int]Value
	pc   *Term
}

func (s *State) clone() *State {
	h := make(map[int]Value, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.pc}
}

type unsup struct{ msg string }

func (ex *Exec) fail(n ast.Node, f string, a ...any) {
	p := ""
	if n != nil {
		p = ex.w.pos(n.Pos()) + ": "
	}
	panic(unsup{p + fmt.Sprintf(f, a...)})
}

func intRange(b *types.Basic) (lo, hi *big.Int, unsigned bool, ok bool) {
	u := func(n int) (*big.Int, *big.Int, bool, bool) { return b0, new(big.Int).Sub(p2(n), b1), true, true }
	s := func(n int) (*big.Int, *big.Int, bool, bool) {
		return new(big.Int).Neg(p2(n - 1)), new(big.Int).Sub(p2(n-1), b1), false, true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false, false
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}
func isInt(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func mantissa(t types.Type) int {
	if b := basicOf(t); b != nil && b.Kind() == types.Float32 {
		return 24
	}
	return 53
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func (ex *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.m.F
		case u.Info()&types.IsInteger != 0:
			return ex.m.I(0)
		case u.Info()&types.IsFloat != 0:
			return &VFloat{ex.m.I(0), 0}
		case u.Info()&types.IsString != 0:
			return &VStr{"", true}
		}
	case *types.Struct:
		v := &VStruct{t: u}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, ex.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return ex.zeroVec(u.Elem(), int(u.Len()))
	case *types.Slice:
		return ex.nilSlice()
	case *types.Pointer:
		return &VPtr{cell: -1, nilc: ex.m.T}
	case *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return VNil{}
	}
	ex.fail(nil, "zero value of %s", t)
	return nil
}

func (ex *Exec) nilSlice() *VSlice {
	z := ex.m.I(0)
	return &VSlice{cell: -1, off: z, ln: z, cap: z, nilc: ex.m.T}
}

func (ex *Exec) zeroVec(el types.Type, n int) *VVec {
	if n > 2000000 {
		ex.fail(nil, "array of %d elements", n)
	}
	v := &VVec{e: make([]Value, n)}
	z := ex.zero(el)
	for i := range v.e {
		v.e[i] = z
	}
	return v
}

// sym makes a symbolic value of a type; composite leaves stay lazy.
func (ex *Exec) sym(name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if c, ok := ex.fixed[name]; ok {
				return ex.m.Bool(c != 0)
			}
			ex.inputs[name] = true
			return ex.m.BVar(name)
		case u.Info()&types.IsInteger != 0:
			if c, ok := ex.fixed[name]; ok {
				return ex.m.I(c)
			}
			lo, hi, _, _ := intRange(u)
			if b, ok := ex.bounds[name]; ok {
				if b.lo != nil && b.lo.Cmp(lo) > 0 {
					lo = b.lo
				}
				if b.hi != nil && b.hi.Cmp(hi) < 0 {
					hi = b.hi
				}
			}
			ex.inputs[name] = true
			if lo.Cmp(hi) == 0 {
				return ex.m.C(lo)
			}
			return ex.m.Var(name, lo, hi)
		case u.Info()&types.IsString != 0:
			return &VStr{}
		}
	case *types.Struct:
		v := &VStruct{t: u}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, ex.lazyOr(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() > 100000 {
			ex.fail(nil, "symbolic array of %d elements", u.Len())
		}
		v := &VVec{}
		for i := int64(0); i < u.Len(); i++ {
			v.e = append(v.e, ex.lazyOr(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
		}
		return v
	case *types.Slice:
		ln := ex.symLen(name)
		cell, ok := ex.lazyCells[name]
		if !ok {
			cell = ex.newCell()
			ex.lazyCells[name] = cell
			ex.cellName[cell] = name + "[]"
			if eb := basicOf(u.Elem()); eb != nil && eb.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				if n, ok := ln.i64(); ok && n <= 4096 {
					v := &VVec{}
					for i := int64(0); i < n; i++ {
						v.e = append(v.e, ex.sym(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
					}
					ex.base[cell] = v
				} else {
					lo, hi, _, _ := intRange(eb)
					if eb.Info()&types.IsBoolean != 0 {
						lo, hi = b0, b1
					}
					if b, ok := ex.bounds[name+"[]"]; ok {
						if b.lo != nil && b.lo.Cmp(lo) > 0 {
							lo = b.lo
						}
						if b.hi != nil && b.hi.Cmp(hi) < 0 {
							hi = b.hi
						}
					}
					ex.inputs[name+"[]"] = true
					ex.base[cell] = &VArrT{ex.m.AVar(name+"[]", lo, hi), eb.Info()&types.IsBoolean != 0}
				}
			} else {
				n, ok := ln.i64()
				if !ok || n > 4096 {
					ex.base[cell] = &VOpaque{"contents of " + name + " (composite elements, unknown length)"}
				} else {
					v := &VVec{}
					for i := int64(0); i < n; i++ {
						v.e = append(v.e, ex.lazyOr(fmt.Sprintf("%s[%d]", name, i), u.Elem()))
					}
					ex.base[cell] = v
				}
			}
		}
		return &VSlice{cell: cell, off: ex.m.I(0), ln: ln, cap: ln, nilc: ex.m.F}
	case *types.Pointer:
		cell, ok := ex.lazyCells[name]
		if !ok {
			cell = ex.newCell()
			ex.lazyCells[name] = cell
			ex.cellName[cell] = "*" + name
			ex.base[cell] = ex.lazyOr(name, u.Elem())
		}
		return &VPtr{cell: cell, nilc: ex.m.F}
	case *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return &VOpaque{name}
	}
	return &VOpaque{name}
}

var lenMax = big.NewInt(1 << 40)

func (ex *Exec) symLen(name string) *Term {
	n := "len(" + name + ")"
	if c, ok := ex.fixed[n]; ok {
		return ex.m.I(c)
	}
	lo, hi := b0, lenMax
	if b, ok := ex.bounds[n]; ok {
		if b.lo != nil && b.lo.Cmp(lo) > 0 {
			lo = b.lo
		}
		if b.hi != nil && b.hi.Cmp(hi) < 0 {
			hi = b.hi
		}
	}
	ex.inputs[n] = true
	if lo.Cmp(hi) == 0 {
		return ex.m.C(lo)
	}
	return ex.m.Var(n, lo, hi)
}

func (ex *Exec) lazyOr(name string, t types.Type) Value {
	return &VLazy{name, t}
}

func (ex *Exec) force(v Value) Value {
	if l, ok := v.(*VLazy); ok {
		if r, ok := ex.forced[l.name]; ok {
			return r
		}
		r := ex.sym(l.name, l.t)
		ex.forced[l.name] = r
		return r
	}
	return v
}

func (ex *Exec) newCell() int {
	ex.nextCell++
	return ex.nextCell
}

func (ex *Exec) get(st *State, cell int) Value {
	if v, ok := st.heap[cell]; ok {
		return v
	}
	if v, ok := ex.base[cell]; ok {
		return v
	}
	ex.fail(nil, "dead cell %d", cell)
	return nil
}

// ---- paths

func (ex *Exec) readPath(v Value, path []pe) Value {
	v = ex.force(v)
	for i, p := range path {
		switch x := v.(type) {
		case *VStruct:
			v = ex.force(x.f[p.field])
		case *VVec:
			if n, ok := p.idx.i64(); ok {
				if n < 0 || int(n) >= len(x.e) {
					return &VOpaque{outOfRange}
				}
				v = ex.force(x.e[n])
			} else {
				return ex.readVecSym(x, p.idx, path[i+1:])
			}
		case *VArrT:
			t := ex.m.Select(x.t, p.idx)
			if x.isBool {
				return ex.m.Not(ex.m.Eq0(t))
			}
			v = t
		case *VChoice:
			return ex.mergeV(x.c, ex.readPath(x.a, path[i:]), ex.readPath(x.b, path[i:]))
		case *VOpaque:
			return x
		default:
			ex.fail(nil, "read path in %T", v)
		}
	}
	return ex.force(v)
}

func (ex *Exec) readVecSym(x *VVec, idx *Term, rest []pe) Value {
	lo, hi := 0, len(x.e)-1
	if idx.lo != nil && idx.lo.IsInt64() {
		lo = max(lo, int(min(idx.lo.Int64(), int64(len(x.e)))))
	}
	if idx.hi != nil && idx.hi.IsInt64() {
		hi = min(hi, int(max(idx.hi.Int64(), -1)))
	}
	if hi < lo {
		return &VOpaque{outOfRange}
	}
	// constant tables
	if len(rest) == 0 && hi-lo >= 4 {
		all := true
		for _, e := range x.e {
			if t, ok := e.(*Term); !ok || !t.isC() {
				all = false
				break
			}
		}
		if all {
			vals := make([]*big.Int, len(x.e))
			for i, e := range x.e {
				vals[i] = e.(*Term).k
			}
			return ex.m.Select(ex.m.Table(vals), idx)
		}
	}
	if hi-lo > 5000 {
		ex.fail(nil, "symbolic index into %d elements", hi-lo+1)
	}
	acc := ex.readPath(x.e[hi], rest)
	for i := hi - 1; i >= lo; i-- {
		acc = ex.mergeV(ex.m.Eq(idx, ex.m.I(int64(i))), ex.readPath(x.e[i], rest), acc)
	}
	return acc
}

func (ex *Exec) writePath(v Value, path []pe, nv Value, guard *Term) Value {
	if len(path) == 0 {
		if guard == ex.m.T {
			return nv
		}
		return ex.mergeV(guard, nv, ex.force(v))
	}
	v = ex.force(v)
	p := path[0]
	switch x := v.(type) {
	case *VStruct:
		n := &VStruct{f: append([]Value(nil), x.f...), t: x.t}
		n.f[p.field] = ex.writePath(x.f[p.field], path[1:], nv, guard)
		return n
	case *VVec:
		if k, ok := p.idx.i64(); ok {
			if k < 0 || int(k) >= len(x.e) {
				return x // excluded by the index obligation
			}
			n := &VVec{e: append([]Value(nil), x.e...)}
			n.e[k] = ex.writePath(x.e[k], path[1:], nv, guard)
			return n
		}
		if len(x.e) > 5000 {
			ex.fail(nil, "symbolic store into %d elements", len(x.e))
		}
		n := &VVec{e: append([]Value(nil), x.e...)}
		for i := range n.e {
			g := ex.m.And(guard, ex.m.Eq(p.idx, ex.m.I(int64(i))))
			if g == ex.m.F {
				continue
			}
			n.e[i] = ex.writePath(x.e[i], path[1:], nv, g)
		}
		return n
	case *VArrT:
		t := ex.scalarT(nv)
		if x.isBool {
			t = ex.m.Ite(t, ex.m.I(1), ex.m.I(0))
		}
		s := ex.m.Store(x.t, p.idx, t)
		if guard != ex.m.T {
			s = ex.m.Ite(guard, s, x.t)
		}
		return &VArrT{s, x.isBool}
	case *VOpaque:
		ex.fail(nil, "store into %s", x.name)
	}
	ex.fail(nil, "write path in %T", v)
	return nil
}

func (ex *Exec) scalarT(v Value) *Term {
	v = ex.force(v)
	if t, ok := v.(*Term); ok {
		return t
	}
	if o, ok := v.(*VOpaque); ok {
		ex.fail(nil, "use of %s", o.name)
	}
	ex.fail(nil, "scalar expected, got %T", v)
	return nil
}

// ---- merging

const outOfRange = "out of range element"

func (ex *Exec) mergeV(c *Term, a, b Value) Value {
	// an element read out of range is unreachable: reads carry their own index obligation
	if o, ok := a.(*VOpaque); ok && o.name == outOfRange {
		return b
	}
	if o, ok := b.(*VOpaque); ok && o.name == outOfRange {
		return a
	}
	if c == ex.m.T {
		return a
	}
	if c == ex.m.F {
		return b
	}
	if la, ok := a.(*VLazy); ok {
		if lb, ok := b.(*VLazy); ok && la.name == lb.name {
			return a
		}
	}
	a, b = ex.force(a), ex.force(b)
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort == y.sort {
				return ex.m.Ite(c, x, y)
			}
		}
	case *VFloat:
		if y, ok := b.(*VFloat); ok {
			d := max(x.den, y.den)
			return &VFloat{ex.m.Ite(c, ex.m.Scale(x.n, p2(d-x.den)), ex.m.Scale(y.n, p2(d-y.den))), d}
		}
	case *VStruct:
		if y, ok := b.(*VStruct); ok && len(x.f) == len(y.f) {
			n := &VStruct{t: x.t, f: make([]Value, len(x.f))}
			for i := range x.f {
				n.f[i] = ex.mergeV(c, x.f[i], y.f[i])
			}
			return n
		}
	case *VVec:
		if y, ok := b.(*VVec); ok && len(x.e) == len(y.e) {
			n := &VVec{e: make([]Value, len(x.e))}
			for i := range x.e {
				n.e[i] = ex.mergeV(c, x.e[i], y.e[i])
			}
			return n
		}
	case *VArrT:
		if y, ok := b.(*VArrT); ok {
			return &VArrT{ex.m.Ite(c, x.t, y.t), x.isBool}
		}
	case *VSlice:
		if y, ok := b.(*VSlice); ok && x.cell == y.cell && samePath(x.path, y.path) {
			return &VSlice{x.cell, x.path, ex.m.Ite(c, x.off, y.off), ex.m.Ite(c, x.ln, y.ln), ex.m.Ite(c, x.cap, y.cap), ex.m.Ite(c, x.nilc, y.nilc)}
		} else if ok && (x.cell < 0 || y.cell < 0) && (x.cell >= 0 || y.cell >= 0) {
			// one side nil/empty without storage: keep the other's storage
			k := x
			if k.cell < 0 {
				k = y
			}
			return &VSlice{k.cell, k.path, ex.m.Ite(c, x.off, y.off), ex.m.Ite(c, x.ln, y.ln), ex.m.Ite(c, x.cap, y.cap), ex.m.Ite(c, x.nilc, y.nilc)}
		}
		return &VChoice{c, a, b}
	case *VPtr:
		if y, ok := b.(*VPtr); ok && x.cell == y.cell && samePath(x.path, y.path) {
			return &VPtr{x.cell, x.path, ex.m.Ite(c, x.nilc, y.nilc)}
		} else if ok && (x.cell < 0 || y.cell < 0) {
			k := x
			if k.cell < 0 {
				k = y
			}
			return &VPtr{k.cell, k.path, ex.m.Ite(c, x.nilc, y.nilc)}
		}
		return &VChoice{c, a, b}
	case *VStr:
		if y, ok := b.(*VStr); ok && x.known && y.known && x.s == y.s {
			return a
		}
		return &VStr{}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x) == len(y) {
			n := make(VTuple, len(x))
			for i := range x {
				n[i] = ex.mergeV(c, x[i], y[i])
			}
			return n
		}
	case *VOpaque:
		if y, ok := b.(*VOpaque); ok && x.name == y.name {
			return a
		}
		return &VOpaque{"merge of " + x.name}
	}
	switch b.(type) {
	case *VOpaque:
		return b
	}
	return &VChoice{c, a, b}
}

func samePath(a, b []pe) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// merge of two states: s1 under condition c, else s2
func (ex *Exec) mergeS(c *Term, s1, s2 *State, pc *Term) *State {
	if s1 == nil {
		return s2
	}
	if s2 == nil {
		return s1
	}
	n := &State{heap: make(map[int]Value, len(s1.heap)), pc: pc}
	for k, v := range s1.heap {
		v2, ok := s2.heap[k]
		if !ok {
			if bv, ok := ex.base[k]; ok {
				v2 = bv
			} else {
				n.heap[k] = v
				continue
			}
		}
		if sameV(v, v2) {
			n.heap[k] = v
			continue
		}
		n.heap[k] = ex.mergeV(c, v, v2)
	}
	for k, v := range s2.heap {
		if _, ok := s1.heap[k]; ok {
			continue
		}
		if bv, ok := ex.base[k]; ok {
			n.heap[k] = ex.mergeV(c, bv, v)
		} else {
			n.heap[k] = v
		}
	}
	return n
}

func sameV(a, b Value) bool {
	switch a.(type) {
	case VTuple, VNil:
		return false
	}
	switch b.(type) {
	case VTuple, VNil:
		return false
	}
	return a == b
}

func (m *TM) strip(c, pc *Term) *Term {
	// drop conjuncts of c that pc already contains
	have := map[*Term]bool{}
	for _, l := range m.Lits(pc) {
		have[l] = true
	}
	var keep []*Term
	for _, l := range m.Lits(c) {
		if !have[l] {
			keep = append(keep, l)
		}
	}
	return m.And(keep...)
}

// orPC is the disjunction of path conditions with the common prefix factored out.
func (m *TM) orPC(a, b *Term) *Term {
	if a == b {
		return a
	}
	in := map[*Term]bool{}
	for _, l := range m.Lits(a) {
		in[l] = true
	}
	var com, rb []*Term
	isCom := map[*Term]bool{}
	for _, l := range m.Lits(b) {
		if in[l] {
			com = append(com, l)
			isCom[l] = true
		} else {
			rb = append(rb, l)
		}
	}
	var ra []*Term
	for _, l := range m.Lits(a) {
		if !isCom[l] {
			ra = append(ra, l)
		}
	}
	or := m.Or(m.And(ra...), m.And(rb...))
	return m.And(append(com, or)...)
}

type exit struct {
	st   *State
	vals []Value
}

// mergeExits folds a list of mutually exclusive exits into one.
func (ex *Exec) mergeExits(base *Term, xs []exit) *exit {
	var live []exit
	for _, x := range xs {
		if x.st != nil && x.st.pc != ex.m.F {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return &live[0]
	}
	m := ex.m
	conds := make([]*Term, len(live))
	acc := base
	pc := live[0].st.pc
	for i, x := range live {
		conds[i] = m.Under(m.strip(x.st.pc, base), acc)
		conds[i] = m.strip(conds[i], acc)
		acc = m.And(acc, m.Not(conds[i]))
		if i > 0 {
			pc = m.orPC(pc, x.st.pc)
		}
	}
	last := live[len(live)-1]
	res := &exit{last.st, last.vals}
	for i := len(live) - 2; i >= 0; i-- {
		x := live[i]
		n := &exit{st: ex.mergeS(conds[i], x.st, res.st, pc)}
		if x.vals != nil {
			n.vals = make([]Value, len(x.vals))
			for j := range x.vals {
				n.vals[j] = ex.mergeV(conds[i], x.vals[j], res.vals[j])
			}
		}
		res = n
	}
	res.st.pc = pc
	return res
}

func sortedKeys[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
