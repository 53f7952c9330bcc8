package main

// Calls: builtins, models of library functions, inlining, contracts at call sites, and the
// contract language (package vs).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// cctx is one run of a contract function.
type cctx struct {
	c       *Contract
	proof   bool
	called  bool
	mods    []Value
	resVars map[types.Object]bool
	site    ast.Node
	pre     *State // state just before the target call
	post    *State
	params  map[types.Object]bool
	out     VTuple // call site: the values standing for the results
}

type splitReq struct {
	name   string
	lo, hi int64
}
type stopBounds struct{}

func (ex *Exec) call(st *State, fr *frame, x *ast.CallExpr) Value {
	info := fr.pkg.info
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		v := ex.evalTo(st, fr, x.Args[0], tv.Type)
		return ex.conv(st, x, v, ex.typeOf(fr, x.Args[0]), tv.Type)
	}
	fun := ast.Unparen(x.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		if id := identOf(ix.X); id != nil {
			if _, ok := info.Instances[id]; ok {
				fun = ix.X
			}
		}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return ex.builtin(st, fr, x, b.Name())
		}
	}
	var callee *types.Func
	var recv Value
	var selx *ast.SelectorExpr
	switch f := fun.(type) {
	case *ast.Ident:
		callee, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			if sel.Kind() == types.MethodVal {
				callee, _ = sel.Obj().(*types.Func)
				selx = f
			}
		} else {
			callee, _ = info.Uses[f.Sel].(*types.Func)
		}
	}
	if callee != nil {
		callee = callee.Origin()
		path := ""
		if callee.Pkg() != nil {
			path = callee.Pkg().Path()
		}
		switch {
		case strings.HasSuffix(path, "/zzvs"):
			return ex.vsCall(st, fr, x, callee.Name())
		case path == "go.uber.org/zap" || strings.HasSuffix(path, "/internal/logger"):
			// logging: no effect on the decoder's state
			ex.assume["logging calls have no effect on decoder state"] = true
			for _, a := range x.Args {
				if hasCall(fr, a) {
					if c, ok := a.(*ast.CallExpr); ok {
						for _, b := range c.Args {
							if !hasCall(fr, b) {
								ex.eval(st, fr, b)
							}
						}
					}
				}
			}
			return &VOpaque{"logger result"}
		}
		if selx != nil {
			sg := callee.Type().(*types.Signature)
			if _, isIf := sg.Recv().Type().Underlying().(*types.Interface); isIf {
				ex.fail(x, "interface method call %s", callee.Name())
			}
			recv = ex.recvVal(st, fr, selx, callee)
		}
		fi := ex.w.funcs[callee]
		if fi == nil {
			return ex.stdCall(st, fr, x, callee, recv)
		}
		args := ex.args(st, fr, x, callee.Type().(*types.Signature))
		return ex.callFn(st, fr, x, fi, recv, args)
	}
	// function value
	v := ex.force(ex.eval(st, fr, x.Fun))
	f, ok := v.(*VFunc)
	if !ok {
		ex.fail(x, "call of %T", v)
	}
	if f.obj != nil {
		fi := ex.w.funcs[f.obj.Origin()]
		if fi == nil {
			ex.fail(x, "call of library function value")
		}
		args := ex.args(st, fr, x, f.obj.Type().(*types.Signature))
		return ex.callFn(st, fr, x, fi, f.recv, args)
	}
	sig := ex.typeOf(fr, x.Fun).Underlying().(*types.Signature)
	args := ex.args(st, fr, x, sig)
	return ex.callLit(st, f, args, x)
}

func (ex *Exec) args(st *State, fr *frame, x *ast.CallExpr, sig *types.Signature) []Value {
	var out []Value
	np := sig.Params().Len()
	if len(x.Args) == 1 && np > 1 {
		if t, ok := ex.eval(st, fr, x.Args[0]).(VTuple); ok {
			return []Value(t)
		}
	}
	for i, a := range x.Args {
		var pt types.Type
		if sig.Variadic() && i >= np-1 && !x.Ellipsis.IsValid() {
			pt = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		} else {
			pt = sig.Params().At(i).Type()
		}
		v := ex.evalTo(st, fr, a, pt)
		out = append(out, ex.conv(st, a, v, ex.typeOf(fr, a), pt))
	}
	if sig.Variadic() && !x.Ellipsis.IsValid() {
		rest := out[np-1:]
		out = append([]Value(nil), out[:np-1]...)
		if len(rest) == 0 {
			out = append(out, ex.nilSlice())
		} else {
			c := ex.newCell()
			st.heap[c] = &VVec{e: append([]Value(nil), rest...)}
			n := ex.m.I(int64(len(rest)))
			out = append(out, &VSlice{cell: c, off: ex.m.I(0), ln: n, cap: n, nilc: ex.m.F})
		}
	}
	return out
}

func (ex *Exec) callFn(st *State, fr *frame, x ast.Node, fi *FuncInfo, recv Value, args []Value) Value {
	// inside a contract function: the call to its target
	if fr != nil && fr.cx != nil && fr.cx.c.target == fi.obj && !fr.cx.called {
		return ex.targetCall(st, fr, x, fi, recv, args)
	}
	if op, ok := ex.w.opaque[fi.obj]; ok && !ex.transp[fi.obj] {
		return ex.opaqueCall(st, op, args, x)
	}
	if c := ex.w.byTarget[fi.obj]; c != nil && !(recv == nil && constArgs(args)) {
		if s := ex.w.summary[fi.obj]; s != nil && ex.cur != nil && (ex.cur.pkg != s.pkg && !ex.cur.exact || ex.cur.useSum) {
			c = s
		}
		return ex.modular(st, x, c, recv, args)
	}
	if fi.verif {
		for _, c := range ex.w.contracts {
			if c.lemma && c.fi.obj == fi.obj {
				return ex.modular(st, x, c, recv, args)
			}
		}
	}
	if fi.memo {
		return ex.memoCall(st, x, fi, args)
	}
	return ex.inline(st, x, fi, recv, args, nil)
}

// memoCall: a specification function without effects is evaluated once for the same arguments. What lies behind
// pointers counts as argument.
func (ex *Exec) memoCall(st *State, x ast.Node, fi *FuncInfo, args []Value) Value {
	k := fmt.Sprintf("%s|%d|%d", fi.obj.FullName(), ex.mute, st.pc.id)
	for _, a := range args {
		t := ex.tuple(st, a)
		if t == nil {
			return ex.inline(st, x, fi, nil, args, nil)
		}
		k += fmt.Sprintf("|%d", t.id)
	}
	if r, ok := ex.memo[k]; ok {
		return r
	}
	r := ex.inline(st, x, fi, nil, args, nil)
	ex.memo[k] = r
	return r
}

// tuple: a value without references (or what a pointer to one points at) as one term, nil if it is not of that kind.
func (ex *Exec) tuple(st *State, v Value) *Term {
	v = ex.force(v)
	var es []Value
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			return ex.m.Ite(x, ex.m.I(1), ex.m.I(0))
		}
		return x
	case *VPtr:
		if x.cell < 0 {
			return nil
		}
		return ex.tuple(st, ex.readPath(ex.get(st, x.cell), x.path))
	case *VVec:
		es = x.e
	case *VStruct:
		es = x.f
	default:
		return nil
	}
	if t, ok := ex.tuples[v]; ok {
		return t
	}
	ts := make([]*Term, len(es))
	for i, e := range es {
		if _, ref := ex.force(e).(*VPtr); ref {
			return nil
		}
		if ts[i] = ex.tuple(st, e); ts[i] == nil {
			return nil
		}
	}
	t := ex.m.App(fmt.Sprintf("tuple%d", len(ts)), ts, nil, nil)
	ex.tuples[v] = t
	return t
}

// constArgs: a call on numbers that are all known is computed
func constArgs(args []Value) bool {
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || !t.isC() {
			return false
		}
	}
	return len(args) > 0
}

func (ex *Exec) inline(st *State, x ast.Node, fi *FuncInfo, recv Value, args []Value, cx *cctx) Value {
	if fi.decl.Body == nil {
		ex.fail(x, "function without body %s", fi.obj.Name())
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 200 {
		ex.fail(x, "call depth (recursion?) at %s", fi.obj.Name())
	}
	if !fi.verif && ex.mute == 0 {
		ex.inlined[fi.obj.FullName()] = true
	}
	sig := fi.obj.Type().(*types.Signature)
	fr := &frame{pkg: fi.pkg, env: map[types.Object]int{}, fn: fi.decl, cx: cx, fi: fi}
	if sig.Recv() != nil {
		if cx != nil {
			cx.params[sig.Recv()] = true
		}
		ex.bind(st, fr, sig.Recv(), recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if cx != nil {
			cx.params[sig.Params().At(i)] = true
		}
		ex.bind(st, fr, sig.Params().At(i), args[i])
	}
	return ex.runBody(st, fr, sig, fi.decl.Body, x)
}

func (ex *Exec) callLit(st *State, f *VFunc, args []Value, x ast.Node) Value {
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 200 {
		ex.fail(x, "call depth (recursion?)")
	}
	sig := f.fr.pkg.info.Types[f.lit].Type.(*types.Signature)
	fr := &frame{pkg: f.fr.pkg, env: map[types.Object]int{}, fn: f.lit, parent: f.fr}
	for i := 0; i < sig.Params().Len(); i++ {
		ex.bind(st, fr, sig.Params().At(i), args[i])
	}
	return ex.runBody(st, fr, sig, f.lit.Body, x)
}

func (ex *Exec) runBody(st *State, fr *frame, sig *types.Signature, body *ast.BlockStmt, x ast.Node) Value {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		fr.res = append(fr.res, r)
		ex.bind(st, fr, r, ex.zero(r.Type()))
	}
	base := st.pc
	o := ex.block(st, fr, body.List)
	exits := o.rets
	if o.norm != nil {
		e := exit{st: o.norm, vals: []Value{}}
		for _, r := range fr.res {
			c, _ := fr.lookup(r)
			e.vals = append(e.vals, ex.get(o.norm, c))
		}
		exits = append(exits, e)
	}
	e := ex.mergeExits(base, exits)
	if e == nil {
		// never returns
		st.pc = ex.m.F
		var vals VTuple
		for _, r := range fr.res {
			vals = append(vals, ex.deadVal(r.Type()))
		}
		if len(vals) == 1 {
			return vals[0]
		}
		return vals
	}
	*st = *e.st
	if cx := fr.cx; cx != nil && !cx.proof {
		// the results as the postconditions have determined them
		for i, o := range cx.resultObjs() {
			if c, ok := fr.lookup(o); o != nil && ok && i < len(cx.out) {
				if v, ok := st.heap[c]; ok {
					cx.out[i] = v
				}
			}
		}
	}
	for _, c := range fr.own {
		delete(st.heap, c)
	}
	switch len(e.vals) {
	case 0:
		return VTuple{}
	case 1:
		return e.vals[0]
	}
	return VTuple(e.vals)
}

func (ex *Exec) deadVal(t types.Type) Value {
	defer func() { recover() }()
	return ex.zero(t)
}

// ---- builtins

func (ex *Exec) builtin(st *State, fr *frame, x *ast.CallExpr, name string) Value {
	m := ex.m
	switch name {
	case "len", "cap":
		t := ex.typeOf(fr, x.Args[0]).Underlying()
		if a, ok := t.(*types.Array); ok {
			return m.I(a.Len())
		}
		if p, ok := t.(*types.Pointer); ok {
			return m.I(p.Elem().Underlying().(*types.Array).Len())
		}
		v := ex.eval(st, fr, x.Args[0])
		if name == "cap" {
			return ex.capOf(v)
		}
		return ex.lenOf(v)
	case "panic":
		for _, a := range x.Args {
			if hasCall(fr, a) {
				ex.eval(st, fr, a)
			}
		}
		ex.oblige(st, "safety", "panic not reached", x, m.F)
		st.pc = m.F
		return VTuple{}
	case "min", "max":
		acc := ex.scalarT(ex.eval(st, fr, x.Args[0]))
		for _, a := range x.Args[1:] {
			b := ex.scalarT(ex.eval(st, fr, a))
			c := m.Le(acc, b)
			if name == "max" {
				c = m.Le(b, acc)
			}
			acc = m.Ite(c, acc, b)
		}
		return acc
	case "new":
		c := ex.newCell()
		st.heap[c] = ex.zero(ex.typeOf(fr, x.Args[0]))
		return &VPtr{cell: c, nilc: m.F}
	case "make":
		t, ok := ex.typeOf(fr, x.Args[0]).Underlying().(*types.Slice)
		if !ok {
			ex.fail(x, "make of %s", ex.typeOf(fr, x.Args[0]))
		}
		n := ex.scalarT(ex.eval(st, fr, x.Args[1]))
		cp := n
		if len(x.Args) > 2 {
			cp = ex.scalarT(ex.eval(st, fr, x.Args[2]))
		}
		ok2 := m.Under(m.And(m.Le(m.I(0), n), m.Le(n, cp)), st.pc)
		if ok2 != m.T {
			ex.oblige(st, "safety", "make length", x, ok2)
		}
		return ex.makeSlice(t.Elem(), n, cp, st, x)
	case "append":
		s := ex.force(ex.evalTo(st, fr, x.Args[0], ex.typeOf(fr, x)))
		et := ex.typeOf(fr, x).Underlying().(*types.Slice).Elem()
		if x.Ellipsis.IsValid() {
			t := ex.force(ex.evalTo(st, fr, x.Args[1], ex.typeOf(fr, x)))
			n, ok := ex.lenOf(t).i64()
			if !ok {
				ex.fail(x, "append of a slice of unknown length")
			}
			for i := int64(0); i < n; i++ {
				s = ex.append1(st, x, s, ex.sliceAt(st, t, m.I(i)), et)
			}
			return s
		}
		for _, a := range x.Args[1:] {
			v := ex.conv(st, a, ex.evalTo(st, fr, a, et), ex.typeOf(fr, a), et)
			s = ex.append1(st, x, s, v, et)
		}
		return s
	case "copy":
		d := ex.force(ex.eval(st, fr, x.Args[0]))
		s := ex.force(ex.eval(st, fr, x.Args[1]))
		ld, ls := ex.lenOf(d), ex.lenOf(s)
		n := m.Under(m.Ite(m.Le(ld, ls), ld, ls), st.pc)
		k, ok := n.i64()
		if !ok {
			// bounded symbolic length: guarded element copies
			if n.hi == nil || !n.hi.IsInt64() || n.hi.Int64() > 300 {
				ex.fail(x, "copy of unknown length")
			}
			var vals []Value
			for i := int64(0); i < n.hi.Int64(); i++ {
				vals = append(vals, ex.sliceAt(st, s, m.I(i)))
			}
			for i, v := range vals {
				g := m.Lt(m.I(int64(i)), n)
				r := ex.sliceRef(st, x, d, m.I(int64(i)))
				for j := range r.alts {
					r.alts[j].c = m.And(r.alts[j].c, g)
				}
				for _, a := range r.alts {
					st.heap[a.cell] = ex.writePath(ex.get(st, a.cell), a.path, v, a.c)
				}
			}
			return n
		}
		var vals []Value
		for i := int64(0); i < k; i++ {
			vals = append(vals, ex.sliceAt(st, s, m.I(i)))
		}
		for i, v := range vals {
			ex.store(st, ex.sliceRef(st, x, d, m.I(int64(i))), v)
		}
		return n
	case "print", "println":
		return VTuple{}
	case "clear":
		ex.fail(x, "clear")
	}
	ex.fail(x, "builtin %s", name)
	return nil
}

func (ex *Exec) makeSlice(et types.Type, n, cp *Term, st *State, x ast.Node) Value {
	m := ex.m
	c := ex.newCell()
	if k, ok := cp.i64(); ok && k >= 0 {
		st.heap[c] = ex.zeroVec(et, int(k))
	} else if cp.hi != nil && cp.hi.IsInt64() && cp.hi.Int64() <= 260 {
		st.heap[c] = ex.zeroVec(et, int(cp.hi.Int64()))
	} else if b := basicOf(et); b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
		st.heap[c] = &VArrT{m.ConstArr(m.I(0)), b.Info()&types.IsBoolean != 0}
	} else {
		ex.fail(x, "make of composite elements with unknown length")
	}
	return &VSlice{cell: c, off: m.I(0), ln: n, cap: cp, nilc: m.F}
}

// append1: the result is a fresh backing store; what the old backing store holds beyond the
// old length is assumed not to be observed through another slice.
func (ex *Exec) append1(st *State, x ast.Node, sv Value, v Value, et types.Type) Value {
	m := ex.m
	sv = ex.force(sv)
	s, ok := sv.(*VSlice)
	if !ok {
		if c, ok := sv.(*VChoice); ok {
			return &VChoice{c.c, ex.append1(st, x, c.a, v, et), ex.append1(st, x, c.b, v, et)}
		}
		ex.fail(x, "append to %T", sv)
	}
	ex.assume["append: backing storage past a slice's length is not shared with another live slice"] = true
	c := ex.newCell()
	n := m.Add(s.ln, m.I(1))
	if k, ok := s.ln.i64(); ok {
		vec := &VVec{}
		for i := int64(0); i < k; i++ {
			vec.e = append(vec.e, ex.sliceAt(st, s, m.I(i)))
		}
		vec.e = append(vec.e, v)
		st.heap[c] = vec
	} else if s.ln.hi != nil && s.ln.hi.IsInt64() && s.ln.hi.Int64() <= 128 {
		h := s.ln.hi.Int64()
		vec := &VVec{}
		z := ex.zero(et)
		for i := int64(0); i <= h; i++ {
			var cur Value = z
			if i < h && s.cell >= 0 {
				cur = ex.mergeV(m.Lt(m.I(i), s.ln), ex.sliceAt(st, s, m.I(i)), z)
			}
			vec.e = append(vec.e, ex.mergeV(m.Eq(m.I(i), s.ln), v, cur))
		}
		st.heap[c] = vec
	} else {
		if len(s.path) > 0 || s.cell < 0 {
			ex.fail(x, "append to a sub-slice of unknown length")
		}
		a, ok := ex.force(ex.get(st, s.cell)).(*VArrT)
		if !ok || s.off.op != OConst || s.off.k.Sign() != 0 {
			ex.fail(x, "append to a slice of unknown length")
		}
		t := ex.scalarT(v)
		if a.isBool {
			t = m.Ite(t, m.I(1), m.I(0))
		}
		st.heap[c] = &VArrT{m.Store(a.t, s.ln, t), a.isBool}
	}
	cp := n
	if s.cap != s.ln {
		cp = m.Var(m.Fresh("cap"), b0, nil)
		ex.assumeT(st, m.Le(n, cp))
	}
	return &VSlice{cell: c, off: m.I(0), ln: n, cap: n, nilc: m.F}
}

// ---- library models

func (ex *Exec) stdCall(st *State, fr *frame, x *ast.CallExpr, f *types.Func, recv Value) Value {
	m := ex.m
	path := ""
	if f.Pkg() != nil {
		path = f.Pkg().Path()
	}
	name := path + "." + f.Name()
	sig := f.Type().(*types.Signature)
	args := ex.args(st, fr, x, sig)
	fl := func(i int) *VFloat {
		v, ok := ex.force(args[i]).(*VFloat)
		if !ok {
			ex.fail(x, "float argument of %s", name)
		}
		return v
	}
	switch name {
	case "math.Floor":
		ex.assume["model of math."+f.Name()] = true
		a := fl(0)
		return &VFloat{m.divC(a.n, p2(a.den)), 0}
	case "math.Ceil":
		ex.assume["model of math."+f.Name()] = true
		a := fl(0)
		return &VFloat{m.Neg(m.divC(m.Neg(a.n), p2(a.den))), 0}
	case "math.Trunc":
		ex.assume["model of math."+f.Name()] = true
		return &VFloat{ex.truncF(fl(0)), 0}
	case "math.Abs":
		ex.assume["model of math."+f.Name()] = true
		a := fl(0)
		return &VFloat{m.Ite(m.Le(m.I(0), a.n), a.n, m.Neg(a.n)), a.den}
	case "math.Max", "math.Min":
		ex.assume["model of math."+f.Name()] = true
		a, b := fl(0), fl(1)
		d := max(a.den, b.den)
		p, q := m.Scale(a.n, p2(d-a.den)), m.Scale(b.n, p2(d-b.den))
		c := m.Le(q, p)
		if f.Name() == "Min" {
			c = m.Le(p, q)
		}
		return &VFloat{m.Ite(c, p, q), d}
	case "math.Pow":
		ex.assume["model of math.Pow for base 2 and integral exponents"] = true
		a, b := fl(0), fl(1)
		if k, ok := a.n.i64(); ok && a.den == 0 && k == 2 && b.den == 0 {
			if b.n.lo != nil && b.n.lo.Sign() >= 0 {
				return &VFloat{m.Pow2(b.n), 0}
			}
			ge := m.Under(m.Le(m.I(0), b.n), st.pc)
			if ge != m.T {
				ex.oblige(st, "safety", "math.Pow exponent not negative (model)", x, ge)
			}
			return &VFloat{m.Pow2(ex.nonNeg(b.n)), 0}
		}
		ex.fail(x, "math.Pow outside its model")
	case "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8":
		ex.assume["model of math/bits.Len"] = true
		t := ex.scalarT(args[0])
		acc := m.I(0)
		for k := 0; k < 64; k++ {
			acc = m.Add(acc, m.Ite(m.Le(m.C(p2(k)), t), m.I(1), m.I(0)))
		}
		return acc
	case "math/bits.LeadingZeros", "math/bits.LeadingZeros64":
		ex.assume["model of math/bits.Len"] = true
		t := ex.scalarT(args[0])
		acc := m.I(64)
		for k := 0; k < 64; k++ {
			acc = m.Sub(acc, m.Ite(m.Le(m.C(p2(k)), t), m.I(1), m.I(0)))
		}
		return acc
	case "sort.Ints", "slices.Sort":
		ex.assume["model of "+name+" (sorted permutation)"] = true
		n, ok := ex.lenOf(args[0]).i64()
		if !ok || n > 12 {
			ex.fail(x, "%s of unknown length", name)
		}
		vs := make([]*Term, n)
		for i := range vs {
			vs[i] = ex.scalarT(ex.sliceAt(st, args[0], m.I(int64(i))))
		}
		for i := 0; i < len(vs); i++ {
			for j := 0; j+1 < len(vs)-i; j++ {
				c := m.Le(vs[j], vs[j+1])
				vs[j], vs[j+1] = m.Ite(c, vs[j], vs[j+1]), m.Ite(c, vs[j+1], vs[j])
			}
		}
		for i, v := range vs {
			ex.store(st, ex.sliceRef(st, x, args[0], m.I(int64(i))), v)
		}
		return VTuple{}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return &VStr{}
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print":
		return VTuple{&VOpaque{"fmt result"}, &VOpaque{"fmt result"}}
	case "fmt.Errorf", "errors.New":
		return &VOpaque{"error value"}
	}
	ex.fail(x, "library function %s has no model", name)
	return nil
}

// ---- opaque specification functions

func (ex *Exec) opaqueCall(st *State, op *opaqueInfo, args []Value, x ast.Node) Value {
	m := ex.m
	var ts []*Term
	sig := op.fi.obj.Type().(*types.Signature)
	for i, a := range args {
		if c, ok := ex.force(a).(*VChoice); ok {
			// one application for each alternative
			alt := func(v Value, cond *Term) Value {
				as := append([]Value{}, args...)
				as[i] = v
				s2 := st.clone()
				s2.pc = m.And(s2.pc, cond)
				return ex.opaqueCall(s2, op, as, x)
			}
			return ex.mergeV(c.c, alt(c.a, c.c), alt(c.b, m.Not(c.c)))
		}
	}
	usesLen := map[string]bool{}
	ast.Inspect(op.fi.decl.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" {
				if a, ok := c.Args[0].(*ast.Ident); ok {
					usesLen[a.Name] = true
				}
			}
		}
		return true
	})
	for i, a := range args {
		switch v := ex.force(a).(type) {
		case *Term:
			if v.sort == SBool {
				v = m.Ite(v, m.I(1), m.I(0))
			}
			ts = append(ts, v)
		case *VSlice:
			// the whole backing array, offset and length
			if v.cell < 0 {
				ts = append(ts, m.ConstArr(m.I(0)), m.I(0), m.I(0))
				continue
			}
			c := ex.readPath(ex.get(st, v.cell), v.path)
			var at *Term
			switch c := c.(type) {
			case *VArrT:
				at = c.t
			case *VVec:
				at = m.ConstArr(m.I(0))
				for j, e := range c.e {
					et := ex.scalarT(e)
					if et.sort == SBool {
						et = m.Ite(et, m.I(1), m.I(0))
					}
					at = m.Store(at, m.I(int64(j)), et)
				}
			default:
				ex.fail(x, "opaque call on %T", c)
			}
			ts = append(ts, at, v.off, v.ln)
		default:
			t := ex.tuple(st, v)
			if t == nil {
				ex.fail(x, "argument %d of opaque %s: %T", i, op.name, v)
			}
			ts = append(ts, t)
		}
		_ = sig
	}
	var lo, hi *big.Int
	var rl, rh *Term
	// range function
	rf, _ := op.fi.pkg.tp.Scope().Lookup(op.fi.obj.Name() + "_range").(*types.Func)
	if rf != nil && !ex.rangeBusy[op.name] {
		ex.rangeBusy[op.name] = true
		ex.mute++
		s2 := st.clone()
		nh := len(ex.hyps)
		r := ex.inline(s2, x, ex.w.funcs[rf], nil, args, nil).(VTuple)
		ex.hyps = ex.hyps[:nh]
		ex.mute--
		delete(ex.rangeBusy, op.name)
		rl, rh = ex.scalarT(r[0]), ex.scalarT(r[1])
		lo, hi = rl.lo, rh.hi
	}
	isB := isBool(sig.Results().At(0).Type())
	if lo == nil && hi == nil {
		if isB {
			lo, hi = b0, b1
		} else if b := basicOf(sig.Results().At(0).Type()); b != nil {
			lo, hi, _, _ = intRange(b)
		}
	}
	t := m.App(op.name, ts, lo, hi)
	if rl != nil && !rl.isC() {
		ex.assumeT(st, m.Le(rl, t))
	}
	if rh != nil && !rh.isC() {
		ex.assumeT(st, m.Le(t, rh))
	}
	if isB {
		return m.Not(m.Eq0(t))
	}
	return t
}

// ---- contracts

func (ex *Exec) modular(st *State, x ast.Node, c *Contract, recv Value, args []Value) Value {
	ex.usedC[c.name] = true
	all := args
	if c.target != nil && c.target.Type().(*types.Signature).Recv() != nil {
		all = append([]Value{recv}, args...)
	}
	cx := &cctx{c: c, resVars: map[types.Object]bool{}, site: x, params: map[types.Object]bool{}}
	ex.inline(st, x, c.fi, nil, all, cx)
	if c.target == nil {
		return VTuple{}
	}
	if len(cx.out) == 1 {
		return cx.out[0]
	}
	return cx.out
}

func (ex *Exec) targetCall(st *State, fr *frame, x ast.Node, fi *FuncInfo, recv Value, args []Value) Value {
	cx := fr.cx
	cx.called = true
	if cx.proof {
		if ex.boundsPass {
			panic(stopBounds{})
		}
		cx.pre = st.clone()
		var v Value
		if c := ex.w.byTarget[fi.obj]; cx.c.summary && c != nil {
			v = ex.modular(st, x, c, recv, args)
		} else {
			v = ex.inline(st, x, fi, recv, args, nil)
		}
		cx.post = st.clone()
		if !ex.noFrame {
			ex.frameCheck(st, cx, x)
		}
		return v
	}
	// havoc the modified locations
	for i, mv := range cx.mods {
		ex.havoc(st, mv, fmt.Sprintf("%s.mod%d", cx.c.name, i), x)
	}
	sig := fi.obj.Type().(*types.Signature)
	var out VTuple
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, ex.force(ex.sym(ex.m.Fresh(cx.c.name+".result"), sig.Results().At(i).Type())))
	}
	cx.out = append(VTuple(nil), out...)
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func (ex *Exec) havoc(st *State, v Value, name string, x ast.Node) {
	v = ex.force(v)
	switch p := v.(type) {
	case *modRef:
		for _, a := range p.r.alts {
			st.heap[a.cell] = ex.writePath(ex.get(st, a.cell), a.path, ex.sym(ex.m.Fresh(name), p.t), ex.m.T)
		}
	case *VSlice:
		if p.cell < 0 {
			return
		}
		cur := ex.readPath(ex.get(st, p.cell), p.path)
		st.heap[p.cell] = ex.writePath(ex.get(st, p.cell), p.path, ex.havocLike(cur, name), ex.m.T)
	case *VChoice:
		ex.havoc(st, p.a, name, x)
		ex.havoc(st, p.b, name, x)
	default:
		ex.fail(x, "modifies %T", v)
	}
}

func (ex *Exec) havocLike(v Value, name string) Value {
	switch c := ex.force(v).(type) {
	case *VArrT:
		return &VArrT{ex.m.AVar(ex.m.Fresh(name), nil, nil), c.isBool}
	case *VVec:
		n := &VVec{}
		for _, e := range c.e {
			n.e = append(n.e, ex.havocLike(e, name))
		}
		return n
	case *Term:
		if c.sort == SBool {
			return ex.m.BVar(ex.m.Fresh(name))
		}
		return ex.m.Var(ex.m.Fresh(name), i64L, i64H)
	}
	ex.fail(nil, "havoc of %T", v)
	return nil
}

type modRef struct {
	r *ref
	t types.Type
}

// modified: the condition under which the location is, or lies within, one listed in Modifies; and the
// indices at which an element of it is listed.
func (ex *Exec) modified(cx *cctx, cell int, path []pe) (*Term, []*Term) {
	m := ex.m
	r := m.F
	var elems []*Term
	at := func(p []pe) {
		n := len(p)
		if n > len(path) {
			n = len(path)
		}
		c := m.T
		for i := 0; i < n; i++ {
			if p[i].field != path[i].field {
				return
			}
			if p[i].field < 0 {
				c = m.And(c, m.Eq(p[i].idx, path[i].idx))
			}
		}
		if len(p) <= len(path) {
			r = m.Or(r, c)
		} else if len(p) == len(path)+1 && p[n].field < 0 && c == m.T {
			elems = append(elems, p[n].idx)
		}
	}
	for _, mv := range cx.mods {
		var chk func(v Value)
		chk = func(v Value) {
			switch p := ex.force(v).(type) {
			case *modRef:
				for _, a := range p.r.alts {
					if a.cell == cell {
						at(a.path)
					}
				}
			case *VSlice:
				if p.cell == cell {
					at(p.path)
				}
			case *VChoice:
				chk(p.a)
				chk(p.b)
			}
		}
		chk(mv)
	}
	return r, elems
}

// frameCheck: everything that existed before the call and is not listed in Modifies is unchanged.
func (ex *Exec) frameCheck(st *State, cx *cctx, x ast.Node) {
	cells := map[int]bool{}
	for c := range st.heap {
		cells[c] = true
	}
	for _, c := range sortedKeys(cells) {
		pre, ok := cx.pre.heap[c]
		if !ok {
			pre, ok = ex.base[c]
		}
		if !ok {
			continue // allocated by the call
		}
		post := st.heap[c]
		ex.diff(st, cx, x, c, nil, pre, post, ex.cellName[c])
	}
}

func (ex *Exec) diff(st *State, cx *cctx, x ast.Node, cell int, path []pe, a, b Value, name string) {
	if sameV(a, b) {
		return
	}
	if la, ok := a.(*VLazy); ok {
		if lb, ok := b.(*VLazy); ok && la.name == lb.name {
			return
		}
	}
	a, b = ex.force(a), ex.force(b)
	if sameV(a, b) {
		return
	}
	may, elems := ex.modified(cx, cell, path)
	if may == ex.m.T {
		return
	}
	sub := func(p pe) []pe { return append(append([]pe(nil), path...), p) }
	bad := func(g *Term) {
		ex.oblige(st, "frame", "unchanged: "+name, x, ex.m.Or(may, g))
	}
	switch p := a.(type) {
	case *VStruct:
		if q, ok := b.(*VStruct); ok && len(p.f) == len(q.f) {
			for i := range p.f {
				fn := ""
				if p.t != nil {
					fn = p.t.Field(i).Name()
				}
				ex.diff(st, cx, x, cell, sub(pe{field: i}), p.f[i], q.f[i], name+"."+fn)
			}
			return
		}
	case *VVec:
		if q, ok := b.(*VVec); ok && len(p.e) == len(q.e) {
			for i := range p.e {
				ex.diff(st, cx, x, cell, sub(pe{-1, ex.m.I(int64(i))}), p.e[i], q.e[i], fmt.Sprintf("%s[%d]", name, i))
			}
			return
		}
	case *Term:
		if q, ok := b.(*Term); ok {
			bad(ex.m.Eq(p, q))
			return
		}
	case *VArrT:
		if q, ok := b.(*VArrT); ok {
			was := p.t
			for _, i := range elems {
				was = ex.m.Store(was, i, ex.m.Select(q.t, i))
			}
			bad(ex.m.Eq(was, q.t))
			return
		}
	case *VSlice:
		if q, ok := b.(*VSlice); ok {
			if p.cell == q.cell && samePath(p.path, q.path) {
				bad(ex.m.And(ex.m.Eq(p.off, q.off), ex.m.Eq(p.ln, q.ln)))
			} else {
				bad(ex.m.F)
			}
			return
		}
	case *VPtr:
		if q, ok := b.(*VPtr); ok && p.cell == q.cell && samePath(p.path, q.path) {
			bad(ex.m.Iff(p.nilc, q.nilc))
			return
		}
	case *VStr, *VOpaque, VNil, *VFunc:
		return
	}
	bad(ex.m.F)
}

// ---- the contract language

func exprText(w *World, e ast.Expr) string {
	p := w.fset.Position(e.Pos())
	q := w.fset.Position(e.End())
	_ = q
	return fmt.Sprintf("line %d", p.Line)
}

func (ex *Exec) vsCall(st *State, fr *frame, x *ast.CallExpr, name string) Value {
	m := ex.m
	cx := fr.cx
	switch name {
	case "Requires":
		if cx == nil {
			ex.fail(x, "Requires outside a contract")
		}
		c := ex.cond(st, fr, x.Args[0])
		if cx.proof {
			ex.assumeT(st, c)
			if ex.boundsPass {
				ex.collect(c)
			} else if m.Under(c, st.pc) == m.F {
				st.pc = m.F // this case is excluded
			}
			return VTuple{}
		}
		c = m.Under(c, st.pc)
		ex.oblige(st, "pre", "precondition of "+cx.c.tname, cx.site, c)
		return VTuple{}
	case "Ensures":
		lbl := ex.eval(st, fr, x.Args[0]).(*VStr).s
		if cx == nil {
			ex.fail(x, "Ensures outside a contract")
		}
		if cx.proof {
			ex.ensureGoals(st, fr, x, lbl, x.Args[1], m.T)
			return VTuple{}
		}
		ex.ensureAssume(st, fr, x.Args[1])
		return VTuple{}
	case "Assert":
		lbl := ex.eval(st, fr, x.Args[0]).(*VStr).s
		c := ex.cond(st, fr, x.Args[1])
		if cx == nil || cx.proof {
			ex.oblige(st, "assert", lbl, x, m.Under(c, st.pc))
		}
		ex.assumeT(st, c)
		return VTuple{}
	case "Modifies":
		if cx == nil {
			return VTuple{}
		}
		for _, a := range x.Args {
			if u, ok := ast.Unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
				cx.mods = append(cx.mods, &modRef{ex.lval(st, fr, u.X), ex.typeOf(fr, u.X)})
				continue
			}
			v := ex.force(ex.eval(st, fr, a))
			if p, ok := v.(*VPtr); ok {
				cx.mods = append(cx.mods, &modRef{ex.deref(st, a, p), ex.typeOf(fr, a).Underlying().(*types.Pointer).Elem()})
				continue
			}
			cx.mods = append(cx.mods, v)
		}
		return VTuple{}
	case "Split":
		if cx == nil || !cx.proof {
			return VTuple{}
		}
		t := ex.cond(st, fr, x.Args[0])
		lo, ok1 := ex.cond(st, fr, x.Args[1]).i64()
		hi, ok2 := ex.cond(st, fr, x.Args[2]).i64()
		if !ok1 || !ok2 {
			ex.fail(x, "Split bounds")
		}
		if t.isC() {
			return VTuple{}
		}
		if ex.boundsPass {
			return VTuple{}
		}
		if t.op != OVar {
			// a case distinction on a computed value: one run for each value, under that condition
			key := "case@" + ex.npos(x)
			if v, ok := ex.fixed[key]; ok {
				st.pc = m.And(st.pc, m.Eq(t, m.I(v)))
				ex.cases = append(ex.cases, v)
				if id, ok := ast.Unparen(x.Args[0]).(*ast.Ident); ok {
					// the variable has that value in this case
					ex.store(st, ex.lval(st, fr, id), m.I(v))
				}
				return VTuple{}
			}
			ex.oblige(st, "split", fmt.Sprintf("case distinction covers %d..%d", lo, hi), x, m.And(m.Le(m.I(lo), t), m.Le(t, m.I(hi))))
			panic(splitReq{key, lo, hi})
		}
		ex.oblige(st, "split", fmt.Sprintf("case split on %s covers %d..%d", t.name, lo, hi), x, m.And(m.Le(m.I(lo), t), m.Le(t, m.I(hi))))
		panic(splitReq{t.name, lo, hi})
	case "SplitBool":
		if cx == nil || !cx.proof || ex.boundsPass {
			return VTuple{}
		}
		t := ex.cond(st, fr, x.Args[0])
		if isCB(t) {
			return VTuple{}
		}
		if t.op != OBVar {
			key := "case@" + ex.npos(x)
			if v, ok := ex.fixed[key]; ok {
				st.pc = m.And(st.pc, m.Iff(t, m.Bool(v == 1)))
				return VTuple{}
			}
			panic(splitReq{key, 0, 1})
		}
		panic(splitReq{t.name, 0, 1})
	case "Repair":
		return VTuple{}
	case "Transparent":
		if cx != nil && cx.proof {
			for _, a := range x.Args {
				if f, ok := ex.eval(st, fr, a).(*VFunc); ok && f.obj != nil {
					ex.transp[f.obj] = true
				}
			}
		}
		return VTuple{}
	case "Unfold":
		// Unfold(f(args)): the opaque application equals its body
		if ex.mute > 0 && !ex.invEval || (cx != nil && !cx.proof) {
			return VTuple{}
		}
		ce, ok := ast.Unparen(x.Args[0]).(*ast.CallExpr)
		if !ok {
			ex.fail(x, "Unfold of a non-call")
		}
		var callee *types.Func
		switch f := ce.Fun.(type) {
		case *ast.Ident:
			callee, _ = fr.pkg.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			callee, _ = fr.pkg.info.Uses[f.Sel].(*types.Func)
		}
		fi := ex.w.funcs[callee]
		args := ex.args(st, fr, ce, callee.Type().(*types.Signature))
		op := ex.w.opaque[callee]
		if op == nil {
			return VTuple{}
		}
		l := ex.opaqueCall(st, op, args, ce)
		ex.mute++
		r := ex.inline(st, ce, fi, nil, args, nil)
		ex.mute--
		ex.assumeT(st, ex.eqV(st, x, l, r))
		return VTuple{}
	case "MaxUnroll":
		if n, ok := ex.cond(st, fr, x.Args[0]).i64(); ok && (cx == nil || cx.proof) {
			ex.maxUnroll = int(n)
		}
		return VTuple{}
	case "Implies":
		a := ex.cond(st, fr, x.Args[0])
		return m.Implies(a, ex.cond(st, fr, x.Args[1]))
	case "Eq":
		a, b := ex.eval(st, fr, x.Args[0]), ex.eval(st, fr, x.Args[1])
		r := m.T
		ex.deepEq(st, x, a, b, "", func(_ string, t *Term) { r = m.And(r, t) })
		return r
	case "Snap":
		return ex.snap(st, ex.eval(st, fr, x.Args[0]))
	case "Forall":
		lo := ex.scalarT(ex.eval(st, fr, x.Args[0]))
		hi := ex.scalarT(ex.eval(st, fr, x.Args[1]))
		f := ex.eval(st, fr, x.Args[2]).(*VFunc)
		l, ok1 := lo.i64()
		h, ok2 := hi.i64()
		g := func(i *Term) *Term { return m.T }
		if !ok1 || !ok2 {
			// bounded by intervals: guarded expansion
			if lo.lo != nil && hi.hi != nil && lo.lo.IsInt64() && hi.hi.IsInt64() && hi.hi.Int64()-lo.lo.Int64() <= 300 {
				l, h = lo.lo.Int64(), hi.hi.Int64()
				g = func(i *Term) *Term { return m.And(m.Le(lo, i), m.Lt(i, hi)) }
			} else {
				ex.fail(x, "Forall over an unbounded range")
			}
		}
		r := []*Term{}
		for i := l; i < h; i++ {
			gi := g(m.I(i))
			if gi == m.F {
				continue
			}
			pc := st.pc
			st.pc = m.And(pc, gi)
			v := ex.scalarT(ex.callLit(st, f, []Value{m.I(i)}, x))
			st.pc = pc
			r = append(r, m.Implies(gi, v))
		}
		return m.And(r...)
	case "Cached":
		return VTuple{m.I(0), m.F}
	case "Cache":
		return ex.eval(st, fr, x.Args[0])
	case "Skip":
		return VTuple{}
	case "FreshLen":
		return VTuple{}
	case "Dims":
		// Dims(s, n): the slice has length n; composite slices become explicit
		return ex.dims(st, fr, x)
	case "Apart":
		// Apart(own, rest...): no two slices reachable from own share storage, nor does one with a slice of rest
		own := map[int]bool{}
		ok := true
		ex.storage(st, x, ex.eval(st, fr, x.Args[0]), func(cell int) {
			if own[cell] {
				ok = false
			}
			own[cell] = true
		})
		for _, a := range x.Args[1:] {
			ex.storage(st, x, ex.eval(st, fr, a), func(cell int) {
				if own[cell] {
					ok = false
				}
			})
		}
		return m.Bool(ok)
	case "NoFrame":
		if cx != nil && cx.proof {
			ex.noFrame = true
		}
		return VTuple{}
	}
	ex.fail(x, "unknown contract primitive %s", name)
	return nil
}

// storage visits the cells of the slices reachable from v, whole cells at a time.
func (ex *Exec) storage(st *State, n ast.Node, v Value, visit func(cell int)) {
	v = ex.force(v)
	switch x := v.(type) {
	case *Term, *VNil, *VFloat, *VStr, *VArrT:
	case *VStruct:
		for _, f := range x.f {
			ex.storage(st, n, f, visit)
		}
	case *VVec:
		for _, e := range x.e {
			ex.storage(st, n, e, visit)
		}
	case *VChoice:
		ex.storage(st, n, x.a, visit)
		ex.storage(st, n, x.b, visit)
	case *VSlice:
		if x.nilc == ex.m.T || x.cell < 0 {
			return
		}
		visit(x.cell)
		ex.storage(st, n, ex.readPath(ex.get(st, x.cell), x.path), visit)
	default:
		ex.fail(n, "Apart of %T", v)
	}
}

// dims implements vs.Dims(s, d0, d1, ...): a precondition giving the exact lengths of a (nested) slice.
func (ex *Exec) dims(st *State, fr *frame, x *ast.CallExpr) Value {
	m := ex.m
	v := ex.force(ex.eval(st, fr, x.Args[0]))
	var ds []*Term
	for _, a := range x.Args[1:] {
		ds = append(ds, ex.scalarT(ex.eval(st, fr, a)))
	}
	var rec func(v Value, ds []*Term) *Term
	rec = func(v Value, ds []*Term) *Term {
		if len(ds) == 0 {
			return m.T
		}
		v = ex.force(v)
		ln := ex.lenOf(v)
		r := m.Eq(ln, ds[0])
		if len(ds) > 1 {
			n, ok := ds[0].i64()
			if !ok {
				ex.fail(x, "Dims with symbolic outer dimension")
			}
			if _, isVec := v.(*VVec); !isVec {
				if _, ok := ln.i64(); !ok {
					return r // second pass has the length
				}
			}
			for i := int64(0); i < n; i++ {
				var e Value
				if vec, ok := v.(*VVec); ok {
					e = vec.e[i]
				} else {
					if lc, _ := ln.i64(); i >= lc {
						break
					}
					e = ex.sliceAt(st, v, m.I(i))
				}
				r = m.And(r, rec(e, ds[1:]))
			}
		}
		return r
	}
	return rec(v, ds)
}

// collect reads bounds on plain variables out of a precondition.
func (ex *Exec) collect(c *Term) {
	m := ex.m
	for _, l := range m.Lits(c) {
		neg := false
		a := l
		if l.op == ONot {
			neg = true
			a = l.args[0]
		}
		_ = neg
		switch a.op {
		case OLe0:
			if neg {
				continue
			}
			k, as, cs := linParts(a.args[0])
			if len(as) != 1 || as[0].op != OVar {
				continue
			}
			// c*v + k <= 0
			b := ex.bounds[as[0].name]
			nk := new(big.Int).Neg(k)
			if cs[0].Sign() > 0 {
				h := fdiv(nk, cs[0])
				if b.hi == nil || h.Cmp(b.hi) < 0 {
					b.hi = h
				}
			} else {
				lo := new(big.Int).Neg(fdiv(nk, new(big.Int).Neg(cs[0])))
				if b.lo == nil || lo.Cmp(b.lo) > 0 {
					b.lo = lo
				}
			}
			ex.bounds[as[0].name] = b
		case OEq0:
			if neg || len(a.args) != 1 {
				continue
			}
			k, as, cs := linParts(a.args[0])
			if len(as) == 1 && as[0].op == OVar && cs[0].Cmp(b1) == 0 {
				v := new(big.Int).Neg(k)
				ex.bounds[as[0].name] = bound{v, v}
			}
		}
	}
}

func (ex *Exec) snap(st *State, v Value) Value {
	v = ex.force(v)
	switch s := v.(type) {
	case *VSlice:
		if s.cell < 0 {
			return s
		}
		c := ex.newCell()
		src := ex.readPath(ex.get(st, s.cell), s.path)
		if vec, ok := src.(*VVec); ok {
			n := &VVec{}
			for _, e := range vec.e {
				n.e = append(n.e, ex.snap(st, e))
			}
			st.heap[c] = n
		} else {
			st.heap[c] = src
		}
		return &VSlice{c, nil, s.off, s.ln, s.cap, s.nilc}
	case *VChoice:
		return &VChoice{s.c, ex.snap(st, s.a), ex.snap(st, s.b)}
	case *VStruct:
		n := &VStruct{t: s.t}
		for _, f := range s.f {
			n.f = append(n.f, ex.snap(st, f))
		}
		return n
	case *VVec:
		n := &VVec{}
		for _, f := range s.e {
			n.e = append(n.e, ex.snap(st, f))
		}
		return n
	case *VPtr:
		if s.cell < 0 || len(s.path) > 0 {
			return s
		}
		c := ex.newCell()
		st.heap[c] = ex.snap(st, ex.get(st, s.cell))
		return &VPtr{c, nil, s.nilc}
	}
	return v
}

// deepEq compares values structurally (slices by length and content), leaf by leaf.
func (ex *Exec) deepEq(st *State, n ast.Node, a, b Value, path string, leaf func(string, *Term)) {
	m := ex.m
	if la, ok := a.(*VLazy); ok {
		if lb, ok := b.(*VLazy); ok && la.name == lb.name {
			leaf(path, m.T)
			return
		}
	}
	a, b = ex.force(a), ex.force(b)
	if sameV(a, b) {
		leaf(path, m.T)
		return
	}
	for _, v := range []Value{a, b} {
		if o, ok := v.(*VOpaque); ok && o.name == outOfRange {
			leaf(path, m.F) // only reached under a guard that must be unsatisfiable
			return
		}
	}
	_, ca := a.(*VChoice)
	_, cb := b.(*VChoice)
	_, sa := a.(*VSlice)
	_, sb := b.(*VSlice)
	if (sa || ca) && (sb || cb) {
		la, lb := ex.lenOf(a), ex.lenOf(b)
		leaf(path+".len", m.Eq(la, lb))
		h := la.hi
		if lb.hi != nil && (h == nil || lb.hi.Cmp(h) < 0) {
			h = lb.hi
		}
		x, ok1 := a.(*VSlice)
		y, ok2 := b.(*VSlice)
		if ok1 && ok2 && x.cell >= 0 && y.cell >= 0 && x.off == y.off {
			vx, vy := ex.readPath(ex.get(st, x.cell), x.path), ex.readPath(ex.get(st, y.cell), y.path)
			if sameV(vx, vy) {
				return
			}
			ax, o1 := vx.(*VArrT)
			ay, o2 := vy.(*VArrT)
			if o1 && o2 && ax.t == ay.t {
				return
			}
		}
		if h == nil || !h.IsInt64() || h.Int64() > 5000 {
			if ok1 && ok2 && x.cell >= 0 && y.cell >= 0 && x.off == y.off {
				vx, vy := ex.readPath(ex.get(st, x.cell), x.path), ex.readPath(ex.get(st, y.cell), y.path)
				ax, o1 := vx.(*VArrT)
				ay, o2 := vy.(*VArrT)
				if o1 && o2 {
					leaf(path+"[*]", m.Eq(ax.t, ay.t))
					return
				}
			}
			for _, sw := range []bool{false, true} {
				u, v := a, b
				if sw {
					u, v = b, a
				}
				if ch, ok := u.(*VChoice); ok {
					pc := st.pc
					for k, w := range []Value{ch.a, ch.b} {
						g := ch.c
						if k == 1 {
							g = m.Not(g)
						}
						if m.And(pc, g) == m.F {
							continue
						}
						st.pc = m.And(pc, g)
						ex.deepEq(st, n, w, v, path, func(p string, t *Term) { leaf(p, m.Implies(g, t)) })
					}
					st.pc = pc
					return
				}
			}
			// not known to be equal, nor to differ (harmless where the guard cannot hold)
			leaf(path, m.BVar(m.Fresh("equal"+path)))
			return
		}
		pc := st.pc
		for i := int64(0); i < h.Int64(); i++ {
			g := m.And(m.Lt(m.I(i), la), m.Lt(m.I(i), lb))
			if g == m.F {
				break
			}
			st.pc = m.And(pc, g)
			ex.deepEq(st, n, ex.sliceAt(st, a, m.I(i)), ex.sliceAt(st, b, m.I(i)), fmt.Sprintf("%s[%d]", path, i), func(p string, t *Term) {
				leaf(p, m.Implies(g, t))
			})
		}
		st.pc = pc
		return
	}
	switch x := a.(type) {
	case *Term:
		leaf(path, m.Eq(x, ex.scalarT(b)))
		return
	case *VStruct:
		y := b.(*VStruct)
		for i := range x.f {
			fn := ""
			if x.t != nil {
				fn = x.t.Field(i).Name()
			}
			ex.deepEq(st, n, x.f[i], y.f[i], path+"."+fn, leaf)
		}
		return
	case *VVec:
		y := b.(*VVec)
		if len(x.e) != len(y.e) {
			leaf(path+".len", m.F)
			return
		}
		for i := range x.e {
			ex.deepEq(st, n, x.e[i], y.e[i], fmt.Sprintf("%s[%d]", path, i), leaf)
		}
		return
	case *VPtr:
		if y, ok := b.(*VPtr); ok && x.cell >= 0 && y.cell >= 0 {
			leaf(path+".nil", m.Iff(x.nilc, y.nilc))
			ex.deepEq(st, n, ex.readPath(ex.get(st, x.cell), x.path), ex.readPath(ex.get(st, y.cell), y.path), "*"+path, leaf)
			return
		}
	}
	leaf(path, ex.eqV(st, n, a, b))
}

// ensureGoals turns a postcondition into one obligation per leaf.
func (ex *Exec) ensureGoals(st *State, fr *frame, site ast.Node, lbl string, e ast.Expr, guard *Term) {
	m := ex.m
	e = ast.Unparen(e)
	add := func(name string, t *Term) {
		pc := m.And(st.pc, guard)
		t = m.Under(t, pc)
		s2 := *st
		s2.pc = pc
		ex.oblige(&s2, "post", name, site, t)
	}
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		ex.ensureGoals(st, fr, site, lbl, b.X, guard)
		ex.ensureGoals(st, fr, site, lbl, b.Y, guard)
		return
	}
	if c, ok := e.(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if f, ok := fr.pkg.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "/zzvs") {
				switch f.Name() {
				case "Eq":
					a, b := ex.eval(st, fr, c.Args[0]), ex.eval(st, fr, c.Args[1])
					ex.deepEq(st, c, a, b, "", func(p string, t *Term) { add(lbl+p, t) })
					return
				case "Implies":
					g := ex.cond(st, fr, c.Args[0])
					ex.ensureGoals(st, fr, site, lbl, c.Args[1], m.And(guard, g))
					return
				}
			}
		}
	}
	t := ex.cond(st, fr, e)
	if t.op == OAndB && len(t.args) > 8 {
		for i, a := range t.args {
			add(fmt.Sprintf("%s/%d", lbl, i), a)
		}
		return
	}
	add(lbl, t)
}

// ensureAssume uses a proven postcondition at a call site; equalities on modified locations are substituted.
func (ex *Exec) ensureAssume(st *State, fr *frame, e ast.Expr) {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok {
		if b.Op == token.LAND {
			ex.ensureAssume(st, fr, b.X)
			ex.ensureAssume(st, fr, b.Y)
			return
		}
		if b.Op == token.EQL && ex.assignable(fr, b.X) {
			v := ex.eval(st, fr, b.Y)
			ex.store(st, ex.lval(st, fr, b.X), v)
			return
		}
	}
	if c, ok := e.(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Eq" && len(c.Args) == 2 {
			if f, ok := fr.pkg.info.Uses[s.Sel].(*types.Func); ok && strings.HasSuffix(f.Pkg().Path(), "/zzvs") && ex.assignable(fr, c.Args[0]) {
				v := ex.snap(st, ex.eval(st, fr, c.Args[1]))
				ex.store(st, ex.lval(st, fr, c.Args[0]), v)
				return
			}
		}
	}
	ex.assumeT(st, ex.cond(st, fr, e))
}

// assignable: the expression is the result of the contracted call, or a location reached through a parameter.
func (ex *Exec) assignable(fr *frame, e ast.Expr) bool {
	cx := fr.cx
	direct := true
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
			direct = false
		case *ast.IndexExpr:
			e = x.X
			direct = false
		case *ast.StarExpr:
			e = x.X
			direct = false
		case *ast.Ident:
			o := fr.pkg.info.Uses[x]
			if o == nil {
				return false
			}
			if cx.resultVar(fr, o) {
				return true
			}
			return !direct && cx.params[o]
		default:
			return false
		}
	}
}

// resultVar: is the variable the one that receives the result of the target call?
func (cx *cctx) resultVar(fr *frame, o types.Object) bool {
	if r, ok := cx.resVars[o]; ok {
		return r
	}
	found := false
	for _, r := range cx.resultObjs() {
		if r == o && o != nil {
			found = true
		}
	}
	cx.resVars[o] = found
	return found
}

// resultObjs: the contract's variables that receive the results of the target call.
func (cx *cctx) resultObjs() []types.Object {
	var out []types.Object
	if cx.c.target == nil {
		return nil
	}
	ast.Inspect(cx.c.fi.decl.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.AssignStmt)
		if !ok || len(s.Rhs) != 1 || out != nil {
			return true
		}
		c, ok := s.Rhs[0].(*ast.CallExpr)
		if !ok {
			return true
		}
		id := identOf(ast.Unparen(c.Fun))
		if id == nil {
			return true
		}
		if f, ok := cx.c.pkg.info.Uses[id].(*types.Func); ok && f.Origin() == cx.c.target {
			for _, l := range s.Lhs {
				var o types.Object
				if li, ok := l.(*ast.Ident); ok {
					o = cx.c.pkg.info.Defs[li]
					if o == nil {
						o = cx.c.pkg.info.Uses[li]
					}
				}
				out = append(out, o)
			}
		}
		return true
	})
	return out
}
