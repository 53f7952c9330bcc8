package main

// Expressions, conversions and operators.

import (
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
)

func (ex *Exec) cond(st *State, fr *frame, e ast.Expr) *Term { return ex.scalarT(ex.eval(st, fr, e)) }

// evalTo evaluates e where a value of type t is expected (untyped nil, untyped constants).
func (ex *Exec) evalTo(st *State, fr *frame, e ast.Expr, t types.Type) Value {
	if t != nil {
		if tv, ok := fr.pkg.info.Types[e]; ok && tv.IsNil() {
			return ex.zero(t)
		}
	}
	return ex.eval(st, fr, e)
}

func (ex *Exec) eval(st *State, fr *frame, e ast.Expr) Value {
	ex.steps++
	if tv, ok := fr.pkg.info.Types[e]; ok {
		if v, ok := ex.constVal(tv); ok {
			return v
		}
		if tv.IsNil() {
			if _, ok := tv.Type.(*types.Basic); !ok {
				return ex.zero(tv.Type)
			}
			return VNil{}
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.eval(st, fr, x.X)
	case *ast.Ident:
		o := fr.pkg.info.Uses[x]
		if o == nil {
			o = fr.pkg.info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Var:
			return ex.force(ex.get(st, ex.varCell(st, fr, o, e)))
		case *types.Func:
			return &VFunc{obj: o}
		case *types.Nil:
			return VNil{}
		}
		ex.fail(e, "identifier %s", x.Name)
	case *ast.SelectorExpr:
		if sel := fr.pkg.info.Selections[x]; sel != nil {
			switch sel.Kind() {
			case types.FieldVal:
				// reading a field of an rvalue struct
				if _, ok := ex.typeOf(fr, x.X).Underlying().(*types.Pointer); !ok && !addressable(x.X) {
					v := ex.force(ex.eval(st, fr, x.X))
					for _, i := range sel.Index() {
						v = ex.readPath(v, []pe{{field: i}})
					}
					return v
				}
				return ex.load(st, ex.selRef(st, fr, x, sel))
			case types.MethodVal:
				f := sel.Obj().(*types.Func)
				return &VFunc{obj: f, recv: ex.recvVal(st, fr, x, f)}
			}
		}
		switch o := fr.pkg.info.Uses[x.Sel].(type) {
		case *types.Var:
			return ex.force(ex.get(st, ex.globalCell(o)))
		case *types.Func:
			return &VFunc{obj: o}
		}
		ex.fail(e, "selector %s", x.Sel.Name)
	case *ast.IndexExpr:
		if _, isFn := fr.pkg.info.Instances[identOf(x.X)]; isFn {
			return ex.eval(st, fr, x.X)
		}
		xt := ex.typeOf(fr, x.X).Underlying()
		if a, ok := xt.(*types.Array); ok && !addressable(x.X) {
			v := ex.eval(st, fr, x.X)
			i := ex.idx(st, e, ex.scalarT(ex.eval(st, fr, x.Index)), ex.m.I(a.Len()))
			return ex.readPath(v, []pe{{-1, i}})
		}
		switch xt.(type) {
		case *types.Array, *types.Slice, *types.Pointer:
			return ex.load(st, ex.lval(st, fr, x))
		}
		ex.fail(e, "index into %s", xt)
	case *ast.StarExpr:
		return ex.load(st, ex.deref(st, e, ex.eval(st, fr, x.X)))
	case *ast.UnaryExpr:
		return ex.unary(st, fr, x)
	case *ast.BinaryExpr:
		if x.Op == token.LAND || x.Op == token.LOR {
			return ex.shortCircuit(st, fr, x)
		}
		xt, yt := ex.typeOf(fr, x.X), ex.typeOf(fr, x.Y)
		a := ex.eval(st, fr, x.X)
		b := ex.eval(st, fr, x.Y)
		return ex.binop(st, x, x.Op, a, b, xt, yt)
	case *ast.CallExpr:
		return ex.call(st, fr, x)
	case *ast.CompositeLit:
		return ex.composite(st, fr, x, ex.typeOf(fr, x))
	case *ast.FuncLit:
		return &VFunc{lit: x, fr: fr}
	case *ast.SliceExpr:
		return ex.sliceExpr(st, fr, x)
	}
	ex.fail(e, "unsupported expression %T", e)
	return nil
}

func identOf(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return x.Sel
	}
	return nil
}

func addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return addressable(x.X)
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

func hasCall(fr *frame, e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := fr.pkg.info.Types[c.Fun]; ok && tv.IsType() {
				return true
			}
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			r = true
		}
		return true
	})
	return r
}

func (ex *Exec) shortCircuit(st *State, fr *frame, x *ast.BinaryExpr) Value {
	m := ex.m
	l := m.Under(ex.scalarT(ex.eval(st, fr, x.X)), st.pc)
	run := l
	if x.Op == token.LOR {
		run = m.Not(l)
	}
	if run == m.F || st.pc == m.F {
		return l
	}
	if run == m.T {
		return ex.eval(st, fr, x.Y)
	}
	pc := st.pc
	var r *Term
	if hasCall(fr, x.Y) {
		s1 := st.clone()
		s1.pc = m.And(pc, run)
		r = ex.scalarT(ex.eval(s1, fr, x.Y))
		st.pc = m.And(pc, m.Not(run))
		npc := m.orPC(s1.pc, st.pc)
		if s1.pc == m.And(pc, run) {
			npc = pc
		}
		n := ex.mergeS(run, s1, st, npc)
		*st = *n
	} else {
		st.pc = m.And(pc, run)
		r = ex.scalarT(ex.eval(st, fr, x.Y))
		st.pc = pc
	}
	if x.Op == token.LAND {
		return m.And(l, r)
	}
	return m.Or(l, r)
}

func (ex *Exec) unary(st *State, fr *frame, x *ast.UnaryExpr) Value {
	m := ex.m
	if x.Op == token.AND {
		switch y := ast.Unparen(x.X).(type) {
		case *ast.CompositeLit:
			c := ex.newCell()
			st.heap[c] = ex.composite(st, fr, y, ex.typeOf(fr, y))
			return &VPtr{cell: c, nilc: m.F}
		}
		r := ex.lval(st, fr, x.X)
		return ex.ptrOf(r)
	}
	v := ex.force(ex.eval(st, fr, x.X))
	switch x.Op {
	case token.SUB:
		if f, ok := v.(*VFloat); ok {
			return &VFloat{m.Neg(f.n), f.den}
		}
		return ex.wrap(st, x, ex.typeOf(fr, x), m.Neg(ex.scalarT(v)))
	case token.ADD:
		return v
	case token.NOT:
		return m.Not(ex.scalarT(v))
	case token.XOR:
		return ex.wrap(st, x, ex.typeOf(fr, x), m.Sub(m.I(-1), ex.scalarT(v)))
	}
	ex.fail(x, "unary %s", x.Op)
	return nil
}

func (ex *Exec) ptrOf(r *ref) Value {
	if len(r.alts) == 0 {
		return &VPtr{cell: -1, nilc: ex.m.T}
	}
	var v Value = &VPtr{cell: r.alts[len(r.alts)-1].cell, path: r.alts[len(r.alts)-1].path, nilc: ex.m.F}
	for i := len(r.alts) - 2; i >= 0; i-- {
		v = &VChoice{r.alts[i].c, &VPtr{cell: r.alts[i].cell, path: r.alts[i].path, nilc: ex.m.F}, v}
	}
	return v
}

func unsignedBits(t types.Type) int {
	b := basicOf(t)
	if b == nil {
		return 0
	}
	_, hi, u, ok := intRange(b)
	if !ok || !u {
		return 0
	}
	return hi.BitLen()
}

// wrap brings an arithmetic result into its type: unsigned types wrap, signed types must not overflow.
func (ex *Exec) wrap(st *State, n ast.Node, t types.Type, v *Term) *Term {
	b := basicOf(t)
	if b == nil {
		return v
	}
	if b.Kind() == types.UntypedInt || b.Info()&types.IsUntyped != 0 {
		return v
	}
	lo, hi, u, ok := intRange(b)
	if !ok {
		return v
	}
	if v.lo != nil && v.hi != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 {
		return v
	}
	if u {
		return ex.m.modC(v, p2(hi.BitLen()))
	}
	if v.isC() {
		// ground overflow wraps
		w := hi.BitLen() + 1
		x := fmodB(new(big.Int).Add(v.k, p2(w-1)), p2(w))
		return ex.m.C(x.Sub(x, p2(w-1)))
	}
	ex.oblige(st, "overflow", "no overflow", n, ex.m.And(ex.m.Le(ex.m.C(lo), v), ex.m.Le(v, ex.m.C(hi))))
	return v
}

func (ex *Exec) conv(st *State, n ast.Node, v Value, from, to types.Type) Value {
	if to == nil || from == nil {
		return v
	}
	tb, fb := basicOf(to), basicOf(from)
	if _, ok := v.(VNil); ok {
		if _, isIf := to.Underlying().(*types.Interface); !isIf {
			return ex.zero(to)
		}
	}
	if tb == nil {
		return v
	}
	m := ex.m
	switch {
	case tb.Info()&types.IsInteger != 0:
		if f, ok := ex.force(v).(*VFloat); ok {
			return ex.wrap(st, n, to, ex.truncF(f))
		}
		if fb != nil && fb.Info()&(types.IsInteger) != 0 {
			t := ex.scalarT(v)
			lo, hi, u, ok := intRange(tb)
			if !ok {
				return t
			}
			if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
				return t
			}
			if flo, fhi, _, ok := intRange(fb); ok && fb.Info()&types.IsUntyped == 0 && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
				return t // every value of the source type fits
			}
			w := hi.BitLen()
			if u {
				return m.modC(t, p2(w))
			}
			half := m.C(p2(w))
			// already in range on this path? keep the term simple when provable
			return m.Sub(m.modC(m.Add(t, half), p2(w+1)), half)
		}
	case tb.Info()&types.IsFloat != 0:
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			t := ex.scalarT(v)
			lim := m.C(p2(mantissa(to)))
			ex.oblige(st, "overflow", "exact float conversion", n, m.And(m.Le(m.Neg(lim), t), m.Le(t, lim)))
			return &VFloat{t, 0}
		}
		if f, ok := ex.force(v).(*VFloat); ok && mantissa(to) < 53 {
			lim := m.C(p2(mantissa(to)))
			ex.oblige(st, "overflow", "exact float conversion", n, m.And(m.Le(m.Neg(lim), f.n), m.Le(f.n, lim)))
		}
	case tb.Info()&types.IsString != 0:
		if fb != nil && fb.Info()&types.IsString == 0 {
			return &VStr{}
		}
	}
	return v
}

func (ex *Exec) truncF(f *VFloat) *Term {
	if f.den == 0 {
		return f.n
	}
	m := ex.m
	if f.n.lo != nil && f.n.lo.Sign() >= 0 {
		return m.divC(f.n, p2(f.den))
	}
	return m.Ite(m.Le(m.I(0), f.n), m.divC(f.n, p2(f.den)), m.Neg(m.divC(m.Neg(f.n), p2(f.den))))
}

func (ex *Exec) binop(st *State, n ast.Node, op token.Token, a, b Value, at, bt types.Type) Value {
	m := ex.m
	a, b = ex.force(a), ex.force(b)
	switch op {
	case token.EQL:
		return ex.eqV(st, n, a, b)
	case token.NEQ:
		return m.Not(ex.eqV(st, n, a, b))
	}
	t := at
	if bs := basicOf(at); bs != nil && bs.Info()&types.IsUntyped != 0 && op != token.SHL && op != token.SHR {
		t = bt
	}
	fa, ok1 := a.(*VFloat)
	fb, ok2 := b.(*VFloat)
	if ok1 || ok2 || isFloat(t) {
		if !ok1 {
			fa = &VFloat{ex.scalarT(a), 0}
		}
		if !ok2 {
			fb = &VFloat{ex.scalarT(b), 0}
		}
		return ex.floatOp(st, n, op, fa, fb, t)
	}
	if _, ok := a.(*VStr); ok {
		x, y := a.(*VStr), b.(*VStr)
		if op == token.ADD {
			return &VStr{x.s + y.s, x.known && y.known}
		}
		ex.fail(n, "string operation")
	}
	x, y := ex.scalarT(a), ex.scalarT(b)
	switch op {
	case token.ADD:
		return ex.wrap(st, n, t, m.Add(x, y))
	case token.SUB:
		return ex.wrap(st, n, t, m.Sub(x, y))
	case token.MUL:
		return ex.wrap(st, n, t, m.Mul(x, y))
	case token.QUO, token.REM:
		nz := m.Under(m.Not(m.Eq0(y)), st.pc)
		if nz != m.T {
			ex.oblige(st, "safety", "division by zero", n, nz)
			if nz == m.F {
				st.pc = m.F
				return m.I(0)
			}
		}
		q := ex.truncDiv(x, y)
		if op == token.QUO {
			return ex.wrap(st, n, t, q)
		}
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0 {
			return m.Mod(x, y)
		}
		return m.Sub(x, m.Mul(y, q))
	case token.AND:
		return m.BAnd(x, y)
	case token.OR:
		return m.BOr(x, y)
	case token.XOR:
		return m.BXor(x, y)
	case token.AND_NOT:
		return m.Sub(x, m.BAnd(x, y))
	case token.SHL, token.SHR:
		t = at
		if y.lo == nil || y.lo.Sign() < 0 {
			ge := m.Under(m.Le(m.I(0), y), st.pc)
			if ge != m.T {
				ex.oblige(st, "safety", "shift count not negative", n, ge)
				if ge == m.F {
					st.pc = m.F
					return m.I(0)
				}
				// keep going on the paths where it holds
				y = ex.nonNeg(y)
			}
		}
		if c, ok := y.i64(); ok && c > 4000 {
			y = m.I(4000)
		}
		if op == token.SHL {
			return ex.wrap(st, n, t, m.Mul(x, m.Pow2(y)))
		}
		if y.isC() {
			return m.Div(x, m.Pow2(y))
		}
		return m.Div(x, m.Pow2(y))
	case token.LSS:
		return m.Lt(x, y)
	case token.LEQ:
		return m.Le(x, y)
	case token.GTR:
		return m.Lt(y, x)
	case token.GEQ:
		return m.Le(y, x)
	}
	ex.fail(n, "operator %s", op)
	return nil
}

// nonNeg: max(y,0) — equal to y wherever the preceding obligation holds.
func (ex *Exec) nonNeg(y *Term) *Term {
	return ex.m.Ite(ex.m.Le(ex.m.I(0), y), y, ex.m.I(0))
}

func (ex *Exec) truncDiv(x, y *Term) *Term {
	m := ex.m
	if y.lo != nil && y.lo.Sign() > 0 || y.isC() && y.k.Sign() > 0 {
		if x.lo != nil && x.lo.Sign() >= 0 {
			return m.Div(x, y)
		}
		return m.Ite(m.Le(m.I(0), x), m.Div(x, y), m.Neg(m.Div(m.Neg(x), y)))
	}
	if y.isC() && y.k.Sign() < 0 {
		return m.Neg(ex.truncDiv(x, m.Neg(y)))
	}
	pos := m.Ite(m.Le(m.I(0), x), m.Div(x, y), m.Neg(m.Div(m.Neg(x), y)))
	ny := m.Neg(y)
	neg := m.Neg(m.Ite(m.Le(m.I(0), x), m.Div(x, ny), m.Neg(m.Div(m.Neg(x), ny))))
	return m.Ite(m.Lt(m.I(0), y), pos, neg)
}

func (ex *Exec) floatOp(st *State, n ast.Node, op token.Token, a, b *VFloat, t types.Type) Value {
	m := ex.m
	d := max(a.den, b.den)
	x, y := m.Scale(a.n, p2(d-a.den)), m.Scale(b.n, p2(d-b.den))
	exact := func(v *VFloat) Value {
		// exact as long as the numerator fits the mantissa
		lim := m.C(p2(mantissa(t)))
		ex.oblige(st, "overflow", "exact float arithmetic", n, m.And(m.Le(m.Neg(lim), v.n), m.Le(v.n, lim)))
		return v
	}
	switch op {
	case token.ADD:
		return exact(&VFloat{m.Add(x, y), d})
	case token.SUB:
		return exact(&VFloat{m.Sub(x, y), d})
	case token.MUL:
		return exact(&VFloat{m.Mul(a.n, b.n), a.den + b.den})
	case token.QUO:
		if b.n.isC() && b.n.k.Sign() != 0 {
			k := b.n.k
			neg := k.Sign() < 0
			k = new(big.Int).Abs(k)
			if isP2(k) {
				nn := m.Scale(a.n, p2(b.den))
				if neg {
					nn = m.Neg(nn)
				}
				return &VFloat{nn, a.den + int(k.TrailingZeroBits())}
			}
		}
		ex.fail(n, "float division by a value that is not a constant power of two")
	case token.LSS:
		return m.Lt(x, y)
	case token.LEQ:
		return m.Le(x, y)
	case token.GTR:
		return m.Lt(y, x)
	case token.GEQ:
		return m.Le(y, x)
	}
	ex.fail(n, "float operator %s", op)
	return nil
}

// eqV is Go's == on two values.
func (ex *Exec) eqV(st *State, n ast.Node, a, b Value) *Term {
	m := ex.m
	a, b = ex.force(a), ex.force(b)
	switch x := a.(type) {
	case *Term:
		return m.Eq(x, ex.scalarT(b))
	case *VFloat:
		y, ok := b.(*VFloat)
		if !ok {
			y = &VFloat{ex.scalarT(b), 0}
		}
		d := max(x.den, y.den)
		return m.Eq(m.Scale(x.n, p2(d-x.den)), m.Scale(y.n, p2(d-y.den)))
	case *VStruct:
		y := b.(*VStruct)
		r := m.T
		for i := range x.f {
			r = m.And(r, ex.eqV(st, n, x.f[i], y.f[i]))
		}
		return r
	case *VVec:
		y := b.(*VVec)
		r := m.T
		for i := range x.e {
			r = m.And(r, ex.eqV(st, n, x.e[i], y.e[i]))
		}
		return r
	case VNil:
		if _, ok := b.(VNil); ok {
			return m.T
		}
		return ex.eqV(st, n, b, a)
	case *VSlice:
		if isNilV(b) {
			return x.nilc
		}
	case *VPtr:
		if isNilV(b) {
			return x.nilc
		}
		if y, ok := b.(*VPtr); ok {
			if x.cell < 0 {
				return y.nilc
			}
			if y.cell < 0 {
				return x.nilc
			}
			if x.cell != y.cell {
				return m.And(x.nilc, y.nilc)
			}
			if samePath(x.path, y.path) {
				return m.T
			}
		}
	case *VChoice:
		return m.Ite(x.c, ex.eqV(st, n, x.a, b), ex.eqV(st, n, x.b, b))
	case *VStr:
		if y, ok := b.(*VStr); ok && x.known && y.known {
			return m.Bool(x.s == y.s)
		}
	case *VFunc:
		if isNilV(b) {
			return m.F
		}
	}
	ex.fail(n, "comparison of %T and %T", a, b)
	return nil
}

func isNilV(v Value) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case *VSlice:
		return x.cell < 0 && x.nilc.op == OTrue
	case *VPtr:
		return x.cell < 0 && x.nilc.op == OTrue
	}
	return false
}

func (ex *Exec) composite(st *State, fr *frame, x *ast.CompositeLit, t types.Type) Value {
	if t == nil {
		ex.fail(x, "composite literal without type")
	}
	elem := func(e ast.Expr, et types.Type) Value {
		if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
			if p, ok := et.Underlying().(*types.Pointer); ok {
				cell := ex.newCell()
				st.heap[cell] = ex.composite(st, fr, c, p.Elem())
				return &VPtr{cell: cell, nilc: ex.m.F}
			}
			return ex.composite(st, fr, c, et)
		}
		return ex.conv(st, e, ex.evalTo(st, fr, e, et), ex.typeOf(fr, e), et)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := ex.zero(t).(*VStruct)
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						v.f[j] = elem(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				v.f[i] = elem(e, u.Field(i).Type())
			}
		}
		return v
	case *types.Array, *types.Slice:
		var et types.Type
		n := -1
		if a, ok := u.(*types.Array); ok {
			et, n = a.Elem(), int(a.Len())
		} else {
			et = u.(*types.Slice).Elem()
		}
		var es []Value
		pos := 0
		z := ex.zero(et)
		for _, e := range x.Elts {
			val := e
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				k, ok := ex.scalarT(ex.eval(st, fr, kv.Key)).i64()
				if !ok {
					ex.fail(x, "non-constant key")
				}
				pos = int(k)
				val = kv.Value
			}
			for len(es) <= pos {
				es = append(es, z)
			}
			es[pos] = elem(val, et)
			pos++
		}
		if n >= 0 {
			for len(es) < n {
				es = append(es, z)
			}
			return &VVec{e: es}
		}
		c := ex.newCell()
		st.heap[c] = &VVec{e: es}
		l := ex.m.I(int64(len(es)))
		return &VSlice{cell: c, off: ex.m.I(0), ln: l, cap: l, nilc: ex.m.F}
	}
	ex.fail(x, "composite literal of %s", t)
	return nil
}

func (ex *Exec) sliceExpr(st *State, fr *frame, x *ast.SliceExpr) Value {
	m := ex.m
	xt := ex.typeOf(fr, x.X).Underlying()
	var s Value
	switch u := xt.(type) {
	case *types.Slice:
		s = ex.force(ex.eval(st, fr, x.X))
	case *types.Array:
		r := ex.lval(st, fr, x.X)
		if len(r.alts) != 1 {
			ex.fail(x, "slice of merged array")
		}
		n := m.I(u.Len())
		s = &VSlice{r.alts[0].cell, r.alts[0].path, m.I(0), n, n, m.F}
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		r := ex.deref(st, x, ex.eval(st, fr, x.X))
		if len(r.alts) != 1 {
			ex.fail(x, "slice of merged array")
		}
		n := m.I(a.Len())
		s = &VSlice{r.alts[0].cell, r.alts[0].path, m.I(0), n, n, m.F}
	default:
		ex.fail(x, "slice of %s", xt)
	}
	var lo, hi, mx *Term
	if x.Low != nil {
		lo = ex.scalarT(ex.eval(st, fr, x.Low))
	}
	if x.High != nil {
		hi = ex.scalarT(ex.eval(st, fr, x.High))
	}
	if x.Max != nil {
		mx = ex.scalarT(ex.eval(st, fr, x.Max))
	}
	var do func(v Value) Value
	do = func(v Value) Value {
		switch s := ex.force(v).(type) {
		case *VSlice:
			l, h, c := lo, hi, s.cap
			if l == nil {
				l = m.I(0)
			}
			if h == nil {
				h = s.ln
			}
			if mx != nil {
				c = mx
			}
			ok := m.And(m.Le(m.I(0), l), m.Le(l, h), m.Le(h, c), m.Le(c, s.cap))
			ok = m.Under(ok, st.pc)
			if ok != m.T {
				ex.oblige(st, "safety", "slice bounds", x, ok)
			}
			if s.cell < 0 {
				return s
			}
			return &VSlice{s.cell, s.path, m.Add(s.off, l), m.Sub(h, l), m.Sub(c, l), s.nilc}
		case *VChoice:
			pc := st.pc
			st.pc = m.And(pc, s.c)
			a := do(s.a)
			st.pc = m.And(pc, m.Not(s.c))
			b := do(s.b)
			st.pc = pc
			return ex.mergeV(s.c, a, b)
		}
		ex.fail(x, "slice of %T", v)
		return nil
	}
	return do(s)
}

// recvVal computes the receiver argument of a method value x.Sel.
func (ex *Exec) recvVal(st *State, fr *frame, x *ast.SelectorExpr, f *types.Func) Value {
	sg := f.Type().(*types.Signature)
	xt := ex.typeOf(fr, x.X)
	_, wantPtr := sg.Recv().Type().Underlying().(*types.Pointer)
	_, havePtr := xt.Underlying().(*types.Pointer)
	sel := fr.pkg.info.Selections[x]
	if len(sel.Index()) > 1 {
		ex.fail(x, "promoted method")
	}
	switch {
	case wantPtr && !havePtr:
		return ex.ptrOf(ex.lval(st, fr, x.X))
	case !wantPtr && havePtr:
		return ex.load(st, ex.deref(st, x, ex.eval(st, fr, x.X)))
	}
	return ex.eval(st, fr, x.X)
}
