package main

// Symbolic execution of Go function bodies (go/ast + go/types) with state merging.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

type bound struct{ lo, hi *big.Int }

type Obl struct {
	name string
	kind string
	pos  string
	pc   *Term
	goal *Term
	nh   int
	// result
	status  string // discharged / failed / undecided
	backend string
	out     string
	model   map[*Term]*big.Int
	secs    float64
}

type Exec struct {
	stop       func() bool
	w          *World
	m          *TM
	bounds     map[string]bound
	fixed      map[string]int64
	inputs     map[string]bool
	base       map[int]Value
	forced     map[string]Value
	lazyCells  map[string]int
	cellName   map[int]string
	nextCell   int
	globals    map[*types.Var]int
	hyps       []*Term
	obls       []*Obl
	transp     map[*types.Func]bool
	assume     map[string]bool // recorded assumptions
	inlined    map[string]bool // functions executed
	usedC      map[string]bool // contracts used modularly
	depth      int
	steps      int
	mute       int // >0: no obligations recorded
	escaped    map[ast.Node]map[types.Object]bool
	cur        *Contract
	boundsPass bool
	ctxProof   *cctx
	loopSMT    func(pc, cond *Term) bool
	maxUnroll  int
	quiet      map[string]bool
	cases      []int64 // the values of the computed splits of this case
	rangeBusy  map[string]bool
	memo       map[string]Value
	tuples     map[Value]*Term
	loopInv    []*LoopInv
	noFrame    bool
	invEval    bool
}

type frame struct {
	pkg    *Pkg
	env    map[types.Object]int
	parent *frame
	fn     ast.Node
	res    []*types.Var
	cx     *cctx
	fi     *FuncInfo
	loops  int
	own    []int
}

func (f *frame) lookup(o types.Object) (int, bool) {
	for x := f; x != nil; x = x.parent {
		if c, ok := x.env[o]; ok {
			return c, true
		}
	}
	return 0, false
}

type outs struct {
	norm  *State
	rets  []exit
	brks  []lab
	conts []lab
}
type lab struct {
	label string
	st    *State
}

func (o *outs) absorb(x *outs) {
	o.rets = append(o.rets, x.rets...)
	o.brks = append(o.brks, x.brks...)
	o.conts = append(o.conts, x.conts...)
}

func (ex *Exec) oblige(st *State, kind, name string, n ast.Node, goal *Term) {
	if kind == "overflow" && n != nil {
		// specification text: mathematical integers
		if f := ex.w.fset.File(n.Pos()); f != nil {
			if _, ok := ex.w.overlays[f.Name()]; ok {
				return
			}
		}
	}
	if ex.mute > 0 || st.pc == ex.m.F || goal == ex.m.T {
		if goal == ex.m.T && ex.mute == 0 && st.pc != ex.m.F && kind != "overflow" && kind != "safety" {
			ex.obls = append(ex.obls, &Obl{name: name, kind: kind, pos: ex.npos(n), pc: st.pc, goal: goal, nh: len(ex.hyps)})
		}
		return
	}
	ex.obls = append(ex.obls, &Obl{name: name, kind: kind, pos: ex.npos(n), pc: st.pc, goal: goal, nh: len(ex.hyps)})
}

func (ex *Exec) npos(n ast.Node) string {
	if n == nil {
		return ""
	}
	return ex.w.pos(n.Pos())
}

func (ex *Exec) assumeT(st *State, t *Term) {
	h := ex.m.Implies(st.pc, t)
	if h != ex.m.T {
		ex.hyps = append(ex.hyps, h)
	}
}

// ---- statements

func (ex *Exec) block(st *State, fr *frame, list []ast.Stmt) *outs {
	o := &outs{norm: st}
	for i, s := range list {
		if o.norm == nil {
			break
		}
		if o.norm.pc == ex.m.F {
			o.norm = nil
			break
		}
		_ = i
		r := ex.stmt(o.norm, fr, s, "")
		o.absorb(r)
		o.norm = r.norm
	}
	if o.norm != nil && o.norm.pc == ex.m.F {
		o.norm = nil
	}
	return o
}

func (ex *Exec) stmt(st *State, fr *frame, s ast.Stmt, label string) *outs {
	if ex.stop != nil && ex.stop() {
		ex.fail(s, "not attempted: the time budget ended")
	}
	ex.steps++
	switch s := s.(type) {
	case nil, *ast.EmptyStmt:
		return &outs{norm: st}
	case *ast.BlockStmt:
		return ex.block(st, fr, s.List)
	case *ast.ExprStmt:
		ex.eval(st, fr, s.X)
		return &outs{norm: st}
	case *ast.AssignStmt:
		ex.assign(st, fr, s)
		return &outs{norm: st}
	case *ast.IncDecStmt:
		r := ex.lval(st, fr, s.X)
		v := ex.scalarT(ex.load(st, r))
		d := ex.m.I(1)
		if s.Tok == token.DEC {
			d = ex.m.I(-1)
		}
		ex.store(st, r, ex.wrap(st, s, ex.typeOf(fr, s.X), ex.m.Add(v, d)))
		return &outs{norm: st}
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR {
			return &outs{norm: st}
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				t := ex.eval(st, fr, vs.Values[0]).(VTuple)
				for i, n := range vs.Names {
					ex.define(st, fr, n, t[i])
				}
				continue
			}
			for i, n := range vs.Names {
				var v Value
				o := fr.pkg.info.Defs[n]
				if i < len(vs.Values) {
					v = ex.conv(st, vs.Values[i], ex.evalTo(st, fr, vs.Values[i], o.Type()), ex.typeOf(fr, vs.Values[i]), o.Type())
				} else if o != nil {
					v = ex.zero(o.Type())
				}
				ex.define(st, fr, n, v)
			}
		}
		return &outs{norm: st}
	case *ast.LabeledStmt:
		r := ex.stmt(st, fr, s.Stmt, s.Label.Name)
		// break to this label on a non-loop statement
		var ex2 []exit
		var keep []lab
		for _, b := range r.brks {
			if b.label == s.Label.Name {
				ex2 = append(ex2, exit{st: b.st})
			} else {
				keep = append(keep, b)
			}
		}
		if len(ex2) > 0 {
			r.brks = keep
			if r.norm != nil {
				ex2 = append(ex2, exit{st: r.norm})
			}
			if e := ex.mergeExits(st.pc, ex2); e != nil {
				r.norm = e.st
			}
		}
		return r
	case *ast.IfStmt:
		return ex.ifStmt(st, fr, s)
	case *ast.ReturnStmt:
		var vals []Value
		sig := fr.res
		switch {
		case len(s.Results) == 0:
			for _, v := range sig {
				c, _ := fr.lookup(v)
				vals = append(vals, ex.get(st, c))
			}
		case len(s.Results) == 1 && len(sig) > 1:
			vals = []Value(ex.eval(st, fr, s.Results[0]).(VTuple))
		default:
			for i, e := range s.Results {
				t := ex.typeOf(fr, e)
				v := ex.eval(st, fr, e)
				if i < len(sig) {
					v = ex.conv(st, e, v, t, sig[i].Type())
				}
				vals = append(vals, v)
			}
		}
		if st.pc == ex.m.F {
			return &outs{}
		}
		if vals == nil {
			vals = []Value{}
		}
		return &outs{rets: []exit{{st, vals}}}
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			return &outs{brks: []lab{{l, st}}}
		case token.CONTINUE:
			return &outs{conts: []lab{{l, st}}}
		}
		ex.fail(s, "unsupported branch statement %s", s.Tok)
	case *ast.ForStmt:
		return ex.forStmt(st, fr, s, label)
	case *ast.RangeStmt:
		return ex.rangeStmt(st, fr, s, label)
	case *ast.SwitchStmt:
		return ex.switchStmt(st, fr, s, label)
	}
	ex.fail(s, "unsupported statement %T", s)
	return nil
}

func (ex *Exec) ifStmt(st *State, fr *frame, s *ast.IfStmt) *outs {
	o := &outs{}
	if s.Init != nil {
		r := ex.stmt(st, fr, s.Init, "")
		o.absorb(r)
		st = r.norm
		if st == nil {
			return o
		}
	}
	c := ex.cond(st, fr, s.Cond)
	if st.pc == ex.m.F {
		return o
	}
	return ex.branch(st, o, c, func(s1 *State) *outs { return ex.block(s1, fr, s.Body.List) }, func(s2 *State) *outs {
		if s.Else == nil {
			return &outs{norm: s2}
		}
		return ex.stmt(s2, fr, s.Else, "")
	})
}

func (ex *Exec) branch(st *State, o *outs, c *Term, f1, f2 func(*State) *outs) *outs {
	m := ex.m
	c = m.Under(c, st.pc)
	if c == m.T {
		r := f1(st)
		o.absorb(r)
		o.norm = r.norm
		return o
	}
	if c == m.F {
		r := f2(st)
		o.absorb(r)
		o.norm = r.norm
		return o
	}
	pc := st.pc
	s1 := st.clone()
	s2 := st
	s1.pc = m.And(pc, c)
	s2.pc = m.And(pc, m.Not(c))
	r1 := &outs{}
	if s1.pc != m.F {
		r1 = f1(s1)
	}
	r2 := &outs{}
	if s2.pc != m.F {
		r2 = f2(s2)
	}
	clean := len(r1.rets)+len(r1.brks)+len(r1.conts)+len(r2.rets)+len(r2.brks)+len(r2.conts) == 0
	o.absorb(r1)
	o.absorb(r2)
	switch {
	case r1.norm == nil:
		o.norm = r2.norm
	case r2.norm == nil:
		o.norm = r1.norm
	default:
		npc := m.orPC(r1.norm.pc, r2.norm.pc)
		if clean {
			// no path left: the merged condition is that of the fork
			if r1.norm.pc == m.And(pc, c) && r2.norm.pc == m.And(pc, m.Not(c)) {
				npc = pc
			}
		}
		o.norm = ex.mergeS(c, r1.norm, r2.norm, npc)
	}
	return o
}

func (ex *Exec) forStmt(st *State, fr *frame, s *ast.ForStmt, label string) *outs {
	o := &outs{}
	if s.Init != nil {
		r := ex.stmt(st, fr, s.Init, "")
		o.absorb(r)
		st = r.norm
	}
	if st == nil {
		return o
	}
	return ex.unroll(st, fr, o, label, s, func(st *State) *Term {
		if s.Cond == nil {
			return ex.m.T
		}
		return ex.cond(st, fr, s.Cond)
	}, func(st *State) *outs { return ex.block(st, fr, s.Body.List) }, func(st *State) *outs {
		if s.Post == nil {
			return &outs{norm: st}
		}
		return ex.stmt(st, fr, s.Post, "")
	})
}

// unroll executes a loop by complete unrolling; the bound is itself an obligation.
func (ex *Exec) unroll(st *State, fr *frame, o *outs, label string, s ast.Node, cond func(*State) *Term, body, post func(*State) *outs) *outs {
	m := ex.m
	if ls, ok := s.(ast.Stmt); ok {
		if li := ex.findInv(fr, ls); li != nil {
			if _, isFor := s.(*ast.ForStmt); !isFor {
				ex.fail(s, "loop contract on a range statement")
			}
			return ex.loopContract(st, fr, o, label, s, li, cond, body, post)
		}
	}
	base := st.pc
	var exits []exit
	symIter := 0
	for iter := 0; ; iter++ {
		if st == nil || st.pc == m.F {
			break
		}
		c := m.Under(cond(st), st.pc)
		if st.pc == m.F {
			break
		}
		if c == m.F {
			exits = append(exits, exit{st: st})
			break
		}
		if c != m.T {
			symIter++
			if symIter > 6 && ex.loopSMT != nil && ex.loopSMT(st.pc, c) {
				// the loop condition cannot hold here
				ex.oblige(st, "unwind", "loop bound", s, m.Not(c))
				exits = append(exits, exit{st: st})
				break
			}
			if symIter > ex.maxUnroll {
				ex.oblige(st, "unwind", fmt.Sprintf("loop ends within %d iterations", symIter), s, m.Not(c))
				ex.fail(s, "loop not bounded by %d iterations", symIter)
			}
			e := st.clone()
			e.pc = m.And(st.pc, m.Not(c))
			if e.pc != m.F {
				exits = append(exits, exit{st: e})
			}
			st.pc = m.And(st.pc, c)
			if st.pc == m.F {
				break
			}
		} else if iter > 3000000 {
			ex.fail(s, "loop does not end within %d iterations", iter)
		} else if s2, ok := s.(*ast.ForStmt); ok && s2.Cond == nil || st.pc != base {
			// unconditional continuation along a symbolic path: the exit is a break
			if iter > 6 && st.pc != base && ex.loopSMT != nil && iter%4 == 0 && ex.loopSMT(st.pc, m.T) {
				st.pc = m.F
				break
			}
			if iter > 4000 && st.pc != base {
				ex.fail(s, "loop not bounded by %d iterations", iter)
			}
		}
		r := body(st)
		o.rets = append(o.rets, r.rets...)
		var next []exit
		if r.norm != nil {
			next = append(next, exit{st: r.norm})
		}
		for _, b := range r.brks {
			if b.label == "" || b.label == label {
				exits = append(exits, exit{st: b.st})
			} else {
				o.brks = append(o.brks, b)
			}
		}
		for _, b := range r.conts {
			if b.label == "" || b.label == label {
				next = append(next, exit{st: b.st})
			} else {
				o.conts = append(o.conts, b)
			}
		}
		e := ex.mergeExits(base, next)
		if e == nil {
			st = nil
			break
		}
		st = e.st
		r = post(st)
		o.absorb(r)
		st = r.norm
	}
	if e := ex.mergeExits(base, exits); e != nil {
		o.norm = e.st
	}
	return o
}

func (ex *Exec) rangeStmt(st *State, fr *frame, s *ast.RangeStmt, label string) *outs {
	m := ex.m
	o := &outs{}
	xt := ex.typeOf(fr, s.X)
	x := ex.force(ex.eval(st, fr, s.X))
	var n *Term
	var at func(st *State, i *Term) Value
	switch u := xt.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			ex.fail(s, "range over %s", xt)
		}
		n = x.(*Term)
	case *types.Array:
		n = m.I(u.Len())
		at = func(st *State, i *Term) Value { return ex.readPath(x, []pe{{-1, i}}) }
	case *types.Slice:
		n = ex.lenOf(x)
		at = func(st *State, i *Term) Value { return ex.sliceAt(st, x, i) }
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			n = m.I(a.Len())
			at = func(st *State, i *Term) Value {
				return ex.readPath(ex.load(st, ex.deref(st, s, x)), []pe{{-1, i}})
			}
		}
	}
	if n == nil {
		ex.fail(s, "range over %s", xt)
	}
	set := func(st *State, e ast.Expr, v Value) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if s.Tok == token.DEFINE {
				ex.define(st, fr, id, v)
				return
			}
		}
		ex.store(st, ex.lval(st, fr, e), v)
	}
	i := m.I(0)
	return ex.unroll(st, fr, o, label, s, func(st *State) *Term { return m.Lt(i, n) }, func(st *State) *outs {
		set(st, s.Key, i)
		if s.Value != nil {
			set(st, s.Value, at(st, i))
		}
		return ex.block(st, fr, s.Body.List)
	}, func(st *State) *outs { i = m.Add(i, m.I(1)); return &outs{norm: st} })
}

func (ex *Exec) switchStmt(st *State, fr *frame, s *ast.SwitchStmt, label string) *outs {
	m := ex.m
	o := &outs{}
	if s.Init != nil {
		r := ex.stmt(st, fr, s.Init, "")
		o.absorb(r)
		st = r.norm
	}
	if st == nil {
		return o
	}
	var tag Value
	var tt types.Type
	if s.Tag != nil {
		tag = ex.eval(st, fr, s.Tag)
		tt = ex.typeOf(fr, s.Tag)
	}
	base := st.pc
	var exits []exit
	var clauses []*ast.CaseClause
	def := -1
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = len(clauses)
		}
		clauses = append(clauses, cc)
	}
	// run clause i (with fallthrough) from state
	var run func(st *State, i int)
	run = func(st *State, i int) {
		body := clauses[i].Body
		ft := false
		if n := len(body); n > 0 {
			if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				ft = true
				body = body[:n-1]
			}
		}
		r := ex.block(st, fr, body)
		o.rets = append(o.rets, r.rets...)
		o.conts = append(o.conts, r.conts...)
		for _, b := range r.brks {
			if b.label == "" || b.label == label {
				exits = append(exits, exit{st: b.st})
			} else {
				o.brks = append(o.brks, b)
			}
		}
		if r.norm != nil {
			if ft && i+1 < len(clauses) {
				run(r.norm, i+1)
			} else {
				exits = append(exits, exit{st: r.norm})
			}
		}
	}
	cur := st
	for i, cc := range clauses {
		if cc.List == nil {
			continue
		}
		for _, e := range cc.List {
			if cur == nil {
				break
			}
			var c *Term
			if s.Tag == nil {
				c = ex.cond(cur, fr, e)
			} else {
				v := ex.eval(cur, fr, e)
				_ = tt
				c = ex.eqV(cur, e, tag, v)
			}
			c = m.Under(c, cur.pc)
			if c == m.F {
				continue
			}
			if c == m.T {
				run(cur, i)
				cur = nil
				break
			}
			s1 := cur.clone()
			s1.pc = m.And(cur.pc, c)
			cur.pc = m.And(cur.pc, m.Not(c))
			if s1.pc != m.F {
				run(s1, i)
			}
			if cur.pc == m.F {
				cur = nil
			}
		}
	}
	if cur != nil {
		if def >= 0 {
			run(cur, def)
		} else {
			exits = append(exits, exit{st: cur})
		}
	}
	if e := ex.mergeExits(base, exits); e != nil {
		o.norm = e.st
	}
	return o
}

// ---- assignment

func (ex *Exec) define(st *State, fr *frame, id *ast.Ident, v Value) {
	if id.Name == "_" {
		return
	}
	o := fr.pkg.info.Defs[id]
	if o == nil {
		o = fr.pkg.info.Uses[id]
		c, ok := fr.lookup(o)
		if !ok {
			ex.fail(id, "unknown variable %s", id.Name)
		}
		st.heap[c] = v
		return
	}
	ex.bind(st, fr, o, v)
}

func (ex *Exec) bind(st *State, fr *frame, o types.Object, v Value) {
	c, ok := fr.env[o]
	if !ok || ex.esc(fr, o) {
		c = ex.newCell()
		fr.env[o] = c
		if !ex.esc(fr, o) {
			fr.own = append(fr.own, c)
		}
	}
	st.heap[c] = v
}

// esc: is the variable captured by a closure or is its address taken?
func (ex *Exec) esc(fr *frame, o types.Object) bool {
	if fr.fn == nil {
		return true
	}
	set, ok := ex.escaped[fr.fn]
	if !ok {
		set = map[types.Object]bool{}
		info := fr.pkg.info
		var mark func(e ast.Expr)
		mark = func(e ast.Expr) {
			switch x := e.(type) {
			case *ast.Ident:
				if o := info.Uses[x]; o != nil {
					set[o] = true
				}
			case *ast.SelectorExpr:
				mark(x.X)
			case *ast.IndexExpr:
				mark(x.X)
			case *ast.ParenExpr:
				mark(x.X)
			case *ast.SliceExpr:
				mark(x.X)
			}
		}
		depth := 0
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncLit:
					if x != fr.fn {
						depth++
						ast.Inspect(x.Body, func(y ast.Node) bool {
							if id, ok := y.(*ast.Ident); ok {
								if o := info.Uses[id]; o != nil {
									set[o] = true
								}
							}
							return true
						})
						depth--
					}
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.SliceExpr:
					mark(x.X)
				case *ast.CallExpr:
					// implicit & of method receivers
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						if sel := info.Selections[se]; sel != nil {
							if f, ok := sel.Obj().(*types.Func); ok {
								if sg := f.Type().(*types.Signature); sg.Recv() != nil {
									if _, p := sg.Recv().Type().(*types.Pointer); p {
										mark(se.X)
									}
								}
							}
						}
					}
				}
				return true
			})
		}
		walk(fr.fn)
		ex.escaped[fr.fn] = set
	}
	return set[o]
}

func (ex *Exec) assign(st *State, fr *frame, s *ast.AssignStmt) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
			token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		r := ex.lval(st, fr, s.Lhs[0])
		rv := ex.eval(st, fr, s.Rhs[0])
		lv := ex.load(st, r)
		lt := ex.typeOf(fr, s.Lhs[0])
		v := ex.binop(st, s, op, lv, rv, lt, ex.typeOf(fr, s.Rhs[0]))
		ex.store(st, r, v)
		return
	}
	var vals []Value
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		v := ex.eval(st, fr, s.Rhs[0])
		t, ok := v.(VTuple)
		if !ok {
			if _, op := v.(*VOpaque); op {
				for range s.Lhs {
					t = append(t, v)
				}
			} else {
				ex.fail(s, "unsupported multi-value assignment")
			}
		}
		vals = t
		ex.doAssign(st, fr, s, vals)
		return
	}
	if len(s.Lhs) == 1 && s.Tok == token.ASSIGN {
		l := s.Lhs[0]
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			ex.eval(st, fr, s.Rhs[0])
			return
		}
		// operands of the left side first, as Go does
		if !simpleLHS(l) {
			r := ex.lval(st, fr, l)
			lt := ex.typeOf(fr, l)
			v := ex.evalTo(st, fr, s.Rhs[0], lt)
			v = ex.conv(st, s.Rhs[0], v, ex.typeOf(fr, s.Rhs[0]), lt)
			ex.store(st, r, v)
			return
		}
	}
	for i, e := range s.Rhs {
		var lt types.Type
		if id, ok := s.Lhs[i].(*ast.Ident); !ok || id.Name != "_" {
			if s.Tok == token.DEFINE {
				if o := fr.pkg.info.Defs[s.Lhs[i].(*ast.Ident)]; o != nil {
					lt = o.Type()
				}
			}
			if lt == nil {
				lt = ex.typeOf(fr, s.Lhs[i])
			}
		}
		v := ex.evalTo(st, fr, e, lt)
		if lt != nil {
			v = ex.conv(st, e, v, ex.typeOf(fr, e), lt)
		}
		vals = append(vals, v)
	}
	ex.doAssign(st, fr, s, vals)
}

func simpleLHS(l ast.Expr) bool {
	_, ok := l.(*ast.Ident)
	return ok
}

func (ex *Exec) doAssign(st *State, fr *frame, s *ast.AssignStmt, vals []Value) {
	if s.Tok == token.DEFINE {
		for i, l := range s.Lhs {
			ex.define(st, fr, l.(*ast.Ident), vals[i])
		}
		return
	}
	var refs []*ref
	for _, l := range s.Lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			refs = append(refs, nil)
			continue
		}
		refs = append(refs, ex.lval(st, fr, l))
	}
	for i, r := range refs {
		if r != nil {
			ex.store(st, r, vals[i])
		}
	}
}

// ---- references

type alt struct {
	c    *Term
	cell int
	path []pe
}
type ref struct{ alts []alt }

func (ex *Exec) load(st *State, r *ref) Value {
	if len(r.alts) == 0 {
		return &VOpaque{"value behind a nil pointer"}
	}
	last := r.alts[len(r.alts)-1]
	v := ex.readPath(ex.get(st, last.cell), last.path)
	for i := len(r.alts) - 2; i >= 0; i-- {
		a := r.alts[i]
		v = ex.mergeV(a.c, ex.readPath(ex.get(st, a.cell), a.path), v)
	}
	return v
}

func (ex *Exec) store(st *State, r *ref, v Value) {
	for i, a := range r.alts {
		g := a.c
		if len(r.alts) == 1 {
			g = ex.m.T
		} else if i == len(r.alts)-1 {
			g = a.c
		}
		st.heap[a.cell] = ex.writePath(ex.get(st, a.cell), a.path, v, g)
	}
}

func (r *ref) ext(p pe) *ref {
	n := &ref{}
	for _, a := range r.alts {
		n.alts = append(n.alts, alt{a.c, a.cell, append(append([]pe(nil), a.path...), p)})
	}
	return n
}

func (ex *Exec) deref(st *State, n ast.Node, v Value) *ref {
	v = ex.force(v)
	switch p := v.(type) {
	case *VPtr:
		if p.nilc != ex.m.F {
			ex.oblige(st, "safety", "nil pointer dereference", n, ex.m.Not(p.nilc))
			st.pc = ex.m.And(st.pc, ex.m.Not(p.nilc))
			if p.cell < 0 {
				st.pc = ex.m.F
				return &ref{}
			}
		}
		return &ref{[]alt{{ex.m.T, p.cell, p.path}}}
	case *VChoice:
		pc := st.pc
		var out ref
		st.pc = ex.m.And(pc, p.c)
		ra := ex.deref(st, n, p.a)
		pa := st.pc
		st.pc = ex.m.And(pc, ex.m.Not(p.c))
		rb := ex.deref(st, n, p.b)
		pb := st.pc
		st.pc = ex.m.orPC(pa, pb)
		for _, a := range ra.alts {
			out.alts = append(out.alts, alt{ex.m.And(p.c, a.c), a.cell, a.path})
		}
		for _, a := range rb.alts {
			out.alts = append(out.alts, alt{ex.m.And(ex.m.Not(p.c), a.c), a.cell, a.path})
		}
		return &out
	case *VOpaque:
		ex.fail(n, "dereference of %s", p.name)
	}
	ex.fail(n, "dereference of %T", v)
	return nil
}

func (ex *Exec) lval(st *State, fr *frame, e ast.Expr) *ref {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.lval(st, fr, x.X)
	case *ast.Ident:
		o := fr.pkg.info.Uses[x]
		if o == nil {
			o = fr.pkg.info.Defs[x]
		}
		v, ok := o.(*types.Var)
		if !ok {
			ex.fail(e, "not a variable: %s", x.Name)
		}
		return &ref{[]alt{{ex.m.T, ex.varCell(st, fr, v, e), nil}}}
	case *ast.StarExpr:
		return ex.deref(st, e, ex.eval(st, fr, x.X))
	case *ast.SelectorExpr:
		if sel := fr.pkg.info.Selections[x]; sel != nil {
			return ex.selRef(st, fr, x, sel)
		}
		if v, ok := fr.pkg.info.Uses[x.Sel].(*types.Var); ok {
			return &ref{[]alt{{ex.m.T, ex.globalCell(v), nil}}}
		}
	case *ast.IndexExpr:
		xt := ex.typeOf(fr, x.X).Underlying()
		if p, ok := xt.(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); ok {
				r := ex.deref(st, e, ex.eval(st, fr, x.X))
				i := ex.scalarT(ex.eval(st, fr, x.Index))
				i = ex.idx(st, e, i, ex.m.I(p.Elem().Underlying().(*types.Array).Len()))
				return r.ext(pe{-1, i})
			}
		}
		switch u := xt.(type) {
		case *types.Array:
			r := ex.lval(st, fr, x.X)
			i := ex.scalarT(ex.eval(st, fr, x.Index))
			i = ex.idx(st, e, i, ex.m.I(u.Len()))
			return r.ext(pe{-1, i})
		case *types.Slice:
			s := ex.eval(st, fr, x.X)
			i := ex.scalarT(ex.eval(st, fr, x.Index))
			i = ex.idx(st, e, i, ex.lenOf(s))
			if _, ok := u.Elem().Underlying().(*types.Slice); ok && !i.isC() {
				i = ex.inCase(st, i)
			}
			return ex.sliceRef(st, e, s, i)
		}
	case *ast.CompositeLit, *ast.CallExpr:
		v := ex.eval(st, fr, e)
		c := ex.newCell()
		st.heap[c] = v
		return &ref{[]alt{{ex.m.T, c, nil}}}
	}
	ex.fail(e, "unsupported lvalue %T", e)
	return nil
}

// idx emits the bounds obligation and returns the index simplified under the path condition.
func (ex *Exec) idx(st *State, n ast.Node, i, ln *Term) *Term {
	m := ex.m
	if i.isC() && ln.isC() && i.k.Sign() >= 0 && i.k.Cmp(ln.k) < 0 {
		return i
	}
	c := m.And(m.Le(m.I(0), i), m.Lt(i, ln))
	if c != m.T {
		c = m.Under(c, st.pc)
		if c != m.T {
			ex.oblige(st, "safety", "index in range", n, c)
			if c == m.F {
				st.pc = m.F
			}
		}
	}
	if !i.isC() {
		i = m.Under(i, st.pc)
	}
	return i
}

// inCase: the number, if the solver shows that it is one of the values of the current case (which table of tables is meant).
func (ex *Exec) inCase(st *State, i *Term) *Term {
	m := ex.m
	seen := map[int64]bool{}
	for _, v := range ex.cases {
		if seen[v] || m.Lt(m.I(v), i) == m.T || m.Lt(i, m.I(v)) == m.T {
			continue
		}
		seen[v] = true
		if ex.loopSMT != nil && ex.loopSMT(st.pc, m.Not(m.Eq(i, m.I(v)))) {
			return m.I(v)
		}
	}
	return i
}

func (ex *Exec) sliceRef(st *State, n ast.Node, v Value, i *Term) *ref {
	v = ex.force(v)
	switch s := v.(type) {
	case *VSlice:
		if s.cell < 0 {
			return &ref{}
		}
		return &ref{[]alt{{ex.m.T, s.cell, append(append([]pe(nil), s.path...), pe{-1, ex.m.Add(s.off, i)})}}}
	case *VChoice:
		var out ref
		for _, a := range ex.sliceRef(st, n, s.a, i).alts {
			out.alts = append(out.alts, alt{ex.m.And(s.c, a.c), a.cell, a.path})
		}
		for _, a := range ex.sliceRef(st, n, s.b, i).alts {
			out.alts = append(out.alts, alt{ex.m.And(ex.m.Not(s.c), a.c), a.cell, a.path})
		}
		return &out
	case *VOpaque:
		ex.fail(n, "index into %s", s.name)
	}
	ex.fail(n, "index into %T", v)
	return nil
}

func (ex *Exec) sliceAt(st *State, v Value, i *Term) Value {
	return ex.load(st, ex.sliceRef(st, nil, v, i))
}

func (ex *Exec) lenOf(v Value) *Term {
	v = ex.force(v)
	switch s := v.(type) {
	case *VSlice:
		return s.ln
	case *VChoice:
		return ex.m.Ite(s.c, ex.lenOf(s.a), ex.lenOf(s.b))
	case *VVec:
		return ex.m.I(int64(len(s.e)))
	case *VStr:
		if s.known {
			return ex.m.I(int64(len(s.s)))
		}
	case *VOpaque:
		ex.fail(nil, "len of %s", s.name)
	}
	ex.fail(nil, "len of %T", v)
	return nil
}
func (ex *Exec) capOf(v Value) *Term {
	v = ex.force(v)
	switch s := v.(type) {
	case *VSlice:
		return s.cap
	case *VChoice:
		return ex.m.Ite(s.c, ex.capOf(s.a), ex.capOf(s.b))
	case *VVec:
		return ex.m.I(int64(len(s.e)))
	}
	ex.fail(nil, "cap of %T", v)
	return nil
}

func (ex *Exec) selRef(st *State, fr *frame, x *ast.SelectorExpr, sel *types.Selection) *ref {
	if sel.Kind() != types.FieldVal {
		ex.fail(x, "method value")
	}
	xt := ex.typeOf(fr, x.X)
	var r *ref
	if _, ok := xt.Underlying().(*types.Pointer); ok {
		r = ex.deref(st, x, ex.eval(st, fr, x.X))
		xt = xt.Underlying().(*types.Pointer).Elem()
	} else {
		r = ex.lval(st, fr, x.X)
	}
	t := xt
	for k, i := range sel.Index() {
		if k > 0 {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				r = ex.deref(st, x, ex.load(st, r))
				t = p.Elem()
			}
		}
		r = r.ext(pe{field: i})
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return r
}

func (ex *Exec) varCell(st *State, fr *frame, v *types.Var, n ast.Node) int {
	if c, ok := fr.lookup(v); ok {
		return c
	}
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return ex.globalCell(v)
	}
	ex.fail(n, "unbound variable %s", v.Name())
	return 0
}

func (ex *Exec) globalCell(v *types.Var) int {
	if c, ok := ex.globals[v]; ok {
		return c
	}
	c := ex.newCell()
	ex.globals[v] = c
	ex.cellName[c] = v.Pkg().Name() + "." + v.Name()
	vi := ex.w.varDecl[v]
	if vi == nil {
		ex.base[c] = &VOpaque{"variable " + v.Pkg().Path() + "." + v.Name()}
		return c
	}
	if p, ok := ex.w.mutated[v]; ok {
		ex.assume["package variable "+v.Pkg().Name()+"."+v.Name()+" (assigned at "+p+") has its declared initial value on entry"] = true
	}
	if vi.expr == nil {
		ex.base[c] = ex.zero(vi.typ)
		return c
	}
	ex.mute++
	st := &State{heap: map[int]Value{}, pc: ex.m.T}
	fr := &frame{pkg: vi.pkg, env: map[types.Object]int{}}
	val := ex.conv(st, vi.expr, ex.evalTo(st, fr, vi.expr, vi.typ), ex.typeOf(fr, vi.expr), vi.typ)
	ex.mute--
	for k, x := range st.heap {
		ex.base[k] = x
		if ex.cellName[k] == "" {
			ex.cellName[k] = ex.cellName[c] + "[]"
		}
	}
	ex.base[c] = val
	return c
}

func (ex *Exec) typeOf(fr *frame, e ast.Expr) types.Type {
	if tv, ok := fr.pkg.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fr.pkg.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := fr.pkg.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (ex *Exec) constVal(tv types.TypeAndValue) (Value, bool) {
	if tv.Value == nil {
		return nil, false
	}
	switch tv.Value.Kind() {
	case constant.Bool:
		return ex.m.Bool(constant.BoolVal(tv.Value)), true
	case constant.String:
		return &VStr{constant.StringVal(tv.Value), true}, true
	}
	if isFloat(tv.Type) {
		f := constant.ToFloat(tv.Value)
		num, den := constant.Num(f), constant.Denom(f)
		nb, ok1 := new(big.Int).SetString(num.ExactString(), 10)
		db, ok2 := new(big.Int).SetString(den.ExactString(), 10)
		if ok1 && ok2 && isP2(db) {
			return &VFloat{ex.m.C(nb), int(db.TrailingZeroBits())}, true
		}
		return &VOpaque{"float constant " + tv.Value.String()}, true
	}
	i := constant.ToInt(tv.Value)
	if i.Kind() == constant.Int {
		b, ok := new(big.Int).SetString(i.ExactString(), 10)
		if ok {
			return ex.m.C(b), true
		}
	}
	return nil, false
}

func newExec(w *World) *Exec {
	return &Exec{w: w, m: NewTM(), bounds: map[string]bound{}, fixed: map[string]int64{}, inputs: map[string]bool{}, base: map[int]Value{},
		forced: map[string]Value{}, lazyCells: map[string]int{}, cellName: map[int]string{}, globals: map[*types.Var]int{}, transp: map[*types.Func]bool{},
		assume: map[string]bool{}, inlined: map[string]bool{}, usedC: map[string]bool{}, escaped: map[ast.Node]map[types.Object]bool{}, maxUnroll: 80,
		rangeBusy: map[string]bool{}, memo: map[string]Value{}, tuples: map[Value]*Term{}}
}
