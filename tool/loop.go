package main

// Loops with a contract: inductive invariant, variant, computed frame.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

type LoopInv struct {
	target *types.Func
	n      int
	fi     *FuncInfo
}

// collectInvariant handles "//@ invariant: Func#n".
func (w *World) collectInvariant(pk *Pkg, spec string, fi *FuncInfo) {
	t, ns, _ := strings.Cut(spec, "#")
	n, _ := strconv.Atoi(strings.TrimSpace(ns))
	f := w.lookupTarget(pk, strings.TrimSpace(t))
	if f == nil {
		return
	}
	w.invariants = append(w.invariants, &LoopInv{f, n, fi})
}

func (ex *Exec) findInv(fr *frame, s ast.Stmt) *LoopInv {
	if len(ex.loopInv) == 0 {
		return nil
	}
	var fi *FuncInfo
	for f := fr; f != nil; f = f.parent {
		if f.fi != nil {
			fi = f.fi
			break
		}
	}
	if fi == nil {
		return nil
	}
	k, found := 0, -1
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if n == ast.Node(s) {
				found = k
			}
			k++
		}
		return true
	})
	for _, li := range ex.loopInv {
		if li.target == fi.obj && li.n == found {
			return li
		}
	}
	return nil
}

// visible returns the variables in scope at a loop, innermost last, in declaration order.
func visible(fr *frame) []types.Object {
	var out []types.Object
	for f := fr; f != nil; f = f.parent {
		for o := range f.env {
			out = append(out, o)
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].Pos() < out[i].Pos() {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

type hloc struct {
	cell int
	path []pe
	t    types.Type
	name string
}

// changed lists the scalar locations whose value differs between two heaps.
func (ex *Exec) changed(a, b *State, fr *frame, add func(hloc)) {
	ct := map[int]types.Type{}
	for f := fr; f != nil; f = f.parent {
		for o, c := range f.env {
			ct[c] = o.Type()
		}
	}
	cells := map[int]bool{}
	for c := range b.heap {
		cells[c] = true
	}
	for _, c := range sortedKeys(cells) {
		pre, ok := a.heap[c]
		if !ok {
			pre, ok = ex.base[c]
		}
		if !ok {
			continue
		}
		var rec func(x, y Value, path []pe, t types.Type, name string)
		rec = func(x, y Value, path []pe, t types.Type, name string) {
			if sameV(x, y) {
				return
			}
			if la, ok := x.(*VLazy); ok {
				if lb, ok := y.(*VLazy); ok && la.name == lb.name {
					return
				}
				if t == nil {
					t = la.t
				}
			}
			x, y = ex.force(x), ex.force(y)
			if sameV(x, y) {
				return
			}
			sub := func(p pe) []pe { return append(append([]pe(nil), path...), p) }
			switch p := x.(type) {
			case *VStruct:
				if q, ok := y.(*VStruct); ok {
					for i := range p.f {
						fn := ""
						var ft types.Type
						if p.t != nil {
							fn = p.t.Field(i).Name()
							ft = p.t.Field(i).Type()
						}
						rec(p.f[i], q.f[i], sub(pe{field: i}), ft, name+"."+fn)
					}
					return
				}
			case *VVec:
				if q, ok := y.(*VVec); ok && len(p.e) == len(q.e) {
					for i := range p.e {
						rec(p.e[i], q.e[i], sub(pe{-1, ex.m.I(int64(i))}), nil, fmt.Sprintf("%s[%d]", name, i))
					}
					return
				}
			case *Term, *VArrT:
				add(hloc{c, path, t, name})
				return
			}
			ex.fail(nil, "loop changes %s of kind %T", name, x)
		}
		rec(pre, b.heap[c], nil, ct[c], ex.cellName[c])
	}
}

func (ex *Exec) havocLoc(st *State, l hloc) {
	cur := ex.force(ex.readPath(ex.get(st, l.cell), l.path))
	var nv Value
	if t, ok := cur.(*Term); ok && t.sort == SInt && l.t != nil && isInt(l.t) {
		nv = ex.force(ex.sym(ex.m.Fresh("loop."+l.name), l.t))
	} else {
		nv = ex.havocLike(cur, "loop."+l.name)
	}
	st.heap[l.cell] = ex.writePath(ex.get(st, l.cell), l.path, nv, ex.m.T)
}

// loopContract verifies a loop against its invariant.
func (ex *Exec) loopContract(st *State, fr *frame, o *outs, label string, s ast.Node, li *LoopInv,
	cond func(*State) *Term, body, post func(*State) *outs) *outs {
	m := ex.m
	base := st.pc
	entry := st.clone()
	iter := func(st *State) (outSt *State, r *outs) { // one iteration after the condition
		r = body(st)
		var next []exit
		if r.norm != nil {
			next = append(next, exit{st: r.norm})
		}
		var keep []lab
		for _, b := range r.conts {
			if b.label == "" || b.label == label {
				next = append(next, exit{st: b.st})
			} else {
				keep = append(keep, b)
			}
		}
		r.conts = keep
		e := ex.mergeExits(base, next)
		if e == nil {
			return nil, r
		}
		p := post(e.st)
		return p.norm, r
	}
	// frame of the loop: fixpoint over the havoced locations
	var locs []hloc
	ikey := func(l hloc) string {
		k := fmt.Sprint(l.cell)
		for _, p := range l.path {
			if p.idx != nil {
				k += fmt.Sprintf("[%d]", p.idx.id)
			} else {
				k += fmt.Sprintf(".%d", p.field)
			}
		}
		return k
	}
	have := map[string]bool{}
	inv := func(st *State, pre *State) (*Term, *Term) { return ex.evalInv(st, pre, fr, li, s) }
	for round := 0; ; round++ {
		if round > 8 {
			ex.fail(s, "loop frame does not stabilise")
		}
		h := entry.clone()
		for _, l := range locs {
			ex.havocLoc(h, l)
		}
		nh := len(ex.hyps)
		ex.mute++
		c := cond(h)
		h.pc = m.And(h.pc, c)
		start := h.clone()
		n := len(locs)
		note := func(b *State) {
			if b == nil {
				return
			}
			ex.changed(start, b, fr, func(l hloc) {
				if k := ikey(l); !have[k] {
					have[k] = true
					locs = append(locs, l)
				}
			})
		}
		if h.pc != m.F {
			end, _ := iter(h)
			note(end)
		}
		ex.mute--
		ex.hyps = ex.hyps[:nh]
		if len(locs) == n {
			break
		}
	}
	// initialisation
	i0, _ := inv(entry.clone(), entry)
	ex.oblige(entry, "invariant", "loop invariant holds on entry", s, m.Under(i0, entry.pc))
	// arbitrary iteration
	h := entry.clone()
	for _, l := range locs {
		ex.havocLoc(h, l)
	}
	ih, v0 := inv(h, entry)
	ex.assumeT(h, ih)
	c := m.Under(cond(h), h.pc)
	var exits []exit
	if c != m.T {
		e := h.clone()
		e.pc = m.And(h.pc, m.Not(c))
		exits = append(exits, exit{st: e})
	}
	if c != m.F {
		b := h.clone()
		b.pc = m.And(h.pc, c)
		if v0 != nil {
			ex.oblige(b, "variant", "loop variant is not negative", s, m.Under(m.Le(m.I(0), v0), b.pc))
		}
		end, r := iter(b)
		o.rets = append(o.rets, r.rets...)
		for _, x := range r.brks {
			if x.label == "" || x.label == label {
				exits = append(exits, exit{st: x.st})
			} else {
				o.brks = append(o.brks, x)
			}
		}
		o.conts = append(o.conts, r.conts...)
		if end != nil {
			i1, v1 := inv(end, entry)
			ex.oblige(end, "invariant", "loop invariant is preserved", s, m.Under(i1, end.pc))
			if v0 != nil {
				ex.oblige(end, "variant", "loop variant decreases", s, m.Under(m.Lt(v1, v0), end.pc))
			}
		}
	}
	if e := ex.mergeExits(base, exits); e != nil {
		o.norm = e.st
	}
	return o
}

// evalInv evaluates an invariant function; pre_x names the value of x on loop entry.
func (ex *Exec) evalInv(st, pre *State, fr *frame, li *LoopInv, n ast.Node) (*Term, *Term) {
	sig := li.fi.obj.Type().(*types.Signature)
	vis := visible(fr)
	usedV := map[types.Object]bool{}
	byName := func(nm string) types.Object {
		for i := len(vis) - 1; i >= 0; i-- {
			if vis[i].Name() == nm {
				return vis[i]
			}
		}
		return nil
	}
	alias := map[string]types.Object{}
	for i := 0; i < sig.Params().Len(); i++ {
		nm := strings.TrimPrefix(sig.Params().At(i).Name(), "pre_")
		if o := byName(nm); o != nil && types.Identical(o.Type(), sig.Params().At(i).Type()) {
			alias[nm] = o
			usedV[o] = true
		}
	}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		nm := strings.TrimPrefix(p.Name(), "pre_")
		o := alias[nm]
		if o == nil {
			// renamed: the first variable of that type not otherwise bound
			for _, v := range vis {
				if !usedV[v] && types.Identical(v.Type(), p.Type()) {
					o = v
					break
				}
			}
			if o == nil {
				ex.fail(n, "loop invariant: no variable for %s", p.Name())
			}
			alias[nm] = o
			usedV[o] = true
		}
		c, _ := fr.lookup(o)
		if strings.HasPrefix(p.Name(), "pre_") {
			// snapshot of the value on entry, copied into this state
			args = append(args, ex.snapFrom(pre, st, ex.get(pre, c)))
		} else {
			args = append(args, ex.get(st, c))
		}
	}
	ex.mute++
	saveT := ex.cur
	ex.invEval = true
	s2 := st.clone()
	r := ex.inline(s2, n, li.fi, nil, args, nil)
	ex.mute--
	ex.cur = saveT
	ex.invEval = false
	if t, ok := r.(VTuple); ok {
		return ex.scalarT(t[0]), ex.scalarT(t[1])
	}
	return ex.scalarT(r), nil
}

// snapFrom deep-copies a value of another state into fresh cells of st.
func (ex *Exec) snapFrom(from, st *State, v Value) Value {
	tmp := from.clone()
	r := ex.snap(tmp, v)
	for c, x := range tmp.heap {
		if _, ok := from.heap[c]; !ok {
			st.heap[c] = x
		}
	}
	return r
}
