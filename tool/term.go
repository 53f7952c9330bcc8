package main

// Hash-consed terms over mathematical integers, booleans and integer arrays, with a
// normalising constructor for every operation.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin
	OMul
	ODiv // floor division
	OMod // floor modulus
	OIte
	OSel
	OApp
	OPow2
	OBAnd
	OBOr
	OBXor
	// booleans
	OTrue
	OFalse
	OBVar
	ONot
	OAndB
	OOrB
	OLe0
	OEq0
	OBIte
	OForall // args: body; name: bound variable name; guards in body
	// arrays
	OAVar
	OStore
	OAIte
	OConstArr
	OTable
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SArr
)

type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	k     *big.Int   // OConst value; OLin constant
	coef  []*big.Int // OLin coefficients, parallel to args
	name  string     // OVar/OBVar/OAVar/OApp
	lo    *big.Int   // interval, nil = unbounded
	hi    *big.Int
	tz    int      // known trailing zero bits (ints)
	elLo  *big.Int // arrays: element interval
	elHi  *big.Int
	table []*big.Int
	apArr bool
	neg   *Term // memo of Not
}

type TM struct {
	mu    sync.Mutex
	tab   map[string]*Term
	or0s  map[*Term]*Term
	all   []*Term
	T, F  *Term
	small [1026]*Term
	fresh int
	pushC map[[2]int]*Term
}

func NewTM() *TM {
	m := &TM{tab: map[string]*Term{}, pushC: map[[2]int]*Term{}, or0s: map[*Term]*Term{}}
	m.T = m.mk(&Term{op: OTrue, sort: SBool})
	m.F = m.mk(&Term{op: OFalse, sort: SBool})
	return m
}

func (m *TM) key(t *Term) string {
	var b []byte
	b = append(b, byte(t.op)+33, byte(t.sort)+33)
	if t.name != "" {
		b = append(b, t.name...)
	}
	b = append(b, '|')
	if t.k != nil {
		b = t.k.Append(b, 16)
	}
	for i, a := range t.args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 36)
		if t.coef != nil {
			b = append(b, '*')
			b = t.coef[i].Append(b, 16)
		}
	}
	return string(b)
}

func (m *TM) mk(t *Term) *Term {
	k := m.key(t)
	if o, ok := m.tab[k]; ok {
		return o
	}
	t.id = len(m.all)
	m.all = append(m.all, t)
	m.tab[k] = t
	return t
}

var (
	b0   = big.NewInt(0)
	b1   = big.NewInt(1)
	b2   = big.NewInt(2)
	bm1  = big.NewInt(-1)
	i64L = new(big.Int).Neg(new(big.Int).Lsh(b1, 63))
	i64H = new(big.Int).Sub(new(big.Int).Lsh(b1, 63), b1)
)

func p2(n int) *big.Int { return new(big.Int).Lsh(b1, uint(n)) }

func (m *TM) I(n int64) *Term {
	if n >= -1 && n < 1024 {
		if m.small[n+1] == nil {
			m.small[n+1] = m.C(big.NewInt(n))
		}
		return m.small[n+1]
	}
	return m.C(big.NewInt(n))
}

func tzOf(k *big.Int) int {
	if k.Sign() == 0 {
		return 200
	}
	return int(k.TrailingZeroBits())
}

func (m *TM) C(k *big.Int) *Term {
	return m.mk(&Term{op: OConst, sort: SInt, k: k, lo: k, hi: k, tz: tzOf(k)})
}

func (m *TM) Var(name string, lo, hi *big.Int) *Term {
	return m.mk(&Term{op: OVar, sort: SInt, name: name, lo: lo, hi: hi})
}
func (m *TM) BVar(name string) *Term { return m.mk(&Term{op: OBVar, sort: SBool, name: name}) }
func (m *TM) AVar(name string, lo, hi *big.Int) *Term {
	return m.mk(&Term{op: OAVar, sort: SArr, name: name, elLo: lo, elHi: hi})
}
func (m *TM) Fresh(p string) string {
	m.fresh++
	return fmt.Sprintf("%s!%d", p, m.fresh)
}

func (t *Term) isC() bool { return t.op == OConst }
func (t *Term) i64() (int64, bool) {
	if t.op == OConst && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

// ---- linear forms

type lin struct {
	k  *big.Int
	at map[*Term]*big.Int
}

func newLin() *lin { return &lin{k: new(big.Int), at: map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(c, t.k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(c, t.coef[i]))
		}
	default:
		l.addAtom(t, c)
	}
}

func (l *lin) addAtom(a *Term, c *big.Int) {
	if o, ok := l.at[a]; ok {
		s := new(big.Int).Add(o, c)
		if s.Sign() == 0 {
			delete(l.at, a)
		} else {
			l.at[a] = s
		}
	} else if c.Sign() != 0 {
		l.at[a] = c
	}
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (m *TM) fromLin(l *lin) *Term {
	if len(l.at) == 0 {
		return m.C(l.k)
	}
	var as []*Term
	for a := range l.at {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.at[as[0]].Cmp(b1) == 0 {
		return as[0]
	}
	t := &Term{op: OLin, sort: SInt, k: new(big.Int).Set(l.k), args: as}
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	tz := tzOf(l.k)
	for _, a := range as {
		c := l.at[a]
		t.coef = append(t.coef, c)
		al, ah := a.lo, a.hi
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(c, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			}
		}
		z := tzOf(c) + a.tz
		if z < tz {
			tz = z
		}
	}
	t.lo, t.hi, t.tz = lo, hi, tz
	if o, ok := m.tab[m.key(t)]; ok {
		return o
	}
	// x - d*(x div d) == x mod d is not folded; mod is its own atom.
	return m.mk(t)
}

func (m *TM) Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, b1)
	}
	return m.fromLin(l)
}
func (m *TM) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, b1)
	l.add(b, bm1)
	return m.fromLin(l)
}
func (m *TM) Neg(a *Term) *Term { return m.Scale(a, bm1) }
func (m *TM) Scale(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return m.I(0)
	}
	if c.Cmp(b1) == 0 {
		return a
	}
	// scale through an ite with constant branches so that canonical forms agree
	if a.op == OIte && iteConst(a, 64) {
		return m.mapIte(a, func(x *Term) *Term { return m.Scale(x, c) })
	}
	l := newLin()
	l.add(a, c)
	return m.fromLin(l)
}

func iteConst(t *Term, fuel int) bool {
	if t.op == OConst {
		return true
	}
	if t.op != OIte || fuel == 0 {
		return false
	}
	return iteConst(t.args[1], fuel-1) && iteConst(t.args[2], fuel-1)
}

func (m *TM) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.op == OIte {
			r = m.Ite(x.args[0], rec(x.args[1]), rec(x.args[2]))
		} else {
			r = f(x)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func linParts(t *Term) (k *big.Int, as []*Term, cs []*big.Int) {
	switch t.op {
	case OConst:
		return t.k, nil, nil
	case OLin:
		return t.k, t.args, t.coef
	}
	return b0, []*Term{t}, []*big.Int{b1}
}

func mulIv(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && ah != nil && bl != nil && bh != nil {
		ps := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
		lo, hi = ps[0], ps[0]
		for _, p := range ps[1:] {
			if p.Cmp(lo) < 0 {
				lo = p
			}
			if p.Cmp(hi) > 0 {
				hi = p
			}
		}
		return
	}
	if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
		return new(big.Int).Mul(al, bl), nil
	}
	return nil, nil
}

func (m *TM) mulAtoms(as []*Term) *Term {
	if len(as) == 0 {
		return m.I(1)
	}
	if len(as) == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	// merge pow2 factors
	var p *Term
	var rest []*Term
	for _, a := range as {
		if a.op == OPow2 {
			if p == nil {
				p = a.args[0]
			} else {
				p = m.Add(p, a.args[0])
			}
		} else {
			rest = append(rest, a)
		}
	}
	if p != nil && len(rest) < len(as)-1 {
		return m.Mul(m.Pow2(p), m.mulAtoms(rest))
	}
	t := &Term{op: OMul, sort: SInt, args: append([]*Term(nil), as...)}
	lo, hi := as[0].lo, as[0].hi
	tz := as[0].tz
	for i, a := range as[1:] {
		if i == 0 && a == as[0] && len(as) == 2 {
			// square
			l2, h2 := mulIv(a.lo, a.hi, a.lo, a.hi)
			lo, hi = l2, h2
			if lo == nil || lo.Sign() < 0 {
				lo = b0
			}
		} else {
			lo, hi = mulIv(lo, hi, a.lo, a.hi)
		}
		tz += a.tz
	}
	t.lo, t.hi, t.tz = lo, hi, tz
	return m.mk(t)
}

func factors(t *Term) []*Term {
	if t.op == OMul {
		return t.args
	}
	return []*Term{t}
}

func (m *TM) Mul(a, b *Term) *Term {
	if a.isC() {
		return m.Scale(b, a.k)
	}
	if b.isC() {
		return m.Scale(a, b.k)
	}
	if a.op == OIte && iteConst(a, 16) {
		return m.mapIte(a, func(x *Term) *Term { return m.Mul(x, b) })
	}
	if b.op == OIte && iteConst(b, 16) {
		return m.mapIte(b, func(x *Term) *Term { return m.Mul(a, x) })
	}
	ka, aa, ca := linParts(a)
	kb, ab, cb := linParts(b)
	if (len(aa)+1)*(len(ab)+1) > 400 {
		return m.mulAtoms([]*Term{a, b})
	}
	l := newLin()
	l.k.Mul(ka, kb)
	for i, x := range aa {
		l.add(x, new(big.Int).Mul(ca[i], kb))
		for j, y := range ab {
			p := m.mulAtoms(append(append([]*Term(nil), factors(x)...), factors(y)...))
			l.add(p, new(big.Int).Mul(ca[i], cb[j]))
		}
	}
	for j, y := range ab {
		l.add(y, new(big.Int).Mul(cb[j], ka))
	}
	return m.fromLin(l)
}

// floor div/mod on big ints
func fdiv(a, b *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 && (r.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, b1)
	}
	return q
}
func fmodB(a, b *big.Int) *big.Int {
	return new(big.Int).Sub(a, new(big.Int).Mul(b, fdiv(a, b)))
}

// Div is floor division. A zero divisor is excluded by an obligation at the call site.
func (m *TM) Div(a, d *Term) *Term {
	if d.isC() {
		if d.k.Sign() == 0 {
			return m.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, d}})
		}
		if d.k.Sign() < 0 {
			return m.Div(m.Neg(a), m.C(new(big.Int).Neg(d.k)))
		}
		return m.divC(a, d.k)
	}
	if d.op == OIte && iteConst(d, 16) {
		return m.mapIte(d, func(x *Term) *Term { return m.Div(a, x) })
	}
	if a.isC() && a.k.Sign() == 0 {
		return a
	}
	// (p*x)/p  and (x*d)/d for a single monomial
	if d.op == OPow2 {
		// pull out monomials that contain the pow2 factor
		k, as, cs := linParts(a)
		out := newLin()
		rest := newLin()
		rest.k.Set(k)
		for i, x := range as {
			if x == d {
				out.add(m.I(1), cs[i])
				continue
			}
			if x.op == OMul {
				idx := -1
				for j, f := range x.args {
					if f == d {
						idx = j
					}
				}
				if idx >= 0 {
					var fs []*Term
					fs = append(fs, x.args[:idx]...)
					fs = append(fs, x.args[idx+1:]...)
					out.add(m.mulAtoms(fs), cs[i])
					continue
				}
			}
			rest.add(x, cs[i])
		}
		if len(out.at) > 0 || out.k.Sign() != 0 {
			return m.Add(m.fromLin(out), m.Div(m.fromLin(rest), d))
		}
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a, d}}
	if d.lo != nil && d.lo.Sign() > 0 {
		if a.lo != nil {
			if a.lo.Sign() >= 0 {
				t.lo = b0
				if d.hi != nil {
					t.lo = fdiv(a.lo, d.hi)
				}
			} else {
				t.lo = fdiv(a.lo, d.lo)
			}
		}
		if a.hi != nil {
			if a.hi.Sign() >= 0 {
				t.hi = fdiv(a.hi, d.lo)
			} else {
				t.hi = bm1
				if d.hi != nil {
					t.hi = fdiv(a.hi, d.hi)
				}
			}
		}
	}
	return m.mk(t)
}

func (m *TM) divC(a *Term, d *big.Int) *Term {
	if a.isC() {
		return m.C(fdiv(a.k, d))
	}
	if d.Cmp(b1) == 0 {
		return a
	}
	if a.lo != nil && a.hi != nil {
		ql, qh := fdiv(a.lo, d), fdiv(a.hi, d)
		if ql.Cmp(qh) == 0 {
			return m.C(ql)
		}
	}
	if a.op == OIte && iteConst(a, 64) {
		return m.mapIte(a, func(x *Term) *Term { return m.divC(x, d) })
	}
	k, as, cs := linParts(a)
	out := newLin()
	rest := newLin()
	// constant: floor part out, remainder in
	q := fdiv(k, d)
	out.k.Set(q)
	rest.k.Sub(k, new(big.Int).Mul(q, d))
	for i, x := range as {
		r := fmodB(cs[i], d)
		if r.Sign() == 0 {
			out.add(x, fdiv(cs[i], d))
		} else if zx := x.tz; zx > 0 && zx < 200 && func() bool {
			// coefficient * 2^tz divisible by d
			p := new(big.Int).Mul(cs[i], p2(zx))
			return new(big.Int).Mod(p, d).Sign() == 0
		}() && x.op != OLin && (x != a || p2(zx).Cmp(d) != 0) {
			// x = 2^z * (x div 2^z)
			out.add(m.divC(x, p2(zx)), new(big.Int).Quo(new(big.Int).Mul(cs[i], p2(zx)), d))
		} else {
			rest.add(x, cs[i])
		}
	}
	if len(out.at) > 0 || out.k.Sign() != 0 {
		rt := m.fromLin(rest)
		return m.Add(m.fromLin(out), m.divC(rt, d))
	}
	if a.op == ODiv && a.args[1].isC() && a.args[1].k.Sign() > 0 {
		return m.divC(a.args[0], new(big.Int).Mul(d, a.args[1].k))
	}
	// common gcd of everything and d:  (g*L)/d with g|d -> L/(d/g)
	if a.op == OLin {
		g := new(big.Int).Set(d)
		for _, c := range cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(b1) > 0 {
			l := newLin()
			l.k = fdiv(k, g)
			for i, x := range as {
				l.add(x, new(big.Int).Quo(cs[i], g))
			}
			return m.divC(m.fromLin(l), new(big.Int).Quo(d, g))
		}
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a, m.C(d)}}
	if a.lo != nil {
		t.lo = fdiv(a.lo, d)
	}
	if a.hi != nil {
		t.hi = fdiv(a.hi, d)
	}
	if a.tz > 0 && a.tz < 200 {
		z := tzOf(d)
		if p2(z).Cmp(d) == 0 && a.tz > z {
			t.tz = a.tz - z
		}
	}
	return m.mk(t)
}

func (m *TM) Mod(a, d *Term) *Term {
	if d.isC() && d.k.Sign() > 0 {
		return m.modC(a, d.k)
	}
	if d.op == OIte && iteConst(d, 16) {
		return m.mapIte(d, func(x *Term) *Term { return m.Mod(a, x) })
	}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && d.lo != nil && a.hi.Cmp(d.lo) < 0 {
		return a
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a, d}}
	if d.lo != nil && d.lo.Sign() > 0 {
		t.lo = b0
		if d.hi != nil {
			t.hi = new(big.Int).Sub(d.hi, b1)
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && (t.hi == nil || a.hi.Cmp(t.hi) < 0) {
			t.hi = a.hi
		}
	}
	return m.mk(t)
}

func (m *TM) modC(a *Term, d *big.Int) *Term {
	if a.isC() {
		return m.C(fmodB(a.k, d))
	}
	if d.Cmp(b1) == 0 {
		return m.I(0)
	}
	if a.lo != nil && a.hi != nil {
		ql, qh := fdiv(a.lo, d), fdiv(a.hi, d)
		if ql.Cmp(qh) == 0 {
			return m.Sub(a, m.C(new(big.Int).Mul(ql, d)))
		}
	}
	if a.op == OIte && iteConst(a, 64) {
		return m.mapIte(a, func(x *Term) *Term { return m.modC(x, d) })
	}
	k, as, cs := linParts(a)
	l := newLin()
	l.k = fmodB(k, d)
	ch := l.k.Cmp(k) != 0
	for i, x := range as {
		if x.tz > 0 && x.tz < 200 && new(big.Int).Mod(new(big.Int).Mul(cs[i], p2(x.tz)), d).Sign() == 0 {
			ch = true
			continue
		}
		c := fmodB(cs[i], d)
		if c.Cmp(cs[i]) != 0 {
			ch = true
		}
		if x.op == OMod && x.args[1].isC() && new(big.Int).Mod(x.args[1].k, d).Sign() == 0 && c.Sign() != 0 {
			l.add(x.args[0], c)
			ch = true
			continue
		}
		l.add(x, c)
	}
	if ch {
		return m.modC(m.fromLin(l), d)
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a, m.C(d)}, lo: b0, hi: new(big.Int).Sub(d, b1)}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
		t.hi = a.hi
	}
	if a.tz > 0 {
		t.tz = min(a.tz, tzOf(d))
	}
	return m.mk(t)
}

func (m *TM) Pow2(k *Term) *Term {
	if k.isC() {
		if k.k.Sign() >= 0 && k.k.Cmp(big.NewInt(4096)) < 0 {
			return m.C(p2(int(k.k.Int64())))
		}
	}
	if k.op == OIte && iteConst(k, 64) {
		ok := true
		m.mapIte(k, func(x *Term) *Term {
			if x.k.Sign() < 0 {
				ok = false
			}
			return x
		})
		if ok {
			return m.mapIte(k, func(x *Term) *Term { return m.Pow2(x) })
		}
	}
	if k.op == OLin && k.k.Sign() > 0 {
		// 2^(c+r) = 2^c * 2^r when r >= 0
		r := m.Sub(k, m.C(k.k))
		if r.lo != nil && r.lo.Sign() >= 0 {
			return m.Scale(m.Pow2(r), p2(int(k.k.Int64())))
		}
	}
	t := &Term{op: OPow2, sort: SInt, args: []*Term{k}, lo: b0}
	if k.lo != nil && k.lo.Sign() >= 0 && k.lo.Cmp(big.NewInt(4096)) < 0 {
		t.lo = p2(int(k.lo.Int64()))
		t.tz = int(k.lo.Int64())
	}
	if k.hi != nil && k.hi.Cmp(big.NewInt(4096)) < 0 {
		if k.hi.Sign() >= 0 {
			t.hi = p2(int(k.hi.Int64()))
		} else {
			t.hi = b1
		}
	}
	return m.mk(t)
}

// ---- bit operations (two's complement on mathematical integers)

func (m *TM) BAnd(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if a.isC() && b.isC() {
		return m.C(new(big.Int).And(a.k, b.k))
	}
	if a == b {
		return a
	}
	if b.isC() {
		c := b.k
		if c.Sign() == 0 {
			return b
		}
		if c.Sign() < 0 {
			n := new(big.Int).Not(c)
			return m.Sub(a, m.BAnd(a, m.C(n)))
		}
		if a.op == OIte && iteConst(a, 64) {
			return m.mapIte(a, func(x *Term) *Term { return m.BAnd(x, b) })
		}
		// runs of ones
		l := newLin()
		i := 0
		for i < c.BitLen() {
			if c.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for c.Bit(j) == 1 {
				j++
			}
			part := m.modC(m.divC(a, p2(i)), p2(j-i))
			l.add(part, p2(i))
			i = j
		}
		return m.fromLin(l)
	}
	for s := 0; s < 2; s++ {
		// x & 2^k
		if b.op == OPow2 {
			return m.Mul(m.Mod(m.Div(a, b), m.I(2)), b)
		}
		if b.op == OLin && b.k.Sign() > 0 && len(b.args) == 1 && b.args[0].op == OPow2 && b.coef[0].Cmp(b.k) == 0 {
		}
		// x & (c*2^k) with c = 2^j
		if b.op == OLin && b.k.Sign() == 0 && len(b.args) == 1 && b.args[0].op == OPow2 && isP2(b.coef[0]) {
			return m.Mul(m.Mod(m.Div(a, b), m.I(2)), b)
		}
		// x & (2^k - 1)
		b1t := m.Add(b, m.I(1))
		if b1t.op == OPow2 || (b1t.op == OLin && b1t.k.Sign() == 0 && len(b1t.args) == 1 && b1t.args[0].op == OPow2 && isP2(b1t.coef[0])) {
			return m.Mod(a, b1t)
		}
		if b.op == OIte && iteConst(b, 16) {
			aa := a
			return m.mapIte(b, func(x *Term) *Term { return m.BAnd(aa, x) })
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OBAnd, sort: SInt, args: []*Term{a, b}, tz: max(a.tz, b.tz)}
	for s := 0; s < 2; s++ {
		if a.lo != nil && a.lo.Sign() >= 0 {
			t.lo = b0
			if a.hi != nil && (t.hi == nil || a.hi.Cmp(t.hi) < 0) {
				t.hi = a.hi
			}
		}
		a, b = b, a
	}
	return m.mk(t)
}

func isP2(c *big.Int) bool {
	return c.Sign() > 0 && p2(int(c.TrailingZeroBits())).Cmp(c) == 0
}

func ones(h *big.Int) *big.Int { return new(big.Int).Sub(p2(h.BitLen()), b1) }

func (m *TM) disjoint(a, b *Term) bool {
	// a < 2^z and b multiple of 2^z, a >= 0
	return a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.BitLen() <= b.tz
}

func (m *TM) BOr(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return m.C(new(big.Int).Or(a.k, b.k))
	}
	if a.isC() && a.k.Sign() == 0 {
		return b
	}
	if b.isC() && b.k.Sign() == 0 {
		return a
	}
	if a == b {
		return a
	}
	if m.disjoint(a, b) || m.disjoint(b, a) {
		return m.Add(a, b)
	}
	if b.isC() || a.isC() {
		if a.isC() {
			a, b = b, a
		}
		// a | c = a - (a & c) + c
		return m.Add(m.Sub(a, m.BAnd(a, b)), b)
	}
	for s := 0; s < 2; s++ {
		if a.op == OIte && iteConst(a, 8) {
			bb := b
			return m.mapIte(a, func(x *Term) *Term { return m.BOr(x, bb) })
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OBOr, sort: SInt, args: []*Term{a, b}, tz: min(a.tz, b.tz)}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = b0
		if a.hi != nil && b.hi != nil {
			h := a.hi
			if b.hi.Cmp(h) > 0 {
				h = b.hi
			}
			t.hi = ones(h)
		}
	}
	return m.mk(t)
}

func (m *TM) BXor(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return m.C(new(big.Int).Xor(a.k, b.k))
	}
	if a.isC() && a.k.Sign() == 0 {
		return b
	}
	if b.isC() && b.k.Sign() == 0 {
		return a
	}
	if a == b {
		return m.I(0)
	}
	if m.disjoint(a, b) || m.disjoint(b, a) {
		return m.Add(a, b)
	}
	for s := 0; s < 2; s++ {
		// b has n trailing ones, 0 <= a < 2^n : a ^ b = b - a
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil {
			n := a.hi.BitLen()
			b1t := m.Add(b, m.I(1))
			if b1t.tz >= n {
				return m.Sub(b, a)
			}
		}
		// b + 1 is a multiple of 2^k: the same where 0 <= a < 2^k
		if k := m.powFactor(m.Add(b, m.I(1))); k != nil {
			in := m.And(m.Le0(m.Neg(a)), m.Lt(a, m.Pow2(k)))
			if in != m.F {
				return m.Ite(in, m.Sub(b, a), m.rawXor(a, b))
			}
		}
		if a.isC() && a.k.Cmp(bm1) == 0 {
			return m.Sub(m.I(-1), b)
		}
		if a.isC() {
			// b ^ c = b + c - 2*(b & c)
			return m.Sub(m.Add(a, b), m.Scale(m.BAnd(b, a), b2))
		}
		a, b = b, a
	}
	return m.rawXor(a, b)
}

// powFactor: a variable k such that every summand of t is a multiple of 2^k.
func (m *TM) powFactor(t *Term) *Term {
	k, as, _ := linParts(t)
	if k.Sign() != 0 || len(as) == 0 {
		return nil
	}
	var cand []*Term
	for _, f := range factors(as[0]) {
		if f.op == OPow2 {
			cand = append(cand, f)
		}
	}
next:
	for _, c := range cand {
		for _, a := range as {
			has := false
			for _, f := range factors(a) {
				has = has || f == c
			}
			if !has {
				continue next
			}
		}
		return c.args[0]
	}
	return nil
}

func (m *TM) rawXor(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OBXor, sort: SInt, args: []*Term{a, b}, tz: min(a.tz, b.tz)}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = b0
		if a.hi != nil && b.hi != nil {
			h := a.hi
			if b.hi.Cmp(h) > 0 {
				h = b.hi
			}
			t.hi = ones(h)
		}
	}
	return m.mk(t)
}

// ---- ite

func (m *TM) Ite(c, a, b *Term) *Term {
	if c == m.T || a == b {
		return a
	}
	if c == m.F {
		return b
	}
	if a.sort == SBool {
		return m.IteB(c, a, b)
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.sort == SArr {
		if a.op == OAIte && a.args[0] == c {
			a = a.args[1]
		}
		if b.op == OAIte && b.args[0] == c {
			b = b.args[2]
		}
		if a == b {
			return a
		}
		t := &Term{op: OAIte, sort: SArr, args: []*Term{c, a, b}}
		t.elLo, t.elHi = minB(a.elLo, b.elLo), maxB(a.elHi, b.elHi)
		return m.mk(t)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// c == (x = k): in the true branch x is k
	// same-shape merging: ite(c, ite(d,x,y), y) etc. -> ite(c&d, x, y)
	if a.op == OIte && a.args[2] == b {
		return m.Ite(m.And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return m.Ite(m.And(c, m.Not(a.args[0])), a.args[2], b)
	}
	if b.op == OIte && b.args[1] == a {
		return m.Ite(m.Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return m.Ite(m.Or(c, m.Not(b.args[0])), a, b.args[1])
	}
	// factor out the common linear part
	if !(a.isC() && b.isC()) && (a.op == OLin || b.op == OLin) {
		ka, aa, ca := linParts(a)
		kb, ab, cb := linParts(b)
		com := newLin()
		ia := map[*Term]*big.Int{}
		for i, x := range aa {
			ia[x] = ca[i]
		}
		for i, x := range ab {
			if c2, ok := ia[x]; ok && c2.Cmp(cb[i]) == 0 {
				com.add(x, c2)
			}
		}
		_ = ka
		_ = kb
		if len(com.at) > 0 {
			ct := m.fromLin(com)
			return m.Add(ct, m.Ite(c, m.Sub(a, ct), m.Sub(b, ct)))
		}
	}
	t := &Term{op: OIte, sort: SInt, args: []*Term{c, a, b}, lo: minB(a.lo, b.lo), hi: maxB(a.hi, b.hi), tz: min(a.tz, b.tz)}
	return m.mk(t)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (m *TM) IteB(c, a, b *Term) *Term {
	if c == m.T || a == b {
		return a
	}
	if c == m.F {
		return b
	}
	if a == m.T {
		return m.Or(c, b)
	}
	if a == m.F {
		return m.And(m.Not(c), b)
	}
	if b == m.T {
		return m.Or(m.Not(c), a)
	}
	if b == m.F {
		return m.And(c, a)
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.op == OBIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OBIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a == c {
		return m.Or(c, b)
	}
	if b == c {
		return m.And(c, a)
	}
	if m.Not(a) == b {
		return m.Iff(c, a)
	}
	return m.mk(&Term{op: OBIte, sort: SBool, args: []*Term{c, a, b}})
}

// ---- booleans

func (m *TM) Bool(b bool) *Term {
	if b {
		return m.T
	}
	return m.F
}

func (m *TM) Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = m.not(a)
	}
	return a.neg
}

func (m *TM) not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return m.F
	case OFalse:
		return m.T
	case ONot:
		return a.args[0]
	case OLe0:
		// not (L <= 0)  <=>  1 - L <= 0
		return m.Le0(m.Sub(m.I(1), a.args[0]))
	case OAndB:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, m.Not(x))
		}
		return m.Or(xs...)
	case OOrB:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, m.Not(x))
		}
		return m.And(xs...)
	case OBIte:
		return m.IteB(a.args[0], m.Not(a.args[1]), m.Not(a.args[2]))
	}
	return m.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (m *TM) negOf(a *Term) *Term { return m.Not(a) }

func (m *TM) nary(op Op, xs []*Term) *Term {
	unit, zero := m.T, m.F
	if op == OOrB {
		unit, zero = m.F, m.T
	}
	set := map[*Term]bool{}
	var fl []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if set[x] {
			return true
		}
		set[x] = true
		fl = append(fl, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(fl) == 0 {
		return unit
	}
	if len(fl) == 1 {
		return fl[0]
	}
	for _, x := range fl {
		if x.op == ONot && set[x.args[0]] {
			return zero
		}
		if x.op == OLe0 {
			if set[m.Not(x)] {
				return zero
			}
		}
	}
	// absorption: for And, an Or-arg containing a member is redundant; containing the negation of a member drops it
	dual := OOrB
	if op == OOrB {
		dual = OAndB
	}
	changed := false
	for i, x := range fl {
		if x.op != dual {
			continue
		}
		var keep []*Term
		red := false
		for _, y := range x.args {
			if set[y] {
				red = true
				break
			}
			if len(fl) < 64 {
				if set[m.Not(y)] {
					continue
				}
			}
			keep = append(keep, y)
		}
		if red {
			fl[i] = unit
			changed = true
		} else if len(keep) < len(x.args) {
			fl[i] = m.nary(dual, keep)
			changed = true
		}
	}
	if changed {
		return m.nary(op, fl)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	return m.mk(&Term{op: op, sort: SBool, args: fl})
}

func (m *TM) And(xs ...*Term) *Term { return m.nary(OAndB, xs) }
func (m *TM) Or(xs ...*Term) *Term  { return m.nary(OOrB, xs) }
func (m *TM) Implies(a, b *Term) *Term {
	return m.Or(m.Not(a), b)
}
func (m *TM) Iff(a, b *Term) *Term {
	if a == b {
		return m.T
	}
	if a == m.T {
		return b
	}
	if b == m.T {
		return a
	}
	if a == m.F {
		return m.Not(b)
	}
	if b == m.F {
		return m.Not(a)
	}
	na, nb := m.Not(a), m.Not(b)
	if na == b {
		return m.F
	}
	// canonical
	if a.op == ONot {
		a, b = na, nb
		na, nb = m.Not(a), m.Not(b)
	}
	if a.id > b.id {
		a, b = b, a
		na, nb = nb, na
	}
	return m.mk(&Term{op: OBIte, sort: SBool, args: []*Term{a, b, nb}})
}

func (m *TM) Le(a, b *Term) *Term { return m.Le0(m.Sub(a, b)) }
func (m *TM) Lt(a, b *Term) *Term { return m.Le0(m.Add(m.Sub(a, b), m.I(1))) }
func (m *TM) Eq(a, b *Term) *Term {
	if a.sort == SBool {
		return m.Iff(a, b)
	}
	if a.sort == SArr {
		if a == b {
			return m.T
		}
		return m.mk(&Term{op: OEq0, sort: SBool, args: []*Term{a, b}})
	}
	return m.Eq0(m.Sub(a, b))
}

// push a predicate on a one-atom linear form c*ite(..)+k into the branches when that makes it constant
func (m *TM) pushPred(op Op, l *Term) *Term {
	var at *Term
	if l.op == OIte {
		at = l
	} else if l.op == OLin {
		n := 0
		for _, a := range l.args {
			if a.op == OIte {
				n++
				at = a
			}
		}
		if n != 1 || len(l.args) > 1 {
			at = nil
		}
	}
	if at == nil {
		return nil
	}
	k := [2]int{int(op), l.id}
	if r, ok := m.pushC[k]; ok {
		return r
	}
	var mk func(x *Term) *Term
	if l.op == OIte {
		mk = func(x *Term) *Term { return x }
	} else {
		c := l.coef[0]
		kk := m.C(l.k)
		mk = func(x *Term) *Term { return m.Add(m.Scale(x, c), kk) }
	}
	pr := m.Le0
	if op == OEq0 {
		pr = m.Eq0
	}
	p1, p2 := pr(mk(at.args[1])), pr(mk(at.args[2]))
	var r *Term
	if isCB(p1) || isCB(p2) {
		r = m.IteB(at.args[0], p1, p2)
	}
	m.pushC[k] = r
	return r
}

func isCB(t *Term) bool { return t.op == OTrue || t.op == OFalse }

func (m *TM) Le0(l *Term) *Term {
	if l.hi != nil && l.hi.Sign() <= 0 {
		return m.T
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return m.F
	}
	if r := m.pushPred(OLe0, l); r != nil {
		return r
	}
	if l.op == OLin {
		g := new(big.Int)
		for _, c := range l.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(b1) > 0 {
			// g*L' + k <= 0  <=>  L' + ceil(k/g) <= 0
			n := newLin()
			n.k = new(big.Int).Neg(fdiv(new(big.Int).Neg(l.k), g))
			for i, a := range l.args {
				n.add(a, new(big.Int).Quo(l.coef[i], g))
			}
			return m.Le0(m.fromLin(n))
		}
	}
	// a boolean-like atom (range of two values): turn into equality
	if k, as, cs := linParts(l); len(as) == 1 {
		a := as[0]
		if a.lo != nil && a.hi != nil && new(big.Int).Sub(a.hi, a.lo).Cmp(b1) == 0 {
			// exactly one of the two values satisfies
			v := new(big.Int).Add(k, new(big.Int).Mul(cs[0], a.lo))
			if v.Sign() <= 0 {
				return m.Eq0(m.Sub(a, m.C(a.lo)))
			}
			return m.Not(m.Eq0(m.Sub(a, m.C(a.lo))))
		}
	}
	return m.mk(&Term{op: OLe0, sort: SBool, args: []*Term{l}})
}

// or0: a bitwise or is 0 iff its operands are (also behind conditions).
func (m *TM) or0(l *Term) *Term {
	if l.op != OBOr && !(l.op == OIte && (l.args[1].op == OBOr || l.args[2].op == OBOr)) {
		return nil
	}
	if r, ok := m.or0s[l]; ok {
		return r
	}
	var r *Term
	if l.op == OBOr {
		r = m.And(m.Eq0(l.args[0]), m.Eq0(l.args[1]))
	} else {
		r = m.IteB(l.args[0], m.Eq0(l.args[1]), m.Eq0(l.args[2]))
	}
	m.or0s[l] = r
	return r
}

func (m *TM) Eq0(l *Term) *Term {
	if l.isC() {
		return m.Bool(l.k.Sign() == 0)
	}
	if (l.lo != nil && l.lo.Sign() > 0) || (l.hi != nil && l.hi.Sign() < 0) {
		return m.F
	}
	if r := m.or0(l); r != nil {
		return r
	}
	if r := m.pushPred(OEq0, l); r != nil {
		return r
	}
	if l.op == OLin {
		g := new(big.Int)
		for _, c := range l.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if new(big.Int).Mod(l.k, g).Sign() != 0 {
			return m.F
		}
		neg := l.coef[0].Sign() < 0
		if g.Cmp(b1) > 0 || neg {
			if neg {
				g = new(big.Int).Neg(g)
			}
			n := newLin()
			n.k = new(big.Int).Quo(l.k, g)
			for i, a := range l.args {
				n.add(a, new(big.Int).Quo(l.coef[i], g))
			}
			return m.Eq0(m.fromLin(n))
		}
	}
	if k, as, cs := linParts(l); len(as) == 1 && cs[0].Cmp(b1) == 0 {
		a := as[0]
		if a.lo != nil && a.hi != nil && new(big.Int).Sub(a.hi, a.lo).Cmp(b1) == 0 {
			v := new(big.Int).Neg(k)
			if v.Cmp(a.hi) == 0 {
				return m.Not(m.Eq0(m.Sub(a, m.C(a.lo))))
			}
		}
	}
	return m.mk(&Term{op: OEq0, sort: SBool, args: []*Term{l}})
}

// ---- arrays

func (m *TM) ConstArr(v *Term) *Term {
	return m.mk(&Term{op: OConstArr, sort: SArr, args: []*Term{v}, elLo: v.lo, elHi: v.hi})
}

func (m *TM) Table(vals []*big.Int) *Term {
	var sb strings.Builder
	for _, v := range vals {
		sb.WriteString(v.Text(36))
		sb.WriteByte(' ')
	}
	t := &Term{op: OTable, sort: SArr, name: "T" + sb.String(), table: vals}
	for i, v := range vals {
		if i == 0 {
			t.elLo, t.elHi = v, v
		} else {
			t.elLo, t.elHi = minB(t.elLo, v), maxB(t.elHi, v)
		}
	}
	return m.mk(t)
}

func (m *TM) Store(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		return m.Store(a.args[0], i, v)
	}
	if m.Select(a, i) == v {
		return a
	}
	return m.mk(&Term{op: OStore, sort: SArr, args: []*Term{a, i, v}, elLo: minB(a.elLo, v.lo), elHi: maxB(a.elHi, v.hi)})
}

func (m *TM) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case OStore:
			eq := m.Eq(a.args[1], i)
			if eq == m.T {
				return a.args[2]
			}
			if eq == m.F {
				a = a.args[0]
				continue
			}
			return m.Ite(eq, a.args[2], m.Select(a.args[0], i))
		case OConstArr:
			return a.args[0]
		case OTable:
			if n, ok := i.i64(); ok && n >= 0 && int(n) < len(a.table) {
				return m.C(a.table[n])
			}
			if i.op == OIte && iteConst(i, 64) {
				aa := a
				return m.mapIte(i, func(x *Term) *Term { return m.Select(aa, x) })
			}
		case OAIte:
			return m.Ite(a.args[0], m.Select(a.args[1], i), m.Select(a.args[2], i))
		}
		break
	}
	lo, hi := a.elLo, a.elHi
	if a.op == OTable && i.lo != nil && i.hi != nil && i.lo.Sign() >= 0 && i.hi.IsInt64() && int(i.hi.Int64()) < len(a.table) {
		lo, hi = nil, nil
		for j := i.lo.Int64(); j <= i.hi.Int64(); j++ {
			v := a.table[j]
			if lo == nil {
				lo, hi = v, v
			} else {
				lo, hi = minB(lo, v), maxB(hi, v)
			}
		}
	}
	return m.mk(&Term{op: OSel, sort: SInt, args: []*Term{a, i}, lo: lo, hi: hi})
}

func (m *TM) App(name string, args []*Term, lo, hi *big.Int) *Term {
	return m.mk(&Term{op: OApp, sort: SInt, name: name, args: args, lo: lo, hi: hi})
}

// ---- substitution / rebuilding

func (m *TM) Rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.k.Set(t.k)
		for i, a := range as {
			l.add(a, t.coef[i])
		}
		return m.fromLin(l)
	case OMul:
		r := as[0]
		for _, a := range as[1:] {
			r = m.Mul(r, a)
		}
		return r
	case ODiv:
		return m.Div(as[0], as[1])
	case OMod:
		return m.Mod(as[0], as[1])
	case OIte, OAIte, OBIte:
		if t.op == OBIte && as[2] == m.Not(as[1]) {
			return m.Iff(as[0], as[1])
		}
		return m.Ite(as[0], as[1], as[2])
	case OSel:
		return m.Select(as[0], as[1])
	case OApp:
		return m.App(t.name, as, t.lo, t.hi)
	case OPow2:
		return m.Pow2(as[0])
	case OBAnd:
		return m.BAnd(as[0], as[1])
	case OBOr:
		return m.BOr(as[0], as[1])
	case OBXor:
		return m.BXor(as[0], as[1])
	case ONot:
		return m.Not(as[0])
	case OAndB:
		return m.And(as...)
	case OOrB:
		return m.Or(as...)
	case OLe0:
		return m.Le0(as[0])
	case OEq0:
		if len(as) == 2 {
			return m.Eq(as[0], as[1])
		}
		return m.Eq0(as[0])
	case OForall:
		return m.mk(&Term{op: OForall, sort: SBool, name: t.name, args: as})
	case OStore:
		return m.Store(as[0], as[1], as[2])
	case OConstArr:
		return m.ConstArr(as[0])
	}
	return t
}

func (m *TM) Subst(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = m.Subst(a, sub, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = m.Rebuild(t, as)
		if r2, ok := sub[r]; ok {
			r = r2
		}
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	n := 0
	return t.str(&n)
}

func (t *Term) str(n *int) string {
	*n++
	if *n > 400 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case OVar, OBVar, OAVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OTable:
		return fmt.Sprintf("table[%d]", len(t.table))
	case OLin:
		s := ""
		for i, a := range t.args {
			if i > 0 {
				s += " + "
			}
			if t.coef[i].Cmp(b1) != 0 {
				s += t.coef[i].String() + "*"
			}
			s += a.str(n)
		}
		if t.k.Sign() != 0 {
			s += " + " + t.k.String()
		}
		return "(" + s + ")"
	}
	names := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OIte: "ite", OSel: "sel", OPow2: "2^", OBAnd: "&", OBOr: "|", OBXor: "^", ONot: "not", OAndB: "and", OOrB: "or", OLe0: "<=0", OEq0: "=0", OBIte: "bite", OForall: "forall", OStore: "store", OAIte: "aite", OConstArr: "constarr"}
	s := names[t.op]
	if t.op == OApp || t.op == OForall {
		s += t.name
	}
	s = "(" + s
	for _, a := range t.args {
		s += " " + a.str(n)
	}
	return s + ")"
}

func (m *TM) Lits(pc *Term) []*Term {
	if pc.op == OAndB {
		return pc.args
	}
	if pc == m.T {
		return nil
	}
	return []*Term{pc}
}

// Under simplifies t assuming the conjuncts of pc.
func (m *TM) Under(t, pc *Term) *Term {
	if pc == m.T || isCB(t) {
		return t
	}
	sub := map[*Term]*Term{}
	for _, l := range m.Lits(pc) {
		sub[l] = m.T
		n := m.Not(l)
		sub[n] = m.F
		// equalities with constants: substitute the atom
		if l.op == OEq0 && len(l.args) == 1 {
			k, as, cs := linParts(l.args[0])
			if len(as) == 1 && cs[0].Cmp(b1) == 0 {
				sub[as[0]] = m.C(new(big.Int).Neg(k))
			}
		}
		if l.op == ONot && l.args[0].op == OEq0 && len(l.args[0].args) == 1 {
			k, as, cs := linParts(l.args[0].args[0])
			if len(as) == 1 && cs[0].Cmp(b1) == 0 && as[0].lo != nil && as[0].hi != nil && new(big.Int).Sub(as[0].hi, as[0].lo).Cmp(b1) == 0 {
				// two-valued atom
				v := new(big.Int).Neg(k)
				if v.Cmp(as[0].lo) == 0 {
					sub[as[0]] = m.C(as[0].hi)
				} else if v.Cmp(as[0].hi) == 0 {
					sub[as[0]] = m.C(as[0].lo)
				}
			}
		}
	}
	return m.Subst(t, sub, map[*Term]*Term{})
}
