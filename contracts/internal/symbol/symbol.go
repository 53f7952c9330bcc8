package symbol

// Contracts for the arithmetic symbol decoder (section 8.2 of the format).

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzP2(n int) int { return 1 << n }

// zzBound: the lower end of symbol k's interval in a range of size r, of n symbols.
func zzBound(cdf []int, n, r, k int) int {
	if k < 0 {
		return r
	}
	return (((r>>8)*((32768-cdf[k])>>6))>>1) + 4*(n-k-1)
}

// ZzCdf: the entries of a table of n symbols are a cumulative distribution and a counter.
func ZzCdf(cdf []int, n int) bool { return state.ZzCdf(cdf, n) }

// ZzReady: the decoder's state between two symbols.
func ZzReady(s *state.State, b *bitstream.BitStream) bool {
	return 32768 <= s.SymbolRange && s.SymbolRange < 65536 && 0 <= s.SymbolValue && s.SymbolValue < s.SymbolRange &&
		0 <= b.Position && b.Position <= 8*len(b.Data) && b.Position+s.SymbolMaxBits <= 8*len(b.Data)
}

// zzAdapt: entry x moves towards the probability that the symbol just decoded lies at or below it.
func zzAdapt(x, rate int, low bool) int {
	to := 0
	if low {
		to = 1 << 15
	}
	if to < x {
		return x - ((x - to) >> rate)
	}
	return x + ((to - x) >> rate)
}

// A field of num bits, padded to bits bits, is below 2^bits.
//
//@ lemma: padding
//@ property: C18
func zzPad(x, num, bits int) {
	vs.Requires(0 <= num && num <= bits && bits <= 15 && 0 <= x && x < zzP2(num))
	vs.Split(bits, 0, 15)
	vs.Split(num, 0, 15)
	vs.Ensures("fits", 0 <= x*zzP2(bits-num) && x*zzP2(bits-num) < zzP2(bits))
}

// Shifting a width by 15 minus its logarithm makes it a 16-bit number with the top bit set, and keeps a value below it below it.
//
//@ lemma: renormalisation
//@ property: C18
func zzRenorm(w, v, r, x int) {
	vs.Requires(0 <= r && r <= 15 && zzP2(r) <= w && w < 2*zzP2(r) && 0 <= v && v < w && 0 <= x && x < zzP2(15-r))
	vs.Split(r, 0, 15)
	vs.Ensures("top bit", 32768 <= w*zzP2(15-r) && w*zzP2(15-r) < 65536)
	vs.Ensures("value below", 0 <= (v+1)*zzP2(15-r)-1-x && (v+1)*zzP2(15-r)-1-x < w*zzP2(15-r))
}

// zzFind: the first symbol whose interval's lower end is not above the value.
func zzFind(cdf []int, n, r, v int) int {
	first := n - 1
	for k := n - 2; k >= 0; k-- {
		if v >= zzBound(cdf, n, r, k) {
			first = k
		}
	}
	return first
}

// ZzSym: the symbol that the next read of a table yields at range r and value v.
//
//@ opaque: Sym
func ZzSym(cdf []int, r, v int) int { return zzFind(cdf, len(cdf)-1, r, v) }

func ZzSym_range(cdf []int, r, v int) (int, int) {
	if 2 <= len(cdf) && len(cdf) <= 17 {
		return 0, len(cdf) - 2
	}
	return -1 << 62, 1<<62 - 1
}

//@ lemma: range of symbols
//@ property: C18
func zzSymRange(cdf []int, r, v int) {
	vs.Transparent(ZzSym)
	vs.Requires(2 <= len(cdf) && len(cdf) <= 17)
	vs.Split(len(cdf), 2, 17)
	lo, hi := ZzSym_range(cdf, r, v)
	k := ZzSym(cdf, r, v)
	vs.Ensures("range", lo <= k && k <= hi)
}

// ZzSymOk: the table can be read next.
func ZzSymOk(cdf []int, s *state.State, b *bitstream.BitStream) bool {
	return ZzCdf(cdf, len(cdf)-1) && ZzReady(s, b) && s.SymbolMaxBits >= -1<<40
}

// ZzRepairSym makes that so.
func ZzRepairSym(cdf []int, s *state.State, b *bitstream.BitStream, rand func(n int) int) {
	ZzRepairState(s, b, rand)
	zzRepairCdf(cdf, rand)
}

// The intervals of two successive symbols of a table: neither is empty, they do not overlap, and the last symbol's ends at 0.
//
//@ lemma: intervals
//@ property: C18
func zzIntervals(x, y, n, r, k int) {
	vs.Requires(2 <= n && n <= 16 && 0 <= x && x <= y && y <= 32768 && 32768 <= r && r < 65536 && 0 < k && k < n)
	hx, hy := (32768-x)>>6, (32768-y)>>6
	zzTimes(r>>8, hy, hx)
	vs.Ensures("disjoint, not empty", (((r>>8)*hy)>>1)+4*(n-k-1) < (((r>>8)*hx)>>1)+4*(n-(k-1)-1))
	vs.Ensures("the first one is below the range", (((r>>8)*hx)>>1)+4*(n-1) < r || x == 0)
	vs.Ensures("the last one reaches 0", zzBound([]int{0, 32768}, 2, r, 1) == 0)
}

// Multiplication is monotone.
//
//@ lemma: products
//@ property: C18
func zzTimes(q, a, b int) {
	vs.Requires(0 <= q && q < 65536 && 0 <= a && a <= b && b < 65536)
	vs.Ensures("monotone", 0 <= q*a && q*a <= q*b)
}

// Adaptation keeps entries within bounds and in order.
//
//@ lemma: adaptation
//@ property: C18
func zzOrder(x, y, rate int, lowx, lowy bool) {
	vs.Requires(1 <= x && x <= y && y <= 32768 && 3 <= rate && rate <= 7 && (lowy || !lowx))
	vs.Split(rate, 3, 7)
	vs.Ensures("bounds", 1 <= zzAdapt(x, rate, lowx) && zzAdapt(y, rate, lowy) <= 32768)
	vs.Ensures("order", zzAdapt(x, rate, lowx) <= zzAdapt(y, rate, lowy))
}

// ZzRepairState and zzRepairCdf make random memory a decoder state and a table (only used to search for failing inputs).
func ZzRepairState(s *state.State, b *bitstream.BitStream, rand func(n int) int) {
	s.SymbolRange = 32768 + rand(32768)
	s.SymbolValue = rand(s.SymbolRange)
	b.Position = rand(8*len(b.Data) + 1)
	s.SymbolMaxBits = rand(8*len(b.Data)-b.Position+1) - 20
	if rand(2) == 0 {
		s.SymbolMaxBits = 8*len(b.Data) - b.Position - rand(24)
	}
	if rand(3) == 0 {
		s.SymbolMaxBits = util.Min(rand(24)-8, 8*len(b.Data)-b.Position)
	}
}

func zzRepairCdf(cdf []int, rand func(n int) int) {
	n := len(cdf) - 1
	if n < 2 {
		return
	}
	for k := 0; k < n; k++ {
		cdf[k] = 1 + (k+1)*32767/n - rand(32767/n)
	}
	cdf[n-1], cdf[n] = 32768, rand(33)
}

// The same for callers: the symbol is a function of the table and the decoder.
//
//@ contract: ReadSymbol
//@ property: C18
//@ summary:
func zzReadSymbolNamed(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	vs.Repair(func(rand func(n int) int) { ZzRepairSym(cdf, s, b, rand) })
	vs.Transparent(ZzSym)
	vs.Requires(3 <= len(cdf) && len(cdf) <= 17 && ZzSymOk(cdf, s, b))
	vs.Split(len(cdf), 3, 17)
	n := len(cdf) - 1
	want, m0, p0 := ZzSym(cdf, s.SymbolRange, s.SymbolValue), s.SymbolMaxBits, b.Position
	vs.Modifies(cdf, &s.SymbolRange, &s.SymbolValue, &s.SymbolMaxBits, &b.Position)
	k := ReadSymbol(cdf, s, b, uh)
	vs.Ensures("the symbol", k == want && 0 <= k && k < n)
	vs.Ensures("ready for the next symbol", ZzReady(s, b) && m0-15 <= s.SymbolMaxBits && s.SymbolMaxBits <= m0 && p0 <= b.Position)
	vs.Ensures("still a distribution", ZzCdf(cdf, n))
}

//@ contract: ReadSymbol
//@ property: C18
func zzReadSymbol(cdf []int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	vs.Repair(func(rand func(n int) int) { ZzRepairState(s, b, rand); zzRepairCdf(cdf, rand) })
	vs.Requires(3 <= len(cdf) && len(cdf) <= 17)
	vs.Split(len(cdf), 3, 17)
	n := len(cdf) - 1
	vs.Requires(ZzCdf(cdf, n) && ZzReady(s, b) && s.SymbolMaxBits >= -1<<40)
	vs.Modifies(cdf, &s.SymbolRange, &s.SymbolValue, &s.SymbolMaxBits, &b.Position)
	old, r0, v0, m0, p0 := vs.Snap(cdf), s.SymbolRange, s.SymbolValue, s.SymbolMaxBits, b.Position
	want := zzFind(old, n, r0, v0)
	vs.Split(want, 0, n-1)
	lo, hi := zzBound(old, n, r0, want), zzBound(old, n, r0, want-1)
	vs.Assert("interval", lo <= v0 && v0 < hi && 0 <= lo && hi < 65536)
	vs.Assert("width", 0 <= util.FloorLog2(hi-lo) && util.FloorLog2(hi-lo) <= 15)
	k := ReadSymbol(cdf, s, b, uh)
	vs.Ensures("the first symbol whose interval holds the value", k == want)
	vs.Ensures("one of the table's symbols", 0 <= k && k < n)
	bits := m0 - s.SymbolMaxBits
	vs.Ensures("bits left", bits == 15-util.FloorLog2(hi-lo))
	vs.Assert("renormalisation shift", 0 <= bits && bits <= 15)
	num := util.Min(bits, util.Max(0, m0))
	vs.Ensures("bits consumed", b.Position == p0+num)
	vs.Ensures("range", s.SymbolRange == (hi-lo)*zzP2(bits))
	vs.Assert("bits read", 0 <= num && num <= bits)
	pad := bitstream.Zz_Bits(b.Data, p0, num) * zzP2(bits-num)
	zzPad(bitstream.Zz_Bits(b.Data, p0, num), num, bits)
	vs.Ensures("value", s.SymbolValue == (v0-lo+1)*zzP2(bits)-1-pad)
	zzRenorm(hi-lo, v0-lo, 15-bits, pad)
	vs.Ensures("renormalised", 32768 <= s.SymbolRange && s.SymbolRange < 65536 && 0 <= s.SymbolValue && s.SymbolValue < s.SymbolRange)
	vs.Ensures("ready for the next symbol", ZzReady(s, b))
	if uh.DisableCdfUpdate {
		vs.Ensures("table kept", vs.Eq(cdf, old))
	} else {
		rate := 3 + util.Int(old[n] > 15) + util.Int(old[n] > 31) + util.Min(util.FloorLog2(n), 2)
		for i := 0; i < n-1; i++ {
			vs.Ensures("adapted entry", cdf[i] == zzAdapt(old[i], rate, i >= want))
		}
		for i := 0; i < n-1; i++ {
			zzOrder(old[i], old[i+1], rate, i >= want, i+1 >= want)
		}
		vs.Ensures("certainty", cdf[n-1] == 32768)
		vs.Ensures("counter", cdf[n] == old[n]+util.Int(old[n] < 32))
		vs.Ensures("still a distribution", ZzCdf(cdf, n))
	}
}
