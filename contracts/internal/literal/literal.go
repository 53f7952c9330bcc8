package literal

// Contracts for literals coded with the arithmetic decoder: L(n) and NS(n).

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// One symbol of two equally likely ones, read at range r and value v with m bits left at position p of d.

func zzHalf(r int) int { return (((r >> 8) * 256) >> 1) + 4 }

// Its value.
//
//@ opaque: Bool
func zzBoolK(r, v int) int {
	if v >= zzHalf(r) {
		return 0
	}
	return 1
}

func zzBoolK_range(r, v int) (int, int) { return 0, 1 }

func zzLow(r, v int) int { return util.Int(v >= zzHalf(r)) * zzHalf(r) }

func zzWidth(r, v int) int {
	if v >= zzHalf(r) {
		return r - zzHalf(r)
	}
	return zzHalf(r)
}

func zzShift(r, v int) int { return 15 - util.FloorLog2(zzWidth(r, v)) }

// The range after it.
//
//@ opaque: BoolRange
func zzBoolR(r, v int) int { return zzWidth(r, v) * (1 << zzShift(r, v)) }

// The number of bits shifted in.
//
//@ opaque: BoolBits
func zzBoolB(r, v int) int { return zzShift(r, v) }

func zzBoolB_range(r, v int) (int, int) { return 0, 15 }

//@ lemma: range of binary symbols and their bits
//@ property: C18
func zzBoolRange(r, v int) {
	vs.Requires(32768 <= r && r <= 65535 && v < r)
	vs.Transparent(zzBoolK, zzBoolB)
	k, b := zzBoolK(r, v), zzBoolB(r, v)
	vs.Ensures("symbol", 0 <= k && k <= 1)
	vs.Ensures("bits", 0 <= b && b <= 15)
}

// The value after it.
//
//@ opaque: BoolValue
func zzBoolV(d []byte, r, v, m, p int) int {
	num := util.Min(zzShift(r, v), util.Max(0, m))
	return (v-zzLow(r, v)+1)*(1<<zzShift(r, v)) - 1 - bitstream.Zz_Bits(d, p, num)*(1<<(zzShift(r, v)-num))
}

func zzBoolP(r, v, m, p int) int { return p + util.Min(zzBoolB(r, v), util.Max(0, m)) }

//@ contract: readBool
//@ property: C18
//@ exact:
func zzReadBool(s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	vs.Repair(func(rand func(n int) int) { symbol.ZzRepairState(s, b, rand) })
	vs.Requires(symbol.ZzReady(s, b) && s.SymbolMaxBits >= -1<<39)
	vs.Modifies(&s.SymbolRange, &s.SymbolValue, &s.SymbolMaxBits, &b.Position)
	r, v, m, p := s.SymbolRange, s.SymbolValue, s.SymbolMaxBits, b.Position
	x := readBool(s, b, uh)
	vs.Unfold(zzBoolK(r, v))
	vs.Ensures("the symbol", x == zzBoolK(r, v) && 0 <= x && x <= 1)
	vs.Unfold(zzBoolB(r, v))
	vs.Ensures("bits left", s.SymbolMaxBits == m-zzBoolB(r, v))
	vs.Ensures("position", b.Position == zzBoolP(r, v, m, p))
	vs.Unfold(zzBoolR(r, v))
	vs.Ensures("range", s.SymbolRange == zzBoolR(r, v))
	vs.Unfold(zzBoolV(b.Data, r, v, m, p))
	vs.Ensures("value", s.SymbolValue == zzBoolV(b.Data, r, v, m, p))
	vs.Ensures("ready for the next symbol", symbol.ZzReady(s, b) && m-15 <= s.SymbolMaxBits && s.SymbolMaxBits <= m)
}

//@ contract: L
//@ property: C18
func zzL(n int, s *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	vs.Repair(func(rand func(n int) int) { symbol.ZzRepairState(s, b, rand) })
	vs.Requires(0 <= n && n <= 16 && symbol.ZzReady(s, b) && s.SymbolMaxBits >= -1<<38)
	vs.Split(n, 0, 16)
	vs.Modifies(&s.SymbolRange, &s.SymbolValue, &s.SymbolMaxBits, &b.Position)
	m0 := s.SymbolMaxBits
	r, v, m, p := s.SymbolRange, s.SymbolValue, s.SymbolMaxBits, b.Position
	want := 0
	for i := 0; i < n; i++ {
		want = 2*want + zzBoolK(r, v)
		r, v, m, p = zzBoolR(r, v), zzBoolV(b.Data, r, v, m, p), m-zzBoolB(r, v), zzBoolP(r, v, m, p)
	}
	x := L(n, s, b, uh)
	vs.Ensures("the bits, most significant first", x == want)
	vs.Ensures("range", 0 <= x && x < 1<<n)
	vs.Ensures("state", s.SymbolRange == r && s.SymbolValue == v && s.SymbolMaxBits == m && b.Position == p)
	vs.Ensures("ready for the next symbol", symbol.ZzReady(s, b) && m0-15*n <= s.SymbolMaxBits && s.SymbolMaxBits <= m0)
}
