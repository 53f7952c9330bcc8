package bitstream

// Contracts for the bit reader.

import (
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// Zz_Bits(data, pos, n): the n-bit big-endian number that starts at bit pos (bits past the end are 0).
//
//@ opaque: Bits
func Zz_Bits(data []byte, pos, n int) int {
	x := 0
	for i := 0; i < n; i++ {
		p := pos + i
		x = 2 * x
		if p>>3 < len(data) {
			x += int(data[p>>3]) / zzPow(7-p&7) % 2
		}
	}
	return x
}

func zzPow(n int) int { return 1 << uint(n) }

func Zz_Bits_range(data []byte, pos, n int) (int, int) { return 0, zzMask(n) }

func zzMask(n int) int {
	if n < 0 || n > 62 {
		return 1<<62 - 1 + 1<<62
	}
	return 1<<uint(n) - 1
}

// The stated range of Bits follows from its definition.
//
//@ lemma: range of bit strings
//@ property: C01
func zzBitsRange(data []byte, pos, n int) {
	vs.Requires(0 <= n && n <= 62 && pos >= 0)
	vs.Split(n, 0, 62)
	vs.Transparent(Zz_Bits)
	r := Zz_Bits(data, pos, n)
	vs.Ensures("range", 0 <= r && r <= zzMask(n))
}

// Reading m bits and then n bits is reading m+n bits.
//
//@ lemma: consecutive reads concatenate
//@ property: C01
func zzBitsConcat(data []byte, pos, m, n int) {
	vs.Requires(0 <= m && m <= 16 && 0 <= n && n <= 16 && pos >= 0)
	vs.Split(m, 0, 16)
	vs.Split(n, 0, 16)
	vs.Transparent(Zz_Bits)
	vs.Ensures("concatenation", Zz_Bits(data, pos, m+n) == Zz_Bits(data, pos, m)*zzPow(n)+Zz_Bits(data, pos+m, n))
}

//@ contract: BitStream.readBit
//@ property: C01
//@ inline:
//@ optional:
func zzReadBit(b *BitStream) {
	vs.Requires(b.Position >= 0 && b.Position < 8*len(b.Data))
	vs.Transparent(Zz_Bits)
	r := b.readBit()
	vs.Ensures("most significant bit first", r == int(b.Data[b.Position/8])/zzPow(7-b.Position%8)%2)
	vs.Ensures("one bit of the stream", r == Zz_Bits(b.Data, b.Position, 1))
}

//@ contract: BitStream.F
//@ property: C01
func zzF(b *BitStream, n int) {
	vs.Requires(0 <= n && n <= 62 && b.Position >= 0 && b.Position+n <= 8*len(b.Data))
	vs.Split(n, 0, 62)
	vs.Transparent(Zz_Bits)
	vs.Modifies(&b.Position)
	pos := b.Position
	r := b.F(n)
	vs.Ensures("value", r == Zz_Bits(b.Data, pos, n))
	vs.Ensures("consumed", b.Position == pos+n)
}

//@ contract: NewBitStream
//@ property: C01
//@ inline:
func zzNewBitStream(data []byte) {
	b := NewBitStream(data)
	vs.Ensures("starts at the first bit", b.Position == 0)
	vs.Ensures("length", len(b.Data) == len(data))
	vs.Ensures("no leb128 bytes yet", b.Leb128Bytes == 0)
	vs.Ensures("contents", vs.Eq(b.Data, data))
}

// ---- C02: variable-length codes

// Zz_LZ: the number of 0 bits before the first 1 bit at or after pos (up to the end of the data).
//
//@ opaque: LZ
func Zz_LZ(data []byte, pos int) int {
	if pos >= 8*len(data) || pos < 0 {
		return 0
	}
	if Zz_Bits(data, pos, 1) == 1 {
		return 0
	}
	return 1 + Zz_LZ(data, pos+1)
}

func Zz_LZ_range(data []byte, pos int) (int, int) {
	if pos < 0 || pos >= 8*len(data) {
		return 0, 0
	}
	return 0, 8*len(data) - pos
}

// The induction step: with the range at pos+1 (8*len(data)-pos falls).
//
//@ lemma: range of leading zeros
//@ property: C02
func zzLZRange(data []byte, pos int) {
	vs.Requires(pos >= 0 && len(data) <= 1<<40)
	r := 0
	if pos < 8*len(data) && Zz_Bits(data, pos, 1) != 1 {
		r = 1 + Zz_LZ(data, pos+1)
	}
	lo, hi := Zz_LZ_range(data, pos)
	vs.Ensures("range", lo <= r && r <= hi)
}

//@ invariant: BitStream.Uvlc#0
func zzUvlcInv(b *BitStream, pre_b *BitStream, leadingZeros int) (bool, int) {
	vs.Unfold(Zz_LZ(b.Data, b.Position))
	return leadingZeros >= 0 && b.Position == pre_b.Position+leadingZeros && vs.Eq(b.Data, pre_b.Data) && b.Leb128Bytes == pre_b.Leb128Bytes &&
		Zz_LZ(b.Data, pre_b.Position) == leadingZeros+Zz_LZ(b.Data, b.Position), Zz_LZ(b.Data, b.Position)
}

//@ contract: BitStream.Uvlc
//@ property: C02
func zzUvlc(b *BitStream) {
	vs.Requires(b.Position >= 0)
	lz := Zz_LZ(b.Data, b.Position)
	n := lz
	if lz >= 32 {
		n = 0
	}
	vs.Requires(b.Position+lz+1+n <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	pos := b.Position
	r := b.Uvlc()
	want := 1<<32 - 1
	if lz < 32 {
		want = Zz_Bits(b.Data, pos+lz+1, lz) + zzPow(lz) - 1
	}
	vs.Ensures("value", r == want)
	vs.Ensures("consumed", b.Position == pos+lz+1+n)
}

// zzLebLen: bytes in the leb128 code at pos.
func Zz_LebLen(data []byte, pos int) int {
	n := 1
	for i := 0; i < 7; i++ {
		if n == i+1 && Zz_Bits(data, pos+8*i, 1) == 1 {
			n = i + 2
		}
	}
	return n
}

// zzLeb: little-endian base-128 value of n bytes.
func Zz_Leb(data []byte, pos int, n int) int {
	v := 0
	for i := 0; i < 8; i++ {
		if i < n {
			v += Zz_Bits(data, pos+8*i+1, 7) * zzPow(7*i)
		}
	}
	return v
}

// A byte of the stream is its first bit followed by seven more.
//
//@ lemma: byte split
//@ property: C02
func zzByteSplit(data []byte, pos int) {
	vs.Requires(pos >= 0)
	vs.Transparent(Zz_Bits)
	vs.Ensures("concatenation", Zz_Bits(data, pos, 8) == 128*Zz_Bits(data, pos, 1)+Zz_Bits(data, pos+1, 7))
}

//@ contract: BitStream.Leb128
//@ property: C02
func zzLeb128(b *BitStream) {
	n := Zz_LebLen(b.Data, b.Position)
	vs.Requires(b.Position >= 0 && b.Position+8*n <= 8*len(b.Data))
	vs.Modifies(&b.Position, &b.Leb128Bytes)
	pos := b.Position
	for i := 0; i < 8; i++ {
		zzByteSplit(b.Data, pos+8*i)
	}
	r := b.Leb128()
	vs.Ensures("value", r == Zz_Leb(b.Data, pos, n))
	vs.Ensures("byte count", b.Leb128Bytes == n)
	vs.Ensures("consumed", b.Position == pos+8*n)
}

//@ contract: BitStream.Su
//@ property: C02
func zzSu(b *BitStream, n int) {
	vs.Requires(1 <= n && n <= 32 && b.Position >= 0 && b.Position+n <= 8*len(b.Data))
	vs.Split(n, 1, 32)
	vs.Modifies(&b.Position)
	pos := b.Position
	r := b.Su(n)
	v := Zz_Bits(b.Data, pos, n)
	if v >= zzPow(n-1) {
		v = v - zzPow(n)
	}
	vs.Ensures("two's complement value", r == v)
	vs.Ensures("consumed", b.Position == pos+n)
}

// Zz_NsVal, Zz_NsLen: value and length of the non-symmetric code for n values at pos.
//
//@ opaque: NsVal
func Zz_NsVal(data []byte, pos, n int) int {
	r := 0
	for w := 1; w <= 17; w++ {
		if zzPow(w-1) <= n && n < zzPow(w) {
			m := zzPow(w) - n
			r = Zz_Bits(data, pos, w-1)
			if r >= m {
				r = 2*r - m + Zz_Bits(data, pos+w-1, 1)
			}
		}
	}
	return r
}

func Zz_NsVal_range(data []byte, pos, n int) (int, int) {
	if n < 1 {
		return 0, 0
	}
	return 0, n - 1
}

//@ opaque: NsLen
func Zz_NsLen(data []byte, pos, n int) int {
	r := 0
	for w := 1; w <= 17; w++ {
		if zzPow(w-1) <= n && n < zzPow(w) {
			m := zzPow(w) - n
			r = w - 1
			if Zz_Bits(data, pos, w-1) >= m {
				r = w
			}
		}
	}
	return r
}

func Zz_NsLen_range(data []byte, pos, n int) (int, int) { return 0, 17 }

//@ contract: BitStream.Ns
//@ property: C02
func zzNs(b *BitStream, n int) {
	vs.Requires(1 <= n && n <= 1<<16 && b.Position >= 0 && b.Position+17 <= 8*len(b.Data))
	vs.Transparent(Zz_NsVal, Zz_NsLen)
	vs.Modifies(&b.Position)
	pos := b.Position
	r := b.Ns(n)
	vs.Ensures("value", r == Zz_NsVal(b.Data, pos, n))
	vs.Ensures("consumed", b.Position == pos+Zz_NsLen(b.Data, pos, n))
}

//@ lemma: the non-symmetric code stays in range
//@ property: C02
func zzNsRange(data []byte, pos, n int) {
	vs.Requires(pos >= 0)
	vs.Transparent(Zz_NsVal, Zz_NsLen)
	v := Zz_NsVal(data, pos, n)
	vs.Ensures("value below n", 0 <= v && (n < 1 && v == 0 || v < n))
	k := Zz_NsLen(data, pos, n)
	vs.Ensures("length", 0 <= k && k <= 17)
}

//@ contract: BitStream.Le
//@ property: C02
func zzLe(b *BitStream, n int) {
	vs.Requires(0 <= n && n <= 7 && b.Position >= 0 && b.Position+8*n <= 8*len(b.Data))
	vs.Split(n, 0, 7)
	vs.Modifies(&b.Position)
	pos := b.Position
	r := b.Le(n)
	v := 0
	for i := 0; i < n; i++ {
		v += Zz_Bits(b.Data, pos+8*i, 8) * zzPow(8*i)
	}
	vs.Ensures("little-endian value", r == v)
	vs.Ensures("consumed", b.Position == pos+8*n)
}

// ---- C03: positioning

//@ contract: BitStream.ByteAlignment
//@ property: C03
func zzByteAlignment(b *BitStream) {
	vs.Requires(b.Position >= 0 && b.Position <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	pos := b.Position
	b.ByteAlignment()
	vs.Ensures("next byte boundary", b.Position == (pos+7)/8*8)
}

//@ invariant: BitStream.TrailingBits#0
func zzTrailingInv(b *BitStream, pre_b *BitStream, nbBits int, pre_nbBits int) (bool, int) {
	return 0 <= nbBits && nbBits <= pre_nbBits && b.Position+nbBits == pre_b.Position+pre_nbBits && vs.Eq(b.Data, pre_b.Data) && b.Leb128Bytes == pre_b.Leb128Bytes, nbBits
}

//@ contract: BitStream.TrailingBits
//@ property: C03
func zzTrailingBits(b *BitStream, nbBits int) {
	vs.Requires(nbBits >= 1 && b.Position >= 0 && b.Position+nbBits <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	pos := b.Position
	b.TrailingBits(nbBits)
	vs.Ensures("consumed", b.Position == pos+nbBits)
}

//@ contract: BitStream.MoreDataInBistream
//@ property: C03
//@ inline:
func zzMoreData(b *BitStream) {
	vs.Requires(b.Position >= 0 && b.Position <= 8*len(b.Data))
	r := b.MoreDataInBistream()
	vs.Ensures("a byte is left", r == (b.Position < 8*len(b.Data)))
}

// ---- the specification's reader: a cursor over the bits

type ZzR struct {
	Data []byte
	Pos  int
}

func ZzAt(b *BitStream) *ZzR { return &ZzR{b.Data, b.Position} }

func (r *ZzR) F(n int) int {
	v := Zz_Bits(r.Data, r.Pos, n)
	r.Pos += n
	return v
}

func (r *ZzR) B() bool { return r.F(1) != 0 }

func (r *ZzR) Uvlc() int {
	lz := Zz_LZ(r.Data, r.Pos)
	if lz >= 32 {
		r.Pos += lz + 1
		return 1<<32 - 1
	}
	v := Zz_Bits(r.Data, r.Pos+lz+1, lz) + zzPow(lz) - 1
	r.Pos += 2*lz + 1
	return v
}

func (r *ZzR) Su(n int) int {
	v := r.F(n)
	if v >= zzPow(n-1) {
		v = v - zzPow(n)
	}
	return v
}

func (r *ZzR) Ns(n int) int {
	v := Zz_NsVal(r.Data, r.Pos, n)
	r.Pos += Zz_NsLen(r.Data, r.Pos, n)
	return v
}

func init() {
	vs.Realise("bitstream.Zz_LZ", func(data []byte, a []int64, v int64) {
		if v >= 0 && v < 64 {
			vs.PutBits(data, a[0], v+1, 1)
		}
	})
	vs.Realise("bitstream.Zz_NsVal", func(data []byte, a []int64, v int64) {
		n := a[1]
		if n <= 0 || v < 0 || v >= n {
			return
		}
		w := int64(0)
		for 1<<uint(w) <= n {
			w++
		}
		m := int64(1)<<uint(w) - n
		if v < m {
			vs.PutBits(data, a[0], w-1, v)
		} else {
			vs.PutBits(data, a[0], w, v+m)
		}
	})
}
