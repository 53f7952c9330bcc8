package tilegroup

// Contracts for the inverse transforms (section 7.13 of the format).

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzPow2(n int) int { return 1 << n }

// zzSmall: the array's entries are below 2^bits in magnitude.
func zzSmall(a [64]int, n, bits int) bool {
	ok := true
	for i := 0; i < n; i++ {
		ok = ok && -zzPow2(bits) <= a[i] && a[i] < zzPow2(bits)
	}
	return ok
}

func zzFits(x, bits int) bool { return -zzPow2(bits) <= x && x < zzPow2(bits) }

// zzRotX and zzRotY: (x, y) rotated by angle/128 of half a turn, each rounded to the nearest integer.
//
//@ opaque: RotX
func zzRotX(x, y, angle int) int { return (util.Cos128(angle)*x - util.Sin128(angle)*y + 2048) >> 12 }

func zzRotX_range(x, y, angle int) (int, int) {
	return -util.Abs(x) - util.Abs(y) - 1, util.Abs(x) + util.Abs(y) + 1
}

//@ opaque: RotY
func zzRotY(x, y, angle int) int { return (util.Sin128(angle)*x + util.Cos128(angle)*y + 2048) >> 12 }

func zzRotY_range(x, y, angle int) (int, int) {
	return -util.Abs(x) - util.Abs(y) - 1, util.Abs(x) + util.Abs(y) + 1
}

// A rotation makes no value larger than the sum of the two.
//
//@ lemma: the rotation's bounds
//@ property: C21
func zzRotRange(x, y, angle, c, s int) {
	vs.Requires(zzFits(x, 50) && zzFits(y, 50) && -4096 <= c && c <= 4096 && -4096 <= s && s <= 4096)
	vs.SplitBool(c >= 0)
	vs.SplitBool(s >= 0)
	vs.SplitBool(x >= 0)
	vs.SplitBool(y >= 0)
	a := util.Abs(x) + util.Abs(y) + 1
	vs.Assert("first", -4096*util.Abs(x) <= c*x && c*x <= 4096*util.Abs(x))
	vs.Assert("second", -4096*util.Abs(y) <= s*y && s*y <= 4096*util.Abs(y))
	vs.Ensures("difference", -a <= (c*x-s*y+2048)>>12 && (c*x-s*y+2048)>>12 <= a)
	vs.Ensures("sum", -a <= (c*x+s*y+2048)>>12 && (c*x+s*y+2048)>>12 <= a)
	if 0 <= angle && angle < 256 {
		vs.Ensures("sines", -4096 <= util.Cos128(angle) && util.Cos128(angle) <= 4096 && -4096 <= util.Sin128(angle) && util.Sin128(angle) <= 4096)
	}
}

// zzSat: x limited to r bits.
//
//@ opaque: Sat
func zzSat(x, r int) int { return util.Max(-zzPow2(r-1), util.Min(zzPow2(r-1)-1, x)) }

func zzSat_range(x, r int) (int, int) { return -zzPow2(r - 1), zzPow2(r-1) - 1 }

//@ lemma: saturation's bounds
//@ property: C21
func zzSatRange(x, r int) {
	vs.Requires(8 <= r && r <= 32)
	vs.Transparent(zzSat)
	vs.Split(r, 8, 32)
	vs.Ensures("bounds", -zzPow2(r-1) <= zzSat(x, r) && zzSat(x, r) <= zzPow2(r-1)-1)
	vs.Ensures("nothing else changes", !(-zzPow2(r-1) <= x && x < zzPow2(r-1)) || zzSat(x, r) == x)
}

//@ contract: TileGroup.b
//@ property: C21
func zzB(t *TileGroup, a int, b int, angle int, flag int, r int) {
	vs.Requires(0 <= a && a < 64 && 0 <= b && b < 64 && a != b && (flag == 0 || flag == 1) && 0 <= angle && angle < 256)
	vs.Requires(zzFits(t.T[a], 40) && zzFits(t.T[b], 40))
	vs.Split(flag, 0, 1)
	x, y := t.T[a], t.T[b]
	vs.Modifies(&t.T[a], &t.T[b])
	t.b(a, b, angle, flag, r)
	vs.Unfold(zzRotX(x, y, angle))
	vs.Unfold(zzRotY(x, y, angle))
	if flag == 1 {
		vs.Ensures("first output", t.T[b] == zzRotX(x, y, angle))
		vs.Ensures("second output", t.T[a] == zzRotY(x, y, angle))
	} else {
		vs.Ensures("first output", t.T[a] == zzRotX(x, y, angle))
		vs.Ensures("second output", t.T[b] == zzRotY(x, y, angle))
	}
}

//@ contract: TileGroup.h
//@ property: C21
func zzH(t *TileGroup, a int, b int, flag int, r int) {
	vs.Requires(0 <= a && a < 64 && 0 <= b && b < 64 && a != b && (flag == 0 || flag == 1) && 8 <= r && r <= 32)
	vs.Requires(zzFits(t.T[a], 40) && zzFits(t.T[b], 40))
	vs.Split(flag, 0, 1)
	vs.Split(r, 8, 32)
	x, y := t.T[a], t.T[b]
	vs.Modifies(&t.T[a], &t.T[b])
	t.h(a, b, flag, r)
	if flag == 1 {
		a, b = b, a
	}
	if flag == 1 {
		x, y = y, x
	}
	vs.Unfold(zzSat(x+y, r))
	vs.Unfold(zzSat(x-y, r))
	vs.Ensures("sum", t.T[a] == zzSat(x+y, r))
	vs.Ensures("difference", t.T[b] == zzSat(x-y, r))
}

// zzRot and zzHad are the two steps the transforms are made of, on a ghost copy of the array.
func zzRot(v *[64]int, a, b, angle int, flip bool) {
	x, y := zzRotX(v[a], v[b], angle), zzRotY(v[a], v[b], angle)
	if flip {
		x, y = y, x
	}
	v[a], v[b] = x, y
}

func zzHad(v *[64]int, a, b, r int, flip bool) {
	if flip {
		a, b = b, a
	}
	x, y := v[a], v[b]
	v[a], v[b] = zzSat(x+y, r), zzSat(x-y, r)
}

func zzReverse(bits, x int) int {
	y := 0
	for i := 0; i < bits; i++ {
		y = 2*y + (x>>i)%2
	}
	return y
}

// ZzDct: the inverse discrete cosine transform of 2^n values, defined from that of half as many: the
// even inputs give the sum of each pair of outputs, the odd ones the difference.
func zzDct(v *[64]int, n, r int) {
	in := *v
	for i := 0; i < 1<<n; i++ {
		v[i] = in[zzReverse(n, i)]
	}
	zzDctStages(v, n, r)
}

func zzDctStages(v *[64]int, n, r int) {
	if n == 1 {
		zzRot(v, 0, 1, 32, true)
		return
	}
	zzDctStages(v, n-1, r)
	h := 1 << (n - 1)
	// the odd half: v[h..2h)
	switch n {
	case 2:
		zzRot(v, 2, 3, 48, false)
	case 3:
		for i := 0; i < 2; i++ {
			zzRot(v, 4+i, 7-i, 56-32*i, false)
		}
		zzPairs(v, 4, 2, 2, r)
		zzRot(v, 6, 5, 32, true)
	case 4:
		for i := 0; i < 4; i++ {
			zzRot(v, 8+i, 15-i, 12+16*zzReverse(2, 3-i), false)
		}
		zzPairs(v, 8, 2, 4, r)
		for i := 0; i < 2; i++ {
			zzRot(v, 14-i, 9+i, 48+64*i, true)
		}
		zzPairs(v, 8, 4, 2, r)
		for i := 0; i < 2; i++ {
			zzRot(v, 13-i, 10+i, 32, true)
		}
	case 5:
		for i := 0; i < 8; i++ {
			zzRot(v, 16+i, 31-i, 6+8*zzReverse(3, 7-i), false)
		}
		zzPairs(v, 16, 2, 8, r)
		for i := 0; i < 4; i++ {
			zzRot(v, 30-4*(i>>1)-i%2, 17+4*(i>>1)+i%2, 24+64*(i%2)+32*(1-i>>1), true)
		}
		zzPairs(v, 16, 4, 4, r)
		for i := 0; i < 4; i++ {
			zzRot(v, 29-i, 18+i, 48+64*(i>>1), true)
		}
		zzPairs(v, 16, 8, 2, r)
		for i := 0; i < 4; i++ {
			zzRot(v, 27-i, 20+i, 32, true)
		}
	case 6:
		for i := 0; i < 16; i++ {
			zzRot(v, 32+i, 63-i, 63-4*zzReverse(4, i), false)
		}
		zzPairs(v, 32, 2, 16, r)
		for i := 0; i < 8; i++ {
			zzRot(v, 62-4*(i>>1)-i%2, 33+4*(i>>1)+i%2, 60-16*zzReverse(2, i>>1)+64*(i%2), true)
		}
		zzPairs(v, 32, 4, 8, r)
		for i := 0; i < 8; i++ {
			zzRot(v, 61-8*(i>>2)-i%4, 34+8*(i>>2)+i%4, 56-32*(i>>2)+64*(i%4>>1), true)
		}
		zzPairs(v, 32, 8, 4, r)
		for i := 0; i < 8; i++ {
			zzRot(v, 59-i, 36+i, 48+64*(i>>2), true)
		}
		zzPairs(v, 32, 16, 2, r)
		for i := 0; i < 8; i++ {
			zzRot(v, 55-i, 40+i, 32, true)
		}
	}
	for i := 0; i < h; i++ {
		zzHad(v, i, 2*h-1-i, r, false)
	}
}

// zzPairs: in blocks of size from start on, entry j and its mirror image become sum and difference, the other way round in every second block.
func zzPairs(v *[64]int, start, size, blocks, r int) {
	for i := 0; i < blocks; i++ {
		for j := 0; j < size/2; j++ {
			zzHad(v, start+size*i+j, start+size*i+size-1-j, r, i%2 == 1)
		}
	}
}

//@ contract: TileGroup.inverseDCT
//@ property: C21
func zzInverseDCT(t *TileGroup, n int, r int) {
	vs.Requires(2 <= n && n <= 6 && 16 <= r && r <= 20)
	vs.Split(n, 2, 6)
	vs.Split(r, 16, 20)
	vs.Requires(zzSmall(t.T, zzPow2(n), r-1))
	want := vs.Snap(t.T)
	zzDct(&want, n, r)
	vs.Modifies(&t.T)
	t.inverseDCT(n, r)
	for i := 0; i < 64; i++ {
		vs.Ensures("output", t.T[i] == want[i])
	}
}

// ZzAdst: the inverse asymmetric discrete sine transform of 2^n values.
func zzAdst(v *[64]int, n, r int) {
	in := *v
	if n == 2 {
		s0 := SINPI_1_9*in[0] + SINPI_4_9*in[2] + SINPI_2_9*in[3]
		s1 := SINPI_2_9*in[0] - SINPI_1_9*in[2] - SINPI_4_9*in[3]
		s3 := SINPI_3_9 * in[1]
		v[0] = zzRound12(s0 + s3)
		v[1] = zzRound12(s1 + s3)
		v[2] = zzRound12(SINPI_3_9 * (in[0] - in[2] + in[3]))
		v[3] = zzRound12(s0 + s1 - s3)
		return
	}
	size := 1 << n
	for i := 0; i < size; i += 2 {
		v[i], v[i+1] = in[size-1-i], in[i]
	}
	if n == 3 {
		for i := 0; i < 4; i++ {
			zzRot(v, 2*i, 2*i+1, 60-16*i, true)
		}
		zzHalves(v, 8, 8, r)
		zzRot(v, 4, 5, 48, true)
		zzRot(v, 7, 6, 16, true)
		zzHalves(v, 8, 4, r)
		zzRot(v, 2, 3, 32, true)
		zzRot(v, 6, 7, 32, true)
		from := [8]int{0, 4, 6, 2, 3, 7, 5, 1}
		in = *v
		for i := 0; i < 8; i += 2 {
			v[i], v[i+1] = in[from[i]], -in[from[i+1]]
		}
		return
	}
	for i := 0; i < 8; i++ {
		zzRot(v, 2*i, 2*i+1, 62-8*i, true)
	}
	zzHalves(v, 16, 16, r)
	zzRot(v, 8, 9, 56, true)
	zzRot(v, 10, 11, 24, true)
	zzRot(v, 13, 12, 8, true)
	zzRot(v, 15, 14, 40, true)
	zzHalves(v, 16, 8, r)
	for i := 0; i < 16; i += 8 {
		zzRot(v, i+4, i+5, 48, true)
		zzRot(v, i+7, i+6, 16, true)
	}
	zzHalves(v, 16, 4, r)
	for i := 0; i < 16; i += 4 {
		zzRot(v, i+2, i+3, 32, true)
	}
	from := [16]int{0, 8, 12, 4, 6, 14, 10, 2, 3, 11, 15, 7, 5, 13, 9, 1}
	in = *v
	for i := 0; i < 16; i += 2 {
		v[i], v[i+1] = in[from[i]], -in[from[i+1]]
	}
}

// zzHalves: in every block, the first half becomes the sums, the second half the differences.
func zzHalves(v *[64]int, size, block, r int) {
	for i := 0; i < size; i += block {
		for j := 0; j < block/2; j++ {
			zzHad(v, i+j, i+j+block/2, r, false)
		}
	}
}

func zzRound12(x int) int { return util.Round2(x, 12) }

// zzWht: the inverse Walsh-Hadamard transform.
func zzWht(v *[64]int, shift int) {
	a, c, d, b := v[0]>>shift, v[1]>>shift, v[2]>>shift, v[3]>>shift
	e := (a + c - (d - b)) >> 1
	v[0], v[1], v[2], v[3] = a+c-(e-b), e-b, e-c, d-b+(e-c)
}

// zzIdentity: the scaling that takes a transform's place.
func zzIdentity(v *[64]int, n int) {
	for i := 0; i < 1<<n; i++ {
		switch n {
		case 2:
			v[i] = zzRound12(v[i] * 5793)
		case 3:
			v[i] = v[i] * 2
		case 4:
			v[i] = zzRound12(v[i] * 11586)
		default:
			v[i] = v[i] * 4
		}
	}
}

func zzSame(a, b *[64]int) bool {
	ok := true
	for i := 0; i < 64; i++ {
		ok = ok && a[i] == b[i]
	}
	return ok
}

//@ contract: TileGroup.inverseADST
//@ property: C21
func zzInverseADST(t *TileGroup, n int, r int) {
	vs.Requires(2 <= n && n <= 4 && 16 <= r && r <= 20)
	vs.Split(n, 2, 4)
	vs.Split(r, 16, 20)
	vs.Requires(zzSmall(t.T, zzPow2(n), r-1))
	want := vs.Snap(t.T)
	zzAdst(&want, n, r)
	vs.Modifies(&t.T)
	t.inverseADST(n, r)
	for i := 0; i < 64; i++ {
		vs.Ensures("output", t.T[i] == want[i])
	}
}

//@ contract: TileGroup.inverseWalshHadamardTransform
//@ property: C21
func zzInverseWHT(t *TileGroup, shift int) {
	vs.Requires((shift == 0 || shift == 2) && zzSmall(t.T, 4, 40))
	vs.SplitBool(shift == 2)
	want := vs.Snap(t.T)
	zzWht(&want, shift)
	vs.Modifies(&t.T)
	t.inverseWalshHadamardTransform(shift)
	for i := 0; i < 64; i++ {
		vs.Ensures("output", t.T[i] == want[i])
	}
}

//@ contract: TileGroup.inverseIdentityTransform
//@ property: C21
func zzInverseIdentity(t *TileGroup, n int) {
	vs.Requires(2 <= n && n <= 5)
	vs.Split(n, 2, 5)
	vs.Requires(zzSmall(t.T, zzPow2(n), 40))
	want := vs.Snap(t.T)
	zzIdentity(&want, n)
	vs.Modifies(&t.T)
	t.inverseIdentityTransform(n)
	for i := 0; i < 64; i++ {
		vs.Ensures("output", t.T[i] == want[i])
	}
}

// Transform sizes: log2 of width and height, and how far the row output is shifted.
var zzTxDims = [19][3]int{
	{2, 2, 0}, {3, 3, 1}, {4, 4, 2}, {5, 5, 2}, {6, 6, 2},
	{2, 3, 0}, {3, 2, 0}, {3, 4, 1}, {4, 3, 1}, {4, 5, 1}, {5, 4, 1}, {5, 6, 1}, {6, 5, 1},
	{2, 4, 1}, {4, 2, 1}, {3, 5, 2}, {5, 3, 2}, {4, 6, 2}, {6, 4, 2},
}

// What each transform type does to columns and to rows: 0 cosine, 1 sine, 2 scaling only.
var zzTxKinds = [16][2]int{
	{0, 0}, {1, 0}, {0, 1}, {1, 1}, {1, 0}, {0, 1}, {1, 1}, {1, 1}, {1, 1},
	{2, 2}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {1, 2}, {2, 1},
}

// zzTxAllowed: the types a size can have.
func zzTxAllowed(size, typ int) bool {
	w, h := zzTxDims[size][0], zzTxDims[size][1]
	if w == 6 || h == 6 {
		return typ == 0
	}
	if w == 5 || h == 5 {
		return typ == 0 || typ == 9
	}
	return true
}

func zzTransform1D(v *[64]int, kind, n, r int) {
	switch kind {
	case 0:
		zzDct(v, n, r)
	case 1:
		zzAdst(v, n, r)
	default:
		zzIdentity(v, n)
	}
}

//@ opaque: Residual
func zzRes(dequant *[64][64]int, txSz, typ, depth int, lossless bool, i, j int) int {
	r := zzResidual(dequant, txSz, typ, depth, lossless)
	return r[i][j]
}

// Proved as "size" of zzInverseTransformNamed.
func zzRes_range(dequant *[64][64]int, txSz, typ, depth int, lossless bool, i, j int) (int, int) {
	return -1 << 40, 1 << 40
}

// zzResidual: rows are transformed first, limited, then columns.
//
//@ memo:
func zzResidual(dequant *[64][64]int, txSz, typ, depth int, lossless bool) [64][64]int {
	w, h := 1<<zzTxDims[txSz][0], 1<<zzTxDims[txSz][1]
	rows, cols := depth+8, util.Max(depth+6, 16)
	var want [64][64]int
	for i := 0; i < h; i++ {
		var v [64]int
		for j := 0; j < w && i < 32 && j < 32; j++ {
			v[j] = dequant[i][j]
			if zzTxDims[txSz][0]-zzTxDims[txSz][1] == 1 || zzTxDims[txSz][1]-zzTxDims[txSz][0] == 1 {
				v[j] = zzRound12(v[j] * 2896)
			}
		}
		if lossless {
			zzWht(&v, 2)
		} else {
			zzTransform1D(&v, zzTxKinds[typ][1], zzTxDims[txSz][0], rows)
		}
		for j := 0; j < w; j++ {
			x := v[j]
			if !lossless {
				x = util.Round2(x, zzTxDims[txSz][2])
			}
			want[i][j] = util.Clip3(-zzPow2(cols-1), zzPow2(cols-1)-1, x)
		}
	}
	for j := 0; j < w; j++ {
		var v [64]int
		for i := 0; i < h; i++ {
			v[i] = want[i][j]
		}
		if lossless {
			zzWht(&v, 0)
		} else {
			zzTransform1D(&v, zzTxKinds[typ][0], zzTxDims[txSz][1], cols)
		}
		for i := 0; i < h; i++ {
			want[i][j] = v[i]
			if !lossless {
				want[i][j] = util.Round2(v[i], 4)
			}
		}
	}
	return want
}

//@ contract: TileGroup.InverseTranform
//@ property: C21
func zzInverseTransform(t *TileGroup, txSz int, sh sequenceheader.SequenceHeader) {
	depth := sh.ColorConfig.BitDepth
	vs.Requires(0 <= txSz && txSz < 19 && 0 <= t.PlaneTxType && t.PlaneTxType < 16 && (depth == 8 || depth == 10 || depth == 12))
	vs.Split(txSz, 0, 18)
	vs.Split(t.PlaneTxType, 0, 15)
	vs.Requires(zzTxAllowed(txSz, t.PlaneTxType))
	vs.Requires(!t.Lossless || txSz == 0 && t.PlaneTxType == 0)
	vs.Split(depth, 8, 12)
	vs.SplitBool(t.Lossless)
	w, h := 1<<zzTxDims[txSz][0], 1<<zzTxDims[txSz][1]
	rows := depth + 8
	for i := 0; i < util.Min(h, 32); i++ {
		vs.Requires(zzSmall(t.Dequant[i], util.Min(w, 32), rows-1))
	}
	vs.Modifies(&t.T, &t.Residual)
	t.InverseTranform(txSz, sh)
	want := zzResidual(&t.Dequant, txSz, t.PlaneTxType, depth, t.Lossless)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vs.Ensures("residual", t.Residual[i][j] == want[i][j])
		}
	}
}

// The same for callers: the residual is a function of the coefficients.
//
//@ contract: TileGroup.InverseTranform
//@ property: C21
//@ summary:
func zzInverseTransformNamed(t *TileGroup, txSz int, sh sequenceheader.SequenceHeader) {
	vs.Transparent(zzRes)
	depth := sh.ColorConfig.BitDepth
	vs.Requires(0 <= txSz && txSz < 19 && 0 <= t.PlaneTxType && t.PlaneTxType < 16 && (depth == 8 || depth == 10 || depth == 12))
	vs.Split(txSz, 0, 18)
	vs.Split(t.PlaneTxType, 0, 15)
	vs.Requires(zzTxAllowed(txSz, t.PlaneTxType))
	vs.Requires(!t.Lossless || txSz == 0 && t.PlaneTxType == 0)
	vs.Split(depth, 8, 12)
	vs.SplitBool(t.Lossless)
	w, h := 1<<zzTxDims[txSz][0], 1<<zzTxDims[txSz][1]
	rows := depth + 8
	for i := 0; i < util.Min(h, 32); i++ {
		vs.Requires(zzSmall(t.Dequant[i], util.Min(w, 32), rows-1))
	}
	vs.Modifies(&t.T, &t.Residual)
	t.InverseTranform(txSz, sh)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vs.Ensures("residual", t.Residual[i][j] == zzRes(&t.Dequant, txSz, t.PlaneTxType, depth, t.Lossless, i, j))
			vs.Ensures("size", -1<<40 <= t.Residual[i][j] && t.Residual[i][j] <= 1<<40)
		}
	}
}
