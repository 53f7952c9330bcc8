package util

import (
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// zzP2 is 2 to the power n.
func zzP2(n int) int { return 1 << uint(n) }

// ---- C08: integer helpers

//@ contract: Min
//@ property: C08
//@ inline:
func zzMin(x int, y int) {
	r := Min(x, y)
	vs.Ensures("lower bound", r <= x && r <= y)
	vs.Ensures("one of the two", r == x || r == y)
}

//@ contract: Max
//@ property: C08
//@ inline:
func zzMax(x int, y int) {
	r := Max(x, y)
	vs.Ensures("upper bound", r >= x && r >= y)
	vs.Ensures("one of the two", r == x || r == y)
}

//@ contract: Abs
//@ property: C08
//@ inline:
func zzAbs(x int) {
	vs.Requires(x > -1<<63)
	r := Abs(x)
	vs.Ensures("not negative", r >= 0)
	vs.Ensures("same magnitude", r == x || r == -x)
}

//@ contract: Bool
//@ property: C08
//@ inline:
func zzBool(x int) {
	r := Bool(x)
	vs.Ensures("non-zero test", r == (x != 0))
}

//@ contract: Int
//@ property: C08
//@ inline:
func zzInt(x bool) {
	r := Int(x)
	vs.Ensures("true is one", !x || r == 1)
	vs.Ensures("false is zero", x || r == 0)
}

//@ contract: Equals
//@ property: C08
//@ inline:
func zzEquals(a [2]int, b [2]int) {
	r := Equals(a, b)
	vs.Ensures("component-wise", r == (a[0] == b[0] && a[1] == b[1]))
}

//@ contract: Clip3
//@ property: C08
//@ inline:
func zzClip3(x int, y int, z int) {
	vs.Requires(x <= y)
	r := Clip3(x, y, z)
	vs.Ensures("in range", x <= r && r <= y)
	vs.Ensures("identity inside", !(x <= z && z <= y) || r == z)
	vs.Ensures("lower limit", !(z < x) || r == x)
	vs.Ensures("upper limit", !(z > y) || r == y)
}

//@ contract: Clip1
//@ property: C08
//@ inline:
func zzClip1(x int, bitDepth int) {
	vs.Requires(8 <= bitDepth && bitDepth <= 12)
	vs.Split(bitDepth, 8, 12)
	r := Clip1(x, bitDepth)
	hi := zzP2(bitDepth) - 1
	vs.Ensures("in range", 0 <= r && r <= hi)
	vs.Ensures("identity inside", !(0 <= x && x <= hi) || r == x)
	vs.Ensures("saturates below", !(x < 0) || r == 0)
	vs.Ensures("saturates above", !(x > hi) || r == hi)
}

//@ contract: Round2
//@ property: C08
//@ inline:
func zzRound2(x int, n int) {
	vs.Requires(0 <= n && n <= 61 && -1<<61 <= x && x <= 1<<61)
	vs.Split(n, 0, 61)
	r := Round2(x, n)
	// 2*r*2^n <= 2*x + 2^n < 2*(r+1)*2^n : round half up
	vs.Ensures("not above", 2*r*zzP2(n) <= 2*x+zzP2(n))
	vs.Ensures("nearest", 2*x+zzP2(n) < 2*(r+1)*zzP2(n))
}

//@ contract: Round2Signed
//@ property: C08
//@ inline:
func zzRound2Signed(x int, n int) {
	vs.Requires(0 <= n && n <= 61 && -1<<61 <= x && x <= 1<<61)
	vs.Split(n, 0, 61)
	r := Round2Signed(x, n)
	a, q := x, r
	if x < 0 {
		a, q = -x, -r
	}
	vs.Ensures("sign", q >= 0)
	vs.Ensures("not above", 2*q*zzP2(n) <= 2*a+zzP2(n))
	vs.Ensures("nearest, half away from zero", 2*a+zzP2(n) < 2*(q+1)*zzP2(n))
}

//@ contract: FloorLog2
//@ property: C08
func zzFloorLog2(x int) {
	vs.Requires(x >= 1)
	r := FloorLog2(x)
	vs.Ensures("range", 0 <= r && r <= 62)
	vs.Ensures("2^r <= x", zzP2(r) <= x)
	vs.Ensures("x < 2^(r+1)", x-zzP2(r) < zzP2(r))
}

//@ contract: CeilLog2
//@ property: C08
func zzCeilLog2(x int) {
	vs.Requires(x >= 0 && x <= 1<<62)
	r := CeilLog2(x)
	vs.Ensures("range", 0 <= r && r <= 62)
	vs.Ensures("x <= 2^r", x <= zzP2(r))
	vs.Ensures("least such r", r == 0 || zzP2(r) < 2*x)
}

// Zz_TL2: the least k with blkSize*2^k >= target.
//
//@ opaque: TL2
func Zz_TL2(blkSize int, target int) int {
	r := 30
	for k := 29; k >= 0; k-- {
		if blkSize*zzP2(k) >= target {
			r = k
		}
	}
	return r
}

func Zz_TL2_range(blkSize int, target int) (int, int) { return 0, 30 }

//@ lemma: range of the covering exponent
//@ property: C08
func zzTL2Range(blkSize int, target int) {
	vs.Transparent(Zz_TL2)
	r := Zz_TL2(blkSize, target)
	vs.Ensures("range", 0 <= r && r <= 30)
}

//@ contract: TileLog2
//@ property: C08
func zzTileLog2(blkSize int, target int) {
	vs.Requires(1 <= blkSize && blkSize <= 1<<30 && target <= 1<<30)
	vs.Transparent(Zz_TL2)
	r := TileLog2(blkSize, target)
	vs.Ensures("least exponent that covers the target", r == Zz_TL2(blkSize, target))
}

//@ lemma: the definition of tile_log2
//@ property: C08
func zzTL2(blkSize int, target int) {
	vs.Requires(1 <= blkSize && blkSize <= 1<<30 && target <= 1<<30)
	vs.Transparent(Zz_TL2)
	r := Zz_TL2(blkSize, target)
	vs.Ensures("covers the target", blkSize*zzP2(r) >= target)
	vs.Ensures("least such exponent", r == 0 || blkSize*zzP2(r) < 2*target)
}

// Zz_Ls: a*b/4 rounded down, plus a and b, for distances (in 1/8 samples) between the middles of neighbouring blocks.
//
//@ opaque: Ls
func Zz_Ls(a, b int) int {
	if -1024 <= a && a <= 1024 && -1280 <= b && b <= 1280 {
		return ((a * b) >> 2) + a + b
	}
	return 0
}
func Zz_Ls_range(a, b int) (int, int) { return -330000, 330000 }

//@ lemma: range of least-squares products
//@ property: C08
func zzLsRange(a, b int) {
	vs.Transparent(Zz_Ls)
	r := Zz_Ls(a, b)
	vs.Ensures("range", -330000 <= r && r <= 330000)
}

//@ contract: LsProduct
//@ property: C08
func zzLsProduct(a int, b int) {
	vs.Requires(-1024 <= a && a <= 1024 && -1280 <= b && b <= 1280)
	vs.Transparent(Zz_Ls)
	r := LsProduct(a, b)
	vs.Ensures("a*b/4 rounded down, plus a and b", r == Zz_Ls(a, b))
}

//@ contract: CountUnitsInFrame
//@ property: C08
//@ inline:
func zzCountUnitsInFrame(unitSize int, frameSize int) {
	vs.Requires(1 <= frameSize && frameSize <= 1<<17)
	vs.Requires(unitSize == 32 || unitSize == 64 || unitSize == 128 || unitSize == 256)
	vs.Split(unitSize, 32, 256)
	r := CountUnitsInFrame(unitSize, frameSize)
	vs.Ensures("at least one unit", r >= 1)
	vs.Ensures("at most the rounded count", r == 1 || 2*r*unitSize <= 2*frameSize+unitSize)
	vs.Ensures("the rounded count", 2*frameSize+unitSize < 2*(r+1)*unitSize)
}

// zzCount counts the occurrences of v.
func zzCount(a []int, v int) int {
	n := 0
	for i := 0; i < len(a); i++ {
		if a[i] == v {
			n++
		}
	}
	return n
}

// Palette colour lists have at most 8 entries.
//
//@ contract: Sort
//@ property: C08
//@ inline:
func zzSort(arr []int, i1 int, i2 int) {
	vs.Requires(1 <= len(arr) && len(arr) <= 6)
	vs.Requires(0 <= i1 && i1 <= 5 && 0 <= i2 && i2 <= 5 && i1 <= i2 && i2 < len(arr))
	vs.Split(len(arr), 1, 6)
	vs.Split(i1, 0, 5)
	vs.Split(i2, 0, 5)
	vs.Modifies(arr)
	old := vs.Snap(arr)
	r := Sort(arr, i1, i2)
	vs.Ensures("same length", len(r) == len(old))
	for i := 0; i < len(old); i++ {
		if i < i1 || i > i2 {
			vs.Ensures("outside the range unchanged", r[i] == old[i])
		}
		if i1 <= i && i < i2 {
			vs.Ensures("ascending inside the range", r[i] <= r[i+1])
		}
		vs.Ensures("same elements", zzCount(r, old[i]) == zzCount(old, old[i]))
		vs.Ensures("sorted in place", arr[i] == r[i])
	}
}

// ---- C10: recentred and deinterleaved values

// zzInverseRecenter: values near r come first: r, r-1, r+1, r-2, r+2, ...
//
//@ contract: InverseRecenter
//@ property: C10
//@ inline:
func zzInverseRecenter(r int, v int) {
	vs.Requires(0 <= r && r <= 1<<40 && 0 <= v && v <= 1<<40)
	x := InverseRecenter(r, v)
	vs.Ensures("far values are literal", !(v > 2*r) || x == v)
	vs.Ensures("odd codes are below r", !(v <= 2*r && v%2 == 1) || x == r-(v+1)/2)
	vs.Ensures("even codes are at or above r", !(v <= 2*r && v%2 == 0) || x == r+v/2)
	vs.Ensures("not negative", x >= 0)
}

// InverseRecenter with a fixed centre is a bijection of the naturals.
//
//@ lemma: the recentred code is injective
//@ property: C10
func zzInverseRecenterInj(r int, v int, w int) {
	vs.Requires(0 <= r && r <= 1<<40 && 0 <= v && v <= 1<<40 && 0 <= w && w <= 1<<40)
	x := InverseRecenter(r, v)
	y := InverseRecenter(r, w)
	vs.Ensures("different codes, different values", v == w || x != y)
}

// zzRecenter is the encoder's side.
func zzRecenter(r int, x int) int {
	if x > 2*r {
		return x
	}
	if x >= r {
		return 2 * (x - r)
	}
	return 2*(r-x) - 1
}

//@ lemma: every value has a code
//@ property: C10
func zzInverseRecenterSurj(r int, x int) {
	vs.Requires(0 <= r && r <= 1<<40 && 0 <= x && x <= 1<<40)
	v := zzRecenter(r, x)
	vs.Ensures("code in range", v >= 0)
	vs.Ensures("decodes to the value", InverseRecenter(r, v) == x)
}

// zzNegInterleave is the encoder's side of NegDeinterleave, for values 0..max-1 and a prediction ref.
func zzNegInterleave(x int, ref int, max int) int {
	d := x - ref
	if ref == 0 {
		return x
	}
	if ref >= max-1 {
		return -x + max - 1
	}
	if 2*ref < max {
		if d > 0 && d <= ref {
			return 2*d - 1
		}
		if d <= 0 && -d <= ref {
			return 2 * (-d)
		}
		return x
	}
	if d > 0 && d < max-ref {
		return 2*d - 1
	}
	if d <= 0 && -d < max-ref {
		return 2 * (-d)
	}
	return max - (x + 1)
}

//@ contract: NegDeinterleave
//@ property: C10
//@ inline:
func zzNegDeinterleave(diff int, ref int, max int) {
	vs.Requires(1 <= max && max <= 1<<20 && 0 <= ref && ref < max && 0 <= diff && diff < max)
	x := NegDeinterleave(diff, ref, max)
	vs.Ensures("stays in range", 0 <= x && x < max)
	vs.Ensures("inverse of the interleaving", zzNegInterleave(x, ref, max) == diff)
}

//@ lemma: deinterleaving inverts interleaving
//@ property: C10
func zzNegDeinterleaveInv(x int, ref int, max int) {
	vs.Requires(1 <= max && max <= 1<<20 && 0 <= ref && ref < max && 0 <= x && x < max)
	d := zzNegInterleave(x, ref, max)
	vs.Ensures("code in range", 0 <= d && d < max)
	vs.Ensures("value recovered", NegDeinterleave(d, ref, max) == x)
}

// ---- C09: trigonometric tables and bit reversal

// zzCos is round(4096*cos(pi*i/128)), i = 0..64, computed independently of the code.
var zzCos = [65]int{4096, 4095, 4091, 4085, 4076, 4065, 4052, 4036, 4017, 3996, 3973, 3948, 3920, 3889, 3857, 3822, 3784, 3745, 3703, 3659, 3612, 3564, 3513, 3461, 3406, 3349, 3290, 3229, 3166, 3102, 3035, 2967, 2896, 2824, 2751, 2675, 2598, 2520, 2440, 2359, 2276, 2191, 2106, 2019, 1931, 1842, 1751, 1660, 1567, 1474, 1380, 1285, 1189, 1092, 995, 897, 799, 700, 601, 501, 401, 301, 201, 101, 0}

func zzCosOf(a int) int {
	m := a % 256
	if m < 0 {
		m += 256
	}
	if m > 128 {
		m = 256 - m // cos is even
	}
	if m > 64 {
		return -zzCos[128-m] // cos(pi - t) = -cos(t)
	}
	return zzCos[m]
}

//@ contract: Cos128
//@ property: C09
//@ inline:
func zzCos128(angle int) {
	vs.Requires(-1<<31 <= angle && angle <= 1<<31)
	r := Cos128(angle)
	vs.Ensures("rounded cosine", r == zzCosOf(angle))
}

//@ contract: Sin128
//@ property: C09
//@ inline:
func zzSin128(angle int) {
	vs.Requires(-1<<31 <= angle && angle <= 1<<31)
	r := Sin128(angle)
	vs.Ensures("rounded sine", r == zzCosOf(64-angle))
}

//@ contract: Brev
//@ property: C09
//@ inline:
func zzBrev(numBits int, x int) {
	vs.Requires(0 <= numBits && numBits <= 16 && x >= 0)
	vs.Split(numBits, 0, 16)
	r := Brev(numBits, x)
	vs.Ensures("range", 0 <= r && r < zzP2(numBits))
	for i := 0; i < numBits; i++ {
		vs.Ensures("bit i becomes bit numBits-1-i", r/zzP2(numBits-1-i)%2 == x/zzP2(i)%2)
	}
}
