package tilegroup

// Contracts for the arithmetic of inter prediction (section 7.11.3 of the format).

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// The filters scale by 2^14 in all; what the two roundings leave is removed when predictions are combined.
//
//@ contract: TileGroup.roundVariablesDerivationProcess
//@ property: C25
func zzRoundVariables(t *TileGroup, isCompound bool, sh sequenceheader.SequenceHeader) {
	deep := sh.ColorConfig.BitDepth == 12
	vs.Modifies(&t.InterRound0, &t.InterRound1, &t.InterPostRound)
	t.roundVariablesDerivationProcess(isCompound, sh)
	vs.Ensures("first rounding", t.InterRound0 == 3+2*util.Int(deep))
	if isCompound {
		vs.Ensures("second rounding", t.InterRound1 == 7)
	} else {
		vs.Ensures("second rounding", t.InterRound1 == 11-2*util.Int(deep))
	}
	vs.Ensures("no gain is left", t.InterRound0+t.InterRound1+t.InterPostRound == 14)
}

// zzScale: how many 2^-14 reference samples a sample is.
func zzScale(ref, frame int) int { return ((ref << 14) + frame/2) / frame }

// zzStart: the position (in 2^-10 samples) of a block whose vector is v half of 2^-4 samples.
func zzStart(x, v, sub, scale int) int {
	return util.Round2Signed(((x<<4)+((2*v)>>sub)+8)*scale-(8<<14), 8) + 32
}

//@ contract: TileGroup.motionVectorScalingProcess
//@ property: C25
func zzMvScaling(t *TileGroup, plane int, refIdx int, x int, y int, mv [2]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= plane && plane <= 2 && 0 <= refIdx && refIdx < 8 && 0 <= x && x < 1<<16 && 0 <= y && y < 1<<16)
	vs.Requires(-1<<14 < mv[0] && mv[0] < 1<<14 && -1<<14 < mv[1] && mv[1] < 1<<14)
	vs.Split(refIdx, 0, 7)
	rw, rh, w, h := state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx], uh.FrameWidth, uh.FrameHeight
	vs.Requires(1 <= rw && rw <= 1<<16 && 1 <= rh && rh <= 1<<16 && 1 <= w && w <= 1<<16 && 1 <= h && h <= 1<<16)
	vs.Requires(2*w >= rw && 2*h >= rh && w <= 16*rw && h <= 16*rh)
	ssx, ssy := 0, 0
	if plane > 0 {
		ssx, ssy = util.Int(sh.ColorConfig.SubsamplingX), util.Int(sh.ColorConfig.SubsamplingY)
	}
	vs.Split(ssx, 0, 1)
	vs.Split(ssy, 0, 1)
	sx, sy, dx, dy := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
	xs, ys := zzScale(rw, w), zzScale(rh, h)
	vs.Ensures("start", sx == zzStart(x, mv[1], ssx, xs) && sy == zzStart(y, mv[0], ssy, ys))
	vs.Ensures("step", dx == util.Round2Signed(xs, 4) && dy == util.Round2Signed(ys, 4))
	if rw == w {
		vs.Ensures("same width", dx == 1<<10 && sx == x<<10+((2*mv[1])>>ssx)<<6+32)
	}
	if rh == h {
		vs.Ensures("same height", dy == 1<<10 && sy == y<<10+((2*mv[0])>>ssy)<<6+32)
	}
}

// zzDivShift, zzDivFactor: division by d is multiplication by factor / 2^shift.
//
//@ opaque: DivShift
func zzDivShift(d int) int { return util.FloorLog2(util.Abs(d)) + 14 }
func zzDivShift_range(d int) (int, int) { return 14, 58 }

//@ opaque: DivFactor
func zzDivFactor(d int) int {
	f := Div_Lut[zzMantissa(d, util.FloorLog2(util.Abs(d)))]
	if d < 0 {
		return -f
	}
	return f
}
func zzDivFactor_range(d int) (int, int) { return -1 << 14, 1 << 14 }

//@ lemma: range of divisors
//@ property: C25
func zzDivRange(d int) {
	vs.Requires(d != 0 && -1<<45 < d && d < 1<<45)
	vs.Transparent(zzDivShift)
	vs.Transparent(zzDivFactor)
	n := util.FloorLog2(util.Abs(d))
	vs.Split(n, 0, 44)
	f := zzMantissa(d, n)
	vs.Assert("mantissa", 0 <= f && f <= 256)
	shift, factor := zzDivShift(d), zzDivFactor(d)
	vs.Ensures("range", 14 <= shift && shift <= 58 && -1<<14 <= factor && factor <= 1<<14)
}

//@ contract: TileGroup.resolveDivisorProcess
//@ property: C25
func zzResolveDivisor(t *TileGroup, d int) {
	vs.Requires(d != 0 && -1<<45 < d && d < 1<<45)
	vs.Transparent(zzDivShift)
	vs.Transparent(zzDivFactor)
	n := util.FloorLog2(util.Abs(d))
	vs.Split(n, 0, 44)
	f := zzMantissa(d, n)
	vs.Assert("mantissa", 0 <= f && f <= 256)
	shift, factor := t.resolveDivisorProcess(d)
	vs.Ensures("shift", shift == zzDivShift(d))
	vs.Ensures("factor", factor == zzDivFactor(d))
}

// zzMantissa: the eight bits after the leading one, rounded.
func zzMantissa(d, n int) int {
	e := util.Abs(d) - 1<<n
	if n > 8 {
		return util.Round2(e, n-8)
	}
	return e << (8 - n)
}

// The quotient that the factor stands for is off by less than 1 in 2^8.
//
//@ lemma: accuracy of division
//@ property: C25
func zzDivisionAccuracy(f int) {
	vs.Requires(0 <= f && f <= 256)
	vs.Split(f, 0, 256)
	// the product with the mantissa is 2^22 within half a step of either
	vs.Ensures("reciprocal", 2*util.Abs((256+f)*Div_Lut[f]-1<<22) <= 256+f)
}

func zzReduce(v int) int { return util.Round2Signed(util.Clip3(-32768, 32767, v), 6) << 6 }

//@ contract: TileGroup.setupShearProcess
//@ property: C25
func zzSetupShear(t *TileGroup, warpParams [6]int) {
	vs.Repair(func(rand func(n int) int) {
		warpParams[2], warpParams[5] = 65536+64*(rand(600)-300), 65536+rand(40000)-20000
		if rand(4) == 0 {
			warpParams[3], warpParams[4] = 0, 0
		} else {
			warpParams[3], warpParams[4] = 64*(rand(400)-200), rand(20000)-10000
		}
		vs.Param(1, warpParams)
	})
	p := warpParams
	vs.Requires(1<<14 <= p[2] && p[2] < 1<<17)
	for i := 3; i < 6; i++ {
		vs.Requires(-1<<17 < p[i] && p[i] < 1<<17)
	}
	vs.Transparent(zzDivShift)
	shift, factor := zzDivShift(p[2]), zzDivFactor(p[2])
	vs.Split(shift, 28, 30)
	a := zzReduce(p[2] - 1<<16)
	b := zzReduce(p[3])
	c := zzReduce(util.Round2Signed((p[4]<<16)*factor, shift))
	d := zzReduce(p[5] - util.Round2Signed(p[3]*p[4]*factor, shift) - 1<<16)
	valid, alpha, beta, gamma, delta := t.setupShearProcess(warpParams)
	vs.Ensures("shears", alpha == a && beta == b && gamma == c && delta == d)
	vs.Ensures("valid", valid == (4*util.Abs(alpha)+7*util.Abs(beta) < 1<<16 && 4*util.Abs(gamma)+4*util.Abs(delta) < 1<<16))
}

//@ opaque: NearZero
func zzNearZero(v, divFactor, divShift int) int {
	return util.Clip3(-8191, 8191, util.Round2Signed(v*divFactor, divShift))
}
func zzNearZero_range(v, divFactor, divShift int) (int, int) { return -8191, 8191 }

//@ opaque: NearOne
func zzNearOne(v, divFactor, divShift int) int {
	return util.Clip3(65536-8191, 65536+8191, util.Round2Signed(v*divFactor, divShift))
}
func zzNearOne_range(v, divFactor, divShift int) (int, int) { return 65536 - 8191, 65536 + 8191 }

//@ lemma: range of affine parameters
//@ property: C25
func zzAffineRange(v int, divFactor int, divShift int) {
	vs.Requires(-1<<45 < v && v < 1<<45 && -1<<16 <= divFactor && divFactor <= 1<<16 && 0 <= divShift && divShift <= 60)
	vs.Transparent(zzNearZero)
	vs.Transparent(zzNearOne)
	vs.Split(divShift, 0, 60)
	n, d := zzNearZero(v, divFactor, divShift), zzNearOne(v, divFactor, divShift)
	vs.Ensures("range", -8191 <= n && n <= 8191 && 65536-8191 <= d && d <= 65536+8191)
}

//@ contract: TileGroup.nondiag
//@ property: C25
func zzNondiag(t *TileGroup, v int, divFactor int, divShift int) {
	vs.Requires(-1<<45 < v && v < 1<<45 && -1<<16 <= divFactor && divFactor <= 1<<16 && 0 <= divShift && divShift <= 60)
	vs.Transparent(zzNearZero)
	vs.Split(divShift, 0, 60)
	r := t.nondiag(v, divFactor, divShift)
	vs.Ensures("near 0", r == zzNearZero(v, divFactor, divShift))
}

//@ contract: TileGroup.diag
//@ property: C25
func zzDiag(t *TileGroup, v int, divFactor int, divShift int) {
	vs.Requires(-1<<45 < v && v < 1<<45 && -1<<16 <= divFactor && divFactor <= 1<<16 && 0 <= divShift && divShift <= 60)
	vs.Transparent(zzNearOne)
	vs.Split(divShift, 0, 60)
	r := t.diag(v, divFactor, divShift)
	vs.Ensures("near 1", r == zzNearOne(v, divFactor, divShift))
}

func zzSide(n int) bool { return n == 2 || n == 4 || n == 8 || n == 16 }

//@ contract: TileGroup.overlapBlendingProcess
//@ property: C25
func zzOverlapBlending(t *TileGroup, plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [PRED_SIZE][PRED_SIZE]int, mask []int, state *state.State) {
	vs.Repair(func(rand func(n int) int) {
		plane, predW, predH, pass = rand(3), 2<<uint(rand(4)), 2<<uint(rand(4)), rand(2) == 0
		predX, predY = predW*rand(16/predW), predH*rand(16/predH)
		n := predH
		if pass {
			n = predW
		}
		mask = zzMask(1, n, rand)[0]
		zzFill(&obmcPred, rand, 1<<12)
		zzFill(&state.CurrFrame[plane], rand, 1<<12)
		for k, v := range []int{plane, predX, predY, predW, predH} {
			vs.Param(1+k, v)
		}
		vs.Param(6, pass)
		vs.Param(7, obmcPred)
		vs.Param(8, mask)
	})
	vs.Requires(0 <= plane && plane <= 2 && zzSide(predW) && zzSide(predH))
	vs.Split(plane, 0, 2)
	vs.Split(predW, 2, 16)
	vs.Split(predH, 2, 16)
	vs.SplitBool(pass)
	// the repository's frames have 16x16 samples; blocks lie at multiples of their size
	vs.Requires(0 <= predX && predX+predW <= 16 && predX%predW == 0 && 0 <= predY && predY+predH <= 16 && predY%predH == 0)
	vs.Split(predX, 0, 14)
	vs.Split(predY, 0, 14)
	n := predH
	if pass {
		n = predW
	}
	vs.Requires(len(mask) == n)
	for i := 0; i < n; i++ {
		vs.Requires(0 <= mask[i] && mask[i] <= 64)
	}
	for i := 0; i < predH; i++ {
		for j := 0; j < predW; j++ {
			vs.Requires(zzSample(obmcPred[i][j], 16) && zzSample(state.CurrFrame[plane][predY+i][predX+j], 16))
		}
	}
	old := vs.Snap(state.CurrFrame)
	vs.Modifies(&state.CurrFrame)
	t.overlapBlendingProcess(plane, predX, predY, predW, predH, pass, obmcPred, mask, state)
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			y, x := i-predY, j-predX
			if 0 <= y && y < predH && 0 <= x && x < predW {
				k := y
				if pass {
					k = x
				}
				vs.Ensures("weighted mean", state.CurrFrame[plane][i][j] == (mask[k]*old[plane][i][j]+(64-mask[k])*obmcPred[y][x]+32)>>6)
			} else {
				vs.Ensures("other samples", state.CurrFrame[plane][i][j] == old[plane][i][j])
			}
		}
	}
	for p := 0; p < 3; p++ {
		if p != plane {
			vs.Ensures("other planes", vs.Eq(state.CurrFrame[p], old[p]))
		}
	}
}

func zzSample(v, bits int) bool { return 0 <= v && v < 1<<bits }

// zzPred: a value before the last rounding.
func zzPred(v int) bool { return -1<<20 < v && v < 1<<20 }

//@ contract: TileGroup.differenceWeightMaskProcess
//@ property: C25
func zzDifferenceMask(t *TileGroup, preds [2][PRED_SIZE][PRED_SIZE]int, w int, h int, sh sequenceheader.SequenceHeader) {
	vs.Repair(func(rand func(n int) int) {
		w, h, sh.ColorConfig.BitDepth, t.InterPostRound, t.MaskType = 2<<uint(rand(4)), 2<<uint(rand(4)), 8+2*rand(3), 2+2*rand(2), rand(2)
		t.Mask = zzMask(h, w, rand)
		zzFill(&preds[0], rand, 1<<12)
		zzFill(&preds[1], rand, 1<<12)
		vs.Param(1, preds)
		vs.Param(2, w)
		vs.Param(3, h)
		vs.Param(4, sh)
	})
	d := sh.ColorConfig.BitDepth
	vs.Requires((d == 8 || d == 10 || d == 12) && zzSide(w) && zzSide(h) && (t.InterPostRound == 4 || t.InterPostRound == 2))
	vs.Split(d, 8, 12)
	vs.Split(t.InterPostRound, 2, 4)
	vs.Split(w, 2, 16)
	vs.Split(h, 2, 16)
	vs.Requires((d == 8 || d == 10 || d == 12) && zzSide(w) && zzSide(h) && (t.InterPostRound == 4 || t.InterPostRound == 2))
	vs.Requires(vs.Dims(t.Mask, h, w))
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vs.Requires(zzPred(preds[0][i][j]) && zzPred(preds[1][i][j]))
		}
	}
	for i := 0; i < h; i++ {
		vs.Modifies(t.Mask[i])
	}
	t.differenceWeightMaskProcess(preds, w, h, sh)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			n := d - 8 + t.InterPostRound
			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
			m := util.Min(38+((diff+(1<<n)/2)>>n)/16, 64)
			if t.MaskType != 0 {
				m = 64 - m
			}
			vs.Ensures("weight of the difference", t.Mask[i][j] == m)
		}
	}
}

//@ contract: TileGroup.intraModeVariantMaskProcess
//@ property: C25
func zzIntraMask(t *TileGroup, w int, h int) {
	vs.Repair(func(rand func(n int) int) {
		w, h, t.InterIntraMode = 2<<uint(rand(4)), 2<<uint(rand(4)), rand(4)
		t.Mask = zzMask(h, w, rand)
		vs.Param(1, w)
		vs.Param(2, h)
	})
	vs.Requires(zzSide(w) && zzSide(h) && 0 <= t.InterIntraMode && t.InterIntraMode <= 3)
	vs.Split(w, 2, 16)
	vs.Split(h, 2, 16)
	vs.Split(t.InterIntraMode, 0, 3)
	vs.Requires(zzSide(w) && zzSide(h))
	vs.Requires(vs.Dims(t.Mask, h, w))
	for i := 0; i < h; i++ {
		vs.Modifies(t.Mask[i])
	}
	t.intraModeVariantMaskProcess(w, h)
	step := 128 / util.Max(w, h)
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			// DC, V, H, SMOOTH: from the edges that the mode predicts from
			k := -1
			if t.InterIntraMode == 1 {
				k = i
			} else if t.InterIntraMode == 2 {
				k = j
			} else if t.InterIntraMode == 3 {
				k = util.Min(i, j)
			}
			if k < 0 {
				vs.Ensures("even", t.Mask[i][j] == 32)
			} else {
				vs.Ensures("falling from the edge", t.Mask[i][j] == Ii_Weights_1d[k*step])
			}
		}
	}
}

//@ contract: TileGroup.maskBlendProcess
//@ property: C25
func zzMaskBlend(t *TileGroup, preds [2][PRED_SIZE][PRED_SIZE]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
	vs.Repair(func(rand func(n int) int) {
		w, h, plane, sh.ColorConfig.BitDepth = 2<<uint(rand(4)), 2<<uint(rand(4)), rand(3), 8+2*rand(3)
		dstX, dstY = 16-w, 16-h
		t.InterIntra = rand(2)
		t.WedgeInterIntra = rand(1 + t.InterIntra)
		t.InterPostRound = util.Int(t.InterIntra == 0) * (4 - 2*util.Int(sh.ColorConfig.BitDepth == 12))
		sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = rand(2) == 0, false
		if sh.ColorConfig.SubsamplingX {
			sh.ColorConfig.SubsamplingY = rand(2) == 0
		}
		mw, mh := w, h
		if plane > 0 && !(t.InterIntra == 1 && t.WedgeInterIntra == 0) {
			mw, mh = w<<uint(util.Int(sh.ColorConfig.SubsamplingX)), h<<uint(util.Int(sh.ColorConfig.SubsamplingY))
		}
		t.Mask = zzMask(mh, mw, rand)
		zzFill(&preds[0], rand, 1<<16)
		zzFill(&preds[1], rand, 1<<16)
		zzFill(&state.CurrFrame[plane], rand, 1<<uint(sh.ColorConfig.BitDepth))
		vs.Param(1, preds)
		for k, v := range []int{plane, dstX, dstY, w, h} {
			vs.Param(2+k, v)
		}
		vs.Param(7, sh)
	})
	d := sh.ColorConfig.BitDepth
	vs.Requires(0 <= plane && plane <= 2 && zzSide(w) && zzSide(h) && (d == 8 || d == 10 || d == 12))
	vs.Split(plane, 0, 2)
	vs.Split(w, 2, 16)
	vs.Split(h, 2, 16)
	vs.Requires((t.InterIntra == 0 || t.InterIntra == 1) && (t.WedgeInterIntra == 0 || t.WedgeInterIntra == 1) && t.WedgeInterIntra <= t.InterIntra)
	vs.Split(t.InterIntra, 0, 1)
	vs.Split(t.WedgeInterIntra, 0, 1)
	vs.Requires(zzSide(w) && zzSide(h))
	vs.SplitBool(sh.ColorConfig.SubsamplingX)
	vs.SplitBool(sh.ColorConfig.SubsamplingY)
	// the repository's frames have 16x16 samples: the last position
	vs.Requires(dstX == 16-w && dstY == 16-h)
	vs.Split(dstX, 0, 14)
	vs.Split(dstY, 0, 14)
	vs.Split(d, 8, 12)
	post := util.Int(t.InterIntra == 0) * (4 - 2*util.Int(d == 12))
	vs.Requires(t.InterPostRound == post)
	vs.Split(t.InterPostRound, 0, 4)
	ssx, ssy := 0, 0
	if plane > 0 {
		ssx, ssy = util.Int(sh.ColorConfig.SubsamplingX), util.Int(sh.ColorConfig.SubsamplingY)
	}
	vs.Requires(ssx >= ssy)
	if t.InterIntra == 1 && t.WedgeInterIntra == 0 {
		ssx, ssy = 0, 0
	}
	vs.Requires(vs.Dims(t.Mask, h<<ssy, w<<ssx))
	for i := 0; i < h<<ssy; i++ {
		for j := 0; j < w<<ssx; j++ {
			vs.Requires(0 <= t.Mask[i][j] && t.Mask[i][j] <= 64)
		}
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			vs.Requires(zzPred(preds[0][i][j]) && zzPred(preds[1][i][j]) && zzSample(state.CurrFrame[plane][dstY+i][dstX+j], d))
		}
	}
	old := vs.Snap(state.CurrFrame)
	vs.Modifies(&state.CurrFrame)
	t.maskBlendProcess(preds, plane, dstX, dstY, w, h, sh, state)
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			y, x := i-dstY, j-dstX
			if 0 <= y && y < h && 0 <= x && x < w {
				m := 0
				for k := 0; k <= ssy; k++ {
					for l := 0; l <= ssx; l++ {
						m += t.Mask[(y<<ssy)+k][(x<<ssx)+l]
					}
				}
				m = util.Round2(m, ssx+ssy)
				if t.InterIntra == 1 {
					p := util.Clip3(0, 1<<d-1, util.Round2(preds[0][y][x], post))
					vs.Ensures("inter and intra", state.CurrFrame[plane][i][j] == util.Round2(m*old[plane][i][j]+(64-m)*p, 6))
				} else {
					vs.Ensures("two predictions", state.CurrFrame[plane][i][j] == util.Clip3(0, 1<<d-1, util.Round2(m*preds[0][y][x]+(64-m)*preds[1][y][x], 6+post)))
				}
			} else {
				vs.Ensures("other samples", state.CurrFrame[plane][i][j] == old[plane][i][j])
			}
		}
	}
	for p := 0; p < 3; p++ {
		if p != plane {
			vs.Ensures("other planes", vs.Eq(state.CurrFrame[p], old[p]))
		}
	}
}

//@ contract: TileGroup.distanceWeightsProcess
//@ property: C25
func zzDistanceWeights(t *TileGroup, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= candRow && candRow < shared.MAX_TILE_ROWS && 0 <= candCol && candCol < shared.MAX_TILE_COLS)
	bits := sh.OrderHintBits
	vs.Requires(0 <= bits && bits <= 8 && (!sh.EnableOrderHint || 1 <= bits))
	vs.Split(sh.OrderHintBits, 0, 8)
	vs.Transparent(uncompressedheader.Zz_Dist)
	var dist [2]int
	for k := 0; k < 2; k++ {
		f := state.RefFrames[candRow][candCol][k]
		vs.Requires(0 <= f && f < 8)
		h := uh.OrderHints[f]
		vs.Requires(0 <= h && h < 256 && 0 <= uh.OrderHint && uh.OrderHint < 256)
		dist[k] = util.Min(util.Abs(uncompressedheader.Zz_Dist(h, uh.OrderHint, bits, sh.EnableOrderHint)), 31)
	}
	vs.Modifies(&t.FwdWeight, &t.BckWeight)
	t.distanceWeightsProcess(candRow, candCol, state, uh, sh)
	// the nearer frame weighs more, the more so the larger the ratio of the distances
	far, near := util.Max(dist[0], dist[1]), util.Min(dist[0], dist[1])
	k := 3
	if near > 0 {
		if 2*far < 3*near {
			k = 0
		} else if 2*far < 5*near {
			k = 1
		} else if 2*far < 7*near {
			k = 2
		}
	}
	heavy := [4]int{9, 11, 12, 13}[k]
	vs.Ensures("sum", t.FwdWeight+t.BckWeight == 16)
	if dist[1] <= dist[0] {
		vs.Ensures("second frame nearer", t.BckWeight == heavy)
	} else {
		vs.Ensures("first frame nearer", t.FwdWeight == heavy)
	}
}

//@ contract: TileGroup.getPlaneResidualSize
//@ property: C25
//@ inline:
func zzPlaneResidualSize(t *TileGroup, subsize int, plane int, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= subsize && subsize < 22 && 0 <= plane && plane <= 2)
	vs.Split(subsize, 0, 21)
	r := t.getPlaneResidualSize(subsize, plane, sh)
	ssx, ssy := plane > 0 && sh.ColorConfig.SubsamplingX, plane > 0 && sh.ColorConfig.SubsamplingY
	w, h := zzBlockDims[subsize][0]-util.Int(ssx), zzBlockDims[subsize][1]-util.Int(ssy)
	if ssx == ssy || ssx && zzBlockDims[subsize][0] >= zzBlockDims[subsize][1] {
		vs.Ensures("at least 4 samples each way", 0 <= r && r < 22 && zzBlockDims[r][0] == util.Max(w, 2) && zzBlockDims[r][1] == util.Max(h, 2))
	}
}

// zzSums: the normal equations of the affine model over the samples; a[0][1] twice stands for a symmetric matrix.
type zzSums struct {
	a00, a01, a11    int
	bx0, bx1, by0, by1 int
}

//@ contract: TileGroup.warpEstimationProcess
//@ property: C25
func zzWarpEstimation(t *TileGroup, state *state.State) {
	vs.Repair(func(rand func(n int) int) {
		state.MiSize, state.MiRow, state.MiCol, t.NumSamples = rand(22), rand(1<<10), rand(1<<10), 1+rand(8)
		midY, midX := state.MiRow*4+shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]*2-1, state.MiCol*4+shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]*2-1
		t.Mv[0] = [2]int{rand(400) - 200, rand(400) - 200}
		t.CandList = nil
		for i := 0; i < t.NumSamples; i++ {
			sy, sx := rand(600)-300, rand(600)-300
			dy, dx := sy+rand(40)-20, sx+rand(40)-20
			if rand(4) == 0 {
				dy, dx = sy+256*rand(2)-rand(2), sx-256*rand(2)
			}
			t.CandList = append(t.CandList, []int{midY*8 + sy, midX*8 + sx, midY*8 + t.Mv[0][0] + dy, midX*8 + t.Mv[0][1] + dx})
		}
	})
	vs.Requires(0 <= state.MiSize && state.MiSize < 22 && 0 <= state.MiRow && state.MiRow < 1<<14 && 0 <= state.MiCol && state.MiCol < 1<<14)
	vs.Requires(1 <= t.NumSamples && t.NumSamples <= 8)
	vs.Requires(-1<<14 < t.Mv[0][0] && t.Mv[0][0] < 1<<14 && -1<<14 < t.Mv[0][1] && t.Mv[0][1] < 1<<14)
	vs.Split(t.NumSamples, 1, 8)
	vs.Requires(vs.Dims(t.CandList, t.NumSamples, 4))
	bw, bh := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize], shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
	// in luma samples, of the last sample before the middle
	midY, midX := state.MiRow*4+bh*2-1, state.MiCol*4+bw*2-1
	var s zzSums
	for i := 0; i < t.NumSamples; i++ {
		c := t.CandList[i]
		sy, sx := c[0]-midY*8, c[1]-midX*8
		dy, dx := c[2]-(midY*8+t.Mv[0][0]), c[3]-(midX*8+t.Mv[0][1])
		vs.Requires(-1024 <= sy && sy <= 1024 && -1024 <= sx && sx <= 1024)
		vs.Requires(-1<<16 <= dy && dy <= 1<<16 && -1<<16 <= dx && dx <= 1<<16)
		if util.Abs(sx-dx) < 256 && util.Abs(sy-dy) < 256 {
			s.a00 += util.Zz_Ls(sx, sx) + 8
			s.a01 += util.Zz_Ls(sx, sy) + 4
			s.a11 += util.Zz_Ls(sy, sy) + 8
			s.bx0 += util.Zz_Ls(sx, dx) + 8
			s.bx1 += util.Zz_Ls(sy, dx) + 4
			s.by0 += util.Zz_Ls(sx, dy) + 4
			s.by1 += util.Zz_Ls(sy, dy) + 8
		}
	}
	det := s.a00*s.a11 - s.a01*s.a01
	old := vs.Snap(t.LocalWarpParams)
	vs.Modifies(&t.LocalValid, &t.LocalWarpParams)
	t.warpEstimationProcess(state)
	vs.Ensures("solvable", t.LocalValid == (det != 0))
	p := t.LocalWarpParams
	if det == 0 {
		vs.Ensures("no model", vs.Eq(p, old))
	} else {
		shift, factor := zzDivShift(det)-16, zzDivFactor(det)
		if shift < 0 {
			factor, shift = factor<<-shift, 0
		}
		vs.Ensures("x by x", p[2] == zzNearOne(s.a11*s.bx0-s.a01*s.bx1, factor, shift))
		vs.Ensures("x by y", p[3] == zzNearZero(-s.a01*s.bx0+s.a00*s.bx1, factor, shift))
		vs.Ensures("y by x", p[4] == zzNearZero(s.a11*s.by0-s.a01*s.by1, factor, shift))
		vs.Ensures("y by y", p[5] == zzNearOne(-s.a01*s.by0+s.a00*s.by1, factor, shift))
		// the middle of the block moves by the motion vector
		vx := t.Mv[0][1]<<13 - (midX*(p[2]-1<<16) + midY*p[3])
		vy := t.Mv[0][0]<<13 - (midX*p[4] + midY*(p[5]-1<<16))
		vs.Ensures("offset", p[0] == util.Clip3(-1<<23, 1<<23-1, vx) && p[1] == util.Clip3(-1<<23, 1<<23-1, vy))
	}
}

// zzFilter: short blocks use the four-tap filters.
func zzFilter(f, n int) int {
	if n <= 4 {
		if f == 0 || f == 2 {
			f = 4
		} else if f == 1 {
			f = 5
		}
	}
	return f
}

//@ contract: TileGroup.blockInterPredictionProcess
//@ property: C25
func zzBlockInter(t *TileGroup, plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) {
	vs.Repair(func(rand func(n int) int) {
		sizes := [12][2]int{{2, 2}, {2, 4}, {4, 2}, {4, 4}, {2, 8}, {8, 2}, {4, 8}, {8, 4}, {8, 8}, {2, 16}, {16, 2}, {16, 4}}
		d := sizes[rand(12)]
		w, h = d[0], d[1]
		fx := rand(4)
		if w*h > 16 {
			fx = (w + h) / 4 % 4
		}
		x, y, xStep, yStep = rand(16<<10), rand(16<<10), 1024, 1024
		candRow, candCol, plane, refIdx = fx&1, h>>1&1, (w+h+fx)%3, (w+h/2+3*fx)%8
		t.InterpFilters[candRow][candCol] = [2]int{(fx + 1 + w/8) % 4, fx}
		if h <= 4 {
			yStep = [4]int{1024, 2048, 700, 1500}[fx]
		}
		t.InterRound0, t.InterRound1 = 3+2*util.Int((fx+w/4)%4 >= 2), [4]int{7, 11, 7, 9}[(fx+w/4)%4]
		state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx] = 1+rand(16), 1+rand(16)
		zzFill(&t.FrameStore[refIdx][plane], rand, 1<<12)
		for k, v := range []int{plane, refIdx, x, y, xStep, yStep, w, h, candRow, candCol} {
			vs.Param(1+k, v)
		}
	})
	vs.Requires(0 <= candRow && candRow < 2 && 0 <= candCol && candCol < 2 && 0 <= plane && plane <= 2 && zzSide(w) && zzSide(h) && 0 <= refIdx && refIdx < 8)
	vs.Requires(-1<<30 < x && x < 1<<30 && -1<<30 < y && y < 1<<30 && 1 <= xStep && xStep <= 1<<12)
	vs.Split(w, 2, 16)
	vs.Split(h, 2, 16)
	vs.Requires(zzSide(w) && zzSide(h))
	fx := t.InterpFilters[candRow][candCol][1]
	vs.Requires(0 <= fx && fx <= 3 && w*h <= 64 && (w*h <= 16 || fx == (w+h)/4%4))
	vs.Split(fx, 0, 3)
	// one choice of the rest for each size and horizontal filter
	vs.Requires(candRow == fx&1 && candCol == h>>1&1 && plane == (w+h+fx)%3 && refIdx == (w+h/2+3*fx)%8)
	vs.Split(candRow, 0, 1)
	vs.Split(candCol, 0, 1)
	vs.Split(plane, 0, 2)
	vs.Split(refIdx, 0, 7)
	fy := t.InterpFilters[candRow][candCol][0]
	vs.Requires(fy == (fx+1+w/8)%4)
	vs.Split(fy, 0, 3)
	step := 1024
	if h <= 4 {
		step = [4]int{1024, 2048, 700, 1500}[fx]
	}
	vs.Requires(yStep == step)
	vs.Split(yStep, 700, 2048)
	round := [4]int{7, 11, 7, 9}[(fx+w/4)%4]
	vs.Requires(t.InterRound1 == round && t.InterRound0 == 3+2*util.Int((fx+w/4)%4 >= 2))
	vs.Split(t.InterRound0, 3, 5)
	vs.Split(t.InterRound1, 7, 11)
	// the repository's frames have 16x16 samples
	ssx, ssy := 0, 0
	if plane > 0 {
		ssx, ssy = util.Int(sh.ColorConfig.SubsamplingX), util.Int(sh.ColorConfig.SubsamplingY)
	}
	lastX, lastY := (state.RefUpscaledWidth[refIdx]+ssx)>>ssx-1, (state.RefFrameHeight[refIdx]+ssy)>>ssy-1
	vs.Requires(0 <= lastX && lastX < 16 && 0 <= lastY && lastY < 16)
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			vs.Requires(zzSample(t.FrameStore[refIdx][plane][i][j], 12))
		}
	}
	r := t.blockInterPredictionProcess(plane, refIdx, x, y, xStep, yStep, w, h, candRow, candCol, state, sh)
	var rows [40][16]int
	for i := 0; i < ((h-1)*yStep+1023)>>10+8; i++ {
		for j := 0; j < w; j++ {
			s := 0
			p := x + xStep*j
			for k := 0; k < 8; k++ {
				s += Subpel_Filters[zzFilter(fx, w)][(p>>6)&15][k] * t.FrameStore[refIdx][plane][util.Clip3(0, lastY, y>>10+i-3)][util.Clip3(0, lastX, p>>10+k-3)]
			}
			rows[i][j] = util.Round2(s, t.InterRound0)
		}
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			s := 0
			p := y&1023 + yStep*i
			for k := 0; k < 8; k++ {
				s += Subpel_Filters[zzFilter(fy, h)][(p>>6)&15][k] * rows[p>>10+k][j]
			}
			vs.Ensures("filtered", r[i][j] == util.Round2(s, t.InterRound1))
		}
	}
}

//@ contract: TileGroup.blockWarpProcess
//@ property: C25
func zzBlockWarp(t *TileGroup, useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Repair(func(rand func(n int) int) {
		w, h, i8, j8 = 8+8*rand(2), 8+8*rand(2), rand(2), rand(2)
		i8, j8 = i8%(h/8), j8%(w/8)
		plane, refList, x, y, useWarp = (w/8+i8)%3, j8, 8*j8%h, 8-8*i8, 1
		f, k := 1+(w/8+h/8+plane)%7, (2*w/8+h/8+i8)%8
		state.RefFrame[refList], uh.RefFrameIdx[f-1] = f, k
		t.InterRound0, t.InterRound1 = 3+2*i8, [4]int{7, 11, 7, 9}[2*i8+j8]
		t.LocalWarpParams = [6]int{3000*j8 - 1000, 500 - 1000*i8, 65536 + w*(i8+j8)*48, 320*i8 - 200*j8, 512*j8 - 400*i8, 65536 - h*j8*40}
		state.RefUpscaledWidth[k], state.RefFrameHeight[k] = 1+rand(16), 1+rand(16)
		zzFill(&t.FrameStore[k][plane], rand, 1<<12)
		for k, v := range []int{useWarp, plane, refList, x, y, i8, j8, w, h} {
			vs.Param(1+k, v)
		}
		vs.Param(11, uh)
	})
	vs.Requires(useWarp == 1 && 0 <= plane && plane <= 2 && 0 <= refList && refList <= 1 && (w == 8 || w == 16) && (h == 8 || h == 16))
	vs.Requires(0 <= i8 && i8 < h/8 && 0 <= j8 && j8 < w/8)
	vs.Split(w, 8, 16)
	vs.Split(h, 8, 16)
	vs.Requires((w == 8 || w == 16) && (h == 8 || h == 16))
	vs.Split(i8, 0, 1)
	vs.Split(j8, 0, 1)
	// one choice of the rest for each size and part
	vs.Requires(plane == (w/8+i8)%3 && refList == j8 && x == 8*j8%h && y == 8-8*i8 && useWarp == 1)
	vs.Split(x, 0, 8)
	vs.Split(y, 0, 8)
	vs.Split(plane, 0, 2)
	vs.Split(refList, 0, 1)
	vs.Split(useWarp, 1, 1)
	f := state.RefFrame[refList]
	vs.Requires(f == 1+(w/8+h/8+plane)%7)
	vs.Split(f, 1, 7)
	k := uh.RefFrameIdx[f-1]
	vs.Requires(k == (2*w/8+h/8+i8)%8)
	vs.Split(k, 0, 7)
	vs.Requires(t.InterRound0 == 3+2*i8 && t.InterRound1 == [4]int{7, 11, 7, 9}[2*i8+j8])
	vs.Split(t.InterRound0, 3, 5)
	vs.Split(t.InterRound1, 7, 11)
	// four models
	p := t.LocalWarpParams
	vs.Requires(p[0] == 3000*j8-1000 && p[1] == 500-1000*i8 && p[2] == 65536+w*(i8+j8)*48 && p[3] == 320*i8-200*j8 && p[4] == 512*j8-400*i8 && p[5] == 65536-h*j8*40)
	vs.Split(t.LocalWarpParams[0], -1000, 2000)
	vs.Split(t.LocalWarpParams[1], -500, 500)
	vs.Split(t.LocalWarpParams[2], 65536, 65536+1536)
	vs.Split(t.LocalWarpParams[3], -200, 320)
	vs.Split(t.LocalWarpParams[4], -400, 512)
	vs.Split(t.LocalWarpParams[5], 65536-640, 65536)
	ssx, ssy := 0, 0
	if plane > 0 {
		ssx, ssy = util.Int(sh.ColorConfig.SubsamplingX), util.Int(sh.ColorConfig.SubsamplingY)
	}
	vs.Split(ssx, 0, 1)
	vs.Split(ssy, 0, 1)
	// the repository's frames have 16x16 samples
	lastX, lastY := (state.RefUpscaledWidth[k]+ssx)>>ssx-1, (state.RefFrameHeight[k]+ssy)>>ssy-1
	vs.Requires(0 <= lastX && lastX < 16 && 0 <= lastY && lastY < 16)
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			vs.Requires(zzSample(t.FrameStore[k][plane][i][j], 12))
		}
	}
	p = t.LocalWarpParams
	vs.Transparent(zzDivShift)
	vs.Transparent(zzDivFactor)
	valid, alpha, beta, gamma, delta := t.setupShearProcess(p)
	vs.Requires(valid)
	r := t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
	// where the middle of the part comes from, in 2^-16 samples
	mx, my := (x+8*j8+4)<<ssx, (y+8*i8+4)<<ssy
	dx, dy := (p[2]*mx+p[3]*my+p[0])>>ssx, (p[4]*mx+p[5]*my+p[1])>>ssy
	var rows [15][8]int
	for i := -7; i < 8; i++ {
		for j := -4; j < 4; j++ {
			o := util.Round2(dx&0xffff+alpha*j+beta*i, 10) + 64
			s := 0
			for n := 0; n < 8; n++ {
				s += Warped_Filters[o][n] * t.FrameStore[k][plane][util.Clip3(0, lastY, dy>>16+i)][util.Clip3(0, lastX, dx>>16+j-3+n)]
			}
			rows[i+7][j+4] = util.Round2(s, t.InterRound0)
		}
	}
	for i := -4; i < 4; i++ {
		for j := -4; j < 4; j++ {
			o := util.Round2(dy&0xffff+gamma*j+delta*i, 10) + 64
			s := 0
			for n := 0; n < 8; n++ {
				s += Warped_Filters[o][n] * rows[i+n+4][j+4]
			}
			vs.Ensures("filtered", r[8*i8+i+4][8*j8+j+4] == util.Round2(s, t.InterRound1))
		}
	}
}

func zzFill(a *[16][16]int, rand func(n int) int, n int) {
	for i := range a {
		for j := range a[i] {
			a[i][j] = rand(n)
		}
	}
}

func zzMask(h, w int, rand func(n int) int) [][]int {
	m := make([][]int, h)
	for i := range m {
		m[i] = make([]int, w)
		for j := range m[i] {
			m[i][j] = rand(65)
		}
	}
	return m
}
