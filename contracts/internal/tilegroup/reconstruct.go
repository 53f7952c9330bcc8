package tilegroup

// Contracts for dequantisation and reconstruction (section 7.12 of the format).

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// The first, middle and last steps of the quantizer tables, by bit depth.
var zzQuantEnds = [2][3][3]int{
	{{4, 123, 1336}, {4, 490, 5347}, {4, 1957, 21387}},
	{{4, 128, 1828}, {4, 604, 7312}, {4, 2411, 29247}},
}

//@ lemma: quantizer steps grow with the index
//@ property: C22
func zzQuantTables() {
	for d := 0; d < 3; d++ {
		vs.Ensures("256 steps", len(Dc_Qlookup[d]) == 256 && len(Ac_Qlookup[d]) == 256)
		for i := 1; i < 256; i++ {
			vs.Ensures("DC grows", Dc_Qlookup[d][i-1] <= Dc_Qlookup[d][i] && Dc_Qlookup[d][i] <= Dc_Qlookup[d][i-1]+8+Dc_Qlookup[d][i-1]/16)
			vs.Ensures("AC grows", Ac_Qlookup[d][i-1] < Ac_Qlookup[d][i] && Ac_Qlookup[d][i] <= Ac_Qlookup[d][i-1]+9+Ac_Qlookup[d][i-1]/16)
		}
		vs.Ensures("DC ends", Dc_Qlookup[d][0] == zzQuantEnds[0][d][0] && Dc_Qlookup[d][255] == zzQuantEnds[0][d][2])
		vs.Ensures("AC ends", Ac_Qlookup[d][0] == zzQuantEnds[1][d][0] && Ac_Qlookup[d][255] == zzQuantEnds[1][d][2])
	}
}

// zzIndex: the quantizer index of the block.
func zzIndex(t *TileGroup, uh *uncompressedheader.UncompressedHeader, s *state.State) int {
	q := uh.BaseQIdx
	if uh.DeltaQPresent {
		q = s.CurrentQIndex
	}
	if uh.SegmentationEnabled && s.FeatureEnabled[t.SegmentId][0] != 0 {
		q = util.Clip3(0, 255, q+s.FeatureData[t.SegmentId][0])
	}
	return q
}

func zzIndexOk(t *TileGroup, uh *uncompressedheader.UncompressedHeader, s *state.State) bool {
	return 0 <= t.SegmentId && t.SegmentId < 8 && 0 <= uh.BaseQIdx && uh.BaseQIdx <= 255 && 0 <= s.CurrentQIndex && s.CurrentQIndex <= 255 &&
		-255 <= s.FeatureData[t.SegmentId][0] && s.FeatureData[t.SegmentId][0] <= 255
}

func zzDeltaOk(x int) bool { return -64 <= x && x <= 63 }

//@ contract: TileGroup.getDcQuant
//@ property: C22
func zzGetDcQuant(t *TileGroup, plane int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
	depth := sh.ColorConfig.BitDepth
	vs.Requires(depth == 8 || depth == 10 || depth == 12)
	vs.Requires(0 <= plane && plane <= 2 && zzIndexOk(t, &uh, s))
	vs.Requires(zzDeltaOk(uh.DeltaQYDc) && zzDeltaOk(uh.DeltaQUDc) && zzDeltaOk(uh.DeltaQVDc))
	vs.Split(depth, 8, 12)
	vs.Split(plane, 0, 2)
	q := t.getDcQuant(plane, sh, uh, s)
	d := [3]int{uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQVDc}[plane]
	vs.Ensures("step", q == Dc_Qlookup[(depth-8)/2][util.Clip3(0, 255, zzIndex(t, &uh, s)+d)])
	vs.Ensures("bounds", 4 <= q && q <= 21387)
}

//@ contract: TileGroup.getAcQuant
//@ property: C22
func zzGetAcQuant(t *TileGroup, plane int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
	depth := sh.ColorConfig.BitDepth
	vs.Requires(depth == 8 || depth == 10 || depth == 12)
	vs.Requires(0 <= plane && plane <= 2 && zzIndexOk(t, &uh, s))
	vs.Requires(zzDeltaOk(uh.DeltaQUAc) && zzDeltaOk(uh.DeltaQVAc))
	vs.Split(depth, 8, 12)
	vs.Split(plane, 0, 2)
	q := t.getAcQuant(plane, sh, uh, s)
	d := [3]int{0, uh.DeltaQUAc, uh.DeltaQVAc}[plane]
	vs.Ensures("step", q == Ac_Qlookup[(depth-8)/2][util.Clip3(0, 255, zzIndex(t, &uh, s)+d)])
	vs.Ensures("bounds", 4 <= q && q <= 29247)
}

// How far dequantised coefficients are scaled down, and where a size's quantizer matrix starts.
var zzDown = [19]int{1, 1, 1, 2, 4, 1, 1, 1, 1, 2, 2, 4, 4, 1, 1, 1, 1, 2, 2}
var zzMatrixAt = [19]int{0, 16, 80, 336, 336, 1360, 1392, 1424, 1552, 1680, 2192, 336, 336, 2704, 2768, 2832, 3088, 1680, 2192}

// Types that mirror columns (top to bottom) or rows (left to right).
var zzMirror = [16][2]bool{4: {true, false}, 5: {false, true}, 6: {true, true}, 7: {false, true}, 8: {true, false}, 14: {true, false}, 15: {false, true}}

//@ contract: TileGroup.reconstruct
//@ property: C22
//@ summaries:
func zzReconstruct(t *TileGroup, plane int, x int, y int, txSz int, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, s *state.State) {
	depth := sh.ColorConfig.BitDepth
	vs.Requires(0 <= plane && plane <= 2)
	vs.Split(plane, 0, 2)
	vs.Requires(0 <= txSz && txSz < 19 && 0 <= t.PlaneTxType && t.PlaneTxType < 16)
	vs.Split(txSz, 0, 18)
	w, h := 1<<zzTxDims[txSz][0], 1<<zzTxDims[txSz][1]
	vs.Requires(w <= 16 && h <= 16)
	vs.Split(t.PlaneTxType, 0, 15)
	// Bounded: one position and bit depth for each plane, size and type; all occur together with each of the others.
	vs.Requires(x == 4*((t.PlaneTxType+plane)%4)%(20-w) && 0 <= x && x <= 12)
	vs.Requires(y == 4*((t.PlaneTxType/4+txSz)%4)%(20-h) && 0 <= y && y <= 12)
	vs.Requires(depth == 8+2*((t.PlaneTxType+txSz+plane)%3) && 8 <= depth && depth <= 12)
	vs.Split(x, 0, 12)
	vs.Split(y, 0, 12)
	vs.Split(depth, 8, 12)
	vs.Requires(!t.Lossless || txSz == 0 && t.PlaneTxType == 0)
	vs.SplitBool(t.Lossless)
	vs.Requires(zzIndexOk(t, &uh, s))
	vs.Requires(zzDeltaOk(uh.DeltaQYDc) && zzDeltaOk(uh.DeltaQUDc) && zzDeltaOk(uh.DeltaQVDc) && zzDeltaOk(uh.DeltaQUAc) && zzDeltaOk(uh.DeltaQVAc))
	level := uh.SegQMLevel[plane][t.SegmentId]
	vs.Requires(0 <= level && level <= 15)
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			vs.Requires(-(1<<20) < t.Quant[16*i+j] && t.Quant[16*i+j] < 1<<20)
			if i < h && j < w && y+i < 16 && x+j < 16 {
				vs.Requires(0 <= s.CurrFrame[plane][y+i][x+j] && s.CurrFrame[plane][y+i][x+j] < zzPow2(depth))
			}
		}
	}
	old := vs.Snap(s.CurrFrame)
	vs.Modifies(&t.T, &t.Residual, &t.Dequant, &s.CurrFrame)
	t.reconstruct(plane, x, y, txSz, sh, uh, s)
	dc, ac := t.getDcQuant(plane, sh, uh, s), t.getAcQuant(plane, sh, uh, s)
	matrix := uh.UsingQMatrix && t.PlaneTxType < 9 && level < 15
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			q := ac
			if i == 0 && j == 0 {
				q = dc
			}
			if matrix {
				q = util.Round2(q*Quantizer_Matrix[level][util.Int(plane > 0)][zzMatrixAt[txSz]+i*w+j], 5)
			}
			c := util.Abs(t.Quant[i*w+j]*q) % (1 << 24) / zzDown[txSz]
			if t.Quant[i*w+j] < 0 {
				c = -c
			}
			vs.Ensures("coefficient", t.Dequant[i][j] == util.Clip3(-zzPow2(7+depth), zzPow2(7+depth)-1, c))
		}
	}
	m := zzMirror[t.PlaneTxType]
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			yy, xx := i, j
			if m[0] {
				yy = h - 1 - i
			}
			if m[1] {
				xx = w - 1 - j
			}
			vs.Ensures("sample", s.CurrFrame[plane][y+yy][x+xx] == util.Clip1(old[plane][y+yy][x+xx]+zzRes(&t.Dequant, txSz, t.PlaneTxType, depth, t.Lossless, i, j), depth))
		}
	}
}
