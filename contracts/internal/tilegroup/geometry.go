package tilegroup

// What the tables of transform sizes, filters and weights mean.

import (
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

//@ lemma: transform sizes
//@ property: C24
func zzTxSizes() {
	vs.Ensures("sizes", len(Tx_Width) == 19 && len(Tx_Height) == 19 && len(TX_WIDTH_LOG2) == 19 && len(TX_HEIGHT_LOG2) == 19 && len(Split_Tx_Size) == 19 && len(ADJUSTED_TX_SIZE) == 19 && len(TX_SIZE_SQR) == 19 && len(TX_SIZE_SQR_UP) == 19)
	for i := 0; i < 19; i++ {
		w, h := zzTxDims[i][0], zzTxDims[i][1]
		vs.Ensures("in samples", Tx_Width[i] == 1<<w && Tx_Height[i] == 1<<h)
		vs.Ensures("logarithms", TX_WIDTH_LOG2[i] == w && TX_HEIGHT_LOG2[i] == h)
		vs.Ensures("squares within and around", TX_SIZE_SQR[i] == zzTx(util.Min(w, h), util.Min(w, h)) && TX_SIZE_SQR_UP[i] == zzTx(util.Max(w, h), util.Max(w, h)))
		vs.Ensures("coded part", ADJUSTED_TX_SIZE[i] == zzTx(util.Min(w, 5), util.Min(h, 5)))
		sw, sh := zzSplit(w, h)
		vs.Ensures("parts", Split_Tx_Size[i] == zzTx(sw, sh))
	}
}

// zzSplit: a square is split into four squares, a rectangle into halves of its longer side.
func zzSplit(w, h int) (int, int) {
	if w > h {
		return w - 1, h
	} else if h > w {
		return w, h - 1
	}
	return util.Max(w-1, 2), util.Max(h-1, 2)
}

//@ lemma: largest transforms
//@ property: C24
func zzLargestTx() {
	vs.Ensures("sizes", len(Max_Tx_Size_Rect) == 22 && len(Max_Tx_Depth) == 22 && len(SIZE_GROUP) == 22)
	for i := 0; i < 22; i++ {
		w, h := zzBlockDims[i][0], zzBlockDims[i][1]
		tx := zzTx(util.Min(w, 6), util.Min(h, 6))
		vs.Ensures("largest transform", Max_Tx_Size_Rect[i] == tx)
		depth := 0
		for k := 0; k < 6; k++ {
			if tx != 0 {
				sw, sh := zzSplit(zzTxDims[tx][0], zzTxDims[tx][1])
				tx = zzTx(sw, sh)
				depth++
			}
		}
		vs.Ensures("splits down to 4x4", Max_Tx_Depth[i] == depth)
		vs.Ensures("mode context", SIZE_GROUP[i] == util.Min(3, util.Min(w, h)-2))
	}
}

// Division by a number with a leading one and 8 more bits.
//
//@ lemma: division table
//@ property: C24
func zzDivLut() {
	vs.Ensures("size", len(Div_Lut) == 257)
	for i := 0; i < 257; i++ {
		vs.Ensures("rounded quotient", Div_Lut[i] == (1<<22+(256+i)/2)/(256+i))
	}
}

func zzSum(x []int) int {
	s := 0
	for i := range x {
		s += x[i]
	}
	return s
}

//@ lemma: filters
//@ property: C24
func zzFilters() {
	vs.Ensures("sizes", len(Subpel_Filters) == 6 && len(Warped_Filters) == 193 && len(Intra_Filter_Taps) == 5 && len(Intra_Edge_Kernel) == 3)
	for i := range Subpel_Filters {
		vs.Ensures("positions", len(Subpel_Filters[i]) == 16)
		for j := range Subpel_Filters[i] {
			vs.Ensures("sums to one", zzSum(Subpel_Filters[i][j]) == 128)
			for k := 0; j > 0 && k < 8; k++ {
				vs.Ensures("mirrored", Subpel_Filters[i][j][k] == Subpel_Filters[i][16-j][7-k])
			}
		}
	}
	for i := range Warped_Filters {
		vs.Ensures("warp filter sums to one", zzSum(Warped_Filters[i]) == 128)
	}
	for i := range UPSCALE_FILTER {
		s := 0
		for j := range UPSCALE_FILTER[i] {
			s += UPSCALE_FILTER[i][j]
			if i > 0 {
				vs.Ensures("upscaling filter mirrored", UPSCALE_FILTER[i][j] == UPSCALE_FILTER[64-i][7-j])
			}
		}
		vs.Ensures("upscaling filter sums to one", s == 128)
	}
	for i := range Intra_Filter_Taps {
		vs.Ensures("positions of recursive filters", len(Intra_Filter_Taps[i]) == 8)
		for j := range Intra_Filter_Taps[i] {
			vs.Ensures("recursive filter sums to one", zzSum(Intra_Filter_Taps[i][j]) == 16)
		}
	}
	for i := range Intra_Edge_Kernel {
		vs.Ensures("edge filter sums to one", zzSum(Intra_Edge_Kernel[i]) == 16)
		for j := range Intra_Edge_Kernel[i] {
			vs.Ensures("edge filter symmetric", Intra_Edge_Kernel[i][j] == Intra_Edge_Kernel[i][4-j])
		}
	}
}

// zzFalling: from first, never rising, last at least.
func zzFalling(x []int, n, first, last int) bool {
	if len(x) != n || x[0] != first || x[n-1] != last {
		return false
	}
	ok := true
	for i := 1; i < len(x); i++ {
		ok = ok && x[i] <= x[i-1]
	}
	return ok
}

//@ lemma: weights
//@ property: C24
func zzWeights() {
	vs.Ensures("smooth prediction", zzFalling(Sm_Weights_Tx_4x4, 4, 255, 64) && zzFalling(Sm_Weights_Tx_8x8, 8, 255, 32) && zzFalling(Sm_Weights_Tx_16x16, 16, 255, 16) && zzFalling(Sm_Weights_Tx_32x32, 32, 255, 8) && zzFalling(Sm_Weights_Tx_64x64, 64, 255, 4))
	vs.Ensures("inter-intra", zzFalling(Ii_Weights_1d, MAX_SB_SIZE, 60, 1))
	for i := range Quant_Dist_Lookup {
		vs.Ensures("distance weights sum to one", Quant_Dist_Lookup[i][0]+Quant_Dist_Lookup[i][1] == 16)
	}
	for i := 1; i <= 8; i++ {
		vs.Ensures("direction averages", DIV_TABLE[i]*i == 840)
	}
	for i := 0; i < 8; i++ {
		vs.Ensures("direction", CDEF_UV_DIR[0][0][i] == i && CDEF_UV_DIR[1][1][i] == i)
	}
	for i := 0; i < 2; i++ {
		vs.Ensures("sum of the tuples", 2*Sgrproj_Xqd_Mid[i] >= 2*Sgrproj_Xqd_Min[i] && Sgrproj_Xqd_Mid[i] <= Sgrproj_Xqd_Max[i])
	}
	for i := 0; i < 3; i++ {
		vs.Ensures("Wiener range", Wiener_Taps_Min[i] <= Wiener_Taps_Mid[i] && Wiener_Taps_Mid[i] <= Wiener_Taps_Max[i] && Wiener_Taps_Max[i]-Wiener_Taps_Min[i]+1 == 1<<(4+i))
		vs.Ensures("Wiener code", Wiener_Taps_K[i] == 1+i)
	}
}

// Steep angles are the complements of flat ones: the product of their slopes is 64 squared.
//
//@ lemma: directional slopes
//@ property: C24
func zzSlopes() {
	vs.Ensures("size", len(Dr_Intra_Derivative) >= 88)
	for i := 6; i <= 84; i++ {
		d, e := Dr_Intra_Derivative[i], Dr_Intra_Derivative[90-i]
		vs.Ensures("same angles", (d == 0) == (e == 0))
		if i <= 45 && d != 0 {
			vs.Ensures("complement", e == 4096/d)
		}
	}
}

// Quantizer steps rise with the index.
//
//@ lemma: quantizer tables
//@ property: C24
func zzQLookup() {
	vs.Ensures("depths", len(Dc_Qlookup) == 3 && len(Ac_Qlookup) == 3)
	for i := 0; i < 3; i++ {
		vs.Ensures("indices", len(Dc_Qlookup[i]) == 256 && len(Ac_Qlookup[i]) == 256)
		vs.Ensures("lossless step", Dc_Qlookup[i][0] == 4 && Ac_Qlookup[i][0] == 4)
		for j := 1; j < 256; j++ {
			vs.Ensures("rising", Dc_Qlookup[i][j-1] <= Dc_Qlookup[i][j] && Ac_Qlookup[i][j-1] < Ac_Qlookup[i][j])
		}
	}
}
