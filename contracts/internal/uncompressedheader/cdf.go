package uncompressedheader

// Contracts for the probability tables. Written by gen/cdf_contracts.py.

import (
	"github.com/m4tthewde/gov1/internal/state"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzTable1(t []int, n int) bool { return state.ZzCdf(t, n-1) && t[n-1] == 0 }

func zzTable2(t [][]int, n0, n1 int) bool {
	ok := len(t) == n0
	for i := range t {
		ok = ok && zzTable1(t[i], n1)
	}
	return ok
}

func zzTable3(t [][][]int, n0, n1, n2 int) bool {
	ok := len(t) == n0
	for i := range t {
		ok = ok && zzTable2(t[i], n1, n2)
	}
	return ok
}

func zzTable4(t [][][][]int, n0, n1, n2, n3 int) bool {
	ok := len(t) == n0
	for i := range t {
		ok = ok && zzTable3(t[i], n1, n2, n3)
	}
	return ok
}

func zzTable5(t [][][][][]int, n0, n1, n2, n3, n4 int) bool {
	ok := len(t) == n0
	for i := range t {
		ok = ok && zzTable4(t[i], n1, n2, n3, n4)
	}
	return ok
}

// Every row of every default table is a distribution over its symbols, and every table has the format's number of rows.
//
// @ lemma: default tables
// @ property: C19
func zzDefaults() {
	vs.Ensures("YModeCdf", zzTable2(DEFAULT_Y_MODE_CDF, 4, 14))
	vs.Ensures("IntraFrameYModeCdf", zzTable3(DEFAULT_INTRA_FRAME_Y_MODE_CDF, 5, 5, 14))
	vs.Ensures("UVModeCflNotAllowedCdf", zzTable2(DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF, 13, 14))
	vs.Ensures("UVModeCflAllowedCdf", zzTable2(DEFAULT_UV_MODE_CFL_ALLOWED_CDF, 13, 15))
	vs.Ensures("AngleDeltaCdf", zzTable2(DEFAULT_ANGLE_DELTA_CDF, 8, 8))
	vs.Ensures("IntrabcCdf", zzTable1(DEFAULT_INTRABC_CDF, 3))
	vs.Ensures("PartitionW8Cdf", zzTable2(DEFAULT_PARTITION_W8_CDF, 4, 5))
	vs.Ensures("PartitionW16Cdf", zzTable2(DEFAULT_PARTITION_W16_CDF, 4, 11))
	vs.Ensures("PartitionW32Cdf", zzTable2(DEFAULT_PARTITION_W32_CDF, 4, 11))
	vs.Ensures("PartitionW64Cdf", zzTable2(DEFAULT_PARTITION_W64_CDF, 4, 11))
	vs.Ensures("PartitionW128Cdf", zzTable2(DEFAULT_PARTITION_W128_CDF, 4, 9))
	vs.Ensures("SegmentIdCdf", zzTable2(DEFAULT_SEGMENT_ID_CDF, 3, 9))
	vs.Ensures("SegmentIdPredictedCdf", zzTable2(DEFAULT_SEGMENT_ID_PREDICTED_CDF, 3, 3))
	vs.Ensures("Tx8x8Cdf", zzTable2(DEFAULT_TX_8X8_CDF, 3, 3))
	vs.Ensures("Tx16x16Cdf", zzTable2(DEFAULT_TX_16X16_CDF, 3, 4))
	vs.Ensures("Tx32x32Cdf", zzTable2(DEFAULT_TX_32X32_CDF, 3, 4))
	vs.Ensures("Tx64x64Cdf", zzTable2(DEFAULT_TX_64X64_CDF, 3, 4))
	vs.Ensures("TxfmSplitCdf", zzTable2(DEFAULT_TXFM_SPLIT_CDF, 21, 3))
	vs.Ensures("FilterIntraModeCdf", zzTable1(DEFAULT_FILTER_INTRA_MODE_CDF, 6))
	vs.Ensures("FilterIntraCdf", zzTable2(DEFAULT_FILTER_INTRA_CDF, 22, 3))
	vs.Ensures("InterpFilterCdf", zzTable2(DEFAULT_INTERP_FILTER_CDF, 16, 4))
	vs.Ensures("MotionModeCdf", zzTable2(DEFAULT_MOTION_MODE_CDF, 22, 4))
	vs.Ensures("NewMvCdf", zzTable2(DEFAULT_NEW_MV_CDF, 6, 3))
	vs.Ensures("ZeroMvCdf", zzTable2(DFEAULT_ZERO_MV_CDF, 2, 3))
	vs.Ensures("RefMvCdf", zzTable2(DEFAULT_REF_MV_CDF, 6, 3))
	vs.Ensures("CompoundModeCdf", zzTable2(DEFAULT_COMPOUND_MODE_CDF, 8, 9))
	vs.Ensures("DrlModeCdf", zzTable2(DEFAULT_DRL_MODE_CDF, 3, 3))
	vs.Ensures("IsInterCdf", zzTable2(DEFAULT_IS_INTER_CDF, 4, 3))
	vs.Ensures("CompModeCdf", zzTable2(DEFAULT_COMP_MODE_CDF, 5, 3))
	vs.Ensures("SkipModeCdf", zzTable2(DEFAULT_SKIP_MODE_CDF, 3, 3))
	vs.Ensures("SkipCdf", zzTable2(DEFAULT_SKIP_CDF, 3, 3))
	vs.Ensures("CompRefCdf", zzTable3(DEFAULT_COMP_REF_CDF, 3, 3, 3))
	vs.Ensures("CompBwdRefCdf", zzTable3(DEFAULT_COMP_BWD_REF_CDF, 3, 2, 3))
	vs.Ensures("SingleRefCdf", zzTable3(DEFAULT_SINGLE_REF_CDF, 3, 6, 3))
	vs.Ensures("MvJointCdf", zzTable1(DEFAULT_MV_JOINT_CDF, 5))
	vs.Ensures("MvClassCdf", zzTable2(DEFAULT_MV_CLASS_CDF, 2, 12))
	vs.Ensures("MvClass0BitCdf", zzTable1(DEFAULT_MV_CLASS0_BIT_CDF, 3))
	vs.Ensures("MvFrCdf", zzTable2(DEFAULT_MV_FR_CDF, 2, 5))
	vs.Ensures("MvClass0FrCdf", zzTable3(DEFAULT_MV_CLASS0_FR_CDF, 2, 2, 5))
	vs.Ensures("MvClass0HpCdf", zzTable1(DEFAULT_MV_CLASS0_HP_CDF, 3))
	vs.Ensures("MvSignCdf", zzTable1(DEFAULT_MV_SIGN_CDF, 3))
	vs.Ensures("MvBitCdf", zzTable2(DEFAULT_MV_BIT_CDF, 10, 3))
	vs.Ensures("MvHpCdf", zzTable1(DEFAULT_MV_HP_CDF, 3))
	vs.Ensures("PaletteYModeCdf", zzTable3(DEFAULT_PALETTE_Y_MODE_CDF, 7, 3, 3))
	vs.Ensures("PaletteUVModeCdf", zzTable2(DEFAULT_PALETTE_UV_MODE_CDF, 2, 3))
	vs.Ensures("PaletteUVSizeCdf", zzTable2(DEFAULT_PALETTE_UV_SIZE_CDF, 7, 8))
	vs.Ensures("PaletteSize2YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF, 5, 3))
	vs.Ensures("PaletteSize3YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF, 5, 4))
	vs.Ensures("PaletteSize4YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF, 5, 5))
	vs.Ensures("PaletteSize5YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF, 5, 6))
	vs.Ensures("PaletteSize6YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF, 5, 7))
	vs.Ensures("PaletteSize7YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF, 5, 8))
	vs.Ensures("PaletteSize8YColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF, 5, 9))
	vs.Ensures("PaletteSize2UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF, 5, 3))
	vs.Ensures("PaletteSize3UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF, 5, 4))
	vs.Ensures("PaletteSize4UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF, 5, 5))
	vs.Ensures("PaletteSize5UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF, 5, 6))
	vs.Ensures("PaletteSize6UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF, 5, 7))
	vs.Ensures("PaletteSize7UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF, 5, 8))
	vs.Ensures("PaletteSize8UVColorCdf", zzTable2(DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF, 5, 9))
	vs.Ensures("DeltaQCdf", zzTable1(DEFAULT_DELTA_Q_CDF, 5))
	vs.Ensures("DeltaLFCdf", zzTable1(DEFAULT_DELTA_LF_CDF, 5))
	vs.Ensures("DeltaLFMultiCdf", zzTable1(DEFAULT_DELTA_LF_CDF, 5))
	vs.Ensures("IntraTxTypeSet1Cdf", zzTable3(DEFAULT_INTRA_TX_TYPE_SET1_CDF, 2, 13, 8))
	vs.Ensures("IntraTxTypeSet2Cdf", zzTable3(DEFAULT_INTRA_TX_TYPE_SET2_CDF, 3, 13, 6))
	vs.Ensures("InterTxTypeSet1Cdf", zzTable2(DEFAULT_INTER_TX_TYPE_SET1_CDF, 2, 17))
	vs.Ensures("InterTxTypeSet2Cdf", zzTable1(DEFAULT_INTER_TX_TYPE_SET2_CDF, 13))
	vs.Ensures("InterTxTypeSet3Cdf", zzTable2(DEFAULT_INTER_TX_TYPE_SET3_CDF, 4, 3))
	vs.Ensures("UseObmcCdf", zzTable2(DEFAULT_USE_OBMC_CDF, 22, 3))
	vs.Ensures("InterIntraCdf", zzTable2(DEFAULT_INTER_INTRA_CDF, 3, 3))
	vs.Ensures("CompRefTypeCdf", zzTable2(DEFAULT_COMP_REF_TYPE_CDF, 5, 3))
	vs.Ensures("CflSignCdf", zzTable1(DEFAULT_CFL_SIGN_CDF, 9))
	vs.Ensures("UniCompRefCdf", zzTable3(DEFAULT_UNI_COMP_REF_CDF, 3, 3, 3))
	vs.Ensures("WedgeInterIntraCdf", zzTable2(DEFAULT_WEDGE_INTER_INTRA_CDF, 22, 3))
	vs.Ensures("CompGroupIdxCdf", zzTable2(DEFAULT_COMP_GROUP_IDX_CDF, 6, 3))
	vs.Ensures("CompoundIdxCdf", zzTable2(DEFAULT_COMPOUND_IDX_CDF, 6, 3))
	vs.Ensures("CompoundTypeCdf", zzTable2(DEFAULT_COMPOUND_TYPE_CDF, 22, 3))
	vs.Ensures("InterIntraModeCdf", zzTable2(DEFAULT_INTER_INTRA_MODE_CDF, 3, 5))
	vs.Ensures("WedgeIndexCdf", zzTable2(DEFAULT_WEDGE_INDEX_CDF, 22, 17))
	vs.Ensures("CflAlphaCdf", zzTable2(DEFAULT_CFL_ALPHA_CDF, 6, 17))
	vs.Ensures("UseWienerCdf", zzTable1(DEFAULT_USE_WIENER_CDF, 3))
	vs.Ensures("UseSgrprojCdf", zzTable1(DEFAULT_USE_SGRPROJ_CDF, 3))
	vs.Ensures("RestorationTypeCdf", zzTable1(DEFAULT_RESTORATION_TYPE_CDF, 4))
	vs.Ensures("TxbSkipCdf", zzTable4(DEFAULT_TXB_SKIP_CDF, 4, 5, 13, 3))
	vs.Ensures("EobPt16Cdf", zzTable4(DEFAULT_EOB_PT_16_CDF, 4, 2, 2, 6))
	vs.Ensures("EobPt32Cdf", zzTable4(DEFAULT_EOB_PT_32_CDF, 4, 2, 2, 7))
	vs.Ensures("EobPt64Cdf", zzTable4(DEFAULT_EOB_PT_64_CDF, 4, 2, 2, 8))
	vs.Ensures("EobPt128Cdf", zzTable4(DEFAULT_EOB_PT_128_CDF, 4, 2, 2, 9))
	vs.Ensures("EobPt256Cdf", zzTable4(DEFAULT_EOB_PT_256_CDF, 4, 2, 2, 10))
	vs.Ensures("EobPt512Cdf", zzTable3(DEFAULT_EOB_PT_512_CDF, 4, 2, 11))
	vs.Ensures("EobPt1024Cdf", zzTable3(DEFAULT_EOB_PT_1024_CDF, 4, 2, 12))
	vs.Ensures("EobExtraCdf", zzTable5(DEFAULT_EOB_EXTRA_CDF, 4, 5, 2, 9, 3))
	vs.Ensures("DcSignCdf", zzTable4(DEFAULT_DC_SIGN_CDF, 4, 2, 3, 3))
	vs.Ensures("CoeffBaseEobCdf", zzTable5(DEFAULT_COEFF_BASE_EOB_CDF, 4, 5, 2, 4, 4))
	vs.Ensures("CoeffBaseCdf", zzTable5(DEFAULT_COEFF_BASE_CDF, 4, 5, 2, 42, 5))
	vs.Ensures("CoeffBrCdf", zzTable5(DEFAULT_COEFF_BR_CDF, 4, 5, 2, 21, 5))
}

// @ contract: initNonCoeffCdfs
// @ property: C19
func zzInitNonCoeffCdfs(s *state.State) {
	vs.Modifies(&s.YModeCdf,
		&s.IntraFrameYModeCdf,
		&s.UVModeCflNotAllowedCdf,
		&s.UVModeCflAllowedCdf,
		&s.AngleDeltaCdf,
		&s.IntrabcCdf,
		&s.PartitionW8Cdf,
		&s.PartitionW16Cdf,
		&s.PartitionW32Cdf,
		&s.PartitionW64Cdf,
		&s.PartitionW128Cdf,
		&s.SegmentIdCdf,
		&s.SegmentIdPredictedCdf,
		&s.Tx8x8Cdf,
		&s.Tx16x16Cdf,
		&s.Tx32x32Cdf,
		&s.Tx64x64Cdf,
		&s.TxfmSplitCdf,
		&s.FilterIntraModeCdf,
		&s.FilterIntraCdf,
		&s.InterpFilterCdf,
		&s.MotionModeCdf,
		&s.NewMvCdf,
		&s.ZeroMvCdf,
		&s.RefMvCdf,
		&s.CompoundModeCdf,
		&s.DrlModeCdf,
		&s.IsInterCdf,
		&s.CompModeCdf,
		&s.SkipModeCdf,
		&s.SkipCdf,
		&s.CompRefCdf,
		&s.CompBwdRefCdf,
		&s.SingleRefCdf,
		&s.MvJointCdf,
		&s.MvClassCdf,
		&s.MvClass0BitCdf,
		&s.MvFrCdf,
		&s.MvClass0FrCdf,
		&s.MvClass0HpCdf,
		&s.MvSignCdf,
		&s.MvBitCdf,
		&s.MvHpCdf,
		&s.PaletteYModeCdf,
		&s.PaletteUVModeCdf,
		&s.PaletteUVSizeCdf,
		&s.PaletteSize2YColorCdf,
		&s.PaletteSize3YColorCdf,
		&s.PaletteSize4YColorCdf,
		&s.PaletteSize5YColorCdf,
		&s.PaletteSize6YColorCdf,
		&s.PaletteSize7YColorCdf,
		&s.PaletteSize8YColorCdf,
		&s.PaletteSize2UVColorCdf,
		&s.PaletteSize3UVColorCdf,
		&s.PaletteSize4UVColorCdf,
		&s.PaletteSize5UVColorCdf,
		&s.PaletteSize6UVColorCdf,
		&s.PaletteSize7UVColorCdf,
		&s.PaletteSize8UVColorCdf,
		&s.DeltaQCdf,
		&s.DeltaLFCdf,
		&s.DeltaLFMultiCdf,
		&s.IntraTxTypeSet1Cdf,
		&s.IntraTxTypeSet2Cdf,
		&s.InterTxTypeSet1Cdf,
		&s.InterTxTypeSet2Cdf,
		&s.InterTxTypeSet3Cdf,
		&s.UseObmcCdf,
		&s.InterIntraCdf,
		&s.CompRefTypeCdf,
		&s.CflSignCdf,
		&s.UniCompRefCdf,
		&s.WedgeInterIntraCdf,
		&s.CompGroupIdxCdf,
		&s.CompoundIdxCdf,
		&s.CompoundTypeCdf,
		&s.InterIntraModeCdf,
		&s.WedgeIndexCdf,
		&s.CflAlphaCdf,
		&s.UseWienerCdf,
		&s.UseSgrprojCdf,
		&s.RestorationTypeCdf)
	initNonCoeffCdfs(s)
	vs.Ensures("YModeCdf", vs.Eq(s.YModeCdf, DEFAULT_Y_MODE_CDF))
	vs.Ensures("IntraFrameYModeCdf", vs.Eq(s.IntraFrameYModeCdf, DEFAULT_INTRA_FRAME_Y_MODE_CDF))
	vs.Ensures("UVModeCflNotAllowedCdf", vs.Eq(s.UVModeCflNotAllowedCdf, DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF))
	vs.Ensures("UVModeCflAllowedCdf", vs.Eq(s.UVModeCflAllowedCdf, DEFAULT_UV_MODE_CFL_ALLOWED_CDF))
	vs.Ensures("AngleDeltaCdf", vs.Eq(s.AngleDeltaCdf, DEFAULT_ANGLE_DELTA_CDF))
	vs.Ensures("IntrabcCdf", vs.Eq(s.IntrabcCdf, DEFAULT_INTRABC_CDF))
	vs.Ensures("PartitionW8Cdf", vs.Eq(s.PartitionW8Cdf, DEFAULT_PARTITION_W8_CDF))
	vs.Ensures("PartitionW16Cdf", vs.Eq(s.PartitionW16Cdf, DEFAULT_PARTITION_W16_CDF))
	vs.Ensures("PartitionW32Cdf", vs.Eq(s.PartitionW32Cdf, DEFAULT_PARTITION_W32_CDF))
	vs.Ensures("PartitionW64Cdf", vs.Eq(s.PartitionW64Cdf, DEFAULT_PARTITION_W64_CDF))
	vs.Ensures("PartitionW128Cdf", vs.Eq(s.PartitionW128Cdf, DEFAULT_PARTITION_W128_CDF))
	vs.Ensures("SegmentIdCdf", vs.Eq(s.SegmentIdCdf, DEFAULT_SEGMENT_ID_CDF))
	vs.Ensures("SegmentIdPredictedCdf", vs.Eq(s.SegmentIdPredictedCdf, DEFAULT_SEGMENT_ID_PREDICTED_CDF))
	vs.Ensures("Tx8x8Cdf", vs.Eq(s.Tx8x8Cdf, DEFAULT_TX_8X8_CDF))
	vs.Ensures("Tx16x16Cdf", vs.Eq(s.Tx16x16Cdf, DEFAULT_TX_16X16_CDF))
	vs.Ensures("Tx32x32Cdf", vs.Eq(s.Tx32x32Cdf, DEFAULT_TX_32X32_CDF))
	vs.Ensures("Tx64x64Cdf", vs.Eq(s.Tx64x64Cdf, DEFAULT_TX_64X64_CDF))
	vs.Ensures("TxfmSplitCdf", vs.Eq(s.TxfmSplitCdf, DEFAULT_TXFM_SPLIT_CDF))
	vs.Ensures("FilterIntraModeCdf", vs.Eq(s.FilterIntraModeCdf, DEFAULT_FILTER_INTRA_MODE_CDF))
	vs.Ensures("FilterIntraCdf", vs.Eq(s.FilterIntraCdf, DEFAULT_FILTER_INTRA_CDF))
	vs.Ensures("InterpFilterCdf", vs.Eq(s.InterpFilterCdf, DEFAULT_INTERP_FILTER_CDF))
	vs.Ensures("MotionModeCdf", vs.Eq(s.MotionModeCdf, DEFAULT_MOTION_MODE_CDF))
	vs.Ensures("NewMvCdf", vs.Eq(s.NewMvCdf, DEFAULT_NEW_MV_CDF))
	vs.Ensures("ZeroMvCdf", vs.Eq(s.ZeroMvCdf, DFEAULT_ZERO_MV_CDF))
	vs.Ensures("RefMvCdf", vs.Eq(s.RefMvCdf, DEFAULT_REF_MV_CDF))
	vs.Ensures("CompoundModeCdf", vs.Eq(s.CompoundModeCdf, DEFAULT_COMPOUND_MODE_CDF))
	vs.Ensures("DrlModeCdf", vs.Eq(s.DrlModeCdf, DEFAULT_DRL_MODE_CDF))
	vs.Ensures("IsInterCdf", vs.Eq(s.IsInterCdf, DEFAULT_IS_INTER_CDF))
	vs.Ensures("CompModeCdf", vs.Eq(s.CompModeCdf, DEFAULT_COMP_MODE_CDF))
	vs.Ensures("SkipModeCdf", vs.Eq(s.SkipModeCdf, DEFAULT_SKIP_MODE_CDF))
	vs.Ensures("SkipCdf", vs.Eq(s.SkipCdf, DEFAULT_SKIP_CDF))
	vs.Ensures("CompRefCdf", vs.Eq(s.CompRefCdf, DEFAULT_COMP_REF_CDF))
	vs.Ensures("CompBwdRefCdf", vs.Eq(s.CompBwdRefCdf, DEFAULT_COMP_BWD_REF_CDF))
	vs.Ensures("SingleRefCdf", vs.Eq(s.SingleRefCdf, DEFAULT_SINGLE_REF_CDF))
	vs.Ensures("MvJointCdf[0]", vs.Eq(s.MvJointCdf[0], DEFAULT_MV_JOINT_CDF))
	vs.Ensures("MvJointCdf[1]", vs.Eq(s.MvJointCdf[1], DEFAULT_MV_JOINT_CDF))
	vs.Ensures("MvClassCdf[0]", vs.Eq(s.MvClassCdf[0], DEFAULT_MV_CLASS_CDF))
	vs.Ensures("MvClassCdf[1]", vs.Eq(s.MvClassCdf[1], DEFAULT_MV_CLASS_CDF))
	vs.Ensures("MvClass0BitCdf[0][0]", vs.Eq(s.MvClass0BitCdf[0][0], DEFAULT_MV_CLASS0_BIT_CDF))
	vs.Ensures("MvClass0BitCdf[0][1]", vs.Eq(s.MvClass0BitCdf[0][1], DEFAULT_MV_CLASS0_BIT_CDF))
	vs.Ensures("MvClass0BitCdf[1][0]", vs.Eq(s.MvClass0BitCdf[1][0], DEFAULT_MV_CLASS0_BIT_CDF))
	vs.Ensures("MvClass0BitCdf[1][1]", vs.Eq(s.MvClass0BitCdf[1][1], DEFAULT_MV_CLASS0_BIT_CDF))
	vs.Ensures("MvFrCdf[0]", vs.Eq(s.MvFrCdf[0], DEFAULT_MV_FR_CDF))
	vs.Ensures("MvFrCdf[1]", vs.Eq(s.MvFrCdf[1], DEFAULT_MV_FR_CDF))
	vs.Ensures("MvClass0FrCdf[0]", vs.Eq(s.MvClass0FrCdf[0], DEFAULT_MV_CLASS0_FR_CDF))
	vs.Ensures("MvClass0FrCdf[1]", vs.Eq(s.MvClass0FrCdf[1], DEFAULT_MV_CLASS0_FR_CDF))
	vs.Ensures("MvClass0HpCdf[0][0]", vs.Eq(s.MvClass0HpCdf[0][0], DEFAULT_MV_CLASS0_HP_CDF))
	vs.Ensures("MvClass0HpCdf[0][1]", vs.Eq(s.MvClass0HpCdf[0][1], DEFAULT_MV_CLASS0_HP_CDF))
	vs.Ensures("MvClass0HpCdf[1][0]", vs.Eq(s.MvClass0HpCdf[1][0], DEFAULT_MV_CLASS0_HP_CDF))
	vs.Ensures("MvClass0HpCdf[1][1]", vs.Eq(s.MvClass0HpCdf[1][1], DEFAULT_MV_CLASS0_HP_CDF))
	vs.Ensures("MvSignCdf[0][0]", vs.Eq(s.MvSignCdf[0][0], DEFAULT_MV_SIGN_CDF))
	vs.Ensures("MvSignCdf[0][1]", vs.Eq(s.MvSignCdf[0][1], DEFAULT_MV_SIGN_CDF))
	vs.Ensures("MvSignCdf[1][0]", vs.Eq(s.MvSignCdf[1][0], DEFAULT_MV_SIGN_CDF))
	vs.Ensures("MvSignCdf[1][1]", vs.Eq(s.MvSignCdf[1][1], DEFAULT_MV_SIGN_CDF))
	vs.Ensures("MvBitCdf[0][0]", vs.Eq(s.MvBitCdf[0][0], DEFAULT_MV_BIT_CDF))
	vs.Ensures("MvBitCdf[0][1]", vs.Eq(s.MvBitCdf[0][1], DEFAULT_MV_BIT_CDF))
	vs.Ensures("MvBitCdf[1][0]", vs.Eq(s.MvBitCdf[1][0], DEFAULT_MV_BIT_CDF))
	vs.Ensures("MvBitCdf[1][1]", vs.Eq(s.MvBitCdf[1][1], DEFAULT_MV_BIT_CDF))
	vs.Ensures("MvHpCdf[0][0]", vs.Eq(s.MvHpCdf[0][0], DEFAULT_MV_HP_CDF))
	vs.Ensures("MvHpCdf[0][1]", vs.Eq(s.MvHpCdf[0][1], DEFAULT_MV_HP_CDF))
	vs.Ensures("MvHpCdf[1][0]", vs.Eq(s.MvHpCdf[1][0], DEFAULT_MV_HP_CDF))
	vs.Ensures("MvHpCdf[1][1]", vs.Eq(s.MvHpCdf[1][1], DEFAULT_MV_HP_CDF))
	vs.Ensures("PaletteYModeCdf", vs.Eq(s.PaletteYModeCdf, DEFAULT_PALETTE_Y_MODE_CDF))
	vs.Ensures("PaletteUVModeCdf", vs.Eq(s.PaletteUVModeCdf, DEFAULT_PALETTE_UV_MODE_CDF))
	vs.Ensures("PaletteUVSizeCdf", vs.Eq(s.PaletteUVSizeCdf, DEFAULT_PALETTE_UV_SIZE_CDF))
	vs.Ensures("PaletteSize2YColorCdf", vs.Eq(s.PaletteSize2YColorCdf, DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF))
	vs.Ensures("PaletteSize3YColorCdf", vs.Eq(s.PaletteSize3YColorCdf, DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF))
	vs.Ensures("PaletteSize4YColorCdf", vs.Eq(s.PaletteSize4YColorCdf, DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF))
	vs.Ensures("PaletteSize5YColorCdf", vs.Eq(s.PaletteSize5YColorCdf, DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF))
	vs.Ensures("PaletteSize6YColorCdf", vs.Eq(s.PaletteSize6YColorCdf, DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF))
	vs.Ensures("PaletteSize7YColorCdf", vs.Eq(s.PaletteSize7YColorCdf, DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF))
	vs.Ensures("PaletteSize8YColorCdf", vs.Eq(s.PaletteSize8YColorCdf, DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF))
	vs.Ensures("PaletteSize2UVColorCdf", vs.Eq(s.PaletteSize2UVColorCdf, DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF))
	vs.Ensures("PaletteSize3UVColorCdf", vs.Eq(s.PaletteSize3UVColorCdf, DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF))
	vs.Ensures("PaletteSize4UVColorCdf", vs.Eq(s.PaletteSize4UVColorCdf, DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF))
	vs.Ensures("PaletteSize5UVColorCdf", vs.Eq(s.PaletteSize5UVColorCdf, DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF))
	vs.Ensures("PaletteSize6UVColorCdf", vs.Eq(s.PaletteSize6UVColorCdf, DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF))
	vs.Ensures("PaletteSize7UVColorCdf", vs.Eq(s.PaletteSize7UVColorCdf, DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF))
	vs.Ensures("PaletteSize8UVColorCdf", vs.Eq(s.PaletteSize8UVColorCdf, DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF))
	vs.Ensures("DeltaQCdf", vs.Eq(s.DeltaQCdf, DEFAULT_DELTA_Q_CDF))
	vs.Ensures("DeltaLFCdf", vs.Eq(s.DeltaLFCdf, DEFAULT_DELTA_LF_CDF))
	vs.Ensures("DeltaLFMultiCdf[0]", vs.Eq(s.DeltaLFMultiCdf[0], DEFAULT_DELTA_LF_CDF))
	vs.Ensures("DeltaLFMultiCdf[1]", vs.Eq(s.DeltaLFMultiCdf[1], DEFAULT_DELTA_LF_CDF))
	vs.Ensures("DeltaLFMultiCdf[2]", vs.Eq(s.DeltaLFMultiCdf[2], DEFAULT_DELTA_LF_CDF))
	vs.Ensures("DeltaLFMultiCdf[3]", vs.Eq(s.DeltaLFMultiCdf[3], DEFAULT_DELTA_LF_CDF))
	vs.Ensures("IntraTxTypeSet1Cdf", vs.Eq(s.IntraTxTypeSet1Cdf, DEFAULT_INTRA_TX_TYPE_SET1_CDF))
	vs.Ensures("IntraTxTypeSet2Cdf", vs.Eq(s.IntraTxTypeSet2Cdf, DEFAULT_INTRA_TX_TYPE_SET2_CDF))
	vs.Ensures("InterTxTypeSet1Cdf", vs.Eq(s.InterTxTypeSet1Cdf, DEFAULT_INTER_TX_TYPE_SET1_CDF))
	vs.Ensures("InterTxTypeSet2Cdf", vs.Eq(s.InterTxTypeSet2Cdf, DEFAULT_INTER_TX_TYPE_SET2_CDF))
	vs.Ensures("InterTxTypeSet3Cdf", vs.Eq(s.InterTxTypeSet3Cdf, DEFAULT_INTER_TX_TYPE_SET3_CDF))
	vs.Ensures("UseObmcCdf", vs.Eq(s.UseObmcCdf, DEFAULT_USE_OBMC_CDF))
	vs.Ensures("InterIntraCdf", vs.Eq(s.InterIntraCdf, DEFAULT_INTER_INTRA_CDF))
	vs.Ensures("CompRefTypeCdf", vs.Eq(s.CompRefTypeCdf, DEFAULT_COMP_REF_TYPE_CDF))
	vs.Ensures("CflSignCdf", vs.Eq(s.CflSignCdf, DEFAULT_CFL_SIGN_CDF))
	vs.Ensures("UniCompRefCdf", vs.Eq(s.UniCompRefCdf, DEFAULT_UNI_COMP_REF_CDF))
	vs.Ensures("WedgeInterIntraCdf", vs.Eq(s.WedgeInterIntraCdf, DEFAULT_WEDGE_INTER_INTRA_CDF))
	vs.Ensures("CompGroupIdxCdf", vs.Eq(s.CompGroupIdxCdf, DEFAULT_COMP_GROUP_IDX_CDF))
	vs.Ensures("CompoundIdxCdf", vs.Eq(s.CompoundIdxCdf, DEFAULT_COMPOUND_IDX_CDF))
	vs.Ensures("CompoundTypeCdf", vs.Eq(s.CompoundTypeCdf, DEFAULT_COMPOUND_TYPE_CDF))
	vs.Ensures("InterIntraModeCdf", vs.Eq(s.InterIntraModeCdf, DEFAULT_INTER_INTRA_MODE_CDF))
	vs.Ensures("WedgeIndexCdf", vs.Eq(s.WedgeIndexCdf, DEFAULT_WEDGE_INDEX_CDF))
	vs.Ensures("CflAlphaCdf", vs.Eq(s.CflAlphaCdf, DEFAULT_CFL_ALPHA_CDF))
	vs.Ensures("UseWienerCdf", vs.Eq(s.UseWienerCdf, DEFAULT_USE_WIENER_CDF))
	vs.Ensures("UseSgrprojCdf", vs.Eq(s.UseSgrprojCdf, DEFAULT_USE_SGRPROJ_CDF))
	vs.Ensures("RestorationTypeCdf", vs.Eq(s.RestorationTypeCdf, DEFAULT_RESTORATION_TYPE_CDF))
}

// @ contract: initCoeffCdfs
// @ property: C19
func zzInitCoeffCdfs(s *state.State, uh UncompressedHeader) {
	vs.Requires(0 <= uh.BaseQIdx && uh.BaseQIdx <= 255)
	vs.Modifies(&s.TxbSkipCdf,
		&s.EobPt16Cdf,
		&s.EobPt32Cdf,
		&s.EobPt64Cdf,
		&s.EobPt128Cdf,
		&s.EobPt256Cdf,
		&s.EobPt512Cdf,
		&s.EobPt1024Cdf,
		&s.EobExtraCdf,
		&s.DcSignCdf,
		&s.CoeffBaseEobCdf,
		&s.CoeffBaseCdf,
		&s.CoeffBrCdf)
	q := 0
	for _, bound := range []int{20, 60, 120} {
		if uh.BaseQIdx > bound {
			q++
		}
	}
	vs.Split(q, 0, 3)
	initCoeffCdfs(s, uh)
	vs.Ensures("TxbSkipCdf", vs.Eq(s.TxbSkipCdf, DEFAULT_TXB_SKIP_CDF[q]))
	vs.Ensures("EobPt16Cdf", vs.Eq(s.EobPt16Cdf, DEFAULT_EOB_PT_16_CDF[q]))
	vs.Ensures("EobPt32Cdf", vs.Eq(s.EobPt32Cdf, DEFAULT_EOB_PT_32_CDF[q]))
	vs.Ensures("EobPt64Cdf", vs.Eq(s.EobPt64Cdf, DEFAULT_EOB_PT_64_CDF[q]))
	vs.Ensures("EobPt128Cdf", vs.Eq(s.EobPt128Cdf, DEFAULT_EOB_PT_128_CDF[q]))
	vs.Ensures("EobPt256Cdf", vs.Eq(s.EobPt256Cdf, DEFAULT_EOB_PT_256_CDF[q]))
	vs.Ensures("EobPt512Cdf", vs.Eq(s.EobPt512Cdf, DEFAULT_EOB_PT_512_CDF[q]))
	vs.Ensures("EobPt1024Cdf", vs.Eq(s.EobPt1024Cdf, DEFAULT_EOB_PT_1024_CDF[q]))
	vs.Ensures("EobExtraCdf", vs.Eq(s.EobExtraCdf, DEFAULT_EOB_EXTRA_CDF[q]))
	vs.Ensures("DcSignCdf", vs.Eq(s.DcSignCdf, DEFAULT_DC_SIGN_CDF[q]))
	vs.Ensures("CoeffBaseEobCdf", vs.Eq(s.CoeffBaseEobCdf, DEFAULT_COEFF_BASE_EOB_CDF[q]))
	vs.Ensures("CoeffBaseCdf", vs.Eq(s.CoeffBaseCdf, DEFAULT_COEFF_BASE_CDF[q]))
	vs.Ensures("CoeffBrCdf", vs.Eq(s.CoeffBrCdf, DEFAULT_COEFF_BR_CDF[q]))
}

// @ contract: SaveCdfs
// @ property: C19
func zzSaveCdfs(ctx int, s *state.State) {
	vs.Requires(0 <= ctx && ctx <= 7)
	vs.Split(ctx, 0, 7)
	frame := state.ZzFrame(s)
	vs.Requires(state.ZzShape(&frame))
	vs.Modifies(&s.Memory[ctx])
	SaveCdfs(ctx, s)
	vs.Ensures("every table is kept", vs.Eq(state.ZzKept(&s.Memory[ctx]), frame))
}

// @ contract: LoadCdfs
// @ property: C19
func zzLoadCdfs(ctx int, s *state.State) {
	vs.Requires(0 <= ctx && ctx <= 7)
	vs.Split(ctx, 0, 7)
	vs.Requires(state.ZzShape(&s.Memory[ctx]))
	vs.Modifies(&s.YModeCdf,
		&s.IntraFrameYModeCdf,
		&s.UVModeCflNotAllowedCdf,
		&s.UVModeCflAllowedCdf,
		&s.AngleDeltaCdf,
		&s.IntrabcCdf,
		&s.PartitionW8Cdf,
		&s.PartitionW16Cdf,
		&s.PartitionW32Cdf,
		&s.PartitionW64Cdf,
		&s.PartitionW128Cdf,
		&s.SegmentIdCdf,
		&s.SegmentIdPredictedCdf,
		&s.Tx8x8Cdf,
		&s.Tx16x16Cdf,
		&s.Tx32x32Cdf,
		&s.Tx64x64Cdf,
		&s.TxfmSplitCdf,
		&s.FilterIntraModeCdf,
		&s.FilterIntraCdf,
		&s.InterpFilterCdf,
		&s.MotionModeCdf,
		&s.NewMvCdf,
		&s.ZeroMvCdf,
		&s.RefMvCdf,
		&s.CompoundModeCdf,
		&s.DrlModeCdf,
		&s.IsInterCdf,
		&s.CompModeCdf,
		&s.SkipModeCdf,
		&s.SkipCdf,
		&s.CompRefCdf,
		&s.CompBwdRefCdf,
		&s.SingleRefCdf,
		&s.MvJointCdf,
		&s.MvClassCdf,
		&s.MvClass0BitCdf,
		&s.MvFrCdf,
		&s.MvClass0FrCdf,
		&s.MvClass0HpCdf,
		&s.MvSignCdf,
		&s.MvBitCdf,
		&s.MvHpCdf,
		&s.PaletteYModeCdf,
		&s.PaletteUVModeCdf,
		&s.PaletteUVSizeCdf,
		&s.PaletteSize2YColorCdf,
		&s.PaletteSize3YColorCdf,
		&s.PaletteSize4YColorCdf,
		&s.PaletteSize5YColorCdf,
		&s.PaletteSize6YColorCdf,
		&s.PaletteSize7YColorCdf,
		&s.PaletteSize8YColorCdf,
		&s.PaletteSize2UVColorCdf,
		&s.PaletteSize3UVColorCdf,
		&s.PaletteSize4UVColorCdf,
		&s.PaletteSize5UVColorCdf,
		&s.PaletteSize6UVColorCdf,
		&s.PaletteSize7UVColorCdf,
		&s.PaletteSize8UVColorCdf,
		&s.DeltaQCdf,
		&s.DeltaLFCdf,
		&s.DeltaLFMultiCdf,
		&s.IntraTxTypeSet1Cdf,
		&s.IntraTxTypeSet2Cdf,
		&s.InterTxTypeSet1Cdf,
		&s.InterTxTypeSet2Cdf,
		&s.InterTxTypeSet3Cdf,
		&s.UseObmcCdf,
		&s.InterIntraCdf,
		&s.CompRefTypeCdf,
		&s.CflSignCdf,
		&s.UniCompRefCdf,
		&s.WedgeInterIntraCdf,
		&s.CompGroupIdxCdf,
		&s.CompoundIdxCdf,
		&s.CompoundTypeCdf,
		&s.InterIntraModeCdf,
		&s.WedgeIndexCdf,
		&s.CflAlphaCdf,
		&s.UseWienerCdf,
		&s.UseSgrprojCdf,
		&s.RestorationTypeCdf,
		&s.TxbSkipCdf,
		&s.EobPt16Cdf,
		&s.EobPt32Cdf,
		&s.EobPt64Cdf,
		&s.EobPt128Cdf,
		&s.EobPt256Cdf,
		&s.EobPt512Cdf,
		&s.EobPt1024Cdf,
		&s.EobExtraCdf,
		&s.DcSignCdf,
		&s.CoeffBaseEobCdf,
		&s.CoeffBaseCdf,
		&s.CoeffBrCdf)
	LoadCdfs(ctx, s)
	vs.Ensures("every table comes back", vs.Eq(state.ZzFrame(s), state.ZzKept(&s.Memory[ctx])))
}
