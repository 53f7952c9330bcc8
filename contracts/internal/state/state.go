package state

// The probability tables as one value. Written by gen/cdf_contracts.py.

import (
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// ZzCdf: the entries of a table of n symbols are a cumulative distribution and a counter.
func ZzCdf(cdf []int, n int) bool {
	ok := len(cdf) == n+1 && cdf[0] >= 1 && cdf[n-1] == 32768 && 0 <= cdf[n] && cdf[n] <= 32
	for i := 0; i+1 < n; i++ {
		ok = ok && cdf[i] <= cdf[i+1]
	}
	return ok
}

// ZzFrame: the tables of the frame.
func ZzFrame(s *State) MemoryArea {
	return MemoryArea{
		YModeCdf:               s.YModeCdf,
		IntraFrameYModeCdf:     s.IntraFrameYModeCdf,
		UVModeCflNotAllowedCdf: s.UVModeCflNotAllowedCdf,
		UVModeCflAllowedCdf:    s.UVModeCflAllowedCdf,
		AngleDeltaCdf:          s.AngleDeltaCdf,
		IntrabcCdf:             s.IntrabcCdf,
		PartitionW8Cdf:         s.PartitionW8Cdf,
		PartitionW16Cdf:        s.PartitionW16Cdf,
		PartitionW32Cdf:        s.PartitionW32Cdf,
		PartitionW64Cdf:        s.PartitionW64Cdf,
		PartitionW128Cdf:       s.PartitionW128Cdf,
		SegmentIdCdf:           s.SegmentIdCdf,
		SegmentIdPredictedCdf:  s.SegmentIdPredictedCdf,
		Tx8x8Cdf:               s.Tx8x8Cdf,
		Tx16x16Cdf:             s.Tx16x16Cdf,
		Tx32x32Cdf:             s.Tx32x32Cdf,
		Tx64x64Cdf:             s.Tx64x64Cdf,
		TxfmSplitCdf:           s.TxfmSplitCdf,
		FilterIntraModeCdf:     s.FilterIntraModeCdf,
		FilterIntraCdf:         s.FilterIntraCdf,
		InterpFilterCdf:        s.InterpFilterCdf,
		MotionModeCdf:          s.MotionModeCdf,
		NewMvCdf:               s.NewMvCdf,
		ZeroMvCdf:              s.ZeroMvCdf,
		RefMvCdf:               s.RefMvCdf,
		CompoundModeCdf:        s.CompoundModeCdf,
		DrlModeCdf:             s.DrlModeCdf,
		IsInterCdf:             s.IsInterCdf,
		CompModeCdf:            s.CompModeCdf,
		SkipModeCdf:            s.SkipModeCdf,
		SkipCdf:                s.SkipCdf,
		CompRefCdf:             s.CompRefCdf,
		CompBwdRefCdf:          s.CompBwdRefCdf,
		SingleRefCdf:           s.SingleRefCdf,
		MvJointCdf:             s.MvJointCdf,
		MvClassCdf:             s.MvClassCdf,
		MvClass0BitCdf:         s.MvClass0BitCdf,
		MvFrCdf:                s.MvFrCdf,
		MvClass0FrCdf:          s.MvClass0FrCdf,
		MvClass0HpCdf:          s.MvClass0HpCdf,
		MvSignCdf:              s.MvSignCdf,
		MvBitCdf:               s.MvBitCdf,
		MvHpCdf:                s.MvHpCdf,
		PaletteYModeCdf:        s.PaletteYModeCdf,
		PaletteUVModeCdf:       s.PaletteUVModeCdf,
		PaletteUVSizeCdf:       s.PaletteUVSizeCdf,
		PaletteSize2YColorCdf:  s.PaletteSize2YColorCdf,
		PaletteSize3YColorCdf:  s.PaletteSize3YColorCdf,
		PaletteSize4YColorCdf:  s.PaletteSize4YColorCdf,
		PaletteSize5YColorCdf:  s.PaletteSize5YColorCdf,
		PaletteSize6YColorCdf:  s.PaletteSize6YColorCdf,
		PaletteSize7YColorCdf:  s.PaletteSize7YColorCdf,
		PaletteSize8YColorCdf:  s.PaletteSize8YColorCdf,
		PaletteSize2UVColorCdf: s.PaletteSize2UVColorCdf,
		PaletteSize3UVColorCdf: s.PaletteSize3UVColorCdf,
		PaletteSize4UVColorCdf: s.PaletteSize4UVColorCdf,
		PaletteSize5UVColorCdf: s.PaletteSize5UVColorCdf,
		PaletteSize6UVColorCdf: s.PaletteSize6UVColorCdf,
		PaletteSize7UVColorCdf: s.PaletteSize7UVColorCdf,
		PaletteSize8UVColorCdf: s.PaletteSize8UVColorCdf,
		DeltaQCdf:              s.DeltaQCdf,
		DeltaLFCdf:             s.DeltaLFCdf,
		DeltaLFMultiCdf:        s.DeltaLFMultiCdf,
		IntraTxTypeSet1Cdf:     s.IntraTxTypeSet1Cdf,
		IntraTxTypeSet2Cdf:     s.IntraTxTypeSet2Cdf,
		InterTxTypeSet1Cdf:     s.InterTxTypeSet1Cdf,
		InterTxTypeSet2Cdf:     s.InterTxTypeSet2Cdf,
		InterTxTypeSet3Cdf:     s.InterTxTypeSet3Cdf,
		UseObmcCdf:             s.UseObmcCdf,
		InterIntraCdf:          s.InterIntraCdf,
		CompRefTypeCdf:         s.CompRefTypeCdf,
		CflSignCdf:             s.CflSignCdf,
		UniCompRefCdf:          s.UniCompRefCdf,
		WedgeInterIntraCdf:     s.WedgeInterIntraCdf,
		CompGroupIdxCdf:        s.CompGroupIdxCdf,
		CompoundIdxCdf:         s.CompoundIdxCdf,
		CompoundTypeCdf:        s.CompoundTypeCdf,
		InterIntraModeCdf:      s.InterIntraModeCdf,
		WedgeIndexCdf:          s.WedgeIndexCdf,
		CflAlphaCdf:            s.CflAlphaCdf,
		UseWienerCdf:           s.UseWienerCdf,
		UseSgrprojCdf:          s.UseSgrprojCdf,
		RestorationTypeCdf:     s.RestorationTypeCdf,
		TxbSkipCdf:             s.TxbSkipCdf,
		EobPt16Cdf:             s.EobPt16Cdf,
		EobPt32Cdf:             s.EobPt32Cdf,
		EobPt64Cdf:             s.EobPt64Cdf,
		EobPt128Cdf:            s.EobPt128Cdf,
		EobPt256Cdf:            s.EobPt256Cdf,
		EobPt512Cdf:            s.EobPt512Cdf,
		EobPt1024Cdf:           s.EobPt1024Cdf,
		EobExtraCdf:            s.EobExtraCdf,
		DcSignCdf:              s.DcSignCdf,
		CoeffBaseEobCdf:        s.CoeffBaseEobCdf,
		CoeffBaseCdf:           s.CoeffBaseCdf,
		CoeffBrCdf:             s.CoeffBrCdf,
	}
}

// ZzTile: the tables of the tile being read.
func ZzTile(s *State) MemoryArea {
	return MemoryArea{
		YModeCdf:               s.TileYModeCdf,
		IntraFrameYModeCdf:     s.TileIntraFrameYModeCdf,
		UVModeCflNotAllowedCdf: s.TileUVModeCflNotAllowedCdf,
		UVModeCflAllowedCdf:    s.TileUVModeCflAllowedCdf,
		AngleDeltaCdf:          s.TileAngleDeltaCdf,
		IntrabcCdf:             s.TileIntrabcCdf,
		PartitionW8Cdf:         s.TilePartitionW8Cdf,
		PartitionW16Cdf:        s.TilePartitionW16Cdf,
		PartitionW32Cdf:        s.TilePartitionW32Cdf,
		PartitionW64Cdf:        s.TilePartitionW64Cdf,
		PartitionW128Cdf:       s.TilePartitionW128Cdf,
		SegmentIdCdf:           s.TileSegmentIdCdf,
		SegmentIdPredictedCdf:  s.TileSegmentIdPredictedCdf,
		Tx8x8Cdf:               s.TileTx8x8Cdf,
		Tx16x16Cdf:             s.TileTx16x16Cdf,
		Tx32x32Cdf:             s.TileTx32x32Cdf,
		Tx64x64Cdf:             s.TileTx64x64Cdf,
		TxfmSplitCdf:           s.TileTxfmSplitCdf,
		FilterIntraModeCdf:     s.TileFilterIntraModeCdf,
		FilterIntraCdf:         s.TileFilterIntraCdf,
		InterpFilterCdf:        s.TileInterpFilterCdf,
		MotionModeCdf:          s.TileMotionModeCdf,
		NewMvCdf:               s.TileNewMvCdf,
		ZeroMvCdf:              s.TileZeroMvCdf,
		RefMvCdf:               s.TileRefMvCdf,
		CompoundModeCdf:        s.TileCompoundModeCdf,
		DrlModeCdf:             s.TileDrlModeCdf,
		IsInterCdf:             s.TileIsInterCdf,
		CompModeCdf:            s.TileCompModeCdf,
		SkipModeCdf:            s.TileSkipModeCdf,
		SkipCdf:                s.TileSkipCdf,
		CompRefCdf:             s.TileCompRefCdf,
		CompBwdRefCdf:          s.TileCompBwdRefCdf,
		SingleRefCdf:           s.TileSingleRefCdf,
		MvJointCdf:             s.TileMvJointCdf,
		MvClassCdf:             s.TileMvClassCdf,
		MvClass0BitCdf:         s.TileMvClass0BitCdf,
		MvFrCdf:                s.TileMvFrCdf,
		MvClass0FrCdf:          s.TileMvClass0FrCdf,
		MvClass0HpCdf:          s.TileMvClass0HpCdf,
		MvSignCdf:              s.TileMvSignCdf,
		MvBitCdf:               s.TileMvBitCdf,
		MvHpCdf:                s.TileMvHpCdf,
		PaletteYModeCdf:        s.TilePaletteYModeCdf,
		PaletteUVModeCdf:       s.TilePaletteUVModeCdf,
		PaletteUVSizeCdf:       s.TilePaletteUVSizeCdf,
		PaletteSize2YColorCdf:  s.TilePaletteSize2YColorCdf,
		PaletteSize3YColorCdf:  s.TilePaletteSize3YColorCdf,
		PaletteSize4YColorCdf:  s.TilePaletteSize4YColorCdf,
		PaletteSize5YColorCdf:  s.TilePaletteSize5YColorCdf,
		PaletteSize6YColorCdf:  s.TilePaletteSize6YColorCdf,
		PaletteSize7YColorCdf:  s.TilePaletteSize7YColorCdf,
		PaletteSize8YColorCdf:  s.TilePaletteSize8YColorCdf,
		PaletteSize2UVColorCdf: s.TilePaletteSize2UVColorCdf,
		PaletteSize3UVColorCdf: s.TilePaletteSize3UVColorCdf,
		PaletteSize4UVColorCdf: s.TilePaletteSize4UVColorCdf,
		PaletteSize5UVColorCdf: s.TilePaletteSize5UVColorCdf,
		PaletteSize6UVColorCdf: s.TilePaletteSize6UVColorCdf,
		PaletteSize7UVColorCdf: s.TilePaletteSize7UVColorCdf,
		PaletteSize8UVColorCdf: s.TilePaletteSize8UVColorCdf,
		DeltaQCdf:              s.TileDeltaQCdf,
		DeltaLFCdf:             s.TileDeltaLFCdf,
		DeltaLFMultiCdf:        s.TileDeltaLFMultiCdf,
		IntraTxTypeSet1Cdf:     s.TileIntraTxTypeSet1Cdf,
		IntraTxTypeSet2Cdf:     s.TileIntraTxTypeSet2Cdf,
		InterTxTypeSet1Cdf:     s.TileInterTxTypeSet1Cdf,
		InterTxTypeSet2Cdf:     s.TileInterTxTypeSet2Cdf,
		InterTxTypeSet3Cdf:     s.TileInterTxTypeSet3Cdf,
		UseObmcCdf:             s.TileUseObmcCdf,
		InterIntraCdf:          s.TileInterIntraCdf,
		CompRefTypeCdf:         s.TileCompRefTypeCdf,
		CflSignCdf:             s.TileCflSignCdf,
		UniCompRefCdf:          s.TileUniCompRefCdf,
		WedgeInterIntraCdf:     s.TileWedgeInterIntraCdf,
		CompGroupIdxCdf:        s.TileCompGroupIdxCdf,
		CompoundIdxCdf:         s.TileCompoundIdxCdf,
		CompoundTypeCdf:        s.TileCompoundTypeCdf,
		InterIntraModeCdf:      s.TileInterIntraModeCdf,
		WedgeIndexCdf:          s.TileWedgeIndexCdf,
		CflAlphaCdf:            s.TileCflAlphaCdf,
		UseWienerCdf:           s.TileUseWienerCdf,
		UseSgrprojCdf:          s.TileUseSgrprojCdf,
		RestorationTypeCdf:     s.TileRestorationTypeCdf,
		TxbSkipCdf:             s.TileTxbSkipCdf,
		EobPt16Cdf:             s.TileEobPt16Cdf,
		EobPt32Cdf:             s.TileEobPt32Cdf,
		EobPt64Cdf:             s.TileEobPt64Cdf,
		EobPt128Cdf:            s.TileEobPt128Cdf,
		EobPt256Cdf:            s.TileEobPt256Cdf,
		EobPt512Cdf:            s.TileEobPt512Cdf,
		EobPt1024Cdf:           s.TileEobPt1024Cdf,
		EobExtraCdf:            s.TileEobExtraCdf,
		DcSignCdf:              s.TileDcSignCdf,
		CoeffBaseEobCdf:        s.TileCoeffBaseEobCdf,
		CoeffBaseCdf:           s.TileCoeffBaseCdf,
		CoeffBrCdf:             s.TileCoeffBrCdf,
	}
}

// ZzSaved: the tables kept for the end of the frame.
func ZzSaved(s *State) MemoryArea {
	return MemoryArea{
		YModeCdf:               s.SavedYModeCdf,
		IntraFrameYModeCdf:     s.SavedIntraFrameYModeCdf,
		UVModeCflNotAllowedCdf: s.SavedUVModeCflNotAllowedCdf,
		UVModeCflAllowedCdf:    s.SavedUVModeCflAllowedCdf,
		AngleDeltaCdf:          s.SavedAngleDeltaCdf,
		IntrabcCdf:             s.SavedIntrabcCdf,
		PartitionW8Cdf:         s.SavedPartitionW8Cdf,
		PartitionW16Cdf:        s.SavedPartitionW16Cdf,
		PartitionW32Cdf:        s.SavedPartitionW32Cdf,
		PartitionW64Cdf:        s.SavedPartitionW64Cdf,
		PartitionW128Cdf:       s.SavedPartitionW128Cdf,
		SegmentIdCdf:           s.SavedSegmentIdCdf,
		SegmentIdPredictedCdf:  s.SavedSegmentIdPredictedCdf,
		Tx8x8Cdf:               s.SavedTx8x8Cdf,
		Tx16x16Cdf:             s.SavedTx16x16Cdf,
		Tx32x32Cdf:             s.SavedTx32x32Cdf,
		Tx64x64Cdf:             s.SavedTx64x64Cdf,
		TxfmSplitCdf:           s.SavedTxfmSplitCdf,
		FilterIntraModeCdf:     s.SavedFilterIntraModeCdf,
		FilterIntraCdf:         s.SavedFilterIntraCdf,
		InterpFilterCdf:        s.SavedInterpFilterCdf,
		MotionModeCdf:          s.SavedMotionModeCdf,
		NewMvCdf:               s.SavedNewMvCdf,
		ZeroMvCdf:              s.SavedZeroMvCdf,
		RefMvCdf:               s.SavedRefMvCdf,
		CompoundModeCdf:        s.SavedCompoundModeCdf,
		DrlModeCdf:             s.SavedDrlModeCdf,
		IsInterCdf:             s.SavedIsInterCdf,
		CompModeCdf:            s.SavedCompModeCdf,
		SkipModeCdf:            s.SavedSkipModeCdf,
		SkipCdf:                s.SavedSkipCdf,
		CompRefCdf:             s.SavedCompRefCdf,
		CompBwdRefCdf:          s.SavedCompBwdRefCdf,
		SingleRefCdf:           s.SavedSingleRefCdf,
		MvJointCdf:             s.SavedMvJointCdf,
		MvClassCdf:             s.SavedMvClassCdf,
		MvClass0BitCdf:         s.SavedMvClass0BitCdf,
		MvFrCdf:                s.SavedMvFrCdf,
		MvClass0FrCdf:          s.SavedMvClass0FrCdf,
		MvClass0HpCdf:          s.SavedMvClass0HpCdf,
		MvSignCdf:              s.SavedMvSignCdf,
		MvBitCdf:               s.SavedMvBitCdf,
		MvHpCdf:                s.SavedMvHpCdf,
		PaletteYModeCdf:        s.SavedPaletteYModeCdf,
		PaletteUVModeCdf:       s.SavedPaletteUVModeCdf,
		PaletteUVSizeCdf:       s.SavedPaletteUVSizeCdf,
		PaletteSize2YColorCdf:  s.SavedPaletteSize2YColorCdf,
		PaletteSize3YColorCdf:  s.SavedPaletteSize3YColorCdf,
		PaletteSize4YColorCdf:  s.SavedPaletteSize4YColorCdf,
		PaletteSize5YColorCdf:  s.SavedPaletteSize5YColorCdf,
		PaletteSize6YColorCdf:  s.SavedPaletteSize6YColorCdf,
		PaletteSize7YColorCdf:  s.SavedPaletteSize7YColorCdf,
		PaletteSize8YColorCdf:  s.SavedPaletteSize8YColorCdf,
		PaletteSize2UVColorCdf: s.SavedPaletteSize2UVColorCdf,
		PaletteSize3UVColorCdf: s.SavedPaletteSize3UVColorCdf,
		PaletteSize4UVColorCdf: s.SavedPaletteSize4UVColorCdf,
		PaletteSize5UVColorCdf: s.SavedPaletteSize5UVColorCdf,
		PaletteSize6UVColorCdf: s.SavedPaletteSize6UVColorCdf,
		PaletteSize7UVColorCdf: s.SavedPaletteSize7UVColorCdf,
		PaletteSize8UVColorCdf: s.SavedPaletteSize8UVColorCdf,
		DeltaQCdf:              s.SavedDeltaQCdf,
		DeltaLFCdf:             s.SavedDeltaLFCdf,
		DeltaLFMultiCdf:        s.SavedDeltaLFMultiCdf,
		IntraTxTypeSet1Cdf:     s.SavedIntraTxTypeSet1Cdf,
		IntraTxTypeSet2Cdf:     s.SavedIntraTxTypeSet2Cdf,
		InterTxTypeSet1Cdf:     s.SavedInterTxTypeSet1Cdf,
		InterTxTypeSet2Cdf:     s.SavedInterTxTypeSet2Cdf,
		InterTxTypeSet3Cdf:     s.SavedInterTxTypeSet3Cdf,
		UseObmcCdf:             s.SavedUseObmcCdf,
		InterIntraCdf:          s.SavedInterIntraCdf,
		CompRefTypeCdf:         s.SavedCompRefTypeCdf,
		CflSignCdf:             s.SavedCflSignCdf,
		UniCompRefCdf:          s.SavedUniCompRefCdf,
		WedgeInterIntraCdf:     s.SavedWedgeInterIntraCdf,
		CompGroupIdxCdf:        s.SavedCompGroupIdxCdf,
		CompoundIdxCdf:         s.SavedCompoundIdxCdf,
		CompoundTypeCdf:        s.SavedCompoundTypeCdf,
		InterIntraModeCdf:      s.SavedInterIntraModeCdf,
		WedgeIndexCdf:          s.SavedWedgeIndexCdf,
		CflAlphaCdf:            s.SavedCflAlphaCdf,
		UseWienerCdf:           s.SavedUseWienerCdf,
		UseSgrprojCdf:          s.SavedUseSgrprojCdf,
		RestorationTypeCdf:     s.SavedRestorationTypeCdf,
		TxbSkipCdf:             s.SavedTxbSkipCdf,
		EobPt16Cdf:             s.SavedEobPt16Cdf,
		EobPt32Cdf:             s.SavedEobPt32Cdf,
		EobPt64Cdf:             s.SavedEobPt64Cdf,
		EobPt128Cdf:            s.SavedEobPt128Cdf,
		EobPt256Cdf:            s.SavedEobPt256Cdf,
		EobPt512Cdf:            s.SavedEobPt512Cdf,
		EobPt1024Cdf:           s.SavedEobPt1024Cdf,
		EobExtraCdf:            s.SavedEobExtraCdf,
		DcSignCdf:              s.SavedDcSignCdf,
		CoeffBaseEobCdf:        s.SavedCoeffBaseEobCdf,
		CoeffBaseCdf:           s.SavedCoeffBaseCdf,
		CoeffBrCdf:             s.SavedCoeffBrCdf,
	}
}

// ZzKept: the tables of a memory area.
func ZzKept(a *MemoryArea) MemoryArea {
	x := *a
	x.RefOrderHint = [len(x.RefOrderHint)]int{}
	return x
}

// ZzShape: the sizes of the tables.
func ZzShape(a *MemoryArea) bool {
	ok := true
	ok = vs.Dims(a.YModeCdf, 4, 14) && ok
	ok = vs.Dims(a.IntraFrameYModeCdf, 5, 5, 14) && ok
	ok = vs.Dims(a.UVModeCflNotAllowedCdf, 13, 14) && ok
	ok = vs.Dims(a.UVModeCflAllowedCdf, 13, 15) && ok
	ok = vs.Dims(a.AngleDeltaCdf, 8, 8) && ok
	ok = vs.Dims(a.IntrabcCdf, 3) && ok
	ok = vs.Dims(a.PartitionW8Cdf, 4, 5) && ok
	ok = vs.Dims(a.PartitionW16Cdf, 4, 11) && ok
	ok = vs.Dims(a.PartitionW32Cdf, 4, 11) && ok
	ok = vs.Dims(a.PartitionW64Cdf, 4, 11) && ok
	ok = vs.Dims(a.PartitionW128Cdf, 4, 9) && ok
	ok = vs.Dims(a.SegmentIdCdf, 3, 9) && ok
	ok = vs.Dims(a.SegmentIdPredictedCdf, 3, 3) && ok
	ok = vs.Dims(a.Tx8x8Cdf, 3, 3) && ok
	ok = vs.Dims(a.Tx16x16Cdf, 3, 4) && ok
	ok = vs.Dims(a.Tx32x32Cdf, 3, 4) && ok
	ok = vs.Dims(a.Tx64x64Cdf, 3, 4) && ok
	ok = vs.Dims(a.TxfmSplitCdf, 21, 3) && ok
	ok = vs.Dims(a.FilterIntraModeCdf, 6) && ok
	ok = vs.Dims(a.FilterIntraCdf, 22, 3) && ok
	ok = vs.Dims(a.InterpFilterCdf, 16, 4) && ok
	ok = vs.Dims(a.MotionModeCdf, 22, 4) && ok
	ok = vs.Dims(a.NewMvCdf, 6, 3) && ok
	ok = vs.Dims(a.ZeroMvCdf, 2, 3) && ok
	ok = vs.Dims(a.RefMvCdf, 6, 3) && ok
	ok = vs.Dims(a.CompoundModeCdf, 8, 9) && ok
	ok = vs.Dims(a.DrlModeCdf, 3, 3) && ok
	ok = vs.Dims(a.IsInterCdf, 4, 3) && ok
	ok = vs.Dims(a.CompModeCdf, 5, 3) && ok
	ok = vs.Dims(a.SkipModeCdf, 3, 3) && ok
	ok = vs.Dims(a.SkipCdf, 3, 3) && ok
	ok = vs.Dims(a.CompRefCdf, 3, 3, 3) && ok
	ok = vs.Dims(a.CompBwdRefCdf, 3, 2, 3) && ok
	ok = vs.Dims(a.SingleRefCdf, 3, 6, 3) && ok
	ok = vs.Dims(a.MvJointCdf[0], 5) && ok
	ok = vs.Dims(a.MvJointCdf[1], 5) && ok
	ok = vs.Dims(a.MvClassCdf[0], 2, 12) && ok
	ok = vs.Dims(a.MvClassCdf[1], 2, 12) && ok
	ok = vs.Dims(a.MvClass0BitCdf[0][0], 3) && ok
	ok = vs.Dims(a.MvClass0BitCdf[0][1], 3) && ok
	ok = vs.Dims(a.MvClass0BitCdf[1][0], 3) && ok
	ok = vs.Dims(a.MvClass0BitCdf[1][1], 3) && ok
	ok = vs.Dims(a.MvFrCdf[0], 2, 5) && ok
	ok = vs.Dims(a.MvFrCdf[1], 2, 5) && ok
	ok = vs.Dims(a.MvClass0FrCdf[0], 2, 2, 5) && ok
	ok = vs.Dims(a.MvClass0FrCdf[1], 2, 2, 5) && ok
	ok = vs.Dims(a.MvClass0HpCdf[0][0], 3) && ok
	ok = vs.Dims(a.MvClass0HpCdf[0][1], 3) && ok
	ok = vs.Dims(a.MvClass0HpCdf[1][0], 3) && ok
	ok = vs.Dims(a.MvClass0HpCdf[1][1], 3) && ok
	ok = vs.Dims(a.MvSignCdf[0][0], 3) && ok
	ok = vs.Dims(a.MvSignCdf[0][1], 3) && ok
	ok = vs.Dims(a.MvSignCdf[1][0], 3) && ok
	ok = vs.Dims(a.MvSignCdf[1][1], 3) && ok
	ok = vs.Dims(a.MvBitCdf[0][0], 10, 3) && ok
	ok = vs.Dims(a.MvBitCdf[0][1], 10, 3) && ok
	ok = vs.Dims(a.MvBitCdf[1][0], 10, 3) && ok
	ok = vs.Dims(a.MvBitCdf[1][1], 10, 3) && ok
	ok = vs.Dims(a.MvHpCdf[0][0], 3) && ok
	ok = vs.Dims(a.MvHpCdf[0][1], 3) && ok
	ok = vs.Dims(a.MvHpCdf[1][0], 3) && ok
	ok = vs.Dims(a.MvHpCdf[1][1], 3) && ok
	ok = vs.Dims(a.PaletteYModeCdf, 7, 3, 3) && ok
	ok = vs.Dims(a.PaletteUVModeCdf, 2, 3) && ok
	ok = vs.Dims(a.PaletteUVSizeCdf, 7, 8) && ok
	ok = vs.Dims(a.PaletteSize2YColorCdf, 5, 3) && ok
	ok = vs.Dims(a.PaletteSize3YColorCdf, 5, 4) && ok
	ok = vs.Dims(a.PaletteSize4YColorCdf, 5, 5) && ok
	ok = vs.Dims(a.PaletteSize5YColorCdf, 5, 6) && ok
	ok = vs.Dims(a.PaletteSize6YColorCdf, 5, 7) && ok
	ok = vs.Dims(a.PaletteSize7YColorCdf, 5, 8) && ok
	ok = vs.Dims(a.PaletteSize8YColorCdf, 5, 9) && ok
	ok = vs.Dims(a.PaletteSize2UVColorCdf, 5, 3) && ok
	ok = vs.Dims(a.PaletteSize3UVColorCdf, 5, 4) && ok
	ok = vs.Dims(a.PaletteSize4UVColorCdf, 5, 5) && ok
	ok = vs.Dims(a.PaletteSize5UVColorCdf, 5, 6) && ok
	ok = vs.Dims(a.PaletteSize6UVColorCdf, 5, 7) && ok
	ok = vs.Dims(a.PaletteSize7UVColorCdf, 5, 8) && ok
	ok = vs.Dims(a.PaletteSize8UVColorCdf, 5, 9) && ok
	ok = vs.Dims(a.DeltaQCdf, 5) && ok
	ok = vs.Dims(a.DeltaLFCdf, 5) && ok
	ok = vs.Dims(a.DeltaLFMultiCdf[0], 5) && ok
	ok = vs.Dims(a.DeltaLFMultiCdf[1], 5) && ok
	ok = vs.Dims(a.DeltaLFMultiCdf[2], 5) && ok
	ok = vs.Dims(a.DeltaLFMultiCdf[3], 5) && ok
	ok = vs.Dims(a.IntraTxTypeSet1Cdf, 2, 13, 8) && ok
	ok = vs.Dims(a.IntraTxTypeSet2Cdf, 3, 13, 6) && ok
	ok = vs.Dims(a.InterTxTypeSet1Cdf, 2, 17) && ok
	ok = vs.Dims(a.InterTxTypeSet2Cdf, 13) && ok
	ok = vs.Dims(a.InterTxTypeSet3Cdf, 4, 3) && ok
	ok = vs.Dims(a.UseObmcCdf, 22, 3) && ok
	ok = vs.Dims(a.InterIntraCdf, 3, 3) && ok
	ok = vs.Dims(a.CompRefTypeCdf, 5, 3) && ok
	ok = vs.Dims(a.CflSignCdf, 9) && ok
	ok = vs.Dims(a.UniCompRefCdf, 3, 3, 3) && ok
	ok = vs.Dims(a.WedgeInterIntraCdf, 22, 3) && ok
	ok = vs.Dims(a.CompGroupIdxCdf, 6, 3) && ok
	ok = vs.Dims(a.CompoundIdxCdf, 6, 3) && ok
	ok = vs.Dims(a.CompoundTypeCdf, 22, 3) && ok
	ok = vs.Dims(a.InterIntraModeCdf, 3, 5) && ok
	ok = vs.Dims(a.WedgeIndexCdf, 22, 17) && ok
	ok = vs.Dims(a.CflAlphaCdf, 6, 17) && ok
	ok = vs.Dims(a.UseWienerCdf, 3) && ok
	ok = vs.Dims(a.UseSgrprojCdf, 3) && ok
	ok = vs.Dims(a.RestorationTypeCdf, 4) && ok
	ok = vs.Dims(a.TxbSkipCdf, 5, 13, 3) && ok
	ok = vs.Dims(a.EobPt16Cdf, 2, 2, 6) && ok
	ok = vs.Dims(a.EobPt32Cdf, 2, 2, 7) && ok
	ok = vs.Dims(a.EobPt64Cdf, 2, 2, 8) && ok
	ok = vs.Dims(a.EobPt128Cdf, 2, 2, 9) && ok
	ok = vs.Dims(a.EobPt256Cdf, 2, 2, 10) && ok
	ok = vs.Dims(a.EobPt512Cdf, 2, 11) && ok
	ok = vs.Dims(a.EobPt1024Cdf, 2, 12) && ok
	ok = vs.Dims(a.EobExtraCdf, 5, 2, 9, 3) && ok
	ok = vs.Dims(a.DcSignCdf, 2, 3, 3) && ok
	ok = vs.Dims(a.CoeffBaseEobCdf, 5, 2, 4, 4) && ok
	ok = vs.Dims(a.CoeffBaseCdf, 5, 2, 42, 5) && ok
	ok = vs.Dims(a.CoeffBrCdf, 5, 2, 21, 5) && ok
	return ok
}
