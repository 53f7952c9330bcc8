package tilegroup

// Contracts for the tile's probability tables and the symbol decoder's bounds. Written by gen/cdf_contracts.py.

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// @ contract: TileGroup.frameEndUpdateCdf
// @ property: C19
func zzFrameEndUpdateCdf(t *TileGroup, s *state.State) {
	saved := state.ZzSaved(s)
	vs.Requires(state.ZzShape(&saved))
	vs.Modifies(&s.YModeCdf,
		&s.IntraFrameYModeCdf,
		&s.UVModeCflNotAllowedCdf,
		&s.UVModeCflAllowedCdf,
		&s.AngleDeltaCdf,
		&s.IntrabcCdf,
		&s.PartitionW8Cdf,
		&s.PartitionW16Cdf,
		&s.PartitionW32Cdf,
		&s.PartitionW64Cdf,
		&s.PartitionW128Cdf,
		&s.SegmentIdCdf,
		&s.SegmentIdPredictedCdf,
		&s.Tx8x8Cdf,
		&s.Tx16x16Cdf,
		&s.Tx32x32Cdf,
		&s.Tx64x64Cdf,
		&s.TxfmSplitCdf,
		&s.FilterIntraModeCdf,
		&s.FilterIntraCdf,
		&s.InterpFilterCdf,
		&s.MotionModeCdf,
		&s.NewMvCdf,
		&s.ZeroMvCdf,
		&s.RefMvCdf,
		&s.CompoundModeCdf,
		&s.DrlModeCdf,
		&s.IsInterCdf,
		&s.CompModeCdf,
		&s.SkipModeCdf,
		&s.SkipCdf,
		&s.CompRefCdf,
		&s.CompBwdRefCdf,
		&s.SingleRefCdf,
		&s.MvJointCdf,
		&s.MvClassCdf,
		&s.MvClass0BitCdf,
		&s.MvFrCdf,
		&s.MvClass0FrCdf,
		&s.MvClass0HpCdf,
		&s.MvSignCdf,
		&s.MvBitCdf,
		&s.MvHpCdf,
		&s.PaletteYModeCdf,
		&s.PaletteUVModeCdf,
		&s.PaletteUVSizeCdf,
		&s.PaletteSize2YColorCdf,
		&s.PaletteSize3YColorCdf,
		&s.PaletteSize4YColorCdf,
		&s.PaletteSize5YColorCdf,
		&s.PaletteSize6YColorCdf,
		&s.PaletteSize7YColorCdf,
		&s.PaletteSize8YColorCdf,
		&s.PaletteSize2UVColorCdf,
		&s.PaletteSize3UVColorCdf,
		&s.PaletteSize4UVColorCdf,
		&s.PaletteSize5UVColorCdf,
		&s.PaletteSize6UVColorCdf,
		&s.PaletteSize7UVColorCdf,
		&s.PaletteSize8UVColorCdf,
		&s.DeltaQCdf,
		&s.DeltaLFCdf,
		&s.DeltaLFMultiCdf,
		&s.IntraTxTypeSet1Cdf,
		&s.IntraTxTypeSet2Cdf,
		&s.InterTxTypeSet1Cdf,
		&s.InterTxTypeSet2Cdf,
		&s.InterTxTypeSet3Cdf,
		&s.UseObmcCdf,
		&s.InterIntraCdf,
		&s.CompRefTypeCdf,
		&s.CflSignCdf,
		&s.UniCompRefCdf,
		&s.WedgeInterIntraCdf,
		&s.CompGroupIdxCdf,
		&s.CompoundIdxCdf,
		&s.CompoundTypeCdf,
		&s.InterIntraModeCdf,
		&s.WedgeIndexCdf,
		&s.CflAlphaCdf,
		&s.UseWienerCdf,
		&s.UseSgrprojCdf,
		&s.RestorationTypeCdf,
		&s.TxbSkipCdf,
		&s.EobPt16Cdf,
		&s.EobPt32Cdf,
		&s.EobPt64Cdf,
		&s.EobPt128Cdf,
		&s.EobPt256Cdf,
		&s.EobPt512Cdf,
		&s.EobPt1024Cdf,
		&s.EobExtraCdf,
		&s.DcSignCdf,
		&s.CoeffBaseEobCdf,
		&s.CoeffBaseCdf,
		&s.CoeffBrCdf)
	t.frameEndUpdateCdf(s)
	vs.Ensures("every table is the saved one", vs.Eq(state.ZzFrame(s), saved))
}

// @ contract: TileGroup.exitSymbol
// @ property: C19
func zzExitSymbol(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	vs.Requires(s.SymbolMaxBits >= -14 && s.SymbolMaxBits <= 1<<40 && 0 <= b.Position && b.Position <= 1<<40)
	tile, saved, p := state.ZzTile(s), state.ZzSaved(s), b.Position
	vs.Requires(state.ZzShape(&tile) && state.ZzShape(&saved))
	vs.SplitBool(!uh.DisableFrameEndUpdateCdf && s.TileNum == uh.TileInfo.ContextUpdateTileId)
	vs.Modifies(&s.SavedYModeCdf,
		&s.SavedIntraFrameYModeCdf,
		&s.SavedUVModeCflNotAllowedCdf,
		&s.SavedUVModeCflAllowedCdf,
		&s.SavedAngleDeltaCdf,
		&s.SavedIntrabcCdf,
		&s.SavedPartitionW8Cdf,
		&s.SavedPartitionW16Cdf,
		&s.SavedPartitionW32Cdf,
		&s.SavedPartitionW64Cdf,
		&s.SavedPartitionW128Cdf,
		&s.SavedSegmentIdCdf,
		&s.SavedSegmentIdPredictedCdf,
		&s.SavedTx8x8Cdf,
		&s.SavedTx16x16Cdf,
		&s.SavedTx32x32Cdf,
		&s.SavedTx64x64Cdf,
		&s.SavedTxfmSplitCdf,
		&s.SavedFilterIntraModeCdf,
		&s.SavedFilterIntraCdf,
		&s.SavedInterpFilterCdf,
		&s.SavedMotionModeCdf,
		&s.SavedNewMvCdf,
		&s.SavedZeroMvCdf,
		&s.SavedRefMvCdf,
		&s.SavedCompoundModeCdf,
		&s.SavedDrlModeCdf,
		&s.SavedIsInterCdf,
		&s.SavedCompModeCdf,
		&s.SavedSkipModeCdf,
		&s.SavedSkipCdf,
		&s.SavedCompRefCdf,
		&s.SavedCompBwdRefCdf,
		&s.SavedSingleRefCdf,
		&s.SavedMvJointCdf,
		&s.SavedMvClassCdf,
		&s.SavedMvClass0BitCdf,
		&s.SavedMvFrCdf,
		&s.SavedMvClass0FrCdf,
		&s.SavedMvClass0HpCdf,
		&s.SavedMvSignCdf,
		&s.SavedMvBitCdf,
		&s.SavedMvHpCdf,
		&s.SavedPaletteYModeCdf,
		&s.SavedPaletteUVModeCdf,
		&s.SavedPaletteUVSizeCdf,
		&s.SavedPaletteSize2YColorCdf,
		&s.SavedPaletteSize3YColorCdf,
		&s.SavedPaletteSize4YColorCdf,
		&s.SavedPaletteSize5YColorCdf,
		&s.SavedPaletteSize6YColorCdf,
		&s.SavedPaletteSize7YColorCdf,
		&s.SavedPaletteSize8YColorCdf,
		&s.SavedPaletteSize2UVColorCdf,
		&s.SavedPaletteSize3UVColorCdf,
		&s.SavedPaletteSize4UVColorCdf,
		&s.SavedPaletteSize5UVColorCdf,
		&s.SavedPaletteSize6UVColorCdf,
		&s.SavedPaletteSize7UVColorCdf,
		&s.SavedPaletteSize8UVColorCdf,
		&s.SavedDeltaQCdf,
		&s.SavedDeltaLFCdf,
		&s.SavedDeltaLFMultiCdf,
		&s.SavedIntraTxTypeSet1Cdf,
		&s.SavedIntraTxTypeSet2Cdf,
		&s.SavedInterTxTypeSet1Cdf,
		&s.SavedInterTxTypeSet2Cdf,
		&s.SavedInterTxTypeSet3Cdf,
		&s.SavedUseObmcCdf,
		&s.SavedInterIntraCdf,
		&s.SavedCompRefTypeCdf,
		&s.SavedCflSignCdf,
		&s.SavedUniCompRefCdf,
		&s.SavedWedgeInterIntraCdf,
		&s.SavedCompGroupIdxCdf,
		&s.SavedCompoundIdxCdf,
		&s.SavedCompoundTypeCdf,
		&s.SavedInterIntraModeCdf,
		&s.SavedWedgeIndexCdf,
		&s.SavedCflAlphaCdf,
		&s.SavedUseWienerCdf,
		&s.SavedUseSgrprojCdf,
		&s.SavedRestorationTypeCdf,
		&s.SavedTxbSkipCdf,
		&s.SavedEobPt16Cdf,
		&s.SavedEobPt32Cdf,
		&s.SavedEobPt64Cdf,
		&s.SavedEobPt128Cdf,
		&s.SavedEobPt256Cdf,
		&s.SavedEobPt512Cdf,
		&s.SavedEobPt1024Cdf,
		&s.SavedEobExtraCdf,
		&s.SavedDcSignCdf,
		&s.SavedCoeffBaseEobCdf,
		&s.SavedCoeffBaseCdf,
		&s.SavedCoeffBrCdf, &b.Position)
	t.exitSymbol(b, s, uh)
	vs.Ensures("the tile's data is used up", b.Position == p+util.Max(0, s.SymbolMaxBits))
	if !uh.DisableFrameEndUpdateCdf && s.TileNum == uh.TileInfo.ContextUpdateTileId {
		vs.Ensures("every table is kept", vs.Eq(state.ZzSaved(s), tile))
	} else {
		vs.Ensures("no table is kept", vs.Eq(state.ZzSaved(s), saved))
	}
}

// @ contract: TileGroup.initSymbol
// @ property: C19
func zzInitSymbol(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State) {
	vs.Requires(1 <= sz && sz <= 1<<36 && 0 <= b.Position && b.Position+8*sz <= 8*len(b.Data))
	frame := state.ZzFrame(s)
	vs.Requires(state.ZzShape(&frame))
	vs.Modifies(&s.TileYModeCdf,
		&s.TileIntraFrameYModeCdf,
		&s.TileUVModeCflNotAllowedCdf,
		&s.TileUVModeCflAllowedCdf,
		&s.TileAngleDeltaCdf,
		&s.TileIntrabcCdf,
		&s.TilePartitionW8Cdf,
		&s.TilePartitionW16Cdf,
		&s.TilePartitionW32Cdf,
		&s.TilePartitionW64Cdf,
		&s.TilePartitionW128Cdf,
		&s.TileSegmentIdCdf,
		&s.TileSegmentIdPredictedCdf,
		&s.TileTx8x8Cdf,
		&s.TileTx16x16Cdf,
		&s.TileTx32x32Cdf,
		&s.TileTx64x64Cdf,
		&s.TileTxfmSplitCdf,
		&s.TileFilterIntraModeCdf,
		&s.TileFilterIntraCdf,
		&s.TileInterpFilterCdf,
		&s.TileMotionModeCdf,
		&s.TileNewMvCdf,
		&s.TileZeroMvCdf,
		&s.TileRefMvCdf,
		&s.TileCompoundModeCdf,
		&s.TileDrlModeCdf,
		&s.TileIsInterCdf,
		&s.TileCompModeCdf,
		&s.TileSkipModeCdf,
		&s.TileSkipCdf,
		&s.TileCompRefCdf,
		&s.TileCompBwdRefCdf,
		&s.TileSingleRefCdf,
		&s.TileMvJointCdf,
		&s.TileMvClassCdf,
		&s.TileMvClass0BitCdf,
		&s.TileMvFrCdf,
		&s.TileMvClass0FrCdf,
		&s.TileMvClass0HpCdf,
		&s.TileMvSignCdf,
		&s.TileMvBitCdf,
		&s.TileMvHpCdf,
		&s.TilePaletteYModeCdf,
		&s.TilePaletteUVModeCdf,
		&s.TilePaletteUVSizeCdf,
		&s.TilePaletteSize2YColorCdf,
		&s.TilePaletteSize3YColorCdf,
		&s.TilePaletteSize4YColorCdf,
		&s.TilePaletteSize5YColorCdf,
		&s.TilePaletteSize6YColorCdf,
		&s.TilePaletteSize7YColorCdf,
		&s.TilePaletteSize8YColorCdf,
		&s.TilePaletteSize2UVColorCdf,
		&s.TilePaletteSize3UVColorCdf,
		&s.TilePaletteSize4UVColorCdf,
		&s.TilePaletteSize5UVColorCdf,
		&s.TilePaletteSize6UVColorCdf,
		&s.TilePaletteSize7UVColorCdf,
		&s.TilePaletteSize8UVColorCdf,
		&s.TileDeltaQCdf,
		&s.TileDeltaLFCdf,
		&s.TileDeltaLFMultiCdf,
		&s.TileIntraTxTypeSet1Cdf,
		&s.TileIntraTxTypeSet2Cdf,
		&s.TileInterTxTypeSet1Cdf,
		&s.TileInterTxTypeSet2Cdf,
		&s.TileInterTxTypeSet3Cdf,
		&s.TileUseObmcCdf,
		&s.TileInterIntraCdf,
		&s.TileCompRefTypeCdf,
		&s.TileCflSignCdf,
		&s.TileUniCompRefCdf,
		&s.TileWedgeInterIntraCdf,
		&s.TileCompGroupIdxCdf,
		&s.TileCompoundIdxCdf,
		&s.TileCompoundTypeCdf,
		&s.TileInterIntraModeCdf,
		&s.TileWedgeIndexCdf,
		&s.TileCflAlphaCdf,
		&s.TileUseWienerCdf,
		&s.TileUseSgrprojCdf,
		&s.TileRestorationTypeCdf,
		&s.TileTxbSkipCdf,
		&s.TileEobPt16Cdf,
		&s.TileEobPt32Cdf,
		&s.TileEobPt64Cdf,
		&s.TileEobPt128Cdf,
		&s.TileEobPt256Cdf,
		&s.TileEobPt512Cdf,
		&s.TileEobPt1024Cdf,
		&s.TileEobExtraCdf,
		&s.TileDcSignCdf,
		&s.TileCoeffBaseEobCdf,
		&s.TileCoeffBaseCdf,
		&s.TileCoeffBrCdf, &s.SymbolValue, &s.SymbolRange, &s.SymbolMaxBits, &b.Position)
	p := b.Position
	t.initSymbol(sz, b, s)
	num := util.Min(8*sz, 15)
	vs.Ensures("bits read", b.Position == p+num)
	vs.Ensures("bits left", s.SymbolMaxBits == 8*sz-15)
	vs.Ensures("range", s.SymbolRange == 32768)
	vs.Ensures("value", s.SymbolValue == 32767-bitstream.Zz_Bits(b.Data, p, num)*(1<<(15-num)))
	vs.Ensures("ready for the first symbol", 0 <= s.SymbolValue && s.SymbolValue < 32768)
	vs.Ensures("the frame's tables", vs.Eq(state.ZzTile(s), frame))
	vs.Ensures("on copies of them", vs.Apart(state.ZzTile(s), frame))
}
