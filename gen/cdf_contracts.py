# Writes the contracts for the probability tables (C19): long lists of tables, one line each.
# Run once by hand; the output is committed.
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/contracts/internal/'
# table: name -> (shape, default, per-context indices)
T = '''YModeCdf 4x14 DEFAULT_Y_MODE_CDF
IntraFrameYModeCdf 5x5x14 DEFAULT_INTRA_FRAME_Y_MODE_CDF
UVModeCflNotAllowedCdf 13x14 DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
UVModeCflAllowedCdf 13x15 DEFAULT_UV_MODE_CFL_ALLOWED_CDF
AngleDeltaCdf 8x8 DEFAULT_ANGLE_DELTA_CDF
IntrabcCdf 3 DEFAULT_INTRABC_CDF
PartitionW8Cdf 4x5 DEFAULT_PARTITION_W8_CDF
PartitionW16Cdf 4x11 DEFAULT_PARTITION_W16_CDF
PartitionW32Cdf 4x11 DEFAULT_PARTITION_W32_CDF
PartitionW64Cdf 4x11 DEFAULT_PARTITION_W64_CDF
PartitionW128Cdf 4x9 DEFAULT_PARTITION_W128_CDF
SegmentIdCdf 3x9 DEFAULT_SEGMENT_ID_CDF
SegmentIdPredictedCdf 3x3 DEFAULT_SEGMENT_ID_PREDICTED_CDF
Tx8x8Cdf 3x3 DEFAULT_TX_8X8_CDF
Tx16x16Cdf 3x4 DEFAULT_TX_16X16_CDF
Tx32x32Cdf 3x4 DEFAULT_TX_32X32_CDF
Tx64x64Cdf 3x4 DEFAULT_TX_64X64_CDF
TxfmSplitCdf 21x3 DEFAULT_TXFM_SPLIT_CDF
FilterIntraModeCdf 6 DEFAULT_FILTER_INTRA_MODE_CDF
FilterIntraCdf 22x3 DEFAULT_FILTER_INTRA_CDF
InterpFilterCdf 16x4 DEFAULT_INTERP_FILTER_CDF
MotionModeCdf 22x4 DEFAULT_MOTION_MODE_CDF
NewMvCdf 6x3 DEFAULT_NEW_MV_CDF
ZeroMvCdf 2x3 DFEAULT_ZERO_MV_CDF
RefMvCdf 6x3 DEFAULT_REF_MV_CDF
CompoundModeCdf 8x9 DEFAULT_COMPOUND_MODE_CDF
DrlModeCdf 3x3 DEFAULT_DRL_MODE_CDF
IsInterCdf 4x3 DEFAULT_IS_INTER_CDF
CompModeCdf 5x3 DEFAULT_COMP_MODE_CDF
SkipModeCdf 3x3 DEFAULT_SKIP_MODE_CDF
SkipCdf 3x3 DEFAULT_SKIP_CDF
CompRefCdf 3x3x3 DEFAULT_COMP_REF_CDF
CompBwdRefCdf 3x2x3 DEFAULT_COMP_BWD_REF_CDF
SingleRefCdf 3x6x3 DEFAULT_SINGLE_REF_CDF
MvJointCdf 5 DEFAULT_MV_JOINT_CDF mv
MvClassCdf 2x12 DEFAULT_MV_CLASS_CDF mv
MvClass0BitCdf 3 DEFAULT_MV_CLASS0_BIT_CDF mvcomp
MvFrCdf 2x5 DEFAULT_MV_FR_CDF mv
MvClass0FrCdf 2x2x5 DEFAULT_MV_CLASS0_FR_CDF mv
MvClass0HpCdf 3 DEFAULT_MV_CLASS0_HP_CDF mvcomp
MvSignCdf 3 DEFAULT_MV_SIGN_CDF mvcomp
MvBitCdf 10x3 DEFAULT_MV_BIT_CDF mvcomp
MvHpCdf 3 DEFAULT_MV_HP_CDF mvcomp
PaletteYModeCdf 7x3x3 DEFAULT_PALETTE_Y_MODE_CDF
PaletteUVModeCdf 2x3 DEFAULT_PALETTE_UV_MODE_CDF
PaletteYSizeCdf 7x8 DEFAULT_PALETTE_Y_SIZE_CDF
PaletteUVSizeCdf 7x8 DEFAULT_PALETTE_UV_SIZE_CDF
PaletteSize2YColorCdf 5x3 DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
PaletteSize3YColorCdf 5x4 DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF
PaletteSize4YColorCdf 5x5 DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF
PaletteSize5YColorCdf 5x6 DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF
PaletteSize6YColorCdf 5x7 DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF
PaletteSize7YColorCdf 5x8 DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF
PaletteSize8YColorCdf 5x9 DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF
PaletteSize2UVColorCdf 5x3 DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
PaletteSize3UVColorCdf 5x4 DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF
PaletteSize4UVColorCdf 5x5 DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF
PaletteSize5UVColorCdf 5x6 DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF
PaletteSize6UVColorCdf 5x7 DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF
PaletteSize7UVColorCdf 5x8 DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF
PaletteSize8UVColorCdf 5x9 DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF
DeltaQCdf 5 DEFAULT_DELTA_Q_CDF
DeltaLFCdf 5 DEFAULT_DELTA_LF_CDF
DeltaLFMultiCdf 5 DEFAULT_DELTA_LF_CDF lf
IntraTxTypeSet1Cdf 2x13x8 DEFAULT_INTRA_TX_TYPE_SET1_CDF
IntraTxTypeSet2Cdf 3x13x6 DEFAULT_INTRA_TX_TYPE_SET2_CDF
InterTxTypeSet1Cdf 2x17 DEFAULT_INTER_TX_TYPE_SET1_CDF
InterTxTypeSet2Cdf 13 DEFAULT_INTER_TX_TYPE_SET2_CDF
InterTxTypeSet3Cdf 4x3 DEFAULT_INTER_TX_TYPE_SET3_CDF
UseObmcCdf 22x3 DEFAULT_USE_OBMC_CDF
InterIntraCdf 3x3 DEFAULT_INTER_INTRA_CDF
CompRefTypeCdf 5x3 DEFAULT_COMP_REF_TYPE_CDF
CflSignCdf 9 DEFAULT_CFL_SIGN_CDF
UniCompRefCdf 3x3x3 DEFAULT_UNI_COMP_REF_CDF
WedgeInterIntraCdf 22x3 DEFAULT_WEDGE_INTER_INTRA_CDF
CompGroupIdxCdf 6x3 DEFAULT_COMP_GROUP_IDX_CDF
CompoundIdxCdf 6x3 DEFAULT_COMPOUND_IDX_CDF
CompoundTypeCdf 22x3 DEFAULT_COMPOUND_TYPE_CDF
InterIntraModeCdf 3x5 DEFAULT_INTER_INTRA_MODE_CDF
WedgeIndexCdf 22x17 DEFAULT_WEDGE_INDEX_CDF
CflAlphaCdf 6x17 DEFAULT_CFL_ALPHA_CDF
UseWienerCdf 3 DEFAULT_USE_WIENER_CDF
UseSgrprojCdf 3 DEFAULT_USE_SGRPROJ_CDF
RestorationTypeCdf 4 DEFAULT_RESTORATION_TYPE_CDF
TxbSkipCdf 5x13x3 DEFAULT_TXB_SKIP_CDF q
EobPt16Cdf 2x2x6 DEFAULT_EOB_PT_16_CDF q
EobPt32Cdf 2x2x7 DEFAULT_EOB_PT_32_CDF q
EobPt64Cdf 2x2x8 DEFAULT_EOB_PT_64_CDF q
EobPt128Cdf 2x2x9 DEFAULT_EOB_PT_128_CDF q
EobPt256Cdf 2x2x10 DEFAULT_EOB_PT_256_CDF q
EobPt512Cdf 2x11 DEFAULT_EOB_PT_512_CDF q
EobPt1024Cdf 2x12 DEFAULT_EOB_PT_1024_CDF q
EobExtraCdf 5x2x9x3 DEFAULT_EOB_EXTRA_CDF q
DcSignCdf 2x3x3 DEFAULT_DC_SIGN_CDF q
CoeffBaseEobCdf 5x2x4x4 DEFAULT_COEFF_BASE_EOB_CDF q
CoeffBaseCdf 5x2x42x5 DEFAULT_COEFF_BASE_CDF q
CoeffBrCdf 5x2x21x5 DEFAULT_COEFF_BR_CDF q'''
rows = []
for l in T.split('\n'):
    f = l.split()
    rows.append((f[0], f[1].split('x'), f[2], f[3] if len(f) > 3 else ''))

def idx(kind):
    if kind == 'mv': return ['[0]', '[1]']
    if kind == 'mvcomp': return ['[0][0]', '[0][1]', '[1][0]', '[1][1]']
    if kind == 'lf': return ['[0]', '[1]', '[2]', '[3]']
    return ['']

st = open('/repo/internal/state/state.go').read()
area = st[st.index('type MemoryArea struct'):]
fields = re.findall(r'^\t(\w+Cdf)\s', area[:area.index('\n}')], re.M)
rows = [r for r in rows if r[0] in fields]
assert sorted(fields) == sorted(r[0] for r in rows), set(fields) ^ set(r[0] for r in rows)
names = [r[0] for r in rows]

def w(path, s):
    open(V + path, 'w').write(s)

def view(name, pre):
    return f'func {name}(s *State) MemoryArea {{\n\treturn MemoryArea{{\n' + ''.join(f'\t\t{n}: s.{pre}{n},\n' for n in names) + '\t}\n}\n'

def mods(pre):
    return '\tvs.Modifies(' + ',\n\t\t'.join(f'&s.{pre}{n}' for n in names) + ')\n'

w('state/state.go', '''package state

// The probability tables as one value. Written by gen/cdf_contracts.py.

import (
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// ZzCdf: the entries of a table of n symbols are a cumulative distribution and a counter.
func ZzCdf(cdf []int, n int) bool {
	ok := len(cdf) == n+1 && cdf[0] >= 1 && cdf[n-1] == 32768 && 0 <= cdf[n] && cdf[n] <= 32
	for i := 0; i+1 < n; i++ {
		ok = ok && cdf[i] <= cdf[i+1]
	}
	return ok
}

// ZzFrame: the tables of the frame.
''' + view('ZzFrame', '') + '\n// ZzTile: the tables of the tile being read.\n' + view('ZzTile', 'Tile') +
'\n// ZzSaved: the tables kept for the end of the frame.\n' + view('ZzSaved', 'Saved') + '''
// ZzKept: the tables of a memory area.
func ZzKept(a *MemoryArea) MemoryArea {
	x := *a
	x.RefOrderHint = [len(x.RefOrderHint)]int{}
	return x
}

// ZzShape: the sizes of the tables.
func ZzShape(a *MemoryArea) bool {
	ok := true
''' + ''.join(f"\tok = vs.Dims(a.{n}{i}, {', '.join(d)}) && ok\n" for n, d, _, k in rows for i in idx(k)) + '\treturn ok\n}\n')

def eqd(n, k, d, q):
    return ''.join(f'\tvs.Ensures("{n}{i}", vs.Eq(s.{n}{i}, {d}{"[" + q + "]" if k == "q" else ""}))\n' for i in idx(k))

def modsOf(sel):
    return '\tvs.Modifies(' + ',\n\t\t'.join(f'&s.{n}' for n, _, _, k in rows if sel(k)) + ')\n'

lem = ''
for n, d, D, k in rows:
    dd = (['4'] if k == 'q' else []) + d
    lem += f'\tvs.Ensures("{n}", zzTable{len(dd)}({D}, {", ".join(dd)}))\n'
fn = '''
func zzTable1(t []int, n int) bool { return state.ZzCdf(t, n-1) && t[n-1] == 0 }
'''
for k in range(2, 6):
    ps = ', '.join(f'n{i}' for i in range(k))
    rest = ', '.join(f'n{i}' for i in range(1, k))
    fn += f'''
func zzTable{k}(t {'[]' * k}int, {ps} int) bool {{
	ok := len(t) == n0
	for i := range t {{
		ok = ok && zzTable{k - 1}(t[i], {rest})
	}}
	return ok
}}
'''
w('uncompressedheader/cdf.go', '''package uncompressedheader

// Contracts for the probability tables. Written by gen/cdf_contracts.py.

import (
	"github.com/m4tthewde/gov1/internal/state"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)
''' + fn + '''
// Every row of every default table is a distribution over its symbols, and every table has the format's number of rows.
//
//@ lemma: default tables
//@ property: C19
func zzDefaults() {
''' + lem + '''}

//@ contract: initNonCoeffCdfs
//@ property: C19
func zzInitNonCoeffCdfs(s *state.State) {
''' + modsOf(lambda k: k != 'q') + '\tinitNonCoeffCdfs(s)\n' + ''.join(eqd(n, k, d, '') for n, _, d, k in rows if k != 'q') + '''}

//@ contract: initCoeffCdfs
//@ property: C19
func zzInitCoeffCdfs(s *state.State, uh UncompressedHeader) {
	vs.Requires(0 <= uh.BaseQIdx && uh.BaseQIdx <= 255)
''' + modsOf(lambda k: k == 'q') + '''	q := 0
	for _, bound := range []int{20, 60, 120} {
		if uh.BaseQIdx > bound {
			q++
		}
	}
	vs.Split(q, 0, 3)
	initCoeffCdfs(s, uh)
''' + ''.join(eqd(n, k, d, 'q') for n, _, d, k in rows if k == 'q') + '''}

//@ contract: SaveCdfs
//@ property: C19
func zzSaveCdfs(ctx int, s *state.State) {
	vs.Requires(0 <= ctx && ctx <= 7)
	vs.Split(ctx, 0, 7)
	frame := state.ZzFrame(s)
	vs.Requires(state.ZzShape(&frame))
	vs.Modifies(&s.Memory[ctx])
	SaveCdfs(ctx, s)
	vs.Ensures("every table is kept", vs.Eq(state.ZzKept(&s.Memory[ctx]), frame))
}

//@ contract: LoadCdfs
//@ property: C19
func zzLoadCdfs(ctx int, s *state.State) {
	vs.Requires(0 <= ctx && ctx <= 7)
	vs.Split(ctx, 0, 7)
	vs.Requires(state.ZzShape(&s.Memory[ctx]))
''' + mods('') + '''	LoadCdfs(ctx, s)
	vs.Ensures("every table comes back", vs.Eq(state.ZzFrame(s), state.ZzKept(&s.Memory[ctx])))
}
''')

w('tilegroup/cdf.go', '''package tilegroup

// Contracts for the tile's probability tables and the symbol decoder's bounds. Written by gen/cdf_contracts.py.

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

//@ contract: TileGroup.frameEndUpdateCdf
//@ property: C19
func zzFrameEndUpdateCdf(t *TileGroup, s *state.State) {
	saved := state.ZzSaved(s)
	vs.Requires(state.ZzShape(&saved))
''' + mods('') + '''	t.frameEndUpdateCdf(s)
	vs.Ensures("every table is the saved one", vs.Eq(state.ZzFrame(s), saved))
}

//@ contract: TileGroup.exitSymbol
//@ property: C19
func zzExitSymbol(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	vs.Requires(s.SymbolMaxBits >= -14 && s.SymbolMaxBits <= 1<<40 && 0 <= b.Position && b.Position <= 1<<40)
	tile, saved, p := state.ZzTile(s), state.ZzSaved(s), b.Position
	vs.Requires(state.ZzShape(&tile) && state.ZzShape(&saved))
	vs.SplitBool(!uh.DisableFrameEndUpdateCdf && s.TileNum == uh.TileInfo.ContextUpdateTileId)
''' + mods('Saved').rstrip(')\n') + ''', &b.Position)
	t.exitSymbol(b, s, uh)
	vs.Ensures("the tile's data is used up", b.Position == p+util.Max(0, s.SymbolMaxBits))
	if !uh.DisableFrameEndUpdateCdf && s.TileNum == uh.TileInfo.ContextUpdateTileId {
		vs.Ensures("every table is kept", vs.Eq(state.ZzSaved(s), tile))
	} else {
		vs.Ensures("no table is kept", vs.Eq(state.ZzSaved(s), saved))
	}
}

//@ contract: TileGroup.initSymbol
//@ property: C19
func zzInitSymbol(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State) {
	vs.Requires(1 <= sz && sz <= 1<<36 && 0 <= b.Position && b.Position+8*sz <= 8*len(b.Data))
	frame := state.ZzFrame(s)
	vs.Requires(state.ZzShape(&frame))
''' + mods('Tile').rstrip(')\n') + ''', &s.SymbolValue, &s.SymbolRange, &s.SymbolMaxBits, &b.Position)
	p := b.Position
	t.initSymbol(sz, b, s)
	num := util.Min(8*sz, 15)
	vs.Ensures("bits read", b.Position == p+num)
	vs.Ensures("bits left", s.SymbolMaxBits == 8*sz-15)
	vs.Ensures("range", s.SymbolRange == 32768)
	vs.Ensures("value", s.SymbolValue == 32767-bitstream.Zz_Bits(b.Data, p, num)*(1<<(15-num)))
	vs.Ensures("ready for the first symbol", 0 <= s.SymbolValue && s.SymbolValue < 32768)
	vs.Ensures("the frame's tables", vs.Eq(state.ZzTile(s), frame))
	vs.Ensures("on copies of them", vs.Apart(state.ZzTile(s), frame))
}
''')
