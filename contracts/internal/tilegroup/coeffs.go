package tilegroup

// Contracts for transform types, scan orders and coefficient contexts (sections 5.11.39 to 5.11.48 and 8.3.2 of the format).

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// zzTx: the size with these dimensions (log2), -1 if there is none.
func zzTx(w, h int) int {
	r := -1
	for i := 0; i < 19; i++ {
		if zzTxDims[i][0] == w && zzTxDims[i][1] == h {
			r = i
		}
	}
	return r
}

// zzScan: the order of a block of these dimensions. Kind 0 follows the diagonals (alternately in square blocks,
// away from the longer side in others), 1 the rows, 2 the columns.
//
//@ memo:
func zzScan(w, h, kind int) [1024]int {
	var r [1024]int
	c := 0
	if kind == 1 {
		for i := 0; i < w*h; i++ {
			r[i] = i
		}
	} else if kind == 2 {
		for i := 0; i < w; i++ {
			for j := 0; j < h; j++ {
				r[c] = j*w + i
				c++
			}
		}
	} else {
		for d := 0; d < w+h-1; d++ {
			up := w > h || w == h && d%2 == 0
			for k := 0; k <= d; k++ {
				y := k
				if up {
					y = d - k
				}
				if y < h && d-y < w {
					r[c] = y*w + d - y
					c++
				}
			}
		}
	}
	return r
}

// zzClass: 1 for the types that transform rows only, 2 for those that transform columns only.
func zzClass(typ int) int {
	if typ < 10 {
		return 0
	}
	return 2 - typ%2
}

//@ contract: TileGroup.getScan
//@ property: C23
func zzGetScan(t *TileGroup, txSz int) {
	vs.Requires(0 <= txSz && txSz < 19 && 0 <= t.PlaneTxType && t.PlaneTxType < 16)
	vs.Split(txSz, 0, 18)
	vs.Split(t.PlaneTxType, 0, 15)
	vs.Requires(zzTxAllowed(txSz, t.PlaneTxType))
	s := t.getScan(txSz)
	w, h := 1<<util.Min(5, zzTxDims[txSz][0]), 1<<util.Min(5, zzTxDims[txSz][1])
	kind := zzClass(t.PlaneTxType)
	if kind != 0 {
		kind = 3 - kind
	}
	want := zzScan(w, h, kind)
	vs.Ensures("length", len(s) == w*h)
	for i := 0; i < w*h; i++ {
		vs.Ensures("order", s[i] == want[i])
	}
}

//@ contract: getTxClass
//@ property: C23
func zzGetTxClass(txType int) {
	vs.Requires(0 <= txType && txType < 16)
	r := getTxClass(txType)
	vs.Ensures("class", r == zzClass(txType))
}

// zzSet: the set of transform types of a size; 0 is DCT only.
func zzSet(txSz int, inter, reduced bool) int {
	lo, hi := util.Min(zzTxDims[txSz][0], zzTxDims[txSz][1]), util.Max(zzTxDims[txSz][0], zzTxDims[txSz][1])
	if hi == 6 || hi == 5 && !inter {
		return 0
	}
	if inter {
		if reduced || hi == 5 {
			return 3
		}
		return 1 + util.Int(lo == 4)
	}
	return 1 + util.Int(reduced || lo == 4)
}

// zzInSet: DCT and ADST in both directions belong to every set but the DCT-only one and the inter set of two.
func zzInSet(set int, inter bool, typ int) bool {
	if set == 0 {
		return typ == 0
	}
	if inter {
		return set == 1 || set == 2 && typ < 12 || set == 3 && (typ == 0 || typ == 9)
	}
	return typ < 4 || typ == 9 || set == 1 && (typ == 10 || typ == 11)
}

//@ contract: TileGroup.getTxSet
//@ property: C23
func zzGetTxSet(t *TileGroup, txSz int, uh uncompressedheader.UncompressedHeader) {
	vs.Requires(0 <= txSz && txSz < 19 && (t.IsInter == 0 || t.IsInter == 1))
	r := t.getTxSet(txSz, uh)
	vs.Ensures("set", r == zzSet(txSz, t.IsInter == 1, uh.ReducedTxSet))
}

//@ contract: TileGroup.isTxTypeInSet
//@ property: C23
func zzIsTxTypeInSet(t *TileGroup, txSet int, txType int) {
	vs.Requires((t.IsInter == 0 || t.IsInter == 1) && 0 <= txSet && txSet <= 2+t.IsInter && 0 <= txType && txType < 16)
	r := t.isTxTypeInSet(txSet, txType)
	vs.Ensures("member", r == zzInSet(txSet, t.IsInter == 1, txType))
}

// Rows and columns of each intra mode: whether the DCT (0) or the ADST (1) suits its residual.
var zzModeAdst = [14][2]int{{0, 0}, {1, 0}, {0, 1}, {0, 0}, {1, 1}, {1, 0}, {0, 1}, {0, 1}, {1, 0}, {1, 1}, {1, 0}, {0, 1}, {1, 1}, {0, 0}}

func zzTypeOf(t *TileGroup, plane, txSz, blockX, blockY int, s *state.State, uh *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) int {
	if t.Lossless || util.Max(zzTxDims[txSz][0], zzTxDims[txSz][1]) == 6 {
		return 0
	}
	if plane == 0 {
		return t.TxTypes[blockY][blockX]
	}
	set := zzSet(txSz, t.IsInter == 1, uh.ReducedTxSet)
	typ := 0
	if t.IsInter == 1 {
		x4 := util.Max(s.MiCol, blockX*(1+util.Int(sh.ColorConfig.SubsamplingX)))
		y4 := util.Max(s.MiRow, blockY*(1+util.Int(sh.ColorConfig.SubsamplingY)))
		typ = t.TxTypes[y4][x4]
	} else {
		typ = zzModeAdst[t.UVMode][0] + 2*zzModeAdst[t.UVMode][1]
	}
	if !zzInSet(set, t.IsInter == 1, typ) {
		return 0
	}
	return typ
}

func zzTypeOk(t *TileGroup, plane, txSz, blockX, blockY int, s *state.State, sh *sequenceheader.SequenceHeader) bool {
	ok := 0 <= plane && plane <= 2 && 0 <= txSz && txSz < 19 && (t.IsInter == 0 || t.IsInter == 1) && 0 <= t.UVMode && t.UVMode < 14 &&
		0 <= blockX && blockX <= 1 && 0 <= blockY && blockY <= 1 && 0 <= s.MiRow && s.MiRow <= 1 && 0 <= s.MiCol && s.MiCol <= 1 &&
		(plane == 0 || blockX*(1+util.Int(sh.ColorConfig.SubsamplingX)) <= 1 && blockY*(1+util.Int(sh.ColorConfig.SubsamplingY)) <= 1)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			ok = ok && 0 <= t.TxTypes[i][j] && t.TxTypes[i][j] < 16
		}
	}
	return ok
}

//@ contract: TileGroup.computeTxType
//@ property: C23
func zzComputeTxType(t *TileGroup, plane int, txSz int, blockX int, blockY int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzTypeOk(t, plane, txSz, blockX, blockY, state, &sh))
	r := t.computeTxType(plane, txSz, blockX, blockY, state, uh, sh)
	vs.Ensures("type", r == zzTypeOf(t, plane, txSz, blockX, blockY, state, &uh, &sh))
	vs.Ensures("range", 0 <= r && r < 16)
}

//@ contract: TileGroup.getEobPtCtx
//@ property: C23
func zzGetEobPtCtx(t *TileGroup, plane int, txSz int, x4 int, y4 int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzTypeOk(t, plane, txSz, x4, y4, state, &sh))
	r := t.getEobPtCtx(plane, txSz, x4, y4, state, uh, sh)
	vs.Ensures("context", r == util.Int(zzClass(zzTypeOf(t, plane, txSz, x4, y4, state, &uh, &sh)) != 0))
}

// Neighbours whose levels choose the context of a coefficient, by class: first three for the range, all for the base.
var zzNear = [3][5][2]int{
	{{0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}},
	{{0, 1}, {1, 0}, {0, 2}, {0, 3}, {0, 4}},
	{{0, 1}, {1, 0}, {2, 0}, {3, 0}, {4, 0}},
}

// zzLevels: the sum of the first n neighbours' levels, each limited.
func zzLevels(t *TileGroup, w, h, class, row, col, n, max int) int {
	sum := 0
	for i := 0; i < n; i++ {
		y, x := row+zzNear[class][i][0], col+zzNear[class][i][1]
		if y < h && x < w {
			sum += util.Min(t.Quant[y*w+x], max)
		}
	}
	return sum
}

// zzBaseOffset: where the contexts of a position in a two-dimensional block start.
func zzBaseOffset(lw, lh, row, col int) int {
	if lw == lh {
		if row+col < 2 {
			return row + col
		}
		return 6 + 15*util.Int(row+col > 3)
	}
	if lw < lh && row < 2 {
		return 11
	}
	if lw > lh && col < 2 {
		return 16
	}
	return 6 + 15*util.Int(row+col > 3)
}

//@ contract: TileGroup.getCoeffBaseCtx
//@ property: C23
func zzGetCoeffBaseCtx(t *TileGroup, txSz int, plane int, blockX int, blockY int, pos int, c int, isEob bool, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzTypeOk(t, plane, txSz, blockX, blockY, state, &sh))
	vs.Split(txSz, 0, 18)
	lw, lh := util.Min(5, zzTxDims[txSz][0]), util.Min(5, zzTxDims[txSz][1])
	w, h := 1<<lw, 1<<lh
	vs.Requires(0 <= pos && pos < w*h && 0 <= c && c < w*h)
	row, col := pos/w, pos%w
	vs.Requires((row < 5 || row >= h-3) && (col < 5 || col >= w-3))
	vs.Split(pos, 0, w*h-1)
	vs.SplitBool(isEob)
	vs.Requires(!isEob || pos == 0)
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			if row+i < h && col+j < w {
				vs.Requires(0 <= t.Quant[(row+i)*w+col+j] && t.Quant[(row+i)*w+col+j] <= 15)
			}
		}
	}
	r := t.getCoeffBaseCtx(txSz, plane, blockX, blockY, pos, c, isEob, state, uh, sh)
	if isEob {
		vs.Ensures("last coefficient", r == 38+util.Int(c > 0)+util.Int(c > w*h/8)+util.Int(c > w*h/4))
		return
	}
	class := zzClass(zzTypeOf(t, plane, txSz, blockX, blockY, state, &uh, &sh))
	ctx := util.Min((zzLevels(t, w, h, class, row, col, 5, 3)+1)/2, 4)
	if class == 0 {
		want := ctx + zzBaseOffset(zzTxDims[txSz][0], zzTxDims[txSz][1], row, col)
		if pos == 0 {
			want = 0
		}
		vs.Ensures("two-dimensional", r == want)
	} else {
		k := col
		if class == 2 {
			k = row
		}
		vs.Ensures("one-dimensional", r == 26+5*util.Min(k, 2)+ctx)
	}
}

//@ contract: TileGroup.readDcSignSymbol
//@ property: C23
func zzReadDcSign(t *TileGroup, plane int, w4 int, h4 int, x4 int, y4 int, ptype int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= plane && plane <= 2 && ptype == util.Int(plane > 0) && zzUnits(w4) && zzUnits(h4) && 0 <= x4 && 0 <= y4 && x4+w4 <= 32 && y4+h4 <= 32)
	vs.Split(plane, 0, 2)
	vs.Split(w4, 1, 16)
	vs.Split(h4, 1, 16)
	vs.Requires(0 <= state.MiCols && state.MiCols <= 1<<16 && state.MiCols%2 == 0 && 0 <= state.MiRows && state.MiRows <= 1<<16 && state.MiRows%2 == 0)
	vs.Requires(vs.Dims(t.AboveDcContext, 3, 32) && vs.Dims(t.LeftDcContext[plane], 32))
	sum := 0
	ssx, ssy := util.Int(plane > 0 && sh.ColorConfig.SubsamplingX), util.Int(plane > 0 && sh.ColorConfig.SubsamplingY)
	for k := 0; k < w4; k++ {
		if x4+k < state.MiCols>>ssx {
			sum += zzSign(t.AboveDcContext[plane][x4+k])
		}
	}
	for k := 0; k < h4; k++ {
		if y4+k < state.MiRows>>ssy {
			sum += zzSign(t.LeftDcContext[plane][y4+k])
		}
	}
	ctx := 0
	if sum < 0 {
		ctx = 1
	} else if sum > 0 {
		ctx = 2
	}
	vs.Requires(vs.Dims(state.TileDcSignCdf, 2, 3, 3))
	vs.Split(ctx, 0, 2)
	cdf := state.TileDcSignCdf[ptype][ctx]
	vs.Requires(symbol.ZzSymOk(cdf, state, b))
	want := symbol.ZzSym(cdf, state.SymbolRange, state.SymbolValue)
	vs.Modifies(cdf, &state.SymbolRange, &state.SymbolValue, &state.SymbolMaxBits, &b.Position)
	r := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
	vs.Ensures("a symbol of the context's table", r == want)
}

func zzSign(category int) int {
	if category == 1 {
		return -1
	} else if category == 2 {
		return 1
	}
	return 0
}

// zzUnits: the side of a transform block in units of four samples.
func zzUnits(n int) bool { return n == 1 || n == 2 || n == 4 || n == 8 || n == 16 }

//@ contract: TileGroup.readCoeffBrSymbol
//@ property: C23
func zzReadCoeffBr(t *TileGroup, txSz int, pos int, plane int, x4 int, y4 int, txSzCtx int, ptype int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzTypeOk(t, plane, txSz, x4, y4, state, &sh) && ptype == util.Int(plane > 0) && 0 <= txSzCtx && txSzCtx <= 4)
	vs.Split(txSz, 0, 18)
	vs.Requires(txSz == 0 || txSz == 4 || txSz == 5 || txSz == 12 || txSz == 14 || txSz == 15 || txSz == 17)
	vs.Split(txSzCtx, 0, 4)
	vs.Requires(txSzCtx == (zzTxDims[txSz][0]+zzTxDims[txSz][1]-3)/2)
	lw, lh := util.Min(5, zzTxDims[txSz][0]), util.Min(5, zzTxDims[txSz][1])
	w, h := 1<<lw, 1<<lh
	row, col := pos/w, pos%w
	vs.Requires(0 <= pos && pos < w*h && (row < 3 || row == h-1) && (col < 3 || col == w-1))
	vs.Split(pos, 0, w*h-1)
	vs.Requires(ptype == (txSz+row+col)%2)
	vs.Split(ptype, 0, 1)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if row+i < h && col+j < w {
				vs.Requires(0 <= t.Quant[(row+i)*w+col+j] && t.Quant[(row+i)*w+col+j] <= 15)
			}
		}
	}
	class := zzClass(zzTypeOf(t, plane, txSz, x4, y4, state, &uh, &sh))
	ctx := util.Min((zzLevels(t, w, h, class, row, col, 3, 15)+1)/2, 6)
	if pos > 0 {
		near := row < 2 && col < 2
		if class == 1 {
			near = col == 0
		} else if class == 2 {
			near = row == 0
		}
		ctx += 14 - 7*util.Int(near)
	}
	vs.Requires(vs.Dims(state.TileCoeffBrCdf, 5, 2, 21, 5))
	vs.Split(ctx, 0, 20)
	cdf := state.TileCoeffBrCdf[util.Min(txSzCtx, 3)][ptype][ctx]
	vs.Requires(symbol.ZzSymOk(cdf, state, b))
	want := symbol.ZzSym(cdf, state.SymbolRange, state.SymbolValue)
	vs.Modifies(cdf, &state.SymbolRange, &state.SymbolValue, &state.SymbolMaxBits, &b.Position)
	r := t.readCoeffBrSymbol(txSz, pos, plane, x4, y4, txSzCtx, ptype, state, b, uh, sh)
	vs.Ensures("a symbol of the context's table", r == want)
}

//@ contract: TileGroup.allZeroSymbol
//@ property: C23
func zzAllZero(t *TileGroup, plane int, txSz int, w4 int, h4 int, x4 int, y4 int, txSzCtx int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= plane && plane <= 2 && 0 <= txSz && txSz < 19 && 0 <= state.MiSize && state.MiSize < 22 && 0 <= txSzCtx && txSzCtx <= 4)
	vs.Split(plane, 0, 2)
	vs.Split(txSz, 0, 18)
	vs.Split(txSzCtx, 0, 4)
	vs.Requires(w4 == 1<<(zzTxDims[txSz][0]-2) && h4 == 1<<(zzTxDims[txSz][1]-2) && 0 <= x4 && x4+w4 <= 32 && 0 <= y4 && y4+h4 <= 32)
	vs.Requires(txSzCtx == (zzTxDims[txSz][0]+zzTxDims[txSz][1]-3)/2)
	vs.Split(w4, 1, 16)
	vs.Split(h4, 1, 16)
	vs.Requires(0 <= state.MiCols && state.MiCols <= 1<<16 && state.MiCols%2 == 0 && 0 <= state.MiRows && state.MiRows <= 1<<16 && state.MiRows%2 == 0)
	vs.Requires(vs.Dims(t.AboveDcContext, 3, 32) && vs.Dims(t.LeftDcContext[plane], 32) && vs.Dims(t.AboveLevelContext, 3, 32) && vs.Dims(t.LeftLevelContext, 3, 32))
	ssx, ssy := util.Int(plane > 0 && sh.ColorConfig.SubsamplingX), util.Int(plane > 0 && sh.ColorConfig.SubsamplingY)
	vs.Requires(ssx >= ssy)
	above, left := 0, 0
	for k := 0; k < w4; k++ {
		vs.Requires(0 <= t.AboveLevelContext[plane][x4+k] && t.AboveLevelContext[plane][x4+k] <= 63 && 0 <= t.AboveDcContext[plane][x4+k] && t.AboveDcContext[plane][x4+k] <= 2)
		if x4+k < state.MiCols>>ssx {
			above = util.Max(above, t.AboveLevelContext[plane][x4+k])
			if plane > 0 {
				above = util.Max(above, t.AboveDcContext[plane][x4+k])
			}
		}
	}
	for k := 0; k < h4; k++ {
		vs.Requires(0 <= t.LeftLevelContext[plane][y4+k] && t.LeftLevelContext[plane][y4+k] <= 63 && 0 <= t.LeftDcContext[plane][y4+k] && t.LeftDcContext[plane][y4+k] <= 2)
		if y4+k < state.MiRows>>ssy {
			left = util.Max(left, t.LeftLevelContext[plane][y4+k])
			if plane > 0 {
				left = util.Max(left, t.LeftDcContext[plane][y4+k])
			}
		}
	}
	// the block in the plane
	bw, bh := util.Max(zzBlockDims[state.MiSize][0]-ssx, 2), util.Max(zzBlockDims[state.MiSize][1]-ssy, 2)
	vs.Requires(ssx == ssy || bw >= bh)
	ctx := 0
	if plane > 0 {
		ctx = 7 + util.Int(above > 0) + util.Int(left > 0) + 3*util.Int(bw+bh > zzTxDims[txSz][0]+zzTxDims[txSz][1])
	} else if bw != zzTxDims[txSz][0] || bh != zzTxDims[txSz][1] {
		// none, little (up to 3) or much on each side
		a, l := zzMuch(above), zzMuch(left)
		ctx = [3][3]int{{1, 2, 3}, {2, 4, 5}, {3, 5, 6}}[a][l]
	}
	vs.Requires(vs.Dims(state.TileTxbSkipCdf, 5, 13, 3))
	vs.Split(ctx, 0, 12)
	cdf := state.TileTxbSkipCdf[txSzCtx][ctx]
	vs.Requires(symbol.ZzSymOk(cdf, state, b))
	want := symbol.ZzSym(cdf, state.SymbolRange, state.SymbolValue)
	vs.Modifies(cdf, &state.SymbolRange, &state.SymbolValue, &state.SymbolMaxBits, &b.Position)
	r := t.allZeroSymbol(plane, txSz, w4, h4, x4, y4, txSzCtx, state, b, uh, sh)
	vs.Ensures("a symbol of the context's table", r == want)
}

func zzMuch(level int) int { return util.Int(level > 0) + util.Int(level > 3) }

// Width and height (log2) of the block sizes.
var zzBlockDims = [22][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {4, 5}, {5, 4}, {5, 5}, {5, 6}, {6, 5}, {6, 6}, {6, 7}, {7, 6}, {7, 7},
	{2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

//@ contract: TileGroup.intraTxTypeSymbol
//@ property: C23
func zzIntraTxType(t *TileGroup, set int, txSz int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
	vs.Requires(1 <= set && set <= 2 && 0 <= txSz && txSz < 19 && 0 <= t.YMode && t.YMode < 13 && 0 <= t.FilterIntraMode && t.FilterIntraMode < 5)
	size := util.Min(zzTxDims[txSz][0], zzTxDims[txSz][1]) - 2
	vs.Requires(size <= 2)
	mode := t.YMode
	if t.UseFilterIntra {
		mode = [5]int{0, 1, 2, 6, 0}[t.FilterIntraMode]
	}
	vs.Requires(vs.Dims(state.TileIntraTxTypeSet1Cdf, 2, 13, 8) && vs.Dims(state.TileIntraTxTypeSet2Cdf, 3, 13, 6))
	vs.Split(set, 1, 2)
	vs.Split(mode, 0, 12)
	vs.Split(size, 0, 2)
	vs.Requires(size <= set)
	tables := state.TileIntraTxTypeSet1Cdf
	if set == 2 {
		tables = state.TileIntraTxTypeSet2Cdf
	}
	cdf := tables[size][mode]
	vs.Requires(symbol.ZzSymOk(cdf, state, b))
	want := symbol.ZzSym(cdf, state.SymbolRange, state.SymbolValue)
	vs.Modifies(cdf, &state.SymbolRange, &state.SymbolValue, &state.SymbolMaxBits, &b.Position)
	r := t.intraTxTypeSymbol(set, txSz, state, b, uh)
	vs.Ensures("a symbol of the mode's table", r == want && 0 <= r && r < 9-2*set)
	vs.Ensures("ready for the next symbol", symbol.ZzReady(state, b))
}

// The types of each set in the order of their symbols: intra sets 1 and 2, inter sets 1 to 3.
var zzSymTypes = [5][16]int{
	{9, 0, 10, 11, 3, 1, 2}, {9, 0, 3, 1, 2},
	{9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 4, 5, 3, 6, 7, 8}, {9, 10, 11, 0, 1, 2, 4, 5, 3, 6, 7, 8}, {9, 0},
}

//@ contract: TileGroup.transformType
//@ property: C23
func zzTransformType(t *TileGroup, x4 int, y4 int, txSz int, uh uncompressedheader.UncompressedHeader, state *state.State, b *bitstream.BitStream) {
	vs.Requires(0 <= txSz && txSz < 19 && 0 <= t.YMode && t.YMode < 13 && 0 <= t.FilterIntraMode && t.FilterIntraMode < 5 && (t.IsInter == 0 || t.IsInter == 1))
	// the repository keeps the types of 2x2 units
	w4, h4 := 1<<(zzTxDims[txSz][0]-2), 1<<(zzTxDims[txSz][1]-2)
	vs.Requires(0 <= x4 && x4+w4 <= 2 && 0 <= y4 && y4+h4 <= 2)
	vs.Split(txSz, 0, 18)
	vs.Split(x4, 0, 1)
	vs.Split(y4, 0, 1)
	vs.Requires(0 <= t.SegmentId && t.SegmentId < 8 && 0 <= uh.BaseQIdx && uh.BaseQIdx <= 255 && 0 <= state.CurrentQIndex && state.CurrentQIndex <= 255)
	vs.Requires(-255 <= state.FeatureData[t.SegmentId][0] && state.FeatureData[t.SegmentId][0] <= 255)
	vs.Split(t.IsInter, 0, 1)
	set := zzSet(txSz, t.IsInter == 1, uh.ReducedTxSet)
	vs.Split(set, 0, 3)
	q := uh.BaseQIdx
	if uh.SegmentationEnabled && state.FeatureEnabled[t.SegmentId][0] != 0 {
		q = util.Clip3(0, 255, q+state.FeatureData[t.SegmentId][0])
	}
	coded := set > 0 && q > 0
	vs.SplitBool(coded)
	mode := t.YMode
	if t.UseFilterIntra {
		mode = [5]int{0, 1, 2, 6, 0}[t.FilterIntraMode]
	}
	vs.Split(mode, 0, 12)
	size := util.Min(zzTxDims[txSz][0], zzTxDims[txSz][1]) - 2
	vs.Requires(vs.Dims(state.TileIntraTxTypeSet1Cdf, 2, 13, 8) && vs.Dims(state.TileIntraTxTypeSet2Cdf, 3, 13, 6))
	vs.Requires(vs.Dims(state.TileInterTxTypeSet1Cdf, 2, 17) && vs.Dims(state.TileInterTxTypeSet2Cdf, 13) && vs.Dims(state.TileInterTxTypeSet3Cdf, 4, 3))
	old := vs.Snap(t.TxTypes)
	want := 0
	if coded {
		var cdf []int
		k := set - 1
		if t.IsInter == 1 {
			k = set + 1
			if set == 1 {
				cdf = state.TileInterTxTypeSet1Cdf[size]
			} else if set == 2 {
				cdf = state.TileInterTxTypeSet2Cdf
			} else {
				cdf = state.TileInterTxTypeSet3Cdf[size]
			}
		} else if set == 1 {
			cdf = state.TileIntraTxTypeSet1Cdf[size][mode]
		} else {
			cdf = state.TileIntraTxTypeSet2Cdf[size][mode]
		}
		vs.Requires(symbol.ZzSymOk(cdf, state, b))
		want = zzSymTypes[k][symbol.ZzSym(cdf, state.SymbolRange, state.SymbolValue)]
		vs.Modifies(cdf, &state.SymbolRange, &state.SymbolValue, &state.SymbolMaxBits, &b.Position)
	}
	vs.Modifies(&t.TxType, &t.TxTypes)
	t.transformType(x4, y4, txSz, uh, state, b)
	vs.Ensures("type", t.TxType == want && 0 <= want && want < 16)
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if y4 <= i && i < y4+h4 && x4 <= j && j < x4+w4 {
				vs.Ensures("stored in the block", t.TxTypes[i][j] == want)
			} else {
				vs.Ensures("other blocks", t.TxTypes[i][j] == old[i][j])
			}
		}
	}
}
