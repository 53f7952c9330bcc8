package tileinfo

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// C07: the tile layout.

// Zz_K is an arbitrary tile index: what holds for it holds for all of them.
//
//@ opaque: K
func Zz_K() int { return vs.Ghost() }

func Zz_K_range() (int, int) { return 0, 1 << 20 }

// Zz_TS: first superblock of explicitly sized tile k; Zz_TP: bit position after the sizes of k tiles.
// The sizes of a dimension of n superblocks are non-symmetric codes limited by max and by what is left.
//
//@ opaque: TS
func Zz_TS(data []byte, pos, n, max, k int) int {
	if v, ok := vs.Cached("TS", pos, n, max, k); ok {
		return v
	}
	if k <= 0 {
		return 0
	}
	s := Zz_TS(data, pos, n, max, k-1)
	if s >= n {
		return vs.Cache(s, "TS", pos, n, max, k)
	}
	return vs.Cache(s + 1 + bitstream.Zz_NsVal(data, Zz_TP(data, pos, n, max, k-1), zzLess(n-s, max)), "TS", pos, n, max, k)
}

//@ opaque: TP
func Zz_TP(data []byte, pos, n, max, k int) int {
	if v, ok := vs.Cached("TP", pos, n, max, k); ok {
		return v
	}
	if k <= 0 {
		return pos
	}
	s := Zz_TS(data, pos, n, max, k-1)
	p := Zz_TP(data, pos, n, max, k-1)
	if s >= n {
		return vs.Cache(p, "TP", pos, n, max, k)
	}
	return vs.Cache(p + bitstream.Zz_NsLen(data, p, zzLess(n-s, max)), "TP", pos, n, max, k)
}

// Zz_TW: the widest of the first k tiles, in superblocks.
//
//@ opaque: TW
func Zz_TW(data []byte, pos, n, max, k int) int {
	if v, ok := vs.Cached("TW", pos, n, max, k); ok {
		return v
	}
	if k <= 0 {
		return 0
	}
	w := Zz_TW(data, pos, n, max, k-1)
	d := Zz_TS(data, pos, n, max, k) - Zz_TS(data, pos, n, max, k-1)
	if d > w {
		return vs.Cache(d, "TW", pos, n, max, k)
	}
	return vs.Cache(w, "TW", pos, n, max, k)
}

// Zz_Ones: the number of 1 bits before the first 0 bit at pos, at most max.
//
//@ opaque: Ones
func Zz_Ones(data []byte, pos, max int) int {
	if max <= 0 || bitstream.Zz_Bits(data, pos, 1) == 0 {
		return 0
	}
	return 1 + Zz_Ones(data, pos+1, max-1)
}

func Zz_Ones_range(data []byte, pos, max int) (int, int) { return 0, zzMore(max, 0) }

// The induction step: with the range for max-1.
//
//@ lemma: range of increments
//@ property: C07
func zzOnesRange(data []byte, pos, max int) {
	vs.Requires(pos >= 0)
	r := 0
	if max > 0 && bitstream.Zz_Bits(data, pos, 1) != 0 {
		r = 1 + Zz_Ones(data, pos+1, max-1)
	}
	vs.Ensures("range", 0 <= r && r <= zzMore(max, 0))
}

func zzLess(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func zzMore(a, b int) int {
	if a > b {
		return a
	}
	return b
}

//@ invariant: NewTileInfo#0
func zzInvColsLog2(b *bitstream.BitStream, pre_b *bitstream.BitStream, s *state.State, pre_s *state.State, maxLog2TileCols int) (bool, int) {
	vs.Unfold(Zz_Ones(b.Data, b.Position, maxLog2TileCols-s.TileColsLog2))
	k := s.TileColsLog2 - pre_s.TileColsLog2
	return k >= 0 && b.Position == pre_b.Position+k &&
		Zz_Ones(b.Data, pre_b.Position, maxLog2TileCols-pre_s.TileColsLog2) == k+Zz_Ones(b.Data, b.Position, maxLog2TileCols-s.TileColsLog2), zzMore(maxLog2TileCols-s.TileColsLog2, 0)
}

//@ invariant: NewTileInfo#2
func zzInvRowsLog2(b *bitstream.BitStream, pre_b *bitstream.BitStream, s *state.State, pre_s *state.State, maxLog2TileRows int) (bool, int) {
	vs.Unfold(Zz_Ones(b.Data, b.Position, maxLog2TileRows-s.TileRowsLog2))
	k := s.TileRowsLog2 - pre_s.TileRowsLog2
	return k >= 0 && b.Position == pre_b.Position+k &&
		Zz_Ones(b.Data, pre_b.Position, maxLog2TileRows-pre_s.TileRowsLog2) == k+Zz_Ones(b.Data, b.Position, maxLog2TileRows-s.TileRowsLog2), zzMore(maxLog2TileRows-s.TileRowsLog2, 0)
}

//@ invariant: NewTileInfo#1
func zzInvUniCols(s *state.State, i int, startSb int, sbCols int, tileWidthSb int, sbShift int) (bool, int) {
	return 0 <= i && i <= startSb && startSb == i*tileWidthSb && (i == 0 || startSb-tileWidthSb < sbCols) &&
		(Zz_K() >= i || s.MiColStarts[Zz_K()] == Zz_K()*tileWidthSb<<uint(sbShift)), zzMore(sbCols-startSb, 0)
}

//@ invariant: NewTileInfo#3
func zzInvUniRows(s *state.State, i int, startSb int, sbRows int, tileHeightSb int, sbShift int) (bool, int) {
	return 0 <= i && i <= startSb && startSb == i*tileHeightSb && (i == 0 || startSb-tileHeightSb < sbRows) &&
		(Zz_K() >= i || s.MiRowStarts[Zz_K()] == Zz_K()*tileHeightSb<<uint(sbShift)), zzMore(sbRows-startSb, 0)
}

//@ invariant: NewTileInfo#4
func zzInvCols(b *bitstream.BitStream, pre_b *bitstream.BitStream, s *state.State, i int, startSb int, widestTileSb int, sbCols int, maxTileWidthSb int, sbShift int) (bool, int) {
	p := pre_b.Position
	vs.Unfold(Zz_TS(b.Data, p, sbCols, maxTileWidthSb, i))
	vs.Unfold(Zz_TP(b.Data, p, sbCols, maxTileWidthSb, i))
	vs.Unfold(Zz_TW(b.Data, p, sbCols, maxTileWidthSb, i))
	return 0 <= i && i <= startSb && startSb <= sbCols && (i == 0 || widestTileSb >= 1) && widestTileSb <= maxTileWidthSb &&
		p <= b.Position && b.Position <= p+17*i &&
		startSb == Zz_TS(b.Data, p, sbCols, maxTileWidthSb, i) && b.Position == Zz_TP(b.Data, p, sbCols, maxTileWidthSb, i) &&
		widestTileSb == Zz_TW(b.Data, p, sbCols, maxTileWidthSb, i) &&
		(Zz_K() >= i || Zz_TS(b.Data, p, sbCols, maxTileWidthSb, Zz_K()) < startSb && s.MiColStarts[Zz_K()] == Zz_TS(b.Data, p, sbCols, maxTileWidthSb, Zz_K())<<uint(sbShift)), sbCols - startSb
}

//@ invariant: NewTileInfo#5
func zzInvRows(b *bitstream.BitStream, pre_b *bitstream.BitStream, s *state.State, i int, startSb int, sbRows int, maxTileHeightSb int, sbShift int) (bool, int) {
	p := pre_b.Position
	vs.Unfold(Zz_TS(b.Data, p, sbRows, maxTileHeightSb, i))
	vs.Unfold(Zz_TP(b.Data, p, sbRows, maxTileHeightSb, i))
	return 0 <= i && i <= startSb && startSb <= sbRows &&
		p <= b.Position && b.Position <= p+17*i &&
		startSb == Zz_TS(b.Data, p, sbRows, maxTileHeightSb, i) && b.Position == Zz_TP(b.Data, p, sbRows, maxTileHeightSb, i) &&
		(Zz_K() >= i || Zz_TS(b.Data, p, sbRows, maxTileHeightSb, Zz_K()) < startSb && s.MiRowStarts[Zz_K()] == Zz_TS(b.Data, p, sbRows, maxTileHeightSb, Zz_K())<<uint(sbShift)), sbRows - startSb
}

// zzGrid is what the format says about one frame's grid of superblocks.
type zzGrid struct {
	shift, cols, rows                  int
	maxWidth, maxArea                  int
	minColsLog2, maxColsLog2, maxRowsLog2, minTilesLog2 int
}

func zzGridOf(use128 bool, miCols, miRows int) zzGrid {
	g := zzGrid{}
	g.shift = 4
	if use128 {
		g.shift = 5
	}
	n := 1 << uint(g.shift)
	g.cols = (miCols + n - 1) / n
	g.rows = (miRows + n - 1) / n
	g.maxWidth = 4096 / (4 * n)
	g.maxArea = 4096 * 2304 / (16 * n * n)
	g.minColsLog2 = util.Zz_TL2(g.maxWidth, g.cols)
	g.maxColsLog2 = util.Zz_TL2(1, zzLess(g.cols, 64))
	g.maxRowsLog2 = util.Zz_TL2(1, zzLess(g.rows, 64))
	g.minTilesLog2 = zzMore(g.minColsLog2, util.Zz_TL2(g.maxArea, g.rows*g.cols))
	return g
}

//@ contract: NewTileInfo
//@ property: C07
//@ inline:
func zzNewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.BitStream) {
	vs.Requires(1 <= s.MiCols && s.MiCols <= 16384 && 1 <= s.MiRows && s.MiRows <= 16384)
	vs.Requires(b.Position >= 0 && b.Position+40000 <= 8*len(b.Data))
	vs.SplitBool(sh.Use128x128SuperBlock)
	vs.Modifies(&b.Position, &s.MiColStarts, &s.MiRowStarts, &s.TileCols, &s.TileRows, &s.TileColsLog2, &s.TileRowsLog2, &s.TileSizeBytes)
	g := zzGridOf(sh.Use128x128SuperBlock, s.MiCols, s.MiRows)
	r := bitstream.ZzAt(b)
	oldTSB := s.TileSizeBytes
	t := NewTileInfo(sh, s, b)
	uniform := r.B()
	k := Zz_K()
	unit := 1 << uint(g.shift)
	vs.Ensures("at least one tile", s.TileCols >= 1 && s.TileRows >= 1)
	vs.Ensures("no more tile columns than superblock columns", s.TileCols <= g.cols)
	vs.Ensures("no more tile rows than superblock rows", s.TileRows <= g.rows)
	vs.Ensures("columns end at the frame edge", s.MiColStarts[s.TileCols] == s.MiCols)
	vs.Ensures("rows end at the frame edge", s.MiRowStarts[s.TileRows] == s.MiRows)
	if uniform {
		inc := Zz_Ones(r.Data, r.Pos, g.maxColsLog2-g.minColsLog2)
		cl := g.minColsLog2 + inc
		if cl < g.maxColsLog2 {
			inc++ // the terminating 0 bit
		}
		r.Pos += inc
		vs.Ensures("signalled tile columns log2", s.TileColsLog2 == cl)
		w := (g.cols + 1<<uint(cl) - 1) >> uint(cl)
		vs.Ensures("number of tile columns", (s.TileCols-1)*w < g.cols && g.cols <= s.TileCols*w)
		vs.Ensures("column starts", k >= s.TileCols || s.MiColStarts[k] == k*w*unit)
		minRows := zzMore(g.minTilesLog2-cl, 0)
		inc = Zz_Ones(r.Data, r.Pos, g.maxRowsLog2-minRows)
		rl := minRows + inc
		if rl < g.maxRowsLog2 {
			inc++
		}
		r.Pos += inc
		vs.Ensures("signalled tile rows log2", s.TileRowsLog2 == rl)
		h := (g.rows + 1<<uint(rl) - 1) >> uint(rl)
		vs.Ensures("number of tile rows", (s.TileRows-1)*h < g.rows && g.rows <= s.TileRows*h)
		vs.Ensures("row starts", k >= s.TileRows || s.MiRowStarts[k] == k*h*unit)
	} else {
		p := r.Pos
		n := s.TileCols
		vs.Ensures("the columns cover the frame", Zz_TS(r.Data, p, g.cols, g.maxWidth, n) == g.cols)
		vs.Ensures("column starts", k >= n || Zz_TS(r.Data, p, g.cols, g.maxWidth, k) < g.cols && s.MiColStarts[k] == Zz_TS(r.Data, p, g.cols, g.maxWidth, k)*unit)
		vs.Ensures("tile columns log2", s.TileColsLog2 == util.Zz_TL2(1, n))
		area := g.rows * g.cols
		if g.minTilesLog2 > 0 {
			area = area >> uint(g.minTilesLog2+1)
		}
		mh := zzMore(area/Zz_TW(r.Data, p, g.cols, g.maxWidth, n), 1)
		p = Zz_TP(r.Data, p, g.cols, g.maxWidth, n)
		m := s.TileRows
		vs.Ensures("the rows cover the frame", Zz_TS(r.Data, p, g.rows, mh, m) == g.rows)
		vs.Ensures("row starts", k >= m || Zz_TS(r.Data, p, g.rows, mh, k) < g.rows && s.MiRowStarts[k] == Zz_TS(r.Data, p, g.rows, mh, k)*unit)
		vs.Ensures("tile rows log2", s.TileRowsLog2 == util.Zz_TL2(1, m))
		r.Pos = Zz_TP(r.Data, p, g.rows, mh, m)
	}
	ctx := 0
	tsb := oldTSB
	if s.TileColsLog2 > 0 || s.TileRowsLog2 > 0 {
		ctx = r.F(s.TileColsLog2 + s.TileRowsLog2)
		tsb = r.F(2) + 1
	}
	vs.Ensures("context update tile", t.ContextUpdateTileId == ctx)
	vs.Ensures("tile size bytes", s.TileSizeBytes == tsb)
	vs.Ensures("consumed", b.Position == r.Pos)
}

func init() {
	vs.Realise("tileinfo.Zz_Ones", func(data []byte, a []int64, v int64) {
		if v >= 0 && v < 64 && a[1] >= 0 {
			vs.PutBits(data, a[0], v, 1<<uint(v)-1)
			if v < a[1] {
				vs.PutBits(data, a[0]+v, 1, 0)
			}
		}
	})
}
