package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzClip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func zzHas(b *bitstream.BitStream, bits int) bool {
	return b.Position >= 0 && b.Position+bits <= 8*len(b.Data)
}

// ---- C11: quantizer, delta and segmentation parameters

func zzDeltaQ(r *bitstream.ZzR) int {
	if r.B() {
		return r.Su(7)
	}
	return 0
}

//@ contract: UncompressedHeader.readDeltaQ
//@ property: C11
//@ optional:
func zzReadDeltaQ(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 8))
	vs.Modifies(&b.Position)
	r := bitstream.ZzAt(b)
	want := zzDeltaQ(r)
	got := u.readDeltaQ(b)
	vs.Ensures("value", got == want)
	vs.Ensures("consumed", b.Position == r.Pos)
}

type zzQuant struct {
	base                           int
	yDc, uDc, uAc, vDc, vAc        int
	matrix                         bool
	qmy, qmu, qmv                  int
}

func zzQuantOf(r *bitstream.ZzR, planes int, separate bool) zzQuant {
	q := zzQuant{}
	q.base = r.F(8)
	q.yDc = zzDeltaQ(r)
	if planes > 1 {
		diff := false
		if separate {
			diff = r.B()
		}
		q.uDc = zzDeltaQ(r)
		q.uAc = zzDeltaQ(r)
		q.vDc = q.uDc
		q.vAc = q.uAc
		if diff {
			q.vDc = zzDeltaQ(r)
			q.vAc = zzDeltaQ(r)
		}
	}
	q.matrix = r.B()
	if q.matrix {
		q.qmy = r.F(4)
		q.qmu = r.F(4)
		q.qmv = q.qmu
		if separate {
			q.qmv = r.F(4)
		}
	}
	return q
}

//@ contract: UncompressedHeader.quantizationParams
//@ property: C11
func zzQuantizationParams(u *UncompressedHeader, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 64))
	vs.Modifies(&b.Position, &u.BaseQIdx, &u.DeltaQYDc, &u.DeltaQUDc, &u.DeltaQUAc, &u.DeltaQVDc, &u.DeltaQVAc, &u.UsingQMatrix, &u.Qmy, &u.Qmu, &u.Qmv)
	r := bitstream.ZzAt(b)
	q := zzQuantOf(r, sh.ColorConfig.NumPlanes, sh.ColorConfig.SeparateUvDeltaQ)
	u.quantizationParams(b, sh)
	vs.Ensures("base index", u.BaseQIdx == q.base)
	vs.Ensures("luma dc delta", u.DeltaQYDc == q.yDc)
	vs.Ensures("u dc delta", u.DeltaQUDc == q.uDc)
	vs.Ensures("u ac delta", u.DeltaQUAc == q.uAc)
	vs.Ensures("v dc delta", u.DeltaQVDc == q.vDc)
	vs.Ensures("v ac delta", u.DeltaQVAc == q.vAc)
	vs.Ensures("matrix flag", u.UsingQMatrix == q.matrix)
	vs.Ensures("matrix levels", !q.matrix || u.Qmy == q.qmy && u.Qmu == q.qmu && u.Qmv == q.qmv)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.deltaQParams
//@ property: C11
func zzDeltaQParams(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 3))
	vs.Modifies(&b.Position, &u.DeltaQPresent, &u.DeltaQRes)
	r := bitstream.ZzAt(b)
	present, res := false, 0
	if u.BaseQIdx > 0 {
		present = r.B()
	}
	if present {
		res = r.F(2)
	}
	u.deltaQParams(b)
	vs.Ensures("present", u.DeltaQPresent == present)
	vs.Ensures("resolution", u.DeltaQRes == res)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.deltaLfParams
//@ property: C11
func zzDeltaLfParams(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 4))
	vs.Modifies(&b.Position, &u.DeltaLfPresent, &u.DeltaLfRes, &u.DeltaLfMulti)
	r := bitstream.ZzAt(b)
	present, res, multi := false, 0, 0
	if u.DeltaQPresent && !u.AllowIntraBc {
		present = r.B()
	}
	if present {
		res = r.F(2)
		multi = r.F(1)
	}
	u.deltaLfParams(b)
	vs.Ensures("present", u.DeltaLfPresent == present)
	vs.Ensures("resolution", u.DeltaLfRes == res)
	vs.Ensures("one delta per filter", u.DeltaLfMulti == multi)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.segFeatureActiveIdx
//@ property: C11
//@ inline:
func zzSegFeatureActiveIdx(u *UncompressedHeader, idx int, feature int, s *state.State) {
	vs.Requires(0 <= idx && idx < 8 && 0 <= feature && feature < 8)
	r := u.segFeatureActiveIdx(idx, feature, s)
	vs.Ensures("enabled in an enabled segmentation", r == (u.SegmentationEnabled && s.FeatureEnabled[idx][feature] != 0))
}

//@ contract: UncompressedHeader.GetQIndex
//@ property: C11
func zzGetQIndex(u *UncompressedHeader, ignoreDeltaQ int, segmentId int, s *state.State) {
	vs.Requires(0 <= segmentId && segmentId < 8 && 0 <= ignoreDeltaQ && ignoreDeltaQ <= 1)
	vs.Requires(0 <= u.BaseQIdx && u.BaseQIdx <= 255 && 0 <= s.CurrentQIndex && s.CurrentQIndex <= 255)
	vs.Requires(-255 <= s.FeatureData[segmentId][0] && s.FeatureData[segmentId][0] <= 255)
	q := u.BaseQIdx
	if ignoreDeltaQ == 0 && u.DeltaQPresent {
		q = s.CurrentQIndex
	}
	if u.SegmentationEnabled && s.FeatureEnabled[segmentId][0] != 0 {
		q = zzClip(0, 255, q+s.FeatureData[segmentId][0])
	}
	r := u.GetQIndex(ignoreDeltaQ, segmentId, s)
	vs.Ensures("quantizer index of the segment", r == q)
}

type zzSeg struct {
	enabled, data [8][8]int
}

func zzSegBits(j int) int {
	switch j {
	case 0:
		return 8
	case 1, 2, 3, 4:
		return 6
	case 5:
		return 3
	}
	return 0
}

func zzSegMax(j int) int {
	switch j {
	case 0:
		return 255
	case 1, 2, 3, 4:
		return 63
	case 5:
		return 7
	}
	return 0
}

func zzSegFeature(r *bitstream.ZzR, j int) (int, int) {
	if !r.B() {
		return 0, 0
	}
	max := zzSegMax(j)
	if j <= 4 {
		return 1, zzClip(-max, max, r.Su(1+zzSegBits(j)))
	}
	return 1, zzClip(0, max, r.F(zzSegBits(j)))
}

//@ contract: UncompressedHeader.segmentationParams
//@ property: C11
func zzSegmentationParams(u *UncompressedHeader, b *bitstream.BitStream, s *state.State) {
	vs.Requires(zzHas(b, 600))
	vs.Modifies(&b.Position, &u.SegmentationEnabled, &u.SegmentationUpdateMap, &u.SegmentationTemporalUpdate, &u.SegmentationUpdateData, &u.SegIdPreSkip, &u.LastActiveSegId,
		&s.FeatureEnabled, &s.FeatureData)
	r := bitstream.ZzAt(b)
	seg := zzSeg{}
	enabled := r.B()
	m, t, d := 1, 0, 1
	if enabled {
		if u.PrimaryRefFrame != 7 {
			m = r.F(1)
			if m == 1 {
				t = r.F(1)
			}
			d = r.F(1)
		}
		if d == 1 {
			for i := 0; i < 8; i++ {
				for j := 0; j < 8; j++ {
					seg.enabled[i][j], seg.data[i][j] = zzSegFeature(r, j)
				}
			}
		} else {
			seg.enabled, seg.data = s.FeatureEnabled, s.FeatureData
		}
	}
	last, pre := 0, 0
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			if seg.enabled[i][j] == 1 {
				last = i
				if j >= 5 {
					pre = 1
				}
			}
		}
	}
	u.segmentationParams(b, s)
	vs.Ensures("enabled", u.SegmentationEnabled == enabled)
	vs.Ensures("map update", !enabled || u.SegmentationUpdateMap == m)
	vs.Ensures("temporal update", !enabled || m == 0 || u.SegmentationTemporalUpdate == t)
	vs.Ensures("data update", !enabled || u.SegmentationUpdateData == d)
	vs.Ensures("features enabled", s.FeatureEnabled == seg.enabled)
	vs.Ensures("feature values", s.FeatureData == seg.data)
	vs.Ensures("last active segment", u.LastActiveSegId == last)
	vs.Ensures("segment id before skip", u.SegIdPreSkip == pre)
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C12: loop filter, CDEF, restoration, transform mode, reference mode

type zzLf struct {
	level     [4]int
	sharp     int
	enabled   bool
	ref       [8]int
	mode      [2]int
}

func zzDefaultRefDeltas() [8]int {
	return [8]int{1, 0, 0, 0, -1, 0, -1, -1}
}

func zzLfOf(r *bitstream.ZzR, u *UncompressedHeader, planes int) zzLf {
	f := zzLf{u.LoopFilterLevel, u.LoopFilterSharpness, u.LoopFilterDeltaEnabled, u.LoopFilterRefDeltas, u.LoopFilterModeDeltas}
	if u.CodedLossless || u.AllowIntraBc {
		f.level[0], f.level[1] = 0, 0
		f.ref = zzDefaultRefDeltas()
		f.mode = [2]int{}
		return f
	}
	f.level[0] = r.F(6)
	f.level[1] = r.F(6)
	if planes > 1 && (f.level[0] != 0 || f.level[1] != 0) {
		f.level[2] = r.F(6)
		f.level[3] = r.F(6)
	}
	f.sharp = r.F(3)
	f.enabled = r.B()
	if f.enabled && r.B() {
		for i := 0; i < 8; i++ {
			if r.B() {
				f.ref[i] = r.Su(7)
			}
		}
		for i := 0; i < 2; i++ {
			if r.B() {
				f.mode[i] = r.Su(7)
			}
		}
	}
	return f
}

//@ contract: UncompressedHeader.loopFilterParams
//@ property: C12
func zzLoopFilterParams(u *UncompressedHeader, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 120))
	vs.Modifies(&b.Position, &u.LoopFilterLevel, &u.LoopFilterSharpness, &u.LoopFilterDeltaEnabled, &u.LoopFilterDeltaUpdate, &u.LoopFilterRefDeltas, &u.LoopFilterModeDeltas)
	r := bitstream.ZzAt(b)
	f := zzLfOf(r, u, sh.ColorConfig.NumPlanes)
	off := u.CodedLossless || u.AllowIntraBc
	u.loopFilterParams(b, sh)
	vs.Ensures("luma levels", u.LoopFilterLevel[0] == f.level[0] && u.LoopFilterLevel[1] == f.level[1])
	vs.Ensures("chroma levels", u.LoopFilterLevel[2] == f.level[2] && u.LoopFilterLevel[3] == f.level[3])
	vs.Ensures("sharpness", off || u.LoopFilterSharpness == f.sharp)
	vs.Ensures("deltas enabled", off || u.LoopFilterDeltaEnabled == f.enabled)
	vs.Ensures("reference deltas", u.LoopFilterRefDeltas == f.ref)
	vs.Ensures("mode deltas", u.LoopFilterModeDeltas == f.mode)
	vs.Ensures("consumed", b.Position == r.Pos)
}

type zzCdef struct {
	damping, bits      int
	yp, ys, uvp, uvs   [8]int
}

func zzSec(x int) int {
	if x == 3 {
		return 4
	}
	return x
}

func zzCdefOf(r *bitstream.ZzR, off bool, planes int) zzCdef {
	c := zzCdef{damping: 3}
	if off {
		return c
	}
	c.damping = 3 + r.F(2)
	c.bits = r.F(2)
	for i := 0; i < 8; i++ {
		if i < 1<<uint(c.bits) {
			c.yp[i] = r.F(4)
			c.ys[i] = zzSec(r.F(2))
			if planes > 1 {
				c.uvp[i] = r.F(4)
				c.uvs[i] = zzSec(r.F(2))
			}
		}
	}
	return c
}

//@ contract: UncompressedHeader.cdefParams
//@ property: C12
func zzCdefParams(u *UncompressedHeader, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 100))
	vs.Modifies(&b.Position, &u.CdefDampening, &u.CdefBits, &u.CdefYPriStrength, &u.CdefYSecStrength, &u.CdefUVPriStrength, &u.CdefUVSecStrength)
	r := bitstream.ZzAt(b)
	off := u.CodedLossless || u.AllowIntraBc || !sh.EnableCdef
	chroma := sh.ColorConfig.NumPlanes > 1 || off
	c := zzCdefOf(r, off, sh.ColorConfig.NumPlanes)
	u.cdefParams(b, sh)
	n := 1 << uint(c.bits)
	vs.Ensures("damping", u.CdefDampening == c.damping)
	vs.Ensures("index bits", u.CdefBits == c.bits)
	vs.Ensures("one entry for every index", len(u.CdefYPriStrength) >= n && len(u.CdefYSecStrength) >= n && (!chroma || len(u.CdefUVPriStrength) >= n && len(u.CdefUVSecStrength) >= n))
	for i := 0; i < 8; i++ {
		if i < n {
			vs.Ensures("luma primary", u.CdefYPriStrength[i] == c.yp[i])
			vs.Ensures("luma secondary", u.CdefYSecStrength[i] == c.ys[i])
			vs.Ensures("chroma primary", !chroma || u.CdefUVPriStrength[i] == c.uvp[i])
			vs.Ensures("chroma secondary", !chroma || u.CdefUVSecStrength[i] == c.uvs[i])
		}
	}
	vs.Ensures("consumed", b.Position == r.Pos)
}

type zzLr struct {
	typ  [3]int
	uses bool
	size [3]int
}

func zzLrOf(r *bitstream.ZzR, off bool, sh sequenceheader.SequenceHeader) zzLr {
	l := zzLr{}
	if off {
		return l
	}
	chroma := false
	for i := 0; i < 3; i++ {
		if i < sh.ColorConfig.NumPlanes {
			t := r.F(2)
			l.typ[i] = [4]int{0, 3, 1, 2}[t]
			if t != 0 {
				l.uses = true
				chroma = chroma || i > 0
			}
		}
	}
	if !l.uses {
		return l
	}
	shift := r.F(1)
	if sh.Use128x128SuperBlock {
		shift++
	} else if shift == 1 {
		shift += r.F(1)
	}
	l.size[0] = 64 << uint(shift)
	l.size[1] = l.size[0]
	if sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && chroma && r.B() {
		l.size[1] = l.size[0] / 2
	}
	l.size[2] = l.size[1]
	return l
}

//@ contract: UncompressedHeader.lrParams
//@ property: C12
func zzLrParams(u *UncompressedHeader, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 9) && (sh.ColorConfig.NumPlanes == 1 || sh.ColorConfig.NumPlanes == 3))
	vs.Modifies(&b.Position, &u.FrameRestorationType, &u.UsesLr, &s.LoopRestorationSize)
	r := bitstream.ZzAt(b)
	off := u.AllLossless || u.AllowIntraBc || !sh.EnableRestoration
	l := zzLrOf(r, off, sh)
	u.lrParams(b, s, sh)
	for i := 0; i < 3; i++ {
		vs.Ensures("restoration type", u.FrameRestorationType[i] == l.typ[i] || !off && i >= sh.ColorConfig.NumPlanes)
		vs.Ensures("unit size", !l.uses || s.LoopRestorationSize[i] == l.size[i])
	}
	vs.Ensures("restoration used", u.UsesLr == l.uses)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.readTxMode
//@ property: C12
func zzReadTxMode(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 1))
	vs.Modifies(&b.Position, &u.TxMode)
	r := bitstream.ZzAt(b)
	want := 0
	if !u.CodedLossless {
		want = 1 + r.F(1)
	}
	u.readTxMode(b)
	vs.Ensures("transform mode", u.TxMode == want)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.frameReferenceMode
//@ property: C12
func zzFrameReferenceMode(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 1))
	vs.Modifies(&b.Position, &u.ReferenceSelect)
	r := bitstream.ZzAt(b)
	want := false
	if !u.FrameIsIntra {
		want = r.B()
	}
	u.frameReferenceMode(b)
	vs.Ensures("compound references allowed", u.ReferenceSelect == want)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.readInterpolationFilter
//@ property: C12
func zzReadInterpolationFilter(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 3))
	vs.Modifies(&b.Position, &u.InterpolationFilter)
	r := bitstream.ZzAt(b)
	want := 4
	if !r.B() {
		want = r.F(2)
	}
	u.readInterpolationFilter(b)
	vs.Ensures("filter", u.InterpolationFilter == want)
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C13: frame sizes

type zzSize struct {
	superres                   bool
	denom, upscaled, width, height int
}

func zzSuperres(r *bitstream.ZzR, w int, enabled bool) zzSize {
	z := zzSize{denom: 8, upscaled: w}
	if enabled {
		z.superres = r.B()
	}
	if z.superres {
		z.denom = 9 + r.F(3)
	}
	z.width = (8*w + z.denom/2) / z.denom
	return z
}

func zzFrameSizeOf(r *bitstream.ZzR, override bool, sh sequenceheader.SequenceHeader) zzSize {
	w, h := sh.MaxFrameWidthMinusOne+1, sh.MaxFrameHeightMinusOne+1
	if override {
		w = r.F(sh.FrameWidthBitsMinusOne+1) + 1
		h = r.F(sh.FrameHeightBitsMinusOne+1) + 1
	}
	z := zzSuperres(r, w, sh.EnableSuperRes)
	z.height = h
	return z
}

func zzSane(sh sequenceheader.SequenceHeader) bool {
	return 0 <= sh.MaxFrameWidthMinusOne && sh.MaxFrameWidthMinusOne < 65536 && 0 <= sh.MaxFrameHeightMinusOne && sh.MaxFrameHeightMinusOne < 65536 &&
		0 <= sh.FrameWidthBitsMinusOne && sh.FrameWidthBitsMinusOne < 16 && 0 <= sh.FrameHeightBitsMinusOne && sh.FrameHeightBitsMinusOne < 16
}

//@ contract: UncompressedHeader.superResParams
//@ property: C13
//@ optional:
func zzSuperResParams(u *UncompressedHeader, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 4) && 1 <= u.FrameWidth && u.FrameWidth <= 65536)
	vs.Modifies(&b.Position, &u.UseSuperRes, &u.SuperResDenom, &u.UpscaledWidth, &u.FrameWidth)
	r := bitstream.ZzAt(b)
	z := zzSuperres(r, u.FrameWidth, sh.EnableSuperRes)
	u.superResParams(b, sh)
	vs.Ensures("super resolution", u.UseSuperRes == z.superres)
	vs.Ensures("denominator", u.SuperResDenom == z.denom)
	vs.Ensures("upscaled width", u.UpscaledWidth == z.upscaled)
	vs.Ensures("coded width", u.FrameWidth == z.width)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.computeImageSize
//@ property: C13
func zzComputeImageSize(u *UncompressedHeader, s *state.State) {
	vs.Requires(1 <= u.FrameWidth && u.FrameWidth <= 65536 && 1 <= u.FrameHeight && u.FrameHeight <= 65536)
	vs.Modifies(&s.MiCols, &s.MiRows)
	u.computeImageSize(s)
	vs.Ensures("columns cover the frame", 4*s.MiCols >= u.FrameWidth && 4*s.MiCols < u.FrameWidth+8 && s.MiCols%2 == 0)
	vs.Ensures("rows cover the frame", 4*s.MiRows >= u.FrameHeight && 4*s.MiRows < u.FrameHeight+8 && s.MiRows%2 == 0)
}

//@ contract: UncompressedHeader.frameSize
//@ property: C13
func zzFrameSize(u *UncompressedHeader, b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 36) && zzSane(sh))
	vs.Modifies(&b.Position, &u.UseSuperRes, &u.SuperResDenom, &u.UpscaledWidth, &u.FrameWidth, &u.FrameHeight, &s.MiCols, &s.MiRows)
	r := bitstream.ZzAt(b)
	z := zzFrameSizeOf(r, u.FrameSizeOverrideFlag, sh)
	u.frameSize(b, s, sh)
	vs.Ensures("super resolution", u.UseSuperRes == z.superres && u.SuperResDenom == z.denom)
	vs.Ensures("upscaled width", u.UpscaledWidth == z.upscaled && 1 <= u.UpscaledWidth && u.UpscaledWidth <= 65536)
	vs.Ensures("coded width", u.FrameWidth == z.width)
	vs.Ensures("height", u.FrameHeight == z.height && 1 <= u.FrameHeight && u.FrameHeight <= 65536)
	vs.Ensures("a frame has samples", u.FrameWidth >= 1 && u.FrameWidth <= 65536)
	vs.Ensures("columns", s.MiCols == 2*((u.FrameWidth+7)/8) && 2 <= s.MiCols && s.MiCols <= 16384)
	vs.Ensures("rows", s.MiRows == 2*((u.FrameHeight+7)/8) && 2 <= s.MiRows && s.MiRows <= 16384)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.renderSize
//@ property: C13
func zzRenderSize(u *UncompressedHeader, b *bitstream.BitStream) {
	vs.Requires(zzHas(b, 33))
	vs.Modifies(&b.Position, &u.RenderWidth, &u.RenderHeight)
	r := bitstream.ZzAt(b)
	w, h := u.UpscaledWidth, u.FrameHeight
	if r.B() {
		w = r.F(16) + 1
		h = r.F(16) + 1
	}
	u.renderSize(b)
	vs.Ensures("render width", u.RenderWidth == w)
	vs.Ensures("render height", u.RenderHeight == h)
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C14: order hints and skip mode

// Zz_Dist: the signed distance from hint b to hint a, modulo 2^bits, in [-2^(bits-1), 2^(bits-1)).
//
//@ opaque: Dist
func Zz_Dist(a, b, bits int, enabled bool) int {
	if !enabled {
		return 0
	}
	m := 1 << uint(bits)
	d := (a - b + 256) % m
	if d >= m/2 {
		d -= m
	}
	return d
}

//@ contract: UncompressedHeader.GetRelativeDist
//@ property: C14
func zzGetRelativeDist(u *UncompressedHeader, a, b int, sh sequenceheader.SequenceHeader) {
	vs.Requires(0 <= sh.OrderHintBits && sh.OrderHintBits <= 8 && (!sh.EnableOrderHint || 1 <= sh.OrderHintBits))
	vs.Requires(0 <= a && a < 256 && 0 <= b && b < 256)
	vs.Transparent(Zz_Dist)
	vs.Split(sh.OrderHintBits, 0, 8)
	r := u.GetRelativeDist(a, b, sh)
	vs.Ensures("wrapped distance", r == Zz_Dist(a, b, sh.OrderHintBits, sh.EnableOrderHint))
}

type zzSkip struct {
	allowed  bool
	f0, f1   int
}

// the nearest reference before the frame and the nearest after it, or the two nearest before it
func zzSkipOf(hint int, refs [7]int, bits int, enabled bool) zzSkip {
	fwd, bwd := -1, -1
	fh, bh := 0, 0
	for i := 0; i < 7; i++ {
		d := Zz_Dist(refs[i], hint, bits, enabled)
		if d < 0 {
			if fwd < 0 || Zz_Dist(refs[i], fh, bits, enabled) > 0 {
				fwd, fh = i, refs[i]
			}
		} else if d > 0 {
			if bwd < 0 || Zz_Dist(refs[i], bh, bits, enabled) < 0 {
				bwd, bh = i, refs[i]
			}
		}
	}
	if fwd < 0 {
		return zzSkip{}
	}
	if bwd < 0 {
		sh := 0
		for i := 0; i < 7; i++ {
			if Zz_Dist(refs[i], fh, bits, enabled) < 0 && (bwd < 0 || Zz_Dist(refs[i], sh, bits, enabled) > 0) {
				bwd, sh = i, refs[i]
			}
		}
		if bwd < 0 {
			return zzSkip{}
		}
	}
	if fwd < bwd {
		return zzSkip{true, 1 + fwd, 1 + bwd}
	}
	return zzSkip{true, 1 + bwd, 1 + fwd}
}

//@ contract: UncompressedHeader.skipModeParams
//@ property: C14
func zzSkipModeParams(u *UncompressedHeader, s *state.State, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 1) && 0 <= sh.OrderHintBits && sh.OrderHintBits <= 8 && (!sh.EnableOrderHint || 1 <= sh.OrderHintBits))
	vs.Requires(0 <= u.OrderHint && u.OrderHint < 256)
	refs := [7]int{}
	for i := 0; i < 8; i++ {
		vs.Requires(0 <= s.RefOrderHint[i] && s.RefOrderHint[i] < 256)
	}
	for i := 0; i < 7; i++ {
		vs.Requires(0 <= u.RefFrameIdx[i] && u.RefFrameIdx[i] < 8)
		refs[i] = s.RefOrderHint[u.RefFrameIdx[i]]
	}
	vs.Modifies(&b.Position, &u.SkipModePresent, &u.SkipModeFrame)
	r := bitstream.ZzAt(b)
	k := zzSkip{}
	if !u.FrameIsIntra && u.ReferenceSelect && sh.EnableOrderHint {
		k = zzSkipOf(u.OrderHint, refs, sh.OrderHintBits, sh.EnableOrderHint)
	}
	present := 0
	if k.allowed {
		present = r.F(1)
	}
	u.skipModeParams(s, b, sh)
	vs.Ensures("present", u.SkipModePresent == present)
	vs.Ensures("first frame", !k.allowed || u.SkipModeFrame[0] == k.f0)
	vs.Ensures("second frame", !k.allowed || u.SkipModeFrame[1] == k.f1)
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C15: global motion

// Zz_SubVal, Zz_SubLen: value and length of the sub-exponential code for n values at pos.
//
//@ opaque: SubVal
func Zz_SubVal(data []byte, pos, n int) int {
	v, _ := zzSub(data, pos, n)
	return v
}

//@ opaque: SubLen
func Zz_SubLen(data []byte, pos, n int) int {
	_, l := zzSub(data, pos, n)
	return l
}

func Zz_SubVal_range(data []byte, pos, n int) (int, int) {
	if n < 1 {
		return 0, 0
	}
	return 0, n - 1
}

func Zz_SubLen_range(data []byte, pos, n int) (int, int) { return 0, 40 }

// groups of 8, 8, 16, 32, ... values, each announced by a 0 bit; the last group is coded non-symmetrically
func zzSub(data []byte, pos, n int) (int, int) {
	v, l := 0, 0
	done := n < 1
	base := 0
	for g := 0; g < 13; g++ {
		bits := 3
		if g > 0 {
			bits = 2 + g
		}
		size := 1 << uint(bits)
		if !done {
			if n <= base+3*size || g == 12 {
				done = true
				v = base + bitstream.Zz_NsVal(data, pos+g, n-base)
				l = g + bitstream.Zz_NsLen(data, pos+g, n-base)
			} else if bitstream.Zz_Bits(data, pos+g, 1) == 0 {
				done = true
				v = base + bitstream.Zz_Bits(data, pos+g+1, bits)
				l = g + 1 + bits
			}
		}
		base += size
	}
	return v, l
}

//@ lemma: the sub-exponential code stays in range
//@ property: C15
func zzSubRange(data []byte, pos, n int) {
	vs.Requires(pos >= 0)
	vs.Transparent(Zz_SubVal, Zz_SubLen)
	v := Zz_SubVal(data, pos, n)
	vs.Ensures("value below n", 0 <= v && (n < 1 && v == 0 || v < n))
	l := Zz_SubLen(data, pos, n)
	vs.Ensures("length", 0 <= l && l <= 40)
}

//@ contract: UncompressedHeader.decodeSubexp
//@ property: C15
//@ optional:
func zzDecodeSubexp(u *UncompressedHeader, n int, b *bitstream.BitStream) {
	vs.Requires(1 <= n && n <= 1<<13+1 && zzHas(b, 40))
	vs.Transparent(Zz_SubVal, Zz_SubLen)
	vs.Modifies(&b.Position)
	pos := b.Position
	r := u.decodeSubexp(n, b)
	vs.Ensures("value", r == Zz_SubVal(b.Data, pos, n))
	vs.Ensures("consumed", b.Position == pos+Zz_SubLen(b.Data, pos, n))
}

// zzRecenter: the value at distance code v from r: r, r-1, r+1, r-2, ... while both sides exist
func zzRecenter(r, v int) int {
	if v > 2*r {
		return v
	}
	if v%2 == 1 {
		return r - (v+1)/2
	}
	return r + v/2
}

func zzNear(r, n, v int) int {
	if 2*r <= n {
		return zzRecenter(r, v)
	}
	return n - 1 - zzRecenter(n-1-r, v)
}

func zzGmIdent(i int) int {
	if i%3 == 2 {
		return 1 << 16
	}
	return 0
}

// bits dropped from parameter i and the number of magnitude bits kept
func zzGmShift(typ, i int, hp bool) (int, int) {
	if i >= 2 {
		return 1, 12
	}
	if typ == 1 {
		if hp {
			return 13, 9
		}
		return 14, 8
	}
	return 10, 12
}

// Zz_GmVal: a coded parameter; only the type's class (translation or not) and the precision matter.
//
//@ opaque: GmVal
func Zz_GmVal(data []byte, pos, typ, i, prev, hp int) int {
	shift, bits := zzGmShift(typ, i, hp != 0)
	mx := 1 << uint(bits)
	c := prev>>uint(shift) - zzGmIdent(i)>>uint(shift) + mx
	return (zzNear(c, 2*mx+1, Zz_SubVal(data, pos, 2*mx+1))-mx)<<uint(shift) + zzGmIdent(i)
}

//@ opaque: GmLen
func Zz_GmLen(data []byte, pos, typ, i, hp int) int {
	_, bits := zzGmShift(typ, i, hp != 0)
	return Zz_SubLen(data, pos, 2<<uint(bits)+1)
}

func Zz_GmLen_range(data []byte, pos, typ, i, hp int) (int, int) { return 0, 40 }

//@ lemma: range of parameter lengths
//@ property: C15
func zzGmLenRange(data []byte, pos, typ, i, hp int) {
	vs.Requires(pos >= 0)
	vs.Transparent(Zz_GmLen)
	r := Zz_GmLen(data, pos, typ, i, hp)
	vs.Ensures("range", 0 <= r && r <= 40)
}

func zzGmParam(r *bitstream.ZzR, typ, i, prev int, hp bool) int {
	h := 0
	if hp {
		h = 1
	}
	v := Zz_GmVal(r.Data, r.Pos, typ, i, prev, h)
	r.Pos += Zz_GmLen(r.Data, r.Pos, typ, i, h)
	return v
}

func zzGmOk(p [6]int) bool {
	r := true
	for i := 0; i < 6; i++ {
		d := p[i] - zzGmIdent(i)
		m := 1 << 13
		if i < 2 {
			m = 1 << 22
		}
		r = r && -m <= d && d <= m
	}
	return r
}

//@ contract: UncompressedHeader.readGlobalParam
//@ property: C15
func zzReadGlobalParam(u *UncompressedHeader, typ int, ref int, idx int, b *bitstream.BitStream, s *state.State) {
	vs.Requires(1 <= typ && typ <= 3 && 1 <= ref && ref <= 7 && 0 <= idx && idx < 6 && zzHas(b, 40))
	vs.Split(idx, 0, 5)
	vs.Split(ref, 1, 7)
	vs.Split(typ, 1, 3)
	vs.Transparent(Zz_GmVal, Zz_GmLen)
	vs.Requires(zzGmOk(s.PrevGmParams[ref]))
	vs.Modifies(&b.Position, &u.GmParams[ref][idx])
	r := bitstream.ZzAt(b)
	want := zzGmParam(r, typ, idx, s.PrevGmParams[ref][idx], u.AllowHighPrecisionMv)
	u.readGlobalParam(typ, ref, idx, b, s)
	vs.Ensures("parameter", u.GmParams[ref][idx] == want)
	vs.Ensures("consumed", b.Position == r.Pos)
	d := u.GmParams[ref][idx] - zzGmIdent(idx)
	vs.Ensures("in range", idx < 2 && -1<<22 <= d && d <= 1<<22 || idx >= 2 && -1<<13 <= d && d <= 1<<13)
}

func zzGmType(r *bitstream.ZzR) int {
	if !r.B() {
		return 0
	}
	if r.B() {
		return 2
	}
	if r.B() {
		return 1
	}
	return 3
}

func zzGm(r *bitstream.ZzR, typ int, prev [6]int, hp bool) [6]int {
	p := [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
	if typ >= 2 {
		p[2] = zzGmParam(r, typ, 2, prev[2], hp)
		p[3] = zzGmParam(r, typ, 3, prev[3], hp)
		if typ == 3 {
			p[4] = zzGmParam(r, typ, 4, prev[4], hp)
			p[5] = zzGmParam(r, typ, 5, prev[5], hp)
		} else {
			p[4] = -p[3]
			p[5] = p[2]
		}
	}
	if typ >= 1 {
		p[0] = zzGmParam(r, typ, 0, prev[0], hp)
		p[1] = zzGmParam(r, typ, 1, prev[1], hp)
	}
	return p
}

//@ contract: UncompressedHeader.globalMotionParams
//@ property: C15
func zzGlobalMotionParams(u *UncompressedHeader, b *bitstream.BitStream, s *state.State) {
	vs.Requires(zzHas(b, 2000))
	for ref := 1; ref < 8; ref++ {
		vs.Requires(zzGmOk(s.PrevGmParams[ref]))
	}
	vs.Modifies(&b.Position, &u.GmParams, &s.GmType)
	r := bitstream.ZzAt(b)
	typ := [8]int{}
	gm := [8][6]int{}
	for ref := 1; ref < 8; ref++ {
		gm[ref] = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
		if !u.FrameIsIntra {
			typ[ref] = zzGmType(r)
			gm[ref] = zzGm(r, typ[ref], s.PrevGmParams[ref], u.AllowHighPrecisionMv)
		}
	}
	u.globalMotionParams(b, s)
	for ref := 1; ref < 8; ref++ {
		vs.Ensures("type", s.GmType[ref] == typ[ref])
		vs.Ensures("parameters", u.GmParams[ref] == gm[ref])
	}
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C16: film grain

type zzGrain struct {
	apply                                bool
	seed                                 int
	ny, ncb, ncr                         int
	yv, ys, cbv, cbs, crv, crs           [16]int
	csfl                                 bool
	scaling, lag                         int
	ay, acb, acr                         [25]int
	ly, lcb, lcr                         int
	arShift, shift                       int
	cbMult, cbLuma, cbOff                int
	crMult, crLuma, crOff                int
	overlap, clip                        bool
}

func zzPoints(r *bitstream.ZzR) (int, [16]int, [16]int) {
	n := r.F(4)
	v, s := [16]int{}, [16]int{}
	for i := 0; i < 15; i++ {
		if i < n {
			v[i] = bitstream.Zz_Bits(r.Data, r.Pos+16*i, 8)
			s[i] = bitstream.Zz_Bits(r.Data, r.Pos+16*i+8, 8)
		}
	}
	r.Pos += 16 * n
	return n, v, s
}

func zzCoeffs(r *bitstream.ZzR, n int) [25]int {
	v := [25]int{}
	for i := 0; i < 25; i++ {
		if i < n {
			v[i] = bitstream.Zz_Bits(r.Data, r.Pos+8*i, 8)
		}
	}
	r.Pos += 8 * n
	return v
}

func zzGrainOf(r *bitstream.ZzR, u *UncompressedHeader, sh sequenceheader.SequenceHeader) zzGrain {
	g := zzGrain{}
	if !sh.FilmGrainParamsPresent || !u.ShowFrame && !u.ShowableFrame {
		return g
	}
	if !r.B() {
		return g
	}
	g.apply = true
	g.seed = r.F(16)
	if u.FrameType == 1 {
		r.F(1)
	}
	g.ny, g.yv, g.ys = zzPoints(r)
	if !sh.ColorConfig.MonoChrome {
		g.csfl = r.B()
	}
	if !(sh.ColorConfig.MonoChrome || g.csfl || sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && g.ny == 0) {
		g.ncb, g.cbv, g.cbs = zzPoints(r)
		g.ncr, g.crv, g.crs = zzPoints(r)
	}
	g.scaling = r.F(2)
	g.lag = r.F(2)
	nl := 2 * g.lag * (g.lag + 1)
	nc := nl
	if g.ny > 0 {
		nc = nl + 1
		g.ly = nl
		g.ay = zzCoeffs(r, nl)
	}
	if g.csfl || g.ncb > 0 {
		g.lcb = nc
		g.acb = zzCoeffs(r, nc)
	}
	if g.csfl || g.ncr > 0 {
		g.lcr = nc
		g.acr = zzCoeffs(r, nc)
	}
	g.arShift = r.F(2)
	g.shift = r.F(2)
	if g.ncb > 0 {
		g.cbMult = r.F(8)
		g.cbLuma = r.F(8)
		g.cbOff = r.F(9)
	}
	if g.ncr > 0 {
		g.crMult = r.F(8)
		g.crLuma = r.F(8)
		g.crOff = r.F(9)
	}
	g.overlap = r.B()
	g.clip = r.B()
	return g
}

func zzSame16(s []int, n int, v [16]int) bool {
	r := len(s) == n
	if r {
		for i := 0; i < 15; i++ {
			r = r && (i >= n || s[i] == v[i])
		}
	}
	return r
}

func zzSame25(s []int, n int, v [25]int) bool {
	r := len(s) == n
	if r {
		for i := 0; i < 25; i++ {
			r = r && (i >= n || s[i] == v[i])
		}
	}
	return r
}

// zzNewGrain: the frame's grain parameters are coded in its header, not taken over from a reference.
func zzNewGrain(b *bitstream.BitStream, u *UncompressedHeader) bool {
	return u.FrameType != 1 || bitstream.Zz_Bits(b.Data, b.Position, 1) == 0 || bitstream.Zz_Bits(b.Data, b.Position+17, 1) == 1
}

//@ contract: UncompressedHeader.filmGrainParams
//@ property: C16
func zzFilmGrainParams(u *UncompressedHeader, b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
	vs.Requires(zzHas(b, 1500))
	vs.Requires(!sh.FilmGrainParamsPresent || !u.ShowFrame && !u.ShowableFrame || zzNewGrain(b, u))
	vs.Requires(len(u.PointYValue) == 0 && len(u.PointYScaling) == 0 && len(u.PointCbValue) == 0 && len(u.PointCbScaling) == 0 && len(u.PointCrValue) == 0 && len(u.PointCrScaling) == 0)
	vs.Requires(len(u.ArCoeffsYPlus128) == 0 && len(u.ArCoeffsCbPlus128) == 0 && len(u.ArCoeffsCrPlus128) == 0)
	vs.Requires(u.CbMult == 0 && u.CbLumaMult == 0 && u.CbOffset == 0 && u.CrMult == 0 && u.CrLumaMult == 0 && u.CrOffset == 0)
	vs.Modifies(&b.Position, &u.ApplyGrain, &u.GrainSeed, &u.PointYValue, &u.PointYScaling, &u.ChromaScalingFromLuna, &u.PointCbValue, &u.PointCbScaling, &u.PointCrValue, &u.PointCrScaling,
		&u.GrainScalingMinus8, &u.ArCoeffLag, &u.ArCoeffsYPlus128, &u.ArCoeffsCbPlus128, &u.ArCoeffsCrPlus128, &u.ArCoeffShiftMinus6, &u.GrainScaleShift,
		&u.CbMult, &u.CbLumaMult, &u.CbOffset, &u.CrMult, &u.CrLumaMult, &u.CrOffset, &u.OverlapFlag, &u.ClipToRestrictedRange)
	r := bitstream.ZzAt(b)
	g := zzGrainOf(r, u, sh)
	u.filmGrainParams(b, sh)
	vs.Ensures("apply", u.ApplyGrain == g.apply)
	vs.Ensures("seed", u.GrainSeed == g.seed)
	vs.Ensures("luma points", zzSame16(u.PointYValue, g.ny, g.yv))
	vs.Ensures("luma scaling", zzSame16(u.PointYScaling, g.ny, g.ys))
	vs.Ensures("chroma scaling from luma", u.ChromaScalingFromLuna == g.csfl)
	vs.Ensures("cb points", zzSame16(u.PointCbValue, g.ncb, g.cbv))
	vs.Ensures("cb scaling", zzSame16(u.PointCbScaling, g.ncb, g.cbs))
	vs.Ensures("cr points", zzSame16(u.PointCrValue, g.ncr, g.crv))
	vs.Ensures("cr scaling", zzSame16(u.PointCrScaling, g.ncr, g.crs))
	vs.Ensures("scaling shift", u.GrainScalingMinus8 == g.scaling)
	vs.Ensures("lag", u.ArCoeffLag == g.lag)
	vs.Ensures("luma coefficients", zzSame25(u.ArCoeffsYPlus128, g.ly, g.ay))
	vs.Ensures("cb coefficients", zzSame25(u.ArCoeffsCbPlus128, g.lcb, g.acb))
	vs.Ensures("cr coefficients", zzSame25(u.ArCoeffsCrPlus128, g.lcr, g.acr))
	vs.Ensures("coefficient shift", u.ArCoeffShiftMinus6 == g.arShift)
	vs.Ensures("grain scale shift", u.GrainScaleShift == g.shift)
	vs.Ensures("cb multipliers", u.CbMult == g.cbMult && u.CbLumaMult == g.cbLuma && u.CbOffset == g.cbOff)
	vs.Ensures("cr multipliers", u.CrMult == g.crMult && u.CrLumaMult == g.crLuma && u.CrOffset == g.crOff)
	vs.Ensures("overlap", u.OverlapFlag == g.overlap)
	vs.Ensures("clip", u.ClipToRestrictedRange == g.clip)
	vs.Ensures("consumed", b.Position == r.Pos)
}

//@ contract: UncompressedHeader.resetGrainParams
//@ property: C16
//@ inline:
func zzResetGrainParams(u *UncompressedHeader) {
	vs.Modifies(&u.ApplyGrain, &u.GrainSeed, &u.PointYValue, &u.PointYScaling, &u.ChromaScalingFromLuna, &u.PointCbValue, &u.PointCbScaling, &u.PointCrValue, &u.PointCrScaling,
		&u.GrainScalingMinus8, &u.ArCoeffLag, &u.ArCoeffsYPlus128, &u.ArCoeffsCbPlus128, &u.ArCoeffsCrPlus128, &u.ArCoeffShiftMinus6, &u.GrainScaleShift,
		&u.CbMult, &u.CbLumaMult, &u.CbOffset, &u.CrMult, &u.CrLumaMult, &u.CrOffset, &u.OverlapFlag, &u.ClipToRestrictedRange)
	u.resetGrainParams()
	vs.Ensures("off", !u.ApplyGrain && u.GrainSeed == 0)
	vs.Ensures("no points", len(u.PointYValue) == 0 && len(u.PointYScaling) == 0 && len(u.PointCbValue) == 0 && len(u.PointCbScaling) == 0 && len(u.PointCrValue) == 0 && len(u.PointCrScaling) == 0)
	vs.Ensures("no coefficients", len(u.ArCoeffsYPlus128) == 0 && len(u.ArCoeffsCbPlus128) == 0 && len(u.ArCoeffsCrPlus128) == 0 && u.ArCoeffLag == 0 && u.ArCoeffShiftMinus6 == 0)
	vs.Ensures("no scaling", !u.ChromaScalingFromLuna && u.GrainScalingMinus8 == 0 && u.GrainScaleShift == 0)
	vs.Ensures("no multipliers", u.CbMult == 0 && u.CbLumaMult == 0 && u.CbOffset == 0 && u.CrMult == 0 && u.CrLumaMult == 0 && u.CrOffset == 0)
	vs.Ensures("no overlap, no clipping", !u.OverlapFlag && !u.ClipToRestrictedRange)
}

// ---- C17: a frame without a primary reference starts from defaults

// Zz_Row, Zz_Col: an arbitrary position.
//
//@ opaque: Row
func Zz_Row() int { return vs.Ghost() % 64 }

func Zz_Row_range() (int, int) { return 0, 1 << 20 }

//@ opaque: Col
func Zz_Col() int { return vs.Ghost() / 64 }

func Zz_Col_range() (int, int) { return 0, 1 << 20 }

//@ contract: UncompressedHeader.setupPastIndependence
//@ property: C17
func zzSetupPastIndependence(u *UncompressedHeader, s *state.State) {
	vs.Requires(2 <= s.MiRows && s.MiRows <= 4 && 2 <= s.MiCols && s.MiCols <= 6)
	vs.Split(s.MiRows, 2, 4)
	vs.Split(s.MiCols, 2, 6)
	vs.Modifies(&s.FeatureData, &s.FeatureEnabled, &s.PrevSegmentIds, &s.GmType, &s.PrevGmParams, &u.LoopFilterDeltaEnabled, &u.LoopFilterRefDeltas, &u.LoopFilterModeDeltas)
	u.setupPastIndependence(s)
	vs.Ensures("no segment features", s.FeatureData == [8][8]int{} && s.FeatureEnabled == [8][8]int{})
	for ref := 1; ref < 8; ref++ {
		vs.Ensures("identity motion", s.GmType[ref] == 0)
		for i := 0; i < 6; i++ {
			vs.Ensures("identity parameters", s.PrevGmParams[ref][i] == zzGmIdent(i))
		}
	}
	vs.Ensures("loop filter deltas", u.LoopFilterDeltaEnabled && u.LoopFilterRefDeltas == zzDefaultRefDeltas() && u.LoopFilterModeDeltas == [2]int{})
	vs.Ensures("segment map rows", len(s.PrevSegmentIds) == s.MiRows)
	if Zz_Row() < s.MiRows {
		vs.Ensures("segment map columns", len(s.PrevSegmentIds[Zz_Row()]) == s.MiCols)
		vs.Ensures("segment map cleared", Zz_Col() >= s.MiCols || s.PrevSegmentIds[Zz_Row()][Zz_Col()] == 0)
	}
}
