package sequenceheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzTiming(r *bitstream.ZzR) TimingInfo {
	t := TimingInfo{}
	t.NumUnitsInDisplayTick = r.F(32)
	t.TimeScale = r.F(32)
	t.EqualPictureInterval = r.B()
	if t.EqualPictureInterval {
		t.NumTicksPerMinuteMinusOne = r.Uvlc()
	}
	return t
}

//@ contract: NewTimingInfo
//@ property: C05
//@ optional:
func zzNewTimingInfo(b *bitstream.BitStream) {
	vs.Requires(b.Position >= 0 && bitstream.Zz_LZ(b.Data, b.Position+65) < 32 && b.Position+128 <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	r := bitstream.ZzAt(b)
	want := zzTiming(r)
	got := NewTimingInfo(b)
	vs.Ensures("timing info", vs.Eq(got, want))
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C06: colour configuration

func zzColor(r *bitstream.ZzR, profile int) ColorConfig {
	c := ColorConfig{}
	c.HighBitDepth = r.B()
	c.BitDepth = 8
	if c.HighBitDepth {
		c.BitDepth = 10
		if profile == 2 {
			c.TwelveBit = r.B()
			if c.TwelveBit {
				c.BitDepth = 12
			}
		}
	}
	if profile != 1 {
		c.MonoChrome = r.B()
	}
	c.NumPlanes = 3
	if c.MonoChrome {
		c.NumPlanes = 1
	}
	c.ColorDescriptionPresent = r.B()
	c.ColorPrimaries = 2
	c.TransferCharacteristics = 2
	c.MatrixCoefficients = 2
	if c.ColorDescriptionPresent {
		c.ColorPrimaries = r.F(8)
		c.TransferCharacteristics = r.F(8)
		c.MatrixCoefficients = r.F(8)
	}
	if c.MonoChrome {
		c.ColorRange = r.B()
		c.SubsamplingX = true
		c.SubsamplingY = true
		return c
	}
	if c.ColorPrimaries == 1 && c.TransferCharacteristics == 13 && c.MatrixCoefficients == 0 {
		c.ColorRange = true
	} else {
		c.ColorRange = r.B()
		if profile == 0 {
			c.SubsamplingX = true
			c.SubsamplingY = true
		} else if profile == 2 {
			if c.BitDepth == 12 {
				c.SubsamplingX = r.B()
				if c.SubsamplingX {
					c.SubsamplingY = r.B()
				}
			} else {
				c.SubsamplingX = true
			}
		}
		if c.SubsamplingX && c.SubsamplingY {
			c.ChromaSamplePosition = r.F(2)
		}
	}
	c.SeparateUvDeltaQ = r.B()
	return c
}

//@ contract: NewColorConfig
//@ property: C06
func zzNewColorConfig(b *bitstream.BitStream, seqProfile int) {
	vs.Requires(b.Position >= 0 && b.Position+40 <= 8*len(b.Data))
	vs.Requires(0 <= seqProfile && seqProfile <= 2)
	vs.Split(seqProfile, 0, 2)
	vs.Modifies(&b.Position)
	r := bitstream.ZzAt(b)
	want := zzColor(r, seqProfile)
	got := NewColorConfig(b, seqProfile)
	vs.Ensures("colour configuration", vs.Eq(got, want))
	vs.Ensures("consumed", b.Position == r.Pos)
}

// ---- C05: sequence header

func zzSeq(r *bitstream.ZzR) SequenceHeader {
	s := SequenceHeader{}
	s.SeqProfile = r.F(3)
	s.StillPicture = r.B()
	reduced := r.B()
	s.ReducedStillPictureHeader = reduced
	if reduced {
		s.OperatingPointIdc = make([]int, 1)
		s.SeqLevelIdx = make([]int, 1)
		s.SeqTier = make([]int, 1)
		s.DecoderModelPresentForThisOp = make([]bool, 1)
		s.InitialDisplayDelayPresentForThisOp = make([]bool, 1)
		s.SeqLevelIdx[0] = r.F(5)
	} else {
		if r.B() {
			s.TimingInfo = zzTiming(r)
			s.DecoderModelInfoPresent = r.B()
			if s.DecoderModelInfoPresent {
				s.DecoderModelInfo.BufferDelayLengthMinusOne = r.F(5)
				s.DecoderModelInfo.NumUnitsInDecodingTick = r.F(32)
				s.DecoderModelInfo.BufferRemovalTimeLengthMinusOne = r.F(5)
				s.DecoderModelInfo.FramePresentationTimeLengthMinusOne = r.F(5)
			}
		}
		s.InitialDisplayDelayPresent = r.B()
		s.OperatingPointsCountMinusOne = r.F(5)
		n := s.OperatingPointsCountMinusOne + 1
		s.OperatingPointIdc = make([]int, n)
		s.SeqLevelIdx = make([]int, n)
		s.SeqTier = make([]int, n)
		s.DecoderModelPresentForThisOp = make([]bool, n)
		s.DecoderBufferDelay = make([]int, n)
		s.EncoderBufferDelay = make([]int, n)
		s.LowDelayModeFlag = make([]bool, n)
		s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
		s.InitialDisplayDelayMinusOne = make([]int, n)
		for i := 0; i < n; i++ {
			s.OperatingPointIdc[i] = r.F(12)
			s.SeqLevelIdx[i] = r.F(5)
			if s.SeqLevelIdx[i] > 7 {
				s.SeqTier[i] = r.F(1)
			}
			if s.DecoderModelInfoPresent {
				s.DecoderModelPresentForThisOp[i] = r.B()
				if s.DecoderModelPresentForThisOp[i] {
					k := s.DecoderModelInfo.BufferDelayLengthMinusOne + 1
					s.DecoderBufferDelay[i] = r.F(k)
					s.EncoderBufferDelay[i] = r.F(k)
					s.LowDelayModeFlag[i] = r.B()
				}
			}
			if s.InitialDisplayDelayPresent {
				s.InitialDisplayDelayPresentForThisOp[i] = r.B()
				if s.InitialDisplayDelayPresentForThisOp[i] {
					s.InitialDisplayDelayMinusOne[i] = r.F(4)
				}
			}
		}
	}
	s.FrameWidthBitsMinusOne = r.F(4)
	s.FrameHeightBitsMinusOne = r.F(4)
	s.MaxFrameWidthMinusOne = r.F(s.FrameWidthBitsMinusOne + 1)
	s.MaxFrameHeightMinusOne = r.F(s.FrameHeightBitsMinusOne + 1)
	if !reduced {
		s.FrameIdNumbersPresent = r.B()
	}
	if s.FrameIdNumbersPresent {
		s.DeltaFrameIdLengthMinusTwo = r.F(4)
		s.AdditionalFrameIdLengthMinusOne = r.F(3)
	}
	s.Use128x128SuperBlock = r.B()
	s.EnableFilterIntra = r.B()
	s.EnableIntraEdgeFilter = r.B()
	s.SeqForceScreenContentTools = 2
	s.SeqForceIntegerMv = 2
	if !reduced {
		s.EnableInterIntraCompound = r.B()
		s.EnableMaskedCompound = r.B()
		s.EnableWarpedMotion = r.B()
		s.EnableDualFilter = r.B()
		s.EnableOrderHint = r.B()
		if s.EnableOrderHint {
			s.EnableJntComp = r.B()
			s.EnableRefFrameMvs = r.B()
		}
		s.SeqChooseScreenContentTools = r.B()
		if !s.SeqChooseScreenContentTools {
			s.SeqForceScreenContentTools = r.F(1)
		}
		if s.SeqForceScreenContentTools > 0 {
			s.SeqChooseIntegerMv = r.B()
			if !s.SeqChooseIntegerMv {
				s.SeqForceIntegerMv = r.F(1)
			}
		}
		if s.EnableOrderHint {
			s.OrderHintBits = r.F(3) + 1
		}
	}
	s.EnableSuperRes = r.B()
	s.EnableCdef = r.B()
	s.EnableRestoration = r.B()
	s.ColorConfig = zzColor(r, s.SeqProfile)
	s.FilmGrainParamsPresent = r.B()
	return s
}

//@ contract: NewSequenceHeader
//@ property: C05
func zzNewSequenceHeader(b *bitstream.BitStream, st *state.State) {
	vs.Requires(b.Position >= 0 && b.Position+8000 <= 8*len(b.Data))
	vs.Requires(bitstream.Zz_LZ(b.Data, b.Position+71) < 32)
	vs.Requires(bitstream.Zz_Bits(b.Data, b.Position, 3) <= 2)
	vs.Modifies(&b.Position, &st.OperatingPointIdc)
	r := bitstream.ZzAt(b)
	want := zzSeq(r)
	got := NewSequenceHeader(b, st)
	vs.Ensures("sequence header", vs.Eq(got, want))
	vs.Ensures("consumed", b.Position == r.Pos)
	vs.Ensures("the first operating point is selected", st.OperatingPointIdc == want.OperatingPointIdc[0])
}

// ZzSeqEnd: where the sequence header at pos ends.
//
//@ opaque: SeqEnd
func ZzSeqEnd(data []byte, pos int) int {
	r := &bitstream.ZzR{data, pos}
	zzSeq(r)
	return r.Pos
}

// ZzSeqHead: a sequence header that starts at pos can be read.
func ZzSeqHead(data []byte, pos int) bool {
	return pos >= 0 && pos+8000 <= 8*len(data) && bitstream.Zz_LZ(data, pos+71) < 32 && bitstream.Zz_Bits(data, pos, 3) <= 2
}

// What other packages need to know of sequence headers.
//
//@ contract: NewSequenceHeader
//@ property: C20
//@ summary:
func zzNewSequenceHeaderEnd(b *bitstream.BitStream, st *state.State) {
	vs.Requires(ZzSeqHead(b.Data, b.Position))
	vs.Modifies(&b.Position, &st.OperatingPointIdc)
	pos := b.Position
	vs.Unfold(ZzSeqEnd(b.Data, pos))
	got := NewSequenceHeader(b, st)
	vs.Ensures("end", b.Position == ZzSeqEnd(b.Data, pos))
	vs.Ensures("forward", b.Position > pos)
	vs.Ensures("profile", got.SeqProfile == bitstream.Zz_Bits(b.Data, pos, 3))
	vs.Ensures("the first operating point is selected", len(got.OperatingPointIdc) >= 1 && st.OperatingPointIdc == got.OperatingPointIdc[0])
}
