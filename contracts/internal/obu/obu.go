package obu

// Contracts for OBU framing (sections 5.3 and 5.9.1 of the format).

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

//@ invariant: Obu.paddingObu#0
func zzPaddingInv(o *Obu, pre_o *Obu, b *bitstream.BitStream, pre_b *bitstream.BitStream, i int, paddingLength int) (bool, int) {
	return 0 <= i && (i <= pre_o.Size || i == 0) && o.Size == pre_o.Size && b.Position == pre_b.Position+8*i && 0 <= paddingLength && (paddingLength < i || i == 0 && paddingLength == 0) &&
		vs.Eq(b.Data, pre_b.Data) && b.Leb128Bytes == pre_b.Leb128Bytes, pre_o.Size - i
}

// Padding bytes may have any value; what is left behind them is at least one byte of trailing bits.
//
//@ contract: Obu.paddingObu
//@ property: C20
func zzPaddingObu(o *Obu, b *bitstream.BitStream) {
	vs.Requires(0 <= o.Size && b.Position >= 0 && b.Position+8*o.Size <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	p := b.Position
	o.paddingObu(b)
	vs.Ensures("inside the padding OBU", p <= b.Position && b.Position <= p+8*util.Max(0, o.Size-1))
}

// zzDropped: the OBU belongs to a layer that the selected operating point does not include.
func zzDropped(h header.Header, idc int) bool {
	if h.Type == 1 || h.Type == 2 || idc == 0 || !h.ExtensionFlag {
		return false
	}
	t, s := h.ExtensionHeader.TemporalID, h.ExtensionHeader.SpatialID+8
	return idc>>t&1 == 0 || idc>>s&1 == 0
}

// An OBU takes exactly its own bytes, whatever they mean.
//
//@ contract: Obu.build
//@ property: C20
func zzBuild(o *Obu, sz int, b *bitstream.BitStream, s *state.State) {
	vs.Repair(func(rand func(n int) int) {
		b.Position = 8 * rand(4)
		if b.Position/8 < len(b.Data) {
			d := &b.Data[b.Position/8]
			typ := []byte{1, 2, 2, 5, 9, 15, 15}[rand(7)]
			*d = *d&^0x78 | typ<<3
			if b.Position/8+2 < len(b.Data) {
				b.Data[b.Position/8+1+int(*d>>2&1)] = byte(rand(20))
			}
		}
		s.OperatingPointIdc = rand(4096)
	})
	vs.Requires(b.Position >= 0 && b.Position&7 == 0 && b.Position+16 <= 8*len(b.Data))
	typ := bitstream.Zz_Bits(b.Data, b.Position+1, 4)
	vs.Split(typ, 0, 15)
	vs.Requires(typ != 8)
	r := bitstream.ZzAt(b)
	h := header.ZzHdr(r)
	size := sz - 1 - util.Int(h.ExtensionFlag)
	if h.HasSizeField {
		n := bitstream.Zz_LebLen(b.Data, r.Pos)
		size = bitstream.Zz_Leb(b.Data, r.Pos, n)
		r.Pos += 8 * n
	}
	start := r.Pos
	vs.SplitBool(h.HasSizeField)
	vs.Requires(0 <= size && size < 1<<40 && start+8*size <= 8*len(b.Data))
	vs.Requires(0 <= s.OperatingPointIdc && s.OperatingPointIdc < 4096)
	idc, seen, tile, uh0, seq0 := s.OperatingPointIdc, s.SeenFrameHeader, s.TileNum, o.UncompressedHeader, o.SequenceHeader
	dropped := zzDropped(h, idc)
	vs.SplitBool(dropped)
	vs.SplitBool(seen)
	switch typ {
	case 1:
		vs.Requires(sequenceheader.ZzSeqHead(b.Data, start) && sequenceheader.ZzSeqEnd(b.Data, start) < start+8*size)
		vs.Modifies(o, &b.Position, &b.Leb128Bytes, &s.OperatingPointIdc)
	case 3, 6, 7:
		vs.Requires(uncompressedheader.ZzHeaderEnd(b.Data, start) < start+8*size)
		vs.Requires(typ != 6 || !seen)
		vs.Modifies(o, &b.Position, &b.Leb128Bytes, s)
		vs.Requires(size > 0)
	case 4:
		vs.Requires(size > 0)
		vs.Modifies(o, &b.Position, &b.Leb128Bytes, s)
	default:
		vs.Modifies(o, &b.Position, &b.Leb128Bytes, &s.SeenFrameHeader)
	}
	o.build(sz, b, s)
	vs.Ensures("the OBU's header", vs.Eq(o.Header, h))
	vs.Ensures("the OBU's size", o.Size == size)
	vs.Ensures("ends where its size says", b.Position == start+8*size)
	if dropped {
		vs.Ensures("an OBU of another layer has no effect", s.SeenFrameHeader == seen && s.OperatingPointIdc == idc && s.TileNum == tile &&
			vs.Eq(o.UncompressedHeader, uh0) && vs.Eq(o.SequenceHeader, seq0))
	} else if typ == 1 {
		vs.Ensures("sequence header", o.SequenceHeader.SeqProfile == bitstream.Zz_Bits(b.Data, start, 3))
		vs.Ensures("operating point", len(o.SequenceHeader.OperatingPointIdc) >= 1 && s.OperatingPointIdc == o.SequenceHeader.OperatingPointIdc[0])
	} else {
		vs.Ensures("sequence header stays", vs.Eq(o.SequenceHeader, seq0))
	}
	if !dropped && typ == 2 {
		vs.Ensures("a temporal delimiter starts a new frame", !s.SeenFrameHeader)
	}
	if !dropped && (typ == 3 || typ == 7) && seen {
		vs.Ensures("a repeated frame header changes nothing", s.SeenFrameHeader && s.TileNum == tile && vs.Eq(o.UncompressedHeader, uh0))
	}
	if !dropped && typ == 3 && !seen {
		vs.Ensures("a frame header is seen unless it shows an existing frame", s.SeenFrameHeader == !o.UncompressedHeader.ShowExistingFrame)
		vs.Ensures("tile groups start at tile 0", vs.Implies(s.SeenFrameHeader, s.TileNum == 0))
	}
	if typ == 2 || typ == 5 || typ == 0 || typ >= 9 {
		vs.Ensures("no frame data", vs.Eq(o.UncompressedHeader, uh0) && s.SeenFrameHeader == (seen && typ != 2))
	}
}

var _ = tilegroup.NewTileGroup
