package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

// ZzHeaderEnd: where the frame header that starts at pos ends.
//
//@ opaque: HeaderEnd
func ZzHeaderEnd(data []byte, pos int) int { return pos }

//@ contract: NewUncompressedHeader
//@ trusted: a frame header is read forward and its bits alone decide where it ends
func zzNewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) {
	vs.Requires(b.Position >= 0)
	vs.Modifies(&b.Position, &b.Leb128Bytes, s)
	pos := b.Position
	NewUncompressedHeader(h, sh, b, s)
	vs.Ensures("end", b.Position == ZzHeaderEnd(b.Data, pos))
	vs.Ensures("forward", b.Position > pos)
}

//@ contract: UncompressedHeader.DecodeFrameWrapup
//@ trusted: not implemented in this repository: panics
func zzDecodeFrameWrapup(u *UncompressedHeader) {
	vs.Modifies()
	u.DecodeFrameWrapup()
}
