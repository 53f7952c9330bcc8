package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

//@ contract: NewTileGroup
//@ trusted: a tile group of sz bytes is read to its end
func zzNewTileGroup(sz int, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vs.Requires(b.Position >= 0 && b.Position&7 == 0)
	vs.Requires(sz >= 0 && b.Position+8*sz <= 8*len(b.Data))
	vs.Modifies(&b.Position, &b.Leb128Bytes, s)
	pos := b.Position
	NewTileGroup(sz, b, s, uh, sh)
	vs.Ensures("consumed", b.Position == pos+8*sz)
}
