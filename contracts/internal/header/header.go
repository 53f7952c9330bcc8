package header

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	vs "github.com/m4tthewde/gov1/internal/zzvs"
)

func zzExt(r *bitstream.ZzR) ExtensionHeader {
	e := ExtensionHeader{}
	e.TemporalID = r.F(3)
	e.SpatialID = r.F(2)
	e.Reserved3Bits = r.F(3)
	return e
}

func zzHdr(r *bitstream.ZzR) Header {
	h := Header{}
	h.ForbiddenBit = r.B()
	h.Type = r.F(4)
	h.ExtensionFlag = r.B()
	h.HasSizeField = r.B()
	h.ReservedBit = r.B()
	if h.ExtensionFlag {
		h.ExtensionHeader = zzExt(r)
	}
	return h
}

//@ contract: NewExtensionHeader
//@ property: C04
//@ optional:
func zzNewExtensionHeader(b *bitstream.BitStream) {
	vs.Requires(b.Position >= 0 && b.Position+8 <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	r := bitstream.ZzAt(b)
	want := zzExt(r)
	got := NewExtensionHeader(b)
	vs.Ensures("extension header", vs.Eq(got, want))
	vs.Ensures("consumed one byte", b.Position == r.Pos)
}

//@ contract: NewHeader
//@ property: C04
func zzNewHeader(b *bitstream.BitStream) {
	vs.Requires(b.Position >= 0 && b.Position+16 <= 8*len(b.Data))
	vs.Modifies(&b.Position)
	r := bitstream.ZzAt(b)
	want := zzHdr(r)
	got := NewHeader(b)
	vs.Ensures("header", vs.Eq(got, want))
	vs.Ensures("consumed one byte, two with an extension", b.Position == r.Pos)
}

func ZzHdr(r *bitstream.ZzR) Header { return zzHdr(r) }
