package wedgemask

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) % 2147483647 }

//@ lemma: table Wedge_Bits
//@ property: C24
func zzTable_Wedge_Bits() {
	h := 0
	h = zzStep(h, -len(Wedge_Bits))
	for i := range Wedge_Bits {
		h = zzStep(h, Wedge_Bits[i])
	}
	vs.Ensures("the format's values", h == 288623073)
}

//@ lemma: table Wedge_Codebook
//@ property: C24
func zzTable_Wedge_Codebook() {
	h := 0
	h = zzStep(h, -len(Wedge_Codebook))
	for i := range Wedge_Codebook {
		h = zzStep(h, -len(Wedge_Codebook[i]))
		for j := range Wedge_Codebook[i] {
			h = zzStep(h, -len(Wedge_Codebook[i][j]))
			for k := range Wedge_Codebook[i][j] {
				h = zzStep(h, Wedge_Codebook[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1788110561)
}

//@ lemma: table Wedge_Master_Oblique_Even
//@ property: C24
func zzTable_Wedge_Master_Oblique_Even() {
	h := 0
	h = zzStep(h, -len(Wedge_Master_Oblique_Even))
	for i := range Wedge_Master_Oblique_Even {
		h = zzStep(h, Wedge_Master_Oblique_Even[i])
	}
	vs.Ensures("the format's values", h == 937355253)
}

//@ lemma: table Wedge_Master_Oblique_Odd
//@ property: C24
func zzTable_Wedge_Master_Oblique_Odd() {
	h := 0
	h = zzStep(h, -len(Wedge_Master_Oblique_Odd))
	for i := range Wedge_Master_Oblique_Odd {
		h = zzStep(h, Wedge_Master_Oblique_Odd[i])
	}
	vs.Ensures("the format's values", h == 1248232764)
}

//@ lemma: table Wedge_Master_Vertical
//@ property: C24
func zzTable_Wedge_Master_Vertical() {
	h := 0
	h = zzStep(h, -len(Wedge_Master_Vertical))
	for i := range Wedge_Master_Vertical {
		h = zzStep(h, Wedge_Master_Vertical[i])
	}
	vs.Ensures("the format's values", h == 130821495)
}
