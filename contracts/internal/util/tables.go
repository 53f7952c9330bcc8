package util

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) % 2147483647 }

//@ lemma: table Cos128_Lookup
//@ property: C24
func zzTable_Cos128_Lookup() {
	h := 0
	h = zzStep(h, -len(Cos128_Lookup))
	for i := range Cos128_Lookup {
		h = zzStep(h, Cos128_Lookup[i])
	}
	vs.Ensures("the format's values", h == 317016417)
}

//@ lemma: table Obmc_Mask_16
//@ property: C24
func zzTable_Obmc_Mask_16() {
	h := 0
	h = zzStep(h, -len(Obmc_Mask_16))
	for i := range Obmc_Mask_16 {
		h = zzStep(h, Obmc_Mask_16[i])
	}
	vs.Ensures("the format's values", h == 250607484)
}

//@ lemma: table Obmc_Mask_2
//@ property: C24
func zzTable_Obmc_Mask_2() {
	h := 0
	h = zzStep(h, -len(Obmc_Mask_2))
	for i := range Obmc_Mask_2 {
		h = zzStep(h, Obmc_Mask_2[i])
	}
	vs.Ensures("the format's values", h == 556544712)
}

//@ lemma: table Obmc_Mask_32
//@ property: C24
func zzTable_Obmc_Mask_32() {
	h := 0
	h = zzStep(h, -len(Obmc_Mask_32))
	for i := range Obmc_Mask_32 {
		h = zzStep(h, Obmc_Mask_32[i])
	}
	vs.Ensures("the format's values", h == 408943528)
}

//@ lemma: table Obmc_Mask_4
//@ property: C24
func zzTable_Obmc_Mask_4() {
	h := 0
	h = zzStep(h, -len(Obmc_Mask_4))
	for i := range Obmc_Mask_4 {
		h = zzStep(h, Obmc_Mask_4[i])
	}
	vs.Ensures("the format's values", h == 1789098243)
}

//@ lemma: table Obmc_Mask_8
//@ property: C24
func zzTable_Obmc_Mask_8() {
	h := 0
	h = zzStep(h, -len(Obmc_Mask_8))
	for i := range Obmc_Mask_8 {
		h = zzStep(h, Obmc_Mask_8[i])
	}
	vs.Ensures("the format's values", h == 1448713143)
}
