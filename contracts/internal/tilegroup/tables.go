package tilegroup

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) % 2147483647 }

//@ lemma: table ADJUSTED_TX_SIZE
//@ property: C24
func zzTable_ADJUSTED_TX_SIZE() {
	h := 0
	h = zzStep(h, -len(ADJUSTED_TX_SIZE))
	for i := range ADJUSTED_TX_SIZE {
		h = zzStep(h, ADJUSTED_TX_SIZE[i])
	}
	vs.Ensures("the format's values", h == 1964775056)
}

//@ lemma: table Ac_Qlookup
//@ property: C24
func zzTable_Ac_Qlookup() {
	h := 0
	h = zzStep(h, -len(Ac_Qlookup))
	for i := range Ac_Qlookup {
		h = zzStep(h, -len(Ac_Qlookup[i]))
		for j := range Ac_Qlookup[i] {
			h = zzStep(h, Ac_Qlookup[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1947313036)
}

//@ lemma: table CDEF_DIRECTIONS
//@ property: C24
func zzTable_CDEF_DIRECTIONS() {
	h := 0
	h = zzStep(h, -len(CDEF_DIRECTIONS))
	for i := range CDEF_DIRECTIONS {
		h = zzStep(h, -len(CDEF_DIRECTIONS[i]))
		for j := range CDEF_DIRECTIONS[i] {
			h = zzStep(h, -len(CDEF_DIRECTIONS[i][j]))
			for k := range CDEF_DIRECTIONS[i][j] {
				h = zzStep(h, CDEF_DIRECTIONS[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 325316037)
}

//@ lemma: table CDEF_PRI_TAPS
//@ property: C24
func zzTable_CDEF_PRI_TAPS() {
	h := 0
	h = zzStep(h, -len(CDEF_PRI_TAPS))
	for i := range CDEF_PRI_TAPS {
		h = zzStep(h, -len(CDEF_PRI_TAPS[i]))
		for j := range CDEF_PRI_TAPS[i] {
			h = zzStep(h, CDEF_PRI_TAPS[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1790895946)
}

//@ lemma: table CDEF_SEC_TAPS
//@ property: C24
func zzTable_CDEF_SEC_TAPS() {
	h := 0
	h = zzStep(h, -len(CDEF_SEC_TAPS))
	for i := range CDEF_SEC_TAPS {
		h = zzStep(h, -len(CDEF_SEC_TAPS[i]))
		for j := range CDEF_SEC_TAPS[i] {
			h = zzStep(h, CDEF_SEC_TAPS[i][j])
		}
	}
	vs.Ensures("the format's values", h == 113563030)
}

//@ lemma: table CDEF_UV_DIR
//@ property: C24
func zzTable_CDEF_UV_DIR() {
	h := 0
	h = zzStep(h, -len(CDEF_UV_DIR))
	for i := range CDEF_UV_DIR {
		h = zzStep(h, -len(CDEF_UV_DIR[i]))
		for j := range CDEF_UV_DIR[i] {
			h = zzStep(h, -len(CDEF_UV_DIR[i][j]))
			for k := range CDEF_UV_DIR[i][j] {
				h = zzStep(h, CDEF_UV_DIR[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1431653361)
}

//@ lemma: table COEFF_BASE_CTX_OFFSET
//@ property: C24
func zzTable_COEFF_BASE_CTX_OFFSET() {
	h := 0
	h = zzStep(h, -len(COEFF_BASE_CTX_OFFSET))
	for i := range COEFF_BASE_CTX_OFFSET {
		h = zzStep(h, -len(COEFF_BASE_CTX_OFFSET[i]))
		for j := range COEFF_BASE_CTX_OFFSET[i] {
			h = zzStep(h, -len(COEFF_BASE_CTX_OFFSET[i][j]))
			for k := range COEFF_BASE_CTX_OFFSET[i][j] {
				h = zzStep(h, COEFF_BASE_CTX_OFFSET[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 2018728594)
}

//@ lemma: table COEFF_BASE_POS_CTX_OFFSET
//@ property: C24
func zzTable_COEFF_BASE_POS_CTX_OFFSET() {
	h := 0
	h = zzStep(h, -len(COEFF_BASE_POS_CTX_OFFSET))
	for i := range COEFF_BASE_POS_CTX_OFFSET {
		h = zzStep(h, COEFF_BASE_POS_CTX_OFFSET[i])
	}
	vs.Ensures("the format's values", h == 1161312618)
}

//@ lemma: table COMPOUND_MODE_CTX_MAP
//@ property: C24
func zzTable_COMPOUND_MODE_CTX_MAP() {
	h := 0
	h = zzStep(h, -len(COMPOUND_MODE_CTX_MAP))
	for i := range COMPOUND_MODE_CTX_MAP {
		h = zzStep(h, -len(COMPOUND_MODE_CTX_MAP[i]))
		for j := range COMPOUND_MODE_CTX_MAP[i] {
			h = zzStep(h, COMPOUND_MODE_CTX_MAP[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1552300894)
}

//@ lemma: table DIV_TABLE
//@ property: C24
func zzTable_DIV_TABLE() {
	h := 0
	h = zzStep(h, -len(DIV_TABLE))
	for i := range DIV_TABLE {
		h = zzStep(h, DIV_TABLE[i])
	}
	vs.Ensures("the format's values", h == 541848889)
}

//@ lemma: table Dc_Qlookup
//@ property: C24
func zzTable_Dc_Qlookup() {
	h := 0
	h = zzStep(h, -len(Dc_Qlookup))
	for i := range Dc_Qlookup {
		h = zzStep(h, -len(Dc_Qlookup[i]))
		for j := range Dc_Qlookup[i] {
			h = zzStep(h, Dc_Qlookup[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1396177715)
}

//@ lemma: table Default_Scan_16x16
//@ property: C24
func zzTable_Default_Scan_16x16() {
	h := 0
	h = zzStep(h, -len(Default_Scan_16x16))
	for i := range Default_Scan_16x16 {
		h = zzStep(h, Default_Scan_16x16[i])
	}
	vs.Ensures("the format's values", h == 837429890)
}

//@ lemma: table Default_Scan_16x32
//@ property: C24
func zzTable_Default_Scan_16x32() {
	h := 0
	h = zzStep(h, -len(Default_Scan_16x32))
	for i := range Default_Scan_16x32 {
		h = zzStep(h, Default_Scan_16x32[i])
	}
	vs.Ensures("the format's values", h == 1459868390)
}

//@ lemma: table Default_Scan_16x4
//@ property: C24
func zzTable_Default_Scan_16x4() {
	h := 0
	h = zzStep(h, -len(Default_Scan_16x4))
	for i := range Default_Scan_16x4 {
		h = zzStep(h, Default_Scan_16x4[i])
	}
	vs.Ensures("the format's values", h == 1464414637)
}

//@ lemma: table Default_Scan_16x8
//@ property: C24
func zzTable_Default_Scan_16x8() {
	h := 0
	h = zzStep(h, -len(Default_Scan_16x8))
	for i := range Default_Scan_16x8 {
		h = zzStep(h, Default_Scan_16x8[i])
	}
	vs.Ensures("the format's values", h == 465909966)
}

//@ lemma: table Default_Scan_32x16
//@ property: C24
func zzTable_Default_Scan_32x16() {
	h := 0
	h = zzStep(h, -len(Default_Scan_32x16))
	for i := range Default_Scan_32x16 {
		h = zzStep(h, Default_Scan_32x16[i])
	}
	vs.Ensures("the format's values", h == 660337222)
}

//@ lemma: table Default_Scan_32x32
//@ property: C24
func zzTable_Default_Scan_32x32() {
	h := 0
	h = zzStep(h, -len(Default_Scan_32x32))
	for i := range Default_Scan_32x32 {
		h = zzStep(h, Default_Scan_32x32[i])
	}
	vs.Ensures("the format's values", h == 1885399491)
}

//@ lemma: table Default_Scan_32x8
//@ property: C24
func zzTable_Default_Scan_32x8() {
	h := 0
	h = zzStep(h, -len(Default_Scan_32x8))
	for i := range Default_Scan_32x8 {
		h = zzStep(h, Default_Scan_32x8[i])
	}
	vs.Ensures("the format's values", h == 1404846961)
}

//@ lemma: table Default_Scan_4x16
//@ property: C24
func zzTable_Default_Scan_4x16() {
	h := 0
	h = zzStep(h, -len(Default_Scan_4x16))
	for i := range Default_Scan_4x16 {
		h = zzStep(h, Default_Scan_4x16[i])
	}
	vs.Ensures("the format's values", h == 70109230)
}

//@ lemma: table Default_Scan_4x4
//@ property: C24
func zzTable_Default_Scan_4x4() {
	h := 0
	h = zzStep(h, -len(Default_Scan_4x4))
	for i := range Default_Scan_4x4 {
		h = zzStep(h, Default_Scan_4x4[i])
	}
	vs.Ensures("the format's values", h == 1551010836)
}

//@ lemma: table Default_Scan_4x8
//@ property: C24
func zzTable_Default_Scan_4x8() {
	h := 0
	h = zzStep(h, -len(Default_Scan_4x8))
	for i := range Default_Scan_4x8 {
		h = zzStep(h, Default_Scan_4x8[i])
	}
	vs.Ensures("the format's values", h == 1648557347)
}

//@ lemma: table Default_Scan_8x16
//@ property: C24
func zzTable_Default_Scan_8x16() {
	h := 0
	h = zzStep(h, -len(Default_Scan_8x16))
	for i := range Default_Scan_8x16 {
		h = zzStep(h, Default_Scan_8x16[i])
	}
	vs.Ensures("the format's values", h == 836696933)
}

//@ lemma: table Default_Scan_8x32
//@ property: C24
func zzTable_Default_Scan_8x32() {
	h := 0
	h = zzStep(h, -len(Default_Scan_8x32))
	for i := range Default_Scan_8x32 {
		h = zzStep(h, Default_Scan_8x32[i])
	}
	vs.Ensures("the format's values", h == 1439926351)
}

//@ lemma: table Default_Scan_8x4
//@ property: C24
func zzTable_Default_Scan_8x4() {
	h := 0
	h = zzStep(h, -len(Default_Scan_8x4))
	for i := range Default_Scan_8x4 {
		h = zzStep(h, Default_Scan_8x4[i])
	}
	vs.Ensures("the format's values", h == 275993475)
}

//@ lemma: table Default_Scan_8x8
//@ property: C24
func zzTable_Default_Scan_8x8() {
	h := 0
	h = zzStep(h, -len(Default_Scan_8x8))
	for i := range Default_Scan_8x8 {
		h = zzStep(h, Default_Scan_8x8[i])
	}
	vs.Ensures("the format's values", h == 440642907)
}

//@ lemma: table Div_Lut
//@ property: C24
func zzTable_Div_Lut() {
	h := 0
	h = zzStep(h, -len(Div_Lut))
	for i := range Div_Lut {
		h = zzStep(h, Div_Lut[i])
	}
	vs.Ensures("the format's values", h == 262097199)
}

//@ lemma: table Dr_Intra_Derivative
//@ property: C24
func zzTable_Dr_Intra_Derivative() {
	h := 0
	h = zzStep(h, -len(Dr_Intra_Derivative))
	for i := range Dr_Intra_Derivative {
		h = zzStep(h, Dr_Intra_Derivative[i])
	}
	vs.Ensures("the format's values", h == 2105650778)
}

//@ lemma: table FILTER_INTRA_MODE_TO_INTRA_DIR
//@ property: C24
func zzTable_FILTER_INTRA_MODE_TO_INTRA_DIR() {
	h := 0
	h = zzStep(h, -len(FILTER_INTRA_MODE_TO_INTRA_DIR))
	for i := range FILTER_INTRA_MODE_TO_INTRA_DIR {
		h = zzStep(h, FILTER_INTRA_MODE_TO_INTRA_DIR[i])
	}
	vs.Ensures("the format's values", h == 1625800985)
}

//@ lemma: table INTRA_MODE_CONTEXT
//@ property: C24
func zzTable_INTRA_MODE_CONTEXT() {
	h := 0
	h = zzStep(h, -len(INTRA_MODE_CONTEXT))
	for i := range INTRA_MODE_CONTEXT {
		h = zzStep(h, INTRA_MODE_CONTEXT[i])
	}
	vs.Ensures("the format's values", h == 1834339062)
}

//@ lemma: table Ii_Weights_1d
//@ property: C24
func zzTable_Ii_Weights_1d() {
	h := 0
	h = zzStep(h, -len(Ii_Weights_1d))
	for i := range Ii_Weights_1d {
		h = zzStep(h, Ii_Weights_1d[i])
	}
	vs.Ensures("the format's values", h == 1117085051)
}

//@ lemma: table Intra_Edge_Kernel
//@ property: C24
func zzTable_Intra_Edge_Kernel() {
	h := 0
	h = zzStep(h, -len(Intra_Edge_Kernel))
	for i := range Intra_Edge_Kernel {
		h = zzStep(h, -len(Intra_Edge_Kernel[i]))
		for j := range Intra_Edge_Kernel[i] {
			h = zzStep(h, Intra_Edge_Kernel[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1050745828)
}

//@ lemma: table Intra_Filter_Taps
//@ property: C24
func zzTable_Intra_Filter_Taps() {
	h := 0
	h = zzStep(h, -len(Intra_Filter_Taps))
	for i := range Intra_Filter_Taps {
		h = zzStep(h, -len(Intra_Filter_Taps[i]))
		for j := range Intra_Filter_Taps[i] {
			h = zzStep(h, -len(Intra_Filter_Taps[i][j]))
			for k := range Intra_Filter_Taps[i][j] {
				h = zzStep(h, Intra_Filter_Taps[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 21696847)
}

//@ lemma: table MAG_REF_OFFSET_WITH_TX_CLASS
//@ property: C24
func zzTable_MAG_REF_OFFSET_WITH_TX_CLASS() {
	h := 0
	h = zzStep(h, -len(MAG_REF_OFFSET_WITH_TX_CLASS))
	for i := range MAG_REF_OFFSET_WITH_TX_CLASS {
		h = zzStep(h, -len(MAG_REF_OFFSET_WITH_TX_CLASS[i]))
		for j := range MAG_REF_OFFSET_WITH_TX_CLASS[i] {
			h = zzStep(h, -len(MAG_REF_OFFSET_WITH_TX_CLASS[i][j]))
			for k := range MAG_REF_OFFSET_WITH_TX_CLASS[i][j] {
				h = zzStep(h, MAG_REF_OFFSET_WITH_TX_CLASS[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1556033200)
}

//@ lemma: table Max_Tx_Depth
//@ property: C24
func zzTable_Max_Tx_Depth() {
	h := 0
	h = zzStep(h, -len(Max_Tx_Depth))
	for i := range Max_Tx_Depth {
		h = zzStep(h, Max_Tx_Depth[i])
	}
	vs.Ensures("the format's values", h == 1653564918)
}

//@ lemma: table Max_Tx_Size_Rect
//@ property: C24
func zzTable_Max_Tx_Size_Rect() {
	h := 0
	h = zzStep(h, -len(Max_Tx_Size_Rect))
	for i := range Max_Tx_Size_Rect {
		h = zzStep(h, Max_Tx_Size_Rect[i])
	}
	vs.Ensures("the format's values", h == 2122207753)
}

//@ lemma: table Mcol_Scan_16x16
//@ property: C24
func zzTable_Mcol_Scan_16x16() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_16x16))
	for i := range Mcol_Scan_16x16 {
		h = zzStep(h, Mcol_Scan_16x16[i])
	}
	vs.Ensures("the format's values", h == 1324924399)
}

//@ lemma: table Mcol_Scan_16x4
//@ property: C24
func zzTable_Mcol_Scan_16x4() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_16x4))
	for i := range Mcol_Scan_16x4 {
		h = zzStep(h, Mcol_Scan_16x4[i])
	}
	vs.Ensures("the format's values", h == 655947140)
}

//@ lemma: table Mcol_Scan_16x8
//@ property: C24
func zzTable_Mcol_Scan_16x8() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_16x8))
	for i := range Mcol_Scan_16x8 {
		h = zzStep(h, Mcol_Scan_16x8[i])
	}
	vs.Ensures("the format's values", h == 586998723)
}

//@ lemma: table Mcol_Scan_4x16
//@ property: C24
func zzTable_Mcol_Scan_4x16() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_4x16))
	for i := range Mcol_Scan_4x16 {
		h = zzStep(h, Mcol_Scan_4x16[i])
	}
	vs.Ensures("the format's values", h == 1305886672)
}

//@ lemma: table Mcol_Scan_4x4
//@ property: C24
func zzTable_Mcol_Scan_4x4() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_4x4))
	for i := range Mcol_Scan_4x4 {
		h = zzStep(h, Mcol_Scan_4x4[i])
	}
	vs.Ensures("the format's values", h == 861222739)
}

//@ lemma: table Mcol_Scan_4x8
//@ property: C24
func zzTable_Mcol_Scan_4x8() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_4x8))
	for i := range Mcol_Scan_4x8 {
		h = zzStep(h, Mcol_Scan_4x8[i])
	}
	vs.Ensures("the format's values", h == 728892356)
}

//@ lemma: table Mcol_Scan_8x16
//@ property: C24
func zzTable_Mcol_Scan_8x16() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_8x16))
	for i := range Mcol_Scan_8x16 {
		h = zzStep(h, Mcol_Scan_8x16[i])
	}
	vs.Ensures("the format's values", h == 303011912)
}

//@ lemma: table Mcol_Scan_8x4
//@ property: C24
func zzTable_Mcol_Scan_8x4() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_8x4))
	for i := range Mcol_Scan_8x4 {
		h = zzStep(h, Mcol_Scan_8x4[i])
	}
	vs.Ensures("the format's values", h == 1771340734)
}

//@ lemma: table Mcol_Scan_8x8
//@ property: C24
func zzTable_Mcol_Scan_8x8() {
	h := 0
	h = zzStep(h, -len(Mcol_Scan_8x8))
	for i := range Mcol_Scan_8x8 {
		h = zzStep(h, Mcol_Scan_8x8[i])
	}
	vs.Ensures("the format's values", h == 587805296)
}

//@ lemma: table Mode_To_Angle
//@ property: C24
func zzTable_Mode_To_Angle() {
	h := 0
	h = zzStep(h, -len(Mode_To_Angle))
	for i := range Mode_To_Angle {
		h = zzStep(h, Mode_To_Angle[i])
	}
	vs.Ensures("the format's values", h == 1162274829)
}

//@ lemma: table Mode_To_Txfm
//@ property: C24
func zzTable_Mode_To_Txfm() {
	h := 0
	h = zzStep(h, -len(Mode_To_Txfm))
	for i := range Mode_To_Txfm {
		h = zzStep(h, Mode_To_Txfm[i])
	}
	vs.Ensures("the format's values", h == 234257872)
}

//@ lemma: table Mrow_Scan_16x16
//@ property: C24
func zzTable_Mrow_Scan_16x16() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_16x16))
	for i := range Mrow_Scan_16x16 {
		h = zzStep(h, Mrow_Scan_16x16[i])
	}
	vs.Ensures("the format's values", h == 537920638)
}

//@ lemma: table Mrow_Scan_16x4
//@ property: C24
func zzTable_Mrow_Scan_16x4() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_16x4))
	for i := range Mrow_Scan_16x4 {
		h = zzStep(h, Mrow_Scan_16x4[i])
	}
	vs.Ensures("the format's values", h == 2043706937)
}

//@ lemma: table Mrow_Scan_16x8
//@ property: C24
func zzTable_Mrow_Scan_16x8() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_16x8))
	for i := range Mrow_Scan_16x8 {
		h = zzStep(h, Mrow_Scan_16x8[i])
	}
	vs.Ensures("the format's values", h == 1122215663)
}

//@ lemma: table Mrow_Scan_4x16
//@ property: C24
func zzTable_Mrow_Scan_4x16() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_4x16))
	for i := range Mrow_Scan_4x16 {
		h = zzStep(h, Mrow_Scan_4x16[i])
	}
	vs.Ensures("the format's values", h == 2043706937)
}

//@ lemma: table Mrow_Scan_4x4
//@ property: C24
func zzTable_Mrow_Scan_4x4() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_4x4))
	for i := range Mrow_Scan_4x4 {
		h = zzStep(h, Mrow_Scan_4x4[i])
	}
	vs.Ensures("the format's values", h == 173852750)
}

//@ lemma: table Mrow_Scan_4x8
//@ property: C24
func zzTable_Mrow_Scan_4x8() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_4x8))
	for i := range Mrow_Scan_4x8 {
		h = zzStep(h, Mrow_Scan_4x8[i])
	}
	vs.Ensures("the format's values", h == 687030655)
}

//@ lemma: table Mrow_Scan_8x16
//@ property: C24
func zzTable_Mrow_Scan_8x16() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_8x16))
	for i := range Mrow_Scan_8x16 {
		h = zzStep(h, Mrow_Scan_8x16[i])
	}
	vs.Ensures("the format's values", h == 1122215663)
}

//@ lemma: table Mrow_Scan_8x4
//@ property: C24
func zzTable_Mrow_Scan_8x4() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_8x4))
	for i := range Mrow_Scan_8x4 {
		h = zzStep(h, Mrow_Scan_8x4[i])
	}
	vs.Ensures("the format's values", h == 687030655)
}

//@ lemma: table Mrow_Scan_8x8
//@ property: C24
func zzTable_Mrow_Scan_8x8() {
	h := 0
	h = zzStep(h, -len(Mrow_Scan_8x8))
	for i := range Mrow_Scan_8x8 {
		h = zzStep(h, Mrow_Scan_8x8[i])
	}
	vs.Ensures("the format's values", h == 2043706937)
}

//@ lemma: table Palette_Color_Hash_Multipliers
//@ property: C24
func zzTable_Palette_Color_Hash_Multipliers() {
	h := 0
	h = zzStep(h, -len(Palette_Color_Hash_Multipliers))
	for i := range Palette_Color_Hash_Multipliers {
		h = zzStep(h, Palette_Color_Hash_Multipliers[i])
	}
	vs.Ensures("the format's values", h == 1908938434)
}

//@ lemma: table Qm_Offset
//@ property: C24
func zzTable_Qm_Offset() {
	h := 0
	h = zzStep(h, -len(Qm_Offset))
	for i := range Qm_Offset {
		h = zzStep(h, Qm_Offset[i])
	}
	vs.Ensures("the format's values", h == 1166536686)
}

//@ lemma: table Quant_Dist_Lookup
//@ property: C24
func zzTable_Quant_Dist_Lookup() {
	h := 0
	h = zzStep(h, -len(Quant_Dist_Lookup))
	for i := range Quant_Dist_Lookup {
		h = zzStep(h, -len(Quant_Dist_Lookup[i]))
		for j := range Quant_Dist_Lookup[i] {
			h = zzStep(h, Quant_Dist_Lookup[i][j])
		}
	}
	vs.Ensures("the format's values", h == 377176728)
}

//@ lemma: table Quant_Dist_Weight
//@ property: C24
func zzTable_Quant_Dist_Weight() {
	h := 0
	h = zzStep(h, -len(Quant_Dist_Weight))
	for i := range Quant_Dist_Weight {
		h = zzStep(h, -len(Quant_Dist_Weight[i]))
		for j := range Quant_Dist_Weight[i] {
			h = zzStep(h, Quant_Dist_Weight[i][j])
		}
	}
	vs.Ensures("the format's values", h == 844061907)
}

//@ lemma: table Quantizer_Matrix
//@ property: C24
func zzTable_Quantizer_Matrix() {
	h := 0
	h = zzStep(h, -len(Quantizer_Matrix))
	for i := range Quantizer_Matrix {
		h = zzStep(h, -len(Quantizer_Matrix[i]))
		for j := range Quantizer_Matrix[i] {
			h = zzStep(h, -len(Quantizer_Matrix[i][j]))
			for k := range Quantizer_Matrix[i][j] {
				h = zzStep(h, Quantizer_Matrix[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1669995600)
}

//@ lemma: table SGR_PARAMS
//@ property: C24
func zzTable_SGR_PARAMS() {
	h := 0
	h = zzStep(h, -len(SGR_PARAMS))
	for i := range SGR_PARAMS {
		h = zzStep(h, -len(SGR_PARAMS[i]))
		for j := range SGR_PARAMS[i] {
			h = zzStep(h, SGR_PARAMS[i][j])
		}
	}
	vs.Ensures("the format's values", h == 514416595)
}

//@ lemma: table SIG_REF_DIFF_OFFSET
//@ property: C24
func zzTable_SIG_REF_DIFF_OFFSET() {
	h := 0
	h = zzStep(h, -len(SIG_REF_DIFF_OFFSET))
	for i := range SIG_REF_DIFF_OFFSET {
		h = zzStep(h, -len(SIG_REF_DIFF_OFFSET[i]))
		for j := range SIG_REF_DIFF_OFFSET[i] {
			h = zzStep(h, -len(SIG_REF_DIFF_OFFSET[i][j]))
			for k := range SIG_REF_DIFF_OFFSET[i][j] {
				h = zzStep(h, SIG_REF_DIFF_OFFSET[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1928742690)
}

//@ lemma: table SIZE_GROUP
//@ property: C24
func zzTable_SIZE_GROUP() {
	h := 0
	h = zzStep(h, -len(SIZE_GROUP))
	for i := range SIZE_GROUP {
		h = zzStep(h, SIZE_GROUP[i])
	}
	vs.Ensures("the format's values", h == 77206406)
}

//@ lemma: table Sgrproj_Xqd_Max
//@ property: C24
func zzTable_Sgrproj_Xqd_Max() {
	h := 0
	h = zzStep(h, -len(Sgrproj_Xqd_Max))
	for i := range Sgrproj_Xqd_Max {
		h = zzStep(h, Sgrproj_Xqd_Max[i])
	}
	vs.Ensures("the format's values", h == 321658077)
}

//@ lemma: table Sgrproj_Xqd_Mid
//@ property: C24
func zzTable_Sgrproj_Xqd_Mid() {
	h := 0
	h = zzStep(h, -len(Sgrproj_Xqd_Mid))
	for i := range Sgrproj_Xqd_Mid {
		h = zzStep(h, Sgrproj_Xqd_Mid[i])
	}
	vs.Ensures("the format's values", h == 1412151663)
}

//@ lemma: table Sgrproj_Xqd_Min
//@ property: C24
func zzTable_Sgrproj_Xqd_Min() {
	h := 0
	h = zzStep(h, -len(Sgrproj_Xqd_Min))
	for i := range Sgrproj_Xqd_Min {
		h = zzStep(h, Sgrproj_Xqd_Min[i])
	}
	vs.Ensures("the format's values", h == 338383984)
}

//@ lemma: table Sm_Weights_Tx_16x16
//@ property: C24
func zzTable_Sm_Weights_Tx_16x16() {
	h := 0
	h = zzStep(h, -len(Sm_Weights_Tx_16x16))
	for i := range Sm_Weights_Tx_16x16 {
		h = zzStep(h, Sm_Weights_Tx_16x16[i])
	}
	vs.Ensures("the format's values", h == 1185091094)
}

//@ lemma: table Sm_Weights_Tx_32x32
//@ property: C24
func zzTable_Sm_Weights_Tx_32x32() {
	h := 0
	h = zzStep(h, -len(Sm_Weights_Tx_32x32))
	for i := range Sm_Weights_Tx_32x32 {
		h = zzStep(h, Sm_Weights_Tx_32x32[i])
	}
	vs.Ensures("the format's values", h == 487610971)
}

//@ lemma: table Sm_Weights_Tx_4x4
//@ property: C24
func zzTable_Sm_Weights_Tx_4x4() {
	h := 0
	h = zzStep(h, -len(Sm_Weights_Tx_4x4))
	for i := range Sm_Weights_Tx_4x4 {
		h = zzStep(h, Sm_Weights_Tx_4x4[i])
	}
	vs.Ensures("the format's values", h == 1128672782)
}

//@ lemma: table Sm_Weights_Tx_64x64
//@ property: C24
func zzTable_Sm_Weights_Tx_64x64() {
	h := 0
	h = zzStep(h, -len(Sm_Weights_Tx_64x64))
	for i := range Sm_Weights_Tx_64x64 {
		h = zzStep(h, Sm_Weights_Tx_64x64[i])
	}
	vs.Ensures("the format's values", h == 2057886746)
}

//@ lemma: table Sm_Weights_Tx_8x8
//@ property: C24
func zzTable_Sm_Weights_Tx_8x8() {
	h := 0
	h = zzStep(h, -len(Sm_Weights_Tx_8x8))
	for i := range Sm_Weights_Tx_8x8 {
		h = zzStep(h, Sm_Weights_Tx_8x8[i])
	}
	vs.Ensures("the format's values", h == 286918099)
}

//@ lemma: table Split_Tx_Size
//@ property: C24
func zzTable_Split_Tx_Size() {
	h := 0
	h = zzStep(h, -len(Split_Tx_Size))
	for i := range Split_Tx_Size {
		h = zzStep(h, Split_Tx_Size[i])
	}
	vs.Ensures("the format's values", h == 552200330)
}

//@ lemma: table Subpel_Filters
//@ property: C24
func zzTable_Subpel_Filters() {
	h := 0
	h = zzStep(h, -len(Subpel_Filters))
	for i := range Subpel_Filters {
		h = zzStep(h, -len(Subpel_Filters[i]))
		for j := range Subpel_Filters[i] {
			h = zzStep(h, -len(Subpel_Filters[i][j]))
			for k := range Subpel_Filters[i][j] {
				h = zzStep(h, Subpel_Filters[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 438646001)
}

//@ lemma: table TX_HEIGHT_LOG2
//@ property: C24
func zzTable_TX_HEIGHT_LOG2() {
	h := 0
	h = zzStep(h, -len(TX_HEIGHT_LOG2))
	for i := range TX_HEIGHT_LOG2 {
		h = zzStep(h, TX_HEIGHT_LOG2[i])
	}
	vs.Ensures("the format's values", h == 2093085352)
}

//@ lemma: table TX_SIZE_SQR
//@ property: C24
func zzTable_TX_SIZE_SQR() {
	h := 0
	h = zzStep(h, -len(TX_SIZE_SQR))
	for i := range TX_SIZE_SQR {
		h = zzStep(h, TX_SIZE_SQR[i])
	}
	vs.Ensures("the format's values", h == 188373499)
}

//@ lemma: table TX_SIZE_SQR_UP
//@ property: C24
func zzTable_TX_SIZE_SQR_UP() {
	h := 0
	h = zzStep(h, -len(TX_SIZE_SQR_UP))
	for i := range TX_SIZE_SQR_UP {
		h = zzStep(h, TX_SIZE_SQR_UP[i])
	}
	vs.Ensures("the format's values", h == 817092809)
}

//@ lemma: table TX_WIDTH_LOG2
//@ property: C24
func zzTable_TX_WIDTH_LOG2() {
	h := 0
	h = zzStep(h, -len(TX_WIDTH_LOG2))
	for i := range TX_WIDTH_LOG2 {
		h = zzStep(h, TX_WIDTH_LOG2[i])
	}
	vs.Ensures("the format's values", h == 1659000790)
}

//@ lemma: table Transform_Row_Shift
//@ property: C24
func zzTable_Transform_Row_Shift() {
	h := 0
	h = zzStep(h, -len(Transform_Row_Shift))
	for i := range Transform_Row_Shift {
		h = zzStep(h, Transform_Row_Shift[i])
	}
	vs.Ensures("the format's values", h == 237753849)
}

//@ lemma: table Tx_Height
//@ property: C24
func zzTable_Tx_Height() {
	h := 0
	h = zzStep(h, -len(Tx_Height))
	for i := range Tx_Height {
		h = zzStep(h, Tx_Height[i])
	}
	vs.Ensures("the format's values", h == 1431456336)
}

//@ lemma: table Tx_Type_In_Set_Inter
//@ property: C24
func zzTable_Tx_Type_In_Set_Inter() {
	h := 0
	h = zzStep(h, -len(Tx_Type_In_Set_Inter))
	for i := range Tx_Type_In_Set_Inter {
		h = zzStep(h, -len(Tx_Type_In_Set_Inter[i]))
		for j := range Tx_Type_In_Set_Inter[i] {
			h = zzStep(h, Tx_Type_In_Set_Inter[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1816141273)
}

//@ lemma: table Tx_Type_In_Set_Intra
//@ property: C24
func zzTable_Tx_Type_In_Set_Intra() {
	h := 0
	h = zzStep(h, -len(Tx_Type_In_Set_Intra))
	for i := range Tx_Type_In_Set_Intra {
		h = zzStep(h, -len(Tx_Type_In_Set_Intra[i]))
		for j := range Tx_Type_In_Set_Intra[i] {
			h = zzStep(h, Tx_Type_In_Set_Intra[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1850864416)
}

//@ lemma: table Tx_Type_Inter_Inv_Set1
//@ property: C24
func zzTable_Tx_Type_Inter_Inv_Set1() {
	h := 0
	h = zzStep(h, -len(Tx_Type_Inter_Inv_Set1))
	for i := range Tx_Type_Inter_Inv_Set1 {
		h = zzStep(h, Tx_Type_Inter_Inv_Set1[i])
	}
	vs.Ensures("the format's values", h == 1017903661)
}

//@ lemma: table Tx_Type_Inter_Inv_Set2
//@ property: C24
func zzTable_Tx_Type_Inter_Inv_Set2() {
	h := 0
	h = zzStep(h, -len(Tx_Type_Inter_Inv_Set2))
	for i := range Tx_Type_Inter_Inv_Set2 {
		h = zzStep(h, Tx_Type_Inter_Inv_Set2[i])
	}
	vs.Ensures("the format's values", h == 1976892288)
}

//@ lemma: table Tx_Type_Inter_Inv_Set3
//@ property: C24
func zzTable_Tx_Type_Inter_Inv_Set3() {
	h := 0
	h = zzStep(h, -len(Tx_Type_Inter_Inv_Set3))
	for i := range Tx_Type_Inter_Inv_Set3 {
		h = zzStep(h, Tx_Type_Inter_Inv_Set3[i])
	}
	vs.Ensures("the format's values", h == 2100034011)
}

//@ lemma: table Tx_Type_Intra_Inv_Set1
//@ property: C24
func zzTable_Tx_Type_Intra_Inv_Set1() {
	h := 0
	h = zzStep(h, -len(Tx_Type_Intra_Inv_Set1))
	for i := range Tx_Type_Intra_Inv_Set1 {
		h = zzStep(h, Tx_Type_Intra_Inv_Set1[i])
	}
	vs.Ensures("the format's values", h == 280808845)
}

//@ lemma: table Tx_Type_Intra_Inv_Set2
//@ property: C24
func zzTable_Tx_Type_Intra_Inv_Set2() {
	h := 0
	h = zzStep(h, -len(Tx_Type_Intra_Inv_Set2))
	for i := range Tx_Type_Intra_Inv_Set2 {
		h = zzStep(h, Tx_Type_Intra_Inv_Set2[i])
	}
	vs.Ensures("the format's values", h == 828979798)
}

//@ lemma: table Tx_Width
//@ property: C24
func zzTable_Tx_Width() {
	h := 0
	h = zzStep(h, -len(Tx_Width))
	for i := range Tx_Width {
		h = zzStep(h, Tx_Width[i])
	}
	vs.Ensures("the format's values", h == 427012958)
}

//@ lemma: table UPSCALE_FILTER
//@ property: C24
func zzTable_UPSCALE_FILTER() {
	h := 0
	h = zzStep(h, -len(UPSCALE_FILTER))
	for i := range UPSCALE_FILTER {
		h = zzStep(h, -len(UPSCALE_FILTER[i]))
		for j := range UPSCALE_FILTER[i] {
			h = zzStep(h, UPSCALE_FILTER[i][j])
		}
	}
	vs.Ensures("the format's values", h == 484090172)
}

//@ lemma: table Warped_Filters
//@ property: C24
func zzTable_Warped_Filters() {
	h := 0
	h = zzStep(h, -len(Warped_Filters))
	for i := range Warped_Filters {
		h = zzStep(h, -len(Warped_Filters[i]))
		for j := range Warped_Filters[i] {
			h = zzStep(h, Warped_Filters[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1674874835)
}

//@ lemma: table Wiener_Taps_K
//@ property: C24
func zzTable_Wiener_Taps_K() {
	h := 0
	h = zzStep(h, -len(Wiener_Taps_K))
	for i := range Wiener_Taps_K {
		h = zzStep(h, Wiener_Taps_K[i])
	}
	vs.Ensures("the format's values", h == 1908938435)
}

//@ lemma: table Wiener_Taps_Max
//@ property: C24
func zzTable_Wiener_Taps_Max() {
	h := 0
	h = zzStep(h, -len(Wiener_Taps_Max))
	for i := range Wiener_Taps_Max {
		h = zzStep(h, Wiener_Taps_Max[i])
	}
	vs.Ensures("the format's values", h == 1307602506)
}

//@ lemma: table Wiener_Taps_Mid
//@ property: C24
func zzTable_Wiener_Taps_Mid() {
	h := 0
	h = zzStep(h, -len(Wiener_Taps_Mid))
	for i := range Wiener_Taps_Mid {
		h = zzStep(h, Wiener_Taps_Mid[i])
	}
	vs.Ensures("the format's values", h == 886111619)
}

//@ lemma: table Wiener_Taps_Min
//@ property: C24
func zzTable_Wiener_Taps_Min() {
	h := 0
	h = zzStep(h, -len(Wiener_Taps_Min))
	for i := range Wiener_Taps_Min {
		h = zzStep(h, Wiener_Taps_Min[i])
	}
	vs.Ensures("the format's values", h == 1957499064)
}
