package uncompressedheader

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) % 2147483647 }

//@ lemma: table DEFAULT_ANGLE_DELTA_CDF
//@ property: C24
func zzTable_DEFAULT_ANGLE_DELTA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_ANGLE_DELTA_CDF))
	for i := range DEFAULT_ANGLE_DELTA_CDF {
		h = zzStep(h, -len(DEFAULT_ANGLE_DELTA_CDF[i]))
		for j := range DEFAULT_ANGLE_DELTA_CDF[i] {
			h = zzStep(h, DEFAULT_ANGLE_DELTA_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 2129360087)
}

//@ lemma: table DEFAULT_CFL_ALPHA_CDF
//@ property: C24
func zzTable_DEFAULT_CFL_ALPHA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_CFL_ALPHA_CDF))
	for i := range DEFAULT_CFL_ALPHA_CDF {
		h = zzStep(h, -len(DEFAULT_CFL_ALPHA_CDF[i]))
		for j := range DEFAULT_CFL_ALPHA_CDF[i] {
			h = zzStep(h, DEFAULT_CFL_ALPHA_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 781265556)
}

//@ lemma: table DEFAULT_CFL_SIGN_CDF
//@ property: C24
func zzTable_DEFAULT_CFL_SIGN_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_CFL_SIGN_CDF))
	for i := range DEFAULT_CFL_SIGN_CDF {
		h = zzStep(h, DEFAULT_CFL_SIGN_CDF[i])
	}
	vs.Ensures("the format's values", h == 1021743882)
}

//@ lemma: table DEFAULT_COEFF_BASE_CDF
//@ property: C24
func zzTable_DEFAULT_COEFF_BASE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COEFF_BASE_CDF))
	for i := range DEFAULT_COEFF_BASE_CDF {
		h = zzStep(h, -len(DEFAULT_COEFF_BASE_CDF[i]))
		for j := range DEFAULT_COEFF_BASE_CDF[i] {
			h = zzStep(h, -len(DEFAULT_COEFF_BASE_CDF[i][j]))
			for k := range DEFAULT_COEFF_BASE_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_COEFF_BASE_CDF[i][j][k]))
				for l := range DEFAULT_COEFF_BASE_CDF[i][j][k] {
					h = zzStep(h, -len(DEFAULT_COEFF_BASE_CDF[i][j][k][l]))
					for m := range DEFAULT_COEFF_BASE_CDF[i][j][k][l] {
						h = zzStep(h, DEFAULT_COEFF_BASE_CDF[i][j][k][l][m])
					}
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 407460039)
}

//@ lemma: table DEFAULT_COEFF_BASE_EOB_CDF
//@ property: C24
func zzTable_DEFAULT_COEFF_BASE_EOB_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COEFF_BASE_EOB_CDF))
	for i := range DEFAULT_COEFF_BASE_EOB_CDF {
		h = zzStep(h, -len(DEFAULT_COEFF_BASE_EOB_CDF[i]))
		for j := range DEFAULT_COEFF_BASE_EOB_CDF[i] {
			h = zzStep(h, -len(DEFAULT_COEFF_BASE_EOB_CDF[i][j]))
			for k := range DEFAULT_COEFF_BASE_EOB_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_COEFF_BASE_EOB_CDF[i][j][k]))
				for l := range DEFAULT_COEFF_BASE_EOB_CDF[i][j][k] {
					h = zzStep(h, -len(DEFAULT_COEFF_BASE_EOB_CDF[i][j][k][l]))
					for m := range DEFAULT_COEFF_BASE_EOB_CDF[i][j][k][l] {
						h = zzStep(h, DEFAULT_COEFF_BASE_EOB_CDF[i][j][k][l][m])
					}
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 293939012)
}

//@ lemma: table DEFAULT_COEFF_BR_CDF
//@ property: C24
func zzTable_DEFAULT_COEFF_BR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COEFF_BR_CDF))
	for i := range DEFAULT_COEFF_BR_CDF {
		h = zzStep(h, -len(DEFAULT_COEFF_BR_CDF[i]))
		for j := range DEFAULT_COEFF_BR_CDF[i] {
			h = zzStep(h, -len(DEFAULT_COEFF_BR_CDF[i][j]))
			for k := range DEFAULT_COEFF_BR_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_COEFF_BR_CDF[i][j][k]))
				for l := range DEFAULT_COEFF_BR_CDF[i][j][k] {
					h = zzStep(h, -len(DEFAULT_COEFF_BR_CDF[i][j][k][l]))
					for m := range DEFAULT_COEFF_BR_CDF[i][j][k][l] {
						h = zzStep(h, DEFAULT_COEFF_BR_CDF[i][j][k][l][m])
					}
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 435496872)
}

//@ lemma: table DEFAULT_COMPOUND_IDX_CDF
//@ property: C24
func zzTable_DEFAULT_COMPOUND_IDX_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMPOUND_IDX_CDF))
	for i := range DEFAULT_COMPOUND_IDX_CDF {
		h = zzStep(h, -len(DEFAULT_COMPOUND_IDX_CDF[i]))
		for j := range DEFAULT_COMPOUND_IDX_CDF[i] {
			h = zzStep(h, DEFAULT_COMPOUND_IDX_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 210748660)
}

//@ lemma: table DEFAULT_COMPOUND_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_COMPOUND_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMPOUND_MODE_CDF))
	for i := range DEFAULT_COMPOUND_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_COMPOUND_MODE_CDF[i]))
		for j := range DEFAULT_COMPOUND_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_COMPOUND_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1148936221)
}

//@ lemma: table DEFAULT_COMPOUND_TYPE_CDF
//@ property: C24
func zzTable_DEFAULT_COMPOUND_TYPE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMPOUND_TYPE_CDF))
	for i := range DEFAULT_COMPOUND_TYPE_CDF {
		h = zzStep(h, -len(DEFAULT_COMPOUND_TYPE_CDF[i]))
		for j := range DEFAULT_COMPOUND_TYPE_CDF[i] {
			h = zzStep(h, DEFAULT_COMPOUND_TYPE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 673337793)
}

//@ lemma: table DEFAULT_COMP_BWD_REF_CDF
//@ property: C24
func zzTable_DEFAULT_COMP_BWD_REF_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMP_BWD_REF_CDF))
	for i := range DEFAULT_COMP_BWD_REF_CDF {
		h = zzStep(h, -len(DEFAULT_COMP_BWD_REF_CDF[i]))
		for j := range DEFAULT_COMP_BWD_REF_CDF[i] {
			h = zzStep(h, -len(DEFAULT_COMP_BWD_REF_CDF[i][j]))
			for k := range DEFAULT_COMP_BWD_REF_CDF[i][j] {
				h = zzStep(h, DEFAULT_COMP_BWD_REF_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1528487481)
}

//@ lemma: table DEFAULT_COMP_GROUP_IDX_CDF
//@ property: C24
func zzTable_DEFAULT_COMP_GROUP_IDX_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMP_GROUP_IDX_CDF))
	for i := range DEFAULT_COMP_GROUP_IDX_CDF {
		h = zzStep(h, -len(DEFAULT_COMP_GROUP_IDX_CDF[i]))
		for j := range DEFAULT_COMP_GROUP_IDX_CDF[i] {
			h = zzStep(h, DEFAULT_COMP_GROUP_IDX_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 79978350)
}

//@ lemma: table DEFAULT_COMP_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_COMP_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMP_MODE_CDF))
	for i := range DEFAULT_COMP_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_COMP_MODE_CDF[i]))
		for j := range DEFAULT_COMP_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_COMP_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 2119202387)
}

//@ lemma: table DEFAULT_COMP_REF_CDF
//@ property: C24
func zzTable_DEFAULT_COMP_REF_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMP_REF_CDF))
	for i := range DEFAULT_COMP_REF_CDF {
		h = zzStep(h, -len(DEFAULT_COMP_REF_CDF[i]))
		for j := range DEFAULT_COMP_REF_CDF[i] {
			h = zzStep(h, -len(DEFAULT_COMP_REF_CDF[i][j]))
			for k := range DEFAULT_COMP_REF_CDF[i][j] {
				h = zzStep(h, DEFAULT_COMP_REF_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1085086634)
}

//@ lemma: table DEFAULT_COMP_REF_TYPE_CDF
//@ property: C24
func zzTable_DEFAULT_COMP_REF_TYPE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_COMP_REF_TYPE_CDF))
	for i := range DEFAULT_COMP_REF_TYPE_CDF {
		h = zzStep(h, -len(DEFAULT_COMP_REF_TYPE_CDF[i]))
		for j := range DEFAULT_COMP_REF_TYPE_CDF[i] {
			h = zzStep(h, DEFAULT_COMP_REF_TYPE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1206740217)
}

//@ lemma: table DEFAULT_DC_SIGN_CDF
//@ property: C24
func zzTable_DEFAULT_DC_SIGN_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_DC_SIGN_CDF))
	for i := range DEFAULT_DC_SIGN_CDF {
		h = zzStep(h, -len(DEFAULT_DC_SIGN_CDF[i]))
		for j := range DEFAULT_DC_SIGN_CDF[i] {
			h = zzStep(h, -len(DEFAULT_DC_SIGN_CDF[i][j]))
			for k := range DEFAULT_DC_SIGN_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_DC_SIGN_CDF[i][j][k]))
				for l := range DEFAULT_DC_SIGN_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_DC_SIGN_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 1662637821)
}

//@ lemma: table DEFAULT_DELTA_LF_CDF
//@ property: C24
func zzTable_DEFAULT_DELTA_LF_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_DELTA_LF_CDF))
	for i := range DEFAULT_DELTA_LF_CDF {
		h = zzStep(h, DEFAULT_DELTA_LF_CDF[i])
	}
	vs.Ensures("the format's values", h == 1781707431)
}

//@ lemma: table DEFAULT_DELTA_Q_CDF
//@ property: C24
func zzTable_DEFAULT_DELTA_Q_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_DELTA_Q_CDF))
	for i := range DEFAULT_DELTA_Q_CDF {
		h = zzStep(h, DEFAULT_DELTA_Q_CDF[i])
	}
	vs.Ensures("the format's values", h == 1781707431)
}

//@ lemma: table DEFAULT_DRL_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_DRL_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_DRL_MODE_CDF))
	for i := range DEFAULT_DRL_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_DRL_MODE_CDF[i]))
		for j := range DEFAULT_DRL_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_DRL_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1608202160)
}

//@ lemma: table DEFAULT_EOB_EXTRA_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_EXTRA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_EXTRA_CDF))
	for i := range DEFAULT_EOB_EXTRA_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_EXTRA_CDF[i]))
		for j := range DEFAULT_EOB_EXTRA_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_EXTRA_CDF[i][j]))
			for k := range DEFAULT_EOB_EXTRA_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_EXTRA_CDF[i][j][k]))
				for l := range DEFAULT_EOB_EXTRA_CDF[i][j][k] {
					h = zzStep(h, -len(DEFAULT_EOB_EXTRA_CDF[i][j][k][l]))
					for m := range DEFAULT_EOB_EXTRA_CDF[i][j][k][l] {
						h = zzStep(h, DEFAULT_EOB_EXTRA_CDF[i][j][k][l][m])
					}
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 1540722733)
}

//@ lemma: table DEFAULT_EOB_PT_1024_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_1024_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_1024_CDF))
	for i := range DEFAULT_EOB_PT_1024_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_1024_CDF[i]))
		for j := range DEFAULT_EOB_PT_1024_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_1024_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_1024_CDF[i][j] {
				h = zzStep(h, DEFAULT_EOB_PT_1024_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 299273630)
}

//@ lemma: table DEFAULT_EOB_PT_128_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_128_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_128_CDF))
	for i := range DEFAULT_EOB_PT_128_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_128_CDF[i]))
		for j := range DEFAULT_EOB_PT_128_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_128_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_128_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_PT_128_CDF[i][j][k]))
				for l := range DEFAULT_EOB_PT_128_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_EOB_PT_128_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 2093537382)
}

//@ lemma: table DEFAULT_EOB_PT_16_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_16_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_16_CDF))
	for i := range DEFAULT_EOB_PT_16_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_16_CDF[i]))
		for j := range DEFAULT_EOB_PT_16_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_16_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_16_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_PT_16_CDF[i][j][k]))
				for l := range DEFAULT_EOB_PT_16_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_EOB_PT_16_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 403837276)
}

//@ lemma: table DEFAULT_EOB_PT_256_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_256_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_256_CDF))
	for i := range DEFAULT_EOB_PT_256_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_256_CDF[i]))
		for j := range DEFAULT_EOB_PT_256_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_256_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_256_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_PT_256_CDF[i][j][k]))
				for l := range DEFAULT_EOB_PT_256_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_EOB_PT_256_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 1861594558)
}

//@ lemma: table DEFAULT_EOB_PT_32_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_32_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_32_CDF))
	for i := range DEFAULT_EOB_PT_32_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_32_CDF[i]))
		for j := range DEFAULT_EOB_PT_32_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_32_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_32_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_PT_32_CDF[i][j][k]))
				for l := range DEFAULT_EOB_PT_32_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_EOB_PT_32_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 1868311298)
}

//@ lemma: table DEFAULT_EOB_PT_512_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_512_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_512_CDF))
	for i := range DEFAULT_EOB_PT_512_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_512_CDF[i]))
		for j := range DEFAULT_EOB_PT_512_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_512_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_512_CDF[i][j] {
				h = zzStep(h, DEFAULT_EOB_PT_512_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 195603260)
}

//@ lemma: table DEFAULT_EOB_PT_64_CDF
//@ property: C24
func zzTable_DEFAULT_EOB_PT_64_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_EOB_PT_64_CDF))
	for i := range DEFAULT_EOB_PT_64_CDF {
		h = zzStep(h, -len(DEFAULT_EOB_PT_64_CDF[i]))
		for j := range DEFAULT_EOB_PT_64_CDF[i] {
			h = zzStep(h, -len(DEFAULT_EOB_PT_64_CDF[i][j]))
			for k := range DEFAULT_EOB_PT_64_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_EOB_PT_64_CDF[i][j][k]))
				for l := range DEFAULT_EOB_PT_64_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_EOB_PT_64_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 1694580825)
}

//@ lemma: table DEFAULT_FILTER_INTRA_CDF
//@ property: C24
func zzTable_DEFAULT_FILTER_INTRA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_FILTER_INTRA_CDF))
	for i := range DEFAULT_FILTER_INTRA_CDF {
		h = zzStep(h, -len(DEFAULT_FILTER_INTRA_CDF[i]))
		for j := range DEFAULT_FILTER_INTRA_CDF[i] {
			h = zzStep(h, DEFAULT_FILTER_INTRA_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 933163381)
}

//@ lemma: table DEFAULT_FILTER_INTRA_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_FILTER_INTRA_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_FILTER_INTRA_MODE_CDF))
	for i := range DEFAULT_FILTER_INTRA_MODE_CDF {
		h = zzStep(h, DEFAULT_FILTER_INTRA_MODE_CDF[i])
	}
	vs.Ensures("the format's values", h == 593938472)
}

//@ lemma: table DEFAULT_INTERP_FILTER_CDF
//@ property: C24
func zzTable_DEFAULT_INTERP_FILTER_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTERP_FILTER_CDF))
	for i := range DEFAULT_INTERP_FILTER_CDF {
		h = zzStep(h, -len(DEFAULT_INTERP_FILTER_CDF[i]))
		for j := range DEFAULT_INTERP_FILTER_CDF[i] {
			h = zzStep(h, DEFAULT_INTERP_FILTER_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1167731210)
}

//@ lemma: table DEFAULT_INTER_INTRA_CDF
//@ property: C24
func zzTable_DEFAULT_INTER_INTRA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTER_INTRA_CDF))
	for i := range DEFAULT_INTER_INTRA_CDF {
		h = zzStep(h, -len(DEFAULT_INTER_INTRA_CDF[i]))
		for j := range DEFAULT_INTER_INTRA_CDF[i] {
			h = zzStep(h, DEFAULT_INTER_INTRA_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1409711327)
}

//@ lemma: table DEFAULT_INTER_INTRA_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_INTER_INTRA_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTER_INTRA_MODE_CDF))
	for i := range DEFAULT_INTER_INTRA_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_INTER_INTRA_MODE_CDF[i]))
		for j := range DEFAULT_INTER_INTRA_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_INTER_INTRA_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 538445250)
}

//@ lemma: table DEFAULT_INTER_TX_TYPE_SET1_CDF
//@ property: C24
func zzTable_DEFAULT_INTER_TX_TYPE_SET1_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTER_TX_TYPE_SET1_CDF))
	for i := range DEFAULT_INTER_TX_TYPE_SET1_CDF {
		h = zzStep(h, -len(DEFAULT_INTER_TX_TYPE_SET1_CDF[i]))
		for j := range DEFAULT_INTER_TX_TYPE_SET1_CDF[i] {
			h = zzStep(h, DEFAULT_INTER_TX_TYPE_SET1_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 687286625)
}

//@ lemma: table DEFAULT_INTER_TX_TYPE_SET2_CDF
//@ property: C24
func zzTable_DEFAULT_INTER_TX_TYPE_SET2_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTER_TX_TYPE_SET2_CDF))
	for i := range DEFAULT_INTER_TX_TYPE_SET2_CDF {
		h = zzStep(h, DEFAULT_INTER_TX_TYPE_SET2_CDF[i])
	}
	vs.Ensures("the format's values", h == 529878968)
}

//@ lemma: table DEFAULT_INTER_TX_TYPE_SET3_CDF
//@ property: C24
func zzTable_DEFAULT_INTER_TX_TYPE_SET3_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTER_TX_TYPE_SET3_CDF))
	for i := range DEFAULT_INTER_TX_TYPE_SET3_CDF {
		h = zzStep(h, -len(DEFAULT_INTER_TX_TYPE_SET3_CDF[i]))
		for j := range DEFAULT_INTER_TX_TYPE_SET3_CDF[i] {
			h = zzStep(h, DEFAULT_INTER_TX_TYPE_SET3_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 335961054)
}

//@ lemma: table DEFAULT_INTRABC_CDF
//@ property: C24
func zzTable_DEFAULT_INTRABC_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTRABC_CDF))
	for i := range DEFAULT_INTRABC_CDF {
		h = zzStep(h, DEFAULT_INTRABC_CDF[i])
	}
	vs.Ensures("the format's values", h == 1386406308)
}

//@ lemma: table DEFAULT_INTRA_FRAME_Y_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_INTRA_FRAME_Y_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTRA_FRAME_Y_MODE_CDF))
	for i := range DEFAULT_INTRA_FRAME_Y_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_INTRA_FRAME_Y_MODE_CDF[i]))
		for j := range DEFAULT_INTRA_FRAME_Y_MODE_CDF[i] {
			h = zzStep(h, -len(DEFAULT_INTRA_FRAME_Y_MODE_CDF[i][j]))
			for k := range DEFAULT_INTRA_FRAME_Y_MODE_CDF[i][j] {
				h = zzStep(h, DEFAULT_INTRA_FRAME_Y_MODE_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1111937961)
}

//@ lemma: table DEFAULT_INTRA_TX_TYPE_SET1_CDF
//@ property: C24
func zzTable_DEFAULT_INTRA_TX_TYPE_SET1_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET1_CDF))
	for i := range DEFAULT_INTRA_TX_TYPE_SET1_CDF {
		h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET1_CDF[i]))
		for j := range DEFAULT_INTRA_TX_TYPE_SET1_CDF[i] {
			h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET1_CDF[i][j]))
			for k := range DEFAULT_INTRA_TX_TYPE_SET1_CDF[i][j] {
				h = zzStep(h, DEFAULT_INTRA_TX_TYPE_SET1_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 238116412)
}

//@ lemma: table DEFAULT_INTRA_TX_TYPE_SET2_CDF
//@ property: C24
func zzTable_DEFAULT_INTRA_TX_TYPE_SET2_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET2_CDF))
	for i := range DEFAULT_INTRA_TX_TYPE_SET2_CDF {
		h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET2_CDF[i]))
		for j := range DEFAULT_INTRA_TX_TYPE_SET2_CDF[i] {
			h = zzStep(h, -len(DEFAULT_INTRA_TX_TYPE_SET2_CDF[i][j]))
			for k := range DEFAULT_INTRA_TX_TYPE_SET2_CDF[i][j] {
				h = zzStep(h, DEFAULT_INTRA_TX_TYPE_SET2_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 60470488)
}

//@ lemma: table DEFAULT_IS_INTER_CDF
//@ property: C24
func zzTable_DEFAULT_IS_INTER_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_IS_INTER_CDF))
	for i := range DEFAULT_IS_INTER_CDF {
		h = zzStep(h, -len(DEFAULT_IS_INTER_CDF[i]))
		for j := range DEFAULT_IS_INTER_CDF[i] {
			h = zzStep(h, DEFAULT_IS_INTER_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1457888352)
}

//@ lemma: table DEFAULT_MOTION_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_MOTION_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MOTION_MODE_CDF))
	for i := range DEFAULT_MOTION_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_MOTION_MODE_CDF[i]))
		for j := range DEFAULT_MOTION_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_MOTION_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1985137338)
}

//@ lemma: table DEFAULT_MV_BIT_CDF
//@ property: C24
func zzTable_DEFAULT_MV_BIT_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_BIT_CDF))
	for i := range DEFAULT_MV_BIT_CDF {
		h = zzStep(h, -len(DEFAULT_MV_BIT_CDF[i]))
		for j := range DEFAULT_MV_BIT_CDF[i] {
			h = zzStep(h, DEFAULT_MV_BIT_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 991605437)
}

//@ lemma: table DEFAULT_MV_CLASS0_BIT_CDF
//@ property: C24
func zzTable_DEFAULT_MV_CLASS0_BIT_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_CLASS0_BIT_CDF))
	for i := range DEFAULT_MV_CLASS0_BIT_CDF {
		h = zzStep(h, DEFAULT_MV_CLASS0_BIT_CDF[i])
	}
	vs.Ensures("the format's values", h == 775163455)
}

//@ lemma: table DEFAULT_MV_CLASS0_FR_CDF
//@ property: C24
func zzTable_DEFAULT_MV_CLASS0_FR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_CLASS0_FR_CDF))
	for i := range DEFAULT_MV_CLASS0_FR_CDF {
		h = zzStep(h, -len(DEFAULT_MV_CLASS0_FR_CDF[i]))
		for j := range DEFAULT_MV_CLASS0_FR_CDF[i] {
			h = zzStep(h, -len(DEFAULT_MV_CLASS0_FR_CDF[i][j]))
			for k := range DEFAULT_MV_CLASS0_FR_CDF[i][j] {
				h = zzStep(h, DEFAULT_MV_CLASS0_FR_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 362370500)
}

//@ lemma: table DEFAULT_MV_CLASS0_HP_CDF
//@ property: C24
func zzTable_DEFAULT_MV_CLASS0_HP_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_CLASS0_HP_CDF))
	for i := range DEFAULT_MV_CLASS0_HP_CDF {
		h = zzStep(h, DEFAULT_MV_CLASS0_HP_CDF[i])
	}
	vs.Ensures("the format's values", h == 818930158)
}

//@ lemma: table DEFAULT_MV_CLASS_CDF
//@ property: C24
func zzTable_DEFAULT_MV_CLASS_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_CLASS_CDF))
	for i := range DEFAULT_MV_CLASS_CDF {
		h = zzStep(h, -len(DEFAULT_MV_CLASS_CDF[i]))
		for j := range DEFAULT_MV_CLASS_CDF[i] {
			h = zzStep(h, DEFAULT_MV_CLASS_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 424511303)
}

//@ lemma: table DEFAULT_MV_FR_CDF
//@ property: C24
func zzTable_DEFAULT_MV_FR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_FR_CDF))
	for i := range DEFAULT_MV_FR_CDF {
		h = zzStep(h, -len(DEFAULT_MV_FR_CDF[i]))
		for j := range DEFAULT_MV_FR_CDF[i] {
			h = zzStep(h, DEFAULT_MV_FR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 279769450)
}

//@ lemma: table DEFAULT_MV_HP_CDF
//@ property: C24
func zzTable_DEFAULT_MV_HP_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_HP_CDF))
	for i := range DEFAULT_MV_HP_CDF {
		h = zzStep(h, DEFAULT_MV_HP_CDF[i])
	}
	vs.Ensures("the format's values", h == 1764289837)
}

//@ lemma: table DEFAULT_MV_JOINT_CDF
//@ property: C24
func zzTable_DEFAULT_MV_JOINT_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_JOINT_CDF))
	for i := range DEFAULT_MV_JOINT_CDF {
		h = zzStep(h, DEFAULT_MV_JOINT_CDF[i])
	}
	vs.Ensures("the format's values", h == 1707747092)
}

//@ lemma: table DEFAULT_MV_SIGN_CDF
//@ property: C24
func zzTable_DEFAULT_MV_SIGN_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_MV_SIGN_CDF))
	for i := range DEFAULT_MV_SIGN_CDF {
		h = zzStep(h, DEFAULT_MV_SIGN_CDF[i])
	}
	vs.Ensures("the format's values", h == 1764289837)
}

//@ lemma: table DEFAULT_NEW_MV_CDF
//@ property: C24
func zzTable_DEFAULT_NEW_MV_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_NEW_MV_CDF))
	for i := range DEFAULT_NEW_MV_CDF {
		h = zzStep(h, -len(DEFAULT_NEW_MV_CDF[i]))
		for j := range DEFAULT_NEW_MV_CDF[i] {
			h = zzStep(h, DEFAULT_NEW_MV_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 968160101)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1143991296)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1244998809)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_3_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1884384869)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 659656539)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_4_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1121633386)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_4_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1152939315)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 395580736)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 395580736)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_6_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 96722064)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1820165621)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_7_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1594445738)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_7_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1461684369)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_8_UV_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1493127908)
}

//@ lemma: table DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF))
	for i := range DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF[i]))
		for j := range DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_SIZE_8_Y_COLOR_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1651206631)
}

//@ lemma: table DEFAULT_PALETTE_UV_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_UV_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_UV_MODE_CDF))
	for i := range DEFAULT_PALETTE_UV_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_UV_MODE_CDF[i]))
		for j := range DEFAULT_PALETTE_UV_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_UV_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1265501186)
}

//@ lemma: table DEFAULT_PALETTE_UV_SIZE_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_UV_SIZE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_UV_SIZE_CDF))
	for i := range DEFAULT_PALETTE_UV_SIZE_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_UV_SIZE_CDF[i]))
		for j := range DEFAULT_PALETTE_UV_SIZE_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_UV_SIZE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1593582722)
}

//@ lemma: table DEFAULT_PALETTE_Y_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_Y_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_Y_MODE_CDF))
	for i := range DEFAULT_PALETTE_Y_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_Y_MODE_CDF[i]))
		for j := range DEFAULT_PALETTE_Y_MODE_CDF[i] {
			h = zzStep(h, -len(DEFAULT_PALETTE_Y_MODE_CDF[i][j]))
			for k := range DEFAULT_PALETTE_Y_MODE_CDF[i][j] {
				h = zzStep(h, DEFAULT_PALETTE_Y_MODE_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 2102241813)
}

//@ lemma: table DEFAULT_PALETTE_Y_SIZE_CDF
//@ property: C24
func zzTable_DEFAULT_PALETTE_Y_SIZE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PALETTE_Y_SIZE_CDF))
	for i := range DEFAULT_PALETTE_Y_SIZE_CDF {
		h = zzStep(h, -len(DEFAULT_PALETTE_Y_SIZE_CDF[i]))
		for j := range DEFAULT_PALETTE_Y_SIZE_CDF[i] {
			h = zzStep(h, DEFAULT_PALETTE_Y_SIZE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 962969520)
}

//@ lemma: table DEFAULT_PARTITION_W128_CDF
//@ property: C24
func zzTable_DEFAULT_PARTITION_W128_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PARTITION_W128_CDF))
	for i := range DEFAULT_PARTITION_W128_CDF {
		h = zzStep(h, -len(DEFAULT_PARTITION_W128_CDF[i]))
		for j := range DEFAULT_PARTITION_W128_CDF[i] {
			h = zzStep(h, DEFAULT_PARTITION_W128_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1245003632)
}

//@ lemma: table DEFAULT_PARTITION_W16_CDF
//@ property: C24
func zzTable_DEFAULT_PARTITION_W16_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PARTITION_W16_CDF))
	for i := range DEFAULT_PARTITION_W16_CDF {
		h = zzStep(h, -len(DEFAULT_PARTITION_W16_CDF[i]))
		for j := range DEFAULT_PARTITION_W16_CDF[i] {
			h = zzStep(h, DEFAULT_PARTITION_W16_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 415472900)
}

//@ lemma: table DEFAULT_PARTITION_W32_CDF
//@ property: C24
func zzTable_DEFAULT_PARTITION_W32_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PARTITION_W32_CDF))
	for i := range DEFAULT_PARTITION_W32_CDF {
		h = zzStep(h, -len(DEFAULT_PARTITION_W32_CDF[i]))
		for j := range DEFAULT_PARTITION_W32_CDF[i] {
			h = zzStep(h, DEFAULT_PARTITION_W32_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 95987979)
}

//@ lemma: table DEFAULT_PARTITION_W64_CDF
//@ property: C24
func zzTable_DEFAULT_PARTITION_W64_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PARTITION_W64_CDF))
	for i := range DEFAULT_PARTITION_W64_CDF {
		h = zzStep(h, -len(DEFAULT_PARTITION_W64_CDF[i]))
		for j := range DEFAULT_PARTITION_W64_CDF[i] {
			h = zzStep(h, DEFAULT_PARTITION_W64_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 882852950)
}

//@ lemma: table DEFAULT_PARTITION_W8_CDF
//@ property: C24
func zzTable_DEFAULT_PARTITION_W8_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_PARTITION_W8_CDF))
	for i := range DEFAULT_PARTITION_W8_CDF {
		h = zzStep(h, -len(DEFAULT_PARTITION_W8_CDF[i]))
		for j := range DEFAULT_PARTITION_W8_CDF[i] {
			h = zzStep(h, DEFAULT_PARTITION_W8_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1787681963)
}

//@ lemma: table DEFAULT_REF_MV_CDF
//@ property: C24
func zzTable_DEFAULT_REF_MV_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_REF_MV_CDF))
	for i := range DEFAULT_REF_MV_CDF {
		h = zzStep(h, -len(DEFAULT_REF_MV_CDF[i]))
		for j := range DEFAULT_REF_MV_CDF[i] {
			h = zzStep(h, DEFAULT_REF_MV_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 137729199)
}

//@ lemma: table DEFAULT_RESTORATION_TYPE_CDF
//@ property: C24
func zzTable_DEFAULT_RESTORATION_TYPE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_RESTORATION_TYPE_CDF))
	for i := range DEFAULT_RESTORATION_TYPE_CDF {
		h = zzStep(h, DEFAULT_RESTORATION_TYPE_CDF[i])
	}
	vs.Ensures("the format's values", h == 1329099859)
}

//@ lemma: table DEFAULT_SEGMENT_ID_CDF
//@ property: C24
func zzTable_DEFAULT_SEGMENT_ID_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_SEGMENT_ID_CDF))
	for i := range DEFAULT_SEGMENT_ID_CDF {
		h = zzStep(h, -len(DEFAULT_SEGMENT_ID_CDF[i]))
		for j := range DEFAULT_SEGMENT_ID_CDF[i] {
			h = zzStep(h, DEFAULT_SEGMENT_ID_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1943906550)
}

//@ lemma: table DEFAULT_SEGMENT_ID_PREDICTED_CDF
//@ property: C24
func zzTable_DEFAULT_SEGMENT_ID_PREDICTED_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_SEGMENT_ID_PREDICTED_CDF))
	for i := range DEFAULT_SEGMENT_ID_PREDICTED_CDF {
		h = zzStep(h, -len(DEFAULT_SEGMENT_ID_PREDICTED_CDF[i]))
		for j := range DEFAULT_SEGMENT_ID_PREDICTED_CDF[i] {
			h = zzStep(h, DEFAULT_SEGMENT_ID_PREDICTED_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 64449697)
}

//@ lemma: table DEFAULT_SINGLE_REF_CDF
//@ property: C24
func zzTable_DEFAULT_SINGLE_REF_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_SINGLE_REF_CDF))
	for i := range DEFAULT_SINGLE_REF_CDF {
		h = zzStep(h, -len(DEFAULT_SINGLE_REF_CDF[i]))
		for j := range DEFAULT_SINGLE_REF_CDF[i] {
			h = zzStep(h, -len(DEFAULT_SINGLE_REF_CDF[i][j]))
			for k := range DEFAULT_SINGLE_REF_CDF[i][j] {
				h = zzStep(h, DEFAULT_SINGLE_REF_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 1903303893)
}

//@ lemma: table DEFAULT_SKIP_CDF
//@ property: C24
func zzTable_DEFAULT_SKIP_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_SKIP_CDF))
	for i := range DEFAULT_SKIP_CDF {
		h = zzStep(h, -len(DEFAULT_SKIP_CDF[i]))
		for j := range DEFAULT_SKIP_CDF[i] {
			h = zzStep(h, DEFAULT_SKIP_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 353685190)
}

//@ lemma: table DEFAULT_SKIP_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_SKIP_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_SKIP_MODE_CDF))
	for i := range DEFAULT_SKIP_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_SKIP_MODE_CDF[i]))
		for j := range DEFAULT_SKIP_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_SKIP_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1876333207)
}

//@ lemma: table DEFAULT_TXB_SKIP_CDF
//@ property: C24
func zzTable_DEFAULT_TXB_SKIP_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TXB_SKIP_CDF))
	for i := range DEFAULT_TXB_SKIP_CDF {
		h = zzStep(h, -len(DEFAULT_TXB_SKIP_CDF[i]))
		for j := range DEFAULT_TXB_SKIP_CDF[i] {
			h = zzStep(h, -len(DEFAULT_TXB_SKIP_CDF[i][j]))
			for k := range DEFAULT_TXB_SKIP_CDF[i][j] {
				h = zzStep(h, -len(DEFAULT_TXB_SKIP_CDF[i][j][k]))
				for l := range DEFAULT_TXB_SKIP_CDF[i][j][k] {
					h = zzStep(h, DEFAULT_TXB_SKIP_CDF[i][j][k][l])
				}
			}
		}
	}
	vs.Ensures("the format's values", h == 288709827)
}

//@ lemma: table DEFAULT_TXFM_SPLIT_CDF
//@ property: C24
func zzTable_DEFAULT_TXFM_SPLIT_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TXFM_SPLIT_CDF))
	for i := range DEFAULT_TXFM_SPLIT_CDF {
		h = zzStep(h, -len(DEFAULT_TXFM_SPLIT_CDF[i]))
		for j := range DEFAULT_TXFM_SPLIT_CDF[i] {
			h = zzStep(h, DEFAULT_TXFM_SPLIT_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 292549155)
}

//@ lemma: table DEFAULT_TX_16X16_CDF
//@ property: C24
func zzTable_DEFAULT_TX_16X16_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TX_16X16_CDF))
	for i := range DEFAULT_TX_16X16_CDF {
		h = zzStep(h, -len(DEFAULT_TX_16X16_CDF[i]))
		for j := range DEFAULT_TX_16X16_CDF[i] {
			h = zzStep(h, DEFAULT_TX_16X16_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 361883885)
}

//@ lemma: table DEFAULT_TX_32X32_CDF
//@ property: C24
func zzTable_DEFAULT_TX_32X32_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TX_32X32_CDF))
	for i := range DEFAULT_TX_32X32_CDF {
		h = zzStep(h, -len(DEFAULT_TX_32X32_CDF[i]))
		for j := range DEFAULT_TX_32X32_CDF[i] {
			h = zzStep(h, DEFAULT_TX_32X32_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 650046911)
}

//@ lemma: table DEFAULT_TX_64X64_CDF
//@ property: C24
func zzTable_DEFAULT_TX_64X64_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TX_64X64_CDF))
	for i := range DEFAULT_TX_64X64_CDF {
		h = zzStep(h, -len(DEFAULT_TX_64X64_CDF[i]))
		for j := range DEFAULT_TX_64X64_CDF[i] {
			h = zzStep(h, DEFAULT_TX_64X64_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1288406908)
}

//@ lemma: table DEFAULT_TX_8X8_CDF
//@ property: C24
func zzTable_DEFAULT_TX_8X8_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_TX_8X8_CDF))
	for i := range DEFAULT_TX_8X8_CDF {
		h = zzStep(h, -len(DEFAULT_TX_8X8_CDF[i]))
		for j := range DEFAULT_TX_8X8_CDF[i] {
			h = zzStep(h, DEFAULT_TX_8X8_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1281347158)
}

//@ lemma: table DEFAULT_UNI_COMP_REF_CDF
//@ property: C24
func zzTable_DEFAULT_UNI_COMP_REF_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_UNI_COMP_REF_CDF))
	for i := range DEFAULT_UNI_COMP_REF_CDF {
		h = zzStep(h, -len(DEFAULT_UNI_COMP_REF_CDF[i]))
		for j := range DEFAULT_UNI_COMP_REF_CDF[i] {
			h = zzStep(h, -len(DEFAULT_UNI_COMP_REF_CDF[i][j]))
			for k := range DEFAULT_UNI_COMP_REF_CDF[i][j] {
				h = zzStep(h, DEFAULT_UNI_COMP_REF_CDF[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 270206394)
}

//@ lemma: table DEFAULT_USE_OBMC_CDF
//@ property: C24
func zzTable_DEFAULT_USE_OBMC_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_USE_OBMC_CDF))
	for i := range DEFAULT_USE_OBMC_CDF {
		h = zzStep(h, -len(DEFAULT_USE_OBMC_CDF[i]))
		for j := range DEFAULT_USE_OBMC_CDF[i] {
			h = zzStep(h, DEFAULT_USE_OBMC_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1294292720)
}

//@ lemma: table DEFAULT_USE_SGRPROJ_CDF
//@ property: C24
func zzTable_DEFAULT_USE_SGRPROJ_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_USE_SGRPROJ_CDF))
	for i := range DEFAULT_USE_SGRPROJ_CDF {
		h = zzStep(h, DEFAULT_USE_SGRPROJ_CDF[i])
	}
	vs.Ensures("the format's values", h == 1533423602)
}

//@ lemma: table DEFAULT_USE_WIENER_CDF
//@ property: C24
func zzTable_DEFAULT_USE_WIENER_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_USE_WIENER_CDF))
	for i := range DEFAULT_USE_WIENER_CDF {
		h = zzStep(h, DEFAULT_USE_WIENER_CDF[i])
	}
	vs.Ensures("the format's values", h == 15897670)
}

//@ lemma: table DEFAULT_UV_MODE_CFL_ALLOWED_CDF
//@ property: C24
func zzTable_DEFAULT_UV_MODE_CFL_ALLOWED_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_UV_MODE_CFL_ALLOWED_CDF))
	for i := range DEFAULT_UV_MODE_CFL_ALLOWED_CDF {
		h = zzStep(h, -len(DEFAULT_UV_MODE_CFL_ALLOWED_CDF[i]))
		for j := range DEFAULT_UV_MODE_CFL_ALLOWED_CDF[i] {
			h = zzStep(h, DEFAULT_UV_MODE_CFL_ALLOWED_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 518377490)
}

//@ lemma: table DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
//@ property: C24
func zzTable_DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF))
	for i := range DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF {
		h = zzStep(h, -len(DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF[i]))
		for j := range DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF[i] {
			h = zzStep(h, DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 597000731)
}

//@ lemma: table DEFAULT_WEDGE_INDEX_CDF
//@ property: C24
func zzTable_DEFAULT_WEDGE_INDEX_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_WEDGE_INDEX_CDF))
	for i := range DEFAULT_WEDGE_INDEX_CDF {
		h = zzStep(h, -len(DEFAULT_WEDGE_INDEX_CDF[i]))
		for j := range DEFAULT_WEDGE_INDEX_CDF[i] {
			h = zzStep(h, DEFAULT_WEDGE_INDEX_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 841198251)
}

//@ lemma: table DEFAULT_WEDGE_INTER_INTRA_CDF
//@ property: C24
func zzTable_DEFAULT_WEDGE_INTER_INTRA_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_WEDGE_INTER_INTRA_CDF))
	for i := range DEFAULT_WEDGE_INTER_INTRA_CDF {
		h = zzStep(h, -len(DEFAULT_WEDGE_INTER_INTRA_CDF[i]))
		for j := range DEFAULT_WEDGE_INTER_INTRA_CDF[i] {
			h = zzStep(h, DEFAULT_WEDGE_INTER_INTRA_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1884200813)
}

//@ lemma: table DEFAULT_Y_MODE_CDF
//@ property: C24
func zzTable_DEFAULT_Y_MODE_CDF() {
	h := 0
	h = zzStep(h, -len(DEFAULT_Y_MODE_CDF))
	for i := range DEFAULT_Y_MODE_CDF {
		h = zzStep(h, -len(DEFAULT_Y_MODE_CDF[i]))
		for j := range DEFAULT_Y_MODE_CDF[i] {
			h = zzStep(h, DEFAULT_Y_MODE_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 2053871506)
}

//@ lemma: table DFEAULT_ZERO_MV_CDF
//@ property: C24
func zzTable_DFEAULT_ZERO_MV_CDF() {
	h := 0
	h = zzStep(h, -len(DFEAULT_ZERO_MV_CDF))
	for i := range DFEAULT_ZERO_MV_CDF {
		h = zzStep(h, -len(DFEAULT_ZERO_MV_CDF[i]))
		for j := range DFEAULT_ZERO_MV_CDF[i] {
			h = zzStep(h, DFEAULT_ZERO_MV_CDF[i][j])
		}
	}
	vs.Ensures("the format's values", h == 899269042)
}

//@ lemma: table Default_Comp_Ref_Type_Cdf
//@ property: C24
func zzTable_Default_Comp_Ref_Type_Cdf() {
	h := 0
	h = zzStep(h, -len(Default_Comp_Ref_Type_Cdf))
	for i := range Default_Comp_Ref_Type_Cdf {
		h = zzStep(h, -len(Default_Comp_Ref_Type_Cdf[i]))
		for j := range Default_Comp_Ref_Type_Cdf[i] {
			h = zzStep(h, Default_Comp_Ref_Type_Cdf[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1206740217)
}
