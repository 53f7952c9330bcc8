package shared

// Generated by gen/tables.py: the constant tables of the format, by a digest of their shape and values.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

func zzStep(h, v int) int { return (h*16777619 + v + 1<<20) % 2147483647 }

//@ lemma: table BLOCK_HEIGHT
//@ property: C24
func zzTable_BLOCK_HEIGHT() {
	h := 0
	h = zzStep(h, -len(BLOCK_HEIGHT))
	for i := range BLOCK_HEIGHT {
		h = zzStep(h, BLOCK_HEIGHT[i])
	}
	vs.Ensures("the format's values", h == 438385518)
}

//@ lemma: table BLOCK_WIDTH
//@ property: C24
func zzTable_BLOCK_WIDTH() {
	h := 0
	h = zzStep(h, -len(BLOCK_WIDTH))
	for i := range BLOCK_WIDTH {
		h = zzStep(h, BLOCK_WIDTH[i])
	}
	vs.Ensures("the format's values", h == 2016462310)
}

//@ lemma: table MI_HEIGHT_LOG2
//@ property: C24
func zzTable_MI_HEIGHT_LOG2() {
	h := 0
	h = zzStep(h, -len(MI_HEIGHT_LOG2))
	for i := range MI_HEIGHT_LOG2 {
		h = zzStep(h, MI_HEIGHT_LOG2[i])
	}
	vs.Ensures("the format's values", h == 875949094)
}

//@ lemma: table MI_WIDTH_LOG2
//@ property: C24
func zzTable_MI_WIDTH_LOG2() {
	h := 0
	h = zzStep(h, -len(MI_WIDTH_LOG2))
	for i := range MI_WIDTH_LOG2 {
		h = zzStep(h, MI_WIDTH_LOG2[i])
	}
	vs.Ensures("the format's values", h == 1643980359)
}

//@ lemma: table NUM_4X4_BLOCKS_HIGH
//@ property: C24
func zzTable_NUM_4X4_BLOCKS_HIGH() {
	h := 0
	h = zzStep(h, -len(NUM_4X4_BLOCKS_HIGH))
	for i := range NUM_4X4_BLOCKS_HIGH {
		h = zzStep(h, NUM_4X4_BLOCKS_HIGH[i])
	}
	vs.Ensures("the format's values", h == 678675520)
}

//@ lemma: table NUM_4X4_BLOCKS_WIDE
//@ property: C24
func zzTable_NUM_4X4_BLOCKS_WIDE() {
	h := 0
	h = zzStep(h, -len(NUM_4X4_BLOCKS_WIDE))
	for i := range NUM_4X4_BLOCKS_WIDE {
		h = zzStep(h, NUM_4X4_BLOCKS_WIDE[i])
	}
	vs.Ensures("the format's values", h == 1073194718)
}

//@ lemma: table Partition_Subsize
//@ property: C24
func zzTable_Partition_Subsize() {
	h := 0
	h = zzStep(h, -len(Partition_Subsize))
	for i := range Partition_Subsize {
		h = zzStep(h, -len(Partition_Subsize[i]))
		for j := range Partition_Subsize[i] {
			h = zzStep(h, Partition_Subsize[i][j])
		}
	}
	vs.Ensures("the format's values", h == 1635413775)
}

//@ lemma: table REMAP_LR_TYPE
//@ property: C24
func zzTable_REMAP_LR_TYPE() {
	h := 0
	h = zzStep(h, -len(REMAP_LR_TYPE))
	for i := range REMAP_LR_TYPE {
		h = zzStep(h, REMAP_LR_TYPE[i])
	}
	vs.Ensures("the format's values", h == 810185395)
}

//@ lemma: table Segmentation_Feature_Bits
//@ property: C24
func zzTable_Segmentation_Feature_Bits() {
	h := 0
	h = zzStep(h, -len(Segmentation_Feature_Bits))
	for i := range Segmentation_Feature_Bits {
		h = zzStep(h, Segmentation_Feature_Bits[i])
	}
	vs.Ensures("the format's values", h == 2073348269)
}

//@ lemma: table Segmentation_Feature_Max
//@ property: C24
func zzTable_Segmentation_Feature_Max() {
	h := 0
	h = zzStep(h, -len(Segmentation_Feature_Max))
	for i := range Segmentation_Feature_Max {
		h = zzStep(h, Segmentation_Feature_Max[i])
	}
	vs.Ensures("the format's values", h == 1282068661)
}

//@ lemma: table Segmentation_Feature_Signed
//@ property: C24
func zzTable_Segmentation_Feature_Signed() {
	h := 0
	h = zzStep(h, -len(Segmentation_Feature_Signed))
	for i := range Segmentation_Feature_Signed {
		h = zzStep(h, Segmentation_Feature_Signed[i])
	}
	vs.Ensures("the format's values", h == 2085923331)
}

//@ lemma: table Subsampled_Size
//@ property: C24
func zzTable_Subsampled_Size() {
	h := 0
	h = zzStep(h, -len(Subsampled_Size))
	for i := range Subsampled_Size {
		h = zzStep(h, -len(Subsampled_Size[i]))
		for j := range Subsampled_Size[i] {
			h = zzStep(h, -len(Subsampled_Size[i][j]))
			for k := range Subsampled_Size[i][j] {
				h = zzStep(h, Subsampled_Size[i][j][k])
			}
		}
	}
	vs.Ensures("the format's values", h == 745392596)
}
