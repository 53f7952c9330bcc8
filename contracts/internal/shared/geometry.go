package shared

// What the tables of block sizes mean.

import vs "github.com/m4tthewde/gov1/internal/zzvs"

// Width and height (log2) of the block sizes.
var zzBlocks = [22][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {4, 5}, {5, 4}, {5, 5}, {5, 6}, {6, 5}, {6, 6}, {6, 7}, {7, 6}, {7, 7},
	{2, 4}, {4, 2}, {3, 5}, {5, 3}, {4, 6}, {6, 4}}

// zzBlock: the size with these dimensions, -1 if there is none.
func zzBlock(w, h int) int {
	r := -1
	for i := 0; i < 22; i++ {
		if zzBlocks[i][0] == w && zzBlocks[i][1] == h {
			r = i
		}
	}
	return r
}

func zzMax2(n int) int {
	if n < 2 {
		return 2
	}
	return n
}

//@ lemma: block sizes
//@ property: C24
func zzBlockSizes() {
	vs.Ensures("sizes", len(BLOCK_WIDTH) == 22 && len(BLOCK_HEIGHT) == 22 && len(NUM_4X4_BLOCKS_WIDE) == 22 && len(NUM_4X4_BLOCKS_HIGH) == 22 && len(MI_WIDTH_LOG2) == 22 && len(MI_HEIGHT_LOG2) == 22)
	for i := 0; i < 22; i++ {
		w, h := zzBlocks[i][0], zzBlocks[i][1]
		vs.Ensures("in samples", BLOCK_WIDTH[i] == 1<<w && BLOCK_HEIGHT[i] == 1<<h)
		vs.Ensures("in units of four", NUM_4X4_BLOCKS_WIDE[i] == 1<<(w-2) && NUM_4X4_BLOCKS_HIGH[i] == 1<<(h-2))
		vs.Ensures("logarithms", MI_WIDTH_LOG2[i] == w-2 && MI_HEIGHT_LOG2[i] == h-2)
	}
	vs.Ensures("names", BLOCK_4X4 == zzBlock(2, 2) && BLOCK_8X8 == zzBlock(3, 3) && BLOCK_64X64 == zzBlock(6, 6) && BLOCK_128X128 == zzBlock(7, 7) && BLOCK_16X64 == zzBlock(4, 6) && BLOCK_64X16 == zzBlock(6, 4))
}

// Partitions of a square: none, horizontal, vertical, split, four with two halves (A and B of each direction), four strips.
//
//@ lemma: partitions
//@ property: C24
func zzPartitions() {
	vs.Ensures("kinds", len(Partition_Subsize) == 10)
	for s := 2; s <= 7; s++ {
		b := zzBlock(s, s)
		for p := 0; p < 10; p++ {
			w, h := s, s
			if p == 1 || p == 4 || p == 5 {
				h--
			} else if p == 2 || p == 6 || p == 7 {
				w--
			} else if p == 3 {
				w, h = s-1, s-1
			} else if p == 8 {
				h -= 2
			} else if p == 9 {
				w -= 2
			}
			// 8x8 blocks have no partitions into more than four or into strips, 128x128 none into strips
			if p == 0 || s > 2 && p < 4 || s > 3 && p < 8 || s > 3 && s < 7 {
				vs.Ensures("size of the first part", Partition_Subsize[p][b] == zzBlock(w, h))
			}
		}
	}
}

//@ lemma: chroma block sizes
//@ property: C24
func zzSubsampled() {
	vs.Ensures("sizes", len(Subsampled_Size) == 22)
	for i := 0; i < 22; i++ {
		w, h := zzBlocks[i][0], zzBlocks[i][1]
		vs.Ensures("same", Subsampled_Size[i][0][0] == i)
		vs.Ensures("both", Subsampled_Size[i][1][1] == zzBlock(zzMax2(w-1), zzMax2(h-1)))
		if w >= h && zzBlock(zzMax2(w-1), h) >= 0 {
			vs.Ensures("columns", Subsampled_Size[i][1][0] == zzBlock(zzMax2(w-1), h))
		}
		if h >= w && zzBlock(w, zzMax2(h-1)) >= 0 {
			vs.Ensures("rows", Subsampled_Size[i][0][1] == zzBlock(w, zzMax2(h-1)))
		}
	}
}

// A feature's values fit its bits.
//
//@ lemma: segmentation features
//@ property: C24
func zzFeatures() {
	for i := 0; i < 8; i++ {
		n := Segmentation_Feature_Bits[i]
		vs.Ensures("largest", Segmentation_Feature_Max[i] == 1<<n-1)
		vs.Ensures("signed", Segmentation_Feature_Signed[i] == 1 && i < 5 || Segmentation_Feature_Signed[i] == 0 && i >= 5)
	}
}
