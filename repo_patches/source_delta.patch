From 2eb52881070651ff96a4a52b218c49380625a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 01/49] fix: break import cycle between uncompressedheader and
 tilegroup

load_loop_filter_params and load_segmentation_params lived in tilegroup but are
called by uncompressedheader, which tilegroup imports; nothing depending on
either package compiled.
---
 internal/tilegroup/decode_frame_wrapup.go       | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..75c362f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,12 +630,24 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
 
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+
+}
+
 func (u *UncompressedHeader) motionFieldEstimation() {
 	panic("not implemented")
 }
-- 
2.43.0


From ad2d091da0fb435c0dc165886aed6ef876c0b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 02/49] fix: Round2Signed rounds its argument, not the constant
 2

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From b53361f078dc9fb51e66f7e7df0eb8b790132c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 03/49] fix: Clip1 clips its argument to the sample range of
 the bit depth

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From a329867d50d94271635a8473a3ef8396e27651a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 04/49] fix: NegDeinterleave follows neg_deinterleave of the
 specification

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 4960a43fa459df29245b90bec6f54fd82aadef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 05/49] fix: Cos128 selects the quadrant of the angle

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..354973f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 >= 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 >= 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From 8d9ebbfa7bc73d4247601329ac187cc56853ae71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 06/49] fix: Brev reverses bit i, not bit 1

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 354973f..a68a1b1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From f6f55bd4164a60f210acc80232e72107271ba94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 07/49] fix: first weight of the 32-sample OBMC mask

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index a68a1b1..b32000d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
-- 
2.43.0


From 9336c8ea50b8063dcc5d455e71be4f3f98ec63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/49] fix: sequence header syntax: one level index of 5 bits
 per operating point, fields of reduced headers

---
 internal/sequenceheader/sequence_header.go | 192 +++++++++++----------
 1 file changed, 103 insertions(+), 89 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..e3ff4b0 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,13 +110,15 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayMinusOne = []int{}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
@@ -130,115 +132,127 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
-
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
+
+		operatingPoints := s.OperatingPointsCountMinusOne + 1
+		operatingPointIdcArray = make([]int, operatingPoints)
+		s.SeqLevelIdx = make([]int, operatingPoints)
+		s.SeqTier = make([]int, operatingPoints)
+		s.DecoderModelPresentForThisOp = make([]bool, operatingPoints)
+		s.DecoderBufferDelay = make([]int, operatingPoints)
+		s.EncoderBufferDelay = make([]int, operatingPoints)
+		s.LowDelayModeFlag = make([]bool, operatingPoints)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, operatingPoints)
+		s.InitialDisplayDelayMinusOne = make([]int, operatingPoints)
+
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
+
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
-
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
+	s.OperatingPointIdc = operatingPointIdcArray
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	s.FrameIdNumbersPresent = false
 
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			s.SeqChooseIntegerMv = b.F(1) != 0
+
+			if s.SeqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From 4afc91069937588ec934af3f20ec2e51b23faafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 09/49] fix: tile info: superblock rows of 128x128 superblocks,
 tile row increments

---
 internal/tileinfo/tile_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From 1b29be32a93c638516f145aa7772b215037def1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 10/49] fix: segmentation: unsigned feature values, quantizer
 index of delta-q blocks adds the segment's delta

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 75c362f..eb52c00 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -743,7 +743,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
@@ -822,7 +822,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From 36592f17c882a1a3580f7fee182f09e482e1b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 11/49] fix: loop filter: three bits of sharpness, level 0 for
 lossless and intra block copy frames

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index eb52c00..50c058e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -845,7 +845,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
@@ -871,7 +871,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From 7ba38c2fc745ad83f35af7c2dbcc9848e3f06432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 12/49] fix: render height defaults to the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 50c058e..2f44a6d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -552,7 +552,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From b74b68dde8006306b0fc8c05352b43f5979b68f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 13/49] fix: skip mode: allowed for compound frames with order
 hints, nearest backward reference; order-hint distances

---
 internal/uncompressedheader/uncompressed_header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2f44a6d..803b6e6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -87,7 +87,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
@@ -568,7 +568,7 @@ func (u *UncompressedHeader) readInterpolationFilter(b *bitstream.BitStream) {
 
 // get_relative_dist()
 func (u *UncompressedHeader) GetRelativeDist(a int, b int, sh sequenceheader.SequenceHeader) int {
-	if !u.EnableOrderHint {
+	if !sh.EnableOrderHint {
 		return 0
 	}
 
@@ -1017,7 +1017,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !sh.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
@@ -1032,7 +1032,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From 99979bc6d30f9b3dad1332d8d75859fcccbedbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 14/49] fix: global motion parameters are read, relative to the
 signed range of the specification

---
 .../uncompressedheader/uncompressed_header.go | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 803b6e6..3b709e5 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1113,6 +1113,24 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
@@ -1149,10 +1167,16 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
+}
+
+// decode_signed_subexp_with_ref( low, high, r )
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+// decode_unsigned_subexp_with_ref( mx, r )
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 87fe96912290135d4b638b2579786d0c974a13bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 15/49] fix: default probability tables are distributions of
 the right shape

The skip mode rows had their values written twice in a row, the predicted
segment id rows ended at 32678, and the base range coefficient table for
4x4 transforms in the highest quantizer class had a stray block in place of
the chroma plane.
---
 internal/uncompressedheader/cdf.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..931a42f 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1290,11 +1290,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
@@ -1585,9 +1585,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
@@ -10697,16 +10697,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From 3f5b5bd986f8999517d0ff4e67a1dfb7bd27fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 16/49] fix: the ref_mv probability table starts from its
 default

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 931a42f..55b10d9 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1350,6 +1351,15 @@ var DEFAULT_COMPOUND_MODE_CDF = [][]int{
 		13046, 23214, 24505, 25942, 27435, 28442, 29330, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DFEAULT_ZERO_MV_CDF = [][]int{
 	{2175, 32768, 0},
 	{1054, 32768, 0},
-- 
2.43.0


From 564defe2ef590701798d2d8521731fb3b54be5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 17/49] fix: the adapted comp_ref_type table reaches the next
 frame

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..c4945f5 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -658,7 +658,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From 627768cdf1fc1e12e3e14a43abdd04086fae7063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 18/49] fix: the intra frame y mode table adapts across frames

---
 internal/state/state.go            | 3 +++
 internal/tilegroup/tile_group.go   | 4 +++-
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..b924a4e 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -98,6 +98,7 @@ type State struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
@@ -281,6 +282,7 @@ type State struct {
 	TileCoeffBaseCdf    [][][][]int
 	TileCoeffBrCdf      [][][][]int
 
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedYModeCdf               [][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
@@ -398,6 +400,7 @@ type MemoryArea struct {
 	CoeffBaseCdf    [][][][]int
 	CoeffBrCdf      [][][][]int
 
+	IntraFrameYModeCdf     [][][]int
 	YModeCdf               [][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c4945f5..3194c15 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -369,6 +369,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // 7.7. Frame end update CDF process
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.YModeCdf = state.SavedYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
@@ -477,7 +478,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 
 	state.TileYModeCdf = state.YModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
@@ -588,6 +589,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 	b.Position += util.Max(0, state.SymbolMaxBits)
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedYModeCdf = state.TileYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 55b10d9..ce3a164 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -7,6 +7,7 @@ import (
 
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
@@ -138,6 +139,7 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.YModeCdf = s.YModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
@@ -242,6 +244,7 @@ func SaveCdfs(ctx int, s *state.State) {
 func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.YModeCdf = memoryArea.YModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
-- 
2.43.0


From 063a0d7ea629ab35c1c753778ea8d9b071e4011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 19/49] fix: tiles adapt copies of the probability tables

Reading a symbol adapts its table in place; the tile's tables shared their
storage with the frame's tables, the saved ones and the defaults.
---
 internal/tilegroup/tile_group.go | 237 ++++++++++++++++++-------------
 1 file changed, 138 insertions(+), 99 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3194c15..f81a07f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -478,105 +478,144 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
-
-	state.TileYModeCdf = state.YModeCdf
-	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
-	state.TileUVModeCflAllowedCdf = state.UVModeCflAllowedCdf
-	state.TileAngleDeltaCdf = state.AngleDeltaCdf
-	state.TileIntrabcCdf = state.IntrabcCdf
-	state.TilePartitionW8Cdf = state.PartitionW8Cdf
-	state.TilePartitionW16Cdf = state.PartitionW16Cdf
-	state.TilePartitionW32Cdf = state.PartitionW32Cdf
-	state.TilePartitionW64Cdf = state.PartitionW64Cdf
-	state.TilePartitionW128Cdf = state.PartitionW128Cdf
-	state.TileSegmentIdCdf = state.SegmentIdCdf
-	state.TileSegmentIdPredictedCdf = state.SegmentIdPredictedCdf
-	state.TileTx8x8Cdf = state.Tx8x8Cdf
-	state.TileTx16x16Cdf = state.Tx16x16Cdf
-	state.TileTx32x32Cdf = state.Tx32x32Cdf
-	state.TileTx64x64Cdf = state.Tx64x64Cdf
-	state.TileTxfmSplitCdf = state.TxfmSplitCdf
-	state.TileFilterIntraModeCdf = state.FilterIntraModeCdf
-	state.TileFilterIntraCdf = state.FilterIntraCdf
-	state.TileInterpFilterCdf = state.InterpFilterCdf
-	state.TileMotionModeCdf = state.MotionModeCdf
-	state.TileNewMvCdf = state.NewMvCdf
-	state.TileZeroMvCdf = state.ZeroMvCdf
-	state.TileRefMvCdf = state.RefMvCdf
-	state.TileCompoundModeCdf = state.CompoundModeCdf
-	state.TileDrlModeCdf = state.DrlModeCdf
-	state.TileIsInterCdf = state.IsInterCdf
-	state.TileCompModeCdf = state.CompModeCdf
-	state.TileSkipModeCdf = state.SkipModeCdf
-	state.TileSkipCdf = state.SkipCdf
-	state.TileCompRefCdf = state.CompRefCdf
-	state.TileCompBwdRefCdf = state.CompBwdRefCdf
-	state.TileSingleRefCdf = state.SingleRefCdf
-	state.TileMvJointCdf = state.MvJointCdf
-	state.TileMvClassCdf = state.MvClassCdf
-	state.TileMvClass0BitCdf = state.MvClass0BitCdf
-	state.TileMvFrCdf = state.MvFrCdf
-	state.TileMvClass0FrCdf = state.MvClass0FrCdf
-	state.TileMvClass0HpCdf = state.MvClass0HpCdf
-	state.TileMvSignCdf = state.MvSignCdf
-	state.TileMvBitCdf = state.MvBitCdf
-	state.TileMvHpCdf = state.MvHpCdf
-	state.TilePaletteYModeCdf = state.PaletteYModeCdf
-	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
-	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
-	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
-	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
-	state.TilePaletteSize3YColorCdf = state.PaletteSize3YColorCdf
-	state.TilePaletteSize3UVColorCdf = state.PaletteSize3UVColorCdf
-	state.TilePaletteSize4YColorCdf = state.PaletteSize4YColorCdf
-	state.TilePaletteSize4UVColorCdf = state.PaletteSize4UVColorCdf
-	state.TilePaletteSize5YColorCdf = state.PaletteSize5YColorCdf
-	state.TilePaletteSize5UVColorCdf = state.PaletteSize5UVColorCdf
-	state.TilePaletteSize6YColorCdf = state.PaletteSize6YColorCdf
-	state.TilePaletteSize6UVColorCdf = state.PaletteSize6UVColorCdf
-	state.TilePaletteSize7YColorCdf = state.PaletteSize7YColorCdf
-	state.TilePaletteSize7UVColorCdf = state.PaletteSize7UVColorCdf
-	state.TilePaletteSize8YColorCdf = state.PaletteSize8YColorCdf
-	state.TilePaletteSize8UVColorCdf = state.PaletteSize8UVColorCdf
-
-	state.TileDeltaQCdf = state.DeltaQCdf
-	state.TileDeltaLFCdf = state.DeltaLFCdf
-	state.TileDeltaLFMultiCdf = state.DeltaLFMultiCdf
-	state.TileIntraTxTypeSet1Cdf = state.IntraTxTypeSet1Cdf
-	state.TileIntraTxTypeSet2Cdf = state.IntraTxTypeSet2Cdf
-	state.TileInterTxTypeSet1Cdf = state.InterTxTypeSet1Cdf
-	state.TileInterTxTypeSet2Cdf = state.InterTxTypeSet2Cdf
-	state.TileInterTxTypeSet3Cdf = state.InterTxTypeSet3Cdf
-	state.TileUseObmcCdf = state.UseObmcCdf
-	state.TileInterIntraCdf = state.InterIntraCdf
-	state.TileCompRefTypeCdf = state.CompRefTypeCdf
-	state.TileCflSignCdf = state.CflSignCdf
-	state.TileUniCompRefCdf = state.UniCompRefCdf
-	state.TileWedgeInterIntraCdf = state.WedgeInterIntraCdf
-	state.TileCompGroupIdxCdf = state.CompGroupIdxCdf
-	state.TileCompoundIdxCdf = state.CompoundIdxCdf
-	state.TileCompoundTypeCdf = state.CompoundTypeCdf
-	state.TileInterIntraModeCdf = state.InterIntraModeCdf
-	state.TileWedgeIndexCdf = state.WedgeIndexCdf
-	state.TileCflAlphaCdf = state.CflAlphaCdf
-	state.TileUseWienerCdf = state.UseWienerCdf
-	state.TileUseSgrprojCdf = state.UseSgrprojCdf
-	state.TileRestorationTypeCdf = state.RestorationTypeCdf
-
-	state.TileTxbSkipCdf = state.TxbSkipCdf
-	state.TileEobPt16Cdf = state.EobPt16Cdf
-	state.TileEobPt32Cdf = state.EobPt32Cdf
-	state.TileEobPt64Cdf = state.EobPt64Cdf
-	state.TileEobPt128Cdf = state.EobPt128Cdf
-	state.TileEobPt256Cdf = state.EobPt256Cdf
-	state.TileEobPt512Cdf = state.EobPt512Cdf
-	state.TileEobPt1024Cdf = state.EobPt1024Cdf
-	state.TileEobExtraCdf = state.EobExtraCdf
-	state.TileDcSignCdf = state.DcSignCdf
-	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
-	state.TileCoeffBaseCdf = state.CoeffBaseCdf
-	state.TileCoeffBrCdf = state.CoeffBrCdf
+	state.TileIntraFrameYModeCdf = copyCdf3(state.IntraFrameYModeCdf)
+
+	state.TileYModeCdf = copyCdf2(state.YModeCdf)
+	state.TileUVModeCflNotAllowedCdf = copyCdf2(state.UVModeCflNotAllowedCdf)
+	state.TileUVModeCflAllowedCdf = copyCdf2(state.UVModeCflAllowedCdf)
+	state.TileAngleDeltaCdf = copyCdf2(state.AngleDeltaCdf)
+	state.TileIntrabcCdf = copyCdf1(state.IntrabcCdf)
+	state.TilePartitionW8Cdf = copyCdf2(state.PartitionW8Cdf)
+	state.TilePartitionW16Cdf = copyCdf2(state.PartitionW16Cdf)
+	state.TilePartitionW32Cdf = copyCdf2(state.PartitionW32Cdf)
+	state.TilePartitionW64Cdf = copyCdf2(state.PartitionW64Cdf)
+	state.TilePartitionW128Cdf = copyCdf2(state.PartitionW128Cdf)
+	state.TileSegmentIdCdf = copyCdf2(state.SegmentIdCdf)
+	state.TileSegmentIdPredictedCdf = copyCdf2(state.SegmentIdPredictedCdf)
+	state.TileTx8x8Cdf = copyCdf2(state.Tx8x8Cdf)
+	state.TileTx16x16Cdf = copyCdf2(state.Tx16x16Cdf)
+	state.TileTx32x32Cdf = copyCdf2(state.Tx32x32Cdf)
+	state.TileTx64x64Cdf = copyCdf2(state.Tx64x64Cdf)
+	state.TileTxfmSplitCdf = copyCdf2(state.TxfmSplitCdf)
+	state.TileFilterIntraModeCdf = copyCdf1(state.FilterIntraModeCdf)
+	state.TileFilterIntraCdf = copyCdf2(state.FilterIntraCdf)
+	state.TileInterpFilterCdf = copyCdf2(state.InterpFilterCdf)
+	state.TileMotionModeCdf = copyCdf2(state.MotionModeCdf)
+	state.TileNewMvCdf = copyCdf2(state.NewMvCdf)
+	state.TileZeroMvCdf = copyCdf2(state.ZeroMvCdf)
+	state.TileRefMvCdf = copyCdf2(state.RefMvCdf)
+	state.TileCompoundModeCdf = copyCdf2(state.CompoundModeCdf)
+	state.TileDrlModeCdf = copyCdf2(state.DrlModeCdf)
+	state.TileIsInterCdf = copyCdf2(state.IsInterCdf)
+	state.TileCompModeCdf = copyCdf2(state.CompModeCdf)
+	state.TileSkipModeCdf = copyCdf2(state.SkipModeCdf)
+	state.TileSkipCdf = copyCdf2(state.SkipCdf)
+	state.TileCompRefCdf = copyCdf3(state.CompRefCdf)
+	state.TileCompBwdRefCdf = copyCdf3(state.CompBwdRefCdf)
+	state.TileSingleRefCdf = copyCdf3(state.SingleRefCdf)
+	state.TilePaletteYModeCdf = copyCdf3(state.PaletteYModeCdf)
+	state.TilePaletteUVModeCdf = copyCdf2(state.PaletteUVModeCdf)
+	state.TilePaletteUVSizeCdf = copyCdf2(state.PaletteUVSizeCdf)
+	state.TilePaletteSize2YColorCdf = copyCdf2(state.PaletteSize2YColorCdf)
+	state.TilePaletteSize2UVColorCdf = copyCdf2(state.PaletteSize2UVColorCdf)
+	state.TilePaletteSize3YColorCdf = copyCdf2(state.PaletteSize3YColorCdf)
+	state.TilePaletteSize3UVColorCdf = copyCdf2(state.PaletteSize3UVColorCdf)
+	state.TilePaletteSize4YColorCdf = copyCdf2(state.PaletteSize4YColorCdf)
+	state.TilePaletteSize4UVColorCdf = copyCdf2(state.PaletteSize4UVColorCdf)
+	state.TilePaletteSize5YColorCdf = copyCdf2(state.PaletteSize5YColorCdf)
+	state.TilePaletteSize5UVColorCdf = copyCdf2(state.PaletteSize5UVColorCdf)
+	state.TilePaletteSize6YColorCdf = copyCdf2(state.PaletteSize6YColorCdf)
+	state.TilePaletteSize6UVColorCdf = copyCdf2(state.PaletteSize6UVColorCdf)
+	state.TilePaletteSize7YColorCdf = copyCdf2(state.PaletteSize7YColorCdf)
+	state.TilePaletteSize7UVColorCdf = copyCdf2(state.PaletteSize7UVColorCdf)
+	state.TilePaletteSize8YColorCdf = copyCdf2(state.PaletteSize8YColorCdf)
+	state.TilePaletteSize8UVColorCdf = copyCdf2(state.PaletteSize8UVColorCdf)
+
+	state.TileDeltaQCdf = copyCdf1(state.DeltaQCdf)
+	state.TileDeltaLFCdf = copyCdf1(state.DeltaLFCdf)
+	state.TileIntraTxTypeSet1Cdf = copyCdf3(state.IntraTxTypeSet1Cdf)
+	state.TileIntraTxTypeSet2Cdf = copyCdf3(state.IntraTxTypeSet2Cdf)
+	state.TileInterTxTypeSet1Cdf = copyCdf2(state.InterTxTypeSet1Cdf)
+	state.TileInterTxTypeSet2Cdf = copyCdf1(state.InterTxTypeSet2Cdf)
+	state.TileInterTxTypeSet3Cdf = copyCdf2(state.InterTxTypeSet3Cdf)
+	state.TileUseObmcCdf = copyCdf2(state.UseObmcCdf)
+	state.TileInterIntraCdf = copyCdf2(state.InterIntraCdf)
+	state.TileCompRefTypeCdf = copyCdf2(state.CompRefTypeCdf)
+	state.TileCflSignCdf = copyCdf1(state.CflSignCdf)
+	state.TileUniCompRefCdf = copyCdf3(state.UniCompRefCdf)
+	state.TileWedgeInterIntraCdf = copyCdf2(state.WedgeInterIntraCdf)
+	state.TileCompGroupIdxCdf = copyCdf2(state.CompGroupIdxCdf)
+	state.TileCompoundIdxCdf = copyCdf2(state.CompoundIdxCdf)
+	state.TileCompoundTypeCdf = copyCdf2(state.CompoundTypeCdf)
+	state.TileInterIntraModeCdf = copyCdf2(state.InterIntraModeCdf)
+	state.TileWedgeIndexCdf = copyCdf2(state.WedgeIndexCdf)
+	state.TileCflAlphaCdf = copyCdf2(state.CflAlphaCdf)
+	state.TileUseWienerCdf = copyCdf1(state.UseWienerCdf)
+	state.TileUseSgrprojCdf = copyCdf1(state.UseSgrprojCdf)
+	state.TileRestorationTypeCdf = copyCdf1(state.RestorationTypeCdf)
+
+	state.TileTxbSkipCdf = copyCdf3(state.TxbSkipCdf)
+	state.TileEobPt16Cdf = copyCdf3(state.EobPt16Cdf)
+	state.TileEobPt32Cdf = copyCdf3(state.EobPt32Cdf)
+	state.TileEobPt64Cdf = copyCdf3(state.EobPt64Cdf)
+	state.TileEobPt128Cdf = copyCdf3(state.EobPt128Cdf)
+	state.TileEobPt256Cdf = copyCdf3(state.EobPt256Cdf)
+	state.TileEobPt512Cdf = copyCdf2(state.EobPt512Cdf)
+	state.TileEobPt1024Cdf = copyCdf2(state.EobPt1024Cdf)
+	state.TileEobExtraCdf = copyCdf4(state.EobExtraCdf)
+	state.TileDcSignCdf = copyCdf3(state.DcSignCdf)
+	state.TileCoeffBaseEobCdf = copyCdf4(state.CoeffBaseEobCdf)
+	state.TileCoeffBaseCdf = copyCdf4(state.CoeffBaseCdf)
+	state.TileCoeffBrCdf = copyCdf4(state.CoeffBrCdf)
+
+	for i := 0; i < shared.FRAME_LF_COUNT; i++ {
+		state.TileDeltaLFMultiCdf[i] = copyCdf1(state.DeltaLFMultiCdf[i])
+	}
+
+	for i := 0; i < shared.MV_CONTEXTS; i++ {
+		state.TileMvJointCdf[i] = copyCdf1(state.MvJointCdf[i])
+		state.TileMvClassCdf[i] = copyCdf2(state.MvClassCdf[i])
+		state.TileMvFrCdf[i] = copyCdf2(state.MvFrCdf[i])
+		state.TileMvClass0FrCdf[i] = copyCdf3(state.MvClass0FrCdf[i])
+		for comp := 0; comp <= 1; comp++ {
+			state.TileMvClass0BitCdf[i][comp] = copyCdf1(state.MvClass0BitCdf[i][comp])
+			state.TileMvClass0HpCdf[i][comp] = copyCdf1(state.MvClass0HpCdf[i][comp])
+			state.TileMvSignCdf[i][comp] = copyCdf1(state.MvSignCdf[i][comp])
+			state.TileMvBitCdf[i][comp] = copyCdf2(state.MvBitCdf[i][comp])
+			state.TileMvHpCdf[i][comp] = copyCdf1(state.MvHpCdf[i][comp])
+		}
+	}
+}
+
+// The symbol decoder adapts its tables in place, so a tile works on copies of them.
+func copyCdf1(cdf []int) []int {
+	c := make([]int, len(cdf))
+	copy(c, cdf)
+	return c
+}
+
+func copyCdf2(cdf [][]int) [][]int {
+	c := make([][]int, len(cdf))
+	for i := range cdf {
+		c[i] = copyCdf1(cdf[i])
+	}
+	return c
+}
+
+func copyCdf3(cdf [][][]int) [][][]int {
+	c := make([][][]int, len(cdf))
+	for i := range cdf {
+		c[i] = copyCdf2(cdf[i])
+	}
+	return c
+}
+
+func copyCdf4(cdf [][][][]int) [][][][]int {
+	c := make([][][][]int, len(cdf))
+	for i := range cdf {
+		c[i] = copyCdf3(cdf[i])
+	}
+	return c
 }
 
 // 8.2.4 Exit process for symbol decoder
-- 
2.43.0


From cd68d15be562a4605415543147142711a8b439d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 20/49] fix: padding OBUs end where their size says

---
 internal/obu/obu.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..ccc66eb 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -134,10 +134,14 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
+	// obu_padding_length is not coded: the trailing bits start in the last byte that is not zero
+	startPosition := b.Position
+	paddingLength := 0
+	for i := 0; i < o.Size; i++ {
+		if b.F(8) != 0 {
+			paddingLength = i
+		}
 	}
 
-	b.Position -= 8
+	b.Position = startPosition + paddingLength*8
 }
-- 
2.43.0


From 2f7ee8a3afe9b87af313b8dd61390d4507da8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 21/49] fix: skip metadata and reserved OBUs

---
 internal/obu/obu.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index ccc66eb..67d6427 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -74,8 +74,10 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
-	default:
+	case header.OBU_TILE_LIST:
 		panic("not implemented")
+	default:
+		// metadata and reserved OBUs are skipped
 	}
 
 	payloadBits := b.Position - startPosition
-- 
2.43.0


From 54807836fb66e633da319e84e1c75d83893f6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 22/49] fix: a repeated frame header is a copy of the frame's
 header

---
 internal/obu/obu.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 67d6427..b98f496 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -110,7 +110,7 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 // frame_header_obu()
 func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h header.Header, sh sequenceheader.SequenceHeader) uncompressedheader.UncompressedHeader {
 	if state.SeenFrameHeader {
-		return FrameHeaderCopy()
+		return FrameHeaderCopy(o.UncompressedHeader)
 	} else {
 		state.SeenFrameHeader = true
 
@@ -129,9 +129,8 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 }
 
 // frame_header_copy()
-func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
-	panic("not implemented")
-	return uncompressedheader.UncompressedHeader{}
+func FrameHeaderCopy(uh uncompressedheader.UncompressedHeader) uncompressedheader.UncompressedHeader {
+	return uh
 }
 
 // padding_obu( )
-- 
2.43.0


From 87d76d24575398d56f89482961be785d8eb37ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 23/49] fix: give the inverse transform storage for its
 coefficients and residual

T and Residual were nil slices that nothing allocated, and the array
permutations copied only the slice header, so they permuted in place.
---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f81a07f..7bcf1e3 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -250,8 +250,8 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [2][2]int
-	T                 []int
-	Residual          [][]int
+	T                 [64]int
+	Residual          [64][64]int
 	LoopFilterTxSizes [3][2][2]int
 
 	NewMvContext  int
-- 
2.43.0


From 2d7ea7266e6edce16ec1a3c9528bde6841e2521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 24/49] fix: butterfly rotation adds the cosine term of its
 second output

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..afcacf4 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From ea65c548cf39a1818b931175547c6689fa25ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 25/49] fix: inverse ADST4 wrote into empty slices

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index afcacf4..3d0942f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From fe911fd14adea1d5bf9ab0dd85a758aeee80dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 26/49] fix: inverse ADST8 permutes its eight outputs, not
 sixteen

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3d0942f..9a6c46e 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -436,7 +436,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From 0ad1c6b3eff8c5d92dd676ab2da9cdf072316ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:42 +0000
Subject: [PATCH 27/49] fix: column transforms start from the row transforms'
 output

---
 internal/tilegroup/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 9a6c46e..ba36ec2 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From a917604857bf8f475175133b375e0f9eb85718a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:22 +0000
Subject: [PATCH 28/49] fix: residual columns take the column transform's own
 outputs

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index ba36ec2..95fee0f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -103,7 +103,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From 6d5452d5ec5648f3b07231c3c5d468f18e26cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:50 +0000
Subject: [PATCH 29/49] fix: AC coefficients use the AC quantizer table

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From ed1b1ca266d3f704596ca053ea49004e8b3df85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:14 +0000
Subject: [PATCH 30/49] fix: 64x16 blocks scan their 32x16 coefficients

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..70c1469 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -501,7 +501,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From c5c3b7d0cef647d1ae4e2e96a29a8b17ff554fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:14 +0000
Subject: [PATCH 31/49] fix: entry 164 of the division table

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..12aea33 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -846,7 +846,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From bc3957a8761a00724e1fc899952c4dd7a8d2daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 32/49] fix: the division table has 14 fractional bits

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7bcf1e3..a7208e6 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -119,7 +119,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0


From a821c72f77f0a7c1d0118a0bb092d1eef80833e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 33/49] fix: derive the rounding after combining predictions

---
 internal/tilegroup/predict_inter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 12aea33..6cab7bf 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -198,6 +198,8 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	// the filters have a gain of 2^14
+	t.InterPostRound = 14 - t.InterRound0 - t.InterRound1
 }
 
 // 7.11.3.3  Motion vector scaling process
-- 
2.43.0


From e3df6db2c2e1182012fbc85136f9d1be75b88cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 34/49] fix: distance weights need room for two distances

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 6cab7bf..75351e4 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -698,7 +698,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
-- 
2.43.0


From 46f1fd76f5ff4c2d507d339b5c4b2df29b275f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 35/49] fix: clip masked compound predictions

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 75351e4..61f5770 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -690,7 +690,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane i
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From 41d89d600cc6a2fecd63d014fdb58423af704d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 36/49] fix: mask the filter phase

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 61f5770..2f5090d 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -287,7 +287,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -308,7 +308,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From 046ab6eb788422ee57c6500849002418787e911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:28 +0000
Subject: [PATCH 37/49] fix: room for the rows of the horizontal filter

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 2f5090d..7d5a161 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -281,7 +281,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	var intermediate [2*PRED_SIZE + 8][PRED_SIZE]int
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From a5693f12c29e9d03a34a628efc19521663726489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:23 +0000
Subject: [PATCH 38/49] fix: room for the rows of the warp filter

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 7d5a161..a7c800b 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -356,7 +356,7 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
-- 
2.43.0


From a9ed6f8b546bece294f2052db29a235e8aac0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:24 +0000
Subject: [PATCH 39/49] fix: room for the sums of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index a7c800b..9213b1c 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -441,9 +441,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 	for i := 0; i < 2; i++ {
 		for j := 0; j < 2; j++ {
 			A[i][j] = 0
-- 
2.43.0


From 5a649e53585bfcc61af33a6f5587c0a03e9b3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:25 +0000
Subject: [PATCH 40/49] fix: the sums of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 9213b1c..603e75f 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -472,11 +472,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
-- 
2.43.0


From 3bd042e112329ec40df7197327c3eedbf22d1f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:25 +0000
Subject: [PATCH 41/49] fix: the solution of the warp estimation

---
 internal/tilegroup/predict_inter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 603e75f..6ab7c98 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -494,14 +494,14 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << (-divShift)
 		divShift = 0
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
-- 
2.43.0


From 4dcffe1d460af3ac1cc6849b48cd550d2ff39762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:26 +0000
Subject: [PATCH 42/49] fix: the vertical offset of the warp

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 6ab7c98..42064e4 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -506,7 +506,7 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0


From 0d49b75002a850d667fbe8d046ebd218e9fba702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:29 +0000
Subject: [PATCH 43/49] fix: the size of a horizontal edge's filter depends on
 both sides

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..d775cea 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 
 	}
 
-- 
2.43.0


From 711d49716d5e68fc89c531f9959899296329bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:29 +0000
Subject: [PATCH 44/49] fix: low sharpness halves the limit

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index d775cea..ddd54f0 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From 72863924fec969d199f3eb003b14520a3bf7b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:30 +0000
Subject: [PATCH 45/49] fix: an unfiltered block takes the level of the block
 before the edge

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index ddd54f0..92aa5fa 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
-- 
2.43.0


From 9849c0d80e70ca0de8cc1074992b65c97930350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:31 +0000
Subject: [PATCH 46/49] fix: read only the samples that the filter covers

---
 internal/tilegroup/loop_filter_process.go | 28 +++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 92aa5fa..3125529 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -241,18 +241,8 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
 	q0 := state.CurrFrame[plane][y][x]
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
-	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
-	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
-	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
-	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -270,6 +260,24 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 		filterLen = 16
 	}
 
+	var q2, q3, q4, q5, q6, p2, p3, p4, p5, p6 int
+	if filterLen >= 6 {
+		q2 = state.CurrFrame[plane][y+dy*2][x+dx*2]
+		p2 = state.CurrFrame[plane][y-dy*3][x-dx*3]
+	}
+	if filterLen >= 8 {
+		q3 = state.CurrFrame[plane][y+dy*3][x+dx*3]
+		p3 = state.CurrFrame[plane][y-dy*4][x-dx*4]
+	}
+	if filterLen >= 16 {
+		q4 = state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 = state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 = state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 = state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 = state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 = state.CurrFrame[plane][y-dy*7][x-dx*7]
+	}
+
 	limitBd := limit << (sh.ColorConfig.BitDepth - 8)
 	blimitBd := blimit << (sh.ColorConfig.BitDepth - 8)
 	mask := 0
-- 
2.43.0


From 30c7427ceea4201b735870b3476250c3806600c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:31 +0000
Subject: [PATCH 47/49] fix: room for the samples of the wide filter

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 3125529..2b72c50 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -379,7 +379,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	F := make([]int, 2*n)
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -392,9 +392,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[n+i] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[n+i]
 	}
 }
-- 
2.43.0


From 800759db28cc78de13169ea46f64f7d95d6d329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:32 +0000
Subject: [PATCH 48/49] fix: chroma planes are stepped through by their
 subsampling

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 2b72c50..24deeb5 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane != 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 3f8b6900f73ba3634e4eb014ec3f80f9b4766fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:44 +0000
Subject: [PATCH 49/49] revert the deblocking changes: not yet under contract

---
 internal/tilegroup/loop_filter_process.go | 46 ++++++++++-------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 24deeb5..96ee525 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane != 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
+				if plane == 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
@@ -132,7 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
 
 	}
 
@@ -173,7 +173,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 1
+		shift = 2
 	} else {
 		shift = 0
 	}
@@ -241,8 +241,18 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
 	q0 := state.CurrFrame[plane][y][x]
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
+	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
+	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
+	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
+	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
+	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
+	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
+	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
+	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
+	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
+	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -260,24 +270,6 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 		filterLen = 16
 	}
 
-	var q2, q3, q4, q5, q6, p2, p3, p4, p5, p6 int
-	if filterLen >= 6 {
-		q2 = state.CurrFrame[plane][y+dy*2][x+dx*2]
-		p2 = state.CurrFrame[plane][y-dy*3][x-dx*3]
-	}
-	if filterLen >= 8 {
-		q3 = state.CurrFrame[plane][y+dy*3][x+dx*3]
-		p3 = state.CurrFrame[plane][y-dy*4][x-dx*4]
-	}
-	if filterLen >= 16 {
-		q4 = state.CurrFrame[plane][y+dy*4][x+dx*4]
-		q5 = state.CurrFrame[plane][y+dy*5][x+dx*5]
-		q6 = state.CurrFrame[plane][y+dy*6][x+dx*6]
-		p4 = state.CurrFrame[plane][y-dy*5][x-dx*5]
-		p5 = state.CurrFrame[plane][y-dy*6][x-dx*6]
-		p6 = state.CurrFrame[plane][y-dy*7][x-dx*7]
-	}
-
 	limitBd := limit << (sh.ColorConfig.BitDepth - 8)
 	blimitBd := blimit << (sh.ColorConfig.BitDepth - 8)
 	mask := 0
@@ -379,7 +371,7 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	F := make([]int, 2*n)
+	var F []int
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -392,9 +384,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[n+i] = util.Round2(t, log2Size)
+		F[i] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[n+i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
 	}
 }
-- 
2.43.0

