From 910cdda521463d121176214cee87db5bc3f037e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 1/8] fix: SkipBits/Skip account for skipped bytes, detect
 short reads and do not overflow

---
 jxlio/bitreader.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..3d8b86a 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -407,13 +407,8 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 func (br *BitStreamReader) SkipBits(bits uint32) error {
 
 	numBytes := bits / 8
-	if numBytes > 0 {
-		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
-		if err != nil {
-			return err
-		}
-		br.currentByte = buffer[numBytes-1]
+	if err := br.skipBytes(numBytes); err != nil {
+		return err
 	}
 
 	// read bits so we can keep track of where we are.
@@ -426,8 +421,22 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 	return nil
 }
 
+// skipBytes consumes numBytes*8 bits, keeping the position within the current byte.
+func (br *BitStreamReader) skipBytes(numBytes uint32) error {
+	if numBytes == 0 {
+		return nil
+	}
+	buffer := make([]byte, numBytes)
+	if _, err := io.ReadFull(br.stream, buffer); err != nil {
+		return err
+	}
+	br.currentByte = buffer[numBytes-1]
+	br.bitsRead += uint64(numBytes) * 8
+	return nil
+}
+
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
+	err := br.skipBytes(bytes)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 053425f0567b4345fbe3c36e667608dd1f9ad311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 2/8] fix: UnpackSigned for odd values of 2^31 (2^63) and above

---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 3d8b86a..4471ec8 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -482,7 +482,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return ^int32(value >> 1)
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -490,5 +490,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return ^int64(value >> 1)
 }
-- 
2.43.0


From 741945037bd7ae045b117ade584f65ba2043e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 3/8] fix: compute image size limits and ratio widths without
 32-bit overflow

---
 bundle/image_header.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..699769d 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -833,7 +833,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
@@ -846,15 +846,15 @@ func getWidthFromRatio(ratio uint32, height uint32) (uint32, error) {
 	case 1:
 		return height, nil
 	case 2:
-		return height * 6 / 5, nil
+		return uint32(uint64(height) * 6 / 5), nil
 	case 3:
-		return height * 4 / 3, nil
+		return uint32(uint64(height) * 4 / 3), nil
 	case 4:
-		return height * 3 / 2, nil
+		return uint32(uint64(height) * 3 / 2), nil
 	case 5:
-		return height * 16 / 9, nil
+		return uint32(uint64(height) * 16 / 9), nil
 	case 6:
-		return height * 5 / 4, nil
+		return uint32(uint64(height) * 5 / 4), nil
 	case 7:
 		return height * 2, nil
 	default:
-- 
2.43.0


From 5d09046e43de312436dd0b6deca4403861a01698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 4/8] fix: preview sizes of the div8 form are multiples of 8

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 699769d..8528549 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -734,7 +734,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -758,7 +758,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From 7a5d90079bdcd0eac090ca69f067b1c12684f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 5/8] fix: extension lengths are bit counts

---
 bundle/Extensions.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..0a5b19b 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -26,6 +26,7 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 	}
 
 	var length uint64
+	var bitLengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
 			if length, err = reader.ReadU64(); err != nil {
@@ -34,13 +35,15 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 			if length > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
+			// the lengths are in bits
+			bitLengths[i] = length
+			ex.Payloads[i] = make([]byte, (length+7)/8)
 		}
 	}
 	for i := 0; i < 64; i++ {
 		if len(ex.Payloads[i]) > 0 {
 			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
+				if bits, err := reader.ReadBits(uint32(min(8, bitLengths[i]-8*uint64(j)))); err != nil {
 					return nil, err
 				} else {
 					ex.Payloads[i][j] = byte(bits)
-- 
2.43.0


From 3e39c98d4e7d0b1e70cccf6c259f6d9fab091076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 6/8] fix: Add keeps the element it inserts before

---
 util/misc.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/util/misc.go b/util/misc.go
index 475cbaa..90c6e5b 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -94,9 +94,10 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
-	newSlice = append(newSlice, slice[index:]...)
-	return newSlice
+	newSlice := make([]T, 0, len(slice)+1)
+	newSlice = append(newSlice, slice[:index]...)
+	newSlice = append(newSlice, elem)
+	return append(newSlice, slice[index:]...)
 }
 
 type Dimension struct {
-- 
2.43.0


From f5d060b9ca74366ee927b49d45ff9108b457b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 7/8] fix: CeilDiv of zero is zero

---
 util/MathsHelper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/MathsHelper.go b/util/MathsHelper.go
index f7ac6a8..5eec874 100644
--- a/util/MathsHelper.go
+++ b/util/MathsHelper.go
@@ -299,6 +299,9 @@ func InvertMatrix3x3(matrix [][]float32) [][]float32 {
 }
 
 func CeilDiv(numerator uint32, denominator uint32) uint32 {
+	if numerator == 0 {
+		return 0
+	}
 	return ((numerator - 1) / denominator) + 1
 }
 
-- 
2.43.0


From aaa222fc20ad9dc817c4c22769bca71417cc3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 8/8] fix: squeeze parameters use the defined selector values

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0

