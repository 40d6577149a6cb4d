From 4edf2e7bc8ed05965dcc989251b8751d50befc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 001/106] fix: Mat64Instances.MapOverRows drops the error of a
 callback that returns (true, err)

---
 base/mat.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/mat.go b/base/mat.go
index f644cf3..11f35ff 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -99,9 +99,12 @@ func (m *Mat64Instances) MapOverRows(as []AttributeSpec, f func([][]byte, int) (
 			PackFloatToBytesInline(m.Data.At(i, as.position), rowData[j])
 		}
 		stat, err := f(rowData, i)
-		if !stat {
+		if err != nil {
 			return err
 		}
+		if !stat {
+			break
+		}
 	}
 	return nil
 }
-- 
2.43.0


From f94b6dd0b0afbacb8c9c6df1be1c174ae1461166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 002/106] fix: InstancesView.MapOverRows ignores the row map of
 unmasked views and visits masked rows in random order

---
 base/view.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/base/view.go b/base/view.go
index 99d59d8..f217cd1 100644
--- a/base/view.go
+++ b/base/view.go
@@ -202,13 +202,13 @@ func (v *InstancesView) Get(as AttributeSpec, row int) []byte {
 
 // MapOverRows, see DenseInstances.MapOverRows.
 //
-// IMPORTANT: MapOverRows is not guaranteed to be ordered, but this one
-// especially so.
+// Rows are visited in the order of this view.
 func (v *InstancesView) MapOverRows(as []AttributeSpec, rowFunc func([][]byte, int) (bool, error)) error {
-	if v.maskRows {
+	if v.rows != nil {
+		_, rows := v.Size()
 		rowBuf := make([][]byte, len(as))
-		for r := range v.rows {
-			row := v.rows[r]
+		for r := 0; r < rows; r++ {
+			row := v.resolveRow(r)
 			for i, a := range as {
 				rowBuf[i] = v.src.Get(a, row)
 			}
-- 
2.43.0


From 557ae0763c3504ba6f5481dbb6659fd27e8bfbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 003/106] fix: InstancesView tracks class Attributes by pointer
 and returns them in random order

---
 base/view.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/base/view.go b/base/view.go
index f217cd1..fbf9aa7 100644
--- a/base/view.go
+++ b/base/view.go
@@ -17,19 +17,21 @@ type InstancesView struct {
 
 func (v *InstancesView) addClassAttrsFromSrc(src FixedDataGrid) {
 	for _, a := range src.AllClassAttributes() {
-		matched := true
-		if v.attrs != nil {
-			matched = false
-			for _, b := range v.attrs {
-				if b.attr.Equals(a) {
-					matched = true
-				}
-			}
+		if b := v.ownAttribute(a); b != nil {
+			v.classAttrs[b] = true
 		}
-		if matched {
-			v.classAttrs[a] = true
+	}
+}
+
+// ownAttribute returns this view's Attribute which equals a,
+// or nil if there isn't one.
+func (v *InstancesView) ownAttribute(a Attribute) Attribute {
+	for _, b := range v.AllAttributes() {
+		if b.Equals(a) {
+			return b
 		}
 	}
+	return nil
 }
 
 func (v *InstancesView) resolveRow(origRow int) int {
@@ -152,24 +154,21 @@ func (v *InstancesView) AllAttributes() []Attribute {
 // class Attributes, if it hasn't been filtered.
 func (v *InstancesView) AddClassAttribute(a Attribute) error {
 	// Check that this Attribute is defined
-	matched := false
-	for _, r := range v.AllAttributes() {
-		if r.Equals(a) {
-			matched = true
-		}
-	}
-	if !matched {
+	own := v.ownAttribute(a)
+	if own == nil {
 		return fmt.Errorf("Attribute has been filtered")
 	}
 
-	v.classAttrs[a] = true
+	v.classAttrs[own] = true
 	return nil
 }
 
 // RemoveClassAttribute removes the given Attribute from the set of
 // class Attributes.
 func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
-	v.classAttrs[a] = false
+	if own := v.ownAttribute(a); own != nil {
+		v.classAttrs[own] = false
+	}
 	return nil
 }
 
@@ -177,7 +176,7 @@ func (v *InstancesView) RemoveClassAttribute(a Attribute) error {
 // as being class Attributes.
 func (v *InstancesView) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for a := range v.classAttrs {
+	for _, a := range v.AllAttributes() {
 		if v.classAttrs[a] {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From 6a8f4969e55f55a58b4d6a984944791e5392689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 004/106] fix: LazilyFilteredInstances.MapOverRows transforms
 Attributes which aren't filtered

---
 base/filtered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/filtered.go b/base/filtered.go
index 0d4f77f..cf25f59 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -186,6 +186,10 @@ func (l *LazilyFilteredInstances) MapOverRows(asv []AttributeSpec, mapFunc func(
 	newRowBuf := make([][]byte, len(asv))
 	return l.src.MapOverRows(oldAsv, func(oldRow [][]byte, oldRowNo int) (bool, error) {
 		for i, b := range oldRow {
+			if l.unfilteredMap[asv[i].attr] {
+				newRowBuf[i] = b
+				continue
+			}
 			newField := l.filter.Transform(oldAsv[i].attr, asv[i].attr, b)
 			newRowBuf[i] = newField
 		}
-- 
2.43.0


From 8c7da8d645681bc24c99b5e8c017c51730883064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 005/106] fix: LazilyFilteredInstances.Size counts the
 Attributes before filtering

---
 base/filtered.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index cf25f59..79f5254 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -218,10 +218,11 @@ func (l *LazilyFilteredInstances) RowString(row int) string {
 	return buffer.String() // Return the result
 }
 
-// Size returns the number of Attributes and rows of the underlying
-// FixedDataGrid.
+// Size returns the number of Attributes after filtering and the
+// number of rows of the underlying FixedDataGrid.
 func (l *LazilyFilteredInstances) Size() (int, int) {
-	return l.src.Size()
+	_, rows := l.src.Size()
+	return len(l.AllAttributes()), rows
 }
 
 // String returns a human-readable summary of this FixedDataGrid
-- 
2.43.0


From 905fac97f198fead65a79e9d00f75600477b513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 006/106] fix: LazilyFilteredInstances returns class Attributes
 in random order and only removes the first one

---
 base/filtered.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/filtered.go b/base/filtered.go
index 79f5254..fa8b41f 100644
--- a/base/filtered.go
+++ b/base/filtered.go
@@ -113,13 +113,17 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 		l.classAttrs[cls] = false
 		return nil
 	}
+	matched := false
 	for _, a := range l.attrs {
 		if a.Old.Equals(cls) || a.New.Equals(cls) {
 			l.classAttrs[a.New] = false
-			return nil
+			matched = true
 		}
 	}
-	return fmt.Errorf("Attribute %s could not be resolved", cls)
+	if !matched {
+		return fmt.Errorf("Attribute %s could not be resolved", cls)
+	}
+	return nil
 }
 
 // AllClassAttributes returns details of all Attributes currently specified
@@ -129,7 +133,7 @@ func (l *LazilyFilteredInstances) RemoveClassAttribute(cls Attribute) error {
 // by the Filter.
 func (l *LazilyFilteredInstances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for a := range l.classAttrs {
+	for _, a := range l.AllAttributes() {
 		if l.classAttrs[a] {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From 36fed608c38850960853ec17b8c49374a4d9c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 007/106] fix: AllClassAttributes of DenseInstances and
 Mat64Instances comes in random order

---
 base/dense.go | 8 +++++---
 base/mat.go   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/dense.go b/base/dense.go
index d3a87df..0b91298 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -332,9 +332,11 @@ func (inst *DenseInstances) AllClassAttributes() []Attribute {
 // been designated class Attributes (doesn't lock)
 func (inst *DenseInstances) allClassAttributes() []Attribute {
 	var ret []Attribute
-	for a := range inst.classAttrs {
-		if inst.classAttrs[a] {
-			ret = append(ret, a.attr)
+	for i, p := range inst.ags {
+		for j, a := range p.Attributes() {
+			if inst.classAttrs[AttributeSpec{i, j, a}] {
+				ret = append(ret, a)
+			}
 		}
 	}
 	return ret
diff --git a/base/mat.go b/base/mat.go
index 11f35ff..257d84b 100644
--- a/base/mat.go
+++ b/base/mat.go
@@ -72,7 +72,7 @@ func (m *Mat64Instances) RemoveClassAttribute(a Attribute) error {
 // AllClassAttributes returns every class attribute.
 func (m *Mat64Instances) AllClassAttributes() []Attribute {
 	ret := make([]Attribute, 0)
-	for i := range m.classAttrs {
+	for i := range m.attributes {
 		if m.classAttrs[i] {
 			ret = append(ret, m.attributes[i])
 		}
-- 
2.43.0


From 4f0af4bfcdcf72c9f9a7d2aaefc2e69155a7f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 008/106] fix: AttributeDifferenceReferences and
 AttributeIntersectReferences return a random order

---
 base/util_attributes.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/util_attributes.go b/base/util_attributes.go
index e65662a..41635c1 100644
--- a/base/util_attributes.go
+++ b/base/util_attributes.go
@@ -95,15 +95,14 @@ func AttributeIntersect(a1, a2 []Attribute) []Attribute {
 
 // AttributeIntersectReferences returns the intersection of two Attribute slices.
 //
-// IMPORTANT: result is not guaranteed to be ordered.
+// IMPORTANT: result is ordered the same as a1.
 //
 // IMPORTANT: done using pointers for speed, use AttributeDifference
 // if the Attributes originate from different DataGrids.
 func AttributeIntersectReferences(a1, a2 []Attribute) []Attribute {
-	a1b := buildAttrSet(a1)
 	a2b := buildAttrSet(a2)
 	ret := make([]Attribute, 0)
-	for a := range a1b {
+	for _, a := range a1 {
 		if _, ok := a2b[a]; ok {
 			ret = append(ret, a)
 		}
@@ -137,15 +136,14 @@ func AttributeDifference(a1, a2 []Attribute) []Attribute {
 // AttributeDifferenceReferences returns the difference between two Attribute
 // slices: i.e. all the values in a1 which do not occur in a2.
 //
-// IMPORTANT: result is not guaranteed to be ordered.
+// IMPORTANT: result is ordered the same as a1.
 //
 // IMPORTANT: done using pointers for speed, use AttributeDifference
 // if the Attributes originate from different DataGrids.
 func AttributeDifferenceReferences(a1, a2 []Attribute) []Attribute {
-	a1b := buildAttrSet(a1)
 	a2b := buildAttrSet(a2)
 	ret := make([]Attribute, 0)
-	for a := range a1b {
+	for _, a := range a1 {
 		if _, ok := a2b[a]; !ok {
 			ret = append(ret, a)
 		}
-- 
2.43.0


From 38cc176d4d999817284ea9c3fb30ee0ade6d14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 009/106] fix: Sort and LazySort misplace negative values and
 values of the last Attribute

---
 base/sort.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index 1cbfa57..dc40667 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -3,12 +3,24 @@ package base
 import (
 	"bytes"
 	"encoding/binary"
+	"math"
 )
 
-func sortXorOp(b []byte) []byte {
+// sortXorOp returns a copy of the (little-endian) system representation
+// b of an Attribute value which is ordered in the same way as the value
+// when it's compared as an unsigned integer.
+func sortXorOp(a Attribute, b []byte) []byte {
 	ret := make([]byte, len(b))
 	copy(ret, b)
-	ret[0] ^= 0x80
+	if _, ok := a.(*FloatAttribute); ok {
+		bits := math.Float64bits(UnpackBytesToFloat(b) + 0) // -0 is equal to 0
+		if bits>>63 == 0 {
+			bits |= 1 << 63
+		} else {
+			bits = ^bits
+		}
+		binary.LittleEndian.PutUint64(ret, bits)
+	}
 	return ret
 }
 
@@ -47,11 +59,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		byteBuf := make([]byte, rowSize)
 
 		for i, r := range row {
-			if i == 0 {
-				binary.Write(buf, binary.LittleEndian, sortXorOp(r))
-			} else {
-				binary.Write(buf, binary.LittleEndian, r)
-			}
+			binary.Write(buf, binary.LittleEndian, sortXorOp(attrs[i].attr, r))
 		}
 
 		buf.Read(byteBuf)
-- 
2.43.0


From f4b6a7b45624e25b5d3876d18e4be1cf141c6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 010/106] fix: LazyShuffle loses and repeats rows

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index 2def385..b6cab3b 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -402,8 +402,8 @@ func LazyShuffle(from FixedDataGrid) FixedDataGrid {
 	rowMap := make(map[int]int)
 	for i := 0; i < rows; i++ {
 		j := rand.Intn(i + 1)
-		rowMap[i] = j
-		rowMap[j] = i
+		rowMap[i] = i
+		rowMap[i], rowMap[j] = rowMap[j], rowMap[i]
 	}
 	return NewInstancesViewFromRows(from, rowMap)
 }
-- 
2.43.0


From c4e98fdedbb8cd619438f2af75a1821086972209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 011/106] fix: SampleWithReplacement returns every source row
 when fewer are asked for

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index b6cab3b..b39831a 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -429,13 +429,13 @@ func Shuffle(from FixedDataGrid) FixedDataGrid {
 // IMPORTANT: There's a high chance of seeing duplicate rows
 // whenever size is close to the row count.
 func SampleWithReplacement(from FixedDataGrid, size int) FixedDataGrid {
-	rowMap := make(map[int]int)
+	rowMap := make([]int, size)
 	_, rows := from.Size()
 	for i := 0; i < size; i++ {
 		srcRow := rand.Intn(rows)
 		rowMap[i] = srcRow
 	}
-	return NewInstancesViewFromRows(from, rowMap)
+	return NewInstancesViewFromVisible(from, rowMap, from.AllAttributes())
 }
 
 // CheckCompatible checks whether two DataGrids have the same Attributes
-- 
2.43.0


From 92fe8a69638519884f002058d69186b49a92e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 012/106] fix: GetClassDistributionBy* count the first row only

---
 base/util_instances.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index b39831a..edfd643 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -146,7 +146,7 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 			ret[0]++
 		}
 
-		return false, nil
+		return true, nil
 	})
 
 	return ret
@@ -177,7 +177,7 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
 		index := UnpackBytesToU64(vals[0])
 		ret[int(index)]++
-		return false, nil
+		return true, nil
 	})
 
 	return ret
-- 
2.43.0


From 185635515ca991d85c6964921e29a67399433eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 013/106] fix: SerializeInstancesToCSVStream reports success
 when writing or reading rows fails

---
 base/serialize_instances.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 7239776..8722d9b 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -60,21 +60,27 @@ func SerializeInstancesToCSVStream(inst FixedDataGrid, f io.Writer) error {
 	for i, v := range allAttrs {
 		headerRow[i] = v.GetName()
 	}
-	w.Write(headerRow)
+	if err := w.Write(headerRow); err != nil {
+		return fmt.Errorf("Could not write headers: %s", err)
+	}
 
 	specs := ResolveAttributes(inst, allAttrs)
 	curRow := make([]string, colCount)
-	inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
+	if err := inst.MapOverRows(specs, func(row [][]byte, rowNo int) (bool, error) {
 		for i, v := range row {
 			attr := allAttrs[i]
 			curRow[i] = attr.GetStringFromSysVal(v)
 		}
-		w.Write(curRow)
+		if err := w.Write(curRow); err != nil {
+			return false, err
+		}
 		return true, nil
-	})
+	}); err != nil {
+		return fmt.Errorf("Could not write rows: %s", err)
+	}
 
 	w.Flush()
-	return nil
+	return w.Error()
 }
 
 // DeserializeInstancesFromTarReader returns DenseInstances from a FunctionalTarReader with the name prefix.
-- 
2.43.0


From 36b93687f29f47720e3bf202fabcbca6a7602c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 014/106] fix: SerializeInstancesToCSV leaves old content
 behind and ignores sync and close errors

---
 base/serialize_instances.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 8722d9b..293e0bb 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -28,18 +28,27 @@ func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
 	return nil
 }
 
+// finishFile flushes and closes a file which has been written to. It returns the first error
+// encountered, starting with the error (if any) from writing to it.
+func finishFile(f *os.File, err error) error {
+	if err == nil {
+		if err = f.Sync(); err != nil {
+			err = fmt.Errorf("Couldn't flush file: %s", err)
+		}
+	}
+	if closeErr := f.Close(); err == nil && closeErr != nil {
+		err = fmt.Errorf("Couldn't close file: %s", closeErr)
+	}
+	return err
+}
+
 // SerializesInstancesToCSV converts a FixedDataGrid into a CSV file format.
 func SerializeInstancesToCSV(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer func() {
-		f.Sync()
-		f.Close()
-	}()
-
-	return SerializeInstancesToCSVStream(inst, f)
+	return finishFile(f, SerializeInstancesToCSVStream(inst, f))
 }
 
 // SerializeInstancesToCSVStream outputs a FixedDataGrid into a CSV file format, via the io.Writer stream.
-- 
2.43.0


From cfa599f8f1c7fda80e6d73458006521cf9523ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 015/106] fix: SerializeInstancesToFile leaves old content
 behind, leaks the file on errors and ignores close errors

---
 base/serialize_instances.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 293e0bb..968d002 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -12,20 +12,11 @@ import (
 )
 
 func SerializeInstancesToFile(inst FixedDataGrid, path string) error {
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
-	if err != nil {
-		return err
-	}
-	err = SerializeInstances(inst, f)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	err = f.Sync()
-	if err != nil {
-		return fmt.Errorf("Couldn't flush file: %s", err)
-	}
-	f.Close()
-	return nil
+	return finishFile(f, SerializeInstances(inst, f))
 }
 
 // finishFile flushes and closes a file which has been written to. It returns the first error
-- 
2.43.0


From 7679f509916da7a435eacefd3110748f6a02849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 016/106] fix: ARFF export reports success when writing or
 reading rows fails

---
 base/arff.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 996201b..c0387d1 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -43,7 +43,9 @@ func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
 	// Write @relation header
-	fmt.Fprintf(w, "@relation %s\n\n", relation)
+	if _, err := fmt.Fprintf(w, "@relation %s\n\n", relation); err != nil {
+		return err
+	}
 
 	// Get all Attribute specifications
 	attrs := ResolveAttributes(inst, rawAttrs)
@@ -56,21 +58,27 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 			vals := a.GetValues()
 			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
 		}
-		fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t)
+		if _, err := fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t); err != nil {
+			return err
+		}
+	}
+	if _, err := fmt.Fprint(w, "\n@data\n"); err != nil {
+		return err
 	}
-	fmt.Fprint(w, "\n@data\n")
 
 	buf := make([]string, len(attrs))
-	inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
+	return inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
 			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
 		}
-		fmt.Fprint(w, strings.Join(buf, ","))
-		fmt.Fprint(w, "\n")
+		if _, err := fmt.Fprint(w, strings.Join(buf, ",")); err != nil {
+			return false, err
+		}
+		if _, err := fmt.Fprint(w, "\n"); err != nil {
+			return false, err
+		}
 		return true, nil
 	})
-
-	return nil
 }
 
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
-- 
2.43.0


From 84e9f42c8cddb5d979e68852be4efa18b8f53c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 017/106] fix: ARFF export to a file leaves old content behind,
 is not synced and ignores close errors

---
 base/arff.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index c0387d1..68c53c6 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -31,14 +31,11 @@ func SerializeInstancesToDenseARFF(inst FixedDataGrid, path, relation string) er
 func SerializeInstancesToDenseARFFWithAttributes(inst FixedDataGrid, rawAttrs []Attribute, path, relation string) error {
 
 	// Open output file
-	f, err := os.OpenFile(path, os.O_RDWR, 0600)
+	f, err := os.OpenFile(path, os.O_RDWR|os.O_TRUNC, 0600)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
-	return SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation)
-
+	return finishFile(f, SerializeInstancesToWriterDenseARFFWithAttributes(f, inst, rawAttrs, relation))
 }
 
 func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDataGrid, rawAttrs []Attribute, relation string) error {
-- 
2.43.0


From 48d874d1d7066ee954a097d5ec49d34fa16b3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 018/106] fix: DeserializeInstances fails on data which arrives
 in short reads

---
 base/serialize_instances.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index 968d002..e282329 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -172,17 +172,10 @@ func DeserializeInstancesFromTarReader(tr *FunctionalTarReader, prefix string) (
 	for i := 0; i < rowCount; i++ {
 		for j, s := range specs {
 			r := ret.Get(s, i)
-			n, err := reader.Read(r)
-			if n != len(r) {
-				return nil, WrapError(fmt.Errorf("Expected %d bytes (read %d) on row %d", len(r), n, i))
+			if n, err := io.ReadFull(reader, r); err != nil {
+				return nil, WrapError(fmt.Errorf("Read error in data section (at row %d from %d, attr %d from %d, read %d of %d bytes): %s", i, rowCount, j, len(specs), n, len(r), err))
 			}
 			ret.Set(s, i, r)
-			if err != nil {
-				if i == rowCount-1 && j == len(specs)-1 && err == io.EOF {
-					break
-				}
-				return nil, WrapError(fmt.Errorf("Read error in data section (at row %d from %d, attr %d from %d): %s", i, rowCount, j, len(specs), err))
-			}
 		}
 	}
 
-- 
2.43.0


From c08939e5badff42835290f5a8400f16ec825050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 019/106] fix: CSV import with AttributeGroups adds an empty
 row for the header

---
 base/csv.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/csv.go b/base/csv.go
index 93bb63d..0cee9b7 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -295,6 +295,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		return nil, err
 	}
 
+	if hasHeaders {
+		rowCount--
+	}
+
 	// Read the row headers
 	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
 	for i := range attrs {
-- 
2.43.0


From c5847e9a932242d2268dfc2006505133854eeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 020/106] fix: CSV import with AttributeGroups orders
 Attributes at random

---
 base/csv.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/csv.go b/base/csv.go
index 0cee9b7..5032734 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"regexp"
 	"runtime"
+	"sort"
 	"strings"
 )
 
@@ -335,8 +336,13 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 		}
 	}
 
-	// Create them
+	// Create them, always in the same order
+	agNames := make([]string, 0, len(agsToCreate))
 	for i := range agsToCreate {
+		agNames = append(agNames, i)
+	}
+	sort.Strings(agNames)
+	for _, i := range agNames {
 		size := agsToCreate[i]
 		err = instances.CreateAttributeGroup(i, size)
 		if err != nil {
-- 
2.43.0


From a7fc05909ad7e93cdda6b138fd04a1a36968f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 021/106] fix: CopyDenseInstances panics on templates with
 several categorical Attributes and orders groups at random

---
 base/util_instances.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index edfd643..e320f01 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -26,9 +26,8 @@ func GeneratePredictionVector(from FixedDataGrid) UpdatableDataGrid {
 // with identical structure (layout, Attributes) to the original
 func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *DenseInstances {
 	instances := NewDenseInstances()
-	templateAgs := template.AllAttributeGroups()
-	for ag := range templateAgs {
-		agTemplate := templateAgs[ag]
+	for i, agTemplate := range template.ags {
+		ag := template.agRevMap[i]
 		if _, ok := agTemplate.(*BinaryAttributeGroup); ok {
 			instances.CreateAttributeGroup(ag, 0)
 		} else {
@@ -41,14 +40,11 @@ func CopyDenseInstances(template *DenseInstances, templateAttrs []Attribute) *De
 		if err != nil {
 			panic(err)
 		}
-		if ag, ok := template.agRevMap[s.pond]; !ok {
-			panic(ag)
-		} else {
-			_, err := instances.AddAttributeToAttributeGroup(a, ag)
-			if err != nil {
-				panic(err)
-			}
-		}
+		// The Attribute already shares this group in the template: there's no
+		// need to check that it's compatible with the others (two Attributes
+		// in a default group generally aren't)
+		instances.ags[s.pond].AddAttribute(a)
+		instances.attributes = append(instances.attributes, a)
 	}
 	return instances
 }
-- 
2.43.0


From 8eb3cdf175026aa65ffc1f12f4e0ba49250bf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 022/106] fix: CSV import ignores seek errors and panics on or
 hides read errors

---
 base/csv.go | 109 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 87 insertions(+), 22 deletions(-)

diff --git a/base/csv.go b/base/csv.go
index 5032734..3af8d88 100644
--- a/base/csv.go
+++ b/base/csv.go
@@ -11,9 +11,14 @@ import (
 	"strings"
 )
 
+// maxLineLength is the length of the longest line that's scanned.
+const maxLineLength = 1 << 30
+
 // ParseCSVGetRowsFromReader returns the number of rows in a given reader.
 func ParseCSVGetRowsFromReader(r io.ReadSeeker) (int, error) {
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	reader := csv.NewReader(r)
 	counter := 0
 	for {
@@ -37,12 +42,15 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 	// Scan through the file line-by-line
 	maxL := 0
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return 0, err
+	}
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLineLength)
 	lineCount := 0
 	for scanner.Scan() {
 		if lineCount > 5 {
-			break
+			return maxL, nil
 		}
 		line := scanner.Text()
 		if len(line) == 0 {
@@ -66,42 +74,76 @@ func ParseCSVEstimateFilePrecisionFromReader(r io.ReadSeeker) (int, error) {
 		}
 		lineCount++
 	}
+	if err := scanner.Err(); err != nil {
+		return 0, err
+	}
 	return maxL, nil
 }
 
 // ParseCSVGetAttributesFromReader returns an ordered slice of appropriate-ly typed
 // and named Attributes.
+//
+// IMPORTANT: panics if the reader can't be read.
 func ParseCSVGetAttributesFromReader(r io.ReadSeeker, hasHeaders bool) []Attribute {
-	attrs := ParseCSVSniffAttributeTypesFromReader(r, hasHeaders)
-	names := ParseCSVSniffAttributeNamesFromReader(r, hasHeaders)
+	attrs, err := parseCSVGetAttributes(r, hasHeaders)
+	if err != nil {
+		panic(err)
+	}
+	return attrs
+}
+
+func parseCSVGetAttributes(r io.ReadSeeker, hasHeaders bool) ([]Attribute, error) {
+	attrs, err := parseCSVSniffAttributeTypes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
+	names, err := parseCSVSniffAttributeNames(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
+	if len(names) != len(attrs) {
+		return nil, fmt.Errorf("expected %d Attribute names, got %d", len(attrs), len(names))
+	}
 	for i, attr := range attrs {
 		attr.SetName(names[i])
 	}
-	return attrs
+	return attrs, nil
 }
 
 // ParseCSVSniffAttributeNamesFromReader returns a slice containing the top row
 // of a given reader with CSV-contents, or placeholders if hasHeaders is false.
+//
+// IMPORTANT: panics if the reader can't be read.
 func ParseCSVSniffAttributeNamesFromReader(r io.ReadSeeker, hasHeaders bool) []string {
+	names, err := parseCSVSniffAttributeNames(r, hasHeaders)
+	if err != nil {
+		panic(err)
+	}
+	return names
+}
 
-	r.Seek(0, 0)
+func parseCSVSniffAttributeNames(r io.ReadSeeker, hasHeaders bool) ([]string, error) {
+
+	if _, err := r.Seek(0, 0); err != nil {
+		return nil, err
+	}
 	reader := csv.NewReader(r)
 	headers, err := reader.Read()
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	if hasHeaders {
 		for i, h := range headers {
 			headers[i] = strings.TrimSpace(h)
 		}
-		return headers
+		return headers, nil
 	}
 
 	for i := range headers {
 		headers[i] = fmt.Sprintf("%d", i)
 	}
-	return headers
+	return headers, nil
 
 }
 
@@ -109,23 +151,35 @@ func ParseCSVSniffAttributeNamesFromReader(r io.ReadSeeker, hasHeaders bool) []s
 //
 // The type of a given attribute is determined by looking at the first data row
 // of the CSV.
+//
+// IMPORTANT: panics if the reader can't be read.
 func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []Attribute {
+	attrs, err := parseCSVSniffAttributeTypes(r, hasHeaders)
+	if err != nil {
+		panic(err)
+	}
+	return attrs
+}
+
+func parseCSVSniffAttributeTypes(r io.ReadSeeker, hasHeaders bool) ([]Attribute, error) {
 	var attrs []Attribute
 
 	// Create the CSV reader
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return nil, err
+	}
 	reader := csv.NewReader(r)
 	if hasHeaders {
 		// Skip the headers
 		_, err := reader.Read()
 		if err != nil {
-			panic(err)
+			return nil, err
 		}
 	}
 	// Read the first line of the file
 	columns, err := reader.Read()
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 
 	for _, entry := range columns {
@@ -133,7 +187,7 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 		entry = strings.Trim(entry, " ")
 		matched, err := regexp.MatchString("^[-+]?[0-9]*\\.?[0-9]+([eE][-+]?[0-9]+)?$", entry)
 		if err != nil {
-			panic(err)
+			return nil, err
 		}
 		if matched {
 			attrs = append(attrs, NewFloatAttribute(""))
@@ -145,7 +199,7 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 	// Estimate file precision
 	maxP, err := ParseCSVEstimateFilePrecisionFromReader(r)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	for _, a := range attrs {
 		if f, ok := a.(*FloatAttribute); ok {
@@ -153,7 +207,7 @@ func ParseCSVSniffAttributeTypesFromReader(r io.ReadSeeker, hasHeaders bool) []A
 		}
 	}
 
-	return attrs
+	return attrs, nil
 }
 
 // ParseCSVBuildInstancesFromReader updates an [[#UpdatableDataGrid]] from a io.Reader
@@ -163,15 +217,17 @@ func ParseCSVBuildInstancesFromReader(r io.ReadSeeker, attrs []Attribute, hasHea
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
-			err = fmt.Errorf("error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
 	specs := ResolveAttributes(u, attrs)
 
-	r.Seek(0, 0)
+	if _, err := r.Seek(0, 0); err != nil {
+		return err
+	}
 	reader := csv.NewReader(r)
 
 	for {
@@ -215,7 +271,10 @@ func ParseCSVToInstancesFromReader(r io.ReadSeeker, hasHeaders bool) (instances
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVGetAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	specs := make([]AttributeSpec, len(attrs))
 	// Allocate the Instances to return
 	instances = NewDenseInstances()
@@ -263,7 +322,10 @@ func ParseCSVToTemplatedInstancesFromReader(r io.ReadSeeker, hasHeaders bool, te
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVGetAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	templateAttrs := template.AllAttributes()
 	ParseMatchAttributes(attrs, templateAttrs)
 
@@ -301,7 +363,10 @@ func ParseCSVToInstancesWithAttributeGroupsFromReader(r io.ReadSeeker, attrGroup
 	}
 
 	// Read the row headers
-	attrs := ParseCSVGetAttributesFromReader(r, hasHeaders)
+	attrs, err := parseCSVGetAttributes(r, hasHeaders)
+	if err != nil {
+		return nil, err
+	}
 	for i := range attrs {
 		if a, ok := attrOverrides[i]; ok {
 			attrs[i] = a
-- 
2.43.0


From 3973539265e5fa42abf7c370c238d39bfadd226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 023/106] fix: ARFF import silently stops at lines longer than
 64KB

---
 base/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index 68c53c6..a8cbca1 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -90,6 +90,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 	counting := false
 	count := 0
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, maxLineLength)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) == 0 {
@@ -126,6 +127,7 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, maxLineLength)
 	for scanner.Scan() {
 		var attr Attribute
 		line := scanner.Text()
@@ -214,6 +216,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	}()
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLineLength)
 	reading := false
 	specs := ResolveAttributes(u, attrs)
 	for scanner.Scan() {
-- 
2.43.0


From 2ffa16bad76b8515e57ddd894071dcbeeed5dc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 024/106] fix: ARFF import panics if @data is followed by white
 space

---
 base/arff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/arff.go b/base/arff.go
index a8cbca1..a708044 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -107,7 +107,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if line[0] == '@' {
-			line = strings.ToLower(line)
+			line = strings.TrimSpace(strings.ToLower(line))
 			if line == "@data" {
 				counting = true
 			}
-- 
2.43.0


From b66ea09897584b393ba1960fb493535b53c3d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 025/106] fix: ARFF import hides read errors and accepts a text
 that ends inside the header

---
 base/arff.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index a708044..166b185 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -113,6 +113,12 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return 0, err
+	}
+	if !counting {
+		return 0, fmt.Errorf("No @data section found in %s", filepath)
+	}
 	return count, nil
 }
 
@@ -189,6 +195,9 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		attr.SetName(fields[1])
 		ret = append(ret, attr)
 	}
+	if err := scanner.Err(); err != nil {
+		panic(err)
+	}
 
 	maxPrecision, err := ParseCSVEstimateFilePrecision(filepath)
 	if err != nil {
@@ -209,9 +218,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(runtime.Error); ok {
-				panic(err)
+				panic(r)
 			}
-			err = fmt.Errorf("Error at line %d (error %s)", rowCounter, r.(error))
+			err = fmt.Errorf("Error at line %d (error %v)", rowCounter, r)
 		}
 	}()
 
@@ -254,7 +263,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 // ParseDenseARFFToInstances parses the dense ARFF File into a FixedDataGrid
@@ -276,6 +285,9 @@ func ParseDenseARFFToInstances(filepath string) (ret *DenseInstances, err error)
 
 	// Get the Attributes we want
 	attrs := ParseARFFGetAttributes(filepath)
+	if len(attrs) == 0 {
+		return nil, fmt.Errorf("No Attributes found in %s", filepath)
+	}
 
 	// Allocate return value
 	ret = NewDenseInstances()
-- 
2.43.0


From 19d0ca0f7ab41a09914aff23430aa71561137cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 026/106] fix: saving a KNN or one-vs-all model inside another
 one closes the file

---
 knn/knn.go        | 19 ++++++++++++-------
 meta/one_v_all.go |  8 ++++++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 0ce44fa..01d5276 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -349,18 +349,23 @@ func (KNN *KNNClassifier) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return KNN.SaveWithPrefix(writer, "")
+	err = KNN.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs KNN as part of another file.
 func (KNN *KNNClassifier) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
-	err := writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
-	if err != nil {
-		return err
+	if prefix != "" {
+		// At the top level, the METADATA is already there
+		err := writer.WriteMetadataAtPrefix(prefix, KNN.GetMetadata())
+		if err != nil {
+			return err
+		}
 	}
-	err = writer.Close()
-	return err
+	return writer.WriteInstancesForKey(writer.Prefix(prefix, "TrainingInstances"), KNN.TrainingData, true)
 }
 
 // Load reloads a given KNN classifier when it's the only thing in the output file.
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index e6a7e6f..9338fb5 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -254,7 +254,11 @@ func (m *OneVsAllModel) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	return m.SaveWithPrefix(writer, "")
+	err = m.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -324,7 +328,7 @@ func (m *OneVsAllModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix
 		}
 	}
 
-	return writer.Close()
+	return nil
 }
 
 func (m *OneVsAllModel) generateAttributes(from base.FixedDataGrid) map[base.Attribute]base.Attribute {
-- 
2.43.0


From 7517ea4d099396fa0ec82ad9d36f8a54e251361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 027/106] fix: saving models ignores errors on close or never
 closes the file

---
 ensemble/multisvc.go       |  6 ++++--
 ensemble/randomforest.go   |  4 +++-
 linear_models/linearsvc.go | 10 +++++-----
 meta/bagging.go            |  4 +++-
 naive/bernoulli_nb.go      |  4 +++-
 trees/id3.go               | 13 ++++++++-----
 trees/random.go            |  9 +++++----
 7 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 2f29780..3488de6 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -98,11 +98,13 @@ func (m *MultiLinearSVC) Save(filePath string) error {
 		return err
 	}
 	err = m.SaveWithPrefix(serializer, "")
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return fmt.Errorf("Unable to Save(): %v", err)
 	}
-	serializer.Close()
-	return err
+	return nil
 }
 
 func (m *MultiLinearSVC) SaveWithPrefix(serializer *base.ClassifierSerializer, prefix string) error {
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 0d9492a..3aa292e 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -78,7 +78,9 @@ func (f *RandomForest) Save(filePath string) error {
 	}
 
 	err = f.SaveWithPrefix(writer, "model")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 6166198..1ecca3b 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -241,11 +241,11 @@ func (lr *LinearSVC) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	fmt.Printf("writer: %v", writer)
-	return lr.SaveWithPrefix(writer, "")
+	err = lr.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
diff --git a/meta/bagging.go b/meta/bagging.go
index f509463..3c39e93 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -207,7 +207,9 @@ func (b *BaggedModel) Save(filePath string) error {
 		return err
 	}
 	err = b.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 767a90a..2e8e9ff 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -75,7 +75,9 @@ func (nb *BernoulliNBClassifier) Save(filePath string) error {
 		return err
 	}
 	err = nb.SaveWithPrefix(writer, "")
-	writer.Close()
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/trees/id3.go b/trees/id3.go
index 8574d48..00b7f05 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -128,10 +128,10 @@ func (d *DecisionTreeNode) Save(filePath string) error {
 		return err
 	}
 	err = d.SaveWithPrefix(serializer, "")
-	if err != nil {
-		return err
+	if closeErr := serializer.Close(); err == nil {
+		err = closeErr
 	}
-	return serializer.Close()
+	return err
 }
 
 func (d *DecisionTreeNode) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
@@ -570,8 +570,11 @@ func (t *ID3DecisionTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Printf("writer: %v", writer)
-	return t.SaveWithPrefix(writer, "")
+	err = t.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 func (t *ID3DecisionTree) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
diff --git a/trees/random.go b/trees/random.go
index c5b44ed..b2425ff 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -95,10 +95,11 @@ func (rt *RandomTree) Save(filePath string) error {
 	if err != nil {
 		return err
 	}
-	defer func() {
-		writer.Close()
-	}()
-	return rt.SaveWithPrefix(writer, "")
+	err = rt.SaveWithPrefix(writer, "")
+	if closeErr := writer.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
 
 // SaveWithPrefix outputs this model to a file with a prefix.
-- 
2.43.0


From 2b1b30a926bb9f5060c55b636e76049d23423906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 028/106] fix: ClassifierSerializer ignores flush errors and
 leaks the file on errors

---
 base/serialize.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 5cf7ebe..5444160 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -258,8 +258,17 @@ type ClassifierSerializer struct {
 
 // Close finalizes the Classifier serialization session.
 func (c *ClassifierSerializer) Close() error {
+	err := c.finish()
+	// Whatever happened before, the file has to be released
+	if closeErr := c.fileWriter.Close(); err == nil && closeErr != nil {
+		err = fmt.Errorf("Could not close file writer: %s", closeErr)
+	}
+	return err
+}
+
+// finish closes and flushes the various levels on top of the file.
+func (c *ClassifierSerializer) finish() error {
 
-	// Finally, close and flush the various levels
 	if err := c.tarWriter.Flush(); err != nil {
 		return fmt.Errorf("Could not flush tar: %s", err)
 	}
@@ -277,11 +286,7 @@ func (c *ClassifierSerializer) Close() error {
 	}
 
 	if err := c.fileWriter.Sync(); err != nil {
-		return fmt.Errorf("Could not close file writer: %s", err)
-	}
-
-	if err := c.fileWriter.Close(); err != nil {
-		return fmt.Errorf("Could not close file writer: %s", err)
+		return fmt.Errorf("Could not flush file writer: %s", err)
 	}
 
 	return nil
@@ -308,9 +313,15 @@ func (c *ClassifierSerializer) WriteBytesForKey(key string, b []byte) error {
 		return fmt.Errorf("Could not write data for '%s': %s", key, err)
 	}
 
-	c.tarWriter.Flush()
-	c.gzipWriter.Flush()
-	c.fileWriter.Sync()
+	if err := c.tarWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush tar: %s", err)
+	}
+	if err := c.gzipWriter.Flush(); err != nil {
+		return fmt.Errorf("Could not flush gz: %s", err)
+	}
+	if err := c.fileWriter.Sync(); err != nil {
+		return fmt.Errorf("Could not flush file writer: %s", err)
+	}
 	return nil
 }
 
@@ -406,10 +417,12 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 		Size: int64(len(SerializationFormatVersion)),
 	}
 	if err := tw.WriteHeader(hdr); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST header: %s", err)
 	}
 
 	if _, err := tw.Write([]byte(SerializationFormatVersion)); err != nil {
+		f.Close()
 		return nil, fmt.Errorf("Could not write CLS_MANIFEST contents: %s", err)
 	}
 
@@ -418,6 +431,7 @@ func CreateSerializedClassifierStub(filePath string, metadata ClassifierMetadata
 	//
 	err = ret.WriteMetadataAtPrefix("", metadata)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("JSON marshal error: %s", err)
 	}
 
-- 
2.43.0


From 5e8a72a349599c1fe4461251068925d7ec87d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 029/106] fix: loading models leaves the file open

---
 base/serialize.go        | 7 +++++++
 ensemble/multisvc.go     | 2 ++
 ensemble/randomforest.go | 2 ++
 knn/knn.go               | 2 ++
 naive/bernoulli_nb.go    | 2 ++
 trees/id3.go             | 4 ++++
 trees/random.go          | 2 ++
 7 files changed, 21 insertions(+)

diff --git a/base/serialize.go b/base/serialize.go
index 5444160..e13488b 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -122,6 +122,12 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	if err != nil {
 		return nil, DescribeError("Can't open file", err)
 	}
+	opened := false
+	defer func() {
+		if !opened {
+			f.Close()
+		}
+	}()
 
 	gzr, err := gzip.NewReader(f)
 	if err != nil {
@@ -169,6 +175,7 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 		return nil, fmt.Errorf("METADATA: wrong format_version for this version of golearn")
 	}
 
+	opened = true
 	return ret, nil
 }
 
diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 3488de6..7193562 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -144,6 +144,8 @@ func (m *MultiLinearSVC) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	err = m.LoadWithPrefix(reader, "")
 	if err != nil {
 		return err
diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 3aa292e..9b7918b 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -93,6 +93,8 @@ func (f *RandomForest) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
+
 	return f.LoadWithPrefix(reader, "model")
 }
 
diff --git a/knn/knn.go b/knn/knn.go
index 01d5276..c9819e6 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -375,6 +375,8 @@ func (KNN *KNNClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return KNN.LoadWithPrefix(reader, "")
 }
 
diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 2e8e9ff..6f0b085 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -87,6 +87,8 @@ func (nb *BernoulliNBClassifier) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return nb.LoadWithPrefix(reader, "")
 }
 
diff --git a/trees/id3.go b/trees/id3.go
index 00b7f05..a08438a 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -160,6 +160,8 @@ func (d *DecisionTreeNode) Load(filePath string) error {
 		return err
 	}
 
+	defer reader.Close()
+
 	return d.LoadWithPrefix(reader, "")
 }
 
@@ -586,6 +588,8 @@ func (t *ID3DecisionTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
+
 	return t.LoadWithPrefix(reader, "")
 }
 
diff --git a/trees/random.go b/trees/random.go
index b2425ff..241400e 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -113,6 +113,8 @@ func (rt *RandomTree) Load(filePath string) error {
 	if err != nil {
 		return err
 	}
+	defer reader.Close()
+
 	return rt.LoadWithPrefix(reader, "")
 }
 
-- 
2.43.0


From caf042e84e6d8caa357f4d7d104ba9ed0554ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 030/106] fix: damaged datasets and models are read without
 complaint

---
 base/serialize.go           | 32 ++++++++++++++++++++++++++++----
 base/serialize_instances.go | 11 +++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index e13488b..8c35751 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -22,6 +22,27 @@ type FunctionalTarReader struct {
 	Regenerate func() *tar.Reader
 }
 
+// errorReader reports the same error for every read.
+type errorReader struct {
+	err error
+}
+
+func (e errorReader) Read(p []byte) (int, error) {
+	return 0, e.err
+}
+
+// rewindTarReader goes back to the beginning of a compressed tar file. If that isn't
+// possible, the tar.Reader returned reports the error.
+func rewindTarReader(f io.ReadSeeker, gzr *gzip.Reader) *tar.Reader {
+	if _, err := f.Seek(0, os.SEEK_SET); err != nil {
+		return tar.NewReader(errorReader{err})
+	}
+	if err := gzr.Reset(f); err != nil {
+		return tar.NewReader(errorReader{err})
+	}
+	return tar.NewReader(gzr)
+}
+
 // NewFunctionalTarReader creates a new FunctionalTarReader using a function that it can call
 // to get a tar.Reader at the beginning of the file.
 func NewFunctionalTarReader(regenFunc func() *tar.Reader) *FunctionalTarReader {
@@ -134,11 +155,14 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 		return nil, DescribeError("Can't decompress", err)
 	}
 
+	// The checksum only comes at the end of the file, check it before
+	// relying on anything else
+	if _, err := io.Copy(ioutil.Discard, gzr); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
+
 	regenerateFunc := func() *tar.Reader {
-		f.Seek(0, os.SEEK_SET)
-		gzr.Reset(f)
-		tz := tar.NewReader(gzr)
-		return tz
+		return rewindTarReader(f, gzr)
 	}
 
 	tz := NewFunctionalTarReader(regenerateFunc)
diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index e282329..d9cbf6e 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -6,6 +6,7 @@ import (
 	"encoding/csv"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"reflect"
 	"runtime"
@@ -200,11 +201,13 @@ func DeserializeInstances(f io.ReadSeeker) (ret *DenseInstances, err error) {
 	if err != nil {
 		panic(WrapError(err))
 	}
+	// The checksum only comes at the end of the stream, check it before
+	// relying on anything else
+	if _, err := io.Copy(ioutil.Discard, gzReader); err != nil {
+		return nil, DescribeError("Can't decompress", err)
+	}
 	regenerateTarReader := func() *tar.Reader {
-		f.Seek(0, os.SEEK_SET)
-		gzReader.Reset(f)
-		tr := tar.NewReader(gzReader)
-		return tr
+		return rewindTarReader(f, gzReader)
 	}
 
 	tr := NewFunctionalTarReader(regenerateTarReader)
-- 
2.43.0


From 459bc5f8b27632bb6cc10212ebdac630ca110045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 031/106] fix: LinearSVC ignores write errors and leaves
 temporary files behind

---
 linear_models/linearsvc.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 1ecca3b..9f3742f 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -266,6 +266,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
 	err = Export(lr.model, f.Name())
@@ -273,7 +274,6 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 		return base.DescribeError("Error exporting model", err)
 	}
 
-	f.Seek(0, os.SEEK_SET)
 	bytes, err := ioutil.ReadAll(f)
 	if err != nil {
 		return base.DescribeError("Error reading model in again", err)
@@ -283,7 +283,7 @@ func (lr *LinearSVC) SaveWithPrefix(writer *base.ClassifierSerializer, prefix st
 	if err != nil {
 		return base.DescribeError("Error writing model parameters", err)
 	}
-	writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
+	err = writer.WriteBytesForKey(writer.Prefix(prefix, "MODEL"), bytes)
 	if err != nil {
 		return base.DescribeError("Error writing model", err)
 	}
@@ -315,11 +315,17 @@ func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 	}
 
 	f, err := ioutil.TempFile(os.TempDir(), "linear")
+	if err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 	defer func() {
 		f.Close()
+		os.Remove(f.Name())
 	}()
 
-	f.WriteAt(modelBytes, 0)
+	if _, err = f.WriteAt(modelBytes, 0); err != nil {
+		return base.DescribeError("Unable to reload the model", err)
+	}
 
 	lr.model = &Model{}
 
-- 
2.43.0


From a1f819ff23f6ffe4b11752567b671704a058a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 032/106] fix: BernoulliNB can't train if a class has no
 features present

---
 naive/bernoulli_nb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 6f0b085..a5f13d1 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -252,11 +252,14 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	})
 
 	// Pre-calculate conditional probabilities for each class
+	nb.condProb = make(map[string][]float64)
 	for c, _ := range nb.classInstances {
 		nb.condProb[c] = make([]float64, nb.features)
 		for feat := 0; feat < nb.features; feat++ {
-			classTerms, _ := docsContainingTerm[c]
-			numDocs := classTerms[feat]
+			numDocs := 0
+			if classTerms, ok := docsContainingTerm[c]; ok {
+				numDocs = classTerms[feat]
+			}
 			docsInClass, _ := nb.classInstances[c]
 
 			classCondProb, _ := nb.condProb[c]
-- 
2.43.0


From 09ecf2acb4d9f6034cbf28fc4d42e067fece3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 033/106] fix: BernoulliNB resolves draws differently from run
 to run

---
 naive/bernoulli_nb.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index a5f13d1..8f48417 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 // A Bernoulli Naive Bayes Classifier. Naive Bayes classifiers assumes
@@ -294,7 +295,16 @@ func (nb *BernoulliNBClassifier) PredictOne(vector [][]byte) string {
 	bestScore := -math.MaxFloat64
 	bestClass := ""
 
-	for class, classCount := range nb.classInstances {
+	// Consider the classes in a fixed order, so that a draw always has the
+	// same outcome
+	classes := make([]string, 0, len(nb.classInstances))
+	for class := range nb.classInstances {
+		classes = append(classes, class)
+	}
+	sort.Strings(classes)
+
+	for _, class := range classes {
+		classCount := nb.classInstances[class]
 		// Init classScore with log(prior)
 		classScore := math.Log((float64(classCount)) / float64(nb.trainingInstances))
 		for f := 0; f < nb.features; f++ {
-- 
2.43.0


From 502e2b8660120dbffc7ad8333255c3526172ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 034/106] fix: BernoulliNB ignores errors from the dataset

---
 naive/bernoulli_nb.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 8f48417..1938e09 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -223,7 +223,7 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 	// This algorithm could be vectorized after binarizing the data
 	// matrix. Since mat doesn't have this function, a iterative
 	// version is used.
-	X.MapOverRows(featAttrSpecs, func(docVector [][]byte, r int) (bool, error) {
+	err := X.MapOverRows(featAttrSpecs, func(docVector [][]byte, r int) (bool, error) {
 		class := base.GetClass(X, r)
 
 		// increment number of instances in class
@@ -251,6 +251,9 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	// Pre-calculate conditional probabilities for each class
 	nb.condProb = make(map[string][]float64)
@@ -342,10 +345,13 @@ func (nb *BernoulliNBClassifier) Predict(what base.FixedDataGrid) (base.FixedDat
 	// Get the features
 	featAttrSpecs := base.ResolveAttributes(what, nb.attrs)
 
-	what.MapOverRows(featAttrSpecs, func(row [][]byte, i int) (bool, error) {
+	err := what.MapOverRows(featAttrSpecs, func(row [][]byte, i int) (bool, error) {
 		base.SetClass(ret, i, nb.PredictOne(row))
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From 04f15e10348f6b4a0664f37c8d4a43b3db6c09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 035/106] fix: KNN resolves draws differently from run to run

---
 knn/knn.go               | 10 ++++++----
 knn/knn_opt_euclidean.go |  8 +++++++-
 utilities/utilities.go   |  7 ++++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index c9819e6..76be05e 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -285,10 +285,11 @@ func (KNN *KNNClassifier) vote(maxmap map[string]int, values []int) string {
 		}
 	}
 
-	// Sort the maxMap
+	// Find the most popular class, nearest first in the event of a tie
 	var maxClass string
 	maxVal := -1
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
@@ -313,10 +314,11 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 		}
 	}
 
-	// Sort the maxMap
+	// Find the most popular class, nearest first in the event of a tie
 	var maxClass string
 	maxVal := -1.0
-	for a := range maxmap {
+	for _, elem := range values {
+		a := base.GetClass(KNN.TrainingData, elem)
 		if maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
diff --git a/knn/knn_opt_euclidean.go b/knn/knn_opt_euclidean.go
index a6b159c..4fb6cce 100644
--- a/knn/knn_opt_euclidean.go
+++ b/knn/knn_opt_euclidean.go
@@ -15,7 +15,13 @@ type distanceRecs []C.struct_dist
 
 func (d distanceRecs) Len() int           { return len(d) }
 func (d distanceRecs) Swap(i, j int)      { d[i], d[j] = d[j], d[i] }
-func (d distanceRecs) Less(i, j int) bool { return d[i].dist < d[j].dist }
+func (d distanceRecs) Less(i, j int) bool {
+	if d[i].dist == d[j].dist {
+		// Always put equal distances in the same order
+		return d[i].p < d[j].p
+	}
+	return d[i].dist < d[j].dist
+}
 
 func (KNN *KNNClassifier) optimisedEuclideanPredict(d *base.DenseInstances) base.FixedDataGrid {
 
diff --git a/utilities/utilities.go b/utilities/utilities.go
index d2a9c35..f16943e 100644
--- a/utilities/utilities.go
+++ b/utilities/utilities.go
@@ -17,7 +17,12 @@ func (sm *sortedIntMap) Len() int {
 }
 
 func (sm *sortedIntMap) Less(i, j int) bool {
-	return sm.m[sm.s[i]] < sm.m[sm.s[j]]
+	vi, vj := sm.m[sm.s[i]], sm.m[sm.s[j]]
+	if vi == vj {
+		// Always put equal values in the same order
+		return sm.s[i] < sm.s[j]
+	}
+	return vi < vj
 }
 
 func (sm *sortedIntMap) Swap(i, j int) {
-- 
2.43.0


From 561fb428f9e8008bf8c7f6567a11684e9c9387e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 036/106] fix: KNN ignores errors from the dataset and from the
 kd-tree search

---
 knn/knn.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index 76be05e..39999a0 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -174,7 +174,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	srcRowNoMap := make([]int, 0)
 	if KNN.Algorithm == "kdtree" {
 		buildData := make([][]float64, 0)
-		KNN.TrainingData.MapOverRows(trainAttrSpecs, func(trainRow [][]byte, srcRowNo int) (bool, error) {
+		err := KNN.TrainingData.MapOverRows(trainAttrSpecs, func(trainRow [][]byte, srcRowNo int) (bool, error) {
 			oneData := make([]float64, len(allNumericAttrs))
 			// Read the float values out
 			for i, _ := range allNumericAttrs {
@@ -185,14 +185,18 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 			return true, nil
 		})
 
-		err := kd.Build(buildData)
+		if err != nil {
+			return nil, err
+		}
+
+		err = kd.Build(buildData)
 		if err != nil {
 			return nil, err
 		}
 	}
 
 	// Iterate over all outer rows
-	what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
+	err := what.MapOverRows(whatAttrSpecs, func(predRow [][]byte, predRowNo int) (bool, error) {
 
 		if (curRow%1) == 0 && curRow > 0 {
 			fmt.Printf("KNN: %.2f %% done\r", float64(curRow)*100.0/float64(maxRow))
@@ -209,7 +213,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		switch KNN.Algorithm {
 		case "linear":
 			// Find the closest match in the training data
-			KNN.TrainingData.MapOverRows(trainAttrSpecs, func(trainRow [][]byte, srcRowNo int) (bool, error) {
+			err := KNN.TrainingData.MapOverRows(trainAttrSpecs, func(trainRow [][]byte, srcRowNo int) (bool, error) {
 				// Read the float values out
 				for i, _ := range allNumericAttrs {
 					trainRowBuf[i] = base.UnpackBytesToFloat(trainRow[i])
@@ -220,6 +224,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				distances[srcRowNo] = distanceFunc.Distance(predMat, trainMat)
 				return true, nil
 			})
+			if err != nil {
+				return false, err
+			}
 
 			sorted := utilities.SortIntMap(distances)
 			values := sorted[:KNN.NearestNeighbours]
@@ -261,6 +268,9 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return true, nil
 
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
-- 
2.43.0


From fd91c91bdef1f4a7693b99f52f1b09d61a7abe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 037/106] fix: KNN panics if there are fewer training rows than
 neighbours

---
 knn/knn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knn/knn.go b/knn/knn.go
index 39999a0..aa67fa0 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -125,6 +125,12 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		return nil, errors.New("attributes not compatible")
 	}
 
+	// Need enough neighbours
+	_, trainRows := KNN.TrainingData.Size()
+	if KNN.NearestNeighbours > trainRows {
+		return nil, errors.New("not enough training data for this many neighbours")
+	}
+
 	// Use optimised version if permitted
 	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
 		if KNN.DistanceFunc == "euclidean" {
-- 
2.43.0


From f2ae0988e49358f5f27af990c9adbee03ec16748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 038/106] fix: kd-tree search returns rows which aren't there

---
 kdtree/kdtree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kdtree/kdtree.go b/kdtree/kdtree.go
index 6bddbe8..bcf0308 100644
--- a/kdtree/kdtree.go
+++ b/kdtree/kdtree.go
@@ -192,6 +192,11 @@ func (t *Tree) searchHandle(k int, disType pairwise.PairwiseDistanceFunc, target
 }
 
 func (t *Tree) searchAllNodes(k int, disType pairwise.PairwiseDistanceFunc, target []float64, h *heap, n *node) {
+	if n.feature == -2 {
+		// There's nothing here
+		return
+	}
+
 	vectorX := mat.NewDense(len(target), 1, target)
 	vectorY := mat.NewDense(len(target), 1, n.value)
 	length := disType.Distance(vectorX, vectorY)
-- 
2.43.0


From 283880a0c9e33cca4039c4afa7d6256a018027d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 039/106] fix: decision trees are built and used differently
 from run to run

---
 trees/entropy.go | 20 ++++++++++++++++++--
 trees/gini.go    |  7 +++++++
 trees/id3.go     | 42 +++++++++++++++++++++---------------------
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index faa6613..2c3985a 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -195,12 +195,18 @@ func getSplitEntropy(s map[string]map[string]int) float64 {
 			count += s[a][c]
 		}
 	}
+	// Sum in a fixed order: the rounding error depends on it
+	splits := make([]string, 0, len(s))
 	for a := range s {
+		splits = append(splits, a)
+	}
+	sort.Strings(splits)
+	for _, a := range splits {
 		total := 0.0
 		for c := range s[a] {
 			total += float64(s[a][c])
 		}
-		for c := range s[a] {
+		for _, c := range sortedClasses(s[a]) {
 			ret -= float64(s[a][c]) / float64(count) * math.Log(float64(s[a][c])/float64(count)) / math.Log(2)
 		}
 		ret += total / float64(count) * math.Log(total/float64(count)) / math.Log(2)
@@ -208,6 +214,16 @@ func getSplitEntropy(s map[string]map[string]int) float64 {
 	return ret
 }
 
+// sortedClasses returns the classes of a distribution in a fixed order
+func sortedClasses(s map[string]int) []string {
+	ret := make([]string, 0, len(s))
+	for c := range s {
+		ret = append(ret, c)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 // getBaseEntropy determines the entropy of the target
 // class distribution before splitting on an base.Attribute
 func getBaseEntropy(s map[string]int) float64 {
@@ -216,7 +232,7 @@ func getBaseEntropy(s map[string]int) float64 {
 	for k := range s {
 		count += s[k]
 	}
-	for k := range s {
+	for _, k := range sortedClasses(s) {
 		ret -= float64(s[k]) / float64(count) * math.Log(float64(s[k])/float64(count)) / math.Log(2)
 	}
 	return ret
diff --git a/trees/gini.go b/trees/gini.go
index 23b1569..0c1e4a8 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -3,6 +3,7 @@ package trees
 import (
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 //
@@ -100,7 +101,13 @@ func computeAverageGiniIndex(s map[string]map[string]int) float64 {
 	}
 
 	sum := 0.0
+	// Sum in a fixed order: the rounding error depends on it
+	splits := make([]string, 0, len(s))
 	for i := range s {
+		splits = append(splits, i)
+	}
+	sort.Strings(splits)
+	for _, i := range splits {
 		subtotal := 0.0
 		for j := range s[i] {
 			subtotal += float64(s[i][j])
diff --git a/trees/id3.go b/trees/id3.go
index a08438a..d81b109 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -215,7 +215,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	// Only have the class attribute
 	maxVal := 0
 	maxClass := ""
-	for i := range classes {
+	for _, i := range sortedClasses(classes) {
 		if classes[i] > maxVal {
 			maxClass = i
 			maxVal = classes[i]
@@ -354,6 +354,21 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 }
 
+// closestChild chooses a child for a value which wasn't there during training:
+// the next one in alphabetical order, or the last one.
+func (d *DecisionTreeNode) closestChild(val string) *DecisionTreeNode {
+	keys := make([]string, 0, len(d.Children))
+	for c := range d.Children {
+		keys = append(keys, c)
+	}
+	sort.Strings(keys)
+	best := sort.SearchStrings(keys, val)
+	if best == len(keys) {
+		best--
+	}
+	return d.Children[keys[best]]
+}
+
 // Predict outputs a base.Instances containing predictions from this tree
 func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid, error) {
 	predictions := base.GeneratePredictionVector(what)
@@ -396,15 +411,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.closestChild(classVar)
 				}
 			}
 		}
@@ -450,11 +457,12 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				for _, dist := range cur.ClassDist {
 					totalDist += dist
 				}
-				for class, dist := range cur.ClassDist {
+				for _, class := range sortedClasses(cur.ClassDist) {
+					dist := cur.ClassDist[class]
 					classProba := ClassProba{ClassValue: class, Probability: float64(float64(dist) / float64(totalDist))}
 					results = append(results, classProba)
 				}
-				sort.Sort(results)
+				sort.Stable(results)
 				break
 			} else {
 				splitVal := cur.SplitRule.SplitVal
@@ -482,15 +490,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 				if next, ok := cur.Children[classVar]; ok {
 					cur = next
 				} else {
-					// Suspicious of this
-					var bestChild string
-					for c := range cur.Children {
-						bestChild = c
-						if c > classVar {
-							break
-						}
-					}
-					cur = cur.Children[bestChild]
+					cur = cur.closestChild(classVar)
 				}
 			}
 		}
-- 
2.43.0


From 3033cf1f16cb8b497a03b82ad004e9819831003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 040/106] fix: random trees never stop looking for more
 Attributes than there are

---
 trees/random.go | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/trees/random.go b/trees/random.go
index 241400e..a142bbb 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -22,25 +22,15 @@ func (r *RandomTreeRuleGenerator) GenerateSplitRule(f base.FixedDataGrid) *Decis
 	allAttributes := base.AttributeDifferenceReferences(f.AllAttributes(), f.AllClassAttributes())
 	maximumAttribute := len(allAttributes)
 
-	attrCounter := 0
-	for {
-		if len(consideredAttributes) >= r.Attributes {
-			break
-		}
+	// There may be fewer left than asked for
+	selected := make(map[int]bool)
+	for len(consideredAttributes) < r.Attributes && len(consideredAttributes) < maximumAttribute {
 		selectedAttrIndex := rand.Intn(maximumAttribute)
-		selectedAttribute := allAttributes[selectedAttrIndex]
-		matched := false
-		for _, a := range consideredAttributes {
-			if a.Equals(selectedAttribute) {
-				matched = true
-				break
-			}
-		}
-		if matched {
+		if selected[selectedAttrIndex] {
 			continue
 		}
-		consideredAttributes = append(consideredAttributes, selectedAttribute)
-		attrCounter++
+		selected[selectedAttrIndex] = true
+		consideredAttributes = append(consideredAttributes, allAttributes[selectedAttrIndex])
 	}
 
 	return r.internalRule.GetSplitRuleFromSelection(consideredAttributes, f)
-- 
2.43.0


From 67dcd5c6481b7494e68c448f4eb701f984210acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 041/106] fix: MultiLinearSVC sums class weights differently
 from run to run

---
 ensemble/multisvc.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 7193562..0e57416 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sjwhitworth/golearn/meta"
 
 	"fmt"
+	"sort"
 )
 
 // MultiLinearSVC implements a multi-class Support Vector Classifier using a one-vs-all
@@ -47,7 +48,13 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 		newParams := m.parameters.Copy()
 		if m.weights != nil {
 			weightVec = make([]float64, 2)
+			// Sum in a fixed order: the rounding error depends on it
+			classes := make([]string, 0, len(m.weights))
 			for i := range m.weights {
+				classes = append(classes, i)
+			}
+			sort.Strings(classes)
+			for _, i := range classes {
 				if i != cls {
 					weightVec[0] += m.weights[i]
 				} else {
-- 
2.43.0


From 3f073b7af4e7212c9fb78d7776cf09895d7fa315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 042/106] fix: BaggedModel and RandomForest ignore members
 which can't be trained

---
 ensemble/randomforest.go |  3 +--
 meta/bagging.go          | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index 9b7918b..f355e6e 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -48,8 +48,7 @@ func (f *RandomForest) Fit(on base.FixedDataGrid) error {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
-	f.Model.Fit(on)
-	return nil
+	return f.Model.Fit(on)
 }
 
 // Predict generates predictions from a trained RandomForest.
diff --git a/meta/bagging.go b/meta/bagging.go
index 3c39e93..195ac34 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -80,19 +80,26 @@ func (b *BaggedModel) AddModel(m base.Classifier) {
 
 // Fit generates and trains each model on a randomised subset of
 // Instances.
-func (b *BaggedModel) Fit(from base.FixedDataGrid) {
+func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
 	var wait sync.WaitGroup
 	b.selectedAttributes = make(map[int][]base.Attribute)
+	errs := make([]error, len(b.Models))
 	for i, m := range b.Models {
 		wait.Add(1)
 		go func(c base.Classifier, f base.FixedDataGrid, model int) {
+			defer wait.Done()
 			l := b.generateTrainingInstances(model, f)
-			c.Fit(l)
-			wait.Done()
+			errs[model] = c.Fit(l)
 		}(m, from, i)
 	}
 	wait.Wait()
+	for i, err := range errs {
+		if err != nil {
+			return base.FormatError(err, "Can't train classifier %d", i)
+		}
+	}
 	b.fitOn = base.NewStructuralCopy(from)
+	return nil
 }
 
 // Predict gathers predictions from all the classifiers
@@ -224,13 +231,15 @@ func (b *BaggedModel) Load(filePath string) error {
 	return err
 }
 
-/* type BaggedModel struct {
-	base.BaseClassifier
-	Models             []base.Classifier
-	RandomFeatures     int
-	lock               sync.Mutex
-	selectedAttributes map[int][]base.Attribute, always RandomFeatures in length
-}*/
+/*
+	 type BaggedModel struct {
+		base.BaseClassifier
+		Models             []base.Classifier
+		RandomFeatures     int
+		lock               sync.Mutex
+		selectedAttributes map[int][]base.Attribute, always RandomFeatures in length
+	}
+*/
 func (b *BaggedModel) SaveWithPrefix(writer *base.ClassifierSerializer, prefix string) error {
 	b.lock.Lock()
 	defer b.lock.Unlock()
-- 
2.43.0


From b34246db5bfa97ab27f3c85f7879a55a70935908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 043/106] fix: BaggedModel ignores members which can't predict,
 draws depend on scheduling

---
 meta/bagging.go | 61 ++++++++++++++++++-------------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index 195ac34..2baae2f 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -109,35 +109,9 @@ func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
 // achieved the tie value is output.
 func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, error) {
 	n := runtime.NumCPU()
-	// Channel to receive the results as they come in
-	votes := make(chan base.DataGrid, n)
-	// Count the votes for each class
-	voting := make(map[int](map[string]int))
-
-	// Create a goroutine to collect the votes
-	var votingwait sync.WaitGroup
-	votingwait.Add(1)
-	go func() {
-		for { // Need to resolve the voting problem
-			incoming, ok := <-votes
-			if ok {
-				cSpecs := base.ResolveAttributes(incoming, incoming.AllClassAttributes())
-				incoming.MapOverRows(cSpecs, func(row [][]byte, predRow int) (bool, error) {
-					// Check if we've seen this class before...
-					if _, ok := voting[predRow]; !ok {
-						// If we haven't, create an entry
-						voting[predRow] = make(map[string]int)
-						// Continue on the current row
-					}
-					voting[predRow][base.GetClass(incoming, predRow)]++
-					return true, nil
-				})
-			} else {
-				votingwait.Done()
-				break
-			}
-		}
-	}()
+	// What each of the models says
+	votes := make([]base.FixedDataGrid, len(b.Models))
+	errs := make([]error, len(b.Models))
 
 	// Create workers to process the predictions
 	processpipe := make(chan int, n)
@@ -149,8 +123,7 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 				if i, ok := <-processpipe; ok {
 					c := b.Models[i]
 					l := b.generatePredictionInstances(i, from)
-					v, _ := c.Predict(l)
-					votes <- v
+					votes[i], errs[i] = c.Predict(l)
 				} else {
 					processwait.Done()
 					break
@@ -165,20 +138,30 @@ func (b *BaggedModel) Predict(from base.FixedDataGrid) (base.FixedDataGrid, erro
 	}
 	close(processpipe) // Finished sending models to be predicted
 	processwait.Wait() // Predictors all finished processing
-	close(votes)       // Close the vote channel and allow it to drain
-	votingwait.Wait()  // All the votes are in
+	for i, err := range errs {
+		if err != nil {
+			return nil, base.FormatError(err, "Can't predict with classifier %d", i)
+		}
+	}
 
 	// Generate the overall consensus
 	ret := base.GeneratePredictionVector(from)
-	for i := range voting {
+	if len(b.Models) == 0 {
+		return ret, nil
+	}
+	_, rows := from.Size()
+	for i := 0; i < rows; i++ {
 		maxClass := ""
 		maxCount := 0
-		// Find the most popular class
-		for c := range voting[i] {
-			votes := voting[i][c]
-			if votes > maxCount {
+		// Count the votes for each class, in the order of the models
+		voting := make(map[string]int)
+		for _, v := range votes {
+			c := base.GetClass(v, i)
+			voting[c]++
+			// Find the most popular class
+			if voting[c] > maxCount {
 				maxClass = c
-				maxCount = votes
+				maxCount = voting[c]
 			}
 		}
 		base.SetClass(ret, i, maxClass)
-- 
2.43.0


From c39f131dc34d1840cc3564cf245f417f2dc4ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 044/106] fix: BaggedModel never stops looking for more
 features than there are

---
 meta/bagging.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/meta/bagging.go b/meta/bagging.go
index 2baae2f..80f3ec6 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -21,28 +21,19 @@ type BaggedModel struct {
 }
 
 // generateTrainingAttrs selects RandomFeatures number of base.Attributes from
-// the provided base.Instances.
+// the provided base.Instances. (There have to be that many.)
 func (b *BaggedModel) generateTrainingAttrs(model int, from base.FixedDataGrid) []base.Attribute {
 	ret := make([]base.Attribute, 0)
 	attrs := base.NonClassAttributes(from)
 	if b.RandomFeatures == 0 {
 		ret = attrs
 	} else {
-		for {
-			if len(ret) >= b.RandomFeatures {
-				break
-			}
+		selected := make(map[int]bool)
+		for len(ret) < b.RandomFeatures {
 			attrIndex := rand.Intn(len(attrs))
-			attr := attrs[attrIndex]
-			matched := false
-			for _, a := range ret {
-				if a.Equals(attr) {
-					matched = true
-					break
-				}
-			}
-			if !matched {
-				ret = append(ret, attr)
+			if !selected[attrIndex] {
+				selected[attrIndex] = true
+				ret = append(ret, attrs[attrIndex])
 			}
 		}
 	}
@@ -81,6 +72,10 @@ func (b *BaggedModel) AddModel(m base.Classifier) {
 // Fit generates and trains each model on a randomised subset of
 // Instances.
 func (b *BaggedModel) Fit(from base.FixedDataGrid) error {
+	if numAttrs := len(base.NonClassAttributes(from)); b.RandomFeatures > numAttrs {
+		return base.WrapError(fmt.Errorf("Can't choose %d features, there are only %d non-class Attributes", b.RandomFeatures, numAttrs))
+	}
+
 	var wait sync.WaitGroup
 	b.selectedAttributes = make(map[int][]base.Attribute)
 	errs := make([]error, len(b.Models))
-- 
2.43.0


From dab316871e8769b000adc5039947140f4f4b5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 045/106] fix: OneVsAllModel and MultiLinearSVC ignore
 classifiers which can't be trained

---
 ensemble/multisvc.go |  3 +--
 meta/one_v_all.go    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index 0e57416..c0281ef 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -76,8 +76,7 @@ func (m *MultiLinearSVC) initializeOneVsAllModel() {
 // Fit builds the MultiLinearSVC by building n (where n is the number of values
 // the singular CategoricalAttribute can take) seperate one-vs-rest models.
 func (m *MultiLinearSVC) Fit(instances base.FixedDataGrid) error {
-	m.m.Fit(instances)
-	return nil
+	return m.m.Fit(instances)
 }
 
 // Predict issues predictions from the MultiLinearSVC. Each underlying LinearSVC is
diff --git a/meta/one_v_all.go b/meta/one_v_all.go
index 9338fb5..ac0f905 100644
--- a/meta/one_v_all.go
+++ b/meta/one_v_all.go
@@ -34,7 +34,7 @@ func NewOneVsAllModel(f func(string) base.Classifier) *OneVsAllModel {
 // Fit creates n filtered datasets (where n is the number of values
 // a CategoricalAttribute can take) and uses them to train the
 // underlying classifiers.
-func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
+func (m *OneVsAllModel) Fit(using base.FixedDataGrid) error {
 	var classAttr *base.CategoricalAttribute
 	// Do some validation
 	classAttrs := using.AllClassAttributes()
@@ -77,7 +77,10 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 		filters[i] = f
 		classifiers[i] = m.NewClassifierFunction(classVals[int(i)])
 		if !fittingToStructure {
-			classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			err := classifiers[i].Fit(base.NewLazilyFilteredInstances(using, f))
+			if err != nil {
+				return base.FormatError(err, "Can't train classifier for class %s", classVals[int(i)])
+			}
 		}
 	}
 
@@ -85,6 +88,7 @@ func (m *OneVsAllModel) Fit(using base.FixedDataGrid) {
 	m.classifiers = classifiers
 	m.fitOn = base.NewStructuralCopy(using)
 	m.classValues = classVals
+	return nil
 }
 
 // Predict issues predictions. Each class-specific classifier is expected
@@ -151,10 +155,10 @@ func (m *OneVsAllModel) LoadWithPrefix(reader *base.ClassifierDeserializer, pref
 	if err != nil {
 		return base.DescribeError("Can't load INSTANCE_STRUCTURE", err)
 	}
-	m.Fit(fitOn)
-	/*if err != nil {
-		base.DescribeError("Could not fit reloaded classifier to the structure", err)
-	}*/
+	err = m.Fit(fitOn)
+	if err != nil {
+		return base.DescribeError("Could not fit reloaded classifier to the structure", err)
+	}
 
 	// Reload the filters
 	numFiltersU64, err := reader.GetU64ForKey(reader.Prefix(prefix, "FILTER_COUNT"))
-- 
2.43.0


From 8145fc2c0d72770d5992c89e7efdc44e977e2094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 046/106] fix: loading a forest or bagged model of a different
 size silently drops members

---
 ensemble/randomforest.go | 14 +++++++++++++-
 meta/bagging.go          |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/ensemble/randomforest.go b/ensemble/randomforest.go
index f355e6e..c715e16 100644
--- a/ensemble/randomforest.go
+++ b/ensemble/randomforest.go
@@ -98,11 +98,23 @@ func (f *RandomForest) Load(filePath string) error {
 }
 
 func (f *RandomForest) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
+	// This forest may have had a different size
+	forestSize, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	f.ForestSize = int(forestSize)
+
 	f.Model = new(meta.BaggedModel)
 	for i := 0; i < f.ForestSize; i++ {
 		tree := trees.NewID3DecisionTree(0.00)
 		f.Model.AddModel(tree)
 	}
 
-	return f.Model.LoadWithPrefix(reader, prefix)
+	err = f.Model.LoadWithPrefix(reader, prefix)
+	if err != nil {
+		return err
+	}
+	f.Features = f.Model.RandomFeatures
+	return nil
 }
diff --git a/meta/bagging.go b/meta/bagging.go
index 80f3ec6..2bce2d1 100644
--- a/meta/bagging.go
+++ b/meta/bagging.go
@@ -295,6 +295,15 @@ func (b *BaggedModel) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix
 
 	b.RandomFeatures = int(randomFeatures)
 
+	// Loading some of the classifiers isn't enough
+	numClassifiers, err := reader.GetU64ForKey(reader.Prefix(prefix, "NUM_CLASSIFIERS"))
+	if err != nil {
+		return base.DescribeError("Can't read NUM_CLASSIFIERS", err)
+	}
+	if len(b.Models) != 0 && numClassifiers != uint64(len(b.Models)) {
+		return base.WrapError(fmt.Errorf("Have %d classifiers, this model has %d", len(b.Models), numClassifiers))
+	}
+
 	// Reload the classifiers
 	for i, m := range b.Models {
 		clsPrefix := fmt.Sprintf("%s/", pI("CLASSIFIERS", i))
-- 
2.43.0


From c0fda63c83467d918554189542d7999e6b1cebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 047/106] fix: optimised KNN ignores the weights

---
 knn/knn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knn/knn.go b/knn/knn.go
index aa67fa0..ca8d706 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -132,7 +132,7 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 
 	// Use optimised version if permitted
-	if KNN.Algorithm == "linear" && KNN.AllowOptimisations {
+	if KNN.Algorithm == "linear" && KNN.AllowOptimisations && !KNN.Weighted {
 		if KNN.DistanceFunc == "euclidean" {
 			if KNN.canUseOptimisations(what) {
 				return KNN.optimisedEuclideanPredict(what.(*base.DenseInstances)), nil
-- 
2.43.0


From 99c300c2eb539e6639d8d2d9a9baaffe594c4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 048/106] fix: trees using the Gini index split constant
 Attributes at +Inf and can't be saved

---
 trees/gini.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trees/gini.go b/trees/gini.go
index 0c1e4a8..ef36056 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -49,7 +49,12 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 		var proposedDist map[string]map[string]int
 		var splitVal float64
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
-			_, splitVal = getNumericAttributeEntropy(f, fAttr)
+			var splitEntropy float64
+			splitEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(splitEntropy, 1) {
+				// All the values are the same, can't split
+				continue
+			}
 			proposedDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
 			proposedDist = base.GetClassDistributionAfterSplit(f, s)
-- 
2.43.0


From 78d36e26c35d1c154e1d167d23e2277fec508b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 049/106] fix: ClassifierDeserializer.Close doesn't close the
 file

---
 base/serialize.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/serialize.go b/base/serialize.go
index 8c35751..84d9450 100644
--- a/base/serialize.go
+++ b/base/serialize.go
@@ -182,10 +182,10 @@ func ReadSerializedClassifierStub(filePath string) (*ClassifierDeserializer, err
 	//
 	var metadata ClassifierMetadataV1
 	ret := &ClassifierDeserializer{
-		f,
-		gzr,
-		tz,
-		&metadata,
+		gzipReader: gzr,
+		fileReader: f,
+		tarReader:  tz,
+		Metadata:   &metadata,
 	}
 
 	metadata, err = ret.ReadMetadataAtPrefix("")
-- 
2.43.0


From 76ea13c71dbdb30c5faf813b1e02cfe74be5ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 050/106] fix: KNN with cosine distance predicts the class ""

---
 knn/knn.go                 | 4 ++--
 metrics/pairwise/cosine.go | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index ca8d706..f4801cf 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -333,9 +333,9 @@ func (KNN *KNNClassifier) weightedVote(maxmap map[string]float64, values []int,
 	// Find the most popular class, nearest first in the event of a tie
 	var maxClass string
 	maxVal := -1.0
-	for _, elem := range values {
+	for k, elem := range values {
 		a := base.GetClass(KNN.TrainingData, elem)
-		if maxmap[a] > maxVal {
+		if k == 0 || maxmap[a] > maxVal {
 			maxVal = maxmap[a]
 			maxClass = a
 		}
diff --git a/metrics/pairwise/cosine.go b/metrics/pairwise/cosine.go
index 08b9ca1..4e5bcfb 100644
--- a/metrics/pairwise/cosine.go
+++ b/metrics/pairwise/cosine.go
@@ -29,6 +29,8 @@ func (c *Cosine) Distance(vectorX *mat.Dense, vectorY *mat.Dense) float64 {
 	lengthY := math.Sqrt(c.Dot(vectorY, vectorY))
 
 	cos := dotXY / (lengthX * lengthY)
+	// Rounding may take parallel vectors out of range
+	cos = math.Max(-1, math.Min(1, cos))
 
 	return 1 - cos
 }
-- 
2.43.0


From 8abbdcc0e02dc250667d95b54045c679ddc8ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 051/106] fix: saved linear models lose the last digit of their
 weights

---
 linear_models/linear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index e435db7..60b501a 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -2621,14 +2621,14 @@ int save_model(const char *model_file_name, const struct model *model_)
 
 	fprintf(fp, "nr_feature %d\n", nr_feature);
 
-	fprintf(fp, "bias %.16g\n", model_->bias);
+	fprintf(fp, "bias %.17g\n", model_->bias);
 
 	fprintf(fp, "w\n");
 	for(i=0; i<w_size; i++)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fprintf(fp, "%.16g ", model_->w[i*nr_w+j]);
+			fprintf(fp, "%.17g ", model_->w[i*nr_w+j]);
 		fprintf(fp, "\n");
 	}
 
-- 
2.43.0


From 814ffbd886bb7ae99c7370f9f70fb047f3ed8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 052/106] fix: random trees with the same seed differ from run
 to run

---
 trees/id3.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trees/id3.go b/trees/id3.go
index d81b109..de24b4f 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -264,7 +264,13 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	}
 	// Create new children from these attributes
 	ret.Children = make(map[string]*DecisionTreeNode)
+	// Always in the same order: the rule generator may draw random numbers
+	values := make([]string, 0, len(splitInstances))
 	for k := range splitInstances {
+		values = append(values, k)
+	}
+	sort.Strings(values)
+	for _, k := range values {
 		newInstances := splitInstances[k]
 		ret.Children[k] = InferID3Tree(newInstances, with)
 	}
-- 
2.43.0


From 0e35fb41e18a1ef5d434717ed04dad305fa8f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 053/106] fix: decision trees trained on no rows panic when
 predicting

---
 trees/id3.go    | 18 ++++++++++++++----
 trees/random.go |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index de24b4f..12476f2 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -3,6 +3,7 @@ package trees
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sort"
 
@@ -222,10 +223,10 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 		}
 	}
 
-	// If there are no more Attributes left to split on,
-	// return a DecisionTreeLeaf with the majority class
-	cols, _ := from.Size()
-	if cols == 2 {
+	// If there are no more Attributes left to split on or nothing to
+	// split, return a DecisionTreeLeaf with the majority class
+	cols, rows := from.Size()
+	if cols == 2 || rows == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
@@ -542,13 +543,22 @@ func NewID3DecisionTreeFromRule(prune float64, rule RuleGenerator) *ID3DecisionT
 	}
 }
 
+// errNoTrainingRows is returned if there's nothing to build a tree from
+var errNoTrainingRows = errors.New("need at least one training row")
+
 // Fit builds the ID3 decision tree
 func (t *ID3DecisionTree) Fit(on base.FixedDataGrid) error {
 	if t.PruneSplit > 0.001 {
 		trainData, testData := base.InstancesTrainTestSplit(on, t.PruneSplit)
+		if _, rows := trainData.Size(); rows == 0 {
+			return errNoTrainingRows
+		}
 		t.Root = InferID3Tree(trainData, t.Rule)
 		t.Root.Prune(testData)
 	} else {
+		if _, rows := on.Size(); rows == 0 {
+			return errNoTrainingRows
+		}
 		t.Root = InferID3Tree(on, t.Rule)
 	}
 	return nil
diff --git a/trees/random.go b/trees/random.go
index a142bbb..6a7eb80 100644
--- a/trees/random.go
+++ b/trees/random.go
@@ -59,6 +59,9 @@ func NewRandomTree(attrs int) *RandomTree {
 
 // Fit builds a RandomTree suitable for prediction
 func (rt *RandomTree) Fit(from base.FixedDataGrid) error {
+	if _, rows := from.Size(); rows == 0 {
+		return errNoTrainingRows
+	}
 	rt.Root = InferID3Tree(from, rt.Rule)
 	return nil
 }
-- 
2.43.0


From 290ec5a058c7fc53774c93f7f47e070b4a1adab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 054/106] fix: AveragePerceptron stores every negative
 prediction in the second row

---
 perceptron/average.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index b4d0249..0c8e554 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -132,7 +132,7 @@ func (p *AveragePerceptron) Predict(what base.FixedDataGrid) base.FixedDataGrid
 		if result > 0.0 {
 			ret.Set(classSpec, i, base.PackU64ToBytes(1))
 		} else {
-			ret.Set(classSpec, 1, []byte{0, 0, 0, 0, 0, 0, 0, 0})
+			ret.Set(classSpec, i, base.PackU64ToBytes(0))
 		}
 	}
 
-- 
2.43.0


From d798f03a2656b8aa3127b496e18ee24c137952fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 055/106] fix: MultiLayerNet can only predict the dataset it
 was trained on

---
 neural/layered.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c1daee9..b016b8d 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -64,6 +64,20 @@ func (m *MultiLayerNet) convertToFloatInsts(X base.FixedDataGrid) base.FixedData
 	return insts
 }
 
+// attrIndex returns the position of an Attribute of the training data, or of
+// an equal one, in the network.
+func (m *MultiLayerNet) attrIndex(a base.Attribute) int {
+	if i, ok := m.attrs[a]; ok {
+		return i
+	}
+	for b, i := range m.attrs {
+		if b.Equals(a) {
+			return i
+		}
+	}
+	panic("Can't resolve the Attribute!")
+}
+
 // Predict uses the underlying network to produce predictions for the
 // class variables of X.
 //
@@ -121,11 +135,8 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		// Build the activation vector
 		for i, vb := range row {
-			if cIndex, ok := m.attrs[inputAs[i].GetAttribute()]; !ok {
-				panic("Can't resolve the Attribute!")
-			} else {
-				a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
-			}
+			cIndex := m.attrIndex(inputAs[i].GetAttribute())
+			a.Set(cIndex, 0, base.UnpackBytesToFloat(vb))
 		}
 		// Robots, activate!
 		m.network.Activate(a, layers)
@@ -133,7 +144,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		// Decide which class to set
 		if floatMode > 0 {
 			for _, as := range outputAs {
-				cIndex := m.attrs[as.GetAttribute()]
+				cIndex := m.attrIndex(as.GetAttribute())
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-- 
2.43.0


From f344af72c80d4914f7e61cd2172c8e5719c04fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 056/106] fix: ExpectationMaximization panics if a component
 has no rows or a singular covariance

---
 clustering/em.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/clustering/em.go b/clustering/em.go
index 70894df..6e7590f 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -14,6 +14,8 @@ var (
 	NoTrainingDataError         = errors.New("You need to Fit() before you can Predict()")
 	InsufficientComponentsError = errors.New("Estimation requires at least one component")
 	InsufficientDataError       = errors.New("Estimation requires n_obs >= n_comps")
+	NoFeaturesError             = errors.New("Estimation requires at least one feature")
+	SingularCovarianceError     = errors.New("A component's covariance matrix is singular")
 )
 
 type ExpectationMaximization struct {
@@ -50,6 +52,9 @@ func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 	if n_obs < em.n_comps {
 		return InsufficientDataError
 	}
+	if n_feats == 0 {
+		return NoFeaturesError
+	}
 
 	// Build the input matrix
 	X := mat.NewDense(n_obs, n_feats, nil)
@@ -73,12 +78,20 @@ func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 		if dist < em.eps {
 			break
 		}
-		y_new := expectation(X, p, em.n_comps)
+		y_new, err := expectation(X, p, em.n_comps)
+		if err != nil {
+			return err
+		}
 		p_new := maximization(X, y_new, p, em.n_comps)
 		dist = distance(p, p_new)
 		p = p_new
 	}
 
+	// The result has to be usable, too
+	if _, err := expectation(X, p, em.n_comps); err != nil {
+		return err
+	}
+
 	em.fitted = true
 	em.attrs = attrs
 	em.Params = p
@@ -94,6 +107,10 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 	_, n_obs := inst.Size()
 	n_feats := len(em.attrs)
 
+	if n_obs == 0 {
+		return ClusterMap{}, nil
+	}
+
 	// Numeric attrs
 	attrSpecs := base.ResolveAttributes(inst, em.attrs)
 
@@ -107,7 +124,10 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 	})
 
 	// Vector of predictions
-	preds := estimateLogProb(X, em.Params, em.n_comps)
+	preds, err := estimateLogProb(X, em.Params, em.n_comps)
+	if err != nil {
+		return nil, err
+	}
 
 	clusterMap := make(map[int][]int)
 	for ix, pred := range vecToInts(preds) {
@@ -119,9 +139,8 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 
 // EM-specific functions
 // Expectation step
-func expectation(X *mat.Dense, p Params, n_comps int) mat.Vector {
-	y_new := estimateLogProb(X, p, n_comps)
-	return y_new
+func expectation(X *mat.Dense, p Params, n_comps int) (mat.Vector, error) {
+	return estimateLogProb(X, p, n_comps)
 }
 
 // Maximization step
@@ -157,7 +176,7 @@ func maximization(X *mat.Dense, y mat.Vector, p Params, n_comps int) Params {
 }
 
 // Creates mat.Vector of most likely component for each observation
-func estimateLogProb(X *mat.Dense, p Params, n_comps int) mat.Vector {
+func estimateLogProb(X *mat.Dense, p Params, n_comps int) (mat.Vector, error) {
 	n_obs, n_feats := X.Dims()
 
 	// Cache the component Gaussians
@@ -167,7 +186,7 @@ func estimateLogProb(X *mat.Dense, p Params, n_comps int) mat.Vector {
 		means := mat.Row(dst, k, p.Means)
 		dist, ok := distmv.NewNormal(means, p.Covs[k], nil)
 		if !ok {
-			panic("Cannot create Normal!")
+			return nil, SingularCovarianceError
 		}
 		N[k] = dist
 	}
@@ -188,7 +207,7 @@ func estimateLogProb(X *mat.Dense, p Params, n_comps int) mat.Vector {
 		y_new.SetVec(i, float64(max_ix))
 	}
 
-	return y_new
+	return y_new, nil
 }
 
 // Returns a symmetric matrix with variance on the diagonal
@@ -313,6 +332,9 @@ func where(X *mat.Dense, y mat.Vector, target int) *mat.Dense {
 			rows++
 		}
 	}
+	if rows == 0 {
+		return &mat.Dense{}
+	}
 	X_i := mat.NewDense(rows, n_feats, result)
 	return X_i
 }
-- 
2.43.0


From 7bd270e94fde33b8fbb41784a8458872277dc26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:31 +0000
Subject: [PATCH 057/106] fix: decision trees hide errors of the dataset they
 predict

---
 trees/id3.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trees/id3.go b/trees/id3.go
index 12476f2..aa17fa7 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -386,7 +386,7 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 	}
 	predAttrs := base.AttributeDifferenceReferences(what.AllAttributes(), predictions.AllClassAttributes())
 	predAttrSpecs := base.ResolveAttributes(what, predAttrs)
-	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err = what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
 		for {
 			if cur.Children == nil {
@@ -424,6 +424,9 @@ func (d *DecisionTreeNode) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return predictions, nil
 }
 
@@ -456,7 +459,7 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 		panic("PredictProba supports only 1 row predictions")
 	}
 	var results ClassesProba
-	what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := what.MapOverRows(predAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		cur := d
 		for {
 			if cur.Children == nil {
@@ -503,6 +506,9 @@ func (t *ID3DecisionTree) PredictProba(what base.FixedDataGrid) (ClassesProba, e
 		}
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From d8a9848f481589732b8ed28e4b9518ee61c6b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:31 +0000
Subject: [PATCH 058/106] fix: class counts and decompositions silently miss
 the rows after a failure

---
 base/util_instances.go | 43 +++++++++++++++++-------------------------
 trees/entropy.go       |  7 +++----
 2 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index e320f01..e7aac04 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -134,16 +134,15 @@ func GetClassDistributionByBinaryFloatValue(inst FixedDataGrid) []int {
 
 	// Map through everything
 	specs := ResolveAttributes(inst, attrs)
-	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
-		index := UnpackBytesToFloat(vals[0])
+	_, rows := inst.Size()
+	for row := 0; row < rows; row++ {
+		index := UnpackBytesToFloat(inst.Get(specs[0], row))
 		if index > 0.5 {
 			ret[1]++
 		} else {
 			ret[0]++
 		}
-
-		return true, nil
-	})
+	}
 
 	return ret
 }
@@ -170,11 +169,11 @@ func GetClassDistributionByCategoricalValue(inst FixedDataGrid) []int {
 
 	// Map through everything
 	specs := ResolveAttributes(inst, attrs)
-	inst.MapOverRows(specs, func(vals [][]byte, row int) (bool, error) {
-		index := UnpackBytesToU64(vals[0])
+	_, rows := inst.Size()
+	for row := 0; row < rows; row++ {
+		index := UnpackBytesToU64(inst.Get(specs[0], row))
 		ret[int(index)]++
-		return true, nil
-	})
+	}
 
 	return ret
 }
@@ -287,14 +286,11 @@ func DecomposeOnNumericAttributeThreshold(inst FixedDataGrid, at Attribute, val
 	// Create the return row mapping
 	rowMaps := make(map[string][]int)
 
-	// Build full Attribute set
-	fullAttrSpec := ResolveAttributes(inst, newAttrs)
-	fullAttrSpec = append(fullAttrSpec, attrSpec)
-
 	// Decompose
-	inst.MapOverRows(fullAttrSpec, func(row [][]byte, rowNo int) (bool, error) {
+	_, rows := inst.Size()
+	for rowNo := 0; rowNo < rows; rowNo++ {
 		// Find the output instance set
-		targetBytes := row[len(row)-1]
+		targetBytes := inst.Get(attrSpec, rowNo)
 		targetVal := UnpackBytesToFloat(targetBytes)
 		val := targetVal > val
 		targetSet := "0"
@@ -303,8 +299,7 @@ func DecomposeOnNumericAttributeThreshold(inst FixedDataGrid, at Attribute, val
 		}
 		rowMap := rowMaps[targetSet]
 		rowMaps[targetSet] = append(rowMap, rowNo)
-		return true, nil
-	})
+	}
 
 	for a := range rowMaps {
 		ret[a] = NewInstancesViewFromVisible(inst, rowMaps[a], newAttrs)
@@ -338,23 +333,19 @@ func DecomposeOnAttributeValues(inst FixedDataGrid, at Attribute) map[string]Fix
 	// Create the return row mapping
 	rowMaps := make(map[string][]int)
 
-	// Build full Attribute set
-	fullAttrSpec := ResolveAttributes(inst, newAttrs)
-	fullAttrSpec = append(fullAttrSpec, attrSpec)
-
 	// Decompose
-	inst.MapOverRows(fullAttrSpec, func(row [][]byte, rowNo int) (bool, error) {
+	_, rows := inst.Size()
+	for rowNo := 0; rowNo < rows; rowNo++ {
 		// Find the output instance set
-		targetBytes := row[len(row)-1]
-		targetAttr := fullAttrSpec[len(fullAttrSpec)-1].attr
+		targetBytes := inst.Get(attrSpec, rowNo)
+		targetAttr := attrSpec.attr
 		targetSet := targetAttr.GetStringFromSysVal(targetBytes)
 		if _, ok := rowMaps[targetSet]; !ok {
 			rowMaps[targetSet] = make([]int, 0)
 		}
 		rowMap := rowMaps[targetSet]
 		rowMaps[targetSet] = append(rowMap, rowNo)
-		return true, nil
-	})
+	}
 
 	for a := range rowMaps {
 		ret[a] = NewInstancesViewFromVisible(inst, rowMaps[a], newAttrs)
diff --git a/trees/entropy.go b/trees/entropy.go
index 2c3985a..3c775fe 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -105,7 +105,7 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	refs := make([]numericSplitRef, rows)
 	numClasses := 0
 	class2Int := make(map[string]int)
-	f.MapOverRows([]base.AttributeSpec{attrSpec}, func(val [][]byte, row int) (bool, error) {
+	for row := range refs {
 		cls := base.GetClass(f, row)
 		i, ok := class2Int[cls]
 		if !ok {
@@ -113,10 +113,9 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 			class2Int[cls] = i
 			numClasses++
 		}
-		v := base.UnpackBytesToFloat(val[0])
+		v := base.UnpackBytesToFloat(f.Get(attrSpec, row))
 		refs[row] = numericSplitRef{v, i}
-		return true, nil
-	})
+	}
 
 	sort.Sort(splitVec(refs))
 
-- 
2.43.0


From 2a6fbbcec085e02bfc8c9957ca73be33010bf5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:31 +0000
Subject: [PATCH 059/106] fix: CART trees and isolation forests train on a
 partly read dataset

---
 trees/cart_classifier.go | 21 ++++++++++++++++-----
 trees/cart_regressor.go  | 25 ++++++++++++++++++-------
 trees/cart_utils.go      |  9 ++++++---
 trees/isolation.go       |  5 ++++-
 4 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index daf6a29..7cc8c5e 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -171,9 +171,11 @@ func classifierUpdateSplit(left [][]float64, leftY []int64, right [][]float64, r
 // Trains the tree by calling recursive function classifierBestSplit
 func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 	var emptyNode classifierNode
-	var err error
 
-	data := convertInstancesToProblemVec(X)
+	data, err := convertInstancesToProblemVec(X)
+	if err != nil {
+		return err
+	}
 	y, err := classifierConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -374,7 +376,10 @@ func classifierPredictSingle(tree classifierNode, instance []float64) int64 {
 // Given test data, return predictions for every datapoint. calls classifierPredictFromNode
 func (tree *CARTDecisionTreeClassifier) Predict(X_test base.FixedDataGrid) []int64 {
 	root := *tree.RootNode
-	test := convertInstancesToProblemVec(X_test)
+	test, err := convertInstancesToProblemVec(X_test)
+	if err != nil {
+		panic(err)
+	}
 	return classifierPredictFromNode(root, test)
 }
 
@@ -394,7 +399,10 @@ func classifierPredictFromNode(tree classifierNode, test [][]float64) []int64 {
 // Calls classifierEvaluateFromNode
 func (tree *CARTDecisionTreeClassifier) Evaluate(test base.FixedDataGrid) (float64, error) {
 	rootNode := *tree.RootNode
-	xTest := convertInstancesToProblemVec(test)
+	xTest, err := convertInstancesToProblemVec(test)
+	if err != nil {
+		return 0, err
+	}
 	yTest, err := classifierConvertInstancesToLabelVec(test)
 	if err != nil {
 		return 0, err
@@ -433,9 +441,12 @@ func classifierConvertInstancesToLabelVec(X base.FixedDataGrid) ([]int64, error)
 	labelVec := make([]int64, rows)
 	// Resolve class Attribute specification
 	classAttrSpecs := base.ResolveAttributes(X, classAttrs)
-	X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		labelVec[rowNo] = int64(base.UnpackBytesToFloat(row[0]))
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return labelVec, nil
 }
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 69ae9d6..518b03c 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -159,9 +159,11 @@ func regressorUpdateSplit(left [][]float64, leftY []float64, right [][]float64,
 // Creates empty root node and builds tree by calling regressorBestSplit
 func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 	var emptyNode regressorNode
-	var err error
 
-	data := regressorConvertInstancesToProblemVec(X)
+	data, err := regressorConvertInstancesToProblemVec(X)
+	if err != nil {
+		return err
+	}
 	y, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		return err
@@ -346,7 +348,10 @@ func regressorPredictSingle(tree regressorNode, instance []float64) float64 {
 // First converts input data into usable format, and then calls regressorPredictFromNode
 func (tree *CARTDecisionTreeRegressor) Predict(X_test base.FixedDataGrid) []float64 {
 	root := *tree.RootNode
-	test := regressorConvertInstancesToProblemVec(X_test)
+	test, err := regressorConvertInstancesToProblemVec(X_test)
+	if err != nil {
+		panic(err)
+	}
 	return regressorPredictFromNode(root, test)
 }
 
@@ -362,7 +367,7 @@ func regressorPredictFromNode(tree regressorNode, test [][]float64) []float64 {
 }
 
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) ([][]float64, error) {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
@@ -372,7 +377,7 @@ func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Convert each row
-	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
 		probRow := make([]float64, len(numericAttrSpecs))
 		// Read out the row
@@ -383,7 +388,10 @@ func regressorConvertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 		problemVec[rowNo] = probRow
 		return true, nil
 	})
-	return problemVec
+	if err != nil {
+		return nil, err
+	}
+	return problemVec, nil
 }
 
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
@@ -404,9 +412,12 @@ func regressorConvertInstancesToLabelVec(X base.FixedDataGrid) ([]float64, error
 	labelVec := make([]float64, rows)
 	// Resolve class Attribute specification
 	classAttrSpecs := base.ResolveAttributes(X, classAttrs)
-	X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		labelVec[rowNo] = base.UnpackBytesToFloat(row[0])
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 	return labelVec, nil
 }
diff --git a/trees/cart_utils.go b/trees/cart_utils.go
index 251dee9..f6496f4 100644
--- a/trees/cart_utils.go
+++ b/trees/cart_utils.go
@@ -40,7 +40,7 @@ func validate(triedSplits [][]float64, feature int64, threshold float64) bool {
 }
 
 // Helper function to convert base.FixedDataGrid into required format. Called in Fit, Predict
-func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+func convertInstancesToProblemVec(X base.FixedDataGrid) ([][]float64, error) {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
@@ -50,7 +50,7 @@ func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Convert each row
-	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
 		probRow := make([]float64, len(numericAttrSpecs))
 		// Read out the row
@@ -61,5 +61,8 @@ func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 		problemVec[rowNo] = probRow
 		return true, nil
 	})
-	return problemVec
+	if err != nil {
+		return nil, err
+	}
+	return problemVec, nil
 }
diff --git a/trees/isolation.go b/trees/isolation.go
index 3f83c90..285791d 100644
--- a/trees/isolation.go
+++ b/trees/isolation.go
@@ -218,7 +218,10 @@ func (iForest *IsolationForest) Predict(X base.FixedDataGrid) []float64 {
 
 // Extract data in the form of floats. Used in Fit and predict. Note that class labels are treated as normal data because Isolation Forest is unsupervised.
 func preprocessData(X base.FixedDataGrid) [][]float64 {
-	data := convertInstancesToProblemVec(X)
+	data, err := convertInstancesToProblemVec(X)
+	if err != nil {
+		panic(err)
+	}
 	class, err := regressorConvertInstancesToLabelVec(X)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From dd39de69c189d0a14eab14737cf21eb50fc01e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 060/106] fix: linear models hide errors of the dataset they
 read

---
 linear_models/linear_regression.go | 15 ++++++++++++---
 linear_models/linearsvc.go         | 15 ++++++++++++---
 linear_models/logistic.go          | 15 ++++++++++++---
 linear_models/util.go              | 18 ++++++++++++------
 4 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/linear_models/linear_regression.go b/linear_models/linear_regression.go
index eb52c4e..987fe69 100644
--- a/linear_models/linear_regression.go
+++ b/linear_models/linear_regression.go
@@ -63,14 +63,17 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 	explVariables := mat.NewDense(rows, cols, nil)
 
 	// Build the observed matrix
-	inst.MapOverRows(classAttrSpecs, func(row [][]byte, i int) (bool, error) {
+	err := inst.MapOverRows(classAttrSpecs, func(row [][]byte, i int) (bool, error) {
 		val := base.UnpackBytesToFloat(row[0])
 		observed.Set(i, 0, val)
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	// Build the explainatory variables
-	inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
+	err = inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
 		// Set intercepts to 1.0
 		explVariables.Set(i, 0, 1.0)
 		for j, r := range row {
@@ -78,6 +81,9 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	n := cols
 	qr := new(mat.QR)
@@ -119,7 +125,7 @@ func (lr *LinearRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, e
 		return nil, err
 	}
 
-	X.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
+	err = X.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
 		var prediction float64 = lr.disturbance
 		for j, r := range row {
 			prediction += base.UnpackBytesToFloat(r) * lr.regressionCoefficients[j]
@@ -128,6 +134,9 @@ func (lr *LinearRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid, e
 		ret.Set(clsSpec, i, base.PackFloatToBytes(prediction))
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 9f3742f..8095ede 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -169,8 +169,14 @@ func (lr *LinearSVC) Fit(X base.FixedDataGrid) error {
 	}
 
 	// Convert the problem
-	problemVec := convertInstancesToProblemVec(X)
-	labelVec := convertInstancesToLabelVec(X)
+	problemVec, err := convertInstancesToProblemVec(X)
+	if err != nil {
+		return err
+	}
+	labelVec, err := convertInstancesToLabelVec(X)
+	if err != nil {
+		return err
+	}
 
 	// Train
 	prob := NewProblem(problemVec, labelVec, 0)
@@ -201,7 +207,7 @@ func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 
 	// Allocate row storage
 	row := make([]float64, len(numericAttrSpecs))
-	X.MapOverRows(numericAttrSpecs, func(rowBytes [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(numericAttrSpecs, func(rowBytes [][]byte, rowNo int) (bool, error) {
 		for i, r := range rowBytes {
 			row[i] = base.UnpackBytesToFloat(r)
 		}
@@ -210,6 +216,9 @@ func (lr *LinearSVC) Predict(X base.FixedDataGrid) (base.FixedDataGrid, error) {
 		ret.Set(classAttrSpecs[0], rowNo, vals)
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
diff --git a/linear_models/logistic.go b/linear_models/logistic.go
index 96c3206..2c23f24 100644
--- a/linear_models/logistic.go
+++ b/linear_models/logistic.go
@@ -28,8 +28,14 @@ func NewLogisticRegression(penalty string, C float64, eps float64) (*LogisticReg
 }
 
 func (lr *LogisticRegression) Fit(X base.FixedDataGrid) error {
-	problemVec := convertInstancesToProblemVec(X)
-	labelVec := convertInstancesToLabelVec(X)
+	problemVec, err := convertInstancesToProblemVec(X)
+	if err != nil {
+		return err
+	}
+	labelVec, err := convertInstancesToLabelVec(X)
+	if err != nil {
+		return err
+	}
 	prob := NewProblem(problemVec, labelVec, 0)
 	lr.model = Train(prob, lr.param)
 	return nil
@@ -51,7 +57,7 @@ func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid,
 
 	// Allocate row storage
 	row := make([]float64, len(numericAttrSpecs))
-	X.MapOverRows(numericAttrSpecs, func(rowBytes [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(numericAttrSpecs, func(rowBytes [][]byte, rowNo int) (bool, error) {
 		for i, r := range rowBytes {
 			row[i] = base.UnpackBytesToFloat(r)
 		}
@@ -60,6 +66,9 @@ func (lr *LogisticRegression) Predict(X base.FixedDataGrid) (base.FixedDataGrid,
 		ret.Set(classAttrSpecs[0], rowNo, vals)
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return ret, nil
 }
diff --git a/linear_models/util.go b/linear_models/util.go
index ac6b2ce..69b39d5 100644
--- a/linear_models/util.go
+++ b/linear_models/util.go
@@ -34,7 +34,7 @@ func generateClassWeightVectorFromFixed(X base.FixedDataGrid) []float64 {
 	}
 }
 
-func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
+func convertInstancesToProblemVec(X base.FixedDataGrid) ([][]float64, error) {
 	// Allocate problem array
 	_, rows := X.Size()
 	problemVec := make([][]float64, rows)
@@ -44,7 +44,7 @@ func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 	numericAttrSpecs := base.ResolveAttributes(X, numericAttrs)
 
 	// Convert each row
-	X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
 		probRow := make([]float64, len(numericAttrSpecs))
 		// Read out the row
@@ -55,10 +55,13 @@ func convertInstancesToProblemVec(X base.FixedDataGrid) [][]float64 {
 		problemVec[rowNo] = probRow
 		return true, nil
 	})
-	return problemVec
+	if err != nil {
+		return nil, err
+	}
+	return problemVec, nil
 }
 
-func convertInstancesToLabelVec(X base.FixedDataGrid) []float64 {
+func convertInstancesToLabelVec(X base.FixedDataGrid) ([]float64, error) {
 	// Get the class Attributes
 	classAttrs := X.AllClassAttributes()
 	// Only support 1 class Attribute
@@ -74,9 +77,12 @@ func convertInstancesToLabelVec(X base.FixedDataGrid) []float64 {
 	labelVec := make([]float64, rows)
 	// Resolve class Attribute specification
 	classAttrSpecs := base.ResolveAttributes(X, classAttrs)
-	X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := X.MapOverRows(classAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		labelVec[rowNo] = base.UnpackBytesToFloat(row[0])
 		return true, nil
 	})
-	return labelVec
+	if err != nil {
+		return nil, err
+	}
+	return labelVec, nil
 }
-- 
2.43.0


From 80a5509bc2182658454f4c25cecdddf0dc5821de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 061/106] fix: ExpectationMaximization hides errors of the
 dataset it reads

---
 clustering/em.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clustering/em.go b/clustering/em.go
index 6e7590f..01485b0 100644
--- a/clustering/em.go
+++ b/clustering/em.go
@@ -58,12 +58,15 @@ func (em *ExpectationMaximization) Fit(inst base.FixedDataGrid) error {
 
 	// Build the input matrix
 	X := mat.NewDense(n_obs, n_feats, nil)
-	inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
+	err := inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
 		for j, r := range row {
 			X.Set(i, j, base.UnpackBytesToFloat(r))
 		}
 		return true, nil
 	})
+	if err != nil {
+		return err
+	}
 
 	// Initialize the parameter distance
 	dist := math.Inf(1)
@@ -116,12 +119,15 @@ func (em *ExpectationMaximization) Predict(inst base.FixedDataGrid) (ClusterMap,
 
 	// Build the input matrix
 	X := mat.NewDense(n_obs, n_feats, nil)
-	inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
+	err := inst.MapOverRows(attrSpecs, func(row [][]byte, i int) (bool, error) {
 		for j, r := range row {
 			X.Set(i, j, base.UnpackBytesToFloat(r))
 		}
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	// Vector of predictions
 	preds, err := estimateLogProb(X, em.Params, em.n_comps)
-- 
2.43.0


From f6b0c599c5299134a407a4d0ea7c5d0c556196ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 062/106] fix: sorting and ChiMerge hide errors of the dataset
 they read

---
 base/sort.go              | 19 ++++++++++++++-----
 filters/chimerge.go       |  2 +-
 filters/chimerge_funcs.go |  9 ++++-----
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/base/sort.go b/base/sort.go
index dc40667..b1e1d7e 100644
--- a/base/sort.go
+++ b/base/sort.go
@@ -30,7 +30,7 @@ type sortSpec struct {
 }
 
 // Returns sortSpecs for inst in ascending order
-func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
+func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) ([]sortSpec, error) {
 
 	attrs := make([]AttributeSpec, len(attrsArg))
 	copy(attrs, attrsArg)
@@ -48,7 +48,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 	rs := make([]int, rows)
 	rowSize := 0
 
-	inst.MapOverRows(attrs, func(row [][]byte, rowNo int) (bool, error) {
+	err := inst.MapOverRows(attrs, func(row [][]byte, rowNo int) (bool, error) {
 		if rowSize == 0 {
 			// Allocate a row buffer
 			for _, r := range row {
@@ -67,6 +67,9 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 		rs[rowNo] = rowNo
 		return true, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	// Sort values
 	valueBins := make([][][]byte, 256)
@@ -106,7 +109,7 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 			}
 		}
 	}
-	return ret
+	return ret, nil
 }
 
 // Sort does a radix sort of DenseInstances, using SortDirection
@@ -116,7 +119,10 @@ func createSortSpec(inst FixedDataGrid, attrsArg []AttributeSpec) []sortSpec {
 // IMPORTANT: Radix sort is not stable, so ordering outside
 // the attributes used for sorting is arbitrary.
 func Sort(inst FixedDataGrid, direction SortDirection, attrs []AttributeSpec) (FixedDataGrid, error) {
-	sortInstructions := createSortSpec(inst, attrs)
+	sortInstructions, err := createSortSpec(inst, attrs)
+	if err != nil {
+		return nil, err
+	}
 	instUpdatable, ok := inst.(*DenseInstances)
 	if ok {
 		for _, i := range sortInstructions {
@@ -140,7 +146,10 @@ func Sort(inst FixedDataGrid, direction SortDirection, attrs []AttributeSpec) (F
 // See also: Sort
 func LazySort(inst FixedDataGrid, direction SortDirection, attrs []AttributeSpec) (FixedDataGrid, error) {
 	// Run the sort operation
-	sortInstructions := createSortSpec(inst, attrs)
+	sortInstructions, err := createSortSpec(inst, attrs)
+	if err != nil {
+		return nil, err
+	}
 
 	// Build the row -> row mapping
 	_, rows := inst.Size()      // Get the total row count
diff --git a/filters/chimerge.go b/filters/chimerge.go
index 826e8d0..df4e071 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -131,7 +131,7 @@ func (c *ChiMergeFilter) Train() error {
 		// Sort
 		sorted, err := base.LazySort(c.train, base.Ascending, sortOrder)
 		if err != nil {
-			panic(err)
+			return err
 		}
 
 		// Perform ChiMerge
diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 6b649c1..955da1e 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -13,10 +13,10 @@ func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*Fr
 	if err != nil {
 		panic(err)
 	}
-	attrSpecs := []base.AttributeSpec{attrSpec}
 
-	err = inst.MapOverRows(attrSpecs, func(row [][]byte, rowNo int) (bool, error) {
-		value := row[0]
+	_, rows := inst.Size()
+	for rowNo := 0; rowNo < rows; rowNo++ {
+		value := inst.Get(attrSpec, rowNo)
 		valueConv := attribute.GetFloatFromSysVal(value)
 		class := base.GetClass(inst, rowNo)
 		// Search the frequency table for the value
@@ -35,8 +35,7 @@ func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*Fr
 			newEntry.Frequency[class] = 1
 			ret = append(ret, newEntry)
 		}
-		return true, nil
-	})
+	}
 
 	return ret
 }
-- 
2.43.0


From 59672d5163cdaf2ec5b95bfe03215b91436fcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 063/106] fix: binary export ignores errors of the dataset

---
 base/serialize_instances.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/serialize_instances.go b/base/serialize_instances.go
index d9cbf6e..fe35ddd 100644
--- a/base/serialize_instances.go
+++ b/base/serialize_instances.go
@@ -311,12 +311,14 @@ func SerializeInstancesToTarWriter(inst FixedDataGrid, tw *tar.Writer, prefix st
 
 	// First, estimate the amount of data we'll need...
 	dataLength := int64(0)
-	inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
+	if err := inst.MapOverRows(allSpecs, func(val [][]byte, row int) (bool, error) {
 		for _, v := range val {
 			dataLength += int64(len(v))
 		}
 		return true, nil
-	})
+	}); err != nil {
+		return err
+	}
 
 	// Then write the header
 	hdr = &tar.Header{
-- 
2.43.0


From 2744fa319374cf7d681ff7929346c0a46241c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 064/106] fix: copies, perceptrons and networks silently use a
 partly read dataset

---
 base/dense.go         |  5 ++++-
 neural/layered.go     | 10 ++++++++--
 perceptron/average.go |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/base/dense.go b/base/dense.go
index 0b91298..11358e4 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -87,12 +87,15 @@ func NewDenseCopy(of FixedDataGrid) *DenseInstances {
 	ret.Extend(rows)
 
 	// Copy each row from the old one to the new
-	of.MapOverRows(specs1, func(v [][]byte, r int) (bool, error) {
+	err := of.MapOverRows(specs1, func(v [][]byte, r int) (bool, error) {
 		for i, c := range v {
 			ret.Set(specs2[i], r, c)
 		}
 		return true, nil
 	})
+	if err != nil {
+		panic(err)
+	}
 
 	return ret
 }
diff --git a/neural/layered.go b/neural/layered.go
index b016b8d..1e60b04 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -128,7 +128,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 	outputAs := base.ResolveAttributes(ret, outputAttrs)
 
 	// Map over each input row
-	insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
+	err := insts.MapOverRows(inputAs, func(row [][]byte, rc int) (bool, error) {
 		// Clear the activation vector
 		for i := 0; i < m.network.size; i++ {
 			a.Set(i, 0, 0.0)
@@ -162,6 +162,9 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 		}
 		return true, nil
 	})
+	if err != nil {
+		panic(err)
+	}
 
 	return ret
 
@@ -300,7 +303,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	for iteration := 0; iteration < m.MaxIterations; iteration++ {
 		totalError := 0.0
 		maxRow := 0
-		insts.MapOverRows(trainAs, func(row [][]byte, i int) (bool, error) {
+		err := insts.MapOverRows(trainAs, func(row [][]byte, i int) (bool, error) {
 
 			maxRow = i
 			// Clear vectors
@@ -346,6 +349,9 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 
 			return true, nil
 		})
+		if err != nil {
+			panic(err)
+		}
 
 		totalError /= float64(maxRow)
 		// If we've converged, no need to carry on
diff --git a/perceptron/average.go b/perceptron/average.go
index 0c8e554..827ec94 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -167,7 +167,7 @@ func processData(x base.FixedDataGrid) instances {
 	}
 
 	// Convert each row
-	x.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
+	err := x.MapOverRows(numericAttrSpecs, func(row [][]byte, rowNo int) (bool, error) {
 		// Allocate a new row
 		probRow := make([]float64, len(numericAttrSpecs))
 
@@ -182,6 +182,9 @@ func processData(x base.FixedDataGrid) instances {
 		result[rowNo] = instance
 		return true, nil
 	})
+	if err != nil {
+		panic(err)
+	}
 	return result
 }
 
-- 
2.43.0


From 25aad5f70402c2e7db81840c12e9aaa040eaf1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 065/106] fix: AllAttributeGroups reads the groups under the
 lock

---
 base/dense.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index 11358e4..1d968d1 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -158,6 +158,9 @@ func (inst *DenseInstances) CreateAttributeGroup(name string, size int) (err err
 
 // AllAttributeGroups returns a copy of the available AttributeGroups
 func (inst *DenseInstances) AllAttributeGroups() map[string]AttributeGroup {
+	inst.lock.Lock()
+	defer inst.lock.Unlock()
+
 	ret := make(map[string]AttributeGroup)
 	for a := range inst.agMap {
 		ret[a] = inst.ags[inst.agMap[a]]
-- 
2.43.0


From 3b2ef51da894c44c6ac4bfad979ec82422245364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:22 +0000
Subject: [PATCH 066/106] fix: AddAttributeToAttributeGroup refuses to change
 an allocated dataset

---
 base/dense.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/base/dense.go b/base/dense.go
index 1d968d1..678ff4c 100644
--- a/base/dense.go
+++ b/base/dense.go
@@ -243,6 +243,11 @@ func (inst *DenseInstances) AddAttributeToAttributeGroup(newAttribute Attribute,
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	// The row layout can't change once storage has been allocated
+	if inst.fixed {
+		return AttributeSpec{-1, 0, nil}, fmt.Errorf("Can't add additional Attributes")
+	}
+
 	// Check if the ag exists
 	if _, ok := inst.agMap[ag]; !ok {
 		return AttributeSpec{-1, 0, nil}, fmt.Errorf("AttributeGroup '%s' doesn't exist. Call CreateAttributeGroup() first", ag)
-- 
2.43.0


From 549f31522f7826cb906faff713e199c68574e4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:27 +0000
Subject: [PATCH 067/106] fix: quote names and values in ARFF files

---
 base/arff.go | 101 +++++++++++++++++++++++++++++----------------------
 1 file changed, 58 insertions(+), 43 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 166b185..f666a22 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -53,9 +53,13 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 		t := "real"
 		if a, ok := attr.(*CategoricalAttribute); ok {
 			vals := a.GetValues()
-			t = fmt.Sprintf("{%s}", strings.Join(vals, ", "))
+			quoted := make([]string, len(vals))
+			for i, v := range vals {
+				quoted[i] = quoteARFF(v)
+			}
+			t = fmt.Sprintf("{%s}", strings.Join(quoted, ", "))
 		}
-		if _, err := fmt.Fprintf(w, "@attribute %s %s\n", attr.GetName(), t); err != nil {
+		if _, err := fmt.Fprintf(w, "@attribute %s %s\n", quoteARFF(attr.GetName()), t); err != nil {
 			return err
 		}
 	}
@@ -66,7 +70,7 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 	buf := make([]string, len(attrs))
 	return inst.MapOverRows(attrs, func(val [][]byte, row int) (bool, error) {
 		for i, v := range val {
-			buf[i] = attrs[i].attr.GetStringFromSysVal(v)
+			buf[i] = quoteARFF(attrs[i].attr.GetStringFromSysVal(v))
 		}
 		if _, err := fmt.Fprint(w, strings.Join(buf, ",")); err != nil {
 			return false, err
@@ -78,6 +82,37 @@ func SerializeInstancesToWriterDenseARFFWithAttributes(w io.Writer, inst FixedDa
 	})
 }
 
+// quoteARFF puts quotes around a name or value which would be taken for something
+// else in an ARFF file. The quotes are those of CSV, because that's how data rows are read.
+func quoteARFF(s string) string {
+	if s != "" && !strings.ContainsAny(s, " \t,{}\"'") && s[0] != '%' && s[0] != '@' {
+		return s
+	}
+	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
+}
+
+// cutARFF returns the first name or value of s, without any quotes around it, and
+// what follows. A name or value without quotes ends before the first of the stop characters.
+func cutARFF(s, stop string) (first, rest string) {
+	if !strings.HasPrefix(s, `"`) {
+		end := strings.IndexAny(s, stop)
+		if end < 0 {
+			end = len(s)
+		}
+		return s[:end], s[end:]
+	}
+	for i := 1; i < len(s); i++ {
+		if s[i] != '"' {
+			continue
+		}
+		if i+1 == len(s) || s[i+1] != '"' {
+			return strings.Replace(s[1:i], `""`, `"`, -1), s[i+1:]
+		}
+		i++
+	}
+	return s[1:], ""
+}
+
 // ParseARFFGetRows returns the number of data rows in an ARFF file.
 func ParseARFFGetRows(filepath string) (int, error) {
 
@@ -97,9 +132,6 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '@' {
-				continue
-			}
 			if line[0] == '%' {
 				continue
 			}
@@ -143,56 +175,39 @@ func ParseARFFGetAttributes(filepath string) []Attribute {
 		if line[0] != '@' {
 			continue
 		}
-		fields := strings.Fields(line)
-		if len(fields) < 3 {
+		keyword, rest := cutARFF(line, " \t")
+		if strings.ToLower(keyword) != "@attribute" {
 			continue
 		}
-		fields[0] = strings.ToLower(fields[0])
-		attrType := strings.ToLower(fields[2])
-		if fields[0] != "@attribute" {
+		name, rest := cutARFF(strings.TrimSpace(rest), " \t")
+		attrType := strings.TrimSpace(rest)
+		if attrType == "" {
 			continue
 		}
-		switch attrType {
-		case "real":
+		if strings.ToLower(strings.Fields(attrType)[0]) == "real" {
 			attr = new(FloatAttribute)
-			break
-		default:
-			if fields[2][0] == '{' {
-				if strings.HasSuffix(fields[len(fields)-1], "}") {
-					var cats []string
-					if len(fields) > 3 {
-						cats = fields[2:len(fields)]
-					} else {
-						cats = strings.Split(fields[2], ",")
-					}
-					if len(cats) == 0 {
-						panic(fmt.Errorf("Empty categorical field on line '%s'", line))
-					}
-					cats[0] = cats[0][1:]                                            // Remove leading '{'
-					cats[len(cats)-1] = cats[len(cats)-1][:len(cats[len(cats)-1])-1] // Remove trailing '}'
-					for i, v := range cats {                                         // Miaow
-						cats[i] = strings.TrimSpace(v)
-						if strings.HasSuffix(cats[i], ",") {
-							// Strip end comma
-							cats[i] = cats[i][0 : len(cats[i])-1]
-						}
-					}
-					attr = NewCategoricalAttribute()
-					for _, v := range cats {
-						attr.GetSysValFromString(v)
-					}
-				} else {
+		} else if attrType[0] == '{' {
+			attr = NewCategoricalAttribute()
+			for rest := attrType[1:]; ; rest = rest[1:] {
+				var val string
+				val, rest = cutARFF(strings.TrimSpace(rest), ",}")
+				attr.GetSysValFromString(strings.TrimSpace(val))
+				rest = strings.TrimSpace(rest)
+				if strings.HasPrefix(rest, "}") {
+					break
+				}
+				if !strings.HasPrefix(rest, ",") {
 					panic(fmt.Errorf("Missing categorical bracket on line '%s'", line))
 				}
-			} else {
-				panic(fmt.Errorf("Unsupported Attribute type %s on line '%s'", fields[2], line))
 			}
+		} else {
+			panic(fmt.Errorf("Unsupported Attribute type %s on line '%s'", attrType, line))
 		}
 
 		if attr == nil {
 			panic(fmt.Errorf(line))
 		}
-		attr.SetName(fields[1])
+		attr.SetName(name)
 		ret = append(ret, attr)
 	}
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From 7fa51e1bd6f8148d3682781f368d1a8d3b2accd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 068/106] fix: ChiMerge sums statistics in a fixed order

The chi-squared statistic was summed in map order; its last bit, and with it the merged intervals, changed from run to run.
---
 filters/chimerge_funcs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index 955da1e..b3e28af 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"github.com/sjwhitworth/golearn/base"
 	"math"
+	"sort"
 )
 
 func ChiMBuildFrequencyTable(attr base.Attribute, inst base.FixedDataGrid) []*FrequencyTableEntry {
@@ -129,9 +130,16 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 		expectedClassValues2[k] /= float64(totalObservations)
 	}
 
+	// The sum must not depend on the order of the classes
+	classes := make([]string, 0, len(classCounter))
+	for k := range classCounter {
+		classes = append(classes, k)
+	}
+	sort.Strings(classes)
+
 	// Compute chi-squared value
 	chiSum := 0.0
-	for k := range expectedClassValues1 {
+	for _, k := range classes {
 		numerator := float64(entry1.Frequency[k])
 		numerator -= expectedClassValues1[k]
 		numerator = math.Pow(numerator, 2)
@@ -141,7 +149,7 @@ func chiComputeStatistic(entry1 *FrequencyTableEntry, entry2 *FrequencyTableEntr
 		}
 		chiSum += numerator / denominator
 	}
-	for k := range expectedClassValues2 {
+	for _, k := range classes {
 		numerator := float64(entry2.Frequency[k])
 		numerator -= expectedClassValues2[k]
 		numerator = math.Pow(numerator, 2)
-- 
2.43.0


From 91b5d50330932c9aa7c1b17dba4c6012f2c3abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 069/106] fix: confusion matrix scores and reports go through
 the classes in order

Macro scores were summed, and reports printed, in map order.
---
 evaluation/confusion.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index eb71faf..497a660 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"sort"
 	"text/tabwriter"
 
 	"github.com/sjwhitworth/golearn/base"
@@ -37,6 +38,16 @@ func GetConfusionMatrix(ref base.FixedDataGrid, gen base.FixedDataGrid) (map[str
 	return ret, nil
 }
 
+// referenceClasses returns the reference classes of a ConfusionMatrix in order.
+func referenceClasses(c ConfusionMatrix) []string {
+	ret := make([]string, 0, len(c))
+	for k := range c {
+		ret = append(ret, k)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 // GetTruePositives returns the number of times an entry is
 // predicted successfully in a given ConfusionMatrix.
 func GetTruePositives(class string, c ConfusionMatrix) float64 {
@@ -145,7 +156,7 @@ func GetMicroPrecision(c ConfusionMatrix) float64 {
 // classes by averaging the precision measures achieved for each class.
 func GetMacroPrecision(c ConfusionMatrix) float64 {
 	precisionVals := 0.0
-	for k := range c {
+	for _, k := range referenceClasses(c) {
 		precisionVals += GetPrecision(k, c)
 	}
 	return precisionVals / float64(len(c))
@@ -167,7 +178,7 @@ func GetMicroRecall(c ConfusionMatrix) float64 {
 // by averaging the recall measures achieved for each class
 func GetMacroRecall(c ConfusionMatrix) float64 {
 	recallVals := 0.0
-	for k := range c {
+	for _, k := range referenceClasses(c) {
 		recallVals += GetRecall(k, c)
 	}
 	return recallVals / float64(len(c))
@@ -183,7 +194,7 @@ func GetSummary(c ConfusionMatrix) string {
 
 	fmt.Fprintln(w, "Reference Class\tTrue Positives\tFalse Positives\tTrue Negatives\tPrecision\tRecall\tF1 Score")
 	fmt.Fprintln(w, "---------------\t--------------\t---------------\t--------------\t---------\t------\t--------")
-	for k := range c {
+	for _, k := range referenceClasses(c) {
 		tp := GetTruePositives(k, c)
 		fp := GetFalsePositives(k, c)
 		tn := GetTrueNegatives(k, c)
@@ -206,11 +217,10 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w := new(tabwriter.Writer)
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
-	ref := make([]string, 0)
+	ref := referenceClasses(c)
 	fmt.Fprintf(w, "Reference Class\t")
-	for k := range c {
+	for _, k := range ref {
 		fmt.Fprintf(w, "%s\t", k)
-		ref = append(ref, k)
 	}
 	fmt.Fprintf(w, "\n")
 
-- 
2.43.0


From 68cdf4ee2751342082afab82c1ca161d9f36453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 070/106] fix: InstancesTrainTestSplit leaves its dataset alone

Splitting shuffled the rows of the caller's dataset.
---
 base/util_instances.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/util_instances.go b/base/util_instances.go
index e7aac04..7b3c9d0 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -363,7 +363,7 @@ func DecomposeOnAttributeValues(inst FixedDataGrid, at Attribute) map[string]Fix
 func InstancesTrainTestSplit(src FixedDataGrid, prop float64) (FixedDataGrid, FixedDataGrid) {
 	trainingRows := make([]int, 0)
 	testingRows := make([]int, 0)
-	src = Shuffle(src)
+	src = LazyShuffle(src)
 
 	// Create the return structure
 	_, rows := src.Size()
-- 
2.43.0


From 40d05c6547f6088981b50e7035665b431c264491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 071/106] fix: MultiLayerNet forgets the attributes of earlier
 training data

Training again kept the old attribute positions and class count, so predictions came from the wrong nodes or panicked.
---
 neural/layered.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural/layered.go b/neural/layered.go
index 1e60b04..c62ce9b 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -202,6 +202,10 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 		hiddenSize += a
 	}
 
+	// Forget the Attributes of any earlier training data
+	m.attrs = make(map[base.Attribute]int)
+	m.classAttrCount = 0
+
 	// Enumerate the Attributes
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
-- 
2.43.0


From 5e45a9664296b1ccc52454407c76e0eb0d44793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 072/106] fix: AveragePerceptron starts afresh when it is
 trained again

Weights of earlier training data, for example of other cross-validation folds, were kept.
---
 perceptron/average.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/perceptron/average.go b/perceptron/average.go
index 827ec94..c78193f 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -67,6 +67,11 @@ func (p *AveragePerceptron) score(datum instance) float64 {
 
 func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 
+	// Start afresh: nothing learned from earlier data is kept
+	p.weights = make([]float64, len(p.weights))
+	p.edges = make([]float64, len(p.edges))
+	p.count = 0
+
 	epochs := 0
 	p.trainError = 0.1
 	learning := true
-- 
2.43.0


From edd9fdc70b764184e9eafa3e2ae7a114e0aeec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 073/106] fix: training a conversion filter again replaces its
 attributes

Each training appended all converted attributes once more.
---
 filters/binary.go | 4 ++++
 filters/float.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/filters/binary.go b/filters/binary.go
index 291ac7d..262fd13 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -115,6 +115,10 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 // If the CategoricalAttribute has more than two (n) values, the Filter
 // generates n BinaryAttributes and sets each of them if the value's observed.
 func (b *BinaryConvertFilter) Train() error {
+	// Training again replaces what an earlier training computed
+	b.converted = make([]base.FilteredAttribute, 0)
+	b.twoValuedCategoricalAttributes = make(map[base.Attribute]bool)
+	b.nValuedCategoricalAttributeMap = make(map[base.Attribute]map[uint64]base.Attribute)
 	for _, a := range b.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
diff --git a/filters/float.go b/filters/float.go
index f80bf0b..62cfe9a 100644
--- a/filters/float.go
+++ b/filters/float.go
@@ -105,6 +105,10 @@ func (f *FloatConvertFilter) Transform(a base.Attribute, n base.Attribute, attrB
 // If the CategoricalAttribute has more than two (n) values, the Filter
 // generates n FloatAttributes and sets each of them if the value's observed.
 func (f *FloatConvertFilter) Train() error {
+	// Training again replaces what an earlier training computed
+	f.converted = make([]base.FilteredAttribute, 0)
+	f.twoValuedCategoricalAttributes = make(map[base.Attribute]bool)
+	f.nValuedCategoricalAttributeMap = make(map[base.Attribute]map[uint64]base.Attribute)
 	for _, a := range f.attrs {
 		if ac, ok := a.(*base.CategoricalAttribute); ok {
 			vals := ac.GetValues()
-- 
2.43.0


From 52094a538a91feab5e407bff170402a29f1dc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:09 +0000
Subject: [PATCH 074/106] fix: liblinear reports a model file that ends early
 or cannot be read instead of looping or using what was in memory

---
 linear_models/linear.cpp | 93 ++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 42 deletions(-)

diff --git a/linear_models/linear.cpp b/linear_models/linear.cpp
index 60b501a..b762596 100644
--- a/linear_models/linear.cpp
+++ b/linear_models/linear.cpp
@@ -2635,35 +2635,28 @@ int save_model(const char *model_file_name, const struct model *model_)
 	setlocale(LC_ALL, old_locale);
 	free(old_locale);
 
-	if (ferror(fp) != 0 || fclose(fp) != 0) return -1;
+	int failed = ferror(fp);
+	if (fclose(fp) != 0 || failed != 0) return -1;
 	else return 0;
 }
 
-struct model *load_model(const char *model_file_name)
+// Reads a model's text, and returns 0, or -1 if it ends early, cannot be
+// read, or is not that of a model.
+static int read_model(FILE *fp, model *model_)
 {
-	FILE *fp = fopen(model_file_name,"r");
-	if(fp==NULL) return NULL;
-
 	int i;
-	int nr_feature;
 	int n;
-	int nr_class;
-	double bias;
-	model *model_ = Malloc(model,1);
 	parameter& param = model_->param;
 
-	model_->label = NULL;
-
-	char *old_locale = strdup(setlocale(LC_ALL, NULL));
-	setlocale(LC_ALL, "C");
-
 	char cmd[81];
 	while(1)
 	{
-		fscanf(fp,"%80s",cmd);
+		if(fscanf(fp,"%80s",cmd) != 1)
+			return -1;
 		if(strcmp(cmd,"solver_type")==0)
 		{
-			fscanf(fp,"%80s",cmd);
+			if(fscanf(fp,"%80s",cmd) != 1)
+				return -1;
 			int i;
 			for(i=0;solver_type_table[i];i++)
 			{
@@ -2676,28 +2669,23 @@ struct model *load_model(const char *model_file_name)
 			if(solver_type_table[i] == NULL)
 			{
 				fprintf(stderr,"unknown solver type.\n");
-
-				setlocale(LC_ALL, old_locale);
-				free(model_->label);
-				free(model_);
-				free(old_locale);
-				return NULL;
+				return -1;
 			}
 		}
 		else if(strcmp(cmd,"nr_class")==0)
 		{
-			fscanf(fp,"%d",&nr_class);
-			model_->nr_class=nr_class;
+			if(fscanf(fp,"%d",&model_->nr_class) != 1)
+				return -1;
 		}
 		else if(strcmp(cmd,"nr_feature")==0)
 		{
-			fscanf(fp,"%d",&nr_feature);
-			model_->nr_feature=nr_feature;
+			if(fscanf(fp,"%d",&model_->nr_feature) != 1)
+				return -1;
 		}
 		else if(strcmp(cmd,"bias")==0)
 		{
-			fscanf(fp,"%lf",&bias);
-			model_->bias=bias;
+			if(fscanf(fp,"%lf",&model_->bias) != 1)
+				return -1;
 		}
 		else if(strcmp(cmd,"w")==0)
 		{
@@ -2708,44 +2696,65 @@ struct model *load_model(const char *model_file_name)
 			int nr_class = model_->nr_class;
 			model_->label = Malloc(int,nr_class);
 			for(int i=0;i<nr_class;i++)
-				fscanf(fp,"%d",&model_->label[i]);
+				if(fscanf(fp,"%d",&model_->label[i]) != 1)
+					return -1;
 		}
 		else
 		{
 			fprintf(stderr,"unknown text in model file: [%s]\n",cmd);
-			setlocale(LC_ALL, old_locale);
-			free(model_->label);
-			free(model_);
-			free(old_locale);
-			return NULL;
+			return -1;
 		}
 	}
 
-	nr_feature=model_->nr_feature;
 	if(model_->bias>=0)
-		n=nr_feature+1;
+		n=model_->nr_feature+1;
 	else
-		n=nr_feature;
+		n=model_->nr_feature;
 	int w_size = n;
 	int nr_w;
-	if(nr_class==2 && param.solver_type != MCSVM_CS)
+	if(model_->nr_class==2 && param.solver_type != MCSVM_CS)
 		nr_w = 1;
 	else
-		nr_w = nr_class;
+		nr_w = model_->nr_class;
 
 	model_->w=Malloc(double, w_size*nr_w);
 	for(i=0; i<w_size; i++)
 	{
 		int j;
 		for(j=0; j<nr_w; j++)
-			fscanf(fp, "%lf ", &model_->w[i*nr_w+j]);
-		fscanf(fp, "\n");
+			if(fscanf(fp, "%lf ", &model_->w[i*nr_w+j]) != 1)
+				return -1;
+		if(fscanf(fp, "\n") != 0 && ferror(fp))
+			return -1;
 	}
 
+	return ferror(fp) ? -1 : 0;
+}
+
+struct model *load_model(const char *model_file_name)
+{
+	FILE *fp = fopen(model_file_name,"r");
+	if(fp==NULL) return NULL;
+
+	model *model_ = Malloc(model,1);
+	memset(model_, 0, sizeof(model));
+
+	char *old_locale = strdup(setlocale(LC_ALL, NULL));
+	setlocale(LC_ALL, "C");
+
+	int status = read_model(fp, model_);
+
 	setlocale(LC_ALL, old_locale);
 	free(old_locale);
 
-	if (ferror(fp) != 0 || fclose(fp) != 0) return NULL;
+	if (fclose(fp) != 0) status = -1;
+	if (status != 0)
+	{
+		free(model_->w);
+		free(model_->label);
+		free(model_);
+		return NULL;
+	}
 
 	return model_;
 }
-- 
2.43.0


From 07fd79edbb55c860a28723a848b2f0db04c76215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:25 +0000
Subject: [PATCH 075/106] fix: attributes whose text isn't valid UTF-8 are
 refused when stored instead of changed

---
 base/binary.go               |  3 +++
 base/categorical.go          |  6 ++++++
 base/float.go                |  3 +++
 base/serialize_attributes.go | 11 +++++++++++
 4 files changed, 23 insertions(+)

diff --git a/base/binary.go b/base/binary.go
index 152ef01..baf8fd2 100644
--- a/base/binary.go
+++ b/base/binary.go
@@ -13,6 +13,9 @@ type BinaryAttribute struct {
 
 // MarshalJSON returns a JSON version of this BinaryAttribute for serialisation.
 func (b *BinaryAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkStorable(b.Name); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "binary",
 		"name": b.Name,
diff --git a/base/categorical.go b/base/categorical.go
index ddcffb1..bfa831b 100644
--- a/base/categorical.go
+++ b/base/categorical.go
@@ -15,6 +15,12 @@ type CategoricalAttribute struct {
 
 // MarshalJSON returns a JSON version of this Attribute.
 func (Attr *CategoricalAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkStorable(Attr.Name); err != nil {
+		return nil, err
+	}
+	if err := checkStorable(Attr.values...); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "categorical",
 		"name": Attr.Name,
diff --git a/base/float.go b/base/float.go
index db01d09..67a9922 100644
--- a/base/float.go
+++ b/base/float.go
@@ -16,6 +16,9 @@ type FloatAttribute struct {
 // MarshalJSON returns a JSON representation of this Attribute
 // for serialisation.
 func (f *FloatAttribute) MarshalJSON() ([]byte, error) {
+	if err := checkStorable(f.Name); err != nil {
+		return nil, err
+	}
 	return json.Marshal(map[string]interface{}{
 		"type": "float",
 		"name": f.Name,
diff --git a/base/serialize_attributes.go b/base/serialize_attributes.go
index 30dc599..b07d339 100644
--- a/base/serialize_attributes.go
+++ b/base/serialize_attributes.go
@@ -4,8 +4,19 @@ import (
 	"archive/tar"
 	"encoding/json"
 	"fmt"
+	"unicode/utf8"
 )
 
+// checkStorable reports text which JSON can't hold: it would be changed.
+func checkStorable(text ...string) error {
+	for _, s := range text {
+		if !utf8.ValidString(s) {
+			return fmt.Errorf("Can't store %q: it's not valid UTF-8", s)
+		}
+	}
+	return nil
+}
+
 func writeAttributesToFilePart(attrs []Attribute, f *tar.Writer, name string) error {
 	// Get the marshaled Attribute array
 	body, err := json.Marshal(attrs)
-- 
2.43.0


From e17a6fad74faef709bd268d24d41425fc3adf397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:36 +0000
Subject: [PATCH 076/106] fix: a loaded LinearSVC is trained again with the
 settings in the file, not those of the object

---
 linear_models/linearsvc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/linear_models/linearsvc.go b/linear_models/linearsvc.go
index 8095ede..b05a5cb 100644
--- a/linear_models/linearsvc.go
+++ b/linear_models/linearsvc.go
@@ -313,10 +313,13 @@ func (lr *LinearSVC) Load(filePath string) error {
 }
 
 func (lr *LinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, prefix string) error {
-	err := reader.GetJSONForKey(reader.Prefix(prefix, "PARAMETERS"), &lr.Param)
+	params := &LinearSVCParams{}
+	err := reader.GetJSONForKey(reader.Prefix(prefix, "PARAMETERS"), params)
 	if err != nil {
 		return base.DescribeError("Error reading PARAMETERS", err)
 	}
+	lr.Param = params
+	lr.param = params.convertToNativeFormat()
 
 	modelBytes, err := reader.GetBytesForKey(reader.Prefix(prefix, "MODEL"))
 	if err != nil {
-- 
2.43.0


From fb4aa5402591d8492692bd52c546d5d0d543211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:37 +0000
Subject: [PATCH 077/106] fix: loading a MultiLinearSVC replaces the class
 weights instead of adding to them

---
 ensemble/multisvc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ensemble/multisvc.go b/ensemble/multisvc.go
index c0281ef..ac3c615 100644
--- a/ensemble/multisvc.go
+++ b/ensemble/multisvc.go
@@ -169,10 +169,13 @@ func (m *MultiLinearSVC) LoadWithPrefix(reader *base.ClassifierDeserializer, pre
 		return fmt.Errorf("Can't load parameters: %v", err)
 	}
 
-	err = reader.GetJSONForKey(p("weights"), &m.weights)
+	// The weights given before stay out of it, and as they are
+	var weights map[string]float64
+	err = reader.GetJSONForKey(p("weights"), &weights)
 	if err != nil {
 		return fmt.Errorf("Can't load parameters: %v", err)
 	}
+	m.weights = weights
 
 	m.initializeOneVsAllModel()
 
-- 
2.43.0


From 7e3ccb4ac743d1b9b88e530f8db3c0b06a4061f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:18 +0000
Subject: [PATCH 078/106] fix: BernoulliNB trained on no instances reports an
 error instead of answering with a class that doesn't exist

---
 naive/bernoulli_nb.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/naive/bernoulli_nb.go b/naive/bernoulli_nb.go
index 1938e09..afc7a04 100644
--- a/naive/bernoulli_nb.go
+++ b/naive/bernoulli_nb.go
@@ -209,8 +209,13 @@ func (nb *BernoulliNBClassifier) Fit(X base.FixedDataGrid) error {
 		return fmt.Errorf("Only one class Attribute can be used")
 	}
 
+	_, rows := X.Size()
+	if rows == 0 {
+		return fmt.Errorf("Can't learn from no instances")
+	}
+
 	// Number of features and instances in this training set
-	_, nb.trainingInstances = X.Size()
+	nb.trainingInstances = rows
 	nb.attrs = featAttrs
 	nb.features = len(featAttrs)
 
-- 
2.43.0


From 4c721fe746013aadf744ca6df2d515014766069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 079/106] fix: an ARFF record with more or fewer values than
 there are attributes is an error

---
 base/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/arff.go b/base/arff.go
index f666a22..23ad7f4 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -258,6 +258,9 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 				} else if err != nil {
 					return err
 				}
+				if len(r) != len(specs) {
+					return fmt.Errorf("Error at line %d (expected %d values, got %d)", rowCounter, len(specs), len(r))
+				}
 				for i, v := range r {
 					v = strings.TrimSpace(v)
 					if a, ok := specs[i].attr.(*CategoricalAttribute); ok {
-- 
2.43.0


From ac9875b417b8fcd1294f82c67333d296ceaddda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 080/106] fix: ARFF lines of white space are not counted or
 read as records

---
 base/arff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/arff.go b/base/arff.go
index 23ad7f4..db0a2e0 100644
--- a/base/arff.go
+++ b/base/arff.go
@@ -132,7 +132,7 @@ func ParseARFFGetRows(filepath string) (int, error) {
 			continue
 		}
 		if counting {
-			if line[0] == '%' {
+			if line[0] == '%' || strings.TrimSpace(line) == "" {
 				continue
 			}
 			count++
@@ -245,7 +245,7 @@ func ParseDenseARFFBuildInstancesFromReader(r io.Reader, attrs []Attribute, u Up
 	specs := ResolveAttributes(u, attrs)
 	for scanner.Scan() {
 		line := scanner.Text()
-		if strings.HasPrefix(line, "%") {
+		if strings.HasPrefix(line, "%") || strings.TrimSpace(line) == "" {
 			continue
 		}
 		if reading {
-- 
2.43.0


From 8a24bb18713b3b1cb37461dc111ce3ac0bde7a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 081/106] fix: DBSCAN finds every point in reach of a cluster
 whatever the order of the points, and doesn't panic on noise

---
 clustering/dbscan.go | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/clustering/dbscan.go b/clustering/dbscan.go
index 82861f1..ed09c1b 100644
--- a/clustering/dbscan.go
+++ b/clustering/dbscan.go
@@ -96,15 +96,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 					neighbours = neighbours.Or(neighbours, newNeighbours)
 					reset = true
 				}
-			} else {
-				continue
 			}
 			if clustered.Bit(i) == 0 {
 				clusterMap[c] = append(clusterMap[c], i)
 				clustered = clustered.SetBit(clustered, i, 1)
 			}
 			if reset {
-				i = 0
+				i = -1
 			}
 		}
 	}
@@ -118,26 +116,13 @@ func DBSCAN(inst base.FixedDataGrid, params DBSCANParameters) (ClusterMap, error
 		neighbours := big.NewInt(0)
 		neighbours = regionQuery(i, neighbours, dist, params.Eps)
 		if BitCount(neighbours) < params.MinCount {
-			// Noise, cluster 0
-			clustered = clustered.Or(clustered, neighbours)
+			// Noise, unless it's in reach of a cluster found later
 			continue
 		}
 		c = c + 1 // Increment cluster count
 		expandCluster(i, neighbours, c)
 	}
 
-	// Remove anything from the map which doesn't make
-	// minimum points
-	rmKeys := make([]int, 0)
-	for id := range clusterMap {
-		if len(clusterMap[id]) < params.MinCount {
-			rmKeys = append(rmKeys, id)
-		}
-	}
-	for _, r := range rmKeys {
-		delete(clusterMap, r)
-	}
-
 	return ClusterMap(clusterMap), nil
 }
 
-- 
2.43.0


From 4884d2f352af85a4fa37c2244166456d0bc55062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 082/106] fix: datasets whose groups have different numbers of
 attributes are not strictly compatible, instead of a panic

---
 base/util_instances.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/util_instances.go b/base/util_instances.go
index 7b3c9d0..dde3c10 100644
--- a/base/util_instances.go
+++ b/base/util_instances.go
@@ -477,6 +477,9 @@ func CheckStrictlyCompatible(s1 FixedDataGrid, s2 FixedDataGrid) bool {
 		ag2 := d2ags[a]
 		a1 := ag1.Attributes()
 		a2 := ag2.Attributes()
+		if len(a1) != len(a2) {
+			return false
+		}
 		for i := range a1 {
 			at1 := a1[i]
 			at2 := a2[i]
-- 
2.43.0


From b0cf6e90c9ff1259c87746fe18531ab2edacf757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 083/106] fix: pruning a decision tree divides the rows at a
 numeric split the way prediction does

---
 trees/id3.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trees/id3.go b/trees/id3.go
index aa17fa7..8008ce5 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -332,7 +332,13 @@ func (d *DecisionTreeNode) Prune(using base.FixedDataGrid) {
 	}
 
 	// Recursively prune children of this node
-	sub := base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
+	var sub map[string]base.FixedDataGrid
+	if _, ok := d.SplitRule.SplitAttr.(*base.FloatAttribute); ok {
+		sub = base.DecomposeOnNumericAttributeThreshold(using,
+			d.SplitRule.SplitAttr, d.SplitRule.SplitVal)
+	} else {
+		sub = base.DecomposeOnAttributeValues(using, d.SplitRule.SplitAttr)
+	}
 	for k := range d.Children {
 		if sub[k] == nil {
 			continue
-- 
2.43.0


From 577dd5fbbc8c5c490d384813a9cef2812caf7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 084/106] fix: a decision tree can split on the last remaining
 attribute

---
 trees/id3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trees/id3.go b/trees/id3.go
index 8008ce5..3608913 100644
--- a/trees/id3.go
+++ b/trees/id3.go
@@ -226,7 +226,7 @@ func InferID3Tree(from base.FixedDataGrid, with RuleGenerator) *DecisionTreeNode
 	// If there are no more Attributes left to split on or nothing to
 	// split, return a DecisionTreeLeaf with the majority class
 	cols, rows := from.Size()
-	if cols == 2 || rows == 0 {
+	if cols == 1 || rows == 0 {
 		ret := &DecisionTreeNode{
 			LeafNode,
 			nil,
-- 
2.43.0


From 32ec6928edb00a6fedc0786c5351fc040329ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 085/106] fix: a CART tree whose root could not be split gives
 the same answer to every row

---
 trees/cart_classifier.go | 2 ++
 trees/cart_regressor.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 7cc8c5e..53d6b7c 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -209,6 +209,8 @@ func classifierBestSplit(tree CARTDecisionTreeClassifier, data [][]float64, y []
 	if err != nil {
 		return upperNode, err
 	}
+	// Both sides answer the same if no split is found
+	upperNode.RightLabel = upperNode.LeftLabel
 
 	bestGini = origGini
 
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index 518b03c..c7204c5 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -195,6 +195,8 @@ func regressorBestSplit(tree CARTDecisionTreeRegressor, data [][]float64, y []fl
 	if err != nil {
 		return upperNode, err
 	}
+	// Both sides answer the same if no split is found
+	upperNode.RightPred = upperNode.LeftPred
 
 	bestLoss = origLoss
 
-- 
2.43.0


From 8bbc6c99fdfc61a73584d72b8d71b2c6c39c5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 086/106] fix: fitting a CART tree without rows or numeric
 attributes is an error instead of a panic

---
 trees/cart_classifier.go | 7 +++++++
 trees/cart_regressor.go  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/trees/cart_classifier.go b/trees/cart_classifier.go
index 53d6b7c..abcf49f 100644
--- a/trees/cart_classifier.go
+++ b/trees/cart_classifier.go
@@ -181,6 +181,13 @@ func (tree *CARTDecisionTreeClassifier) Fit(X base.FixedDataGrid) error {
 		return err
 	}
 
+	if len(data) == 0 {
+		return errNoTrainingRows
+	}
+	if len(data[0]) == 0 {
+		return errors.New("need at least one numeric attribute")
+	}
+
 	emptyNode, err = classifierBestSplit(*tree, data, y, tree.labels, emptyNode, tree.criterion, tree.maxDepth, 0)
 
 	if err != nil {
diff --git a/trees/cart_regressor.go b/trees/cart_regressor.go
index c7204c5..8b2a41a 100644
--- a/trees/cart_regressor.go
+++ b/trees/cart_regressor.go
@@ -169,6 +169,13 @@ func (tree *CARTDecisionTreeRegressor) Fit(X base.FixedDataGrid) error {
 		return err
 	}
 
+	if len(data) == 0 {
+		return errNoTrainingRows
+	}
+	if len(data[0]) == 0 {
+		return errors.New("need at least one numeric attribute")
+	}
+
 	emptyNode, err = regressorBestSplit(*tree, data, y, emptyNode, tree.criterion, tree.maxDepth, 0)
 	if err != nil {
 		return err
-- 
2.43.0


From 4712129c609c7940b87ec3d9f899d9b88bee6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 087/106] fix: cluster maps are equal only if the clusters have
 the same points

---
 clustering/clustering.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustering/clustering.go b/clustering/clustering.go
index 3636d5b..c50ca80 100644
--- a/clustering/clustering.go
+++ b/clustering/clustering.go
@@ -80,6 +80,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	// Check that after transformation, key contains the same points
 	arraysEqual := func(a1, a2 []int) bool {
 
+		if len(a1) != len(a2) {
+			return false
+		}
+
 		cnt := make(map[int]bool)
 		for _, a := range a1 {
 			cnt[a] = true
@@ -96,7 +100,10 @@ func (ref ClusterMap) Equals(other ClusterMap) (bool, error) {
 	}
 	newMap := ClusterMap(make(map[int][]int))
 	for cOld := range other {
-		cNew := clusterIdMap[cOld]
+		cNew, ok := clusterIdMap[cOld]
+		if !ok && len(other[cOld]) == 0 {
+			continue // Empty clusters have no counterpart to be compared with
+		}
 		if !arraysEqual(ref[cNew], other[cOld]) {
 			return false, fmt.Errorf("Re-labelled cluster %d => %d doesn't contain the same points (%d, %d)", cOld, cNew, ref[cNew], other[cOld])
 		}
-- 
2.43.0


From 89e75503f4790a2cf351211b2923b337a0e18c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 088/106] fix: micro-precision counts predictions of classes
 that no reference row has

---
 evaluation/confusion.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index 497a660..4245ab0 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -48,6 +48,24 @@ func referenceClasses(c ConfusionMatrix) []string {
 	return ret
 }
 
+// allClasses returns the reference and the predicted classes of a
+// ConfusionMatrix in order.
+func allClasses(c ConfusionMatrix) []string {
+	seen := make(map[string]bool)
+	for k := range c {
+		seen[k] = true
+		for l := range c[k] {
+			seen[l] = true
+		}
+	}
+	ret := make([]string, 0, len(seen))
+	for k := range seen {
+		ret = append(ret, k)
+	}
+	sort.Strings(ret)
+	return ret
+}
+
 // GetTruePositives returns the number of times an entry is
 // predicted successfully in a given ConfusionMatrix.
 func GetTruePositives(class string, c ConfusionMatrix) float64 {
@@ -145,7 +163,7 @@ func GetAccuracy(c ConfusionMatrix) float64 {
 func GetMicroPrecision(c ConfusionMatrix) float64 {
 	truePositives := 0.0
 	falsePositives := 0.0
-	for k := range c {
+	for _, k := range allClasses(c) {
 		truePositives += GetTruePositives(k, c)
 		falsePositives += GetFalsePositives(k, c)
 	}
-- 
2.43.0


From 923bdbd12154c5db3f703756b7d73aef74b14402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 089/106] fix: a printed confusion matrix shows predictions of
 classes that no reference row has

---
 evaluation/confusion.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/evaluation/confusion.go b/evaluation/confusion.go
index 4245ab0..39a6b66 100644
--- a/evaluation/confusion.go
+++ b/evaluation/confusion.go
@@ -236,14 +236,15 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 	w.Init(&buffer, 0, 8, 0, '\t', 0)
 
 	ref := referenceClasses(c)
+	pred := allClasses(c)
 	fmt.Fprintf(w, "Reference Class\t")
-	for _, k := range ref {
+	for _, k := range pred {
 		fmt.Fprintf(w, "%s\t", k)
 	}
 	fmt.Fprintf(w, "\n")
 
 	fmt.Fprintf(w, "---------------\t")
-	for _, v := range ref {
+	for _, v := range pred {
 		for t := 0; t < len(v); t++ {
 			fmt.Fprintf(w, "-")
 		}
@@ -253,7 +254,7 @@ func ShowConfusionMatrix(c ConfusionMatrix) string {
 
 	for _, v := range ref {
 		fmt.Fprintf(w, "%s\t", v)
-		for _, v2 := range ref {
+		for _, v2 := range pred {
 			fmt.Fprintf(w, "%d\t", c[v][v2])
 		}
 		fmt.Fprintf(w, "\n")
-- 
2.43.0


From 38e455da45579c26b3903e326a06bb6d75eb1706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 090/106] fix: linear regression refuses a class attribute
 which is not numeric

---
 linear_models/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linear_models/linear_regression.go b/linear_models/linear_regression.go
index 987fe69..82a201c 100644
--- a/linear_models/linear_regression.go
+++ b/linear_models/linear_regression.go
@@ -37,6 +37,9 @@ func (lr *LinearRegression) Fit(inst base.FixedDataGrid) error {
 	if len(classAttrs) != 1 {
 		return fmt.Errorf("Only 1 class variable is permitted")
 	}
+	if _, ok := classAttrs[0].(*base.FloatAttribute); !ok {
+		return fmt.Errorf("%s is not a FloatAttribute", classAttrs[0].GetName())
+	}
 	classAttrSpecs := base.ResolveAttributes(inst, classAttrs)
 
 	// Retrieve relevant Attributes
-- 
2.43.0


From 22597682ba8b3d2479684bf3055ebfd2af2f0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 091/106] fix: binning puts values above the training range
 into the last bin

---
 filters/binning.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/binning.go b/filters/binning.go
index fb9ebf6..1c3ad9b 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -88,8 +88,11 @@ func (b *BinningFilter) Transform(a base.Attribute, n base.Attribute, field []by
 	// Casts to float64 to replicate a floating point precision error
 	delta := float64(maxVal-minVal) / float64(b.bins)
 	val := float64(af.GetFloatFromSysVal(field))
-	if val <= minVal {
+	if val <= minVal || delta == 0 {
 		disc = 0
+	} else if val >= maxVal {
+		// Also the place of values above those in the training instances
+		disc = b.bins
 	} else {
 		disc = int(math.Floor(float64(float64(val-minVal)/delta + 0.0001)))
 	}
-- 
2.43.0


From 067e5c28244f6994f11684ce46f397ac51f6763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 092/106] fix: bins and intervals keep apart when their values
 print the same

---
 filters/binning.go  |  9 +++++----
 filters/chimerge.go |  8 ++++++--
 filters/disc.go     | 23 +++++++++++++++++++++++
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/filters/binning.go b/filters/binning.go
index 1c3ad9b..4004fc2 100644
--- a/filters/binning.go
+++ b/filters/binning.go
@@ -111,10 +111,11 @@ func (b *BinningFilter) GetAttributesAfterFiltering() []base.FilteredAttribute {
 			maxVal := b.maxVals[a]
 			delta := float64(maxVal-minVal) / float64(b.bins)
 			retAttr.SetName(a.GetName())
-			for i := 0; i <= b.bins; i++ {
-				floatVal := float64(i)*delta + minVal
-				fmtStr := fmt.Sprintf("%%.%df", a.(*base.FloatAttribute).Precision)
-				binVal := fmt.Sprintf(fmtStr, floatVal)
+			floatVals := make([]float64, b.bins+1)
+			for i := range floatVals {
+				floatVals[i] = float64(i)*delta + minVal
+			}
+			for _, binVal := range distinctLabels(floatVals, a.(*base.FloatAttribute).Precision) {
 				retAttr.GetSysValFromString(binVal)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
diff --git a/filters/chimerge.go b/filters/chimerge.go
index df4e071..ab71d1f 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -151,8 +151,12 @@ func (c *ChiMergeFilter) GetAttributesAfterFiltering() []base.FilteredAttribute
 		if c.attrs[a] {
 			retAttr := new(base.CategoricalAttribute)
 			retAttr.SetName(a.GetName())
-			for _, k := range c.tables[a] {
-				retAttr.GetSysValFromString(fmt.Sprintf("%f", k.Value))
+			vals := make([]float64, len(c.tables[a]))
+			for j, k := range c.tables[a] {
+				vals[j] = k.Value
+			}
+			for _, label := range distinctLabels(vals, 6) {
+				retAttr.GetSysValFromString(label)
 			}
 			ret[i] = base.FilteredAttribute{a, retAttr}
 		} else {
diff --git a/filters/disc.go b/filters/disc.go
index 940829e..21729a8 100644
--- a/filters/disc.go
+++ b/filters/disc.go
@@ -3,6 +3,7 @@ package filters
 import (
 	"fmt"
 	"github.com/sjwhitworth/golearn/base"
+	"strconv"
 )
 
 type AbstractDiscretizeFilter struct {
@@ -60,3 +61,25 @@ func (d *AbstractDiscretizeFilter) getAttributeSpecs() []base.AttributeSpec {
 	}
 	return as
 }
+
+// distinctLabels formats different numbers with the given precision, or with
+// as much more as it takes to tell them apart.
+func distinctLabels(vals []float64, precision int) []string {
+	ret := make([]string, len(vals))
+	for extra := 0; ; extra++ {
+		prec := precision + extra
+		if extra > 16 {
+			prec = -1 // As many digits as there are
+		}
+		distinct := true
+		for i, v := range vals {
+			ret[i] = strconv.FormatFloat(v, 'f', prec, 64)
+			if i > 0 && v != vals[i-1] && ret[i] == ret[i-1] {
+				distinct = false
+			}
+		}
+		if distinct || prec < 0 {
+			return ret
+		}
+	}
+}
-- 
2.43.0


From b2946296aeeb515edd2c5bffc68b7c80a1614d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 093/106] fix: ChiMerge puts a value at the start of an
 interval into that interval

---
 filters/chimerge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/chimerge.go b/filters/chimerge.go
index ab71d1f..3043910 100644
--- a/filters/chimerge.go
+++ b/filters/chimerge.go
@@ -177,7 +177,7 @@ func (c *ChiMergeFilter) Transform(a base.Attribute, n base.Attribute, field []b
 	dis := 0
 	val := base.UnpackBytesToFloat(field)
 	for j, k := range table {
-		if k.Value < val {
+		if k.Value <= val {
 			dis = j
 			continue
 		}
-- 
2.43.0


From 44aa12028acce9316db7365a84d41dbcc0f1c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 094/106] fix: ChiMerge judges significance with one or two
 classes too

---
 filters/chimerge_funcs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filters/chimerge_funcs.go b/filters/chimerge_funcs.go
index b3e28af..583f5c7 100644
--- a/filters/chimerge_funcs.go
+++ b/filters/chimerge_funcs.go
@@ -51,6 +51,13 @@ func chiSquaredPdf(k float64, x float64) float64 {
 }
 
 func chiSquaredPercentile(k int, x float64) float64 {
+	if k <= 0 {
+		// There's only one class, so no difference to be significant
+		return 0
+	} else if k == 1 {
+		// The density isn't finite at zero, but there's a closed form
+		return math.Erf(math.Sqrt(x / 2))
+	}
 	// Implements Yahya et al.'s "A Numerical Procedure
 	//  for Computing Chi-Square Percentage Points"
 	// InterStat Journal 01/2007; April 25:page:1-8.
-- 
2.43.0


From d31bfd3f2e27c9400370704b465f9f01508b91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 095/106] fix: no threshold of a numeric attribute is passed
 over after equal values

---
 trees/entropy.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trees/entropy.go b/trees/entropy.go
index 3c775fe..7303187 100644
--- a/trees/entropy.go
+++ b/trees/entropy.go
@@ -131,11 +131,10 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 	}
 
 	// Consider each possible function
-	for i := 0; i < len(refs)-1; {
+	for i := 0; i < len(refs)-1; i++ {
 		val := refs[i].val + refs[i+1].val
 		val /= 2
 		if val == prevVal {
-			i++
 			continue
 		}
 		// refs is sorted, so we only need to update values that are
@@ -143,7 +142,6 @@ func getNumericAttributeEntropy(f base.FixedDataGrid, attr *base.FloatAttribute)
 		for j := prevInd; j < len(refs) && refs[j].val < val; j++ {
 			splitDist[0][refs[j].class]++
 			splitDist[1][refs[j].class]--
-			i++
 			prevInd++
 		}
 		prevVal = val
-- 
2.43.0


From 4a9b5eea3ccd4b4538bb6816979f14ba7aca3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 096/106] fix: the Gini index is computed from the class counts

---
 trees/gini.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trees/gini.go b/trees/gini.go
index ef36056..20e259c 100644
--- a/trees/gini.go
+++ b/trees/gini.go
@@ -76,18 +76,16 @@ func (g *GiniCoefficientRuleGenerator) GetSplitRuleFromSelection(consideredAttri
 
 // computeGini computes the Gini impurity measure
 func computeGini(s map[string]int) float64 {
-	// Compute probability map
-	p := make(map[string]float64)
+	// Count everything
+	total := 0
 	for i := range s {
-		if p[i] == 0 {
-			continue
-		}
-		p[i] = 1.0 / float64(p[i])
+		total += s[i]
 	}
-	// Compute overall sum
+	// Compute overall sum of squared probabilities
 	sum := 0.0
-	for i := range p {
-		sum += p[i] * p[i]
+	for _, i := range sortedClasses(s) {
+		p := float64(s[i]) / float64(total)
+		sum += p * p
 	}
 
 	return 1.0 - sum
-- 
2.43.0


From 233c0184054aa8a1cd9015f785a0ab7200b1ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 097/106] fix: the gain ratio is relative to the entropy of the
 split itself

---
 trees/gr.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/trees/gr.go b/trees/gr.go
index 46577f5..df3da58 100644
--- a/trees/gr.go
+++ b/trees/gr.go
@@ -56,14 +56,30 @@ func (r *InformationGainRatioRuleGenerator) GetSplitRuleFromSelection(considered
 		var informationGain float64
 		var localEntropy float64
 		var splitVal float64
+		var proposedClassDist map[string]map[string]int
 		if fAttr, ok := s.(*base.FloatAttribute); ok {
 			localEntropy, splitVal = getNumericAttributeEntropy(f, fAttr)
+			if math.IsInf(localEntropy, 1) {
+				// All the values are the same, can't split
+				continue
+			}
+			proposedClassDist = base.GetClassDistributionAfterThreshold(f, fAttr, splitVal)
 		} else {
-			proposedClassDist := base.GetClassDistributionAfterSplit(f, s)
+			proposedClassDist = base.GetClassDistributionAfterSplit(f, s)
 			localEntropy = getSplitEntropy(proposedClassDist)
 		}
 		informationGain = baseEntropy - localEntropy
-		informationGainRatio := informationGain / localEntropy
+		// The ratio is to the entropy of the split itself
+		splitSizes := make(map[string]int)
+		for v := range proposedClassDist {
+			for c := range proposedClassDist[v] {
+				splitSizes[v] += proposedClassDist[v][c]
+			}
+		}
+		informationGainRatio := 0.0
+		if len(splitSizes) > 1 {
+			informationGainRatio = informationGain / getBaseEntropy(splitSizes)
+		}
 		if informationGainRatio > maxRatio {
 			maxRatio = informationGainRatio
 			selectedAttribute = s
-- 
2.43.0


From 065e971e951aac6259eb0154cf8ed825a53b50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:53 +0000
Subject: [PATCH 098/106] fix: a linear classifier weighs negative feature
 values when it predicts

---
 linear_models/liblinear.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_models/liblinear.go b/linear_models/liblinear.go
index 47e7456..d13ff38 100644
--- a/linear_models/liblinear.go
+++ b/linear_models/liblinear.go
@@ -90,7 +90,7 @@ func Predict(model *Model, x []float64) float64 {
 func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	n_ele := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			n_ele++
 		}
 	}
@@ -99,7 +99,7 @@ func convert_vector(x []float64, bias float64) *C.struct_feature_node {
 	c_x := make([]C.struct_feature_node, n_ele)
 	j := 0
 	for i := 0; i < len(x); i++ {
-		if x[i] > 0 {
+		if x[i] != 0 {
 			c_x[j].index = C.int(i + 1)
 			c_x[j].value = C.double(x[i])
 			j++
-- 
2.43.0


From f0aeb58dd2e6996c5bc7af295d73de991f6da2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:53 +0000
Subject: [PATCH 099/106] fix: binary conversion maps every non-zero number to
 1

---
 filters/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/binary.go b/filters/binary.go
index 262fd13..cdbbc8d 100644
--- a/filters/binary.go
+++ b/filters/binary.go
@@ -93,7 +93,7 @@ func (b *BinaryConvertFilter) Transform(a base.Attribute, n base.Attribute, attr
 	} else if _, ok := a.(*base.FloatAttribute); ok {
 		// Float: check for non-zero
 		val := base.UnpackBytesToFloat(attrBytes)
-		if val > 0 {
+		if val != 0 {
 			ret[0] = 1
 		} else {
 			ret[0] = 0
-- 
2.43.0


From f3e91806cb82f28eee30e2539517fb6cb148488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:53 +0000
Subject: [PATCH 100/106] fix: a neural network predicts categories from its
 output neurons, also with hidden layers or two values

---
 neural/layered.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index c62ce9b..1e693f5 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -148,7 +148,7 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				ret.Set(as, rc, base.PackFloatToBytes(a.At(cIndex, 0)))
 			}
 		} else {
-			maxIndex := 0
+			maxIndex := m.classAttrOffset
 			maxVal := 0.0
 			for i := m.classAttrOffset; i < m.classAttrOffset+m.classAttrCount; i++ {
 				val := a.At(i, 0)
@@ -158,6 +158,12 @@ func (m *MultiLayerNet) Predict(X base.FixedDataGrid) base.FixedDataGrid {
 				}
 			}
 			maxIndex -= m.classAttrOffset
+			if m.classAttrCount == 1 && maxVal >= 0.5 {
+				// A class with two values has a single neuron
+				if ac, ok := outputAttrs[0].(*base.CategoricalAttribute); ok && len(ac.GetValues()) > 1 {
+					maxIndex = 1
+				}
+			}
 			ret.Set(outputAs[0], rc, base.PackU64ToBytes(uint64(maxIndex)))
 		}
 		return true, nil
@@ -209,13 +215,13 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// Enumerate the Attributes
 	trainingAttrs := make(map[base.Attribute]int)
 	classAttrs := make(map[base.Attribute]int)
-	attrCounter := 0
+	attrCounter := -1
 	for i, a := range inputAttrsVec {
 		attrCounter = i
 		m.attrs[a] = attrCounter
 		trainingAttrs[a] = attrCounter
 	}
-	m.classAttrOffset = attrCounter + 1
+	m.classAttrOffset = attrCounter + 1 + hiddenSize
 	for _, a := range classAttrsVec {
 		attrCounter++
 		m.attrs[a] = attrCounter + hiddenSize
-- 
2.43.0


From 03d990df24f96d99c339aeaa6ee542399c2af4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:53 +0000
Subject: [PATCH 101/106] fix: the error of a training epoch is averaged over
 all rows, whatever order they come in

---
 neural/layered.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neural/layered.go b/neural/layered.go
index 1e693f5..d35e0c4 100644
--- a/neural/layered.go
+++ b/neural/layered.go
@@ -312,10 +312,10 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 	// until convergence (what's that)
 	for iteration := 0; iteration < m.MaxIterations; iteration++ {
 		totalError := 0.0
-		maxRow := 0
+		rows := 0
 		err := insts.MapOverRows(trainAs, func(row [][]byte, i int) (bool, error) {
 
-			maxRow = i
+			rows++
 			// Clear vectors
 			for i := 0; i < size; i++ {
 				trainVec.Set(i, 0, 0.0)
@@ -363,7 +363,7 @@ func (m *MultiLayerNet) Fit(X base.FixedDataGrid) {
 			panic(err)
 		}
 
-		totalError /= float64(maxRow)
+		totalError /= float64(rows)
 		// If we've converged, no need to carry on
 		if totalError < m.Convergence {
 			break
-- 
2.43.0


From 2977aa12f091e88310af6d7b6a03274e6ab46b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:58 +0000
Subject: [PATCH 102/106] fix: nearest neighbours never measure distances by
 the class

---
 knn/knn.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/knn/knn.go b/knn/knn.go
index f4801cf..6fda83f 100644
--- a/knn/knn.go
+++ b/knn/knn.go
@@ -140,17 +140,19 @@ func (KNN *KNNClassifier) Predict(what base.FixedDataGrid) (base.FixedDataGrid,
 		}
 	}
 
-	// Remove the Attributes which aren't numeric
+	// Remove the Attributes which aren't numeric, and those we are trying
+	// to predict
+	classAttrs := KNN.TrainingData.AllClassAttributes()
 	allNumericAttrs := make([]base.Attribute, 0)
-	for _, a := range allAttrs {
+	for _, a := range base.AttributeDifference(allAttrs, classAttrs) {
 		if fAttr, ok := a.(*base.FloatAttribute); ok {
 			allNumericAttrs = append(allNumericAttrs, fAttr)
 		}
 	}
 
-	// If every Attribute is a FloatAttribute, then we remove the last one
-	// because that is the Attribute we are trying to predict.
-	if len(allNumericAttrs) == len(allAttrs) {
+	// If there are none and every Attribute is a FloatAttribute, then we
+	// remove the last one because that is the Attribute we are trying to predict.
+	if len(classAttrs) == 0 && len(allNumericAttrs) == len(allAttrs) {
 		allNumericAttrs = allNumericAttrs[:len(allNumericAttrs)-1]
 	}
 
-- 
2.43.0


From 51a039bd08be0f1bab2b4a5634f0b49d77eedf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:21 +0000
Subject: [PATCH 103/106] fix: the averaged perceptron learns from the classes
 of its training rows

---
 perceptron/average.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index c78193f..22016da 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -29,26 +29,28 @@ type instances []instance
 func (p *AveragePerceptron) updateWeights(features []float64, correction float64) {
 
 	for i, _ := range p.weights {
-		fv := &features[i]
-		if fv != nil {
-			update := p.learningRate * correction * *fv
-			p.weights[i] = update
-			p.edges[i]++
-		}
+		p.weights[i] += p.learningRate * correction * features[i]
 	}
+}
 
-	p.average()
+// accumulate adds the current weights to those which are averaged.
+func (p *AveragePerceptron) accumulate() {
+
+	for i, wv := range p.weights {
+		p.edges[i] += wv
+	}
+	p.count++
 }
 
+// average replaces the weights by the average of those accumulated.
 func (p *AveragePerceptron) average() {
 
-	for i, fcount := range p.edges {
-		wv := &p.weights[i]
-		if wv != nil {
-			p.weights[i] = (p.count**wv + fcount) / (fcount + 1)
-		}
+	if p.count == 0 {
+		return
+	}
+	for i, sum := range p.edges {
+		p.weights[i] = sum / p.count
 	}
-	p.count++
 }
 
 func (p *AveragePerceptron) score(datum instance) float64 {
@@ -77,16 +79,22 @@ func (p *AveragePerceptron) Fit(trainingData base.FixedDataGrid) {
 	learning := true
 
 	data := processData(trainingData)
+	classAttr := trainingData.AllClassAttributes()[0]
+	positive := classAttr.GetStringFromSysVal(base.PackU64ToBytes(1))
 	for learning {
 		for _, datum := range data {
 			response := p.score(datum)
-			expected := 0.0
+			expected := -1.0
+			if datum.class == positive {
+				expected = 1.0
+			}
 			correction := expected - response
 
 			if expected != response {
 				p.updateWeights(datum.features, correction)
 				p.trainError += math.Abs(correction)
 			}
+			p.accumulate()
 		}
 
 		epochs++
-- 
2.43.0


From b1e7fb48474a86c632e82493b59763356f80b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:21 +0000
Subject: [PATCH 104/106] fix: a perceptron's threshold and learning rate are
 the ones it was made with

---
 perceptron/average.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/perceptron/average.go b/perceptron/average.go
index 22016da..be01b83 100644
--- a/perceptron/average.go
+++ b/perceptron/average.go
@@ -206,7 +206,13 @@ func NewAveragePerceptron(features int, learningRate float64, startingThreshold
 	weights := make([]float64, features)
 	edges := make([]float64, features)
 
-	p := AveragePerceptron{nil, weights, edges, startingThreshold, learningRate, trainError, 0.0, false, 0}
+	p := AveragePerceptron{
+		weights:      weights,
+		edges:        edges,
+		threshold:    startingThreshold,
+		learningRate: learningRate,
+		trainError:   trainError,
+	}
 
 	return &p
 }
-- 
2.43.0


From df8f4d472441ad0e39d97aed4f4af6bf8e2c66f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 105/106] fix: numbers of a data frame are converted exactly

---
 base/dataframe_go.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index b5a186f..40603ef 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"fmt"
 	"reflect"
 	"strconv"
 
@@ -53,9 +52,9 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 			case int64:
 				val = strconv.FormatInt(v, 10)
 			case float64:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
-				val = fmt.Sprintf("%f", v)
+				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0


From be6116be41422b1f8e1e45fbc630a51aa9992752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:44 +0000
Subject: [PATCH 106/106] fix: data frames without rows or with missing numbers
 are converted

---
 base/dataframe_go.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base/dataframe_go.go b/base/dataframe_go.go
index 40603ef..946eb47 100644
--- a/base/dataframe_go.go
+++ b/base/dataframe_go.go
@@ -1,7 +1,6 @@
 package base
 
 import (
-	"reflect"
 	"strconv"
 
 	"github.com/rocketlaunchr/dataframe-go"
@@ -19,7 +18,11 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 
 	for i := range names {
 		col := df.Series[i]
-		if reflect.TypeOf(col.Value(0)).Kind() == reflect.String {
+		isText := col.Type() == "string"
+		if !isText && df.NRows() > 0 {
+			_, isText = col.Value(0).(string)
+		}
+		if isText {
 			attrs[i] = new(CategoricalAttribute)
 			attrs[i].SetName(names[i])
 		} else {
@@ -55,6 +58,11 @@ func ConvertDataFrameToInstances(df *dataframe.DataFrame, classAttrIndex int) Fi
 				val = strconv.FormatFloat(v, 'g', -1, 64)
 			case float32:
 				val = strconv.FormatFloat(float64(v), 'g', -1, 64)
+			case nil:
+				// A missing number is stored as one which isn't a number
+				if _, ok := newSpecs[j].GetAttribute().(*FloatAttribute); ok {
+					val = "NaN"
+				}
 			}
 
 			newInst.Set(newSpecs[j], i, newSpecs[j].GetAttribute().GetSysValFromString(val))
-- 
2.43.0

