From 646a27e5c3fb5d1b84bdac0138c6941cf036fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 01/17] fix: reject unknown Java types in primitive arrays and
 instance fields instead of panicking

---
 internal/core/base_parsers.go | 6 ++++++
 internal/core/types.go        | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..84fe8ec 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -428,6 +428,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.isKnown() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
@@ -516,6 +519,9 @@ func (parser *RecordParser) ParseHprofGcPrimArrayDumpHeader() (HprofGcPrimArrayD
 	if err != nil {
 		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: %w", err)
 	}
+	if !elementType.isKnown() {
+		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: unexpected Java type: %v", byte(elementType))
+	}
 	return HprofGcPrimArrayDumpHeader{
 		ArrayObjectId:          arrayObjectId,
 		StackTraceSerialNumber: stackTraceSerialNumber,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..18a217c 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,13 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// isKnown reports whether the type is one
+// of the types defined by the format.
+func (j JavaType) isKnown() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
-- 
2.43.0


From 09fafb3123f162fcc0142c3a117cc6ec5f093a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 02/17] fix: report a UTF8 record shorter than an identifier
 instead of allocating 4 GiB for it

---
 internal/core/base_parsers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 84fe8ec..8453e2b 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,6 +45,9 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record of %v bytes is too short", remaining)
+	}
 	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
 	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
 	if err != nil {
-- 
2.43.0


From 88ab521476312e215e3554e7875ac433bd531b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 03/17] fix: skip unused GC roots as a whole and reject unknown
 sub-records instead of losing sync

---
 internal/core/tags.go   |  8 ++++++++
 internal/dump/parser.go | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..7442430 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -44,6 +44,14 @@ const (
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
 )
 
+// GC roots that are not used but have to be skipped as a whole.
+const (
+	HprofGcRootUnknownType     SubRecordType = 0xff
+	HprofGcRootNativeStackType SubRecordType = 0x04
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
+)
+
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
 const (
 	HprofHeapDumpEndSubRecord     SubRecordType = 0x2c
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..afd46c4 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -208,6 +208,20 @@ func (parser *Parser) ParseHeapDump() error {
 					if err := skip(recordsSize, bufferedHeapDump); err != nil {
 						return fmt.Errorf("error discarding records of HprofGcPrimArrayDump: %w", err)
 					}
+				case core.HprofGcRootUnknownType, core.HprofGcRootMonitorUsedType:
+					// object id
+					n := int(fileHeader.IdentifierSize)
+					if err := skip(n, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error skipping sub-record %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.pos += n
+				case core.HprofGcRootNativeStackType, core.HprofGcRootThreadBlockType:
+					// object id and thread serial number
+					n := int(fileHeader.IdentifierSize) + 4
+					if err := skip(n, bufferedHeapDump); err != nil {
+						return fmt.Errorf("error skipping sub-record %v: %w", subRecordHeader.SubRecordType, err)
+					}
+					parser.pos += n
 				case core.HprofHeapDumpEndSubRecord:
 					if err := unreadByte(bufferedHeapDump); err != nil {
 						return fmt.Errorf("error unreading byte at HprofHeapDumpEndSubRecord: %w", err)
@@ -220,6 +234,8 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", byte(subRecordHeader.SubRecordType))
 				}
 			}
 		case core.HprofHeapDumpEndTag:
-- 
2.43.0


From 12a5ab100f8f7115c793f47549b4293504e10ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 04/17] fix: report failures of writing or closing the index
 files

---
 internal/dump/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index afd46c4..d230cc2 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,12 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		// closing writes the last batch of the index
+		if closeErr := parser.bigRecordsWriteStorage.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("error writing index: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 38ee20666824c103e04062506e13821e9cb0f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 05/17] fix: read object array elements of dumps with 4-byte
 identifiers

---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..fe71010 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From e0a2dacc25a137fcd10fea57b8adcf9b67e1c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 06/17] fix: compute the dump timestamp without overflowing
 time.Duration

---
 internal/core/file_header_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/file_header_parser.go b/internal/core/file_header_parser.go
index 93e6db3..f850847 100644
--- a/internal/core/file_header_parser.go
+++ b/internal/core/file_header_parser.go
@@ -37,7 +37,7 @@ func ParseFileHeader(heapDump io.Reader) (FileHeader, error) {
 	milli := int64(high)
 	milli <<= 32
 	milli += int64(low)
-	timestamp := time.Unix(0, 0).Add(time.Duration(milli) * time.Millisecond)
+	timestamp := time.UnixMilli(milli)
 	return FileHeader{
 		Header:         header,
 		IdentifierSize: identifiersSize,
-- 
2.43.0


From 12b6fe0620ed04a5e08390c80587e128d5323287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 07/17] fix: reject classes that are their own superclass
 instead of recursing forever

---
 internal/java/heap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index fe71010..0a00f81 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -101,6 +101,16 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+// parseClass is ParseClass that keeps track of the subclasses
+// it has seen to reject classes that are their own superclass.
+func (h *Heap) parseClass(classId core.Identifier, seen map[core.Identifier]bool) (Class, error) {
+	if seen[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	seen[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -145,7 +155,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, seen)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From 13743a382bb2864cd3015964d2c801123fa7140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 08/17] fix: decode java.lang.String by its coder instead of
 taking the raw bytes

---
 internal/java/heap.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 0a00f81..c406e25 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,8 +11,10 @@ package java
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -72,7 +74,11 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					// strings without `coder` have Latin-1 content
+					if coder, err := javaString.GetFieldValueByName("coder"); err == nil && coder.Value.Value == utf16Coder {
+						return decodeUtf16(byteArr), nil
+					}
+					return decodeLatin1(byteArr), nil
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -83,6 +89,28 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// utf16Coder is the value of the field `coder` of java.lang.String
+// that has two bytes per character.
+const utf16Coder = int8(1)
+
+func decodeLatin1(content []byte) string {
+	runes := make([]rune, len(content))
+	for i, b := range content {
+		runes[i] = rune(b)
+	}
+	return string(runes)
+}
+
+// decodeUtf16 expects the native byte order of the platforms
+// JVM usually runs on which is little-endian.
+func decodeUtf16(content []byte) string {
+	chars := make([]uint16, len(content)/2)
+	for i := range chars {
+		chars[i] = binary.LittleEndian.Uint16(content[2*i:])
+	}
+	return string(utf16.Decode(chars))
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From d18492d04e3b579d013b69c65e59751383da40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 09/17] fix: keep parentheses inside class names of signatures

---
 internal/format/format.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 8f1dba7..b443575 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -36,10 +36,14 @@ func Signature(signature string) (string, string) {
 	for _, s := range signature {
 		switch s {
 		case '(':
-			continue
+			if !inClassName {
+				continue
+			}
 		case ')':
-			activeLen = new(int)
-			continue
+			if !inClassName {
+				activeLen = new(int)
+				continue
+			}
 		case '[':
 			dimCount++
 			continue
-- 
2.43.0


From 5001bfbbfd5a916ddddea415f1b0175e9e073178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 10/17] fix: order equally named objects of equal size or count
 deterministically

---
 internal/output/objects.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..ada14d8 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,6 +95,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
@@ -105,6 +108,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
-- 
2.43.0


From 60f6040f6b01a1c77ab15cbb2551cd2f9c8137cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 11/17] fix: don't divide by zero when all objects are empty

---
 internal/output/objects.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index ada14d8..106bfb2 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -119,8 +119,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -129,6 +129,13 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From 2310b2aa3ef99c871c2ee32edea6ec1fd84ace1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 12/17] fix: show class literals of array types among local
 variables

---
 internal/output/threads.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..e0987ce 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,6 +55,10 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	if class := strings.TrimPrefix(signature, "class "); class != signature && strings.HasPrefix(class, "[") {
+		arg, _ := format.Signature(class)
+		return "class " + arg
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-- 
2.43.0


From 3d28f4724c353a491844baeb41e2cf8e7f8fe945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 13/17] fix: keep the progress bar within its bounds for empty
 and growing files

---
 internal/cmd/interactive_print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..4f7aff3 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,7 +37,11 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		progress := 100.0
+		// the size of the file may be unknown, or the file may still be growing
+		if position := positionFn(); position < max {
+			progress = 100 * float64(position) / float64(max)
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From 6bcba7fa147ef284cb11ba8ca09e7dfeb7253e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:25 +0000
Subject: [PATCH 14/17] fix: read all properties of a bucket, not only the
 first

---
 internal/summary/summary.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..a1c9388 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -136,8 +136,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
+	visited := make(map[core.Identifier]bool)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		// nodes of the same bucket are chained
+		for nodeObjectId != 0 {
+			if visited[nodeObjectId] {
+				return nil, fmt.Errorf("properties table visits node %v twice", nodeObjectId)
+			}
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
@@ -159,6 +165,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 				return nil, err
 			}
 			resultProps[keyString] = valString
+			next, err := node.GetFieldValueByName("next")
+			if err != nil {
+				return nil, err
+			}
+			nodeObjectId, err = next.Value.ToObject()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 	return Properties(resultProps), nil
-- 
2.43.0


From 43a190212188f3249327c7a6832237363c422e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 15/17] fix: never leave an incomplete index behind a failed or
 interrupted run

---
 internal/cmd/subcommands.go | 44 +++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..79355a0 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -18,6 +19,7 @@ const (
 
 const (
 	storageDirSuffix           = ".db/"
+	storageTempDirPattern      = ".db.*.tmp"
 	instanceDumpIndexFileName  = "instance-dump.idx.bin"
 	objArrayDumpIndexFileName  = "obj-array-dump.idx.bin"
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
@@ -182,28 +184,41 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
+	if _, err := os.Stat(hprofFileName + storageDirSuffix); err == nil {
+		return nil
+	}
+	// The index is built aside and renamed when it is complete, so that a failed
+	// or interrupted run does not leave an incomplete one behind.
+	storageDir, err := os.MkdirTemp(filepath.Dir(hprofFileName), filepath.Base(hprofFileName)+storageTempDirPattern)
+	if err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	defer os.RemoveAll(storageDir)
+	if err := createIndex(hprof, storageDir+"/", nonInteractive); err != nil {
+		return err
+	}
+	if err := os.Rename(storageDir, filepath.Clean(hprofFileName+storageDirSuffix)); err != nil && !os.IsExist(err) {
 		return fmt.Errorf("can't create index: %w", err)
 	}
+	return nil
+}
 
+func createIndex(hprof *os.File, storageDir string, nonInteractive bool) error {
 	stat, err := hprof.Stat()
 	if err != nil {
 		return fmt.Errorf("can't get file stats: %w", err)
 	}
 
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := os.OpenFile(storageDir+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := os.OpenFile(storageDir+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := os.OpenFile(storageDir+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -211,12 +226,13 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
 	cancel := interactive(progressBar(int(stat.Size()), parser.GetPosition, "Parsing"), nonInteractive)
-	if err := parser.ParseHeapDump(); err != nil {
+	err = parser.ParseHeapDump()
+	cancel()
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
-	cancel()
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := os.OpenFile(storageDir+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -224,7 +240,10 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
+	metaFile, err := os.OpenFile(storageDir+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -232,6 +251,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 9605af37298ca847a2449f05d23a8b08341a01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 16/17] fix: report when a text report cannot be written whole

---
 internal/cmd/subcommands.go | 18 ++++++------------
 internal/output/objects.go  | 13 +++++++++----
 internal/output/summary.go  | 13 +++++++++----
 internal/output/threads.go  | 26 ++++++++++++++++----------
 4 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 79355a0..5e78728 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -65,11 +65,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			return output.ThreadsPlain(threadDump, localVars, os.Stdout)
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		return output.ThreadsPlainColor(threadDump, localVars)
 	}
 	if outputType == Html {
 		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
@@ -115,11 +113,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			return output.SummaryPlain(s, os.Stdout)
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		return output.SummaryPlainColor(s)
 	}
 	if outputType == Html {
 		return output.SummaryHtml(s, os.Stdout)
@@ -165,11 +161,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			return output.ObjectsPlain(obj, os.Stdout)
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		return output.ObjectsPlainColor(obj)
 	}
 	if outputType == Html {
 		return output.ObjectsHtml(obj, os.Stdout)
diff --git a/internal/output/objects.go b/internal/output/objects.go
index 106bfb2..a53c99b 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 	"strconv"
 
@@ -32,15 +33,19 @@ type printItem struct {
 
 // ObjectsPlain print the result of objects command
 // without colors
-func ObjectsPlain(o objects.Objects, destination io.Writer) {
+func ObjectsPlain(o objects.Objects, destination io.Writer) error {
 	id := func(s string) string { return s }
-	print(o, id, id, id, id, destination)
+	text := bufio.NewWriter(destination)
+	print(o, id, id, id, id, text)
+	return text.Flush()
 }
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects) error {
+	text := bufio.NewWriter(os.Stdout)
+	print(o, Bold, Cyan, Yellow, Blue, text)
+	return text.Flush()
 }
 
 func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..dee6d1b 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
@@ -16,15 +17,19 @@ import (
 
 // SummaryPlain prints given Properties
 // in beautiful manner
-func SummaryPlain(s summary.Summary, destination io.Writer) {
+func SummaryPlain(s summary.Summary, destination io.Writer) error {
 	identity := func(s string) string { return s }
-	printSummary(s, identity, identity, identity, destination)
+	text := bufio.NewWriter(destination)
+	printSummary(s, identity, identity, identity, text)
+	return text.Flush()
 }
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary) error {
+	text := bufio.NewWriter(os.Stdout)
+	printSummary(s, Blue, Bold, Cyan, text)
+	return text.Flush()
 }
 
 func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index e0987ce..7fab8f3 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -1,11 +1,13 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
 	"html/template"
 	"io"
+	"os"
 	"sort"
 	"strings"
 
@@ -16,20 +18,22 @@ import (
 
 // ThreadsPlain prints given thread dump
 // in beautiful manner
-func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
+func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) error {
+	text := bufio.NewWriter(destination)
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Fprintln(destination, createPrettyThread(stackTrace))
+		fmt.Fprintln(text, createPrettyThread(stackTrace))
 		for _, frame := range stackTrace.Frames {
-			fmt.Fprintf(destination, "    %s\n", createPrettyFrame(frame))
+			fmt.Fprintf(text, "    %s\n", createPrettyFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
-					fmt.Fprintf(destination, "        local %s\n", createPrettyStackVariable(local))
+					fmt.Fprintf(text, "        local %s\n", createPrettyStackVariable(local))
 				}
 			}
 		}
-		fmt.Fprintln(destination)
+		fmt.Fprintln(text)
 	}
+	return text.Flush()
 }
 
 func createPrettyThread(stackTrace threads.StackTrace) string {
@@ -89,21 +93,23 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) error {
+	text := bufio.NewWriter(os.Stdout)
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(text, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(text, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(text, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(text)
 	}
+	return text.Flush()
 }
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
-- 
2.43.0


From 46cc663525832a655238751558c4b13f27cc356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 17/17] fix: build the index beside the dump when its path goes
 through a symbolic link and ..

---
 internal/cmd/subcommands.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 5e78728..526695b 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -183,7 +184,12 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	// The index is built aside and renamed when it is complete, so that a failed
 	// or interrupted run does not leave an incomplete one behind.
-	storageDir, err := os.MkdirTemp(filepath.Dir(hprofFileName), filepath.Base(hprofFileName)+storageTempDirPattern)
+	// The path is kept as it is written: "link/.." need not be the directory of link.
+	dir, base := filepath.Split(hprofFileName)
+	if dir == "" {
+		dir = "."
+	}
+	storageDir, err := os.MkdirTemp(dir, base+storageTempDirPattern)
 	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
@@ -191,7 +197,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := createIndex(hprof, storageDir+"/", nonInteractive); err != nil {
 		return err
 	}
-	if err := os.Rename(storageDir, filepath.Clean(hprofFileName+storageDirSuffix)); err != nil && !os.IsExist(err) {
+	if err := os.Rename(storageDir, strings.TrimSuffix(hprofFileName+storageDirSuffix, "/")); err != nil && !os.IsExist(err) {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 	return nil
-- 
2.43.0

