From 0f40d0ea7d7305f112140fa86a63cc436f8bd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 01/41] fix: read objects and cross-reference data with a
 tokenizer

Object, dictionary and stream extents were found by searching for keywords
such as endobj, stream and >>, which also occur in strings and stream data;
cross-reference tables were cut off at 10000 bytes, cross-reference streams
needed /FlateDecode and their dictionary within 500 bytes, freed objects and
objects that moved between direct and compressed storage kept their old
entries, object streams were looked up by the first textual match, %%EOF in
content counted as a revision, byte-perfect mode lost compressed objects, and
decryption treated a whole dictionary as one ciphertext.
---
 core/parse/api.go              |  53 ++--
 core/parse/decrypt_object.go   |  64 ++++
 core/parse/document_parser.go  | 271 ++++------------
 core/parse/get_object.go       | 200 +++---------
 core/parse/incremental.go      | 363 +++++++++-------------
 core/parse/length.go           |  39 +++
 core/parse/object_stream.go    | 395 ++++-------------------
 core/parse/parser.go           | 246 +++++----------
 core/parse/xref_stream.go      | 189 ++---------
 core/parse/xref_stream_data.go | 228 ++++++++++++++
 core/parse/xref_table.go       |  94 ++++++
 internal/pdfscan/scan.go       | 553 +++++++++++++++++++++++++++++++++
 12 files changed, 1428 insertions(+), 1267 deletions(-)
 create mode 100644 core/parse/decrypt_object.go
 create mode 100644 core/parse/length.go
 create mode 100644 core/parse/xref_stream_data.go
 create mode 100644 core/parse/xref_table.go
 create mode 100644 internal/pdfscan/scan.go

diff --git a/core/parse/api.go b/core/parse/api.go
index 5e78d64..4f1528c 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -143,35 +143,8 @@ func (p *PDF) parseBytePerfect() error {
 	}
 	p.doc = doc
 
-	// Build unified xref from document revisions
-	for _, rev := range doc.Revisions {
-		for objNum, obj := range rev.Objects {
-			p.xref.Objects[objNum] = &ObjectRef{
-				Number:     obj.Number,
-				Generation: obj.Generation,
-				Offset:     obj.Offset,
-				InStream:   false, // Raw objects are always direct in this mode
-			}
-		}
-		if rev.Trailer != nil && rev.Trailer.Size > p.xref.Size {
-			p.xref.Size = rev.Trailer.Size
-		}
-	}
-
-	// Build trailer info from last revision
-	if len(doc.Revisions) > 0 {
-		lastRev := doc.Revisions[len(doc.Revisions)-1]
-		if lastRev.Trailer != nil {
-			p.trailer = &TrailerInfo{
-				Size:       lastRev.Trailer.Size,
-				RootRef:    lastRev.Trailer.Root,
-				InfoRef:    lastRev.Trailer.Info,
-				EncryptRef: lastRev.Trailer.Encrypt,
-			}
-		}
-	}
-
-	return nil
+	// The cross-reference view is the same as without raw bytes
+	return p.parseStandard()
 }
 
 // parseStandard parses for object access (not byte-perfect)
@@ -206,8 +179,9 @@ func (p *PDF) parseStandard() error {
 
 	for objNum, offset := range mergedObjs {
 		p.xref.Objects[objNum] = &ObjectRef{
-			Number: objNum,
-			Offset: offset,
+			Number:     objNum,
+			Generation: incParser.mergedGens[objNum],
+			Offset:     offset,
 		}
 	}
 
@@ -288,11 +262,24 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 
 	if ref.InStream {
 		// Object is in an object stream - extract it
-		return GetObjectFromStream(p.raw, objNum, ref.StreamObjNum, ref.StreamIndex, p.encryption, p.opts.Verbose)
+		container, ok := p.xref.Objects[ref.StreamObjNum]
+		if !ok || container.InStream {
+			return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object stream %d not found", ref.StreamObjNum).WithContext("object_number", objNum)
+		}
+		return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose, p.resolveLength)
 	}
 
 	// Direct object - get from byte offset
-	return GetDirectObject(p.raw, objNum, ref.Offset, p.encryption, p.opts.Verbose)
+	return getDirectObject(p.raw, objNum, ref.Offset, p.encryption, p.opts.Verbose, p.resolveLength)
+}
+
+// resolveLength returns the value of an indirect stream length
+func (p *PDF) resolveLength(objNum int) (int, bool) {
+	ref, ok := p.xref.Objects[objNum]
+	if !ok || ref.InStream {
+		return 0, false
+	}
+	return readIntObject(p.raw, objNum, ref.Offset)
 }
 
 // GetRawObject returns a PDFRawObject with full byte preservation.
diff --git a/core/parse/decrypt_object.go b/core/parse/decrypt_object.go
new file mode 100644
index 0000000..b0aceb5
--- /dev/null
+++ b/core/parse/decrypt_object.go
@@ -0,0 +1,64 @@
+package parse
+
+import (
+	"bytes"
+	"log"
+
+	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// decryptContent returns the content of an indirect object with its strings
+// and its stream data decrypted. Cross-reference streams and the encryption
+// dictionary itself are never encrypted.
+func decryptContent(objData []byte, span pdfscan.ObjectSpan, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) []byte {
+	content := objData[span.ContentStart:span.ContentEnd]
+	if !span.IsStream {
+		if isEncryptionDict(content) {
+			return content
+		}
+		return decryptStrings(content, objNum, genNum, encryptInfo)
+	}
+
+	dict := objData[span.DictStart:span.DictEnd]
+	if bytes.Equal(pdfscan.DictValue(dict, "Type"), []byte("/XRef")) {
+		return content
+	}
+	streamData := objData[span.StreamStart:span.StreamEnd]
+	if encryptInfo.V >= 4 && !encryptInfo.EncryptMetadata && bytes.Equal(pdfscan.DictValue(dict, "Type"), []byte("/Metadata")) {
+		return content
+	}
+	decrypted, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+	if err != nil {
+		if verbose {
+			log.Printf("Decryption of stream %d failed: %v", objNum, err)
+		}
+		return content
+	}
+	if verbose {
+		log.Printf("Decrypted stream %d: %d -> %d bytes", objNum, len(streamData), len(decrypted))
+	}
+
+	dict = pdfscan.SetDictLength(decryptStrings(dict, objNum, genNum, encryptInfo), len(decrypted))
+	result := make([]byte, 0, len(dict)+len(decrypted)+24)
+	result = append(result, dict...)
+	result = append(result, "\nstream\n"...)
+	result = append(result, decrypted...)
+	return append(result, "\nendstream"...)
+}
+
+// isEncryptionDict reports whether the value is a standard security handler
+// dictionary.
+func isEncryptionDict(value []byte) bool {
+	return bytes.Equal(pdfscan.DictValue(value, "Filter"), []byte("/Standard")) &&
+		pdfscan.DictValue(value, "O") != nil && pdfscan.DictValue(value, "U") != nil
+}
+
+// decryptStrings decrypts every string of a value.
+func decryptStrings(value []byte, objNum, genNum int, encryptInfo *types.PDFEncryption) []byte {
+	return pdfscan.MapStrings(value, func(data []byte) ([]byte, bool) {
+		plain, err := encrypt.DecryptObject(data, objNum, genNum, encryptInfo)
+		return plain, err == nil
+	})
+}
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..100d63b 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // ParsePDFDocument parses a complete PDF preserving all raw bytes for reconstruction
@@ -124,19 +126,10 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	rev.EndOffset = int64(endOffset)
 
 	// Find startxref before this %%EOF
-	searchStart := eofOffset - 100
-	if searchStart < 0 {
-		searchStart = 0
-	}
-
-	searchSection := string(pdfBytes[searchStart:eofOffset])
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	startXRef, ok := startXRefBefore(pdfBytes, eofOffset)
+	if !ok {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
-
-	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
 
 	// Parse xref data
@@ -167,6 +160,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	}
 
 	// Parse objects in this revision's xref
+	resolve := newLengthResolver(pdfBytes)
 	for _, entry := range xref.Entries {
 		if !entry.InUse || entry.InObjectStream {
 			continue
@@ -175,7 +169,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 		// Check if this object belongs to this revision
 		// (its offset is after previous revision's end)
 		if entry.Offset >= prevEnd && entry.Offset < int64(eofOffset) {
-			obj, err := ParseRawObject(pdfBytes, entry.ObjectNum, entry.Generation, entry.Offset)
+			obj, err := parseRawObject(pdfBytes, entry.ObjectNum, entry.Generation, entry.Offset, resolve)
 			if err != nil {
 				continue
 			}
@@ -214,65 +208,12 @@ func ParseXRefDataRaw(pdfBytes []byte, startXRef int64) (*XRefData, error) {
 func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRefData, error) {
 	section := pdfBytes[startXRef:]
 
-	// Find end of xref table (at "trailer" keyword)
-	trailerIdx := bytes.Index(section, []byte("trailer"))
-	if trailerIdx == -1 {
-		// No trailer found - look for end of entries
-		trailerIdx = min(10000, len(section))
-	}
-
-	xref.RawBytes = section[:trailerIdx]
-
-	// Parse entries
-	lines := bytes.Split(xref.RawBytes, []byte("\n"))
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		line = bytes.TrimSpace(line)
-		if len(line) == 0 {
-			continue
-		}
-
-		// Skip "xref" keyword
-		if i == 0 && bytes.Equal(line, []byte("xref")) {
-			continue
-		}
-
-		// Check for subsection header (two numbers)
-		parts := bytes.Fields(line)
-		if len(parts) == 2 {
-			firstObj, err1 := strconv.Atoi(string(parts[0]))
-			_, err2 := strconv.Atoi(string(parts[1]))
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		// Parse entry (20 bytes: offset generation flag)
-		if inSubsection && len(parts) >= 3 {
-			offset, err1 := strconv.ParseInt(string(parts[0]), 10, 64)
-			gen, err2 := strconv.Atoi(string(parts[1]))
-			flag := string(parts[2])
-
-			if err1 == nil && err2 == nil {
-				entry := XRefEntry{
-					ObjectNum:  currentObjNum,
-					Generation: gen,
-					Offset:     offset,
-					InUse:      flag == "n",
-					RawBytes:   make([]byte, len(line)),
-				}
-				copy(entry.RawBytes, line)
-
-				xref.Entries = append(xref.Entries, entry)
-				currentObjNum++
-			}
-		}
+	entries, end, err := scanXRefTable(section)
+	if err != nil {
+		return nil, err
 	}
+	xref.RawBytes = section[:end]
+	xref.Entries = entries
 
 	return xref, nil
 }
@@ -280,17 +221,12 @@ func parseTraditionalXRefRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (
 // parseXRefStreamRaw parses a cross-reference stream with raw bytes preserved
 func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRefData, error) {
 	// Parse the xref stream object
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
 	section := pdfBytes[startXRef:]
-	match := objPattern.FindSubmatch(section[:min(100, len(section))])
-
-	if match == nil {
+	objNum, objGen, _, ok := pdfscan.ObjectHeader(section, pdfscan.SkipSpace(section, 0))
+	if !ok {
 		return nil, fmt.Errorf("xref stream object header not found")
 	}
 
-	objNum, _ := strconv.Atoi(string(match[1]))
-	objGen, _ := strconv.Atoi(string(match[2]))
-
 	// Parse the complete object
 	obj, err := ParseRawObject(pdfBytes, objNum, objGen, startXRef)
 	if err != nil {
@@ -309,9 +245,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 	// Convert to XRefEntry format
 	for objNum, offset := range result.Objects {
 		xref.Entries = append(xref.Entries, XRefEntry{
-			ObjectNum: objNum,
-			Offset:    offset,
-			InUse:     true,
+			ObjectNum:  objNum,
+			Generation: result.Generations[objNum],
+			Offset:     offset,
+			InUse:      true,
 		})
 	}
 
@@ -330,95 +267,68 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref: %d", startXRef)
+	}
 	section := pdfBytes[startXRef:]
-	sectionStr := string(section[:min(5000, len(section))])
-
 	trailer := &TrailerData{}
 
 	// Check if this is an xref stream (trailer info is in stream dictionary)
 	if !bytes.HasPrefix(section, []byte("xref")) {
-		// XRef stream - parse dictionary from stream object
 		trailer.Offset = 0 // No separate trailer
-
-		// Extract trailer-equivalent info from stream dictionary
-		if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Size, _ = strconv.Atoi(match[1])
-		}
-		if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Root = match[1]
+		dict, extra := xrefStreamDict(section)
+		if dict == nil {
+			return nil, fmt.Errorf("xref stream not found at %d", startXRef)
 		}
-		if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Encrypt = match[1]
-		}
-		if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Info = match[1]
-		}
-		if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(sectionStr); match != nil {
-			trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-		}
-
-		// Find dictionary boundaries for RawBytes
-		dictStart := bytes.Index(section, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(section) && depth > 0 {
-				if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-			trailer.RawBytes = section[dictStart:dictEnd]
-		}
-
+		trailer.RawBytes = dict
+		trailer.setValues(extra)
+		trailer.setValues(dict)
 		return trailer, nil
 	}
 
 	// Traditional trailer
-	trailerIdx := bytes.Index(section, []byte("trailer"))
-	if trailerIdx == -1 {
-		return nil, fmt.Errorf("trailer keyword not found")
+	dict, err := trailerDict(section)
+	if err != nil {
+		return nil, err
+	}
+	_, trailerIdx, _ := scanXRefTable(section)
+	if !bytes.HasPrefix(section[trailerIdx:], []byte("trailer")) {
+		trailerIdx = bytes.Index(section, []byte("trailer"))
 	}
-
 	trailer.Offset = startXRef + int64(trailerIdx)
 
-	// Find end of trailer (at startxref keyword)
-	startxrefIdx := bytes.Index(section[trailerIdx:], []byte("startxref"))
-	if startxrefIdx == -1 {
-		startxrefIdx = len(section) - trailerIdx
+	// Find end of trailer (at startxref keyword, behind the dictionary)
+	dictEnd := trailerIdx + bytes.Index(section[trailerIdx:], dict) + len(dict)
+	trailer.RawBytes = section[trailerIdx:]
+	if idx := bytes.Index(section[dictEnd:], []byte("startxref")); idx != -1 {
+		trailer.RawBytes = section[trailerIdx : dictEnd+idx]
 	}
+	trailer.setValues(dict)
 
-	trailer.RawBytes = section[trailerIdx : trailerIdx+startxrefIdx]
-
-	// Parse trailer values
-	trailerStr := string(trailer.RawBytes)
+	return trailer, nil
+}
 
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Size, _ = strconv.Atoi(match[1])
-	}
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Encrypt = match[1]
+// setValues takes over the entries of a trailer dictionary
+func (t *TrailerData) setValues(dict []byte) {
+	for key, ref := range map[string]*string{"Root": &t.Root, "Info": &t.Info, "Encrypt": &t.Encrypt} {
+		if value := pdfscan.DictReference(dict, key); value != "" {
+			*ref = value
+		}
 	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Info = match[1]
+	if size, ok := pdfscan.DictInt(dict, "Size"); ok {
+		t.Size = size
 	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerStr); match != nil {
-		trailer.Prev, _ = strconv.ParseInt(match[1], 10, 64)
+	if prev, ok := pdfscan.DictInt(dict, "Prev"); ok {
+		t.Prev = int64(prev)
 	}
-
-	return trailer, nil
 }
 
 // ParseRawObject parses a PDF object preserving all raw bytes
 func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDFRawObject, error) {
+	return parseRawObject(pdfBytes, objNum, objGen, offset, newLengthResolver(pdfBytes))
+}
+
+func parseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64, resolve pdfscan.LengthResolver) (*PDFRawObject, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("invalid offset: %d", offset)
 	}
@@ -441,71 +351,28 @@ func ParseRawObject(pdfBytes []byte, objNum int, objGen int, offset int64) (*PDF
 		}
 	}
 
-	// Find endobj
-	endobjIdx := bytes.Index(section, []byte("endobj"))
-	if endobjIdx == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
+	// Locate the value; fall back to a keyword search for malformed objects
+	span, ok := pdfscan.Object(section, resolve)
+	if !ok {
+		if span, ok = pdfscan.SearchObject(section); !ok {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
+		}
 	}
 
 	// Include "endobj" in raw bytes
-	endOffset := endobjIdx + 6 // len("endobj")
+	endOffset := span.EndObj + len("endobj")
 
 	obj.RawBytes = section[:endOffset]
 	obj.EndOffset = offset + int64(endOffset)
 
-	// Check if this is a stream object
-	streamIdx := bytes.Index(obj.RawBytes, []byte("stream"))
-	if streamIdx != -1 {
+	if span.IsStream {
 		obj.IsStream = true
-
-		// Find dictionary (before "stream")
-		dictStart := bytes.Index(obj.RawBytes, []byte("<<"))
-		if dictStart != -1 {
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < streamIdx && depth > 0 {
-				if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '<' && obj.RawBytes[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(obj.RawBytes) && obj.RawBytes[dictEnd] == '>' && obj.RawBytes[dictEnd+1] == '>' {
-					depth--
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			obj.DictStart = dictStart
-			obj.DictEnd = dictEnd
-			obj.DictRaw = obj.RawBytes[dictStart:dictEnd]
-		}
-
-		// Find stream data boundaries
-		// Stream keyword followed by single EOL
-		streamDataStart := streamIdx + 6 // len("stream")
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(obj.RawBytes) && obj.RawBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
-
-		// Find endstream
-		endstreamIdx := bytes.Index(obj.RawBytes[streamDataStart:], []byte("endstream"))
-		if endstreamIdx != -1 {
-			streamDataEnd := streamDataStart + endstreamIdx
-			// Trim trailing EOL before endstream
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\n' {
-				streamDataEnd--
-			}
-			if streamDataEnd > streamDataStart && obj.RawBytes[streamDataEnd-1] == '\r' {
-				streamDataEnd--
-			}
-
-			obj.StreamStart = streamDataStart
-			obj.StreamEnd = streamDataEnd
-			obj.StreamRaw = obj.RawBytes[streamDataStart:streamDataEnd]
-		}
+		obj.DictStart = span.DictStart
+		obj.DictEnd = span.DictEnd
+		obj.DictRaw = obj.RawBytes[span.DictStart:span.DictEnd]
+		obj.StreamStart = span.StreamStart
+		obj.StreamEnd = span.StreamEnd
+		obj.StreamRaw = obj.RawBytes[span.StreamStart:span.StreamEnd]
 	}
 
 	return obj, nil
diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..4604c5a 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -7,7 +7,7 @@ import (
 	"regexp"
 	"strconv"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -24,66 +24,26 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
-	// Parse xref to find object
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-	if startxrefMatch == nil {
-		return nil, fmt.Errorf("startxref not found")
-	}
-
-	startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-	if err != nil || startXRef <= 0 {
-		return nil, fmt.Errorf("invalid startxref: %s", startxrefMatch[1])
-	}
-
-	// Bounds check
-	if startXRef >= int64(len(pdfBytes)) {
-		return nil, fmt.Errorf("startxref offset %d is beyond PDF length %d", startXRef, len(pdfBytes))
-	}
-
-	// Determine if this is a traditional xref or xref stream
-	xrefSection := pdfBytes[startXRef:]
-
-	// Check if it's an xref stream (PDF 1.5+)
-	// Xref streams start with "N 0 obj" instead of "xref"
-	if bytes.Contains(xrefSection[:min(100, len(xrefSection))], []byte("obj")) {
-		// It's an xref stream - use full parsing
-		result, err := ParseXRefStreamFull(pdfBytes, startXRef, verbose)
-		if err != nil {
+	// Merge the cross-reference sections of all revisions
+	if xref, err := parseWithIncrementalUpdates(pdfBytes, verbose); err == nil {
+		if entry, ok := xref.ObjectStreams[objNum]; ok {
 			if verbose {
-				log.Printf("Failed to parse xref stream: %v", err)
-			}
-		} else {
-			// Check if object is in object stream
-			if entry, ok := result.ObjectStreams[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
-				}
-				return &ObjectLocation{
-					IsDirect:      false,
-					StreamObjNum:  entry.StreamObjNum,
-					IndexInStream: entry.IndexInStream,
-				}, nil
-			}
-
-			// Check regular objects
-			if offset, ok := result.Objects[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from xref stream)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+				log.Printf("Object %d is in object stream %d at index %d", objNum, entry.StreamObjNum, entry.IndexInStream)
 			}
+			return &ObjectLocation{
+				IsDirect:      false,
+				StreamObjNum:  entry.StreamObjNum,
+				IndexInStream: entry.IndexInStream,
+			}, nil
 		}
-	} else if bytes.HasPrefix(xrefSection, []byte("xref")) {
-		// Traditional xref table
-		objMap, err := ParseTraditionalXRefTable(pdfBytes, startXRef)
-		if err == nil {
-			if offset, ok := objMap[objNum]; ok {
-				if verbose {
-					log.Printf("Object %d at byte offset %d (from traditional xref)", objNum, offset)
-				}
-				return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		if offset, ok := xref.Objects[objNum]; ok && objectAt(pdfBytes, objNum, offset) {
+			if verbose {
+				log.Printf("Object %d at byte offset %d (from xref)", objNum, offset)
 			}
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		}
+		if xref.Free[objNum] {
+			return nil, fmt.Errorf("object %d is free", objNum)
 		}
 	}
 
@@ -107,6 +67,15 @@ func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocat
 	return nil, fmt.Errorf("object %d not found", objNum)
 }
 
+// objectAt reports whether the header of the object stands at the offset
+func objectAt(pdfBytes []byte, objNum int, offset int64) bool {
+	if offset < 0 || offset >= int64(len(pdfBytes)) {
+		return false
+	}
+	num, _, _, ok := pdfscan.ObjectHeader(pdfBytes, pdfscan.SkipSpace(pdfBytes, int(offset)))
+	return ok && num == objNum
+}
+
 // GetObject retrieves a PDF object, handling both direct objects and objects in object streams
 // This is the equivalent of PyPDF's get_object() method
 func GetObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -133,6 +102,10 @@ func GetObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, ve
 
 // GetDirectObject reads a PDF object at a specific byte offset
 func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	return getDirectObject(pdfBytes, objNum, offset, encryptInfo, verbose, newLengthResolver(pdfBytes))
+}
+
+func getDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *types.PDFEncryption, verbose bool, resolve pdfscan.LengthResolver) ([]byte, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("invalid offset %d for object %d", offset, objNum)
 	}
@@ -147,8 +120,8 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 	if headerMatch == nil {
 		// Header not exactly at offset - try to find it nearby
 		searchArea := pdfBytes[max(0, int(offset)-100):min(len(pdfBytes), int(offset)+100)]
-		pattern := regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum))
-		match := pattern.FindIndex(searchArea)
+		pattern := regexp.MustCompile(fmt.Sprintf(`(?:^|[^0-9])(%d\s+\d+\s+obj)`, objNum))
+		match := pattern.FindSubmatchIndex(searchArea)
 		if match == nil {
 			if verbose {
 				log.Printf("Object %d header not found near offset %d", objNum, offset)
@@ -157,7 +130,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 			genNum = 0
 		} else {
 			// Adjust offset
-			newOffset := max(0, int(offset)-100) + match[0]
+			newOffset := max(0, int(offset)-100) + match[2]
 			offset = int64(newOffset)
 			objData = pdfBytes[offset:]
 			headerMatch = headerPattern.FindSubmatch(objData[:min(50, len(objData))])
@@ -169,107 +142,18 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		genNum, _ = strconv.Atoi(string(headerMatch[1]))
 	}
 
-	// Find endobj
-	endobjPos := bytes.Index(objData, []byte("endobj"))
-	if endobjPos == -1 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
-	// Extract content between header and endobj
-	// Skip past "N G obj" to get to the content
-	contentStart := bytes.Index(objData[:endobjPos], []byte("obj"))
-	if contentStart == -1 {
-		contentStart = 0
-	} else {
-		contentStart += 3 // Skip "obj"
-		// Skip whitespace
-		for contentStart < endobjPos && (objData[contentStart] == ' ' || objData[contentStart] == '\n' || objData[contentStart] == '\r' || objData[contentStart] == '\t') {
-			contentStart++
+	// Locate the value; fall back to a keyword search for malformed objects
+	span, ok := pdfscan.Object(objData, resolve)
+	if !ok {
+		span, ok = pdfscan.SearchObject(objData)
+		if !ok {
+			return nil, fmt.Errorf("endobj not found for object %d", objNum)
 		}
 	}
+	content := objData[span.ContentStart:span.ContentEnd]
 
-	content := objData[contentStart:endobjPos]
-
-	// Check if this is a stream object
-	streamStart := bytes.Index(content, []byte("stream"))
-	if streamStart != -1 {
-		// This is a stream object
-		// Find "endstream" to get the full stream
-		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
-		}
-		content = content[:endstreamPos+len("endstream")]
-
-		// Decrypt stream data if needed
-		if encryptInfo != nil {
-			// Get /Length from dictionary for exact stream data size
-			dictPart := content[:streamStart]
-			lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-			lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-			var streamLength int
-			if lengthMatch != nil {
-				streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-			}
-
-			// Find actual stream data (after "stream\r\n" or "stream\n")
-			streamDataStart := streamStart + 6
-			// Skip exactly one EOL per PDF spec
-			if streamDataStart < len(content) && content[streamDataStart] == '\r' {
-				streamDataStart++
-			}
-			if streamDataStart < len(content) && content[streamDataStart] == '\n' {
-				streamDataStart++
-			}
-
-			// Use /Length if available, otherwise find endstream
-			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
-				streamData = content[streamDataStart : streamDataStart+streamLength]
-			} else {
-				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-				if streamDataEnd == -1 {
-					streamDataEnd = len(content) - streamDataStart
-				}
-				streamData = content[streamDataStart : streamDataStart+streamDataEnd]
-			}
-
-			if verbose {
-				log.Printf("Decrypting stream: %d bytes (from /Length %d), objNum=%d, genNum=%d", len(streamData), streamLength, objNum, genNum)
-			}
-			decryptedStream, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
-			if err == nil {
-				if verbose {
-					log.Printf("Decryption successful: %d -> %d bytes", len(streamData), len(decryptedStream))
-				}
-				// Update /Length in the dictionary to reflect decrypted size
-				newLength := fmt.Sprintf("/Length %d", len(decryptedStream))
-				dictPart = lengthPattern.ReplaceAll(dictPart, []byte(newLength))
-
-				// Reconstruct content with updated dictionary and decrypted stream
-				newContent := make([]byte, 0, len(dictPart)+len(decryptedStream)+20)
-				newContent = append(newContent, dictPart...)
-				newContent = append(newContent, []byte("stream\n")...)
-				newContent = append(newContent, decryptedStream...)
-				newContent = append(newContent, []byte("\nendstream")...)
-				content = newContent
-
-				if verbose {
-					log.Printf("Reconstructed content: %d bytes, new dict: %s", len(content), string(dictPart[:min(100, len(dictPart))]))
-				}
-			} else if verbose {
-				log.Printf("Decryption failed: %v", err)
-			}
-		}
-	} else if encryptInfo != nil {
-		// Not a stream - decrypt string values in dictionary
-		// For now, just decrypt the entire content (simplified approach)
-		// TODO: Parse dictionary properly and decrypt only string values
-		decrypted, err := encrypt.DecryptObject(content, objNum, genNum, encryptInfo)
-		if err == nil {
-			content = decrypted
-		}
+	if encryptInfo != nil {
+		content = decryptContent(objData, span, objNum, genNum, encryptInfo, verbose)
 	}
 
 	// Reconstruct full object
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..ef79b33 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -7,6 +7,8 @@ import (
 	"regexp"
 	"sort"
 	"strconv"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // xrefSection represents a single cross-reference section from a PDF
@@ -14,6 +16,8 @@ type xrefSection struct {
 	StartXRef int64                     // Byte offset where this xref section starts
 	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
 	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Gens      map[int]int               // Object number -> generation (Type 1 entries)
+	Free      map[int]bool              // Object numbers marked as free
 	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
@@ -21,12 +25,61 @@ type xrefSection struct {
 	Size      int                       // /Size from trailer
 }
 
+func newXRefSection(startXRef int64) *xrefSection {
+	return &xrefSection{
+		StartXRef: startXRef,
+		Objects:   make(map[int]int64),
+		Streams:   make(map[int]ObjectStreamEntry),
+		Gens:      make(map[int]int),
+		Free:      make(map[int]bool),
+	}
+}
+
+// setTrailer takes over the entries of a trailer dictionary
+func (s *xrefSection) setTrailer(dict []byte) {
+	for key, ref := range map[string]*string{"Root": &s.Root, "Info": &s.Info, "Encrypt": &s.Encrypt} {
+		if value := pdfscan.DictReference(dict, key); value != "" {
+			*ref = value
+		}
+	}
+	if prev, ok := pdfscan.DictInt(dict, "Prev"); ok {
+		s.Prev = int64(prev)
+	}
+	if size, ok := pdfscan.DictInt(dict, "Size"); ok {
+		s.Size = size
+	}
+}
+
+// addHybrid adds the entries of the cross-reference stream a hybrid-reference
+// file keeps beside a table; entries in use in the table take precedence
+func (s *xrefSection) addHybrid(pdfBytes []byte, offset int64) {
+	result, err := ParseXRefStreamFull(pdfBytes, offset, false)
+	if err != nil {
+		return
+	}
+	for objNum, offset := range result.Objects {
+		if _, ok := s.Objects[objNum]; !ok {
+			s.Objects[objNum] = offset
+			s.Gens[objNum] = result.Generations[objNum]
+			delete(s.Free, objNum)
+		}
+	}
+	for objNum, entry := range result.ObjectStreams {
+		if _, ok := s.Objects[objNum]; !ok {
+			s.Streams[objNum] = entry
+			delete(s.Free, objNum)
+		}
+	}
+}
+
 // incrementalParser handles PDFs with multiple revisions (incremental updates)
 type incrementalParser struct {
 	pdfBytes      []byte
 	sections      []*xrefSection            // Ordered from oldest to newest
 	mergedObjs    map[int]int64             // Final merged object map
 	mergedStreams map[int]ObjectStreamEntry // Final merged object stream entries
+	mergedGens    map[int]int               // Generations of the merged objects
+	mergedFree    map[int]bool              // Object numbers that are free in the end
 	verbose       bool
 }
 
@@ -37,6 +90,8 @@ func newIncrementalParser(pdfBytes []byte, verbose bool) *incrementalParser {
 		sections:      make([]*xrefSection, 0),
 		mergedObjs:    make(map[int]int64),
 		mergedStreams: make(map[int]ObjectStreamEntry),
+		mergedGens:    make(map[int]int),
+		mergedFree:    make(map[int]bool),
 		verbose:       verbose,
 	}
 }
@@ -78,6 +133,8 @@ func (p *incrementalParser) getFullXRefResult() *XRefResult {
 	return &XRefResult{
 		Objects:       p.mergedObjs,
 		ObjectStreams: p.mergedStreams,
+		Generations:   p.mergedGens,
+		Free:          p.mergedFree,
 	}
 }
 
@@ -88,39 +145,18 @@ func (p *incrementalParser) getSections() []*xrefSection {
 
 // findLastStartXRef finds the startxref value before the last %%EOF
 func (p *incrementalParser) findLastStartXRef() (int64, error) {
-	// Search backwards from end for %%EOF
-	pdfStr := string(p.pdfBytes)
-
-	// Find all %%EOF markers
-	eofPattern := regexp.MustCompile(`%%EOF`)
-	eofMatches := eofPattern.FindAllStringIndex(pdfStr, -1)
-
-	if len(eofMatches) == 0 {
+	markers := FindAllEOFMarkers(p.pdfBytes)
+	if len(markers) == 0 {
 		return 0, fmt.Errorf("no %%EOF marker found")
 	}
 
 	// Take the last %%EOF
-	lastEOF := eofMatches[len(eofMatches)-1][0]
-
-	// Search backwards from %%EOF for startxref
-	searchStart := lastEOF - 100
-	if searchStart < 0 {
-		searchStart = 0
-	}
-
-	searchSection := pdfStr[searchStart:lastEOF]
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-
-	if match == nil {
+	lastEOF := markers[len(markers)-1]
+	offset, ok := startXRefBefore(p.pdfBytes, lastEOF)
+	if !ok {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
 
-	offset, err := strconv.ParseInt(match[1], 10, 64)
-	if err != nil {
-		return 0, fmt.Errorf("invalid startxref value: %s", match[1])
-	}
-
 	if p.verbose {
 		fmt.Printf("Found last startxref: %d (before %%EOF at %d)\n", offset, lastEOF)
 	}
@@ -182,81 +218,36 @@ func (p *incrementalParser) parseXRefChain(startXRef int64) error {
 
 // findPrevOffset finds the /Prev value in the trailer at the given xref offset
 func (p *incrementalParser) findPrevOffset(startXRef int64) (int64, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
 		return 0, fmt.Errorf("startXRef out of bounds")
 	}
 
 	section := p.pdfBytes[startXRef:]
-
-	// Check if this is an xref stream or traditional xref
+	var dict []byte
 	if bytes.HasPrefix(section, []byte("xref")) {
-		// Traditional xref - find trailer and /Prev
-		trailerIdx := bytes.Index(section, []byte("trailer"))
-		if trailerIdx == -1 {
-			return 0, fmt.Errorf("no trailer found")
+		var err error
+		if dict, err = trailerDict(section); err != nil {
+			return 0, err
 		}
-
-		// Find the end of the trailer dictionary (>>)
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(section[trailerStart:], []byte("<<"))
-		if dictStart == -1 {
-			return 0, fmt.Errorf("trailer dictionary not found")
-		}
-		dictStart += trailerStart
-
-		// Find matching >> for trailer dict
-		depth := 1
-		dictEnd := dictStart + 2
-		for dictEnd < len(section) && depth > 0 {
-			if dictEnd+1 < len(section) && section[dictEnd] == '<' && section[dictEnd+1] == '<' {
-				depth++
-				dictEnd++
-			} else if dictEnd+1 < len(section) && section[dictEnd] == '>' && section[dictEnd+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd += 2
-					break
-				}
-				dictEnd++
-			}
-			dictEnd++
-		}
-
-		trailerDict := string(section[dictStart:dictEnd])
-		prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-		match := prevPattern.FindStringSubmatch(trailerDict)
-		if match == nil {
-			return 0, fmt.Errorf("no /Prev in trailer")
-		}
-
-		return strconv.ParseInt(match[1], 10, 64)
+	} else {
+		// Cross-reference stream - /Prev is in the stream dictionary
+		dict, _ = xrefStreamDict(section)
 	}
 
-	// Cross-reference stream - /Prev is in the stream dictionary
-	// Find the dictionary end (before "stream" keyword)
-	streamIdx := bytes.Index(section, []byte("stream"))
-	if streamIdx == -1 {
-		streamIdx = min(2000, len(section))
+	prev, ok := pdfscan.DictInt(dict, "Prev")
+	if !ok {
+		return 0, fmt.Errorf("no /Prev in trailer")
 	}
-
-	dictSection := string(section[:streamIdx])
-	prevPattern := regexp.MustCompile(`/Prev\s+(\d+)`)
-	match := prevPattern.FindStringSubmatch(dictSection)
-	if match == nil {
-		return 0, fmt.Errorf("no /Prev in xref stream")
-	}
-
-	return strconv.ParseInt(match[1], 10, 64)
+	return int64(prev), nil
 }
 
 // parsexrefSection parses a single xref section at the given offset
 func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, error) {
-	if startXRef >= int64(len(p.pdfBytes)) {
-		return nil, fmt.Errorf("startXRef out of bounds: %d >= %d", startXRef, len(p.pdfBytes))
+	if startXRef < 0 || startXRef >= int64(len(p.pdfBytes)) {
+		return nil, fmt.Errorf("startXRef out of bounds: %d of %d", startXRef, len(p.pdfBytes))
 	}
 
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(5000, len(xrefData))])
 
 	// Determine type and parse
 	if bytes.HasPrefix(xrefData, []byte("xref")) {
@@ -265,9 +256,7 @@ func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, err
 	}
 
 	// Cross-reference stream
-	// Check for object header pattern
-	if regexp.MustCompile(`^\d+\s+\d+\s+obj`).MatchString(xrefStr) ||
-		bytes.Contains(xrefData[:min(100, len(xrefData))], []byte("obj")) {
+	if bytes.Contains(xrefData[:min(100, len(xrefData))], []byte("obj")) {
 		return p.parseXRefStreamSection(startXRef)
 	}
 
@@ -276,107 +265,27 @@ func (p *incrementalParser) parsexrefSection(startXRef int64) (*xrefSection, err
 
 // parseTraditionalxrefSection parses a traditional xref table
 func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefSection, error) {
-	section := &xrefSection{
-		StartXRef: startXRef,
-		Objects:   make(map[int]int64),
-		Streams:   make(map[int]ObjectStreamEntry),
-	}
-
+	section := newXRefSection(startXRef)
 	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(10000, len(xrefData))])
 
-	// Parse xref entries
-	lines := regexp.MustCompile(`\r?\n`).Split(xrefStr, -1)
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		line = regexp.MustCompile(`^\s+|\s+$`).ReplaceAllString(line, "")
-		if line == "" {
-			continue
-		}
-
-		// First line should be "xref"
-		if i == 0 && line == "xref" {
-			continue
-		}
-
-		// Check for trailer
-		if line == "trailer" || bytes.HasPrefix([]byte(line), []byte("trailer")) {
-			break
-		}
-
-		fields := regexp.MustCompile(`\s+`).Split(line, -1)
-
-		if len(fields) == 2 {
-			// Subsection header: "first_obj_num count"
-			firstObj, err1 := strconv.Atoi(fields[0])
-			_, err2 := strconv.Atoi(fields[1])
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		if inSubsection && len(fields) >= 3 {
-			// Entry: "offset generation flag"
-			offset, err1 := strconv.ParseInt(fields[0], 10, 64)
-			_, err2 := strconv.Atoi(fields[1])
-			flag := fields[2]
-
-			if err1 == nil && err2 == nil && flag == "n" {
-				section.Objects[currentObjNum] = offset
-			}
-			currentObjNum++
+	entries, _, err := scanXRefTable(xrefData)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if entry.InUse {
+			section.Objects[entry.ObjectNum] = entry.Offset
+			section.Gens[entry.ObjectNum] = entry.Generation
+		} else {
+			section.Free[entry.ObjectNum] = true
 		}
 	}
 
 	// Parse trailer for /Root, /Encrypt, /Prev, /Size
-	trailerIdx := bytes.Index(xrefData, []byte("trailer"))
-	if trailerIdx != -1 {
-		// Find the trailer dictionary bounds
-		trailerStart := trailerIdx + 7 // len("trailer")
-		dictStart := bytes.Index(xrefData[trailerStart:], []byte("<<"))
-		if dictStart != -1 {
-			dictStart += trailerStart
-
-			// Find matching >>
-			depth := 1
-			dictEnd := dictStart + 2
-			for dictEnd < len(xrefData) && depth > 0 {
-				if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '<' && xrefData[dictEnd+1] == '<' {
-					depth++
-					dictEnd++
-				} else if dictEnd+1 < len(xrefData) && xrefData[dictEnd] == '>' && xrefData[dictEnd+1] == '>' {
-					depth--
-					if depth == 0 {
-						dictEnd += 2
-						break
-					}
-					dictEnd++
-				}
-				dictEnd++
-			}
-
-			trailerDict := string(xrefData[dictStart:dictEnd])
-
-			if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Root = match[1]
-			}
-			if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Info = match[1]
-			}
-			if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Encrypt = match[1]
-			}
-			if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-			}
-			if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(trailerDict); match != nil {
-				section.Size, _ = strconv.Atoi(match[1])
-			}
+	if dict, err := trailerDict(xrefData); err == nil {
+		section.setTrailer(dict)
+		if offset, ok := pdfscan.DictInt(dict, "XRefStm"); ok {
+			section.addHybrid(p.pdfBytes, int64(offset))
 		}
 	}
 
@@ -390,11 +299,7 @@ func (p *incrementalParser) parseTraditionalxrefSection(startXRef int64) (*xrefS
 
 // parseXRefStreamSection parses a cross-reference stream
 func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSection, error) {
-	section := &xrefSection{
-		StartXRef: startXRef,
-		Objects:   make(map[int]int64),
-		Streams:   make(map[int]ObjectStreamEntry),
-	}
+	section := newXRefSection(startXRef)
 
 	// Use existing full xref stream parser
 	result, err := ParseXRefStreamFull(p.pdfBytes, startXRef, p.verbose)
@@ -405,25 +310,13 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 	section.Objects = result.Objects
 	section.Streams = result.ObjectStreams
 
-	// Extract trailer info from stream dictionary
-	xrefData := p.pdfBytes[startXRef:]
-	xrefStr := string(xrefData[:min(2000, len(xrefData))])
+	section.Gens = result.Generations
+	section.Free = result.Free
 
-	if match := regexp.MustCompile(`/Root\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Root = match[1]
-	}
-	if match := regexp.MustCompile(`/Info\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Info = match[1]
-	}
-	if match := regexp.MustCompile(`/Encrypt\s+(\d+\s+\d+\s+R)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Encrypt = match[1]
-	}
-	if match := regexp.MustCompile(`/Prev\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Prev, _ = strconv.ParseInt(match[1], 10, 64)
-	}
-	if match := regexp.MustCompile(`/Size\s+(\d+)`).FindStringSubmatch(xrefStr); match != nil {
-		section.Size, _ = strconv.Atoi(match[1])
-	}
+	// Extract trailer info from stream dictionary
+	dict, trailer := xrefStreamDict(p.pdfBytes[startXRef:])
+	section.setTrailer(trailer)
+	section.setTrailer(dict)
 
 	if p.verbose {
 		fmt.Printf("Parsed xref stream at %d: %d objects, %d in streams, Prev=%d\n",
@@ -437,12 +330,25 @@ func (p *incrementalParser) parseXRefStreamSection(startXRef int64) (*xrefSectio
 func (p *incrementalParser) mergeSections() {
 	// sections are already ordered oldest to newest
 	for _, section := range p.sections {
+		// Freed objects
+		for objNum := range section.Free {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedGens, objNum)
+			delete(p.mergedStreams, objNum)
+			p.mergedFree[objNum] = true
+		}
 		// Regular objects
 		for objNum, offset := range section.Objects {
+			delete(p.mergedStreams, objNum)
+			delete(p.mergedFree, objNum)
 			p.mergedObjs[objNum] = offset
+			p.mergedGens[objNum] = section.Gens[objNum]
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
+			delete(p.mergedObjs, objNum)
+			delete(p.mergedGens, objNum)
+			delete(p.mergedFree, objNum)
 			p.mergedStreams[objNum] = entry
 		}
 	}
@@ -453,9 +359,12 @@ func (p *incrementalParser) mergeSections() {
 	}
 }
 
-// FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF
+// FindAllEOFMarkers returns the byte offsets of all %%EOF markers in the PDF.
+// Only markers that end a revision count, that is, those preceded by a
+// startxref that refers to cross-reference data: the same characters may also
+// occur in strings, comments and stream data.
 func FindAllEOFMarkers(pdfBytes []byte) []int {
-	var offsets []int
+	var offsets, all []int
 	pattern := []byte("%%EOF")
 
 	pos := 0
@@ -464,13 +373,47 @@ func FindAllEOFMarkers(pdfBytes []byte) []int {
 		if idx == -1 {
 			break
 		}
-		offsets = append(offsets, pos+idx)
-		pos = pos + idx + len(pattern)
+		marker := pos + idx
+		all = append(all, marker)
+		if startXRef, ok := startXRefBefore(pdfBytes, marker); ok && isXRefAt(pdfBytes, startXRef) {
+			offsets = append(offsets, marker)
+		}
+		pos = marker + len(pattern)
 	}
 
+	if len(offsets) == 0 {
+		// Damaged offsets throughout: go by the markers alone
+		return all
+	}
 	return offsets
 }
 
+var startXRefBeforeEOF = regexp.MustCompile(`startxref\s+(\d+)\s*$`)
+
+// startXRefBefore returns the startxref value immediately before an %%EOF marker
+func startXRefBefore(pdfBytes []byte, marker int) (int64, bool) {
+	match := startXRefBeforeEOF.FindSubmatch(pdfBytes[max(0, marker-100):marker])
+	if match == nil {
+		return 0, false
+	}
+	offset, err := strconv.ParseInt(string(match[1]), 10, 64)
+	return offset, err == nil
+}
+
+// isXRefAt reports whether a cross-reference table or a cross-reference stream
+// starts at the offset
+func isXRefAt(pdfBytes []byte, offset int64) bool {
+	if offset <= 0 || offset >= int64(len(pdfBytes)) {
+		return false
+	}
+	section := bytes.TrimLeft(pdfBytes[offset:], " \t\r\n")
+	if pdfscan.HasKeyword(section, 0, "xref") {
+		return true
+	}
+	dict, _ := xrefStreamDict(section)
+	return pdfscan.DictValue(dict, "W") != nil
+}
+
 // CountRevisions returns the number of revisions in the PDF
 func CountRevisions(pdfBytes []byte) int {
 	return len(FindAllEOFMarkers(pdfBytes))
diff --git a/core/parse/length.go b/core/parse/length.go
new file mode 100644
index 0000000..3e260ae
--- /dev/null
+++ b/core/parse/length.go
@@ -0,0 +1,39 @@
+package parse
+
+import (
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+// newLengthResolver returns a resolver that looks integers up through the
+// cross-reference data of the file, which it parses on first use.
+func newLengthResolver(pdfBytes []byte) pdfscan.LengthResolver {
+	var xref *XRefResult
+	return func(objNum int) (int, bool) {
+		if xref == nil {
+			result, err := parseWithIncrementalUpdates(pdfBytes, false)
+			if err != nil {
+				result = &XRefResult{}
+			}
+			xref = result
+		}
+		offset, ok := xref.Objects[objNum]
+		if !ok {
+			return 0, false
+		}
+		return readIntObject(pdfBytes, objNum, offset)
+	}
+}
+
+// readIntObject reads the indirect integer object at offset.
+func readIntObject(pdfBytes []byte, objNum int, offset int64) (int, bool) {
+	if offset < 0 || offset >= int64(len(pdfBytes)) {
+		return 0, false
+	}
+	data := pdfBytes[offset:]
+	num, _, pos, ok := pdfscan.ObjectHeader(data, pdfscan.SkipSpace(data, 0))
+	if !ok || num != objNum {
+		return 0, false
+	}
+	value, _, ok := pdfscan.Uint(data, pdfscan.SkipSpace(data, pos))
+	return value, ok
+}
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..4657434 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -2,15 +2,12 @@ package parse
 
 import (
 	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
 	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -26,6 +23,10 @@ type XRefResult struct {
 	Objects map[int]int64
 	// Objects in object streams (Type 2): objNum -> ObjectStreamEntry
 	ObjectStreams map[int]ObjectStreamEntry
+	// Generation numbers of regular objects
+	Generations map[int]int
+	// Object numbers marked as free
+	Free map[int]bool
 }
 
 // ParseXRefStreamFull parses a PDF cross-reference stream and returns both regular and compressed object info
@@ -33,222 +34,34 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	result := &XRefResult{
 		Objects:       make(map[int]int64),
 		ObjectStreams: make(map[int]ObjectStreamEntry),
+		Generations:   make(map[int]int),
+		Free:          make(map[int]bool),
 	}
 
-	// The xref stream object should be at startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths)
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1])
-	w2, _ := strconv.Atoi(wMatch[2])
-	w3, _ := strconv.Atoi(wMatch[3])
-
-	// Find /Index entry
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find and decompress stream content
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Decompress (xref streams are NOT encrypted)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	entries, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream: %v", err)
-	}
-
-	// Check for predictor (PNG filter)
-	// Look for /DecodeParms with /Predictor
-	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
-
-	if decodeparmsMatch != nil {
-		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
-		columnsPattern := regexp.MustCompile(`/Columns\s+(\d+)`)
-
-		predictorMatch := predictorPattern.FindStringSubmatch(decodeparmsMatch[1])
-		columnsMatch := columnsPattern.FindStringSubmatch(decodeparmsMatch[1])
-
-		if predictorMatch != nil && columnsMatch != nil {
-			predictor, _ := strconv.Atoi(predictorMatch[1])
-			columns, _ := strconv.Atoi(columnsMatch[1])
-
-			if predictor >= 10 && predictor <= 15 {
-				// PNG predictor - apply filter
-				rowSize := columns + 1 // +1 for filter byte
-				numRows := len(decompressed) / rowSize
-
-				decoded := make([]byte, numRows*columns)
-				prevRow := make([]byte, columns)
-
-				for row := 0; row < numRows; row++ {
-					rowStart := row * rowSize
-					if rowStart+rowSize > len(decompressed) {
-						break
-					}
-					filterByte := decompressed[rowStart]
-					rowData := decompressed[rowStart+1 : rowStart+rowSize]
-
-					switch filterByte {
-					case 0: // None
-						copy(decoded[row*columns:], rowData)
-					case 1: // Sub
-						for i := 0; i < columns; i++ {
-							left := byte(0)
-							if i > 0 {
-								left = decoded[row*columns+i-1]
-							}
-							decoded[row*columns+i] = rowData[i] + left
-						}
-					case 2: // Up (most common for Predictor 12)
-						for i := 0; i < columns; i++ {
-							decoded[row*columns+i] = rowData[i] + prevRow[i]
-						}
-					default:
-						copy(decoded[row*columns:], rowData)
-					}
-
-					copy(prevRow, decoded[row*columns:row*columns+columns])
-				}
-
-				decompressed = decoded
-			}
-		}
-	}
-
-	// Parse entries
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size")
-	}
-
-	entryIndex := 0
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
-			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
+		return nil, err
+	}
+
+	for _, entry := range entries {
+		switch entry.Type {
+		case 0:
+			// Type 0: free object
+			result.Free[entry.ObjNum] = true
+		case 1:
+			// Type 1: uncompressed, in-use object
+			// field 2 = byte offset, field 3 = generation
+			if entry.Field2 > 0 {
+				result.Objects[entry.ObjNum] = entry.Field2
+				result.Generations[entry.ObjNum] = int(entry.Field3)
 			}
-
-			// Parse field 2 (offset for Type 1, stream object for Type 2)
-			field2 := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				field2 = field2<<8 | int64(entry[i])
+		case 2:
+			// Type 2: compressed object in object stream
+			// field 2 = object stream number, field 3 = index within stream
+			result.ObjectStreams[entry.ObjNum] = ObjectStreamEntry{
+				StreamObjNum:  int(entry.Field2),
+				IndexInStream: int(entry.Field3),
 			}
-
-			// Parse field 3 (generation for Type 1, index for Type 2)
-			field3 := int64(0)
-			for i := w1 + w2; i < w1+w2+w3 && i < len(entry); i++ {
-				field3 = field3<<8 | int64(entry[i])
-			}
-
-			switch typeVal {
-			case 0:
-				// Type 0: free object - skip
-			case 1:
-				// Type 1: uncompressed, in-use object
-				// field2 = byte offset, field3 = generation
-				if field2 > 0 {
-					result.Objects[objNum] = field2
-				}
-			case 2:
-				// Type 2: compressed object in object stream
-				// field2 = object stream number, field3 = index within stream
-				result.ObjectStreams[objNum] = ObjectStreamEntry{
-					StreamObjNum:  int(field2),
-					IndexInStream: int(field3),
-				}
-			}
-
-			entryIndex++
 		}
 	}
 
@@ -264,93 +77,38 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
 	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
+	loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose)
+	if err != nil || !loc.IsDirect {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
+	return getObjectFromStreamAt(pdfBytes, objNum, streamObjNum, loc.ByteOffset, indexInStream, encryptInfo, verbose, newLengthResolver(pdfBytes))
+}
 
-	streamObjStart := matches[0]
-
-	// Find the object stream's dictionary and stream data
-	objSection := pdfBytes[streamObjStart:]
-
-	// Find dictionary
-	dictStart := bytes.Index(objSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("object stream dictionary not found")
-	}
-
-	// Find dictionary end to get dict content
-	dictEnd := bytes.Index(objSection[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("dictionary end not found")
-	}
-	dictContent := string(objSection[dictStart : dictStart+dictEnd+2])
-
-	// Get /Length from dictionary
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("/Length not found in object stream dictionary")
-	}
-	streamLength, _ := strconv.Atoi(lengthMatch[1])
-
-	// Find stream keyword
-	streamKeyword := bytes.Index(objSection[dictStart:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, fmt.Errorf("stream keyword not found in object stream")
-	}
-	streamKeyword += dictStart
-
-	// Skip "stream" and exactly one EOL marker (per PDF spec)
-	streamDataStart := streamKeyword + 6
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objSection) && objSection[streamDataStart] == '\n' {
-		streamDataStart++
+// getObjectFromStreamAt extracts an object from the object stream at the given offset
+func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, offset int64, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool, resolve pdfscan.LengthResolver) ([]byte, error) {
+	if offset < 0 || offset >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
-
-	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
-		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
+	objSection := pdfBytes[offset:]
+	span, ok := pdfscan.Object(objSection, resolve)
+	if !ok || !span.IsStream || span.Num != streamObjNum {
+		return nil, fmt.Errorf("object stream %d not found at offset %d", streamObjNum, offset)
 	}
-
-	streamData := objSection[streamDataStart : streamDataStart+streamLength]
+	dict := objSection[span.DictStart:span.DictEnd]
+	streamData := objSection[span.StreamStart:span.StreamEnd]
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, 0, encryptInfo)
+		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, span.Gen, encryptInfo)
 		if err != nil {
 			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
 		}
 		streamData = decrypted
 	}
 
-	// Decompress stream data (FlateDecode)
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamData))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-	}
-
-	if err != nil || zlibErr != nil {
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-		if err != nil {
-			return nil, fmt.Errorf("failed to decompress object stream: %v", err)
-		}
+	decompressed, err := decodeStreamData(dict, streamData)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress object stream: %v", err)
 	}
 
 	// Parse object stream header
@@ -358,23 +116,17 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	// - /N = number of objects
 	// - /First = byte offset to first object's data
 	// - Header format: "objnum1 offset1 objnum2 offset2 ..."
-
-	// Find /N and /First from dictionary
-	dictSection := string(objSection[dictStart:streamKeyword])
-
-	nPattern := regexp.MustCompile(`/N\s+(\d+)`)
-	nMatch := nPattern.FindStringSubmatch(dictSection)
-	if nMatch == nil {
+	count, ok := pdfscan.DictInt(dict, "N")
+	if !ok {
 		return nil, fmt.Errorf("/N not found in object stream dictionary")
 	}
-	_ = nMatch[1] // Number of objects (for validation if needed)
-
-	firstPattern := regexp.MustCompile(`/First\s+(\d+)`)
-	firstMatch := firstPattern.FindStringSubmatch(dictSection)
-	if firstMatch == nil {
+	firstOffset, ok := pdfscan.DictInt(dict, "First")
+	if !ok {
 		return nil, fmt.Errorf("/First not found in object stream dictionary")
 	}
-	firstOffset, _ := strconv.Atoi(firstMatch[1])
+	if firstOffset < 0 || firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d out of range in object stream", firstOffset)
+	}
 
 	// Parse header: pairs of "objnum offset"
 	type objEntry struct {
@@ -383,17 +135,17 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 	var entries []objEntry
 
-	headerData := decompressed[:firstOffset]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	for i := 0; i < len(fields)-1; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
+	fields := strings.Fields(string(decompressed[:firstOffset]))
+	for i := 0; i < len(fields)-1 && len(entries) < count; i += 2 {
+		on, err1 := strconv.Atoi(fields[i])
+		off, err2 := strconv.Atoi(fields[i+1])
+		if err1 != nil || err2 != nil || off < 0 || off > len(decompressed)-firstOffset {
+			return nil, fmt.Errorf("invalid header in object stream %d", streamObjNum)
+		}
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -414,26 +166,17 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		}
 	}
 
-	// Calculate object data range
+	// The object ends where the next one starts, or at the end of the stream
 	objDataStart := firstOffset + targetEntry.offset
-	var objDataEnd int
-
-	// Find next object's offset or end of stream
-	if indexInStream < len(entries)-1 {
-		nextEntry := entries[indexInStream+1]
-		objDataEnd = firstOffset + nextEntry.offset
-	} else {
-		objDataEnd = len(decompressed)
-	}
-
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
-		return nil, fmt.Errorf("object data offset out of range")
+	objDataEnd := len(decompressed)
+	for _, e := range entries {
+		if start := firstOffset + e.offset; start > objDataStart && start < objDataEnd {
+			objDataEnd = start
+		}
 	}
 
-	objectData := decompressed[objDataStart:objDataEnd]
-
-	// Trim trailing whitespace
-	objectData = bytes.TrimRight(objectData, " \t\r\n")
+	// Trim surrounding whitespace
+	objectData := bytes.Trim(decompressed[objDataStart:objDataEnd], " \t\r\n")
 
 	if verbose {
 		fmt.Printf("Extracted object %d from stream %d: %d bytes\n", objNum, streamObjNum, len(objectData))
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..fa088be 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -3,146 +3,90 @@ package parse
 import (
 	"bytes"
 	"fmt"
-	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
+var (
+	trailerPattern   = regexp.MustCompile(`trailer\s*<<`)
+	startXRefPattern = regexp.MustCompile(`startxref\s+(\d+)`)
+)
+
 // ParsePDFTrailer parses the PDF trailer to find object references
 func ParsePDFTrailer(pdfBytes []byte) (*PDFTrailer, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find trailer - search from the end (trailer is usually near EOF)
-	// Try multiple patterns
-	trailerPatterns := []*regexp.Regexp{
-		regexp.MustCompile(`trailer\s*<<`),
-		regexp.MustCompile(`trailer\s*<<\s*`),
-	}
-
-	var trailerMatch []int
-	for _, pattern := range trailerPatterns {
-		// Search from the end
-		matches := pattern.FindAllStringIndex(pdfStr, -1)
-		if len(matches) > 0 {
-			trailerMatch = matches[len(matches)-1] // Take the last match (closest to EOF)
-			break
-		}
+	sections, err := trailerSections(pdfBytes)
+	if err != nil {
+		return nil, err
 	}
 
-	if trailerMatch == nil {
-		return nil, fmt.Errorf("trailer not found")
-	}
+	trailer := &PDFTrailer{}
 
-	// Find end of trailer dictionary (handle nested dictionaries)
-	trailerStart := trailerMatch[1]
-
-	// Find matching >> (handle nested dictionaries)
-	// Start at depth 1 because trailerStart is AFTER the opening <<
-	depth := 1
-	trailerEnd := trailerStart
-	for i := trailerStart; i < len(pdfStr) && i < trailerStart+5000; i++ {
-		if i+1 < len(pdfStr) && pdfStr[i] == '<' && pdfStr[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfStr) && pdfStr[i] == '>' && pdfStr[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				trailerEnd = i + 2
-				break
+	for _, section := range sections {
+		for key, ref := range map[string]*string{"Root": &trailer.RootRef, "Info": &trailer.InfoRef, "Encrypt": &trailer.EncryptRef} {
+			if value := pdfscan.DictReference(section, key); value != "" && *ref == "" {
+				*ref = "/" + key + " " + value
 			}
-			i++ // Skip second '>'
 		}
 	}
 
-	if trailerEnd == trailerStart {
-		return nil, fmt.Errorf("trailer end not found")
+	// Find startxref
+	if offset, ok := lastStartXRef(pdfBytes); ok {
+		trailer.StartXRef = offset
 	}
 
-	trailerSection := pdfStr[trailerStart:trailerEnd]
-
-	trailer := &PDFTrailer{}
+	return trailer, nil
+}
 
-	// Extract Root reference
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+(\d+)\s+R`)
-	rootMatch := rootPattern.FindStringSubmatch(trailerSection)
-	if rootMatch != nil {
-		trailer.RootRef = rootMatch[0]
+// trailerSections returns the dictionaries holding the trailer entries of the
+// newest revision: the trailer dictionary, or the dictionary of the
+// cross-reference stream.
+func trailerSections(pdfBytes []byte) ([][]byte, error) {
+	if offset, ok := lastStartXRef(pdfBytes); ok && offset > 0 && offset < int64(len(pdfBytes)) {
+		section := pdfBytes[offset:]
+		if bytes.HasPrefix(section, []byte("xref")) {
+			if dict, err := trailerDict(section); err == nil {
+				return [][]byte{dict}, nil
+			}
+		} else if dict, trailer := xrefStreamDict(section); dict != nil {
+			return [][]byte{dict, trailer}, nil
+		}
 	}
 
-	// Extract Info reference
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+(\d+)\s+R`)
-	infoMatch := infoPattern.FindStringSubmatch(trailerSection)
-	if infoMatch != nil {
-		trailer.InfoRef = infoMatch[0]
+	// Damaged startxref: take the last trailer dictionary (closest to EOF)
+	matches := trailerPattern.FindAllIndex(pdfBytes, -1)
+	if len(matches) == 0 {
+		return nil, fmt.Errorf("trailer not found")
 	}
-
-	// Extract Encrypt reference
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatch(trailerSection)
-	if encryptMatch != nil {
-		trailer.EncryptRef = encryptMatch[0]
+	start := matches[len(matches)-1][1] - len("<<")
+	end, ok := pdfscan.SkipValue(pdfBytes, start)
+	if !ok {
+		return nil, fmt.Errorf("trailer end not found")
 	}
+	return [][]byte{pdfBytes[start:end]}, nil
+}
 
-	// Find startxref
-	startXRefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startXRefMatch := startXRefPattern.FindStringSubmatch(pdfStr)
-	if startXRefMatch != nil {
-		offset, err := strconv.ParseInt(startXRefMatch[1], 10, 64)
-		if err == nil {
-			trailer.StartXRef = offset
-		}
+// lastStartXRef returns the value of the last startxref in the file
+func lastStartXRef(pdfBytes []byte) (int64, bool) {
+	pos := bytes.LastIndex(pdfBytes, []byte("startxref"))
+	if pos == -1 {
+		return 0, false
 	}
-
-	return trailer, nil
+	match := startXRefPattern.FindSubmatch(pdfBytes[pos:min(pos+100, len(pdfBytes))])
+	if match == nil {
+		return 0, false
+	}
+	offset, err := strconv.ParseInt(string(match[1]), 10, 64)
+	return offset, err == nil
 }
 
 // FindObjectByNumber finds a PDF object by its number
 func FindObjectByNumber(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) (int, error) {
-	// First, try direct search (works for unencrypted or if object header is visible)
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex != -1 {
-		if verbose {
-			log.Printf("Found object %d at byte position %d (direct search)", objNum, objIndex)
-		}
-		return objIndex, nil
-	}
-
-	// If not found, try parsing cross-reference table (works for encrypted PDFs)
-	// Find startxref directly (works even without trailer keyword)
-	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	startxrefMatch := startxrefPattern.FindStringSubmatch(string(pdfBytes))
-
-	if startxrefMatch != nil {
-		startXRef, err := strconv.ParseInt(startxrefMatch[1], 10, 64)
-		if err == nil && startXRef > 0 {
-			if verbose {
-				log.Printf("Found startxref at offset %d, attempting to parse cross-reference", startXRef)
-			}
-			objMap, xrefErr := ParseCrossReferenceTableWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
-			if xrefErr != nil {
-				if verbose {
-					log.Printf("Error parsing xref table: %v", xrefErr)
-				}
-			} else {
-				if verbose {
-					log.Printf("Parsed xref table: found %d objects", len(objMap))
-				}
-				if offset, ok := objMap[objNum]; ok {
-					if verbose {
-						log.Printf("Found object %d via cross-reference table at offset %d", objNum, offset)
-					}
-					return int(offset), nil
-				} else if verbose {
-					log.Printf("Object %d not found in xref table (available objects: %v)", objNum, GetSampleObjectNumbers(objMap, 10))
-				}
-			}
-		}
-	} else if verbose {
-		log.Printf("No startxref found in PDF")
+	loc, err := FindObjectLocation(pdfBytes, objNum, verbose)
+	if err == nil && loc.IsDirect {
+		return int(loc.ByteOffset), nil
 	}
 
 	return -1, fmt.Errorf("object %d not found", objNum)
@@ -161,16 +105,18 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
 	}
 
-	// Read from startxref position to determine type
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(5000, len(xrefSection))])
-
-	// Check if it's a cross-reference stream (PDF 1.5+)
-	// Cross-reference streams have /Type/XRef and /W[widths]
-	if strings.Contains(xrefStr, "/Type/XRef") || strings.Contains(xrefStr, "/W[") {
-		// Cross-reference stream - need to find the stream object and decompress it
+	// Check if it's a cross-reference stream (PDF 1.5+), which is an
+	// indirect object, unlike a table
+	if _, _, _, ok := pdfscan.ObjectHeader(pdfBytes, pdfscan.SkipSpace(pdfBytes, int(startXRef))); ok {
 		return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
 	}
+	if !bytes.HasPrefix(pdfBytes[startXRef:], []byte("xref")) {
+		// Damaged offset: decide by what is nearby
+		nearby := pdfBytes[startXRef:min(int(startXRef)+5000, len(pdfBytes))]
+		if bytes.Contains(nearby, []byte("/Type/XRef")) || bytes.Contains(nearby, []byte("/W[")) {
+			return ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose)
+		}
+	}
 
 	// Traditional xref table
 	return ParseTraditionalXRefTable(pdfBytes, startXRef)
@@ -178,61 +124,25 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 
 // ParseTraditionalXRefTable parses a traditional PDF cross-reference table
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
 	objMap := make(map[int]int64)
 
-	// Read from startxref position
+	// Find xref keyword at (or near) the startxref position
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
-
-	// Find xref keyword
-	xrefPos := strings.Index(xrefStr, "xref")
+	xrefPos := bytes.Index(xrefSection[:min(10000, len(xrefSection))], []byte("xref"))
 	if xrefPos == -1 {
 		return nil, fmt.Errorf("xref keyword not found")
 	}
 
-	// Parse xref subsections
-	// Format: xref\n0 N\nM K\n... where:
-	// - First line after "xref": "0 N" means starting object 0, N entries
-	// - Subsequent lines: "offset generation f" or "offset generation n"
-	//   where f=free, n=in-use
-	lines := strings.Split(xrefStr[xrefPos:], "\n")
-
-	currentObjNum := 0
-	inSubsection := false
-
-	for i, line := range lines {
-		if i == 0 {
-			continue // Skip "xref" line
-		}
-
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
-
-		fields := strings.Fields(line)
-		if len(fields) == 2 {
-			// Subsection header: "first_obj_num count"
-			firstObj, err1 := strconv.Atoi(fields[0])
-			_, err2 := strconv.Atoi(fields[1])
-			if err1 == nil && err2 == nil {
-				currentObjNum = firstObj
-				inSubsection = true
-				continue
-			}
-		}
-
-		if inSubsection && len(fields) >= 3 {
-			// Entry: "offset generation flag"
-			offset, err1 := strconv.ParseInt(fields[0], 10, 64)
-			_, err2 := strconv.Atoi(fields[1])
-			flag := fields[2]
-
-			if err1 == nil && err2 == nil && flag == "n" {
-				// In-use object
-				objMap[currentObjNum] = offset
-			}
-			currentObjNum++
+	entries, _, err := scanXRefTable(xrefSection[xrefPos:])
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if entry.InUse {
+			objMap[entry.ObjectNum] = entry.Offset
 		}
 	}
 
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..2cce373 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -1,15 +1,9 @@
 package parse
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
 	"fmt"
-	"io"
-	"regexp"
-	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -24,175 +18,30 @@ func ParseXRefStream(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo *types.PDFEncryption, verbose bool) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
-	// The xref stream object should be at startXRef
-	// Find object number - it should be at or near startXRef
-	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
-
-	// Find object number - it should be near the start (usually the first thing)
-	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
-	objMatch := objPattern.FindStringSubmatch(xrefStr)
-	if objMatch == nil {
-		// Try searching a bit before startXRef in case of offset issues
-		var searchStart int64 = 0
-		if startXRef > 100 {
-			searchStart = startXRef - 100
-		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
-		searchStr := string(searchSection)
-		objMatch = objPattern.FindStringSubmatch(searchStr)
-		if objMatch == nil {
-			return nil, fmt.Errorf("xref stream object not found")
-		}
-	}
-
-	// Find the stream dictionary
-	dictStart := bytes.Index(xrefSection, []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("xref stream dictionary not found")
-	}
-
-	// Find /Size entry (total number of objects)
-	sizePattern := regexp.MustCompile(`/Size\s+(\d+)`)
-	sizeMatch := sizePattern.FindStringSubmatch(xrefStr[dictStart:])
-	if sizeMatch == nil {
-		return nil, fmt.Errorf("/Size not found in xref stream")
-	}
-
-	// Find /W entry (field widths: [w1 w2 w3])
-	wPattern := regexp.MustCompile(`/W\s*\[\s*(\d+)\s+(\d+)\s+(\d+)\s*\]`)
-	wMatch := wPattern.FindStringSubmatch(xrefStr[dictStart:])
-	if wMatch == nil {
-		return nil, fmt.Errorf("/W not found in xref stream")
-	}
-
-	w1, _ := strconv.Atoi(wMatch[1]) // Type field width
-	w2, _ := strconv.Atoi(wMatch[2]) // Field 2 width (usually offset)
-	w3, _ := strconv.Atoi(wMatch[3]) // Field 3 width (usually generation)
-
-	// Find /Index entry if present (subsections)
-	// Format: /Index [first1 count1 first2 count2 ...]
-	// /Index defines which object numbers are in this xref stream
-	indexPattern := regexp.MustCompile(`/Index\s*\[\s*([^\]]+)\]`)
-	indexMatch := indexPattern.FindStringSubmatch(xrefStr[dictStart:])
-
-	var subsections []struct{ first, count int }
-	if indexMatch != nil {
-		// Parse index array - this tells us which object numbers are in this stream
-		indexFields := strings.Fields(indexMatch[1])
-		for i := 0; i < len(indexFields)-1; i += 2 {
-			first, _ := strconv.Atoi(indexFields[i])
-			count, _ := strconv.Atoi(indexFields[i+1])
-			subsections = append(subsections, struct{ first, count int }{first, count})
-		}
-	} else {
-		// Default: single subsection starting at 0, up to /Size
-		size, _ := strconv.Atoi(sizeMatch[1])
-		subsections = []struct{ first, count int }{{0, size}}
-	}
-
-	// Find stream content
-	// Look for "stream" after the dictionary
-	streamKeywordPos := bytes.Index(xrefSection[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	streamKeywordStart := dictStart + streamKeywordPos
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamDataStart := streamKeywordStart + 6
-	for streamDataStart < len(xrefSection) && (xrefSection[streamDataStart] == '\r' || xrefSection[streamDataStart] == '\n' || xrefSection[streamDataStart] == ' ' || xrefSection[streamDataStart] == '\t') {
-		streamDataStart++
-	}
-
-	// Find endstream
-	streamEndPos := bytes.Index(xrefSection[streamDataStart:], []byte("endstream"))
-	if streamEndPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-
-	// Extract stream content (raw bytes, don't trim)
-	streamContent := xrefSection[streamDataStart : streamDataStart+streamEndPos]
-
-	// Note: Xref streams are typically NOT encrypted (they're needed to decrypt other objects)
-	// The stream content should be FlateDecode compressed binary data
-	// FlateDecode can be either raw deflate or zlib-wrapped
-
-	// Try zlib decompression first (FlateDecode is usually zlib-wrapped)
-	// If that fails, try raw deflate
-	var decompressed []byte
-	var err error
-
-	zlibReader, zlibErr := zlib.NewReader(bytes.NewReader(streamContent))
-	if zlibErr == nil {
-		decompressed, err = io.ReadAll(zlibReader)
-		zlibReader.Close()
-		if err != nil {
-			// zlib read failed, try raw deflate
-			flateReader := flate.NewReader(bytes.NewReader(streamContent))
-			decompressed, err = io.ReadAll(flateReader)
-			flateReader.Close()
-		}
-	} else {
-		// zlib.NewReader failed (not zlib format), try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamContent))
-		decompressed, err = io.ReadAll(flateReader)
-		flateReader.Close()
-	}
-
+	// Note: xref streams are NOT encrypted (they're needed to decrypt other objects)
+	entries, err := readXRefStream(pdfBytes, startXRef)
 	if err != nil {
-		return nil, fmt.Errorf("error decompressing xref stream (tried zlib and deflate): %v", err)
-	}
-
-	// Parse decompressed stream data
-	// Each entry is w1+w2+w3 bytes
-	entrySize := w1 + w2 + w3
-	if entrySize == 0 {
-		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+		return nil, err
 	}
 
-	entryIndex := 0
-
-	for _, sub := range subsections {
-		for objNum := sub.first; objNum < sub.first+sub.count; objNum++ {
-			if entryIndex*entrySize+entrySize > len(decompressed) {
-				break
+	for _, entry := range entries {
+		switch entry.Type {
+		case 1:
+			// Type 1: uncompressed, in-use object
+			if entry.Field2 > 0 {
+				objMap[entry.ObjNum] = entry.Field2
 			}
-
-			entry := decompressed[entryIndex*entrySize : entryIndex*entrySize+entrySize]
-
-			// Parse entry based on type (first w1 bytes)
-			typeVal := 0
-			for i := 0; i < w1 && i < len(entry); i++ {
-				typeVal = typeVal<<8 | int(entry[i])
-			}
-
-			// Calculate offset for all types (field 2)
-			offset := int64(0)
-			for i := w1; i < w1+w2 && i < len(entry); i++ {
-				offset = offset<<8 | int64(entry[i])
-			}
-
-			if typeVal == 1 {
-				// Type 1: uncompressed, in-use object
-				if offset > 0 {
-					objMap[objNum] = offset
-				}
-			} else if typeVal == 2 {
-				// Type 2: compressed object (object stream)
-				// Field 2 is object stream number, field 3 is index within stream
-				// For compressed objects, we'd need to parse the object stream
-				// For now, skip - would need object stream parsing
-			} else if typeVal == 0 {
-				// Type 0: free object
-				// However, some PDFs incorrectly mark in-use objects as type 0
-				// If offset looks valid, include it (object 212 is type 0 but has offset 66048)
-				if offset > 100 && offset < int64(len(pdfBytes)) {
-					objMap[objNum] = offset
+		case 2:
+			// Type 2: compressed object (object stream), not covered by this map
+		case 0:
+			// Type 0: free object
+			// However, some PDFs incorrectly mark in-use objects as type 0:
+			// include the object if it really is at that offset
+			if entry.Field2 > 0 && entry.Field2 < int64(len(pdfBytes)) {
+				if num, _, _, ok := pdfscan.ObjectHeader(pdfBytes, int(entry.Field2)); ok && num == entry.ObjNum {
+					objMap[entry.ObjNum] = entry.Field2
 				}
 			}
-
-			entryIndex++
 		}
 	}
 
diff --git a/core/parse/xref_stream_data.go b/core/parse/xref_stream_data.go
new file mode 100644
index 0000000..f57a388
--- /dev/null
+++ b/core/parse/xref_stream_data.go
@@ -0,0 +1,228 @@
+package parse
+
+import (
+	"bytes"
+	"compress/flate"
+	"compress/zlib"
+	"fmt"
+	"io"
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+// xrefStreamEntry is one decoded entry of a cross-reference stream.
+type xrefStreamEntry struct {
+	ObjNum int
+	Type   int
+	Field2 int64
+	Field3 int64
+}
+
+// maxXRefField is the largest supported width of a cross-reference stream field.
+const maxXRefField = 16
+
+// readXRefStream decodes the entries of the cross-reference stream at startXRef.
+func readXRefStream(pdfBytes []byte, startXRef int64) ([]xrefStreamEntry, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+	section := pdfBytes[startXRef:]
+	span, ok := pdfscan.Object(section, nil)
+	if !ok || !span.IsStream {
+		// The offset may be slightly off: look for an object header nearby
+		section, span, ok = nearbyStream(pdfBytes, startXRef)
+		if !ok {
+			return nil, fmt.Errorf("xref stream object not found")
+		}
+	}
+	dict := section[span.DictStart:span.DictEnd]
+
+	size, ok := pdfscan.DictInt(dict, "Size")
+	if !ok {
+		return nil, fmt.Errorf("/Size not found in xref stream")
+	}
+	widths, ok := intArray(pdfscan.DictValue(dict, "W"))
+	if !ok || len(widths) < 3 {
+		return nil, fmt.Errorf("/W not found in xref stream")
+	}
+	for _, w := range widths[:3] {
+		if w < 0 || w > maxXRefField {
+			return nil, fmt.Errorf("invalid field width in xref stream: %d", w)
+		}
+	}
+	w1, w2, w3 := widths[0], widths[1], widths[2]
+	entrySize := w1 + w2 + w3
+	if entrySize == 0 {
+		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+	}
+	index := []int{0, size}
+	if value := pdfscan.DictValue(dict, "Index"); value != nil {
+		if index, ok = intArray(value); !ok {
+			return nil, fmt.Errorf("invalid /Index in xref stream")
+		}
+	}
+
+	data, err := decodeStreamData(dict, section[span.StreamStart:span.StreamEnd])
+	if err != nil {
+		return nil, err
+	}
+
+	var entries []xrefStreamEntry
+	for i := 0; i+1 < len(index); i += 2 {
+		for n := 0; n < index[i+1] && len(data) >= entrySize; n++ {
+			entry := xrefStreamEntry{ObjNum: index[i] + n, Type: 1}
+			if w1 > 0 {
+				entry.Type = int(bigEndian(data[:w1]))
+			}
+			entry.Field2 = bigEndian(data[w1 : w1+w2])
+			entry.Field3 = bigEndian(data[w1+w2 : entrySize])
+			entries = append(entries, entry)
+			data = data[entrySize:]
+		}
+	}
+	return entries, nil
+}
+
+// nearbyStream looks for a stream object whose header lies close to offset.
+func nearbyStream(pdfBytes []byte, offset int64) (section []byte, span pdfscan.ObjectSpan, ok bool) {
+	from := max(0, int(offset)-100)
+	to := min(len(pdfBytes), int(offset)+500)
+	for pos := from; pos < to; pos++ {
+		c := pdfBytes[pos]
+		if c < '0' || c > '9' || pos > 0 && pdfscan.IsRegular(pdfBytes[pos-1]) {
+			continue
+		}
+		if _, _, _, ok := pdfscan.ObjectHeader(pdfBytes, pos); !ok {
+			continue
+		}
+		if span, ok := pdfscan.Object(pdfBytes[pos:], nil); ok && span.IsStream {
+			return pdfBytes[pos:], span, true
+		}
+	}
+	return nil, span, false
+}
+
+func bigEndian(data []byte) int64 {
+	var value int64
+	for _, b := range data {
+		value = value<<8 | int64(b)
+	}
+	return value
+}
+
+// intArray parses an array of integers.
+func intArray(value []byte) ([]int, bool) {
+	if len(value) < 2 || value[0] != '[' || value[len(value)-1] != ']' {
+		return nil, false
+	}
+	var result []int
+	for _, field := range strings.Fields(string(value[1 : len(value)-1])) {
+		n, err := strconv.Atoi(field)
+		if err != nil || n < 0 || n > 1<<31 {
+			return nil, false
+		}
+		result = append(result, n)
+	}
+	return result, true
+}
+
+// decodeStreamData applies the filters and the predictor of a cross-reference
+// or object stream, whose data is not (or no longer) encrypted.
+func decodeStreamData(dict, data []byte) ([]byte, error) {
+	filters := strings.Trim(string(pdfscan.DictValue(dict, "Filter")), "[]")
+	for _, name := range strings.FieldsFunc(filters, func(r rune) bool { return r <= ' ' || r == '/' }) {
+		var err error
+		if name == "FlateDecode" {
+			data, err = inflate(data)
+		} else {
+			data, err = DecodeFilter(data, name)
+		}
+		if err != nil {
+			return nil, fmt.Errorf("error decompressing stream: %v", err)
+		}
+	}
+	parms := bytes.TrimSpace(bytes.Trim(pdfscan.DictValue(dict, "DecodeParms"), "[]"))
+	if len(parms) == 0 {
+		return data, nil
+	}
+	predictor, _ := pdfscan.DictInt(parms, "Predictor")
+	columns, ok := pdfscan.DictInt(parms, "Columns")
+	if !ok {
+		columns = 1
+	}
+	if predictor < 10 {
+		return data, nil
+	}
+	return undoPNGPredictor(data, columns)
+}
+
+// inflate decompresses zlib data, or raw deflate data if the zlib wrapper is
+// missing or damaged.
+func inflate(data []byte) ([]byte, error) {
+	if reader, err := zlib.NewReader(bytes.NewReader(data)); err == nil {
+		result, err := io.ReadAll(reader)
+		reader.Close()
+		if err == nil {
+			return result, nil
+		}
+	}
+	reader := flate.NewReader(bytes.NewReader(data))
+	defer reader.Close()
+	return io.ReadAll(reader)
+}
+
+// undoPNGPredictor reverses the PNG row filters for rows of one-byte samples.
+func undoPNGPredictor(data []byte, columns int) ([]byte, error) {
+	if columns < 1 {
+		return nil, fmt.Errorf("invalid /Columns: %d", columns)
+	}
+	rows := len(data) / (columns + 1)
+	if rows == 0 {
+		return nil, nil
+	}
+	decoded := make([]byte, 0, rows*columns)
+	prev := make([]byte, columns)
+	for ; rows > 0; rows-- {
+		tag, row := data[0], append([]byte{}, data[1:columns+1]...)
+		data = data[columns+1:]
+		for i := range row {
+			var left, upperLeft byte
+			if i > 0 {
+				left, upperLeft = row[i-1], prev[i-1]
+			}
+			switch tag {
+			case 1: // Sub
+				row[i] += left
+			case 2: // Up
+				row[i] += prev[i]
+			case 3: // Average
+				row[i] += byte((int(left) + int(prev[i])) / 2)
+			case 4: // Paeth
+				row[i] += paeth(left, prev[i], upperLeft)
+			}
+		}
+		decoded = append(decoded, row...)
+		prev = row
+	}
+	return decoded, nil
+}
+
+func paeth(left, up, upperLeft byte) byte {
+	p := int(left) + int(up) - int(upperLeft)
+	distance := func(b byte) int {
+		if d := p - int(b); d >= 0 {
+			return d
+		}
+		return int(b) - p
+	}
+	dl, du, dul := distance(left), distance(up), distance(upperLeft)
+	if dl <= du && dl <= dul {
+		return left
+	}
+	if du <= dul {
+		return up
+	}
+	return upperLeft
+}
diff --git a/core/parse/xref_table.go b/core/parse/xref_table.go
new file mode 100644
index 0000000..65df6e0
--- /dev/null
+++ b/core/parse/xref_table.go
@@ -0,0 +1,94 @@
+package parse
+
+import (
+	"bytes"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+// scanXRefTable reads the entries of a traditional cross-reference table whose
+// "xref" keyword starts the section. It returns the entries and the position
+// of the first token that is not part of the table (normally "trailer").
+func scanXRefTable(section []byte) (entries []XRefEntry, end int, err error) {
+	if !bytes.HasPrefix(section, []byte("xref")) {
+		return nil, 0, fmt.Errorf("xref keyword not found")
+	}
+	pos := len("xref")
+	objNum := 0
+	inSubsection := false
+	for {
+		start := pdfscan.SkipSpace(section, pos)
+		first, next, ok := pdfscan.Uint(section, start)
+		if !ok {
+			return entries, start, nil
+		}
+		second, next, ok := pdfscan.Uint(section, pdfscan.SkipSpace(section, next))
+		if !ok {
+			return entries, start, nil
+		}
+		flag := pdfscan.SkipSpace(section, next)
+		if pdfscan.HasKeyword(section, flag, "n") || pdfscan.HasKeyword(section, flag, "f") {
+			// Entry: offset, generation, flag
+			pos = flag + 1
+			if !inSubsection {
+				continue
+			}
+			entry := XRefEntry{
+				ObjectNum:  objNum,
+				Generation: second,
+				Offset:     int64(first),
+				InUse:      section[flag] == 'n',
+				RawBytes:   append([]byte{}, section[start:pos]...),
+			}
+			entries = append(entries, entry)
+			objNum++
+			continue
+		}
+		// Subsection header: first object number, count
+		objNum = first
+		inSubsection = true
+		pos = next
+	}
+}
+
+// trailerDict returns the trailer dictionary that follows a traditional
+// cross-reference table starting at the beginning of the section.
+func trailerDict(section []byte) ([]byte, error) {
+	_, pos, err := scanXRefTable(section)
+	if err != nil || !bytes.HasPrefix(section[pos:], []byte("trailer")) {
+		pos = bytes.Index(section, []byte("trailer"))
+		if pos == -1 {
+			return nil, fmt.Errorf("no trailer found")
+		}
+	}
+	start := pdfscan.SkipSpace(section, pos+len("trailer"))
+	if !bytes.HasPrefix(section[start:], []byte("<<")) {
+		return nil, fmt.Errorf("trailer dictionary not found")
+	}
+	end, ok := pdfscan.SkipValue(section, start)
+	if !ok {
+		return nil, fmt.Errorf("trailer dictionary not terminated")
+	}
+	return section[start:end], nil
+}
+
+// xrefStreamDict returns the dictionary of the cross-reference stream at the
+// beginning of the section. Writers that keep the document-level entries in a
+// separate trailer dictionary behind the stream are accommodated: the second
+// result is that dictionary, or nil.
+func xrefStreamDict(section []byte) (dict, trailer []byte) {
+	span, ok := pdfscan.Object(section, nil)
+	if !ok || !span.IsStream {
+		return nil, nil
+	}
+	dict = section[span.DictStart:span.DictEnd]
+	pos := pdfscan.SkipSpace(section, span.EndObj+len("endobj"))
+	if pdfscan.HasKeyword(section, pos, "trailer") {
+		start := pdfscan.SkipSpace(section, pos+len("trailer"))
+		if end, ok := pdfscan.SkipValue(section, start); ok {
+			trailer = section[start:end]
+		}
+	}
+	return dict, trailer
+}
diff --git a/internal/pdfscan/scan.go b/internal/pdfscan/scan.go
new file mode 100644
index 0000000..e7061b9
--- /dev/null
+++ b/internal/pdfscan/scan.go
@@ -0,0 +1,553 @@
+// Package pdfscan holds the low-level PDF tokenizer the other packages share.
+package pdfscan
+
+import (
+	"bytes"
+	"fmt"
+	"strconv"
+)
+
+// ObjectSpan describes the layout of an indirect object. All positions are
+// relative to the start of the scanned data.
+type ObjectSpan struct {
+	Num, Gen     int
+	ContentStart int // first byte of the value
+	ContentEnd   int // just past the value (past "endstream" for a stream)
+	EndObj       int // position of the "endobj" keyword
+	IsStream     bool
+	DictStart    int // dictionary of a stream
+	DictEnd      int
+	StreamStart  int // stream data
+	StreamEnd    int
+}
+
+// LengthResolver returns the value of an indirect /Length.
+type LengthResolver func(objNum int) (int, bool)
+
+func IsSpace(b byte) bool {
+	return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0
+}
+
+func IsDelimiter(b byte) bool {
+	switch b {
+	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
+		return true
+	}
+	return false
+}
+
+func IsRegular(b byte) bool { return !IsSpace(b) && !IsDelimiter(b) }
+
+// SkipSpace skips white space and comments.
+func SkipSpace(data []byte, pos int) int {
+	for pos < len(data) {
+		if IsSpace(data[pos]) {
+			pos++
+		} else if data[pos] == '%' {
+			for pos < len(data) && data[pos] != '\r' && data[pos] != '\n' {
+				pos++
+			}
+		} else {
+			break
+		}
+	}
+	return pos
+}
+
+// Uint reads an unsigned decimal number at pos.
+func Uint(data []byte, pos int) (value, end int, ok bool) {
+	end = pos
+	for end < len(data) && data[end] >= '0' && data[end] <= '9' {
+		end++
+	}
+	if end == pos || end-pos > 18 {
+		return 0, pos, false
+	}
+	value, err := strconv.Atoi(string(data[pos:end]))
+	return value, end, err == nil
+}
+
+// HasKeyword reports whether the keyword stands at pos as a complete token.
+func HasKeyword(data []byte, pos int, keyword string) bool {
+	if pos < 0 || pos > len(data) || !bytes.HasPrefix(data[pos:], []byte(keyword)) {
+		return false
+	}
+	end := pos + len(keyword)
+	return end >= len(data) || !IsRegular(data[end])
+}
+
+// SkipString skips a literal string starting at '('.
+func SkipString(data []byte, pos int) (int, bool) {
+	depth := 0
+	for pos < len(data) {
+		switch data[pos] {
+		case '\\':
+			pos++
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return pos + 1, true
+			}
+		}
+		pos++
+	}
+	return pos, false
+}
+
+// SkipValue skips one complete object value (without the stream part of a
+// stream) starting at the first byte of the value.
+func SkipValue(data []byte, pos int) (int, bool) {
+	var open []byte // enclosing containers: '[' or '<'
+	for {
+		pos = SkipSpace(data, pos)
+		if pos >= len(data) {
+			return pos, false
+		}
+		switch c := data[pos]; {
+		case c == '(':
+			end, ok := SkipString(data, pos)
+			if !ok {
+				return pos, false
+			}
+			pos = end
+		case c == '<' && pos+1 < len(data) && data[pos+1] == '<':
+			open = append(open, '<')
+			pos += 2
+			continue
+		case c == '<':
+			end := bytes.IndexByte(data[pos:], '>')
+			if end == -1 {
+				return pos, false
+			}
+			pos += end + 1
+		case c == '>':
+			if len(open) == 0 || open[len(open)-1] != '<' || pos+1 >= len(data) || data[pos+1] != '>' {
+				return pos, false
+			}
+			open = open[:len(open)-1]
+			pos += 2
+		case c == '[':
+			open = append(open, '[')
+			pos++
+			continue
+		case c == ']':
+			if len(open) == 0 || open[len(open)-1] != '[' {
+				return pos, false
+			}
+			open = open[:len(open)-1]
+			pos++
+		case c == '/':
+			pos++
+			for pos < len(data) && IsRegular(data[pos]) {
+				pos++
+			}
+		case IsRegular(c):
+			if HasKeyword(data, pos, "endobj") || HasKeyword(data, pos, "stream") {
+				return pos, false
+			}
+			if len(open) == 0 {
+				if end, ok := SkipReference(data, pos); ok {
+					return end, true
+				}
+			}
+			for pos < len(data) && IsRegular(data[pos]) {
+				pos++
+			}
+		default:
+			return pos, false
+		}
+		if len(open) == 0 {
+			return pos, true
+		}
+	}
+}
+
+// SkipReference skips an indirect reference "N G R".
+func SkipReference(data []byte, pos int) (int, bool) {
+	_, end, ok := Reference(data, pos)
+	return end, ok
+}
+
+func Reference(data []byte, pos int) (num, end int, ok bool) {
+	num, end, ok = Uint(data, pos)
+	if !ok || end >= len(data) || IsRegular(data[end]) {
+		return 0, pos, false
+	}
+	end = SkipSpace(data, end)
+	if _, end, ok = Uint(data, end); !ok {
+		return 0, pos, false
+	}
+	end = SkipSpace(data, end)
+	if !HasKeyword(data, end, "R") {
+		return 0, pos, false
+	}
+	return num, end + 1, true
+}
+
+// ObjectHeader reads "N G obj" at pos.
+func ObjectHeader(data []byte, pos int) (num, gen, end int, ok bool) {
+	num, end, ok = Uint(data, pos)
+	if !ok || end >= len(data) || !IsSpace(data[end]) {
+		return 0, 0, pos, false
+	}
+	end = SkipSpace(data, end)
+	gen, end, ok = Uint(data, end)
+	if !ok || end >= len(data) || !IsSpace(data[end]) {
+		return 0, 0, pos, false
+	}
+	end = SkipSpace(data, end)
+	if !HasKeyword(data, end, "obj") {
+		// some writers put the value or a digit right behind the keyword
+		if !bytes.HasPrefix(data[min(end, len(data)):], []byte("obj")) {
+			return 0, 0, pos, false
+		}
+	}
+	return num, gen, end + 3, true
+}
+
+// DictValue returns the raw value of a key at the top level of a dictionary,
+// or nil if the key is absent.
+func DictValue(dict []byte, key string) []byte {
+	start, end, ok := DictEntry(dict, key)
+	if !ok {
+		return nil
+	}
+	return dict[start:end]
+}
+
+// DictEntry returns the extent of the value of a key at the top level of a
+// dictionary.
+func DictEntry(dict []byte, key string) (start, end int, ok bool) {
+	pos := SkipSpace(dict, 0)
+	if !bytes.HasPrefix(dict[pos:], []byte("<<")) {
+		return 0, 0, false
+	}
+	pos += 2
+	for {
+		pos = SkipSpace(dict, pos)
+		if pos >= len(dict) || dict[pos] != '/' {
+			return 0, 0, false
+		}
+		nameStart := pos + 1
+		pos = nameStart
+		for pos < len(dict) && IsRegular(dict[pos]) {
+			pos++
+		}
+		name := string(dict[nameStart:pos])
+		start = SkipSpace(dict, pos)
+		end, ok = SkipValue(dict, start)
+		if !ok {
+			return 0, 0, false
+		}
+		if name == key {
+			return start, end, true
+		}
+		pos = end
+	}
+}
+
+// DictInt returns the integer value of a key at the top level of a dictionary.
+func DictInt(dict []byte, key string) (int, bool) {
+	value := DictValue(dict, key)
+	if value == nil {
+		return 0, false
+	}
+	n, err := strconv.Atoi(string(value))
+	return n, err == nil
+}
+
+// DictReference returns the "N G R" value of a key, or "".
+func DictReference(dict []byte, key string) string {
+	value := DictValue(dict, key)
+	if _, end, ok := Reference(value, 0); ok && end == len(value) {
+		return string(value)
+	}
+	return ""
+}
+
+// Object determines the extent of the indirect object whose header stands
+// at the start of data. Keywords inside strings, names, comments or stream
+// data do not count; stream data is delimited by /Length whenever that leads
+// to an "endstream" keyword.
+func Object(data []byte, resolve LengthResolver) (span ObjectSpan, ok bool) {
+	start := SkipSpace(data, 0)
+	num, gen, pos, ok := ObjectHeader(data, start)
+	if !ok {
+		return span, false
+	}
+	span.Num, span.Gen = num, gen
+	span.ContentStart = SkipSpace(data, pos)
+	if HasKeyword(data, span.ContentStart, "endobj") {
+		span.ContentEnd, span.EndObj = span.ContentStart, span.ContentStart
+		return span, true
+	}
+	end, ok := SkipValue(data, span.ContentStart)
+	if !ok {
+		return span, false
+	}
+	span.ContentEnd = end
+	next := SkipSpace(data, end)
+	if HasKeyword(data, next, "endobj") {
+		span.EndObj = next
+		return span, true
+	}
+	if !bytes.HasPrefix(data[span.ContentStart:], []byte("<<")) || !bytes.HasPrefix(data[next:], []byte("stream")) {
+		return span, false
+	}
+
+	// Stream: one end-of-line marker separates the keyword from the data
+	span.IsStream = true
+	span.DictStart, span.DictEnd = span.ContentStart, end
+	pos = next + len("stream")
+	if pos < len(data) && data[pos] == '\r' {
+		pos++
+	}
+	if pos < len(data) && data[pos] == '\n' {
+		pos++
+	}
+	span.StreamStart = pos
+
+	dict := data[span.DictStart:span.DictEnd]
+	length, known := DictInt(dict, "Length")
+	if value := DictValue(dict, "Length"); !known && value != nil && resolve != nil {
+		if objNum, _, isRef := Reference(value, 0); isRef {
+			length, known = resolve(objNum)
+		}
+	}
+	if known && length >= 0 && length <= len(data)-pos {
+		after := pos + length
+		for after < len(data) && IsSpace(data[after]) {
+			after++
+		}
+		if HasKeyword(data, after, "endstream") {
+			span.StreamEnd = pos + length
+			return span, span.finish(data, after)
+		}
+	}
+
+	// /Length is missing or wrong: take the first "endstream"
+	idx := bytes.Index(data[pos:], []byte("endstream"))
+	if idx == -1 {
+		return span, false
+	}
+	span.StreamEnd = pos + idx
+	if span.StreamEnd > pos && data[span.StreamEnd-1] == '\n' {
+		span.StreamEnd--
+	}
+	if span.StreamEnd > pos && data[span.StreamEnd-1] == '\r' {
+		span.StreamEnd--
+	}
+	return span, span.finish(data, pos+idx)
+}
+
+// finish records the end of a stream object whose "endstream" is at pos.
+func (s *ObjectSpan) finish(data []byte, pos int) bool {
+	s.ContentEnd = pos + len("endstream")
+	next := SkipSpace(data, s.ContentEnd)
+	if HasKeyword(data, next, "endobj") {
+		s.EndObj = next
+		return true
+	}
+	idx := bytes.Index(data[s.ContentEnd:], []byte("endobj"))
+	if idx == -1 {
+		return false
+	}
+	s.EndObj = s.ContentEnd + idx
+	return true
+}
+
+// SearchObject is the keyword-search fallback for objects Object cannot
+// make sense of.
+func SearchObject(data []byte) (span ObjectSpan, ok bool) {
+	endObj := bytes.Index(data, []byte("endobj"))
+	if endObj == -1 {
+		return span, false
+	}
+	span.EndObj, span.ContentEnd = endObj, endObj
+	if idx := bytes.Index(data[:endObj], []byte("obj")); idx != -1 {
+		span.ContentStart = idx + len("obj")
+		for span.ContentStart < endObj && IsSpace(data[span.ContentStart]) {
+			span.ContentStart++
+		}
+	}
+	keyword := bytes.Index(data[span.ContentStart:endObj], []byte("stream"))
+	if keyword == -1 {
+		return span, true
+	}
+	keyword += span.ContentStart
+	pos := keyword + len("stream")
+	end := bytes.Index(data[keyword:endObj], []byte("endstream"))
+	if end <= 0 {
+		return span, true
+	}
+	end += keyword
+	span.IsStream = true
+	span.DictStart, span.DictEnd = span.ContentStart, keyword
+	if pos < end && data[pos] == '\r' {
+		pos++
+	}
+	if pos < end && data[pos] == '\n' {
+		pos++
+	}
+	span.StreamStart, span.StreamEnd = pos, end
+	span.ContentEnd = end + len("endstream")
+	return span, true
+}
+// SetDictLength returns the dictionary with /Length set to a direct value.
+func SetDictLength(dict []byte, length int) []byte {
+	text := []byte(fmt.Sprintf("%d", length))
+	start, valueEnd, ok := DictEntry(dict, "Length")
+	if !ok {
+		end := bytes.LastIndex(dict, []byte(">>"))
+		if end == -1 {
+			return dict
+		}
+		result := append([]byte{}, dict[:end]...)
+		result = append(result, "/Length "...)
+		return append(append(result, text...), dict[end:]...)
+	}
+	result := append([]byte{}, dict[:start]...)
+	return append(append(result, text...), dict[valueEnd:]...)
+}
+
+// MapStrings rewrites every string of a value with fn, which gets the decoded
+// bytes and reports whether to replace them.
+func MapStrings(value []byte, fn func(plain []byte) ([]byte, bool)) []byte {
+	var result []byte
+	copied := 0
+	for pos := 0; pos < len(value); {
+		end := pos
+		switch c := value[pos]; {
+		case c == '%':
+			pos = SkipSpace(value, pos)
+			continue
+		case c == '(':
+			var ok bool
+			if end, ok = SkipString(value, pos); !ok {
+				pos = len(value)
+				continue
+			}
+		case c == '<' && pos+1 < len(value) && value[pos+1] == '<':
+			pos += 2
+			continue
+		case c == '<':
+			idx := bytes.IndexByte(value[pos:], '>')
+			if idx == -1 {
+				pos = len(value)
+				continue
+			}
+			end = pos + idx + 1
+		default:
+			pos++
+			continue
+		}
+		if text, ok := fn(DecodeString(value[pos:end])); ok {
+			result = append(result, value[copied:pos]...)
+			result = append(result, EncodeString(text)...)
+			copied = end
+		}
+		pos = end
+	}
+	if copied == 0 {
+		return value
+	}
+	return append(result, value[copied:]...)
+}
+
+// DecodeString returns the bytes denoted by a literal or hexadecimal string.
+func DecodeString(token []byte) []byte {
+	if len(token) < 2 {
+		return nil
+	}
+	if token[0] == '<' {
+		var out []byte
+		high := -1
+		for _, c := range token[1 : len(token)-1] {
+			var digit int
+			switch {
+			case c >= '0' && c <= '9':
+				digit = int(c - '0')
+			case c >= 'a' && c <= 'f':
+				digit = int(c-'a') + 10
+			case c >= 'A' && c <= 'F':
+				digit = int(c-'A') + 10
+			default:
+				continue
+			}
+			if high < 0 {
+				high = digit
+			} else {
+				out = append(out, byte(high<<4|digit))
+				high = -1
+			}
+		}
+		if high >= 0 {
+			out = append(out, byte(high<<4))
+		}
+		return out
+	}
+
+	body := token[1 : len(token)-1]
+	var out []byte
+	for i := 0; i < len(body); i++ {
+		c := body[i]
+		if c == '\r' {
+			// an end-of-line marker inside a string reads as a line feed
+			if i+1 < len(body) && body[i+1] == '\n' {
+				i++
+			}
+			out = append(out, '\n')
+			continue
+		}
+		if c != '\\' || i+1 >= len(body) {
+			out = append(out, c)
+			continue
+		}
+		i++
+		switch c = body[i]; c {
+		case 'n':
+			out = append(out, '\n')
+		case 'r':
+			out = append(out, '\r')
+		case 't':
+			out = append(out, '\t')
+		case 'b':
+			out = append(out, '\b')
+		case 'f':
+			out = append(out, '\f')
+		case '\n':
+		case '\r':
+			if i+1 < len(body) && body[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			v := int(c - '0')
+			for n := 0; n < 2 && i+1 < len(body) && body[i+1] >= '0' && body[i+1] <= '7'; n++ {
+				i++
+				v = v<<3 | int(body[i]-'0')
+			}
+			out = append(out, byte(v))
+		default:
+			out = append(out, c)
+		}
+	}
+	return out
+}
+
+// EncodeString writes bytes as a literal string.
+func EncodeString(data []byte) []byte {
+	out := []byte{'('}
+	for _, c := range data {
+		switch c {
+		case '(', ')', '\\':
+			out = append(out, '\\', c)
+		case '\r':
+			out = append(out, '\\', 'r')
+		default:
+			out = append(out, c)
+		}
+	}
+	return append(out, ')')
+}
-- 
2.43.0


From 3e0957b73e58d0a0a9bedb74b9163f433c9a5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 02/41] fix: classify wrapped errors, keep cleared warnings
 apart

The error helpers looked only at the outermost error, so a PDFError wrapped with
%w was not recognised. Clear reused the backing array of lists already handed
out by Warnings, whose entries then changed under the caller.
---
 types/errors.go   | 14 ++++++++------
 types/warnings.go |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/types/errors.go b/types/errors.go
index ca28617..ec8050c 100644
--- a/types/errors.go
+++ b/types/errors.go
@@ -1,6 +1,7 @@
 package types
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -154,9 +155,10 @@ var (
 	ErrIOError = &PDFError{Code: ErrCodeIOError}
 )
 
-// IsPDFError checks if an error is a PDFError and returns it
+// IsPDFError checks if an error is, or wraps, a PDFError and returns it
 func IsPDFError(err error) (*PDFError, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	var pdfErr *PDFError
+	if errors.As(err, &pdfErr) {
 		return pdfErr, true
 	}
 	return nil, false
@@ -164,7 +166,7 @@ func IsPDFError(err error) (*PDFError, bool) {
 
 // GetErrorCode extracts the error code from an error if it's a PDFError
 func GetErrorCode(err error) (PDFErrorCode, bool) {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code, true
 	}
 	return "", false
@@ -172,7 +174,7 @@ func GetErrorCode(err error) (PDFErrorCode, bool) {
 
 // IsNotFound checks if the error is an object not found error
 func IsNotFound(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeObjectNotFound || pdfErr.Code == ErrCodeFieldNotFound
 	}
 	return false
@@ -180,7 +182,7 @@ func IsNotFound(err error) bool {
 
 // IsEncryptionError checks if the error is related to encryption
 func IsEncryptionError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		switch pdfErr.Code {
 		case ErrCodeEncrypted, ErrCodeDecryptionFailed, ErrCodeWrongPassword, ErrCodeUnsupportedCrypto:
 			return true
@@ -191,7 +193,7 @@ func IsEncryptionError(err error) bool {
 
 // IsValidationError checks if the error is a validation error
 func IsValidationError(err error) bool {
-	if pdfErr, ok := err.(*PDFError); ok {
+	if pdfErr, ok := IsPDFError(err); ok {
 		return pdfErr.Code == ErrCodeValidationError || pdfErr.Code == ErrCodeInvalidValue
 	}
 	return false
diff --git a/types/warnings.go b/types/warnings.go
index 59f8557..c319177 100644
--- a/types/warnings.go
+++ b/types/warnings.go
@@ -122,9 +122,9 @@ func (wc *WarningCollector) HasWarnings() bool {
 	return len(wc.warnings) > 0
 }
 
-// Clear clears all warnings
+// Clear clears all warnings. Lists returned earlier stay as they were.
 func (wc *WarningCollector) Clear() {
-	wc.warnings = wc.warnings[:0]
+	wc.warnings = make([]*Warning, 0)
 }
 
 // FilterByLevel returns warnings filtered by level
-- 
2.43.0


From a56d34039ba9f6540be173352da4097808640365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 03/41] fix: reject malformed ASCII85 groups, skip NUL white
 space in ASCII filters

A single trailing character and groups above 2^32-1 decoded to nothing or to
wrapped-around bytes without an error; NUL is white space in PDF.
---
 core/parse/filters.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/core/parse/filters.go b/core/parse/filters.go
index 46d3933..be84962 100644
--- a/core/parse/filters.go
+++ b/core/parse/filters.go
@@ -48,7 +48,7 @@ func DecodeASCIIHex(data []byte) ([]byte, error) {
 
 	for _, b := range data {
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0 {
 			continue
 		}
 
@@ -108,7 +108,7 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 		b := data[i]
 
 		// Skip whitespace
-		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' {
+		if b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' || b == 0 {
 			continue
 		}
 
@@ -138,38 +138,46 @@ func DecodeASCII85(data []byte) ([]byte, error) {
 
 		// Process complete tuple of 5 characters
 		if tupleIndex == 5 {
-			decoded := decodeASCII85Tuple(tuple[:], 5)
+			decoded, err := decodeASCII85Tuple(tuple[:])
+			if err != nil {
+				return nil, err
+			}
 			result.Write(decoded)
 			tupleIndex = 0
 		}
 	}
 
 	// Handle partial tuple at end
+	if tupleIndex == 1 {
+		return nil, fmt.Errorf("incomplete ascii85 tuple")
+	}
 	if tupleIndex > 0 {
 		// Pad with 'u' (84) characters
 		for i := tupleIndex; i < 5; i++ {
 			tuple[i] = 84 // 'u' - '!' = 84
 		}
-		decoded := decodeASCII85Tuple(tuple[:], tupleIndex)
-		// Only write the actual bytes (not the padding)
-		bytesToWrite := tupleIndex - 1
-		if bytesToWrite > 0 {
-			result.Write(decoded[:bytesToWrite])
+		decoded, err := decodeASCII85Tuple(tuple[:])
+		if err != nil {
+			return nil, err
 		}
+		// Only write the actual bytes (not the padding)
+		result.Write(decoded[:tupleIndex-1])
 	}
 
 	return result.Bytes(), nil
 }
 
 // decodeASCII85Tuple decodes a 5-character ASCII85 tuple to 4 bytes
-func decodeASCII85Tuple(tuple []byte, count int) []byte {
+func decodeASCII85Tuple(tuple []byte) ([]byte, error) {
 	// Calculate 32-bit value from base-85 digits
-	var value uint32
-	value = uint32(tuple[0])*85*85*85*85 +
-		uint32(tuple[1])*85*85*85 +
-		uint32(tuple[2])*85*85 +
-		uint32(tuple[3])*85 +
-		uint32(tuple[4])
+	value := uint64(tuple[0])*85*85*85*85 +
+		uint64(tuple[1])*85*85*85 +
+		uint64(tuple[2])*85*85 +
+		uint64(tuple[3])*85 +
+		uint64(tuple[4])
+	if value > 0xFFFFFFFF {
+		return nil, fmt.Errorf("ascii85 tuple out of range")
+	}
 
 	// Extract 4 bytes (big-endian)
 	return []byte{
@@ -177,7 +185,7 @@ func decodeASCII85Tuple(tuple []byte, count int) []byte {
 		byte(value >> 16),
 		byte(value >> 8),
 		byte(value),
-	}
+	}, nil
 }
 
 // DecodeRunLength decodes RunLengthDecode filter data
-- 
2.43.0


From a2c021e7026acf08684669d074e1d8170fb214ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 04/41] fix: compress XFA streams as zlib, apply DecodeParms
 arrays filter by filter

---
 core/parse/xref_stream_data.go | 18 +++++++++++-------
 forms/xfa/xfa_utils.go         |  9 +++------
 internal/pdfscan/scan.go       | 22 ++++++++++++++++++++++
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/core/parse/xref_stream_data.go b/core/parse/xref_stream_data.go
index f57a388..277e1f7 100644
--- a/core/parse/xref_stream_data.go
+++ b/core/parse/xref_stream_data.go
@@ -132,29 +132,33 @@ func intArray(value []byte) ([]int, bool) {
 // or object stream, whose data is not (or no longer) encrypted.
 func decodeStreamData(dict, data []byte) ([]byte, error) {
 	filters := strings.Trim(string(pdfscan.DictValue(dict, "Filter")), "[]")
-	for _, name := range strings.FieldsFunc(filters, func(r rune) bool { return r <= ' ' || r == '/' }) {
+	parms := pdfscan.ArrayItems(pdfscan.DictValue(dict, "DecodeParms"))
+	for i, name := range strings.FieldsFunc(filters, func(r rune) bool { return r <= ' ' || r == '/' }) {
 		var err error
 		if name == "FlateDecode" {
 			data, err = inflate(data)
 		} else {
 			data, err = DecodeFilter(data, name)
 		}
+		if err == nil && i < len(parms) {
+			data, err = undoPredictor(data, parms[i])
+		}
 		if err != nil {
 			return nil, fmt.Errorf("error decompressing stream: %v", err)
 		}
 	}
-	parms := bytes.TrimSpace(bytes.Trim(pdfscan.DictValue(dict, "DecodeParms"), "[]"))
-	if len(parms) == 0 {
+	return data, nil
+}
+
+// undoPredictor reverses the predictor the decode parameters of a filter name.
+func undoPredictor(data, parms []byte) ([]byte, error) {
+	if predictor, ok := pdfscan.DictInt(parms, "Predictor"); !ok || predictor < 10 {
 		return data, nil
 	}
-	predictor, _ := pdfscan.DictInt(parms, "Predictor")
 	columns, ok := pdfscan.DictInt(parms, "Columns")
 	if !ok {
 		columns = 1
 	}
-	if predictor < 10 {
-		return data, nil
-	}
 	return undoPNGPredictor(data, columns)
 }
 
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 3881dcc..e86c173 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -829,15 +829,12 @@ func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
 	return streamBytes, false, nil
 }
 
-// CompressStream compresses data using FlateDecode
+// CompressStream compresses data using FlateDecode, which expects the zlib format
 func CompressStream(data []byte) ([]byte, error) {
 	var buf bytes.Buffer
-	writer, err := flate.NewWriter(&buf, flate.DefaultCompression)
-	if err != nil {
-		return nil, err
-	}
+	writer := zlib.NewWriter(&buf)
 
-	_, err = writer.Write(data)
+	_, err := writer.Write(data)
 	if err != nil {
 		writer.Close()
 		return nil, err
diff --git a/internal/pdfscan/scan.go b/internal/pdfscan/scan.go
index e7061b9..66de14d 100644
--- a/internal/pdfscan/scan.go
+++ b/internal/pdfscan/scan.go
@@ -248,6 +248,27 @@ func DictEntry(dict []byte, key string) (start, end int, ok bool) {
 	}
 }
 
+// ArrayItems returns the raw items of an array; any other value counts as an
+// array with that one item.
+func ArrayItems(value []byte) [][]byte {
+	if len(value) == 0 {
+		return nil
+	}
+	if value[0] != '[' {
+		return [][]byte{value}
+	}
+	var items [][]byte
+	for pos := SkipSpace(value, 1); pos < len(value) && value[pos] != ']'; pos = SkipSpace(value, pos) {
+		end, ok := SkipValue(value, pos)
+		if !ok {
+			break
+		}
+		items = append(items, value[pos:end])
+		pos = end
+	}
+	return items
+}
+
 // DictInt returns the integer value of a key at the top level of a dictionary.
 func DictInt(dict []byte, key string) (int, bool) {
 	value := DictValue(dict, key)
@@ -395,6 +416,7 @@ func SearchObject(data []byte) (span ObjectSpan, ok bool) {
 	span.ContentEnd = end + len("endstream")
 	return span, true
 }
+
 // SetDictLength returns the dictionary with /Length set to a direct value.
 func SetDictLength(dict []byte, length int) []byte {
 	text := []byte(fmt.Sprintf("%d", length))
-- 
2.43.0


From 0ae96f9f03e7a6747899c298c44025ce4ae90b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 05/41] fix: stable page resources, exact page boxes,
 unmultiplied image colours

---
 core/write/image.go     | 17 +++++-----
 core/write/page.go      | 69 +++++++++++++++++++++++++++++------------
 core/write/watermark.go |  8 ++++-
 3 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/core/write/image.go b/core/write/image.go
index c4f5b58..fe8101e 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -87,9 +87,11 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 	var hasAlpha bool
 
 	// Check if image has alpha channel
-	switch img.(type) {
-	case *image.NRGBA, *image.RGBA:
+	switch m := img.(type) {
+	case *image.NRGBA, *image.RGBA, *image.NRGBA64, *image.RGBA64:
 		hasAlpha = true
+	case *image.Paletted:
+		hasAlpha = !m.Opaque()
 	}
 
 	// Convert to RGB or Gray
@@ -108,11 +110,12 @@ func (w *PDFWriter) AddImage(imgData []byte, name string) (*ImageInfo, error) {
 		rawData = make([]byte, width*height*3)
 		for y := 0; y < height; y++ {
 			for x := 0; x < width; x++ {
-				r, g, b, _ := img.At(x+bounds.Min.X, y+bounds.Min.Y).RGBA()
+				// the soft mask applies the alpha, so the colours go in unmultiplied
+				pixel := color.NRGBAModel.Convert(img.At(x+bounds.Min.X, y+bounds.Min.Y)).(color.NRGBA)
 				idx := (y*width + x) * 3
-				rawData[idx] = uint8(r >> 8)
-				rawData[idx+1] = uint8(g >> 8)
-				rawData[idx+2] = uint8(b >> 8)
+				rawData[idx] = pixel.R
+				rawData[idx+1] = pixel.G
+				rawData[idx+2] = pixel.B
 			}
 		}
 	}
@@ -188,7 +191,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 		// SOF0-SOF15 (except SOF4, SOF8, SOF12 which are not frame markers)
 		// We're interested in SOF0 (baseline), SOF1, SOF2 (progressive)
 		if marker >= 0xC0 && marker <= 0xC3 {
-			if pos+7 > len(data) {
+			if pos+8 > len(data) {
 				return 0, 0, "", fmt.Errorf("truncated SOF segment")
 			}
 
diff --git a/core/write/page.go b/core/write/page.go
index b1e192d..4b8a3ec 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -3,6 +3,7 @@ package write
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
@@ -27,8 +28,9 @@ var (
 type PageBuilder struct {
 	writer      *PDFWriter
 	size        PageSize
-	fonts       map[string]int // font name -> object number
-	images      map[string]int // image name -> object number
+	fonts       map[string]int    // font name -> object number
+	stdFonts    map[string]string // standard font -> resource name
+	images      map[string]int    // image name -> object number
 	content     *ContentStream
 	pageObjNum  int
 	pagesObjNum int
@@ -37,11 +39,12 @@ type PageBuilder struct {
 // NewPageBuilder creates a new page builder
 func (w *PDFWriter) NewPageBuilder(size PageSize) *PageBuilder {
 	return &PageBuilder{
-		writer:  w,
-		size:    size,
-		fonts:   make(map[string]int),
-		images:  make(map[string]int),
-		content: NewContentStream(),
+		writer:   w,
+		size:     size,
+		fonts:    make(map[string]int),
+		stdFonts: make(map[string]string),
+		images:   make(map[string]int),
+		content:  NewContentStream(),
 	}
 }
 
@@ -54,26 +57,45 @@ func (pb *PageBuilder) Content() *ContentStream {
 // Returns the resource name to use (e.g., "/F1")
 func (pb *PageBuilder) AddStandardFont(fontName string) string {
 	// Check if already added
-	for name, _ := range pb.fonts {
-		if name == fontName {
-			return "/" + name
-		}
+	if name, ok := pb.stdFonts[fontName]; ok {
+		return "/" + name
 	}
 
 	// Create font dictionary
-	resourceName := fmt.Sprintf("F%d", len(pb.fonts)+1)
+	resourceName := freeName("F", pb.fonts)
 	fontDict := fmt.Sprintf("<</Type/Font/Subtype/Type1/BaseFont/%s>>", fontName)
 	objNum := pb.writer.AddObject([]byte(fontDict))
 	pb.fonts[resourceName] = objNum
+	pb.stdFonts[fontName] = resourceName
 
 	return "/" + resourceName
 }
 
+// freeName returns the first resource name with the prefix not used yet.
+func freeName(prefix string, used map[string]int) string {
+	for n := len(used) + 1; ; n++ {
+		name := fmt.Sprintf("%s%d", prefix, n)
+		if _, taken := used[name]; !taken {
+			return name
+		}
+	}
+}
+
+// sortedNames returns the resource names in a stable order.
+func sortedNames(resources map[string]int) []string {
+	var names []string
+	for name := range resources {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // AddImage adds an image and returns the resource name
 func (pb *PageBuilder) AddImage(info *ImageInfo) string {
 	resourceName := info.Name
 	if resourceName == "" {
-		resourceName = fmt.Sprintf("Im%d", len(pb.images)+1)
+		resourceName = freeName("Im", pb.images)
 	}
 	// Remove leading / if present
 	if len(resourceName) > 0 && resourceName[0] == '/' {
@@ -137,8 +159,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add fonts
 	if len(pb.fonts) > 0 {
 		resources += "/Font<<"
-		for name, objNum := range pb.fonts {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.fonts) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.fonts[name])
 		}
 		resources += ">>"
 	}
@@ -146,8 +168,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	// Add images as XObjects
 	if len(pb.images) > 0 {
 		resources += "/XObject<<"
-		for name, objNum := range pb.images {
-			resources += fmt.Sprintf("/%s %d 0 R", name, objNum)
+		for _, name := range sortedNames(pb.images) {
+			resources += fmt.Sprintf("/%s %d 0 R", name, pb.images[name])
 		}
 		resources += ">>"
 	}
@@ -155,8 +177,8 @@ func (pb *PageBuilder) Build(pagesObjNum int) int {
 	resources += ">>"
 
 	// Create page object
-	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %.0f %.0f]/Contents %d 0 R/Resources%s>>`,
-		pagesObjNum, pb.size.Width, pb.size.Height, contentObjNum, resources)
+	pageDict := fmt.Sprintf(`<</Type/Page/Parent %d 0 R/MediaBox[0 0 %s %s]/Contents %d 0 R/Resources%s>>`,
+		pagesObjNum, pb.writer.formatValue(pb.size.Width), pb.writer.formatValue(pb.size.Height), contentObjNum, resources)
 	pb.pageObjNum = pb.writer.AddObject([]byte(pageDict))
 
 	return pb.pageObjNum
@@ -202,6 +224,11 @@ func (b *SimplePDFBuilder) FinalizePage(pb *PageBuilder) {
 
 // Bytes returns the complete PDF
 func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
+	if b.pagesObjNum == 0 {
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
+
 	// Build Kids array
 	kids := "["
 	for _, pageNum := range b.pages {
@@ -214,7 +241,9 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
-	b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+	if b.catalogObjNum == 0 {
+		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+	}
 	b.writer.SetRoot(b.catalogObjNum)
 
 	return b.writer.Bytes()
diff --git a/core/write/watermark.go b/core/write/watermark.go
index 9718a13..0dae40a 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -41,6 +41,12 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
+	if options.Color == nil {
+		withColor := *options
+		withColor.Color = DefaultWatermarkOptions().Color
+		options = &withColor
+	}
+
 	// Save graphics state
 	pb.content.SaveState()
 
@@ -93,7 +99,7 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		// Image will be drawn at current position (0,0 after translate/rotate)
 		pb.content.Translate(-pb.size.Width/4, -pb.size.Height/4) // Center the image
 		pb.content.Scale(pb.size.Width/2, pb.size.Height/2)
-		pb.content.DrawImage(options.ImageName)
+		pb.content.DrawImage("/" + options.ImageName)
 	} else {
 		// Text watermark
 		if options.Text == "" {
-- 
2.43.0


From 6480e80ae4d527996bb0c83a31cde4bb5b4274ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 06/41] fix: write valid strings, streams, object streams,
 cross-references and outlines

---
 core/write/bookmarks.go     |  32 +++--
 core/write/content.go       |   4 +-
 core/write/metadata.go      |  35 ++---
 core/write/object_stream.go |  34 ++---
 core/write/writer.go        | 252 +++++++++++++++++++++---------------
 core/write/xref_stream.go   |  14 +-
 internal/pdfscan/text.go    | 120 +++++++++++++++++
 7 files changed, 334 insertions(+), 157 deletions(-)
 create mode 100644 internal/pdfscan/text.go

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..8979aca 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -16,8 +17,12 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		return 0, nil // No bookmarks
 	}
 
+	// Reserve the Outlines object number: top-level items refer to it as their parent
+	outlinesObjNum := w.nextObjNum
+	w.nextObjNum++
+
 	// Create outline items recursively
-	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, 0)
+	firstItemNum, lastItemNum, count, err := w.createOutlineItems(bookmarks, pageObjNums, outlinesObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to create outline items: %w", err)
 	}
@@ -30,7 +35,7 @@ func (w *PDFWriter) SetBookmarks(bookmarks []types.Bookmark, pageObjNums map[int
 		"/Count": count,
 	}
 
-	outlinesObjNum := w.AddObject(w.formatDictionary(outlinesDict))
+	w.SetObject(outlinesObjNum, w.formatDictionary(outlinesDict))
 
 	// Store outlines reference for catalog update
 	w.outlinesRef = fmt.Sprintf("%d 0 R", outlinesObjNum)
@@ -69,7 +74,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  rawValue(pdfscan.EncodeString([]byte(bookmark.URI))),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,11 +98,11 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": rawValue(pdfscan.EncodeText(bookmark.Title)),
 		}
 
 		if dest != "" {
-			itemDict["/Dest"] = dest
+			itemDict["/Dest"] = destinationValue(dest)
 		}
 		if actionRef != "" {
 			itemDict["/A"] = actionRef
@@ -160,6 +165,15 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 	return firstItemNum, lastItemNum, totalCount, nil
 }
 
+// destinationValue returns an explicit destination (an array) as it is; any
+// other string is the name of a destination.
+func destinationValue(dest string) interface{} {
+	if end, ok := pdfscan.SkipValue([]byte(dest), 0); ok && dest[0] == '[' && end == len(dest) {
+		return rawValue(dest)
+	}
+	return dest
+}
+
 // addDictEntry adds or updates a dictionary entry
 func addDictEntry(dictStr, key, value string) string {
 	// Simple approach: append before closing >>
@@ -169,11 +183,9 @@ func addDictEntry(dictStr, key, value string) string {
 		return dictStr
 	}
 
-	// Check if key already exists
-	if strings.Contains(dictStr, key+" ") || strings.Contains(dictStr, key+"/") {
-		// Replace existing entry (simplified - just append new one, PDF readers will use last)
-		// For proper implementation, would need to parse and rebuild
-		return dictStr[:lastIdx] + fmt.Sprintf("%s %s ", key, value) + dictStr[lastIdx:]
+	// Replace the value if the key already exists
+	if start, end, ok := pdfscan.DictEntry([]byte(dictStr), strings.TrimPrefix(key, "/")); ok {
+		return dictStr[:start] + value + dictStr[end:]
 	}
 
 	// Add new entry
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..abc6b22 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,7 +324,7 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
+	for _, c := range []byte(s) {
 		switch c {
 		case '(':
 			result.WriteString("\\(")
@@ -339,7 +339,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..b1f8aa8 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -5,6 +5,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -19,43 +20,40 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = textValue(metadata.Title)
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = textValue(metadata.Author)
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = textValue(metadata.Subject)
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = textValue(metadata.Keywords)
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = textValue(metadata.Creator)
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = textValue(metadata.Producer)
 	}
 	if metadata.CreationDate != "" {
-		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
+		dict["/CreationDate"] = rawValue("(" + formatPDFDate(metadata.CreationDate) + ")")
 	}
 	if metadata.ModDate != "" {
-		dict["/ModDate"] = formatPDFDate(metadata.ModDate)
+		dict["/ModDate"] = rawValue("(" + formatPDFDate(metadata.ModDate) + ")")
 	}
 
 	// If no dates provided, set current time as ModDate
 	if metadata.ModDate == "" {
-		dict["/ModDate"] = formatPDFDate(time.Now().Format(time.RFC3339))
+		dict["/ModDate"] = rawValue("(" + formatPDFDate(time.Now().Format(time.RFC3339)) + ")")
 	}
 
 	// Add custom fields
 	for key, value := range metadata.Custom {
 		if key != "" && value != "" {
-			// Ensure key starts with /
-			if !strings.HasPrefix(key, "/") {
-				key = "/" + key
-			}
-			dict[key] = escapePDFStringForMetadata(value)
+			key = pdfscan.EncodeName(strings.TrimPrefix(key, "/"))
+			dict[key] = textValue(value)
 		}
 	}
 
@@ -100,6 +98,11 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 	return w.SetMetadata(metadata)
 }
 
+// textValue returns a text string value
+func textValue(s string) rawValue {
+	return rawValue(pdfscan.EncodeText(s))
+}
+
 // escapePDFStringForMetadata escapes a string for use in PDF metadata (returns content without parentheses)
 func escapePDFStringForMetadata(s string) string {
 	// PDF strings use parentheses and need escaping
@@ -167,7 +170,7 @@ func formatPDFDate(dateStr string) string {
 
 	// Format timezone
 	var tzStr string
-	if offsetHours >= 0 {
+	if offset >= 0 {
 		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
 	} else {
 		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
@@ -176,7 +179,7 @@ func formatPDFDate(dateStr string) string {
 	pdfDate := fmt.Sprintf("D:%04d%02d%02d%02d%02d%02d%s",
 		year, month, day, hour, min, sec, tzStr)
 
-	// Return as escaped string (formatValue will add parentheses)
+	// Return as escaped string (without parentheses)
 	return escapePDFStringForMetadata(pdfDate)
 }
 
diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..8ed3683 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -4,8 +4,11 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // objectStreamGroup represents a group of objects to be stored in an object stream
@@ -14,6 +17,12 @@ type objectStreamGroup struct {
 	streamObjNum int
 }
 
+// isPlainValue reports whether content is one object value without stream data
+func isPlainValue(content []byte) bool {
+	end, ok := pdfscan.SkipValue(content, 0)
+	return ok && pdfscan.SkipSpace(content, end) == len(content)
+}
+
 // createObjectStreams groups objects into object streams
 // Returns map of object number -> (streamObjNum, indexInStream)
 func (w *PDFWriter) createObjectStreams() (map[int]struct {
@@ -32,7 +41,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 			continue
 		}
 		// Only compress non-stream objects (stream objects are already compressed)
-		if obj.Stream == nil && obj.Content != nil {
+		if obj.Stream == nil && isPlainValue(obj.Content) && w.encryptRef != fmt.Sprintf("%d 0 R", objNum) {
 			eligibleObjs = append(eligibleObjs, objNum)
 		}
 	}
@@ -40,6 +49,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	if len(eligibleObjs) == 0 {
 		return nil, nil, nil
 	}
+	sort.Ints(eligibleObjs)
 
 	// Create object stream
 	streamObjNum := w.nextObjNum
@@ -87,32 +97,14 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	firstOffset := len(headerBytes) + 1 // +1 for space after header
 
 	// Build data section
 	var dataBuilder bytes.Buffer
 	for i, info := range objInfos {
 		dataBuilder.Write(info.data)
 		if i < len(objInfos)-1 {
-			dataBuilder.WriteByte(' ') // Space between objects
+			dataBuilder.WriteByte('\n') // White space between objects (a line end closes a comment)
 		}
 
 		// Track mapping
diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..421999e 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -8,12 +8,14 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/rand"
+	"crypto/rc4"
 	"fmt"
 	"io"
 	"sort"
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -101,14 +103,18 @@ func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool)
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
+	dict = cloneDictionary(dict)
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{}
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
 		zw.Write(data)
 		zw.Close()
 		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
+		addFlateFilter(dict)
 	}
 
 	dict["Length"] = len(streamData)
@@ -137,14 +143,18 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
+	dict = cloneDictionary(dict)
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{}
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
 		zw.Write(data)
 		zw.Close()
 		streamData = buf.Bytes()
-		dict["Filter"] = "/FlateDecode"
+		addFlateFilter(dict)
 	}
 
 	dict["Length"] = len(streamData)
@@ -160,6 +170,37 @@ func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, co
 	}
 }
 
+// cloneDictionary copies a dictionary, so that the caller's stays untouched,
+// and drops the leading slash of its keys.
+func cloneDictionary(dict Dictionary) Dictionary {
+	clone := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		clone[strings.TrimPrefix(key, "/")] = value
+	}
+	return clone
+}
+
+// addFlateFilter records that FlateDecode was applied on top of the filters
+// the data already had.
+func addFlateFilter(dict Dictionary) {
+	if dict["Filter"] == nil {
+		dict["Filter"] = "/FlateDecode"
+		delete(dict, "DecodeParms")
+		return
+	}
+	filters, parms := []interface{}{dict["Filter"]}, []interface{}{dict["DecodeParms"]}
+	if list, ok := dict["Filter"].([]interface{}); ok {
+		filters = list
+	}
+	if list, ok := dict["DecodeParms"].([]interface{}); ok {
+		parms = list
+	}
+	if dict["DecodeParms"] != nil {
+		dict["DecodeParms"] = append([]interface{}{nil}, parms...)
+	}
+	dict["Filter"] = append([]interface{}{"/FlateDecode"}, filters...)
+}
+
 // SetRoot sets the root (catalog) object reference
 func (w *PDFWriter) SetRoot(objNum int) {
 	w.rootRef = fmt.Sprintf("%d 0 R", objNum)
@@ -189,63 +230,7 @@ func (w *PDFWriter) updateCatalogWithOutlines() {
 		return
 	}
 
-	// Parse catalog dictionary if it's a Dictionary, otherwise parse as string
-	var catalogDict Dictionary
-	if catalogObj.Dict != nil {
-		catalogDict = catalogObj.Dict
-	} else {
-		// Try to parse from Content
-		catalogStr := string(catalogObj.Content)
-		// Simple parsing - find dictionary entries
-		// For now, rebuild the dictionary properly
-		// Extract existing entries and rebuild
-		if strings.Contains(catalogStr, "/Type") && strings.Contains(catalogStr, "/Pages") {
-			// Rebuild with /Outlines
-			catalogDict = Dictionary{
-				"/Type":  "/Catalog",
-				"/Pages": extractDictValueFromString(catalogStr, "/Pages"),
-			}
-			if pagesRef := extractDictValueFromString(catalogStr, "/Pages"); pagesRef != "" {
-				catalogDict["/Pages"] = pagesRef
-			}
-		} else {
-			// Fallback: just add /Outlines to string
-			catalogStr := string(catalogObj.Content)
-			if !strings.Contains(catalogStr, "/Outlines") {
-				lastIdx := strings.LastIndex(catalogStr, ">>")
-				if lastIdx > 0 {
-					catalogStr = catalogStr[:lastIdx] + fmt.Sprintf("/Outlines %s ", w.outlinesRef) + catalogStr[lastIdx:]
-					catalogObj.Content = []byte(catalogStr)
-				}
-			}
-			return
-		}
-	}
-
-	// Add /Outlines to dictionary
-	catalogDict["/Outlines"] = w.outlinesRef
-
-	// Update catalog object
-	catalogObj.Content = w.formatDictionary(catalogDict)
-	catalogObj.Dict = catalogDict
-}
-
-// extractDictValueFromString extracts a dictionary value from a string representation
-func extractDictValueFromString(dictStr, key string) string {
-	// Simple regex-like extraction
-	keyPattern := key + " "
-	idx := strings.Index(dictStr, keyPattern)
-	if idx == -1 {
-		return ""
-	}
-	start := idx + len(keyPattern)
-	// Find the value (could be a reference, array, etc.)
-	// For simplicity, extract until space or >
-	end := start
-	for end < len(dictStr) && dictStr[end] != ' ' && dictStr[end] != '>' && dictStr[end] != '\n' {
-		end++
-	}
-	return dictStr[start:end]
+	catalogObj.Content = []byte(addDictEntry(string(catalogObj.Content), "/Outlines", w.outlinesRef))
 }
 
 // SetEncryptRef sets the encrypt dictionary object reference
@@ -266,6 +251,15 @@ func (w *PDFWriter) Write(out io.Writer) error {
 	buf.WriteString(fmt.Sprintf("%%PDF-%s\n", w.pdfVersion))
 	buf.Write([]byte{0x25, 0xE2, 0xE3, 0xCF, 0xD3, 0x0A}) // Binary marker
 
+	// Object and cross-reference streams exist in the output only
+	nextObjNum := w.nextObjNum
+	defer func() {
+		for num := nextObjNum; num < w.nextObjNum; num++ {
+			delete(w.objects, num)
+		}
+		w.nextObjNum = nextObjNum
+	}()
+
 	// Create object streams if enabled (before writing objects)
 	// This may add new object stream objects to w.objects
 	objStreamMap, _, err := w.createObjectStreams()
@@ -304,31 +298,37 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		// Write content
 		if obj.Stream != nil {
 			// Stream object
-			content := w.formatDictionary(obj.Dict)
+			dict := obj.Dict
 
 			// Encrypt stream if needed
 			streamData := obj.Stream
 			if w.encryptInfo != nil {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
 				}
+				streamData = encrypted
+				// Update length in dictionary
+				dict = cloneDictionary(dict)
+				dict["Length"] = len(streamData)
 			}
 
+			content, err := w.encryptStrings(w.formatDictionary(dict), objNum, obj.Generation)
+			if err != nil {
+				return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
+			}
 			buf.Write(content)
 			buf.WriteString("\nstream\n")
 			buf.Write(streamData)
 			buf.WriteString("\nendstream")
-		} else if obj.Content != nil {
-			// Encrypt content if needed (for non-stream objects like strings in dicts)
-			content := obj.Content
-			// Note: For non-stream objects, encryption is more complex
-			// (need to encrypt individual strings, not the whole object)
-			// For simplicity, we skip encryption of non-stream content here
+		} else if len(bytes.TrimSpace(obj.Content)) > 0 {
+			content, err := w.encryptContent(obj.Content, objNum, obj.Generation)
+			if err != nil {
+				return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
+			}
 			buf.Write(content)
+		} else {
+			buf.WriteString("null")
 		}
 
 		buf.WriteString("\nendobj\n")
@@ -343,29 +343,6 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		if err != nil {
 			return fmt.Errorf("failed to write xref stream: %v", err)
 		}
-
-		// Write trailer (xref streams still need a trailer with /Root, /Info, etc.)
-		buf.WriteString("trailer\n<<\n")
-		buf.WriteString(fmt.Sprintf("/Size %d\n", w.nextObjNum))
-		if w.rootRef != "" {
-			buf.WriteString(fmt.Sprintf("/Root %s\n", w.rootRef))
-		}
-		if w.infoRef != "" {
-			buf.WriteString(fmt.Sprintf("/Info %s\n", w.infoRef))
-		}
-		if w.outlinesRef != "" {
-			// Outlines reference goes in the catalog, not trailer
-			// We'll update the catalog object if it exists
-			w.updateCatalogWithOutlines()
-		}
-		if w.encryptRef != "" {
-			buf.WriteString(fmt.Sprintf("/Encrypt %s\n", w.encryptRef))
-		}
-		if len(w.fileID) > 0 {
-			hexID := fmt.Sprintf("%X", w.fileID)
-			buf.WriteString(fmt.Sprintf("/ID [<%s><%s>]\n", hexID, hexID))
-		}
-		buf.WriteString(">>\n")
 	} else {
 		// Write traditional xref table
 		xrefPos = int64(buf.Len())
@@ -394,11 +371,6 @@ func (w *PDFWriter) Write(out io.Writer) error {
 		if w.infoRef != "" {
 			buf.WriteString(fmt.Sprintf("/Info %s\n", w.infoRef))
 		}
-		if w.outlinesRef != "" {
-			// Outlines reference goes in the catalog, not trailer
-			// We'll update the catalog object if it exists
-			w.updateCatalogWithOutlines()
-		}
 		if w.encryptRef != "" {
 			buf.WriteString(fmt.Sprintf("/Encrypt %s\n", w.encryptRef))
 		}
@@ -433,6 +405,9 @@ func (w *PDFWriter) formatDictionary(dict Dictionary) []byte {
 		value := dict[key]
 		// Ensure key starts with /
 		if !strings.HasPrefix(key, "/") {
+			if _, twice := dict["/"+key]; twice {
+				continue
+			}
 			key = "/" + key
 		}
 		buf.WriteString(key)
@@ -455,14 +430,18 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 	case float64:
 		return strconv.FormatFloat(v, 'f', -1, 64)
 	case string:
-		// If it looks like a name or reference, use as-is
-		if strings.HasPrefix(v, "/") || strings.HasSuffix(v, " R") {
+		// If it is a name or reference, use as-is
+		if strings.HasPrefix(v, "/") || isReference(v) {
 			return v
 		}
-		// If it's already escaped (contains \( or \)), use as-is
 		// Otherwise, it's a string - format as PDF string
-		// Note: escapePDFString in metadata.go returns escaped content without parentheses
-		return "(" + v + ")"
+		return string(pdfscan.EncodeString([]byte(v)))
+	case rawValue:
+		return string(v)
+	case nil:
+		return "null"
+	case float32:
+		return strconv.FormatFloat(float64(v), 'f', -1, 32)
 	case []byte:
 		return "<" + fmt.Sprintf("%X", v) + ">"
 	case []interface{}:
@@ -473,16 +452,69 @@ func (w *PDFWriter) formatValue(value interface{}) string {
 		return "[" + strings.Join(items, " ") + "]"
 	case Dictionary:
 		return string(w.formatDictionary(v))
+	case map[string]interface{}:
+		return string(w.formatDictionary(v))
 	default:
 		return fmt.Sprintf("%v", v)
 	}
 }
 
+// rawValue is a dictionary value that already is PDF syntax.
+type rawValue string
+
+// isReference reports whether s is an indirect reference.
+func isReference(s string) bool {
+	_, end, ok := pdfscan.Reference([]byte(s), 0)
+	return ok && end == len(s)
+}
+
+// encryptContent encrypts an object given as PDF syntax: its strings and, for
+// a stream object, its data.
+func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte, error) {
+	if w.encryptInfo == nil {
+		return content, nil
+	}
+	header := fmt.Sprintf("%d %d obj ", objNum, genNum)
+	object := append([]byte(header), content...)
+	span, ok := pdfscan.Object(append(object, " endobj"...), nil)
+	if !ok || !span.IsStream {
+		return w.encryptStrings(content, objNum, genNum)
+	}
+	data, err := w.encryptStream(object[span.StreamStart:span.StreamEnd], objNum, genNum)
+	if err != nil {
+		return nil, err
+	}
+	dict := pdfscan.SetDictLength(object[span.DictStart:span.DictEnd], len(data))
+	if dict, err = w.encryptStrings(dict, objNum, genNum); err != nil {
+		return nil, err
+	}
+	return append(append(append(dict, "\nstream\n"...), data...), "\nendstream"...), nil
+}
+
+// encryptStrings encrypts the strings of an object.
+func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) ([]byte, error) {
+	if w.encryptInfo == nil || w.encryptRef == fmt.Sprintf("%d 0 R", objNum) {
+		return content, nil
+	}
+	var failed error
+	result := pdfscan.MapStrings(content, func(plain []byte) ([]byte, bool) {
+		encrypted, err := w.encryptStream(plain, objNum, genNum)
+		if err != nil {
+			failed = err
+		}
+		return encrypted, err == nil
+	})
+	return result, failed
+}
+
 // encryptStream encrypts stream data using the PDF's encryption settings
 func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
-	if w.encryptInfo == nil || len(w.encryptInfo.EncryptKey) == 0 {
+	if w.encryptInfo == nil {
 		return data, nil
 	}
+	if len(w.encryptInfo.EncryptKey) == 0 || len(w.encryptInfo.EncryptKey) < w.encryptInfo.KeyLength {
+		return nil, fmt.Errorf("no usable encryption key")
+	}
 
 	// Derive object-specific key (same as decrypt)
 	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
@@ -541,8 +573,14 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	// Not implemented for now
-	return data, nil
+	rc4Key := keyHash.Sum(nil)
+	c, err := rc4.NewCipher(rc4Key[:min(n+5, 16)])
+	if err != nil {
+		return nil, err
+	}
+	encrypted := make([]byte, len(data))
+	c.XORKeyStream(encrypted, data)
+	return encrypted, nil
 }
 
 // Bytes returns the complete PDF as a byte slice
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..4fd38e9 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -133,7 +133,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
+	// It also holds the trailer entries /Root, /Info, /Encrypt and /ID
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -141,6 +141,18 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Filter": "/FlateDecode",
 		"/Length": len(compressedData),
 	}
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
 
 	// Increment object counter
 	w.nextObjNum++
diff --git a/internal/pdfscan/text.go b/internal/pdfscan/text.go
new file mode 100644
index 0000000..4799b95
--- /dev/null
+++ b/internal/pdfscan/text.go
@@ -0,0 +1,120 @@
+package pdfscan
+
+import (
+	"fmt"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+)
+
+// pdfDocEncoding lists the PDFDocEncoding characters that differ from Latin-1.
+var pdfDocEncoding = map[byte]rune{
+	0x18: '\u02D8', 0x19: '\u02C7', 0x1A: '\u02C6', 0x1B: '\u02D9',
+	0x1C: '\u02DD', 0x1D: '\u02DB', 0x1E: '\u02DA', 0x1F: '\u02DC',
+	0x80: '\u2022', 0x81: '\u2020', 0x82: '\u2021', 0x83: '\u2026',
+	0x84: '\u2014', 0x85: '\u2013', 0x86: '\u0192', 0x87: '\u2044',
+	0x88: '\u2039', 0x89: '\u203A', 0x8A: '\u2212', 0x8B: '\u2030',
+	0x8C: '\u201E', 0x8D: '\u201C', 0x8E: '\u201D', 0x8F: '\u2018',
+	0x90: '\u2019', 0x91: '\u201A', 0x92: '\u2122', 0x93: '\uFB01',
+	0x94: '\uFB02', 0x95: '\u0141', 0x96: '\u0152', 0x97: '\u0160',
+	0x98: '\u0178', 0x99: '\u017D', 0x9A: '\u0131', 0x9B: '\u0142',
+	0x9C: '\u0153', 0x9D: '\u0161', 0x9E: '\u017E', 0xA0: '\u20AC',
+}
+
+// EncodeText writes a text string: plain ASCII as a literal string, anything
+// else as UTF-16 with a byte order mark.
+func EncodeText(s string) []byte {
+	plain := true
+	for i := 0; i < len(s) && plain; i++ {
+		plain = s[i] < 0x7F && (s[i] >= ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')
+	}
+	if plain || !utf8.ValidString(s) {
+		return EncodeString([]byte(s))
+	}
+	var out strings.Builder
+	out.WriteString("<FEFF")
+	for _, unit := range utf16.Encode([]rune(s)) {
+		fmt.Fprintf(&out, "%04X", unit)
+	}
+	out.WriteString(">")
+	return []byte(out.String())
+}
+
+// DecodeText returns the text a string token denotes.
+func DecodeText(token []byte) string {
+	return TextFromBytes(DecodeString(token))
+}
+
+// TextFromBytes decodes the bytes of a text string: UTF-16 or UTF-8 with a
+// byte order mark, otherwise PDFDocEncoding. Text that is valid UTF-8 without
+// a mark, which common writers produce, is taken as such.
+func TextFromBytes(data []byte) string {
+	if len(data) >= 2 && (data[0] == 0xFE && data[1] == 0xFF || data[0] == 0xFF && data[1] == 0xFE) {
+		units := make([]uint16, 0, len(data)/2)
+		for i := 2; i+1 < len(data); i += 2 {
+			if data[0] == 0xFE {
+				units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
+			} else {
+				units = append(units, uint16(data[i+1])<<8|uint16(data[i]))
+			}
+		}
+		return string(utf16.Decode(units))
+	}
+	if len(data) >= 3 && data[0] == 0xEF && data[1] == 0xBB && data[2] == 0xBF && utf8.Valid(data) {
+		return string(data[3:])
+	}
+	ascii := true
+	for _, c := range data {
+		ascii = ascii && c < 0x80
+	}
+	if !ascii && utf8.Valid(data) {
+		return string(data)
+	}
+	var out strings.Builder
+	for _, c := range data {
+		if r, ok := pdfDocEncoding[c]; ok {
+			out.WriteRune(r)
+		} else {
+			out.WriteRune(rune(c))
+		}
+	}
+	return out.String()
+}
+
+// EncodeName writes a name, with the characters that cannot stand in one
+// written as #xx.
+func EncodeName(name string) string {
+	out := []byte{'/'}
+	for i := 0; i < len(name); i++ {
+		if c := name[i]; c <= ' ' || c >= 0x7F || c == '#' || IsDelimiter(c) {
+			out = append(out, fmt.Sprintf("#%02X", c)...)
+		} else {
+			out = append(out, c)
+		}
+	}
+	return string(out)
+}
+
+// DecodeName returns the name a token (with or without its slash) denotes.
+func DecodeName(token string) string {
+	token = strings.TrimPrefix(token, "/")
+	if !strings.Contains(token, "#") {
+		return token
+	}
+	var out []byte
+	for i := 0; i < len(token); i++ {
+		if token[i] == '#' && i+2 < len(token) {
+			if b := DecodeString([]byte("<" + token[i+1:i+3] + ">")); len(b) == 1 && isHex(token[i+1]) && isHex(token[i+2]) {
+				out = append(out, b[0])
+				i += 2
+				continue
+			}
+		}
+		out = append(out, token[i])
+	}
+	return string(out)
+}
+
+func isHex(c byte) bool {
+	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
+}
-- 
2.43.0


From d28e03e1c12625940cbad578ab87b7743b10ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 07/41] fix: apply every filter of a stream, with its
 parameters, and keep the file ID

---
 core/parse/api.go              |   6 +-
 core/parse/incremental.go      |   4 +
 core/parse/stream.go           |  35 ++++++++
 core/parse/xref_stream_data.go | 108 +++++++++++++++++-------
 internal/pdfscan/lookup.go     | 149 +++++++++++++++++++++++++++++++++
 internal/pdfscan/scan.go       | 100 +++++++++++++++++++---
 6 files changed, 362 insertions(+), 40 deletions(-)
 create mode 100644 core/parse/stream.go
 create mode 100644 internal/pdfscan/lookup.go

diff --git a/core/parse/api.go b/core/parse/api.go
index 4f1528c..62588ce 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -28,6 +28,8 @@
 package parse
 
 import (
+	"sort"
+
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -203,6 +205,7 @@ func (p *PDF) parseStandard() error {
 			RootRef:    lastSection.Root,
 			InfoRef:    lastSection.Info,
 			EncryptRef: lastSection.Encrypt,
+			IDArray:    lastSection.ID,
 		}
 		p.xref.Size = lastSection.Size
 	}
@@ -237,12 +240,13 @@ func (p *PDF) ObjectCount() int {
 	return len(p.xref.Objects)
 }
 
-// Objects returns a list of all object numbers in the PDF
+// Objects returns a sorted list of all object numbers in the PDF
 func (p *PDF) Objects() []int {
 	result := make([]int, 0, len(p.xref.Objects))
 	for objNum := range p.xref.Objects {
 		result = append(result, objNum)
 	}
+	sort.Ints(result)
 	return result
 }
 
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index ef79b33..f22cbad 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -22,6 +22,7 @@ type xrefSection struct {
 	Root      string                    // /Root reference from trailer
 	Info      string                    // /Info reference from trailer
 	Encrypt   string                    // /Encrypt reference from trailer
+	ID        []byte                    // /ID array from trailer
 	Size      int                       // /Size from trailer
 }
 
@@ -42,6 +43,9 @@ func (s *xrefSection) setTrailer(dict []byte) {
 			*ref = value
 		}
 	}
+	if id := pdfscan.DictValue(dict, "ID"); id != nil {
+		s.ID = id
+	}
 	if prev, ok := pdfscan.DictInt(dict, "Prev"); ok {
 		s.Prev = int64(prev)
 	}
diff --git a/core/parse/stream.go b/core/parse/stream.go
new file mode 100644
index 0000000..ebe9bc2
--- /dev/null
+++ b/core/parse/stream.go
@@ -0,0 +1,35 @@
+package parse
+
+import (
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// StreamData returns the dictionary of a stream object and its data with all
+// filters applied.
+func (p *PDF) StreamData(objNum int) (dict, data []byte, err error) {
+	dict, data, rest, err := p.ImageData(objNum)
+	if err == nil && len(rest) > 0 {
+		return nil, nil, types.NewPDFErrorf(types.ErrCodeStreamError, "stream %d uses the image filter %s", objNum, rest[0])
+	}
+	return dict, data, err
+}
+
+// ImageData returns the dictionary of a stream object and its data with the
+// filters applied up to the first image codec (such as DCTDecode), and the
+// filters that remain.
+func (p *PDF) ImageData(objNum int) (dict, data []byte, rest []string, err error) {
+	object, err := p.GetObject(objNum)
+	if err != nil {
+		return nil, nil, nil, err
+	}
+	dict, data, ok := pdfscan.Stream(object, p.GetObject)
+	if !ok {
+		return nil, nil, nil, types.NewPDFErrorf(types.ErrCodeInvalidObject, "object %d is not a stream", objNum)
+	}
+	data, rest, err = decodeFilters(dict, data, p.GetObject)
+	if err != nil {
+		return nil, nil, nil, types.WrapErrorf(types.ErrCodeStreamError, err, "stream %d", objNum)
+	}
+	return dict, data, rest, nil
+}
diff --git a/core/parse/xref_stream_data.go b/core/parse/xref_stream_data.go
index 277e1f7..4a8f258 100644
--- a/core/parse/xref_stream_data.go
+++ b/core/parse/xref_stream_data.go
@@ -128,38 +128,80 @@ func intArray(value []byte) ([]int, bool) {
 	return result, true
 }
 
-// decodeStreamData applies the filters and the predictor of a cross-reference
+// decodeStreamData applies the filters and the predictors of a cross-reference
 // or object stream, whose data is not (or no longer) encrypted.
 func decodeStreamData(dict, data []byte) ([]byte, error) {
-	filters := strings.Trim(string(pdfscan.DictValue(dict, "Filter")), "[]")
-	parms := pdfscan.ArrayItems(pdfscan.DictValue(dict, "DecodeParms"))
-	for i, name := range strings.FieldsFunc(filters, func(r rune) bool { return r <= ' ' || r == '/' }) {
-		var err error
-		if name == "FlateDecode" {
+	data, _, err := decodeFilters(dict, data, noObjects)
+	return data, err
+}
+
+// noObjects is the Getter where references cannot be resolved.
+func noObjects(objNum int) ([]byte, error) {
+	return nil, fmt.Errorf("object %d not available", objNum)
+}
+
+// maxFilters bounds the filters of one stream, each of which may multiply the
+// amount of data.
+const maxFilters = 8
+
+// decodeFilters applies the filters of a stream in order. It stops at an image
+// codec, and returns the filters it did not apply.
+func decodeFilters(dict, data []byte, get pdfscan.Getter) (decoded []byte, rest []string, err error) {
+	filters := pdfscan.ArrayItems(pdfscan.Lookup(dict, "Filter", get))
+	parms := pdfscan.ArrayItems(pdfscan.Lookup(dict, "DecodeParms", get))
+	if len(filters) > maxFilters {
+		return nil, nil, fmt.Errorf("too many stream filters: %d", len(filters))
+	}
+	for i, filter := range filters {
+		name := pdfscan.DecodeName(string(pdfscan.Resolve(filter, get)))
+		switch name {
+		case "null", "Crypt":
+			continue
+		case "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode":
+			for _, filter := range filters[i:] {
+				rest = append(rest, pdfscan.DecodeName(string(pdfscan.Resolve(filter, get))))
+			}
+			return data, rest, nil
+		case "FlateDecode":
 			data, err = inflate(data)
-		} else {
+		default:
 			data, err = DecodeFilter(data, name)
 		}
 		if err == nil && i < len(parms) {
-			data, err = undoPredictor(data, parms[i])
+			data, err = undoPredictor(data, pdfscan.Resolve(parms[i], get), get)
 		}
 		if err != nil {
-			return nil, fmt.Errorf("error decompressing stream: %v", err)
+			return nil, nil, fmt.Errorf("error decompressing stream: %v", err)
 		}
 	}
-	return data, nil
+	return data, nil, nil
 }
 
 // undoPredictor reverses the predictor the decode parameters of a filter name.
-func undoPredictor(data, parms []byte) ([]byte, error) {
-	if predictor, ok := pdfscan.DictInt(parms, "Predictor"); !ok || predictor < 10 {
+func undoPredictor(data, parms []byte, get pdfscan.Getter) ([]byte, error) {
+	predictor, ok := pdfscan.LookupInt(parms, "Predictor", get)
+	if !ok || predictor == 1 {
 		return data, nil
 	}
-	columns, ok := pdfscan.DictInt(parms, "Columns")
-	if !ok {
-		columns = 1
+	number := func(key string, value int) int {
+		if n, ok := pdfscan.LookupInt(parms, key, get); ok {
+			value = n
+		}
+		return value
+	}
+	columns, colors, bits := number("Columns", 1), number("Colors", 1), number("BitsPerComponent", 8)
+	if columns < 1 || columns > 1<<28 || colors < 1 || colors > 64 || bits < 1 || bits > 16 {
+		return nil, fmt.Errorf("invalid predictor parameters: %s", parms)
+	}
+	row, pixel := (columns*colors*bits+7)/8, (colors*bits+7)/8
+	switch {
+	case predictor >= 10 && predictor <= 15:
+		return undoPNGPredictor(data, row, pixel)
+	case predictor == 2 && bits == 8:
+		return undoTIFFPredictor(data, row, pixel), nil
+	default:
+		return nil, fmt.Errorf("unsupported predictor: %s", parms)
 	}
-	return undoPNGPredictor(data, columns)
 }
 
 // inflate decompresses zlib data, or raw deflate data if the zlib wrapper is
@@ -177,24 +219,32 @@ func inflate(data []byte) ([]byte, error) {
 	return io.ReadAll(reader)
 }
 
-// undoPNGPredictor reverses the PNG row filters for rows of one-byte samples.
-func undoPNGPredictor(data []byte, columns int) ([]byte, error) {
-	if columns < 1 {
-		return nil, fmt.Errorf("invalid /Columns: %d", columns)
+// undoTIFFPredictor adds up the differences between the samples of each row.
+func undoTIFFPredictor(data []byte, row, pixel int) []byte {
+	decoded := append([]byte{}, data...)
+	for start := 0; start < len(decoded); start += row {
+		for i := start + pixel; i < start+row && i < len(decoded); i++ {
+			decoded[i] += decoded[i-pixel]
+		}
 	}
-	rows := len(data) / (columns + 1)
-	if rows == 0 {
+	return decoded
+}
+
+// undoPNGPredictor reverses the PNG row filters. A row has the given number of
+// bytes, and its bytes are predicted from those one pixel to the left.
+func undoPNGPredictor(data []byte, rowSize, pixel int) ([]byte, error) {
+	if len(data) <= rowSize {
 		return nil, nil
 	}
-	decoded := make([]byte, 0, rows*columns)
-	prev := make([]byte, columns)
-	for ; rows > 0; rows-- {
-		tag, row := data[0], append([]byte{}, data[1:columns+1]...)
-		data = data[columns+1:]
+	decoded := make([]byte, 0, len(data))
+	prev := make([]byte, rowSize)
+	for len(data) > rowSize {
+		tag, row := data[0], append([]byte{}, data[1:rowSize+1]...)
+		data = data[rowSize+1:]
 		for i := range row {
 			var left, upperLeft byte
-			if i > 0 {
-				left, upperLeft = row[i-1], prev[i-1]
+			if i >= pixel {
+				left, upperLeft = row[i-pixel], prev[i-pixel]
 			}
 			switch tag {
 			case 1: // Sub
diff --git a/internal/pdfscan/lookup.go b/internal/pdfscan/lookup.go
new file mode 100644
index 0000000..5084293
--- /dev/null
+++ b/internal/pdfscan/lookup.go
@@ -0,0 +1,149 @@
+package pdfscan
+
+import (
+	"bytes"
+	"strconv"
+)
+
+// Getter returns an indirect object, with or without its "N G obj" wrapper.
+type Getter func(objNum int) ([]byte, error)
+
+// maxReferences bounds a chain of references to references.
+const maxReferences = 32
+
+// Entry is one entry of a dictionary: the decoded key and the raw value.
+type Entry struct {
+	Key   string
+	Value []byte
+}
+
+// Entries returns the entries of a dictionary in the order they are written.
+func Entries(dict []byte) []Entry {
+	var entries []Entry
+	scanDict(dict, func(name []byte, start, end int) bool {
+		entries = append(entries, Entry{Key: DecodeName(string(name)), Value: dict[start:end]})
+		return true
+	})
+	return entries
+}
+
+// Value returns the value of an indirect object (the dictionary of a stream)
+// without the object's header.
+func Value(object []byte) []byte {
+	pos := SkipSpace(object, 0)
+	if _, _, end, ok := ObjectHeader(object, pos); ok {
+		pos = SkipSpace(object, end)
+	}
+	if end, ok := SkipValue(object, pos); ok {
+		return object[pos:end]
+	}
+	return nil
+}
+
+// Resolve follows references until it arrives at a direct value.
+func Resolve(value []byte, get Getter) []byte {
+	for i := 0; i < maxReferences; i++ {
+		objNum, end, ok := Reference(value, 0)
+		if !ok || end != len(value) {
+			return value
+		}
+		object, err := get(objNum)
+		if err != nil {
+			return nil
+		}
+		value = Value(object)
+	}
+	return nil
+}
+
+// Lookup returns the value of a key at the top level of a dictionary, with
+// references resolved, or nil if the key is absent.
+func Lookup(dict []byte, key string, get Getter) []byte {
+	return Resolve(DictValue(dict, key), get)
+}
+
+// LookupDict is Lookup for a key whose value has to be a dictionary.
+func LookupDict(dict []byte, key string, get Getter) []byte {
+	if value := Lookup(dict, key, get); bytes.HasPrefix(value, []byte("<<")) {
+		return value
+	}
+	return nil
+}
+
+// LookupNumbers returns the numbers of the array a key has as its value.
+func LookupNumbers(dict []byte, key string, get Getter) []float64 {
+	return Numbers(DictValue(dict, key), get)
+}
+
+// Numbers returns the numbers of an array, or nil if the value is not an array
+// of numbers.
+func Numbers(value []byte, get Getter) []float64 {
+	value = Resolve(value, get)
+	if len(value) == 0 || value[0] != '[' {
+		return nil
+	}
+	var numbers []float64
+	for _, item := range ArrayItems(value) {
+		number, ok := Number(Resolve(item, get))
+		if !ok {
+			return nil
+		}
+		numbers = append(numbers, number)
+	}
+	return numbers
+}
+
+// LookupInt returns the integer value of a key.
+func LookupInt(dict []byte, key string, get Getter) (int, bool) {
+	number, ok := Number(Lookup(dict, key, get))
+	if !ok || number != float64(int(number)) {
+		return 0, false
+	}
+	return int(number), true
+}
+
+// LookupName returns the value of a key that is a name, with its slash, or "".
+func LookupName(dict []byte, key string, get Getter) string {
+	if value := Lookup(dict, key, get); len(value) > 0 && value[0] == '/' {
+		return "/" + DecodeName(string(value))
+	}
+	return ""
+}
+
+// LookupText returns the value of a key that is a text string, or "".
+func LookupText(dict []byte, key string, get Getter) string {
+	if value := Lookup(dict, key, get); IsString(value) {
+		return DecodeText(value)
+	}
+	return ""
+}
+
+// Number parses a number the way PDF writes them.
+func Number(value []byte) (float64, bool) {
+	if len(value) == 0 || bytes.ContainsAny(value, "eExXpPinIN_") {
+		return 0, false
+	}
+	number, err := strconv.ParseFloat(string(value), 64)
+	return number, err == nil
+}
+
+// IsString reports whether a value is a literal or hexadecimal string.
+func IsString(value []byte) bool {
+	return len(value) > 0 && (value[0] == '(' || value[0] == '<' && !bytes.HasPrefix(value, []byte("<<")))
+}
+
+// Stream splits a stream object into its dictionary and its encoded data.
+func Stream(object []byte, get Getter) (dict, data []byte, ok bool) {
+	span, ok := Object(object, func(objNum int) (int, bool) {
+		length, err := get(objNum)
+		if err != nil {
+			return 0, false
+		}
+		n, err := strconv.Atoi(string(Value(length)))
+		return n, err == nil
+	})
+	if !ok || !span.IsStream {
+		return nil, nil, false
+	}
+	return object[span.DictStart:span.DictEnd], object[span.StreamStart:span.StreamEnd], true
+}
diff --git a/internal/pdfscan/scan.go b/internal/pdfscan/scan.go
index 66de14d..6218df5 100644
--- a/internal/pdfscan/scan.go
+++ b/internal/pdfscan/scan.go
@@ -170,6 +170,7 @@ func SkipReference(data []byte, pos int) (int, bool) {
 	return end, ok
 }
 
+// Reference reads an indirect reference "N G R".
 func Reference(data []byte, pos int) (num, end int, ok bool) {
 	num, end, ok = Uint(data, pos)
 	if !ok || end >= len(data) || IsRegular(data[end]) {
@@ -220,29 +221,38 @@ func DictValue(dict []byte, key string) []byte {
 // DictEntry returns the extent of the value of a key at the top level of a
 // dictionary.
 func DictEntry(dict []byte, key string) (start, end int, ok bool) {
+	scanDict(dict, func(name []byte, from, to int) bool {
+		if string(name) == key || bytes.IndexByte(name, '#') != -1 && DecodeName(string(name)) == key {
+			start, end, ok = from, to, true
+		}
+		return !ok
+	})
+	return start, end, ok
+}
+
+// scanDict calls visit with every key (as written, without its slash) and the
+// extent of its value until visit returns false.
+func scanDict(dict []byte, visit func(name []byte, start, end int) bool) {
 	pos := SkipSpace(dict, 0)
 	if !bytes.HasPrefix(dict[pos:], []byte("<<")) {
-		return 0, 0, false
+		return
 	}
 	pos += 2
 	for {
 		pos = SkipSpace(dict, pos)
 		if pos >= len(dict) || dict[pos] != '/' {
-			return 0, 0, false
+			return
 		}
 		nameStart := pos + 1
 		pos = nameStart
 		for pos < len(dict) && IsRegular(dict[pos]) {
 			pos++
 		}
-		name := string(dict[nameStart:pos])
-		start = SkipSpace(dict, pos)
-		end, ok = SkipValue(dict, start)
-		if !ok {
-			return 0, 0, false
-		}
-		if name == key {
-			return start, end, true
+		name := dict[nameStart:pos]
+		start := SkipSpace(dict, pos)
+		end, ok := SkipValue(dict, start)
+		if !ok || !visit(name, start, end) {
+			return
 		}
 		pos = end
 	}
@@ -478,6 +488,76 @@ func MapStrings(value []byte, fn func(plain []byte) ([]byte, bool)) []byte {
 	return append(result, value[copied:]...)
 }
 
+// MapReferences rewrites every indirect reference of a value with fn, which
+// gets the object number and returns the replacement, or nil to keep the
+// reference.
+func MapReferences(value []byte, fn func(objNum int) []byte) []byte {
+	var result []byte
+	copied := 0
+	for pos := 0; pos < len(value); {
+		switch c := value[pos]; {
+		case c == '%':
+			pos = SkipSpace(value, pos)
+		case c == '(':
+			end, ok := SkipString(value, pos)
+			if !ok {
+				end = len(value)
+			}
+			pos = end
+		case c == '<' && !bytes.HasPrefix(value[pos:], []byte("<<")):
+			idx := bytes.IndexByte(value[pos:], '>')
+			if idx == -1 {
+				idx = len(value) - pos - 1
+			}
+			pos += idx + 1
+		case c == '/' || IsRegular(c):
+			if objNum, end, ok := Reference(value, pos); ok {
+				if text := fn(objNum); text != nil {
+					result = append(append(result, value[copied:pos]...), text...)
+					copied = end
+				}
+				pos = end
+				continue
+			}
+			for pos++; pos < len(value) && IsRegular(value[pos]); {
+				pos++
+			}
+		case c == '<':
+			pos += 2
+		default:
+			pos++
+		}
+	}
+	if copied == 0 {
+		return value
+	}
+	return append(result, value[copied:]...)
+}
+
+// SetDictEntry returns the dictionary (or the object that starts with one)
+// with the value of a key replaced, or added if the key is absent.
+func SetDictEntry(dict []byte, key string, value []byte) []byte {
+	start, end, ok := DictEntry(dict, key)
+	if !ok {
+		start = SkipSpace(dict, 0)
+		if !bytes.HasPrefix(dict[start:], []byte("<<")) {
+			return dict
+		}
+		start += len("<<")
+		end = start
+		value = append(append([]byte(EncodeName(key)), ' '), value...)
+	}
+	result := append([]byte{}, dict[:start]...)
+	if start > 0 && IsRegular(dict[start-1]) && len(value) > 0 && IsRegular(value[0]) {
+		result = append(result, ' ')
+	}
+	result = append(result, value...)
+	if end < len(dict) && IsRegular(dict[end]) {
+		result = append(result, ' ')
+	}
+	return append(result, dict[end:]...)
+}
+
 // DecodeString returns the bytes denoted by a literal or hexadecimal string.
 func DecodeString(token []byte) []byte {
 	if len(token) < 2 {
-- 
2.43.0


From fc6f202e64111f536d1a56e84be15559e2891f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 08/41] fix: edit, extract and merge pages on the parsed page
 tree

Rebuilt documents nested object wrappers, extracted pages lost everything
they refer to, merged pages came in random order with mixed up references,
and edits ignored nested page trees and earlier edits.
---
 core/manipulate/copying.go    | 115 +++++++++++++++++
 core/manipulate/deletion.go   | 237 ++++++----------------------------
 core/manipulate/extraction.go |  56 ++------
 core/manipulate/insertion.go  | 126 +++++++-----------
 core/manipulate/manipulate.go | 229 ++++++++++----------------------
 core/manipulate/merging.go    | 165 ++---------------------
 core/manipulate/pagetree.go   | 141 ++++++++++++++++++++
 core/manipulate/rotation.go   | 143 ++------------------
 core/manipulate/splitting.go  |   1 +
 9 files changed, 449 insertions(+), 764 deletions(-)
 create mode 100644 core/manipulate/copying.go
 create mode 100644 core/manipulate/pagetree.go

diff --git a/core/manipulate/copying.go b/core/manipulate/copying.go
new file mode 100644
index 0000000..76b6a3b
--- /dev/null
+++ b/core/manipulate/copying.go
@@ -0,0 +1,115 @@
+package manipulate
+
+import (
+	"bytes"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+// pageCopier copies pages of a document, with everything they depend on, into
+// a writer.
+type pageCopier struct {
+	writer *write.PDFWriter
+	source *PDFManipulator
+	pages  map[int]bool // objects of the source's page tree
+	copies map[int]int  // object number -> number of the copy
+	queue  []int        // objects that are not copied yet
+}
+
+// copyPages copies pages of the source in the order given and returns the
+// numbers of the new page objects.
+func copyPages(writer *write.PDFWriter, pagesObjNum int, source *PDFManipulator, selected []pageNode) ([]int, error) {
+	tree, err := source.getAllPages()
+	if err != nil {
+		return nil, err
+	}
+	copier := &pageCopier{writer: writer, source: source, pages: make(map[int]bool), copies: make(map[int]int)}
+	for _, page := range tree {
+		copier.pages[page.objNum] = true
+		for _, objNum := range page.parents {
+			copier.pages[objNum] = true
+		}
+	}
+
+	// References to a page that is selected lead to its (first) copy
+	pageObjNums := make([]int, 0, len(selected))
+	for _, page := range selected {
+		objNum := writer.AddObject(nil)
+		pageObjNums = append(pageObjNums, objNum)
+		if _, ok := copier.copies[page.objNum]; !ok {
+			copier.copies[page.objNum] = objNum
+		}
+	}
+	for i, page := range selected {
+		writer.SetObject(pageObjNums[i], copier.page(page, pagesObjNum))
+	}
+	for len(copier.queue) > 0 {
+		objNum := copier.queue[0]
+		copier.queue = copier.queue[1:]
+		writer.SetObject(copier.copies[objNum], mapReferences(source.objects[objNum], copier.reference))
+	}
+	return pageObjNums, nil
+}
+
+// page returns the page dictionary for the copy of a page, with the attributes
+// it inherits.
+func (c *pageCopier) page(page pageNode, pagesObjNum int) []byte {
+	var dict bytes.Buffer
+	dict.WriteString("<<")
+	add := func(key string, value []byte) {
+		fmt.Fprintf(&dict, "%s %s\n", pdfscan.EncodeName(key), value)
+	}
+	add("Parent", []byte(fmt.Sprintf("%d 0 R", pagesObjNum)))
+	present := make(map[string]bool)
+	for _, entry := range pdfscan.Entries(c.source.objects[page.objNum]) {
+		if entry.Key != "Parent" && !present[entry.Key] {
+			add(entry.Key, mapReferences(entry.Value, c.reference))
+		}
+		present[entry.Key] = true
+	}
+	for _, key := range inheritableAttributes {
+		if value := page.inherited[key]; value != nil && !present[key] {
+			add(key, mapReferences(value, c.reference))
+		}
+	}
+	dict.WriteString(">>")
+	return dict.Bytes()
+}
+
+// reference returns the reference to the copy of an object, which is queued to
+// be copied. References to nodes of the page tree that are not copied, and to
+// objects that do not exist, become null.
+func (c *pageCopier) reference(objNum int) []byte {
+	copied, ok := c.copies[objNum]
+	if !ok {
+		if _, exists := c.source.objects[objNum]; !exists || c.pages[objNum] {
+			return []byte("null")
+		}
+		copied = c.writer.AddObject(nil)
+		c.copies[objNum] = copied
+		c.queue = append(c.queue, objNum)
+	}
+	return []byte(fmt.Sprintf("%d 0 R", copied))
+}
+
+// writePages writes the document with the given pages.
+func writePages(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) ([]byte, error) {
+	// Build Kids array
+	kids := "["
+	for _, objNum := range pageObjNums {
+		kids += fmt.Sprintf("%d 0 R ", objNum)
+	}
+	kids += "]"
+
+	// Create Pages object
+	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
+	writer.SetObject(pagesObjNum, []byte(pagesDict))
+
+	// Create Catalog
+	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+	writer.SetRoot(catalogObjNum)
+
+	return writer.Bytes()
+}
diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..a49c23d 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,235 +2,82 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"sort"
 )
 
 // DeletePage deletes a specific page from the PDF
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) DeletePage(pageNumber int) error {
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	pages, err := m.getAllPages()
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
-
-	// Find the parent Pages object that contains this page
-	parentPagesObjNum, err := m.findParentPagesObject(pageObjNum)
+	page, err := m.getPage(pageNumber)
 	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
-	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
+		return fmt.Errorf("failed to get page object: %w", err)
 	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	if len(page.parents) == 0 {
+		return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, page.objNum)
 	}
-
-	// Parse kids array and remove the page reference
-	// Kids array format: "[5 0 R 6 0 R ]" or "[5 0 R 6 0 R]"
-	kidsRefs := parseObjectRefArray(kidsStr)
-	if len(kidsRefs) == 0 {
-		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
+	if len(pages) == 1 {
+		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
 
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
-
-	found := false
-	for _, kidRef := range kidsRefs {
-		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
-			found = true
-			// Skip this reference (don't add to newKidsRefs)
-		} else {
-			newKidsRefs = append(newKidsRefs, kidRef)
+	// Remove the reference to the page from the /Kids of its parent, and the
+	// parent from its own parent if it has no other kids
+	removed := page.objNum
+	for i := len(page.parents) - 1; i >= 0; i-- {
+		kids := m.kids(page.parents[i])
+		idx := indexOfReference(kids, removed)
+		if idx == -1 {
+			return fmt.Errorf("object %d not found in Kids array of object %d", removed, page.parents[i])
 		}
-	}
-
-	if !found {
-		return fmt.Errorf("page %d (object %d) not found in Kids array. Kids: %v, KidsStr: %s", pageNumber, pageObjNum, kidsRefs, kidsStr)
-	}
-
-	// Rebuild Kids array string with proper formatting (matching writer format: "[5 0 R 6 0 R ]")
-	// Note: No space before opening bracket to match original format
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
+		kids = append(kids[:idx:idx], kids[idx+1:]...)
+		m.setKids(page.parents[i], kids)
+		if len(kids) > 0 {
+			break
 		}
-		newKidsStr += ref
+		removed = page.parents[i]
 	}
-	newKidsStr += " ]"
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
-		return fmt.Errorf("cannot delete page: would result in 0 pages")
-	}
-
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
 
 	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
-	}
+	m.updatePageCounts(page.parents)
 
 	if m.verbose {
-		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
+		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, page.objNum)
 	}
 
 	return nil
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based, in any order
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
-		}
-	}
-	return nil
-}
-
-// findParentPagesObject finds the Pages object that contains the given page object
-func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
-	// Get all Pages objects (intermediate nodes in page tree)
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
+	pages, err := m.getAllPages()
 	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
+		return fmt.Errorf("failed to get page objects: %w", err)
 	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
-}
-
-// findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return 0, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) - shouldn't happen, but check anyway
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		return 0, fmt.Errorf("reached /Page object, expected /Pages")
-	}
-
-	// Get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return 0, fmt.Errorf("no /Kids array found")
-	}
-
-	// Check if target page is in this Pages object's Kids
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-
-		if kidObjNum == targetPageObjNum {
-			// Found it! This Pages object is the parent
-			return pagesObjNum, nil
-		}
-
-		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
-		if err != nil {
-			continue
-		}
-		kidStr := string(kidObj)
-		kidType := extractDictValue(kidStr, "/Type")
-		if kidType == "/Pages" {
-			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
-			if err == nil {
-				return parent, nil
-			}
+	selected := make(map[int]bool)
+	for _, pageNumber := range pageNumbers {
+		if pageNumber < 1 || pageNumber > len(pages) {
+			return fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
 		}
+		selected[pageNumber] = true
 	}
-
-	return 0, fmt.Errorf("page object %d not found in page tree", targetPageObjNum)
-}
-
-// updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
+	if len(selected) > 0 && len(selected) == len(pages) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
 	}
 
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
-		if err != nil {
-			currentCount = 0
-		}
+	// Delete from end to beginning to avoid index shifts
+	sorted := make([]int, 0, len(selected))
+	for pageNumber := range selected {
+		sorted = append(sorted, pageNumber)
 	}
-
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
+	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	for _, pageNumber := range sorted {
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
+		}
 	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
 	return nil
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..61800a5 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -19,64 +19,28 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	// Get all pages
+	allPages, err := manipulator.getAllPages()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page numbers
+	selected := make([]pageNode, 0, len(pageNumbers))
 	for _, pageNum := range pageNumbers {
-		if pageNum < 1 || pageNum > len(allPageObjNums) {
-			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPageObjNums))
+		if pageNum < 1 || pageNum > len(allPages) {
+			return nil, fmt.Errorf("page number %d out of range (1-%d)", pageNum, len(allPages))
 		}
+		selected = append(selected, allPages[pageNum-1])
 	}
 
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
 	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
-	pageObjNums := make([]int, 0, len(pageNumbers))
-
-	// Copy page objects and their dependencies
-	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
-
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
-		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
-
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
-	}
-
-	// Build Kids array
-	kids := "["
-	for i, pageNum := range pageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+	pageObjNums, err := copyPages(writer, pagesObjNum, manipulator, selected)
+	if err != nil {
+		return nil, fmt.Errorf("failed to copy pages: %w", err)
 	}
-	kids += "]"
-
-	// Create Pages object
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
-	writer.SetRoot(catalogObjNum)
 
-	return writer.Bytes()
+	return writePages(writer, pagesObjNum, pageObjNums)
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..431968e 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -1,82 +1,76 @@
 package manipulate
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // InsertPage inserts a page at a specific position
 // pageNumber is 1-based (first page is 1, 0 means insert at end)
 // The page to insert must be from another PDF (use ExtractPages first)
+// pageObjNum must not be in use, unless by a page that has been deleted
 func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent []byte) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	pages, err := m.getAllPages()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
 
 	// Validate page number
-	if pageNumber < 0 || pageNumber > len(pageObjNums)+1 {
-		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
+	if pageNumber < 0 || pageNumber > len(pages)+1 {
+		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pages)+1)
 	}
 
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
-	if err != nil {
-		return fmt.Errorf("failed to find parent Pages object: %w", err)
+	// Validate object number and content
+	if pageObjNum < 1 {
+		return fmt.Errorf("invalid object number %d for page", pageObjNum)
 	}
-
-	// Get parent Pages object
-	parentPagesObj, ok := m.objects[parentPagesObjNum]
-	if !ok {
-		return fmt.Errorf("parent Pages object %d not found", parentPagesObjNum)
+	for _, page := range pages {
+		if page.objNum == pageObjNum {
+			return fmt.Errorf("object %d is a page of the document already", pageObjNum)
+		}
 	}
-
-	parentPagesStr := string(parentPagesObj)
-
-	// Get Kids array
-	kidsStr := extractDictValue(parentPagesStr, "/Kids")
-	if kidsStr == "" {
-		return fmt.Errorf("no /Kids array found in parent Pages object")
+	if existing, ok := m.objects[pageObjNum]; ok && pdfscan.LookupName(existing, "Type", m.getObject) != "/Page" {
+		return fmt.Errorf("object number %d is in use", pageObjNum)
 	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-
-	// Insert the new page reference at the specified position
-	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
+	content := objectContent(pageContent, m.getObject)
+	if !bytes.HasPrefix(content, []byte("<<")) {
+		return fmt.Errorf("page content is not a dictionary")
 	}
 
-	// Rebuild Kids array string
-	newKidsStr := "["
-	for i, ref := range newKidsRefs {
-		if i > 0 {
-			newKidsStr += " "
+	// Find the parent Pages object and the position among its kids: those of
+	// the page that follows, or the end of the root
+	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
+	if err != nil {
+		return fmt.Errorf("failed to find parent Pages object: %w", err)
+	}
+	parents := []int{parentPagesObjNum}
+	kids := m.kids(parentPagesObjNum)
+	insertIdx := len(kids)
+	if pageNumber > 0 && pageNumber <= len(pages) {
+		next := pages[pageNumber-1]
+		if len(next.parents) == 0 {
+			return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, next.objNum)
 		}
-		newKidsStr += ref
+		parents = next.parents
+		parentPagesObjNum = parents[len(parents)-1]
+		kids = m.kids(parentPagesObjNum)
+		insertIdx = max(indexOfReference(kids, next.objNum), 0)
 	}
-	newKidsStr += " ]"
 
-	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
+	// Insert the new page reference at the position
+	newKids := make([][]byte, 0, len(kids)+1)
+	newKids = append(newKids, kids[:insertIdx]...)
+	newKids = append(newKids, []byte(fmt.Sprintf("%d 0 R", pageObjNum)))
+	newKids = append(newKids, kids[insertIdx:]...)
 
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
+	// Add the page object to our objects map
+	m.objects[pageObjNum] = pdfscan.SetDictEntry(content, "Parent", []byte(fmt.Sprintf("%d 0 R", parentPagesObjNum)))
 
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Update /Kids and /Count in parent Pages objects
+	m.setKids(parentPagesObjNum, newKids)
+	m.updatePageCounts(parents)
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
@@ -87,31 +81,5 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 // findParentPagesObjectForInsertion finds the root Pages object for insertion
 func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return 0, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return 0, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return 0, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return 0, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return pagesObjNum, nil
+	return rootPagesObject(m.pdf.Trailer(), m.getObject)
 }
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..a299418 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -1,20 +1,19 @@
 package manipulate
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // PDFManipulator provides functions to modify existing PDFs
 type PDFManipulator struct {
 	pdf      *parse.PDF
 	pdfBytes []byte
-	writer   *write.PDFWriter
 	objects  map[int][]byte // object number -> content
 	verbose  bool
 }
@@ -29,9 +28,6 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	// Create a new writer for rebuilding
-	writer := write.NewPDFWriter()
-
 	// Copy all objects from original PDF
 	objects := make(map[int][]byte)
 	for _, objNum := range pdf.Objects() {
@@ -42,18 +38,53 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		content := objectContent(obj, pdf.GetObject)
+		switch pdfscan.LookupName(content, "Type", pdf.GetObject) {
+		case "/ObjStm", "/XRef":
+			continue // part of the file structure, which is written anew
+		}
+		objects[objNum] = content
 	}
 
 	return &PDFManipulator{
 		pdf:      pdf,
 		pdfBytes: pdfBytes,
-		writer:   writer,
 		objects:  objects,
 		verbose:  verbose,
 	}, nil
 }
 
+// objectContent returns the content of an object without the "N G obj" and
+// "endobj" around it.
+func objectContent(object []byte, get pdfscan.Getter) []byte {
+	if _, _, _, ok := pdfscan.ObjectHeader(object, pdfscan.SkipSpace(object, 0)); !ok {
+		return bytes.TrimSpace(object)
+	}
+	span, ok := pdfscan.Object(object, func(objNum int) (int, bool) {
+		length, err := get(objNum)
+		if err != nil {
+			return 0, false
+		}
+		n, ok := pdfscan.Number(pdfscan.Value(length))
+		return int(n), ok
+	})
+	if !ok {
+		if span, ok = pdfscan.SearchObject(object); !ok {
+			return nil
+		}
+	}
+	return object[span.ContentStart:span.ContentEnd]
+}
+
+// getObject returns the current content of an object.
+func (m *PDFManipulator) getObject(objNum int) ([]byte, error) {
+	object, ok := m.objects[objNum]
+	if !ok {
+		return nil, fmt.Errorf("object %d not found", objNum)
+	}
+	return object, nil
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
@@ -61,9 +92,16 @@ func (m *PDFManipulator) Rebuild() ([]byte, error) {
 
 // rebuildPDF rebuilds the PDF with modified objects
 func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
-	// Add all objects to writer
+	writer := write.NewPDFWriter()
+	if version := m.pdf.Version(); version != "unknown" {
+		writer.SetVersion(version)
+	}
+
+	// Add all objects to writer, which gives them generation 0
 	for objNum, content := range m.objects {
-		m.writer.SetObject(objNum, content)
+		writer.SetObject(objNum, mapReferences(content, func(refNum int) []byte {
+			return []byte(fmt.Sprintf("%d 0 R", refNum))
+		}))
 	}
 
 	// Get trailer info
@@ -73,165 +111,40 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 	}
 
 	// Set root, info, encrypt references
-	if trailer.RootRef != "" {
-		rootObjNum, err := parseObjectRef(trailer.RootRef)
-		if err == nil {
-			m.writer.SetRoot(rootObjNum)
-		}
-	}
-	if trailer.InfoRef != "" {
-		infoObjNum, err := parseObjectRef(trailer.InfoRef)
-		if err == nil {
-			m.writer.SetInfo(infoObjNum)
-		}
-	}
-	if trailer.EncryptRef != "" {
-		encryptObjNum, err := parseObjectRef(trailer.EncryptRef)
-		if err == nil {
-			m.writer.SetEncryptRef(encryptObjNum)
+	for ref, set := range map[string]func(int){
+		trailer.RootRef:    writer.SetRoot,
+		trailer.InfoRef:    writer.SetInfo,
+		trailer.EncryptRef: writer.SetEncryptRef,
+	} {
+		if objNum, _, ok := pdfscan.Reference([]byte(ref), 0); ok {
+			set(objNum)
 		}
 	}
 
-	// Set encryption if present
+	// Set encryption if present, with the file ID the key depends on
 	if m.pdf.IsEncrypted() {
-		m.writer.SetEncryption(m.pdf.Encryption(), nil) // fileID will be regenerated
-	}
-
-	return m.writer.Bytes()
-}
-
-// parseObjectRef parses an object reference like "5 0 R"
-func parseObjectRef(ref string) (int, error) {
-	parts := strings.Fields(ref)
-	if len(parts) < 1 {
-		return 0, fmt.Errorf("invalid object reference: %s", ref)
-	}
-	objNum, err := strconv.Atoi(parts[0])
-	if err != nil {
-		return 0, fmt.Errorf("invalid object number in reference: %s", ref)
-	}
-	return objNum, nil
-}
-
-// extractDictValue extracts a value from a PDF dictionary string
-func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
-	}
-
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
-				depth++
-			} else if dictStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i + 1
-					break
-				}
-			}
-		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
+		var fileID []byte
+		if id := pdfscan.ArrayItems(trailer.IDArray); len(id) > 0 {
+			fileID = pdfscan.DecodeString(id[0])
 		}
+		writer.SetEncryption(m.pdf.Encryption(), fileID)
 	}
 
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
+	return writer.Bytes()
+}
 
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+// mapReferences rewrites the references of an object's content. The data of a
+// stream stays as it is.
+func mapReferences(content []byte, fn func(objNum int) []byte) []byte {
+	end, ok := pdfscan.SkipValue(content, pdfscan.SkipSpace(content, 0))
+	if !ok {
+		return content
 	}
-
-	return ""
+	mapped := pdfscan.MapReferences(content[:end:end], fn)
+	return append(mapped[:len(mapped):len(mapped)], content[end:]...)
 }
 
 // setDictValue sets or updates a value in a PDF dictionary string
 func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
-			}
-		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
-		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
-		}
-	}
-
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
-		return dictStr
-	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	return string(pdfscan.SetDictEntry([]byte(dictStr), strings.TrimPrefix(key, "/"), []byte(value)))
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..66d21bc 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -16,8 +14,8 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	}
 
 	writer := write.NewPDFWriter()
+	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
 	var allPageObjNums []int
-	nextObjNum := 1
 
 	// Process each PDF
 	for pdfIdx, pdfBytes := range pdfBytesList {
@@ -26,168 +24,25 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		// Get all pages from this PDF
+		pages, err := manipulator.getAllPages()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
 
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
-		}
-	}
-
-	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
-	kids := "["
-	for i, pageNum := range allPageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
-	}
-	kids += "]"
-
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(allPageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := nextObjNum
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
-	writer.SetRoot(catalogObjNum)
-
-	return writer.Bytes()
-}
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
+		// Copy the pages and all they depend on to the merged PDF, with new
+		// object numbers to avoid conflicts
+		pageObjNums, err := copyPages(writer, pagesObjNum, manipulator, pages)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to copy pages from PDF %d: %w", pdfIdx+1, err)
 		}
-		pageObjNums = append(pageObjNums, childPages...)
+		allPageObjNums = append(allPageObjNums, pageObjNums...)
 	}
 
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
+	return writePages(writer, pagesObjNum, allPageObjNums)
 }
diff --git a/core/manipulate/pagetree.go b/core/manipulate/pagetree.go
new file mode 100644
index 0000000..231ffa0
--- /dev/null
+++ b/core/manipulate/pagetree.go
@@ -0,0 +1,141 @@
+package manipulate
+
+import (
+	"bytes"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+// inheritableAttributes are the page attributes that Pages nodes pass on.
+var inheritableAttributes = []string{"Resources", "MediaBox", "CropBox", "Rotate"}
+
+// pageNode is a page of the page tree.
+type pageNode struct {
+	objNum    int
+	parents   []int             // Pages nodes from the root of the tree downwards
+	inherited map[string][]byte // attributes the parents pass on
+}
+
+// rootPagesObject returns the object number of the root of the page tree.
+func rootPagesObject(trailer *parse.TrailerInfo, get pdfscan.Getter) (int, error) {
+	if trailer == nil || trailer.RootRef == "" {
+		return 0, fmt.Errorf("no root reference found")
+	}
+	catalog := pdfscan.Resolve([]byte(trailer.RootRef), get)
+	if catalog == nil {
+		return 0, fmt.Errorf("failed to get catalog %s", trailer.RootRef)
+	}
+	pagesObjNum, _, ok := pdfscan.Reference(pdfscan.DictValue(catalog, "Pages"), 0)
+	if !ok {
+		return 0, fmt.Errorf("no /Pages reference in catalog")
+	}
+	return pagesObjNum, nil
+}
+
+// pageTree lists the pages of a page tree in order. Every Pages node is
+// visited once, however often it is referred to.
+func pageTree(pagesObjNum int, get pdfscan.Getter) []pageNode {
+	var pages []pageNode
+	visited := make(map[int]bool)
+
+	var walk func(objNum int, parents []int, inherited map[string][]byte)
+	walk = func(objNum int, parents []int, inherited map[string][]byte) {
+		object, err := get(objNum)
+		if err != nil || visited[objNum] {
+			return
+		}
+		node := pdfscan.Value(object)
+		kids := pdfscan.Lookup(node, "Kids", get)
+		nodeType := pdfscan.LookupName(node, "Type", get)
+		if !bytes.HasPrefix(node, []byte("<<")) {
+			return
+		}
+		if nodeType == "/Page" || nodeType != "/Pages" && kids == nil {
+			pages = append(pages, pageNode{objNum: objNum, parents: parents, inherited: inherited})
+			return
+		}
+
+		visited[objNum] = true
+		attributes := make(map[string][]byte)
+		for _, key := range inheritableAttributes {
+			if value := pdfscan.DictValue(node, key); value != nil {
+				attributes[key] = value
+			} else if value := inherited[key]; value != nil {
+				attributes[key] = value
+			}
+		}
+		parents = append(parents[:len(parents):len(parents)], objNum)
+		for _, kid := range pdfscan.ArrayItems(kids) {
+			if kidNum, _, ok := pdfscan.Reference(kid, 0); ok {
+				walk(kidNum, parents, attributes)
+			}
+		}
+	}
+	walk(pagesObjNum, nil, nil)
+	return pages
+}
+
+// getAllPages returns the pages of the document in order
+func (m *PDFManipulator) getAllPages() ([]pageNode, error) {
+	pagesObjNum, err := m.findParentPagesObjectForInsertion()
+	if err != nil {
+		return nil, err
+	}
+	return pageTree(pagesObjNum, m.getObject), nil
+}
+
+// getAllPageObjectNumbers gets all page object numbers from the pages tree
+func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
+	pages, err := m.getAllPages()
+	if err != nil {
+		return nil, err
+	}
+	var pageObjNums []int
+	for _, page := range pages {
+		pageObjNums = append(pageObjNums, page.objNum)
+	}
+	return pageObjNums, nil
+}
+
+// getPage gets a given page (1-based)
+func (m *PDFManipulator) getPage(pageNumber int) (pageNode, error) {
+	pages, err := m.getAllPages()
+	if err != nil {
+		return pageNode{}, err
+	}
+	if pageNumber < 1 || pageNumber > len(pages) {
+		return pageNode{}, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pages))
+	}
+	return pages[pageNumber-1], nil
+}
+
+// kids returns the references of the /Kids array of a Pages object.
+func (m *PDFManipulator) kids(pagesObjNum int) [][]byte {
+	return pdfscan.ArrayItems(pdfscan.Lookup(m.objects[pagesObjNum], "Kids", m.getObject))
+}
+
+// setKids replaces the /Kids array of a Pages object.
+func (m *PDFManipulator) setKids(pagesObjNum int, kids [][]byte) {
+	array := "[" + string(bytes.Join(kids, []byte(" "))) + "]"
+	m.objects[pagesObjNum] = pdfscan.SetDictEntry(m.objects[pagesObjNum], "Kids", []byte(array))
+}
+
+// updatePageCounts sets the /Count of the given Pages objects
+func (m *PDFManipulator) updatePageCounts(pagesObjNums []int) {
+	for _, objNum := range pagesObjNums {
+		count := fmt.Sprint(len(pageTree(objNum, m.getObject)))
+		m.objects[objNum] = pdfscan.SetDictEntry(m.objects[objNum], "Count", []byte(count))
+	}
+}
+
+// indexOfReference returns the position of the reference to an object, or -1.
+func indexOfReference(refs [][]byte, objNum int) int {
+	for i, ref := range refs {
+		if num, _, ok := pdfscan.Reference(ref, 0); ok && num == objNum {
+			return i
+		}
+	}
+	return -1
+}
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..61b475c 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -2,9 +2,9 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
+	"math"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
@@ -14,29 +14,20 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
 	}
 
-	// Get page object number
-	pageObjNum, err := m.getPageObjectNumber(pageNumber)
+	// Get page object
+	page, err := m.getPage(pageNumber)
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
 
-	// Get page object
-	pageObj, ok := m.objects[pageObjNum]
-	if !ok {
-		return fmt.Errorf("page object %d not found", pageObjNum)
-	}
-
-	pageStr := string(pageObj)
-
 	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	rotate := pdfscan.DictValue(m.objects[page.objNum], "Rotate")
+	if rotate == nil {
+		rotate = page.inherited["Rotate"]
+	}
 	currentRot := 0
-	if currentRotStr != "" {
-		var parseErr error
-		currentRot, parseErr = strconv.Atoi(currentRotStr)
-		if parseErr != nil {
-			currentRot = 0
-		}
+	if rotation, ok := pdfscan.Number(pdfscan.Resolve(rotate, m.getObject)); ok && math.Abs(rotation) < 1e6 {
+		currentRot = int(rotation)
 	}
 
 	// Calculate new rotation (add to current, normalize to 0-360)
@@ -46,8 +37,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	}
 
 	// Update the /Rotate field
-	updatedPageStr := setDictValue(pageStr, "/Rotate", fmt.Sprintf("%d", newRot))
-	m.objects[pageObjNum] = []byte(updatedPageStr)
+	m.objects[page.objNum] = pdfscan.SetDictEntry(m.objects[page.objNum], "Rotate", []byte(fmt.Sprint(newRot)))
 
 	if m.verbose {
 		fmt.Printf("Rotated page %d by %d degrees (old: %d, new: %d)\n", pageNumber, angle, currentRot, newRot)
@@ -73,112 +63,3 @@ func (m *PDFManipulator) RotateAllPages(angle int) error {
 
 	return nil
 }
-
-// getPageObjectNumber gets the object number for a given page (1-based)
-func (m *PDFManipulator) getPageObjectNumber(pageNumber int) (int, error) {
-	pageObjNums, err := m.getAllPageObjectNumbers()
-	if err != nil {
-		return 0, err
-	}
-
-	if pageNumber < 1 || pageNumber > len(pageObjNums) {
-		return 0, fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
-	}
-
-	return pageObjNums[pageNumber-1], nil
-}
-
-// getAllPageObjectNumbers recursively gets all page object numbers from the pages tree
-func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
-	trailer := m.pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return m.extractPageObjectNumbers(pagesObjNum)
-}
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
-		if err != nil {
-			continue
-		}
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums, nil
-}
-
-// parseObjectRefArray parses an array of object references like "[5 0 R 6 0 R]"
-func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
-	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
-		}
-	}
-
-	return refs
-}
diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index dea34ef..85c978b 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -88,6 +88,7 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 	}
 
 	// Create ranges
+	pagesPerPDF = min(pagesPerPDF, totalPages)
 	var ranges []PageRange
 	for start := 1; start <= totalPages; start += pagesPerPDF {
 		end := start + pagesPerPDF - 1
-- 
2.43.0


From a7f38bcee4f1226a3955759497d8e5f2196e6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 09/41] fix: extract content by parsing objects and content
 streams

Searching for substrings and regular expressions misread nested
dictionaries, escaped strings, inherited attributes, content arrays,
filters, forms, graphics state and multi-byte encodings, and returned
images and fonts in random order.
---
 content/extract/annotations.go    | 190 ++----
 content/extract/bookmarks.go      | 161 ++---
 content/extract/content_stream.go | 981 ++++++++++++++++++------------
 content/extract/dict_helpers.go   |  48 --
 content/extract/directory.go      |   6 +-
 content/extract/encoding.go       | 422 +++++++------
 content/extract/extract.go        |  52 +-
 content/extract/images.go         | 340 +++--------
 content/extract/metadata.go       | 111 +---
 content/extract/pages.go          | 428 ++++---------
 content/extract/resources.go      | 651 +++-----------------
 types/content_types.go            |   3 +
 12 files changed, 1276 insertions(+), 2117 deletions(-)
 delete mode 100644 content/extract/dict_helpers.go

diff --git a/content/extract/annotations.go b/content/extract/annotations.go
index e8d6a65..5b708ef 100644
--- a/content/extract/annotations.go
+++ b/content/extract/annotations.go
@@ -1,65 +1,47 @@
 package extract
 
 import (
-	"fmt"
+	"bytes"
+	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractAnnotations extracts annotations from a page's /Annots array
-func extractAnnotations(annotsStr string, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
+func extractAnnotations(annots []byte, pdf *parse.PDF, pageNum int, verbose bool) []types.Annotation {
 	var annotations []types.Annotation
-
-	// Parse annotations array (e.g., "[5 0 R 6 0 R]")
-	annotRefs := parseObjectRefArray(annotsStr)
-	if len(annotRefs) == 0 {
-		// Try as single reference
-		if annotRefs = []string{annotsStr}; len(annotsStr) > 0 {
-			// Already set
-		} else {
-			return annotations
-		}
-	}
-
-	for _, annotRef := range annotRefs {
-		annotObjNum, err := parseObjectRef(annotRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse annotation reference %s: %v\n", annotRef, err)
-			}
-			continue
-		}
-
-		annot := extractAnnotation(annotObjNum, pdf, pageNum, verbose)
+	for _, item := range pdfscan.ArrayItems(annots) {
+		annot := extractAnnotation(item, pdf, pageNum, verbose)
 		if annot != nil {
 			annotations = append(annotations, *annot)
 		}
 	}
-
 	return annotations
 }
 
-// extractAnnotation extracts a single annotation object
-func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
-	annotObj, err := pdf.GetObject(annotObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get annotation object %d: %v\n", annotObjNum, err)
-		}
+// extractAnnotation extracts a single annotation, given as a reference or as a
+// dictionary
+func extractAnnotation(value []byte, pdf *parse.PDF, pageNum int, verbose bool) *types.Annotation {
+	annot := pdfscan.Resolve(value, pdf.GetObject)
+	if !bytes.HasPrefix(annot, []byte("<<")) {
 		return nil
 	}
+	name := func(key string) string { return pdfscan.LookupName(annot, key, pdf.GetObject) }
+	text := func(key string) string { return pdfscan.LookupText(annot, key, pdf.GetObject) }
 
-	annotStr := string(annotObj)
 	annotation := &types.Annotation{
-		ID:         fmt.Sprintf("%d", annotObjNum),
 		PageNumber: pageNum,
 		Properties: make(map[string]interface{}),
 	}
+	if objNum, _, ok := pdfscan.Reference(value, 0); ok {
+		annotation.ID = strconv.Itoa(objNum)
+	}
 
 	// Extract Subtype (annotation type)
-	subtype := extractDictValue(annotStr, "/Subtype")
+	subtype := name("Subtype")
 	if subtype == "" {
 		// Not a valid annotation
 		return nil
@@ -87,7 +69,7 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type = types.AnnotationTypeLine
 	case "/Polygon":
 		annotation.Type = types.AnnotationTypePolygon
-	case "/Polyline":
+	case "/PolyLine", "/Polyline":
 		annotation.Type = types.AnnotationTypePolyline
 	case "/Ink":
 		annotation.Type = types.AnnotationTypeInk
@@ -105,114 +87,62 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 	}
 
 	// Extract Rect (bounding rectangle)
-	rect := extractArrayValue(annotStr, "/Rect")
-	if len(rect) >= 4 {
-		annotation.Rect = &types.Rectangle{
-			LowerX: rect[0],
-			LowerY: rect[1],
-			UpperX: rect[2],
-			UpperY: rect[3],
-		}
-	}
+	annotation.Rect = rectangle(pdfscan.LookupNumbers(annot, "Rect", pdf.GetObject))
 
-	// Extract Contents (annotation text/contents)
-	contents := extractDictValue(annotStr, "/Contents")
-	if contents != "" {
-		// Unescape PDF string
-		annotation.Contents = unescapePDFString(contents)
-	}
-
-	// Extract Title
-	title := extractDictValue(annotStr, "/T")
-	if title != "" {
-		annotation.Title = unescapePDFString(title)
-	}
-
-	// Extract Subject
-	subject := extractDictValue(annotStr, "/Subj")
-	if subject != "" {
-		annotation.Subject = unescapePDFString(subject)
-	}
+	// Extract Contents (annotation text/contents), Title and Subject
+	annotation.Contents = text("Contents")
+	annotation.Title = text("T")
+	annotation.Subject = text("Subj")
 
 	// Extract Color
-	color := extractArrayValue(annotStr, "/C")
-	if len(color) >= 3 {
-		annotation.Color = &types.Color{
-			Space: types.ColorSpaceRGB,
-			R:     color[0],
-			G:     color[1],
-			B:     color[2],
-		}
-		if len(color) >= 4 {
-			// CMYK
-			annotation.Color.Space = types.ColorSpaceCMYK
-			annotation.Color.C = color[0]
-			annotation.Color.M = color[1]
-			annotation.Color.Y = color[2]
-			annotation.Color.K = color[3]
-		}
+	switch color := pdfscan.LookupNumbers(annot, "C", pdf.GetObject); len(color) {
+	case 1:
+		annotation.Color = &types.Color{Space: types.ColorSpaceGray, R: color[0]}
+	case 3:
+		annotation.Color = &types.Color{Space: types.ColorSpaceRGB, R: color[0], G: color[1], B: color[2]}
+	case 4:
+		annotation.Color = &types.Color{Space: types.ColorSpaceCMYK, C: color[0], M: color[1], Y: color[2], K: color[3]}
 	}
 
-	// Extract Border
-	borderWidthStr := extractDictValue(annotStr, "/Border")
-	if borderWidthStr != "" {
-		// Border can be [width] or [width dashArray dashPhase]
-		borderArray := extractArrayValue(annotStr, "/Border")
-		if len(borderArray) > 0 {
-			annotation.Border = &types.Border{
-				Width: borderArray[0],
-			}
-			if len(borderArray) > 2 {
-				annotation.Border.Dash = borderArray[1 : len(borderArray)-1]
-			}
+	// Extract Border: [horizontal radius, vertical radius, width, dash array]
+	if border := pdfscan.ArrayItems(pdfscan.Lookup(annot, "Border", pdf.GetObject)); len(border) >= 3 {
+		width, _ := pdfscan.Number(pdfscan.Resolve(border[2], pdf.GetObject))
+		annotation.Border = &types.Border{Width: width}
+		if len(border) > 3 {
+			annotation.Border.Dash = pdfscan.Numbers(border[3], pdf.GetObject)
 		}
 	}
 
 	// Link-specific: Extract URI or Destination
 	if annotation.Type == types.AnnotationTypeLink {
-		// Check for URI
-		uriRef := extractDictValue(annotStr, "/URI")
-		if uriRef != "" {
-			// URI might be a string or a reference to a URI object
-			if strings.HasPrefix(uriRef, "(") {
-				// It's a string
-				annotation.URI = unescapePDFString(uriRef[1 : len(uriRef)-1])
-			} else {
-				// It's a reference - get the URI object
-				uriObjNum, err := parseObjectRef(uriRef)
-				if err == nil {
-					uriObj, err := pdf.GetObject(uriObjNum)
-					if err == nil {
-						uriStr := string(uriObj)
-						uriValue := extractDictValue(uriStr, "/URI")
-						if uriValue != "" {
-							annotation.URI = unescapePDFString(uriValue[1 : len(uriValue)-1])
-						}
-					}
-				}
+		dest := pdfscan.Lookup(annot, "Dest", pdf.GetObject)
+		action := pdfscan.LookupDict(annot, "A", pdf.GetObject)
+		switch pdfscan.LookupName(action, "S", pdf.GetObject) {
+		case "/URI":
+			if uri := pdfscan.Lookup(action, "URI", pdf.GetObject); pdfscan.IsString(uri) {
+				annotation.URI = string(pdfscan.DecodeString(uri))
+			}
+		case "/GoTo":
+			if dest == nil {
+				dest = pdfscan.Lookup(action, "D", pdf.GetObject)
 			}
 		}
 
-		// Check for Destination (named destination or array)
-		dest := extractDictValue(annotStr, "/Dest")
-		if dest != "" {
-			annotation.Destination = dest
+		// Destination (named destination or array)
+		if pdfscan.IsString(dest) {
+			annotation.Destination = pdfscan.DecodeText(dest)
+		} else {
+			annotation.Destination = string(dest)
 		}
 	}
 
 	// Text annotation-specific
 	if annotation.Type == types.AnnotationTypeText {
 		// Extract Open (is annotation open/popup visible)
-		openStr := extractDictValue(annotStr, "/Open")
-		if openStr == "true" {
-			annotation.Open = true
-		}
+		annotation.Open = string(pdfscan.Lookup(annot, "Open", pdf.GetObject)) == "true"
 
 		// Extract Icon
-		icon := extractDictValue(annotStr, "/Name")
-		if icon != "" {
-			annotation.Icon = icon
-		}
+		annotation.Icon = name("Name")
 	}
 
 	// Markup annotations: Extract QuadPoints (for highlight, underline, etc.)
@@ -220,15 +150,11 @@ func extractAnnotation(annotObjNum int, pdf *parse.PDF, pageNum int, verbose boo
 		annotation.Type == types.AnnotationTypeUnderline ||
 		annotation.Type == types.AnnotationTypeStrikeout ||
 		annotation.Type == types.AnnotationTypeSquiggly {
-		quadPoints := extractArrayValue(annotStr, "/QuadPoints")
-		if len(quadPoints) >= 8 {
-			// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
-			// For simplicity, extract first quad
-			annotation.QuadPoints = []types.Point{
-				{X: quadPoints[0], Y: quadPoints[1]},
-				{X: quadPoints[2], Y: quadPoints[3]},
-				{X: quadPoints[4], Y: quadPoints[5]},
-				{X: quadPoints[6], Y: quadPoints[7]},
+		// QuadPoints is array of [x1 y1 x2 y2 x3 y3 x4 y4] for each quad
+		quadPoints := pdfscan.LookupNumbers(annot, "QuadPoints", pdf.GetObject)
+		for i := 0; i+8 <= len(quadPoints); i += 8 {
+			for j := i; j < i+8; j += 2 {
+				annotation.QuadPoints = append(annotation.QuadPoints, types.Point{X: quadPoints[j], Y: quadPoints[j+1]})
 			}
 		}
 	}
diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..7d9de4f 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -2,126 +2,79 @@ package extract
 
 import (
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractBookmarks extracts bookmarks/outlines from a PDF
 func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bookmark, error) {
-	// Get catalog to find outlines
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Bookmark{}, nil // No bookmarks
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Find Outlines reference in catalog
-	outlinesRef := extractDictValue(string(catalogObj), "/Outlines")
-	if outlinesRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObjNum, err := parseObjectRef(outlinesRef)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	outlinesObj, err := pdf.GetObject(outlinesObjNum)
-	if err != nil {
-		return []types.Bookmark{}, nil
-	}
-
-	// Get First child
-	firstRef := extractDictValue(string(outlinesObj), "/First")
-	if firstRef == "" {
-		return []types.Bookmark{}, nil
-	}
-
-	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-	if err != nil {
-		return []types.Bookmark{}, nil
+	reader := outlineReader{pdf: pdf, visited: make(map[int]bool), pageNumbers: make(map[int]int)}
+	for i, page := range pageObjects(pdf) {
+		if _, ok := reader.pageNumbers[page.objNum]; !ok {
+			reader.pageNumbers[page.objNum] = i + 1
+		}
 	}
 
-	return bookmarks, nil
+	outlines := pdfscan.Lookup(catalogDict(pdf), "Outlines", pdf.GetObject)
+	return reader.items(pdfscan.DictValue(outlines, "First")), nil
 }
 
-// extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
-	var bookmarks []types.Bookmark
-
-	itemObjNum, err := parseObjectRef(itemRef)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemObj, err := pdf.GetObject(itemObjNum)
-	if err != nil {
-		return bookmarks, err
-	}
-
-	itemStr := string(itemObj)
+// outlineReader reads the items of an outline, each of them once.
+type outlineReader struct {
+	pdf         *parse.PDF
+	visited     map[int]bool
+	pageNumbers map[int]int // page object number -> page number
+}
 
-	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+// items reads the chain of siblings that starts at the referenced item, and
+// their descendants.
+func (r *outlineReader) items(ref []byte) []types.Bookmark {
+	bookmarks := []types.Bookmark{}
+	get := r.pdf.GetObject
+	for {
+		objNum, _, ok := pdfscan.Reference(ref, 0)
+		if !ok || r.visited[objNum] {
+			return bookmarks
+		}
+		r.visited[objNum] = true
+		item := pdfscan.Resolve(ref, get)
+		if item == nil {
+			return bookmarks
+		}
 
-	// Extract destination or action
-	dest := extractDictValue(itemStr, "/Dest")
-	uri := ""
-	if dest == "" {
-		// Check for action with URI
-		actionRef := extractDictValue(itemStr, "/A")
-		if actionRef != "" {
-			actionObjNum, err := parseObjectRef(actionRef)
-			if err == nil {
-				actionObj, err := pdf.GetObject(actionObjNum)
-				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
-				}
+		bookmark := types.Bookmark{Title: pdfscan.LookupText(item, "Title", get)}
+		if dest := pdfscan.Lookup(item, "Dest", get); dest != nil {
+			r.setDestination(&bookmark, dest)
+		}
+		if action := pdfscan.LookupDict(item, "A", get); action != nil {
+			if uri := pdfscan.Lookup(action, "URI", get); pdfscan.IsString(uri) {
+				bookmark.URI = string(pdfscan.DecodeString(uri))
+			}
+			if dest := pdfscan.Lookup(action, "D", get); dest != nil && pdfscan.LookupName(action, "S", get) == "/GoTo" {
+				r.setDestination(&bookmark, dest)
 			}
 		}
-	}
-
-	bookmark := types.Bookmark{
-		Title:       title,
-		Destination: dest,
-		URI:         uri,
-		Children:    []types.Bookmark{},
-	}
+		bookmark.Children = r.items(pdfscan.DictValue(item, "First"))
+		bookmarks = append(bookmarks, bookmark)
 
-	// Extract children (First/Next chain)
-	firstRef := extractDictValue(itemStr, "/First")
-	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
-		if err == nil {
-			bookmark.Children = children
-		}
+		ref = pdfscan.DictValue(item, "Next")
 	}
+}
 
-	bookmarks = append(bookmarks, bookmark)
-
-	// Get next sibling
-	nextRef := extractDictValue(itemStr, "/Next")
-	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
-		if err == nil {
-			bookmarks = append(bookmarks, siblings...)
+// setDestination records a destination: the page of an explicit one, the name
+// of a named one.
+func (r *outlineReader) setDestination(bookmark *types.Bookmark, dest []byte) {
+	switch {
+	case pdfscan.IsString(dest):
+		bookmark.Destination = pdfscan.DecodeText(dest)
+	case dest[0] == '/':
+		bookmark.Destination = "/" + pdfscan.DecodeName(string(dest))
+	default:
+		bookmark.Destination = string(dest)
+		if items := pdfscan.ArrayItems(dest); len(items) > 0 {
+			if objNum, _, ok := pdfscan.Reference(items[0], 0); ok {
+				bookmark.PageNumber = r.pageNumbers[objNum]
+			}
 		}
 	}
-
-	return bookmarks, nil
 }
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..a299815 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -1,363 +1,500 @@
 package extract
 
 import (
-	"regexp"
-	"strconv"
-	"strings"
+	"bytes"
+	"fmt"
+	"math"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// parseContentStream parses a PDF content stream and extracts text, graphics, and images
-func parseContentStream(contentStr string, pdf *parse.PDF, pageNum int, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	// Call with nil decoders for backward compatibility
-	return parseContentStreamWithDecoders(contentStr, pdf, pageNum, nil, verbose)
+const (
+	maxOperands  = 64       // operands kept for an operator
+	maxFormDepth = 16       // nesting of form XObjects
+	maxFormBytes = 64 << 20 // form XObject content interpreted for a page
+)
+
+// contentInterpreter runs content streams and collects what they draw.
+type contentInterpreter struct {
+	pdf     *parse.PDF
+	verbose bool
+
+	text     []types.TextElement
+	graphics []types.Graphic
+	images   []types.ImageRef
+
+	state graphicsState
+	stack []graphicsState
+
+	textMatrix [6]float64
+	lineMatrix [6]float64
+
+	subpaths []subpath
+	point    types.Point
+
+	formDepth int
+	formBytes int
 }
 
-// parseContentStreamWithDecoders parses a PDF content stream with font decoding support
-func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum int, fontDecoders map[string]*FontDecoder, verbose bool) ([]types.TextElement, []types.Graphic, []types.ImageRef) {
-	var textElements []types.TextElement
-	var graphics []types.Graphic
-	var imageRefs []types.ImageRef
-
-	// Parse text state
-	textState := &textState{
-		fontName:    "",
-		fontSize:    0,
-		x:           0,
-		y:           0,
-		charSpacing: 0,
-		wordSpacing: 0,
-		textRise:    0,
-		textMatrix:  [6]float64{1, 0, 0, 1, 0, 0},
-		inText:      false,
-	}
-
-	// Parse graphics state
-	graphicsState := &graphicsState{
-		lineWidth:   1,
-		fillColor:   &types.Color{R: 0, G: 0, B: 0}, // Default black
-		strokeColor: &types.Color{R: 0, G: 0, B: 0},
-	}
-
-	// Track current transformation matrix (for images)
-	// Default is identity matrix [1 0 0 1 0 0]
-	currentMatrix := [6]float64{1, 0, 0, 1, 0, 0}
-	matrixStack := [][6]float64{} // Stack for q/Q operators
-
-	// Split content stream into tokens
-	lines := strings.Split(contentStr, "\n")
-	for _, line := range lines {
-		line = strings.TrimSpace(line)
-		if line == "" {
-			continue
-		}
-
-		// Parse text operators
-		if strings.HasPrefix(line, "BT") {
-			textState.inText = true
-			continue
-		}
-		if strings.HasPrefix(line, "ET") {
-			textState.inText = false
-			continue
-		}
-
-		// Text positioning
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+Td`).FindStringSubmatch(line); match != nil {
-			if tx, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if ty, err := strconv.ParseFloat(match[2], 64); err == nil {
-					textState.x += tx
-					textState.y += ty
-				}
-			}
-			continue
-		}
+// graphicsState is the state the q and Q operators save and restore.
+type graphicsState struct {
+	matrix      [6]float64
+	lineWidth   float64
+	lineCap     int
+	lineJoin    int
+	miterLimit  float64
+	fillColor   *types.Color
+	strokeColor *types.Color
+	fillSpace   string
+	strokeSpace string
 
-		// Text matrix
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+Tm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
+	fontName    string
+	fontSize    float64
+	charSpacing float64
+	wordSpacing float64
+	leading     float64
+	textRise    float64
+	decoder     *FontDecoder // Current font decoder for text extraction
+}
+
+// subpath is a part of the current path that starts at one point.
+type subpath struct {
+	operations []types.PathOperation
+	rectangle  bool // built by the re operator
+	closed     bool
+}
+
+var identityMatrix = [6]float64{1, 0, 0, 1, 0, 0}
+
+func newContentInterpreter(pdf *parse.PDF, verbose bool) *contentInterpreter {
+	return &contentInterpreter{
+		pdf:     pdf,
+		verbose: verbose,
+		state: graphicsState{
+			matrix:      identityMatrix,
+			lineWidth:   1,
+			miterLimit:  10,
+			fillColor:   &types.Color{Space: types.ColorSpaceGray},
+			strokeColor: &types.Color{Space: types.ColorSpaceGray},
+			fillSpace:   "/DeviceGray",
+			strokeSpace: "/DeviceGray",
+		},
+		textMatrix: identityMatrix,
+		lineMatrix: identityMatrix,
+	}
+}
+
+// run interprets a content stream with the resources given.
+func (ci *contentInterpreter) run(content, resources []byte) {
+	fonts := make(map[string]*FontDecoder)
+	var operands [][]byte
+	for pos := pdfscan.SkipSpace(content, 0); pos < len(content); pos = pdfscan.SkipSpace(content, pos) {
+		start := pos
+		if !pdfscan.IsRegular(content[pos]) {
+			end, ok := pdfscan.SkipValue(content, pos)
+			if !ok {
+				if content[pos] == '(' || content[pos] == '<' || content[pos] == '[' {
+					return // unterminated
 				}
+				pos++ // stray delimiter
+				continue
 			}
-			textState.textMatrix = matrix
-			textState.x = matrix[4]
-			textState.y = matrix[5]
-			continue
-		}
-
-		// Font and size
-		if match := regexp.MustCompile(`^([/\w]+)\s+([\d\.\-]+)\s+Tf`).FindStringSubmatch(line); match != nil {
-			textState.fontName = match[1]
-			if size, err := strconv.ParseFloat(match[2], 64); err == nil {
-				textState.fontSize = size
+			pos = end
+		} else {
+			for pos < len(content) && pdfscan.IsRegular(content[pos]) {
+				pos++
 			}
-			// Set font decoder if available
-			if fontDecoders != nil {
-				textState.decoder = fontDecoders[textState.fontName]
+			token := content[start:pos]
+			if !isOperand(token) {
+				if string(token) == "BI" {
+					pos = skipInlineImage(content, pos)
+				} else {
+					ci.operator(string(token), operands, resources, fonts)
+				}
+				operands = operands[:0]
+				continue
 			}
-			continue
 		}
-
-		// Character spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tc`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.charSpacing = val
-			}
-			continue
+		if len(operands) == maxOperands {
+			operands = operands[:copy(operands, operands[1:])]
 		}
+		operands = append(operands, content[start:pos])
+	}
+}
 
-		// Word spacing
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Tw`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.wordSpacing = val
-			}
-			continue
+// isOperand tells numbers and keyword values from operators.
+func isOperand(token []byte) bool {
+	switch c := token[0]; {
+	case c >= '0' && c <= '9', c == '+', c == '-', c == '.':
+		return true
+	default:
+		return string(token) == "true" || string(token) == "false" || string(token) == "null"
+	}
+}
+
+// skipInlineImage returns the position behind the inline image whose BI
+// operator ends at pos.
+func skipInlineImage(content []byte, pos int) int {
+	dict := []byte("<<")
+	for {
+		pos = pdfscan.SkipSpace(content, pos)
+		if pdfscan.HasKeyword(content, pos, "ID") {
+			pos += len("ID") + 1 // one white-space character follows
+			break
 		}
+		end, ok := pdfscan.SkipValue(content, pos)
+		if !ok {
+			return len(content)
+		}
+		dict = append(append(dict, content[pos:end]...), ' ')
+		pos = end
+	}
+	dict = append(dict, ">>"...)
+	pos = min(pos, len(content))
 
-		// Text rise
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+Ts`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				textState.textRise = val
-			}
-			continue
-		}
-
-		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Literal string
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+Tj`).FindStringSubmatch(line); match != nil {
-			// Hex string
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-
-		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
-			rawText := unescapePDFString(match[1])
-			text := decodeTextWithFont(rawText, textState.decoder, false)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			// Move to next line (simplified - would need leading)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-		if match := regexp.MustCompile(`^<([0-9A-Fa-f\s]*)>\s+'`).FindStringSubmatch(line); match != nil {
-			text := decodeTextWithFont(match[1], textState.decoder, true)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			textState.y -= textState.fontSize * 1.2
-			continue
-		}
-
-		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
-			text := parseTextArrayWithDecoder(match[1], textState.decoder)
-			textElement := createTextElement(text, textState)
-			textElements = append(textElements, textElement)
-			continue
-		}
-
-		// Graphics operations
-		// Rectangle (re operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+re`).FindStringSubmatch(line); match != nil {
-			if x, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if y, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if w, err := strconv.ParseFloat(match[3], 64); err == nil {
-						if h, err := strconv.ParseFloat(match[4], 64); err == nil {
-							graphic := types.Graphic{
-								Type:        types.GraphicTypeRectangle,
-								FillColor:   graphicsState.fillColor,
-								StrokeColor: graphicsState.strokeColor,
-								LineWidth:   graphicsState.lineWidth,
-								BoundingBox: &types.Rectangle{
-									LowerX: x,
-									LowerY: y,
-									UpperX: x + w,
-									UpperY: y + h,
-								},
-							}
-							graphics = append(graphics, graphic)
-						}
-					}
-				}
-			}
-			continue
+	// The size of unfiltered data follows from the image attributes
+	if size, ok := inlineImageSize(dict); ok && size <= len(content)-pos {
+		if end := pdfscan.SkipSpace(content, pos+size); pdfscan.HasKeyword(content, end, "EI") {
+			return end + len("EI")
+		}
+	}
+	for end := pos; ; end++ {
+		idx := bytes.Index(content[end:], []byte("EI"))
+		if idx == -1 {
+			return len(content)
 		}
+		end += idx
+		if (end == pos || pdfscan.IsSpace(content[end-1])) && pdfscan.HasKeyword(content, end, "EI") {
+			return end + len("EI")
+		}
+	}
+}
 
-		// Move to (m operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+m`).FindStringSubmatch(line); match != nil {
-			// Start of a path - we'll track this for line/path extraction
-			// For now, just note it
-			continue
+// inlineImageSize returns the size of the data of an inline image without
+// filters.
+func inlineImageSize(dict []byte) (int, bool) {
+	value := func(short, long string) []byte {
+		if v := pdfscan.DictValue(dict, short); v != nil {
+			return v
+		}
+		return pdfscan.DictValue(dict, long)
+	}
+	number := func(short, long string) int {
+		n, ok := pdfscan.Number(value(short, long))
+		if !ok || n < 0 || n > 1<<20 {
+			return 0
 		}
+		return int(n)
+	}
+	if value("F", "Filter") != nil {
+		return 0, false
+	}
+	bits := number("BPC", "BitsPerComponent")
+	switch string(value("CS", "ColorSpace")) {
+	case "/G", "/DeviceGray", "/CalGray":
+	case "/RGB", "/DeviceRGB", "/CalRGB":
+		bits *= 3
+	case "/CMYK", "/DeviceCMYK":
+		bits *= 4
+	default:
+		if string(value("IM", "ImageMask")) != "true" {
+			return 0, false
+		}
+		bits = 1
+	}
+	size := (number("W", "Width")*bits + 7) / 8 * number("H", "Height")
+	return size, size > 0
+}
+
+// operator executes an operator with its operands.
+func (ci *contentInterpreter) operator(name string, operands [][]byte, resources []byte, fonts map[string]*FontDecoder) {
+	state := &ci.state
 
-		// Line to (l operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+l`).FindStringSubmatch(line); match != nil {
-			// Simplified - would need to track path start
-			// For now, just note that a line was drawn
-			graphic := types.Graphic{
-				Type:        types.GraphicTypeLine,
-				StrokeColor: graphicsState.strokeColor,
-				LineWidth:   graphicsState.lineWidth,
+	// arguments returns the last n operands as numbers
+	arguments := func(n int) ([]float64, bool) {
+		if len(operands) < n {
+			return nil, false
+		}
+		numbers := make([]float64, n)
+		for i, operand := range operands[len(operands)-n:] {
+			number, ok := contentNumber(operand)
+			if !ok {
+				return nil, false
 			}
-			graphics = append(graphics, graphic)
-			continue
+			numbers[i] = number
 		}
-
-		// Stroke (S operator)
-		if strings.HasPrefix(line, "S") {
-			// Stroke the current path
-			continue
+		return numbers, true
+	}
+	set := func(target *float64) {
+		if n, ok := arguments(1); ok {
+			*target = n[0]
 		}
-
-		// Fill (f operator)
-		if strings.HasPrefix(line, "f") {
-			// Fill the current path
-			continue
+	}
+	setInt := func(target *int) {
+		if n, ok := arguments(1); ok {
+			*target = int(n[0])
 		}
+	}
+	var last []byte
+	if len(operands) > 0 {
+		last = operands[len(operands)-1]
+	}
 
-		// Save graphics state (q operator) - push current matrix to stack
-		if strings.TrimSpace(line) == "q" {
-			matrixStack = append(matrixStack, currentMatrix)
-			continue
+	switch name {
+	// Graphics state
+	case "q":
+		ci.stack = append(ci.stack, *state)
+	case "Q":
+		if len(ci.stack) > 0 {
+			*state = ci.stack[len(ci.stack)-1]
+			ci.stack = ci.stack[:len(ci.stack)-1]
 		}
-
-		// Restore graphics state (Q operator) - pop matrix from stack
-		if strings.TrimSpace(line) == "Q" {
-			if len(matrixStack) > 0 {
-				currentMatrix = matrixStack[len(matrixStack)-1]
-				matrixStack = matrixStack[:len(matrixStack)-1]
+	case "cm":
+		if n, ok := arguments(6); ok {
+			state.matrix = multiply([6]float64(n), state.matrix)
+		}
+	case "w":
+		set(&state.lineWidth)
+	case "J":
+		setInt(&state.lineCap)
+	case "j":
+		setInt(&state.lineJoin)
+	case "M":
+		set(&state.miterLimit)
+
+	// Colours
+	case "g", "rg", "k":
+		ci.setDeviceColor(&state.fillColor, &state.fillSpace, name, operands)
+	case "G":
+		ci.setDeviceColor(&state.strokeColor, &state.strokeSpace, "g", operands)
+	case "RG":
+		ci.setDeviceColor(&state.strokeColor, &state.strokeSpace, "rg", operands)
+	case "K":
+		ci.setDeviceColor(&state.strokeColor, &state.strokeSpace, "k", operands)
+	case "cs":
+		ci.setColorSpace(&state.fillColor, &state.fillSpace, last)
+	case "CS":
+		ci.setColorSpace(&state.strokeColor, &state.strokeSpace, last)
+	case "sc", "scn":
+		ci.setColor(&state.fillColor, state.fillSpace, operands)
+	case "SC", "SCN":
+		ci.setColor(&state.strokeColor, state.strokeSpace, operands)
+
+	// Text
+	case "BT":
+		ci.textMatrix, ci.lineMatrix = identityMatrix, identityMatrix
+	case "Tf":
+		if len(operands) < 2 || operands[len(operands)-2][0] != '/' {
+			return
+		}
+		state.fontName = "/" + pdfscan.DecodeName(string(operands[len(operands)-2]))
+		set(&state.fontSize)
+		decoder, ok := fonts[state.fontName]
+		if !ok {
+			decoder = fontDecoder(resources, state.fontName, ci.pdf, ci.verbose)
+			fonts[state.fontName] = decoder
+		}
+		state.decoder = decoder
+	case "Tc":
+		set(&state.charSpacing)
+	case "Tw":
+		set(&state.wordSpacing)
+	case "TL":
+		set(&state.leading)
+	case "Ts":
+		set(&state.textRise)
+	case "Td", "TD":
+		if n, ok := arguments(2); ok {
+			if name == "TD" {
+				state.leading = -n[1]
 			}
-			continue
+			ci.moveText(n[0], n[1])
 		}
-
-		// Set transformation matrix (cm operator)
-		// Format: a b c d e f cm
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+cm`).FindStringSubmatch(line); match != nil {
-			matrix := [6]float64{}
-			for i := 1; i <= 6; i++ {
-				if val, err := strconv.ParseFloat(match[i], 64); err == nil {
-					matrix[i-1] = val
-				}
+	case "Tm":
+		if n, ok := arguments(6); ok {
+			ci.textMatrix = [6]float64(n)
+			ci.lineMatrix = ci.textMatrix
+		}
+	case "T*":
+		ci.moveText(0, -state.leading)
+	case "Tj":
+		ci.showText(last)
+	case "TJ":
+		ci.showText(last)
+	case "'":
+		ci.moveText(0, -state.leading)
+		ci.showText(last)
+	case "\"":
+		if len(operands) >= 3 {
+			if spacing, ok := contentNumber(operands[len(operands)-3]); ok {
+				state.wordSpacing = spacing
 			}
-			// Multiply with current matrix (concatenate transformations)
-			// For simplicity, we'll just replace (assuming q/Q handles stacking)
-			// In full implementation, should multiply: newMatrix = currentMatrix * matrix
-			// For now, replace since DrawImageAt uses q/cm/Do/Q pattern
-			currentMatrix = matrix
-			continue
-		}
-
-		// Set line width (w operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+w`).FindStringSubmatch(line); match != nil {
-			if val, err := strconv.ParseFloat(match[1], 64); err == nil {
-				graphicsState.lineWidth = val
+			if spacing, ok := contentNumber(operands[len(operands)-2]); ok {
+				state.charSpacing = spacing
 			}
-			continue
 		}
+		ci.moveText(0, -state.leading)
+		ci.showText(last)
 
-		// Set fill color RGB (rg operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+rg`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.fillColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
+	// Paths
+	case "m":
+		if n, ok := arguments(2); ok {
+			ci.moveTo(n[0], n[1])
 		}
+	case "l":
+		if n, ok := arguments(2); ok {
+			ci.addToPath(types.PathOpLine, types.Point{X: n[0], Y: n[1]})
+		}
+	case "c":
+		if n, ok := arguments(6); ok {
+			ci.addToPath(types.PathOpCurve, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]}, types.Point{X: n[4], Y: n[5]})
+		}
+	case "v":
+		if n, ok := arguments(4); ok {
+			ci.addToPath(types.PathOpCurve, ci.point, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]})
+		}
+	case "y":
+		if n, ok := arguments(4); ok {
+			ci.addToPath(types.PathOpCurve, types.Point{X: n[0], Y: n[1]}, types.Point{X: n[2], Y: n[3]}, types.Point{X: n[2], Y: n[3]})
+		}
+	case "h":
+		ci.closePath()
+	case "re":
+		if n, ok := arguments(4); ok {
+			ci.subpaths = append(ci.subpaths, subpath{
+				operations: []types.PathOperation{{Type: types.PathOpRectangle, Points: []types.Point{{X: n[0], Y: n[1]}, {X: n[0] + n[2], Y: n[1] + n[3]}}}},
+				rectangle:  true,
+				closed:     true,
+			})
+			ci.point = types.Point{X: n[0], Y: n[1]}
+		}
+	case "S":
+		ci.paint(false, true)
+	case "s":
+		ci.closePath()
+		ci.paint(false, true)
+	case "f", "F", "f*":
+		ci.paint(true, false)
+	case "B", "B*":
+		ci.paint(true, true)
+	case "b", "b*":
+		ci.closePath()
+		ci.paint(true, true)
+	case "n":
+		ci.subpaths = nil
+
+	// XObjects
+	case "Do":
+		if len(last) > 0 && last[0] == '/' {
+			ci.drawXObject("/"+pdfscan.DecodeName(string(last)), resources)
+		}
+	}
+}
 
-		// Set stroke color RGB (RG operator)
-		if match := regexp.MustCompile(`^([\d\.\-]+)\s+([\d\.\-]+)\s+([\d\.\-]+)\s+RG`).FindStringSubmatch(line); match != nil {
-			if r, err := strconv.ParseFloat(match[1], 64); err == nil {
-				if g, err := strconv.ParseFloat(match[2], 64); err == nil {
-					if b, err := strconv.ParseFloat(match[3], 64); err == nil {
-						graphicsState.strokeColor = &types.Color{R: r, G: g, B: b}
-					}
-				}
-			}
-			continue
-		}
-
-		// Draw image (Do operator)
-		// Extract position and size from current transformation matrix
-		if match := regexp.MustCompile(`^([/\w]+)\s+Do`).FindStringSubmatch(line); match != nil {
-			// Transformation matrix [a b c d e f] where:
-			// - a, d are scale factors (width, height)
-			// - e, f are translation (x, y position)
-			// For DrawImageAt pattern: [width 0 0 height x y]
-			x := currentMatrix[4]      // e (translation X)
-			y := currentMatrix[5]      // f (translation Y)
-			width := currentMatrix[0]  // a (scale X)
-			height := currentMatrix[3] // d (scale Y)
-
-			// Handle negative scales (flipped images)
-			if width < 0 {
-				width = -width
-			}
-			if height < 0 {
-				height = -height
-			}
+// contentNumber parses a number operand.
+func contentNumber(operand []byte) (float64, bool) {
+	number, ok := pdfscan.Number(operand)
+	if !ok && len(operand) > 1 && operand[0] == '-' && operand[1] == '-' {
+		return contentNumber(operand[1:]) // written by some producers
+	}
+	return number, ok
+}
 
-			imageRef := types.ImageRef{
-				ImageID:   match[1],
-				X:         x,
-				Y:         y,
-				Width:     width,
-				Height:    height,
-				Transform: currentMatrix,
-			}
-			imageRefs = append(imageRefs, imageRef)
-			continue
-		}
+// multiply returns the matrix that applies m and then n.
+func multiply(m, n [6]float64) [6]float64 {
+	return [6]float64{
+		m[0]*n[0] + m[1]*n[2],
+		m[0]*n[1] + m[1]*n[3],
+		m[2]*n[0] + m[3]*n[2],
+		m[2]*n[1] + m[3]*n[3],
+		m[4]*n[0] + m[5]*n[2] + n[4],
+		m[4]*n[1] + m[5]*n[3] + n[5],
 	}
+}
 
-	return textElements, graphics, imageRefs
+// setDeviceColor sets a colour and its space with the g, rg or k operator.
+func (ci *contentInterpreter) setDeviceColor(color **types.Color, space *string, operator string, operands [][]byte) {
+	name := map[string]string{"g": "/DeviceGray", "rg": "/DeviceRGB", "k": "/DeviceCMYK"}[operator]
+	if ci.setColor(color, name, operands) {
+		*space = name
+	}
 }
 
-// textState tracks the current text rendering state
-type textState struct {
-	fontName    string
-	fontSize    float64
-	x           float64
-	y           float64
-	charSpacing float64
-	wordSpacing float64
-	textRise    float64
-	textMatrix  [6]float64
-	inText      bool
-	decoder     *FontDecoder // Current font decoder for text extraction
+// setColorSpace sets a colour space and its initial colour, black.
+func (ci *contentInterpreter) setColorSpace(color **types.Color, space *string, name []byte) {
+	if len(name) == 0 || name[0] != '/' {
+		return
+	}
+	*space = "/" + pdfscan.DecodeName(string(name))
+	switch *space {
+	case "/DeviceGray", "/CalGray":
+		*color = &types.Color{Space: types.ColorSpaceGray}
+	case "/DeviceRGB", "/CalRGB":
+		*color = &types.Color{Space: types.ColorSpaceRGB}
+	case "/DeviceCMYK":
+		*color = &types.Color{Space: types.ColorSpaceCMYK, K: 1}
+	default:
+		*color = &types.Color{Space: types.ColorSpace((*space)[1:])}
+	}
 }
 
-// graphicsState tracks the current graphics rendering state
-type graphicsState struct {
-	lineWidth   float64
-	fillColor   *types.Color
-	strokeColor *types.Color
+// setColor sets a colour in the given space.
+func (ci *contentInterpreter) setColor(color **types.Color, space string, operands [][]byte) bool {
+	var components []float64
+	for _, operand := range operands {
+		if component, ok := contentNumber(operand); ok {
+			components = append(components, component)
+		}
+	}
+	switch {
+	case (space == "/DeviceGray" || space == "/CalGray") && len(components) == 1:
+		*color = &types.Color{Space: types.ColorSpaceGray, R: components[0]}
+	case (space == "/DeviceRGB" || space == "/CalRGB") && len(components) == 3:
+		*color = &types.Color{Space: types.ColorSpaceRGB, R: components[0], G: components[1], B: components[2]}
+	case space == "/DeviceCMYK" && len(components) == 4:
+		*color = &types.Color{Space: types.ColorSpaceCMYK, C: components[0], M: components[1], Y: components[2], K: components[3]}
+	default:
+		return false
+	}
+	return true
+}
+
+// moveText starts a new line, offset from the start of the current one.
+func (ci *contentInterpreter) moveText(tx, ty float64) {
+	ci.lineMatrix = multiply([6]float64{1, 0, 0, 1, tx, ty}, ci.lineMatrix)
+	ci.textMatrix = ci.lineMatrix
+}
+
+// showText records the text of a string, or of the strings of an array.
+func (ci *contentInterpreter) showText(value []byte) {
+	shown := false
+	var text bytes.Buffer
+	for _, item := range pdfscan.ArrayItems(value) {
+		if pdfscan.IsString(item) {
+			text.WriteString(decodeTextWithFont(pdfscan.DecodeString(item), ci.state.decoder))
+			shown = true
+		}
+	}
+	if shown {
+		ci.text = append(ci.text, ci.createTextElement(text.String()))
+	}
 }
 
-// createTextElement creates a TextElement from text and current text state
-func createTextElement(text string, state *textState) types.TextElement {
+// createTextElement creates a TextElement from text and the current state. The
+// position is that of the start of the line, in the space of the page.
+func (ci *contentInterpreter) createTextElement(text string) types.TextElement {
+	state := &ci.state
+	position := multiply(ci.textMatrix, state.matrix)
+
 	// Calculate approximate width (simplified - would need font metrics)
 	width := float64(len(text)) * state.fontSize * 0.6
 
 	return types.TextElement{
 		Text:        text,
-		X:           state.x,
-		Y:           state.y,
+		X:           position[4],
+		Y:           position[5],
 		Width:       width,
 		Height:      state.fontSize,
 		FontName:    state.fontName,
@@ -365,121 +502,155 @@ func createTextElement(text string, state *textState) types.TextElement {
 		CharSpacing: state.charSpacing,
 		WordSpacing: state.wordSpacing,
 		TextRise:    state.textRise,
-		TextMatrix:  state.textMatrix,
+		TextMatrix:  ci.textMatrix,
 	}
 }
 
-// parseTextArray parses a TJ text array and concatenates strings
-// Format: [ (text1) -50 (text2) ] where numbers are adjustments
-func parseTextArray(arrStr string) string {
-	return parseTextArrayWithDecoder(arrStr, nil)
+// decodeTextWithFont decodes the bytes of a string using the font's encoding
+func decodeTextWithFont(data []byte, decoder *FontDecoder) string {
+	if decoder != nil {
+		return decoder.Decode(data)
+	}
+	// No decoder available - treat as Latin-1
+	runes := make([]rune, len(data))
+	for i, b := range data {
+		runes[i] = rune(b)
+	}
+	return string(runes)
 }
 
-// parseTextArrayWithDecoder parses a TJ text array with font decoding
-func parseTextArrayWithDecoder(arrStr string, decoder *FontDecoder) string {
-	var result strings.Builder
-
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Parse elements - strings in parentheses, hex strings, or numbers
-	// Pattern: (text) or <hex> or number
-	// We need to handle both literal and hex strings
-	i := 0
-	for i < len(arrStr) {
-		// Skip whitespace
-		for i < len(arrStr) && (arrStr[i] == ' ' || arrStr[i] == '\t' || arrStr[i] == '\n' || arrStr[i] == '\r') {
-			i++
-		}
-		if i >= len(arrStr) {
-			break
-		}
+// moveTo starts a new subpath.
+func (ci *contentInterpreter) moveTo(x, y float64) {
+	ci.point = types.Point{X: x, Y: y}
+	ci.subpaths = append(ci.subpaths, subpath{
+		operations: []types.PathOperation{{Type: types.PathOpMove, Points: []types.Point{ci.point}}},
+	})
+}
 
-		if arrStr[i] == '(' {
-			// Literal string - find matching closing paren (handle escapes)
-			start := i + 1
-			depth := 1
-			i++
-			for i < len(arrStr) && depth > 0 {
-				if arrStr[i] == '\\' && i+1 < len(arrStr) {
-					i += 2 // Skip escaped character
-					continue
-				}
-				if arrStr[i] == '(' {
-					depth++
-				} else if arrStr[i] == ')' {
-					depth--
-				}
-				i++
-			}
-			if depth == 0 {
-				rawText := unescapePDFString(arrStr[start : i-1])
-				text := decodeTextWithFont(rawText, decoder, false)
-				result.WriteString(text)
-			}
-		} else if arrStr[i] == '<' {
-			// Hex string - find closing >
-			start := i + 1
-			i++
-			for i < len(arrStr) && arrStr[i] != '>' {
-				i++
-			}
-			if i < len(arrStr) {
-				hexStr := arrStr[start:i]
-				text := decodeTextWithFont(hexStr, decoder, true)
-				result.WriteString(text)
-				i++ // Skip >
-			}
-		} else if arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9') {
-			// Number (adjustment) - skip it
-			for i < len(arrStr) && (arrStr[i] == '-' || arrStr[i] == '.' || (arrStr[i] >= '0' && arrStr[i] <= '9')) {
-				i++
-			}
-		} else {
-			i++ // Skip unknown character
-		}
+// addToPath adds a segment to the current subpath.
+func (ci *contentInterpreter) addToPath(operation types.PathOpType, points ...types.Point) {
+	if len(ci.subpaths) == 0 {
+		return // no current point
+	}
+	if ci.subpaths[len(ci.subpaths)-1].closed {
+		ci.moveTo(ci.point.X, ci.point.Y)
 	}
+	current := &ci.subpaths[len(ci.subpaths)-1]
+	current.operations = append(current.operations, types.PathOperation{Type: operation, Points: points})
+	ci.point = points[len(points)-1]
+}
 
-	return result.String()
+// closePath closes the current subpath.
+func (ci *contentInterpreter) closePath() {
+	if len(ci.subpaths) == 0 {
+		return
+	}
+	current := &ci.subpaths[len(ci.subpaths)-1]
+	if current.closed {
+		return
+	}
+	current.closed = true
+	current.operations = append(current.operations, types.PathOperation{Type: types.PathOpClose})
+	ci.point = current.operations[0].Points[0]
 }
 
-// decodeTextWithFont decodes raw text bytes using the font's encoding
-func decodeTextWithFont(rawText string, decoder *FontDecoder, isHex bool) string {
-	if decoder == nil {
-		// No decoder available - return as-is (original behavior)
-		if isHex {
-			// Decode hex to bytes and return as Latin-1
-			return decodeHexToLatin1(rawText)
+// paint records every subpath of the current path and ends the path.
+func (ci *contentInterpreter) paint(fill, stroke bool) {
+	for _, current := range ci.subpaths {
+		if len(current.operations) < 2 && !current.rectangle {
+			continue // nothing but a starting point
+		}
+		graphic := types.Graphic{
+			Type:        types.GraphicTypePath,
+			LineWidth:   ci.state.lineWidth,
+			LineCap:     ci.state.lineCap,
+			LineJoin:    ci.state.lineJoin,
+			MiterLimit:  ci.state.miterLimit,
+			Transform:   ci.state.matrix,
+			BoundingBox: boundingBox(current.operations),
+		}
+		if fill {
+			graphic.FillColor = ci.state.fillColor
 		}
-		return rawText
+		if stroke {
+			graphic.StrokeColor = ci.state.strokeColor
+		}
+		switch {
+		case current.rectangle:
+			graphic.Type = types.GraphicTypeRectangle
+		case len(current.operations) == 2 && current.operations[1].Type == types.PathOpLine:
+			graphic.Type = types.GraphicTypeLine
+			fallthrough
+		default:
+			graphic.Path = &types.Path{Operations: current.operations, Closed: current.closed}
+		}
+		ci.graphics = append(ci.graphics, graphic)
 	}
+	ci.subpaths = nil
+}
 
-	if isHex {
-		return decoder.DecodeHex(rawText)
+// boundingBox returns the smallest rectangle with all points of a path.
+func boundingBox(operations []types.PathOperation) *types.Rectangle {
+	box := &types.Rectangle{LowerX: math.Inf(1), LowerY: math.Inf(1), UpperX: math.Inf(-1), UpperY: math.Inf(-1)}
+	for _, operation := range operations {
+		for _, point := range operation.Points {
+			box.LowerX, box.UpperX = math.Min(box.LowerX, point.X), math.Max(box.UpperX, point.X)
+			box.LowerY, box.UpperY = math.Min(box.LowerY, point.Y), math.Max(box.UpperY, point.Y)
+		}
 	}
-	return decoder.Decode([]byte(rawText))
+	return box
 }
 
-// decodeHexToLatin1 decodes a hex string to Latin-1 text (fallback when no font decoder)
-func decodeHexToLatin1(hexStr string) string {
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
+// drawXObject records an image, or runs the content of a form.
+func (ci *contentInterpreter) drawXObject(name string, resources []byte) {
+	xobjects := pdfscan.LookupDict(resources, "XObject", ci.pdf.GetObject)
+	objNum, _, ok := pdfscan.Reference(pdfscan.DictValue(xobjects, name[1:]), 0)
+	if ok {
+		if dict := pdfscan.Lookup(xobjects, name[1:], ci.pdf.GetObject); pdfscan.LookupName(dict, "Subtype", ci.pdf.GetObject) == "/Form" {
+			ci.drawForm(objNum, resources)
+			return
+		}
 	}
 
-	var result strings.Builder
-	for i := 0; i < len(hexStr); i += 2 {
-		if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-			result.WriteRune(rune(val))
+	// The image fills the unit square, which the matrix maps to the page
+	matrix := ci.state.matrix
+	ci.images = append(ci.images, types.ImageRef{
+		ImageID:   name,
+		X:         matrix[4],
+		Y:         matrix[5],
+		Width:     math.Hypot(matrix[0], matrix[1]),
+		Height:    math.Hypot(matrix[2], matrix[3]),
+		Transform: matrix,
+
+		ObjectNumber: objNum,
+	})
+}
+
+// drawForm runs the content stream of a form XObject.
+func (ci *contentInterpreter) drawForm(objNum int, resources []byte) {
+	if ci.formDepth >= maxFormDepth || ci.formBytes > maxFormBytes {
+		return
+	}
+	dict, content, err := ci.pdf.StreamData(objNum)
+	if err != nil {
+		if ci.verbose {
+			fmt.Printf("Warning: failed to read form %d: %v\n", objNum, err)
 		}
+		return
+	}
+	if own := pdfscan.LookupDict(dict, "Resources", ci.pdf.GetObject); own != nil {
+		resources = own
 	}
-	return result.String()
-}
 
-// unescapePDFString is defined in metadata.go
+	state, stack, textMatrix, lineMatrix := ci.state, ci.stack, ci.textMatrix, ci.lineMatrix
+	ci.stack, ci.subpaths = nil, nil
+	if matrix := pdfscan.LookupNumbers(dict, "Matrix", ci.pdf.GetObject); len(matrix) == 6 {
+		ci.state.matrix = multiply([6]float64(matrix), ci.state.matrix)
+	}
+	ci.formDepth++
+	ci.formBytes += len(content) + 1000 // and the effort of reading it
+	ci.run(content, resources)
+	ci.formDepth--
+	ci.subpaths = nil
+	ci.state, ci.stack, ci.textMatrix, ci.lineMatrix = state, stack, textMatrix, lineMatrix
+}
diff --git a/content/extract/dict_helpers.go b/content/extract/dict_helpers.go
deleted file mode 100644
index 2467c6e..0000000
--- a/content/extract/dict_helpers.go
+++ /dev/null
@@ -1,48 +0,0 @@
-package extract
-
-import "strings"
-
-// extractInlineDict extracts an inline dictionary value from a PDF dictionary string
-// For example, from "/Resources<<...>>", extracts the "<<...>>" part
-func extractInlineDict(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
-
-	// Find the dictionary after the key
-	dictStart := keyIdx + len(key)
-	for dictStart < len(dictStr) && (dictStr[dictStart] == ' ' || dictStr[dictStart] == '\n' || dictStr[dictStart] == '\r') {
-		dictStart++
-	}
-
-	// Check if it's a dictionary <<...>>
-	if dictStart+1 >= len(dictStr) || dictStr[dictStart] != '<' || dictStr[dictStart+1] != '<' {
-		return ""
-	}
-
-	// Find matching >>
-	dictEnd := dictStart + 2
-	depth := 1
-	for dictEnd+1 < len(dictStr) && depth > 0 {
-		if dictStr[dictEnd] == '>' && dictStr[dictEnd+1] == '>' {
-			depth--
-			if depth == 0 {
-				// Return the dictionary content (without << >>)
-				return dictStr[dictStart+2 : dictEnd]
-			}
-			dictEnd += 2
-		} else if dictEnd+1 < len(dictStr) && dictStr[dictEnd] == '<' && dictStr[dictEnd+1] == '<' {
-			depth++
-			dictEnd += 2
-		} else {
-			dictEnd++
-		}
-	}
-
-	if depth == 0 {
-		return dictStr[dictStart+2 : dictEnd]
-	}
-
-	return ""
-}
diff --git a/content/extract/directory.go b/content/extract/directory.go
index b35130a..2e363bd 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -53,6 +53,7 @@ type ExtractedPage struct {
 // PageImageRef references an image on a page
 type PageImageRef struct {
 	ImageID   string     `json:"image_id"`            // Reference to ImageReference.ID
+	Filename  string     `json:"filename,omitempty"`  // Reference to ImageReference.Filename
 	X         float64    `json:"x"`                   // X position
 	Y         float64    `json:"y"`                   // Y position
 	Width     float64    `json:"width"`               // Display width in points
@@ -131,7 +132,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 	// Save images to files and build references
 	imageFiles := make([]string, 0)
-	imageRefMap := make(map[string]ImageReference)
+	filenames := make(map[interface{}]string) // by object number
 
 	for i, img := range allImages {
 		if len(img.Data) == 0 {
@@ -175,7 +176,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		}
 
 		extractedContent.Images = append(extractedContent.Images, imageRef)
-		imageRefMap[img.ID] = imageRef
+		filenames[img.Metadata["object_number"]] = imageRef.Filename
 		imageFiles = append(imageFiles, filepath)
 	}
 
@@ -208,6 +209,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 				Width:     imgRef.Width,
 				Height:    imgRef.Height,
 				Transform: imgRef.Transform,
+				Filename:  filenames[imgRef.ObjectNumber],
 			}
 			extractedPage.ImageRefs = append(extractedPage.ImageRefs, pageImgRef)
 		}
diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index eebbb54..da5ba47 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -1,15 +1,26 @@
 package extract
 
 import (
-	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+)
+
+const (
+	maxRangeCodes = 256     // codes of a CMap range that are mapped one by one
+	maxRanges     = 256     // larger ranges of a CMap
+	maxCodes      = 1 << 18 // codes mapped by the ranges of a CMap
 )
 
 // FontDecoder decodes character codes to Unicode for a specific font
 type FontDecoder struct {
 	// ToUnicode mapping from character codes to Unicode (highest priority)
-	toUnicode map[int]rune
+	toUnicode       map[charCode]string
+	toUnicodeRanges []codeRange
+	rangeCodes      int
 
 	// Base encoding (WinAnsiEncoding, MacRomanEncoding, etc.)
 	baseEncoding map[int]rune
@@ -17,14 +28,40 @@ type FontDecoder struct {
 	// Differences array overlays the base encoding
 	differences map[int]rune
 
+	// Bytes of a character code, 0 if unknown
+	codeWidth int
+
+	// Codespace ranges that tell codes of different widths apart
+	codespaces []codespace
+
 	// Font name for debugging
 	fontName string
 }
 
+// charCode is a character code with the number of bytes it is written in, 0
+// for any number.
+type charCode struct {
+	width int
+	code  int
+}
+
+// codeRange maps a range of character codes to consecutive characters.
+type codeRange struct {
+	width  int
+	lo, hi int
+	target []uint16
+}
+
+// codespace is a range of character codes of the same length: each byte lies
+// between the corresponding ones of lo and hi.
+type codespace struct {
+	lo, hi []byte
+}
+
 // NewFontDecoder creates a new font decoder
 func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
-		toUnicode:    make(map[int]rune),
+		toUnicode:    make(map[charCode]string),
 		baseEncoding: make(map[int]rune),
 		differences:  make(map[int]rune),
 		fontName:     fontName,
@@ -44,8 +81,9 @@ func (fd *FontDecoder) SetBaseEncoding(encodingName string) {
 	case "MacExpertEncoding":
 		fd.baseEncoding = macExpertEncoding
 	case "Identity-H", "Identity-V":
-		// Identity encoding - character codes are Unicode values
+		// Identity encoding - character codes have two bytes
 		// Don't set a base encoding, rely on ToUnicode
+		fd.codeWidth = 2
 	}
 }
 
@@ -58,85 +96,69 @@ func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
 
 // SetToUnicode adds a ToUnicode mapping
 func (fd *FontDecoder) SetToUnicode(code int, unicode rune) {
-	fd.toUnicode[code] = unicode
+	fd.toUnicode[charCode{code: code}] = string(unicode)
 }
 
 // Decode decodes a byte slice to a Unicode string using the font's encoding
 func (fd *FontDecoder) Decode(data []byte) string {
 	var result strings.Builder
 
-	for _, b := range data {
-		code := int(b)
-		var char rune
-
-		// Priority: ToUnicode > Differences > BaseEncoding > Identity
-		if unicode, ok := fd.toUnicode[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.differences[code]; ok {
-			char = unicode
-		} else if unicode, ok := fd.baseEncoding[code]; ok {
-			char = unicode
-		} else {
-			// Default: treat as Latin-1 (ISO-8859-1)
-			char = rune(code)
+	defaultWidth := fd.codeWidth
+	if defaultWidth == 0 {
+		defaultWidth = 1
+		if fd.has2ByteMapping() {
+			defaultWidth = 2
 		}
-
-		result.WriteRune(char)
+	}
+	for len(data) > 0 {
+		width := min(fd.nextWidth(data, defaultWidth), len(data))
+		code := 0
+		for _, b := range data[:width] {
+			code = code<<8 | int(b)
+		}
+		result.WriteString(fd.lookupCode(width, code))
+		data = data[width:]
 	}
 
 	return result.String()
 }
 
-// DecodeHex decodes a hex string to Unicode using the font's encoding
-func (fd *FontDecoder) DecodeHex(hexStr string) string {
-	// Remove < and > if present
-	hexStr = strings.TrimPrefix(hexStr, "<")
-	hexStr = strings.TrimSuffix(hexStr, ">")
-	hexStr = strings.ReplaceAll(hexStr, " ", "")
-	hexStr = strings.ReplaceAll(hexStr, "\n", "")
-	hexStr = strings.ReplaceAll(hexStr, "\r", "")
-
-	// Pad with 0 if odd length
-	if len(hexStr)%2 != 0 {
-		hexStr += "0"
-	}
-
-	var result strings.Builder
-
-	// Check if this is a 2-byte encoding (common for CID fonts)
-	// Heuristic: if we have ToUnicode entries for codes > 255, use 2-byte decoding
-	is2Byte := fd.has2ByteMapping()
-
-	if is2Byte && len(hexStr) >= 4 {
-		// 2-byte character codes
-		for i := 0; i < len(hexStr); i += 4 {
-			if i+4 > len(hexStr) {
-				// Remaining single byte
-				if val, err := strconv.ParseInt(hexStr[i:], 16, 32); err == nil {
-					result.WriteRune(fd.lookupCode(int(val)))
-				}
-				break
+// nextWidth returns the number of bytes of the first character code of data.
+func (fd *FontDecoder) nextWidth(data []byte, defaultWidth int) int {
+	for width := 1; width <= 4 && width <= len(data); width++ {
+		for _, space := range fd.codespaces {
+			if len(space.lo) != width {
+				continue
 			}
-			if val, err := strconv.ParseInt(hexStr[i:i+4], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+			inside := true
+			for i, b := range data[:width] {
+				inside = inside && space.lo[i] <= b && b <= space.hi[i]
 			}
-		}
-	} else {
-		// 1-byte character codes
-		for i := 0; i < len(hexStr); i += 2 {
-			if val, err := strconv.ParseInt(hexStr[i:i+2], 16, 32); err == nil {
-				result.WriteRune(fd.lookupCode(int(val)))
+			if inside {
+				return width
 			}
 		}
 	}
+	return defaultWidth
+}
 
-	return result.String()
+// DecodeHex decodes a hex string to Unicode using the font's encoding
+func (fd *FontDecoder) DecodeHex(hexStr string) string {
+	// Remove < and > if present
+	hexStr = strings.TrimPrefix(hexStr, "<")
+	hexStr = strings.TrimSuffix(hexStr, ">")
+	return fd.Decode(pdfscan.DecodeString([]byte("<" + hexStr + ">")))
 }
 
 // has2ByteMapping checks if the font has 2-byte ToUnicode mappings
 func (fd *FontDecoder) has2ByteMapping() bool {
-	for code := range fd.toUnicode {
-		if code > 255 {
+	for char := range fd.toUnicode {
+		if char.width == 2 || char.code > 255 {
+			return true
+		}
+	}
+	for _, codes := range fd.toUnicodeRanges {
+		if codes.width == 2 {
 			return true
 		}
 	}
@@ -144,165 +166,209 @@ func (fd *FontDecoder) has2ByteMapping() bool {
 }
 
 // lookupCode looks up a character code in all encoding tables
-func (fd *FontDecoder) lookupCode(code int) rune {
-	if unicode, ok := fd.toUnicode[code]; ok {
-		return unicode
+func (fd *FontDecoder) lookupCode(width, code int) string {
+	// Priority: ToUnicode > Differences > BaseEncoding > Identity
+	if text, ok := fd.toUnicode[charCode{width, code}]; ok {
+		return text
 	}
-	if unicode, ok := fd.differences[code]; ok {
-		return unicode
+	if text, ok := fd.toUnicode[charCode{0, code}]; ok {
+		return text
 	}
-	if code < 256 {
+	for i := len(fd.toUnicodeRanges) - 1; i >= 0; i-- {
+		codes := &fd.toUnicodeRanges[i]
+		if codes.width == width && codes.lo <= code && code <= codes.hi {
+			return offsetText(codes.target, code-codes.lo)
+		}
+	}
+	if width == 1 {
+		if text, ok := fd.toUnicode[charCode{2, code}]; ok {
+			return text // one-byte codes, padded in the CMap
+		}
+		if unicode, ok := fd.differences[code]; ok {
+			return string(unicode)
+		}
 		if unicode, ok := fd.baseEncoding[code]; ok {
-			return unicode
+			return string(unicode)
 		}
 	}
-	// Default: treat as Unicode code point (for Identity-H)
-	if code < 0x10000 {
-		return rune(code)
+	// Default: treat as Unicode code point (Latin-1 for one byte)
+	if utf8.ValidRune(rune(code)) {
+		return string(rune(code))
 	}
-	return '?'
+	return string(utf8.RuneError)
 }
 
 // ParseToUnicodeCMap parses a ToUnicode CMap stream and populates the decoder
 func (fd *FontDecoder) ParseToUnicodeCMap(cmapData string) {
-	// Parse beginbfchar...endbfchar sections (single character mappings)
-	// Format: <srcCode> <dstUnicode>
-	bfcharPattern := regexp.MustCompile(`beginbfchar\s*([\s\S]*?)\s*endbfchar`)
-	bfcharMatches := bfcharPattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfcharMatches {
-		fd.parseBfcharBlock(match[1])
-	}
-
-	// Parse beginbfrange...endbfrange sections (range mappings)
-	// Format: <srcCodeLo> <srcCodeHi> <dstUnicode> or <srcCodeLo> <srcCodeHi> [<dst1> <dst2> ...]
-	bfrangePattern := regexp.MustCompile(`beginbfrange\s*([\s\S]*?)\s*endbfrange`)
-	bfrangeMatches := bfrangePattern.FindAllStringSubmatch(cmapData, -1)
-	for _, match := range bfrangeMatches {
-		fd.parseBfrangeBlock(match[1])
+	if fd.codeWidth == 0 {
+		fd.parseCodespaces(cmapData)
 	}
+	cmapSections([]byte(cmapData), func(section string, tokens [][]byte) {
+		switch section {
+		case "bfchar":
+			// Format: <srcCode> <dstUnicode>
+			for ; len(tokens) >= 2; tokens = tokens[2:] {
+				if width, code, ok := cmapCode(tokens[0]); ok {
+					if target := cmapTarget(tokens[1]); len(target) > 0 {
+						fd.toUnicode[charCode{width, code}] = offsetText(target, 0)
+					}
+				}
+			}
+		case "bfrange":
+			// Format: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [<dst1> <dst2> ...]
+			for ; len(tokens) >= 3; tokens = tokens[3:] {
+				width, lo, ok := cmapCode(tokens[0])
+				_, hi, ok2 := cmapCode(tokens[1])
+				if ok && ok2 && lo <= hi {
+					fd.addRange(width, lo, hi, tokens[2])
+				}
+			}
+		}
+	})
 }
 
-// parseBfcharBlock parses a bfchar block
-func (fd *FontDecoder) parseBfcharBlock(block string) {
-	// Match pairs of hex values: <srcCode> <dstUnicode>
-	linePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	matches := linePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range matches {
-		srcCode, err := strconv.ParseInt(match[1], 16, 32)
-		if err != nil {
-			continue
+// addRange adds a bfrange entry of a ToUnicode CMap.
+func (fd *FontDecoder) addRange(width, lo, hi int, value []byte) {
+	if value[0] == '[' {
+		for i, item := range pdfscan.ArrayItems(value) {
+			if target := cmapTarget(item); len(target) > 0 && lo+i <= hi {
+				fd.toUnicode[charCode{width, lo + i}] = offsetText(target, 0)
+			}
 		}
-		// Destination can be multi-byte Unicode
-		dstHex := match[2]
-		unicodeRunes := hexToUnicodeRunes(dstHex)
-		if len(unicodeRunes) == 1 {
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
-		} else if len(unicodeRunes) > 1 {
-			// For ligatures/sequences, store the first rune
-			// TODO: Handle multi-rune mappings properly
-			fd.toUnicode[int(srcCode)] = unicodeRunes[0]
+		return
+	}
+	target := cmapTarget(value)
+	if len(target) == 0 {
+		return
+	}
+	if hi-lo < maxRangeCodes && fd.rangeCodes < maxCodes {
+		fd.rangeCodes += hi - lo + 1
+		for code := lo; code <= hi; code++ {
+			fd.toUnicode[charCode{width, code}] = offsetText(target, code-lo)
 		}
+	} else if len(fd.toUnicodeRanges) < maxRanges {
+		fd.toUnicodeRanges = append(fd.toUnicodeRanges, codeRange{width, lo, hi, target})
 	}
 }
 
-// parseBfrangeBlock parses a bfrange block
-func (fd *FontDecoder) parseBfrangeBlock(block string) {
-	// Match range definitions: <srcLo> <srcHi> <dstStart> or <srcLo> <srcHi> [array]
-	// Simple range: <0020> <007E> <0020>
-	simpleRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>`)
-	simpleMatches := simpleRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range simpleMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		dstStart, err3 := strconv.ParseInt(match[3], 16, 32)
-		if err1 != nil || err2 != nil || err3 != nil {
-			continue
+// parseCodespaces reads the codespace ranges of a CMap.
+func (fd *FontDecoder) parseCodespaces(cmapData string) {
+	cmapSections([]byte(cmapData), func(section string, tokens [][]byte) {
+		if section != "codespacerange" {
+			return
 		}
-		for i := srcLo; i <= srcHi; i++ {
-			fd.toUnicode[int(i)] = rune(dstStart + (i - srcLo))
+		for ; len(tokens) >= 2 && len(fd.codespaces) < maxRanges; tokens = tokens[2:] {
+			if !pdfscan.IsString(tokens[0]) || !pdfscan.IsString(tokens[1]) {
+				continue
+			}
+			space := codespace{lo: pdfscan.DecodeString(tokens[0]), hi: pdfscan.DecodeString(tokens[1])}
+			if len(space.lo) == len(space.hi) && len(space.lo) > 0 && len(space.lo) <= 4 {
+				fd.codespaces = append(fd.codespaces, space)
+			}
 		}
-	}
+	})
+}
 
-	// Array range: <srcLo> <srcHi> [<dst1> <dst2> ...]
-	arrayRangePattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>\s*<([0-9A-Fa-f]+)>\s*\[([^\]]+)\]`)
-	arrayMatches := arrayRangePattern.FindAllStringSubmatch(block, -1)
-	for _, match := range arrayMatches {
-		srcLo, err1 := strconv.ParseInt(match[1], 16, 32)
-		srcHi, err2 := strconv.ParseInt(match[2], 16, 32)
-		if err1 != nil || err2 != nil {
+// cmapSections calls fn with the tokens of each beginX ... endX section of a
+// CMap.
+func cmapSections(cmap []byte, fn func(section string, tokens [][]byte)) {
+	var section string
+	var tokens [][]byte
+	for pos := pdfscan.SkipSpace(cmap, 0); pos < len(cmap); pos = pdfscan.SkipSpace(cmap, pos) {
+		start := pos
+		if pdfscan.IsRegular(cmap[pos]) {
+			for pos < len(cmap) && pdfscan.IsRegular(cmap[pos]) {
+				pos++
+			}
+		} else if end, ok := pdfscan.SkipValue(cmap, pos); ok {
+			pos = end
+		} else if cmap[pos] == '(' || cmap[pos] == '<' || cmap[pos] == '[' {
+			return // unterminated
+		} else {
+			pos++ // stray delimiter
 			continue
 		}
-		// Parse array elements
-		arrayHexPattern := regexp.MustCompile(`<([0-9A-Fa-f]+)>`)
-		arrayElements := arrayHexPattern.FindAllStringSubmatch(match[3], -1)
-		for i, elem := range arrayElements {
-			code := int(srcLo) + i
-			if code > int(srcHi) {
-				break
-			}
-			unicodeRunes := hexToUnicodeRunes(elem[1])
-			if len(unicodeRunes) > 0 {
-				fd.toUnicode[code] = unicodeRunes[0]
-			}
+		token := cmap[start:pos]
+		switch word := string(token); {
+		case strings.HasPrefix(word, "begin"):
+			section, tokens = word[len("begin"):], nil
+		case section != "" && word == "end"+section:
+			fn(section, tokens)
+			section = ""
+		case section != "":
+			tokens = append(tokens, token)
 		}
 	}
 }
 
-// hexToUnicodeRunes converts a hex string to Unicode runes
-// Each pair of hex digits represents a byte in UTF-16BE
-func hexToUnicodeRunes(hex string) []rune {
-	var runes []rune
+// cmapCode returns a character code of a CMap and its width.
+func cmapCode(token []byte) (width, code int, ok bool) {
+	if !pdfscan.IsString(token) {
+		return 0, 0, false
+	}
+	data := pdfscan.DecodeString(token)
+	if len(data) == 0 || len(data) > 4 {
+		return 0, 0, false
+	}
+	for _, b := range data {
+		code = code<<8 | int(b)
+	}
+	return len(data), code, true
+}
 
-	// Handle UTF-16BE encoding (most common in PDFs)
-	if len(hex) == 4 {
-		// Single BMP character
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) == 2 {
-		// Single byte - treat as code point
-		if val, err := strconv.ParseInt(hex, 16, 32); err == nil {
-			runes = append(runes, rune(val))
-		}
-	} else if len(hex) > 4 {
-		// Multi-character or surrogate pair
-		for i := 0; i < len(hex); i += 4 {
-			end := i + 4
-			if end > len(hex) {
-				end = len(hex)
-			}
-			if val, err := strconv.ParseInt(hex[i:end], 16, 32); err == nil {
-				runes = append(runes, rune(val))
-			}
+// cmapTarget returns the UTF-16 text that a CMap maps a code to.
+func cmapTarget(token []byte) []uint16 {
+	if token[0] == '/' {
+		if unicode := glyphNameToUnicode(pdfscan.DecodeName(string(token))); unicode != 0 {
+			return utf16.Encode([]rune{unicode})
 		}
+		return nil
+	}
+	if !pdfscan.IsString(token) {
+		return nil
+	}
+	data := pdfscan.DecodeString(token)
+	if len(data) == 1 {
+		return []uint16{uint16(data[0])} // written by some producers
 	}
+	units := make([]uint16, 0, len(data)/2)
+	for i := 0; i+1 < len(data); i += 2 {
+		units = append(units, uint16(data[i])<<8|uint16(data[i+1]))
+	}
+	return units
+}
 
-	return runes
+// offsetText returns the text that is offset characters after the target of
+// the first code of a range.
+func offsetText(target []uint16, offset int) string {
+	if offset == 0 {
+		return string(utf16.Decode(target))
+	}
+	units := append([]uint16(nil), target...)
+	units[len(units)-1] += uint16(offset)
+	return string(utf16.Decode(units))
 }
 
 // ParseDifferencesArray parses a PDF Differences array
 // Format: [ code1 /name1 /name2 code2 /name3 ... ]
 func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
-	// Remove brackets
 	diffStr = strings.TrimSpace(diffStr)
-	diffStr = strings.TrimPrefix(diffStr, "[")
-	diffStr = strings.TrimSuffix(diffStr, "]")
-
-	// Parse tokens
-	tokens := strings.Fields(diffStr)
+	if !strings.HasPrefix(diffStr, "[") {
+		diffStr = "[" + diffStr
+	}
 	currentCode := 0
 
-	for _, token := range tokens {
-		if strings.HasPrefix(token, "/") {
+	for _, token := range pdfscan.ArrayItems([]byte(diffStr)) {
+		if token[0] == '/' {
 			// Glyph name
-			glyphName := strings.TrimPrefix(token, "/")
+			glyphName := pdfscan.DecodeName(string(token))
 			if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
 				fd.differences[currentCode] = unicode
 			}
 			currentCode++
 		} else {
 			// Character code
-			if code, err := strconv.Atoi(token); err == nil {
+			if code, err := strconv.Atoi(string(token)); err == nil {
 				currentCode = code
 			}
 		}
@@ -318,14 +384,14 @@ func glyphNameToUnicode(name string) rune {
 
 	// Handle uniXXXX format (e.g., uni0041 = A)
 	if strings.HasPrefix(name, "uni") && len(name) == 7 {
-		if val, err := strconv.ParseInt(name[3:], 16, 32); err == nil {
+		if val, err := strconv.ParseUint(name[3:], 16, 32); err == nil {
 			return rune(val)
 		}
 	}
 
-	// Handle uXXXX or uXXXXX format
-	if strings.HasPrefix(name, "u") && (len(name) == 5 || len(name) == 6) {
-		if val, err := strconv.ParseInt(name[1:], 16, 32); err == nil {
+	// Handle uXXXX to uXXXXXX format
+	if strings.HasPrefix(name, "u") && len(name) >= 5 && len(name) <= 7 {
+		if val, err := strconv.ParseUint(name[1:], 16, 32); err == nil && utf8.ValidRune(rune(val)) {
 			return rune(val)
 		}
 	}
diff --git a/content/extract/extract.go b/content/extract/extract.go
index 581cb88..d960222 100644
--- a/content/extract/extract.go
+++ b/content/extract/extract.go
@@ -6,6 +6,7 @@ package extract
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -71,39 +72,44 @@ func ExtractContent(pdfBytes []byte, password []byte, verbose bool) (*types.Cont
 	}
 	doc.Annotations = allAnnotations
 
-	// Extract images (collect unique images from all pages)
-	imageMap := make(map[string]types.Image)
+	// Extract images and fonts (collect unique ones from all pages, in the
+	// order of their names on each page)
+	seenImages := make(map[string]bool)
+	seenFonts := make(map[types.FontInfo]bool)
 	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Images != nil {
-			for id, img := range page.Resources.Images {
-				if _, exists := imageMap[id]; !exists {
-					imageMap[id] = img
-				}
+		if page.Resources == nil {
+			continue
+		}
+		for _, id := range sortedKeys(page.Resources.Images) {
+			img := page.Resources.Images[id]
+			key := fmt.Sprint(img.Metadata["object_number"])
+			if !seenImages[key] {
+				seenImages[key] = true
+				doc.Images = append(doc.Images, img)
 			}
 		}
-	}
-	for _, img := range imageMap {
-		doc.Images = append(doc.Images, img)
-	}
-
-	// Extract fonts (collect unique fonts from all pages)
-	fontMap := make(map[string]types.FontInfo)
-	for _, page := range doc.Pages {
-		if page.Resources != nil && page.Resources.Fonts != nil {
-			for id, font := range page.Resources.Fonts {
-				if _, exists := fontMap[id]; !exists {
-					fontMap[id] = font
-				}
+		for _, id := range sortedKeys(page.Resources.Fonts) {
+			font := page.Resources.Fonts[id]
+			if !seenFonts[font] {
+				seenFonts[font] = true
+				doc.Fonts = append(doc.Fonts, font)
 			}
 		}
 	}
-	for _, font := range fontMap {
-		doc.Fonts = append(doc.Fonts, font)
-	}
 
 	return doc, nil
 }
 
+// sortedKeys returns the keys of a map in order.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // ExtractContentToJSON extracts content and returns as JSON string
 func ExtractContentToJSON(pdfBytes []byte, password []byte, verbose bool) (string, error) {
 	doc, err := ExtractContent(pdfBytes, password, verbose)
diff --git a/content/extract/images.go b/content/extract/images.go
index 31336e6..f3fc73e 100644
--- a/content/extract/images.go
+++ b/content/extract/images.go
@@ -1,148 +1,71 @@
 package extract
 
 import (
-	"bytes"
 	"encoding/base64"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractImageData extracts actual image binary data from an image XObject
-func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	imageObj, err := pdf.GetObject(imageObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
-	}
-
-	imageObjBytes := imageObj
-	imageStr := string(imageObjBytes)
-	image := &types.Image{
-		ID:       fmt.Sprintf("/Im%d", imageObjNum),
-		Metadata: make(map[string]interface{}),
-	}
-
-	// Extract Width and Height
-	widthStr := extractDictValue(imageStr, "/Width")
-	heightStr := extractDictValue(imageStr, "/Height")
-	if widthStr != "" {
-		if w, err := strconv.Atoi(widthStr); err == nil {
-			image.Width = w
-		}
-	}
-	if heightStr != "" {
-		if h, err := strconv.Atoi(heightStr); err == nil {
-			image.Height = h
-		}
-	}
-
-	// Extract ColorSpace
-	colorSpace := extractDictValue(imageStr, "/ColorSpace")
-	if colorSpace != "" {
-		image.ColorSpace = colorSpace
-	}
-
-	// Extract BitsPerComponent
-	bitsPerCompStr := extractDictValue(imageStr, "/BitsPerComponent")
-	if bitsPerCompStr != "" {
-		if b, err := strconv.Atoi(bitsPerCompStr); err == nil {
-			image.BitsPerComponent = b
-		}
-	}
-
-	// Extract Filter to determine format and decompression method
-	filter := extractDictValue(imageStr, "/Filter")
-	if filter != "" {
-		image.Filter = filter
-		// Determine format from filter
-		if filter == "/DCTDecode" || strings.Contains(filter, "DCTDecode") {
+// imageInfo describes the image XObject with the given dictionary, without its
+// data
+func imageInfo(dict []byte, pdf *parse.PDF) types.Image {
+	var image types.Image
+
+	image.Width, _ = pdfscan.LookupInt(dict, "Width", pdf.GetObject)
+	image.Height, _ = pdfscan.LookupInt(dict, "Height", pdf.GetObject)
+	image.ColorSpace = string(pdfscan.Lookup(dict, "ColorSpace", pdf.GetObject))
+	image.BitsPerComponent, _ = pdfscan.LookupInt(dict, "BitsPerComponent", pdf.GetObject)
+
+	// Determine format from the filters, of which an image codec comes last
+	image.Format = "unknown"
+	image.Filter = string(pdfscan.Lookup(dict, "Filter", pdf.GetObject))
+	for _, filter := range pdfscan.ArrayItems([]byte(image.Filter)) {
+		switch name := string(pdfscan.Resolve(filter, pdf.GetObject)); name {
+		case "/DCTDecode":
 			image.Format = "jpeg"
-		} else if filter == "/FlateDecode" || strings.Contains(filter, "FlateDecode") {
+		case "/FlateDecode":
 			image.Format = "png" // Could be PNG or other FlateDecode image
-		} else if filter == "/CCITTFaxDecode" || strings.Contains(filter, "CCITTFaxDecode") {
+		case "/CCITTFaxDecode":
 			image.Format = "tiff"
-		} else if filter == "/JPXDecode" || strings.Contains(filter, "JPXDecode") {
+		case "/JPXDecode":
 			image.Format = "jpeg2000"
-		} else {
-			image.Format = "unknown"
 		}
 	}
 
-	// Extract stream data - handle binary data properly
-	streamIdx := bytes.Index(imageObjBytes, []byte("stream"))
-	if streamIdx != -1 {
-		// Get /Length from dictionary for exact stream size
-		dictPart := imageObjBytes[:streamIdx]
-		lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-		lengthMatch := lengthPattern.FindSubmatch(dictPart)
-
-		var streamLength int
-		if lengthMatch != nil {
-			streamLength, _ = strconv.Atoi(string(lengthMatch[1]))
-		}
-
-		// Find actual stream data (after "stream\r\n" or "stream\n")
-		streamDataStart := streamIdx + 6 // len("stream")
-		// Skip exactly one EOL per PDF spec
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\r' {
-			streamDataStart++
-		}
-		if streamDataStart < len(imageObjBytes) && imageObjBytes[streamDataStart] == '\n' {
-			streamDataStart++
-		}
+	return image
+}
 
-		// Use /Length if available, otherwise find endstream
-		var streamData []byte
-		if streamLength > 0 && streamDataStart+streamLength <= len(imageObjBytes) {
-			streamData = imageObjBytes[streamDataStart : streamDataStart+streamLength]
-		} else {
-			endstreamIdx := bytes.Index(imageObjBytes[streamDataStart:], []byte("endstream"))
-			if endstreamIdx != -1 {
-				streamData = imageObjBytes[streamDataStart : streamDataStart+endstreamIdx]
-			}
-		}
+// extractImageData extracts actual image binary data from an image XObject. The
+// data is decoded, except for the encoding of an image codec such as DCTDecode.
+func extractImageData(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
+	imageObj, err := pdf.GetObject(imageObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get image object %d: %w", imageObjNum, err)
+	}
 
-		if len(streamData) > 0 {
-			// Decompress if needed
-			if filter != "" {
-				if strings.Contains(filter, "FlateDecode") {
-					// Decompress FlateDecode
-					decompressed, err := parse.DecodeFlateDecode(streamData)
-					if err == nil {
-						image.Data = decompressed
-					} else {
-						if verbose {
-							fmt.Printf("Warning: failed to decompress FlateDecode image: %v\n", err)
-						}
-						image.Data = streamData
-					}
-				} else if strings.Contains(filter, "DCTDecode") {
-					// DCTDecode (JPEG) - data is already JPEG, no decompression needed
-					image.Data = streamData
-				} else {
-					// Other filters - use raw data
-					image.Data = streamData
-				}
-			} else {
-				// No filter - use raw data
-				image.Data = streamData
-			}
+	image := imageInfo(pdfscan.Value(imageObj), pdf)
+	image.ID = fmt.Sprintf("/Im%d", imageObjNum)
+	image.Metadata = map[string]interface{}{"object_number": imageObjNum}
 
-			// Set base64 encoded version for JSON serialization
-			if len(image.Data) > 0 {
-				image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
-			}
-		}
+	_, data, _, err := pdf.ImageData(imageObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read image object %d: %w", imageObjNum, err)
+	}
+	if len(data) > 0 {
+		image.Data = data
+		// Set base64 encoded version for JSON serialization
+		image.DataBase64 = base64.StdEncoding.EncodeToString(image.Data)
 	}
 
-	return image, nil
+	return &image, nil
 }
 
-// ExtractAllImages extracts all images from a PDF document with binary data
+// ExtractAllImages extracts all images from a PDF document with binary data.
+// The images come in the order of the pages and of the resources of each page,
+// and only once if they are used repeatedly.
 func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.Image, error) {
 	// Parse PDF
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
@@ -152,162 +75,45 @@ func ExtractAllImages(pdfBytes []byte, password []byte, verbose bool) ([]types.I
 	if err != nil {
 		return []types.Image{}, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	// First get metadata to find all images
-	doc, err := ExtractContent(pdfBytes, password, verbose)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to extract content: %w", err)
+	if pdfscan.LookupDict(catalogDict(pdf), "Pages", pdf.GetObject) == nil {
+		return []types.Image{}, fmt.Errorf("no page tree found in catalog")
 	}
 
 	allImages := make([]types.Image, 0)
-	imageMap := make(map[string]bool)      // Track unique images by ID
-	imageObjNumMap := make(map[string]int) // Map image name to object number
-
-	// Collect image object numbers by re-parsing Resources from pages
-	// We need to get the actual page object numbers to extract Resources
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return []types.Image{}, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return []types.Image{}, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return []types.Image{}, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	// Recursively find all page objects
-	pageObjNums := extractPageObjectNumbers(pdf, pagesObjNum, verbose)
-
-	// For each page, extract Resources and get image object numbers
-	for i, pageObjNum := range pageObjNums {
-		if i >= len(doc.Pages) {
-			break
-		}
-
-		pageObj, err := pdf.GetObject(pageObjNum)
-		if err != nil {
-			continue
-		}
-
-		pageStr := string(pageObj)
-		// Extract Resources
-		resourcesRef := extractDictValue(pageStr, "/Resources")
-		var resourcesStr string
-		if resourcesRef != "" {
-			resourcesObjNum, err := parseObjectRef(resourcesRef)
-			if err == nil {
-				resourcesObj, err := pdf.GetObject(resourcesObjNum)
-				if err == nil {
-					resourcesStr = string(resourcesObj)
-				}
+	seen := make(map[int]bool)
+
+	var collect func(resources []byte)
+	collect = func(resources []byte) {
+		for _, entry := range resourceEntries(resources, "XObject", pdf) {
+			objNum, _, ok := pdfscan.Reference(entry.Value, 0)
+			if !ok || seen[objNum] {
+				continue
 			}
-		} else {
-			// Inline Resources
-			resourcesStr = extractInlineDict(pageStr, "/Resources")
-		}
-
-		if resourcesStr != "" {
-			// Extract XObject object numbers
-			_, objNums := extractXObjectsDictWithObjNums(resourcesStr, pdf, verbose)
-			for name, objNum := range objNums {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					imageObjNumMap[name] = objNum
-					imageMap[imageID] = true
-				}
-			}
-		}
-	}
-
-	// Extract full image data with binary for each unique image
-	for name, objNum := range imageObjNumMap {
-		image, err := extractImageData(objNum, pdf, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract image data for %s (obj %d): %v\n", name, objNum, err)
-			}
-			// Fall back to metadata-only image from Resources
-			for _, page := range doc.Pages {
-				if page.Resources != nil {
-					if img, ok := page.Resources.Images[name]; ok {
-						allImages = append(allImages, img)
-						break
+			seen[objNum] = true
+
+			dict := pdfscan.Resolve(entry.Value, pdf.GetObject)
+			switch pdfscan.LookupName(dict, "Subtype", pdf.GetObject) {
+			case "/Image":
+				image, err := extractImageData(objNum, pdf, verbose)
+				if err != nil {
+					if verbose {
+						fmt.Printf("Warning: failed to extract image data for /%s (obj %d): %v\n", entry.Key, objNum, err)
 					}
+					// Fall back to metadata-only image
+					info := imageInfo(dict, pdf)
+					image = &info
 				}
+				image.ID = "/" + entry.Key
+				allImages = append(allImages, *image)
+			case "/Form":
+				// Forms can have images of their own
+				collect(pdfscan.LookupDict(dict, "Resources", pdf.GetObject))
 			}
-		} else {
-			allImages = append(allImages, *image)
 		}
 	}
-
-	// Also add any images we found but couldn't get object numbers for (metadata only)
-	for _, page := range doc.Pages {
-		if page.Resources != nil {
-			for name, image := range page.Resources.Images {
-				imageID := "/" + name
-				if !imageMap[imageID] {
-					allImages = append(allImages, image)
-					imageMap[imageID] = true
-				}
-			}
-		}
+	for _, page := range pageObjects(pdf) {
+		collect(page.attribute("Resources", pdf))
 	}
 
 	return allImages, nil
 }
-
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func extractPageObjectNumbers(pdf *parse.PDF, pagesObjNum int, verbose bool) []int {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return pageObjNums
-	}
-
-	pagesStr := string(pagesObj)
-
-	// Check if this is a /Page (leaf) or /Pages (intermediate)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		// This is a page - add it
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums
-	}
-
-	// This is a /Pages node - get Kids and recurse
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums
-	}
-
-	// Parse kids array
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			continue
-		}
-		// Recurse
-		childPages := extractPageObjectNumbers(pdf, kidObjNum, verbose)
-		pageObjNums = append(pageObjNums, childPages...)
-	}
-
-	return pageObjNums
-}
diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..b8a69fc 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -2,12 +2,12 @@ package extract
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 	"time"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -15,7 +15,7 @@ import (
 func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.DocumentMetadata, error) {
 	metadata := &types.DocumentMetadata{
 		PDFVersion: pdf.Version(),
-		PageCount:  pdf.ObjectCount(), // Will be updated when we parse pages
+		PageCount:  len(pageObjects(pdf)),
 		Encrypted:  pdf.IsEncrypted(),
 		Custom:     make(map[string]string),
 	}
@@ -23,19 +23,7 @@ func ExtractMetadata(pdfBytes []byte, pdf *parse.PDF, verbose bool) (*types.Docu
 	// Extract from Info dictionary if available
 	trailer := pdf.Trailer()
 	if trailer != nil && trailer.InfoRef != "" {
-		// Parse object number from reference (e.g., "5 0 R")
-		infoObjNum, err := parseObjectRef(trailer.InfoRef)
-		if err == nil {
-			infoObj, err := pdf.GetObject(infoObjNum)
-			if err == nil {
-				parseInfoDict(string(infoObj), metadata, verbose)
-			}
-		}
-	}
-
-	// Try to extract from raw PDF bytes as fallback
-	if metadata.Title == "" {
-		extractMetadataFromBytes(pdfBytes, metadata, verbose)
+		parseInfoDict(pdfscan.Resolve([]byte(trailer.InfoRef), pdf.GetObject), pdf, metadata)
 	}
 
 	return metadata, nil
@@ -55,89 +43,32 @@ func parseObjectRef(ref string) (int, error) {
 }
 
 // parseInfoDict parses a PDF Info dictionary
-func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
-	// Extract common fields
-	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
-	}
-
+func parseInfoDict(info []byte, pdf *parse.PDF, metadata *types.DocumentMetadata) {
 	fieldMap := map[string]*string{
-		"title":         &metadata.Title,
-		"author":        &metadata.Author,
-		"subject":       &metadata.Subject,
-		"keywords":      &metadata.Keywords,
-		"creator":       &metadata.Creator,
-		"producer":      &metadata.Producer,
-		"creation_date": &metadata.CreationDate,
-		"mod_date":      &metadata.ModDate,
+		"Title":        &metadata.Title,
+		"Author":       &metadata.Author,
+		"Subject":      &metadata.Subject,
+		"Keywords":     &metadata.Keywords,
+		"Creator":      &metadata.Creator,
+		"Producer":     &metadata.Producer,
+		"CreationDate": &metadata.CreationDate,
+		"ModDate":      &metadata.ModDate,
 	}
 
-	for key, pattern := range patterns {
-		match := pattern.FindStringSubmatch(infoStr)
-		if len(match) > 1 {
-			value := unescapePDFString(match[1])
-			if fieldPtr, ok := fieldMap[key]; ok {
-				*fieldPtr = value
-			}
+	for _, entry := range pdfscan.Entries(info) {
+		value := pdfscan.Resolve(entry.Value, pdf.GetObject)
+		if !pdfscan.IsString(value) {
+			continue
 		}
-	}
-
-	// Extract custom fields (any field that's not a standard field)
-	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
-	standardFields := map[string]bool{
-		"Title":        true,
-		"Author":       true,
-		"Subject":      true,
-		"Keywords":     true,
-		"Creator":      true,
-		"Producer":     true,
-		"CreationDate": true,
-		"ModDate":      true,
-	}
-
-	allMatches := customPattern.FindAllStringSubmatch(infoStr, -1)
-	for _, match := range allMatches {
-		if len(match) >= 3 {
-			fieldName := match[1]
-			fieldValue := unescapePDFString(match[2])
-
-			// Skip if it's a standard field (already extracted)
-			if !standardFields[fieldName] {
-				if metadata.Custom == nil {
-					metadata.Custom = make(map[string]string)
-				}
-				metadata.Custom[fieldName] = fieldValue
-			}
+		if field, ok := fieldMap[entry.Key]; ok {
+			*field = pdfscan.DecodeText(value)
+		} else {
+			// Custom field (any field that's not a standard field)
+			metadata.Custom[entry.Key] = pdfscan.DecodeText(value)
 		}
 	}
 }
 
-// extractMetadataFromBytes extracts metadata by searching PDF bytes
-func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata, verbose bool) {
-	// This is a fallback method - search for common patterns
-	// In practice, Info dict parsing should work
-}
-
-// unescapePDFString unescapes a PDF string literal
-func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
-}
-
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm).
 // This function is available for future use when date parsing is needed.
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 7523801..c305cfe 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -1,383 +1,175 @@
 package extract
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
+	"math"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractPages extracts all pages from a PDF
 func ExtractPages(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Page, error) {
-	var pages []types.Page
-
 	// Get catalog to find pages tree
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found in trailer")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
+	catalog := catalogDict(pdf)
+	if catalog == nil {
+		return nil, fmt.Errorf("no catalog found")
 	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog object: %w", err)
+	if pdfscan.LookupDict(catalog, "Pages", pdf.GetObject) == nil {
+		return nil, fmt.Errorf("no page tree found in catalog: %s", catalog)
 	}
 
-	// Find Pages reference in catalog
-	catalogStr := string(catalogObj)
-	if verbose {
-		fmt.Printf("Catalog object: %s\n", catalogStr)
-	}
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference found in catalog: %s", catalogStr)
+	var pages []types.Page
+	for i, object := range pageObjects(pdf) {
+		pages = append(pages, extractPage(pdf, object, i+1, verbose))
 	}
+	return pages, nil
+}
 
-	if verbose {
-		fmt.Printf("Found Pages reference: %s\n", pagesRef)
-	}
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference %s: %w", pagesRef, err)
-	}
+// pageObject is a page of the page tree with the attributes it inherits.
+type pageObject struct {
+	objNum    int
+	dict      []byte
+	inherited map[string][]byte
+}
 
-	if verbose {
-		fmt.Printf("Pages object number: %d\n", pagesObjNum)
+// attribute returns the value of an inheritable page attribute.
+func (p *pageObject) attribute(key string, pdf *parse.PDF) []byte {
+	if value := pdfscan.Lookup(p.dict, key, pdf.GetObject); value != nil {
+		return value
 	}
+	return p.inherited[key]
+}
 
-	// Extract pages from pages tree
-	pages, err = extractPagesFromTree(pdfBytes, pdf, pagesObjNum, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to extract pages from tree: %w", err)
+// rectangle returns a rectangle with its corners in order.
+func rectangle(corners []float64) *types.Rectangle {
+	if len(corners) < 4 {
+		return nil
 	}
-
-	// Update page numbers
-	for i := range pages {
-		pages[i].PageNumber = i + 1
+	return &types.Rectangle{
+		LowerX: math.Min(corners[0], corners[2]),
+		LowerY: math.Min(corners[1], corners[3]),
+		UpperX: math.Max(corners[0], corners[2]),
+		UpperY: math.Max(corners[1], corners[3]),
 	}
-
-	return pages, nil
 }
 
-// extractPagesFromTree recursively extracts pages from a pages tree
-func extractPagesFromTree(pdfBytes []byte, pdf *parse.PDF, pagesObjNum int, verbose bool) ([]types.Page, error) {
-	var result []types.Page
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get pages object %d: %w", pagesObjNum, err)
-	}
-
-	pagesStr := string(pagesObj)
-	if verbose {
-		fmt.Printf("Pages object %d: %s\n", pagesObjNum, pagesStr)
+// catalogDict returns the document catalog, or nil.
+func catalogDict(pdf *parse.PDF) []byte {
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.RootRef == "" {
+		return nil
 	}
+	return pdfscan.Resolve([]byte(trailer.RootRef), pdf.GetObject)
+}
 
-	// Check if this is a page or a pages node
-	// Look for /Type/Page or /Type/Pages in the dictionary
-	// Need to check for exact match, not substring (e.g., /Type/Page should not match /Type/Pages)
-	pageType := ""
-	if strings.Contains(pagesStr, "/Type/Pages") || strings.Contains(pagesStr, "/Type /Pages") {
-		pageType = "/Pages"
-	} else if strings.Contains(pagesStr, "/Type/Page") || strings.Contains(pagesStr, "/Type /Page") {
-		// Make sure it's not /Type/Pages
-		if !strings.Contains(pagesStr, "/Type/Pages") && !strings.Contains(pagesStr, "/Type /Pages") {
-			pageType = "/Page"
+// pageObjects lists the pages of the page tree in order. Every node of the
+// tree is visited once, however often it is referred to.
+func pageObjects(pdf *parse.PDF) []pageObject {
+	var pages []pageObject
+	visited := make(map[int]bool)
+
+	var walk func(ref []byte, inherited map[string][]byte)
+	walk = func(ref []byte, inherited map[string][]byte) {
+		objNum, _, ok := pdfscan.Reference(ref, 0)
+		if !ok || visited[objNum] {
+			return
 		}
-	}
-	if verbose {
-		fmt.Printf("Type: %s (from string check)\n", pageType)
-	}
-	if pageType == "/Page" {
-		// This is a page object
-		page, err := extractPage(pdfBytes, pdf, pagesObjNum, pagesStr, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract page %d: %v\n", pagesObjNum, err)
-			}
-			return result, nil
+		dict := pdfscan.Resolve(ref, pdf.GetObject)
+		if !bytes.HasPrefix(dict, []byte("<<")) {
+			return
 		}
-		return []types.Page{page}, nil
-	}
 
-	// This is a pages node - get Kids array
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if verbose {
-		fmt.Printf("Kids string: %s\n", kidsStr)
-	}
-	if kidsStr == "" {
-		if verbose {
-			fmt.Printf("No Kids array found in pages object\n")
+		kids := pdfscan.Lookup(dict, "Kids", pdf.GetObject)
+		nodeType := pdfscan.LookupName(dict, "Type", pdf.GetObject)
+		if nodeType == "/Page" || nodeType != "/Pages" && kids == nil {
+			pages = append(pages, pageObject{objNum: objNum, dict: dict, inherited: inherited})
+			return
 		}
-		return result, nil
-	}
 
-	// Parse Kids array (e.g., "[5 0 R 6 0 R 7 0 R]" or "5 0 R 6 0 R")
-	// If kidsStr already starts with [, use it as-is, otherwise wrap it
-	if !strings.HasPrefix(kidsStr, "[") {
-		kidsStr = "[" + kidsStr + "]"
-	}
-	kids := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kids {
-		kidObjNum, err := parseObjectRef(kidRef)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to parse kid reference %s: %v\n", kidRef, err)
+		visited[objNum] = true
+		attributes := make(map[string][]byte)
+		for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
+			if value := pdfscan.Lookup(dict, key, pdf.GetObject); value != nil {
+				attributes[key] = value
+			} else if value := inherited[key]; value != nil {
+				attributes[key] = value
 			}
-			continue
 		}
-
-		// Recursively extract from child
-		childPages, err := extractPagesFromTree(pdfBytes, pdf, kidObjNum, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: failed to extract from child %d: %v\n", kidObjNum, err)
-			}
-			continue
+		for _, kid := range pdfscan.ArrayItems(kids) {
+			walk(kid, attributes)
 		}
-
-		result = append(result, childPages...)
 	}
-
-	return result, nil
+	walk(pdfscan.DictValue(catalogDict(pdf), "Pages"), nil)
+	return pages
 }
 
 // extractPage extracts a single page
-func extractPage(pdfBytes []byte, pdf *parse.PDF, pageObjNum int, pageStr string, verbose bool) (types.Page, error) {
+func extractPage(pdf *parse.PDF, object pageObject, pageNum int, verbose bool) types.Page {
 	page := types.Page{
-		PageNumber:  0, // Will be set by caller
+		PageNumber:  pageNum,
 		Text:        []types.TextElement{},
 		Graphics:    []types.Graphic{},
 		Images:      []types.ImageRef{},
 		Annotations: []types.Annotation{},
 	}
 
-	// Extract media box
-	mediaBox := extractArrayValue(pageStr, "/MediaBox")
-	if len(mediaBox) >= 4 {
-		page.MediaBox = &types.Rectangle{
-			LowerX: mediaBox[0],
-			LowerY: mediaBox[1],
-			UpperX: mediaBox[2],
-			UpperY: mediaBox[3],
-		}
-		page.Width = mediaBox[2] - mediaBox[0]
-		page.Height = mediaBox[3] - mediaBox[1]
-	}
-
-	// Extract crop box
-	cropBox := extractArrayValue(pageStr, "/CropBox")
-	if len(cropBox) >= 4 {
-		page.CropBox = &types.Rectangle{
-			LowerX: cropBox[0],
-			LowerY: cropBox[1],
-			UpperX: cropBox[2],
-			UpperY: cropBox[3],
-		}
+	// Extract page boxes
+	page.MediaBox = rectangle(pdfscan.Numbers(object.attribute("MediaBox", pdf), pdf.GetObject))
+	if page.MediaBox != nil {
+		page.Width = page.MediaBox.UpperX - page.MediaBox.LowerX
+		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
+	page.CropBox = rectangle(pdfscan.Numbers(object.attribute("CropBox", pdf), pdf.GetObject))
 
 	// Extract rotation
-	rotationStr := extractDictValue(pageStr, "/Rotate")
-	if rotationStr != "" {
-		if rot, err := strconv.Atoi(rotationStr); err == nil {
-			page.Rotation = rot
-		}
-	}
-
-	// Extract resources FIRST (needed for font decoders for text extraction)
-	var resourcesStr string
-	resourcesRef := extractDictValue(pageStr, "/Resources")
-	if resourcesRef != "" {
-		// Resources is a reference to another object
-		resourcesObjNum, err := parseObjectRef(resourcesRef)
-		if err == nil {
-			resourcesObj, err := pdf.GetObject(resourcesObjNum)
-			if err == nil {
-				resourcesStr = string(resourcesObj)
-				page.Resources = extractResources(resourcesStr, pdf, verbose)
-			}
-		}
-	} else {
-		// Resources might be inline - extract the Resources dictionary from page string
-		resourcesDictStr := extractInlineDict(pageStr, "/Resources")
-		if resourcesDictStr != "" {
-			resourcesStr = resourcesDictStr
-			page.Resources = extractResources(resourcesStr, pdf, verbose)
-		}
+	if rotation, ok := pdfscan.Number(object.attribute("Rotate", pdf)); ok && math.Abs(rotation) < 1e6 {
+		page.Rotation = (int(rotation)%360 + 360) % 360
 	}
 
-	// Extract font decoders for text extraction
-	var fontDecoders map[string]*FontDecoder
-	if resourcesStr != "" {
-		fontDecoders = extractFontDecoders(resourcesStr, pdf, verbose)
+	resources := object.attribute("Resources", pdf)
+	if bytes.HasPrefix(resources, []byte("<<")) {
+		page.Resources = extractResources(resources, pdf, verbose)
 	}
 
-	// Extract content streams
-	contents := extractDictValue(pageStr, "/Contents")
-	if contents != "" {
-		// Contents can be a single reference or an array
-		// Decompress and parse content stream
-		contentRefs := parseObjectRefArray(contents)
-		if len(contentRefs) == 0 {
-			// Try as single reference
-			contentRefs = []string{contents}
-		}
-
-		// Extract text and graphics from content streams
-		for _, contentRef := range contentRefs {
-			contentObjNum, err := parseObjectRef(contentRef)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to parse content reference %s: %v\n", contentRef, err)
-				}
-				continue
-			}
-
-			contentObj, err := pdf.GetObject(contentObjNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get content object %d: %v\n", contentObjNum, err)
-				}
-				continue
-			}
-
-			// Parse content stream
-			// Content streams are usually stored as stream objects with FlateDecode
-			// We need to get the actual stream data, not the object wrapper
-			contentStr := string(contentObj)
-
-			// Check if this is a stream object and extract/decompress the stream data
-			if strings.Contains(contentStr, "stream") {
-				streamIdx := strings.Index(contentStr, "stream")
-				if streamIdx != -1 {
-					// Check for FlateDecode filter
-					isCompressed := strings.Contains(contentStr, "/FlateDecode")
-
-					// Extract stream data
-					dataStart := streamIdx + 6 // Skip "stream"
-					// Skip EOL after "stream"
-					if dataStart < len(contentStr) && (contentStr[dataStart] == '\r' || contentStr[dataStart] == '\n') {
-						dataStart++
-					}
-					if dataStart < len(contentStr) && contentStr[dataStart] == '\n' {
-						dataStart++
-					}
-
-					endstreamIdx := strings.Index(contentStr[dataStart:], "endstream")
-					if endstreamIdx != -1 {
-						streamData := []byte(contentStr[dataStart : dataStart+endstreamIdx])
-
-						// Decompress if needed using parse package
-						if isCompressed {
-							// Use parse.DecodeFlateDecode which handles both zlib and raw deflate
-							decompressed, err := parse.DecodeFlateDecode(streamData)
-							if err == nil {
-								contentStr = string(decompressed)
-							} else {
-								// Fallback to raw if decompression fails
-								contentStr = string(streamData)
-							}
-						} else {
-							contentStr = string(streamData)
-						}
-					}
-				}
-			}
-
-			textElements, graphics, images := parseContentStreamWithDecoders(contentStr, pdf, pageObjNum, fontDecoders, verbose)
-			page.Text = append(page.Text, textElements...)
-			page.Graphics = append(page.Graphics, graphics...)
-			page.Images = append(page.Images, images...)
-		}
-	}
+	interpreter := newContentInterpreter(pdf, verbose)
+	interpreter.run(pageContent(pdf, object, verbose), resources)
+	page.Text = append(page.Text, interpreter.text...)
+	page.Graphics = append(page.Graphics, interpreter.graphics...)
+	page.Images = append(page.Images, interpreter.images...)
 
 	// Extract annotations
-	// extractDictValue already handles arrays and returns them as "[...]" strings
-	annotsRef := extractDictValue(pageStr, "/Annots")
-	if annotsRef != "" {
-		annotations := extractAnnotations(annotsRef, pdf, pageObjNum, verbose)
+	if annotations := extractAnnotations(pdfscan.Lookup(object.dict, "Annots", pdf.GetObject), pdf, pageNum, verbose); annotations != nil {
 		page.Annotations = annotations
 	}
 
-	return page, nil
-}
-
-// Helper functions for parsing PDF dictionaries and arrays
-
-func extractDictValue(dictStr, key string) string {
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
-	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	// This handles PDF dictionaries where values immediately follow keys
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
-	}
-
-	// Try to match array value (e.g., "/Kids[4 0 R ]")
-	arrayPattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[([^\]]+)\]`)
-	arrayMatch := arrayPattern.FindStringSubmatch(dictStr)
-	if len(arrayMatch) > 1 {
-		return "[" + arrayMatch[1] + "]"
-	}
-
-	return ""
+	return page
 }
 
-func extractArrayValue(dictStr, key string) []float64 {
-	// Find the array after the key (e.g., "/MediaBox [0 0 612 792]")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\[\s*([^\]]+)\]`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if match == nil || len(match) < 2 {
-		return nil
+// pageContent returns the decoded content streams of a page, which form one
+// stream together.
+func pageContent(pdf *parse.PDF, object pageObject, verbose bool) []byte {
+	contents := [][]byte{pdfscan.DictValue(object.dict, "Contents")}
+	if value := pdfscan.Lookup(object.dict, "Contents", pdf.GetObject); len(value) > 0 && value[0] == '[' {
+		contents = pdfscan.ArrayItems(value)
 	}
 
-	// Parse numbers from array
-	parts := strings.Fields(match[1])
-	var values []float64
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			values = append(values, val)
+	var content []byte
+	for _, ref := range contents {
+		objNum, _, ok := pdfscan.Reference(ref, 0)
+		if !ok {
+			continue
 		}
-	}
-	return values
-}
-
-func parseObjectRefArray(arrStr string) []string {
-	// Remove brackets if present
-	arrStr = strings.TrimSpace(arrStr)
-	arrStr = strings.TrimPrefix(arrStr, "[")
-	arrStr = strings.TrimSuffix(arrStr, "]")
-
-	// Split by references (pattern: "5 0 R")
-	pattern := regexp.MustCompile(`(\d+)\s+\d+\s+R`)
-	matches := pattern.FindAllStringSubmatch(arrStr, -1)
-
-	var refs []string
-	for _, match := range matches {
-		if len(match) > 0 {
-			refs = append(refs, match[0])
+		_, data, err := pdf.StreamData(objNum)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to read content stream %d: %v\n", objNum, err)
+			}
+			continue
 		}
+		content = append(append(content, data...), '\n')
 	}
-
-	return refs
+	return content
 }
-
-// parseContentStream is implemented in content_stream.go
-
-// extractResources is implemented in resources.go
-
-// extractAnnotations is implemented in annotations.go
diff --git a/content/extract/resources.go b/content/extract/resources.go
index ae9a6dc..6a6570c 100644
--- a/content/extract/resources.go
+++ b/content/extract/resources.go
@@ -1,18 +1,18 @@
 package extract
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // extractResources extracts resources from a Resources dictionary
-func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.PageResources {
-	resources := &types.PageResources{
+func extractResources(resources []byte, pdf *parse.PDF, verbose bool) *types.PageResources {
+	result := &types.PageResources{
 		Fonts:       make(map[string]types.FontInfo),
 		Images:      make(map[string]types.Image),
 		XObjects:    make(map[string]types.XObject),
@@ -22,595 +22,146 @@ func extractResources(resourcesStr string, pdf *parse.PDF, verbose bool) *types.
 	}
 
 	// Extract fonts
-	fontsDict := extractFontsDict(resourcesStr, pdf, verbose)
-	if fontsDict != nil {
-		resources.Fonts = fontsDict
-	}
-
-	// Extract XObjects (images and forms)
-	xobjectsDict := extractXObjectsDict(resourcesStr, pdf, verbose)
-	if xobjectsDict != nil {
-		resources.XObjects = xobjectsDict
-		// Also populate Images from XObjects (for metadata)
-		// Note: Binary data extraction is done separately via extractImageData()
-		for name, xobj := range xobjectsDict {
-			if xobj.Subtype == "/Image" {
-				image := types.Image{
-					ID:     "/" + name,
-					Width:  int(xobj.Width),
-					Height: int(xobj.Height),
-					Format: "unknown", // Will be determined when extracting actual image data
-				}
-				resources.Images[name] = image
+	for _, entry := range resourceEntries(resources, "Font", pdf) {
+		font := pdfscan.Resolve(entry.Value, pdf.GetObject)
+		if !bytes.HasPrefix(font, []byte("<<")) {
+			if verbose {
+				fmt.Printf("Warning: font /%s is not a dictionary\n", entry.Key)
 			}
+			continue
 		}
+		fontInfo := extractFontInfo(font, pdf)
+		fontInfo.ID = "/" + entry.Key
+		result.Fonts[entry.Key] = fontInfo
 	}
 
-	return resources
-}
-
-// extractFontsDict extracts font information from /Resources/Font dictionary
-func extractFontsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.FontInfo {
-	fonts := make(map[string]types.FontInfo)
-
-	if verbose {
-		fmt.Printf("Extracting fonts from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
-	}
-
-	// Find /Font dictionary - handle both << >> and inline formats
-	// Pattern: /Font<<...>> or /Font <<...>>
-	// First try simple pattern
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
-
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			// Find the << after /Font
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
+	// Extract XObjects (images and forms)
+	for _, entry := range resourceEntries(resources, "XObject", pdf) {
+		dict := pdfscan.Resolve(entry.Value, pdf.GetObject)
+		xobject := types.XObject{
+			ID:      "/" + entry.Key,
+			Type:    "XObject",
+			Subtype: pdfscan.LookupName(dict, "Subtype", pdf.GetObject),
+		}
+		if xobject.Subtype == "" {
+			if verbose {
+				fmt.Printf("Warning: XObject /%s has no subtype\n", entry.Key)
 			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				// Find matching >>
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
+			continue
+		}
+		if matrix := pdfscan.LookupNumbers(dict, "Matrix", pdf.GetObject); len(matrix) == 6 {
+			xobject.Matrix = [6]float64(matrix)
+		}
+		if xobject.Subtype == "/Image" {
+			// Also populate Images from XObjects (for metadata)
+			// Note: Binary data extraction is done separately via extractImageData()
+			image := imageInfo(dict, pdf)
+			image.ID = xobject.ID
+			if objNum, _, ok := pdfscan.Reference(entry.Value, 0); ok {
+				image.Metadata = map[string]interface{}{"object_number": objNum}
 			}
+			result.Images[entry.Key] = image
+			xobject.Width, xobject.Height = float64(image.Width), float64(image.Height)
 		}
+		result.XObjects[entry.Key] = xobject
 	}
 
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources\n")
-		}
-		return fonts
-	}
-
-	fontDictStr := fontMatch[1]
-	if verbose {
-		fmt.Printf("Found Font dictionary: %s\n", fontDictStr)
-	}
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	if verbose {
-		fmt.Printf("Found %d font entries\n", len(fontEntries))
-	}
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		fontInfo := extractFontInfo(fontObjNum, pdf, verbose)
-		if fontInfo != nil {
-			fontInfo.ID = "/" + fontName
-			fonts[fontName] = *fontInfo
-		}
-	}
-
-	return fonts
+	return result
 }
 
-// extractFontInfo extracts information from a font dictionary object
-func extractFontInfo(fontObjNum int, pdf *parse.PDF, verbose bool) *types.FontInfo {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
-		}
-		return nil
-	}
-
-	fontStr := string(fontObj)
-	fontInfo := &types.FontInfo{
-		Embedded: false,
-	}
-
-	// Extract Subtype (Type1, TrueType, Type0, etc.)
-	// Try both /Subtype and Subtype (with and without leading /)
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "" {
-		subtype = extractDictValue(fontStr, "Subtype")
-	}
-	if subtype != "" {
-		fontInfo.Subtype = subtype
-		// Ensure it starts with /
-		if !strings.HasPrefix(fontInfo.Subtype, "/") {
-			fontInfo.Subtype = "/" + fontInfo.Subtype
-		}
-	} else {
-		fontInfo.Subtype = "Unknown"
-	}
-
-	// Extract BaseFont
-	baseFont := extractDictValue(fontStr, "/BaseFont")
-	if baseFont == "" {
-		baseFont = extractDictValue(fontStr, "BaseFont")
-	}
-	if baseFont != "" {
-		fontInfo.Name = baseFont
-		// Remove leading / if present for family extraction
-		familyName := strings.TrimPrefix(baseFont, "/")
-		// Try to extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
-		parts := strings.Split(familyName, "-")
-		if len(parts) > 0 {
-			fontInfo.Family = parts[0]
-		}
-	}
-
-	// Extract Encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		fontInfo.Encoding = encoding
-	}
-
-	// Check if font is embedded (has FontDescriptor with FontFile, FontFile2, or FontFile3)
-	if strings.Contains(fontStr, "/FontFile") || strings.Contains(fontStr, "/FontFile2") || strings.Contains(fontStr, "/FontFile3") {
-		fontInfo.Embedded = true
-	}
-
-	// Check for ToUnicode CMap
-	if strings.Contains(fontStr, "/ToUnicode") {
-		fontInfo.ToUnicode = true
-	}
-
-	// Extract FontDescriptor for more info
-	fontDescriptorRef := extractDictValue(fontStr, "/FontDescriptor")
-	if fontDescriptorRef != "" {
-		descObjNum, err := parseObjectRef(fontDescriptorRef)
-		if err == nil {
-			descObj, err := pdf.GetObject(descObjNum)
-			if err == nil {
-				descStr := string(descObj)
-				// Check for embedded font files in descriptor
-				if strings.Contains(descStr, "/FontFile") || strings.Contains(descStr, "/FontFile2") || strings.Contains(descStr, "/FontFile3") {
-					fontInfo.Embedded = true
-				}
-				// Extract font family name if available
-				fontFamily := extractDictValue(descStr, "/FontFamily")
-				if fontFamily != "" {
-					fontInfo.Family = fontFamily
-				}
-			}
-		}
-	}
-
-	return fontInfo
-}
-
-// extractXObjectsDict extracts XObject information from /Resources/XObject dictionary
-func extractXObjectsDict(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]types.XObject {
-	xobjects := make(map[string]types.XObject)
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 == nil {
-			return xobjects
-		}
-		xobjMatch = xobjMatch2
-	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
-	return xobjects
+// resourceEntries returns the entries of one category of a Resources dictionary.
+func resourceEntries(resources []byte, category string, pdf *parse.PDF) []pdfscan.Entry {
+	return pdfscan.Entries(pdfscan.LookupDict(resources, category, pdf.GetObject))
 }
 
-// extractXObjectsDictWithObjNums extracts XObject information with object numbers
-func extractXObjectsDictWithObjNums(resourcesStr string, pdf *parse.PDF, verbose bool) (map[string]types.XObject, map[string]int) {
-	xobjects := make(map[string]types.XObject)
-	objNums := make(map[string]int) // image name -> object number
-
-	// Find /XObject dictionary
-	xobjPattern := regexp.MustCompile(`/XObject\s*<<([^>]*)>>`)
-	xobjMatch := xobjPattern.FindStringSubmatch(resourcesStr)
-	if xobjMatch == nil {
-		// Try without << >> (inline dictionary)
-		xobjPattern2 := regexp.MustCompile(`/XObject\s*<<([^>]+)`)
-		xobjMatch2 := xobjPattern2.FindStringSubmatch(resourcesStr)
-		if xobjMatch2 != nil {
-			xobjMatch = xobjMatch2
-		} else {
-			return xobjects, objNums
-		}
+// extractFontInfo extracts information from a font dictionary
+func extractFontInfo(font []byte, pdf *parse.PDF) types.FontInfo {
+	fontInfo := types.FontInfo{
+		Subtype:   pdfscan.LookupName(font, "Subtype", pdf.GetObject),
+		Name:      pdfscan.LookupName(font, "BaseFont", pdf.GetObject),
+		Encoding:  pdfscan.LookupName(font, "Encoding", pdf.GetObject),
+		ToUnicode: pdfscan.Lookup(font, "ToUnicode", pdf.GetObject) != nil,
 	}
-
-	xobjDictStr := xobjMatch[1]
-
-	// Parse XObject entries: /Im1 5 0 R /Im2 6 0 R ...
-	xobjEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	xobjEntries := xobjEntryPattern.FindAllStringSubmatch(xobjDictStr, -1)
-
-	for _, entry := range xobjEntries {
-		xobjName := entry[1]
-		xobjObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-		objNums[xobjName] = xobjObjNum
-
-		xobj := extractXObjectInfo(xobjObjNum, pdf, verbose)
-		if xobj != nil {
-			xobj.ID = "/" + xobjName
-			xobjects[xobjName] = *xobj
-		}
-	}
-
-	return xobjects, objNums
-}
-
-// extractXObjectInfo extracts information from an XObject dictionary
-func extractXObjectInfo(xobjObjNum int, pdf *parse.PDF, verbose bool) *types.XObject {
-	xobjObj, err := pdf.GetObject(xobjObjNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get XObject %d: %v\n", xobjObjNum, err)
-		}
-		return nil
-	}
-
-	xobjStr := string(xobjObj)
-	xobject := &types.XObject{
-		Type: "XObject",
-	}
-
-	// Extract Subtype
-	subtype := extractDictValue(xobjStr, "/Subtype")
-	if subtype == "" {
-		return nil
-	}
-	xobject.Subtype = subtype
-
-	// For Image XObjects, extract dimensions
-	if subtype == "/Image" {
-		// Extract Width and Height
-		widthStr := extractDictValue(xobjStr, "/Width")
-		heightStr := extractDictValue(xobjStr, "/Height")
-		if widthStr != "" {
-			if w, err := strconv.ParseFloat(widthStr, 64); err == nil {
-				xobject.Width = w
-			}
-		}
-		if heightStr != "" {
-			if h, err := strconv.ParseFloat(heightStr, 64); err == nil {
-				xobject.Height = h
-			}
-		}
+	if fontInfo.Subtype == "" {
+		fontInfo.Subtype = "Unknown"
 	}
-
-	return xobject
-}
-
-// extractImageDataWithBinary extracts image with full binary data
-// This is a helper that calls extractImageData from images.go
-func extractImageDataWithBinary(imageObjNum int, pdf *parse.PDF, verbose bool) (*types.Image, error) {
-	return extractImageData(imageObjNum, pdf, verbose)
-}
-
-// extractFontDecoders extracts font decoders for text extraction from a Resources string
-func extractFontDecoders(resourcesStr string, pdf *parse.PDF, verbose bool) map[string]*FontDecoder {
-	decoders := make(map[string]*FontDecoder)
-
-	if verbose {
-		fmt.Printf("Extracting font decoders from Resources string: %s\n", resourcesStr[:min(200, len(resourcesStr))])
+	if fontInfo.Encoding == "" {
+		encoding := pdfscan.LookupDict(font, "Encoding", pdf.GetObject)
+		fontInfo.Encoding = pdfscan.LookupName(encoding, "BaseEncoding", pdf.GetObject)
 	}
 
-	// Find /Font dictionary - handle both << >> and inline formats
-	fontPattern := regexp.MustCompile(`/Font\s*<<([^>]*)>>`)
-	fontMatch := fontPattern.FindStringSubmatch(resourcesStr)
+	// Try to extract family name from BaseFont (e.g., "Helvetica-Bold" -> "Helvetica")
+	fontInfo.Family, _, _ = strings.Cut(strings.TrimPrefix(fontInfo.Name, "/"), "-")
 
-	if fontMatch == nil {
-		// Try finding /Font followed by << with balanced brackets
-		fontIdx := strings.Index(resourcesStr, "/Font")
-		if fontIdx != -1 {
-			dictStart := fontIdx + 5
-			for dictStart < len(resourcesStr) && (resourcesStr[dictStart] == ' ' || resourcesStr[dictStart] == '\n' || resourcesStr[dictStart] == '\r') {
-				dictStart++
-			}
-			if dictStart < len(resourcesStr) && resourcesStr[dictStart] == '<' && dictStart+1 < len(resourcesStr) && resourcesStr[dictStart+1] == '<' {
-				dictEnd := dictStart + 2
-				depth := 1
-				for dictEnd < len(resourcesStr) && depth > 0 {
-					if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '>' && resourcesStr[dictEnd+1] == '>' {
-						depth--
-						if depth == 0 {
-							fontDictStr := resourcesStr[dictStart+2 : dictEnd]
-							fontMatch = []string{"", fontDictStr}
-							break
-						}
-						dictEnd += 2
-					} else if dictEnd+1 < len(resourcesStr) && resourcesStr[dictEnd] == '<' && resourcesStr[dictEnd+1] == '<' {
-						depth++
-						dictEnd += 2
-					} else {
-						dictEnd++
-					}
-				}
-			}
-		}
+	// The descriptor of a composite font is that of its descendant
+	descriptor := pdfscan.LookupDict(font, "FontDescriptor", pdf.GetObject)
+	if descendants := pdfscan.ArrayItems(pdfscan.Lookup(font, "DescendantFonts", pdf.GetObject)); descriptor == nil && len(descendants) > 0 {
+		descendant := pdfscan.Resolve(descendants[0], pdf.GetObject)
+		descriptor = pdfscan.LookupDict(descendant, "FontDescriptor", pdf.GetObject)
 	}
-
-	if fontMatch == nil {
-		if verbose {
-			fmt.Printf("No /Font dictionary found in Resources for decoder extraction\n")
+	for _, key := range []string{"FontFile", "FontFile2", "FontFile3"} {
+		if pdfscan.Lookup(descriptor, key, pdf.GetObject) != nil {
+			fontInfo.Embedded = true
 		}
-		return decoders
 	}
-
-	fontDictStr := fontMatch[1]
-
-	// Parse font entries: /F1 5 0 R /F2 6 0 R ...
-	fontEntryPattern := regexp.MustCompile(`/(\w+)\s+(\d+)\s+\d+\s+R`)
-	fontEntries := fontEntryPattern.FindAllStringSubmatch(fontDictStr, -1)
-
-	for _, entry := range fontEntries {
-		fontName := entry[1]
-		fontObjNum, _ := parseObjectRef(entry[2] + " 0 R")
-
-		decoder := extractFontDecoder(fontObjNum, fontName, pdf, verbose)
-		if decoder != nil {
-			decoders["/"+fontName] = decoder
-		}
+	if family := pdfscan.LookupText(descriptor, "FontFamily", pdf.GetObject); family != "" {
+		fontInfo.Family = family
 	}
 
-	return decoders
+	return fontInfo
 }
 
-// extractFontDecoder creates a FontDecoder for a font object
-func extractFontDecoder(fontObjNum int, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
-	fontObj, err := pdf.GetObject(fontObjNum)
-	if err != nil {
+// fontDecoder creates the FontDecoder for a font of a Resources dictionary, or
+// returns nil if there is no such font.
+func fontDecoder(resources []byte, fontName string, pdf *parse.PDF, verbose bool) *FontDecoder {
+	fonts := pdfscan.LookupDict(resources, "Font", pdf.GetObject)
+	font := pdfscan.LookupDict(fonts, strings.TrimPrefix(fontName, "/"), pdf.GetObject)
+	if font == nil {
 		if verbose {
-			fmt.Printf("Warning: failed to get font object %d: %v\n", fontObjNum, err)
+			fmt.Printf("Warning: font %s not found in resources\n", fontName)
 		}
 		return nil
 	}
-
-	fontStr := string(fontObj)
 	decoder := NewFontDecoder(fontName)
 
-	// Extract and set base encoding
-	encoding := extractDictValue(fontStr, "/Encoding")
-	if encoding != "" {
-		// Check if encoding is a name (e.g., /WinAnsiEncoding) or a reference
-		if strings.HasPrefix(encoding, "/") {
-			decoder.SetBaseEncoding(encoding)
-		} else {
-			// Encoding might be a reference to an encoding dictionary
-			encodingObjNum, err := parseObjectRef(encoding)
-			if err == nil {
-				encodingObj, err := pdf.GetObject(encodingObjNum)
-				if err == nil {
-					encodingStr := string(encodingObj)
-
-					// Extract BaseEncoding from encoding dictionary
-					baseEnc := extractDictValue(encodingStr, "/BaseEncoding")
-					if baseEnc != "" {
-						decoder.SetBaseEncoding(baseEnc)
-					}
-
-					// Extract Differences array
-					diffsStr := extractDifferencesArray(encodingStr)
-					if diffsStr != "" {
-						decoder.ParseDifferencesArray(diffsStr)
-					}
-				}
+	if pdfscan.LookupName(font, "Subtype", pdf.GetObject) == "/Type0" {
+		// Composite font: the encoding is a CMap, predefined or embedded
+		decoder.codeWidth = 2
+		if objNum, _, ok := pdfscan.Reference(pdfscan.DictValue(font, "Encoding"), 0); ok {
+			if _, cmap, err := pdf.StreamData(objNum); err == nil {
+				decoder.parseCodespaces(string(cmap))
 			}
 		}
 	} else {
-		// Check for implicit encoding based on font type
-		subtype := extractDictValue(fontStr, "/Subtype")
-		baseFont := extractDictValue(fontStr, "/BaseFont")
-
-		// Standard 14 fonts use StandardEncoding by default
-		if isStandard14Font(baseFont) {
-			decoder.SetBaseEncoding("StandardEncoding")
-		} else if subtype == "/Type1" || subtype == "/TrueType" {
-			// Type1 and TrueType default to StandardEncoding
+		decoder.codeWidth = 1
+		encoding := pdfscan.Lookup(font, "Encoding", pdf.GetObject)
+		base := pdfscan.LookupName(font, "Encoding", pdf.GetObject)
+		if bytes.HasPrefix(encoding, []byte("<<")) {
+			base = pdfscan.LookupName(encoding, "BaseEncoding", pdf.GetObject)
+		}
+		decoder.SetBaseEncoding(base)
+		if len(decoder.baseEncoding) == 0 {
+			// No encoding named: that of the font program, StandardEncoding for
+			// most fonts
 			decoder.SetBaseEncoding("StandardEncoding")
 		}
-	}
-
-	// Handle Differences array in inline encoding
-	diffsStr := extractDifferencesArray(fontStr)
-	if diffsStr != "" {
-		decoder.ParseDifferencesArray(diffsStr)
+		decoder.ParseDifferencesArray(string(pdfscan.Lookup(encoding, "Differences", pdf.GetObject)))
 	}
 
 	// Extract ToUnicode CMap (highest priority for text decoding)
-	toUnicodeRef := extractDictValue(fontStr, "/ToUnicode")
-	if toUnicodeRef != "" {
-		toUnicodeObjNum, err := parseObjectRef(toUnicodeRef)
-		if err == nil {
-			cmapData := extractStreamData(toUnicodeObjNum, pdf, verbose)
-			if cmapData != "" {
-				decoder.ParseToUnicodeCMap(cmapData)
-				if verbose {
-					fmt.Printf("Parsed ToUnicode CMap for font %s with %d mappings\n", fontName, len(decoder.toUnicode))
-				}
-			}
-		}
-	}
-
-	// For Type0 (CID) fonts, extract the descendant font's encoding
-	subtype := extractDictValue(fontStr, "/Subtype")
-	if subtype == "/Type0" {
-		descendantFontsRef := extractDictValue(fontStr, "/DescendantFonts")
-		if descendantFontsRef != "" {
-			// Parse array of references
-			refs := parseObjectRefArray(descendantFontsRef)
-			if len(refs) > 0 {
-				descFontObjNum, err := parseObjectRef(refs[0])
-				if err == nil {
-					descFontObj, err := pdf.GetObject(descFontObjNum)
-					if err == nil {
-						// Check for CIDToGIDMap, which might give us Unicode mappings
-						descFontStr := string(descFontObj)
-						if verbose {
-							fmt.Printf("Type0 descendant font: %s\n", descFontStr[:min(200, len(descFontStr))])
-						}
-					}
-				}
+	if objNum, _, ok := pdfscan.Reference(pdfscan.DictValue(font, "ToUnicode"), 0); ok {
+		_, cmap, err := pdf.StreamData(objNum)
+		if err != nil {
+			if verbose {
+				fmt.Printf("Warning: failed to read ToUnicode CMap of font %s: %v\n", fontName, err)
 			}
+			return decoder
 		}
-	}
-
-	return decoder
-}
-
-// extractDifferencesArray extracts the Differences array from an encoding dictionary or font
-func extractDifferencesArray(str string) string {
-	// Find /Differences array
-	diffIdx := strings.Index(str, "/Differences")
-	if diffIdx == -1 {
-		return ""
-	}
-
-	// Find the opening bracket
-	bracketStart := strings.Index(str[diffIdx:], "[")
-	if bracketStart == -1 {
-		return ""
-	}
-	bracketStart += diffIdx
-
-	// Find matching closing bracket
-	depth := 1
-	bracketEnd := bracketStart + 1
-	for bracketEnd < len(str) && depth > 0 {
-		if str[bracketEnd] == '[' {
-			depth++
-		} else if str[bracketEnd] == ']' {
-			depth--
-		}
-		bracketEnd++
-	}
-
-	if depth == 0 {
-		return str[bracketStart:bracketEnd]
-	}
-	return ""
-}
-
-// extractStreamData extracts and decompresses stream data from a stream object
-func extractStreamData(objNum int, pdf *parse.PDF, verbose bool) string {
-	obj, err := pdf.GetObject(objNum)
-	if err != nil {
-		if verbose {
-			fmt.Printf("Warning: failed to get stream object %d: %v\n", objNum, err)
-		}
-		return ""
-	}
-
-	objStr := string(obj)
-
-	// Check if this is a stream object
-	streamIdx := strings.Index(objStr, "stream")
-	if streamIdx == -1 {
-		return ""
-	}
-
-	// Check for FlateDecode filter
-	isCompressed := strings.Contains(objStr, "/FlateDecode")
-
-	// Extract stream data
-	dataStart := streamIdx + 6 // Skip "stream"
-	// Skip EOL after "stream"
-	if dataStart < len(objStr) && (objStr[dataStart] == '\r' || objStr[dataStart] == '\n') {
-		dataStart++
-	}
-	if dataStart < len(objStr) && objStr[dataStart] == '\n' {
-		dataStart++
-	}
-
-	endstreamIdx := strings.Index(objStr[dataStart:], "endstream")
-	if endstreamIdx == -1 {
-		return ""
-	}
-
-	streamData := []byte(objStr[dataStart : dataStart+endstreamIdx])
-
-	// Decompress if needed
-	if isCompressed {
-		decompressed, err := parse.DecodeFlateDecode(streamData)
-		if err == nil {
-			return string(decompressed)
-		}
+		decoder.ParseToUnicodeCMap(string(cmap))
 		if verbose {
-			fmt.Printf("Warning: failed to decompress stream %d: %v\n", objNum, err)
+			fmt.Printf("Parsed ToUnicode CMap for font %s with %d mappings\n", fontName, len(decoder.toUnicode))
 		}
 	}
 
-	return string(streamData)
-}
-
-// isStandard14Font checks if a font is one of the standard 14 PDF fonts
-func isStandard14Font(baseFont string) bool {
-	baseFont = strings.TrimPrefix(baseFont, "/")
-	standard14 := []string{
-		"Courier", "Courier-Bold", "Courier-BoldOblique", "Courier-Oblique",
-		"Helvetica", "Helvetica-Bold", "Helvetica-BoldOblique", "Helvetica-Oblique",
-		"Times-Roman", "Times-Bold", "Times-BoldItalic", "Times-Italic",
-		"Symbol", "ZapfDingbats",
-	}
-	for _, name := range standard14 {
-		if baseFont == name {
-			return true
-		}
-	}
-	return false
+	return decoder
 }
diff --git a/types/content_types.go b/types/content_types.go
index 1346a26..49127ab 100644
--- a/types/content_types.go
+++ b/types/content_types.go
@@ -177,6 +177,9 @@ type ImageRef struct {
 	Width     float64    `json:"width"`               // Display width in points
 	Height    float64    `json:"height"`              // Display height in points
 	Transform [6]float64 `json:"transform,omitempty"` // Transformation matrix
+
+	// Object number of the image, 0 if the resources have no such image
+	ObjectNumber int `json:"object_number,omitempty"`
 }
 
 // FontInfo represents font information
-- 
2.43.0


From a0cb1aed03504052d0b77a21e1a479ca3e22343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 10/41] fix: authenticate and decrypt by the standard security
 handler's algorithms

Passwords are padded with the standard string, owner passwords of revision 3
and 4 are recovered with twenty RC4 rounds, AES-256 files of revision 5 and 6
are opened by the ISO algorithms, crypt filters choose the method, and the
encryption dictionary is read from the newest trailer with its strings
decoded. A document whose encryption cannot be handled is refused.
---
 core/encrypt/aes256.go         | 101 +++++++++
 core/encrypt/decrypt.go        | 248 ++++++++++++++------
 core/encrypt/key_derivation.go |  63 +++---
 core/encrypt/parser.go         | 399 +++++++++++++--------------------
 core/parse/api.go              |  50 +++--
 core/parse/decrypt_object.go   |   7 +-
 core/parse/incremental.go      |  26 ++-
 core/parse/object_stream.go    |   2 +-
 types/types.go                 |   7 +
 9 files changed, 529 insertions(+), 374 deletions(-)
 create mode 100644 core/encrypt/aes256.go

diff --git a/core/encrypt/aes256.go b/core/encrypt/aes256.go
new file mode 100644
index 0000000..46884b1
--- /dev/null
+++ b/core/encrypt/aes256.go
@@ -0,0 +1,101 @@
+package encrypt
+
+import (
+	"bytes"
+	"crypto/aes"
+	"crypto/cipher"
+	"crypto/sha256"
+	"crypto/sha512"
+	"fmt"
+
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// fileKeyAES256 verifies a user or owner password of a revision 5 or 6 file
+// and returns the file's encryption key, or nil if the password is wrong
+// (Algorithm 2.A from ISO 32000-2)
+func fileKeyAES256(password []byte, encrypt *types.PDFEncryption) ([]byte, error) {
+	if len(encrypt.U) < 48 || len(encrypt.O) < 48 {
+		return nil, fmt.Errorf("U or O value too short: %d and %d bytes", len(encrypt.U), len(encrypt.O))
+	}
+	u, o := encrypt.U[:48], encrypt.O[:48]
+	if bytes.Equal(HashAES256(password, o[32:40], u, encrypt.R), o[:32]) {
+		return unwrapAES256(HashAES256(password, o[40:48], u, encrypt.R), encrypt.OE)
+	}
+	if bytes.Equal(HashAES256(password, u[32:40], nil, encrypt.R), u[:32]) {
+		return unwrapAES256(HashAES256(password, u[40:48], nil, encrypt.R), encrypt.UE)
+	}
+	return nil, nil
+}
+
+// unwrapAES256 decrypts the file's encryption key
+func unwrapAES256(key, wrapped []byte) ([]byte, error) {
+	if len(wrapped) != 32 {
+		return nil, fmt.Errorf("encrypted key has %d bytes (expected 32)", len(wrapped))
+	}
+	block, err := aes.NewCipher(key)
+	if err != nil {
+		return nil, err
+	}
+	unwrapped := make([]byte, 32)
+	cipher.NewCBCDecrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(unwrapped, wrapped)
+	return unwrapped, nil
+}
+
+// HashAES256 computes the hash of a password and salt for a revision 5 or 6
+// file (Algorithm 2.B from ISO 32000-2). userKey is the 48-byte U value when
+// the owner password is hashed. Only the first 127 bytes of a password count.
+func HashAES256(password, salt, userKey []byte, revision int) []byte {
+	password = password[:min(127, len(password))]
+	input := append(append(append([]byte{}, password...), salt...), userKey...)
+	first := sha256.Sum256(input)
+	k := first[:]
+	if revision < 6 {
+		return k
+	}
+
+	for round := 0; ; round++ {
+		k1 := bytes.Repeat(append(append(append([]byte{}, password...), k...), userKey...), 64)
+		block, err := aes.NewCipher(k[:16])
+		if err != nil {
+			return nil
+		}
+		cipher.NewCBCEncrypter(block, k[16:32]).CryptBlocks(k1, k1)
+		sum := 0
+		for _, b := range k1[:16] {
+			sum += int(b)
+		}
+		switch sum % 3 {
+		case 0:
+			hash := sha256.Sum256(k1)
+			k = hash[:]
+		case 1:
+			hash := sha512.Sum384(k1)
+			k = hash[:]
+		default:
+			hash := sha512.Sum512(k1)
+			k = hash[:]
+		}
+		if round >= 63 && int(k1[len(k1)-1]) <= round-31 {
+			return k[:32]
+		}
+	}
+}
+
+// verifyOValueV5 verifies an owner password against the O value of a file
+// written by an earlier version of this package
+func verifyOValueV5(password, passwordKey []byte, encrypt *types.PDFEncryption) bool {
+	if len(encrypt.O) < 48 || len(encrypt.U) < 48 {
+		return false
+	}
+	input := append(append(append([]byte{}, password...), encrypt.O[:8]...), encrypt.U[:48]...)
+	hash := sha256.Sum256(input)
+	block, err := aes.NewCipher(passwordKey[:16])
+	if err != nil {
+		return false
+	}
+	encrypted := make([]byte, 32)
+	block.Encrypt(encrypted[:16], hash[:16])
+	block.Encrypt(encrypted[16:], hash[16:])
+	return bytes.Equal(encrypted, encrypt.O[8:40])
+}
diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..8e4b882 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -8,6 +8,7 @@ import (
 	"crypto/rc4"
 	"log"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -28,14 +29,49 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 	// Extract file ID from PDF trailer (needed for key derivation and U value computation)
 	fileID := ExtractFileID(pdfBytes, verbose)
 
+	if err := Authenticate(encrypt, fileID, password, verbose); err != nil {
+		return nil, nil, err
+	}
+
+	if verbose {
+		log.Printf("Password verified successfully")
+	}
+
+	// Decrypt PDF objects
+	decryptedPDF, err := DecryptPDFObjects(pdfBytes, encrypt, verbose)
+	if err != nil {
+		return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error decrypting PDF objects", err)
+	}
+
+	return decryptedPDF, encrypt, nil
+}
+
+// Authenticate verifies a password, which may be the user or the owner
+// password, and establishes the encryption key.
+func Authenticate(encrypt *types.PDFEncryption, fileID, password []byte, verbose bool) error {
 	// For V5/R5/R6, we need to unwrap the encryption key from /UE
 	var encryptKey []byte
+	var err error
 
-	if encrypt.R >= 5 {
+	if encrypt.R >= 5 && len(encrypt.UE) == 32 {
+		key, err := fileKeyAES256(password, encrypt)
+		if err != nil {
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error verifying password", err)
+		}
+		if key == nil {
+			return types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+		}
+		encrypt.EncryptKey = key
+		if encrypt.CryptFilters == nil {
+			encrypt.StreamMethod, encrypt.StringMethod = MethodAES256, MethodAES256
+		}
+	} else if encrypt.R >= 5 {
+		// Files of earlier versions of this package, with wrapped keys of
+		// their own kind.
 		// V5: Derive password key, verify U value, then unwrap actual encryption key from /UE
 		passwordKey, err := DeriveEncryptionKey(password, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error deriving password key", err)
 		}
 
 		if verbose {
@@ -45,7 +81,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// Step 1: Verify U value to confirm password is correct
 		uMatch, err := VerifyUValueV5(password, passwordKey, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error verifying U value", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error verifying U value", err)
 		}
 
 		if !uMatch {
@@ -54,17 +90,14 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				log.Printf("User password U value verification failed, trying owner password...")
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
-			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
+			if err2 == nil && verifyOValueV5(password, ownerPasswordKey, encrypt) {
 				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
 				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
 					// The unwrapped owner key is the user encryption key
 					encryptKey = ownerKey
 					encrypt.EncryptKey = encryptKey
 					if verbose {
-						log.Printf("Owner password verified via /OE unwrapping")
+						log.Printf("Owner password verified")
 						log.Printf("Unwrapped encryption key (length: %d)", len(encryptKey))
 					}
 					uMatch = true
@@ -73,14 +106,14 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		if !uMatch {
-			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+			return types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
 		}
 
 		// Step 2: Unwrap the actual encryption key from /UE (only if user password was used)
 		if encryptKey == nil {
 			unwrappedKey, err := UnwrapUserKeyV5(passwordKey, encrypt, verbose)
 			if err != nil {
-				return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /UE", err)
+				return types.WrapError(types.ErrCodeDecryptionFailed, "error unwrapping encryption key from /UE", err)
 			}
 
 			encryptKey = unwrappedKey
@@ -97,7 +130,7 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// V1-V4: Standard key derivation
 		encryptKey, err = DeriveEncryptionKey(password, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error deriving encryption key", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error deriving encryption key", err)
 		}
 
 		encrypt.EncryptKey = encryptKey
@@ -109,17 +142,17 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		// Verify password by checking U value
 		uValue, err := ComputeUValue(encryptKey, encrypt, fileID, verbose)
 		if err != nil {
-			return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error computing U value", err)
+			return types.WrapError(types.ErrCodeDecryptionFailed, "error computing U value", err)
 		}
 
 		// Compare with stored U value
-		// For revision 2: compare first 16 bytes
+		// For revision 2: compare all 32 bytes
 		// For revision 3-4: compare first 16 bytes (the encrypted hash)
 		// Note: U value is 32 bytes for revision 3-4, but only first 16 are used for verification
 		uMatch := false
 		if len(encrypt.U) >= 16 && len(uValue) >= 16 {
 			if encrypt.R == 2 {
-				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
+				uMatch = bytes.Equal(uValue, encrypt.U[:min(32, len(encrypt.U))])
 			} else {
 				// For revision 3-4, compare first 16 bytes
 				uMatch = bytes.Equal(uValue[:16], encrypt.U[:16])
@@ -162,21 +195,11 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 		}
 
 		if !uMatch {
-			return nil, nil, types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
+			return types.NewPDFError(types.ErrCodeWrongPassword, "password incorrect or encryption parameters invalid")
 		}
 	}
 
-	if verbose {
-		log.Printf("Password verified successfully")
-	}
-
-	// Decrypt PDF objects
-	decryptedPDF, err := DecryptPDFObjects(pdfBytes, encrypt, verbose)
-	if err != nil {
-		return nil, nil, types.WrapError(types.ErrCodeDecryptionFailed, "error decrypting PDF objects", err)
-	}
-
-	return decryptedPDF, encrypt, nil
+	return nil
 }
 
 // DecryptPDFObjects decrypts all encrypted objects in the PDF
@@ -199,64 +222,55 @@ func DecryptPDFObjects(pdfBytes []byte, encrypt *types.PDFEncryption, verbose bo
 // Algorithm 1 from ISO 32000-1:2008
 // Implementation copied EXACTLY from PyPDF's _make_crypt_filter (lines 914-935) and CryptAES.decrypt (lines 73-88)
 func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
-	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
-		// Not encrypted
+	if encrypt == nil {
 		return objBytes, nil
 	}
+	return decryptData(objBytes, objNum, genNum, encrypt, StreamMethod(encrypt))
+}
 
-	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
-	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
-	// [:3] takes first 3 bytes (low-order bytes)
-	pack1 := make([]byte, 3)
-	pack1[0] = byte(objNum & 0xff)
-	pack1[1] = byte((objNum >> 8) & 0xff)
-	pack1[2] = byte((objNum >> 16) & 0xff)
-
-	// PyPDF line 915: pack2 = struct.pack("<i", generation)[:2]
-	pack2 := make([]byte, 2)
-	pack2[0] = byte(genNum & 0xff)
-	pack2[1] = byte((genNum >> 8) & 0xff)
+// DecryptString decrypts a string of an object
+func DecryptString(data []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	if encrypt == nil {
+		return data, nil
+	}
+	return decryptData(data, objNum, genNum, encrypt, StringMethod(encrypt))
+}
 
-	// PyPDF line 919: n = 5 if self.V == 1 else self.Length // 8
-	n := 5
-	if encrypt.V > 1 {
-		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
+// DecryptStream decrypts the data of a stream, given its dictionary
+func DecryptStream(data, dict []byte, objNum, genNum int, encrypt *types.PDFEncryption) ([]byte, error) {
+	if encrypt == nil {
+		return data, nil
 	}
+	return decryptData(data, objNum, genNum, encrypt, StreamDictMethod(dict, encrypt))
+}
 
-	// PyPDF line 918: key = self._key
-	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
-	keyData := make([]byte, n+5)
-	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
+// decryptData decrypts a string or the data of a stream
+func decryptData(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryption, method string) ([]byte, error) {
+	if method == MethodIdentity || len(objBytes) == 0 {
+		return objBytes, nil
+	}
+	if encrypt == nil || len(encrypt.EncryptKey) == 0 {
+		// Not encrypted
+		return objBytes, nil
+	}
 
-	// PyPDF line 921: key_hash = hashlib.md5(key_data)
-	keyHash := md5.New()
-	keyHash.Write(keyData)
+	objectKey, err := ObjectKey(encrypt, objNum, genNum, method)
+	if err != nil {
+		return nil, err
+	}
 
 	// Decrypt based on encryption algorithm
-	if encrypt.V == 1 || encrypt.V == 2 {
+	if method == MethodRC4 {
 		// RC4 encryption
-		// PyPDF line 922: rc4_key = key_hash.digest()[: min(n + 5, 16)]
-		rc4KeyHash := keyHash.Sum(nil)
-		rc4Key := rc4KeyHash[:min(n+5, 16)]
-
-		cipher, err := rc4.NewCipher(rc4Key)
+		cipher, err := rc4.NewCipher(objectKey)
 		if err != nil {
 			return nil, err
 		}
 		decrypted := make([]byte, len(objBytes))
 		cipher.XORKeyStream(decrypted, objBytes)
 		return decrypted, nil
-	} else if encrypt.V == 4 || encrypt.V == 5 {
+	} else if method == MethodAES128 || method == MethodAES256 {
 		// AES encryption (AES-128 or AES-256)
-		// PyPDF line 925: key_hash.update(b"sAlT")
-		// PyPDF line 926: aes128_key = key_hash.digest()[: min(n + 5, 16)]
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
 		// PyPDF CryptAES.decrypt (lines 73-88):
 		// Line 74: iv = data[:16]
 		// Line 75: data = data[16:]
@@ -278,7 +292,7 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		}
 
 		// Line 85-87: cipher = Cipher(self.alg, CBC(iv)); decryptor = cipher.decryptor(); d = decryptor.update(data) + decryptor.finalize()
-		block, err := aes.NewCipher(aesKey)
+		block, err := aes.NewCipher(objectKey)
 		if err != nil {
 			return nil, err
 		}
@@ -293,12 +307,104 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		}
 
 		paddingLen := int(decrypted[len(decrypted)-1])
-		if paddingLen > len(decrypted) {
-			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d > %d", paddingLen, len(decrypted)).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
+		if paddingLen < 1 || paddingLen > 16 {
+			return decrypted, types.NewPDFErrorf(types.ErrCodeStreamError, "invalid padding length: %d", paddingLen).WithContext("padding_length", paddingLen).WithContext("data_length", len(decrypted))
 		}
 
 		return decrypted[:len(decrypted)-paddingLen], nil
 	}
 
-	return objBytes, nil
+	return nil, types.NewPDFErrorf(types.ErrCodeUnsupportedCrypto, "unsupported encryption method %s", method)
+}
+
+// ObjectKey derives the key for an object from the encryption key
+// (Algorithm 1 from ISO 32000-1:2008)
+func ObjectKey(encrypt *types.PDFEncryption, objNum, genNum int, method string) ([]byte, error) {
+	if method == MethodAES256 {
+		// The encryption key is used as it is
+		return encrypt.EncryptKey, nil
+	}
+
+	// PyPDF line 914: pack1 = struct.pack("<i", idnum)[:3]
+	// struct.pack("<i", idnum) packs as little-endian int32 (4 bytes)
+	// [:3] takes first 3 bytes (low-order bytes)
+	pack1 := make([]byte, 3)
+	pack1[0] = byte(objNum & 0xff)
+	pack1[1] = byte((objNum >> 8) & 0xff)
+	pack1[2] = byte((objNum >> 16) & 0xff)
+
+	// PyPDF line 915: pack2 = struct.pack("<i", generation)[:2]
+	pack2 := make([]byte, 2)
+	pack2[0] = byte(genNum & 0xff)
+	pack2[1] = byte((genNum >> 8) & 0xff)
+
+	// PyPDF line 919: n = 5 if self.V == 1 else self.Length // 8
+	n := 5
+	if encrypt.V > 1 {
+		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
+	}
+
+	// PyPDF line 918: key = self._key
+	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
+	if n > len(encrypt.EncryptKey) {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "encryption key too short: %d bytes", len(encrypt.EncryptKey))
+	}
+	keyData := make([]byte, n+5)
+	copy(keyData, encrypt.EncryptKey[:n]) // CRITICAL: Use only first n bytes!
+	copy(keyData[n:], pack1)
+	copy(keyData[n+3:], pack2)
+
+	// PyPDF line 921: key_hash = hashlib.md5(key_data)
+	keyHash := md5.New()
+	keyHash.Write(keyData)
+
+	// PyPDF line 925: key_hash.update(b"sAlT")
+	if method == MethodAES128 {
+		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
+	}
+	return keyHash.Sum(nil)[:min(n+5, 16)], nil
+}
+
+// StreamMethod returns the method that encrypts the streams of a document
+func StreamMethod(encrypt *types.PDFEncryption) string {
+	return defaultMethod(encrypt.StreamMethod, encrypt.V)
+}
+
+// StringMethod returns the method that encrypts the strings of a document
+func StringMethod(encrypt *types.PDFEncryption) string {
+	return defaultMethod(encrypt.StringMethod, encrypt.V)
+}
+
+// defaultMethod returns the method, or the one that belongs to V if it is empty
+func defaultMethod(method string, v int) string {
+	switch {
+	case method != "":
+		return method
+	case v == 4 || v == 5:
+		return MethodAES128
+	default:
+		return MethodRC4
+	}
+}
+
+// StreamDictMethod returns the method that encrypts a stream, which the
+// stream's own crypt filter may change
+func StreamDictMethod(dict []byte, encrypt *types.PDFEncryption) string {
+	if encrypt.V >= 4 && !encrypt.EncryptMetadata && nameValue(dict, "Type") == "Metadata" {
+		return MethodIdentity
+	}
+	filter, params := pdfscan.DictValue(dict, "Filter"), pdfscan.DictValue(dict, "DecodeParms")
+	if items := pdfscan.ArrayItems(filter); len(items) > 0 {
+		filter = items[0]
+		if items := pdfscan.ArrayItems(params); len(items) > 0 {
+			params = items[0]
+		}
+	}
+	if !bytes.Equal(filter, []byte("/Crypt")) {
+		return StreamMethod(encrypt)
+	}
+	if method, ok := encrypt.CryptFilters[nameValue(params, "Name")]; ok {
+		return method
+	}
+	return MethodIdentity
 }
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..ba92ab6 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -13,6 +13,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -23,9 +24,13 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 1 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
+
 	// Pad or truncate password to 32 bytes
 	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
+	// - If password is shorter than 32 bytes, append the start of the padding string
 	// - For empty password, the padding string itself is used
 	paddingString := []byte{
 		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
@@ -35,23 +40,12 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	}
 
 	paddedPassword := make([]byte, 32)
-	if len(password) == 0 {
-		// Empty password: use padding string directly
-		copy(paddedPassword, paddingString)
-	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
-	}
+	copy(paddedPassword[copy(paddedPassword, password):], paddingString)
 
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
 	hash := md5.New()
 	hash.Write(paddedPassword)
-	hash.Write(encrypt.O)
+	hash.Write(encrypt.O[:min(32, len(encrypt.O))])
 
 	// P as 32-bit unsigned integer, little-endian
 	pBytes := make([]byte, 4)
@@ -71,8 +65,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// If EncryptMetadata is false (revision 4), add 4 bytes of 0xFFFFFFFF
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
@@ -201,6 +195,10 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 1 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
+
 	// Pad owner password to 32 bytes
 	paddingString := []byte{
 		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
@@ -210,17 +208,7 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	}
 
 	paddedOwnerPassword := make([]byte, 32)
-	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
-	} else {
-		// Empty password - use padding string
-		copy(paddedOwnerPassword, paddingString)
-	}
+	copy(paddedOwnerPassword[copy(paddedOwnerPassword, ownerPassword):], paddingString)
 
 	// MD5 hash of padded owner password
 	hash := md5.New()
@@ -251,12 +239,19 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		}
 		cipher.XORKeyStream(decryptedO, encrypt.O)
 	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+		// Revision 3+: 20 rounds of RC4, with the key XORed with the round number
+		copy(decryptedO, encrypt.O)
+		for i := 19; i >= 0; i-- {
+			roundKey := make([]byte, len(ownerHash))
+			for j := range ownerHash {
+				roundKey[j] = ownerHash[j] ^ byte(i)
+			}
+			cipher, err := rc4.NewCipher(roundKey)
+			if err != nil {
+				return nil, err
+			}
+			cipher.XORKeyStream(decryptedO, decryptedO)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
 	}
 
 	// Now derive user key from decrypted O (which is the user password hash)
@@ -277,6 +272,10 @@ func DeriveUserKeyFromOwner(ownerKey []byte, encrypt *types.PDFEncryption, verbo
 // Returns the first element of the ID array (ID[0])
 // File ID can be in hex format: <7FB157EB...> or binary: (binary data)
 func ExtractFileID(pdfBytes []byte, verbose bool) []byte {
+	if items := pdfscan.ArrayItems(pdfscan.DictValue(trailerDict(pdfBytes), "ID")); len(items) > 0 && pdfscan.IsString(items[0]) {
+		return pdfscan.DecodeString(items[0])
+	}
+
 	pdfStr := string(pdfBytes)
 
 	// Find /ID in trailer - format: /ID [ <hex1> <hex2> ] or /ID [ (binary1) (binary2) ]
diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..2768ed2 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -6,129 +6,135 @@ import (
 	"log"
 	"regexp"
 	"strconv"
-	"strings"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
-func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find /Encrypt reference in trailer
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
-	encryptMatch := encryptPattern.FindStringSubmatchIndex(pdfStr)
+var (
+	startXRefPattern  = regexp.MustCompile(`startxref\s+(\d+)`)
+	encryptRefPattern = regexp.MustCompile(`/Encrypt\s+(\d+)\s+(\d+)\s+R`)
+)
 
-	var encryptObjNum int
-	var err error
+// Methods of a crypt filter
+const (
+	MethodRC4      = "V2"
+	MethodAES128   = "AESV2"
+	MethodAES256   = "AESV3"
+	MethodIdentity = "Identity"
+)
 
-	if encryptMatch == nil {
-		return nil, fmt.Errorf("/Encrypt dictionary not found")
+// ParseEncryptionDictionary parses the /Encrypt dictionary from PDF
+func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
+	value := pdfscan.DictValue(trailerDict(pdfBytes), "Encrypt")
+	if value == nil {
+		// Find /Encrypt reference of the newest trailer
+		matches := encryptRefPattern.FindAllIndex(pdfBytes, -1)
+		if matches == nil {
+			return nil, fmt.Errorf("/Encrypt dictionary not found")
+		}
+		match := matches[len(matches)-1]
+		value = pdfBytes[match[0]+len("/Encrypt") : match[1]]
+		value = value[pdfscan.SkipSpace(value, 0):]
 	}
 
-	encryptObjNum, err = strconv.Atoi(pdfStr[encryptMatch[2]:encryptMatch[3]])
-	if err != nil {
-		return nil, fmt.Errorf("invalid Encrypt object number: %v", err)
+	dict := value
+	if encryptObjNum, _, ok := pdfscan.Reference(value, 0); ok {
+		if verbose {
+			log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
+		}
+		dict = findDictionary(pdfBytes, encryptObjNum)
+		if dict == nil {
+			return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
+		}
 	}
+	return ParseDictionary(dict)
+}
 
-	if verbose {
-		log.Printf("Found /Encrypt dictionary: object %d", encryptObjNum)
+// trailerDict returns the dictionary with the trailer entries that the last
+// startxref leads to, or nil.
+func trailerDict(pdfBytes []byte) []byte {
+	pos := bytes.LastIndex(pdfBytes, []byte("startxref"))
+	if pos == -1 {
+		return nil
 	}
-
-	// Find the Encrypt object
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
-	objIndex := bytes.Index(pdfBytes, objPattern)
-	if objIndex == -1 {
-		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
+	match := startXRefPattern.FindSubmatch(pdfBytes[pos:min(pos+100, len(pdfBytes))])
+	if match == nil {
+		return nil
 	}
-
-	// Find dictionary content - need to handle nested dictionaries
-	dictStart := bytes.Index(pdfBytes[objIndex:], []byte("<<"))
-	if dictStart == -1 {
-		return nil, fmt.Errorf("Encrypt dictionary start not found")
+	offset, err := strconv.Atoi(string(match[1]))
+	if err != nil || offset <= 0 || offset >= len(pdfBytes) {
+		return nil
 	}
-	dictStart += objIndex
-
-	// Find matching >> (handle nested dictionaries)
-	depth := 0
-	dictEnd := dictStart
-	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
-			depth++
-			i++ // Skip second '<'
-		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
-			depth--
-			if depth == 0 {
-				dictEnd = i + 2
-				break
-			}
-			i++ // Skip second '>'
-		}
+	section := pdfBytes[offset:]
+	if span, ok := pdfscan.Object(section, nil); ok && span.IsStream {
+		return section[span.DictStart:span.DictEnd]
 	}
-
-	if dictEnd == dictStart {
-		return nil, fmt.Errorf("Encrypt dictionary end not found")
+	start := bytes.Index(section, []byte("trailer"))
+	if start == -1 {
+		return nil
 	}
-
-	dictContent := pdfStr[dictStart:dictEnd]
-
-	if verbose {
-		log.Printf("Encrypt dictionary content (first 200 chars): %s", dictContent[:min(200, len(dictContent))])
-	}
-
-	encrypt := &types.PDFEncryption{}
-
-	// Parse /Filter
-	filterPattern := regexp.MustCompile(`/Filter\s+/(\w+)`)
-	if match := filterPattern.FindStringSubmatch(dictContent); match != nil {
-		encrypt.Filter = match[1]
+	start = pdfscan.SkipSpace(section, start+len("trailer"))
+	end, ok := pdfscan.SkipValue(section, start)
+	if !ok {
+		return nil
 	}
+	return section[start:end]
+}
 
-	// Parse /V (encryption version) - must be at top level, not in nested dicts
-	vPattern := regexp.MustCompile(`/V\s+(\d+)`)
-	matches := vPattern.FindAllStringSubmatch(dictContent, -1)
-	// Take the first match that's not inside a nested dictionary structure
-	for _, match := range matches {
-		// Check if it's at top level (simple heuristic: not immediately after /CF or /StdCF)
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// If we see /CF or /StdCF before this, it's nested - skip
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.V, _ = strconv.Atoi(match[1])
-			break
+// findDictionary returns the newest encryption dictionary among the objects
+// with the given number, or nil.
+func findDictionary(pdfBytes []byte, objNum int) []byte {
+	var found []byte
+	header := []byte(strconv.Itoa(objNum))
+	for pos := 0; ; {
+		index := bytes.Index(pdfBytes[pos:], header)
+		if index == -1 {
+			return found
 		}
-	}
-
-	// Parse /R (revision) - must be at top level
-	rPattern := regexp.MustCompile(`/R\s+(\d+)`)
-	matches = rPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") &&
-			!strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/StdCF") {
-			encrypt.R, _ = strconv.Atoi(match[1])
-			break
+		start := pos + index
+		pos = start + len(header)
+		if start > 0 && pdfscan.IsRegular(pdfBytes[start-1]) {
+			continue
 		}
-	}
-
-	// Parse /Length (key length in bits) - look for top-level /Length
-	// Note: There may be nested /Length in /CF dictionaries, we want the top-level one
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	matches = lengthPattern.FindAllStringSubmatch(dictContent, -1)
-	for _, match := range matches {
-		matchPos := strings.Index(dictContent, match[0])
-		beforeMatch := dictContent[:matchPos]
-		// Top-level /Length should not be inside /CF
-		if !strings.Contains(beforeMatch[max(0, len(beforeMatch)-50):], "/CF") {
-			keyBits, _ := strconv.Atoi(match[1])
-			if keyBits > 0 {
-				encrypt.KeyLength = keyBits / 8
-				break
+		num, _, end, ok := pdfscan.ObjectHeader(pdfBytes, start)
+		if !ok || num != objNum {
+			continue
+		}
+		end = pdfscan.SkipSpace(pdfBytes, end)
+		if !bytes.HasPrefix(pdfBytes[end:], []byte("<<")) {
+			continue
+		}
+		if dictEnd, ok := pdfscan.SkipValue(pdfBytes, end); ok {
+			if dict := pdfBytes[end:dictEnd]; pdfscan.DictValue(dict, "O") != nil && pdfscan.DictValue(dict, "U") != nil {
+				found = dict
 			}
 		}
 	}
+}
+
+// ParseDictionary reads an encryption dictionary
+func ParseDictionary(dict []byte) (*types.PDFEncryption, error) {
+	if !bytes.HasPrefix(dict, []byte("<<")) {
+		return nil, fmt.Errorf("/Encrypt is not a dictionary")
+	}
+	encrypt := &types.PDFEncryption{
+		Filter:          nameValue(dict, "Filter"),
+		SubFilter:       nameValue(dict, "SubFilter"),
+		EncryptMetadata: !bytes.Equal(pdfscan.DictValue(dict, "EncryptMetadata"), []byte("false")),
+		O:               stringValue(dict, "O"),
+		U:               stringValue(dict, "U"),
+		UE:              stringValue(dict, "UE"),
+		OE:              stringValue(dict, "OE"),
+		Perms:           stringValue(dict, "Perms"),
+	}
+	if encrypt.Filter != "" && encrypt.Filter != "Standard" {
+		return nil, fmt.Errorf("unsupported security handler: %s", encrypt.Filter)
+	}
+	encrypt.V, _ = pdfscan.DictInt(dict, "V")
+	encrypt.R, _ = pdfscan.DictInt(dict, "R")
+	permissions, _ := pdfscan.DictInt(dict, "P")
+	encrypt.P = int32(permissions)
 
 	// Set defaults if not found
 	if encrypt.V == 0 {
@@ -137,153 +143,72 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	if encrypt.R == 0 {
 		encrypt.R = 4 // Default revision
 	}
-	if encrypt.KeyLength == 0 {
-		// Default key length based on revision
-		if encrypt.R == 2 {
-			encrypt.KeyLength = 5 // 40 bits
-		} else if encrypt.R >= 5 {
-			encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
-		} else {
-			encrypt.KeyLength = 16 // 128 bits for AES-128 (V4/R4)
-		}
+	if encrypt.V > 5 || encrypt.R < 2 || encrypt.R > 6 || (encrypt.V == 5) != (encrypt.R >= 5) {
+		return nil, fmt.Errorf("unsupported encryption: V %d, R %d", encrypt.V, encrypt.R)
 	}
 
-	// Parse /O (owner password hash) - binary data in parentheses or hex string
-	// Try hex format first: /O <hex>
-	oHexPattern := regexp.MustCompile(`/O\s*<([0-9A-Fa-f]+)>`)
-	oHexMatch := oHexPattern.FindStringSubmatch(dictContent)
-	if oHexMatch != nil {
-		hexStr := oHexMatch[1]
-		encrypt.O = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted O value (hex): %d bytes", len(encrypt.O))
+	// The key length depends on /Length only for V 2 and 3
+	switch encrypt.V {
+	case 1:
+		encrypt.KeyLength = 5 // 40 bits
+	case 2, 3:
+		encrypt.KeyLength = 5
+		if bits, ok := pdfscan.DictInt(dict, "Length"); ok && encrypt.R >= 3 {
+			encrypt.KeyLength = bits / 8
 		}
-	} else {
-		// Try binary format: /O (binary)
-		oPattern := regexp.MustCompile(`/O\s*\(`)
-		oMatch := oPattern.FindStringIndex(dictContent)
-		if oMatch != nil {
-			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
-			}
+		if encrypt.KeyLength < 5 || encrypt.KeyLength > 16 {
+			return nil, fmt.Errorf("unsupported key length: %d bytes", encrypt.KeyLength)
 		}
-	}
-
-	// Parse /U (user password hash) - binary data in parentheses or hex string
-	// Try hex format first: /U <hex>
-	uHexPattern := regexp.MustCompile(`/U\s*<([0-9A-Fa-f]+)>`)
-	uHexMatch := uHexPattern.FindStringSubmatch(dictContent)
-	if uHexMatch != nil {
-		hexStr := uHexMatch[1]
-		encrypt.U = parseHexString(hexStr)
-		if verbose {
-			log.Printf("Extracted U value (hex): %d bytes", len(encrypt.U))
+	case 4:
+		encrypt.KeyLength = 16 // 128 bits
+	default:
+		encrypt.KeyLength = 32 // 256 bits for AES-256 (V5/R5/R6)
+	}
+
+	// Crypt filters
+	if filters := pdfscan.DictValue(dict, "CF"); filters != nil && encrypt.V >= 4 {
+		encrypt.CryptFilters = make(map[string]string)
+		for _, entry := range pdfscan.Entries(filters) {
+			method := nameValue(entry.Value, "CFM")
+			if method == "" || method == "None" {
+				method = MethodIdentity
+			}
+			encrypt.CryptFilters[entry.Key] = method
 		}
-	} else {
-		// Try binary format: /U (binary)
-		uPattern := regexp.MustCompile(`/U\s*\(`)
-		uMatch := uPattern.FindStringIndex(dictContent)
-		if uMatch != nil {
-			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
+		for key, target := range map[string]*string{"StmF": &encrypt.StreamMethod, "StrF": &encrypt.StringMethod} {
+			name := nameValue(dict, key)
+			method, ok := encrypt.CryptFilters[name]
+			if name == "" || name == "Identity" {
+				method, ok = MethodIdentity, true
+			} else if !ok && name == "StdCF" {
+				continue
+			}
+			switch method {
+			case MethodRC4, MethodAES128, MethodAES256, MethodIdentity:
+				*target = method
+			default:
+				return nil, fmt.Errorf("unsupported crypt filter /%s", name)
 			}
 		}
 	}
 
-	// Parse /P (permissions)
-	pPattern := regexp.MustCompile(`/P\s+(-?\d+)`)
-	if match := pPattern.FindStringSubmatch(dictContent); match != nil {
-		pVal, _ := strconv.ParseInt(match[1], 10, 32)
-		encrypt.P = int32(pVal)
-	}
+	return encrypt, nil
+}
 
-	// Parse /EncryptMetadata
-	if strings.Contains(dictContent, "/EncryptMetadata false") {
-		encrypt.EncryptMetadata = false
-	} else {
-		encrypt.EncryptMetadata = true
+// nameValue returns the name a key of a dictionary has, or ""
+func nameValue(dict []byte, key string) string {
+	value := pdfscan.DictValue(dict, key)
+	if len(value) == 0 || value[0] != '/' {
+		return ""
 	}
+	return pdfscan.DecodeName(string(value[1:]))
+}
 
-	// Parse /UE (encrypted user encryption key) - V5+ only
-	// Format: /UE <hex> or /UE (binary)
-	if encrypt.R >= 5 {
-		ueHexPattern := regexp.MustCompile(`/UE\s*<([0-9A-Fa-f]+)>`)
-		ueHexMatch := ueHexPattern.FindStringSubmatch(dictContent)
-		if ueHexMatch != nil {
-			hexStr := ueHexMatch[1]
-			encrypt.UE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted UE value (hex): %d bytes", len(encrypt.UE))
-			}
-		} else {
-			uePattern := regexp.MustCompile(`/UE\s*\(`)
-			ueMatch := uePattern.FindStringIndex(dictContent)
-			if ueMatch != nil {
-				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
-				}
-			}
-		}
-
-		// Parse /OE (encrypted owner encryption key) - V5+ only
-		oeHexPattern := regexp.MustCompile(`/OE\s*<([0-9A-Fa-f]+)>`)
-		oeHexMatch := oeHexPattern.FindStringSubmatch(dictContent)
-		if oeHexMatch != nil {
-			hexStr := oeHexMatch[1]
-			encrypt.OE = parseHexString(hexStr)
-			if verbose {
-				log.Printf("Extracted OE value (hex): %d bytes", len(encrypt.OE))
-			}
-		} else {
-			oePattern := regexp.MustCompile(`/OE\s*\(`)
-			oeMatch := oePattern.FindStringIndex(dictContent)
-			if oeMatch != nil {
-				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
-				}
-			}
-		}
+// stringValue returns the bytes of the string a key of a dictionary has
+func stringValue(dict []byte, key string) []byte {
+	value := pdfscan.DictValue(dict, key)
+	if !pdfscan.IsString(value) {
+		return nil
 	}
-
-	return encrypt, nil
+	return pdfscan.DecodeString(value)
 }
diff --git a/core/parse/api.go b/core/parse/api.go
index 62588ce..b63ab59 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -31,6 +31,7 @@ import (
 	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -77,6 +78,7 @@ type TrailerInfo struct {
 	InfoRef    string // Reference to document info dictionary
 	EncryptRef string // Reference to encryption dictionary
 	IDArray    []byte // File identifier array
+	Encrypt    []byte // Value of /Encrypt: a reference or a dictionary
 }
 
 // Open parses a PDF from bytes with default options.
@@ -97,11 +99,6 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 		xref: &XRef{Objects: make(map[int]*ObjectRef)},
 	}
 
-	// Handle encryption first
-	if err := pdf.handleEncryption(); err != nil {
-		return nil, types.WrapError(types.ErrCodeDecryptionFailed, "encryption error", err)
-	}
-
 	// Parse based on mode
 	if opts.BytePerfect {
 		if err := pdf.parseBytePerfect(); err != nil {
@@ -113,27 +110,38 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 		}
 	}
 
+	// Objects can be read once the password is verified
+	if err := pdf.handleEncryption(); err != nil {
+		return nil, types.WrapError(types.ErrCodeDecryptionFailed, "encryption error", err)
+	}
+
 	return pdf, nil
 }
 
 // handleEncryption checks for encryption and validates password
 func (p *PDF) handleEncryption() error {
-	// Try to parse encryption dictionary
-	enc, err := encrypt.ParseEncryptionDictionary(p.raw, p.opts.Verbose)
-	if err != nil {
-		// No encryption or parse error - assume unencrypted
+	if p.trailer == nil || len(p.trailer.Encrypt) == 0 {
 		return nil
 	}
-
-	if enc != nil {
-		// PDF is encrypted - validate password
-		_, validatedEnc, err := encrypt.DecryptPDF(p.raw, p.opts.Password, p.opts.Verbose)
-		if err != nil {
-			return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
-		}
-		p.encryption = validatedEnc
+	dict := pdfscan.Resolve(p.trailer.Encrypt, p.GetObject)
+	if string(dict) == "null" {
+		return nil
+	}
+	enc, err := encrypt.ParseDictionary(dict)
+	if err != nil {
+		return types.WrapError(types.ErrCodeUnsupportedCrypto, "cannot read encryption dictionary", err)
 	}
 
+	// PDF is encrypted - validate password
+	var fileID []byte
+	p.trailer.IDArray = pdfscan.Resolve(p.trailer.IDArray, p.GetObject)
+	if items := pdfscan.ArrayItems(p.trailer.IDArray); len(items) > 0 && pdfscan.IsString(items[0]) {
+		fileID = pdfscan.DecodeString(items[0])
+	}
+	if err := encrypt.Authenticate(enc, fileID, p.opts.Password, p.opts.Verbose); err != nil {
+		return types.WrapError(types.ErrCodeWrongPassword, "decryption failed (wrong password?)", err)
+	}
+	p.encryption = enc
 	return nil
 }
 
@@ -164,6 +172,13 @@ func (p *PDF) parseStandard() error {
 			EncryptRef: trailer.EncryptRef,
 			InfoRef:    trailer.InfoRef,
 		}
+		if sections, err := trailerSections(p.raw); err == nil {
+			for _, dict := range sections {
+				if value := pdfscan.DictValue(dict, "Encrypt"); value != nil {
+					p.trailer.Encrypt, p.trailer.IDArray = value, pdfscan.DictValue(dict, "ID")
+				}
+			}
+		}
 		// Parse xref from startxref
 		objMap, _ := ParseCrossReferenceTableWithEncryption(p.raw, trailer.StartXRef, p.encryption, p.opts.Verbose)
 		for objNum, offset := range objMap {
@@ -206,6 +221,7 @@ func (p *PDF) parseStandard() error {
 			InfoRef:    lastSection.Info,
 			EncryptRef: lastSection.Encrypt,
 			IDArray:    lastSection.ID,
+			Encrypt:    lastSection.encryptValue,
 		}
 		p.xref.Size = lastSection.Size
 	}
diff --git a/core/parse/decrypt_object.go b/core/parse/decrypt_object.go
index b0aceb5..1d21b97 100644
--- a/core/parse/decrypt_object.go
+++ b/core/parse/decrypt_object.go
@@ -26,10 +26,7 @@ func decryptContent(objData []byte, span pdfscan.ObjectSpan, objNum, genNum int,
 		return content
 	}
 	streamData := objData[span.StreamStart:span.StreamEnd]
-	if encryptInfo.V >= 4 && !encryptInfo.EncryptMetadata && bytes.Equal(pdfscan.DictValue(dict, "Type"), []byte("/Metadata")) {
-		return content
-	}
-	decrypted, err := encrypt.DecryptObject(streamData, objNum, genNum, encryptInfo)
+	decrypted, err := encrypt.DecryptStream(streamData, dict, objNum, genNum, encryptInfo)
 	if err != nil {
 		if verbose {
 			log.Printf("Decryption of stream %d failed: %v", objNum, err)
@@ -58,7 +55,7 @@ func isEncryptionDict(value []byte) bool {
 // decryptStrings decrypts every string of a value.
 func decryptStrings(value []byte, objNum, genNum int, encryptInfo *types.PDFEncryption) []byte {
 	return pdfscan.MapStrings(value, func(data []byte) ([]byte, bool) {
-		plain, err := encrypt.DecryptObject(data, objNum, genNum, encryptInfo)
+		plain, err := encrypt.DecryptString(data, objNum, genNum, encryptInfo)
 		return plain, err == nil
 	})
 }
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index f22cbad..767edfc 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -13,17 +13,18 @@ import (
 
 // xrefSection represents a single cross-reference section from a PDF
 type xrefSection struct {
-	StartXRef int64                     // Byte offset where this xref section starts
-	Objects   map[int]int64             // Object number -> byte offset (Type 1 entries)
-	Streams   map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
-	Gens      map[int]int               // Object number -> generation (Type 1 entries)
-	Free      map[int]bool              // Object numbers marked as free
-	Prev      int64                     // Offset of previous xref section (from /Prev in trailer)
-	Root      string                    // /Root reference from trailer
-	Info      string                    // /Info reference from trailer
-	Encrypt   string                    // /Encrypt reference from trailer
-	ID        []byte                    // /ID array from trailer
-	Size      int                       // /Size from trailer
+	StartXRef    int64                     // Byte offset where this xref section starts
+	Objects      map[int]int64             // Object number -> byte offset (Type 1 entries)
+	Streams      map[int]ObjectStreamEntry // Object number -> object stream info (Type 2 entries)
+	Gens         map[int]int               // Object number -> generation (Type 1 entries)
+	Free         map[int]bool              // Object numbers marked as free
+	Prev         int64                     // Offset of previous xref section (from /Prev in trailer)
+	Root         string                    // /Root reference from trailer
+	Info         string                    // /Info reference from trailer
+	Encrypt      string                    // /Encrypt reference from trailer
+	encryptValue []byte                    // Value of /Encrypt: a reference or a dictionary
+	ID           []byte                    // /ID array from trailer
+	Size         int                       // /Size from trailer
 }
 
 func newXRefSection(startXRef int64) *xrefSection {
@@ -43,6 +44,9 @@ func (s *xrefSection) setTrailer(dict []byte) {
 			*ref = value
 		}
 	}
+	if value := pdfscan.DictValue(dict, "Encrypt"); value != nil {
+		s.encryptValue = value
+	}
 	if id := pdfscan.DictValue(dict, "ID"); id != nil {
 		s.ID = id
 	}
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 4657434..5dc8c5b 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -99,7 +99,7 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, offset
 
 	// Decrypt stream data if needed (object streams ARE encrypted)
 	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, streamObjNum, span.Gen, encryptInfo)
+		decrypted, err := encrypt.DecryptStream(streamData, dict, streamObjNum, span.Gen, encryptInfo)
 		if err != nil {
 			return nil, fmt.Errorf("failed to decrypt object stream: %v", err)
 		}
diff --git a/types/types.go b/types/types.go
index 433b90f..6c22d87 100644
--- a/types/types.go
+++ b/types/types.go
@@ -16,6 +16,13 @@ type PDFEncryption struct {
 	P               int32  // Permissions
 	EncryptMetadata bool
 	EncryptKey      []byte // Master encryption key
+	Perms           []byte // Encrypted permissions (V5+)
+
+	// Encryption methods of streams and strings: "V2" (RC4), "AESV2", "AESV3"
+	// or "Identity"; the method that belongs to V if empty
+	StreamMethod string
+	StringMethod string
+	CryptFilters map[string]string // Methods of the named crypt filters
 }
 
 // FormData represents the data to fill into the form
-- 
2.43.0


From ca3bd767f91f93656daf83f945f386690d838469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 11/41] fix: write AES-256 encryption that other readers open

The key is wrapped and objects are encrypted as revision 5 defines it, the
dictionary names its crypt filters, and metadata stays readable when it is
not encrypted. Edited documents keep a direct encryption dictionary.
---
 core/manipulate/manipulate.go |   3 +
 core/write/encryption_v5.go   | 224 +++++++++++-----------------------
 core/write/writer.go          |  52 ++++----
 3 files changed, 96 insertions(+), 183 deletions(-)

diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index a299418..fb11a37 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -127,6 +127,9 @@ func (m *PDFManipulator) rebuildPDF() ([]byte, error) {
 		if id := pdfscan.ArrayItems(trailer.IDArray); len(id) > 0 {
 			fileID = pdfscan.DecodeString(id[0])
 		}
+		if trailer.EncryptRef == "" {
+			writer.SetEncryptRef(writer.AddObject(trailer.Encrypt))
+		}
 		writer.SetEncryption(m.pdf.Encryption(), fileID)
 	}
 
diff --git a/core/write/encryption_v5.go b/core/write/encryption_v5.go
index 3b86c18..38488d1 100644
--- a/core/write/encryption_v5.go
+++ b/core/write/encryption_v5.go
@@ -3,48 +3,24 @@ package write
 import (
 	"bytes"
 	"crypto/aes"
+	"crypto/cipher"
 	"crypto/rand"
-	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // SetupAES256Encryption creates an encryption dictionary for AES-256 (V5/R5/R6)
 // Based on ISO 32000-2 section 7.6.4
 func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, permissions int32, encryptMetadata bool) (*types.PDFEncryption, error) {
-	// Prepare file ID (use first 8 bytes, pad/truncate to 8)
-	fileID8 := make([]byte, 8)
-	if len(fileID) >= 8 {
-		copy(fileID8, fileID[:8])
-	} else if len(fileID) > 0 {
-		copy(fileID8, fileID)
-	}
-
-	// Derive user password key
-	userPasswordKey, err := deriveEncryptionKeyV5(userPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive user password key: %v", err)
-	}
-
-	// Derive owner password key
-	ownerPasswordKey, err := deriveEncryptionKeyV5(ownerPassword, fileID8)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive owner password key: %v", err)
-	}
-
 	// Generate random user encryption key (32 bytes for AES-256)
 	userEncryptionKey := make([]byte, 32)
 	if _, err := rand.Read(userEncryptionKey); err != nil {
 		return nil, fmt.Errorf("failed to generate encryption key: %v", err)
 	}
 
-	// Generate random owner encryption key (32 bytes)
-	ownerEncryptionKey := make([]byte, 32)
-	if _, err := rand.Read(ownerEncryptionKey); err != nil {
-		return nil, fmt.Errorf("failed to generate owner encryption key: %v", err)
-	}
-
 	// Generate random salts
 	validationSalt := make([]byte, 8)
 	userKeySalt := make([]byte, 8)
@@ -64,32 +40,43 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 		return nil, fmt.Errorf("failed to generate owner key salt: %v", err)
 	}
 
-	// Compute U value (user password validation)
-	uValue, err := computeUValueV5(userPassword, userPasswordKey, validationSalt, userKeySalt)
-	if err != nil {
-		return nil, fmt.Errorf("failed to compute U value: %v", err)
-	}
+	// U value: hash (32) + validation salt (8) + key salt (8)
+	uValue := encrypt.HashAES256(userPassword, validationSalt, nil, 5)
+	uValue = append(append(uValue, validationSalt...), userKeySalt...)
 
-	// Compute O value (owner password validation)
 	// For V5, O value uses the U value (48 bytes), not the user encryption key
-	oValue, err := computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt, uValue)
-	if err != nil {
-		return nil, fmt.Errorf("failed to compute O value: %v", err)
-	}
+	oValue := encrypt.HashAES256(ownerPassword, ownerValidationSalt, uValue, 5)
+	oValue = append(append(oValue, ownerValidationSalt...), ownerKeySalt...)
 
 	// Wrap user encryption key with user password key
-	ueValue, err := wrapKeyV5(userEncryptionKey, userPasswordKey)
+	ueValue, err := encryptBlocks(encrypt.HashAES256(userPassword, userKeySalt, nil, 5), userEncryptionKey)
 	if err != nil {
 		return nil, fmt.Errorf("failed to wrap user encryption key: %v", err)
 	}
 
 	// Wrap user encryption key with owner password key (OE contains user key wrapped with owner key)
-	oeValue, err := wrapKeyV5(userEncryptionKey, ownerPasswordKey)
+	oeValue, err := encryptBlocks(encrypt.HashAES256(ownerPassword, ownerKeySalt, uValue, 5), userEncryptionKey)
 	if err != nil {
 		return nil, fmt.Errorf("failed to wrap user encryption key with owner key: %v", err)
 	}
 
-	encrypt := &types.PDFEncryption{
+	// Permissions, encrypted so that changes to the dictionary show
+	perms := make([]byte, 16)
+	binary.LittleEndian.PutUint64(perms, uint64(permissions))
+	perms[8] = 'F'
+	if encryptMetadata {
+		perms[8] = 'T'
+	}
+	copy(perms[9:], "adb")
+	if _, err := rand.Read(perms[12:]); err != nil {
+		return nil, fmt.Errorf("failed to generate permissions: %v", err)
+	}
+	permsValue, err := encryptBlocks(userEncryptionKey, perms)
+	if err != nil {
+		return nil, fmt.Errorf("failed to encrypt permissions: %v", err)
+	}
+
+	return &types.PDFEncryption{
 		V:               5,
 		R:               5,
 		KeyLength:       32, // 256 bits
@@ -101,126 +88,25 @@ func SetupAES256Encryption(userPassword, ownerPassword []byte, fileID []byte, pe
 		UE:              ueValue,
 		OE:              oeValue,
 		EncryptKey:      userEncryptionKey, // Store the actual encryption key
-	}
-
-	return encrypt, nil
-}
-
-// deriveEncryptionKeyV5 derives a 32-byte key from password using SHA-256
-// Based on ISO 32000-2 section 7.6.4.3.3
-func deriveEncryptionKeyV5(password []byte, fileID []byte) ([]byte, error) {
-	// Concatenate password + fileID (8 bytes)
-	input := make([]byte, len(password)+8)
-	copy(input, password)
-	copy(input[len(password):], fileID)
-
-	// SHA-256 hash
-	hash := sha256.Sum256(input)
-	key := hash[:]
-
-	// Iterate 64 times
-	for i := 0; i < 64; i++ {
-		hash = sha256.Sum256(key)
-		key = hash[:]
-	}
-
-	return key, nil
-}
-
-// computeUValueV5 computes the U value for user password validation
-// Based on ISO 32000-2 section 7.6.4.4.9
-func computeUValueV5(password, passwordKey, validationSalt, userKeySalt []byte) ([]byte, error) {
-	// Compute SHA-256(password + validation_salt)
-	hash := sha256.New()
-	hash.Write(password)
-	hash.Write(validationSalt)
-	hashed := hash.Sum(nil)
-
-	// Encrypt with AES-128 ECB using first 16 bytes of password-derived key
-	encryptKey := passwordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
-	}
-
-	// Encrypt hash (32 bytes) in 2 blocks of 16 bytes each (ECB mode)
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// U value: validation_salt (8) + encrypted_hash (32) + user_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], validationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], userKeySalt)
-
-	return result, nil
-}
-
-// computeOValueV5 computes the O value for owner password validation
-// Based on ISO 32000-2 section 7.6.4.4.10
-func computeOValueV5(ownerPassword, ownerPasswordKey, ownerValidationSalt, ownerKeySalt []byte, uValue []byte) ([]byte, error) {
-	// Compute SHA-256(owner_password + owner_validation_salt + U_value)
-	hash := sha256.New()
-	hash.Write(ownerPassword)
-	hash.Write(ownerValidationSalt)
-	hash.Write(uValue) // U value is 48 bytes
-	hashed := hash.Sum(nil)
-
-	// Encrypt with AES-128 ECB using first 16 bytes of owner password-derived key
-	encryptKey := ownerPasswordKey[:16]
-	block, err := aes.NewCipher(encryptKey)
-	if err != nil {
-		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
-	}
-
-	// Encrypt hash (32 bytes) in 2 blocks
-	encrypted := make([]byte, 32)
-	block.Encrypt(encrypted[:16], hashed[:16])
-	block.Encrypt(encrypted[16:], hashed[16:])
-
-	// O value: owner_validation_salt (8) + encrypted_hash (32) + owner_key_salt (8) = 48 bytes
-	result := make([]byte, 48)
-	copy(result[:8], ownerValidationSalt)
-	copy(result[8:40], encrypted)
-	copy(result[40:48], ownerKeySalt)
-
-	return result, nil
+		Perms:           permsValue,
+		StreamMethod:    encrypt.MethodAES256,
+		StringMethod:    encrypt.MethodAES256,
+	}, nil
 }
 
-// wrapKeyV5 wraps an encryption key using AES-128 ECB mode
-// Based on ISO 32000-2 - used for /UE and /OE
-func wrapKeyV5(key, wrappingKey []byte) ([]byte, error) {
-	if len(wrappingKey) < 16 {
-		return nil, fmt.Errorf("wrapping key too short: %d bytes (need at least 16)", len(wrappingKey))
-	}
-
-	// Use first 16 bytes of wrapping key
-	wrapKey := wrappingKey[:16]
-
-	// Add PKCS#7 padding
-	paddingLen := 16 - (len(key) % 16)
-	padded := make([]byte, len(key)+paddingLen)
-	copy(padded, key)
-	for i := len(key); i < len(padded); i++ {
-		padded[i] = byte(paddingLen)
-	}
-
-	// Encrypt in ECB mode (each 16-byte block independently)
-	block, err := aes.NewCipher(wrapKey)
+// encryptBlocks encrypts whole blocks with AES-256 in CBC mode and a zero
+// initialization vector
+func encryptBlocks(key, data []byte) ([]byte, error) {
+	block, err := aes.NewCipher(key)
 	if err != nil {
 		return nil, fmt.Errorf("failed to create AES cipher: %v", err)
 	}
-
-	wrapped := make([]byte, len(padded))
-	for i := 0; i < len(padded); i += 16 {
-		block.Encrypt(wrapped[i:], padded[i:i+16])
-	}
-
-	return wrapped, nil
+	encrypted := make([]byte, len(data))
+	cipher.NewCBCEncrypter(block, make([]byte, aes.BlockSize)).CryptBlocks(encrypted, data)
+	return encrypted, nil
 }
 
-// CreateEncryptionDictionary creates the encryption dictionary object content for V5
+// CreateEncryptionDictionary creates the encryption dictionary object content
 func CreateEncryptionDictionary(encrypt *types.PDFEncryption) []byte {
 	var buf bytes.Buffer
 	buf.WriteString("<<\n")
@@ -262,6 +148,14 @@ func CreateEncryptionDictionary(encrypt *types.PDFEncryption) []byte {
 		buf.WriteString(">\n")
 	}
 
+	if encrypt.V >= 4 {
+		writeCryptFilters(&buf, encrypt)
+	}
+
+	if len(encrypt.Perms) > 0 {
+		buf.WriteString(fmt.Sprintf("/Perms <%X>\n", encrypt.Perms))
+	}
+
 	if !encrypt.EncryptMetadata {
 		buf.WriteString("/EncryptMetadata false\n")
 	}
@@ -269,3 +163,27 @@ func CreateEncryptionDictionary(encrypt *types.PDFEncryption) []byte {
 	buf.WriteString(">>")
 	return buf.Bytes()
 }
+
+// writeCryptFilters writes the crypt filters for the methods in use
+func writeCryptFilters(buf *bytes.Buffer, encryption *types.PDFEncryption) {
+	names := make(map[string]string)
+	buf.WriteString("/CF <<")
+	for _, method := range []string{encrypt.StreamMethod(encryption), encrypt.StringMethod(encryption)} {
+		if _, ok := names[method]; ok || method == encrypt.MethodIdentity {
+			continue
+		}
+		names[method] = "StdCF"
+		if len(names) > 1 {
+			names[method] = "StrCF"
+		}
+		buf.WriteString(fmt.Sprintf(" /%s << /CFM /%s /AuthEvent /DocOpen /Length %d >>", names[method], method, encryption.KeyLength))
+	}
+	buf.WriteString(" >>\n")
+	for _, filter := range [][2]string{{"StmF", encrypt.StreamMethod(encryption)}, {"StrF", encrypt.StringMethod(encryption)}} {
+		name, ok := names[filter[1]]
+		if !ok {
+			name = "Identity"
+		}
+		buf.WriteString(fmt.Sprintf("/%s /%s\n", filter[0], name))
+	}
+}
diff --git a/core/write/writer.go b/core/write/writer.go
index 421999e..8c9aef0 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -6,7 +6,6 @@ import (
 	"compress/zlib"
 	"crypto/aes"
 	"crypto/cipher"
-	"crypto/md5"
 	"crypto/rand"
 	"crypto/rc4"
 	"fmt"
@@ -15,6 +14,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -303,7 +303,7 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			// Encrypt stream if needed
 			streamData := obj.Stream
 			if w.encryptInfo != nil {
-				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
+				encrypted, err := w.encryptStream(streamData, w.formatDictionary(dict), objNum, obj.Generation)
 				if err != nil {
 					return fmt.Errorf("failed to encrypt object %d: %v", objNum, err)
 				}
@@ -480,11 +480,12 @@ func (w *PDFWriter) encryptContent(content []byte, objNum, genNum int) ([]byte,
 	if !ok || !span.IsStream {
 		return w.encryptStrings(content, objNum, genNum)
 	}
-	data, err := w.encryptStream(object[span.StreamStart:span.StreamEnd], objNum, genNum)
+	dict := object[span.DictStart:span.DictEnd]
+	data, err := w.encryptStream(object[span.StreamStart:span.StreamEnd], dict, objNum, genNum)
 	if err != nil {
 		return nil, err
 	}
-	dict := pdfscan.SetDictLength(object[span.DictStart:span.DictEnd], len(data))
+	dict = pdfscan.SetDictLength(dict, len(data))
 	if dict, err = w.encryptStrings(dict, objNum, genNum); err != nil {
 		return nil, err
 	}
@@ -498,7 +499,7 @@ func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) ([]byte,
 	}
 	var failed error
 	result := pdfscan.MapStrings(content, func(plain []byte) ([]byte, bool) {
-		encrypted, err := w.encryptStream(plain, objNum, genNum)
+		encrypted, err := w.encryptData(plain, encrypt.StringMethod(w.encryptInfo), objNum, genNum)
 		if err != nil {
 			failed = err
 		}
@@ -507,39 +508,31 @@ func (w *PDFWriter) encryptStrings(content []byte, objNum, genNum int) ([]byte,
 	return result, failed
 }
 
-// encryptStream encrypts stream data using the PDF's encryption settings
-func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, error) {
+// encryptStream encrypts the data of a stream, given its dictionary
+func (w *PDFWriter) encryptStream(data, dict []byte, objNum, genNum int) ([]byte, error) {
 	if w.encryptInfo == nil {
 		return data, nil
 	}
+	return w.encryptData(data, encrypt.StreamDictMethod(dict, w.encryptInfo), objNum, genNum)
+}
+
+// encryptData encrypts a string or stream data using the PDF's encryption settings
+func (w *PDFWriter) encryptData(data []byte, method string, objNum, genNum int) ([]byte, error) {
+	if method == encrypt.MethodIdentity {
+		return data, nil
+	}
 	if len(w.encryptInfo.EncryptKey) == 0 || len(w.encryptInfo.EncryptKey) < w.encryptInfo.KeyLength {
 		return nil, fmt.Errorf("no usable encryption key")
 	}
 
 	// Derive object-specific key (same as decrypt)
-	pack1 := []byte{byte(objNum & 0xff), byte((objNum >> 8) & 0xff), byte((objNum >> 16) & 0xff)}
-	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
-
-	n := w.encryptInfo.KeyLength
-	if n == 0 {
-		n = 5
+	objectKey, err := encrypt.ObjectKey(w.encryptInfo, objNum, genNum, method)
+	if err != nil {
+		return nil, err
 	}
 
-	keyData := make([]byte, n+5)
-	copy(keyData, w.encryptInfo.EncryptKey[:n])
-	copy(keyData[n:], pack1)
-	copy(keyData[n+3:], pack2)
-
-	keyHash := md5.New()
-	keyHash.Write(keyData)
-
 	// AES encryption
-	if w.encryptInfo.V == 4 || w.encryptInfo.V == 5 {
-		keyHash.Write([]byte{0x73, 0x41, 0x6C, 0x54}) // "sAlT"
-		aesKeyHash := keyHash.Sum(nil)
-		aesKeyLen := min(n+5, 16)
-		aesKey := aesKeyHash[:aesKeyLen]
-
+	if method == encrypt.MethodAES128 || method == encrypt.MethodAES256 {
 		// Generate random IV
 		iv := make([]byte, 16)
 		if _, err := rand.Read(iv); err != nil {
@@ -555,7 +548,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 		}
 
 		// Encrypt
-		block, err := aes.NewCipher(aesKey)
+		block, err := aes.NewCipher(objectKey)
 		if err != nil {
 			return nil, err
 		}
@@ -573,8 +566,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	rc4Key := keyHash.Sum(nil)
-	c, err := rc4.NewCipher(rc4Key[:min(n+5, 16)])
+	c, err := rc4.NewCipher(objectKey)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6932234a2477e3ee46a5466daaa675af84ec8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 12/41] fix: derive a 40-bit key when no key length is given

---
 core/encrypt/key_derivation.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index ba92ab6..df53249 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -24,7 +24,11 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
-	if encrypt.KeyLength < 1 || encrypt.KeyLength > md5.Size {
+	keyLength := encrypt.KeyLength
+	if keyLength == 0 {
+		keyLength = 5 // the default, 40 bits
+	}
+	if keyLength < 1 || keyLength > md5.Size {
 		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
 
@@ -80,14 +84,14 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(key[:encrypt.KeyLength])
+			hash.Write(key[:keyLength])
 			key = hash.Sum(nil)
 		}
 	}
 
 	// Truncate to key length
-	if len(key) > encrypt.KeyLength {
-		key = key[:encrypt.KeyLength]
+	if len(key) > keyLength {
+		key = key[:keyLength]
 	}
 
 	return key, nil
@@ -195,7 +199,11 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
-	if encrypt.KeyLength < 1 || encrypt.KeyLength > md5.Size {
+	keyLength := encrypt.KeyLength
+	if keyLength == 0 {
+		keyLength = 5 // the default, 40 bits
+	}
+	if keyLength < 1 || keyLength > md5.Size {
 		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
 
@@ -219,14 +227,14 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
+			hash.Write(ownerHash[:keyLength])
 			ownerHash = hash.Sum(nil)
 		}
 	}
 
 	// Truncate to key length
-	if len(ownerHash) > encrypt.KeyLength {
-		ownerHash = ownerHash[:encrypt.KeyLength]
+	if len(ownerHash) > keyLength {
+		ownerHash = ownerHash[:keyLength]
 	}
 
 	// Decrypt O value using owner key
-- 
2.43.0


From c2309db941ddadef8bac8f3d593f1d433818c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 13/41] fix: map every glyph name and Mac expert code to its
 character

---
 content/extract/encoding.go  | 198 ++++++---
 content/extract/glyphlist.go | 780 +++++++++++++++++++++++++++++++++++
 2 files changed, 926 insertions(+), 52 deletions(-)
 create mode 100644 content/extract/glyphlist.go

diff --git a/content/extract/encoding.go b/content/extract/encoding.go
index da5ba47..6a8cee6 100644
--- a/content/extract/encoding.go
+++ b/content/extract/encoding.go
@@ -26,7 +26,7 @@ type FontDecoder struct {
 	baseEncoding map[int]rune
 
 	// Differences array overlays the base encoding
-	differences map[int]rune
+	differences map[int]string
 
 	// Bytes of a character code, 0 if unknown
 	codeWidth int
@@ -63,7 +63,7 @@ func NewFontDecoder(fontName string) *FontDecoder {
 	return &FontDecoder{
 		toUnicode:    make(map[charCode]string),
 		baseEncoding: make(map[int]rune),
-		differences:  make(map[int]rune),
+		differences:  make(map[int]string),
 		fontName:     fontName,
 	}
 }
@@ -89,8 +89,8 @@ func (fd *FontDecoder) SetBaseEncoding(encodingName string) {
 
 // SetDifferences sets differences array entries
 func (fd *FontDecoder) SetDifferences(code int, glyphName string) {
-	if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
-		fd.differences[code] = unicode
+	if text := glyphNameToText(glyphName); text != "" {
+		fd.differences[code] = text
 	}
 }
 
@@ -184,8 +184,8 @@ func (fd *FontDecoder) lookupCode(width, code int) string {
 		if text, ok := fd.toUnicode[charCode{2, code}]; ok {
 			return text // one-byte codes, padded in the CMap
 		}
-		if unicode, ok := fd.differences[code]; ok {
-			return string(unicode)
+		if text, ok := fd.differences[code]; ok {
+			return text
 		}
 		if unicode, ok := fd.baseEncoding[code]; ok {
 			return string(unicode)
@@ -319,10 +319,7 @@ func cmapCode(token []byte) (width, code int, ok bool) {
 // cmapTarget returns the UTF-16 text that a CMap maps a code to.
 func cmapTarget(token []byte) []uint16 {
 	if token[0] == '/' {
-		if unicode := glyphNameToUnicode(pdfscan.DecodeName(string(token))); unicode != 0 {
-			return utf16.Encode([]rune{unicode})
-		}
-		return nil
+		return utf16.Encode([]rune(glyphNameToText(pdfscan.DecodeName(string(token)))))
 	}
 	if !pdfscan.IsString(token) {
 		return nil
@@ -362,9 +359,7 @@ func (fd *FontDecoder) ParseDifferencesArray(diffStr string) {
 		if token[0] == '/' {
 			// Glyph name
 			glyphName := pdfscan.DecodeName(string(token))
-			if unicode := glyphNameToUnicode(glyphName); unicode != 0 {
-				fd.differences[currentCode] = unicode
-			}
+			fd.SetDifferences(currentCode, glyphName)
 			currentCode++
 		} else {
 			// Character code
@@ -381,10 +376,13 @@ func glyphNameToUnicode(name string) rune {
 	if unicode, ok := adobeGlyphList[name]; ok {
 		return unicode
 	}
+	if unicode, ok := glyphList()[name]; ok {
+		return unicode
+	}
 
 	// Handle uniXXXX format (e.g., uni0041 = A)
 	if strings.HasPrefix(name, "uni") && len(name) == 7 {
-		if val, err := strconv.ParseUint(name[3:], 16, 32); err == nil {
+		if val, err := strconv.ParseUint(name[3:], 16, 32); err == nil && utf8.ValidRune(rune(val)) {
 			return rune(val)
 		}
 	}
@@ -417,6 +415,8 @@ var winAnsiEncoding = map[int]rune{
 	112: 'p', 113: 'q', 114: 'r', 115: 's', 116: 't', 117: 'u', 118: 'v', 119: 'w',
 	120: 'x', 121: 'y', 122: 'z', 123: '{', 124: '|', 125: '}', 126: '~',
 	// Extended characters (128-159 are Windows-specific)
+	// Unused codes stand for the bullet
+	127: '\u2022', 129: '\u2022', 141: '\u2022', 143: '\u2022', 144: '\u2022', 157: '\u2022',
 	128: '\u20AC', // Euro sign
 	130: '\u201A', // Single low-9 quotation mark
 	131: '\u0192', // Latin small letter f with hook
@@ -574,7 +574,7 @@ var macRomanEncoding = map[int]rune{
 	216: '\u00FF', // y with diaeresis
 	217: '\u0178', // Y with diaeresis
 	218: '\u2044', // Fraction slash
-	219: '\u20AC', // Euro sign
+	219: '\u00A4', // Currency sign
 	220: '\u2039', // Single left-pointing angle quotation mark
 	221: '\u203A', // Single right-pointing angle quotation mark
 	222: '\uFB01', // fi ligature
@@ -686,7 +686,7 @@ var standardEncoding = map[int]rune{
 
 // MacExpertEncoding (Mac Expert Encoding - for expert fonts)
 var macExpertEncoding = map[int]rune{
-	32:  ' ',
+	32:  '\u0020', // space
 	33:  '\uF721', // exclamsmall
 	34:  '\uF6F8', // Hungarumlautsmall
 	35:  '\uF7A2', // centoldstyle
@@ -698,9 +698,9 @@ var macExpertEncoding = map[int]rune{
 	41:  '\u207E', // parenrightsuperior
 	42:  '\u2025', // twodotenleader
 	43:  '\u2024', // onedotenleader
-	44:  ',',
-	45:  '-',
-	46:  '.',
+	44:  '\u002C', // comma
+	45:  '\u002D', // hyphen
+	46:  '\u002E', // period
 	47:  '\u2044', // fraction
 	48:  '\uF730', // zerooldstyle
 	49:  '\uF731', // oneoldstyle
@@ -712,8 +712,8 @@ var macExpertEncoding = map[int]rune{
 	55:  '\uF737', // sevenoldstyle
 	56:  '\uF738', // eightoldstyle
 	57:  '\uF739', // nineoldstyle
-	58:  ':',
-	59:  ';',
+	58:  '\u003A', // colon
+	59:  '\u003B', // semicolon
 	61:  '\uF6DE', // threequartersemdash
 	63:  '\uF73F', // questionsmall
 	68:  '\uF7F0', // Ethsmall
@@ -726,37 +726,131 @@ var macExpertEncoding = map[int]rune{
 	77:  '\u215E', // seveneighths
 	78:  '\u2153', // onethird
 	79:  '\u2154', // twothirds
-	80:  '\uFB00', // ff
-	81:  '\uFB01', // fi
-	82:  '\uFB02', // fl
-	83:  '\uFB03', // ffi
-	84:  '\uFB04', // ffl
-	85:  '\u2070', // zerosuperior
-	86:  '\u2074', // foursuperior
-	87:  '\u2075', // fivesuperior
-	88:  '\u2076', // sixsuperior
-	89:  '\u2077', // sevensuperior
-	90:  '\u2078', // eightsuperior
-	91:  '\u2079', // ninesuperior
-	92:  '\u2080', // zeroinferior
-	93:  '\u2081', // oneinferior
-	94:  '\u2082', // twoinferior
-	95:  '\u2083', // threeinferior
-	96:  '\u2084', // fourinferior
-	97:  '\u2085', // fiveinferior
-	98:  '\u2086', // sixinferior
-	99:  '\u2087', // seveninferior
-	100: '\u2088', // eightinferior
-	101: '\u2089', // nineinferior
-	102: '\u00B9', // onesuperior
-	103: '\u00B2', // twosuperior
-	104: '\u00B3', // threesuperior
-	105: '\u2071', // isuperior
-	106: '\u207F', // nsuperior
-	109: '\u2219', // centinferior
-	110: '\uF6E0', // dollarinferior
-	111: '\uF6E1', // periodinferior
-	112: '\uF6E2', // commainferior
+	86:  '\uFB00', // ff
+	87:  '\uFB01', // fi
+	88:  '\uFB02', // fl
+	89:  '\uFB03', // ffi
+	90:  '\uFB04', // ffl
+	91:  '\u208D', // parenleftinferior
+	93:  '\u208E', // parenrightinferior
+	94:  '\uF6F6', // Circumflexsmall
+	95:  '\uF6E5', // hypheninferior
+	96:  '\uF760', // Gravesmall
+	97:  '\uF761', // Asmall
+	98:  '\uF762', // Bsmall
+	99:  '\uF763', // Csmall
+	100: '\uF764', // Dsmall
+	101: '\uF765', // Esmall
+	102: '\uF766', // Fsmall
+	103: '\uF767', // Gsmall
+	104: '\uF768', // Hsmall
+	105: '\uF769', // Ismall
+	106: '\uF76A', // Jsmall
+	107: '\uF76B', // Ksmall
+	108: '\uF76C', // Lsmall
+	109: '\uF76D', // Msmall
+	110: '\uF76E', // Nsmall
+	111: '\uF76F', // Osmall
+	112: '\uF770', // Psmall
+	113: '\uF771', // Qsmall
+	114: '\uF772', // Rsmall
+	115: '\uF773', // Ssmall
+	116: '\uF774', // Tsmall
+	117: '\uF775', // Usmall
+	118: '\uF776', // Vsmall
+	119: '\uF777', // Wsmall
+	120: '\uF778', // Xsmall
+	121: '\uF779', // Ysmall
+	122: '\uF77A', // Zsmall
+	123: '\u20A1', // colonmonetary
+	124: '\uF6DC', // onefitted
+	125: '\uF6DD', // rupiah
+	126: '\uF6FE', // Tildesmall
+	129: '\uF6E9', // asuperior
+	130: '\uF6E0', // centsuperior
+	135: '\uF7E1', // Aacutesmall
+	136: '\uF7E0', // Agravesmall
+	137: '\uF7E2', // Acircumflexsmall
+	138: '\uF7E4', // Adieresissmall
+	139: '\uF7E3', // Atildesmall
+	140: '\uF7E5', // Aringsmall
+	141: '\uF7E7', // Ccedillasmall
+	142: '\uF7E9', // Eacutesmall
+	143: '\uF7E8', // Egravesmall
+	144: '\uF7EA', // Ecircumflexsmall
+	145: '\uF7EB', // Edieresissmall
+	146: '\uF7ED', // Iacutesmall
+	147: '\uF7EC', // Igravesmall
+	148: '\uF7EE', // Icircumflexsmall
+	149: '\uF7EF', // Idieresissmall
+	150: '\uF7F1', // Ntildesmall
+	151: '\uF7F3', // Oacutesmall
+	152: '\uF7F2', // Ogravesmall
+	153: '\uF7F4', // Ocircumflexsmall
+	154: '\uF7F6', // Odieresissmall
+	155: '\uF7F5', // Otildesmall
+	156: '\uF7FA', // Uacutesmall
+	157: '\uF7F9', // Ugravesmall
+	158: '\uF7FB', // Ucircumflexsmall
+	159: '\uF7FC', // Udieresissmall
+	161: '\u2078', // eightsuperior
+	162: '\u2084', // fourinferior
+	163: '\u2083', // threeinferior
+	164: '\u2086', // sixinferior
+	165: '\u2088', // eightinferior
+	166: '\u2087', // seveninferior
+	167: '\uF6FD', // Scaronsmall
+	169: '\uF6DF', // centinferior
+	170: '\u2082', // twoinferior
+	172: '\uF7A8', // Dieresissmall
+	174: '\uF6F5', // Caronsmall
+	175: '\uF6F0', // osuperior
+	176: '\u2085', // fiveinferior
+	178: '\uF6E1', // commainferior
+	179: '\uF6E7', // periodinferior
+	180: '\uF7FD', // Yacutesmall
+	182: '\uF6E3', // dollarinferior
+	185: '\uF7FE', // Thornsmall
+	187: '\u2089', // nineinferior
+	188: '\u2080', // zeroinferior
+	189: '\uF6FF', // Zcaronsmall
+	190: '\uF7E6', // AEsmall
+	191: '\uF7F8', // Oslashsmall
+	192: '\uF7BF', // questiondownsmall
+	193: '\u2081', // oneinferior
+	194: '\uF6F9', // Lslashsmall
+	201: '\uF7B8', // Cedillasmall
+	207: '\uF6FA', // OEsmall
+	208: '\u2012', // figuredash
+	209: '\uF6E6', // hyphensuperior
+	214: '\uF7A1', // exclamdownsmall
+	216: '\uF7FF', // Ydieresissmall
+	218: '\u00B9', // onesuperior
+	219: '\u00B2', // twosuperior
+	220: '\u00B3', // threesuperior
+	221: '\u2074', // foursuperior
+	222: '\u2075', // fivesuperior
+	223: '\u2076', // sixsuperior
+	224: '\u2077', // sevensuperior
+	225: '\u2079', // ninesuperior
+	226: '\u2070', // zerosuperior
+	228: '\uF6EC', // esuperior
+	229: '\uF6F1', // rsuperior
+	230: '\uF6F3', // tsuperior
+	233: '\uF6ED', // isuperior
+	234: '\uF6F2', // ssuperior
+	235: '\uF6EB', // dsuperior
+	241: '\uF6EE', // lsuperior
+	242: '\uF6FB', // Ogoneksmall
+	243: '\uF6F4', // Brevesmall
+	244: '\uF7AF', // Macronsmall
+	245: '\uF6EA', // bsuperior
+	246: '\u207F', // nsuperior
+	247: '\uF6EF', // msuperior
+	248: '\uF6E2', // commasuperior
+	249: '\uF6E8', // periodsuperior
+	250: '\uF6F7', // Dotaccentsmall
+	251: '\uF6FC', // Ringsmall
 }
 
 // Adobe Glyph List (partial - most common glyphs)
diff --git a/content/extract/glyphlist.go b/content/extract/glyphlist.go
new file mode 100644
index 0000000..2089a88
--- /dev/null
+++ b/content/extract/glyphlist.go
@@ -0,0 +1,780 @@
+package extract
+
+import (
+	"strconv"
+	"strings"
+	"sync"
+	"unicode/utf8"
+)
+
+// glyphNameToText converts a PostScript glyph name to the text it stands for,
+// following the Adobe Glyph List specification.
+func glyphNameToText(name string) string {
+	if unicode := glyphNameToUnicode(name); unicode != 0 {
+		return string(unicode)
+	}
+	name, _, _ = strings.Cut(name, ".") // a variant of the glyph
+	var text strings.Builder
+	for _, component := range strings.Split(name, "_") { // parts of a ligature
+		if unicode := glyphNameToUnicode(component); unicode != 0 {
+			text.WriteRune(unicode)
+		} else if hex := strings.TrimPrefix(component, "uni"); hex != component && len(hex)%4 == 0 {
+			for ; len(hex) > 0; hex = hex[4:] {
+				val, err := strconv.ParseUint(hex[:4], 16, 32)
+				if err != nil || !utf8.ValidRune(rune(val)) {
+					break
+				}
+				text.WriteRune(rune(val))
+			}
+		}
+	}
+	return text.String()
+}
+
+// glyphList returns the names of the Adobe Glyph List that adobeGlyphList lacks.
+var glyphList = sync.OnceValue(func() map[string]rune {
+	list := make(map[string]rune)
+	for _, entry := range strings.Split(strings.ReplaceAll(glyphNames, "\n", ""), ";") {
+		name, hex, _ := strings.Cut(entry, " ")
+		if val, err := strconv.ParseUint(hex, 16, 32); err == nil {
+			list[name] = rune(val)
+		}
+	}
+	return list
+})
+
+// glyphNames lists glyph names and their code points in hexadecimal.
+const glyphNames = `
+AEacute 01FC;AEmacron 01E2;AEsmall F7E6;Aacutesmall F7E1;Abreve 0102;Abreveacute 1EAE;Abrevecyrillic 04D0;
+Abrevedotbelow 1EB6;Abrevegrave 1EB0;Abrevehookabove 1EB2;Abrevetilde 1EB4;Acaron 01CD;Acircle 24B6;
+Acircumflexacute 1EA4;Acircumflexdotbelow 1EAC;Acircumflexgrave 1EA6;Acircumflexhookabove 1EA8;
+Acircumflexsmall F7E2;Acircumflextilde 1EAA;Acute F6C9;Acutesmall F7B4;Acyrillic 0410;Adblgrave 0200;
+Adieresiscyrillic 04D2;Adieresismacron 01DE;Adieresissmall F7E4;Adotbelow 1EA0;Adotmacron 01E0;
+Agravesmall F7E0;Ahookabove 1EA2;Aiecyrillic 04D4;Ainvertedbreve 0202;Alpha 0391;Alphatonos 0386;Amacron 0100;
+Amonospace FF21;Aogonek 0104;Aringacute 01FA;Aringbelow 1E00;Aringsmall F7E5;Asmall F761;Atildesmall F7E3;
+Aybarmenian 0531;Bcircle 24B7;Bdotaccent 1E02;Bdotbelow 1E04;Becyrillic 0411;Benarmenian 0532;Beta 0392;
+Bhook 0181;Blinebelow 1E06;Bmonospace FF22;Brevesmall F6F4;Bsmall F762;Btopbar 0182;Caarmenian 053E;
+Cacute 0106;Caron F6CA;Caronsmall F6F5;Ccaron 010C;Ccedillaacute 1E08;Ccedillasmall F7E7;Ccircle 24B8;
+Ccircumflex 0108;Cdot 010A;Cdotaccent 010A;Cedillasmall F7B8;Chaarmenian 0549;Cheabkhasiancyrillic 04BC;
+Checyrillic 0427;Chedescenderabkhasiancyrillic 04BE;Chedescendercyrillic 04B6;Chedieresiscyrillic 04F4;
+Cheharmenian 0543;Chekhakassiancyrillic 04CB;Cheverticalstrokecyrillic 04B8;Chi 03A7;Chook 0187;
+Circumflexsmall F6F6;Cmonospace FF23;Coarmenian 0551;Csmall F763;DZ 01F1;DZcaron 01C4;Daarmenian 0534;
+Dafrican 0189;Dcaron 010E;Dcedilla 1E10;Dcircle 24B9;Dcircumflexbelow 1E12;Dcroat 0110;Ddotaccent 1E0A;
+Ddotbelow 1E0C;Decyrillic 0414;Deicoptic 03EE;Delta 2206;Deltagreek 0394;Dhook 018A;Dieresis F6CB;
+DieresisAcute F6CC;DieresisGrave F6CD;Dieresissmall F7A8;Digammagreek 03DC;Djecyrillic 0402;Dlinebelow 1E0E;
+Dmonospace FF24;Dotaccentsmall F6F7;Dslash 0110;Dsmall F764;Dtopbar 018B;Dz 01F2;Dzcaron 01C5;
+Dzeabkhasiancyrillic 04E0;Dzecyrillic 0405;Dzhecyrillic 040F;Eacutesmall F7E9;Ebreve 0114;Ecaron 011A;
+Ecedillabreve 1E1C;Echarmenian 0535;Ecircle 24BA;Ecircumflexacute 1EBE;Ecircumflexbelow 1E18;
+Ecircumflexdotbelow 1EC6;Ecircumflexgrave 1EC0;Ecircumflexhookabove 1EC2;Ecircumflexsmall F7EA;
+Ecircumflextilde 1EC4;Ecyrillic 0404;Edblgrave 0204;Edieresissmall F7EB;Edot 0116;Edotaccent 0116;
+Edotbelow 1EB8;Efcyrillic 0424;Egravesmall F7E8;Eharmenian 0537;Ehookabove 1EBA;Eightroman 2167;
+Einvertedbreve 0206;Eiotifiedcyrillic 0464;Elcyrillic 041B;Elevenroman 216A;Emacron 0112;Emacronacute 1E16;
+Emacrongrave 1E14;Emcyrillic 041C;Emonospace FF25;Encyrillic 041D;Endescendercyrillic 04A2;Eng 014A;
+Enghecyrillic 04A4;Enhookcyrillic 04C7;Eogonek 0118;Eopen 0190;Epsilon 0395;Epsilontonos 0388;Ercyrillic 0420;
+Ereversed 018E;Ereversedcyrillic 042D;Escyrillic 0421;Esdescendercyrillic 04AA;Esh 01A9;Esmall F765;Eta 0397;
+Etarmenian 0538;Etatonos 0389;Ethsmall F7F0;Etilde 1EBC;Etildebelow 1E1A;Ezh 01B7;Ezhcaron 01EE;
+Ezhreversed 01B8;Fcircle 24BB;Fdotaccent 1E1E;Feharmenian 0556;Feicoptic 03E4;Fhook 0191;Fitacyrillic 0472;
+Fiveroman 2164;Fmonospace FF26;Fourroman 2163;Fsmall F766;GBsquare 3387;Gacute 01F4;Gamma 0393;
+Gammaafrican 0194;Gangiacoptic 03EA;Gbreve 011E;Gcaron 01E6;Gcedilla 0122;Gcircle 24BC;Gcircumflex 011C;
+Gcommaaccent 0122;Gdot 0120;Gdotaccent 0120;Gecyrillic 0413;Ghadarmenian 0542;Ghemiddlehookcyrillic 0494;
+Ghestrokecyrillic 0492;Gheupturncyrillic 0490;Ghook 0193;Gimarmenian 0533;Gjecyrillic 0403;Gmacron 1E20;
+Gmonospace FF27;Grave F6CE;Gravesmall F760;Gsmall F767;Gsmallhook 029B;Gstroke 01E4;H18533 25CF;H18543 25AA;
+H18551 25AB;H22073 25A1;HPsquare 33CB;Haabkhasiancyrillic 04A8;Hadescendercyrillic 04B2;Hardsigncyrillic 042A;
+Hbar 0126;Hbrevebelow 1E2A;Hcedilla 1E28;Hcircle 24BD;Hcircumflex 0124;Hdieresis 1E26;Hdotaccent 1E22;
+Hdotbelow 1E24;Hmonospace FF28;Hoarmenian 0540;Horicoptic 03E8;Hsmall F768;Hungarumlaut F6CF;
+Hungarumlautsmall F6F8;Hzsquare 3390;IAcyrillic 042F;IJ 0132;IUcyrillic 042E;Iacutesmall F7ED;Ibreve 012C;
+Icaron 01CF;Icircle 24BE;Icircumflexsmall F7EE;Icyrillic 0406;Idblgrave 0208;Idieresisacute 1E2E;
+Idieresiscyrillic 04E4;Idieresissmall F7EF;Idot 0130;Idotaccent 0130;Idotbelow 1ECA;Iebrevecyrillic 04D6;
+Iecyrillic 0415;Ifraktur 2111;Igravesmall F7EC;Ihookabove 1EC8;Iicyrillic 0418;Iinvertedbreve 020A;
+Iishortcyrillic 0419;Imacron 012A;Imacroncyrillic 04E2;Imonospace FF29;Iniarmenian 053B;Iocyrillic 0401;
+Iogonek 012E;Iota 0399;Iotaafrican 0196;Iotadieresis 03AA;Iotatonos 038A;Ismall F769;Istroke 0197;Itilde 0128;
+Itildebelow 1E2C;Izhitsacyrillic 0474;Izhitsadblgravecyrillic 0476;Jaarmenian 0541;Jcircle 24BF;
+Jcircumflex 0134;Jecyrillic 0408;Jheharmenian 054B;Jmonospace FF2A;Jsmall F76A;KBsquare 3385;KKsquare 33CD;
+Kabashkircyrillic 04A0;Kacute 1E30;Kacyrillic 041A;Kadescendercyrillic 049A;Kahookcyrillic 04C3;Kappa 039A;
+Kastrokecyrillic 049E;Kaverticalstrokecyrillic 049C;Kcaron 01E8;Kcedilla 0136;Kcircle 24C0;Kcommaaccent 0136;
+Kdotbelow 1E32;Keharmenian 0554;Kenarmenian 053F;Khacyrillic 0425;Kheicoptic 03E6;Khook 0198;Kjecyrillic 040C;
+Klinebelow 1E34;Kmonospace FF2B;Koppacyrillic 0480;Koppagreek 03DE;Ksicyrillic 046E;Ksmall F76B;LJ 01C7;
+LL F6BF;Lacute 0139;Lambda 039B;Lcaron 013D;Lcedilla 013B;Lcircle 24C1;Lcircumflexbelow 1E3C;
+Lcommaaccent 013B;Ldot 013F;Ldotaccent 013F;Ldotbelow 1E36;Ldotbelowmacron 1E38;Liwnarmenian 053C;Lj 01C8;
+Ljecyrillic 0409;Llinebelow 1E3A;Lmonospace FF2C;Lslashsmall F6F9;Lsmall F76C;MBsquare 3386;Macron F6D0;
+Macronsmall F7AF;Macute 1E3E;Mcircle 24C2;Mdotaccent 1E40;Mdotbelow 1E42;Menarmenian 0544;Mmonospace FF2D;
+Msmall F76D;Mturned 019C;Mu 039C;NJ 01CA;Nacute 0143;Ncaron 0147;Ncedilla 0145;Ncircle 24C3;
+Ncircumflexbelow 1E4A;Ncommaaccent 0145;Ndotaccent 1E44;Ndotbelow 1E46;Nhookleft 019D;Nineroman 2168;Nj 01CB;
+Njecyrillic 040A;Nlinebelow 1E48;Nmonospace FF2E;Nowarmenian 0546;Nsmall F76E;Ntildesmall F7F1;Nu 039D;
+OEsmall F6FA;Oacutesmall F7F3;Obarredcyrillic 04E8;Obarreddieresiscyrillic 04EA;Obreve 014E;Ocaron 01D1;
+Ocenteredtilde 019F;Ocircle 24C4;Ocircumflexacute 1ED0;Ocircumflexdotbelow 1ED8;Ocircumflexgrave 1ED2;
+Ocircumflexhookabove 1ED4;Ocircumflexsmall F7F4;Ocircumflextilde 1ED6;Ocyrillic 041E;Odblacute 0150;
+Odblgrave 020C;Odieresiscyrillic 04E6;Odieresissmall F7F6;Odotbelow 1ECC;Ogoneksmall F6FB;Ogravesmall F7F2;
+Oharmenian 0555;Ohm 2126;Ohookabove 1ECE;Ohorn 01A0;Ohornacute 1EDA;Ohorndotbelow 1EE2;Ohorngrave 1EDC;
+Ohornhookabove 1EDE;Ohorntilde 1EE0;Ohungarumlaut 0150;Oi 01A2;Oinvertedbreve 020E;Omacron 014C;
+Omacronacute 1E52;Omacrongrave 1E50;Omega 2126;Omegacyrillic 0460;Omegagreek 03A9;Omegaroundcyrillic 047A;
+Omegatitlocyrillic 047C;Omegatonos 038F;Omicron 039F;Omicrontonos 038C;Omonospace FF2F;Oneroman 2160;
+Oogonek 01EA;Oogonekmacron 01EC;Oopen 0186;Oslashacute 01FE;Oslashsmall F7F8;Osmall F76F;Ostrokeacute 01FE;
+Otcyrillic 047E;Otildeacute 1E4C;Otildedieresis 1E4E;Otildesmall F7F5;Pacute 1E54;Pcircle 24C5;
+Pdotaccent 1E56;Pecyrillic 041F;Peharmenian 054A;Pemiddlehookcyrillic 04A6;Phi 03A6;Phook 01A4;Pi 03A0;
+Piwrarmenian 0553;Pmonospace FF30;Psi 03A8;Psicyrillic 0470;Psmall F770;Qcircle 24C6;Qmonospace FF31;
+Qsmall F771;Raarmenian 054C;Racute 0154;Rcaron 0158;Rcedilla 0156;Rcircle 24C7;Rcommaaccent 0156;
+Rdblgrave 0210;Rdotaccent 1E58;Rdotbelow 1E5A;Rdotbelowmacron 1E5C;Reharmenian 0550;Rfraktur 211C;Rho 03A1;
+Ringsmall F6FC;Rinvertedbreve 0212;Rlinebelow 1E5E;Rmonospace FF32;Rsmall F772;Rsmallinverted 0281;
+Rsmallinvertedsuperior 02B6;SF010000 250C;SF020000 2514;SF030000 2510;SF040000 2518;SF050000 253C;
+SF060000 252C;SF070000 2534;SF080000 251C;SF090000 2524;SF100000 2500;SF110000 2502;SF190000 2561;
+SF200000 2562;SF210000 2556;SF220000 2555;SF230000 2563;SF240000 2551;SF250000 2557;SF260000 255D;
+SF270000 255C;SF280000 255B;SF360000 255E;SF370000 255F;SF380000 255A;SF390000 2554;SF400000 2569;
+SF410000 2566;SF420000 2560;SF430000 2550;SF440000 256C;SF450000 2567;SF460000 2568;SF470000 2564;
+SF480000 2565;SF490000 2559;SF500000 2558;SF510000 2552;SF520000 2553;SF530000 256B;SF540000 256A;Sacute 015A;
+Sacutedotaccent 1E64;Sampigreek 03E0;Scarondotaccent 1E66;Scaronsmall F6FD;Scedilla 015E;Schwa 018F;
+Schwacyrillic 04D8;Schwadieresiscyrillic 04DA;Scircle 24C8;Scircumflex 015C;Scommaaccent 0218;Sdotaccent 1E60;
+Sdotbelow 1E62;Sdotbelowdotaccent 1E68;Seharmenian 054D;Sevenroman 2166;Shaarmenian 0547;Shacyrillic 0428;
+Shchacyrillic 0429;Sheicoptic 03E2;Shhacyrillic 04BA;Shimacoptic 03EC;Sigma 03A3;Sixroman 2165;
+Smonospace FF33;Softsigncyrillic 042C;Ssmall F773;Stigmagreek 03DA;Tau 03A4;Tbar 0166;Tcaron 0164;
+Tcedilla 0162;Tcircle 24C9;Tcircumflexbelow 1E70;Tcommaaccent 0162;Tdotaccent 1E6A;Tdotbelow 1E6C;
+Tecyrillic 0422;Tedescendercyrillic 04AC;Tenroman 2169;Tetsecyrillic 04B4;Theta 0398;Thook 01AC;
+Thornsmall F7FE;Threeroman 2162;Tildesmall F6FE;Tiwnarmenian 054F;Tlinebelow 1E6E;Tmonospace FF34;
+Toarmenian 0539;Tonefive 01BC;Tonesix 0184;Tonetwo 01A7;Tretroflexhook 01AE;Tsecyrillic 0426;
+Tshecyrillic 040B;Tsmall F774;Twelveroman 216B;Tworoman 2161;Uacutesmall F7FA;Ubreve 016C;Ucaron 01D3;
+Ucircle 24CA;Ucircumflexbelow 1E76;Ucircumflexsmall F7FB;Ucyrillic 0423;Udblacute 0170;Udblgrave 0214;
+Udieresisacute 01D7;Udieresisbelow 1E72;Udieresiscaron 01D9;Udieresiscyrillic 04F0;Udieresisgrave 01DB;
+Udieresismacron 01D5;Udieresissmall F7FC;Udotbelow 1EE4;Ugravesmall F7F9;Uhookabove 1EE6;Uhorn 01AF;
+Uhornacute 1EE8;Uhorndotbelow 1EF0;Uhorngrave 1EEA;Uhornhookabove 1EEC;Uhorntilde 1EEE;Uhungarumlaut 0170;
+Uhungarumlautcyrillic 04F2;Uinvertedbreve 0216;Ukcyrillic 0478;Umacron 016A;Umacroncyrillic 04EE;
+Umacrondieresis 1E7A;Umonospace FF35;Uogonek 0172;Upsilon 03A5;Upsilon1 03D2;Upsilonacutehooksymbolgreek 03D3;
+Upsilonafrican 01B1;Upsilondieresis 03AB;Upsilondieresishooksymbolgreek 03D4;Upsilonhooksymbol 03D2;
+Upsilontonos 038E;Uring 016E;Ushortcyrillic 040E;Usmall F775;Ustraightcyrillic 04AE;
+Ustraightstrokecyrillic 04B0;Utilde 0168;Utildeacute 1E78;Utildebelow 1E74;Vcircle 24CB;Vdotbelow 1E7E;
+Vecyrillic 0412;Vewarmenian 054E;Vhook 01B2;Vmonospace FF36;Voarmenian 0548;Vsmall F776;Vtilde 1E7C;
+Wacute 1E82;Wcircle 24CC;Wcircumflex 0174;Wdieresis 1E84;Wdotaccent 1E86;Wdotbelow 1E88;Wgrave 1E80;
+Wmonospace FF37;Wsmall F777;Xcircle 24CD;Xdieresis 1E8C;Xdotaccent 1E8A;Xeharmenian 053D;Xi 039E;
+Xmonospace FF38;Xsmall F778;Yacutesmall F7FD;Yatcyrillic 0462;Ycircle 24CE;Ycircumflex 0176;
+Ydieresissmall F7FF;Ydotaccent 1E8E;Ydotbelow 1EF4;Yericyrillic 042B;Yerudieresiscyrillic 04F8;Ygrave 1EF2;
+Yhook 01B3;Yhookabove 1EF6;Yiarmenian 0545;Yicyrillic 0407;Yiwnarmenian 0552;Ymonospace FF39;Ysmall F779;
+Ytilde 1EF8;Yusbigcyrillic 046A;Yusbigiotifiedcyrillic 046C;Yuslittlecyrillic 0466;
+Yuslittleiotifiedcyrillic 0468;Zaarmenian 0536;Zacute 0179;Zcaronsmall F6FF;Zcircle 24CF;Zcircumflex 1E90;
+Zdot 017B;Zdotaccent 017B;Zdotbelow 1E92;Zecyrillic 0417;Zedescendercyrillic 0498;Zedieresiscyrillic 04DE;
+Zeta 0396;Zhearmenian 053A;Zhebrevecyrillic 04C1;Zhecyrillic 0416;Zhedescendercyrillic 0496;
+Zhedieresiscyrillic 04DC;Zlinebelow 1E94;Zmonospace FF3A;Zsmall F77A;Zstroke 01B5;aabengali 0986;aadeva 0906;
+aagujarati 0A86;aagurmukhi 0A06;aamatragurmukhi 0A3E;aarusquare 3303;aavowelsignbengali 09BE;
+aavowelsigndeva 093E;aavowelsigngujarati 0ABE;abbreviationmarkarmenian 055F;abbreviationsigndeva 0970;
+abengali 0985;abopomofo 311A;abreve 0103;abreveacute 1EAF;abrevecyrillic 04D1;abrevedotbelow 1EB7;
+abrevegrave 1EB1;abrevehookabove 1EB3;abrevetilde 1EB5;acaron 01CE;acircle 24D0;acircumflexacute 1EA5;
+acircumflexdotbelow 1EAD;acircumflexgrave 1EA7;acircumflexhookabove 1EA9;acircumflextilde 1EAB;
+acutebelowcmb 0317;acutecmb 0301;acutecomb 0301;acutedeva 0954;acutelowmod 02CF;acutetonecmb 0341;
+acyrillic 0430;adblgrave 0201;addakgurmukhi 0A71;adeva 0905;adieresiscyrillic 04D3;adieresismacron 01DF;
+adotbelow 1EA1;adotmacron 01E1;aeacute 01FD;aekorean 3150;aemacron 01E3;afii00208 2015;afii08941 20A4;
+afii10017 0410;afii10018 0411;afii10019 0412;afii10020 0413;afii10021 0414;afii10022 0415;afii10023 0401;
+afii10024 0416;afii10025 0417;afii10026 0418;afii10027 0419;afii10028 041A;afii10029 041B;afii10030 041C;
+afii10031 041D;afii10032 041E;afii10033 041F;afii10034 0420;afii10035 0421;afii10036 0422;afii10037 0423;
+afii10038 0424;afii10039 0425;afii10040 0426;afii10041 0427;afii10042 0428;afii10043 0429;afii10044 042A;
+afii10045 042B;afii10046 042C;afii10047 042D;afii10048 042E;afii10049 042F;afii10050 0490;afii10051 0402;
+afii10052 0403;afii10053 0404;afii10054 0405;afii10055 0406;afii10056 0407;afii10057 0408;afii10058 0409;
+afii10059 040A;afii10060 040B;afii10061 040C;afii10062 040E;afii10063 F6C4;afii10064 F6C5;afii10065 0430;
+afii10066 0431;afii10067 0432;afii10068 0433;afii10069 0434;afii10070 0435;afii10071 0451;afii10072 0436;
+afii10073 0437;afii10074 0438;afii10075 0439;afii10076 043A;afii10077 043B;afii10078 043C;afii10079 043D;
+afii10080 043E;afii10081 043F;afii10082 0440;afii10083 0441;afii10084 0442;afii10085 0443;afii10086 0444;
+afii10087 0445;afii10088 0446;afii10089 0447;afii10090 0448;afii10091 0449;afii10092 044A;afii10093 044B;
+afii10094 044C;afii10095 044D;afii10096 044E;afii10097 044F;afii10098 0491;afii10099 0452;afii10100 0453;
+afii10101 0454;afii10102 0455;afii10103 0456;afii10104 0457;afii10105 0458;afii10106 0459;afii10107 045A;
+afii10108 045B;afii10109 045C;afii10110 045E;afii10145 040F;afii10146 0462;afii10147 0472;afii10148 0474;
+afii10192 F6C6;afii10193 045F;afii10194 0463;afii10195 0473;afii10196 0475;afii10831 F6C7;afii10832 F6C8;
+afii10846 04D9;afii299 200E;afii300 200F;afii301 200D;afii57381 066A;afii57388 060C;afii57392 0660;
+afii57393 0661;afii57394 0662;afii57395 0663;afii57396 0664;afii57397 0665;afii57398 0666;afii57399 0667;
+afii57400 0668;afii57401 0669;afii57403 061B;afii57407 061F;afii57409 0621;afii57410 0622;afii57411 0623;
+afii57412 0624;afii57413 0625;afii57414 0626;afii57415 0627;afii57416 0628;afii57417 0629;afii57418 062A;
+afii57419 062B;afii57420 062C;afii57421 062D;afii57422 062E;afii57423 062F;afii57424 0630;afii57425 0631;
+afii57426 0632;afii57427 0633;afii57428 0634;afii57429 0635;afii57430 0636;afii57431 0637;afii57432 0638;
+afii57433 0639;afii57434 063A;afii57440 0640;afii57441 0641;afii57442 0642;afii57443 0643;afii57444 0644;
+afii57445 0645;afii57446 0646;afii57448 0648;afii57449 0649;afii57450 064A;afii57451 064B;afii57452 064C;
+afii57453 064D;afii57454 064E;afii57455 064F;afii57456 0650;afii57457 0651;afii57458 0652;afii57470 0647;
+afii57505 06A4;afii57506 067E;afii57507 0686;afii57508 0698;afii57509 06AF;afii57511 0679;afii57512 0688;
+afii57513 0691;afii57514 06BA;afii57519 06D2;afii57534 06D5;afii57636 20AA;afii57645 05BE;afii57658 05C3;
+afii57664 05D0;afii57665 05D1;afii57666 05D2;afii57667 05D3;afii57668 05D4;afii57669 05D5;afii57670 05D6;
+afii57671 05D7;afii57672 05D8;afii57673 05D9;afii57674 05DA;afii57675 05DB;afii57676 05DC;afii57677 05DD;
+afii57678 05DE;afii57679 05DF;afii57680 05E0;afii57681 05E1;afii57682 05E2;afii57683 05E3;afii57684 05E4;
+afii57685 05E5;afii57686 05E6;afii57687 05E7;afii57688 05E8;afii57689 05E9;afii57690 05EA;afii57694 FB2A;
+afii57695 FB2B;afii57700 FB4B;afii57705 FB1F;afii57716 05F0;afii57717 05F1;afii57718 05F2;afii57723 FB35;
+afii57793 05B4;afii57794 05B5;afii57795 05B6;afii57796 05BB;afii57797 05B8;afii57798 05B7;afii57799 05B0;
+afii57800 05B2;afii57801 05B1;afii57802 05B3;afii57803 05C2;afii57804 05C1;afii57806 05B9;afii57807 05BC;
+afii57839 05BD;afii57841 05BF;afii57842 05C0;afii57929 02BC;afii61248 2105;afii61289 2113;afii61352 2116;
+afii61573 202C;afii61574 202D;afii61575 202E;afii61664 200C;afii63167 066D;afii64937 02BD;agujarati 0A85;
+agurmukhi 0A05;ahiragana 3042;ahookabove 1EA3;aibengali 0990;aibopomofo 311E;aideva 0910;aiecyrillic 04D5;
+aigujarati 0A90;aigurmukhi 0A10;aimatragurmukhi 0A48;ainarabic 0639;ainfinalarabic FECA;aininitialarabic FECB;
+ainmedialarabic FECC;ainvertedbreve 0203;aivowelsignbengali 09C8;aivowelsigndeva 0948;
+aivowelsigngujarati 0AC8;akatakana 30A2;akatakanahalfwidth FF71;akorean 314F;alef 05D0;alefarabic 0627;
+alefdageshhebrew FB30;aleffinalarabic FE8E;alefhamzaabovearabic 0623;alefhamzaabovefinalarabic FE84;
+alefhamzabelowarabic 0625;alefhamzabelowfinalarabic FE88;alefhebrew 05D0;aleflamedhebrew FB4F;
+alefmaddaabovearabic 0622;alefmaddaabovefinalarabic FE82;alefmaksuraarabic 0649;alefmaksurafinalarabic FEF0;
+alefmaksurainitialarabic FEF3;alefmaksuramedialarabic FEF4;alefpatahhebrew FB2E;alefqamatshebrew FB2F;
+aleph 2135;allequal 224C;alpha 03B1;alphatonos 03AC;amacron 0101;amonospace FF41;ampersandmonospace FF06;
+ampersandsmall F726;amsquare 33C2;anbopomofo 3122;angbopomofo 3124;angbracketleft 3008;angbracketleftBig 2329;
+angbracketleftBigg 2329;angbracketleftbig 2329;angbracketleftbigg 2329;angbracketright 3009;
+angbracketrightBig 232A;angbracketrightBigg 232A;angbracketrightbig 232A;angbracketrightbigg 232A;
+angkhankhuthai 0E5A;angle 2220;anglebracketleft 3008;anglebracketleftvertical FE3F;anglebracketright 3009;
+anglebracketrightvertical FE40;angleleft 2329;angleright 232A;angstrom 212B;anoteleia 0387;anudattadeva 0952;
+anusvarabengali 0982;anusvaradeva 0902;anusvaragujarati 0A82;aogonek 0105;apaatosquare 3300;aparen 249C;
+apostrophearmenian 055A;apostrophemod 02BC;apple F8FF;approaches 2250;approxequal 2248;
+approxequalorimage 2252;approximatelyequal 2245;araeaekorean 318E;araeakorean 318D;arc 2312;
+arighthalfring 1E9A;aringacute 01FB;aringbelow 1E01;arrowboth 2194;arrowdashdown 21E3;arrowdashleft 21E0;
+arrowdashright 21E2;arrowdashup 21E1;arrowdblboth 21D4;arrowdbldown 21D3;arrowdblleft 21D0;arrowdblright 21D2;
+arrowdblup 21D1;arrowdown 2193;arrowdownleft 2199;arrowdownright 2198;arrowdownwhite 21E9;
+arrowheaddownmod 02C5;arrowheadleftmod 02C2;arrowheadrightmod 02C3;arrowheadupmod 02C4;arrowhookleft 21AA;
+arrowhookright 21A9;arrowhorizex F8E7;arrowleft 2190;arrowleftbothalf 21BD;arrowleftdbl 21D0;
+arrowleftdblstroke 21CD;arrowleftoverright 21C6;arrowlefttophalf 21BC;arrowleftwhite 21E6;arrownortheast 2197;
+arrownorthwest 2196;arrowright 2192;arrowrightbothalf 21C1;arrowrightdblstroke 21CF;arrowrightheavy 279E;
+arrowrightoverleft 21C4;arrowrighttophalf 21C0;arrowrightwhite 21E8;arrowsoutheast 2198;arrowsouthwest 2199;
+arrowtableft 21E4;arrowtabright 21E5;arrowup 2191;arrowupdn 2195;arrowupdnbse 21A8;arrowupdownbase 21A8;
+arrowupleft 2196;arrowupleftofdown 21C5;arrowupright 2197;arrowupwhite 21E7;arrowvertex F8E6;
+asciicircummonospace FF3E;asciitildemonospace FF5E;ascript 0251;ascriptturned 0252;asmallhiragana 3041;
+asmallkatakana 30A1;asmallkatakanahalfwidth FF67;asteriskaltonearabic 066D;asteriskarabic 066D;
+asteriskmath 2217;asteriskmonospace FF0A;asterisksmall FE61;asterism 2042;asuperior F6E9;
+asymptoticallyequal 2243;atmonospace FF20;atsmall FE6B;aturned 0250;aubengali 0994;aubopomofo 3120;
+audeva 0914;augujarati 0A94;augurmukhi 0A14;aulengthmarkbengali 09D7;aumatragurmukhi 0A4C;
+auvowelsignbengali 09CC;auvowelsigndeva 094C;auvowelsigngujarati 0ACC;avagrahadeva 093D;aybarmenian 0561;
+ayin 05E2;ayinaltonehebrew FB20;ayinhebrew 05E2;babengali 09AC;backslashBig 2216;backslashBigg 2216;
+backslashbig 2216;backslashbigg 2216;backslashmonospace FF3C;badeva 092C;bagujarati 0AAC;bagurmukhi 0A2C;
+bahiragana 3070;bahtthai 0E3F;bakatakana 30D0;bardbl 2016;barmonospace FF5C;bbopomofo 3105;bcircle 24D1;
+bdotaccent 1E03;bdotbelow 1E05;beamedsixteenthnotes 266C;because 2235;becyrillic 0431;beharabic 0628;
+behfinalarabic FE90;behinitialarabic FE91;behiragana 3079;behmedialarabic FE92;behmeeminitialarabic FC9F;
+behmeemisolatedarabic FC08;behnoonfinalarabic FC6D;bekatakana 30D9;benarmenian 0562;bet 05D1;beta 03B2;
+betasymbolgreek 03D0;betdagesh FB31;betdageshhebrew FB31;bethebrew 05D1;betrafehebrew FB4C;bhabengali 09AD;
+bhadeva 092D;bhagujarati 0AAD;bhagurmukhi 0A2D;bhook 0253;bihiragana 3073;bikatakana 30D3;bilabialclick 0298;
+bindigurmukhi 0A02;birusquare 3331;blackcircle 25CF;blackdiamond 25C6;blackdownpointingtriangle 25BC;
+blackleftpointingpointer 25C4;blackleftpointingtriangle 25C0;blacklenticularbracketleft 3010;
+blacklenticularbracketleftvertical FE3B;blacklenticularbracketright 3011;
+blacklenticularbracketrightvertical FE3C;blacklowerlefttriangle 25E3;blacklowerrighttriangle 25E2;
+blackrectangle 25AC;blackrightpointingpointer 25BA;blackrightpointingtriangle 25B6;blacksmallsquare 25AA;
+blacksmilingface 263B;blacksquare 25A0;blackstar 2605;blackupperlefttriangle 25E4;
+blackupperrighttriangle 25E5;blackuppointingsmalltriangle 25B4;blackuppointingtriangle 25B2;blank 2423;
+blinebelow 1E07;block 2588;bmonospace FF42;bobaimaithai 0E1A;bohiragana 307C;bokatakana 30DC;bparen 249D;
+bqsquare 33C3;braceex F8F4;bracehtipdownleft FE37;bracehtipdownright FE37;bracehtipupleft FE38;
+bracehtipupright FE38;braceleftBig 007B;braceleftBigg 007B;braceleftbig 007B;braceleftbigg 007B;
+braceleftbt F8F3;braceleftmid F8F2;braceleftmonospace FF5B;braceleftsmall FE5B;bracelefttp F8F1;
+braceleftvertical FE37;bracerightBig 007D;bracerightBigg 007D;bracerightbig 007D;bracerightbigg 007D;
+bracerightbt F8FE;bracerightmid F8FD;bracerightmonospace FF5D;bracerightsmall FE5C;bracerighttp F8FC;
+bracerightvertical FE38;bracketleftBig 005B;bracketleftBigg 005B;bracketleftbig 005B;bracketleftbigg 005B;
+bracketleftbt F8F0;bracketleftex F8EF;bracketleftmonospace FF3B;bracketlefttp F8EE;bracketrightBig 005D;
+bracketrightBigg 005D;bracketrightbig 005D;bracketrightbigg 005D;bracketrightbt F8FB;bracketrightex F8FA;
+bracketrightmonospace FF3D;bracketrighttp F8F9;brevebelowcmb 032E;brevecmb 0306;breveinvertedbelowcmb 032F;
+breveinvertedcmb 0311;breveinverteddoublecmb 0361;bridgebelowcmb 032A;bridgeinvertedbelowcmb 033A;
+bstroke 0180;bsuperior F6EA;btopbar 0183;buhiragana 3076;bukatakana 30D6;bulletinverse 25D8;
+bulletoperator 2219;bullseye 25CE;caarmenian 056E;cabengali 099A;cacute 0107;cadeva 091A;cagujarati 0A9A;
+cagurmukhi 0A1A;calsquare 3388;candrabindubengali 0981;candrabinducmb 0310;candrabindudeva 0901;
+candrabindugujarati 0A81;capslock 21EA;careof 2105;caronbelowcmb 032C;caroncmb 030C;carriagereturn 21B5;
+cbopomofo 3118;ccaron 010D;ccedillaacute 1E09;ccircle 24D2;ccircumflex 0109;ccurl 0255;cdot 010B;
+cdotaccent 010B;cdsquare 33C5;cedillacmb 0327;ceilingleftBig 2308;ceilingleftBigg 2308;ceilingleftbig 2308;
+ceilingleftbigg 2308;ceilingrightBig 2309;ceilingrightBigg 2309;ceilingrightbig 2309;ceilingrightbigg 2309;
+centigrade 2103;centinferior F6DF;centmonospace FFE0;centoldstyle F7A2;centsuperior F6E0;chaarmenian 0579;
+chabengali 099B;chadeva 091B;chagujarati 0A9B;chagurmukhi 0A1B;chbopomofo 3114;cheabkhasiancyrillic 04BD;
+checkmark 2713;checyrillic 0447;chedescenderabkhasiancyrillic 04BF;chedescendercyrillic 04B7;
+chedieresiscyrillic 04F5;cheharmenian 0573;chekhakassiancyrillic 04CC;cheverticalstrokecyrillic 04B9;chi 03C7;
+chieuchacirclekorean 3277;chieuchaparenkorean 3217;chieuchcirclekorean 3269;chieuchkorean 314A;
+chieuchparenkorean 3209;chochangthai 0E0A;chochanthai 0E08;chochingthai 0E09;chochoethai 0E0C;chook 0188;
+cieucacirclekorean 3276;cieucaparenkorean 3216;cieuccirclekorean 3268;cieuckorean 3148;cieucparenkorean 3208;
+cieucuparenkorean 321C;circle 25CB;circlecopyrt 00A9;circledotdisplay 2299;circledottext 2299;
+circlemultiply 2297;circlemultiplydisplay 2297;circlemultiplytext 2297;circleot 2299;circleplus 2295;
+circleplusdisplay 2295;circleplustext 2295;circlepostalmark 3036;circlewithlefthalfblack 25D0;
+circlewithrighthalfblack 25D1;circumflexbelowcmb 032D;circumflexcmb 0302;clear 2327;clickalveolar 01C2;
+clickdental 01C0;clicklateral 01C1;clickretroflex 01C3;club 2663;clubsuitblack 2663;clubsuitwhite 2667;
+cmcubedsquare 33A4;cmonospace FF43;cmsquaredsquare 33A0;coarmenian 0581;colonmonetary 20A1;
+colonmonospace FF1A;colonsign 20A1;colonsmall FE55;colontriangularhalfmod 02D1;colontriangularmod 02D0;
+commaabovecmb 0313;commaaboverightcmb 0315;commaaccent F6C3;commaarabic 060C;commaarmenian 055D;
+commainferior F6E1;commamonospace FF0C;commareversedabovecmb 0314;commareversedmod 02BD;commasmall FE50;
+commasuperior F6E2;commaturnedabovecmb 0312;commaturnedmod 02BB;compass 263C;congruent 2245;
+contintegraldisplay 222E;contintegraltext 222E;contourintegral 222E;control 2303;controlACK 0006;
+controlBEL 0007;controlBS 0008;controlCAN 0018;controlCR 000D;controlDC1 0011;controlDC2 0012;controlDC3 0013;
+controlDC4 0014;controlDEL 007F;controlDLE 0010;controlEM 0019;controlENQ 0005;controlEOT 0004;
+controlESC 001B;controlETB 0017;controlETX 0003;controlFF 000C;controlFS 001C;controlGS 001D;controlHT 0009;
+controlLF 000A;controlNAK 0015;controlNULL 0000;controlRS 001E;controlSI 000F;controlSO 000E;controlSOT 0002;
+controlSTX 0001;controlSUB 001A;controlSYN 0016;controlUS 001F;controlVT 000B;coproductdisplay 2210;
+coproducttext 2210;copyrightsans F8E9;copyrightserif F6D9;cornerbracketleft 300C;
+cornerbracketlefthalfwidth FF62;cornerbracketleftvertical FE41;cornerbracketright 300D;
+cornerbracketrighthalfwidth FF63;cornerbracketrightvertical FE42;corporationsquare 337F;cosquare 33C7;
+coverkgsquare 33C6;cparen 249E;cruzeiro 20A2;cstretched 0297;curlyand 22CF;curlyor 22CE;cyrBreve F6D1;
+cyrFlex F6D2;cyrbreve F6D4;cyrflex F6D5;daarmenian 0564;dabengali 09A6;dadarabic 0636;dadeva 0926;
+dadfinalarabic FEBE;dadinitialarabic FEBF;dadmedialarabic FEC0;dagesh 05BC;dageshhebrew 05BC;dagujarati 0AA6;
+dagurmukhi 0A26;dahiragana 3060;dakatakana 30C0;dalarabic 062F;dalet 05D3;daletdagesh FB33;
+daletdageshhebrew FB33;dalethebrew 05D3;dalfinalarabic FEAA;dammaarabic 064F;dammalowarabic 064F;
+dammatanaltonearabic 064C;dammatanarabic 064C;danda 0964;dargahebrew 05A7;dargalefthebrew 05A7;
+dasiapneumatacyrilliccmb 0485;dblGrave F6D3;dblanglebracketleft 300A;dblanglebracketleftvertical FE3D;
+dblanglebracketright 300B;dblanglebracketrightvertical FE3E;dblarchinvertedbelowcmb 032B;dblarrowleft 21D4;
+dblarrowright 21D2;dbldanda 0965;dblgrave F6D6;dblgravecmb 030F;dblintegral 222C;dbllowline 2017;
+dbllowlinecmb 0333;dbloverlinecmb 033F;dblprimemod 02BA;dblverticalbar 2016;dblverticallineabovecmb 030E;
+dbopomofo 3109;dbsquare 33C8;dcaron 010F;dcedilla 1E11;dcircle 24D3;dcircumflexbelow 1E13;dcroat 0111;
+ddabengali 09A1;ddadeva 0921;ddagujarati 0AA1;ddagurmukhi 0A21;ddalarabic 0688;ddalfinalarabic FB89;
+dddhadeva 095C;ddhabengali 09A2;ddhadeva 0922;ddhagujarati 0AA2;ddhagurmukhi 0A22;ddotaccent 1E0B;
+ddotbelow 1E0D;decimalseparatorarabic 066B;decimalseparatorpersian 066B;decyrillic 0434;dehihebrew 05AD;
+dehiragana 3067;deicoptic 03EF;dekatakana 30C7;deleteleft 232B;deleteright 2326;delta 03B4;deltaturned 018D;
+denominatorminusonenumeratorbengali 09F8;dezh 02A4;dhabengali 09A7;dhadeva 0927;dhagujarati 0AA7;
+dhagurmukhi 0A27;dhook 0257;dialytikatonos 0385;dialytikatonoscmb 0344;diamond 2666;diamondsuitwhite 2662;
+dieresisacute F6D7;dieresisbelowcmb 0324;dieresiscmb 0308;dieresisgrave F6D8;dieresistonos 0385;
+dihiragana 3062;dikatakana 30C2;dittomark 3003;divides 2223;divisionslash 2215;djecyrillic 0452;dkshade 2593;
+dlinebelow 1E0F;dlsquare 3397;dmacron 0111;dmonospace FF44;dnblock 2584;dochadathai 0E0E;dodekthai 0E14;
+dohiragana 3069;dokatakana 30C9;dollarinferior F6E3;dollarmonospace FF04;dollaroldstyle F724;dollarsmall FE69;
+dollarsuperior F6E4;dong 20AB;dorusquare 3326;dotaccentcmb 0307;dotbelowcmb 0323;dotbelowcomb 0323;
+dotkatakana 30FB;dotlessj F6BE;dotlessjstrokehook 0284;dotmath 22C5;dottedcircle 25CC;doubleyodpatah FB1F;
+doubleyodpatahhebrew FB1F;downtackbelowcmb 031E;downtackmod 02D5;dparen 249F;dsuperior F6EB;dtail 0256;
+dtopbar 018C;duhiragana 3065;dukatakana 30C5;dz 01F3;dzaltone 02A3;dzcaron 01C6;dzcurl 02A5;
+dzeabkhasiancyrillic 04E1;dzecyrillic 0455;dzhecyrillic 045F;earth 2641;ebengali 098F;ebopomofo 311C;
+ebreve 0115;ecandradeva 090D;ecandragujarati 0A8D;ecandravowelsigndeva 0945;ecandravowelsigngujarati 0AC5;
+ecaron 011B;ecedillabreve 1E1D;echarmenian 0565;echyiwnarmenian 0587;ecircle 24D4;ecircumflexacute 1EBF;
+ecircumflexbelow 1E19;ecircumflexdotbelow 1EC7;ecircumflexgrave 1EC1;ecircumflexhookabove 1EC3;
+ecircumflextilde 1EC5;ecyrillic 0454;edblgrave 0205;edeva 090F;edot 0117;edotaccent 0117;edotbelow 1EB9;
+eegurmukhi 0A0F;eematragurmukhi 0A47;efcyrillic 0444;egujarati 0A8F;eharmenian 0567;ehbopomofo 311D;
+ehiragana 3048;ehookabove 1EBB;eibopomofo 311F;eightarabic 0668;eightbengali 09EE;eightcircle 2467;
+eightcircleinversesansserif 2791;eightdeva 096E;eighteencircle 2471;eighteenparen 2485;eighteenperiod 2499;
+eightgujarati 0AEE;eightgurmukhi 0A6E;eighthackarabic 0668;eighthangzhou 3028;eighthnotebeamed 266B;
+eightideographicparen 3227;eightinferior 2088;eightmonospace FF18;eightoldstyle F738;eightparen 247B;
+eightperiod 248F;eightpersian 06F8;eightroman 2177;eightsuperior 2078;eightthai 0E58;einvertedbreve 0207;
+eiotifiedcyrillic 0465;ekatakana 30A8;ekatakanahalfwidth FF74;ekonkargurmukhi 0A74;ekorean 3154;
+elcyrillic 043B;element 2208;elevencircle 246A;elevenparen 247E;elevenperiod 2492;elevenroman 217A;
+ellipsisvertical 22EE;emacron 0113;emacronacute 1E17;emacrongrave 1E15;emcyrillic 043C;emdashvertical FE31;
+emonospace FF45;emphasismarkarmenian 055B;emptyset 2205;enbopomofo 3123;encyrillic 043D;endashvertical FE32;
+endescendercyrillic 04A3;eng 014B;engbopomofo 3125;enghecyrillic 04A5;enhookcyrillic 04C8;enspace 2002;
+eogonek 0119;eokorean 3153;eopen 025B;eopenclosed 029A;eopenreversed 025C;eopenreversedclosed 025E;
+eopenreversedhook 025D;eparen 24A0;epsilon 03B5;epsilontonos 03AD;equalmonospace FF1D;equalsmall FE66;
+equalsuperior 207C;equivalence 2261;erbopomofo 3126;ercyrillic 0440;ereversed 0258;ereversedcyrillic 044D;
+escyrillic 0441;esdescendercyrillic 04AB;esh 0283;eshcurl 0286;eshortdeva 090E;eshortvowelsigndeva 0946;
+eshreversedloop 01AA;eshsquatreversed 0285;esmallhiragana 3047;esmallkatakana 30A7;
+esmallkatakanahalfwidth FF6A;estimated 212E;esuperior F6EC;eta 03B7;etarmenian 0568;etatonos 03AE;etilde 1EBD;
+etildebelow 1E1B;etnahtafoukhhebrew 0591;etnahtafoukhlefthebrew 0591;etnahtahebrew 0591;
+etnahtalefthebrew 0591;eturned 01DD;eukorean 3161;euro 20AC;evowelsignbengali 09C7;evowelsigndeva 0947;
+evowelsigngujarati 0AC7;exclamarmenian 055C;exclamdbl 203C;exclamdownsmall F7A1;exclammonospace FF01;
+exclamsmall F721;existential 2203;ezh 0292;ezhcaron 01EF;ezhcurl 0293;ezhreversed 01B9;ezhtail 01BA;f_f FB00;
+fadeva 095E;fagurmukhi 0A5E;fahrenheit 2109;fathaarabic 064E;fathalowarabic 064E;fathatanarabic 064B;
+fbopomofo 3108;fcircle 24D5;fdotaccent 1E1F;feharabic 0641;feharmenian 0586;fehfinalarabic FED2;
+fehinitialarabic FED3;fehmedialarabic FED4;feicoptic 03E5;female 2640;fifteencircle 246E;fifteenparen 2482;
+fifteenperiod 2496;figuredash 2012;filledbox 25A0;filledrect 25AC;finalkaf 05DA;finalkafdagesh FB3A;
+finalkafdageshhebrew FB3A;finalkafhebrew 05DA;finalmem 05DD;finalmemhebrew 05DD;finalnun 05DF;
+finalnunhebrew 05DF;finalpe 05E3;finalpehebrew 05E3;finaltsadi 05E5;finaltsadihebrew 05E5;
+firsttonechinese 02C9;fisheye 25C9;fitacyrillic 0473;fivearabic 0665;fivebengali 09EB;fivecircle 2464;
+fivecircleinversesansserif 278E;fivedeva 096B;fiveeighths 215D;fivegujarati 0AEB;fivegurmukhi 0A6B;
+fivehackarabic 0665;fivehangzhou 3025;fiveideographicparen 3224;fiveinferior 2085;fivemonospace FF15;
+fiveoldstyle F735;fiveparen 2478;fiveperiod 248C;fivepersian 06F5;fiveroman 2174;fivesuperior 2075;
+fivethai 0E55;floorleftBig 230A;floorleftBigg 230A;floorleftbig 230A;floorleftbigg 230A;floorrightBig 230B;
+floorrightBigg 230B;floorrightbig 230B;floorrightbigg 230B;fmonospace FF46;fmsquare 3399;fofanthai 0E1F;
+fofathai 0E1D;fongmanthai 0E4F;forall 2200;fourarabic 0664;fourbengali 09EA;fourcircle 2463;
+fourcircleinversesansserif 278D;fourdeva 096A;fourgujarati 0AEA;fourgurmukhi 0A6A;fourhackarabic 0664;
+fourhangzhou 3024;fourideographicparen 3223;fourinferior 2084;fourmonospace FF14;fournumeratorbengali 09F7;
+fouroldstyle F734;fourparen 2477;fourperiod 248B;fourpersian 06F4;fourroman 2173;foursuperior 2074;
+fourteencircle 246D;fourteenparen 2481;fourteenperiod 2495;fourthai 0E54;fourthtonechinese 02CB;fparen 24A1;
+franc 20A3;gabengali 0997;gacute 01F5;gadeva 0917;gafarabic 06AF;gaffinalarabic FB93;gafinitialarabic FB94;
+gafmedialarabic FB95;gagujarati 0A97;gagurmukhi 0A17;gahiragana 304C;gakatakana 30AC;gamma 03B3;
+gammalatinsmall 0263;gammasuperior 02E0;gangiacoptic 03EB;gbopomofo 310D;gbreve 011F;gcaron 01E7;
+gcedilla 0123;gcircle 24D6;gcircumflex 011D;gcommaaccent 0123;gdot 0121;gdotaccent 0121;gecyrillic 0433;
+gehiragana 3052;gekatakana 30B2;geometricallyequal 2251;gereshaccenthebrew 059C;gereshhebrew 05F3;
+gereshmuqdamhebrew 059D;gershayimaccenthebrew 059E;gershayimhebrew 05F4;getamark 3013;ghabengali 0998;
+ghadarmenian 0572;ghadeva 0918;ghagujarati 0A98;ghagurmukhi 0A18;ghainarabic 063A;ghainfinalarabic FECE;
+ghaininitialarabic FECF;ghainmedialarabic FED0;ghemiddlehookcyrillic 0495;ghestrokecyrillic 0493;
+gheupturncyrillic 0491;ghhadeva 095A;ghhagurmukhi 0A5A;ghook 0260;ghzsquare 3393;gihiragana 304E;
+gikatakana 30AE;gimarmenian 0563;gimel 05D2;gimeldagesh FB32;gimeldageshhebrew FB32;gimelhebrew 05D2;
+gjecyrillic 0453;glottalinvertedstroke 01BE;glottalstop 0294;glottalstopinverted 0296;glottalstopmod 02C0;
+glottalstopreversed 0295;glottalstopreversedmod 02C1;glottalstopreversedsuperior 02E4;glottalstopstroke 02A1;
+glottalstopstrokereversed 02A2;gmacron 1E21;gmonospace FF47;gohiragana 3054;gokatakana 30B4;gparen 24A2;
+gpasquare 33AC;gradient 2207;gravebelowcmb 0316;gravecmb 0300;gravecomb 0300;gravedeva 0953;gravelowmod 02CE;
+gravemonospace FF40;gravetonecmb 0340;greaterequal 2265;greaterequalorless 22DB;greatermonospace FF1E;
+greaterorequivalent 2273;greaterorless 2277;greateroverequal 2267;greatersmall FE65;gscript 0261;gstroke 01E5;
+guhiragana 3050;gukatakana 30B0;guramusquare 3318;gysquare 33C9;haabkhasiancyrillic 04A9;haaltonearabic 06C1;
+habengali 09B9;hadescendercyrillic 04B3;hadeva 0939;hagujarati 0AB9;hagurmukhi 0A39;haharabic 062D;
+hahfinalarabic FEA2;hahinitialarabic FEA3;hahiragana 306F;hahmedialarabic FEA4;haitusquare 332A;
+hakatakana 30CF;hakatakanahalfwidth FF8A;halantgurmukhi 0A4D;hamzaarabic 0621;hamzalowarabic 0621;
+hangulfiller 3164;hardsigncyrillic 044A;harpoonleftbarbup 21BC;harpoonrightbarbup 21C0;hasquare 33CA;
+hatafpatah 05B2;hatafpatah16 05B2;hatafpatah23 05B2;hatafpatah2f 05B2;hatafpatahhebrew 05B2;
+hatafpatahnarrowhebrew 05B2;hatafpatahquarterhebrew 05B2;hatafpatahwidehebrew 05B2;hatafqamats 05B3;
+hatafqamats1b 05B3;hatafqamats28 05B3;hatafqamats34 05B3;hatafqamatshebrew 05B3;hatafqamatsnarrowhebrew 05B3;
+hatafqamatsquarterhebrew 05B3;hatafqamatswidehebrew 05B3;hatafsegol 05B1;hatafsegol17 05B1;hatafsegol24 05B1;
+hatafsegol30 05B1;hatafsegolhebrew 05B1;hatafsegolnarrowhebrew 05B1;hatafsegolquarterhebrew 05B1;
+hatafsegolwidehebrew 05B1;hatwide 0302;hatwider 0302;hatwidest 0302;hbar 0127;hbopomofo 310F;hbrevebelow 1E2B;
+hcedilla 1E29;hcircle 24D7;hcircumflex 0125;hdieresis 1E27;hdotaccent 1E23;hdotbelow 1E25;he 05D4;heart 2665;
+heartsuitblack 2665;heartsuitwhite 2661;hedagesh FB34;hedageshhebrew FB34;hehaltonearabic 06C1;heharabic 0647;
+hehebrew 05D4;hehfinalaltonearabic FBA7;hehfinalalttwoarabic FEEA;hehfinalarabic FEEA;
+hehhamzaabovefinalarabic FBA5;hehhamzaaboveisolatedarabic FBA4;hehinitialaltonearabic FBA8;
+hehinitialarabic FEEB;hehiragana 3078;hehmedialaltonearabic FBA9;hehmedialarabic FEEC;heiseierasquare 337B;
+hekatakana 30D8;hekatakanahalfwidth FF8D;hekutaarusquare 3336;henghook 0267;herutusquare 3339;het 05D7;
+hethebrew 05D7;hhook 0266;hhooksuperior 02B1;hieuhacirclekorean 327B;hieuhaparenkorean 321B;
+hieuhcirclekorean 326D;hieuhkorean 314E;hieuhparenkorean 320D;hihiragana 3072;hikatakana 30D2;
+hikatakanahalfwidth FF8B;hiriq 05B4;hiriq14 05B4;hiriq21 05B4;hiriq2d 05B4;hiriqhebrew 05B4;
+hiriqnarrowhebrew 05B4;hiriqquarterhebrew 05B4;hiriqwidehebrew 05B4;hlinebelow 1E96;hmonospace FF48;
+hoarmenian 0570;hohipthai 0E2B;hohiragana 307B;hokatakana 30DB;hokatakanahalfwidth FF8E;holam 05B9;
+holam19 05B9;holam26 05B9;holam32 05B9;holamhebrew 05B9;holamnarrowhebrew 05B9;holamquarterhebrew 05B9;
+holamwidehebrew 05B9;honokhukthai 0E2E;hookabovecomb 0309;hookcmb 0309;hookpalatalizedbelowcmb 0321;
+hookretroflexbelowcmb 0322;hoonsquare 3342;horicoptic 03E9;horizontalbar 2015;horncmb 031B;hotsprings 2668;
+house 2302;hparen 24A3;hsuperior 02B0;hturned 0265;huhiragana 3075;huiitosquare 3333;hukatakana 30D5;
+hukatakanahalfwidth FF8C;hungarumlautcmb 030B;hv 0195;hypheninferior F6E5;hyphenmonospace FF0D;
+hyphensmall FE63;hyphensuperior F6E6;hyphentwo 2010;iacyrillic 044F;ibengali 0987;ibopomofo 3127;ibreve 012D;
+icaron 01D0;icircle 24D8;icyrillic 0456;idblgrave 0209;ideographearthcircle 328F;ideographfirecircle 328B;
+ideographicallianceparen 323F;ideographiccallparen 323A;ideographiccentrecircle 32A5;ideographicclose 3006;
+ideographiccomma 3001;ideographiccommaleft FF64;ideographiccongratulationparen 3237;
+ideographiccorrectcircle 32A3;ideographicearthparen 322F;ideographicenterpriseparen 323D;
+ideographicexcellentcircle 329D;ideographicfestivalparen 3240;ideographicfinancialcircle 3296;
+ideographicfinancialparen 3236;ideographicfireparen 322B;ideographichaveparen 3232;ideographichighcircle 32A4;
+ideographiciterationmark 3005;ideographiclaborcircle 3298;ideographiclaborparen 3238;
+ideographicleftcircle 32A7;ideographiclowcircle 32A6;ideographicmedicinecircle 32A9;
+ideographicmetalparen 322E;ideographicmoonparen 322A;ideographicnameparen 3234;ideographicperiod 3002;
+ideographicprintcircle 329E;ideographicreachparen 3243;ideographicrepresentparen 3239;
+ideographicresourceparen 323E;ideographicrightcircle 32A8;ideographicsecretcircle 3299;
+ideographicselfparen 3242;ideographicsocietyparen 3233;ideographicspace 3000;ideographicspecialparen 3235;
+ideographicstockparen 3231;ideographicstudyparen 323B;ideographicsunparen 3230;ideographicsuperviseparen 323C;
+ideographicwaterparen 322C;ideographicwoodparen 322D;ideographiczero 3007;ideographmetalcircle 328E;
+ideographmooncircle 328A;ideographnamecircle 3294;ideographsuncircle 3290;ideographwatercircle 328C;
+ideographwoodcircle 328D;ideva 0907;idieresisacute 1E2F;idieresiscyrillic 04E5;idotbelow 1ECB;
+iebrevecyrillic 04D7;iecyrillic 0435;ieungacirclekorean 3275;ieungaparenkorean 3215;ieungcirclekorean 3267;
+ieungkorean 3147;ieungparenkorean 3207;igujarati 0A87;igurmukhi 0A07;ihiragana 3044;ihookabove 1EC9;
+iibengali 0988;iicyrillic 0438;iideva 0908;iigujarati 0A88;iigurmukhi 0A08;iimatragurmukhi 0A40;
+iinvertedbreve 020B;iishortcyrillic 0439;iivowelsignbengali 09C0;iivowelsigndeva 0940;
+iivowelsigngujarati 0AC0;ij 0133;ikatakana 30A4;ikatakanahalfwidth FF72;ikorean 3163;ilde 02DC;
+iluyhebrew 05AC;imacron 012B;imacroncyrillic 04E3;imageorapproximatelyequal 2253;imatragurmukhi 0A3F;
+imonospace FF49;increment 2206;infinity 221E;iniarmenian 056B;integral 222B;integralbottom 2321;
+integralbt 2321;integraldisplay 222B;integralex F8F5;integraltext 222B;integraltop 2320;integraltp 2320;
+intercal 1D40;intersection 2229;intersectiondisplay 22C2;intersectiontext 22C2;intisquare 3305;invbullet 25D8;
+invcircle 25D9;invsmileface 263B;iocyrillic 0451;iogonek 012F;iota 03B9;iotadieresis 03CA;
+iotadieresistonos 0390;iotalatin 0269;iotatonos 03AF;iparen 24A4;irigurmukhi 0A72;ismallhiragana 3043;
+ismallkatakana 30A3;ismallkatakanahalfwidth FF68;issharbengali 09FA;istroke 0268;isuperior F6ED;
+iterationhiragana 309D;iterationkatakana 30FD;itilde 0129;itildebelow 1E2D;iubopomofo 3129;iucyrillic 044E;
+ivowelsignbengali 09BF;ivowelsigndeva 093F;ivowelsigngujarati 0ABF;izhitsacyrillic 0475;
+izhitsadblgravecyrillic 0477;jaarmenian 0571;jabengali 099C;jadeva 091C;jagujarati 0A9C;jagurmukhi 0A1C;
+jbopomofo 3110;jcaron 01F0;jcircle 24D9;jcircumflex 0135;jcrossedtail 029D;jdotlessstroke 025F;
+jecyrillic 0458;jeemarabic 062C;jeemfinalarabic FE9E;jeeminitialarabic FE9F;jeemmedialarabic FEA0;
+jeharabic 0698;jehfinalarabic FB8B;jhabengali 099D;jhadeva 091D;jhagujarati 0A9D;jhagurmukhi 0A1D;
+jheharmenian 057B;jis 3004;jmonospace FF4A;jparen 24A5;jsuperior 02B2;kabashkircyrillic 04A1;kabengali 0995;
+kacute 1E31;kacyrillic 043A;kadescendercyrillic 049B;kadeva 0915;kaf 05DB;kafarabic 0643;kafdagesh FB3B;
+kafdageshhebrew FB3B;kaffinalarabic FEDA;kafhebrew 05DB;kafinitialarabic FEDB;kafmedialarabic FEDC;
+kafrafehebrew FB4D;kagujarati 0A95;kagurmukhi 0A15;kahiragana 304B;kahookcyrillic 04C4;kakatakana 30AB;
+kakatakanahalfwidth FF76;kappa 03BA;kappasymbolgreek 03F0;kapyeounmieumkorean 3171;kapyeounphieuphkorean 3184;
+kapyeounpieupkorean 3178;kapyeounssangpieupkorean 3179;karoriisquare 330D;kashidaautoarabic 0640;
+kashidaautonosidebearingarabic 0640;kasmallkatakana 30F5;kasquare 3384;kasraarabic 0650;kasratanarabic 064D;
+kastrokecyrillic 049F;katahiraprolongmarkhalfwidth FF70;kaverticalstrokecyrillic 049D;kbopomofo 310E;
+kcalsquare 3389;kcaron 01E9;kcedilla 0137;kcircle 24DA;kcommaaccent 0137;kdotbelow 1E33;keharmenian 0584;
+kehiragana 3051;kekatakana 30B1;kekatakanahalfwidth FF79;kenarmenian 056F;kesmallkatakana 30F6;
+kgreenlandic 0138;khabengali 0996;khacyrillic 0445;khadeva 0916;khagujarati 0A96;khagurmukhi 0A16;
+khaharabic 062E;khahfinalarabic FEA6;khahinitialarabic FEA7;khahmedialarabic FEA8;kheicoptic 03E7;
+khhadeva 0959;khhagurmukhi 0A59;khieukhacirclekorean 3278;khieukhaparenkorean 3218;khieukhcirclekorean 326A;
+khieukhkorean 314B;khieukhparenkorean 320A;khokhaithai 0E02;khokhonthai 0E05;khokhuatthai 0E03;
+khokhwaithai 0E04;khomutthai 0E5B;khook 0199;khorakhangthai 0E06;khzsquare 3391;kihiragana 304D;
+kikatakana 30AD;kikatakanahalfwidth FF77;kiroguramusquare 3315;kiromeetorusquare 3316;kirosquare 3314;
+kiyeokacirclekorean 326E;kiyeokaparenkorean 320E;kiyeokcirclekorean 3260;kiyeokkorean 3131;
+kiyeokparenkorean 3200;kiyeoksioskorean 3133;kjecyrillic 045C;klinebelow 1E35;klsquare 3398;
+kmcubedsquare 33A6;kmonospace FF4B;kmsquaredsquare 33A2;kohiragana 3053;kohmsquare 33C0;kokaithai 0E01;
+kokatakana 30B3;kokatakanahalfwidth FF7A;kooposquare 331E;koppacyrillic 0481;koreanstandardsymbol 327F;
+koroniscmb 0343;kparen 24A6;kpasquare 33AA;ksicyrillic 046F;ktsquare 33CF;kturned 029E;kuhiragana 304F;
+kukatakana 30AF;kukatakanahalfwidth FF78;kvsquare 33B8;kwsquare 33BE;labengali 09B2;lacute 013A;ladeva 0932;
+lagujarati 0AB2;lagurmukhi 0A32;lakkhangyaothai 0E45;lamaleffinalarabic FEFC;
+lamalefhamzaabovefinalarabic FEF8;lamalefhamzaaboveisolatedarabic FEF7;lamalefhamzabelowfinalarabic FEFA;
+lamalefhamzabelowisolatedarabic FEF9;lamalefisolatedarabic FEFB;lamalefmaddaabovefinalarabic FEF6;
+lamalefmaddaaboveisolatedarabic FEF5;lamarabic 0644;lambda 03BB;lambdastroke 019B;lamed 05DC;lameddagesh FB3C;
+lameddageshhebrew FB3C;lamedhebrew 05DC;lamfinalarabic FEDE;lamhahinitialarabic FCCA;laminitialarabic FEDF;
+lamjeeminitialarabic FCC9;lamkhahinitialarabic FCCB;lamlamhehisolatedarabic FDF2;lammedialarabic FEE0;
+lammeemhahinitialarabic FD88;lammeeminitialarabic FCCC;largecircle 25EF;lbar 019A;lbelt 026C;lbopomofo 310C;
+lcaron 013E;lcedilla 013C;lcircle 24DB;lcircumflexbelow 1E3D;lcommaaccent 013C;ldot 0140;ldotaccent 0140;
+ldotbelow 1E37;ldotbelowmacron 1E39;leftangleabovecmb 031A;lefttackbelowcmb 0318;lessequal 2264;
+lessequalorgreater 22DA;lessmonospace FF1C;lessorequivalent 2272;lessorgreater 2276;lessoverequal 2266;
+lesssmall FE64;lezh 026E;lfblock 258C;lhookretroflex 026D;lira 20A4;liwnarmenian 056C;lj 01C9;
+ljecyrillic 0459;ll F6C0;lladeva 0933;llagujarati 0AB3;llinebelow 1E3B;llladeva 0934;llvocalicbengali 09E1;
+llvocalicdeva 0961;llvocalicvowelsignbengali 09E3;llvocalicvowelsigndeva 0963;lmiddletilde 026B;
+lmonospace FF4C;lmsquare 33D0;lochulathai 0E2C;logicaland 2227;logicalanddisplay 2227;logicalandtext 2227;
+logicalnotreversed 2310;logicalor 2228;logicalordisplay 2228;logicalortext 2228;lolingthai 0E25;longs 017F;
+lowlinecenterline FE4E;lowlinecmb 0332;lowlinedashed FE4D;lozenge 25CA;lparen 24A7;lsquare 2113;
+lsuperior F6EE;ltshade 2591;luthai 0E26;lvocalicbengali 098C;lvocalicdeva 090C;lvocalicvowelsignbengali 09E2;
+lvocalicvowelsigndeva 0962;lxsquare 33D3;mabengali 09AE;macronbelowcmb 0331;macroncmb 0304;macronlowmod 02CD;
+macronmonospace FFE3;macute 1E3F;madeva 092E;magujarati 0AAE;magurmukhi 0A2E;mahapakhhebrew 05A4;
+mahapakhlefthebrew 05A4;mahiragana 307E;maichattawalowleftthai F895;maichattawalowrightthai F894;
+maichattawathai 0E4B;maichattawaupperleftthai F893;maieklowleftthai F88C;maieklowrightthai F88B;
+maiekthai 0E48;maiekupperleftthai F88A;maihanakatleftthai F884;maihanakatthai 0E31;maitaikhuleftthai F889;
+maitaikhuthai 0E47;maitholowleftthai F88F;maitholowrightthai F88E;maithothai 0E49;maithoupperleftthai F88D;
+maitrilowleftthai F892;maitrilowrightthai F891;maitrithai 0E4A;maitriupperleftthai F890;maiyamokthai 0E46;
+makatakana 30DE;makatakanahalfwidth FF8F;male 2642;mansyonsquare 3347;maqafhebrew 05BE;mars 2642;
+masoracirclehebrew 05AF;masquare 3383;mbopomofo 3107;mbsquare 33D4;mcircle 24DC;mcubedsquare 33A5;
+mdotaccent 1E41;mdotbelow 1E43;meemarabic 0645;meemfinalarabic FEE2;meeminitialarabic FEE3;
+meemmedialarabic FEE4;meemmeeminitialarabic FCD1;meemmeemisolatedarabic FC48;meetorusquare 334D;
+mehiragana 3081;meizierasquare 337E;mekatakana 30E1;mekatakanahalfwidth FF92;mem 05DE;memdagesh FB3E;
+memdageshhebrew FB3E;memhebrew 05DE;menarmenian 0574;merkhahebrew 05A5;merkhakefulahebrew 05A6;
+merkhakefulalefthebrew 05A6;merkhalefthebrew 05A5;mhook 0271;mhzsquare 3392;middledotkatakanahalfwidth FF65;
+middot 00B7;mieumacirclekorean 3272;mieumaparenkorean 3212;mieumcirclekorean 3264;mieumkorean 3141;
+mieumpansioskorean 3170;mieumparenkorean 3204;mieumpieupkorean 316E;mieumsioskorean 316F;mihiragana 307F;
+mikatakana 30DF;mikatakanahalfwidth FF90;minusbelowcmb 0320;minuscircle 2296;minusmod 02D7;minusplus 2213;
+minute 2032;miribaarusquare 334A;mirisquare 3349;mlonglegturned 0270;mlsquare 3396;mmcubedsquare 33A3;
+mmonospace FF4D;mmsquaredsquare 339F;mohiragana 3082;mohmsquare 33C1;mokatakana 30E2;mokatakanahalfwidth FF93;
+molsquare 33D6;momathai 0E21;moverssquare 33A7;moverssquaredsquare 33A8;mparen 24A8;mpasquare 33AB;
+mssquare 33B3;msuperior F6EF;mturned 026F;mu1 00B5;muasquare 3382;muchgreater 226B;muchless 226A;
+mufsquare 338C;mugreek 03BC;mugsquare 338D;muhiragana 3080;mukatakana 30E0;mukatakanahalfwidth FF91;
+mulsquare 3395;mumsquare 339B;munahhebrew 05A3;munahlefthebrew 05A3;musicalnote 266A;musicalnotedbl 266B;
+musicflatsign 266D;musicsharpsign 266F;mussquare 33B2;muvsquare 33B6;muwsquare 33BC;mvmegasquare 33B9;
+mvsquare 33B7;mwmegasquare 33BF;mwsquare 33BD;nabengali 09A8;nabla 2207;nacute 0144;nadeva 0928;
+nagujarati 0AA8;nagurmukhi 0A28;nahiragana 306A;nakatakana 30CA;nakatakanahalfwidth FF85;napostrophe 0149;
+nasquare 3381;nbopomofo 310B;nbspace 00A0;ncaron 0148;ncedilla 0146;ncircle 24DD;ncircumflexbelow 1E4B;
+ncommaaccent 0146;ndotaccent 1E45;ndotbelow 1E47;nehiragana 306D;nekatakana 30CD;nekatakanahalfwidth FF88;
+newsheqelsign 20AA;nfsquare 338B;ngabengali 0999;ngadeva 0919;ngagujarati 0A99;ngagurmukhi 0A19;
+ngonguthai 0E07;nhiragana 3093;nhookleft 0272;nhookretroflex 0273;nieunacirclekorean 326F;
+nieunaparenkorean 320F;nieuncieuckorean 3135;nieuncirclekorean 3261;nieunhieuhkorean 3136;nieunkorean 3134;
+nieunpansioskorean 3168;nieunparenkorean 3201;nieunsioskorean 3167;nieuntikeutkorean 3166;nihiragana 306B;
+nikatakana 30CB;nikatakanahalfwidth FF86;nikhahitleftthai F899;nikhahitthai 0E4D;ninearabic 0669;
+ninebengali 09EF;ninecircle 2468;ninecircleinversesansserif 2792;ninedeva 096F;ninegujarati 0AEF;
+ninegurmukhi 0A6F;ninehackarabic 0669;ninehangzhou 3029;nineideographicparen 3228;nineinferior 2089;
+ninemonospace FF19;nineoldstyle F739;nineparen 247C;nineperiod 2490;ninepersian 06F9;nineroman 2178;
+ninesuperior 2079;nineteencircle 2472;nineteenparen 2486;nineteenperiod 249A;ninethai 0E59;nj 01CC;
+njecyrillic 045A;nkatakana 30F3;nkatakanahalfwidth FF9D;nlegrightlong 019E;nlinebelow 1E49;nmonospace FF4E;
+nmsquare 339A;nnabengali 09A3;nnadeva 0923;nnagujarati 0AA3;nnagurmukhi 0A23;nnnadeva 0929;nohiragana 306E;
+nokatakana 30CE;nokatakanahalfwidth FF89;nonbreakingspace 00A0;nonenthai 0E13;nonuthai 0E19;noonarabic 0646;
+noonfinalarabic FEE6;noonghunnaarabic 06BA;noonghunnafinalarabic FB9F;nooninitialarabic FEE7;
+noonjeeminitialarabic FCD2;noonjeemisolatedarabic FC4B;noonmedialarabic FEE8;noonmeeminitialarabic FCD5;
+noonmeemisolatedarabic FC4E;noonnoonfinalarabic FC8D;notcontains 220C;notelement 2209;notelementof 2209;
+notequal 2260;notgreater 226F;notgreaternorequal 2271;notgreaternorless 2279;notidentical 2262;notless 226E;
+notlessnorequal 2270;notparallel 2226;notprecedes 2280;notsubset 2284;notsucceeds 2281;notsuperset 2285;
+nowarmenian 0576;nparen 24A9;nssquare 33B1;nsuperior 207F;nu 03BD;nuhiragana 306C;nukatakana 30CC;
+nukatakanahalfwidth FF87;nuktabengali 09BC;nuktadeva 093C;nuktagujarati 0ABC;nuktagurmukhi 0A3C;
+numbersignmonospace FF03;numbersignsmall FE5F;numeralsigngreek 0374;numeralsignlowergreek 0375;numero 2116;
+nun 05E0;nundagesh FB40;nundageshhebrew FB40;nunhebrew 05E0;nvsquare 33B5;nwsquare 33BB;nyabengali 099E;
+nyadeva 091E;nyagujarati 0A9E;nyagurmukhi 0A1E;oangthai 0E2D;obarred 0275;obarredcyrillic 04E9;
+obarreddieresiscyrillic 04EB;obengali 0993;obopomofo 311B;obreve 014F;ocandradeva 0911;ocandragujarati 0A91;
+ocandravowelsigndeva 0949;ocandravowelsigngujarati 0AC9;ocaron 01D2;ocircle 24DE;ocircumflexacute 1ED1;
+ocircumflexdotbelow 1ED9;ocircumflexgrave 1ED3;ocircumflexhookabove 1ED5;ocircumflextilde 1ED7;ocyrillic 043E;
+odblacute 0151;odblgrave 020D;odeva 0913;odieresiscyrillic 04E7;odotbelow 1ECD;oekorean 315A;ogonekcmb 0328;
+ogujarati 0A93;oharmenian 0585;ohiragana 304A;ohookabove 1ECF;ohorn 01A1;ohornacute 1EDB;ohorndotbelow 1EE3;
+ohorngrave 1EDD;ohornhookabove 1EDF;ohorntilde 1EE1;ohungarumlaut 0151;oi 01A3;oinvertedbreve 020F;
+okatakana 30AA;okatakanahalfwidth FF75;okorean 3157;olehebrew 05AB;omacron 014D;omacronacute 1E53;
+omacrongrave 1E51;omdeva 0950;omega 03C9;omega1 03D6;omegacyrillic 0461;omegalatinclosed 0277;
+omegaroundcyrillic 047B;omegatitlocyrillic 047D;omegatonos 03CE;omgujarati 0AD0;omicron 03BF;
+omicrontonos 03CC;omonospace FF4F;onearabic 0661;onebengali 09E7;onecircle 2460;
+onecircleinversesansserif 278A;onedeva 0967;onedotenleader 2024;oneeighth 215B;onefitted F6DC;
+onegujarati 0AE7;onegurmukhi 0A67;onehackarabic 0661;onehangzhou 3021;oneideographicparen 3220;
+oneinferior 2081;onemonospace FF11;onenumeratorbengali 09F4;oneoldstyle F731;oneparen 2474;oneperiod 2488;
+onepersian 06F1;oneroman 2170;onethai 0E51;onethird 2153;oogonek 01EB;oogonekmacron 01ED;oogurmukhi 0A13;
+oomatragurmukhi 0A4B;oopen 0254;oparen 24AA;openbullet 25E6;option 2325;orthogonal 221F;oshortdeva 0912;
+oshortvowelsigndeva 094A;oslashacute 01FF;osmallhiragana 3049;osmallkatakana 30A9;
+osmallkatakanahalfwidth FF6B;ostrokeacute 01FF;osuperior F6F0;otcyrillic 047F;otildeacute 1E4D;
+otildedieresis 1E4F;oubopomofo 3121;overline 203E;overlinecenterline FE4A;overlinecmb 0305;
+overlinedashed FE49;overlinedblwavy FE4C;overlinewavy FE4B;overscore 00AF;ovowelsignbengali 09CB;
+ovowelsigndeva 094B;ovowelsigngujarati 0ACB;paampssquare 3380;paasentosquare 332B;pabengali 09AA;pacute 1E55;
+padeva 092A;pagedown 21DF;pageup 21DE;pagujarati 0AAA;pagurmukhi 0A2A;pahiragana 3071;paiyannoithai 0E2F;
+pakatakana 30D1;palatalizationcyrilliccmb 0484;palochkacyrillic 04C0;pansioskorean 317F;parallel 2225;
+parenleftBig 0028;parenleftBigg 0028;parenleftaltonearabic FD3E;parenleftbig 0028;parenleftbigg 0028;
+parenleftbt F8ED;parenleftex F8EC;parenleftinferior 208D;parenleftmonospace FF08;parenleftsmall FE59;
+parenleftsuperior 207D;parenlefttp F8EB;parenleftvertical FE35;parenrightBig 0029;parenrightBigg 0029;
+parenrightaltonearabic FD3F;parenrightbig 0029;parenrightbigg 0029;parenrightbt F8F8;parenrightex F8F7;
+parenrightinferior 208E;parenrightmonospace FF09;parenrightsmall FE5A;parenrightsuperior 207E;
+parenrighttp F8F6;parenrightvertical FE36;partialdiff 2202;paseqhebrew 05C0;pashtahebrew 0599;pasquare 33A9;
+patah 05B7;patah11 05B7;patah1d 05B7;patah2a 05B7;patahhebrew 05B7;patahnarrowhebrew 05B7;
+patahquarterhebrew 05B7;patahwidehebrew 05B7;pazerhebrew 05A1;pbopomofo 3106;pcircle 24DF;pdotaccent 1E57;
+pe 05E4;pecyrillic 043F;pedagesh FB44;pedageshhebrew FB44;peezisquare 333B;pefinaldageshhebrew FB43;
+peharabic 067E;peharmenian 057A;pehebrew 05E4;pehfinalarabic FB57;pehinitialarabic FB58;pehiragana 307A;
+pehmedialarabic FB59;pekatakana 30DA;pemiddlehookcyrillic 04A7;perafehebrew FB4E;percentarabic 066A;
+percentmonospace FF05;percentsmall FE6A;periodarmenian 0589;periodhalfwidth FF61;periodinferior F6E7;
+periodmonospace FF0E;periodsmall FE52;periodsuperior F6E8;perispomenigreekcmb 0342;perpendicular 22A5;
+peseta 20A7;pfsquare 338A;phabengali 09AB;phadeva 092B;phagujarati 0AAB;phagurmukhi 0A2B;phi 03C6;phi1 03D5;
+phieuphacirclekorean 327A;phieuphaparenkorean 321A;phieuphcirclekorean 326C;phieuphkorean 314D;
+phieuphparenkorean 320C;philatin 0278;phinthuthai 0E3A;phisymbolgreek 03D5;phook 01A5;phophanthai 0E1E;
+phophungthai 0E1C;phosamphaothai 0E20;pi 03C0;pieupacirclekorean 3273;pieupaparenkorean 3213;
+pieupcieuckorean 3176;pieupcirclekorean 3265;pieupkiyeokkorean 3172;pieupkorean 3142;pieupparenkorean 3205;
+pieupsioskiyeokkorean 3174;pieupsioskorean 3144;pieupsiostikeutkorean 3175;pieupthieuthkorean 3177;
+pieuptikeutkorean 3173;pihiragana 3074;pikatakana 30D4;pisymbolgreek 03D6;piwrarmenian 0583;plusbelowcmb 031F;
+pluscircle 2295;plusmod 02D6;plusmonospace FF0B;plussmall FE62;plussuperior 207A;pmonospace FF50;
+pmsquare 33D8;pohiragana 307D;pointingindexdownwhite 261F;pointingindexleftwhite 261C;
+pointingindexrightwhite 261E;pointingindexupwhite 261D;pokatakana 30DD;poplathai 0E1B;postalmark 3012;
+postalmarkface 3020;pparen 24AB;precedes 227A;prescription 211E;prime 2032;primemod 02B9;primereversed 2035;
+product 220F;productdisplay 220F;producttext 220F;projective 2305;prolongedkana 30FC;propellor 2318;
+propersubset 2282;propersuperset 2283;proportion 2237;proportional 221D;psi 03C8;psicyrillic 0471;
+psilipneumatacyrilliccmb 0486;pssquare 33B0;puhiragana 3077;pukatakana 30D7;pvsquare 33B4;pwsquare 33BA;
+qadeva 0958;qadmahebrew 05A8;qafarabic 0642;qaffinalarabic FED6;qafinitialarabic FED7;qafmedialarabic FED8;
+qamats 05B8;qamats10 05B8;qamats1a 05B8;qamats1c 05B8;qamats27 05B8;qamats29 05B8;qamats33 05B8;qamatsde 05B8;
+qamatshebrew 05B8;qamatsnarrowhebrew 05B8;qamatsqatanhebrew 05B8;qamatsqatannarrowhebrew 05B8;
+qamatsqatanquarterhebrew 05B8;qamatsqatanwidehebrew 05B8;qamatsquarterhebrew 05B8;qamatswidehebrew 05B8;
+qarneyparahebrew 059F;qbopomofo 3111;qcircle 24E0;qhook 02A0;qmonospace FF51;qof 05E7;qofdagesh FB47;
+qofdageshhebrew FB47;qofhebrew 05E7;qparen 24AC;quarternote 2669;qubuts 05BB;qubuts18 05BB;qubuts25 05BB;
+qubuts31 05BB;qubutshebrew 05BB;qubutsnarrowhebrew 05BB;qubutsquarterhebrew 05BB;qubutswidehebrew 05BB;
+questionarabic 061F;questionarmenian 055E;questiondownsmall F7BF;questiongreek 037E;questionmonospace FF1F;
+questionsmall F73F;quotedblmonospace FF02;quotedblprime 301E;quotedblprimereversed 301D;
+quoteleftreversed 201B;quotereversed 201B;quoterightn 0149;quotesinglemonospace FF07;raarmenian 057C;
+rabengali 09B0;racute 0155;radeva 0930;radical 221A;radicalBig 221A;radicalBigg 221A;radicalbig 221A;
+radicalbigg 221A;radicalbt 221A;radicalex F8E5;radicaltp 221A;radicalvertex 221A;radoverssquare 33AE;
+radoverssquaredsquare 33AF;radsquare 33AD;rafe 05BF;rafehebrew 05BF;ragujarati 0AB0;ragurmukhi 0A30;
+rahiragana 3089;rakatakana 30E9;rakatakanahalfwidth FF97;ralowerdiagonalbengali 09F1;
+ramiddlediagonalbengali 09F0;ramshorn 0264;ratio 2236;rbopomofo 3116;rcaron 0159;rcedilla 0157;rcircle 24E1;
+rcommaaccent 0157;rdblgrave 0211;rdotaccent 1E59;rdotbelow 1E5B;rdotbelowmacron 1E5D;referencemark 203B;
+reflexsubset 2286;reflexsuperset 2287;registersans F8E8;registerserif F6DA;reharabic 0631;reharmenian 0580;
+rehfinalarabic FEAE;rehiragana 308C;rekatakana 30EC;rekatakanahalfwidth FF9A;resh 05E8;reshdageshhebrew FB48;
+reshhebrew 05E8;reversedtilde 223D;reviahebrew 0597;reviamugrashhebrew 0597;revlogicalnot 2310;rfishhook 027E;
+rfishhookreversed 027F;rhabengali 09DD;rhadeva 095D;rho 03C1;rhook 027D;rhookturned 027B;
+rhookturnedsuperior 02B5;rhosymbolgreek 03F1;rhotichookmod 02DE;rieulacirclekorean 3271;
+rieulaparenkorean 3211;rieulcirclekorean 3263;rieulhieuhkorean 3140;rieulkiyeokkorean 313A;
+rieulkiyeoksioskorean 3169;rieulkorean 3139;rieulmieumkorean 313B;rieulpansioskorean 316C;
+rieulparenkorean 3203;rieulphieuphkorean 313F;rieulpieupkorean 313C;rieulpieupsioskorean 316B;
+rieulsioskorean 313D;rieulthieuthkorean 313E;rieultikeutkorean 316A;rieulyeorinhieuhkorean 316D;
+rightangle 221F;righttackbelowcmb 0319;righttriangle 22BF;rihiragana 308A;rikatakana 30EA;
+rikatakanahalfwidth FF98;ringbelowcmb 0325;ringcmb 030A;ringhalfleft 02BF;ringhalfleftarmenian 0559;
+ringhalfleftbelowcmb 031C;ringhalfleftcentered 02D3;ringhalfright 02BE;ringhalfrightbelowcmb 0339;
+ringhalfrightcentered 02D2;rinvertedbreve 0213;rittorusquare 3351;rlinebelow 1E5F;rlongleg 027C;
+rlonglegturned 027A;rmonospace FF52;rohiragana 308D;rokatakana 30ED;rokatakanahalfwidth FF9B;roruathai 0E23;
+rparen 24AD;rrabengali 09DC;rradeva 0931;rragurmukhi 0A5C;rreharabic 0691;rrehfinalarabic FB8D;
+rrvocalicbengali 09E0;rrvocalicdeva 0960;rrvocalicgujarati 0AE0;rrvocalicvowelsignbengali 09C4;
+rrvocalicvowelsigndeva 0944;rrvocalicvowelsigngujarati 0AC4;rsuperior F6F1;rtblock 2590;rturned 0279;
+rturnedsuperior 02B4;ruhiragana 308B;rukatakana 30EB;rukatakanahalfwidth FF99;rupeemarkbengali 09F2;
+rupeesignbengali 09F3;rupiah F6DD;ruthai 0E24;rvocalicbengali 098B;rvocalicdeva 090B;rvocalicgujarati 0A8B;
+rvocalicvowelsignbengali 09C3;rvocalicvowelsigndeva 0943;rvocalicvowelsigngujarati 0AC3;sabengali 09B8;
+sacute 015B;sacutedotaccent 1E65;sadarabic 0635;sadeva 0938;sadfinalarabic FEBA;sadinitialarabic FEBB;
+sadmedialarabic FEBC;sagujarati 0AB8;sagurmukhi 0A38;sahiragana 3055;sakatakana 30B5;sakatakanahalfwidth FF7B;
+sallallahoualayhewasallamarabic FDFA;samekh 05E1;samekhdagesh FB41;samekhdageshhebrew FB41;samekhhebrew 05E1;
+saraaathai 0E32;saraaethai 0E41;saraaimaimalaithai 0E44;saraaimaimuanthai 0E43;saraamthai 0E33;saraathai 0E30;
+saraethai 0E40;saraiileftthai F886;saraiithai 0E35;saraileftthai F885;saraithai 0E34;saraothai 0E42;
+saraueeleftthai F888;saraueethai 0E37;saraueleftthai F887;sarauethai 0E36;sarauthai 0E38;sarauuthai 0E39;
+sbopomofo 3119;scarondotaccent 1E67;scedilla 015F;schwa 0259;schwacyrillic 04D9;schwadieresiscyrillic 04DB;
+schwahook 025A;scircle 24E2;scircumflex 015D;scommaaccent 0219;sdotaccent 1E61;sdotbelow 1E63;
+sdotbelowdotaccent 1E69;seagullbelowcmb 033C;second 2033;secondtonechinese 02CA;seenarabic 0633;
+seenfinalarabic FEB2;seeninitialarabic FEB3;seenmedialarabic FEB4;segol 05B6;segol13 05B6;segol1f 05B6;
+segol2c 05B6;segolhebrew 05B6;segolnarrowhebrew 05B6;segolquarterhebrew 05B6;segoltahebrew 0592;
+segolwidehebrew 05B6;seharmenian 057D;sehiragana 305B;sekatakana 30BB;sekatakanahalfwidth FF7E;
+semicolonarabic 061B;semicolonmonospace FF1B;semicolonsmall FE54;semivoicedmarkkana 309C;
+semivoicedmarkkanahalfwidth FF9F;sentisquare 3322;sentosquare 3323;sevenarabic 0667;sevenbengali 09ED;
+sevencircle 2466;sevencircleinversesansserif 2790;sevendeva 096D;seveneighths 215E;sevengujarati 0AED;
+sevengurmukhi 0A6D;sevenhackarabic 0667;sevenhangzhou 3027;sevenideographicparen 3226;seveninferior 2087;
+sevenmonospace FF17;sevenoldstyle F737;sevenparen 247A;sevenperiod 248E;sevenpersian 06F7;sevenroman 2176;
+sevensuperior 2077;seventeencircle 2470;seventeenparen 2484;seventeenperiod 2498;seventhai 0E57;
+sfthyphen 00AD;shaarmenian 0577;shabengali 09B6;shacyrillic 0448;shaddaarabic 0651;shaddadammaarabic FC61;
+shaddadammatanarabic FC5E;shaddafathaarabic FC60;shaddakasraarabic FC62;shaddakasratanarabic FC5F;shade 2592;
+shadedark 2593;shadelight 2591;shademedium 2592;shadeva 0936;shagujarati 0AB6;shagurmukhi 0A36;
+shalshelethebrew 0593;shbopomofo 3115;shchacyrillic 0449;sheenarabic 0634;sheenfinalarabic FEB6;
+sheeninitialarabic FEB7;sheenmedialarabic FEB8;sheicoptic 03E3;sheqel 20AA;sheqelhebrew 20AA;sheva 05B0;
+sheva115 05B0;sheva15 05B0;sheva22 05B0;sheva2e 05B0;shevahebrew 05B0;shevanarrowhebrew 05B0;
+shevaquarterhebrew 05B0;shevawidehebrew 05B0;shhacyrillic 04BB;shimacoptic 03ED;shin 05E9;shindagesh FB49;
+shindageshhebrew FB49;shindageshshindot FB2C;shindageshshindothebrew FB2C;shindageshsindot FB2D;
+shindageshsindothebrew FB2D;shindothebrew 05C1;shinhebrew 05E9;shinshindot FB2A;shinshindothebrew FB2A;
+shinsindot FB2B;shinsindothebrew FB2B;shook 0282;sigma 03C3;sigma1 03C2;sigmafinal 03C2;
+sigmalunatesymbolgreek 03F2;sihiragana 3057;sikatakana 30B7;sikatakanahalfwidth FF7C;siluqhebrew 05BD;
+siluqlefthebrew 05BD;similar 223C;sindothebrew 05C2;siosacirclekorean 3274;siosaparenkorean 3214;
+sioscieuckorean 317E;sioscirclekorean 3266;sioskiyeokkorean 317A;sioskorean 3145;siosnieunkorean 317B;
+siosparenkorean 3206;siospieupkorean 317D;siostikeutkorean 317C;sixarabic 0666;sixbengali 09EC;sixcircle 2465;
+sixcircleinversesansserif 278F;sixdeva 096C;sixgujarati 0AEC;sixgurmukhi 0A6C;sixhackarabic 0666;
+sixhangzhou 3026;sixideographicparen 3225;sixinferior 2086;sixmonospace FF16;sixoldstyle F736;sixparen 2479;
+sixperiod 248D;sixpersian 06F6;sixroman 2175;sixsuperior 2076;sixteencircle 246F;
+sixteencurrencydenominatorbengali 09F9;sixteenparen 2483;sixteenperiod 2497;sixthai 0E56;slashBig 002F;
+slashBigg 002F;slashbig 002F;slashbigg 002F;slashmonospace FF0F;slong 017F;slongdotaccent 1E9B;smileface 263A;
+smonospace FF53;sofpasuqhebrew 05C3;softhyphen 00AD;softsigncyrillic 044C;sohiragana 305D;sokatakana 30BD;
+sokatakanahalfwidth FF7F;soliduslongoverlaycmb 0338;solidusshortoverlaycmb 0337;sorusithai 0E29;
+sosalathai 0E28;sosothai 0E0B;sosuathai 0E2A;spacehackarabic 0020;spade 2660;spadesuitblack 2660;
+spadesuitwhite 2664;sparen 24AE;squarebelowcmb 033B;squarecc 33C4;squarecm 339D;
+squarediagonalcrosshatchfill 25A9;squarehorizontalfill 25A4;squarekg 338F;squarekm 339E;squarekmcapital 33CE;
+squareln 33D1;squarelog 33D2;squaremg 338E;squaremil 33D5;squaremm 339C;squaremsquared 33A1;
+squareorthogonalcrosshatchfill 25A6;squareupperlefttolowerrightfill 25A7;squareupperrighttolowerleftfill 25A8;
+squareverticalfill 25A5;squarewhitewithsmallblack 25A3;srsquare 33DB;ssabengali 09B7;ssadeva 0937;
+ssagujarati 0AB7;ssangcieuckorean 3149;ssanghieuhkorean 3185;ssangieungkorean 3180;ssangkiyeokkorean 3132;
+ssangnieunkorean 3165;ssangpieupkorean 3143;ssangsioskorean 3146;ssangtikeutkorean 3138;ssuperior F6F2;
+sterlingmonospace FFE1;strokelongoverlaycmb 0336;strokeshortoverlaycmb 0335;subset 2282;subsetnotequal 228A;
+subsetorequal 2286;succeeds 227B;suchthat 220B;suhiragana 3059;sukatakana 30B9;sukatakanahalfwidth FF7D;
+sukunarabic 0652;summation 2211;summationdisplay 2211;summationtext 2211;sun 263C;superset 2283;
+supersetnotequal 228B;supersetorequal 2287;svsquare 33DC;syouwaerasquare 337C;tabengali 09A4;tackdown 22A4;
+tackleft 22A3;tadeva 0924;tagujarati 0AA4;tagurmukhi 0A24;taharabic 0637;tahfinalarabic FEC2;
+tahinitialarabic FEC3;tahiragana 305F;tahmedialarabic FEC4;taisyouerasquare 337D;takatakana 30BF;
+takatakanahalfwidth FF80;tatweelarabic 0640;tau 03C4;tav 05EA;tavdages FB4A;tavdagesh FB4A;
+tavdageshhebrew FB4A;tavhebrew 05EA;tbar 0167;tbopomofo 310A;tcaron 0165;tccurl 02A8;tcedilla 0163;
+tcheharabic 0686;tchehfinalarabic FB7B;tchehinitialarabic FB7C;tchehmedialarabic FB7D;tcircle 24E3;
+tcircumflexbelow 1E71;tcommaaccent 0163;tdieresis 1E97;tdotaccent 1E6B;tdotbelow 1E6D;tecyrillic 0442;
+tedescendercyrillic 04AD;teharabic 062A;tehfinalarabic FE96;tehhahinitialarabic FCA2;
+tehhahisolatedarabic FC0C;tehinitialarabic FE97;tehiragana 3066;tehjeeminitialarabic FCA1;
+tehjeemisolatedarabic FC0B;tehmarbutaarabic 0629;tehmarbutafinalarabic FE94;tehmedialarabic FE98;
+tehmeeminitialarabic FCA4;tehmeemisolatedarabic FC0E;tehnoonfinalarabic FC73;tekatakana 30C6;
+tekatakanahalfwidth FF83;telephone 2121;telephoneblack 260E;telishagedolahebrew 05A0;telishaqetanahebrew 05A9;
+tencircle 2469;tenideographicparen 3229;tenparen 247D;tenperiod 2491;tenroman 2179;tesh 02A7;tet 05D8;
+tetdagesh FB38;tetdageshhebrew FB38;tethebrew 05D8;tetsecyrillic 04B5;tevirhebrew 059B;tevirlefthebrew 059B;
+thabengali 09A5;thadeva 0925;thagujarati 0AA5;thagurmukhi 0A25;thalarabic 0630;thalfinalarabic FEAC;
+thanthakhatlowleftthai F898;thanthakhatlowrightthai F897;thanthakhatthai 0E4C;thanthakhatupperleftthai F896;
+theharabic 062B;thehfinalarabic FE9A;thehinitialarabic FE9B;thehmedialarabic FE9C;thereexists 2203;
+therefore 2234;theta 03B8;theta1 03D1;thetasymbolgreek 03D1;thieuthacirclekorean 3279;
+thieuthaparenkorean 3219;thieuthcirclekorean 326B;thieuthkorean 314C;thieuthparenkorean 320B;
+thirteencircle 246C;thirteenparen 2480;thirteenperiod 2494;thonangmonthothai 0E11;thook 01AD;
+thophuthaothai 0E12;thothahanthai 0E17;thothanthai 0E10;thothongthai 0E18;thothungthai 0E16;
+thousandcyrillic 0482;thousandsseparatorarabic 066C;thousandsseparatorpersian 066C;threearabic 0663;
+threebengali 09E9;threecircle 2462;threecircleinversesansserif 278C;threedeva 0969;threeeighths 215C;
+threegujarati 0AE9;threegurmukhi 0A69;threehackarabic 0663;threehangzhou 3023;threeideographicparen 3222;
+threeinferior 2083;threemonospace FF13;threenumeratorbengali 09F6;threeoldstyle F733;threeparen 2476;
+threeperiod 248A;threepersian 06F3;threequartersemdash F6DE;threeroman 2172;threethai 0E53;thzsquare 3394;
+tihiragana 3061;tikatakana 30C1;tikatakanahalfwidth FF81;tikeutacirclekorean 3270;tikeutaparenkorean 3210;
+tikeutcirclekorean 3262;tikeutkorean 3137;tikeutparenkorean 3202;tildebelowcmb 0330;tildecmb 0303;
+tildecomb 0303;tildedoublecmb 0360;tildeoperator 223C;tildeoverlaycmb 0334;tildeverticalcmb 033E;
+tildewide 02DC;tildewider 02DC;tildewidest 02DC;timescircle 2297;tipehahebrew 0596;tipehalefthebrew 0596;
+tippigurmukhi 0A70;titlocyrilliccmb 0483;tiwnarmenian 057F;tlinebelow 1E6F;tmonospace FF54;toarmenian 0569;
+tohiragana 3068;tokatakana 30C8;tokatakanahalfwidth FF84;tonebarextrahighmod 02E5;tonebarextralowmod 02E9;
+tonebarhighmod 02E6;tonebarlowmod 02E8;tonebarmidmod 02E7;tonefive 01BD;tonesix 0185;tonetwo 01A8;tonos 0384;
+tonsquare 3327;topatakthai 0E0F;tortoiseshellbracketleft 3014;tortoiseshellbracketleftsmall FE5D;
+tortoiseshellbracketleftvertical FE39;tortoiseshellbracketright 3015;tortoiseshellbracketrightsmall FE5E;
+tortoiseshellbracketrightvertical FE3A;totaothai 0E15;tpalatalhook 01AB;tparen 24AF;trademarksans F8EA;
+trademarkserif F6DB;tretroflexhook 0288;triagdn 25BC;triaglf 25C4;triagrt 25BA;triagup 25B2;ts 02A6;
+tsadi 05E6;tsadidagesh FB46;tsadidageshhebrew FB46;tsadihebrew 05E6;tsecyrillic 0446;tsere 05B5;tsere12 05B5;
+tsere1e 05B5;tsere2b 05B5;tserehebrew 05B5;tserenarrowhebrew 05B5;tserequarterhebrew 05B5;
+tserewidehebrew 05B5;tshecyrillic 045B;tsuperior F6F3;ttabengali 099F;ttadeva 091F;ttagujarati 0A9F;
+ttagurmukhi 0A1F;tteharabic 0679;ttehfinalarabic FB67;ttehinitialarabic FB68;ttehmedialarabic FB69;
+tthabengali 09A0;tthadeva 0920;tthagujarati 0AA0;tthagurmukhi 0A20;tturned 0287;tuhiragana 3064;
+tukatakana 30C4;tukatakanahalfwidth FF82;tusmallhiragana 3063;tusmallkatakana 30C3;
+tusmallkatakanahalfwidth FF6F;twelvecircle 246B;twelveparen 247F;twelveperiod 2493;twelveroman 217B;
+twentycircle 2473;twentyhangzhou 5344;twentyparen 2487;twentyperiod 249B;twoarabic 0662;twobengali 09E8;
+twocircle 2461;twocircleinversesansserif 278B;twodeva 0968;twodotenleader 2025;twodotleader 2025;
+twodotleadervertical FE30;twogujarati 0AE8;twogurmukhi 0A68;twohackarabic 0662;twohangzhou 3022;
+twoideographicparen 3221;twoinferior 2082;twomonospace FF12;twonumeratorbengali 09F5;twooldstyle F732;
+twoparen 2475;twoperiod 2489;twopersian 06F2;tworoman 2171;twostroke 01BB;twothai 0E52;twothirds 2154;
+ubar 0289;ubengali 0989;ubopomofo 3128;ubreve 016D;ucaron 01D4;ucircle 24E4;ucircumflexbelow 1E77;
+ucyrillic 0443;udattadeva 0951;udblacute 0171;udblgrave 0215;udeva 0909;udieresisacute 01D8;
+udieresisbelow 1E73;udieresiscaron 01DA;udieresiscyrillic 04F1;udieresisgrave 01DC;udieresismacron 01D6;
+udotbelow 1EE5;ugujarati 0A89;ugurmukhi 0A09;uhiragana 3046;uhookabove 1EE7;uhorn 01B0;uhornacute 1EE9;
+uhorndotbelow 1EF1;uhorngrave 1EEB;uhornhookabove 1EED;uhorntilde 1EEF;uhungarumlaut 0171;
+uhungarumlautcyrillic 04F3;uinvertedbreve 0217;ukatakana 30A6;ukatakanahalfwidth FF73;ukcyrillic 0479;
+ukorean 315C;umacron 016B;umacroncyrillic 04EF;umacrondieresis 1E7B;umatragurmukhi 0A41;umonospace FF55;
+underscoredbl 2017;underscoremonospace FF3F;underscorevertical FE33;underscorewavy FE4F;union 222A;
+uniondisplay 22C3;unionmultidisplay 228E;unionmultitext 228E;unionsqdisplay 2294;unionsqtext 2294;
+uniontext 22C3;universal 2200;uogonek 0173;uparen 24B0;upblock 2580;upperdothebrew 05C4;upsilon 03C5;
+upsilondieresis 03CB;upsilondieresistonos 03B0;upsilonlatin 028A;upsilontonos 03CD;uptackbelowcmb 031D;
+uptackmod 02D4;uragurmukhi 0A73;uring 016F;ushortcyrillic 045E;usmallhiragana 3045;usmallkatakana 30A5;
+usmallkatakanahalfwidth FF69;ustraightcyrillic 04AF;ustraightstrokecyrillic 04B1;utilde 0169;utildeacute 1E79;
+utildebelow 1E75;uubengali 098A;uudeva 090A;uugujarati 0A8A;uugurmukhi 0A0A;uumatragurmukhi 0A42;
+uuvowelsignbengali 09C2;uuvowelsigndeva 0942;uuvowelsigngujarati 0AC2;uvowelsignbengali 09C1;
+uvowelsigndeva 0941;uvowelsigngujarati 0AC1;vadeva 0935;vagujarati 0AB5;vagurmukhi 0A35;vakatakana 30F7;
+vav 05D5;vavdagesh FB35;vavdagesh65 FB35;vavdageshhebrew FB35;vavhebrew 05D5;vavholam FB4B;
+vavholamhebrew FB4B;vavvavhebrew 05F0;vavyodhebrew 05F1;vcircle 24E5;vdotbelow 1E7F;vecyrillic 0432;
+veharabic 06A4;vehfinalarabic FB6B;vehinitialarabic FB6C;vehmedialarabic FB6D;vekatakana 30F9;venus 2640;
+verticalbar 007C;verticallineabovecmb 030D;verticallinebelowcmb 0329;verticallinelowmod 02CC;
+verticallinemod 02C8;vewarmenian 057E;vextenddouble 2225;vextendsingle 2223;vhook 028B;vikatakana 30F8;
+viramabengali 09CD;viramadeva 094D;viramagujarati 0ACD;visargabengali 0983;visargadeva 0903;
+visargagujarati 0A83;vmonospace FF56;voarmenian 0578;voicediterationhiragana 309E;
+voicediterationkatakana 30FE;voicedmarkkana 309B;voicedmarkkanahalfwidth FF9E;vokatakana 30FA;vparen 24B1;
+vtilde 1E7D;vturned 028C;vuhiragana 3094;vukatakana 30F4;wacute 1E83;waekorean 3159;wahiragana 308F;
+wakatakana 30EF;wakatakanahalfwidth FF9C;wakorean 3158;wasmallhiragana 308E;wasmallkatakana 30EE;
+wattosquare 3357;wavedash 301C;wavyunderscorevertical FE34;wawarabic 0648;wawfinalarabic FEEE;
+wawhamzaabovearabic 0624;wawhamzaabovefinalarabic FE86;wbsquare 33DD;wcircle 24E6;wcircumflex 0175;
+wdieresis 1E85;wdotaccent 1E87;wdotbelow 1E89;wehiragana 3091;weierstrass 2118;wekatakana 30F1;wekorean 315E;
+weokorean 315D;wgrave 1E81;whitebullet 25E6;whitecircle 25CB;whitecircleinverse 25D9;
+whitecornerbracketleft 300E;whitecornerbracketleftvertical FE43;whitecornerbracketright 300F;
+whitecornerbracketrightvertical FE44;whitediamond 25C7;whitediamondcontainingblacksmalldiamond 25C8;
+whitedownpointingsmalltriangle 25BF;whitedownpointingtriangle 25BD;whiteleftpointingsmalltriangle 25C3;
+whiteleftpointingtriangle 25C1;whitelenticularbracketleft 3016;whitelenticularbracketright 3017;
+whiterightpointingsmalltriangle 25B9;whiterightpointingtriangle 25B7;whitesmallsquare 25AB;
+whitesmilingface 263A;whitesquare 25A1;whitestar 2606;whitetelephone 260F;whitetortoiseshellbracketleft 3018;
+whitetortoiseshellbracketright 3019;whiteuppointingsmalltriangle 25B5;whiteuppointingtriangle 25B3;
+wihiragana 3090;wikatakana 30F0;wikorean 315F;wmonospace FF57;wohiragana 3092;wokatakana 30F2;
+wokatakanahalfwidth FF66;won 20A9;wonmonospace FFE6;wowaenthai 0E27;wparen 24B2;wring 1E98;wsuperior 02B7;
+wturned 028D;wynn 01BF;xabovecmb 033D;xbopomofo 3112;xcircle 24E7;xdieresis 1E8D;xdotaccent 1E8B;
+xeharmenian 056D;xi 03BE;xmonospace FF58;xparen 24B3;xsuperior 02E3;yaadosquare 334E;yabengali 09AF;
+yadeva 092F;yaekorean 3152;yagujarati 0AAF;yagurmukhi 0A2F;yahiragana 3084;yakatakana 30E4;
+yakatakanahalfwidth FF94;yakorean 3151;yamakkanthai 0E4E;yasmallhiragana 3083;yasmallkatakana 30E3;
+yasmallkatakanahalfwidth FF6C;yatcyrillic 0463;ycircle 24E8;ycircumflex 0177;ydotaccent 1E8F;ydotbelow 1EF5;
+yeharabic 064A;yehbarreearabic 06D2;yehbarreefinalarabic FBAF;yehfinalarabic FEF2;yehhamzaabovearabic 0626;
+yehhamzaabovefinalarabic FE8A;yehhamzaaboveinitialarabic FE8B;yehhamzaabovemedialarabic FE8C;
+yehinitialarabic FEF3;yehmedialarabic FEF4;yehmeeminitialarabic FCDD;yehmeemisolatedarabic FC58;
+yehnoonfinalarabic FC94;yehthreedotsbelowarabic 06D1;yekorean 3156;yenmonospace FFE5;yeokorean 3155;
+yeorinhieuhkorean 3186;yerahbenyomohebrew 05AA;yerahbenyomolefthebrew 05AA;yericyrillic 044B;
+yerudieresiscyrillic 04F9;yesieungkorean 3181;yesieungpansioskorean 3183;yesieungsioskorean 3182;
+yetivhebrew 059A;ygrave 1EF3;yhook 01B4;yhookabove 1EF7;yiarmenian 0575;yicyrillic 0457;yikorean 3162;
+yinyang 262F;yiwnarmenian 0582;ymonospace FF59;yod 05D9;yoddagesh FB39;yoddageshhebrew FB39;yodhebrew 05D9;
+yodyodhebrew 05F2;yodyodpatahhebrew FB1F;yohiragana 3088;yoikorean 3189;yokatakana 30E8;
+yokatakanahalfwidth FF96;yokorean 315B;yosmallhiragana 3087;yosmallkatakana 30E7;
+yosmallkatakanahalfwidth FF6E;yotgreek 03F3;yoyaekorean 3188;yoyakorean 3187;yoyakthai 0E22;yoyingthai 0E0D;
+yparen 24B4;ypogegrammeni 037A;ypogegrammenigreekcmb 0345;yr 01A6;yring 1E99;ysuperior 02B8;ytilde 1EF9;
+yturned 028E;yuhiragana 3086;yuikorean 318C;yukatakana 30E6;yukatakanahalfwidth FF95;yukorean 3160;
+yusbigcyrillic 046B;yusbigiotifiedcyrillic 046D;yuslittlecyrillic 0467;yuslittleiotifiedcyrillic 0469;
+yusmallhiragana 3085;yusmallkatakana 30E5;yusmallkatakanahalfwidth FF6D;yuyekorean 318B;yuyeokorean 318A;
+yyabengali 09DF;yyadeva 095F;zaarmenian 0566;zacute 017A;zadeva 095B;zagurmukhi 0A5B;zaharabic 0638;
+zahfinalarabic FEC6;zahinitialarabic FEC7;zahiragana 3056;zahmedialarabic FEC8;zainarabic 0632;
+zainfinalarabic FEB0;zakatakana 30B6;zaqefgadolhebrew 0595;zaqefqatanhebrew 0594;zarqahebrew 0598;zayin 05D6;
+zayindagesh FB36;zayindageshhebrew FB36;zayinhebrew 05D6;zbopomofo 3117;zcircle 24E9;zcircumflex 1E91;
+zcurl 0291;zdot 017C;zdotaccent 017C;zdotbelow 1E93;zecyrillic 0437;zedescendercyrillic 0499;
+zedieresiscyrillic 04DF;zehiragana 305C;zekatakana 30BC;zeroarabic 0660;zerobengali 09E6;zerodeva 0966;
+zerogujarati 0AE6;zerogurmukhi 0A66;zerohackarabic 0660;zeroinferior 2080;zeromonospace FF10;
+zerooldstyle F730;zeropersian 06F0;zerosuperior 2070;zerothai 0E50;zerowidthjoiner FEFF;
+zerowidthnonjoiner 200C;zerowidthspace 200B;zeta 03B6;zhbopomofo 3113;zhearmenian 056A;zhebrevecyrillic 04C2;
+zhecyrillic 0436;zhedescendercyrillic 0497;zhedieresiscyrillic 04DD;zihiragana 3058;zikatakana 30B8;
+zinorhebrew 05AE;zlinebelow 1E95;zmonospace FF5A;zohiragana 305E;zokatakana 30BE;zparen 24B5;
+zretroflexhook 0290;zstroke 01B6;zuhiragana 305A;zukatakana 30BA;
+`
-- 
2.43.0


From 6ace673f1613a7e581cf154cb65c81d431b314ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 14/41] fix: update documents incrementally, in the style of
 their newest section

Replacing an object of a document re-serialised parts of it in place.
AppendUpdate writes the new values as an incremental update instead: with
a table or a cross-reference stream like the newest section, encrypted as
the document is, leaving every other object and byte as it was.
---
 core/parse/api.go    |  12 ++++
 core/write/page.go   |  59 ++++++++++++-----
 core/write/update.go | 146 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 201 insertions(+), 16 deletions(-)
 create mode 100644 core/write/update.go

diff --git a/core/parse/api.go b/core/parse/api.go
index b63ab59..30e314a 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -41,6 +41,7 @@ type ParseOptions struct {
 	Verbose     bool                    // Enable verbose logging
 	BytePerfect bool                    // Preserve exact bytes for reconstruction
 	Warnings    *types.WarningCollector // Optional warning collector for non-fatal issues
+	Encryption  *types.PDFEncryption    // Encryption already unlocked, used instead of Password
 }
 
 // PDF represents a parsed PDF document.
@@ -79,6 +80,7 @@ type TrailerInfo struct {
 	EncryptRef string // Reference to encryption dictionary
 	IDArray    []byte // File identifier array
 	Encrypt    []byte // Value of /Encrypt: a reference or a dictionary
+	StartXRef  int64  // Offset of the newest cross-reference section
 }
 
 // Open parses a PDF from bytes with default options.
@@ -127,6 +129,10 @@ func (p *PDF) handleEncryption() error {
 	if string(dict) == "null" {
 		return nil
 	}
+	if p.opts.Encryption != nil {
+		p.encryption = p.opts.Encryption
+		return nil
+	}
 	enc, err := encrypt.ParseDictionary(dict)
 	if err != nil {
 		return types.WrapError(types.ErrCodeUnsupportedCrypto, "cannot read encryption dictionary", err)
@@ -222,6 +228,7 @@ func (p *PDF) parseStandard() error {
 			EncryptRef: lastSection.Encrypt,
 			IDArray:    lastSection.ID,
 			Encrypt:    lastSection.encryptValue,
+			StartXRef:  lastSection.StartXRef,
 		}
 		p.xref.Size = lastSection.Size
 	}
@@ -272,6 +279,11 @@ func (p *PDF) HasObject(objNum int) bool {
 	return ok
 }
 
+// ObjectRef returns where an object is located, or nil if there is none.
+func (p *PDF) ObjectRef(objNum int) *ObjectRef {
+	return p.xref.Objects[objNum]
+}
+
 // GetObject returns the content of a PDF object by number.
 // Returns the raw bytes between "N G obj" and "endobj".
 func (p *PDF) GetObject(objNum int) ([]byte, error) {
diff --git a/core/write/page.go b/core/write/page.go
index 4b8a3ec..f6037db 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"sort"
 
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/resources/font"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -190,6 +191,7 @@ type SimplePDFBuilder struct {
 	pages         []int
 	pagesObjNum   int
 	catalogObjNum int
+	annotations   map[int][]int // page index -> annotation object numbers
 }
 
 // NewSimplePDFBuilder creates a new simple PDF builder
@@ -212,23 +214,12 @@ func (b *SimplePDFBuilder) AddPage(size PageSize) *PageBuilder {
 
 // FinalizePage adds a built page to the document
 func (b *SimplePDFBuilder) FinalizePage(pb *PageBuilder) {
-	// Use a placeholder for pagesObjNum - we'll fix it later
-	if b.pagesObjNum == 0 {
-		// Reserve object number for pages
-		b.pagesObjNum = b.writer.nextObjNum
-		b.writer.nextObjNum++
-	}
-	pageObjNum := pb.Build(b.pagesObjNum)
+	pageObjNum := pb.Build(b.PagesObjNum())
 	b.pages = append(b.pages, pageObjNum)
 }
 
 // Bytes returns the complete PDF
 func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
-	if b.pagesObjNum == 0 {
-		b.pagesObjNum = b.writer.nextObjNum
-		b.writer.nextObjNum++
-	}
-
 	// Build Kids array
 	kids := "["
 	for _, pageNum := range b.pages {
@@ -238,13 +229,17 @@ func (b *SimplePDFBuilder) Bytes() ([]byte, error) {
 
 	// Create/update Pages object
 	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(b.pages))
-	b.writer.SetObject(b.pagesObjNum, []byte(pagesDict))
+	b.writer.SetObject(b.PagesObjNum(), []byte(pagesDict))
 
-	// Create Catalog
-	if b.catalogObjNum == 0 {
+	if err := b.placeAnnotations(); err != nil {
+		return nil, err
+	}
+
+	// Create Catalog, unless the caller has set one
+	if b.writer.rootRef == "" {
 		b.catalogObjNum = b.writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", b.pagesObjNum)))
+		b.writer.SetRoot(b.catalogObjNum)
 	}
-	b.writer.SetRoot(b.catalogObjNum)
 
 	return b.writer.Bytes()
 }
@@ -262,8 +257,40 @@ func (b *SimplePDFBuilder) SetBookmarks(bookmarks []types.Bookmark) error {
 	return err
 }
 
+// AddAnnotation shows an annotation object on a page (0-based)
+func (b *SimplePDFBuilder) AddAnnotation(page, annotObjNum int) {
+	if b.annotations == nil {
+		b.annotations = make(map[int][]int)
+	}
+	b.annotations[page] = append(b.annotations[page], annotObjNum)
+}
+
+// placeAnnotations connects the annotations and the pages that show them
+func (b *SimplePDFBuilder) placeAnnotations() error {
+	for page, annots := range b.annotations {
+		if page < 0 || page >= len(b.pages) {
+			return fmt.Errorf("no page %d for annotation", page)
+		}
+		pageObj := b.writer.objects[b.pages[page]]
+		list := "["
+		for _, num := range annots {
+			list += fmt.Sprintf("%d 0 R ", num)
+			if annot := b.writer.objects[num]; annot != nil {
+				annot.Content = pdfscan.SetDictEntry(annot.Content, "P", []byte(fmt.Sprintf("%d 0 R", b.pages[page])))
+			}
+		}
+		pageObj.Content = pdfscan.SetDictEntry(pageObj.Content, "Annots", []byte(list+"]"))
+	}
+	return nil
+}
+
 // PagesObjNum returns the pages object number
 func (b *SimplePDFBuilder) PagesObjNum() int {
+	if b.pagesObjNum == 0 {
+		// Reserve the object number, the object follows with the pages
+		b.pagesObjNum = b.writer.nextObjNum
+		b.writer.nextObjNum++
+	}
 	return b.pagesObjNum
 }
 
diff --git a/core/write/update.go b/core/write/update.go
new file mode 100644
index 0000000..0bfe97c
--- /dev/null
+++ b/core/write/update.go
@@ -0,0 +1,146 @@
+package write
+
+import (
+	"bytes"
+	"compress/zlib"
+	"encoding/binary"
+	"fmt"
+	"sort"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
+)
+
+// AppendUpdate returns the PDF followed by an incremental update that sets the
+// given objects, which are given unencrypted. All other objects stay as they
+// are. encryptInfo is needed if the PDF is encrypted.
+func AppendUpdate(pdfBytes []byte, objects map[int][]byte, encryptInfo *types.PDFEncryption) ([]byte, error) {
+	if len(objects) == 0 {
+		return append([]byte(nil), pdfBytes...), nil
+	}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
+	}
+	trailer := pdf.Trailer()
+	if trailer == nil || trailer.StartXRef <= 0 {
+		return nil, fmt.Errorf("cannot update a PDF without cross-reference section")
+	}
+
+	// Encrypts the objects as the other objects are
+	w := &PDFWriter{encryptInfo: pdf.Encryption(), encryptRef: trailer.EncryptRef}
+
+	size := trailer.Size
+	if all := pdf.Objects(); len(all) > 0 {
+		size = max(size, all[len(all)-1]+1)
+	}
+	nums := make([]int, 0, len(objects))
+	for num := range objects {
+		nums = append(nums, num)
+		size = max(size, num+1)
+	}
+	sort.Ints(nums)
+
+	var buf bytes.Buffer
+	buf.Write(pdfBytes)
+	if !bytes.HasSuffix(pdfBytes, []byte("\n")) && !bytes.HasSuffix(pdfBytes, []byte("\r")) {
+		buf.WriteByte('\n')
+	}
+	entries := make([]updateEntry, 0, len(nums)+1)
+	for _, num := range nums {
+		gen := 0
+		if ref := pdf.ObjectRef(num); ref != nil {
+			gen = ref.Generation
+		}
+		content, err := w.encryptContent(objects[num], num, gen)
+		if err != nil {
+			return nil, fmt.Errorf("failed to encrypt object %d: %w", num, err)
+		}
+		entries = append(entries, updateEntry{num, gen, buf.Len()})
+		fmt.Fprintf(&buf, "%d %d obj\n%s\nendobj\n", num, gen, content)
+	}
+
+	startXRef := buf.Len()
+	if bytes.HasPrefix(pdfBytes[trailer.StartXRef:], []byte("xref")) {
+		buf.WriteString("xref\n")
+		for _, section := range updateSections(entries) {
+			fmt.Fprintf(&buf, "%d %d\n", section[0].num, len(section))
+			for _, e := range section {
+				fmt.Fprintf(&buf, "%010d %05d n \n", e.offset, e.gen)
+			}
+		}
+		fmt.Fprintf(&buf, "trailer\n<<%s>>\n", updateTrailer(trailer, size))
+	} else {
+		// The cross-reference stream is an object itself
+		entries = append(entries, updateEntry{size, 0, startXRef})
+		var index, data bytes.Buffer
+		for _, section := range updateSections(entries) {
+			fmt.Fprintf(&index, " %d %d", section[0].num, len(section))
+			for _, e := range section {
+				data.WriteByte(1)
+				binary.Write(&data, binary.BigEndian, uint64(e.offset))
+				binary.Write(&data, binary.BigEndian, uint16(e.gen))
+			}
+		}
+		fmt.Fprintf(&buf, "%d 0 obj\n<</Type/XRef/W[1 8 2]/Index[%s]/Length %d%s>>\nstream\n%s\nendstream\nendobj\n",
+			size, bytes.TrimSpace(index.Bytes()), data.Len(), updateTrailer(trailer, size+1), data.Bytes())
+	}
+	fmt.Fprintf(&buf, "startxref\n%d\n%%%%EOF\n", startXRef)
+	return buf.Bytes(), nil
+}
+
+// updateEntry is the cross-reference entry of an updated object.
+type updateEntry struct{ num, gen, offset int }
+
+// updateSections groups sorted entries into runs of consecutive numbers.
+func updateSections(entries []updateEntry) [][]updateEntry {
+	var sections [][]updateEntry
+	start := 0
+	for i := 1; i <= len(entries); i++ {
+		if i == len(entries) || entries[i].num != entries[i-1].num+1 {
+			sections = append(sections, entries[start:i])
+			start = i
+		}
+	}
+	return sections
+}
+
+// updateTrailer returns the trailer entries of an update.
+func updateTrailer(trailer *parse.TrailerInfo, size int) []byte {
+	var buf bytes.Buffer
+	fmt.Fprintf(&buf, "/Size %d/Prev %d", size, trailer.StartXRef)
+	for _, entry := range []struct {
+		key   string
+		value []byte
+	}{
+		{"Root", []byte(trailer.RootRef)},
+		{"Info", []byte(trailer.InfoRef)},
+		{"Encrypt", trailer.Encrypt},
+		{"ID", trailer.IDArray},
+	} {
+		if len(entry.value) > 0 {
+			fmt.Fprintf(&buf, "/%s %s", entry.key, entry.value)
+		}
+	}
+	return buf.Bytes()
+}
+
+// StreamObject returns the content of a stream object with the entries of the
+// given dictionary and the given data, which is compressed if asked for.
+func StreamObject(dict, data []byte, compress bool) []byte {
+	filter := []byte("null")
+	if compress {
+		var compressed bytes.Buffer
+		zw := zlib.NewWriter(&compressed)
+		zw.Write(data)
+		zw.Close()
+		data, filter = compressed.Bytes(), []byte("/FlateDecode")
+	}
+	dict = pdfscan.SetDictEntry(dict, "Filter", filter)
+	if pdfscan.DictValue(dict, "DecodeParms") != nil {
+		dict = pdfscan.SetDictEntry(dict, "DecodeParms", []byte("null"))
+	}
+	dict = pdfscan.SetDictLength(dict, len(data))
+	return append(append(append(dict, "\nstream\n"...), data...), "\nendstream"...)
+}
-- 
2.43.0


From 266160a8e1c44b43e6506998d7b2ce0af52126c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 15/41] fix: read, fill and validate interactive forms by their
 object structure

Fields were located with patterns over the raw text, so nested fields,
inherited attributes, object streams, encryption and most string
encodings were misread, and filling rewrote bytes in place.
---
 forms/acroform/actions.go        |  91 +-----
 forms/acroform/appearance.go     |  23 +-
 forms/acroform/extract.go        |  54 ++--
 forms/acroform/fill_streams.go   | 257 +++++++--------
 forms/acroform/flatten.go        |  99 +++---
 forms/acroform/integration.go    |   7 +
 forms/acroform/parser.go         | 523 +++++++++++++++++--------------
 forms/acroform/replace.go        | 102 +-----
 forms/acroform/stream_finder.go  |  51 ---
 forms/acroform/stream_rebuild.go | 269 +---------------
 forms/acroform/validation.go     | 260 +++++++++------
 forms/acroform/writer.go         | 150 +++------
 12 files changed, 730 insertions(+), 1156 deletions(-)
 delete mode 100644 forms/acroform/stream_finder.go

diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index ed89333..dba25c4 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -3,10 +3,9 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // ActionType represents the type of PDF action
@@ -37,15 +36,13 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", pdfscan.EncodeText(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", pdfscan.EncodeText(action.JavaScript))
 	case ActionTypeGoTo:
 		if action.Destination != "" {
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
@@ -63,30 +60,13 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 		return fmt.Errorf("unsupported action type: %s", action.Type)
 	}
 
-	// Add /AA (additional actions) or /A (action) to field
-	// /A is for the main action, /AA is for event-specific actions
-	actionEntry := fmt.Sprintf("/A %s", actionDict)
-
-	// Check if /A or /AA already exists
-	if strings.Contains(fieldStr, "/A ") || strings.Contains(fieldStr, "/AA ") {
-		// Replace existing action (simplified - would need better parsing)
-		// For now, just add /A
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
-	} else {
-		// Add action before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + actionEntry + " " + fieldStr[dictEnd:]
+	// Set /A (action) of the field; /AA is for event-specific actions
+	if !isDict(fieldData) {
+		return fmt.Errorf("field dictionary not found")
 	}
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, pdfscan.SetDictEntry(fieldData, "A", []byte(actionDict)))
 	return nil
 }
 
@@ -98,15 +78,13 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Create action dictionary
 	var actionDict string
 	switch action.Type {
 	case ActionTypeURI:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI (%s) >>", escapeActionString(action.URI))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /URI /URI %s >>", pdfscan.EncodeText(action.URI))
 	case ActionTypeJavaScript:
-		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS (%s) >>", escapeActionString(action.JavaScript))
+		actionDict = fmt.Sprintf("<< /Type /Action /S /JavaScript /JS %s >>", pdfscan.EncodeText(action.JavaScript))
 	default:
 		return fmt.Errorf("unsupported action type for mouse event: %s", action.Type)
 	}
@@ -126,51 +104,16 @@ func AddMouseAction(fieldObjNum int, event string, action *Action, w *write.PDFW
 	}
 
 	// Add to /AA dictionary
-	aaEntry := fmt.Sprintf("/AA << /%s %s >>", actionKey, actionDict)
-
-	// Check if /AA exists
-	if strings.Contains(fieldStr, "/AA ") {
-		// Update existing /AA (simplified)
-		aaPattern := regexp.MustCompile(`/AA\s*<<[^>]*>>`)
-		fieldStr = aaPattern.ReplaceAllString(fieldStr, aaEntry)
-	} else {
-		// Add /AA before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + aaEntry + " " + fieldStr[dictEnd:]
+	if !isDict(fieldData) {
+		return fmt.Errorf("field dictionary not found")
+	}
+	actions := pdfscan.DictValue(fieldData, "AA")
+	if !isDict(actions) {
+		actions = []byte("<<>>")
 	}
+	actions = pdfscan.SetDictEntry(actions, actionKey, []byte(actionDict))
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, pdfscan.SetDictEntry(fieldData, "AA", actions))
 	return nil
 }
-
-// escapeActionString escapes strings for action dictionaries
-func escapeActionString(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 66cf7f4..009e375 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,10 +3,10 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // AppearanceBuilder helps create appearance streams for form fields
@@ -189,26 +189,13 @@ func AddAppearanceToField(fieldObjNum, appearanceNum int, w *write.PDFWriter) er
 		return fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Add or update /AP dictionary
-	apEntry := fmt.Sprintf("/AP << /N %d 0 R >>", appearanceNum)
-
-	// Check if /AP already exists
-	if strings.Contains(fieldStr, "/AP") {
-		// Replace existing /AP
-		apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-		fieldStr = apPattern.ReplaceAllString(fieldStr, apEntry)
-	} else {
-		// Add /AP before closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return fmt.Errorf("field dictionary not found")
-		}
-		fieldStr = fieldStr[:dictEnd] + apEntry + " " + fieldStr[dictEnd:]
+	if !isDict(fieldData) {
+		return fmt.Errorf("field dictionary not found")
 	}
+	appearance := []byte(fmt.Sprintf("<< /N %d 0 R >>", appearanceNum))
 
 	// Update object
-	w.SetObject(fieldObjNum, []byte(fieldStr))
+	w.SetObject(fieldObjNum, pdfscan.SetDictEntry(fieldData, "AP", appearance))
 	return nil
 }
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..20ad1c8 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,28 +2,25 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ExtractAcroForm extracts AcroForm structure from a PDF
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
-	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
 	// Parse AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
@@ -45,19 +42,11 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
+	for _, field := range af.terminalFields() {
 		fieldName := field.GetFullName()
 		if fieldName != "" && field.V != nil {
 			values[fieldName] = field.V
 		}
-
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
-		}
 	}
 
 	return values
@@ -67,6 +56,9 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
+		if f.T == "" {
+			return parentName
+		}
 		if parentName != "" {
 			return parentName + "." + f.T
 		}
@@ -74,18 +66,22 @@ func (f *Field) GetFullName() string {
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name, or else by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
+	if field := findField(af.Fields, func(f *Field) bool { return f.GetFullName() == name }); field != nil {
+		return field
+	}
+	return findField(af.Fields, func(f *Field) bool { return f.T == name })
+}
+
+// findField returns the first field that matches, at any depth
+func findField(fields []*Field, match func(*Field) bool) *Field {
+	for _, field := range fields {
+		if match(field) {
 			return field
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+		if found := findField(field.Kids, match); found != nil {
+			return found
 		}
 	}
 	return nil
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..c88d070 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -4,10 +4,10 @@ package acroform
 import (
 	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,7 +17,6 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("PDF bytes are empty")
 	}
 
-	// Parse PDF to get encryption info and object locations
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Password: password,
 		Verbose:  verbose,
@@ -25,173 +24,143 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
-	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	if acroForm == nil {
-		return nil, fmt.Errorf("AcroForm is nil")
-	}
-
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
-
-	for fieldName, value := range formData {
-		field := acroForm.FindFieldByName(fieldName)
-		if field == nil {
+	filler := &fieldFiller{pdf: pdf, objects: make(map[int][]byte)}
+	for _, name := range sortedFieldNames(formData) {
+		field := acroForm.FindFieldByName(name)
+		if field == nil || len(field.Kids) > 0 {
 			if verbose {
-				fmt.Printf("Warning: Field '%s' not found, skipping\n", fieldName)
+				fmt.Printf("Warning: Field '%s' not found, skipping\n", name)
 			}
 			continue
 		}
-
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-			}
-			continue
+		if err := filler.fill(field, formData[name]); err != nil {
+			return nil, fmt.Errorf("failed to fill field '%s': %w", name, err)
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
+		if verbose {
+			fmt.Printf("Filled field '%s' with value '%v'\n", name, formData[name])
 		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
+	}
+	return write.AppendUpdate(pdfBytes, filler.objects, pdf.Encryption())
+}
 
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
+// fieldFiller collects the objects that change when fields are filled
+type fieldFiller struct {
+	pdf     *parse.PDF
+	objects map[int][]byte // object number -> new content
+}
 
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
+// dict returns the current content of a dictionary object
+func (f *fieldFiller) dict(objNum int) ([]byte, error) {
+	if content, ok := f.objects[objNum]; ok {
+		return content, nil
+	}
+	object, err := f.pdf.GetObject(objNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get field object: %w", err)
+	}
+	dict := pdfscan.Value(object)
+	if !isDict(dict) {
+		return nil, fmt.Errorf("field dictionary not found")
+	}
+	return dict, nil
+}
 
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
+// fill sets the value of a field
+func (f *fieldFiller) fill(field *Field, value interface{}) error {
+	dict, err := f.dict(field.ObjectNum)
+	if err != nil {
+		return err
+	}
+	if field.FT == "Btn" && value == true {
+		value = f.onState(field)
+	}
+	dict = pdfscan.SetDictEntry(dict, "V", fieldValue(value, field.FT))
+	if pdfscan.DictValue(dict, "I") != nil {
+		// The selected indices were those of the previous value
+		dict = pdfscan.SetDictEntry(dict, "I", []byte("null"))
+	}
+	f.objects[field.ObjectNum] = dict
 
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
+	if field.FT == "Btn" && field.Ff&flagPushbutton == 0 {
+		for _, widget := range field.widgets {
+			if err := f.setState(widget, formatFieldValue(value, field.FT)); err != nil {
+				return err
 			}
 		}
-
-		if verbose {
-			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
-		}
 	}
+	return nil
+}
 
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
-		}
+// states returns the names of the appearances a button widget can show
+func (f *fieldFiller) states(widget []byte) []string {
+	var states []string
+	appearances := pdfscan.LookupDict(widget, "AP", f.pdf.GetObject)
+	for _, entry := range pdfscan.Entries(pdfscan.LookupDict(appearances, "N", f.pdf.GetObject)) {
+		states = append(states, entry.Key)
+	}
+	return states
+}
 
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
+// onState returns the name of the state in which a checkbox is checked
+func (f *fieldFiller) onState(field *Field) string {
+	for _, num := range field.widgets {
+		if widget, err := f.dict(num); err == nil {
+			for _, state := range f.states(widget) {
+				if state != "Off" {
+					return state
+				}
 			}
-			// Continue with other streams
-			continue
-		}
-
-		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
 		}
 	}
+	return "Yes"
+}
 
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
+// setState makes a button widget show the appearance for the field's value
+func (f *fieldFiller) setState(objNum int, value string) error {
+	widget, err := f.dict(objNum)
+	if err != nil {
+		return err
 	}
-
-	return result, nil
+	states := f.states(widget)
+	if len(states) == 0 && pdfscan.DictValue(widget, "AS") == nil {
+		return nil
+	}
+	state := "Off"
+	for _, name := range states {
+		if name == value {
+			state = value
+		}
+	}
+	f.objects[objNum] = pdfscan.SetDictEntry(widget, "AS", []byte(pdfscan.EncodeName(state)))
+	return nil
 }
 
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
+// fieldValue returns the PDF value for a field of the given type: a name for
+// buttons, text or an array of texts for other fields
+func fieldValue(value interface{}, fieldType string) []byte {
+	if value == nil {
+		return []byte("null")
+	}
+	if fieldType == "Btn" {
+		return []byte(pdfscan.EncodeName(formatFieldValue(value, fieldType)))
+	}
+	var items [][]byte
+	switch values := value.(type) {
+	case []string:
+		for _, item := range values {
+			items = append(items, pdfscan.EncodeText(item))
+		}
+	case []interface{}:
+		for _, item := range values {
+			items = append(items, fieldValue(item, fieldType))
 		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+	default:
+		return pdfscan.EncodeText(formatFieldValue(value, fieldType))
 	}
-
-	return []byte(newFieldStr), nil
+	return []byte("[" + string(bytes.Join(items, []byte(" "))) + "]")
 }
diff --git a/forms/acroform/flatten.go b/forms/acroform/flatten.go
index c0dbde9..d5fb4a2 100644
--- a/forms/acroform/flatten.go
+++ b/forms/acroform/flatten.go
@@ -3,12 +3,12 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
-	"strconv"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // FlattenForm converts form fields to static content (removes interactivity)
@@ -23,21 +23,12 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	var encryptInfo *types.PDFEncryption
-	if pdf.Encryption() != nil {
-		encryptInfo = pdf.Encryption()
-	}
-
 	// Extract AcroForm
-	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
+	acroForm, err := parseAcroForm(pdf, verbose)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse AcroForm: %w", err)
 	}
 
-	// Create new PDF writer
-	w := write.NewPDFWriter()
-	w.SetVersion(pdf.Version())
-
 	// For each field, we need to:
 	// 1. Get the field's appearance stream (if it exists)
 	// 2. Add it to the page content
@@ -53,14 +44,22 @@ func FlattenForm(pdfBytes []byte, password []byte, verbose bool) ([]byte, error)
 		fmt.Printf("Flattening %d form fields\n", len(acroForm.Fields))
 	}
 
-	// For now, return a copy with AcroForm reference removed from catalog
+	// For now, remove the AcroForm from the catalog
 	// Full implementation would require page-level annotation removal
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Remove AcroForm reference from catalog (simplified)
-	catalogPattern := regexp.MustCompile(`/AcroForm\s+\d+\s+\d+\s+R`)
-	result = catalogPattern.ReplaceAll(result, []byte(""))
+	rootNum, _, ok := pdfscan.Reference([]byte(pdf.Trailer().RootRef), 0)
+	if !ok {
+		return nil, fmt.Errorf("catalog not found")
+	}
+	catalog, err := pdf.GetObject(rootNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get catalog: %w", err)
+	}
+	result, err := write.AppendUpdate(pdfBytes, map[int][]byte{
+		rootNum: pdfscan.SetDictEntry(pdfscan.Value(catalog), "AcroForm", []byte("null")),
+	}, pdf.Encryption())
+	if err != nil {
+		return nil, fmt.Errorf("failed to remove AcroForm: %w", err)
+	}
 
 	if verbose {
 		fmt.Println("Form flattened (AcroForm reference removed)")
@@ -77,11 +76,8 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 		return nil, fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
 	// Check for appearance stream (/AP)
-	apPattern := regexp.MustCompile(`/AP\s*<<[^>]*>>`)
-	if !apPattern.MatchString(fieldStr) {
+	if pdfscan.DictValue(pdfscan.Value(fieldData), "AP") == nil {
 		// No appearance stream - field value should be rendered as text
 		// This would require creating content stream with field value
 		if verbose {
@@ -100,43 +96,42 @@ func FlattenField(pdfBytes []byte, field *Field, encryptInfo *types.PDFEncryptio
 
 // GetFieldAppearance gets the appearance stream for a field
 func GetFieldAppearance(field *Field, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-
-	// Find /AP dictionary
-	apPattern := regexp.MustCompile(`/AP\s*<<([^>]*)>>`)
-	apMatch := apPattern.FindStringSubmatch(fieldStr)
-	if apMatch == nil {
+	// The appearance is that of the field's widget
+	objNum := field.ObjectNum
+	if len(field.widgets) > 0 {
+		objNum = field.widgets[0]
+	}
+	widget, err := pdf.GetObject(objNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get field object: %w", err)
+	}
+	dict := pdfscan.Value(widget)
+	appearances := pdfscan.LookupDict(dict, "AP", pdf.GetObject)
+	if appearances == nil {
 		return nil, fmt.Errorf("no appearance stream found for field")
 	}
 
-	// Find /N (normal appearance) stream reference
-	nPattern := regexp.MustCompile(`/N\s+(\d+)\s+(\d+)\s+R`)
-	nMatch := nPattern.FindStringSubmatch(apMatch[1])
-	if nMatch == nil {
+	// Normal appearance: a stream, or a stream for each state
+	normal := pdfscan.DictValue(appearances, "N")
+	if objNum, _, ok := pdfscan.Reference(normal, 0); ok {
+		if _, data, err := pdf.StreamData(objNum); err == nil {
+			return data, nil
+		}
+	}
+	state := strings.TrimPrefix(pdfscan.LookupName(dict, "AS", pdf.GetObject), "/")
+	normal = pdfscan.DictValue(pdfscan.Resolve(normal, pdf.GetObject), state)
+	objNum, _, ok := pdfscan.Reference(normal, 0)
+	if !ok {
 		return nil, fmt.Errorf("no normal appearance stream found")
 	}
-
-	appearanceObjNum, _ := strconv.Atoi(nMatch[1])
-	_ = nMatch[2] // Generation number (usually 0)
-
-	// Get appearance stream
-	appearanceData, err := parse.GetObject(pdfBytes, appearanceObjNum, encryptInfo, false)
+	_, data, err := pdf.StreamData(objNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get appearance stream: %w", err)
 	}
-
-	// Extract stream data (if it's a stream object)
-	streamPattern := regexp.MustCompile(`stream\s*\n(.*?)\nendstream`)
-	streamMatch := streamPattern.FindStringSubmatch(string(appearanceData))
-	if streamMatch != nil {
-		return []byte(streamMatch[1]), nil
-	}
-
-	return appearanceData, nil
+	return data, nil
 }
diff --git a/forms/acroform/integration.go b/forms/acroform/integration.go
index d7d1608..75d216b 100644
--- a/forms/acroform/integration.go
+++ b/forms/acroform/integration.go
@@ -57,6 +57,13 @@ func (fb *FormBuilder) BuildForm() (int, error) {
 		return 0, fmt.Errorf("failed to build AcroForm: %w", err)
 	}
 
+	// Show the fields on their pages
+	for i, field := range fb.fieldBuilder.fields {
+		if len(field.Rect) >= 4 {
+			fb.builder.AddAnnotation(field.Page, fb.fieldBuilder.objNums[i])
+		}
+	}
+
 	// Get pages object number
 	pagesObjNum := fb.builder.PagesObjNum()
 
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..e032a13 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -2,12 +2,12 @@
 package acroform
 
 import (
+	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -17,6 +17,7 @@ type AcroForm struct {
 	NeedAppearances bool
 	SignatureFields []int // Object numbers of signature fields
 	XFA             bool  // True if XFA is present (hybrid form)
+	pageCount       int
 }
 
 // Field represents a single AcroForm field
@@ -41,260 +42,309 @@ type Field struct {
 	I          []int                  // Selected indices (for choice fields)
 	Rect       []float64              // Field rectangle [llx lly urx ury]
 	Page       int                    // Page number (0-indexed)
+	widgets    []int                  // Object numbers of the field's widget annotations
 }
 
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-		Password: []byte(""),
-		Verbose:  verbose,
+		Encryption: encryptInfo,
+		Verbose:    verbose,
 	})
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
-
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
+	return parseAcroForm(pdf, verbose)
 }
 
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
-		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
+// parseAcroForm parses the AcroForm of an open PDF
+func parseAcroForm(pdf *parse.PDF, verbose bool) (*AcroForm, error) {
+	p := &formParser{
+		pdf:     pdf,
+		form:    &AcroForm{Fields: make([]*Field, 0)},
+		seen:    make(map[int]bool),
+		verbose: verbose,
 	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
-	}
-
-	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
-	}
-
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
+	catalog := p.resolve([]byte(pdf.Trailer().RootRef))
+	dict := p.lookup(catalog, "AcroForm")
+	if !isDict(dict) {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
 	}
 
-	return acroForm, nil
-}
-
-// parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
-
 	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
-		acroForm.XFA = true
-		if verbose {
-			fmt.Println("Found XFA in AcroForm (hybrid form)")
+	p.form.XFA = p.present(dict, "XFA")
+	if p.form.XFA && verbose {
+		fmt.Println("Found XFA in AcroForm (hybrid form)")
+	}
+	p.form.NeedAppearances = string(p.lookup(dict, "NeedAppearances")) == "true"
+	p.parsePages(catalog)
+
+	// Fields inherit from the AcroForm what they do not define
+	root := &Field{}
+	p.parseInherited(dict, root)
+	for _, item := range pdfscan.ArrayItems(p.lookup(dict, "Fields")) {
+		if field := p.parseField(item, root, nil); field != nil {
+			p.form.Fields = append(p.form.Fields, field)
 		}
 	}
+	return p.form, nil
+}
 
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
-	}
+// formParser reads the fields of a form
+type formParser struct {
+	pdf     *parse.PDF
+	form    *AcroForm
+	seen    map[int]bool // objects of fields and widgets read so far
+	pages   map[int]int  // object number of a page -> page index
+	annots  map[int]int  // object number of an annotation -> page index
+	verbose bool
+}
 
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
-	}
+func (p *formParser) resolve(value []byte) []byte {
+	return pdfscan.Resolve(value, p.pdf.GetObject)
+}
+
+func (p *formParser) lookup(dict []byte, key string) []byte {
+	return pdfscan.Lookup(dict, key, p.pdf.GetObject)
+}
 
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
+// present reports whether the dictionary has a value other than null
+func (p *formParser) present(dict []byte, key string) bool {
+	value := p.lookup(dict, key)
+	return value != nil && string(value) != "null"
+}
 
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
+func isDict(value []byte) bool {
+	return bytes.HasPrefix(value, []byte("<<"))
+}
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
+// parsePages records the pages of the document and their annotations
+func (p *formParser) parsePages(catalog []byte) {
+	p.pages, p.annots = make(map[int]int), make(map[int]int)
+	visited := make(map[int]bool)
+	var visit func(node []byte)
+	visit = func(node []byte) {
+		objNum, _, isRef := pdfscan.Reference(node, 0)
+		if isRef && visited[objNum] {
+			return
+		}
+		visited[objNum] = isRef
+		dict := p.resolve(node)
+		if kids := p.lookup(dict, "Kids"); kids != nil {
+			for _, kid := range pdfscan.ArrayItems(kids) {
+				visit(kid)
+			}
+			return
+		}
+		if !isDict(dict) {
+			return
+		}
+		index := p.form.pageCount
+		p.form.pageCount++
+		if isRef {
+			p.pages[objNum] = index
+		}
+		for _, annot := range pdfscan.ArrayItems(p.lookup(dict, "Annots")) {
+			if num, _, ok := pdfscan.Reference(annot, 0); ok {
+				if _, known := p.annots[num]; !known {
+					p.annots[num] = index
+				}
 			}
-			continue
 		}
-
-		acroForm.Fields = append(acroForm.Fields, field)
 	}
-
-	return nil
+	if root := pdfscan.DictValue(catalog, "Pages"); root != nil {
+		visit(root)
+	}
 }
 
-// parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
+// parseInherited reads the attributes that are inherited by the kids of a field
+func (p *formParser) parseInherited(dict []byte, field *Field) {
+	if ft := pdfscan.LookupName(dict, "FT", p.pdf.GetObject); ft != "" {
+		field.FT = strings.TrimPrefix(ft, "/")
 	}
-
-	field := &Field{
-		ObjectNum:  objNum,
-		Generation: genNum,
-		Kids:       make([]*Field, 0),
+	for key, number := range map[string]*int{"Ff": &field.Ff, "Q": &field.Q, "MaxLen": &field.MaxLen} {
+		if n, ok := pdfscan.LookupInt(dict, key, p.pdf.GetObject); ok {
+			*number = n
+		}
 	}
-
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
+	for key, value := range map[string]*interface{}{"V": &field.V, "DV": &field.DV} {
+		if p.present(dict, key) {
+			*value = p.parseValue(pdfscan.DictValue(dict, key))
+		}
 	}
-
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
+	if p.present(dict, "DA") {
+		field.DA = pdfscan.LookupText(dict, "DA", p.pdf.GetObject)
 	}
-
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
+	if p.present(dict, "Opt") {
+		field.Opt = p.parseOptions(p.lookup(dict, "Opt"))
 	}
+}
 
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+// parseField parses a field and the fields and widgets below it
+func (p *formParser) parseField(value []byte, inherited, parent *Field) *Field {
+	objNum, _, isRef := pdfscan.Reference(value, 0)
+	dict := p.resolve(value)
+	if !isDict(dict) || p.seen[objNum] {
+		if p.verbose {
+			fmt.Printf("Warning: skipping field %s\n", value)
+		}
+		return nil
 	}
 
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
+	// The attributes the field does not define itself are those of its parent
+	field := &Field{
+		FT: inherited.FT, Ff: inherited.Ff, Q: inherited.Q, MaxLen: inherited.MaxLen,
+		V: inherited.V, DV: inherited.DV, DA: inherited.DA, Opt: inherited.Opt,
+		Parent: parent,
+		Kids:   make([]*Field, 0),
+	}
+	if isRef {
+		p.seen[objNum] = true
+		field.ObjectNum = objNum
+		if ref := p.pdf.ObjectRef(objNum); ref != nil {
+			field.Generation = ref.Generation
+		}
 	}
+	p.parseInherited(dict, field)
 
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
+	get := p.pdf.GetObject
+	if name := p.lookup(dict, "T"); bytes.HasPrefix(name, []byte("/")) {
+		field.T = pdfscan.DecodeName(string(name))
+	} else {
+		field.T = pdfscan.LookupText(dict, "T", get)
 	}
-
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
+	field.TU = pdfscan.LookupText(dict, "TU", get)
+	field.TM = pdfscan.LookupText(dict, "TM", get)
+	field.TI, _ = pdfscan.LookupInt(dict, "TI", get)
+	for _, index := range pdfscan.Numbers(pdfscan.DictValue(dict, "I"), get) {
+		field.I = append(field.I, int(index))
 	}
-
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
+	if field.FT == "Sig" && isRef {
+		p.form.SignatureFields = append(p.form.SignatureFields, objNum)
 	}
 
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+	// The kids are fields, or the widgets of this field
+	isWidget := p.present(dict, "Rect")
+	if isWidget {
+		p.addWidget(field, objNum, dict)
 	}
-
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
+	for _, kid := range pdfscan.ArrayItems(p.lookup(dict, "Kids")) {
+		kidDict := p.resolve(kid)
+		if p.present(kidDict, "T") || p.present(kidDict, "Kids") {
+			if kidField := p.parseField(kid, field, field); kidField != nil {
+				field.Kids = append(field.Kids, kidField)
 			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
+			continue
+		}
+		kidNum, _, isRef := pdfscan.Reference(kid, 0)
+		if !isDict(kidDict) || p.seen[kidNum] {
+			continue
 		}
+		p.seen[kidNum] = isRef
+		p.addWidget(field, kidNum, kidDict)
 	}
+	return field
+}
 
-	return field, nil
+// addWidget adds a widget annotation to its field, which is reported at the
+// position of its first widget
+func (p *formParser) addWidget(field *Field, objNum int, dict []byte) {
+	field.widgets = append(field.widgets, objNum)
+	if len(field.widgets) > 1 {
+		return
+	}
+	field.Rect = pdfscan.LookupNumbers(dict, "Rect", p.pdf.GetObject)
+	page, ok := p.annots[objNum]
+	if !ok {
+		if pageNum, _, isRef := pdfscan.Reference(pdfscan.DictValue(dict, "P"), 0); isRef {
+			page = p.pages[pageNum]
+		}
+	}
+	field.Page = page
 }
 
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
+// parseValue parses the value of a field
+func (p *formParser) parseValue(value []byte) interface{} {
+	if objNum, _, ok := pdfscan.Reference(value, 0); ok {
+		if _, data, err := p.pdf.StreamData(objNum); err == nil {
+			return pdfscan.TextFromBytes(data)
+		}
+	}
+	value = p.resolve(value)
+	switch {
+	case pdfscan.IsString(value):
+		return pdfscan.DecodeText(value)
+	case bytes.HasPrefix(value, []byte("/")):
+		return pdfscan.DecodeName(string(value))
+	case bytes.HasPrefix(value, []byte("[")):
+		items := make([]interface{}, 0)
+		for _, item := range pdfscan.ArrayItems(value) {
+			if item := p.resolve(item); !bytes.HasPrefix(item, []byte("[")) {
+				items = append(items, p.parseValue(item))
+			}
 		}
+		return items
+	case string(value) == "true" || string(value) == "false":
+		return string(value) == "true"
 	}
-	return items
+	if number, ok := pdfscan.Number(value); ok {
+		return number
+	}
+	return nil
 }
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
+// parseOptions parses the options of a field: strings, or [value, display]
+// pairs
+func (p *formParser) parseOptions(value []byte) []interface{} {
 	options := make([]interface{}, 0)
+	for _, item := range pdfscan.ArrayItems(value) {
+		options = append(options, p.parseValue(item))
+	}
+	return options
+}
 
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+// optionText returns the value and the display text of an option
+func optionText(option interface{}) (value, label string) {
+	if pair, ok := option.([]interface{}); ok {
+		if len(pair) == 0 {
+			return "", ""
 		}
+		return fmt.Sprint(pair[0]), fmt.Sprint(pair[len(pair)-1])
 	}
-
-	return options
+	value = fmt.Sprint(option)
+	return value, value
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// terminalFields returns the fields that have no fields below them, in order
+func (af *AcroForm) terminalFields() []*Field {
+	var fields []*Field
+	var visit func(field *Field)
+	visit = func(field *Field) {
+		if len(field.Kids) == 0 {
+			fields = append(fields, field)
+		}
+		for _, kid := range field.Kids {
+			visit(kid)
 		}
 	}
-	return rect
+	for _, field := range af.Fields {
+		visit(field)
+	}
+	return fields
 }
 
 // ToFormSchema converts AcroForm to FormSchema
 func (af *AcroForm) ToFormSchema() *types.FormSchema {
 	schema := &types.FormSchema{
 		Metadata: types.FormMetadata{
-			FormType: "AcroForm",
+			FormType:   "AcroForm",
+			TotalPages: af.pageCount,
 		},
 		Questions: make([]types.Question, 0),
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
+	for _, field := range af.terminalFields() {
 		question := field.ToQuestion()
 		if question != nil {
 			schema.Questions = append(schema.Questions, *question)
@@ -308,11 +358,11 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
-		Required:   (f.Ff & 0x2) != 0, // Required flag
-		ReadOnly:   (f.Ff & 0x1) != 0, // ReadOnly flag
+		Required:   f.Ff&flagRequired != 0,
+		ReadOnly:   f.Ff&flagReadOnly != 0,
 		Properties: make(map[string]interface{}),
 	}
 
@@ -321,31 +371,23 @@ func (f *Field) ToQuestion() *types.Question {
 		question.Default = f.DV
 	}
 
-	// Set current value
-	if f.V != nil {
-		// Value will be set when filling
-	}
-
 	// Add options for choice fields
 	if len(f.Opt) > 0 {
 		question.Options = make([]types.Option, 0, len(f.Opt))
 		for i, opt := range f.Opt {
-			optStr := fmt.Sprintf("%v", opt)
+			value, label := optionText(opt)
 			question.Options = append(question.Options, types.Option{
-				Value: optStr,
-				Label: optStr,
+				Value:    value,
+				Label:    label,
+				Selected: f.isSelected(i, value),
 			})
-			// Check if this option is selected
-			if f.I != nil {
-				for _, idx := range f.I {
-					if idx == i {
-						question.Options[i].Selected = true
-					}
-				}
-			}
 		}
 	}
 
+	if f.isEditable() {
+		question.Properties["editable"] = true
+	}
+
 	// Add validation
 	if f.MaxLen > 0 {
 		question.Validation = &types.ValidationRules{
@@ -362,50 +404,71 @@ func (f *Field) ToQuestion() *types.Question {
 		question.Properties["height"] = f.Rect[3] - f.Rect[1]
 	}
 
+	question.PageNumber = f.Page + 1
 	question.Properties["page"] = f.Page
 	question.Properties["object_num"] = f.ObjectNum
 
 	return question
 }
 
-// mapFieldType maps AcroForm field type to ResponseType
-func mapFieldType(ft string) types.ResponseType {
-	switch ft {
-	case "Tx":
-		return types.ResponseTypeText
-	case "Btn":
-		// Check flags to determine if checkbox or button
-		return types.ResponseTypeButton // Will be refined based on flags
-	case "Ch":
-		return types.ResponseTypeSelect
-	case "Sig":
-		return types.ResponseTypeSignature
-	default:
-		return types.ResponseTypeUnknown
+// isEditable reports whether a choice field takes values beside its options
+func (f *Field) isEditable() bool {
+	return f.FT == "Ch" && f.Ff&flagCombo != 0 && f.Ff&flagEdit != 0
+}
+
+// isSelected reports whether the option is selected in a choice field
+func (f *Field) isSelected(index int, value string) bool {
+	if f.I != nil {
+		for _, selected := range f.I {
+			if selected == index {
+				return true
+			}
+		}
+		return false
+	}
+	values, ok := f.V.([]interface{})
+	if !ok {
+		values = []interface{}{f.V}
 	}
+	for _, selected := range values {
+		if selected == value {
+			return true
+		}
+	}
+	return false
 }
 
-// mapFieldTypeWithFlags maps field type using flags to distinguish checkboxes from buttons
+// Field flags (ISO 32000-1 tables 221, 226, 228 and 230)
+const (
+	flagReadOnly   = 1 << 0
+	flagRequired   = 1 << 1
+	flagMultiline  = 1 << 12
+	flagRadio      = 1 << 15
+	flagPushbutton = 1 << 16
+	flagCombo      = 1 << 17
+	flagEdit       = 1 << 18
+	flagMulti      = 1 << 21
+)
+
+// mapFieldTypeWithFlags maps AcroForm field type to ResponseType, using flags
+// to distinguish checkboxes from buttons
 func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	switch ft {
 	case "Tx":
+		if flags&flagMultiline != 0 {
+			return types.ResponseTypeTextarea
+		}
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
+		if flags&flagPushbutton != 0 {
+			return types.ResponseTypeButton
 		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		if flags&flagRadio != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
-		// Combo box flag is 0x20000 (bit 17)
-		if (flags & 0x20000) != 0 {
-			return types.ResponseTypeSelect // Dropdown
-		}
-		return types.ResponseTypeSelect // List box
+		return types.ResponseTypeSelect // Dropdown or list box
 	case "Sig":
 		return types.ResponseTypeSignature
 	default:
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..55d156b 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,88 +3,32 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
 // ReplaceFieldObject replaces a field object in a PDF
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
-		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
-	}
-
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
-
 	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+		fmt.Printf("Replacing object %d %d: %d bytes\n", objNum, genNum, len(newContent))
 	}
-
-	return result, nil
+	return write.AppendUpdate(pdfBytes, map[int][]byte{objNum: newContent}, encryptInfo)
 }
 
 // FillFieldValue fills a field with a value by replacing the object
 func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get current field object
-	fieldData, err := parse.GetObject(pdfBytes, field.ObjectNum, encryptInfo, false)
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to get field object: %w", err)
+		return nil, fmt.Errorf("failed to parse PDF: %w", err)
 	}
-
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+	filler := &fieldFiller{pdf: pdf, objects: make(map[int][]byte)}
+	if err := filler.fill(field, value); err != nil {
+		return nil, err
 	}
-
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+	return write.AppendUpdate(pdfBytes, filler.objects, pdf.Encryption())
 }
 
 // formatFieldValue formats a value for PDF based on field type
@@ -110,34 +54,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/stream_rebuild.go b/forms/acroform/stream_rebuild.go
index c07a6c8..4af7950 100644
--- a/forms/acroform/stream_rebuild.go
+++ b/forms/acroform/stream_rebuild.go
@@ -2,15 +2,9 @@
 package acroform
 
 import (
-	"bytes"
-	"compress/zlib"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
-	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -21,262 +15,15 @@ type StreamObjectUpdate struct {
 	NewContent []byte
 }
 
-// RebuildObjectStream rebuilds an object stream with updated objects
+// RebuildObjectStream returns the PDF with new content for objects that are in
+// an object stream. The update puts the objects beside the stream.
 func RebuildObjectStream(pdfBytes []byte, streamObjNum int, updates []StreamObjectUpdate, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Get the object stream
-	streamObjData, err := parse.GetObject(pdfBytes, streamObjNum, encryptInfo, false)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get object stream %d: %w", streamObjNum, err)
+	objects := make(map[int][]byte, len(updates))
+	for _, update := range updates {
+		objects[update.ObjNum] = update.NewContent
 	}
-
-	// Find the object stream in the PDF
-	pdfStr := string(pdfBytes)
-	streamPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum))
-	streamMatch := streamPattern.FindStringIndex(pdfStr)
-	if streamMatch == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
-	}
-
-	streamStart := streamMatch[0]
-
-	// Parse the object stream to extract all objects
-	streamDict, streamData, err := parseObjectStream(streamObjData, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse object stream: %w", err)
-	}
-
-	// Create update map
-	updateMap := make(map[int]*StreamObjectUpdate)
-	for i := range updates {
-		updateMap[updates[i].ObjNum] = &updates[i]
-	}
-
-	// Rebuild stream with updates
-	newStreamData, newHeader, err := rebuildStreamContent(streamDict, streamData, updateMap, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("failed to rebuild stream content: %w", err)
-	}
-
-	// Compress the new stream
-	var compressed bytes.Buffer
-	zw := zlib.NewWriter(&compressed)
-	zw.Write(newStreamData)
-	zw.Close()
-
-	// Update /First to point to new header length
-	newFirst := len(newHeader)
-	streamDict["/First"] = newFirst
-	streamDict["/Length"] = len(compressed.Bytes())
-
-	// Rebuild object stream dictionary
-	newDictStr := formatStreamDict(streamDict)
-
-	// Find stream boundaries in PDF
-	dictEnd := bytes.Index(pdfBytes[streamStart:], []byte("stream"))
-	if dictEnd == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-	dictEnd += streamStart
-
-	// Find endstream
-	endstreamPos := bytes.Index(pdfBytes[dictEnd:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
-	}
-	streamEnd := dictEnd + endstreamPos + 9
-
-	// Reconstruct PDF
-	before := pdfBytes[:streamStart]
-	after := pdfBytes[streamEnd:]
-
-	result := make([]byte, 0, len(before)+len(newDictStr)+len(compressed.Bytes())+len(after)+50)
-	result = append(result, before...)
-	result = append(result, []byte(fmt.Sprintf("%d 0 obj\n", streamObjNum))...)
-	result = append(result, []byte(newDictStr)...)
-	result = append(result, []byte("\nstream\n")...)
-	result = append(result, compressed.Bytes()...)
-	result = append(result, []byte("\nendstream\nendobj\n")...)
-	result = append(result, after...)
-
 	if verbose {
-		fmt.Printf("Rebuilt object stream %d: %d objects, %d bytes compressed\n", streamObjNum, streamDict["/N"], len(compressed.Bytes()))
-	}
-
-	return result, nil
-}
-
-// parseObjectStream parses an object stream to extract dictionary and decompressed data
-func parseObjectStream(streamObjData []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]interface{}, []byte, error) {
-	// Find dictionary
-	dictStart := bytes.Index(streamObjData, []byte("<<"))
-	if dictStart == -1 {
-		return nil, nil, fmt.Errorf("dictionary not found")
-	}
-
-	dictEnd := bytes.Index(streamObjData[dictStart:], []byte(">>"))
-	if dictEnd == -1 {
-		return nil, nil, fmt.Errorf("dictionary end not found")
-	}
-	dictEnd += dictStart + 2
-
-	dictStr := string(streamObjData[dictStart:dictEnd])
-	dict := parseStreamDict(dictStr)
-
-	// Find stream data
-	streamKeyword := bytes.Index(streamObjData[dictEnd:], []byte("stream"))
-	if streamKeyword == -1 {
-		return nil, nil, fmt.Errorf("stream keyword not found")
-	}
-
-	streamDataStart := dictEnd + streamKeyword + 6
-	// Skip EOL
-	if streamDataStart < len(streamObjData) && (streamObjData[streamDataStart] == '\r' || streamObjData[streamDataStart] == '\n') {
-		streamDataStart++
-	}
-	if streamDataStart < len(streamObjData) && streamObjData[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Get stream length
-	length, ok := dict["/Length"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/Length not found or invalid")
-	}
-
-	streamData := streamObjData[streamDataStart : streamDataStart+length]
-
-	// Decrypt if needed
-	if encryptInfo != nil {
-		decrypted, err := encrypt.DecryptObject(streamData, 0, 0, encryptInfo)
-		if err != nil {
-			return nil, nil, fmt.Errorf("failed to decrypt stream: %w", err)
-		}
-		streamData = decrypted
-	}
-
-	// Decompress
-	var decompressed bytes.Buffer
-	zr, err := zlib.NewReader(bytes.NewReader(streamData))
-	if err != nil {
-		return nil, nil, fmt.Errorf("failed to create zlib reader: %w", err)
+		fmt.Printf("Updating %d objects of object stream %d\n", len(objects), streamObjNum)
 	}
-	decompressed.ReadFrom(zr)
-	zr.Close()
-
-	return dict, decompressed.Bytes(), nil
-}
-
-// parseStreamDict parses a stream dictionary string
-func parseStreamDict(dictStr string) map[string]interface{} {
-	dict := make(map[string]interface{})
-
-	// Extract /N
-	if nMatch := regexp.MustCompile(`/N\s+(\d+)`).FindStringSubmatch(dictStr); nMatch != nil {
-		if n, err := strconv.Atoi(nMatch[1]); err == nil {
-			dict["/N"] = n
-		}
-	}
-
-	// Extract /First
-	if firstMatch := regexp.MustCompile(`/First\s+(\d+)`).FindStringSubmatch(dictStr); firstMatch != nil {
-		if first, err := strconv.Atoi(firstMatch[1]); err == nil {
-			dict["/First"] = first
-		}
-	}
-
-	// Extract /Length
-	if lenMatch := regexp.MustCompile(`/Length\s+(\d+)`).FindStringSubmatch(dictStr); lenMatch != nil {
-		if length, err := strconv.Atoi(lenMatch[1]); err == nil {
-			dict["/Length"] = length
-		}
-	}
-
-	return dict
-}
-
-// rebuildStreamContent rebuilds stream content with updated objects
-func rebuildStreamContent(streamDict map[string]interface{}, streamData []byte, updates map[int]*StreamObjectUpdate, verbose bool) ([]byte, []byte, error) {
-	n, ok := streamDict["/N"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/N not found in stream dict")
-	}
-
-	first, ok := streamDict["/First"].(int)
-	if !ok {
-		return nil, nil, fmt.Errorf("/First not found in stream dict")
-	}
-
-	// Parse header
-	headerData := streamData[:first]
-	headerStr := string(headerData)
-	fields := strings.Fields(headerStr)
-
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	entries := make([]objEntry, 0, n)
-
-	for i := 0; i < len(fields)-1 && len(entries) < n; i += 2 {
-		on, _ := strconv.Atoi(fields[i])
-		off, _ := strconv.Atoi(fields[i+1])
-		entries = append(entries, objEntry{objNum: on, offset: off})
-	}
-
-	// Extract all objects
-	objects := make(map[int][]byte)
-	for i, entry := range entries {
-		objStart := first + entry.offset
-		var objEnd int
-		if i < len(entries)-1 {
-			objEnd = first + entries[i+1].offset
-		} else {
-			objEnd = len(streamData)
-		}
-
-		objData := streamData[objStart:objEnd]
-		objData = bytes.TrimRight(objData, " \t\r\n")
-		objects[entry.objNum] = objData
-	}
-
-	// Apply updates
-	for objNum, update := range updates {
-		objects[objNum] = update.NewContent
-	}
-
-	// Rebuild stream
-	var newStream bytes.Buffer
-	var newHeader bytes.Buffer
-
-	offset := 0
-	for _, entry := range entries {
-		objData := objects[entry.objNum]
-		newHeader.WriteString(fmt.Sprintf("%d %d ", entry.objNum, offset))
-		newStream.Write(objData)
-		newStream.WriteByte('\n')
-		offset += len(objData) + 1
-	}
-
-	return newStream.Bytes(), newHeader.Bytes(), nil
-}
-
-// formatStreamDict formats a stream dictionary
-func formatStreamDict(dict map[string]interface{}) string {
-	var buf strings.Builder
-	buf.WriteString("<<")
-
-	if n, ok := dict["/N"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /N %d", n))
-	}
-
-	if first, ok := dict["/First"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /First %d", first))
-	}
-
-	if length, ok := dict["/Length"].(int); ok {
-		buf.WriteString(fmt.Sprintf(" /Length %d", length))
-	}
-
-	buf.WriteString(" >>")
-	return buf.String()
+	return write.AppendUpdate(pdfBytes, objects, encryptInfo)
 }
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..b7602a6 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -3,8 +3,11 @@ package acroform
 
 import (
 	"fmt"
+	"math"
 	"regexp"
+	"sort"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -27,18 +30,19 @@ func ValidateField(field *Field, value interface{}) error {
 	}
 
 	// Check required
-	if (field.Ff & 0x2) != 0 { // Required flag
-		if value == nil || value == "" {
+	if isEmpty(value) {
+		if field.Ff&flagRequired != 0 {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
 				Message:   "field is required",
 				Value:     value,
 			}
 		}
+		return nil // Nothing to check
 	}
 
 	// Check read-only
-	if (field.Ff & 0x1) != 0 { // ReadOnly flag
+	if field.Ff&flagReadOnly != 0 {
 		// Read-only fields can't be changed, but we'll allow it for now
 		// (some PDFs allow programmatic changes)
 	}
@@ -51,13 +55,41 @@ func ValidateField(field *Field, value interface{}) error {
 		return validateButtonField(field, value)
 	case "Ch": // Choice field
 		return validateChoiceField(field, value)
-	case "Sig": // Signature field
-		return validateSignatureField(field, value)
 	}
 
 	return nil
 }
 
+// isEmpty reports whether there is no value
+func isEmpty(value interface{}) bool {
+	switch v := value.(type) {
+	case nil:
+		return true
+	case string:
+		return v == ""
+	case []string:
+		return len(v) == 0
+	case []interface{}:
+		return len(v) == 0
+	}
+	return false
+}
+
+// valueItems returns the items of a value that may be a list
+func valueItems(value interface{}) []string {
+	var items []string
+	switch v := value.(type) {
+	case []string:
+		return v
+	case []interface{}:
+		for _, item := range v {
+			items = append(items, fmt.Sprint(item))
+		}
+		return items
+	}
+	return []string{fmt.Sprint(value)}
+}
+
 // validateTextField validates a text field
 func validateTextField(field *Field, value interface{}) error {
 	valueStr, ok := value.(string)
@@ -66,7 +98,7 @@ func validateTextField(field *Field, value interface{}) error {
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -86,34 +118,14 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
-
-	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
-		// Radio buttons should match one of the option values
-		if len(field.Opt) > 0 {
-			valueStr := fmt.Sprintf("%v", value)
-			found := false
-			for _, opt := range field.Opt {
-				if fmt.Sprintf("%v", opt) == valueStr {
-					found = true
-					break
-				}
-			}
-			if !found {
-				return &ValidationError{
-					FieldName: field.GetFullName(),
-					Message:   "value does not match any radio button option",
-					Value:     value,
-				}
+	// Radio buttons should match one of the option values, or be off
+	if field.Ff&flagPushbutton == 0 && field.Ff&flagRadio != 0 && len(field.Opt) > 0 {
+		valueStr := fmt.Sprint(value)
+		if valueStr != "Off" && value != false && !hasOption(field.Opt, valueStr) {
+			return &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "value does not match any radio button option",
+				Value:     value,
 			}
 		}
 	}
@@ -121,44 +133,37 @@ func validateButtonField(field *Field, value interface{}) error {
 	return nil
 }
 
+// hasOption reports whether the value is one of the options
+func hasOption(options []interface{}, value string) bool {
+	for _, option := range options {
+		if optionValue, label := optionText(option); value == optionValue || value == label {
+			return true
+		}
+	}
+	return false
+}
+
 // validateChoiceField validates a choice field (dropdown/list)
 func validateChoiceField(field *Field, value interface{}) error {
 	if len(field.Opt) == 0 {
 		return nil // No options to validate against
 	}
 
-	valueStr := fmt.Sprintf("%v", value)
-
-	// Check if value is in options
-	found := false
-	for _, opt := range field.Opt {
-		optStr := fmt.Sprintf("%v", opt)
-		if optStr == valueStr {
-			found = true
-			break
-		}
-	}
-
-	if !found {
+	items := valueItems(value)
+	if len(items) > 1 && field.Ff&flagMulti == 0 {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
-			Message:   "value is not in the list of valid options",
+			Message:   "field takes a single value",
 			Value:     value,
 		}
 	}
 
-	return nil
-}
-
-// validateSignatureField validates a signature field
-func validateSignatureField(field *Field, value interface{}) error {
-	// Signature fields typically contain signature dictionaries or certificate data
-	// For now, just check it's not empty if required
-	if value == nil || value == "" {
-		if (field.Ff & 0x2) != 0 { // Required
+	// Check if values are in options
+	for _, item := range items {
+		if !field.isEditable() && !hasOption(field.Opt, item) {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
-				Message:   "signature field is required",
+				Message:   "value is not in the list of valid options",
 				Value:     value,
 			}
 		}
@@ -167,47 +172,42 @@ func validateSignatureField(field *Field, value interface{}) error {
 	return nil
 }
 
+// sortedFieldNames returns the names in form data in a fixed order
+func sortedFieldNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // ValidateFormData validates all fields in form data against the AcroForm
 func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	var errors []error
 
-	for fieldName, value := range formData {
+	given := make(map[*Field]bool)
+	for _, fieldName := range sortedFieldNames(formData) {
 		field := acroForm.FindFieldByName(fieldName)
-		if field == nil {
+		if field == nil || len(field.Kids) > 0 {
 			errors = append(errors, fmt.Errorf("field '%s' not found in form", fieldName))
 			continue
 		}
+		given[field] = true
 
-		if err := ValidateField(field, value); err != nil {
+		if err := ValidateField(field, formData[fieldName]); err != nil {
 			errors = append(errors, err)
 		}
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
-		if (field.Ff & 0x2) != 0 { // Required flag
-			fieldName := field.GetFullName()
-			if _, found := formData[fieldName]; !found {
-				errors = append(errors, &ValidationError{
-					FieldName: fieldName,
-					Message:   "required field is missing",
-					Value:     nil,
-				})
-			}
-		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
+	for _, field := range acroForm.terminalFields() {
+		if field.Ff&flagRequired != 0 && !given[field] {
+			errors = append(errors, &ValidationError{
+				FieldName: field.GetFullName(),
+				Message:   "required field is missing",
+				Value:     nil,
+			})
 		}
 	}
 
@@ -216,6 +216,21 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 
 // ValidateFieldValue validates a field value using FormSchema validation rules
 func ValidateFieldValue(question *types.Question, value interface{}) error {
+	if isEmpty(value) {
+		if question.Required {
+			return &ValidationError{
+				FieldName: question.Name,
+				Message:   "field is required",
+				Value:     value,
+			}
+		}
+		if value == nil {
+			return nil // Nothing to check
+		}
+	} else if err := validateOptions(question, value); err != nil {
+		return err
+	}
+
 	if question.Validation == nil {
 		return nil
 	}
@@ -233,7 +248,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +257,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
@@ -270,22 +285,28 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check numeric ranges
-	if question.Type == types.ResponseTypeNumber {
+	if question.Type == types.ResponseTypeNumber && valueStr != "" &&
+		(question.Validation.MinValue != nil || question.Validation.MaxValue != nil) {
 		numValue, err := strconv.ParseFloat(valueStr, 64)
-		if err == nil {
-			if question.Validation.MinValue != nil && numValue < *question.Validation.MinValue {
-				return &ValidationError{
-					FieldName: question.Name,
-					Message:   fmt.Sprintf("value is below minimum of %.2f", *question.Validation.MinValue),
-					Value:     value,
-				}
+		if err != nil || math.IsNaN(numValue) {
+			return &ValidationError{
+				FieldName: question.Name,
+				Message:   "value is not a number",
+				Value:     value,
 			}
-			if question.Validation.MaxValue != nil && numValue > *question.Validation.MaxValue {
-				return &ValidationError{
-					FieldName: question.Name,
-					Message:   fmt.Sprintf("value is above maximum of %.2f", *question.Validation.MaxValue),
-					Value:     value,
-				}
+		}
+		if question.Validation.MinValue != nil && numValue < *question.Validation.MinValue {
+			return &ValidationError{
+				FieldName: question.Name,
+				Message:   fmt.Sprintf("value is below minimum of %.2f", *question.Validation.MinValue),
+				Value:     value,
+			}
+		}
+		if question.Validation.MaxValue != nil && numValue > *question.Validation.MaxValue {
+			return &ValidationError{
+				FieldName: question.Name,
+				Message:   fmt.Sprintf("value is above maximum of %.2f", *question.Validation.MaxValue),
+				Value:     value,
 			}
 		}
 	}
@@ -293,6 +314,39 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	return nil
 }
 
+// validateOptions checks that the values of a choice are among its options
+func validateOptions(question *types.Question, value interface{}) error {
+	switch question.Type {
+	case types.ResponseTypeSelect:
+		if question.Properties["editable"] == true {
+			return nil
+		}
+	case types.ResponseTypeRadio:
+		if value == "Off" || value == false {
+			return nil
+		}
+	default:
+		return nil
+	}
+	if len(question.Options) == 0 {
+		return nil // No options to validate against
+	}
+	for _, item := range valueItems(value) {
+		found := false
+		for _, option := range question.Options {
+			found = found || item == option.Value || item == option.Label
+		}
+		if !found {
+			return &ValidationError{
+				FieldName: question.Name,
+				Message:   "value is not in the list of valid options",
+				Value:     value,
+			}
+		}
+	}
+	return nil
+}
+
 // ValidateFormSchema validates form data against a FormSchema
 func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []error {
 	var errors []error
@@ -305,14 +359,14 @@ func ValidateFormSchema(schema *types.FormSchema, formData types.FormData) []err
 	}
 
 	// Validate provided values
-	for fieldName, value := range formData {
+	for _, fieldName := range sortedFieldNames(formData) {
 		question, found := questionsByName[fieldName]
 		if !found {
 			errors = append(errors, fmt.Errorf("field '%s' not found in schema", fieldName))
 			continue
 		}
 
-		if err := ValidateFieldValue(question, value); err != nil {
+		if err := ValidateFieldValue(question, formData[fieldName]); err != nil {
 			errors = append(errors, err)
 		}
 	}
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..4b7a11f 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -7,13 +7,14 @@ import (
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // FieldBuilder helps build AcroForm fields
 type FieldBuilder struct {
-	writer     *write.PDFWriter
-	fields     []*FieldDef
-	nextObjNum int
+	writer  *write.PDFWriter
+	fields  []*FieldDef
+	objNums []int // object numbers of the fields built
 }
 
 // FieldDef represents a field definition for creation
@@ -54,11 +55,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +71,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +93,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -118,9 +119,9 @@ func (fd *FieldDef) SetDefault(value interface{}) *FieldDef {
 func (fd *FieldDef) SetRequired(required bool) *FieldDef {
 	fd.Required = required
 	if required {
-		fd.Flags |= 0x2
+		fd.Flags |= flagRequired
 	} else {
-		fd.Flags &^= 0x2
+		fd.Flags &^= flagRequired
 	}
 	return fd
 }
@@ -129,9 +130,9 @@ func (fd *FieldDef) SetRequired(required bool) *FieldDef {
 func (fd *FieldDef) SetReadOnly(readonly bool) *FieldDef {
 	fd.ReadOnly = readonly
 	if readonly {
-		fd.Flags |= 0x1
+		fd.Flags |= flagReadOnly
 	} else {
-		fd.Flags &^= 0x1
+		fd.Flags &^= flagReadOnly
 	}
 	return fd
 }
@@ -149,9 +150,11 @@ func (fb *FieldBuilder) Build() (int, error) {
 	}
 
 	// Create field objects
+	fb.objNums = fb.objNums[:0]
 	fieldRefs := make([]string, 0, len(fb.fields))
 	for _, field := range fb.fields {
 		fieldObjNum := fb.createFieldObject(field)
+		fb.objNums = append(fb.objNums, fieldObjNum)
 		fieldRefs = append(fieldRefs, fmt.Sprintf("%d 0 R", fieldObjNum))
 	}
 
@@ -168,35 +171,49 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	var dict strings.Builder
 	dict.WriteString("<<")
 
+	// The field is its own widget annotation
+	dict.WriteString(" /Type /Annot /Subtype /Widget")
+
 	// Field type
-	dict.WriteString(fmt.Sprintf(" /FT /%s", field.Type))
+	dict.WriteString(" /FT " + pdfscan.EncodeName(field.Type))
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		fmt.Fprintf(&dict, " /T %s", pdfscan.EncodeText(field.Name))
 	}
 
 	// Rectangle
 	if len(field.Rect) >= 4 {
-		dict.WriteString(fmt.Sprintf(" /Rect [%.2f %.2f %.2f %.2f]",
-			field.Rect[0], field.Rect[1], field.Rect[2], field.Rect[3]))
+		dict.WriteString(" /Rect [")
+		for i, number := range field.Rect[:4] {
+			if i > 0 {
+				dict.WriteString(" ")
+			}
+			dict.WriteString(strconv.FormatFloat(number, 'f', -1, 64))
+		}
+		dict.WriteString("]")
 	}
 
 	// Flags
-	if field.Flags != 0 {
-		dict.WriteString(fmt.Sprintf(" /Ff %d", field.Flags))
+	flags := field.Flags
+	if field.Required {
+		flags |= flagRequired
+	}
+	if field.ReadOnly {
+		flags |= flagReadOnly
+	}
+	if flags != 0 {
+		dict.WriteString(fmt.Sprintf(" /Ff %d", flags))
 	}
 
 	// Value
 	if field.Value != nil {
-		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		fmt.Fprintf(&dict, " /V %s", fieldValue(field.Value, field.Type))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
-		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		fmt.Fprintf(&dict, " /DV %s", fieldValue(field.DefaultValue, field.Type))
 	}
 
 	// Maximum length
@@ -206,79 +223,14 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Options (for choice fields)
 	if len(field.Options) > 0 {
-		dict.WriteString(" /Opt [")
-		for i, opt := range field.Options {
-			if i > 0 {
-				dict.WriteString(" ")
-			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
-		}
-		dict.WriteString("]")
+		fmt.Fprintf(&dict, " /Opt %s", fieldValue(field.Options, "Ch"))
 	}
 
-	// Page reference (would need to be set properly in real implementation)
-	// For now, we'll add it as a property
-
 	dict.WriteString(" >>")
 
 	return fb.writer.AddObject([]byte(dict.String()))
 }
 
-// formatFieldValueForWriter formats a value for PDF writing
-func formatFieldValueForWriter(value interface{}, fieldType string) string {
-	switch v := value.(type) {
-	case string:
-		return v
-	case int:
-		return strconv.Itoa(v)
-	case float64:
-		return strconv.FormatFloat(v, 'f', -1, 64)
-	case bool:
-		if fieldType == "Btn" {
-			if v {
-				return "Yes"
-			}
-			return "Off"
-		}
-		return strconv.FormatBool(v)
-	default:
-		return fmt.Sprintf("%v", v)
-	}
-}
-
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
@@ -288,16 +240,12 @@ func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error
 	}
 
 	// Add AcroForm reference
-	catalogStr := string(catalogData)
-	if !strings.Contains(catalogStr, "/AcroForm") {
-		// Find the closing >>
-		dictEnd := strings.LastIndex(catalogStr, ">>")
-		if dictEnd == -1 {
+	if pdfscan.DictValue(catalogData, "AcroForm") == nil {
+		catalog := pdfscan.SetDictEntry(catalogData, "AcroForm", []byte(fmt.Sprintf("%d 0 R", acroFormNum)))
+		if len(catalog) == len(catalogData) {
 			return fmt.Errorf("invalid catalog dictionary")
 		}
-		newEntry := fmt.Sprintf(" /AcroForm %d 0 R", acroFormNum)
-		catalogStr = catalogStr[:dictEnd] + newEntry + catalogStr[dictEnd:]
-		w.SetObject(catalogNum, []byte(catalogStr))
+		w.SetObject(catalogNum, catalog)
 	}
 
 	return nil
-- 
2.43.0


From 37034e371e8be6c4e34ee84c52c2f27585e1d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 16/41] fix: read and replace XFA packets by the document's
 object structure

Packets were looked up by patterns in the file's text, decompressed by
guesswork and replaced without care for offsets, encryption or the document's
other objects. Values and field names were put into the XML unescaped.
---
 core/write/xfa_builder.go | 450 +++-------------------
 forms/forms.go            |  44 ++-
 forms/xfa/xfa.go          | 591 +++++++++--------------------
 forms/xfa/xfa_utils.go    | 761 +-------------------------------------
 4 files changed, 286 insertions(+), 1560 deletions(-)

diff --git a/core/write/xfa_builder.go b/core/write/xfa_builder.go
index c61467d..4676748 100644
--- a/core/write/xfa_builder.go
+++ b/core/write/xfa_builder.go
@@ -2,14 +2,11 @@ package write
 
 import (
 	"bytes"
-	"compress/zlib"
 	"fmt"
 	"log"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -45,7 +42,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	}
 
 	// Create XFA stream objects
-	var xfaArrayParts []string
+	var xfaArray bytes.Buffer
 
 	for _, stream := range streams {
 		objNum := b.writer.AddStreamObject(
@@ -56,7 +53,7 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 		b.xfaStreams[stream.Name] = objNum
 
 		// Add to XFA array: (name) objNum 0 R
-		xfaArrayParts = append(xfaArrayParts, fmt.Sprintf("(%s)%d 0 R", stream.Name, objNum))
+		fmt.Fprintf(&xfaArray, "%s %d 0 R ", pdfscan.EncodeText(stream.Name), objNum)
 
 		if b.verbose {
 			log.Printf("Added XFA stream '%s': object %d, %d bytes", stream.Name, objNum, len(stream.Data))
@@ -64,12 +61,17 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	}
 
 	// Create AcroForm dictionary with XFA array
-	acroFormContent := fmt.Sprintf("<</Fields[]/XFA[%s]>>",
-		joinStrings(xfaArrayParts, ""))
+	acroFormContent := fmt.Sprintf("<</Fields[]/XFA[%s]>>", bytes.TrimSpace(xfaArray.Bytes()))
 	b.acroFormNum = b.writer.AddObject([]byte(acroFormContent))
 
+	// A document needs a page, even if viewers lay out the form themselves
+	pagesNum := b.writer.AddObject(nil)
+	pageNum := b.writer.AddObject([]byte(fmt.Sprintf(
+		"<</Type/Page/Parent %d 0 R/MediaBox[0 0 612 792]/Resources<<>>>>", pagesNum)))
+	b.writer.SetObject(pagesNum, []byte(fmt.Sprintf("<</Type/Pages/Kids[%d 0 R]/Count 1>>", pageNum)))
+
 	// Create catalog (root) with AcroForm reference
-	catalogContent := fmt.Sprintf("<</Type/Catalog/AcroForm %d 0 R>>", b.acroFormNum)
+	catalogContent := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>", pagesNum, b.acroFormNum)
 	b.catalogNum = b.writer.AddObject([]byte(catalogContent))
 
 	// Set root
@@ -82,407 +84,77 @@ func (b *XFABuilder) BuildFromXFA(streams []XFAStreamData) ([]byte, error) {
 	return b.writer.Bytes()
 }
 
-// BuildFromOriginal rebuilds a PDF preserving structure but updating XFA streams
+// BuildFromOriginal updates XFA streams of a PDF and keeps all its other objects
 func (b *XFABuilder) BuildFromOriginal(originalPDF []byte, updatedStreams map[string][]byte, encryptInfo *types.PDFEncryption) ([]byte, error) {
 	if b.verbose {
 		log.Printf("Rebuilding PDF with %d updated streams", len(updatedStreams))
 	}
 
-	// Parse the original PDF structure
-	objects, err := parseAllObjects(originalPDF, encryptInfo, b.verbose)
+	pdf, err := parse.OpenWithOptions(originalPDF, parse.ParseOptions{Encryption: encryptInfo})
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse original PDF: %v", err)
-	}
-
-	if b.verbose {
-		log.Printf("Parsed %d objects from original PDF", len(objects))
-	}
-
-	// Find trailer info
-	rootObjNum, infoObjNum, encryptObjNum, fileID := parseTrailerInfo(originalPDF)
-
-	if b.verbose {
-		log.Printf("Trailer: Root=%d, Info=%d, Encrypt=%d", rootObjNum, infoObjNum, encryptObjNum)
+		return nil, fmt.Errorf("failed to parse original PDF: %w", err)
 	}
-
-	// Find XFA stream references in AcroForm
-	xfaStreamMap, err := findXFAStreamMap(originalPDF, encryptInfo, b.verbose)
+	packets, err := XFAPackets(pdf)
 	if err != nil {
-		if b.verbose {
-			log.Printf("Warning: could not find XFA stream map: %v", err)
-		}
+		return nil, err
 	}
 
-	// Update stream objects with new data
-	for streamName, newData := range updatedStreams {
-		if objNum, ok := xfaStreamMap[streamName]; ok {
-			if obj, objOk := objects[objNum]; objOk {
-				// Compress the new data
-				var compressed bytes.Buffer
-				zw := zlib.NewWriter(&compressed)
-				zw.Write(newData)
-				zw.Close()
-
-				// Update the object's stream
-				obj.Stream = compressed.Bytes()
-				if obj.Dict == nil {
-					obj.Dict = make(Dictionary)
-				}
-				obj.Dict["Filter"] = "/FlateDecode"
-				obj.Dict["Length"] = len(obj.Stream)
-
-				if b.verbose {
-					log.Printf("Updated stream '%s' (object %d): %d bytes compressed", streamName, objNum, len(obj.Stream))
-				}
-			}
-		}
-	}
-
-	// Add all objects to writer
-	for objNum, obj := range objects {
-		if obj.Stream != nil {
-			b.writer.SetStreamObject(objNum, obj.Dict, obj.Stream, false) // Already compressed
-		} else if obj.Content != nil {
-			b.writer.SetObject(objNum, obj.Content)
-		}
-	}
-
-	// Set trailer references
-	if rootObjNum > 0 {
-		b.writer.SetRoot(rootObjNum)
-	}
-	if infoObjNum > 0 {
-		b.writer.SetInfo(infoObjNum)
-	}
-	if encryptObjNum > 0 && encryptInfo != nil {
-		b.writer.SetEncryptRef(encryptObjNum)
-		b.writer.SetEncryption(encryptInfo, fileID)
-	}
-
-	return b.writer.Bytes()
-}
-
-// parseAllObjects parses all objects from a PDF including those in object streams
-func parseAllObjects(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[int]*PDFObject, error) {
-	objects := make(map[int]*PDFObject)
-
-	// First, parse direct objects (those with "N G obj" pattern)
-	objPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
-	matches := objPattern.FindAllSubmatchIndex(pdfBytes, -1)
-
-	for _, match := range matches {
-		objNumStr := string(pdfBytes[match[2]:match[3]])
-		genNumStr := string(pdfBytes[match[4]:match[5]])
-
-		objNum, _ := strconv.Atoi(objNumStr)
-		genNum, _ := strconv.Atoi(genNumStr)
-
-		// Find endobj
-		objStart := match[1] // After "obj"
-		endObjPos := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if endObjPos == -1 {
+	objects := make(map[int][]byte)
+	for _, packet := range packets {
+		newData, ok := updatedStreams[packet.Name]
+		if !ok {
 			continue
 		}
-
-		objContent := pdfBytes[objStart : objStart+endObjPos]
-
-		// Check for stream
-		streamPos := bytes.Index(objContent, []byte("stream"))
-		var streamData []byte
-		var dict Dictionary
-
-		if streamPos != -1 {
-			// Parse dictionary
-			dictContent := objContent[:streamPos]
-			dict = parseDictionary(dictContent)
-
-			// Find stream data
-			streamStart := streamPos + 6
-			// Skip EOL
-			for streamStart < len(objContent) && (objContent[streamStart] == '\r' || objContent[streamStart] == '\n') {
-				streamStart++
-			}
-
-			// Find endstream
-			endstreamPos := bytes.Index(objContent[streamStart:], []byte("endstream"))
-			if endstreamPos == -1 {
-				endstreamPos = len(objContent) - streamStart
-			}
-
-			// Use Length from dictionary if available
-			if length, ok := dict["Length"].(int); ok && streamStart+length <= len(objContent) {
-				streamData = objContent[streamStart : streamStart+length]
-			} else {
-				streamData = objContent[streamStart : streamStart+endstreamPos]
-			}
-		}
-
-		// Trim whitespace from content
-		content := bytes.TrimSpace(objContent)
-		if streamPos != -1 {
-			content = bytes.TrimSpace(objContent[:streamPos])
-		}
-
-		objects[objNum] = &PDFObject{
-			Number:     objNum,
-			Generation: genNum,
-			Content:    content,
-			Stream:     streamData,
-			Dict:       dict,
-		}
-	}
-
-	// Now extract objects from object streams using the parser
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef > 0 {
-		xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, startXRef, false)
-		if err == nil {
-			// Process objects stored in object streams
-			for objNum, entry := range xrefResult.ObjectStreams {
-				if _, exists := objects[objNum]; exists {
-					continue // Already have this object as a direct object
-				}
-
-				// Extract object from the object stream
-				objData, err := parse.GetObjectFromStream(pdfBytes, objNum, entry.StreamObjNum, entry.IndexInStream, encryptInfo, false)
-				if err != nil {
-					if verbose {
-						log.Printf("Warning: failed to extract object %d from stream %d: %v", objNum, entry.StreamObjNum, err)
-					}
-					continue
-				}
-
-				// Parse the extracted object content
-				objects[objNum] = &PDFObject{
-					Number:     objNum,
-					Generation: 0,
-					Content:    bytes.TrimSpace(objData),
-				}
-
-				if verbose {
-					log.Printf("Extracted object %d from object stream %d", objNum, entry.StreamObjNum)
-				}
-			}
-		} else if verbose {
-			log.Printf("Warning: could not parse xref stream: %v", err)
-		}
-	}
-
-	return objects, nil
-}
-
-// findStartXRef finds the startxref position in a PDF
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end of file
-	searchLen := min(1024, len(pdfBytes))
-	tailStart := len(pdfBytes) - searchLen
-	tail := string(pdfBytes[tailStart:])
-
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindStringSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(match[1], 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
-
-// parseDictionary parses a PDF dictionary into our Dictionary type
-func parseDictionary(data []byte) Dictionary {
-	dict := make(Dictionary)
-
-	// Simple parsing - extract key-value pairs
-	s := string(data)
-
-	// Remove << and >>
-	s = strings.TrimPrefix(strings.TrimSpace(s), "<<")
-	s = strings.TrimSuffix(strings.TrimSpace(s), ">>")
-
-	// Find /Key Value pairs
-	keyPattern := regexp.MustCompile(`/(\w+)\s*`)
-	matches := keyPattern.FindAllStringSubmatchIndex(s, -1)
-
-	for i, match := range matches {
-		key := s[match[2]:match[3]]
-
-		// Value is from end of key to start of next key (or end)
-		valueStart := match[1]
-		var valueEnd int
-		if i+1 < len(matches) {
-			valueEnd = matches[i+1][0]
-		} else {
-			valueEnd = len(s)
+		dict, data, err := pdf.StreamData(packet.ObjectNumber)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read XFA stream '%s': %w", packet.Name, err)
 		}
-
-		value := strings.TrimSpace(s[valueStart:valueEnd])
-
-		// Parse value type
-		if num, err := strconv.Atoi(value); err == nil {
-			dict[key] = num
-		} else {
-			dict[key] = value
+		if bytes.Equal(data, newData) {
+			continue
 		}
-	}
-
-	return dict
-}
-
-// parseTrailerInfo extracts trailer references
-func parseTrailerInfo(pdfBytes []byte) (rootNum, infoNum, encryptNum int, fileID []byte) {
-	pdfStr := string(pdfBytes)
-
-	// Find Root
-	rootPattern := regexp.MustCompile(`/Root\s+(\d+)\s+\d+\s+R`)
-	if match := rootPattern.FindStringSubmatch(pdfStr); match != nil {
-		rootNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Info
-	infoPattern := regexp.MustCompile(`/Info\s+(\d+)\s+\d+\s+R`)
-	if match := infoPattern.FindStringSubmatch(pdfStr); match != nil {
-		infoNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find Encrypt
-	encryptPattern := regexp.MustCompile(`/Encrypt\s+(\d+)\s+\d+\s+R`)
-	if match := encryptPattern.FindStringSubmatch(pdfStr); match != nil {
-		encryptNum, _ = strconv.Atoi(match[1])
-	}
-
-	// Find ID
-	idPattern := regexp.MustCompile(`/ID\s*\[\s*<([0-9A-Fa-f]+)>`)
-	if match := idPattern.FindStringSubmatch(pdfStr); match != nil {
-		fileID, _ = hexDecode(match[1])
-	}
-
-	return
-}
-
-// findXFAStreamMap finds the mapping of XFA stream names to object numbers
-func findXFAStreamMap(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// First find AcroForm reference
-	pdfStr := string(pdfBytes)
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+\d+\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
-
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		return findXFAStreamMapInline(pdfBytes)
-	}
-
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
-	if err != nil {
-		return result, fmt.Errorf("invalid AcroForm object number")
-	}
-
-	// Get the AcroForm object using proper parser (handles object streams)
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, false)
-	if err != nil {
-		return result, fmt.Errorf("failed to get AcroForm object: %v", err)
-	}
-
-	// Find XFA array in AcroForm content
-	return parseXFAArrayFromContent(acroFormData, verbose)
-}
-
-// findXFAStreamMapInline finds XFA array when AcroForm is inline
-func findXFAStreamMapInline(pdfBytes []byte) (map[string]int, error) {
-	result := make(map[string]int)
-	pdfStr := string(pdfBytes)
-
-	xfaPattern := regexp.MustCompile(`/XFA\s*\[([^\]]+)\]`)
-	match := xfaPattern.FindStringSubmatch(pdfStr)
-	if match == nil {
-		return result, fmt.Errorf("XFA array not found")
-	}
-
-	return parseXFAArrayContent(match[1])
-}
-
-// parseXFAArrayFromContent parses XFA array from object content
-func parseXFAArrayFromContent(content []byte, verbose bool) (map[string]int, error) {
-	result := make(map[string]int)
-
-	// Find XFA array
-	xfaIdx := bytes.Index(content, []byte("/XFA"))
-	if xfaIdx == -1 {
-		return result, fmt.Errorf("XFA not found in AcroForm")
-	}
-
-	// Find array start
-	arrayStart := bytes.Index(content[xfaIdx:], []byte("["))
-	if arrayStart == -1 {
-		return result, fmt.Errorf("XFA array start not found")
-	}
-	arrayStart += xfaIdx
-
-	// Find array end
-	depth := 0
-	arrayEnd := arrayStart
-	for i := arrayStart; i < len(content); i++ {
-		if content[i] == '[' {
-			depth++
-		} else if content[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEnd = i + 1
-				break
-			}
+		objects[packet.ObjectNumber] = StreamObject(dict, newData, true)
+		if b.verbose {
+			log.Printf("Updated stream '%s' (object %d): %d bytes", packet.Name, packet.ObjectNumber, len(newData))
 		}
 	}
-
-	arrayContent := string(content[arrayStart+1 : arrayEnd-1])
-	if verbose {
-		log.Printf("Found XFA array content: %s", arrayContent)
-	}
-
-	return parseXFAArrayContent(arrayContent)
+	return AppendUpdate(originalPDF, objects, encryptInfo)
 }
 
-// parseXFAArrayContent parses XFA array content string
-func parseXFAArrayContent(arrayContent string) (map[string]int, error) {
-	result := make(map[string]int)
-
-	refPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+\d+\s+R`)
-	refs := refPattern.FindAllStringSubmatch(arrayContent, -1)
-
-	for _, ref := range refs {
-		name := ref[1]
-		objNum, _ := strconv.Atoi(ref[2])
-		result[name] = objNum
-	}
-
-	return result, nil
+// XFAPacket is an entry of a document's XFA array.
+type XFAPacket struct {
+	Name         string
+	ObjectNumber int // stream object with the contents of the packet
 }
 
-// hexDecode decodes a hex string to bytes
-func hexDecode(s string) ([]byte, error) {
-	if len(s)%2 != 0 {
-		s = "0" + s
-	}
-	result := make([]byte, len(s)/2)
-	for i := 0; i < len(s); i += 2 {
-		b, err := strconv.ParseUint(s[i:i+2], 16, 8)
-		if err != nil {
-			return nil, err
+// XFAPackets returns the entries of a document's XFA array, in order.
+func XFAPackets(pdf *parse.PDF) ([]XFAPacket, error) {
+	trailer := pdf.Trailer()
+	if trailer == nil {
+		return nil, fmt.Errorf("no trailer found")
+	}
+	catalog := pdfscan.Resolve([]byte(trailer.RootRef), pdf.GetObject)
+	acroForm := pdfscan.LookupDict(catalog, "AcroForm", pdf.GetObject)
+	if acroForm == nil {
+		return nil, fmt.Errorf("AcroForm not found")
+	}
+	xfa := pdfscan.Lookup(acroForm, "XFA", pdf.GetObject)
+	if xfa == nil {
+		return nil, fmt.Errorf("XFA entry not found")
+	}
+
+	// The entries are pairs of name and stream
+	items := pdfscan.ArrayItems(xfa)
+	var packets []XFAPacket
+	for i := 0; i+1 < len(items); i += 2 {
+		name := pdfscan.Resolve(items[i], pdf.GetObject)
+		num, _, ok := pdfscan.Reference(items[i+1], 0)
+		if !ok || !pdfscan.IsString(name) {
+			continue
 		}
-		result[i/2] = byte(b)
+		packets = append(packets, XFAPacket{Name: pdfscan.DecodeText(name), ObjectNumber: num})
 	}
-	return result, nil
-}
-
-// joinStrings joins strings without separator
-func joinStrings(parts []string, sep string) string {
-	var buf bytes.Buffer
-	for i, p := range parts {
-		if i > 0 {
-			buf.WriteString(sep)
-		}
-		buf.WriteString(p)
+	if len(packets) == 0 {
+		return nil, fmt.Errorf("no stream references found in XFA array")
 	}
-	return buf.String()
+	return packets, nil
 }
diff --git a/forms/forms.go b/forms/forms.go
index bd30a45..85795d0 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -3,6 +3,7 @@
 package forms
 
 import (
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/acroform"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
@@ -79,18 +80,14 @@ func (w *XFAFormWrapper) Schema() *types.FormSchema {
 }
 
 func (w *XFAFormWrapper) Fill(pdfBytes []byte, data types.FormData, password []byte, verbose bool) ([]byte, error) {
-	// Get encryption info if needed
-	var encryptInfo *types.PDFEncryption
-	if len(password) > 0 || len(w.password) > 0 {
-		pwd := password
-		if len(pwd) == 0 {
-			pwd = w.password
-		}
-		// Parse encryption if PDF is encrypted
-		// For now, use the XFA update function
-		return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
+	if len(password) == 0 {
+		password = w.password
+	}
+	encryptInfo, err := encryption(pdfBytes, password)
+	if err != nil {
+		return nil, err
 	}
-	return xfa.UpdateXFAInPDF(pdfBytes, data, nil, verbose)
+	return xfa.UpdateXFAInPDF(pdfBytes, data, encryptInfo, verbose)
 }
 
 func (w *XFAFormWrapper) Validate(data types.FormData) []error {
@@ -106,6 +103,25 @@ func (w *XFAFormWrapper) GetValues() map[string]interface{} {
 	return make(map[string]interface{})
 }
 
+// encryption returns how to decrypt the PDF with the password, nil if it is
+// not encrypted
+func encryption(pdfBytes []byte, password []byte) (*types.PDFEncryption, error) {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil {
+		return nil, err
+	}
+	return pdf.Encryption(), nil
+}
+
+// extractXFAStreams extracts the XFA streams of a PDF
+func extractXFAStreams(pdfBytes []byte, password []byte, verbose bool) (*xfa.XFAStreams, error) {
+	encryptInfo, err := encryption(pdfBytes, password)
+	if err != nil {
+		return nil, err
+	}
+	return xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
+}
+
 // Detect detects the form type in a PDF
 func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	// Try AcroForm first
@@ -115,7 +131,7 @@ func Detect(pdfBytes []byte, password []byte, verbose bool) (FormType, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		return FormTypeXFA, nil
 	}
@@ -137,7 +153,7 @@ func Extract(pdfBytes []byte, password []byte, verbose bool) (Form, error) {
 	}
 
 	// Try XFA
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err == nil && streams.Template != nil && len(streams.Template.Data) > 0 {
 		// Parse XFA form
 		formSchema, err := xfa.ParseXFAForm(string(streams.Template.Data), verbose)
@@ -169,7 +185,7 @@ func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*acroform.
 // ExtractXFA extracts XFA form data (type-specific)
 // Returns the FormSchema and Datasets separately
 func ExtractXFA(pdfBytes []byte, password []byte, verbose bool) (*types.FormSchema, *types.XFADatasets, error) {
-	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, nil, verbose)
+	streams, err := extractXFAStreams(pdfBytes, password, verbose)
 	if err != nil {
 		return nil, nil, err
 	}
diff --git a/forms/xfa/xfa.go b/forms/xfa/xfa.go
index dc62dfc..a37c633 100644
--- a/forms/xfa/xfa.go
+++ b/forms/xfa/xfa.go
@@ -1,99 +1,18 @@
 package xfa
 
 import (
-	"bytes"
-	"compress/flate"
-	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
 	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
-// extractStreamDataFromObject extracts stream data from raw object bytes
-// The object should already be decrypted
-func extractStreamDataFromObject(objData []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find stream keyword
-	streamIdx := bytes.Index(objData, []byte("stream"))
-	if streamIdx == -1 {
-		// Not a stream object - might be a simple value
-		// Look for dictionary or value content
-		dictStart := bytes.Index(objData, []byte("<<"))
-		if dictStart != -1 {
-			return objData[dictStart:], nil
-		}
-		return objData, nil
-	}
-
-	// Find endstream
-	endstreamIdx := bytes.Index(objData[streamIdx:], []byte("endstream"))
-	if endstreamIdx == -1 {
-		return nil, fmt.Errorf("endstream not found in object %d", objNum)
-	}
-	endstreamIdx += streamIdx
-
-	// Get /Length from dictionary if available
-	dictEnd := streamIdx
-	dictStr := string(objData[:dictEnd])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictStr)
-
-	// Skip "stream" and EOL
-	dataStart := streamIdx + 6
-	if dataStart < len(objData) && objData[dataStart] == '\r' {
-		dataStart++
-	}
-	if dataStart < len(objData) && objData[dataStart] == '\n' {
-		dataStart++
-	}
-
-	var streamData []byte
-	if lengthMatch != nil {
-		length, _ := strconv.Atoi(lengthMatch[1])
-		if dataStart+length <= len(objData) {
-			streamData = objData[dataStart : dataStart+length]
-		} else {
-			streamData = objData[dataStart:endstreamIdx]
-		}
-	} else {
-		streamData = objData[dataStart:endstreamIdx]
-	}
-
-	// Check if FlateDecode filter is present
-	if bytes.Contains(objData[:streamIdx], []byte("/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter/FlateDecode")) ||
-		bytes.Contains(objData[:streamIdx], []byte("/Filter /FlateDecode")) {
-		// Decompress
-		zlibReader, err := zlib.NewReader(bytes.NewReader(streamData))
-		if err == nil {
-			decompressed, err := io.ReadAll(zlibReader)
-			zlibReader.Close()
-			if err == nil {
-				return decompressed, nil
-			}
-		}
-		// Try raw deflate
-		flateReader := flate.NewReader(bytes.NewReader(streamData))
-		decompressed, err := io.ReadAll(flateReader)
-		flateReader.Close()
-		if err == nil {
-			return decompressed, nil
-		}
-		// Return raw data if decompression fails
-		if verbose {
-			log.Printf("Decompression failed for object %d, returning raw stream data", objNum)
-		}
-	}
-
-	return streamData, nil
-}
-
 // XFAStreamInfo contains stream data and metadata
 type XFAStreamInfo struct {
 	Data         []byte `json:"data"`
@@ -114,191 +33,70 @@ type XFAStreams struct {
 	SourceSet     *XFAStreamInfo `json:"sourceSet,omitempty"`
 }
 
+// packet is a kind of XFA stream by its name in the XFA array
+type packet struct {
+	name   string
+	stream **XFAStreamInfo
+}
+
+// packets returns the known kinds of XFA streams
+func (s *XFAStreams) packets() []packet {
+	return []packet{
+		{"template", &s.Template},
+		{"datasets", &s.Datasets},
+		{"config", &s.Config},
+		{"localeSet", &s.LocaleSet},
+		{"connectionSet", &s.ConnectionSet},
+		{"stylesheet", &s.Stylesheet},
+		{"xmp", &s.XMP},
+		{"signature", &s.Signature},
+		{"sourceSet", &s.SourceSet},
+	}
+}
+
 // ExtractAllXFAStreams extracts all XFA streams from a PDF without using UniPDF
 func ExtractAllXFAStreams(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*XFAStreams, error) {
 	if verbose {
 		log.Printf("Extracting all XFA streams from PDF (no UniPDF)")
 	}
 
-	streams := &XFAStreams{}
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatchIndex(pdfStr)
-
-	var acroFormObjNum int
-	var err error
-
-	if acroFormMatch != nil {
-		// AcroForm is an indirect reference
-		acroFormObjNum, err = strconv.Atoi(pdfStr[acroFormMatch[2]:acroFormMatch[3]])
-		if err != nil {
-			return nil, fmt.Errorf("invalid AcroForm object number: %v", err)
-		}
-
-		if verbose {
-			log.Printf("Found AcroForm indirect reference: object %d", acroFormObjNum)
-		}
-	} else {
-		// Try inline AcroForm dictionary
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		acroFormInlineMatch := acroFormInlinePattern.FindStringIndex(pdfStr)
-		if acroFormInlineMatch == nil {
-			return nil, fmt.Errorf("AcroForm not found (neither inline nor indirect reference)")
-		}
-		// For inline, we'll search from that position
-		acroFormObjNum = 0
-	}
-
-	// Find and decrypt AcroForm object to get XFA array using PyPDF approach
-	var xfaArrayContent string
-	if acroFormObjNum > 0 {
-		// Use new GetObject function that handles both direct objects and object streams
-		// This is the equivalent of PyPDF's get_object() method
-		decryptedContent, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("GetObject failed for AcroForm %d: %v, trying fallback", acroFormObjNum, err)
-			}
-			// Fallback to old method
-			decryptedContent, err = findAndDecryptAcroForm(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		xfaArrayContent, err = findXFAArrayContent(decryptedContent, verbose)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// Inline AcroForm - find XFA directly
-		xfaPattern := regexp.MustCompile(`/XFA\s*\[`)
-		xfaMatch := xfaPattern.FindStringIndex(pdfStr)
-		if xfaMatch == nil {
-			return nil, fmt.Errorf("XFA entry not found")
-		}
-
-		arrayStart := xfaMatch[1] - 1
-		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(pdfStr) && i < arrayStart+10000; i++ {
-			if pdfStr[i] == '[' {
-				depth++
-			} else if pdfStr[i] == ']' {
-				depth--
-				if depth == 0 {
-					arrayEnd = i
-					break
-				}
-			}
-		}
-
-		if arrayEnd == arrayStart {
-			return nil, fmt.Errorf("could not find end of XFA array")
-		}
-
-		xfaArrayContent = pdfStr[arrayStart+1 : arrayEnd]
-	}
-
-	if verbose {
-		log.Printf("Found XFA array content: %s", xfaArrayContent[:min(200, len(xfaArrayContent))])
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Encryption: encryptInfo})
+	if err != nil {
+		return nil, err
 	}
-
-	// Parse XFA array: format is (name) N M R (name) N M R ...
-	// Pattern: (name) followed by object number, generation, and R
-	// Note: whitespace between ) and object number is optional
-	streamPattern := regexp.MustCompile(`\(([^)]+)\)\s*(\d+)\s+(\d+)\s+R`)
-	matches := streamPattern.FindAllStringSubmatch(xfaArrayContent, -1)
-
-	if len(matches) == 0 {
-		return nil, fmt.Errorf("no stream references found in XFA array")
+	entries, err := write.XFAPackets(pdf)
+	if err != nil {
+		return nil, err
 	}
 
-	if verbose {
-		log.Printf("Found %d stream references in XFA array", len(matches))
+	streams := &XFAStreams{}
+	known := make(map[string]**XFAStreamInfo)
+	for _, p := range streams.packets() {
+		known[p.name] = p.stream
 	}
-
-	// Extract each stream
-	for _, match := range matches {
-		streamName := match[1]
-		objNum, err := strconv.Atoi(match[2])
-		if err != nil {
+	for _, entry := range entries {
+		stream, ok := known[entry.Name]
+		if !ok {
 			if verbose {
-				log.Printf("Invalid stream object number for %s: %s", streamName, match[2])
+				log.Printf("Unknown XFA stream type: %s", entry.Name)
 			}
 			continue
 		}
-
-		// Use GetObject which properly handles both direct objects and objects in streams
-		objData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
+		dict, data, err := pdf.StreamData(entry.ObjectNumber)
 		if err != nil {
 			if verbose {
-				log.Printf("Failed to get object %d for stream %s: %v, trying fallback", objNum, streamName, err)
-			}
-			// Fallback to old method
-			objData, _, err = extractStreamFromPDF(pdfBytes, objNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Fallback also failed for %s (object %d): %v", streamName, objNum, err)
-				}
-				continue
-			}
-		}
-
-		// Extract stream data from the object
-		streamData, err := extractStreamDataFromObject(objData, objNum, encryptInfo, verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to extract stream data from object %d: %v", objNum, err)
+				log.Printf("Failed to read stream %s (object %d): %v", entry.Name, entry.ObjectNumber, err)
 			}
 			continue
 		}
-
-		// Decompress if needed
-		decompressed, wasCompressed, err := DecompressStream(streamData)
-		if err != nil {
-			if verbose {
-				log.Printf("Failed to decompress stream %s: %v", streamName, err)
-			}
-			decompressed = streamData // Use as-is if decompression fails
-		}
-
-		streamInfo := &XFAStreamInfo{
-			Data:         decompressed,
-			ObjectNumber: objNum,
-			Compressed:   wasCompressed,
+		filter := pdfscan.Lookup(dict, "Filter", pdf.GetObject)
+		*stream = &XFAStreamInfo{
+			Data:         data,
+			ObjectNumber: entry.ObjectNumber,
+			Compressed:   strings.HasPrefix(string(filter), "/") || len(pdfscan.ArrayItems(filter)) > 0,
 		}
-
 		if verbose {
-			log.Printf("Extracted %s stream: %d bytes (object %d, compressed: %v)", streamName, len(decompressed), objNum, wasCompressed)
-		}
-
-		// Store in appropriate field
-		switch streamName {
-		case "template":
-			streams.Template = streamInfo
-		case "datasets":
-			streams.Datasets = streamInfo
-		case "config":
-			streams.Config = streamInfo
-		case "localeSet":
-			streams.LocaleSet = streamInfo
-		case "connectionSet":
-			streams.ConnectionSet = streamInfo
-		case "stylesheet":
-			streams.Stylesheet = streamInfo
-		case "xmp":
-			streams.XMP = streamInfo
-		case "signature":
-			streams.Signature = streamInfo
-		case "sourceSet":
-			streams.SourceSet = streamInfo
-		default:
-			if verbose {
-				log.Printf("Unknown XFA stream type: %s", streamName)
-			}
+			log.Printf("Extracted %s stream: %d bytes (object %d)", entry.Name, len(data), entry.ObjectNumber)
 		}
 	}
 
@@ -330,32 +128,10 @@ func RebuildPDFFromXFAStreams(originalPDFBytes []byte, streams *XFAStreams, encr
 
 	// Map stream names to stream data
 	updatedStreams := make(map[string][]byte)
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		updatedStreams["template"] = streams.Template.Data
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		updatedStreams["datasets"] = streams.Datasets.Data
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		updatedStreams["config"] = streams.Config.Data
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		updatedStreams["localeSet"] = streams.LocaleSet.Data
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		updatedStreams["connectionSet"] = streams.ConnectionSet.Data
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		updatedStreams["stylesheet"] = streams.Stylesheet.Data
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		updatedStreams["xmp"] = streams.XMP.Data
-	}
-	if streams.Signature != nil && len(streams.Signature.Data) > 0 {
-		updatedStreams["signature"] = streams.Signature.Data
-	}
-	if streams.SourceSet != nil && len(streams.SourceSet.Data) > 0 {
-		updatedStreams["sourceSet"] = streams.SourceSet.Data
+	for _, p := range streams.packets() {
+		if *p.stream != nil {
+			updatedStreams[p.name] = (*p.stream).Data
+		}
 	}
 
 	// Use XFABuilder to rebuild
@@ -372,55 +148,14 @@ func BuildPDFFromXFAStreams(streams *XFAStreams, verbose bool) ([]byte, error) {
 
 	// Collect all non-nil streams
 	var xfaStreams []write.XFAStreamData
-
-	if streams.Template != nil && len(streams.Template.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "template",
-			Data:     streams.Template.Data,
-			Compress: true,
-		})
-	}
-	if streams.Datasets != nil && len(streams.Datasets.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "datasets",
-			Data:     streams.Datasets.Data,
-			Compress: true,
-		})
-	}
-	if streams.Config != nil && len(streams.Config.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "config",
-			Data:     streams.Config.Data,
-			Compress: true,
-		})
-	}
-	if streams.LocaleSet != nil && len(streams.LocaleSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "localeSet",
-			Data:     streams.LocaleSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.ConnectionSet != nil && len(streams.ConnectionSet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "connectionSet",
-			Data:     streams.ConnectionSet.Data,
-			Compress: true,
-		})
-	}
-	if streams.Stylesheet != nil && len(streams.Stylesheet.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "stylesheet",
-			Data:     streams.Stylesheet.Data,
-			Compress: true,
-		})
-	}
-	if streams.XMP != nil && len(streams.XMP.Data) > 0 {
-		xfaStreams = append(xfaStreams, write.XFAStreamData{
-			Name:     "xmp",
-			Data:     streams.XMP.Data,
-			Compress: true,
-		})
+	for _, p := range streams.packets() {
+		if *p.stream != nil {
+			xfaStreams = append(xfaStreams, write.XFAStreamData{
+				Name:     p.name,
+				Data:     (*p.stream).Data,
+				Compress: true,
+			})
+		}
 	}
 
 	builder := write.NewXFABuilder(verbose)
@@ -440,120 +175,146 @@ func UpdateXFAInPDF(pdfBytes []byte, formData types.FormData, encryptInfo *types
 		log.Printf("Stream size: %d bytes", len(datasetsStream))
 	}
 
-	// Decompress if needed and parse XML
-	xfaXML, wasCompressed, err := DecompressStream(datasetsStream)
-	if err != nil {
-		return nil, fmt.Errorf("error decompressing stream: %v", err)
-	}
-
-	if verbose {
-		log.Printf("Decompressed XFA XML: %d bytes (was compressed: %v)", len(xfaXML), wasCompressed)
-	}
-
 	// Update field values in XFA XML
-	updatedXML, err := UpdateXFAValues(string(xfaXML), formData, verbose)
+	updatedXML, err := UpdateXFAValues(string(datasetsStream), formData, verbose)
 	if err != nil {
-		return nil, fmt.Errorf("error updating XFA values: %v", err)
-	}
-
-	// Re-compress if it was compressed
-	updatedStream := []byte(updatedXML)
-	if wasCompressed {
-		compressed, err := CompressStream(updatedStream)
-		if err != nil {
-			return nil, fmt.Errorf("error compressing stream: %v", err)
-		}
-		updatedStream = compressed
-		if verbose {
-			log.Printf("Re-compressed stream: %d bytes", len(updatedStream))
-		}
+		return nil, fmt.Errorf("error updating XFA values: %w", err)
 	}
 
 	// Update PDF with new stream
-	updatedPDF, err := ReplaceStreamInPDF(pdfBytes, streamObjNum, updatedStream, verbose)
+	builder := write.NewXFABuilder(verbose)
+	updatedPDF, err := builder.BuildFromOriginal(pdfBytes, map[string][]byte{"datasets": []byte(updatedXML)}, encryptInfo)
 	if err != nil {
-		return nil, fmt.Errorf("error replacing stream: %v", err)
+		return nil, fmt.Errorf("error replacing stream: %w", err)
 	}
 
 	return updatedPDF, nil
 }
 
-// UpdateXFAValues updates field values in XFA XML
+// UpdateXFAValues updates field values in XFA XML: those in its data sections
+// if it has any, otherwise all
 func UpdateXFAValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	// Find data section
-	dataStart := strings.Index(xfaXML, "<data")
-	if dataStart == -1 {
-		// If no data section, update individual fields
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Find end of data section
-	dataEnd := strings.LastIndex(xfaXML, "</data>")
-	if dataEnd == -1 {
-		return UpdateXFAFieldValues(xfaXML, formData, verbose)
-	}
-
-	// Extract data section
-	dataSection := xfaXML[dataStart : dataEnd+7]
-
-	// Update field values in data section
-	updatedData, err := UpdateXFAFieldValues(dataSection, formData, verbose)
-	if err != nil {
-		return "", err
+	updated, hasData, err := updateFields(xfaXML, formData, true, verbose)
+	if err == nil && !hasData {
+		updated, _, err = updateFields(xfaXML, formData, false, verbose)
 	}
-
-	// Replace data section in full XML
-	result := xfaXML[:dataStart] + updatedData + xfaXML[dataEnd+7:]
-
-	return result, nil
+	return updated, err
 }
 
 // UpdateXFAFieldValues updates individual field values in XFA XML
 func UpdateXFAFieldValues(xfaXML string, formData types.FormData, verbose bool) (string, error) {
-	resultXML := xfaXML
-
-	for fieldName, newValue := range formData {
-		// Find field in XFA XML
-		fieldPattern := fmt.Sprintf(`<field name="%s"`, fieldName)
-		fieldIndex := strings.Index(resultXML, fieldPattern)
-
-		if fieldIndex == -1 {
-			if verbose {
-				log.Printf("Warning: Field '%s' not found in XFA XML", fieldName)
-			}
-			continue
-		}
+	updated, _, err := updateFields(xfaXML, formData, false, verbose)
+	return updated, err
+}
 
-		// Find the value element for this field
-		fieldEnd := strings.Index(resultXML[fieldIndex:], "</field>")
-		if fieldEnd == -1 {
-			continue
+// updateFields sets the values of the first field of each name, if asked for
+// only of fields in a data element, and leaves everything else as it is. It
+// reports if there is a data element.
+func updateFields(xfaXML string, formData types.FormData, inData, verbose bool) (string, bool, error) {
+	decoder := xml.NewDecoder(strings.NewReader(xfaXML))
+	decoder.Strict = false
+	decoder.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
+
+	var result strings.Builder
+	copied := 0 // offset up to which the result has the source
+	replace := func(start, end int, with string) {
+		result.WriteString(xfaXML[copied:start])
+		result.WriteString(with)
+		copied = end
+	}
+
+	done := make(map[string]bool)
+	var hasData bool
+	var open []string // local names of the open elements
+	dataDepth := 0
+	fieldDepth, valueDepth := 0, 0 // nesting of the field to update and its value
+	var value string
+	var valueStart int
+
+	for {
+		start := int(decoder.InputOffset())
+		token, err := decoder.RawToken()
+		if err == io.EOF {
+			break
 		}
-
-		fieldSection := resultXML[fieldIndex : fieldIndex+fieldEnd]
-
-		// Check if value element exists
-		valueStart := strings.Index(fieldSection, "<value>")
-		valueEnd := strings.Index(fieldSection, "</value>")
-
-		valueStr := fmt.Sprintf("%v", newValue)
-
-		if valueStart != -1 && valueEnd != -1 {
-			// Replace existing value
-			beforeValue := resultXML[:fieldIndex+valueStart+7]
-			afterValue := resultXML[fieldIndex+valueEnd:]
-			resultXML = beforeValue + valueStr + afterValue
-		} else {
-			// Insert new value element before </field>
-			beforeFieldEnd := resultXML[:fieldIndex+fieldEnd]
-			afterFieldEnd := resultXML[fieldIndex+fieldEnd:]
-			resultXML = beforeFieldEnd + "<value>" + valueStr + "</value>" + afterFieldEnd
+		if err != nil {
+			return "", hasData, fmt.Errorf("malformed XFA XML: %w", err)
 		}
+		end := int(decoder.InputOffset())
+
+		switch t := token.(type) {
+		case xml.StartElement:
+			name := t.Name.Local
+			open = append(open, name)
+			switch {
+			case name == "data" && dataDepth == 0:
+				dataDepth = len(open)
+				hasData = true
+			case name == "field" && fieldDepth == 0 && (!inData || dataDepth > 0):
+				for _, attr := range t.Attr {
+					if attr.Name.Local != "name" || attr.Name.Space != "" || done[attr.Value] {
+						continue
+					}
+					newValue, ok := formData[attr.Value]
+					if !ok {
+						continue
+					}
+					done[attr.Value] = true
+					fieldDepth = len(open)
+					var escaped strings.Builder
+					if err := xml.EscapeText(&escaped, []byte(formatFieldValue(newValue))); err != nil {
+						return "", hasData, err
+					}
+					value = escaped.String()
+					if verbose {
+						log.Printf("Updated field '%s'", attr.Value)
+					}
+				}
+				if fieldDepth > 0 && strings.HasSuffix(xfaXML[start:end], "/>") {
+					replace(end-2, end, "><value>"+value+"</value></"+qualified(t.Name)+">")
+					fieldDepth = 0
+				}
+			case name == "value" && fieldDepth > 0 && len(open) == fieldDepth+1:
+				if strings.HasSuffix(xfaXML[start:end], "/>") {
+					replace(end-2, end, ">"+value+"</"+qualified(t.Name)+">")
+					fieldDepth = 0
+				} else {
+					valueDepth, valueStart = len(open), end
+				}
+			}
 
-		if verbose {
-			log.Printf("Updated field '%s' = '%s'", fieldName, valueStr)
+		case xml.EndElement:
+			// Closes the innermost open element of that name
+			depth := len(open)
+			for depth > 0 && open[depth-1] != t.Name.Local {
+				depth--
+			}
+			if depth == 0 {
+				continue
+			}
+			if valueDepth >= depth {
+				replace(valueStart, start, value)
+				fieldDepth, valueDepth = 0, 0
+			}
+			if fieldDepth >= depth {
+				replace(start, start, "<value>"+value+"</value>")
+				fieldDepth = 0
+			}
+			if dataDepth >= depth {
+				dataDepth = 0
+			}
+			open = open[:depth-1]
 		}
 	}
 
-	return resultXML, nil
+	result.WriteString(xfaXML[copied:])
+	return result.String(), hasData, nil
+}
+
+// qualified returns the name as it is written
+func qualified(name xml.Name) string {
+	if name.Space != "" {
+		return name.Space + ":" + name.Local
+	}
+	return name.Local
 }
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index e86c173..2890a54 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -7,424 +7,14 @@ import (
 	"fmt"
 	"io"
 	"log"
-	"regexp"
-	"strconv"
-	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// findObjectBoundaries finds the start and end of a PDF object using incremental parsing
-// This uses non-encrypted markers ("obj", "endobj") to locate object boundaries
-func findObjectBoundaries(pdfBytes []byte, objIndex int, objNum int, objName string, verbose bool) (objStart, objEnd int, objContent []byte, err error) {
-	// Find object boundaries - search backwards from objIndex to find "obj" keyword
-	// The xref offset might point to encrypted content, but "obj" keyword is not encrypted
-	// Strategy: First try direct pattern search, then fall back to searching for "obj" keyword
-
-	objKeywordPos := -1
-	objStart = objIndex
-
-	// First, try to find the object number pattern directly (works if object header is visible)
-	// This is the most reliable method
-	objPattern := []byte(fmt.Sprintf("%d 0 obj", objNum))
-
-	// Search in a window around the given index first
-	if objIndex >= 0 && objIndex < len(pdfBytes) {
-		searchStart := max(0, objIndex-2000)
-		searchEnd := min(len(pdfBytes), objIndex+2000)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		patternPos := bytes.Index(searchArea, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = searchStart + patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = searchStart + patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		}
-	}
-
-	// If pattern not found in window, the object might be compressed or the offset wrong
-	// Try searching entire PDF (slower but more reliable)
-	if objKeywordPos == -1 {
-		patternPos := bytes.Index(pdfBytes, objPattern)
-		if patternPos != -1 {
-			objKeywordPos = patternPos + len(fmt.Sprintf("%d 0 ", objNum))
-			objStart = patternPos
-			// Find line start
-			for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-				objStart--
-			}
-		} else {
-			// Object header not found - might be compressed or offset is wrong
-			// Try searching for just the number "212" followed by whitespace and "0" near the offset
-			// This handles cases where the object header format is slightly different
-			numStr := fmt.Sprintf("%d", objNum)
-			searchStart := max(0, objIndex-1000)
-			searchEnd := min(len(pdfBytes), objIndex+1000)
-			searchArea := pdfBytes[searchStart:searchEnd]
-
-			// Look for number pattern
-			numBytes := []byte(numStr)
-			numPos := bytes.Index(searchArea, numBytes)
-			if numPos != -1 {
-				// Found the number, check if followed by space/tab and "0 obj"
-				checkPos := searchStart + numPos + len(numBytes)
-				if checkPos+10 < len(pdfBytes) {
-					afterNum := pdfBytes[checkPos : checkPos+10]
-					// Check for whitespace followed by "0 obj"
-					if afterNum[0] == ' ' || afterNum[0] == '\t' || afterNum[0] == '\n' || afterNum[0] == '\r' {
-						if bytes.HasPrefix(afterNum[1:], []byte("0 obj")) {
-							objKeywordPos = checkPos + 1 + 2 // Position after "0 "
-							objStart = searchStart + numPos
-							// Find line start
-							for objStart > 0 && pdfBytes[objStart-1] != '\n' && pdfBytes[objStart-1] != '\r' {
-								objStart--
-							}
-						}
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, try searching for "obj" keyword near the offset and verify object number
-	if objKeywordPos == -1 {
-		searchWindow := 5000 // Very large window for encrypted PDFs
-		searchStart := max(0, objIndex-searchWindow)
-		searchEnd := min(len(pdfBytes), objIndex+searchWindow)
-		searchArea := pdfBytes[searchStart:searchEnd]
-
-		// Search for "obj" keyword (not encrypted)
-		objKeywordPosInArea := bytes.Index(searchArea, []byte("obj"))
-		if objKeywordPosInArea != -1 {
-			objKeywordPos = searchStart + objKeywordPosInArea
-			// Search backwards to find the start of the object number line
-			for i := objKeywordPos - 1; i >= 0 && i > objKeywordPos-100; i-- {
-				if pdfBytes[i] >= '0' && pdfBytes[i] <= '9' {
-					lineStart := i
-					for lineStart > 0 && pdfBytes[lineStart-1] != '\n' && pdfBytes[lineStart-1] != '\r' {
-						lineStart--
-					}
-					// Verify this is the right object by checking the number
-					lineEnd := objKeywordPos + 3
-					for lineEnd < len(pdfBytes) && pdfBytes[lineEnd] != '\n' && pdfBytes[lineEnd] != '\r' {
-						lineEnd++
-					}
-					lineContent := string(pdfBytes[lineStart:lineEnd])
-					if bytes.Contains([]byte(lineContent), []byte(fmt.Sprintf("%d 0 obj", objNum))) {
-						objStart = lineStart
-						break
-					}
-				}
-			}
-		}
-	}
-
-	// If still not found, the object header might be missing or the object is compressed
-	// UniPDF approach: use the xref offset directly and decrypt content there
-	// The xref offset points to the start of encrypted content, so start there
-	// But we should also try searching backwards a bit in case there's a header
-	if objKeywordPos == -1 {
-		// For encrypted PDFs without visible headers, UniPDF decrypts at the xref offset
-		// Try starting slightly before the offset (in case there's a short header)
-		// Then decrypt a larger chunk to ensure we get the full object
-		searchBack := 200 // Search backwards for potential header
-		objStart = max(0, objIndex-searchBack)
-		estimatedSize := 10000 // Larger estimate for AcroForm with XFA
-		objEnd = min(len(pdfBytes), objIndex+estimatedSize)
-		objContent = pdfBytes[objStart:objEnd]
-
-		if verbose {
-			log.Printf("%s object %d: Using xref offset with search window (start=%d, xref=%d, end=%d) - header not found, will decrypt and look for structure",
-				objName, objNum, objStart, objIndex, objEnd)
-		}
-	} else {
-		// Found obj keyword - find endobj normally
-		// Find "endobj" - search forward from objStart
-		objEndBytes := bytes.Index(pdfBytes[objStart:], []byte("endobj"))
-		if objEndBytes == -1 {
-			return 0, 0, nil, fmt.Errorf("%s object %d end not found", objName, objNum)
-		}
-		objEnd = objStart + objEndBytes + 6 // Include "endobj"
-		objContent = pdfBytes[objStart:objEnd]
-	}
-
-	return objStart, objEnd, objContent, nil
-}
-
-// extractDictionaryKeys extracts PDF dictionary keys for debugging
-func extractDictionaryKeys(dictContent []byte) string {
-	var keys []string
-	// Simple extraction: look for /Key patterns
-	content := string(dictContent)
-	keyPattern := regexp.MustCompile(`/([A-Za-z][A-Za-z0-9]*)`)
-	matches := keyPattern.FindAllStringSubmatch(content, -1)
-	for _, match := range matches {
-		if len(match) > 1 {
-			keys = append(keys, match[1])
-		}
-	}
-	if len(keys) > 0 {
-		return strings.Join(keys, ", ")
-	}
-	return "none found"
-}
-
-// findAndDecryptAcroForm finds and decrypts the AcroForm object, returning the decrypted content
-func findAndDecryptAcroForm(pdfBytes []byte, acroFormObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	// Find the AcroForm object
-	objIndex, err := parse.FindObjectByNumber(pdfBytes, acroFormObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, fmt.Errorf("AcroForm object %d not found: %v", acroFormObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, objIndex, acroFormObjNum, "AcroForm", verbose)
-	if err != nil {
-		return nil, err
-	}
-
-	if verbose {
-		log.Printf("AcroForm object %d: objStart=%d, objEnd=%d, content length=%d", acroFormObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Decrypt if needed - only decrypt the encrypted portions between markers
-	var decryptedContent []byte
-	if encryptInfo != nil {
-		// Find object structure markers (these are NOT encrypted)
-		objKeywordPos := bytes.Index(objContent, []byte("obj"))
-
-		// Extract generation number from object header (if available)
-		genNum := 0
-		if objKeywordPos != -1 {
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if verbose {
-				log.Printf("Extracted generation number for AcroForm object %d: %d", acroFormObjNum, genNum)
-			}
-		} else {
-			// Object header not found - try to extract from objContent by searching for pattern
-			genNum = extractGenerationNumber(objContent, acroFormObjNum)
-			if genNum == 0 {
-				if verbose {
-					log.Printf("AcroForm object header not found, using default generation number 0")
-				}
-				// Note: If decryption fails, we might need to try other generation numbers
-				// but that would be expensive. Most PDFs use generation 0.
-			} else if verbose {
-				log.Printf("Found generation number %d for AcroForm object %d (header not in expected location)", genNum, acroFormObjNum)
-			}
-		}
-
-		var dataStart int
-		if objKeywordPos == -1 {
-			// Object header not found - UniPDF approach: try decrypting from multiple starting points
-			// The xref offset might point to encrypted content, but alignment is unknown
-			// Try starting from the beginning of objContent and let decryptInChunks find alignment
-			// Also try starting from the xref offset position
-			relativeXrefOffset := objIndex - objStart
-			if relativeXrefOffset < 0 {
-				relativeXrefOffset = 0
-			}
-
-			// Try decrypting from start first (decryptInChunks will try alignments)
-			dataStart = 0
-			if verbose {
-				log.Printf("AcroForm object header not found, trying decryption from start of content (xref at relative offset %d)", relativeXrefOffset)
-			}
-		} else {
-			// Skip "obj" and whitespace to find where encrypted data starts
-			dataStart = objKeywordPos + 3
-			for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-				dataStart++
-			}
-		}
-
-		// Check if this is a stream object
-		streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-		isStreamObject := streamKeywordPos != -1
-
-		if isStreamObject {
-			// Stream object: decrypt dictionary portion (between "obj" and "stream")
-			// The dictionary is encrypted, but "stream", stream data, "endstream", and "endobj" are not
-			if verbose {
-				log.Printf("AcroForm object is a stream object, decrypting dictionary portion only")
-			}
-
-			// Dictionary is encrypted from dataStart to streamKeywordPos
-			encryptedDict := objContent[dataStart:streamKeywordPos]
-
-			// Decrypt dictionary in chunks if needed (for alignment)
-			// Use extracted generation number
-			decryptedDict, err := decryptInChunks(encryptedDict, acroFormObjNum, genNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					log.Printf("Failed to decrypt dictionary: %v", err)
-				}
-				decryptedContent = objContent
-			} else {
-				// Reconstruct: object header + decrypted dictionary + "stream" + stream data + "endstream" + "endobj"
-				objectHeader := objContent[:dataStart]
-				streamAndRest := objContent[streamKeywordPos:]
-				decryptedContent = append(objectHeader, decryptedDict...)
-				decryptedContent = append(decryptedContent, streamAndRest...)
-				if verbose {
-					log.Printf("Decrypted dictionary: %d bytes -> %d bytes", len(encryptedDict), len(decryptedDict))
-				}
-			}
-		} else {
-			// Regular object: decrypt content between dataStart and "endobj"
-			endobjPos := bytes.Index(objContent, []byte("endobj"))
-			if endobjPos == -1 {
-				// If endobj not found and no header, try decrypting a reasonable chunk
-				// UniPDF approach: decrypt and look for structure markers
-				if objKeywordPos == -1 {
-					// No header, no endobj - decrypt a chunk starting from xref offset
-					// UniPDF approach: the xref offset points to encrypted content
-					// Calculate where the xref offset is in objContent
-					relativeXrefOffset := objIndex - objStart
-					if relativeXrefOffset < 0 {
-						relativeXrefOffset = 0
-					}
-
-					// Try decrypting from the xref offset position
-					// decryptInChunks will try different alignments, but we should start from xref position
-					decryptStart := relativeXrefOffset
-					decryptLen := min(10000, len(objContent)-decryptStart)
-					// Round down to multiple of 16 for AES
-					decryptLen = (decryptLen / 16) * 16
-					if decryptLen >= 16 {
-						encryptedContent := objContent[decryptStart : decryptStart+decryptLen]
-						if verbose {
-							log.Printf("Attempting to decrypt %d bytes starting from xref position (offset %d in content, absolute %d)",
-								decryptLen, decryptStart, objIndex)
-						}
-						decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-						if err == nil && len(decryptedData) > 0 {
-							// If decryptInChunks succeeded, use the decrypted content
-							// It will have found valid PDF structure (<< or PDF keywords)
-							decryptedContent = decryptedData
-							if verbose {
-								log.Printf("Successfully decrypted AcroForm (no header/endobj): %d bytes", len(decryptedContent))
-
-								// Output full structure for debugging
-								log.Printf("=== DECRYPTED ACROFORM STRUCTURE ===")
-								log.Printf("Content length: %d bytes", len(decryptedContent))
-
-								// Hex dump of first 2000 bytes
-								previewLen := min(2000, len(decryptedContent))
-								log.Printf("First %d bytes (hex dump):", previewLen)
-								for i := 0; i < previewLen; i += 16 {
-									end := min(i+16, previewLen)
-									hexPart := fmt.Sprintf("%04x: ", i)
-									for j := i; j < end; j++ {
-										hexPart += fmt.Sprintf("%02x ", decryptedContent[j])
-									}
-									log.Printf("%s", hexPart)
-								}
-
-								// ASCII dump
-								log.Printf("First %d bytes (ASCII, non-printable as .):", previewLen)
-								asciiLine := ""
-								for i := 0; i < previewLen; i++ {
-									if i > 0 && i%80 == 0 {
-										log.Printf("%s", asciiLine)
-										asciiLine = ""
-									}
-									b := decryptedContent[i]
-									if b >= 32 && b < 127 {
-										asciiLine += string(b)
-									} else {
-										asciiLine += "."
-									}
-								}
-								if asciiLine != "" {
-									log.Printf("%s", asciiLine)
-								}
-
-								// Check for PDF markers
-								if bytes.Contains(decryptedContent, []byte("<<")) {
-									dictStart := bytes.Index(decryptedContent, []byte("<<"))
-									log.Printf("Found '<<' at offset %d", dictStart)
-									// Show context around dictionary start
-									ctxStart := max(0, dictStart-50)
-									ctxEnd := min(len(decryptedContent), dictStart+200)
-									log.Printf("Context around '<<' (offset %d-%d): %q", ctxStart, ctxEnd, string(decryptedContent[ctxStart:ctxEnd]))
-								}
-								if bytes.Contains(decryptedContent, []byte("/XFA")) {
-									xfaPos := bytes.Index(decryptedContent, []byte("/XFA"))
-									log.Printf("Found '/XFA' at offset %d", xfaPos)
-								} else {
-									log.Printf("'/XFA' NOT found in decrypted content")
-									// Check for XFA with different case/spacing
-									if bytes.Contains(decryptedContent, []byte("XFA")) || bytes.Contains(decryptedContent, []byte("xfa")) {
-										log.Printf("Found 'XFA' (case-insensitive) in decrypted content")
-									}
-								}
-								log.Printf("=== END DECRYPTED ACROFORM STRUCTURE ===")
-							}
-						} else {
-							if verbose {
-								log.Printf("Failed to decrypt: %v", err)
-							}
-							decryptedContent = objContent
-						}
-					} else {
-						decryptedContent = objContent
-					}
-				} else {
-					// Has header but no endobj - decrypt up to end
-					endobjPos = len(objContent)
-					encryptedContent := objContent[dataStart:endobjPos]
-					decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-					if err != nil {
-						if verbose {
-							log.Printf("Failed to decrypt object content: %v", err)
-						}
-						decryptedContent = objContent
-					} else {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-					}
-				}
-			} else {
-				// Has endobj - decrypt normally
-				encryptedContent := objContent[dataStart:endobjPos]
-				decryptedData, err := decryptInChunks(encryptedContent, acroFormObjNum, genNum, encryptInfo, verbose)
-				if err != nil {
-					if verbose {
-						log.Printf("Failed to decrypt object content: %v", err)
-					}
-					decryptedContent = objContent
-				} else {
-					// Reconstruct: object header (if exists) + decrypted content + "endobj" (if exists)
-					if objKeywordPos != -1 {
-						objectHeader := objContent[:dataStart]
-						decryptedContent = append(objectHeader, decryptedData...)
-						decryptedContent = append(decryptedContent, []byte("endobj")...)
-					} else {
-						// No header - just use decrypted content
-						decryptedContent = decryptedData
-						if verbose {
-							log.Printf("Decrypted content (no header): %d bytes, looking for dictionary markers", len(decryptedContent))
-							if bytes.Contains(decryptedContent, []byte("<<")) {
-								log.Printf("Found dictionary markers in decrypted content")
-							}
-						}
-					}
-				}
-			}
-		}
-	} else {
-		decryptedContent = objContent
-	}
-
-	return decryptedContent, nil
-}
-
 // decryptInChunks decrypts data in chunks, trying different alignments to find the correct decryption
 // This handles cases where encrypted data might not start exactly at a 16-byte boundary
 func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
@@ -529,278 +119,6 @@ func decryptInChunks(encryptedData []byte, objNum, genNum int, encryptInfo *type
 	return decrypted, nil
 }
 
-// findXFAArrayContent extracts the XFA array content string from decrypted AcroForm content
-func findXFAArrayContent(decryptedContent []byte, verbose bool) (string, error) {
-	// UniPDF approach: the decrypted content might have padding or extra data
-	// Find where the actual PDF dictionary starts (look for "<<")
-	dictStart := bytes.Index(decryptedContent, []byte("<<"))
-	var xfaPos int = -1
-
-	if dictStart != -1 {
-		// Found dictionary start - find matching >> with proper nesting
-		// Must balance << and >> pairs for nested dictionaries
-		dictEnd := -1
-		depth := 0
-		for i := dictStart; i < len(decryptedContent)-1; i++ {
-			if decryptedContent[i] == '<' && decryptedContent[i+1] == '<' {
-				depth++
-				i++ // Skip second '<'
-			} else if decryptedContent[i] == '>' && decryptedContent[i+1] == '>' {
-				depth--
-				if depth == 0 {
-					dictEnd = i
-					break
-				}
-				i++ // Skip second '>'
-			}
-		}
-		if dictEnd != -1 {
-			dictContent := decryptedContent[dictStart : dictEnd+2]
-			if verbose {
-				log.Printf("Found dictionary start at offset %d, end at %d (length: %d bytes)", dictStart, dictEnd, len(dictContent))
-				// Show the actual dictionary content to verify it's valid
-				previewLen := min(200, len(dictContent))
-				log.Printf("Dictionary content preview: %q", dictContent[:previewLen])
-			}
-
-			// Search for /XFA within the dictionary
-			xfaPos = bytes.Index(dictContent, []byte("/XFA"))
-			if xfaPos != -1 {
-				xfaPos += dictStart // Adjust to absolute position
-			} else {
-				// Try case variations
-				xfaPos = bytes.Index(dictContent, []byte("/xfa"))
-				if xfaPos != -1 {
-					xfaPos += dictStart
-				}
-			}
-
-			if xfaPos != -1 {
-				if verbose {
-					log.Printf("Found /XFA at offset %d within dictionary", xfaPos)
-				}
-			} else if verbose {
-				// Dictionary found but no /XFA - show what's in the dictionary
-				log.Printf("Dictionary found but /XFA not found. Dictionary keys: %q", extractDictionaryKeys(dictContent))
-			}
-		} else if verbose {
-			log.Printf("Found '<<' at offset %d but no matching '>>' found - might be false positive", dictStart)
-		}
-	}
-
-	// If not found from dictionary, try searching entire content
-	if xfaPos == -1 {
-		xfaPos = bytes.Index(decryptedContent, []byte("/XFA"))
-	}
-	if xfaPos == -1 {
-		// Try case variations
-		xfaPos = bytes.Index(decryptedContent, []byte("/xfa"))
-	}
-	if xfaPos == -1 {
-		// Try with spaces
-		xfaPos = bytes.Index(decryptedContent, []byte("/ XFA"))
-	}
-	if xfaPos == -1 {
-		// Try searching byte by byte
-		for i := 0; i < len(decryptedContent)-3; i++ {
-			if decryptedContent[i] == '/' &&
-				(decryptedContent[i+1] == 'X' || decryptedContent[i+1] == 'x') &&
-				(decryptedContent[i+2] == 'F' || decryptedContent[i+2] == 'f') &&
-				(decryptedContent[i+3] == 'A' || decryptedContent[i+3] == 'a') {
-				xfaPos = i
-				break
-			}
-		}
-	}
-
-	if xfaPos == -1 {
-		if verbose {
-			log.Printf("XFA not found in decrypted content (length: %d bytes)", len(decryptedContent))
-			// Show content around dictionary start if found
-			if dictStart != -1 {
-				previewStart := max(0, dictStart-50)
-				previewEnd := min(len(decryptedContent), dictStart+500)
-				log.Printf("Content around dictionary start (offset %d): %q", dictStart, decryptedContent[previewStart:previewEnd])
-			} else {
-				log.Printf("Decrypted content preview (first 500 bytes): %q", decryptedContent[:min(500, len(decryptedContent))])
-			}
-		}
-		return "", fmt.Errorf("XFA entry not found in AcroForm")
-	}
-
-	// Find array after /XFA
-	arrayStart := bytes.Index(decryptedContent[xfaPos:], []byte("["))
-	if arrayStart == -1 {
-		return "", fmt.Errorf("XFA array start not found after /XFA")
-	}
-	arrayStartIdx := xfaPos + arrayStart + 1 // Position after '['
-
-	// Find matching ']' for the array
-	// Start at depth 1 because we've already passed the opening '['
-	depth := 1
-	arrayEndIdx := arrayStartIdx
-	for i := arrayStartIdx; i < len(decryptedContent) && i < arrayStartIdx+10000; i++ {
-		if decryptedContent[i] == '[' {
-			depth++
-		} else if decryptedContent[i] == ']' {
-			depth--
-			if depth == 0 {
-				arrayEndIdx = i + 1
-				break
-			}
-		}
-	}
-
-	if arrayEndIdx == arrayStartIdx {
-		return "", fmt.Errorf("could not find end of XFA array")
-	}
-
-	return string(decryptedContent[arrayStartIdx:arrayEndIdx]), nil
-}
-
-// extractGenerationNumber extracts the generation number from an object header
-// Object format: "objNum genNum obj"
-// Returns the generation number, or 0 if not found (most objects are generation 0)
-func extractGenerationNumber(objContent []byte, objNum int) int {
-	// Find object header pattern: "objNum genNum obj"
-	// Try multiple patterns to handle different whitespace
-	patterns := []*regexp.Regexp{
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // Standard: "123 0 obj"
-		regexp.MustCompile(fmt.Sprintf(`%d\s+(\d+)\s+obj`, objNum)), // With tabs
-		regexp.MustCompile(fmt.Sprintf(`%d\s*(\d+)\s*obj`, objNum)), // Flexible whitespace
-	}
-
-	for _, pattern := range patterns {
-		match := pattern.FindSubmatch(objContent)
-		if match != nil && len(match) > 1 {
-			genNum, err := strconv.Atoi(string(match[1]))
-			if err == nil {
-				return genNum
-			}
-		}
-	}
-
-	// Also try searching in a larger window if objContent is large
-	// Sometimes the header might be further in if there's padding
-	if len(objContent) > 1000 {
-		// Search first 500 bytes more carefully
-		searchArea := objContent[:min(500, len(objContent))]
-		for _, pattern := range patterns {
-			match := pattern.FindSubmatch(searchArea)
-			if match != nil && len(match) > 1 {
-				genNum, err := strconv.Atoi(string(match[1]))
-				if err == nil {
-					return genNum
-				}
-			}
-		}
-	}
-
-	// Default to 0 if not found (most PDF objects are generation 0)
-	return 0
-}
-
-// This follows the same approach as findAndDecryptAcroForm: parse structure first, then decrypt only encrypted portions
-func extractStreamFromPDF(pdfBytes []byte, streamObjNum int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, int, error) {
-	// Find the stream object using incremental parser (finds non-encrypted markers)
-	streamObjIndex, err := parse.FindObjectByNumber(pdfBytes, streamObjNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, 0, fmt.Errorf("stream object %d not found: %v", streamObjNum, err)
-	}
-
-	// Find object boundaries using incremental parsing
-	objStart, objEnd, objContent, err := findObjectBoundaries(pdfBytes, streamObjIndex, streamObjNum, "stream", verbose)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	if verbose {
-		log.Printf("Stream object %d: objStart=%d, objEnd=%d, content length=%d", streamObjNum, objStart, objEnd, len(objContent))
-	}
-
-	// Find structure markers (these are NOT encrypted)
-	objKeywordPosInContent := bytes.Index(objContent, []byte("obj"))
-	if objKeywordPosInContent == -1 {
-		return nil, 0, fmt.Errorf("'obj' keyword not found in stream object %d", streamObjNum)
-	}
-
-	// Extract generation number from object header (CRITICAL for correct key derivation)
-	genNum := extractGenerationNumber(objContent, streamObjNum)
-	if verbose {
-		log.Printf("Extracted generation number for object %d: %d", streamObjNum, genNum)
-	}
-
-	// Skip "obj" and whitespace to find where encrypted data starts
-	dataStart := objKeywordPosInContent + 3
-	for dataStart < len(objContent) && (objContent[dataStart] == ' ' || objContent[dataStart] == '\r' || objContent[dataStart] == '\n' || objContent[dataStart] == '\t') {
-		dataStart++
-	}
-
-	// Find "stream" keyword (not encrypted)
-	streamKeywordPos := bytes.Index(objContent, []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, 0, fmt.Errorf("stream keyword not found for object %d", streamObjNum)
-	}
-
-	// Get /Length from dictionary (between dataStart and streamKeywordPos)
-	dictContent := string(objContent[dataStart:streamKeywordPos])
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatch(dictContent)
-
-	var streamLength int
-	if lengthMatch != nil {
-		streamLength, _ = strconv.Atoi(lengthMatch[1])
-	}
-
-	// Extract stream data
-	// Skip "stream" keyword (6 bytes) and EOL
-	streamDataStart := streamKeywordPos + 6
-
-	// Skip exactly one EOL marker per PDF spec
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\r' {
-		streamDataStart++
-	}
-	if streamDataStart < len(objContent) && objContent[streamDataStart] == '\n' {
-		streamDataStart++
-	}
-
-	// Use /Length if available, otherwise find endstream
-	var streamContent []byte
-	if streamLength > 0 && streamDataStart+streamLength <= len(objContent) {
-		streamContent = objContent[streamDataStart : streamDataStart+streamLength]
-	} else {
-		// Fallback: find endstream
-		endstreamPos := bytes.Index(objContent[streamDataStart:], []byte("endstream"))
-		if endstreamPos == -1 {
-			return nil, 0, fmt.Errorf("endstream not found for object %d", streamObjNum)
-		}
-		streamContent = objContent[streamDataStart : streamDataStart+endstreamPos]
-	}
-
-	streamDataEnd := streamDataStart + len(streamContent)
-
-	if verbose {
-		log.Printf("Stream object %d: dictionary encrypted from %d to %d, stream data from %d to %d",
-			streamObjNum, dataStart, streamKeywordPos, streamDataStart, streamDataEnd)
-	}
-
-	// Decrypt stream data if needed (dictionary decryption not needed for extraction, only for reading)
-	if encryptInfo != nil {
-		// Decrypt the stream data itself (not the dictionary)
-		// Use the extracted generation number instead of hardcoded 0
-		decryptedStream, err := encrypt.DecryptObject(streamContent, streamObjNum, genNum, encryptInfo)
-		if err != nil {
-			return nil, 0, fmt.Errorf("error decrypting stream data for object %d (gen %d): %v", streamObjNum, genNum, err)
-		}
-		streamContent = decryptedStream
-		if verbose {
-			log.Printf("Decrypted stream data: %d bytes -> %d bytes", len(objContent[streamDataStart:streamDataEnd]), len(streamContent))
-		}
-	}
-
-	return streamContent, streamObjNum, nil
-}
-
 // DecompressStream attempts to decompress a stream (handles FlateDecode)
 // FlateDecode can be either raw deflate or zlib-wrapped
 func DecompressStream(streamBytes []byte) ([]byte, bool, error) {
@@ -850,70 +168,29 @@ func CompressStream(data []byte) ([]byte, error) {
 
 // ReplaceStreamInPDF replaces a stream in the PDF and updates the length
 func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the stream object
-	streamObjPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, streamObjNum, 0))
-	streamObjMatch := streamObjPattern.FindStringIndex(pdfStr)
-	if streamObjMatch == nil {
-		return nil, fmt.Errorf("stream object %d not found", streamObjNum)
-	}
-
-	// Find stream dictionary (before "stream" keyword)
-	streamKeywordPos := bytes.Index(pdfBytes[streamObjMatch[0]:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
-	}
-
-	dictStart := streamObjMatch[0]
-	dictEnd := streamObjMatch[0] + streamKeywordPos
-
-	// Find and update /Length entry
-	lengthPattern := regexp.MustCompile(`/Length\s+(\d+)`)
-	lengthMatch := lengthPattern.FindStringSubmatchIndex(string(pdfBytes[dictStart:dictEnd]))
-	if lengthMatch == nil {
-		return nil, fmt.Errorf("Length entry not found in stream dictionary")
-	}
-
-	lengthStart := dictStart + lengthMatch[2]
-	lengthEnd := dictStart + lengthMatch[3]
-
-	// Replace length
-	newLength := strconv.Itoa(len(newStream))
-
-	// Find stream start and end (need to recalculate after length update)
-	// Re-find stream position - use bytes.Index since we'll be modifying pdfBytes
-	streamKeywordPos = bytes.Index(pdfBytes[dictStart:], []byte("stream"))
-	if streamKeywordPos == -1 {
-		return nil, fmt.Errorf("stream keyword not found")
+	pdf, err := parse.Open(pdfBytes)
+	if err != nil {
+		return nil, err
 	}
-
-	// Skip "stream" keyword (6 bytes) and any whitespace
-	streamStart := dictStart + streamKeywordPos + 6
-	for streamStart < len(pdfBytes) && (pdfBytes[streamStart] == '\r' || pdfBytes[streamStart] == '\n' || pdfBytes[streamStart] == ' ' || pdfBytes[streamStart] == '\t') {
-		streamStart++
+	object, err := pdf.GetObject(streamObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("stream object %d not found: %w", streamObjNum, err)
 	}
-
-	endstreamPos := bytes.Index(pdfBytes[streamStart:], []byte("endstream"))
-	if endstreamPos == -1 {
-		return nil, fmt.Errorf("endstream not found")
+	dict, oldStream, ok := pdfscan.Stream(object, pdf.GetObject)
+	if !ok {
+		return nil, fmt.Errorf("object %d is not a stream", streamObjNum)
 	}
 
-	streamEnd := streamStart + endstreamPos
-	afterStream := pdfBytes[streamEnd:]
-
-	// Reconstruct PDF: before length + new length + between length and stream + new stream + after stream
-	beforeLength := pdfBytes[:lengthStart]
-	betweenLengthAndStream := pdfBytes[lengthEnd:streamStart]
-
-	result := append(beforeLength, []byte(newLength)...)
-	result = append(result, betweenLengthAndStream...)
-	result = append(result, newStream...)
-	result = append(result, afterStream...)
+	// The stream is given as it is stored, so its filters stay
+	var content bytes.Buffer
+	content.Write(pdfscan.SetDictLength(dict, len(newStream)))
+	content.WriteString("\nstream\n")
+	content.Write(newStream)
+	content.WriteString("\nendstream")
 
 	if verbose {
-		log.Printf("Replaced stream %d: old length %s, new length %d", streamObjNum, string(pdfBytes[lengthStart:lengthEnd]), len(newStream))
+		log.Printf("Replaced stream %d: old length %d, new length %d", streamObjNum, len(oldStream), len(newStream))
 	}
 
-	return result, nil
+	return write.AppendUpdate(pdfBytes, map[int][]byte{streamObjNum: content.Bytes()}, pdf.Encryption())
 }
-- 
2.43.0


From 808828746034242dafec9abec14a8b8df270e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 17/41] fix: XFA translators lose members and depend on map
 order

Nested groups of a data set, choice lists, option texts and labels, patterns,
scripts, rules, length and value limits, page numbers, description and version
of a form; attributes and sections of a configuration; holidays; properties of
data descriptions and negative style values did not survive conversion to XML
and back. Map members are written in order, and names that cannot be XML
elements are refused.
---
 forms/xfa/xfa_config_translator.go     | 141 +++++++++++++++---
 forms/xfa/xfa_connection_translator.go | 121 +---------------
 forms/xfa/xfa_datasets_translator.go   |  19 +--
 forms/xfa/xfa_form_translator.go       | 189 ++++++++++++++++++++-----
 forms/xfa/xfa_locale_translator.go     |  10 +-
 forms/xfa/xfa_stylesheet_translator.go |  45 +++---
 forms/xfa/xfa_utils.go                 |  46 ++++++
 7 files changed, 363 insertions(+), 208 deletions(-)

diff --git a/forms/xfa/xfa_config_translator.go b/forms/xfa/xfa_config_translator.go
index 955022a..0e5eabf 100644
--- a/forms/xfa/xfa_config_translator.go
+++ b/forms/xfa/xfa_config_translator.go
@@ -57,6 +57,11 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Validate == nil {
 					config.Validate = &types.XFAConfigValidate{}
 				}
+				parseStringAttributes(se, map[string]*string{
+					"scriptTest": &config.Validate.ScriptTest,
+					"nullTest":   &config.Validate.NullTest,
+					"formatTest": &config.Validate.FormatTest,
+				})
 			case "submit":
 				currentSection = "submit"
 				if config.Submit == nil {
@@ -82,20 +87,42 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 				if config.Common == nil {
 					config.Common = &types.XFAConfigCommon{}
 				}
+				parseStringAttributes(se, map[string]*string{
+					"dataPrefix": &config.Common.DataPrefix,
+					"timeStamp":  &config.Common.TimeStamp,
+				})
 			case "output":
 				currentSection = "output"
 				if config.Output == nil {
 					config.Output = &types.XFAConfigOutput{}
 				}
+				parseStringAttributes(se, map[string]*string{
+					"format":      &config.Output.Format,
+					"destination": &config.Output.Destination,
+				})
 			case "script":
 				if currentSection == "present" {
 					if config.Present.Script == nil {
 						config.Present.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Present.Script)
 				} else {
 					if config.Script == nil {
 						config.Script = &types.XFAConfigScript{}
 					}
+					parseScriptAttributes(se, config.Script)
+				}
+			case "trace":
+				if config.Trace == nil {
+					config.Trace = &types.XFAConfigTrace{}
+				}
+				for _, attr := range se.Attr {
+					switch attr.Name.Local {
+					case "enabled":
+						config.Trace.Enabled = parseBool(attr.Value)
+					case "level":
+						config.Trace.Level = attr.Value
+					}
 				}
 			case "pdf":
 				if currentSection == "present" && config.Present != nil {
@@ -109,12 +136,17 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					if config.Present.XDP == nil {
 						config.Present.XDP = &types.XFAConfigXDP{}
 					}
+					parseStringAttributes(se, map[string]*string{"version": &config.Present.XDP.Version})
 				}
 			case "print":
 				if currentSection == "present" && config.Present != nil {
 					if config.Present.Print == nil {
 						config.Present.Print = &types.XFAConfigPrint{}
 					}
+					parseStringAttributes(se, map[string]*string{
+						"printerName": &config.Present.Print.PrinterName,
+						"printerCap":  &config.Present.Print.PrinterCap,
+					})
 				}
 			case "interactive":
 				if currentSection == "present" && config.Present != nil {
@@ -123,10 +155,8 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 					}
 					parseInteractiveAttributes(se, config.Present.Interactive)
 				}
-			default:
-				// Store as property
-				currentValue.Reset()
 			}
+			currentValue.Reset()
 
 		case xml.EndElement:
 			localName := se.Name.Local
@@ -134,9 +164,11 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 			switch localName {
 			case "present", "validate", "submit", "destination", "acrobat", "common", "output":
 				currentSection = ""
+			case "config":
+				// Root element
 			default:
 				value := strings.TrimSpace(currentValue.String())
-				if value != "" && currentSection != "" {
+				if value != "" {
 					// Store property
 					if config.Properties == nil {
 						config.Properties = make(map[string]interface{})
@@ -158,6 +190,22 @@ func ParseXFAConfig(xfaConfigXML string, verbose bool) (*types.XFAConfig, error)
 	return config, nil
 }
 
+// parseStringAttributes stores the attributes of an element by name
+func parseStringAttributes(se xml.StartElement, into map[string]*string) {
+	for _, attr := range se.Attr {
+		if value := into[attr.Name.Local]; value != nil {
+			*value = attr.Value
+		}
+	}
+}
+
+func parseScriptAttributes(se xml.StartElement, script *types.XFAConfigScript) {
+	parseStringAttributes(se, map[string]*string{
+		"contentType": &script.ContentType,
+		"runAt":       &script.RunAt,
+	})
+}
+
 func parsePresentAttributes(se xml.StartElement, present *types.XFAConfigPresent) {
 	for _, attr := range se.Attr {
 		switch attr.Name.Local {
@@ -322,22 +370,25 @@ func ConfigToXFA(config *types.XFAConfig, verbose bool) (string, error) {
 		}
 	}
 
-	// Encode additional properties
-	if config.Properties != nil {
-		for key, value := range config.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return "", err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return "", err
-			}
+	// Encode script section
+	if config.Script != nil {
+		if err := encodeConfigScript(enc, config.Script); err != nil {
+			return "", fmt.Errorf("failed to encode script: %v", err)
+		}
+	}
+
+	// Encode trace section
+	if config.Trace != nil {
+		if err := encodeConfigTrace(enc, config.Trace); err != nil {
+			return "", fmt.Errorf("failed to encode trace: %v", err)
 		}
 	}
 
+	// Encode additional properties
+	if err := encodeProperties(enc, config.Properties); err != nil {
+		return "", fmt.Errorf("failed to encode properties: %v", err)
+	}
+
 	// End config element
 	if err := enc.EncodeToken(configStart.End()); err != nil {
 		return "", fmt.Errorf("failed to encode config end: %v", err)
@@ -376,6 +427,26 @@ func encodeConfigPresent(enc *xml.Encoder, present *types.XFAConfigPresent) erro
 		}
 	}
 
+	if present.XDP != nil {
+		if err := encodeAttributes(enc, "xdp", "version", present.XDP.Version); err != nil {
+			return err
+		}
+	}
+
+	if present.Print != nil {
+		if err := encodeAttributes(enc, "print",
+			"printerName", present.Print.PrinterName,
+			"printerCap", present.Print.PrinterCap); err != nil {
+			return err
+		}
+	}
+
+	if present.Script != nil {
+		if err := encodeConfigScript(enc, present.Script); err != nil {
+			return err
+		}
+	}
+
 	if present.Interactive != nil {
 		if err := encodeConfigInteractive(enc, present.Interactive); err != nil {
 			return err
@@ -428,7 +499,7 @@ func encodeConfigPDF(enc *xml.Encoder, pdf *types.XFAConfigPDF) error {
 func encodeConfigInteractive(enc *xml.Encoder, interactive *types.XFAConfigInteractive) error {
 	interactiveStart := xml.StartElement{Name: xml.Name{Local: "interactive"}}
 	attrs := []xml.Attr{}
-	if interactive.CurrentPage > 0 {
+	if interactive.CurrentPage != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "currentPage"}, Value: strconv.Itoa(interactive.CurrentPage)})
 	}
 	if interactive.Zoom != "" {
@@ -494,6 +565,12 @@ func encodeConfigSubmit(enc *xml.Encoder, submit *types.XFAConfigSubmit) error {
 	if submit.TextEncoding != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "textEncoding"}, Value: submit.TextEncoding})
 	}
+	for _, key := range sortedKeys(submit.Properties) {
+		if err := checkElementName(key); err != nil {
+			return err
+		}
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: key}, Value: submit.Properties[key]})
+	}
 	submitStart.Attr = attrs
 
 	if err := enc.EncodeToken(submitStart); err != nil {
@@ -533,7 +610,7 @@ func encodeConfigAcrobat(enc *xml.Encoder, acrobat *types.XFAConfigAcrobat) erro
 	if acrobat.AutoSave {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSave"}, Value: "1"})
 	}
-	if acrobat.AutoSaveTime > 0 {
+	if acrobat.AutoSaveTime != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "autoSaveTime"}, Value: strconv.Itoa(acrobat.AutoSaveTime)})
 	}
 	if acrobat.FormType != "" {
@@ -595,3 +672,29 @@ func encodeConfigOutput(enc *xml.Encoder, output *types.XFAConfigOutput) error {
 
 	return nil
 }
+
+func encodeConfigScript(enc *xml.Encoder, script *types.XFAConfigScript) error {
+	return encodeAttributes(enc, "script", "contentType", script.ContentType, "runAt", script.RunAt)
+}
+
+func encodeConfigTrace(enc *xml.Encoder, trace *types.XFAConfigTrace) error {
+	enabled := ""
+	if trace.Enabled {
+		enabled = "1"
+	}
+	return encodeAttributes(enc, "trace", "enabled", enabled, "level", trace.Level)
+}
+
+// encodeAttributes encodes an element with the given attributes, leaving out empty ones
+func encodeAttributes(enc *xml.Encoder, name string, attrs ...string) error {
+	start := xml.StartElement{Name: xml.Name{Local: name}}
+	for i := 0; i+1 < len(attrs); i += 2 {
+		if attrs[i+1] != "" {
+			start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: attrs[i]}, Value: attrs[i+1]})
+		}
+	}
+	if err := enc.EncodeToken(start); err != nil {
+		return err
+	}
+	return enc.EncodeToken(start.End())
+}
diff --git a/forms/xfa/xfa_connection_translator.go b/forms/xfa/xfa_connection_translator.go
index 4d2bea0..5b41e7c 100644
--- a/forms/xfa/xfa_connection_translator.go
+++ b/forms/xfa/xfa_connection_translator.go
@@ -77,38 +77,6 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 						}
 					}
 				}
-			case "uri", "url":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "operation":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "user":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "password":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "dsn":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
-			case "query":
-				if currentConnection != nil {
-					currentValue.Reset()
-				}
 			default:
 				if currentConnection != nil {
 					currentValue.Reset()
@@ -129,62 +97,6 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				currentConnection = nil
 			case "dataDescription":
 				inDataDescription = false
-			case "uri", "url":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["uri"] = value
-					}
-				}
-			case "wsdl":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["wsdl"] = value
-					}
-				}
-			case "operation":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["operation"] = value
-					}
-				}
-			case "soapAction":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["soapAction"] = value
-					}
-				}
-			case "user":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["user"] = value
-					}
-				}
-			case "password":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["password"] = value
-					}
-				}
-			case "dsn":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["dsn"] = value
-					}
-				}
-			case "query":
-				if currentConnection != nil {
-					value := strings.TrimSpace(currentValue.String())
-					if value != "" {
-						currentConnection.Properties["query"] = value
-					}
-				}
 			default:
 				if inDataDescription && currentConnection != nil && currentConnection.DataDescription != nil {
 					value := strings.TrimSpace(currentValue.String())
@@ -194,6 +106,9 @@ func ParseXFAConnectionSet(xfaConnectionSetXML string, verbose bool) (*types.XFA
 				} else if currentConnection != nil {
 					value := strings.TrimSpace(currentValue.String())
 					if value != "" {
+						if localName == "url" {
+							localName = "uri"
+						}
 						currentConnection.Properties[localName] = value
 					}
 				}
@@ -275,19 +190,8 @@ func encodeConnection(enc *xml.Encoder, connection types.XFAConnection) error {
 	}
 
 	// Encode properties
-	if connection.Properties != nil {
-		for key, value := range connection.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, connection.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(connectionStart.End()); err != nil {
@@ -316,19 +220,8 @@ func encodeDataDescription(enc *xml.Encoder, desc *types.XFADataDescription) err
 	}
 
 	// Encode properties
-	if desc.Properties != nil {
-		for key, value := range desc.Properties {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
-		}
+	if err := encodeProperties(enc, desc.Properties); err != nil {
+		return err
 	}
 
 	if err := enc.EncodeToken(descStart.End()); err != nil {
diff --git a/forms/xfa/xfa_datasets_translator.go b/forms/xfa/xfa_datasets_translator.go
index 473a443..02f228f 100644
--- a/forms/xfa/xfa_datasets_translator.go
+++ b/forms/xfa/xfa_datasets_translator.go
@@ -31,7 +31,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 	var inData bool
 	var inField bool
 	var inValue bool
-	var inGroup bool
 	var groupStack []*types.XFAFieldGroup
 
 	for {
@@ -69,7 +68,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 			default:
 				// Treat unknown elements as groups if they're not standard XFA elements
 				if inData && !isStandardXFAElement(localName) {
-					inGroup = true
 					group := &types.XFAFieldGroup{
 						Name:   localName,
 						Fields: make(map[string]interface{}),
@@ -111,7 +109,7 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 				inValue = false
 			default:
 				// End of group
-				if inGroup && currentGroup != nil && localName == currentGroup.Name {
+				if currentGroup != nil && localName == currentGroup.Name {
 					if len(groupStack) > 0 {
 						// Add to parent group
 						parent := groupStack[len(groupStack)-1]
@@ -123,7 +121,6 @@ func ParseXFADatasets(xfaDatasetsXML string, verbose bool) (*types.XFADatasets,
 						datasets.Groups = append(datasets.Groups, *currentGroup)
 						currentGroup = nil
 					}
-					inGroup = false
 				}
 			}
 
@@ -186,8 +183,8 @@ func DatasetsToXFA(datasets *types.XFADatasets, verbose bool) (string, error) {
 	}
 
 	// Encode top-level fields
-	for name, value := range datasets.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedKeys(datasets.Fields) {
+		if err := encodeField(enc, name, datasets.Fields[name]); err != nil {
 			return "", fmt.Errorf("failed to encode field %s: %v", name, err)
 		}
 	}
@@ -253,14 +250,20 @@ func encodeField(enc *xml.Encoder, name string, value interface{}) error {
 
 // encodeFieldGroup encodes a field group as XFA XML
 func encodeFieldGroup(enc *xml.Encoder, group types.XFAFieldGroup) error {
+	if err := checkElementName(group.Name); err != nil {
+		return err
+	}
+	if isStandardXFAElement(group.Name) {
+		return fmt.Errorf("group name %q is an XFA element's", group.Name)
+	}
 	groupStart := xml.StartElement{Name: xml.Name{Local: group.Name}}
 	if err := enc.EncodeToken(groupStart); err != nil {
 		return err
 	}
 
 	// Encode fields in group
-	for name, value := range group.Fields {
-		if err := encodeField(enc, name, value); err != nil {
+	for _, name := range sortedKeys(group.Fields) {
+		if err := encodeField(enc, name, group.Fields[name]); err != nil {
 			return err
 		}
 	}
diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 10499b5..48769b5 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -89,19 +89,42 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 			Value: formSchema.Metadata.Title,
 		})
 	}
+	if formSchema.Metadata.Description != "" {
+		templateStart.Attr = append(templateStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "description"},
+			Value: formSchema.Metadata.Description,
+		})
+	}
+	if formSchema.Metadata.Version != "" {
+		templateStart.Attr = append(templateStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "version"},
+			Value: formSchema.Metadata.Version,
+		})
+	}
 	if err := enc.EncodeToken(templateStart); err != nil {
 		return "", fmt.Errorf("failed to encode template start: %v", err)
 	}
 
-	// Convert questions to fields
+	// Convert questions to fields, each with the events of the rules it is the source of
+	encoded := make([]bool, len(formSchema.Rules))
 	for _, question := range formSchema.Questions {
-		if err := encodeQuestionAsField(enc, question); err != nil {
+		var rules []types.Rule
+		for i, rule := range formSchema.Rules {
+			if !encoded[i] && rule.Source != "" && (rule.Source == question.Name || rule.Source == question.ID) {
+				encoded[i] = true
+				rules = append(rules, rule)
+			}
+		}
+		if err := encodeQuestionAsField(enc, question, rules); err != nil {
 			return "", fmt.Errorf("failed to encode question %s: %v", question.ID, err)
 		}
 	}
 
-	// Convert rules to events/scripts
-	for _, rule := range formSchema.Rules {
+	// Convert the remaining rules to events/scripts
+	for i, rule := range formSchema.Rules {
+		if encoded[i] {
+			continue
+		}
 		if err := encodeRuleAsEvent(enc, rule); err != nil {
 			if verbose {
 				log.Printf("Warning: Failed to encode rule %s: %v", rule.ID, err)
@@ -127,7 +150,7 @@ func FormToXFA(formSchema *types.FormSchema, verbose bool) (string, error) {
 }
 
 // encodeQuestionAsField encodes a Question as an XFA field element
-func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
+func encodeQuestionAsField(enc *xml.Encoder, question types.Question, rules []types.Rule) error {
 	fieldStart := xml.StartElement{
 		Name: xml.Name{Local: "field"},
 		Attr: []xml.Attr{
@@ -169,7 +192,8 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add layout properties
 	if question.Properties != nil {
-		for key, val := range question.Properties {
+		for _, key := range sortedKeys(question.Properties) {
+			val := question.Properties[key]
 			if key == "x" || key == "y" || key == "w" || key == "h" {
 				fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
 					Name:  xml.Name{Local: key},
@@ -177,12 +201,16 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 				})
 			}
 		}
-		if pageNum, ok := question.Properties["page_number"].(int); ok && pageNum > 0 {
-			fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
-				Name:  xml.Name{Local: "page"},
-				Value: strconv.Itoa(pageNum),
-			})
-		}
+	}
+	pageNum := question.PageNumber
+	if pageNum <= 0 {
+		pageNum, _ = question.Properties["page_number"].(int)
+	}
+	if pageNum > 0 {
+		fieldStart.Attr = append(fieldStart.Attr, xml.Attr{
+			Name:  xml.Name{Local: "page"},
+			Value: strconv.Itoa(pageNum),
+		})
 	}
 
 	if err := enc.EncodeToken(fieldStart); err != nil {
@@ -234,23 +262,18 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 
 	// Add options for choice types
 	if len(question.Options) > 0 {
-		itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}}
-		if err := enc.EncodeToken(itemsStart); err != nil {
-			return err
-		}
+		labelled := false
 		for _, opt := range question.Options {
-			textStart := xml.StartElement{Name: xml.Name{Local: "text"}}
-			if err := enc.EncodeToken(textStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(opt.Value)); err != nil {
-				return err
+			if opt.Label != "" && opt.Label != opt.Value {
+				labelled = true
 			}
-			if err := enc.EncodeToken(textStart.End()); err != nil {
+		}
+		if labelled {
+			if err := encodeItems(enc, question.Options, false); err != nil {
 				return err
 			}
 		}
-		if err := enc.EncodeToken(itemsStart.End()); err != nil {
+		if err := encodeItems(enc, question.Options, true); err != nil {
 			return err
 		}
 	}
@@ -262,6 +285,13 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 		}
 	}
 
+	// Add events
+	for _, rule := range rules {
+		if err := encodeRuleAsEvent(enc, rule); err != nil {
+			return err
+		}
+	}
+
 	// End field
 	if err := enc.EncodeToken(fieldStart.End()); err != nil {
 		return err
@@ -270,6 +300,28 @@ func encodeQuestionAsField(enc *xml.Encoder, question types.Question) error {
 	return nil
 }
 
+// encodeItems encodes the values of options, which a form saves, or the labels
+// it displays instead of them
+func encodeItems(enc *xml.Encoder, options []types.Option, values bool) error {
+	itemsStart := xml.StartElement{Name: xml.Name{Local: "items"}}
+	if values {
+		itemsStart.Attr = []xml.Attr{{Name: xml.Name{Local: "save"}, Value: "1"}}
+	}
+	if err := enc.EncodeToken(itemsStart); err != nil {
+		return err
+	}
+	for _, opt := range options {
+		text := opt.Value
+		if !values && opt.Label != "" {
+			text = opt.Label
+		}
+		if err := encodeTextElement(enc, "text", text); err != nil {
+			return err
+		}
+	}
+	return enc.EncodeToken(itemsStart.End())
+}
+
 // encodeValidation encodes validation rules as XFA validation elements
 func encodeValidation(enc *xml.Encoder, validation *types.ValidationRules) error {
 	validateStart := xml.StartElement{Name: xml.Name{Local: "validate"}}
@@ -294,6 +346,19 @@ func encodeValidation(enc *xml.Encoder, validation *types.ValidationRules) error
 		})
 	}
 
+	if validation.MinLength != nil {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "minLength"}, Value: strconv.Itoa(*validation.MinLength)})
+	}
+	if validation.MaxLength != nil {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "maxLength"}, Value: strconv.Itoa(*validation.MaxLength)})
+	}
+	if validation.MinValue != nil {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "minValue"}, Value: strconv.FormatFloat(*validation.MinValue, 'f', -1, 64)})
+	}
+	if validation.MaxValue != nil {
+		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "maxValue"}, Value: strconv.FormatFloat(*validation.MaxValue, 'f', -1, 64)})
+	}
+
 	validateStart.Attr = attrs
 	if err := enc.EncodeToken(validateStart); err != nil {
 		return err
@@ -479,6 +544,7 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 
 	var currentField *XFAFieldData
 	var currentSubform *XFASubformData
+	var outerSubforms []*XFASubformData
 	var currentValue strings.Builder
 	var currentLabel strings.Builder
 	var currentDescription strings.Builder
@@ -487,7 +553,11 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 	var inValue bool
 	var inLabel bool
 	var inDescription bool
-	var inItems bool // For choice options
+	var inItems bool    // For choice options
+	var savedItems bool // The options' values, following their labels
+	var itemIndex int
+	var inText bool // Option text, script or pattern
+	var currentText strings.Builder
 	var fieldIndex int
 
 	for {
@@ -515,9 +585,16 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					switch attr.Name.Local {
 					case "title":
 						structure.Title = attr.Value
+					case "description":
+						structure.Description = attr.Value
+					case "version":
+						structure.Version = attr.Value
 					}
 				}
 			case "subform":
+				if currentSubform != nil {
+					outerSubforms = append(outerSubforms, currentSubform)
+				}
 				inSubform = true
 				currentSubform = &XFASubformData{
 					Fields: make([]XFAFieldData, 0),
@@ -584,11 +661,19 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "items":
 				if inField {
 					inItems = true
+					itemIndex = 0
+					savedItems = false
+					for _, attr := range se.Attr {
+						if attr.Name.Local == "save" {
+							savedItems = parseBool(attr.Value) && len(currentField.Options) > 0
+						}
+					}
 				}
 			case "text":
 				// Option text in items
 				if inItems && inField {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "event":
 				if inField {
@@ -606,7 +691,8 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Script content will be in CharData
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "validate":
 				if inField {
@@ -619,12 +705,29 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 							currentField.Validation.Script = attr.Value
 						case "messageText":
 							currentField.Validation.ErrorMessage = attr.Value
+						case "minLength":
+							if val, err := strconv.Atoi(attr.Value); err == nil {
+								currentField.Validation.MinLength = &val
+							}
+						case "maxLength":
+							if val, err := strconv.Atoi(attr.Value); err == nil {
+								currentField.Validation.MaxLength = &val
+							}
+						case "minValue":
+							if val, err := parseFloat(attr.Value); err == nil {
+								currentField.Validation.MinValue = &val
+							}
+						case "maxValue":
+							if val, err := parseFloat(attr.Value); err == nil {
+								currentField.Validation.MaxValue = &val
+							}
 						}
 					}
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentValue.Reset()
+					inText = true
+					currentText.Reset()
 				}
 			case "bind":
 				if inField {
@@ -667,6 +770,7 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 					}
 				}
 				inField = false
+				inText = false
 				currentField = nil
 				currentValue.Reset()
 				currentLabel.Reset()
@@ -679,6 +783,11 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				}
 				inSubform = false
 				currentSubform = nil
+				if n := len(outerSubforms); n > 0 {
+					inSubform = true
+					currentSubform = outerSubforms[n-1]
+					outerSubforms = outerSubforms[:n-1]
+				}
 			case "value":
 				if inField && currentField != nil {
 					val := strings.TrimSpace(currentValue.String())
@@ -706,26 +815,36 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 				if inItems && inField && currentField != nil {
 					// This is an option value
 					option := XFAOption{
-						Value: strings.TrimSpace(currentValue.String()),
-						Label: strings.TrimSpace(currentValue.String()),
+						Value: strings.TrimSpace(currentText.String()),
+						Label: strings.TrimSpace(currentText.String()),
+					}
+					if savedItems && itemIndex < len(currentField.Options) {
+						currentField.Options[itemIndex].Value = option.Value
+					} else {
+						currentField.Options = append(currentField.Options, option)
 					}
-					currentField.Options = append(currentField.Options, option)
+					itemIndex++
+					inText = false
 				}
 			case "script":
 				if inField && len(currentField.Events) > 0 {
 					// Add script to last event
 					lastEvent := &currentField.Events[len(currentField.Events)-1]
-					lastEvent.Script = strings.TrimSpace(currentValue.String())
+					lastEvent.Script = strings.TrimSpace(currentText.String())
+					inText = false
 				}
 			case "pattern":
 				if inField && currentField.Validation != nil {
-					currentField.Validation.Pattern = strings.TrimSpace(currentValue.String())
+					currentField.Validation.Pattern = strings.TrimSpace(currentText.String())
+					inText = false
 				}
 			}
 
 		case xml.CharData:
 			data := string(se)
-			if inValue && inField {
+			if inText && inField {
+				currentText.WriteString(data)
+			} else if inValue && inField {
 				currentValue.WriteString(data)
 			} else if inLabel && inField {
 				currentLabel.WriteString(data)
@@ -799,7 +918,7 @@ func mapXFATypeToResponseTypeEnum(xfaType string) types.ResponseType {
 		return types.ResponseTypeRadio
 	case "checkbox", "checkbutton":
 		return types.ResponseTypeCheckbox
-	case "select", "choice", "dropdown", "listbox":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return types.ResponseTypeSelect
 	case "numeric", "decimal", "integer", "float":
 		return types.ResponseTypeNumber
diff --git a/forms/xfa/xfa_locale_translator.go b/forms/xfa/xfa_locale_translator.go
index d90a3f7..f5e5a34 100644
--- a/forms/xfa/xfa_locale_translator.go
+++ b/forms/xfa/xfa_locale_translator.go
@@ -145,11 +145,7 @@ func ParseXFALocaleSet(xfaLocaleSetXML string, verbose bool) (*types.XFALocaleSe
 			}
 
 		case xml.CharData:
-			if currentSection == "calendar" && strings.Contains(string(se), "holiday") {
-				// Holiday content
-			} else {
-				currentValue.WriteString(string(se))
-			}
+			currentValue.WriteString(string(se))
 		}
 	}
 
@@ -392,7 +388,7 @@ func encodeCurrency(enc *xml.Encoder, currency *types.XFACurrency) error {
 	if currency.Name != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "name"}, Value: currency.Name})
 	}
-	if currency.Precision > 0 {
+	if currency.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(currency.Precision)})
 	}
 	currencyStart.Attr = attrs
@@ -464,7 +460,7 @@ func encodeNumberPattern(enc *xml.Encoder, pattern *types.XFANumberPattern) erro
 	if pattern.Decimal != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "decimal"}, Value: pattern.Decimal})
 	}
-	if pattern.Precision > 0 {
+	if pattern.Precision != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "precision"}, Value: strconv.Itoa(pattern.Precision)})
 	}
 	patternStart.Attr = attrs
diff --git a/forms/xfa/xfa_stylesheet_translator.go b/forms/xfa/xfa_stylesheet_translator.go
index fcc2517..29bea63 100644
--- a/forms/xfa/xfa_stylesheet_translator.go
+++ b/forms/xfa/xfa_stylesheet_translator.go
@@ -382,20 +382,15 @@ func encodeStyle(enc *xml.Encoder, style types.XFAStyle) error {
 	}
 
 	// Encode other properties
+	other := make(map[string]interface{})
 	for key, value := range style.Properties {
 		if key != "font" && key != "border" && key != "margin" && key != "padding" && key != "position" && key != "size" {
-			elemStart := xml.StartElement{Name: xml.Name{Local: key}}
-			if err := enc.EncodeToken(elemStart); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(xml.CharData(fmt.Sprintf("%v", value))); err != nil {
-				return err
-			}
-			if err := enc.EncodeToken(elemStart.End()); err != nil {
-				return err
-			}
+			other[key] = value
 		}
 	}
+	if err := encodeProperties(enc, other); err != nil {
+		return err
+	}
 
 	if err := enc.EncodeToken(styleStart.End()); err != nil {
 		return err
@@ -410,7 +405,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 	if font.Family != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "family"}, Value: font.Family})
 	}
-	if font.Size > 0 {
+	if font.Size != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "size"}, Value: strconv.FormatFloat(font.Size, 'f', -1, 64)})
 	}
 	if font.Weight != "" {
@@ -440,7 +435,7 @@ func encodeStyleFont(enc *xml.Encoder, font *types.XFAStyleFont) error {
 func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	borderStart := xml.StartElement{Name: xml.Name{Local: "border"}}
 	attrs := []xml.Attr{}
-	if border.Width > 0 {
+	if border.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(border.Width, 'f', -1, 64)})
 	}
 	if border.Style != "" {
@@ -449,7 +444,7 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 	if border.Color != "" {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "color"}, Value: border.Color})
 	}
-	if border.Radius > 0 {
+	if border.Radius != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "radius"}, Value: strconv.FormatFloat(border.Radius, 'f', -1, 64)})
 	}
 	borderStart.Attr = attrs
@@ -467,16 +462,16 @@ func encodeStyleBorder(enc *xml.Encoder, border *types.XFAStyleBorder) error {
 func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 	marginStart := xml.StartElement{Name: xml.Name{Local: "margin"}}
 	attrs := []xml.Attr{}
-	if margin.Top > 0 {
+	if margin.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(margin.Top, 'f', -1, 64)})
 	}
-	if margin.Right > 0 {
+	if margin.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(margin.Right, 'f', -1, 64)})
 	}
-	if margin.Bottom > 0 {
+	if margin.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(margin.Bottom, 'f', -1, 64)})
 	}
-	if margin.Left > 0 {
+	if margin.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(margin.Left, 'f', -1, 64)})
 	}
 	marginStart.Attr = attrs
@@ -494,16 +489,16 @@ func encodeMargin(enc *xml.Encoder, margin *types.XFAMargin) error {
 func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 	paddingStart := xml.StartElement{Name: xml.Name{Local: "padding"}}
 	attrs := []xml.Attr{}
-	if padding.Top > 0 {
+	if padding.Top != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "top"}, Value: strconv.FormatFloat(padding.Top, 'f', -1, 64)})
 	}
-	if padding.Right > 0 {
+	if padding.Right != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "right"}, Value: strconv.FormatFloat(padding.Right, 'f', -1, 64)})
 	}
-	if padding.Bottom > 0 {
+	if padding.Bottom != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "bottom"}, Value: strconv.FormatFloat(padding.Bottom, 'f', -1, 64)})
 	}
-	if padding.Left > 0 {
+	if padding.Left != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "left"}, Value: strconv.FormatFloat(padding.Left, 'f', -1, 64)})
 	}
 	paddingStart.Attr = attrs
@@ -521,10 +516,10 @@ func encodePadding(enc *xml.Encoder, padding *types.XFAPadding) error {
 func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 	positionStart := xml.StartElement{Name: xml.Name{Local: "position"}}
 	attrs := []xml.Attr{}
-	if position.X > 0 {
+	if position.X != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "x"}, Value: strconv.FormatFloat(position.X, 'f', -1, 64)})
 	}
-	if position.Y > 0 {
+	if position.Y != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "y"}, Value: strconv.FormatFloat(position.Y, 'f', -1, 64)})
 	}
 	positionStart.Attr = attrs
@@ -542,10 +537,10 @@ func encodePosition(enc *xml.Encoder, position *types.XFAPosition) error {
 func encodeSize(enc *xml.Encoder, size *types.XFASize) error {
 	sizeStart := xml.StartElement{Name: xml.Name{Local: "size"}}
 	attrs := []xml.Attr{}
-	if size.Width > 0 {
+	if size.Width != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "width"}, Value: strconv.FormatFloat(size.Width, 'f', -1, 64)})
 	}
-	if size.Height > 0 {
+	if size.Height != 0 {
 		attrs = append(attrs, xml.Attr{Name: xml.Name{Local: "height"}, Value: strconv.FormatFloat(size.Height, 'f', -1, 64)})
 	}
 	sizeStart.Attr = attrs
diff --git a/forms/xfa/xfa_utils.go b/forms/xfa/xfa_utils.go
index 2890a54..0dbdfe5 100644
--- a/forms/xfa/xfa_utils.go
+++ b/forms/xfa/xfa_utils.go
@@ -4,9 +4,12 @@ import (
 	"bytes"
 	"compress/flate"
 	"compress/zlib"
+	"encoding/xml"
 	"fmt"
 	"io"
 	"log"
+	"sort"
+	"unicode"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/core/parse"
@@ -194,3 +197,46 @@ func ReplaceStreamInPDF(pdfBytes []byte, streamObjNum int, newStream []byte, ver
 
 	return write.AppendUpdate(pdfBytes, map[int][]byte{streamObjNum: content.Bytes()}, pdf.Encryption())
 }
+
+// sortedKeys returns the keys of m in order, so that generated XML does not
+// depend on map iteration order.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
+// checkElementName reports names that cannot be an XML element's.
+func checkElementName(name string) error {
+	for i, r := range name {
+		if r == '_' || unicode.IsLetter(r) || i > 0 && (r == '-' || r == '.' || unicode.IsDigit(r)) {
+			continue
+		}
+		return fmt.Errorf("%q is not an XML element name", name)
+	}
+	if name == "" {
+		return fmt.Errorf("empty XML element name")
+	}
+	return nil
+}
+
+// encodeTextElement encodes an element that has only text.
+func encodeTextElement(enc *xml.Encoder, name, text string) error {
+	if err := checkElementName(name); err != nil {
+		return err
+	}
+	return enc.EncodeElement(xml.CharData(text), xml.StartElement{Name: xml.Name{Local: name}})
+}
+
+// encodeProperties encodes properties as elements, in the order of their names.
+func encodeProperties(enc *xml.Encoder, properties map[string]interface{}) error {
+	for _, key := range sortedKeys(properties) {
+		if err := encodeTextElement(enc, key, fmt.Sprintf("%v", properties[key])); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 7396fa722eb67d1ae66c51c0240552c166907c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 18/41] fix: embed fonts so that shown text maps to the right
 glyphs

---
 resources/font/font.go | 205 +++++++++++++-----------
 resources/font/pdf.go  | 342 ++++++++++++++++++++++++-----------------
 2 files changed, 320 insertions(+), 227 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..ced5713 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"sort"
 	"unicode"
+	"unicode/utf16"
 )
 
 // Font represents an embedded font with subsetting support
@@ -56,7 +57,7 @@ func NewFont(name string, data []byte) (*Font, error) {
 
 	// Check TTF signature
 	signature := binary.BigEndian.Uint32(data[0:4])
-	if signature != 0x00010000 && signature != 0x4F54544F { // TTF or OTF
+	if signature != 0x00010000 && signature != 0x74727565 && signature != 0x4F54544F { // TTF or OTF
 		return nil, fmt.Errorf("unsupported font format (expected TTF or OTF)")
 	}
 
@@ -81,7 +82,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 
 	// Read SFNT header
 	signature := binary.BigEndian.Uint32(data[0:4])
-	if signature != 0x00010000 && signature != 0x4F54544F {
+	if signature != 0x00010000 && signature != 0x74727565 && signature != 0x4F54544F {
 		return nil, fmt.Errorf("unsupported font format")
 	}
 
@@ -205,21 +206,17 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
+			// UTF-16BE on both platforms
 			var nameStr string
-			if platformID == 3 {
-				// UTF-16BE
-				if len(nameData)%2 == 0 {
-					runes := make([]rune, 0, len(nameData)/2)
-					for j := 0; j < len(nameData); j += 2 {
-						runes = append(runes, rune(binary.BigEndian.Uint16(nameData[j:j+2])))
-					}
-					nameStr = string(runes)
+			if len(nameData)%2 == 0 {
+				units := make([]uint16, 0, len(nameData)/2)
+				for j := 0; j < len(nameData); j += 2 {
+					units = append(units, binary.BigEndian.Uint16(nameData[j:j+2]))
 				}
-			} else {
-				// ASCII
-				nameStr = string(nameData)
+				nameStr = string(utf16.Decode(units))
 			}
 
 			switch nameID {
@@ -269,9 +266,10 @@ func (ttf *TTF) parsePost() error {
 	ttf.IsFixedPitch = binary.BigEndian.Uint32(post.Data[12:16]) != 0
 
 	// Try to get CapHeight and XHeight from OS/2 table if available
-	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 88 {
-		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[68:70]))
-		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[70:72]))
+	// (they are there since its version 2)
+	if os2, ok := ttf.Tables["OS/2"]; ok && len(os2.Data) >= 90 && binary.BigEndian.Uint16(os2.Data[0:2]) >= 2 {
+		ttf.XHeight = int16(binary.BigEndian.Uint16(os2.Data[86:88]))
+		ttf.CapHeight = int16(binary.BigEndian.Uint16(os2.Data[88:90]))
 	}
 
 	return nil
@@ -291,7 +289,7 @@ func (f *Font) AddRune(r rune) {
 // AddString adds all runes from a string to the subset
 func (f *Font) AddString(s string) {
 	for _, r := range s {
-		if unicode.IsPrint(r) || r == ' ' {
+		if !unicode.IsControl(r) {
 			f.AddRune(r)
 		}
 	}
@@ -305,14 +303,9 @@ func (f *Font) GetSubsetGlyphs() ([]uint16, error) {
 	}
 
 	// Parse cmap to get glyph mappings
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return nil, fmt.Errorf("missing cmap table")
-	}
-
-	glyphMap, err := parseCmap(cmap.Data)
+	glyphMap, err := ttf.glyphMap()
 	if err != nil {
-		return nil, fmt.Errorf("failed to parse cmap: %w", err)
+		return nil, err
 	}
 
 	// Always include glyph 0 (notdef)
@@ -337,6 +330,19 @@ func (f *Font) GetSubsetGlyphs() ([]uint16, error) {
 	return glyphs, nil
 }
 
+// glyphMap returns the Unicode->glyph mapping of the font
+func (ttf *TTF) glyphMap() (map[rune]uint16, error) {
+	cmap, ok := ttf.Tables["cmap"]
+	if !ok {
+		return nil, fmt.Errorf("missing cmap table")
+	}
+	glyphMap, err := parseCmap(cmap.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to parse cmap: %w", err)
+	}
+	return glyphMap, nil
+}
+
 // parseCmap parses the cmap table to create a Unicode->glyph mapping
 func parseCmap(data []byte) (map[rune]uint16, error) {
 	if len(data) < 4 {
@@ -353,8 +359,9 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 
 	glyphMap := make(map[rune]uint16)
 
-	// Find Unicode encoding (platform 3, encoding 1 or 10)
-	var bestTable *Table
+	// Find the best Unicode encoding: of the full repertoire (platform 3,
+	// encoding 10 or platform 0, encoding 4 or 6) or of the BMP
+	best := 0
 	var bestOffset uint32
 
 	for i := 0; i < int(numTables); i++ {
@@ -366,48 +373,34 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 		encodingID := binary.BigEndian.Uint16(data[offset+2 : offset+4])
 		subtableOffset := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 
-		// Prefer platform 3, encoding 1 (Unicode BMP) or 10 (Unicode full)
-		if platformID == 3 && (encodingID == 1 || encodingID == 10) {
-			if bestTable == nil || encodingID == 10 {
-				bestTable = &Table{Offset: subtableOffset}
-				bestOffset = subtableOffset
-			}
+		rank := 0
+		switch {
+		case platformID == 3 && encodingID == 10:
+			rank = 4
+		case platformID == 0 && (encodingID == 4 || encodingID == 6):
+			rank = 3
+		case platformID == 3 && encodingID == 1:
+			rank = 2
+		case platformID == 0 && encodingID != 5: // 5 has variation sequences only
+			rank = 1
+		}
+		if rank > best {
+			best = rank
+			bestOffset = subtableOffset
 		}
 
 		offset += 8
 	}
 
-	if bestTable == nil {
-		// Try platform 0 (Unicode)
-		offset = 4
-		for i := 0; i < int(numTables); i++ {
-			if offset+8 > len(data) {
-				break
-			}
-
-			platformID := binary.BigEndian.Uint16(data[offset : offset+2])
-			_ = binary.BigEndian.Uint16(data[offset+2 : offset+4]) // encodingID
-			subtableOffset := binary.BigEndian.Uint32(data[offset+4 : offset+8])
-
-			if platformID == 0 {
-				bestTable = &Table{Offset: subtableOffset}
-				bestOffset = subtableOffset
-				break
-			}
-
-			offset += 8
-		}
-	}
-
-	if bestTable == nil {
+	if best == 0 {
 		return nil, fmt.Errorf("no Unicode cmap subtable found")
 	}
 
 	// Parse the subtable
-	subtableData := data[bestOffset:]
-	if len(subtableData) < 2 {
+	if int64(bestOffset)+2 > int64(len(data)) {
 		return nil, fmt.Errorf("cmap subtable too short")
 	}
+	subtableData := data[bestOffset:]
 
 	format := binary.BigEndian.Uint16(subtableData[0:2])
 
@@ -415,12 +408,14 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	case 4:
 		// Format 4: Segment mapping to delta values
 		return parseCmapFormat4(subtableData, glyphMap)
-	case 12:
+	case 6, 10:
+		// Formats 6 and 10: Trimmed table or array
+		return parseCmapTrimmed(subtableData, format, glyphMap)
+	case 12, 13:
 		// Format 12: Segmented coverage
-		return parseCmapFormat12(subtableData, glyphMap)
+		return parseCmapFormat12(subtableData, format, glyphMap)
 	default:
-		// Try format 4 as fallback
-		return parseCmapFormat4(subtableData, glyphMap)
+		return nil, fmt.Errorf("unsupported cmap format: %d", format)
 	}
 }
 
@@ -430,16 +425,12 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 		return nil, fmt.Errorf("cmap format 4 too short")
 	}
 
-	length := binary.BigEndian.Uint16(data[2:4])
-	language := binary.BigEndian.Uint16(data[4:6])
 	segCount := binary.BigEndian.Uint16(data[6:8]) / 2
 
-	if len(data) < int(length) {
-		return nil, fmt.Errorf("cmap format 4 length mismatch")
+	if len(data) < 16+int(segCount)*8 {
+		return nil, fmt.Errorf("cmap format 4 too short")
 	}
 
-	_ = language // unused
-
 	endCodeOffset := 14
 	startCodeOffset := endCodeOffset + 2 + int(segCount)*2
 	idDeltaOffset := startCodeOffset + int(segCount)*2
@@ -479,19 +470,39 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	return glyphMap, nil
 }
 
-// parseCmapFormat12 parses cmap format 12 (32-bit coverage)
-func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, error) {
+// parseCmapTrimmed parses cmap formats 6 (16-bit) and 10 (32-bit)
+func parseCmapTrimmed(data []byte, format uint16, glyphMap map[rune]uint16) (map[rune]uint16, error) {
+	var first, count, glyphs int
+	if format == 6 && len(data) >= 10 {
+		first = int(binary.BigEndian.Uint16(data[6:8]))
+		count = int(binary.BigEndian.Uint16(data[8:10]))
+		glyphs = 10
+	} else if format == 10 && len(data) >= 20 {
+		first = int(binary.BigEndian.Uint32(data[12:16]))
+		count = int(binary.BigEndian.Uint32(data[16:20]))
+		glyphs = 20
+	} else {
+		return nil, fmt.Errorf("cmap format %d too short", format)
+	}
+
+	for i := 0; i < count && first+i <= unicode.MaxRune && glyphs+i*2+2 <= len(data); i++ {
+		if glyphID := binary.BigEndian.Uint16(data[glyphs+i*2 : glyphs+i*2+2]); glyphID != 0 {
+			glyphMap[rune(first+i)] = glyphID
+		}
+	}
+
+	return glyphMap, nil
+}
+
+// parseCmapFormat12 parses cmap format 12 (32-bit coverage) and 13 (the same
+// with one glyph for all characters of a group)
+func parseCmapFormat12(data []byte, format uint16, glyphMap map[rune]uint16) (map[rune]uint16, error) {
 	if len(data) < 16 {
 		return nil, fmt.Errorf("cmap format 12 too short")
 	}
 
-	length := binary.BigEndian.Uint32(data[4:8])
 	numGroups := binary.BigEndian.Uint32(data[12:16])
 
-	if len(data) < int(length) {
-		return nil, fmt.Errorf("cmap format 12 length mismatch")
-	}
-
 	offset := 16
 	for i := 0; i < int(numGroups); i++ {
 		if offset+12 > len(data) {
@@ -502,9 +513,17 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
-		for code := startCharCode; code <= endCharCode; code++ {
-			glyphID := uint16(startGlyphID + (code - startCharCode))
-			glyphMap[rune(code)] = glyphID
+		for code := startCharCode; code <= endCharCode && code <= unicode.MaxRune; code++ {
+			glyphID := startGlyphID
+			if format == 12 {
+				glyphID += code - startCharCode
+			}
+			if glyphID > 0xFFFF {
+				break
+			}
+			if glyphID != 0 {
+				glyphMap[rune(code)] = uint16(glyphID)
+			}
 		}
 
 		offset += 12
@@ -534,24 +553,34 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, err
 	}
 
-	// Parse hmtx table for widths
-	hmtx, ok := ttf.Tables["hmtx"]
-	if !ok {
-		return nil, fmt.Errorf("missing hmtx table")
-	}
-
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
-		} else {
-			widths[i] = int(ttf.UnitsPerEm) // Default width
+		if widths[i], err = ttf.advance(gid); err != nil {
+			return nil, err
 		}
 	}
 
 	return widths, nil
 }
 
+// advance returns the advance width of a glyph, in font units
+func (ttf *TTF) advance(gid uint16) (int, error) {
+	hmtx, ok := ttf.Tables["hmtx"]
+	if !ok {
+		return 0, fmt.Errorf("missing hmtx table")
+	}
+
+	// Glyphs after the last one with an advance of its own have that one's
+	index := int(gid)
+	if n := int(binary.BigEndian.Uint16(ttf.Tables["hhea"].Data[34:36])); index >= n {
+		index = n - 1
+	}
+	if index < 0 || index*4+2 > len(hmtx.Data) {
+		return int(ttf.UnitsPerEm), nil // Default width
+	}
+	return int(binary.BigEndian.Uint16(hmtx.Data[index*4 : index*4+2])), nil
+}
+
 // Read reads font data from a reader
 func Read(r io.Reader) ([]byte, error) {
 	var buf bytes.Buffer
diff --git a/resources/font/pdf.go b/resources/font/pdf.go
index 038a41d..8a4c979 100644
--- a/resources/font/pdf.go
+++ b/resources/font/pdf.go
@@ -4,22 +4,73 @@ package font
 import (
 	"bytes"
 	"crypto/md5"
-	"encoding/hex"
+	"encoding/binary"
 	"fmt"
+	"math"
 	"sort"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 )
 
 // FontObjects represents the PDF objects needed for an embedded font
 type FontObjects struct {
 	FontDictNum       int    // Font dictionary object number
+	CIDFontNum        int    // Descendant font dictionary object number
 	FontDescriptorNum int    // FontDescriptor object number
 	FontFileNum       int    // Font file stream object number
+	EncodingNum       int    // Encoding CMap object number
 	ToUnicodeNum      int    // ToUnicode CMap object number (optional)
 	ResourceName      string // Resource name like "F1"
 	SubsetPrefix      string // Subset prefix like "ABCDEF+"
 }
 
-// ToPDFObjects creates PDF objects for an embedded font
+// usedGlyph is a character of the subset and the glyph it is shown with
+type usedGlyph struct {
+	char  rune
+	gid   uint16
+	width int // in thousandths of the font size
+}
+
+// usedGlyphs returns the characters of the subset that the font has, in order
+func (f *Font) usedGlyphs(ttf *TTF) ([]usedGlyph, error) {
+	glyphMap, err := ttf.glyphMap()
+	if err != nil {
+		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
+	}
+
+	var used []usedGlyph
+	seen := make(map[rune]bool)
+	for _, r := range f.Subset {
+		gid, ok := glyphMap[r]
+		if !ok || seen[r] || !utf8.ValidRune(r) {
+			continue
+		}
+		seen[r] = true
+		advance, err := ttf.advance(gid)
+		if err != nil {
+			return nil, fmt.Errorf("failed to get widths: %w", err)
+		}
+		used = append(used, usedGlyph{char: r, gid: gid, width: ttf.scale(advance)})
+	}
+	sort.Slice(used, func(i, j int) bool { return used[i].char < used[j].char })
+
+	return used, nil
+}
+
+// scale converts font units to thousandths of the font size
+func (ttf *TTF) scale(units int) int {
+	if ttf.UnitsPerEm == 0 {
+		return units
+	}
+	return int(math.Round(float64(units) * 1000 / float64(ttf.UnitsPerEm)))
+}
+
+// ToPDFObjects creates PDF objects for an embedded font: a composite font
+// whose character codes are the UTF-8 encodings of the characters, so that
+// content streams show text as it is.
 // Returns the font dictionary, font descriptor, font file stream, and ToUnicode CMap
 func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	ttf, err := ParseTTF(f.Data)
@@ -27,24 +78,27 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 		return nil, fmt.Errorf("failed to parse font: %w", err)
 	}
 
-	// Generate subset prefix from font name hash
-	if f.FontID == "" {
-		hash := md5.Sum([]byte(ttf.FontName))
-		f.FontID = hex.EncodeToString(hash[:6])
-	}
-	subsetPrefix := f.FontID + "+"
-
-	// Get subset glyphs
-	glyphs, err := f.GetSubsetGlyphs()
+	// Get subset glyphs and their widths
+	used, err := f.usedGlyphs(ttf)
 	if err != nil {
-		return nil, fmt.Errorf("failed to get subset glyphs: %w", err)
+		return nil, err
 	}
 
-	// Get widths
-	widths, err := f.GetWidths()
-	if err != nil {
-		return nil, fmt.Errorf("failed to get widths: %w", err)
+	// Generate subset prefix from a hash of the font name and its characters
+	subsetPrefix := f.FontID + "+"
+	if f.FontID == "" {
+		hash := md5.Sum([]byte(ttf.FontName + "\x00" + string(f.Subset)))
+		letters := make([]byte, 6)
+		for i := range letters {
+			letters[i] = 'A' + hash[i]%26
+		}
+		subsetPrefix = string(letters) + "+"
+	}
+	baseFontName := ttf.FontName
+	if baseFontName == "" {
+		baseFontName = f.Name
 	}
+	baseFontName = subsetPrefix + baseFontName
 
 	// Create font file stream (subset font)
 	fontFileData, err := f.CreateSubsetFont()
@@ -55,29 +109,23 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 	// Create font file stream object first
 	fontFileDict := map[string]interface{}{
 		"/Length1": len(fontFileData),
-		"/Length":  len(fontFileData),
+	}
+	if ttf.isCFF() {
+		fontFileDict = map[string]interface{}{"/Subtype": "/OpenType"}
 	}
 	fontFileNum := writer.AddStreamObject(fontFileDict, fontFileData, true)
 
 	// Create FontDescriptor (references fontFileNum)
-	fontDescriptor := f.createFontDescriptor(ttf, fontFileNum)
+	fontDescriptor := f.createFontDescriptor(ttf, baseFontName, fontFileNum)
 	fontDescriptorNum := writer.AddObject(fontDescriptor)
 
-	// Create ToUnicode CMap (as stream object)
-	toUnicodeData := f.createToUnicodeCMapData(glyphs)
-	toUnicodeDict := map[string]interface{}{
-		"/Type":     "/CMap",
-		"/CMapName": "/Adobe-Identity-UCS",
-		"/CIDSystemInfo": map[string]interface{}{
-			"/Registry":   "(Adobe)",
-			"/Ordering":   "(UCS)",
-			"/Supplement": 0,
-		},
-	}
-	toUnicodeNum := writer.AddStreamObject(toUnicodeDict, toUnicodeData, false) // Don't compress CMap
+	// Create the CMaps (as stream objects) from codes to glyphs and to Unicode
+	encodingNum := writer.AddStreamObject(cmapDict("UTF8-Glyphs"), createEncodingCMapData(used), true)
+	toUnicodeNum := writer.AddStreamObject(cmapDict("UTF8-Unicode"), createToUnicodeCMapData(used), true)
 
-	// Create Font dictionary (references fontDescriptorNum and toUnicodeNum)
-	fontDict := f.createFontDict(ttf, fontDescriptorNum, toUnicodeNum, glyphs, widths, subsetPrefix)
+	// Create Font dictionaries (reference the objects above)
+	cidFontNum := writer.AddObject(f.createCIDFontDict(ttf, baseFontName, fontDescriptorNum, used))
+	fontDict := f.createFontDict(baseFontName, cidFontNum, encodingNum, toUnicodeNum)
 	fontDictNum := writer.AddObject(fontDict)
 
 	// Generate resource name
@@ -85,8 +133,10 @@ func (f *Font) ToPDFObjects(writer PDFWriter) (*FontObjects, error) {
 
 	return &FontObjects{
 		FontDictNum:       fontDictNum,
+		CIDFontNum:        cidFontNum,
 		FontDescriptorNum: fontDescriptorNum,
 		FontFileNum:       fontFileNum,
+		EncodingNum:       encodingNum,
 		ToUnicodeNum:      toUnicodeNum,
 		ResourceName:      resourceName,
 		SubsetPrefix:      subsetPrefix,
@@ -100,87 +150,144 @@ type PDFWriter interface {
 	NextObjectNumber() int
 }
 
+// isCFF reports if the glyphs are in a CFF table rather than TrueType outlines
+func (ttf *TTF) isCFF() bool {
+	return ttf.Tables["CFF "] != nil && ttf.Tables["glyf"] == nil
+}
+
 // createFontDict creates the Font dictionary
-func (f *Font) createFontDict(ttf *TTF, fontDescriptorNum, toUnicodeNum int, glyphs []uint16, widths []int, subsetPrefix string) []byte {
+func (f *Font) createFontDict(baseFontName string, cidFontNum, encodingNum, toUnicodeNum int) []byte {
 	var buf bytes.Buffer
 
-	// Base font name with subset prefix
-	baseFontName := subsetPrefix + ttf.FontName
+	buf.WriteString("<<\n")
+	buf.WriteString("/Type /Font\n")
+	buf.WriteString("/Subtype /Type0\n")
+	buf.WriteString(fmt.Sprintf("/BaseFont %s\n", pdfscan.EncodeName(baseFontName)))
+	buf.WriteString(fmt.Sprintf("/Encoding %d 0 R\n", encodingNum))
+	buf.WriteString(fmt.Sprintf("/DescendantFonts [%d 0 R]\n", cidFontNum))
+
+	// ToUnicode reference
+	buf.WriteString(fmt.Sprintf("/ToUnicode %d 0 R\n", toUnicodeNum))
+
+	buf.WriteString(">>")
+
+	return buf.Bytes()
+}
+
+// createCIDFontDict creates the dictionary of the font whose character
+// identifiers are the glyph identifiers of the font file
+func (f *Font) createCIDFontDict(ttf *TTF, baseFontName string, fontDescriptorNum int, used []usedGlyph) []byte {
+	var buf bytes.Buffer
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /Font\n")
-	buf.WriteString("/Subtype /TrueType\n")
-	buf.WriteString(fmt.Sprintf("/BaseFont /%s\n", escapeName(baseFontName)))
-	buf.WriteString(fmt.Sprintf("/FirstChar %d\n", 0))
-	buf.WriteString(fmt.Sprintf("/LastChar %d\n", len(glyphs)-1))
+	if ttf.isCFF() {
+		buf.WriteString("/Subtype /CIDFontType0\n")
+	} else {
+		buf.WriteString("/Subtype /CIDFontType2\n")
+		buf.WriteString("/CIDToGIDMap /Identity\n")
+	}
+	buf.WriteString(fmt.Sprintf("/BaseFont %s\n", pdfscan.EncodeName(baseFontName)))
+	buf.WriteString("/CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >>\n")
+
+	// FontDescriptor reference
+	buf.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", fontDescriptorNum))
 
 	// Width array
-	buf.WriteString("/Widths [")
-	for i, width := range widths {
+	notdef, err := ttf.advance(0)
+	if err != nil {
+		notdef = int(ttf.UnitsPerEm)
+	}
+	widths := map[uint16]int{0: ttf.scale(notdef)}
+	for _, u := range used {
+		widths[u.gid] = u.width
+	}
+	glyphs := make([]int, 0, len(widths))
+	for gid := range widths {
+		glyphs = append(glyphs, int(gid))
+	}
+	sort.Ints(glyphs)
+	buf.WriteString("/W [")
+	for i, gid := range glyphs {
 		if i > 0 {
 			buf.WriteString(" ")
 		}
-		buf.WriteString(fmt.Sprintf("%d", width))
+		buf.WriteString(fmt.Sprintf("%d [%d]", gid, widths[uint16(gid)]))
 	}
 	buf.WriteString("]\n")
 
-	// FontDescriptor reference
-	buf.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", fontDescriptorNum))
-
-	// ToUnicode reference
-	buf.WriteString(fmt.Sprintf("/ToUnicode %d 0 R\n", toUnicodeNum))
-
 	buf.WriteString(">>")
 
 	return buf.Bytes()
 }
 
 // createFontDescriptor creates the FontDescriptor dictionary
-func (f *Font) createFontDescriptor(ttf *TTF, fontFileNum int) []byte {
+func (f *Font) createFontDescriptor(ttf *TTF, baseFontName string, fontFileNum int) []byte {
 	var buf bytes.Buffer
 
 	buf.WriteString("<<\n")
 	buf.WriteString("/Type /FontDescriptor\n")
-	buf.WriteString(fmt.Sprintf("/FontName /%s\n", escapeName(ttf.FontName)))
-	buf.WriteString(fmt.Sprintf("/FontFamily (%s)\n", escapeString(ttf.FamilyName)))
+	buf.WriteString(fmt.Sprintf("/FontName %s\n", pdfscan.EncodeName(baseFontName)))
+	buf.Write(append(append([]byte("/FontFamily "), pdfscan.EncodeText(ttf.FamilyName)...), '\n'))
 	buf.WriteString(fmt.Sprintf("/Flags %d\n", f.getFontFlags(ttf)))
-	buf.WriteString(fmt.Sprintf("/FontBBox [%d %d %d %d]\n",
-		-100, -100, int(ttf.UnitsPerEm)+100, int(ttf.UnitsPerEm)+100)) // Simplified bbox
+	head := ttf.Tables["head"].Data
+	buf.WriteString("/FontBBox [")
+	for i := 36; i < 44; i += 2 { // xMin, yMin, xMax, yMax
+		buf.WriteString(fmt.Sprintf(" %d", ttf.scale(int(int16(binary.BigEndian.Uint16(head[i:i+2]))))))
+	}
+	buf.WriteString("]\n")
 	buf.WriteString(fmt.Sprintf("/ItalicAngle %.4f\n", ttf.ItalicAngle))
-	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.Ascent))
-	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.Descent))
-	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.CapHeight))
+	buf.WriteString(fmt.Sprintf("/Ascent %d\n", ttf.scale(int(ttf.Ascent))))
+	buf.WriteString(fmt.Sprintf("/Descent %d\n", ttf.scale(int(ttf.Descent))))
+	capHeight := ttf.CapHeight
+	if capHeight == 0 {
+		capHeight = ttf.Ascent
+	}
+	buf.WriteString(fmt.Sprintf("/CapHeight %d\n", ttf.scale(int(capHeight))))
 	buf.WriteString(fmt.Sprintf("/StemV %d\n", 80)) // Default stem width
-	buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	if ttf.isCFF() {
+		buf.WriteString(fmt.Sprintf("/FontFile3 %d 0 R\n", fontFileNum))
+	} else {
+		buf.WriteString(fmt.Sprintf("/FontFile2 %d 0 R\n", fontFileNum))
+	}
 	buf.WriteString(">>")
 
 	return buf.Bytes()
 }
 
-// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
-func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
-	// Get glyph to Unicode mapping
-	ttf, err := ParseTTF(f.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
-
-	cmap, ok := ttf.Tables["cmap"]
-	if !ok {
-		return []byte("<<\n/Type /CMap\n>>")
+// cmapDict returns the stream dictionary of a CMap
+func cmapDict(name string) map[string]interface{} {
+	return map[string]interface{}{
+		"/Type":     "/CMap",
+		"/CMapName": "/" + name,
+		"/CIDSystemInfo": map[string]interface{}{
+			"/Registry":   "Adobe",
+			"/Ordering":   "Identity",
+			"/Supplement": 0,
+		},
 	}
+}
 
-	glyphMap, err := parseCmap(cmap.Data)
-	if err != nil {
-		return []byte("<<\n/Type /CMap\n>>")
-	}
+// createEncodingCMapData creates the CMap from character codes to glyphs
+func createEncodingCMapData(used []usedGlyph) []byte {
+	return createCMapData("UTF8-Glyphs", 1, "cidchar", used, func(u usedGlyph) string {
+		return fmt.Sprintf("%d", u.gid)
+	})
+}
 
-	// Create reverse mapping: glyph ID -> Unicode
-	glyphToUnicode := make(map[uint16][]rune)
-	for unicode, gid := range glyphMap {
-		glyphToUnicode[gid] = append(glyphToUnicode[gid], unicode)
-	}
+// createToUnicodeCMapData creates ToUnicode CMap stream data for text extraction
+func createToUnicodeCMapData(used []usedGlyph) []byte {
+	return createCMapData("UTF8-Unicode", 2, "bfchar", used, func(u usedGlyph) string {
+		var hex strings.Builder
+		for _, unit := range utf16.Encode([]rune{u.char}) {
+			hex.WriteString(fmt.Sprintf("%04X", unit))
+		}
+		return "<" + hex.String() + ">"
+	})
+}
 
+// createCMapData creates a CMap from the UTF-8 encodings of characters
+func createCMapData(name string, cmapType int, section string, used []usedGlyph, to func(usedGlyph) string) []byte {
 	// Build CMap content
 	var buf bytes.Buffer
 	buf.WriteString("/CIDInit /ProcSet findresource begin\n")
@@ -188,32 +295,32 @@ func (f *Font) createToUnicodeCMapData(glyphs []uint16) []byte {
 	buf.WriteString("begincmap\n")
 	buf.WriteString("/CIDSystemInfo\n")
 	buf.WriteString("<< /Registry (Adobe)\n")
-	buf.WriteString("   /Ordering (UCS)\n")
+	buf.WriteString("   /Ordering (Identity)\n")
 	buf.WriteString("   /Supplement 0\n")
 	buf.WriteString(">> def\n")
-	buf.WriteString("/CMapName /Adobe-Identity-UCS def\n")
+	buf.WriteString(fmt.Sprintf("/CMapName /%s def\n", name))
 	buf.WriteString("/CMapVersion 1.0 def\n")
-	buf.WriteString("/CMapType 2 def\n")
-	buf.WriteString("1 begincodespacerange\n")
-	buf.WriteString("<00> <FF>\n")
+	buf.WriteString(fmt.Sprintf("/CMapType %d def\n", cmapType))
+	buf.WriteString("4 begincodespacerange\n")
+	buf.WriteString("<00> <7F>\n")
+	buf.WriteString("<C080> <DFBF>\n")
+	buf.WriteString("<E08080> <EFBFBF>\n")
+	buf.WriteString("<F0808080> <F7BFBFBF>\n")
 	buf.WriteString("endcodespacerange\n")
 
-	// Write bfchar entries (glyph -> Unicode)
-	sort.Slice(glyphs, func(i, j int) bool {
-		return glyphs[i] < glyphs[j]
-	})
-
-	buf.WriteString(fmt.Sprintf("%d beginbfchar\n", len(glyphs)))
-	for _, gid := range glyphs {
-		unicodes := glyphToUnicode[gid]
-		if len(unicodes) > 0 {
-			buf.WriteString(fmt.Sprintf("<%02X> <%04X>\n", gid, unicodes[0]))
-		} else {
-			// Map to space if no Unicode found
-			buf.WriteString(fmt.Sprintf("<%02X> <0020>\n", gid))
+	// Write entries, at most 100 in a section
+	for len(used) > 0 {
+		n := len(used)
+		if n > 100 {
+			n = 100
+		}
+		buf.WriteString(fmt.Sprintf("%d begin%s\n", n, section))
+		for _, u := range used[:n] {
+			buf.WriteString(fmt.Sprintf("<%X> %s\n", string(u.char), to(u)))
 		}
+		buf.WriteString(fmt.Sprintf("end%s\n", section))
+		used = used[n:]
 	}
-	buf.WriteString("endbfchar\n")
 
 	buf.WriteString("endcmap\n")
 	buf.WriteString("CMapName currentdict /CMap defineresource pop\n")
@@ -248,46 +355,3 @@ func (f *Font) getFontFlags(ttf *TTF) int {
 
 	return flags
 }
-
-// escapeName escapes a PDF name
-func escapeName(s string) string {
-	var buf bytes.Buffer
-	for _, r := range s {
-		if r == ' ' || r == '#' || r == '/' || r == '(' || r == ')' || r == '<' || r == '>' || r == '[' || r == ']' || r == '{' || r == '}' || r == '%' {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else if r > 127 {
-			buf.WriteString(fmt.Sprintf("#%02X", r))
-		} else {
-			buf.WriteRune(r)
-		}
-	}
-	return buf.String()
-}
-
-// escapeString escapes a PDF string
-func escapeString(s string) string {
-	var buf bytes.Buffer
-	for _, r := range s {
-		switch r {
-		case '\\':
-			buf.WriteString("\\\\")
-		case '(':
-			buf.WriteString("\\(")
-		case ')':
-			buf.WriteString("\\)")
-		case '\n':
-			buf.WriteString("\\n")
-		case '\r':
-			buf.WriteString("\\r")
-		case '\t':
-			buf.WriteString("\\t")
-		default:
-			if r > 127 {
-				buf.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				buf.WriteRune(r)
-			}
-		}
-	}
-	return buf.String()
-}
-- 
2.43.0


From 393260b584aa56f21ff87a1bf4135540f688794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 19/41] fix: compare documents by content, each element once
 and in both directions alike

---
 core/compare/compare.go    | 525 ++++++++++++++++++-------------------
 core/compare/myers_diff.go |  18 +-
 core/compare/report.go     |  44 +++-
 core/compare/text_diff.go  |  79 +++---
 4 files changed, 336 insertions(+), 330 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index cff114e..28aa0fc 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -4,6 +4,9 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"regexp"
+	"sort"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/content/extract"
 	"github.com/benedoc-inc/pdfer/forms"
@@ -69,6 +72,7 @@ type MetadataDifference struct {
 	PDFVersion   *FieldDiff `json:"pdf_version,omitempty"`
 	PageCount    *FieldDiff `json:"page_count,omitempty"`
 	Encrypted    *FieldDiff `json:"encrypted,omitempty"`
+	Custom       *FieldDiff `json:"custom,omitempty"`
 }
 
 // FieldDiff represents a difference in a single field
@@ -242,7 +246,9 @@ func ComparePDFsWithOptions(pdf1Bytes, pdf2Bytes []byte, password1, password2 []
 	}
 
 	// Compare pages
-	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, pdf1Bytes, pdf2Bytes)
+	images1 := documentImages(pdf1Bytes, password1, opts.Verbose)
+	images2 := documentImages(pdf2Bytes, password2, opts.Verbose)
+	pageDiffs := comparePages(doc1.Pages, doc2.Pages, opts, images1, images2)
 	if len(pageDiffs) > 0 {
 		result.PageDiffs = pageDiffs
 		result.Summary.PagesChanged = true
@@ -341,6 +347,10 @@ func compareMetadata(m1, m2 *types.DocumentMetadata, opts CompareOptions) *Metad
 		diff.Encrypted = &FieldDiff{OldValue: m1.Encrypted, NewValue: m2.Encrypted}
 		hasDiff = true
 	}
+	if (len(m1.Custom) > 0 || len(m2.Custom) > 0) && !reflect.DeepEqual(m1.Custom, m2.Custom) {
+		diff.Custom = &FieldDiff{OldValue: m1.Custom, NewValue: m2.Custom}
+		hasDiff = true
+	}
 
 	if !hasDiff {
 		return nil
@@ -372,7 +382,7 @@ func compareStructure(doc1, doc2 *types.ContentDocument) *StructureDifference {
 }
 
 // comparePages compares pages between two documents
-func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) []PageDifference {
+func comparePages(pages1, pages2 []types.Page, opts CompareOptions, images1, images2 map[int]*types.Image) []PageDifference {
 	var diffs []PageDifference
 
 	// Compare up to the minimum page count
@@ -382,7 +392,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 	}
 
 	for i := 0; i < minPages; i++ {
-		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, pdf1Bytes, pdf2Bytes)
+		pageDiff := compareSinglePage(pages1[i], pages2[i], i+1, opts, images1, images2)
 		if pageDiff != nil && (len(pageDiff.Differences) > 0 || pageDiff.TextDiff != nil || pageDiff.GraphicDiff != nil || pageDiff.ImageDiff != nil || pageDiff.AnnotationDiff != nil) {
 			diffs = append(diffs, *pageDiff)
 		}
@@ -419,7 +429,7 @@ func comparePages(pages1, pages2 []types.Page, opts CompareOptions, pdf1Bytes, p
 }
 
 // compareSinglePage compares a single page between two documents
-func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, pdf1Bytes, pdf2Bytes []byte) *PageDifference {
+func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions, images1, images2 map[int]*types.Image) *PageDifference {
 	diff := &PageDifference{
 		PageNumber:  pageNum,
 		Differences: []Difference{},
@@ -462,7 +472,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare graphics
-	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics)
+	graphicDiff := compareGraphics(page1.Graphics, page2.Graphics, opts)
 	if graphicDiff != nil && (len(graphicDiff.Added) > 0 || len(graphicDiff.Removed) > 0) {
 		diff.GraphicDiff = graphicDiff
 		diff.Differences = append(diff.Differences, Difference{
@@ -474,7 +484,7 @@ func compareSinglePage(page1, page2 types.Page, pageNum int, opts CompareOptions
 	}
 
 	// Compare images (with binary data comparison)
-	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, page1.Resources, page2.Resources, pdf1Bytes, pdf2Bytes)
+	imageDiff := compareImagesWithBinary(page1.Images, page2.Images, images1, images2)
 	if imageDiff != nil && (len(imageDiff.Added) > 0 || len(imageDiff.Removed) > 0 || len(imageDiff.Modified) > 0 || len(imageDiff.Moved) > 0) {
 		diff.ImageDiff = imageDiff
 		desc := fmt.Sprintf("Images changed: %d added, %d removed, %d modified", len(imageDiff.Added), len(imageDiff.Removed), len(imageDiff.Modified))
@@ -532,7 +542,7 @@ func textElementsEqual(t1, t2 types.TextElement) bool {
 
 // positionsMatch checks if two positions match within tolerance
 func positionsMatch(x1, y1, x2, y2, tolerance float64) bool {
-	return abs(x1-x2) < tolerance && abs(y1-y2) < tolerance
+	return abs(x1-x2) <= tolerance && abs(y1-y2) <= tolerance
 }
 
 // abs returns absolute value
@@ -543,53 +553,115 @@ func abs(x float64) float64 {
 	return x
 }
 
+// matchFirst pairs the elements of two lists in order, each with the first
+// unpaired one it matches, and returns the pairs and the elements left over.
+func matchFirst[T any](list1, list2 []T, match func(e1, e2 T) bool) (pairs [][2]T, left1, left2 []T) {
+	paired := make([]bool, len(list2))
+search:
+	for _, e1 := range list1 {
+		for i2, e2 := range list2 {
+			if !paired[i2] && match(e1, e2) {
+				paired[i2] = true
+				pairs = append(pairs, [2]T{e1, e2})
+				continue search
+			}
+		}
+		left1 = append(left1, e1)
+	}
+	for i2, e2 := range list2 {
+		if !paired[i2] {
+			left2 = append(left2, e2)
+		}
+	}
+	return pairs, left1, left2
+}
+
 // compareGraphics compares graphics between two pages
-func compareGraphics(g1, g2 []types.Graphic) *GraphicDiff {
+func compareGraphics(g1, g2 []types.Graphic, opts CompareOptions) *GraphicDiff {
 	diff := &GraphicDiff{
 		Added:   []types.Graphic{},
 		Removed: []types.Graphic{},
 	}
 
-	// Simple comparison: compare by type and approximate position
-	// More sophisticated matching could use shape matching
-	g1Map := make(map[string]types.Graphic)
-	for _, g := range g1 {
-		key := graphicKey(g)
-		g1Map[key] = g
+	_, removed, added := matchFirst(g1, g2, func(g1, g2 types.Graphic) bool {
+		return graphicsEqual(g1, g2, opts.GraphicTolerance)
+	})
+	diff.Added = append(diff.Added, added...)
+	diff.Removed = append(diff.Removed, removed...)
+
+	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
+		return nil
 	}
 
-	for _, g := range g2 {
-		key := graphicKey(g)
-		if _, exists := g1Map[key]; !exists {
-			diff.Added = append(diff.Added, g)
-		} else {
-			delete(g1Map, key)
+	return diff
+}
+
+// graphicsEqual tells whether two graphics paint the same shape in the same
+// way, with their points within the tolerance of each other
+func graphicsEqual(g1, g2 types.Graphic, tolerance float64) bool {
+	if g1.Type != g2.Type ||
+		!reflect.DeepEqual(g1.FillColor, g2.FillColor) ||
+		!reflect.DeepEqual(g1.StrokeColor, g2.StrokeColor) ||
+		g1.LineWidth != g2.LineWidth || g1.LineCap != g2.LineCap ||
+		g1.LineJoin != g2.LineJoin || g1.MiterLimit != g2.MiterLimit ||
+		!rectanglesMatch(g1.BoundingBox, g2.BoundingBox, tolerance) {
+		return false
+	}
+	if g1.Path == nil || g2.Path == nil {
+		return g1.Path == g2.Path
+	}
+	if g1.Path.Closed != g2.Path.Closed || len(g1.Path.Operations) != len(g2.Path.Operations) {
+		return false
+	}
+	for i, op1 := range g1.Path.Operations {
+		op2 := g2.Path.Operations[i]
+		if op1.Type != op2.Type || !pointsMatch(op1.Points, op2.Points, tolerance) {
+			return false
 		}
 	}
+	return true
+}
 
-	// Remaining in g1Map are removed
-	for _, g := range g1Map {
-		diff.Removed = append(diff.Removed, g)
+// rectanglesMatch checks if two rectangles match within tolerance
+func rectanglesMatch(r1, r2 *types.Rectangle, tolerance float64) bool {
+	if r1 == nil || r2 == nil {
+		return r1 == r2
 	}
+	return positionsMatch(r1.LowerX, r1.LowerY, r2.LowerX, r2.LowerY, tolerance) &&
+		positionsMatch(r1.UpperX, r1.UpperY, r2.UpperX, r2.UpperY, tolerance)
+}
 
-	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
-		return nil
+// pointsMatch checks if two lists of points match within tolerance
+func pointsMatch(p1, p2 []types.Point, tolerance float64) bool {
+	if len(p1) != len(p2) {
+		return false
 	}
-
-	return diff
+	for i := range p1 {
+		if !positionsMatch(p1[i].X, p1[i].Y, p2[i].X, p2[i].Y, tolerance) {
+			return false
+		}
+	}
+	return true
 }
 
-// graphicKey generates a key for a graphic element for comparison
-func graphicKey(g types.Graphic) string {
-	// Use type and bounding box for key
-	if g.BoundingBox != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", g.Type, g.BoundingBox.LowerX, g.BoundingBox.LowerY, g.BoundingBox.UpperX, g.BoundingBox.UpperY)
+// documentImages returns the images of a document with their binary data, by
+// object number
+func documentImages(pdfBytes, password []byte, verbose bool) map[int]*types.Image {
+	images := make(map[int]*types.Image)
+	all, err := extract.ExtractAllImages(pdfBytes, password, verbose)
+	if err != nil {
+		return images // Images are compared without their data
+	}
+	for i := range all {
+		if objNum, ok := all[i].Metadata["object_number"].(int); ok {
+			images[objNum] = &all[i]
+		}
 	}
-	return fmt.Sprintf("%s", g.Type)
+	return images
 }
 
 // compareImagesWithBinary compares images between two pages, including binary data
-func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2 *types.PageResources, pdf1Bytes, pdf2Bytes []byte) *ImageDiff {
+func compareImagesWithBinary(img1, img2 []types.ImageRef, images1, images2 map[int]*types.Image) *ImageDiff {
 	diff := &ImageDiff{
 		Added:    []types.ImageRef{},
 		Removed:  []types.ImageRef{},
@@ -597,134 +669,45 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 		Moved:    []ImageModification{},
 	}
 
-	// Extract full image data for all images
-	images1Map := make(map[string]*types.Image) // Map ImageID -> full Image data
-	images2Map := make(map[string]*types.Image)
-
-	// Extract images from PDF1
-	if resources1 != nil {
-		for name, img := range resources1.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf1Bytes, &img)
-			if err == nil {
-				images1Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images1Map[imageID] = &img
-			}
-		}
+	placed := func(r1, r2 types.ImageRef) bool { // Same position (with tolerance)
+		return positionsMatch(r1.X, r1.Y, r2.X, r2.Y, 1.0)
 	}
-
-	// Extract images from PDF2
-	if resources2 != nil {
-		for name, img := range resources2.Images {
-			imageID := "/" + name
-			// Get full image data with binary
-			fullImg, err := getImageWithBinary(imageID, pdf2Bytes, &img)
-			if err == nil {
-				images2Map[imageID] = fullImg
-			} else {
-				// Fall back to metadata-only image
-				images2Map[imageID] = &img
-			}
-		}
+	sameData := func(r1, r2 types.ImageRef) bool {
+		return imagesEqual(images1[r1.ObjectNumber], images2[r2.ObjectNumber])
 	}
-
-	// Compare by image ID and position (with tolerance for position)
-	img1Matched := make(map[int]bool)
-	img2Matched := make(map[int]bool)
-
-	// First pass: exact matches (same ID, position, and binary data)
-	for i1, imgRef1 := range img1 {
-		if img1Matched[i1] {
-			continue
-		}
-		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
-				continue
-			}
-			if imgRef1.ImageID == imgRef2.ImageID && positionsMatch(imgRef1.X, imgRef1.Y, imgRef2.X, imgRef2.Y, 1.0) {
-				// Same ID and position - check binary data
-				img1Data := images1Map[imgRef1.ImageID]
-				img2Data := images2Map[imgRef2.ImageID]
-				if img1Data != nil && img2Data != nil {
-					if imagesEqual(img1Data, img2Data) {
-						// Exact match including binary
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					} else {
-						// Same ID/position but different binary - mark as modified
-						diff.Modified = append(diff.Modified, ImageModification{
-							Old:      imgRef1,
-							New:      imgRef2,
-							OldImage: img1Data,
-							NewImage: img2Data,
-						})
-						img1Matched[i1] = true
-						img2Matched[i2] = true
-						break
-					}
-				} else {
-					// Can't compare binary (missing data) - treat as match for now
-					img1Matched[i1] = true
-					img2Matched[i2] = true
-					break
-				}
-			}
+	modifications := func(pairs [][2]types.ImageRef) (list []ImageModification) {
+		for _, pair := range pairs {
+			list = append(list, ImageModification{
+				Old:      pair[0],
+				New:      pair[1],
+				OldImage: images1[pair[0].ObjectNumber],
+				NewImage: images2[pair[1].ObjectNumber],
+			})
 		}
+		return list
 	}
 
-	// Second pass: find moved images (same binary data, different position)
-	// This handles cases where the same image is moved to a different position
-	for i1, imgRef1 := range img1 {
-		if img1Matched[i1] {
-			continue
-		}
-		img1Data := images1Map[imgRef1.ImageID]
-		if img1Data == nil || len(img1Data.Data) == 0 {
-			continue // Can't match by binary without data
-		}
+	// First pass: exact matches (same position, size, and binary data)
+	_, left1, left2 := matchFirst(img1, img2, func(r1, r2 types.ImageRef) bool {
+		return placed(r1, r2) && positionsMatch(r1.Width, r1.Height, r2.Width, r2.Height, 1.0) && sameData(r1, r2)
+	})
 
-		for i2, imgRef2 := range img2 {
-			if img2Matched[i2] {
-				continue
-			}
-			img2Data := images2Map[imgRef2.ImageID]
-			if img2Data == nil || len(img2Data.Data) == 0 {
-				continue
-			}
+	// Second pass: same ID and position but different binary
+	pairs, left1, left2 := matchFirst(left1, left2, func(r1, r2 types.ImageRef) bool {
+		return r1.ImageID == r2.ImageID && placed(r1, r2) && !sameData(r1, r2)
+	})
+	diff.Modified = append(diff.Modified, modifications(pairs)...)
 
-			// Check if binary data matches (ignoring position)
-			if imagesEqual(img1Data, img2Data) {
-				// Same binary data but different position - it's a move
-				diff.Moved = append(diff.Moved, ImageModification{
-					Old:      imgRef1,
-					New:      imgRef2,
-					OldImage: img1Data,
-					NewImage: img2Data,
-				})
-				img1Matched[i1] = true
-				img2Matched[i2] = true
-				break
-			}
-		}
-	}
-
-	// Find added (in img2 but not matched)
-	for i2, img2 := range img2 {
-		if !img2Matched[i2] {
-			diff.Added = append(diff.Added, img2)
-		}
-	}
+	// Third pass: find moved images (same binary data, different position or size)
+	pairs, left1, left2 = matchFirst(left1, left2, func(r1, r2 types.ImageRef) bool {
+		data := images1[r1.ObjectNumber]
+		return data != nil && len(data.Data) > 0 && sameData(r1, r2)
+	})
+	diff.Moved = append(diff.Moved, modifications(pairs)...)
 
-	// Remaining in img1 are removed
-	for i1, img1 := range img1 {
-		if !img1Matched[i1] {
-			diff.Removed = append(diff.Removed, img1)
-		}
-	}
+	// What is left was added or removed
+	diff.Added = append(diff.Added, left2...)
+	diff.Removed = append(diff.Removed, left1...)
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 && len(diff.Modified) == 0 && len(diff.Moved) == 0 {
 		return nil
@@ -733,33 +716,6 @@ func compareImagesWithBinary(img1, img2 []types.ImageRef, resources1, resources2
 	return diff
 }
 
-// getImageWithBinary extracts full image data with binary from PDF
-func getImageWithBinary(imageID string, pdfBytes []byte, metadataImg *types.Image) (*types.Image, error) {
-	// If metadata image already has data, use it
-	if metadataImg != nil && len(metadataImg.Data) > 0 {
-		return metadataImg, nil
-	}
-
-	// Otherwise, extract all images and find the one we need
-	allImages, err := extract.ExtractAllImages(pdfBytes, nil, false)
-	if err != nil {
-		return nil, err
-	}
-
-	// Find image by ID
-	for _, img := range allImages {
-		if img.ID == imageID {
-			return &img, nil
-		}
-	}
-
-	// Not found - return metadata-only image
-	if metadataImg != nil {
-		return metadataImg, nil
-	}
-	return nil, fmt.Errorf("image %s not found", imageID)
-}
-
 // imagesEqual compares two images for binary equality
 func imagesEqual(img1, img2 *types.Image) bool {
 	if img1 == nil || img2 == nil {
@@ -773,7 +729,7 @@ func imagesEqual(img1, img2 *types.Image) bool {
 	if img1.Format != img2.Format {
 		return false
 	}
-	if img1.ColorSpace != img2.ColorSpace {
+	if portable(img1.ColorSpace) != portable(img2.ColorSpace) || img1.BitsPerComponent != img2.BitsPerComponent {
 		return false
 	}
 
@@ -797,26 +753,9 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 		Removed: []types.Annotation{},
 	}
 
-	// Compare by type and position
-	a1Map := make(map[string]types.Annotation)
-	for _, a := range a1 {
-		key := annotationKey(a)
-		a1Map[key] = a
-	}
-
-	for _, a := range a2 {
-		key := annotationKey(a)
-		if _, exists := a1Map[key]; !exists {
-			diff.Added = append(diff.Added, a)
-		} else {
-			delete(a1Map, key)
-		}
-	}
-
-	// Remaining in a1Map are removed
-	for _, a := range a1Map {
-		diff.Removed = append(diff.Removed, a)
-	}
+	_, removed, added := matchFirst(a1, a2, annotationsEqual)
+	diff.Added = append(diff.Added, added...)
+	diff.Removed = append(diff.Removed, removed...)
 
 	if len(diff.Added) == 0 && len(diff.Removed) == 0 {
 		return nil
@@ -825,12 +764,33 @@ func compareAnnotations(a1, a2 []types.Annotation) *AnnotationDiff {
 	return diff
 }
 
-// annotationKey generates a key for an annotation for comparison
-func annotationKey(a types.Annotation) string {
-	if a.Rect != nil {
-		return fmt.Sprintf("%s:%.1f:%.1f:%.1f:%.1f", a.Type, a.Rect.LowerX, a.Rect.LowerY, a.Rect.UpperX, a.Rect.UpperY)
+// annotationsEqual tells whether two annotations are the same, wherever they
+// are stored in their documents
+func annotationsEqual(a1, a2 types.Annotation) bool {
+	return a1.Type == a2.Type &&
+		rectanglesMatch(a1.Rect, a2.Rect, 0.1) &&
+		a1.Contents == a2.Contents && a1.Title == a2.Title && a1.Subject == a2.Subject &&
+		reflect.DeepEqual(a1.Color, a2.Color) &&
+		reflect.DeepEqual(a1.Border, a2.Border) &&
+		a1.URI == a2.URI &&
+		portable(a1.Destination) == portable(a2.Destination) &&
+		a1.Open == a2.Open && a1.Icon == a2.Icon &&
+		pointsMatch(a1.QuadPoints, a2.QuadPoints, 0.1)
+}
+
+var (
+	referencePattern = regexp.MustCompile(`\d+\s+\d+\s+R\b`)
+	delimiters       = strings.NewReplacer("[", " [ ", "]", " ] ", "/", " /")
+)
+
+// portable returns the source of a PDF array without what depends on the file
+// it is in: object numbers and spacing. Other values are returned as they are.
+func portable(source string) string {
+	if !strings.HasPrefix(source, "[") {
+		return source
 	}
-	return fmt.Sprintf("%s", a.Type)
+	source = referencePattern.ReplaceAllString(source, " R ")
+	return strings.Join(strings.Fields(delimiters.Replace(source)), " ")
 }
 
 // compareBookmarks compares bookmarks between two documents
@@ -846,7 +806,7 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	}
 
 	// Simple comparison - could be more sophisticated
-	if !reflect.DeepEqual(b1, b2) {
+	if !bookmarksEqual(b1, b2) {
 		return &Difference{
 			Type:        DifferenceTypeBookmark,
 			Category:    "modified",
@@ -857,6 +817,26 @@ func compareBookmarks(b1, b2 []types.Bookmark) *Difference {
 	return nil
 }
 
+// bookmarksEqual tells whether two outlines are the same, wherever their
+// destinations are stored
+func bookmarksEqual(list1, list2 []types.Bookmark) bool {
+	if len(list1) != len(list2) {
+		return false
+	}
+	for i, b1 := range list1 {
+		b2 := list2[i]
+		if !bookmarksEqual(b1.Children, b2.Children) {
+			return false
+		}
+		b1.Children, b2.Children = nil, nil
+		b1.Destination, b2.Destination = portable(b1.Destination), portable(b2.Destination)
+		if !reflect.DeepEqual(b1, b2) {
+			return false
+		}
+	}
+	return true
+}
+
 // compareForms compares form fields between two PDFs
 func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verbose bool) *FormDiff {
 	diff := &FormDiff{
@@ -874,90 +854,47 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 		return nil
 	}
 
-	// If one has a form and the other doesn't, that's a difference
-	if err1 != nil && err2 == nil {
-		// PDF1 has no form, PDF2 has form - all fields in PDF2 are "added"
-		values2 := form2.GetValues()
-		for name, value := range values2 {
-			diff.Added = append(diff.Added, FormFieldChange{
-				FieldName: name,
-				NewValue:  value,
-			})
-		}
-		return diff
+	// If only one has a form, all of its fields were added or removed
+	var values1, values2 map[string]interface{}
+	if err1 == nil {
+		values1 = fieldValues(form1)
 	}
-
-	if err1 == nil && err2 != nil {
-		// PDF1 has form, PDF2 has no form - all fields in PDF1 are "removed"
-		values1 := form1.GetValues()
-		for name, value := range values1 {
-			diff.Removed = append(diff.Removed, FormFieldChange{
-				FieldName: name,
-				OldValue:  value,
-			})
-		}
-		return diff
+	if err2 == nil {
+		values2 = fieldValues(form2)
 	}
 
-	// Both have forms - compare form types
-	if form1.Type() != form2.Type() {
+	// If form types differ, treat all fields as changed
+	comparable := err1 == nil && err2 == nil
+	if comparable && form1.Type() != form2.Type() {
 		diff.FormType = &FieldDiff{
 			OldValue: string(form1.Type()),
 			NewValue: string(form2.Type()),
 		}
-		// If form types differ, treat all fields as changed
-		values1 := form1.GetValues()
-		values2 := form2.GetValues()
-		for name, value := range values1 {
-			diff.Removed = append(diff.Removed, FormFieldChange{
-				FieldName: name,
-				OldValue:  value,
-			})
-		}
-		for name, value := range values2 {
-			diff.Added = append(diff.Added, FormFieldChange{
-				FieldName: name,
-				NewValue:  value,
-			})
-		}
-		return diff
+		comparable = false
 	}
 
-	// Same form type - compare field values
-	values1 := form1.GetValues()
-	values2 := form2.GetValues()
-
 	// Find added, removed, and modified fields
-	// Fields in PDF2 but not in PDF1
-	for name, value := range values2 {
-		if _, exists := values1[name]; !exists {
+	for _, name := range sortedNames(values2) {
+		if _, exists := values1[name]; !exists || !comparable {
 			diff.Added = append(diff.Added, FormFieldChange{
 				FieldName: name,
-				NewValue:  value,
+				NewValue:  values2[name],
 			})
 		}
 	}
-
-	// Fields in PDF1 but not in PDF2
-	for name, value := range values1 {
-		if _, exists := values2[name]; !exists {
+	for _, name := range sortedNames(values1) {
+		value2, exists := values2[name]
+		if !exists || !comparable {
 			diff.Removed = append(diff.Removed, FormFieldChange{
 				FieldName: name,
-				OldValue:  value,
+				OldValue:  values1[name],
+			})
+		} else if !valuesEqual(values1[name], value2) {
+			diff.Modified = append(diff.Modified, FormFieldChange{
+				FieldName: name,
+				OldValue:  values1[name],
+				NewValue:  value2,
 			})
-		}
-	}
-
-	// Fields in both - check if values changed
-	for name, value1 := range values1 {
-		if value2, exists := values2[name]; exists {
-			if !valuesEqual(value1, value2) {
-				diff.Modified = append(diff.Modified, FormFieldChange{
-					FieldName: name,
-					OldValue:  value1,
-					NewValue:  value2,
-				})
-			}
 		}
 	}
 
@@ -969,6 +906,31 @@ func compareForms(pdf1Bytes, pdf2Bytes []byte, password1, password2 []byte, verb
 	return diff
 }
 
+// fieldValues returns the value of each field of a form, nil for fields
+// without a value
+func fieldValues(form forms.Form) map[string]interface{} {
+	values := make(map[string]interface{})
+	if schema := form.Schema(); form.Type() == forms.FormTypeAcroForm && schema != nil {
+		for _, question := range schema.Questions {
+			values[question.Name] = nil
+		}
+	}
+	for name, value := range form.GetValues() {
+		values[name] = value
+	}
+	return values
+}
+
+// sortedNames returns the names of the values in order
+func sortedNames(values map[string]interface{}) []string {
+	names := make([]string, 0, len(values))
+	for name := range values {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // valuesEqual compares two form field values for equality
 func valuesEqual(v1, v2 interface{}) bool {
 	if v1 == nil && v2 == nil {
@@ -978,6 +940,21 @@ func valuesEqual(v1, v2 interface{}) bool {
 		return false
 	}
 
+	// Lists are equal if their items are
+	if list1, list2 := reflect.ValueOf(v1), reflect.ValueOf(v2); list1.Kind() == reflect.Slice && list2.Kind() == reflect.Slice {
+		if list1.Len() != list2.Len() {
+			return false
+		}
+		for i := 0; i < list1.Len(); i++ {
+			if !valuesEqual(list1.Index(i).Interface(), list2.Index(i).Interface()) {
+				return false
+			}
+		}
+		return true
+	} else if list1.Kind() == reflect.Slice || list2.Kind() == reflect.Slice {
+		return false
+	}
+
 	// Convert to strings for comparison (handles different types)
 	str1 := fmt.Sprintf("%v", v1)
 	str2 := fmt.Sprintf("%v", v2)
diff --git a/core/compare/myers_diff.go b/core/compare/myers_diff.go
index 47aae87..ea26298 100644
--- a/core/compare/myers_diff.go
+++ b/core/compare/myers_diff.go
@@ -241,8 +241,9 @@ func findLCSMatches(text1, text2 []types.TextElement, opts CompareOptions) []mat
 			matches = append(matches, matchPair{i1: i - 1, i2: j - 1})
 			i--
 			j--
-		} else if dp[i-1][j] > dp[i][j-1] {
-			// Move up (text1 element not matched)
+		} else if dp[i-1][j] > dp[i][j-1] || dp[i-1][j] == dp[i][j-1] && textBefore(text2[j-1], text1[i-1], opts) {
+			// Move up (text1 element not matched). On a tie the content decides,
+			// so that the result does not depend on which text comes first
 			i--
 		} else {
 			// Move left (text2 element not matched)
@@ -258,6 +259,19 @@ func findLCSMatches(text1, text2 []types.TextElement, opts CompareOptions) []mat
 	return matches
 }
 
+// textBefore orders text elements by what findLCSMatches compares
+func textBefore(t1, t2 types.TextElement, opts CompareOptions) bool {
+	text1Norm := normalizeTextForComparison(t1.Text, opts)
+	text2Norm := normalizeTextForComparison(t2.Text, opts)
+	if text1Norm != text2Norm {
+		return text1Norm < text2Norm
+	}
+	if t1.FontName != t2.FontName {
+		return t1.FontName < t2.FontName
+	}
+	return t1.FontSize < t2.FontSize
+}
+
 // basicMatchingDiff is a fallback simple matching algorithm
 func basicMatchingDiff(text1, text2 []types.TextElement, opts CompareOptions) *TextDiff {
 	// This is what we currently have - hash-map based matching
diff --git a/core/compare/report.go b/core/compare/report.go
index 6c2e948..b91af2d 100644
--- a/core/compare/report.go
+++ b/core/compare/report.go
@@ -25,14 +25,26 @@ func GenerateReport(result *ComparisonResult) string {
 	if result.MetadataDiff != nil {
 		report.WriteString("Metadata Differences:\n")
 		report.WriteString(strings.Repeat("-", 30) + "\n")
-		if result.MetadataDiff.Title != nil {
-			report.WriteString(fmt.Sprintf("  Title: %v -> %v\n", result.MetadataDiff.Title.OldValue, result.MetadataDiff.Title.NewValue))
-		}
-		if result.MetadataDiff.Author != nil {
-			report.WriteString(fmt.Sprintf("  Author: %v -> %v\n", result.MetadataDiff.Author.OldValue, result.MetadataDiff.Author.NewValue))
-		}
-		if result.MetadataDiff.PageCount != nil {
-			report.WriteString(fmt.Sprintf("  Page Count: %v -> %v\n", result.MetadataDiff.PageCount.OldValue, result.MetadataDiff.PageCount.NewValue))
+		for _, field := range []struct {
+			name string
+			diff *FieldDiff
+		}{
+			{"Title", result.MetadataDiff.Title},
+			{"Author", result.MetadataDiff.Author},
+			{"Subject", result.MetadataDiff.Subject},
+			{"Keywords", result.MetadataDiff.Keywords},
+			{"Creator", result.MetadataDiff.Creator},
+			{"Producer", result.MetadataDiff.Producer},
+			{"Creation Date", result.MetadataDiff.CreationDate},
+			{"Modification Date", result.MetadataDiff.ModDate},
+			{"PDF Version", result.MetadataDiff.PDFVersion},
+			{"Page Count", result.MetadataDiff.PageCount},
+			{"Encrypted", result.MetadataDiff.Encrypted},
+			{"Custom", result.MetadataDiff.Custom},
+		} {
+			if field.diff != nil {
+				report.WriteString(fmt.Sprintf("  %s: %v -> %v\n", field.name, field.diff.OldValue, field.diff.NewValue))
+			}
 		}
 		report.WriteString("\n")
 	}
@@ -85,6 +97,12 @@ func GenerateReport(result *ComparisonResult) string {
 				if len(pd.ImageDiff.Removed) > 0 {
 					report.WriteString(fmt.Sprintf("  Images Removed: %d elements\n", len(pd.ImageDiff.Removed)))
 				}
+				if len(pd.ImageDiff.Modified) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Modified: %d elements\n", len(pd.ImageDiff.Modified)))
+				}
+				if len(pd.ImageDiff.Moved) > 0 {
+					report.WriteString(fmt.Sprintf("  Images Moved: %d elements\n", len(pd.ImageDiff.Moved)))
+				}
 			}
 
 			// Annotation differences
@@ -105,6 +123,16 @@ func GenerateReport(result *ComparisonResult) string {
 		report.WriteString("\n")
 	}
 
+	// Document differences
+	if len(result.Differences) > 0 {
+		report.WriteString("Document Differences:\n")
+		report.WriteString(strings.Repeat("-", 30) + "\n")
+		for _, d := range result.Differences {
+			report.WriteString(fmt.Sprintf("  %s: %s\n", d.Type, d.Description))
+		}
+		report.WriteString("\n")
+	}
+
 	// Form differences
 	if result.FormDiff != nil {
 		report.WriteString("Form Differences:\n")
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index 6444153..bf2eb63 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -1,6 +1,9 @@
 package compare
 
 import (
+	"strings"
+	"unicode"
+
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -35,12 +38,10 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if t1.Text == t2.Text && positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) {
-				if t1.FontName == t2.FontName && abs(t1.FontSize-t2.FontSize) < 0.1 {
-					text1Matched[i1] = true
-					text2Matched[i2] = true
-					break
-				}
+			if elementsEqual(t1, t2, opts) {
+				text1Matched[i1] = true
+				text2Matched[i2] = true
+				break
 			}
 		}
 	}
@@ -54,7 +55,8 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 			if text2Matched[i2] {
 				continue
 			}
-			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) && t1.Text != t2.Text {
+			if positionsMatch(t1.X, t1.Y, t2.X, t2.Y, tolerance) &&
+				normalizeTextForComparison(t1.Text, opts) != normalizeTextForComparison(t2.Text, opts) {
 				diff.Modified = append(diff.Modified, TextModification{Old: t1, New: t2})
 				text1Matched[i1] = true
 				text2Matched[i2] = true
@@ -233,23 +235,15 @@ func myersDiffText(text1, text2 []types.TextElement, opts CompareOptions) *TextD
 func normalizeTextForComparison(text string, opts CompareOptions) string {
 	normalized := text
 	if opts.IgnoreCase {
-		normalized = ""
-		for _, r := range text {
-			if r >= 'A' && r <= 'Z' {
-				normalized += string(r + 32) // to lowercase
-			} else {
-				normalized += string(r)
-			}
-		}
+		normalized = strings.ToLower(normalized)
 	}
 	if opts.IgnoreWhitespace {
-		result := ""
-		for _, r := range normalized {
-			if r != ' ' && r != '\t' && r != '\n' && r != '\r' {
-				result += string(r)
+		normalized = strings.Map(func(r rune) rune {
+			if unicode.IsSpace(r) {
+				return -1
 			}
-		}
-		normalized = result
+			return r
+		}, normalized)
 	}
 	return normalized
 }
@@ -392,33 +386,26 @@ func applySensitivityFilter(diff *TextDiff, opts CompareOptions) *TextDiff {
 		return nil
 	}
 
-	switch opts.DiffSensitivity {
-	case SensitivityRelaxed:
-		// Only keep significant changes (more than threshold)
-		filtered := &TextDiff{
-			Added:    []types.TextElement{},
-			Removed:  []types.TextElement{},
-			Modified: []TextModification{},
-		}
-		for _, mod := range diff.Modified {
-			// Only keep if change is significant (e.g., >10% different)
-			oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
-			newNorm := normalizeTextForComparison(mod.New.Text, opts)
-			changeRatio := calculateChangeRatio(oldNorm, newNorm)
-			if changeRatio > 0.1 { // More than 10% change
-				filtered.Modified = append(filtered.Modified, mod)
-			}
+	// Strict and normal sensitivity keep all changes (normal could filter very
+	// minor ones), relaxed only significant ones
+	significant := func(changeRatio float64) bool {
+		return changeRatio >= opts.MinChangeThreshold &&
+			(opts.DiffSensitivity != SensitivityRelaxed || changeRatio > 0.1) // More than 10% change
+	}
+
+	filtered := &TextDiff{
+		Added:    diff.Added,
+		Removed:  diff.Removed,
+		Modified: []TextModification{},
+	}
+	for _, mod := range diff.Modified {
+		oldNorm := normalizeTextForComparison(mod.Old.Text, opts)
+		newNorm := normalizeTextForComparison(mod.New.Text, opts)
+		if significant(calculateChangeRatio(oldNorm, newNorm)) {
+			filtered.Modified = append(filtered.Modified, mod)
 		}
-		filtered.Added = diff.Added
-		filtered.Removed = diff.Removed
-		return filtered
-	case SensitivityStrict:
-		// Keep all changes
-		return diff
-	default: // SensitivityNormal
-		// Keep all changes (could add filtering for very minor changes)
-		return diff
 	}
+	return filtered
 }
 
 // Helper functions
-- 
2.43.0


From fe593318d8d8b03d186745ad9ec6276579dd936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 20/41] fix: bound form trees that contain themselves and
 object reads at any offset

---
 forms/acroform/parser.go | 22 ++++++++++++++++------
 forms/xfa/stream.go      | 19 +++++++++++--------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index e032a13..701cd1e 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -125,10 +125,10 @@ func (p *formParser) parsePages(catalog []byte) {
 	var visit func(node []byte)
 	visit = func(node []byte) {
 		objNum, _, isRef := pdfscan.Reference(node, 0)
-		if isRef && visited[objNum] {
+		if !isRef || visited[objNum] {
 			return
 		}
-		visited[objNum] = isRef
+		visited[objNum] = true
 		dict := p.resolve(node)
 		if kids := p.lookup(dict, "Kids"); kids != nil {
 			for _, kid := range pdfscan.ArrayItems(kids) {
@@ -141,9 +141,7 @@ func (p *formParser) parsePages(catalog []byte) {
 		}
 		index := p.form.pageCount
 		p.form.pageCount++
-		if isRef {
-			p.pages[objNum] = index
-		}
+		p.pages[objNum] = index
 		for _, annot := range pdfscan.ArrayItems(p.lookup(dict, "Annots")) {
 			if num, _, ok := pdfscan.Reference(annot, 0); ok {
 				if _, known := p.annots[num]; !known {
@@ -228,7 +226,7 @@ func (p *formParser) parseField(value []byte, inherited, parent *Field) *Field {
 	if isWidget {
 		p.addWidget(field, objNum, dict)
 	}
-	for _, kid := range pdfscan.ArrayItems(p.lookup(dict, "Kids")) {
+	for _, kid := range p.kids(dict) {
 		kidDict := p.resolve(kid)
 		if p.present(kidDict, "T") || p.present(kidDict, "Kids") {
 			if kidField := p.parseField(kid, field, field); kidField != nil {
@@ -246,6 +244,18 @@ func (p *formParser) parseField(value []byte, inherited, parent *Field) *Field {
 	return field
 }
 
+// kids returns the kids of a field. An array that is an object of its own is
+// read once, so that fields in it cannot contain themselves.
+func (p *formParser) kids(dict []byte) [][]byte {
+	if objNum, _, isRef := pdfscan.Reference(pdfscan.DictValue(dict, "Kids"), 0); isRef {
+		if p.seen[objNum] {
+			return nil
+		}
+		p.seen[objNum] = true
+	}
+	return pdfscan.ArrayItems(p.lookup(dict, "Kids"))
+}
+
 // addWidget adds a widget annotation to its field, which is reported at the
 // position of its first widget
 func (p *formParser) addWidget(field *Field, objNum int, dict []byte) {
diff --git a/forms/xfa/stream.go b/forms/xfa/stream.go
index 6836489..2d3d244 100644
--- a/forms/xfa/stream.go
+++ b/forms/xfa/stream.go
@@ -49,9 +49,9 @@ func (s *PDFStream) Read(n int) ([]byte, error) {
 	if s.offset >= len(s.data) {
 		return nil, io.EOF
 	}
-	end := s.offset + n
-	if end > len(s.data) {
-		end = len(s.data)
+	end := len(s.data)
+	if n < end-s.offset {
+		end = s.offset + max(0, n)
 	}
 	result := s.data[s.offset:end]
 	s.offset = end
@@ -71,9 +71,9 @@ func (s *PDFStream) Peek(n int) []byte {
 	if s.offset >= len(s.data) {
 		return nil
 	}
-	end := s.offset + n
-	if end > len(s.data) {
-		end = len(s.data)
+	end := len(s.data)
+	if n < end-s.offset {
+		end = s.offset + max(0, n)
 	}
 	return s.data[s.offset:end]
 }
@@ -85,8 +85,7 @@ func skipOverWhitespace(stream *PDFStream) bool {
 	for {
 		b, err := stream.ReadByte()
 		if err != nil {
-			stream.Seek(-1, 1) // Seek back
-			break
+			break // Nothing was read at the end of the data
 		}
 		if b == ' ' || b == '\t' || b == '\r' || b == '\n' {
 			skipped = true
@@ -217,6 +216,10 @@ func findObjectHeaderByRegex(pdfBytes []byte, objNum, genNum int) (int, error) {
 // ReadObjectFromXRef reads an object using xref offset (PyPDF approach)
 // Matches PyPDF's get_object method (lines 413-490)
 func ReadObjectFromXRef(pdfBytes []byte, objNum, genNum int, xrefOffset int64, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
+	if xrefOffset < 0 || xrefOffset > int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid object offset: %d", xrefOffset)
+	}
+
 	// Step 1: Create stream and seek to xref offset (PyPDF line 423)
 	stream := NewPDFStream(pdfBytes)
 
-- 
2.43.0


From 565d0d6595e0d5b287e11de7a3d475262ff8489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 21/41] fix: work on long documents in time proportionate to
 their size

---
 core/manipulate/copying.go    | 35 ++++++++--------
 core/manipulate/deletion.go   | 37 ++++++++++++-----
 core/manipulate/extraction.go | 10 +++--
 core/manipulate/insertion.go  |  4 +-
 core/manipulate/merging.go    |  5 +--
 core/manipulate/pagetree.go   | 29 +++++++++----
 core/manipulate/rotation.go   | 35 +++++++++++-----
 core/manipulate/splitting.go  | 15 ++++---
 core/parse/api.go             | 29 ++++++++++++-
 core/parse/object_stream.go   | 76 ++++++++++++++++++++++-------------
 forms/acroform/extract.go     | 17 ++++----
 11 files changed, 195 insertions(+), 97 deletions(-)

diff --git a/core/manipulate/copying.go b/core/manipulate/copying.go
index 76b6a3b..bfb55ca 100644
--- a/core/manipulate/copying.go
+++ b/core/manipulate/copying.go
@@ -18,20 +18,22 @@ type pageCopier struct {
 	queue  []int        // objects that are not copied yet
 }
 
-// copyPages copies pages of the source in the order given and returns the
-// numbers of the new page objects.
-func copyPages(writer *write.PDFWriter, pagesObjNum int, source *PDFManipulator, selected []pageNode) ([]int, error) {
-	tree, err := source.getAllPages()
-	if err != nil {
-		return nil, err
-	}
-	copier := &pageCopier{writer: writer, source: source, pages: make(map[int]bool), copies: make(map[int]int)}
-	for _, page := range tree {
-		copier.pages[page.objNum] = true
+// treeObjects returns the objects of a page tree: the pages and their parents.
+func treeObjects(pages []pageNode) map[int]bool {
+	objects := make(map[int]bool)
+	for _, page := range pages {
+		objects[page.objNum] = true
 		for _, objNum := range page.parents {
-			copier.pages[objNum] = true
+			objects[objNum] = true
 		}
 	}
+	return objects
+}
+
+// copyPages copies pages of the source in the order given and returns the
+// numbers of the new page objects.
+func copyPages(writer *write.PDFWriter, pagesObjNum int, source *PDFManipulator, tree map[int]bool, selected []pageNode) []int {
+	copier := &pageCopier{writer: writer, source: source, pages: tree, copies: make(map[int]int)}
 
 	// References to a page that is selected lead to its (first) copy
 	pageObjNums := make([]int, 0, len(selected))
@@ -50,7 +52,7 @@ func copyPages(writer *write.PDFWriter, pagesObjNum int, source *PDFManipulator,
 		copier.queue = copier.queue[1:]
 		writer.SetObject(copier.copies[objNum], mapReferences(source.objects[objNum], copier.reference))
 	}
-	return pageObjNums, nil
+	return pageObjNums
 }
 
 // page returns the page dictionary for the copy of a page, with the attributes
@@ -97,14 +99,15 @@ func (c *pageCopier) reference(objNum int) []byte {
 // writePages writes the document with the given pages.
 func writePages(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) ([]byte, error) {
 	// Build Kids array
-	kids := "["
+	var kids bytes.Buffer
+	kids.WriteString("[")
 	for _, objNum := range pageObjNums {
-		kids += fmt.Sprintf("%d 0 R ", objNum)
+		fmt.Fprintf(&kids, "%d 0 R ", objNum)
 	}
-	kids += "]"
+	kids.WriteString("]")
 
 	// Create Pages object
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
+	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids.Bytes(), len(pageObjNums))
 	writer.SetObject(pagesObjNum, []byte(pagesDict))
 
 	// Create Catalog
diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index a49c23d..33949e1 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -12,16 +12,25 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 	if err != nil {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
-	page, err := m.getPage(pageNumber)
-	if err != nil {
-		return fmt.Errorf("failed to get page object: %w", err)
+	if pageNumber < 1 || pageNumber > len(pages) {
+		return fmt.Errorf("failed to get page object: page number %d out of range (1-%d)", pageNumber, len(pages))
+	}
+	if len(pages) == 1 && len(pages[0].parents) > 0 {
+		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
+	if err := m.removePage(pages[pageNumber-1], pageNumber); err != nil {
+		return err
+	}
+
+	// Also need to update /Count in all ancestor Pages objects
+	return m.updatePageCounts(pages[pageNumber-1].parents)
+}
+
+// removePage removes the reference to a page from the page tree
+func (m *PDFManipulator) removePage(page pageNode, pageNumber int) error {
 	if len(page.parents) == 0 {
 		return fmt.Errorf("page %d (object %d) has no parent Pages object", pageNumber, page.objNum)
 	}
-	if len(pages) == 1 {
-		return fmt.Errorf("cannot delete page: would result in 0 pages")
-	}
 
 	// Remove the reference to the page from the /Kids of its parent, and the
 	// parent from its own parent if it has no other kids
@@ -40,9 +49,6 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 		removed = page.parents[i]
 	}
 
-	// Also need to update /Count in all ancestor Pages objects
-	m.updatePageCounts(page.parents)
-
 	if m.verbose {
 		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, page.objNum)
 	}
@@ -74,10 +80,19 @@ func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
 		sorted = append(sorted, pageNumber)
 	}
 	sort.Sort(sort.Reverse(sort.IntSlice(sorted)))
+	var parents []int
+	known := make(map[int]bool)
 	for _, pageNumber := range sorted {
-		if err := m.DeletePage(pageNumber); err != nil {
+		page := pages[pageNumber-1]
+		if err := m.removePage(page, pageNumber); err != nil {
 			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
+		for _, parent := range page.parents {
+			if !known[parent] {
+				known[parent] = true
+				parents = append(parents, parent)
+			}
+		}
 	}
-	return nil
+	return m.updatePageCounts(parents)
 }
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 61800a5..1a48b5d 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -25,6 +25,11 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
+	return extractPages(manipulator, allPages, treeObjects(allPages), pageNumbers)
+}
+
+// extractPages returns a new PDF with pages of the manipulator's document.
+func extractPages(manipulator *PDFManipulator, allPages []pageNode, tree map[int]bool, pageNumbers []int) ([]byte, error) {
 	// Validate page numbers
 	selected := make([]pageNode, 0, len(pageNumbers))
 	for _, pageNum := range pageNumbers {
@@ -37,10 +42,7 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
 	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
-	pageObjNums, err := copyPages(writer, pagesObjNum, manipulator, selected)
-	if err != nil {
-		return nil, fmt.Errorf("failed to copy pages: %w", err)
-	}
+	pageObjNums := copyPages(writer, pagesObjNum, manipulator, tree, selected)
 
 	return writePages(writer, pagesObjNum, pageObjNums)
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index 431968e..1dd89f6 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -70,7 +70,9 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 
 	// Update /Kids and /Count in parent Pages objects
 	m.setKids(parentPagesObjNum, newKids)
-	m.updatePageCounts(parents)
+	if err := m.updatePageCounts(parents); err != nil {
+		return err
+	}
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index 66d21bc..6c3469a 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -37,10 +37,7 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 
 		// Copy the pages and all they depend on to the merged PDF, with new
 		// object numbers to avoid conflicts
-		pageObjNums, err := copyPages(writer, pagesObjNum, manipulator, pages)
-		if err != nil {
-			return nil, fmt.Errorf("failed to copy pages from PDF %d: %w", pdfIdx+1, err)
-		}
+		pageObjNums := copyPages(writer, pagesObjNum, manipulator, treeObjects(pages), pages)
 		allPageObjNums = append(allPageObjNums, pageObjNums...)
 	}
 
diff --git a/core/manipulate/pagetree.go b/core/manipulate/pagetree.go
index 231ffa0..c27bae7 100644
--- a/core/manipulate/pagetree.go
+++ b/core/manipulate/pagetree.go
@@ -39,9 +39,10 @@ func rootPagesObject(trailer *parse.TrailerInfo, get pdfscan.Getter) (int, error
 func pageTree(pagesObjNum int, get pdfscan.Getter) []pageNode {
 	var pages []pageNode
 	visited := make(map[int]bool)
+	var parents []int // of the node being visited
 
-	var walk func(objNum int, parents []int, inherited map[string][]byte)
-	walk = func(objNum int, parents []int, inherited map[string][]byte) {
+	var walk func(objNum int, inherited map[string][]byte)
+	walk = func(objNum int, inherited map[string][]byte) {
 		object, err := get(objNum)
 		if err != nil || visited[objNum] {
 			return
@@ -53,7 +54,7 @@ func pageTree(pagesObjNum int, get pdfscan.Getter) []pageNode {
 			return
 		}
 		if nodeType == "/Page" || nodeType != "/Pages" && kids == nil {
-			pages = append(pages, pageNode{objNum: objNum, parents: parents, inherited: inherited})
+			pages = append(pages, pageNode{objNum: objNum, parents: append([]int(nil), parents...), inherited: inherited})
 			return
 		}
 
@@ -66,14 +67,15 @@ func pageTree(pagesObjNum int, get pdfscan.Getter) []pageNode {
 				attributes[key] = value
 			}
 		}
-		parents = append(parents[:len(parents):len(parents)], objNum)
+		parents = append(parents, objNum)
 		for _, kid := range pdfscan.ArrayItems(kids) {
 			if kidNum, _, ok := pdfscan.Reference(kid, 0); ok {
-				walk(kidNum, parents, attributes)
+				walk(kidNum, attributes)
 			}
 		}
+		parents = parents[:len(parents)-1]
 	}
-	walk(pagesObjNum, nil, nil)
+	walk(pagesObjNum, nil)
 	return pages
 }
 
@@ -123,11 +125,22 @@ func (m *PDFManipulator) setKids(pagesObjNum int, kids [][]byte) {
 }
 
 // updatePageCounts sets the /Count of the given Pages objects
-func (m *PDFManipulator) updatePageCounts(pagesObjNums []int) {
+func (m *PDFManipulator) updatePageCounts(pagesObjNums []int) error {
+	pages, err := m.getAllPages()
+	if err != nil {
+		return err
+	}
+	counts := make(map[int]int)
+	for _, page := range pages {
+		for _, objNum := range page.parents {
+			counts[objNum]++
+		}
+	}
 	for _, objNum := range pagesObjNums {
-		count := fmt.Sprint(len(pageTree(objNum, m.getObject)))
+		count := fmt.Sprint(counts[objNum])
 		m.objects[objNum] = pdfscan.SetDictEntry(m.objects[objNum], "Count", []byte(count))
 	}
+	return nil
 }
 
 // indexOfReference returns the position of the reference to an object, or -1.
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 61b475c..a928601 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -10,8 +10,8 @@ import (
 // RotatePage rotates a specific page by the given angle (90, 180, or 270 degrees)
 // pageNumber is 1-based (first page is 1)
 func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
-	if angle != 90 && angle != 180 && angle != 270 {
-		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
+	if err := checkAngle(angle); err != nil {
+		return err
 	}
 
 	// Get page object
@@ -20,6 +20,12 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 		return fmt.Errorf("failed to get page object: %w", err)
 	}
 
+	m.rotate(page, pageNumber, angle)
+	return nil
+}
+
+// rotate adds an angle to the rotation of a page
+func (m *PDFManipulator) rotate(page pageNode, pageNumber int, angle int) {
 	// Get current rotation
 	rotate := pdfscan.DictValue(m.objects[page.objNum], "Rotate")
 	if rotate == nil {
@@ -42,24 +48,31 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	if m.verbose {
 		fmt.Printf("Rotated page %d by %d degrees (old: %d, new: %d)\n", pageNumber, angle, currentRot, newRot)
 	}
-
-	return nil
 }
 
 // RotateAllPages rotates all pages by the given angle
 func (m *PDFManipulator) RotateAllPages(angle int) error {
-	// Get all page object numbers
-	pageObjNums, err := m.getAllPageObjectNumbers()
+	pages, err := m.getAllPages()
 	if err != nil {
 		return fmt.Errorf("failed to get page objects: %w", err)
 	}
+	if len(pages) == 0 {
+		return nil
+	}
+	if err := checkAngle(angle); err != nil {
+		return fmt.Errorf("failed to rotate page 1: %w", err)
+	}
 
-	for i := range pageObjNums {
-		pageNumber := i + 1
-		if err := m.RotatePage(pageNumber, angle); err != nil {
-			return fmt.Errorf("failed to rotate page %d: %w", pageNumber, err)
-		}
+	for i, page := range pages {
+		m.rotate(page, i+1, angle)
 	}
 
 	return nil
 }
+
+func checkAngle(angle int) error {
+	if angle != 90 && angle != 180 && angle != 270 {
+		return fmt.Errorf("rotation angle must be 90, 180, or 270 degrees, got %d", angle)
+	}
+	return nil
+}
diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index 85c978b..cd8640d 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -18,13 +18,17 @@ func SplitPDF(pdfBytes []byte, pageRanges []PageRange, password []byte, verbose
 		return nil, fmt.Errorf("failed to create manipulator: %w", err)
 	}
 
-	// Get all page object numbers
-	allPageObjNums, err := manipulator.getAllPageObjectNumbers()
+	return splitPages(manipulator, pageRanges)
+}
+
+// splitPages returns a PDF for each range of pages
+func splitPages(manipulator *PDFManipulator, pageRanges []PageRange) ([][]byte, error) {
+	allPages, err := manipulator.getAllPages()
 	if err != nil {
 		return nil, fmt.Errorf("failed to get page objects: %w", err)
 	}
 
-	totalPages := len(allPageObjNums)
+	totalPages := len(allPages)
 	if totalPages == 0 {
 		return nil, fmt.Errorf("PDF has no pages")
 	}
@@ -40,6 +44,7 @@ func SplitPDF(pdfBytes []byte, pageRanges []PageRange, password []byte, verbose
 	}
 
 	// Extract each range
+	tree := treeObjects(allPages)
 	var result [][]byte
 	for _, r := range pageRanges {
 		pageNumbers := make([]int, 0, r.End-r.Start+1)
@@ -47,7 +52,7 @@ func SplitPDF(pdfBytes []byte, pageRanges []PageRange, password []byte, verbose
 			pageNumbers = append(pageNumbers, i)
 		}
 
-		extractedPDF, err := ExtractPages(pdfBytes, pageNumbers, password, verbose)
+		extractedPDF, err := extractPages(manipulator, allPages, tree, pageNumbers)
 		if err != nil {
 			return nil, fmt.Errorf("failed to extract range %d-%d: %w", r.Start, r.End, err)
 		}
@@ -98,5 +103,5 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 		ranges = append(ranges, PageRange{Start: start, End: end})
 	}
 
-	return SplitPDF(pdfBytes, ranges, password, verbose)
+	return splitPages(manipulator, ranges)
 }
diff --git a/core/parse/api.go b/core/parse/api.go
index 30e314a..ff009ba 100644
--- a/core/parse/api.go
+++ b/core/parse/api.go
@@ -29,6 +29,7 @@ package parse
 
 import (
 	"sort"
+	"sync"
 
 	"github.com/benedoc-inc/pdfer/core/encrypt"
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
@@ -53,6 +54,9 @@ type PDF struct {
 	encryption *types.PDFEncryption // Encryption info (nil if unencrypted)
 	trailer    *TrailerInfo         // Parsed trailer information
 	opts       ParseOptions
+
+	streamsMu sync.Mutex
+	streams   map[int]*objectStream // Object streams decoded so far
 }
 
 // XRef represents consolidated cross-reference data for all objects in the PDF.
@@ -116,6 +120,7 @@ func OpenWithOptions(data []byte, opts ParseOptions) (*PDF, error) {
 	if err := pdf.handleEncryption(); err != nil {
 		return nil, types.WrapError(types.ErrCodeDecryptionFailed, "encryption error", err)
 	}
+	pdf.streams = nil // what was decoded before that is not decrypted
 
 	return pdf, nil
 }
@@ -298,13 +303,35 @@ func (p *PDF) GetObject(objNum int) ([]byte, error) {
 		if !ok || container.InStream {
 			return nil, types.NewPDFErrorf(types.ErrCodeObjectNotFound, "object stream %d not found", ref.StreamObjNum).WithContext("object_number", objNum)
 		}
-		return getObjectFromStreamAt(p.raw, objNum, ref.StreamObjNum, container.Offset, ref.StreamIndex, p.encryption, p.opts.Verbose, p.resolveLength)
+		stream, err := p.objectStream(ref.StreamObjNum, container.Offset)
+		if err != nil {
+			return nil, err
+		}
+		return stream.object(objNum, ref.StreamIndex, p.opts.Verbose)
 	}
 
 	// Direct object - get from byte offset
 	return getDirectObject(p.raw, objNum, ref.Offset, p.encryption, p.opts.Verbose, p.resolveLength)
 }
 
+// objectStream returns an object stream, which is decoded only once
+func (p *PDF) objectStream(objNum int, offset int64) (*objectStream, error) {
+	p.streamsMu.Lock()
+	defer p.streamsMu.Unlock()
+	if stream, ok := p.streams[objNum]; ok {
+		return stream, nil
+	}
+	stream, err := readObjectStream(p.raw, objNum, offset, p.encryption, p.resolveLength)
+	if err != nil {
+		return nil, err
+	}
+	if p.streams == nil {
+		p.streams = make(map[int]*objectStream)
+	}
+	p.streams[objNum] = stream
+	return stream, nil
+}
+
 // resolveLength returns the value of an indirect stream length
 func (p *PDF) resolveLength(objNum int) (int, bool) {
 	ref, ok := p.xref.Objects[objNum]
diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 5dc8c5b..8c509bf 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -3,6 +3,7 @@ package parse
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -86,6 +87,30 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 
 // getObjectFromStreamAt extracts an object from the object stream at the given offset
 func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, offset int64, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool, resolve pdfscan.LengthResolver) ([]byte, error) {
+	stream, err := readObjectStream(pdfBytes, streamObjNum, offset, encryptInfo, resolve)
+	if err != nil {
+		return nil, err
+	}
+	return stream.object(objNum, indexInStream, verbose)
+}
+
+// objectStream is a decoded object stream
+type objectStream struct {
+	objNum  int
+	data    []byte              // decoded data
+	entries []objectStreamEntry // objects by index
+	byNum   map[int]int         // object number -> first index
+	starts  []int               // positions of the objects in data, ascending
+}
+
+// objectStreamEntry locates an object in an object stream
+type objectStreamEntry struct {
+	objNum int
+	start  int // position in the decoded data
+}
+
+// readObjectStream decodes the object stream at the given offset
+func readObjectStream(pdfBytes []byte, streamObjNum int, offset int64, encryptInfo *types.PDFEncryption, resolve pdfscan.LengthResolver) (*objectStream, error) {
 	if offset < 0 || offset >= int64(len(pdfBytes)) {
 		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
 	}
@@ -129,58 +154,53 @@ func getObjectFromStreamAt(pdfBytes []byte, objNum int, streamObjNum int, offset
 	}
 
 	// Parse header: pairs of "objnum offset"
-	type objEntry struct {
-		objNum int
-		offset int
-	}
-	var entries []objEntry
-
+	stream := &objectStream{objNum: streamObjNum, data: decompressed, byNum: make(map[int]int)}
 	fields := strings.Fields(string(decompressed[:firstOffset]))
-	for i := 0; i < len(fields)-1 && len(entries) < count; i += 2 {
+	for i := 0; i < len(fields)-1 && len(stream.entries) < count; i += 2 {
 		on, err1 := strconv.Atoi(fields[i])
 		off, err2 := strconv.Atoi(fields[i+1])
 		if err1 != nil || err2 != nil || off < 0 || off > len(decompressed)-firstOffset {
 			return nil, fmt.Errorf("invalid header in object stream %d", streamObjNum)
 		}
-		entries = append(entries, objEntry{objNum: on, offset: off})
+		if _, known := stream.byNum[on]; !known {
+			stream.byNum[on] = len(stream.entries)
+		}
+		stream.entries = append(stream.entries, objectStreamEntry{objNum: on, start: firstOffset + off})
+		stream.starts = append(stream.starts, firstOffset+off)
 	}
+	sort.Ints(stream.starts)
+	return stream, nil
+}
 
-	if indexInStream < 0 || indexInStream >= len(entries) {
-		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
+// object returns the object at an index, or else the one with the number
+func (s *objectStream) object(objNum, indexInStream int, verbose bool) ([]byte, error) {
+	if indexInStream < 0 || indexInStream >= len(s.entries) {
+		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(s.entries))
 	}
 
 	// Find the object at the specified index
-	targetEntry := entries[indexInStream]
+	targetEntry := s.entries[indexInStream]
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
-		found := false
-		for _, e := range entries {
-			if e.objNum == objNum {
-				targetEntry = e
-				found = true
-				break
-			}
-		}
+		index, found := s.byNum[objNum]
 		if !found {
 			return nil, fmt.Errorf("object %d not found in object stream (expected at index %d)", objNum, indexInStream)
 		}
+		targetEntry = s.entries[index]
 	}
 
 	// The object ends where the next one starts, or at the end of the stream
-	objDataStart := firstOffset + targetEntry.offset
-	objDataEnd := len(decompressed)
-	for _, e := range entries {
-		if start := firstOffset + e.offset; start > objDataStart && start < objDataEnd {
-			objDataEnd = start
-		}
+	objDataEnd := len(s.data)
+	if next := sort.SearchInts(s.starts, targetEntry.start+1); next < len(s.starts) {
+		objDataEnd = s.starts[next]
 	}
 
 	// Trim surrounding whitespace
-	objectData := bytes.Trim(decompressed[objDataStart:objDataEnd], " \t\r\n")
+	objectData := bytes.Trim(s.data[targetEntry.start:objDataEnd], " \t\r\n")
 
 	if verbose {
-		fmt.Printf("Extracted object %d from stream %d: %d bytes\n", objNum, streamObjNum, len(objectData))
+		fmt.Printf("Extracted object %d from stream %d: %d bytes\n", objNum, s.objNum, len(objectData))
 	}
 
-	return objectData, nil
+	return append([]byte(nil), objectData...), nil
 }
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 20ad1c8..c564818 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -3,6 +3,7 @@ package acroform
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -54,16 +55,16 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 
 // GetFullName returns the full field name (handles hierarchical names)
 func (f *Field) GetFullName() string {
-	if f.Parent != nil {
-		parentName := f.Parent.GetFullName()
-		if f.T == "" {
-			return parentName
-		}
-		if parentName != "" {
-			return parentName + "." + f.T
+	var names []string
+	for ; f != nil; f = f.Parent {
+		if f.T != "" {
+			names = append(names, f.T)
 		}
 	}
-	return f.T
+	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
+		names[i], names[j] = names[j], names[i]
+	}
+	return strings.Join(names, ".")
 }
 
 // FindFieldByName finds a field by its full name, or else by its partial name
-- 
2.43.0


From fd2e0e0cc42132f9fcdd89ccdb668de3f481be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 22/41] fix: read each cross-reference section once and pair
 equal page elements in one pass

---
 core/compare/compare.go       | 10 +++++++---
 core/compare/text_diff.go     | 22 +++++-----------------
 core/parse/document_parser.go | 27 +++++++++++++++++++++++----
 3 files changed, 35 insertions(+), 24 deletions(-)

diff --git a/core/compare/compare.go b/core/compare/compare.go
index 28aa0fc..a2ce550 100644
--- a/core/compare/compare.go
+++ b/core/compare/compare.go
@@ -557,12 +557,16 @@ func abs(x float64) float64 {
 // unpaired one it matches, and returns the pairs and the elements left over.
 func matchFirst[T any](list1, list2 []T, match func(e1, e2 T) bool) (pairs [][2]T, left1, left2 []T) {
 	paired := make([]bool, len(list2))
+	first := 0 // Everything before is paired
 search:
 	for _, e1 := range list1 {
-		for i2, e2 := range list2 {
-			if !paired[i2] && match(e1, e2) {
+		for first < len(list2) && paired[first] {
+			first++
+		}
+		for i2 := first; i2 < len(list2); i2++ {
+			if !paired[i2] && match(e1, list2[i2]) {
 				paired[i2] = true
-				pairs = append(pairs, [2]T{e1, e2})
+				pairs = append(pairs, [2]T{e1, list2[i2]})
 				continue search
 			}
 		}
diff --git a/core/compare/text_diff.go b/core/compare/text_diff.go
index bf2eb63..cba9f6e 100644
--- a/core/compare/text_diff.go
+++ b/core/compare/text_diff.go
@@ -26,26 +26,14 @@ func compareText(text1, text2 []types.TextElement, opts CompareOptions) *TextDif
 	// 2. Then, use content-based matching for text that moved or was reordered
 	// 3. Finally, use Myers diff algorithm for semantic content comparison
 
+	// Phase 1: Exact matches (same text, same position within tolerance)
+	_, text1, text2 = matchFirst(text1, text2, func(t1, t2 types.TextElement) bool {
+		return elementsEqual(t1, t2, opts)
+	})
+
 	text1Matched := make(map[int]bool)
 	text2Matched := make(map[int]bool)
 
-	// Phase 1: Exact matches (same text, same position within tolerance)
-	for i1, t1 := range text1 {
-		if text1Matched[i1] {
-			continue
-		}
-		for i2, t2 := range text2 {
-			if text2Matched[i2] {
-				continue
-			}
-			if elementsEqual(t1, t2, opts) {
-				text1Matched[i1] = true
-				text2Matched[i2] = true
-				break
-			}
-		}
-	}
-
 	// Phase 2: Position-based modifications (same position, different text)
 	for i1, t1 := range text1 {
 		if text1Matched[i1] {
diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 100d63b..e862a28 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -35,8 +35,10 @@ func ParsePDFDocument(pdfBytes []byte) (*PDFDocument, error) {
 	}
 
 	// Parse each revision
+	xrefs := &xrefReader{pdfBytes: pdfBytes, xrefs: make(map[int64]*XRefData), errs: make(map[int64]error)}
+	resolve := newLengthResolver(pdfBytes)
 	for i, eofOffset := range eofOffsets {
-		rev, err := parseRevision(pdfBytes, i+1, eofOffset, doc)
+		rev, err := parseRevision(pdfBytes, i+1, eofOffset, doc, xrefs, resolve)
 		if err != nil {
 			// Log warning but continue
 			continue
@@ -110,8 +112,26 @@ func ParsePDFHeader(pdfBytes []byte) (*PDFHeader, error) {
 	return header, nil
 }
 
+// xrefReader reads the cross-reference sections of a document, each once: any
+// number of revisions can name the same one.
+type xrefReader struct {
+	pdfBytes []byte
+	xrefs    map[int64]*XRefData
+	errs     map[int64]error
+}
+
+// at returns the section at the offset
+func (r *xrefReader) at(startXRef int64) (*XRefData, error) {
+	xref, ok := r.xrefs[startXRef]
+	if !ok {
+		xref, r.errs[startXRef] = ParseXRefDataRaw(r.pdfBytes, startXRef)
+		r.xrefs[startXRef] = xref
+	}
+	return xref, r.errs[startXRef]
+}
+
 // parseRevision parses a single revision ending at the given %%EOF offset
-func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument) (*PDFRevision, error) {
+func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument, xrefs *xrefReader, resolve pdfscan.LengthResolver) (*PDFRevision, error) {
 	rev := &PDFRevision{
 		Number:    revNum,
 		Objects:   make(map[int]*PDFRawObject),
@@ -133,7 +153,7 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	rev.StartXRef = startXRef
 
 	// Parse xref data
-	xref, err := ParseXRefDataRaw(pdfBytes, startXRef)
+	xref, err := xrefs.at(startXRef)
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse xref: %v", err)
 	}
@@ -160,7 +180,6 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 	}
 
 	// Parse objects in this revision's xref
-	resolve := newLengthResolver(pdfBytes)
 	for _, entry := range xref.Entries {
 		if !entry.InUse || entry.InObjectStream {
 			continue
-- 
2.43.0


From 48ffc513498d035eca5c446928f32c97d8a92df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 23/41] fix: give cross-reference entries, samples and custom
 metadata in a fixed order

---
 core/parse/document_parser.go |  5 +++++
 core/parse/parser.go          | 15 ++++++++-------
 core/write/metadata.go        | 10 ++++++++--
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index e862a28..6a16689 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
@@ -281,6 +282,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 		})
 	}
 
+	sort.SliceStable(xref.Entries, func(i, j int) bool {
+		return xref.Entries[i].ObjectNum < xref.Entries[j].ObjectNum
+	})
+
 	return xref, nil
 }
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index fa088be..8786721 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
@@ -149,16 +150,16 @@ func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64,
 	return objMap, nil
 }
 
-// GetSampleObjectNumbers returns a sample of object numbers from the map (for debugging)
+// GetSampleObjectNumbers returns a sample of object numbers from the map, the
+// lowest ones (for debugging)
 func GetSampleObjectNumbers(objMap map[int]int64, max int) []int {
-	result := make([]int, 0, max)
-	count := 0
+	result := make([]int, 0, len(objMap))
 	for objNum := range objMap {
-		if count >= max {
-			break
-		}
 		result = append(result, objNum)
-		count++
+	}
+	sort.Ints(result)
+	if len(result) > max {
+		result = result[:max]
 	}
 	return result
 }
diff --git a/core/write/metadata.go b/core/write/metadata.go
index b1f8aa8..c139cf7 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -2,6 +2,7 @@ package write
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 	"time"
 
@@ -50,8 +51,13 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	}
 
 	// Add custom fields
-	for key, value := range metadata.Custom {
-		if key != "" && value != "" {
+	keys := make([]string, 0, len(metadata.Custom))
+	for key := range metadata.Custom {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		if value := metadata.Custom[key]; key != "" && value != "" {
 			key = pdfscan.EncodeName(strings.TrimPrefix(key, "/"))
 			dict[key] = textValue(value)
 		}
-- 
2.43.0


From c565d36f8ab2089b6b665c25b5ec9c199efd4cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:17 +0000
Subject: [PATCH 24/41] fix: validate numbers by the digits that filling
 stores, so that large and small ones are not refused

---
 forms/acroform/validation.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index b7602a6..28baa58 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -83,19 +83,16 @@ func valueItems(value interface{}) []string {
 		return v
 	case []interface{}:
 		for _, item := range v {
-			items = append(items, fmt.Sprint(item))
+			items = append(items, formatFieldValue(item, ""))
 		}
 		return items
 	}
-	return []string{fmt.Sprint(value)}
+	return []string{formatFieldValue(value, "")}
 }
 
 // validateTextField validates a text field
 func validateTextField(field *Field, value interface{}) error {
-	valueStr, ok := value.(string)
-	if !ok {
-		valueStr = fmt.Sprintf("%v", value)
-	}
+	valueStr := formatFieldValue(value, field.FT)
 
 	// Check max length
 	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
@@ -120,7 +117,7 @@ func validateTextField(field *Field, value interface{}) error {
 func validateButtonField(field *Field, value interface{}) error {
 	// Radio buttons should match one of the option values, or be off
 	if field.Ff&flagPushbutton == 0 && field.Ff&flagRadio != 0 && len(field.Opt) > 0 {
-		valueStr := fmt.Sprint(value)
+		valueStr := formatFieldValue(value, "")
 		if valueStr != "Off" && value != false && !hasOption(field.Opt, valueStr) {
 			return &ValidationError{
 				FieldName: field.GetFullName(),
-- 
2.43.0


From 151588af80bec12a8d2613490ba4fb1058096630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 25/41] fix: report the bleed, trim and art boxes of a page

---
 content/extract/pages.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/extract/pages.go b/content/extract/pages.go
index c305cfe..4c52f7d 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -123,6 +123,9 @@ func extractPage(pdf *parse.PDF, object pageObject, pageNum int, verbose bool) t
 		page.Height = page.MediaBox.UpperY - page.MediaBox.LowerY
 	}
 	page.CropBox = rectangle(pdfscan.Numbers(object.attribute("CropBox", pdf), pdf.GetObject))
+	page.BleedBox = rectangle(pdfscan.LookupNumbers(object.dict, "BleedBox", pdf.GetObject))
+	page.TrimBox = rectangle(pdfscan.LookupNumbers(object.dict, "TrimBox", pdf.GetObject))
+	page.ArtBox = rectangle(pdfscan.LookupNumbers(object.dict, "ArtBox", pdf.GetObject))
 
 	// Extract rotation
 	if rotation, ok := pdfscan.Number(object.attribute("Rotate", pdf)); ok && math.Abs(rotation) < 1e6 {
-- 
2.43.0


From 18907d92dab59f8261d534c6c176210f53f36616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 26/41] fix: detect forms when extracting to a directory

---
 content/extract/directory.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index 2e363bd..dda5687 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -6,6 +6,8 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -225,6 +227,8 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		extractedContent.Pages = append(extractedContent.Pages, extractedPage)
 	}
 
+	hasForms := containsForm(pdfBytes, password)
+
 	// Determine if this is a scanned PDF (images but no text)
 	isScannedPDF := hasImages && !hasText && len(doc.Pages) > 0
 
@@ -235,7 +239,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageCount:    len(allImages),
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false, // TODO: Detect forms
+		HasForms:      hasForms,
 		HasBookmarks:  len(doc.Bookmarks) > 0,
 		IsScannedPDF:  isScannedPDF,
 	}
@@ -258,7 +262,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 		ImageFiles:    imageFiles,
 		HasText:       hasText,
 		HasImages:     hasImages,
-		HasForms:      false,
+		HasForms:      hasForms,
 		IsScannedPDF:  isScannedPDF,
 		PageCount:     len(doc.Pages),
 		TextCharCount: totalTextChars,
@@ -268,6 +272,17 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 	return output, nil
 }
 
+// containsForm reports whether the document has an interactive form: fields or XFA
+func containsForm(pdfBytes []byte, password []byte) bool {
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: password})
+	if err != nil {
+		return false
+	}
+	form := pdfscan.LookupDict(catalogDict(pdf), "AcroForm", pdf.GetObject)
+	return pdfscan.Lookup(form, "XFA", pdf.GetObject) != nil ||
+		len(pdfscan.ArrayItems(pdfscan.Lookup(form, "Fields", pdf.GetObject))) > 0
+}
+
 // ExtractToDirectoryFromFile extracts a PDF file to a directory
 func ExtractToDirectoryFromFile(pdfPath string, password []byte, outputDir string, verbose bool) (*DirectoryOutput, error) {
 	pdfBytes, err := os.ReadFile(pdfPath)
-- 
2.43.0


From 60dd1368f13743521db59fce4933049e07dc69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:28 +0000
Subject: [PATCH 27/41] fix: keep extracted numbers finite, so that content
 with huge ones can be written as JSON

---
 content/extract/content_stream.go | 20 ++++++++++++++++++--
 content/extract/pages.go          |  8 ++++----
 internal/pdfscan/lookup.go        |  5 ++++-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index a299815..15cc880 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -399,12 +399,21 @@ func contentNumber(operand []byte) (float64, bool) {
 	if !ok && len(operand) > 1 && operand[0] == '-' && operand[1] == '-' {
 		return contentNumber(operand[1:]) // written by some producers
 	}
-	return number, ok
+	return limit(number), ok
+}
+
+// maxNumber is the largest number that readers have to deal with. Limiting
+// numbers to it keeps everything that is computed from them finite.
+const maxNumber = math.MaxFloat32
+
+// limit returns the nearest number that is not too large.
+func limit(number float64) float64 {
+	return math.Max(-maxNumber, math.Min(number, maxNumber))
 }
 
 // multiply returns the matrix that applies m and then n.
 func multiply(m, n [6]float64) [6]float64 {
-	return [6]float64{
+	product := [6]float64{
 		m[0]*n[0] + m[1]*n[2],
 		m[0]*n[1] + m[1]*n[3],
 		m[2]*n[0] + m[3]*n[2],
@@ -412,6 +421,10 @@ func multiply(m, n [6]float64) [6]float64 {
 		m[4]*n[0] + m[5]*n[2] + n[4],
 		m[4]*n[1] + m[5]*n[3] + n[5],
 	}
+	for i, number := range product {
+		product[i] = limit(number)
+	}
+	return product
 }
 
 // setDeviceColor sets a colour and its space with the g, rg or k operator.
@@ -645,6 +658,9 @@ func (ci *contentInterpreter) drawForm(objNum int, resources []byte) {
 	state, stack, textMatrix, lineMatrix := ci.state, ci.stack, ci.textMatrix, ci.lineMatrix
 	ci.stack, ci.subpaths = nil, nil
 	if matrix := pdfscan.LookupNumbers(dict, "Matrix", ci.pdf.GetObject); len(matrix) == 6 {
+		for i, number := range matrix {
+			matrix[i] = limit(number)
+		}
 		ci.state.matrix = multiply([6]float64(matrix), ci.state.matrix)
 	}
 	ci.formDepth++
diff --git a/content/extract/pages.go b/content/extract/pages.go
index 4c52f7d..e6f8e48 100644
--- a/content/extract/pages.go
+++ b/content/extract/pages.go
@@ -49,10 +49,10 @@ func rectangle(corners []float64) *types.Rectangle {
 		return nil
 	}
 	return &types.Rectangle{
-		LowerX: math.Min(corners[0], corners[2]),
-		LowerY: math.Min(corners[1], corners[3]),
-		UpperX: math.Max(corners[0], corners[2]),
-		UpperY: math.Max(corners[1], corners[3]),
+		LowerX: limit(math.Min(corners[0], corners[2])),
+		LowerY: limit(math.Min(corners[1], corners[3])),
+		UpperX: limit(math.Max(corners[0], corners[2])),
+		UpperY: limit(math.Max(corners[1], corners[3])),
 	}
 }
 
diff --git a/internal/pdfscan/lookup.go b/internal/pdfscan/lookup.go
index 5084293..2eda005 100644
--- a/internal/pdfscan/lookup.go
+++ b/internal/pdfscan/lookup.go
@@ -124,7 +124,10 @@ func Number(value []byte) (float64, bool) {
 		return 0, false
 	}
 	number, err := strconv.ParseFloat(string(value), 64)
-	return number, err == nil
+	if err != nil {
+		return 0, false
+	}
+	return number, true
 }
 
 // IsString reports whether a value is a literal or hexadecimal string.
-- 
2.43.0


From 28ba816784a0bc0e0e899dcbb4da17bd00ceedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 28/41] fix: leave the page as it is when a watermark is
 refused, and use the defaults for what its options leave out

---
 core/write/watermark.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/core/write/watermark.go b/core/write/watermark.go
index 0dae40a..d477bcb 100644
--- a/core/write/watermark.go
+++ b/core/write/watermark.go
@@ -41,10 +41,26 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		options = DefaultWatermarkOptions()
 	}
 
-	if options.Color == nil {
-		withColor := *options
-		withColor.Color = DefaultWatermarkOptions().Color
-		options = &withColor
+	// Fill in what is not specified
+	complete, defaults := *options, DefaultWatermarkOptions()
+	if complete.Color == nil {
+		complete.Color = defaults.Color
+	}
+	if complete.FontName == "" {
+		complete.FontName = defaults.FontName
+	}
+	if complete.FontSize == 0 {
+		complete.FontSize = defaults.FontSize
+	}
+	options = &complete
+
+	// Check before drawing, so that a refused watermark leaves the page as it is
+	if options.ImageName != "" {
+		if _, exists := pb.images[options.ImageName]; !exists {
+			return fmt.Errorf("image %q not found in page resources", options.ImageName)
+		}
+	} else if options.Text == "" {
+		return fmt.Errorf("watermark text cannot be empty")
 	}
 
 	// Save graphics state
@@ -88,11 +104,6 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 
 	if options.ImageName != "" {
 		// Image watermark
-		// Add image to resources if not already added
-		if _, exists := pb.images[options.ImageName]; !exists {
-			return fmt.Errorf("image %q not found in page resources", options.ImageName)
-		}
-
 		// Draw image centered using Do operator
 		// Scale and position the image
 		// For simplicity, scale to reasonable size and center
@@ -102,10 +113,6 @@ func (pb *PageBuilder) AddWatermark(options *WatermarkOptions) error {
 		pb.content.DrawImage("/" + options.ImageName)
 	} else {
 		// Text watermark
-		if options.Text == "" {
-			return fmt.Errorf("watermark text cannot be empty")
-		}
-
 		// Add font if not already added
 		fontName := pb.AddStandardFont(options.FontName)
 
-- 
2.43.0


From 422c1ed11ca1edd3be33113a0515bff89d53d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 29/41] fix: give appearances of text and buttons their font,
 font size and encoding

---
 forms/acroform/appearance.go | 93 ++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/forms/acroform/appearance.go b/forms/acroform/appearance.go
index 009e375..7f2042b 100644
--- a/forms/acroform/appearance.go
+++ b/forms/acroform/appearance.go
@@ -3,7 +3,9 @@ package acroform
 
 import (
 	"fmt"
+	"slices"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/write"
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
@@ -73,6 +75,10 @@ func (ab *AppearanceBuilder) CreateCheckboxAppearance(checked bool, width, heigh
 
 // CreateTextAppearance creates an appearance stream for a text field
 func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fontSize float64, fontName string) (int, error) {
+	escapedText, err := escapeAppearanceText(text)
+	if err != nil {
+		return 0, err
+	}
 	var content strings.Builder
 
 	content.WriteString("q\n") // Save state
@@ -86,8 +92,6 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 	textY := height * 0.2 // Leave some margin
 	content.WriteString(fmt.Sprintf("0 %.2f Td\n", textY))
 
-	// Escape text for PDF
-	escapedText := escapeAppearanceText(text)
 	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapedText))
 
 	content.WriteString("ET\n") // End text
@@ -95,15 +99,11 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 	// Create appearance stream
 	appearanceDict := write.Dictionary{
-		"/Type":    "/XObject",
-		"/Subtype": "/Form",
-		"/BBox":    []interface{}{0, 0, width, height},
-		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
-		"/Resources": write.Dictionary{
-			"/Font": write.Dictionary{
-				fontName: fmt.Sprintf("%d 0 R", 0), // Font reference (would need actual font)
-			},
-		},
+		"/Type":      "/XObject",
+		"/Subtype":   "/Form",
+		"/BBox":      []interface{}{0, 0, width, height},
+		"/Matrix":    []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": appearanceResources(fontName),
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
@@ -112,6 +112,10 @@ func (ab *AppearanceBuilder) CreateTextAppearance(text string, width, height, fo
 
 // CreateButtonAppearance creates an appearance stream for a button
 func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height, fontSize float64) (int, error) {
+	escapedLabel, err := escapeAppearanceText(label)
+	if err != nil {
+		return 0, err
+	}
 	var content strings.Builder
 
 	content.WriteString("q\n") // Save state
@@ -129,32 +133,63 @@ func (ab *AppearanceBuilder) CreateButtonAppearance(label string, width, height,
 
 	// Draw text (centered)
 	content.WriteString("BT\n") // Begin text
-	content.WriteString("/Helvetica 12 Tf\n")
+	content.WriteString(fmt.Sprintf("/Helvetica %.2f Tf\n", fontSize))
 	content.WriteString("0 0 0 rg\n") // Black text
 
 	// Center text
-	textX := (width - float64(len(label))*6) / 2 // Rough centering
-	textY := (height - 12) / 2
+	textX := (width - float64(utf8.RuneCountInString(label))*fontSize/2) / 2 // Rough centering
+	textY := (height - fontSize) / 2
 	content.WriteString(fmt.Sprintf("%.2f %.2f Td\n", textX, textY))
-	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapeAppearanceText(label)))
+	content.WriteString(fmt.Sprintf("(%s) Tj\n", escapedLabel))
 	content.WriteString("ET\n") // End text
 
 	content.WriteString("Q\n") // Restore state
 
 	// Create appearance stream
 	appearanceDict := write.Dictionary{
-		"/Type":    "/XObject",
-		"/Subtype": "/Form",
-		"/BBox":    []interface{}{0, 0, width, height},
-		"/Matrix":  []interface{}{1, 0, 0, 1, 0, 0},
+		"/Type":      "/XObject",
+		"/Subtype":   "/Form",
+		"/BBox":      []interface{}{0, 0, width, height},
+		"/Matrix":    []interface{}{1, 0, 0, 1, 0, 0},
+		"/Resources": appearanceResources("Helvetica"),
 	}
 
 	appearanceNum := ab.writer.AddStreamObject(appearanceDict, []byte(content.String()), true)
 	return appearanceNum, nil
 }
 
-// escapeAppearanceText escapes text for appearance streams
-func escapeAppearanceText(s string) string {
+// textFonts are the standard fonts that text can be shown with.
+var textFonts = []string{
+	"Helvetica", "Helvetica-Bold", "Helvetica-Oblique", "Helvetica-BoldOblique",
+	"Times-Roman", "Times-Bold", "Times-Italic", "Times-BoldItalic",
+	"Courier", "Courier-Bold", "Courier-Oblique", "Courier-BoldOblique",
+}
+
+// appearanceResources returns the resources of an appearance with a font: the
+// standard font of that name, or Helvetica.
+func appearanceResources(fontName string) write.Dictionary {
+	baseFont := "Helvetica"
+	if slices.Contains(textFonts, fontName) {
+		baseFont = fontName
+	}
+	return write.Dictionary{
+		"/Font": write.Dictionary{
+			fontName: write.Dictionary{
+				"/Type":     "/Font",
+				"/Subtype":  "/Type1",
+				"/BaseFont": "/" + baseFont,
+				"/Encoding": "/WinAnsiEncoding",
+			},
+		},
+	}
+}
+
+// winAnsi lists the characters of the codes 128 to 159 of WinAnsiEncoding, whose
+// other codes are those of Latin-1.
+var winAnsi = []rune("€\x00‚ƒ„…†‡ˆ‰Š‹Œ\x00Ž\x00\x00‘’“”•–—˜™š›œ\x00žŸ")
+
+// escapeAppearanceText encodes and escapes text for appearance streams
+func escapeAppearanceText(s string) (string, error) {
 	var result strings.Builder
 	for _, r := range s {
 		switch r {
@@ -171,14 +206,22 @@ func escapeAppearanceText(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
+			code := r
+			if r > 255 || r >= 128 && r < 160 {
+				i := slices.Index(winAnsi, r)
+				if i < 0 {
+					return "", fmt.Errorf("character %q is not in the encoding of the font", r)
+				}
+				code = rune(128 + i)
+			}
+			if code > 127 {
+				result.WriteString(fmt.Sprintf("\\%03o", code))
 			} else {
-				result.WriteRune(r)
+				result.WriteRune(code)
 			}
 		}
 	}
-	return result.String()
+	return result.String(), nil
 }
 
 // AddAppearanceToField adds an appearance stream to a field object
-- 
2.43.0


From 263c5ef10bf657ffb85f88f527e456797664c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 30/41] fix: keep the catalog that is set already when a form
 is built

---
 core/write/writer.go          | 7 +++++++
 forms/acroform/integration.go | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 8c9aef0..601cb1b 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -206,6 +206,13 @@ func (w *PDFWriter) SetRoot(objNum int) {
 	w.rootRef = fmt.Sprintf("%d 0 R", objNum)
 }
 
+// RootObjNum returns the object number of the root (catalog), or 0 if it is not set
+func (w *PDFWriter) RootObjNum() int {
+	objNum := 0
+	fmt.Sscanf(w.rootRef, "%d 0 R", &objNum)
+	return objNum
+}
+
 // SetInfo sets the info dictionary object reference
 func (w *PDFWriter) SetInfo(objNum int) {
 	w.infoRef = fmt.Sprintf("%d 0 R", objNum)
diff --git a/forms/acroform/integration.go b/forms/acroform/integration.go
index 75d216b..66fc8c6 100644
--- a/forms/acroform/integration.go
+++ b/forms/acroform/integration.go
@@ -4,8 +4,9 @@ package acroform
 import (
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/types"
 	"github.com/benedoc-inc/pdfer/core/write"
+	"github.com/benedoc-inc/pdfer/internal/pdfscan"
+	"github.com/benedoc-inc/pdfer/types"
 )
 
 // FormBuilder integrates AcroForm creation with SimplePDFBuilder
@@ -69,6 +70,11 @@ func (fb *FormBuilder) BuildForm() (int, error) {
 
 	// Update catalog to include AcroForm
 	w := fb.builder.Writer()
+	if catalog, err := w.GetObject(w.RootObjNum()); err == nil && isDict(catalog) {
+		form := []byte(fmt.Sprintf("%d 0 R", acroFormNum))
+		w.SetObject(w.RootObjNum(), pdfscan.SetDictEntry(catalog, "AcroForm", form))
+		return acroFormNum, nil
+	}
 	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R/AcroForm %d 0 R>>",
 		pagesObjNum, acroFormNum)
 	catalogNum := w.AddObject([]byte(catalogDict))
-- 
2.43.0


From f3008d3065e7b620cf2298a650726f0390433279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:41 +0000
Subject: [PATCH 31/41] fix: the command line tells encrypted PDFs by their
 trailer, not by the word anywhere in the file

---
 cmd/pdfer/main.go | 109 +++++++++++++---------------------------------
 1 file changed, 31 insertions(+), 78 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index 3af6443..c3b30e3 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -1,14 +1,13 @@
 package main
 
 import (
-	"bytes"
 	"encoding/json"
 	"flag"
 	"fmt"
 	"log"
 	"os"
 
-	encrypt "github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/forms/xfa"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -122,44 +121,10 @@ func main() {
 		log.Fatalf("Error reading PDF: %v", err)
 	}
 
-	// Check if PDF is encrypted and decrypt if needed
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		if *verbose {
-			log.Printf("PDF is encrypted, attempting to decrypt...")
-		}
-
-		// Try to decrypt with empty password (most eSTAR PDFs allow this)
-		decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, []byte(""), *verbose)
-		if err != nil {
-			if *verbose {
-				log.Printf("Empty password failed, trying common passwords...")
-			}
-			// Try common passwords
-			commonPasswords := [][]byte{[]byte(""), []byte("admin"), []byte("password"), []byte("1234")}
-			decrypted := false
-			for _, pwd := range commonPasswords {
-				decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, pwd, *verbose)
-				if err == nil {
-					pdfBytes = decryptedBytes
-					encryptInfo = encInfo
-					decrypted = true
-					if *verbose {
-						log.Printf("Successfully decrypted PDF")
-					}
-					break
-				}
-			}
-			if !decrypted {
-				log.Fatalf("Could not decrypt PDF: %v", err)
-			}
-		} else {
-			pdfBytes = decryptedBytes
-			encryptInfo = encInfo
-			if *verbose {
-				log.Printf("Successfully decrypted PDF with empty password")
-			}
-		}
+	// Find out how to decrypt the PDF if it is encrypted
+	encryptInfo, err := encryption(pdfBytes, *verbose)
+	if err != nil {
+		log.Fatalf("Could not decrypt PDF: %v", err)
 	}
 
 	// Update XFA in PDF
@@ -201,6 +166,28 @@ func main() {
 	fmt.Printf("Fields filled: %d\n", len(formData))
 }
 
+// encryption returns how to decrypt the PDF, nil if it is not encrypted. It
+// tries the empty password (most eSTAR PDFs allow this) and common ones.
+func encryption(pdfBytes []byte, verbose bool) (*types.PDFEncryption, error) {
+	var firstErr error
+	for _, pwd := range []string{"", "admin", "password", "1234"} {
+		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{Password: []byte(pwd), Verbose: verbose})
+		if err == nil {
+			if verbose && pdf.Encryption() != nil {
+				log.Printf("Successfully decrypted PDF")
+			}
+			return pdf.Encryption(), nil
+		}
+		if firstErr == nil {
+			firstErr = err
+		}
+		if verbose {
+			log.Printf("Could not open PDF, trying common passwords...")
+		}
+	}
+	return nil, firstErr
+}
+
 // handleExtractSchema extracts questionnaire schema from PDF and writes it as JSON
 func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 	// Read PDF file
@@ -209,44 +196,10 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		log.Fatalf("Error reading PDF: %v", err)
 	}
 
-	// Check if PDF is encrypted and decrypt if needed
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		if verbose {
-			log.Printf("PDF is encrypted, attempting to decrypt...")
-		}
-
-		// Try to decrypt with empty password (most eSTAR PDFs allow this)
-		decryptedBytes, encInfo, err := encrypt.DecryptPDF(pdfBytes, []byte(""), verbose)
-		if err != nil {
-			if verbose {
-				log.Printf("Empty password failed, trying common passwords...")
-			}
-			// Try common passwords
-			commonPasswords := [][]byte{[]byte(""), []byte("admin"), []byte("password"), []byte("1234")}
-			decrypted := false
-			for _, pwd := range commonPasswords {
-				decryptedBytes, encInfo, err = encrypt.DecryptPDF(pdfBytes, pwd, verbose)
-				if err == nil {
-					pdfBytes = decryptedBytes
-					encryptInfo = encInfo
-					decrypted = true
-					if verbose {
-						log.Printf("Successfully decrypted PDF")
-					}
-					break
-				}
-			}
-			if !decrypted {
-				log.Fatalf("Could not decrypt PDF: %v", err)
-			}
-		} else {
-			pdfBytes = decryptedBytes
-			encryptInfo = encInfo
-			if verbose {
-				log.Printf("Successfully decrypted PDF with empty password")
-			}
-		}
+	// Find out how to decrypt the PDF if it is encrypted
+	encryptInfo, err := encryption(pdfBytes, verbose)
+	if err != nil {
+		log.Fatalf("Could not decrypt PDF: %v", err)
 	}
 
 	// Extract XFA data from PDF
-- 
2.43.0


From a953d9e38cb03acc9c2b3598667a0869b27940b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:55 +0000
Subject: [PATCH 32/41] fix: the schema is extracted from the XFA template, not
 from the values in datasets

---
 cmd/pdfer/main.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cmd/pdfer/main.go b/cmd/pdfer/main.go
index c3b30e3..482d5df 100644
--- a/cmd/pdfer/main.go
+++ b/cmd/pdfer/main.go
@@ -202,20 +202,22 @@ func handleExtractSchema(inputPDF, outputJSON string, verbose bool) {
 		log.Fatalf("Could not decrypt PDF: %v", err)
 	}
 
-	// Extract XFA data from PDF
-	xfaData, _, err := xfa.FindXFADatasetsStream(pdfBytes, encryptInfo, verbose)
+	// Extract XFA data from PDF: the form is in the template, datasets only
+	// hold its values
+	streams, err := xfa.ExtractAllXFAStreams(pdfBytes, encryptInfo, verbose)
 	if err != nil {
-		log.Fatalf("Error finding XFA datasets stream: %v", err)
+		log.Fatalf("Error extracting XFA streams: %v", err)
 	}
-
-	// Decompress XFA XML
-	xfaXML, _, err := xfa.DecompressStream(xfaData)
-	if err != nil {
-		log.Fatalf("Error decompressing XFA stream: %v", err)
+	form := streams.Template
+	if form == nil {
+		form = streams.Datasets
+	}
+	if form == nil {
+		log.Fatalf("Error finding XFA template stream: the PDF has none")
 	}
 
 	// Parse XFA to FormSchema
-	schema, err := xfa.ParseXFAForm(string(xfaXML), verbose)
+	schema, err := xfa.ParseXFAForm(string(form.Data), verbose)
 	if err != nil {
 		log.Fatalf("Error parsing XFA form: %v", err)
 	}
-- 
2.43.0


From a98ff43089810185bdd0cb75d1f191a76c55d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:34 +0000
Subject: [PATCH 33/41] fix: the writer refuses object numbers no reader
 supports instead of writing an entry for each number below

---
 core/write/writer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index 601cb1b..723f0df 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -245,8 +245,16 @@ func (w *PDFWriter) SetEncryptRef(objNum int) {
 	w.encryptRef = fmt.Sprintf("%d 0 R", objNum)
 }
 
+// maxObjectNumber is the largest object number the PDF specification expects
+// readers to support. The cross-reference has an entry for every number.
+const maxObjectNumber = 8388607
+
 // Write outputs the complete PDF to the given writer
 func (w *PDFWriter) Write(out io.Writer) error {
+	if w.nextObjNum-1 > maxObjectNumber {
+		return fmt.Errorf("object number %d is too large", w.nextObjNum-1)
+	}
+
 	// Update catalog with outlines before writing
 	if w.outlinesRef != "" {
 		w.updateCatalogWithOutlines()
-- 
2.43.0


From 0f2e414c06888d4067351a027f86bcbb23a3fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:01 +0000
Subject: [PATCH 34/41] fix: a field is found by walking its name down the tree
 instead of rebuilding the full name of every field

---
 forms/acroform/extract.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index c564818..3446a66 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -69,19 +69,42 @@ func (f *Field) GetFullName() string {
 
 // FindFieldByName finds a field by its full name, or else by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	if field := findField(af.Fields, func(f *Field) bool { return f.GetFullName() == name }); field != nil {
+	if field := findFullName(af.Fields, "", name); field != nil {
 		return field
 	}
-	return findField(af.Fields, func(f *Field) bool { return f.T == name })
+	return findPartialName(af.Fields, name)
 }
 
-// findField returns the first field that matches, at any depth
-func findField(fields []*Field, match func(*Field) bool) *Field {
+// findFullName returns the first field at any depth whose full name, after the
+// part that its parents have, is rest; separator precedes the name of a field
+// whose parents have one
+func findFullName(fields []*Field, separator, rest string) *Field {
 	for _, field := range fields {
-		if match(field) {
+		fieldRest, kidSeparator := rest, separator
+		if field.T != "" {
+			var ok bool
+			if fieldRest, ok = strings.CutPrefix(rest, separator+field.T); !ok {
+				continue
+			}
+			kidSeparator = "."
+		}
+		if fieldRest == "" {
+			return field
+		}
+		if found := findFullName(field.Kids, kidSeparator, fieldRest); found != nil {
+			return found
+		}
+	}
+	return nil
+}
+
+// findPartialName returns the first field at any depth with a partial name
+func findPartialName(fields []*Field, name string) *Field {
+	for _, field := range fields {
+		if field.T == name {
 			return field
 		}
-		if found := findField(field.Kids, match); found != nil {
+		if found := findPartialName(field.Kids, name); found != nil {
 			return found
 		}
 	}
-- 
2.43.0


From dd2738479f1c61a0440ee8ae5cbbc18dcf519aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 35/41] fix: the trailer of a revision reports the file
 identifier

---
 core/parse/document_parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 6a16689..fd97fbd 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -345,6 +345,15 @@ func (t *TrailerData) setValues(dict []byte) {
 	if prev, ok := pdfscan.DictInt(dict, "Prev"); ok {
 		t.Prev = int64(prev)
 	}
+	var id [][]byte
+	for _, item := range pdfscan.ArrayItems(pdfscan.DictValue(dict, "ID")) {
+		if pdfscan.IsString(item) {
+			id = append(id, pdfscan.DecodeString(item))
+		}
+	}
+	if id != nil {
+		t.ID = id
+	}
 }
 
 // ParseRawObject parses a PDF object preserving all raw bytes
-- 
2.43.0


From bef23a09fdff73459171d439bce1c50cdb96ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 36/41] fix: fill bytes before a JPEG marker do not hide the
 marker

---
 core/write/image.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/write/image.go b/core/write/image.go
index fe8101e..629cb56 100644
--- a/core/write/image.go
+++ b/core/write/image.go
@@ -185,6 +185,7 @@ func parseJPEGHeader(data []byte) (width, height int, colorSpace string, err err
 
 		// Skip padding
 		if marker == 0xFF {
+			pos-- // the second byte may begin the marker
 			continue
 		}
 
-- 
2.43.0


From 4a5afe36e5bf2db10eb4ee2eef09fcfc62345180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:00 +0000
Subject: [PATCH 37/41] fix: XFA fields of nested subforms are listed in the
 order of the document

---
 forms/xfa/xfa_form_translator.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forms/xfa/xfa_form_translator.go b/forms/xfa/xfa_form_translator.go
index 48769b5..0ba5e75 100644
--- a/forms/xfa/xfa_form_translator.go
+++ b/forms/xfa/xfa_form_translator.go
@@ -763,11 +763,12 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 						currentField.Description = strings.TrimSpace(currentDescription.String())
 					}
 
+					// The fields of a subform are in the top-level fields too,
+					// in the order of the document
 					if inSubform && currentSubform != nil {
 						currentSubform.Fields = append(currentSubform.Fields, *currentField)
-					} else {
-						structure.Fields = append(structure.Fields, *currentField)
 					}
+					structure.Fields = append(structure.Fields, *currentField)
 				}
 				inField = false
 				inText = false
@@ -778,8 +779,6 @@ func parseXFAStructure(xfaXML string, verbose bool) (*XFAStructure, error) {
 			case "subform":
 				if currentSubform != nil {
 					structure.Subforms = append(structure.Subforms, *currentSubform)
-					// Also add subform fields to top-level fields
-					structure.Fields = append(structure.Fields, currentSubform.Fields...)
 				}
 				inSubform = false
 				currentSubform = nil
-- 
2.43.0


From 8699c97c304d4681cd1bb3227e5ec48d6c63037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:06 +0000
Subject: [PATCH 38/41] fix: a choice list is a select field when an XFA
 template is read as fields

---
 core/parse/xfa_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/parse/xfa_parser.go b/core/parse/xfa_parser.go
index 3f25766..5203740 100644
--- a/core/parse/xfa_parser.go
+++ b/core/parse/xfa_parser.go
@@ -178,9 +178,9 @@ func mapXFATypeToFieldType(xfaType string) string {
 		return "radio"
 	case "checkbox", "checkbutton":
 		return "checkbox"
-	case "select", "choice", "dropdown":
+	case "select", "choice", "choicelist", "dropdown", "listbox":
 		return "select"
-	case "numeric", "decimal", "integer":
+	case "numeric", "decimal", "integer", "float":
 		return "number"
 	case "date", "datefield":
 		return "date"
-- 
2.43.0


From 9960f39631f0d68d0ed2bcbb266ed84893e3c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:09 +0000
Subject: [PATCH 39/41] fix: the values of an XFA form include those of fields
 in groups

---
 forms/forms.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/forms/forms.go b/forms/forms.go
index 85795d0..9b0c0a7 100644
--- a/forms/forms.go
+++ b/forms/forms.go
@@ -97,10 +97,24 @@ func (w *XFAFormWrapper) Validate(data types.FormData) []error {
 }
 
 func (w *XFAFormWrapper) GetValues() map[string]interface{} {
+	values := make(map[string]interface{})
 	if w.datasets != nil {
-		return w.datasets.Fields
+		addValues(values, w.datasets.Fields, w.datasets.Groups)
+	}
+	return values
+}
+
+// addValues adds the values of the fields, and of the fields in the groups, a
+// field further out or further up has precedence
+func addValues(values, fields map[string]interface{}, groups []types.XFAFieldGroup) {
+	for name, value := range fields {
+		if _, ok := values[name]; !ok {
+			values[name] = value
+		}
+	}
+	for _, group := range groups {
+		addValues(values, group.Fields, group.Groups)
 	}
-	return make(map[string]interface{})
 }
 
 // encryption returns how to decrypt the PDF with the password, nil if it is
-- 
2.43.0


From be139108dda84669729c6d8d9baddb0b7da98832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:14 +0000
Subject: [PATCH 40/41] fix: a GoTo action to a page number refers to the
 object of that page

---
 core/write/page.go        |  1 +
 core/write/writer.go      | 14 ++++++++++++--
 forms/acroform/actions.go |  8 ++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/core/write/page.go b/core/write/page.go
index f6037db..d79743d 100644
--- a/core/write/page.go
+++ b/core/write/page.go
@@ -216,6 +216,7 @@ func (b *SimplePDFBuilder) AddPage(size PageSize) *PageBuilder {
 func (b *SimplePDFBuilder) FinalizePage(pb *PageBuilder) {
 	pageObjNum := pb.Build(b.PagesObjNum())
 	b.pages = append(b.pages, pageObjNum)
+	b.writer.pages = append(b.writer.pages, pageObjNum)
 }
 
 // Bytes returns the complete PDF
diff --git a/core/write/writer.go b/core/write/writer.go
index 723f0df..e719c97 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -43,8 +43,9 @@ type PDFWriter struct {
 	encryptInfo     *types.PDFEncryption
 	fileID          []byte
 	pdfVersion      string
-	useXRefStream   bool // If true, use cross-reference stream instead of table
-	useObjectStream bool // If true, compress objects into object streams
+	useXRefStream   bool  // If true, use cross-reference stream instead of table
+	useObjectStream bool  // If true, compress objects into object streams
+	pages           []int // Object numbers of the pages, in the order of the document
 }
 
 // NewPDFWriter creates a new PDF writer
@@ -56,6 +57,15 @@ func NewPDFWriter() *PDFWriter {
 	}
 }
 
+// PageObjNum returns the object number of a page (1-based) that the builder of
+// the document has finalized
+func (w *PDFWriter) PageObjNum(page int) (int, bool) {
+	if page < 1 || page > len(w.pages) {
+		return 0, false
+	}
+	return w.pages[page-1], true
+}
+
 // SetVersion sets the PDF version (e.g., "1.7")
 func (w *PDFWriter) SetVersion(version string) {
 	w.pdfVersion = version
diff --git a/forms/acroform/actions.go b/forms/acroform/actions.go
index dba25c4..4e9da6d 100644
--- a/forms/acroform/actions.go
+++ b/forms/acroform/actions.go
@@ -25,7 +25,7 @@ type Action struct {
 	URI         string // For URI actions
 	JavaScript  string // For JavaScript actions
 	Destination string // For GoTo actions (e.g., "1 0 R" or page number)
-	PageNum     int    // For GoTo actions (page number)
+	PageNum     int    // For GoTo actions (1-based page number, the page must have been finalized)
 }
 
 // AddActionToField adds an action to a field
@@ -48,7 +48,11 @@ func AddActionToField(fieldObjNum int, action *Action, w *write.PDFWriter) error
 			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D %s >>", action.Destination)
 		} else if action.PageNum > 0 {
 			// Create destination reference
-			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D [%d 0 R /Fit] >>", action.PageNum)
+			pageObjNum, ok := w.PageObjNum(action.PageNum)
+			if !ok {
+				return fmt.Errorf("page %d of the GoTo action has not been added", action.PageNum)
+			}
+			actionDict = fmt.Sprintf("<< /Type /Action /S /GoTo /D [%d 0 R /Fit] >>", pageObjNum)
 		} else {
 			return fmt.Errorf("GoTo action requires either Destination or PageNum")
 		}
-- 
2.43.0


From 6f12e2294cc1f3ca18a5d65bebbe8384c1c8df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:29 +0000
Subject: [PATCH 41/41] fix: count the characters of extracted text, not its
 bytes

---
 content/extract/directory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/extract/directory.go b/content/extract/directory.go
index dda5687..5ceeb74 100644
--- a/content/extract/directory.go
+++ b/content/extract/directory.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/internal/pdfscan"
@@ -218,7 +219,7 @@ func ExtractToDirectory(pdfBytes []byte, password []byte, outputDir string, verb
 
 		// Count text characters
 		for _, text := range page.Text {
-			totalTextChars += len(text.Text)
+			totalTextChars += utf8.RuneCountInString(text.Text)
 		}
 		if len(page.Text) > 0 {
 			hasText = true
-- 
2.43.0

