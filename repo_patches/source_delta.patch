From db27e7b18c4f7e50ac2a01cec7019550857b0bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:49 +0000
Subject: [PATCH 1/4] fix: make non-amd64 builds compile with the amd64 API

The fallback declarations of Get8uint32Fast and Get8uint32DeltaFast did not
match the Get8Impl types they are assigned to, and WriteAllDeltaFast and
ReadAllDeltaFast had no fallback at all, so nothing built outside amd64.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From 692a59ff41f053eafaab001c877860c5564be3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 2/4] fix: keep accelerated stream decoding inside the stream

ReadAllFast and ReadAllDeltaFast counted a partial last group as if it held
at least four bytes when deciding whether another 16 byte load is safe. With
count%4 != 0 the last vector load could reach up to three bytes past the end
of an exact length stream. Only count full groups.
---
 pkg/stream/reader/reader_amd64.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..2872b91 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -34,7 +34,11 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only full groups are guaranteed to hold at least 4 bytes, a partial
+		// last group may hold as little as one, so it isn't counted here.
+		fullLen  = count / 4
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -88,7 +92,7 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 
 	// Must be strictly less than the last 4 blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -144,7 +148,11 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only full groups are guaranteed to hold at least 4 bytes, a partial
+		// last group may hold as little as one, so it isn't counted here.
+		fullLen  = count / 4
+		lowest32 = ((fullLen - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -203,7 +211,7 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 
 	// Must be strictly less than the last 4 blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < fullLen-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From ca35a56e19406b5a6aa9fba622fbe5146d9811b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 3/4] fix: keep RandUint32 inside the chosen byte length

randUint32Range includes its upper limit, so the 1, 2 and 3 byte generators
could return an integer that needs one byte more than the chosen length.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From 69c179210632ab900dfb26ac19db1afc9694c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 4/4] fix: replace only the benchmark section of the README

The closing fence was searched from the top of the file, so a code block
above the benchmarks duplicated everything between the two, and a missing
fence caused a slice bounds panic.
---
 tools/parse_and_write_bench.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..68b01c7 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,12 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	contentStart := start + len(bStart)
+	restStart := bytes.Index(allData[contentStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += contentStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0

