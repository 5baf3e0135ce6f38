From 31b490e87764dc708b12d83caee498b6b5d75391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 01/81] fix: int RLEv2 short repeat wrote no byte for zero
 bytes of the value

---
 orc/encoding/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..3ab1405 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1111,7 +1111,7 @@ func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	bb.Reset()
 	for j := 7; j >= 0; j-- { //
 		b := byte(x >> uint(8*j))
-		if b != 0x00 {
+		if b != 0x00 || bb.Len() != 0 || j == 0 { // skip leading zeros only
 			if byte(j) > w { // [1, 8]
 				w = byte(j)
 			}
-- 
2.43.0


From 1434c474d055c3cabb7d46af9eb4a3d3117a337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 02/81] fix: int RLEv2 direct run of zeros wrote no value bits

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 3ab1405..d5d6991 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -515,6 +515,9 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 			width = w
 		}
 	}
+	if width == 0 { // all values 0, width code 0 means 1 bit
+		width = 1
+	}
 
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
-- 
2.43.0


From 9d2c60b7bb0a9b8f5c5d67a93f91f658c7817279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 03/81] fix: int RLEv2 encoder lost values when a full run was
 neither repeat, delta nor patched

---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index d5d6991..72e8f18 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -486,7 +486,8 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			// a full buffer can't be left to next write, run length is 512 at most
+			if (toEnd && len(e.values) != 0) || len(e.values) >= MaxIntRunLength {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From 9460d0747ac1134509071010c387066694963210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:58 +0000
Subject: [PATCH 04/81] fix: int RLEv2 fixed delta run did not accumulate,
 writer used it for all-zero deltas and could not write 12 bit deltas

---
 orc/encoding/int.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 72e8f18..6afb991 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,13 +166,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
@@ -892,9 +893,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 			width = byte(bits)
 		}
 	}
-	if width == 1 { // delta width no 1?
+	if width == 1 || (width == 0 && len(deltas) != 0) { // width 0 is for fixed delta, no 1
 		width = 2
 	}
+	if width == 12 { // not written below
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From b2846a1bc1ebd37de918fbd74a99116e345d8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 05/81] fix: int RLEv2 delta run panicked on base values of 9
 and 10 varint bytes

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 6afb991..1157600 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -443,7 +443,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -461,7 +461,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -918,7 +918,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From af1fa13191194b9933e0a063670223f62037f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 06/81] fix: int RLEv2 patched base run was written with
 widths, gaps or patches its header cannot hold

---
 orc/encoding/int.go | 59 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 1157600..d96f314 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -723,8 +723,13 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 		}
 	}
 
+	w = byte(getClosestFixedBits(int(w))) // only fixed widths can be encoded
+
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
 	if width > w {
+		if base == math.MinInt64 {
+			return false // magnitude with the sign bit is over 8 bytes
+		}
 		pvs.base = base
 		pvs.values = deltaValues
 		pvs.width = w
@@ -749,9 +754,11 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 				previousGap = i
 			}
 		}
-		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+		if len(pvs.patches) > 31 { // patch list length is 5 bits
+			return false
+		}
+		if pgw, pw := patchWidths(pvs); pgw+pw > 64 {
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -776,6 +783,23 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 	return false
 }
 
+// patch gap width 1 to 8 bits, patch width aligned to the encodable ones
+func patchWidths(pvs *patchedValues) (pgw int, pw int) {
+	pgw = 1
+	for _, g := range pvs.gaps {
+		if w := getBitsWidth(uint64(g)); w > pgw {
+			pgw = w
+		}
+	}
+	for _, p := range pvs.patches {
+		if w := getBitsWidth(p); w > pw {
+			pw = w
+		}
+	}
+	pw = getClosestFixedBits(pw)
+	return
+}
+
 func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error {
 	// write header
 	header := make([]byte, 4)
@@ -797,13 +821,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	header[2] = (bw - 1) << 5                                // 3bits for 1 to 8 bytes
 
 	// 5 bits for PW (patch width) (1 to 64 bits)
-	var patchWidth int
-	for _, p := range pvs.patches {
-		patchWidth_ := getBitsWidth(p)
-		if patchWidth_ > patchWidth {
-			patchWidth = patchWidth_
-		}
-	}
+	pgw, patchWidth := patchWidths(pvs)
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -812,13 +830,6 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
-	for _, g := range pvs.gaps {
-		pgw_ := getBitsWidth(uint64(g))
-		if pgw_ > pgw {
-			pgw = pgw_
-		}
-	}
 	header[3] = byte(pgw-1) & 0b111 << 5
 
 	// 5 bits for PLL (patch list length) (0 to 31)
@@ -1015,6 +1026,20 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 	return nil
 }
 
+// smallest width in the 5 bits width table not less than n
+func getClosestFixedBits(n int) int {
+	switch {
+	case n == 0:
+		return 1
+	case n <= 24:
+		return n
+	case n <= 30:
+		return (n + 1) / 2 * 2
+	default:
+		return (n + 7) / 8 * 8
+	}
+}
+
 // return a uint64 bits width
 func getBitsWidth(x uint64) (w int) {
 	for x != 0 {
-- 
2.43.0


From 8220f04e2c898fc440ec679dc7f8af9502cabee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 07/81] fix: int RLEv2 widths 22 and 23 could not be encoded

---
 orc/encoding/package.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..ecafe74 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -161,9 +161,9 @@ func (irl *intRunLengthV1) Encode(out *bytes.Buffer) error {
 
 
 func widthEncoding(width int) (w byte, err error) {
-	if 2 <= width && width <= 21 {
+	if 2 <= width && width <= 24 {
 		w = byte(width - 1)
-		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 21) {
+		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 23) {
 			log.Warnf("encoding: width %d is deprecated", width)
 		}
 		return
-- 
2.43.0


From cee48abc27e49299857df25acab9840bbdb7fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 08/81] fix: int RLEv2 bit values over 56 bits not byte aligned
 were rejected by writer and truncated by reader

---
 orc/encoding/int.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index d96f314..4b064de 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -292,6 +292,15 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 }
 
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
+	if bits > 56 { // left bits and value may not fit in 64 bits
+		high, err := d.readBits(in, bits-8)
+		if err != nil {
+			return 0, err
+		}
+		low, err := d.readBits(in, 8)
+		return high<<8 | low, err
+	}
+
 	hasBits := d.bitsLeft
 	data := uint64(d.lastByte)
 	for ; hasBits < bits; hasBits += 8 {
@@ -343,8 +352,11 @@ func (d *intRLV2Encoder) forgetBits() {
 
 func (e *intRLV2Encoder) writeBits(value uint64, bits int, out *bytes.Buffer) (err error) {
 	totalBits := e.bitsLeft + bits
-	if totalBits > 64 {
-		return errors.New("write bits > 64")
+	if totalBits > 64 { // left bits and value don't fit in 64 bits
+		if err = e.writeBits(value>>8, bits-8, out); err != nil {
+			return err
+		}
+		return e.writeBits(value&0xff, 8, out)
 	}
 
 	if e.lastByte != 0 {
-- 
2.43.0


From 35bf9da924a3323da2844f8451856ae046556805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 09/81] fix: int RLEv2 patch list entries are of closest fixed
 width, up to 64 bits included

---
 orc/encoding/int.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 4b064de..1e54cbe 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -226,7 +226,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -269,7 +269,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 	// decode patch values, PGW+PW must < 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, getClosestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -877,10 +877,11 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	}
 
 	// write patch list, (PLL*(PGW+PW) bytes
+	// entries are of fixed widths as in java writer
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, getClosestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 5f972af1dbaad8b16352115f34363b300f22d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 10/81] fix: int RLEv2 decoder refused patched base runs of
 unsigned values and panicked on patch positions out of the run

---
 orc/encoding/int.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 1e54cbe..aa55fe5 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -263,7 +258,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 			return err
 		}
 		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		d.uvs = append(d.uvs, d.toUnsigned(base+int64(delta)))
 	}
 
 	// decode patch values, PGW+PW must < 64
@@ -281,16 +276,30 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		// todo: check gap==255 and patch==0
 
 		// patchValue should be at largest 63 bits?
-		v := UnZigzag(d.uvs[mark])
+		if mark >= len(d.uvs) {
+			return errors.Errorf("decoding: int rl v2 patch position %d out of %d values", mark, len(d.uvs))
+		}
+		v := int64(d.uvs[mark])
+		if d.signed {
+			v = UnZigzag(d.uvs[mark])
+		}
 		v -= base // remove added base first
 		v |= int64(patch << width)
 		v += base // add base back
-		d.uvs[mark] = Zigzag(v)
+		d.uvs[mark] = d.toUnsigned(v)
 	}
 
 	return nil
 }
 
+// decoded values of signed decoder are zigzag
+func (d *intRLV2Decoder) toUnsigned(v int64) uint64 {
+	if d.signed {
+		return Zigzag(v)
+	}
+	return uint64(v)
+}
+
 func (d *intRLV2Decoder) readBits(in io.ByteReader, bits int) (value uint64, err error) {
 	if bits > 56 { // left bits and value may not fit in 64 bits
 		high, err := d.readBits(in, bits-8)
-- 
2.43.0


From 438e320da948156f862b94e7ab60e6b80e07e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 11/81] fix: bool encoder kept bits of the last flushed byte

---
 orc/encoding/bool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..9874427 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,7 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
 	return nil
 }
 
-- 
2.43.0


From 32ee023b3df3d366f29e98781ff4e165ce1957a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 12/81] fix: float values are little endian in orc files, as
 doubles are

---
 orc/encoding/float.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..bcfb1b8 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,8 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	// little endian as in java writer
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +47,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From 77155479bc92844a96ba84987245ff96640d70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:31 +0000
Subject: [PATCH 13/81] fix: base 128 varuint reading looped forever at end of
 input

---
 orc/encoding/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index ecafe74..db30a89 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 478144999756b0fc4fa1f922ac74e79b570a5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 14/81] fix: zlib compressing more than one chunk failed on the
 closed compressor

---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..4145834 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf) // closed by last chunk
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From a15049da4ffb2f2c453729d77c0920573357c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 15/81] fix: file without compression could not be written

---
 orc/common/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 4145834..e6c1c1a 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -146,7 +146,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
-- 
2.43.0


From b00d51d53007ee439b38ee819c9b12860ecd2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 16/81] fix: truncated compression chunk header was taken as a
 whole one

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index e6c1c1a..e2eba00 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -235,7 +235,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From 8ea975bd4f466b5fc8975181515ff39e94f64a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:40 +0000
Subject: [PATCH 17/81] fix: stream writer without compression panicked on
 reset, so at the second stripe

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..ff8cee7 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil {
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From 14fa6b38f62e0dd244adb709deef642be37546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 18/81] fix: stream seeking only reached the first chunk, and
 failed at the end of stream

---
 orc/stream/reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..d63a508 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -99,8 +99,17 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 		return err
 	}
 	r.readLength = chunk
-	if err := r.readAChunk(); err != nil {
-		return err
+	// offset is over the first chunk if no compression, and may be just the end of stream
+	for uint64(r.buf.Len()) < chunkOffset || r.buf.Len() == 0 {
+		if r.readLength >= r.info.GetLength() {
+			break
+		}
+		if err := r.readAChunk(); err != nil {
+			return err
+		}
+	}
+	if uint64(r.buf.Len()) < chunkOffset {
+		return errors.Errorf("stream %s seeking to %d of chunk %d which is over the end", r.info.String(), chunkOffset, chunk)
 	}
 	r.buf.Next(int(chunkOffset))
 	return nil
-- 
2.43.0


From 485efbf8ca9130e16865e59814b03c33ffb8c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 19/81] fix: byte length over the stream or negative panicked
 in allocation

---
 orc/encoding/string.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..1d3162a 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -34,7 +34,19 @@ func (e *stringContents) GetPosition() []uint64 {
 	return []uint64{}
 }
 
+const maxBytesAllocation = 1024 * 1024
+
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.Errorf("decoding: bytes length %d error", length)
+	}
+	if length > maxBytesAllocation { // length is not trusted
+		buf := &bytes.Buffer{}
+		if _, err := io.CopyN(buf, in, int64(length)); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		return buf.Bytes(), nil
+	}
 	value := make([]byte, length)
 	if _, err := io.ReadFull(in, value); err != nil {
 		return nil, err
-- 
2.43.0


From 14a90c0d943001201a46ac6c24e7599564603936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:39 +0000
Subject: [PATCH 20/81] fix: reading, seeking and closing panicked if a
 column's stream is not in the stripe

---
 orc/column/string.go |  2 +-
 orc/column/time.go   | 13 ++++++++++++-
 orc/stream/bool.go   |  9 +++++++++
 orc/stream/byte.go   |  9 +++++++++
 orc/stream/float.go  | 12 +++++++++---
 orc/stream/int.go    | 24 ++++++++++++++++++++++++
 orc/stream/reader.go |  3 +++
 orc/stream/string.go | 12 ++++++++++++
 8 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..d10f5d9 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -361,7 +361,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..ad56d5d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -191,6 +191,9 @@ func (r *DateV2Reader) NextBatch(vec *api.ColumnVector) error {
 		}
 
 		if !vec.Vector[i].Null {
+			if r.data == nil {
+				return errors.New("date column has no data stream")
+			}
 			vec.Vector[i].V, err = r.data.Next()
 			if err != nil {
 				return err
@@ -212,6 +215,9 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 		}
 
 		if p {
+			if r.data == nil {
+				return errors.New("date column has no data stream")
+			}
 			if _, err = r.data.Next(); err != nil {
 				return err
 			}
@@ -266,6 +272,9 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 		}
 	}
 
+	if r.data == nil {
+		return nil
+	}
 	return r.data.Seek(dataChunk, dataChunkOffset, dataOffset)
 }
 
@@ -273,7 +282,9 @@ func (r *DateV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.data.Close()
+	if r.data != nil {
+		r.data.Close()
+	}
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/stream/bool.go b/orc/stream/bool.go
index aab1535..e95672e 100644
--- a/orc/stream/bool.go
+++ b/orc/stream/bool.go
@@ -18,6 +18,9 @@ func NewBoolReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, in
 }
 
 func (r *BoolReader) Next() (v bool, err error) {
+	if r == nil {
+		return false, errNoStream
+	}
 	if r.pos >= len(r.values) {
 		r.pos = 0
 
@@ -33,6 +36,9 @@ func (r *BoolReader) Next() (v bool, err error) {
 }
 
 func (r *BoolReader) Seek(chunkOffset uint64, offset uint64, byteRLOffset uint64, valueOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.reader.Seek(chunkOffset, offset, byteRLOffset); err != nil {
 		return err
 	}
@@ -51,5 +57,8 @@ func (r *BoolReader) Finished() bool {
 }
 
 func (r *BoolReader) Close() {
+	if r == nil {
+		return
+	}
 	r.reader.Close()
 }
diff --git a/orc/stream/byte.go b/orc/stream/byte.go
index b164bab..5b540d7 100644
--- a/orc/stream/byte.go
+++ b/orc/stream/byte.go
@@ -19,6 +19,9 @@ func NewByteReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, in
 }
 
 func (r *ByteReader) Next() (v byte, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	if r.consumed == len(r.values) {
 		r.values = r.values[:0]
 		r.consumed = 0
@@ -35,6 +38,9 @@ func (r *ByteReader) Next() (v byte, err error) {
 }
 
 func (r *ByteReader) Seek(chunkOffset uint64, offset uint64, valueOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunkOffset, offset); err != nil {
 		return err
 	}
@@ -53,5 +59,8 @@ func (r *ByteReader) Finished() bool {
 }
 
 func (r *ByteReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/float.go b/orc/stream/float.go
index 9b539b5..ca8b67e 100644
--- a/orc/stream/float.go
+++ b/orc/stream/float.go
@@ -19,6 +19,9 @@ func NewFloatReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, i
 }
 
 func (r *FloatReader) NextFloat() (v float32, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	if r.is64 {
 		return 0, errors.Errorf("column %d is 64 bit reader", r.stream.info.GetColumn())
 	}
@@ -26,6 +29,9 @@ func (r *FloatReader) NextFloat() (v float32, err error) {
 }
 
 func (r *FloatReader) NextDouble() (v float64, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	if !r.is64 {
 		return 0, errors.New("is 32 bit reader")
 	}
@@ -40,8 +46,8 @@ func (r FloatReader) Finished() bool {
 }
 
 func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
-	if r.stream==nil {
-		return errors.New("stream not init")
+	if r == nil {
+		return nil
 	}
 
 	// offset always zero
@@ -52,7 +58,7 @@ func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *FloatReader) Close() {
-	if r.stream!=nil {
+	if r != nil && r.stream != nil {
 		r.stream.Close()
 	}
 }
diff --git a/orc/stream/int.go b/orc/stream/int.go
index bda74c3..786727e 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -25,6 +25,9 @@ func NewIntRLV2Reader(opts *config.ReaderOptions, info *pb.Stream, start uint64,
 }
 
 func (r *IntRLV2Reader) NextInt64() (v int64, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	if !r.signed {
 		return 0, errors.New("should be singed int")
 	}
@@ -42,6 +45,9 @@ func (r *IntRLV2Reader) NextInt64() (v int64, err error) {
 }
 
 func (r *IntRLV2Reader) NextUInt64() (v uint64, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	if r.signed {
 		return 0, errors.New("should be un-signed int")
 	}
@@ -78,6 +84,9 @@ func (r *IntRLV2Reader) GetAllUInts() ([]uint64, error) {
 }
 
 func (r *IntRLV2Reader) Finished() bool {
+	if r == nil {
+		return true
+	}
 	if r.signed {
 		return r.stream.finished() && (r.pos == len(r.values))
 	} else {
@@ -86,6 +95,9 @@ func (r *IntRLV2Reader) Finished() bool {
 }
 
 func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunkOffset, offset); err != nil {
 		return err
 	}
@@ -111,6 +123,9 @@ func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
 }
 
 func (r *IntRLV2Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
 
@@ -123,6 +138,9 @@ func NewVarIntReader(opts *config.ReaderOptions, info *pb.Stream, start uint64,
 }
 
 func (r *Varint64Reader) NextInt64() (v int64, err error) {
+	if r == nil {
+		return 0, errNoStream
+	}
 	v, err = encoding.DecodeVarInt64(r.stream)
 	return
 }
@@ -132,6 +150,9 @@ func (r *Varint64Reader) Finished() bool {
 }
 
 func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(offset, uncompressedOffset); err != nil {
 		return err
 	}
@@ -140,5 +161,8 @@ func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
 }
 
 func (r *Varint64Reader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index d63a508..9cb0951 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -13,6 +13,9 @@ import (
 
 var logger = log.New()
 
+// column readers keep nil for a stream which is not in the stripe, it's just empty
+var errNoStream = errors.New("stream does not exist")
+
 func SetLogLevel(level log.Level) {
 	logger.SetLevel(level)
 }
diff --git a/orc/stream/string.go b/orc/stream/string.go
index 8bbbc34..de6d22c 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -16,6 +16,12 @@ func NewStringContentsReader(opts *config.ReaderOptions, info *pb.Stream, start
 }
 
 func (r *StringContentsReader) NextBytes(len uint64) (v []byte, err error) {
+	if r == nil {
+		if len == 0 { // all values are empty
+			return []byte{}, nil
+		}
+		return nil, errNoStream
+	}
 	return encoding.DecodeBytes(r.stream, int(len))
 }
 
@@ -48,6 +54,9 @@ func (r *StringContentsReader) getAllString(byteLengths []uint64) (vs []string,
 }
 
 func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
+	if r == nil {
+		return nil
+	}
 	if err := r.stream.seek(chunk, chunkOffset); err != nil {
 		return err
 	}
@@ -55,5 +64,8 @@ func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *StringContentsReader) Close() {
+	if r == nil {
+		return
+	}
 	r.stream.Close()
 }
-- 
2.43.0


From 154f54974438cd0db8df053c4958a29a71ba772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 21/81] fix: last row of file and of stripe was never read

---
 orc/reader.go | 4 ++--
 orc/stripe.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..e841677 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -172,7 +172,7 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
 
@@ -193,7 +193,7 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		br.stripeIndex--
 	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..f3ca773 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -325,7 +325,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-- 
2.43.0


From dbb58dece93e6a25d199de2f9d056c1f5fca3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 22/81] fix: nulls of last batch remained in a reused vector if
 stripe has no present stream

---
 orc/stripe.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/orc/stripe.go b/orc/stripe.go
index f3ca773..8d7ebda 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -342,6 +342,7 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 	case pb.Type_STRUCT:
 		if stripe.schemas[vec.Id].HasNulls {
 			vec.Vector = vec.Vector[:size]
+			clearNulls(vec.Vector)
 		}
 		for _, c := range vec.Children {
 			stripe.setVectorSize(size, c)
@@ -349,11 +350,13 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 
 	case pb.Type_LIST:
 		vec.Vector = vec.Vector[:size]
+		clearNulls(vec.Vector)
 		// list's children maybe struct
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 
 	case pb.Type_MAP:
 		vec.Vector = vec.Vector[:size]
+		clearNulls(vec.Vector)
 		// toClarify: will map's children be struct or just primary?
 		vec.Children[0].Vector = vec.Children[0].Vector[:0]
 		vec.Children[1].Vector = vec.Children[1].Vector[:0]
@@ -362,6 +365,14 @@ func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
 		panic("not impl")
 	default:
 		vec.Vector = vec.Vector[:size]
+		clearNulls(vec.Vector)
+	}
+}
+
+// vector is reused by batches, and nulls are set only if column has present stream in the stripe
+func clearNulls(values []api.Value) {
+	for i := range values {
+		values[i].Null = false
 	}
 }
 
-- 
2.43.0


From f73e598a2397b67f216481801aa87df0e162a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 23/81] fix: batch of a struct whose first child has no vector
 read no rows forever

---
 orc/api/vector.go |  9 +++++----
 orc/reader.go     | 10 ++++++++--
 orc/stripe.go     |  7 ++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..a58442b 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -58,10 +58,9 @@ func (cv ColumnVector) Len() int {
 		return len(cv.Vector)
 	}
 	for _, c := range cv.Children {
-		if len(c.Vector) != 0 {
-			return len(c.Vector)
+		if l := c.Len(); l != 0 {
+			return l
 		}
-		return c.Len()
 	}
 	return 0
 }
@@ -71,7 +70,9 @@ func (cv ColumnVector) Cap() int {
 		return cap(cv.Vector)
 	} else {
 		for _, c := range cv.Children {
-			return c.Cap()
+			if n := c.Cap(); n != 0 {
+				return n
+			}
 		}
 	}
 	return 0
diff --git a/orc/reader.go b/orc/reader.go
index e841677..408c2c3 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -176,11 +176,18 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		return true, nil
 	}
 
+	if batch.Cap() == 0 { // no row could be read, and end will never reach
+		return false, errors.New("batch has no capacity for rows")
+	}
+
 	for br.stripeIndex < len(br.stripes) {
-		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
+		stripe := br.stripes[br.stripeIndex]
+		start := stripe.cursor
+		stripeEnd, err := stripe.next(batch)
 		if err != nil {
 			return stripeEnd, err
 		}
+		br.cursor += stripe.cursor - start
 		if stripeEnd {
 			br.stripeIndex++
 			break
@@ -192,7 +199,6 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	if br.stripeIndex == len(br.stripes) {
 		br.stripeIndex--
 	}
-	br.cursor += uint64(batch.Len())
 	return br.cursor >= br.numberOfRows, nil
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 8d7ebda..f3629f2 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -317,24 +317,25 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
-	stripe.prepareVector(vec)
+	rows := stripe.prepareVector(vec)
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
 		return
 	}
 
-	stripe.cursor += uint64(vec.Len())
+	stripe.cursor += uint64(rows)
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
 	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) {
+func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) int {
 	page := vec.Cap() - vec.Len()
 	if int(stripe.numberOfRows-stripe.cursor) < page {
 		page = int(stripe.numberOfRows - stripe.cursor)
 	}
 	stripe.setVectorSize(page, vec)
+	return page
 }
 
 func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
-- 
2.43.0


From a12d772f6cf3c10ab8868529b72697a7982a5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 24/81] fix: seek always read from first stride, failed without
 index stride, and did not move to the stripe and row

---
 orc/reader.go | 16 ++++++++++++++--
 orc/stripe.go | 20 +++++++++++++-------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 408c2c3..2523156 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -209,11 +209,23 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// stripes after will be read from start again
+			for _, s := range br.stripes[i+1:] {
+				if s.cursor != 0 {
+					if err := s.Seek(0); err != nil {
+						return err
+					}
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index f3629f2..71c685b 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -379,23 +379,29 @@ func clearNulls(values []api.Value) {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
+	offset := rowNumber
 	var stride uint64
 
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	if stripe.ropts.IndexStride > 0 {
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
+		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
-		return err
+		if stride == 0 {
+			return err
+		}
+		// maybe no index, then skip from start
+		if err := stripe.columnReader.SeekStride(0); err != nil {
+			return err
+		}
+		offset = rowNumber
 	}
 
 	if err := stripe.columnReader.Skip(offset); err != nil {
 		return err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
-- 
2.43.0


From 5f9709ca2854f0003eda5931c3d2cd0b110d7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 25/81] fix: row index had entries of row before, wrong
 positions and shared statistics, and was not listed in stripe and file footer

---
 orc/column/binary.go  |  36 ++++--------
 orc/column/bool.go    |  38 ++++---------
 orc/column/byte.go    |  36 ++++--------
 orc/column/decimal.go |  90 ++++++++----------------------
 orc/column/float.go   |  49 +++-------------
 orc/column/int.go     |  50 ++++-------------
 orc/column/list.go    |  29 +++-------
 orc/column/map.go     |   2 +-
 orc/column/reader.go  |  21 ++++++-
 orc/column/string.go  |  85 ++++------------------------
 orc/column/struct.go  |  48 ++++++----------
 orc/column/time.go    | 127 +++++++++++-------------------------------
 orc/column/writer.go  |  70 ++++++++++++++++++++---
 orc/encoding/bool.go  |   3 +
 orc/encoding/byte.go  |   3 +
 orc/encoding/int.go   |   6 +-
 orc/stripe.go         |  20 ++++++-
 orc/writer.go         |   5 +-
 18 files changed, 256 insertions(+), 462 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..e10a7e6 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -40,6 +40,8 @@ type binaryV2Writer struct {
 }
 
 func (w *binaryV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -50,37 +52,19 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		updateBinaryStats(w.stats)
+		if w.opts.WriteIndex {
+			updateBinaryStats(w.indexStats)
 		}
 	}
+
+	w.endRow()
 	return nil
 }
 
 func (w *binaryV2Writer) Flush() error {
+	w.endStride()
+
 	w.flushed = true
 
 	if w.schema.HasNulls {
@@ -246,7 +230,7 @@ func (r *BinaryV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..947bdef 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -39,49 +39,31 @@ type boolWriter struct {
 }
 
 func (w *boolWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
+
 	if !value.Null {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		if value.V.(bool) {
-			// true count
-			(*w.stats.BucketStatistics).Count[0]++
+		updateBoolStats(w.stats, value.V.(bool))
+		if w.opts.WriteIndex {
+			updateBoolStats(w.indexStats, value.V.(bool))
 		}
-		*w.stats.NumberOfValues++
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// no bytes on disk index stats
-		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.endRow()
 	return nil
 }
 
 func (w *boolWriter) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -226,7 +208,7 @@ func (r *BoolReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset1, dataOffset2 uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 3)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..316f23c 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -34,6 +34,8 @@ type byteWriter struct {
 }
 
 func (w *byteWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -44,33 +46,13 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++ // makeSure:
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		// java impl does not write index statistic bytes on disk, has nulls ...
-		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+		updateBinaryStats(w.stats)
+		if w.opts.WriteIndex {
+			updateBinaryStats(w.indexStats)
 		}
 	}
+
+	w.endRow()
 	return nil
 }
 
@@ -82,6 +64,8 @@ func (w *byteWriter) Size() int {
 }
 
 func (w *byteWriter) Flush() error {
+	w.endStride()
+
 	w.flushed = true
 
 	if w.schema.HasNulls {
@@ -220,7 +204,7 @@ func (r *ByteReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..8db118b 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -1,10 +1,8 @@
 package column
 
 import (
-	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
 
 	"github.com/pkg/errors"
 
@@ -42,6 +40,8 @@ type decimalV2Writer struct {
 }
 
 func (w *decimalV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -56,65 +56,23 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
+		if err := updateDecimalStats(w.stats, d); err != nil {
+			return err
 		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
-		*w.stats.NumberOfValues++
-
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
-			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
+			if err := updateDecimalStats(w.indexStats, d); err != nil {
+				return err
 			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
-			*w.indexStats.NumberOfValues++
 		}
 	}
 
+	w.endRow()
 	return nil
 }
 
 func (w *decimalV2Writer) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -278,10 +236,10 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 		return nil
 	}
 
-	var dataChunk, dataChunkOffset, dataOffset uint64
+	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
@@ -294,9 +252,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 			pOffset2 = pos[2]
 
 			dataChunkOffset = pos[3]
-			dataOffset = pos[4]
-			secondaryChunkOffset = pos[5]
-			secondaryOffset = pos[6]
+			secondaryChunkOffset = pos[4]
+			secondaryOffset = pos[5]
 
 		} else {
 			pChunk = pos[0]
@@ -306,10 +263,9 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
-			dataOffset = pos[6]
-			secondaryChunk = pos[7]
-			secondaryChunkOffset = pos[8]
-			secondaryOffset = pos[9]
+			secondaryChunk = pos[6]
+			secondaryChunkOffset = pos[7]
+			secondaryOffset = pos[8]
 		}
 
 		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
@@ -320,20 +276,18 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 		if r.opts.CompressionKind == pb.CompressionKind_NONE {
 			dataChunkOffset = pos[0]
-			dataOffset = pos[1]
-			secondaryChunkOffset = pos[2]
-			secondaryOffset = pos[3]
+			secondaryChunkOffset = pos[1]
+			secondaryOffset = pos[2]
 		} else {
 			dataChunk = pos[0]
 			dataChunkOffset = pos[1]
-			dataOffset = pos[2]
-			secondaryChunk = pos[3]
-			secondaryChunkOffset = pos[4]
-			secondaryOffset = pos[5]
+			secondaryChunk = pos[2]
+			secondaryChunkOffset = pos[3]
+			secondaryOffset = pos[4]
 		}
 	}
 
-	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
+	if err = r.data.Seek(dataChunk, dataChunkOffset, 0); err != nil {
 		return err
 	}
 	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..f8d6bb7 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -113,7 +113,7 @@ func (r *FloatReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1)
 	if err != nil {
 		return err
 	}
@@ -188,6 +188,8 @@ type floatWriter struct {
 }
 
 func (w *floatWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -204,52 +206,19 @@ func (w *floatWriter) Write(value api.Value) error {
 		} else {
 			v = float64(value.V.(float32))
 		}
-
-		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
+		updateDoubleStats(w.stats, v)
+		if w.opts.WriteIndex {
+			updateDoubleStats(w.indexStats, v)
 		}
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			v := value.V.(float64)
-			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
-				*w.indexStats.DoubleStatistics.Minimum = v
-			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
-				*w.indexStats.DoubleStatistics.Maximum = v
-			}
-
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.endRow()
 	return nil
 }
 
 func (w *floatWriter) Flush() error {
+	w.endStride()
+
 	w.flushed = true
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..f848f4b 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -52,14 +52,16 @@ func (w *intWriter) Writes(values []api.Value) error {
 }
 
 func (w *intWriter) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
 
-	var v int64
 	if !value.Null {
+		var v int64
 		switch w.bits {
 		case BitsSmallInt:
 			v = int64(value.V.(int16))
@@ -72,45 +74,13 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
-			*w.stats.IntStatistics.Minimum = v
-		}
-		if v > *w.stats.IntStatistics.Maximum {
-			*w.stats.IntStatistics.Maximum = v
+		updateIntStats(w.stats, v)
+		if w.opts.WriteIndex {
+			updateIntStats(w.indexStats, v)
 		}
-		*w.stats.NumberOfValues++
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
-				*w.indexStats.IntStatistics.Minimum = v
-			}
-			if v > *w.indexStats.IntStatistics.Maximum {
-				*w.indexStats.IntStatistics.Maximum = v
-			}
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.endRow()
 	return nil
 }
 
@@ -121,7 +91,9 @@ func (w intWriter) Size() int {
 	return w.data.Size()
 }
 
-func (w intWriter) Flush() error {
+func (w *intWriter) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -275,7 +247,7 @@ func (r *IntV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..c9eb5c5 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -128,7 +128,7 @@ func (r *ListV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
@@ -211,6 +211,8 @@ type listV2Writer struct {
 }
 
 func (w *listV2Writer) Write(value api.Value) error {
+	w.startRow(w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -222,33 +224,18 @@ func (w *listV2Writer) Write(value api.Value) error {
 			return err
 		}
 		*w.stats.NumberOfValues++
-	}
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
+		if w.opts.WriteIndex {
 			*w.indexStats.NumberOfValues++
 		}
 	}
+
+	w.endRow()
 	return nil
 }
 
 func (w *listV2Writer) Flush() error {
+	w.endStride()
+
 	w.flushed = true
 
 	if w.schema.HasNulls {
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..fbea8f3 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -149,7 +149,7 @@ func (r *MapV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..4cd9046 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -58,7 +58,8 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	return nil
 }
 
-func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
+// positions is in sequence of streams, streams are lengths of a stream's positions without compression
+func (r *reader) getStridePositions(stride int, present bool, streams ...int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
 		return
@@ -67,10 +68,24 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		err = errors.New("stride < 1")
 		return
 	}
-	if stride > len(r.index.Entry) {
+	if stride >= len(r.index.Entry) {
 		err = errors.Errorf("stride %d does not exist", stride)
+		return
+	}
+	if present {
+		streams = append(streams, 3)
+	}
+	var count int
+	for _, n := range streams {
+		count += n
+		if r.opts.CompressionKind != pb.CompressionKind_NONE {
+			count++
+		}
+	}
+	pos = r.index.Entry[stride].GetPositions()
+	if len(pos) < count {
+		err = errors.Errorf("stride %d has %d positions, should be %d", stride, len(pos), count)
 	}
-	pos = r.index.Entry[stride-1].Positions
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index d10f5d9..2caae3e 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -44,13 +44,14 @@ type stringDirectV2Writer struct {
 }
 
 func (w *stringDirectV2Writer) Write(value api.Value) error {
+	w.startRow(w.data, w.length)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -58,89 +59,25 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
-		if err := w.length.Write(uint64(dataLength)); err != nil {
+		if err := w.length.Write(uint64(len(data))); err != nil {
 			return err
 		}
-
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
+		updateStringStats(w.stats, s)
+		if w.opts.WriteIndex {
+			updateStringStats(w.indexStats, s)
 		}
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
-
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
-
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
-
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
-		}
-	}
+	w.endRow()
 	return nil
 }
 
 func (w *stringDirectV2Writer) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -302,7 +239,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
@@ -482,7 +419,7 @@ func (r *StringDictionaryV2Reader) SeekStride(stride int) error {
 	// need data index only
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..0190b81 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -65,7 +65,7 @@ func (r *StructReader) SeekStride(stride int) error {
 	if r.present != nil {
 		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
 
-		pos, err := r.getStridePositions(stride)
+		pos, err := r.getStridePositions(stride, true)
 		if err != nil {
 			return err
 		}
@@ -181,44 +181,32 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
-	if !w.schema.HasNulls {
-		return nil
-	}
+	w.startRow()
 
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
-	}
-	if !value.Null {
-		(*w.stats.BucketStatistics).Count[0]++
-	}
-	*w.stats.NumberOfValues++
-
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
 		}
-		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			(*w.stats.BucketStatistics).Count[0]++
+		}
+		*w.stats.NumberOfValues++
+		if w.opts.WriteIndex {
+			// no bytes on disk index stats
+			if !value.Null {
+				(*w.indexStats.BucketStatistics).Count[0]++
+			}
+			*w.indexStats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
+
+	w.endRow()
 	return nil
 }
 
 func (w *structWriter) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
diff --git a/orc/column/time.go b/orc/column/time.go
index ad56d5d..6eacbb2 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -38,60 +38,33 @@ type dateV2Writer struct {
 }
 
 func (w *dateV2Writer) Write(value api.Value) error {
+	w.startRow(w.data)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
 	}
 
-	var days int32
 	if !value.Null {
 		date := value.V.(api.Date)
-		days = api.ToDays(date)
+		days := api.ToDays(date)
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
-			*w.stats.DateStatistics.Minimum = days
-		}
-		if days > w.stats.DateStatistics.GetMaximum() {
-			*w.stats.DateStatistics.Maximum = days
+		updateDateStats(w.stats, days)
+		if w.opts.WriteIndex {
+			updateDateStats(w.indexStats, days)
 		}
-		*w.stats.NumberOfValues++
 	}
 
-	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
-			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
-			}
-			*w.indexStats.NumberOfValues++
-		}
-	}
+	w.endRow()
 	return nil
 }
 
 func (w *dateV2Writer) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -227,7 +200,19 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
-	pos, err := r.getStridePositions(stride)
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		if r.data == nil {
+			return nil
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
+	pos, err := r.getStridePositions(stride, r.present != nil, 2)
 	if err != nil {
 		return err
 	}
@@ -253,7 +238,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -261,7 +246,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
@@ -315,6 +300,8 @@ type timestampWriter struct {
 }
 
 func (w *timestampWriter) Write(value api.Value) error {
+	w.startRow(w.data, w.secondary)
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -329,69 +316,19 @@ func (w *timestampWriter) Write(value api.Value) error {
 		if err := w.secondary.Write(api.EncodingTimestampNanos(t.Nanos)); err != nil {
 			return err
 		}
-
-		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
+		updateTimestampStats(w.stats, t)
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
-
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
-			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
-			}
-
-			*w.indexStats.NumberOfValues++
+			updateTimestampStats(w.indexStats, t)
 		}
 	}
 
+	w.endRow()
 	return nil
 }
 
 func (w *timestampWriter) Flush() error {
+	w.endStride()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -563,7 +500,7 @@ func (r *TimestampV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..23bd714 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -17,9 +17,10 @@ type writer struct {
 
 	children []Writer
 
-	indexInRows int
-	indexStats  *pb.ColumnStatistics
-	index       *pb.RowIndex
+	indexInRows   int
+	indexStats    *pb.ColumnStatistics
+	indexPosition []uint64
+	index         *pb.RowIndex
 
 	flushed bool
 }
@@ -34,15 +35,70 @@ func (w *writer) reset() {
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
 		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// startRow marks positions of streams before first row of a stride is written
+func (w *writer) startRow(streams ...stream.Writer) {
+	if !w.opts.WriteIndex || w.indexInRows != 0 {
+		return
+	}
+	w.indexPosition = nil
+	if w.schema.HasNulls {
+		w.indexPosition = append(w.indexPosition, w.present.GetPosition()...)
+	}
+	for _, s := range streams {
+		w.indexPosition = append(w.indexPosition, s.GetPosition()...)
+	}
+	w.indexStats = w.newStats()
+}
+
+// endRow adds index entry of the stride after its last row was written
+func (w *writer) endRow() {
+	if !w.opts.WriteIndex {
+		return
+	}
+	w.indexInRows++
+	if w.indexInRows >= w.opts.IndexStride {
+		w.endStride()
+	}
+}
+
+// endStride last stride of stripe may be not full
+func (w *writer) endStride() {
+	if w.opts.WriteIndex && w.indexInRows != 0 {
+		w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: w.indexPosition, Statistics: w.indexStats})
+		w.indexInRows = 0
+	}
+}
+
+// newStats makes statistics as of the column, without any value
+func (w *writer) newStats() *pb.ColumnStatistics {
+	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	*stats.HasNull = w.schema.HasNulls
+	switch {
+	case w.stats.IntStatistics != nil:
+		stats.IntStatistics = &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}
+	case w.stats.DoubleStatistics != nil:
+		stats.DoubleStatistics = &pb.DoubleStatistics{Sum: new(float64), Minimum: new(float64), Maximum: new(float64)}
+	case w.stats.StringStatistics != nil:
+		stats.StringStatistics = &pb.StringStatistics{Sum: new(int64), Minimum: new(string), Maximum: new(string)}
+	case w.stats.BucketStatistics != nil:
+		stats.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
+	case w.stats.DecimalStatistics != nil:
+		stats.DecimalStatistics = &pb.DecimalStatistics{Sum: new(string), Minimum: new(string), Maximum: new(string)}
+	case w.stats.DateStatistics != nil:
+		stats.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
+	case w.stats.BinaryStatistics != nil:
+		stats.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
+	case w.stats.TimestampStatistics != nil:
+		stats.TimestampStatistics = &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}
+	}
+	return stats
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 9874427..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -63,6 +63,9 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 	}
 	e.index = -1
 	e.value = 0
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index aa55fe5..176b6a0 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -440,6 +440,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
@@ -1208,7 +1211,8 @@ func (e *varint64Encoder) Flush(out *bytes.Buffer) error {
 }
 
 func (e *varint64Encoder) GetPosition() []uint64 {
-	return []uint64{1}
+	// no runs, then no position in it
+	return []uint64{}
 }
 
 func DecodeVarInt64(in BufferedReader) (value int64, err error) {
diff --git a/orc/stripe.go b/orc/stripe.go
index 71c685b..5aeda21 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -26,6 +26,9 @@ type stripeWriter struct {
 	info  *pb.StripeInformation
 	infos []*pb.StripeInformation
 
+	// row index streams of flushed stripe
+	indexInfos []*pb.Stream
+
 	opts *config.WriterOptions
 
 	out io.Writer
@@ -63,6 +66,10 @@ func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
 		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
 			return err
 		}
+	} else if vec.Kind == pb.Type_STRUCT { // index and statistics of struct count its rows
+		if err := stripe.columnWriters[vec.Id].Write(api.Value{}); err != nil {
+			return err
+		}
 	}
 
 	for _, c := range vec.Children {
@@ -89,18 +96,26 @@ func (stripe *stripeWriter) flushOut() error {
 	}
 
 	if stripe.opts.WriteIndex {
-		for _, c := range stripe.columnWriters {
+		stripe.indexInfos = nil
+		for i, c := range stripe.columnWriters {
 			index := c.GetIndex()
 			var indexData []byte
 			indexData, err := proto.Marshal(index)
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			indexBuf := &bytes.Buffer{}
+			if err = common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, indexBuf, bytes.NewBuffer(indexData)); err != nil {
+				return err
+			}
+			nd, err := indexBuf.WriteTo(stripe.out)
 			if err != nil {
 				return errors.WithStack(err)
 			}
 			*stripe.info.IndexLength += uint64(nd)
+
+			kind, id, length := pb.Stream_ROW_INDEX, stripe.schemas[i].Id, uint64(nd)
+			stripe.indexInfos = append(stripe.indexInfos, &pb.Stream{Kind: &kind, Column: &id, Length: &length})
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
@@ -122,6 +137,7 @@ func (stripe *stripeWriter) flushOut() error {
 func (stripe *stripeWriter) writeFooter() error {
 	footer := &pb.StripeFooter{}
 
+	footer.Streams = append(footer.Streams, stripe.indexInfos...)
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..1b19fa5 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -139,7 +139,6 @@ var Magic = "ORC"
 
 func (w *writer) writeFileTail() error {
 	// Encode footer
-	// todo: rows in stride
 	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
 
 	for _, si := range w.stripe.infos {
@@ -149,6 +148,10 @@ func (w *writer) writeFileTail() error {
 	ft.Stripes = w.stripe.infos
 	ft.Types = api.SchemasToTypes(w.schemas)
 	ft.Statistics = w.columnStats
+	if w.opts.WriteIndex {
+		stride := uint32(w.opts.IndexStride)
+		ft.RowIndexStride = &stride
+	}
 
 	// metadata
 
-- 
2.43.0


From 02cf309315763e941de0a979fcfa9196dadfe179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 26/81] fix: column statistics had wrong minimums, maximums,
 sums and counts

---
 orc/api/vector.go     | 56 +++++++++++++++++++++++++++----------------
 orc/column/binary.go  | 10 +++++---
 orc/column/byte.go    |  8 +++----
 orc/column/decimal.go | 12 ++++------
 orc/column/float.go   |  4 ++--
 orc/column/int.go     |  4 ++--
 orc/column/string.go  | 10 ++++----
 orc/column/struct.go  | 12 ++++------
 orc/column/time.go    |  8 +++----
 orc/column/writer.go  | 12 +++++-----
 10 files changed, 73 insertions(+), 63 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index a58442b..7108f10 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -2,6 +2,8 @@ package api
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 	"time"
 
 	"github.com/patrickhuang888/goorc/pb/pb"
@@ -89,21 +91,35 @@ type Decimal64 struct {
 	Scale     int
 }
 
+// String value in plain decimal, precision is the unscaled value
 func (d Decimal64) String() string {
-	return fmt.Sprintf("precision %d, scale %d", d.Precision, d.Scale)
-}
-
-func (d Decimal64) Float64() float64 {
-	if d.Scale == 0 {
-		return float64(d.Precision)
+	digits := strconv.FormatInt(d.Precision, 10)
+	if d.Scale == 0 || d.Precision == 0 {
+		return digits
 	}
-	if d.Scale > 0 {
-		return float64(d.Precision) * float64(10*d.Scale)
+	if d.Scale > maxPlainScale || d.Scale < -maxPlainScale {
+		return fmt.Sprintf("%se%d", digits, -d.Scale)
 	}
 	if d.Scale < 0 {
-		return float64(d.Precision) / float64(10*d.Scale)
+		return digits + strings.Repeat("0", -d.Scale)
 	}
-	return 0
+	sign := ""
+	if digits[0] == '-' {
+		sign, digits = "-", digits[1:]
+	}
+	if n := d.Scale + 1 - len(digits); n > 0 {
+		digits = strings.Repeat("0", n) + digits
+	}
+	point := len(digits) - d.Scale
+	return sign + digits[:point] + "." + digits[point:]
+}
+
+const maxPlainScale = 100
+
+func (d Decimal64) Float64() float64 {
+	// nearest one, s is always a number
+	f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", d.Precision, -d.Scale), 64)
+	return f
 }
 
 // enhance: UTC
@@ -146,20 +162,18 @@ func (t Timestamp) Time() time.Time {
 }
 
 func (t Timestamp) GetMilliSeconds() int64 {
-	loc := t.Loc
-	if loc == nil {
-		loc = time.UTC
-	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	return milliSeconds(t.Time())
 }
 
+// GetMilliSecondsUtc milliseconds if the local date and time were of UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	local := t.Time()
+	_, offset := local.Zone()
+	return milliSeconds(local) + int64(offset)*1_000
+}
+
+func milliSeconds(t time.Time) int64 {
+	return t.Unix()*1_000 + int64(t.Nanosecond()/1_000_000)
 }
 
 func GetTimestamp(t time.Time) Timestamp {
diff --git a/orc/column/binary.go b/orc/column/binary.go
index e10a7e6..61a027e 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -49,12 +49,16 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if !value.Null {
-		if err := w.data.Write(value.V); err != nil {
+		b, ok := value.V.([]byte)
+		if !ok {
+			return errors.New("binary column writing, value should be []byte")
+		}
+		if err := w.data.Write(b); err != nil {
 			return err
 		}
-		updateBinaryStats(w.stats)
+		updateBinaryStats(w.stats, len(b))
 		if w.opts.WriteIndex {
-			updateBinaryStats(w.indexStats)
+			updateBinaryStats(w.indexStats, len(b))
 		}
 	}
 
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 316f23c..85bfe00 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -11,7 +11,7 @@ import (
 )
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -20,7 +20,7 @@ func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writ
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
@@ -46,9 +46,9 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		updateBinaryStats(w.stats)
+		updateIntStats(w.stats, int64(int8(value.V.(byte))))
 		if w.opts.WriteIndex {
-			updateBinaryStats(w.indexStats)
+			updateIntStats(w.indexStats, int64(int8(value.V.(byte))))
 		}
 	}
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 8db118b..b35238c 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -14,7 +14,7 @@ import (
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		DecimalStatistics: &pb.DecimalStatistics{}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -24,7 +24,7 @@ func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOption
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+			DecimalStatistics: &pb.DecimalStatistics{}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
@@ -56,13 +56,9 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		if err := updateDecimalStats(w.stats, d); err != nil {
-			return err
-		}
+		updateDecimalStats(w.stats, d)
 		if w.opts.WriteIndex {
-			if err := updateDecimalStats(w.indexStats, d); err != nil {
-				return err
-			}
+			updateDecimalStats(w.indexStats, d)
 		}
 	}
 
diff --git a/orc/column/float.go b/orc/column/float.go
index f8d6bb7..d498234 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -163,7 +163,7 @@ func (r *FloatReader) Close() {
 
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64)}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -173,7 +173,7 @@ func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is6
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+			DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
diff --git a/orc/column/int.go b/orc/column/int.go
index f848f4b..e45ccca 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -12,7 +12,7 @@ import (
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+		IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -22,7 +22,7 @@ func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bit
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
+			IntStatistics: &pb.IntegerStatistics{Sum: new(int64)}}
 		index = &pb.RowIndex{}
 	}
 	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index, indexStats: indexStats}
diff --git a/orc/column/string.go b/orc/column/string.go
index 2caae3e..665de9b 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -17,7 +17,7 @@ const (
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
+		Sum: new(int64)},
 		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 	var present stream.Writer
 	if schema.HasNulls {
@@ -29,7 +29,7 @@ func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOpt
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
+			StringStatistics: &pb.StringStatistics{Sum: new(int64)}}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
@@ -479,7 +479,7 @@ func (r *StringDictionaryV2Reader) Close() {
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+		Sum: new(int64)},
 		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 	var present stream.Writer
 	if schema.HasNulls {
@@ -491,7 +491,7 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
+			StringStatistics: &pb.StringStatistics{Sum: new(int64)}}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
@@ -563,7 +563,7 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
 			// new stats
 			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+				Sum: new(int64)},
 				NumberOfValues: new(uint64), HasNull: new(bool)}
 			if w.schema.HasNulls {
 				*w.indexStats.HasNull = true
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0190b81..6d2b41b 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -187,16 +187,12 @@ func (w *structWriter) Write(value api.Value) error {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
 		}
-		if !value.Null {
-			(*w.stats.BucketStatistics).Count[0]++
-		}
-		*w.stats.NumberOfValues++
+	}
+	if !value.Null {
+		updateBoolStats(w.stats, true)
 		if w.opts.WriteIndex {
 			// no bytes on disk index stats
-			if !value.Null {
-				(*w.indexStats.BucketStatistics).Count[0]++
-			}
-			*w.indexStats.NumberOfValues++
+			updateBoolStats(w.indexStats, true)
 		}
 	}
 
diff --git a/orc/column/time.go b/orc/column/time.go
index 6eacbb2..f2dfe19 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -14,7 +14,7 @@ import (
 
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+		DateStatistics: &pb.DateStatistics{}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -24,7 +24,7 @@ func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Wr
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+			DateStatistics: &pb.DateStatistics{}}
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
@@ -274,7 +274,7 @@ func (r *DateV2Reader) Close() {
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+		TimestampStatistics: &pb.TimestampStatistics{}}
 	var present stream.Writer
 	if schema.HasNulls {
 		*stats.HasNull = true
@@ -284,7 +284,7 @@ func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOption
 	var index *pb.RowIndex
 	if opts.WriteIndex {
 		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+			DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64)}}
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
diff --git a/orc/column/writer.go b/orc/column/writer.go
index 23bd714..6153c42 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -80,21 +80,21 @@ func (w *writer) newStats() *pb.ColumnStatistics {
 	*stats.HasNull = w.schema.HasNulls
 	switch {
 	case w.stats.IntStatistics != nil:
-		stats.IntStatistics = &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}
+		stats.IntStatistics = &pb.IntegerStatistics{Sum: new(int64)}
 	case w.stats.DoubleStatistics != nil:
-		stats.DoubleStatistics = &pb.DoubleStatistics{Sum: new(float64), Minimum: new(float64), Maximum: new(float64)}
+		stats.DoubleStatistics = &pb.DoubleStatistics{Sum: new(float64)}
 	case w.stats.StringStatistics != nil:
-		stats.StringStatistics = &pb.StringStatistics{Sum: new(int64), Minimum: new(string), Maximum: new(string)}
+		stats.StringStatistics = &pb.StringStatistics{Sum: new(int64)}
 	case w.stats.BucketStatistics != nil:
 		stats.BucketStatistics = &pb.BucketStatistics{Count: make([]uint64, 1)}
 	case w.stats.DecimalStatistics != nil:
-		stats.DecimalStatistics = &pb.DecimalStatistics{Sum: new(string), Minimum: new(string), Maximum: new(string)}
+		stats.DecimalStatistics = &pb.DecimalStatistics{}
 	case w.stats.DateStatistics != nil:
-		stats.DateStatistics = &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}
+		stats.DateStatistics = &pb.DateStatistics{}
 	case w.stats.BinaryStatistics != nil:
 		stats.BinaryStatistics = &pb.BinaryStatistics{Sum: new(int64)}
 	case w.stats.TimestampStatistics != nil:
-		stats.TimestampStatistics = &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}
+		stats.TimestampStatistics = &pb.TimestampStatistics{}
 	}
 	return stats
 }
-- 
2.43.0


From 382e8defb763eff196651127004ecb337eaf2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 27/81] fix: binary writer did not write length stream

---
 orc/column/binary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 61a027e..0bdf84a 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -56,6 +56,9 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(b); err != nil {
 			return err
 		}
+		if err := w.length.Write(uint64(len(b))); err != nil {
+			return err
+		}
 		updateBinaryStats(w.stats, len(b))
 		if w.opts.WriteIndex {
 			updateBinaryStats(w.indexStats, len(b))
-- 
2.43.0


From 5023e2ec73e8f90f0e8ee4af496af8264d8fe149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 28/81] fix: errors of binary skipping and of unknown tinyint
 stream were lost

---
 orc/column/binary.go | 2 +-
 orc/column/byte.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 0bdf84a..d61a8dd 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -188,7 +188,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 85bfe00..d54a93a 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -145,7 +145,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		return errors.New("stream kind error")
 	}
 	return nil
 }
-- 
2.43.0


From 4461b6fa1ddcf890e827691eff204d2a36f028d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 29/81] fix: bytes on disk of a nullable column counted only
 last stripe

---
 orc/column/binary.go  | 2 +-
 orc/column/bool.go    | 2 +-
 orc/column/byte.go    | 2 +-
 orc/column/decimal.go | 2 +-
 orc/column/float.go   | 2 +-
 orc/column/int.go     | 2 +-
 orc/column/list.go    | 2 +-
 orc/column/string.go  | 4 ++--
 orc/column/struct.go  | 2 +-
 orc/column/time.go    | 4 ++--
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index d61a8dd..bbb0857 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -87,7 +87,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 947bdef..a2175c4 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -74,7 +74,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index d54a93a..fee4053 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -78,7 +78,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index b35238c..f984df2 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -73,7 +73,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index d498234..f05dcfe 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -230,7 +230,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index e45ccca..dc74fd7 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -98,7 +98,7 @@ func (w *intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index c9eb5c5..eec6deb 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -248,7 +248,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index 665de9b..692b3b7 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -91,7 +91,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -640,7 +640,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 6d2b41b..0aca6c1 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -207,7 +207,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index f2dfe19..e7093f1 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -75,7 +75,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -333,7 +333,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From be76e0836b9df5e006aa7aedca18f3361df965c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 30/81] fix: columns with present stream were refused if
 statistics do not tell there are nulls

---
 orc/column/binary.go  | 3 ---
 orc/column/bool.go    | 3 ---
 orc/column/byte.go    | 3 ---
 orc/column/decimal.go | 3 ---
 orc/column/float.go   | 3 ---
 orc/column/map.go     | 3 ---
 orc/column/string.go  | 3 ---
 orc/column/time.go    | 6 ------
 orc/reader.go         | 3 ++-
 9 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index bbb0857..46825fa 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -156,9 +156,6 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewStringContentsReader(r.opts, info, startOffset, f)
diff --git a/orc/column/bool.go b/orc/column/bool.go
index a2175c4..e7c049a 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -139,9 +139,6 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index fee4053..e28d95d 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -138,9 +138,6 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index f984df2..a82c9cc 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -152,9 +152,6 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema no present stream")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
diff --git a/orc/column/float.go b/orc/column/float.go
index f05dcfe..556d372 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -34,9 +34,6 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
diff --git a/orc/column/map.go b/orc/column/map.go
index fbea8f3..9fa5d8d 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -42,9 +42,6 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
diff --git a/orc/column/string.go b/orc/column/string.go
index 692b3b7..b212199 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -331,9 +331,6 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
diff --git a/orc/column/time.go b/orc/column/time.go
index e7093f1..662f327 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -139,9 +139,6 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -416,9 +413,6 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, ic)
diff --git a/orc/reader.go b/orc/reader.go
index 2523156..51ad5bc 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -56,7 +56,8 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	schemas := unmarshallSchema(tail.Footer.Types)
 	for i, stat := range tail.Footer.Statistics {
-		schemas[i].HasNulls = stat.GetHasNull()
+		// writers do not have it before ORC-32, then maybe there are nulls
+		schemas[i].HasNulls = stat.HasNull == nil || stat.GetHasNull()
 	}
 
 	opts.CompressionKind = tail.Postscript.GetCompression()
-- 
2.43.0


From 28a0ec0d59c6097b397b6a3d381c7f6ff7a9e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 31/81] fix: char and varchar columns could be written but not
 read

---
 orc/column/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..2e214e8 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -95,6 +95,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
-- 
2.43.0


From dd392598750c3e16ca18769efda74a592bd1e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 32/81] fix: decimal and timestamp values read were dropped

---
 orc/api/type.go       | 30 ------------------------------
 orc/column/decimal.go |  4 +---
 orc/column/time.go    |  4 +---
 3 files changed, 2 insertions(+), 36 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..f86288a 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -95,30 +95,6 @@ func (td TypeDescription) createPrimaryVector(opt *BatchOption) *ColumnVector {
 	return &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
 }
 
-func (td TypeDescription) createDecimal64(opt *BatchOption) *ColumnVector {
-	if opt.NotCreateVector {
-		return &ColumnVector{Id: td.Id, Kind: td.Kind}
-	}
-
-	vec := make([]Value, opt.RowSize)
-	for i := 0; i < opt.RowSize; i++ {
-		vec[i].V = Decimal64{}
-	}
-	return &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: vec}
-}
-
-func (td TypeDescription) createTimestamp(opt *BatchOption) *ColumnVector {
-	if opt.NotCreateVector {
-		return &ColumnVector{Id: td.Id, Kind: td.Kind}
-	}
-
-	vec := make([]Value, opt.RowSize)
-	for i := 0; i < opt.RowSize; i++ {
-		vec[i].V = Timestamp{}
-	}
-	return &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: vec}
-}
-
 func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 	// todo: check opt's rowsize!=0 if create vector
 
@@ -144,12 +120,6 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 		case pb.Type_UNION:
 			panic("not impl")
 
-		case pb.Type_DECIMAL:
-			return td.createDecimal64(opt)
-
-		case pb.Type_TIMESTAMP:
-			return td.createTimestamp(opt)
-
 		default:
 			return td.createPrimaryVector(opt)
 		}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index a82c9cc..7a02de4 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -182,9 +182,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 662f327..63febc8 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -444,9 +444,7 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
 		}
 	}
 	return nil
-- 
2.43.0


From 24f4f88a242aee3fe900a955005eb13c7260de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 33/81] fix: location of batch option was ignored

---
 orc/column/time.go | 5 +++++
 orc/stripe.go      | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/orc/column/time.go b/orc/column/time.go
index 63febc8..dbb3f22 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -402,6 +402,11 @@ type TimestampV2Reader struct {
 	secondary *stream.IntRLV2Reader
 }
 
+// SetLocation timestamps read are in loc
+func (r *TimestampV2Reader) SetLocation(loc *time.Location) {
+	r.loc = loc
+}
+
 func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	ic, err := r.f.Clone()
 	if err != nil {
diff --git a/orc/stripe.go b/orc/stripe.go
index 5aeda21..1593f43 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -269,6 +269,9 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 			if err != nil {
 				return err
 			}
+			if tr, ok := r.(*column.TimestampV2Reader); ok && stripe.bopt.Loc != nil {
+				tr.SetLocation(stripe.bopt.Loc)
+			}
 			readers[schema.Id] = r
 			if stripe.columnReader==nil {
 				stripe.columnReader= r
-- 
2.43.0


From 664e3873d9a7fb022de92168955b46e3913748e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 34/81] fix: dates 292 years from 1970 were overflowed, and
 dates before 1970 not at midnight were of the next day

---
 orc/api/vector.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 7108f10..ebd1e84 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -134,16 +134,21 @@ func (d *Date) String() string {
 }
 
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
-	return t
+	// not by duration, it's of 290 years at most
+	return Date(time.Date(1970, 1, 1+int(days), 0, 0, 0, 0, time.UTC))
 }
 
+const secondsOfDay = 24 * 60 * 60
+
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	s := time.Time(d).Unix()
+	days := s / secondsOfDay
+	if s%secondsOfDay < 0 { // before 1970, floor
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
-- 
2.43.0


From 8b9ac6906ffe94044cb7aaf44500f3080319f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 35/81] fix: timestamp of a time not in UTC was moved by the
 offset of location

---
 orc/api/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index ebd1e84..93418a8 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -182,7 +182,7 @@ func milliSeconds(t time.Time) int64 {
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 17c087d582791bb7995766200080ceb058a44a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 36/81] fix: schemas of concurrent writers were mixed up in
 package variables

---
 orc/api/type.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index f86288a..dbd1b67 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -179,17 +179,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	var id uint32
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = id
+		id++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -219,25 +215,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 60a949f4dc7113420a8317fd71036ecbc97a4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 37/81] fix: dictionary string writer failed on flush, kept the
 dictionary of last stripe and wrote no index

---
 orc/column/string.go | 162 ++++++++++++++++++-------------------------
 orc/stripe.go        |   9 ++-
 2 files changed, 73 insertions(+), 98 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index b212199..819c089 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -375,6 +375,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary index %d is out of dictionary length %d", data, len(r.dictStrings))
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
@@ -494,7 +497,7 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
-	return &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, data: map[string][]int{}}
+	return &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, dict: map[string]int{}}
 }
 
 type stringDictionaryV2Writer struct {
@@ -503,11 +506,22 @@ type stringDictionaryV2Writer struct {
 	dictStream   stream.Writer
 	lengthStream stream.Writer
 
-	count int
-	data  map[string][]int
+	// values are kept until flush, dictionary is sorted then
+	values   []string
+	dict     map[string]int
+	dictSize int
+
+	// count of values before every index stride
+	strides []int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
+	if w.opts.WriteIndex && w.indexInRows == 0 {
+		w.strides = append(w.strides, len(w.values))
+	}
+	// positions of data stream will be added on flush
+	w.startRow()
+
 	if w.schema.HasNulls {
 		if err := w.present.Write(!value.Null); err != nil {
 			return err
@@ -519,105 +533,51 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
-
-		vs := w.data[s]
-		w.count++
-		vs = append(vs, w.count)
-		w.data[s] = vs
-
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
+		w.values = append(w.values, s)
+		if _, ok := w.dict[s]; !ok {
+			w.dict[s] = 0
+			w.dictSize += len(s)
+		}
+		updateStringStats(w.stats, s)
+		if w.opts.WriteIndex {
+			updateStringStats(w.indexStats, s)
 		}
 	}
 
-	// todo: index writing
-	/*if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.dataStream.GetPosition()...)
-			pp = append(pp, w.lengthStream.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
-
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-			s := value.V.(string)
-			if l >= MaxByteLength {
-				if s < *w.indexStats.StringStatistics.LowerBound {
-					*w.indexStats.StringStatistics.LowerBound = s
-				}
-				if s > *w.indexStats.StringStatistics.UpperBound {
-					*w.indexStats.StringStatistics.UpperBound = s
-				}
-			} else {
-				if s < *w.indexStats.StringStatistics.Minimum {
-					*w.indexStats.StringStatistics.Minimum = s
-				}
-				if s > *w.indexStats.StringStatistics.Maximum {
-					*w.indexStats.StringStatistics.Maximum = s
-				}
-			}
-		}
-	}*/
+	w.endRow()
 	return nil
 }
 
 func (w *stringDictionaryV2Writer) Flush() error {
-	var dict []string
-	for k := range w.data {
-		dict = append(dict, k)
-	}
-	sort.Strings(dict)
+	w.endStride()
 
-	data := make([]int, w.count)
-	for dictIndex, keyString := range dict {
-		positions := w.data[keyString]
-		for _, position := range positions {
-			data[position] = dictIndex
-		}
+	var keys []string
+	for k := range w.dict {
+		keys = append(keys, k)
 	}
-	for _, v := range data {
-		if err := w.dataStream.Write(v); err != nil {
+	sort.Strings(keys)
+	for i, k := range keys {
+		w.dict[k] = i
+		// string encoded in utf-8
+		data := []byte(k)
+		if err := w.dictStream.Write(data); err != nil {
 			return err
 		}
-	}
-	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		if err := w.lengthStream.Write(uint64(len(data))); err != nil {
 			return err
 		}
-		bs := []byte(v)
-		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
-			return err
+	}
+
+	stride := 0
+	for i := 0; i <= len(w.values); i++ {
+		for ; stride < len(w.strides) && w.strides[stride] == i; stride++ {
+			entry := w.index.Entry[stride]
+			entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
+		}
+		if i < len(w.values) {
+			if err := w.dataStream.Write(uint64(w.dict[w.values[i]])); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -673,21 +633,31 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
 	w.lengthStream.Reset()
 
-	w.data = map[string][]int{}
-	w.count = 0
+	w.values = nil
+	w.dict = map[string]int{}
+	w.dictSize = 0
+	w.strides = nil
 }
 
-func (w stringDictionaryV2Writer) Size() int {
-	// fixme: size calculation
+// DictionarySize is in column encoding of stripe footer
+func (w *stringDictionaryV2Writer) DictionarySize() uint32 {
+	return uint32(len(w.dict))
+}
 
+func (w stringDictionaryV2Writer) Size() int {
+	// nothing is in streams before flush, estimate the most index bytes of a value by dictionary length
+	size := w.dictSize + len(w.dict)
+	for n := len(w.dict); n > 1; n >>= 8 {
+		size += len(w.values)
+	}
 	if w.schema.HasNulls {
-		return w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+		return w.present.Size() + size
 	}
-	return w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	return size
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index 1593f43..f0d11b7 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -142,8 +142,13 @@ func (stripe *stripeWriter) writeFooter() error {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
 
-	for _, schema := range stripe.schemas {
-		footer.Columns = append(footer.Columns, &pb.ColumnEncoding{Kind: &schema.Encoding})
+	for i, schema := range stripe.schemas {
+		encoding := &pb.ColumnEncoding{Kind: &schema.Encoding}
+		if d, ok := stripe.columnWriters[i].(interface{ DictionarySize() uint32 }); ok {
+			size := d.DictionarySize()
+			encoding.DictionarySize = &size
+		}
+		footer.Columns = append(footer.Columns, encoding)
 	}
 
 	footerBuf, err := proto.Marshal(footer)
-- 
2.43.0


From 77f7a5d17fb7079e1347021ff77d4cee61075f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 38/81] fix: only elements of the last row's list or map were
 kept in batch, and skipping a map row skipped elements multiple times

---
 orc/column/list.go   | 25 ++++++++-------------
 orc/column/map.go    | 50 ++++++++++++++++++------------------------
 orc/column/reader.go | 52 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 82 insertions(+), 45 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index eec6deb..c559ef0 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -49,6 +49,7 @@ func (r *ListV2Reader) SetChild(child Reader) {
 
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
@@ -65,24 +66,13 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = v
-		}
-
-		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
-			l := vec.Vector[i].V.(uint64)
-			for j := 0; j < int(l); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-			}
-		}
-
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
-			return err
+			elements += v
 		}
 	}
-	return nil
+
+	// children have elements of all rows
+	vec.Children[0].Clear()
+	return readElements(r.child, vec.Children[0], elements)
 }
 
 func (r *ListV2Reader) Skip(rows uint64) error {
@@ -184,6 +174,9 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	if r.child != nil {
+		r.child.Close()
+	}
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 9fa5d8d..45ac862 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -54,6 +54,7 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
 		if r.present != nil {
@@ -70,29 +71,17 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 				return err
 			}
 			vec.Vector[i].V = int(v)
+			elements += v
 		}
+	}
 
-		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
-			for j := 0; j < vec.Vector[i].V.(int); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
-			}
-		}
-
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
+	// keys and values have elements of all rows
+	vec.Children[0].Clear()
+	vec.Children[1].Clear()
+	if err = readElements(r.key, vec.Children[0], elements); err != nil {
+		return err
 	}
-	return nil
+	return readElements(r.value, vec.Children[1], elements)
 }
 
 func (r *MapV2Reader) Skip(rows uint64) error {
@@ -111,13 +100,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
@@ -206,6 +193,11 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.key.Close()
-	r.value.Close()
+	r.length.Close()
+	if r.key != nil {
+		r.key.Close()
+	}
+	if r.value != nil {
+		r.value.Close()
+	}
 }
diff --git a/orc/column/reader.go b/orc/column/reader.go
index 4cd9046..4c65df2 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -115,3 +115,55 @@ func seek(rowNumber uint64, strideSize int, seekStride func(int) error, skip fun
 	}
 	return nil
 }
+
+// lengths of lists and maps are not trusted, elements are read by parts then
+const elementsPart = 4096
+
+// readElements append elements of lists or maps to vec
+func readElements(r Reader, vec *api.ColumnVector, elements uint64) error {
+	for elements > 0 {
+		size := elements
+		if size > elementsPart {
+			size = elementsPart
+		}
+		part := newElements(r, vec, int(size))
+		if part.Cap() == 0 { // struct without any column
+			return nil
+		}
+		if err := r.NextBatch(part); err != nil {
+			return err
+		}
+		appendElements(vec, part)
+		elements -= size
+	}
+	return nil
+}
+
+func newElements(r Reader, vec *api.ColumnVector, size int) *api.ColumnVector {
+	part := &api.ColumnVector{Id: vec.Id, Kind: vec.Kind}
+	switch c := r.(type) {
+	case *StructReader:
+		if c.schema.HasNulls {
+			part.Vector = make([]api.Value, size)
+		}
+		for i, child := range c.children {
+			part.Children = append(part.Children, newElements(child, vec.Children[i], size))
+		}
+	case *ListV2Reader:
+		part.Vector = make([]api.Value, size)
+		part.Children = append(part.Children, newElements(c.child, vec.Children[0], 0))
+	case *MapV2Reader:
+		part.Vector = make([]api.Value, size)
+		part.Children = append(part.Children, newElements(c.key, vec.Children[0], 0), newElements(c.value, vec.Children[1], 0))
+	default:
+		part.Vector = make([]api.Value, size)
+	}
+	return part
+}
+
+func appendElements(vec *api.ColumnVector, part *api.ColumnVector) {
+	vec.Vector = append(vec.Vector, part.Vector...)
+	for i, c := range part.Children {
+		appendElements(vec.Children[i], c)
+	}
+}
-- 
2.43.0


From bd1b145f612570d882fc9de37020c2b8d89c4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 39/81] fix: nullable columns in nullable structs were read and
 written with presents of null struct rows, or panicked

---
 orc/api/type.go       | 27 -----------------------
 orc/column/binary.go  |  8 +++----
 orc/column/bool.go    |  8 +++----
 orc/column/byte.go    |  8 +++----
 orc/column/decimal.go |  8 +++----
 orc/column/float.go   |  8 +++----
 orc/column/int.go     |  8 +++----
 orc/column/list.go    |  8 +++----
 orc/column/map.go     |  2 +-
 orc/column/package.go |  3 +++
 orc/column/string.go  | 16 ++++++--------
 orc/column/struct.go  | 50 +++++++++++++++++++++++++------------------
 orc/column/time.go    | 16 ++++++--------
 orc/column/writer.go  | 14 ++++++++++++
 orc/stripe.go         | 21 +++++++++++-------
 15 files changed, 93 insertions(+), 112 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index dbd1b67..2c1d836 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -47,10 +47,6 @@ func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error)
 	if opt.RowSize == 0 {
 		return nil, errors.New("RowSize == 0")
 	}
-	if err := td.verifySchema(); err != nil {
-		return nil, err
-	}
-
 	return td.createVector(opt), nil
 }
 
@@ -127,18 +123,6 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 	return nil
 }
 
-func (td TypeDescription) verifySchema() error {
-	if td.Kind == pb.Type_STRUCT || td.Kind == pb.Type_UNION || td.Kind == pb.Type_MAP || td.Kind == pb.Type_LIST {
-		for _, c := range td.Children {
-			if td.HasNulls && c.HasNulls {
-				return errors.New("struct column has nulls cannot have nulls children")
-			}
-			return c.verifySchema()
-		}
-	}
-	return nil
-}
-
 const DefaultRowSize = 10_000
 
 type BatchOption struct {
@@ -301,17 +285,6 @@ func SchemasToTypes(schemas []*TypeDescription) []*pb.Type {
 	return
 }*/
 
-func verifySchema(schema *TypeDescription) error {
-	if schema.Kind == pb.Type_STRUCT {
-		for _, c := range schema.Children {
-			if schema.HasNulls && c.HasNulls {
-				return errors.New("struct column has nulls cannot have nulls children")
-			}
-		}
-	}
-	return nil
-}
-
 // should normalize first
 /*func CreateWriterBatch(td *TypeDescription, opts config.WriterOptions) (batch ColumnVector, err error) {
 	if err = CheckId(td); err != nil {
diff --git a/orc/column/binary.go b/orc/column/binary.go
index 46825fa..58d4408 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -42,10 +42,8 @@ type binaryV2Writer struct {
 func (w *binaryV2Writer) Write(value api.Value) error {
 	w.startRow(w.data, w.length)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -195,7 +193,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 func (r *BinaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/bool.go b/orc/column/bool.go
index e7c049a..f80cf09 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -41,10 +41,8 @@ type boolWriter struct {
 func (w *boolWriter) Write(value api.Value) error {
 	w.startRow(w.data)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -152,7 +150,7 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *BoolReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/byte.go b/orc/column/byte.go
index e28d95d..5bdfcbe 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -36,10 +36,8 @@ type byteWriter struct {
 func (w *byteWriter) Write(value api.Value) error {
 	w.startRow(w.data)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -150,7 +148,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *ByteReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 7a02de4..dccc163 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -42,10 +42,8 @@ type decimalV2Writer struct {
 func (w *decimalV2Writer) Write(value api.Value) error {
 	w.startRow(w.data, w.secondary)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -166,7 +164,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 556d372..257fa93 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -46,7 +46,7 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *FloatReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -187,10 +187,8 @@ type floatWriter struct {
 func (w *floatWriter) Write(value api.Value) error {
 	w.startRow(w.data)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
diff --git a/orc/column/int.go b/orc/column/int.go
index dc74fd7..d865920 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -54,10 +54,8 @@ func (w *intWriter) Writes(values []api.Value) error {
 func (w *intWriter) Write(value api.Value) error {
 	w.startRow(w.data)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -184,7 +182,7 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/list.go b/orc/column/list.go
index c559ef0..56bb89a 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -52,7 +52,7 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -206,10 +206,8 @@ type listV2Writer struct {
 func (w *listV2Writer) Write(value api.Value) error {
 	w.startRow(w.length)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
diff --git a/orc/column/map.go b/orc/column/map.go
index 45ac862..79b88bc 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -57,7 +57,7 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var elements uint64
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/package.go b/orc/column/package.go
index 2e214e8..5595800 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -41,6 +41,9 @@ type Reader interface {
 type Writer interface {
 	Write(value api.Value) error
 
+	// SetParentNull if parent struct of rows written next is null, columns have nothing but count the rows then
+	SetParentNull(null bool)
+
 	// Flush flush stream(index, data) when write out stripe(reach stripe size), reach index stride or close file
 	// update ColumnStats.BytesOnDisk and index before stripe written out
 	// flush once before write out to store
diff --git a/orc/column/string.go b/orc/column/string.go
index 819c089..280d56f 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -46,10 +46,8 @@ type stringDirectV2Writer struct {
 func (w *stringDirectV2Writer) Write(value api.Value) error {
 	w.startRow(w.data, w.length)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -176,7 +174,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 func (r *StringDirectV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -363,7 +361,7 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	}
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -522,10 +520,8 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 	// positions of data stream will be added on flush
 	w.startRow()
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0aca6c1..6cd32fa 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -95,38 +95,42 @@ func (r *StructReader) SeekStride(stride int) error {
 }
 
 func (r *StructReader) Skip(rows uint64) error {
-	var err error
-	p := true
-
-	for i := 0; i < int(rows); i++ {
-		if r.present != nil {
-			if p, err = r.present.Next(); err != nil {
+	count := rows
+	if r.present != nil {
+		count = 0
+		for i := uint64(0); i < rows; i++ {
+			p, err := r.present.Next()
+			if err != nil {
 				return err
 			}
-		}
-
-		for _, c := range r.children {
 			if p {
-				if err := c.Skip(1); err != nil {
-					return err
-				}
+				count++
 			}
 		}
 	}
+
+	for _, c := range r.children {
+		if err := c.Skip(count); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
 func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	if r.present != nil {
 		for i := 0; i < len(vec.Vector); i++ {
+			if vec.Vector[i].Null { // parent is null
+				continue
+			}
 			p, err := r.present.Next()
 			if err != nil {
 				return err
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
 	}
+	fillNulls(vec, vec.Vector)
 
 	for i, c := range r.children {
 		if err := c.NextBatch(vec.Children[i]); err != nil {
@@ -136,12 +140,18 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	return nil
 }
 
-func fillNulls(vec *api.ColumnVector) {
+// fillNulls children of a null struct are nulls, and streams have nothing of them
+func fillNulls(vec *api.ColumnVector, values []api.Value) {
 	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+		if c.Vector == nil { // struct has no nulls of itself
+			fillNulls(c, values)
+			continue
+		}
+		for i, v := range values {
+			if v.Null {
+				c.Vector[i].Null = true
+			}
 		}
-		fillNulls(c)
 	}
 }
 
@@ -183,10 +193,8 @@ type structWriter struct {
 func (w *structWriter) Write(value api.Value) error {
 	w.startRow()
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 	if !value.Null {
 		updateBoolStats(w.stats, true)
diff --git a/orc/column/time.go b/orc/column/time.go
index dbb3f22..8323b82 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -40,10 +40,8 @@ type dateV2Writer struct {
 func (w *dateV2Writer) Write(value api.Value) error {
 	w.startRow(w.data)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -152,7 +150,7 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *DateV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -299,10 +297,8 @@ type timestampWriter struct {
 func (w *timestampWriter) Write(value api.Value) error {
 	w.startRow(w.data, w.secondary)
 
-	if w.schema.HasNulls {
-		if err := w.present.Write(!value.Null); err != nil {
-			return err
-		}
+	if err := w.writePresent(value); err != nil {
+		return err
 	}
 
 	if !value.Null {
@@ -432,7 +428,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/writer.go b/orc/column/writer.go
index 6153c42..7056ee5 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -23,6 +23,20 @@ type writer struct {
 	index         *pb.RowIndex
 
 	flushed bool
+
+	// parent struct of the row is null, then column has no value and no present of the row
+	parentNull bool
+}
+
+func (w *writer) SetParentNull(null bool) {
+	w.parentNull = null
+}
+
+func (w *writer) writePresent(value api.Value) error {
+	if !w.schema.HasNulls || w.parentNull {
+		return nil
+	}
+	return w.present.Write(!value.Null)
 }
 
 func (w *writer) reset() {
diff --git a/orc/stripe.go b/orc/stripe.go
index f0d11b7..4cb7272 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -40,7 +40,7 @@ type stripeWriter struct {
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	count := uint64(0)
 	for i := 0; i < vec.Len(); i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -61,19 +61,24 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, parentNull bool) error {
+	var value api.Value
 	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
-			return err
-		}
-	} else if vec.Kind == pb.Type_STRUCT { // index and statistics of struct count its rows
-		if err := stripe.columnWriters[vec.Id].Write(api.Value{}); err != nil {
+		value = vec.Vector[index]
+	}
+	w := stripe.columnWriters[vec.Id]
+	w.SetParentNull(parentNull)
+	if parentNull {
+		value = api.Value{Null: true}
+	}
+	if vec.Vector != nil || vec.Kind == pb.Type_STRUCT { // index and statistics of struct count its rows
+		if err := w.Write(value); err != nil {
 			return err
 		}
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, value.Null); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From efecb013f25f3271f8d6db0b706cd43e87e1e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 40/81] fix: files were left open if opening of reader, writer,
 stripe or stream failed

---
 orc/column/binary.go  |  6 ++---
 orc/column/bool.go    |  6 ++---
 orc/column/byte.go    |  6 ++---
 orc/column/decimal.go |  6 ++---
 orc/column/float.go   |  6 ++---
 orc/column/int.go     | 10 ++++----
 orc/column/list.go    |  6 ++---
 orc/column/map.go     |  7 ++----
 orc/column/reader.go  | 13 ++++++++++
 orc/column/string.go  | 12 ++++------
 orc/column/struct.go  |  7 +++---
 orc/column/time.go    | 13 ++++------
 orc/reader.go         |  8 ++++++-
 orc/stripe.go         | 55 +++++++++++++++++++++++--------------------
 orc/writer.go         |  1 +
 15 files changed, 80 insertions(+), 82 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 58d4408..b489138 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -144,13 +144,10 @@ type BinaryV2Reader struct {
 }
 
 func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -160,6 +157,7 @@ func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
diff --git a/orc/column/bool.go b/orc/column/bool.go
index f80cf09..f264593 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -128,13 +128,10 @@ type BoolReader struct {
 }
 
 func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -144,6 +141,7 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream kind error")
 }
 
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 5bdfcbe..72b5e27 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -126,13 +126,10 @@ func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f or
 }
 
 func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -140,6 +137,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index dccc163..1757782 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -140,13 +140,10 @@ type DecimalV2Reader struct {
 }
 
 func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -156,6 +153,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/column/float.go b/orc/column/float.go
index 257fa93..cad3e56 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -24,13 +24,10 @@ type FloatReader struct {
 }
 
 func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -38,6 +35,7 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index d865920..7d936e1 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -155,17 +155,14 @@ type IntV2Reader struct {
 }
 
 func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
-		err := errors.New("int reader encoding direct not impl")
-		return err
+		f.Close()
+		return errors.New("int reader encoding direct not impl")
 	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
@@ -176,6 +173,7 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream unknown")
 }
 
diff --git a/orc/column/list.go b/orc/column/list.go
index 56bb89a..1e31271 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -24,13 +24,10 @@ type ListV2Reader struct {
 }
 
 func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -40,6 +37,7 @@ func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
diff --git a/orc/column/map.go b/orc/column/map.go
index 79b88bc..ce7bf03 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -7,7 +7,6 @@ import (
 	"github.com/patrickhuang888/goorc/orc/stream"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
-	"io"
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -33,13 +32,10 @@ func (r *MapV2Reader) SetValue(value Reader) {
 }
 
 func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -49,6 +45,7 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
diff --git a/orc/column/reader.go b/orc/column/reader.go
index 4c65df2..49e16b8 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -30,6 +30,19 @@ func (r *reader) String() string {
 	return sb.String()
 }
 
+// openStream streams read from file of its own, it's closed by stream
+func (r *reader) openStream(startOffset uint64) (orcio.File, error) {
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	if _, err := r.f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return errors.WithStack(err)
diff --git a/orc/column/string.go b/orc/column/string.go
index 280d56f..0717c60 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -150,13 +150,10 @@ type StringDirectV2Reader struct {
 }
 
 func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -166,6 +163,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
@@ -319,13 +317,10 @@ type StringDictionaryV2Reader struct {
 }
 
 func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -337,6 +332,7 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 6cd32fa..1e5f6ec 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -29,21 +29,20 @@ func (r *StructReader) AddChild(child Reader) {
 }
 
 func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		if !r.schema.HasNulls {
+			f.Close()
 			return errors.New("should no present")
 		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
diff --git a/orc/column/time.go b/orc/column/time.go
index 8323b82..4943b3e 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -124,15 +124,13 @@ type DateV2Reader struct {
 }
 
 func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if r.schema.Encoding != pb.ColumnEncoding_DIRECT_V2 {
+		f.Close()
 		return errors.New("encoding error")
 	}
 
@@ -144,6 +142,7 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewDateV2Reader(r.opts, info, startOffset, f)
 		return err
 	}
+	f.Close()
 	return errors.New("stream kind unknown")
 }
 
@@ -404,13 +403,10 @@ func (r *TimestampV2Reader) SetLocation(loc *time.Location) {
 }
 
 func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	ic, err := r.f.Clone()
+	ic, err := r.openStream(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = ic.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -420,6 +416,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, ic)
 	default:
+		ic.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
diff --git a/orc/reader.go b/orc/reader.go
index 51ad5bc..c2b6243 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -26,7 +26,12 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
@@ -85,6 +90,7 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
+		br.Close()
 		return nil, err
 	}
 	return br, nil
diff --git a/orc/stripe.go b/orc/stripe.go
index 4cb7272..7420211 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -239,6 +239,9 @@ func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config
 		return nil, err
 	}
 	if err := reader.init(info, footer); err != nil {
+		if reader.columnReader != nil {
+			reader.Close()
+		}
 		return nil, err
 	}
 	return reader, nil
@@ -289,32 +292,6 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
-	// streams has sequence
-	indexStart := info.GetOffset()
-	dataStart := indexStart + info.GetIndexLength()
-	for _, streamInfo := range footer.GetStreams() {
-		id := streamInfo.GetColumn()
-		streamKind := streamInfo.GetKind()
-		length := streamInfo.GetLength()
-
-		if streamKind == pb.Stream_ROW_INDEX {
-			if readers[id] != nil {
-				if err := readers[id].InitIndex(indexStart, length); err != nil {
-					return err
-				}
-			}
-			indexStart += length
-			continue
-		}
-
-		if readers[id] != nil {
-			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
-				return err
-			}
-		}
-		dataStart += length
-	}
-
 	// build tree
 	for _, schema := range stripe.schemas {
 		for i, c := range schema.Children {
@@ -341,6 +318,32 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
+	// streams has sequence
+	indexStart := info.GetOffset()
+	dataStart := indexStart + info.GetIndexLength()
+	for _, streamInfo := range footer.GetStreams() {
+		id := streamInfo.GetColumn()
+		streamKind := streamInfo.GetKind()
+		length := streamInfo.GetLength()
+
+		if streamKind == pb.Stream_ROW_INDEX {
+			if readers[id] != nil {
+				if err := readers[id].InitIndex(indexStart, length); err != nil {
+					return err
+				}
+			}
+			indexStart += length
+			continue
+		}
+
+		if readers[id] != nil {
+			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
+				return err
+			}
+		}
+		dataStart += length
+	}
+
 	return nil
 }
 
diff --git a/orc/writer.go b/orc/writer.go
index 1b19fa5..fd3d36b 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -33,6 +33,7 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return w, nil
-- 
2.43.0


From 400dd80a283104627787eb592a0eeaf017f5b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 41/81] fix: opening a file with wrong tail, types, stripes or
 streams panicked or read a wrong place

---
 orc/reader.go        | 100 ++++++++++++++++++++++++++++++++++++++++---
 orc/stream/reader.go |   3 +-
 orc/stripe.go        |  34 +++++++++++++--
 3 files changed, 125 insertions(+), 12 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index c2b6243..3df9bb9 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -59,7 +58,16 @@ func newReader(f orcio.File) (r *reader, err error) {
 		return nil, errors.New("file footer error, number of rows 0")
 	}
 
+	if err = checkTypes(tail.Footer.Types); err != nil {
+		return nil, err
+	}
 	schemas := unmarshallSchema(tail.Footer.Types)
+	if n := len(tail.Footer.Statistics); n != 0 && n != len(schemas) {
+		return nil, errors.Errorf("file footer error, %d statistics of %d columns", n, len(schemas))
+	}
+	for i := range schemas {
+		schemas[i].HasNulls = true // not known if no statistics
+	}
 	for i, stat := range tail.Footer.Statistics {
 		// writers do not have it before ORC-32, then maybe there are nulls
 		schemas[i].HasNulls = stat.HasNull == nil || stat.GetHasNull()
@@ -74,6 +82,9 @@ func newReader(f orcio.File) (r *reader, err error) {
 
 	stats := tail.Footer.GetStatistics()
 	stripes := tail.Footer.GetStripes()
+	if err = checkStripes(stripes, rows, tail.GetFileLength()); err != nil {
+		return nil, err
+	}
 
 	// todo: check opts chunksize !=0
 
@@ -236,6 +247,74 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 	return errors.New("no row found")
 }
 
+// checkStripes stripes should be in the file, and have all the rows
+func checkStripes(stripes []*pb.StripeInformation, rows uint64, fileLength uint64) error {
+	var count uint64
+	for _, info := range stripes {
+		left := fileLength
+		for _, n := range []uint64{info.GetOffset(), info.GetIndexLength(), info.GetDataLength(), info.GetFooterLength()} {
+			if n > left {
+				return errors.Errorf("file footer error, stripe is out of file, %s", info.String())
+			}
+			left -= n
+		}
+		if info.GetNumberOfRows() > rows-count {
+			return errors.Errorf("file footer error, stripes have more rows than %d", rows)
+		}
+		count += info.GetNumberOfRows()
+	}
+	if count != rows {
+		return errors.Errorf("file footer error, stripes have %d rows of %d", count, rows)
+	}
+	return nil
+}
+
+// checkTypes types should be a tree in pre-order
+func checkTypes(types []*pb.Type) error {
+	if len(types) == 0 {
+		return errors.New("file footer error, no types")
+	}
+	next := uint32(0)
+	var check func() error
+	check = func() error {
+		id := next
+		next++
+		t := types[id]
+		n := len(t.Subtypes)
+		valid := true
+		switch t.GetKind() {
+		case pb.Type_STRUCT:
+			valid = len(t.FieldNames) == n
+		case pb.Type_LIST:
+			valid = n == 1
+		case pb.Type_MAP:
+			valid = n == 2
+		case pb.Type_UNION:
+		default:
+			valid = n == 0
+		}
+		if !valid {
+			return errors.Errorf("file footer error, type %d %s", id, t.String())
+		}
+		for _, sub := range t.Subtypes {
+			if sub != next || int(sub) >= len(types) {
+				return errors.Errorf("file footer error, subtype %d of type %d", sub, id)
+			}
+			if err := check(); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	if err := check(); err != nil {
+		return err
+	}
+	if int(next) != len(types) {
+		return errors.Errorf("file footer error, type %d has no parent", next)
+	}
+	return nil
+}
+
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 	schemas = make([]*api.TypeDescription, len(types))
 	for i, t := range types {
@@ -285,9 +364,7 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	if size == 0 {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
-		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		return nil, errors.New("file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
@@ -307,12 +384,18 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psOffset < 0 {
+		return nil, errors.Errorf("not a valid orc file, postscript length %d", psLen)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
+	if footerSize < 0 || footerSize > size || metaSize < 0 || metaSize > size || psLen+1+footerSize+metaSize > size {
+		return nil, errors.Errorf("postscript error, footer length %d, metadata length %d", footerSize, metaSize)
+	}
 
 	// check if extra bytes need to be read
 	extra := Max(0, psLen+1+footerSize+metaSize-readSize)
@@ -326,15 +409,15 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -372,6 +455,9 @@ func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 	if err = proto.Unmarshal(buf, ps); err != nil {
 		return nil, errors.Wrapf(err, "unmarshall postscript err")
 	}
+	if ps.GetMagic() != Magic {
+		return nil, errors.Errorf("not a valid orc file, magic %q", ps.GetMagic())
+	}
 	if err = checkOrcVersion(ps); err != nil {
 		return nil, errors.Wrapf(err, "check orc version error")
 	}
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 9cb0951..8c1e6ce 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -37,8 +37,7 @@ type reader struct {
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
 	var cmpBuf *bytes.Buffer
 	if opts.CompressionKind != pb.CompressionKind_NONE {
-		cmpBuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
-		cmpBuf.Reset()
+		cmpBuf = &bytes.Buffer{} // chunk size in file is not trusted
 	}
 	return &reader{opts: opts, info: info, start: start, f: f, buf: &bytes.Buffer{}, cmpBuf: cmpBuf}
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index 7420211..4a4b828 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -273,7 +273,9 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
-	// make sure len(columns)==len(all schemas)
+	if len(footer.GetColumns()) != len(stripe.schemas) {
+		return errors.Errorf("stripe %d footer error, %d encodings of %d columns", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
+	}
 	readers := make([]column.Reader, len(stripe.schemas))
 	for _, schema := range stripe.schemas {
 		if stripe.bopt.IsInclude(schema.Id) {
@@ -321,13 +323,31 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	// streams has sequence
 	indexStart := info.GetOffset()
 	dataStart := indexStart + info.GetIndexLength()
+	indexEnd, dataEnd := dataStart, dataStart+info.GetDataLength()
+	exists := make(map[[2]uint32]bool)
 	for _, streamInfo := range footer.GetStreams() {
 		id := streamInfo.GetColumn()
 		streamKind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
 
-		if streamKind == pb.Stream_ROW_INDEX {
-			if readers[id] != nil {
+		if int(id) >= len(readers) {
+			return errors.Errorf("stripe %d footer error, stream of column %d", stripe.index, id)
+		}
+		key := [2]uint32{id, uint32(streamKind)}
+		if exists[key] {
+			return errors.Errorf("stripe %d footer error, more than one stream %s", stripe.index, streamInfo.String())
+		}
+		exists[key] = true
+		end := dataEnd - dataStart
+		if isIndex(streamKind) {
+			end = indexEnd - indexStart
+		}
+		if length > end {
+			return errors.Errorf("stripe %d footer error, stream %s is out of stripe", stripe.index, streamInfo.String())
+		}
+
+		if isIndex(streamKind) {
+			if readers[id] != nil && streamKind == pb.Stream_ROW_INDEX {
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
 					return err
 				}
@@ -347,6 +367,14 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 	return nil
 }
 
+// bloomFilterUtf8 is not in pb yet
+const bloomFilterUtf8 = pb.Stream_Kind(8)
+
+// isIndex streams in index part of stripe
+func isIndex(kind pb.Stream_Kind) bool {
+	return kind == pb.Stream_ROW_INDEX || kind == pb.Stream_BLOOM_FILTER || kind == bloomFilterUtf8
+}
+
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 	rows := stripe.prepareVector(vec)
-- 
2.43.0


From 3faada861de4fd45bdaeea61d303bedbc984e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 42/81] fix: includes which are not a tree, and vectors of
 union, panicked

---
 orc/api/type.go | 26 ++++++++++++++++++++++++--
 orc/reader.go   | 31 ++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c1d836..6bb33f8 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -44,12 +44,34 @@ func (td *TypeDescription) AddChild(name string, value *TypeDescription) {
 }
 
 func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error) {
-	if opt.RowSize == 0 {
-		return nil, errors.New("RowSize == 0")
+	if opt.RowSize <= 0 {
+		return nil, errors.Errorf("RowSize == %d", opt.RowSize)
+	}
+	if err := td.checkVector(opt); err != nil {
+		return nil, err
 	}
 	return td.createVector(opt), nil
 }
 
+// checkVector list and map vectors always have children, and no vector of union
+func (td TypeDescription) checkVector(opt *BatchOption) error {
+	if !opt.IsInclude(td.Id) {
+		return nil
+	}
+	if td.Kind == pb.Type_UNION {
+		return errors.New("vector of union not impl")
+	}
+	for _, c := range td.Children {
+		if td.Kind != pb.Type_STRUCT && !opt.IsInclude(c.Id) {
+			return errors.Errorf("includes column %d %s without its child %d", td.Id, td.Kind.String(), c.Id)
+		}
+		if err := c.checkVector(opt); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (td TypeDescription) createStructVector(opt *BatchOption) *ColumnVector {
 	var cv *ColumnVector
 	if td.HasNulls && !opt.NotCreateVector {
diff --git a/orc/reader.go b/orc/reader.go
index 3df9bb9..4eb9b82 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -93,11 +93,13 @@ func newReader(f orcio.File) (r *reader, err error) {
 }
 
 func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
-	if bopt.RowSize == 0 {
-		return nil, errors.New("Batch option RowSize == 0")
+	if bopt.RowSize <= 0 {
+		return nil, errors.Errorf("Batch option RowSize == %d", bopt.RowSize)
 	}
 
-	// todo: includes verification, make sure includes is a tree
+	if err := checkIncludes(r.schemas, bopt); err != nil {
+		return nil, err
+	}
 	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
@@ -107,6 +109,29 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	return br, nil
 }
 
+// checkIncludes make sure includes is a tree from root, and list or map has all of its children
+func checkIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
+	for _, id := range bopt.Includes {
+		if int(id) >= len(schemas) {
+			return errors.Errorf("includes column %d does not exist", id)
+		}
+	}
+	if !bopt.IsInclude(0) {
+		return errors.New("includes should have root column")
+	}
+	for _, s := range schemas {
+		for _, c := range s.Children {
+			if bopt.IsInclude(c.Id) && !bopt.IsInclude(s.Id) {
+				return errors.Errorf("includes column %d without its parent %d", c.Id, s.Id)
+			}
+			if s.Kind != pb.Type_STRUCT && bopt.IsInclude(s.Id) && !bopt.IsInclude(c.Id) {
+				return errors.Errorf("includes column %d %s without its child %d", s.Id, s.Kind.String(), c.Id)
+			}
+		}
+	}
+	return nil
+}
+
 func (r *reader) GetSchema() *api.TypeDescription {
 	return r.schemas[0]
 }
-- 
2.43.0


From 7b2d2a58fc20aa7731d38d7c93c5878da81369be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 43/81] fix: file of no rows could not be read, and an empty
 stripe was written if last row filled a stripe

---
 orc/reader.go | 5 +----
 orc/writer.go | 9 ++++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 4eb9b82..1a974b7 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -54,9 +54,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	if err = checkTypes(tail.Footer.Types); err != nil {
 		return nil, err
@@ -171,7 +168,7 @@ type batchReader struct {
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
 	for i, stripeInfo := range infos {
 		if stripeInfo.GetNumberOfRows() == 0 {
-			return errors.Errorf("stripe number of rows 0 err, %s", stripeInfo.String())
+			continue // nothing to read
 		}
 		sr, err := newStripeReader(br.f, br.schemas, br.ropts, br.bopt, i, stripeInfo)
 		if err != nil {
diff --git a/orc/writer.go b/orc/writer.go
index fd3d36b..475b0e1 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -113,10 +113,13 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	// no stripe without rows, if file has no rows or the last row just filled a stripe
+	if w.stripe.info.GetNumberOfRows() != 0 {
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 
 	if err := w.writeFileTail(); err != nil {
 		return err
-- 
2.43.0


From 003fb3cd2aed40dcfe361bef7364be6f4579fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 44/81] fix: nulls of a column without nulls were silently
 dropped on writing, and a batch not as the schema panicked

---
 orc/writer.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 475b0e1..fe89e84 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -84,9 +84,9 @@ type writer struct {
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
-	/*if err := w.CheckBatch(vec); err != nil {
+	if err := w.CheckBatch(vec); err != nil {
 		return err
-	}*/
+	}
 
 	if err := w.stripe.write(vec); err != nil {
 		return err
@@ -94,20 +94,83 @@ func (w *writer) Write(vec *api.ColumnVector) error {
 	return nil
 }
 
+// CheckBatch batch should be as the schema, then nothing of it is written if it's not
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
-	for _, v := range batch.Vector {
-		if v.Null && !w.schemas[batch.Id].HasNulls {
-			return errors.Errorf("schema %d %s has no nulls, but batch has null", batch.Id, w.schemas[batch.Id].Kind.String())
+	if batch == nil {
+		return errors.New("batch is nil")
+	}
+	return checkVector(batch, w.schemas[0], batch.Len(), nil)
+}
+
+func checkVector(vec *api.ColumnVector, schema *api.TypeDescription, rows int, parentNulls []bool) error {
+	if vec == nil || vec.Id != schema.Id || vec.Kind != schema.Kind {
+		return errors.Errorf("schema %d %s does not have its vector in batch", schema.Id, schema.Kind.String())
+	}
+	if len(vec.Children) != len(schema.Children) {
+		return errors.Errorf("schema %d has %d children, but vector has %d", schema.Id, len(schema.Children), len(vec.Children))
+	}
+
+	nulls := parentNulls
+	if vec.Vector != nil || schema.Kind != pb.Type_STRUCT {
+		if len(vec.Vector) != rows {
+			return errors.Errorf("schema %d %s has %d values of %d rows", schema.Id, schema.Kind.String(), len(vec.Vector), rows)
+		}
+		nulls = make([]bool, rows)
+		for i, v := range vec.Vector {
+			if parentNulls != nil && parentNulls[i] {
+				nulls[i] = true
+				continue
+			}
+			if v.Null && !schema.HasNulls {
+				return errors.Errorf("schema %d %s has no nulls, but batch has null", schema.Id, schema.Kind.String())
+			}
+			if !v.Null && !checkValue(v.V, schema.Kind) {
+				return errors.Errorf("schema %d %s has value of type %T", schema.Id, schema.Kind.String(), v.V)
+			}
+			nulls[i] = v.Null
 		}
 	}
-	for _, c := range batch.Children {
-		if err := w.CheckBatch(c); err != nil {
+
+	for i, c := range schema.Children {
+		if err := checkVector(vec.Children[i], c, rows, nulls); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
+func checkValue(v interface{}, kind pb.Type_Kind) (ok bool) {
+	switch kind {
+	case pb.Type_BOOLEAN:
+		_, ok = v.(bool)
+	case pb.Type_BYTE:
+		_, ok = v.(byte)
+	case pb.Type_SHORT:
+		_, ok = v.(int16)
+	case pb.Type_INT:
+		_, ok = v.(int32)
+	case pb.Type_LONG:
+		_, ok = v.(int64)
+	case pb.Type_FLOAT:
+		_, ok = v.(float32)
+	case pb.Type_DOUBLE:
+		_, ok = v.(float64)
+	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		_, ok = v.(string)
+	case pb.Type_BINARY:
+		_, ok = v.([]byte)
+	case pb.Type_DECIMAL:
+		_, ok = v.(api.Decimal64)
+	case pb.Type_DATE:
+		_, ok = v.(api.Date)
+	case pb.Type_TIMESTAMP:
+		_, ok = v.(api.Timestamp)
+	default: // struct
+		ok = true
+	}
+	return
+}
+
 func (w *writer) GetSchema() *api.TypeDescription {
 	return w.schemas[0]
 }
-- 
2.43.0


From a43d3a46dfd482a0f83c90be46e3790b09629e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 45/81] fix: the file of column statistics was left out of its
 commit

---
 orc/column/stats.go | 203 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 203 insertions(+)
 create mode 100644 orc/column/stats.go

diff --git a/orc/column/stats.go b/orc/column/stats.go
new file mode 100644
index 0000000..6d53674
--- /dev/null
+++ b/orc/column/stats.go
@@ -0,0 +1,203 @@
+package column
+
+import (
+	"math/big"
+	"unicode/utf8"
+
+	"github.com/patrickhuang888/goorc/orc/api"
+	"github.com/patrickhuang888/goorc/pb/pb"
+)
+
+// hive supports 38, no statistics of decimals far more than that
+const maxDecimalScale = 100
+
+// minimum and maximum are not set until there is a value
+
+func updateIntStats(stats *pb.ColumnStatistics, v int64) {
+	s := stats.IntStatistics
+	if s.Minimum == nil || v < *s.Minimum {
+		m := v
+		s.Minimum = &m
+	}
+	if s.Maximum == nil || v > *s.Maximum {
+		m := v
+		s.Maximum = &m
+	}
+	if s.Sum != nil {
+		sum := *s.Sum + v
+		if (v > 0 && sum < *s.Sum) || (v < 0 && sum > *s.Sum) { // overflow, no sum then
+			s.Sum = nil
+		} else {
+			*s.Sum = sum
+		}
+	}
+	*stats.NumberOfValues++
+}
+
+func updateDoubleStats(stats *pb.ColumnStatistics, v float64) {
+	s := stats.DoubleStatistics
+	*s.Sum += v
+	if v == v { // NaN is not ordered
+		if s.Minimum == nil || v < *s.Minimum {
+			m := v
+			s.Minimum = &m
+		}
+		if s.Maximum == nil || v > *s.Maximum {
+			m := v
+			s.Maximum = &m
+		}
+	}
+	*stats.NumberOfValues++
+}
+
+func updateBoolStats(stats *pb.ColumnStatistics, v bool) {
+	if v {
+		// true count
+		stats.BucketStatistics.Count[0]++
+	}
+	*stats.NumberOfValues++
+}
+
+// string of MaxByteLength or more is not kept in statistics, but a bound of that length
+func updateStringStats(stats *pb.ColumnStatistics, v string) {
+	s := stats.StringStatistics
+	*s.Sum += int64(len(v))
+
+	first := *stats.NumberOfValues == 0
+	min, max := s.GetMinimum(), s.GetMaximum()
+	if s.LowerBound != nil {
+		min = s.GetLowerBound()
+	}
+	if s.UpperBound != nil {
+		max = s.GetUpperBound()
+	}
+	if first || v < min {
+		s.Minimum, s.LowerBound = nil, nil
+		if len(v) >= MaxByteLength {
+			n := MaxByteLength - 1
+			for n > MaxByteLength-utf8.UTFMax && !utf8.RuneStart(v[n]) {
+				n--
+			}
+			b := v[:n]
+			s.LowerBound = &b
+		} else {
+			m := v
+			s.Minimum = &m
+		}
+	}
+	if first || v > max {
+		s.Maximum, s.UpperBound = nil, nil
+		if len(v) >= MaxByteLength {
+			b := upperBound(v)
+			s.UpperBound = &b
+		} else {
+			m := v
+			s.Maximum = &m
+		}
+	}
+	*stats.NumberOfValues++
+}
+
+// upperBound next of truncated v, in unicode code points
+func upperBound(v string) string {
+	rs := []rune(v[:MaxByteLength-1])
+	for i := len(rs) - 1; i >= 0; i-- {
+		r := rs[i] + 1
+		if r >= 0xD800 && r <= 0xDFFF { // surrogates are not in utf-8
+			r = 0xE000
+		}
+		if r <= 0x10FFFF {
+			rs[i] = r
+			if b := string(rs[:i+1]); b > v {
+				return b
+			}
+		}
+	}
+	return v
+}
+
+func updateDateStats(stats *pb.ColumnStatistics, days int32) {
+	s := stats.DateStatistics
+	if s.Minimum == nil || days < *s.Minimum {
+		m := days
+		s.Minimum = &m
+	}
+	if s.Maximum == nil || days > *s.Maximum {
+		m := days
+		s.Maximum = &m
+	}
+	*stats.NumberOfValues++
+}
+
+func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
+	s := stats.TimestampStatistics
+	min := func(m **int64, v int64) {
+		if *m == nil || v < **m {
+			*m = &v
+		}
+	}
+	max := func(m **int64, v int64) {
+		if *m == nil || v > **m {
+			*m = &v
+		}
+	}
+	ms := t.GetMilliSeconds()
+	min(&s.Minimum, ms)
+	max(&s.Maximum, ms)
+	msUtc := t.GetMilliSecondsUtc()
+	min(&s.MinimumUtc, msUtc)
+	max(&s.MaximumUtc, msUtc)
+	*stats.NumberOfValues++
+}
+
+func updateDecimalStats(stats *pb.ColumnStatistics, d api.Decimal64) {
+	s := stats.DecimalStatistics
+	first := *stats.NumberOfValues == 0
+	*stats.NumberOfValues++
+	if d.Scale > maxDecimalScale || d.Scale < -maxDecimalScale {
+		s.Minimum, s.Maximum, s.Sum = nil, nil, nil
+		return
+	}
+	if !first && s.Minimum == nil {
+		return
+	}
+
+	str := d.String()
+	v, _ := newRat(str)
+	if m, ok := newRat(s.GetMinimum()); !ok || v.Cmp(m) < 0 {
+		s.Minimum = &str
+	}
+	if m, ok := newRat(s.GetMaximum()); !ok || v.Cmp(m) > 0 {
+		s.Maximum = &str
+	}
+	digits := fractionDigits(str)
+	if sum, ok := newRat(s.GetSum()); ok {
+		v.Add(v, sum)
+		if n := fractionDigits(s.GetSum()); n > digits {
+			digits = n
+		}
+	}
+	t := v.FloatString(digits)
+	s.Sum = &t
+}
+
+func newRat(s string) (*big.Rat, bool) {
+	if s == "" {
+		return nil, false
+	}
+	return new(big.Rat).SetString(s)
+}
+
+func fractionDigits(s string) int {
+	for i := range s {
+		if s[i] == '.' {
+			return len(s) - i - 1
+		}
+	}
+	return 0
+}
+
+func updateBinaryStats(stats *pb.ColumnStatistics, length int) {
+	*stats.BinaryStatistics.Sum += int64(length)
+	*stats.NumberOfValues++
+}
-- 
2.43.0


From 56b5e621b123a3bb340a055f7deca86b7c6d4c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 46/81] fix: closing after a failed write reported success on a
 broken file, and the error of closing file was lost

---
 orc/writer.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index fe89e84..ae620cf 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -81,14 +81,21 @@ type writer struct {
 	ps *pb.PostScript
 
 	f orcio.File
+
+	// file is broken after an error of writing
+	err error
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
+	if w.err != nil {
+		return w.err
+	}
 	if err := w.CheckBatch(vec); err != nil {
 		return err
 	}
 
 	if err := w.stripe.write(vec); err != nil {
+		w.err = err
 		return err
 	}
 	return nil
@@ -176,6 +183,20 @@ func (w *writer) GetSchema() *api.TypeDescription {
 }
 
 func (w *writer) Close() error {
+	err := w.err
+	if err == nil {
+		err = w.finish()
+	}
+	if cerr := w.f.Close(); err == nil {
+		err = cerr
+	}
+	if w.err = err; err == nil {
+		w.err = errors.New("writer is closed")
+	}
+	return err
+}
+
+func (w *writer) finish() error {
 	// no stripe without rows, if file has no rows or the last row just filled a stripe
 	if w.stripe.info.GetNumberOfRows() != 0 {
 		if err := w.stripe.flushOut(); err != nil {
@@ -184,13 +205,7 @@ func (w *writer) Close() error {
 		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
 
-	if err := w.writeFileTail(); err != nil {
-		return err
-	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
-	}
-	return nil
+	return w.writeFileTail()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From dd37db0eead62cb604e468f3c4f46db77636eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:25 +0000
Subject: [PATCH 47/81] fix: reading on after an error of next or seek gave
 rows with columns of different rows

---
 orc/reader.go | 26 ++++++++++++++++++++++----
 orc/stripe.go |  6 ++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 1a974b7..c260b8e 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -163,6 +163,9 @@ type batchReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// streams are not at the same row after an error, until a seek succeeds
+	err error
 }
 
 func (br *batchReader) initStripes(infos []*pb.StripeInformation) error {
@@ -212,6 +215,10 @@ func (br *batchReader) Close() {
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
+	if br.err != nil {
+		return false, br.err
+	}
+
 	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
@@ -225,7 +232,9 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 		start := stripe.cursor
 		stripeEnd, err := stripe.next(batch)
 		if err != nil {
-			return stripeEnd, err
+			batch.Clear()
+			br.err = err
+			return false, err
 		}
 		br.cursor += stripe.cursor - start
 		if stripeEnd {
@@ -243,9 +252,18 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
-		return errors.New("row number larger than number of rows")
+	if rowNumber >= br.numberOfRows {
+		return errors.Errorf("row number %d is not less than number of rows %d", rowNumber, br.numberOfRows)
+	}
+	if err := br.seek(rowNumber); err != nil {
+		br.err = err
+		return err
 	}
+	br.err = nil
+	return nil
+}
+
+func (br *batchReader) seek(rowNumber uint64) error {
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
@@ -254,7 +272,7 @@ func (br *batchReader) Seek(rowNumber uint64) error {
 			}
 			// stripes after will be read from start again
 			for _, s := range br.stripes[i+1:] {
-				if s.cursor != 0 {
+				if s.cursor != 0 || s.broken {
 					if err := s.Seek(0); err != nil {
 						return err
 					}
diff --git a/orc/stripe.go b/orc/stripe.go
index 4a4b828..be4492a 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -229,6 +229,9 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// columns may not be at the same row after an error
+	broken bool
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -380,6 +383,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 	rows := stripe.prepareVector(vec)
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
+		stripe.broken = true
 		return
 	}
 
@@ -439,6 +443,7 @@ func clearNulls(values []api.Value) {
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
+	stripe.broken = true
 	offset := rowNumber
 	var stride uint64
 
@@ -462,6 +467,7 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 		return err
 	}
 	stripe.cursor = rowNumber
+	stripe.broken = false
 	return nil
 }
 
-- 
2.43.0


From 30757daeec7ba85de0ad61c11ad37d5adec50636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 48/81] fix: reading into a batch not as the schema or of
 different capacities panicked

---
 orc/reader.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index c260b8e..82d8c5e 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -213,6 +213,12 @@ func (br *batchReader) Close() {
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
+	if batch == nil {
+		return false, errors.New("batch is nil")
+	}
+	if err = br.checkBatch(batch, br.schemas[0], batch.Cap()); err != nil {
+		return false, err
+	}
 	batch.Clear()
 
 	if br.err != nil {
@@ -251,6 +257,36 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	return br.cursor >= br.numberOfRows, nil
 }
 
+// checkBatch batch should have vectors of included columns, with capacity of same rows except those of elements
+func (br *batchReader) checkBatch(vec *api.ColumnVector, schema *api.TypeDescription, rows int) error {
+	if vec == nil || vec.Id != schema.Id || vec.Kind != schema.Kind {
+		return errors.Errorf("column %d %s does not have its vector in batch", schema.Id, schema.Kind.String())
+	}
+	if (schema.Kind != pb.Type_STRUCT || schema.HasNulls) && cap(vec.Vector) < rows {
+		return errors.Errorf("vector of column %d has capacity of %d rows, should be %d", schema.Id, cap(vec.Vector), rows)
+	}
+	if schema.Kind != pb.Type_STRUCT {
+		rows = 0
+	}
+	i := 0
+	for _, c := range schema.Children {
+		if !br.bopt.IsInclude(c.Id) {
+			continue
+		}
+		if i >= len(vec.Children) {
+			return errors.Errorf("column %d does not have its vector in batch", c.Id)
+		}
+		if err := br.checkBatch(vec.Children[i], c, rows); err != nil {
+			return err
+		}
+		i++
+	}
+	if i != len(vec.Children) {
+		return errors.Errorf("vector of column %d has %d children, should be %d", schema.Id, len(vec.Children), i)
+	}
+	return nil
+}
+
 func (br *batchReader) Seek(rowNumber uint64) error {
 	if rowNumber >= br.numberOfRows {
 		return errors.Errorf("row number %d is not less than number of rows %d", rowNumber, br.numberOfRows)
-- 
2.43.0


From c459ab67cb8d2bd19e3678f3608a14efc3bd97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:00 +0000
Subject: [PATCH 49/81] fix: an empty chunk was taken as end of stream, and a
 chunk over the end of stream read the next one

---
 orc/stream/reader.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 8c1e6ce..eec110a 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -51,12 +51,13 @@ func (r *reader) ReadByte() (b byte, err error) {
 		return
 	}
 
-	if r.readLength >= r.info.GetLength() {
-		return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
-	}
-
-	if err = r.readAChunk(); err != nil {
-		return 0, err
+	for r.buf.Len() == 0 { // chunk maybe empty
+		if r.readLength >= r.info.GetLength() {
+			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
+		}
+		if err = r.readAChunk(); err != nil {
+			return 0, err
+		}
 	}
 	logger.Tracef("stream %s reading, has been read %d bytes", r.info.String(), r.readLength)
 	b, err = r.buf.ReadByte()
@@ -150,6 +151,10 @@ func (r *reader) readAChunk() error {
 		return errors.Errorf("chunk length %d larger than chunk size %d", chunkLength, r.opts.ChunkSize)
 	}
 
+	if r.readLength+uint64(chunkLength) > r.info.GetLength() {
+		return errors.Errorf("chunk length %d is over the end of stream %s", chunkLength, r.info.String())
+	}
+
 	if original {
 		if _, err := io.CopyN(r.buf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
-- 
2.43.0


From f6337073294affa4d3c7f698ee6b7e8d0b5b5c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 50/81] fix: writer options and schema ids which give a broken
 file were accepted

---
 orc/config/opts.go | 17 +++++++++++++++++
 orc/writer.go      | 15 +++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 1bf8e56..9363f5e 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -48,6 +48,23 @@ func CheckWriteOpts(opts * WriterOptions) error {
 	return nil
 }
 
+// CheckWriterOptions a file could not be written with these
+func CheckWriterOptions(opts *WriterOptions) error {
+	if opts.CompressionKind != pb.CompressionKind_NONE && opts.CompressionKind != pb.CompressionKind_ZLIB {
+		return errors.Errorf("compression %s not impl", opts.CompressionKind.String())
+	}
+	if opts.ChunkSize <= 0 || opts.ChunkSize > maxChunkSize {
+		return errors.Errorf("ChunkSize %d should be in 1 to %d", opts.ChunkSize, maxChunkSize)
+	}
+	if opts.WriteIndex && opts.IndexStride <= 0 {
+		return errors.Errorf("IndexStride %d with index", opts.IndexStride)
+	}
+	return nil
+}
+
+// length in chunk header has 23 bits
+const maxChunkSize = 1<<23 - 1
+
 func DefaultWriterOptions() WriterOptions {
 	return WriterOptions{CompressionKind: pb.CompressionKind_ZLIB, StripeSize: DEFAULT_STRIPE_SIZE, ChunkSize: DefaultChunkSize,
 		BufferSize: DefalutBufferSize, EncoderBufferSize: DefalutBufferSize, IndexStride: DefaultIndexStride}
diff --git a/orc/writer.go b/orc/writer.go
index ae620cf..c2bec8c 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -49,6 +49,21 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
+	for i, s := range schemas {
+		if s.Id != uint32(i) {
+			return nil, errors.Errorf("schema id %d should be %d, not normalized?", s.Id, i)
+		}
+		if s.Kind == pb.Type_STRUCT && len(s.ChildrenNames) != len(s.Children) {
+			return nil, errors.Errorf("schema %d has %d children, but %d names", i, len(s.Children), len(s.ChildrenNames))
+		}
+		if s.Kind != pb.Type_STRUCT && len(s.Children) != 0 {
+			return nil, errors.Errorf("schema %d %s should have no children", i, s.Kind.String())
+		}
+	}
+	if err = config.CheckWriterOptions(opts); err != nil {
+		return
+	}
+
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
 	var h uint64
-- 
2.43.0


From 1b33c998533fcb9db9c796b08e6eca60bbe1f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:31 +0000
Subject: [PATCH 51/81] verif: hooks to open readers and writers on monitored
 files

---
 orc/verif_hooks.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)
 create mode 100644 orc/verif_hooks.go

diff --git a/orc/verif_hooks.go b/orc/verif_hooks.go
new file mode 100644
index 0000000..133a2dd
--- /dev/null
+++ b/orc/verif_hooks.go
@@ -0,0 +1,28 @@
+//go:build verif
+// +build verif
+
+package orc
+
+import (
+	"github.com/patrickhuang888/goorc/orc/api"
+	"github.com/patrickhuang888/goorc/orc/config"
+	orcio "github.com/patrickhuang888/goorc/orc/io"
+)
+
+// VerifNewReader opens a reader on any file, for monitoring its I/O
+func VerifNewReader(f orcio.File) (Reader, error) {
+	r, err := newReader(f)
+	if err != nil {
+		return nil, err
+	}
+	return r, nil
+}
+
+// VerifNewWriter opens a writer on any file, for monitoring its I/O
+func VerifNewWriter(schema *api.TypeDescription, opts config.WriterOptions, f orcio.File) (Writer, error) {
+	w, err := newWriter(schema, &opts, f)
+	if err != nil {
+		return nil, err
+	}
+	return w, nil
+}
-- 
2.43.0


From 2e6af7514e3e2c94a439a20a8818a12791475396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 52/81] fix: a dictionary could not be read if empty chunks are
 left at the end of its lengths

---
 orc/stream/reader.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index eec110a..70ae7e5 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -32,6 +32,9 @@ type reader struct {
 	opts *config.ReaderOptions
 
 	f orcio.File
+
+	// reading ahead failed, position in file is lost until seek
+	err error
 }
 
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
@@ -52,6 +55,9 @@ func (r *reader) ReadByte() (b byte, err error) {
 	}
 
 	for r.buf.Len() == 0 { // chunk maybe empty
+		if r.err != nil {
+			return 0, r.err
+		}
 		if r.readLength >= r.info.GetLength() {
 			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
 		}
@@ -74,6 +80,8 @@ func (r *reader) Read(p []byte) (n int, err error) {
 			return n, errors.WithStack(err)
 		}
 		return
+	} else if r.err != nil {
+		return 0, r.err
 	} else if r.readLength >= r.info.GetLength() {
 		return 0, errors.New("stream reach end")
 	}
@@ -98,6 +106,7 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
+	r.err = nil
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
@@ -173,8 +182,12 @@ func (r *reader) readAChunk() error {
 	return nil
 }
 
-func (r reader) finished() bool {
-	return r.readLength >= r.info.GetLength() && r.buf.Len() == 0
+// finished there may be only empty chunks left
+func (r *reader) finished() bool {
+	for r.err == nil && r.buf.Len() == 0 && r.readLength < r.info.GetLength() {
+		r.err = r.readAChunk()
+	}
+	return r.err == nil && r.buf.Len() == 0
 }
 
 func (r *reader) Close() {
-- 
2.43.0


From 5f9c0be1563af3c965de325417575184eab783fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 53/81] fix: float and double columns could be written with an
 encoding which cannot be read

---
 orc/column/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 5595800..c6c25fd 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -224,8 +224,14 @@ func NewWriter(schema *api.TypeDescription, opts *config.WriterOptions) (Writer,
 		return nil, errors.New("encoding not impl")
 
 	case pb.Type_FLOAT:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, false), nil
 	case pb.Type_DOUBLE:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, true), nil
 
 	case pb.Type_CHAR:
-- 
2.43.0


From 442319556a1274fabed6dd5edff91e9e3329d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:10 +0000
Subject: [PATCH 54/81] fix: ReadChunks panicked at incomplete chunks, and
 restored a part of chunks over a window

---
 orc/reader.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 82d8c5e..4181cb3 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -592,15 +592,20 @@ func Max(x, y int64) int64 {
 func ReadChunks(chunksBuf []byte, compressKind pb.CompressionKind, chunkBufferSize int) (decompressed []byte, err error) {
 	for offset := 0; offset < len(chunksBuf); {
 		// header
+		if len(chunksBuf)-offset < 3 {
+			return nil, errors.New("chunk header is not complete")
+		}
 		original := (chunksBuf[offset] & 0x01) == 1
 		chunkLength := int(chunksBuf[offset+2])<<15 | int(chunksBuf[offset+1])<<7 |
 			int(chunksBuf[offset])>>1
-		buf := make([]byte, chunkBufferSize)
 		//fixme:
 		if chunkLength > chunkBufferSize {
 			return nil, errors.New("chunk length larger than compression block size")
 		}
 		offset += 3
+		if chunkLength > len(chunksBuf)-offset {
+			return nil, errors.New("chunk is not complete")
+		}
 
 		if original {
 			//fixme:
@@ -609,16 +614,20 @@ func ReadChunks(chunksBuf []byte, compressKind pb.CompressionKind, chunkBufferSi
 			switch compressKind {
 			case pb.CompressionKind_ZLIB:
 				r := flate.NewReader(bytes.NewReader(chunksBuf[offset : offset+chunkLength]))
-				n, err := r.Read(buf)
+				buf := &bytes.Buffer{}
+				_, err := buf.ReadFrom(io.LimitReader(r, int64(chunkBufferSize)+1))
 				r.Close()
-				if err != nil && err != io.EOF {
+				if err != nil {
 					return nil, errors.Wrapf(err, "decompress chunk data error when read footer")
 				}
-				if n == 0 {
+				if buf.Len() == 0 {
 					return nil, errors.New("decompress 0 footer")
 				}
+				if buf.Len() > chunkBufferSize {
+					return nil, errors.New("chunk data larger than compression block size")
+				}
 				//fixme:
-				decompressed = append(decompressed, buf[:n]...)
+				decompressed = append(decompressed, buf.Bytes()...)
 			default:
 				//todo:
 				return nil, errors.New("compress other than zlib not implemented")
-- 
2.43.0


From c04787ec2c3ed102690bf6431035571d6f751648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 55/81] fix: lengths of lists and maps over 64 bits in sum were
 delivered as rows

---
 orc/column/list.go   | 7 ++++++-
 orc/column/map.go    | 7 ++++++-
 orc/column/reader.go | 9 +++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/orc/column/list.go b/orc/column/list.go
index 1e31271..055e947 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -63,8 +63,10 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
+			if elements, err = addElements(elements, v); err != nil {
+				return err
+			}
 			vec.Vector[i].V = v
-			elements += v
 		}
 	}
 
@@ -89,6 +91,9 @@ func (r *ListV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
+			if _, err = addElements(0, l); err != nil {
+				return err
+			}
 			if err = r.child.Skip(l); err != nil {
 				return err
 			}
diff --git a/orc/column/map.go b/orc/column/map.go
index ce7bf03..29913cb 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -67,8 +67,10 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
+			if elements, err = addElements(elements, v); err != nil {
+				return err
+			}
 			vec.Vector[i].V = int(v)
-			elements += v
 		}
 	}
 
@@ -97,6 +99,9 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
+			if _, err = addElements(0, l); err != nil {
+				return err
+			}
 			if err := r.key.Skip(l); err != nil {
 				return err
 			}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index 49e16b8..559f45d 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -11,6 +11,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -152,6 +153,14 @@ func readElements(r Reader, vec *api.ColumnVector, elements uint64) error {
 	return nil
 }
 
+// addElements adds length of a list or map to elements of rows before
+func addElements(elements uint64, length uint64) (uint64, error) {
+	if length > math.MaxInt64-elements {
+		return 0, errors.Errorf("length %d of list or map is too large", length)
+	}
+	return elements + length, nil
+}
+
 func newElements(r Reader, vec *api.ColumnVector, size int) *api.ColumnVector {
 	part := &api.ColumnVector{Id: vec.Id, Kind: vec.Kind}
 	switch c := r.(type) {
-- 
2.43.0


From b7e60f29dc28c9a1781626fdd756544c5cd56fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:01 +0000
Subject: [PATCH 56/81] fix: reading a file which tells 2^63 rows or more
 panicked

---
 orc/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/reader.go b/orc/reader.go
index 4181cb3..01a5571 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/flate"
 	"io"
+	"math"
 	"os"
 
 	"github.com/golang/protobuf/proto"
@@ -325,6 +326,9 @@ func (br *batchReader) seek(rowNumber uint64) error {
 
 // checkStripes stripes should be in the file, and have all the rows
 func checkStripes(stripes []*pb.StripeInformation, rows uint64, fileLength uint64) error {
+	if rows > math.MaxInt64 {
+		return errors.Errorf("file footer error, number of rows %d", rows)
+	}
 	var count uint64
 	for _, info := range stripes {
 		left := fileLength
-- 
2.43.0


From e63b834b834e9b3ffd0bc686e5cdc7f53d09ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:33 +0000
Subject: [PATCH 57/81] fix: elements of a struct without any data took memory
 as much as a damaged length told

---
 orc/column/reader.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/orc/column/reader.go b/orc/column/reader.go
index 559f45d..4dc70a6 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -133,8 +133,14 @@ func seek(rowNumber uint64, strideSize int, seekStride func(int) error, skip fun
 // lengths of lists and maps are not trusted, elements are read by parts then
 const elementsPart = 4096
 
+// elements which have no data in file are as many as length tells
+const maxEmptyElements = 1 << 22
+
 // readElements append elements of lists or maps to vec
 func readElements(r Reader, vec *api.ColumnVector, elements uint64) error {
+	if elements > maxEmptyElements && isEmpty(r) && newElements(r, vec, 1).Cap() != 0 {
+		return errors.Errorf("%d elements of column %d are too many", elements, vec.Id)
+	}
 	for elements > 0 {
 		size := elements
 		if size > elementsPart {
@@ -153,6 +159,20 @@ func readElements(r Reader, vec *api.ColumnVector, elements uint64) error {
 	return nil
 }
 
+// isEmpty is true if elements are read from no stream
+func isEmpty(r Reader) bool {
+	s, ok := r.(*StructReader)
+	if !ok || s.present != nil {
+		return false
+	}
+	for _, c := range s.children {
+		if !isEmpty(c) {
+			return false
+		}
+	}
+	return true
+}
+
 // addElements adds length of a list or map to elements of rows before
 func addElements(elements uint64, length uint64) (uint64, error) {
 	if length > math.MaxInt64-elements {
-- 
2.43.0


From 43ba177a977daef42e39dbfc47112dfb327e4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 58/81] fix: read the string dictionary from its start again
 after a failed load

---
 orc/column/string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index 0717c60..4a82370 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -342,6 +342,14 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
+		// an earlier load can have failed on its way
+		r.dictStrings = nil
+		if err = r.length.Seek(0, 0, 0); err != nil {
+			return err
+		}
+		if err = r.dict.Seek(0, 0); err != nil {
+			return err
+		}
 		for ; !r.length.Finished(); {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
-- 
2.43.0


From 5260e26f332e61b7dbb0e45db28de8250eb3f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 59/81] fix: date encoder refused all dates

---
 orc/encoding/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index c124e56..fa26365 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -16,7 +16,7 @@ type dateV2Encoder struct {
 func (e *dateV2Encoder) Encode(v interface{}, out *bytes.Buffer) error {
 	date := v.(api.Date)
 	days := api.ToDays(date)
-	if err := e.intEncoder.Encode(days, out); err != nil {
+	if err := e.intEncoder.Encode(int64(days), out); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 7a9276e8318cd68d4d811725331d4af5c474c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:45 +0000
Subject: [PATCH 60/81] fix: length of a batch with a nil column panicked

---
 orc/api/vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 93418a8..4adec81 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -60,6 +60,9 @@ func (cv ColumnVector) Len() int {
 		return len(cv.Vector)
 	}
 	for _, c := range cv.Children {
+		if c == nil {
+			continue
+		}
 		if l := c.Len(); l != 0 {
 			return l
 		}
@@ -72,6 +75,9 @@ func (cv ColumnVector) Cap() int {
 		return cap(cv.Vector)
 	} else {
 		for _, c := range cv.Children {
+			if c == nil {
+				continue
+			}
 			if n := c.Cap(); n != 0 {
 				return n
 			}
-- 
2.43.0


From c0976395d604c7db77be2c9a16b67dc722602456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 61/81] fix: an index stride over 32 bits was accepted and cut
 off in footer

---
 orc/config/opts.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index 9363f5e..fb07c4a 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -1,6 +1,8 @@
 package config
 
 import (
+	"math"
+
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 )
@@ -56,7 +58,7 @@ func CheckWriterOptions(opts *WriterOptions) error {
 	if opts.ChunkSize <= 0 || opts.ChunkSize > maxChunkSize {
 		return errors.Errorf("ChunkSize %d should be in 1 to %d", opts.ChunkSize, maxChunkSize)
 	}
-	if opts.WriteIndex && opts.IndexStride <= 0 {
+	if opts.WriteIndex && (opts.IndexStride <= 0 || opts.IndexStride > math.MaxUint32) {
 		return errors.Errorf("IndexStride %d with index", opts.IndexStride)
 	}
 	return nil
-- 
2.43.0


From d48a1d94ccb42857f8ec8049f5af76117f25f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:19 +0000
Subject: [PATCH 62/81] fix: dates over 32 bits of days were written as other
 dates, and timestamps with nanoseconds over a second lost bits

---
 orc/writer.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index c2bec8c..4313296 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -2,6 +2,8 @@ package orc
 
 import (
 	"bytes"
+	"math"
+	"time"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
@@ -147,7 +149,7 @@ func checkVector(vec *api.ColumnVector, schema *api.TypeDescription, rows int, p
 				return errors.Errorf("schema %d %s has no nulls, but batch has null", schema.Id, schema.Kind.String())
 			}
 			if !v.Null && !checkValue(v.V, schema.Kind) {
-				return errors.Errorf("schema %d %s has value of type %T", schema.Id, schema.Kind.String(), v.V)
+				return errors.Errorf("schema %d %s has value %v of type %T", schema.Id, schema.Kind.String(), v.V, v.V)
 			}
 			nulls[i] = v.Null
 		}
@@ -161,6 +163,8 @@ func checkVector(vec *api.ColumnVector, schema *api.TypeDescription, rows int, p
 	return nil
 }
 
+const secondsOfDay = 24 * 60 * 60
+
 func checkValue(v interface{}, kind pb.Type_Kind) (ok bool) {
 	switch kind {
 	case pb.Type_BOOLEAN:
@@ -184,9 +188,17 @@ func checkValue(v interface{}, kind pb.Type_Kind) (ok bool) {
 	case pb.Type_DECIMAL:
 		_, ok = v.(api.Decimal64)
 	case pb.Type_DATE:
-		_, ok = v.(api.Date)
+		// stored as days of 32 bits
+		var d api.Date
+		if d, ok = v.(api.Date); ok {
+			s := time.Time(d).Unix()
+			ok = s >= math.MinInt32*secondsOfDay && s < (math.MaxInt32+1)*secondsOfDay
+		}
 	case pb.Type_TIMESTAMP:
-		_, ok = v.(api.Timestamp)
+		var t api.Timestamp
+		if t, ok = v.(api.Timestamp); ok {
+			ok = t.Nanos < 1_000_000_000
+		}
 	default: // struct
 		ok = true
 	}
-- 
2.43.0


From f7995e47fd07aeaddf2206e8f5a2b2d57e2cbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 63/81] fix: timestamp statistics were overflowed by seconds
 over 64 bits of milliseconds

---
 orc/column/stats.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/orc/column/stats.go b/orc/column/stats.go
index 6d53674..0b6c57a 100644
--- a/orc/column/stats.go
+++ b/orc/column/stats.go
@@ -1,6 +1,7 @@
 package column
 
 import (
+	"math"
 	"math/big"
 	"unicode/utf8"
 
@@ -131,6 +132,16 @@ func updateDateStats(stats *pb.ColumnStatistics, days int32) {
 
 func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
 	s := stats.TimestampStatistics
+	first := *stats.NumberOfValues == 0
+	*stats.NumberOfValues++
+	if t.Seconds > maxTimestampSeconds || t.Seconds < -maxTimestampSeconds { // milliseconds overflow
+		s.Minimum, s.Maximum, s.MinimumUtc, s.MaximumUtc = nil, nil, nil, nil
+		return
+	}
+	if !first && s.Minimum == nil {
+		return
+	}
+
 	min := func(m **int64, v int64) {
 		if *m == nil || v < **m {
 			*m = &v
@@ -147,9 +158,10 @@ func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
 	msUtc := t.GetMilliSecondsUtc()
 	min(&s.MinimumUtc, msUtc)
 	max(&s.MaximumUtc, msUtc)
-	*stats.NumberOfValues++
 }
 
+const maxTimestampSeconds = math.MaxInt64/1_000 - 1<<32
+
 func updateDecimalStats(stats *pb.ColumnStatistics, d api.Decimal64) {
 	s := stats.DecimalStatistics
 	first := *stats.NumberOfValues == 0
-- 
2.43.0


From bfdee4a40893ed37bffa0ca6b61c529fedac71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 64/81] fix: changing batch options after creating a batch
 reader changed the columns it reads

---
 orc/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/reader.go b/orc/reader.go
index 01a5571..44c0f31 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -98,7 +98,10 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 	if err := checkIncludes(r.schemas, bopt); err != nil {
 		return nil, err
 	}
-	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	// options are of the caller, who may use them again for another batch reader
+	opt := *bopt
+	opt.Includes = append([]uint32(nil), bopt.Includes...)
+	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: &opt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
 		br.Close()
-- 
2.43.0


From 924bd53d5d9ce3c5c371a39767d65bb363a49502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:15 +0000
Subject: [PATCH 65/81] fix: a chunk could be decompressed to far more than the
 chunk size

---
 orc/common/misc.go   | 16 +++++++++++++++-
 orc/stream/reader.go |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index e2eba00..48908f7 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -267,6 +267,17 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 }
 
 func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
+	return DecompressChunk(kind, dst, src, maxChunkSize)
+}
+
+// length of chunk is of 23 bits
+const maxChunkSize = 1<<23 - 1
+
+// DecompressChunk data of a chunk should not be larger than chunk size
+func DecompressChunk(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer, chunkSize uint64) (n int64, err error) {
+	if chunkSize > maxChunkSize {
+		chunkSize = maxChunkSize
+	}
 	switch kind {
 
 	case pb.CompressionKind_ZLIB:
@@ -276,9 +287,12 @@ func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (
 		}*/
 
 		r := flate.NewReader(src)
-		if n, err = dst.ReadFrom(r);err != nil {
+		if n, err = dst.ReadFrom(io.LimitReader(r, int64(chunkSize)+1)); err != nil {
 			return 0, errors.WithStack(err)
 		}
+		if uint64(n) > chunkSize {
+			return 0, errors.Errorf("chunk is decompressed to larger than chunk size %d", chunkSize)
+		}
 
 		defer r.Close()
 		/*if err = r.Close(); err != nil {
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 70ae7e5..ad0647e 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -173,7 +173,7 @@ func (r *reader) readAChunk() error {
 		if _, err := io.CopyN(r.cmpBuf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
 		}
-		if _, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf); err != nil {
+		if _, err := common.DecompressChunk(r.opts.CompressionKind, r.buf, r.cmpBuf, r.opts.ChunkSize); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 9c7848891bf7a8c5058f96dfa50b191ed5052545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:38 +0000
Subject: [PATCH 66/81] fix: a seek in a file without compression read the
 streams from their start

---
 orc/stream/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index ad0647e..fc2b62a 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -107,11 +107,18 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
 	r.buf.Reset()
 	r.err = nil
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		// no chunks, what is before the position is not needed
+		if chunk > r.info.GetLength() || chunkOffset > r.info.GetLength()-chunk {
+			return errors.Errorf("stream %s seeking to %d of chunk %d which is over the end", r.info.String(), chunkOffset, chunk)
+		}
+		chunk, chunkOffset = chunk+chunkOffset, 0
+	}
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
 	r.readLength = chunk
-	// offset is over the first chunk if no compression, and may be just the end of stream
+	// offset may be just the end of stream
 	for uint64(r.buf.Len()) < chunkOffset || r.buf.Len() == 0 {
 		if r.readLength >= r.info.GetLength() {
 			break
-- 
2.43.0


From 2b4b612ba1ee60ddb4ba65edc81a8a179cad5ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 67/81] fix: a batch with a vector for a struct without nulls
 in a struct with nulls panicked

---
 orc/column/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/column/struct.go b/orc/column/struct.go
index 1e5f6ec..3c2afba 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -142,7 +142,7 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 // fillNulls children of a null struct are nulls, and streams have nothing of them
 func fillNulls(vec *api.ColumnVector, values []api.Value) {
 	for _, c := range vec.Children {
-		if c.Vector == nil { // struct has no nulls of itself
+		if len(c.Vector) == 0 { // struct has no nulls of itself
 			fillNulls(c, values)
 			continue
 		}
-- 
2.43.0


From d0a89eb87bdf1dd0e564bc208f5fe5fc0684dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:27 +0000
Subject: [PATCH 68/81] fix: vectors of maps were made with room when told not
 to

---
 orc/api/type.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 6bb33f8..c2e6ee8 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -100,7 +100,10 @@ func (td TypeDescription) createListVector(opt *BatchOption) *ColumnVector {
 }
 
 func (td TypeDescription) createMapVector(opt *BatchOption) *ColumnVector {
-	cv := &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
+	cv := &ColumnVector{Id: td.Id, Kind: td.Kind}
+	if !opt.NotCreateVector {
+		cv.Vector = make([]Value, opt.RowSize)
+	}
 	cv.Children = append(cv.Children, td.Children[0].createVector(opt))
 	cv.Children = append(cv.Children, td.Children[1].createVector(opt))
 	return cv
-- 
2.43.0


From 729f3972518b150a216ac6356c71fbfe6f71b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:36 +0000
Subject: [PATCH 69/81] fix: a file was truncated by NewOSFileWriter though the
 schema or options were refused

---
 orc/writer.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 4313296..e8562ea 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -29,12 +29,16 @@ type Writer interface {
 // current version always write new file, no append
 func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.WriterOptions) (Writer, error) {
 	log.Infof("open file %s", path)
-	f, err := orcio.OpenFileForWrite(path)
+	// a file there was should not be lost for a schema or options which cannot be written
+	w, err := prepareWriter(schema, &opts)
 	if err != nil {
 		return nil, err
 	}
-	w, err := newWriter(schema, &opts, f)
+	f, err := orcio.OpenFileForWrite(path)
 	if err != nil {
+		return nil, err
+	}
+	if err = w.begin(f); err != nil {
 		f.Close()
 		return nil, err
 	}
@@ -42,6 +46,17 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 }
 
 func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.File) (w *writer, err error) {
+	if w, err = prepareWriter(schema, opts); err != nil {
+		return nil, err
+	}
+	if err = w.begin(f); err != nil {
+		return nil, err
+	}
+	return
+}
+
+// prepareWriter makes a writer without its file
+func prepareWriter(schema *api.TypeDescription, opts *config.WriterOptions) (w *writer, err error) {
 	/*if err = api.NormalizeSchema(schema); err != nil {
 		return
 	}*/
@@ -66,14 +81,8 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
-	w = &writer{opts: opts, f: f, schemas: schemas}
-
-	var h uint64
-	if h, err = w.writeHeader(); err != nil {
-		return nil, err
-	}
-	w.offset = h
-	if w.stripe, err = newStripeWriter(w.f, w.offset, schemas, w.opts); err != nil {
+	w = &writer{opts: opts, offset: HeaderLength, schemas: schemas}
+	if w.stripe, err = newStripeWriter(nil, w.offset, schemas, w.opts); err != nil {
 		return nil, err
 	}
 	for _, cw := range w.stripe.columnWriters {
@@ -82,6 +91,13 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	return
 }
 
+// begin writes the header to the file, stripes will follow
+func (w *writer) begin(f orcio.File) error {
+	w.f, w.stripe.out = f, f
+	_, err := w.writeHeader()
+	return err
+}
+
 // cannot used concurrently, not synchronized
 // strip buffered in memory until the strip size
 // Encode out by columns
-- 
2.43.0


From bf3cbae5a4a9212def963e70eef49d36370239ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:38 +0000
Subject: [PATCH 70/81] fix: reading opened a descriptor for each stream of
 each stripe, and by path, so that many did not open and others read a file
 put there since

---
 orc/io/file.go | 86 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 11 deletions(-)

diff --git a/orc/io/file.go b/orc/io/file.go
index 0d5a95d..10d20d8 100644
--- a/orc/io/file.go
+++ b/orc/io/file.go
@@ -5,6 +5,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"io"
 	"os"
+	"sync/atomic"
 )
 
 var logger = log.New()
@@ -21,9 +22,36 @@ type File interface {
 	Clone() (File, error)
 }
 
+// osFile reads a file of system from its own offset, clones of it share the descriptor
 type osFile struct {
-	path string
-	f    *os.File
+	f      *sharedFile
+	offset int64
+	closed bool
+}
+
+// sharedFile is closed with the last of its users
+type sharedFile struct {
+	*os.File
+	users int32
+}
+
+func (f *sharedFile) retain() error {
+	for {
+		n := atomic.LoadInt32(&f.users)
+		if n == 0 {
+			return os.ErrClosed
+		}
+		if atomic.CompareAndSwapInt32(&f.users, n, n+1) {
+			return nil
+		}
+	}
+}
+
+func (f *sharedFile) release() error {
+	if atomic.AddInt32(&f.users, -1) == 0 {
+		return f.Close()
+	}
+	return nil
 }
 
 func OpenFileForRead(path string) (File, error) {
@@ -31,7 +59,7 @@ func OpenFileForRead(path string) (File, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &osFile{f: f, path: path}, nil
+	return &osFile{f: &sharedFile{f, 1}}, nil
 }
 
 // should not exist, because cannot APPEND
@@ -40,22 +68,27 @@ func OpenFileForWrite(path string) (File, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &osFile{f: f, path: path}, nil
+	return &osFile{f: &sharedFile{f, 1}}, nil
 }
 
 func (f *osFile) Write(p []byte) (n int, err error) {
+	if f.closed {
+		return 0, os.ErrClosed
+	}
 	return f.f.Write(p)
 }
 
 func (f *osFile) Clone() (File, error) {
-	r, err := os.Open(f.path)
-	if err != nil {
-		return nil, err
+	if err := f.f.retain(); err != nil {
+		return nil, errors.WithStack(err)
 	}
-	return &osFile{f.path, r}, nil
+	return &osFile{f: f.f}, nil
 }
 
 func (f *osFile) Size() (int64, error) {
+	if f.closed {
+		return 0, errors.WithStack(os.ErrClosed)
+	}
 	fi, err := f.f.Stat()
 	if err != nil {
 		return 0, errors.WithStack(err)
@@ -64,7 +97,14 @@ func (f *osFile) Size() (int64, error) {
 }
 
 func (f *osFile) Read(p []byte) (int, error) {
-	n, err := f.f.Read(p)
+	if f.closed {
+		return 0, errors.WithStack(os.ErrClosed)
+	}
+	n, err := f.f.ReadAt(p, f.offset)
+	f.offset += int64(n)
+	if err == io.EOF && n > 0 {
+		err = nil
+	}
 	if err != nil {
 		return n, errors.WithStack(err)
 	}
@@ -72,11 +112,35 @@ func (f *osFile) Read(p []byte) (int, error) {
 }
 
 func (f *osFile) Seek(offset int64, whence int) (int64, error) {
-	return f.f.Seek(offset, whence)
+	if f.closed {
+		return 0, os.ErrClosed
+	}
+	switch whence {
+	case io.SeekStart:
+	case io.SeekCurrent:
+		offset += f.offset
+	case io.SeekEnd:
+		size, err := f.Size()
+		if err != nil {
+			return 0, err
+		}
+		offset += size
+	default:
+		return 0, errors.Errorf("seek whence %d", whence)
+	}
+	if offset < 0 {
+		return 0, errors.Errorf("seek to %d", offset)
+	}
+	f.offset = offset
+	return offset, nil
 }
 
 func (f *osFile) Close() error {
-	if err := f.f.Close(); err != nil {
+	if f.closed {
+		return errors.WithStack(os.ErrClosed)
+	}
+	f.closed = true
+	if err := f.f.release(); err != nil {
 		return errors.WithStack(err)
 	}
 	return nil
-- 
2.43.0


From ea300ea2504b4359b430551c9b37071ff2fa5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:22 +0000
Subject: [PATCH 71/81] fix: smallint and int values out of range are an error
 instead of other values

---
 orc/column/int.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orc/column/int.go b/orc/column/int.go
index 7d936e1..c06c256 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
+	"math"
 )
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
@@ -195,8 +196,14 @@ func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 			}
 			switch r.bits {
 			case BitsSmallInt:
+				if v < math.MinInt16 || v > math.MaxInt16 {
+					return errors.Errorf("value %d is out of range of smallint", v)
+				}
 				vec.Vector[i].V = int16(v)
 			case BitsInt:
+				if v < math.MinInt32 || v > math.MaxInt32 {
+					return errors.Errorf("value %d is out of range of int", v)
+				}
 				vec.Vector[i].V = int32(v)
 			case BitsBigInt:
 				vec.Vector[i].V = v
-- 
2.43.0


From 929ebdeec6bdb7e7924b9b6b0075623d02f65334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 72/81] fix: days of a date out of range are an error instead
 of another date

---
 orc/encoding/time.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index fa26365..52492e1 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -3,6 +3,8 @@ package encoding
 import (
 	"bytes"
 	"github.com/patrickhuang888/goorc/orc/api"
+	"github.com/pkg/errors"
+	"math"
 )
 
 func NewDateV2Encoder(doPositioning bool) Encoder {
@@ -44,6 +46,9 @@ func (d *dateV2Decoder) Decode(in BufferedReader) (dates []api.Date, err error)
 		return
 	}
 	for _, v := range days {
+		if v < math.MinInt32 || v > math.MaxInt32 {
+			return nil, errors.Errorf("days of date %d are out of range", v)
+		}
 		dates = append(dates, api.FromDays(int32(v)))
 	}
 	return
-- 
2.43.0


From ed9ba77b6b2be1ae19406ab22d5b24c9e3e0933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:28 +0000
Subject: [PATCH 73/81] fix: nanoseconds of a second or more are an error when
 read

---
 orc/column/time.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 4943b3e..4d6df5d 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -442,7 +442,11 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
+			nanos := api.DecodingTimestampNanos(ns)
+			if ns>>3 >= 1e9 || nanos >= 1e9 {
+				return errors.New("nanoseconds of timestamp are not less than a second")
+			}
+			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: nanos}
 		}
 	}
 	return nil
-- 
2.43.0


From eeb6d409c91c1d196260a1b8c5e1c6d9bee4fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:10 +0000
Subject: [PATCH 74/81] fix: build on 32-bit platforms, comparing index stride
 to 32 bits as 64 bit number

---
 orc/config/opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/config/opts.go b/orc/config/opts.go
index fb07c4a..783495b 100644
--- a/orc/config/opts.go
+++ b/orc/config/opts.go
@@ -58,7 +58,7 @@ func CheckWriterOptions(opts *WriterOptions) error {
 	if opts.ChunkSize <= 0 || opts.ChunkSize > maxChunkSize {
 		return errors.Errorf("ChunkSize %d should be in 1 to %d", opts.ChunkSize, maxChunkSize)
 	}
-	if opts.WriteIndex && (opts.IndexStride <= 0 || opts.IndexStride > math.MaxUint32) {
+	if opts.WriteIndex && (opts.IndexStride <= 0 || uint64(opts.IndexStride) > math.MaxUint32) {
 		return errors.Errorf("IndexStride %d with index", opts.IndexStride)
 	}
 	return nil
-- 
2.43.0


From 1de659621f7527bce9b57c9e360b34414a9f5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:12 +0000
Subject: [PATCH 75/81] fix: dates of all days on 32-bit platforms, where days
 plus one overflowed int

---
 orc/api/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 4adec81..15b17ef 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -141,7 +141,7 @@ func (d *Date) String() string {
 
 func FromDays(days int32) Date {
 	// not by duration, it's of 290 years at most
-	return Date(time.Date(1970, 1, 1+int(days), 0, 0, 0, 0, time.UTC))
+	return Date(time.Unix(int64(days)*secondsOfDay, 0).UTC())
 }
 
 const secondsOfDay = 24 * 60 * 60
-- 
2.43.0


From a4beb6a676901a357c6421803c2781f24581723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:13 +0000
Subject: [PATCH 76/81] fix: type ids and row counts of a file are not cut to
 int, which panicked on 32-bit platforms

---
 orc/reader.go | 2 +-
 orc/stripe.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 44c0f31..09312b1 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -113,7 +113,7 @@ func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
 // checkIncludes make sure includes is a tree from root, and list or map has all of its children
 func checkIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
 	for _, id := range bopt.Includes {
-		if int(id) >= len(schemas) {
+		if uint64(id) >= uint64(len(schemas)) {
 			return errors.Errorf("includes column %d does not exist", id)
 		}
 	}
diff --git a/orc/stripe.go b/orc/stripe.go
index be4492a..808621b 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -333,7 +333,7 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		streamKind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
 
-		if int(id) >= len(readers) {
+		if uint64(id) >= uint64(len(readers)) {
 			return errors.Errorf("stripe %d footer error, stream of column %d", stripe.index, id)
 		}
 		key := [2]uint32{id, uint32(streamKind)}
@@ -395,7 +395,7 @@ func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
 
 func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) int {
 	page := vec.Cap() - vec.Len()
-	if int(stripe.numberOfRows-stripe.cursor) < page {
+	if stripe.numberOfRows-stripe.cursor < uint64(page) {
 		page = int(stripe.numberOfRows - stripe.cursor)
 	}
 	stripe.setVectorSize(page, vec)
-- 
2.43.0


From 46de50b9c1afaa900e6fe2ee1d5f15cec93a2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:15 +0000
Subject: [PATCH 77/81] fix: rows to skip are not cut to int, so that seeks go
 on to the row on 32-bit platforms

---
 orc/column/binary.go | 2 +-
 orc/column/bool.go   | 2 +-
 orc/column/byte.go   | 2 +-
 orc/column/float.go  | 2 +-
 orc/column/int.go    | 2 +-
 orc/column/list.go   | 2 +-
 orc/column/map.go    | 2 +-
 orc/column/string.go | 4 ++--
 orc/column/time.go   | 4 ++--
 orc/stream/bool.go   | 2 +-
 orc/stream/byte.go   | 2 +-
 orc/stream/int.go    | 2 +-
 orc/stream/time.go   | 2 +-
 13 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index b489138..7ef74d7 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -167,7 +167,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present!=nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/bool.go b/orc/column/bool.go
index f264593..dc4040c 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -170,7 +170,7 @@ func (r *BoolReader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 72b5e27..7d837e5 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -166,7 +166,7 @@ func (r *ByteReader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/float.go b/orc/column/float.go
index cad3e56..7d111c2 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -71,7 +71,7 @@ func (r *FloatReader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present!=nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/int.go b/orc/column/int.go
index c06c256..fd429fb 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -219,7 +219,7 @@ func (r *IntV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 055e947..72c70d6 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -79,7 +79,7 @@ func (r *ListV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/map.go b/orc/column/map.go
index 29913cb..9bdc61b 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -87,7 +87,7 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/string.go b/orc/column/string.go
index 4a82370..3296d5f 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -197,7 +197,7 @@ func (r *StringDirectV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -390,7 +390,7 @@ func (r *StringDictionaryV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/time.go b/orc/column/time.go
index 4d6df5d..0fbb3bf 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -174,7 +174,7 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -456,7 +456,7 @@ func (r *TimestampV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/stream/bool.go b/orc/stream/bool.go
index e95672e..b78810d 100644
--- a/orc/stream/bool.go
+++ b/orc/stream/bool.go
@@ -44,7 +44,7 @@ func (r *BoolReader) Seek(chunkOffset uint64, offset uint64, byteRLOffset uint64
 	}
 	r.pos = 0
 	r.values = nil
-	for i := 0; i < int(valueOffset); i++ {
+	for i := uint64(0); i < valueOffset; i++ {
 		if _, err := r.Next(); err != nil {
 			return err
 		}
diff --git a/orc/stream/byte.go b/orc/stream/byte.go
index 5b540d7..8b3082d 100644
--- a/orc/stream/byte.go
+++ b/orc/stream/byte.go
@@ -46,7 +46,7 @@ func (r *ByteReader) Seek(chunkOffset uint64, offset uint64, valueOffset uint64)
 	}
 	r.values = r.values[:0]
 	r.consumed = 0
-	for i := 0; i < int(valueOffset); i++ {
+	for i := uint64(0); i < valueOffset; i++ {
 		if _, err := r.Next(); err != nil {
 			return err
 		}
diff --git a/orc/stream/int.go b/orc/stream/int.go
index 786727e..329ea5e 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -108,7 +108,7 @@ func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
 	} else {
 		r.uvalues = r.uvalues[:0]
 	}
-	for i := 0; i < int(pos); i++ {
+	for i := uint64(0); i < pos; i++ {
 		if r.signed {
 			if _, err := r.NextInt64(); err != nil {
 				return err
diff --git a/orc/stream/time.go b/orc/stream/time.go
index 7dbb189..dcc12f5 100644
--- a/orc/stream/time.go
+++ b/orc/stream/time.go
@@ -46,7 +46,7 @@ func (r *dateV2Reader) Seek(chunk uint64, chunkOffset uint64, offset uint64) err
 	}
 	r.values = nil
 	r.consumed = 0
-	for i := 0; i < int(offset); i++ {
+	for i := uint64(0); i < offset; i++ {
 		if _, err := r.Next(); err != nil {
 			return err
 		}
-- 
2.43.0


From 8ad8911e8cb83032a403dd75e6de75a43c9f1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:24 +0000
Subject: [PATCH 78/81] fix: lengths and numbers of elements which are no int
 are an error on 32-bit platforms too

---
 orc/column/reader.go | 5 +++--
 orc/stream/string.go | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/orc/column/reader.go b/orc/column/reader.go
index 4dc70a6..2d0c5f0 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -11,7 +11,6 @@ import (
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
 	"io"
-	"math"
 	"strings"
 )
 
@@ -173,9 +172,11 @@ func isEmpty(r Reader) bool {
 	return true
 }
 
+const maxInt = uint64(^uint(0) >> 1)
+
 // addElements adds length of a list or map to elements of rows before
 func addElements(elements uint64, length uint64) (uint64, error) {
-	if length > math.MaxInt64-elements {
+	if length > maxInt-elements {
 		return 0, errors.Errorf("length %d of list or map is too large", length)
 	}
 	return elements + length, nil
diff --git a/orc/stream/string.go b/orc/stream/string.go
index de6d22c..4ab75ca 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -5,8 +5,11 @@ import (
 	"github.com/patrickhuang888/goorc/orc/encoding"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"github.com/patrickhuang888/goorc/pb/pb"
+	"github.com/pkg/errors"
 )
 
+const maxInt = uint64(^uint(0) >> 1)
+
 type StringContentsReader struct {
 	stream *reader
 }
@@ -22,6 +25,9 @@ func (r *StringContentsReader) NextBytes(len uint64) (v []byte, err error) {
 		}
 		return nil, errNoStream
 	}
+	if len > maxInt {
+		return nil, errors.Errorf("length %d is too large", len)
+	}
 	return encoding.DecodeBytes(r.stream, int(len))
 }
 
-- 
2.43.0


From 18402928cbd8d4c528673d1a05f9f6d63c7a9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:26 +0000
Subject: [PATCH 79/81] fix: a scale which is no int is an error, not cut to 32
 bits

---
 orc/column/decimal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 1757782..70b507f 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -178,6 +178,9 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
+			if int64(int(scale)) != scale {
+				return errors.Errorf("scale %d is out of range", scale)
+			}
 			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
@@ -188,7 +191,7 @@ func (r *DecimalV2Reader) Skip(rows uint64) error {
 	var err error
 	p := true
 
-	for i := 0; i < int(rows); i++ {
+	for i := uint64(0); i < rows; i++ {
 		if r.present != nil {
 			if p, err = r.present.Next(); err != nil {
 				return err
-- 
2.43.0


From e63ce49cc0e63075f5914aa29d055e04f74d6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:01 +0000
Subject: [PATCH 80/81] fix: a row over 2^31 strides is not taken for one of
 the first strides on 32-bit platforms

---
 orc/stripe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/orc/stripe.go b/orc/stripe.go
index 808621b..5950755 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -3,6 +3,7 @@ package orc
 import (
 	"bytes"
 	"io"
+	"math"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
@@ -447,9 +448,10 @@ func (stripe *stripeReader) Seek(rowNumber uint64) error {
 	offset := rowNumber
 	var stride uint64
 
-	if stripe.ropts.IndexStride > 0 {
-		stride = rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % uint64(stripe.ropts.IndexStride)
+	// an index has no more entries than that
+	if n := uint64(stripe.ropts.IndexStride); n > 0 && rowNumber/n <= math.MaxInt32 {
+		stride = rowNumber / n
+		offset = rowNumber % n
 	}
 
 	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
-- 
2.43.0


From 5c57be342955f74e902f8e7132b9350ea199f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:01 +0000
Subject: [PATCH 81/81] fix: all logs go to the loggers whose level SetLogLevel
 sets

---
 orc/encoding/package.go | 16 ++++++++--------
 orc/io/file.go          |  4 ++--
 orc/stream/writer.go    |  5 ++---
 orc/stripe.go           |  7 +++----
 orc/writer.go           |  3 +--
 5 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index db30a89..f5a18c6 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -164,20 +164,20 @@ func widthEncoding(width int) (w byte, err error) {
 	if 2 <= width && width <= 24 {
 		w = byte(width - 1)
 		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 23) {
-			log.Warnf("encoding: width %d is deprecated", width)
+			logger.Warnf("encoding: width %d is deprecated", width)
 		}
 		return
 	}
 	if 26 == width {
-		log.Warnf("encoding: width %d is deprecated", width)
+		logger.Warnf("encoding: width %d is deprecated", width)
 		return 24, nil
 	}
 	if 28 == width {
-		log.Warnf("encoding: width %d is deprecated", width)
+		logger.Warnf("encoding: width %d is deprecated", width)
 		return 25, nil
 	}
 	if 30 == width {
-		log.Warnf("encoding: width %d is deprecated", width)
+		logger.Warnf("encoding: width %d is deprecated", width)
 		return 26, nil
 	}
 
@@ -216,21 +216,21 @@ func widthEncoding(width int) (w byte, err error) {
 func widthDecoding(w byte, delta bool) (width byte, err error) {
 	if 2 <= w && w <= 23 {
 		if 2 == w || (4 <= w && w <= 6) || (8 <= w && w <= 14) || (16 <= w && w <= 22) {
-			log.Warnf("decoding: width encoded %d is deprecated", w)
+			logger.Warnf("decoding: width encoded %d is deprecated", w)
 		}
 		width = w + 1
 		return
 	}
 	if 24 == w {
-		log.Warnf("decoding: width encoded  %d is deprecated", w)
+		logger.Warnf("decoding: width encoded  %d is deprecated", w)
 		return 26, nil
 	}
 	if 25 == w {
-		log.Warnf("decoding: width encoded  %d is deprecated", w)
+		logger.Warnf("decoding: width encoded  %d is deprecated", w)
 		return 28, nil
 	}
 	if 26 == w {
-		log.Warnf("decoding: width encoded  %d is deprecated", w)
+		logger.Warnf("decoding: width encoded  %d is deprecated", w)
 		return 30, nil
 	}
 
diff --git a/orc/io/file.go b/orc/io/file.go
index 10d20d8..53e8bf4 100644
--- a/orc/io/file.go
+++ b/orc/io/file.go
@@ -177,7 +177,7 @@ func (m *MockFile) Seek(offset int64, whence int) (int64, error) {
 		return 0, errors.New("offset invalid")
 	}
 	m.offset = int(offset)
-	log.Tracef("mock file seek to %d", offset)
+	logger.Tracef("mock file seek to %d", offset)
 	return offset, nil
 }
 
@@ -199,6 +199,6 @@ func (m *MockFile) Write(p []byte) (n int, err error) {
 		err = errors.New("no enough buf in mock file")
 	}
 
-	log.Tracef("mock file write %d, offset %d, watermakr %d", n, m.offset, m.waterMark)
+	logger.Tracef("mock file write %d, offset %d, watermakr %d", n, m.offset, m.waterMark)
 	return
 }
diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index ff8cee7..59a641c 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -7,7 +7,6 @@ import (
 	"github.com/patrickhuang888/goorc/orc/encoding"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
-	log "github.com/sirupsen/logrus"
 	"io"
 )
 
@@ -112,14 +111,14 @@ func (w *writer) WriteOut(out io.Writer) (n int64, err error) {
 		if n, err = w.buf.WriteTo(out); err != nil {
 			return 0, errors.WithStack(err)
 		}
-		log.Debugf("write out column %d stream %s length %d", w.info.GetColumn(), w.info.GetKind(), n)
+		logger.Debugf("write out column %d stream %s length %d", w.info.GetColumn(), w.info.GetKind(), n)
 		return
 	}
 
 	if n, err = w.compressedBuf.WriteTo(out); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	log.Debugf("write out column %d stream %s length %d", w.info.GetColumn(), w.info.GetKind(), n)
+	logger.Debugf("write out column %d stream %s length %d", w.info.GetColumn(), w.info.GetKind(), n)
 	return
 }
 
diff --git a/orc/stripe.go b/orc/stripe.go
index 5950755..b550401 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
-	log "github.com/sirupsen/logrus"
 
 	"github.com/patrickhuang888/goorc/orc/api"
 	"github.com/patrickhuang888/goorc/orc/column"
@@ -123,7 +122,7 @@ func (stripe *stripeWriter) flushOut() error {
 			kind, id, length := pb.Stream_ROW_INDEX, stripe.schemas[i].Id, uint64(nd)
 			stripe.indexInfos = append(stripe.indexInfos, &pb.Stream{Kind: &kind, Column: &id, Length: &length})
 		}
-		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
+		logger.Tracef("flush index of length %d", stripe.info.GetIndexLength())
 	}
 
 	for _, c := range stripe.columnWriters {
@@ -175,7 +174,7 @@ func (stripe *stripeWriter) writeFooter() error {
 	}
 	*stripe.info.FooterLength = uint64(n)
 
-	log.Infof("write out stripe footer %s", footer.String())
+	logger.Infof("write out stripe footer %s", footer.String())
 	return nil
 }
 
@@ -271,7 +270,7 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 	if err := proto.Unmarshal(footerBuf, footer); err != nil {
 		return nil, err
 	}
-	log.Debugf("extracted stripe footer %d: %s", stripe.index, footer.String())
+	logger.Debugf("extracted stripe footer %d: %s", stripe.index, footer.String())
 	return footer, nil
 }
 
diff --git a/orc/writer.go b/orc/writer.go
index e8562ea..7a5ed6e 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/golang/protobuf/proto"
 	"github.com/pkg/errors"
-	log "github.com/sirupsen/logrus"
 
 	"github.com/patrickhuang888/goorc/orc/api"
 	"github.com/patrickhuang888/goorc/orc/common"
@@ -28,7 +27,7 @@ type Writer interface {
 
 // current version always write new file, no append
 func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.WriterOptions) (Writer, error) {
-	log.Infof("open file %s", path)
+	logger.Infof("open file %s", path)
 	// a file there was should not be lost for a schema or options which cannot be written
 	w, err := prepareWriter(schema, &opts)
 	if err != nil {
-- 
2.43.0

