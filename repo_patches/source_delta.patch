From acaf7817fee3d60b051e35f06f735dabef0e1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 01/28] fix: do not panic on base32 hashes longer than the hash
 size

---
 tiger/tiger.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..aa80aad 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,14 +80,7 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
-	n, err := base32Enc.Decode((*h)[:], buf)
-	if err != nil {
-		return err
-	}
-	if n != Size {
-		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
-	}
-	return nil
+	return h.FromBase32(string(buf))
 }
 
 // FromBase32 parses hash from base32 encoding.
-- 
2.43.0


From 0cd21528385f65326693fa025244ad2b993d647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 02/28] fix: do not panic on ADC messages with missing
 positional arguments

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..82f5b5b 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("error on field %s: missing positional argument", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From 1896c1dde85f17bb6d7d586bb678631b1d90be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 03/28] fix: do not panic on truncated feature selectors

---
 adc/packets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..3a686f0 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -693,7 +693,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
@@ -701,7 +701,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			i += 4
 		} else if data[i] == '-' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
-- 
2.43.0


From c3969dae1e5663e75d403ffe27db1abc94fe8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 04/28] fix: do not panic on an empty info packet

---
 adc/packets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/packets.go b/adc/packets.go
index 3a686f0..e42417a 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -180,7 +180,9 @@ func (p *InfoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *InfoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) != 0 && data[len(data)-1] != lineDelim {
+	if len(data) < 1 {
+		return errors.New("short info command")
+	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From d00988256a4582a186cd70dacdd5870354a2290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 05/28] fix: do not panic when calculating a key for a short
 lock

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..661aa5f 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// the lock is too short to calculate a response
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From 23c1aff02a5669e95938bd0c2c72bd573b3e6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 06/28] fix: do not panic or corrupt the buffer when marshaling
 an empty chat message

---
 nmdc/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..5a65a77 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -116,7 +116,8 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
-	if typ := m.Type(); typ != "" {
+	typ := m.Type()
+	if typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
 		buf.WriteString(typ)
@@ -126,7 +127,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if typ != "" && n == buf.Len() {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From 2df0c9dfc59e3ebf971707d11f0d1cf4d77027b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 07/28] fix: do not panic on a tree hash of an empty list of
 leaves

---
 tiger/tth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..baa3d58 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -30,6 +30,9 @@ func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 
 // TreeHash converts leaves into a hash.
 func (in Leaves) TreeHash() Hash {
+	if len(in) == 0 {
+		return Hash{}
+	}
 	// deep copy leaves since they must be modified in order to compute the hash
 	lvl := append([]Hash{}, in...)
 	buf := make([]byte, 2*Size+1)
-- 
2.43.0


From 256ee6f29d6d794b871f928443b282abc5e8e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 08/28] fix: keep the writer consistent when zlib cannot be
 enabled

---
 lineproto/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..b462175 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -98,10 +98,10 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
+			w.setError(err)
 			return err
 		}
 		w.zlibW = z
@@ -109,6 +109,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From 31a2fc6c91faa18b6b3d3cb8cef912f3d7ce8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 09/28] fix: keep the reader consistent when zlib cannot be
 enabled

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..559cfd6 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -255,7 +255,6 @@ func (r *Reader) EnableZlib() error {
 	} else if r.zlibOn {
 		return errZlibAlreadyActive
 	}
-	r.zlibOn = true
 
 	if r.zlib != nil {
 		err := r.zlib.(zlib.Resetter).Reset(r.original, nil)
@@ -275,6 +274,7 @@ func (r *Reader) EnableZlib() error {
 	} else {
 		r.compressed = newBufReader(r.zlib)
 	}
+	r.zlibOn = true
 	r.cur = r.compressed
 	return nil
 }
-- 
2.43.0


From 5552a3c742aba524e81ce0493051428ad25e0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 10/28] fix: do not panic when the writer is closed twice

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index b462175..bec04a5 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return nil // already closed
+	}
 	last := w.bw.Flush()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From 040514c8d66e80712c392ecb79479f4cf4233b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 11/28] fix: do not panic when the connection returns no data
 and no error

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 559cfd6..db9999f 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) {
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 26d018193219e522f89ad56a498d9391dbe4eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 12/28] fix: use the decoded path in search results

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From 4b70cf7cd41934f84b65e8bb7e9b33acd32e1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 13/28] fix: unescape values of ADC fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From d6ea55964cc0e01b86d445e65bb902e7b7e3a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 14/28] fix: decode ADC boolean value 0 as false

---
 adc/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 82f5b5b..0a91f66 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,7 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		rv.SetBool(s[0] != '0')
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 40ba97bd1d7c222a90178908f754a97cee35708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 15/28] fix: reject ADC numbers that are not integers or do not
 fit the field

---
 adc/marshal.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 0a91f66..bf5fec8 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -51,21 +51,19 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 	}
 	switch rv.Kind() {
 	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16:
-		bits := 64
-		switch rv.Kind() {
-		case reflect.Int32, reflect.Int16:
-			bits = 32
-		}
 		sv := string(s)
-		vi, err := strconv.ParseInt(sv, 10, bits)
+		vi, err := strconv.ParseInt(sv, 10, rv.Type().Bits())
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
-			if err2 != nil {
+			vf, err2 := strconv.ParseFloat(sv, 64)
+			if err2 != nil || math.Round(vf) != vf {
+				return err
+			} else if vf < math.MinInt64 || vf >= -math.MinInt64 {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
 			}
 			vi = int64(vf)
+			if rv.OverflowInt(vi) {
+				return err
+			}
 		}
 		rv.SetInt(vi)
 		return nil
-- 
2.43.0


From 0e34f35f5787894aed34bf6f522fb4342c3b3e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 16/28] fix: reject ADCGET length that does not fit the field

---
 nmdc/msg_files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..ee37c65 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -92,7 +93,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		m.Length = -1
 	} else {
 		lengthNum, err := parseUin64Trim(length)
-		if err != nil {
+		if err != nil || lengthNum > math.MaxInt64 {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
 		m.Length = int64(lengthNum)
-- 
2.43.0


From 418d6ed52e5da165a95148ea6fa29eec18f562f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 17/28] fix: do not expect the type of a dropped message when
 reading the next one

---
 nmdc/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..feea4de 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -146,9 +146,12 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
+	want := *ptr // message requested by the caller; nil if any
 read:
 	for {
+		// hooks are allowed to drop the previous message or switch the decoder
+		*ptr = want
+		dec := r.Decoder()
 		line, err := r.ReadLine()
 		if err != nil {
 			return err
-- 
2.43.0


From 8236dab86982780106a009054f9c4c4c5bdf32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 18/28] fix: enforce the line length limit for buffered lines

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index db9999f..ccfe7f3 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -203,6 +203,9 @@ read:
 			r.zlibOn = false
 			continue
 		}
+		if r.maxLine > 0 && len(r.line)+len(pref) > r.maxLine {
+			return nil, errBufferExhausted
+		}
 		r.line = append(r.line, pref...)
 		if err != nil {
 			return r.line, err
-- 
2.43.0


From 74f23e978932e91bb6eb7489d63eb82d3ccfb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 19/28] fix: do not let short reads change the tree hash

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index baa3d58..3bfc211 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads from r until p is full or an error occurs.
+func readBlock(r io.Reader, p []byte) (n int, err error) {
+	for n < len(p) && err == nil {
+		var m int
+		m, err = r.Read(p[n:])
+		n += m
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -65,7 +75,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From ef37928c24d8b283948815b5a65daac31f072f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 20/28] fix: do not accept the line delimiter as a part of ADC
 packet header

---
 adc/packets.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e42417a..f52e9ab 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -315,11 +315,11 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > 4 && data[4] != ' ' && data[4] != lineDelim {
+	} else if data[4] != ' ' && data[4] != lineDelim {
 		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
 	}
 	data = data[:len(data)-1]
@@ -410,13 +410,13 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	} else if data[4] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:9]))
-	} else if len(data) > 9 && data[9] != ' ' && data[9] != lineDelim {
+	} else if data[9] != ' ' && data[9] != lineDelim {
 		return fmt.Errorf("separator expected: '%s'", string(data[:10]))
 	}
 	data = data[:len(data)-1]
@@ -506,13 +506,13 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
 	} else if data[4] != ' ' {
 		return fmt.Errorf("separator expected: '%s'", string(data[:9]))
-	} else if len(data) > 9 && data[9] != ' ' && data[9] != lineDelim {
+	} else if data[9] != ' ' && data[9] != lineDelim {
 		return fmt.Errorf("separator expected: '%s'", string(data[:10]))
 	}
 	data = data[:len(data)-1]
@@ -675,11 +675,11 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > 4 && data[4] != ' ' && data[4] != lineDelim {
+	} else if data[4] != ' ' && data[4] != lineDelim {
 		return fmt.Errorf("separator expected: '%s'", string(data[:5]))
 	}
 	data = data[:len(data)-1]
@@ -781,11 +781,11 @@ func (p *UDPPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 
 func (p *UDPPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	const l = 39 // len of CID in base32
-	if len(data) < l {
+	if len(data) < l+1 {
 		return errors.New("short upd command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-	} else if len(data) > l && data[l] != ' ' && data[l] != lineDelim {
+	} else if data[l] != ' ' && data[l] != lineDelim {
 		return fmt.Errorf("separator expected: '%s'", string(data[:l+1]))
 	}
 	data = data[:len(data)-1]
-- 
2.43.0


From 318a0c93cda676887502435fba55ee74d142b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 21/28] fix: do not reference the read buffer in NMDC errors

---
 nmdc/reader.go | 15 ++++++++++-----
 nmdc/types.go  |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index feea4de..0e4016d 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -42,6 +42,11 @@ func (e *errUnknownEncoding) Error() string {
 	return fmt.Sprintf("nmdc: unknown text encoding: %q", string(e.text))
 }
 
+// cloneBytes copies a byte slice that points to the read buffer.
+func cloneBytes(p []byte) []byte {
+	return append([]byte(nil), p...)
+}
+
 func NewReader(r io.Reader) *Reader {
 	return &Reader{
 		Reader:     lineproto.NewReader(r, Delimiter),
@@ -223,7 +228,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: cloneBytes(args),
 						},
 					}
 				}
@@ -236,14 +241,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: cloneBytes(args),
 					},
 				}
 			}
@@ -273,7 +278,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: cloneBytes(args),
 						},
 					}
 				}
@@ -286,7 +291,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: cloneBytes(args),
 					},
 				}
 			}
diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..5708970 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -112,7 +112,7 @@ func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: cloneBytes(data)}
 	}
 	*s = Name(data)
 	return nil
@@ -146,7 +146,7 @@ func (s *String) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: cloneBytes(data)}
 	}
 	*s = String(data)
 	return nil
-- 
2.43.0


From ed8f1d4fb96fbd215baf38681d3de2af6498f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 22/28] fix: remember the error of an unbuffered write

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index bec04a5..f0947fc 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -180,7 +180,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 5fed4297addb12a1d60b85ba0616534aebe3d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 23/28] fix: use the URL scheme instead of a prefix to detect
 ADC addresses

---
 conn.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..de113d2 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,19 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has one of the ADC URL schemes.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	if i < 0 {
+		return false
+	}
+	scheme := strings.ToLower(addr[:i])
+	return scheme == adc.SchemaADC || scheme == adc.SchemaADCS
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +28,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From 2692fd90806f459063288da7628db8f77564aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 24/28] fix: do not drop the messages following a message
 dropped by a hook

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..17c5746 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue write // drop
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From 2773ee8b8ae6aef4601e93c81a184d86f46bf1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 25/28] fix: set the write timeout for unbuffered writes and
 when finishing compression

---
 lineproto/writer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index f0947fc..63f2c3e 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -68,7 +68,14 @@ func (w *Writer) Close() error {
 	if w.bw == nil {
 		return nil // already closed
 	}
-	last := w.bw.Flush()
+	var last error
+	if w.Timeout != nil {
+		last = w.Timeout(true)
+		defer w.Timeout(false)
+	}
+	if err := w.bw.Flush(); err != nil {
+		last = err
+	}
 	if w.err == nil {
 		w.err = errWriterClosed
 	}
@@ -125,6 +132,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
@@ -180,6 +195,14 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
 	n, err := w.cur.Write(p)
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From 3e276a2376af9658c87479371b028a53bcc1c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 26/28] fix: do not read nothing from a binary reader with a
 huge size

---
 lineproto/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index ccfe7f3..a6a76bd 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -288,7 +289,11 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
-	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
+	n := int64(sz)
+	if n < 0 {
+		n = math.MaxInt64 // does not fit; practically unlimited
+	}
+	return &binaryReader{r: io.LimitReader(r, n)}, nil
 }
 
 type binaryReader struct {
-- 
2.43.0


From 6e8e11e8360825babc6dbbb8ba0bbddbc62a68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 27/28] fix: do not panic when encoding an empty list of
 extensions

The buffer was asked to grow by -1 bytes.
---
 nmdc/extensions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..3c96c4f 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -47,7 +47,9 @@ func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 	for _, ext := range m.Ext {
 		n += len(ext)
 	}
-	buf.Grow(n)
+	if n > 0 {
+		buf.Grow(n)
+	}
 	for i, ext := range m.Ext {
 		if i != 0 {
 			buf.WriteByte(' ')
-- 
2.43.0


From ebc44300ae01565cf03da17dc5f07d3deea7829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:29 +0000
Subject: [PATCH 28/28] fix: reject base32 identifiers with line breaks inside

---
 tiger/tiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index aa80aad..6df64d3 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -85,6 +85,10 @@ func (h *Hash) UnmarshalBase32(buf []byte) error {
 
 // FromBase32 parses hash from base32 encoding.
 func (h *Hash) FromBase32(s string) error {
+	// the decoder skips line breaks, so check the size first
+	if len(s) != Base32Size {
+		return fmt.Errorf("wrong base32 size: %d vs %d", len(s), Base32Size)
+	}
 	b, err := base32Enc.DecodeString(s)
 	if err != nil {
 		return err
-- 
2.43.0

