From 58687b9bd4ed6962dec3081f4f4680350e559926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 01/15] fix: avoid division by zero in Samples.GetMaxBitrate

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..2924287 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 1ad13a549464832b7e42d3dd17a304e7365f8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 02/15] fix: keep the last octet a reader returns together with
 io.EOF

---
 internal/bitio/read.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..0319881 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,9 +59,11 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
-			return false, err
-		} else if n != 1 {
+		// an io.Reader may return an error together with the last byte
+		if n, err := r.reader.Read(buf); n != 1 {
+			if err != nil {
+				return false, err
+			}
 			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
-- 
2.43.0


From 3ab09f29497bd4f8c4a363359c7d61f769d32a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 03/15] fix: reject boxes smaller than their header or beyond
 the addressable range

---
 box_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..8f86c7a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,7 +142,7 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize || bi.Size > math.MaxInt64-bi.Offset {
 		return nil, fmt.Errorf("invalid size")
 	}
 
-- 
2.43.0


From 9f00ccca02994f1674761209e59bffac772cee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 04/15] fix: decode extracted payloads in the context of their
 own box

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From d1a05a216b9b158380298b715c6f035ff1b110ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 05/15] fix: follow NAL unit lengths in 64 bits in
 FindIDRFrames

A length field near 2^32 wrapped the offset inside the sample, which
made the search jump backwards and never end.
---
 probe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probe.go b/probe.go
index 2924287..4eed339 100644
--- a/probe.go
+++ b/probe.go
@@ -570,7 +570,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -582,8 +582,8 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
@@ -600,7 +600,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
-				nalOffset += lengthSize + length
+				nalOffset += lengthSize + uint64(length)
 			}
 			dataOffset += uint64(sample.Size)
 		}
-- 
2.43.0


From 5494c282818259861c27dfd29ecd0480186814a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 06/15] fix: report errors of list elements and variable-length
 integers from Marshal

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From 0147e913c04e54721e9eb68946ea56743f295f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 07/15] fix: do not lose or repeat an octet in util.ReadString
 when Read returns n=0 or n=1 with io.EOF

---
 internal/util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From 4bbf56d10b77640ae38d442f1393af5c466cb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 08/15] fix: read length-prefixed handler names of 255 octets

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..6c84ba8 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -649,9 +649,9 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 	}
 
 	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen)+1 {
 		// Pascal-style String
-		hdlr.Name = string(buf[1 : plen+1])
+		hdlr.Name = string(buf[1:])
 	} else {
 		// C-style String
 		clen := 0
-- 
2.43.0


From 8f095944cde28cc502e817d0387a1aeda3f920a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:38 +0000
Subject: [PATCH 09/15] fix: reject list and string sizes when the stream
 stands beyond its end

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..e529645 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
-- 
2.43.0


From fc675d9a470e5601ab4d64980aa914273ec10592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:31 +0000
Subject: [PATCH 10/15] fix: sgpd roll distances are counted and sized by their
 own layout

RollDistancesL carried size=16 although each entry takes 48 bits, so that
version 1 boxes without a default length could not be decoded, and neither
list honoured EntryCount.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 6c84ba8..259bb64 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1553,8 +1553,8 @@ type Sgpd struct {
 	DefaultLength                 uint32                     `mp4:"2,size=32,ver=1"`
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
-	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistances                 []int16                    `mp4:"5,size=16,len=dynamic,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From f903cd39a34c78d0c5c5d6d1c64d9a5388e0c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 11/15] fix: sgpd entry extents of 2^29 octets and more do not
 wrap around

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 259bb64..3762d7f 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1610,7 +1610,7 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength * 8)
+		return uint(sgpd.DefaultLength) * 8
 	}
 	return 0
 }
@@ -1675,7 +1675,7 @@ func (entry *AlternativeStartupEntry) GetFieldLength(name string, ctx Context) u
 func (entry *AlternativeStartupEntryL) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntry":
-		return uint(entry.DescriptionLength * 8)
+		return uint(entry.DescriptionLength) * 8
 	}
 	return 0
 }
-- 
2.43.0


From 41cc664321b6e6c19292bbdb6a65275f9b006f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:11 +0000
Subject: [PATCH 12/15] fix: numbered items and dOps print their own version

---
 string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 4bc368e..20874a7 100644
--- a/string.go
+++ b/string.go
@@ -110,8 +110,8 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
+		if f.name == "Version" && v.FieldByName(f.name).Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.FormatUint(v.FieldByName(f.name).Uint(), 10))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-- 
2.43.0


From 7df772f5b1a2af96bc6510b02cc705c9924fe86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 13/15] fix: language codes are printed with unprintable
 characters replaced

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 20874a7..0161b1d 100644
--- a/string.go
+++ b/string.go
@@ -225,7 +225,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 
 func (m *stringifier) stringifyUint(v reflect.Value, fi *fieldInstance, depth int) error {
 	if fi.is(fieldISO639_2) {
-		m.buf.WriteString(string([]byte{byte(v.Uint() + 0x60)}))
+		m.buf.WriteString(util.EscapeUnprintables(string([]byte{byte(v.Uint() + 0x60)})))
 	} else if fi.is(fieldUUID) {
 		fmt.Fprintf(m.buf, "%02x", v.Uint())
 	} else if fi.is(fieldString) {
-- 
2.43.0


From 1f76128e9e9a009756fe98fe0e67ad350b7e2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:17 +0000
Subject: [PATCH 14/15] fix: the smallest signed integer prints as one
 hexadecimal number

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 0161b1d..25d42a0 100644
--- a/string.go
+++ b/string.go
@@ -215,7 +215,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 			m.buf.WriteString(strconv.FormatInt(val, 16))
 		} else {
 			m.buf.WriteString("-0x")
-			m.buf.WriteString(strconv.FormatInt(-val, 16))
+			m.buf.WriteString(strconv.FormatUint(-uint64(val), 16))
 		}
 	} else {
 		m.buf.WriteString(strconv.FormatInt(v.Int(), 10))
-- 
2.43.0


From 88aea73d13e940aaf53cbde8f83672cc98d19ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 15/15] fix: decoding an unlimited list of empty elements ends
 with an error

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index e529645..97208c7 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -462,9 +462,13 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 				break
 			}
 			slice = reflect.Append(slice, reflect.Zero(elemType))
+			rbits := u.rbits
 			if err := u.unmarshal(slice.Index(i), fi); err != nil {
 				return err
 			}
+			if fi.length == LengthUnlimited && u.rbits == rbits {
+				return fmt.Errorf("array of empty elements has no end: fieldName=\"%s\"", fi.name)
+			}
 			if u.rbits > u.size*8 {
 				return fmt.Errorf("failed to read array completely: fieldName=\"%s\"", fi.name)
 			}
-- 
2.43.0

