From 11be65f1151f4e1e833dd026b0751039baa853ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 01/48] fix: libamf: consume the object end marker and treat
 the ECMA array count as a hint

---
 libamf/amf0.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..fb4116f 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -201,6 +201,16 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 		return p, err
 	}
 	if p.key == "" {
+		//an empty key introduces the object end marker: consume it, so
+		//that it is not taken for a value of the enclosing element.
+		var b []byte
+		b, err = r.ReadN(1)
+		if err != nil {
+			return p, err
+		}
+		if Marker(b[0]) != ObjectEndMarker {
+			return p, errors.New("invalid amf0 object end")
+		}
 		return p, nil
 	}
 
@@ -224,9 +234,8 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	}
 
 	res = make(map[string]interface{})
-	var i uint32
 	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
+	for { //length is only a hint, the array ends with 00 00 09
 		p, err = readPairamf0(r)
 		if err != nil {
 			return res, err
-- 
2.43.0


From bc5651bb77154a142116f4c7770a2e04f2857598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 02/48] fix: libamf: encode slices and arrays as AMF0 strict
 arrays instead of nothing

---
 libamf/amf0.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index fb4116f..55c4061 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -350,16 +350,7 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 	case reflect.Uintptr: //XXX not support yet
 		return errors.New("invalid type")
 	case reflect.Slice, reflect.Array: //StrictArrayMarker, EcmaArrayMarker is not supported
-		// length := v.Len()
-		// binary.Write(w, binary.BigEndian, StrictArrayMarker)
-		// binary.Write(w, binary.BigEndian, uint32(length))
-		// for i := 0; i < length; i++ {
-		// err = encodeamf0(w, v.Index(i))
-		// if err != nil {
-		// return err
-		// }
-		// }
-		// binary.Write(w, binary.BigEndian, ObjectEndMarker)
+		err = encodeStrictArrayamf0(w, v, encodeMarker)
 	default:
 		//TODO
 	}
@@ -427,3 +418,21 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 	err3 = binary.Write(w, binary.BigEndian, ObjectEndMarker)
 	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3)
 }
+
+func encodeStrictArrayamf0(w easyio.EasyWriter, array reflect.Value, encodeMarker bool) (err error) {
+	var err1, err2 error
+	if encodeMarker {
+		err1 = binary.Write(w, binary.BigEndian, StrictArrayMarker)
+	}
+	err2 = binary.Write(w, binary.BigEndian, uint32(array.Len()))
+	if err = easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
+		return err
+	}
+	for i := 0; i < array.Len(); i++ {
+		err = encodeamf0(w, array.Index(i).Interface(), true)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 4b1d4431c5aed4af8b36cedb1aa86d2bdd0ac8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 03/48] fix: libavc: take exactly the parameter sets of the
 latest AVC configuration record

---
 libavc/avc.go | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..38e9d39 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -78,30 +78,51 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 
 	//get sps
 	seq.spsNum = src[5] & 0x1f
-	seq.spsLen = int(src[6])<<8 | int(src[7])
-
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
+	tmpBuf := src[6:]
+	if seq.spsNum == 0 {
 		return spsDataError
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
+	for i := 0; i < int(seq.spsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return spsDataError
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		tmpBuf = tmpBuf[2:]
+		if len(tmpBuf) < seq.spsLen || seq.spsLen <= 0 {
+			return spsDataError
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[:seq.spsLen]...)
+		tmpBuf = tmpBuf[seq.spsLen:]
+	}
 
 	//get pps
-	tmpBuf := src[(8 + seq.spsLen):]
 	if len(tmpBuf) < 4 {
 		return ppsHeaderError
 	}
 	seq.ppsNum = tmpBuf[0]
-	seq.ppsLen = int(0)<<16 | int(tmpBuf[1])<<8 | int(tmpBuf[2])
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return ppsDataError
+	tmpBuf = tmpBuf[1:]
+	if seq.ppsNum == 0 {
+		return ppsHeaderError
 	}
+	for i := 0; i < int(seq.ppsNum); i++ {
+		if len(tmpBuf) < 2 {
+			return ppsDataError
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		tmpBuf = tmpBuf[2:]
+		if len(tmpBuf) < seq.ppsLen || seq.ppsLen <= 0 {
+			return ppsDataError
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[:seq.ppsLen]...)
+		tmpBuf = tmpBuf[seq.ppsLen:]
+	}
+	//what follows (chroma format, bit depths, SPS extensions of the High
+	//profiles) is not a parameter set.
 
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
-
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
+	//the parameter sets replace those of an earlier sequence header.
+	parser.SpecificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From c46ae795a742e344552fdde1a2f7143e851da955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 04/48] fix: libaac: write the high bit of the channel
 configuration into the ADTS header

---
 libaac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..fa3b5e4 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,7 +31,7 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
 		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From 24c60ed87072bf4585b7d209859b5799b81f0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 05/48] fix: libflv, libhls: treat the composition time offset
 as signed

---
 libflv/video.go | 5 +++--
 libhls/hls.go   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/libflv/video.go b/libflv/video.go
index 57888c4..a3ba476 100644
--- a/libflv/video.go
+++ b/libflv/video.go
@@ -36,7 +36,7 @@ type VideoTag struct {
 	CodecID       uint8 //4bits
 	VideoData     []byte
 	AVCPacketType uint8
-	Cts           uint32 //CompositionTime, int24
+	Cts           uint32 //CompositionTime, sign-extended int24
 }
 
 func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
@@ -57,7 +57,8 @@ func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
 			return nil, errors.New("invalid video format")
 		}
 		video.AVCPacketType = b[1]
-		video.Cts = uint32(0x00)<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
+		//SI24: sign-extend, so that int32(Cts) is the composition offset.
+		video.Cts = uint32(int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8)
 		video.VideoData = b[5:]
 	}
 
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..c059db0 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -472,7 +472,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -501,7 +501,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
-- 
2.43.0


From b1cb94bce40c0f0e091e9f1b78ff2fea73b807f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 06/48] fix: libflv, libamf: keep every metadata property,
 whatever its type, and encode dates

---
 libamf/amf0.go | 13 +++++++++++++
 libflv/meta.go | 21 +++++++++++++++------
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 55c4061..fa20ba6 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -323,6 +323,9 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 	case reflect.String:
 		err = encodeStringamf0(w, v.String(), encodeMarker)
 	case reflect.Struct: //TODO: has some problem
+		if date, ok := obj.(time.Time); ok {
+			return encodeDateamf0(w, date, encodeMarker)
+		}
 	//TODO: XMLDocumentMarker
 	//TODO: DateMarker
 	//TypedObjectMarker
@@ -436,3 +439,13 @@ func encodeStrictArrayamf0(w easyio.EasyWriter, array reflect.Value, encodeMarke
 	}
 	return nil
 }
+
+func encodeDateamf0(w easyio.EasyWriter, date time.Time, encodeMarker bool) (err error) {
+	var err1, err2, err3 error
+	if encodeMarker {
+		err1 = binary.Write(w, binary.BigEndian, DateMarker)
+	}
+	err2 = binary.Write(w, binary.BigEndian, float64(date.UnixNano()/1e6))
+	err3 = binary.Write(w, binary.BigEndian, int16(0)) //time zone, reserved
+	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3)
+}
diff --git a/libflv/meta.go b/libflv/meta.go
index f8c299f..ab7876e 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -17,6 +17,9 @@ type MetaTag struct {
 	TagBase         `structs:"-"`
 	FirstField      string  `structs:"-"`
 	SecondField     string  `structs:"-"`
+	//Properties is the metadata as it was received. It is what Marshal
+	//writes: the typed fields below cover only some of the properties.
+	Properties      map[string]interface{} `mapstructure:"-" structs:"-"`
 	AudioChannels   string  `mapstructure:"audiochannels" structs:"audiochannels"`
 	AudioCodecID    float64 `mapstructure:"audiocodecid" structs:"audiocodecid"`
 	AudioDataRate   int     `mapstructure:"audiodatarate" structs:"audiodatarate"`
@@ -73,13 +76,15 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		return meta, errors.New("invalid onMetaData payload")
 	}
 
-	if props != nil {
-		if err = mapstructure.Decode(props, meta); err != nil {
-			fmt.Printf("decode data error, err:%+v\n", err)
-			err = errors.Wrap(err, "mapstructure.Decode data")
+	if m, ok := props.(map[string]interface{}); ok {
+		//the typed fields are a convenience: a property of another type
+		//than expected is not a reason to reject the metadata.
+		if decodeErr := mapstructure.Decode(m, meta); decodeErr != nil {
+			fmt.Printf("decode data error, err:%+v\n", decodeErr)
 		}
+		meta.Properties = m
 	}
-	return meta, err
+	return meta, nil
 }
 
 // Marshal serialises the metadata tag body in the form FLV players
@@ -99,7 +104,11 @@ func (mt *MetaTag) Marshal() (b []byte) {
 
 	var err1, err2 error
 	err1 = amf.Encode(writer, name)
-	err2 = amf.Encode(writer, structs.Map(mt))
+	if mt.Properties != nil {
+		err2 = amf.Encode(writer, mt.Properties)
+	} else {
+		err2 = amf.Encode(writer, structs.Map(mt))
+	}
 	if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
 		fmt.Println("HandleMultiError error:", err)
 		return nil
-- 
2.43.0


From 77eedc7b2c43d3fbc64e04c2b5b25fe61a8b081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 07/48] fix: libmpeg: size the adaptation field so that every
 TS packet is exactly 188 bytes

---
 libmpeg/ts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..11cc425 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -126,8 +126,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
-	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+	if af.AdaptationFieldLength == 0 { //a single stuffing byte: the length field alone
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -270,7 +270,8 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			//everything between the 4 bytes header and the payload, but the length field itself
+			ts.AdaptationField.AdaptationFieldLength = uint8(188 - 4 - 1 - remain)
 		}
 	}
 
-- 
2.43.0


From fc58bd21d1f693f31bd1f3bf0111b8fe8d57881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 08/48] fix: libmpeg: write the whole table version and parse
 PAT/PMT lengths and stream types

---
 libmpeg/psi.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..89cbcdb 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -64,6 +64,9 @@ func (pat *PAT) Parse(reader easyio.EasyReader) (err error) {
 	if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd {
 		return fmt.Errorf("invalid SectionLength of PAT, SectionLength:%d", pat.SectionLength)
 	}
+	if pat.SectionLength < 5+4 {
+		return fmt.Errorf("SectionLength of PAT is too small, SectionLength:%d", pat.SectionLength)
+	}
 
 	b2 := make([]byte, pat.SectionLength-5-4) //4:CRC_32
 	err = reader.ReadFull(b2)
@@ -102,7 +105,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
@@ -166,14 +169,14 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 
 	pmt.TableID = b1[0]
 	pmt.SectionSyntaxIndicator = (b1[1] & 0x80) >> 7
-	pmt.SectionLength = uint16((b1[1]&0x0f)<<8) + uint16(b1[2])
+	pmt.SectionLength = uint16(b1[1]&0x0f)<<8 + uint16(b1[2])
 	pmt.ProgramNumber = uint16(b1[3])<<8 + uint16(b1[4])
 	pmt.VersionNumber = (b1[5] & 0x3e) >> 1
 	pmt.CurrentNextIndicator = b1[5] & 0x01
 	pmt.SectionNumber = b1[6]
 	pmt.LastSectionNumber = b1[7]
 	pmt.PCR_PID = uint16(b1[8]&0x1f)<<8 + uint16(b1[9])
-	pmt.ProgramInfoLength = uint16((b1[10]&0x0f)<<8 + b1[11])
+	pmt.ProgramInfoLength = uint16(b1[10]&0x0f)<<8 + uint16(b1[11])
 
 	if pmt.TableID != 0x02 {
 		return fmt.Errorf("invalid TableID of PMT, TableID:%d", pmt.TableID)
@@ -193,6 +196,9 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	if (pmt.ProgramInfoLength>>10)&0x03 != 0x00 {
 		return fmt.Errorf("invalid ProgramInfoLength of PMT, ProgramInfoLength:%d", pmt.ProgramInfoLength)
 	}
+	if pmt.SectionLength < 9+pmt.ProgramInfoLength+4 {
+		return fmt.Errorf("SectionLength of PMT is too small, SectionLength:%d, ProgramInfoLength:%d", pmt.SectionLength, pmt.ProgramInfoLength)
+	}
 
 	b2 := make([]byte, pmt.ProgramInfoLength)
 	err = reader.ReadFull(b2)
@@ -207,14 +213,16 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	}
 	for i := 0; i+5 <= len(b3); i += 5 {
 		streamPID := uint16(b3[i+1]&0x1f)<<8 + uint16(b3[i+2])
+		esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
+		if (esInfoLength>>10)&0x03 != 0x00 {
+			return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
+		}
 		if _, ok := pmt.Streams[streamPID]; !ok {
-			esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
-			if (esInfoLength>>10)&0x03 != 0x00 {
-				return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
-			}
-			i += int(esInfoLength)
-			pmt.Streams[streamPID] = NewPES()
+			pes := NewPES()
+			pes.StreamType = b3[i]
+			pmt.Streams[streamPID] = pes
 		}
+		i += int(esInfoLength)
 	}
 
 	pmt.CRC32 = CRC32(append(append(b1, b2...), b3...))
-- 
2.43.0


From 9297431d51c91df36b71266a48a20d52a394609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 09/48] fix: librtsp: do not emit access units damaged by lost
 RTP packets

---
 librtsp/rtp_unpack.go | 112 ++++++++++++++++++++++++++++++++----------
 1 file changed, 86 insertions(+), 26 deletions(-)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..e72c723 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -67,61 +67,128 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 }
 
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
-// packets. Single-NAL packets emit immediately; FU-A fragmented NALs
-// are buffered until the End-of-fragment bit fires; STAP-A aggregation
-// packets are split into their constituent NALs. The M-bit on the RTP
-// packet signals end-of-access-unit so callers can flush a complete
-// AU into AVCC for forwarding.
+// packets. Single-NAL packets are appended as they are; FU-A fragmented
+// NALs are buffered until the End-of-fragment bit fires; STAP-A
+// aggregation packets are split into their constituent NALs. The M-bit
+// on the RTP packet signals end-of-access-unit so callers can flush a
+// complete AU into AVCC for forwarding.
+//
+// An access unit that may miss something (a gap in the sequence numbers,
+// a fragment without its start or end) is dropped as a whole; output
+// resumes with the next access unit.
 type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+
+	started bool   //lastSeq is valid
+	lastSeq uint16 //sequence number of the last packet pushed
+	damaged bool   //the access unit in progress is incomplete
 }
 
+// maxMisorder is how far behind the last packet a sequence number may be
+// to count as a late or duplicated packet rather than a new sequence.
+const maxMisorder = 100
+
 // Push feeds one parsed RTP packet into the reassembler. Returns the
 // list of NAL units that completed an access unit (the M-bit was set
-// on this packet) plus the access-unit timestamp; otherwise returns
-// nil to indicate "still buffering".
+// on this packet, or this packet belongs to the next access unit) plus
+// the access-unit timestamp; otherwise returns nil to indicate "still
+// buffering".
 func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
-	if len(pkt.Payload) == 0 {
-		return nil, 0
+	if r.started {
+		d := int16(pkt.SequenceNum - r.lastSeq)
+		if d <= 0 && d > -maxMisorder {
+			return nil, 0 //duplicate, or too late to be of use
+		}
+		if d != 1 {
+			//What is pending misses its end, and there is no telling
+			//whether this packet is the first one of its access unit.
+			r.drop()
+			r.damaged = true
+		} else if pkt.Timestamp != r.pendingTS {
+			//A new access unit although the last one had no M-bit.
+			if !r.damaged && r.fuBuf == nil && len(r.pending) > 0 {
+				nals, ts = r.pending, r.pendingTS
+			}
+			r.drop()
+			r.damaged = false
+		}
 	}
+	r.started = true
+	r.lastSeq = pkt.SequenceNum
 	r.pendingTS = pkt.Timestamp
-	hdr := pkt.Payload[0]
+
+	if !r.damaged && !r.append(pkt.Payload) {
+		r.drop()
+		r.damaged = true
+	}
+
+	if pkt.Marker && nals == nil {
+		if !r.damaged && r.fuBuf == nil && len(r.pending) > 0 {
+			nals, ts = r.pending, r.pendingTS
+		}
+		r.drop()
+		r.damaged = false
+	}
+	return nals, ts
+}
+
+// drop forgets everything buffered.
+func (r *H264Reassembler) drop() {
+	r.fuBuf = nil
+	r.pending = nil
+}
+
+// append adds one RTP payload to the access unit in progress. It returns
+// false if the payload does not continue it properly.
+func (r *H264Reassembler) append(payload []byte) bool {
+	if len(payload) == 0 {
+		return true
+	}
+	hdr := payload[0]
 	nalType := hdr & 0x1F
+	if nalType != 28 && r.fuBuf != nil {
+		return false //the fragmented NAL never ended
+	}
 
 	switch {
 	case nalType >= 1 && nalType <= 23:
 		//Single NAL unit packet — payload is the NAL itself.
-		r.pending = append(r.pending, append([]byte(nil), pkt.Payload...))
+		r.pending = append(r.pending, append([]byte(nil), payload...))
 	case nalType == 24:
 		//STAP-A: 1-byte header then a series of [size:2][NAL].
-		body := pkt.Payload[1:]
+		body := payload[1:]
 		for len(body) >= 2 {
 			n := int(binary.BigEndian.Uint16(body[:2]))
 			body = body[2:]
 			if n > len(body) {
-				break
+				return false
+			}
+			if n > 0 {
+				r.pending = append(r.pending, append([]byte(nil), body[:n]...))
 			}
-			r.pending = append(r.pending, append([]byte(nil), body[:n]...))
 			body = body[n:]
 		}
 	case nalType == 28:
 		//FU-A: payload[0] is the FU indicator (NRI bits + type=28),
 		//payload[1] is the FU header (S/E/R + original NAL type).
-		if len(pkt.Payload) < 2 {
-			return nil, 0
+		if len(payload) < 2 {
+			return false
 		}
-		fuHeader := pkt.Payload[1]
+		fuHeader := payload[1]
 		start := fuHeader&0x80 != 0
 		end := fuHeader&0x40 != 0
 		origType := fuHeader & 0x1F
+		if start == (r.fuBuf != nil) {
+			return false //a fragment without its start, or a second start
+		}
 		if start {
 			//Reconstruct the original NAL header from the FU
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
 		}
-		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
+		r.fuBuf = append(r.fuBuf, payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
 			r.fuBuf = nil
@@ -129,14 +196,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	default:
 		//FU-B / MTAP / etc — not implemented. Skip.
 	}
-
-	if pkt.Marker && len(r.pending) > 0 {
-		nals = r.pending
-		ts = r.pendingTS
-		r.pending = nil
-		return
-	}
-	return nil, 0
+	return true
 }
 
 // AACAUExtract decodes a single MPEG4-GENERIC RTP payload (AAC-hbr)
-- 
2.43.0


From 89bf26eaffd110ecf9dfadb00270920fb59e0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 10/48] fix: librtsp: reject a negative or huge Content-Length

---
 librtsp/message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..7895499 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -24,6 +24,10 @@ import (
 // and emit on outbound responses.
 const rtspVersion = "RTSP/1.0"
 
+// maxBodySize bounds the body a peer may announce. The bodies we expect
+// are SDP descriptions and parameter lists of a few KiB at most.
+const maxBodySize = 1 << 20
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -76,6 +80,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBodySize {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
-- 
2.43.0


From 0ce0565417743f4349c57a00065bc5a850040dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 11/48] fix: librtsp: keep the codec, control and parameters of
 each SDP media section apart

---
 librtsp/sdp_parse.go | 114 +++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 52 deletions(-)

diff --git a/librtsp/sdp_parse.go b/librtsp/sdp_parse.go
index ecf258e..78cc949 100644
--- a/librtsp/sdp_parse.go
+++ b/librtsp/sdp_parse.go
@@ -26,11 +26,22 @@ type ParsedSDP struct {
 	AudioChans      int
 }
 
+// sdpMedia is one media section (m= line and its attributes).
+type sdpMedia struct {
+	kind        string //"video" / "audio" / ...
+	payloadType uint8
+	control     string
+	encoding    string //encoding name of the rtpmap, e.g. "H264"
+	rate        int
+	chans       int
+	params      map[string]string //fmtp
+}
+
 // ParseSDP extracts the fields we need from an SDP body. Returns nil
 // (and a non-nil error) if neither track is recognisable.
 func ParseSDP(body []byte) (*ParsedSDP, error) {
-	out := &ParsedSDP{}
-	var current string //"video" / "audio" / ""
+	var medias []*sdpMedia
+	var current *sdpMedia //nil on session level
 	for _, raw := range strings.Split(string(body), "\n") {
 		line := strings.TrimRight(raw, "\r")
 		if len(line) < 2 || line[1] != '=' {
@@ -39,26 +50,44 @@ func ParseSDP(body []byte) (*ParsedSDP, error) {
 		key, value := line[0], line[2:]
 		switch key {
 		case 'm':
-			//m=video 0 RTP/AVP 96  → current="video", payload=96
+			//m=video 0 RTP/AVP 96  → kind="video", payload=96
+			current = &sdpMedia{}
 			fields := strings.Fields(value)
 			if len(fields) < 4 {
 				continue
 			}
 			pt, _ := strconv.Atoi(fields[3])
-			switch fields[0] {
-			case "video":
-				current = "video"
-				out.HasVideo = true
-				out.VideoPayloadType = uint8(pt)
-			case "audio":
-				current = "audio"
-				out.HasAudio = true
-				out.AudioPayloadType = uint8(pt)
-			default:
-				current = ""
-			}
+			current.kind = fields[0]
+			current.payloadType = uint8(pt)
+			medias = append(medias, current)
 		case 'a':
-			parseAttribute(out, current, value)
+			if current != nil {
+				parseAttribute(current, value)
+			}
+		}
+	}
+
+	//Take the first track of each kind whose codec we support. A track
+	//without an rtpmap gets the benefit of the doubt.
+	out := &ParsedSDP{}
+	for _, m := range medias {
+		switch {
+		case m.kind == "video" && !out.HasVideo &&
+			(m.encoding == "" || strings.EqualFold(m.encoding, "H264")):
+			out.HasVideo = true
+			out.VideoControl = m.control
+			out.VideoPayloadType = m.payloadType
+			out.SPS, out.PPS = splitSpropParameterSets(m.params["sprop-parameter-sets"])
+		case m.kind == "audio" && !out.HasAudio &&
+			(m.encoding == "" || strings.EqualFold(m.encoding, "mpeg4-generic")):
+			out.HasAudio = true
+			out.AudioControl = m.control
+			out.AudioPayloadType = m.payloadType
+			if b, err := hex.DecodeString(m.params["config"]); err == nil && len(b) > 0 {
+				out.AudioConfig = b
+			}
+			out.AudioRate = m.rate
+			out.AudioChans = m.chans
 		}
 	}
 	if !out.HasVideo && !out.HasAudio {
@@ -67,63 +96,44 @@ func ParseSDP(body []byte) (*ParsedSDP, error) {
 	return out, nil
 }
 
-func parseAttribute(out *ParsedSDP, current, value string) {
+func parseAttribute(m *sdpMedia, value string) {
 	switch {
 	case strings.HasPrefix(value, "control:"):
-		v := strings.TrimPrefix(value, "control:")
-		switch current {
-		case "video":
-			out.VideoControl = v
-		case "audio":
-			out.AudioControl = v
-		}
+		m.control = strings.TrimSpace(strings.TrimPrefix(value, "control:"))
 	case strings.HasPrefix(value, "fmtp:"):
 		//fmtp:<pt> key=value;key=value
 		rest := strings.TrimPrefix(value, "fmtp:")
 		fields := strings.SplitN(rest, " ", 2)
-		if len(fields) < 2 {
+		if len(fields) < 2 || !m.hasPayloadType(fields[0]) {
 			return
 		}
-		params := parseFmtpParams(fields[1])
-		switch current {
-		case "video":
-			if pseq, ok := params["sprop-parameter-sets"]; ok {
-				sps, pps := splitSpropParameterSets(pseq)
-				if len(sps) > 0 {
-					out.SPS = sps
-				}
-				if len(pps) > 0 {
-					out.PPS = pps
-				}
-			}
-		case "audio":
-			if cfg, ok := params["config"]; ok {
-				if b, err := hex.DecodeString(cfg); err == nil {
-					out.AudioConfig = b
-				}
-			}
-		}
+		m.params = parseFmtpParams(fields[1])
 	case strings.HasPrefix(value, "rtpmap:"):
 		//rtpmap:97 mpeg4-generic/44100/2
 		rest := strings.TrimPrefix(value, "rtpmap:")
 		fields := strings.Fields(rest)
-		if len(fields) < 2 {
+		if len(fields) < 2 || !m.hasPayloadType(fields[0]) {
 			return
 		}
 		parts := strings.Split(fields[1], "/")
-		if current == "audio" && len(parts) >= 2 {
-			rate, _ := strconv.Atoi(parts[1])
-			out.AudioRate = rate
+		m.encoding = parts[0]
+		if len(parts) >= 2 {
+			m.rate, _ = strconv.Atoi(parts[1])
+			m.chans = 1
 			if len(parts) >= 3 {
-				ch, _ := strconv.Atoi(parts[2])
-				out.AudioChans = ch
-			} else {
-				out.AudioChans = 1
+				m.chans, _ = strconv.Atoi(parts[2])
 			}
 		}
 	}
 }
 
+// hasPayloadType reports whether an rtpmap or fmtp attribute is about
+// the payload type of the m= line.
+func (m *sdpMedia) hasPayloadType(s string) bool {
+	pt, err := strconv.Atoi(s)
+	return err == nil && pt == int(m.payloadType)
+}
+
 // parseFmtpParams splits "key1=val1;key2=val2" into a map. Keys are
 // lower-cased; values keep their original casing (config= is hex,
 // case-insensitive in practice).
-- 
2.43.0


From 083b35727f4718d889fc4f773ece887a14471e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 12/48] fix: libsrt: require the cookie, survive repeated
 handshake packets and wrapped sequence numbers

---
 libsrt/control.go  |  3 +++
 libsrt/listener.go | 39 +++++++++++++++++++++++----------------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/libsrt/control.go b/libsrt/control.go
index c14c12c..ae250cd 100644
--- a/libsrt/control.go
+++ b/libsrt/control.go
@@ -81,6 +81,9 @@ func ParseNAK(body []byte) []LossRange {
 	return out
 }
 
+// seqMask keeps the 31 bits of a sequence number.
+const seqMask = uint32(1)<<31 - 1
+
 // SeqDiff returns a − b under SRT's 31-bit modular sequence arithmetic.
 // Positive values mean a is "ahead of" b. Used by receiver bookkeeping
 // to detect new packets, retransmits, and loss.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..0aca726 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -148,10 +148,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
 	sess.receivedSeqs++
 
@@ -165,12 +161,12 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & seqMask
+		sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
@@ -231,10 +227,18 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		//Mint a cookie tied to the peer's socket id; the conclusion
 		//must echo it back. CRC32 is used as a cheap mixer; real SRT
 		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		//A repeated induction of the same caller keeps its cookie: the
+		//conclusion may already be on its way.
+		if sess.cookie == 0 || sess.peerSocketID != hs.SrtSocketID {
+			sess.peerSocketID = hs.SrtSocketID
+			sess.concluded = false
+			sess.cookie = crc32.ChecksumIEEE(
+				[]byte(fmt.Sprintf("%s-%d-%d",
+					peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+			if sess.cookie == 0 {
+				sess.cookie = 1 //0 means that no cookie was sent yet
+			}
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeAgreement
@@ -244,13 +248,16 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
 
 	case HSTypeConclusion:
-		if hs.SyncCookie != sess.cookie {
-			//Wrong cookie — quietly drop. Real SRT rejects.
+		if sess.cookie == 0 || hs.SyncCookie != sess.cookie {
+			//Wrong cookie, or no induction at all — quietly drop.
+			//Real SRT rejects.
 			return
 		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
-		sess.concluded = true
+		if !sess.concluded { //else our reply got lost; just repeat it
+			sess.peerSocketID = hs.SrtSocketID
+			sess.expectedSeq = hs.InitialSequence & seqMask
+			sess.concluded = true
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-- 
2.43.0


From 8873e2113ae0fc78fa2862b1dffd6ee73f307d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 13/48] fix: libsrt: drop access units damaged by lost TS
 packets, bound the PMT pointer

---
 libsrt/tsdemux.go | 50 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..689005d 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -53,6 +53,9 @@ type Demuxer struct {
 	videoDTS  uint64
 	audioBuf  []byte
 	audioTS   uint64
+	videoOpen bool //a PES started and nothing of it is missing so far
+	audioOpen bool
+	cc        map[uint16]byte //last continuity counter per PID
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
 }
@@ -88,6 +91,11 @@ func (d *Demuxer) Feed(buf []byte) {
 			continue //no payload
 		}
 		payload := pkt[off:]
+		if (pid == d.videoPID || pid == d.audioPID) && pid != 0 {
+			if dup := d.checkContinuity(pid, pkt[3]&0x0F); dup {
+				continue
+			}
+		}
 
 		switch pid {
 		case 0x0000:
@@ -102,6 +110,28 @@ func (d *Demuxer) Feed(buf []byte) {
 	}
 }
 
+// checkContinuity compares a packet's continuity counter with the last
+// one of its PID. A packet sent twice is reported as such; after a gap the
+// PES in progress is dropped, since part of it is missing.
+func (d *Demuxer) checkContinuity(pid uint16, cc byte) (dup bool) {
+	last, seen := d.cc[pid]
+	if seen && cc == last {
+		return true
+	}
+	if seen && cc != (last+1)&0x0F {
+		if pid == d.videoPID {
+			d.videoOpen = false
+		} else {
+			d.audioOpen = false
+		}
+	}
+	if d.cc == nil {
+		d.cc = map[uint16]byte{}
+	}
+	d.cc[pid] = cc
+	return false
+}
+
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
@@ -136,10 +166,10 @@ func (d *Demuxer) parsePMT(payload []byte) {
 		return
 	}
 	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
+	if 1+pointer+12 > len(payload) {
 		return
 	}
+	body := payload[1+pointer:]
 	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
 	if sectionLen > len(body) {
 		sectionLen = len(body)
@@ -164,10 +194,11 @@ func (d *Demuxer) parsePMT(payload []byte) {
 // Internally we treat one PES unit as one access unit (true for live
 // MPEG-TS produced by FFmpeg with -codec copy from H.264).
 func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
-	if pusi && len(d.videoBuf) > 0 {
+	if pusi && d.videoOpen && len(d.videoBuf) > 0 {
 		d.flushVideo()
 	}
 	if pusi {
+		d.videoOpen = false
 		pts, dts, body, ok := parsePESHeader(payload)
 		if !ok {
 			return
@@ -175,9 +206,12 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 		d.videoTS = pts
 		d.videoDTS = dts
 		d.videoBuf = append(d.videoBuf[:0], body...)
+		d.videoOpen = true
 		return
 	}
-	d.videoBuf = append(d.videoBuf, payload...)
+	if d.videoOpen {
+		d.videoBuf = append(d.videoBuf, payload...)
+	}
 }
 
 func (d *Demuxer) flushVideo() {
@@ -196,19 +230,23 @@ func (d *Demuxer) flushVideo() {
 }
 
 func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
-	if pusi && len(d.audioBuf) > 0 {
+	if pusi && d.audioOpen && len(d.audioBuf) > 0 {
 		d.flushAudio()
 	}
 	if pusi {
+		d.audioOpen = false
 		pts, _, body, ok := parsePESHeader(payload)
 		if !ok {
 			return
 		}
 		d.audioTS = pts
 		d.audioBuf = append(d.audioBuf[:0], body...)
+		d.audioOpen = true
 		return
 	}
-	d.audioBuf = append(d.audioBuf, payload...)
+	if d.audioOpen {
+		d.audioBuf = append(d.audioBuf, payload...)
+	}
 }
 
 func (d *Demuxer) flushAudio() {
-- 
2.43.0


From b45a86cf3dcea3b7790b845a0961fa70a38048a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 14/48] fix: libsrt, librtmp: split PES packets with several
 ADTS frames, honour the ADTS CRC

---
 librtmp/srt_server.go |  9 ++++++++-
 libsrt/tsdemux.go     | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..bd7c840 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -178,6 +178,13 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
 		return //not ADTS — punt
 	}
+	hdrLen := 7
+	if af.Data[1]&0x01 == 0 {
+		hdrLen = 9 //with CRC
+	}
+	if len(af.Data) <= hdrLen {
+		return
+	}
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
@@ -220,7 +227,7 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     af.Data[hdrLen:], //strip the ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
 	br.room.GOP.Write(at)
diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 689005d..3803d9c 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -254,13 +254,42 @@ func (d *Demuxer) flushAudio() {
 		d.audioBuf = d.audioBuf[:0]
 		return
 	}
-	d.OnAudio(AudioFrame{
-		PTS:  d.audioTS,
-		Data: append([]byte(nil), d.audioBuf...),
-	})
+	//Muxers usually pack several ADTS frames into one PES; its PTS is the
+	//one of the first frame.
+	frames, rate := splitADTS(d.audioBuf)
+	for i, f := range frames {
+		pts := d.audioTS
+		if rate > 0 {
+			pts += uint64(i) * 1024 * 90000 / rate
+		}
+		d.OnAudio(AudioFrame{
+			PTS:  pts & (1<<33 - 1),
+			Data: append([]byte(nil), f...),
+		})
+	}
 	d.audioBuf = d.audioBuf[:0]
 }
 
+// splitADTS splits a PES body into its ADTS frames and returns their
+// sampling rate. A body that isn't ADTS comes back as one frame.
+func splitADTS(b []byte) (frames [][]byte, rate uint64) {
+	rates := [16]uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000,
+		22050, 16000, 12000, 11025, 8000, 7350}
+	for len(b) >= 7 && b[0] == 0xFF && b[1]&0xF6 == 0xF0 {
+		n := int(b[3]&0x03)<<11 | int(b[4])<<3 | int(b[5])>>5
+		if n < 7 || n > len(b) {
+			break
+		}
+		rate = rates[b[2]>>2&0x0F]
+		frames = append(frames, b[:n])
+		b = b[n:]
+	}
+	if len(frames) == 0 {
+		frames = [][]byte{b}
+	}
+	return frames, rate
+}
+
 // parsePESHeader pulls the PTS (and DTS, when present) out of a PES
 // header and returns the residual elementary-stream body. The header
 // is 9 bytes fixed + variable-length PES header data.
-- 
2.43.0


From a3c9e10a591721f7f39137bd15c485162cc2d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 15/48] fix: librtmp: one publisher per name, viewers get every
 tag once and are released at the end

The broadcast dropped tags and blocked viewers until three headers had been
written, replaced keyframes non-atomically and replayed headers twice; two
connections could claim one name, a player's media went into the stream it
played, deleteStream kept the name, and viewers of a finished stream hung.
---
 libdash/dash.go            |   3 +-
 libflv/tag.go              |   6 ++
 libhls/hls.go              |   3 +-
 librtmp/app.go             |  71 ++++++++++++
 librtmp/audio.go           |  34 ++----
 librtmp/client.go          |  29 +----
 librtmp/command_message.go |  66 ++++--------
 librtmp/data_message.go    |  37 ++-----
 librtmp/gop.go             | 216 +++++++++++++++++++++++++++++++++++++
 librtmp/room.go            | 117 ++++++++------------
 librtmp/rtmp.go            | 123 ++++++++++++++++++---
 librtmp/rtsp_ingest.go     |  17 ++-
 librtmp/rtsp_server.go     |   3 +-
 librtmp/server.go          |  23 ++--
 librtmp/srt_server.go      |  19 ++--
 librtmp/video.go           |  64 ++++++-----
 16 files changed, 553 insertions(+), 278 deletions(-)
 create mode 100644 librtmp/gop.go

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..f7809e3 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -21,7 +21,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -164,7 +163,7 @@ func (d *DASH) stopRequested() bool {
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader libflv.TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
diff --git a/libflv/tag.go b/libflv/tag.go
index 27540aa..89d42af 100644
--- a/libflv/tag.go
+++ b/libflv/tag.go
@@ -10,6 +10,12 @@ type Tag interface {
 	Data() []byte
 }
 
+// TagReader is a stream of tags: Read returns the next Tag, waiting for
+// it if necessary; alive is false once the stream is over.
+type TagReader interface {
+	Read() (tag interface{}, alive bool)
+}
+
 type TagBase struct {
 	TagType   uint8
 	DataSize  uint32 //uint24
diff --git a/libhls/hls.go b/libhls/hls.go
index c059db0..b916b74 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -10,7 +10,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -287,7 +286,7 @@ func (hls *HLS) stopRequested() bool {
 }
 
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader libflv.TagReader) (err error) {
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..bacefb7 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -16,6 +16,8 @@ type App struct {
 	dashEnabled bool
 	dashDir     string
 	dash        *sync.Map //roomID, *libdash.DASH
+
+	mu sync.Mutex //makes Claim and Release atomic
 }
 
 func NewApp(appName string) *App {
@@ -42,6 +44,75 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Claim makes room the publisher of its name and starts the packagers
+// that run for every stream. It returns false, and changes nothing,
+// when the name is already taken.
+func (app *App) Claim(room *Room) bool {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != nil {
+		return false
+	}
+	app.Store(room.RoomID, room)
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(room)
+	}
+	if app.dashEnabled {
+		app.startDASH(room)
+	}
+	return true
+}
+
+// Release frees the name of room, unless another publisher has it.
+func (app *App) Release(room *Room) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) == room {
+		app.Delete(room.RoomID)
+	}
+}
+
+// HLSOf returns the HLS packager of room, starting it if necessary. It
+// returns nil once the stream is over.
+func (app *App) HLSOf(room *Room) *libhls.HLS {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
+	}
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		return hls
+	}
+	return app.startHLS(room)
+}
+
+// DASHOf is HLSOf for DASH.
+func (app *App) DASHOf(room *Room) *libdash.DASH {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
+	}
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		return dash
+	}
+	return app.startDASH(room)
+}
+
+func (app *App) startHLS(room *Room) *libhls.HLS {
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	app.StoreHLS(room.RoomID, hls)
+	go hls.Start(newGOPReader(room.GOP))
+	return hls
+}
+
+func (app *App) startDASH(room *Room) *libdash.DASH {
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	app.StoreDASH(room.RoomID, dash)
+	go dash.Start(newGOPReader(room.GOP))
+	return dash
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..6457832 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -1,9 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-	"time"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -46,25 +43,7 @@ func NewAudioMessage(mb MessageBase, fields ...interface{}) (am *AudioMessage) {
 }
 
 func (am *AudioMessage) Send() (err error) {
-	chunkSize := am.rtmp.ownMaxChunkSize
-	for i := 0; ; i++ {
-		lIndex := i * chunkSize
-		if lIndex >= len(am.messagePayload) {
-			break
-		}
-		rIndex := lIndex + chunkSize
-		if rIndex > len(am.messagePayload) {
-			rIndex = len(am.messagePayload)
-		}
-		fmtType := FMT0
-		if i != 0 {
-			fmtType = FMT3
-		}
-		if sendErr := NewChunk(AUDIO_MESSAGE, uint32(len(am.messagePayload)), am.messageTime, fmtType, csidAudio, am.messagePayload[lIndex:rIndex]).Send(am.rtmp); sendErr != nil {
-			return sendErr
-		}
-	}
-	return nil
+	return am.rtmp.sendMessage(AUDIO_MESSAGE, am.messageTime, csidAudio, am.messagePayload)
 }
 
 func (am *AudioMessage) Parse() (err error) {
@@ -81,16 +60,15 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
+	room := am.rtmp.publishing()
+	if room == nil {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
-		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
-		am.rtmp.room.GOP.WriteMeta(am.audioTag)
-		fmt.Printf("write packet audio :%+v\n", am.audioTag)
+		room.setAudioSequenceHeader(am.audioTag)
+		room.GOP.WriteMeta(am.audioTag)
 		return nil
 	}
-	fmt.Printf("[gop receive audio] message time(dts):%d, now:%+v\n", am.messageTime, time.Now())
-	am.rtmp.room.GOP.Write(am.audioTag)
+	room.GOP.Write(am.audioTag)
 	return nil
 }
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..b0cba77 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	rtmp.app = pc.spec.app
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.Claim(room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
-	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
@@ -154,26 +154,7 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 	if err != nil {
 		return err
 	}
-	chunkSize := rtmp.ownMaxChunkSize
-	for i := 0; ; i++ {
-		l := i * chunkSize
-		if l >= len(body) {
-			break
-		}
-		r := l + chunkSize
-		if r > len(body) {
-			r = len(body)
-		}
-		fmtType := FMT0
-		if i != 0 {
-			fmtType = FMT3
-		}
-		if err := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
-			fmtType, csidCommand, body[l:r]).Send(rtmp); err != nil {
-			return err
-		}
-	}
-	return nil
+	return rtmp.sendMessage(COMMAND_MESSAGE_AMF0, 0, csidCommand, body)
 }
 
 // expectResult pumps ParseMessage until rtmp.resultCount advances —
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..c1d7bf7 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,12 +7,9 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -211,6 +208,7 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case FCUNPUBLISH:
+		cm.rtmp.cleanup()
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -239,9 +237,12 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if cm.rtmp.publishing() != nil || !app.Claim(room) {
 			//Refuse a second publish to the same stream — replacing the
-			//publisher mid-stream would desync every viewer.
+			//publisher mid-stream would desync every viewer. Nor can one
+			//connection publish two streams: its media does not say
+			//which one it belongs to.
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -254,9 +255,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -270,24 +270,13 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
-
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -300,8 +289,10 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.role = rolePlayer
-		cm.rtmp.room.RTMPJoin(cm.rtmp)
+		if cm.rtmp.role == roleUnknown {
+			cm.rtmp.role = rolePlayer
+		}
+		cm.rtmp.stopPlay()
 
 		err1 = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -348,6 +339,9 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 		err = easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3, err4, err5)
+		if err == nil {
+			room.RTMPJoin(cm.rtmp)
+		}
 
 	case PAUSE:
 		code := "NetStream.Unpause.Notify"
@@ -393,10 +387,10 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case DELETE_STREAM, CLOSE_STREAM:
-		//Stream close emitted by OBS when the user stops streaming.
-		//We rely on cleanup() in HandlerServer for the actual teardown;
-		//here we just reply with a status update so the client can
-		//proceed to disconnect.
+		//Stream close emitted by OBS when the user stops streaming, or
+		//by a player that leaves the stream but not the server.
+		cm.rtmp.stopPlay()
+		cm.rtmp.cleanup()
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -479,23 +473,5 @@ func (cmr *CommandMessageResponse) Send() (err error) {
 	if err != nil {
 		return err
 	}
-	chunkSize := cmr.rtmp.ownMaxChunkSize
-	for i := 0; ; i++ {
-		lIndex := i * chunkSize
-		if lIndex >= len(b) {
-			break
-		}
-		rIndex := lIndex + chunkSize
-		if rIndex > len(b) {
-			rIndex = len(b)
-		}
-		fmtType := FMT0
-		if i != 0 {
-			fmtType = FMT3
-		}
-		if sendErr := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(b)), cmr.messageTime, fmtType, csidCommand, b[lIndex:rIndex]).Send(cmr.rtmp); sendErr != nil {
-			return sendErr
-		}
-	}
-	return nil
+	return cmr.rtmp.sendMessage(COMMAND_MESSAGE_AMF0, cmr.messageTime, csidCommand, b)
 }
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..94abcb7 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -1,8 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -28,25 +26,7 @@ func NewDataMessage(mb MessageBase, fields ...interface{}) (dm *DataMessage) {
 }
 
 func (dm *DataMessage) Send() (err error) {
-	chunkSize := dm.rtmp.ownMaxChunkSize
-	for i := 0; ; i++ {
-		lIndex := i * chunkSize
-		if lIndex >= len(dm.messagePayload) {
-			break
-		}
-		rIndex := lIndex + chunkSize
-		if rIndex > len(dm.messagePayload) {
-			rIndex = len(dm.messagePayload)
-		}
-		fmtType := FMT0
-		if i != 0 {
-			fmtType = FMT3
-		}
-		if sendErr := NewChunk(DATA_MESSAGE_AMF0, uint32(len(dm.messagePayload)), dm.messageTime, fmtType, csidData, dm.messagePayload[lIndex:rIndex]).Send(dm.rtmp); sendErr != nil {
-			return sendErr
-		}
-	}
-	return nil
+	return dm.rtmp.sendMessage(DATA_MESSAGE_AMF0, dm.messageTime, csidData, dm.messagePayload)
 }
 
 func (dm *DataMessage) Parse() (err error) {
@@ -64,12 +44,17 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
+	room := dm.rtmp.publishing()
+	if room == nil {
 		return nil
 	}
-	dm.rtmp.room.setMeta(dm.metaTag)
-	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
-	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-
+	if dm.metaTag.SecondField != "onMetaData" {
+		//an event (cue point, text data) rather than a description of
+		//the stream
+		room.GOP.Write(dm.metaTag)
+		return nil
+	}
+	room.setMeta(dm.metaTag)
+	room.GOP.WriteMeta(dm.metaTag)
 	return nil
 }
diff --git a/librtmp/gop.go b/librtmp/gop.go
new file mode 100644
index 0000000..693fd7b
--- /dev/null
+++ b/librtmp/gop.go
@@ -0,0 +1,216 @@
+package librtmp
+
+import (
+	"sync"
+
+	"github.com/sbraveyoung/GGmpeg/libflv"
+)
+
+const (
+	// maxGOPTags bounds the tags a stream keeps for its viewers: the
+	// current group of pictures plus the tail of the previous ones that
+	// slower viewers may still be reading.
+	maxGOPTags = 8192
+	// maxOldGOPTags bounds the part of it that precedes the current
+	// group of pictures.
+	maxOldGOPTags = 2048
+)
+
+// headerKind names the kinds of tags a decoder needs before the media.
+type headerKind int
+
+const (
+	headerMeta headerKind = iota
+	headerVideo
+	headerAudio
+	headerKinds
+)
+
+func headerKindOf(tag libflv.Tag) headerKind {
+	switch tag.(type) {
+	case *libflv.VideoTag:
+		return headerVideo
+	case *libflv.AudioTag:
+		return headerAudio
+	default:
+		return headerMeta
+	}
+}
+
+// gop fans the tags of one stream out to its viewers. Tags are kept in
+// one log in publishing order. A new viewer starts at the most recent
+// keyframe, preceded by the metadata and sequence headers that were in
+// force there, and then follows the log; a viewer that fell behind the
+// end of the log starts over the same way.
+type gop struct {
+	mu    sync.Mutex
+	cond  *sync.Cond
+	alive bool
+
+	log  []libflv.Tag
+	base uint64 //sequence number of log[0]
+
+	start        uint64                  //where new viewers start
+	startHeaders [headerKinds]libflv.Tag //headers in force at start
+	headers      [headerKinds]libflv.Tag //headers in force at the end of the log
+}
+
+func newGOP() *gop {
+	g := &gop{alive: true}
+	g.cond = sync.NewCond(&g.mu)
+	return g
+}
+
+// WriteMeta publishes metadata or a sequence header.
+func (g *gop) WriteMeta(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.alive {
+		return
+	}
+	g.headers[headerKindOf(tag)] = tag
+	g.append(tag, true)
+}
+
+// Write publishes an audio tag or a video tag that depends on earlier
+// ones.
+func (g *gop) Write(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.alive {
+		return
+	}
+	g.append(tag, false)
+}
+
+// WriteKeyFrame publishes a video keyframe; viewers that join from now
+// on start with it.
+func (g *gop) WriteKeyFrame(tag libflv.Tag) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	if !g.alive {
+		return
+	}
+	g.start = g.base + uint64(len(g.log))
+	g.startHeaders = g.headers
+	g.append(tag, false)
+}
+
+// append adds a tag to the log and trims it. Called with mu held.
+func (g *gop) append(tag libflv.Tag, header bool) {
+	g.log = append(g.log, gopEntry(tag, header))
+	drop := 0
+	if old := int(g.start - g.base); old > maxOldGOPTags {
+		drop = old - maxOldGOPTags
+	}
+	if over := len(g.log) - maxGOPTags; over > drop {
+		drop = over
+	}
+	for i := 0; i < drop; i++ {
+		if g.base == g.start {
+			//The group of pictures itself is too long: viewers have to
+			//start inside it.
+			if h, ok := g.log[0].(headerEntry); ok {
+				g.startHeaders[headerKindOf(h.Tag)] = h.Tag
+			}
+			g.start++
+		}
+		g.log[0] = nil
+		g.log = g.log[1:]
+		g.base++
+	}
+	g.cond.Broadcast()
+}
+
+// headerEntry marks the tags of the log that WriteMeta added.
+type headerEntry struct{ libflv.Tag }
+
+func gopEntry(tag libflv.Tag, header bool) libflv.Tag {
+	if header {
+		return headerEntry{tag}
+	}
+	return tag
+}
+
+// DisAlive ends the stream: its viewers read what was published and are
+// then told that it is over.
+func (g *gop) DisAlive() {
+	g.mu.Lock()
+	g.alive = false
+	g.cond.Broadcast()
+	g.mu.Unlock()
+}
+
+// gopReader is the position of one viewer in a stream.
+type gopReader struct {
+	g       *gop
+	joined  bool
+	pending []libflv.Tag //headers still to be delivered
+	next    uint64
+	closed  bool
+}
+
+func newGOPReader(g *gop) *gopReader {
+	return &gopReader{g: g}
+}
+
+// Read returns the next tag of the stream, waiting for it if necessary.
+// alive is false once the stream is over or the reader was closed.
+func (r *gopReader) Read() (tag interface{}, alive bool) {
+	g := r.g
+	g.mu.Lock()
+	defer g.mu.Unlock()
+	for {
+		if r.closed {
+			return nil, false
+		}
+		if !r.joined || (len(r.pending) == 0 && r.next < g.base) {
+			r.join()
+		}
+		if len(r.pending) > 0 {
+			tag, r.pending = r.pending[0], r.pending[1:]
+			return tag, true
+		}
+		if r.next < g.base {
+			continue
+		}
+		if i := r.next - g.base; i < uint64(len(g.log)) {
+			r.next++
+			if h, ok := g.log[i].(headerEntry); ok {
+				return h.Tag, true
+			}
+			return g.log[i], true
+		}
+		if !g.alive {
+			return nil, false
+		}
+		g.cond.Wait()
+	}
+}
+
+func (r *gopReader) join() {
+	r.joined = true
+	r.next = r.g.start
+	r.pending = nil
+	for _, h := range r.g.startHeaders {
+		if h != nil {
+			r.pending = append(r.pending, h)
+		}
+	}
+}
+
+// Closed reports whether Close was called.
+func (r *gopReader) Closed() bool {
+	r.g.mu.Lock()
+	defer r.g.mu.Unlock()
+	return r.closed
+}
+
+// Close makes Read return, now and from now on. It may be called while
+// another goroutine is in Read.
+func (r *gopReader) Close() {
+	r.g.mu.Lock()
+	r.closed = true
+	r.g.cond.Broadcast()
+	r.g.mu.Unlock()
+}
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..5a4b63c 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -3,9 +3,7 @@ package librtmp
 import (
 	"fmt"
 	"sync"
-	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
@@ -13,13 +11,11 @@ import (
 type Room struct {
 	RoomID    string
 	Publisher *RTMP
-	GOP       *broadcast.Broadcast
+	GOP       *gop
 
-	// Cached sequence headers. Populated by the publisher the first
-	// time it emits them and replayed to every new subscriber before
-	// GOP playback begins so mid-join viewers can initialise their
-	// decoders (an FLV viewer needs AVCDecoderConfigurationRecord +
-	// AudioSpecificConfig + onMetaData up front).
+	// Latest sequence headers, from which the SDP of RTSP players is
+	// built. (Viewers get the headers that belong to their starting
+	// point from the GOP.)
 	mu          sync.RWMutex
 	videoSeqHdr *libflv.VideoTag
 	audioSeqHdr *libflv.AudioTag
@@ -32,7 +28,7 @@ func NewRoom(rtmp *RTMP, roomID string) *Room {
 	r := &Room{
 		RoomID:    roomID,
 		Publisher: rtmp,
-		GOP:       broadcast.NewBroadcast(3),
+		GOP:       newGOP(),
 	}
 	return r
 }
@@ -78,48 +74,19 @@ func (room *Room) Close() {
 
 //player join the room
 func (room *Room) RTMPJoin(rtmp *RTMP) {
+	reader := newGOPReader(room.GOP)
+	done := rtmp.startPlay(reader)
 	go func() {
-		//Backfill sequence headers so a player joining mid-GOP has the
-		//decoder configuration before the first video tag arrives.
-		meta, videoHdr, audioHdr := room.snapshotHeaders()
-		if meta != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   meta.GetTagInfo().TimeStamp,
-				messageLength: meta.GetTagInfo().DataSize,
-				messageType:   MessageType(meta.GetTagInfo().TagType),
-			}
-			_ = NewDataMessage(mb, meta).Send()
-		}
-		if videoHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   videoHdr.GetTagInfo().TimeStamp,
-				messageLength: videoHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(videoHdr.GetTagInfo().TagType),
-			}
-			_ = NewVideoMessage(mb, videoHdr).Send()
-		}
-		if audioHdr != nil {
-			mb := MessageBase{
-				rtmp:          rtmp,
-				messageTime:   audioHdr.GetTagInfo().TimeStamp,
-				messageLength: audioHdr.GetTagInfo().DataSize,
-				messageType:   MessageType(audioHdr.GetTagInfo().TagType),
-			}
-			_ = NewAudioMessage(mb, audioHdr).Send()
-		}
-
-		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
+		defer close(done)
 		for {
-			p, alive := gopReader.Read()
+			p, alive := reader.Read()
 			if !alive {
-				fmt.Println("the publisher had been exit.")
 				break
 			}
-			tag := p.(libflv.Tag)
-			fmt.Printf("read packet from gop, now:%v, tag:%+v\n", time.Now(), tag)
+			tag, ok := p.(libflv.Tag)
+			if !ok {
+				continue
+			}
 			mb := MessageBase{
 				rtmp:            rtmp,
 				messageTime:     tag.GetTagInfo().TimeStamp,
@@ -127,12 +94,14 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 				messageType:     MessageType(tag.GetTagInfo().TagType),
 				messageStreamID: 0,
 			}
-			if audioTag, oka := tag.(*libflv.AudioTag); oka {
-				err = NewAudioMessage(mb, audioTag).Send()
-			} else if videoTag, okv := tag.(*libflv.VideoTag); okv {
-				err = NewVideoMessage(mb, videoTag).Send()
-			} else if dataTag, okd := tag.(*libflv.MetaTag); okd {
-				err = NewDataMessage(mb, dataTag).Send()
+			var err error
+			switch t := tag.(type) {
+			case *libflv.AudioTag:
+				err = NewAudioMessage(mb, t).Send()
+			case *libflv.VideoTag:
+				err = NewVideoMessage(mb, t).Send()
+			case *libflv.MetaTag:
+				err = NewDataMessage(mb, t).Send()
 			}
 			if err != nil {
 				//A write error on a player socket generally means the
@@ -142,41 +111,41 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 				return
 			}
 		}
+		if !reader.Closed() {
+			fmt.Println("the publisher had been exit.")
+			rtmp.playOver()
+		}
 	}()
 }
 
-func (room *Room) FLVJoin(writer easyio.EasyWriter) {
+// FLVJoin streams the room as FLV until the publisher leaves, the
+// viewer disconnects or leave is closed.
+func (room *Room) FLVJoin(writer easyio.EasyWriter, leave <-chan struct{}) {
 	//FLV header + PreviousTagSize0 (always zero).
 	if err := writer.WriteFull([]byte{0x46, 0x4c, 0x56, 0x01, 0x05, 0x00, 0x00, 0x00, 0x09, 0x00, 0x00, 0x00, 0x00}); err != nil {
 		return
 	}
 
-	//Backfill cached sequence headers for mid-GOP joiners.
-	meta, videoHdr, audioHdr := room.snapshotHeaders()
-	if meta != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(meta)); err != nil {
-			return
-		}
-	}
-	if videoHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(videoHdr)); err != nil {
-			return
-		}
-	}
-	if audioHdr != nil {
-		if err := writer.WriteFull(libflv.FLVWrite(audioHdr)); err != nil {
-			return
+	reader := newGOPReader(room.GOP)
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-leave:
+			reader.Close()
+		case <-done:
 		}
-	}
-
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	}()
 	for {
-		p, alive := gopReader.Read()
+		p, alive := reader.Read()
 		if !alive {
-			fmt.Println("the publisher had been exit.")
 			return
 		}
-		if err := writer.WriteFull(libflv.FLVWrite(p.(libflv.Tag))); err != nil {
+		tag, ok := p.(libflv.Tag)
+		if !ok {
+			continue
+		}
+		if err := writer.WriteFull(libflv.FLVWrite(tag)); err != nil {
 			//Client disconnected; bail out of the loop.
 			return
 		}
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..5547e8b 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 
 	"github.com/SmartBrave/Athena/easyio"
 )
@@ -20,6 +21,17 @@ type RTMP struct {
 	server           *server
 	playType         string
 	role             connRole
+	conn             net.Conn //nil for publishers that are no RTMP connection
+
+	// sendMu keeps the chunks of one message together: the connection's
+	// own responses and the media of the stream it plays come from
+	// different goroutines.
+	sendMu sync.Mutex
+
+	// The stream this connection plays, if any.
+	playMu sync.Mutex
+	player *gopReader
+	played chan struct{} //closed when nothing of it will be sent anymore
 
 	// Peer-advertised flow control state.
 	peerWindowAckSize  uint32
@@ -53,6 +65,7 @@ const (
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 	return &RTMP{
+		conn:             conn,
 		readerConn:       easyio.NewEasyReader(conn),
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
@@ -65,7 +78,7 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 }
 
 func (rtmp *RTMP) HandlerServer() {
-	defer rtmp.cleanup()
+	defer rtmp.close()
 
 	err := HandshakeServer(rtmp)
 	if err != nil {
@@ -90,22 +103,108 @@ func (rtmp *RTMP) HandlerServer() {
 	}
 }
 
-// cleanup releases any room state the connection owned. For publishers
-// it closes the GOP broadcast so every subscriber (RTMP/FLV/HLS) wakes
-// up with alive=false and exits its read loop; it also removes the
-// room from the owning App. For players it's a no-op — their goroutine
-// observes the closed broadcast on its own.
+// close ends the session: whatever the connection published or played is
+// released and the connection itself closed.
+func (rtmp *RTMP) close() {
+	//Closing first unblocks a player goroutine stuck in a write.
+	if rtmp.conn != nil {
+		_ = rtmp.conn.Close()
+	}
+	rtmp.stopPlay()
+	rtmp.cleanup()
+}
+
+// cleanup releases the stream the connection published, if any: its
+// name becomes free and every subscriber (RTMP/FLV/HLS) wakes up with
+// alive=false and exits its read loop.
 func (rtmp *RTMP) cleanup() {
-	if rtmp.room == nil {
+	room := rtmp.room
+	if room == nil {
 		return
 	}
-	if rtmp.role == rolePublisher {
+	rtmp.room = nil
+	rtmp.role = roleUnknown
+	if rtmp.server != nil {
 		if app, ok := rtmp.server.apps[rtmp.app]; ok {
-			app.Delete(rtmp.room.RoomID)
+			app.Release(room)
 		}
-		rtmp.room.Close()
 	}
-	rtmp.room = nil
+	room.Close()
+}
+
+// publishing returns the room this connection publishes to, nil if it
+// is not a publisher.
+func (rtmp *RTMP) publishing() *Room {
+	if rtmp.role != rolePublisher {
+		return nil
+	}
+	return rtmp.room
+}
+
+// startPlay makes reader the stream this connection plays, in place of
+// any earlier one. The caller closes done once it has stopped sending.
+func (rtmp *RTMP) startPlay(reader *gopReader) (done chan struct{}) {
+	rtmp.stopPlay()
+	done = make(chan struct{})
+	rtmp.playMu.Lock()
+	rtmp.player, rtmp.played = reader, done
+	rtmp.playMu.Unlock()
+	return done
+}
+
+// stopPlay ends the stream this connection plays, if any, and waits
+// until nothing of it is being sent anymore.
+func (rtmp *RTMP) stopPlay() {
+	rtmp.playMu.Lock()
+	reader, done := rtmp.player, rtmp.played
+	rtmp.player, rtmp.played = nil, nil
+	rtmp.playMu.Unlock()
+	if reader != nil {
+		reader.Close()
+		<-done
+	}
+}
+
+// playOver tells the player that the stream it plays has ended and ends
+// its session.
+func (rtmp *RTMP) playOver() {
+	mb := MessageBase{rtmp: rtmp}
+	_ = NewUserControlMessage(mb, StreamEOF).Send()
+	_ = (&CommandMessageResponse{
+		MessageBase:     mb,
+		CommandName:     PLAY,
+		CommandRespName: ON_STATUS,
+		CommandObject: ConnectRespCommandObject{
+			Level:       "status",
+			Code:        "NetStream.Play.UnpublishNotify",
+			Description: "Stream unpublished",
+		},
+	}).Send()
+	if rtmp.conn != nil {
+		_ = rtmp.conn.Close()
+	}
+}
+
+// sendMessage sends one message, split into chunks of the size we
+// announced.
+func (rtmp *RTMP) sendMessage(messageType MessageType, messageTime uint32, csid uint32, payload []byte) error {
+	rtmp.sendMu.Lock()
+	defer rtmp.sendMu.Unlock()
+	chunkSize := rtmp.ownMaxChunkSize
+	for l := 0; l < len(payload); l += chunkSize {
+		r := l + chunkSize
+		if r > len(payload) {
+			r = len(payload)
+		}
+		fmtType := FMT0
+		if l != 0 {
+			fmtType = FMT3
+		}
+		if err := NewChunk(messageType, uint32(len(payload)), messageTime, fmtType, csid, payload[l:r]).Send(rtmp); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // HandlerClient connects outbound: handshakes as client, sends
@@ -114,7 +213,7 @@ func (rtmp *RTMP) cleanup() {
 // before this is called) so downstream protocols (HTTP-FLV, HLS,
 // DASH, RTSP) re-stream them just like a local publish.
 func (rtmp *RTMP) HandlerClient() {
-	defer rtmp.cleanup()
+	defer rtmp.close()
 
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..45decd7 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -41,12 +41,6 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if a.Load(room) != nil {
-		resp.StatusCode = 461
-		resp.Reason = "Stream Already Publishing"
-		return resp
-	}
-
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -64,7 +58,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !a.Claim(rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
@@ -266,9 +264,10 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.publishRTMP.room.GOP.WriteKeyFrame(vt)
+	} else {
+		s.publishRTMP.room.GOP.Write(vt)
 	}
-	s.publishRTMP.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..98866c0 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -407,7 +406,7 @@ func (s *rtspSession) streamLoop(room *Room) {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
+	gopReader := newGOPReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..50d5c5b 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -264,7 +263,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			go ws.servePings(stop)
 			done := make(chan struct{})
 			go func() {
-				room.FLVJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}))
+				room.FLVJoin(easyio.NewEasyWriter(&wsWriter{ws: ws}), stop)
 				close(done)
 			}()
 			select {
@@ -285,7 +284,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 		//tag via the wrapped writer below.
 
 		flusher, _ := w.(http.Flusher)
-		room.FLVJoin(newFlushingWriter(w, flusher))
+		room.FLVJoin(newFlushingWriter(w, flusher), r.Context().Done())
 	})
 	wg.Done()
 	return http.Serve(flvListener, mux)
@@ -361,11 +360,12 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//hit so no-one is paying for HLS segmentation when no viewer
 			//is attached.
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
-				hls.WaitFirstSegment()
-			} else {
+				hls = app.HLSOf(room)
+				if hls != nil {
+					hls.WaitFirstSegment()
+				}
+			}
+			if hls == nil {
 				w.WriteHeader(http.StatusNotFound)
 				return
 			}
@@ -379,10 +379,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
-				dash.WaitFirstSegment()
+				if dash = app.DASHOf(room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index bd7c840..ee04d0a 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -86,9 +82,13 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			role:   rolePublisher,
 			app:    br.spec.app,
 		}
-		ps.room = NewRoom(ps, br.spec.streamID)
-		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
+		room := NewRoom(ps, br.spec.streamID)
+		if !app.Claim(room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
+		ps.room = room
+		br.room = room
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
@@ -163,9 +163,10 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if au.Key {
-		br.room.GOP.Reset()
+		br.room.GOP.WriteKeyFrame(vt)
+	} else {
+		br.room.GOP.Write(vt)
 	}
-	br.room.GOP.Write(vt)
 }
 
 // onAudio converts an ADTS-prefixed AAC frame into one FLV audio tag.
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..58d66b8 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -1,8 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
 
@@ -47,25 +45,7 @@ func NewVideoMessage(mb MessageBase, fields ...interface{}) (vm *VideoMessage) {
 }
 
 func (vm *VideoMessage) Send() (err error) {
-	chunkSize := vm.rtmp.ownMaxChunkSize
-	for i := 0; ; i++ {
-		lIndex := i * chunkSize
-		if lIndex >= len(vm.messagePayload) {
-			break
-		}
-		rIndex := lIndex + chunkSize
-		if rIndex > len(vm.messagePayload) {
-			rIndex = len(vm.messagePayload)
-		}
-		fmtType := FMT0
-		if i != 0 {
-			fmtType = FMT3
-		}
-		if sendErr := NewChunk(VIDEO_MESSAGE, uint32(len(vm.messagePayload)), vm.messageTime, fmtType, csidVideo, vm.messagePayload[lIndex:rIndex]).Send(vm.rtmp); sendErr != nil {
-			return sendErr
-		}
-	}
-	return nil
+	return vm.rtmp.sendMessage(VIDEO_MESSAGE, vm.messageTime, csidVideo, vm.messagePayload)
 }
 
 func (vm *VideoMessage) Parse() (err error) {
@@ -82,20 +62,38 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
+	room := vm.rtmp.publishing()
+	if room == nil {
 		return nil
 	}
-	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
-			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
-		} else {
-			vm.rtmp.room.GOP.Reset()
-			vm.rtmp.room.GOP.Write(vm.videoTag)
-		}
-		fmt.Printf("write packet video :%+v\n", vm.videoTag)
-	} else {
-		vm.rtmp.room.GOP.Write(vm.videoTag)
+	switch {
+	case vm.videoTag.FrameType != libflv.KEY_FRAME:
+		room.GOP.Write(vm.videoTag)
+	case isVideoSequenceHeader(vm.videoTag):
+		room.setVideoSequenceHeader(vm.videoTag)
+		room.GOP.WriteMeta(vm.videoTag)
+	case isVideoEndOfSequence(vm.videoTag):
+		room.GOP.Write(vm.videoTag)
+	default:
+		room.GOP.WriteKeyFrame(vm.videoTag)
 	}
 	return nil
 }
+
+// isVideoSequenceHeader tells decoder configurations from frames; only
+// some codecs have them, the others have no packet type at all.
+func isVideoSequenceHeader(tag *libflv.VideoTag) bool {
+	return hasPacketType(tag) && tag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER
+}
+
+func isVideoEndOfSequence(tag *libflv.VideoTag) bool {
+	return hasPacketType(tag) && tag.AVCPacketType == libflv.AVC_END_OF_SEQUENCE
+}
+
+func hasPacketType(tag *libflv.VideoTag) bool {
+	switch tag.CodecID {
+	case libflv.FLV_VIDEO_AVC, libflv.FLV_VIDEO_HEVC, libflv.FLV_VIDEO_AV1:
+		return true
+	}
+	return false
+}
-- 
2.43.0


From b62d30667a4694083368d278cbc79a637a338944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 16/48] fix: librtmp: reassemble interleaved messages per chunk
 stream and acknowledge all received bytes

Chunks of two messages were mixed into one, an abort lost the header state
instead of the partial message, a zero or short chunk size panicked or looped,
three-byte chunk stream ids were sent byte-swapped, and the acknowledgement
count left out the chunk headers.
---
 librtmp/chunk.go           | 12 ++++++++----
 librtmp/control_message.go | 15 +++++++++++++--
 librtmp/message.go         | 39 ++++++++++++++++++++------------------
 librtmp/rtmp.go            | 18 ++++++++++++++++--
 4 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..8c5df14 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -2,7 +2,6 @@ package librtmp
 
 import (
 	"encoding/binary"
-	"fmt"
 
 	"github.com/pkg/errors"
 )
@@ -158,8 +157,6 @@ func parseChunkMessageHeader(rtmp *RTMP, basicHeader *ChunkBasicHeader, firstChu
 		}
 	}
 
-	fmt.Printf("[message] chunk fmt:%d, csid:%d, firstChuninMessage:%t, messageType:%d, timeStampDelta:%d, timeStamp:%d, ext:%t\n",
-		basicHeader.Fmt, basicHeader.CsID, firstChunkinMessage, cmhp.MessageType, cmhp.MessageTimeDelta, cmhp.MessageTimeStamp, cmhp.ExtendedTimestamp)
 	return cmhp, nil
 }
 
@@ -169,11 +166,18 @@ type Chunk struct {
 	Payload []byte
 }
 
+// ParseChunk reads one chunk. It continues the message in flight on its
+// chunk stream, if there is one; message, if not nil, is that message.
 func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 	basicHeader, err := parseChunkBasicHeader(rtmp)
 	if err != nil {
 		return nil, err
 	}
+	if message == nil {
+		if m, ok := rtmp.inFlight[basicHeader.CsID]; ok {
+			message = m
+		}
+	}
 
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
@@ -234,7 +238,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..23a62ff 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgementSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,8 +235,15 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
+	//RTMP 1.0 §5.4.1: 31 bits, at least 1.
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	return nil
 }
 
@@ -278,8 +288,9 @@ func (am *AbortMessage) Parse() (err error) {
 
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
-	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	//chunk on that CSID starts a fresh message. Its header may still be
+	//relative to the ones received so far.
+	delete(am.rtmp.inFlight, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..0a4fe01 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -1,8 +1,6 @@
 package librtmp
 
 import (
-	"fmt"
-
 	"github.com/sbraveyoung/GGmpeg/libamf"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
@@ -115,13 +113,18 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	var chunk *Chunk
 	var message Message
 
-	//read message payload from many chunks
+	//read chunks until one of them completes a message; chunks of
+	//messages on different chunk streams may be interleaved
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
+		if err = acknowledge(rtmp); err != nil {
+			return err
+		}
 
+		message = rtmp.inFlight[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -130,7 +133,6 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
 			}
 
 			switch chunk.MessageType {
@@ -179,31 +181,32 @@ func ParseMessage(rtmp *RTMP) (err error) {
 			default:
 				return errors.New("invalid message type")
 			}
-		} else {
-			message.Update(chunk.MessageTimeStamp)
 		}
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.inFlight, chunk.CsID)
 			break
 		}
-	}
-
-	//Track inbound bytes so we can send Window Acknowledgement messages
-	//on schedule. The sequence number is the cumulative count received.
-	rtmp.bytesReceived += message.GetInfo().messageLength
-	if rtmp.peerWindowAckSize > 0 && rtmp.bytesReceived-rtmp.lastAcked >= rtmp.peerWindowAckSize {
-		ack := NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived)
-		if sendErr := ack.Send(); sendErr == nil {
-			rtmp.lastAcked = rtmp.bytesReceived
-		} else {
-			fmt.Println("send acknowledgement error:", sendErr)
+		if rtmp.inFlight == nil {
+			rtmp.inFlight = make(map[uint32]Message)
 		}
+		rtmp.inFlight[chunk.CsID] = message
 	}
 
 	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
 }
 
+// acknowledge sends a Window Acknowledgement when the peer's window is
+// used up. The sequence number is the number of bytes received so far.
+func acknowledge(rtmp *RTMP) error {
+	if rtmp.peerWindowAckSize == 0 || rtmp.bytesReceived-rtmp.lastAcked < rtmp.peerWindowAckSize {
+		return nil
+	}
+	rtmp.lastAcked = rtmp.bytesReceived
+	return NewAcknowledgeMessage(MessageBase{rtmp: rtmp}, rtmp.bytesReceived).Send()
+}
+
 // DiscardMessage consumes (and drops) a message whose type we don't
 // implement — used for shared-object and other seldom-seen types so
 // ParseMessage doesn't abort the connection.
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 5547e8b..4b77068 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -13,6 +13,7 @@ type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
+	inFlight         map[uint32]Message //csid, messages some chunks of which are still to come
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
@@ -64,9 +65,8 @@ const (
 )
 
 func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
-	return &RTMP{
+	rtmp = &RTMP{
 		conn:             conn,
-		readerConn:       easyio.NewEasyReader(conn),
 		writerConn:       easyio.NewEasyWriter(conn),
 		lastChunk:        make(map[uint32]*Chunk),
 		peerMaxChunkSize: 128,
@@ -75,6 +75,20 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 		server:           server,
 		ownWindowAckSize: 2500000,
 	}
+	rtmp.readerConn = easyio.NewEasyReader(&countingReader{r: conn, n: &rtmp.bytesReceived})
+	return rtmp
+}
+
+// countingReader counts the bytes read through it.
+type countingReader struct {
+	r io.Reader
+	n *uint32
+}
+
+func (cr *countingReader) Read(p []byte) (int, error) {
+	n, err := cr.r.Read(p)
+	*cr.n += uint32(n)
+	return n, err
 }
 
 func (rtmp *RTMP) HandlerServer() {
-- 
2.43.0


From 8af1839fc3dd547828b473c0f6084f8f5f37dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 17/48] fix: librtmp: survive malformed and unknown messages
 and commands

---
 librtmp/aggregate_message.go |  8 ++---
 librtmp/command_message.go   | 64 +++++++++++++++++++++++-------------
 librtmp/control_message.go   |  8 ++---
 librtmp/data_message.go      |  2 +-
 librtmp/message.go           | 27 ++++++++++++---
 5 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/librtmp/aggregate_message.go b/librtmp/aggregate_message.go
index 681998c..21db985 100644
--- a/librtmp/aggregate_message.go
+++ b/librtmp/aggregate_message.go
@@ -49,7 +49,8 @@ func (am *AggregateMessage) Do() error {
 		headerEnd := off + 11
 		bodyEnd := headerEnd + int(subLen)
 		if bodyEnd > len(payload) {
-			return fmt.Errorf("aggregate sub-message truncated: need %d, have %d", bodyEnd, len(payload))
+			fmt.Printf("aggregate sub-message truncated: need %d, have %d\n", bodyEnd, len(payload))
+			return nil
 		}
 
 		if !gotFirst {
@@ -83,9 +84,8 @@ func (am *AggregateMessage) Do() error {
 		}
 		if sub != nil {
 			if err := sub.Parse(); err != nil {
-				return fmt.Errorf("aggregate sub Parse: %w", err)
-			}
-			if err := sub.Do(); err != nil {
+				fmt.Printf("drop aggregate sub-message of type %d: %v\n", subType, err)
+			} else if err := sub.Do(); err != nil {
 				return fmt.Errorf("aggregate sub Do: %w", err)
 			}
 		}
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index c1d7bf7..f0efb45 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"reflect"
 	"sync/atomic"
 
 	"github.com/SmartBrave/Athena/easyerrors"
@@ -102,26 +101,32 @@ func (cm *CommandMessage) Send() (err error) {
 
 func (cm *CommandMessage) Parse() (err error) {
 	var array []interface{}
-	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.messagePayload)))
+	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.amf0Payload())))
 	if err != nil {
 		return errors.Wrap(err, "amf.Decode")
 	}
 
-	if len(array) < 3 {
+	if len(array) < 2 {
 		return errors.New("invalid data")
 	}
-	for index, a := range array {
-		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
+	var ok bool
+	if cm.CommandName, ok = array[0].(string); !ok {
+		return errors.New("invalid command name")
 	}
+	transactionID, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid transaction id")
+	}
+	cm.TranscationID = int(transactionID)
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
 	switch cm.CommandName {
 	case CONNECT:
-		_ = array[2]
-		err = mapstructure.Decode(array[2], &cm.CommandObject)
-		if err != nil {
-			return errors.Wrap(err, "mapstructure.Decode")
+		if len(array) < 3 {
+			return errors.New("invalid connect command")
+		}
+		//A property of another type than expected is as good as missing.
+		if decodeErr := mapstructure.Decode(array[2], &cm.CommandObject); decodeErr != nil {
+			fmt.Println("decode connect command object:", decodeErr)
 		}
 	case RELEASE_STREAM, FCPUBLISH, FCUNPUBLISH:
 		if len(array) >= 4 {
@@ -135,16 +140,22 @@ func (cm *CommandMessage) Parse() (err error) {
 		}
 	case CREATE_STREAM: //do nothing
 	case PUBLISH:
-		if len(array) < 5 {
+		if len(array) < 4 {
 			return errors.New("invalid publish command")
 		}
-		cm.PublishingName, _ = array[3].(string)
-		cm.PublishingType, _ = array[4].(string)
+		if cm.PublishingName, ok = array[3].(string); !ok {
+			return errors.New("invalid publishing name")
+		}
+		if len(array) >= 5 {
+			cm.PublishingType, _ = array[4].(string)
+		}
 	case PLAY:
 		if len(array) < 4 {
 			return errors.New("invalid play command")
 		}
-		cm.PublishingName, _ = array[3].(string)
+		if cm.PublishingName, ok = array[3].(string); !ok {
+			return errors.New("invalid stream name")
+		}
 	case PAUSE:
 		//pause(cmd, txn, null, pauseFlag, milliSeconds)
 		if len(array) >= 5 {
@@ -169,6 +180,17 @@ func (cm *CommandMessage) Do() (err error) {
 	switch cm.CommandName {
 	case CONNECT:
 		if _, ok := cm.rtmp.server.apps[cm.CommandObject.App]; !ok {
+			_ = (&CommandMessageResponse{
+				MessageBase:     cm.MessageBase,
+				CommandName:     cm.CommandName,
+				CommandRespName: _ERROR,
+				TranscationID:   cm.TranscationID,
+				CommandObject: ConnectRespCommandObject{
+					Level:       "error",
+					Code:        "NetConnection.Connect.InvalidApp",
+					Description: "Unknown application",
+				},
+			}).Send()
 			return errors.Errorf("unknown app: %s", cm.CommandObject.App)
 		}
 		cm.rtmp.app = cm.CommandObject.App
@@ -234,11 +256,8 @@ func (cm *CommandMessage) Do() (err error) {
 
 	case PUBLISH:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
-		if !ok {
-			return errors.Errorf("app not found: %s", cm.rtmp.app)
-		}
 		room := NewRoom(cm.rtmp, cm.PublishingName)
-		if cm.rtmp.publishing() != nil || !app.Claim(room) {
+		if !ok || cm.PublishingName == "" || cm.rtmp.publishing() != nil || !app.Claim(room) {
 			//Refuse a second publish to the same stream — replacing the
 			//publisher mid-stream would desync every viewer. Nor can one
 			//connection publish two streams: its media does not say
@@ -271,11 +290,10 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case PLAY:
-		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
-		if !ok {
-			return errors.Errorf("app not found: %s", cm.rtmp.app)
+		var room *Room
+		if app, ok := cm.rtmp.server.apps[cm.rtmp.app]; ok {
+			room = app.Load(cm.PublishingName)
 		}
-		room := app.Load(cm.PublishingName)
 		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 23a62ff..c2c6686 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -240,14 +240,14 @@ func (scsm *SetChunkSizeMessage) Parse() (err error) {
 	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
-	//RTMP 1.0 §5.4.1: 31 bits, at least 1.
-	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
-		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
-	}
 	return nil
 }
 
 func (scsm *SetChunkSizeMessage) Do() error {
+	//RTMP 1.0 §5.4.1: 31 bits, at least 1.
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize
 	return nil
 }
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 94abcb7..e6e19cc 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -35,7 +35,7 @@ func (dm *DataMessage) Parse() (err error) {
 		DataSize:  dm.messageLength,
 		TimeStamp: dm.messageTime,
 		StreamID:  0,
-	}, dm.amf, dm.messagePayload)
+	}, dm.amf, dm.amf0Payload())
 	if err != nil {
 		return err
 	}
diff --git a/librtmp/message.go b/librtmp/message.go
index 0a4fe01..29a2eda 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -1,9 +1,9 @@
 package librtmp
 
 import (
+	"fmt"
+
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
-	"github.com/pkg/errors"
 )
 
 type MessageBase struct {
@@ -38,6 +38,18 @@ func (mb *MessageBase) Done() bool {
 	return mb.Remain() == 0
 }
 
+// amf0Payload returns the AMF0 part of a data or command message: the
+// AMF3 variants put a format byte in front of it.
+func (mb *MessageBase) amf0Payload() []byte {
+	switch mb.messageType {
+	case DATA_MESSAGE_AMF3, COMMAND_MESSAGE_AMF3:
+		if len(mb.messagePayload) > 0 && mb.messagePayload[0] == 0 {
+			return mb.messagePayload[1:]
+		}
+	}
+	return mb.messagePayload
+}
+
 type Message interface {
 	Append(*Chunk)
 	Remain() uint32
@@ -179,7 +191,8 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				message = NewCommandMessage(mb)
 
 			default:
-				return errors.New("invalid message type")
+				//Reserved or unknown: the framing tells us where it ends.
+				message = NewDiscardMessage(mb)
 			}
 		}
 
@@ -194,7 +207,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		rtmp.inFlight[chunk.CsID] = message
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	if err = message.Parse(); err != nil {
+		//The framing is intact: a message we can't make sense of is
+		//dropped, the session goes on.
+		fmt.Printf("drop message of type %d: %v\n", message.GetInfo().messageType, err)
+		return nil
+	}
+	return message.Do()
 }
 
 // acknowledge sends a Window Acknowledgement when the peer's window is
-- 
2.43.0


From 0919ba0536fe182f67a56b5320d63fd09b73d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 18/48] fix: librtmp: keep RTSP transports, timestamps and
 session state apart and release them at the end

---
 librtmp/rtsp_ingest.go | 218 ++++++--------
 librtmp/rtsp_server.go | 623 +++++++++++++++++++++++------------------
 2 files changed, 440 insertions(+), 401 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 45decd7..c61fd10 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -1,29 +1,52 @@
 package librtmp
 
 import (
-	"encoding/binary"
-	"fmt"
-	"net"
 	"strings"
+	"sync"
 	"sync/atomic"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
 
+// aacFrameSamples is the number of samples one AAC frame stands for.
+const aacFrameSamples = 1024
+
 // rtspIngest carries the publisher-side state added when the client
 // opts into ANNOUNCE/RECORD instead of DESCRIBE/PLAY. Stored on the
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
+	mu      sync.Mutex //UDP tracks are received by one goroutine each
 	parsed  *librtsp.ParsedSDP
-	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
-	audioCh int
 	videoRA *librtsp.H264Reassembler
+	videoTS rtpClock
+	audioTS rtpClock
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
 }
 
+// rtpClock extends the 32-bit timestamps of one RTP track, which wrap,
+// to 64 bits.
+type rtpClock struct {
+	started bool
+	last    uint64
+}
+
+func (c *rtpClock) extend(ts uint32) uint64 {
+	if !c.started {
+		c.started = true
+		c.last = uint64(ts)
+		return c.last
+	}
+	ext := c.last + uint64(int64(int32(ts-uint32(c.last))))
+	if int64(ext) < 0 {
+		ext = uint64(ts) //reordered before the very first one
+	}
+	c.last = ext
+	return ext
+}
+
 // handleAnnounce picks up an SDP body the publisher just pushed,
 // extracts SPS/PPS and AAC config, and provisions a local Room so any
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
@@ -41,6 +64,9 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
+	if s.sessionID != "" || s.ingest != nil {
+		return methodNotValid(resp)
+	}
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -67,11 +93,10 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
-		videoCh: -1,
-		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
 	}
 	s.publishRTMP = rtmp
+	s.publishRoom = rtmp.room
 
 	//Emit the AVC + AAC sequence headers into the GOP so subscribers
 	//that join before any media tag arrives still receive the decoder
@@ -112,139 +137,77 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	return resp
 }
 
-// handleRecord starts the RTP-receive loop. The loop reads $-prefixed
-// interleaved frames off the RTSP TCP connection until EOF, parses the
-// embedded RTP packets, and forwards reassembled access units into
-// the room's GOP broadcast.
+// handleRecord starts the reception of media: run() hands the $-prefixed
+// interleaved frames of the RTSP connection to handleInterleaved, and
+// every track that was set up over UDP gets a goroutine that reads its
+// socket.
 func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.publishRTMP == nil || s.ingest == nil {
-		resp.StatusCode = 455
-		resp.Reason = "Method Not Valid In This State"
-		return resp
+	if s.publishRTMP == nil || s.ingest == nil || (s.video == nil && s.audio == nil) {
+		return methodNotValid(resp)
 	}
 	resp.Headers.Set("Session", s.sessionID)
-
-	//Send the 200 OK first, then enter the ingest loop. Returning nil
-	//tells dispatch's caller "you take it from here" — the run() loop
-	//calls writeResponse but then we hijack and read interleaved
-	//frames forever.
-	if err := s.writeResponse(resp); err != nil {
-		return nil
+	if !atomic.CompareAndSwapInt32(&s.recording, 0, 1) {
+		return resp
 	}
-	atomic.StoreInt32(&s.recording, 1)
-	s.runIngestLoop()
-	return nil
-}
-
-// runIngestLoop reads RTP packets off whichever transport(s) the
-// client negotiated in SETUP — TCP-interleaved $-frames, UDP, or both.
-// UDP tracks each get their own read goroutine; the TCP control loop
-// concurrently handles GET_PARAMETER / TEARDOWN / etc.
-func (s *rtspSession) runIngestLoop() {
-	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
-	}()
-
-	//Spawn a UDP reader per track that was set up in UDP mode.
-	if s.videoUDP != nil {
-		go s.runUDPReader(s.videoUDP, false)
+	if s.video != nil && s.video.udp != nil {
+		go s.runUDPReader(s.video, s.handleVideoRTP)
 	}
-	if s.audioUDP != nil {
-		go s.runUDPReader(s.audioUDP, true)
+	if s.audio != nil && s.audio.udp != nil {
+		go s.runUDPReader(s.audio, s.handleAudioRTP)
 	}
+	return resp
+}
 
-	//Some clients (FFmpeg notably) send periodic GET_PARAMETER pings
-	//interleaved with media. Detect "$" framing vs the start of an
-	//RTSP keyword by peek-and-dispatch.
-	for {
-		first, err := s.br.ReadByte()
-		if err != nil {
-			return
-		}
-		if first != '$' {
-			//Push the byte back and parse as an RTSP request.
-			if err := s.br.UnreadByte(); err != nil {
-				return
-			}
-			req, err := librtsp.ReadRequest(s.br)
-			if err != nil {
-				return
-			}
-			resp := s.dispatch(req)
-			if resp == nil {
-				return
-			}
-			if err := s.writeResponse(resp); err != nil {
-				return
-			}
-			continue
-		}
-		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
-			return
-		}
-		ch := hdr[0]
-		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
-		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
-			return
-		}
-		s.handleInterleaved(ch, body)
+// stopIngest ends the publication of the session, if any.
+func (s *rtspSession) stopIngest() {
+	atomic.StoreInt32(&s.recording, 0)
+	if s.publishRTMP != nil {
+		s.publishRTMP.cleanup()
 	}
 }
 
-// runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
-// distinguishes the two depacketisation paths.
-func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
-	buf := make([]byte, 1500)
+// runUDPReader pumps the RTP packets the publisher sends to a per-track
+// UDP socket until that is closed.
+func (s *rtspSession) runUDPReader(track *rtspTrack, handle func(*librtsp.RTPPacket)) {
+	buf := make([]byte, 65536)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, from, err := track.udp.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !from.IP.Equal(track.peer.IP) {
+			continue //not from the publisher
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
 		}
-		if isAudio {
-			s.handleAudioRTP(pkt)
-		} else {
-			s.handleVideoRTP(pkt)
-		}
+		handle(pkt)
 	}
 }
 
 // handleInterleaved routes one decoded interleaved frame to the
 // per-track depacketiser.
 func (s *rtspSession) handleInterleaved(channel uint8, payload []byte) {
+	var handle func(*librtsp.RTPPacket)
+	switch {
+	case s.video != nil && s.video.udp == nil && s.video.channel == channel:
+		handle = s.handleVideoRTP
+	case s.audio != nil && s.audio.udp == nil && s.audio.channel == channel:
+		handle = s.handleAudioRTP
+	default:
+		return
+	}
 	pkt, err := librtsp.ParseRTP(payload)
 	if err != nil {
 		return
 	}
-	switch int(channel) {
-	case s.ingest.videoCh:
-		s.handleVideoRTP(pkt)
-	case s.ingest.audioCh:
-		s.handleAudioRTP(pkt)
-	}
+	handle(pkt)
 }
 
 func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
+	s.ingest.mu.Lock()
+	defer s.ingest.mu.Unlock()
 	nals, ts := s.ingest.videoRA.Push(pkt)
 	if len(nals) == 0 {
 		return
@@ -254,7 +217,8 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := ts / 90 //RTP video clock is 90 kHz; FLV tags are ms
+	//RTP video clock is 90 kHz; FLV tags are ms
+	tagTS := uint32(s.ingest.videoTS.extend(ts) / 90)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -264,20 +228,24 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.WriteKeyFrame(vt)
+		s.publishRoom.GOP.WriteKeyFrame(vt)
 	} else {
-		s.publishRTMP.room.GOP.Write(vt)
+		s.publishRoom.GOP.Write(vt)
 	}
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
+	s.ingest.mu.Lock()
+	defer s.ingest.mu.Unlock()
 	frames := librtsp.AACAUExtract(pkt.Payload)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	ts := s.ingest.audioTS.extend(pkt.Timestamp)
+	for i, frame := range frames {
+		//The timestamp of the packet is that of its first frame.
+		tagTS := uint32((ts + uint64(i)*aacFrameSamples) * 1000 / uint64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
@@ -292,7 +260,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.publishRoom.GOP.Write(at)
 	}
 }
 
@@ -331,26 +299,16 @@ func trackPathMatches(setupURL, control string) bool {
 	if strings.Contains(control, "://") {
 		return strings.EqualFold(url, control)
 	}
-	return strings.HasSuffix(strings.ToLower(url), strings.ToLower(control))
+	return strings.HasSuffix(strings.ToLower(url), "/"+strings.ToLower(strings.TrimPrefix(control, "/")))
 }
 
-// notifyIngestSetup records which interleave channel a track will
-// arrive on so handleInterleaved can dispatch correctly. Returns false
-// when the URL doesn't match any advertised track.
-func (s *rtspSession) notifyIngestSetup(setupURL string, rtpCh int) (audio bool, ok bool) {
-	if s.ingest == nil {
-		return false, false
-	}
-	if s.ingest.parsed.HasVideo && trackPathMatches(setupURL, s.ingest.parsed.VideoControl) {
-		s.ingest.videoCh = rtpCh
+// trackOf tells which of the announced tracks a SETUP URL names.
+func (in *rtspIngest) trackOf(setupURL string) (audio bool, ok bool) {
+	if in.parsed.HasVideo && trackPathMatches(setupURL, in.parsed.VideoControl) {
 		return false, true
 	}
-	if s.ingest.parsed.HasAudio && trackPathMatches(setupURL, s.ingest.parsed.AudioControl) {
-		s.ingest.audioCh = rtpCh
+	if in.parsed.HasAudio && trackPathMatches(setupURL, in.parsed.AudioControl) {
 		return true, true
 	}
 	return false, false
 }
-
-// silence error from importing fmt only sometimes.
-var _ = fmt.Sprintf
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 98866c0..ac452c1 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"bufio"
+	"encoding/binary"
 	"fmt"
 	"io"
 	"net"
@@ -11,6 +12,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/sbraveyoung/GGmpeg/libaac"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -24,66 +26,82 @@ import (
 // We don't open UDP sockets, which sidesteps NAT-traversal and
 // channel-pair allocation.
 type rtspSession struct {
-	conn       net.Conn
-	br         *bufio.Reader
-	server     *server
-	sessionID  string
-	app        string
-	streamID   string
-	playing    int32 //atomic — 0 idle, 1 playing
-	recording  int32 //atomic — 0 idle, 1 receiving from publisher
-	wmu        sync.Mutex //serialise writes to conn (PLAY goroutine + replies)
-
-	// Negotiated tracks. Each track records the lower interleave
-	// channel (RTP); RTCP would go on +1. We don't actually emit RTCP
-	// in this minimal impl, but we still allocate the odd channel so
-	// VLC/ffplay don't object.
-	videoChan int    //-1 = not set up
-	audioChan int
-	videoSSRC uint32
-	audioSSRC uint32
-	videoRTP  *librtsp.RTPPacker
-	audioRTP  *librtsp.RTPPacker
-
-	// UDP transport per RFC 2326 §10.12 alternative form. videoUDP /
-	// audioUDP are the server-side sockets we listen on; peerVideoRTP
-	// / peerAudioRTP are the addresses the SETUP client_port tells us
-	// to send to. Set only when the client picked RTP/AVP (UDP); the
-	// session falls back to interleaved otherwise.
-	videoUDP      *net.UDPConn //server's RTP socket (server_port=N)
-	audioUDP      *net.UDPConn
-	videoUDPRTCP  *net.UDPConn
-	audioUDPRTCP  *net.UDPConn
-	peerVideoRTP  *net.UDPAddr //where to send RTP for the video track
-	peerAudioRTP  *net.UDPAddr
+	conn      net.Conn
+	br        *bufio.Reader
+	server    *server
+	sessionID string
+	app       string
+	streamID  string
+	recording int32      //atomic — 0 idle, 1 receiving from publisher
+	wmu       sync.Mutex //serialise writes to conn (PLAY goroutine + replies)
+
+	// Negotiated tracks, nil until set up.
+	video *rtspTrack
+	audio *rtspTrack
+
+	// Player path: set while a streamLoop runs.
+	player *gopReader
+	played chan struct{} //closed when streamLoop is done
 
 	// Publisher path (ANNOUNCE/RECORD): set after a successful
-	// ANNOUNCE; handleRecord enters the RTP receive loop.
+	// ANNOUNCE; handleRecord starts the reception of media.
 	ingest      *rtspIngest
 	publishRTMP *RTMP
+	publishRoom *Room
+}
+
+// rtspTrack is the transport one SETUP negotiated: interleaved on the
+// RTSP connection, or a UDP socket pair per RFC 2326 §10.12.
+type rtspTrack struct {
+	channel uint8 //interleave channel (RTP); RTCP is on +1
+	packer  *librtsp.RTPPacker
+
+	// Set only when the client picked RTP/AVP (UDP).
+	udp     *net.UDPConn //server's RTP socket (server_port=N)
+	udpRTCP *net.UDPConn
+	peer    *net.UDPAddr //where to send RTP (client_port=N)
+}
+
+func (t *rtspTrack) close() {
+	if t != nil && t.udp != nil {
+		_ = t.udp.Close()
+		_ = t.udpRTCP.Close()
+	}
 }
 
 func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 	return &rtspSession{
-		conn:      conn,
-		br:        bufio.NewReader(conn),
-		server:    srv,
-		videoChan: -1,
-		audioChan: -1,
-		//SSRCs are arbitrary 32-bit ids; pinning to a function of
-		//the connection's local time gives unique-per-session values
-		//that stay stable for the lifetime of the connection.
-		videoSSRC: uint32(time.Now().UnixNano()) ^ 0xCAFEBABE,
-		audioSSRC: uint32(time.Now().UnixNano()) ^ 0x12345678,
+		conn:   conn,
+		br:     bufio.NewReader(conn),
+		server: srv,
 	}
 }
 
 // run is the per-connection event loop: parse a request, dispatch it,
-// flush a response. Runs until either side closes the TCP connection
-// or PLAY's goroutine reports a write failure.
+// flush a response; or take an interleaved ($-prefixed) frame, which is
+// media while recording and RTCP otherwise. Runs until either side
+// closes the TCP connection.
 func (s *rtspSession) run() {
-	defer s.conn.Close()
+	defer s.close()
 	for {
+		first, err := s.br.Peek(1)
+		if err != nil {
+			return
+		}
+		if first[0] == '$' {
+			var hdr [4]byte
+			if _, err := io.ReadFull(s.br, hdr[:]); err != nil {
+				return
+			}
+			body := make([]byte, binary.BigEndian.Uint16(hdr[2:]))
+			if _, err := io.ReadFull(s.br, body); err != nil {
+				return
+			}
+			if atomic.LoadInt32(&s.recording) == 1 {
+				s.handleInterleaved(hdr[1], body)
+			}
+			continue
+		}
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
 			if err != io.EOF {
@@ -95,17 +113,42 @@ func (s *rtspSession) run() {
 		if resp == nil {
 			return
 		}
-		s.wmu.Lock()
-		_, werr := s.conn.Write(resp.Bytes())
-		s.wmu.Unlock()
-		if werr != nil {
+		if resp == noResponse {
+			continue
+		}
+		if err := s.writeResponse(resp); err != nil {
 			return
 		}
 	}
 }
 
+// close ends the session: nothing it played, published or opened
+// outlives it.
+func (s *rtspSession) close() {
+	//Closing first unblocks a streamLoop stuck in a write.
+	_ = s.conn.Close()
+	s.stopPlay()
+	s.stopIngest()
+	s.video.close()
+	s.audio.close()
+}
+
+// stopPlay ends the playback, if any, and waits until nothing of it is
+// being sent anymore.
+func (s *rtspSession) stopPlay() {
+	if s.player != nil {
+		s.player.Close()
+		<-s.played
+		s.player = nil
+	}
+}
+
+// noResponse is returned by handlers that have responded already.
+var noResponse = &librtsp.Response{}
+
 // dispatch routes a request to the per-method handler. Each handler
-// returns a fully-formed response or nil to terminate the session.
+// returns a fully-formed response, noResponse, or nil to terminate the
+// session.
 func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
 	resp := &librtsp.Response{
 		StatusCode: 200,
@@ -130,7 +173,8 @@ func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
 	case "RECORD":
 		return s.handleRecord(req, resp)
 	case "TEARDOWN":
-		atomic.StoreInt32(&s.playing, 0)
+		s.stopPlay()
+		s.stopIngest()
 		resp.Headers.Set("Connection", "close")
 		_ = s.writeResponse(resp)
 		return nil
@@ -172,7 +216,6 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID = app, room
 
 	sdp := buildSDPFromRoom(rm)
 	if sdp == nil {
@@ -189,9 +232,12 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 
 // handleSetup parses the client's Transport and prepares either an
 // interleaved-TCP channel pair or a UDP socket pair. The chosen mode
-// is recorded on the session so subsequent PLAY / RECORD send paths
+// is recorded on the track so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.player != nil || atomic.LoadInt32(&s.recording) == 1 {
+		return methodNotValid(resp)
+	}
 	transport := req.Headers.Get("transport")
 	useUDP := strings.Contains(transport, "RTP/AVP") &&
 		!strings.Contains(transport, "RTP/AVP/TCP")
@@ -203,96 +249,107 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		return resp
 	}
 
-	var rtpCh, rtcpCh int
-	var srvRTPPort, srvRTCPPort int
-	var udpSocks [2]*net.UDPConn
-	var clientRTPPort, clientRTCPPort int
+	//Two SETUP shapes:
+	//  - playback: we use our own /trackID=0 (video) and /trackID=1
+	//    (audio) suffixes.
+	//  - ingest:   client did ANNOUNCE first and the SDP carried
+	//    arbitrary control= URLs; rtspIngest knows how to match.
+	app, room := s.app, s.streamID
+	var isAudio, ok bool
+	if s.ingest != nil {
+		isAudio, ok = s.ingest.trackOf(req.URL)
+	} else {
+		app, room = parseRTSPURL(req.URL)
+		isAudio, ok = s.playTrackOf(app, room, req.URL)
+	}
+	if !ok {
+		resp.StatusCode = 404
+		resp.Reason = "Not Found"
+		return resp
+	}
+	if s.sessionID != "" && (app != s.app || room != s.streamID) {
+		//One session plays one stream.
+		resp.StatusCode = 459
+		resp.Reason = "Aggregate Operation Not Allowed"
+		return resp
+	}
+	slot, other, payloadType := &s.video, s.audio, uint8(96)
+	if isAudio {
+		slot, other, payloadType = &s.audio, s.video, 97
+	}
 
+	track := &rtspTrack{}
 	if useTCP {
-		var ok bool
-		rtpCh, rtcpCh, ok = parseInterleavedChannels(transport)
-		if !ok {
+		rtpCh, rtcpCh, ok := parseInterleavedChannels(transport)
+		if !ok || rtpCh < 0 || rtpCh > 255 || rtcpCh < 0 || rtcpCh > 255 ||
+			(other != nil && other.udp == nil && int(other.channel) == rtpCh) {
 			resp.StatusCode = 400
 			resp.Reason = "Bad Request"
 			return resp
 		}
+		track.channel = uint8(rtpCh)
+		resp.Headers.Set("Transport",
+			fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", rtpCh, rtcpCh))
 	} else {
-		var ok bool
-		clientRTPPort, clientRTCPPort, ok = parseClientPorts(transport)
-		if !ok {
+		clientRTPPort, clientRTCPPort, ok := parseClientPorts(transport)
+		if !ok || clientRTPPort <= 0 || clientRTPPort > 65535 {
 			resp.StatusCode = 400
 			resp.Reason = "Bad Request"
 			return resp
 		}
-		var err error
-		udpSocks, srvRTPPort, srvRTCPPort, err = openUDPPair()
+		socks, srvRTPPort, srvRTCPPort, err := openUDPPair()
 		if err != nil {
 			resp.StatusCode = 500
 			resp.Reason = "Internal Server Error"
 			return resp
 		}
+		track.udp, track.udpRTCP = socks[0], socks[1]
+		track.peer = &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
+		resp.Headers.Set("Transport",
+			fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d;server_port=%d-%d",
+				clientRTPPort, clientRTCPPort, srvRTPPort, srvRTCPPort))
 	}
+	//SSRCs are arbitrary 32-bit ids; a function of the local time gives
+	//ones that are unique per track.
+	track.packer = librtsp.NewRTPPacker(payloadType, uint32(time.Now().UnixNano())^uint32(payloadType)<<24)
+	(*slot).close() //an earlier SETUP of the same track
+	*slot = track
 
-	//Two SETUP shapes:
-	//  - playback: client called DESCRIBE first; we use our own
-	//    /trackID=0 (video) and /trackID=1 (audio) suffixes.
-	//  - ingest:   client did ANNOUNCE first and the SDP carried
-	//    arbitrary control= URLs; rtspIngest knows how to match.
-	isAudio := false
-	if s.ingest != nil {
-		var ok bool
-		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
-		if !ok {
-			resp.StatusCode = 404
-			resp.Reason = "Not Found"
-			return resp
-		}
-	} else {
-		track := strings.ToLower(strings.TrimRight(req.URL, "/"))
-		switch {
-		case strings.HasSuffix(track, "/trackid=0"):
-			s.videoChan = rtpCh
-			s.videoRTP = librtsp.NewRTPPacker(96, s.videoSSRC)
-			isAudio = false
-		case strings.HasSuffix(track, "/trackid=1"):
-			s.audioChan = rtpCh
-			s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
-			isAudio = true
-		default:
-			resp.StatusCode = 404
-			resp.Reason = "Not Found"
-			return resp
-		}
+	s.app, s.streamID = app, room
+	if s.sessionID == "" {
+		s.sessionID = fmt.Sprintf("%d", time.Now().UnixNano())
 	}
+	resp.Headers.Set("Session", s.sessionID+";timeout=60")
+	return resp
+}
 
-	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
-	//goroutines can find them later.
-	if useUDP {
-		clientHost := s.peerHostIP()
-		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
-		if isAudio {
-			s.audioUDP = udpSocks[0]
-			s.audioUDPRTCP = udpSocks[1]
-			s.peerAudioRTP = rtpPeer
-		} else {
-			s.videoUDP = udpSocks[0]
-			s.videoUDPRTCP = udpSocks[1]
-			s.peerVideoRTP = rtpPeer
-		}
+// playTrackOf tells which track of a published stream a SETUP URL names.
+func (s *rtspSession) playTrackOf(app, room, setupURL string) (audio bool, ok bool) {
+	a, found := s.server.apps[app]
+	if !found {
+		return false, false
 	}
-
-	if s.sessionID == "" {
-		s.sessionID = fmt.Sprintf("%d", time.Now().UnixNano())
+	rm := a.Load(room)
+	if rm == nil {
+		return false, false
 	}
-	if useTCP {
-		resp.Headers.Set("Transport",
-			fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", rtpCh, rtcpCh))
-	} else {
-		resp.Headers.Set("Transport",
-			fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d;server_port=%d-%d",
-				clientRTPPort, clientRTCPPort, srvRTPPort, srvRTCPPort))
+	p, ok := sdpParamsOfRoom(rm)
+	if !ok {
+		return false, false
 	}
-	resp.Headers.Set("Session", s.sessionID+";timeout=60")
+	track := strings.ToLower(strings.TrimRight(setupURL, "/"))
+	switch {
+	case strings.HasSuffix(track, "/trackid=0"):
+		return false, p.HasVideo
+	case strings.HasSuffix(track, "/trackid=1"):
+		return true, p.HasAudio
+	}
+	return false, false
+}
+
+func methodNotValid(resp *librtsp.Response) *librtsp.Response {
+	resp.StatusCode = 455
+	resp.Reason = "Method Not Valid In This State"
 	return resp
 }
 
@@ -361,105 +418,107 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 	return [2]*net.UDPConn{}, 0, 0, fmt.Errorf("failed to bind RTP/RTCP UDP pair")
 }
 
-// handlePlay starts the per-track packetisation goroutine that pulls
-// FLV tags from the room's broadcast and writes interleaved RTP frames
-// into the same TCP connection used by the RTSP control channel.
+// handlePlay starts the packetisation goroutine that pulls FLV tags
+// from the room's broadcast and writes RTP packets to the transports
+// negotiated before.
 func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.app == "" || s.streamID == "" {
-		resp.StatusCode = 455
-		resp.Reason = "Method Not Valid In This State"
+	if s.ingest != nil || (s.video == nil && s.audio == nil) {
+		return methodNotValid(resp)
+	}
+	resp.Headers.Set("Session", s.sessionID)
+	resp.Headers.Set("Range", "npt=0.000-")
+	if s.player != nil {
 		return resp
 	}
 	a, ok := s.server.apps[s.app]
-	if !ok {
-		resp.StatusCode = 404
-		resp.Reason = "Not Found"
-		return resp
+	var rm *Room
+	if ok {
+		rm = a.Load(s.streamID)
 	}
-	rm := a.Load(s.streamID)
 	if rm == nil {
 		resp.StatusCode = 404
 		resp.Reason = "Not Found"
 		return resp
 	}
-	resp.Headers.Set("Session", s.sessionID)
-	resp.Headers.Set("Range", "npt=0.000-")
-
-	if !atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
-		return resp
+	//The response goes out before any media.
+	if err := s.writeResponse(resp); err != nil {
+		return nil
 	}
-	go s.streamLoop(rm)
-	return resp
+	s.player = newGOPReader(rm.GOP)
+	s.played = make(chan struct{})
+	go s.streamLoop(s.player, s.played)
+	return noResponse
 }
 
-// streamLoop reads from the room's GOP broadcast and emits RTP packets
-// for each video/audio FLV tag. Runs until the publisher disconnects
-// or the TCP connection's write side fails.
-func (s *rtspSession) streamLoop(room *Room) {
-	defer atomic.StoreInt32(&s.playing, 0)
-
-	//Backfill cached sequence headers as in-band data so any client
-	//that decodes off the wire rather than the SDP fmtp gets the
-	//SPS/PPS too.
-	_, videoHdr, _ := room.snapshotHeaders()
-	if s.videoChan >= 0 && videoHdr != nil {
-		s.sendVideoSeqHeader(videoHdr)
-	}
-
-	gopReader := newGOPReader(room.GOP)
-	for atomic.LoadInt32(&s.playing) == 1 {
-		p, alive := gopReader.Read()
+// streamLoop emits RTP packets for each video/audio FLV tag of the
+// stream. Runs until the publisher disconnects, which ends the session,
+// the player is closed or the write side fails.
+func (s *rtspSession) streamLoop(reader *gopReader, done chan struct{}) {
+	defer close(done)
+	var videoHdr *libflv.VideoTag //to be sent with the next keyframe
+	audioRate := 0
+	for {
+		p, alive := reader.Read()
 		if !alive {
+			if !reader.Closed() {
+				_ = s.conn.Close()
+			}
 			return
 		}
-		tag, ok := p.(libflv.Tag)
-		if !ok {
-			continue
-		}
-		switch t := tag.(type) {
+		var err error
+		switch t := p.(type) {
 		case *libflv.VideoTag:
-			if s.videoChan < 0 {
+			if s.video == nil {
 				continue
 			}
-			if err := s.sendVideo(t); err != nil {
-				return
+			if t.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+				videoHdr = t
+				continue
+			}
+			if t.AVCPacketType == libflv.AVC_NALU {
+				var sets [][]byte
+				if t.FrameType == libflv.KEY_FRAME && videoHdr != nil {
+					sets = parameterSetsOf(videoHdr)
+					videoHdr = nil
+				}
+				err = s.sendVideo(t, sets)
 			}
 		case *libflv.AudioTag:
-			if s.audioChan < 0 {
+			if s.audio == nil {
 				continue
 			}
-			if err := s.sendAudio(t); err != nil {
-				return
+			if t.SoundFormat == libflv.FLV_AUDIO_AAC && t.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+				audioRate, _ = aacFormat(t)
+				continue
 			}
+			err = s.sendAudio(t, audioRate)
+		}
+		if err != nil {
+			return
 		}
 	}
 }
 
-// sendVideoSeqHeader emits the SPS/PPS NALs as separate single-NAL RTP
-// packets at timestamp 0 so receivers that joined mid-GOP can prime
-// their decoders.
-func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
-	if tag.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
-		return
-	}
-	sps, pps, _, _, err := parseAVCDCRForRTSP(tag.Data())
-	if err != nil || len(sps) == 0 {
-		return
-	}
-	for _, nal := range [][]byte{sps, pps} {
-		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
-			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
-				return
-			}
+// parameterSetsOf returns the parameter sets of a sequence header, as
+// NAL units.
+func parameterSetsOf(tag *libflv.VideoTag) [][]byte {
+	switch tag.CodecID {
+	case libflv.FLV_VIDEO_AVC:
+		if sps, pps, _, _, err := parseAVCDCRForRTSP(tag.Data()); err == nil {
+			return [][]byte{sps, pps}
+		}
+	case libflv.FLV_VIDEO_HEVC:
+		if vps, sps, pps, err := parseHEVCDCRForRTSP(tag.Data()); err == nil {
+			return [][]byte{vps, sps, pps}
 		}
 	}
+	return nil
 }
 
-func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
-	if tag.AVCPacketType != libflv.AVC_NALU {
-		return nil
-	}
+// sendVideo sends one access unit. sets are parameter sets that go in
+// front of it, for receivers that take them from the wire rather than
+// from the SDP.
+func (s *rtspSession) sendVideo(tag *libflv.VideoTag, sets [][]byte) error {
 	nals := librtsp.SplitAVCC(tag.Data())
 	if len(nals) == 0 {
 		return nil
@@ -479,12 +538,19 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		return nil
 	}
 
+	for _, nal := range sets {
+		for _, piece := range pack(nal, librtsp.DefaultMTU) {
+			if err := s.sendRTP(s.video, s.video.packer.Pack(false, pts, piece)); err != nil {
+				return err
+			}
+		}
+	}
 	for ni, nal := range nals {
 		pieces := pack(nal, librtsp.DefaultMTU)
 		for pi, piece := range pieces {
 			marker := ni == len(nals)-1 && pi == len(pieces)-1
-			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			pkt := s.video.packer.Pack(marker, pts, piece)
+			if err := s.sendRTP(s.video, pkt); err != nil {
 				return err
 			}
 		}
@@ -492,57 +558,37 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 	return nil
 }
 
-func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
+// sendAudio sends one audio frame. rate is the sampling rate of the AAC
+// configuration, which is the clock rate the SDP announced.
+func (s *rtspSession) sendAudio(tag *libflv.AudioTag, rate int) error {
+	if tag.AACPacketType != libflv.AAC_RAW {
+		return nil //Opus sequence headers have no in-RTP equivalent
+	}
+	var payload []byte
 	switch tag.SoundFormat {
 	case libflv.FLV_AUDIO_AAC:
-		if tag.AACPacketType != libflv.AAC_RAW {
-			return nil
-		}
-		//AAC RTP timestamp uses sample-rate clock; default 44.1 kHz.
-		rate := 44100
-		switch tag.SoundRate {
-		case 0:
-			rate = 5500
-		case 1:
-			rate = 11025
-		case 2:
-			rate = 22050
-		}
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
-		frame := librtsp.AdtsToRaw(tag.Data())
-		payload := librtsp.PackAACFrame(frame)
-		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
-
-	case libflv.FLV_AUDIO_OPUS:
-		if tag.AACPacketType != libflv.AAC_RAW {
-			return nil //skip Opus sequence header (no in-RTP equivalent)
+		if rate <= 0 {
+			rate = decodeAACRate(tag.SoundRate)
 		}
+		payload = librtsp.PackAACFrame(librtsp.AdtsToRaw(tag.Data()))
+	case libflv.FLV_AUDIO_OPUS:
 		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
-		payload := librtsp.PackOpusFrame(tag.Data())
-		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		rate = librtsp.OpusClockRate
+		payload = librtsp.PackOpusFrame(tag.Data())
+	default:
+		return nil
 	}
-	return nil
+	ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
+	return s.sendRTP(s.audio, s.audio.packer.Pack(true, ts, payload))
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
+// sendRTP sends one RTP packet on the transport of its track.
+func (s *rtspSession) sendRTP(track *rtspTrack, rtp []byte) error {
+	if track.udp != nil {
+		_, err := track.udp.WriteToUDP(rtp, track.peer)
 		return err
 	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
-		return err
-	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
+	frame := librtsp.InterleaveFrame(track.channel, rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
 	_, err := s.conn.Write(frame)
@@ -605,11 +651,20 @@ func parseInterleavedChannels(transport string) (rtp, rtcp int, ok bool) {
 // builds the SDP that DESCRIBE returns. Returns nil if the publisher
 // hasn't yet emitted enough metadata.
 func buildSDPFromRoom(room *Room) []byte {
+	p, ok := sdpParamsOfRoom(room)
+	if !ok {
+		return nil
+	}
+	return librtsp.BuildSDP(p)
+}
+
+// sdpParamsOfRoom collects what the SDP of a room announces.
+func sdpParamsOfRoom(room *Room) (p librtsp.SDPParams, ok bool) {
 	_, videoHdr, audioHdr := room.snapshotHeaders()
 	if videoHdr == nil || videoHdr.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
-		return nil
+		return p, false
 	}
-	p := librtsp.SDPParams{
+	p = librtsp.SDPParams{
 		StreamID: room.RoomID,
 		HasVideo: true,
 	}
@@ -617,7 +672,7 @@ func buildSDPFromRoom(room *Room) []byte {
 	case libflv.FLV_VIDEO_AVC:
 		sps, pps, _, _, err := parseAVCDCRForRTSP(videoHdr.Data())
 		if err != nil {
-			return nil
+			return p, false
 		}
 		p.SPS, p.PPS = sps, pps
 	case libflv.FLV_VIDEO_HEVC:
@@ -631,7 +686,7 @@ func buildSDPFromRoom(room *Room) []byte {
 			p.VPS, p.SPS, p.PPS = vps, sps, pps
 		}
 	default:
-		return nil
+		return p, false
 	}
 
 	if audioHdr != nil {
@@ -642,19 +697,42 @@ func buildSDPFromRoom(room *Room) []byte {
 			}
 			p.HasAudio = true
 			p.AudioConfig = audioHdr.Data()
-			p.AudioRate = decodeAACRate(audioHdr.SoundRate)
+			p.AudioRate, p.AudioChans = aacFormat(audioHdr)
 		case libflv.FLV_AUDIO_OPUS:
 			p.HasAudio = true
 			p.IsOpus = true
 			p.AudioRate = librtsp.OpusClockRate
-		}
-		if audioHdr.SoundType == libflv.SND_STEREO {
-			p.AudioChans = 2
-		} else {
 			p.AudioChans = 1
+			if audioHdr.SoundType == libflv.SND_STEREO {
+				p.AudioChans = 2
+			}
 		}
 	}
-	return librtsp.BuildSDP(p)
+	return p, true
+}
+
+// aacFormat returns the sampling rate and the number of channels of an
+// AAC sequence header: those of its AudioSpecificConfig, or the ones the
+// FLV tag header announces if that does not tell.
+func aacFormat(tag *libflv.AudioTag) (rate, chans int) {
+	rate, chans = decodeAACRate(tag.SoundRate), 1
+	if tag.SoundType == libflv.SND_STEREO {
+		chans = 2
+	}
+	var asc libaac.AACHeader
+	if err := asc.Parse(tag.Data()); err != nil || asc.ObjectType == 31 {
+		return rate, chans
+	}
+	if int(asc.SampleRate) < len(libaac.AACRates) {
+		rate = libaac.AACRates[asc.SampleRate]
+		switch {
+		case asc.Channel == 7:
+			chans = 8
+		case asc.Channel >= 1 && asc.Channel <= 6:
+			chans = int(asc.Channel)
+		}
+	}
+	return rate, chans
 }
 
 // decodeAACRate maps the FLV 2-bit sound-rate code back to Hz. Only
@@ -730,7 +808,7 @@ func parseHEVCDCRForRTSP(src []byte) (vps, sps, pps []byte, err error) {
 }
 
 // parseAVCDCRForRTSP parses an AVCDecoderConfigurationRecord into its
-// constituent SPS / PPS / dimensions. Re-implemented (rather than
+// first SPS / PPS / dimensions. Re-implemented (rather than
 // importing libdash) to keep librtsp / librtmp free of the libdash
 // dependency cycle.
 func parseAVCDCRForRTSP(src []byte) (sps, pps []byte, w, h uint16, err error) {
@@ -738,34 +816,37 @@ func parseAVCDCRForRTSP(src []byte) (sps, pps []byte, w, h uint16, err error) {
 		err = fmt.Errorf("DCR too short: %d bytes", len(src))
 		return
 	}
-	off := 6
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at SPS length")
-		return
-	}
-	spsLen := int(src[off])<<8 | int(src[off+1])
-	off += 2
-	if off+spsLen > len(src) || spsLen <= 0 {
-		err = fmt.Errorf("DCR truncated in SPS body")
-		return
-	}
-	sps = append([]byte(nil), src[off:off+spsLen]...)
-	off += spsLen
-	if off >= len(src) {
-		err = fmt.Errorf("DCR truncated before PPS count")
-		return
-	}
-	off++ //numPPS
-	if off+2 > len(src) {
-		err = fmt.Errorf("DCR truncated at PPS length")
-		return
-	}
-	ppsLen := int(src[off])<<8 | int(src[off+1])
-	off += 2
-	if off+ppsLen > len(src) || ppsLen <= 0 {
-		err = fmt.Errorf("DCR truncated in PPS body")
-		return
+	off := 5
+	for _, set := range []*[]byte{&sps, &pps} {
+		if off >= len(src) {
+			err = fmt.Errorf("DCR truncated before parameter set count")
+			return
+		}
+		num := int(src[off])
+		if set == &sps {
+			num &= 0x1F
+		}
+		off++
+		if num == 0 {
+			err = fmt.Errorf("DCR without SPS or PPS")
+			return
+		}
+		for i := 0; i < num; i++ {
+			if off+2 > len(src) {
+				err = fmt.Errorf("DCR truncated at parameter set length")
+				return
+			}
+			n := int(src[off])<<8 | int(src[off+1])
+			off += 2
+			if off+n > len(src) || n <= 0 {
+				err = fmt.Errorf("DCR truncated in parameter set")
+				return
+			}
+			if i == 0 {
+				*set = append([]byte(nil), src[off:off+n]...)
+			}
+			off += n
+		}
 	}
-	pps = append([]byte(nil), src[off:off+ppsLen]...)
 	return
 }
-- 
2.43.0


From 70154b439478ec8c6f5cc114080afa3e5d4e1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 19/48] fix: librtmp: free the published name even if the
 connection connected to another app since

---
 librtmp/app.go  | 1 +
 librtmp/room.go | 1 +
 librtmp/rtmp.go | 7 +++----
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index bacefb7..26f668b 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -54,6 +54,7 @@ func (app *App) Claim(room *Room) bool {
 		return false
 	}
 	app.Store(room.RoomID, room)
+	room.app = app
 	if app.hlsMode == libhls.IMMEDIATELY {
 		app.startHLS(room)
 	}
diff --git a/librtmp/room.go b/librtmp/room.go
index 5a4b63c..ec5bb93 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -20,6 +20,7 @@ type Room struct {
 	videoSeqHdr *libflv.VideoTag
 	audioSeqHdr *libflv.AudioTag
 	metaTag     *libflv.MetaTag
+	app         *App //where the name was claimed
 	closed      bool
 }
 
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 4b77068..72c8f54 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -138,10 +138,9 @@ func (rtmp *RTMP) cleanup() {
 	}
 	rtmp.room = nil
 	rtmp.role = roleUnknown
-	if rtmp.server != nil {
-		if app, ok := rtmp.server.apps[rtmp.app]; ok {
-			app.Release(room)
-		}
+	//The connection may have connected to another app since.
+	if room.app != nil {
+		room.app.Release(room)
 	}
 	room.Close()
 }
-- 
2.43.0


From 4a323d37febeda6f4a3a83f23012d16d8f5b89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 20/48] fix: librtmp: keep websocket frames whole, refuse
 invalid ones and answer close frames

---
 librtmp/websocket.go | 125 +++++++++++++++++++++++++++++++------------
 1 file changed, 92 insertions(+), 33 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..3772b54 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,8 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
+	"time"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -19,8 +21,8 @@ import (
 //   - server->client binary frames (opcode 2) without masking
 //   - client->server ping (0x9) replied with pong (0xA)
 //   - close frame (0x8) handling
-// Fragmented frames, extensions and per-message deflate are not
-// implemented — flv.js doesn't need them.
+// Client messages are read and ignored. Extensions and per-message
+// deflate are not implemented — flv.js doesn't need them.
 
 const wsGUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
 
@@ -36,11 +38,30 @@ const (
 	wsOpPong         wsOpcode = 0xA
 )
 
+// maxClientFrame bounds the frames accepted from a client, whose
+// messages mean nothing to us.
+const maxClientFrame = 64 << 10
+
+// Close status codes (RFC 6455 §7.4.1).
+const (
+	wsProtocolError = 1002
+	wsTooBig        = 1009
+)
+
+var (
+	errWSProtocol = errors.New("invalid websocket frame")
+	errWSTooBig   = errors.New("websocket frame too big")
+	errWSClosed   = errors.New("websocket closed")
+)
+
 // wsConn is a thin server-side WebSocket connection. The caller owns
 // the underlying net.Conn lifetime.
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+
+	mu     sync.Mutex //one frame at a time
+	closed bool       //a close frame was sent: nothing may follow it
 }
 
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
@@ -48,20 +69,31 @@ type wsConn struct {
 // The caller is responsible for hijacking and closing the underlying
 // net.Conn.
 func upgradeWebSocket(w http.ResponseWriter, r *http.Request) (*wsConn, error) {
+	refuse := func(reason string, status int) (*wsConn, error) {
+		http.Error(w, reason, status)
+		return nil, errors.New(reason)
+	}
 	if !strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
-		return nil, errors.New("not a websocket upgrade")
+		return refuse("not a websocket upgrade", http.StatusBadRequest)
+	}
+	if !strings.Contains(strings.ToLower(strings.Join(r.Header.Values("Connection"), ",")), "upgrade") {
+		return refuse("missing Connection: Upgrade", http.StatusBadRequest)
+	}
+	if r.Method != http.MethodGet {
+		return refuse("websocket upgrade needs GET", http.StatusMethodNotAllowed)
 	}
-	if !strings.Contains(strings.ToLower(r.Header.Get("Connection")), "upgrade") {
-		return nil, errors.New("missing Connection: Upgrade")
+	if r.Header.Get("Sec-WebSocket-Version") != "13" {
+		w.Header().Set("Sec-WebSocket-Version", "13")
+		return refuse("unsupported websocket version", http.StatusUpgradeRequired)
 	}
 	key := r.Header.Get("Sec-WebSocket-Key")
 	if key == "" {
-		return nil, errors.New("missing Sec-WebSocket-Key")
+		return refuse("missing Sec-WebSocket-Key", http.StatusBadRequest)
 	}
 
 	hijacker, ok := w.(http.Hijacker)
 	if !ok {
-		return nil, errors.New("response writer doesn't support Hijack")
+		return refuse("response writer doesn't support Hijack", http.StatusInternalServerError)
 	}
 	conn, brw, err := hijacker.Hijack()
 	if err != nil {
@@ -109,20 +141,25 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
-		return err
+	//Media and the replies to control frames come from different
+	//goroutines.
+	ws.mu.Lock()
+	defer ws.mu.Unlock()
+	if ws.closed {
+		return errWSClosed
 	}
-	if len(payload) == 0 {
-		return nil
+	ws.closed = op == wsOpClose
+	_, err := ws.conn.Write(append(header, payload...))
+	if err != nil {
+		ws.closed = true //perhaps in the middle of the frame
 	}
-	_, err := ws.conn.Write(payload)
 	return err
 }
 
 // readFrame reads one frame. It transparently unmasks the payload (all
 // client-to-server frames are masked per §5.3). Returns the opcode and
-// the decoded payload. Continuation frames are stitched onto the
-// original opcode.
+// the decoded payload. The frames of a fragmented message are returned
+// one by one.
 func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 	hdr := make([]byte, 2)
 	if _, err := io.ReadFull(ws.br, hdr); err != nil {
@@ -132,6 +169,12 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 	op := wsOpcode(hdr[0] & 0x0F)
 	masked := hdr[1]&0x80 != 0
 	plen := uint64(hdr[1] & 0x7F)
+	if hdr[0]&0x70 != 0 || !masked {
+		return 0, nil, errWSProtocol
+	}
+	if op >= wsOpClose && (!fin || plen > 125) {
+		return 0, nil, errWSProtocol //§5.5
+	}
 
 	switch plen {
 	case 126:
@@ -148,38 +191,39 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		plen = binary.BigEndian.Uint64(ext)
 	}
 
+	if plen > maxClientFrame {
+		return 0, nil, errWSTooBig
+	}
+
 	var maskKey [4]byte
-	if masked {
-		if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
-			return 0, nil, err
-		}
+	if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
+		return 0, nil, err
 	}
 
 	payload := make([]byte, plen)
 	if _, err := io.ReadFull(ws.br, payload); err != nil {
 		return 0, nil, err
 	}
-	if masked {
-		for i := range payload {
-			payload[i] ^= maskKey[i%4]
-		}
-	}
-
-	if !fin {
-		//flv.js (the only client we need to support here) never
-		//fragments. Reject so we don't have to track stitched state.
-		return 0, nil, errors.New("fragmented frames not supported")
+	for i := range payload {
+		payload[i] ^= maskKey[i%4]
 	}
 	return op, payload, nil
 }
 
-// Close sends a close frame (best-effort) and tears down the TCP
-// connection.
+// Close sends a close frame (best-effort, unless one was sent already)
+// and tears down the TCP connection.
 func (ws *wsConn) Close() error {
+	//The client may have stopped reading, with a frame half sent.
+	_ = ws.conn.SetWriteDeadline(time.Now().Add(time.Second))
 	_ = ws.writeFrame(wsOpClose, nil)
 	return ws.conn.Close()
 }
 
+// closeStatus is the payload of a close frame.
+func closeStatus(code uint16) []byte {
+	return []byte{byte(code >> 8), byte(code)}
+}
+
 // wsWriter adapts *wsConn to the easyio.EasyWriter interface so an
 // existing FLV serialiser (Room.FLVJoin) can stream into a WebSocket
 // without knowing it.
@@ -198,17 +242,32 @@ func (w *wsWriter) Write(p []byte) (int, error) {
 // while a writer goroutine pushes FLV bytes. flv.js doesn't issue
 // pings, but browsers/proxies sometimes do.
 func (ws *wsConn) servePings(stop chan struct{}) {
+	defer close(stop)
 	for {
 		op, payload, err := ws.readFrame()
-		if err != nil {
-			close(stop)
+		switch err {
+		case nil:
+		case errWSProtocol:
+			_ = ws.writeFrame(wsOpClose, closeStatus(wsProtocolError))
+			return
+		case errWSTooBig:
+			_ = ws.writeFrame(wsOpClose, closeStatus(wsTooBig))
+			return
+		default:
 			return
 		}
 		switch op {
 		case wsOpPing:
 			_ = ws.writeFrame(wsOpPong, payload)
 		case wsOpClose:
-			close(stop)
+			//§5.5.1: answer with the status code received.
+			switch {
+			case len(payload) == 1:
+				payload = closeStatus(wsProtocolError)
+			case len(payload) > 2:
+				payload = payload[:2]
+			}
+			_ = ws.writeFrame(wsOpClose, payload)
 			return
 		}
 	}
-- 
2.43.0


From d01de75c7428f2938ac1ea7eae15a8fb840771ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 21/48] fix: librtmp: treat the Opus sequence header as the
 stream's audio header

---
 librtmp/audio.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 6457832..cc7a0d4 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -64,7 +64,11 @@ func (am *AudioMessage) Do() (err error) {
 	if room == nil {
 		return nil
 	}
-	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+	switch am.audioTag.SoundFormat {
+	case libflv.FLV_AUDIO_AAC, libflv.FLV_AUDIO_OPUS:
+		if am.audioTag.AACPacketType != libflv.AAC_SEQUENCE_HEADER {
+			break
+		}
 		room.setAudioSequenceHeader(am.audioTag)
 		room.GOP.WriteMeta(am.audioTag)
 		return nil
-- 
2.43.0


From c640aaf4df7f51e3bc8ba14bebc8b6fc1b4b7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:50 +0000
Subject: [PATCH 22/48] fix: librtmp: keep looking for an even UDP port pair
 instead of failing one SETUP in 256

---
 librtmp/rtsp_server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index ac452c1..c406c0c 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -395,7 +395,9 @@ func parseClientPorts(transport string) (rtp, rtcp int, ok bool) {
 // on the odd. Loops up to a few times in case some other process
 // snipes the odd-numbered port between our two binds.
 func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
-	for attempt := 0; attempt < 8; attempt++ {
+	//The kernel hands out odd ports as often as even ones, so a few
+	//attempts would fail SETUP every now and then.
+	for attempt := 0; attempt < 128; attempt++ {
 		var c1 *net.UDPConn
 		c1, err = net.ListenUDP("udp", &net.UDPAddr{Port: 0})
 		if err != nil {
-- 
2.43.0


From 66fcc2b9444879a24dc49082f59adc425cfe907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 23/48] fix: librtmp: the end of a stream a publisher plays
 does not end its own publication

---
 librtmp/command_message.go | 2 ++
 librtmp/rtmp.go            | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index f0efb45..0dbd0ea 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -274,8 +274,10 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
+		cm.rtmp.playMu.Lock()
 		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
+		cm.rtmp.playMu.Unlock()
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 72c8f54..3596fe3 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -136,8 +136,10 @@ func (rtmp *RTMP) cleanup() {
 	if room == nil {
 		return
 	}
+	rtmp.playMu.Lock()
 	rtmp.room = nil
 	rtmp.role = roleUnknown
+	rtmp.playMu.Unlock()
 	//The connection may have connected to another app since.
 	if room.app != nil {
 		room.app.Release(room)
@@ -179,7 +181,7 @@ func (rtmp *RTMP) stopPlay() {
 }
 
 // playOver tells the player that the stream it plays has ended and ends
-// its session.
+// its session, unless that publishes another stream.
 func (rtmp *RTMP) playOver() {
 	mb := MessageBase{rtmp: rtmp}
 	_ = NewUserControlMessage(mb, StreamEOF).Send()
@@ -193,7 +195,10 @@ func (rtmp *RTMP) playOver() {
 			Description: "Stream unpublished",
 		},
 	}).Send()
-	if rtmp.conn != nil {
+	rtmp.playMu.Lock()
+	publishing := rtmp.publishing() != nil
+	rtmp.playMu.Unlock()
+	if rtmp.conn != nil && !publishing {
 		_ = rtmp.conn.Close()
 	}
 }
-- 
2.43.0


From b08cd98e719eb4419466a5d14d42211f960cc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 24/48] fix: librtmp: a pull plays on the stream createStream
 names, with the name and tcUrl of its URL

---
 librtmp/client.go          | 48 ++++++++++++++++++++++++--------------
 librtmp/command_message.go | 19 ++++++++-------
 librtmp/rtmp.go            | 16 +++++++++----
 3 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index b0cba77..4dd91a4 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -7,7 +7,6 @@ import (
 	"net"
 	"net/url"
 	"strings"
-	"sync/atomic"
 	"time"
 
 	"github.com/SmartBrave/Athena/easyerrors"
@@ -45,8 +44,8 @@ func (pc *PullClient) Run() error {
 		return fmt.Errorf("parse remote URL: %w", err)
 	}
 	host := u.Host
-	if !strings.Contains(host, ":") {
-		host += ":1935"
+	if u.Port() == "" {
+		host = net.JoinHostPort(u.Hostname(), "1935")
 	}
 	conn, err := net.DialTimeout("tcp", host, 10*time.Second)
 	if err != nil {
@@ -72,12 +71,15 @@ func (pc *PullClient) Run() error {
 	rtmp.role = rolePublisher
 
 	rtmp.connectApp = parseAppName(u.Path)
-	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
-		"/"+rtmp.connectApp+"/"+parsePlayName(u.Path)) + "/" + rtmp.connectApp
+	rtmp.tcURL = u.Scheme + "://" + u.Host + "/" + rtmp.connectApp
 	rtmp.playType = parsePlayName(u.Path)
 	if rtmp.playType == "" {
 		rtmp.playType = pc.spec.streamID
 	}
+	if u.RawQuery != "" {
+		//Tokens and the like belong to the stream.
+		rtmp.playType += "?" + u.RawQuery
+	}
 
 	rtmp.HandlerClient()
 	return nil
@@ -101,21 +103,22 @@ func (rtmp *RTMP) runClientCommands() error {
 	if err := rtmp.sendCommandRaw("connect", 1, connectObj, nil); err != nil {
 		return fmt.Errorf("send connect: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if _, err := rtmp.expectResult(1, 15*time.Second); err != nil {
 		return fmt.Errorf("connect: %w", err)
 	}
 
 	if err := rtmp.sendCommandRaw("createStream", 2, nil, nil); err != nil {
 		return fmt.Errorf("send createStream: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	streamID, err := rtmp.expectResult(2, 15*time.Second)
+	if err != nil {
 		return fmt.Errorf("createStream: %w", err)
 	}
 
 	//play emits no _result on most servers — only an onStatus update.
 	//Don't block waiting for it; the main ParseMessage loop will
 	//absorb whatever comes next and start receiving media.
-	if err := rtmp.sendCommandRaw("play", 3, nil, []interface{}{rtmp.playType}); err != nil {
+	if err := rtmp.sendCommandOn(streamID, "play", 3, nil, []interface{}{rtmp.playType}); err != nil {
 		return fmt.Errorf("send play: %w", err)
 	}
 	return nil
@@ -125,6 +128,12 @@ func (rtmp *RTMP) runClientCommands() error {
 // onto the wire on csidCommand. cmdObject (optional) becomes the third
 // AMF element; extras append after that.
 func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]interface{}, extras []interface{}) error {
+	return rtmp.sendCommandOn(0, name, txnID, cmdObject, extras)
+}
+
+// sendCommandOn is sendCommandRaw for a command that concerns a message
+// stream rather than the connection.
+func (rtmp *RTMP) sendCommandOn(messageStreamID uint32, name string, txnID int, cmdObject map[string]interface{}, extras []interface{}) error {
 	buf := bytes.NewBuffer(nil)
 	w := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
@@ -154,24 +163,27 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 	if err != nil {
 		return err
 	}
-	return rtmp.sendMessage(COMMAND_MESSAGE_AMF0, 0, csidCommand, body)
+	return rtmp.sendMessageOn(messageStreamID, COMMAND_MESSAGE_AMF0, 0, csidCommand, body)
 }
 
-// expectResult pumps ParseMessage until rtmp.resultCount advances —
-// CommandMessage.Do bumps it on every _result/_error. Returns ErrTimeout
-// if the deadline is reached without progress.
-func (rtmp *RTMP) expectResult(timeout time.Duration) error {
-	start := atomic.LoadUint32(&rtmp.resultCount)
+// expectResult pumps ParseMessage until the command of the given
+// transaction is answered; CommandMessage.Do keeps the latest answer. It
+// returns the message stream the answer names. Returns an error if the
+// answer is one, or if the deadline is reached without an answer.
+func (rtmp *RTMP) expectResult(txnID int, timeout time.Duration) (streamID uint32, err error) {
 	deadline := time.Now().Add(timeout)
 	for {
 		if err := ParseMessage(rtmp); err != nil {
-			return err
+			return 0, err
 		}
-		if atomic.LoadUint32(&rtmp.resultCount) > start {
-			return nil
+		if r := rtmp.result; r != nil && r.TranscationID == txnID {
+			if r.CommandName == _ERROR {
+				return 0, fmt.Errorf("refused by the server")
+			}
+			return r.messageStreamID, nil
 		}
 		if time.Now().After(deadline) {
-			return fmt.Errorf("timeout waiting for _result")
+			return 0, fmt.Errorf("timeout waiting for _result")
 		}
 	}
 }
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 0dbd0ea..5e71879 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"sync/atomic"
 
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
@@ -170,6 +169,13 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case _RESULT:
+		//The result of createStream is the message stream to use.
+		if len(array) >= 4 {
+			if f, ok := array[3].(float64); ok {
+				cm.messageStreamID = uint32(f)
+			}
+		}
 	}
 	return nil
 }
@@ -423,13 +429,10 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-	case _RESULT:
-		//Outbound-client path: bump the response counter so the
-		//connect/createStream sender can move on. No-op for the more
-		//common server-side case.
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
-	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
+	case _RESULT, _ERROR:
+		//Outbound-client path: let the connect/createStream sender move
+		//on. No-op for the more common server-side case.
+		cm.rtmp.result = cm
 	default:
 	}
 
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 3596fe3..51fa9f5 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -48,12 +48,11 @@ type RTMP struct {
 
 	// Outbound (client) bookkeeping. connectApp is the app name passed
 	// in the connect cmd object; tcURL is the canonical RTMP URL;
-	// resultCount is incremented each time a _result message is
-	// processed so expectResultUntil can pace the connect/createStream
-	// handshake.
+	// result is the latest _result or _error message, by which
+	// expectResult paces the connect/createStream handshake.
 	connectApp   string
 	tcURL        string
-	resultCount  uint32 //atomic
+	result       *CommandMessage
 }
 
 type connRole uint8
@@ -206,6 +205,11 @@ func (rtmp *RTMP) playOver() {
 // sendMessage sends one message, split into chunks of the size we
 // announced.
 func (rtmp *RTMP) sendMessage(messageType MessageType, messageTime uint32, csid uint32, payload []byte) error {
+	return rtmp.sendMessageOn(0, messageType, messageTime, csid, payload)
+}
+
+// sendMessageOn is sendMessage for a message stream other than 0.
+func (rtmp *RTMP) sendMessageOn(messageStreamID uint32, messageType MessageType, messageTime uint32, csid uint32, payload []byte) error {
 	rtmp.sendMu.Lock()
 	defer rtmp.sendMu.Unlock()
 	chunkSize := rtmp.ownMaxChunkSize
@@ -218,7 +222,9 @@ func (rtmp *RTMP) sendMessage(messageType MessageType, messageTime uint32, csid
 		if l != 0 {
 			fmtType = FMT3
 		}
-		if err := NewChunk(messageType, uint32(len(payload)), messageTime, fmtType, csid, payload[l:r]).Send(rtmp); err != nil {
+		chunk := NewChunk(messageType, uint32(len(payload)), messageTime, fmtType, csid, payload[l:r])
+		chunk.MessageStreamID = messageStreamID
+		if err := chunk.Send(rtmp); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 7e6dce5ec8b67d1c66cf1c9d5e2d7598c7266023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 25/48] fix: libflv: script data other than metadata is passed
 on as it is

---
 libflv/meta.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/libflv/meta.go b/libflv/meta.go
index ab7876e..62137fb 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -20,6 +20,8 @@ type MetaTag struct {
 	//Properties is the metadata as it was received. It is what Marshal
 	//writes: the typed fields below cover only some of the properties.
 	Properties      map[string]interface{} `mapstructure:"-" structs:"-"`
+	//raw is the body of a tag that is not metadata.
+	raw             []byte
 	AudioChannels   string  `mapstructure:"audiochannels" structs:"audiochannels"`
 	AudioCodecID    float64 `mapstructure:"audiocodecid" structs:"audiocodecid"`
 	AudioDataRate   int     `mapstructure:"audiodatarate" structs:"audiodatarate"`
@@ -58,19 +60,15 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	//Canonicalise to always keep the onMetaData string in SecondField
 	//and the properties array in the last slot.
 	var props interface{}
-	switch {
-	case len(array) >= 3:
-		if s, ok := array[0].(string); ok {
-			meta.FirstField = s
-		}
+	switch first, _ := array0(array); {
+	case len(array) >= 3 && first == "@setDataFrame":
+		meta.FirstField = first
 		if s, ok := array[1].(string); ok {
 			meta.SecondField = s
 		}
 		props = array[2]
-	case len(array) == 2:
-		if s, ok := array[0].(string); ok {
-			meta.SecondField = s
-		}
+	case len(array) >= 2:
+		meta.SecondField = first
 		props = array[1]
 	default:
 		return meta, errors.New("invalid onMetaData payload")
@@ -84,15 +82,38 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		}
 		meta.Properties = m
 	}
+	if meta.Properties == nil || meta.SecondField != "onMetaData" {
+		//Not a description of the stream but some other data (cue point,
+		//text), which is passed on as it is.
+		meta.raw = b
+		if meta.FirstField != "" {
+			n := 3 + len(meta.FirstField)
+			if b[0] != 2 { //a long string
+				n += 2
+			}
+			meta.raw = b[n:]
+		}
+	}
 	return meta, nil
 }
 
+// array0 returns the first element if it is a string.
+func array0(array []interface{}) (s string, ok bool) {
+	if len(array) > 0 {
+		s, ok = array[0].(string)
+	}
+	return s, ok
+}
+
 // Marshal serialises the metadata tag body in the form FLV players
 // expect: two AMF0 elements — the string "onMetaData" followed by the
 // ECMA array of properties. (RTMP's @setDataFrame wrapper is a command
 // verb, not part of the FLV script-data tag format, so we drop
 // FirstField even when Parse observed one.)
 func (mt *MetaTag) Marshal() (b []byte) {
+	if mt.raw != nil {
+		return mt.raw
+	}
 	buf := bytes.NewBuffer([]byte{})
 	writer := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
-- 
2.43.0


From c117fca0fc0415a18cac709af53b1ae34517b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:24 +0000
Subject: [PATCH 26/48] fix: librtmp: names of streams and request paths cannot
 reach other streams' or foreign files

Segments are named after the escaped stream name in a directory of their
application, and only files the segmenters own are served.
---
 internal/safename/safename.go |  39 +++++++++++++
 libdash/dash.go               |  29 ++++++++--
 libhls/hls.go                 |  19 ++++++-
 librtmp/app.go                |  12 +++-
 librtmp/server.go             | 102 +++++++++++++++++-----------------
 librtsp/sdp.go                |   9 ++-
 6 files changed, 151 insertions(+), 59 deletions(-)
 create mode 100644 internal/safename/safename.go

diff --git a/internal/safename/safename.go b/internal/safename/safename.go
new file mode 100644
index 0000000..e875aa0
--- /dev/null
+++ b/internal/safename/safename.go
@@ -0,0 +1,39 @@
+// Package safename turns stream and application names, which publishers
+// choose freely, into names of files and directories.
+package safename
+
+import (
+	"crypto/sha256"
+	"fmt"
+	"strings"
+)
+
+// maxLen bounds an escaped name, so that it leaves room for a suffix
+// within the 255 bytes file systems allow.
+const maxLen = 180
+
+// Escape returns a name for id that is a single path component, needs no
+// quoting in URLs, playlists and manifests, and differs from the name of
+// every other id. Names made of letters, digits, "_", "-" and inner "."
+// are left as they are.
+func Escape(id string) string {
+	var sb strings.Builder
+	for i := 0; i < len(id); i++ {
+		c := id[i]
+		switch {
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9',
+			c == '_', c == '-', c == '.' && i > 0:
+			sb.WriteByte(c)
+		default:
+			fmt.Fprintf(&sb, "~%02X", c)
+		}
+	}
+	name := sb.String()
+	if name == "" {
+		return "~"
+	}
+	if len(name) > maxLen {
+		return fmt.Sprintf("%s~~%x", name[:maxLen-66], sha256.Sum256([]byte(id)))
+	}
+	return name
+}
diff --git a/libdash/dash.go b/libdash/dash.go
index f7809e3..086c956 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -21,6 +21,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	"github.com/sbraveyoung/GGmpeg/internal/safename"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -103,6 +104,24 @@ func (d *DASH) WithDir(dir string) *DASH {
 }
 func (d *DASH) Dir() string { return d.dir }
 
+func (d *DASH) initName() string { return safename.Escape(d.streamID) + "-init.mp4" }
+
+// Path returns the path of the init segment or of a media segment of
+// this stream. Other files, and segments that are no longer available,
+// have none.
+func (d *DASH) Path(file string) (path string, ok bool) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	ok = d.initWritten && file == d.initName()
+	for _, s := range d.segments {
+		ok = ok || s.filename == file
+	}
+	if !ok {
+		return "", false
+	}
+	return filepath.Join(d.dir, file), true
+}
+
 // InitSegment returns the bytes of the init segment (ftyp + moov) once
 // the AVC sequence header has been parsed. Returns nil before that.
 func (d *DASH) InitSegment() []byte {
@@ -125,7 +144,7 @@ func (d *DASH) Manifest() []byte {
 		return nil
 	}
 	return buildMPD(manifestInputs{
-		streamID:          d.streamID,
+		streamID:          safename.Escape(d.streamID),
 		availabilityStart: d.availabilityStart,
 		timescale:         d.timescale,
 		targetDur:         d.targetDur,
@@ -151,7 +170,7 @@ func (d *DASH) Stop() {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
 	if d.streamID != "" {
-		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
+		_ = os.Remove(filepath.Join(d.dir, d.initName()))
 	}
 	d.readyOnce.Do(func() { close(d.ready) })
 }
@@ -273,7 +292,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 	d.mu.Unlock()
 
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
+		path := filepath.Join(d.dir, d.initName())
 		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
@@ -421,7 +440,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 
 	//Write init segment to disk so http.ServeFile can serve it.
 	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
+		path := filepath.Join(d.dir, d.initName())
 		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
@@ -476,7 +495,7 @@ func (d *DASH) flushCurrent() error {
 		Samples:        samples,
 	})
 
-	filename := fmt.Sprintf("%s-%d.m4s", d.streamID, seq)
+	filename := fmt.Sprintf("%s-%d.m4s", safename.Escape(d.streamID), seq)
 	if err := os.WriteFile(filepath.Join(d.dir, filename), frag, 0o644); err != nil {
 		return fmt.Errorf("write fragment: %w", err)
 	}
diff --git a/libhls/hls.go b/libhls/hls.go
index b916b74..58f33e8 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
+	"github.com/sbraveyoung/GGmpeg/internal/safename"
 	"github.com/sbraveyoung/GGmpeg/libaac"
 	"github.com/sbraveyoung/GGmpeg/libavc"
 	"github.com/sbraveyoung/GGmpeg/libflv"
@@ -164,6 +165,22 @@ func (hls *HLS) WithDir(dir string) *HLS {
 // Dir returns the segment directory (defaults to "./data").
 func (hls *HLS) Dir() string { return hls.dir }
 
+// Path returns the path of a segment of this stream. Other files, and
+// segments that are no longer (or not yet) available, have none.
+func (hls *HLS) Path(file string) (path string, ok bool) {
+	hls.mu.Lock()
+	defer hls.mu.Unlock()
+	for _, s := range hls.segments {
+		if s.filename == file {
+			return filepath.Join(hls.dir, file), true
+		}
+	}
+	if hls.llEnabled && file != "" && file == hls.currentSegName {
+		return filepath.Join(hls.dir, file), true
+	}
+	return "", false
+}
+
 // Playlist renders the current live playlist. Returns nil until the
 // first segment has been closed and added to the window. When LL-HLS
 // is enabled, partial-segment metadata for the in-progress segment is
@@ -576,7 +593,7 @@ func avccToAnnexB(buf []byte) []byte {
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
 func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
-	name := fmt.Sprintf("%s-%d.ts", hls.streamID, hls.nextSeq)
+	name := fmt.Sprintf("%s-%d.ts", safename.Escape(hls.streamID), hls.nextSeq)
 	hls.mu.Unlock()
 	fullPath := filepath.Join(hls.dir, name)
 	f, err := os.Create(fullPath)
diff --git a/librtmp/app.go b/librtmp/app.go
index 26f668b..1b499ca 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -1,8 +1,10 @@
 package librtmp
 
 import (
+	"path/filepath"
 	"sync"
 
+	"github.com/sbraveyoung/GGmpeg/internal/safename"
 	"github.com/sbraveyoung/GGmpeg/libdash"
 	"github.com/sbraveyoung/GGmpeg/libhls"
 )
@@ -100,15 +102,21 @@ func (app *App) DASHOf(room *Room) *libdash.DASH {
 	return app.startDASH(room)
 }
 
+// subdir is the app's own part of dir: applications may be configured
+// with the same directory and have streams of the same name.
+func (app *App) subdir(dir string) string {
+	return filepath.Join(dir, safename.Escape(app.appName))
+}
+
 func (app *App) startHLS(room *Room) *libhls.HLS {
-	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.subdir(app.hlsDir))
 	app.StoreHLS(room.RoomID, hls)
 	go hls.Start(newGOPReader(room.GOP))
 	return hls
 }
 
 func (app *App) startDASH(room *Room) *libdash.DASH {
-	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.subdir(app.dashDir))
 	app.StoreDASH(room.RoomID, dash)
 	go dash.Start(newGOPReader(room.GOP))
 	return dash
diff --git a/librtmp/server.go b/librtmp/server.go
index 50d5c5b..4c5c4b6 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -7,7 +7,6 @@ import (
 	"net/url"
 	"os"
 	"path"
-	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
@@ -111,12 +110,13 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
@@ -197,16 +197,28 @@ func (s *server) Handler() error {
 	}
 }
 
+// splitPath splits the path of rawURL, as it stood in the request, at its
+// slashes. The elements are decoded one by one, so that a "/" or "%" in
+// the name of a stream can be requested in its encoded form.
+func splitPath(rawURL string) (parts []string, ok bool) {
+	u, err := url.Parse(rawURL)
+	if err != nil {
+		return nil, false
+	}
+	parts = strings.Split(strings.TrimPrefix(path.Clean(u.EscapedPath()), "/"), "/")
+	for i := range parts {
+		if parts[i], err = url.PathUnescape(parts[i]); err != nil {
+			return nil, false
+		}
+	}
+	return parts, true
+}
+
 // parseFlvURL normalises /app/stream.flv? paths into (appName, roomID).
 // Query strings are stripped and the ".flv" suffix must be present.
 func parseFlvURL(rawPath string) (appName, roomID string, ok bool) {
-	u, err := url.Parse(rawPath)
-	if err != nil {
-		return "", "", false
-	}
-	p := path.Clean(u.Path)
-	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
-	if len(parts) != 2 {
+	parts, ok := splitPath(rawPath)
+	if !ok || len(parts) != 2 {
 		return "", "", false
 	}
 	if !strings.HasSuffix(parts[1], ".flv") {
@@ -229,7 +241,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}.flv[?query]
-		appName, roomID, ok := parseFlvURL(r.URL.Path)
+		appName, roomID, ok := parseFlvURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -311,13 +323,8 @@ func (fw *flushingWriter) Write(p []byte) (int, error) {
 
 // parseHlsURL splits /app/stream/file.(m3u8|ts) into its parts.
 func parseHlsURL(rawPath string) (appName, roomID, file string, ok bool) {
-	u, err := url.Parse(rawPath)
-	if err != nil {
-		return "", "", "", false
-	}
-	p := path.Clean(u.Path)
-	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
-	if len(parts) != 3 {
+	parts, ok := splitPath(rawPath)
+	if !ok || len(parts) != 3 {
 		return "", "", "", false
 	}
 	appName, roomID, file = parts[0], parts[1], parts[2]
@@ -337,7 +344,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
-		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
+		appName, roomID, file, ok := parseHlsURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -354,23 +361,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = app.HLSOf(room)
-				if hls != nil {
-					hls.WaitFirstSegment()
-				}
-			}
-			if hls == nil {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -391,6 +381,23 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if hls == nil {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+				hls = app.HLSOf(room)
+				if hls != nil {
+					hls.WaitFirstSegment()
+				}
+			}
+			if hls == nil {
+				w.WriteHeader(http.StatusNotFound)
+				return
+			}
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
@@ -423,18 +430,15 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			w.Header().Set("Cache-Control", "no-cache")
 			_, _ = w.Write(playlist)
 		case strings.HasSuffix(file, ".ts"):
-			//Resolve and re-clean the path under the segment dir to
-			//defeat path traversal attempts.
-			requested := filepath.Join(hls.Dir(), file)
-			rel, err := filepath.Rel(hls.Dir(), requested)
-			if err != nil || strings.HasPrefix(rel, "..") {
-				w.WriteHeader(http.StatusForbidden)
+			full, ok := hls.Path(file)
+			if !ok {
+				w.WriteHeader(http.StatusNotFound)
 				return
 			}
 			w.Header().Set("Content-Type", "video/mp2t")
 			w.Header().Set("Access-Control-Allow-Origin", "*")
 			w.Header().Set("Cache-Control", "max-age=3600")
-			http.ServeFile(w, r, requested)
+			http.ServeFile(w, r, full)
 		default:
 			w.WriteHeader(http.StatusNotFound)
 		}
@@ -463,20 +467,18 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 		w.Header().Set("Cache-Control", "no-cache")
 		_, _ = w.Write(mpd)
 	case strings.HasSuffix(file, "-init.mp4"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
+		full, ok := dash.Path(file)
+		if !ok {
+			w.WriteHeader(http.StatusNotFound)
 			return
 		}
 		w.Header().Set("Content-Type", "video/mp4")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
 		http.ServeFile(w, r, full)
 	case strings.HasSuffix(file, ".m4s"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
+		full, ok := dash.Path(file)
+		if !ok {
+			w.WriteHeader(http.StatusNotFound)
 			return
 		}
 		w.Header().Set("Content-Type", "video/iso.segment")
diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 5c2353f..11de093 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -41,7 +41,14 @@ func BuildSDP(p SDPParams) []byte {
 	var sb strings.Builder
 	sb.WriteString("v=0\r\n")
 	sb.WriteString("o=- 0 0 IN IP4 127.0.0.1\r\n")
-	fmt.Fprintf(&sb, "s=%s\r\n", p.StreamID)
+	//A name made of control characters could end the line.
+	name := strings.Map(func(r rune) rune {
+		if r < 0x20 || r == 0x7f {
+			return -1
+		}
+		return r
+	}, p.StreamID)
+	fmt.Fprintf(&sb, "s=%s\r\n", name)
 	sb.WriteString("c=IN IP4 0.0.0.0\r\n")
 	sb.WriteString("t=0 0\r\n")
 	//RFC 4566 mentions a=control:* on session level so the client
-- 
2.43.0


From 6b80159037d718f48a74e0991669726084b64fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:28 +0000
Subject: [PATCH 27/48] fix: libhls: segments keep every frame with its
 timestamp, and Stop leaves nothing behind

Timestamps no longer overflow after 13 hours, audio neither carries over
from before the segment nor gets lost at its end, HEVC keyframes without
parameter sets get those of the sequence header, frames starting with a
NAL unit of one byte are not taken for AnnexB, and the duration of a
segment includes its last frame. Stop waits for the tag being handled and
removes the segment in progress, too.
---
 libhls/hls.go | 528 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 321 insertions(+), 207 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 58f33e8..dfe348f 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -51,8 +51,8 @@ const defaultPartTargetDur = 333 * time.Millisecond
 //
 // Single-publisher invariant: the only writer to `segments`,
 // `currentFile`, `currentCC`, `audioCache`, `align`, `ah`, `avcParser`
-// and `lastPSI` is Start()'s goroutine. Readers (Playlist, Dir, Stop)
-// take mu.
+// and `lastPSI` is Start()'s goroutine, which holds `work` meanwhile, so
+// that Stop can wait for it. Readers (Playlist, Path) take mu.
 type HLS struct {
 	Version int //3
 
@@ -71,14 +71,19 @@ type HLS struct {
 	Cc         map[uint16]uint8 //key:pid — reset at each segment boundary
 	Ah         *libaac.AACHeader
 	AvcParser  *libavc.Parser
+	hevcSets   []byte //VPS, SPS and PPS of the HEVC sequence header, AnnexB
 	audioCache *audioCache
 	align      *align
 
-	// Writer-only state (mutated only by Start's goroutine, no mutex).
+	// work is held while a tag is handled, and by Stop.
+	work sync.Mutex
+
+	// Writer-only state (mutated only with work held).
 	currentFile     *os.File
 	currentWriter   easyio.EasyWriter
 	currentStartDTS uint64
-	currentEndDTS   uint64
+	currentEndDTS   uint64 //DTS of the last video frame
+	lastInterval    uint64 //between the last two video frames
 	partStartDTS    uint64
 	partStartOffset int64
 	currentBytes    int64 //running offset into currentFile
@@ -274,18 +279,23 @@ func (hls *HLS) WaitFirstSegment() {
 	<-hls.ready
 }
 
-// Stop requests graceful shutdown of the transcoder and removes any
-// lingering segment files on disk. Idempotent.
+// Stop shuts the transcoder down and removes the segment files on disk.
+// Nothing is written once it has returned. Idempotent.
 func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
+	hls.work.Lock()
+	defer hls.work.Unlock()
 	if hls.currentFile != nil {
 		_ = hls.currentFile.Close()
+		_ = os.Remove(hls.currentFile.Name())
 		hls.currentFile = nil
+		hls.currentWriter = nil
 	}
 	hls.mu.Lock()
 	hls.currentSegName = ""
+	hls.currentParts = nil
 	segs := append([]segmentInfo(nil), hls.segments...)
 	hls.segments = nil
 	hls.cond.Broadcast()
@@ -304,24 +314,24 @@ func (hls *HLS) stopRequested() bool {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader libflv.TagReader) (err error) {
-	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
+	if err := hls.prepare(); err != nil {
+		return err
 	}
 
-	//Build the PAT/PMT lazily — we don't know the video codec
-	//(H.264 vs HEVC) until the first sequence header arrives. Default
-	//to H.264 stream_type=0x1B; toPES upgrades video.StreamType to
-	//0x24 the moment we see an HEVC tag.
-	hls.Pat = newPAT(0x1B)
-
 	defer func() {
 		//On graceful exit (publisher gone or Stop called) finalise the
 		//current segment so players don't lose the last few seconds.
-		hls.finaliseCurrent()
+		hls.work.Lock()
+		if !hls.stopRequested() {
+			if flushErr := hls.flushAudio(); flushErr != nil && err == nil {
+				err = flushErr
+			}
+			hls.finaliseCurrent(hls.currentEndDTS + hls.lastInterval)
+		}
+		hls.work.Unlock()
 		hls.readyOnce.Do(func() { close(hls.ready) })
 	}()
 
-outer:
 	for {
 		if hls.stopRequested() {
 			return nil
@@ -335,197 +345,253 @@ outer:
 		if !ok {
 			continue
 		}
+		if err := hls.handle(tag); err != nil {
+			return err
+		}
+	}
+}
 
-		pes, pid, videoFrameKey, skip := hls.toPES(tag)
-		if skip {
-			continue
+func (hls *HLS) prepare() error {
+	hls.work.Lock()
+	defer hls.work.Unlock()
+	if hls.stopRequested() {
+		return nil
+	}
+	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
+	}
+
+	//Build the PAT/PMT lazily — we don't know the video codec
+	//(H.264 vs HEVC) until the first sequence header arrives. Default
+	//to H.264 stream_type=0x1B; videoPES upgrades video.StreamType to
+	//0x24 the moment we see an HEVC tag.
+	hls.Pat = newPAT(0x1B)
+	return nil
+}
+
+// handle adds one FLV tag to the current segment.
+func (hls *HLS) handle(tag libflv.Tag) error {
+	hls.work.Lock()
+	defer hls.work.Unlock()
+	if hls.stopRequested() {
+		return nil
+	}
+	switch t := tag.(type) {
+	case *libflv.AudioTag:
+		return hls.handleAudio(t)
+	case *libflv.VideoTag:
+		return hls.handleVideo(t)
+	}
+	return nil
+}
+
+// handleAudio groups AAC frames to PES packets of cache_max_frames.
+func (hls *HLS) handleAudio(pa *libflv.AudioTag) error {
+	if pa.SoundFormat != libflv.FLV_AUDIO_AAC {
+		return nil
+	}
+	if pa.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+		//The frames so far belong to the configuration so far.
+		err := hls.flushAudio()
+		if err := hls.Ah.Parse(pa.Data()); err != nil {
+			fmt.Printf("parse aac header error:%+v\n", err)
+		}
+		return err
+	}
+	if hls.currentFile == nil {
+		//No segment yet: drop tags until the first keyframe arrives.
+		//Avoids emitting a segment that doesn't start at an IDR.
+		return nil
+	}
+
+	rate := 44100
+	if hls.Ah.SampleRate <= uint8(len(libaac.AACRates)-1) {
+		rate = libaac.AACRates[hls.Ah.SampleRate]
+	}
+	inc := uint32(90000 * 1024 / rate)
+	dts := uint64(pa.GetTagInfo().TimeStamp) * 90
+	hls.align.align(&dts, inc)
+
+	//Only the first frame of a group has a timestamp, the others
+	//follow without a gap.
+	if num := hls.audioCache.CacheNum(); num > 0 && dts != hls.audioCache.pts+uint64(num)*uint64(inc) {
+		if err := hls.flushAudio(); err != nil {
+			return err
 		}
+	}
+	hls.audioCache.Cache(append(hls.Ah.Adts(pa.Data()), pa.Data()...), dts)
+	if hls.audioCache.CacheNum() < cache_max_frames {
+		return nil
+	}
+	return hls.flushAudio()
+}
 
-		//Segment rotation decision — performed on keyframes only so
-		//every .ts begins with an IDR frame and is independently
-		//decodable. Duration is tracked in 90 kHz PTS units because
-		//that's what we already multiply the FLV timestamps by.
-		if videoFrameKey {
-			if hls.currentFile == nil {
-				if err := hls.openSegment(pes.DTS); err != nil {
+// flushAudio writes the audio frames grouped so far.
+func (hls *HLS) flushAudio() error {
+	if hls.audioCache.CacheNum() == 0 {
+		return nil
+	}
+	_, pts, data := hls.audioCache.GetFrame()
+	if hls.currentFile == nil {
+		return nil
+	}
+	pes := hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
+	pes.PTS_DTSFlag = 0x02
+	pes.PESHeaderDataLength = 0x05
+	pes.Index = 0
+	pes.HeaderIndex = 0
+	pes.Data = data
+	pes.PTS = pts
+	pes.DTS = pts
+	return hls.mux(pes, libmpeg.AUDIO_PID, false)
+}
+
+func (hls *HLS) handleVideo(pv *libflv.VideoTag) error {
+	pes, key, skip := hls.videoPES(pv)
+	if skip {
+		return nil
+	}
+
+	//Segment rotation decision — performed on keyframes only so
+	//every .ts begins with an IDR frame and is independently
+	//decodable. Duration is tracked in 90 kHz PTS units because
+	//that's what we already multiply the FLV timestamps by.
+	if hls.currentFile == nil {
+		//No segment yet: drop tags until the first keyframe arrives.
+		if !key {
+			return nil
+		}
+		if err := hls.openSegment(pes.DTS); err != nil {
+			return err
+		}
+	} else {
+		if d := elapsed(hls.currentEndDTS, pes.DTS); d > 0 {
+			hls.lastInterval = uint64(d)
+		}
+		if key {
+			curDur := elapsed(hls.currentStartDTS, pes.DTS)
+			if curDur < 0 || float64(curDur)/90000*float64(time.Second) >= float64(hls.targetDur) {
+				if err := hls.rotate(pes.DTS); err != nil {
 					return err
 				}
-			} else {
-				curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
-				if curDur*float64(time.Second) >= float64(hls.targetDur) {
-					if err := hls.rotate(pes.DTS); err != nil {
-						return err
-					}
-				}
 			}
-		} else if hls.currentFile == nil {
-			//No segment yet: drop tags until the first keyframe
-			//arrives. Avoids emitting a segment that doesn't start at
-			//an IDR.
-			continue
 		}
+		hls.currentEndDTS = pes.DTS
+	}
 
-		//PAT/PMT periodicity: re-inject every psiInterval so clients
-		//that join decoding mid-segment find a PSI quickly.
-		if time.Since(hls.lastPSI) >= psiInterval {
-			if err := hls.writePSI(); err != nil {
-				return err
-			}
+	if err := hls.mux(pes, libmpeg.VIDEO_PID, key); err != nil {
+		return err
+	}
+
+	//LL-HLS partial-segment boundary check. Close the current part
+	//once it has accumulated at least PART-TARGET seconds of media
+	//or whenever a fresh keyframe arrived (so subsequent parts
+	//align with sub-GOP boundaries when the encoder emits short
+	//GOPs). Performed AFTER muxing so the just-written PES belongs
+	//to the part we're closing — the next part starts at the
+	//current write offset.
+	if hls.llEnabled {
+		partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+		if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
+			hls.closeCurrentPart(pes.DTS, false)
 		}
+	}
+	return nil
+}
 
-		firstTS := true
-		for {
-			finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
-			if muxErr != nil {
-				fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-				continue outer
-			}
-			firstTS = false
-			if finish {
-				break
-			}
+// elapsed returns the time between two 90 kHz timestamps. They count
+// modulo 2^33, like on the wire.
+func elapsed(from, to uint64) int64 {
+	return int64((to-from)<<31) >> 31
+}
+
+// mux writes one access unit to the current segment.
+func (hls *HLS) mux(pes *libmpeg.PES, pid uint16, key bool) error {
+	//PAT/PMT periodicity: re-inject every psiInterval so clients
+	//that join decoding mid-segment find a PSI quickly.
+	if time.Since(hls.lastPSI) >= psiInterval {
+		if err := hls.writePSI(); err != nil {
+			return err
 		}
-		if pes.DTS > hls.currentEndDTS {
-			hls.currentEndDTS = pes.DTS
+	}
+	firstTS := true
+	for {
+		finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, key && firstTS, pes.DTS, hls.currentWriter)
+		if muxErr != nil {
+			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+			return nil
 		}
-
-		//LL-HLS partial-segment boundary check. Close the current part
-		//once it has accumulated at least PART-TARGET seconds of media
-		//or whenever a fresh keyframe arrived (so subsequent parts
-		//align with sub-GOP boundaries when the encoder emits short
-		//GOPs). Performed AFTER muxing so the just-written PES belongs
-		//to the part we're closing — the next part starts at the
-		//current write offset.
-		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
-			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-				hls.closeCurrentPart(pes.DTS, false)
-			}
+		firstTS = false
+		if finish {
+			return nil
 		}
 	}
 }
 
-// toPES lifts an FLV tag into a libmpeg.PES plus routing metadata. It
-// returns skip=true when the tag should be dropped (unsupported codec,
-// sequence header, or audio still buffering in the ADTS cache).
-func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bool, skip bool) {
-	switch tag.GetTagInfo().TagType {
-	case libflv.AUDIO_TAG:
-		pa, _ := tag.(*libflv.AudioTag)
-		switch pa.SoundFormat {
-		case libflv.FLV_AUDIO_AAC:
-			if pa.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
-				if err := hls.Ah.Parse(pa.Data()); err != nil {
-					fmt.Printf("parse aac header error:%+v\n", err)
-				}
-				return nil, 0, false, true
-			}
-			pid = libmpeg.AUDIO_PID
-			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
-			pes.PTS_DTSFlag = 0x02
-			pes.PESHeaderDataLength = 0x05
-			pes.Index = 0
-			pes.HeaderIndex = 0
-
-			aacHeader := hls.Ah.Adts(pa.Data())
-			pes.Data = append(aacHeader, pa.Data()...)
-
-			rate := 44100
-			if hls.Ah.SampleRate <= uint8(len(libaac.AACRates)-1) {
-				rate = libaac.AACRates[hls.Ah.SampleRate]
-			}
-			hls.align.align(&pes.DTS, uint32(90000*1024/rate))
-			pes.PTS = pes.DTS
+// videoPES lifts a video tag into a libmpeg.PES. It returns skip=true
+// when the tag is not a frame of a supported codec.
+func (hls *HLS) videoPES(pv *libflv.VideoTag) (pes *libmpeg.PES, key bool, skip bool) {
+	if pv.CodecID != libflv.FLV_VIDEO_AVC && pv.CodecID != libflv.FLV_VIDEO_HEVC {
+		return nil, false, true
+	}
+	pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
+	//Toggle the video stream_type to HEVC the first time we see it —
+	//emitted segments past this point will advertise stream_type=0x24
+	//(HEVC) in their PMT.
+	pes.StreamType = 0x1B
+	if pv.CodecID == libflv.FLV_VIDEO_HEVC {
+		pes.StreamType = 0x24
+	}
 
-			hls.audioCache.Cache(pes.Data, pes.PTS)
-			if hls.audioCache.CacheNum() < cache_max_frames {
-				return nil, 0, false, true
-			}
-			_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
-			pes.DTS = pes.PTS
-			return pes, pid, false, false
-		default:
-			return nil, 0, false, true
+	if pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		if pv.FrameType != libflv.KEY_FRAME {
+			return nil, false, true
 		}
-
-	case libflv.VIDEO_TAG:
-		pv, _ := tag.(*libflv.VideoTag)
-		switch pv.CodecID {
-		case libflv.FLV_VIDEO_AVC:
-			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				if err := hls.AvcParser.ParseSpecificInfo(pv.Data()); err != nil {
-					fmt.Printf("parse avc header error:%+v\n", err)
-				}
-				return nil, 0, false, true
-			}
-			videoKey = pv.FrameType == libflv.KEY_FRAME
-			pid = libmpeg.VIDEO_PID
-			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
-			pes.StreamType = 0x1B
-
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
-			pes.PTS = pes.DTS
-			pes.PTS_DTSFlag = 0x02
-			pes.PESHeaderDataLength = 0x05
-			pes.Index = 0
-			pes.HeaderIndex = 0
-
-			if hls.AvcParser.IsNaluHeader(pv.Data()) {
-				pes.Data = pv.Data()
-			} else {
-				buf := bytes.NewBuffer([]byte{})
-				if err := hls.AvcParser.GetAnnexbH264(pv.Data(), easyio.NewEasyWriter(buf)); err != nil {
-					fmt.Printf("AvcParser.GetAnnexbH264 error:%+v\n", err)
-					return nil, 0, false, true
-				}
-				data, err := io.ReadAll(buf)
-				if err != nil {
-					fmt.Printf("io.ReadAll error:%+v\n", err)
-					return nil, 0, false, true
-				}
-				pes.Data = data
-			}
-			if pv.Cts != 0 {
-				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
-			}
-			return pes, pid, videoKey, false
-
-		case libflv.FLV_VIDEO_HEVC:
-			//Toggle the video stream_type to HEVC the first time we
-			//see it — emitted segments past this point will advertise
-			//stream_type=0x24 (HEVC) in their PMT.
-			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
-			pes.StreamType = 0x24
-
-			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				//HEVCDecoderConfigurationRecord — publishers also send
-				//VPS/SPS/PPS in-band ahead of every IDR, so we don't
-				//need to memoise them for the muxer.
-				return nil, 0, false, true
-			}
-			videoKey = pv.FrameType == libflv.KEY_FRAME
-			pid = libmpeg.VIDEO_PID
-
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
-			pes.PTS = pes.DTS
-			pes.PTS_DTSFlag = 0x02
-			pes.PESHeaderDataLength = 0x05
-			pes.Index = 0
-			pes.HeaderIndex = 0
-			pes.Data = avccToAnnexB(pv.Data())
-			if pv.Cts != 0 {
-				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
-			}
-			return pes, pid, videoKey, false
-
-		default:
-			return nil, 0, false, true
+		if pv.CodecID == libflv.FLV_VIDEO_HEVC {
+			hls.hevcSets = hevcParameterSets(pv.Data())
+		} else if err := hls.AvcParser.ParseSpecificInfo(pv.Data()); err != nil {
+			fmt.Printf("parse avc header error:%+v\n", err)
+		}
+		return nil, false, true
+	}
+	if pv.AVCPacketType != libflv.AVC_NALU {
+		return nil, false, true
+	}
+	key = pv.FrameType == libflv.KEY_FRAME
+
+	//AnnexB is not what FLV carries, but some publishers send it. The
+	//start code also reads as the length of a NAL unit of 1 byte.
+	nals, framed := splitAVCC(pv.Data())
+	switch {
+	case framed && len(nals) == 0:
+		return nil, false, true
+	case !framed && hls.AvcParser.IsNaluHeader(pv.Data()):
+		pes.Data = pv.Data()
+	case pv.CodecID == libflv.FLV_VIDEO_AVC:
+		buf := bytes.NewBuffer([]byte{})
+		if err := hls.AvcParser.GetAnnexbH264(pv.Data(), easyio.NewEasyWriter(buf)); err != nil {
+			fmt.Printf("AvcParser.GetAnnexbH264 error:%+v\n", err)
+			return nil, false, true
+		}
+		pes.Data = buf.Bytes()
+	default:
+		pes.Data = hls.annexBHEVC(nals, key)
+		if len(pes.Data) == 0 {
+			return nil, false, true
 		}
 	}
-	return nil, 0, false, true
+
+	pes.DTS = uint64(pv.GetTagInfo().TimeStamp) * 90
+	pes.PTS = pes.DTS
+	pes.PTS_DTSFlag = 0x02
+	pes.PESHeaderDataLength = 0x05
+	pes.Index = 0
+	pes.HeaderIndex = 0
+	if pv.Cts != 0 {
+		pes.PTS_DTSFlag = 0x03
+		pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
+	}
+	return pes, key, false
 }
 
 // newPAT builds the canonical PAT/PMT skeleton used by openSegment.
@@ -570,22 +636,62 @@ func newPAT(videoStreamType uint8) *libmpeg.PAT {
 	}
 }
 
-// avccToAnnexB rewrites a 4-byte length-prefixed NAL stream into an
-// AnnexB stream (start code 0x00000001 between NALs). Codec-agnostic —
-// works for both H.264 and HEVC since both use the same AVCC framing
-// in FLV.
-func avccToAnnexB(buf []byte) []byte {
-	out := make([]byte, 0, len(buf)+16)
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
-			int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
-		if size <= 0 || off+size > len(buf) {
-			break
+// splitAVCC returns the NAL units of a frame of 4-byte length-prefixed
+// NAL units, up to the first one that is damaged. Codec-agnostic — both
+// H.264 and HEVC use the same framing in FLV.
+func splitAVCC(buf []byte) (nals [][]byte, complete bool) {
+	for len(buf) >= 4 {
+		size := int(buf[0])<<24 | int(buf[1])<<16 | int(buf[2])<<8 | int(buf[3])
+		if size <= 0 || size > len(buf)-4 {
+			return nals, false
 		}
+		nals = append(nals, buf[4:4+size])
+		buf = buf[4+size:]
+	}
+	return nals, len(buf) == 0
+}
+
+// annexBHEVC renders a frame as an AnnexB stream (start code 0x00000001
+// before each NAL). A keyframe without parameter sets gets those of the
+// sequence header.
+func (hls *HLS) annexBHEVC(nals [][]byte, key bool) (out []byte) {
+	if len(nals) == 0 {
+		return nil
+	}
+	hasSPS := false
+	for _, nal := range nals {
+		hasSPS = hasSPS || (nal[0]>>1)&0x3f == 33
+	}
+	if key && !hasSPS {
+		out = append(out, hls.hevcSets...)
+	}
+	for _, nal := range nals {
 		out = append(out, 0x00, 0x00, 0x00, 0x01)
-		out = append(out, buf[off:off+size]...)
-		off += size
+		out = append(out, nal...)
+	}
+	return out
+}
+
+// hevcParameterSets returns the NAL units of an
+// HEVCDecoderConfigurationRecord as an AnnexB stream.
+func hevcParameterSets(record []byte) (out []byte) {
+	if len(record) < 23 {
+		return nil
+	}
+	arrays := int(record[22])
+	p := record[23:]
+	for i := 0; i < arrays && len(p) >= 3; i++ {
+		num := int(p[1])<<8 | int(p[2])
+		p = p[3:]
+		for j := 0; j < num && len(p) >= 2; j++ {
+			size := int(p[0])<<8 | int(p[1])
+			if p = p[2:]; size > len(p) {
+				return out
+			}
+			out = append(out, 0x00, 0x00, 0x00, 0x01)
+			out = append(out, p[:size]...)
+			p = p[size:]
+		}
 	}
 	return out
 }
@@ -688,13 +794,21 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
-	hls.finaliseCurrent()
+	if err := hls.flushAudio(); err != nil {
+		return err
+	}
+	end := nextStartDTS
+	if elapsed(hls.currentEndDTS, nextStartDTS) <= 0 {
+		//The timestamps start over.
+		end = hls.currentEndDTS + hls.lastInterval
+	}
+	hls.finaliseCurrent(end)
 	return hls.openSegment(nextStartDTS)
 }
 
-// finaliseCurrent closes and records the in-progress segment. Safe to
-// call when no segment is open.
-func (hls *HLS) finaliseCurrent() {
+// finaliseCurrent closes and records the in-progress segment, whose last
+// frame is shown until endDTS. Safe to call when no segment is open.
+func (hls *HLS) finaliseCurrent(endDTS uint64) {
 	if hls.currentFile == nil {
 		return
 	}
@@ -702,7 +816,7 @@ func (hls *HLS) finaliseCurrent() {
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
 	if hls.llEnabled && hls.currentBytes > hls.partStartOffset {
-		hls.closeCurrentPart(hls.currentEndDTS, false)
+		hls.closeCurrentPart(endDTS, false)
 	}
 
 	name := filepath.Base(hls.currentFile.Name())
@@ -710,7 +824,7 @@ func (hls *HLS) finaliseCurrent() {
 	hls.currentFile = nil
 	hls.currentWriter = nil
 
-	duration := float64(hls.currentEndDTS-hls.currentStartDTS) / 90000.0
+	duration := float64(elapsed(hls.currentStartDTS, endDTS)) / 90000.0
 	if duration <= 0 {
 		//Never observed a second tick; assume a minimum so the
 		//playlist target duration calculation doesn't underflow.
-- 
2.43.0


From 90cde9a9f0414ae66e477c18a992d083ebf479f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 28/48] fix: libhls: LL-HLS parts tile their segment within
 PART-TARGET, blocking reloads wait for what they ask

The part of a frame includes the time the frame is shown, the rest of a
segment is always a part, and a reload for a complete segment, or for a
part of the next one, is not answered early.
---
 libhls/hls.go     | 164 +++++++++++++++++++++-------------------------
 librtmp/server.go |   5 +-
 2 files changed, 80 insertions(+), 89 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index dfe348f..bb00de5 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sync"
@@ -86,6 +87,7 @@ type HLS struct {
 	lastInterval    uint64 //between the last two video frames
 	partStartDTS    uint64
 	partStartOffset int64
+	frameOffset     int64 //offset of the last video frame in currentFile
 	currentBytes    int64 //running offset into currentFile
 	lastPSI         time.Time
 
@@ -193,80 +195,65 @@ func (hls *HLS) Path(file string) (path string, ok bool) {
 func (hls *HLS) Playlist() []byte {
 	hls.mu.Lock()
 	defer hls.mu.Unlock()
-	if len(hls.segments) == 0 && !hls.llEnabled {
-		return nil
-	}
+	return hls.playlist()
+}
+
+// playlist is Playlist with mu held.
+func (hls *HLS) playlist() []byte {
 	if !hls.llEnabled {
 		return buildPlaylist(hls.segments)
 	}
+	//No part may be longer than PART-TARGET, but frames can be.
+	partTarget := hls.partTargetDur
+	longest := func(parts []partInfo) {
+		for _, p := range parts {
+			if d := time.Duration(math.Ceil(p.duration*1000)) * time.Millisecond; d > partTarget {
+				partTarget = d
+			}
+		}
+	}
+	for _, s := range hls.segments {
+		longest(s.parts)
+	}
+	longest(hls.currentParts)
 	return buildLLPlaylist(playlistInputs{
 		segments:      hls.segments,
 		nextSeq:       hls.nextSeq,
 		currentParts:  append([]partInfo(nil), hls.currentParts...),
 		currentName:   hls.currentSegName,
-		partTargetDur: hls.partTargetDur,
+		partTargetDur: partTarget,
 	})
 }
 
 // WaitForPlaylist returns the LL-HLS playlist for which the given
-// _HLS_msn / _HLS_part has become available. If wantMSN is negative
-// the call returns immediately with whatever is current. Times out
-// after timeout (returns the current playlist anyway, matching the
-// "respond with stale playlist" guidance from Apple's spec).
+// _HLS_msn / _HLS_part has become available; a negative part asks for
+// the complete segment. If wantMSN is negative the call returns
+// immediately with whatever is current. Times out after timeout (returns
+// the current playlist anyway, matching the "respond with stale
+// playlist" guidance from Apple's spec).
 func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration) []byte {
-	deadline := time.Now().Add(timeout)
 	hls.mu.Lock()
-	for {
-		if !hls.llEnabled || wantMSN < 0 {
-			break
-		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
-		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
+	defer hls.mu.Unlock()
+	expired := false
+	//Cond.Wait releases mu while parked; broadcasts come from the
+	//writer goroutine after each part is recorded.
+	timer := time.AfterFunc(timeout, func() {
+		hls.mu.Lock()
+		expired = true
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
+	})
+	defer timer.Stop()
+	for hls.llEnabled && wantMSN >= 0 && !expired && !hls.stopRequested() {
+		if wantMSN < hls.nextSeq {
 			break
 		}
-		now := time.Now()
-		if !now.Before(deadline) {
+		if wantMSN == hls.nextSeq && wantPart >= 0 && wantPart < len(hls.currentParts) {
 			break
 		}
-		//Cond.Wait releases mu while parked; broadcasts come from the
-		//writer goroutine after each part is recorded.
-		waitCh := make(chan struct{})
-		go func(d time.Duration) {
-			time.Sleep(d)
-			hls.mu.Lock()
-			hls.cond.Broadcast()
-			hls.mu.Unlock()
-			close(waitCh)
-		}(deadline.Sub(now))
 		hls.cond.Wait()
-		select {
-		case <-waitCh:
-		default:
-		}
-	}
-	if len(hls.segments) == 0 && !hls.llEnabled {
-		hls.mu.Unlock()
-		return nil
 	}
-	if !hls.llEnabled {
-		out := buildPlaylist(hls.segments)
-		hls.mu.Unlock()
-		return out
-	}
-	out := buildLLPlaylist(playlistInputs{
-		segments:      hls.segments,
-		nextSeq:       hls.nextSeq,
-		currentParts:  append([]partInfo(nil), hls.currentParts...),
-		currentName:   hls.currentSegName,
-		partTargetDur: hls.partTargetDur,
-	})
-	hls.mu.Unlock()
-	return out
+	return hls.playlist()
 }
 
 // currentSegmentName is unused; kept for backward compatibility.
@@ -476,27 +463,27 @@ func (hls *HLS) handleVideo(pv *libflv.VideoTag) error {
 				}
 			}
 		}
+		if hls.llEnabled && hls.currentEndDTS != pes.DTS {
+			hls.cutParts(pes.DTS)
+		}
 		hls.currentEndDTS = pes.DTS
 	}
+	hls.frameOffset = hls.currentBytes
+	return hls.mux(pes, libmpeg.VIDEO_PID, key)
+}
 
-	if err := hls.mux(pes, libmpeg.VIDEO_PID, key); err != nil {
-		return err
+// cutParts closes the current part before a video frame at nextDTS, if
+// it would exceed PART-TARGET with the next one. The frame before it,
+// which is shown until then, goes to the next part when this one would
+// be too long.
+func (hls *HLS) cutParts(nextDTS uint64) {
+	target := int64(hls.partTargetDur * 9 / 100000)
+	if elapsed(hls.partStartDTS, nextDTS) > target && elapsed(hls.partStartDTS, hls.currentEndDTS) > 0 {
+		hls.closeCurrentPart(hls.currentEndDTS, hls.frameOffset)
 	}
-
-	//LL-HLS partial-segment boundary check. Close the current part
-	//once it has accumulated at least PART-TARGET seconds of media
-	//or whenever a fresh keyframe arrived (so subsequent parts
-	//align with sub-GOP boundaries when the encoder emits short
-	//GOPs). Performed AFTER muxing so the just-written PES belongs
-	//to the part we're closing — the next part starts at the
-	//current write offset.
-	if hls.llEnabled {
-		partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
-		if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
-			hls.closeCurrentPart(pes.DTS, false)
-		}
+	if elapsed(hls.partStartDTS, nextDTS) >= target {
+		hls.closeCurrentPart(nextDTS, hls.currentBytes)
 	}
-	return nil
 }
 
 // elapsed returns the time between two 90 kHz timestamps. They count
@@ -713,6 +700,7 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.currentEndDTS = startDTS
 	hls.partStartDTS = startDTS
 	hls.partStartOffset = 0
+	hls.frameOffset = 0
 
 	hls.mu.Lock()
 	hls.currentSegName = name
@@ -725,20 +713,19 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	return hls.writePSI()
 }
 
-// closeCurrentPart records the bytes written since the last part
-// boundary as a partInfo on the in-progress segment, broadcasts the
+// closeCurrentPart records the bytes from the last part boundary up to
+// endOffset as a partInfo on the in-progress segment, broadcasts the
 // cond so blocking-reload clients can wake up, and starts a new part
-// from the current write offset. independent indicates whether the
-// new (next) part will start with a keyframe.
-func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
+// there.
+func (hls *HLS) closeCurrentPart(endDTS uint64, endOffset int64) {
 	if hls.currentFile == nil {
 		return
 	}
-	dur := float64(endDTS-hls.partStartDTS) / 90000.0
+	dur := float64(elapsed(hls.partStartDTS, endDTS)) / 90000.0
 	if dur <= 0 {
 		return
 	}
-	length := hls.currentBytes - hls.partStartOffset
+	length := endOffset - hls.partStartOffset
 	if length <= 0 {
 		return
 	}
@@ -754,8 +741,7 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	hls.mu.Unlock()
 
 	hls.partStartDTS = endDTS
-	hls.partStartOffset = hls.currentBytes
-	_ = nextIndependent //tracked via the "first part of new segment" rule
+	hls.partStartOffset = endOffset
 }
 
 // countingWriter wraps an io.Writer and increments *n by the number of
@@ -812,11 +798,20 @@ func (hls *HLS) finaliseCurrent(endDTS uint64) {
 	if hls.currentFile == nil {
 		return
 	}
+	duration := float64(elapsed(hls.currentStartDTS, endDTS)) / 90000.0
+	if duration <= 0 {
+		//Never observed a second tick; assume a minimum so the
+		//playlist target duration calculation doesn't underflow.
+		duration = float64(hls.targetDur) / float64(time.Second)
+		endDTS = hls.currentStartDTS + uint64(hls.targetDur*9/100000)
+	}
+
 	//Flush any tail bytes since the last part boundary into one final
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
-	if hls.llEnabled && hls.currentBytes > hls.partStartOffset {
-		hls.closeCurrentPart(endDTS, false)
+	if hls.llEnabled {
+		hls.cutParts(endDTS)
+		hls.closeCurrentPart(endDTS, hls.currentBytes)
 	}
 
 	name := filepath.Base(hls.currentFile.Name())
@@ -824,13 +819,6 @@ func (hls *HLS) finaliseCurrent(endDTS uint64) {
 	hls.currentFile = nil
 	hls.currentWriter = nil
 
-	duration := float64(elapsed(hls.currentStartDTS, endDTS)) / 90000.0
-	if duration <= 0 {
-		//Never observed a second tick; assume a minimum so the
-		//playlist target duration calculation doesn't underflow.
-		duration = float64(hls.targetDur) / float64(time.Second)
-	}
-
 	hls.mu.Lock()
 	seg := segmentInfo{
 		filename: name,
diff --git a/librtmp/server.go b/librtmp/server.go
index 4c5c4b6..9ac324d 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -410,7 +410,10 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			var playlist []byte
 			if msnStr := q.Get("_HLS_msn"); msnStr != "" {
 				msn, _ := strconv.Atoi(msnStr)
-				part, _ := strconv.Atoi(q.Get("_HLS_part"))
+				part := -1
+				if partStr := q.Get("_HLS_part"); partStr != "" {
+					part, _ = strconv.Atoi(partStr)
+				}
 				//Apple recommends timeout ~= 3 * PART-TARGET; use 3 s
 				//as a safe floor so even non-LL mode answers promptly.
 				timeout := 3 * hls.PartTargetDur()
-- 
2.43.0


From 708d5a5a47945d779bc4ee27afc73e2565d59d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:08 +0000
Subject: [PATCH 29/48] fix: libhls: parameter sets go behind the access unit
 delimiter, zero-length frames at the end of a segment are in a part

---
 libhls/hls.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index bb00de5..223416d 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -478,7 +478,8 @@ func (hls *HLS) handleVideo(pv *libflv.VideoTag) error {
 // be too long.
 func (hls *HLS) cutParts(nextDTS uint64) {
 	target := int64(hls.partTargetDur * 9 / 100000)
-	if elapsed(hls.partStartDTS, nextDTS) > target && elapsed(hls.partStartDTS, hls.currentEndDTS) > 0 {
+	if elapsed(hls.partStartDTS, nextDTS) > target && elapsed(hls.partStartDTS, hls.currentEndDTS) > 0 &&
+		elapsed(hls.currentEndDTS, nextDTS) > 0 {
 		hls.closeCurrentPart(hls.currentEndDTS, hls.frameOffset)
 	}
 	if elapsed(hls.partStartDTS, nextDTS) >= target {
@@ -649,10 +650,13 @@ func (hls *HLS) annexBHEVC(nals [][]byte, key bool) (out []byte) {
 	for _, nal := range nals {
 		hasSPS = hasSPS || (nal[0]>>1)&0x3f == 33
 	}
-	if key && !hasSPS {
-		out = append(out, hls.hevcSets...)
-	}
-	for _, nal := range nals {
+	for i, nal := range nals {
+		//An access unit delimiter comes before the parameter sets.
+		isAUD := (nal[0]>>1)&0x3f == 35
+		if key && !hasSPS && (i > 0 || !isAUD) {
+			out = append(out, hls.hevcSets...)
+			hasSPS = true
+		}
 		out = append(out, 0x00, 0x00, 0x00, 0x01)
 		out = append(out, nal...)
 	}
@@ -784,7 +788,7 @@ func (hls *HLS) rotate(nextStartDTS uint64) error {
 		return err
 	}
 	end := nextStartDTS
-	if elapsed(hls.currentEndDTS, nextStartDTS) <= 0 {
+	if elapsed(hls.currentEndDTS, nextStartDTS) < 0 {
 		//The timestamps start over.
 		end = hls.currentEndDTS + hls.lastInterval
 	}
@@ -811,6 +815,10 @@ func (hls *HLS) finaliseCurrent(endDTS uint64) {
 	//for this MSN.
 	if hls.llEnabled {
 		hls.cutParts(endDTS)
+		if elapsed(hls.partStartDTS, endDTS) <= 0 {
+			//Frames without a duration of their own.
+			endDTS = hls.partStartDTS + 90
+		}
 		hls.closeCurrentPart(endDTS, hls.currentBytes)
 	}
 
-- 
2.43.0


From be52a6f554b978f3b950339db3adf4de27c37085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 30/48] fix: libdash: segments, manifest and init segments
 match the stream

Every frame is in a segment with its decode time, the timeline says what
the segments hold, each decoder configuration is a Period with its own
init segment, and Stop leaves nothing behind.
---
 libdash/dash.go        | 615 +++++++++++++++++++++++++----------------
 libdash/mpd.go         |  87 ++++--
 libmp4/init_segment.go |  10 +-
 3 files changed, 447 insertions(+), 265 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 086c956..0836397 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -6,6 +6,7 @@
 // Output layout, mirroring the libhls convention:
 //
 //	<dir>/<streamID>-init.mp4         //ftyp + moov (init segment)
+//	<dir>/<streamID>~<n>-init.mp4     //that of the n-th change of the configuration
 //	<dir>/<streamID>-<seq>.m4s        //moof + mdat per fragment
 //
 // Manifest path is /<app>/<streamID>/index.mpd (constructed in the
@@ -13,8 +14,10 @@
 package libdash
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math/bits"
 	"os"
 	"path/filepath"
 	"sync"
@@ -37,6 +40,22 @@ type segmentInfo struct {
 	filename  string
 	startTime uint64 //in track timescale units
 	duration  uint64 //in track timescale units
+	period    *period
+}
+
+// period is a part of the stream with one decoder configuration.
+type period struct {
+	id       int
+	initName string
+	record   []byte //sequence header
+	codec    string //"avc1.42E01E" or "hev1.…" derived at init time
+	isHEVC   bool
+	width    uint16
+	height   uint16
+	init     []byte //init segment
+	start    uint64 //DTS of its first segment, in track timescale units
+	offset   uint64 //the same, from the start of the stream
+	started  bool
 }
 
 // DASH is the per-stream segmenter. Lifecycle: NewDASH().WithDir(...).
@@ -49,23 +68,22 @@ type DASH struct {
 	windowSize int
 	timescale  uint32
 
-	// Decoder configuration learned from the video sequence header.
-	mu          sync.Mutex
-	cond        *sync.Cond
-	codec       string //"avc1.42E01E" or "hvc1.…" derived at init time
-	isHEVC      bool
-	sps         []byte
-	pps         []byte
-	hvccRecord  []byte //full HEVCDecoderConfigurationRecord, HEVC only
-	width       uint16
-	height      uint16
-	initBytes   []byte
-	initWritten bool
-
-	segments    []segmentInfo
-	nextSeq     int
+	// work is held while a tag is handled, and by Stop.
+	work           sync.Mutex
 	currentSamples []sampleWithTime
-	availabilityStart time.Time
+	lastTimestamp  uint32 //of the last video tag
+	lastDTS        uint64 //the same, not wrapping
+	lastInterval   uint64
+	seenTimestamp  bool
+
+	mu                sync.Mutex
+	cond              *sync.Cond
+	current           *period //nil before the first sequence header
+	segments          []segmentInfo
+	nextSeq           int
+	availabilityStart time.Time //of the first sample
+	firstDTS          uint64
+	seenSample        bool
 
 	ready     chan struct{}
 	readyOnce sync.Once
@@ -88,7 +106,6 @@ func NewDASH() *DASH {
 		targetDur:         2 * time.Second,
 		windowSize:        6,
 		timescale:         defaultTimescale,
-		availabilityStart: time.Now().UTC(),
 	}
 	d.cond = sync.NewCond(&d.mu)
 	d.ready = make(chan struct{})
@@ -104,17 +121,22 @@ func (d *DASH) WithDir(dir string) *DASH {
 }
 func (d *DASH) Dir() string { return d.dir }
 
-func (d *DASH) initName() string { return safename.Escape(d.streamID) + "-init.mp4" }
+func (d *DASH) initName(id int) string {
+	if id == 0 {
+		return safename.Escape(d.streamID) + "-init.mp4"
+	}
+	return fmt.Sprintf("%s~%d-init.mp4", safename.Escape(d.streamID), id)
+}
 
-// Path returns the path of the init segment or of a media segment of
+// Path returns the path of an init segment or of a media segment of
 // this stream. Other files, and segments that are no longer available,
 // have none.
 func (d *DASH) Path(file string) (path string, ok bool) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	ok = d.initWritten && file == d.initName()
+	ok = d.current != nil && file == d.current.initName
 	for _, s := range d.segments {
-		ok = ok || s.filename == file
+		ok = ok || file == s.filename || file == s.period.initName
 	}
 	if !ok {
 		return "", false
@@ -123,16 +145,14 @@ func (d *DASH) Path(file string) (path string, ok bool) {
 }
 
 // InitSegment returns the bytes of the init segment (ftyp + moov) once
-// the AVC sequence header has been parsed. Returns nil before that.
+// the sequence header has been parsed. Returns nil before that.
 func (d *DASH) InitSegment() []byte {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if d.initBytes == nil {
+	if d.current == nil {
 		return nil
 	}
-	out := make([]byte, len(d.initBytes))
-	copy(out, d.initBytes)
-	return out
+	return append([]byte(nil), d.current.init...)
 }
 
 // Manifest renders the current dynamic .mpd. Returns nil before any
@@ -140,7 +160,7 @@ func (d *DASH) InitSegment() []byte {
 func (d *DASH) Manifest() []byte {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	if !d.initWritten || len(d.segments) == 0 {
+	if len(d.segments) == 0 {
 		return nil
 	}
 	return buildMPD(manifestInputs{
@@ -148,29 +168,36 @@ func (d *DASH) Manifest() []byte {
 		availabilityStart: d.availabilityStart,
 		timescale:         d.timescale,
 		targetDur:         d.targetDur,
-		width:             d.width,
-		height:            d.height,
-		codecStr:          d.codec,
 		segments:          append([]segmentInfo(nil), d.segments...),
 	})
 }
 
 func (d *DASH) WaitFirstSegment() { <-d.ready }
 
+// Stop shuts the segmenter down and removes its files. Nothing is
+// written once it has returned. Idempotent.
 func (d *DASH) Stop() {
 	if !atomic.CompareAndSwapInt32(&d.stopped, 0, 1) {
 		return
 	}
+	d.work.Lock()
+	defer d.work.Unlock()
+	d.currentSamples = nil
 	d.mu.Lock()
-	segs := append([]segmentInfo(nil), d.segments...)
+	files := map[string]bool{}
+	for _, s := range d.segments {
+		files[s.filename] = true
+		files[s.period.initName] = true
+	}
+	if d.current != nil {
+		files[d.current.initName] = true
+	}
 	d.segments = nil
+	d.current = nil
 	d.cond.Broadcast()
 	d.mu.Unlock()
-	for _, s := range segs {
-		_ = os.Remove(filepath.Join(d.dir, s.filename))
-	}
-	if d.streamID != "" {
-		_ = os.Remove(filepath.Join(d.dir, d.initName()))
+	for f := range files {
+		_ = os.Remove(filepath.Join(d.dir, f))
 	}
 	d.readyOnce.Do(func() { close(d.ready) })
 }
@@ -183,11 +210,15 @@ func (d *DASH) stopRequested() bool {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader libflv.TagReader) error {
-	if err := os.MkdirAll(d.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", d.dir, err)
+	if err := d.prepare(); err != nil {
+		return err
 	}
 	defer func() {
-		d.flushCurrent()
+		d.work.Lock()
+		if !d.stopRequested() {
+			d.flushAtEnd()
+		}
+		d.work.Unlock()
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
 
@@ -199,107 +230,167 @@ func (d *DASH) Start(gopReader libflv.TagReader) error {
 		if !alive {
 			return nil
 		}
-		tag, ok := p.(libflv.Tag)
-		if !ok {
-			continue
-		}
-		v, ok := tag.(*libflv.VideoTag)
+		v, ok := p.(*libflv.VideoTag)
 		if !ok {
 			continue //audio not yet supported in this minimal libdash
 		}
-		if v.CodecID != libflv.FLV_VIDEO_AVC && v.CodecID != libflv.FLV_VIDEO_HEVC {
-			continue
-		}
+		d.handle(v)
+	}
+}
 
-		switch v.AVCPacketType {
-		case libflv.AVC_SEQUENCE_HEADER:
-			if v.CodecID == libflv.FLV_VIDEO_HEVC {
-				if err := d.handleHEVCSequenceHeader(v.Data()); err != nil {
-					fmt.Printf("dash: parse HEVC sequence header: %v\n", err)
-				}
-			} else {
-				if err := d.handleSequenceHeader(v.Data()); err != nil {
-					fmt.Printf("dash: parse AVC sequence header: %v\n", err)
-				}
-			}
-			continue
-		case libflv.AVC_NALU:
-			//Sample data — fall through.
-		default:
-			continue
+func (d *DASH) prepare() error {
+	d.work.Lock()
+	defer d.work.Unlock()
+	if d.stopRequested() {
+		return nil
+	}
+	if err := os.MkdirAll(d.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", d.dir, err)
+	}
+	return nil
+}
+
+// handle adds a video tag to the current segment.
+func (d *DASH) handle(v *libflv.VideoTag) {
+	d.work.Lock()
+	defer d.work.Unlock()
+	if d.stopRequested() || (v.CodecID != libflv.FLV_VIDEO_AVC && v.CodecID != libflv.FLV_VIDEO_HEVC) {
+		return
+	}
+
+	switch v.AVCPacketType {
+	case libflv.AVC_SEQUENCE_HEADER:
+		if err := d.handleSequenceHeader(v.CodecID == libflv.FLV_VIDEO_HEVC, v.Data()); err != nil {
+			fmt.Printf("dash: sequence header: %v\n", err)
 		}
+		return
+	case libflv.AVC_NALU:
+		//Sample data — fall through.
+	default:
+		return
+	}
 
-		dts := uint64(v.GetTagInfo().TimeStamp) //ms
-		cts := int32(v.Cts)                     //ms
-		isKey := v.FrameType == libflv.KEY_FRAME
-
-		//Rotate on keyframes once the current segment has hit
-		//targetDur. The first sample of any segment must itself be a
-		//keyframe so the segment is independently decodable.
-		if isKey {
-			if len(d.currentSamples) > 0 {
-				curDur := dts - d.currentSamples[0].dts
-				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
-						fmt.Printf("dash: flush segment: %v\n", err)
-					}
-				}
-			}
-		} else if len(d.currentSamples) == 0 {
-			//Drop tags until the first IDR arrives.
-			continue
+	dts := d.unwrap(v.GetTagInfo().TimeStamp) //ms
+	isKey := v.FrameType == libflv.KEY_FRAME
+
+	//Rotate on keyframes once the current segment has hit
+	//targetDur. The first sample of any segment must itself be a
+	//keyframe so the segment is independently decodable.
+	if len(d.currentSamples) == 0 {
+		//Drop tags until the first IDR arrives, and while the sequence
+		//header hasn't arrived yet — without SPS/PPS we can't produce a
+		//playable stream.
+		if !isKey || d.current == nil {
+			return
 		}
-		if d.initBytes == nil {
-			//Sequence header hasn't arrived yet — without SPS/PPS we
-			//can't produce a playable stream.
-			continue
+	} else if isKey && dts-d.currentSamples[0].dts >= uint64(d.targetDur/time.Millisecond) {
+		if err := d.flushCurrent(dts); err != nil {
+			fmt.Printf("dash: flush segment: %v\n", err)
 		}
+	}
+	if len(v.Data()) == 0 {
+		return
+	}
 
-		d.currentSamples = append(d.currentSamples, sampleWithTime{
-			dts:  dts,
-			cts:  cts,
-			data: append([]byte(nil), v.Data()...),
-			key:  isKey,
-		})
+	if !d.seenSample {
+		d.mu.Lock()
+		d.seenSample = true
+		d.firstDTS = dts
+		d.availabilityStart = time.Now().UTC()
+		d.mu.Unlock()
+	}
+	d.currentSamples = append(d.currentSamples, sampleWithTime{
+		dts:  dts,
+		cts:  int32(v.Cts), //ms
+		data: append([]byte(nil), v.Data()...),
+		key:  isKey,
+	})
+}
+
+// unwrap turns the 32-bit timestamp of the next video tag to one that
+// never wraps or goes back.
+func (d *DASH) unwrap(timestamp uint32) uint64 {
+	if !d.seenTimestamp {
+		d.seenTimestamp = true
+		d.lastDTS = uint64(timestamp)
+	} else if diff := int32(timestamp - d.lastTimestamp); diff > 0 {
+		d.lastInterval = uint64(diff)
+		d.lastDTS += d.lastInterval
+	} else if diff < 0 {
+		//The publisher's clock started over.
+		d.lastDTS += d.lastInterval
+	}
+	d.lastTimestamp = timestamp
+	return d.lastDTS
+}
+
+// handleSequenceHeader starts a new period, unless the decoder
+// configuration is the one in force already.
+func (d *DASH) handleSequenceHeader(isHEVC bool, record []byte) error {
+	if d.current != nil && d.current.isHEVC == isHEVC && bytes.Equal(d.current.record, record) {
+		return nil
 	}
+	p := &period{isHEVC: isHEVC, record: append([]byte(nil), record...)}
+	if isHEVC {
+		if err := d.initHEVC(p); err != nil {
+			return err
+		}
+	} else if err := d.initAVC(p); err != nil {
+		return err
+	}
+
+	d.flushAtEnd()
+	if d.current != nil {
+		p.id = d.current.id + 1
+	}
+	p.initName = d.initName(p.id)
+	//Write init segment to disk so http.ServeFile can serve it.
+	if err := os.WriteFile(filepath.Join(d.dir, p.initName), p.init, 0o644); err != nil {
+		return fmt.Errorf("write init segment: %w", err)
+	}
+	d.mu.Lock()
+	old := d.current
+	d.current = p
+	d.removeInit(old)
+	d.mu.Unlock()
+	return nil
 }
 
-// handleHEVCSequenceHeader parses the FLV-carried
-// HEVCDecoderConfigurationRecord. We pull width/height by walking the
-// embedded SPS array, and embed the entire DCR verbatim into the
-// hvcC box.
-func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
-	w, h, codec, err := parseHEVCDCRDimensions(record)
+// removeInit deletes the init segment of a period no segment needs any
+// more. Called with mu held.
+func (d *DASH) removeInit(p *period) {
+	if p == nil || p == d.current {
+		return
+	}
+	for _, s := range d.segments {
+		if s.period == p {
+			return
+		}
+	}
+	_ = os.Remove(filepath.Join(d.dir, p.initName))
+}
+
+// initHEVC builds the init segment of an HEVCDecoderConfigurationRecord.
+// We pull width/height by walking the embedded SPS array, and embed the
+// entire DCR verbatim into the hvcC box.
+func (d *DASH) initHEVC(p *period) error {
+	w, h, codec, err := parseHEVCDCRDimensions(p.record)
 	if err != nil {
 		//Fall back to a placeholder codec string; many players accept
 		//missing dimensions when the in-band parameter sets later
 		//replenish them.
-		codec = "hvc1.1.6.L93.B0"
+		codec = "hev1.1.6.L93.B0"
 	}
-	d.mu.Lock()
-	d.isHEVC = true
-	d.codec = codec
-	d.hvccRecord = append([]byte(nil), record...)
-	d.width = w
-	d.height = h
-	d.initBytes = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{
+	p.codec = codec
+	p.width = w
+	p.height = h
+	p.init = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{
 		TrackID:    1,
 		Timescale:  d.timescale,
 		Width:      w,
 		Height:     h,
-		HVCCRecord: record,
+		HVCCRecord: p.record,
 	})
-	d.mu.Unlock()
-
-	if d.streamID != "" {
-		path := filepath.Join(d.dir, d.initName())
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
-			return fmt.Errorf("write init segment: %w", err)
-		}
-	}
-	d.mu.Lock()
-	d.initWritten = true
-	d.mu.Unlock()
 	return nil
 }
 
@@ -312,9 +403,7 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 		err = fmt.Errorf("HEVC DCR too short: %d", len(src))
 		return
 	}
-	profileIDC := src[1] & 0x1F
-	levelIDC := src[12]
-	codec = fmt.Sprintf("hvc1.%d.6.L%d.B0", profileIDC, levelIDC)
+	codec = hevcCodecString(src)
 
 	off := 22
 	if off >= len(src) {
@@ -349,13 +438,28 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 	return
 }
 
-// parseHEVCSPSDimensions extracts pic_width_in_luma_samples and
-// pic_height_in_luma_samples from an HEVC SPS. Limited to the prefix
-// bits up through those fields — anything beyond requires a full
-// HEVC syntax parser. Returns zeros if the SPS contains features
-// we can't quickly walk past (e.g. profile constraints with sub-layer
-// flags); the caller falls back to placeholder dimensions in that
-// case.
+// hevcCodecString renders the profile, tier, level and constraints of an
+// HEVCDecoderConfigurationRecord per ISO 14496-15 Annex E.
+func hevcCodecString(record []byte) string {
+	space := []string{"", "A", "B", "C"}[record[1]>>6]
+	tier := "L"
+	if record[1]&0x20 != 0 {
+		tier = "H"
+	}
+	compatibility := bits.Reverse32(binary.BigEndian.Uint32(record[2:6]))
+	codec := fmt.Sprintf("hev1.%s%d.%X.%s%d", space, record[1]&0x1f, compatibility, tier, record[12])
+	constraints := bytes.TrimRight(record[6:12], "\x00")
+	for _, c := range constraints {
+		codec += fmt.Sprintf(".%X", c)
+	}
+	return codec
+}
+
+// parseHEVCSPSDimensions extracts the size of the picture from an HEVC
+// SPS. Limited to the prefix bits up through the conformance window —
+// anything beyond requires a full HEVC syntax parser. Returns zeros if
+// the SPS is damaged; the caller falls back to placeholder dimensions in
+// that case.
 func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	if len(sps) < 16 {
 		return 0, 0
@@ -374,25 +478,22 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	//Skip 2-byte NAL header.
 	br := newBitReader(rbsp[2:])
 	_, _ = br.readBits(4) //sps_video_parameter_set_id
-	maxSubLayers, _ := br.readBits(3)
+	maxSubLayersMinus1, _ := br.readBits(3)
 	_, _ = br.readBits(1) //temporal_id_nesting_flag
 
-	//profile_tier_level — 12 bytes for the general profile + per
-	//sub-layer presence flags. Skip them as a block.
-	skipBytes := 12
-	for i := 0; i < skipBytes; i++ {
-		_, _ = br.readBits(8)
-	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	//profile_tier_level — 12 bytes for the general profile, then a
+	//profile and a level for each sub-layer that has one.
+	br.skip(12 * 8)
+	if maxSubLayersMinus1 > 0 {
+		flags, _ := br.readBits(16) //2 per sub-layer, reserved up to 8
+		for i := uint(0); i < uint(maxSubLayersMinus1); i++ {
+			if flags>>(15-2*i)&1 != 0 {
+				br.skip(11 * 8)
+			}
+			if flags>>(14-2*i)&1 != 0 {
+				br.skip(8)
+			}
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
@@ -400,87 +501,91 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	if chromaFormat == 3 {
 		_, _ = br.readBits(1)
 	}
-	_ = chromaFormat
-	w16 := br.readUE()
-	h16 := br.readUE()
-	w = uint16(w16)
-	h = uint16(h16)
-	return
+	width := uint64(br.readUE())
+	height := uint64(br.readUE())
+	if window, _ := br.readBits(1); window != 0 {
+		left, right := br.readUE(), br.readUE()
+		top, bottom := br.readUE(), br.readUE()
+		subWidth, subHeight := uint64(1), uint64(1)
+		if chromaFormat == 1 || chromaFormat == 2 {
+			subWidth = 2
+		}
+		if chromaFormat == 1 {
+			subHeight = 2
+		}
+		width = cropped(width, subWidth*(uint64(left)+uint64(right)))
+		height = cropped(height, subHeight*(uint64(top)+uint64(bottom)))
+	}
+	return br.dimensions(width, height)
 }
 
-// handleSequenceHeader parses the FLV-carried AVCDecoderConfigurationRecord
-// and, once SPS+PPS are known, produces and writes the init segment.
-func (d *DASH) handleSequenceHeader(record []byte) error {
-	sps, pps, w, h, err := parseAVCDCR(record)
+// cropped returns size without what is cut off it.
+func cropped(size, cut uint64) uint64 {
+	if cut >= size {
+		return 0
+	}
+	return size - cut
+}
+
+// initAVC builds the init segment of an AVCDecoderConfigurationRecord,
+// which is embedded verbatim into the avcC box.
+func (d *DASH) initAVC(p *period) error {
+	sps, pps, w, h, err := parseAVCDCR(p.record)
 	if err != nil {
 		return err
 	}
-	d.mu.Lock()
-	d.sps = sps
-	d.pps = pps
-	d.width = w
-	d.height = h
-	d.isHEVC = false
+	p.width = w
+	p.height = h
 	//Codec string per RFC 6381: avc1.PPCCLL where PP=profile,
 	//CC=constraints, LL=level — derived from SPS bytes 1..3.
 	if len(sps) >= 4 {
-		d.codec = fmt.Sprintf("avc1.%02X%02X%02X", sps[1], sps[2], sps[3])
+		p.codec = fmt.Sprintf("avc1.%02X%02X%02X", sps[1], sps[2], sps[3])
 	} else {
-		d.codec = "avc1.42E01E"
-	}
-	d.initBytes = libmp4.BuildInitSegment(libmp4.InitSegmentParams{
-		TrackID:   1,
-		Timescale: d.timescale,
-		Width:     w,
-		Height:    h,
-		SPS:       sps,
-		PPS:       pps,
-	})
-	d.mu.Unlock()
-
-	//Write init segment to disk so http.ServeFile can serve it.
-	if d.streamID != "" {
-		path := filepath.Join(d.dir, d.initName())
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
-			return fmt.Errorf("write init segment: %w", err)
-		}
+		p.codec = "avc1.42E01E"
 	}
-	d.mu.Lock()
-	d.initWritten = true
-	d.mu.Unlock()
+	p.init = libmp4.BuildInitSegment(libmp4.InitSegmentParams{
+		TrackID:    1,
+		Timescale:  d.timescale,
+		Width:      w,
+		Height:     h,
+		SPS:        sps,
+		PPS:        pps,
+		AVCCRecord: p.record,
+	})
 	return nil
 }
 
-// flushCurrent closes the in-progress segment, builds an fMP4 fragment
-// and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
-// reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
-		//Need at least one duration interval. Drop a single-sample
-		//tail rather than emit a malformed fragment.
-		d.currentSamples = d.currentSamples[:0]
-		return nil
+// flushAtEnd closes the in-progress segment when no frame follows that
+// tells how long the last one is shown.
+func (d *DASH) flushAtEnd() {
+	if len(d.currentSamples) == 0 {
+		return
 	}
-	d.mu.Lock()
-	seq := d.nextSeq
-	d.mu.Unlock()
+	last := d.lastInterval
+	if last == 0 {
+		last = 33 //~30fps fallback
+	}
+	if err := d.flushCurrent(d.currentSamples[len(d.currentSamples)-1].dts + last); err != nil {
+		fmt.Printf("dash: flush segment: %v\n", err)
+	}
+}
 
-	startTime := d.currentSamples[0].dts
-	samples := make([]libmp4.Sample, 0, len(d.currentSamples))
-	for i, s := range d.currentSamples {
-		var dur uint64
-		if i+1 < len(d.currentSamples) {
-			dur = d.currentSamples[i+1].dts - s.dts
-		} else {
-			//Last sample: use previous interval as a best-guess.
-			if i > 0 {
-				dur = s.dts - d.currentSamples[i-1].dts
-			} else {
-				dur = 33 //~30fps fallback
-			}
+// flushCurrent closes the in-progress segment, which ends at endTime,
+// builds an fMP4 fragment and writes it under <dir>/<streamID>-<seq>.m4s.
+// Old segments are reaped to keep windowSize on disk.
+func (d *DASH) flushCurrent(endTime uint64) error {
+	current := d.currentSamples
+	d.currentSamples = nil
+	seq := d.nextSeq
+	startTime := current[0].dts
+	samples := make([]libmp4.Sample, 0, len(current))
+	for i, s := range current {
+		end := endTime
+		if i+1 < len(current) {
+			end = current[i+1].dts
 		}
 		samples = append(samples, libmp4.Sample{
-			Duration:              uint32(dur),
+			Duration:              uint32(end - s.dts),
 			Size:                  uint32(len(s.data)),
 			IsKey:                 s.key,
 			CompositionTimeOffset: s.cts,
@@ -500,25 +605,29 @@ func (d *DASH) flushCurrent() error {
 		return fmt.Errorf("write fragment: %w", err)
 	}
 
-	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
-		uint64(samples[len(samples)-1].Duration)
 	d.mu.Lock()
+	if !d.current.started {
+		d.current.started = true
+		d.current.start = startTime
+		d.current.offset = startTime - d.firstDTS
+	}
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
 		startTime: startTime,
 		duration:  endTime - startTime,
+		period:    d.current,
 	})
 	d.nextSeq++
 	for len(d.segments) > d.windowSize {
 		old := d.segments[0]
 		d.segments = d.segments[1:]
 		_ = os.Remove(filepath.Join(d.dir, old.filename))
+		d.removeInit(old.period)
 	}
 	d.cond.Broadcast()
 	d.mu.Unlock()
 
-	d.currentSamples = d.currentSamples[:0]
 	d.readyOnce.Do(func() { close(d.ready) })
 	return nil
 }
@@ -578,7 +687,7 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 	return
 }
 
-// parseSPSDimensions extracts pic_width / pic_height from an SPS using
+// parseSPSDimensions extracts the size of the picture from an SPS using
 // the Exp-Golomb subset that's required to reach those fields. Returns
 // zeros if parsing fails — the init segment is still produced (Shaka
 // Player tolerates 0 dimensions, displaying the video at its decoded
@@ -616,11 +725,25 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readUE() //bit_depth_luma_minus8
 		_ = br.readUE() //bit_depth_chroma_minus8
 		_, _ = br.readBits(1) //qpprime_y_zero_transform_bypass_flag
-		seqScaling, _ := br.readBits(1)
-		if seqScaling != 0 {
-			//Skip scaling lists — implementing them robustly is a
-			//digression. Most live encoders don't enable this.
-			return 0, 0
+		if scaling, _ := br.readBits(1); scaling != 0 {
+			lists := 8
+			if chromaFormat == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
+				if present, _ := br.readBits(1); present == 0 {
+					continue
+				}
+				size := 16
+				if i >= 6 {
+					size = 64
+				}
+				for last, next := int32(8), int32(8); size > 0 && next != 0; size-- {
+					if next = (last + br.readSE()) & 0xff; next != 0 {
+						last = next
+					}
+				}
+			}
 		}
 	}
 	_ = br.readUE() //log2_max_frame_num_minus4
@@ -633,37 +756,44 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
-		for i := uint32(0); i < n; i++ {
+		for i := uint32(0); i < n && !br.bad; i++ {
 			_ = br.readSE()
 		}
 	}
 	_ = br.readUE() //max_num_ref_frames
 	_, _ = br.readBits(1) //gaps_in_frame_num_value_allowed_flag
 
-	picWidthInMbsMinus1 := br.readUE()
-	picHeightInMapUnitsMinus1 := br.readUE()
+	width64 := (uint64(br.readUE()) + 1) * 16
+	height64 := (uint64(br.readUE()) + 1) * 16
 	frameMbsOnly, _ := br.readBits(1)
-
-	width = uint16((picWidthInMbsMinus1 + 1) * 16)
-	heightInMapUnits := picHeightInMapUnitsMinus1 + 1
-	if frameMbsOnly == 0 {
-		heightInMapUnits *= 2
+	cropUnitX, cropUnitY := uint64(1), uint64(1)
+	if chromaFormat == 1 || chromaFormat == 2 {
+		cropUnitX = 2
 	}
-	height = uint16(heightInMapUnits * 16)
-
-	//frame_cropping_flag may further trim the frame; not honoured here
-	//— we'd need to know SubWidthC/SubHeightC from chromaFormat. For
-	//our display-purposes the unmodified macroblock-rounded size is
-	//close enough.
-	_ = chromaFormat
-	return width, height
+	if chromaFormat == 1 {
+		cropUnitY = 2
+	}
+	if frameMbsOnly == 0 {
+		height64 *= 2
+		cropUnitY *= 2
+		_, _ = br.readBits(1) //mb_adaptive_frame_field_flag
+	}
+	_, _ = br.readBits(1) //direct_8x8_inference_flag
+	if cropping, _ := br.readBits(1); cropping != 0 {
+		left, right := br.readUE(), br.readUE()
+		top, bottom := br.readUE(), br.readUE()
+		width64 = cropped(width64, cropUnitX*(uint64(left)+uint64(right)))
+		height64 = cropped(height64, cropUnitY*(uint64(top)+uint64(bottom)))
+	}
+	return br.dimensions(width64, height64)
 }
 
 // bitReader is a minimal Exp-Golomb decoder for SPS parsing. It only
 // covers what parseSPSDimensions needs.
 type bitReader struct {
 	buf []byte
-	pos int //bit offset
+	pos int  //bit offset
+	bad bool //read beyond the end
 }
 
 func newBitReader(b []byte) *bitReader { return &bitReader{buf: b} }
@@ -673,6 +803,7 @@ func (b *bitReader) readBits(n int) (uint32, bool) {
 	for i := 0; i < n; i++ {
 		bytePos := b.pos / 8
 		if bytePos >= len(b.buf) {
+			b.bad = true
 			return 0, false
 		}
 		bit := (b.buf[bytePos] >> (7 - uint(b.pos%8))) & 1
@@ -682,6 +813,21 @@ func (b *bitReader) readBits(n int) (uint32, bool) {
 	return v, true
 }
 
+func (b *bitReader) skip(n int) {
+	for i := 0; i < n; i++ {
+		_, _ = b.readBits(1)
+	}
+}
+
+// dimensions returns the size of the picture, or zeros if it cannot be
+// right.
+func (b *bitReader) dimensions(width, height uint64) (uint16, uint16) {
+	if b.bad || width > 0xffff || height > 0xffff {
+		return 0, 0
+	}
+	return uint16(width), uint16(height)
+}
+
 func (b *bitReader) readUE() uint32 {
 	zeros := 0
 	for {
@@ -694,6 +840,7 @@ func (b *bitReader) readUE() uint32 {
 		}
 		zeros++
 		if zeros > 32 {
+			b.bad = true
 			return 0
 		}
 	}
diff --git a/libdash/mpd.go b/libdash/mpd.go
index 6037958..a45ba94 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -25,11 +25,10 @@ type manifestInputs struct {
 // Player and dash.js out of the box.
 //
 // Trade-offs in this minimal implementation:
-//   - Single Period, single AdaptationSet, single Representation
+//   - One AdaptationSet and Representation per Period
 //   - Video only (audio TODO)
-//   - Codec string is a fixed fallback ("avc1.42E01E"); a real impl
-//     would derive profile/level from the SPS like the libmp4 avcC
-//     box already does
+//
+// Every decoder configuration is a Period of its own.
 func buildMPD(in manifestInputs) []byte {
 	if len(in.segments) == 0 {
 		return nil
@@ -40,17 +39,14 @@ func buildMPD(in manifestInputs) []byte {
 		targetDurSec = 1
 	}
 	avail := in.availabilityStart.UTC().Format(time.RFC3339)
-	startNumber := in.segments[0].seq
 
-	//Per-segment durations vary slightly; pick the maximum to derive
-	//target. SegmentTimeline gives byte-exact durations, but
-	//SegmentTemplate with a fixed duration is widely supported and
-	//simpler — players treat it as a hint, not a hard constraint.
-	var maxSegDur uint64
+	var total uint64
 	for _, s := range in.segments {
-		if s.duration > maxSegDur {
-			maxSegDur = s.duration
-		}
+		total += s.duration
+	}
+	depth := targetDurSec * len(in.segments)
+	if in.timescale > 0 {
+		depth = int((total + uint64(in.timescale) - 1) / uint64(in.timescale))
 	}
 
 	var sb strings.Builder
@@ -68,39 +64,70 @@ func buildMPD(in manifestInputs) []byte {
 		avail,
 		time.Now().UTC().Format(time.RFC3339),
 		targetDurSec,
-		targetDurSec*len(in.segments),
+		depth,
 	)
+	for i := 0; i < len(in.segments); {
+		n := i + 1
+		for n < len(in.segments) && in.segments[n].period == in.segments[i].period {
+			n++
+		}
+		writePeriod(&sb, in, in.segments[i:n])
+		i = n
+	}
+	sb.WriteString(`</MPD>` + "\n")
+
+	return []byte(sb.String())
+}
 
-	sb.WriteString(`  <Period id="0" start="PT0S">` + "\n")
+// writePeriod renders consecutive segments with the same decoder
+// configuration.
+func writePeriod(sb *strings.Builder, in manifestInputs, segments []segmentInfo) {
+	p := segments[0].period
+	if p == nil {
+		p = &period{
+			initName: in.streamID + "-init.mp4",
+			codec:    in.codecStr,
+			width:    in.width,
+			height:   in.height,
+			start:    segments[0].startTime,
+		}
+	}
+	startMs := uint64(0)
+	if in.timescale > 0 {
+		startMs = p.offset * 1000 / uint64(in.timescale)
+	}
+	fmt.Fprintf(sb, `  <Period id="%d" start="PT%d.%03dS">`+"\n", p.id, startMs/1000, startMs%1000)
 	sb.WriteString(`    <AdaptationSet contentType="video" segmentAlignment="true" ` +
 		`mimeType="video/mp4" startWithSAP="1">` + "\n")
 
-	codecStr := in.codecStr
+	codecStr := p.codec
 	if codecStr == "" {
 		codecStr = "avc1.42E01E" //baseline @ level 3.0; conservative fallback
 	}
 	bandwidth := 1000000 //placeholder bps
 
-	fmt.Fprintf(&sb, `      <Representation id="v0" codecs="%s" `+
-		`bandwidth="%d" width="%d" height="%d" frameRate="30">`+"\n",
-		codecStr, bandwidth, in.width, in.height)
+	fmt.Fprintf(sb, `      <Representation id="v0" codecs="%s" `+
+		`bandwidth="%d" width="%d" height="%d">`+"\n",
+		codecStr, bandwidth, p.width, p.height)
 
-	fmt.Fprintf(&sb, `        <SegmentTemplate `+
+	fmt.Fprintf(sb, `        <SegmentTemplate `+
 		`timescale="%d" `+
-		`duration="%d" `+
+		`presentationTimeOffset="%d" `+
 		`startNumber="%d" `+
-		`initialization="%s-init.mp4" `+
-		`media="%s-$Number$.m4s"/>`+"\n",
+		`initialization="%s" `+
+		`media="%s-$Number$.m4s">`+"\n",
 		in.timescale,
-		maxSegDur,
-		startNumber,
-		in.streamID, in.streamID,
+		p.start,
+		segments[0].seq,
+		p.initName, in.streamID,
 	)
-
+	sb.WriteString(`          <SegmentTimeline>` + "\n")
+	for _, s := range segments {
+		fmt.Fprintf(sb, `            <S t="%d" d="%d"/>`+"\n", s.startTime, s.duration)
+	}
+	sb.WriteString(`          </SegmentTimeline>` + "\n")
+	sb.WriteString(`        </SegmentTemplate>` + "\n")
 	sb.WriteString(`      </Representation>` + "\n")
 	sb.WriteString(`    </AdaptationSet>` + "\n")
 	sb.WriteString(`  </Period>` + "\n")
-	sb.WriteString(`</MPD>` + "\n")
-
-	return []byte(sb.String())
 }
diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index c033cb3..53bc22d 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -11,6 +11,10 @@ type InitSegmentParams struct {
 	Height    uint16
 	SPS       []byte //one SPS NAL (without the 0x000001 start code)
 	PPS       []byte //one PPS NAL (without the 0x000001 start code)
+
+	//AVCCRecord is a whole AVCDecoderConfigurationRecord, which is
+	//embedded verbatim instead of one built from SPS and PPS.
+	AVCCRecord []byte
 }
 
 // BuildInitSegment returns a CMAF-compliant initialisation segment
@@ -198,7 +202,11 @@ func avc1(p InitSegmentParams) []byte {
 	body = appendU16(body, 0x0018)                  //depth (24)
 	body = appendU16(body, 0xffff)                  //pre_defined = -1
 
-	body = append(body, avcC(p.SPS, p.PPS)...)
+	if len(p.AVCCRecord) > 0 {
+		body = append(body, Box{Type: FourCC("avcC"), Body: p.AVCCRecord}.Bytes()...)
+	} else {
+		body = append(body, avcC(p.SPS, p.PPS)...)
+	}
 	return Box{Type: FourCC("avc1"), Body: body}.Bytes()
 }
 
-- 
2.43.0


From 2e86bdfcfca39e84184b996ed476804d656657d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 31/48] fix: libdash: durations of the manifest are xs:duration
 (upper-case S)

---
 libdash/mpd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libdash/mpd.go b/libdash/mpd.go
index a45ba94..b8b2a78 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -54,11 +54,11 @@ func buildMPD(in manifestInputs) []byte {
 	fmt.Fprintf(&sb, `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" `+
 		`type="dynamic" `+
 		`profiles="urn:mpeg:dash:profile:isoff-live:2011" `+
-		`minBufferTime="PT%ds" `+
+		`minBufferTime="PT%dS" `+
 		`availabilityStartTime="%s" `+
 		`publishTime="%s" `+
-		`minimumUpdatePeriod="PT%ds" `+
-		`timeShiftBufferDepth="PT%ds" `+
+		`minimumUpdatePeriod="PT%dS" `+
+		`timeShiftBufferDepth="PT%dS" `+
 		`>`+"\n",
 		targetDurSec,
 		avail,
-- 
2.43.0


From 763b185e12debf270c74e6bc33d9e69f3fe41988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 32/48] fix: librtmp: segments of streams with .. in their name
 are served

---
 librtmp/server.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 9ac324d..1ffe69e 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -441,7 +441,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			w.Header().Set("Content-Type", "video/mp2t")
 			w.Header().Set("Access-Control-Allow-Origin", "*")
 			w.Header().Set("Cache-Control", "max-age=3600")
-			http.ServeFile(w, r, full)
+			serveFile(w, r, full)
 		default:
 			w.WriteHeader(http.StatusNotFound)
 		}
@@ -450,11 +450,27 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	return http.Serve(hlsListener, mux)
 }
 
+// serveFile is http.ServeFile for files that are not addressed by the path
+// of the request, which may have ".." in the name of the stream.
+func serveFile(w http.ResponseWriter, r *http.Request, name string) {
+	f, err := os.Open(name)
+	if err != nil {
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+	defer f.Close()
+	var modified time.Time
+	if info, err := f.Stat(); err == nil {
+		modified = info.ModTime()
+	}
+	http.ServeContent(w, r, name, modified, f)
+}
+
 // serveDASH handles the three URL shapes a DASH player asks for:
 //   index.mpd            → dynamic manifest
 //   <stream>-init.mp4    → init segment (ftyp + moov)
 //   <stream>-<seq>.m4s   → media segment (moof + mdat)
-// Both file types are static under dash.Dir() so http.ServeFile is the
+// Both file types are static under dash.Dir() so serveFile is the
 // right tool — and it handles Range requests for free, which is useful
 // if/when we add CMAF byte-range chunked-transfer mode.
 func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash.DASH, file string) {
@@ -477,7 +493,7 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 		}
 		w.Header().Set("Content-Type", "video/mp4")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
-		http.ServeFile(w, r, full)
+		serveFile(w, r, full)
 	case strings.HasSuffix(file, ".m4s"):
 		full, ok := dash.Path(file)
 		if !ok {
@@ -486,7 +502,7 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 		}
 		w.Header().Set("Content-Type", "video/iso.segment")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
-		http.ServeFile(w, r, full)
+		serveFile(w, r, full)
 	default:
 		w.WriteHeader(http.StatusNotFound)
 	}
-- 
2.43.0


From 754a202dadce8ceded3a9c389db29f1d7d1e526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 33/48] fix: libsrt: tables in any number of packets, damaged
 packets, HEVC told apart

A PAT or PMT section that spans packets, or follows a pointer field, is
parsed as a whole; sections of other tables or not yet applicable are
skipped. Packets marked as damaged or scrambled are dropped. Access units
say whether they are HEVC rather than passing for H.264.
---
 libsrt/tsdemux.go | 143 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 106 insertions(+), 37 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 3803d9c..dcd3a26 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -34,6 +34,8 @@ type AccessUnit struct {
 	DTS uint64
 	Key bool   //starts with an IDR
 	NAL []byte //AnnexB-formatted NAL bytes
+
+	HEVC bool //of an HEVC stream, not H.264
 }
 
 // AudioFrame is one ADTS-prefixed AAC frame.
@@ -45,8 +47,11 @@ type AudioFrame struct {
 // Demuxer accumulates TS packets and emits AccessUnit / AudioFrame.
 // One Demuxer per session.
 type Demuxer struct {
+	pat       psiSection
+	pmt       psiSection
 	pmtPID    uint16
 	videoPID  uint16
+	videoHEVC bool
 	audioPID  uint16
 	videoBuf  []byte
 	videoTS   uint64 //PTS of in-progress PES (90 kHz)
@@ -78,6 +83,9 @@ func (d *Demuxer) Feed(buf []byte) {
 		}
 		pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
 		pusi := pkt[1]&0x40 != 0
+		if pkt[1]&0x80 != 0 || pkt[3]&0xC0 != 0 {
+			continue //damaged, or scrambled
+		}
 		afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
 		off := 4
 		if afCtrl == 2 || afCtrl == 3 {
@@ -91,7 +99,7 @@ func (d *Demuxer) Feed(buf []byte) {
 			continue //no payload
 		}
 		payload := pkt[off:]
-		if (pid == d.videoPID || pid == d.audioPID) && pid != 0 {
+		if pid == 0 || pid == d.pmtPID || pid == d.videoPID || pid == d.audioPID {
 			if dup := d.checkContinuity(pid, pkt[3]&0x0F); dup {
 				continue
 			}
@@ -99,9 +107,9 @@ func (d *Demuxer) Feed(buf []byte) {
 
 		switch pid {
 		case 0x0000:
-			d.parsePAT(payload)
+			d.pat.feed(pusi, payload, d.parsePAT)
 		case d.pmtPID:
-			d.parsePMT(payload)
+			d.pmt.feed(pusi, payload, d.parsePMT)
 		case d.videoPID:
 			d.feedVideo(pusi, payload)
 		case d.audioPID:
@@ -112,16 +120,21 @@ func (d *Demuxer) Feed(buf []byte) {
 
 // checkContinuity compares a packet's continuity counter with the last
 // one of its PID. A packet sent twice is reported as such; after a gap the
-// PES in progress is dropped, since part of it is missing.
+// PES or section in progress is dropped, since part of it is missing.
 func (d *Demuxer) checkContinuity(pid uint16, cc byte) (dup bool) {
 	last, seen := d.cc[pid]
 	if seen && cc == last {
 		return true
 	}
 	if seen && cc != (last+1)&0x0F {
-		if pid == d.videoPID {
+		switch pid {
+		case 0:
+			d.pat.open = false
+		case d.pmtPID:
+			d.pmt.open = false
+		case d.videoPID:
 			d.videoOpen = false
-		} else {
+		case d.audioPID:
 			d.audioOpen = false
 		}
 	}
@@ -132,27 +145,73 @@ func (d *Demuxer) checkContinuity(pid uint16, cc byte) (dup bool) {
 	return false
 }
 
+// psiSection collects the sections carried on one PID.
+type psiSection struct {
+	buf  []byte
+	open bool //buf is the start of a section
+}
+
+// feed takes the payload of a packet and hands over the sections that it
+// completes, each from its table_id to its CRC.
+func (s *psiSection) feed(pusi bool, payload []byte, handle func(section []byte)) {
+	if pusi && len(payload) > 0 {
+		pointer := int(payload[0])
+		payload = payload[1:]
+		if pointer > len(payload) {
+			s.open = false
+			return
+		}
+		s.add(payload[:pointer], handle) //the end of what came before
+		payload = payload[pointer:]
+		s.buf = nil
+		s.open = true
+	}
+	s.add(payload, handle)
+}
+
+func (s *psiSection) add(b []byte, handle func(section []byte)) {
+	if !s.open {
+		return
+	}
+	s.buf = append(s.buf, b...)
+	for len(s.buf) >= 3 {
+		if s.buf[0] == 0xFF { //stuffing
+			s.open = false
+			return
+		}
+		//Section length covers everything from after section_length
+		//itself up to and including the CRC.
+		n := int(binary.BigEndian.Uint16(s.buf[1:3])&0x0FFF) + 3
+		if len(s.buf) < n {
+			return
+		}
+		handle(s.buf[:n])
+		s.buf = s.buf[n:]
+	}
+}
+
+// inForce reports whether a section is one of the given table, with a
+// header of at least min bytes, that applies already.
+func inForce(section []byte, tableID byte, min int) bool {
+	return len(section) >= min+4 && section[0] == tableID && section[5]&0x01 != 0
+}
+
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-func (d *Demuxer) parsePAT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	//Skip pointer + section header (8 bytes).
-	pointer := int(payload[0])
-	if 1+pointer+8 > len(payload) {
+func (d *Demuxer) parsePAT(section []byte) {
+	if !inForce(section, 0x00, 8) {
 		return
 	}
-	body := payload[1+pointer:]
-	//Section length covers everything from after section_length itself
-	//up to and including the CRC. For our needs we just walk the
-	//program loop right after the 8-byte fixed header.
-	for off := 8; off+4 <= len(body)-4; off += 4 {
-		programNumber := binary.BigEndian.Uint16(body[off : off+2])
-		pid := binary.BigEndian.Uint16(body[off+2:off+4]) & 0x1FFF
+	//Walk the program loop right after the 8-byte fixed header.
+	for off := 8; off+4 <= len(section)-4; off += 4 {
+		programNumber := binary.BigEndian.Uint16(section[off : off+2])
+		pid := binary.BigEndian.Uint16(section[off+2:off+4]) & 0x1FFF
 		if programNumber != 0 {
-			d.pmtPID = pid
+			if pid != d.pmtPID {
+				d.pmtPID = pid
+				d.pmt = psiSection{}
+			}
 			return
 		}
 	}
@@ -161,29 +220,21 @@ func (d *Demuxer) parsePAT(payload []byte) {
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
 // Table. stream_type 0x1B = H.264, 0x24 = HEVC, 0x0F = AAC ADTS,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
-func (d *Demuxer) parsePMT(payload []byte) {
-	if len(payload) < 2 {
+func (d *Demuxer) parsePMT(section []byte) {
+	if !inForce(section, 0x02, 12) {
 		return
 	}
-	pointer := int(payload[0])
-	if 1+pointer+12 > len(payload) {
-		return
-	}
-	body := payload[1+pointer:]
-	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
-	if sectionLen > len(body) {
-		sectionLen = len(body)
-	}
-	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
+	progInfoLen := int(binary.BigEndian.Uint16(section[10:12]) & 0x0FFF)
 	off := 12 + progInfoLen
-	for off+5 <= sectionLen-4 {
-		streamType := body[off]
-		streamPID := binary.BigEndian.Uint16(body[off+1:off+3]) & 0x1FFF
-		esInfoLen := int(binary.BigEndian.Uint16(body[off+3:off+5]) & 0x0FFF)
+	for off+5 <= len(section)-4 {
+		streamType := section[off]
+		streamPID := binary.BigEndian.Uint16(section[off+1:off+3]) & 0x1FFF
+		esInfoLen := int(binary.BigEndian.Uint16(section[off+3:off+5]) & 0x0FFF)
 		off += 5 + esInfoLen
 		switch streamType {
 		case 0x1B, 0x24:
 			d.videoPID = streamPID
+			d.videoHEVC = streamType == 0x24
 		case 0x0F:
 			d.audioPID = streamPID
 		}
@@ -224,6 +275,11 @@ func (d *Demuxer) flushVideo() {
 		DTS: d.videoDTS,
 		NAL: append([]byte(nil), d.videoBuf...),
 		Key: containsAnnexBKeyframe(d.videoBuf),
+
+		HEVC: d.videoHEVC,
+	}
+	if au.HEVC {
+		au.Key = containsAnnexBIRAP(d.videoBuf)
 	}
 	d.videoBuf = d.videoBuf[:0]
 	d.OnVideo(au)
@@ -357,3 +413,16 @@ func containsAnnexBKeyframe(buf []byte) bool {
 	}
 	return false
 }
+
+// containsAnnexBIRAP is the same for HEVC: NAL types 16 to 21 start a
+// coded video sequence.
+func containsAnnexBIRAP(buf []byte) bool {
+	for i := 0; i+3 < len(buf); i++ {
+		if buf[i] == 0 && buf[i+1] == 0 && buf[i+2] == 1 {
+			if t := buf[i+3] >> 1 & 0x3F; t >= 16 && t <= 21 {
+				return true
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From 72fd31613a17a46e17a883f2a4c103d7e03d01e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 34/48] fix: libsrt, librtmp: a session of SRT is one
 publication

The end of a session (shutdown, silence, or another caller on the same
address) ends the stream, and only then may another one publish it; data of
two callers isn't mixed. Changed parameter sets and audio configurations are
announced, HEVC isn't relayed as H.264, composition times may be negative
and timestamps go on when the 90 kHz clock wraps.
---
 librtmp/srt_server.go | 201 ++++++++++++++++++++++++------------------
 libsrt/listener.go    |  85 ++++++++++++++++--
 2 files changed, 193 insertions(+), 93 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index ee04d0a..af6ffa5 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,17 +1,16 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
-	"sync"
-	"time"
 
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libsrt"
 )
 
 // srtSpec configures one SRT publish endpoint. The listener accepts
-// any caller (ffmpeg, OBS, GStreamer); the first datagram lazily
+// any caller (ffmpeg, OBS, GStreamer); the first data of one lazily
 // allocates a Room under apps[app]/rooms[streamID] and forwards
 // transcoded FLV tags into its broadcast.
 type srtSpec struct {
@@ -20,39 +19,43 @@ type srtSpec struct {
 	streamID string
 }
 
-// srtBridge wraps one libsrt.Listener and the per-stream demux state
-// that turns MPEG-TS into FLV tags. There's one bridge per WithSRT
-// invocation.
+// srtBridge is what one SRT session publishes: the demux state that
+// turns MPEG-TS into FLV tags, and the Room they go to.
 type srtBridge struct {
-	spec    srtSpec
-	server  *server
-	mu      sync.Mutex
-	room    *Room
-	demux   *libsrt.Demuxer
+	spec   srtSpec
+	server *server
+	rtmp   *RTMP //pseudo-publisher, nil before the first data
+	room   *Room
+	demux  *libsrt.Demuxer
 
 	// Sequence-header bookkeeping. Once SPS/PPS are extracted from
 	// an in-band IDR access unit, we synthesise AVCDecoderConfigurationRecord
-	// and emit the FLV video sequence header. Same idea for AAC: pull
-	// the codec config out of the first ADTS frame and emit the audio
-	// sequence header.
-	emittedVideoSeqHdr bool
-	emittedAudioSeqHdr bool
-	cachedSPS          []byte
-	cachedPPS          []byte
+	// and emit the FLV video sequence header, and again whenever they
+	// change. Same idea for AAC: pull the codec config out of the ADTS
+	// header and emit the audio sequence header.
+	cachedSPS   []byte
+	cachedPPS   []byte
+	videoConfig []byte //record last announced
+	audioConfig []byte //AudioSpecificConfig last announced
+
+	lastTS uint64 //see timestamp
+	seenTS bool
 }
 
 // startSRT installs the listener; called from server.Handler() once
 // per WithSRT spec.
 func startSRT(srv *server, spec srtSpec) {
-	br := &srtBridge{
-		spec:   spec,
-		server: srv,
-		demux:  libsrt.NewDemuxer(),
-	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
-
-	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
+	listener, err := libsrt.ListenSessions(spec.address, spec.streamID,
+		func(string) (func([]byte) error, func()) {
+			br := &srtBridge{
+				spec:   spec,
+				server: srv,
+				demux:  libsrt.NewDemuxer(),
+			}
+			br.demux.OnVideo = br.onVideo
+			br.demux.OnAudio = br.onAudio
+			return br.onData, br.close
+		})
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
@@ -64,15 +67,13 @@ func startSRT(srv *server, spec srtSpec) {
 	}()
 }
 
-// onData feeds raw TS bytes from the SRT listener into the demuxer.
+// onData feeds raw TS bytes from the SRT session into the demuxer.
 // Lazy-allocates the Room on first invocation so empty publishes don't
-// pollute the App's room map.
-func (br *srtBridge) onData(streamID string, payload []byte) error {
-	br.mu.Lock()
+// pollute the App's room map. Fails if somebody else is publishing.
+func (br *srtBridge) onData(payload []byte) error {
 	if br.room == nil {
 		app, ok := br.server.apps[br.spec.app]
 		if !ok {
-			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
@@ -84,21 +85,50 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 		}
 		room := NewRoom(ps, br.spec.streamID)
 		if !app.Claim(room) {
-			br.mu.Unlock()
 			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
 		}
 		ps.room = room
+		br.rtmp = ps
 		br.room = room
 	}
-	br.mu.Unlock()
 	br.demux.Feed(payload)
 	return nil
 }
 
+// close ends the publication once the session has ended.
+func (br *srtBridge) close() {
+	if br.rtmp != nil {
+		br.rtmp.cleanup()
+	}
+}
+
+// timestamp turns a 33-bit PTS or DTS into milliseconds. The time stamps
+// of both tracks go on where the 90 kHz counter wraps.
+func (br *srtBridge) timestamp(ts uint64) uint32 {
+	if !br.seenTS {
+		br.seenTS = true
+		br.lastTS = 1<<33 | ts //so that it can go back a little
+	} else {
+		br.lastTS += uint64(diff33(ts, br.lastTS))
+	}
+	if br.lastTS < 1<<33 {
+		return 0 //of before the first one, which was about 0
+	}
+	return uint32((br.lastTS - 1<<33) / 90)
+}
+
+// diff33 is a-b, given that both are modulo 2^33.
+func diff33(a, b uint64) int64 {
+	return int64((a-b)<<31) >> 31
+}
+
 // onVideo converts an AnnexB-formatted access unit into FLV video
-// tag(s). On the first IDR we mine SPS/PPS, emit the AVC sequence
-// header, then continue with NALU tags.
+// tag(s). We mine SPS/PPS from the IDRs and emit the AVC sequence
+// header before the NALU tags it applies to.
 func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
+	if au.HEVC {
+		return //not supported yet
+	}
 	nals := splitAnnexB(au.NAL)
 	var sps, pps []byte
 	var pictureNALs [][]byte
@@ -115,27 +145,32 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
-	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
-		}
-		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
-			vt := &libflv.VideoTag{
-				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
-				FrameType:     libflv.KEY_FRAME,
-				CodecID:       libflv.FLV_VIDEO_AVC,
-				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
-				VideoData:     seq,
-			}
-			vt.DataSize = uint32(len(vt.Data()))
-			br.room.setVideoSequenceHeader(vt)
-			br.room.GOP.WriteMeta(vt)
-			br.emittedVideoSeqHdr = true
+	if sps != nil {
+		br.cachedSPS = sps
+	}
+	if pps != nil {
+		br.cachedPPS = pps
+	}
+	tagTS := br.timestamp(au.DTS) //PTS/DTS in 90 kHz; FLV in ms
+	config := br.videoConfig
+	if br.cachedSPS != nil && br.cachedPPS != nil {
+		config = buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
+	}
+	if !bytes.Equal(config, br.videoConfig) {
+		br.videoConfig = config
+		vt := &libflv.VideoTag{
+			TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
+			FrameType:     libflv.KEY_FRAME,
+			CodecID:       libflv.FLV_VIDEO_AVC,
+			AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
+			VideoData:     config,
 		}
+		vt.DataSize = uint32(len(vt.Data()))
+		br.room.setVideoSequenceHeader(vt)
+		br.room.GOP.WriteMeta(vt)
+	}
+	if br.videoConfig == nil {
+		return //nobody could decode it
 	}
 	if len(pictureNALs) == 0 {
 		return
@@ -151,8 +186,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
-	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	cts := uint32(int32(diff33(au.PTS, au.DTS) / 90))
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -189,40 +223,38 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
-		soundType := uint8(libflv.SND_STEREO)
-		if channels == 1 {
-			soundType = libflv.SND_MONO
-		}
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	asc := []byte{
+		(objType<<3)&0xF8 | (sampleIndex>>1)&0x07,
+		((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3,
+	}
+	tagTS := br.timestamp(af.PTS)
+	soundType := uint8(libflv.SND_STEREO)
+	if channels == 1 {
+		soundType = libflv.SND_MONO
+	}
+	if !bytes.Equal(asc, br.audioConfig) {
+		br.audioConfig = asc
 		seq := &libflv.AudioTag{
-			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
+			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
 			SoundRate:     3,
 			SoundSize:     libflv.SND_16_BIT,
 			SoundType:     soundType,
 			AACPacketType: libflv.AAC_SEQUENCE_HEADER,
-			SoundData:     asc[:],
+			SoundData:     asc,
 		}
 		seq.DataSize = uint32(len(seq.Data()))
 		br.room.setAudioSequenceHeader(seq)
 		br.room.GOP.WriteMeta(seq)
-		br.emittedAudioSeqHdr = true
-	}
-	soundType := uint8(libflv.SND_STEREO)
-	if channels == 1 {
-		soundType = libflv.SND_MONO
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: tagTS},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
@@ -270,14 +302,11 @@ func splitAnnexB(buf []byte) [][]byte {
 				break
 			}
 		}
-		if end > nalStart {
-			out = append(out, buf[nalStart:end])
+		//Zero bytes may follow a NAL unit, which never ends in one.
+		if nal := bytes.TrimRight(buf[nalStart:end], "\x00"); len(nal) > 0 {
+			out = append(out, nal)
 		}
 		i = end
 	}
 	return out
 }
-
-// silence the unused-time import in case the demuxer-feed path needs
-// time.Time later for stats.
-var _ = time.Now
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 0aca726..8661fa9 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -20,13 +20,22 @@ import (
 // Returning an error stops the session.
 type DataHandler func(streamID string, payload []byte) error
 
+// SessionHandler is invoked when a caller has sent its first data. onData
+// gets its payloads, and an error stops the session. onClose, which may be
+// nil, is called once the session has ended.
+type SessionHandler func(streamID string) (onData func(payload []byte) error, onClose func())
+
+// idleTimeout is how long a caller may be silent. Callers send keepalives
+// every second when they have nothing else to say.
+const idleTimeout = 10 * time.Second
+
 // Listener owns one UDP socket and demultiplexes packets across many
 // SRT sessions keyed by (peer addr, our destSocketID). Sessions live
 // in memory until the peer Shuts down or stops sending for a while.
 type Listener struct {
 	conn       *net.UDPConn
 	streamID   string
-	onData     DataHandler
+	open       SessionHandler
 
 	mu       sync.Mutex
 	sessions map[string]*session
@@ -43,6 +52,8 @@ type session struct {
 	lastSeen      time.Time
 	streamID      string
 	expectedSeq   uint32
+	onData        func(payload []byte) error //nil before the first data
+	onClose       func()
 
 	// ACK / NAK bookkeeping. lastACKedSeq is the sequence number we
 	// last reported via an ACK; ackNum is the monotonically-incrementing
@@ -59,6 +70,18 @@ type session struct {
 // session (since the SRT spec carries an optional StreamID extension
 // we don't parse, the fallback is the listener-supplied default).
 func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
+	return ListenSessions(addr, streamID, func(streamID string) (func([]byte) error, func()) {
+		return func(payload []byte) error {
+			if onData == nil {
+				return nil
+			}
+			return onData(streamID, payload)
+		}, nil
+	})
+}
+
+// ListenSessions is Listen for those who need to tell the callers apart.
+func ListenSessions(addr, streamID string, open SessionHandler) (*Listener, error) {
 	uaddr, err := net.ResolveUDPAddr("udp", addr)
 	if err != nil {
 		return nil, err
@@ -70,7 +93,7 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 	l := &Listener{
 		conn:     conn,
 		streamID: streamID,
-		onData:   onData,
+		open:     open,
 		sessions: map[string]*session{},
 		socketID: rand.Uint32() | 0x40000000, //bit 30 set so it doesn't look like 0
 	}
@@ -81,8 +104,18 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
 	buf := make([]byte, 1500)
+	defer l.expire(time.Time{})
+	next := time.Now().Add(time.Second)
 	for {
+		_ = l.conn.SetReadDeadline(next)
 		n, peer, err := l.conn.ReadFromUDP(buf)
+		if now := time.Now(); !now.Before(next) {
+			l.expire(now.Add(-idleTimeout))
+			next = now.Add(time.Second)
+		}
+		if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -93,6 +126,39 @@ func (l *Listener) Run() error {
 	}
 }
 
+// expire ends the sessions whose callers were silent since then, or all if
+// that is zero.
+func (l *Listener) expire(since time.Time) {
+	l.mu.Lock()
+	var old []*session
+	for _, sess := range l.sessions {
+		if since.IsZero() || sess.lastSeen.Before(since) {
+			old = append(old, sess)
+		}
+	}
+	l.mu.Unlock()
+	for _, sess := range old {
+		l.endSession(sess)
+	}
+}
+
+// endSession forgets a session.
+func (l *Listener) endSession(sess *session) {
+	l.mu.Lock()
+	delete(l.sessions, sess.peerAddr.String())
+	l.mu.Unlock()
+	sess.close()
+}
+
+// close tells the consumer of the data that there won't be more.
+func (sess *session) close() {
+	onClose := sess.onClose
+	sess.onData, sess.onClose = nil, nil
+	if onClose != nil {
+		onClose()
+	}
+}
+
 // Close shuts the UDP socket; the Run loop returns shortly after.
 func (l *Listener) Close() error { return l.conn.Close() }
 
@@ -116,9 +182,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
 			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
+				l.endSession(sess)
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
@@ -169,8 +233,13 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
-	if l.onData != nil {
-		_ = l.onData(sess.streamID, body)
+	if sess.onData == nil {
+		sess.onData, sess.onClose = l.open(sess.streamID)
+	}
+	if err := sess.onData(body); err != nil {
+		l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
+		l.endSession(sess)
+		return
 	}
 	l.maybeSendACK(sess)
 }
@@ -221,6 +290,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sessions[key] = sess
 	}
 	l.mu.Unlock()
+	sess.lastSeen = time.Now()
 
 	switch hs.HandshakeType {
 	case HSTypeAgreement: //v5 INDUCTION
@@ -232,6 +302,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		if sess.cookie == 0 || sess.peerSocketID != hs.SrtSocketID {
 			sess.peerSocketID = hs.SrtSocketID
 			sess.concluded = false
+			sess.close() //it was another caller's
 			sess.cookie = crc32.ChecksumIEEE(
 				[]byte(fmt.Sprintf("%s-%d-%d",
 					peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
-- 
2.43.0


From c1b69b0f7ef0525e854f24850e9e8e5fd0d00d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 35/48] fix: librtmp: SRT streams that start just behind the
 wrap of the clock

---
 librtmp/srt_server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index af6ffa5..ca1e5b9 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -107,14 +107,15 @@ func (br *srtBridge) close() {
 func (br *srtBridge) timestamp(ts uint64) uint32 {
 	if !br.seenTS {
 		br.seenTS = true
-		br.lastTS = 1<<33 | ts //so that it can go back a little
+		br.lastTS = ts
+		if ts < 90000 {
+			//The other track may be from before the wrap.
+			br.lastTS += 1 << 33
+		}
 	} else {
 		br.lastTS += uint64(diff33(ts, br.lastTS))
 	}
-	if br.lastTS < 1<<33 {
-		return 0 //of before the first one, which was about 0
-	}
-	return uint32((br.lastTS - 1<<33) / 90)
+	return uint32(br.lastTS / 90)
 }
 
 // diff33 is a-b, given that both are modulo 2^33.
-- 
2.43.0


From 9bea70b41b26de7f671c19976929b0fb38955d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 36/48] fix: libamf: a value that is cut short is an error

---
 libamf/amf0.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index fa20ba6..dad6195 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -45,9 +45,12 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var marker Marker
 	for {
 		marker, i, err = decodeamf0(r)
-		if err == io.EOF {
+		if err == io.EOF && marker == InvalidMarker { //between two values
 			break
 		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From 8a8f4e1c316b189b2b78d11bde203dda2213a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 37/48] fix: libflv: properties named like fields of the tag
 header don't replace them

---
 libflv/meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libflv/meta.go b/libflv/meta.go
index 62137fb..cf6d5dd 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -77,9 +77,12 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	if m, ok := props.(map[string]interface{}); ok {
 		//the typed fields are a convenience: a property of another type
 		//than expected is not a reason to reject the metadata.
+		first, second := meta.FirstField, meta.SecondField
 		if decodeErr := mapstructure.Decode(m, meta); decodeErr != nil {
 			fmt.Printf("decode data error, err:%+v\n", decodeErr)
 		}
+		//a property may have the name of a field that isn't one.
+		meta.TagBase, meta.FirstField, meta.SecondField = tb, first, second
 		meta.Properties = m
 	}
 	if meta.Properties == nil || meta.SecondField != "onMetaData" {
-- 
2.43.0


From 68c49dca1d52a6ccf5ecd101a0785ebbe70ce749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 38/48] fix: libamf: the length of a long string is not
 allocated before it is there

---
 libamf/amf0.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index dad6195..e280369 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -1,6 +1,7 @@
 package libamf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -159,11 +160,13 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
-	if err != nil {
-		return nil, err
+	if length <= 1<<16 {
+		return r.ReadN(length)
 	}
-	return b, nil
+	//allocate for what is there, not for what the length claims.
+	var buf bytes.Buffer
+	_, err = io.CopyN(&buf, r, int64(length))
+	return buf.Bytes(), err
 }
 
 func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
-- 
2.43.0


From a1d2af990680a6dd9781a13a584c3c73f1ff7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 39/48] fix: librtsp: the head of a request is bounded

---
 librtsp/message.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index 7895499..e55698d 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -28,6 +28,9 @@ const rtspVersion = "RTSP/1.0"
 // are SDP descriptions and parameter lists of a few KiB at most.
 const maxBodySize = 1 << 20
 
+// maxHeadSize bounds the request line and the headers together.
+const maxHeadSize = 64 << 10
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -58,7 +61,8 @@ func (h Headers) Del(key string)        { delete(h, strings.ToLower(key)) }
 // ReadRequest consumes one request from r. Body length is taken from
 // the Content-Length header; absent length means no body.
 func ReadRequest(r *bufio.Reader) (*Request, error) {
-	startLine, err := readLine(r)
+	left := maxHeadSize
+	startLine, err := readLine(r, &left)
 	if err != nil {
 		return nil, err
 	}
@@ -72,7 +76,7 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		Version: parts[2],
 		Headers: Headers{},
 	}
-	if err := readHeaders(r, req.Headers); err != nil {
+	if err := readHeaders(r, req.Headers, &left); err != nil {
 		return nil, err
 	}
 	if cl := req.Headers.Get("content-length"); cl != "" {
@@ -116,19 +120,28 @@ func (resp *Response) Bytes() []byte {
 }
 
 // readLine returns the next CRLF-terminated line without the CRLF.
-// Tolerates bare LF (which some clients emit).
-func readLine(r *bufio.Reader) (string, error) {
-	line, err := r.ReadString('\n')
-	if err != nil {
-		return "", err
+// Tolerates bare LF (which some clients emit). left is how long it may be
+// at most, and what remains of that for the next line.
+func readLine(r *bufio.Reader, left *int) (string, error) {
+	var line []byte
+	for {
+		part, err := r.ReadSlice('\n')
+		if *left -= len(part); *left < 0 {
+			return "", errors.New("request header too large")
+		}
+		line = append(line, part...)
+		if err == nil {
+			return strings.TrimRight(string(line), "\r\n"), nil
+		}
+		if err != bufio.ErrBufferFull {
+			return "", err
+		}
 	}
-	line = strings.TrimRight(line, "\r\n")
-	return line, nil
 }
 
-func readHeaders(r *bufio.Reader, h Headers) error {
+func readHeaders(r *bufio.Reader, h Headers, left *int) error {
 	for {
-		line, err := readLine(r)
+		line, err := readLine(r, left)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ea04b8a7a4481b56732fa591094c3f5452c08be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 40/48] fix: libamf: values nested too deep are an error

---
 libamf/amf0.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index e280369..2e3f1af 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -36,6 +36,11 @@ const (
 	InvalidMarker
 )
 
+//maxDepth is how deep values may be nested: each level takes stack.
+const maxDepth = 512
+
+var errTooDeep = errors.New("amf0 values nested too deep")
+
 type amf0 struct{}
 
 var AMF0 amf0
@@ -45,7 +50,7 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, i, err = decodeamf0(r, maxDepth)
 		if err == io.EOF && marker == InvalidMarker { //between two values
 			break
 		}
@@ -74,7 +79,10 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+func decodeamf0(r easyio.EasyReader, depth int) (marker Marker, i interface{}, err error) {
+	if depth == 0 {
+		return InvalidMarker, nil, errTooDeep
+	}
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
@@ -90,7 +98,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth-1)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -98,10 +106,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
+		i, err = decodeEcmaArrayamf0(r, depth-1)
 	case ObjectEndMarker: //no futher information is encoded, do nothing
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth-1)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -113,7 +121,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth-1)
 		i = map[string]interface{}{
 			className: i,
 		}
@@ -169,11 +177,11 @@ func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
 	return buf.Bytes(), err
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -185,13 +193,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -200,7 +208,7 @@ type pair struct {
 	value interface{}
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
@@ -220,7 +228,7 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 		return p, nil
 	}
 
-	_, p.value, err = decodeamf0(r)
+	_, p.value, err = decodeamf0(r, depth)
 	if err != nil {
 		return p, err
 	}
@@ -232,7 +240,7 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -242,7 +250,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	res = make(map[string]interface{})
 	var p *pair
 	for { //length is only a hint, the array ends with 00 00 09
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -254,7 +262,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	return res, nil
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -264,7 +272,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		_, item, err = decodeamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From bb9d43d84135442d4fe2825d16ed2f0ffbed29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 41/48] fix: librtmp: a chunk is not allocated before it
 arrives

---
 librtmp/chunk.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 8c5df14..45f1277 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -193,8 +193,7 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 			chunkSize = remain
 		}
 	}
-	b := make([]byte, chunkSize)
-	err = rtmp.readerConn.ReadFull(b)
+	b, err := readChunkPayload(rtmp, chunkSize)
 	if err != nil {
 		return nil, err
 	}
@@ -208,6 +207,25 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 	return cp, nil
 }
 
+// chunkReadStep is how much of a chunk is allocated before it arrives:
+// its size is only what the peer says.
+const chunkReadStep = 64 << 10
+
+func readChunkPayload(rtmp *RTMP, size uint32) (b []byte, err error) {
+	for uint32(len(b)) < size {
+		n := size - uint32(len(b))
+		if n > chunkReadStep {
+			n = chunkReadStep
+		}
+		read := len(b)
+		b = append(b, make([]byte, n)...)
+		if err = rtmp.readerConn.ReadFull(b[read:]); err != nil {
+			return nil, err
+		}
+	}
+	return b, nil
+}
+
 //NOTE: ensure len(payload) <= peerMaxChunkSize
 func NewChunk(messageType MessageType, messageLength uint32, messageTime uint32, format MessageHeaderType, csid uint32, payload []byte) (chunk *Chunk) {
 	return &Chunk{
-- 
2.43.0


From 2d1f562a0c578fe4669fa9aff22d1d6576b6c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 42/48] fix: librtmp: the last payload of every chunk stream is
 not kept

---
 librtmp/chunk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 45f1277..ed02841 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -203,7 +203,10 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		Payload:            b,
 	}
 
-	rtmp.lastChunk[cp.CsID] = cp
+	//Only the headers are needed for the chunks that follow.
+	last := *cp
+	last.Payload = nil
+	rtmp.lastChunk[cp.CsID] = &last
 	return cp, nil
 }
 
-- 
2.43.0


From 7cb9f40d80f57f8465b4ae510bad2d0972db487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 43/48] fix: librtmp: unfinished messages are bounded

---
 librtmp/control_message.go |  2 +-
 librtmp/message.go         | 25 +++++++++++++++++++++----
 librtmp/rtmp.go            |  1 +
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index c2c6686..2a98836 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -290,7 +290,7 @@ func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message. Its header may still be
 	//relative to the ones received so far.
-	delete(am.rtmp.inFlight, am.ChunkStreamID)
+	am.rtmp.dropInFlight(am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index 29a2eda..6df7c36 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -196,15 +196,19 @@ func ParseMessage(rtmp *RTMP) (err error) {
 			}
 		}
 
+		if rtmp.inFlight == nil {
+			rtmp.inFlight = make(map[uint32]Message)
+		}
+		rtmp.inFlight[chunk.CsID] = message
+		rtmp.inFlightBytes += len(chunk.Payload)
 		message.Append(chunk)
 		if message.Done() {
-			delete(rtmp.inFlight, chunk.CsID)
+			rtmp.dropInFlight(chunk.CsID)
 			break
 		}
-		if rtmp.inFlight == nil {
-			rtmp.inFlight = make(map[uint32]Message)
+		if rtmp.inFlightBytes > maxInFlightBytes {
+			return fmt.Errorf("%d bytes of unfinished messages", rtmp.inFlightBytes)
 		}
-		rtmp.inFlight[chunk.CsID] = message
 	}
 
 	if err = message.Parse(); err != nil {
@@ -216,6 +220,19 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	return message.Do()
 }
 
+// maxInFlightBytes bounds what is kept of unfinished messages: a peer may
+// begin one on every chunk stream. It is twice the size of the biggest
+// message.
+const maxInFlightBytes = 2 << 24
+
+// dropInFlight forgets the unfinished message of a chunk stream, if any.
+func (rtmp *RTMP) dropInFlight(csid uint32) {
+	if message, ok := rtmp.inFlight[csid]; ok {
+		rtmp.inFlightBytes -= len(message.GetInfo().messagePayload)
+		delete(rtmp.inFlight, csid)
+	}
+}
+
 // acknowledge sends a Window Acknowledgement when the peer's window is
 // used up. The sequence number is the number of bytes received so far.
 func acknowledge(rtmp *RTMP) error {
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 51fa9f5..dbc93bf 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -14,6 +14,7 @@ type RTMP struct {
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
 	inFlight         map[uint32]Message //csid, messages some chunks of which are still to come
+	inFlightBytes    int //what was received of them
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From 08cb7b23dfa841bdfd4b8dffdbfe4fc08b53c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 44/48] fix: librtmp: what a stream keeps for its viewers is
 bounded in bytes

---
 librtmp/gop.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/librtmp/gop.go b/librtmp/gop.go
index 693fd7b..b6100a6 100644
--- a/librtmp/gop.go
+++ b/librtmp/gop.go
@@ -14,6 +14,10 @@ const (
 	// maxOldGOPTags bounds the part of it that precedes the current
 	// group of pictures.
 	maxOldGOPTags = 2048
+	// maxGOPBytes and maxOldGOPBytes bound the same by size; the newest
+	// tag is kept whatever its size.
+	maxGOPBytes    = 128 << 20
+	maxOldGOPBytes = 64 << 20
 )
 
 // headerKind names the kinds of tags a decoder needs before the media.
@@ -50,6 +54,9 @@ type gop struct {
 	log  []libflv.Tag
 	base uint64 //sequence number of log[0]
 
+	bytes    int //size of the tags in log
+	oldBytes int //size of those before start
+
 	start        uint64                  //where new viewers start
 	startHeaders [headerKinds]libflv.Tag //headers in force at start
 	headers      [headerKinds]libflv.Tag //headers in force at the end of the log
@@ -92,6 +99,7 @@ func (g *gop) WriteKeyFrame(tag libflv.Tag) {
 		return
 	}
 	g.start = g.base + uint64(len(g.log))
+	g.oldBytes = g.bytes
 	g.startHeaders = g.headers
 	g.append(tag, false)
 }
@@ -99,14 +107,10 @@ func (g *gop) WriteKeyFrame(tag libflv.Tag) {
 // append adds a tag to the log and trims it. Called with mu held.
 func (g *gop) append(tag libflv.Tag, header bool) {
 	g.log = append(g.log, gopEntry(tag, header))
-	drop := 0
-	if old := int(g.start - g.base); old > maxOldGOPTags {
-		drop = old - maxOldGOPTags
-	}
-	if over := len(g.log) - maxGOPTags; over > drop {
-		drop = over
-	}
-	for i := 0; i < drop; i++ {
+	g.bytes += tagSize(tag)
+	for g.tooLong() {
+		size := tagSize(g.log[0])
+		g.bytes -= size
 		if g.base == g.start {
 			//The group of pictures itself is too long: viewers have to
 			//start inside it.
@@ -114,6 +118,8 @@ func (g *gop) append(tag libflv.Tag, header bool) {
 				g.startHeaders[headerKindOf(h.Tag)] = h.Tag
 			}
 			g.start++
+		} else {
+			g.oldBytes -= size
 		}
 		g.log[0] = nil
 		g.log = g.log[1:]
@@ -122,6 +128,18 @@ func (g *gop) append(tag libflv.Tag, header bool) {
 	g.cond.Broadcast()
 }
 
+// tooLong reports whether the oldest tag of the log is to be dropped.
+func (g *gop) tooLong() bool {
+	return len(g.log) > maxGOPTags ||
+		int(g.start-g.base) > maxOldGOPTags ||
+		g.oldBytes > maxOldGOPBytes ||
+		g.bytes > maxGOPBytes && len(g.log) > 1
+}
+
+func tagSize(tag libflv.Tag) int {
+	return int(tag.GetTagInfo().DataSize)
+}
+
 // headerEntry marks the tags of the log that WriteMeta added.
 type headerEntry struct{ libflv.Tag }
 
-- 
2.43.0


From 51436e4042b2db7ca0720cb5c8ea301777dfb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:17 +0000
Subject: [PATCH 45/48] fix: librtsp: the size of an access unit is bounded

---
 librtsp/rtp_unpack.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index e72c723..1805f84 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -80,6 +80,7 @@ type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+	size      int //of what is in fuBuf and pending
 
 	started bool   //lastSeq is valid
 	lastSeq uint16 //sequence number of the last packet pushed
@@ -90,6 +91,14 @@ type H264Reassembler struct {
 // to count as a late or duplicated packet rather than a new sequence.
 const maxMisorder = 100
 
+// maxAccessUnit bounds the size of an access unit; the FLV tag it becomes
+// cannot be bigger. Every packet and NAL unit counts for nalOverhead bytes
+// more than it has.
+const (
+	maxAccessUnit = 1 << 24
+	nalOverhead   = 32
+)
+
 // Push feeds one parsed RTP packet into the reassembler. Returns the
 // list of NAL units that completed an access unit (the M-bit was set
 // on this packet, or this packet belongs to the next access unit) plus
@@ -119,7 +128,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	r.lastSeq = pkt.SequenceNum
 	r.pendingTS = pkt.Timestamp
 
-	if !r.damaged && !r.append(pkt.Payload) {
+	if !r.damaged && (!r.append(pkt.Payload) || r.size > maxAccessUnit) {
 		r.drop()
 		r.damaged = true
 	}
@@ -138,6 +147,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 func (r *H264Reassembler) drop() {
 	r.fuBuf = nil
 	r.pending = nil
+	r.size = 0
 }
 
 // append adds one RTP payload to the access unit in progress. It returns
@@ -146,6 +156,7 @@ func (r *H264Reassembler) append(payload []byte) bool {
 	if len(payload) == 0 {
 		return true
 	}
+	r.size += len(payload) + nalOverhead
 	hdr := payload[0]
 	nalType := hdr & 0x1F
 	if nalType != 28 && r.fuBuf != nil {
@@ -166,6 +177,7 @@ func (r *H264Reassembler) append(payload []byte) bool {
 				return false
 			}
 			if n > 0 {
+				r.size += nalOverhead
 				r.pending = append(r.pending, append([]byte(nil), body[:n]...))
 			}
 			body = body[n:]
-- 
2.43.0


From 6384f3810a884417f094355d226bd46eda1a4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 46/48] fix: libsrt: the size of a PES packet is bounded

---
 libsrt/tsdemux.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index dcd3a26..dd33fa7 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -65,6 +65,10 @@ type Demuxer struct {
 	OnAudio   func(AudioFrame)
 }
 
+// maxPES bounds the size of a PES packet. With the length prefixes of its
+// NAL units it still fits an FLV tag.
+const maxPES = 12 << 20
+
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
@@ -262,6 +266,9 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 	}
 	if d.videoOpen {
 		d.videoBuf = append(d.videoBuf, payload...)
+		if len(d.videoBuf) > maxPES {
+			d.videoBuf, d.videoOpen = nil, false
+		}
 	}
 }
 
@@ -302,6 +309,9 @@ func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 	}
 	if d.audioOpen {
 		d.audioBuf = append(d.audioBuf, payload...)
+		if len(d.audioBuf) > maxPES {
+			d.audioBuf, d.audioOpen = nil, false
+		}
 	}
 }
 
-- 
2.43.0


From 2297358fb119391a86c79d33e309aa2c1469ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 47/48] fix: libdash: the segment in progress is bounded

---
 libdash/dash.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 0836397..44e2fd4 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -71,6 +71,7 @@ type DASH struct {
 	// work is held while a tag is handled, and by Stop.
 	work           sync.Mutex
 	currentSamples []sampleWithTime
+	currentBytes   int    //size of them
 	lastTimestamp  uint32 //of the last video tag
 	lastDTS        uint64 //the same, not wrapping
 	lastInterval   uint64
@@ -90,6 +91,14 @@ type DASH struct {
 	stopped   int32
 }
 
+// maxSegmentBytes bounds the segment in progress: a stream without
+// keyframes never gets to its end. A sample counts for sampleOverhead
+// bytes more than it has.
+const (
+	maxSegmentBytes = 128 << 20
+	sampleOverhead  = 64
+)
+
 // sampleWithTime tracks a sample plus the absolute DTS that produced
 // it, so that durations (= next.DTS - this.DTS) and segment start time
 // can be computed at finalisation.
@@ -291,6 +300,18 @@ func (d *DASH) handle(v *libflv.VideoTag) {
 	if len(v.Data()) == 0 {
 		return
 	}
+	if len(d.currentSamples) == 0 {
+		d.currentBytes = 0
+	}
+	d.currentBytes += len(v.Data()) + sampleOverhead
+	if len(d.currentSamples) > 0 && d.currentBytes > maxSegmentBytes {
+		fmt.Printf("dash: segment of %d bytes dropped\n", d.currentBytes)
+		d.currentSamples = nil
+		if !isKey {
+			return
+		}
+		d.currentBytes = len(v.Data()) + sampleOverhead
+	}
 
 	if !d.seenSample {
 		d.mu.Lock()
-- 
2.43.0


From 17d4cea31520614d3ab9a1168dd628c60c58490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 48/48] fix: RTSP: a failed accept does not end the server

---
 librtmp/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/librtmp/server.go b/librtmp/server.go
index 1ffe69e..ebe4b9d 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -520,6 +520,14 @@ func (s *server) handleRTSP(wg *sync.WaitGroup) error {
 	for {
 		conn, err := listener.AcceptTCP()
 		if err != nil {
+			//an error that passes (out of file descriptors, a connection
+			//that was reset before it was accepted) must not end the
+			//server and with it every stream there is.
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				fmt.Println("RTSP accept error:", err)
+				time.Sleep(10 * time.Millisecond)
+				continue
+			}
 			return err
 		}
 		go newRTSPSession(conn, s).run()
-- 
2.43.0

