From ab0291249b16165b3573d01b74ae72401f679f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 01/20] fix: encode audio_count with 4 bits and flush the
 audio_descriptor

---
 pkg/scte35/audio_descriptor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/audio_descriptor.go b/pkg/scte35/audio_descriptor.go
index 4ad6c18..61c167d 100644
--- a/pkg/scte35/audio_descriptor.go
+++ b/pkg/scte35/audio_descriptor.go
@@ -81,16 +81,20 @@ func (sd *AudioDescriptor) encode() ([]byte, error) {
 	iow.PutUint32(8, AudioDescriptorTag)
 	iow.PutUint32(8, uint32(length))
 	iow.PutUint32(32, CUEIdentifier)
-	iow.PutUint32(8, uint32(len(sd.AudioChannels)))
+	iow.PutUint32(4, uint32(len(sd.AudioChannels)))
 	iow.PutUint32(4, Reserved)
 	for _, ad := range sd.AudioChannels {
 		iow.PutUint32(8, ad.ComponentTag)
-		_, _ = iow.Write([]byte(ad.ISOCode))
+		if _, err := iow.Write([]byte(ad.ISOCode)); err != nil {
+			return buf, err
+		}
 		iow.PutUint32(3, ad.BitStreamMode)
 		iow.PutUint32(4, ad.NumChannels)
 		iow.PutBit(ad.FullSrvcAudio)
 	}
-	return buf, nil
+
+	err := iow.Flush()
+	return buf, err
 }
 
 // descriptorLength returns the descriptor_length
-- 
2.43.0


From c920bda5b168379b09c55e8e3dc7f17137d3effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 02/20] fix: a cancelled splice_insert ends after its cancel
 indicator

---
 pkg/scte35/splice_insert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/scte35/splice_insert.go b/pkg/scte35/splice_insert.go
index 30af225..b101c2d 100644
--- a/pkg/scte35/splice_insert.go
+++ b/pkg/scte35/splice_insert.go
@@ -162,10 +162,10 @@ func (cmd *SpliceInsert) decode(b []byte) error {
 			r.Skip(6) // reserved
 			cmd.BreakDuration.Duration = r.Uint64(33)
 		}
+		cmd.UniqueProgramID = r.Uint32(16)
+		cmd.AvailNum = r.Uint32(8)
+		cmd.AvailsExpected = r.Uint32(8)
 	}
-	cmd.UniqueProgramID = r.Uint32(16)
-	cmd.AvailNum = r.Uint32(8)
-	cmd.AvailsExpected = r.Uint32(8)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_insert: %w", err)
-- 
2.43.0


From 1fd18c0ce2aa2c6085f532dc048368eede604032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 03/20] fix: a cancelled splice_schedule event ends after its
 indicators

---
 pkg/scte35/splice_schedule.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/splice_schedule.go b/pkg/scte35/splice_schedule.go
index ef47b7a..487a34a 100644
--- a/pkg/scte35/splice_schedule.go
+++ b/pkg/scte35/splice_schedule.go
@@ -81,10 +81,10 @@ func (cmd *SpliceSchedule) decode(b []byte) error {
 				r.Skip(6) // reserved
 				e.BreakDuration.Duration = r.Uint64(33)
 			}
+			e.UniqueProgramID = r.Uint32(16)
+			e.AvailNum = r.Uint32(8)
+			e.AvailsExpected = r.Uint32(8)
 		}
-		e.UniqueProgramID = r.Uint32(16)
-		e.AvailNum = r.Uint32(8)
-		e.AvailsExpected = r.Uint32(8)
 		cmd.Events[i] = e
 	}
 
@@ -124,10 +124,10 @@ func (cmd *SpliceSchedule) encode() ([]byte, error) {
 				iow.PutUint32(6, Reserved)
 				iow.PutUint64(33, e.BreakDuration.Duration)
 			}
+			iow.PutUint32(16, e.UniqueProgramID)
+			iow.PutUint32(8, e.AvailNum)
+			iow.PutUint32(8, e.AvailsExpected)
 		}
-		iow.PutUint32(16, e.UniqueProgramID)
-		iow.PutUint32(8, e.AvailNum)
-		iow.PutUint32(8, e.AvailsExpected)
 	}
 
 	err := iow.Flush()
-- 
2.43.0


From 8c505e946eb01346504a30cde1e29d5c74739543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 04/20] fix: report bytes left after an empty command as buffer
 underflow

---
 pkg/scte35/bandwidth_reservation.go | 2 +-
 pkg/scte35/splice_null.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/bandwidth_reservation.go b/pkg/scte35/bandwidth_reservation.go
index c6607f7..c14c258 100644
--- a/pkg/scte35/bandwidth_reservation.go
+++ b/pkg/scte35/bandwidth_reservation.go
@@ -52,7 +52,7 @@ func (cmd *BandwidthReservation) Type() uint32 {
 // decode a binary bandwidth_reservation.
 func (cmd *BandwidthReservation) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferOverflow)
+		return fmt.Errorf("bandwidth_reservation: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
diff --git a/pkg/scte35/splice_null.go b/pkg/scte35/splice_null.go
index 6ac71cf..7edf6af 100644
--- a/pkg/scte35/splice_null.go
+++ b/pkg/scte35/splice_null.go
@@ -46,7 +46,7 @@ func (cmd *SpliceNull) Type() uint32 {
 // decode a binary splice_null.
 func (cmd *SpliceNull) decode(b []byte) error {
 	if len(b) > 0 {
-		return fmt.Errorf("splice_null: %w", ErrBufferOverflow)
+		return fmt.Errorf("splice_null: %w", ErrBufferUnderflow)
 	}
 	return nil
 }
-- 
2.43.0


From 10dd8e4cbaee8f7ee1e70b125a3f30b7047f9c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 05/20] fix: restore a private_command from XML

---
 pkg/scte35/splice_info_section.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index a392c95..135244d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -436,6 +436,9 @@ func (i *iSIS) SpliceCommand() SpliceCommand {
 	if i.BandwidthReservation != nil {
 		return i.BandwidthReservation
 	}
+	if i.PrivateCommand != nil {
+		return i.PrivateCommand
+	}
 
 	// no valid splice_command?
 	if i.SpliceCommandRaw == nil {
-- 
2.43.0


From adaaaf437786bb8a6a4421eaca7f8d90546005f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 06/20] fix: include the written E_CRC_32 in CRC_32

---
 pkg/scte35/splice_info_section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 135244d..43d328d 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -212,6 +212,10 @@ func (sis *SpliceInfoSection) Encode() ([]byte, error) {
 	// Encoding encrypted signals is untested.
 	if sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone {
 		iow.PutUint32(32, calculateCRC32(buf[:iow.Index()/8])) // E_CRC_32
+		// CRC_32 also covers E_CRC_32
+		if err := iow.Flush(); err != nil {
+			return buf, err
+		}
 	}
 
 	// Re-calculate CRC_32 to ensure correctness
-- 
2.43.0


From 7e88a273589ca051b2352510d30305699fa1cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 07/20] fix: do not mistake a binary EIDR containing 0x2f for a
 canonical one

---
 pkg/scte35/segmentation_upid.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 5e26ccc..4498323 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -303,8 +303,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 
 // canonicalEIDR returns a canonical EIDR.
 func canonicalEIDR(b []byte) string {
-	// already canonical
-	if bytes.Contains(b, []byte("/")) {
+	// already canonical (12 bytes are always the binary form, even when one of
+	// them happens to be a slash)
+	if len(b) != 12 && bytes.Contains(b, []byte("/")) {
 		return string(b)
 	}
 
-- 
2.43.0


From 417c44c4c886546c14d53d47835f304c60ce51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 08/20] fix: do not wrap GPS seconds beyond 2106

---
 pkg/scte35/scte35.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index c8fab99..2a0256d 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -125,7 +125,7 @@ func (bb *Bytes) UnmarshalText(b []byte) error {
 // from GPS Epoch (01 Jan 1980, 00:00:00 UTC)
 func NewUTCSpliceTime(sec uint32) UTCSpliceTime {
 	return UTCSpliceTime{
-		time.Unix(int64(sec+unixEpochToGPSEpoch), 0),
+		time.Unix(int64(sec)+int64(unixEpochToGPSEpoch), 0),
 	}
 }
 
-- 
2.43.0


From 07fd3aff212d150a6f4f711d774e5f3405e614cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 09/20] fix: convert ticks and durations exactly

---
 pkg/scte35/scte35.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index 2a0256d..e72a0c9 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -23,7 +23,6 @@ import (
 	"encoding/hex"
 	"errors"
 	"log"
-	"math"
 	"strings"
 	"time"
 
@@ -85,13 +84,22 @@ func DecodeHex(s string) (*SpliceInfoSection, error) {
 
 // DurationToTicks converts a duration to 90MhZ ticks.
 func DurationToTicks(d time.Duration) uint64 {
-	return uint64(math.Ceil(float64(d) * TicksPerSecond / float64(time.Second)))
+	// 9 ticks are exactly 100 microseconds
+	unit := 100 * time.Microsecond
+	ticks := int64(d/unit) * 9
+	rem := int64(d%unit) * 9
+	ticks += rem / int64(unit)
+	if rem%int64(unit) > 0 {
+		ticks++
+	}
+	return uint64(ticks)
 }
 
 // TicksToDuration converts 90MhZ ticks to a duration.
 func TicksToDuration(ticks uint64) time.Duration {
-	s := float64(ticks) / float64(TicksPerSecond)
-	return time.Duration(int64(s * float64(time.Second)))
+	// 9 ticks are exactly 100 microseconds
+	unit := uint64(100 * time.Microsecond)
+	return time.Duration(ticks/9*unit + ticks%9*unit/9)
 }
 
 // BreakDuration specifies the duration of the commercial break(s). It may be
-- 
2.43.0


From 3bd5509d568a9a8d30241e66017f530aeddf4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 10/20] fix: do not panic on an MPU without a format identifier

---
 pkg/scte35/segmentation_upid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 4498323..3cc712a 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -250,6 +250,9 @@ func (upid *SegmentationUPID) eidrTypeName() string {
 
 // formatIdentifierString returns the format identifier as a string
 func (upid *SegmentationUPID) formatIdentifierString() string {
+	if upid.FormatIdentifier == nil {
+		return ""
+	}
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 	return string(b)
@@ -275,7 +278,9 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// MPU - custom
 	case SegmentationUPIDTypeMPU:
 		b := make([]byte, 4)
-		binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		if upid.FormatIdentifier != nil {
+			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
+		}
 		v, err := base64.StdEncoding.DecodeString(upid.Value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
-- 
2.43.0


From ff39ecd926d8d182475dfad2ccc44bf16b5b5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 11/20] fix: reject a null splice_descriptor in JSON

---
 pkg/scte35/splice_descriptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 655d728..156d1aa 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -103,6 +103,9 @@ func (sds *SpliceDescriptors) UnmarshalJSON(data []byte) error {
 		if err := json.Unmarshal(items[i], &sd); err != nil {
 			return err
 		}
+		if sd == nil {
+			return fmt.Errorf("unsupported splice_descriptor: %s", items[i])
+		}
 
 		results[i] = sd
 	}
-- 
2.43.0


From 673dc61098097ea222f65402310ebbcf4fb36274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 12/20] fix: do not panic marshalling a section without a
 command to JSON

---
 pkg/scte35/splice_info_section.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 43d328d..b663b2b 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -290,7 +290,9 @@ func (sis *SpliceInfoSection) Table(prefix, indent string) string {
 func (sis *SpliceInfoSection) MarshalJSON() ([]byte, error) {
 	// ensure JSONTypes are all set before marshalling. These are included in
 	// each SpliceCommand.Type() and SpliceDescriptor.Tag() implementation.
-	sis.SpliceCommand.Type()
+	if sis.SpliceCommand != nil {
+		sis.SpliceCommand.Type()
+	}
 	for i := range sis.SpliceDescriptors {
 		sis.SpliceDescriptors[i].Tag()
 	}
-- 
2.43.0


From b694044840a914ea1c09991ff1b4f4bba76d1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 13/20] fix: render *uint32 values, not their addresses

---
 pkg/scte35/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/table.go b/pkg/scte35/table.go
index 702e16e..23feb3b 100644
--- a/pkg/scte35/table.go
+++ b/pkg/scte35/table.go
@@ -69,6 +69,11 @@ func valueString(value any) string {
 		return strconv.FormatUint(uint64(vt), 10)
 	case uint64:
 		return strconv.FormatUint(vt, 10)
+	case *uint32:
+		if vt == nil {
+			return ""
+		}
+		return strconv.FormatUint(uint64(*vt), 10)
 	case *uint64:
 		if vt == nil {
 			return ""
-- 
2.43.0


From 97f488249534e176479a0663ff67cd3e7c9fa3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 14/20] fix: show sub-segments for every segmentation type that
 has them

---
 pkg/scte35/segmentation_descriptor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/scte35/segmentation_descriptor.go b/pkg/scte35/segmentation_descriptor.go
index d4611c0..e925c35 100644
--- a/pkg/scte35/segmentation_descriptor.go
+++ b/pkg/scte35/segmentation_descriptor.go
@@ -602,10 +602,14 @@ func (sd *SegmentationDescriptor) writeTo(t *table) {
 	t.row(1, "segment_num", sd.SegmentNum)
 	t.row(1, "segments_expected", sd.SegmentsExpected)
 	switch sd.SegmentationTypeID {
-	case SegmentationTypeProviderPOStart,
+	case SegmentationTypeProviderAdStart,
+		SegmentationTypeDistributorAdStart,
+		SegmentationTypeProviderPOStart,
 		SegmentationTypeDistributorPOStart,
 		SegmentationTypeProviderOverlayPOStart,
-		SegmentationTypeDistributorOverlayPOStart:
+		SegmentationTypeDistributorOverlayPOStart,
+		SegmentationTypeProviderAdBlockStart,
+		SegmentationTypeDistributorAdBlockStart:
 		if sd.SubSegmentNum != nil {
 			t.row(1, "sub_segment_num", sd.SubSegmentNum)
 		}
-- 
2.43.0


From 02bd6795ad3880651f7d95818e51589f4ba6d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 15/20] fix: do not truncate the DTMF preroll in the table

---
 pkg/scte35/dtmf_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 2183bd8..94e8938 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -45,7 +45,7 @@ func (sd *DTMFDescriptor) writeTo(t *table) {
 	t.row(1, "splice_descriptor_tag", fmt.Sprintf("%#02x", DTMFDescriptorTag))
 	t.row(1, "descriptor_length", sd.length())
 	t.row(1, "identifier", fmt.Sprintf("%#08x (%s)", CUEIdentifier, CUEIASCII))
-	t.row(1, "preroll", float32(sd.Preroll/10))
+	t.row(1, "preroll", float32(sd.Preroll)/10)
 	t.row(1, "dtmf_count", len(sd.DTMFChars))
 	t.row(1, "dtmf_chars", sd.DTMFChars)
 	t.row(0, "}", nil)
-- 
2.43.0


From 7eaead05643bef19ec6d0b4b39a3be9616abf401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 16/20] fix: decoding into a used section leaves no trace of
 its past

---
 pkg/scte35/splice_info_section.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index b663b2b..050192e 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -80,6 +80,9 @@ func (sis *SpliceInfoSection) Base64() string {
 
 // Decode the contents of a byte array into this SpliceInfoSection.
 func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
+	// nothing of a previously decoded signal may remain
+	*sis = SpliceInfoSection{}
+
 	r := iobit.NewReader(b)
 	r.Skip(8) // table_id (shall be 0xFC)
 	r.Skip(1) // section_syntax_indicator (shall be 0)
@@ -322,6 +325,7 @@ func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
 		return err
 	}
 
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
@@ -342,6 +346,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	if err := d.DecodeElement(&tmp, &start); err != nil {
 		return err
 	}
+	*sis = SpliceInfoSection{}
 	sis.EncryptedPacket = tmp.EncryptedPacket
 	sis.SpliceCommand = tmp.SpliceCommand()
 	sis.SpliceDescriptors = tmp.SpliceDescriptors
-- 
2.43.0


From 8db3564686e4694d56b31f9d0444bb46e0c2b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 17/20] fix: read preRollMilliSeconds from XML

---
 pkg/scte35/splice_info_section.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 050192e..0c36213 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -358,6 +358,7 @@ func (sis *SpliceInfoSection) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 	sis.PTSAdjustment = tmp.PTSAdjustment
 	sis.ProtocolVersion = tmp.ProtocolVersion
 	sis.Tier = tmp.Tier
+	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
 	return nil
 }
 
@@ -424,6 +425,7 @@ type iSIS struct {
 	PrivateCommand       *PrivateCommand       `xml:"http://www.scte.org/schemas/35 PrivateCommand" json:"-"`
 	SpliceDescriptors    SpliceDescriptors     `xml:",any" json:"spliceDescriptors"`
 	SAPType              *uint32               `xml:"sapType,attr" json:"sapType,omitempty"`
+	PreRollMilliSeconds  uint32                `xml:"preRollMilliSeconds,attr" json:"-"`
 	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`
 	ProtocolVersion      uint32                `xml:"protocolVersion,attr" json:"protocolVersion"`
 	Tier                 uint32                `xml:"tier,attr" json:"tier"`
-- 
2.43.0


From 50ab85b88ec6ae175f6bc8501004dcdc344f7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 18/20] fix: asking an identifier for its bytes does not change
 it

---
 pkg/scte35/segmentation_upid.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/segmentation_upid.go b/pkg/scte35/segmentation_upid.go
index 3cc712a..e8842e2 100644
--- a/pkg/scte35/segmentation_upid.go
+++ b/pkg/scte35/segmentation_upid.go
@@ -260,16 +260,16 @@ func (upid *SegmentationUPID) formatIdentifierString() string {
 
 // valueBytes returns the value as a byte array.
 func (upid *SegmentationUPID) valueBytes() []byte {
-	upid.Value = strings.TrimSpace(upid.Value)
+	value := strings.TrimSpace(upid.Value)
 
 	// this switch should align with the constructor above
 	switch upid.Type {
 	// EIDR - custom
 	case SegmentationUPIDTypeEIDR:
-		return upid.compressEIDR(upid.Value)
+		return upid.compressEIDR(value)
 	// ISAN - base64
 	case SegmentationUPIDTypeISAN, SegmentationUPIDTypeISANDeprecated:
-		b, err := base64.StdEncoding.DecodeString(upid.Value)
+		b, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -281,7 +281,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 		if upid.FormatIdentifier != nil {
 			binary.BigEndian.PutUint32(b, *upid.FormatIdentifier)
 		}
-		v, err := base64.StdEncoding.DecodeString(upid.Value)
+		v, err := base64.StdEncoding.DecodeString(value)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -291,7 +291,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// TI - unsigned int
 	case SegmentationUPIDTypeTI:
 		b := make([]byte, 8)
-		i, err := strconv.ParseUint(strings.TrimSpace(upid.Value), 10, 64)
+		i, err := strconv.ParseUint(value, 10, 64)
 		if err != nil {
 			Logger.Printf("Error parsing UPID value: %s", err)
 			return b
@@ -301,7 +301,7 @@ func (upid *SegmentationUPID) valueBytes() []byte {
 	// everything else - plain text
 	default:
 		// encode UTF8 values as Latin1 (reversing the Decode above)
-		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(upid.Value))
+		b, _ := charmap.ISO8859_1.NewEncoder().Bytes([]byte(value))
 		return b
 	}
 }
-- 
2.43.0


From b6385e60ee60bc0767526e8ed799a647f9685137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 19/20] fix: reject lengths that exceed the available bytes

---
 pkg/scte35/dtmf_descriptor.go     | 2 +-
 pkg/scte35/scte35.go              | 8 ++++++++
 pkg/scte35/splice_descriptor.go   | 7 ++++++-
 pkg/scte35/splice_info_section.go | 8 ++++----
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/scte35/dtmf_descriptor.go b/pkg/scte35/dtmf_descriptor.go
index 94e8938..0ab8354 100644
--- a/pkg/scte35/dtmf_descriptor.go
+++ b/pkg/scte35/dtmf_descriptor.go
@@ -67,7 +67,7 @@ func (sd *DTMFDescriptor) decode(b []byte) error {
 	sd.Preroll = r.Uint32(8)
 	dtmfCount := int(r.Uint32(3))
 	r.Skip(5) // reserved
-	sd.DTMFChars = r.String(dtmfCount)
+	sd.DTMFChars = string(readBytes(&r, dtmfCount))
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("dtmf_descriptor: %w", err)
diff --git a/pkg/scte35/scte35.go b/pkg/scte35/scte35.go
index e72a0c9..03065d8 100644
--- a/pkg/scte35/scte35.go
+++ b/pkg/scte35/scte35.go
@@ -147,6 +147,14 @@ func (t UTCSpliceTime) GPSSeconds() uint32 {
 	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
 }
 
+// readBytes reads size bytes. If fewer are available those are returned and the
+// reader is left in an error state.
+func readBytes(r *iobit.Reader, size int) []byte {
+	b := r.Bytes(size)
+	r.Skip(uint(size-len(b)) * 8)
+	return b
+}
+
 // readerError returns the readers error state, if any.
 func readerError(r iobit.Reader) error {
 	if r.LeftBits() > 0 {
diff --git a/pkg/scte35/splice_descriptor.go b/pkg/scte35/splice_descriptor.go
index 156d1aa..aa57e38 100644
--- a/pkg/scte35/splice_descriptor.go
+++ b/pkg/scte35/splice_descriptor.go
@@ -171,12 +171,17 @@ func decodeSpliceDescriptors(b []byte) ([]SpliceDescriptor, error) {
 		// Decode the full splice_descriptor (including splice_descriptor_tag
 		// and descriptor_length).
 		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
-		if derr := sd.decode(r.Bytes(descriptorLength + 2)); derr != nil {
+		if derr := sd.decode(readBytes(&r, descriptorLength+2)); derr != nil {
 			// Store the error but continue decoding the rest of the signal.
 			err = derr
 		}
 		sds = append(sds, sd)
 	}
 
+	// The last descriptor_length may not exceed the descriptor loop.
+	if err == nil {
+		err = readerError(r)
+	}
+
 	return sds, err
 }
diff --git a/pkg/scte35/splice_info_section.go b/pkg/scte35/splice_info_section.go
index 0c36213..c9ffbe4 100644
--- a/pkg/scte35/splice_info_section.go
+++ b/pkg/scte35/splice_info_section.go
@@ -110,14 +110,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		r.Skip(uint(sis.SpliceCommand.length() * 8))
 	default:
 		// standard signal, decode as usual
-		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r.Bytes(spliceCommandLength))
+		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, readBytes(&r, spliceCommandLength))
 		if err != nil {
 			return err
 		}
 	}
 
 	descriptorLoopLength := int(r.Uint32(16)) // bytes
-	sis.SpliceDescriptors, err = decodeSpliceDescriptors(r.Bytes(descriptorLoopLength))
+	sis.SpliceDescriptors, err = decodeSpliceDescriptors(readBytes(&r, descriptorLoopLength))
 	if err != nil {
 		return err
 	}
@@ -127,14 +127,14 @@ func (sis *SpliceInfoSection) Decode(b []byte) (err error) {
 		if stuffedBytes > 0 {
 			sis.alignmentStuffing = r.Bytes(stuffedBytes)
 		}
-		sis.ecrc32 = r.Bytes(4)
+		sis.ecrc32 = readBytes(&r, 4)
 	} else {
 		stuffedBytes := (int(r.LeftBits()) - 32) / 8
 		if stuffedBytes > 0 {
 			sis.alignmentStuffing = r.Bytes(stuffedBytes)
 		}
 	}
-	sis.crc32 = r.Bytes(4)
+	sis.crc32 = readBytes(&r, 4)
 
 	if err := readerError(r); err != nil {
 		return fmt.Errorf("splice_info_section: %w", err)
-- 
2.43.0


From 0f3569f8f99e60f02200a5da73bed2af5df07f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 20/20] fix: encode reads its standard input unchanged and
 whole

---
 cmd/encode.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/encode.go b/cmd/encode.go
index cd3850d..d63477f 100644
--- a/cmd/encode.go
+++ b/cmd/encode.go
@@ -17,10 +17,10 @@
 package cmd
 
 import (
-	"bufio"
 	"encoding/json"
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,15 +47,13 @@ func encodeCommand() *cobra.Command {
 			if len(args) == 1 {
 				input = args[0]
 			} else {
-				scanner := bufio.NewScanner(os.Stdin)
-				for scanner.Scan() {
-					input += scanner.Text()
-				}
-				err = scanner.Err()
+				var b []byte
+				b, err = io.ReadAll(os.Stdin)
 				if err != nil {
 					_, _ = fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 					return
 				}
+				input = string(b)
 			}
 
 			switch {
-- 
2.43.0

