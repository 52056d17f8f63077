package scte35

import (
	"encoding/base64"
	"encoding/hex"
	"strings"
	"time"
)

// ---- C25: text forms ----

//@ spec (*SpliceInfoSection).Base64
//@ all C25
func specBase64(sis *SpliceInfoSection) string {
	b, err := sis.Encode()
	if err != nil {
		return ""
	}
	return base64.StdEncoding.EncodeToString(b)
}

//@ spec (*SpliceInfoSection).Hex
//@ all C25
func specHex(sis *SpliceInfoSection) string {
	b, err := sis.Encode()
	if err != nil {
		return ""
	}
	return hex.EncodeToString(b)
}

// A section is handed back whatever happens.
func vzNotNilSection(s string, sis *SpliceInfoSection, err error) bool { return sis != nil }

//@ spec DecodeBase64
//@ all C25
//@ ensures vzNotNilSection
//@ ensures-post C01
func specDecodeBase64(s string) (*SpliceInfoSection, error) {
	sis := &SpliceInfoSection{}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return sis, ErrUnsupportedEncoding
	}
	err = sis.Decode(b)
	return sis, err
}

//@ spec DecodeHex
//@ all C25
//@ ensures vzNotNilSection
//@ ensures-post C01
func specDecodeHex(s string) (*SpliceInfoSection, error) {
	sis := &SpliceInfoSection{}
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
		return sis, ErrUnsupportedEncoding
	}
	err = sis.Decode(b)
	return sis, err
}

//@ spec (Bytes).MarshalText
//@ all C18 C19
func specBytesMarshalText(b Bytes) ([]byte, error) {
	return []byte(hex.EncodeToString(b)), nil
}

//@ spec (*Bytes).UnmarshalText
//@ all C18 C19
func specBytesUnmarshalText(b *Bytes, text []byte) error {
	d, err := hex.DecodeString(string(text))
	if err != nil {
		return err
	}
	*b = d
	return nil
}

//@ lemma
//@ all C18 C19
func lemmaBytesText(b Bytes) {
	t, err := b.MarshalText()
	vassert(err == nil, "every byte string has a text form")
	var c Bytes
	err = c.UnmarshalText(t)
	vassert(err == nil, "the text form is accepted")
	vassert(string(c) == string(b), "and gives the bytes back")
}

// ---- C23: the duration of a signal ----

//@ spec (*SpliceInfoSection).Duration
//@ all C23
func specDuration(sis *SpliceInfoSection) time.Duration {
	if c, ok := sis.SpliceCommand.(*SpliceInsert); ok && c.BreakDuration != nil {
		return TicksToDuration(c.BreakDuration.Duration)
	}
	total := uint64(0)
	for i := 0; i < len(sis.SpliceDescriptors); i++ {
		if d, ok := sis.SpliceDescriptors[i].(*SegmentationDescriptor); ok && d.SegmentationDuration != nil {
			total += *d.SegmentationDuration
		}
	}
	return TicksToDuration(total)
}

// ---- the codes of commands and descriptors ----

//@ spec (*SpliceNull).Type
//@ inline
//@ all C07
func specSpliceNullType(c *SpliceNull) uint32 { return 0x00 }

//@ spec (*SpliceSchedule).Type
//@ inline
//@ all C07
func specSpliceScheduleType(c *SpliceSchedule) uint32 { return 0x04 }

//@ spec (*SpliceInsert).Type
//@ inline
//@ all C07
func specSpliceInsertType(c *SpliceInsert) uint32 { return 0x05 }

//@ spec (*TimeSignal).Type
//@ inline
//@ all C07
func specTimeSignalType(c *TimeSignal) uint32 { return 0x06 }

//@ spec (*BandwidthReservation).Type
//@ inline
//@ all C07
func specBandwidthReservationType(c *BandwidthReservation) uint32 { return 0x07 }

//@ spec (*PrivateCommand).Type
//@ inline
//@ all C07
func specPrivateCommandType(c *PrivateCommand) uint32 { return 0xFF }

//@ spec (*AvailDescriptor).Tag
//@ inline
//@ all C06
func specAvailTag(d *AvailDescriptor) uint32 { return 0 }

//@ spec (*DTMFDescriptor).Tag
//@ inline
//@ all C06
func specDTMFTag(d *DTMFDescriptor) uint32 { return 1 }

//@ spec (*SegmentationDescriptor).Tag
//@ inline
//@ all C06
func specSegmentationTag(d *SegmentationDescriptor) uint32 { return 2 }

//@ spec (*TimeDescriptor).Tag
//@ inline
//@ all C06
func specTimeTag(d *TimeDescriptor) uint32 { return 3 }

//@ spec (*AudioDescriptor).Tag
//@ inline
//@ all C06
func specAudioTag(d *AudioDescriptor) uint32 { return 4 }

//@ spec (*PrivateDescriptor).Tag
//@ inline
//@ all C06 C14
func specPrivateTag(d *PrivateDescriptor) uint32 { return d.PrivateTag }

//@ spec NewSpliceCommand
//@ all C03 C18
func specNewSpliceCommand(typ uint32) SpliceCommand { return specNewCommand(typ) }

//@ spec NewSpliceDescriptor
//@ all C04 C14 C18
func specNewSpliceDescriptor(identifier, tag uint32) SpliceDescriptor {
	return specNewDescriptor(identifier, tag)
}

// ---- four-character identifiers ----

func specFourCC(v uint32) string {
	w := vzNewWr()
	w.put(32, uint64(v))
	return string(w.done())
}

//@ spec (*PrivateCommand).IdentifierString
//@ all C14
func specPrivateCommandIdentifier(c *PrivateCommand) string { return specFourCC(c.Identifier) }

//@ spec (*PrivateDescriptor).IdentifierString
//@ all C14
func specPrivateDescriptorIdentifier(d *PrivateDescriptor) string { return specFourCC(d.Identifier) }

// ---- flags that follow from what is present ----

//@ spec (*SpliceInfoSection).EncryptedPacketFlag
//@ all C07
func specEncryptedPacketFlag(sis *SpliceInfoSection) bool {
	return sis.EncryptedPacket.EncryptionAlgorithm != 0
}

//@ spec (*SegmentationDescriptor).DeliveryNotRestrictedFlag
//@ all C06
func specDeliveryNotRestrictedFlag(d *SegmentationDescriptor) bool { return d.DeliveryRestrictions == nil }

//@ spec (*SegmentationDescriptor).ProgramSegmentationFlag
//@ all C06
func specProgramSegmentationFlag(d *SegmentationDescriptor) bool { return len(d.Components) == 0 }

//@ spec (*SegmentationDescriptor).SegmentationDurationFlag
//@ all C06
func specSegmentationDurationFlag(d *SegmentationDescriptor) bool { return d.SegmentationDuration != nil }

//@ spec (*SpliceInsert).DurationFlag
//@ all C05
func specInsertDurationFlag(c *SpliceInsert) bool { return c.BreakDuration != nil }

//@ spec (*SpliceInsert).ProgramSpliceFlag
//@ all C05
func specInsertProgramFlag(c *SpliceInsert) bool { return c.Program != nil }

//@ spec (*SpliceInsert).TimeSpecifiedFlag
//@ all C05
//@ nilrecv
func specInsertTimeFlag(c *SpliceInsert) bool {
	return c != nil && c.Program != nil && c.Program.SpliceTime.PTSTime != nil
}

//@ spec (*SpliceInsertComponent).TimeSpecifiedFlag
//@ all C05
//@ nilrecv
func specInsertComponentTimeFlag(c *SpliceInsertComponent) bool {
	return c != nil && c.SpliceTime != nil && c.SpliceTime.PTSTime != nil
}

//@ spec (*SpliceInsertProgram).TimeSpecifiedFlag
//@ all C05
//@ nilrecv
func specInsertProgramTimeFlag(p *SpliceInsertProgram) bool {
	return p != nil && p.SpliceTime.PTSTime != nil
}

//@ spec (*SpliceTime).TimeSpecifiedFlag
//@ all C05
//@ nilrecv
func specTimeSpecifiedFlag(t *SpliceTime) bool { return t != nil && t.PTSTime != nil }

//@ spec (*TimeSignal).timeSpecifiedFlag
//@ all C05
//@ nilrecv
func specTimeSignalFlag(c *TimeSignal) bool { return c != nil && c.SpliceTime.PTSTime != nil }

//@ spec (*Event).DurationFlag
//@ all C05
//@ nilrecv
func specEventDurationFlag(e *Event) bool { return e != nil && e.BreakDuration != nil }

//@ spec (*Event).ProgramSpliceFlag
//@ all C05
//@ nilrecv
func specEventProgramFlag(e *Event) bool { return e != nil && e.Program != nil }

//@ spec NewTimeSignal
//@ all C05
func specNewTimeSignal(pts uint64) *TimeSignal {
	return &TimeSignal{SpliceTime: SpliceTime{PTSTime: &pts}}
}

//@ spec NewSpliceInsertProgram
//@ all C05
func specNewSpliceInsertProgram(pts uint64) *SpliceInsertProgram {
	return &SpliceInsertProgram{SpliceTime: SpliceTime{PTSTime: &pts}}
}
