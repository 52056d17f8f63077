package scte35

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- C22: the tabular rendering ----

// vzTrow writes one row: the prefix, the indentation, the syntax element and,
// where it has one, its value.
func vzTrow(t *table, indents int, key string, hasValue bool, value string) {
	t.b.WriteString(t.prefix)
	for i := 0; i < indents; i++ {
		t.b.WriteString(t.indent)
	}
	t.b.WriteString(key)
	if hasValue {
		t.b.WriteString(": ")
		t.b.WriteString(value)
	}
	t.b.WriteString("\n")
}
func vzTmark(t *table, n int, key string)            { vzTrow(t, n, key, false, "") }
func vzTval(t *table, n int, key, v string)          { vzTrow(t, n, key, true, v) }
func vzTnum(t *table, n int, key string, v uint32)   { vzTval(t, n, key, strconv.FormatUint(uint64(v), 10)) }
func vzTnum64(t *table, n int, key string, v uint64) { vzTval(t, n, key, strconv.FormatUint(v, 10)) }
func vzTint(t *table, n int, key string, v int)      { vzTval(t, n, key, strconv.Itoa(v)) }
func vzTflag(t *table, n int, key string, v bool) {
	vzTval(t, n, key, vzFlagText(v))
}
func vzFlagText(v bool) string {
	if v {
		return "true"
	}
	return "false"
}
func vzTname(t *table, n int, key string, v uint32, name string) {
	vzTval(t, n, key, strconv.FormatUint(uint64(v), 10)+" ("+name+")")
}

func vzTableReady(t *table) bool { return t != nil && t.b != nil }

//@ spec newTable
//@ all C22
//@ panic C22
func specNewTable(prefix, indent string) *table {
	return &table{prefix: prefix, indent: indent, b: &strings.Builder{}}
}

func vzNeedsTableC(c SpliceCommand, t *table) bool    { return vzTableReady(t) }
func vzNeedsTableD(d SpliceDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec interface SpliceCommand.writeTo
//@ all C22
//@ panic C22
//@ modifies t.b
//@ requires vzNeedsTableC
func specIfaceCommandTable(c SpliceCommand, t *table) {}

//@ spec interface SpliceDescriptor.writeTo
//@ all C22
//@ panic C22
//@ modifies t.b
//@ requires vzNeedsTableD
func specIfaceDescriptorTable(d SpliceDescriptor, t *table) {}

//@ spec (*SpliceInfoSection).Table
//@ all C22
//@ panic C22
//@ hide (*SpliceInfoSection).sectionLength (*SpliceInfoSection).descriptorLoopLength (*SpliceInfoSection).SAPTypeName (*EncryptedPacket).encryptionAlgorithmName
func specTable(sis *SpliceInfoSection, prefix, indent string) string {
	t := &table{prefix: prefix, indent: indent, b: &strings.Builder{}}
	vzTmark(t, 0, "splice_info_section() {")
	vzTval(t, 1, "table_id", "0xfc")
	vzTval(t, 1, "section_syntax_indicator", "false")
	vzTval(t, 1, "private_indicator", "false")
	vzTname(t, 1, "sap_type", sis.SAPType, sis.SAPTypeName())
	vzTint(t, 1, "section_length", specSectionLength(sis))
	vzTmark(t, 0, "}")
	vzTnum(t, 0, "protocol_version", sis.ProtocolVersion)
	vzTname(t, 0, "encryption_algorithm", sis.EncryptedPacket.EncryptionAlgorithm, specEncryptionAlgorithmName(&sis.EncryptedPacket))
	vzTnum64(t, 0, "pts_adjustment", sis.PTSAdjustment)
	vzTnum(t, 0, "cw_index", sis.EncryptedPacket.CWIndex)
	vzTnum(t, 0, "tier", sis.Tier)
	if sis.SpliceCommand != nil {
		vzTint(t, 0, "splice_command_length", sis.SpliceCommand.length())
		vzTval(t, 0, "splice_command_type", fmt.Sprintf("%#02x", sis.SpliceCommand.Type()))
		sis.SpliceCommand.writeTo(t)
	}
	vzTint(t, 0, "descriptor_loop_length", specLoopLength(sis))
	for i := 0; i < len(sis.SpliceDescriptors); i++ {
		vassume(sis.SpliceDescriptors[i] != nil)
		sis.SpliceDescriptors[i].writeTo(t)
	}
	return t.b.String()
}

func vzNeedsTableNull(c *SpliceNull, t *table) bool { return vzTableReady(t) }

//@ spec (*SpliceNull).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableNull
func specNullTable(c *SpliceNull, t *table) { vzTmark(t, 0, "splice_null() {}") }

func vzNeedsTableBandwidth(c *BandwidthReservation, t *table) bool { return vzTableReady(t) }

//@ spec (*BandwidthReservation).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableBandwidth
func specBandwidthTable(c *BandwidthReservation, t *table) {
	vzTmark(t, 0, "bandwidth_reservation() {}")
}

func vzNeedsTableTimeSignal(c *TimeSignal, t *table) bool { return vzTableReady(t) }

//@ spec (*TimeSignal).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableTimeSignal
func specTimeSignalTable(c *TimeSignal, t *table) {
	vzTmark(t, 0, "time_signal() {")
	vzTflag(t, 1, "time_specified_flag", c.SpliceTime.PTSTime != nil)
	if c.SpliceTime.PTSTime != nil {
		vzTnum64(t, 1, "pts_time", *c.SpliceTime.PTSTime)
	}
	vzTmark(t, 0, "}")
}

func vzNeedsTablePrivateCommand(c *PrivateCommand, t *table) bool { return vzTableReady(t) }

//@ spec (*PrivateCommand).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTablePrivateCommand
func specPrivateCommandTable(c *PrivateCommand, t *table) {
	vzTmark(t, 0, "private_command() {")
	vzTval(t, 1, "identifier", fmt.Sprintf("%#08x", c.Identifier)+", ("+specFourCC(c.Identifier)+")")
	vzTval(t, 1, "private_byte", fmt.Sprintf("%#0x", c.PrivateBytes))
	vzTmark(t, 0, "}")
}

func vzNeedsTableInsert(c *SpliceInsert, t *table) bool { return vzTableReady(t) }

//@ spec (*SpliceInsert).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableInsert
func specInsertTable(c *SpliceInsert, t *table) {
	vzTmark(t, 0, "splice_insert() {")
	vzTnum(t, 1, "splice_event_id", c.SpliceEventID)
	vzTflag(t, 1, "splice_event_cancel_indicator", c.SpliceEventCancelIndicator)
	if !c.SpliceEventCancelIndicator {
		vzTflag(t, 1, "out_of_network_indicator", c.OutOfNetworkIndicator)
		vzTflag(t, 1, "program_splice_flag", c.Program != nil)
		vzTflag(t, 1, "duration_flag", c.BreakDuration != nil)
		vzTflag(t, 1, "splice_immediate_flag", c.SpliceImmediateFlag)
		if c.Program != nil && !c.SpliceImmediateFlag {
			vzTflag(t, 1, "time_specified_flag", c.Program.SpliceTime.PTSTime != nil)
			if c.Program.SpliceTime.PTSTime != nil {
				vzTnum64(t, 1, "pts_time", *c.Program.SpliceTime.PTSTime)
			}
		}
		if c.Program == nil {
			vzTint(t, 1, "component_count", len(c.Components))
			for i := 0; i < len(c.Components); i++ {
				vzTmark(t, 1, "component["+strconv.Itoa(i)+"]")
				vzTnum(t, 2, "component_tag", c.Components[i].Tag)
				if !c.SpliceImmediateFlag {
					pts := vzComponentTime(&c.Components[i])
					vzTflag(t, 2, "time_specified_flag", pts != nil)
					if pts != nil {
						vzTnum64(t, 2, "pts_time", *pts)
					}
				}
				vzTmark(t, 1, "}")
			}
		}
		if c.BreakDuration != nil {
			vzTflag(t, 1, "auto_return", c.BreakDuration.AutoReturn)
			vzTnum64(t, 1, "duration", c.BreakDuration.Duration)
		}
		vzTnum(t, 1, "unique_program_id", c.UniqueProgramID)
		vzTnum(t, 1, "avail_num", c.AvailNum)
		vzTnum(t, 1, "avails_expected", c.AvailsExpected)
	}
	vzTmark(t, 0, "}")
}

func vzNeedsTableSchedule(c *SpliceSchedule, t *table) bool { return vzTableReady(t) }

//@ spec (*SpliceSchedule).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableSchedule
func specScheduleTable(c *SpliceSchedule, t *table) {
	vzTmark(t, 0, "splice_schedule() {")
	vzTint(t, 1, "splice_count", len(c.Events))
	for i := 0; i < len(c.Events); i++ {
		specEventTable(t, i, &c.Events[i])
	}
	vzTmark(t, 0, "}")
}

func specEventTable(t *table, i int, e *Event) {
	vzTmark(t, 1, "event["+strconv.Itoa(i)+"]")
	vzTnum(t, 2, "splice_event_id", e.SpliceEventID)
	vzTflag(t, 2, "splice_event_cancel_indicator", e.SpliceEventCancelIndicator)
	vzTflag(t, 2, "event_id_compliance_flag", e.EventIDComplianceFlag)
	if !e.SpliceEventCancelIndicator {
		vzTflag(t, 2, "out_of_network_indicator", e.OutOfNetworkIndicator)
		vzTflag(t, 2, "program_splice_flag", e.Program != nil)
		vzTflag(t, 2, "duration_flag", e.BreakDuration != nil)
		if e.Program != nil {
			vzTval(t, 2, "utc_splice_time", fmt.Sprintf("%s", e.Program.UTCSpliceTime))
		} else {
			vzTint(t, 2, "component_count", len(e.Components))
			for j := 0; j < len(e.Components); j++ {
				vzTmark(t, 2, "component["+strconv.Itoa(j)+"]")
				vzTnum(t, 3, "component_tag", e.Components[j].Tag)
				vzTval(t, 3, "utc_splice_time", fmt.Sprintf("%s", e.Components[j].UTCSpliceTime))
				vzTmark(t, 2, "}")
			}
		}
		if e.BreakDuration != nil {
			vzTflag(t, 1, "auto_return", e.BreakDuration.AutoReturn)
			vzTnum64(t, 1, "duration", e.BreakDuration.Duration)
		}
		vzTnum(t, 1, "unique_program_id", e.UniqueProgramID)
		vzTnum(t, 1, "avail_num", e.AvailNum)
		vzTnum(t, 1, "avails_expected", e.AvailsExpected)
	}
	vzTmark(t, 1, "}")
}

func vzThead(t *table, key string, tag uint32, length int, sep string) {
	vzTmark(t, 0, key)
	vzTval(t, 1, "splice_descriptor_tag", fmt.Sprintf("%#02x", tag))
	vzTint(t, 1, "descriptor_length", length)
	vzTval(t, 1, "identifier", "0x43554549"+sep+"(CUEI)")
}

func vzNeedsTableAvail(d *AvailDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*AvailDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableAvail
func specAvailTable(d *AvailDescriptor, t *table) {
	vzThead(t, "avail_descriptor() {", 0, 8, ", ")
	vzTnum(t, 1, "provider_avail_id", d.ProviderAvailID)
	vzTmark(t, 0, "}")
}

func vzNeedsTableDTMF(d *DTMFDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*DTMFDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableDTMF
func specDTMFTable(d *DTMFDescriptor, t *table) {
	vzThead(t, "dtmf_descriptor() {", 1, 6+len(d.DTMFChars), " ")
	vzTval(t, 1, "preroll", fmt.Sprintf("%.2f", float32(d.Preroll)/10))
	vzTint(t, 1, "dtmf_count", len(d.DTMFChars))
	vzTval(t, 1, "dtmf_chars", d.DTMFChars)
	vzTmark(t, 0, "}")
}

func vzNeedsTableTime(d *TimeDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*TimeDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableTime
func specTimeTable(d *TimeDescriptor, t *table) {
	vzThead(t, "time_descriptor() {", 3, 16, ", ")
	vzTnum64(t, 1, "tai_seconds", d.TAISeconds)
	vzTnum(t, 1, "tai_ns", d.TAINS)
	vzTnum(t, 1, "utc_offset", d.UTCOffset)
	vzTmark(t, 0, "}")
}

func vzNeedsTableAudio(d *AudioDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*AudioDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableAudio
func specAudioTable(d *AudioDescriptor, t *table) {
	vzThead(t, "audio_descriptor() {", 4, 5+5*len(d.AudioChannels), ", ")
	vzTint(t, 1, "audio_count", len(d.AudioChannels))
	for i := 0; i < len(d.AudioChannels); i++ {
		a := d.AudioChannels[i]
		vzTmark(t, 1, "audio_channel["+strconv.Itoa(i)+"] {")
		vzTnum(t, 2, "component_tag", a.ComponentTag)
		vzTval(t, 2, "iso_code", a.ISOCode)
		vzTnum(t, 2, "bit_stream_mode", a.BitStreamMode)
		vzTnum(t, 2, "num_channels", a.NumChannels)
		vzTflag(t, 2, "full_srvc_audio", a.FullSrvcAudio)
		vzTmark(t, 1, "}")
	}
	vzTmark(t, 0, "}")
}

func vzNeedsTablePrivate(d *PrivateDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*PrivateDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTablePrivate
func specPrivateTable(d *PrivateDescriptor, t *table) {
	vzTmark(t, 0, "private_descriptor() {")
	vzTval(t, 1, "splice_descriptor_tag", fmt.Sprintf("%#02x", d.PrivateTag))
	vzTint(t, 1, "descriptor_length", 4+len(d.PrivateBytes))
	vzTval(t, 1, "identifier", fmt.Sprintf("%#08x", d.Identifier)+", ("+specFourCC(d.Identifier)+")")
	vzTval(t, 1, "private_bytes", fmt.Sprintf("%#0x", d.PrivateBytes))
	vzTmark(t, 0, "}")
}

func vzNeedsTableSegmentation(d *SegmentationDescriptor, t *table) bool { return vzTableReady(t) }

//@ spec (*SegmentationDescriptor).writeTo
//@ all C22
//@ panic C22
//@ requires vzNeedsTableSegmentation
//@ hide (*SegmentationDescriptor).length (*SegmentationDescriptor).Name (*SegmentationDescriptor).SegmentationUpidLength (*SegmentationUPID).Name (*DeliveryRestrictions).deviceRestrictionsName
func specSegmentationTable(d *SegmentationDescriptor, t *table) {
	vzThead(t, "segmentation_descriptor() {", 2, d.length(), " ")
	vzTnum(t, 1, "segmentation_event_id", d.SegmentationEventID)
	vzTflag(t, 1, "segmentation_event_cancel_indicator", d.SegmentationEventCancelIndicator)
	vzTflag(t, 1, "segmentation_event_id_compliance_indicator", d.SegmentationEventIDComplianceIndicator)
	if !d.SegmentationEventCancelIndicator {
		vzTflag(t, 1, "program_segmentation_flag", len(d.Components) == 0)
		vzTflag(t, 1, "segmentation_duration_flag", d.SegmentationDuration != nil)
		vzTflag(t, 1, "delivery_not_restricted_flag", d.DeliveryRestrictions == nil)
		if d.DeliveryRestrictions != nil {
			r := d.DeliveryRestrictions
			vzTflag(t, 1, "web_delivery_allowed_flag", r.WebDeliveryAllowedFlag)
			vzTflag(t, 1, "no_regional_blackout_flag", r.NoRegionalBlackoutFlag)
			vzTflag(t, 1, "archive_allowed_flag", r.ArchiveAllowedFlag)
			vzTname(t, 1, "device_restrictions", r.DeviceRestrictions, specDeviceRestrictionsName(r))
		}
		if len(d.Components) > 0 {
			vzTint(t, 1, "component_count", len(d.Components))
			for i := 0; i < len(d.Components); i++ {
				vzTmark(t, 1, "component["+strconv.Itoa(i)+"] {")
				vzTnum(t, 2, "component_tag", d.Components[i].Tag)
				vzTnum64(t, 2, "pts_offset", d.Components[i].PTSOffset)
				vzTmark(t, 1, "}")
			}
		}
		if d.SegmentationDuration != nil {
			vzTnum64(t, 1, "segmentation_duration", *d.SegmentationDuration)
		}
		vzTint(t, 1, "segmentation_upid_length", d.SegmentationUpidLength())
		for i := 0; i < len(d.SegmentationUPIDs); i++ {
			u := d.SegmentationUPIDs[i]
			vzTmark(t, 1, "segmentation_upid["+strconv.Itoa(i)+"] {")
			vzTval(t, 2, "segmentation_upid_type", fmt.Sprintf("%#02x", u.Type)+" ("+u.Name()+")")
			if u.Type == 0x0c {
				f := ""
				if u.FormatIdentifier != nil {
					f = specFourCC(*u.FormatIdentifier)
				}
				vzTval(t, 2, "format_identifier", f)
			}
			vzTval(t, 2, "segmentation_upid", u.Value)
			vzTmark(t, 1, "}")
		}
	}
	vzTval(t, 1, "segmentation_type_id", fmt.Sprintf("%#02x", d.SegmentationTypeID)+" ("+d.Name()+")")
	vzTnum(t, 1, "segment_num", d.SegmentNum)
	vzTnum(t, 1, "segments_expected", d.SegmentsExpected)
	if vzHasSubSegments(d.SegmentationTypeID) {
		if d.SubSegmentNum != nil {
			vzTnum(t, 1, "sub_segment_num", *d.SubSegmentNum)
		}
		if d.SubSegmentsExpected != nil {
			vzTnum(t, 1, "sub_segments_expected", *d.SubSegmentsExpected)
		}
	}
	vzTmark(t, 0, "}")
}
