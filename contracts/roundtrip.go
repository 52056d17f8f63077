package scte35

import "strings"

// C10: what the encoders write, the decoders read back. The lemmas are about
// the contracts (specifications) of the encoders and decoders, which the code
// is proved to implement; list elements are read back at any position, between
// any bytes, and whole lists by induction on their length.

func vzSameTime(a, b *uint64) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func vzTimeFits(t *uint64) bool { return t == nil || *t < 1<<33 }

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaTimeSignalBack(cmd *TimeSignal) {
	vassume(vzTimeFits(cmd.SpliceTime.PTSTime))
	b, err := cmd.encode()
	vassert(err == nil, "a time_signal is encoded")
	var c TimeSignal
	err = c.decode(b)
	vassert(err == nil, "and decoded")
	vassert(vzSameTime(c.SpliceTime.PTSTime, cmd.SpliceTime.PTSTime), "to the same time")
	b2, err := c.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11 C14
func lemmaPrivateCommandBack(cmd *PrivateCommand) {
	b, err := cmd.encode()
	vassert(err == nil, "a private_command is encoded")
	var c PrivateCommand
	err = c.decode(b)
	vassert(err == nil, "and decoded")
	vassert(c.Identifier == cmd.Identifier && string(c.PrivateBytes) == string(cmd.PrivateBytes), "to the same content")
	b2, err := c.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

func vzSameBreak(a, b *BreakDuration) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.AutoReturn == b.AutoReturn && a.Duration == b.Duration
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaInsertProgramBack(cmd *SpliceInsert) {
	vassume(cmd.Program != nil || cmd.SpliceEventCancelIndicator)
	vassume(cmd.Program == nil || vzTimeFits(cmd.Program.SpliceTime.PTSTime))
	vassume(cmd.BreakDuration == nil || cmd.BreakDuration.Duration < 1<<33)
	vassume(cmd.UniqueProgramID < 1<<16 && cmd.AvailNum < 1<<8 && cmd.AvailsExpected < 1<<8)
	b, err := cmd.encode()
	vassert(err == nil, "a splice_insert is encoded")
	var c SpliceInsert
	err = c.decode(b)
	vassert(err == nil, "and decoded")
	vassert(c.SpliceEventID == cmd.SpliceEventID && c.SpliceEventCancelIndicator == cmd.SpliceEventCancelIndicator, "to the same event")
	if cmd.SpliceEventCancelIndicator {
		b2, err := c.encode()
		vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
		return
	}
	vassert(c.OutOfNetworkIndicator == cmd.OutOfNetworkIndicator && c.SpliceImmediateFlag == cmd.SpliceImmediateFlag, "the same flags")
	vassert(c.Program != nil && (cmd.SpliceImmediateFlag || vzSameTime(c.Program.SpliceTime.PTSTime, cmd.Program.SpliceTime.PTSTime)), "the same program")
	vassert(vzSameBreak(c.BreakDuration, cmd.BreakDuration), "the same break_duration")
	vassert(c.UniqueProgramID == cmd.UniqueProgramID && c.AvailNum == cmd.AvailNum && c.AvailsExpected == cmd.AvailsExpected, "the same avail")
	b2, err := c.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

// ---- list elements, at any position ----

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaInsertComponentBack(before, after []byte, c *SpliceInsertComponent, immediate bool) {
	vassume(c.Tag < 1<<8 && vzTimeFits(vzComponentTime(c)))
	w := vzNewWr()
	w.bytes(before)
	w.put(8, uint64(c.Tag))
	if !immediate {
		vzWriteSpliceTime(&w, vzComponentTime(c))
	}
	end := w.at()
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	d := specSpliceInsertComponent(&r, immediate)
	vassert(r.at() == end, "a component is read as far as it was written")
	vassert(d.Tag == c.Tag, "its tag")
	vassert(immediate || vzSameTime(vzComponentTime(&d), vzComponentTime(c)), "its time")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaEventBack(before, after []byte, e *Event) {
	vassume(e.SpliceEventCancelIndicator || e.Program != nil || len(e.Components) == 0)
	vassume(e.BreakDuration == nil || e.BreakDuration.Duration < 1<<33)
	vassume(e.UniqueProgramID < 1<<16 && e.AvailNum < 1<<8 && e.AvailsExpected < 1<<8)
	w := vzNewWr()
	w.bytes(before)
	specEventWrite(&w, e)
	end := w.at()
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	d := specEventRead(&r)
	vassert(r.at() == end, "an event is read as far as it was written")
	vassert(d.SpliceEventID == e.SpliceEventID && d.SpliceEventCancelIndicator == e.SpliceEventCancelIndicator && d.EventIDComplianceFlag == e.EventIDComplianceFlag, "its identity")
	w1, w2 := vzNewWr(), vzNewWr()
	specEventWrite(&w1, e)
	specEventWrite(&w2, &d)
	vassert(string(w2.done()) == string(w1.done()), "and writes the same bytes")
	if e.SpliceEventCancelIndicator {
		return
	}
	vassert(d.OutOfNetworkIndicator == e.OutOfNetworkIndicator, "its flags")
	vassert((d.Program == nil) == (e.Program == nil), "its kind")
	if e.Program != nil {
		vassert(d.Program.UTCSpliceTime.GPSSeconds() == e.Program.UTCSpliceTime.GPSSeconds(), "its time")
	} else {
		vassert(len(d.Components) == 0, "its components")
	}
	vassert(vzSameBreak(d.BreakDuration, e.BreakDuration), "its break_duration")
	vassert(d.UniqueProgramID == e.UniqueProgramID && d.AvailNum == e.AvailNum && d.AvailsExpected == e.AvailsExpected, "its avail")
}

//@ lemma
//@ reveal
//@ all C10 C11 C14
func lemmaPrivateDescriptorBack(sd *PrivateDescriptor) {
	vassume(sd.PrivateTag < 1<<8 && len(sd.PrivateBytes) <= 251)
	b, err := sd.encode()
	vassert(err == nil, "a private descriptor is encoded")
	var d PrivateDescriptor
	err = d.decode(b)
	vassert(err == nil, "and decoded")
	vassert(d.PrivateTag == sd.PrivateTag && d.Identifier == sd.Identifier && string(d.PrivateBytes) == string(sd.PrivateBytes), "to the same content")
	b2, err := d.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaAvailBack(sd *AvailDescriptor) {
	b, err := sd.encode()
	vassert(err == nil, "an avail_descriptor is encoded")
	var d AvailDescriptor
	err = d.decode(b)
	vassert(err == nil && d.ProviderAvailID == sd.ProviderAvailID, "and decoded to the same content")
	b2, err := d.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaDTMFBack(sd *DTMFDescriptor) {
	vassume(len(sd.DTMFChars) < 8 && sd.Preroll < 1<<8)
	b, err := sd.encode()
	vassert(err == nil, "a DTMF_descriptor is encoded")
	var d DTMFDescriptor
	err = d.decode(b)
	vassert(err == nil && d.Preroll == sd.Preroll && d.DTMFChars == sd.DTMFChars, "and decoded to the same content")
	b2, err := d.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaTimeBack(sd *TimeDescriptor) {
	vassume(sd.TAISeconds < 1<<48 && sd.UTCOffset < 1<<16)
	b, err := sd.encode()
	vassert(err == nil, "a time_descriptor is encoded")
	var d TimeDescriptor
	err = d.decode(b)
	vassert(err == nil && d.TAISeconds == sd.TAISeconds && d.TAINS == sd.TAINS && d.UTCOffset == sd.UTCOffset, "and decoded to the same content")
	b2, err := d.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaAudioChannelBack(before, after []byte, c *AudioChannel, i0, i1, i2 byte) {
	iso := string([]byte{i0, i1, i2})
	vassume(c.ComponentTag < 1<<8 && c.BitStreamMode < 8 && c.NumChannels < 16)
	w := vzNewWr()
	w.bytes(before)
	w.put(8, uint64(c.ComponentTag))
	w.str(iso)
	w.put(3, uint64(c.BitStreamMode))
	w.put(4, uint64(c.NumChannels))
	w.flag(c.FullSrvcAudio)
	end := w.at()
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	d := specAudioChannelRead(&r)
	vassert(r.at() == end, "a channel is read as far as it was written")
	vassert(d.ISOCode == iso, "with its language")
	vassert(d.ComponentTag == c.ComponentTag && d.BitStreamMode == c.BitStreamMode && d.NumChannels == c.NumChannels && d.FullSrvcAudio == c.FullSrvcAudio, "with its content")
}

// vzSegmentationFits: what a segmentation_descriptor can carry, lists apart.
func vzSegmentationFits(sd *SegmentationDescriptor) bool {
	return (sd.SegmentationDuration == nil || *sd.SegmentationDuration < 1<<40) &&
		(sd.DeliveryRestrictions == nil || sd.DeliveryRestrictions.DeviceRestrictions < 4) &&
		sd.SegmentationTypeID < 1<<8 && sd.SegmentNum < 1<<8 && sd.SegmentsExpected < 1<<8 &&
		// sub-segments come in pairs, and only with the types that have them
		(sd.SubSegmentNum == nil) == (sd.SubSegmentsExpected == nil) &&
		(sd.SubSegmentNum == nil || vzHasSubSegments(sd.SegmentationTypeID) && *sd.SubSegmentNum < 1<<8 && *sd.SubSegmentsExpected < 1<<8)
}

func vzSameSegmentation(d, sd *SegmentationDescriptor) {
	vassert(d.SegmentationEventID == sd.SegmentationEventID && d.SegmentationEventCancelIndicator == sd.SegmentationEventCancelIndicator && d.SegmentationEventIDComplianceIndicator == sd.SegmentationEventIDComplianceIndicator, "to the same event")
	if sd.SegmentationEventCancelIndicator {
		return
	}
	vassert((d.DeliveryRestrictions == nil) == (sd.DeliveryRestrictions == nil), "restrictions")
	if sd.DeliveryRestrictions != nil {
		vassert(*d.DeliveryRestrictions == *sd.DeliveryRestrictions, "the same restrictions")
	}
	vassert(vzSameTime(d.SegmentationDuration, sd.SegmentationDuration), "the same duration")
	vassert(d.SegmentationTypeID == sd.SegmentationTypeID && d.SegmentNum == sd.SegmentNum && d.SegmentsExpected == sd.SegmentsExpected, "the same type and numbers")
	vassert((d.SubSegmentNum == nil) == (sd.SubSegmentNum == nil) && (d.SubSegmentsExpected == nil) == (sd.SubSegmentsExpected == nil), "sub-segments")
	if sd.SubSegmentNum != nil {
		vassert(*d.SubSegmentNum == *sd.SubSegmentNum && *d.SubSegmentsExpected == *sd.SubSegmentsExpected, "the same sub-segments")
	}
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaSegmentationBack(sd *SegmentationDescriptor) {
	vassume(sd.SegmentationEventCancelIndicator || len(sd.Components) == 0 && len(sd.SegmentationUPIDs) == 0)
	vassume(vzSegmentationFits(sd))
	b, err := sd.encode()
	vassert(err == nil, "a segmentation_descriptor is encoded")
	var d SegmentationDescriptor
	err = d.decode(b)
	vassert(err == nil, "and decoded")
	vzSameSegmentation(&d, sd)
	vassert(len(d.Components) == 0 && len(d.SegmentationUPIDs) == 0, "no components or identifiers")
	b2, err := d.encode()
	vassert(err == nil && string(b2) == string(b), "which encodes to the same bytes")
}

//@ lemma
//@ reveal
//@ hide NewSegmentationUPID (*SegmentationUPID).valueBytes
//@ all C10 C11 C12
func lemmaSegmentationUPIDBack(sd *SegmentationDescriptor) {
	vassume(vzSegmentationFits(sd) && !sd.SegmentationEventCancelIndicator && len(sd.Components) == 0 && len(sd.SegmentationUPIDs) == 1)
	u := &sd.SegmentationUPIDs[0]
	v := specUPIDBytes(u)
	vassume(u.Type < 1<<8 && u.Type != 0x0d && len(v) > 0 && len(v) < 230)
	b, err := specSegmentationEncode(sd)
	vassert(err == nil, "a segmentation_descriptor is encoded")
	var d SegmentationDescriptor
	err = specSegmentationDecode(&d, b)
	vassert(err == nil, "and decoded")
	vzSameSegmentation(&d, sd)
	vassert(len(d.Components) == 0 && len(d.SegmentationUPIDs) == 1, "one identifier")
	// which has the same bytes (see the lemmas on identifiers)
	w := NewSegmentationUPID(u.Type, v)
	g := &d.SegmentationUPIDs[0]
	vassert(g.Type == w.Type && g.Format == w.Format && g.Value == w.Value && (g.FormatIdentifier == nil) == (w.FormatIdentifier == nil) && (w.FormatIdentifier == nil || *g.FormatIdentifier == *w.FormatIdentifier), "made of the same type and bytes")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaSegmentationComponentBack(before, after []byte, c *SegmentationDescriptorComponent) {
	vassume(c.Tag < 1<<8 && c.PTSOffset < 1<<33)
	w := vzNewWr()
	w.bytes(before)
	w.put(8, uint64(c.Tag))
	w.put(7, 0x7f)
	w.put(33, c.PTSOffset)
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	vassert(r.u32(8) == c.Tag, "the tag is read back")
	r.skip(7)
	vassert(r.u64(33) == c.PTSOffset, "and the offset")
}

// ---- identifiers ----

//@ lemma
//@ reveal
//@ all C10 C11 C12
func lemmaUPIDBase64Back(t uint32, b []byte) {
	vassume(t == 0x05 || t == 0x06)
	u := NewSegmentationUPID(t, b)
	vassert(string(u.valueBytes()) == string(b), "the bytes come back")
}

//@ lemma
//@ reveal
//@ all C10 C11 C12
func lemmaUPIDTIBack(b []byte) {
	vassume(len(b) == 8)
	u := NewSegmentationUPID(0x08, b)
	vassert(string(u.valueBytes()) == string(b), "the bytes come back")
}

//@ lemma
//@ reveal
//@ all C10 C11 C12
func lemmaUPIDMPUBack(b []byte) {
	vassume(len(b) >= 4)
	u := NewSegmentationUPID(0x0c, b)
	vassert(string(u.valueBytes()) == string(b), "the bytes come back")
}

//@ lemma
//@ reveal
//@ all C10 C11 C12
func lemmaUPIDTextBack(t uint32, b []byte) {
	vassume(t != 0x05 && t != 0x06 && t != 0x08 && t != 0x0a && t != 0x0c)
	u := NewSegmentationUPID(t, b)
	// white space around the value is not kept (see KNOWN_FINDINGS)
	vassume(strings.TrimSpace(u.Value) == u.Value)
	vassert(string(u.valueBytes()) == string(b), "the bytes come back")
}

//@ lemma
//@ reveal
//@ all C10 C11 C12
func lemmaUPIDEIDRBack(b []byte) {
	vassume(len(b) == 12)
	u := NewSegmentationUPID(0x0a, b)
	vassert(string(u.valueBytes()) == string(b), "the bytes come back")
}

// ---- whole lists, of any length ----

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaInsertBack(cmd *SpliceInsert) {
	vassume(!cmd.SpliceEventCancelIndicator && cmd.Program == nil && len(cmd.Components) < 1<<8)
	vassume(cmd.BreakDuration == nil || cmd.BreakDuration.Duration < 1<<33)
	vassume(cmd.UniqueProgramID < 1<<16 && cmd.AvailNum < 1<<8 && cmd.AvailsExpected < 1<<8)
	for i := 0; i < len(cmd.Components); i++ {
		vassume(cmd.Components[i].Tag < 1<<8 && vzTimeFits(vzComponentTime(&cmd.Components[i])))
	}
	b, err := cmd.encode()
	vassert(err == nil, "a splice_insert is encoded")
	var c SpliceInsert
	err = c.decode(b)
	vassert(err == nil, "and decoded")
	vassert(c.SpliceEventID == cmd.SpliceEventID && !c.SpliceEventCancelIndicator, "to the same event")
	vassert(c.OutOfNetworkIndicator == cmd.OutOfNetworkIndicator && c.SpliceImmediateFlag == cmd.SpliceImmediateFlag && c.Program == nil, "the same flags")
	vassert(len(c.Components) == len(cmd.Components), "as many components")
	for i := 0; i < len(cmd.Components); i++ {
		vassert(c.Components[i].Tag == cmd.Components[i].Tag, "the same components")
		vassert(cmd.SpliceImmediateFlag || vzSameTime(vzComponentTime(&c.Components[i]), vzComponentTime(&cmd.Components[i])), "at the same time")
	}
	vassert(vzSameBreak(c.BreakDuration, cmd.BreakDuration), "the same break_duration")
	vassert(c.UniqueProgramID == cmd.UniqueProgramID && c.AvailNum == cmd.AvailNum && c.AvailsExpected == cmd.AvailsExpected, "the same avail")
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaSegmentationComponentsBack(sd *SegmentationDescriptor) {
	vassume(vzSegmentationFits(sd) && !sd.SegmentationEventCancelIndicator && len(sd.SegmentationUPIDs) == 0 && len(sd.Components) < 1<<8)
	for i := 0; i < len(sd.Components); i++ {
		vassume(sd.Components[i].Tag < 1<<8 && sd.Components[i].PTSOffset < 1<<33)
	}
	b, err := sd.encode()
	vassert(err == nil, "a segmentation_descriptor is encoded")
	vassume(len(b) < 1<<8+2)
	var d SegmentationDescriptor
	err = d.decode(b)
	vassert(err == nil, "and decoded")
	vzSameSegmentation(&d, sd)
	vassert(len(d.SegmentationUPIDs) == 0 && len(d.Components) == len(sd.Components), "as many components")
	for i := 0; i < len(sd.Components); i++ {
		vassert(d.Components[i].Tag == sd.Components[i].Tag && d.Components[i].PTSOffset == sd.Components[i].PTSOffset, "the same components")
	}
}

//@ lemma
//@ reveal
//@ hide NewSegmentationUPID (*SegmentationUPID).valueBytes
//@ all C10 C11 C12
func lemmaSegmentationMIDBack(sd *SegmentationDescriptor) {
	vassume(vzSegmentationFits(sd) && !sd.SegmentationEventCancelIndicator && len(sd.SegmentationUPIDs) > 1 && len(sd.Components) == 0)
	for i := 0; i < len(sd.SegmentationUPIDs); i++ {
		vassume(sd.SegmentationUPIDs[i].Type < 1<<8 && len(specUPIDBytes(&sd.SegmentationUPIDs[i])) < 1<<8)
	}
	b, err := specSegmentationEncode(sd)
	vassert(err == nil, "a segmentation_descriptor is encoded")
	vassume(len(b) < 1<<8+2)
	var d SegmentationDescriptor
	err = specSegmentationDecode(&d, b)
	vassert(err == nil, "and decoded")
	vzSameSegmentation(&d, sd)
	vassert(len(d.Components) == 0 && len(d.SegmentationUPIDs) == len(sd.SegmentationUPIDs), "as many identifiers")
	for i := 0; i < len(sd.SegmentationUPIDs); i++ {
		u := &sd.SegmentationUPIDs[i]
		w := NewSegmentationUPID(u.Type, specUPIDBytes(u))
		g := &d.SegmentationUPIDs[i]
		vassert(g.Type == w.Type && g.Format == w.Format && g.Value == w.Value && (g.FormatIdentifier == nil) == (w.FormatIdentifier == nil) && (w.FormatIdentifier == nil || *g.FormatIdentifier == *w.FormatIdentifier), "made of the same type and bytes")
	}
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaAudioBack(sd *AudioDescriptor) {
	vassume(len(sd.AudioChannels) < 16)
	for i := 0; i < len(sd.AudioChannels); i++ {
		c := &sd.AudioChannels[i]
		vassume(c.ComponentTag < 1<<8 && len(c.ISOCode) == 3 && c.BitStreamMode < 8 && c.NumChannels < 16)
	}
	b, err := sd.encode()
	vassert(err == nil, "an audio_descriptor is encoded")
	var d AudioDescriptor
	err = d.decode(b)
	vassert(err == nil, "and decoded")
	vassert(len(d.AudioChannels) == len(sd.AudioChannels), "as many channels")
	for i := 0; i < len(sd.AudioChannels); i++ {
		c, e := &sd.AudioChannels[i], &d.AudioChannels[i]
		vassert(e.ComponentTag == c.ComponentTag, "the same tag")
		vassert(e.ISOCode == c.ISOCode, "the same language")
		vassert(e.BitStreamMode == c.BitStreamMode && e.NumChannels == c.NumChannels && e.FullSrvcAudio == c.FullSrvcAudio, "the same channels")
	}
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaScheduleBack(cmd *SpliceSchedule) {
	vassume(len(cmd.Events) < 1<<8)
	for i := 0; i < len(cmd.Events); i++ {
		e := &cmd.Events[i]
		vassume(e.SpliceEventCancelIndicator || e.Program != nil || len(e.Components) == 0)
		vassume(e.BreakDuration == nil || e.BreakDuration.Duration < 1<<33)
		vassume(e.UniqueProgramID < 1<<16 && e.AvailNum < 1<<8 && e.AvailsExpected < 1<<8)
	}
	b, err := cmd.encode()
	vassert(err == nil, "a splice_schedule is encoded")
	var c SpliceSchedule
	err = c.decode(b)
	vassert(err == nil, "and decoded")
	vassert(len(c.Events) == len(cmd.Events), "as many events")
	for i := 0; i < len(cmd.Events); i++ {
		e, d := &cmd.Events[i], &c.Events[i]
		vassert(d.SpliceEventID == e.SpliceEventID && d.SpliceEventCancelIndicator == e.SpliceEventCancelIndicator && d.EventIDComplianceFlag == e.EventIDComplianceFlag, "the same identity")
		if e.SpliceEventCancelIndicator {
			continue
		}
		vassert(d.OutOfNetworkIndicator == e.OutOfNetworkIndicator, "its flags")
		vassert((d.Program == nil) == (e.Program == nil), "its kind")
		if e.Program != nil {
			vassert(d.Program.UTCSpliceTime.GPSSeconds() == e.Program.UTCSpliceTime.GPSSeconds(), "its time")
		}
		vassert(vzSameBreak(d.BreakDuration, e.BreakDuration), "its break_duration")
		vassert(d.UniqueProgramID == e.UniqueProgramID && d.AvailNum == e.AvailNum && d.AvailsExpected == e.AvailsExpected, "its avail")
	}
}

//@ lemma
//@ reveal
//@ all C10 C11
func lemmaEventComponentsBack(before, after []byte, e *Event) {
	vassume(!e.SpliceEventCancelIndicator && e.Program == nil && len(e.Components) < 1<<8)
	vassume(e.BreakDuration == nil || e.BreakDuration.Duration < 1<<33)
	vassume(e.UniqueProgramID < 1<<16 && e.AvailNum < 1<<8 && e.AvailsExpected < 1<<8)
	for i := 0; i < len(e.Components); i++ {
		vassume(e.Components[i].Tag < 1<<8)
	}
	w := vzNewWr()
	w.bytes(before)
	specEventWrite(&w, e)
	end := w.at()
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	d := specEventRead(&r)
	vassert(r.at() == end, "an event is read as far as it was written")
	vassert(d.SpliceEventID == e.SpliceEventID && d.OutOfNetworkIndicator == e.OutOfNetworkIndicator && d.Program == nil, "its identity and flags")
	vassert(len(d.Components) == len(e.Components), "as many components")
	for i := 0; i < len(e.Components); i++ {
		vassert(d.Components[i].Tag == e.Components[i].Tag, "the same components")
		vassert(d.Components[i].UTCSpliceTime.GPSSeconds() == e.Components[i].UTCSpliceTime.GPSSeconds(), "at the same time")
	}
	vassert(vzSameBreak(d.BreakDuration, e.BreakDuration), "its break_duration")
	vassert(d.UniqueProgramID == e.UniqueProgramID && d.AvailNum == e.AvailNum && d.AvailsExpected == e.AvailsExpected, "its avail")
}
