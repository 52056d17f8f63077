package scte35

// C10, C11: the section around its command and descriptors.

func vzHeaderFits(sis *SpliceInfoSection) bool {
	return sis.SAPType < 4 && sis.ProtocolVersion < 1<<8 && sis.EncryptedPacket.EncryptionAlgorithm < 64 &&
		sis.PTSAdjustment < 1<<33 && sis.EncryptedPacket.CWIndex < 1<<8 && sis.Tier < 1<<12 && specSectionLength(sis) < 4096
}

// vzSectionBack: a section is written and read back. The command is given to
// the decoder of its own type, as the bytes its encoder wrote.
func vzSectionBack(sis *SpliceInfoSection, cmd, fresh SpliceCommand) SpliceInfoSection {
	sis.SpliceCommand = cmd
	vassume(vzHeaderFits(sis))
	c, err := cmd.encode()
	vassume(err == nil)
	vassume(fresh.decode(c) == nil)
	b, err := specSectionEncode(sis)
	vassert(err == nil, "a section is encoded")
	var d SpliceInfoSection
	err = specSectionDecode(&d, b)
	vassert(err == nil, "and decoded")
	vassert(d.SAPType == sis.SAPType && d.ProtocolVersion == sis.ProtocolVersion && d.PTSAdjustment == sis.PTSAdjustment && d.Tier == sis.Tier, "with the same header")
	vassert(d.EncryptedPacket.EncryptionAlgorithm == sis.EncryptedPacket.EncryptionAlgorithm && d.EncryptedPacket.CWIndex == sis.EncryptedPacket.CWIndex, "with the same encryption")
	vsame(d.SpliceCommand, fresh, "with the same command")
	vassert(string(d.alignmentStuffing) == string(sis.alignmentStuffing), "with the same stuffing")
	return d
}

//@ lemma
//@ reveal
//@ hide (*SpliceNull).encode (*SpliceNull).decode (*SpliceNull).length calculateCRC32
//@ all C10 C11
func lemmaSectionSpliceNull(sis *SpliceInfoSection, cmd *SpliceNull) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &SpliceNull{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

//@ lemma
//@ reveal
//@ hide (*SpliceSchedule).encode (*SpliceSchedule).decode (*SpliceSchedule).length calculateCRC32
//@ all C10 C11
func lemmaSectionSpliceSchedule(sis *SpliceInfoSection, cmd *SpliceSchedule) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &SpliceSchedule{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

//@ lemma
//@ reveal
//@ hide (*SpliceInsert).encode (*SpliceInsert).decode (*SpliceInsert).length calculateCRC32
//@ all C10 C11
func lemmaSectionSpliceInsert(sis *SpliceInfoSection, cmd *SpliceInsert) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &SpliceInsert{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

//@ lemma
//@ reveal
//@ hide (*TimeSignal).encode (*TimeSignal).decode (*TimeSignal).length calculateCRC32
//@ all C10 C11
func lemmaSectionTimeSignal(sis *SpliceInfoSection, cmd *TimeSignal) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &TimeSignal{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

//@ lemma
//@ reveal
//@ hide (*BandwidthReservation).encode (*BandwidthReservation).decode (*BandwidthReservation).length calculateCRC32
//@ all C10 C11
func lemmaSectionBandwidthReservation(sis *SpliceInfoSection, cmd *BandwidthReservation) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &BandwidthReservation{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

//@ lemma
//@ reveal
//@ hide (*PrivateCommand).encode (*PrivateCommand).decode (*PrivateCommand).length calculateCRC32
//@ all C10 C11
func lemmaSectionPrivateCommand(sis *SpliceInfoSection, cmd *PrivateCommand) {
	vassume(len(sis.SpliceDescriptors) == 0)
	d := vzSectionBack(sis, cmd, &PrivateCommand{})
	vassert(len(d.SpliceDescriptors) == 0, "with no descriptors")
}

// vzDescriptorBack: at any position of the descriptor loop, a descriptor is
// given to the decoder of its own type, as the bytes its encoder wrote.
func vzDescriptorBack(before, after []byte, sd, fresh SpliceDescriptor) {
	vassume(sd.length() < 256)
	b, err := sd.encode()
	vassume(err == nil)
	vassume(fresh.decode(b) == nil)
	w := vzNewWr()
	w.bytes(before)
	w.bytes(b)
	end := w.at()
	w.bytes(after)
	r := vzNewRd(w.done())
	r.skip(8 * len(before))
	d, err := specDescriptorRead(&r)
	vassert(err == nil, "a descriptor is decoded")
	vassert(r.at() == end, "as far as it was written")
	vsame(d, fresh, "by its own decoder")
}

//@ lemma
//@ reveal
//@ hide (*AvailDescriptor).encode (*AvailDescriptor).decode (*AvailDescriptor).length
//@ all C10 C11
func lemmaLoopAvailDescriptor(before, after []byte, sd *AvailDescriptor) {
	vzDescriptorBack(before, after, sd, &AvailDescriptor{})
}

//@ lemma
//@ reveal
//@ hide (*DTMFDescriptor).encode (*DTMFDescriptor).decode (*DTMFDescriptor).length
//@ all C10 C11
func lemmaLoopDTMFDescriptor(before, after []byte, sd *DTMFDescriptor) {
	vzDescriptorBack(before, after, sd, &DTMFDescriptor{})
}

//@ lemma
//@ reveal
//@ hide (*SegmentationDescriptor).encode (*SegmentationDescriptor).decode (*SegmentationDescriptor).length
//@ all C10 C11
func lemmaLoopSegmentationDescriptor(before, after []byte, sd *SegmentationDescriptor) {
	vzDescriptorBack(before, after, sd, &SegmentationDescriptor{})
}

//@ lemma
//@ reveal
//@ hide (*TimeDescriptor).encode (*TimeDescriptor).decode (*TimeDescriptor).length
//@ all C10 C11
func lemmaLoopTimeDescriptor(before, after []byte, sd *TimeDescriptor) {
	vzDescriptorBack(before, after, sd, &TimeDescriptor{})
}

//@ lemma
//@ reveal
//@ hide (*AudioDescriptor).encode (*AudioDescriptor).decode (*AudioDescriptor).length
//@ all C10 C11
func lemmaLoopAudioDescriptor(before, after []byte, sd *AudioDescriptor) {
	vzDescriptorBack(before, after, sd, &AudioDescriptor{})
}

//@ lemma
//@ reveal
//@ hide (*PrivateDescriptor).encode (*PrivateDescriptor).decode (*PrivateDescriptor).length
//@ all C10 C11
func lemmaLoopPrivateDescriptor(before, after []byte, sd *PrivateDescriptor) {
	vassume(sd.Identifier != specCUEI || sd.PrivateTag > 4 && sd.PrivateTag < 1<<8)
	vzDescriptorBack(before, after, sd, &PrivateDescriptor{Identifier: sd.Identifier})
}

//@ lemma
//@ reveal
//@ unroll specDescriptorsDecode
//@ hide (*PrivateCommand).encode (*PrivateCommand).decode (*PrivateCommand).length calculateCRC32
//@ hide (*SegmentationDescriptor).encode (*SegmentationDescriptor).decode (*SegmentationDescriptor).length
//@ hide (*PrivateDescriptor).encode (*PrivateDescriptor).decode (*PrivateDescriptor).length
//@ all C10 C11
func lemmaSectionTwoDescriptors(sis *SpliceInfoSection, cmd *PrivateCommand, sd1 *SegmentationDescriptor, sd2 *PrivateDescriptor) {
	vassume(sd2.Identifier != specCUEI && sd1.length() < 256 && sd2.length() < 256)
	sis.SpliceDescriptors = SpliceDescriptors{sd1, sd2}
	f1, f2 := &SegmentationDescriptor{}, &PrivateDescriptor{Identifier: sd2.Identifier}
	b, err := sd1.encode()
	vassume(err == nil && f1.decode(b) == nil)
	b, err = sd2.encode()
	vassume(err == nil && f2.decode(b) == nil)
	d := vzSectionBack(sis, cmd, &PrivateCommand{})
	vassert(len(d.SpliceDescriptors) == 2, "with both descriptors")
	vsame(d.SpliceDescriptors[0], f1, "the first")
	vsame(d.SpliceDescriptors[1], f2, "the second")
}
