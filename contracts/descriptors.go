package scte35

const specCUEI = 0x43554549

//@ spec (*AvailDescriptor).decode
//@ fresh
//@ all C04
//@ opaque
//@ modifies sd
func specAvailDecode(sd *AvailDescriptor, b []byte) error {
	r := vzNewRd(b)
	r.skip(48)
	sd.ProviderAvailID = r.u32(32)
	return vzLengthErr(&r)
}

//@ spec (*AvailDescriptor).length
//@ all C08
func specAvailLength(sd *AvailDescriptor) int { return 8 }

//@ spec (*AvailDescriptor).encode
//@ all C06
//@ assert C08
//@ ensures vzAvailDescriptorHead
func specAvailEncode(sd *AvailDescriptor) ([]byte, error) {
	w := vzNewWr()
	vzWriteHead(&w, 0x00, specAvailLength(sd), specCUEI)
	w.put(32, uint64(sd.ProviderAvailID))
	vassert(w.at() == (2+specAvailLength(sd))*8, "descriptor_length")
	return w.done(), nil
}

// vzWriteHead is splice_descriptor_tag, descriptor_length, identifier.
func vzWriteHead(w *vwr, tag uint32, length int, identifier uint32) {
	w.put(8, uint64(tag))
	w.put(8, uint64(length))
	w.put(32, uint64(identifier))
}

// ---- dtmf_descriptor ----

//@ spec (*DTMFDescriptor).decode
//@ fresh
//@ all C04
//@ opaque
//@ modifies sd
func specDTMFDecode(sd *DTMFDescriptor, b []byte) error {
	r := vzNewRd(b)
	r.skip(48)
	sd.Preroll = r.u32(8)
	n := int(r.u32(3))
	r.skip(5)
	sd.DTMFChars = string(r.take(n))
	return vzLengthErr(&r)
}

//@ spec (*DTMFDescriptor).length
//@ all C08
func specDTMFLength(sd *DTMFDescriptor) int { return 6 + len(sd.DTMFChars) }

//@ spec (*DTMFDescriptor).encode
//@ all C06
//@ assert C08
//@ ensures vzDTMFDescriptorHead
func specDTMFEncode(sd *DTMFDescriptor) ([]byte, error) {
	w := vzNewWr()
	vzWriteHead(&w, 0x01, specDTMFLength(sd), specCUEI)
	w.put(8, uint64(sd.Preroll))
	w.put(3, uint64(len(sd.DTMFChars)))
	w.put(5, 0x1f)
	w.str(sd.DTMFChars)
	vassert(w.at() == (2+specDTMFLength(sd))*8, "descriptor_length")
	return w.done(), nil
}

// ---- time_descriptor ----

//@ spec (*TimeDescriptor).decode
//@ fresh
//@ all C04
//@ opaque
//@ modifies sd
func specTimeDecode(sd *TimeDescriptor, b []byte) error {
	r := vzNewRd(b)
	r.skip(48)
	sd.TAISeconds = r.u64(48)
	sd.TAINS = r.u32(32)
	sd.UTCOffset = r.u32(16)
	return vzLengthErr(&r)
}

//@ spec (*TimeDescriptor).length
//@ all C08
func specTimeLength(sd *TimeDescriptor) int { return 16 }

//@ spec (*TimeDescriptor).encode
//@ all C06
//@ assert C08
//@ ensures vzTimeDescriptorHead
func specTimeEncode(sd *TimeDescriptor) ([]byte, error) {
	w := vzNewWr()
	vzWriteHead(&w, 0x03, specTimeLength(sd), specCUEI)
	w.put(48, sd.TAISeconds)
	w.put(32, uint64(sd.TAINS))
	w.put(16, uint64(sd.UTCOffset))
	vassert(w.at() == (2+specTimeLength(sd))*8, "descriptor_length")
	return w.done(), nil
}

// ---- audio_descriptor ----

//@ spec (*AudioDescriptor).decode
//@ fresh
//@ all C04
//@ opaque
//@ modifies sd
func specAudioDecode(sd *AudioDescriptor, b []byte) error {
	r := vzNewRd(b)
	r.skip(48)
	n := int(r.u32(4))
	r.skip(4)
	sd.AudioChannels = make([]AudioChannel, n)
	for i := 0; i < n; i++ {
		sd.AudioChannels[i] = specAudioChannelRead(&r)
	}
	return vzLengthErr(&r)
}

func specAudioChannelRead(r *vrd) AudioChannel {
	c := AudioChannel{}
	c.ComponentTag = r.u32(8)
	c.ISOCode = string(vzUpidBytes(r, 3))
	c.BitStreamMode = r.u32(3)
	c.NumChannels = r.u32(4)
	c.FullSrvcAudio = r.flag()
	return c
}

//@ spec (*AudioDescriptor).length
//@ all C08
func specAudioLength(sd *AudioDescriptor) int { return 5 + 5*len(sd.AudioChannels) }

//@ spec (*AudioDescriptor).encode
//@ all C06
//@ assert C08
//@ ensures vzAudioDescriptorHead
func specAudioEncode(sd *AudioDescriptor) ([]byte, error) {
	w := vzNewWr()
	vzWriteHead(&w, 0x04, specAudioLength(sd), specCUEI)
	w.put(4, uint64(len(sd.AudioChannels)))
	w.put(4, 0xf)
	for i := 0; i < len(sd.AudioChannels); i++ {
		c := &sd.AudioChannels[i]
		// ISO_code is a 24-bit field
		vassume(len(c.ISOCode) == 3)
		w.put(8, uint64(c.ComponentTag))
		w.str(c.ISOCode)
		w.put(3, uint64(c.BitStreamMode))
		w.put(4, uint64(c.NumChannels))
		w.flag(c.FullSrvcAudio)
	}
	vassert(w.at() == (2+specAudioLength(sd))*8, "descriptor_length")
	return w.done(), nil
}

// ---- private descriptor ----

//@ spec (*PrivateDescriptor).decode
//@ all C14
//@ opaque
//@ modifies sd
func specPrivateDescriptorDecode(sd *PrivateDescriptor, b []byte) error {
	r := vzNewRd(b)
	sd.PrivateTag = r.u32(8)
	r.skip(8)
	sd.Identifier = r.u32(32)
	sd.PrivateBytes = r.take(len(r.rest()))
	return vzLengthErr(&r)
}

//@ spec (*PrivateDescriptor).length
//@ all C08
func specPrivateDescriptorLength(sd *PrivateDescriptor) int { return 4 + len(sd.PrivateBytes) }

//@ spec (*PrivateDescriptor).encode
//@ all C06 C14
//@ assert C08
//@ ensures vzPrivateDescriptorHead
func specPrivateDescriptorEncode(sd *PrivateDescriptor) ([]byte, error) {
	w := vzNewWr()
	vzWriteHead(&w, sd.PrivateTag, specPrivateDescriptorLength(sd), sd.Identifier)
	w.bytes(sd.PrivateBytes)
	vassert(w.at() == (2+specPrivateDescriptorLength(sd))*8, "descriptor_length")
	return w.done(), nil
}

// ---- segmentation_descriptor ----

//@ spec (*SegmentationDescriptor).decode
//@ fresh
//@ all C04
//@ opaque
//@ modifies sd
func specSegmentationDecode(sd *SegmentationDescriptor, b []byte) error {
	r := vzNewRd(b)
	r.skip(48)
	sd.SegmentationEventID = r.u32(32)
	sd.SegmentationEventCancelIndicator = r.flag()
	sd.SegmentationEventIDComplianceIndicator = !r.flag()
	r.skip(6)
	if sd.SegmentationEventCancelIndicator {
		return vzLengthErr(&r)
	}
	program := r.flag()
	duration := r.flag()
	if !r.flag() {
		d := &DeliveryRestrictions{}
		d.WebDeliveryAllowedFlag = r.flag()
		d.NoRegionalBlackoutFlag = r.flag()
		d.ArchiveAllowedFlag = r.flag()
		d.DeviceRestrictions = r.u32(2)
		sd.DeliveryRestrictions = d
	} else {
		r.skip(5)
	}
	if !program {
		n := int(r.u32(8))
		sd.Components = make([]SegmentationDescriptorComponent, n)
		for i := 0; i < n; i++ {
			c := SegmentationDescriptorComponent{Tag: r.u32(8)}
			r.skip(7)
			c.PTSOffset = r.u64(33)
			sd.Components[i] = c
		}
	}
	if duration {
		t := r.u64(40)
		sd.SegmentationDuration = &t
	}
	upidType := r.u32(8)
	upidLength := int(r.u32(8))
	if upidLength > 0 {
		upid := vzUpidBytes(&r, upidLength)
		if upidType == 0x0d {
			sd.SegmentationUPIDs = specMID(upid)
		} else {
			sd.SegmentationUPIDs = []SegmentationUPID{NewSegmentationUPID(upidType, upid)}
		}
	}
	sd.SegmentationTypeID = r.u32(8)
	sd.SegmentNum = r.u32(8)
	sd.SegmentsExpected = r.u32(8)
	if r.left() == 16 && vzHasSubSegments(sd.SegmentationTypeID) {
		n := r.u32(8)
		e := r.u32(8)
		sd.SubSegmentNum = &n
		sd.SubSegmentsExpected = &e
	}
	return vzLengthErr(&r)
}

// vzUpidBytes is the identifier's bytes; when the descriptor ends first, the
// rest of the descriptor.
func vzUpidBytes(r *vrd, n int) []byte {
	s := r.rest()
	if n > len(s) {
		n = len(s)
	}
	r.skip(n * 8)
	return s[:n]
}

// specMID is a list of identifiers, each with its own type and length. The last
// one may be cut short.
func specMID(b []byte) []SegmentationUPID {
	r := vzNewRd(b)
	upids := []SegmentationUPID{}
	for r.left() > 0 {
		t := r.u32(8)
		n := int(r.u32(8))
		upids = append(upids, NewSegmentationUPID(t, vzUpidBytes(&r, n)))
	}
	return upids
}

// vzHasSubSegments: the types with sub_segment_num and sub_segments_expected.
func vzHasSubSegments(t uint32) bool {
	return t == 0x30 || t == 0x32 || t == 0x34 || t == 0x36 || t == 0x38 || t == 0x3a || t == 0x44 || t == 0x46
}

//@ spec (*SegmentationDescriptor).SegmentationUpidLength
//@ all C08
func specUpidLength(sd *SegmentationDescriptor) int {
	if len(sd.SegmentationUPIDs) == 1 {
		return len(specUPIDBytes(&sd.SegmentationUPIDs[0]))
	}
	n := 0
	for i := 0; i < len(sd.SegmentationUPIDs); i++ {
		n += 2 + len(specUPIDBytes(&sd.SegmentationUPIDs[i]))
	}
	return n
}

//@ spec (*SegmentationDescriptor).length
//@ all C08
func specSegmentationLength(sd *SegmentationDescriptor) int {
	n := 4 + 4 + 1
	if sd.SegmentationEventCancelIndicator {
		return n
	}
	n++
	if len(sd.Components) > 0 {
		n += 1 + 6*len(sd.Components)
	}
	if sd.SegmentationDuration != nil {
		n += 5
	}
	n += 2 + specUpidLength(sd) + 3
	if sd.SubSegmentNum != nil {
		n++
	}
	if sd.SubSegmentsExpected != nil {
		n++
	}
	return n
}

//@ spec (*SegmentationDescriptor).encode
//@ all C06
//@ assert C08
//@ ensures vzSegmentationDescriptorHead
func specSegmentationEncode(sd *SegmentationDescriptor) ([]byte, error) {
	n := specSegmentationLength(sd)
	w := vzNewWr()
	vzWriteHead(&w, 0x02, n, specCUEI)
	w.put(32, uint64(sd.SegmentationEventID))
	w.flag(sd.SegmentationEventCancelIndicator)
	w.flag(!sd.SegmentationEventIDComplianceIndicator)
	w.put(6, 0x3f)
	if !sd.SegmentationEventCancelIndicator {
		w.flag(len(sd.Components) == 0)
		w.flag(sd.SegmentationDuration != nil)
		w.flag(sd.DeliveryRestrictions == nil)
		if sd.DeliveryRestrictions != nil {
			w.flag(sd.DeliveryRestrictions.WebDeliveryAllowedFlag)
			w.flag(sd.DeliveryRestrictions.NoRegionalBlackoutFlag)
			w.flag(sd.DeliveryRestrictions.ArchiveAllowedFlag)
			w.put(2, uint64(sd.DeliveryRestrictions.DeviceRestrictions))
		} else {
			w.put(5, 0x1f)
		}
		if len(sd.Components) > 0 {
			w.put(8, uint64(len(sd.Components)))
			for i := 0; i < len(sd.Components); i++ {
				w.put(8, uint64(sd.Components[i].Tag))
				w.put(7, 0x7f)
				w.put(33, sd.Components[i].PTSOffset)
			}
		}
		if sd.SegmentationDuration != nil {
			w.put(40, *sd.SegmentationDuration)
		}
		if len(sd.SegmentationUPIDs) == 0 {
			w.put(16, 0)
		} else if len(sd.SegmentationUPIDs) == 1 {
			u := &sd.SegmentationUPIDs[0]
			vzWriteUPID(&w, u)
		} else {
			w.put(8, 0x0d)
			w.put(8, uint64(specUpidLength(sd)))
			for i := 0; i < len(sd.SegmentationUPIDs); i++ {
				vzWriteUPID(&w, &sd.SegmentationUPIDs[i])
			}
		}
		w.put(8, uint64(sd.SegmentationTypeID))
		w.put(8, uint64(sd.SegmentNum))
		w.put(8, uint64(sd.SegmentsExpected))
		if sd.SubSegmentNum != nil {
			w.put(8, uint64(*sd.SubSegmentNum))
		}
		if sd.SubSegmentsExpected != nil {
			w.put(8, uint64(*sd.SubSegmentsExpected))
		}
	}
	vassert(w.at() == (2+n)*8, "descriptor_length")
	return w.done(), nil
}

func vzWriteUPID(w *vwr, u *SegmentationUPID) {
	b := specUPIDBytes(u)
	w.put(8, uint64(u.Type))
	w.put(8, uint64(len(b)))
	w.bytes(b)
}

// ---- what the descriptor loop relies on ----

func vzHead(b []byte, tag, identifier uint32) bool {
	if len(b) < 6 {
		return false
	}
	r := vzNewRd(b)
	t := r.u32(8)
	n := int(r.u32(8))
	return t == tag&0xff && (n == len(b)-2 || len(b)-2 > 0xff) && r.u32(32) == identifier
}

func vzAvailDescriptorHead(sd *AvailDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, 0, specCUEI)
}

func vzDTMFDescriptorHead(sd *DTMFDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, 1, specCUEI)
}

func vzSegmentationDescriptorHead(sd *SegmentationDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, 2, specCUEI)
}

func vzTimeDescriptorHead(sd *TimeDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, 3, specCUEI)
}

func vzAudioDescriptorHead(sd *AudioDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, 4, specCUEI)
}

func vzPrivateDescriptorHead(sd *PrivateDescriptor, b []byte, err error) bool {
	return err != nil || vzHead(b, sd.PrivateTag, sd.Identifier)
}
