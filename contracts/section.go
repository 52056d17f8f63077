package scte35

import "errors"

// ---- splice_info_section ----

// What every splice command and descriptor promises to the section.

//@ spec interface SpliceCommand.length
//@ all C08
//@ ensures vzCommandLengthNotNegative
func specIfaceCommandLength(c SpliceCommand) int { return 0 }

//@ spec interface SpliceCommand.Type
//@ all C07
func specIfaceCommandType(c SpliceCommand) uint32 { return 0 }

//@ spec interface SpliceCommand.encode
//@ all C07
//@ ensures vzEncodesCommand
func specIfaceCommandEncode(c SpliceCommand) ([]byte, error) { return nil, nil }

//@ spec interface SpliceDescriptor.length
//@ all C08
//@ ensures vzDescriptorLengthNotNegative
func specIfaceDescriptorLength(c SpliceDescriptor) int { return 0 }

//@ spec interface SpliceDescriptor.encode
//@ all C07
//@ ensures vzEncodesDescriptor
func specIfaceDescriptorEncode(c SpliceDescriptor) ([]byte, error) { return nil, nil }

func vzCommandLengthNotNegative(c SpliceCommand, n int) bool { return n >= 0 }

func vzDescriptorLengthNotNegative(c SpliceDescriptor, n int) bool { return n >= 0 }

func vzEncodesCommand(c SpliceCommand, b []byte, err error) bool {
	return err != nil || len(b) == c.length()
}

func vzEncodesDescriptor(c SpliceDescriptor, b []byte, err error) bool {
	return err != nil || len(b) == 2+c.length()
}

func specNewCommand(typ uint32) SpliceCommand {
	switch typ {
	case 0x00:
		return &SpliceNull{}
	case 0x04:
		return &SpliceSchedule{}
	case 0x05:
		return &SpliceInsert{}
	case 0x06:
		return &TimeSignal{}
	case 0x07:
		return &BandwidthReservation{}
	}
	return &PrivateCommand{}
}

func specNewDescriptor(identifier, tag uint32) SpliceDescriptor {
	if identifier == 0x43554549 {
		switch tag {
		case 0x00:
			return &AvailDescriptor{}
		case 0x01:
			return &DTMFDescriptor{}
		case 0x02:
			return &SegmentationDescriptor{}
		case 0x03:
			return &TimeDescriptor{}
		case 0x04:
			return &AudioDescriptor{}
		}
	}
	return &PrivateDescriptor{Identifier: identifier}
}

//@ spec decodeSpliceDescriptors
//@ all C02 C14
//@ opaque
func specDescriptorsDecode(b []byte) ([]SpliceDescriptor, error) {
	r := vzNewRd(b)
	var sds []SpliceDescriptor
	var err error
	for r.left() > 0 {
		sd, e := specDescriptorRead(&r)
		// a descriptor that is not well-formed does not stop the others
		if e != nil {
			err = e
		}
		sds = append(sds, sd)
	}
	if err == nil {
		err = vzLengthErr(&r)
	}
	return sds, err
}

func specDescriptorRead(r *vrd) (SpliceDescriptor, error) {
	h := *r
	tag := h.u32(8)
	n := int(h.u32(8))
	sd := specNewDescriptor(h.u32(32), tag)
	err := sd.decode(r.take(n + 2))
	return sd, err
}

//@ spec (*SpliceInfoSection).Decode
//@ all C02 C09 C15 C21
//@ opaque
//@ modifies sis
func specSectionDecode(sis *SpliceInfoSection, b []byte) error {
	*sis = SpliceInfoSection{}
	r := vzNewRd(b)
	r.skip(8 + 1 + 1)
	sis.SAPType = r.u32(2)
	r.skip(12)
	sis.ProtocolVersion = r.u32(8)
	encrypted := r.flag()
	sis.EncryptedPacket.EncryptionAlgorithm = r.u32(6)
	sis.PTSAdjustment = r.u64(33)
	sis.EncryptedPacket.CWIndex = r.u32(8)
	sis.Tier = r.u32(12)
	n := int(r.u32(12))
	cmd := specNewCommand(r.u32(8))
	sis.SpliceCommand = cmd
	if n == 0xFFF {
		// legacy signal: the command is as long as its content says
		if err := cmd.decode(r.rest()); err != nil && !errors.Is(err, ErrBufferUnderflow) {
			return err
		}
		r.skip(8 * cmd.length())
	} else if err := cmd.decode(r.take(n)); err != nil {
		return err
	}
	n = int(r.u32(16))
	var err error
	sis.SpliceDescriptors, err = specDescriptorsDecode(r.take(n))
	if err != nil {
		return err
	}
	tail := 4
	if encrypted {
		tail = 8
	}
	if r.left() >= 8*(tail+1) {
		sis.alignmentStuffing = r.take(r.left()/8 - tail)
	}
	if encrypted {
		sis.ecrc32 = r.take(4)
	}
	sis.crc32 = r.take(4)
	if err := vzLengthErr(&r); err != nil {
		return err
	}
	return specVerifyCRC(b)
}

//@ spec (*SpliceInfoSection).descriptorLoopLength
//@ all C08
func specLoopLength(sis *SpliceInfoSection) int {
	n := 0
	for i := 0; i < len(sis.SpliceDescriptors); i++ {
		vassume(sis.SpliceDescriptors[i] != nil)
		n += 2 + sis.SpliceDescriptors[i].length()
	}
	return n
}

//@ spec (*SpliceInfoSection).sectionLength
//@ all C08
func specSectionLength(sis *SpliceInfoSection) int {
	n := 11
	if sis.SpliceCommand != nil {
		n += sis.SpliceCommand.length()
	}
	n += 2 + specLoopLength(sis) + len(sis.alignmentStuffing)
	if sis.EncryptedPacket.EncryptionAlgorithm != 0 {
		n += 4
	}
	return n + 4
}

//@ spec (*SpliceInfoSection).length
//@ all C08
func specLength(sis *SpliceInfoSection) int { return 3 + specSectionLength(sis) }

//@ spec (*SpliceInfoSection).Encode
//@ all C07 C09
//@ opaque
//@ assert C08
func specSectionEncode(sis *SpliceInfoSection) ([]byte, error) {
	vassume(sis.SpliceCommand != nil)
	w := vzNewWr()
	w.put(8, 0xFC)
	w.put(2, 0)
	w.put(2, uint64(sis.SAPType))
	w.put(12, uint64(specSectionLength(sis)))
	w.put(8, uint64(sis.ProtocolVersion))
	w.flag(sis.EncryptedPacket.EncryptionAlgorithm != 0)
	w.put(6, uint64(sis.EncryptedPacket.EncryptionAlgorithm))
	w.put(33, sis.PTSAdjustment)
	w.put(8, uint64(sis.EncryptedPacket.CWIndex))
	w.put(12, uint64(sis.Tier))
	w.put(12, uint64(sis.SpliceCommand.length()))
	w.put(8, uint64(sis.SpliceCommand.Type()))
	c, err := sis.SpliceCommand.encode()
	if err != nil {
		return nil, err
	}
	w.bytes(c)
	w.put(16, uint64(specLoopLength(sis)))
	for i := 0; i < len(sis.SpliceDescriptors); i++ {
		vassume(sis.SpliceDescriptors[i] != nil)
		d, err := sis.SpliceDescriptors[i].encode()
		if err != nil {
			return nil, err
		}
		w.bytes(d)
	}
	w.bytes(sis.alignmentStuffing)
	if sis.EncryptedPacket.EncryptionAlgorithm != 0 {
		w.put(32, uint64(specCRC(w.done())))
	}
	w.put(32, uint64(specCRC(w.done())))
	vassert(w.at() == 8*specLength(sis), "section_length")
	return w.done(), nil
}
