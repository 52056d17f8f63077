package scte35

// ---- C09: CRC-32/MPEG-2 ----

// One bit of the polynomial division, most significant bit first.
func specCRCBit(crc uint32) uint32 {
	if crc&0x80000000 != 0 {
		return crc<<1 ^ 0x04C11DB7
	}
	return crc << 1
}

func specCRCByte(crc uint32, c byte) uint32 {
	crc ^= uint32(c) << 24
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	crc = specCRCBit(crc)
	return specCRCBit(crc)
}

//@ spec calculateCRC32
//@ all C09
//@ opaque
//@ total
func specCRC(b []byte) uint32 {
	crc := uint32(0xffffffff)
	for i := 0; i < len(b); i++ {
		crc = specCRCByte(crc, b[i])
	}
	return crc
}

//@ spec verifyCRC32
//@ all C09 C13
func specVerifyCRC(b []byte) error {
	n := len(b) - 4
	if n < 0 {
		return ErrCRC32Invalid
	}
	r := vzNewRd(b)
	if specCRC(r.take(n)) != r.u32(32) {
		return ErrCRC32Invalid
	}
	return nil
}

