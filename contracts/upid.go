package scte35

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/text/encoding/charmap"
)

//@ spec NewSegmentationUPID
//@ all C12 C04
//@ opaque
//@ total
func specNewUPID(upidType uint32, b []byte) SegmentationUPID {
	u := SegmentationUPID{Type: upidType, Format: "text"}
	switch upidType {
	case 0x05, 0x06:
		u.Format = "base-64"
		u.Value = base64.StdEncoding.EncodeToString(b)
	case 0x08:
		vassume(len(b) <= 8)
		r := vzNewRd(b)
		u.Value = strconv.FormatUint(r.u64(8*len(b)), 10)
	case 0x0a:
		u.Value = specCanonicalEIDR(b)
	case 0x0c:
		r := vzNewRd(b)
		f := r.u32(32)
		u.Format = "base-64"
		u.FormatIdentifier = &f
		u.Value = base64.StdEncoding.EncodeToString(r.rest())
	default:
		v, _ := charmap.ISO8859_1.NewDecoder().Bytes(b)
		u.Value = string(v)
	}
	return u
}

//@ spec canonicalEIDR
//@ all C12 C04
//@ opaque
//@ total
func specCanonicalEIDR(b []byte) string {
	vassume(len(b) == 12)
	r := vzNewRd(b)
	n := r.u32(16)
	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", n, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])
}

//@ spec (*SegmentationUPID).valueBytes
//@ all C12 C06
//@ opaque
//@ total
func specUPIDBytes(u *SegmentationUPID) []byte {
	v := strings.TrimSpace(u.Value)
	switch u.Type {
	case 0x05, 0x06:
		b, err := base64.StdEncoding.DecodeString(v)
		vassume(err == nil)
		return b
	case 0x08:
		n, err := strconv.ParseUint(v, 10, 64)
		vassume(err == nil)
		w := vzNewWr()
		w.put(64, n)
		return w.done()
	case 0x0a:
		return specCompressEIDR(u, v)
	case 0x0c:
		b, err := base64.StdEncoding.DecodeString(v)
		vassume(err == nil && u.FormatIdentifier != nil)
		w := vzNewWr()
		w.put(32, uint64(*u.FormatIdentifier))
		w.bytes(b)
		return w.done()
	default:
		b, err := charmap.ISO8859_1.NewEncoder().Bytes([]byte(v))
		vassume(err == nil)
		return b
	}
}

//@ spec (*SegmentationUPID).compressEIDR
//@ all C12 C06
//@ opaque
//@ total
func specCompressEIDR(u *SegmentationUPID, s string) []byte {
	parts := strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '/' })
	vassume(len(parts) == 3)
	n, err := strconv.Atoi(parts[1])
	vassume(err == nil)
	h, err := hex.DecodeString(strings.ReplaceAll(parts[2], "-", ""))
	vassume(err == nil && len(h) == 10)
	w := vzNewWr()
	w.put(16, uint64(n))
	w.bytes(h)
	return w.done()
}

//@ spec (*SegmentationUPID).ASCIIValue
//@ all C12
func specASCIIValue(u *SegmentationUPID) string {
	b := specUPIDBytes(u)
	s := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		s[i] = b[i]
		if b[i] < 32 || b[i] > 126 {
			s[i] = '.'
		}
	}
	return string(s)
}

//@ spec (*SegmentationUPID).formatIdentifierString
//@ all C12
func specFormatIdentifierString(u *SegmentationUPID) string {
	if u.FormatIdentifier == nil {
		return ""
	}
	w := vzNewWr()
	w.put(32, uint64(*u.FormatIdentifier))
	return string(w.done())
}

//@ spec (*SegmentationUPID).eidrTypeName
//@ all C24
func specEIDRTypeName(u *SegmentationUPID) string {
	switch {
	case strings.HasPrefix(u.Value, "10.5237"):
		return "Party ID"
	case strings.HasPrefix(u.Value, "10.5238"):
		return "User ID"
	case strings.HasPrefix(u.Value, "10.5239"):
		return "Service ID"
	case strings.HasPrefix(u.Value, "10.5240"):
		return "Content ID"
	}
	return ""
}
