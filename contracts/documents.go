package scte35

import (
	"encoding/json"
	"encoding/xml"
	"errors"
)

// C18, C19, C21: documents. Whatever encoding/json and encoding/xml write for a
// value they read back into the fields of the same names (govc's model of the
// two packages works from the struct tags of the source); the methods that
// bridge the polymorphic parts are the code under verification.

func vzJSONBack(h, out *SpliceInfoSection, cmd SpliceCommand, sds SpliceDescriptors) {
	in := SpliceInfoSection{EncryptedPacket: h.EncryptedPacket, SpliceCommand: cmd, SpliceDescriptors: sds,
		SAPType: h.SAPType, PTSAdjustment: h.PTSAdjustment, ProtocolVersion: h.ProtocolVersion, Tier: h.Tier}
	b, err := in.MarshalJSON()
	vassert(err == nil, "a section is marshalled")
	err = out.UnmarshalJSON(b)
	vassert(err == nil, "and unmarshalled")
	vsignal(out.EncryptedPacket, h.EncryptedPacket, "to the same encrypted_packet")
	vassert(out.SAPType == h.SAPType && out.PTSAdjustment == h.PTSAdjustment && out.ProtocolVersion == h.ProtocolVersion && out.Tier == h.Tier, "the same header")
	vassert(len(out.SpliceDescriptors) == len(sds), "as many descriptors")
	fresh := &SpliceInfoSection{}
	err = fresh.UnmarshalJSON(b)
	vassert(err == nil, "the document can be read twice")
	vsame(*out, *fresh, "whatever was there before")
}

//@ lemma
//@ all C18 C21
func lemmaJSONSpliceNull(h, out *SpliceInfoSection, cmd *SpliceNull) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceNull)
	vassert(ok && c != nil, "with a splice_null")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONSpliceInsert(h, out *SpliceInfoSection, cmd *SpliceInsert) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceInsert)
	vassert(ok && c != nil, "with a splice_insert")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONSpliceSchedule(h, out *SpliceInfoSection, cmd *SpliceSchedule) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceSchedule)
	vassert(ok && c != nil, "with a splice_schedule")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONTimeSignal(h, out *SpliceInfoSection, cmd *TimeSignal) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONBandwidthReservation(h, out *SpliceInfoSection, cmd *BandwidthReservation) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*BandwidthReservation)
	vassert(ok && c != nil, "with a bandwidth_reservation")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONPrivateCommand(h, out *SpliceInfoSection, cmd *PrivateCommand) {
	vassume(vtext(cmd))
	vzJSONBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*PrivateCommand)
	vassert(ok && c != nil, "with a private_command")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONAvailDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *AvailDescriptor) {
	vassume(vtext(sd))
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*AvailDescriptor)
	vassert(ok && d != nil, "and a avail_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONDTMFDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *DTMFDescriptor) {
	vassume(vtext(sd))
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*DTMFDescriptor)
	vassert(ok && d != nil, "and a DTMF_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONSegmentationDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *SegmentationDescriptor) {
	vassume(vtext(sd))
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*SegmentationDescriptor)
	vassert(ok && d != nil, "and a segmentation_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONTimeDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *TimeDescriptor) {
	vassume(vtext(sd))
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*TimeDescriptor)
	vassert(ok && d != nil, "and a time_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONAudioDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *AudioDescriptor) {
	vassume(vtext(sd))
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*AudioDescriptor)
	vassert(ok && d != nil, "and a audio_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONPrivateDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *PrivateDescriptor) {
	vassume(vtext(sd))
	vassume(sd.Identifier != 0x43554549 || sd.PrivateTag > 4)
	vzJSONBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*PrivateDescriptor)
	vassert(ok && d != nil, "and a private_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONOrder(h, out *SpliceInfoSection, cmd *SpliceInsert, a *TimeDescriptor, b *PrivateDescriptor, c *DTMFDescriptor) {
	vassume(vtext(a) && vtext(b) && vtext(c))
	vassume(b.Identifier != 0x43554549)
	vzJSONBack(h, out, cmd, SpliceDescriptors{b, a, c})
	d, ok := out.SpliceDescriptors[0].(*PrivateDescriptor)
	vassert(ok && d != nil, "first a private_descriptor")
	vsignal(d, b, "the same")
	e, ok := out.SpliceDescriptors[1].(*TimeDescriptor)
	vassert(ok && e != nil, "then a time_descriptor")
	vsignal(e, a, "the same")
	f, ok := out.SpliceDescriptors[2].(*DTMFDescriptor)
	vassert(ok && f != nil, "then a DTMF_descriptor")
	vsignal(f, c, "the same")
}

//@ lemma
//@ all C18 C21
func lemmaJSONSAPDefault(out *SpliceInfoSection, ep EncryptedPacket, cmd *TimeSignal, tier uint32) {
	cmd.JSONType = 0x06
	b, err := json.Marshal(map[string]any{"encryptedPacket": ep, "spliceCommand": cmd, "tier": tier})
	vassert(err == nil, "an object without sapType")
	err = out.UnmarshalJSON(b)
	vassert(err == nil, "is unmarshalled")
	vassert(out.SAPType == 3, "to a section with no SAP type")
	vassert(out.Tier == tier && out.ProtocolVersion == 0 && out.PTSAdjustment == 0, "and the other fields")
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
}

type vzDescriptorType struct {
	Identifier uint32 `json:"identifier"`
	Type       uint32 `json:"type"`
}

// Every descriptor of a list is unmarshalled from its own document, whatever
// the others are; nothing of the list that was there before remains.
//
//@ spec (*SpliceDescriptors).UnmarshalJSON
//@ all C18 C21
//@ modifies sds
func specDescriptorsUnmarshalJSON(sds *SpliceDescriptors, data []byte) error {
	var docs []json.RawMessage
	if err := json.Unmarshal(data, &docs); err != nil {
		return err
	}
	list := make(SpliceDescriptors, len(docs))
	for i := 0; i < len(docs); i++ {
		t := vzDescriptorType{Identifier: 0x43554549}
		if err := json.Unmarshal(docs[i], &t); err != nil {
			return err
		}
		d := specNewDescriptor(t.Identifier, t.Type)
		if err := json.Unmarshal(docs[i], &d); err != nil {
			return err
		}
		if d == nil {
			return errors.New("not a descriptor")
		}
		list[i] = d
	}
	*sds = list
	return nil
}

func vzXMLBack(h, out *SpliceInfoSection, cmd SpliceCommand, sds SpliceDescriptors) {
	in := SpliceInfoSection{EncryptedPacket: h.EncryptedPacket, SpliceCommand: cmd, SpliceDescriptors: sds, PreRollMilliSeconds: h.PreRollMilliSeconds,
		SAPType: h.SAPType, PTSAdjustment: h.PTSAdjustment, ProtocolVersion: h.ProtocolVersion, Tier: h.Tier}
	b, err := xml.Marshal(&in)
	vassert(err == nil, "a section is marshalled")
	err = xml.Unmarshal(b, out)
	vassert(err == nil, "and unmarshalled")
	vsignal(out.EncryptedPacket, h.EncryptedPacket, "to the same encrypted_packet")
	vassert(out.SAPType == h.SAPType && out.PTSAdjustment == h.PTSAdjustment && out.ProtocolVersion == h.ProtocolVersion && out.Tier == h.Tier && out.PreRollMilliSeconds == h.PreRollMilliSeconds, "the same header")
	vassert(len(out.SpliceDescriptors) == len(sds), "as many descriptors")
	fresh := &SpliceInfoSection{}
	err = xml.Unmarshal(b, fresh)
	vassert(err == nil, "the document can be read twice")
	vsame(*out, *fresh, "whatever was there before")
}

//@ lemma
//@ all C19 C21
func lemmaXMLSpliceNull(h, out *SpliceInfoSection, cmd *SpliceNull) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceNull)
	vassert(ok && c != nil, "with a splice_null")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLSpliceInsert(h, out *SpliceInfoSection, cmd *SpliceInsert) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceInsert)
	vassert(ok && c != nil, "with a splice_insert")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLSpliceSchedule(h, out *SpliceInfoSection, cmd *SpliceSchedule) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*SpliceSchedule)
	vassert(ok && c != nil, "with a splice_schedule")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLTimeSignal(h, out *SpliceInfoSection, cmd *TimeSignal) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLBandwidthReservation(h, out *SpliceInfoSection, cmd *BandwidthReservation) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*BandwidthReservation)
	vassert(ok && c != nil, "with a bandwidth_reservation")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLPrivateCommand(h, out *SpliceInfoSection, cmd *PrivateCommand) {
	vassume(vtext(cmd))
	vzXMLBack(h, out, cmd, nil)
	c, ok := out.SpliceCommand.(*PrivateCommand)
	vassert(ok && c != nil, "with a private_command")
	vsignal(c, cmd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLAvailDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *AvailDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*AvailDescriptor)
	vassert(ok && d != nil, "and a avail_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLDTMFDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *DTMFDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*DTMFDescriptor)
	vassert(ok && d != nil, "and a DTMF_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLSegmentationDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *SegmentationDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*SegmentationDescriptor)
	vassert(ok && d != nil, "and a segmentation_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLTimeDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *TimeDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*TimeDescriptor)
	vassert(ok && d != nil, "and a time_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLAudioDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *AudioDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*AudioDescriptor)
	vassert(ok && d != nil, "and a audio_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLPrivateDescriptor(h, out *SpliceInfoSection, cmd *TimeSignal, sd *PrivateDescriptor) {
	vassume(vtext(sd))
	vzXMLBack(h, out, cmd, SpliceDescriptors{sd})
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
	d, ok := out.SpliceDescriptors[0].(*PrivateDescriptor)
	vassert(ok && d != nil, "and a private_descriptor")
	vsignal(d, sd, "the same")
}

//@ lemma
//@ all C19 C21
func lemmaXMLOrder(h, out *SpliceInfoSection, cmd *SpliceInsert, a *TimeDescriptor, b *PrivateDescriptor, c *DTMFDescriptor) {
	vassume(vtext(a) && vtext(b) && vtext(c))
	vzXMLBack(h, out, cmd, SpliceDescriptors{b, a, c})
	d, ok := out.SpliceDescriptors[0].(*PrivateDescriptor)
	vassert(ok && d != nil, "first a private_descriptor")
	vsignal(d, b, "the same")
	e, ok := out.SpliceDescriptors[1].(*TimeDescriptor)
	vassert(ok && e != nil, "then a time_descriptor")
	vsignal(e, a, "the same")
	f, ok := out.SpliceDescriptors[2].(*DTMFDescriptor)
	vassert(ok && f != nil, "then a DTMF_descriptor")
	vsignal(f, c, "the same")
}

type vzBare struct {
	XMLName    xml.Name `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	TimeSignal *TimeSignal
	Tier       uint32 `xml:"tier,attr"`
}

//@ lemma
//@ all C19 C21
func lemmaXMLSAPDefault(out *SpliceInfoSection, cmd *TimeSignal, tier uint32) {
	b, err := xml.Marshal(&vzBare{TimeSignal: cmd, Tier: tier})
	vassert(err == nil, "an element without sapType")
	err = xml.Unmarshal(b, out)
	vassert(err == nil, "is unmarshalled")
	vassert(out.SAPType == 3, "to a section with no SAP type")
	vassert(out.Tier == tier && out.ProtocolVersion == 0 && out.PTSAdjustment == 0, "and the other fields")
	c, ok := out.SpliceCommand.(*TimeSignal)
	vassert(ok && c != nil, "with a time_signal")
	vsignal(c, cmd, "the same")
}

// An element is read into a descriptor of the kind its name says, which is put
// behind those there are.
//
//@ spec (*SpliceDescriptors).UnmarshalXML
//@ all C19 C21
//@ noreplay
//@ modifies sds
func specDescriptorsUnmarshalXML(sds *SpliceDescriptors, d *xml.Decoder, start xml.StartElement) error {
	var sd SpliceDescriptor
	switch start.Name.Local {
	case "AudioDescriptor":
		sd = &AudioDescriptor{}
	case "AvailDescriptor":
		sd = &AvailDescriptor{}
	case "DTMFDescriptor":
		sd = &DTMFDescriptor{}
	case "PrivateDescriptor":
		sd = &PrivateDescriptor{}
	case "SegmentationDescriptor":
		sd = &SegmentationDescriptor{}
	case "TimeDescriptor":
		sd = &TimeDescriptor{}
	default:
		return errors.New("not a descriptor")
	}
	if err := d.DecodeElement(&sd, &start); err != nil {
		return err
	}
	*sds = append(*sds, sd)
	return nil
}

// C21: unmarshalling any document, or as much of it as can be read, leaves
// nothing of the section that was there before.
//
//@ lemma
//@ all C21
//@ noreplay
func lemmaJSONFresh(old *SpliceInfoSection, doc []byte) {
	fresh := &SpliceInfoSection{}
	e, f := old.UnmarshalJSON(doc), fresh.UnmarshalJSON(doc)
	vassert((e == nil) == (f == nil), "the same document is accepted")
	if e == nil {
		vsame(*old, *fresh, "and gives the same section")
	}
}

//@ lemma
//@ all C21
//@ noreplay
func lemmaXMLFresh(old *SpliceInfoSection, d *xml.Decoder, start xml.StartElement) {
	fresh := &SpliceInfoSection{}
	e := old.UnmarshalXML(d, start)
	vrewind(d)
	f := fresh.UnmarshalXML(d, start)
	vassert((e == nil) == (f == nil), "the same element is accepted")
	if e == nil {
		vsame(*old, *fresh, "and gives the same section")
	}
}

//@ lemma
//@ all C21
func lemmaJSONSparse(old *SpliceInfoSection, cmd *TimeSignal) {
	cmd.JSONType = 0x06
	b, err := json.Marshal(map[string]any{"spliceCommand": cmd})
	vassert(err == nil, "an object with nothing but a command")
	fresh := &SpliceInfoSection{}
	e, f := old.UnmarshalJSON(b), fresh.UnmarshalJSON(b)
	vassert(e == nil && f == nil, "is unmarshalled")
	vsame(*old, *fresh, "whatever was there before")
}

type vzSparse struct {
	XMLName    xml.Name `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	TimeSignal *TimeSignal
}

//@ lemma
//@ all C21
func lemmaXMLSparse(old *SpliceInfoSection, cmd *TimeSignal) {
	b, err := xml.Marshal(&vzSparse{TimeSignal: cmd})
	vassert(err == nil, "an element with nothing but a command")
	fresh := &SpliceInfoSection{}
	e, f := xml.Unmarshal(b, old), xml.Unmarshal(b, fresh)
	vassert(e == nil && f == nil, "is unmarshalled")
	vsame(*old, *fresh, "whatever was there before")
}
