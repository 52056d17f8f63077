#!/usr/bin/env python3
"""Generates properties.jsonl (one place to edit the statements)."""
import json,sys
P="pkg/scte35/"
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=[f if '/' in f else P+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    return d
L=[]
A=L.append
CMD=["splice_insert.go","splice_schedule.go","time_signal.go","splice_null.go","bandwidth_reservation.go","private_command.go","splice_command.go"]
DES=["segmentation_descriptor.go","avail_descriptor.go","dtmf_descriptor.go","time_descriptor.go","audio_descriptor.go","private_descriptor.go","splice_descriptor.go"]
A(p("C01","Decoding any byte string terminates without panicking",
 "Decoding an arbitrary byte string, whether as raw bytes, base64 text or hexadecimal text, always terminates and never panics. The text entry points always hand back a non-nil section object, also when they report an error.",
 ["inputs"],"every byte string of every length, and every base64/hex text, including truncated, oversized and self-inconsistent signals",
 "The tests decode about twenty well-formed samples and five malformed ones; a panic or hang can hide behind any combination of count, length and flag fields.",
 ["splice_info_section.go","scte35.go","crc_32.go","segmentation_upid.go"]+CMD+DES,
 [("section decoder","SpliceInfoSection.Decode"),("command/descriptor decoders","decode methods"),("identifier decoding","NewSegmentationUPID, canonicalEIDR"),("text entry points","DecodeBase64, DecodeHex")]))
A(p("C02","Section decoding follows the published bit layout",
 "For every byte string that decodes without error, the decoded section's SAP type, protocol version, encryption algorithm, control word index, PTS adjustment and tier are exactly the values found at the bit positions the SCTE 35 section syntax assigns to them. The command is the one selected by the command type byte and is decoded from exactly the declared command length, and the descriptors are decoded, in order, from exactly the declared descriptor loop, each delimited by its own declared length and selected by its identifier and tag.",
 ["inputs"],"every byte string accepted by the decoder; every command type, command length, descriptor count, tag and identifier",
 "The tests compare a handful of captured signals in which most header fields take a single value (zero adjustment, tier 0xFFF, version 0), so a wrong width, offset or dispatch for other values goes unseen.",
 ["splice_info_section.go","splice_command.go","splice_descriptor.go"],
 [("header, length and trailer parsing","SpliceInfoSection.Decode"),("command dispatch","NewSpliceCommand, decodeSpliceCommand"),("descriptor loop and dispatch","decodeSpliceDescriptors, NewSpliceDescriptor")]))
A(p("C03","Command decoding follows the published bit layout",
 "For every payload a splice command accepts, the decoded command holds exactly the values the SCTE 35 syntax assigns to those bits: identifiers, flags (with the event id compliance flag inverted), optional program and component splice times, break durations, UTC times, avail numbering and private bytes, with conditional fields present exactly when their flags say so and with one entry per declared component or event. A cancelled event carries no fields after its cancel indicator.",
 ["inputs"],"every payload of every command type; every flag combination, every number of components and scheduled events",
 "Tests exercise single captured payloads for insert and time signal; schedules with events, component mode, cancel forms and times above 32 bits are not sampled at all.",
 CMD,[("per-command decoders","decode methods of the splice commands")]))
A(p("C04","Descriptor decoding follows the published bit layout",
 "For every payload a CUEI splice descriptor accepts, the decoded avail, DTMF, segmentation, time or audio descriptor holds exactly the values the SCTE 35 syntax assigns to those bits, including the inverted compliance flag, delivery restrictions, components, 40-bit duration, single and multiple identifiers, 48-bit TAI seconds and per-channel audio data. Conditional fields are present exactly when their flags or the remaining length say so; sub-segment fields are taken only for the segmentation types that define them and only when exactly two bytes remain.",
 ["inputs"],"every payload of every descriptor type; every flag, type id and count",
 "Tests use a few segmentation descriptors with one layout and one DTMF descriptor; time and audio descriptors, components and most type ids are never decoded.",
 DES+["segmentation_upid.go"],[("per-descriptor decoders","decode methods of the splice descriptors")]))
A(p("C05","Command encoding follows the published bit layout",
 "Encoding any representable splice command yields exactly the bit string the SCTE 35 syntax prescribes for its fields, with reserved bits set to one, conditional parts present exactly when the corresponding field is set, every component and event emitted in order, and no fields after the cancel indicator of a cancelled event.",
 ["inputs"],"every command value whose fields fit their bit widths and whose lists have at most 255 entries",
 "Tests re-encode the few captured commands they decoded; schedules with events, component mode, cancelled events and private commands are not encoded.",
 CMD,[("per-command encoders","encode methods of the splice commands")]))
A(p("C06","Descriptor encoding follows the published bit layout",
 "Encoding any representable splice descriptor yields exactly the tag, length, identifier and bit string the SCTE 35 syntax prescribes for its fields, with reserved bits set to one, conditional parts present exactly when the corresponding field is set, and every component, identifier and audio channel emitted in order.",
 ["inputs"],"every descriptor value whose fields fit their bit widths and whose encoded size is at most 255 bytes",
 "Tests re-encode a few segmentation descriptors; audio, time, avail and private descriptors and component lists are not encoded with varying content.",
 DES+["segmentation_upid.go"],[("per-descriptor encoders","encode methods of the splice descriptors")]))
A(p("C07","Section encoding follows the published bit layout",
 "Encoding any section that has a command yields exactly: table id 0xFC, the fixed indicator bits, SAP type, section length, protocol version, encryption flag and algorithm, PTS adjustment, control word index, tier, command length, type and bytes, descriptor loop length and descriptors in order, any retained alignment stuffing, the encrypted CRC when an encryption algorithm is set, and the CRC. A failure of a command or descriptor encoder is reported as an error rather than as output.",
 ["inputs"],"every section value with a command; any number and kind of descriptors; any stuffing; encrypted or not",
 "Tests re-encode captured signals with fixed header values and never an encrypted section or one with three or more kinds of descriptor.",
 ["splice_info_section.go"],[("section encoder","SpliceInfoSection.Encode"),("length computations","length, sectionLength, descriptorLoopLength")]))
A(p("C08","Every length field written is the true length",
 "In every encoded signal the section length, command length, descriptor loop length, each descriptor length and each identifier length equal the number of bytes that actually follow for that part, and the returned buffer is exactly as long as the section length says. The lengths shown in the tabular rendering are the same values.",
 ["inputs"],"every representable section, command, descriptor and identifier list",
 "Length and encoding are computed by separate code that must agree for every flag combination and list size; tests cover only a few.",
 ["splice_info_section.go"]+CMD+DES,[("length methods next to the encoders","length methods; SegmentationUpidLength; AudioChannel.length")]))
A(p("C09","CRC-32/MPEG-2 is generated and verified on every signal",
 "The last four bytes of every encoded section are the CRC-32/MPEG-2 (polynomial 0x04C11DB7, initial value all ones, no reflection, no final inversion) of all preceding bytes. Decoding reports the invalid-CRC error for every otherwise well-formed byte string whose last four bytes are not that checksum, and never reports it when they are.",
 ["inputs"],"every byte string and every section",
 "The 256-entry table and the loop are exercised on about twenty signals, which touch few table entries; one wrong entry or an off-by-one range would still pass.",
 ["crc_32.go","splice_info_section.go"],[("table and loop","calculateCRC32, crc32Table"),("verification","verifyCRC32"),("generation","SpliceInfoSection.Encode")]))
A(p("C10","Decoding an encoded section gives the section back",
 "For every representable section, encoding succeeds and decoding the result succeeds and yields a section with the same header fields, command, descriptors and identifiers.",
 ["inputs"],"every section whose fields are representable: any command, any list of descriptors, any list lengths",
 "Tests round-trip fixed captured signals; combinations of optional fields, lists and identifier kinds are unbounded.",
 ["splice_info_section.go","segmentation_upid.go"]+CMD+DES,[("encoder/decoder pairs","encode and decode of each command and descriptor"),("section","Encode, Decode")]))
A(p("C11","Re-encoding a decoded canonical signal reproduces its bytes",
 "Every valid signal in canonical form (reserved bits one, canonical flags and counts, canonical identifier encodings) that decodes without error re-encodes to exactly the same bytes, including alignment stuffing and unknown or private content.",
 ["inputs"],"every canonical byte string accepted by the decoder",
 "Tests check re-encoding only for captured signals.",
 ["splice_info_section.go","segmentation_upid.go"]+CMD+DES,[("decode then encode","SpliceInfoSection.Decode, SpliceInfoSection.Encode")]))
A(p("C12","Segmentation identifier values match their bytes",
 "Each segmentation identifier type converts between its binary form and its value by the documented rule: EIDR to its canonical form, ISAN and MPU payloads to base64 with the MPU format identifier kept apart, TI to a decimal number over eight bytes, and everything else as Latin-1 text. Converting valid bytes to a value and back gives the same bytes, never changes the identifier it is called on, and the printable-ASCII view replaces exactly the bytes outside 32..126 by a dot.",
 ["inputs"],"every identifier type and every valid byte content",
 "Tests cover three or four types with one value each; byte values such as 0x2F inside a binary EIDR, high Latin-1 characters or missing format identifiers are not sampled.",
 ["segmentation_upid.go"],[("bytes to value","NewSegmentationUPID, canonicalEIDR"),("value to bytes","valueBytes, compressEIDR"),("printable view","ASCIIValue")]))
A(p("C13","Malformed signals are rejected with the right kind of error",
 "A payload that ends before the fields its syntax requires is reported as a buffer overflow error, a payload with bytes left over after all fields is reported as a buffer underflow error, a well-formed section with a wrong checksum as an invalid CRC, and undecodable text as unsupported encoding; each is recognisable by error identity through any wrapping. A payload that is exactly as long as its syntax requires is never rejected for its length, and no declared length that exceeds the available bytes is silently accepted for the command, the descriptor loop or a descriptor.",
 ["inputs"],"every truncation or extension point of every command, descriptor and section",
 "Tests contain five malformed inputs.",
 ["scte35.go","splice_info_section.go"]+CMD+DES,[("reader state check","readerError"),("error propagation","Decode, decodeSpliceCommand, decodeSpliceDescriptors")]))
A(p("C14","Unknown and private content is preserved unchanged",
 "A private command, a descriptor with a non-CUEI identifier and a CUEI descriptor with an unknown tag are decoded into their tag, identifier and exact payload bytes without failing the rest of the signal, and re-encode to the same bytes.",
 ["inputs"],"every identifier, tag and payload content",
 "Tests hold one non-CUEI descriptor.",
 ["private_command.go","private_descriptor.go","splice_descriptor.go","splice_command.go"],[("fallback dispatch","NewSpliceCommand, NewSpliceDescriptor"),("opaque payload","PrivateCommand, PrivateDescriptor")]))
A(p("C15","Legacy 0xFFF command length is decoded like the real length",
 "A signal whose command length field is the legacy value 0xFFF decodes to the same command and descriptors as the same content with the true command length, for every command type whose size is implied by its content.",
 ["inputs"],"every splice null, schedule, insert, time signal and bandwidth reservation command, with any descriptors",
 "One legacy sample is tested.",
 ["splice_info_section.go"]+CMD,[("legacy branch","SpliceInfoSection.Decode")]))
A(p("C16","Tick and duration conversions are exact inverses",
 "Converting any 90 kHz tick count up to 40 bits wide to a duration truncates the exact value to nanoseconds, converting a non-negative duration to ticks rounds the exact value up, and converting ticks to a duration and back always gives the original tick count.",
 ["inputs"],"every tick count in 0..2^40-1 and every non-negative duration",
 "The test samples 32 seconds worth of tick values; floating point rounding fails first at tick values it does not reach.",
 ["scte35.go"],[("conversions","TicksToDuration, DurationToTicks")]))
A(p("C17","GPS splice times convert exactly to UTC and back",
 "For every 32-bit GPS seconds value the constructed UTC splice time is exactly that many seconds after 1980-01-06T00:00:00Z, and converting it back gives the same 32-bit value.",
 ["inputs"],"all 2^32 GPS second values",
 "No test uses a splice time; overflow appears only in values beyond 2106.",
 ["scte35.go"],[("conversions","NewUTCSpliceTime, GPSSeconds")]))
A(p("C18","JSON round trip preserves the signal",
 "Marshalling any decoded section to JSON and unmarshalling it gives a section that encodes to the same binary signal (alignment stuffing apart), with every command and descriptor restored to its own type, and the section type defaults to not specified when the field is absent.",
 ["inputs"],"every section obtained by decoding, with text that is valid for JSON",
 "Tests convert captured samples to JSON but compare only two unmarshalled documents.",
 ["splice_info_section.go","splice_descriptor.go"]+CMD,[("section","MarshalJSON, UnmarshalJSON, iSIS.SpliceCommand"),("descriptors","SpliceDescriptors.UnmarshalJSON"),("type tags","Type and Tag methods, struct tags")]))
A(p("C19","XML round trip preserves the signal",
 "Marshalling any decoded section to XML and unmarshalling it gives a section that encodes to the same binary signal (alignment stuffing apart), with every command and descriptor restored to its own type and in order, and the section type defaults to not specified when the attribute is absent.",
 ["inputs"],"every section obtained by decoding, with text that is valid for XML",
 "Tests check the marshalled text for captured samples and two unmarshalled documents.",
 ["splice_info_section.go","splice_descriptor.go"]+CMD,[("section","UnmarshalXML, iSIS.SpliceCommand, struct tags"),("descriptors","SpliceDescriptors.UnmarshalXML")]))
A(p("C20","Encoding does not change the section and is repeatable",
 "Encoding a section to bytes, base64 or hexadecimal, asking for its duration and asking an identifier for its bytes or printable view leave every exported field of the section unchanged (the JSON type tag cache apart), and repeating the call gives the same result.",
 ["inputs","histories"],"every section and every sequence of these calls",
 "Tests call each operation once and compare output only.",
 ["splice_info_section.go","segmentation_upid.go"]+CMD+DES,[("encoders and length functions","encode, length, valueBytes, Encode, Base64, Hex, Duration")]))
A(p("C21","Decoding into a used section leaves no trace of its past",
 "Decoding or unmarshalling a valid signal into a section that previously held another signal gives the same result, including everything it later encodes to, as decoding into a fresh section.",
 ["histories","inputs"],"every pair of signals decoded one after the other into the same object",
 "Every test decodes into a new object.",
 ["splice_info_section.go"],[("state reset","SpliceInfoSection.Decode, UnmarshalJSON, UnmarshalXML")]))
A(p("C22","The tabular rendering shows the signal's own values",
 "Rendering any section as a table never panics for a decoded section, is a pure function of the section's field values (never of memory addresses), and lists, for each header field, command field, descriptor field, component and identifier that is present, a row with that field's value.",
 ["inputs"],"every decoded section",
 "No test looks at the rendering.",
 ["table.go","splice_info_section.go"]+CMD+DES,[("rows","writeTo methods, Table"),("value formatting","table.row, valueString")]))
A(p("C23","Signal duration is the break duration or the segmentation total",
 "The duration of a section is its splice insert's break duration when there is one, and otherwise the sum of all its segmentation descriptors' durations, converted from 90 kHz ticks.",
 ["inputs"],"every section, any number of descriptors of any kind",
 "No test asks for a duration.",
 ["splice_info_section.go","scte35.go"],[("duration","SpliceInfoSection.Duration")]))
A(p("C24","Codes map to their published names",
 "For every 32-bit code, the human-readable name of the segmentation type, identifier type, SAP type, device restriction and encryption algorithm is the one SCTE 35 publishes for that code, with a fallback name for every unassigned code.",
 ["inputs"],"all 2^32 code values of each of the five code spaces",
 "No test looks at the names of more than the few codes in the samples.",
 ["segmentation_descriptor.go","segmentation_upid.go","splice_info_section.go","delivery_restrictions.go","encrypted_packet.go"],[("name tables","Name, SAPTypeName, deviceRestrictionsName, encryptionAlgorithmName")]))
A(p("C25","Base64 and hex text carry exactly the encoded bytes",
 "The base64 and hexadecimal forms of a section are exactly the standard base64 and lower-case hexadecimal of its binary encoding, or empty when encoding fails. Decoding base64 or hexadecimal text (with or without a 0x prefix, digits in either case) is exactly decoding of the bytes it denotes, and text that denotes no bytes is rejected as unsupported encoding.",
 ["inputs"],"every section and every text",
 "Tests decode fixed strings.",
 ["scte35.go","splice_info_section.go"],[("text forms","DecodeBase64, DecodeHex, Base64, Hex, Bytes")]))
A(p("C26","The command line tool converts faithfully",
 "The decode command prints the chosen rendering of the signal given as base64 or 0x-prefixed hexadecimal, and any error on standard error; the encode command reads one JSON or XML document from its argument or from standard input, unchanged, and prints exactly the base64 and hexadecimal forms of the section it describes.",
 ["inputs","configurations"],"every argument, every standard input document and every output format",
 "The command package has no tests.",
 ["cmd/decode.go","cmd/encode.go","cmd/scte35.go"],[("commands","decodeCommand, encodeCommand")]))
A(p("C27","Signals are independent: no shared mutable state",
 "No encoding, decoding, rendering or conversion writes to state shared between section objects, so that operations on distinct sections can run concurrently or in any order without influencing each other.",
 ["schedules","histories"],"every interleaving of operations on distinct section objects",
 "Tests run sequentially and compare one object at a time.",
 ["scte35.go","crc_32.go","splice_info_section.go"],[("package variables","Logger, crc32Table, error values are only read")]))
with open("/verif/properties.jsonl","w") as f:
    for d in L:
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(L))
