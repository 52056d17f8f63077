T=" Trusted: govc's translation of Go SSA, z3, and the assumed contracts of external functions (iobit, strconv, encoding/*, strings, fmt, charmap) listed in the evidence."
CLAIMS={
"C03":"Every command decoder is proved equal to its specification for every byte string."+T,
"C04":"Every descriptor decoder is proved equal to its specification for every byte string."+T,
"C05":"Every command encoder is proved to produce exactly the specified bits for every field value."+T,
"C06":"Every descriptor encoder is proved to produce exactly the specified bits for every field value."+T,
"C12":"The conversions between identifier bytes and values are proved equal to their specifications."+T,
"C01":"Every decoding function is proved free of panics and to terminate for every byte string; the text entry points are proved to hand back a section."+T,
"C02":"Section decoding is proved equal to its specification for every byte string."+T,
"C07":"Section encoding is proved to produce exactly the specified bits for every section of representable commands and descriptors; commands and descriptors enter through interface contracts every implementer is proved to satisfy."+T,
"C08":"Every length function is proved equal to its specification, every encoder to write exactly that many bytes, and the section length to be the true length."+T,
"C09":"The table-driven checksum is proved equal to bitwise polynomial division for every byte string, and verification to accept exactly the right checksum."+T,
"C13":"The error every decoder returns is proved to be the specified one, by identity, for every byte string."+T,
"C14":"Private and unknown content is proved to be decoded and encoded bit for bit."+T,
"C10":"For every command, descriptor, identifier and whole section, lemmas over the contracts prove that decoding the encoding gives the value back, lists of any length included; a section's command and descriptors enter through interface contracts, its descriptor loop one descriptor at any position (closed by induction on the list, on paper)."+T,
"C11":"The same lemmas prove that the decoded value encodes to the same bytes, for every canonical command, descriptor and section (canonical: the image of the proved encoders), alignment stuffing and private content included."+T,
"C15":"For every command whose size is implied by its content, a lemma proves that the real decoder gives the same command from the bytes that follow it under the legacy length as from exactly its own bytes; section decoding under either length is proved against its specification."+T,
"C16":"The conversions are proved equal to their specifications on integers, without overflow, and inverse."+T,
"C17":"The conversions are proved exact and inverse for every 32-bit value."+T,
"C18":"For every command and descriptor with any field values a lemma proves that the section unmarshalled from the JSON document marshalled from it is the same signal, through the real methods and struct tags; a contract proves that a list of any length is unmarshalled element by element."+T+" encoding/json is assumed to move values as the struct tags say.",
"C19":"For every command and descriptor with any field values a lemma proves that the section unmarshalled from the XML document marshalled from it is the same signal, through the real methods and struct tags; a contract proves that each element is appended as the kind its name says."+T+" encoding/xml is assumed to move values as the struct tags say.",
"C21":"Decoding into any section is proved to leave what the specification, which does not look at the old one, says; lemmas prove the same of unmarshalling any document into any section."+T,
"C20":"Every function under contract is proved to leave its arguments as the specification does: encoders, lengths, durations and views change nothing but the JSON type cache."+T,
"C23":"The duration is proved equal to its specification for every section."+T,
"C24":"Every name function is proved equal to the published table for every code."+T,
"C25":"The text forms are proved to be the standard encodings of the encoded bytes, and text decoding to be decoding of the denoted bytes."+T,
"C22":"Every function of the tabular rendering is proved to write exactly the specified rows for every value, without panicking and without printing an address."+T,
"C27":"Every function under contract is proved to write no package variable."+T,
"C26":"Lemmas over the real commands prove, for every argument, standard input and output format, what is written to standard output and standard error: the tree of commands the root builds is executed from the source. The methods of a section enter as functions of the section and their arguments (C20, C27); cobra's dispatch and flag parsing, the streams, encoding/json and encoding/xml are assumed."+T,
}
NA={}
