package scte35

import "errors"

// C15: a legacy signal does not say how long its command is. The section gives
// the decoder everything that is left and goes on where the command ends.

func vzLegacy(whole, prefix SpliceCommand, c, more []byte) {
	vassume(prefix.decode(c) == nil)
	w := vzNewWr()
	w.bytes(c)
	w.bytes(more)
	err := whole.decode(w.done())
	vassert(err == nil || errors.Is(err, ErrBufferUnderflow), "the command is decoded from what is left of the section")
	vassert(whole.length() == len(c), "it is as long as the command was")
	vsame(whole, prefix, "it is the command")
}

//@ lemma
//@ reveal
//@ all C15
func lemmaLegacySpliceNull(c, more []byte) {
	vassume(len(c) == 0)
	vzLegacy(&SpliceNull{}, &SpliceNull{}, c, more)
}

//@ lemma
//@ reveal
//@ all C15
func lemmaLegacySpliceSchedule(c, more []byte) {
	vzLegacy(&SpliceSchedule{}, &SpliceSchedule{}, c, more)
}

//@ lemma
//@ reveal
//@ all C15
func lemmaLegacySpliceInsert(c, more []byte) {
	vzLegacy(&SpliceInsert{}, &SpliceInsert{}, c, more)
}

//@ lemma
//@ reveal
//@ all C15
func lemmaLegacyTimeSignal(c, more []byte) {
	vzLegacy(&TimeSignal{}, &TimeSignal{}, c, more)
}

//@ lemma
//@ reveal
//@ all C15
func lemmaLegacyBandwidthReservation(c, more []byte) {
	vassume(len(c) == 0)
	vzLegacy(&BandwidthReservation{}, &BandwidthReservation{}, c, more)
}
