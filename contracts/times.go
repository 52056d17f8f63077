package scte35

import "time"

// ---- C16: 90 kHz ticks and durations ----

// 9 ticks are exactly 100 microseconds.
const specUnit = 100000

func vzNotNegative(d time.Duration) bool { return d >= 0 }

// A tick count of up to 40 bits, truncated to nanoseconds.
//
//@ spec TicksToDuration
//@ all C16
//@ opaque
//@ total
//@ wrap
//@ intmode
func specTicksToDuration(ticks uint64) time.Duration {
	vassume(ticks < 1<<40)
	return time.Duration(ticks * specUnit / 9)
}

// A non-negative duration, rounded up to ticks.
//
//@ spec DurationToTicks
//@ all C16
//@ wrap
//@ requires vzNotNegative
//@ intmode
func specDurationToTicks(d time.Duration) uint64 {
	whole, part := int64(d)/specUnit, int64(d)%specUnit
	return uint64(whole*9 + (part*9+specUnit-1)/specUnit)
}

//@ lemma
//@ all C16
//@ intmode
//@ reveal
func lemmaTicksRoundTrip(ticks uint64) {
	vassume(ticks < 1<<40)
	vassert(DurationToTicks(TicksToDuration(ticks)) == ticks, "ticks survive the round trip")
}

//@ lemma
//@ all C16
//@ intmode
//@ reveal
func lemmaTicksExact(d time.Duration) {
	vassume(d >= 0 && d < 1<<59)
	t := DurationToTicks(d)
	vassert(t*specUnit >= uint64(d)*9, "not rounded down")
	vassert(t == 0 || (t-1)*specUnit < uint64(d)*9, "not rounded up by a whole tick")
}

// ---- C17: GPS seconds ----

//@ spec NewUTCSpliceTime
//@ all C17
func specNewUTCSpliceTime(sec uint32) UTCSpliceTime {
	// 1980-01-06T00:00:00Z is 315964800 seconds after the Unix epoch
	return UTCSpliceTime{time.Unix(int64(sec)+315964800, 0)}
}

//@ spec (UTCSpliceTime).GPSSeconds
//@ all C17
func specGPSSeconds(t UTCSpliceTime) uint32 {
	return uint32(t.Time.Unix() - 315964800)
}

//@ lemma
//@ all C17
func lemmaGPSRoundTrip(sec uint32) {
	vassert(NewUTCSpliceTime(sec).GPSSeconds() == sec, "GPS seconds survive the round trip")
	vassert(NewUTCSpliceTime(sec).Unix() == int64(sec)+315964800, "exactly that many seconds after the GPS epoch")
}
