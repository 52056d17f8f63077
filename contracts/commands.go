package scte35

// vzReadSpliceTime is splice_time().
func vzReadSpliceTime(r *vrd) *uint64 {
	if r.flag() {
		r.skip(6)
		t := r.u64(33)
		return &t
	}
	r.skip(7)
	return nil
}

func vzWriteSpliceTime(w *vwr, t *uint64) {
	w.flag(t != nil)
	if t != nil {
		w.put(6, 0x3f)
		w.put(33, *t)
	} else {
		w.put(7, 0x7f)
	}
}

//@ spec (*TimeSignal).decode
//@ fresh
//@ all C03
//@ opaque
//@ modifies cmd
func specTimeSignalDecode(cmd *TimeSignal, b []byte) error {
	r := vzNewRd(b)
	t := vzReadSpliceTime(&r)
	if t != nil {
		cmd.SpliceTime.PTSTime = t
	}
	return vzLengthErr(&r)
}

//@ spec (*TimeSignal).length
//@ all C08
func specTimeSignalLength(cmd *TimeSignal) int {
	if cmd.SpliceTime.PTSTime != nil {
		return 5
	}
	return 1
}

//@ spec (*TimeSignal).encode
//@ all C05
//@ assert C08
func specTimeSignalEncode(cmd *TimeSignal) ([]byte, error) {
	w := vzNewWr()
	vzWriteSpliceTime(&w, cmd.SpliceTime.PTSTime)
	vassert(w.at() == specTimeSignalLength(cmd)*8, "splice_command_length")
	return w.done(), nil
}

// ---- splice_null, bandwidth_reservation ----

//@ spec (*SpliceNull).decode
//@ fresh
//@ all C03
//@ opaque
//@ modifies cmd
func specSpliceNullDecode(cmd *SpliceNull, b []byte) error {
	r := vzNewRd(b)
	return vzLengthErr(&r)
}

//@ spec (*SpliceNull).length
//@ all C08
//@ nilrecv
func specSpliceNullLength(cmd *SpliceNull) int { return 0 }

//@ spec (*SpliceNull).encode
//@ all C05
func specSpliceNullEncode(cmd *SpliceNull) ([]byte, error) { return nil, nil }

//@ spec (*BandwidthReservation).decode
//@ fresh
//@ all C03
//@ opaque
//@ modifies cmd
func specBandwidthReservationDecode(cmd *BandwidthReservation, b []byte) error {
	r := vzNewRd(b)
	return vzLengthErr(&r)
}

//@ spec (*BandwidthReservation).length
//@ all C08
func specBandwidthReservationLength(cmd *BandwidthReservation) int { return 0 }

//@ spec (*BandwidthReservation).encode
//@ all C05
func specBandwidthReservationEncode(cmd *BandwidthReservation) ([]byte, error) { return nil, nil }

// ---- private_command ----

//@ spec (*PrivateCommand).decode
//@ fresh
//@ all C03 C14
//@ opaque
//@ modifies cmd
func specPrivateCommandDecode(cmd *PrivateCommand, b []byte) error {
	r := vzNewRd(b)
	cmd.Identifier = r.u32(32)
	cmd.PrivateBytes = r.take(len(r.rest()))
	return vzLengthErr(&r)
}

//@ spec (*PrivateCommand).length
//@ all C08
func specPrivateCommandLength(cmd *PrivateCommand) int { return 4 + len(cmd.PrivateBytes) }

//@ spec (*PrivateCommand).encode
//@ all C05 C14
//@ assert C08
func specPrivateCommandEncode(cmd *PrivateCommand) ([]byte, error) {
	w := vzNewWr()
	w.put(32, uint64(cmd.Identifier))
	w.bytes(cmd.PrivateBytes)
	vassert(w.at() == specPrivateCommandLength(cmd)*8, "splice_command_length")
	return w.done(), nil
}

// ---- splice_insert ----

//@ spec (*SpliceInsert).decode
//@ fresh
//@ all C03
//@ opaque
//@ modifies cmd
func specSpliceInsertDecode(cmd *SpliceInsert, b []byte) error {
	r := vzNewRd(b)
	cmd.SpliceEventID = r.u32(32)
	cmd.SpliceEventCancelIndicator = r.flag()
	r.skip(7)
	if !cmd.SpliceEventCancelIndicator {
		cmd.OutOfNetworkIndicator = r.flag()
		program := r.flag()
		duration := r.flag()
		cmd.SpliceImmediateFlag = r.flag()
		r.skip(4)
		if program {
			cmd.Program = &SpliceInsertProgram{}
			if !cmd.SpliceImmediateFlag {
				cmd.Program.SpliceTime.PTSTime = vzReadSpliceTime(&r)
			}
		} else {
			n := int(r.u32(8))
			cmd.Components = make([]SpliceInsertComponent, n)
			for i := 0; i < n; i++ {
				cmd.Components[i] = specSpliceInsertComponent(&r, cmd.SpliceImmediateFlag)
			}
		}
		if duration {
			cmd.BreakDuration = vzReadBreakDuration(&r)
		}
		cmd.UniqueProgramID = r.u32(16)
		cmd.AvailNum = r.u32(8)
		cmd.AvailsExpected = r.u32(8)
	}
	return vzLengthErr(&r)
}

func specSpliceInsertComponent(r *vrd, immediate bool) SpliceInsertComponent {
	c := SpliceInsertComponent{Tag: r.u32(8)}
	if !immediate {
		t := vzReadSpliceTime(r)
		if t != nil {
			c.SpliceTime = &SpliceTime{PTSTime: t}
		}
	}
	return c
}

// vzReadBreakDuration is break_duration().
func vzReadBreakDuration(r *vrd) *BreakDuration {
	d := &BreakDuration{}
	d.AutoReturn = r.flag()
	r.skip(6)
	d.Duration = r.u64(33)
	return d
}

func vzWriteBreakDuration(w *vwr, d *BreakDuration) {
	w.flag(d.AutoReturn)
	w.put(6, 0x3f)
	w.put(33, d.Duration)
}

// splice_time() is one byte, or five with a time.
func vzSpliceTimeLength(t *uint64) int {
	if t != nil {
		return 5
	}
	return 1
}

func vzComponentTime(c *SpliceInsertComponent) *uint64 {
	if c.SpliceTime == nil {
		return nil
	}
	return c.SpliceTime.PTSTime
}

//@ spec (SpliceInsert).length
//@ all C08
func specSpliceInsertLength(cmd SpliceInsert) int {
	n := 5
	if cmd.SpliceEventCancelIndicator {
		return n
	}
	n++
	if cmd.Program != nil {
		if !cmd.SpliceImmediateFlag {
			n += vzSpliceTimeLength(cmd.Program.SpliceTime.PTSTime)
		}
	} else {
		n++
		for i := 0; i < len(cmd.Components); i++ {
			n++
			if !cmd.SpliceImmediateFlag {
				n += vzSpliceTimeLength(vzComponentTime(&cmd.Components[i]))
			}
		}
	}
	if cmd.BreakDuration != nil {
		n += 5
	}
	return n + 4
}

//@ spec (*SpliceInsert).encode
//@ all C05
//@ assert C08
func specSpliceInsertEncode(cmd *SpliceInsert) ([]byte, error) {
	n := specSpliceInsertLength(*cmd)
	w := vzNewWr()
	w.put(32, uint64(cmd.SpliceEventID))
	w.flag(cmd.SpliceEventCancelIndicator)
	w.put(7, 0x7f)
	if !cmd.SpliceEventCancelIndicator {
		w.flag(cmd.OutOfNetworkIndicator)
		w.flag(cmd.Program != nil)
		w.flag(cmd.BreakDuration != nil)
		w.flag(cmd.SpliceImmediateFlag)
		w.put(4, 0xf)
		if cmd.Program != nil {
			if !cmd.SpliceImmediateFlag {
				vzWriteSpliceTime(&w, cmd.Program.SpliceTime.PTSTime)
			}
		} else {
			w.put(8, uint64(len(cmd.Components)))
			for i := 0; i < len(cmd.Components); i++ {
				w.put(8, uint64(cmd.Components[i].Tag))
				if !cmd.SpliceImmediateFlag {
					vzWriteSpliceTime(&w, vzComponentTime(&cmd.Components[i]))
				}
			}
		}
		if cmd.BreakDuration != nil {
			vzWriteBreakDuration(&w, cmd.BreakDuration)
		}
		w.put(16, uint64(cmd.UniqueProgramID))
		w.put(8, uint64(cmd.AvailNum))
		w.put(8, uint64(cmd.AvailsExpected))
	}
	vassert(w.at() == n*8, "splice_command_length")
	return w.done(), nil
}

// ---- splice_schedule ----

//@ spec (*SpliceSchedule).decode
//@ fresh
//@ all C03
//@ opaque
//@ modifies cmd
func specSpliceScheduleDecode(cmd *SpliceSchedule, b []byte) error {
	r := vzNewRd(b)
	n := int(r.u32(8))
	cmd.Events = make([]Event, n)
	for i := 0; i < n; i++ {
		cmd.Events[i] = specEventRead(&r)
	}
	return vzLengthErr(&r)
}

func specEventRead(r *vrd) Event {
	e := Event{}
	e.SpliceEventID = r.u32(32)
	e.SpliceEventCancelIndicator = r.flag()
	e.EventIDComplianceFlag = !r.flag()
	r.skip(6)
	if e.SpliceEventCancelIndicator {
		return e
	}
	e.OutOfNetworkIndicator = r.flag()
	program := r.flag()
	duration := r.flag()
	r.skip(5)
	if program {
		e.Program = &EventProgram{UTCSpliceTime: NewUTCSpliceTime(r.u32(32))}
	} else {
		n := int(r.u32(8))
		e.Components = make([]EventComponent, n)
		for j := 0; j < n; j++ {
			c := EventComponent{Tag: r.u32(8)}
			c.UTCSpliceTime = NewUTCSpliceTime(r.u32(32))
			e.Components[j] = c
		}
	}
	if duration {
		e.BreakDuration = vzReadBreakDuration(r)
	}
	e.UniqueProgramID = r.u32(16)
	e.AvailNum = r.u32(8)
	e.AvailsExpected = r.u32(8)
	return e
}

//@ spec (SpliceSchedule).length
//@ all C08
func specSpliceScheduleLength(cmd SpliceSchedule) int {
	n := 1
	for i := 0; i < len(cmd.Events); i++ {
		n += specEventLength(&cmd.Events[i])
	}
	return n
}

func specEventLength(e *Event) int {
	n := 5
	if e.SpliceEventCancelIndicator {
		return n
	}
	n++
	if e.Program != nil {
		n += 4
	} else {
		n += 1 + 5*len(e.Components)
	}
	if e.BreakDuration != nil {
		n += 5
	}
	return n + 4
}

//@ spec (*SpliceSchedule).encode
//@ all C05
//@ assert C08
func specSpliceScheduleEncode(cmd *SpliceSchedule) ([]byte, error) {
	n := specSpliceScheduleLength(*cmd)
	w := vzNewWr()
	w.put(8, uint64(len(cmd.Events)))
	for i := 0; i < len(cmd.Events); i++ {
		specEventWrite(&w, &cmd.Events[i])
	}
	vassert(w.at() == n*8, "splice_command_length")
	return w.done(), nil
}

func specEventWrite(w *vwr, e *Event) {
	w.put(32, uint64(e.SpliceEventID))
	w.flag(e.SpliceEventCancelIndicator)
	w.flag(!e.EventIDComplianceFlag)
	w.put(6, 0x3f)
	if e.SpliceEventCancelIndicator {
		return
	}
	w.flag(e.OutOfNetworkIndicator)
	w.flag(e.Program != nil)
	w.flag(e.BreakDuration != nil)
	w.put(5, 0x1f)
	if e.Program != nil {
		w.put(32, uint64(e.Program.UTCSpliceTime.GPSSeconds()))
	} else {
		w.put(8, uint64(len(e.Components)))
		for j := 0; j < len(e.Components); j++ {
			w.put(8, uint64(e.Components[j].Tag))
			w.put(32, uint64(e.Components[j].UTCSpliceTime.GPSSeconds()))
		}
	}
	if e.BreakDuration != nil {
		vzWriteBreakDuration(w, e.BreakDuration)
	}
	w.put(16, uint64(e.UniqueProgramID))
	w.put(8, uint64(e.AvailNum))
	w.put(8, uint64(e.AvailsExpected))
}
