package scte35

import (
	"encoding/xml"
	"reflect"
	"time"
	"unicode"
	"unicode/utf8"
)

// Executable vocabulary of the specifications. govc understands these helpers
// natively; the Go bodies below are what the replay harness runs.

type vAssertFailed string
type vAssumeFailed struct{}

// vassert states a fact the specification promises.
func vassert(ok bool, label string) {
	if !ok {
		panic(vAssertFailed(label))
	}
}

// vsame states that two values, and what they point to, are the same.
func vsame(a, b any, label string) { vassert(reflect.DeepEqual(a, b), label) }

// vsignal states that two values are the same signal: element names and type
// tags, which (un)marshalling sets, and the nilness of lists do not count.
func vsignal(a, b any, label string) { vassert(vzSignal(reflect.ValueOf(a), reflect.ValueOf(b)), label) }

func vzSignal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return vzSignal(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vzSignal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			return t.Unix() == b.Interface().(time.Time).Unix()
		}
		for i := 0; i < a.NumField(); i++ {
			if n := a.Type().Field(i).Name; n != "XMLName" && n != "JSONType" && a.Type().Field(i).IsExported() && !vzSignal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// vtext: every text in v is one that JSON and XML can carry, and every time one
// that has a text form. Documents are specified on such values only.
func vtext(v any) bool { return vzText(reflect.ValueOf(v)) }

func vzText(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return v.IsNil() || vzText(v.Elem())
	case reflect.String:
		for _, r := range v.String() {
			if r == utf8.RuneError || r < ' ' || r > 0xFFFD || unicode.Is(unicode.Cs, r) {
				return false
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if !vzText(v.Index(i)) {
				return false
			}
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return t.Year() > 0 && t.Year() < 9999
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && !vzText(v.Field(i)) {
				return false
			}
		}
	}
	return true
}

// vassume restricts the inputs the specification speaks about.
func vassume(ok bool) {
	if !ok {
		panic(vAssumeFailed{})
	}
}

// vrd reads big-endian bit fields; bits beyond the end read as zero.
type vrd struct {
	b   []byte
	pos int
}

func vzNewRd(b []byte) vrd { return vrd{b: b} }

func (r *vrd) u64(n int) uint64 {
	v := uint64(0)
	for i := 0; i < n; i++ {
		v <<= 1
		p := r.pos + i
		if p < len(r.b)*8 && r.b[p/8]&(0x80>>(p%8)) != 0 {
			v |= 1
		}
	}
	r.pos += n
	return v
}
func (r *vrd) u32(n int) uint32 { return uint32(r.u64(n)) }
func (r *vrd) flag() bool       { return r.u64(1) == 1 }
func (r *vrd) skip(n int)       { r.pos += n }
func (r *vrd) at() int          { return r.pos }

// left is the number of bits left; negative when the syntax needed more.
func (r *vrd) left() int { return len(r.b)*8 - r.pos }

// rest is what is left from the current byte on.
func (r *vrd) rest() []byte {
	i := r.at() / 8
	if i > len(r.b) {
		i = len(r.b)
	}
	return r.b[i:]
}

// take is the next n bytes, or what there is of them.
func (r *vrd) take(n int) []byte {
	s := r.rest()
	if n < len(s) {
		s = s[:n]
	}
	r.skip(n * 8)
	return s
}

// vwr writes big-endian bit fields.
type vwr struct {
	b   []byte
	pos int
}

func vzNewWr() vwr { return vwr{} }

func (w *vwr) put(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.pos/8 >= len(w.b) {
			w.b = append(w.b, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.b[w.pos/8] |= 0x80 >> (w.pos % 8)
		}
		w.pos++
	}
}
func (w *vwr) flag(v bool) {
	if v {
		w.put(1, 1)
	} else {
		w.put(1, 0)
	}
}
func (w *vwr) bytes(b []byte) {
	for _, c := range b {
		w.put(8, uint64(c))
	}
}
func (w *vwr) str(s string) { w.bytes([]byte(s)) }
func (w *vwr) at() int      { return w.pos }
func (w *vwr) done() []byte {
	if w.pos%8 != 0 {
		panic(vAssertFailed("aligned"))
	}
	return w.b
}

// vzLengthErr is the error a payload deserves for its length alone.
func vzLengthErr(r *vrd) error {
	if r.left() > 0 {
		return ErrBufferUnderflow
	}
	if r.left() < 0 {
		return ErrBufferOverflow
	}
	return nil
}

// vrewind puts a decoder back to where it was. (The replay harness has none.)
func vrewind(d *xml.Decoder) {}
