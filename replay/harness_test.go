package scte35

// Concrete oracle: runs the contracts' specification functions against the
// real functions on generated inputs and reports the first disagreement of
// each. govc writes the registry vcases next to this file on every run.

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"
)

type vcase struct {
	name string
	real any // nil: a lemma
	spec any
	req  []any
	ens  []any
	opts string
}

type vdict struct {
	Ints []string
	Strs []string
}

var vints []uint64
var vstrs []string

type vgen struct {
	r     *rand.Rand
	depth int
	wild  bool // values wider than the wire too
}

func (g *vgen) pick(n int) int { return g.r.Intn(n) }

func (g *vgen) bits(w int) uint64 {
	m := ^uint64(0)
	if w < 64 {
		m = 1<<uint(w) - 1
	}
	switch g.pick(9) {
	case 0:
		return uint64(g.pick(3)) & m
	case 1:
		return m
	case 2:
		return m >> 1
	case 3:
		return (uint64(1) << uint(g.pick(w))) & m
	case 4:
		return (uint64(1)<<uint(g.pick(w)) - 1) & m
	case 5:
		if len(vints) > 0 {
			return (vints[g.pick(len(vints))] + uint64(g.pick(3)) - 1) & m
		}
	case 6:
		return uint64(g.pick(256)) & m
	case 7:
		if len(vints) > 0 {
			return vints[g.pick(len(vints))] & m
		}
	}
	return g.r.Uint64() & m >> uint(g.pick(w))
}

func (g *vgen) raw(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	switch g.pick(4) {
	case 0:
		for i := range b {
			if g.pick(2) == 0 {
				b[i] = byte(g.pick(4))
			}
		}
	case 1:
		for i := range b {
			b[i] = byte(32 + g.pick(95))
		}
	}
	return b
}

func (g *vgen) text(n int) string {
	var sb strings.Builder
	mode := g.pick(5)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			sb.WriteRune(rune(g.pick(256)))
		case 1:
			sb.WriteByte(byte('0' + g.pick(10)))
		case 2:
			sb.WriteByte("0123456789ABCDEF"[g.pick(16)])
		default:
			sb.WriteByte(byte(33 + g.pick(94)))
		}
	}
	return sb.String()
}
func (g *vgen) str() string {
	if len(vstrs) > 0 && g.pick(6) == 0 {
		return vstrs[g.pick(len(vstrs))]
	}
	switch g.pick(16) {
	case 0:
		return g.eidr()
	case 1:
		return base64.StdEncoding.EncodeToString(g.raw(g.pick(12)))
	case 2:
		return strconv.FormatUint(g.bits(64), 10)
	}
	return g.text(g.pick(12))
}

// eidr makes an identifier text, or something near one.
func (g *vgen) eidr() string {
	b := g.raw(10)
	if g.pick(3) == 0 {
		b[g.pick(10)] = 0
		b[g.pick(10)] = 0x2f
	}
	n := g.bits(16)
	if g.pick(2) == 0 {
		n = uint64(5236 + g.pick(6))
	}
	s := fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", n, b[0:2], b[2:4], b[4:6], b[6:8], b[8:10])
	switch g.pick(10) {
	case 0:
		s = strings.ToLower(s)
	case 1:
		s += "-" + string("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.pick(36)])
	case 2:
		s = strings.ReplaceAll(s, "-", "")
	case 3:
		s = string(g.mutate([]byte(s)))
	}
	return s
}

// vcrc is CRC-32/MPEG-2.
func vcrc(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&(1<<31) != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return c
}

// section reworks an encoded splice_info_section: what another encoder may
// have sent. The check sum is made to fit again.
func (g *vgen) section(b []byte) []byte {
	if len(b) < 18 {
		return b
	}
	b = append([]byte{}, b...)
	cl := int(b[11]&0xf)<<8 | int(b[12])
	body := func(f func([]byte) []byte) { // what lies between header and check sum
		b = append(append([]byte{}, f(append([]byte{}, b[:len(b)-4]...))...), b[len(b)-4:]...)
	}
	for k := g.pick(3); k >= 0; k-- {
		switch g.pick(9) {
		case 0, 1: // length not given
			b[11] |= 0xf
			b[12] = 0xff
		case 2: // alignment stuffing
			body(func(x []byte) []byte { return append(x, g.raw(1+g.pick(12))...) })
		case 3: // encrypted
			b[4] |= 0x80
			if g.pick(2) == 0 {
				body(func(x []byte) []byte { return append(x, g.raw(4)...) })
			}
		case 4: // damaged inside
			i := 13
			if cl > 0 && cl < 0xfff && g.pick(2) == 0 {
				i += g.pick(cl)
			} else {
				i = g.pick(len(b) - 4)
			}
			if i < len(b)-4 {
				b[i] = byte(g.bits(8))
			}
		case 5: // a longer command than its fields need
			if cl < 0xfff && 13+cl < len(b)-4 {
				x := g.raw(1 + g.pick(6))
				body(func(y []byte) []byte { return append(append(append([]byte{}, y[:13+cl]...), x...), y[13+cl:]...) })
				cl += len(x)
				b[11] = b[11]&0xf0 | byte(cl>>8)
				b[12] = byte(cl)
			}
		case 6: // bytes missing at the end
			n := g.pick(5)
			body(func(x []byte) []byte { return x[:max(13, len(x)-n)] })
		case 7: // reserved bits
			b[1] |= 0x30
			b[4] ^= 0
		}
	}
	if g.pick(10) > 0 {
		n := len(b) - 3
		b[1] = b[1]&0xf0 | byte(n>>8)&0xf
		b[2] = byte(n)
	}
	if g.pick(10) > 0 {
		c := vcrc(b[:len(b)-4])
		b[len(b)-4], b[len(b)-3], b[len(b)-2], b[len(b)-1] = byte(c>>24), byte(c>>16), byte(c>>8), byte(c)
	}
	return b
}

// mutate damages an encoding in the ways receivers see.
func (g *vgen) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	switch g.pick(8) {
	case 0, 1, 2:
		return b
	case 3:
		return b[:g.pick(len(b)+1)]
	case 4:
		return append(b, g.raw(1+g.pick(4))...)
	case 5:
		for i := g.pick(4); i >= 0 && len(b) > 0; i-- {
			b[g.pick(len(b))] ^= 1 << uint(g.pick(8))
		}
	case 6:
		if len(b) > 0 {
			b[g.pick(len(b))] = byte(g.bits(8))
		}
	case 7:
		if len(b) > 1 {
			i := g.pick(len(b))
			b = append(b[:i:i], b[i+1:]...)
		}
	}
	return b
}

var vtypes = map[string]reflect.Type{}

func (g *vgen) commands() []any {
	return []any{&SpliceNull{}, &SpliceSchedule{}, &SpliceInsert{}, &TimeSignal{}, &BandwidthReservation{}, &PrivateCommand{}}
}
func (g *vgen) descriptors() []any {
	return []any{&AvailDescriptor{}, &DTMFDescriptor{}, &SegmentationDescriptor{}, &TimeDescriptor{}, &AudioDescriptor{}, &PrivateDescriptor{}}
}

func vset(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// bits of a field by name: mostly values the wire can carry
var vwidth = map[string]int{
	"PTSTime": 33, "Duration": 33, "PTSOffset": 33, "SegmentationDuration": 40, "UniqueProgramID": 16, "AvailNum": 8, "AvailsExpected": 8,
	"Tag": 8, "NumChannels": 4, "BitStreamMode": 3, "ComponentTag": 8, "TAISeconds": 48, "UTCOffset": 16, "Preroll": 8, "PrivateTag": 8,
	"DeviceRestrictions": 2, "SegmentationTypeID": 8, "SegmentNum": 8, "SegmentsExpected": 8, "SubSegmentNum": 8, "SubSegmentsExpected": 8,
	"PTSAdjustment": 33, "CWIndex": 8, "ProtocolVersion": 8, "EncryptionAlgorithm": 6, "Tier": 12, "SAPType": 2, "Type": 8,
}

func (g *vgen) fill(v reflect.Value, name string) {
	v = vset(v)
	g.depth++
	defer func() { g.depth-- }()
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.pick(2) == 0)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w := v.Type().Bits()
		if n, ok := vwidth[name]; ok && n < w && (!g.wild || g.pick(3) > 0) {
			w = n
		}
		v.SetUint(g.bits(w))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.pick(2) == 0 {
			v.SetInt(int64(g.bits(v.Type().Bits())))
		} else {
			v.SetInt(int64(g.bits(8)))
		}
	case reflect.String:
		n := 0
		switch name {
		case "ISOCode":
			v.SetString(g.text(3))
			return
		case "DTMFChars":
			n = g.pick(8)
			v.SetString("0123456789*#"[:n])
			return
		}
		v.SetString(g.str())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n := g.pick(20)
			if g.pick(10) == 0 {
				n = g.pick(300)
			}
			v.SetBytes(g.raw(n))
			return
		}
		n := []int{0, 0, 1, 1, 1, 2, 2, 3, 5}[g.pick(9)]
		if g.pick(24) == 0 {
			n = g.pick(40)
		}
		if g.depth > 6 {
			n = 0
		}
		if n == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), name)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), name)
		}
	case reflect.Pointer:
		if v.Type() == reflect.TypeOf((*strings.Builder)(nil)) {
			b := &strings.Builder{}
			b.WriteString(g.str())
			v.Set(reflect.ValueOf(b))
			return
		}
		if g.pick(5) < 2 || g.depth > 8 {
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), name)
		v.Set(p)
	case reflect.Struct:
		t := v.Type()
		if t == reflect.TypeOf(SegmentationUPID{}) {
			if g.pick(8) > 0 {
				v.Set(reflect.ValueOf(g.upid()))
				return
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i).Name
			if f == "XMLName" || f == "JSONType" {
				continue
			}
			g.fill(v.Field(i), f)
		}
	case reflect.Interface:
		var cs []any
		for _, c := range append(g.commands(), g.descriptors()...) {
			if reflect.TypeOf(c).Implements(v.Type()) {
				cs = append(cs, c)
			}
		}
		if len(cs) == 0 {
			return
		}
		c := cs[g.pick(len(cs))]
		if _, ok := c.(SpliceDescriptor); ok && g.pick(2) == 0 {
			c = &SegmentationDescriptor{}
		}
		g.fill(reflect.ValueOf(c).Elem(), "")
		v.Set(reflect.ValueOf(c))
	}
}

// upid makes an identifier whose value fits its type, as a decoder would.
func (g *vgen) upid() (u SegmentationUPID) {
	t := []uint32{0x01, 0x02, 0x03, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0e, 0x0f, 0x10, uint32(g.bits(8))}[g.pick(15)]
	u = SegmentationUPID{Type: t, Format: "text"}
	switch t {
	case 0x05, 0x06:
		u.Format = "base-64"
		u.Value = base64.StdEncoding.EncodeToString(g.raw(g.pick(33)))
	case 0x08:
		u.Value = strconv.FormatUint(g.bits(64), 10)
	case 0x0a:
		for u.Value == "" || len(u.Value) > 33 || strings.Count(u.Value, "-") != 4 {
			u.Value = g.eidr()
			if g.pick(6) == 0 {
				break
			}
		}
	case 0x0c:
		u.Format = "base-64"
		f := uint32(g.bits(32))
		u.FormatIdentifier = &f
		u.Value = base64.StdEncoding.EncodeToString(g.raw(g.pick(20)))
	default:
		u.Value = g.text(g.pick(16))
	}
	return u
}

// ---- structural copy, equality, dump ----

// vbuilder: text under construction counts as its text.
func vbuilder(v reflect.Value) (*strings.Builder, bool) {
	if v.Type() != reflect.TypeOf((*strings.Builder)(nil)) || v.IsNil() {
		return nil, false
	}
	return (*strings.Builder)(v.UnsafePointer()), true
}

func vcopy(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if b, ok := vbuilder(v); ok {
		n := &strings.Builder{}
		n.WriteString(b.String())
		out.Set(reflect.ValueOf(n))
		return out
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(vcopy(v.Elem()))
		out.Set(p)
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(vcopy(v.Elem()))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(vcopy(v.Index(i)))
		}
		out.Set(s)
	case reflect.Struct:
		tmp := reflect.New(v.Type()).Elem()
		tmp.Set(v)
		for i := 0; i < v.NumField(); i++ {
			f := vset(tmp.Field(i))
			f.Set(vcopy(f))
		}
		out.Set(tmp)
	default:
		out.Set(v)
	}
	return out
}

func vdiff(a, b reflect.Value, path string) string {
	if a.Kind() != b.Kind() {
		return path + ": different kinds"
	}
	if x, ok := vbuilder(a); ok {
		if y, ok := vbuilder(b); ok {
			if x.String() != y.String() {
				return fmt.Sprintf("%s: specified %q, got %q", path, x.String(), y.String())
			}
			return ""
		}
	}
	switch a.Kind() {
	case reflect.Func:
		return ""
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: specified %s, got %s", path, vdump(a), vdump(b))
			}
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			return fmt.Sprintf("%s: specified a %s, got a %s", path, a.Elem().Type(), b.Elem().Type())
		}
		return vdiff(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: specified %s, got %s", path, vdump(a), vdump(b))
		}
		for i := 0; i < a.Len(); i++ {
			if d := vdiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			n := a.Type().Field(i).Name
			if n == "JSONType" {
				continue
			}
			if d := vdiff(a.Field(i), b.Field(i), path+"."+n); d != "" {
				return d
			}
		}
	case reflect.Map:
		if !reflect.DeepEqual(a, b) {
			return path + ": maps differ"
		}
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s: specified %s, got %s", path, vdump(a), vdump(b))
		}
	}
	return ""
}

func vdump(v reflect.Value) string {
	if b, ok := vbuilder(v); ok {
		return strconv.Quote(b.String())
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + vdump(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return vdump(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("hex(%x)", v.Bytes())
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, vdump(v.Index(i)))
		}
		return v.Type().String() + "{" + strings.Join(s, ", ") + "}"
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			s = append(s, v.Type().Field(i).Name+": "+vdump(v.Field(i)))
		}
		return v.Type().String() + "{" + strings.Join(s, ", ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	}
	return v.Type().String()
}

func verr(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, ErrBufferUnderflow):
		return "ErrBufferUnderflow"
	case errors.Is(err, ErrBufferOverflow):
		return "ErrBufferOverflow"
	case errors.Is(err, ErrCRC32Invalid):
		return "ErrCRC32Invalid"
	case errors.Is(err, ErrUnsupportedEncoding):
		return "ErrUnsupportedEncoding"
	}
	return "another error"
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

type voutcome struct {
	ret   []reflect.Value
	panic any
}

func vcall(f any, args []reflect.Value) (o voutcome) {
	defer func() { o.panic = recover() }()
	o.ret = reflect.ValueOf(f).Call(args)
	return
}

// vtry runs one case on one input: "" agreement, "skip" outside the
// specification's domain, otherwise what is wrong.
func vtry(c *vcase, args []reflect.Value) string {
	if strings.Contains(c.opts, " fresh ") && !args[0].IsNil() {
		args[0].Elem().SetZero()
	}
	cp := func() []reflect.Value {
		out := make([]reflect.Value, len(args))
		for i, a := range args {
			out[i] = vcopy(a)
		}
		return out
	}
	for _, rq := range c.req {
		o := vcall(rq, cp())
		if o.panic != nil || !o.ret[0].Bool() {
			return "skip"
		}
	}
	if c.real == nil {
		// a lemma is about values that are there
		for _, a := range args {
			if a.Kind() == reflect.Pointer && a.IsNil() {
				return "skip"
			}
		}
	}
	sa := cp()
	s := vcall(c.spec, sa)
	skip := false
	if s.panic != nil {
		if _, ok := s.panic.(vAssumeFailed); ok {
			if c.real == nil || !strings.Contains(c.opts, " total ") {
				return "skip"
			}
			skip = true
		} else if l, ok := s.panic.(vAssertFailed); ok {
			return "specified: " + string(l) + "; does not hold"
		} else {
			return fmt.Sprintf("the specification panics: %v", s.panic)
		}
	}
	if c.real == nil {
		return ""
	}
	ra := cp()
	r := vcall(c.real, ra)
	if r.panic != nil {
		return fmt.Sprintf("panic: %v", r.panic)
	}
	if skip {
		return "skip"
	}
	bad := false
	for i := range s.ret {
		if s.ret[i].Type() == errType {
			var e1, e2 error
			if !s.ret[i].IsNil() {
				e1 = s.ret[i].Interface().(error)
			}
			if !r.ret[i].IsNil() {
				e2 = r.ret[i].Interface().(error)
			}
			if verr(e1) != verr(e2) {
				return fmt.Sprintf("specified error %s, got %s (%v)", verr(e1), verr(e2), e2)
			}
			if e1 != nil {
				bad = true
			}
		}
	}
	if bad && !strings.Contains(c.opts, " errstate ") {
		return ""
	}
	for i := range s.ret {
		if s.ret[i].Type() == errType {
			continue
		}
		if d := vdiff(s.ret[i], r.ret[i], "result"); d != "" {
			return d
		}
	}
	for i := range sa {
		if d := vdiff(sa[i], ra[i], fmt.Sprintf("argument %d afterwards", i)); d != "" {
			return d
		}
	}
	for _, en := range c.ens {
		o := vcall(en, append(append([]reflect.Value{}, ra...), r.ret...))
		if o.panic != nil || !o.ret[0].Bool() {
			return "a postcondition does not hold"
		}
	}
	return ""
}

func (g *vgen) args(c *vcase) []reflect.Value {
	t := reflect.TypeOf(c.spec)
	var out []reflect.Value
	g.wild = g.pick(6) == 0
	for i := 0; i < t.NumIn(); i++ {
		v := reflect.New(t.In(i)).Elem()
		if i == 0 && t.In(i).Kind() == reflect.Pointer {
			p := reflect.New(t.In(i).Elem())
			if !(strings.HasSuffix(c.name, ".decode") || strings.HasSuffix(c.name, ".Decode")) || g.pick(10) == 0 {
				g.fill(p.Elem(), "")
			}
			v.Set(p)
		} else if t.In(i).Kind() == reflect.Slice && t.In(i).Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.wire(c))
		} else if t.In(i).Kind() == reflect.String && strings.Contains(c.name, "Decode") && g.pick(8) > 0 {
			b := g.wire(vnamed("(*SpliceInfoSection).Decode", c))
			x := fmt.Sprintf([]string{"%x", "%X"}[g.pick(2)], b)
			x = []string{"", "", "0x", "0X"}[g.pick(4)] + x
			if strings.Contains(c.name, "64") != (g.pick(8) == 0) {
				x = base64.StdEncoding.EncodeToString(b)
			}
			v.SetString(string(g.mutate([]byte(x))))
		} else if t.In(i).Kind() == reflect.String && strings.Contains(strings.ToLower(c.name), "eidr") && g.pick(8) > 0 {
			v.SetString(g.eidr())
		} else {
			g.fill(v, "")
		}
		out = append(out, v)
	}
	return out
}

// wire makes bytes for a decoder: an encoding, possibly damaged, or noise.
func (g *vgen) wire(c *vcase) []byte {
	if enc := vencoder(c.name); enc != nil && g.pick(4) > 0 {
		for i := 0; i < 5; i++ {
			in := g.args(enc)
			o := vcall(enc.spec, in)
			if o.panic == nil && o.ret[1].IsNil() {
				if strings.HasPrefix(c.name, "(*SpliceInfoSection)") && g.pick(2) == 0 {
					return g.section(o.ret[0].Bytes())
				}
				return g.mutate(o.ret[0].Bytes())
			}
		}
	}
	n := g.pick(40)
	if g.pick(4) == 0 {
		n = []int{0, 1, 4, 8, 10, 12, 20}[g.pick(7)]
	}
	return g.raw(n)
}
func vnamed(name string, c *vcase) *vcase {
	for j := range vcases {
		if vcases[j].name == name {
			return &vcases[j]
		}
	}
	return c
}
func vencoder(name string) *vcase {
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.EqualFold(name[i:], ".decode") {
		return nil
	}
	for j := range vcases {
		if vcases[j].name == name[:i]+".encode" || vcases[j].name == name[:i]+".Encode" {
			return &vcases[j]
		}
	}
	return nil
}

type vreport struct {
	Case, What string
	Seed       int64
	Args       []string
}

func TestVerifReplay(t *testing.T) {
	Logger.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	var d vdict
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		_ = json.Unmarshal(b, &d)
	}
	for _, s := range d.Ints {
		if n, ok := new(big.Int).SetString(s, 10); ok {
			vints = append(vints, new(big.Int).And(n, new(big.Int).SetUint64(^uint64(0))).Uint64())
		}
	}
	vstrs = d.Strs
	want := map[string]bool{}
	var order []string
	for _, n := range strings.Split(os.Getenv("VERIF_CASES"), "\n") {
		if n != "" {
			want[n] = true
			order = append(order, n)
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	only, _ := strconv.ParseInt(os.Getenv("VERIF_REPLAY_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget == 0 {
		budget = 5
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	emit := func(k string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", k, b)
	}
	var cs []*vcase
	for _, n := range order {
		for i := range vcases {
			if vcases[i].name == n {
				cs = append(cs, &vcases[i])
			}
		}
	}
	per := time.Duration(budget * float64(time.Second) / float64(max(1, len(cs))))
	cur := make(chan vreport, 1)
	_ = cur
	var now vreport
	var started time.Time
	alive := make(chan int, 1)
	mon := time.NewTicker(time.Second)
	defer mon.Stop()
	go func() {
		for range mon.C {
			select {
			case <-alive:
				now.What = "does not return"
				if !started.IsZero() && time.Since(started) > 10*time.Second {
					emit("FAIL", now)
					out.Sync()
					os.Exit(1)
				}
				alive <- 1
			default:
			}
		}
	}()
	for _, c := range cs {
		end := time.Now().Add(per)
		tried, used := 0, 0
		for i := 0; ; i++ {
			if i&31 == 0 && time.Now().After(end) {
				break
			}
			s := seed*1_000_003 + int64(i)
			if only != 0 {
				s = only
			}
			g := &vgen{r: rand.New(rand.NewSource(s))}
			args := g.args(c)
			now = vreport{Case: c.name, Seed: s}
			started = time.Now()
			alive <- 1
			w := vtry(c, args)
			<-alive
			tried++
			if w == "skip" {
				if only != 0 {
					break
				}
				continue
			}
			used++
			if w != "" {
				now.What = w
				for _, a := range args {
					now.Args = append(now.Args, vdump(a))
				}
				emit("FAIL", now)
				break
			}
			if only != 0 {
				break
			}
		}
		emit("CASE", map[string]any{"case": c.name, "tried": tried, "compared": used})
	}
}
