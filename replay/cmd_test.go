package cmd

// Concrete oracle of the command line tool: runs the lemmas of the contracts on
// generated signals and documents against the real commands.

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

type vreport struct {
	Case, What string
	Seed       int64
	Args       []string
}

type vgen struct{ r *rand.Rand }

func (g *vgen) n(k int) int { return g.r.Intn(k) }

var vstrs []string

func (g *vgen) text() string {
	switch g.n(6) {
	case 0:
		return "AB%dCD%sEF"
	case 1:
		return "a<b>&\"c'"
	case 2:
		if len(vstrs) > 0 {
			return vstrs[g.n(len(vstrs))]
		}
	}
	b := make([]byte, g.n(12))
	for i := range b {
		b[i] = byte(' ' + g.n(95))
	}
	return string(b)
}
func (g *vgen) raw(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

// section is some signal.
func (g *vgen) section() *scte35.SpliceInfoSection {
	s := &scte35.SpliceInfoSection{SAPType: uint32(g.n(4)), Tier: uint32(g.n(4096)), PTSAdjustment: uint64(g.r.Int63n(1 << 33))}
	pts := uint64(g.r.Int63n(1 << 33))
	switch g.n(6) {
	case 0:
		s.SpliceCommand = &scte35.SpliceNull{}
	case 1:
		s.SpliceCommand = scte35.NewTimeSignal(pts)
	case 2:
		s.SpliceCommand = &scte35.BandwidthReservation{}
	case 3:
		s.SpliceCommand = &scte35.SpliceInsert{SpliceEventID: g.r.Uint32(), Program: scte35.NewSpliceInsertProgram(pts), OutOfNetworkIndicator: true,
			BreakDuration: &scte35.BreakDuration{AutoReturn: g.n(2) == 0, Duration: uint64(g.r.Int63n(1 << 33))}}
	case 4:
		s.SpliceCommand = &scte35.PrivateCommand{Identifier: g.r.Uint32(), PrivateBytes: g.raw(g.n(40))}
	case 5:
		s.SpliceCommand = &scte35.TimeSignal{}
	}
	for i := g.n(3); i > 0; i-- {
		switch g.n(3) {
		case 0:
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.AvailDescriptor{ProviderAvailID: g.r.Uint32()})
		case 1:
			d := &scte35.SegmentationDescriptor{SegmentationEventID: g.r.Uint32(), SegmentationTypeID: uint32(0x30 + g.n(8)), SegmentNum: 1, SegmentsExpected: 1}
			d.SegmentationUPIDs = append(d.SegmentationUPIDs, scte35.NewSegmentationUPID(scte35.SegmentationUPIDTypeURI, []byte(g.text())))
			s.SpliceDescriptors = append(s.SpliceDescriptors, d)
		case 2:
			n := g.n(20)
			if g.n(30) == 0 {
				n = 240
			}
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: 200, Identifier: g.r.Uint32(), PrivateBytes: g.raw(n)})
		}
	}
	return s
}

func (g *vgen) signal() string {
	b, err := g.section().Encode()
	if err != nil || g.n(10) == 0 {
		b = g.raw(g.n(40))
	}
	if g.n(8) == 0 && len(b) > 0 {
		b[g.n(len(b))] ^= byte(1 << g.n(8))
	}
	if g.n(12) == 0 && len(b) > 0 {
		b = b[:g.n(len(b))]
	}
	s := base64.StdEncoding.EncodeToString(b)
	switch g.n(12) {
	case 0, 1, 2, 3:
		s = "0x" + hex.EncodeToString(b)
	case 4:
		s = "0x" + strings.ToUpper(hex.EncodeToString(b))
	case 5:
		s = "0X" + hex.EncodeToString(b)
	case 6:
		s = hex.EncodeToString(b)
	case 7:
		s = base64.URLEncoding.EncodeToString(b)
	case 8:
		s = base64.RawStdEncoding.EncodeToString(b)
	}
	return g.bend(s)
}

// bend changes a text a little, now and then.
func (g *vgen) bend(s string) string {
	switch g.n(24) {
	case 0:
		return " " + s
	case 1:
		return s + "\n"
	case 2:
		return s + " "
	case 3:
		return "\n\t" + s
	case 4:
		return s + g.text()
	case 5:
		return g.text() + s
	case 6:
		return ""
	case 7:
		return g.text()
	case 8:
		return "-" + s
	case 9:
		if len(s) > 0 {
			i := g.n(len(s))
			return s[:i] + "\n" + s[i:]
		}
	case 10:
		if len(s) > 0 {
			i := g.n(len(s))
			return s[:i] + s[i+1:]
		}
	case 11:
		return "\ufeff" + s
	case 12:
		return s + string(g.raw(2))
	case 13:
		return "0x" + s
	case 14:
		return "\u00a0" + s + "\u0085"
	case 15:
		return s + "\r\n"
	case 16:
		return s + "\r"
	}
	return s
}

func (g *vgen) document() string {
	s := g.section()
	if g.n(20) == 0 {
		for i := 0; i < 300; i++ {
			s.SpliceDescriptors = append(s.SpliceDescriptors, &scte35.PrivateDescriptor{PrivateTag: 201, Identifier: 1, PrivateBytes: g.raw(200)})
		}
	}
	var b []byte
	switch g.n(4) {
	case 0:
		b, _ = json.Marshal(s)
	case 1:
		b, _ = json.MarshalIndent(s, "", "\t")
	case 2:
		b, _ = xml.Marshal(s)
	case 3:
		b, _ = xml.MarshalIndent(s, "", "\t")
	}
	d := string(b)
	if g.n(8) == 0 {
		d = strings.ReplaceAll(d, "\n", "\r\n")
	}
	switch g.n(12) {
	case 0:
		d = xml.Header + d
	case 1:
		d = "<!-- a\n\nremark -->\n" + d
	case 2:
		d = d + "\n" + d
	case 3:
		d = []string{"null", "{}", "[]", "{", "<", "<a/>", "{\"spliceCommand\":null}", "\"{\"", " { } ", "<a>", "{}{}", "true"}[g.n(12)]
	case 4:
		d = strings.Replace(d, "1", "x", 1)
	case 5:
		d = strings.Replace(d, "0", "-1", 1)
	}
	return g.bend(d)
}

func (g *vgen) args(name string, f any) []reflect.Value {
	t := reflect.TypeOf(f)
	var vs []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		last := i == t.NumIn()-1
		one := func() string {
			if last && strings.Contains(name, "Decode") {
				return g.signal()
			}
			return g.document()
		}
		if t.In(i).Kind() == reflect.Slice {
			var as []string
			for k := g.n(5); k > 0; k-- {
				as = append(as, one())
			}
			vs = append(vs, reflect.ValueOf(as))
			continue
		}
		vs = append(vs, reflect.ValueOf(one()))
	}
	return vs
}

func vrun(f any, args []reflect.Value) (w string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case vAssertFailed:
			w = "false: " + string(r)
		default:
			w = fmt.Sprintf("panics: %v", r)
		}
	}()
	reflect.ValueOf(f).Call(args)
	return ""
}

func TestVerifReplay(t *testing.T) {
	log.SetOutput(io.Discard)
	scte35.Logger.SetOutput(io.Discard)
	var d struct{ Strs []string }
	if b, err := os.ReadFile(os.Getenv("VERIF_DICT")); err == nil {
		_ = json.Unmarshal(b, &d)
	}
	vstrs = d.Strs
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	only, _ := strconv.ParseInt(os.Getenv("VERIF_REPLAY_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	if budget == 0 {
		budget = 5
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	emit := func(k string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", k, b)
	}
	var names []string
	for _, n := range strings.Split(os.Getenv("VERIF_CASES"), "\n") {
		if vcases[n] != nil {
			names = append(names, n)
		}
	}
	per := time.Duration(budget * float64(time.Second) / float64(max(1, len(names))))
	for _, n := range names {
		f := vcases[n]
		end := time.Now().Add(per)
		tried := 0
		for i := 0; i == 0 || time.Now().Before(end); i++ {
			s := seed*1_000_003 + int64(i)
			if only != 0 {
				s = only
			}
			g := &vgen{rand.New(rand.NewSource(s))}
			args := g.args(n, f)
			now := vreport{Case: n, Seed: s}
			for _, a := range args {
				now.Args = append(now.Args, fmt.Sprintf("%q", a.Interface()))
			}
			done := make(chan string, 1)
			go func() { done <- vrun(f, args) }()
			w := ""
			select {
			case w = <-done:
			case <-time.After(10 * time.Second):
				now.What = "does not return"
				emit("FAIL", now)
				os.Exit(1)
			}
			tried++
			if w != "" {
				now.What = w
				emit("FAIL", now)
				break
			}
			if only != 0 {
				break
			}
		}
		emit("CASE", map[string]any{"case": n, "tried": tried, "compared": tried})
	}
}
