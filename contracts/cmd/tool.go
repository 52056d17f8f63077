package cmd

import (
	"encoding/json"
	"encoding/xml"
	"io"
	"os"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// ---- C26: the command line tool ----

type vAssertFailed string

// vassert states a fact the specification promises.
func vassert(ok bool, label string) {
	if !ok {
		panic(vAssertFailed(label))
	}
}

// vzTool runs a command of the tool, with what it finds on standard input: what
// it writes to standard output and standard error, and whether it accepts the
// arguments at all. govc understands it natively: the command tree SCTE35()
// builds is looked up, the flag is set, Args is asked, Run is executed.
func vzTool(stdin, sub string, setOut bool, out string, args ...string) (stdout, stderr string, ok bool) {
	in, err := os.CreateTemp("", "vzin")
	if err != nil {
		panic(err)
	}
	defer os.Remove(in.Name())
	_, _ = in.WriteString(stdin)
	_, _ = in.Seek(0, io.SeekStart)
	o, err := os.CreateTemp("", "vzout")
	if err != nil {
		panic(err)
	}
	defer os.Remove(o.Name())
	e, err := os.CreateTemp("", "vzerr")
	if err != nil {
		panic(err)
	}
	defer os.Remove(e.Name())
	oi, oo, oe := os.Stdin, os.Stdout, os.Stderr
	os.Stdin, os.Stdout, os.Stderr = in, o, e
	defer func() {
		os.Stdin, os.Stdout, os.Stderr = oi, oo, oe
		in.Close()
		o.Close()
		e.Close()
	}()
	c := SCTE35()
	av := []string{sub}
	if setOut {
		av = append(av, "--out="+out)
	}
	c.SetArgs(append(append(av, "--"), args...))
	ok = c.Execute() == nil
	b, _ := os.ReadFile(o.Name())
	stdout = string(b)
	b, _ = os.ReadFile(e.Name())
	stderr = string(b)
	return
}

// vzErr is what standard error carries of an error.
func vzErr(err error) string {
	if err == nil {
		return ""
	}
	return "Error: " + err.Error() + "\n"
}

// vzSignal is the signal an argument of decode stands for.
func vzSignal(bin string) (*scte35.SpliceInfoSection, error) {
	if strings.HasPrefix(bin, "0x") {
		return scte35.DecodeHex(bin)
	}
	return scte35.DecodeBase64(bin)
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolDecode(stdin, bin string) {
	out, errs, ok := vzTool(stdin, "decode", false, "", bin)
	vassert(ok, "decode accepts one argument")
	sis, err := vzSignal(bin)
	vassert(out == sis.Table("", "\t")+"\n", "decode prints the table of the signal")
	vassert(errs == vzErr(err), "decode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolDecodeJSON(stdin, bin string) {
	out, errs, ok := vzTool(stdin, "decode", true, "json", bin)
	vassert(ok, "decode accepts one argument")
	sis, err := vzSignal(bin)
	b, _ := json.MarshalIndent(sis, "", "\t")
	vassert(out == string(b)+"\n", "decode --out=json prints the JSON of the signal")
	vassert(errs == vzErr(err), "decode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolDecodeXML(stdin, bin string) {
	out, errs, ok := vzTool(stdin, "decode", true, "xml", bin)
	vassert(ok, "decode accepts one argument")
	sis, err := vzSignal(bin)
	b, _ := xml.MarshalIndent(sis, "", "\t")
	vassert(out == string(b)+"\n", "decode --out=xml prints the XML of the signal")
	vassert(errs == vzErr(err), "decode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolDecodeText(stdin, bin string) {
	out, errs, ok := vzTool(stdin, "decode", true, "text", bin)
	vassert(ok, "decode accepts one argument")
	sis, err := vzSignal(bin)
	vassert(out == sis.Table("", "\t")+"\n", "decode --out=text prints the table of the signal")
	vassert(errs == vzErr(err), "decode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolDecodeArgs(stdin string, args []string) {
	if len(args) == 1 {
		return
	}
	out, _, ok := vzTool(stdin, "decode", false, "", args...)
	vassert(!ok, "decode refuses anything but one argument")
	vassert(out == "", "and prints nothing")
}

// vzEncoded is what encode does with a document.
func vzEncoded(doc string) (stdout, stderr string) {
	var sis *scte35.SpliceInfoSection
	t := strings.TrimSpace(doc)
	if strings.HasPrefix(t, "<") {
		if err := xml.Unmarshal([]byte(doc), &sis); err != nil {
			return "", vzErr(err)
		}
	} else if strings.HasPrefix(t, "{") {
		if err := json.Unmarshal([]byte(doc), &sis); err != nil {
			return "", vzErr(err)
		}
	} else {
		return "", "Error: unrecognized or empty input\n"
	}
	return "Base64: " + sis.Base64() + "\nHex   : " + sis.Hex() + "\n", ""
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolEncodeArg(stdin, doc string) {
	out, errs, ok := vzTool(stdin, "encode", false, "", doc)
	vassert(ok, "encode accepts one argument")
	o, e := vzEncoded(doc)
	vassert(out == o, "encode prints the two forms of the section its argument describes")
	vassert(errs == e, "encode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolEncodeStdin(doc string) {
	out, errs, ok := vzTool(doc, "encode", false, "")
	vassert(ok, "encode accepts no argument")
	o, e := vzEncoded(doc)
	vassert(out == o, "encode prints the two forms of the section standard input describes")
	vassert(errs == e, "encode prints the error on standard error")
}

//@ lemma
//@ all C26
//@ panic C26
//@ global C26
func lemmaToolEncodeArgs(stdin string, args []string) {
	if len(args) < 2 {
		return
	}
	out, _, ok := vzTool(stdin, "encode", false, "", args...)
	vassert(!ok, "encode refuses more than one argument")
	vassert(out == "", "and prints nothing")
}

