package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line tool. The commands are executed from the source; what lies
// around them is modelled here: the command tree and the flags (cobra, pflag),
// the three standard streams, and the sections, which a command only handles
// through the methods of the library. Those methods count as functions of the
// section and of their arguments, which is what C20 and C27 establish of them.

const cobraPath = "github.com/spf13/cobra"
const pflagPath = "github.com/spf13/pflag"

// AbsV is a section nothing but its identity is known of.
type AbsV struct{ id *Term }

type toolCtx struct {
	subs  map[int][]PtrV          // command -> its subcommands
	owner map[int]int             // flag set -> its command
	flags map[int]map[string]*Loc // flag set -> variables by name
	sets  map[string]PtrV
	std   map[string]*Loc // os.Stdin, os.Stdout, os.Stderr
	abs   map[int]bool
}

// toolInit initialises the variables of package cmd.
func (x *Exec) toolInit(st *State) {
	defer func() {
		if r := recover(); r != nil {
			x.toolBad = "the variables of package cmd cannot be initialised"
			if u, ok := r.(unsup); ok {
				x.toolBad += ": " + u.Error()
			}
		}
	}()
	s := st.clone()
	x.cur = s
	outs := x.inline(s, x.P.cmdp.Func("init"), nil, nil, 0)
	x.cur = st
	if len(outs) != 1 {
		x.toolBad = "the initialisation of package cmd forks"
		return
	}
	*st = *outs[0].st
}

// stream: where a write to v goes, nil if that is not known.
func (x *Exec) stream(st *State, v Val, in ssa.Instruction) (*Loc, bool) {
	if o, ok := v.(OpaqueV); ok && x.tool != nil && x.tool.std[o.name] != nil {
		return x.tool.std[o.name], true
	}
	iv, ok := v.(IfaceV)
	if !ok || iv.typ == nil {
		panic(unsupported("write to an unknown writer"))
	}
	if o, ok := iv.v.(OpaqueV); ok {
		return x.stream(st, o, in)
	}
	p, ok := under(iv.typ).(*types.Pointer)
	if !ok || !isBuilder(p.Elem()) {
		panic(unsupported("write to %s", iv.typ))
	}
	l := x.ptr(st, iv.v, in)
	if l == nil {
		return nil, false
	}
	return l.add(Step{k: sField, n: 0}), true
}

func (x *Exec) emit(st *State, w Val, s *Term, in ssa.Instruction) []Outcome {
	l, ok := x.stream(st, w, in)
	if !ok {
		return nil
	}
	x.set(st, l, x.tb.StrCat(x.get(st, l).(*Term), s))
	return one(st, x.tb.SLen(s), x.errNil())
}

// errText is what Error() gives.
func (x *Exec) errText(code *Term) *Term {
	if code.op == "uf" && code.name == "err:text" {
		return code.args[0]
	}
	return x.tb.UF("errtext", StrS, code)
}

// newErr is an error told apart by its text, which only the tool shows.
func (x *Exec) newErr(st *State, text *Term) ErrV {
	c := x.tb.UF("err:text", IntS, text)
	st.assume(x.tb.Not(x.tb.Eq(c, x.tb.Zero)))
	return ErrV{c}
}

// absOf is the identity of the value at l.
func (x *Exec) absOf(st *State, l *Loc, t types.Type) *Term {
	v := x.get(st, l)
	if a, ok := v.(AbsV); ok {
		return a.id
	}
	z := x.isZero(v, t)
	if z != x.tb.True {
		panic(unsupported("a section put together by hand"))
	}
	return x.tb.UF("section:new", IdS)
}

func (x *Exec) sectionType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == x.P.pkg.Pkg && n.Obj().Name() == "SpliceInfoSection"
}

// component applies a method of the section.
func (x *Exec) component(st *State, fn *ssa.Function, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	if fn.Pkg != x.P.pkg || fn.Signature.Recv() == nil {
		return nil, false
	}
	rt := fn.Signature.Recv().Type()
	p, isP := types.Unalias(rt).(*types.Pointer)
	if !isP || !x.sectionType(p.Elem()) {
		return nil, false
	}
	pure := false
	switch fn.Name() {
	case "Base64", "Hex":
		return nil, false // executed
	case "Encode", "Table", "Duration", "MarshalJSON", "EncryptedPacketFlag":
		pure = true
	case "Decode", "UnmarshalJSON":
	default:
		panic(unsupported("method %s of a section in the tool", fn.Name()))
	}
	l := x.ptr(st, args[0], in)
	if l == nil {
		return nil, true
	}
	ts := []*Term{x.absOf(st, l, p.Elem())}
	for i, a := range args[1:] {
		ts = append(ts, x.argTerms(st, a, fn.Params[i+1].Type())...)
	}
	n := "section." + fn.Name()
	x.used[x.P.fname(fn)+" (as a function of its arguments: C20, C27)"] = true
	if !pure {
		x.set(st, l, AbsV{x.tb.UF(n+".state", IdS, ts...)})
	}
	return one(st, x.compResults(st, n, fn.Signature.Results(), ts)...), true
}

func (x *Exec) compResults(st *State, n string, rs *types.Tuple, ts []*Term) (ret []Val) {
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		switch {
		case isErrorT(t):
			ret = append(ret, ErrV{x.tb.UF(n+".err", IntS, ts...)})
		case isByteSlice(t):
			ret = append(ret, x.bytesOfStr(st, x.tb.UF(n+".bytes", StrS, ts...)))
		case x.scalarSort(t) != nil:
			ret = append(ret, x.tb.UF(n, x.scalarSort(t), ts...))
		default:
			panic(unsupported("result of %s", n))
		}
	}
	return
}

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])

// marshalled is the document of a section.
func (x *Exec) marshalled(st *State, kind string, v Val, rest []*Term) []Outcome {
	iv, ok := v.(IfaceV)
	if !ok || iv.typ == nil {
		panic(unsupported("marshalling of %T in the tool", v))
	}
	name := "value"
	var id *Term
	if p, ok := under(iv.typ).(*types.Pointer); ok && x.sectionType(p.Elem()) {
		q, ok := iv.v.(PtrV)
		if !ok || q.loc == nil || !x.implied(st, x.tb.Not(q.nl)) {
			panic(unsupported("marshalling of a section that may be nil"))
		}
		name, id = "pointer", x.absOf(st, q.loc, p.Elem())
	} else if a, ok := iv.v.(AbsV); ok && x.sectionType(iv.typ) {
		id = a.id
	} else {
		panic(unsupported("marshalling of %s in the tool", iv.typ))
	}
	ts := append([]*Term{id}, rest...)
	n := kind + " of a section " + name
	code := x.tb.UF(n+".err", IntS, ts...)
	return x.fork(st, x.tb.Eq(code, x.tb.Zero), func(st *State) []Outcome {
		return one(st, x.bytesOfStr(st, x.tb.UF(n, StrS, ts...)), x.errNil())
	}, func(st *State) []Outcome {
		return one(st, x.zero(byteSliceT), ErrV{code})
	})
}

// unmarshalled reads a document into a section or into a pointer to one.
func (x *Exec) unmarshalled(st *State, kind string, b, dst Val) []Outcome {
	tb := x.tb
	s := x.strOf(st, b)
	loc, t := x.target(st, dst)
	into := func(st *State, l *Loc, t types.Type) *Term {
		old := x.absOf(st, l, t)
		x.set(st, l, AbsV{tb.UF(kind+".section", IdS, old, s)})
		return tb.UF(kind+".err", IntS, old, s)
	}
	if x.sectionType(t) {
		return one(st, ErrV{into(st, loc, t)})
	}
	pt, ok := under(t).(*types.Pointer)
	if !ok || !x.sectionType(pt.Elem()) {
		panic(unsupported("unmarshalling into %s in the tool", t))
	}
	read := func(st *State) []Outcome {
		p, ok := x.load(st, loc).(PtrV)
		if !ok {
			panic(unsupported("unmarshalling into a pointer of %T", p))
		}
		if p.loc != nil {
			if !x.implied(st, tb.Not(p.nl)) {
				panic(unsupported("unmarshalling into a pointer that may be nil"))
			}
			return one(st, ErrV{into(st, p.loc, pt.Elem())})
		}
		l := x.alloc(st, pt.Elem(), AbsV{tb.UF("section:new", IdS)}, "section")
		code := into(st, l, pt.Elem())
		return x.fork(st, tb.Eq(code, tb.Zero), func(st *State) []Outcome {
			x.set(st, loc, PtrV{tb.False, l})
			return one(st, x.errNil())
		}, func(st *State) []Outcome {
			x.set(st, loc, PtrV{tb.UF(kind+".unset", BoolS, s), l})
			return one(st, ErrV{code})
		})
	}
	if kind == "json" {
		// the text null leaves a pointer nil
		tr := tb.UF("trim", StrS, s)
		tp, off := tb.BytesOf(tr)
		null := tb.Eq(tb.SLen(tr), tb.Int(4))
		for i := 0; i < 4; i++ {
			null = tb.And(null, tb.Eq(tb.Rd(tp, tb.MulC(tb.AddC(off, int64(i)), 8), 8), tb.BVc(8, uint64("null"[i]))))
		}
		return x.fork(st, tb.And(null, tb.UF("json:valid", BoolS, s)), func(st *State) []Outcome {
			p, ok := x.load(st, loc).(PtrV)
			if !ok || p.loc != nil {
				panic(unsupported("null into a pointer"))
			}
			return one(st, x.errNil())
		}, read)
	}
	return read(st)
}

// funcField is a function of the command, nil if it is not set.
func (x *Exec) cmdField(st *State, c PtrV, name string) Val {
	t := x.commandType()
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.load(st, c.loc.add(Step{k: sField, n: i}))
		}
	}
	panic(unsupported("cobra.Command has no field %s", name))
}
func (x *Exec) commandType() types.Type {
	for _, p := range x.P.cmdp.Pkg.Imports() {
		if p.Path() == cobraPath {
			return p.Scope().Lookup("Command").Type()
		}
	}
	panic(unsupported("package cmd does not use cobra any more"))
}

// runTool executes one command of the tool: (stdin, sub, setOut, out, args).
func (x *Exec) runTool(st *State, a []Val, in ssa.Instruction, depth int) []Outcome {
	tb := x.tb
	if x.toolBad != "" {
		panic(unsupported("%s", x.toolBad))
	}
	std := map[string]*Loc{}
	for _, n := range []string{"os.Stdin", "os.Stdout", "os.Stderr"} {
		v := tb.StrLit("")
		if n == "os.Stdin" {
			v = a[0].(*Term)
		}
		std[n] = x.alloc(st, types.Typ[types.String], v, n)
	}
	x.tool.std = std
	x.tool.subs, x.tool.owner, x.tool.flags, x.tool.sets = map[int][]PtrV{}, map[int]int{}, map[int]map[string]*Loc{}, map[string]PtrV{}
	root := x.P.cmdp.Func("SCTE35")
	if root == nil {
		panic(unsupported("package cmd has no SCTE35"))
	}
	sub := a[1].(*Term).name
	spec := x.spec
	x.spec = 0
	defer func() { x.spec = spec }()
	done := func(st *State, ok bool) []Outcome {
		return one(st, x.get(st, std["os.Stdout"]), x.get(st, std["os.Stderr"]), tb.Bool(ok))
	}
	var res []Outcome
	for _, o := range x.callFn(st, root, nil, nil, depth+1, in) {
		if o.kind != oRet {
			res = append(res, o)
			continue
		}
		st := o.st
		x.cur = st
		rp, ok := o.ret[0].(PtrV)
		if !ok || rp.loc == nil {
			panic(unsupported("the root command"))
		}
		var found []PtrV
		for _, s := range x.tool.subs[rp.loc.obj] {
			u, ok := x.cmdField(st, s, "Use").(*Term)
			if !ok || u.op != "strlit" {
				panic(unsupported("a command with a computed name"))
			}
			if f := strings.Fields(u.name); len(f) > 0 && f[0] == sub {
				found = append(found, s)
			}
		}
		if len(found) != 1 {
			x.spec = 0
			x.prove(st, tb.False, "assert", "the tool has one command "+sub)
			continue
		}
		c := found[0]
		for _, p := range []PtrV{rp, c} {
			for _, n := range []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE", "PostRun", "PostRunE", "PersistentPostRun", "PersistentPostRunE"} {
				if _, set := x.cmdField(st, p, n).(FuncV); set {
					panic(unsupported("a command with %s", n))
				}
			}
			for _, n := range []string{"DisableFlagParsing", "TraverseChildren"} {
				if x.cmdField(st, p, n) != Val(tb.False) {
					panic(unsupported("a command with %s", n))
				}
			}
			if x.cmdField(st, p, "Deprecated") != Val(tb.StrLit("")) {
				panic(unsupported("a deprecated command"))
			}
		}
		if a[2].(*Term) == tb.True {
			var l *Loc
			for _, set := range []string{"flags", "pflags"} {
				if p, ok := x.tool.sets[set+":"+itoa(c.loc.obj)]; ok && l == nil {
					l = x.tool.flags[p.loc.obj]["out"]
				}
			}
			if p, ok := x.tool.sets["pflags:"+itoa(rp.loc.obj)]; ok && l == nil {
				l = x.tool.flags[p.loc.obj]["out"]
			}
			if l == nil {
				x.prove(st, tb.False, "assert", "the command "+sub+" has the flag out")
				continue
			}
			x.set(st, l, a[3])
		}
		args := a[4]
		run := func(st *State) []Outcome {
			f, ok := x.cmdField(st, c, "Run").(FuncV)
			if _, e := x.cmdField(st, c, "RunE").(FuncV); e || !ok {
				panic(unsupported("a command that does not have Run alone"))
			}
			var out []Outcome
			for _, o := range x.callFn(st, f.fn, []Val{c, args}, f.bind, depth+1, in) {
				if o.kind == oRet {
					x.cur = o.st
					out = append(out, done(o.st, true)...)
				} else {
					out = append(out, o)
				}
			}
			return out
		}
		f, ok := x.cmdField(st, c, "Args").(FuncV)
		if !ok {
			res = append(res, run(st)...)
			continue
		}
		for _, o := range x.callFn(st, f.fn, []Val{c, args}, f.bind, depth+1, in) {
			if o.kind != oRet {
				res = append(res, o)
				continue
			}
			x.cur = o.st
			code := o.ret[0].(ErrV).code
			res = append(res, x.fork(o.st, tb.Eq(code, tb.Zero), run, func(st *State) []Outcome { return done(st, false) })...)
		}
	}
	return res
}

func (x *Exec) need() {
	if x.tool == nil {
		panic(unsupported("cobra outside the tool"))
	}
}

// flagSet of a command.
func flagSet(kind string) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		x.need()
		c := x.ptr(st, a[0], in)
		if c == nil {
			return nil
		}
		k := kind + ":" + itoa(c.obj)
		p, ok := x.tool.sets[k]
		if !ok {
			l := x.alloc(st, types.Typ[types.String], OpaqueV{k}, k)
			p = PtrV{x.tb.False, l}
			x.tool.sets[k] = p
			x.tool.flags[l.obj] = map[string]*Loc{}
		}
		return one(st, p)
	}
}

// stringFlag: (set, [p], name, [shorthand], value, usage)
func stringFlag(v, sh bool) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		x.need()
		s := x.ptr(st, a[0], in)
		if s == nil || x.tool.flags[s.obj] == nil {
			panic(unsupported("a flag of an unknown set"))
		}
		i := 1
		var l *Loc
		if v {
			if l = x.ptr(st, a[1], in); l == nil {
				return nil
			}
			i = 2
		}
		name, ok := a[i].(*Term)
		if !ok || name.op != "strlit" {
			panic(unsupported("a flag with a computed name"))
		}
		val := a[i+1]
		if sh {
			val = a[i+2]
		}
		if l == nil {
			l = x.alloc(st, types.Typ[types.String], val, "flag "+name.name)
		}
		x.set(st, l, val)
		x.tool.flags[s.obj][name.name] = l
		if v {
			return one(st)
		}
		return one(st, PtrV{x.tb.False, l})
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

// printTo: operands as Print writes them, with Println's spaces and newline.
func (x *Exec) printed(st *State, v Val, ln bool, in ssa.Instruction) *Term {
	res := x.tb.StrLit("")
	es := x.varargs(st, v)
	if !ln && len(es) > 1 {
		panic(unsupported("Print of several operands"))
	}
	for i, e := range es {
		if i > 0 {
			res = x.tb.StrCat(res, x.tb.StrLit(" "))
		}
		res = x.tb.StrCat(res, x.fmtArg(st, "%v", e, in))
	}
	if ln {
		res = x.tb.StrCat(res, x.tb.StrLit("\n"))
	}
	return res
}

func init() {
	cc, fs := "(*"+cobraPath+".Command).", "(*"+pflagPath+".FlagSet)."
	m := intrinsics
	m[cc+"AddCommand"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		x.need()
		c := x.ptr(st, a[0], in)
		if c == nil {
			return nil
		}
		for _, e := range x.varargs(st, a[1]) {
			if x.ptr(st, e, in) == nil {
				return nil
			}
			x.tool.subs[c.obj] = append(x.tool.subs[c.obj], e.(PtrV))
		}
		return one(st)
	}
	m[cc+"PersistentFlags"] = flagSet("pflags")
	m[cc+"Flags"] = flagSet("flags")
	m[fs+"StringVar"] = stringFlag(true, false)
	m[fs+"StringVarP"] = stringFlag(true, true)
	m[fs+"String"] = stringFlag(false, false)
	m[fs+"StringP"] = stringFlag(false, true)
	std := func(iface bool, name string) intrin {
		return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			x.need()
			return one(st, IfaceV{types.NewPointer(types.Typ[types.String]), OpaqueV{name}})
		}
	}
	m[cc+"OutOrStdout"] = std(true, "os.Stdout")
	m[cc+"ErrOrStderr"] = std(true, "os.Stderr")
	m[cc+"OutOrStderr"] = std(true, "os.Stderr")
	m[cc+"InOrStdin"] = std(true, "os.Stdin")
	printer := func(name string, skip int, kind byte) intrin {
		return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			w := Val(OpaqueV{name})
			if name == "" {
				w = a[0]
			}
			if x.tool == nil {
				if _, ok := w.(OpaqueV); ok {
					panic(unsupported("write to %s", name))
				}
			}
			a = a[skip:]
			var outs []Outcome
			none := in != nil && func() bool { v, ok := in.(ssa.Value); return !ok || v.Type().(*types.Tuple).Len() == 0 }()
			put := func(st *State, s *Term) {
				for _, o := range x.emit(st, w, s, in) {
					if none {
						o.ret = nil
					}
					outs = append(outs, o)
				}
			}
			switch kind {
			case 'f':
				for _, o := range x.sprintf(st, a, in) {
					put(o.st, o.ret[0].(*Term))
				}
			default:
				put(st, x.printed(st, a[0], kind == 'l', in))
			}
			return outs
		}
	}
	m["fmt.Printf"] = printer("os.Stdout", 0, 'f')
	m["fmt.Println"] = printer("os.Stdout", 0, 'l')
	m["fmt.Print"] = printer("os.Stdout", 0, 'p')
	m["fmt.Fprintln"] = printer("", 1, 'l')
	m["fmt.Fprint"] = printer("", 1, 'p')
	m[cc+"Printf"] = printer("os.Stderr", 1, 'f')
	m[cc+"Println"] = printer("os.Stderr", 1, 'l')
	m[cc+"Print"] = printer("os.Stderr", 1, 'p')
	m[cc+"PrintErrf"] = printer("os.Stderr", 1, 'f')
	m[cc+"PrintErrln"] = printer("os.Stderr", 1, 'l')
	m[cc+"PrintErr"] = printer("os.Stderr", 1, 'p')
	write := func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		return x.emit(st, a[0], x.strOf(st, a[1]), in)
	}
	m["(*os.File).Write"] = write
	m["(*os.File).WriteString"] = write
	m["io.WriteString"] = write
	m["io.ReadAll"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		l, ok := x.stream(st, a[0], in)
		if !ok || x.tool == nil || !sameLoc(l, x.tool.std["os.Stdin"]) {
			panic(unsupported("ReadAll of another reader"))
		}
		s := x.get(st, l).(*Term)
		x.set(st, l, x.tb.StrLit(""))
		return one(st, x.bytesOfStr(st, s), x.errNil())
	}
	for _, k := range []string{"json", "xml"} {
		k := k
		m["encoding/"+k+".MarshalIndent"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if x.tool == nil {
				panic(unsupported("MarshalIndent"))
			}
			return x.marshalled(st, k+".MarshalIndent", a[0], []*Term{a[1].(*Term), a[2].(*Term)})
		}
		om, ou := m["encoding/"+k+".Marshal"], m["encoding/"+k+".Unmarshal"]
		m["encoding/"+k+".Marshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if x.tool != nil {
				return x.marshalled(st, k+".Marshal", a[0], nil)
			}
			return om(x, st, a, in, d)
		}
		m["encoding/"+k+".Unmarshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if x.tool != nil {
				return x.unmarshalled(st, k, a[0], a[1])
			}
			return ou(x, st, a, in, d)
		}
	}
	oe, on := m["fmt.Errorf"], m["errors.New"]
	m["fmt.Errorf"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		if f, ok := a[0].(*Term); ok && x.tool != nil && f.op == "strlit" {
			var outs []Outcome
			for _, o := range x.sprintf(st, []Val{x.tb.StrLit(strings.ReplaceAll(f.name, "%w", "%v")), a[1]}, in) {
				outs = append(outs, one(o.st, x.newErr(o.st, o.ret[0].(*Term)))...)
			}
			return outs
		}
		return oe(x, st, a, in, d)
	}
	m["errors.New"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		if x.tool != nil {
			return one(st, x.newErr(st, a[0].(*Term)))
		}
		return on(x, st, a, in, d)
	}
}
