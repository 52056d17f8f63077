package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The promises of encoding/xml, see marshal.go.

type xfield struct {
	i         int
	t         types.Type
	name, ns  string
	mode      string // attr, elem, chardata, any
	omitempty bool
}

type xinfo struct {
	fs       []xfield
	name, ns string // of the XMLName field's tag
	hasName  int    // index of the XMLName field, -1
	bad      bool   // the package refuses the type
}

func structOf(t types.Type) (*types.Struct, bool) {
	for {
		p, ok := under(t).(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	s, ok := under(t).(*types.Struct)
	return s, ok
}

// xmlNameTag: name and name space an XMLName field gives a structure
func xmlNameTag(t types.Type) (ns, name string, idx int) {
	s, ok := structOf(t)
	if !ok {
		return "", "", -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "XMLName" && isXMLName(s.Field(i).Type()) {
			tag := reflect.StructTag(s.Tag(i)).Get("xml")
			if tag == "-" {
				continue
			}
			if j := strings.Index(tag, " "); j >= 0 {
				ns, tag = tag[:j], tag[j+1:]
			}
			return ns, strings.Split(tag, ",")[0], i
		}
	}
	return "", "", -1
}

func (x *Exec) xmlInfo(t types.Type) *xinfo {
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(unsupported("XML fields of %s", t))
	}
	in := &xinfo{}
	in.ns, in.name, in.hasName = xmlNameTag(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("xml")
		if f.Embedded() {
			panic(unsupported("embedded field %s in a marshalled structure", f.Name()))
		}
		if !f.Exported() || tag == "-" || i == in.hasName {
			continue
		}
		xf := xfield{i: i, t: f.Type(), mode: "elem"}
		if j := strings.Index(tag, " "); j >= 0 {
			xf.ns, tag = tag[:j], tag[j+1:]
		}
		ps := strings.Split(tag, ",")
		for _, o := range ps[1:] {
			switch o {
			case "attr", "chardata", "any":
				if xf.mode != "elem" {
					panic(unsupported("xml tag %q", tag))
				}
				xf.mode = o
			case "omitempty":
				xf.omitempty = true
			default:
				panic(unsupported("xml option %s", o))
			}
		}
		if xf.ns != "" && ps[0] == "" || strings.Contains(ps[0], ">") {
			panic(unsupported("xml tag %q", tag))
		}
		cns, cname, ci := xmlNameTag(f.Type())
		switch {
		case xf.mode == "chardata":
		case ps[0] == "" && ci >= 0:
			xf.ns, xf.name = cns, cname
		case ps[0] == "":
			xf.name = f.Name()
		default:
			xf.name = ps[0]
			if xf.ns == "" && xf.mode != "attr" && in.hasName >= 0 {
				xf.ns = in.ns
			}
			if xf.mode == "elem" && ci >= 0 && cname != xf.name {
				in.bad = true
			}
		}
		for _, o := range in.fs {
			if o.mode == xf.mode && o.name == xf.name && !(o.ns != "" && xf.ns != "" && o.ns != xf.ns) {
				in.bad = true
			}
		}
		in.fs = append(in.fs, xf)
	}
	return in
}

// xnode is an element: a structure under a name.
type xnode struct {
	typ      types.Type
	v        StructV // owned; fields of interface type are in kids
	kids     map[int][]*xnode
	name, ns string // as a reader sees them
}

// xmlNode makes the element for a structure at loc.
func (c *jctx) xmlNode(loc *Loc, t types.Type, name, ns, parentNS string) *xnode {
	x := c.x
	in := x.xmlInfo(t)
	if in.bad {
		c.err = x.tb.Int(otherErr)
		return nil
	}
	if x.ownMethod(types.NewPointer(t), "MarshalXML") != nil {
		panic(unsupported("MarshalXML of %s", t))
	}
	n := &xnode{typ: t, name: name, ns: ns, kids: map[int][]*xnode{}}
	c.rename(n, in, parentNS)
	s := under(t).(*types.Struct)
	fs := make([]Val, s.NumFields())
	for i := range fs {
		fs[i] = x.buildZ(s.Field(i).Type())
	}
	for _, f := range in.fs {
		l := loc.add(Step{k: sField, n: f.i})
		v := x.load(c.st, l)
		if _, ok := under(f.t).(*types.Interface); ok {
			c.xmlKid(n, f, v)
			continue
		}
		if sl, ok := under(f.t).(*types.Slice); ok {
			if _, ok := under(sl.Elem()).(*types.Interface); ok {
				s, ok := v.(SliceV)
				if !ok || !s.ln.isInt() || !s.off.isInt() {
					panic(unsupported("marshalling of a list of symbolic length"))
				}
				for k := int64(0); k < s.ln.iv.Int64(); k++ {
					c.xmlKid(n, f, x.sub(c.st, x.get(c.st, s.loc), Step{k: sIndex, idx: x.tb.AddC(s.off, k)}))
				}
				continue
			}
		}
		fs[f.i] = x.snapshot(c.st, v, f.t)
	}
	if c.err != nil {
		return nil
	}
	n.v = StructV{fs}
	return n
}

// rename: an element is called what its XMLName says, or else what the field
// that holds it says.
func (c *jctx) rename(n *xnode, in *xinfo, parentNS string) {
	if in.hasName >= 0 {
		if in.name == "" {
			panic(unsupported("an element whose name is a value"))
		}
		n.name, n.ns = in.name, in.ns
	}
	if n.name == "" {
		n.name = types.Unalias(n.typ).(*types.Named).Obj().Name()
	}
	if n.ns == "" {
		n.ns = parentNS
	}
}

func (c *jctx) xmlKid(n *xnode, f xfield, v Val) {
	x := c.x
	a, ok := v.(IfaceV)
	if !ok {
		panic(unsupported("marshalling of a symbolic interface"))
	}
	if a.typ == nil || c.err != nil {
		return
	}
	p, ok := under(a.typ).(*types.Pointer)
	q, ok2 := a.v.(PtrV)
	if !ok || !ok2 || q.loc == nil || !x.implied(c.st, x.tb.Not(q.nl)) {
		panic(unsupported("marshalling of %s to XML", a.typ))
	}
	if f.mode != "elem" {
		panic(unsupported("interface in an attribute"))
	}
	if k := c.xmlNode(q.loc, p.Elem(), f.name, f.ns, n.ns); k != nil {
		n.kids[f.i] = append(n.kids[f.i], k)
	}
}

func (n *xnode) leaves() (ls []*Term) {
	ls = leavesOf(n.v)
	s := under(n.typ).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		for _, k := range n.kids[i] {
			ls = append(ls, k.leaves()...)
		}
	}
	return
}
func (n *xnode) sig(x *Exec) string {
	s := x.typeName(n.typ)
	st := under(n.typ).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		for _, k := range n.kids[i] {
			s += fmt.Sprintf("(%d:%s)", i, k.sig(x))
		}
	}
	return s
}

// ---------- reading ----------

// xmlInto reads an element that is there if pres holds into a location.
func (c *jctx) xmlInto(n *xnode, pres *Term, loc *Loc, dt types.Type) {
	if c.err != nil {
		return
	}
	x, tb := c.x, c.x.tb
	if m := x.ownMethod(types.NewPointer(dt), "UnmarshalXML"); m != nil {
		if pres != tb.True {
			panic(unsupported("UnmarshalXML of an optional element"))
		}
		d := x.decoderOf(n)
		r := c.call(m, PtrV{tb.False, loc}, OpaqueV{d}, startOf(x, m, n))
		if c.failed(r[0]) {
			return
		}
		if c.st.memo["xmlread:"+d] == nil {
			c.err = tb.Int(otherErr) // the element was not consumed
		}
		return
	}
	if p, ok := under(dt).(*types.Pointer); ok {
		if !x.zeroAt(c.st, loc) {
			panic(unsupported("unmarshalling into a pointer that is set"))
		}
		l := x.alloc(c.st, p.Elem(), x.zero(p.Elem()), "xml")
		c.xmlInto(n, tb.True, l, p.Elem())
		x.set(c.st, loc, PtrV{tb.Not(pres), l})
		return
	}
	if _, ok := under(dt).(*types.Struct); !ok || timeLike(dt) {
		panic(unsupported("unmarshalling of an element into %s", dt))
	}
	in, out := x.xmlInfo(n.typ), x.xmlInfo(dt)
	if out.bad || in.bad || out.name != "" && out.name != n.name || out.name != "" && out.ns != "" && out.ns != n.ns {
		if pres != tb.True {
			panic(unsupported("an optional element that is refused"))
		}
		c.err = tb.Int(otherErr)
		return
	}
	if out.hasName >= 0 {
		l := loc.add(Step{k: sField, n: out.hasName})
		old := x.get(c.st, l).(StructV)
		x.set(c.st, l, StructV{[]Val{tb.Ite(pres, tb.StrLit(n.ns), old.fs[0].(*Term)), tb.Ite(pres, tb.StrLit(n.name), old.fs[1].(*Term))}})
	}
	text := tb.StrLit("")
	for _, f := range in.fs {
		v := n.v.fs[f.i]
		p := pres
		if f.omitempty && n.kids[f.i] == nil {
			if f.mode == "chardata" {
				panic(unsupported("omitempty text"))
			}
			if _, ok := under(f.t).(*types.Interface); !ok {
				p = tb.And(p, x.notEmpty(v, f.t))
			}
		}
		switch f.mode {
		case "attr":
			for _, g := range out.fs {
				if g.mode == "attr" && g.name == f.name && (g.ns == "" || g.ns == f.ns) {
					if f.ns != "" {
						panic(unsupported("attribute in a name space"))
					}
					c.xmlAttr(v, f.t, p, loc.add(Step{k: sField, n: g.i}), g.t)
				}
			}
		case "chardata":
			text = c.xmlText(v, f.t)
			if c.err != nil {
				return
			}
		default:
			c.xmlElem(n, f, v, p, out, loc)
		}
	}
	for _, g := range out.fs {
		if g.mode == "chardata" {
			l := loc.add(Step{k: sField, n: g.i})
			if ut := x.ownMethod(types.NewPointer(g.t), "UnmarshalText"); ut != nil {
				c.text(nil, ut, text, types.Typ[types.String], pres, l, g.t)
			} else if isByteSlice(g.t) {
				if pres != tb.True {
					panic(unsupported("optional text"))
				}
				x.set(c.st, l, x.bytesOfStr(c.st, text))
			} else {
				c.scalarInto(text, types.Typ[types.String], l, g.t, pres)
			}
		}
	}
}

// xmlText: the character data a field is written as
func (c *jctx) xmlText(v Val, t types.Type) *Term {
	x := c.x
	if mt := x.ownMethod(t, "MarshalText"); mt != nil {
		l := x.alloc(c.st, t, v, "text")
		r := c.call(mt, x.load(c.st, l))
		if c.failed(r[1]) {
			return nil
		}
		return x.strOf(c.st, r[0])
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return v.(*Term)
	}
	if isByteSlice(t) {
		// not every byte is a character XML can carry
		return x.tb.Sym("xmltext", StrS)
	}
	panic(unsupported("character data of type %s", t))
}

func (c *jctx) xmlAttr(v Val, t types.Type, pres *Term, loc *Loc, dt types.Type) {
	if c.err != nil {
		return
	}
	x, tb := c.x, c.x.tb
	if p, ok := under(t).(*types.Pointer); ok {
		a := v.(InPtr)
		c.xmlAttr(a.v, p.Elem(), tb.And(pres, tb.Not(a.nl)), loc, dt)
		return
	}
	if q, ok := under(dt).(*types.Pointer); ok {
		if !x.zeroAt(c.st, loc) {
			panic(unsupported("unmarshalling into a pointer that is set"))
		}
		n := x.alloc(c.st, q.Elem(), x.zero(q.Elem()), "xml")
		c.xmlAttr(v, t, tb.True, n, q.Elem())
		x.set(c.st, loc, PtrV{tb.Not(pres), n})
		return
	}
	mt, ut := x.ownMethod(t, "MarshalText"), x.ownMethod(types.NewPointer(dt), "UnmarshalText")
	if mt != nil || ut != nil {
		c.text(mt, ut, v, t, pres, loc, dt)
		return
	}
	c.scalarInto(v, t, loc, dt, pres)
}

// route finds the field that takes a child element.
func route(out *xinfo, name, ns string) *xfield {
	for i, g := range out.fs {
		if g.mode == "elem" && g.name == name && (g.ns == "" || g.ns == ns) {
			return &out.fs[i]
		}
	}
	for i, g := range out.fs {
		if g.mode == "any" {
			return &out.fs[i]
		}
	}
	return nil
}

func (c *jctx) xmlElem(n *xnode, f xfield, v Val, pres *Term, out *xinfo, loc *Loc) {
	x, tb := c.x, c.x.tb
	if _, ok := under(f.t).(*types.Interface); ok || n.kids[f.i] != nil {
		for _, k := range n.kids[f.i] {
			if g := route(out, k.name, k.ns); g != nil {
				c.xmlInto(k, pres, loc.add(Step{k: sField, n: g.i}), g.t)
			}
		}
		return
	}
	t := f.t
	if sl, ok := under(t).(*types.Slice); ok {
		if _, ok := under(sl.Elem()).(*types.Interface); ok {
			return // empty
		}
		if isByteSlice(t) {
			panic(unsupported("element of bytes"))
		}
		g := c.childField(n, f, sl.Elem(), out)
		if g == nil {
			return
		}
		if !types.Identical(under(t), under(g.t)) {
			panic(unsupported("unmarshalling of %s into %s", t, g.t))
		}
		l := loc.add(Step{k: sField, n: g.i})
		if !x.zeroAt(c.st, l) {
			panic(unsupported("unmarshalling into a list that is set"))
		}
		a := v.(InSlice)
		name, ns := c.childName(n, f, sl.Elem())
		cont := Content{c.xmlElems(a.c.(Content).lv, sl.Elem(), name, ns)}
		ln := tb.Ite(pres, a.ln, tb.Zero)
		x.set(c.st, l, InSlice{tb.Eq(ln, tb.Zero), ln, cont})
		return
	}
	for {
		p, ok := under(t).(*types.Pointer)
		if !ok {
			break
		}
		a := v.(InPtr)
		pres, v, t = tb.And(pres, tb.Not(a.nl)), a.v, p.Elem()
	}
	if _, ok := under(t).(*types.Struct); !ok || timeLike(t) {
		panic(unsupported("element of type %s", t))
	}
	g := c.childField(n, f, t, out)
	if g == nil {
		return
	}
	k := &xnode{typ: t, v: v.(StructV)}
	k.name, k.ns = c.childName(n, f, t)
	c.xmlInto(k, pres, loc.add(Step{k: sField, n: g.i}), g.t)
}

// childName: what an element made from a field is called
func (c *jctx) childName(n *xnode, f xfield, t types.Type) (name, ns string) {
	k := &xnode{typ: t, name: f.name, ns: f.ns}
	if p, ok := under(t).(*types.Pointer); ok {
		k.typ = p.Elem()
	}
	c.rename(k, c.x.xmlInfo(k.typ), n.ns)
	return k.name, k.ns
}
func (c *jctx) childField(n *xnode, f xfield, t types.Type, out *xinfo) *xfield {
	return route(out, first(c.childName(n, f, t)), second(c.childName(n, f, t)))
}
func first(a, b string) string  { return a }
func second(a, b string) string { return b }

// xmlElems: elements of a list (leaves are arrays), read back into zero ones.
func (c *jctx) xmlElems(v Val, t types.Type, name, ns string) Val {
	x := c.x
	if p, ok := under(t).(*types.Pointer); ok {
		a := v.(InPtr)
		return InPtr{a.nl, c.xmlElems(a.v, p.Elem(), name, ns)}
	}
	if _, ok := under(t).(*types.Struct); !ok || x.customJSON(t) || x.ownMethod(types.NewPointer(t), "UnmarshalXML") != nil {
		panic(unsupported("list element of type %s", t))
	}
	in := x.xmlInfo(t)
	if in.bad || in.name != "" && in.name != name || in.name != "" && in.ns != "" && in.ns != ns {
		panic(unsupported("list of elements that are refused"))
	}
	n := &xnode{typ: t, name: name, ns: ns}
	z := x.zeroElems(t).(StructV)
	fs := append([]Val{}, z.fs...)
	for _, f := range in.fs {
		w := v.(StructV).fs[f.i]
		switch f.mode {
		case "attr":
			ft := f.t
			if p, ok := under(ft).(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := under(ft).(*types.Basic); !ok && !timeLike(ft) || f.ns != "" || x.customJSON(ft) {
				panic(unsupported("attribute of type %s in a list", f.t))
			}
			fs[f.i] = w
		case "chardata":
			if b, ok := under(f.t).(*types.Basic); !ok || b.Info()&types.IsString == 0 || x.customJSON(f.t) {
				panic(unsupported("character data of type %s in a list", f.t))
			}
			fs[f.i] = w
		case "elem":
			ft := f.t
			if sl, ok := under(ft).(*types.Slice); ok {
				cn, cs := c.childName(n, f, sl.Elem())
				if g := route(in, cn, cs); g == nil || g.i != f.i || isByteSlice(ft) {
					panic(unsupported("element %s in a list", f.name))
				}
				a := w.(InSlice)
				// no element, no list
				fs[f.i] = InSlice{x.tb.UF("xml:nil", a.nl.sort, a.ln), a.ln, Content{c.xmlElems(a.c.(Content).lv, sl.Elem(), cn, cs)}}
				break
			}
			cn, cs := c.childName(n, f, ft)
			if g := route(in, cn, cs); g == nil || g.i != f.i {
				panic(unsupported("element %s in a list", f.name))
			}
			fs[f.i] = c.xmlElems(w, ft, cn, cs)
		default:
			panic(unsupported("any element in a list"))
		}
	}
	return StructV{fs}
}

// ---------- decoders ----------

// decoderOf makes a decoder that stands before the element.
func (x *Exec) decoderOf(n *xnode) string {
	if x.xnodes == nil {
		x.xnodes = map[string]*xnode{}
	}
	d := fmt.Sprintf("xml decoder %d", len(x.xnodes))
	x.xnodes[d] = n
	return d
}

// startOf: the xml.StartElement handed to UnmarshalXML
func startOf(x *Exec, m *ssa.Function, n *xnode) Val {
	t := m.Signature.Params().At(1).Type()
	z := x.zero(t).(StructV)
	fs := append([]Val{}, z.fs...)
	fs[0] = StructV{[]Val{x.tb.StrLit(n.ns), x.tb.StrLit(n.name)}}
	return StructV{fs}
}

func (x *Exec) decodeElement(st *State, d, dst, start Val, in ssa.Instruction, depth int) []Outcome {
	tb := x.tb
	od, ok := d.(OpaqueV)
	if !ok {
		panic(unsupported("decoder %T", d))
	}
	sp, ok := start.(PtrV)
	if !ok || sp.loc == nil || !x.implied(st, tb.Not(sp.nl)) {
		panic(unsupported("DecodeElement without a start element"))
	}
	sv, ok := x.get(st, sp.loc).(StructV)
	if !ok {
		panic(unsupported("start element %T", x.get(st, sp.loc)))
	}
	loc, t := x.target(st, dst)
	if _, ok := under(t).(*types.Interface); ok {
		iv, ok := x.get(st, loc).(IfaceV)
		if !ok || iv.typ == nil {
			panic(unsupported("unmarshalling into an interface"))
		}
		loc, t = x.target(st, iv)
	}
	key := "xmlread:" + od.name
	if n := x.xnodes[od.name]; n != nil {
		nm := sv.fs[0].(StructV)
		if st.memo[key] != nil || nm.fs[0] != tb.StrLit(n.ns) || nm.fs[1] != tb.StrLit(n.name) {
			panic(unsupported("DecodeElement of another element"))
		}
		st.setMemo(key, []Val{tb.True})
		c := &jctx{x: x, st: st, d: depth, in: in}
		c.xmlInto(n, tb.True, loc, t)
		if c.err != nil {
			return one(c.st, ErrV{c.err})
		}
		return one(c.st, x.errNil())
	}
	// what an unknown document holds next
	if x.ownMethod(types.NewPointer(t), "UnmarshalXML") != nil {
		panic(unsupported("DecodeElement into a type that decodes itself"))
	}
	count := len(st.memo[key])
	st.setMemo(key, append(append([]Val{}, st.memo[key]...), tb.True))
	args := leavesOf(x.snapshot(st, sv, x.startType(sp, st)))
	return one(st, ErrV{x.opaqueInto(st, fmt.Sprintf("xml %s %d", od.name, count), args, loc, t)})
}

func (x *Exec) startType(p PtrV, st *State) types.Type {
	o := st.heap[p.loc.obj]
	t := o.typ
	for _, s := range p.loc.path {
		t = stepType(t, s)
	}
	return t
}

func init() {
	intrinsics["encoding/xml.Marshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		c := &jctx{x: x, st: st, d: d, in: in}
		loc, t := x.target(st, a[0])
		n := c.xmlNode(loc, t, "", "", "")
		if n == nil {
			return one(c.st, x.zero(types.NewSlice(types.Typ[types.Uint8])), ErrV{c.err})
		}
		dc := x.newDoc(&doc{kind: "xml", node: n}, "xml:"+n.sig(x), n.leaves())
		return one(c.st, x.bytesOfStr(c.st, dc.str), x.errNil())
	}
	intrinsics["encoding/xml.Unmarshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		dc := x.docs[x.strOf(st, a[0])]
		if dc == nil || dc.node == nil {
			panic(unsupported("xml.Unmarshal of an unknown document"))
		}
		c := &jctx{x: x, st: st, d: d, in: in}
		loc, t := x.target(st, a[1])
		c.xmlInto(dc.node, x.tb.True, loc, t)
		if c.err != nil {
			return one(c.st, ErrV{c.err})
		}
		return one(c.st, x.errNil())
	}
	intrinsics["(*encoding/xml.Decoder).DecodeElement"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		return x.decodeElement(st, a[0], a[1], a[2], in, d)
	}
}

// rewound: decoders are where they were before the specification read them.
func rewound(st *State) *State {
	for k := range st.memo {
		if strings.HasPrefix(k, "xmlread:") {
			st.setMemo(k, nil)
		}
	}
	return st
}
