package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Documents. encoding/json and encoding/xml are external: what they promise
// about a value they wrote and read back is modelled here, driven by the types
// and struct tags of the source under verification. A marshalled value is a
// text (an uninterpreted function of the value's leaves) that remembers what it
// was made from; unmarshalling it moves every leaf to the place the tags of the
// destination name. A text of unknown origin is unmarshalled by uninterpreted
// functions of the text and of the destination's old value.

type doc struct {
	kind string // null, val, map, arr
	typ  types.Type
	v    Val // owned
	keys []string
	subs []*doc
	str  *Term // the text
	node *xnode
}

func (x *Exec) newDoc(d *doc, name string, args []*Term) *doc {
	if x.docs == nil {
		x.docs = map[*Term]*doc{}
	}
	d.str = x.tb.UF(name, StrS, args...)
	if o := x.docs[d.str]; o != nil {
		return o
	}
	x.docs[d.str] = d
	return d
}

func leavesOf(v Val) (ls []*Term) {
	eachLeaf(v, func(t *Term) { ls = append(ls, t) })
	return
}

// snapshot: a copy of the value as it is now, owning what it points to.
func (x *Exec) snapshot(st *State, v Val, t types.Type) Val {
	om := x.moving
	x.moving = false
	defer func() { x.moving = om }()
	return x.freeze(st, v, t)
}

func (x *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := x.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return x.P.prog.MethodValue(s)
		}
	}
	return nil
}

// ownMethod: a method written in the package under verification (promoted ones
// of external types are not).
func (x *Exec) ownMethod(t types.Type, name string) *ssa.Function {
	f := x.methodOf(t, name)
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg() != x.P.pkg.Pkg {
		return nil
	}
	return f
}

func isRaw(t types.Type) bool {
	return isNamed(t, "encoding/json", "RawMessage") || isNamed(t, "encoding/json/jsontext", "Value")
}
func isXMLName(t types.Type) bool { return isNamed(t, "encoding/xml", "Name") }

// timeLike: a time.Time or a structure that only embeds one and inherits its
// text form.
func timeLike(t types.Type) bool {
	if isTime(t) {
		return true
	}
	s, ok := under(t).(*types.Struct)
	return ok && s.NumFields() == 1 && s.Field(0).Embedded() && isTime(s.Field(0).Type())
}

func (x *Exec) customJSON(t types.Type) bool {
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
		if x.ownMethod(types.NewPointer(t), m) != nil {
			return true
		}
	}
	return false
}

// ---------- marshalling to JSON ----------

type jctx struct {
	x  *Exec
	st *State
	d  int
	in ssa.Instruction
	// the error met, nil if none
	err *Term
}

func (c *jctx) call(fn *ssa.Function, args ...Val) []Val {
	outs := c.x.callFn(c.st, fn, args, nil, c.d+1, c.in)
	var live []Outcome
	for _, o := range outs {
		if o.kind == oRet && c.x.feasible(o.st) {
			live = append(live, o)
		}
	}
	if len(live) != 1 {
		panic(unsupported("%d outcomes of %s while (un)marshalling", len(live), fn.Name()))
	}
	c.st = live[0].st
	c.x.cur = c.st
	return live[0].ret
}

// failed notes an error returned by a method
func (c *jctx) failed(e Val) bool {
	t := e.(ErrV).code
	ok := c.x.tb.Eq(t, c.x.tb.Zero)
	if c.x.implied(c.st, ok) {
		return false
	}
	if !c.x.implied(c.st, c.x.tb.Not(ok)) {
		panic(unsupported("a method that may fail while (un)marshalling"))
	}
	c.err = t
	return true
}

func (c *jctx) jsonDoc(v Val, t types.Type) *doc {
	x, tb := c.x, c.x.tb
	switch a := v.(type) {
	case IfaceV:
		if a.typ == nil {
			return x.newDoc(&doc{kind: "null"}, "json:null", nil)
		}
		return c.jsonDoc(a.v, a.typ)
	case IfaceS:
		panic(unsupported("marshalling of a symbolic interface"))
	}
	if isRaw(t) {
		s := x.strOf(c.st, v)
		if d := x.docs[s]; d != nil {
			return d
		}
		panic(unsupported("marshalling of raw text"))
	}
	if m := x.ownMethod(t, "MarshalJSON"); m != nil {
		r := c.call(m, v)
		if c.failed(r[1]) {
			return nil
		}
		if d := x.docs[x.strOf(c.st, r[0])]; d != nil {
			return d
		}
		panic(unsupported("MarshalJSON with text of its own"))
	}
	switch u := under(t).(type) {
	case *types.Map:
		p, ok := v.(PtrV)
		if !ok || p.loc == nil {
			break
		}
		m, ok := x.get(c.st, p.loc).(MapV)
		if !ok {
			break
		}
		d := &doc{kind: "map"}
		var args []*Term
		for i, k := range m.keys {
			kt, ok := k.(*Term)
			if !ok || kt.op != "strlit" {
				panic(unsupported("marshalling of a map with a symbolic key"))
			}
			s := c.jsonDoc(m.vals[i], u.Elem())
			if s == nil {
				return nil
			}
			at := -1
			for j := range d.keys {
				if d.keys[j] == kt.name {
					at = j
				}
			}
			if at >= 0 {
				d.subs[at], args[at] = s, s.str
				continue
			}
			d.keys, d.subs, args = append(d.keys, kt.name), append(d.subs, s), append(args, s.str)
		}
		return x.newDoc(d, "json:{"+strings.Join(d.keys, ",")+"}", args)
	case *types.Pointer:
		if p, ok := v.(PtrV); ok && p.loc != nil && c.x.implied(c.st, tb.Not(p.nl)) {
			return c.jsonDoc(x.load(c.st, p.loc), u.Elem())
		}
		if p, ok := v.(PtrV); ok && (p.loc == nil || c.x.implied(c.st, p.nl)) {
			return x.newDoc(&doc{kind: "null"}, "json:null", nil)
		}
	case *types.Slice:
		if _, ok := under(u.Elem()).(*types.Interface); ok {
			s, ok := v.(SliceV)
			if !ok || !s.ln.isInt() || !s.off.isInt() {
				panic(unsupported("marshalling of a list of symbolic length"))
			}
			d := &doc{kind: "arr"}
			var args []*Term
			n, off := int(s.ln.iv.Int64()), int(s.off.iv.Int64())
			for i := 0; i < n; i++ {
				e := c.jsonDoc(x.sub(c.st, x.get(c.st, s.loc), Step{k: sIndex, idx: tb.Int(int64(off + i))}), u.Elem())
				if e == nil {
					return nil
				}
				d.subs, args = append(d.subs, e), append(args, e.str)
			}
			return x.newDoc(d, "json:[]", args)
		}
	}
	o := x.snapshot(c.st, v, t)
	return x.newDoc(&doc{kind: "val", typ: t, v: o}, "json:"+x.typeName(t), leavesOf(o))
}

// ---------- fields and tags ----------

type jfield struct {
	name      string
	i         int
	t         types.Type
	omitempty bool
}

func (x *Exec) jsonFields(t types.Type) []jfield {
	s := under(t).(*types.Struct)
	var fs []jfield
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			panic(unsupported("embedded field %s in a marshalled structure", f.Name()))
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if !f.Exported() || tag == "-" {
			continue
		}
		ps := strings.Split(tag, ",")
		jf := jfield{name: ps[0], i: i, t: f.Type()}
		if jf.name == "" {
			jf.name = f.Name()
		}
		for _, o := range ps[1:] {
			switch o {
			case "omitempty", "omitzero":
				jf.omitempty = true
			case "string":
			default:
				panic(unsupported("json option %s", o))
			}
		}
		fs = append(fs, jf)
	}
	// fields of one name hide each other
	var out []jfield
	for i := range fs {
		dup := false
		for j := range fs {
			dup = dup || i != j && fs[i].name == fs[j].name
		}
		if !dup {
			out = append(out, fs[i])
		}
	}
	return out
}

func findJSON(fs []jfield, name string) *jfield {
	for i := range fs {
		if fs[i].name == name {
			return &fs[i]
		}
	}
	for i := range fs {
		if strings.EqualFold(fs[i].name, name) {
			return &fs[i]
		}
	}
	return nil
}

// notEmpty: the value is written even with omitempty
func (x *Exec) notEmpty(v Val, t types.Type) *Term {
	tb := x.tb
	switch a := v.(type) {
	case *Term:
		if isTime(t) {
			return tb.True
		}
		return tb.Not(tb.Eq(a, x.zeroTerm(a.sort)))
	case InPtr:
		return tb.Not(a.nl)
	case InSlice:
		return tb.Not(tb.Eq(a.ln, tb.Zero))
	case StructV:
		return tb.True
	}
	panic(unsupported("omitempty on %T", v))
}

// ---------- moving values ----------

// scalarInto stores a scalar document value at a location of type dt.
func (c *jctx) scalarInto(v Val, t types.Type, loc *Loc, dt types.Type, pres *Term) {
	x, tb := c.x, c.x.tb
	if timeLike(t) && timeLike(dt) {
		for !isTime(dt) {
			dt = under(dt).(*types.Struct).Field(0).Type()
			loc = loc.add(Step{k: sField})
		}
		for !isTime(t) {
			t = under(t).(*types.Struct).Field(0).Type()
			v = v.(StructV).fs[0]
		}
		x.set(c.st, loc, tb.Ite(pres, v.(*Term), x.get(c.st, loc).(*Term)))
		return
	}
	sb, ok1 := under(t).(*types.Basic)
	db, ok2 := under(dt).(*types.Basic)
	if !ok1 || !ok2 {
		panic(unsupported("unmarshalling of %s into %s", t, dt))
	}
	n := v.(*Term)
	if sb.Kind() != db.Kind() {
		if sb.Info()&types.IsInteger == 0 || db.Info()&types.IsInteger == 0 {
			panic(unsupported("unmarshalling of %s into %s", t, dt))
		}
		w := x.convInt(c.st, n, t, dt)
		if back := x.convInt(c.st, w, dt, t); back != n && !x.implied(c.st, tb.Eq(back, n)) || isSigned(t) != isSigned(dt) {
			panic(unsupported("unmarshalling of %s into %s", t, dt))
		}
		n = w
	}
	x.set(c.st, loc, tb.Ite(pres, n, x.get(c.st, loc).(*Term)))
}

// zeroAt: the location holds a zero value
func (x *Exec) zeroAt(st *State, loc *Loc) bool {
	switch a := x.get(st, loc).(type) {
	case PtrV:
		return a.nl == x.tb.True
	case InPtr:
		return a.nl == x.tb.True
	case SliceV:
		return a.nl == x.tb.True
	case InSlice:
		return a.nl == x.tb.True
	case IfaceV:
		return a.typ == nil
	}
	return false
}

// jsonInto unmarshals a document into a location.
func (c *jctx) jsonInto(d *doc, loc *Loc, dt types.Type) {
	if c.err != nil {
		return
	}
	x, tb := c.x, c.x.tb
	if isRaw(dt) {
		s := x.bytesOfStr(c.st, d.str)
		x.set(c.st, loc, s)
		return
	}
	if m := x.ownMethod(types.NewPointer(dt), "UnmarshalJSON"); m != nil {
		r := c.call(m, PtrV{tb.False, loc}, x.bytesOfStr(c.st, d.str))
		c.failed(r[0])
		return
	}
	switch d.kind {
	case "null":
		switch under(dt).(type) {
		case *types.Pointer, *types.Slice, *types.Interface:
			x.set(c.st, loc, x.zero(dt))
		}
		return
	case "val":
		c.jsonVal(d.v, d.typ, tb.True, loc, dt)
		return
	}
	if p, ok := under(dt).(*types.Pointer); ok {
		if !x.zeroAt(c.st, loc) {
			panic(unsupported("unmarshalling into a pointer that is set"))
		}
		n := x.alloc(c.st, p.Elem(), x.zero(p.Elem()), "json")
		c.jsonInto(d, n, p.Elem())
		x.set(c.st, loc, PtrV{tb.False, n})
		return
	}
	if d.kind == "map" {
		if _, ok := under(dt).(*types.Struct); !ok {
			panic(unsupported("unmarshalling of an object into %s", dt))
		}
		fs := x.jsonFields(dt)
		for i, k := range d.keys {
			if f := findJSON(fs, k); f != nil {
				c.jsonInto(d.subs[i], loc.add(Step{k: sField, n: f.i}), f.t)
			}
		}
		return
	}
	// arr
	sl, ok := under(dt).(*types.Slice)
	if !ok || !isRaw(sl.Elem()) {
		panic(unsupported("unmarshalling of a list into %s", dt))
	}
	cont := x.zeroContent(sl.Elem()).(Content)
	for i, s := range d.subs {
		b := x.bytesOfStr(c.st, s.str)
		cont = x.contentStore(c.st, cont, tb.Int(int64(i)), b, sl.Elem())
	}
	x.set(c.st, loc, InSlice{tb.False, tb.Int(int64(len(d.subs))), cont})
}

// jsonVal moves an owned value of type t, present if pres, to a location.
func (c *jctx) jsonVal(v Val, t types.Type, pres *Term, loc *Loc, dt types.Type) {
	if c.err != nil {
		return
	}
	x, tb := c.x, c.x.tb
	if isRaw(t) || isRaw(dt) {
		panic(unsupported("raw message inside a value"))
	}
	if x.ownMethod(types.NewPointer(dt), "UnmarshalJSON") != nil || x.ownMethod(types.NewPointer(t), "MarshalJSON") != nil {
		panic(unsupported("(Un)MarshalJSON of %s inside a value", t))
	}
	mt, ut := x.ownMethod(t, "MarshalText"), x.ownMethod(types.NewPointer(dt), "UnmarshalText")
	if mt != nil || ut != nil {
		c.text(mt, ut, v, t, pres, loc, dt)
		return
	}
	if isByteSlice(t) && isByteSlice(dt) {
		c.sliceInto(v, t, pres, loc, dt, false)
		return
	}
	if p, ok := under(t).(*types.Pointer); ok {
		a := v.(InPtr)
		if q, ok := under(dt).(*types.Pointer); ok {
			if !x.zeroAt(c.st, loc) {
				panic(unsupported("unmarshalling into a pointer that is set"))
			}
			n := x.alloc(c.st, q.Elem(), x.zero(q.Elem()), "json")
			c.jsonVal(a.v, p.Elem(), tb.True, n, q.Elem())
			x.set(c.st, loc, PtrV{tb.Or(a.nl, tb.Not(pres)), n})
			return
		}
		// null leaves a plain destination alone
		c.jsonVal(a.v, p.Elem(), tb.And(pres, tb.Not(a.nl)), loc, dt)
		return
	}
	if q, ok := under(dt).(*types.Pointer); ok {
		if !x.zeroAt(c.st, loc) {
			panic(unsupported("unmarshalling into a pointer that is set"))
		}
		n := x.alloc(c.st, q.Elem(), x.zero(q.Elem()), "json")
		c.jsonVal(v, t, tb.True, n, q.Elem())
		x.set(c.st, loc, PtrV{tb.Not(pres), n})
		return
	}
	if timeLike(t) {
		c.scalarInto(v, t, loc, dt, pres)
		return
	}
	switch under(t).(type) {
	case *types.Struct:
		if _, ok := under(dt).(*types.Struct); !ok {
			panic(unsupported("unmarshalling of %s into %s", t, dt))
		}
		fs, gs := x.jsonFields(t), x.jsonFields(dt)
		for _, f := range fs {
			g := findJSON(gs, f.name)
			if g == nil {
				continue
			}
			fv := v.(StructV).fs[f.i]
			p := pres
			if f.omitempty {
				p = tb.And(p, x.notEmpty(fv, f.t))
			}
			c.jsonVal(fv, f.t, p, loc.add(Step{k: sField, n: g.i}), g.t)
		}
	case *types.Slice:
		c.sliceInto(v, t, pres, loc, dt, true)
	case *types.Basic:
		c.scalarInto(v, t, loc, dt, pres)
	default:
		panic(unsupported("unmarshalling of %s", t))
	}
}

// text: a value that is written and read by methods of its own
func (c *jctx) text(mt, ut *ssa.Function, v Val, t types.Type, pres *Term, loc *Loc, dt types.Type) {
	x := c.x
	var s *Term
	if mt != nil {
		l := x.alloc(c.st, t, v, "text")
		r := c.call(mt, x.load(c.st, l))
		if c.failed(r[1]) {
			return
		}
		s = x.strOf(c.st, r[0])
	} else if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s = v.(*Term)
	} else {
		panic(unsupported("text form of %s", t))
	}
	if pres != x.tb.True {
		// an omitted value is a zero one, and so is the destination
		if !x.zeroAt(c.st, loc) {
			panic(unsupported("omitted text into a value that is set"))
		}
	}
	if ut == nil {
		c.scalarInto(s, types.Typ[types.String], loc, dt, pres)
		return
	}
	r := c.call(ut, PtrV{x.tb.False, loc}, x.bytesOfStr(c.st, s))
	c.failed(r[0])
}

// sliceInto moves a list.
func (c *jctx) sliceInto(v Val, t types.Type, pres *Term, loc *Loc, dt types.Type, structs bool) {
	x, tb := c.x, c.x.tb
	if !types.Identical(under(t), under(dt)) {
		panic(unsupported("unmarshalling of %s into %s", t, dt))
	}
	if !x.zeroAt(c.st, loc) {
		panic(unsupported("unmarshalling into a list that is set"))
	}
	a := v.(InSlice)
	cont := a.c
	if structs {
		el := under(t).(*types.Slice).Elem()
		cont = Content{c.elems(a.c.(Content).lv, el)}
	}
	x.set(c.st, loc, InSlice{tb.Or(a.nl, tb.Not(pres)), tb.Ite(pres, a.ln, tb.Zero), cont})
}

func (x *Exec) zeroElems(t types.Type) Val {
	return x.build(t, "", func(n string, s *Sort) *Term { return x.zeroLeaf(n, ArrOf(s)) })
}

// elems: list elements (leaves are arrays) after the round trip. The
// destination elements are zero, so that what omitempty leaves out comes back
// as it was.
func (c *jctx) elems(v Val, t types.Type) Val {
	x := c.x
	if x.customJSON(t) {
		panic(unsupported("text form of %s in a list", t))
	}
	if timeLike(t) {
		return v
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return v
	case *types.Pointer:
		a := v.(InPtr)
		return InPtr{a.nl, c.elems(a.v, u.Elem())}
	case *types.Slice:
		a := v.(InSlice)
		if isByteSlice(t) {
			return v
		}
		return InSlice{a.nl, a.ln, Content{c.elems(a.c.(Content).lv, u.Elem())}}
	case *types.Struct:
		z := x.zeroElems(t).(StructV)
		fs := append([]Val{}, z.fs...)
		for _, f := range x.jsonFields(t) {
			fs[f.i] = c.elems(v.(StructV).fs[f.i], f.t)
		}
		return StructV{fs}
	}
	panic(unsupported("list element of type %s", t))
}

// ---------- texts of unknown origin ----------

func scalarsOnly(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := under(s.Field(i).Type()).(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// opaqueInto unmarshals an unknown text: the new value is some function of the
// text and of the old value.
func (x *Exec) opaqueInto(st *State, name string, key []*Term, loc *Loc, t types.Type) *Term {
	old := x.snapshot(st, x.get(st, loc), t)
	if s, ok := under(t).(*types.Struct); ok && name == "json" && scalarsOnly(s) {
		// what each name stands for does not depend on the structure it is read into
		var names []string
		for _, f := range x.jsonFields(t) {
			n := "json." + f.name + ":" + x.typeName(f.t)
			names = append(names, n)
			l := loc.add(Step{k: sField, n: f.i})
			a := append(append([]*Term{}, key...), leavesOf(old.(StructV).fs[f.i])...)
			x.set(st, l, x.build(f.t, n, func(nm string, s *Sort) *Term { return x.tb.UF(nm, s, a...) }))
		}
		sort.Strings(names)
		return x.tb.UF("json{"+strings.Join(names, ",")+"}.err", IntS, key...)
	}
	args := append(append([]*Term{}, key...), leavesOf(old)...)
	n := name + ":" + x.typeName(t)
	v := x.build(t, n, func(nm string, s *Sort) *Term { return x.tb.UF(nm, s, args...) })
	x.set(st, loc, v)
	return x.tb.UF(n+".err", IntS, args...)
}

// target resolves the destination of an Unmarshal call.
func (x *Exec) target(st *State, v Val) (*Loc, types.Type) {
	a, ok := v.(IfaceV)
	if !ok || a.typ == nil {
		panic(unsupported("unmarshalling into %T", v))
	}
	p, ok := under(a.typ).(*types.Pointer)
	if !ok {
		panic(unsupported("unmarshalling into a %s", a.typ))
	}
	q, ok := a.v.(PtrV)
	if !ok || q.loc == nil || !x.implied(st, x.tb.Not(q.nl)) {
		panic(unsupported("unmarshalling into a pointer that may be nil"))
	}
	return q.loc, p.Elem()
}

func (x *Exec) jsonUnmarshal(st *State, b, dst Val, in ssa.Instruction, depth int) []Outcome {
	tb := x.tb
	s := x.strOf(st, b)
	loc, t := x.target(st, dst)
	d := x.docs[s]
	var null *Term
	if _, ok := under(t).(*types.Interface); ok && !isErrorT(t) {
		iv, ok := x.get(st, loc).(IfaceV)
		if !ok || iv.typ == nil {
			panic(unsupported("unmarshalling into an interface"))
		}
		if d != nil && d.kind == "null" {
			x.set(st, loc, IfaceV{})
			return one(st, x.errNil())
		}
		if d == nil {
			null = tb.UF("json:isnull", BoolS, s)
		}
		il := loc
		loc, t = x.target(st, iv)
		if null != nil {
			return x.fork(st, null, func(st *State) []Outcome {
				x.set(st, il, IfaceV{})
				return one(st, x.errNil())
			}, func(st *State) []Outcome {
				return x.jsonUnmarshalAt(st, d, s, loc, t, in, depth)
			})
		}
	}
	return x.jsonUnmarshalAt(st, d, s, loc, t, in, depth)
}

func (x *Exec) jsonUnmarshalAt(st *State, d *doc, s *Term, loc *Loc, t types.Type, in ssa.Instruction, depth int) []Outcome {
	if d == nil {
		if m := x.ownMethod(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			// the text is checked first, and handed over without the white space around it
			return x.fork(st, x.tb.UF("json:valid", BoolS, s), func(st *State) []Outcome {
				return x.callFn(st, m, []Val{PtrV{x.tb.False, loc}, x.bytesOfStr(st, x.tb.UF("json:trim", StrS, s))}, nil, depth+1, in)
			}, func(st *State) []Outcome { return one(st, x.errOther()) })
		}
		return one(st, ErrV{x.opaqueInto(st, "json", []*Term{s}, loc, t)})
	}
	c := &jctx{x: x, st: st, d: depth, in: in}
	c.jsonInto(d, loc, t)
	if c.err != nil {
		return one(c.st, ErrV{c.err})
	}
	return one(c.st, x.errNil())
}

func init() {
	intrinsics["encoding/json.Marshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		c := &jctx{x: x, st: st, d: d, in: in}
		dc := c.jsonDoc(a[0], nil)
		if dc == nil {
			return one(c.st, x.zero(types.NewSlice(types.Typ[types.Uint8])), ErrV{c.err})
		}
		return one(c.st, x.bytesOfStr(c.st, dc.str), x.errNil())
	}
	intrinsics["encoding/json.Unmarshal"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		return x.jsonUnmarshal(st, a[0], a[1], in, d)
	}
}

var _ = token.NoPos
