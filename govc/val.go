package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an immutable symbolic Go value. Scalars, strings and time values are
// bare *Term.
type Val interface{}

type (
	StructV struct{ fs []Val }
	ArrayV  struct{ es []Val }
	// PtrV is a pointer to a heap location.
	PtrV struct {
		nl  *Term
		loc *Loc
	}
	// InPtr is a pointer that owns its pointee, stored inline.
	InPtr struct {
		nl *Term
		v  Val
	}
	// SliceV is a slice header over content stored at loc.
	SliceV struct {
		nl          *Term
		loc         *Loc
		off, ln, cp *Term
	}
	// InSlice is a slice that owns its content, stored inline.
	InSlice struct {
		nl, ln *Term
		c      Val
	}
	TapeV   struct{ t *Term }
	Content struct{ lv Val } // leaves are arrays indexed by element number
	IfaceV  struct {
		typ types.Type // nil: nil interface
		v   Val
	}
	IfaceS struct{ id *Term }
	ErrV   struct{ code *Term }
	FuncV  struct {
		fn   *ssa.Function
		bind []Val
	}
	TupleV  []Val
	OpaqueV struct{ name string }
	MapV    struct{ keys, vals []Val } // literal-key map under construction (MarshalJSON)
)

type stepKind int

const (
	sField stepKind = iota
	sDeref
	sElems
	sIndex
)

type Step struct {
	k   stepKind
	n   int
	idx *Term
}
type Loc struct {
	obj  int
	path []Step
	ver  int
}

func (l *Loc) add(s Step) *Loc {
	p := make([]Step, len(l.path)+1)
	copy(p, l.path)
	p[len(l.path)] = s
	return &Loc{obj: l.obj, path: p, ver: l.ver}
}
func sameLoc(a, b *Loc) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

type Obj struct {
	id    int
	typ   types.Type
	v     Val
	name  string
	pre   bool // existed before the function under verification ran
	glob  bool
	kills []kill
	moved bool
}
type kill struct {
	path []Step
	ver  int
}

// ---------- types ----------

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}
func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }
func isErrorT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

const iobitPath = "github.com/bamiaux/iobit"

func isReader(t types.Type) bool  { return isNamed(t, iobitPath, "Reader") }
func isWriter(t types.Type) bool  { return isNamed(t, iobitPath, "Writer") }
func isBuilder(t types.Type) bool { return isNamed(t, "strings", "Builder") }
func isSpecRd(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "vrd"
}
func isSpecWr(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "vwr"
}

// modelled struct types and their model fields
var readerF = []string{"src", "pos"}

func (x *Exec) scalarSort(t types.Type) *Sort {
	if isTime(t) {
		return IntS
	}
	bt, ok := under(t).(*types.Basic)
	if !ok {
		return nil
	}
	switch bt.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS
	case types.String, types.UntypedString:
		return StrS
	case types.Int, types.Int64, types.Uint, types.Uintptr, types.UntypedInt, types.UntypedRune:
		return IntS
	case types.Int8:
		return BV(8)
	case types.Uint8:
		return BV(8)
	case types.Int16, types.Uint16:
		return BV(16)
	case types.Int32:
		return BV(32)
	case types.Uint32:
		if x.intmode {
			return IntS
		}
		return BV(32)
	case types.Uint64:
		if x.intmode {
			return IntS
		}
		return BV(64)
	case types.Float32, types.Float64, types.UntypedFloat:
		return IdS
	}
	return nil
}
func isSigned(t types.Type) bool {
	bt, ok := under(t).(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUnsigned == 0
}
func intWidth(t types.Type) int {
	bt := under(t).(*types.Basic)
	switch bt.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// leafFn makes the term for one leaf of a value under construction.
type leafFn func(name string, s *Sort) *Term

// build makes an owned value of type t from a leaf factory.
func (x *Exec) build(t types.Type, name string, f leafFn) Val {
	if isErrorT(t) {
		return ErrV{f(name+".err", IntS)}
	}
	if isReader(t) {
		return StructV{[]Val{InSlice{f(name+".srcnil", BoolS), f(name+".src.len", IntS), TapeV{f(name+".src", TapeS)}}, f(name+".pos.len", IntS)}}
	}
	if isWriter(t) {
		panic(unsupported("symbolic iobit.Writer"))
	}
	if isBuilder(t) {
		return StructV{[]Val{f(name+".str", StrS)}}
	}
	if isSpecRd(t) {
		return StructV{[]Val{InSlice{f(name+".srcnil", BoolS), f(name+".src.len", IntS), TapeV{f(name+".src", TapeS)}}, f(name+".pos.len", IntS)}}
	}
	if isSpecWr(t) {
		return StructV{[]Val{TapeV{f(name+".out", TapeS)}, f(name+".pos.len", IntS)}}
	}
	if isTime(t) {
		return f(name+".time", IntS)
	}
	if s := x.scalarSort(t); s != nil {
		if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 && s == IntS {
			name += ".u.len"
		}
		return f(name, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = x.build(u.Field(i).Type(), name+"."+u.Field(i).Name(), f)
		}
		return StructV{fs}
	case *types.Array:
		if u.Len() > 300 {
			panic(unsupported("array of %d elements", u.Len()))
		}
		es := make([]Val, u.Len())
		for i := range es {
			es[i] = x.build(u.Elem(), fmt.Sprintf("%s[%d]", name, i), f)
		}
		return ArrayV{es}
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
			p := n.Obj().Pkg().Path()
			if p != x.P.pkg.Pkg.Path() && !isTime(n) && !isReader(n) && !isBuilder(n) {
				return OpaqueV{name}
			}
		}
		return InPtr{f(name+".nil", BoolS), x.build(u.Elem(), name+".*", f)}
	case *types.Slice:
		return InSlice{f(name+".nil", BoolS), f(name+".len", IntS), x.buildContent(u.Elem(), name, f)}
	case *types.Interface:
		return IfaceS{f(name, IdS)}
	case *types.Signature, *types.Map, *types.Chan:
		return OpaqueV{name}
	}
	panic(unsupported("value of type %s", t))
}
func (x *Exec) buildContent(elem types.Type, name string, f leafFn) Val {
	if isByte(elem) {
		return TapeV{f(name+".bytes", TapeS)}
	}
	return Content{x.build(elem, name+"[]", func(n string, s *Sort) *Term { return f(n, ArrOf(s)) })}
}

func (x *Exec) fresh(t types.Type, name string) Val {
	return x.build(t, name, func(n string, s *Sort) *Term { return x.tb.Sym(n, s) })
}

func (x *Exec) zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return x.tb.False
	case SInt:
		return x.tb.Zero
	case SBV:
		return x.tb.BVc(s.W, 0)
	case SStr:
		return x.tb.StrLit("")
	case STape:
		return x.tb.TZero()
	case SId:
		return x.nilId()
	case SArr:
		return x.tb.ConstArr(x.zeroTerm(s.Elem))
	}
	panic("zeroTerm")
}
func (x *Exec) nilId() *Term { return x.tb.UF("mk:nil", IdS) }

// timeZero is the Unix time of the zero time.Time
const timeZero = -62135596800

// zero value of a type, in referencing form.
func (x *Exec) zero(t types.Type) Val {
	tb := x.tb
	if isErrorT(t) {
		return ErrV{tb.Zero}
	}
	if isTime(t) {
		return tb.Int(timeZero)
	}
	if isReader(t) || isSpecRd(t) {
		return StructV{[]Val{SliceV{tb.True, nil, tb.Zero, tb.Zero, tb.Zero}, tb.Zero}}
	}
	if isWriter(t) {
		return StructV{[]Val{SliceV{tb.True, nil, tb.Zero, tb.Zero, tb.Zero}, tb.Zero, TapeV{tb.TZero()}, tb.True}}
	}
	if isSpecWr(t) {
		return StructV{[]Val{TapeV{tb.TZero()}, tb.Zero}}
	}
	if isBuilder(t) {
		return StructV{[]Val{tb.StrLit("")}}
	}
	if s := x.scalarSort(t); s != nil {
		if s == IdS {
			return tb.UF("f:0", IdS)
		}
		return x.zeroTerm(s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = x.zero(u.Field(i).Type())
		}
		return StructV{fs}
	case *types.Array:
		if isByte(u.Elem()) {
			return TapeV{tb.TZero()}
		}
		es := make([]Val, u.Len())
		if len(es) > 0 {
			z := x.zero(u.Elem())
			for i := range es {
				es[i] = z
			}
		}
		return ArrayV{es}
	case *types.Pointer:
		return PtrV{tb.True, nil}
	case *types.Slice:
		return SliceV{tb.True, nil, tb.Zero, tb.Zero, tb.Zero}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature, *types.Map, *types.Chan:
		return OpaqueV{"nil"}
	}
	panic(unsupported("zero value of type %s", t))
}

// zeroLeaf is the zero of one leaf, by its marker name and sort.
func (x *Exec) zeroLeaf(n string, s *Sort) *Term {
	if strings.HasSuffix(n, ".nil") {
		return x.constOf(s, x.tb.True)
	}
	if strings.HasSuffix(n, ".time") {
		return x.constOf(s, x.tb.Int(timeZero))
	}
	return x.zeroTerm(s)
}
func (x *Exec) constOf(s *Sort, t *Term) *Term {
	if s.K == SArr {
		return x.tb.ConstArr(x.constOf(s.Elem, t))
	}
	return t
}

// buildZ: the zero value in owned form
func (x *Exec) buildZ(t types.Type) Val { return x.build(t, "", x.zeroLeaf) }

// ---------- tree helpers ----------

func mapLeaves(v Val, f func(*Term) *Term) Val {
	switch a := v.(type) {
	case *Term:
		return f(a)
	case StructV:
		fs := make([]Val, len(a.fs))
		for i := range fs {
			fs[i] = mapLeaves(a.fs[i], f)
		}
		return StructV{fs}
	case ArrayV:
		es := make([]Val, len(a.es))
		for i := range es {
			es[i] = mapLeaves(a.es[i], f)
		}
		return ArrayV{es}
	case InPtr:
		return InPtr{f(a.nl), mapLeaves(a.v, f)}
	case InSlice:
		return InSlice{f(a.nl), f(a.ln), mapLeaves(a.c, f)}
	case TapeV:
		return TapeV{f(a.t)}
	case Content:
		return Content{mapLeaves(a.lv, f)}
	case IfaceS:
		return IfaceS{f(a.id)}
	case ErrV:
		return ErrV{f(a.code)}
	case OpaqueV, FuncV, nil:
		return v
	case IfaceV:
		if a.typ == nil {
			return v
		}
	}
	panic(unsupported("mapLeaves on %T", v))
}

func eachLeaf(v Val, f func(*Term)) {
	mapLeaves(v, func(t *Term) *Term { f(t); return t })
}

func zipLeaves(a, b Val, f func(x, y *Term) *Term) Val {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			break
		}
		return f(p, q)
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.fs) != len(q.fs) {
			break
		}
		fs := make([]Val, len(p.fs))
		for i := range fs {
			fs[i] = zipLeaves(p.fs[i], q.fs[i], f)
		}
		return StructV{fs}
	case ArrayV:
		q, ok := b.(ArrayV)
		if !ok || len(p.es) != len(q.es) {
			break
		}
		es := make([]Val, len(p.es))
		for i := range es {
			es[i] = zipLeaves(p.es[i], q.es[i], f)
		}
		return ArrayV{es}
	case InPtr:
		q, ok := b.(InPtr)
		if !ok {
			break
		}
		return InPtr{f(p.nl, q.nl), zipLeaves(p.v, q.v, f)}
	case InSlice:
		q, ok := b.(InSlice)
		if !ok {
			break
		}
		return InSlice{f(p.nl, q.nl), f(p.ln, q.ln), zipLeaves(p.c, q.c, f)}
	case TapeV:
		q, ok := b.(TapeV)
		if !ok {
			break
		}
		return TapeV{f(p.t, q.t)}
	case Content:
		q, ok := b.(Content)
		if !ok {
			break
		}
		return Content{zipLeaves(p.lv, q.lv, f)}
	case IfaceS:
		q, ok := b.(IfaceS)
		if !ok {
			break
		}
		return IfaceS{f(p.id, q.id)}
	case ErrV:
		q, ok := b.(ErrV)
		if !ok {
			break
		}
		return ErrV{f(p.code, q.code)}
	case OpaqueV, FuncV, nil:
		return a
	}
	panic(unsupported("zipLeaves on %T / %T", a, b))
}

// ---------- freezing ----------

// freeze turns a value into owned form: every pointer and slice is replaced by
// an inline copy of what it refers to.
func (x *Exec) freeze(st *State, v Val, t types.Type) Val {
	tb := x.tb
	if isReader(t) || isSpecRd(t) {
		s := v.(StructV)
		return StructV{[]Val{x.freezeSlice(st, s.fs[0], types.NewSlice(types.Typ[types.Uint8])), s.fs[1]}}
	}
	if isWriter(t) {
		panic(unsupported("copy of iobit.Writer"))
	}
	switch a := v.(type) {
	case *Term, ErrV, OpaqueV, FuncV, IfaceS, TapeV:
		return v
	case StructV:
		su, ok := under(t).(*types.Struct)
		if !ok || su.NumFields() != len(a.fs) || isBuilder(t) || isSpecWr(t) {
			return v
		}
		fs := make([]Val, len(a.fs))
		for i := range fs {
			fs[i] = x.freeze(st, a.fs[i], su.Field(i).Type())
		}
		return StructV{fs}
	case ArrayV:
		el := under(t).(*types.Array).Elem()
		es := make([]Val, len(a.es))
		for i := range es {
			es[i] = x.freeze(st, a.es[i], el)
		}
		return ArrayV{es}
	case InPtr:
		return InPtr{a.nl, x.freeze(st, a.v, under(t).(*types.Pointer).Elem())}
	case PtrV:
		el := under(t).(*types.Pointer).Elem()
		if a.loc == nil {
			if _, ok := x.ptrShape(t).(OpaqueV); ok {
				return OpaqueV{"nil"}
			}
			return InPtr{tb.True, x.buildZ(el)}
		}
		pv := x.get(st, a.loc)
		x.markMoved(st, a.loc.obj)
		return InPtr{a.nl, x.freeze(st, pv, el)}
	case InSlice, SliceV:
		return x.freezeSlice(st, v, t)
	case IfaceV:
		if isErrorT(t) {
			panic(unsupported("error iface"))
		}
		return IfaceS{x.ifaceId(st, a)}
	}
	panic(unsupported("freeze of %T", v))
}
func (x *Exec) ptrShape(t types.Type) Val {
	return x.build(t, "", func(n string, s *Sort) *Term { return x.tb.True })
}

func (x *Exec) freezeSlice(st *State, v Val, t types.Type) Val {
	tb := x.tb
	el := under(t).(*types.Slice).Elem()
	switch a := v.(type) {
	case InSlice:
		c := a.c
		if cc, ok := c.(Content); ok {
			c = x.freezeContent(st, cc, el)
		}
		return InSlice{a.nl, a.ln, c}
	case SliceV:
		if a.loc == nil {
			return InSlice{a.nl, tb.Zero, x.zeroContent(el)}
		}
		c := x.get(st, a.loc)
		x.markMoved(st, a.loc.obj)
		switch cc := c.(type) {
		case TapeV:
			t, off := tb.Sub8(cc.t, a.off, a.ln)
			if off == tb.Zero {
				// the exact prefix of a tape
				return InSlice{a.nl, a.ln, TapeV{t}}
			}
			return InSlice{a.nl, a.ln, TapeV{x.copyRaw(t, off, a.ln)}}
		case Content:
			if a.off != tb.Zero {
				panic(unsupported("sub-slice of structures stored away"))
			}
			return InSlice{a.nl, a.ln, x.freezeContent(st, cc, el)}
		case ArrayV:
			if !a.off.isInt() {
				panic(unsupported("symbolic array window"))
			}
			return InSlice{a.nl, a.ln, x.arrayToContent(st, cc, int(a.off.iv.Int64()), el)}
		}
		panic(unsupported("freezeSlice content %T", c))
	}
	panic(unsupported("freezeSlice of %T", v))
}

// copyRaw: a fresh tape holding n bytes of t from byte off at position 0
func (x *Exec) copyRaw(t, off, n *Term) *Term {
	return x.tb.mk(&Term{op: "copy", sort: TapeS, args: []*Term{x.tb.TZero(), x.tb.Zero, t, off, n}})
}
func (x *Exec) freezeContent(st *State, c Content, el types.Type) Val { return c }
func (x *Exec) zeroContent(el types.Type) Val {
	return x.buildContent(el, "", x.zeroLeaf)
}
func (x *Exec) arrayToContent(st *State, a ArrayV, off int, el types.Type) Val {
	tb := x.tb
	if isByte(el) {
		t := tb.TZero()
		for i := off; i < len(a.es); i++ {
			t = tb.Put(t, tb.Int(int64(8*(i-off))), a.es[i].(*Term))
		}
		return TapeV{t}
	}
	c := x.zeroContent(el).(Content)
	for i := off; i < len(a.es); i++ {
		c = x.contentStore(st, c, tb.Int(int64(i-off)), a.es[i], el)
	}
	return c
}
func (x *Exec) contentStore(st *State, c Content, i *Term, v Val, el types.Type) Content {
	om := x.moving
	x.moving = true
	ov := x.freeze(st, v, el)
	x.moving = om
	return Content{zipLeaves(c.lv, ov, func(a, e *Term) *Term { return x.tb.Store(a, i, e) })}
}
func (x *Exec) contentLoad(c Content, i *Term) Val {
	return mapLeaves(c.lv, func(a *Term) *Term { return x.tb.Select(a, i) })
}

// ifaceId is the identity term of an interface value: an injective constructor
// applied to every leaf of the value it holds.
func (x *Exec) ifaceId(st *State, v Val) *Term {
	switch a := v.(type) {
	case IfaceS:
		return a.id
	case IfaceV:
		if a.typ == nil {
			return x.nilId()
		}
		ov := x.freeze(st, a.v, a.typ)
		var args []*Term
		n := x.typeName(a.typ)
		if p, ok := ov.(InPtr); ok {
			// non-nil pointer: the pointee identifies the value
			if p.nl == x.tb.False {
				args = x.flatten(p.v, under(a.typ).(*types.Pointer).Elem())
				return x.tb.UF("mk:"+n, IdS, args...)
			}
		}
		args = x.flatten(ov, a.typ)
		return x.tb.UF("mk:"+n, IdS, args...)
	}
	panic(unsupported("ifaceId of %T", v))
}

func (x *Exec) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == x.P.pkg.Pkg {
			return ""
		}
		return p.Path()
	})
}

// flatten lists the leaves of an owned value. JSONType fields are caches and
// are left out.
func (x *Exec) flatten(v Val, t types.Type) []*Term {
	var out []*Term
	x.walkLeaves(v, t, "", func(n string, l *Term) { out = append(out, l) })
	return out
}

type namedLeaf struct {
	name string
	t    *Term
}

func (x *Exec) flattenN(v Val, t types.Type) []namedLeaf {
	var out []namedLeaf
	x.walkLeaves(v, t, "", func(n string, l *Term) { out = append(out, namedLeaf{n, l}) })
	return out
}

func skipField(f *types.Var) bool { return f.Name() == "JSONType" }

func (x *Exec) walkLeaves(v Val, t types.Type, name string, f func(string, *Term)) {
	switch a := v.(type) {
	case *Term:
		f(name, a)
	case ErrV:
		f(name+".err", a.code)
	case IfaceS:
		f(name, a.id)
	case IfaceV:
		if a.typ == nil {
			f(name, x.nilId())
			return
		}
		panic(unsupported("walkLeaves of interface"))
	case TapeV:
		f(name+".bytes", a.t)
	case OpaqueV, FuncV, nil:
	case StructV:
		su, ok := under(t).(*types.Struct)
		if !ok || su.NumFields() != len(a.fs) || isReader(t) || isSpecRd(t) || isSpecWr(t) || isBuilder(t) {
			for i, q := range a.fs {
				var ft types.Type
				if i == 0 && !isBuilder(t) && !isSpecWr(t) {
					ft = types.NewSlice(types.Typ[types.Uint8])
				}
				x.walkLeaves(q, ft, fmt.Sprintf("%s.%d", name, i), f)
			}
			return
		}
		for i, q := range a.fs {
			if skipField(su.Field(i)) {
				continue
			}
			x.walkLeaves(q, su.Field(i).Type(), name+"."+su.Field(i).Name(), f)
		}
	case ArrayV:
		for i, q := range a.es {
			x.walkLeaves(q, under(t).(*types.Array).Elem(), fmt.Sprintf("%s[%d]", name, i), f)
		}
	case InPtr:
		f(name+".nil", a.nl)
		x.walkLeaves(a.v, under(t).(*types.Pointer).Elem(), name+".*", f)
	case InSlice:
		f(name+".nil", a.nl)
		f(name+".len", a.ln)
		x.walkLeaves(a.c, t, name, f)
	case Content:
		x.walkLeaves(a.lv, under(t).(*types.Slice).Elem(), name+"[]", f)
	default:
		panic(unsupported("walkLeaves of %T", v))
	}
}

// leafName strips positions for obligation labels
func cleanName(n string) string {
	return strings.ReplaceAll(strings.TrimPrefix(n, "."), ".*", "")
}
