package main

import (
	"math/big"

	"go/types"
)

// Equality proofs.

type seg struct {
	pos *Term
	v   *Term // put
	a   *Term // copy source
	off *Term
	n   *Term
}

func (x *Exec) segs(t *Term) (*Term, []seg) {
	var out []seg
	for {
		if t.op == "put" {
			out = append(out, seg{pos: t.args[1], v: t.args[2]})
			t = t.args[0]
			continue
		}
		if t.op == "copy" {
			out = append(out, seg{pos: t.args[1], a: t.args[2], off: t.args[3], n: t.args[4]})
			t = t.args[0]
			continue
		}
		break
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return t, out
}
func (x *Exec) segEnd(s seg) *Term {
	if s.v != nil {
		return x.tb.AddC(s.pos, int64(s.v.sort.W))
	}
	return x.tb.Add(s.pos, x.tb.MulC(s.n, 8))
}

// expand: a copy of a whole put-chain is replaced by its segments.
func (x *Exec) expand(st *State, ss []seg, lvl int) []seg {
	tb := x.tb
	var out []seg
	for _, s := range ss {
		if s.v != nil || lvl > 6 {
			out = append(out, s)
			continue
		}
		if x.dec3(st, tb.Eq(s.n, tb.Zero)) == 1 {
			continue
		}
		_, in := x.segs(s.a)
		if len(in) == 0 || s.off != tb.Zero {
			out = append(out, s)
			continue
		}
		in = x.expand(st, in, lvl+1)
		// in order, contiguous from 0 to at least n
		ok := true
		p := tb.Zero
		var use []seg
		for _, q := range in {
			if !x.implied(st, tb.Eq(q.pos, p)) {
				ok = false
				break
			}
			p = x.segEnd(q)
			q.pos = tb.Add(q.pos, s.pos)
			use = append(use, q)
		}
		if ok && x.implied(st, tb.Eq(p, tb.MulC(s.n, 8))) {
			out = append(out, use...)
			continue
		}
		out = append(out, s)
	}
	return out
}
func (x *Exec) dec3(st *State, t *Term) int {
	if t == x.tb.True {
		return 1
	}
	if t == x.tb.False {
		return -1
	}
	return x.decide(st, t)
}

// tapeEq: equality of two tapes; lim (in bits, may be nil) restricts it to a prefix.
func (x *Exec) tapeEq(st *State, a, b, lim *Term) bool {
	tb := x.tb
	if a == b {
		return true
	}
	ba, sa := x.segs(a)
	bb, sb := x.segs(b)
	sa, sb = x.expand(st, sa, 0), x.expand(st, sb, 0)
	if len(sa) > 0 || len(sb) > 0 {
		first, end, ok := x.segMatch(st, sa, sb)
		if ok {
			if ba == bb {
				return true
			}
			if lim != nil && first != nil && x.implied(st, tb.Le(first, tb.Zero)) && x.implied(st, tb.Le(lim, end)) {
				return true
			}
		}
	}
	if lim != nil {
		if x.implied(st, tb.Le(lim, tb.Zero)) {
			return true
		}
		// an arbitrary byte
		s2 := st.clone()
		i := tb.Sym("i", IntS)
		s2.assume(tb.ge0(i))
		s2.assume(tb.Lt(tb.MulC(i, 8), lim))
		oc := x.cur
		x.cur = s2
		defer func() { x.cur = oc }()
		va, vb := tb.Rd(a, tb.MulC(i, 8), 8), tb.Rd(b, tb.MulC(i, 8), 8)
		return x.implied(s2, tb.Eq(va, vb))
	}
	return false
}

func (x *Exec) segMatch(st *State, sa, sb []seg) (first, end *Term, ok bool) {
	tb := x.tb
	contiguous := true
	for len(sa) > 0 && len(sb) > 0 {
		p, q := sa[0], sb[0]
		if p.v == nil && x.dec3(st, tb.Eq(p.n, tb.Zero)) == 1 {
			sa = sa[1:]
			continue
		}
		if q.v == nil && x.dec3(st, tb.Eq(q.n, tb.Zero)) == 1 {
			sb = sb[1:]
			continue
		}
		if p.pos != q.pos && !x.implied(st, tb.Eq(p.pos, q.pos)) {
			return nil, nil, false
		}
		if first == nil {
			first = p.pos
		} else if contiguous && end != p.pos && !x.implied(st, tb.Eq(end, p.pos)) {
			return nil, nil, false // out of order: not handled here
		}
		switch {
		case p.v != nil && q.v != nil:
			wp, wq := p.v.sort.W, q.v.sort.W
			w := min(wp, wq)
			hp := tb.Extract(wp-1, wp-w, p.v)
			hq := tb.Extract(wq-1, wq-w, q.v)
			if !x.eqT(st, hp, hq) {
				return nil, nil, false
			}
			end = tb.AddC(p.pos, int64(w))
			sa, sb = sa[1:], sb[1:]
			if wp > w {
				sa = append([]seg{{pos: end, v: tb.Extract(wp-w-1, 0, p.v)}}, sa...)
			}
			if wq > w {
				sb = append([]seg{{pos: end, v: tb.Extract(wq-w-1, 0, q.v)}}, sb...)
			}
		case p.v == nil && q.v == nil:
			if p.n != q.n && !x.implied(st, tb.Eq(p.n, q.n)) {
				return nil, nil, false
			}
			if !x.rangeEq(st, p.a, p.off, q.a, q.off, p.n) {
				return nil, nil, false
			}
			end = x.segEnd(p)
			sa, sb = sa[1:], sb[1:]
		default:
			// a put against a copy: read the put's bits from the copy
			sw := p.v == nil
			if sw {
				p, q = q, p
			}
			w := p.v.sort.W
			if w%8 != 0 || !x.implied(st, tb.Le(tb.Int(int64(w)), tb.MulC(q.n, 8))) {
				return nil, nil, false
			}
			if !x.eqT(st, p.v, tb.Rd(q.a, tb.MulC(q.off, 8), w)) {
				return nil, nil, false
			}
			end = tb.AddC(p.pos, int64(w))
			rest := seg{pos: end, a: q.a, off: tb.AddC(q.off, int64(w/8)), n: tb.AddC(q.n, -int64(w/8))}
			sa, sb = sa[1:], sb[1:]
			if sw {
				sa = append([]seg{rest}, sa...)
			} else {
				sb = append([]seg{rest}, sb...)
			}
		}
	}
	for _, s := range append(append([]seg{}, sa...), sb...) {
		if s.v == nil && x.dec3(st, tb.Eq(s.n, tb.Zero)) == 1 {
			continue
		}
		return nil, nil, false
	}
	return first, end, true
}

// rangeEq: n bytes of a from oa equal n bytes of b from ob
func (x *Exec) rangeEq(st *State, a, oa, b, ob, n *Term) bool {
	tb := x.tb
	if a == b && (oa == ob || x.implied(st, tb.Eq(oa, ob))) {
		return true
	}
	if oa == tb.Zero && ob == tb.Zero && x.tapeEq(st, a, b, tb.MulC(n, 8)) {
		return true
	}
	if a.op == "bytesof" && b.op == "bytesof" && oa == ob && x.eqT(st, a.args[0], b.args[0]) {
		return true
	}
	s2 := st.clone()
	i := tb.Sym("i", IntS)
	s2.assume(tb.ge0(i))
	s2.assume(tb.Lt(i, n))
	oc := x.cur
	x.cur = s2
	defer func() { x.cur = oc }()
	va, vb := tb.Rd(a, tb.MulC(tb.Add(oa, i), 8), 8), tb.Rd(b, tb.MulC(tb.Add(ob, i), 8), 8)
	return x.implied(s2, tb.Eq(va, vb))
}

// eqT proves two terms equal on a path.
func (x *Exec) eqT(st *State, a, b *Term) bool {
	tb := x.tb
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	oc := x.cur
	x.cur = st
	defer func() { x.cur = oc }()
	switch a.sort.K {
	case STape:
		if a.op == "put" || a.op == "copy" || b.op == "put" || b.op == "copy" || a.op == "tzero" || b.op == "tzero" {
			return x.tapeEq(st, a, b, nil)
		}
	case SArr:
		if a.op == "store" && b.op == "store" {
			if x.eqT(st, a.args[0], b.args[0]) && x.eqT(st, a.args[1], b.args[1]) && x.eqT(st, a.args[2], b.args[2]) {
				return true
			}
		}
	case SStr:
		if a.op == "mkstr" && b.op == "mkstr" {
			if x.eqT(st, a.args[2], b.args[2]) && x.rangeEq(st, a.args[0], a.args[1], b.args[0], b.args[1], a.args[2]) {
				return true
			}
		}
		if (a.op == "strlit") != (b.op == "strlit") && (a.op == "mkstr" || b.op == "mkstr") {
			return x.implied(st, x.eqTerm(st, a, b))
		}
		if a.op == "strcat" || b.op == "strcat" || (a.op == "ite") != (b.op == "ite") {
			return x.strcatEq(st, a, b)
		}
	case SBool:
		if a.op != "uf" || b.op != "uf" || a.name != b.name {
			return x.implied(st, tb.Eq(a, b))
		}
	}
	if a.op == b.op && a.op == "uf" && a.name == b.name && len(a.args) == len(b.args) {
		if len(a.name) > 3 && a.name[:3] == "mk:" {
			return x.mkEq(st, a, b)
		}
		ok := true
		for i := range a.args {
			if a.args[i].sort != b.args[i].sort || !x.eqT(st, a.args[i], b.args[i]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	if a.sort.K == STape || a.sort.K == SArr && a.sort.Elem.K == STape {
		if a.op == b.op && len(a.args) == len(b.args) && len(a.args) > 0 && a.n == b.n {
			for i := range a.args {
				if !x.eqT(st, a.args[i], b.args[i]) {
					return false
				}
			}
			return true
		}
	}
	return x.implied(st, tb.Eq(a, b))
}

// mkEq: two interface identities of the same dynamic type; their values are
// compared as values, so that unused content does not count.
func (x *Exec) mkEq(st *State, a, b *Term) bool {
	n := a.name[3:]
	t := x.P.typeByName(n)
	if t == nil {
		return x.implied(st, x.tb.Eq(a, b))
	}
	el := t
	if p, ok := under(t).(*types.Pointer); ok {
		el = p.Elem()
	}
	i, j := 0, 0
	va, vb := x.unflatten(el, a.args, &i), x.unflatten(el, b.args, &j)
	bad := false
	x.eqVal(st, va, vb, el, "", func(s *State, nm string, ok bool, c *Term) {
		if !ok {
			bad = true
		}
	})
	return !bad
}

// textsOf: the bits [from, to) of a tape as the texts written there one after
// the other, nil if they were not.
func (x *Exec) textsOf(t, from, to *Term) []*Term {
	tb := x.tb
	var end, p *Term
	switch t.op {
	case "put":
		w := t.args[2].sort.W
		if w%8 != 0 {
			return nil
		}
		end = tb.AddC(t.args[1], int64(w))
		p = tb.MkStr(tb.Put(tb.TZero(), tb.Zero, t.args[2]), tb.Zero, tb.Int(int64(w/8)))
	case "copy":
		end = tb.Add(t.args[1], tb.MulC(t.args[4], 8))
		p = tb.MkStr(t.args[2], t.args[3], t.args[4])
	default:
		return nil
	}
	if end != to {
		return nil
	}
	if t.args[1] == from {
		return []*Term{p}
	}
	ps := x.textsOf(t.args[0], from, t.args[1])
	if ps == nil {
		return nil
	}
	return append(ps, p)
}

func (x *Exec) strcatEq(st *State, a, b *Term) bool {
	tb := x.tb
	var parts func(t *Term) []*Term
	parts = func(t *Term) []*Term {
		if t.op == "strcat" {
			return append(parts(t.args[0]), parts(t.args[1])...)
		}
		if t.op == "ite" {
			// a choice this path has made already
			switch x.decide(st, t.args[0]) {
			case 1:
				return parts(t.args[1])
			case -1:
				return parts(t.args[2])
			}
		}
		if t.op == "strlit" && t.name == "" {
			return nil
		}
		if t.op == "mkstr" {
			if ps := x.textsOf(t.args[0], tb.MulC(t.args[1], 8), tb.MulC(tb.Add(t.args[1], t.args[2]), 8)); len(ps) > 1 {
				return ps
			}
		}
		return []*Term{t}
	}
	pa, pb := parts(a), parts(b)
	for len(pa) > 0 && len(pb) > 0 {
		p, q := pa[0], pb[0]
		if p == q {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if p.op == "strlit" && q.op == "strlit" {
			n := min(len(p.name), len(q.name))
			if p.name[:n] != q.name[:n] {
				return false
			}
			pa, pb = pa[1:], pb[1:]
			if len(p.name) > n {
				pa = append([]*Term{tb.StrLit(p.name[n:])}, pa...)
			}
			if len(q.name) > n {
				pb = append([]*Term{tb.StrLit(q.name[n:])}, pb...)
			}
			continue
		}
		if p.op == "ite" || q.op == "ite" {
			if p.op == "ite" && q.op == "ite" && p.args[0] == q.args[0] && x.eqT(st, p, q) {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			// take the cases apart
			c := p
			if p.op != "ite" {
				c = q
			}
			join := func(ps []*Term) *Term {
				r := tb.StrLit("")
				for _, p := range ps {
					r = tb.StrCat(r, p)
				}
				return r
			}
			ja, jb := join(pa), join(pb)
			for _, g := range []*Term{c.args[0], tb.Not(c.args[0])} {
				s2 := st.clone()
				s2.assume(g)
				x.cur = s2
				ok := !x.feasible(s2) || x.strcatEq(s2, ja, jb)
				x.cur = st
				if !ok {
					return false
				}
			}
			return true
		}
		if !x.eqT(st, p, q) {
			return false
		}
		pa, pb = pa[1:], pb[1:]
	}
	return len(pa) == 0 && len(pb) == 0
}

// eqVal compares two owned values of type t leaf by leaf. nil and empty slices
// are the same; JSONType caches are ignored.
func (x *Exec) eqVal(st *State, a, b Val, t types.Type, name string, f func(st *State, name string, ok bool, c *Term)) {
	tb := x.tb
	leaf := func(n string, p, q *Term) {
		if p.sort.K == STape && p != q {
			f(st, n, x.eqT(st, p, q), tb.Eq(p, q))
			return
		}
		f(st, n, x.eqT(st, p, q), tb.Eq(p, q))
	}
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			leaf(name, p, q)
			return
		}
	case ErrV:
		if q, ok := b.(ErrV); ok {
			leaf(name, p.code, q.code)
			return
		}
	case IfaceS:
		if q, ok := b.(IfaceS); ok {
			leaf(name, p.id, q.id)
			return
		}
	case IfaceV:
		q, ok := b.(IfaceV)
		if ok && p.typ == nil && q.typ == nil {
			return
		}
		pi, qi := x.ifaceId(st, a), x.ifaceId(st, b)
		leaf(name, pi, qi)
		return
	case TapeV:
		if q, ok := b.(TapeV); ok {
			leaf(name, p.t, q.t)
			return
		}
	case OpaqueV, FuncV, nil:
		return
	case StructV:
		q, ok := b.(StructV)
		if ok && len(p.fs) == len(q.fs) {
			su, isS := under(t).(*types.Struct)
			for i := range p.fs {
				var ft types.Type
				n := name
				if isS && su.NumFields() == len(p.fs) {
					if skipField(su.Field(i)) || x.noNames && isXMLName(su.Field(i).Type()) {
						continue
					}
					ft = su.Field(i).Type()
					n += "." + su.Field(i).Name()
				} else if i == 0 && (isReader(t) || isSpecRd(t)) {
					ft = types.NewSlice(types.Typ[types.Uint8])
				}
				x.eqVal(st, p.fs[i], q.fs[i], ft, n, f)
			}
			return
		}
	case ArrayV:
		q, ok := b.(ArrayV)
		if ok && len(p.es) == len(q.es) {
			for i := range p.es {
				x.eqVal(st, p.es[i], q.es[i], under(t).(*types.Array).Elem(), name+"[]", f)
			}
			return
		}
	case InPtr:
		if q, ok := b.(InPtr); ok {
			leaf(name, p.nl, q.nl)
			if p.nl == tb.True && q.nl == tb.True {
				return
			}
			s2 := st.clone()
			s2.assume(tb.Not(p.nl))
			s2.assume(tb.Not(q.nl))
			if p.nl != tb.False && !x.feasible(s2) {
				return
			}
			x.eqVal(s2, p.v, q.v, under(t).(*types.Pointer).Elem(), name, f)
			return
		}
	case InSlice:
		if q, ok := b.(InSlice); ok {
			if p.ln != q.ln {
				leaf(name+".len", p.ln, q.ln)
			} else {
				f(st, name+".len", true, tb.True)
			}
			el := under(t).(*types.Slice).Elem()
			if tp, ok := p.c.(TapeV); ok {
				tq := q.c.(TapeV)
				f(st, name, x.tapeEq(st, tp.t, tq.t, tb.MulC(p.ln, 8)), tb.Eq(tp.t, tq.t))
				return
			}
			pc, qc := p.c.(Content), q.c.(Content)
			same := true
			var lp, lq []*Term
			eachLeaf(pc.lv, func(t *Term) { lp = append(lp, t) })
			eachLeaf(qc.lv, func(t *Term) { lq = append(lq, t) })
			for i := range lp {
				if lp[i] != lq[i] {
					same = false
				}
			}
			if same {
				f(st, name+"[]", true, tb.True)
				return
			}
			s2 := st.clone()
			i := tb.Sym("i", IntS)
			s2.assume(tb.ge0(i))
			s2.assume(tb.Lt(i, p.ln))
			if !x.feasible(s2) {
				return
			}
			oc := x.cur
			x.cur = s2
			x.eqVal(s2, x.contentLoad(pc, i), x.contentLoad(qc, i), el, name+"[]", f)
			x.cur = oc
			return
		}
	}
	if iv, ok := b.(IfaceV); ok {
		leaf(name, x.ifaceId(st, a), x.ifaceId(st, iv))
		return
	}
	panic(unsupported("comparison of %T and %T (%s)", a, b, name))
}

var _ = big.NewInt
