package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop whose header condition is a constant is unrolled. Every other
// loop is cut at its header: the places it modifies are discovered, replaced by
// symbols constrained by induction facts, and one arbitrary iteration is
// executed. When a loop ran earlier on the path (normally the specification's)
// the new loop is first tried in lockstep with it: the coupling relation is the
// loop invariant, and its base, step and exit are all proved.

type lcell struct {
	phi   *ssa.Phi
	loc   *Loc
	typ   types.Type
	name  string
	owned bool
	init  Val
	cur   Val
	// leaves, in mapN order
	names []string
	initL []*Term
	curL  []*Term
	mod   []bool
	step  []*big.Int // constant increment, or nil
}

type symRange struct{ lo, hi int } // lo < symNo <= hi

type recLeaf struct {
	name      string
	init, cur *Term
	step      *big.Int
	mono      bool // no iteration makes it smaller
	after     int  // a tape only written at and after leaf after-1
}
type recPath struct {
	conds []*Term
	next  []*Term // per leaf
	recs  []*LoopRec
}
type LoopRec struct {
	fn     string
	k      *Term
	leaves []recLeaf
	facts  []*Term
	paths  []recPath
	locals []symRange
	early  bool // some exit is not the header's
}

func (r *LoopRec) local(t *Term) bool {
	for _, q := range r.locals {
		if t.symNo > q.lo && t.symNo <= q.hi {
			return true
		}
	}
	return false
}

type probe struct {
	b     *ssa.BasicBlock
	conds []*Term
	sts   []*State
}

// mapN maps the leaves of any value (references keep their targets), naming
// each leaf.
func (x *Exec) mapN(v Val, t types.Type, name string, f func(string, *Term) *Term) Val {
	switch a := v.(type) {
	case *Term:
		if t != nil && a.sort.K == SInt {
			if isTime(t) {
				return f(name+".time", a)
			}
			if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return f(name+".u.len", a)
			}
		}
		return f(name, a)
	case ErrV:
		return ErrV{f(name+".err", a.code)}
	case IfaceS:
		return IfaceS{f(name, a.id)}
	case IfaceV:
		if a.typ == nil {
			return v
		}
		return IfaceV{a.typ, x.mapN(a.v, a.typ, name, f)}
	case TapeV:
		return TapeV{f(name+".bytes", a.t)}
	case StructV:
		fs := make([]Val, len(a.fs))
		su, ok := (*types.Struct)(nil), false
		if t != nil && !isReader(t) && !isWriter(t) && !isSpecRd(t) && !isSpecWr(t) && !isBuilder(t) && !isTime(t) {
			su, ok = under(t).(*types.Struct)
		}
		for i := range fs {
			if ok && su.NumFields() == len(a.fs) {
				fs[i] = x.mapN(a.fs[i], su.Field(i).Type(), name+"."+su.Field(i).Name(), f)
			} else {
				n := fmt.Sprintf("%s.%d", name, i)
				if _, isT := a.fs[i].(*Term); isT && a.fs[i].(*Term).sort.K == SInt {
					n += ".p.len"
				}
				fs[i] = x.mapN(a.fs[i], nil, n, f)
			}
		}
		return StructV{fs}
	case ArrayV:
		es := make([]Val, len(a.es))
		var et types.Type
		if t != nil {
			if at, ok := under(t).(*types.Array); ok {
				et = at.Elem()
			}
		}
		for i := range es {
			es[i] = x.mapN(a.es[i], et, fmt.Sprintf("%s[%d]", name, i), f)
		}
		return ArrayV{es}
	case InPtr:
		var et types.Type
		if t != nil {
			et = under(t).(*types.Pointer).Elem()
		}
		return InPtr{f(name+".nil", a.nl), x.mapN(a.v, et, name+".*", f)}
	case PtrV:
		return PtrV{f(name+".nil", a.nl), a.loc}
	case SliceV:
		return SliceV{f(name+".nil", a.nl), a.loc, f(name+".off.len", a.off), f(name+".len", a.ln), f(name+".cap.len", a.cp)}
	case InSlice:
		return InSlice{f(name+".nil", a.nl), f(name+".len", a.ln), x.mapN(a.c, t, name, f)}
	case Content:
		var et types.Type
		if t != nil {
			if s, ok := under(t).(*types.Slice); ok {
				et = s.Elem()
			}
		}
		return Content{x.mapN(a.lv, et, name+"[]", f)}
	case TupleV:
		out := make(TupleV, len(a))
		for i := range a {
			out[i] = x.mapN(a[i], nil, fmt.Sprintf("%s#%d", name, i), f)
		}
		return out
	case OpaqueV, FuncV, MapV, nil:
		return v
	}
	panic(unsupported("mapN on %T", v))
}

func (x *Exec) leavesN(v Val, t types.Type, name string) (ns []string, ts []*Term) {
	x.mapN(v, t, name, func(n string, l *Term) *Term {
		ns = append(ns, n)
		ts = append(ts, l)
		return l
	})
	return
}
func (x *Exec) withLeaves(v Val, t types.Type, ls []*Term) Val {
	i := 0
	return x.mapN(v, t, "", func(n string, l *Term) *Term {
		i++
		return ls[i-1]
	})
}

// sameShape: do two values differ only in leaves?
func sameShape(a, b Val) bool {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		return ok && p.sort == q.sort
	case ErrV:
		_, ok := b.(ErrV)
		return ok
	case IfaceS:
		_, ok := b.(IfaceS)
		return ok
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok || (p.typ == nil) != (q.typ == nil) {
			return false
		}
		return p.typ == nil || types.Identical(p.typ, q.typ) && sameShape(p.v, q.v)
	case TapeV:
		_, ok := b.(TapeV)
		return ok
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.fs) != len(q.fs) {
			return false
		}
		for i := range p.fs {
			if !sameShape(p.fs[i], q.fs[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		q, ok := b.(ArrayV)
		if !ok || len(p.es) != len(q.es) {
			return false
		}
		for i := range p.es {
			if !sameShape(p.es[i], q.es[i]) {
				return false
			}
		}
		return true
	case InPtr:
		q, ok := b.(InPtr)
		return ok && sameShape(p.v, q.v)
	case InSlice:
		q, ok := b.(InSlice)
		return ok && sameShape(p.c, q.c)
	case Content:
		q, ok := b.(Content)
		return ok && sameShape(p.lv, q.lv)
	case PtrV:
		q, ok := b.(PtrV)
		return ok && sameLoc(p.loc, q.loc)
	case SliceV:
		q, ok := b.(SliceV)
		return ok && sameLoc(p.loc, q.loc)
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameShape(p[i], q[i]) {
				return false
			}
		}
		return true
	case OpaqueV:
		q, ok := b.(OpaqueV)
		return ok && p == q
	case FuncV:
		q, ok := b.(FuncV)
		return ok && p.fn == q.fn && len(p.bind) == 0 && len(q.bind) == 0
	case nil:
		return b == nil
	}
	return false
}

// ---------- placing and reading cells ----------

func (x *Exec) place(st *State, fr *Frame, cells []*lcell, cur func(c *lcell) []*Term) {
	for _, c := range cells {
		v := x.withLeaves(c.cur, c.typ, cur(c))
		if c.phi != nil {
			if c.owned {
				l := x.alloc(st, c.typ, v, c.name)
				fr.regs[c.phi] = x.load(st, l)
			} else {
				fr.regs[c.phi] = v
			}
			continue
		}
		o := st.heap[c.loc.obj]
		n := *o
		if c.owned {
			x.ver++
			n.kills = append(append([]kill{}, o.kills...), kill{c.loc.path, x.ver})
		}
		n.v = x.upd(st, o.v, o.typ, c.loc.path, v)
		st.heap[c.loc.obj] = &n
	}
}

func (x *Exec) nextVal(c *lcell, o *Outcome) Val {
	if c.phi != nil {
		for i, p := range o.to.Preds {
			if p == o.from {
				return x.val(o.fr, c.phi.Edges[i])
			}
		}
		panic("no such edge")
	}
	return x.get(o.st, c.loc)
}

// nextLeaves of a cell at a back edge; ok=false when the shape differs.
func (x *Exec) nextLeaves(c *lcell, o *Outcome) ([]*Term, bool) {
	x.cur = o.st
	v := x.nextVal(c, o)
	if c.owned {
		v = x.own(o.st, v, c.typ)
	}
	if !sameShape(c.cur, v) {
		return nil, false
	}
	_, ls := x.leavesN(v, c.typ, c.name)
	return ls, true
}

// own is freeze for values that are re-read through the cell only.
func (x *Exec) own(st *State, v Val, t types.Type) Val {
	om := x.moving
	x.moving = true
	defer func() { x.moving = om }()
	return x.freeze(st, v, t)
}

func (x *Exec) bodyRun(st *State, fr *Frame, l *actLoop, cells []*lcell, cur func(c *lcell) []*Term) []Outcome {
	f2 := fr.clone()
	f2.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], l)
	f2.unr = map[*ssa.BasicBlock]int{}
	x.place(st, f2, cells, cur)
	x.cur = st
	return x.run(st, f2, l.header, nil, 0)
}

func curOf(c *lcell) []*Term { return c.curL }

// heads runs the loop header only and returns the conditions it branches on.
func (x *Exec) heads(st *State, fr *Frame, l *actLoop) ([]*Term, []*State, bool) {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return nil, nil, false
	}
	op := x.probe
	p := &probe{b: l.header}
	x.probe = p
	x.quiet++
	defer func() { x.probe = op; x.quiet--; x.cur = st }()
	s2, f2 := st.clone(), fr.clone()
	f2.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], l)
	x.cur = s2
	x.run(s2, f2, l.header, nil, 0)
	return p.conds, p.sts, true
}

// ---------- the loop rule ----------

func (x *Exec) loop(st *State, fr *Frame, l *actLoop, from *ssa.BasicBlock) []Outcome {
	x.phis(fr, from, l.header)
	x.cur = st
	if fr.unr[l.header] < 400 {
		if cs, _, ok := x.heads(st, fr, l); ok {
			if len(cs) == 0 {
				return nil
			}
			all := true
			for _, c := range cs {
				if c != x.tb.True && c != x.tb.False {
					all = all && x.curC != nil && fr.unr[l.header] < 8 &&
						(x.curC.lemma && x.curC.unroll[fr.fn.Name()] && x.dec3(st, c) != 0 ||
							(x.curC.lemma || x.spec == 0 && len(st.recs) == 0) && x.settled(st, c))
				}
			}
			if all && len(cs) == 1 {
				u := map[*ssa.BasicBlock]int{}
				for k, v := range fr.unr {
					u[k] = v
				}
				u[l.header]++
				fr.unr = u
				return x.run(st, fr, l.header, from, 0)
			}
		}
	}
	lo := x.tb.nSyms
	cells := x.discover(st, fr, l)
	for i := len(st.recs) - 1; i >= 0; i-- {
		if outs, ok := x.couple(st, fr, l, cells, st.recs[i], lo, false); ok {
			return outs
		}
	}
	for i := len(st.recs) - 1; i >= 0; i-- {
		if st.recs[i].early {
			continue
		}
		if outs, ok := x.couple(st, fr, l, cells, st.recs[i], lo, true); ok {
			return outs
		}
	}
	return x.generic(st, fr, l, cells, lo)
}

// settled: the path decides the condition, and how often the loop goes round.
func (x *Exec) settled(st *State, c *Term) bool {
	tb := x.tb
	if x.dec3(st, c) == 0 {
		return false
	}
	if c.op == "not" {
		c = c.args[0]
	}
	if c.op != "le" {
		return true
	}
	x.cur = st
	for v := int64(-8); v <= 8; v++ {
		if x.dec3(st, tb.Eq(c.args[0], tb.Int(v))) == 1 {
			return true
		}
	}
	return x.dec3(st, c) == -1
}

func slotOf(l *Loc) *Loc {
	n := len(l.path)
	for i, s := range l.path {
		if s.k == sElems || s.k == sIndex {
			n = i
			if s.k == sElems {
				n = i + 1
			}
			break
		}
	}
	return &Loc{obj: l.obj, path: l.path[:n:n], ver: 1 << 40}
}

func (x *Exec) setCur(c *lcell, v Val) {
	c.init, c.cur = v, v
	c.names, c.initL = x.leavesN(v, c.typ, c.name)
	c.curL = append([]*Term{}, c.initL...)
	c.mod = make([]bool, len(c.initL))
	c.step = make([]*big.Int, len(c.initL))
}

func (x *Exec) discover(st *State, fr *Frame, l *actLoop) []*lcell {
	tb := x.tb
	var cells []*lcell
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := &lcell{phi: p, typ: p.Type(), name: p.Comment}
		if c.name == "" {
			c.name = p.Name()
		}
		x.setCur(c, x.val(fr, p))
		cells = append(cells, c)
	}
	x.quiet++
	defer func() { x.quiet--; x.cur = st }()
	run := func() ([]Outcome, []*Loc) {
		var slots []*Loc
		ow := x.writes
		x.writes = func(s *State, lc *Loc) {
			if ow != nil {
				ow(s, lc)
			}
			if st.heap[lc.obj] != nil {
				slots = append(slots, slotOf(lc))
			}
		}
		s2 := st.clone()
		outs := x.bodyRun(s2, fr, l, cells, curOf)
		x.writes = ow
		return outs, slots
	}
	var outs []Outcome
	for round := 0; ; round++ {
		if round > 16 {
			panic(unsupported("loop does not stabilise in %s", fr.fn.Name()))
		}
		var slots []*Loc
		outs, slots = run()
		changed := false
		for _, s := range slots {
			done := false
			for i := 0; i < len(cells); i++ {
				c := cells[i]
				if c.loc == nil || c.loc.obj != s.obj {
					continue
				}
				if pathPrefix(c.loc.path, s.path) {
					done = true
					break
				}
				if pathPrefix(s.path, c.loc.path) { // widen
					cells = append(cells[:i], cells[i+1:]...)
					i--
				}
			}
			if done {
				continue
			}
			o := st.heap[s.obj]
			t := o.typ
			for _, p := range s.path {
				t = stepType(t, p)
			}
			c := &lcell{loc: s, typ: t, name: "heap:" + o.name}
			for _, p := range s.path {
				if p.k == sField {
					c.name += fmt.Sprintf(".%d", p.n)
				}
			}
			x.cur = st
			x.setCur(c, x.get(st, s))
			cells = append(cells, c)
			changed = true
		}
		for i := range outs {
			o := &outs[i]
			if o.kind != oBack {
				continue
			}
			for _, c := range cells {
				ls, ok := x.nextLeaves(c, o)
				if !ok {
					if c.owned {
						panic(unsupported("loop value changes shape in %s (%s)", fr.fn.Name(), c.name))
					}
					c.owned = true
					x.cur = st
					x.setCur(c, x.own(st, c.init, c.typ))
					changed = true
					continue
				}
				for j := range ls {
					if !c.mod[j] && ls[j] != c.curL[j] {
						c.mod[j] = true
						c.curL[j] = tb.Sym(c.names[j], c.initL[j].sort)
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// constant increments
	for _, c := range cells {
		for j := range c.mod {
			if !c.mod[j] || c.curL[j].sort.K != SInt {
				continue
			}
			var d *big.Int
			ok := true
			n := 0
			for i := range outs {
				o := &outs[i]
				if o.kind != oBack {
					continue
				}
				ls, _ := x.nextLeaves(c, o)
				e := x.pinned(o.st, tb.Sub(ls[j], c.curL[j]))
				n++
				if !e.isInt() || d != nil && d.Cmp(e.iv) != 0 {
					ok = false
					break
				}
				d = e.iv
			}
			if ok && n > 0 {
				c.step[j] = d
			}
		}
	}
	x.cur = st
	return cells
}

// pinned replaces the atoms the path fixes by their values.
func (x *Exec) pinned(st *State, e *Term) *Term {
	if e.isInt() {
		return e
	}
	m := map[*Term]*Term{}
	for _, c := range st.pc.list() {
		if c.op == "eq" && c.args[0].sort.K == SInt {
			l := x.tb.toLin(x.tb.Sub(c.args[0], c.args[1]))
			if len(l.atoms) != 1 {
				continue
			}
			for id, a := range l.atoms {
				if q, r := new(big.Int).QuoRem(l.c, l.coefs[id], new(big.Int)); r.Sign() == 0 {
					m[a] = x.tb.BigInt(q.Neg(q))
				}
			}
		}
	}
	if len(m) == 0 {
		return e
	}
	return x.tb.Subst(e, m, map[int]*Term{})
}

// feasible drops outcomes whose path is contradictory.
func (x *Exec) feasible(st *State) bool { return x.sv.Check(st.pc, x.tb.True) != -1 }

func (x *Exec) generic(st *State, fr *Frame, l *actLoop, cells []*lcell, lo int) []Outcome {
	tb := x.tb
	k := tb.Sym("k", IntS)
	var facts []*Term
	facts = append(facts, tb.ge0(k))
	// induction forms
	x.quiet++
	s0 := st.clone()
	s0.assume(tb.ge0(k))
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] && c.step[j] != nil {
				c.curL[j] = tb.Add(c.initL[j], tb.MulBig(k, c.step[j]))
			}
		}
	}
	outs := x.bodyRun(s0.clone(), fr, l, cells, curOf)
	monos := map[*Term]bool{}
	for _, c := range cells {
		for j := range c.mod {
			if !c.mod[j] || c.step[j] != nil {
				continue
			}
			if c.curL[j].sort.K != SInt {
				continue
			}
			m8, mono := true, true
			for i := range outs {
				o := &outs[i]
				if o.kind != oBack {
					continue
				}
				ls, _ := x.nextLeaves(c, o)
				d := tb.Sub(ls[j], c.curL[j])
				if !tb.isMult(d, 8) {
					m8 = false
				}
				if mono && !x.implied(o.st, tb.ge0(d)) {
					mono = false
				}
			}
			if m8 {
				v := tb.Sym(c.names[j]+".v", IntS)
				c.curL[j] = tb.Add(c.initL[j], tb.MulC(v, 8))
				if mono {
					facts = append(facts, tb.ge0(v))
					monos[c.curL[j]] = true
				}
			} else if mono {
				facts = append(facts, tb.Le(c.initL[j], c.curL[j]))
				monos[c.curL[j]] = true
			}
		}
	}
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] && c.curL[j].sort.K == SArr && c.curL[j].op == "sym" && x.visitsOnce(outs, c, j, k) {
				// this iteration's element is still what it was
				facts = append(facts, tb.Eq(tb.Select(c.curL[j], k), tb.Select(c.initL[j], k)))
			}
		}
	}
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] && c.step[j] == nil && c.curL[j].sort.K != SArr {
				facts = append(facts, tb.Implies(tb.Eq(k, tb.Zero), tb.Eq(c.curL[j], c.initL[j])))
			}
		}
	}
	// relaxed guard
	s1 := st.clone()
	for _, f := range facts {
		s1.assume(f)
	}
	{
		s2, f2 := s1.clone(), fr.clone()
		x.place(s2, f2, cells, curOf)
		x.cur = s2
		if cs, _, ok := x.heads(s2, f2, l); ok {
			outs := x.bodyRun(s1.clone(), fr, l, cells, curOf)
			for _, c := range cs {
				if c.op != "le" {
					continue
				}
				if g := x.relax(st, cells, k, c.args[0], outs); g != nil {
					facts = append(facts, g)
				}
			}
		}
	}
	x.prefixes(st, fr, l, cells, facts)
	x.quiet--
	base := st.clone()
	for _, f := range facts {
		base.assume(f)
	}
	x.cur = base
	depth := base.pc.depth
	nrec := len(base.recs)
	outs = x.bodyRun(base, fr, l, cells, curOf)
	rec := &LoopRec{fn: fr.fn.Name(), k: k, facts: facts}
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] {
				rec.leaves = append(rec.leaves, recLeaf{c.names[j], c.initL[j], c.curL[j], c.step[j], monos[c.curL[j]] || c.step[j] != nil && c.step[j].Sign() > 0, 0})
			}
		}
	}
	var exits []Outcome
	for i := range outs {
		o := outs[i]
		if o.kind != oBack {
			if o.kind == oRet || o.from != l.header {
				rec.early = true
			}
			exits = append(exits, o)
			continue
		}
		p := recPath{conds: o.st.pc.list()[depth:], recs: o.st.recs[nrec:]}
		for _, c := range cells {
			ls, ok := x.nextLeaves(c, &o)
			if !ok {
				panic(unsupported("loop value changes shape in %s", fr.fn.Name()))
			}
			for j := range c.mod {
				if c.mod[j] {
					p.next = append(p.next, ls[j])
				} else if ls[j] != c.curL[j] {
					panic(unsupported("loop modification missed in %s (%s)", fr.fn.Name(), c.names[j]))
				}
			}
		}
		rec.paths = append(rec.paths, p)
		x.terminates(&o, rec, p, fr)
	}
	rec.locals = []symRange{{lo, tb.nSyms}}
	x.appends(st, rec)
	return x.leave(exits, l, rec)
}

// appends finds the tapes a loop only writes from some growing position on:
// what one iteration wrote is still there in the end.
func (x *Exec) appends(st *State, rec *LoopRec) {
	tb := x.tb
	// what is known of the final state says nothing about an iteration
	var rn *renamer
	fresh := func() {
		ren := map[*Term]*Term{}
		seen := map[int]bool{}
		var keys []*Term
		x.recTerms(rec, func(t *Term) {
			x.collectSyms(t, seen, func(s *Term) {
				if rec.local(s) {
					keys = append(keys, s)
				}
			})
		})
		sortTerms(keys)
		for _, s := range keys {
			ren[s] = tb.Sym("it", s.sort)
		}
		rn = &renamer{x, ren, map[int]*Term{}}
	}
	for i := range rec.leaves {
		lf := &rec.leaves[i]
		if lf.cur.op != "sym" || lf.cur.sort.K != STape || lf.after > 0 {
			continue
		}
		if rn == nil {
			fresh()
		}
		var at [][]*Term
		ok := len(rec.paths) > 0
		for _, p := range rec.paths {
			var ps []*Term
			t := p.next[i]
			for t != lf.cur && (t.op == "put" || t.op == "copy") {
				ps = append(ps, t.args[1])
				t = t.args[0]
			}
			if t != lf.cur {
				ok = false
				break
			}
			at = append(at, ps)
		}
		if !ok {
			continue
		}
		for j := range rec.leaves {
			q := &rec.leaves[j]
			if !q.mono || q.cur.sort.K != SInt {
				continue
			}
			good := true
			for pi, p := range rec.paths {
				s2 := st.clone()
				x.cur = s2
				for _, f := range rec.facts {
					s2.assume(rn.t(f))
				}
				for _, c := range p.conds {
					s2.assume(rn.t(c))
				}
				for _, w := range at[pi] {
					if !x.implied(s2, rn.t(tb.Le(q.cur, w))) {
						good = false
						break
					}
				}
				if !good {
					break
				}
			}
			exact := good
			for _, ws := range at {
				exact = exact && (len(ws) == 0 || ws[len(ws)-1] == q.cur)
			}
			if exact || good && lf.after == 0 {
				lf.after = j + 1
			}
			if exact {
				break
			}
		}
		x.cur = st
	}
}

// written: in R's final state, what the iteration at hand wrote is in place.
func (x *Exec) written(R *LoopRec, rn *renamer, nextR []*Term) (undo func()) {
	tb := x.tb
	op := map[*Term]tapePrefix{}
	for i, lf := range R.leaves {
		if lf.cur.op != "sym" {
			continue
		}
		c := rn.t(lf.cur)
		if _, done := op[lf.cur]; done {
			continue
		}
		if p, ok := tb.prefix[lf.cur]; ok {
			op[lf.cur] = p
			if c != lf.cur {
				tb.prefix[c] = tapePrefix{rn.t(p.t), rn.t(p.end)}
			}
		}
		if c == lf.cur {
			continue
		}
		if lf.after > 0 {
			if _, ok := op[lf.cur]; !ok {
				op[lf.cur] = tapePrefix{}
			}
			tb.prefix[lf.cur] = tapePrefix{nextR[i], nextR[lf.after-1]}
		}
		if n := nextR[i]; n.op == "store" && n.args[0] == c && n.args[1] == rn.t(R.k) {
			tb.filled[lf.cur] = n
		}
	}
	return func() {
		for t, p := range op {
			if p.t == nil {
				delete(tb.prefix, t)
			} else {
				tb.prefix[t] = p
			}
		}
		for _, lf := range R.leaves {
			delete(tb.filled, lf.cur)
		}
	}
}

// prefixes: what was written before the loop is still there when every
// iteration only writes beyond it.
func (x *Exec) prefixes(st *State, fr *Frame, l *actLoop, cells []*lcell, facts []*Term) {
	tb := x.tb
	any := false
	for _, c := range cells {
		for j := range c.mod {
			any = any || c.mod[j] && c.initL[j].sort.K == STape && (c.initL[j].op == "put" || c.initL[j].op == "copy")
		}
	}
	if !any {
		return
	}
	s1 := st.clone()
	for _, f := range facts {
		s1.assume(f)
	}
	outs := x.bodyRun(s1, fr, l, cells, curOf)
	for _, c := range cells {
		for j := range c.mod {
			t := c.initL[j]
			if !c.mod[j] || t.sort.K != STape || c.curL[j].op != "sym" {
				continue
			}
			end := tapeEnd(tb, t)
			if end == nil {
				continue
			}
			ok := true
			for i := range outs {
				o := &outs[i]
				if o.kind != oBack {
					continue
				}
				ls, good := x.nextLeaves(c, o)
				if !good {
					ok = false
					break
				}
				ok = ok && x.writesBeyond(o.st, ls[j], c.curL[j], end)
				if !ok {
					break
				}
			}
			if ok {
				tb.prefix[c.curL[j]] = tapePrefix{t, end}
			}
		}
	}
	x.cur = st
}

// visitsOnce: iteration number k writes at most element k of the array.
func (x *Exec) visitsOnce(outs []Outcome, c *lcell, j int, k *Term) bool {
	for i := range outs {
		o := &outs[i]
		if o.kind != oBack {
			continue
		}
		ls, ok := x.nextLeaves(c, o)
		if !ok {
			return false
		}
		t := ls[j]
		for t != c.curL[j] {
			if t.op != "store" || t.args[1] != k {
				return false
			}
			t = t.args[0]
		}
	}
	return true
}

// tapeEnd: where the last write to a tape ends.
func tapeEnd(tb *TB, t *Term) *Term {
	if t.sort.K != STape {
		return nil
	}
	switch t.op {
	case "put":
		return tb.AddC(t.args[1], int64(t.args[2].sort.W))
	case "copy":
		return tb.Add(t.args[1], tb.MulC(t.args[4], 8))
	}
	return nil
}

// writesBeyond: t is tape s and writes at or beyond end.
func (x *Exec) writesBeyond(st *State, t, s, end *Term) bool {
	for t != s {
		if t.op != "put" && t.op != "copy" || !x.implied(st, x.tb.Le(end, t.args[1])) {
			return false
		}
		t = t.args[0]
	}
	return true
}

func (x *Exec) leave(exits []Outcome, l *actLoop, rec *LoopRec) []Outcome {
	var res []Outcome
	for _, o := range exits {
		o.st.recs = append(o.st.recs[:len(o.st.recs):len(o.st.recs)], rec)
		if o.kind == oRet {
			res = append(res, o)
			continue
		}
		o.fr.loops = o.fr.loops[:len(o.fr.loops)-1]
		x.cur = o.st
		res = append(res, x.edge(o.st, o.fr, o.from, o.to)...)
	}
	return res
}

// nextSubst maps the header symbols to their values after one iteration.
func (x *Exec) nextSubst(rec *LoopRec, next []*Term) map[*Term]*Term {
	tb := x.tb
	m := map[*Term]*Term{}
	if rec.k.op == "sym" {
		m[rec.k] = tb.AddC(rec.k, 1)
	}
	for i, lf := range rec.leaves {
		if lf.step != nil {
			continue
		}
		if lf.cur.op == "sym" {
			m[lf.cur] = next[i]
		} else if lf.cur.sort.K == SInt {
			// init + 8 v
			l := tb.toLin(lf.cur)
			for id, a := range l.atoms {
				if a.op == "sym" && rec.local(a) || a.op == "sym" && len(rec.locals) == 0 && l.coefs[id].Cmp(big.NewInt(8)) == 0 && a != rec.k {
					if _, dup := m[a]; !dup {
						m[a] = tb.FDiv(tb.Sub(next[i], lf.init), 8)
					}
				}
			}
		}
	}
	return m
}

// terminates proves that a guard of the iteration strictly decreases.
func (x *Exec) terminates(o *Outcome, rec *LoopRec, p recPath, fr *Frame) {
	if x.quiet > 0 {
		return
	}
	tb := x.tb
	x.cur = o.st
	m := x.nextSubst(rec, p.next)
	for _, c := range p.conds {
		if c.op != "le" {
			continue
		}
		e := c.args[0]
		ne := tb.Subst(e, m, map[int]*Term{})
		if ne == e {
			continue
		}
		if x.implied(o.st, tb.Lt(ne, e)) {
			x.proveT(o.st, tb.True, fr)
			return
		}
	}
	x.proveT(o.st, tb.False, fr)
}
func (x *Exec) proveT(st *State, c *Term, fr *Frame) {
	kind := "termination"
	if x.spec > 0 {
		kind = "spec-termination"
	}
	x.record(kind, x.P.fname(fr.fn), c == x.tb.True, c, st)
}

// relax: from a header guard 0 <= e, the fact that holds at the header after at
// least one iteration: 0 <= e - d, d the constant change of e.
func (x *Exec) relax(st *State, cells []*lcell, k, e *Term, outs []Outcome) *Term {
	tb := x.tb
	rec := &LoopRec{k: k}
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] {
				rec.leaves = append(rec.leaves, recLeaf{c.names[j], c.initL[j], c.curL[j], c.step[j], false, 0})
			}
		}
	}
	var d *big.Int
	for i := range outs {
		o := &outs[i]
		if o.kind != oBack {
			continue
		}
		var next []*Term
		for _, c := range cells {
			ls, ok := x.nextLeaves(c, o)
			if !ok {
				return nil
			}
			for j := range c.mod {
				if c.mod[j] {
					next = append(next, ls[j])
				}
			}
		}
		ne := tb.Subst(e, x.nextSubst(rec, next), map[int]*Term{})
		dd := tb.Sub(ne, e)
		if !dd.isInt() {
			// at least: the next value stays above -1 step
			return nil
		}
		if d == nil || dd.iv.Cmp(d) < 0 {
			d = dd.iv
		}
		if !x.implied(o.st, tb.ge0(e)) {
			return nil
		}
	}
	if d == nil {
		return nil
	}
	g := tb.ge0(tb.Sub(e, tb.BigInt(d)))
	x.cur = st
	// does it hold at the start as well?
	m := map[*Term]*Term{k: tb.Zero}
	for _, lf := range rec.leaves {
		if lf.step == nil && lf.cur.op == "sym" {
			m[lf.cur] = lf.init
		} else if lf.step == nil {
			l := tb.toLin(lf.cur)
			li := tb.toLin(lf.init)
			for id, a := range l.atoms {
				if _, in := li.atoms[id]; !in && a.op == "sym" {
					m[a] = tb.Zero
				}
			}
		}
	}
	if x.implied(st, tb.Subst(g, m, map[int]*Term{})) {
		return g
	}
	return tb.Or(tb.Eq(k, tb.Zero), g)
}

// ---------- coupling ----------

func (x *Exec) collectSyms(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "sym" {
		f(t)
	}
	for _, a := range t.args {
		x.collectSyms(a, seen, f)
	}
}
func (x *Exec) recTerms(r *LoopRec, f func(*Term)) {
	f(r.k)
	for _, l := range r.leaves {
		f(l.init)
		f(l.cur)
	}
	for _, t := range r.facts {
		f(t)
	}
	for _, p := range r.paths {
		for _, t := range p.conds {
			f(t)
		}
		for _, t := range p.next {
			f(t)
		}
		for _, q := range p.recs {
			x.recTerms(q, f)
		}
	}
}

type renamer struct {
	x    *Exec
	m    map[*Term]*Term
	memo map[int]*Term
}

func (r *renamer) t(t *Term) *Term { return r.x.tb.Subst(t, r.m, r.memo) }
func (r *renamer) ts(ts []*Term) []*Term {
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = r.t(t)
	}
	return out
}
func (r *renamer) rec(q *LoopRec) *LoopRec {
	n := &LoopRec{fn: q.fn, k: r.t(q.k), facts: r.ts(q.facts), early: q.early}
	for _, l := range q.leaves {
		n.leaves = append(n.leaves, recLeaf{l.name, r.t(l.init), r.t(l.cur), l.step, l.mono, l.after})
	}
	for _, p := range q.paths {
		np := recPath{conds: r.ts(p.conds), next: r.ts(p.next)}
		for _, i := range p.recs {
			np.recs = append(np.recs, r.rec(i))
		}
		n.paths = append(n.paths, np)
	}
	// renamed locals are fresh symbols
	lo, hi := 0, 0
	for o, f := range r.m {
		if q.local(o) && f.op == "sym" {
			if lo == 0 || f.symNo-1 < lo {
				lo = f.symNo - 1
			}
			if f.symNo > hi {
				hi = f.symNo
			}
		}
	}
	n.locals = append(append([]symRange{}, q.locals...), symRange{lo, hi})
	return n
}

// a candidate relation for one leaf
type cand struct {
	idx int // leaf of the record; -1: free
	num int64
	den int64
	per int64 // and this much per iteration
}

func (x *Exec) candidates(st *State, c *lcell, j int, R *LoopRec) []cand {
	type scored struct {
		n  int
		cs []cand
	}
	var all []scored
	var late []cand
	for i, r := range R.leaves {
		if r.cur.sort != c.initL[j].sort {
			continue
		}
		var cs []cand
		if r.cur.sort.K == SInt {
			cs = []cand{{i, 1, 1, 0}, {i, 8, 1, 0}, {i, 1, 8, 0}}
			if n := x.perIteration(R, i); n != 0 {
				// the record counts something fixed every time, this loop does not
				late = append(late, cand{i, 1, 1, -n}, cand{i, 8, 1, -8 * n})
			}
		} else {
			if r.init != c.initL[j] && !x.eqT(st, r.init, c.initL[j]) {
				continue
			}
			cs = []cand{{i, 1, 1, 0}}
		}
		all = append(all, scored{commonTail(r.name, c.names[j]), cs})
	}
	// the likeliest partners carry the same field path
	sort.SliceStable(all, func(p, q int) bool { return all[p].n > all[q].n })
	var a []cand
	for _, s := range all {
		a = append(a, s.cs...)
	}
	return append(append(a, late...), cand{idx: -1})
}

// perIteration: the constant part of what every iteration adds to a leaf.
func (x *Exec) perIteration(R *LoopRec, i int) int64 {
	var n int64
	for j, p := range R.paths {
		l := x.tb.toLin(x.tb.Sub(p.next[i], R.leaves[i].cur))
		if !l.c.IsInt64() || len(l.coefs) == 0 || j > 0 && l.c.Int64() != n {
			return 0
		}
		n = l.c.Int64()
	}
	return n
}
func commonTail(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[len(a)-1-n] == b[len(b)-1-n] {
		n++
	}
	return n
}

func (x *Exec) relate(cd cand, s0, r0, r, k *Term) *Term {
	tb := x.tb
	if s0.sort.K != SInt {
		return r
	}
	d := tb.Sub(r, r0)
	if cd.den != 1 {
		d = tb.FDiv(d, cd.den)
	} else {
		d = tb.MulC(d, cd.num)
	}
	if cd.per != 0 {
		d = tb.Add(d, tb.MulC(k, cd.per))
	}
	return tb.Add(s0, d)
}

// guessLimit bounds a query that only looks for a candidate (see mainLimit).
var guessLimit = 600000

func (x *Exec) couple(st *State, fr *Frame, l *actLoop, cells []*lcell, R *LoopRec, lo int, prefix bool) ([]Outcome, bool) {
	tb := x.tb
	// each cell leaf over the record's symbols
	type slot struct {
		c    *lcell
		j    int
		cs   []cand
		i    int
		free *Term
	}
	var slots []*slot
	x.cur = st
	for _, c := range cells {
		for j := range c.mod {
			if c.mod[j] && c.step[j] == nil {
				s := &slot{c: c, j: j, cs: x.candidates(st, c, j, R)}
				s.free = tb.Sym(c.names[j], c.initL[j].sort)
				slots = append(slots, s)
			}
		}
	}
	curFor := func(k *Term, leaf func(i int) *Term, free func(s *slot) *Term) func(c *lcell) []*Term {
		return func(c *lcell) []*Term {
			out := append([]*Term{}, c.initL...)
			for j := range c.mod {
				if c.mod[j] && c.step[j] != nil {
					out[j] = tb.Add(c.initL[j], tb.MulBig(k, c.step[j]))
				}
			}
			for _, s := range slots {
				if s.c == c {
					cd := s.cs[s.i]
					if cd.idx < 0 {
						out[s.j] = free(s)
					} else {
						out[s.j] = x.relate(cd, c.initL[s.j], R.leaves[cd.idx].init, leaf(cd.idx), k)
					}
				}
			}
			return out
		}
	}
	exitCur := func() func(c *lcell) []*Term {
		return curFor(R.k, func(i int) *Term { return R.leaves[i].cur }, func(s *slot) *Term { return s.free })
	}
	// quick rejection: the exit state of R must leave this loop as well
	ol := x.sv.limit
	defer func() { x.sv.limit = ol }()
	if !R.early {
		// a guess that takes the solver long is not the right one
		x.sv.limit = guessLimit
		s2, f2 := st.clone(), fr.clone()
		x.cur = s2
		x.place(s2, f2, cells, exitCur())
		cs, sts, ok := x.heads(s2, f2, l)
		dep := false
		if ok {
			for i, c := range cs {
				for _, s := range slots {
					_ = s
				}
				x.cur = sts[i]
				if x.decide(sts[i], c) == 1 && x.bodySide(l, true) {
					if len(slots) == 0 {
						return nil, false
					}
					dep = true
				}
				if x.decide(sts[i], c) == -1 && x.bodySide(l, false) {
					if len(slots) == 0 {
						return nil, false
					}
					dep = true
				}
			}
		}
		// the guard does not depend on the assignment of slots: reject
		if dep && !x.guardDepends(cs, func(f func(*Term)) {
			for _, s := range slots {
				f(s.free)
				for _, cd := range s.cs {
					if cd.idx >= 0 {
						x.collectSyms(R.leaves[cd.idx].cur, map[int]bool{}, func(t *Term) {
							if R.local(t) && t != R.k {
								f(t)
							}
						})
					}
				}
			}
		}) {
			return nil, false
		}
	}
	if debug {
		fmt.Printf("couple %s with %s (%d paths)\n", fr.fn.Name(), R.fn, len(R.paths))
	}
	// renaming of R's locals for the step
	ren := map[*Term]*Term{}
	seen := map[int]bool{}
	x.recTerms(R, func(t *Term) {
		x.collectSyms(t, seen, func(s *Term) {
			if R.local(s) {
				ren[s] = nil
			}
		})
	})
	for _, s := range slots {
		ren[s.free] = nil
	}
	var keys []*Term
	for s := range ren {
		keys = append(keys, s)
	}
	sortTerms(keys)
	lo2 := tb.nSyms
	_ = lo2
	for _, s := range keys {
		n := s.name
		for i := len(n) - 1; i >= 0; i-- {
			if n[i] == '!' {
				n = n[:i]
				break
			}
		}
		ren[s] = tb.Sym(n, s.sort)
	}
	back := map[*Term]*Term{}
	for o, f := range ren {
		back[f] = o
	}
	final := func(t *Term) bool {
		f := false
		x.collectSyms(t, map[int]bool{}, func(s *Term) {
			if _, in := ren[s]; in {
				f = true
			}
		})
		return f
	}
	type jpath struct {
		p    recPath
		cell [][]*Term // own next leaves, per slot
	}
	var joint []recPath
	var failAll bool
	var cut []Outcome
	kept := map[*slot]bool{}   // tapes whose beginning no iteration changes
	grows := map[*slot]int64{} // what every iteration adds at least; -1 if unknown
	step := func() bool {
		joint, cut = nil, nil
		for _, s := range slots {
			kept[s] = s.cs[s.i].idx < 0 && tapeEnd(tb, s.c.initL[s.j]) != nil
			grows[s] = -1
			if s.cs[s.i].idx < 0 && s.free.sort.K == SInt {
				grows[s] = 8
			}
		}
		for _, P := range R.paths {
			s2 := st.clone()
			nrec := len(s2.recs)
			x.cur = s2
			rn := &renamer{x, ren, map[int]*Term{}}
			nextR := rn.ts(P.next)
			// this iteration was not R's last state
			s2.assume(tb.Le(tb.AddC(rn.t(R.k), 1), R.k))
			for i, lf := range R.leaves {
				if lf.mono && lf.cur.sort.K == SInt {
					s2.assume(tb.Le(nextR[i], lf.cur))
				}
			}
			depth := s2.pc.depth
			bad := false
			for _, f := range R.facts {
				s2.assume(rn.t(f))
			}
			for _, c := range P.conds {
				// conditions are added one by one so that later ones simplify
				t := rn.t(c)
				if t == tb.False {
					bad = true
					break
				}
				s2.assume(t)
			}
			if bad || !x.feasible(s2) {
				if debug {
					fmt.Println("  step: record path infeasible")
					for _, c := range s2.pc.list()[depth:] {
						fmt.Println("     ", tb.Str(c))
					}
				}
				continue
			}
			for _, q := range P.recs {
				s2.recs = append(s2.recs[:len(s2.recs):len(s2.recs)], rn.rec(q))
			}
			nrec2 := len(s2.recs)
			undo := x.written(R, rn, nextR)
			outs := x.bodyRun(s2, fr, l, cells, curFor(rn.t(R.k), func(i int) *Term { return rn.t(R.leaves[i].cur) }, func(s *slot) *Term { return ren[s.free] }))
			for oi := range outs {
				o := &outs[oi]
				if !x.feasible(o.st) {
					if debug {
						fmt.Println("  step: infeasible", o.kind)
						for _, c := range o.st.pc.list()[depth:] {
							fmt.Println("     ", tb.Str(c))
						}
					}
					continue
				}
				if o.kind != oBack {
					if prefix && (o.kind == oRet || o.from != l.header) {
						// ends here, as a prefix of R
						cut = append(cut, *o)
						continue
					}
					if debug {
						fmt.Printf("  step: %s leaves the loop early\n", fr.fn.Name())
						for _, c := range o.st.pc.list()[depth:] {
							fmt.Println("     ", tb.Str(c))
						}
					}
					failAll = true
					undo()
					return false
				}
				next := map[*lcell][]*Term{}
				for _, c := range cells {
					ls, ok := x.nextLeaves(c, o)
					if !ok {
						failAll = true
						undo()
						return false
					}
					next[c] = ls
				}
				x.cur = o.st
				retry := false
				for _, s := range slots {
					cd := s.cs[s.i]
					if cd.idx < 0 {
						continue
					}
					want := x.relate(cd, s.c.initL[s.j], rn.t(R.leaves[cd.idx].init), nextR[cd.idx], tb.AddC(rn.t(R.k), 1))
					if !x.eqT(o.st, next[s.c][s.j], want) {
						if debug {
							fmt.Printf("  step: leaf %s not coupled to %s (cand %v): %s /// %s\n", s.c.names[s.j], R.leaves[cd.idx].name, cd, tb.Str(next[s.c][s.j]), tb.Str(want))
						}
						s.i++
						retry = true
					}
				}
				if retry {
					undo()
					return false
				}
				for _, s := range slots {
					if kept[s] && !x.writesBeyond(o.st, next[s.c][s.j], ren[s.free], tapeEnd(tb, s.c.initL[s.j])) {
						kept[s] = false
					}
					for grows[s] >= 0 && !x.implied(o.st, tb.Le(tb.AddC(ren[s.free], grows[s]), next[s.c][s.j])) {
						grows[s] = map[int64]int64{8: 2, 2: 1, 1: 0, 0: -1}[grows[s]]
					}
				}
				bk := &renamer{x, back, map[int]*Term{}}
				// a condition on R's final state says nothing about another iteration
				jp := recPath{}
				for _, c := range o.st.pc.list()[depth:] {
					if !final(c) {
						jp.conds = append(jp.conds, bk.t(c))
					}
				}
				jp.next = append(jp.next, P.next...)
				for _, c := range cells {
					for j := range c.mod {
						if c.mod[j] {
							if final(next[c][j]) {
								// a value of the final state that is not known to
								// be this iteration's: another guess of where may do
								failAll = true
								for _, s := range slots {
									if failAll && s.cs[s.i].idx >= 0 && s.free.sort.K == SInt {
										s.i++
										failAll = false
									}
								}
								undo()
								return false
							}
							jp.next = append(jp.next, bk.t(next[c][j]))
						}
					}
				}
				jp.recs = append(jp.recs, P.recs...)
				for _, q := range o.st.recs[nrec2:] {
					bad := false
					x.recTerms(q, func(t *Term) { bad = bad || final(t) })
					if !bad {
						jp.recs = append(jp.recs, bk.rec(q))
					}
				}
				joint = append(joint, jp)
			}
			undo()
			_ = nrec
		}
		return true
	}
	x.quiet++
	ok := false
	x.sv.limit = guessLimit
	for tries := 0; tries < 60; tries++ {
		if step() {
			ok = true
			break
		}
		if failAll {
			break
		}
	}
	if ok {
		// exit: from R's final state this loop must leave too
		s2 := st.clone()
		x.cur = s2
		for _, o := range x.bodyRun(s2, fr, l, cells, exitCur()) {
			if o.kind == oBack && x.feasible(o.st) {
				if debug {
					fmt.Printf("  exit: %s goes round again\n", fr.fn.Name())
				}
				ok = false
				break
			}
		}
	}
	x.quiet--
	x.sv.limit = ol
	x.cur = st
	if !ok {
		return nil, false
	}
	if debug {
		fmt.Printf("  coupled\n")
	}
	for _, s := range slots {
		if kept[s] && s.cs[s.i].idx < 0 {
			tb.prefix[s.free] = tapePrefix{s.c.initL[s.j], tapeEnd(tb, s.c.initL[s.j])}
		}
	}
	if prefix && len(cut) == 0 {
		return nil, false
	}
	if x.quiet == 0 {
		step() // obligations of the body, on record
	}
	J := &LoopRec{fn: fr.fn.Name(), k: R.k, early: R.early}
	J.leaves = append(J.leaves, R.leaves...)
	J.facts = append(J.facts, R.facts...)
	x.cur = st
	ec := exitCur()
	for _, c := range cells {
		cl := ec(c)
		for j := range c.mod {
			if c.mod[j] {
				mono := c.step[j] != nil && c.step[j].Sign() > 0
				for _, s := range slots {
					if s.c == c && s.j == j && s.cs[s.i].idx >= 0 {
						mono = R.leaves[s.cs[s.i].idx].mono
					} else if s.c == c && s.j == j {
						mono = grows[s] >= 0
					}
				}
				J.leaves = append(J.leaves, recLeaf{c.names[j], c.initL[j], cl[j], c.step[j], mono, 0})
			}
		}
	}
	for _, s := range slots {
		if s.cs[s.i].idx < 0 && s.free.sort.K != SArr {
			f := tb.Implies(tb.Eq(R.k, tb.Zero), tb.Eq(s.free, s.c.initL[s.j]))
			J.facts = append(J.facts, f)
			st.assume(f)
			if grows[s] >= 0 {
				f := tb.Le(tb.Add(s.c.initL[s.j], tb.MulC(R.k, grows[s])), s.free)
				J.facts = append(J.facts, f)
				st.assume(f)
			}
		}
	}
	J.paths = joint
	var pre []Outcome
	if len(cut) > 0 {
		J.locals = append(append([]symRange{}, R.locals...), symRange{lo, tb.nSyms})
		J2 := (&renamer{x, ren, map[int]*Term{}}).rec(J)
		J2.early = true
		pre = x.leave(cut, l, J2)
		x.cur = st
	}
	outs := x.bodyRun(st, fr, l, cells, ec)
	J.locals = append(append([]symRange{}, R.locals...), symRange{lo, tb.nSyms})
	for i := range R.leaves {
		J.leaves[i].after = R.leaves[i].after
	}
	x.appends(st, J)
	var exits []Outcome
	for _, o := range outs {
		if o.kind == oBack {
			if x.feasible(o.st) {
				panic(unsupported("loop coupling is unstable in %s", fr.fn.Name()))
			}
			continue
		}
		if o.kind == oRet || o.from != l.header {
			J.early = true
		}
		exits = append(exits, o)
	}
	return append(pre, x.leave(exits, l, J)...), true
}

// bodySide: is the given branch of the header the one that stays in the loop?
func (x *Exec) bodySide(l *actLoop, yes bool) bool {
	i := 1
	if yes {
		i = 0
	}
	return l.blocks[l.header.Succs[i]]
}
func (x *Exec) guardDepends(cs []*Term, syms func(func(*Term))) bool {
	set := map[*Term]bool{}
	syms(func(t *Term) { set[t] = true })
	dep := false
	for _, c := range cs {
		x.collectSyms(c, map[int]bool{}, func(t *Term) {
			if set[t] {
				dep = true
			}
		})
	}
	return dep
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].symNo < ts[j-1].symNo; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
