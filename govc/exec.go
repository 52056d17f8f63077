package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- state ----------

type State struct {
	pc   *PC
	heap map[int]*Obj
	recs []*LoopRec
	memo map[string][]Val // contract results on this path
	apps []opqApp         // applications of opaque contracts on this path
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{pc: s.pc, heap: h, recs: s.recs[:len(s.recs):len(s.recs)], memo: s.memo, apps: s.apps[:len(s.apps):len(s.apps)]}
}
func (s *State) setMemo(k string, v []Val) {
	m := make(map[string][]Val, len(s.memo)+1)
	for a, b := range s.memo {
		m[a] = b
	}
	m[k] = v
	s.memo = m
}
func (s *State) assume(t *Term) { s.pc = s.pc.And(t) }

type opqApp struct {
	c  *Contract
	ts []*Term
}

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	bind  []Val
	loops []*actLoop
	unr   map[*ssa.BasicBlock]int
	depth int
	defs  []deferred
}

// deferred is a call to be made when the function returns.
type deferred struct {
	in   *ssa.Defer
	fn   Val // nil for a method of an interface value or a builtin
	recv Val
	args []Val
}

func (f *Frame) clone() *Frame {
	r := make(map[ssa.Value]Val, len(f.regs))
	for k, v := range f.regs {
		r[k] = v
	}
	return &Frame{fn: f.fn, regs: r, bind: f.bind, loops: f.loops[:len(f.loops):len(f.loops)], unr: f.unr, depth: f.depth, defs: f.defs[:len(f.defs):len(f.defs)]}
}

type actLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type outKind int

const (
	oRet outKind = iota
	oBack
	oExit
)

type Outcome struct {
	kind     outKind
	st       *State
	ret      []Val
	fr       *Frame
	from, to *ssa.BasicBlock
}

// Obl is one named proof obligation (aggregated over the paths that reach it).
type Obl struct {
	Name   string
	Kind   string
	Fn     string
	Proved int
	Failed int
	Detail string
	Solver bool // needed the solver
}

type Exec struct {
	tool          *toolCtx // verifying the command line tool
	toolBad       string
	shard, shards int // verify only every shards-th outcome of the specification
	P             *Prog
	tb            *TB
	sv            *Solver
	intmode       bool
	wrapcheck     bool
	cur           *State
	nobj          int
	ver           int
	moving        bool
	quiet         int
	spec          int // >0 while executing specification code
	obls          map[string]*Obl
	order         []string
	contracts     map[*ssa.Function]*Contract
	ifaceC        map[string]*Contract
	under         *ssa.Function
	inlined       map[string]bool
	used          map[string]bool // contracts relied upon
	trusted       map[string]bool // intrinsics relied upon
	globals       map[*ssa.Global]int
	base          *State // state after package initialisation
	codes         map[string]int64
	deadline      time.Time
	steps         int
	paths         int
	ncode         int64
	loopInfo      map[*ssa.Function]map[*ssa.BasicBlock]*actLoop
	writes        func(st *State, loc *Loc)
	nrec          int
	probe         *probe
	initing       bool
	all           []*Contract
	specOf        map[*ssa.Function]*Contract
	missing       []string
	curC          *Contract
	applying      int
	total         bool
	docs          map[*Term]*doc
	xnodes        map[string]*xnode
	noNames       bool // element names do not count in comparisons
}

func NewExec(P *Prog, sv func(*TB) *Solver) *Exec {
	x := &Exec{P: P, tb: NewTB(), obls: map[string]*Obl{}, contracts: map[*ssa.Function]*Contract{}, ifaceC: map[string]*Contract{},
		inlined: map[string]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, globals: map[*ssa.Global]int{}, codes: map[string]int64{}, specOf: map[*ssa.Function]*Contract{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*actLoop{}}
	x.sv = sv(x.tb)
	x.tb.decide = func(t *Term) int {
		if x.cur == nil {
			return 0
		}
		return x.decide(x.cur, t)
	}
	x.ncode = 100
	return x
}

func (x *Exec) decide(st *State, t *Term) int {
	if t == x.tb.True {
		return 1
	}
	if t == x.tb.False {
		return -1
	}
	nt := x.tb.Not(t)
	for q := st.pc; q != nil; q = q.up {
		if q.t == t {
			return 1
		}
		if q.t == nt {
			return -1
		}
		if r, ok := q.cache[t.id]; ok && (r != 0 || q == st.pc) {
			return r
		}
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(unsupported("time budget exhausted"))
	}
	r := 0
	if x.sv.Check(st.pc, nt) == -1 {
		r = 1
	} else if x.sv.Check(st.pc, t) == -1 {
		r = -1
	}
	st.pc.cache[t.id] = r
	st.pc.cache[nt.id] = -r
	return r
}

// implied: is t certainly true here? (one query)
func (x *Exec) implied(st *State, t *Term) bool {
	if t == x.tb.True {
		return true
	}
	if t == x.tb.False {
		return x.sv.Check(st.pc, x.tb.True) == -1
	}
	nt := x.tb.Not(t)
	for q := st.pc; q != nil; q = q.up {
		if q.t == t {
			return true
		}
		if q.t == nt {
			return false
		}
		if r, ok := q.cache[t.id]; ok && (r == 1 || r == -1) {
			return r == 1
		}
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic(unsupported("time budget exhausted"))
	}
	if x.sv.Check(st.pc, nt) == -1 {
		st.pc.cache[t.id] = 1
		st.pc.cache[nt.id] = -1
		return true
	}
	return false
}

// prove records an obligation and assumes it afterwards.
func (x *Exec) prove(st *State, cond *Term, kind, label string) bool {
	ok := true
	if cond != x.tb.True {
		if x.quiet == 0 {
			ok = x.implied(st, cond)
		}
	}
	if x.quiet == 0 {
		if x.spec > 0 {
			kind = "spec-" + kind
		}
		if cl := class(kind); !x.total || cl == "panic" || cl == "pre" {
			x.record(kind, label, ok, cond, st)
		}
	}
	if cond != x.tb.True {
		st.assume(cond)
	}
	return ok
}
func (x *Exec) record(kind, label string, ok bool, cond *Term, st *State) {
	name := kind + ": " + label
	o := x.obls[name]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Fn: label}
		x.obls[name] = o
		x.order = append(x.order, name)
	}
	if ok {
		o.Proved++
		return
	}
	o.Failed++
	if o.Detail == "" && st != nil {
		var sb strings.Builder
		if cond != nil {
			fmt.Fprintf(&sb, "goal: %s\npath:\n", x.tb.Str(cond))
		}
		for _, c := range st.pc.list() {
			fmt.Fprintf(&sb, "  %s\n", x.tb.Str(c))
		}
		o.Detail = sb.String()
	}
	if debug {
		fmt.Printf("FAILED %s\n%s\n", name, o.Detail)
	}
}

// ---------- heap ----------

func (x *Exec) alloc(st *State, t types.Type, v Val, name string) *Loc {
	x.nobj++
	x.ver++
	st.heap[x.nobj] = &Obj{id: x.nobj, typ: t, v: v, name: name}
	return &Loc{obj: x.nobj, ver: x.ver}
}

func pathPrefix(p, q []Step) bool {
	if len(p) > len(q) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}
func (x *Exec) checkKills(o *Obj, l *Loc) {
	for _, k := range o.kills {
		if k.ver > l.ver && len(k.path) < len(l.path) && pathPrefix(k.path, l.path) {
			panic(unsupported("pointer into a replaced owned value"))
		}
	}
}

func (x *Exec) get(st *State, l *Loc) Val {
	o := st.heap[l.obj]
	if o == nil {
		o = x.base.heap[l.obj]
	}
	if o == nil {
		panic(unsupported("load from unknown object"))
	}
	x.checkKills(o, l)
	v := o.v
	for _, s := range l.path {
		v = x.sub(st, v, s)
	}
	return v
}
func (x *Exec) sub(st *State, v Val, s Step) Val {
	switch s.k {
	case sField:
		if a, ok := v.(StructV); ok {
			return a.fs[s.n]
		}
	case sDeref:
		if a, ok := v.(InPtr); ok {
			return a.v
		}
	case sElems:
		if a, ok := v.(InSlice); ok {
			return a.c
		}
	case sIndex:
		switch a := v.(type) {
		case TapeV:
			return x.tb.Rd(a.t, x.tb.MulC(s.idx, 8), 8)
		case Content:
			return x.contentLoad(a, s.idx)
		case ArrayV:
			return x.arrayIndex(a, s.idx)
		}
	}
	panic(unsupported("access step %d on %T", s.k, v))
}
func (x *Exec) arrayIndex(a ArrayV, i *Term) Val {
	if i.isInt() {
		k := i.iv.Int64()
		if k < 0 || k >= int64(len(a.es)) {
			panic(unsupported("constant array index out of range"))
		}
		return a.es[k]
	}
	// constant table
	bi := i
	if bi.op == "b2i" {
		vals := make([]*big.Int, len(a.es))
		ok := true
		var srt *Sort
		for j, e := range a.es {
			t, isT := e.(*Term)
			if !isT || (t.op != "bv" && t.op != "int") {
				ok = false
				break
			}
			vals[j] = t.iv
			srt = t.sort
		}
		if ok && len(vals) > 0 {
			return x.tb.Tbl(vals, srt, bi.args[0])
		}
	}
	if len(a.es) > 512 {
		panic(unsupported("symbolic index into an array of %d", len(a.es)))
	}
	v := a.es[len(a.es)-1]
	for j := len(a.es) - 2; j >= 0; j-- {
		c := x.tb.Eq(i, x.tb.Int(int64(j)))
		v = zipLeaves(a.es[j], v, func(p, q *Term) *Term { return x.tb.Ite(c, p, q) })
	}
	return v
}

func (x *Exec) set(st *State, l *Loc, v Val) {
	o := st.heap[l.obj]
	if o == nil {
		panic(unsupported("store to unknown object"))
	}
	if x.writes != nil {
		x.writes(st, l)
	}
	x.checkKills(o, l)
	if o.moved && x.spec == 0 {
		panic(unsupported("store through a pointer whose target was stored by value"))
	}
	if o.glob && x.quiet == 0 && !x.initing {
		x.prove(st, x.tb.False, "global", "no write to package-level state ("+o.name+")")
	}
	n := *o
	// overwriting an owned pointee invalidates pointers into it
	if old := x.tryGet(st, l); old != nil {
		switch old.(type) {
		case InPtr, InSlice:
			x.ver++
			n.kills = append(append([]kill{}, o.kills...), kill{l.path, x.ver})
		}
	}
	n.v = x.upd(st, o.v, o.typ, l.path, v)
	st.heap[l.obj] = &n
}
func (x *Exec) tryGet(st *State, l *Loc) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			v = nil
		}
	}()
	return x.get(st, l)
}
func stepType(t types.Type, s Step) types.Type {
	if t == nil {
		return nil
	}
	switch s.k {
	case sField:
		if isReader(t) || isWriter(t) || isSpecRd(t) || isSpecWr(t) || isBuilder(t) {
			return nil
		}
		if u, ok := under(t).(*types.Struct); ok {
			return u.Field(s.n).Type()
		}
	case sDeref:
		if u, ok := under(t).(*types.Pointer); ok {
			return u.Elem()
		}
	case sElems:
		return t
	case sIndex:
		switch u := under(t).(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
	}
	return nil
}
func (x *Exec) upd(st *State, cur Val, t types.Type, path []Step, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	nt := stepType(t, s)
	switch s.k {
	case sField:
		if a, ok := cur.(StructV); ok {
			fs := append([]Val{}, a.fs...)
			fs[s.n] = x.upd(st, a.fs[s.n], nt, path[1:], v)
			return StructV{fs}
		}
	case sDeref:
		if a, ok := cur.(InPtr); ok {
			return InPtr{a.nl, x.upd(st, a.v, nt, path[1:], v)}
		}
	case sElems:
		if a, ok := cur.(InSlice); ok {
			return InSlice{a.nl, a.ln, x.upd(st, a.c, nt, path[1:], v)}
		}
	case sIndex:
		switch a := cur.(type) {
		case TapeV:
			if len(path) == 1 {
				return TapeV{x.tb.Put(a.t, x.tb.MulC(s.idx, 8), v.(*Term))}
			}
		case Content:
			var el types.Type = nt
			nv := v
			if len(path) > 1 {
				nv = x.upd(st, x.contentLoad(a, s.idx), nt, path[1:], v)
			}
			return x.contentStore(st, a, s.idx, nv, el)
		case ArrayV:
			if !s.idx.isInt() {
				panic(unsupported("store at symbolic array index"))
			}
			k := int(s.idx.iv.Int64())
			es := append([]Val{}, a.es...)
			es[k] = x.upd(st, a.es[k], nt, path[1:], v)
			return ArrayV{es}
		}
	}
	panic(unsupported("update step %d on %T", s.k, cur))
}
func (x *Exec) markMoved(st *State, obj int) {
	if !x.moving {
		return
	}
	if o := st.heap[obj]; o != nil && !o.moved && !o.pre {
		n := *o
		n.moved = true
		st.heap[obj] = &n
	}
}

// load resolves a loaded value: inline pointers and slices become references
// to the place they were loaded from.
func (x *Exec) load(st *State, l *Loc) Val { return x.asRef(x.get(st, l), l) }

func (x *Exec) relocate(l *Loc) *Loc {
	x.ver++
	return &Loc{obj: l.obj, path: l.path, ver: x.ver}
}
func (x *Exec) asRef(v Val, l *Loc) Val {
	switch a := v.(type) {
	case InPtr:
		return PtrV{a.nl, x.relocate(l).add(Step{k: sDeref})}
	case InSlice:
		return SliceV{a.nl, x.relocate(l).add(Step{k: sElems}), x.tb.Zero, a.ln, a.ln}
	case StructV:
		ch := false
		fs := make([]Val, len(a.fs))
		for i := range fs {
			fs[i] = x.asRef(a.fs[i], l.add(Step{k: sField, n: i}))
			if _, same := fs[i].(*Term); !same {
				ch = true
			}
		}
		if ch {
			return StructV{fs}
		}
		return v
	case ArrayV:
		es := make([]Val, len(a.es))
		for i := range es {
			es[i] = x.asRef(a.es[i], l.add(Step{k: sIndex, idx: x.tb.Int(int64(i))}))
		}
		return ArrayV{es}
	}
	return v
}

// ---------- running ----------

type loopKey struct{}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*actLoop {
	if m, ok := x.loopInfo[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*actLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &actLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				// natural loop
				var add func(*ssa.BasicBlock)
				add = func(q *ssa.BasicBlock) {
					if l.blocks[q] {
						return
					}
					l.blocks[q] = true
					for _, p := range q.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	x.loopInfo[fn] = m
	return m
}

func (x *Exec) inline(st *State, fn *ssa.Function, args []Val, bind []Val, depth int) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("call to %s, which has no contract or model", fn.RelString(nil)))
	}
	if depth > 40 {
		panic(unsupported("recursion through %s", fn.Name()))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, bind: bind, unr: map[*ssa.BasicBlock]int{}, depth: depth}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = bind[i]
	}
	return x.run(st, fr, fn.Blocks[0], nil, 0)
}

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch a := v.(type) {
	case *ssa.Const:
		return x.constVal(a)
	case *ssa.Function:
		return FuncV{a, nil}
	case *ssa.Builtin:
		return OpaqueV{a.Name()}
	case *ssa.Global:
		return PtrV{x.tb.False, x.globalLoc(a)}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported("undefined register %s in %s", v.Name(), fr.fn.Name()))
	}
	return r
}
func (x *Exec) term(fr *Frame, v ssa.Value) *Term {
	t, ok := x.val(fr, v).(*Term)
	if !ok {
		panic(unsupported("%s is not a scalar (%T)", v.Name(), x.val(fr, v)))
	}
	return t
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	return x.constTerm(t, c.Value)
}
func (x *Exec) constTerm(t types.Type, v constant.Value) Val {
	s := x.scalarSort(t)
	if s == nil {
		panic(unsupported("constant of type %s", t))
	}
	switch s.K {
	case SBool:
		return x.tb.Bool(constant.BoolVal(v))
	case SStr:
		return x.tb.StrLit(constant.StringVal(v))
	case SId:
		return x.tb.UF("f:"+v.ExactString(), IdS)
	}
	n := constant.ToInt(v)
	if n.Kind() != constant.Int {
		panic(unsupported("constant %s", v))
	}
	b, _ := new(big.Int).SetString(n.ExactString(), 10)
	if s.K == SInt {
		return x.tb.BigInt(b)
	}
	return x.tb.BVbig(s.W, b)
}

func (x *Exec) globalLoc(g *ssa.Global) *Loc {
	if id, ok := x.globals[g]; ok {
		return &Loc{obj: id, ver: 1}
	}
	if g.Pkg == x.P.pkg || g.Pkg == x.P.iobit || g.Pkg == x.P.cmdp {
		panic(unsupported("global %s", g.RelString(nil)))
	}
	x.nobj++
	x.base.heap[x.nobj] = &Obj{id: x.nobj, typ: g.Type().(*types.Pointer).Elem(), v: OpaqueV{g.Pkg.Pkg.Name() + "." + g.Name()}, name: g.Name(), glob: true}
	x.globals[g] = x.nobj
	return &Loc{obj: x.nobj, ver: 1}
}

func (x *Exec) edge(st *State, fr *Frame, from, to *ssa.BasicBlock) []Outcome {
	if n := len(fr.loops); n > 0 {
		L := fr.loops[n-1]
		if to == L.header {
			return []Outcome{{kind: oBack, st: st, fr: fr, from: from, to: to}}
		}
		if !L.blocks[to] {
			return []Outcome{{kind: oExit, st: st, fr: fr, from: from, to: to}}
		}
	}
	if l := x.loopsOf(fr.fn)[to]; l != nil {
		return x.loop(st, fr, l, from)
	}
	x.phis(fr, from, to)
	return x.run(st, fr, to, from, 0)
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, x.val(fr, p.Edges[k]))
	}
	for i, p := range ph {
		fr.regs[p] = vals[i]
	}
}

func (x *Exec) where(in ssa.Instruction) string {
	return x.P.fname(in.Parent())
}

// run executes a block from instruction idx; phis are already set.
func (x *Exec) run(st *State, fr *Frame, b, prev *ssa.BasicBlock, idx int) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		x.cur = st
		x.steps++
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return x.edge(st, fr, b, b.Succs[0])
		case *ssa.If:
			c := x.term(fr, in.Cond)
			if x.probe != nil && x.probe.b == b {
				x.probe.conds = append(x.probe.conds, c)
				x.probe.sts = append(x.probe.sts, st)
				return nil
			}
			switch x.decide(st, c) {
			case 1:
				return x.edge(st, fr, b, b.Succs[0])
			case -1:
				return x.edge(st, fr, b, b.Succs[1])
			}
			st2, fr2 := st.clone(), fr.clone()
			st.assume(c)
			st2.assume(x.tb.Not(c))
			x.cur = st
			out := x.edge(st, fr, b, b.Succs[0])
			x.cur = st2
			out = append(out, x.edge(st2, fr2, b, b.Succs[1])...)
			return out
		case *ssa.Return:
			rs := make([]Val, len(in.Results))
			for j, r := range in.Results {
				rs[j] = x.val(fr, r)
			}
			return []Outcome{{kind: oRet, st: st, ret: rs}}
		case *ssa.Panic:
			x.prove(st, x.tb.False, "panic", x.where(in))
			return nil
		case *ssa.Call:
			outs := x.call(st, fr, in, in.Common())
			if len(outs) == 0 {
				return nil
			}
			if len(outs) == 1 {
				st = outs[0].st
				x.setCall(fr, in, outs[0].ret)
				continue
			}
			var all []Outcome
			for _, o := range outs {
				f2 := fr.clone()
				x.setCall(f2, in, o.ret)
				all = append(all, x.run(o.st, f2, b, prev, i+1)...)
			}
			return all
		case *ssa.RunDefers:
			if len(fr.defs) == 0 {
				continue
			}
			// last in, first out; a panic on the way is an obligation of its own
			d := fr.defs[len(fr.defs)-1]
			fr.defs = fr.defs[: len(fr.defs)-1 : len(fr.defs)-1]
			var outs []Outcome
			c := d.in.Common()
			switch {
			case c.IsInvoke():
				outs = x.invoke(st, fr, d.in, d.recv, c, d.args)
			default:
				f, ok := d.fn.(FuncV)
				if !ok {
					panic(unsupported("deferred call of %T", d.fn))
				}
				outs = x.callFn(st, f.fn, d.args, f.bind, fr.depth+1, d.in)
			}
			var all []Outcome
			for _, o := range outs {
				all = append(all, x.run(o.st, fr.clone(), b, prev, i)...)
			}
			return all
		case *ssa.Defer:
			if len(fr.loops) > 0 {
				panic(unsupported("defer in a loop of %s", fr.fn.Name()))
			}
			c := in.Common()
			d := deferred{in: in}
			for _, a := range c.Args {
				d.args = append(d.args, x.val(fr, a))
			}
			if c.IsInvoke() {
				d.recv = x.val(fr, c.Value)
			} else {
				d.fn = x.val(fr, c.Value)
			}
			fr.defs = append(fr.defs[:len(fr.defs):len(fr.defs)], d)
		case *ssa.Go, *ssa.Select, *ssa.Send:
			panic(unsupported("%T in %s", in, fr.fn.Name()))
		case *ssa.Store:
			p, ok := x.val(fr, in.Addr).(PtrV)
			if !ok {
				panic(unsupported("store through %T", x.val(fr, in.Addr)))
			}
			if !x.nonNil(st, p, in) {
				return nil
			}
			x.set(st, p.loc, x.val(fr, in.Val))
		case *ssa.MapUpdate:
			x.mapUpdate(st, fr, in)
		case *ssa.Lookup:
			outs := x.lookup(st, fr, in)
			if len(outs) == 0 {
				return nil
			}
			if len(outs) == 1 {
				st = outs[0].st
				fr.regs[in] = outs[0].ret[0]
				continue
			}
			var all []Outcome
			for _, o := range outs {
				f2 := fr.clone()
				f2.regs[in] = o.ret[0]
				all = append(all, x.run(o.st, f2, b, prev, i+1)...)
			}
			return all
		case ssa.Value:
			v, dead := x.eval(st, fr, in)
			if dead {
				return nil
			}
			fr.regs[in] = v
		default:
			panic(unsupported("instruction %T", in))
		}
	}
	panic("block without terminator")
}

func (x *Exec) setCall(fr *Frame, in *ssa.Call, ret []Val) {
	switch len(ret) {
	case 0:
		fr.regs[in] = TupleV(nil)
	case 1:
		fr.regs[in] = ret[0]
	default:
		fr.regs[in] = TupleV(ret)
	}
}

// nonNil proves that a pointer is not nil; false when it certainly is.
func (x *Exec) nonNil(st *State, p PtrV, in ssa.Instruction) bool {
	if p.loc == nil {
		x.prove(st, x.tb.False, "nil", x.where(in))
		return false
	}
	x.prove(st, x.tb.Not(p.nl), "nil", x.where(in))
	return true
}

func (x *Exec) eval(st *State, fr *Frame, v ssa.Value) (Val, bool) {
	tb := x.tb
	switch in := v.(type) {
	case *ssa.Alloc:
		el := in.Type().(*types.Pointer).Elem()
		return PtrV{tb.False, x.alloc(st, el, x.zero(el), in.Comment)}, false
	case *ssa.BinOp:
		if in.Op == token.EQL || in.Op == token.NEQ {
			t := x.eqGo(st, x.val(fr, in.X), x.val(fr, in.Y), in.X.Type())
			if in.Op == token.NEQ {
				t = tb.Not(t)
			}
			return t, false
		}
		return x.binop(st, in.Op, x.term(fr, in.X), x.term(fr, in.Y), in.X.Type(), in.Y.Type(), in), false
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p, ok := x.val(fr, in.X).(PtrV)
			if !ok {
				panic(unsupported("load through %T", x.val(fr, in.X)))
			}
			if !x.nonNil(st, p, in) {
				return nil, true
			}
			return x.load(st, p.loc), false
		case token.NOT:
			return tb.Not(x.term(fr, in.X)), false
		case token.SUB:
			t := x.term(fr, in.X)
			if t.sort.K == SInt {
				return x.wrap(st, tb.MulC(t, -1), in.Type(), in), false
			}
			return tb.BVNeg(t), false
		case token.XOR:
			t := x.term(fr, in.X)
			if t.sort.K == SInt {
				if isSigned(in.Type()) {
					return tb.AddC(tb.MulC(t, -1), -1), false
				}
				return tb.Sub(tb.BigInt(new(big.Int).Sub(pow2(intWidth(in.Type())), bigOne)), t), false
			}
			return tb.BVNot(t), false
		}
		panic(unsupported("unary %s", in.Op))
	case *ssa.Convert:
		return x.convert(st, x.val(fr, in.X), in.X.Type(), in.Type(), in), false
	case *ssa.ChangeType:
		return x.val(fr, in.X), false
	case *ssa.ChangeInterface:
		return x.val(fr, in.X), false
	case *ssa.MakeInterface:
		if isErrorT(in.Type()) {
			x.ncode++
			return ErrV{tb.Int(x.ncode)}, false
		}
		return IfaceV{in.X.Type(), x.val(fr, in.X)}, false
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, in)
	case *ssa.Extract:
		t, ok := x.val(fr, in.Tuple).(TupleV)
		if !ok {
			panic(unsupported("extract from %T", x.val(fr, in.Tuple)))
		}
		return t[in.Index], false
	case *ssa.Field:
		s, ok := x.val(fr, in.X).(StructV)
		if !ok {
			panic(unsupported("field of %T", x.val(fr, in.X)))
		}
		return s.fs[in.Field], false
	case *ssa.FieldAddr:
		p, ok := x.val(fr, in.X).(PtrV)
		if !ok {
			panic(unsupported("field address of %T", x.val(fr, in.X)))
		}
		if !x.nonNil(st, p, in) {
			return nil, true
		}
		et := in.X.Type().Underlying().(*types.Pointer).Elem()
		if isReader(et) || isWriter(et) || isBuilder(et) || isTime(et) {
			panic(unsupported("field of modelled type %s", et))
		}
		return PtrV{tb.False, p.loc.add(Step{k: sField, n: in.Field})}, false
	case *ssa.Index:
		i := x.idxTerm(fr, in.Index)
		switch a := x.val(fr, in.X).(type) {
		case ArrayV:
			x.prove(st, tb.And(tb.ge0(i), tb.Lt(i, tb.Int(int64(len(a.es))))), "index", x.where(in))
			return x.arrayIndex(a, i), false
		case *Term:
			x.prove(st, tb.And(tb.ge0(i), tb.Lt(i, tb.SLen(a))), "index", x.where(in))
			tp, off := tb.BytesOf(a)
			return tb.Rd(tp, tb.MulC(tb.Add(off, i), 8), 8), false
		}
		panic(unsupported("index of %T", x.val(fr, in.X)))
	case *ssa.IndexAddr:
		i := x.idxTerm(fr, in.Index)
		switch a := x.val(fr, in.X).(type) {
		case SliceV:
			x.prove(st, tb.And(tb.ge0(i), tb.Lt(i, a.ln)), "index", x.where(in))
			if a.loc == nil {
				return nil, true
			}
			return PtrV{tb.False, a.loc.add(Step{k: sIndex, idx: tb.Add(a.off, i)})}, false
		case PtrV:
			if !x.nonNil(st, a, in) {
				return nil, true
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.prove(st, tb.And(tb.ge0(i), tb.Lt(i, tb.Int(n))), "index", x.where(in))
			return PtrV{tb.False, a.loc.add(Step{k: sIndex, idx: i})}, false
		}
		panic(unsupported("index address of %T", x.val(fr, in.X)))
	case *ssa.Slice:
		return x.slice(st, fr, in)
	case *ssa.MakeSlice:
		n, c := x.idxTerm(fr, in.Len), x.idxTerm(fr, in.Cap)
		x.prove(st, tb.And(tb.ge0(n), tb.Le(n, c)), "make", x.where(in))
		el := under(in.Type()).(*types.Slice).Elem()
		l := x.alloc(st, in.Type(), x.zeroContent(el), "make")
		return SliceV{tb.False, l, tb.Zero, n, c}, false
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		return FuncV{in.Fn.(*ssa.Function), bs}, false
	case *ssa.MakeMap:
		l := x.alloc(st, in.Type(), MapV{}, "map")
		return PtrV{tb.False, l}, false
	}
	panic(unsupported("%T in %s", v, fr.fn.Name()))
}

func (x *Exec) idxTerm(fr *Frame, v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	t := x.term(fr, v)
	if t.sort.K == SBV {
		if isSigned(v.Type()) {
			return x.signedInt(t)
		}
		return x.tb.B2I(t)
	}
	return t
}
func (x *Exec) signedInt(t *Term) *Term {
	tb := x.tb
	if t.op == "zext" || t.op == "bv" && t.iv.Bit(t.sort.W-1) == 0 {
		return tb.B2I(t)
	}
	neg := tb.BVSlt(t, tb.BVc(t.sort.W, 0))
	return tb.Ite(neg, tb.Sub(tb.B2I(t), tb.BigInt(pow2(t.sort.W))), tb.B2I(t))
}

func (x *Exec) mapUpdate(st *State, fr *Frame, in *ssa.MapUpdate) {
	p, ok := x.val(fr, in.Map).(PtrV)
	if !ok {
		panic(unsupported("map update"))
	}
	m, ok := x.get(st, p.loc).(MapV)
	if !ok {
		panic(unsupported("map update"))
	}
	if o := st.heap[p.loc.obj]; o != nil && o.glob && !x.initing {
		panic(unsupported("write to a package-level map"))
	}
	k := x.val(fr, in.Key)
	n := MapV{append(append([]Val{}, m.keys...), k), append(append([]Val{}, m.vals...), x.val(fr, in.Value))}
	x.set(st, p.loc, n)
}

// lookup is m[k] for a map with known entries, or s[i] for a string.
func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) []Outcome {
	tb := x.tb
	if s, ok := x.val(fr, in.X).(*Term); ok {
		i := x.idxTerm(fr, in.Index)
		x.prove(st, tb.And(tb.ge0(i), tb.Lt(i, tb.SLen(s))), "index", x.where(in))
		tp, off := tb.BytesOf(s)
		return one(st, tb.Rd(tp, tb.MulC(tb.Add(off, i), 8), 8))
	}
	mt, isMap := under(in.X.Type()).(*types.Map)
	if o, ok := x.val(fr, in.X).(OpaqueV); ok && o.name == "nil" {
		if in.CommaOk {
			return one(st, TupleV{x.zero(mt.Elem()), tb.False})
		}
		return one(st, x.zero(mt.Elem()))
	}
	p, ok := x.val(fr, in.X).(PtrV)
	if !ok || !isMap || p.loc == nil {
		panic(unsupported("lookup in %T", x.val(fr, in.X)))
	}
	m, ok := x.get(st, p.loc).(MapV)
	if !ok {
		panic(unsupported("lookup in %T", x.get(st, p.loc)))
	}
	k := x.val(fr, in.Index)
	mk := func(v Val, ok *Term) Val {
		if in.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	hit := make([]*Term, len(m.keys))
	found := tb.False
	for j, key := range m.keys {
		hit[j] = x.eqGo(st, k, key, mt.Key())
		found = tb.Or(found, hit[j])
	}
	if _, isFn := under(mt.Elem()).(*types.Signature); !isFn {
		v, joined := x.joinEntries(m, hit, x.zero(mt.Elem()))
		if joined {
			return one(st, mk(v, found))
		}
	}
	var outs []Outcome
	cur := st
	for j := len(m.keys) - 1; j >= 0; j-- { // a later entry replaces an earlier one
		switch x.decide(cur, hit[j]) {
		case 1:
			return append(outs, one(cur, mk(m.vals[j], tb.True))...)
		case -1:
			continue
		}
		yes := cur.clone()
		yes.assume(hit[j])
		outs = append(outs, one(yes, mk(m.vals[j], tb.True))...)
		cur.assume(tb.Not(hit[j]))
	}
	return append(outs, one(cur, mk(x.zero(mt.Elem()), tb.False))...)
}

func (x *Exec) joinEntries(m MapV, hit []*Term, v Val) (res Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsup); !is {
				panic(r)
			}
			ok = false
		}
	}()
	for j := range hit {
		v = zipLeaves(m.vals[j], v, func(p, q *Term) *Term { return x.tb.Ite(hit[j], p, q) })
	}
	return v, true
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) (Val, bool) {
	tb := x.tb
	lo, hi, mx := x.idxTermOr(fr, in.Low), x.idxTermOr(fr, in.High), x.idxTermOr(fr, in.Max)
	if lo == nil {
		lo = tb.Zero
	}
	switch a := x.val(fr, in.X).(type) {
	case SliceV:
		if hi == nil {
			hi = a.ln
		}
		cp := a.cp
		if mx != nil {
			cp = mx
			x.prove(st, tb.And(tb.ge0(lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, a.cp)), "slice", x.where(in))
		} else {
			x.prove(st, tb.And(tb.ge0(lo), tb.Le(lo, hi), tb.Le(hi, a.cp)), "slice", x.where(in))
		}
		return SliceV{a.nl, a.loc, tb.Add(a.off, lo), tb.Sub(hi, lo), tb.Sub(cp, lo)}, false
	case *Term: // string
		if hi == nil {
			hi = tb.SLen(a)
		}
		x.prove(st, tb.And(tb.ge0(lo), tb.Le(lo, hi), tb.Le(hi, tb.SLen(a))), "slice", x.where(in))
		tp, off := tb.BytesOf(a)
		return tb.MkStr(tp, tb.Add(off, lo), tb.Sub(hi, lo)), false
	case PtrV:
		if !x.nonNil(st, a, in) {
			return nil, true
		}
		n := tb.Int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		x.prove(st, tb.And(tb.ge0(lo), tb.Le(lo, hi), tb.Le(hi, n)), "slice", x.where(in))
		return SliceV{tb.False, a.loc, lo, tb.Sub(hi, lo), tb.Sub(n, lo)}, false
	}
	panic(unsupported("slice of %T", x.val(fr, in.X)))
}
func (x *Exec) idxTermOr(fr *Frame, v ssa.Value) *Term {
	if v == nil {
		return nil
	}
	return x.idxTerm(fr, v)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) (Val, bool) {
	tb := x.tb
	v := x.val(fr, in.X)
	mk := func(val Val, ok *Term) (Val, bool) {
		if in.CommaOk {
			return TupleV{val, ok}, false
		}
		x.prove(st, ok, "type-assert", x.where(in))
		return val, ok == tb.False
	}
	_, toIface := under(in.AssertedType).(*types.Interface)
	switch a := v.(type) {
	case IfaceV:
		if a.typ == nil {
			return mk(x.zero(in.AssertedType), tb.False)
		}
		if toIface {
			if types.Implements(a.typ, under(in.AssertedType).(*types.Interface)) {
				return mk(a, tb.True)
			}
			return mk(x.zero(in.AssertedType), tb.False)
		}
		if types.Identical(a.typ, in.AssertedType) {
			return mk(a.v, tb.True)
		}
		return mk(x.zero(in.AssertedType), tb.False)
	case IfaceS:
		if toIface {
			panic(unsupported("interface-to-interface assertion on a symbolic value"))
		}
		n := x.typeName(in.AssertedType)
		if a.id.op == "uf" && strings.HasPrefix(a.id.name, "mk:") && a.id.name != "mk:"+n {
			return mk(x.zero(in.AssertedType), tb.False)
		}
		is := tb.UF("is:"+n, BoolS, a.id)
		if a.id.op == "uf" && a.id.name == "mk:"+n {
			is = tb.True
		}
		// the projections of the dynamic value
		if pt, ok := under(in.AssertedType).(*types.Pointer); ok {
			pv := x.project(a.id, n, pt.Elem())
			l := x.alloc(st, pt.Elem(), pv, "proj")
			st.heap[l.obj].pre = true
			return mk(PtrV{tb.Not(is), l}, is)
		}
		panic(unsupported("assertion to %s on a symbolic value", in.AssertedType))
	case ErrV:
		panic(unsupported("type assertion on an error"))
	}
	panic(unsupported("type assertion on %T", v))
}

// project: the value behind an interface identity, as projection functions.
func (x *Exec) project(id *Term, n string, el types.Type) Val {
	if id.op == "uf" && id.name == "mk:"+n {
		i := 0
		sk := map[string]bool{}
		_ = sk
		return x.unflatten(el, id.args, &i)
	}
	return x.build(el, "pj:"+n, func(nm string, s *Sort) *Term { return x.tb.UF(nm, s, id) })
}

// unflatten rebuilds an owned value from its leaves (JSONType left zero).
func (x *Exec) unflatten(t types.Type, args []*Term, i *int) Val {
	return x.build(t, "", func(n string, s *Sort) *Term {
		if strings.HasSuffix(n, ".JSONType") {
			return x.zeroTerm(s)
		}
		a := args[*i]
		*i++
		return a
	})
}

// ---------- operators ----------

func (x *Exec) wrap(st *State, t *Term, ty types.Type, in ssa.Instruction) *Term {
	if x.scalarSort(ty).K != SInt {
		return t
	}
	w := intWidth(ty)
	if isSigned(ty) {
		if x.wrapcheck && x.spec == 0 {
			lo := new(big.Int).Neg(pow2(w - 1))
			x.prove(st, x.tb.And(x.tb.Le(x.tb.BigInt(lo), t), x.tb.Lt(t, x.tb.BigInt(pow2(w-1)))), "overflow", x.where(in))
		}
		return t
	}
	return x.tb.FModP2(t, pow2(w))
}

// FModP2: modulus dropped when the range is known (also checks syntactic bounds)
func (b *TB) FModP2(t *Term, k *big.Int) *Term {
	lo, hi := boundsOf(t)
	if lo != nil && lo.Sign() >= 0 {
		if hi != nil && hi.Cmp(k) < 0 {
			return t
		}
		if hi == nil && b.decide != nil && k.BitLen() > 60 {
			// non negative sums of lengths: treat as not wrapping only if provable
			if b.decide(b.Lt(t, b.BigInt(k))) == 1 {
				return t
			}
		}
	}
	if t.isInt() {
		return b.BigInt(new(big.Int).Mod(t.iv, k))
	}
	return b.FModP(t, k)
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, ta, tbt types.Type, in ssa.Instruction) *Term {
	tb := x.tb
	if a.sort.K == SStr {
		switch op {
		case token.ADD:
			return tb.StrCat(a, b)
		}
		panic(unsupported("string operator %s", op))
	}
	if a.sort.K == SId {
		return tb.UF("f:"+op.String(), x.floatRes(op), a, b)
	}
	if op == token.SHL || op == token.SHR {
		return x.shift(st, op, a, b, ta, tbt, in)
	}
	if a.sort.K == SBool {
		switch op {
		case token.AND, token.LAND:
			return tb.And(a, b)
		case token.OR, token.LOR:
			return tb.Or(a, b)
		}
		panic(unsupported("bool operator %s", op))
	}
	if a.sort.K == SInt {
		switch op {
		case token.ADD:
			return x.wrap(st, tb.Add(a, b), ta, in)
		case token.SUB:
			return x.wrap(st, tb.Sub(a, b), ta, in)
		case token.MUL:
			return x.wrap(st, tb.Mul(a, b), ta, in)
		case token.QUO, token.REM:
			if !b.isInt() || b.iv.Sign() <= 0 {
				x.prove(st, tb.Not(tb.Eq(b, tb.Zero)), "div", x.where(in))
				panic(unsupported("division by a non-constant"))
			}
			q := tb.FDivBig(a, b.iv)
			if isSigned(ta) {
				switch x.decide(st, tb.ge0(a)) {
				case 1:
				case -1:
					q = tb.MulC(tb.FDivBig(tb.MulC(a, -1), b.iv), -1)
				default:
					q = tb.Ite(tb.ge0(a), q, tb.MulC(tb.FDivBig(tb.MulC(a, -1), b.iv), -1))
				}
			}
			if op == token.QUO {
				return q
			}
			if !isSigned(ta) || x.decide(st, tb.ge0(a)) == 1 {
				return tb.FMod(a, b.iv)
			}
			return tb.Sub(a, tb.MulBig(q, b.iv))
		case token.LSS:
			return tb.Lt(a, b)
		case token.LEQ:
			return tb.Le(a, b)
		case token.GTR:
			return tb.Lt(b, a)
		case token.GEQ:
			return tb.Le(b, a)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.isInt() && b.isInt() {
				r := new(big.Int)
				switch op {
				case token.AND:
					r.And(a.iv, b.iv)
				case token.OR:
					r.Or(a.iv, b.iv)
				case token.XOR:
					r.Xor(a.iv, b.iv)
				case token.AND_NOT:
					r.AndNot(a.iv, b.iv)
				}
				return tb.BigInt(r)
			}
			if op == token.AND {
				if a.isInt() {
					a, b = b, a
				}
				if b.isInt() && b.iv.Sign() >= 0 && new(big.Int).And(b.iv, new(big.Int).Add(b.iv, bigOne)).Sign() == 0 {
					return tb.FMod(a, new(big.Int).Add(b.iv, bigOne))
				}
			}
			if op == token.AND_NOT && b.isInt() && b.iv.Sign() >= 0 && new(big.Int).And(b.iv, new(big.Int).Add(b.iv, bigOne)).Sign() == 0 {
				return tb.Sub(a, tb.FMod(a, new(big.Int).Add(b.iv, bigOne)))
			}
			// through bit vectors
			if !isSigned(ta) || x.decide(st, tb.And(tb.ge0(a), tb.ge0(b))) == 1 {
				o := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[op]
				if o != "" {
					return tb.B2I(tb.BVOp(o, tb.I2B(64, a), tb.I2B(64, b)))
				}
			}
			panic(unsupported("bitwise %s on int", op))
		}
		panic(unsupported("integer operator %s", op))
	}
	// bit vectors
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return tb.BVOp("bvadd", a, b)
	case token.SUB:
		return tb.BVOp("bvsub", a, b)
	case token.MUL:
		return tb.BVOp("bvmul", a, b)
	case token.AND:
		return tb.BVOp("bvand", a, b)
	case token.OR:
		return tb.BVOp("bvor", a, b)
	case token.XOR:
		return tb.BVOp("bvxor", a, b)
	case token.AND_NOT:
		return tb.BVOp("bvand", a, tb.BVNot(b))
	case token.QUO, token.REM:
		x.prove(st, tb.Not(tb.Eq(b, tb.BVc(b.sort.W, 0))), "div", x.where(in))
		o := "bvudiv"
		if op == token.REM {
			o = "bvurem"
		}
		if sg {
			o = strings.Replace(o, "u", "s", 1)
		}
		return tb.BVOp(o, a, b)
	case token.LSS:
		if sg {
			return tb.BVSlt(a, b)
		}
		return tb.BVUlt(a, b)
	case token.LEQ:
		if sg {
			return tb.Not(tb.BVSlt(b, a))
		}
		return tb.Not(tb.BVUlt(b, a))
	case token.GTR:
		if sg {
			return tb.BVSlt(b, a)
		}
		return tb.BVUlt(b, a)
	case token.GEQ:
		if sg {
			return tb.Not(tb.BVSlt(a, b))
		}
		return tb.Not(tb.BVUlt(a, b))
	}
	panic(unsupported("operator %s", op))
}
func (x *Exec) floatRes(op token.Token) *Sort {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return BoolS
	}
	return IdS
}

func (x *Exec) shift(st *State, op token.Token, a, b *Term, ta, tbt types.Type, in ssa.Instruction) *Term {
	tb := x.tb
	// shift count as an integer constant where possible
	var k *big.Int
	if b.op == "int" || b.op == "bv" {
		k = b.iv
	}
	if isSigned(tbt) && k == nil {
		var c *Term
		if b.sort.K == SInt {
			c = tb.ge0(b)
		} else {
			c = tb.Not(tb.BVSlt(b, tb.BVc(b.sort.W, 0)))
		}
		x.prove(st, c, "shift", x.where(in))
	}
	if a.sort.K == SInt {
		if k == nil {
			if a.isInt() && op == token.SHL {
				// 1 << n for bounded n: table over a small range
				panic(unsupported("constant shifted by a symbolic count"))
			}
			panic(unsupported("integer shift by a symbolic count"))
		}
		if op == token.SHL {
			if !k.IsInt64() || k.Int64() > 200 {
				panic(unsupported("wide shift"))
			}
			return x.wrap(st, tb.MulBig(a, pow2(int(k.Int64()))), ta, in)
		}
		if k.Cmp(big.NewInt(200)) > 0 {
			panic(unsupported("wide shift"))
		}
		return tb.FDivBig(a, pow2(int(k.Int64())))
	}
	w := a.sort.W
	var c *Term
	if k != nil {
		kk := k
		if kk.Cmp(big.NewInt(int64(w))) > 0 {
			kk = big.NewInt(int64(w))
		}
		c = tb.BVbig(w, kk)
		if kk.Int64() >= int64(w) {
			if op == token.SHR && isSigned(ta) {
				c = tb.BVc(w, uint64(w-1))
			} else {
				return tb.BVc(w, 0)
			}
		}
	} else if b.sort.K == SInt {
		if x.decide(st, tb.And(tb.ge0(b), tb.Lt(b, tb.Int(int64(w))))) != 1 {
			panic(unsupported("shift by an unbounded symbolic count"))
		}
		c = tb.I2B(w, b)
	} else {
		switch {
		case b.sort.W == w:
			c = b
		case b.sort.W < w:
			c = tb.Zext(w, b)
		default:
			if x.decide(st, tb.BVUlt(b, tb.BVc(b.sort.W, uint64(w)))) != 1 {
				panic(unsupported("shift by an unbounded symbolic count"))
			}
			c = tb.Extract(w-1, 0, b)
		}
	}
	if op == token.SHL {
		return tb.BVOp("bvshl", a, c)
	}
	if isSigned(ta) {
		return tb.BVOp("bvashr", a, c)
	}
	return tb.BVOp("bvlshr", a, c)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	tb := x.tb
	fb, fok := under(from).(*types.Basic)
	tt, tok := under(to).(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tt.Info()&types.IsInteger != 0 {
		return x.convInt(st, v.(*Term), from, to)
	}
	if tok && tt.Info()&types.IsString != 0 {
		if isByteSlice(from) {
			s, ok := v.(SliceV)
			if !ok {
				panic(unsupported("string of %T", v))
			}
			if s.loc == nil {
				return tb.StrLit("")
			}
			t, off := x.sliceTape(st, s)
			return tb.MkStr(t, off, s.ln)
		}
		if fok && fb.Info()&types.IsString != 0 {
			return v
		}
		if fok && fb.Info()&types.IsInteger != 0 {
			return tb.UF("runestr", StrS, v.(*Term))
		}
	}
	if isByteSlice(to) && fok && fb.Info()&types.IsString != 0 {
		s := v.(*Term)
		tp, off := tb.BytesOf(s)
		n := tb.SLen(s)
		var c *Term
		if off == tb.Zero {
			c = tp
		} else {
			c = x.copyRaw(tp, off, n)
		}
		l := x.alloc(st, to, TapeV{c}, "bytes")
		return SliceV{tb.False, l, tb.Zero, n, n}
	}
	if tok && tt.Info()&types.IsFloat != 0 || fok && fb.Info()&types.IsFloat != 0 {
		t := v.(*Term)
		s := x.scalarSort(to)
		return tb.UF("conv:"+x.typeName(from)+":"+x.typeName(to), s, t)
	}
	panic(unsupported("conversion from %s to %s", from, to))
}

func (x *Exec) convInt(st *State, t *Term, from, to types.Type) *Term {
	tb := x.tb
	ss, ts := t.sort, x.scalarSort(to)
	fs := isSigned(from)
	fw, tw := intWidth(from), intWidth(to)
	switch {
	case ss.K == SBV && ts.K == SBV:
		switch {
		case ts.W == ss.W:
			return t
		case ts.W < ss.W:
			return tb.Extract(ts.W-1, 0, t)
		case fs:
			return tb.Sext(ts.W, t)
		default:
			return tb.Zext(ts.W, t)
		}
	case ss.K == SBV && ts.K == SInt:
		var r *Term
		if fs {
			r = x.signedInt(t)
		} else {
			r = tb.B2I(t)
		}
		if isSigned(to) {
			if fs && fw <= tw || !fs && fw < tw {
				return r
			}
			// uint64 -> int: two's complement
			hi := tb.BigInt(pow2(tw - 1))
			if x.cur != nil && x.decide(st, tb.Lt(r, hi)) == 1 {
				return r
			}
			return tb.Ite(tb.Lt(r, hi), r, tb.Sub(r, tb.BigInt(pow2(tw))))
		}
		if fs {
			return tb.FModP2(r, pow2(tw))
		}
		return r
	case ss.K == SInt && ts.K == SBV:
		return tb.I2B(ts.W, t)
	default: // Int -> Int
		if fs == isSigned(to) && fw <= tw {
			return t
		}
		if !isSigned(to) {
			if !fs && fw <= tw {
				return t
			}
			if fs && fw <= tw && !x.wrapcheck && !t.isInt() && x.decide(st, tb.ge0(t)) == 1 {
				// an int never exceeds its range
				st.assume(tb.Lt(t, tb.BigInt(pow2(fw-1))))
				return t
			}
			return tb.FModP2(t, pow2(tw))
		}
		// to signed
		if !fs && fw < tw {
			return t
		}
		half := tb.BigInt(pow2(tw - 1))
		m := t
		if fs {
			lo := tb.MulC(half, -1)
			if x.decide(st, tb.And(tb.Le(lo, t), tb.Lt(t, half))) == 1 {
				return t
			}
			m = tb.FMod(t, pow2(tw))
		} else {
			if x.decide(st, tb.Lt(t, half)) == 1 {
				return t
			}
			if fw > tw {
				m = tb.FMod(t, pow2(tw))
			}
		}
		// lengths and bit counts: an int never exceeds its range
		if b := lenLike(t); b {
			return t
		}
		return tb.Ite(tb.Lt(m, half), m, tb.Sub(m, tb.BigInt(pow2(tw))))
	}
}

// lenLike: a linear combination of lengths and small reads; treated as not
// exceeding 2^63 (stated assumption: no buffer is larger than 2^59 bytes).
func lenLike(t *Term) bool {
	switch t.op {
	case "int":
		return true
	case "lin":
		for _, a := range t.args {
			if !lenLike(a) {
				return false
			}
		}
		return true
	case "b2i":
		return t.args[0].sort.W <= 32
	case "slen":
		return true
	case "sym", "select", "uf":
		return strings.HasSuffix(arrBaseName(t), ".len")
	case "mod", "div", "ite":
		return true
	}
	return false
}

// sliceTape: the tape and byte offset behind a []byte
func (x *Exec) sliceTape(st *State, s SliceV) (*Term, *Term) {
	tb := x.tb
	if s.loc == nil {
		return tb.TZero(), tb.Zero
	}
	switch c := x.get(st, s.loc).(type) {
	case TapeV:
		return tb.Sub8(c.t, s.off, s.ln)
	case ArrayV:
		t := tb.TZero()
		for i, e := range c.es {
			t = tb.Put(t, tb.Int(int64(8*i)), e.(*Term))
		}
		return t, s.off
	}
	panic(unsupported("byte slice over %T", x.get(st, s.loc)))
}

// eqGo is Go's ==
func (x *Exec) eqGo(st *State, a, b Val, t types.Type) *Term {
	tb := x.tb
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return x.eqTerm(st, p, q)
		}
	case ErrV:
		switch q := b.(type) {
		case ErrV:
			if p.code != tb.Zero && q.code != tb.Zero {
				panic(unsupported("comparison of two errors"))
			}
			return tb.Eq(p.code, q.code)
		case IfaceV:
			if q.typ == nil {
				return tb.Eq(p.code, tb.Zero)
			}
		}
	case PtrV:
		if q, ok := b.(PtrV); ok {
			if q.loc == nil {
				return p.nl
			}
			if p.loc == nil {
				return q.nl
			}
			if sameLoc(p.loc, q.loc) {
				return tb.True
			}
			if p.loc.obj != q.loc.obj {
				return tb.And(p.nl, q.nl)
			}
		}
		if _, ok := b.(OpaqueV); ok {
			panic(unsupported("comparison with opaque pointer"))
		}
	case SliceV:
		if q, ok := b.(SliceV); ok {
			if q.loc == nil && q.nl == tb.True {
				return p.nl
			}
			if p.loc == nil && p.nl == tb.True {
				return q.nl
			}
		}
	case IfaceV, IfaceS:
		if bv, ok := b.(IfaceV); ok && bv.typ == nil {
			if av, ok := a.(IfaceV); ok {
				return tb.Bool(av.typ == nil)
			}
			return tb.Eq(a.(IfaceS).id, x.nilId())
		}
		if av, ok := a.(IfaceV); ok && av.typ == nil {
			return x.eqGo(st, b, a, t)
		}
	case OpaqueV:
		if q, ok := b.(OpaqueV); ok {
			if p.name == "nil" && q.name == "nil" {
				return tb.True
			}
			return tb.UF("opaque-eq:"+p.name+"="+q.name, BoolS)
		}
	case FuncV:
		return tb.False
	case StructV:
		if q, ok := b.(StructV); ok {
			su := under(t).(*types.Struct)
			var cs []*Term
			for i := range p.fs {
				cs = append(cs, x.eqGo(st, p.fs[i], q.fs[i], su.Field(i).Type()))
			}
			return tb.And(cs...)
		}
	case ArrayV:
		if q, ok := b.(ArrayV); ok {
			var cs []*Term
			for i := range p.es {
				cs = append(cs, x.eqGo(st, p.es[i], q.es[i], under(t).(*types.Array).Elem()))
			}
			return tb.And(cs...)
		}
	}
	panic(unsupported("== on %T and %T", a, b))
}

func (x *Exec) eqTerm(st *State, p, q *Term) *Term {
	tb := x.tb
	if p.op == "strcat" && q.op == "mkstr" {
		p, q = q, p
	}
	if p.op == "mkstr" && q.op == "strcat" {
		if ps := x.textsOf(p.args[0], tb.MulC(p.args[1], 8), tb.MulC(tb.Add(p.args[1], p.args[2]), 8)); len(ps) > 1 {
			p = tb.StrLit("")
			for _, t := range ps {
				p = tb.StrCat(p, t)
			}
		}
	}
	if p.sort.K == SStr && p != q {
		// a literal against bytes: compare length and content
		if p.op == "strlit" {
			p, q = q, p
		}
		if q.op == "strlit" && (p.op == "mkstr") {
			n := len(q.name)
			if n == 0 {
				return tb.Eq(tb.SLen(p), tb.Zero)
			}
			if n <= 64 {
				bv := tb.BVbig(8*n, new(big.Int).SetBytes([]byte(q.name)))
				return tb.And(tb.Eq(tb.SLen(p), tb.Int(int64(n))), tb.Eq(tb.Rd(p.args[0], tb.MulC(p.args[1], 8), 8*n), bv))
			}
		}
		if q.op == "strlit" && q.name == "" {
			return tb.Eq(tb.SLen(p), tb.Zero)
		}
	}
	return tb.Eq(p, q)
}

// ---------- calls ----------

func (x *Exec) call(st *State, fr *Frame, in *ssa.Call, c *ssa.CallCommon) []Outcome {
	var args []Val
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, x.val(fr, a))
		}
		return x.invoke(st, fr, in, recv, c, args)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(st, fr, in, f.Name(), c, args)
	case *ssa.Function:
		return x.callFn(st, f, args, nil, fr.depth+1, in)
	}
	fv, ok := x.val(fr, c.Value).(FuncV)
	if !ok {
		panic(unsupported("call of %T in %s", x.val(fr, c.Value), fr.fn.Name()))
	}
	return x.callFn(st, fv.fn, args, fv.bind, fr.depth+1, in)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []Val, depth int, in ssa.Instruction) []Outcome {
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") {
		// a method value: the wrapper's body calls the method
		return x.inline(st, fn, args, bind, depth)
	}
	if outs, ok := x.intrinsic(st, fn, args, in, depth); ok {
		return outs
	}
	if x.tool != nil {
		if outs, ok := x.component(st, fn, args, in); ok {
			return outs
		}
	} else if c := x.contracts[fn]; c != nil && fn != x.under && !c.inline {
		return x.applyContract(st, c, args, depth, in)
	}
	if fn.Pkg != x.P.pkg && fn.Pkg != x.P.cmdp && fn.Synthetic == "" && !(fn.Pkg != nil && fn.Blocks != nil && (stdlib[fn.Pkg.Pkg.Path()] || x.tool != nil && fn.Pkg.Pkg.Path() == cobraPath && fn.Signature.Recv() == nil)) {
		panic(unsupported("call to %s, which has no contract or model", fn.RelString(nil)))
	}
	isSpec := x.P.isSpecFn(fn)
	if isSpec {
		if c := x.specOf[fn]; c != nil && !(x.curC != nil && x.curC.spec == fn) && (c.opaque && !(x.curC != nil && x.curC.reveal) || x.curC != nil && x.curC.hide[c.name] && c.fn != nil) {
			return x.applyOpaque(st, c, args, depth)
		}
		x.spec++
		defer func() { x.spec-- }()
	} else {
		x.inlined[x.P.fname(fn)] = true
	}
	rs := fn.Signature.Results()
	if rs.Len() != 1 || x.scalarSort(rs.At(0).Type()) != StrS {
		return x.inline(st, fn, args, bind, depth)
	}
	before := st.clone()
	return x.joinText(before, x.inline(st, fn, args, bind, depth))
}

// joinText joins the outcomes of a call that only chose between texts into
// one, so that a sequence of such choices does not multiply the paths.
func (x *Exec) joinText(before *State, outs []Outcome) []Outcome {
	if len(outs) < 2 || len(outs) > 8 {
		return outs
	}
	var conds []*Term
	for _, o := range outs {
		if len(o.st.recs) != len(before.recs) || len(o.st.apps) != len(before.apps) || len(o.st.memo) != len(before.memo) {
			return outs
		}
		for id, b := range before.heap {
			if o.st.heap[id] != b {
				return outs
			}
		}
		c := x.tb.True
		p := o.st.pc
		for ; p != before.pc; p = p.up {
			if p.up == nil {
				return outs
			}
			c = x.tb.And(p.t, c)
		}
		conds = append(conds, c)
	}
	res := outs[len(outs)-1].ret[0].(*Term)
	for i := len(outs) - 2; i >= 0; i-- {
		res = x.tb.Ite(conds[i], outs[i].ret[0].(*Term), res)
	}
	x.cur = before
	return one(before, res)
}

func (x *Exec) invoke(st *State, fr *Frame, in ssa.Instruction, recv Val, c *ssa.CallCommon, args []Val) []Outcome {
	switch r := recv.(type) {
	case IfaceV:
		if r.typ == nil {
			x.prove(st, x.tb.False, "nil", x.where(in))
			return nil
		}
		fn := x.P.prog.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsupported("method %s of %s", c.Method.Name(), r.typ))
		}
		return x.callFn(st, fn, append([]Val{r.v}, args...), nil, fr.depth+1, in)
	case ErrV:
		if c.Method.Name() == "Error" {
			x.prove(st, x.tb.Not(x.tb.Eq(r.code, x.tb.Zero)), "nil", x.where(in))
			return one(st, x.errText(r.code))
		}
	case IfaceS:
		x.prove(st, x.tb.Not(x.tb.Eq(r.id, x.nilId())), "nil", x.where(in))
		n := types.TypeString(c.Value.Type(), func(p *types.Package) string { return "" }) + "." + c.Method.Name()
		if cc := x.ifaceC[n]; cc != nil {
			return x.applyContract(st, cc, append([]Val{recv}, args...), fr.depth+1, in)
		}
		panic(unsupported("method %s of a symbolic interface", n))
	}
	panic(unsupported("method call on %T", recv))
}

func one(st *State, v ...Val) []Outcome { return []Outcome{{st: st, ret: v}} }

func (x *Exec) builtin(st *State, fr *Frame, in *ssa.Call, name string, c *ssa.CallCommon, args []Val) []Outcome {
	tb := x.tb
	if name == "recover" {
		// that nothing panics is proved, so there is nothing to recover from
		return one(st, IfaceV{})
	}
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Term:
			return one(st, tb.SLen(a))
		case SliceV:
			if name == "cap" {
				return one(st, a.cp)
			}
			return one(st, a.ln)
		case ArrayV:
			return one(st, tb.Int(int64(len(a.es))))
		case PtrV:
			if ar, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := ar.Elem().Underlying().(*types.Array); ok {
					return one(st, tb.Int(at.Len()))
				}
			}
		}
	case "append":
		return x.appendB(st, args, c, in)
	case "copy":
		d, ok := args[0].(SliceV)
		if !ok || !isByteSlice(c.Args[0].Type()) {
			break
		}
		var st1, so, sn *Term
		switch s := args[1].(type) {
		case SliceV:
			st1, so = x.sliceTape(st, s)
			sn = s.ln
		case *Term:
			st1, so = tb.BytesOf(s)
			sn = tb.SLen(s)
		}
		do := func(st *State, n *Term) []Outcome {
			if d.loc == nil || n == tb.Zero {
				return one(st, n)
			}
			cv, ok := x.get(st, d.loc).(TapeV)
			if !ok {
				panic(unsupported("copy into %T", x.get(st, d.loc)))
			}
			x.set(st, d.loc, TapeV{tb.Copy(cv.t, tb.MulC(d.off, 8), st1, so, n)})
			return one(st, n)
		}
		switch x.decide(st, tb.Le(sn, d.ln)) {
		case 1:
			return do(st, sn)
		case -1:
			return do(st, d.ln)
		}
		s2 := st.clone()
		st.assume(tb.Le(sn, d.ln))
		s2.assume(tb.Lt(d.ln, sn))
		x.cur = st
		o := do(st, sn)
		x.cur = s2
		return append(o, do(s2, d.ln)...)
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if len(args) == 2 && a.sort.K == SInt {
			le := tb.Le(a, b)
			if name == "max" {
				le = tb.Le(b, a)
			}
			switch x.decide(st, le) {
			case 1:
				return one(st, a)
			case -1:
				return one(st, b)
			}
			return one(st, tb.Ite(le, a, b))
		}
	case "print", "println", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" {
			if p, ok := args[0].(PtrV); ok {
				if !x.nonNil(st, p, in) {
					return nil
				}
			}
			return one(st, args[0])
		}
		return one(st)
	}
	panic(unsupported("builtin %s on %T", name, args[0]))
}

func (x *Exec) appendB(st *State, args []Val, c *ssa.CallCommon, in *ssa.Call) []Outcome {
	tb := x.tb
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	d := args[0].(SliceV)
	// appended part
	if isByte(el) {
		var t, o, n *Term
		switch s := args[1].(type) {
		case SliceV:
			t, o = x.sliceTape(st, s)
			n = s.ln
		case *Term:
			t, o = tb.BytesOf(s)
			n = tb.SLen(s)
		default:
			panic(unsupported("append of %T", args[1]))
		}
		return x.appendBytes(st, d, t, o, n, c.Args[0].Type())
	}
	return x.appendElems(st, args, c, in)
}

// appendBytes appends n bytes of the tape t, from byte o.
func (x *Exec) appendBytes(st *State, d SliceV, t, o, n *Term, typ types.Type) []Outcome {
	tb := x.tb
	if n == tb.Zero {
		return one(st, d)
	}
	inPlace := func(st *State) []Outcome {
		cv, ok := x.get(st, d.loc).(TapeV)
		if !ok {
			panic(unsupported("append into %T", x.get(st, d.loc)))
		}
		x.set(st, d.loc, TapeV{tb.Copy(cv.t, tb.MulC(tb.Add(d.off, d.ln), 8), t, o, n)})
		nl := tb.Add(d.ln, n)
		return one(st, SliceV{tb.False, d.loc, d.off, nl, d.cp})
	}
	grow := func(st *State) []Outcome {
		base := tb.TZero()
		if d.loc != nil {
			bt, bo := x.sliceTape(st, d)
			base = tb.Copy(base, tb.Zero, bt, bo, d.ln)
		}
		nt := tb.Copy(base, tb.MulC(d.ln, 8), t, o, n)
		l := x.alloc(st, typ, TapeV{nt}, "append")
		nl := tb.Add(d.ln, n)
		nilres := tb.False
		if d.nl != tb.False {
			nilres = tb.And(d.nl, tb.Eq(n, tb.Zero))
		}
		return one(st, SliceV{nilres, l, tb.Zero, nl, nl})
	}
	if d.loc == nil {
		return grow(st)
	}
	fits := tb.Le(tb.Add(d.ln, n), d.cp)
	switch x.decide(st, fits) {
	case 1:
		return inPlace(st)
	case -1:
		return grow(st)
	}
	s2 := st.clone()
	st.assume(fits)
	s2.assume(tb.Not(fits))
	x.cur = st
	o1 := inPlace(st)
	x.cur = s2
	return append(o1, grow(s2)...)
}

func (x *Exec) appendElems(st *State, args []Val, c *ssa.CallCommon, in *ssa.Call) []Outcome {
	tb := x.tb
	el := under(c.Args[0].Type()).(*types.Slice).Elem()
	d := args[0].(SliceV)
	s, ok := args[1].(SliceV)
	if !ok {
		panic(unsupported("append of %T", args[1]))
	}
	if s.loc == nil || s.ln == tb.Zero {
		return one(st, d)
	}
	if !s.ln.isInt() || s.ln.iv.Int64() > 16 {
		panic(unsupported("append of a symbolic number of structures"))
	}
	// source elements
	k := int(s.ln.iv.Int64())
	var elems []Val
	for i := 0; i < k; i++ {
		elems = append(elems, x.load(st, s.loc.add(Step{k: sIndex, idx: tb.AddC(s.off, int64(i))})))
	}
	var base Content
	if d.loc == nil {
		base = x.zeroContent(el).(Content)
	} else {
		if x.decide(st, tb.Le(tb.AddC(d.ln, int64(k)), d.cp)) != -1 && d.cp != d.ln {
			// spare capacity: writing in place is only visible through aliases of
			// the spare part, which the subset does not allow
			x.trusted["append: spare capacity of structure slices is not aliased"] = true
		}
		switch cv := x.get(st, d.loc).(type) {
		case Content:
			base = cv
		case ArrayV:
			base = x.arrayToContent(st, cv, 0, el).(Content)
		default:
			panic(unsupported("append to %T", cv))
		}
		if d.off != tb.Zero {
			panic(unsupported("append to a shifted slice"))
		}
	}
	for i, e := range elems {
		base = x.contentStore(st, base, tb.AddC(d.ln, int64(i)), e, el)
	}
	l := x.alloc(st, c.Args[0].Type(), base, "append")
	nl := tb.AddC(d.ln, int64(k))
	return one(st, SliceV{tb.False, l, tb.Zero, nl, nl})
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
