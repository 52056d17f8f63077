package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A contract ties a function of /repo to a specification function of the same
// signature. Verifying it runs the specification on a copy of the symbolic
// pre-state, then the real body, and compares results and post-states.
type Contract struct {
	name          string
	fn            *ssa.Function
	spec          *ssa.Function
	requires      []*ssa.Function
	ensures       []*ssa.Function
	opaque        bool
	modifies      map[int]bool    // opaque: parameters whose pointee is rewritten
	modPath       map[int]string  // opaque: only what this pointer field points to
	hide          map[string]bool // contracts this one uses opaquely
	intmode       bool
	wrap          bool
	errstate      bool
	nilrecv       bool
	fresh         bool            // the receiver points to a zero value
	total         bool            // no panic outside the specification's domain either
	unroll        map[string]bool // functions whose loops a lemma goes through as long as the path tells how
	lemma         bool
	noreplay      bool
	inline        bool // verified, but callers see the body
	reveal        bool // lemma: opaque callees show their specification
	iface         bool
	refines       []refinement
	refineMissing bool
	broken        string // why its text no longer fits the source
	sigChanged    bool
	group         string
	props         map[string][]string // obligation class -> properties
	dir           directive
}

// refinement: what an interface contract promises about this method.
type refinement struct {
	typ types.Type // the implementing type
	en  *ssa.Function
	ic  *Contract
}

// refineAll gives every implementer of an interface under contract the
// interface's postconditions as obligations.
func (x *Exec) refineAll() {
	P := x.P
	byFn := x.contracts
	sc := P.pkg.Pkg.Scope()
	for _, key := range sortedKeysC(x.ifaceC) {
		ic := x.ifaceC[key]
		if len(ic.ensures) == 0 {
			continue
		}
		in, mn, _ := strings.Cut(key, ".")
		it, ok := under(P.typeOf(in)).(*types.Interface)
		if !ok {
			continue
		}
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			var rt types.Type = tn.Type()
			if !types.Implements(rt, it) {
				rt = types.NewPointer(tn.Type())
				if !types.Implements(rt, it) {
					continue
				}
			}
			sel := P.prog.MethodSets.MethodSet(rt).Lookup(P.pkg.Pkg, mn)
			if sel == nil {
				continue
			}
			obj := sel.Obj().(*types.Func)
			fn := P.prog.FuncValue(obj)
			if sel.Recv() != rt && len(sel.Index()) > 1 {
				fn = nil
			}
			c := byFn[fn]
			if c == nil {
				c = &Contract{name: types.TypeString(rt, func(*types.Package) string { return "" }) + "." + mn + " (implements " + in + ")", spec: ic.spec, props: map[string][]string{"all": ic.props["all"]}, refineMissing: true}
				x.all = append(x.all, c)
				continue
			}
			for _, en := range ic.ensures {
				c.refines = append(c.refines, refinement{rt, en, ic})
			}
		}
	}
}
func sortedKeysC(m map[string]*Contract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (P *Prog) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() {
		return false
	}
	return P.specFile[P.fset.Position(fn.Pos()).Filename]
}

func (P *Prog) typeByName(n string) types.Type {
	star := strings.HasPrefix(n, "*")
	t := P.typeOf(strings.TrimPrefix(n, "*"))
	if t == nil {
		return nil
	}
	if star {
		return types.NewPointer(t)
	}
	return t
}

// classes of obligation kinds
func class(kind string) string {
	kind = strings.TrimPrefix(kind, "spec-")
	switch kind {
	case "panic", "nil", "index", "slice", "make", "div", "shift", "type-assert", "termination", "bits", "skip", "unsupported-panic":
		return "panic"
	case "aligned":
		return "assert"
	}
	return kind
}

func (x *Exec) loadContracts() error {
	P := x.P
	find := func(n string) *ssa.Function { return P.funcs[n] }
	for _, d := range P.dirs {
		if d.kind == "define" {
			continue
		}
		sf := find(d.fn)
		why := x.broken(sf)
		if sf == nil {
			why = P.broken[d.fn]
			if why == "" {
				return fmt.Errorf("spec function %s not found", d.fn)
			}
		}
		c := &Contract{name: d.args, spec: sf, broken: why, props: map[string][]string{}, dir: d, modifies: map[int]bool{}, modPath: map[int]string{}, hide: map[string]bool{}}
		for k, v := range d.opts {
			switch k {
			case "requires", "ensures":
				for _, n := range strings.Fields(v) {
					f := find(n)
					if f == nil {
						if P.broken[n] != "" {
							c.broken = P.broken[n]
							continue
						}
						return fmt.Errorf("%s: no function %s", d.pos, n)
					}
					if w := x.broken(f); w != "" {
						c.broken = w
					}
					if k == "requires" {
						c.requires = append(c.requires, f)
					} else {
						c.ensures = append(c.ensures, f)
					}
				}
			case "opaque":
				c.opaque = true
			case "modifies":
				if sf == nil {
					break
				}
				for _, n := range strings.Fields(v) {
					n, f, _ := strings.Cut(n, ".")
					for i, p := range sf.Params {
						if p.Name() == n {
							c.modifies[i] = true
							if f != "" {
								c.modPath[i] = f
							}
						}
					}
				}
			case "hide":
				for _, n := range strings.Fields(v) {
					c.hide[n] = true
				}
			case "unroll":
				c.unroll = map[string]bool{}
				for _, n := range strings.Fields(v) {
					c.unroll[n] = true
				}
			case "intmode":
				c.intmode = true
			case "wrap":
				c.wrap = true
			case "errstate":
				c.errstate = true
			case "fresh":
				c.fresh = true
			case "nilrecv":
				c.nilrecv = true
			case "total":
				c.total = true
			case "inline":
				c.inline = true
			case "noreplay":
				c.noreplay = true
			case "reveal":
				c.reveal = true
			case "group":
				c.group = v
			case "post", "frame", "err", "panic", "assert", "global", "address", "overflow", "ensures-post", "all":
				c.props[k] = strings.Fields(v)
			default:
				return fmt.Errorf("%s: unknown option %s", d.pos, k)
			}
		}
		if d.kind == "lemma" {
			c.lemma = true
			c.name = "lemma " + d.fn
			x.all = append(x.all, c)
			continue
		}
		if strings.HasPrefix(d.args, "interface ") {
			if c.broken != "" {
				return fmt.Errorf("the contract of %s no longer type-checks: %s", d.args, c.broken)
			}
			c.iface = true
			c.opaque = true
			c.name = strings.TrimPrefix(d.args, "interface ")
			x.ifaceC[c.name] = c
			x.specOf[sf] = c
			continue
		}
		c.fn = find(d.args)
		if c.broken != "" {
			// callers are checked against what they actually call
			x.all = append(x.all, c)
			continue
		}
		x.specOf[sf] = c
		if c.fn == nil {
			// renamed or removed: the callers are then checked against what they
			// actually call
			x.missing = append(x.missing, c.name)
			c.opaque = false
			x.all = append(x.all, c)
			continue
		}
		if types.TypeString(c.fn.Signature, nil) != types.TypeString(sf.Signature, nil) && !sameSig(c.fn, sf) {
			c.broken = fmt.Sprintf("the signature of %s is not that of its specification %s any more", d.args, d.fn)
			c.sigChanged = true
			c.opaque = false
			x.all = append(x.all, c)
			continue
		}
		x.contracts[c.fn] = c
		x.all = append(x.all, c)
	}
	x.refineAll()
	return nil
}

// helper: an unexported function that implements nothing, which a change may
// rename, inline or give another shape without anyone noticing.
func (c *Contract) helper() bool {
	n := c.name[strings.LastIndexByte(c.name, '.')+1:]
	if c.lemma || c.iface || n == "" || n[0] >= 'A' && n[0] <= 'Z' {
		return false
	}
	switch n {
	case "decode", "encode", "writeTo", "length":
		return false
	}
	return true
}

// broken: a specification function leaning on contract text that no longer
// type-checks.
func (x *Exec) broken(f *ssa.Function) string {
	if len(x.P.broken) == 0 {
		return ""
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) string
	walk = func(f *ssa.Function) string {
		if f == nil || seen[f] {
			return ""
		}
		seen[f] = true
		if w := x.P.broken[f.Name()]; w != "" && x.P.isSpecFn(f) {
			return w
		}
		for _, a := range f.AnonFuncs {
			if w := walk(a); w != "" {
				return w
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (g.Pkg == x.P.pkg || g.Pkg == x.P.cmdp) && x.P.isSpecFn(g) {
						if w := walk(g); w != "" {
							return w
						}
					}
				}
			}
		}
		return ""
	}
	return walk(f)
}

func sameSig(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	return types.Identical(a.Signature.Results(), b.Signature.Results())
}

// propsOf an obligation kind under this contract
func (c *Contract) propsOf(kind string) []string {
	cl := class(kind)
	if cl == "refine" {
		m := map[string]bool{}
		for _, r := range c.refines {
			for _, p := range r.ic.props["all"] {
				m[p] = true
			}
		}
		return sortedKeys(m)
	}
	if p, ok := c.props[cl]; ok {
		return p
	}
	switch cl {
	case "panic":
		return []string{"C01"}
	case "global":
		return []string{"C27"}
	case "err":
		return []string{"C13"}
	case "frame":
		return []string{"C20"}
	}
	return c.props["all"]
}

// ---------- package initialisation ----------

func (x *Exec) initProgram() (err error) {
	st := &State{pc: newPC(), heap: map[int]*Obj{}}
	x.base = st
	x.cur = st
	x.initing = true
	x.quiet++
	defer func() {
		x.initing = false
		x.quiet--
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				err = u
				return
			}
			panic(r)
		}
	}()
	for _, p := range []*ssa.Package{x.P.iobit, x.P.pkg, x.P.cmdp} {
		if p == nil {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				el := g.Type().(*types.Pointer).Elem()
				var v Val
				func() {
					defer func() {
						if r := recover(); r != nil {
							v = OpaqueV{g.Name()}
						}
					}()
					v = x.zero(el)
				}()
				l := x.alloc(st, el, v, p.Pkg.Name()+"."+g.Name())
				x.globals[g] = l.obj
			}
		}
		if p == x.P.cmdp {
			x.toolInit(st)
			continue
		}
		outs := x.inline(st, p.Func("init"), nil, nil, 0)
		if len(outs) != 1 {
			return fmt.Errorf("initialisation of %s forks", p.Pkg.Path())
		}
		st = outs[0].st
	}
	st.pc = newPC()
	st.recs = nil
	for id, o := range st.heap { // the variables and what they point to
		n := *o
		n.glob = true
		st.heap[id] = &n
	}
	x.base = st
	return nil
}

// ---------- verification of one contract ----------

type Result struct {
	c       *Contract
	obls    []*Obl
	err     string
	paths   int
	wall    time.Duration
	queries int
	stime   time.Duration
	unknown int
	inlined []string
	used    []string
	trusted []string
}

func (x *Exec) param(st *State, t types.Type, name string) (Val, *Loc) {
	v := x.build(t, name, func(n string, s *Sort) *Term { return x.tb.Sym(n, s) })
	l := x.alloc(st, t, v, name)
	st.heap[l.obj].pre = true
	return v, l
}

func (x *Exec) verify(c *Contract, budget time.Duration) (res Result) {
	t0 := time.Now()
	res.c = c
	x.deadline = t0.Add(budget)
	x.intmode, x.wrapcheck = c.intmode, c.wrap
	x.under = c.fn
	x.curC = c
	x.tool = nil
	if c.spec != nil && c.spec.Pkg == x.P.cmdp && x.P.cmdp != nil {
		x.tool = &toolCtx{subs: map[int][]PtrV{}, owner: map[int]int{}, flags: map[int]map[string]*Loc{}, abs: map[int]bool{}}
	}
	x.obls, x.order = map[string]*Obl{}, nil
	q0, s0, u0 := x.sv.Queries, x.sv.Time, x.sv.Unknown
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				if debug {
					panic(r)
				}
				u = unsup{fmt.Sprint("internal: ", r)}
			}
			res.err = u.Error()
		}
		x.quiet, x.spec, x.probe, x.writes, x.moving = 0, 0, nil, nil, false
		x.total, x.applying = false, 0
		for _, n := range x.order {
			res.obls = append(res.obls, x.obls[n])
		}
		res.wall = time.Since(t0)
		res.queries, res.stime, res.unknown = x.sv.Queries-q0, x.sv.Time-s0, x.sv.Unknown-u0
		res.inlined, res.used, res.trusted = sortedKeys(x.inlined), sortedKeys(x.used), sortedKeys(x.trusted)
	}()
	x.inlined, x.used, x.trusted = map[string]bool{}, map[string]bool{}, map[string]bool{}
	x.quiet, x.spec = 0, 0
	st := x.base.clone()
	x.cur = st
	fn := c.fn
	if fn == nil {
		fn = c.spec
	}
	var vals []Val
	var specArgs, realArgs []Val
	var specLoc, realLoc []*Loc
	for i, p := range fn.Params {
		v, l := x.param(st, p.Type(), p.Name())
		if c.fresh && i == 0 {
			v = InPtr{v.(InPtr).nl, x.buildZ(under(p.Type()).(*types.Pointer).Elem())}
			l = x.alloc(st, p.Type(), v, p.Name())
			st.heap[l.obj].pre = true
		}
		vals = append(vals, v)
		if t, ok := v.(*Term); ok && t.sort == IntS && (c.wrap || c.intmode) {
			if w := intWidth(p.Type()); isSigned(p.Type()) {
				st.assume(x.tb.And(x.tb.Le(x.tb.BigInt(new(big.Int).Neg(pow2(w-1))), t), x.tb.Lt(t, x.tb.BigInt(pow2(w-1)))))
			} else {
				st.assume(x.tb.Lt(t, x.tb.BigInt(pow2(w))))
			}
		}
		specLoc = append(specLoc, l)
		specArgs = append(specArgs, x.load(st, l))
		if !c.lemma {
			l2 := x.alloc(st, p.Type(), v, p.Name())
			st.heap[l2.obj].pre = true
			realLoc = append(realLoc, l2)
			realArgs = append(realArgs, x.load(st, l2))
		}
		if ip, ok := v.(InPtr); ok && (i == 0 && fn.Signature.Recv() != nil && !c.nilrecv || c.lemma) {
			st.assume(x.tb.Not(ip.nl))
		}
	}
	states := []*State{st}
	for _, rq := range c.requires {
		var next []*State
		for _, s := range states {
			x.cur = s
			x.spec++
			x.quiet++
			outs := x.inline(s, rq, specArgs, nil, 1)
			x.quiet--
			x.spec--
			for _, o := range outs {
				o.st.assume(o.ret[0].(*Term))
				if o.st.pc.t != x.tb.False && x.feasible(o.st) {
					next = append(next, o.st)
				}
			}
		}
		states = next
	}
	// vacuity: the precondition is satisfiable
	x.record("vacuity", c.name+": precondition satisfiable", len(states) > 0, nil, nil)
	ends := 0
	var starts []*State
	if c.total {
		for _, s := range states {
			starts = append(starts, s.clone())
		}
	}
	for _, s := range states {
		x.cur = s
		if c.lemma {
			x.spec++
			outs := x.inline(s, c.spec, specArgs, nil, 1)
			x.spec--
			for _, o := range outs {
				if x.feasible(o.st) {
					ends++
				}
			}
			continue
		}
		x.spec++
		so := x.inline(s, c.spec, specArgs, nil, 1)
		x.spec--
		for oi, o := range so {
			if x.shards > 1 && oi%x.shards != x.shard {
				continue
			}
			// leaves of the specification's results, before the real run
			x.cur = o.st
			ro := x.inline(rewound(o.st.clone()), c.fn, realArgs, nil, 1)
			for _, r := range ro {
				if !x.feasible(r.st) {
					continue
				}
				ends++
				x.paths++
				x.compare(c, r.st, o.ret, r.ret, specLoc, realLoc, vals)
				for _, en := range c.ensures {
					x.cur = r.st
					x.spec++
					x.quiet++
					eo := x.inline(r.st.clone(), en, append(append([]Val{}, realArgs...), r.ret...), nil, 1)
					x.quiet--
					x.spec--
					for _, e := range eo {
						x.cur = e.st
						x.prove(e.st, e.ret[0].(*Term), "ensures-post", c.name+": "+en.Name())
					}
				}
				for _, rf := range c.refines {
					x.refine(c, rf, r.st, realArgs, realLoc, r.ret)
				}
			}
		}
	}
	x.record("vacuity", c.name+": some path reaches the end", ends > 0, nil, nil)
	if c.total && x.shard == 0 {
		x.total = true
		for _, s := range starts {
			x.cur = s
			x.inline(s, c.fn, realArgs, nil, 1)
		}
		x.total = false
	}
	res.paths = ends
	return
}

// refine proves an interface's postcondition for one implementer's results.
func (x *Exec) refine(c *Contract, rf refinement, st *State, realArgs []Val, realLoc []*Loc, ret []Val) {
	st = st.clone()
	recv := realArgs[0]
	if _, isp := rf.typ.(*types.Pointer); isp {
		if _, fp := c.fn.Signature.Recv().Type().(*types.Pointer); !fp {
			recv = PtrV{x.tb.False, realLoc[0]}
		}
	}
	args := append([]Val{IfaceV{rf.typ, recv}}, ret...)
	x.cur = st
	x.spec++
	x.quiet++
	eo := x.inline(st, rf.en, args, nil, 1)
	x.quiet--
	x.spec--
	for _, e := range eo {
		x.cur = e.st
		ok := x.implied(e.st, e.ret[0].(*Term))
		x.record("refine", c.name+": "+rf.en.Name(), ok, e.ret[0].(*Term), e.st)
	}
}

func (x *Exec) compare(c *Contract, st *State, sr, rr []Val, specLoc, realLoc []*Loc, vals []Val) {
	tb := x.tb
	x.cur = st
	sig := c.fn.Signature
	rs := sig.Results()
	// error results first
	errNil := tb.True
	for i := 0; i < rs.Len(); i++ {
		if !isErrorT(rs.At(i).Type()) {
			continue
		}
		a, b := sr[i].(ErrV), rr[i].(ErrV)
		ok := x.eqT(st, a.code, b.code)
		x.record("err", c.name+": error result", ok, tb.Eq(a.code, b.code), st)
		errNil = tb.And(errNil, tb.Eq(a.code, tb.Zero))
		if !ok {
			return
		}
	}
	if !c.errstate && errNil != tb.True {
		switch x.decide(st, errNil) {
		case -1:
			return
		case 0:
			st = st.clone()
			st.assume(errNil)
			x.cur = st
		}
	}
	put := func(kind string) func(*State, string, bool, *Term) {
		return func(s *State, n string, ok bool, cond *Term) {
			x.record(kind, c.name+": "+cleanName(n), ok, cond, s)
		}
	}
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrorT(t) {
			continue
		}
		a, b := x.own(st, sr[i], t), x.own(st, rr[i], t)
		n := "result"
		if rs.Len() > 2 {
			n = fmt.Sprintf("result%d", i)
		}
		x.eqVal(st, a, b, t, n, put("post"))
	}
	for i, p := range c.fn.Params {
		t := p.Type()
		// by-value data cannot be seen by the caller, but what it points to can
		a, b := x.own(st, x.get(st, specLoc[i]), t), x.own(st, x.get(st, realLoc[i]), t)
		same := true
		if sameShape(a, vals[i]) {
			la, lv := []*Term{}, []*Term{}
			eachLeaf(a, func(t *Term) { la = append(la, t) })
			eachLeaf(vals[i], func(t *Term) { lv = append(lv, t) })
			for j := range la {
				if la[j] != lv[j] {
					same = false
				}
			}
		} else {
			same = false
		}
		if same {
			x.eqVal(st, a, b, t, p.Name(), put("frame"))
		} else {
			x.eqVal(st, a, b, t, p.Name(), put("post"))
		}
	}
}

// ---------- use of contracts at call sites ----------

func (x *Exec) applyContract(st *State, c *Contract, args []Val, depth int, in ssa.Instruction) []Outcome {
	x.used[c.name] = true
	if c.fresh {
		p, ok := args[0].(PtrV)
		if !ok || p.loc == nil {
			panic(unsupported("receiver of %s", c.name))
		}
		z := x.isZero(x.get(st, p.loc), under(c.fn.Params[0].Type()).(*types.Pointer).Elem())
		x.prove(st, z, "pre", "call of "+c.name+" on a fresh value")
	}
	states := []*State{st}
	for _, rq := range c.requires {
		var next []*State
		for _, s := range states {
			x.cur = s
			x.spec++
			x.quiet++
			outs := x.inline(s, rq, args, nil, depth+1)
			x.quiet--
			x.spec--
			for _, o := range outs {
				if !x.feasible(o.st) {
					continue
				}
				x.cur = o.st
				x.prove(o.st, o.ret[0].(*Term), "pre", "call of "+c.name)
				next = append(next, o.st)
			}
		}
		states = next
	}
	var res []Outcome
	for _, s := range states {
		x.cur = s
		if c.opaque && !(x.curC != nil && x.curC.reveal) || x.curC != nil && x.curC.hide[c.name] {
			res = append(res, x.applyOpaque(s, c, args, depth)...)
			continue
		}
		x.spec++
		x.applying++
		o := x.inline(s, c.spec, args, nil, depth+1)
		x.applying--
		x.spec--
		res = append(res, o...)
	}
	return res
}

// argTerms flattens an argument for an uninterpreted application; byte slices
// count by content.
func (x *Exec) argTerms(st *State, v Val, t types.Type) []*Term {
	var out []*Term
	var walk func(v Val, t types.Type)
	walk = func(v Val, t types.Type) {
		switch a := v.(type) {
		case *Term:
			out = append(out, a)
		case ErrV:
			out = append(out, a.code)
		case IfaceS:
			out = append(out, a.id)
		case IfaceV:
			out = append(out, x.ifaceId(st, a))
		case StructV:
			su, ok := under(t).(*types.Struct)
			for i, f := range a.fs {
				var ft types.Type
				if ok && su.NumFields() == len(a.fs) {
					if skipField(su.Field(i)) {
						continue
					}
					ft = su.Field(i).Type()
				}
				walk(f, ft)
			}
		case ArrayV:
			for _, e := range a.es {
				walk(e, under(t).(*types.Array).Elem())
			}
		case InPtr:
			if a.nl != x.tb.False {
				out = append(out, a.nl)
			}
			walk(a.v, under(t).(*types.Pointer).Elem())
		case InSlice:
			if tp, ok := a.c.(TapeV); ok {
				out = append(out, x.tb.MkStr(tp.t, x.tb.Zero, a.ln))
				return
			}
			out = append(out, a.ln)
			eachLeaf(a.c, func(l *Term) { out = append(out, l) })
		case TapeV:
			out = append(out, a.t)
		case Content:
			eachLeaf(a, func(l *Term) { out = append(out, l) })
		case OpaqueV, nil:
		default:
			panic(unsupported("opaque argument %T", v))
		}
	}
	ov := v
	if s, ok := v.(SliceV); ok && isByteSlice(t) {
		out = append(out, x.strOf(st, s))
		return out
	}
	om := x.moving
	x.moving = false // a snapshot only
	ov = x.freeze(st, v, t)
	x.moving = om
	if p, ok := ov.(InPtr); ok {
		walk(p.v, under(t).(*types.Pointer).Elem())
		return out
	}
	walk(ov, t)
	return out
}

// sameApp gives the arguments of an earlier application on this path when they
// are provably the same.
func (x *Exec) sameApp(st *State, c *Contract, ts []*Term) []*Term {
	same := func(a []*Term) bool {
		if len(a) != len(ts) {
			return false
		}
		for i := range a {
			if a[i] != ts[i] {
				return false
			}
		}
		return true
	}
	for _, a := range st.apps {
		if a.c == c && same(a.ts) {
			return ts
		}
	}
	if x.quiet == 0 && (x.spec == 0 || x.curC != nil && x.curC.lemma) {
	next:
		for _, a := range st.apps {
			if a.c != c || len(a.ts) != len(ts) {
				continue
			}
			for i := range ts {
				if !x.eqT(st, a.ts[i], ts[i]) {
					continue next
				}
			}
			return a.ts
		}
	}
	st.apps = append(st.apps[:len(st.apps):len(st.apps)], opqApp{c, ts})
	return ts
}

func (x *Exec) applyOpaque(st *State, c *Contract, args []Val, depth int) []Outcome {
	tb := x.tb
	var ts []*Term
	ps := c.spec.Params
	for i, a := range args {
		if p, ok := a.(PtrV); ok {
			x.prove(st, tb.Not(p.nl), "nil", "call of "+c.name)
			if p.loc == nil {
				return nil
			}
		}
		om := x.moving
		ts = append(ts, x.argTerms(st, a, ps[i].Type())...)
		x.moving = om
	}
	ts = x.sameApp(st, c, ts)
	n := c.spec.Name()
	mk := func(t types.Type, nm string) Val {
		v := x.build(t, nm, func(s string, so *Sort) *Term { return tb.UF(s, so, ts...) })
		l := x.alloc(st, t, v, nm)
		return x.load(st, l)
	}
	var ret []Val
	rs := c.spec.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		ret = append(ret, mk(rs.At(i).Type(), fmt.Sprintf("%s#%d", n, i)))
	}
	for i := range args {
		if !c.modifies[i] {
			continue
		}
		p := args[i].(PtrV)
		el := under(ps[i].Type()).(*types.Pointer).Elem()
		if f := c.modPath[i]; f != "" {
			su := under(el).(*types.Struct)
			for k := 0; k < su.NumFields(); k++ {
				if su.Field(k).Name() != f {
					continue
				}
				fe := under(su.Field(k).Type()).(*types.Pointer).Elem()
				q, ok := x.load(st, p.loc.add(Step{k: sField, n: k})).(PtrV)
				if !ok || q.loc == nil {
					panic(unsupported("modified field %s", f))
				}
				x.set(st, q.loc, x.build(fe, fmt.Sprintf("%s.%s.%s", n, ps[i].Name(), f), func(s string, so *Sort) *Term { return tb.UF(s, so, ts...) }))
			}
			continue
		}
		v := x.build(el, fmt.Sprintf("%s.%s", n, ps[i].Name()), func(s string, so *Sort) *Term { return tb.UF(s, so, ts...) })
		x.set(st, p.loc, v)
	}
	out := one(st, ret...)
	type promise struct {
		en   *ssa.Function
		args []Val
	}
	var ens []promise
	for _, en := range c.ensures {
		ens = append(ens, promise{en, args})
	}
	for _, rf := range c.refines {
		// what the interface promises, proved of this method (refine)
		ens = append(ens, promise{rf.en, append([]Val{IfaceV{rf.typ, args[0]}}, args[1:]...)})
	}
	for _, pr := range ens {
		var next []Outcome
		for _, o := range out {
			x.cur = o.st
			x.spec++
			x.quiet++
			eo := x.inline(o.st, pr.en, append(append([]Val{}, pr.args...), o.ret...), nil, depth+1)
			x.quiet--
			x.spec--
			for _, e := range eo {
				t := e.ret[0].(*Term)
				e.st.assume(t)
				if len(eo) == 1 || x.feasible(e.st) {
					next = append(next, Outcome{st: e.st, ret: x.solved(t, o.ret)})
				}
			}
		}
		out = next
	}
	return out
}

// solved: when a promise fixes the length of a result, the result has that
// length.
func (x *Exec) solved(t *Term, ret []Val) []Val {
	tb := x.tb
	if t.op != "eq" || t.args[0].sort != IntS {
		return ret
	}
	d := tb.Sub(t.args[0], t.args[1])
	var out []Val
	for i, r := range ret {
		s, ok := r.(SliceV)
		if !ok || s.ln.op != "uf" {
			continue
		}
		l := tb.toLin(d)
		k := l.coefs[s.ln.id]
		if k == nil || k.CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		v := tb.Add(d, tb.MulBig(s.ln, new(big.Int).Neg(k)))
		v = tb.MulBig(v, new(big.Int).Neg(k))
		if s.cp == s.ln {
			s.cp = v
		}
		s.ln = v
		if out == nil {
			out = append(out, ret...)
		}
		out[i] = s
	}
	if out == nil {
		return ret
	}
	return out
}

var _ = os.Stderr
