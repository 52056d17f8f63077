package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The contracts this engine assumes for github.com/bamiaux/iobit (rd* and wr*
// in intrin.go) are themselves discharged here against the library's source:
// machine words as 64-bit vectors, buffers as arrays of bytes, every function
// body as the compiler sees it, callees inlined. Only the view differs: the
// intrinsics speak of a tape of bits and a position; here
//
//	reader: bit i of the view is bit 7-(i&7) of src[i>>3] when i < 8*size, else 0
//	writer: bit i (i < 8*idx+fill) is bit 7-(i&7) of dst[i>>3] when i < 8*idx,
//	        else bit 63-(i-8*idx) of the cache
//
// and the postconditions state what each function does to the view, for a bit
// index that is left arbitrary.

const bvLimIdx = "#x1000000000000000" // positions stay below 2^60
const bvLimLen = "#x0001000000000000" // slices are shorter than 2^48

type bvArr struct { // contents of a byte buffer
	base string // array symbol, or ""
	zero bool
	prev *bvArr
	at   string // store
	val  string
	cpN  string // copy of src[so..so+n) to at
	cpS  *bvArr
	cpO  string
}

func (a *bvArr) sel(i string) string {
	switch {
	case a.zero:
		return "#x00"
	case a.base != "":
		return "(select " + a.base + " " + i + ")"
	case a.cpN != "":
		rel := "(bvsub " + i + " " + a.at + ")"
		return "(ite (bvult " + rel + " " + a.cpN + ") " + a.cpS.sel("(bvadd "+a.cpO+" "+rel+")") + " " + a.prev.sel(i) + ")"
	}
	return "(ite (= " + i + " " + a.at + ") " + a.val + " " + a.prev.sel(i) + ")"
}

type bvMem map[int]*bvArr
type bvSlice struct {
	obj           int
	off, len, cap string
}
type bvPtr struct { // a field of a struct object, or a byte of a buffer
	obj   int
	field int // -1: whole
	buf   int
	idx   string
}
type bvStruct []any

type bvState struct {
	mem  bvMem
	objs map[int]bvStruct
	pc   []string
	// what is known of contents left arbitrary, for every bit and every address
	bits, bytes []func(i string) string
}

func (s *bvState) clone() *bvState {
	m := bvMem{}
	for k, v := range s.mem {
		m[k] = v
	}
	o := map[int]bvStruct{}
	for k, v := range s.objs {
		o[k] = append(bvStruct{}, v...)
	}
	return &bvState{m, o, append([]string{}, s.pc...), s.bits[:len(s.bits):len(s.bits)], s.bytes[:len(s.bytes):len(s.bytes)]}
}

type bvRun struct {
	P       *Prog
	decl    []string
	syms    [][]string // of each declaration: its own name, then those it mentions
	n       int
	obls    []OblJ
	fn      string
	loop    *bvWriter // the function under proof has a loop over this writer
	measure string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Scanner
	stime   time.Duration
	q       int
}

type bvUnsup string

func (x *bvRun) fresh(sort string) string {
	x.n++
	n := fmt.Sprintf("v%d", x.n)
	x.declare(fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}
func bvK(w int, v uint64) string {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

// share names a term, so that terms do not grow exponentially.
func (x *bvRun) share(w int, t string) string {
	if len(t) < 60 {
		return t
	}
	x.n++
	n := fmt.Sprintf("v%d", x.n)
	sort := "Bool"
	if w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", w)
	}
	x.declare(fmt.Sprintf("(define-fun %s () %s %s)", n, sort, t))
	return n
}

var bvSym = regexp.MustCompile(`\bv[0-9]+\b`)

// cone sends the declarations the assertions need.
func (x *bvRun) cone(asserts []string) {
	need := map[string]bool{}
	for _, a := range asserts {
		for _, n := range bvSym.FindAllString(a, -1) {
			need[n] = true
		}
	}
	var out []string
	for i := len(x.decl) - 1; i >= 0; i-- {
		ns := x.syms[i]
		if !need[ns[0]] {
			continue
		}
		out = append(out, x.decl[i])
		for _, n := range ns[1:] {
			need[n] = true
		}
	}
	for i := len(out) - 1; i >= 0; i-- {
		fmt.Fprintln(x.in, out[i])
	}
}
func (x *bvRun) declare(d string) {
	x.decl = append(x.decl, d)
	x.syms = append(x.syms, bvSym.FindAllString(d, -1))
}

func (x *bvRun) ask(asserts []string) string {
	t0 := time.Now()
	defer func() { x.stime += time.Since(t0) }()
	x.q++
	fmt.Fprintln(x.in, "(reset)\n(set-option :timeout 20000)\n(set-logic QF_ABV)")
	x.cone(asserts)
	for _, a := range asserts {
		fmt.Fprintf(x.in, "(assert %s)\n", a)
	}
	fmt.Fprintln(x.in, "(check-sat)")
	x.in.Flush()
	for x.out.Scan() {
		switch l := strings.TrimSpace(x.out.Text()); {
		case l == "sat", l == "unsat", l == "unknown", l == "timeout":
			return l
		case strings.HasPrefix(l, "(error"):
			panic(bvUnsup(l))
		}
	}
	panic(bvUnsup("the solver ended"))
}

func (x *bvRun) prove(st *bvState, cond, kind, detail string) {
	r := "unsat"
	if cond != "true" {
		t0 := time.Now()
		r = x.ask(append(append([]string{}, st.pc...), "(not "+cond+")"))
		if os.Getenv("GOVC_TRACE") != "" {
			fmt.Println(x.fn, detail, r, time.Since(t0))
		}
	}
	o := OblJ{Name: x.fn + ": " + detail, Kind: kind}
	if r == "unsat" {
		o.Proved = 1
	} else {
		o.Failed = 1
		o.Detail = r
	}
	x.obls = append(x.obls, o)
}

func bvWidth(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(bvUnsup("type " + t.String()))
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	panic(bvUnsup("type " + t.String()))
}

type bvOut struct {
	st  *bvState
	ret []any
}

func (x *bvRun) call(fn *ssa.Function, st *bvState, args []any, depth int) []bvOut {
	if depth > 0 && fn.String() == "(*"+iobitPath+".Writer).Flush" {
		// by its contract
		var outs []bvOut
		p := args[0].(bvPtr)
		s := st.objs[p.obj]
		dst, fill, ix := s[0].(bvSlice), s[2].(string), s[3].(string)
		good, over := bvFlush(dst, fill, ix)
		for code := 0; code < 3; code++ {
			s2 := st.clone()
			s2.pc = append(s2.pc, []string{good, "(and (not " + good + ") " + over + ")", "(and (not " + good + ") (not " + over + "))"}[code])
			x.wrHavoc(s2, p)
			if code == 0 {
				s2.pc = append(s2.pc, "(= "+s2.objs[p.obj][2].(string)+" "+bvK(64, 0)+")")
			}
			outs = append(outs, bvOut{s2, []any{code}})
		}
		return outs
	}
	if len(fn.Blocks) == 0 || depth > 8 {
		panic(bvUnsup("call of " + fn.String()))
	}
	env := map[ssa.Value]any{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	return x.block(fn, st, env, fn.Blocks[0], nil, depth, map[*ssa.BasicBlock]int{})
}

func (x *bvRun) val(env map[ssa.Value]any, v ssa.Value) any {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Interface); ok {
				return 0
			}
			panic(bvUnsup("constant " + c.String()))
		}
		if c.Value.Kind() == constant.Bool {
			return fmt.Sprint(constant.BoolVal(c.Value))
		}
		w, _ := bvWidth(c.Type())
		u, ok := constant.Uint64Val(c.Value)
		if !ok {
			i, _ := constant.Int64Val(c.Value)
			u = uint64(i)
		}
		return bvK(w, u)
	case *ssa.Global:
		return c
	}
	r, ok := env[v]
	if !ok {
		panic(bvUnsup("value " + v.String()))
	}
	return r
}

func (x *bvRun) block(fn *ssa.Function, st *bvState, env map[ssa.Value]any, b, pred *ssa.BasicBlock, depth int, seen map[*ssa.BasicBlock]int) []bvOut {
	seen[b]++
	if seen[b] > 12 {
		panic(bvUnsup("loop not unrolled completely in " + fn.String()))
	}
	if x.loop != nil {
		head := false
		for _, q := range b.Preds {
			head = head || b.Dominates(q)
		}
		if head {
			// the loop of Flush, by its invariant: what wrPost says of no bits
			if seen[b] == 1 {
				x.wrPost(x.loop, bvOut{st, nil}, bvK(64, 0), nil)
				x.wrHavoc(st, x.loop.ptr)
				x.measure = st.objs[x.loop.ptr.obj][2].(string)
			} else {
				x.wrPost(x.loop, bvOut{st, nil}, bvK(64, 0), nil)
				x.prove(st, "(bvult "+st.objs[x.loop.ptr.obj][2].(string)+" "+x.measure+")", "termination", "the bits held decrease")
				return nil
			}
		}
	}
	phis := map[ssa.Value]any{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, q := range b.Preds {
			if q == pred {
				phis[p] = x.val(env, p.Edges[i])
			}
		}
	}
	for k, v := range phis {
		env[k] = v
	}
	return x.instrs(fn, st, env, b, 0, depth, seen)
}

func cpSeen(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
	r := map[*ssa.BasicBlock]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
func cpEnv(m map[ssa.Value]any) map[ssa.Value]any {
	r := map[ssa.Value]any{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (x *bvRun) instrs(fn *ssa.Function, st *bvState, env map[ssa.Value]any, b *ssa.BasicBlock, from, depth int, seen map[*ssa.BasicBlock]int) []bvOut {
	for i := from; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			t := in.Type().(*types.Pointer).Elem()
			switch u := t.Underlying().(type) {
			case *types.Struct:
				x.n++
				id := x.n
				st.objs[id] = x.zeroStruct(u)
				env[in] = bvPtr{obj: id, field: -1}
			case *types.Array:
				x.n++
				st.mem[x.n] = &bvArr{zero: true}
				env[in] = bvSlice{x.n, bvK(64, 0), bvK(64, uint64(u.Len())), bvK(64, uint64(u.Len()))}
			default:
				x.n++
				st.objs[x.n] = bvStruct{nil}
				env[in] = bvPtr{obj: x.n, field: 0}
			}
		case *ssa.FieldAddr:
			p := x.val(env, in.X).(bvPtr)
			env[in] = bvPtr{obj: p.obj, field: in.Field}
		case *ssa.Field:
			env[in] = x.val(env, in.X).(bvStruct)[in.Field]
		case *ssa.IndexAddr:
			s, ok := x.val(env, in.X).(bvSlice)
			if !ok {
				panic(bvUnsup(in.String()))
			}
			ix := x.conv(x.val(env, in.Index).(string), in.Index.Type(), types.Typ[types.Int])
			x.prove(st, "(bvult "+ix+" "+s.len+")", "index", "index in range")
			env[in] = bvPtr{obj: 0, buf: s.obj, idx: x.share(64, "(bvadd "+s.off+" "+ix+")")}
		case *ssa.UnOp:
			v := x.val(env, in.X)
			switch in.Op {
			case token.MUL:
				env[in] = x.load(st, v)
			case token.NOT:
				env[in] = "(not " + v.(string) + ")"
			case token.SUB:
				env[in] = "(bvneg " + v.(string) + ")"
			case token.XOR:
				env[in] = "(bvnot " + v.(string) + ")"
			default:
				panic(bvUnsup(in.String()))
			}
		case *ssa.Store:
			p := x.val(env, in.Addr).(bvPtr)
			v := x.val(env, in.Val)
			if p.obj == 0 {
				st.mem[p.buf] = &bvArr{prev: st.mem[p.buf], at: p.idx, val: v.(string)}
			} else if p.field < 0 {
				st.objs[p.obj] = append(bvStruct{}, v.(bvStruct)...)
			} else {
				st.objs[p.obj][p.field] = v
			}
		case *ssa.BinOp:
			env[in] = x.binop(st, in, x.val(env, in.X), x.val(env, in.Y))
		case *ssa.Convert:
			if _, ok := in.Type().Underlying().(*types.Basic); ok {
				if in.Type().Underlying().(*types.Basic).Kind() == types.String {
					env[in] = x.val(env, in.X) // the bytes as they are now
					continue
				}
			}
			env[in] = x.conv(x.val(env, in.X).(string), in.X.Type(), in.Type())
		case *ssa.ChangeType:
			env[in] = x.val(env, in.X)
		case *ssa.MakeSlice:
			n := x.conv(x.val(env, in.Len).(string), in.Len.Type(), types.Typ[types.Int])
			x.prove(st, "(bvult "+n+" "+bvLimLen+")", "makeslice", "make length")
			x.n++
			st.mem[x.n] = &bvArr{zero: true}
			env[in] = bvSlice{x.n, bvK(64, 0), n, n}
		case *ssa.Slice:
			s, ok := x.val(env, in.X).(bvSlice)
			if !ok || in.Max != nil {
				panic(bvUnsup(in.String()))
			}
			lo, hi := bvK(64, 0), s.len
			if in.Low != nil {
				lo = x.conv(x.val(env, in.Low).(string), in.Low.Type(), types.Typ[types.Int])
			}
			if in.High != nil {
				hi = x.conv(x.val(env, in.High).(string), in.High.Type(), types.Typ[types.Int])
			}
			x.prove(st, "(and (bvule "+lo+" "+hi+") (bvule "+hi+" "+s.cap+"))", "slice", "slice bounds")
			env[in] = bvSlice{s.obj, x.share(64, "(bvadd "+s.off+" "+lo+")"), x.share(64, "(bvsub "+hi+" "+lo+")"), x.share(64, "(bvsub "+s.cap+" "+lo+")")}
		case *ssa.Extract:
			env[in] = x.val(env, in.Tuple).([]any)[in.Index]
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len":
					env[in] = x.val(env, in.Call.Args[0]).(bvSlice).len
				case "copy":
					d, s := x.val(env, in.Call.Args[0]).(bvSlice), x.val(env, in.Call.Args[1]).(bvSlice)
					n := x.share(64, "(ite (bvslt "+d.len+" "+s.len+") "+d.len+" "+s.len+")")
					st.mem[d.obj] = &bvArr{prev: st.mem[d.obj], at: d.off, cpN: n, cpS: st.mem[s.obj], cpO: s.off}
					env[in] = n
				default:
					panic(bvUnsup(in.String()))
				}
				continue
			}
			f := in.Call.StaticCallee()
			if f == nil {
				panic(bvUnsup(in.String()))
			}
			var as []any
			for _, a := range in.Call.Args {
				as = append(as, x.val(env, a))
			}
			if strings.HasPrefix(f.String(), "(encoding/binary.bigEndian)") {
				// its receiver has no content
				as[0] = bvStruct{}
			}
			var outs []bvOut
			rs := x.call(f, st, as, depth+1)
			for k, o := range rs {
				e := env
				if k < len(rs)-1 {
					e = cpEnv(env)
				}
				switch len(o.ret) {
				case 0:
				case 1:
					e[in] = o.ret[0]
				default:
					e[in] = o.ret
				}
				outs = append(outs, x.instrs(fn, o.st, e, b, i+1, depth, cpSeen(seen))...)
			}
			return outs
		case *ssa.If:
			c := x.share(0, x.val(env, in.Cond).(string))
			s2 := st.clone()
			st.pc = append(st.pc, c)
			s2.pc = append(s2.pc, "(not "+c+")")
			var outs []bvOut
			if c != "false" && (c == "true" || x.ask(st.pc) != "unsat") {
				outs = x.block(fn, st, cpEnv(env), b.Succs[0], b, depth, cpSeen(seen))
			}
			if c != "true" && (c == "false" || x.ask(s2.pc) != "unsat") {
				outs = append(outs, x.block(fn, s2, env, b.Succs[1], b, depth, seen)...)
			}
			return outs
		case *ssa.Jump:
			return x.block(fn, st, env, b.Succs[0], b, depth, seen)
		case *ssa.Return:
			var rs []any
			for _, r := range in.Results {
				rs = append(rs, x.val(env, r))
			}
			return []bvOut{{st, rs}}
		default:
			panic(bvUnsup(fmt.Sprintf("%T %s", in, in)))
		}
	}
	panic(bvUnsup("block without end"))
}

func (x *bvRun) zeroStruct(u *types.Struct) bvStruct {
	var s bvStruct
	for i := 0; i < u.NumFields(); i++ {
		switch t := u.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			s = append(s, bvSlice{-1, bvK(64, 0), bvK(64, 0), bvK(64, 0)})
		case *types.Basic:
			w, _ := bvWidth(t)
			s = append(s, bvK(w, 0))
		default:
			panic(bvUnsup("field " + u.Field(i).String()))
		}
	}
	return s
}

func (x *bvRun) load(st *bvState, v any) any {
	switch p := v.(type) {
	case *ssa.Global:
		switch p.Name() {
		case "ErrOverflow":
			return 1
		case "ErrUnderflow":
			return 2
		case "BigEndian":
			return bvStruct{}
		}
		panic(bvUnsup("global " + p.Name()))
	case bvPtr:
		if p.obj == 0 {
			return x.share(8, st.mem[p.buf].sel(p.idx))
		}
		if p.field < 0 {
			return append(bvStruct{}, st.objs[p.obj]...)
		}
		return st.objs[p.obj][p.field]
	}
	panic(bvUnsup("load"))
}

func (x *bvRun) conv(v string, from, to types.Type) string {
	a, signed := bvWidth(from)
	b, _ := bvWidth(to)
	switch {
	case b < a:
		return fmt.Sprintf("((_ extract %d 0) %s)", b-1, v)
	case b > a && signed:
		return fmt.Sprintf("((_ sign_extend %d) %s)", b-a, v)
	case b > a:
		return fmt.Sprintf("((_ zero_extend %d) %s)", b-a, v)
	}
	return v
}

func (x *bvRun) binop(st *bvState, in *ssa.BinOp, a, b any) any {
	if c, ok := a.(int); ok { // errors
		d := b.(int)
		switch in.Op {
		case token.EQL:
			return fmt.Sprint(c == d)
		case token.NEQ:
			return fmt.Sprint(c != d)
		}
	}
	w, signed := bvWidth(in.X.Type())
	p, q := a.(string), b.(string)
	op := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[in.Op]
	if op != "" {
		return x.share(w, "("+op+" "+p+" "+q+")")
	}
	switch in.Op {
	case token.SHL, token.SHR:
		yw, ys := bvWidth(in.Y.Type())
		if ys {
			x.prove(st, "(bvsge "+q+" "+bvK(yw, 0)+")", "shift", "shift count")
		}
		f := "bvshl"
		if in.Op == token.SHR {
			f = "bvlshr"
			if signed {
				f = "bvashr"
			}
		}
		// a count of the operand's own width; larger counts leave nothing
		if yw < w {
			q = fmt.Sprintf("((_ zero_extend %d) %s)", w-yw, q)
		}
		if yw > w {
			big := "(bvuge " + q + " " + bvK(yw, uint64(w)) + ")"
			low := fmt.Sprintf("((_ extract %d 0) %s)", w-1, q)
			return x.share(w, "(ite "+big+" ("+f+" "+p+" "+bvK(w, uint64(w))+") ("+f+" "+p+" "+low+"))")
		}
		return x.share(w, "("+f+" "+p+" "+q+")")
	case token.EQL:
		return "(= " + p + " " + q + ")"
	case token.NEQ:
		return "(not (= " + p + " " + q + "))"
	}
	op = map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[in.Op]
	if op == "" || w == 0 {
		panic(bvUnsup(in.String()))
	}
	if signed {
		return "(bvs" + op + " " + p + " " + q + ")"
	}
	return "(bvu" + op + " " + p + " " + q + ")"
}

func (x *bvRun) vacuity(st *bvState) {
	o := OblJ{Name: x.fn + ": precondition can be met", Kind: "vacuity", Proved: 1}
	if r := x.ask(st.pc); r != "sat" {
		o.Proved, o.Failed, o.Detail = 0, 1, r
	}
	x.obls = append(x.obls, o)
}

// ---------- the contracts ----------

func bvBitOf8(b, i string) string { // bit 7-(i&7) of byte b, as one bit
	sh := "(bvsub #x07 ((_ extract 7 0) (bvand " + i + " " + bvK(64, 7) + ")))"
	return "((_ extract 0 0) (bvlshr " + b + " " + sh + "))"
}

type bvReader struct {
	st             *bvState
	ptr            bvPtr
	src            bvSlice
	idx, max, size string
}

func (x *bvRun) newState() *bvState { return &bvState{mem: bvMem{}, objs: map[int]bvStruct{}} }
func (x *bvRun) buf(st *bvState) bvSlice {
	x.n++
	id := x.n
	st.mem[id] = &bvArr{base: x.fresh("(Array (_ BitVec 64) (_ BitVec 8))")}
	s := bvSlice{id, x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)")}
	st.pc = append(st.pc, "(bvult "+s.off+" "+bvLimLen+")", "(bvule "+s.len+" "+s.cap+")", "(bvult "+s.cap+" "+bvLimLen+")")
	return s
}
func bvRdInv(st *bvState, src bvSlice, idx, max, size string, k string) string {
	return "(and (bvult " + idx + " " + bvLimIdx + ") (bvult " + size + " " + bvLimLen + ")" +
		" (ite (bvuge " + size + " " + bvK(64, 8) + ") (and (= " + max + " (bvsub " + size + " " + bvK(64, 8) + ")) (= " + src.len + " " + size + "))" +
		" (and (= " + max + " " + bvK(64, 0) + ") (= " + src.len + " " + bvK(64, 8) + ")" +
		" (=> (and (bvuge " + k + " " + size + ") (bvult " + k + " " + bvK(64, 8) + ")) (= " + st.mem[src.obj].sel("(bvadd "+src.off+" "+k+")") + " #x00)))))"
}
func (x *bvRun) reader() *bvReader {
	st := x.newState()
	r := &bvReader{st: st}
	r.src = x.buf(st)
	r.idx, r.max, r.size = x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)")
	for k := 0; k < 8; k++ { // the padding of a short buffer
		st.pc = append(st.pc, bvRdInv(st, r.src, r.idx, r.max, r.size, bvK(64, uint64(k))))
	}
	x.n++
	r.ptr = bvPtr{obj: x.n, field: -1}
	st.objs[x.n] = bvStruct{r.src, r.idx, r.max, r.size}
	x.vacuity(st)
	return r
}

// view bit i of a reader
func (r *bvReader) bit(i string) string {
	return "(ite (bvult " + i + " (bvshl " + r.size + " " + bvK(64, 3) + ")) " + bvBitOf8(r.st.mem[r.src.obj].sel("(bvadd "+r.src.off+" (bvlshr "+i+" "+bvK(64, 3)+"))"), i) + " #b0)"
}

// rdKeeps: nothing but the position changes.
func (x *bvRun) rdKeeps(r *bvReader, o bvOut, pos string) {
	s := o.st.objs[r.ptr.obj]
	same := s[0].(bvSlice) == r.src
	x.prove(o.st, fmt.Sprintf("(and %v (= %s %s) (= %s %s) (= %s %s))", same, s[1], pos, s[2], r.max, s[3], r.size), "post", "position moves by what was read, the rest of the reader stays")
	x.prove(o.st, fmt.Sprint(o.st.mem[r.src.obj] == r.st.mem[r.src.obj]), "frame", "the buffer is not written")
}

type bvWriter struct {
	st              *bvState
	ptr             bvPtr
	dst             bvSlice
	cache, fill, ix string
}

func bvWrInv(dst bvSlice, cache, fill, ix string) string {
	return "(and (bvule " + fill + " " + bvK(64, 64) + ") (bvult " + ix + " " + bvLimIdx + ") (= (bvshl " + cache + " " + fill + ") " + bvK(64, 0) + "))"
}
func (x *bvRun) writer() *bvWriter {
	st := x.newState()
	w := &bvWriter{st: st}
	w.dst = x.buf(st)
	w.cache, w.fill, w.ix = x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)")
	st.pc = append(st.pc, bvWrInv(w.dst, w.cache, w.fill, w.ix), "(bvult "+w.ix+" #x0100000000000000)")
	x.n++
	w.ptr = bvPtr{obj: x.n, field: -1}
	st.objs[x.n] = bvStruct{w.dst, w.cache, w.fill, w.ix}
	x.vacuity(st)
	return w
}
func bvShl3(v string) string { return "(bvshl " + v + " " + bvK(64, 3) + ")" }
func bvPos(fill, ix string) string {
	return "(bvadd " + bvShl3(ix) + " " + fill + ")"
}
func bvWBit(st *bvState, dst bvSlice, cache, ix, i string) string {
	return "(ite (bvult " + i + " " + bvShl3(ix) + ") " + bvBitOf8(st.mem[dst.obj].sel("(bvadd "+dst.off+" (bvlshr "+i+" "+bvK(64, 3)+"))"), i) +
		" ((_ extract 0 0) (bvlshr " + cache + " (bvsub " + bvK(64, 63) + " (bvsub " + i + " " + bvShl3(ix) + ")))))"
}

// wrPost: pos moves by n bits; while the writer has room for what it holds
// (idx <= len), earlier bits stay, bit pos+j is what newbit says, and bytes
// beyond the position stay.
func (x *bvRun) wrPost(w *bvWriter, o bvOut, n string, newbit func(j string) string) {
	s := o.st.objs[w.ptr.obj]
	cache, fill, ix := s[1].(string), s[2].(string), s[3].(string)
	x.prove(o.st, fmt.Sprint(s[0].(bvSlice) == w.dst), "post", "the destination stays")
	x.prove(o.st, bvWrInv(w.dst, cache, fill, ix), "invariant", "writer invariant")
	pos := bvPos(w.fill, w.ix)
	x.prove(o.st, "(and (= "+bvPos(fill, ix)+" (bvadd "+pos+" "+n+")) (bvuge "+ix+" "+w.ix+"))", "post", "position moves by what was written")
	st := o.st.clone()
	st.pc = append(st.pc, "(bvule "+ix+" "+w.dst.len+")")
	i := x.fresh("(_ BitVec 64)")
	s1 := st.clone()
	s1.pc = append(s1.pc, "(bvult "+i+" "+pos+")")
	for _, f := range o.st.bits {
		s1.pc = append(s1.pc, f(i))
	}
	x.prove(s1, "(= "+bvWBit(o.st, w.dst, cache, ix, i)+" "+bvWBit(w.st, w.dst, w.cache, w.ix, i)+")", "post", "what was written before stays")
	if newbit != nil {
		s2 := st.clone()
		j := x.fresh("(_ BitVec 64)")
		s2.pc = append(s2.pc, "(bvult "+j+" "+n+")")
		x.prove(s2, "(= "+bvWBit(o.st, w.dst, cache, ix, "(bvadd "+pos+" "+j+")")+" "+newbit(j)+")", "post", "the bits written are the value's, first bit first")
	}
	x.wrFrame(w, o, ix)
}
func (x *bvRun) wrFrame(w *bvWriter, o bvOut, ix string) {
	s3 := o.st.clone()
	k := x.fresh("(_ BitVec 64)")
	lim := "(ite (bvult " + ix + " " + w.dst.len + ") " + ix + " " + w.dst.len + ")"
	// k counts from the start of the destination, modulo 2^64: every address
	s3.pc = append(s3.pc, "(bvuge "+k+" "+lim+")")
	at := "(bvadd " + w.dst.off + " " + k + ")"
	for _, f := range o.st.bytes {
		s3.pc = append(s3.pc, f(k))
	}
	x.prove(s3, "(= "+o.st.mem[w.dst.obj].sel(at)+" "+w.st.mem[w.dst.obj].sel(at)+")", "frame", "nothing outside the part written changes")
}

// wrHavoc is the other side of wrPost(w, st, 0): a writer of which only that
// is known. It is what a caller of Flush and the loop inside it may rely on.
func (x *bvRun) wrHavoc(st *bvState, ptr bvPtr) {
	s := st.objs[ptr.obj]
	dst, cache, fill, ix := s[0].(bvSlice), s[1].(string), s[2].(string), s[3].(string)
	old := st.clone()
	c2, f2, i2 := x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)"), x.fresh("(_ BitVec 64)")
	st.mem[dst.obj] = &bvArr{base: x.fresh("(Array (_ BitVec 64) (_ BitVec 8))")}
	st.objs[ptr.obj] = bvStruct{dst, c2, f2, i2}
	st.pc = append(st.pc, bvWrInv(dst, c2, f2, i2), "(= "+bvPos(f2, i2)+" "+bvPos(fill, ix)+")", "(bvuge "+i2+" "+ix+")")
	now := st.clone()
	st.bits = append(st.bits, func(i string) string {
		return "(=> (and (bvule " + i2 + " " + dst.len + ") (bvult " + i + " " + bvPos(fill, ix) + ")) (= " + bvWBit(now, dst, c2, i2, i) + " " + bvWBit(old, dst, cache, ix, i) + "))"
	})
	st.bytes = append(st.bytes, func(k string) string {
		lim := "(ite (bvult " + i2 + " " + dst.len + ") " + i2 + " " + dst.len + ")"
		at := "(bvadd " + dst.off + " " + k + ")"
		return "(=> (bvuge " + k + " " + lim + ") (= " + now.mem[dst.obj].sel(at) + " " + old.mem[dst.obj].sel(at) + "))"
	})
}

// flushed: the state of a writer after Flush, by its result.
func (x *bvRun) flushPost(w *bvWriter, o bvOut, code int) {
	good, over := bvFlush(w.dst, w.fill, w.ix)
	if code == 0 {
		x.prove(o.st, good, "post", "accepted only when whole bytes were written and they fit")
		x.prove(o.st, "(= "+o.st.objs[w.ptr.obj][2].(string)+" "+bvK(64, 0)+")", "post", "nothing is held back")
	} else {
		x.prove(o.st, "(not "+good+")", "post", "an error only when bits are left over or do not fit")
		x.prove(o.st, fmt.Sprintf("(= %v %s)", code == 1, over), "post", "which of the two errors")
	}
}

// bvFlush: when Flush succeeds, and if not, when it says overflow.
func bvFlush(dst bvSlice, fill, ix string) (good, over string) {
	pos := bvPos(fill, ix)
	bits := bvShl3(dst.len)
	rem := "(bvand " + pos + " " + bvK(64, 7) + ")"
	good = "(and (bvule " + pos + " " + bits + ") (= " + rem + " " + bvK(64, 0) + "))"
	over = "(or (bvugt " + pos + " " + bits + ") (bvult " + dst.len + " (bvadd (bvlshr " + pos + " " + bvK(64, 3) + ") " + rem + ")))"
	return
}

var iobitUnits = func() (r []string) {
	for _, n := range strings.Fields("Bit Byte Be16 Be32 Be64 Uint8 Uint16 Uint32 Uint64 Skip At Reset Peek LeftBits Error LeftBytes Bytes String") {
		r = append(r, "(*"+iobitPath+".Reader)."+n)
	}
	for _, n := range strings.Fields("PutBit PutByte PutBe16 PutBe32 PutBe64 PutUint8 PutUint16 PutUint32 PutUint64 Index Flush Write") {
		r = append(r, "(*"+iobitPath+".Writer)."+n)
	}
	return append(r, iobitPath+".NewReader", iobitPath+".NewWriter")
}()

func (x *bvRun) fieldNames(typ, want string) {
	var fs []string
	u := x.P.iobit.Type(typ).Type().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, u.Field(i).Name())
	}
	if strings.Join(fs, " ") != want {
		panic(bvUnsup(typ + " has other fields: " + strings.Join(fs, " ")))
	}
}

// iobitUnit discharges the contract assumed for one function of the library.
func iobitUnit(P *Prog, unit string) (obls []OblJ, stime time.Duration, queries int, known bool, err error) {
	x := &bvRun{P: P}
	x.cmd = exec.Command("z3-new", "-in")
	in, _ := x.cmd.StdinPipe()
	out, _ := x.cmd.StdoutPipe()
	if err = x.cmd.Start(); err != nil {
		return
	}
	defer func() { in.Close(); x.cmd.Process.Kill(); x.cmd.Wait() }()
	x.in = bufio.NewWriter(in)
	x.out = bufio.NewScanner(out)
	x.out.Buffer(nil, 1<<20)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s: %v", x.fn, r)
		}
		obls, stime, queries = x.obls, x.stime, x.q
	}()
	find := func(recv, name string) *ssa.Function {
		x.fn = name
		if recv == "" {
			if f := P.iobit.Func(name); f != nil {
				return f
			}
			panic("no " + name)
		}
		x.fn = "(*" + recv + ")." + name
		t := P.iobit.Type(recv)
		if t == nil {
			panic("no " + recv)
		}
		f := P.iobit.Prog.LookupMethod(types.NewPointer(t.Type()), P.iobit.Pkg, name)
		if f == nil {
			panic("no " + x.fn)
		}
		return f
	}
	reset := func() { x.decl, x.syms = nil, nil }
	on := func(recv, name string) bool {
		n := iobitPath + "." + name
		if recv != "" {
			n = "(*" + iobitPath + "." + recv + ")." + name
		}
		if n == unit {
			known = true
		}
		return n == unit
	}
	x.fieldNames("Reader", "src idx max size")
	x.fieldNames("Writer", "dst cache fill idx")
	// --- NewReader ---
	if on("", "NewReader") {
		reset()
		st := x.newState()
		s := x.buf(st)
		init := st.clone()
		for _, o := range x.call(find("", "NewReader"), st, []any{s}, 0) {
			r := o.ret[0].(bvStruct)
			src := r[0].(bvSlice)
			x.prove(o.st, "(and (= "+r[1].(string)+" "+bvK(64, 0)+") (= "+r[3].(string)+" "+s.len+"))", "post", "starts at the first bit, has the size of the buffer")
			k := x.fresh("(_ BitVec 64)")
			x.prove(o.st, bvRdInv(o.st, src, r[1].(string), r[2].(string), r[3].(string), k), "invariant", "reader invariant")
			s2 := o.st.clone()
			s2.pc = append(s2.pc, "(bvult "+k+" "+s.len+")")
			x.prove(s2, "(= "+o.st.mem[src.obj].sel("(bvadd "+src.off+" "+k+")")+" "+init.mem[s.obj].sel("(bvadd "+s.off+" "+k+")")+")", "post", "reads the bytes given")
		}
	}
	// --- reads of up to w bits ---
	read := func(name string, fixed, max int) {
		if !on("Reader", name) {
			return
		}
		reset()
		f := find("Reader", name)
		r := x.reader()
		args := []any{r.ptr}
		n := bvK(64, uint64(fixed))
		if fixed == 0 {
			n = x.fresh("(_ BitVec 64)")
			r.st.pc = append(r.st.pc, "(bvule "+n+" "+bvK(64, uint64(max))+")")
			args = append(args, n)
		}
		for _, o := range x.call(f, r.st.clone(), args, 0) {
			x.rdKeeps(r, o, "(bvadd "+r.idx+" "+n+")")
			v := o.ret[0].(string)
			w, _ := bvWidth(f.Signature.Results().At(0).Type())
			if w == 0 {
				v = "(ite " + v + " " + bvK(64, 1) + " " + bvK(64, 0) + ")"
			} else if w < 64 {
				v = fmt.Sprintf("((_ zero_extend %d) %s)", 64-w, v)
			}
			v = x.share(64, v)
			j := x.fresh("(_ BitVec 64)")
			s2 := o.st.clone()
			s2.pc = append(s2.pc, "(bvult "+j+" "+n+")")
			x.prove(s2, "(= ((_ extract 0 0) (bvlshr "+v+" (bvsub (bvsub "+n+" "+bvK(64, 1)+") "+j+"))) "+r.bit("(bvadd "+r.idx+" "+j+")")+")", "post", "the bits of the value are the next ones, zeros beyond the end")
			x.prove(o.st, "(= (bvlshr "+v+" "+n+") "+bvK(64, 0)+")", "post", "no other bit is set")
		}
	}
	read("Bit", 1, 0)
	read("Byte", 8, 0)
	read("Be16", 16, 0)
	read("Be32", 32, 0)
	read("Be64", 64, 0)
	read("Uint8", 0, 8)
	read("Uint16", 0, 16)
	read("Uint32", 0, 32)
	read("Uint64", 0, 64)
	// --- the rest of the reader ---
	{
		reset()
		r := x.reader()
		n := x.fresh("(_ BitVec 64)")
		r.st.pc = append(r.st.pc, "(bvult "+n+" "+bvK(64, 1<<63)+")")
		if on("Reader", "Skip") {
			for _, o := range x.call(find("Reader", "Skip"), r.st.clone(), []any{r.ptr, n}, 0) {
				x.rdKeeps(r, o, "(bvadd "+r.idx+" "+n+")")
			}
		}
		if on("Reader", "At") {
			for _, o := range x.call(find("Reader", "At"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, r.idx)
				x.prove(o.st, "(= "+o.ret[0].(string)+" "+r.idx+")", "post", "the position")
			}
		}
		if on("Reader", "Reset") {
			for _, o := range x.call(find("Reader", "Reset"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, bvK(64, 0))
			}
		}
		if on("Reader", "Peek") {
			for _, o := range x.call(find("Reader", "Peek"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, r.idx)
				p := o.ret[0].(bvPtr)
				x.prove(o.st, fmt.Sprint(p.obj != r.ptr.obj && fmt.Sprint(o.st.objs[p.obj]) == fmt.Sprint(o.st.objs[r.ptr.obj])), "post", "a separate reader at the same place")
			}
		}
		bits := bvShl3(r.size)
		over := "(bvugt " + r.idx + " " + bits + ")"
		if on("Reader", "LeftBits") {
			for _, o := range x.call(find("Reader", "LeftBits"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, r.idx)
				x.prove(o.st, "(= "+o.ret[0].(string)+" (ite "+over+" "+bvK(64, 0)+" (bvsub "+bits+" "+r.idx+")))", "post", "the number of bits left")
			}
		}
		if on("Reader", "Error") {
			for _, o := range x.call(find("Reader", "Error"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, r.idx)
				x.prove(o.st, fmt.Sprintf("(and %v (= %v %s))", o.ret[0].(int) < 2, o.ret[0].(int) == 1, over), "post", "overflow exactly when read beyond the end")
			}
		}
		skip := "(bvlshr " + r.idx + " " + bvK(64, 3) + ")"
		end := "(bvuge " + skip + " " + r.size + ")"
		left := func(o bvOut, s bvSlice, n string) {
			x.prove(o.st, fmt.Sprintf("(and %v (= %s %s))", s.obj == r.src.obj, s.len, n), "post", "length, and part of the buffer")
			s2 := o.st.clone()
			s2.pc = append(s2.pc, "(not "+end+")")
			x.prove(s2, "(= "+s.off+" (bvadd "+r.src.off+" "+skip+"))", "post", "from the byte the position is in")
		}
		ln := x.share(64, "(ite "+end+" "+bvK(64, 0)+" (bvsub "+r.size+" "+skip+"))")
		if on("Reader", "LeftBytes") {
			for _, o := range x.call(find("Reader", "LeftBytes"), r.st.clone(), []any{r.ptr}, 0) {
				x.rdKeeps(r, o, r.idx)
				left(o, o.ret[0].(bvSlice), ln)
			}
		}
		m := x.fresh("(_ BitVec 64)")
		got := x.share(64, "(ite (bvult "+m+" "+ln+") "+m+" "+ln+")")
		for _, name := range []string{"Bytes", "String"} {
			if !on("Reader", name) {
				continue
			}
			s := r.st.clone()
			s.pc = append(s.pc, "(bvsge "+m+" "+bvK(64, 0)+")")
			for _, o := range x.call(find("Reader", name), s, []any{r.ptr, m}, 0) {
				x.rdKeeps(r, o, "(bvadd "+r.idx+" "+bvShl3(got)+")")
				left(o, o.ret[0].(bvSlice), got)
			}
		}
	}
	// --- writer ---
	{
		reset()
		st := x.newState()
		s := x.buf(st)
		if on("", "NewWriter") {
			for _, o := range x.call(find("", "NewWriter"), st, []any{s}, 0) {
				w := o.ret[0].(bvStruct)
				x.prove(o.st, fmt.Sprintf("(and %v (= %s %s) (= %s %s))", w[0].(bvSlice) == s, w[2], bvK(64, 0), w[3], bvK(64, 0)), "post", "starts at the first bit of the buffer")
				x.prove(o.st, bvWrInv(s, w[1].(string), w[2].(string), w[3].(string)), "invariant", "writer invariant")
			}
		}
	}
	put := func(name string, fixed, max int) {
		if !on("Writer", name) {
			return
		}
		reset()
		f := find("Writer", name)
		w := x.writer()
		args := []any{w.ptr}
		n := bvK(64, uint64(fixed))
		if fixed == 0 {
			n = x.fresh("(_ BitVec 64)")
			w.st.pc = append(w.st.pc, "(bvule "+n+" "+bvK(64, uint64(max))+")")
			args = append(args, n)
		}
		vw, _ := bvWidth(f.Signature.Params().At(f.Signature.Params().Len() - 1).Type())
		sort := "Bool"
		if vw > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", vw)
		}
		v := x.fresh(sort)
		args = append(args, v)
		wide := v
		if vw == 0 {
			wide = "(ite " + v + " " + bvK(64, 1) + " " + bvK(64, 0) + ")"
		} else if vw < 64 {
			wide = fmt.Sprintf("((_ zero_extend %d) %s)", 64-vw, v)
		}
		for _, o := range x.call(f, w.st.clone(), args, 0) {
			x.wrPost(w, o, n, func(j string) string {
				return "((_ extract 0 0) (bvlshr " + wide + " (bvsub (bvsub " + n + " " + bvK(64, 1) + ") " + j + ")))"
			})
		}
	}
	put("PutBit", 1, 0)
	put("PutByte", 8, 0)
	put("PutBe16", 16, 0)
	put("PutBe32", 32, 0)
	put("PutBe64", 64, 0)
	put("PutUint8", 0, 8)
	put("PutUint16", 0, 16)
	put("PutUint32", 0, 32)
	put("PutUint64", 0, 64)
	{
		reset()
		w := x.writer()
		if on("Writer", "Index") {
			for _, o := range x.call(find("Writer", "Index"), w.st.clone(), []any{w.ptr}, 0) {
				x.wrPost(w, o, bvK(64, 0), nil)
				x.prove(o.st, "(= "+o.ret[0].(string)+" "+bvPos(w.fill, w.ix)+")", "post", "the position")
			}
		}
		if on("Writer", "Flush") {
			x.loop = w
			for _, o := range x.call(find("Writer", "Flush"), w.st.clone(), []any{w.ptr}, 0) {
				x.wrPost(w, o, bvK(64, 0), nil)
				x.flushPost(w, o, o.ret[0].(int))
			}
		}
		x.loop = nil
		s := w.st.clone()
		p := x.buf(s)
		w.st = s
		if on("Writer", "Write") {
			for _, o := range x.call(find("Writer", "Write"), s.clone(), []any{w.ptr, p}, 0) {
				code := o.ret[1].(int)
				pos := bvPos(w.fill, w.ix)
				bits := bvShl3(w.dst.len)
				al := "(= (bvand " + pos + " " + bvK(64, 7) + ") " + bvK(64, 0) + ")"
				end := "(bvadd " + pos + " " + bvShl3(p.len) + ")"
				fits := "(bvule " + end + " " + bits + ")"
				x.prove(o.st, "(= "+fmt.Sprint(code == 0)+" (and "+al+" "+fits+"))", "post", "accepted exactly when aligned and there is room")
				ns := o.st.objs[w.ptr.obj]
				if code == 0 {
					x.prove(o.st, "(= "+o.ret[0].(string)+" "+p.len+")", "post", "reports what it took")
					x.wrPost(w, o, bvShl3(p.len), func(j string) string {
						return bvBitOf8(s.mem[p.obj].sel("(bvadd "+p.off+" (bvlshr "+j+" "+bvK(64, 3)+"))"), j)
					})
					x.prove(o.st, "(= "+ns[2].(string)+" "+bvK(64, 0)+")", "post", "nothing is held back")
					continue
				}
				if code == 2 {
					s1 := o.st.clone()
					s1.pc = append(s1.pc, "(bvule "+pos+" "+bits+")")
					x.wrPost(w, bvOut{s1, o.ret}, bvK(64, 0), nil) // out of line nothing is written
				} else {
					x.prove(o.st, "(=> (bvule "+pos+" "+bits+") (or (not "+fits+") (not "+al+")))", "post", "full only when full")
				}
				// full: it stays full
				s2 := o.st.clone()
				s2.pc = append(s2.pc, al)
				x.prove(s2, "(bvugt "+bvPos(ns[2].(string), ns[3].(string))+" "+bits+")", "post", "what did not fit is remembered")
				x.prove(o.st, bvWrInv(w.dst, ns[1].(string), ns[2].(string), ns[3].(string)), "invariant", "writer invariant")
				x.wrFrame(w, o, w.dst.len)
			}
		}
	}
	return
}
