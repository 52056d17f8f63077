package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// PC is a path condition: an immutable linked list of conjuncts.
type PC struct {
	up    *PC
	t     *Term
	depth int
	cache map[int]int // decided facts at this node
}

func (p *PC) And(t *Term) *PC {
	if t.op == "true" {
		return p
	}
	if t.op == "and" {
		for _, a := range t.args {
			p = p.And(a)
		}
		return p
	}
	for q := p; q.up != nil; q = q.up {
		if q.t == t {
			return p
		}
	}
	return &PC{up: p, t: t, depth: p.depth + 1, cache: map[int]int{}}
}
func newPC() *PC { return &PC{cache: map[int]int{}} }
func (p *PC) list() []*Term {
	out := make([]*Term, p.depth)
	for q := p; q.up != nil; q = q.up {
		out[q.depth-1] = q.t
	}
	return out
}

// Solver drives one SMT solver process over a pipe, keeping its assertion
// stack in step with the path condition.
type Solver struct {
	bin           []string
	tb            *TB
	cmd           *exec.Cmd
	in            io.WriteCloser
	out           *bufio.Reader
	buf           strings.Builder
	defined       map[int]bool
	decls         map[string]bool
	lits          []*Term
	ndef          int
	stack         []*PC           // pushed path-condition nodes
	axAt          map[string]int  // axiom text -> stack level at which it is asserted
	axs           map[int][]axiom // per term: axioms of its closure
	timeout       int             // ms
	Queries       int
	Time          time.Duration
	Unknown       int
	Sat           int
	Unsat         int
	log           io.Writer
	lastRl        int
	limit, limSet int // solver steps per query while guessing; 0: none
}
type axiom struct{ s string }

func NewSolver(tb *TB, timeout int, bin ...string) *Solver {
	return &Solver{bin: bin, tb: tb, timeout: timeout}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	s.decls = map[string]bool{}
	s.axs = map[int][]axiom{}
	s.axAt = map[string]int{}
	s.stack = nil
	s.lits = nil
	s.ndef, s.lastRl, s.limSet = 0, 0, 0
	s.buf.Reset()
	s.send("(set-option :global-declarations true)\n")
	if s.z3() {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :rlimit %d)\n", s.timeout, mainLimit))
	} else {
		s.send("(set-logic ALL)\n")
	}
	s.send("(declare-sort Str 0)\n(declare-sort Tape 0)\n(declare-sort Ident 0)\n(declare-const tzero Tape)\n")
	return nil
}
func (s *Solver) z3() bool { return strings.Contains(s.bin[0], "z3") }
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *Solver) send(x string) { s.buf.WriteString(x) }
func (s *Solver) flush() {
	x := s.buf.String()
	s.buf.Reset()
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	io.WriteString(s.in, x)
}

func smtName(n string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "tzero":
		return "tzero"
	case "int":
		if t.iv.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.iv.String(), "-") + ")"
		}
		return t.iv.String()
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.iv.String(), t.sort.W)
	case "sym":
		return smtName(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) declFun(name string, args []*Term, res *Sort) string {
	var as []string
	k := name
	for _, a := range args {
		as = append(as, a.sort.SMT())
		k += "," + a.sort.key()
	}
	k += ":" + res.key()
	nm := smtName(k)
	if !s.decls[k] {
		s.decls[k] = true
		s.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", nm, strings.Join(as, " "), res.SMT()))
	}
	return nm
}

func (s *Solver) define(t *Term) {
	if s.defined[t.id] {
		return
	}
	s.defined[t.id] = true
	var ax []axiom
	seen := map[string]bool{}
	for _, a := range t.args {
		s.define(a)
		for _, x := range s.axs[a.id] {
			if !seen[x.s] {
				seen[x.s] = true
				ax = append(ax, x)
			}
		}
	}
	addAx := func(x string) {
		if !seen[x] {
			seen[x] = true
			ax = append(ax, axiom{x})
		}
	}
	defer func() {
		if len(ax) > 0 {
			s.axs[t.id] = ax
		}
	}()
	var body string
	r := func(i int) string { return s.ref(t.args[i]) }
	app := func(op string) string {
		var p []string
		for i := range t.args {
			p = append(p, r(i))
		}
		return "(" + op + " " + strings.Join(p, " ") + ")"
	}
	switch t.op {
	case "true", "false", "int", "bv", "tzero":
		return
	case "sym":
		s.send(fmt.Sprintf("(declare-const %s %s)\n", s.ref(t), t.sort.SMT()))
		if nn, mx := nonNegAtom(t); nn && t.sort.K == SInt {
			addAx(fmt.Sprintf("(<= 0 %s)", s.ref(t)))
			if mx != nil {
				addAx(fmt.Sprintf("(<= %s %s)", s.ref(t), mx))
			}
		}
		return
	case "strlit":
		s.send(fmt.Sprintf("(declare-const t%d Str)\n", t.id))
		for _, o := range s.lits {
			addAx(fmt.Sprintf("(not (= t%d t%d))", t.id, o.id))
		}
		s.lits = append(s.lits, t)
		return
	case "lin":
		var p []string
		for i := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				p = append(p, r(i))
			} else if t.coefs[i].Sign() < 0 {
				p = append(p, fmt.Sprintf("(* (- %s) %s)", strings.TrimPrefix(t.coefs[i].String(), "-"), r(i)))
			} else {
				p = append(p, fmt.Sprintf("(* %s %s)", t.coefs[i], r(i)))
			}
		}
		if t.iv.Sign() < 0 {
			p = append(p, "(- "+strings.TrimPrefix(t.iv.String(), "-")+")")
		} else {
			p = append(p, t.iv.String())
		}
		body = "(+ " + strings.Join(p, " ") + ")"
	case "mul":
		body = app("*")
	case "div", "mod", "not", "and", "or", "ite", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvnot", "bvult", "bvslt", "concat", "select", "store":
		body = app(t.op)
	case "le":
		body = "(<= 0 " + r(0) + ")"
	case "eq":
		body = app("=")
	case "zext":
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.n-t.args[0].sort.W, r(0))
	case "sext":
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.n-t.args[0].sort.W, r(0))
	case "extract":
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.n, t.m, r(0))
	case "b2i":
		body = "(bv2nat " + r(0) + ")"
	case "i2b":
		body = fmt.Sprintf("((_ int2bv %d) %s)", t.n, r(0))
	case "constarr":
		body = fmt.Sprintf("((as const %s) %s)", t.sort.SMT(), r(0))
	case "tbl":
		// balanced ite over the index
		w := t.args[0].sort.W
		var build func(lo, hi int) string
		build = func(lo, hi int) string {
			if lo == hi {
				v := "0"
				if lo < len(t.tbl) {
					v = t.tbl[lo].String()
				}
				if t.sort.K == SBV {
					return fmt.Sprintf("(_ bv%s %d)", v, t.sort.W)
				}
				return v
			}
			mid := (lo + hi) / 2
			return fmt.Sprintf("(ite (bvule %s (_ bv%d %d)) %s %s)", r(0), mid, w, build(lo, mid), build(mid+1, hi))
		}
		body = build(0, len(t.tbl)-1)
	case "uf":
		f := s.declFun("uf:"+t.name, t.args, t.sort)
		if len(t.args) == 0 {
			body = f
		} else {
			body = app(f)
		}
	case "rd", "rdl", "mkstr", "bytesof", "slen", "strcat", "put", "copy":
		nm := t.op
		if t.n != 0 {
			nm = fmt.Sprintf("%s%d", t.op, t.n)
		}
		body = app(s.declFun(nm, t.args, t.sort))
	default:
		panic("smt: " + t.op)
	}
	s.ndef++
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, t.sort.SMT(), body))
	switch t.op {
	case "rdl":
		// bits at or beyond the limit read as zero
		rd := s.tb.mk(&Term{op: "rd", sort: t.sort, args: t.args[:2], n: t.n})
		s.define(rd)
		pos, lim := s.ref(t.args[1]), s.ref(t.args[2])
		addAx(fmt.Sprintf("(=> (<= (+ %s %d) %s) (= t%d %s))", pos, t.n, lim, t.id, s.ref(rd)))
		addAx(fmt.Sprintf("(=> (<= %s %s) (= t%d (_ bv0 %d)))", lim, pos, t.id, t.sort.W))
	case "slen", "uf", "select":
		if t.sort.K == SInt {
			if nn, mx := nonNegAtom(t); nn {
				addAx(fmt.Sprintf("(<= 0 t%d)", t.id))
				if mx != nil {
					addAx(fmt.Sprintf("(<= t%d %s)", t.id, mx))
				}
			}
		}
	}
}

func (s *Solver) assertAx(t *Term, level int) {
	for _, a := range s.axs[t.id] {
		if _, ok := s.axAt[a.s]; !ok {
			s.axAt[a.s] = level
			s.send("(assert " + a.s + ")\n")
		}
	}
}

func (s *Solver) sync(pc *PC) {
	// wanted chain
	var want []*PC
	for q := pc; q.up != nil; q = q.up {
		want = append(want, q)
	}
	for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	k := 0
	for k < len(want) && k < len(s.stack) && want[k] == s.stack[k] {
		k++
	}
	if k < len(s.stack) {
		s.popTo(k)
	}
	for _, q := range want[k:] {
		s.define(q.t)
		s.send("(push 1)\n")
		s.stack = append(s.stack, q)
		s.assertAx(q.t, len(s.stack))
		s.send("(assert " + s.ref(q.t) + ")\n")
	}
}
func (s *Solver) popTo(k int) {
	s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-k))
	s.stack = s.stack[:k]
	for a, l := range s.axAt {
		if l > k {
			delete(s.axAt, a)
		}
	}
}

// mainLimit bounds one query in the solver's own deterministic units (about
// 2.5 per microsecond), so that a busy machine does not change the answer; the
// timeout in milliseconds is only a backstop.
const mainLimit = 20000000

// Check returns 1 if pc together with extra is satisfiable, -1 if not, 0 unknown.
func (s *Solver) Check(pc *PC, extra ...*Term) int {
	for _, c := range extra {
		if c == s.tb.False {
			return -1
		}
	}
	if s.cmd == nil || s.ndef > 80000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Unknown++
			return 0
		}
	}
	t0 := time.Now()
	pops := len(s.stack)
	s.sync(pc)
	for _, c := range extra {
		s.define(c)
	}
	s.send("(push 1)\n")
	lv := len(s.stack) + 1
	if s.limit != s.limSet && s.z3() {
		s.limSet = s.limit
		t := s.limit
		if t == 0 {
			t = mainLimit
		}
		s.send(fmt.Sprintf("(set-option :rlimit %d)\n", t))
	}
	for _, c := range extra {
		if c != s.tb.True {
			s.assertAx(c, lv)
			s.send("(assert " + s.ref(c) + ")\n")
		}
	}
	s.send("(check-sat)\n(get-info :rlimit)\n(pop 1)\n(echo \"done\")\n")
	for a, l := range s.axAt {
		if l >= lv {
			delete(s.axAt, a)
		}
	}
	s.flush()
	if debug {
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Printf("SLOW %v:", d.Round(time.Millisecond))
				for _, c := range extra {
					fmt.Println("  ", s.tb.Str(c))
				}
				for _, c := range pc.list() {
					fmt.Println("        ", s.tb.Str(c))
				}
			}
		}()
	}
	res, rl := 0, 0
	killed := make(chan bool, 1)
	proc := s.cmd.Process
	tm := time.AfterFunc(time.Duration(s.timeout*3+2000)*time.Millisecond, func() { proc.Kill(); killed <- true })
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			res = 0
			break
		}
		line = strings.TrimSpace(line)
		if line == "done" || line == "\"done\"" {
			break
		}
		if strings.HasPrefix(line, "(:rlimit") {
			n := 0
			fmt.Sscanf(line, "(:rlimit %d", &n)
			rl = n - s.lastRl
			s.lastRl = n
			continue
		}
		switch line {
		case "sat":
			res = 1
		case "unsat":
			res = -1
		case "unknown", "timeout":
		default:
			if strings.HasPrefix(line, "(error") {
				if debug {
					fmt.Println("SMT:", line)
				}
				res = 0
			}
		}
	}
	tm.Stop()
	s.Queries++
	if statFile != "" {
		stats = append(stats, fmt.Sprintf("%d %d %d %d %d %s", time.Since(t0).Microseconds(), res, pc.depth, pops, rl, func() string {
			if len(extra) > 0 {
				z := s.tb.Str(extra[0])
				if len(z) > 150 {
					z = z[:150]
				}
				return z
			}
			return ""
		}()))
	}
	s.Time += time.Since(t0)
	switch res {
	case 1:
		s.Sat++
	case -1:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res
}

var debug bool

var statFile = os.Getenv("GOVC_STAT")
var stats []string
