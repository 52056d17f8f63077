package main

// Terms: hash-consed, sorted, with a rewriting constructor for every operator.
// Integers (Go int/uint and "mathematical" values) are kept in linear normal
// form; machine integers of fixed width are bit vectors; byte strings are
// "tapes" (sequences of bits addressed by bit position).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SBV
	SStr
	STape
	SArr // Array Int -> elem
	SId  // opaque identity of a Go value behind an interface
)

type Sort struct {
	K    SortKind
	W    int
	Elem *Sort
}

var (
	BoolS = &Sort{K: SBool}
	IntS  = &Sort{K: SInt}
	StrS  = &Sort{K: SStr}
	TapeS = &Sort{K: STape}
	IdS   = &Sort{K: SId}
	bvS   = map[int]*Sort{}
	arrS  = map[*Sort]*Sort{}
)

func init() {
	// pre-build every sort so that the tables are read-only afterwards
	base := []*Sort{BoolS, IntS, StrS, TapeS, IdS}
	for w := 1; w <= 4096; w++ {
		bvS[w] = &Sort{K: SBV, W: w}
		if w <= 64 {
			base = append(base, bvS[w])
		}
	}
	for d := 0; d < 3; d++ {
		var next []*Sort
		for _, s := range base {
			a := &Sort{K: SArr, Elem: s}
			arrS[s] = a
			next = append(next, a)
		}
		base = next
	}
}

func BV(w int) *Sort {
	s := bvS[w]
	if s == nil {
		panic(unsupported("bit vector too wide: %d", w))
	}
	return s
}
func ArrOf(s *Sort) *Sort {
	a := arrS[s]
	if a == nil {
		panic(unsupported("array sort too deep"))
	}
	return a
}

func (s *Sort) SMT() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SStr:
		return "Str"
	case STape:
		return "Tape"
	case SId:
		return "Ident"
	case SArr:
		return "(Array Int " + s.Elem.SMT() + ")"
	}
	return "?"
}
func (s *Sort) key() string {
	switch s.K {
	case SBool:
		return "B"
	case SInt:
		return "I"
	case SBV:
		return fmt.Sprintf("V%d", s.W)
	case SStr:
		return "S"
	case STape:
		return "T"
	case SId:
		return "D"
	}
	return "A" + s.Elem.key()
}

type Term struct {
	id    int
	op    string
	args  []*Term
	sort  *Sort
	iv    *big.Int   // const value (Int, BV) ; Bool const uses op true/false
	name  string     // symbol, UF or literal name
	n, m  int        // parameters
	coefs []*big.Int // for op "lin": coefficients of args, iv = constant
	symNo int        // for symbols: creation number
	tbl   []*big.Int // for op "tbl"
}

type TB struct {
	tab    map[string]*Term
	nextID int
	nSyms  int
	tbls   map[string]int
	True   *Term
	False  *Term
	Zero   *Term
	// hook: decide an integer fact on the current path (may be nil)
	decide func(t *Term) int // 1 true, -1 false, 0 unknown
	// what a loop leaves of the tape it continues
	prefix map[*Term]tapePrefix
	filled map[*Term]*Term // in a loop's final array: what one iteration stored
}

type tapePrefix struct{ t, end *Term }

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}, tbls: map[string]int{}, prefix: map[*Term]tapePrefix{}, filled: map[*Term]*Term{}}
	b.True = b.mk(&Term{op: "true", sort: BoolS})
	b.False = b.mk(&Term{op: "false", sort: BoolS})
	b.Zero = b.Int(0)
	return b
}

func (b *TB) key(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort.key())
	if t.n != 0 || t.m != 0 {
		fmt.Fprintf(&sb, "|%d,%d", t.n, t.m)
	}
	if t.iv != nil {
		sb.WriteByte('#')
		sb.WriteString(t.iv.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].String())
		}
	}
	return sb.String()
}

// peek: the term, if it exists already
func (b *TB) peek(t *Term) *Term { return b.tab[b.key(t)] }

func (b *TB) mk(t *Term) *Term {
	k := b.key(t)
	if o, ok := b.tab[k]; ok {
		return o
	}
	b.nextID++
	t.id = b.nextID
	b.tab[k] = t
	return t
}

var bigOne = big.NewInt(1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) Int(v int64) *Term         { return b.BigInt(big.NewInt(v)) }
func (b *TB) BigInt(v *big.Int) *Term   { return b.mk(&Term{op: "int", sort: IntS, iv: v}) }
func (b *TB) BVc(w int, v uint64) *Term { return b.BVbig(w, new(big.Int).SetUint64(v)) }
func (b *TB) BVbig(w int, v *big.Int) *Term {
	m := new(big.Int).Mod(v, pow2(w))
	return b.mk(&Term{op: "bv", sort: BV(w), iv: m})
}

// Sym makes a fresh symbol.
func (b *TB) Sym(name string, s *Sort) *Term {
	b.nSyms++
	t := &Term{op: "sym", sort: s, name: fmt.Sprintf("%s!%d", name, b.nSyms), symNo: b.nSyms}
	return b.mk(t)
}

// UF applies an uninterpreted function.
func (b *TB) UF(name string, s *Sort, args ...*Term) *Term {
	return b.mk(&Term{op: "uf", name: name, sort: s, args: args})
}

func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "bv" || t.op == "true" || t.op == "false" || t.op == "strlit"
}
func (t *Term) isInt() bool { return t.op == "int" }

// ---------- Int: linear normal form ----------

type lin struct {
	c     *big.Int
	coefs map[int]*big.Int
	atoms map[int]*Term
}

func (b *TB) toLin(t *Term) *lin {
	l := &lin{c: new(big.Int), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
	b.addLin(l, t, bigOne)
	return l
}
func (b *TB) addLin(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.iv))
	case "lin":
		l.c.Add(l.c, new(big.Int).Mul(k, t.iv))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(k, t.coefs[i]))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(a *Term, k *big.Int) {
	if o, ok := l.coefs[a.id]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.coefs, a.id)
			delete(l.atoms, a.id)
		} else {
			l.coefs[a.id] = n
		}
		return
	}
	if k.Sign() == 0 {
		return
	}
	l.coefs[a.id] = new(big.Int).Set(k)
	l.atoms[a.id] = a
}
func (b *TB) fromLin(l *lin) *Term {
	if len(l.coefs) == 0 {
		return b.BigInt(l.c)
	}
	ids := make([]int, 0, len(l.coefs))
	for id := range l.coefs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.coefs[ids[0]].Cmp(bigOne) == 0 {
		return l.atoms[ids[0]]
	}
	t := &Term{op: "lin", sort: IntS, iv: l.c}
	for _, id := range ids {
		t.args = append(t.args, l.atoms[id])
		t.coefs = append(t.coefs, l.coefs[id])
	}
	return b.mk(t)
}
func (b *TB) Add(x, y *Term) *Term {
	l := b.toLin(x)
	b.addLin(l, y, bigOne)
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	l := b.toLin(x)
	b.addLin(l, y, big.NewInt(-1))
	return b.fromLin(l)
}
func (b *TB) MulC(x *Term, k int64) *Term { return b.MulBig(x, big.NewInt(k)) }
func (b *TB) MulBig(x *Term, k *big.Int) *Term {
	l := &lin{c: new(big.Int), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
	b.addLin(l, x, k)
	return b.fromLin(l)
}
func (b *TB) AddC(x *Term, k int64) *Term { return b.Add(x, b.Int(k)) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.MulBig(y, x.iv)
	}
	if y.isInt() {
		return b.MulBig(x, y.iv)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "mul", sort: IntS, args: []*Term{x, y}})
}

// split t into k*q + r where q collects every part divisible by k
func (b *TB) splitDiv(t *Term, k *big.Int) (q, r *Term) {
	l := b.toLin(t)
	ql := &lin{c: new(big.Int), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
	rl := &lin{c: new(big.Int), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
	d, m := new(big.Int).DivMod(l.c, k, new(big.Int))
	ql.c, rl.c = d, m
	for id, c := range l.coefs {
		d, m := new(big.Int).DivMod(c, k, new(big.Int))
		if m.Sign() == 0 {
			ql.addAtom(l.atoms[id], d)
		} else {
			rl.addAtom(l.atoms[id], c)
		}
	}
	return b.fromLin(ql), b.fromLin(rl)
}

// FDiv: floor division by a positive constant
func (b *TB) FDiv(x *Term, k int64) *Term { return b.FDivBig(x, big.NewInt(k)) }
func (b *TB) FDivBig(x *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return x
	}
	q, r := b.splitDiv(x, k)
	if r.isInt() && r.iv.Sign() >= 0 && r.iv.Cmp(k) < 0 {
		return q
	}
	if r.op == "div" && r.args[1].isInt() { // (x/a)/b = x/(a*b)
		d := b.FDivBig(r.args[0], new(big.Int).Mul(k, r.args[1].iv))
		return b.Add(q, d)
	}
	return b.Add(q, b.mk(&Term{op: "div", sort: IntS, args: []*Term{r, b.BigInt(k)}}))
}

// FMod: mathematical modulus by a positive constant
func (b *TB) FMod(x *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return b.Zero
	}
	_, r := b.splitDiv(x, k)
	if r.isInt() {
		return b.BigInt(new(big.Int).Mod(r.iv, k))
	}
	if r.op == "b2i" && k.Cmp(pow2(r.args[0].sort.W)) >= 0 {
		return r
	}
	if r.op == "mod" && r.args[1].isInt() {
		k2 := r.args[1].iv
		if k.Cmp(k2) >= 0 {
			if new(big.Int).Mod(k, k2).Sign() == 0 || k.Cmp(k2) >= 0 {
				return r
			}
		}
		if new(big.Int).Mod(k2, k).Sign() == 0 {
			return b.FMod(r.args[0], k)
		}
	}
	return b.mk(&Term{op: "mod", sort: IntS, args: []*Term{r, b.BigInt(k)}})
}

// isMult reports whether t is syntactically divisible by k.
func (b *TB) isMult(t *Term, k int64) bool {
	_, r := b.splitDiv(t, big.NewInt(k))
	return r.isInt() && r.iv.Sign() == 0
}

// range knowledge for atoms that are non negative by construction
// No slice or string in memory is longer than this (a quarter of the largest
// address space of any Go platform, counted in bits fits an int).
var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// ".u.len" marks an unsigned machine integer, not a length.
func lenMax(n string) *big.Int {
	if strings.HasSuffix(n, ".u.len") || strings.HasSuffix(n, ".p.len") {
		return nil
	}
	return maxLen
}

func nonNegAtom(t *Term) (bool, *big.Int) {
	switch t.op {
	case "b2i":
		return true, new(big.Int).Sub(pow2(t.args[0].sort.W), bigOne)
	case "slen":
		return true, maxLen
	case "mod":
		if t.args[1].isInt() {
			return true, new(big.Int).Sub(t.args[1].iv, bigOne)
		}
	case "uf":
		if strings.HasSuffix(t.name, ".len") {
			return true, lenMax(t.name)
		}
	case "sym":
		if strings.HasSuffix(arrBaseName(t), ".len") {
			return true, lenMax(arrBaseName(t))
		}
	case "select":
		if strings.HasSuffix(arrBaseName(t), ".len") {
			return true, lenMax(arrBaseName(t))
		}
	case "div":
		if t.args[1].isInt() && t.args[1].iv.Sign() > 0 {
			lo, _ := boundsOf(t.args[0])
			if lo != nil && lo.Sign() >= 0 {
				return true, nil
			}
		}
	}
	return false, nil
}
func arrBaseName(t *Term) string {
	for t.op == "select" || t.op == "store" {
		t = t.args[0]
	}
	n := t.name
	if i := strings.LastIndex(n, "!"); i >= 0 && t.op == "sym" {
		n = n[:i]
	}
	return n
}

func boundsOf(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.iv, t.iv
	case "lin":
		lo, hi = new(big.Int).Set(t.iv), new(big.Int).Set(t.iv)
		for i, a := range t.args {
			al, ah := boundsOf(a)
			c := t.coefs[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(c, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(c, ah))
				}
			}
		}
		return
	}
	if nn, mx := nonNegAtom(t); nn {
		return new(big.Int), mx
	}
	return nil, nil
}

// ---------- Bool ----------

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case "true":
		return b.False
	case "false":
		return b.True
	case "not":
		return x.args[0]
	case "le": // not (0 <= e)  ->  0 <= -e-1
		return b.ge0(b.AddC(b.MulC(x.args[0], -1), -1))
	}
	return b.mk(&Term{op: "not", sort: BoolS, args: []*Term{x}})
}
func (b *TB) And(xs ...*Term) *Term { return b.andor("and", b.True, b.False, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.andor("or", b.False, b.True, xs) }
func (b *TB) andor(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x == unit {
			continue
		}
		if x == zero {
			return zero
		}
		if x.op == op {
			for _, y := range x.args {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.id] {
			seen[x.id] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[b.Not(x).id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(&Term{op: op, sort: BoolS, args: out})
}
func (b *TB) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if x.sort.K == SBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if x.sort.K == SBV && x.sort.W == 1 && x.op == "bv" && y.op == "bv" {
		// ite(v == 1, 1, 0) = v
		if x.iv.Sign() == 1 && c.op == "eq" && c.args[0].sort == x.sort {
			if c.args[0].op == "bv" && c.args[0].iv.Sign() == 1 {
				return c.args[1]
			}
			if c.args[1].op == "bv" && c.args[1].iv.Sign() == 1 {
				return c.args[0]
			}
		}
		if x.iv.Sign() == 0 && c.op == "not" {
			return b.Ite(c.args[0], y, x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	return b.mk(&Term{op: "ite", sort: x.sort, args: []*Term{c, x, y}})
}

// ge0: 0 <= e (Int)
func (b *TB) ge0(e *Term) *Term {
	if e.isInt() {
		return b.Bool(e.iv.Sign() >= 0)
	}
	// divide by gcd of coefficients
	if e.op == "lin" {
		g := new(big.Int)
		for _, c := range e.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			l := &lin{c: new(big.Int).Div(e.iv, g), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
			// floor for the constant: sum >= -c/g  <=>  sum + floor(c/g) >= 0
			for i, a := range e.args {
				l.addAtom(a, new(big.Int).Div(e.coefs[i], g))
			}
			e = b.fromLin(l)
		}
	}
	lo, hi := boundsOf(e)
	if lo != nil && lo.Sign() >= 0 {
		return b.True
	}
	if hi != nil && hi.Sign() < 0 {
		return b.False
	}
	// single b2i atom with coefficient +-1: compare as bit vectors
	var at *Term
	var cf, cc *big.Int
	if e.op == "b2i" {
		at, cf, cc = e, bigOne, new(big.Int)
	} else if e.op == "lin" && len(e.args) == 1 && e.args[0].op == "b2i" {
		at, cf, cc = e.args[0], e.coefs[0], e.iv
	}
	if at != nil && cf.CmpAbs(bigOne) == 0 {
		v := at.args[0]
		if cf.Sign() > 0 { // v >= -cc
			k := new(big.Int).Neg(cc)
			return b.Not(b.BVUlt(v, b.BVbig(v.sort.W, k)))
		}
		// cc >= v
		if cc.Cmp(pow2(v.sort.W)) >= 0 {
			return b.True
		}
		return b.Not(b.BVUlt(b.BVbig(v.sort.W, cc), v))
	}
	return b.mk(&Term{op: "le", sort: BoolS, args: []*Term{e}})
}
func (b *TB) Le(x, y *Term) *Term { return b.ge0(b.Sub(y, x)) }
func (b *TB) Lt(x, y *Term) *Term { return b.ge0(b.AddC(b.Sub(y, x), -1)) }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s %s : %s / %s", x.sort.SMT(), y.sort.SMT(), b.Str(x), b.Str(y)))
	}
	switch x.sort.K {
	case SBool:
		if x == b.True {
			return y
		}
		if y == b.True {
			return x
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.False {
			return b.Not(x)
		}
		if b.Not(x) == y {
			return b.False
		}
	case SInt:
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.iv.Sign() == 0)
		}
		if d.op == "lin" {
			g := new(big.Int)
			for _, c := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if new(big.Int).Mod(d.iv, g).Sign() != 0 {
				return b.False
			}
			// canonical sign & scale
			if d.coefs[0].Sign() < 0 {
				g.Neg(g)
			}
			l := &lin{c: new(big.Int).Quo(d.iv, g), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
			for i, a := range d.args {
				l.addAtom(a, new(big.Int).Quo(d.coefs[i], g))
			}
			d = b.fromLin(l)
		}
		lo, hi := boundsOf(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return b.False
		}
		if d.op == "b2i" {
			return b.Eq(d.args[0], b.BVc(d.args[0].sort.W, 0))
		}
		if d.op == "lin" && len(d.args) == 1 && d.args[0].op == "b2i" && d.coefs[0].CmpAbs(bigOne) == 0 {
			v := d.args[0].args[0]
			k := new(big.Int).Neg(d.iv)
			if d.coefs[0].Sign() < 0 {
				k.Neg(k)
			}
			return b.Eq(v, b.BVbig(v.sort.W, k))
		}
		if d.op == "lin" && len(d.args) == 2 && d.iv.Sign() == 0 && d.args[0].op == "b2i" && d.args[1].op == "b2i" &&
			d.args[0].args[0].sort == d.args[1].args[0].sort && d.coefs[0].CmpAbs(bigOne) == 0 && d.coefs[1].CmpAbs(bigOne) == 0 && d.coefs[0].Sign() != d.coefs[1].Sign() {
			return b.Eq(d.args[0].args[0], d.args[1].args[0])
		}
		return b.mk(&Term{op: "eq", sort: BoolS, args: []*Term{d, b.Zero}})
	case SBV:
		if x.op == "bv" && y.op == "bv" {
			return b.Bool(x.iv.Cmp(y.iv) == 0)
		}
		if x.op == "bv" {
			x, y = y, x
		}
		if y.op == "bv" {
			if x.op == "zext" {
				w := x.args[0].sort.W
				if y.iv.Cmp(pow2(w)) >= 0 {
					return b.False
				}
				return b.Eq(x.args[0], b.BVbig(w, y.iv))
			}
			if x.op == "ite" {
				return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
			}
			if x.op == "bvnot" {
				return b.Eq(x.args[0], b.BVbig(x.sort.W, new(big.Int).Sub(new(big.Int).Sub(pow2(x.sort.W), bigOne), y.iv)))
			}
			if x.sort.W == 1 && y.iv.Sign() == 0 { // canonical: not (x = 1)
				return b.Not(b.Eq(x, b.BVc(1, 1)))
			}
		}
		if x.op == "zext" && y.op == "zext" && x.args[0].sort == y.args[0].sort {
			return b.Eq(x.args[0], y.args[0])
		}
	case SStr:
		if x.op == "strlit" && y.op == "strlit" {
			return b.Bool(x.name == y.name)
		}
		for i := 0; i < 2; i++ {
			// a prefix of a text is the text when it is as long
			if x.op == "mkstr" && x.args[0].op == "bytesof" && x.args[0].args[0] == y && x.args[1].isInt() && x.args[1].iv.Sign() == 0 && y.op != "mkstr" {
				return b.Eq(x.args[2], b.SLen(y))
			}
			x, y = y, x
		}
		if x.op == "mkstr" && y.op == "mkstr" && x.args[0] == y.args[0] && x.args[1] == y.args[1] {
			return b.Eq(x.args[2], y.args[2])
		}
		if x.op == "mkstr" && y.op == "mkstr" && x.args[2] == y.args[2] && x.args[2].isInt() && x.args[2].iv.Cmp(big.NewInt(64)) <= 0 && x.args[0].op == "put" && y.args[0].op == "put" {
			cs := []*Term{}
			for i := int64(0); i < x.args[2].iv.Int64(); i++ {
				cs = append(cs, b.Eq(b.Rd(x.args[0], b.MulC(b.AddC(x.args[1], i), 8), 8), b.Rd(y.args[0], b.MulC(b.AddC(y.args[1], i), 8), 8)))
			}
			return b.And(cs...)
		}
	case SId:
		if x.op == "uf" && y.op == "uf" && strings.HasPrefix(x.name, "mk:") && strings.HasPrefix(y.name, "mk:") {
			if x.name != y.name || len(x.args) != len(y.args) {
				return b.False
			}
			var cs []*Term
			for i := range x.args {
				if x.args[i].sort != y.args[i].sort {
					return b.False
				}
				cs = append(cs, b.Eq(x.args[i], y.args[i]))
			}
			return b.And(cs...)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "eq", sort: BoolS, args: []*Term{x, y}})
}

// ---------- bit vectors ----------

func (b *TB) bvbin(op string, x, y *Term) *Term {
	return b.mk(&Term{op: op, sort: x.sort, args: []*Term{x, y}})
}
func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, pow2(w))
	}
	return v
}
func (b *TB) BVOp(op string, x, y *Term) *Term {
	w := x.sort.W
	if x.sort != y.sort {
		panic("BVOp sort mismatch " + op)
	}
	if x.op == "bv" && y.op == "bv" {
		r := new(big.Int)
		a, c := x.iv, y.iv
		switch op {
		case "bvadd":
			return b.BVbig(w, r.Add(a, c))
		case "bvsub":
			return b.BVbig(w, r.Sub(a, c))
		case "bvmul":
			return b.BVbig(w, r.Mul(a, c))
		case "bvand":
			return b.BVbig(w, r.And(a, c))
		case "bvor":
			return b.BVbig(w, r.Or(a, c))
		case "bvxor":
			return b.BVbig(w, r.Xor(a, c))
		case "bvshl":
			if c.Cmp(big.NewInt(int64(w))) >= 0 {
				return b.BVc(w, 0)
			}
			return b.BVbig(w, r.Lsh(a, uint(c.Int64())))
		case "bvlshr":
			if c.Cmp(big.NewInt(int64(w))) >= 0 {
				return b.BVc(w, 0)
			}
			return b.BVbig(w, r.Rsh(a, uint(c.Int64())))
		case "bvashr":
			s := toSigned(a, w)
			k := uint(w)
			if c.Cmp(big.NewInt(int64(w))) < 0 {
				k = uint(c.Int64())
			}
			return b.BVbig(w, r.Rsh(s, k))
		case "bvudiv":
			if c.Sign() != 0 {
				return b.BVbig(w, r.Div(a, c))
			}
		case "bvurem":
			if c.Sign() != 0 {
				return b.BVbig(w, r.Mod(a, c))
			}
		}
	}
	switch op {
	case "bvadd", "bvor", "bvxor", "bvand", "bvmul":
		if x.id > y.id && y.op != "bv" || x.op == "bv" {
			x, y = y, x
		}
	}
	if x.op == "i2b" && (y.op == "bv" || y.op == "i2b") {
		k := b.BigInt(new(big.Int))
		if y.op == "bv" {
			k = b.BigInt(y.iv)
		} else {
			k = y.args[0]
		}
		switch op {
		case "bvadd":
			return b.I2B(w, b.Add(x.args[0], k))
		case "bvsub":
			return b.I2B(w, b.Sub(x.args[0], k))
		}
	}
	if y.op == "bv" {
		z := y.iv.Sign() == 0
		all := y.iv.Cmp(new(big.Int).Sub(pow2(w), bigOne)) == 0
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			if z {
				return x
			}
		case "bvand":
			if z {
				return y
			}
			if all {
				return x
			}
			// low mask
			n := y.iv.BitLen()
			if y.iv.Cmp(new(big.Int).Sub(pow2(n), bigOne)) == 0 {
				return b.Zext(w, b.Extract(n-1, 0, x))
			}
		}
		if op == "bvor" && all {
			return y
		}
		if op == "bvlshr" && y.iv.IsInt64() {
			k := y.iv.Int64()
			if k >= int64(w) {
				return b.BVc(w, 0)
			}
			return b.Zext(w, b.Extract(w-1, int(k), x))
		}
		if op == "bvshl" && y.iv.IsInt64() {
			k := y.iv.Int64()
			if k >= int64(w) {
				return b.BVc(w, 0)
			}
			return b.Concat(b.Extract(w-1-int(k), 0, x), b.BVc(int(k), 0))
		}
	}
	if x == y {
		switch op {
		case "bvsub", "bvxor":
			return b.BVc(w, 0)
		case "bvand", "bvor":
			return x
		}
	}
	// or/xor/add of zero-disjoint concat pieces
	if op == "bvor" || op == "bvxor" {
		if r := b.orDisjoint(x, y); r != nil {
			return r
		}
	}
	return b.bvbin(op, x, y)
}

// orDisjoint: concat(a, 0_k) | zext(c_k') with k' <= k
func (b *TB) orDisjoint(x, y *Term) *Term {
	try := func(x, y *Term) *Term {
		if x.op == "concat" && x.args[1].op == "bv" && x.args[1].iv.Sign() == 0 {
			k := x.args[1].sort.W
			if y.op == "zext" && y.args[0].sort.W <= k {
				return b.Concat(x.args[0], b.Zext(k, y.args[0]))
			}
		}
		return nil
	}
	if r := try(x, y); r != nil {
		return r
	}
	return try(y, x)
}
func (b *TB) BVNot(x *Term) *Term {
	if x.op == "bv" {
		return b.BVbig(x.sort.W, new(big.Int).Not(x.iv))
	}
	if x.op == "bvnot" {
		return x.args[0]
	}
	return b.mk(&Term{op: "bvnot", sort: x.sort, args: []*Term{x}})
}
func (b *TB) BVNeg(x *Term) *Term { return b.BVOp("bvsub", b.BVc(x.sort.W, 0), x) }
func (b *TB) BVUlt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.op == "bv" && y.op == "bv" {
		return b.Bool(x.iv.Cmp(y.iv) < 0)
	}
	if y.op == "bv" {
		if y.iv.Sign() == 0 {
			return b.False
		}
		if y.iv.Cmp(bigOne) == 0 {
			return b.Eq(x, b.BVc(x.sort.W, 0))
		}
		if x.op == "zext" {
			w := x.args[0].sort.W
			if y.iv.Cmp(pow2(w)) >= 0 {
				return b.True
			}
			return b.BVUlt(x.args[0], b.BVbig(w, y.iv))
		}
		if new(big.Int).Add(y.iv, bigOne).Cmp(pow2(x.sort.W)) == 0 {
			return b.Not(b.Eq(x, y))
		}
	}
	if x.op == "bv" {
		if x.iv.Sign() == 0 {
			return b.Not(b.Eq(y, x))
		}
		if new(big.Int).Add(x.iv, bigOne).Cmp(pow2(x.sort.W)) == 0 {
			return b.False
		}
		if y.op == "zext" {
			w := y.args[0].sort.W
			if x.iv.Cmp(pow2(w)) >= 0 {
				return b.False
			}
			return b.BVUlt(b.BVbig(w, x.iv), y.args[0])
		}
		// c < y  <=>  not (y < c+1)
		return b.Not(b.BVUlt(y, b.BVbig(y.sort.W, new(big.Int).Add(x.iv, bigOne))))
	}
	if x.op == "zext" && y.op == "zext" && x.args[0].sort == y.args[0].sort {
		return b.BVUlt(x.args[0], y.args[0])
	}
	return b.mk(&Term{op: "bvult", sort: BoolS, args: []*Term{x, y}})
}
func (b *TB) BVSlt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.op == "bv" && y.op == "bv" {
		return b.Bool(toSigned(x.iv, x.sort.W).Cmp(toSigned(y.iv, y.sort.W)) < 0)
	}
	// both provably non-negative
	nn := func(t *Term) bool {
		return t.op == "zext" || t.op == "bv" && t.iv.Bit(t.sort.W-1) == 0
	}
	if nn(x) && nn(y) {
		return b.BVUlt(x, y)
	}
	return b.mk(&Term{op: "bvslt", sort: BoolS, args: []*Term{x, y}})
}
func (b *TB) Zext(w int, x *Term) *Term {
	if x.sort.W == w {
		return x
	}
	if x.sort.W > w {
		panic("zext narrower")
	}
	if x.op == "bv" {
		return b.BVbig(w, x.iv)
	}
	if x.op == "zext" {
		x = x.args[0]
	}
	return b.mk(&Term{op: "zext", sort: BV(w), args: []*Term{x}, n: w})
}
func (b *TB) Sext(w int, x *Term) *Term {
	if x.sort.W == w {
		return x
	}
	if x.op == "bv" {
		return b.BVbig(w, toSigned(x.iv, x.sort.W))
	}
	if x.op == "zext" {
		return b.Zext(w, x)
	}
	return b.mk(&Term{op: "sext", sort: BV(w), args: []*Term{x}, n: w})
}
func (b *TB) Extract(hi, lo int, x *Term) *Term {
	w := hi - lo + 1
	if w == x.sort.W {
		return x
	}
	switch x.op {
	case "bv":
		return b.BVbig(w, new(big.Int).Rsh(x.iv, uint(lo)))
	case "extract":
		return b.Extract(hi+x.m, lo+x.m, x.args[0])
	case "zext":
		iw := x.args[0].sort.W
		if lo >= iw {
			return b.BVc(w, 0)
		}
		if hi < iw {
			return b.Extract(hi, lo, x.args[0])
		}
		return b.Zext(w, b.Extract(iw-1, lo, x.args[0]))
	case "concat":
		lw := x.args[1].sort.W
		if hi < lw {
			return b.Extract(hi, lo, x.args[1])
		}
		if lo >= lw {
			return b.Extract(hi-lw, lo-lw, x.args[0])
		}
		return b.Concat(b.Extract(hi-lw, 0, x.args[0]), b.Extract(lw-1, lo, x.args[1]))
	case "rd":
		// bits of a read are a read of those bits
		return b.Rd(x.args[0], b.AddC(x.args[1], int64(x.sort.W-1-hi)), w)
	case "rdl":
		return b.RdL(x.args[0], b.AddC(x.args[1], int64(x.sort.W-1-hi)), x.args[2], w)
	case "i2b":
		if lo == 0 {
			return b.I2B(w, x.args[0])
		}
	case "ite":
		if x.args[1].op == "bv" && x.args[2].op == "bv" {
			return b.Ite(x.args[0], b.Extract(hi, lo, x.args[1]), b.Extract(hi, lo, x.args[2]))
		}
	case "bvand", "bvor", "bvxor":
		if x.args[0].op == "bv" || x.args[1].op == "bv" {
			return b.BVOp(x.op, b.Extract(hi, lo, x.args[0]), b.Extract(hi, lo, x.args[1]))
		}
	case "tbl":
		nt := make([]*big.Int, len(x.tbl))
		for i := range nt {
			nt[i] = new(big.Int).Mod(new(big.Int).Rsh(x.tbl[i], uint(lo)), pow2(w))
		}
		return b.Tbl(nt, BV(w), x.args[0])
	}
	return b.mk(&Term{op: "extract", sort: BV(w), args: []*Term{x}, n: hi, m: lo})
}
func (b *TB) Concat(x, y *Term) *Term {
	w := x.sort.W + y.sort.W
	if x.op == "bv" && y.op == "bv" {
		return b.BVbig(w, new(big.Int).Or(new(big.Int).Lsh(x.iv, uint(y.sort.W)), y.iv))
	}
	if x.op == "bv" && x.iv.Sign() == 0 {
		return b.Zext(w, y)
	}
	if x.op == "extract" && y.op == "extract" && x.args[0] == y.args[0] && x.m == y.n+1 {
		return b.Extract(x.n, y.m, x.args[0])
	}
	if x.op == "zext" {
		return b.Zext(w, b.Concat(x.args[0], y))
	}
	// right-assoc normal form: (a ++ b) ++ c -> a ++ (b ++ c)
	if x.op == "concat" {
		return b.Concat(x.args[0], b.Concat(x.args[1], y))
	}
	if y.op == "concat" {
		h := b.Concat(x, y.args[0])
		if h.op != "concat" {
			return b.Concat(h, y.args[1])
		}
	}
	// adjacent reads of the same tape
	if x.op == "rd" && y.op == "rd" && x.args[0] == y.args[0] {
		if d := b.Sub(y.args[1], x.args[1]); d.isInt() && d.iv.Cmp(big.NewInt(int64(x.sort.W))) == 0 && w <= 64 {
			return b.mk(&Term{op: "rd", sort: BV(w), args: []*Term{x.args[0], x.args[1]}, n: w})
		}
	}
	if x.op == "rdl" && y.op == "rdl" && x.args[0] == y.args[0] && x.args[2] == y.args[2] && w <= 64 {
		if d := b.Sub(y.args[1], x.args[1]); d.isInt() && d.iv.Cmp(big.NewInt(int64(x.sort.W))) == 0 {
			return b.mk(&Term{op: "rdl", sort: BV(w), args: x.args, n: w})
		}
	}
	return b.mk(&Term{op: "concat", sort: BV(w), args: []*Term{x, y}})
}

// B2I: unsigned value of a bit vector.
func (b *TB) B2I(x *Term) *Term {
	switch x.op {
	case "bv":
		return b.BigInt(x.iv)
	case "zext":
		return b.B2I(x.args[0])
	case "i2b":
		return b.FModP(x.args[0], pow2(x.sort.W))
	case "ite":
		if x.args[1].op == "bv" || x.args[2].op == "bv" {
			return b.Ite(x.args[0], b.B2I(x.args[1]), b.B2I(x.args[2]))
		}
	case "tbl":
		return b.Tbl(x.tbl, IntS, x.args[0])
	}
	return b.mk(&Term{op: "b2i", sort: IntS, args: []*Term{x}})
}

// FModP is FMod, dropping the modulus when the path implies the range.
func (b *TB) FModP(x *Term, k *big.Int) *Term {
	r := b.FMod(x, k)
	if r.op == "mod" && b.decide != nil {
		if b.decide(b.And(b.ge0(x), b.Lt(x, b.BigInt(k)))) == 1 {
			return x
		}
	}
	return r
}
func (b *TB) I2B(w int, x *Term) *Term {
	if x.isInt() {
		return b.BVbig(w, x.iv)
	}
	if x.op == "b2i" {
		v := x.args[0]
		if v.sort.W == w {
			return v
		}
		if v.sort.W < w {
			return b.Zext(w, v)
		}
		return b.Extract(w-1, 0, v)
	}
	if x.op == "mod" && x.args[1].isInt() && new(big.Int).Mod(x.args[1].iv, pow2(w)).Sign() == 0 {
		return b.I2B(w, x.args[0])
	}
	if x.op == "tbl" {
		nt := make([]*big.Int, len(x.tbl))
		for i := range nt {
			nt[i] = new(big.Int).Mod(x.tbl[i], pow2(w))
		}
		return b.Tbl(nt, BV(w), x.args[0])
	}
	// drop multiples of 2^w
	_, r := b.splitDiv(x, pow2(w))
	if r != x {
		return b.I2B(w, r)
	}
	return b.mk(&Term{op: "i2b", sort: BV(w), args: []*Term{x}, n: w})
}

// Tbl: constant table indexed by a bit vector.
func (b *TB) Tbl(vals []*big.Int, s *Sort, idx *Term) *Term {
	if idx.op == "bv" {
		i := int(idx.iv.Int64())
		v := new(big.Int)
		if i < len(vals) {
			v = vals[i]
		}
		if s.K == SInt {
			return b.BigInt(v)
		}
		return b.BVbig(s.W, v)
	}
	var sb strings.Builder
	for _, v := range vals {
		sb.WriteString(v.Text(36))
		sb.WriteByte(',')
	}
	k := sb.String()
	id, ok := b.tbls[k]
	if !ok {
		id = len(b.tbls) + 1
		b.tbls[k] = id
	}
	return b.mk(&Term{op: "tbl", sort: s, args: []*Term{idx}, n: id, tbl: vals})
}

// ---------- arrays ----------

func (b *TB) ConstArr(v *Term) *Term {
	return b.mk(&Term{op: "constarr", sort: ArrOf(v.sort), args: []*Term{v}})
}
func (b *TB) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "constarr":
			return a.args[0]
		case "store":
			d := b.Sub(a.args[1], i)
			if d.isInt() {
				if d.iv.Sign() == 0 {
					return a.args[2]
				}
				a = a.args[0]
				continue
			}
			if b.decide != nil {
				if r := b.decide(b.Eq(a.args[1], i)); r == 1 {
					return a.args[2]
				} else if r == -1 {
					a = a.args[0]
					continue
				}
			}
		case "sym":
			if s := b.filled[a]; s != nil && s.args[1] == i {
				return s.args[2]
			}
		}
		break
	}
	return b.mk(&Term{op: "select", sort: a.sort.Elem, args: []*Term{a, i}})
}
func (b *TB) Store(a, i, v *Term) *Term {
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "store" && a.args[1] == i {
		return b.Store(a.args[0], i, v)
	}
	if a.op == "constarr" && a.args[0] == v {
		return a
	}
	return b.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

// ---------- strings ----------

func (b *TB) StrLit(s string) *Term { return b.mk(&Term{op: "strlit", sort: StrS, name: s}) }
func (b *TB) SLen(s *Term) *Term {
	switch s.op {
	case "strlit":
		return b.Int(int64(len(s.name)))
	case "mkstr":
		return s.args[2]
	case "strcat":
		return b.Add(b.SLen(s.args[0]), b.SLen(s.args[1]))
	case "uf":
		switch {
		case s.name == "hex.enc" || s.name == "fmt:%X:bytes" || s.name == "fmt:%x:bytes":
			return b.MulC(b.SLen(s.args[0]), 2)
		case strings.HasSuffix(s.name, "base64.StdEncoding.enc"):
			return b.MulC(b.FDiv(b.AddC(b.SLen(s.args[0]), 2), 3), 4)
		}
	case "ite":
		// a choice between literals
		for t := s; ; t = t.args[2] {
			if t.op == "strlit" {
				return b.Ite(s.args[0], b.SLen(s.args[1]), b.SLen(s.args[2]))
			}
			if t.op != "ite" || t.args[1].op != "strlit" {
				break
			}
		}
	}
	return b.mk(&Term{op: "slen", sort: IntS, args: []*Term{s}})
}

// MkStr: the string made of len bytes at byte offset off of tape t.
func (b *TB) MkStr(t, off, ln *Term) *Term {
	if ln.isInt() && ln.iv.Sign() == 0 {
		return b.StrLit("")
	}
	t, off = b.Sub8(t, off, ln)
	if t.op == "bytesof" && off.isInt() && off.iv.Sign() == 0 && b.SLen(t.args[0]) == ln {
		return t.args[0]
	}
	if ln.isInt() && ln.iv.IsInt64() && ln.iv.Int64() <= 4096 {
		// literal content?
		n := int(ln.iv.Int64())
		bs := make([]byte, n)
		ok := true
		for i := 0; i < n && ok; i++ {
			v := b.Rd(t, b.MulC(b.AddC(off, int64(i)), 8), 8)
			if v.op == "bv" {
				bs[i] = byte(v.iv.Int64())
			} else {
				ok = false
			}
		}
		if ok {
			return b.StrLit(string(bs))
		}
	}
	if t.op == "put" || t.op == "copy" {
		if a, o := b.pieced(t, b.MulC(off, 8), b.MulC(b.Add(off, ln), 8)); a != nil {
			return b.MkStr(a, b.FDiv(o, 8), ln)
		}
	}
	return b.mk(&Term{op: "mkstr", sort: StrS, args: []*Term{t, off, ln}})
}

// pieced: the bits [from, to) of a tape that were all put there, one after the
// other, from consecutive bits of one other tape.
func (b *TB) pieced(t, from, to *Term) (*Term, *Term) {
	var src, at, end *Term
	switch t.op {
	case "put":
		v := t.args[2]
		if v.op != "rd" {
			return nil, nil
		}
		src, at, end = v.args[0], v.args[1], b.AddC(t.args[1], int64(v.sort.W))
	case "copy":
		src, at, end = t.args[2], b.MulC(t.args[3], 8), b.Add(t.args[1], b.MulC(t.args[4], 8))
	default:
		return nil, nil
	}
	if end != to {
		return nil, nil
	}
	start := t.args[1]
	if start != from {
		s2, a2 := b.pieced(t.args[0], from, start)
		if s2 != src || b.Add(a2, b.Sub(start, from)) != at {
			return nil, nil
		}
		at = a2
	}
	if !b.isMult(at, 8) {
		return nil, nil
	}
	return src, at
}

// BytesOf returns (tape, offset) for the bytes of a string.
func (b *TB) BytesOf(s *Term) (*Term, *Term) {
	if s.op == "mkstr" {
		return s.args[0], s.args[1]
	}
	return b.mk(&Term{op: "bytesof", sort: TapeS, args: []*Term{s}}), b.Zero
}
func (b *TB) StrCat(x, y *Term) *Term {
	if x.op == "strlit" && x.name == "" {
		return y
	}
	if y.op == "strlit" && y.name == "" {
		return x
	}
	if x.op == "strlit" && y.op == "strlit" {
		return b.StrLit(x.name + y.name)
	}
	if x.op == "mkstr" && y.op == "mkstr" && x.args[0] == y.args[0] && b.Add(x.args[1], x.args[2]) == y.args[1] {
		// neighbours in one text
		return b.MkStr(x.args[0], x.args[1], b.Add(x.args[2], y.args[2]))
	}
	if x.op == "strcat" && x.args[1].op == "mkstr" && y.op == "mkstr" && x.args[1].args[0] == y.args[0] && b.Add(x.args[1].args[1], x.args[1].args[2]) == y.args[1] {
		return b.StrCat(x.args[0], b.StrCat(x.args[1], y))
	}
	if x.op == "strcat" && x.args[1].op == "strlit" && y.op == "strlit" {
		return b.StrCat(x.args[0], b.StrLit(x.args[1].name+y.name))
	}
	if y.op == "strcat" { // left-assoc
		return b.StrCat(b.StrCat(x, y.args[0]), y.args[1])
	}
	return b.mk(&Term{op: "strcat", sort: StrS, args: []*Term{x, y}})
}

// ---------- tapes ----------
// A tape is a total map from bit positions to bits.
//   tzero            all zero
//   put(T,p,v)       T with the bits of v at p..p+w-1 (most significant first)
//   copy(T,p,A,o,n)  T with n bytes of A from byte offset o at bit position p

func (b *TB) TZero() *Term { return b.mk(&Term{op: "tzero", sort: TapeS}) }
func (b *TB) Put(t, pos, v *Term) *Term {
	if t.op == "put" {
		w := t.args[2].sort.W
		d := b.Sub(pos, t.args[1])
		if d.isInt() && d.iv.Cmp(big.NewInt(int64(w))) == 0 && t.args[2].op == "bv" && v.op == "bv" && w+v.sort.W <= 1024 {
			return b.Put(t.args[0], t.args[1], b.Concat(t.args[2], v))
		}
		if d.isInt() && d.iv.Sign() == 0 && v.sort.W == w {
			return b.Put(t.args[0], pos, v)
		}
		// overwrite inside an earlier segment at constant distance: sort out by splitting
		if d.isInt() && d.iv.Sign() < 0 {
			inner := b.Put(t.args[0], pos, v)
			// only commute when disjoint
			if new(big.Int).Add(d.iv, big.NewInt(int64(v.sort.W))).Sign() <= 0 {
				return b.mk(&Term{op: "put", sort: TapeS, args: []*Term{inner, t.args[1], t.args[2]}})
			}
		}
	}
	return b.mk(&Term{op: "put", sort: TapeS, args: []*Term{t, pos, v}})
}
func (b *TB) Copy(t, pos, a, off, n *Term) *Term {
	if n.isInt() && n.iv.Sign() == 0 {
		return t
	}
	a, off = b.Sub8(a, off, n)
	if n.isInt() && n.iv.IsInt64() && n.iv.Int64() <= 16 {
		// short constant-length copies become puts
		w := int(n.iv.Int64()) * 8
		v := b.Rd(a, b.MulC(off, 8), w)
		return b.Put(t, pos, v)
	}
	return b.mk(&Term{op: "copy", sort: TapeS, args: []*Term{t, pos, a, off, n}})
}

func (b *TB) dec(t *Term) int {
	if t == b.True {
		return 1
	}
	if t == b.False {
		return -1
	}
	if b.decide != nil {
		return b.decide(t)
	}
	return 0
}

// Rd reads n bits at bit position pos.
func (b *TB) Rd(t, pos *Term, n int) *Term {
	for {
		switch t.op {
		case "tzero":
			return b.BVc(n, 0)
		case "bytesof":
			if s := t.args[0]; s.op == "strlit" && pos.isInt() && n%8 == 0 {
				p := pos.iv.Int64()
				if p%8 == 0 && p/8+int64(n/8) <= int64(len(s.name)) {
					v := new(big.Int).SetBytes([]byte(s.name[p/8 : p/8+int64(n/8)]))
					return b.BVbig(n, v)
				}
			}
		case "put":
			w := t.args[2].sort.W
			d := b.Sub(pos, t.args[1])
			if d.isInt() {
				dv := d.iv.Int64()
				if dv >= int64(w) || dv+int64(n) <= 0 {
					t = t.args[0]
					continue
				}
				if dv >= 0 && dv+int64(n) <= int64(w) {
					hi := w - 1 - int(dv)
					return b.Extract(hi, hi-n+1, t.args[2])
				}
				// partial overlap: split
				if dv < 0 {
					k := int(-dv)
					return b.Concat(b.Rd(t, pos, k), b.Rd(t, b.AddC(pos, int64(k)), n-k))
				}
				k := w - int(dv)
				return b.Concat(b.Rd(t, pos, k), b.Rd(t, b.AddC(pos, int64(k)), n-k))
			}
			// symbolic distance: ask the path
			if b.dec(b.Le(b.AddC(pos, int64(n)), t.args[1])) == 1 || b.dec(b.Le(b.AddC(t.args[1], int64(w)), pos)) == 1 {
				t = t.args[0]
				continue
			}
			if n <= w && b.dec(b.And(b.Le(t.args[1], pos), b.Le(b.AddC(pos, int64(n)), b.AddC(t.args[1], int64(w))))) == 1 {
				// inside: where exactly, the path may know
				for c := int64(0); c <= int64(w-n); c++ {
					if b.dec(b.Eq(d, b.Int(c))) == 1 {
						hi := w - 1 - int(c)
						return b.Extract(hi, hi-n+1, t.args[2])
					}
				}
			}
		case "copy":
			p, a, off, ln := t.args[1], t.args[2], t.args[3], t.args[4]
			if b.dec(b.Le(b.AddC(pos, int64(n)), p)) == 1 {
				t = t.args[0]
				continue
			}
			end := b.Add(p, b.MulC(ln, 8))
			if b.dec(b.Le(end, pos)) == 1 {
				t = t.args[0]
				continue
			}
			if b.dec(b.And(b.Le(p, pos), b.Le(b.AddC(pos, int64(n)), end))) == 1 {
				pos = b.Add(b.MulC(off, 8), b.Sub(pos, p))
				t = a
				continue
			}
		case "sym":
			if p, ok := b.prefix[t]; ok && b.dec(b.Le(b.AddC(pos, int64(n)), p.end)) == 1 {
				t = p.t
				continue
			}
		}
		break
	}
	return b.mk(&Term{op: "rd", sort: BV(n), args: []*Term{t, pos}, n: n})
}

// RdL reads n bits at pos; bits at or beyond lim read as zero.
func (b *TB) RdL(t, pos, lim *Term, n int) *Term {
	d := b.Sub(lim, pos)
	if d.isInt() {
		if d.iv.Cmp(big.NewInt(int64(n))) >= 0 {
			return b.Rd(t, pos, n)
		}
		if d.iv.Sign() <= 0 {
			return b.BVc(n, 0)
		}
		k := int(d.iv.Int64())
		return b.Concat(b.Rd(t, pos, k), b.BVc(n-k, 0))
	}
	if t.op == "sym" {
		// one form per location: keep the one met first
		if o := b.peek(&Term{op: "rdl", sort: BV(n), args: []*Term{t, pos, lim}, n: n}); o != nil {
			return o
		}
	}
	if b.dec(b.Le(b.AddC(pos, int64(n)), lim)) == 1 {
		return b.Rd(t, pos, n)
	}
	return b.mk(&Term{op: "rdl", sort: BV(n), args: []*Term{t, pos, lim}, n: n})
}

// Sub8 resolves the byte range [off, off+n) of tape t to the tape it was
// copied from, when it exactly lies in one copied segment.
func (b *TB) Sub8(t, off, n *Term) (*Term, *Term) {
	pos := b.MulC(off, 8)
	for {
		switch t.op {
		case "put":
			w := t.args[2].sort.W
			if b.dec(b.Le(b.Add(pos, b.MulC(n, 8)), t.args[1])) == 1 || b.dec(b.Le(b.AddC(t.args[1], int64(w)), pos)) == 1 {
				t = t.args[0]
				continue
			}
		case "copy":
			p, a, o, ln := t.args[1], t.args[2], t.args[3], t.args[4]
			end := b.Add(pos, b.MulC(n, 8))
			cend := b.Add(p, b.MulC(ln, 8))
			if b.dec(b.Le(end, p)) == 1 || b.dec(b.Le(cend, pos)) == 1 {
				t = t.args[0]
				continue
			}
			if b.isMult(b.Sub(pos, p), 8) && b.dec(b.And(b.Le(p, pos), b.Le(end, cend))) == 1 {
				pos = b.Add(b.MulC(o, 8), b.Sub(pos, p))
				t = a
				continue
			}
		case "sym":
			if p, ok := b.prefix[t]; ok && b.dec(b.Le(b.Add(pos, b.MulC(n, 8)), p.end)) == 1 {
				t = p.t
				continue
			}
		}
		break
	}
	return t, b.FDiv(pos, 8)
}

// ---------- substitution ----------

func (b *TB) Subst(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = b.Subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = b.rebuild(t, na)
	}
	memo[t.id] = r
	return r
}
func (b *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "lin":
		l := &lin{c: new(big.Int).Set(t.iv), coefs: map[int]*big.Int{}, atoms: map[int]*Term{}}
		for i := range a {
			b.addLin(l, a[i], t.coefs[i])
		}
		return b.fromLin(l)
	case "mul":
		return b.Mul(a[0], a[1])
	case "div":
		if a[1].isInt() && a[1].iv.Sign() > 0 {
			return b.FDivBig(a[0], a[1].iv)
		}
	case "mod":
		if a[1].isInt() && a[1].iv.Sign() > 0 {
			return b.FMod(a[0], a[1].iv)
		}
	case "not":
		return b.Not(a[0])
	case "and":
		return b.And(a...)
	case "or":
		return b.Or(a...)
	case "ite":
		return b.Ite(a[0], a[1], a[2])
	case "le":
		return b.ge0(a[0])
	case "eq":
		return b.Eq(a[0], a[1])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return b.BVOp(t.op, a[0], a[1])
	case "bvnot":
		return b.BVNot(a[0])
	case "bvult":
		return b.BVUlt(a[0], a[1])
	case "bvslt":
		return b.BVSlt(a[0], a[1])
	case "zext":
		return b.Zext(t.n, a[0])
	case "sext":
		return b.Sext(t.n, a[0])
	case "extract":
		return b.Extract(t.n, t.m, a[0])
	case "concat":
		return b.Concat(a[0], a[1])
	case "b2i":
		return b.B2I(a[0])
	case "i2b":
		return b.I2B(t.n, a[0])
	case "tbl":
		return b.Tbl(t.tbl, t.sort, a[0])
	case "constarr":
		return b.ConstArr(a[0])
	case "select":
		return b.Select(a[0], a[1])
	case "store":
		return b.Store(a[0], a[1], a[2])
	case "slen":
		return b.SLen(a[0])
	case "mkstr":
		return b.MkStr(a[0], a[1], a[2])
	case "bytesof":
		tp, off := b.BytesOf(a[0])
		if off != b.Zero {
			// shifted view
			return b.UF("shift8", TapeS, tp, off)
		}
		return tp
	case "strcat":
		return b.StrCat(a[0], a[1])
	case "put":
		return b.Put(a[0], a[1], a[2])
	case "copy":
		return b.Copy(a[0], a[1], a[2], a[3], a[4])
	case "rd":
		return b.Rd(a[0], a[1], t.n)
	case "rdl":
		return b.RdL(a[0], a[1], a[2], t.n)
	case "uf":
		return b.UF(t.name, t.sort, a...)
	}
	n := *t
	n.args = a
	n.id = 0
	return b.mk(&n)
}

// ---------- printing ----------

func (b *TB) Str(t *Term) string { return tstr(t, 0) }
func tstr(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "int":
		return t.iv.String()
	case "bv":
		return fmt.Sprintf("0x%s:%d", t.iv.Text(16), t.sort.W)
	case "sym":
		return t.name
	case "strlit":
		return fmt.Sprintf("%q", t.name)
	case "true", "false", "tzero":
		return t.op
	case "lin":
		var p []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				p = append(p, tstr(a, d+1))
			} else {
				p = append(p, t.coefs[i].String()+"*"+tstr(a, d+1))
			}
		}
		if t.iv.Sign() != 0 {
			p = append(p, t.iv.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "le":
		return "0<=" + tstr(t.args[0], d+1)
	}
	nm := t.op
	if t.name != "" {
		nm = t.name
	}
	if t.op == "rd" || t.op == "rdl" || t.op == "zext" || t.op == "i2b" {
		nm = fmt.Sprintf("%s%d", nm, t.n)
	}
	if t.op == "extract" {
		nm = fmt.Sprintf("x[%d:%d]", t.n, t.m)
	}
	var p []string
	for _, a := range t.args {
		p = append(p, tstr(a, d+1))
	}
	return nm + "(" + strings.Join(p, ", ") + ")"
}

type unsup struct{ msg string }

func (u unsup) Error() string { return "unsupported: " + u.msg }
func unsupported(f string, a ...any) unsup {
	return unsup{fmt.Sprintf(f, a...)}
}
