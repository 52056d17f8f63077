package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the package under verification. Each model is an
// assumed contract; the ones used are reported as trusted.

type intrin func(x *Exec, st *State, a []Val, in ssa.Instruction, depth int) []Outcome

const otherErr = 99 // code of every error that is not a sentinel

func (x *Exec) errOther() ErrV { return ErrV{x.tb.Int(otherErr)} }
func (x *Exec) errNil() ErrV   { return ErrV{x.tb.Zero} }

func (x *Exec) sentinel(name string) *Term {
	for g, id := range x.globals {
		if g.Name() == name && g.Pkg == x.P.iobit {
			if e, ok := x.cur.heap[id].v.(ErrV); ok {
				return e.code
			}
		}
	}
	panic(unsupported("sentinel %s", name))
}

func (x *Exec) fork(st *State, c *Term, yes, no func(*State) []Outcome) []Outcome {
	switch x.decide(st, c) {
	case 1:
		return yes(st)
	case -1:
		return no(st)
	}
	s2 := st.clone()
	st.assume(c)
	s2.assume(x.tb.Not(c))
	x.cur = st
	o := yes(st)
	x.cur = s2
	return append(o, no(s2)...)
}

func (x *Exec) ptr(st *State, v Val, in ssa.Instruction) *Loc {
	p, ok := v.(PtrV)
	if !ok {
		panic(unsupported("receiver %T", v))
	}
	if !x.nonNil(st, p, in) {
		return nil
	}
	return p.loc
}

// ----- Reader -----

type rdS struct {
	loc *Loc
	src SliceV
	pos *Term
}

func (x *Exec) rdGet(st *State, v Val, in ssa.Instruction) (r rdS, ok bool) {
	l := x.ptr(st, v, in)
	if l == nil {
		return r, false
	}
	s := x.load(st, l).(StructV)
	return rdS{l, s.fs[0].(SliceV), s.fs[1].(*Term)}, true
}
func (x *Exec) rdSetPos(st *State, r rdS, pos *Term) {
	l := r.loc.add(Step{k: sField, n: 1})
	x.set(st, l, pos)
}
func (x *Exec) rdBits(st *State, r rdS, n int) *Term {
	tb := x.tb
	if n == 0 {
		panic("rdBits 0")
	}
	if r.src.loc == nil {
		return tb.BVc(n, 0)
	}
	t, off := x.sliceTape(st, r.src)
	return tb.RdL(t, tb.Add(tb.MulC(off, 8), r.pos), tb.MulC(tb.Add(off, r.src.ln), 8), n)
}

// readN reads a possibly symbolic number of bits, zero-extended to w.
func (x *Exec) readN(st *State, r rdS, n *Term, max, w int, in ssa.Instruction) []Outcome {
	tb := x.tb
	if n.isInt() {
		k := int(n.iv.Int64())
		if k < 0 || k > max {
			// in range for the library, but not a read of k bits
			x.rdSetPos(st, r, tb.Add(r.pos, n))
			t, off := x.sliceTape(st, r.src)
			return one(st, tb.UF(fmt.Sprintf("rdwild%d", w), BV(w), t, off, r.src.ln, r.pos, n))
		}
		x.rdSetPos(st, r, tb.Add(r.pos, n))
		if k == 0 {
			return one(st, x.toW(tb.BVc(w, 0), w))
		}
		return one(st, x.toW(x.rdBits(st, r, k), w))
	}
	t, off := x.sliceTape(st, r.src)
	p := r.pos
	lim := tb.MulC(tb.Add(off, r.src.ln), 8)
	x.rdSetPos(st, r, tb.Add(r.pos, n))
	if r.src.loc == nil {
		return one(st, tb.BVc(w, 0))
	}
	at := tb.Add(tb.MulC(off, 8), p)
	if x.decide(st, tb.Le(tb.Add(at, n), lim)) == 1 {
		// independent of the limit
		lim = tb.Add(at, n)
	}
	if x.decide(st, tb.Eq(n, tb.Int(64))) == 1 && max == 64 {
		return one(st, tb.RdL(t, at, lim, 64))
	}
	return one(st, tb.UF(fmt.Sprintf("rdvar%d", w), BV(w), t, at, lim, n))
}
func (x *Exec) toW(t *Term, w int) *Term {
	if t.sort.W == w {
		return t
	}
	if t.sort.W > w {
		return x.tb.Extract(w-1, 0, t)
	}
	return x.tb.Zext(w, t)
}

// intOf turns an integer value of any representation into an Int term.
func (x *Exec) intOf(v Val) *Term {
	t := v.(*Term)
	if t.sort.K == SBV {
		return x.tb.B2I(t)
	}
	return t
}

func (x *Exec) rdSub(r rdS, from, n *Term) SliceV {
	tb := x.tb
	if r.src.loc == nil {
		return SliceV{tb.False, nil, tb.Zero, tb.Zero, tb.Zero}
	}
	return SliceV{tb.False, r.src.loc, tb.Add(r.src.off, from), n, tb.Sub(r.src.ln, from)}
}

func rdFixed(n, w int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil
		}
		return x.readN(st, r, x.tb.Int(int64(n)), 64, w, in)
	}
}
func rdVar(max, w int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil
		}
		return x.readN(st, r, x.intOf(a[1]), max, w, in)
	}
}

func (x *Exec) leftBytes(st *State, r rdS, k func(st *State, s SliceV) []Outcome) []Outcome {
	tb := x.tb
	skip := tb.FDiv(r.pos, 8)
	return x.fork(st, tb.Le(r.src.ln, skip), func(st *State) []Outcome {
		return k(st, SliceV{tb.False, r.src.loc, r.src.off, tb.Zero, r.src.ln})
	}, func(st *State) []Outcome {
		return k(st, x.rdSub(r, skip, tb.Sub(r.src.ln, skip)))
	})
}

func rdBytes(str bool) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		tb := x.tb
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil
		}
		n := a[1].(*Term)
		x.prove(st, tb.ge0(n), "slice", x.where(in))
		fin := func(st *State, s SliceV, n *Term) []Outcome {
			x.rdSetPos(st, r, tb.Add(r.pos, tb.MulC(n, 8)))
			s.ln = n
			if str {
				if s.loc == nil {
					return one(st, tb.StrLit(""))
				}
				t, off := x.sliceTape(st, s)
				return one(st, tb.MkStr(t, off, n))
			}
			return one(st, s)
		}
		return x.leftBytes(st, r, func(st *State, s SliceV) []Outcome {
			return x.fork(st, tb.Le(n, s.ln), func(st *State) []Outcome { return fin(st, s, n) },
				func(st *State) []Outcome { return fin(st, s, s.ln) })
		})
	}
}

// ----- Writer -----

type wrS struct {
	loc *Loc
	dst SliceV
	pos *Term
	t   *Term
}

func (x *Exec) wrGet(st *State, v Val, in ssa.Instruction) (w wrS, ok bool) {
	l := x.ptr(st, v, in)
	if l == nil {
		return w, false
	}
	s := x.load(st, l).(StructV)
	return wrS{l, s.fs[0].(SliceV), s.fs[1].(*Term), s.fs[2].(TapeV).t}, true
}

// wrSet stores the writer; the destination is up to date only when synced.
func (x *Exec) wrSet(st *State, w wrS, synced bool) {
	x.set(st, w.loc, StructV{[]Val{w.dst, w.pos, TapeV{w.t}, x.tb.Bool(synced)}})
	if w.dst.loc == nil {
		return
	}
	if synced {
		x.set(st, w.dst.loc, TapeV{w.t})
		return
	}
	if c, ok := x.get(st, w.dst.loc).(TapeV); ok && c.t.op == "uf" && c.t.name == "unflushed" {
		return
	}
	// bytes written since the last flush may or may not have reached the buffer
	x.set(st, w.dst.loc, TapeV{x.tb.UF("unflushed", TapeS, w.t)})
}
func (x *Exec) wrPut(st *State, w wrS, n int, v *Term) []Outcome {
	if n > 0 {
		w.t = x.tb.Put(w.t, w.pos, x.tb.Extract(n-1, 0, v))
		w.pos = x.tb.AddC(w.pos, int64(n))
	}
	x.wrSet(st, w, false)
	return one(st)
}
func wrVar(w, max int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		wr, ok := x.wrGet(st, a[0], in)
		if !ok {
			return nil
		}
		n := x.intOf(a[1])
		if !n.isInt() {
			panic(unsupported("write of a symbolic number of bits"))
		}
		k := int(n.iv.Int64())
		if k < 0 || k > max {
			panic(unsupported("write of %d bits", k))
		}
		v := a[2].(*Term)
		if v.sort.K == SInt {
			v = x.tb.I2B(64, v)
		}
		if v.sort.W < k {
			v = x.tb.Zext(64, v)
		}
		return x.wrPut(st, wr, k, v)
	}
}
func wrFixed(n int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		wr, ok := x.wrGet(st, a[0], in)
		if !ok {
			return nil
		}
		v := a[1].(*Term)
		if v.sort.K == SBool {
			v = x.tb.Ite(v, x.tb.BVc(1, 1), x.tb.BVc(1, 0))
		}
		if v.sort.K == SInt {
			v = x.tb.I2B(n, v)
		}
		return x.wrPut(st, wr, n, v)
	}
}
func (x *Exec) wrFlush(st *State, w wrS, good, bad func(st *State, e ErrV) []Outcome) []Outcome {
	tb := x.tb
	idx := tb.FDiv(w.pos, 8)
	fits := tb.Le(w.pos, tb.MulC(w.dst.ln, 8))
	okc := tb.And(tb.Eq(tb.Sub(w.pos, tb.MulC(idx, 8)), tb.Zero), fits)
	return x.fork(st, okc, func(st *State) []Outcome {
		x.wrSet(st, w, true)
		return good(st, x.errNil())
	}, func(st *State) []Outcome {
		over := tb.Or(tb.Not(fits), tb.Lt(w.dst.ln, tb.Add(idx, tb.Sub(w.pos, tb.MulC(idx, 8)))))
		return bad(st, ErrV{tb.Ite(over, x.sentinel("ErrOverflow"), x.sentinel("ErrUnderflow"))})
	})
}

// ----- helpers for pure externals -----

func (x *Exec) strOf(st *State, v Val) *Term {
	switch s := v.(type) {
	case *Term:
		return s
	case SliceV:
		if s.loc == nil {
			return x.tb.StrLit("")
		}
		t, off := x.sliceTape(st, s)
		return x.tb.MkStr(t, off, s.ln)
	}
	panic(unsupported("string of %T", v))
}
func (x *Exec) bytesOfStr(st *State, s *Term) SliceV {
	return x.convert(st, s, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), nil).(SliceV)
}

// encInto stores a text at the start of dst, which must have room.
func (x *Exec) encInto(st *State, dst SliceV, s *Term, in ssa.Instruction) *Term {
	tb := x.tb
	n := tb.SLen(s)
	x.prove(st, tb.Le(n, dst.ln), "index", x.where(in))
	if dst.loc == nil {
		return n
	}
	c, ok := x.get(st, dst.loc).(TapeV)
	if !ok {
		panic(unsupported("encoding into %T", x.get(st, dst.loc)))
	}
	tp, off := tb.BytesOf(s)
	x.set(st, dst.loc, TapeV{tb.Copy(c.t, tb.MulC(dst.off, 8), tp, off, n)})
	return n
}

// appendStr is append(dst, s...).
func (x *Exec) appendStr(st *State, dst SliceV, s *Term) []Outcome {
	t, o := x.tb.BytesOf(s)
	return x.appendBytes(st, dst, t, o, x.tb.SLen(s), types.NewSlice(types.Typ[types.Uint8]))
}

// codec: enc/dec pairs over strings; dec(enc(s)) = s
func (x *Exec) enc(name string, s *Term) *Term {
	return x.tb.UF(name+".enc", StrS, s)
}
func (x *Exec) dec(name string, s *Term) (*Term, *Term) {
	tb := x.tb
	for s.op == "uf" && s.name == "trim" && s.args[0].op == "uf" && s.args[0].name == name+".enc" {
		s = s.args[0]
	}
	if s.op == "uf" && s.name == name+".enc" {
		return s.args[0], tb.True
	}
	if name == "hex" {
		// either case of the digits
		v := tb.StrLit("")
		ok := true
		for _, p := range pieces(s) {
			if p.op == "uf" && (p.name == "hex.enc" || p.name == "fmt:%X:bytes" || p.name == "fmt:%x:bytes") {
				v = tb.StrCat(v, p.args[0])
				continue
			}
			ok = false
		}
		if ok {
			return v, tb.True
		}
	}
	return tb.UF(name+".dec", StrS, s), tb.UF(name+".ok", BoolS, s)
}

// retErr forks on ok into (v, nil) and (w, err)
func (x *Exec) retErr(st *State, ok *Term, v, w func(*State) Val) []Outcome {
	return x.fork(st, ok, func(st *State) []Outcome { return one(st, v(st), x.errNil()) },
		func(st *State) []Outcome { return one(st, w(st), x.errOther()) })
}

// uf: uninterpreted total function of the flattened arguments
func (x *Exec) ufOf(st *State, name string, res types.Type, args ...*Term) Val {
	v := x.build(res, name, func(n string, s *Sort) *Term { return x.tb.UF(n, s, args...) })
	l := x.alloc(st, res, v, "uf")
	return x.load(st, l)
}

func fullName(fn *ssa.Function) string {
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.RelString(nil)
}

var intrinsics map[string]intrin

func init() {
	rd := "(*" + iobitPath + ".Reader)."
	wr := "(*" + iobitPath + ".Writer)."
	m := map[string]intrin{
		iobitPath + ".NewReader": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, StructV{[]Val{a[0], x.tb.Zero}})
		},
		rd + "Bit": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			v := x.rdBits(st, r, 1)
			x.rdSetPos(st, r, x.tb.AddC(r.pos, 1))
			return one(st, x.tb.Eq(v, x.tb.BVc(1, 1)))
		},
		rd + "Byte": rdFixed(8, 8), rd + "Be16": rdFixed(16, 16), rd + "Be32": rdFixed(32, 32), rd + "Be64": rdFixed(64, 64),
		rd + "Uint8": rdVar(8, 8), rd + "Uint16": rdVar(16, 16), rd + "Uint32": rdVar(32, 32), rd + "Uint64": rdVar(64, 64),
		rd + "Bytes": rdBytes(false), rd + "String": rdBytes(true),
		rd + "Peek": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			l := x.alloc(st, in.(*ssa.Call).Type().(*types.Pointer).Elem(), StructV{[]Val{r.src, r.pos}}, "peek")
			return one(st, PtrV{x.tb.False, l})
		},
		rd + "Skip": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			n := x.intOf(a[1])
			x.prove(st, x.tb.And(x.tb.ge0(n), x.tb.Lt(n, x.tb.BigInt(pow2(63)))), "skip", x.where(in))
			x.rdSetPos(st, r, x.tb.Add(r.pos, n))
			return one(st)
		},
		rd + "At": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			return one(st, r.pos)
		},
		rd + "Reset": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			x.rdSetPos(st, r, x.tb.Zero)
			return one(st)
		},
		rd + "LeftBits": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			tb := x.tb
			left := tb.Sub(tb.MulC(r.src.ln, 8), r.pos)
			return x.fork(st, tb.ge0(left), func(st *State) []Outcome { return one(st, left) }, func(st *State) []Outcome { return one(st, tb.Zero) })
		},
		rd + "LeftBytes": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			return x.leftBytes(st, r, func(st *State, s SliceV) []Outcome { return one(st, s) })
		},
		rd + "Error": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil
			}
			return x.fork(st, x.tb.Lt(x.tb.MulC(r.src.ln, 8), r.pos), func(st *State) []Outcome { return one(st, ErrV{x.sentinel("ErrOverflow")}) },
				func(st *State) []Outcome { return one(st, x.errNil()) })
		},
		iobitPath + ".NewWriter": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			s := a[0].(SliceV)
			if s.loc == nil {
				return one(st, StructV{[]Val{s, x.tb.Zero, TapeV{x.tb.TZero()}, x.tb.True}})
			}
			if s.off != x.tb.Zero {
				panic(unsupported("writer over a shifted slice"))
			}
			c, ok := x.get(st, s.loc).(TapeV)
			if !ok {
				panic(unsupported("writer over %T", x.get(st, s.loc)))
			}
			return one(st, StructV{[]Val{s, x.tb.Zero, c, x.tb.True}})
		},
		wr + "PutUint32": wrVar(32, 32), wr + "PutUint64": wrVar(64, 64), wr + "PutUint16": wrVar(16, 16), wr + "PutUint8": wrVar(8, 8),
		wr + "PutBit": wrFixed(1), wr + "PutByte": wrFixed(8), wr + "PutBe16": wrFixed(16), wr + "PutBe32": wrFixed(32), wr + "PutBe64": wrFixed(64),
		wr + "Flush": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			w, ok := x.wrGet(st, a[0], in)
			if !ok {
				return nil
			}
			f := func(st *State, e ErrV) []Outcome { return one(st, e) }
			return x.wrFlush(st, w, f, f)
		},
		wr + "Write": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			tb := x.tb
			w, ok := x.wrGet(st, a[0], in)
			if !ok {
				return nil
			}
			p := a[1].(SliceV)
			if unusedResults(in) {
				// Past the end of the destination nothing is stored and every later
				// Flush reports it, exactly as for the Put functions; so only
				// alignment matters here.
				al := tb.Eq(tb.Sub(w.pos, tb.MulC(tb.FDiv(w.pos, 8), 8)), tb.Zero)
				return x.fork(st, al, func(st *State) []Outcome {
					if p.loc != nil {
						pt, po := x.sliceTape(st, p)
						w.t = tb.Copy(w.t, w.pos, pt, po, p.ln)
					}
					w.pos = tb.Add(w.pos, tb.MulC(p.ln, 8))
					x.wrSet(st, w, x.implied(st, tb.Le(w.pos, tb.MulC(w.dst.ln, 8))))
					return one(st, p.ln, x.errNil())
				}, func(st *State) []Outcome { return one(st, tb.Zero, ErrV{x.sentinel("ErrUnderflow")}) })
			}
			return x.wrFlush(st, w, func(st *State, e ErrV) []Outcome {
				fits := tb.Le(tb.Add(w.pos, tb.MulC(p.ln, 8)), tb.MulC(w.dst.ln, 8))
				w2 := w
				return x.fork(st, fits, func(st *State) []Outcome {
					if p.loc != nil {
						pt, po := x.sliceTape(st, p)
						w2.t = tb.Copy(w.t, w.pos, pt, po, p.ln)
					}
					w2.pos = tb.Add(w.pos, tb.MulC(p.ln, 8))
					x.wrSet(st, w2, true)
					return one(st, p.ln, x.errNil())
				}, func(st *State) []Outcome {
					w2.pos = tb.Add(w.pos, tb.MulC(p.ln, 8))
					w2.t = tb.Sym("overflowed", TapeS)
					x.wrSet(st, w2, false)
					return one(st, tb.Sub(w.dst.ln, tb.FDiv(w.pos, 8)), ErrV{x.sentinel("ErrOverflow")})
				})
			}, func(st *State, e ErrV) []Outcome { return one(st, tb.Zero, e) })
		},
		wr + "Index": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			w, ok := x.wrGet(st, a[0], in)
			if !ok {
				return nil
			}
			return one(st, w.pos)
		},
		"errors.New": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if x.initing {
				x.ncode++
				return one(st, ErrV{x.tb.Int(x.ncode)})
			}
			return one(st, x.errOther())
		},
		"errors.Is": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			e, ok1 := a[0].(ErrV)
			t, ok2 := a[1].(ErrV)
			if !ok1 || !ok2 {
				panic(unsupported("errors.Is"))
			}
			if !t.code.isInt() || t.code.iv.Int64() <= otherErr {
				panic(unsupported("errors.Is against a non-sentinel"))
			}
			return one(st, x.tb.Eq(e.code, t.code))
		},
		"fmt.Errorf": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			f, ok := a[0].(*Term)
			if !ok || f.op != "strlit" {
				panic(unsupported("Errorf with a computed format"))
			}
			es := x.varargs(st, a[1])
			i := 0
			for j := 0; j+1 < len(f.name); j++ {
				if f.name[j] != '%' {
					continue
				}
				j++
				for j < len(f.name) && strings.ContainsRune("+-# 0123456789.", rune(f.name[j])) {
					j++
				}
				if j >= len(f.name) || f.name[j] == '%' {
					continue
				}
				if f.name[j] == 'w' {
					if i < len(es) {
						if iv, ok := es[i].(IfaceV); ok {
							if e, ok := iv.v.(ErrV); ok {
								return x.fork(st, x.tb.Eq(e.code, x.tb.Zero), func(st *State) []Outcome { return one(st, x.errOther()) }, func(st *State) []Outcome { return one(st, e) })
							}
						}
						if e, ok := es[i].(ErrV); ok {
							return x.fork(st, x.tb.Eq(e.code, x.tb.Zero), func(st *State) []Outcome { return one(st, x.errOther()) }, func(st *State) []Outcome { return one(st, e) })
						}
					}
					panic(unsupported("Errorf %%w argument"))
				}
				i++
			}
			return one(st, x.errOther())
		},
		"fmt.Sprintf": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.sprintf(st, a, in)
		},
		"(*log.Logger).Printf": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome { return one(st) },
		"log.Default": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, OpaqueV{"logger"})
		},
		"time.Unix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if a[1].(*Term) != x.tb.Zero {
				panic(unsupported("time.Unix with nanoseconds"))
			}
			return one(st, a[0])
		},
		"(time.Time).Add": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			tb := x.tb
			t, n := a[0].(*Term), a[1].(*Term)
			q := tb.FDiv(n, 1000000000)
			if !x.implied(st, tb.Eq(tb.MulC(q, 1000000000), n)) {
				panic(unsupported("a time that is not a whole second"))
			}
			return one(st, tb.Add(t, q))
		},
		"(time.Time).Sub": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			tb := x.tb
			n := tb.Sub(a[0].(*Term), a[1].(*Term))
			lim := tb.Int(9223372036)
			if !x.implied(st, tb.And(tb.Le(tb.Sub(tb.Zero, lim), n), tb.Le(n, lim))) {
				panic(unsupported("a difference beyond 292 years"))
			}
			return one(st, tb.MulC(n, 1000000000))
		},
		"time.Date": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			var n [7]int
			for i := range n {
				t, ok := a[i].(*Term)
				if !ok || !t.isInt() {
					panic(unsupported("a computed date"))
				}
				n[i] = int(t.iv.Int64())
			}
			if n[6] != 0 || !strings.HasSuffix(opq(a[7]), "time.UTC") {
				panic(unsupported("a date in %s", opq(a[7])))
			}
			return one(st, x.tb.Int(time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], 0, time.UTC).Unix()))
		},
		"(time.Time).Equal": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.Eq(a[0].(*Term), a[1].(*Term)))
		},
		"(time.Time).Before": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.Lt(a[0].(*Term), a[1].(*Term)))
		},
		"(time.Time).After": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.Lt(a[1].(*Term), a[0].(*Term)))
		},
		"(time.Time).Unix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome { return one(st, a[0]) },
		"(time.Time).UTC":  func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome { return one(st, a[0]) },
		"(time.Time).Format": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("timefmt", StrS, a[0].(*Term), a[1].(*Term)))
		},
		"(encoding/binary.bigEndian).PutUint32": bePut(32),
		"(encoding/binary.bigEndian).PutUint16": bePut(16),
		"(encoding/binary.bigEndian).PutUint64": bePut(64),
		"(encoding/binary.bigEndian).Uint16":    beGet(16),
		"(encoding/binary.bigEndian).Uint32":    beGet(32),
		"(encoding/binary.bigEndian).Uint64":    beGet(64),
		"(*encoding/base64.Encoding).EncodeToString": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.enc("b64"+opq(a[0]), x.strOf(st, a[1])))
		},
		"(*encoding/base64.Encoding).DecodeString": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.codecDecode(st, "b64"+opq(a[0]), a[1].(*Term))
		},
		"encoding/hex.EncodeToString": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.enc("hex", x.strOf(st, a[0])))
		},
		"encoding/hex.DecodeString": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.codecDecode(st, "hex", a[0].(*Term))
		},
		"(*golang.org/x/text/encoding/charmap.Charmap).NewDecoder": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, OpaqueV{opq(a[0])})
		},
		"(*golang.org/x/text/encoding/charmap.Charmap).NewEncoder": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, OpaqueV{opq(a[0])})
		},
		"(*golang.org/x/text/encoding.Decoder).Bytes": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if !strings.Contains(opq(a[0]), "ISO8859_1") {
				panic(unsupported("character map %s", opq(a[0])))
			}
			s := x.strOf(st, a[1])
			// every byte is a Latin-1 character: decoding never fails
			return one(st, x.bytesOfStr(st, x.enc("latin1", s)), x.errNil())
		},
		"(*golang.org/x/text/encoding.Encoder).Bytes": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if !strings.Contains(opq(a[0]), "ISO8859_1") {
				panic(unsupported("character map %s", opq(a[0])))
			}
			return x.codecDecode(st, "latin1", x.strOf(st, a[1]))
		},
		"strconv.FormatUint": fmtInt(false),
		"strconv.FormatInt":  fmtInt(true),
		"strconv.Itoa": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("fmtd", StrS, a[0].(*Term)))
		},
		"strconv.ParseUint": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			tb := x.tb
			s := a[0].(*Term)
			if a[1].(*Term) != tb.Int(10) || a[2].(*Term) != tb.Int(64) {
				panic(unsupported("ParseUint base"))
			}
			for s.op == "uf" && s.name == "trim" && s.args[0].op == "uf" && s.args[0].name == "fmtd" {
				s = s.args[0]
			}
			if s.op == "uf" && s.name == "fmtd" {
				v := s.args[0]
				if v.sort.K == SInt {
					v = tb.I2B(64, v)
				}
				return one(st, tb.Zext64(v), x.errNil())
			}
			srt := x.scalarSort(types.Typ[types.Uint64])
			return x.retErr(st, tb.UF("parseu.ok", BoolS, s), func(st *State) Val { return tb.UF("parseu", srt, s) }, func(st *State) Val { return tb.UF("parseu.bad", srt, s) })
		},
		"strconv.Atoi": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			s := a[0].(*Term)
			if s.op == "uf" && s.name == "fmtd" && s.args[0].sort.K == SInt {
				v := s.args[0]
				if x.decide(st, x.tb.And(x.tb.Le(x.tb.MulC(x.tb.BigInt(pow2(63)), -1), v), x.tb.Lt(v, x.tb.BigInt(pow2(63))))) == 1 {
					return one(st, v, x.errNil())
				}
			}
			if s.op == "strlit" {
				if n, err := strconv.Atoi(s.name); err == nil {
					return one(st, x.tb.Int(int64(n)), x.errNil())
				}
			}
			return x.retErr(st, x.tb.UF("atoi.ok", BoolS, s), func(st *State) Val { return x.tb.UF("atoi", IntS, s) }, func(st *State) Val { return x.tb.UF("atoi.bad", IntS, s) })
		},
		"strings.TrimSpace": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			s := a[0].(*Term)
			if s.op == "uf" {
				switch s.name {
				case "trim", "fmtd", "hex.enc":
					return one(st, s)
				}
				if strings.HasPrefix(s.name, "b64") && strings.HasSuffix(s.name, ".enc") {
					return one(st, s)
				}
			}
			if s.op == "strlit" {
				return one(st, x.tb.StrLit(strings.TrimSpace(s.name)))
			}
			if x.trimmed(st, s) {
				return one(st, s)
			}
			return one(st, x.tb.UF("trim", StrS, s))
		},
		"strings.TrimPrefix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.cutPrefix(st, a[0].(*Term), a[1].(*Term), func(st *State, s, ok *Term) []Outcome { return one(st, s) })
		},
		"strings.CutPrefix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.cutPrefix(st, a[0].(*Term), a[1].(*Term), func(st *State, s, ok *Term) []Outcome { return one(st, s, ok) })
		},
		"strings.HasPrefix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.hasPrefix(a[0].(*Term), a[1].(*Term)))
		},
		"strings.ReplaceAll": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if s, ok := x.replacePieces(st, a[0].(*Term), a[1].(*Term), a[2].(*Term)); ok {
				return one(st, s)
			}
			return one(st, x.tb.UF("replaceall", StrS, a[0].(*Term), a[1].(*Term), a[2].(*Term)))
		},
		"strings.ToUpper": strFn1("toupper"), "strings.ToLower": strFn1("tolower"),
		"strings.FieldsFunc": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			sig, mask := x.predSig(st, a[1], d)
			if fs, ok := x.fields(st, a[0].(*Term), mask); ok {
				n := int64(len(fs))
				var es []Val
				for _, f := range fs {
					es = append(es, f)
				}
				l := x.alloc(st, types.NewArray(types.Typ[types.String], n), ArrayV{es}, "fields")
				return one(st, SliceV{x.tb.False, l, x.tb.Zero, x.tb.Int(n), x.tb.Int(n)})
			}
			return one(st, x.ufOf(st, "fields:"+sig, types.NewSlice(types.Typ[types.String]), a[0].(*Term)))
		},
		"bytes.Contains": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("contains", BoolS, x.strOf(st, a[0]), x.strOf(st, a[1])))
		},
		"strings.Contains": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("contains", BoolS, a[0].(*Term), a[1].(*Term)))
		},
		"strings.HasSuffix": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("hassuffix", BoolS, a[0].(*Term), a[1].(*Term)))
		},
		"strings.Repeat": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			n := a[1].(*Term)
			x.prove(st, x.tb.ge0(n), "panic", x.where(in))
			if !n.isInt() || n.iv.Int64() > 64 {
				panic(unsupported("Repeat of a computed count"))
			}
			r := x.tb.StrLit("")
			for i := int64(0); i < n.iv.Int64(); i++ {
				r = x.tb.StrCat(r, a[0].(*Term))
			}
			return one(st, r)
		},
		"strings.Join": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			r := x.tb.StrLit("")
			for i, e := range x.varargs(st, a[0]) {
				if i > 0 {
					r = x.tb.StrCat(r, a[1].(*Term))
				}
				r = x.tb.StrCat(r, e.(*Term))
			}
			return one(st, r)
		},
		"bytes.Equal": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.eqTerm(st, x.strOf(st, a[0]), x.strOf(st, a[1])))
		},
		"bytes.Clone": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			s := a[0].(SliceV)
			return x.fork(st, s.nl, func(st *State) []Outcome { return one(st, SliceV{x.tb.True, nil, x.tb.Zero, x.tb.Zero, x.tb.Zero}) },
				func(st *State) []Outcome { return one(st, x.bytesOfStr(st, x.strOf(st, s))) })
		},
		"encoding/hex.EncodedLen": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.wrap(st, x.tb.MulC(a[0].(*Term), 2), types.Typ[types.Int], in))
		},
		"encoding/hex.Encode": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.encInto(st, a[0].(SliceV), x.enc("hex", x.strOf(st, a[1])), in))
		},
		"encoding/hex.AppendEncode": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.appendStr(st, a[0].(SliceV), x.enc("hex", x.strOf(st, a[1])))
		},
		"(*encoding/base64.Encoding).AppendEncode": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return x.appendStr(st, a[1].(SliceV), x.enc("b64"+opq(a[0]), x.strOf(st, a[2])))
		},
		"(*encoding/base64.Encoding).EncodedLen": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			if !strings.HasSuffix(opq(a[0]), "base64.StdEncoding") {
				panic(unsupported("length in encoding %s", opq(a[0])))
			}
			return one(st, x.wrap(st, x.tb.MulC(x.tb.FDiv(x.tb.AddC(a[1].(*Term), 2), 3), 4), types.Typ[types.Int], in))
		},
		"(*encoding/base64.Encoding).Encode": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			x.encInto(st, a[1].(SliceV), x.enc("b64"+opq(a[0]), x.strOf(st, a[2])), in)
			return one(st)
		},
		"fmt.Fprintf": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			var outs []Outcome
			for _, o := range x.sprintf(st, a[1:], in) {
				outs = append(outs, x.emit(o.st, a[0], o.ret[0].(*Term), in)...)
			}
			return outs
		},
		"(*strings.Builder).Len": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			l := x.ptr(st, a[0], in)
			if l == nil {
				return nil
			}
			return one(st, x.tb.SLen(x.get(st, l.add(Step{k: sField, n: 0})).(*Term)))
		},
		"(*strings.Builder).Grow": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			x.prove(st, x.tb.ge0(a[1].(*Term)), "panic", x.where(in))
			return one(st)
		},
		"(*strings.Builder).WriteString": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			l := x.ptr(st, a[0], in)
			if l == nil {
				return nil
			}
			f := l.add(Step{k: sField, n: 0})
			s := a[1].(*Term)
			x.set(st, f, x.tb.StrCat(x.get(st, f).(*Term), s))
			return one(st, x.tb.SLen(s), x.errNil())
		},
		"(*strings.Builder).WriteByte": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			l := x.ptr(st, a[0], in)
			if l == nil {
				return nil
			}
			f := l.add(Step{k: sField, n: 0})
			c := a[1].(*Term)
			var s *Term
			if c.op == "bv" {
				s = x.tb.StrLit(string([]byte{byte(c.iv.Int64())}))
			} else {
				s = x.tb.MkStr(x.tb.Put(x.tb.TZero(), x.tb.Zero, c), x.tb.Zero, x.tb.Int(1))
			}
			x.set(st, f, x.tb.StrCat(x.get(st, f).(*Term), s))
			return one(st, x.errNil())
		},
		"(*strings.Builder).WriteRune": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			l := x.ptr(st, a[0], in)
			if l == nil {
				return nil
			}
			f := l.add(Step{k: sField, n: 0})
			c := a[1].(*Term)
			if c.op != "bv" && c.op != "int" {
				panic(unsupported("WriteRune of a symbolic rune"))
			}
			s := string(rune(c.iv.Int64()))
			x.set(st, f, x.tb.StrCat(x.get(st, f).(*Term), x.tb.StrLit(s)))
			return one(st, x.tb.Int(int64(len(s))), x.errNil())
		},
		"(*strings.Builder).String": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			l := x.ptr(st, a[0], in)
			if l == nil {
				return nil
			}
			return one(st, x.get(st, l.add(Step{k: sField, n: 0})))
		},
		"math.Ceil": func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
			return one(st, x.tb.UF("f:ceil", IdS, a[0].(*Term)))
		},
	}
	m["fmt.Sprint"] = func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		panic(unsupported("fmt.Sprint"))
	}
	intrinsics = m
}

// ----- texts put together from literals and formatted values -----

func pieces(s *Term) []*Term {
	if s.op == "strcat" {
		return append(pieces(s.args[0]), pieces(s.args[1])...)
	}
	return []*Term{s}
}

// alphabet: the only bytes a formatted value can contain.
func (x *Exec) alphabet(p *Term) (string, bool) {
	if p.op == "strlit" {
		return p.name, true
	}
	if p.op != "uf" {
		return "", false
	}
	switch p.name {
	case "fmtd":
		return "-0123456789", true
	case "hex.enc", "fmt:%x:bytes":
		return "0123456789abcdef", true
	case "fmt:%X:bytes":
		return "0123456789ABCDEF", true
	}
	return "", false
}

// nonEmpty: the value is formatted to at least one byte.
func (x *Exec) nonEmpty(st *State, p *Term) bool {
	switch {
	case p.op == "strlit":
		return p.name != ""
	case p.op == "uf" && p.name == "fmtd":
		return true
	case p.op == "uf" && len(p.args) == 1 && p.args[0].sort.K == SStr:
		return x.decide(st, x.tb.Lt(x.tb.Zero, x.tb.SLen(p.args[0]))) == 1
	}
	return false
}

func (x *Exec) trimmed(st *State, s *Term) bool {
	ps := pieces(s)
	if len(ps) < 2 {
		return false
	}
	for i, p := range []*Term{ps[0], ps[len(ps)-1]} {
		a, ok := x.alphabet(p)
		if !ok || !x.nonEmpty(st, p) {
			return false
		}
		if p.op == "strlit" {
			// the end that counts, in ASCII
			c := a[0]
			if i == 1 {
				c = a[len(a)-1]
			}
			if c <= ' ' || c >= 0x7f {
				return false
			}
		}
	}
	return true
}

// fields: strings.FieldsFunc of a text of known pieces, for separators that
// cannot occur in the formatted ones.
func (x *Exec) fields(st *State, s *Term, mask [256]bool) ([]*Term, bool) {
	tb := x.tb
	ps := pieces(s)
	if len(ps) < 2 {
		return nil, false
	}
	var out []*Term
	var cur *Term // nil: between fields
	full := false // cur has at least one byte
	for _, p := range ps {
		a, ok := x.alphabet(p)
		if !ok {
			return nil, false
		}
		if p.op == "strlit" {
			for i := 0; i < len(a); i++ {
				if a[i] >= 0x80 {
					return nil, false
				}
				if mask[a[i]] {
					if cur != nil && !full {
						return nil, false
					}
					if cur != nil {
						out = append(out, cur)
					}
					cur, full = nil, false
					continue
				}
				if cur == nil {
					cur = tb.StrLit("")
				}
				cur, full = tb.StrCat(cur, tb.StrLit(a[i:i+1])), true
			}
			continue
		}
		for i := 0; i < len(a); i++ {
			if mask[a[i]] {
				return nil, false
			}
		}
		if cur == nil {
			cur = tb.StrLit("")
		}
		cur = tb.StrCat(cur, p)
		full = full || x.nonEmpty(st, p)
	}
	if cur != nil && !full {
		return nil, false
	}
	if cur != nil {
		out = append(out, cur)
	}
	return out, true
}

// replacePieces: strings.ReplaceAll of one byte that only the literal pieces
// can contain.
func (x *Exec) replacePieces(st *State, s, old, new *Term) (*Term, bool) {
	tb := x.tb
	ps := pieces(s)
	if old.op != "strlit" || len(old.name) != 1 || new.op != "strlit" {
		return nil, false
	}
	res := tb.StrLit("")
	for _, p := range ps {
		a, ok := x.alphabet(p)
		if !ok {
			return nil, false
		}
		if p.op == "strlit" {
			p = tb.StrLit(strings.ReplaceAll(a, old.name, new.name))
		} else if strings.Contains(a, old.name) {
			return nil, false
		}
		res = tb.StrCat(res, p)
	}
	return res, true
}

func (b *TB) Zext64(t *Term) *Term {
	if t.sort.W == 64 {
		return t
	}
	return b.Zext(64, t)
}

func opq(v Val) string {
	if o, ok := v.(OpaqueV); ok {
		return ":" + o.name
	}
	return ":?"
}
func (x *Exec) codecDecode(st *State, name string, s *Term) []Outcome {
	v, ok := x.dec(name, s)
	return x.retErr(st, ok, func(st *State) Val { return x.bytesOfStr(st, v) },
		func(st *State) Val { return x.bytesOfStr(st, x.tb.UF(name+".bad", StrS, s)) })
}
func strFn1(n string) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		t := a[0].(*Term)
		if t.op == "uf" && (t.name == "hex.enc" || t.name == "fmt:%X:bytes") {
			// digits and the letters a to f
			switch n {
			case "toupper":
				return one(st, x.tb.UF("fmt:%X:bytes", StrS, t.args[0]))
			case "tolower":
				return one(st, x.enc("hex", t.args[0]))
			}
		}
		if t.op == "strlit" {
			switch n {
			case "toupper":
				return one(st, x.tb.StrLit(strings.ToUpper(t.name)))
			case "tolower":
				return one(st, x.tb.StrLit(strings.ToLower(t.name)))
			}
		}
		return one(st, x.tb.UF(n, StrS, t))
	}
}

// hasPrefix compares the bytes when the prefix is a literal.
func (x *Exec) hasPrefix(s, p *Term) *Term {
	tb := x.tb
	if p.op == "strlit" && len(p.name) <= 64 {
		if p.name == "" {
			return tb.True
		}
		n := len(p.name)
		tp, off := tb.BytesOf(s)
		long := tb.Le(tb.Int(int64(n)), tb.SLen(s))
		bv := tb.BVbig(8*n, new(big.Int).SetBytes([]byte(p.name)))
		return tb.And(long, tb.Eq(tb.Rd(tp, tb.MulC(off, 8), 8*n), bv))
	}
	return tb.UF("hasprefix", BoolS, s, p)
}

// cutPrefix continues with what follows the prefix, or the text itself.
func (x *Exec) cutPrefix(st *State, s, p *Term, k func(st *State, s, ok *Term) []Outcome) []Outcome {
	tb := x.tb
	if p.op != "strlit" || len(p.name) > 64 {
		return k(st, tb.UF("trimprefix", StrS, s, p), tb.UF("hasprefix", BoolS, s, p))
	}
	n := int64(len(p.name))
	if ps := pieces(s); len(ps) > 1 && ps[0].op == "strlit" && strings.HasPrefix(ps[0].name, p.name) {
		r := tb.StrLit(ps[0].name[n:])
		for _, q := range ps[1:] {
			r = tb.StrCat(r, q)
		}
		return k(st, r, tb.True)
	}
	return x.fork(st, x.hasPrefix(s, p), func(st *State) []Outcome {
		tp, off := tb.BytesOf(s)
		return k(st, tb.MkStr(tp, tb.AddC(off, n), tb.AddC(tb.SLen(s), -n)), tb.True)
	}, func(st *State) []Outcome { return k(st, s, tb.False) })
}
func strFn2(n string) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		return one(st, x.tb.UF(n, StrS, a[0].(*Term), a[1].(*Term)))
	}
}

// decimalOf is the mathematical value of an integer.
func (x *Exec) decimalOf(v Val, signed bool) *Term {
	t := v.(*Term)
	if t.sort.K == SBV && signed {
		return x.signedInt(t)
	}
	return x.intOf(t)
}
func fmtInt(signed bool) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		v := x.decimalOf(a[0], signed)
		if a[1].(*Term) != x.tb.Int(10) {
			return one(st, x.tb.UF("fmtbase", StrS, v, a[1].(*Term)))
		}
		return one(st, x.tb.UF("fmtd", StrS, v))
	}
}
func bePut(w int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		tb := x.tb
		s := a[1].(SliceV)
		v := a[2].(*Term)
		x.prove(st, tb.Le(tb.Int(int64(w/8)), s.ln), "index", x.where(in))
		if s.loc == nil {
			return nil
		}
		if v.sort.K == SInt {
			v = tb.I2B(w, v)
		}
		switch c := x.get(st, s.loc).(type) {
		case TapeV:
			x.set(st, s.loc, TapeV{tb.Put(c.t, tb.MulC(s.off, 8), v)})
		case ArrayV:
			if !s.off.isInt() {
				panic(unsupported("PutUint into a shifted array"))
			}
			o := int(s.off.iv.Int64())
			es := append([]Val{}, c.es...)
			for i := 0; i < w/8; i++ {
				hi := w - 1 - 8*i
				es[o+i] = tb.Extract(hi, hi-7, v)
			}
			x.set(st, s.loc, ArrayV{es})
		default:
			panic(unsupported("PutUint into %T", c))
		}
		return one(st)
	}
}
func beGet(w int) intrin {
	return func(x *Exec, st *State, a []Val, in ssa.Instruction, d int) []Outcome {
		tb := x.tb
		s := a[1].(SliceV)
		x.prove(st, tb.Le(tb.Int(int64(w/8)), s.ln), "index", x.where(in))
		if s.loc == nil {
			return nil
		}
		t, off := x.sliceTape(st, s)
		v := tb.Rd(t, tb.MulC(off, 8), w)
		return one(st, v)
	}
}

// varargs: the elements of a ...any argument
func (x *Exec) varargs(st *State, v Val) []Val {
	s, ok := v.(SliceV)
	if !ok || s.loc == nil {
		return nil
	}
	a, ok := x.get(st, s.loc).(ArrayV)
	if !ok || !s.ln.isInt() || !s.off.isInt() {
		panic(unsupported("variadic argument"))
	}
	return a.es[s.off.iv.Int64() : s.off.iv.Int64()+s.ln.iv.Int64()]
}

func (x *Exec) sprintf(st *State, a []Val, in ssa.Instruction) []Outcome {
	tb := x.tb
	f, ok := a[0].(*Term)
	if !ok || f.op != "strlit" {
		panic(unsupported("Sprintf with a computed format"))
	}
	es := x.varargs(st, a[1])
	res := tb.StrLit("")
	i := 0
	s := f.name
	for len(s) > 0 {
		k := strings.IndexByte(s, '%')
		if k < 0 {
			res = tb.StrCat(res, tb.StrLit(s))
			break
		}
		res = tb.StrCat(res, tb.StrLit(s[:k]))
		s = s[k:]
		j := 1
		for j < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[j])) {
			j++
		}
		if j >= len(s) {
			panic(unsupported("Sprintf format"))
		}
		verb := s[:j+1]
		s = s[j+1:]
		if verb == "%%" {
			res = tb.StrCat(res, tb.StrLit("%"))
			continue
		}
		if i >= len(es) {
			panic(unsupported("Sprintf with missing arguments"))
		}
		res = tb.StrCat(res, x.fmtArg(st, verb, es[i], in))
		i++
	}
	if i != len(es) {
		panic(unsupported("Sprintf with extra arguments"))
	}
	return one(st, res)
}

func (x *Exec) fmtArg(st *State, verb string, v Val, in ssa.Instruction) *Term {
	tb := x.tb
	if e, ok := v.(ErrV); ok && (verb == "%s" || verb == "%v") {
		nilText := "%!" + verb[1:] + "(<nil>)"
		if verb == "%v" {
			nilText = "<nil>"
		}
		switch x.decide(st, tb.Eq(e.code, tb.Zero)) {
		case 1:
			return tb.StrLit(nilText)
		case -1:
			return x.errText(e.code)
		}
		return tb.Ite(tb.Eq(e.code, tb.Zero), tb.StrLit(nilText), x.errText(e.code))
	}
	iv, ok := v.(IfaceV)
	if !ok {
		panic(unsupported("Sprintf of %T", v))
	}
	if e, ok := iv.v.(ErrV); ok {
		return x.fmtArg(st, verb, e, in)
	}
	if iv.typ == nil {
		return tb.StrLit("%!" + verb[len(verb)-1:] + "(<nil>)")
	}
	if _, isPtr := under(iv.typ).(*types.Pointer); isPtr {
		// a pointer would be printed as an address
		x.prove(st, tb.False, "address", x.where(in))
	}
	hasM := false
	ms := types.NewMethodSet(iv.typ)
	for _, m := range []string{"Error", "String", "Format", "GoString"} {
		if ms.Lookup(nil, m) != nil {
			hasM = true
		}
	}
	if t, ok := iv.v.(*Term); ok && !hasM {
		b, isB := under(iv.typ).(*types.Basic)
		if t.sort.K == SStr {
			switch verb {
			case "%s", "%v":
				return t
			case "%x":
				return x.enc("hex", t)
			case "%X":
				return tb.UF("fmt:%X:bytes", StrS, t)
			}
		}
		if isB && b.Info()&types.IsInteger != 0 {
			if t.isConst() && (t.op == "int" || t.op == "bv") {
				return tb.StrLit(fmt.Sprintf(verb, t.iv))
			}
			if verb == "%d" || verb == "%v" {
				return tb.UF("fmtd", StrS, x.decimalOf(t, b.Info()&types.IsUnsigned == 0))
			}
			return tb.UF("fmt:"+verb, StrS, x.intOf(t))
		}
		return tb.UF("fmt:"+verb+":"+x.typeName(iv.typ), StrS, t)
	}
	ov := x.freeze(st, iv.v, iv.typ)
	if isByteSlice(iv.typ) {
		if verb == "%s" && !hasM {
			return x.strOf(st, iv.v)
		}
		if verb == "%x" && !hasM {
			return x.enc("hex", x.strOf(st, iv.v))
		}
		return tb.UF("fmt:"+verb+":bytes", StrS, x.strOf(st, iv.v))
	}
	return tb.UF("fmt:"+verb+":"+x.typeName(iv.typ), StrS, x.flatten(ov, iv.typ)...)
}

// predSig identifies a rune predicate by its truth table: 0..255 explicitly and
// one value, proved constant, for every other rune.
func (x *Exec) predSig(st *State, f Val, depth int) (string, [256]bool) {
	var mask [256]bool
	fv, ok := f.(FuncV)
	if !ok {
		panic(unsupported("predicate %T", f))
	}
	tb := x.tb
	eval := func(r *Term, c *Term) (*Term, bool) {
		s2 := st.clone()
		if c != nil {
			s2.assume(c)
		}
		x.quiet++
		defer func() { x.quiet--; x.cur = st }()
		x.cur = s2
		outs := x.callFn(s2, fv.fn, []Val{r}, fv.bind, depth+1, nil)
		var res *Term
		for _, o := range outs {
			x.cur = o.st
			t := o.ret[0].(*Term)
			if t != tb.True && t != tb.False {
				switch x.decide(o.st, t) {
				case 1:
					t = tb.True
				case -1:
					t = tb.False
				default:
					return nil, false
				}
			}
			if res != nil && res != t {
				return nil, false
			}
			res = t
		}
		return res, res != nil
	}
	var sb strings.Builder
	last := byte(0)
	for i := 0; i < 256; i++ {
		t, ok := eval(tb.BVc(32, uint64(i)), nil)
		if !ok {
			panic(unsupported("predicate is not determined"))
		}
		c := byte('0')
		if t == tb.True {
			c = '1'
			mask[i] = true
		}
		if i == 0 || c != last {
			fmt.Fprintf(&sb, "%d%c", i, c)
		}
		last = c
	}
	r := tb.UF("rune", BV(32))
	t, ok := eval(r, tb.And(tb.Not(tb.BVUlt(r, tb.BVc(32, 256))), tb.BVUlt(r, tb.BVc(32, 0x110000))))
	if !ok {
		panic(unsupported("predicate is not constant above 255"))
	}
	return fmt.Sprintf("%s/%v", sb.String(), t == tb.True), mask
}

func (x *Exec) intrinsic(st *State, fn *ssa.Function, args []Val, in ssa.Instruction, depth int) (outs []Outcome, ok bool) {
	if fn.Pkg == x.P.pkg {
		return x.specIntrinsic(st, fn, args, in, depth)
	}
	if fn.Pkg == x.P.cmdp && fn.Pkg != nil {
		if x.P.isSpecFn(fn) && fn.Name() == "vzTool" {
			return x.runTool(st, args, in, depth), true
		}
		return x.specIntrinsic(st, fn, args, in, depth)
	}
	n := fullName(fn)
	f := intrinsics[n]
	if f == nil {
		if strings.HasPrefix(n, "init") || fn.Name() == "init" {
			return one(st), true
		}
		return nil, false
	}
	if x.spec == 0 && x.quiet == 0 {
		x.trusted[n] = true
	}
	return f(x, st, args, in, depth), true
}

// specIntrinsic: the executable helper types of the contract files, understood
// natively so that specifications stay small terms.
func (x *Exec) specIntrinsic(st *State, fn *ssa.Function, a []Val, in ssa.Instruction, depth int) ([]Outcome, bool) {
	if !x.P.isSpecFn(fn) {
		return nil, false
	}
	tb := x.tb
	name := strings.TrimPrefix(x.P.fname(fn), "cmd.")
	rd := func(n, w int) ([]Outcome, bool) {
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil, true
		}
		v := x.rdBits(st, r, n)
		x.rdSetPos(st, r, tb.AddC(r.pos, int64(n)))
		if w == 1 {
			return one(st, tb.Eq(v, tb.BVc(1, 1))), true
		}
		return one(st, x.toW(v, w)), true
	}
	constN := func(v Val) int {
		t := v.(*Term)
		if !t.isInt() {
			panic(unsupported("symbolic width in a specification"))
		}
		return int(t.iv.Int64())
	}
	switch name {
	case "vzNewRd":
		return one(st, StructV{[]Val{a[0], tb.Zero}}), true
	case "(*vrd).flag":
		return rd(1, 1)
	case "(*vrd).u32":
		return rd(constN(a[1]), 32)
	case "(*vrd).u64":
		if t := a[1].(*Term); !t.isInt() {
			r, ok := x.rdGet(st, a[0], in)
			if !ok {
				return nil, true
			}
			return x.readN(st, r, t, 64, 64, in), true
		}
		return rd(constN(a[1]), 64)
	case "(*vrd).skip":
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil, true
		}
		x.rdSetPos(st, r, tb.Add(r.pos, a[1].(*Term)))
		return one(st), true
	case "(*vrd).at":
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil, true
		}
		return one(st, r.pos), true
	case "(*vrd).left":
		// bits left; negative when reading went past the end
		r, ok := x.rdGet(st, a[0], in)
		if !ok {
			return nil, true
		}
		return one(st, tb.Sub(tb.MulC(r.src.ln, 8), r.pos)), true
	case "vzNewWr":
		return one(st, StructV{[]Val{TapeV{tb.TZero()}, tb.Zero}}), true
	case "(*vwr).put", "(*vwr).flag", "(*vwr).bytes", "(*vwr).str", "(*vwr).at", "(*vwr).done":
		l := x.ptr(st, a[0], in)
		if l == nil {
			return nil, true
		}
		s := x.get(st, l).(StructV)
		t, pos := s.fs[0].(TapeV).t, s.fs[1].(*Term)
		switch fn.Name() {
		case "put":
			n := constN(a[1])
			v := a[2].(*Term)
			if v.sort.K == SInt {
				v = tb.I2B(64, v)
			}
			x.set(st, l, StructV{[]Val{TapeV{tb.Put(t, pos, tb.Extract(n-1, 0, v))}, tb.AddC(pos, int64(n))}})
			return one(st), true
		case "flag":
			v := tb.Ite(a[1].(*Term), tb.BVc(1, 1), tb.BVc(1, 0))
			x.set(st, l, StructV{[]Val{TapeV{tb.Put(t, pos, v)}, tb.AddC(pos, 1)}})
			return one(st), true
		case "bytes":
			p := a[1].(SliceV)
			if p.loc != nil {
				pt, po := x.sliceTape(st, p)
				t = tb.Copy(t, pos, pt, po, p.ln)
			}
			x.set(st, l, StructV{[]Val{TapeV{t}, tb.Add(pos, tb.MulC(p.ln, 8))}})
			return one(st), true
		case "str":
			p := a[1].(*Term)
			pt, po := tb.BytesOf(p)
			n := tb.SLen(p)
			x.set(st, l, StructV{[]Val{TapeV{tb.Copy(t, pos, pt, po, n)}, tb.Add(pos, tb.MulC(n, 8))}})
			return one(st), true
		case "at":
			return one(st, pos), true
		case "done":
			x.prove(st, tb.Eq(tb.FMod(pos, big.NewInt(8)), tb.Zero), "aligned", x.where(in))
			n := tb.FDiv(pos, 8)
			nl := x.alloc(st, types.NewSlice(types.Typ[types.Uint8]), TapeV{t}, "done")
			return one(st, SliceV{tb.False, nl, tb.Zero, n, n}), true
		}
	case "vassert":
		lab := "?"
		if t, ok := a[1].(*Term); ok && t.op == "strlit" {
			lab = t.name
		}
		sp := x.spec
		x.spec = 0
		x.prove(st, a[0].(*Term), "assert", lab)
		x.spec = sp
		return one(st), true
	case "vsame", "vsignal":
		lab := "?"
		if t, ok := a[2].(*Term); ok && t.op == "strlit" {
			lab = t.name
		}
		p, ok := a[0].(IfaceV)
		q, ok2 := a[1].(IfaceV)
		if _, sym := a[0].(IfaceS); sym && ok2 {
			p, q := x.ifaceId(st, a[0]), x.ifaceId(st, a[1])
			x.record("assert", lab, x.eqT(st, p, q), tb.Eq(p, q), st)
			return one(st), true
		}
		if !ok || !ok2 || p.typ == nil || q.typ == nil || !types.Identical(p.typ, q.typ) {
			panic(unsupported("vsame of different types"))
		}
		sp := x.spec
		x.spec = 0
		on := x.noNames
		x.noNames = name == "vsignal"
		defer func() { x.noNames = on }()
		x.eqVal(st, x.own(st, p.v, p.typ), x.own(st, q.v, q.typ), p.typ, "", func(s *State, n string, ok bool, cond *Term) {
			x.record("assert", lab+": "+cleanName(n), ok, cond, s)
		})
		x.spec = sp
		return one(st), true
	case "vrewind":
		// the decoder is where it was before it was first used
		st.setMemo("xmlread:"+a[0].(OpaqueV).name, nil)
		return one(st), true
	case "vtext":
		return one(st, tb.True), true
	case "vassume":
		if x.applying > 0 {
			// at a call site the restriction is the caller's to establish
			sp := x.spec
			x.spec = 0
			x.prove(st, a[0].(*Term), "pre", x.where(in))
			x.spec = sp
		}
		st.assume(a[0].(*Term))
		if x.sv.Check(st.pc, tb.True) == -1 {
			return nil, true
		}
		return one(st), true
	}
	return nil, false
}

var _ = constant.Int

// unusedResults: the call's results are not looked at
func unusedResults(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return true
	}
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch e := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if er := e.Referrers(); er == nil || len(*er) > 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// isZero: when a value is the zero value of its type
func (x *Exec) isZero(v Val, t types.Type) *Term {
	tb := x.tb
	switch a := v.(type) {
	case PtrV:
		return a.nl
	case IfaceV:
		return tb.Bool(a.typ == nil)
	case IfaceS:
		return tb.Eq(a.id, x.nilId())
	case InPtr:
		return a.nl
	case SliceV:
		return a.nl
	case InSlice:
		return a.nl
	case StructV:
		if s, ok := under(t).(*types.Struct); ok && len(a.fs) == s.NumFields() {
			c := tb.True
			for i, f := range a.fs {
				c = tb.And(c, x.isZero(f, s.Field(i).Type()))
			}
			return c
		}
	case *Term:
		if z, ok := x.zero(t).(*Term); ok {
			return tb.Eq(a, z)
		}
	}
	panic(unsupported("zero value of %s (%T)", t, v))
}
