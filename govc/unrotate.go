package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// go/ssa compiles "for i := range n" (n an integer) to a loop tested at its
// end. intRanges rewrites such loops, on every run and in the text handed to
// the verifier only, to the equivalent three-clause loop
//
//	for n', i' := n, T(0); i' < n'; i'++ { i := i'; ... }
//
// (the language specification's meaning of ranging over an integer: n is
// evaluated once, i is a fresh copy per iteration). Nothing else is changed.
func intRanges(pk []*packages.Package, overlay map[string][]byte) (int, error) {
	type edit struct {
		lo, hi int
		s      string
	}
	n := 0
	for _, p := range pk {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			var src []byte
			var edits []edit
			var err error
			ast.Inspect(f, func(nd ast.Node) bool {
				rs, ok := nd.(*ast.RangeStmt)
				if !ok || err != nil {
					return err == nil
				}
				t := p.TypesInfo.TypeOf(rs.X)
				if t == nil {
					return true
				}
				b, ok := t.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				if b.Kind() == types.UntypedInt {
					t = types.Typ[types.Int]
					if rs.Key != nil {
						if kt := p.TypesInfo.TypeOf(rs.Key); kt != nil {
							t = kt
						}
					}
				}
				if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != p.Types {
					return true
				}
				if src == nil {
					if o, ok := overlay[name]; ok {
						src = o
					} else if src, err = os.ReadFile(name); err != nil {
						return false
					}
				}
				ts := types.TypeString(t, types.RelativeTo(p.Types))
				off := func(q ast.Node, end bool) int {
					if end {
						return p.Fset.Position(q.End()).Offset
					}
					return p.Fset.Position(q.Pos()).Offset
				}
				x := string(src[off(rs.X, false):off(rs.X, true)])
				n++
				head := fmt.Sprintf("for vn_%d, vi_%d := %s(%s), %s(0); vi_%d < vn_%d; vi_%d++ {", n, n, ts, x, ts, n, n, n)
				if rs.Key != nil {
					if id, ok := rs.Key.(*ast.Ident); !ok || id.Name != "_" {
						k := string(src[off(rs.Key, false):off(rs.Key, true)])
						head += fmt.Sprintf(" %s %s vi_%d;", k, rs.Tok, n)
					}
				}
				edits = append(edits, edit{off(rs, false), p.Fset.Position(rs.Body.Lbrace).Offset + 1, head})
				return true
			})
			if err != nil {
				return 0, err
			}
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
			var out strings.Builder
			at := 0
			for _, e := range edits {
				out.Write(src[at:e.lo])
				out.WriteString(e.s)
				at = e.hi
			}
			out.Write(src[at:])
			overlay[name] = []byte(out.String())
		}
	}
	return n, nil
}
