package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program: /repo's current source plus the contract files.
type Prog struct {
	fset     *token.FileSet
	prog     *ssa.Program
	pkg      *ssa.Package // scte35
	iobit    *ssa.Package
	cmdp     *ssa.Package
	specFile map[string]bool
	funcs    map[string]*ssa.Function // "(*T).m" / "f"
	dirs     []directive
	syntax   []*ast.File
	overlay  map[string][]byte
	broken   map[string]string // contract functions that no longer type-check
}

type directive struct {
	fn   string // spec function name
	kind string // spec | lemma
	args string
	opts map[string]string
	pos  token.Position
}

const repo = "/repo"

// stdlib lists the standard library packages whose functions, where the code
// calls one that has no model, are executed from their own source.
var stdlib = map[string]bool{"slices": true, "cmp": true, "math/bits": true, "encoding/binary": true}

var loaded = []string{"./pkg/scte35", "github.com/bamiaux/iobit", "./cmd", "slices", "cmp", "math/bits", "encoding/binary", cobraPath}

const pkgDir = repo + "/pkg/scte35"

// repoDir is /repo; only tools/campaign.py, which tries planted bugs on scratch
// copies, sets GOVC_REPO.
var repoDir = func() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return repo
}()

func loadProg(contracts string) (*Prog, error) {
	overlay := map[string][]byte{}
	pd := filepath.Join(repoDir, "pkg/scte35")
	files, _ := filepath.Glob(filepath.Join(contracts, "*.go"))
	tool, _ := filepath.Glob(filepath.Join(contracts, "cmd", "*.go"))
	files = append(files, tool...)
	sort.Strings(files)
	spec := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		n := filepath.Join(pd, "zz_verif_"+filepath.Base(f))
		if filepath.Base(filepath.Dir(f)) == "cmd" {
			n = filepath.Join(repoDir, "cmd", "zz_verif_"+filepath.Base(f))
		}
		overlay[n] = b
		spec[n] = true
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	broken := map[string]string{}
	var pk []*packages.Package
	for round := 0; ; round++ {
		var err error
		if pk, err = packages.Load(cfg, loaded...); err != nil {
			return nil, err
		}
		var errs []packages.Error
		seen := map[string]bool{}
		for _, p := range pk {
			for _, e := range p.Errors {
				if e.Kind == packages.ListError && strings.HasPrefix(e.Pos, "-") || e.Pos == "" {
					continue // a summary of the others
				}
				if !seen[e.Error()] {
					seen[e.Error()] = true
					errs = append(errs, e)
				}
			}
		}
		if len(errs) == 0 {
			for _, p := range pk {
				if len(p.Errors) > 0 {
					return nil, fmt.Errorf("load: %s", p.Errors[0])
				}
			}
			break
		}
		if round > 6 || !stubBroken(overlay, errs, broken) {
			var ss []string
			for _, e := range errs {
				ss = append(ss, e.Error())
			}
			return nil, fmt.Errorf("load: %s", strings.Join(ss, "; "))
		}
	}
	if n, err := intRanges(pk, overlay); err != nil {
		return nil, err
	} else if n > 0 {
		if pk, err = packages.Load(cfg, loaded...); err != nil {
			return nil, err
		}
		for _, p := range pk {
			for _, e := range p.Errors {
				return nil, fmt.Errorf("load: %s", e)
			}
		}
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{fset: prog.Fset, prog: prog, specFile: spec, overlay: overlay, broken: broken, funcs: map[string]*ssa.Function{}}
	var cmdSyntax []*ast.File
	for i, s := range sp {
		switch {
		case strings.HasSuffix(pk[i].PkgPath, "/pkg/scte35"):
			P.pkg = s
			P.syntax = pk[i].Syntax
		case strings.HasSuffix(pk[i].PkgPath, "/cmd"):
			P.cmdp = s
			cmdSyntax = pk[i].Syntax
		case strings.HasSuffix(pk[i].PkgPath, "/iobit"):
			P.iobit = s
		}
	}
	if P.pkg == nil {
		return nil, fmt.Errorf("package scte35 not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == P.pkg || fn.Pkg == P.cmdp && fn.Pkg != nil {
			P.funcs[P.fname(fn)] = fn
		}
	}
	for i, f := range append(P.syntax[:len(P.syntax):len(P.syntax)], cmdSyntax...) {
		name := P.fset.Position(f.Pos()).Filename
		if !spec[name] {
			continue
		}
		in := ""
		if i >= len(P.syntax) {
			in = "cmd."
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			var cur *directive
			for _, c := range fd.Doc.List {
				t, ok := strings.CutPrefix(c.Text, "//@ ")
				if !ok {
					// as gofmt leaves it
					t, ok = strings.CutPrefix(c.Text, "// @ ")
				}
				if !ok {
					continue
				}
				t = strings.TrimSpace(t)
				k, rest, _ := strings.Cut(t, " ")
				if k == "spec" || k == "lemma" || k == "define" {
					P.dirs = append(P.dirs, directive{fn: in + fd.Name.Name, kind: k, args: strings.TrimSpace(rest), opts: map[string]string{}, pos: P.fset.Position(c.Pos())})
					cur = &P.dirs[len(P.dirs)-1]
					continue
				}
				if cur == nil {
					return nil, fmt.Errorf("%s: option before spec", P.fset.Position(c.Pos()))
				}
				if o, ok := cur.opts[k]; ok {
					cur.opts[k] = o + "\n" + strings.TrimSpace(rest)
				} else {
					cur.opts[k] = strings.TrimSpace(rest)
				}
			}
		}
	}
	return P, nil
}

// fname: "(*T).m", "(T).m" or "f"
func (P *Prog) fname(fn *ssa.Function) string {
	if fn.Pkg == P.cmdp && P.cmdp != nil {
		return "cmd." + fn.RelString(P.cmdp.Pkg)
	}
	return fn.RelString(P.pkg.Pkg)
}

func (P *Prog) typeOf(name string) types.Type {
	o := P.pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// stubBroken replaces the contract functions that no longer type-check against
// the code (a helper they call was removed, a field renamed) with stubs, so
// that the contracts which do not depend on them are still verified. It
// reports whether every error could be attributed that way.
func stubBroken(overlay map[string][]byte, errs []packages.Error, broken map[string]string) bool {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	parsed := map[string]*ast.File{}
	fset := token.NewFileSet()
	for _, e := range errs {
		name, rest, _ := strings.Cut(e.Pos, ":")
		src, ok := overlay[name]
		if !ok {
			return false
		}
		var line int
		fmt.Sscanf(rest, "%d", &line)
		f := parsed[name]
		if f == nil {
			var err error
			if f, err = parser.ParseFile(fset, name, src, parser.ParseComments); err != nil {
				return false
			}
			parsed[name] = f
		}
		found := false
		for _, d := range f.Decls {
			from, to := fset.Position(d.Pos()), fset.Position(d.End())
			if line < from.Line || line > to.Line {
				continue
			}
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv != nil || d.Body == nil {
					return false
				}
				lb := fset.Position(d.Body.Lbrace)
				if _, twice := broken[d.Name.Name]; twice || line < lb.Line {
					// the signature itself: drop the function, keep its contract
					// in the record
					text := strings.Repeat("\n", to.Line-from.Line)
					edits[name] = append(edits[name], edit{from.Offset, to.Offset, text})
				} else {
					text := "{" + strings.Repeat("\n", to.Line-lb.Line) + "panic(0)}"
					edits[name] = append(edits[name], edit{lb.Offset, to.Offset, text})
				}
				if broken[d.Name.Name] == "" {
					broken[d.Name.Name] = e.Msg
					broken["cmd."+d.Name.Name] = e.Msg
				}
				found = true
			case *ast.GenDecl:
				if d.Tok != token.IMPORT {
					return false
				}
				for _, s := range d.Specs {
					s := s.(*ast.ImportSpec)
					p := fset.Position(s.Pos())
					if p.Line == line && s.Name == nil {
						edits[name] = append(edits[name], edit{p.Offset, p.Offset, "_ "})
						found = true
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	for name, es := range edits {
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		src := string(overlay[name])
		last := -1
		for _, e := range es {
			if e.from == last {
				continue
			}
			last = e.from
			src = src[:e.from] + e.text + src[e.to:]
		}
		overlay[name] = []byte(src)
	}
	return true
}
