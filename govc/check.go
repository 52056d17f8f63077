package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- results over the wire ----------

type OblJ struct {
	Name, Kind     string
	Props          []string
	Proved, Failed int
	Detail         string `json:",omitempty"`
}
type ResJ struct {
	Contract               string
	Err                    string `json:",omitempty"`
	Obls                   []OblJ
	Paths, Queries         int
	Unknown                int
	Wall, Solver           float64
	Inlined, Used, Trusted []string
	Missing                bool
}

func newExec(P *Prog, solver string, ms int) (*Exec, error) {
	bin := solverCmd(solver)
	x := NewExec(P, func(tb *TB) *Solver { return NewSolver(tb, ms, bin...) })
	if err := x.initProgram(); err != nil {
		return nil, fmt.Errorf("init: %w", err)
	}
	if err := x.loadContracts(); err != nil {
		return nil, err
	}
	return x, nil
}
func solverCmd(s string) []string {
	switch s {
	case "z3":
		return []string{"z3", "-in"}
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--tlimit-per=20000"}
	}
	return []string{"z3-new", "-in"}
}

// worker: contract names on stdin, results on stdout.
func worker(contracts, solver string, budget int) int {
	P, err := loadProg(contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		name, sh, _ := strings.Cut(in.Text(), shardSep)
		r := ResJ{Contract: name}
		if u, ok := strings.CutPrefix(name, depPrefix); ok {
			t0 := time.Now()
			obls, st, q, known, err := iobitUnit(P, u)
			r.Queries, r.Solver, r.Wall = q, st.Seconds(), time.Since(t0).Seconds()
			if err != nil {
				r.Err = err.Error()
			} else if !known {
				r.Err = "no contract for " + u
			}
			// one entry per obligation and kind
			at := map[string]int{}
			for _, o := range obls {
				k := o.Name + "\x00" + o.Kind
				i, ok := at[k]
				if !ok {
					i = len(r.Obls)
					at[k] = i
					r.Obls = append(r.Obls, OblJ{Name: o.Name, Kind: o.Kind})
				}
				r.Obls[i].Proved += o.Proved
				r.Obls[i].Failed += o.Failed
				if o.Detail != "" {
					r.Obls[i].Detail = o.Detail
				}
			}
			b, _ := json.Marshal(r)
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
			continue
		}
		x, err := newExec(P, solver, 20000)
		if err != nil {
			r.Err = err.Error()
		} else {
			if sh != "" {
				fmt.Sscanf(sh, "%d/%d", &x.shard, &x.shards)
			}
			for _, c := range x.all {
				if c.name != name {
					continue
				}
				if c.broken != "" {
					if c.sigChanged && c.helper() {
						r.Missing = true
						break
					}
					r.Err = "the text of this contract no longer fits the source: " + c.broken
					break
				}
				if c.refineMissing {
					r.Err = "this implementer has no contract, so the interface's promise is not established for it"
					break
				}
				if c.fn == nil && !c.lemma {
					r.Missing = true
					if c.helper() {
						break // what its callers do now is checked with them
					}
					r.Err = "the function under this contract is gone"
					break
				}
				v := x.verify(c, time.Duration(budget)*time.Second)
				if v.bad() && v.wall < time.Duration(budget)*time.Second/4 {
					// a guess may have been given too little time, or the
					// solver may have been disturbed
					x.sv.Close()
					if y, err := newExec(P, solver, 20000); err == nil {
						guessLimit = 0
						y.shard, y.shards = x.shard, x.shards
						for _, d := range y.all {
							if d.name == c.name {
								x, v = y, y.verify(d, time.Duration(budget)*time.Second)
							}
						}
						guessLimit = 600000
					}
				}
				r.Err, r.Paths, r.Queries, r.Unknown = v.err, v.paths, v.queries, v.unknown
				r.Wall, r.Solver = v.wall.Seconds(), v.stime.Seconds()
				r.Inlined, r.Used, r.Trusted = v.inlined, v.used, v.trusted
				for _, o := range v.obls {
					r.Obls = append(r.Obls, OblJ{o.Name, o.Kind, c.propsOf(o.Kind), o.Proved, o.Failed, o.Detail})
				}
			}
			x.sv.Close()
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	return 0
}

func (r Result) bad() bool {
	for _, o := range r.obls {
		if o.Failed > 0 && o.Kind != "vacuity" {
			return true
		}
	}
	return r.err != ""
}

// ---------- which contracts decide a property ----------

func (c *Contract) allProps() map[string]bool {
	m := map[string]bool{}
	for _, k := range []string{"post", "frame", "err", "panic", "assert", "global", "address", "overflow", "ensures-post", "pre", "vacuity", "refine"} {
		for _, p := range c.propsOf(k) {
			m[p] = true
		}
	}
	return m
}

// closure: the contracts a property's own ones lean on.
func (x *Exec) closure(prop string) (direct, all []*Contract) {
	byFn := map[*ssa.Function]*Contract{}
	for f, c := range x.contracts {
		byFn[f] = c
	}
	seenC := map[*Contract]bool{}
	seenF := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	var add func(c *Contract)
	add = func(c *Contract) {
		if seenC[c] {
			return
		}
		seenC[c] = true
		if c.fn != nil {
			walk(c.fn)
		}
		if c.spec != nil {
			walk(c.spec)
		}
	}
	walk = func(f *ssa.Function) {
		if f == nil || seenF[f] {
			return
		}
		seenF[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := cc.Common()
				if com.IsInvoke() {
					for g, c := range byFn {
						if g.Name() != com.Method.Name() || g.Signature.Recv() == nil {
							continue
						}
						rt := g.Signature.Recv().Type()
						if in, ok := under(com.Value.Type()).(*types.Interface); ok && (types.Implements(rt, in) || types.Implements(types.NewPointer(rt), in)) {
							add(c)
						}
					}
					continue
				}
				g := com.StaticCallee()
				if g == nil || g.Pkg != x.P.pkg && g.Pkg != x.P.cmdp {
					continue
				}
				if f.Pkg == x.P.cmdp && g.Pkg == x.P.pkg {
					continue // the methods of a section count as functions there
				}
				if c := byFn[g]; c != nil {
					add(c)
				} else if c := x.specOf[g]; c != nil {
					add(c)
				} else {
					walk(g)
				}
			}
		}
	}
	for _, c := range x.all {
		if prop == "" || c.allProps()[prop] {
			direct = append(direct, c)
		}
	}
	for _, c := range direct {
		add(c)
	}
	for _, c := range x.all {
		if seenC[c] {
			all = append(all, c)
		}
	}
	return
}

// ---------- running contracts ----------

// The outcomes of a specification are independent cases: those of the longest
// ones are divided over several workers and the results put together again.
const shardSep = "\x1f"

func shardsOf(n string) int {
	if strings.Contains(n, "SegmentationDescriptor).decode") || strings.Contains(n, "SegmentationDescriptor).writeTo") {
		return 8
	}
	return 1
}

func (r ResJ) merge(o ResJ) ResJ {
	at := map[string]int{}
	for i, b := range r.Obls {
		at[b.Name] = i
	}
	for _, b := range o.Obls {
		i, ok := at[b.Name]
		if !ok {
			r.Obls = append(r.Obls, b)
			continue
		}
		a := &r.Obls[i]
		if b.Kind == "vacuity" {
			if a.Proved > 0 || b.Proved > 0 {
				a.Proved, a.Failed, a.Detail = 1, 0, ""
			}
			continue
		}
		a.Proved, a.Failed = a.Proved+b.Proved, a.Failed+b.Failed
		if a.Detail == "" {
			a.Detail = b.Detail
		}
	}
	if r.Err == "" {
		r.Err = o.Err
	}
	r.Missing = r.Missing || o.Missing
	r.Paths, r.Queries, r.Unknown = r.Paths+o.Paths, r.Queries+o.Queries, r.Unknown+o.Unknown
	r.Wall, r.Solver = r.Wall+o.Wall, r.Solver+o.Solver
	u := func(a, b []string) []string {
		m := map[string]bool{}
		for _, s := range append(append([]string{}, a...), b...) {
			m[s] = true
		}
		return sortedKeys(m)
	}
	r.Inlined, r.Used, r.Trusted = u(r.Inlined, o.Inlined), u(r.Used, o.Used), u(r.Trusted, o.Trusted)
	return r
}

func runContracts(self, contracts, solver string, names []string, budget int, deadline time.Time) map[string]ResJ {
	res := map[string]ResJ{}
	var mu sync.Mutex
	// the long ones first
	cost := func(n string) int {
		w := 0
		for i, k := range []string{"Audio", "Schedule", "Insert", "SegmentationDescriptor).length", "SpliceInfoSection", "SegmentationDescriptor).encode", "SegmentationDescriptor).decode"} {
			if strings.Contains(n, k) {
				w = i + 1
			}
		}
		return w
	}
	var q []string
	for _, n := range names {
		if k := shardsOf(n); k > 1 {
			for i := 0; i < k; i++ {
				q = append(q, fmt.Sprintf("%s%s%d/%d", n, shardSep, i, k))
			}
		} else {
			q = append(q, n)
		}
	}
	sort.SliceStable(q, func(i, j int) bool { return cost(q[i]) > cost(q[j]) })
	jobs := make(chan string, len(q))
	for _, n := range q {
		jobs <- n
	}
	close(jobs)
	var wg sync.WaitGroup
	nw := min(runtime.NumCPU(), len(q))
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in io.WriteCloser
			var out *bufio.Reader
			var stderr bytes.Buffer
			start := func() error {
				cmd = exec.Command(self, "worker", "-contracts", contracts, "-solver", solver, "-budget", strconv.Itoa(budget))
				stderr.Reset()
				cmd.Stderr = &stderr
				in, _ = cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				out = bufio.NewReaderSize(o, 1<<20)
				return cmd.Start()
			}
			for n := range jobs {
				put := func(r ResJ) {
					mu.Lock()
					defer mu.Unlock()
					name, sh, _ := strings.Cut(n, shardSep)
					r.Contract = name
					if p, ok := res[name]; ok && sh != "" {
						r = p.merge(r)
					}
					res[name] = r
				}
				if r, ok := devCached(solver, n); ok {
					put(r)
					continue
				}
				if time.Now().After(deadline) {
					put(ResJ{Contract: n, Err: "not reached within the time of this check"})
					continue
				}
				if cmd == nil {
					if err := start(); err != nil {
						put(ResJ{Contract: n, Err: err.Error()})
						cmd = nil
						continue
					}
				}
				fmt.Fprintln(in, n)
				proc := cmd.Process
				lim := time.Duration(budget+60) * time.Second
				if d := time.Until(deadline) + 10*time.Second; d < lim {
					lim = d
				}
				tm := time.AfterFunc(lim, func() { proc.Kill() })
				line, err := out.ReadString('\n')
				tm.Stop()
				var r ResJ
				if err == nil {
					err = json.Unmarshal([]byte(line), &r)
				}
				if err != nil {
					r = ResJ{Contract: n, Err: "verifier stopped: " + strings.TrimSpace(tailOf(stderr.String(), 600))}
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				} else {
					devStore(solver, n, line)
				}
				put(r)
			}
			if cmd != nil {
				in.Close()
				cmd.Wait()
			}
		}()
	}
	wg.Wait()
	return res
}

// devCache: tools/campaign.py, which tries many checks on one scratch copy of
// the repository, lets them share results. Never with /repo itself.
func devCache(solver, n string) string {
	d := os.Getenv("GOVC_DEVCACHE")
	if d == "" || os.Getenv("GOVC_REPO") == "" {
		return ""
	}
	return filepath.Join(d, hex.EncodeToString([]byte(solver+" "+n)))
}
func devCached(solver, n string) (r ResJ, ok bool) {
	if f := devCache(solver, n); f != "" {
		b, err := os.ReadFile(f)
		ok = err == nil && json.Unmarshal(b, &r) == nil
	}
	return
}
func devStore(solver, n, line string) {
	if f := devCache(solver, n); f != "" {
		_ = os.WriteFile(f, []byte(line), 0o644)
	}
}
func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------- the concrete oracle ----------

func (P *Prog) dictionary() (ints, strs []string) {
	is, ss := map[string]bool{}, map[string]bool{}
	for _, f := range P.funcs {
		if P.isSpecFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil {
						switch k.Value.Kind() {
						case constant.Int:
							is[k.Value.ExactString()] = true
						case constant.String:
							if s := constant.StringVal(k.Value); len(s) < 40 {
								ss[s] = true
							}
						}
					}
				}
			}
		}
	}
	return sortedKeys(is), sortedKeys(ss)
}

type Fail struct {
	Case, What string
	Seed       int64
	Args       []string
}

type replayRun struct {
	fails  []Fail
	cases  map[string][2]int
	output string
	err    string
}

// registry writes the table of contracts as Go source.
func (x *Exec) registry() string {
	var sb strings.Builder
	sb.WriteString("package scte35\n\nvar vcases = []vcase{\n")
	for _, c := range x.all {
		if c.broken != "" || c.iface || c.fn == nil && !c.lemma || c.spec.Pkg != x.P.pkg || c.noreplay {
			continue
		}
		real := "nil"
		if !c.lemma {
			real = c.name
		}
		opts := " "
		if c.total {
			opts += "total "
		}
		if c.fresh {
			opts += "fresh "
		}
		if c.errstate {
			opts += "errstate "
		}
		fl := func(fs []*ssa.Function) string {
			var n []string
			for _, f := range fs {
				n = append(n, f.Name())
			}
			return "[]any{" + strings.Join(n, ", ") + "}"
		}
		fmt.Fprintf(&sb, "\t{%q, %s, %s, %s, %s, %q},\n", c.name, real, c.spec.Name(), fl(c.requires), fl(c.ensures), opts)
	}
	sb.WriteString("}\n")
	return sb.String()
}

// toolRegistry: the same of the lemmas about the command line tool.
func (x *Exec) toolRegistry() string {
	var sb strings.Builder
	sb.WriteString("package cmd\n\nvar vcases = map[string]any{\n")
	for _, c := range x.all {
		if c.lemma && c.broken == "" && c.spec.Pkg == x.P.cmdp {
			fmt.Fprintf(&sb, "\t%q: %s,\n", c.name, c.spec.Name())
		}
	}
	sb.WriteString("}\n")
	return sb.String()
}

// replay runs contracts on generated inputs against the compiled code.
func (x *Exec) replay(verif string, names []string, seed int64, only int64, budget float64) (rr replayRun) {
	rr.cases = map[string][2]int{}
	for _, dir := range []string{"pkg/scte35", "cmd"} {
		var ns []string
		for _, n := range names {
			if strings.HasPrefix(n, "lemma cmd.") == (dir == "cmd") {
				ns = append(ns, n)
			}
		}
		if len(ns) == 0 {
			continue
		}
		r := x.replayIn(dir, verif, ns, seed, only, budget)
		rr.fails = append(rr.fails, r.fails...)
		for k, v := range r.cases {
			rr.cases[k] = v
		}
		rr.output += r.output
		if r.err != "" {
			rr.err = r.err
		}
	}
	return
}

func (x *Exec) replayIn(pkg, verif string, names []string, seed int64, only int64, budget float64) (rr replayRun) {
	rr.cases = map[string][2]int{}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		rr.err = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	pd := filepath.Join(repoDir, pkg)
	for f := range x.P.specFile {
		src := filepath.Join(dir, filepath.Base(f))
		if err := os.WriteFile(src, x.P.overlay[f], 0o644); err != nil {
			rr.err = err.Error()
			return
		}
		rep[f] = src
	}
	reg := filepath.Join(dir, "registry_test.go")
	harness := "harness_test.go"
	if pkg == "cmd" {
		harness = "cmd_test.go"
		os.WriteFile(reg, []byte(x.toolRegistry()), 0o644)
	} else {
		os.WriteFile(reg, []byte(x.registry()), 0o644)
	}
	rep[filepath.Join(pd, "zz_verif_registry_test.go")] = reg
	rep[filepath.Join(pd, "zz_verif_harness_test.go")] = filepath.Join(verif, "replay", harness)
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ov, b, 0o644)
	is, ss := x.P.dictionary()
	dict := filepath.Join(dir, "dict.json")
	b, _ = json.Marshal(map[string]any{"Ints": is, "Strs": ss})
	os.WriteFile(dict, b, 0o644)
	out := filepath.Join(dir, "out.txt")
	bin := filepath.Join(dir, "replay.test")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "VERIF_DICT="+dict, "VERIF_OUT="+out,
		"VERIF_CASES="+strings.Join(names, "\n"), fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_REPLAY_SEED=%d", only), fmt.Sprintf("VERIF_BUDGET=%g", budget))
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+pkg)
	cmd.Dir = repoDir
	cmd.Env = env
	if o, err := cmd.CombinedOutput(); err != nil {
		rr.err = "building the replay harness: " + tailOf(string(o), 2000)
		return
	}
	cmd = exec.Command(bin, "-test.run", "TestVerifReplay", "-test.timeout", fmt.Sprintf("%ds", int(budget)+120))
	cmd.Dir = dir
	cmd.Env = env
	o, _ := cmd.CombinedOutput()
	rr.output = tailOf(string(o), 4000)
	f, err := os.ReadFile(out)
	if err != nil {
		rr.err = "replay harness: " + rr.output
		return
	}
	for _, l := range strings.Split(string(f), "\n") {
		switch {
		case strings.HasPrefix(l, "FAIL "):
			var v Fail
			if json.Unmarshal([]byte(l[5:]), &v) == nil {
				rr.fails = append(rr.fails, v)
			}
		case strings.HasPrefix(l, "CASE "):
			var v struct {
				Case            string
				Tried, Compared int
			}
			if json.Unmarshal([]byte(l[5:]), &v) == nil {
				rr.cases[v.Case] = [2]int{v.Tried, v.Compared}
			}
		}
	}
	return
}

// ---------- the check command ----------

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func check(verif, prop, tier string) int {
	t0 := time.Now()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: map[string]any{}}
	violations := 0
	replayDir := filepath.Join(verif, "replays")
	os.MkdirAll(replayDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(replayDir, prop+"-*.txt"))
	for _, f := range old {
		os.Remove(f)
	}
	violation := func(input bool, text string) {
		violations++
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.txt", prop, violations))
		os.WriteFile(path, []byte(text), 0o644)
		suffix := ""
		if !input {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	}
	finish := func() int {
		ev.Wall = time.Since(t0).Seconds()
		ev.Violations = violations
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
		if violations > 0 {
			return 1
		}
		return 0
	}
	self, _ := os.Executable()
	cdir := filepath.Join(verif, "contracts")
	ev.Coverage["checker_cmd"] = fmt.Sprintf("bash check.sh %s %s", prop, tier)
	ev.Coverage["obligations"] = 0
	ev.Coverage["discharged"] = 0
	ev.Coverage["trusted_base"] = trustedBase
	P, err := loadProg(cdir)
	var x *Exec
	if err == nil {
		x, err = newExec(P, "z3-new", 20000)
	}
	if err != nil {
		fmt.Println("obligation failed: the contracts no longer fit the source:", err)
		violation(false, fmt.Sprintf("property %s\nThe contracts in %s no longer type-check against /repo's source, so no obligation about it can be discharged:\n%v\n", prop, cdir, err))
		return finish()
	}
	direct, all := x.closure(prop)
	isDirect := map[string]bool{}
	for _, c := range direct {
		isDirect[c.name] = true
	}
	var names []string
	for _, c := range all {
		if c.iface {
			continue
		}
		names = append(names, c.name)
	}
	budget, limit, smoke := 300, 560*time.Second, 8.0
	if tier == "thorough" {
		budget, limit, smoke = 1200, 3000*time.Second, 120
	}
	res := runContracts(self, cdir, "z3-new", names, budget, t0.Add(limit))
	var failed []string
	failText := map[string]string{}
	obls, disch, named, paths, queries, unknown := 0, 0, 0, 0, 0, 0
	stime := 0.0
	used, inl, trusted := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var under, deps []string
	// the contracts assumed for the bit reader and writer, on their own source
	for _, n := range names {
		for _, u := range res[n].Trusted {
			if strings.Contains(u, iobitPath) && !used[u] {
				used[u] = true
				deps = append(deps, depPrefix+u)
			}
		}
	}
	clear(used)
	sort.Strings(deps)
	for k, v := range runContracts(self, cdir, "z3-new", deps, budget, t0.Add(limit)) {
		res[k] = v
	}
	for _, n := range append(append([]string{}, names...), deps...) {
		r := res[n]
		relevant := 0
		var sb strings.Builder
		bad := r.Err != ""
		if bad {
			fmt.Fprintf(&sb, "contract %s could not be verified: %s\n", n, r.Err)
			obls++
		}
		for _, o := range r.Obls {
			mine := !isDirect[n] || strings.HasPrefix(n, depPrefix) || o.Kind == "vacuity" || o.Kind == "pre"
			for _, p := range o.Props {
				if p == prop {
					mine = true
				}
			}
			if o.Failed > 0 && isDirect[n] && !mine {
				// another property's obligation of a contract this one states:
				// what follows from the contract is gone too when its result or
				// its callers' view is affected
				switch class(o.Kind) {
				case "post", "err", "panic", "assert", "ensures-post":
					mine = true
				}
			}
			if !mine {
				continue
			}
			relevant++
			named++
			obls += o.Proved + o.Failed
			disch += o.Proved
			if o.Failed > 0 {
				bad = true
				fmt.Fprintf(&sb, "FAILED obligation %q (%d of %d instances)\n%s\n", o.Name, o.Failed, o.Failed+o.Proved, o.Detail)
			}
		}
		under = append(under, fmt.Sprintf("%s: %d named obligations, %d paths, %.2fs, %d queries", n, relevant, r.Paths, r.Wall, r.Queries))
		paths += r.Paths
		queries += r.Queries
		unknown += r.Unknown
		stime += r.Solver
		for _, u := range r.Used {
			used[u] = true
		}
		for _, u := range r.Inlined {
			inl[u] = true
		}
		for _, u := range r.Trusted {
			trusted[u] = true
		}
		if bad {
			failed = append(failed, n)
			failText[n] = sb.String()
		}
	}
	ev.Coverage["obligations"] = obls
	ev.Coverage["discharged"] = disch
	ev.Coverage["named_obligations"] = named
	ev.Coverage["functions_under_contract"] = under
	ev.Coverage["functions_inlined"] = sortedKeys(inl)
	ev.Coverage["contracts_used_at_call_sites"] = sortedKeys(used)
	ev.Coverage["paths"] = paths
	ev.Coverage["backend"] = fmt.Sprintf("z3-new: %d queries, %d unknown, %.2fs", queries, unknown, stime)
	ev.Coverage["solver_time_s"] = stime
	for _, d := range deps {
		delete(trusted, strings.TrimPrefix(d, depPrefix))
	}
	ev.Coverage["trusted_externals"] = sortedKeys(trusted)
	ev.Assumptions = assumptions
	if obls == 0 {
		fmt.Println("no obligations for", prop)
		violation(false, "no contract states this property any more\n")
		return finish()
	}
	if tier == "thorough" && len(failed) == 0 {
		// a second back end over the same obligations
		r2 := runContracts(self, cdir, "z3", names, budget, t0.Add(limit))
		ok, nok := 0, 0
		q, st := 0, 0.0
		for _, r := range r2 {
			for _, o := range r.Obls {
				ok += o.Proved
				nok += o.Failed
			}
			q += r.Queries
			st += r.Solver
		}
		ev.Coverage["cross_check"] = fmt.Sprintf("z3 4.8: %d instances discharged, %d not, %d queries, %.2fs", ok, nok, q, st)
	}
	// the concrete oracle: the failing contracts first and longest
	var rest []string
	isFailed := map[string]bool{}
	for _, n := range failed {
		isFailed[n] = true
	}
	for _, n := range names {
		if !isFailed[n] {
			rest = append(rest, n)
		}
	}
	var fails []Fail
	cases := map[string][2]int{}
	if len(failed) > 0 {
		rr := x.replay(verif, failed, seed, 0, 45)
		if rr.err != "" {
			fmt.Println(rr.err)
		}
		fails = rr.fails
		for k, v := range rr.cases {
			cases[k] = v
		}
	}
	if len(fails) == 0 {
		if len(failed) > 0 {
			smoke = 45
		}
		rr := x.replay(verif, rest, seed, 0, smoke)
		if rr.err != "" {
			fmt.Println(rr.err)
		}
		fails = rr.fails
		for k, v := range rr.cases {
			cases[k] = v
		}
	}
	var conc []string
	tried, compared := 0, 0
	for _, n := range names {
		if v, ok := cases[n]; ok {
			tried += v[0]
			compared += v[1]
			conc = append(conc, fmt.Sprintf("%s: %d inputs, %d in the specification's domain", n, v[0], v[1]))
		}
	}
	ev.Coverage["concrete_oracle"] = map[string]any{"note": "the same contracts run on generated inputs against the compiled code; not counted as proof", "inputs": tried, "compared": compared, "per_contract": conc}
	if len(fails) == 0 && len(failed) == 0 {
		for _, l := range findings(verif, prop) {
			fmt.Println(l)
		}
		fmt.Printf("%s: %d obligations discharged over %d contracts (%.1fs)\n", prop, disch, len(names), time.Since(t0).Seconds())
		return finish()
	}
	// An unexported helper that now does something else is only a violation when
	// it shows from outside: look there for an input first.
	helper := map[string]bool{}
	for _, c := range x.all {
		helper[c.name] = c.helper()
	}
	var inner, outer []Fail
	for _, f := range fails {
		if helper[f.Case] {
			inner = append(inner, f)
		} else {
			outer = append(outer, f)
		}
	}
	if len(outer) == 0 && len(inner) > 0 {
		var open []string
		for _, n := range names {
			if !helper[n] {
				open = append(open, n)
			}
		}
		outer = x.replay(verif, open, seed+1, 0, 60).fails
		for _, f := range inner {
			var sb strings.Builder
			fmt.Fprintf(&sb, "the helper %s differs from its contract: %s\n", f.Case, f.What)
			for i, a := range f.Args {
				fmt.Fprintf(&sb, "  argument %d: %s\n", i, a)
			}
			fmt.Fprintf(&sb, "rerun: bash /verif/check.sh replay %q %d\n", f.Case, f.Seed)
			if failText[f.Case] == "" {
				failed = append(failed, f.Case)
			}
			failText[f.Case] = sb.String() + failText[f.Case]
		}
	}
	fails = outer
	done := map[string]bool{}
	for _, f := range fails {
		if done[f.Case] {
			continue
		}
		done[f.Case] = true
		var sb strings.Builder
		fmt.Fprintf(&sb, "property: %s\ncontract: %s\nwhat fails: %s\ninput:\n", prop, f.Case, f.What)
		for i, a := range f.Args {
			fmt.Fprintf(&sb, "  argument %d: %s\n", i, a)
		}
		fmt.Fprintf(&sb, "rerun against the real code: bash /verif/check.sh replay %q %d\n\n%s", f.Case, f.Seed, failText[f.Case])
		for _, n := range failed {
			if n != f.Case {
				sb.WriteString(failText[n])
			}
		}
		fmt.Printf("%s: %s\n", f.Case, f.What)
		violation(true, sb.String())
	}
	if len(fails) == 0 {
		for _, n := range failed {
			fmt.Print(firstLine(failText[n]))
			violation(false, fmt.Sprintf("property: %s\nno failing input was found; the verifier's output:\n\n%s", prop, failText[n]))
		}
	}
	return finish()
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i+1]
	}
	return s
}

// findings: the recorded defects of the unchanged code, for this property.
func findings(verif, prop string) (out []string) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return
}

const depPrefix = "dependency "

var trustedBase = []string{
	"govc (/verif/govc): the translation of Go SSA to verification conditions, its term simplifier, and the loop coupling rule",
	"golang.org/x/tools/go/ssa and the Go type checker (SSA of the compiled source; int ranges are rewritten to three-clause loops first)",
	"z3 5.3 (z3-new)",
	"contracts assumed for external functions (listed under trusted_externals): encoding/base64, encoding/hex, strconv, strings, fmt, x/text charmap, time, log; that github.com/bamiaux/iobit's functions, whose bodies are proved against their contracts, are put to use as those contracts say (the same view of reader and writer as tape and position)",
	"for documents: encoding/json and encoding/xml as modelled in marshal.go and markup.go (reading struct tags, interfaces and field types from the real source)",
	"for the command line tool: cobra's dispatch to RunE, pflag, os.Stdin/Stdout/Exit as modelled in tool.go",
}
var assumptions = []string{
	"slices and strings are shorter than 2^48 bytes",
	"arguments do not alias each other; a caller's interface values hold the package's own pointer types, non-nil",
	"memory allocation succeeds; no concurrent writer changes an argument during the call",
}

var _ = token.NoPos
