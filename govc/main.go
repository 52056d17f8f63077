package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker":
			fs := flag.NewFlagSet("worker", flag.ExitOnError)
			contracts := fs.String("contracts", "/verif/contracts", "")
			solver := fs.String("solver", "z3-new", "")
			budget := fs.Int("budget", 300, "")
			fs.Parse(os.Args[2:])
			os.Exit(worker(*contracts, *solver, *budget))
		case "iobit":
			P, err := loadProg("/verif/contracts")
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
			for _, u := range iobitUnits {
				if len(os.Args) > 2 && !strings.Contains(u, os.Args[2]) {
					continue
				}
				t0 := time.Now()
				os_, st, q, known, err := iobitUnit(P, u)
				bad := 0
				for _, o := range os_ {
					if o.Failed > 0 {
						bad++
						fmt.Println("FAIL", o.Name, o.Kind, o.Detail)
					}
				}
				fmt.Println(u, known, len(os_), "obligations,", bad, "open,", q, "queries", st, time.Since(t0), err)
			}
			os.Exit(0)
		case "check":
			// govc check VERIF PROP TIER
			os.Exit(check(os.Args[2], os.Args[3], os.Args[4]))
		case "replay":
			os.Exit(rerun(os.Args[2], os.Args[3], os.Args[4]))
		}
	}
	dev()
}

// rerun one generated input: govc replay VERIF CASE SEED
func rerun(verif, name, seed string) int {
	P, err := loadProg(verif + "/contracts")
	if err != nil {
		fmt.Println(err)
		return 1
	}
	x, err := newExec(P, "z3-new", 5000)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	n, _ := strconv.ParseInt(seed, 10, 64)
	rr := x.replay(verif, []string{name}, 1, n, 5)
	if rr.err != "" {
		fmt.Println(rr.err)
		return 1
	}
	for _, f := range rr.fails {
		fmt.Printf("%s: %s\n", f.Case, f.What)
		for i, a := range f.Args {
			fmt.Printf("  argument %d: %s\n", i, a)
		}
		return 1
	}
	fmt.Println("agrees with its contract")
	return 0
}

func dev() {
	var fn, contracts string
	var budget int
	flag.StringVar(&fn, "fn", "", "verify contracts whose name contains this")
	flag.StringVar(&contracts, "contracts", "/verif/contracts", "contract directory")
	flag.StringVar(&repoDir, "repo", repoDir, "repository")
	flag.BoolVar(&debug, "debug", false, "")
	flag.IntVar(&budget, "budget", 120, "seconds per contract")
	smtlog := flag.String("smtlog", "", "")
	flag.Parse()
	P, err := loadProg(contracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	x := NewExec(P, func(tb *TB) *Solver { return NewSolver(tb, 5000, "z3-new", "-in") })
	if *smtlog != "" {
		f, _ := os.Create(*smtlog)
		x.sv.log = f
	}
	if err := x.initProgram(); err != nil {
		fmt.Println("init:", err)
		os.Exit(2)
	}
	if err := x.loadContracts(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, c := range x.all {
		if !strings.Contains(c.name, fn) {
			continue
		}
		if c.broken != "" || c.fn == nil && !c.lemma {
			fmt.Println("==", c.name, "BROKEN", c.broken)
			continue
		}
		r := x.verify(c, time.Duration(budget)*time.Second)
		fmt.Printf("== %s: %d obligations, %d paths, %.2fs, %d queries (%.2fs, %d unknown) %s\n", c.name, len(r.obls), r.paths, r.wall.Seconds(), r.queries, r.stime.Seconds(), r.unknown, r.err)
		for _, o := range r.obls {
			s := "ok"
			if o.Failed > 0 {
				s = "FAILED"
			}
			if debug || o.Failed > 0 {
				fmt.Printf("   %-6s %s (%d/%d)\n", s, o.Name, o.Proved, o.Proved+o.Failed)
			}
		}
	}
	x.sv.Close()
	if statFile != "" {
		os.WriteFile(statFile, []byte(strings.Join(stats, "\n")), 0o644)
	}
}
