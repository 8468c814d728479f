package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym explore|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "explore":
		explore(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// explore runs single harnesses and prints what was found (development aid).
func explore(args []string) {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	dir := fs.String("dir", "/verif/harness", "harness module")
	pkg := fs.String("pkg", "./h", "harness package")
	n := fs.Int("j", 8, "workers")
	solver := fs.String("solver", "own+z3-new", "solver")
	budget := fs.Duration("t", time.Minute, "time budget")
	verbose := fs.Bool("v", false, "print paths")
	params := fs.String("p", "", "k=v,...")
	fs.Parse(args)
	pm := map[string]int{}
	for _, kv := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			pm[k], _ = strconv.Atoi(v)
		}
	}
	t0 := time.Now()
	p, err := loadProgram(*dir, *pkg, etcOverlay(*dir))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	var hs []*Harness
	for _, name := range fs.Args() {
		fn := p.hpkg.Func(name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no harness", name)
			os.Exit(2)
		}
		hs = append(hs, &Harness{Name: name, fn: fn, Params: pm})
	}
	d := newDriver(p, *n, *solver)
	d.verbose = *verbose
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 = time.Now()
	d.run(hs, *budget, 1)
	for _, h := range hs {
		h.print()
	}
	fmt.Printf("total %v; %d queries (%d sat, %d unsat, %d unknown), solver time %v, max %v, %d terms; errors %v %v\n",
		time.Since(t0).Round(time.Millisecond), d.smt.Queries, d.smt.Sat, d.smt.Unsat, d.smt.Unknown,
		d.smt.Time.Round(time.Millisecond), d.smt.Max.Round(time.Millisecond), d.smt.Terms, d.smt.Errors, d.errs)
	fmt.Printf("cross-checked %d in %v; %d conflicts\n", d.smt.Cross, d.smt.CrossTime.Round(time.Millisecond), d.smt.Confl)
	for k := range d.initN {
		fmt.Println("init:", k)
	}
}

func (h *Harness) print() {
	fmt.Printf("%s: paths %d assumed %d incomplete %d dropped %d branches %d asserts %d+%d steps %d merges %d conc %d maxpc %d span %v\n",
		h.Name, h.Paths, h.Assumed, h.Incomplete, h.Dropped, h.Branches, h.AssertTriv, h.AssertSMT, h.Steps, h.Merges,
		h.Conc, h.MaxPC, h.last.Sub(h.first).Round(time.Millisecond))
	var ks []string
	for k := range h.Covers {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  cover %s: %d\n", k, h.Covers[k])
	}
	ks = nil
	for k := range h.Notes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  note %s: %d\n", k, h.Notes[k])
	}
	for _, v := range h.Violations {
		fmt.Printf("  VIOLATION %s\n", v.Msg)
		for _, i := range v.Inputs {
			fmt.Printf("      %s = %d (0x%x)\n", i.Name, i.Val, i.Val)
		}
	}
}
