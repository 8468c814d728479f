package main

// gosym check: decides one property by exploring its harnesses on /repo's current tree, replays what it
// finds against the compiled code and writes the evidence file.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type runSpec struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Tier    string         `json:"tier"` // "" both, "quick" or "thorough" only
	Expect  []string       `json:"expect"`
	Bound   string         `json:"bound"`
}

type propSpec struct {
	Package     string    `json:"package"` // harness package, default ./h
	Runs        []runSpec `json:"runs"`
	Outside     []string  `json:"outside"`
	Assumptions []string  `json:"assumptions"`
}

type natReq struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []natInput     `json:"inputs"`
}

type natInput struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
}

type natAns struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

func goEnv(cgo string) []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local",
		"CGO_ENABLED="+cgo)
}

// etcOverlay presents the files of /repo/etc, a main package, as an importable package of the harness module.
func etcOverlay(dir string) map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob("/repo/etc/*.go")
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		lines := strings.SplitAfter(string(b), "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "package main") {
				lines[i] = "package etcx\n"
				break
			}
		}
		out[filepath.Join(dir, "etcx", "repo_"+filepath.Base(f))] = []byte(strings.Join(lines, ""))
	}
	return out
}

type native struct {
	tmp  string
	bin  string
	race string
	dir  string
	ov   string
	cmd  string
}

func newNative(dir, pkg string, overlay map[string][]byte) (*native, error) {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	n := &native{tmp: tmp, dir: dir, cmd: "./cmd/replay"}
	if pkg != "./h" {
		n.cmd = "./cmd/replay" + strings.TrimPrefix(pkg, "./h")
	}
	if len(overlay) > 0 {
		rep := map[string]string{}
		i := 0
		for f, b := range overlay {
			p := filepath.Join(tmp, fmt.Sprintf("ov%d.go", i))
			i++
			if err := os.WriteFile(p, b, 0o644); err != nil {
				return nil, err
			}
			rep[f] = p
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		n.ov = filepath.Join(tmp, "overlay.json")
		if err := os.WriteFile(n.ov, b, 0o644); err != nil {
			return nil, err
		}
	}
	n.bin, err = n.build(false)
	return n, err
}

func (n *native) build(race bool) (string, error) {
	out := filepath.Join(n.tmp, "replay")
	args := []string{"build"}
	cgo := "0"
	if race {
		out += "-race"
		args = append(args, "-race")
		cgo = "1"
	}
	if n.ov != "" {
		args = append(args, "-overlay", n.ov)
	}
	c := exec.Command("go", append(args, "-o", out, n.cmd)...)
	c.Dir = n.dir
	c.Env = goEnv(cgo)
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

func (n *native) close() { os.RemoveAll(n.tmp) }

// run executes the requests in one process; answers stop early if it dies or hangs.
func (n *native) run(bin string, env []string, timeout time.Duration, reqs ...natReq) (ans []natAns, hang bool, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Env = append(os.Environ(), env...)
	c.Env = append(c.Env, "GOMEMLIMIT=6GiB")
	var in, out, errb bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		in.Write(b)
		in.WriteByte('\n')
	}
	c.Stdin, c.Stdout, c.Stderr = &in, &out, &errb
	err := c.Run()
	dec := json.NewDecoder(&out)
	for {
		var a natAns
		if dec.Decode(&a) != nil {
			break
		}
		ans = append(ans, a)
	}
	stderr = errb.String()
	if len(stderr) > 3000 {
		stderr = stderr[:3000]
	}
	if err != nil && stderr == "" {
		stderr = err.Error()
	}
	return ans, ctx.Err() != nil, stderr
}

// fails replays one input and tells how the compiled code breaks the property; "" if it does not.
func (n *native) fails(r natReq, msg string) string {
	ans, hang, errs := n.run(n.bin, nil, 20*time.Second, r)
	switch {
	case hang:
		return "does not terminate within 20 s"
	case len(ans) == 0:
		return "crash: " + firstLines(errs, 6)
	case ans[0].Status == "assert":
		return "assertion: " + ans[0].Msg
	case ans[0].Status == "panic":
		return "panic: " + ans[0].Msg
	}
	if strings.HasPrefix(msg, "FROZEN") {
		if n.race == "" {
			b, err := n.build(true)
			if err != nil {
				return ""
			}
			n.race = b
		}
		ans, _, errs = n.run(n.race, []string{"VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66"}, 60*time.Second, r)
		if strings.Contains(errs, "DATA RACE") {
			return "data race: " + firstLines(errs, 12)
		}
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func toReq(h *Harness, ins []inputRec) natReq {
	r := natReq{Harness: h.Name, Params: h.Params}
	for _, i := range ins {
		r.Inputs = append(r.Inputs, natInput{i.Name, i.W, i.Val})
	}
	return r
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	root := fs.String("root", "/verif", "verification directory")
	workers := fs.Int("j", 8, "workers")
	budgetS := fs.Int("budget", 0, "seconds")
	only := fs.String("only", "", "name=value: only the runs with that parameter (development)")
	fs.Parse(args)
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	debug.SetGCPercent(300)
	budget := 300 * time.Second
	if *tier == "thorough" {
		budget = 720 * time.Second
	}
	if *budgetS > 0 {
		budget = time.Duration(*budgetS) * time.Second
	}

	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var specs map[string]*propSpec
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	spec := specs[*prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		return 2
	}
	if spec.Package == "" {
		spec.Package = "./h"
	}
	ev := newEvidence(*root, *prop, *tier, seed)
	dir := filepath.Join(*root, "harness")
	var overlay map[string][]byte
	if spec.Package == "./he" {
		overlay = etcOverlay(dir)
	}
	type natRes struct {
		n   *native
		err error
	}
	natC := make(chan natRes, 1)
	go func() {
		n, err := newNative(dir, spec.Package, overlay)
		natC <- natRes{n, err}
	}()
	p, err := loadProgram(dir, spec.Package, overlay)
	nr := <-natC
	if nr.n != nil {
		defer nr.n.close()
	}
	if err == nil {
		err = nr.err
	}
	if err != nil {
		// the harness does not fit this tree: nothing was decided
		fmt.Println("NOT DECIDED: the harness cannot be built against this tree:", firstLines(err.Error(), 8))
		ev.cov["undecided"] = "harness could not be built: " + firstLines(err.Error(), 8)
		ev.cov["states"], ev.cov["transitions"], ev.cov["traces_validated_against_impl"] = 0, 0, 0
		ev.cov["samples"] = []string{}
		ev.write(start, 0)
		return 0
	}
	nat := nr.n

	var phases [2][]*Harness
	specOf := map[*Harness]runSpec{}
	for _, r := range spec.Runs {
		if r.Tier != "" && r.Tier != *tier {
			continue
		}
		if k, v, ok := strings.Cut(*only, "="); ok && strconv.Itoa(r.Params[k]) != v {
			continue
		}
		fn := p.hpkg.Func(r.Harness)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.Harness)
			return 2
		}
		h := &Harness{Name: r.Harness, Params: r.Params, fn: fn}
		if h.Params == nil {
			h.Params = map[string]int{}
		}
		specOf[h] = r
		if r.Tier == "thorough" {
			phases[1] = append(phases[1], h)
		} else {
			phases[0] = append(phases[0], h)
		}
	}
	d := newDriver(p, *workers, "own+z3-new")
	var natMu sync.Mutex
	d.confirm = func(h *Harness, v *Violation) bool {
		natMu.Lock()
		defer natMu.Unlock()
		return nat.fails(toReq(h, v.Inputs), v.Msg) != ""
	}
	deadline := start.Add(budget)
	var hs []*Harness
	for _, ph := range phases {
		if len(ph) == 0 {
			continue
		}
		hs = append(hs, ph...)
		d.run(ph, time.Until(deadline), seed)
		bad := false
		for _, h := range ph {
			bad = bad || len(h.Violations) > 0
		}
		if bad {
			break
		}
	}

	// replay: violations first, then the inputs of paths the engine could not finish, then samples
	type conf struct {
		h   *Harness
		req natReq
		msg string
		how string
	}
	var confirmed []conf
	unconfirmed := 0
	var unconfText []string
	cut := 0
	for _, h := range hs {
		got := 0
		for _, v := range h.Violations {
			if got >= 2 {
				break
			}
			r := toReq(h, v.Inputs)
			if how := nat.fails(r, v.Msg); how != "" {
				confirmed = append(confirmed, conf{h, r, v.Msg, how})
				got++
			} else {
				unconfirmed++
				unconfText = append(unconfText, h.Name+": "+v.Msg)
			}
		}
	}
	if len(confirmed) == 0 {
		for _, h := range hs {
			for _, c := range h.Cut {
				cut++
				r := toReq(h, c.Inputs)
				if how := nat.fails(r, ""); how != "" {
					confirmed = append(confirmed, conf{h, r, "on a path the engine gave up on (" + firstLines(c.Covers[0], 1) + ")", how})
					break
				}
			}
		}
	}
	validated, mismatches := 0, 0
	var mmText []string
	if len(confirmed) == 0 {
		for _, h := range hs {
			var reqs []natReq
			for _, s := range h.Samples {
				reqs = append(reqs, toReq(h, s.Inputs))
			}
			for k := 0; k < len(reqs); {
				ans, _, errs := nat.run(nat.bin, nil, 120*time.Second, reqs[k:]...)
				for i, a := range ans {
					s := h.Samples[k+i]
					if a.Status == "assert" || a.Status == "panic" {
						if how := nat.fails(reqs[k+i], ""); how != "" {
							confirmed = append(confirmed, conf{h, reqs[k+i], "sampled path fails when compiled", how})
						}
						continue
					}
					if a.Status == "ok" && equalS(a.Obs, s.Obs) && equalS(a.Covers, s.Covers) {
						validated++
					} else {
						mismatches++
						if len(mmText) < 5 {
							mmText = append(mmText, fmt.Sprintf("%s %v: native %s %s %v %v, symbolic %v %v", h.Name, reqs[k+i].Inputs, a.Status, a.Msg, a.Obs, a.Covers, s.Obs, s.Covers))
						}
					}
				}
				k += len(ans)
				if k < len(reqs) { // the process ended on this one
					if how := nat.fails(reqs[k], ""); how != "" {
						confirmed = append(confirmed, conf{h, reqs[k], "sampled path fails when compiled", how + errs})
					} else {
						mismatches++
					}
					k++
				}
			}
		}
	}

	// evidence
	var states, incomplete, dropped, assertsT, assertsS, branches int
	var steps int64
	var perH []map[string]interface{}
	complete := true
	var samples []interface{}
	for _, h := range hs {
		states += h.Paths + h.Assumed
		steps += h.Steps
		incomplete += h.Incomplete
		dropped += h.Dropped
		assertsT += h.AssertTriv
		assertsS += h.AssertSMT
		branches += h.Branches
		m := map[string]interface{}{"harness": h.Name, "params": h.Params, "bound": specOf[h].Bound, "paths": h.Paths,
			"paths_ended_by_assumption": h.Assumed, "instructions": h.Steps, "symbolic_branches_decided": h.Branches,
			"assertions_by_solver": h.AssertSMT, "assertions_constant": h.AssertTriv, "covers": h.Covers,
			"complete": h.Incomplete == 0 && h.Dropped == 0 && len(h.Notes) == 0}
		if h.Incomplete > 0 || h.Dropped > 0 || len(h.Notes) > 0 {
			complete = false
			m["paths_given_up"] = h.Incomplete
			m["paths_not_reached_in_time"] = h.Dropped
			m["notes"] = h.Notes
		}
		var miss []string
		for _, e := range specOf[h].Expect {
			if h.Covers[e] == 0 {
				miss = append(miss, e)
			}
		}
		if len(miss) > 0 {
			m["situations_not_reached"] = miss
		}
		perH = append(perH, m)
		for i, s := range h.Samples {
			if i >= 2 || len(samples) >= 12 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": h.Name, "params": h.Params, "inputs": showInputs(s.Inputs), "observed": s.Obs, "covers": s.Covers})
		}
	}
	var fns []string
	for f := range d.funcs {
		if strings.Contains(f, "go-trees") || strings.Contains(f, "etcx") {
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	c := ev.cov
	c["states"] = states
	c["transitions"] = steps
	c["traces_validated_against_impl"] = validated
	c["samples"] = samples
	c["exhaustive"] = complete
	c["explanation"] = "states: symbolic paths explored to their end, each standing for all inputs that take it; transitions: SSA instructions of the real code and the harness executed on symbolic values; traces: sampled paths whose concrete inputs were run through the compiled code with the same observations"
	c["harness_runs"] = perH
	c["functions_encoded"] = fns
	c["assertions_decided_by_solver"] = assertsS
	c["assertions_decided_by_simplification"] = assertsT
	c["symbolic_branches"] = branches
	c["queries"] = map[string]interface{}{"total": d.smt.Queries, "sat": d.smt.Sat, "unsat": d.smt.Unsat, "unknown": d.smt.Unknown,
		"solver_s": round(d.smt.Time), "longest_s": round(d.smt.Max), "conflicts": d.smt.Confl,
		"cross_checked_with_z3": d.smt.Cross, "cross_check_s": round(d.smt.CrossTime), "errors": d.smt.Errors}
	c["paths_given_up"] = incomplete
	c["paths_not_reached_in_time"] = dropped
	c["given_up_inputs_run_natively"] = cut
	c["counterexamples_not_reproduced"] = unconfirmed
	if unconfirmed > 0 {
		c["counterexamples_not_reproduced_text"] = unconfText
	}
	c["validation_mismatches"] = mismatches
	if mismatches > 0 {
		c["validation_mismatch_examples"] = mmText
	}
	c["outside_the_bounds"] = spec.Outside
	if len(d.errs) > 0 {
		c["engine_errors"] = d.errs
	}
	ev.assumptions = append(ev.assumptions, spec.Assumptions...)
	ev.write(start, len(confirmed))

	fmt.Printf("property %s (%s): %d runs, %d paths, %d instructions, %d queries (%.1f s solver), %d assertions by solver, %d by simplification; %d traces validated, %d mismatches; %s; %.1f s\n",
		*prop, *tier, len(hs), states, steps, d.smt.Queries, d.smt.Time.Seconds(), assertsS, assertsT, validated, mismatches,
		map[bool]string{true: "complete within the bounds", false: fmt.Sprintf("REDUCED BOUND: %d paths given up, %d not reached in time", incomplete, dropped)}[complete], time.Since(start).Seconds())
	for _, h := range hs {
		for k, v := range h.Notes {
			fmt.Printf("  note %s: %s (%d)\n", h.Name, k, v)
		}
		for _, e := range specOf[h].Expect {
			if h.Covers[e] == 0 {
				fmt.Printf("  note %s %v: situation %q not reached\n", h.Name, h.Params, e)
			}
		}
	}
	for _, t := range append(mmText, unconfText...) {
		fmt.Println("  note:", t)
	}
	for _, e := range append(d.errs, d.smt.Errors...) {
		fmt.Println("  note:", e)
	}
	if len(confirmed) == 0 {
		return 0
	}
	x := confirmed[0]
	rp := filepath.Join(*root, "evidence", *prop+"-replay.json")
	out, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "harness": x.req.Harness, "params": x.req.Params,
		"inputs": x.req.Inputs, "symbolic": x.msg, "native": x.how,
		"how_to_replay": "cd /verif/harness && jq -c '{harness,params,inputs}' " + rp + " | GOFLAGS=-mod=mod go run " + nat.cmd}, "", " ")
	os.WriteFile(rp, append(out, '\n'), 0o644)
	fmt.Printf("%s %v: %s\n  compiled code: %s\n  inputs: %v\n", x.h.Name, x.h.Params, x.msg, x.how, showInputs(inRecs(x.req.Inputs)))
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	return 1
}

func inRecs(in []natInput) (out []inputRec) {
	for _, i := range in {
		out = append(out, inputRec{Name: i.Name, W: i.W, Val: i.Val})
	}
	return
}

func showInputs(in []inputRec) []string {
	out := []string{}
	for _, i := range in {
		out = append(out, fmt.Sprintf("%s=0x%x", i.Name, i.Val))
	}
	return out
}

func equalS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

type evidence struct {
	path, prop, tier string
	seed             int64
	cov              map[string]interface{}
	assumptions      []string
}

func newEvidence(root, prop, tier string, seed int64) *evidence {
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	return &evidence{path: filepath.Join(root, "evidence", prop+".json"), prop: prop, tier: tier, seed: seed,
		cov: map[string]interface{}{}}
}

func (e *evidence) write(start time.Time, viol int) {
	if e.assumptions == nil {
		e.assumptions = []string{}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"property": e.prop, "tier": e.tier, "seed": e.seed,
		"level": "model_checking", "coverage": e.cov, "assumptions": e.assumptions, "wall_s": round(time.Since(start)),
		"violations": viol}, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(e.path, append(b, '\n'), 0o644)
}
