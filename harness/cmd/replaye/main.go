// Command replay runs harnesses natively on recorded inputs: one JSON request per input line, one JSON
// answer per output line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"verifharness/he"
	"verifharness/sym"
)

type request struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []sym.Input    `json:"inputs"`
}

type answer struct {
	Status string   `json:"status"` // ok, assert, assume, panic
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

func run(r request) (a answer) {
	a.Status = "ok"
	sym.Start(r.Inputs, r.Params)
	f := he.All[r.Harness]
	if f == nil {
		return answer{Status: "error", Msg: "no harness " + r.Harness}
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case sym.AssertFailed:
				a.Status, a.Msg = "assert", x.Msg
			case sym.AssumeFailed:
				a.Status = "assume"
			default:
				a.Status, a.Msg = "panic", fmt.Sprint(e)
			}
		}
		obs, cov := sym.Results()
		a.Obs = obs
		for c := range cov {
			a.Covers = append(a.Covers, c)
		}
		sort.Strings(a.Covers)
	}()
	f()
	return
}

func main() {
	sym.RaceCheck = os.Getenv("VERIF_RACE") != ""
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for {
		var r request
		if err := dec.Decode(&r); err != nil {
			break
		}
		enc.Encode(run(r))
		out.Flush()
	}
}
