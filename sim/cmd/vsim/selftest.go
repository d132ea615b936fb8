package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sync"

	rt "vsim/simrt"
)

// runSelftest checks the simulator itself: every configuration is executed
// several times and must give byte-identical results (schedule hash, output,
// files, operations), and replaying a recorded schedule must give the same
// execution again.
func runSelftest(seed int64, n int) int {
	if n <= 0 {
		n = 40
	}
	tmp := scratch()
	defer os.RemoveAll(tmp)
	e := &Exec{tmp: tmp, tally: newTally()}
	e.prog = buildProg(tmp, false)
	var mu sync.Mutex
	bad := 0
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			r := NewRng(uint64(seed)*7919+uint64(i), "selftest")
			w := genWad(r, genOpt{maxLevels: 3, odd: true, hexen: 0.2})
			o := genOptions(r, optGen{multitree: 0.2, endgoal: 0.2, noRebuild: true, rejectZ: true, verbose: 0.2})
			o.Out = "out.wad"
			run := vary(r, o, "a")
			cfg := run.config([]rt.FileSpec{{Path: "/w/in.wad", Data: w.Bytes()}})
			cfg.WantOps, cfg.WantState, cfg.MaxTicks = true, true, 1500000000
			var first []byte
			for k := 0; k < 3; k++ {
				b, _ := json.Marshal(e.Run(cfg))
				if k == 0 {
					first = b
				} else if !bytes.Equal(first, b) {
					mu.Lock()
					bad++
					fmt.Printf("seed %d: not deterministic (%v)\n", i, run)
					mu.Unlock()
				}
			}
			cfg.WantTrace = true
			if v := os.Getenv("VSIM_SHOW"); v != "" {
				x := e.Run(cfg)
				if x.How != "return" || x.Exit != 0 {
					fmt.Printf("seed %d: %v: %s\n   %s\n", i, run.Args, describe(x), x.Stdout)
				}
			}
			a := e.Run(cfg)
			cfg.Trace = a.Trace
			b := e.Run(cfg)
			if a.Hash != b.Hash || a.Stdout != b.Stdout || a.How != b.How || !bytes.Equal(file(a, "/w/out.wad"), file(b, "/w/out.wad")) {
				mu.Lock()
				bad++
				if d := os.Getenv("VSIM_DUMP"); d != "" {
					os.WriteFile(d+".a", []byte(fmt.Sprintf("%s %+v\n%s\n%v\n%s", a.Policy, a.Stats, a.Stdout, a.Ops, traceJSON(a))), 0666)
					os.WriteFile(d+".b", []byte(fmt.Sprintf("%s %+v\n%s\n%v\n%s", b.Policy, b.Stats, b.Stdout, b.Ops, traceJSON(b))), 0666)
				}
				fmt.Printf("seed %d: recorded schedule does not replay: %s/%s %s %s %v\n", i, a.Hash, b.Hash, a.How, b.How, run)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	fmt.Printf("selftest: %d configurations, %d runs, %d bad, ends %v\n", n, e.tally.Runs, bad, e.tally.Ends)
	if bad > 0 {
		return 3
	}
	return 0
}

func traceJSON(r *rt.Result) string { b, _ := json.Marshal(r.Trace); return string(b) }
