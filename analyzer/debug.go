package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func debugMain() {
	if f := os.Getenv("SVB_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(3) }()
	}
	t := time.Now()
	p, err := Load(repoRoot(), "amd64", "./pkg/...")
	if err != nil {
		fmt.Println(err)
		return
	}
	var inits []string
	for _, x := range p.libPaths() {
		if p.spkgs[x].Pkg.Name() != "main" {
			inits = append(inits, x)
		}
	}
	w := NewWorld(p, inits)
	w.LoadAsm()
	if w.asm == nil {
		fmt.Println("no asm")
	}
	fmt.Println(len(w.cases), w.findings, w.steps, time.Since(t))
	cnt := int64(-1)
	if len(os.Args) > 2 {
		fmt.Sscan(os.Args[2], &cnt)
	}
	if len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "stream:") {
		for _, s := range w.streams() {
			if !strings.Contains(s.fn.Name(), os.Args[1][7:]) {
				continue
			}
			for ci := range w.cases {
				t := time.Now()
				r := w.runStream(s, ci, cnt)
				fmt.Println(s.fn.Name(), r.start, "obl", r.obl, "bounds", r.bounds, "gen", r.generalised, "unr", r.unrolled, "contracts", r.contracts, "asm", r.asm, r.asmBnds, "outc", r.outcomes, "steps", r.steps, time.Since(t))
				for _, f := range r.findings {
					fmt.Println("   ", f)
				}
			}
		}
		return
	}
	var fns []*ssa.Function
	for _, x := range inits {
		fns = append(fns, p.funcsOf(p.spkgs[x])...)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	for _, f := range fns {
		if len(os.Args) > 1 && !strings.Contains(f.RelString(nil), os.Args[1]) {
			continue
		}
		k := w.kernel(f)
		if k == nil {
			continue
		}
		t := time.Now()
		w.verifyKernel(k)
		fmt.Println(f.RelString(nil), k.desc(), "asm", k.asm, "ok", k.ok, "exact", k.exact, k.how, k.runs, k.obl, time.Since(t))
		for _, x := range k.findings {
			fmt.Println("   ", x)
		}
	}
}
