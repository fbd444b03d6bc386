package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

// cmdReport verifies once, without any search, and prints what is not
// discharged before and after contracts of helpers are dropped.
func cmdReport(sp *Spec) {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	t0 := time.Now()
	pr := NewProver("z3-new", runtime.GOMAXPROCS(0))
	defer pr.Close()
	watchMemory(9 << 30)
	initViews(sp)
	m, err := LoadModule(sp, repo, pr)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	v := &Verification{m: m}
	v.cs = LoadContracts(sp, verifDir+"/contracts")
	v.missing = m.bindContracts(v.cs)
	v.rebound = m.renamed
	end := time.Now().Add(400 * time.Second)
	pr.stop = func() bool { return aborted.Load() || time.Now().After(end) }
	var names []string
	for _, c := range v.cs {
		names = append(names, c.uses...)
	}
	proveLemmas(pr, append(names, "mdStep"))
	v.run()
	show := func(n string) {
		f := v.failed()
		own := map[string]bool{}
		for _, o := range f {
			for p := range owners(o) {
				own[p] = true
			}
		}
		fmt.Printf("%s: %d failed of %d, %.1f s, %v\n", n, len(f), len(v.obs()), time.Since(t0).Seconds(), sortedStr(own))
		for k, o := range f {
			if k < 12 {
				fmt.Println("   ", o.Name(), o.How)
			}
		}
	}
	if len(m.initErr) > 0 || len(v.missing) > 0 || len(v.rebound) > 0 {
		fmt.Println("init:", m.initErr, "missing:", strings.Join(v.missing, "; "), "rebound:", v.rebound)
	}
	show("FIRST")
	if len(v.failed()) > 0 {
		fmt.Println("demotion proves all:", v.demote(pr.stop))
		fmt.Println("demoted", v.demoted)
		show("DEMOTED")
	}
}
