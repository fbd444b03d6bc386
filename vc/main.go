package main

import (
	"fmt"
	"os"
	"time"
)

func main() {
	sp := LoadSpec("/verif/spec")
	if os.Args[1] == "eval" {
		ev := NewEv()
		v := ev.Call(sp.Defs["parse"], os.Args[2], os.Args[3])
		fmt.Println(valString(v), ev.steps)
		return
	}
	if os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2]))
	}
	if os.Args[1] == "lemmas" {
		cmdLemmas(sp, os.Args[2:])
		return
	}
	if os.Args[1] == "wf" {
		pr := NewProver("z3-new", 8)
		for _, l := range proveLemmas(pr, wfLemmas) {
			if !l.Ok {
				fmt.Println("LEMMA FAILED", l.Name)
			}
		}
		bad := 0
		obs := sp.wellFounded(pr)
		for _, o := range obs {
			if !o.Ok {
				bad++
				fmt.Println("NOT", o.Fn, o.Label)
			}
		}
		fmt.Println(len(obs), "cycles,", bad, "not shown")
		return
	}
	if os.Args[1] == "prints" {
		initViews(sp)
		m, err := LoadModule(sp, "/repo", NewProver("z3-new", 1))
		if err == nil {
			m.bindContracts(LoadContracts(sp, "/verif/contracts"))
			err = m.writePrints()
		}
		fmt.Println(err)
		return
	}
	if os.Args[1] == "verify" {
		repo := os.Getenv("REPO")
		if repo == "" {
			repo = "/repo"
		}
		cmdVerify(sp, repo, os.Args[2:])
		return
	}
	if os.Args[1] == "report" {
		cmdReport(sp)
		return
	}
	if os.Args[1] == "search" {
		sc, _ := os.MkdirTemp("", "vc")
		defer os.RemoveAll(sc)
		b, _ := time.ParseDuration(os.Args[3])
		repo := os.Getenv("REPO")
		if repo == "" {
			repo = "/repo"
		}
		se := &Searcher{sp: sp, verif: verifDir, scratch: sc, repo: repo, prop: os.Args[2], focus: map[string]bool{}}
		for _, f := range os.Args[4:] {
			se.focus[f] = true
		}
		err := se.run(b, 8, os.Args[2] == "all")
		x := se.found.Load()
		if x == nil {
			x = se.other.Load()
		}
		fmt.Printf("%+v %v\n", se.stats, err)
		if x != nil {
			fmt.Printf("%s %s\n%q\n%s\n want %s\n got  %s\n", x.Property, x.Rd, x.Ddl, x.What, x.Want, x.Got)
		}
	}
}
