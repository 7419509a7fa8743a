// Command bpcheck decides semantic properties of aarondl/bpass statically.
//
//	bpcheck <property id>...   run checks
//	bpcheck -list              list the checks
package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID          string
	Title       string
	Level       string
	Explanation string
	NoSSA       bool // loads packages itself
	Run         func(r *Run)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "other"
	}
	checks[c.ID] = c
}

func main() {
	args := os.Args[1:]
	if len(args) == 1 && args[0] == "-list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Title)
		}
		return
	}
	if len(args) > 0 && args[0] == "-dump" {
		dump(args[1:])
		return
	}
	if len(args) == 1 && args[0] == "-all" {
		args = nil
		for id := range checks {
			args = append(args, id)
		}
		sort.Strings(args)
	}
	if pf := os.Getenv("BPCHECK_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	code := 0
	var prog *Prog
	var lerr error
	for _, id := range args {
		start := time.Now()
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		if !c.NoSSA && prog == nil && lerr == nil {
			prog, lerr = load()
		}
		r := newRun(id, tier, prog)
		if !c.NoSSA && lerr != nil {
			r.Violate("load", "load", "-", lerr.Error(), nil)
		} else {
			r.guard(func() { c.Run(r) })
		}
		if rc := r.finish(start, c.Level, c.Explanation); rc > code {
			code = rc
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func dump(names []string) {
	p, err := load()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, n := range names {
		f := p.fn(n)
		if f == nil {
			fmt.Println("no", n)
			for _, g := range p.Funcs {
				fmt.Println("  ", fnName(g))
			}
			continue
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	}
}
