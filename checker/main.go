package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "comma separated property ids, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "debug: pkg:Func")
	ssaF := flag.Bool("ssa", false, "debug: print SSA")
	base := flag.String("baseline", "", "write the table of functions the rules were written for")
	flag.Parse()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	fail := func(err interface{}) {
		// the program could not be analysed at all: nothing is decided
		if u, ok := err.(undecidedErr); ok {
			err = u.msg
		}
		rc := 0
		for _, id := range ids {
			pr := registry[id]
			if pr == nil {
				continue
			}
			fn := *verif + "/evidence/" + id + ".replay.txt"
			_ = os.MkdirAll(*verif+"/evidence", 0o755)
			_ = os.WriteFile(fn, []byte(fmt.Sprint(err)), 0o644)
			fmt.Printf("  the tree cannot be analysed: %v\nVIOLATION property=%s replay=%s\n", err, id, fn)
			rc = 1
		}
		os.Exit(rc)
	}
	p, err := loadProg(*repo)
	if err != nil {
		fail(err)
	}
	if *base != "" {
		if err := os.WriteFile(*base, p.writeBaseline(), 0o644); err != nil {
			fail(err)
		}
		return
	}
	e := newEng(p, Opts{})
	e.deadline = time.Now().Add(7 * time.Minute) // an obligation that takes longer is undecided
	if *tier == "thorough" {
		e.deadline = time.Now().Add(55 * time.Minute)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(r)
				}
				fail(r)
			}
		}()
		e.initGlobals()
	}()
	if *dump != "" {
		parts := strings.SplitN(*dump, ":", 2)
		f := p.fn(parts[0], parts[1])
		if *ssaF {
			f.WriteTo(os.Stdout)
			for _, a := range f.AnonFuncs {
				a.WriteTo(os.Stdout)
			}
		}
		var args []*Term
		for _, pr := range f.Params {
			args = append(args, symT(pr.Name(), pr.Type()))
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("!!", r)
				}
			}()
			e.dump(e.Call(newState(), f, args, nil))
		}()
		return
	}
	rc := 0
	for _, id := range ids {
		pr := registry[id]
		if pr == nil {
			fmt.Printf("unknown property %q\n", id)
			os.Exit(2)
		}
		if r := runProperty(p, e, pr, *tier, *verif, seed); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

func (e *Eng) dump(outs []Outcome) {
	for i, o := range outs {
		fmt.Printf("--- outcome %d\n  facts: %s\n", i, o.St.factStrings(0))
		e.dumpEvents(o.St.events, "  ")
		for _, s := range o.St.stores {
			fmt.Printf("  store %v := %v\n", s.addr, s.val)
		}
		fmt.Printf("  results: %v panic: %v\n", o.Results, o.Panic)
	}
}

func (e *Eng) dumpEvents(evs []*Event, ind string) {
	for _, ev := range evs {
		fmt.Printf("%s%s %s %v -> %v\n", ind, ev.Kind, shortName(ev.Name), ev.Args, ev.Result)
		if ev.Loop != nil {
			for _, it := range ev.Loop.Iters {
				fmt.Printf("%s  iter back=%v facts %s\n", ind, it.Back, it.St.factStrings(0))
				e.dumpEvents(it.Events, ind+"    ")
			}
		}
	}
}
