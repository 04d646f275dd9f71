package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	only := flag.String("cmd", "", "analyse one command only (debugging)")
	dump := flag.Bool("dump", false, "")
	dbg := flag.Bool("debug", false, "")
	variant := flag.String("variant", "", "")
	srvFn := flag.String("fn", "", "")
	obls := flag.Bool("obls", false, "list discharged obligations")
	prof := flag.String("prof", "", "")
	prop := flag.String("prop", "", "decide one property")
	tier := flag.String("tier", "quick", "")
	wk := flag.Bool("worker", false, "")
	flag.Parse()
	if *wk {
		debug.SetGCPercent(300)
		worker(*repo, *tier)
		return
	}
	if *prop != "" {
		os.Exit(decide(*repo, *prop, *tier))
	}
	debug.SetGCPercent(300)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	P, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	rep := newReports()
	a := P.newAnalysis(rep)
	a.debug = *dbg
	if *srvFn != "" && !strings.Contains(*srvFn, ":") {
		for _, r := range a.runSrv(P, *srvFn, *variant) {
			fmt.Printf("%-12s steps=%d outs=%d incomplete=%v\n", r.name, r.steps, len(r.outs), r.incomplete)
			if *dump {
				for i := range r.outs {
					fmt.Println("   ", a.summary(&r.outs[i]))
				}
			}
		}
		*only = "-"
	} else if *srvFn != "" {
		fn := P.fn(strings.SplitN(*srvFn, ":", 2)[0], strings.SplitN(*srvFn, ":", 2)[1])
		a.seqNames["rawlocks"] = strings.HasPrefix(*srvFn, "memdb:Locks")
		a.seqNames["logger"] = strings.HasPrefix(*srvFn, "logger")
		r := a.runFn(fn, "aux", *srvFn, nil)
		fmt.Printf("%-12s steps=%d outs=%d incomplete=%v\n", r.name, r.steps, len(r.outs), r.incomplete)
		if *dump {
			for i := range r.outs {
				fmt.Println("   ", a.summary(&r.outs[i]))
			}
		}
		*only = "-"
	}
	for _, n := range sortedKeys(P.cmds) {
		if *only != "" && n != *only {
			continue
		}
		t0 := time.Now()
		vs := []string{*variant}
		if *variant == "all" {
			vs = variants(n, *tier)
		}
		for _, v := range vs {
			r := a.runCmd(P, n, v)
			fmt.Printf("%-12s steps=%d outs=%d incomplete=%v %v\n", n, r.steps, len(r.outs), r.incomplete, time.Since(t0).Round(time.Millisecond))
			if *dump {
				for i := range r.outs {
					fmt.Println("   ", a.summary(&r.outs[i]))
				}
			}
		}
	}
	statDump()
	if *obls {
		m := map[string]int{}
		for k, n := range rep.obls {
			m[k.prop+"/"+k.rule+" "+k.where] += n
		}
		for _, k := range sortedKeys(m) {
			fmt.Println("OBL", k, m[k])
		}
	}
	for _, f := range rep.findings("") {
		fmt.Printf("%s %s %s [%s] %s: %s\n", f.Prop, f.Rule, f.Where, f.Root, f.Func, f.Msg)
		if *dump {
			for _, t := range f.Trace {
				fmt.Println("        ", t)
			}
		}
	}
}
