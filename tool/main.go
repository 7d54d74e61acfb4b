package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"os"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	dir := "/repo"
	if d := os.Getenv("VERIF_REPO"); d != "" {
		dir = d
	}
	t0 := time.Now()
	rdebug.SetGCPercent(400)
	if len(os.Args) == 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	p, err := loadProgram(dir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Fprintln(os.Stderr, "loaded", len(p.fns), time.Since(t0))
	if pf := os.Getenv("DCV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		lim, _ := time.ParseDuration(os.Getenv("DCV_LIM"))
		if lim > 0 {
			go func() {
				time.Sleep(lim)
				pprof.StopCPUProfile()
				os.Exit(3)
			}()
		}
		defer pprof.StopCPUProfile()
	}
	pat := ""
	if len(os.Args) > 1 {
		pat = os.Args[1]
	}
	var jobs []job
	for _, f := range p.fns {
		if f.Parent() != nil || !match(p.short(f.String()), pat) {
			continue
		}
		f := f
		jobs = append(jobs, job{p.short(f.String()), func(in *Interp, mon *recMon) { in.runRoot(f) }, p.cost(f)})
	}
	if strings.HasPrefix(pat, "@") {
		jobs = nil
		for _, j := range append(append(p.plainRoots(func(f *ssa.Function) bool { return true }), p.messageRoots(true)...), p.messageRoots(false)...) {
			if match(j.name, pat[1:]) {
				jobs = append(jobs, j)
			}
		}
	}
	if strings.HasPrefix(pat, "%") {
		jobs = nil
		for _, j := range p.lifecycleJobs(nil, nil) {
			if match(j.name, pat[1:]) {
				jobs = append(jobs, j)
			}
		}
	}
	ext := map[string]bool{}
	for _, x := range runJobs(p, jobs, printResult) {
		for k := range x.ext {
			ext[k] = true
		}
	}
	if os.Getenv("DCV_EXT") != "" {
		for _, k := range sortedKeys(ext) {
			fmt.Println("EXT", k)
		}
	}
	fmt.Fprintln(os.Stderr, "total", time.Since(t0))
}

func printResult(r *result) {
	n := map[string]int{}
	var bad []string
	for _, o := range r.obl {
		n[o.Rule] += o.N
		if o.Bad {
			s := fmt.Sprintf("   BAD %s %s in %s: %s", o.Rule, o.Pos, o.Fn, o.Detail)
			if os.Getenv("DCV_TRACE") != "" {
				s += "\n       " + o.Trace
			}
			bad = append(bad, s)
		}
	}
	fmt.Printf("%s: %d steps, %v %v\n", r.job, r.steps, n, r.took.Round(time.Millisecond))
	sort.Strings(bad)
	for _, s := range bad {
		fmt.Println(s)
	}
	for _, g := range r.gaps {
		fmt.Println("   GAP", g)
	}
}

func match(name, pat string) bool {
	if strings.HasPrefix(pat, "=") {
		return name == pat[1:]
	}
	return strings.Contains(name, pat)
}
