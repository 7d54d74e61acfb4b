package main

// Running entry points in parallel and recording what was decided.

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// oblRec is one obligation: a rule applied to a construct.
type oblRec struct {
	Rule   string
	Fn     string
	Pos    string
	Detail string
	N      int // times decided
	Bad    bool
	Trace  string
	Roots  []string
}

func (o *oblRec) key() string { return o.Rule + "|" + o.Fn + "|" + o.Pos }

// recMon records obligations.
type recMon struct {
	obl    map[string]*oblRec
	root   string
	wrote  func(in *Interp, st *State, at ssa.Instruction, own, what string)
	events func(in *Interp, st *State, at ssa.Instruction, kind string, args []Value)
}

func newRecMon(root string) *recMon { return &recMon{obl: map[string]*oblRec{}, root: root} }

func (r *recMon) Oblige(in *Interp, st *State, at ssa.Instruction, rule string, ok bool, detail string) {
	fn, pos := "", ""
	if at != nil {
		fn, pos = in.prog.short(at.Parent().String()), in.prog.pos(instrPos(at))
	}
	r.add(rule, fn, pos, detail, ok, st)
}

func (r *recMon) add(rule, fn, pos, detail string, ok bool, st *State) {
	k := rule + "|" + fn + "|" + pos
	o := r.obl[k]
	if o == nil {
		o = &oblRec{Rule: rule, Fn: fn, Pos: pos, Detail: detail, Roots: []string{r.root}}
		r.obl[k] = o
	}
	o.N++
	if !ok && !o.Bad {
		o.Bad, o.Detail = true, detail
		if st != nil {
			o.Trace = strings.Join(st.trace, " ; ")
		}
	}
}

func (r *recMon) Wrote(in *Interp, st *State, at ssa.Instruction, own, what string) {
	if r.wrote != nil {
		r.wrote(in, st, at, own, what)
	}
}

func (r *recMon) Event(in *Interp, st *State, at ssa.Instruction, kind string, args []Value) {
	if r.events != nil {
		r.events(in, st, at, kind, args)
	}
}

// job is one entry point.
type job struct {
	name string
	run  func(in *Interp, mon *recMon)
	cost int
}

type result struct {
	job   string
	obl   map[string]*oblRec
	gaps  []string
	steps int
	took  time.Duration
	fns   map[string]bool
	ext   map[string]bool
}

// runJobs interprets entry points in parallel, each from a fresh interpreter.
func runJobs(p *Program, jobs []job, progress func(r *result)) []*result {
	order := make([]int, len(jobs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return jobs[order[a]].cost > jobs[order[b]].cost })
	out := make([]*result, len(jobs))
	ch := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				r := runJob(p, jobs[i])
				out[i] = r
				if progress != nil {
					mu.Lock()
					progress(r)
					mu.Unlock()
				}
			}
		}()
	}
	for _, i := range order {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return out
}

var jobTimes = os.Getenv("DCV_TIMES") != ""

func runJob(p *Program, j job) (r *result) {
	t0 := time.Now()
	r = &result{job: j.name}
	mon := newRecMon(j.name)
	in := newInterp(p)
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			in.gap("analysis failed in %s: %v", j.name, e)
			if debug {
				fmt.Println(string(buf))
			}
		}
		r.obl, r.gaps, r.steps, r.took, r.fns = mon.obl, in.gaps, in.steps, time.Since(t0), in.stats.Funcs
		r.ext = in.externs
		if jobTimes {
			fmt.Printf("JOB %s %d steps %v\n", j.name, r.steps, r.took.Round(time.Millisecond))
		}
	}()
	if f := os.Getenv("DCV_JOBS"); f != "" && !strings.Contains(j.name, f) {
		return r
	}
	in.runInit()
	in.gaps, in.errs = nil, map[string]bool{}
	in.mon = mon
	j.run(in, mon)
	return r
}

// merge joins the obligations of several results.
func mergeObl(rs []*result) []*oblRec {
	m := map[string]*oblRec{}
	for _, r := range rs {
		for k, o := range r.obl {
			e := m[k]
			if e == nil {
				c := *o
				m[k] = &c
				continue
			}
			e.N += o.N
			e.Roots = append(e.Roots, o.Roots...)
			if o.Bad && !e.Bad {
				e.Bad, e.Detail, e.Trace = true, o.Detail, o.Trace
			}
		}
	}
	var out []*oblRec
	for _, o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(a, b int) bool { return out[a].key() < out[b].key() })
	return out
}

// cost estimates the work of an entry point by the code it may reach.
func (p *Program) cost(f *ssa.Function) int {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) int
	walk = func(f *ssa.Function) int {
		if f == nil || seen[f] || !p.inModule(f) {
			return 0
		}
		seen[f] = true
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
			if len(b.Preds) > 1 {
				n += 20
			}
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					n += walk(c.Common().StaticCallee())
				}
			}
		}
		return n
	}
	return walk(f)
}
