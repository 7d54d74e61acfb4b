package main

// P23: no error is dropped.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

// errResult is the index of the error among the results of a call, or -1.
func errResult(s *types.Signature) int {
	for i := s.Results().Len() - 1; i >= 0; i-- {
		if types.Identical(s.Results().At(i).Type(), errorType) {
			return i
		}
	}
	return -1
}

// neverFails: library calls documented to return a nil error, and those that
// return an error as a value.
func neverFails(name string) bool {
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(hash.Hash).", "fmt.Errorf", "errors."} {
		if strings.HasPrefix(name, p) {
			return !strings.HasSuffix(name, ").ReadFrom") && !strings.HasSuffix(name, ").WriteTo")
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "function value"
}

// errSource: a call whose error tells that a part of the work failed.
func (p *Program) errSource(c *ssa.CallCommon) bool {
	if errResult(c.Signature()) < 0 {
		return false
	}
	n := calleeName(c)
	if neverFails(n) {
		return false
	}
	if f := c.StaticCallee(); f != nil && p.inModule(f) && f.Signature.Results().Len() == 1 && f.Signature.Params().Len() == 0 && f.Signature.Recv() != nil && f.Name() == "Err" {
		return false // an accessor
	}
	return true
}

var eoi sync.Map

// endOfInput: calls that may report the end of their input as an error, which
// their caller is to tell from a failure; see P12 and P17.
func (p *Program) endOfInput(c *ssa.CallCommon, caller *ssa.Function) bool {
	if c.IsInvoke() {
		return strings.HasPrefix(c.Method.Name(), "Read")
	}
	f := c.StaticCallee()
	if f == nil {
		// a callback that is given an error decides what becomes of it
		for i := 0; i < c.Signature().Params().Len(); i++ {
			if types.Identical(c.Signature().Params().At(i).Type(), errorType) {
				return true
			}
		}
	}
	if f == nil || p.pkgOf(f) != p.pkgOf(caller) {
		return false
	}
	if v, ok := eoi.Load(f); ok {
		return v.(bool)
	}
	found := false
	defer func() { eoi.Store(f, found) }()
	for g := range p.reach(f) {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Read" {
					found = true
					return true
				}
			}
		}
	}
	return false
}

// tolerate: the drops that are documented. An unparsable share size leaves the
// size unset, and closing a decompressor does not matter to who closes the
// connection.
func (p *Program) tolerate(i ssa.Instruction, c *ssa.CallCommon) string {
	if c.IsInvoke() && c.Method.Name() == "Close" && typeName(c.Value.Type()) == "io.ReadCloser" {
		return "closing a decompressor"
	}
	v, ok := i.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return ""
	}
	// where the value goes
	seen := map[ssa.Value]bool{}
	found, other := false, false
	var flow func(v ssa.Value)
	flow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Extract:
				if x.Index == 0 {
					flow(x)
				}
			case *ssa.Phi:
				flow(x)
			case *ssa.Convert:
				flow(x)
			case *ssa.ChangeType:
				flow(x)
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && p.fieldName(fa) == "nmdc.MyINFO.ShareSize" {
					found = true
				} else {
					other = true
				}
			case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
			default:
				other = true
			}
		}
	}
	flow(v)
	if found && !other {
		return "an unparsable share size is tolerated, as documented in the code"
	}
	return ""
}

// family of calls of which one may stand in for another.
func family(n string) string {
	if strings.HasPrefix(n, "strconv.Parse") || n == "strconv.Atoi" {
		return "strconv"
	}
	return n
}

func init() {
	checks["P23"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every call in the module that returns an error (other than from writers documented never to fail) uses it. By abstract interpretation of every decoding and encoding entry point, a successful exit implies that every call on the path reported success: the errors met on a path are summed, and the sum must be zero where the entry point reports none.")
		// every error is used
		for _, f := range p.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok || !p.errSource(ci.Common()) {
						continue
					}
					c := ci.Common()
					where := p.short(f.String()) + " " + p.short(calleeName(c))
					pos := p.pos(instrPos(i))
					if _, isDefer := i.(*ssa.Defer); isDefer {
						r.ok("deferred", where)
						continue
					}
					v := i.(ssa.Value)
					used := false
					if c.Signature().Results().Len() == 1 {
						used = usedValue(v)
					} else {
						for _, u := range *v.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == errResult(c.Signature()) {
								used = used || usedValue(e)
							} else if _, ok := u.(*ssa.Return); ok {
								used = true
							}
						}
					}
					if !used && p.tolerate(i, c) == "" {
						r.bad("error used", where, pos, "the error of the call is ignored", "")
					} else {
						r.ok("error used", where+" "+pos)
					}
				}
			}
		}
		p.errorPaths(r)
		r.atLeast("error used", 150)
		r.atLeast("success means success", 100)
	}}
}

func usedValue(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// errorPaths: at successful exits nothing failed on the way.
func (p *Program) errorPaths(r *report) {
	var jobs []job
	var mu sync.Mutex
	type drop struct{ root, site, pos, trace string }
	seen := map[drop]bool{}
	exitOK := func(in *Interp, name string, e exit) {
		good, _ := in.errNil(e)
		for _, x := range good {
			for _, k := range sortedKeys(x.st.gval) {
				if !strings.HasPrefix(k, "site:") {
					continue
				}
				n, ok := x.st.gval[k].(Int)
				if ok && !x.st.c.entailsGE(neg(n.E)) {
					s := strings.SplitN(k[strings.LastIndexByte(k, '|')+1:], "@", 2)
					mu.Lock()
					seen[drop{name, s[0], s[1], strings.Join(x.st.trace, " ; ")}] = true
					mu.Unlock()
				}
			}
		}
		mu.Lock()
		r.ok("success means success", name)
		mu.Unlock()
	}
	add := func(j job) {
		run := j.run
		jobs = append(jobs, job{j.name, func(in *Interp, mon *recMon) {
			p.trackErrors(in)
			in.rootExit = func(e exit) { exitOK(in, j.name, e) }
			run(in, mon)
		}, j.cost})
	}
	for _, j := range append(p.plainRoots(func(f *ssa.Function) bool { return errResult(f.Signature) >= 0 }), append(p.messageRoots(true), p.messageRoots(false)...)...) {
		add(j)
	}
	jobs = append(jobs, p.lifecycleJobs(nil, func(g *mgc, mon *recMon) {
		in := g.in
		p.trackErrors(in)
		clear := func(st *State, sure bool) {
			for k, v := range st.gval {
				if strings.HasPrefix(k, "site:") && (!sure || st.c.entailsGE(addc(v.(Int).E, -1))) {
					delete(st.gval, k)
				}
			}
			settle(st)
		}
		mon.events = func(in *Interp, st *State, at ssa.Instruction, kind string, args []Value) {
			if kind != "callback" {
				return
			}
			for _, a := range args {
				if f, ok := a.(Iface); ok && st.c.entailsGE(addc(f.NN, -1)) {
					clear(st, true) // reported to the user, who decides
				}
			}
		}
		g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) { clear(st, false) }
		g.end = func(e *exit, m *ssa.Function, args []Value) {
			if in.muted == 0 && errResult(m.Signature) >= 0 {
				exitOK(in, g.spec.name+" "+m.Name(), *e)
			}
			clear(e.st, false)
		}
	})...)
	r.jobs(p, jobs, map[string]bool{})
	var ds []drop
	for d := range seen {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(a, b int) bool { return fmt.Sprint(ds[a]) < fmt.Sprint(ds[b]) })
	for _, d := range ds {
		r.bad("success means success", d.site, d.pos, "the call may have failed where "+d.root+" reports success", d.trace)
	}
}

// trackErrors sums the errors of each call site on a path.
func (p *Program) trackErrors(in *Interp) {
	in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
		same := []exit{e}
		if _, ok := at.(*ssa.Defer); ok {
			return same
		}
		if !p.errSource(c) || p.endOfInput(c, at.Parent()) || p.tolerate(at, c) != "" {
			return same
		}
		v := e.ret
		if t, ok := v.(Tuple); ok && c.Signature().Results().Len() > 1 {
			v = t[errResult(c.Signature())]
		}
		f, ok := v.(Iface)
		if !ok {
			return same
		}
		n := calleeName(c)
		where := p.short(at.Parent().String()) + " " + p.short(n)
		fam := "site:" + family(p.short(n)) + "|" + p.short(at.Parent().String()) + "|"
		for k, v := range e.st.gval {
			if strings.HasPrefix(k, fam) && e.st.c.entailsGE(addc(v.(Int).E, -1)) {
				// another attempt after a failed one
				delete(e.st.gval, k)
			}
		}
		settle(e.st)
		good, bad := in.split(e.st, mkCmp(cEQ, f.NN))
		var out []exit
		for _, s := range good {
			out = append(out, exit{s, e.ret})
		}
		for _, s := range bad {
			s.gval[fam+where+"@"+p.pos(instrPos(at))] = Int{cst(1)}
			s.ghost["failing"] = "1"
			out = append(out, exit{s, e.ret})
		}
		return out
	}
}

// settle: whether a failure is pending is a flag that keeps states apart.
func settle(st *State) {
	for k := range st.gval {
		if strings.HasPrefix(k, "site:") {
			return
		}
	}
	delete(st.ghost, "failing")
}
