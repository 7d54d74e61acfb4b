package main

import "golang.org/x/tools/go/ssa"

// Absence of panics and of endless loops, by abstract interpretation.

const aiNote = "Sound up to the stated contracts of the standard library and of the caller (see DESIGN.md); integers are mathematical with wrap-around decided separately."

func init() {
	isReader := func(s lifecycleSpec) bool { return namedOf(s.typ).Obj().Name() == "Reader" }
	isWriter := func(s lifecycleSpec) bool { return namedOf(s.typ).Obj().Name() != "Reader" }
	decoders := func(p *Program) []job {
		j := p.plainRoots(decodes)
		j = append(j, p.messageRoots(true)...)
		return append(j, p.lifecycleJobs(isReader, nil)...)
	}
	checks["P01"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every index, slice, nil dereference, division, allocation size, type assertion and explicit panic reachable from an exported decoding entry point (for any input, and for every message type) is shown not to fail by abstract interpretation of the SSA form.")
		r.jobs(p, decoders(p), panicRules)
		r.atLeast("entry points", 120)
		r.atLeast("index", 60)
		r.atLeast("slice", 80)
		r.atLeast("nil", 400)
	}}
	checks["P02"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every loop reachable from an exported decoding entry point has a ranking: each iteration consumes input from the connection, or decreases a bounded (lexicographic) measure, or iterates over a finite collection; recursion is bounded.")
		r.jobs(p, decoders(p), map[string]bool{"loop": true})
		r.atLeast("entry points", 120)
		r.atLeast("loop", 25)
	}}
	checks["P03"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every index, slice, nil dereference, division, allocation size, type assertion and explicit panic reachable from an exported encoding or local entry point (for any value, and for every message type) is shown not to fail by abstract interpretation of the SSA form.")
		j := p.plainRoots(func(f *ssa.Function) bool { return !decodes(f) })
		j = append(j, p.messageRoots(false)...)
		j = append(j, p.lifecycleJobs(isWriter, nil)...)
		r.jobs(p, j, panicRules)
		r.atLeast("entry points", 120)
		r.atLeast("index", 40)
		r.atLeast("nil", 300)
	}}
	checks["P11"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("For each connection reader and writer, the set of states reachable from its constructors through any sequence of calls of its exported methods (with any arguments, callbacks set or not, and any outcome of the underlying connection) is over-approximated by a fixpoint; no method panics, dereferences freed state, asserts a wrong type or writes to a finished compressed stream in any of them.")
		rules := map[string]bool{"zclosed": true}
		for k := range panicRules {
			rules[k] = true
		}
		r.jobs(p, p.lifecycleJobs(nil, nil), rules)
		r.atLeast("entry points", 6)
		r.atLeast("nil", 100)
		r.atLeast("zclosed", 1)
		r.atLeast("assert", 1)
	}}
}
