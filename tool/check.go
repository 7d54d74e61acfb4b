package main

// Checks: each decides one property and reports what it decided.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// finding is one violation.
type finding struct {
	Rule  string `json:"rule"`
	Where string `json:"where"` // construct: function, field, call site
	Pos   string `json:"pos"`
	What  string `json:"what"`
	Trace string `json:"path,omitempty"`
}

// report collects what a check decided.
type report struct {
	prop     string
	thorough bool
	findings []finding
	counts   map[string]int // obligations by rule
	seen     map[string]bool
	cover    map[string]interface{}
	rules    []string
}

// ok records an obligation that holds, keyed by rule and construct.
func (r *report) ok(rule, where string) {
	k := rule + "\x00" + where
	if !r.seen[k] {
		r.seen[k] = true
		r.counts[rule]++
	}
}

// bad records a violation.
func (r *report) bad(rule, where, pos, what, trace string) {
	r.ok(rule, where)
	for _, f := range r.findings {
		if f.Rule == rule && f.Where == where && f.Pos == pos {
			return
		}
	}
	r.findings = append(r.findings, finding{rule, where, pos, what, trace})
}

// must records an obligation with its outcome.
func (r *report) must(cond bool, rule, where, pos, what string) {
	if cond {
		r.ok(rule, where)
	} else {
		r.bad(rule, where, pos, what, "")
	}
}

// rule describes a rule applied by the check.
func (r *report) rule(s string) { r.rules = append(r.rules, s) }

// atLeast guards against rules that match nothing.
func (r *report) atLeast(rule string, n int) {
	if r.counts[rule] < n {
		r.findings = append(r.findings, finding{"instances", rule, "", fmt.Sprintf("rule %q applied to %d constructs, at least %d expected: the analysis lost its anchors", rule, r.counts[rule], n), ""})
	}
}

func (r *report) set(k string, v interface{}) { r.cover[k] = v }

// jobs runs entry points and takes over the obligations with the given rules.
func (r *report) jobs(p *Program, jobs []job, rules map[string]bool) []*result {
	rs := runJobs(p, jobs, nil)
	fns := map[string]bool{}
	var names []string
	steps := 0
	for _, x := range rs {
		names = append(names, x.job)
		steps += x.steps
		for f := range x.fns {
			fns[p.short(f)] = true
		}
		for _, g := range x.gaps {
			r.bad("analysis", x.job, "", "undecided: "+g, "")
		}
		if len(x.obl) == 0 && x.steps == 0 {
			r.bad("analysis", x.job, "", "undecided: the entry point was not analysed", "")
		}
		r.ok("entry points", x.job)
	}
	for _, o := range mergeObl(rs) {
		if rules != nil && !rules[o.Rule] {
			continue
		}
		if o.Bad {
			sort.Strings(o.Roots)
			r.bad(o.Rule, o.Fn, o.Pos, fmt.Sprintf("%s (reached from %s)", o.Detail, strings.Join(head(o.Roots, 3), ", ")), o.Trace)
		} else {
			r.ok(o.Rule, o.Fn+" "+o.Pos)
		}
	}
	sort.Strings(names)
	add := func(k string, n int) {
		old, _ := r.cover[k].(int)
		r.cover[k] = old + n
	}
	add("abstract_steps", steps)
	add("functions_interpreted", len(fns))
	prev, _ := r.cover["entry_points"].([]string)
	r.cover["entry_points"] = append(prev, names...)
	return rs
}

func head(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string(nil), s[:n]...), "...")
	}
	return s
}

var panicRules = map[string]bool{"index": true, "slice": true, "nil": true, "div": true, "make": true, "assert": true, "panic": true, "conv": true}

// checkFunc decides a property.
type checkFunc struct {
	level string
	note  string
	run   func(p *Program, r *report)
}

var checks = map[string]checkFunc{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the findings that are recorded and not repaired.
func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+prop+" "), " :: ", 2)
		if len(f) == 2 {
			out[strings.TrimSpace(f[0])] = f[1]
		}
	}
	return out
}

// runCheck decides a property and reports; the result is the exit code.
func runCheck(prop string) (code int) {
	t0 := time.Now()
	r := &report{prop: prop, counts: map[string]int{}, seen: map[string]bool{}, cover: map[string]interface{}{}}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r.thorough = tier == "thorough"
	c, ok := checks[prop]
	if !ok {
		r.bad("check", prop, "", "no check for this property", "")
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	p, err := loadProgram(repo)
	if err != nil {
		r.bad("load", repo, "", "the source could not be loaded: "+err.Error(), "")
	} else if ok {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.bad("analysis", prop, "", fmt.Sprintf("undecided: the analysis failed: %v", e), "")
					if debug {
						panic(e)
					}
				}
			}()
			c.run(p, r)
		}()
		r.cover["module"] = p.mod
		r.cover["packages"] = len(p.pkgs)
		r.cover["functions"] = len(p.fns)
	}
	known := knownFindings(prop)
	var open []finding
	for _, f := range r.findings {
		if w, ok := known[f.Rule+"|"+f.Where]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
			continue
		}
		open = append(open, f)
	}
	total := 0
	for _, n := range r.counts {
		total += n
	}
	for _, k := range sortedKeys(r.counts) {
		fmt.Printf("%s: %d constructs\n", k, r.counts[k])
	}
	r.cover["obligations_by_rule"] = r.counts
	r.cover["obligations"] = total
	r.cover["discharged"] = total - len(r.findings)
	r.cover["rules"] = r.rules
	r.cover["violations"] = len(open)
	r.cover["explanation"] = fmt.Sprintf("%s Analysed %d packages (%d functions) of the current tree; %d obligations, keyed by rule and construct, of which %d hold.", strings.Join(r.rules, " "), r.cover["packages"], r.cover["functions"], total, total-len(r.findings))
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": r.cover, "wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	if len(open) == 0 {
		fmt.Printf("%s holds: %d obligations, %v\n", prop, total, time.Since(t0).Round(time.Millisecond))
		return 0
	}
	replay := filepath.Join(dir, prop+".violations.txt")
	var sb strings.Builder
	for _, f := range open {
		fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Where, f.What)
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Where, f.What)
		if f.Trace != "" {
			fmt.Fprintf(&sb, "    path: %s\n", f.Trace)
		}
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}
