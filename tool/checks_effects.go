package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// write is one write to memory that existed before the call.
type write struct {
	job, fn, pos, own, what string
}

// writesOf interprets entry points and collects their writes.
func (r *report) writesOf(p *Program, jobs []job) []write {
	var mu sync.Mutex
	seen := map[write]bool{}
	for i := range jobs {
		run := jobs[i].run
		name := jobs[i].name
		jobs[i].run = func(in *Interp, mon *recMon) {
			mon.wrote = func(in *Interp, st *State, at ssa.Instruction, own, what string) {
				if own == "new" || own == "const" || own == "" {
					return
				}
				w := write{name, in.prog.short(at.Parent().String()), in.prog.pos(instrPos(at)), own, what}
				mu.Lock()
				seen[w] = true
				mu.Unlock()
			}
			run(in, mon)
		}
	}
	r.jobs(p, jobs, map[string]bool{})
	var out []write
	for w := range seen {
		out = append(out, w)
	}
	sort.Slice(out, func(a, b int) bool { return fmt.Sprint(out[a]) < fmt.Sprint(out[b]) })
	return out
}

// mutators change their receiver or destination by design.
func mutates(name string) bool {
	for _, p := range []string{"Unmarshal", "From", "Set", "Decode", "Read", "Reset", "Normalize"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isBufferPtr(t types.Type) bool {
	return strings.HasSuffix(types.TypeString(t, nil), "bytes.Buffer")
}

func init() {
	checks["P09"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every write to memory (stores, map updates, copies, appends into spare capacity, library functions that modify their arguments) reachable from an exported entry point is attributed to the argument that owns the memory; encoders write only to the output buffer, decoders only to the message, and no other function writes to memory it was given.")
		// which parameters a job may write
		allow := map[string]map[string]bool{}
		add := func(j string, f *ssa.Function) {
			m := map[string]bool{}
			for i, pr := range f.Params {
				if isBufferPtr(pr.Type()) {
					m[pr.Name()] = true
				}
				if i == 0 && f.Signature.Recv() != nil && mutates(f.Name()) {
					m[pr.Name()] = true
				}
				// a destination: a pointer or message that is decoded into
				if mutates(f.Name()) {
					switch u := pr.Type().Underlying().(type) {
					case *types.Interface:
						if p.isModType(pr.Type()) {
							m[pr.Name()] = true
						}
					case *types.Pointer:
						if p.isModType(u.Elem()) {
							m[pr.Name()] = true
						}
					}
				}
			}
			allow[j] = m
		}
		for _, f := range p.fns {
			if p.exported(f) {
				add(p.short(f.String()), f)
			}
		}
		jobs := p.plainRoots(func(f *ssa.Function) bool { return true })
		for _, j := range p.messageRoots(true) {
			allow[j.name] = map[string]bool{"msg": true}
			jobs = append(jobs, j)
		}
		for _, j := range p.messageRoots(false) {
			allow[j.name] = map[string]bool{"buf": true}
			jobs = append(jobs, j)
		}
		for _, s := range p.lifecycles() {
			m := map[string]bool{}
			for _, f := range p.methodsOf(s.typ) {
				for i, pr := range f.Params {
					// the buffer of a Read, the destination of a decoder
					if i > 0 && strings.HasPrefix(f.Name(), "Read") {
						m[f.Name()+"."+pr.Name()] = true
					}
				}
			}
			for _, t := range []string{"Read"} {
				m[t+".p"] = true
			}
			allow["lifecycle "+s.name] = m
		}
		jobs = append(jobs, p.lifecycleJobs(nil, nil)...)
		n := 0
		for _, w := range r.writesOf(p, jobs) {
			for _, o := range strings.Split(w.own, "|") {
				if !strings.HasPrefix(o, "arg:") {
					continue
				}
				n++
				name := o[4:]
				root := allow[w.job]
				if root[name] || strings.HasPrefix(w.job, "lifecycle") && (root[name] || ctorArg(name)) {
					r.ok("write", w.job+" "+w.fn+" "+o)
					continue
				}
				r.bad("write", w.fn, w.pos, fmt.Sprintf("%s writes to memory of its argument %s (%s)", w.job, name, w.what), "")
			}
		}
		r.set("writes_to_arguments", n)
		r.atLeast("entry points", 250)
		r.atLeast("write", 60)
	}}

	checks["P10"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("No function reachable outside package initialisation and RegisterMessage stores to, updates, or takes for writing any package-level variable or memory reached from it; package-level variables have only immutable or concurrency-safe types; no exported function returns memory of a package-level variable that its caller could modify.")
		globalRules(p, r)
		r.atLeast("package variable", 30)
		r.atLeast("function", 400)
	}}
}

// ctorArg: connections given to constructors are written by purpose.
func ctorArg(name string) bool { return !strings.Contains(name, ".") }

// globalRules decides who touches package-level state.
func globalRules(p *Program, r *report) {
	// functions that only initialisation or registration reaches
	skip := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "RegisterMessage" || f.Name() == "RegisterMessageType" {
			if f.Signature.Recv() == nil {
				skip[f] = true
			}
		}
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				callee := (*ssa.Function)(nil)
				if c, ok := i.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
				}
				for _, o := range i.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						if g == callee {
							if callers[g] == nil {
								callers[g] = map[*ssa.Function]bool{}
							}
							callers[g][f] = true
						} else {
							taken[g] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.fns {
			if skip[f] || p.exported(f) || taken[f] || len(callers[f]) == 0 || f.Signature.Recv() != nil {
				continue
			}
			all := true
			for c := range callers[f] {
				if !skip[c] {
					all = false
				}
			}
			if all {
				skip[f] = true
				changed = true
			}
		}
	}
	// variables
	used := map[*ssa.Global]string{}
	for _, f := range p.fns {
		if skip[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && p.isModPath(g.Pkg.Pkg.Path()) {
						used[g] = p.short(f.String())
					}
				}
			}
		}
	}
	for _, pk := range p.pkgs {
		sp := p.spkgs[pk.PkgPath]
		for _, n := range sortedMembers(sp) {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || strings.HasPrefix(n, "init$") || n == "_" {
				continue
			}
			name := p.short(pk.PkgPath) + "." + n
			why := ""
			if used[g] != "" {
				why = p.unsafeShared(deref(g.Type()), map[types.Type]bool{})
			}
			r.must(why == "", "package variable", name, p.pos(g.Pos()), fmt.Sprintf("used by %s outside initialisation, but its type holds %s, which connections cannot share", used[g], why))
		}
	}
	// writes inside one function
	for _, f := range p.fns {
		if skip[f] {
			continue
		}
		der := p.globalDerived(f)
		bad := false
		flag := func(i ssa.Instruction, what string, g *ssa.Global) {
			bad = true
			r.bad("function", p.short(f.String()), p.pos(instrPos(i)), what+" package-level variable "+g.Name(), "")
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g := der[x.Addr]; g != nil {
						flag(i, "stores to", g)
					}
				case *ssa.MapUpdate:
					if g := der[x.Map]; g != nil {
						flag(i, "updates", g)
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy", "append":
							if g := der[c.Args[0]]; g != nil && !(bi.Name() == "append" && immutableElems(c.Args[0])) {
								flag(i, bi.Name()+" modifies", g)
							}
						}
					}
				case *ssa.Return:
					if p.exported(f) {
						for _, v := range x.Results {
							if g := der[v]; g != nil && mutableRef(v.Type()) {
								flag(i, "hands out", g)
							}
						}
					}
				}
			}
		}
		if !bad {
			r.ok("function", p.short(f.String()))
		}
	}
	// writes through calls
	jobs := p.plainRoots(func(f *ssa.Function) bool { return true })
	jobs = append(jobs, p.messageRoots(true)...)
	jobs = append(jobs, p.messageRoots(false)...)
	jobs = append(jobs, p.lifecycleJobs(nil, nil)...)
	for _, w := range r.writesOf(p, jobs) {
		for _, o := range strings.Split(w.own, "|") {
			if strings.HasPrefix(o, "global") {
				r.bad("function", w.fn, w.pos, fmt.Sprintf("%s writes to %s", w.job, w.what), "")
			}
		}
	}
}

func sortedMembers(sp *ssa.Package) []string {
	var out []string
	for n := range sp.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// safeShared lists library types whose values may be shared.
var safeShared = map[string]bool{
	"encoding/base32.Encoding": true, "encoding/base64.Encoding": true, "strings.Replacer": true, "regexp.Regexp": true,
	"reflect.Type": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "time.Duration": true, "time.Time": true,
	"golang.org/x/text/encoding.Encoding": true, "golang.org/x/text/encoding/charmap.Charmap": true, "sync.Map": true,
	"hash/crc32.Table": true, "math/big.Int": true, "unicode.RangeTable": true, "net/netip.Addr": true,
}

// unsafeShared finds mutable library state in a type.
func (p *Program) unsafeShared(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() == nil {
			return ""
		}
		k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		if safeShared[k] || strings.HasPrefix(k, "sync/atomic.") {
			return ""
		}
		if !p.isModPath(n.Obj().Pkg().Path()) {
			switch n.Underlying().(type) {
			case *types.Struct, *types.Interface:
				if types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
					return ""
				}
				return k
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return p.unsafeShared(u.Elem(), seen)
	case *types.Slice:
		return p.unsafeShared(u.Elem(), seen)
	case *types.Array:
		return p.unsafeShared(u.Elem(), seen)
	case *types.Map:
		if w := p.unsafeShared(u.Key(), seen); w != "" {
			return w
		}
		return p.unsafeShared(u.Elem(), seen)
	case *types.Chan:
		return "a channel"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := p.unsafeShared(u.Field(i).Type(), seen); w != "" {
				return w
			}
		}
	}
	return ""
}

// mutableRef: a holder of the value could modify what it refers to.
func mutableRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}

func immutableElems(v ssa.Value) bool { return false }

// globalDerived maps the values of a function to the package-level variable
// whose memory they point into.
func (p *Program) globalDerived(f *ssa.Function) map[ssa.Value]*ssa.Global {
	der := map[ssa.Value]*ssa.Global{}
	get := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok && g.Pkg != nil && p.isModPath(g.Pkg.Pkg.Path()) {
			return g
		}
		return der[v]
	}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, g *ssa.Global) {
			if g != nil && der[v] == nil {
				der[v] = g
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					set(x, get(x.X))
				case *ssa.IndexAddr:
					set(x, get(x.X))
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						if g := get(x.X); g != nil && mutableRef(x.Type()) {
							set(x, g)
						}
					}
				case *ssa.Slice:
					set(x, get(x.X))
				case *ssa.Phi:
					for _, e := range x.Edges {
						set(x, get(e))
					}
				case *ssa.ChangeType:
					set(x, get(x.X))
				case *ssa.Field:
					if mutableRef(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Lookup:
					if mutableRef(x.Type()) {
						set(x, get(x.X))
					}
				case *ssa.Extract:
					if mutableRef(x.Type()) {
						set(x, get(x.Tuple))
					}
				}
			}
		}
	}
	for _, m := range []map[ssa.Value]*ssa.Global{der} {
		_ = m
	}
	// direct uses of the variable
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			var ops []*ssa.Value
			for _, o := range i.Operands(ops) {
				if g, ok := (*o).(*ssa.Global); ok {
					if h := get(g); h != nil {
						der[g] = h
					}
				}
			}
		}
	}
	return der
}
