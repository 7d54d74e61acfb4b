package main

// P15: hooks.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hookList is a field that holds the registered hooks of one kind.
type hookList struct {
	name  string
	index int
	sig   *types.Signature
}

func hookLists(t types.Type) []hookList {
	u, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []hookList
	for i := 0; i < u.NumFields(); i++ {
		sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if s, ok := sl.Elem().Underlying().(*types.Signature); ok {
			out = append(out, hookList{u.Field(i).Name(), i, s})
		}
	}
	return out
}

// onLines: the hook is given lines; onMessages: it is given messages.
func (h hookList) onMessages() bool {
	return h.sig.Params().Len() == 1 && types.IsInterface(h.sig.Params().At(0).Type())
}

func (h hookList) onLines() bool {
	return h.sig.Params().Len() == 1 && !h.onMessages()
}

// hooksOf is the current list in a field.
func (g *mgc) hooksOf(st *State, h hookList) (Slice, bool) {
	p, ok := st.gval["recv"].(Ptr)
	if !ok {
		return Slice{}, false
	}
	ob := g.in.object(st, p.O)
	if ob == nil {
		return Slice{}, false
	}
	sv, ok := ob.V.(Struct)
	if !ok || h.index >= len(sv.F) {
		return Slice{}, false
	}
	s, ok := sv.F[h.index].(Slice)
	return s, ok
}

func sameValue(in *Interp, st *State, a, b Value) bool {
	switch x := a.(type) {
	case Slice:
		y, ok := b.(Slice)
		return ok && x.R == y.R && x.R != 0 && in.decide(st, mkCmp(cEQ, sub(x.Off, y.Off))) == 1 && in.decide(st, mkCmp(cEQ, sub(x.Len, y.Len))) == 1
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.T == nil && y.T == nil {
			return x.ID == y.ID && x.ID != "" && x.ID != "mix"
		}
		p, ok1 := x.V.(Ptr)
		q, ok2 := y.V.(Ptr)
		return ok1 && ok2 && p.O == q.O && p.O != 0
	}
	return false
}

func init() {
	checks["P15"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Typestate over every sequence of calls: the position in each list of hooks is followed through the loops that call them. A hook may only be called next after its predecessor in the list; a line or message may be delivered or written only when every hook of the list was called for it and agreed; a hook that failed makes the operation fail; a dropped message is followed by the next one of the same call. Registering appends to the list.")
		var jobs []job
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return len(hookLists(s.typ)) > 0 }, func(g *mgc, mon *recMon) { p.hooks(g) })...)
		jobs = append(jobs, p.registering()...)
		r.jobs(p, jobs, map[string]bool{"hook order": true, "all hooks called": true, "hook error returned": true, "same message": true, "all messages handled": true, "registered last": true, "nothing expected": true, "dropped alone": true})
		r.atLeast("hook order", 3)
		r.atLeast("all hooks called", 5)
		r.atLeast("hook error returned", 4)
		r.atLeast("all messages handled", 1)
		r.atLeast("registered last", 5)
		r.atLeast("same message", 2)
		r.atLeast("nothing expected", 1)
	}}
}

func (p *Program) hooks(g *mgc) {
	in := g.in
	outer := p.outer(g.spec)
	if !outer || p.writers(g.spec) {
		keepExits(in)
	}
	lists := hookLists(g.spec.typ)
	byName := map[string]hookList{}
	for _, h := range lists {
		byName[h.name] = h
	}
	zero := func(st *State) {
		for _, h := range lists {
			st.gval["hk:"+h.name] = Int{cst(0)}
			delete(st.ghost, "ok:"+h.name)
		}
	}
	reader := p.readers(g.spec)
	complete := func(st *State, h hookList) bool {
		k, ok := st.gval["hk:"+h.name].(Int)
		s, ok2 := g.hooksOf(st, h)
		return ok && ok2 && in.decide(st, mkCmp(cEQ, sub(k.E, s.Len))) == 1
	}
	count := func(st *State) {
		if k, ok := st.gval["handled"].(Int); ok {
			st.gval["handled"] = Int{addc(k.E, 1)}
		}
	}
	g.made = func(st *State, recv Ptr) { zero(st) }
	g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) {
		zero(st)
		st.ghost["op"] = m.Name()
		delete(st.ghost, "any")
		if strings.HasPrefix(m.Name(), "ReadMsg") && len(args) == 1 {
			st.ghost["any"] = "1"
		}
		for _, k := range []string{"failed", "dropped", "hook"} {
			delete(st.ghost, k)
		}
		if reader {
			return
		}
		st.gval["handled"] = Int{cst(0)}
		if len(args) == 2 {
			st.gval["data"] = args[1]
		}
	}
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		op := st.ghost["op"]
		if op == "" {
			return
		}
		switch {
		case kind == "mkerr":
			if f, ok := args[0].(Iface); ok && st.ghost["any"] != "" && in.muted == 0 && strings.HasSuffix(f.T.String(), ".ErrUnexpectedCommand") {
				in.oblige(st, at, "nothing expected", false, "a message is rejected by its type although any is accepted: state of an earlier message is left")
			}
		case kind == "fnload":
			s, ok := args[0].(Slice)
			if !ok {
				return
			}
			for _, h := range lists {
				if l, ok := g.hooksOf(st, h); ok && l.R == s.R && l.R != 0 {
					st.ghost["load"] = h.name
					st.gval["load"] = Tuple{args[0], args[1]}
				}
			}
		case kind == "callback" && st.ghost["load"] != "":
			h := byName[st.ghost["load"]]
			t, _ := st.gval["load"].(Tuple)
			delete(st.ghost, "load")
			delete(st.gval, "load")
			st.ghost["hook"] = h.name
			if in.muted == 0 {
				k, _ := st.gval["hk:"+h.name].(Int)
				fine := false
				if len(t) == 2 {
					i, _ := t[1].(Int)
					s, _ := t[0].(Slice)
					l, _ := g.hooksOf(st, h)
					fine = in.decide(st, mkCmp(cEQ, sub(i.E, k.E))) == 1 && in.decide(st, mkCmp(cEQ, sub(s.Off, l.Off))) == 1
				}
				in.oblige(st, at, "hook order", fine, "hooks of "+h.name+" are not called one after the other for each message")
				if h.onLines() && !reader {
					in.oblige(st, at, "same message", sameValue(in, st, args[1], st.gval["data"]), "the hook is not given the line that "+op+" writes")
				}
				if h.onMessages() && !reader {
					in.oblige(st, at, "same message", st.ghost["failed"] == "", "a hook is called after another one failed")
				}
			}
		case kind == "bufwr" && op == "WriteLine":
			for _, h := range lists {
				if h.onLines() && in.muted == 0 {
					in.oblige(st, at, "all hooks called", complete(st, h), "a line is written that not every hook has accepted")
					in.oblige(st, at, "same message", sameValue(in, st, args[1], st.gval["data"]), "the line written is not the one given to WriteLine")
				}
			}
			count(st)
		case kind == "inner:ReadLine":
			zero(st)
			delete(st.ghost, "dropped")
		case kind == "inner:WriteLine" && strings.HasPrefix(op, "WriteMsg"):
			for _, h := range lists {
				if h.onMessages() {
					if in.muted == 0 {
						in.oblige(st, at, "all hooks called", complete(st, h), "a message is written that not every hook has accepted")
					}
					st.gval["hk:"+h.name] = Int{cst(0)}
				}
			}
			count(st)
		case strings.HasPrefix(kind, "codec:") && strings.Contains(kind, "Unmarshal") || strings.HasPrefix(kind, "invoke:Unmarshal"):
			for _, h := range lists {
				if h.sig.Params().Len() != 2 || st.ghost["ok:"+h.name] != "" {
					continue
				}
				fine := complete(st, h)
				in.oblige(st, at, "all hooks called", fine, "a message is decoded that not every hook has accepted")
				if fine {
					st.ghost["ok:"+h.name] = "1"
					st.gval["hk:"+h.name] = Int{cst(0)}
				}
			}
		}
	}
	in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
		st := e.st
		if c.IsInvoke() || c.StaticCallee() != nil {
			return []exit{e}
		}
		name := st.ghost["hook"]
		t, ok := e.ret.(Tuple)
		if !ok || len(t) != 2 {
			return []exit{e}
		}
		b, isB := t[0].(Bool)
		er, isE := t[1].(Iface)
		if !isB || !isE {
			return []exit{e}
		}
		good, bad := in.split(st, mkCmp(cEQ, er.NN))
		if name == "" {
			if c.Signature().Params().Len() == 2 && types.Identical(c.Signature().Params().At(1).Type(), errorType) {
				// documented to ask for an error only together with one
				var out []exit
				for _, s := range good {
					_, no := in.split(s, b.C)
					for _, x := range no {
						out = append(out, exit{x, e.ret})
					}
				}
				for _, s := range bad {
					out = append(out, exit{s, e.ret})
				}
				return out
			}
			return []exit{e}
		}
		var out []exit
		for _, s := range bad {
			delete(s.ghost, "hook")
			s.ghost["failed"] = "1"
			s.gval["hk:"+name] = Int{cst(0)}
			out = append(out, exit{s, e.ret})
		}
		for _, s := range good {
			yes, no := in.split(s, b.C)
			for _, x := range yes {
				delete(x.ghost, "hook")
				k, _ := x.gval["hk:"+name].(Int)
				x.gval["hk:"+name] = Int{addc(k.E, 1)}
				out = append(out, exit{x, e.ret})
			}
			for _, x := range no {
				delete(x.ghost, "hook")
				x.gval["hk:"+name] = Int{cst(0)}
				if !reader {
					count(x)
					if byName[name].onLines() {
						x.ghost["dropped"] = "1"
					}
				}
				out = append(out, exit{x, e.ret})
			}
		}
		return out
	}
	g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
		clean := func(st *State) {
			zero(st)
			for _, k := range []string{"failed", "dropped", "hook", "load", "op", "any"} {
				delete(st.ghost, k)
			}
			for _, k := range []string{"load", "given", "data", "handled"} {
				delete(st.gval, k)
			}
		}
		if errResult(m.Signature) < 0 {
			clean(e.st)
			return []exit{e}
		}
		good, bad := in.splitErr(e, m)
		for _, x := range append(append([]exit(nil), good...), bad...) {
			st := x.st
			_, f := in.errAt(x, m)
			isBad := st.c.entailsGE(addc(f.NN, -1))
			if st.ghost["failed"] != "" {
				g.obl(st, m, "hook error returned", isBad, "succeeds although a hook failed")
			} else if m.Name() == "ReadLine" || strings.HasPrefix(m.Name(), "ReadMsg") || strings.HasPrefix(m.Name(), "Write") {
				g.obl(st, m, "hook error returned", true, "")
			}
			if st.ghost["dropped"] != "" && m.Name() == "WriteLine" {
				g.obl(st, m, "dropped alone", !isBad, "fails although the hook only asked to skip the line")
			}
			if strings.HasPrefix(m.Name(), "ReadMsg") {
				g.obl(st, m, "nothing expected", true, "")
			}
		}
		for _, x := range good {
			st := x.st
			for _, h := range lists {
				switch {
				case m.Name() == "ReadLine" && h.onLines():
					g.obl(st, m, "all hooks called", complete(st, h), "returns a line that not every hook has accepted")
				case strings.HasPrefix(m.Name(), "ReadMsg") && h.onMessages():
					g.obl(st, m, "all hooks called", complete(st, h), "returns a message that not every hook has accepted")
				default:
					continue
				}
			}
			if strings.HasPrefix(m.Name(), "WriteMsg") && len(args) == 2 {
				k, _ := st.gval["handled"].(Int)
				if s, ok := args[1].(Slice); ok {
					g.obl(st, m, "all messages handled", in.decide(st, mkCmp(cEQ, sub(k.E, s.Len))) == 1, "succeeds without writing each message, or dropping it because a hook asked for it")
				}
			}
			if m.Name() == "WriteLine" && !outer {
				k, _ := st.gval["handled"].(Int)
				g.obl(st, m, "all messages handled", in.decide(st, mkCmp(cEQ, addc(k.E, -1))) == 1, "succeeds without writing the line exactly once, or dropping it because a hook asked for it")
			}
		}
		all := append(good, bad...)
		for _, x := range all {
			clean(x.st)
		}
		return all
	}
}

// registering: two registrations leave the hooks in the list, in that order.
func (p *Program) registering() []job {
	var out []job
	for _, s := range p.lifecycles() {
		s := s
		for _, m := range p.methodsOf(s.typ) {
			m := m
			if len(m.Params) != 2 || m.Signature.Results().Len() != 0 {
				continue
			}
			sig, ok := m.Params[1].Type().Underlying().(*types.Signature)
			if !ok {
				continue
			}
			out = append(out, job{"register " + s.name + " " + m.Name(), func(in *Interp, mon *recMon) {
				in.entryOptions()
				g := &mgc{in: in, spec: s}
				for _, c := range s.ctors {
					st := in.start()
					var args []Value
					for i, q := range c.Params {
						args = append(args, g.freshArg(st, c, i, q))
					}
					for _, e := range in.callFunc(st, c, args, nil, nil) {
						recv, ok := e.ret.(Ptr)
						if !ok {
							continue
						}
						in.assume(e.st, mkCmp(cEQ, addc(recv.NN, -1)), true)
						recv.NN = cst(1)
						e.st.gval["recv"] = recv
						for _, e1 := range in.callFunc(e.st, m, []Value{recv, Fn{ID: "first", NN: cst(1)}}, nil, nil) {
							g.obl(e1.st, m, "registered last", in.registered(e1.st, recv, sig, "first"), "the hook is not kept")
							before := in.fnLists(e1.st, recv)
							in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
								if kind != "fnappend" {
									return
								}
								st.ghost["appended"] = "no"
								add, _ := args[1].(Tuple)
								if len(add) != 1 {
									return
								}
								if f, ok := add[0].(Fn); !ok || f.ID != "second" {
									return
								}
								for _, l := range before {
									if sameValue(in, st, args[0], l) {
										st.ghost["appended"] = "yes"
										st.gval["appended"] = args[2]
									}
								}
							}
							for _, e2 := range in.callFunc(e1.st, m, []Value{recv, Fn{ID: "second", NN: cst(1)}}, nil, m.Blocks[0].Instrs[0]) {
								fine := in.registered(e2.st, recv, sig, "first", "second")
								if !fine && e2.st.ghost["appended"] == "yes" {
									for _, l := range in.fnLists(e2.st, recv) {
										fine = fine || sameValue(in, e2.st, l, e2.st.gval["appended"])
									}
								}
								g.obl(e2.st, m, "registered last", fine, "hooks are not kept in the order of registration")
							}
							in.track = nil
						}
					}
				}
			}, 100})
		}
	}
	return out
}

// registered looks for a list of exactly these hooks among the fields of an
// object and of what it embeds.
func (in *Interp) registered(st *State, p Ptr, sig *types.Signature, ids ...string) bool {
	ob := in.object(st, p.O)
	if ob == nil {
		return false
	}
	sv, ok := ob.V.(Struct)
	if !ok {
		return false
	}
	u, _ := ob.T.Underlying().(*types.Struct)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if q, ok := sv.F[i].(Ptr); ok && u.Field(i).Embedded() && in.registered(st, q, sig, ids...) {
			return true
		}
		sl, ok := sv.F[i].(Slice)
		if !ok || in.decide(st, mkCmp(cEQ, addc(sl.Len, -int64(len(ids))))) != 1 {
			continue
		}
		same := true
		for k, id := range ids {
			f, ok := in.elem(st, sl.R, addc(sl.Off, int64(k)), nil).(Fn)
			same = same && ok && f.ID == id
		}
		if same {
			return true
		}
	}
	return false
}

// fnLists are the lists of functions an object and what it embeds hold.
func (in *Interp) fnLists(st *State, p Ptr) []Slice {
	ob := in.object(st, p.O)
	if ob == nil {
		return nil
	}
	sv, ok := ob.V.(Struct)
	if !ok {
		return nil
	}
	var out []Slice
	u, _ := ob.T.Underlying().(*types.Struct)
	for i := 0; u != nil && i < u.NumFields(); i++ {
		if q, ok := sv.F[i].(Ptr); ok && u.Field(i).Embedded() {
			out = append(out, in.fnLists(st, q)...)
		}
		sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if _, ok := sl.Elem().Underlying().(*types.Signature); !ok {
			continue
		}
		if v, ok := sv.F[i].(Slice); ok {
			out = append(out, v)
		}
	}
	return out
}
