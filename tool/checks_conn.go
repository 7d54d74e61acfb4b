package main

// P12, P13, P28: histories of connection writers.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// conn: the connection that the user gave to a constructor.
func conn(v Value) bool {
	f, ok := v.(Iface)
	return ok && f.T == nil && strings.HasPrefix(f.ID, "arg:") && !strings.Contains(f.ID, ".")
}

// obl records an obligation at the end of a method.
func (g *mgc) obl(st *State, m *ssa.Function, rule string, ok bool, detail string) {
	if g.in.muted > 0 || len(m.Blocks) == 0 {
		return
	}
	b := m.Blocks[0]
	g.in.oblige(st, b.Instrs[len(b.Instrs)-1], rule, ok, m.Name()+": "+detail)
}

// sentinel: an error made when the module was initialised.
func sentinel(f Iface) bool {
	return strings.HasPrefix(f.ID, "new:") && strings.Contains(f.ID, ".init/") || strings.HasPrefix(f.ID, "globalv:")
}

// sends: an event that passes data or an end of block to the connection. The
// data is nil if it is the end of a block.
func sends(kind string, args []Value) (data Value, ok bool) {
	switch kind {
	case "sink", "zsink":
		return args[1], conn(args[0])
	case "invoke:Write", "invoke:WriteString":
		return args[1], conn(args[0])
	}
	return nil, false
}

// pure calls a method without recording anything.
func (g *mgc) pure(st *State, m *ssa.Function, recv Value) []exit {
	in := g.in
	in.muted++
	tr, af := in.track, in.after
	in.track, in.after = nil, nil
	defer func() { in.muted--; in.track, in.after = tr, af }()
	return in.callFunc(st.clone(), m, []Value{recv}, nil, nil)
}

// nameFields gives unknown interface values of the receiver an identity.
func (g *mgc) nameFields(st *State) {
	p, ok := st.gval["recv"].(Ptr)
	if !ok {
		return
	}
	ob := g.in.object(st, p.O)
	if ob == nil {
		return
	}
	sv, ok := ob.V.(Struct)
	u, isS := ob.T.Underlying().(*types.Struct)
	if !ok || !isS {
		return
	}
	f := append([]Value(nil), sv.F...)
	for i := range f {
		if x, ok := f[i].(Iface); ok && x.ID == "mix" && i < u.NumFields() {
			x.ID = "u:field." + u.Field(i).Name()
			f[i] = x
		}
	}
	n := *ob
	n.V = Struct{f}
	st.obj[p.O] = &n
}

// writers: lifecycles of types that write lines.
func (p *Program) writers(s lifecycleSpec) bool { return p.method(s.typ, "WriteLine") != nil }
func (p *Program) readers(s lifecycleSpec) bool { return p.method(s.typ, "ReadLine") != nil }

// outer: a connection type that builds on one of another package.
func (p *Program) outer(s lifecycleSpec) bool {
	for _, n := range []string{"WriteLine", "ReadLine"} {
		if m := p.method(s.typ, n); m != nil && m.Object() != nil {
			if m.Object().Pkg() != namedOf(deref(s.typ)).Obj().Pkg() {
				return true
			}
		}
	}
	return false
}

func keepExits(in *Interp) {
	in.opts.ExitMerge, in.opts.Soft, in.opts.MaxStates = 64, 64, 200
}

func init() {
	checks["P12"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Typestate over every sequence of calls of a connection writer with a connection that may fail at any write: once an operation failed or the writer was closed, every later operation must return an error on all paths, no path may pass anything to the connection, and the error reported by Err must be the same value before and after. For writers built on another one the operations of the inner writer are assumed to fail, and every operation must then fail.")
		jobs := p.lifecycleJobs(func(s lifecycleSpec) bool { return p.writers(s) && !p.outer(s) }, func(g *mgc, mon *recMon) {
			in := g.in
			keepExits(in)
			errM := p.method(g.spec.typ, "Err")
			errOf := func(st *State) (Iface, bool) {
				if errM == nil {
					return Iface{}, false
				}
				var f Iface
				for i, e := range g.pure(st, errM, st.gval["recv"]) {
					x, ok := e.ret.(Iface)
					if !ok || i > 0 && x.ID != f.ID {
						return f, false
					}
					f = x
				}
				return f, true
			}
			g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) {
				st.ghost["was"] = st.ghost["dead"]
				st.ghost["op"] = m.Name()
				g.nameFields(st)
				if f, ok := errOf(st); ok && st.ghost["dead"] != "" {
					st.gval["pre"] = f
				}
			}
			in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
				_, ok := sends(kind, args)
				if !ok || st.ghost["op"] == "" {
					return
				}
				dead := st.ghost["was"] != ""
				if st.ghost["op"] == "Close" && st.ghost["was"] != "closed" {
					dead = false // the final flush
				}
				in.oblige(st, at, "silent after failure", !dead, "data is sent by "+st.ghost["op"]+" after the writer failed or was closed")
			}
			g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
				st := e.st
				was := st.ghost["was"]
				i := errResult(m.Signature)
				if was != "" {
					if i >= 0 && m.Name() != "Err" && m.Name() != "Close" {
						_, f := in.errAt(e, m)
						g.obl(st, m, "failed stays failed", f.NN.isConst() && f.NN.C == 1 || st.c.entailsGE(addc(f.NN, -1)), "may succeed after an earlier failure or Close")
					}
					pre, _ := st.gval["pre"].(Iface)
					now, ok := errOf(st)
					g.obl(st, m, "first error kept", ok && st.c.entailsGE(addc(now.NN, -1)) && (now.ID == pre.ID && now.ID != "mix"), "the error that is reported changes after an earlier failure or Close")
				}
				delete(st.gval, "pre")
				delete(st.ghost, "was")
				delete(st.ghost, "op")
				if was == "closed" || i < 0 || m.Name() == "Err" {
					return []exit{e}
				}
				if m.Name() == "Close" {
					st.ghost["dead"] = "closed"
					now, ok := errOf(st)
					g.obl(st, m, "failure recorded", ok && st.c.entailsGE(addc(now.NN, -1)), "Err reports nothing after Close")
					return []exit{e}
				}
				var out []exit
				good, bad := in.splitErr(e, m)
				for _, x := range good {
					out = append(out, x)
				}
				for _, x := range bad {
					_, f := in.errAt(x, m)
					if was == "" && sentinel(f) {
						// wrong use; nothing failed
						out = append(out, x)
						continue
					}
					now, ok := errOf(x.st)
					g.obl(x.st, m, "failure recorded", ok && x.st.c.entailsGE(addc(now.NN, -1)), "Err reports nothing after a failure")
					x.st.ghost["dead"] = "failed"
					out = append(out, x)
				}
				return out
			}
		})
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return p.writers(s) && p.outer(s) }, func(g *mgc, mon *recMon) {
			in := g.in
			keepExits(in)
			g.innerRes = func(m *mcall, fn *ssa.Function) ([]exit, bool) {
				i := errResult(fn.Signature)
				if i < 0 || g.codec(fn) {
					return nil, false
				}
				var out []exit
				for _, e := range in.results(m.st, m.at, fn.String(), fn.Signature) {
					er := Iface{NN: cst(1), ID: "u:dead"}
					if t, ok := e.ret.(Tuple); ok && fn.Signature.Results().Len() > 1 {
						t = append(Tuple(nil), t...)
						t[i] = er
						out = append(out, exit{e.st, t})
					} else {
						out = append(out, exit{e.st, er})
					}
				}
				return out, true
			}
			in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
				if _, ok := sends(kind, args); ok {
					in.oblige(st, at, "writes go through the line writer", false, "data is sent without the line writer that remembers failures")
				}
			}
			g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
				if errResult(m.Signature) >= 0 && m.Name() != "Close" {
					_, f := in.errAt(e, m)
					g.obl(e.st, m, "failed stays failed", e.st.c.entailsGE(addc(f.NN, -1)), "may succeed although the line writer failed or was closed")
				}
				return []exit{e}
			}
		})...)
		r.jobs(p, jobs, map[string]bool{"silent after failure": true, "failed stays failed": true, "first error kept": true, "failure recorded": true, "writes go through the line writer": true})
		r.atLeast("failed stays failed", 30)
		r.atLeast("first error kept", 6)
		r.atLeast("silent after failure", 2)
		r.atLeast("failure recorded", 5)
	}}

	checks["P28"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Typestate over every sequence of calls of a connection writer: with a timeout callback set, no path passes data to the buffer or the connection unless the callback was asked to arm the deadline and succeeded, and every path that armed it disarms it before the operation ends.")
		jobs := p.lifecycleJobs(func(s lifecycleSpec) bool { return p.writers(s) && !p.outer(s) }, func(g *mgc, mon *recMon) {
			in := g.in
			keepExits(in)
			isTimeout := func(c *ssa.CallCommon) bool {
				s := c.Signature()
				if c.IsInvoke() || c.StaticCallee() != nil || s.Params().Len() != 1 {
					return false
				}
				b, ok := s.Params().At(0).Type().Underlying().(*types.Basic)
				return ok && b.Kind() == types.Bool
			}
			// field of the callback
			unset := func(st *State) bool {
				p0, ok := st.gval["recv"].(Ptr)
				if !ok {
					return false
				}
				ob := in.object(st, p0.O)
				if ob == nil {
					return false
				}
				sv, _ := ob.V.(Struct)
				u, _ := ob.T.Underlying().(*types.Struct)
				for i := 0; u != nil && i < u.NumFields() && i < len(sv.F); i++ {
					if s, ok := u.Field(i).Type().Underlying().(*types.Signature); ok && s.Params().Len() == 1 {
						if b, ok := s.Params().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
							f, ok := sv.F[i].(Fn)
							return ok && st.c.entailsGE(neg(f.NN))
						}
					}
				}
				return false
			}
			g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) {
				delete(st.ghost, "armed")
				st.ghost["op"] = m.Name()
			}
			in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
				_, ok := sends(kind, args)
				if !ok && kind != "bufwr" || st.ghost["op"] == "" {
					return
				}
				a := st.ghost["armed"]
				fine := a == "1" || a == "failed" && st.ghost["op"] == "Close"
				if !fine && in.muted == 0 {
					fine = unset(st)
				}
				what := "the deadline may not be armed"
				if a == "failed" {
					what = "arming the deadline failed"
				}
				in.oblige(st, at, "armed before sending", fine, what+" when "+st.ghost["op"]+" writes")
			}
			in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
				if !isTimeout(c) {
					return []exit{e}
				}
				var on []*State
				arg := in.val(e.st, c.Args[0])
				b, _ := arg.(Bool)
				if b.C == nil {
					in.gap("the deadline callback is given an untracked value in %s", p.short(at.Parent().String()))
					return []exit{e}
				}
				arm, dis := in.split(e.st, b.C)
				var out []exit
				for _, s := range dis {
					delete(s.ghost, "armed")
					out = append(out, exit{s, e.ret})
				}
				on = arm
				for _, s := range on {
					good, bad := in.errNil(exit{s, e.ret})
					for _, x := range good {
						x.st.ghost["armed"] = "1"
						out = append(out, x)
					}
					for _, x := range bad {
						x.st.ghost["armed"] = "failed"
						out = append(out, x)
					}
				}
				return out
			}
			g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
				g.obl(e.st, m, "disarmed at the end", e.st.ghost["armed"] != "1", "the deadline stays armed")
				if e.st.ghost["armed"] == "failed" && errResult(m.Signature) >= 0 {
					_, f := in.errAt(e, m)
					g.obl(e.st, m, "arming failure reported", e.st.c.entailsGE(addc(f.NN, -1)), "succeeds although the deadline was not armed")
				}
				delete(e.st.ghost, "armed")
				delete(e.st.ghost, "op")
				return []exit{e}
			}
		})
		r.jobs(p, jobs, map[string]bool{"armed before sending": true, "disarmed at the end": true, "arming failure reported": true})
		r.atLeast("armed before sending", 4)
		r.atLeast("disarmed at the end", 8)
		r.atLeast("arming failure reported", 4)
	}}
}

// errAt is the error among the results of a method.
func (in *Interp) errAt(e exit, m *ssa.Function) (bool, Iface) {
	v := e.ret
	if t, ok := v.(Tuple); ok && m.Signature.Results().Len() > 1 {
		v = t[errResult(m.Signature)]
	}
	f, ok := v.(Iface)
	return ok, f
}

func (in *Interp) splitErr(e exit, m *ssa.Function) (good, bad []exit) {
	_, f := in.errAt(e, m)
	a, b := in.split(e.st, mkCmp(cEQ, f.NN))
	for _, s := range a {
		good = append(good, exit{s, e.ret})
	}
	for _, s := range b {
		bad = append(bad, exit{s, e.ret})
	}
	return
}

func switchOn(m string) bool  { return strings.HasPrefix(m, "EnableZlib") }
func switchOff(m string) bool { return strings.HasPrefix(m, "DisableZlib") }

func init() {
	checks["P13"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Typestate over every sequence of calls. Writers: data that reaches the connection is compressed exactly while compression is on; nothing is discarded from a buffer or overtaken in it; a successful switch, flush or close leaves nothing buffered, and one that ends compression has finished the compressed block. Readers: bytes come from the decompressor exactly while compression is on; the decompressor reads from the same buffer object as plain reading, which is returned to at the end of the block and only there.")
		jobs := p.lifecycleJobs(func(s lifecycleSpec) bool { return p.writers(s) && !p.outer(s) }, func(g *mgc, mon *recMon) { p.switchingWriter(g) })
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return p.readers(s) && !p.outer(s) }, func(g *mgc, mon *recMon) { p.switchingReader(g) })...)
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return p.writers(s) && p.outer(s) }, func(g *mgc, mon *recMon) { p.announced(g) })...)
		r.jobs(p, jobs, map[string]bool{"lost": true, "zclosed": true, "mode": true, "order": true, "drained": true, "block finished": true,
			"source": true, "end of block": true, "announced": true, "twice": true})
		r.atLeast("lost", 2)
		r.atLeast("mode", 6)
		r.atLeast("order", 3)
		r.atLeast("drained", 4)
		r.atLeast("block finished", 1)
		r.atLeast("source", 3)
		r.atLeast("end of block", 2)
		r.atLeast("announced", 2)
	}}
}

func (p *Program) switchingWriter(g *mgc) {
	in := g.in
	keepExits(in)
	pending := func(st *State) (Expr, bool) {
		q, ok := st.gval["bw"].(Ptr)
		if !ok {
			return Expr{}, false
		}
		n, ok := in.cell(st, q, nil).(Native)
		if !ok {
			return Expr{}, false
		}
		k, ok := n.F["n"].(Int)
		return k.E, ok
	}
	empty := func(st *State) bool {
		k, ok := pending(st)
		return ok && st.c.entailsGE(neg(k))
	}
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		op := st.ghost["op"]
		if op == "" {
			return
		}
		data, ok := sends(kind, args)
		if ok && !st.c.entailsGE(neg(lenOf(data))) {
			on := st.ghost["z"] == "on"
			if kind == "zsink" {
				in.oblige(st, at, "mode", on, "data is compressed by "+op+" while compression is off")
			} else {
				in.oblige(st, at, "mode", !on, "data is sent uncompressed by "+op+" while compression is on")
			}
		}
		if kind == "invoke:Write" && conn(args[0]) || kind == "call:(*compress/zlib.Writer).Write" {
			if in.muted == 0 {
				in.oblige(st, at, "order", empty(st), op+" sends data ahead of buffered data")
			}
		}
		if kind == "zsink" && conn(args[0]) {
			st.ghost["zdirty"] = "1"
			delete(st.ghost, "zfin")
		}
	}
	in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
		n := calleeName(c)
		switch {
		case strings.HasPrefix(n, "bufio.NewWriter"):
			if _, had := e.st.gval["bw"]; had {
				in.oblige(e.st, at, "lost", empty(e.st), "a buffer is replaced that may hold data")
			}
			e.st.gval["bw"] = e.ret
		case n == "(*compress/zlib.Writer).Flush" || n == "(*compress/zlib.Writer).Close":
			good, bad := in.errNil(e)
			for _, x := range good {
				delete(x.st.ghost, "zdirty")
				if n == "(*compress/zlib.Writer).Close" {
					x.st.ghost["zfin"] = "1"
				}
			}
			return append(good, bad...)
		}
		return []exit{e}
	}
	g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) {
		st.ghost["op"] = m.Name()
		delete(st.ghost, "zfin")
	}
	g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
		delete(e.st.ghost, "op")
		if errResult(m.Signature) < 0 {
			return []exit{e}
		}
		good, bad := in.splitErr(e, m)
		for _, x := range good {
			st := x.st
			on := st.ghost["z"] == "on"
			sw := switchOn(m.Name()) || switchOff(m.Name())
			if sw || m.Name() == "Flush" || m.Name() == "Close" && st.ghost["closed"] == "" {
				g.obl(st, m, "drained", empty(st) && (!on || st.ghost["zdirty"] == ""), "succeeds with data still buffered")
			}
			if switchOff(m.Name()) && on {
				g.obl(st, m, "block finished", st.ghost["zfin"] == "1", "the compressed block may not be finished")
				delete(st.ghost, "z")
			}
			if switchOn(m.Name()) {
				g.obl(st, m, "twice", !on, "compression is switched on while it is on")
				st.ghost["z"] = "on"
			}
			delete(st.ghost, "zfin")
		}
		for _, x := range bad {
			delete(x.st.ghost, "zfin")
		}
		all := append(good, bad...)
		if m.Name() == "Close" {
			for _, x := range all {
				x.st.ghost["closed"] = "1"
			}
		}
		return all
	}
}

// announced: the message that tells the other side of the switch.
func (p *Program) announced(g *mgc) {
	in := g.in
	keepExits(in)
	g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) {
		delete(st.ghost, "ann")
		st.ghost["op"] = m.Name()
	}
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		op := st.ghost["op"]
		switch {
		case kind == "inner:WriteLine":
			delete(st.ghost, "ann")
			if s, ok := args[1].(Slice); ok {
				if t, ok := in.constText(st, s); ok && t == "$ZOn|" {
					st.ghost["ann"] = "try"
				}
			}
		case strings.HasPrefix(kind, "inner:Enable") && op != "" && !switchOn(op):
			in.oblige(st, at, "announced", st.ghost["ann"] == "1", op+" switches compression on without announcing it right before")
		}
	}
	in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
		f := c.StaticCallee()
		if e.st.ghost["ann"] != "try" || f == nil || f.Name() != "WriteLine" {
			return []exit{e}
		}
		good, bad := in.errNil(e)
		for _, x := range good {
			x.st.ghost["ann"] = "1"
		}
		for _, x := range bad {
			delete(x.st.ghost, "ann")
		}
		return append(good, bad...)
	}
	g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
		if p.hasMethod(g.spec.typ, "ZOn") && strings.HasPrefix(m.Name(), "ZOn") {
			good, bad := in.splitErr(e, m)
			for _, x := range good {
				g.obl(x.st, m, "announced", x.st.ghost["ann"] == "1", "may succeed without announcing compression")
			}
			for _, x := range append(append([]exit(nil), good...), bad...) {
				delete(x.st.ghost, "ann")
			}
			return append(good, bad...)
		}
		delete(e.st.ghost, "ann")
		return []exit{e}
	}
}

func (p *Program) hasMethod(t types.Type, name string) bool { return p.method(t, name) != nil }

func (p *Program) switchingReader(g *mgc) {
	in := g.in
	keepExits(in)
	in.opts.ErrIDs = true
	zr := func(v Value) bool {
		f, ok := v.(Iface)
		return ok && strings.HasPrefix(f.ID, "zlibr:")
	}
	recvOf := func(st *State, at ssa.Instruction) (Ptr, bool) {
		f := at.Parent()
		if f.Signature.Recv() == nil || len(f.Params) == 0 {
			return Ptr{}, false
		}
		q, ok := in.val(st, f.Params[0]).(Ptr)
		return q, ok
	}
	// all plain bytes come through one object
	source := func(st *State, at ssa.Instruction, q Ptr, ok bool, what string) {
		if !ok {
			in.oblige(st, at, "source", false, what+" is not a tracked object")
			return
		}
		if st.ghost["src"] == "" {
			st.ghost["src"] = "1"
			st.gval["src"] = q
		}
		s, isP := st.gval["src"].(Ptr)
		in.oblige(st, at, "source", isP && s.O == q.O && q.O != 0, what+" is not the buffer that plain reading uses")
	}
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		op := st.ghost["op"]
		if op == "" {
			return
		}
		switch kind {
		case "zopen", "invoke:Reset":
			a := args[0]
			if kind == "invoke:Reset" {
				if !zr(a) {
					return
				}
				a = args[1]
			}
			f, ok := a.(Iface)
			q, isP := f.V.(Ptr)
			source(st, at, q, ok && isP, "the source of the decompressor")
			br := ok && f.T != nil && p.hasMethod(f.T, "ReadByte")
			in.oblige(st, at, "source", br, "the source of the decompressor cannot be read by single bytes, so that data after the block is lost")
		case "invoke:Read":
			if !zr(args[0]) && !conn(args[0]) {
				return
			}
			q, ok := recvOf(st, at)
			if ok && in.muted == 0 {
				if left, ok := in.unread(st, q); ok {
					in.oblige(st, at, "order", left, "data is read while the buffer holds unread data")
				}
			}
			if zr(args[0]) {
				in.oblige(st, at, "mode", st.ghost["z"] != "", op+" reads from the decompressor while compression is off")
				return
			}
			in.oblige(st, at, "mode", st.ghost["z"] != "on", op+" reads compressed data as it is")
			source(st, at, q, ok, "the reader of the connection")
			delete(st.ghost, "z")
		}
	}
	in.after = func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit {
		if !c.IsInvoke() || c.Method.Name() != "Read" || !zr(in.val(e.st, c.Value)) {
			return []exit{e}
		}
		good, bad := in.errNil(e)
		var out []exit
		if e.st.ghost["z"] != "eof" {
			out = good
			for _, x := range good {
				x.st.ghost["zr"] = "ok"
			}
		}
		for _, x := range bad {
			t := append(Tuple(nil), x.ret.(Tuple)...)
			s2 := x.st.clone()
			t[1] = Iface{NN: cst(1), ID: "new:corrupt"}
			if x.st.ghost["z"] != "eof" {
				x.st.ghost["zr"] = "bad"
				out = append(out, exit{x.st, t})
			}
			s2.ghost["zr"] = "eof"
			t2 := append(Tuple(nil), t...)
			t2[1] = Iface{NN: cst(1), ID: "globalv:io.EOF"}
			s2.ghost["z"] = "eof"
			out = append(out, exit{s2, t2})
		}
		return out
	}
	g.begin = func(st *State, recv Ptr, m *ssa.Function, args []Value) { st.ghost["op"] = m.Name() }
	g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
		delete(e.st.ghost, "op")
		delete(e.st.ghost, "zr")
		if m.Name() == "Close" && types.Identical(m.Signature.Recv().Type(), g.spec.typ) {
			delete(e.st.ghost, "z")
		}
		if errResult(m.Signature) < 0 {
			return []exit{e}
		}
		good, bad := in.splitErr(e, m)
		if switchOn(m.Name()) {
			for _, x := range good {
				g.obl(x.st, m, "twice", x.st.ghost["z"] != "on", "compression is switched on while it is on")
				x.st.ghost["z"] = "on"
			}
		}
		for _, x := range bad {
			_, f := in.errAt(x, m)
			if strings.HasPrefix(m.Name(), "Read") {
				g.obl(x.st, m, "end of block", x.st.ghost["z"] != "eof" || f.ID != "globalv:io.EOF", "the end of a compressed block is reported as the end of the connection")
			}
		}
		return append(good, bad...)
	}
}

// unread tells if the buffer of a buffering reader is used up.
func (in *Interp) unread(st *State, q Ptr) (bool, bool) {
	ob := in.object(st, q.O)
	if ob == nil {
		return false, false
	}
	sv, ok := ob.V.(Struct)
	u, isS := ob.T.Underlying().(*types.Struct)
	if !ok || !isS {
		return false, false
	}
	var buf *Slice
	var off *Int
	for i := 0; i < u.NumFields(); i++ {
		switch x := sv.F[i].(type) {
		case Slice:
			if buf != nil {
				return false, false
			}
			buf = &x
		case Int:
			if off != nil {
				return false, false
			}
			off = &x
		}
	}
	if buf == nil || off == nil {
		return false, false
	}
	return st.c.entailsGE(sub(off.E, buf.Len)), true
}
