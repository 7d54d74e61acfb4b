package main

// P14 and P16: limits on what is accepted, and lines that are no messages.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// limitField is the field that a limit setter assigns its argument to.
func limitField(m *ssa.Function) (int, bool) {
	if m == nil || len(m.Params) != 2 {
		return 0, false
	}
	var ints []ssa.Value
	if b, ok := m.Params[1].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	ints = append(ints, m.Params[1])
	for _, b := range m.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Val == ints[0] {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == m.Params[0] {
					return fa.Field, true
				}
			}
		}
	}
	return 0, false
}

// recvField is the value of a field of the object whose methods are called.
func (g *mgc) recvField(st *State, i int) Value {
	p, ok := st.gval["recv"].(Ptr)
	if !ok {
		return nil
	}
	ob := g.in.object(st, p.O)
	if ob == nil {
		return nil
	}
	if sv, ok := ob.V.(Struct); ok && i < len(sv.F) {
		return sv.F[i]
	}
	return nil
}

// nameFields are the fields of NMDC messages that hold a user name on the wire.
var userNames = strings.Fields(`ChatMessage.Name PrivateMessage.To PrivateMessage.From PrivateMessage.Name
	MyINFO.Name ValidateNick.Name ValidateDenide.Name Quit.Name Hello.Name OpForceMove.Who
	ConnectToMe.Targ ConnectToMe.Src Search.User:decode SR.From SR.To TTHSearchPassive.User RevConnectToMe.From RevConnectToMe.To UserIP.List:decode MCTo.To MCTo.From MyNick.Name GetINFO.User Kick.Name`)

// within: a length is at most n.
func (in *Interp) within(st *State, l Expr, n int64) bool {
	return in.decide(st, mkCmp(cGE, sub(cst(n), l))) == 1
}

const nameLimit = 256

func init() {
	checks["P14"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation with linear relations between lengths and the limits: on every successful exit of reading a line its length is within the configured limit, and on every exit the length of what was kept is; a name is within its limit on every successful exit of its encoder and decoder and of those of the messages that hold names; a command name that reaches the message table is within the configured limit.")
		var jobs []job
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return p.readers(s) && !p.outer(s) }, func(g *mgc, mon *recMon) { p.lineLimit(g) })...)
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool {
			return p.readers(s) && p.outer(s) && p.method(s.typ, "SetMaxCmdName") != nil
		}, func(g *mgc, mon *recMon) { p.cmdLimit(g) })...)
		jobs = append(jobs, p.nameLimits()...)
		r.jobs(p, jobs, map[string]bool{"line within limit": true, "buffer within limit": true, "command name within limit": true, "name within limit": true})
		r.atLeast("line within limit", 1)
		r.atLeast("buffer within limit", 1)
		r.atLeast("command name within limit", 1)
		r.atLeast("name within limit", 12)
	}}
	checks["P16"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation with byte sets per position: the line reader is replaced by one that may return any bytes; wherever a message decoder is called, the line has at least one byte besides its last, which is the delimiter, and no NUL. Names looked up in the message table are not empty and ASCII. Every successful exit of the packet decoders, for each first byte, has a known kind, a final newline, no NUL, and separators after the command name and the addresses of that kind.")
		var jobs []job
		jobs = append(jobs, p.lifecycleJobs(func(s lifecycleSpec) bool { return p.readers(s) && p.outer(s) }, func(g *mgc, mon *recMon) { p.wellFormed(g) })...)
		jobs = append(jobs, p.packetForms()...)
		r.jobs(p, jobs, map[string]bool{"delimiter": true, "no NUL": true, "not empty": true, "command name": true, "known kind": true, "separator": true})
		r.atLeast("delimiter", 3)
		r.atLeast("no NUL", 3)
		r.atLeast("not empty", 2)
		r.atLeast("command name", 1)
		r.atLeast("known kind", 2)
		r.atLeast("separator", 2)
	}}
}

func (p *Program) lineLimit(g *mgc) {
	in := g.in
	lim, found := limitField(p.method(g.spec.typ, "SetMaxLine"))
	limited := func(st *State) []*State {
		mx, ok := g.recvField(st, lim).(Int)
		if !ok || !found {
			return []*State{st}
		}
		y, n := in.split(st, mkCmp(cGE, addc(mx.E, -1)))
		for _, s := range y {
			s.ghost["limited"] = "yes"
		}
		for _, s := range n {
			s.ghost["limited"] = "no"
		}
		return append(y, n...)
	}
	g.made = func(st *State, recv Ptr) {
		if mx, ok := g.recvField(st, lim).(Int); ok && in.decide(st, mkCmp(cGE, addc(mx.E, -1))) == 1 {
			st.ghost["limited"] = "yes"
		} else {
			st.ghost["limited"] = "no"
		}
	}
	g.exits = func(e exit, m *ssa.Function, args []Value) []exit {
		if !strings.HasPrefix(m.Name(), "SetMax") {
			return []exit{e}
		}
		var out []exit
		for _, s := range limited(e.st) {
			out = append(out, exit{s, e.ret})
		}
		return out
	}
	g.end = func(e *exit, m *ssa.Function, args []Value) {
		if in.muted > 0 || !found {
			return
		}
		st := e.st
		mx, ok := g.recvField(st, lim).(Int)
		if !ok {
			g.obl(st, m, "line within limit", false, "the limit is not known")
			return
		}
		limited, _ := in.split(st, mkCmp(cGE, addc(mx.E, -1)))
		for _, s := range limited {
			if m.Name() == "ReadLine" {
				if t, ok := e.ret.(Tuple); ok {
					good, _ := in.errNil(exit{s.clone(), e.ret})
					for _, x := range good {
						if l, ok := t[0].(Slice); ok {
							g.obl(x.st, m, "line within limit", in.decide(x.st, mkCmp(cGE, sub(mx.E, l.Len))) == 1, "a line longer than the limit is returned")
						}
					}
				}
				u, _ := deref(g.spec.typ).Underlying().(*types.Struct)
				for i := 0; u != nil && i < u.NumFields(); i++ {
					if sl, ok := u.Field(i).Type().Underlying().(*types.Slice); !ok || !isByteElem(sl.Elem()) {
						continue
					}
					if l, ok := g.recvField(s, i).(Slice); ok {
						g.obl(s, m, "buffer within limit", in.decide(s, mkCmp(cGE, sub(mx.E, l.Len))) == 1, "more than the limit is kept in "+u.Field(i).Name())
					}
				}
			}
		}
	}
}

func (p *Program) cmdLimit(g *mgc) {
	in := g.in
	lim, found := limitField(p.method(g.spec.typ, "SetMaxCmdName"))
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		if in.muted > 0 || kind != "enter:nmdc.NewMessage" {
			return
		}
		s, ok := args[0].(Str)
		mx, ok2 := g.recvField(st, lim).(Int)
		in.oblige(st, at, "command name within limit", found && ok && ok2 && in.decide(st, mkCmp(cGE, sub(mx.E, s.Len))) == 1, "a command name longer than the limit is accepted")
	}
}

func (p *Program) nameLimits() []job {
	var out []job
	var fns []*ssa.Function
	for _, f := range []string{"nmdc.Name", "nmdc.Names"} {
		for _, m := range []string{"MarshalNMDC", "UnmarshalNMDC"} {
			pk := p.named(f)
			if pk == nil || f == "nmdc.Names" && m == "MarshalNMDC" {
				continue
			}
			if x := p.method(types.NewPointer(pk), m); x != nil {
				fns = append(fns, x)
			}
		}
	}
	type held struct {
		f      *ssa.Function
		fields []int
		decode bool
	}
	var hs []held
	for _, f := range fns {
		hs = append(hs, held{f, nil, strings.HasPrefix(f.Name(), "Un")})
	}
	for _, n := range p.messageTypes("nmdc") {
		u, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var fs, dfs []int
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range userNames {
				if x == n.Obj().Name()+"."+u.Field(i).Name() {
					fs = append(fs, i)
				}
				if x == n.Obj().Name()+"."+u.Field(i).Name()+":decode" {
					dfs = append(dfs, i)
				}
			}
		}
		if len(fs)+len(dfs) == 0 {
			continue
		}
		for _, m := range []string{"MarshalNMDC", "UnmarshalNMDC"} {
			if x := p.method(types.NewPointer(n), m); x != nil {
				fs := fs
				if m == "UnmarshalNMDC" {
					fs = append(append([]int(nil), fs...), dfs...)
				}
				if len(fs) == 0 {
					continue
				}
				hs = append(hs, held{x, fs, strings.HasPrefix(m, "Un")})
			}
		}
	}
	for _, h := range hs {
		h := h
		out = append(out, job{"names " + p.short(h.f.String()), func(in *Interp, mon *recMon) {
			in.entryOptions()
			st := in.start()
			var args []Value
			for i, q := range h.f.Params {
				v := in.arg(st, q)
				if h.decode && i == 1 {
					if x, ok := v.(Ptr); ok { // no decoder: it may change lengths
						x.NN = cst(0)
						v = x
					}
				}
				if x, ok := v.(Ptr); ok && h.decode && i == 0 {
					x.O = in.newObject(st, deref(q.Type()), in.zero(st, deref(q.Type()), "msg"))
					v = x
				}
				args = append(args, v)
			}
			g := &mgc{in: in}
			st.gval["arg"] = args[0]
			for _, e := range in.callFunc(st, h.f, args, nil, nil) {
				good, _ := in.errNil(e)
				for _, x := range good {
					var v Value = args[0]
					if q, ok := v.(Ptr); ok {
						ob := in.object(x.st, q.O)
						if ob == nil {
							continue
						}
						v = ob.V
					}
					check := func(v Value, what string) {
						if l, isL := v.(Slice); isL && l.R != 0 {
							v = in.elem(x.st, l.R, add(l.Off, in.freshRange(x.st, "i", 0, lenMax)), nil)
							if sv, isS := v.(Struct); isS && len(sv.F) > 0 {
								v = sv.F[0]
							}
						} else if isL {
							return
						}
						s, ok := v.(Str)
						g.obl(x.st, h.f, "name within limit", ok && in.within(x.st, s.Len, nameLimit), fmt.Sprintf("%s longer than %d bytes is accepted", what, nameLimit))
					}
					if h.fields == nil {
						check(v, "a name")
						continue
					}
					sv, _ := v.(Struct)
					u := namedOf(deref(h.f.Signature.Recv().Type())).Underlying().(*types.Struct)
					for _, i := range h.fields {
						if i < len(sv.F) {
							check(sv.F[i], u.Field(i).Name())
						}
					}
				}
			}
		}, 1000})
	}
	return out
}

// wellFormed: a reader over a line source that may return anything.
func (p *Program) wellFormed(g *mgc) {
	in := g.in
	delim, known := g.delim()
	g.innerRes = func(m *mcall, fn *ssa.Function) ([]exit, bool) {
		if fn.Name() != "ReadLine" {
			return nil, false
		}
		in.consumeRead(m.st)
		s2 := m.st.clone()
		mk := func(s *State) Slice {
			n := in.freshRange(s, "n", 0, argMax)
			id := in.newBytes(s, m.site("line"), n, plain(allBytes), "line", true)
			return Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)}
		}
		a, b := mk(m.st), mk(s2)
		m.st.ghost["line"] = "ok"
		s2.ghost["line"] = "failed"
		return []exit{{m.st, Tuple{a, nilErr()}}, {s2, Tuple{b, m.unkErr()}}}, true
	}
	in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
		if kind == "enter:nmdc.NewMessage" && in.muted == 0 {
			s, ok := args[0].(Str)
			good := ok && in.decide(st, mkCmp(cGE, addc(s.Len, -1))) == 1
			in.oblige(st, at, "command name", good, "a command without a name is looked up")
			if ok {
				in.oblige(st, at, "command name", in.ascii(st, s.R, s.Off, add(s.Off, s.Len)), "a command name that is not ASCII is looked up")
			}
			return
		}
		if !strings.HasPrefix(kind, "codec:") && !strings.HasPrefix(kind, "invoke:Unmarshal") || strings.Contains(kind, "Marshal") {
			return
		}
		raw := strings.HasPrefix(kind, "codec:adc.DecodePacket")
		if !raw && !strings.Contains(kind, "UnmarshalNMDC") {
			return
		}
		if in.muted > 0 {
			return
		}
		var l Slice
		n := 0
		for id, rg := range st.reg {
			if rg.Own == "line" && !rg.SumR {
				n++
				l = Slice{R: id, Len: rg.N}
			}
		}
		if n != 1 {
			in.oblige(st, at, "delimiter", false, "the line that is decoded is not known")
			return
		}
		in.oblige(st, at, "delimiter", st.ghost["line"] == "ok", "a line that could not be read is decoded")
		in.oblige(st, at, "not empty", in.decide(st, mkCmp(cGE, addc(l.Len, -2))) == 1, "an empty line is decoded as a message")
		if raw {
			return // decided for the packet decoder
		}
		end := add(l.Off, l.Len)
		last := in.fine(st, l.R, addc(end, -1), end)
		in.oblige(st, at, "delimiter", known && last.and(setOf(delim).not()).empty() && !last.empty(), "a line that does not end in the delimiter is decoded")
		in.oblige(st, at, "no NUL", !in.fine(st, l.R, l.Off, end).has(0), "a line that contains NUL is decoded")
	}
}

func (in *Interp) ascii(st *State, r Rid, lo, hi Expr) bool {
	s := in.fine(st, r, lo, hi)
	for c := 128; c < 256; c++ {
		if s.has(byte(c)) {
			return false
		}
	}
	return true
}

// separators of the kinds of ADC packets: offsets that must hold a space or
// the final newline.
var separators = map[byte][]int64{
	'I': {4}, 'H': {4}, 'C': {4}, 'B': {4, 9}, 'F': {4, 9}, 'D': {4, 9, 14}, 'E': {4, 9, 14}, 'U': {4, 44},
}

func (p *Program) packetForms() []job {
	var out []job
	iface := p.named("adc.Packet")
	for _, f := range p.fns {
		f := f
		s := f.Signature
		if iface == nil || !p.exported(f) || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !types.Identical(s.Results().At(0).Type(), iface) {
			continue
		}
		if sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice); !ok || !isByteElem(sl.Elem()) {
			continue
		}
		// run interprets the decoder for lines that satisfy a condition.
		run := func(name, rule, detail string, accept bool, cond func(in *Interp, st *State, d Slice)) {
			out = append(out, job{"packet " + f.Name() + " " + name, func(in *Interp, mon *recMon) {
				in.entryOptions()
				st := in.start()
				d, _ := in.arg(st, f.Params[0]).(Slice)
				st.cw().addGE(addc(d.Len, -1))
				st.gval["data"] = d
				cond(in, st, d)
				end := add(d.Off, d.Len)
				clean := func(st *State) bool { return !in.fine(st, d.R, d.Off, end).has(0) }
				in.track = func(st *State, at ssa.Instruction, kind string, args []Value) {
					if strings.HasSuffix(kind, ".UnmarshalPacketADC") && clean(st) {
						st.ghost["clean"] = "1"
					}
				}
				g := &mgc{in: in}
				n := 0
				for _, e := range in.callFunc(st, f, []Value{d}, nil, nil) {
					good, _ := in.errNil(e)
					for _, x := range good {
						n++
						if accept {
							g.obl(x.st, f, "no NUL", x.st.ghost["clean"] != "" || clean(x.st), "a packet that contains NUL is decoded")
						}
					}
				}
				g.obl(st, f, rule, (n > 0) == accept, detail)
			}, 2000})
		}
		byteAt := func(in *Interp, st *State, d Slice, k int64, s ByteSet) {
			in.learn(st, d.R, addc(d.Off, k), addc(d.Off, k+1), plain(s))
		}
		// a line: the delimiter is nowhere but at the end
		line := func(in *Interp, st *State, d Slice) {
			in.learn(st, d.R, d.Off, addc(add(d.Off, d.Len), -1), plain(setOf('\n').not()))
		}
		rest := allBytes
		for _, kind := range []byte("BCDEFHIU") {
			kind := kind
			seps := separators[kind]
			set := setOf(kind)
			rest = rest.and(set.not())
			run(string(kind), "known kind", fmt.Sprintf("no packet of kind %c is accepted", kind), true, func(in *Interp, st *State, d Slice) {
				byteAt(in, st, d, 0, set)
				line(in, st, d)
			})
			run(string(kind)+" without end", "delimiter", fmt.Sprintf("a packet of kind %c that does not end in a newline is decoded", kind), false, func(in *Interp, st *State, d Slice) {
				byteAt(in, st, d, 0, set)
				in.learn(st, d.R, d.Off, add(d.Off, d.Len), plain(setOf('\n').not()))
			})
			for _, k := range seps {
				k := k
				run(fmt.Sprintf("%c separator %d", kind, k), "separator", fmt.Sprintf("a packet of kind %c with something else than a separator at offset %d is decoded", kind, k), false, func(in *Interp, st *State, d Slice) {
					st.cw().addGE(addc(d.Len, -k-1))
					byteAt(in, st, d, 0, set)
					if k > 4 {
						byteAt(in, st, d, 4, setOf(' '))
					}
					byteAt(in, st, d, k, setOf(' ', '\n').not())
					line(in, st, d)
				})
				run(fmt.Sprintf("%c shorter than %d", kind, k), "separator", fmt.Sprintf("a packet of kind %c without a separator at offset %d is decoded", kind, k), false, func(in *Interp, st *State, d Slice) {
					st.cw().addGE(sub(cst(k), d.Len))
					byteAt(in, st, d, 0, set)
					if k > 4 {
						st.cw().addGE(addc(d.Len, -5))
						byteAt(in, st, d, 4, setOf(' '))
					}
					line(in, st, d)
				})
			}
		}
		run("other", "known kind", "a packet of unknown kind is accepted", false, func(in *Interp, st *State, d Slice) {
			byteAt(in, st, d, 0, rest)
			line(in, st, d)
		})
	}
	return out
}

// named finds a type by package name and name.
func (p *Program) named(short string) *types.Named {
	pkg, name, _ := strings.Cut(short, ".")
	for path, sp := range p.spkgs {
		if strings.HasSuffix(path, "/"+pkg) {
			if t := sp.Type(name); t != nil {
				if n, ok := t.Type().(*types.Named); ok {
					return n
				}
			}
		}
	}
	return nil
}
