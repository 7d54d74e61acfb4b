package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constBytes reads the bytes of a constant array or string, and whether each
// is known.
func (in *Interp) constBytes(st *State, r Rid, off Expr, n int64) (string, bool) {
	out := make([]byte, 0, n)
	for i := int64(0); i < n; i++ {
		s := in.fine(st, r, addc(off, i), addc(off, i+1))
		if s.count() != 1 {
			return "", false
		}
		lo, _ := s.bounds()
		out = append(out, byte(lo))
	}
	return string(out), true
}

// constText reads a constant string, slice of bytes or array of bytes.
func (in *Interp) constText(st *State, v Value) (string, bool) {
	switch x := v.(type) {
	case Str:
		if s, ok := in.constOf(st, x); ok {
			return s, true
		}
		n := st.c.norm(x.Len)
		if n.isConst() && n.C >= 0 && n.C < 64 {
			return in.constBytes(st, x.R, x.Off, n.C)
		}
	case Slice:
		n := st.c.norm(x.Len)
		if n.isConst() && n.C >= 0 && n.C < 64 {
			return in.constBytes(st, x.R, x.Off, n.C)
		}
	case Arr:
		if rg := st.reg[x.R]; rg != nil {
			n := st.c.norm(rg.N)
			if n.isConst() && n.C < 64 {
				return in.constBytes(st, x.R, cst(0), n.C)
			}
		}
	}
	return "", false
}

// quick runs a function on a fresh interpreter and hands its exits to f.
func (p *Program) quick(in *Interp, fn *ssa.Function, args func(st *State) []Value, f func(e exit)) {
	in.entryOptions()
	st := in.start()
	for _, e := range in.callFunc(st, fn, args(st), nil, nil) {
		f(e)
	}
}

// method finds a method of a type, with promoted ones.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// isRawMessage: the message type that carries its name and an undecoded payload.
func rawMessage(n *types.Named) bool { return n.Obj().Name() == "RawMessage" }

// wireName interprets the naming method of a message type: its result must be
// one constant that does not depend on the message.
func (p *Program) wireName(in *Interp, n *types.Named, meth string) (string, string) {
	pt := types.NewPointer(n)
	fn := p.method(pt, meth)
	if fn == nil {
		return "", "no method " + meth
	}
	name, bad := "", ""
	first := true
	p.quick(in, fn, func(st *State) []Value {
		v := in.initial(st, "arg:m", pt, nameCtx{own: "arg:m"})
		if q, ok := v.(Ptr); ok {
			q.NN = cst(1)
			v = q
		}
		return []Value{v}
	}, func(e exit) {
		s, ok := in.constText(e.st, e.ret)
		if !ok {
			bad = "the name is not a constant"
			return
		}
		if !first && s != name {
			bad = "the name is not unique"
		}
		first, name = false, s
	})
	if first && bad == "" {
		bad = "the name is not known"
	}
	return name, bad
}

// errNil splits an exit by whether its error result is nil.
func (in *Interp) errNil(e exit) (ok, bad []exit) {
	var er Value = e.ret
	if t, isT := e.ret.(Tuple); isT && len(t) > 0 {
		er = t[len(t)-1]
	}
	f, isI := er.(Iface)
	if !isI {
		return []exit{e}, nil
	}
	a, b := in.split(e.st, mkCmp(cEQ, f.NN))
	for _, s := range a {
		ok = append(ok, exit{s, e.ret})
	}
	for _, s := range b {
		bad = append(bad, exit{s, e.ret})
	}
	return
}

func tname(t types.Type) string {
	if t == nil {
		return "unknown type"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// proto describes how messages of a protocol are named and made.
type proto struct {
	pkg, meth, maker string
	ptr              bool // the decoder yields pointers
	name             func(in *Interp, st *State, s string) Value
	data             bool
}

func protos() []proto {
	return []proto{
		{"nmdc", "Type", "nmdc.NewMessage", true, func(in *Interp, st *State, s string) Value { return in.constStr(st, s) }, false},
		{"adc", "Cmd", "adc.UnmarshalMessage", false, func(in *Interp, st *State, s string) Value {
			id := in.newRegion(st, fmt.Sprintf("name~%d", in.nextSeq()), &Region{Byte: true, N: cst(3), Own: "new", Mut: true, Elem: types.Typ[types.Uint8], Base: plain(allBytes)})
			for i := 0; i < len(s); i++ {
				in.writeBytes(st, id, cst(int64(i)), cst(int64(i+1)), plain(setOf(s[i])), true)
			}
			return Arr{id}
		}, true},
	}
}

// unregistered message types by design: chat and raw messages are not
// commands, and the file list request and response share a name.
var unregistered = map[string]string{
	"nmdc.RawMessage":  "carries unknown commands",
	"adc.RawMessage":   "carries unknown commands",
	"nmdc.ChatMessage": "a message without a command",
	"adc.Error":        "a status seen as an error",
	"adc.HubInfo":      "the view of an info message that hubs send",
	"adc.UserInfoMod":  "the view of an info message with changed fields only",
}

func init() {
	checks["P19"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("For every message type of the module the constant name it encodes with is computed from its naming method; the decoder's constructor is interpreted with that name and must yield a fresh value of exactly that type; names are distinct; a name that is not registered must yield a raw message of that name; for every ADC packet the kind letter it reports and encodes with must be the one that decodes to its type.")
		for _, pr := range protos() {
			registryRules(p, r, pr)
		}
		packetKinds(p, r)
		r.atLeast("registered", 60)
		r.atLeast("packet kind", 8)
	}}
}

func registryRules(p *Program, r *report, pr proto) {
	maker := p.fn(pr.maker)
	if maker == nil {
		r.bad("registered", pr.maker, "", "the function that makes messages by name was not found", "")
		return
	}
	types_ := p.messageTypes(pr.pkg)
	type res struct {
		n          *types.Named
		name, what string
		got        []string
	}
	out := make([]*res, len(types_))
	var jobs []job
	for i, n := range types_ {
		i, n := i, n
		out[i] = &res{n: n}
		if rawMessage(n) {
			continue
		}
		jobs = append(jobs, job{"registered " + tname(n), func(in *Interp, mon *recMon) {
			name, bad := p.wireName(in, n, pr.meth)
			out[i].name, out[i].what = name, bad
			if bad != "" {
				return
			}
			in2 := in
			in2.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
				// the payload is decoded elsewhere: any result
				if s := p.short(fn.String()); s == "adc.Unmarshal" || strings.HasPrefix(fn.Name(), "Unmarshal") && fn != maker && fn.Signature.Recv() != nil {
					m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
					s2 := st.clone()
					return []exit{{st, nilErr()}, {s2, m.unkErr()}}, true
				}
				return nil, false
			}
			p.quick(in2, maker, func(st *State) []Value {
				args := []Value{pr.name(in, st, name)}
				for _, q := range maker.Params[1:] {
					args = append(args, in.arg(st, q))
				}
				return args
			}, func(e exit) {
				ok, _ := in.errNil(e)
				if !pr.data {
					ok = []exit{e}
				}
				for _, x := range ok {
					v := x.ret
					if t, isT := v.(Tuple); isT {
						v = t[0]
					}
					f, _ := v.(Iface)
					g := tname(f.T)
					if q, isP := f.V.(Ptr); isP {
						ob := in.object(x.st, q.O)
						if ob == nil || ob.Own != "new" {
							g = "shared " + g
						}
					}
					out[i].got = append(out[i].got, g)
				}
			})
		}, 100})
	}
	r.jobs(p, jobs, map[string]bool{})
	byName := map[string]string{}
	for _, o := range out {
		tn := tname(o.n)
		pos := p.pos(o.n.Obj().Pos())
		if rawMessage(o.n) {
			continue
		}
		if o.what != "" {
			r.bad("registered", tn, pos, o.what, "")
			continue
		}
		want := tn
		if pr.ptr {
			want = "*" + tn
		}
		got := uniq(o.got)
		if unregistered[tn] != "" && (len(got) != 1 || !strings.HasSuffix(got[0], "."+o.n.Obj().Name())) {
			r.ok("unregistered", tn)
			continue
		}
		if len(got) == 0 {
			r.bad("registered", tn, pos, fmt.Sprintf("the name %q it encodes with is never decoded", o.name), "")
			continue
		}
		if prev := byName[o.name]; prev != "" {
			r.bad("registered", tn, pos, fmt.Sprintf("encodes with the name %q of %s", o.name, prev), "")
			continue
		}
		byName[o.name] = tn
		r.must(len(got) == 1 && (got[0] == want || got[0] == "*"+tn || got[0] == tn), "registered", tn, pos, fmt.Sprintf("the name %q it encodes with decodes to %s instead of a new %s", o.name, strings.Join(got, " or "), tn))
	}
	r.set("names_"+pr.pkg, len(byName))
	// names that are not registered
	for _, name := range []string{"ZZQ", "zzq"} {
		name := name
		var what []string
		n := 0
		r.jobs(p, []job{{"unknown " + pr.pkg + " " + name, func(in *Interp, mon *recMon) {
			p.quick(in, maker, func(st *State) []Value {
				args := []Value{pr.name(in, st, name)}
				for _, q := range maker.Params[1:] {
					args = append(args, in.arg(st, q))
				}
				if pr.data {
					st.gval["data"] = args[1]
				}
				return args
			}, func(e exit) {
				v := e.ret
				if t, isT := v.(Tuple); isT {
					v = t[0]
					if er, isE := t[1].(Iface); !isE || in.decide(e.st, mkCmp(cEQ, er.NN)) != 1 {
						what = append(what, "may be an error")
						return
					}
				}
				n++
				f, _ := v.(Iface)
				if f.T == nil || namedOf(deref(f.T)) == nil || !rawMessage(namedOf(deref(f.T))) {
					what = append(what, "decodes to "+tname(f.T))
					return
				}
				q, ok := f.V.(Ptr)
				var ob *Obj
				if ok {
					ob = in.object(e.st, q.O)
				}
				if ob == nil {
					what = append(what, "decodes to an unknown value")
					return
				}
				sv, _ := ob.V.(Struct)
				okName := false
				for _, fv := range sv.F {
					if s, isC := in.constText(e.st, fv); isC && s == name {
						okName = true
					}
				}
				if !okName {
					what = append(what, "loses its name")
				}
				if pr.data {
					d, _ := e.st.gval["data"].(Slice)
					okData := false
					for _, fv := range sv.F {
						if s, isS := fv.(Slice); isS && eqExpr(e.st.c.norm(s.Len), e.st.c.norm(d.Len)) {
							okData = true
						}
					}
					if !okData {
						what = append(what, "loses its payload")
					}
				}
			})
		}, 100}}, map[string]bool{})
		if n == 0 {
			what = append(what, "yields no message")
		}
		r.must(len(what) == 0, "unknown name", pr.maker+" "+name, p.pos(maker.Pos()), "a command that is not registered "+strings.Join(uniq(what), ", "))
	}
}

func uniq(in []string) []string {
	m := map[string]bool{}
	for _, s := range in {
		m[s] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// packetTypes lists the packet types of the module.
func (p *Program) packetTypes() []*types.Named {
	var out []*types.Named
	for path, sp := range p.spkgs {
		if !strings.HasSuffix(path, "/adc") {
			continue
		}
		pi := sp.Type("Packet")
		if pi == nil {
			continue
		}
		it, _ := pi.Type().Underlying().(*types.Interface)
		for _, n := range sortedMembers(sp) {
			t, ok := sp.Members[n].(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := t.Type().(*types.Named)
			if ok && !types.IsInterface(nt) && it != nil && types.Implements(types.NewPointer(nt), it) {
				out = append(out, nt)
			}
		}
	}
	return out
}

// packetKinds relates kind letters and packet types.
func packetKinds(p *Program, r *report) {
	dec := p.fn("adc.DecodePacketRaw")
	if dec == nil {
		r.bad("packet kind", "adc.DecodePacketRaw", "", "the packet decoder was not found", "")
		return
	}
	byLetter := map[string][]string{} // letter -> decoded types
	r.jobs(p, []job{{"packet kinds", func(in *Interp, mon *recMon) {
		in.opts.ExitMerge, in.opts.Soft, in.opts.MaxStates = 64, 64, 200
		p.quick(in, dec, func(st *State) []Value {
			v := in.arg(st, dec.Params[0])
			st.gval["in"] = v
			return []Value{v}
		}, func(e exit) {
			ok, _ := in.errNil(e)
			for _, x := range ok {
				d, _ := x.st.gval["in"].(Slice)
				set := in.query(x.st, d.R, d.Off, addc(d.Off, 1))[lAny]
				f, _ := x.ret.(Tuple)[0].(Iface)
				for i := 0; i < 256; i++ {
					if set.has(byte(i)) {
						byLetter[string(rune(i))] = append(byLetter[string(rune(i))], tname(f.T))
					}
				}
			}
		})
	}, 100}}, map[string]bool{})
	seen := map[string]bool{}
	for _, n := range p.packetTypes() {
		tn := tname(types.NewPointer(n))
		var kinds []string
		r.jobs(p, []job{{"kind of " + tn, func(in *Interp, mon *recMon) {
			k := p.method(types.NewPointer(n), "Kind")
			if k == nil {
				return
			}
			p.quick(in, k, func(st *State) []Value {
				v := in.initial(st, "arg:p", types.NewPointer(n), nameCtx{own: "arg:p"})
				if q, ok := v.(Ptr); ok {
					q.NN = cst(1)
					v = q
				}
				return []Value{v}
			}, func(e exit) {
				x, _ := e.ret.(Int)
				c := e.st.c.norm(x.E)
				if c.isConst() {
					kinds = append(kinds, string(rune(c.C)))
				} else {
					kinds = append(kinds, "?")
				}
			})
		}, 100}}, map[string]bool{})
		kinds = uniq(kinds)
		pos := p.pos(n.Obj().Pos())
		if len(kinds) != 1 || kinds[0] == "?" {
			r.bad("packet kind", tn, pos, "its kind is not one letter", "")
			continue
		}
		got := uniq(byLetter[kinds[0]])
		r.must(len(got) == 1 && got[0] == tn, "packet kind", tn, pos, fmt.Sprintf("encodes with the letter %q, which decodes to %s", kinds[0], strings.Join(got, " or ")))
		if seen[kinds[0]] {
			r.bad("packet kind", tn, pos, fmt.Sprintf("the letter %q is used twice", kinds[0]), "")
		}
		seen[kinds[0]] = true
	}
	for _, l := range sortedKeys(byLetter) {
		r.must(seen[l], "kind letter", fmt.Sprintf("%q", l), p.pos(dec.Pos()), fmt.Sprintf("decodes to %s, which encodes with another letter", strings.Join(uniq(byLetter[l]), " or ")))
	}
}
