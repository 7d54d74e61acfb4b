package main

// Entry points of the module: every exported function and method, with the
// interfaces of messages instantiated by every message type of the module.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// excluded entry points: documented to panic, or meaningful only on a
// constructed receiver, which the lifecycle analysis covers.
var excluded = map[string]string{
	"(*nmdc.ErrUnexpectedCommand).Error": "made by the reader only, with the message received",
	"MustParseBase32":                    "documented to panic",
	"MustMarshal":                        "documented to panic",
	"MustParseCID":                       "documented to panic",
	"MustParseCIDP":                      "documented to panic",
	"SIDFromString":                      "documented to panic",
	"RegisterMessage":                    "registration happens at start-up and panics on a programming error",
	"MarshalBase32":                      "the caller passes a destination of the documented size",
}

// lifecycle types are covered from their constructors.
func (p *Program) lifecycle(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	switch n.Obj().Name() {
	case "Reader", "Writer", "bufReader", "binaryReader":
		return p.isModType(n)
	}
	// types that hold a writer or reader of the module
	if s, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Type()
			if pt, ok := f.(*types.Pointer); ok {
				f = pt.Elem()
			}
			if fn := namedOf(f); fn != nil && fn != n && (fn.Obj().Name() == "Writer" || fn.Obj().Name() == "Reader") && p.isModType(fn) {
				return true
			}
		}
	}
	return false
}

// messageIface finds the message interface of a package.
func (p *Program) messageIface(pkg string) *types.Named {
	for path, sp := range p.spkgs {
		if strings.HasSuffix(path, "/"+pkg) {
			if t := sp.Type("Message"); t != nil {
				if n, ok := t.Type().(*types.Named); ok && types.IsInterface(n) {
					return n
				}
			}
		}
	}
	return nil
}

// messageTypes lists the named types of a package that are messages,
// by value or by pointer.
func (p *Program) messageTypes(pkg string) []*types.Named {
	mi := p.messageIface(pkg)
	if mi == nil {
		return nil
	}
	it := mi.Underlying().(*types.Interface)
	var out []*types.Named
	for path, sp := range p.spkgs {
		if !strings.HasSuffix(path, "/"+pkg) {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Obj().Name() < out[b].Obj().Name() })
	return out
}

func (p *Program) fn(short string) *ssa.Function {
	for _, f := range p.fns {
		if p.short(f.String()) == short {
			return f
		}
	}
	return nil
}

// exported reports whether users can call the function.
func (p *Program) exported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	return true
}

// decodes reports whether an exported function belongs to the decoding side.
func decodes(f *ssa.Function) bool {
	n := f.Name()
	for _, pre := range []string{"Unmarshal", "Decode", "Read", "Parse", "From", "Normalize", "NewMessage", "IsRegistered", "Unescape", "Key", "CustomKey", "Verify"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return false
}

// plainRoots lists the exported functions that are not part of a lifecycle.
func (p *Program) plainRoots(sel func(f *ssa.Function) bool) []job {
	var out []job
	for _, f := range p.fns {
		if !p.exported(f) || excluded[f.Name()] != "" || excluded[p.short(f.String())] != "" {
			continue
		}
		if r := f.Signature.Recv(); r != nil && p.lifecycle(deref(r.Type())) {
			continue
		}
		if !sel(f) || p.generic(f) {
			continue
		}
		f := f
		out = append(out, job{p.short(f.String()), func(in *Interp, mon *recMon) { in.runEntry(f) }, p.cost(f)})
	}
	return out
}

// generic functions take a message of any type; they are instantiated.
func (p *Program) generic(f *ssa.Function) bool {
	s := p.short(f.String())
	return s == "adc.Marshal" || s == "adc.Unmarshal"
}

func deref(t types.Type) types.Type {
	if pt, ok := t.(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// runEntry interprets an entry point with unknown arguments. Message
// interfaces are any value of the module's message types or of a type the
// module does not know.
func (in *Interp) runEntry(f *ssa.Function) []exit {
	in.entryOptions()
	st := in.start()
	var args []Value
	for _, p := range f.Params {
		v := in.arg(st, p)
		if m, ok := v.(MapV); ok {
			m.NN = cst(1)
			v = m
		}
		args = append(args, v)
	}
	out := in.callFunc(st, f, args, nil, nil)
	if in.rootExit != nil {
		for _, e := range out {
			in.rootExit(e)
		}
	}
	return out
}

// entryOptions installs the rules for entry points: messages given by the
// caller are not nil, and messages of unknown type are handled by contract.
func (in *Interp) entryOptions() {
	old := in.opts.Nullable
	if old == nil && in.opts.Nullable2 == nil {
		in.opts.Nullable2 = func(name string, t types.Type, depth int) bool {
			if n := namedOf(t); n != nil && types.IsInterface(n) && in.prog.isModType(n) && strings.HasPrefix(name, "arg:") {
				return false
			}
			if _, isP := t.(*types.Pointer); isP && strings.HasPrefix(name, "ret:") && !in.prog.isModType(deref(t)) {
				return false // libraries do not hand out nil pointers
			}
			return depth > 0
		}
	}
	if in.hook == nil {
		in.hook = in.messageContract
	}
}

// messageContract replaces the encoding and decoding of messages of unknown
// type by the contract that every message type is shown to follow.
func (in *Interp) messageContract(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
	if fn.Pkg == nil || fn.Signature.Recv() != nil && !(fn.Name() == "Decode") {
		return nil, false
	}
	m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
	switch in.prog.short(fn.String()) {
	case "adc.Marshal":
		msg, ok := args[1].(Iface)
		if !ok || msg.T != nil {
			return nil, false
		}
		in.event(st, at, "payload", args...)
		n := in.freshRange(st, "n", 0, argMax)
		id := in.newBytes(st, m.site("payload"), n, Sets{lAny: allBytes, lTok: allBytes}, "new", false)
		s2 := st.clone()
		wr := models["(*bytes.Buffer).WriteString"]
		mc := &mcall{in: in, st: st, at: at, fn: "(*bytes.Buffer).WriteString", args: []Value{args[0], Str{id, cst(0), n}}, sig: bufWriteSig}
		var out []exit
		for _, e := range wr(mc) {
			out = append(out, exit{e.st, nilErr()})
		}
		return append(out, exit{s2, m.unkErr()}), true
	case "adc.Unmarshal":
		msg, ok := args[1].(Iface)
		if !ok || msg.T != nil {
			return nil, false
		}
		return m.unknown(), true
	case "adc.UnmarshalMessage", "(*adc.RawMessage).Decode":
		if len(in.callStack) == 0 {
			return nil, false
		}
		var nn []*State
		if fn.Signature.Recv() != nil {
			p, ok := args[0].(Ptr)
			if !ok {
				return nil, false
			}
			nn = in.require(st, at, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference")
		} else {
			nn = []*State{st}
		}
		var out []exit
		for _, s := range nn {
			s2 := s.clone()
			out = append(out, exit{s, Tuple{Iface{NN: cst(1), ID: fmt.Sprintf("u:message~%d", in.nextSeq())}, nilErr()}})
			out = append(out, exit{s2, Tuple{Iface{NN: cst(0)}, m.unkErr()}})
		}
		return out, true
	case "nmdc.NewMessage":
		if len(in.callStack) == 0 {
			return nil, false
		}
		in.event(st, at, "enter:nmdc.NewMessage", args...)
		return m.ret(Iface{NN: cst(1), ID: fmt.Sprintf("u:message~%d", in.nextSeq())}), true
	}
	return nil, false
}

var bufWriteSig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "n", types.Typ[types.Int]), types.NewVar(0, nil, "err", types.Universe.Lookup("error").Type())), false)

// messageRoots instantiates the generic ADC encoder or decoder for every
// message type, and for the types of their fields.
func (p *Program) messageRoots(decode bool) []job {
	var out []job
	name := "adc.Marshal"
	if decode {
		name = "adc.Unmarshal"
	}
	f := p.fn(name)
	if f == nil {
		return nil
	}
	for _, n := range p.messageTypes("adc") {
		n := n
		var t types.Type = n
		if decode {
			t = types.NewPointer(n)
		} else if it := p.messageIface("adc").Underlying().(*types.Interface); !types.Implements(n, it) {
			t = types.NewPointer(n)
		}
		out = append(out, job{name + "/" + types.TypeString(t, func(*types.Package) string { return "adc" }), func(in *Interp, mon *recMon) {
			in.runTyped(f, t)
		}, 5000})
	}
	return out
}

// runTyped interprets a function whose second argument is a value of a type.
func (in *Interp) runTyped(f *ssa.Function, t types.Type) []exit {
	in.entryOptions()
	st := in.start()
	var args []Value
	for i, p := range f.Params {
		if i == 1 {
			v := in.initial(st, "arg:msg", t, nameCtx{own: "arg:msg"})
			args = append(args, Iface{T: t, V: v, NN: cst(1)})
			continue
		}
		args = append(args, in.arg(st, p))
	}
	out := in.callFunc(st, f, args, nil, nil)
	if in.rootExit != nil {
		for _, e := range out {
			in.rootExit(e)
		}
	}
	return out
}
