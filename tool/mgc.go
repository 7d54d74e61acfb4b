package main

// Lifecycles: values of a type are followed from their constructors through
// any sequence of calls of their exported methods.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lifecycleSpec describes how a type is made.
type lifecycleSpec struct {
	name  string
	ctors []*ssa.Function
	typ   types.Type // pointer type
}

// lifecycles finds the connection types of the module and their constructors:
// exported functions that return a pointer to them.
func (p *Program) lifecycles() []lifecycleSpec {
	m := map[string]*lifecycleSpec{}
	for _, f := range p.fns {
		if !p.exported(f) || f.Signature.Recv() != nil {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			pt, ok := t.(*types.Pointer)
			if !ok || !p.lifecycle(pt.Elem()) {
				continue
			}
			k := p.short(pt.Elem().String())
			if m[k] == nil {
				m[k] = &lifecycleSpec{name: k, typ: t}
			}
			m[k].ctors = append(m[k].ctors, f)
		}
	}
	var out []lifecycleSpec
	for _, k := range sortedKeys(m) {
		out = append(out, *m[k])
	}
	return out
}

// methodsOf lists the exported methods of a type, promoted ones included.
func (p *Program) methodsOf(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if !sel.Obj().Exported() {
			continue
		}
		if f := p.prog.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Name() < out[b].Name() })
	return out
}

// mgc is the analysis of one lifecycle.
type mgc struct {
	in       *Interp
	spec     lifecycleSpec
	begin    func(st *State, recv Ptr, m *ssa.Function, args []Value)        // before a call
	end      func(e *exit, m *ssa.Function, args []Value)                    // after a call, results still known
	exits    func(e exit, m *ssa.Function, args []Value) []exit              // after a call, may tell results apart
	made     func(st *State, recv Ptr)                                       // after construction
	fixed    func(st *State, m *ssa.Function, i int, p *ssa.Parameter) Value // special arguments
	skip     func(m *ssa.Function) bool
	innerRes func(m *mcall, fn *ssa.Function) ([]exit, bool)
	done     func(heads []*State)
	calls    int
	heads    int
	meths    int
}

// freshArg makes an unknown argument of a call by the user.
func (g *mgc) freshArg(st *State, m *ssa.Function, i int, p *ssa.Parameter) Value {
	in := g.in
	if g.fixed != nil {
		if v := g.fixed(st, m, i, p); v != nil {
			return v
		}
	}
	name := fmt.Sprintf("arg:%s.%s", m.Name(), p.Name())
	if _, ok := p.Type().Underlying().(*types.Signature); ok {
		return Fn{ID: name, NN: cst(1)}
	}
	if _, ok := p.Type().Underlying().(*types.Interface); ok {
		return Iface{ID: name, NN: cst(1)}
	}
	return in.initial(st, fmt.Sprintf("%s~%d", name, in.nextSeq()), p.Type(), nameCtx{own: name})
}

// havocHooks lets the user set the exported callback fields of the value.
func (g *mgc) havocHooks(st *State, p Ptr, seen map[Oid]bool) {
	in := g.in
	if p.O == 0 || seen[p.O] {
		return
	}
	seen[p.O] = true
	ob := in.object(st, p.O)
	if ob == nil {
		return
	}
	sv, ok := ob.V.(Struct)
	if !ok {
		return
	}
	u, ok := ob.T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	f := append([]Value(nil), sv.F...)
	for i := 0; i < u.NumFields(); i++ {
		fl := u.Field(i)
		if _, isF := fl.Type().Underlying().(*types.Signature); isF && fl.Exported() {
			f[i] = Fn{ID: "hook:" + fl.Name(), NN: in.freshNN(st, "hook."+fl.Name())}
		}
		if fl.Embedded() {
			if q, isP := f[i].(Ptr); isP {
				g.havocHooks(st, q, seen)
			}
		}
	}
	ob2 := *ob
	ob2.V = Struct{f}
	st.obj[p.O] = &ob2
}

// run follows the lifecycle.
func (g *mgc) run() {
	in := g.in
	in.entryOptions()
	old := in.hook
	in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
		if ex, ok := g.inner(st, at, fn, args); ok {
			return ex, true
		}
		return old(st, at, fn, args)
	}
	type hd struct {
		sig   string
		st    *State
		iter  int
		dirty bool
	}
	var heads []*hd
	bySig := map[string]*hd{}
	lp := &loopInfo{vars: map[Sym]bool{}}
	add := func(s *State) {
		s.trace = nil
		g.havocHooks(s, s.gval["recv"].(Ptr), map[Oid]bool{})
		in.canonical(s)
		sig := in.signature(s, 1)
		h := bySig[sig]
		if h == nil {
			h = &hd{sig: sig, st: s, dirty: true}
			bySig[sig] = h
			heads = append(heads, h)
			return
		}
		lp.iter = h.iter
		lp.widen = h.iter >= 3
		j, grew := in.joinStates([]*State{h.st.clone(), s}, lp)
		if grew {
			h.st = j
			h.dirty = true
		}
	}
	methods := in.prog.methodsOf(g.spec.typ)
	// constructors
	for _, c := range g.spec.ctors {
		st := in.start()
		var args []Value
		for i, p := range c.Params {
			v := g.freshArg(st, c, i, p)
			if _, ok := p.Type().Underlying().(*types.Interface); ok {
				v = Iface{ID: "arg:" + p.Name(), NN: cst(1)}
			}
			args = append(args, v)
		}
		for _, e := range in.callFunc(st, c, args, nil, nil) {
			v := e.ret
			if t, ok := v.(Tuple); ok {
				for _, x := range t {
					if _, isP := x.(Ptr); isP {
						v = x
					}
				}
			}
			p, ok := v.(Ptr)
			if !ok {
				in.gap("constructor %s does not return a tracked value", in.prog.short(c.String()))
				continue
			}
			set, _ := in.split(e.st, mkCmp(cEQ, addc(p.NN, -1)))
			for _, s := range set {
				p.NN = cst(1)
				s.gval["recv"] = p
				if g.made != nil {
					g.made(s, p)
				}
				add(s)
			}
		}
	}
	step := func(h *State) []*State {
		var out []*State
		for _, m := range methods {
			if excluded[m.Name()] != "" || g.skip != nil && g.skip(m) {
				continue
			}
			s := h.clone()
			p, ok := s.gval["recv"].(Ptr)
			if !ok {
				in.gap("receiver of %s not tracked", g.spec.name)
				continue
			}
			g.calls++
			args := []Value{p}
			for i, pr := range m.Params[1:] {
				args = append(args, g.freshArg(s, m, i, pr))
			}
			sts := []*State{s}
			if c := g.precondition(s, m, args); c != nil {
				sts = in.assume(s, c, true)
			}
			for _, s := range sts {
				if g.begin != nil {
					g.begin(s, p, m, args)
				}
				in.dbg("MGC %s", m.Name())
				for _, e := range g.outcomes(in.callFunc(s, m, args, nil, nil), m, args) {
					e := e
					if g.end != nil {
						g.end(&e, m, args)
					}
					for _, r := range g.results(e, m) {
						if debug {
							in.dbg("MGCOUT %s %s -> %s  BY %s", m.Name(), in.signature(h, 1), in.signature(r, 1), strings.Join(r.trace, ";"))
						}
						out = append(out, r)
					}
				}
			}
		}
		return out
	}
	in.muted++
	for round := 0; ; round++ {
		again := false
		for i := 0; i < len(heads); i++ {
			h := heads[i]
			if !h.dirty {
				continue
			}
			h.dirty = false
			again = true
			h.iter++
			if h.iter > 14 || len(heads) > 200 {
				in.gap("lifecycle of %s does not stabilise", g.spec.name)
				h.iter = 1000000
				break
			}
			for _, s := range step(h.st) {
				add(s)
			}
		}
		if !again || len(heads) > 200 {
			break
		}
		in.dbg("MGC round %d: %d heads", round, len(heads))
	}
	in.muted--
	g.calls = 0
	var final []*State
	for _, h := range heads {
		if debug {
			in.dbg("MGCHEAD %s", h.sig)
			//in.dbg("MGCDUMP %s", in.dump(h.st))
		}
		step(h.st)
		final = append(final, h.st)
	}
	g.heads, g.meths = len(heads), len(methods)
	if g.done != nil {
		g.done(final)
	}
}

func (g *mgc) outcomes(ex []exit, m *ssa.Function, args []Value) []exit {
	if g.exits == nil {
		return ex
	}
	var out []exit
	for _, e := range ex {
		out = append(out, g.exits(e, m, args)...)
	}
	return out
}

// precondition: documented requirements on arguments.
func (g *mgc) precondition(st *State, m *ssa.Function, args []Value) *Cond {
	if m.Signature.Variadic() && len(args) == 2 {
		// "no messages" is documented to panic for ReadMsgToAny only
		if s, ok := args[1].(Slice); ok && strings.HasPrefix(m.Name(), "Read") {
			return ge(s.Len, cst(1))
		}
	}
	return nil
}

// results uses what a call returned: the methods of readers and streams.
func (g *mgc) results(e exit, m *ssa.Function) []*State {
	in := g.in
	out := []*State{e.st}
	vals := []Value{e.ret}
	if t, ok := e.ret.(Tuple); ok {
		vals = t
	}
	for _, v := range vals {
		f, ok := v.(Iface)
		if !ok || f.T == nil || !in.prog.isModType(deref(f.T)) || in.isMessage(deref(f.T)) {
			continue
		}
		if !f.NN.isConst() || f.NN.C != 1 {
			continue
		}
		if types.Implements(f.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			continue
		}
		for _, m2 := range in.prog.methodsOf(f.T) {
			s := e.st.clone()
			args := []Value{f.V}
			for i, pr := range m2.Params[1:] {
				args = append(args, g.freshArg(s, m2, i, pr))
			}
			if g.begin != nil {
				g.begin(s, s.gval["recv"].(Ptr), m2, args)
			}
			for _, e2 := range g.outcomes(in.callFunc(s, m2, args, nil, nil), m2, args) {
				e2 := e2
				if g.end != nil {
					g.end(&e2, m2, args)
				}
				out = append(out, e2.st)
			}
		}
	}
	return out
}

// lifecycleJobs makes a job for every lifecycle.
func (p *Program) lifecycleJobs(sel func(s lifecycleSpec) bool, setup func(g *mgc, mon *recMon)) []job {
	var out []job
	for _, s := range p.lifecycles() {
		if sel != nil && !sel(s) {
			continue
		}
		s := s
		out = append(out, job{"lifecycle " + s.name, func(in *Interp, mon *recMon) {
			g := &mgc{in: in, spec: s}
			if setup != nil {
				setup(g, mon)
			}
			g.run()
		}, 20000})
	}
	return out
}

// canonical renames the memory reachable from the ghost values by the path
// that leads to it, so that states reached in different ways compare equal.
func (in *Interp) canonical(st *State) {
	in.gc(st)
	m := &renamer{o: map[Oid]Oid{}, r: map[Rid]Rid{}}
	type item struct {
		name string
		v    Value
	}
	var queue []item
	object := func(name string, o Oid) {
		ob := st.obj[o]
		if o == 0 || ob == nil || strings.HasPrefix(ob.Own, "global") {
			return
		}
		if _, ok := m.o[o]; ok {
			return
		}
		m.o[o] = in.oid("life:" + name)
		queue = append(queue, item{name, ob.V})
	}
	region := func(name string, r Rid) {
		rg := st.reg[r]
		if r == 0 || rg == nil || rg.Const || strings.HasPrefix(rg.Own, "global") {
			return
		}
		if _, ok := m.r[r]; ok {
			return
		}
		m.r[r] = in.rid("life:" + name)
		for i, e := range rg.Exact {
			queue = append(queue, item{fmt.Sprintf("%s[%d]", name, i), e})
		}
		if rg.Sum != nil {
			queue = append(queue, item{name + "[]", rg.Sum})
		}
		for _, k := range sortedKeys(rg.Cache) {
			queue = append(queue, item{name + "[" + k + "]", rg.Cache[k]})
		}
	}
	for _, k := range sortedKeys(st.gval) {
		queue = append(queue, item{k, st.gval[k]})
	}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		switch v := x.v.(type) {
		case Str:
			region(x.name, v.R)
		case Slice:
			region(x.name, v.R)
		case Ptr:
			object(x.name, v.O)
			region(x.name, v.R)
		case Iface:
			queue = append(queue, item{x.name, v.V})
		case Fn:
			for i, b := range v.Bind {
				queue = append(queue, item{fmt.Sprintf("%s.b%d", x.name, i), b})
			}
		case MapV:
			object(x.name, v.O)
		case Struct:
			for i, f := range v.F {
				queue = append(queue, item{fmt.Sprintf("%s.%d", x.name, i), f})
			}
		case Tuple:
			for i, f := range v {
				queue = append(queue, item{fmt.Sprintf("%s.%d", x.name, i), f})
			}
		case Arr:
			region(x.name, v.R)
		case Native:
			for _, k := range sortedKeys(v.F) {
				queue = append(queue, item{x.name + "." + k, v.F[k]})
			}
		}
	}
	in.rename(st, m)
	objs, regs := map[Oid]*Obj{}, map[Rid]*Region{}
	for o, ob := range st.obj {
		if n, ok := m.o[o]; ok {
			o = n
		}
		objs[o] = ob
	}
	for r, rg := range st.reg {
		if n, ok := m.r[r]; ok && n != r {
			g := rg.clone()
			g.Ver = in.nextSeq()
			r, rg = n, g
		}
		regs[r] = rg
	}
	st.obj, st.reg = objs, regs
}

// inner replaces the methods of a connection type that another one builds on
// by their contract; the lifecycle of that type is analysed by itself.
func (g *mgc) inner(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
	in := g.in
	r := fn.Signature.Recv()
	if r != nil && in.isMessage(deref(r.Type())) && fn.Synthetic == "" && g.codec(fn) {
		// a message encoded or decoded in place
		p, ok := args[0].(Ptr)
		if !ok {
			return nil, false
		}
		var out []exit
		for _, s := range in.require(st, at, "nil", mkCmp(cEQ, addc(p.NN, -1)), "method call on a nil message") {
			in.event(s, at, "codec:"+in.prog.short(fn.String()), args...)
			if ob := in.object(s, p.O); ob != nil && strings.HasPrefix(fn.Name(), "Unmarshal") {
				n := *ob
				n.V = in.initial(s, fmt.Sprintf("decoded~%d", in.nextSeq()), ob.T, nameCtx{own: "decoded"})
				s.obj[p.O] = &n
			}
			out = append(out, in.results(s, at, fn.String(), fn.Signature)...)
		}
		return out, true
	}
	if r == nil && fn.Object() != nil && fn.Object().Exported() && at != nil && fn.Synthetic == "" && g.codec(fn) {
		m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
		in.event(st, at, "codec:"+in.prog.short(fn.String()), args...)
		if g.innerRes != nil {
			if ex, ok := g.innerRes(m, fn); ok {
				return ex, true
			}
		}
		return in.results(st, at, fn.String(), fn.Signature), true
	}
	if r == nil || fn.Object() == nil || !fn.Object().Exported() || at == nil {
		return nil, false
	}
	t := deref(r.Type())
	if !in.prog.lifecycle(t) || types.Identical(t, deref(g.spec.typ)) || fn.Synthetic != "" {
		return nil, false
	}
	if in.prog.pkgOf(fn) == namedOf(deref(g.spec.typ)).Obj().Pkg().Path() {
		return nil, false
	}
	if at.Parent().Synthetic == "" && in.prog.pkgOf(fn) == in.prog.pkgOf(at.Parent()) {
		return nil, false
	}
	m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
	p, ok := args[0].(Ptr)
	if !ok {
		return nil, false
	}
	var out []exit
	for _, s := range in.require(st, at, "nil", mkCmp(cEQ, addc(p.NN, -1)), "method call on a nil "+in.prog.short(t.String())) {
		mm := *m
		mm.st = s
		in.event(s, at, "inner:"+fn.Name(), args...)
		if g.innerRes != nil {
			if ex, ok := g.innerRes(&mm, fn); ok {
				out = append(out, ex...)
				continue
			}
		}
		if fn.Name() == "ReadLine" {
			out = append(out, g.readLine(&mm)...)
			continue
		}
		if strings.HasPrefix(fn.Name(), "Read") {
			in.consumeRead(s)
		}
		out = append(out, in.results(s, at, fn.String(), fn.Signature)...)
	}
	return out, true
}

// readLine is the contract of reading a line: a non-empty part of the read
// buffer that ends in the delimiter and is valid until the next call, or an
// error, possibly with the part of a line that was read.
func (g *mgc) readLine(m *mcall) []exit {
	in := g.in
	in.consumeRead(m.st)
	s2 := m.st.clone()
	mk := func(s *State) Slice {
		n := in.freshRange(s, "n", 0, argMax)
		id := in.newBytes(s, m.site("line"), n, plain(allBytes), "line", true)
		return Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)}
	}
	a := mk(m.st)
	m.st.cw().addGE(addc(a.Len, -1))
	d := plain(allBytes)
	if k, ok := g.delim(); ok {
		d = plain(setOf(k))
	}
	in.learn(m.st, a.R, addc(a.Len, -1), a.Len, d)
	return []exit{{m.st, Tuple{a, nilErr()}}, {s2, Tuple{mk(s2), m.unkErr()}}}
}

// delim is the delimiter that the constructors of the type choose.
func (g *mgc) delim() (byte, bool) {
	for _, c := range g.spec.ctors {
		for _, b := range c.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				f := cl.Call.StaticCallee()
				if f == nil || !g.in.prog.inModule(f) {
					continue
				}
				for _, a := range cl.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil {
						if bt, ok := k.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
							return byte(k.Uint64()), true
						}
					}
				}
			}
		}
	}
	return 0, false
}

// codec functions encode or decode any value given to them; they are entry
// points by themselves.
func (g *mgc) codec(fn *ssa.Function) bool {
	if !g.in.prog.inModule(fn) {
		return false
	}
	for _, pre := range []string{"Decode", "Unmarshal", "Marshal"} {
		if strings.HasPrefix(fn.Name(), pre) {
			return true
		}
	}
	return false
}
