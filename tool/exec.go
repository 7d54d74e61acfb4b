package main

// Control: functions, blocks, loops, calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exit struct {
	st  *State
	ret Value
}

type activation struct {
	fn    *ssa.Function
	info  *fnInfo
	exits []exit
}

type edge struct {
	st *State
	to *ssa.BasicBlock
}

var debug = os.Getenv("DCV_DEBUG") != ""

func (in *Interp) dbg(format string, a ...interface{}) {
	if in.initing {
		return
	}
	if debug {
		fmt.Fprintf(os.Stderr, strings.Repeat("  ", in.depth)+format+"\n", a...)
	}
}

// callFunc interprets a function of the module.
func (in *Interp) callFunc(st *State, fn *ssa.Function, args []Value, bind []Value, site ssa.Instruction) []exit {
	ctx := ""
	if len(st.fr) > 0 {
		ctx = in.ctxID(st.top().ctx, site, fn)
		if ex, ok := in.callLocal(st, fn, args, bind, ctx); ok {
			return ex
		}
	} else {
		ctx = in.ctxID("", nil, fn)
	}
	return in.callBody(st, fn, args, bind, ctx)
}

func (in *Interp) callBody(st *State, fn *ssa.Function, args []Value, bind []Value, ctx string) []exit {
	rec := 0
	for _, f := range in.callStack {
		if f == fn {
			rec++
		}
	}
	if rec > 5 || in.depth > 40 || in.steps > in.limit {
		if in.steps > in.limit {
			in.gap("step limit reached in %s", in.prog.short(fn.String()))
		} else {
			in.gap("recursion of %s not followed", in.prog.short(fn.String()))
		}
		return []exit{{st, in.freshResult(st, fn.Signature, "rec")}}
	}
	in.stats.Funcs[fn.String()] = true
	in.stats.Calls++
	f := &Frame{fn: fn, ctx: ctx, env: make(map[ssa.Value]Value, 16)}
	if len(args) != len(fn.Params) {
		in.gap("argument count mismatch calling %s", fn)
		return []exit{{st, in.freshResult(st, fn.Signature, "bad")}}
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			f.env[v] = bind[i]
		}
	}
	in.depth++
	in.callStack = append(in.callStack, fn)
	st.push(f)
	info := in.prog.info(fn)
	if info.irred {
		in.gap("irreducible control flow in %s", fn)
	}
	act := &activation{fn: fn, info: info}
	in.dbg("> %s", in.prog.short(fn.String()))
	in.region(act, nil, fn.Blocks[0], []*State{st})
	in.callStack = in.callStack[:len(in.callStack)-1]
	in.depth--
	ex := in.mergeExits(act.exits)
	in.dbg("< %s: %d exits (of %d)", in.prog.short(fn.String()), len(ex), len(act.exits))
	return ex
}

func (in *Interp) freshResult(st *State, sig *types.Signature, name string) Value {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return in.freshVal(st, name, sig.Results().At(0).Type(), "new")
	}
	return in.freshVal(st, name, sig.Results(), "new")
}

func (in *Interp) ctxID(parent string, site ssa.Instruction, fn *ssa.Function) string {
	key := parent + "|" + in.siteName(site) + "|" + fn.String()
	if in.ctxs == nil {
		in.ctxs = map[string]string{}
	}
	if c, ok := in.ctxs[key]; ok {
		return c
	}
	c := fmt.Sprintf("c%d", len(in.ctxs))
	in.ctxs[key] = c
	return c
}

// siteName names an instruction inside its function.
func (in *Interp) siteName(site ssa.Instruction) string {
	if site == nil {
		return "root"
	}
	if v, ok := site.(ssa.Value); ok && v.Name() != "" {
		return v.Name()
	}
	b := site.Block()
	if b != nil {
		for i, x := range b.Instrs {
			if x == site {
				return fmt.Sprintf("b%d.%d", b.Index, i)
			}
		}
	}
	return fmt.Sprintf("p%d", site.Pos())
}

// mergeExits groups the final states of a function.
func (in *Interp) mergeExits(ex []exit) []exit {
	if len(ex) == 0 {
		return nil
	}
	for i := range ex {
		ex[i].st.pop()
	}
	if len(ex) == 1 {
		in.gcExit(&ex[0])
		return ex
	}
	const key = "$ret"
	saved := make([]Value, len(ex))
	var sts []*State
	for i := range ex {
		saved[i] = ex[i].st.gval[key]
		ex[i].st.gval[key] = Tuple{ex[i].ret, wrapNil(saved[i])}
		in.gc(ex[i].st)
		sts = append(sts, ex[i].st)
	}
	sts = in.compact(sts, in.opts.ExitMerge)
	out := make([]exit, 0, len(sts))
	for _, s := range sts {
		t := s.gval[key].(Tuple)
		if v := t[1]; v != nil {
			if _, isN := v.(Opaque); isN && v.(Opaque).ID == "none" {
				delete(s.gval, key)
			} else {
				s.gval[key] = v
			}
		} else {
			delete(s.gval, key)
		}
		out = append(out, exit{s, t[0]})
	}
	return out
}

func wrapNil(v Value) Value {
	if v == nil {
		return Opaque{"none"}
	}
	return v
}

func (in *Interp) gcExit(e *exit) {
	old, had := e.st.gval["$ret"]
	e.st.gval["$ret"] = Tuple{e.ret, wrapNil(old)}
	in.gc(e.st)
	if had {
		e.st.gval["$ret"] = old
	} else {
		delete(e.st.gval, "$ret")
	}
}

// compact merges states with the same signature when there are more than soft
// of them, using coarser signatures while there are more than MaxStates.
func (in *Interp) compact(sts []*State, soft int) []*State {
	if len(sts) <= soft || len(sts) < 2 {
		return sts
	}
	for lvl := 0; lvl <= 3; lvl++ {
		if lvl > 0 && len(sts) <= in.opts.MaxStates {
			break
		}
		groups := map[string][]*State{}
		var order []string
		for _, s := range sts {
			sig := ""
			if lvl < 3 {
				sig = in.signature(s, lvl)
			}
			if _, ok := groups[sig]; !ok {
				order = append(order, sig)
			}
			groups[sig] = append(groups[sig], s)
		}
		sts = sts[:0:0]
		for _, k := range order {
			g := groups[k]
			// join in chunks to keep the numeric work small
			for len(g) > 1 {
				n := len(g)
				if n > 6 {
					n = 6
				}
				j, _ := in.joinStates(append([]*State(nil), g[:n]...), nil)
				g = append([]*State{j}, g[n:]...)
			}
			sts = append(sts, g[0])
		}
	}
	return sts
}

// region runs the blocks of a loop body (or of the whole function) from its
// head. It returns the states on edges leaving the region or going back to the
// head.
func (in *Interp) region(act *activation, l *loop, head *ssa.BasicBlock, sts []*State) map[*ssa.BasicBlock][]*State {
	out := map[*ssa.BasicBlock][]*State{}
	pend := map[*ssa.BasicBlock][]*State{head: sts}
	start := act.info.order[head]
	for k := start; k < len(act.info.rpo); k++ {
		b := act.info.rpo[k]
		p := pend[b]
		if len(p) == 0 {
			continue
		}
		delete(pend, b)
		if b != head || l == nil {
			p = in.compact(p, in.opts.Soft)
		}
		deliver := func(t *ssa.BasicBlock, s *State) {
			if t == head && l != nil || l != nil && !l.blocks[t] {
				out[t] = append(out[t], s)
				return
			}
			pend[t] = append(pend[t], s)
		}
		if nl := act.info.loops[b]; nl != nil && (l == nil || nl != l) {
			res := in.loop(act, nl, p)
			for _, t := range act.info.rpo {
				for _, s := range res[t] {
					deliver(t, s)
				}
			}
			continue
		}
		for _, s := range p {
			for _, e := range in.block(act, s, b) {
				deliver(e.to, e.st)
			}
		}
	}
	return out
}

// loop interprets a loop from the given entry states.
func (in *Interp) loop(act *activation, l *loop, entry []*State) map[*ssa.BasicBlock][]*State {
	in.stats.Loops++
	out := map[*ssa.BasicBlock][]*State{}
	gk := ""
	if len(entry) > 0 {
		gk = fmt.Sprintf("L%s.%d", entry[0].top().ctx, l.id)
	}
	mark := func(sts []*State) []*State {
		for _, s := range sts {
			s.ghost[gk] = "0"
		}
		return sts
	}
	leave := func(sts []*State) []*State {
		for _, s := range sts {
			delete(s.ghost, gk)
		}
		return sts
	}
	mark(entry)
	limit := Sym(len(in.syms.info))
	// bounded unrolling of loops with constant trip counts
	rest := entry
	if in.unrollable(act, l, entry) {
		cur := entry
		max := in.opts.MaxUnroll
		if in.initing {
			max = 2000
		}
		ok := true
		for k := 0; len(cur) > 0; k++ {
			if k >= max {
				ok = false
				break
			}
			res := in.region(act, l, l.head, cur)
			cur = nil
			for _, t := range act.info.rpo {
				ss := res[t]
				if len(ss) == 0 {
					continue
				}
				if t == l.head {
					cur = in.compact(mark(ss), in.opts.Soft)
				} else {
					out[t] = append(out[t], leave(ss)...)
				}
			}
			if len(cur) > 0 && !in.unrollable(act, l, cur) {
				ok = false
				break
			}
		}
		if ok {
			return out
		}
		rest = cur
	}
	// fixpoint
	lp := &loopInfo{vars: map[Sym]bool{}}
	type hd struct {
		sig   string
		st    *State
		iter  int
		dirty bool
	}
	var heads []*hd
	bySig := map[string]*hd{}
	lvl := 0
	sigOf := func(s *State) string { return in.signature(s, lvl) }
	add := func(s *State, entry bool) {
		sig := sigOf(s)
		h := bySig[sig]
		if h == nil {
			if len(heads) > in.opts.MaxHeads && lvl < 2 {
				// coarser partition
				lvl++
				old := heads
				heads, bySig = nil, map[string]*hd{}
				for _, o := range old {
					sg := sigOf(o.st)
					if e := bySig[sg]; e != nil {
						j, _ := in.joinStates([]*State{e.st, o.st}, nil)
						e.st = j
						e.dirty = true
						if o.iter > e.iter {
							e.iter = o.iter
						}
					} else {
						o.sig = sg
						o.dirty = true
						bySig[sg] = o
						heads = append(heads, o)
					}
				}
				sig = sigOf(s)
				h = bySig[sig]
			}
		}
		if h == nil {
			h = &hd{sig: sig, st: s, dirty: true}
			bySig[sig] = h
			heads = append(heads, h)
			return
		}
		if entry {
			j, _ := in.joinStates([]*State{h.st, s}, nil)
			h.st = j
			h.dirty = true
			return
		}
		lp.iter = h.iter
		lp.widen = h.iter >= 3
		j, grew := in.joinStates([]*State{h.st.clone(), s}, lp)
		if grew {
			h.st = j
			h.dirty = true
		}
	}
	for _, s := range in.compact(rest, in.opts.Soft) {
		in.gc(s)
		add(s, true)
	}
	in.muted++
	for round := 0; ; round++ {
		again := false
		for i := 0; i < len(heads); i++ {
			h := heads[i]
			if !h.dirty {
				continue
			}
			h.dirty = false
			again = true
			h.iter++
			if h.iter > 14 {
				in.gap("loop at %s in %s does not stabilise", in.prog.pos(loopPos(l)), in.prog.short(act.fn.String()))
				h.iter = 1000000
				continue
			}
			save := len(act.exits)
			res := in.region(act, l, l.head, []*State{h.st.clone()})
			act.exits = act.exits[:save]
			back := res[l.head]
			for _, s := range back {
				in.gc(s)
			}
			bk := in.compact(mark(back), 1)
			if debug {
				in.dbg("ITER %s head %d/%d iter %d round %d: %d back, %d compacted, ineq %d syms %d", in.prog.pos(loopPos(l)), i, len(heads), h.iter, round, len(back), len(bk), len(h.st.c.ineq), len(h.st.c.eq))
			}
			for _, s := range bk {
				add(s, false)
			}
		}
		if !again {
			break
		}
	}
	in.muted--
	in.dbg("loop %s: %d heads", in.prog.pos(loopPos(l)), len(heads))
	var around []loopEdge
	for _, h := range heads {
		if debug {
			in.dbg("HEAD %s", in.dump(h.st))
		}
		h0 := h.st.clone()
		s0 := h.st.clone()
		rk := "$rank" + gk
		var names []string
		if in.muted == 0 && in.mon != nil {
			var t Tuple
			names, t = in.measures(l, s0)
			s0.gval[rk] = t
		}
		save := len(act.exits)
		res := in.region(act, l, l.head, []*State{s0})
		for _, e := range act.exits[save:] {
			delete(e.st.gval, rk)
		}
		for _, t := range act.info.rpo {
			ss := res[t]
			var hv []Tuple
			for _, s := range ss {
				v, _ := s.gval[rk].(Tuple)
				hv = append(hv, v)
				delete(s.gval, rk)
			}
			if t == l.head {
				if in.muted == 0 && in.mon != nil {
					around = append(around, in.edges(l, h0, names, hv, ss)...)
				}
				continue
			}
			out[t] = append(out[t], leave(ss)...)
		}
	}
	if len(heads) > 0 {
		in.checkLoop(act, l, heads[0].st, around, gk, limit)
	}
	return out
}

// measures collects the numbers a loop may count with.
func (in *Interp) measures(l *loop, st *State) ([]string, Tuple) {
	var out Tuple
	var names []string
	num := func(name string, v Value) {
		switch x := v.(type) {
		case Int:
			names, out = append(names, name), append(out, x)
		case Slice:
			names, out = append(names, "len("+name+")"), append(out, Int{x.Len})
		case Str:
			names, out = append(names, "len("+name+")"), append(out, Int{x.Len})
		case Bool:
			if x.C != nil && (x.C.op == cTrue || x.C.op == cFalse) {
				k := int64(0)
				if x.C.op == cTrue {
					k = 1
				}
				names, out = append(names, name), append(out, Int{cst(k)})
			} else if x.C != nil && x.C.op == cEQ && len(x.C.e.T) == 1 && x.C.e.C == -1 && in.isBoolSym(x.C.e.T[0].S) && x.C.e.T[0].K == 1 {
				names, out = append(names, name), append(out, Int{addc(x.C.e, 1)})
			}
		}
	}
	f := st.top()
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		num(ph.Name(), f.env[ph])
	}
	seen := map[Oid]bool{}
	var follow func(name string, p Ptr, depth int)
	follow = func(name string, p Ptr, depth int) {
		if p.O == 0 {
			return
		}
		ob := st.obj[p.O]
		if ob == nil || ob.Sum || in.isMessage(ob.T) {
			return
		}
		s, ok := ob.V.(Struct)
		if !ok {
			num("*"+name, ob.V)
			return
		}
		if seen[p.O] && depth == 0 {
			return
		}
		seen[p.O] = true
		for i, x := range s.F {
			k := fmt.Sprintf("*%s.%d", name, i)
			if q, isP := x.(Ptr); isP && depth < 3 {
				follow(k, q, depth+1)
				continue
			}
			num(k, x)
		}
	}
	for _, v := range in.prog.envOrder(f) {
		if p, ok := f.env[v].(Ptr); ok {
			follow(v.Name(), p, 0)
		}
	}
	return names, out
}

func loopPos(l *loop) token.Pos {
	for _, i := range l.head.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// unrollable: the loop head's exit test is decided by constants in every state.
func (in *Interp) unrollable(act *activation, l *loop, sts []*State) bool {
	for _, s := range sts {
		if !in.headConst(act, l, s) {
			return false
		}
	}
	return len(sts) > 0
}

func (in *Interp) headConst(act *activation, l *loop, st *State) bool {
	ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[l.head.Succs[0]] && l.blocks[l.head.Succs[1]] {
		return false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		if ex, ok := ifi.Cond.(*ssa.Extract); ok {
			// map or string iteration
			if nx, ok := ex.Tuple.(*ssa.Next); ok {
				if it, ok := st.top().env[nx.Iter].(Native); ok {
					if _, ok := it.F["exact"]; ok {
						return true
					}
				}
			}
		}
		return false
	}
	// evaluate the head block speculatively
	in.muted++
	defer func() { in.muted-- }()
	s := st.clone()
	for _, ins := range l.head.Instrs[:len(l.head.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Call, *ssa.Extract, *ssa.Slice, *ssa.IndexAddr:
		default:
			return false
		}
		if c, ok := ins.(*ssa.Call); ok {
			if b, isB := c.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
				if !in.constCall(s, c) {
					return false
				}
			}
		}
		ss := in.instr(act, s, ins)
		if len(ss) != 1 {
			return false
		}
		s = ss[0]
	}
	v := in.val(s, bo)
	b, ok := v.(Bool)
	if !ok {
		return false
	}
	if b.C.op == cTrue || b.C.op == cFalse {
		return true
	}
	switch b.C.op {
	case cGE, cEQ, cNE:
		return s.c.norm(b.C.e).isConst()
	}
	return false
}

// constCall: calls in loop conditions that do not prevent unrolling.
func (in *Interp) constCall(st *State, c *ssa.Call) bool {
	if c.Call.IsInvoke() {
		if _, ok := in.val(st, c.Call.Value).(RType); ok {
			return true
		}
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(reflect.Value).NumField", "(reflect.Value).Len":
		return true
	}
	return false
}

// goEdge moves a state along a control-flow edge.
func (in *Interp) goEdge(act *activation, st *State, from, to *ssa.BasicBlock, nth int) edge {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			if nth == 0 {
				pi = k
				break
			}
			nth--
			if pi < 0 {
				pi = k
			}
		}
	}
	f := st.fw()
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.val(st, ph.Edges[pi]))
	}
	live := act.info.live[to]
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	return edge{st, to}
}

// block interprets one basic block.
func (in *Interp) block(act *activation, st *State, b *ssa.BasicBlock) []edge {
	type item struct {
		st *State
		i  int
	}
	work := []item{{st, 0}}
	var out []edge
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.st
	instrs:
		for i := it.i; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			in.steps++
			in.stats.Instrs++
			if in.steps > in.limit {
				in.gap("step limit reached in %s", in.prog.short(act.fn.String()))
				return out
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				out = append(out, in.goEdge(act, s, b, b.Succs[0], 0))
				break instrs
			case *ssa.If:
				cv := in.val(s, x.Cond)
				c := in.asCond(s, cv)
				t, f := in.split(s, c)
				amb := len(t) > 0 && len(f) > 0
				for _, n := range t {
					if amb {
						in.note(n, x, true)
					}
					out = append(out, in.goEdge(act, n, b, b.Succs[0], 0))
				}
				for _, n := range f {
					if amb {
						in.note(n, x, false)
					}
					nth := 0
					if b.Succs[0] == b.Succs[1] {
						nth = 1
					}
					out = append(out, in.goEdge(act, n, b, b.Succs[1], nth))
				}
				break instrs
			case *ssa.Return:
				var ret Value
				switch len(x.Results) {
				case 0:
					ret = Tuple{}
				case 1:
					ret = in.val(s, x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = in.val(s, r)
					}
					ret = t
				}
				if in.onReturn != nil {
					in.onReturn(act, s, x, ret)
				}
				act.exits = append(act.exits, exit{s, ret})
				break instrs
			case *ssa.Panic:
				in.oblige(s, ins, "panic", false, "explicit panic")
				break instrs
			}
			ss := in.instr(act, s, ins)
			if len(ss) == 0 {
				break
			}
			for _, n := range ss[1:] {
				work = append(work, item{n, i + 1})
			}
			s = ss[0]
			if s.c.bot {
				break
			}
		}
	}
	return out
}

func (in *Interp) note(st *State, x *ssa.If, pol bool) {
	if in.muted > 0 || len(st.trace) > 60 {
		return
	}
	p := x.Cond.Pos()
	if !p.IsValid() {
		p = instrPos(x)
	}
	s := in.prog.pos(p)
	if pol {
		s += " true"
	} else {
		s += " false"
	}
	st.trace = append(st.trace[:len(st.trace):len(st.trace)], s)
}

func (in *Interp) asCond(st *State, v Value) *Cond {
	switch x := v.(type) {
	case Bool:
		return x.C
	case TabSel:
		if b, ok := in.resolveSel(st, x).(Bool); ok {
			return b.C
		}
	}
	return mkCmp(cEQ, addc(in.freshRange(st, "cond", 0, 1), -1))
}

// oblige reports a safety condition.
func (in *Interp) oblige(st *State, at ssa.Instruction, rule string, ok bool, detail string) {
	if in.muted > 0 || in.mon == nil {
		return
	}
	if !ok && st.c.infeasible() {
		return
	}
	in.mon.Oblige(in, st, at, rule, ok, detail)
}

func (in *Interp) event(st *State, at ssa.Instruction, kind string, args ...Value) {
	if in.track != nil {
		in.track(st, at, kind, args)
	}
	if in.muted > 0 || in.mon == nil {
		return
	}
	in.mon.Event(in, st, at, kind, args)
}

// require checks a condition and continues where it holds.
func (in *Interp) require(st *State, at ssa.Instruction, rule string, c *Cond, detail string) []*State {
	if in.decide(st, c) == 1 {
		in.oblige(st, at, rule, true, detail)
		return []*State{st}
	}
	t, f := in.split(st, c)
	bad := false
	for _, s := range f {
		if !s.c.infeasible() {
			bad = true
			in.oblige(s, at, rule, false, detail)
			break
		}
	}
	if !bad {
		for _, s := range t {
			in.oblige(s, at, rule, true, detail)
			break
		}
	}
	return t
}

// loopEdge is one way around a loop: what the loop counts with before and after.
type loopEdge struct {
	st    *State
	head  *State
	names []string
	h, b  map[string]Expr
	iter  bool
}

// edges describes the ways around a loop from one head.
func (in *Interp) edges(l *loop, head *State, names []string, hv []Tuple, back []*State) []loopEdge {
	var out []loopEdge
	for i, b := range back {
		e := loopEdge{st: b, head: head, h: map[string]Expr{}, b: map[string]Expr{}}
		bn, bt := in.measures(l, b)
		at := map[string]Value{}
		for k, n := range bn {
			at[n] = bt[k]
		}
		for k, n := range names {
			if hv[i] == nil || k >= len(hv[i]) {
				break
			}
			h, ok1 := hv[i][k].(Int)
			v, ok2 := at[n].(Int)
			if ok1 && ok2 {
				e.names = append(e.names, n)
				e.h[n], e.b[n] = h.E, v.E
			}
		}
		for _, i := range l.head.Instrs {
			if _, ok := i.(*ssa.Next); ok {
				e.iter = true
			}
		}
		out = append(out, e)
	}
	return out
}

// checkLoop looks for a reason why the loop cannot run forever.
func (in *Interp) checkLoop(act *activation, l *loop, head *State, all []loopEdge, gk string, limit Sym) {
	if in.muted > 0 || in.mon == nil {
		return
	}
	at := l.head.Instrs[len(l.head.Instrs)-1]
	for _, i := range l.head.Instrs {
		if i.Pos().IsValid() {
			at = i
			break
		}
	}
	why := in.ranking(all, gk, limit)
	if os.Getenv("DCV_RANK") == "3" {
		fmt.Println("RANK", in.prog.pos(loopPos(l)), why)
		for _, b := range all {
			fmt.Println("WAY", b.st.ghost[gk], b.st.c.infeasible(), b.iter, b.h["len(t18)"], "->", b.b["len(t18)"], b.names)
		}
	}
	if why == "" && os.Getenv("DCV_RANK") != "" {
		fmt.Println("NORANK", in.prog.pos(loopPos(l)))
		for _, b := range all {
			fmt.Printf("EDGE h %v b %v\n", b.h, b.b)
			if os.Getenv("DCV_RANK") == "2" {
				fmt.Println("BACK", in.dump(b.st))
			}
		}
	}
	in.mon.Oblige(in, head, at, "loop", why != "", why)
}

// ranking finds a measure that is bounded and decreases on every path around the loop.
func (in *Interp) ranking(all []loopEdge, gk string, limit Sym) string {
	if len(all) == 0 {
		return "no path around"
	}
	// an external event consumed on a path around: input is finite
	var es []loopEdge
	for _, e := range all {
		if e.st.ghost[gk] != "1" && !e.st.c.infeasible() {
			es = append(es, e)
		}
	}
	if len(es) == 0 {
		return "reads input on every iteration"
	}
	iter := true
	for _, e := range es {
		if !e.iter {
			iter = false
		}
	}
	if iter {
		return "iteration over a finite collection"
	}
	var names []string
	for _, n := range es[0].names {
		ok := true
		for _, e := range es {
			if _, has := e.h[n]; !has {
				ok = false
			}
		}
		if ok {
			names = append(names, n)
		}
	}
	type cand struct {
		name string
		h, b []Expr
	}
	var cands []cand
	for _, n := range names {
		c := cand{name: n}
		d := cand{name: "-" + n}
		for _, e := range es {
			c.h, c.b = append(c.h, e.h[n]), append(c.b, e.b[n])
			d.h, d.b = append(d.h, neg(e.h[n])), append(d.b, neg(e.b[n]))
		}
		cands = append(cands, c, d)
	}
	for _, x := range names {
		for _, y := range names {
			if x == y {
				continue
			}
			c := cand{name: x + " - " + y}
			for _, e := range es {
				c.h, c.b = append(c.h, sub(e.h[x], e.h[y])), append(c.b, sub(e.b[x], e.b[y]))
			}
			cands = append(cands, c)
		}
	}
	dec := func(c cand, i int) bool { return es[i].st.c.entailsGE(addc(sub(c.h[i], c.b[i]), -1)) }
	noinc := func(c cand, i int) bool { return es[i].st.c.entailsGE(sub(c.h[i], c.b[i])) }
	bounded := func(c cand, i int) bool {
		b := es[i].st
		if k, ok := b.c.minimum(c.h[i]); ok {
			if os.Getenv("DCV_RANK") == "3" {
				fmt.Println("MIN", c.name, c.h[i], k)
			}
			return true
		}
		// against symbols of a bounded type
		m := map[Sym]bool{}
		b.c.symsOf(m)
		for s := range m {
			if s < limit && in.headSym(b, s) && (b.c.entailsGE(sub(c.h[i], sx(s))) || b.c.entailsGE(add(c.h[i], sx(s)))) {
				if os.Getenv("DCV_RANK") == "3" {
					fmt.Println("SYM", c.name, c.h[i], s, in.syms.info[s])
				}
				return true
			}
		}
		return false
	}
	// lexicographic combinations: each measure never increases on the paths
	// left by those before it, and decreases on some of them
	var search func(left []int, depth int) string
	search = func(left []int, depth int) string {
		type part struct {
			name string
			rest []int
		}
		var parts []part
		for _, c := range cands {
			var rest []int
			ok := true
			for _, i := range left {
				if dec(c, i) && bounded(c, i) {
					continue
				}
				if !noinc(c, i) {
					ok = false
					break
				}
				rest = append(rest, i)
			}
			if !ok || len(rest) == len(left) {
				continue
			}
			if len(rest) == 0 {
				return c.name
			}
			parts = append(parts, part{c.name, rest})
		}
		if depth == 0 {
			return ""
		}
		for _, p := range parts {
			if w := search(p.rest, depth-1); w != "" {
				return p.name + ", " + w
			}
		}
		return ""
	}
	var idx []int
	for i := range es {
		idx = append(idx, i)
	}
	if w := search(idx, 2); w != "" {
		return "decreases (" + w + ")"
	}
	return ""
}

// headSym: the symbol denotes a bounded value. Symbols that exist when the loop
// is entered stand for values that stay fixed while it runs.
func (in *Interp) headSym(head *State, s Sym) bool {
	i := in.syms.info[s]
	return i.lo != nil && i.hi != nil
}
