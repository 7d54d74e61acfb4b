package main

// Transfer functions of SSA instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// val evaluates an operand.
func (in *Interp) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(st, x)
	case *ssa.Global:
		return Ptr{O: in.globalObj(st, x), NN: cst(1)}
	case *ssa.Function:
		return Fn{F: x, NN: cst(1)}
	case *ssa.Builtin:
		return Fn{B: x.Name(), NN: cst(1)}
	}
	if r, ok := st.top().env[v]; ok && r != nil {
		return r
	}
	in.gap("value %s of %s is not available", v.Name(), in.prog.short(v.Parent().String()))
	return in.freshVal(st, "missing", v.Type(), "?")
}

func (in *Interp) globalObj(st *State, g *ssa.Global) Oid {
	id, ok := in.gobjs[g]
	if !ok {
		name := g.String()
		id = in.oid("global:" + name)
		in.gobjs[g] = id
		own := "global:" + in.prog.short(name)
		if g.Pkg == nil || !in.prog.isModPath(g.Pkg.Pkg.Path()) {
			own = "globalext:" + name
		}
		in.lazies[id] = lazyObj{t: g.Type().(*types.Pointer).Elem(), own: own, name: "global:" + name}
	}
	if st.obj[id] == nil && in.initing && g.Pkg != nil && in.prog.isModPath(g.Pkg.Pkg.Path()) {
		l := in.lazies[id]
		ob := &Obj{T: l.t, Own: l.own, Name: l.name}
		st.obj[id] = ob
		ob.V = in.zero(st, l.t, l.name)
		in.reown(st, ob.V, l.own)
	}
	in.object(st, id)
	return id
}

func (in *Interp) reown(st *State, v Value, own string) {
	switch x := v.(type) {
	case Arr:
		if r := st.reg[x.R]; r != nil {
			st.regw(x.R).Own = own
		}
	case Struct:
		for _, f := range x.F {
			in.reown(st, f, own)
		}
	}
}

func (in *Interp) set(st *State, i ssa.Value, v Value) []*State {
	st.fw().env[i] = v
	return []*State{st}
}

// instr executes one non-control instruction.
func (in *Interp) instr(act *activation, st *State, ins ssa.Instruction) []*State {
	switch x := ins.(type) {
	case *ssa.Alloc:
		name := st.top().ctx + "." + x.Name()
		t := x.Type().(*types.Pointer).Elem()
		id := in.newObj(st, name, t, "new")
		return in.set(st, x, Ptr{O: id, NN: cst(1)})
	case *ssa.BinOp:
		v, sts := in.binop(st, x, x.Op, in.val(st, x.X), in.val(st, x.Y), x.X.Type(), x.Type())
		return in.setEach(sts, x, v)
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.Call:
		var out []*State
		for _, e := range in.call(st, x, &x.Call) {
			e.st.fw().env[x] = e.ret
			out = append(out, e.st)
		}
		return out
	case *ssa.Defer:
		return in.deferCall(st, x)
	case *ssa.Go:
		in.gap("goroutine started in %s is not followed", in.prog.short(x.Parent().String()))
		return []*State{st}
	case *ssa.RunDefers:
		return in.runDefers(st, x)
	case *ssa.ChangeInterface:
		return in.set(st, x, in.val(st, x.X))
	case *ssa.ChangeType:
		return in.set(st, x, in.val(st, x.X))
	case *ssa.MultiConvert:
		return in.convert(st, x, x.X, x.Type())
	case *ssa.Convert:
		return in.convert(st, x, x.X, x.Type())
	case *ssa.Extract:
		t := in.val(st, x.Tuple)
		if tp, ok := t.(Tuple); ok && x.Index < len(tp) {
			return in.set(st, x, tp[x.Index])
		}
		return in.set(st, x, in.freshVal(st, "ext", x.Type(), "?"))
	case *ssa.Field:
		v := in.val(st, x.X)
		if s, ok := v.(Struct); ok && x.Field < len(s.F) {
			return in.set(st, x, in.force(st, s.F[x.Field], x.Type()))
		}
		return in.set(st, x, in.freshVal(st, "fld", x.Type(), "?"))
	case *ssa.FieldAddr:
		p, ok := in.val(st, x.X).(Ptr)
		if !ok {
			return in.set(st, x, in.freshVal(st, "fa", x.Type(), "?"))
		}
		sts := in.require(st, x, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference")
		var out []*State
		for _, s := range sts {
			q := p
			q.NN = cst(1)
			if q.O != 0 {
				in.object(s, q.O)
			}
			q.Path = append(p.Path[:len(p.Path):len(p.Path)], x.Field)
			out = append(out, in.set(s, x, q)...)
		}
		return out
	case *ssa.Index:
		return in.index(st, x)
	case *ssa.IndexAddr:
		return in.indexAddr(st, x)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, in.val(st, v))
		}
		return in.set(st, x, Fn{F: x.Fn.(*ssa.Function), Bind: b, NN: cst(1)})
	case *ssa.MakeInterface:
		v := in.val(st, x.X)
		switch v.(type) {
		case RType:
			return in.set(st, x, v)
		}
		if _, isI := v.(Iface); isI {
			return in.set(st, x, v)
		}
		if t, ok := v.(TabSel); ok {
			v = in.resolveSel(st, t)
		}
		if in.track != nil && types.Identical(x.Type(), errorType) {
			in.track(st, x, "mkerr", []Value{Iface{T: x.X.Type(), V: v, NN: cst(1)}})
		}
		return in.set(st, x, Iface{T: x.X.Type(), V: v, NN: cst(1)})
	case *ssa.MakeMap:
		id := in.newObj(st, st.top().ctx+"."+x.Name()+".map", x.Type(), "new")
		st.obj[id].V = &MapContent{Known: true, Exact: map[string]Value{}, Keys: map[string]Value{}}
		return in.set(st, x, MapV{O: id, NN: cst(1)})
	case *ssa.MakeChan:
		return in.set(st, x, Ptr{NN: cst(1)})
	case *ssa.MakeSlice:
		return in.makeSlice(st, x)
	case *ssa.MapUpdate:
		return in.mapUpdate(st, x)
	case *ssa.Range:
		return in.rangeOver(st, x)
	case *ssa.Next:
		return in.next(st, x)
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.SliceToArrayPointer:
		s, ok := in.val(st, x.X).(Slice)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ok {
			return in.set(st, x, in.freshVal(st, "s2a", x.Type(), "?"))
		}
		var out []*State
		for _, t := range in.require(st, x, "slice", ge(s.Len, cst(n)), "slice to array conversion") {
			out = append(out, in.set(t, x, Ptr{R: s.R, Idx: s.Off, NN: cst(1), Path: nil})...)
		}
		return out
	case *ssa.Store:
		p, ok := in.val(st, x.Addr).(Ptr)
		if !ok {
			in.gap("store through an untracked pointer in %s", in.prog.short(x.Parent().String()))
			return []*State{st}
		}
		v := in.val(st, x.Val)
		var out []*State
		for _, s := range in.require(st, x, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference") {
			if in.nilPtr(p) {
				out = append(out, s)
				continue
			}
			in.store(s, p, v, x)
			out = append(out, s)
		}
		return out
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Send, *ssa.Select:
		in.gap("channel operation in %s", in.prog.short(x.Parent().String()))
		if v, ok := ins.(ssa.Value); ok {
			return in.set(st, v, in.freshVal(st, "chan", v.Type(), "?"))
		}
		return []*State{st}
	}
	in.gap("instruction %T in %s", ins, in.prog.short(ins.Parent().String()))
	if v, ok := ins.(ssa.Value); ok {
		return in.set(st, v, in.freshVal(st, "unk", v.Type(), "?"))
	}
	return []*State{st}
}

func (in *Interp) setEach(sts []*State, x ssa.Value, v func(*State) Value) []*State {
	var out []*State
	for _, s := range sts {
		out = append(out, in.set(s, x, v(s))...)
	}
	return out
}

func constV(v Value) func(*State) Value { return func(*State) Value { return v } }

// ---- operators ----

func (in *Interp) binop(st *State, at ssa.Instruction, op token.Token, a, b Value, t types.Type, rt types.Type) (func(*State) Value, []*State) {
	one := []*State{st}
	if s, ok := a.(TabSel); ok {
		a = in.resolveSel(st, s)
	}
	if s, ok := b.(TabSel); ok {
		b = in.resolveSel(st, s)
	}
	switch op {
	case token.EQL, token.NEQ:
		c, sts := in.equal(st, at, a, b, t)
		if op == token.NEQ {
			c = cNotOf(c)
		}
		return constV(Bool{c}), sts
	}
	switch x := a.(type) {
	case Int:
		y, ok := b.(Int)
		if !ok {
			break
		}
		switch op {
		case token.LSS:
			return constV(Bool{ge(addc(y.E, -1), x.E)}), one
		case token.LEQ:
			return constV(Bool{ge(y.E, x.E)}), one
		case token.GTR:
			return constV(Bool{ge(addc(x.E, -1), y.E)}), one
		case token.GEQ:
			return constV(Bool{ge(x.E, y.E)}), one
		}
		return in.arith(st, at, op, x.E, y.E, rt)
	case Str:
		y, ok := b.(Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return constV(in.concat(st, x, y, in.site(st, at))), one
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constV(Bool{mkCmp(cEQ, addc(in.freshRange(st, "strcmp", 0, 1), -1))}), one
		}
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			break
		}
		switch op {
		case token.AND, token.LAND:
			return constV(Bool{cAndOf(x.C, y.C)}), one
		case token.OR, token.LOR:
			return constV(Bool{cOrOf(x.C, y.C)}), one
		}
	}
	// floating point and other untracked operands
	if op == token.QUO || op == token.REM {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			in.oblige(st, at, "div", false, "division by an untracked value")
		}
	}
	return constV(in.freshVal(st, "op", rt, "new")), one
}

func (in *Interp) site(st *State, at ssa.Instruction) string {
	return st.top().ctx + "." + in.siteName(at)
}

// wrap brings the exact result into the type's range.
func (in *Interp) wrap(st *State, e Expr, t types.Type, name string) (func(*State) Value, []*State) {
	if in.fits(st, e, t) {
		return constV(Int{e}), []*State{st}
	}
	lo, hi, bits, ok := intRange(t)
	if !ok {
		return constV(in.freshVal(st, name, t, "new")), []*State{st}
	}
	mk := func(s *State) Value {
		i := in.freshInt(s, name, t)
		if bits >= 32 {
			in.syms.info[i.E.T[0].S].flag |= symWrapped
		}
		return i
	}
	if bits < 32 || in.wrappedFlag(e) || !lo.IsInt64() || !hi.IsInt64() || lo.Int64() < -coefMax || hi.Int64() > coefMax {
		// result modulo 2^bits: fork between "fits" and "wrapped"
		if bits == 64 {
			w := mk(st)
			return constV(w), []*State{st}
		}
		if bits >= 32 {
			return constV(mk(st)), []*State{st}
		}
		s2 := in.syms.fresh(name)
		in.constrainType(st, s2, t)
		return constV(Int{sx(s2)}), []*State{st}
	}
	s2 := st.clone()
	vals := map[*State]Value{}
	var out []*State
	fitC := cAndOf(ge(e, cst(lo.Int64())), ge(cst(hi.Int64()), e))
	for _, s := range in.assume(st, fitC, true) {
		vals[s] = Int{e}
		out = append(out, s)
	}
	for _, s := range in.assume(s2, fitC, false) {
		vals[s] = mk(s)
		out = append(out, s)
		break // one representative suffices for the wrapped case: weaken to no constraint
	}
	return func(s *State) Value { return vals[s] }, out
}

func (in *Interp) arith(st *State, at ssa.Instruction, op token.Token, a, b Expr, t types.Type) (func(*State) Value, []*State) {
	one := []*State{st}
	na, nb := st.c.norm(a), st.c.norm(b)
	_, _, bits, isInt := intRange(t)
	if !isInt {
		return constV(in.freshVal(st, "op", t, "new")), one
	}
	isUns := false
	if bb, ok := t.Underlying().(*types.Basic); ok && bb.Info()&types.IsUnsigned != 0 {
		isUns = true
	}
	// byte-valued operands with a single symbol: exact tables
	if bits == 8 && isUns {
		if v, ok := in.byteOp(st, op, na, nb); ok {
			return constV(v), one
		}
	}
	switch op {
	case token.ADD:
		if e, ok := addScaled(a, 1, b); ok {
			return in.wrap(st, e, t, "sum")
		}
	case token.SUB:
		if e, ok := addScaled(a, -1, b); ok {
			return in.wrap(st, e, t, "dif")
		}
	case token.MUL:
		if nb.isConst() {
			if e, ok := addScaled(cst(0), nb.C, a); ok {
				return in.wrap(st, e, t, "mul")
			}
		}
		if na.isConst() {
			if e, ok := addScaled(cst(0), na.C, b); ok {
				return in.wrap(st, e, t, "mul")
			}
		}
		return constV(in.mulInterval(st, a, b, t)), one
	case token.QUO, token.REM:
		sts := in.require(st, at, "div", mkCmp(cNE, b), "integer divide by zero")
		if len(sts) != 1 {
			return constV(in.freshInt(st, "div", t)), sts
		}
		s := sts[0]
		if nb.isConst() && nb.C > 0 {
			k := nb.C
			if na.isConst() {
				if op == token.QUO {
					return constV(Int{cst(na.C / k)}), sts
				}
				return constV(Int{cst(na.C % k)}), sts
			}
			if s.c.entailsGE(a) {
				q := in.freshInt(s, "quo", t)
				c := s.cw()
				// k*q <= a < k*q + k
				c.addGE(q.E)
				c.addGE(sub(a, scale(q.E, k)))
				c.addGE(addc(sub(scale(q.E, k), a), k-1))
				if in.wrappedFlag(a) {
					in.syms.info[q.E.T[0].S].flag |= symWrapped
				}
				if op == token.QUO {
					return constV(q), sts
				}
				return constV(Int{sub(a, scale(q.E, k))}), sts
			}
			r := in.freshInt(s, "rem", t)
			if op == token.REM {
				s.cw().addGE(addc(r.E, k-1))
				s.cw().addGE(addc(neg(r.E), k-1))
			}
			return constV(r), sts
		}
		return constV(in.freshInt(s, "div", t)), sts
	case token.SHL:
		if nb.isConst() && nb.C >= 0 && nb.C < 62 {
			if e, ok := addScaled(cst(0), int64(1)<<uint(nb.C), a); ok {
				return in.wrap(st, e, t, "shl")
			}
		}
		if na.isConst() && na.C == 1 {
			// a power of two
			r := in.freshInt(st, "pow2", t)
			if in.fitsRange(st, b, 0, int64(bits)-2) {
				st.cw().addGE(addc(r.E, -1))
				if _, h := in.interval(st, b); h != nil && h.IsInt64() {
					m := int64(1) << uint(h.Int64())
					if m < coefMax {
						st.cw().addGE(addc(neg(r.E), m))
					}
				}
			}
			return constV(r), one
		}
	case token.SHR:
		if nb.isConst() && nb.C >= 0 && nb.C < 62 && st.c.entailsGE(a) {
			return in.arith(st, at, token.QUO, a, cst(int64(1)<<uint(nb.C)), t)
		}
	case token.AND:
		if na.isConst() && nb.isConst() {
			return constV(Int{cst(na.C & nb.C)}), one
		}
		r := in.freshInt(st, "and", t)
		bound := func(x Expr) {
			if st.c.entailsGE(x) {
				st.cw().addGE(r.E)
				st.cw().addGE(sub(x, r.E))
			}
		}
		bound(a)
		bound(b)
		return constV(r), one
	case token.OR, token.XOR, token.AND_NOT:
		if na.isConst() && nb.isConst() {
			switch op {
			case token.OR:
				return constV(Int{cst(na.C | nb.C)}), one
			case token.XOR:
				return constV(Int{cst(na.C ^ nb.C)}), one
			}
			return constV(Int{cst(na.C &^ nb.C)}), one
		}
		r := in.freshInt(st, "or", t)
		if st.c.entailsGE(a) && st.c.entailsGE(b) {
			c := st.cw()
			c.addGE(r.E)
			switch op {
			case token.OR:
				c.addGE(sub(r.E, a))
				c.addGE(sub(r.E, b))
				c.addGE(sub(add(a, b), r.E))
			case token.XOR:
				c.addGE(sub(add(a, b), r.E))
			case token.AND_NOT:
				c.addGE(sub(a, r.E))
			}
			// below the next power of two
			_, ha := in.interval(st, a)
			_, hb := in.interval(st, b)
			if op != token.AND_NOT && ha != nil && hb != nil {
				m := ha
				if hb.Cmp(m) > 0 {
					m = hb
				}
				if m.BitLen() < 60 {
					c.addGE(addc(neg(r.E), int64(1)<<uint(m.BitLen())-1))
				}
			}
		}
		return constV(r), one
	}
	return constV(in.freshInt(st, "ar", t)), one
}

func (in *Interp) fitsRange(st *State, e Expr, lo, hi int64) bool {
	return st.c.entailsGE(addc(e, -lo)) && st.c.entailsGE(addc(neg(e), hi))
}

func (in *Interp) mulInterval(st *State, a, b Expr, t types.Type) Value {
	al, ah := in.interval(st, a)
	bl, bh := in.interval(st, b)
	lo, hi, bits, _ := intRange(t)
	r := in.freshInt(st, "mul", t)
	if al != nil && ah != nil && bl != nil && bh != nil {
		var mn, mx *big.Int
		for _, x := range []*big.Int{al, ah} {
			for _, y := range []*big.Int{bl, bh} {
				p := new(big.Int).Mul(x, y)
				if mn == nil || p.Cmp(mn) < 0 {
					mn = p
				}
				if mx == nil || p.Cmp(mx) > 0 {
					mx = p
				}
			}
		}
		if mn.Cmp(lo) >= 0 && mx.Cmp(hi) <= 0 {
			c := st.cw()
			if mn.IsInt64() && mn.Int64() > -coefMax {
				c.addGE(addc(r.E, -mn.Int64()))
			}
			if mx.IsInt64() && mx.Int64() < coefMax {
				c.addGE(addc(neg(r.E), mx.Int64()))
			}
			return r
		}
	}
	if bits >= 32 {
		in.syms.info[r.E.T[0].S].flag |= symWrapped
	}
	return r
}

// byteOp computes 8-bit operations through value tables.
func (in *Interp) byteOp(st *State, op token.Token, a, b Expr) (Value, bool) {
	f := func(x, y byte) (byte, bool) {
		switch op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.AND:
			return x & y, true
		case token.OR:
			return x | y, true
		case token.XOR:
			return x ^ y, true
		case token.AND_NOT:
			return x &^ y, true
		case token.SHL:
			if y > 7 {
				return 0, true
			}
			return x << y, true
		case token.SHR:
			if y > 7 {
				return 0, true
			}
			return x >> y, true
		case token.QUO:
			if y == 0 {
				return 0, false
			}
			return x / y, true
		case token.REM:
			if y == 0 {
				return 0, false
			}
			return x % y, true
		}
		return 0, false
	}
	if a.isConst() && b.isConst() {
		if b.C < 0 || b.C > 255 {
			return nil, false
		}
		v, ok := f(byte(a.C), byte(b.C))
		if !ok {
			return nil, false
		}
		return Int{cst(int64(v))}, true
	}
	single := func(e Expr) (Sym, bool) {
		if len(e.T) == 1 && e.C == 0 && e.T[0].K == 1 {
			if _, ok := st.bset[e.T[0].S]; ok {
				return e.T[0].S, true
			}
		}
		return 0, false
	}
	mk := func(src Sym, g func(byte) (byte, bool)) (Value, bool) {
		var tab [256]byte
		var set ByteSet
		id := true
		bs := st.bset[src]
		for i := 0; i < 256; i++ {
			v, ok := g(byte(i))
			if !ok {
				return nil, false
			}
			tab[i] = v
			if bs.has(byte(i)) {
				set.add(v)
				if v != byte(i) {
					id = false
				}
			}
		}
		if id {
			return Int{sx(src)}, true
		}
		if set.count() == 1 {
			lo, _ := set.bounds()
			return Int{cst(int64(lo))}, true
		}
		s := in.syms.fresh("t")
		in.constrainType(st, s, types.Typ[types.Uint8])
		st.bset[s] = set
		in.boundBySet(st, s)
		in.deriv[s] = derived{src, tab}
		// a uniform shift stays linear
		d := int(tab[lowest(bs)]) - lowest(bs)
		lin := true
		for i := 0; i < 256; i++ {
			if bs.has(byte(i)) && int(tab[i])-i != d {
				lin = false
				break
			}
		}
		if lin {
			st.cw().addEQ(addc(sub(sx(s), sx(src)), -int64(d)))
		}
		return Int{sx(s)}, true
	}
	if s, ok := single(a); ok && b.isConst() && b.C >= 0 && b.C < 256 {
		return mk(s, func(x byte) (byte, bool) { return f(x, byte(b.C)) })
	}
	if s, ok := single(b); ok && a.isConst() && a.C >= 0 && a.C < 256 {
		return mk(s, func(x byte) (byte, bool) { return f(byte(a.C), x) })
	}
	sa, ok1 := single(a)
	sb, ok2 := single(b)
	if ok1 && ok2 && sa == sb {
		return mk(sa, func(x byte) (byte, bool) { return f(x, x) })
	}
	// derived from the same byte
	if ok1 && ok2 {
		da, k1 := in.deriv[sa]
		db, k2 := in.deriv[sb]
		if k1 && k2 && da.src == db.src {
			if _, live := st.bset[da.src]; live {
				return mk(da.src, func(x byte) (byte, bool) { return f(da.tab[x], db.tab[x]) })
			}
		}
	}
	if op == token.QUO || op == token.REM {
		return nil, false
	}
	ba, bb := in.byteSetOf(st, a), in.byteSetOf(st, b)
	var set ByteSet
	for i := 0; i < 256; i++ {
		if !ba.has(byte(i)) {
			continue
		}
		for k := 0; k < 256; k++ {
			if bb.has(byte(k)) {
				v, _ := f(byte(i), byte(k))
				set.add(v)
			}
		}
	}
	s := in.syms.fresh("t")
	in.constrainType(st, s, types.Typ[types.Uint8])
	st.bset[s] = set
	in.boundBySet(st, s)
	var lab [nLab]bool
	for _, e := range []Expr{a, b} {
		for _, t := range e.T {
			for k, l := range in.symLab[t.S] {
				lab[k] = lab[k] || l
			}
		}
	}
	in.symLab[s] = lab
	return Int{sx(s)}, true
}

func lowest(s ByteSet) int {
	lo, _ := s.bounds()
	if lo > 255 {
		return 0
	}
	return lo
}

func (in *Interp) unop(st *State, x *ssa.UnOp) []*State {
	v := in.val(st, x.X)
	if t, ok := v.(TabSel); ok {
		v = in.resolveSel(st, t)
	}
	switch x.Op {
	case token.NOT:
		return in.set(st, x, Bool{cNotOf(in.asCond(st, v))})
	case token.SUB:
		if i, ok := v.(Int); ok {
			f, sts := in.wrap(st, neg(i.E), x.Type(), "neg")
			return in.setEach(sts, x, f)
		}
		return in.set(st, x, in.freshVal(st, "neg", x.Type(), "new"))
	case token.XOR:
		if i, ok := v.(Int); ok {
			if n := st.c.norm(i.E); len(n.T) <= 1 {
				if r, ok := in.byteOp(st, token.XOR, n, cst(255)); ok && isByteElem(x.Type()) {
					return in.set(st, x, r)
				}
			}
			f, sts := in.wrap(st, addc(neg(i.E), -1), x.Type(), "not")
			return in.setEach(sts, x, f)
		}
		return in.set(st, x, in.freshVal(st, "not", x.Type(), "new"))
	case token.ARROW:
		in.gap("channel receive in %s", in.prog.short(x.Parent().String()))
		return in.set(st, x, in.freshVal(st, "recv", x.Type(), "?"))
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			return in.set(st, x, in.freshVal(st, "deref", x.Type(), "?"))
		}
		var out []*State
		for _, s := range in.require(st, x, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference") {
			if in.nilPtr(p) {
				out = append(out, in.set(s, x, in.freshVal(s, "deref", x.Type(), "?"))...)
				continue
			}
			v := in.load(s, p, x.Type(), in.site(s, x))
			if ia, ok := x.X.(*ssa.IndexAddr); ok && in.track != nil {
				if _, ok := x.Type().Underlying().(*types.Signature); ok {
					in.event(s, x, "fnload", in.val(s, ia.X), in.val(s, ia.Index), v)
				}
			}
			out = append(out, in.set(s, x, v)...)
		}
		return out
	}
	return in.set(st, x, in.freshVal(st, "un", x.Type(), "?"))
}

// ---- equality ----

func (in *Interp) nilCond(st *State, v Value) *Cond {
	switch x := v.(type) {
	case Ptr:
		return mkCmp(cEQ, x.NN)
	case Slice:
		if x.NN.isConst() {
			return condOf(x.NN.C == 0)
		}
		ln, cp, nn := x.Len, x.Cap, x.NN
		return &Cond{op: cPred, id: "nil:" + nn.key(), e: add(add(nn, ln), cp), ref: func(st *State, pol bool) []*State {
			c := st.cw()
			if pol {
				c.addEQ(nn)
				c.addEQ(ln)
				c.addEQ(cp)
			} else {
				c.addEQ(addc(nn, -1))
			}
			if c.bot || c.infeasible() {
				return nil
			}
			return []*State{st}
		}}
	case MapV:
		return mkCmp(cEQ, x.NN)
	case Iface:
		return mkCmp(cEQ, x.NN)
	case Fn:
		return mkCmp(cEQ, x.NN)
	case RType:
		return condF
	}
	return nil
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.NN.isConst() && x.NN.C == 0
	case Slice:
		return x.NN.isConst() && x.NN.C == 0
	case MapV:
		return x.NN.isConst() && x.NN.C == 0
	case Iface:
		return x.NN.isConst() && x.NN.C == 0
	case Fn:
		return x.NN.isConst() && x.NN.C == 0
	}
	return false
}

func (in *Interp) freshCond(st *State, name string) *Cond {
	return mkCmp(cEQ, addc(in.freshRange(st, name, 0, 1), -1))
}

func (in *Interp) equal(st *State, at ssa.Instruction, a, b Value, t types.Type) (*Cond, []*State) {
	one := []*State{st}
	if isNilVal(b) {
		if c := in.nilCond(st, a); c != nil {
			return c, one
		}
	}
	if isNilVal(a) {
		if c := in.nilCond(st, b); c != nil {
			return c, one
		}
	}
	switch x := a.(type) {
	case Int:
		if y, ok := b.(Int); ok {
			if d, ok := addScaled(x.E, -1, y.E); ok {
				return mkCmp(cEQ, d), one
			}
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return cOrOf(cAndOf(x.C, y.C), cAndOf(cNotOf(x.C), cNotOf(y.C))), one
		}
	case Str:
		if y, ok := b.(Str); ok {
			return in.strEq(st, x, y), one
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.O == y.O && x.R == y.R && samePath(x.Path, y.Path) && x.R == 0 && st.obj[x.O] != nil && !st.obj[x.O].Sum {
				return mkCmp(cEQ, sub(x.NN, y.NN)), one
			}
		}
	case RType:
		if y, ok := b.(RType); ok {
			return condOf(types.Identical(x.T, y.T)), one
		}
		if y, ok := b.(Iface); ok && y.T == nil {
			return in.freshCond(st, "typeeq"), one
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
			c := condT
			if ut, ok := t.Underlying().(*types.Struct); ok {
				for i := range x.F {
					f, _ := in.equal(st, at, x.F[i], y.F[i], ut.Field(i).Type())
					c = cAndOf(c, f)
				}
				return c, one
			}
		}
	case Arr:
		if y, ok := b.(Arr); ok {
			return in.arrEq(st, x, y), one
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			return in.ifaceEq(st, at, x, y)
		}
	}
	return in.freshCond(st, "eq"), one
}

func (in *Interp) arrEq(st *State, x, y Arr) *Cond {
	a, b := st.reg[x.R], st.reg[y.R]
	if x.R == y.R {
		return condT
	}
	if a == nil || b == nil || !a.Byte || !a.N.isConst() {
		return in.freshCond(st, "arreq")
	}
	return in.strEq(st, Str{x.R, cst(0), a.N}, Str{y.R, cst(0), b.N})
}

func (in *Interp) ifaceEq(st *State, at ssa.Instruction, x, y Iface) (*Cond, []*State) {
	one := []*State{st}
	if x.T != nil && y.T != nil {
		bothNil := cAndOf(mkCmp(cEQ, x.NN), mkCmp(cEQ, y.NN))
		bothSet := cAndOf(mkCmp(cEQ, addc(x.NN, -1)), mkCmp(cEQ, addc(y.NN, -1)))
		if !types.Identical(x.T, y.T) {
			return bothNil, one
		}
		if !types.Comparable(x.T) {
			sts := in.require(st, at, "compare", cNotOf(bothSet), "comparing values of an uncomparable type "+in.prog.short(x.T.String()))
			return bothNil, sts
		}
		c, _ := in.equal(st, at, x.V, y.V, x.T)
		return cOrOf(bothNil, cAndOf(bothSet, c)), one
	}
	if x.T == nil && y.T == nil && x.ID != "" && y.ID != "" && x.ID != "mix" && y.ID != "mix" {
		bothNil := cAndOf(mkCmp(cEQ, x.NN), mkCmp(cEQ, y.NN))
		if x.ID == y.ID {
			return mkCmp(cEQ, sub(x.NN, y.NN)), one
		}
		if distinctIDs(x.ID, y.ID) {
			return bothNil, one
		}
		i, j := x.ID, y.ID
		if i > j {
			i, j = j, i
		}
		p := &Cond{op: cPred, id: "same:" + i + ":" + j}
		bothSet := cAndOf(mkCmp(cEQ, addc(x.NN, -1)), mkCmp(cEQ, addc(y.NN, -1)))
		return cOrOf(bothNil, cAndOf(bothSet, p)), one
	}
	if x.T != nil && y.T == nil || x.T == nil && y.T != nil {
		k := x
		if k.T == nil {
			k = y
		}
		// comparing with an unknown value may meet an uncomparable type only if the known one is
		u := x
		if u.T != nil {
			u = y
		}
		bothNil := cAndOf(mkCmp(cEQ, x.NN), mkCmp(cEQ, y.NN))
		if distinctIDs(u.ID, "typed") {
			return bothNil, one
		}
		bothSet := cAndOf(mkCmp(cEQ, addc(x.NN, -1)), mkCmp(cEQ, addc(y.NN, -1)))
		return cOrOf(bothNil, cAndOf(bothSet, in.freshCond(st, "ifeq"))), one
	}
	return in.freshCond(st, "ifeq"), one
}

func distinctIDs(a, b string) bool {
	k := func(s string) string {
		for i := 0; i < len(s); i++ {
			if s[i] == ':' {
				return s[:i]
			}
		}
		return ""
	}
	ka, kb := k(a), k(b)
	if ka == "new" && (kb == "new" || kb == "globalv") || kb == "new" && ka == "globalv" {
		return true
	}
	if ka == "new" && b == "typed" {
		return true
	}
	return ka == "globalv" && kb == "globalv" && a != b
}

// strEq is the condition that two strings are equal.
func (in *Interp) strEq(st *State, a, b Str) *Cond {
	ca, oka := in.constOf(st, a)
	cb, okb := in.constOf(st, b)
	if oka && okb {
		return condOf(ca == cb)
	}
	if oka {
		a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
	}
	_ = ca
	if okb {
		// quick refutation
		if in.decide(st, eqc(a.Len, cst(int64(len(cb))))) == 0 {
			return condF
		}
		if len(cb) == 0 {
			return eqc(a.Len, cst(0))
		}
		for i := 0; i < len(cb) && i < 16; i++ {
			if st.c.entailsGE(addc(a.Len, -int64(i)-1)) {
				s := in.query(st, a.R, addc(a.Off, int64(i)), addc(a.Off, int64(i)+1))[lAny]
				if !s.has(cb[i]) {
					return condF
				}
			}
		}
		r := st.reg[a.R]
		ver := 0
		if r != nil {
			ver = r.Ver
		}
		id := fmt.Sprintf("streq:%d.%d:%s:%s:%s", a.R, ver, st.c.norm(a.Off).key(), st.c.norm(a.Len).key(), cb)
		if r != nil && r.SumR {
			id = fmt.Sprintf("streq~%d", in.nextSeq())
		}
		ln := st.c.norm(a.Len)
		if ln.isConst() && ln.C == 1 && len(cb) == 1 {
			bt := in.readByte(st, a.R, a.Off, types.Typ[types.Uint8])
			return mkCmp(cEQ, addc(bt.E, -int64(cb[0])))
		}
		return &Cond{op: cPred, id: id, e: add(a.Len, a.Off), ref: func(st *State, pol bool) []*State {
			if !pol {
				if len(cb) == 1 && st.c.entailsEQ(addc(a.Len, -1)) {
					in.learn(st, a.R, a.Off, addc(a.Off, 1), anySets(setOf(cb[0]).not()))
				}
				return []*State{st}
			}
			for _, s := range in.assumeCmp(st, cEQ, addc(a.Len, -int64(len(cb)))) {
				for i := 0; i < len(cb) && i < 24; i++ {
					in.learn(s, a.R, addc(a.Off, int64(i)), addc(a.Off, int64(i)+1), anySets(setOf(cb[i])))
				}
				return []*State{s}
			}
			return nil
		}}
	}
	if in.strDiffer(st, a, b) {
		return condF
	}
	id := fmt.Sprintf("streq:%d:%s:%s:%d:%s:%s", a.R, st.c.norm(a.Off).key(), st.c.norm(a.Len).key(), b.R, st.c.norm(b.Off).key(), st.c.norm(b.Len).key())
	ra, rb := st.reg[a.R], st.reg[b.R]
	if ra != nil && rb != nil {
		id += fmt.Sprintf(":%d:%d", ra.Ver, rb.Ver)
		if ra.SumR || rb.SumR || ra.Mut || rb.Mut {
			id = fmt.Sprintf("streq~%d", in.nextSeq())
		}
	}
	return &Cond{op: cPred, id: id, e: sub(a.Len, b.Len), ref: func(st *State, pol bool) []*State {
		if !pol {
			return []*State{st}
		}
		return in.assumeCmp(st, cEQ, sub(a.Len, b.Len))
	}}
}

// strDiffer: two strings cannot be equal, by their lengths or what is known
// about their bytes.
func (in *Interp) strDiffer(st *State, a, b Str) bool {
	if st.reg[a.R] == nil || st.reg[b.R] == nil {
		return false
	}
	if in.decide(st, eqc(a.Len, b.Len)) == 0 {
		return true
	}
	n, m := st.c.norm(a.Len), st.c.norm(b.Len)
	if !n.isConst() {
		n = m // equal strings have the same length
	}
	if !n.isConst() || n.C < 1 {
		return false
	}
	disjoint := func(lo, hi Expr) bool {
		x := in.query(st, a.R, add(a.Off, lo), add(a.Off, hi))[lAny]
		y := in.query(st, b.R, add(b.Off, lo), add(b.Off, hi))[lAny]
		return x.and(y).empty()
	}
	if disjoint(cst(0), n) {
		return true
	}
	for k, s := range []Str{a, b} {
		r := st.reg[s.R]
		if k >= 0 && len(r.Facts) > 12 {
			continue
		}
		for _, f := range r.Facts {
			lo, hi := st.c.norm(sub(f.Lo, s.Off)), st.c.norm(sub(f.Hi, s.Off))
			if lo.isConst() && hi.isConst() && lo.C >= 0 && hi.C > lo.C && hi.C <= n.C && disjoint(lo, hi) {
				return true
			}
		}
	}
	return false
}

// ---- conversions ----

func (in *Interp) convert(st *State, at ssa.Instruction, src ssa.Value, t types.Type) []*State {
	v := in.val(st, src)
	if ts, ok := v.(TabSel); ok {
		v = in.resolveSel(st, ts)
	}
	x := at.(ssa.Value)
	from, to := src.Type().Underlying(), t.Underlying()
	switch y := v.(type) {
	case Int:
		if b, ok := to.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				_, _, bits, _ := intRange(t)
				if in.fits(st, y.E, t) {
					return in.set(st, x, y)
				}
				if bits == 8 && b.Info()&types.IsUnsigned != 0 {
					// low byte
					return in.set(st, x, in.freshInt(st, "low", t))
				}
				f, sts := in.wrap(st, y.E, t, "conv")
				if in.wrappedFlag(y.E) {
					for _, s := range sts {
						if i, ok := f(s).(Int); ok && len(i.E.T) > 0 {
							in.syms.info[i.E.T[0].S].flag |= symWrapped
						}
					}
				}
				in.event(st, at, "narrow", y)
				return in.setEach(sts, x, f)
			case b.Info()&types.IsString != 0:
				// rune to string
				n := in.freshRange(st, "runelen", 1, 4)
				set := allBytes
				if st.c.entailsGE(y.E) && st.c.entailsGE(addc(neg(y.E), 127)) {
					st.cw().addEQ(addc(n, -1))
					set = in.byteSetOf(st, y.E)
				}
				id := in.newBytes(st, in.site(st, at), n, plain(set), "new", false)
				return in.set(st, x, Str{id, cst(0), n})
			}
		}
	case Str:
		if sl, ok := to.(*types.Slice); ok {
			if isByteElem(sl.Elem()) {
				id := in.copyBytes(st, in.site(st, at), y.R, y.Off, y.Len, true)
				return in.set(st, x, Slice{R: id, Off: cst(0), Len: y.Len, Cap: y.Len, NN: cst(1)})
			}
			// []rune
			n := in.freshRange(st, "runes", 0, lenMax)
			st.cw().addGE(sub(y.Len, n))
			id := in.newRegion(st, in.site(st, at), &Region{Elem: sl.Elem(), N: n, Own: "new", Mut: true, Sum: in.freshInt(st, "rune", sl.Elem())})
			return in.set(st, x, Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)})
		}
		return in.set(st, x, y)
	case Slice:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			fs, _ := from.(*types.Slice)
			if fs != nil && isByteElem(fs.Elem()) {
				id := in.copyHint(st, in.site(st, at), y, false)
				return in.set(st, x, Str{id, cst(0), y.Len})
			}
			n := in.freshRange(st, "strlen", 0, lenMax)
			id := in.newBytes(st, in.site(st, at), n, plain(allBytes), "new", false)
			return in.set(st, x, Str{id, cst(0), n})
		}
		return in.set(st, x, y)
	case Ptr, Fn, Iface, MapV:
		return in.set(st, x, v)
	case Opaque:
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			// float to integer: out-of-range values are implementation specific
			r := in.freshInt(st, "fromfloat", t)
			if !in.floatOK(st, y, t) {
				in.syms.info[r.E.T[0].S].flag |= symWrapped
			}
			return in.set(st, x, r)
		}
	}
	return in.set(st, x, in.freshVal(st, "conv", t, "new"))
}

// floatOK: the float is known to be in the range of the integer type.
func (in *Interp) floatOK(st *State, f Opaque, t types.Type) bool {
	return st.pred["frange:"+f.ID]
}

// copyBytes makes a new region with the content of [off, off+n).
func (in *Interp) copyBytes(st *State, name string, src Rid, off, n Expr, mut bool) Rid {
	if src == 0 {
		return in.newBytes(st, name, n, Sets{}, "new", mut)
	}
	r := st.reg[src]
	if r == nil {
		return in.newBytes(st, name, n, plain(allBytes), "new", mut)
	}
	off, n = st.c.norm(off), st.c.norm(n)
	g := &Region{Byte: true, N: n, Own: "new", Mut: mut, Lab: r.Lab, From: unionStr(r.From, []string{"copy:" + r.Own})}
	if r.Own == "new" || r.Own == "const" {
		g.From = r.From
	}
	g.Base = in.query(st, src, off, add(off, n))
	if !r.Const && !r.SumR {
		end := add(off, n)
		for _, f := range r.Facts {
			if st.c.entailsGE(sub(f.Lo, off)) && st.c.entailsGE(sub(end, f.Hi)) {
				if !g.Base.subset(f.S) {
					g.Facts = append(g.Facts, Fact{sub(f.Lo, off), sub(f.Hi, off), f.S})
				}
			} else if st.c.entailsGE(sub(off, f.Lo)) && st.c.entailsGE(sub(f.Hi, off)) && !g.Base.subset(f.S) && st.c.entailsGE(sub(end, f.Hi)) {
				g.Facts = append(g.Facts, Fact{cst(0), sub(f.Hi, off), f.S})
			} else if st.c.entailsGE(sub(f.Hi, end)) && st.c.entailsGE(sub(end, f.Lo)) && !g.Base.subset(f.S) && st.c.entailsGE(sub(f.Lo, off)) {
				g.Facts = append(g.Facts, Fact{sub(f.Lo, off), n, f.S})
			}
		}
		for _, c := range r.Cnt {
			g.Cnt = append(g.Cnt, CntFact{sub(c.Lo, off), sub(c.Hi, off), c.B, c.N})
		}
	} else if r.Const && off.isConst() && n.isConst() && off.C >= 0 && off.C+n.C <= int64(len(r.KBytes)) {
		if !mut {
			s := in.constStr(st, r.KBytes[off.C:off.C+n.C])
			for l := 1; l < nLab; l++ {
				if !r.Base[l].empty() {
					goto plainCopy
				}
			}
			return s.R
		}
	plainCopy:
		for i := int64(0); i < n.C && i < 24; i++ {
			g.Facts = append(g.Facts, Fact{cst(i), cst(i + 1), in.query(st, src, cst(off.C+i), cst(off.C+i+1))})
		}
	}
	return in.newRegion(st, name, g)
}

func (in *Interp) copyHint(st *State, name string, s Slice, mut bool) Rid {
	id := in.copyBytes(st, name, s.R, s.Off, s.Len, mut)
	if s.Hint != nil {
		if r := st.reg[id]; r != nil && !r.Const {
			w := st.regw(id)
			w.Base = w.Base.and(*s.Hint)
		}
	}
	return id
}

func (in *Interp) concat(st *State, a, b Str, name string) Str {
	ca, oka := in.constOf(st, a)
	cb, okb := in.constOf(st, b)
	if oka && okb {
		return in.constStr(st, ca+cb)
	}
	if oka && ca == "" {
		return b
	}
	if okb && cb == "" {
		return a
	}
	n := add(a.Len, b.Len)
	if !in.fits(st, n, types.Typ[types.Int]) {
		n = in.freshRange(st, "n", 0, lenMax)
	}
	g := &Region{Byte: true, N: n, Own: "new", Lab: ^uint32(0)}
	qa, qb := in.query(st, a.R, a.Off, add(a.Off, a.Len)), in.query(st, b.R, b.Off, add(b.Off, b.Len))
	g.Base = qa.or(qb)
	for _, s := range []Str{a, b} {
		if r := st.reg[s.R]; r != nil && !r.Const {
			g.Lab &= r.Lab
			g.From = unionStr(g.From, r.From)
		}
	}
	part := func(s Str, at Expr, q Sets, c string, isC bool) {
		if isC && len(c) <= 8 {
			for i := 0; i < len(c); i++ {
				g.Facts = append(g.Facts, Fact{addc(at, int64(i)), addc(at, int64(i)+1), plain(setOf(c[i]))})
			}
			return
		}
		g.Facts = append(g.Facts, Fact{at, add(at, s.Len), q})
	}
	part(a, cst(0), qa, ca, oka)
	part(b, a.Len, qb, cb, okb)
	return Str{in.newRegion(st, name, g), cst(0), n}
}

// ---- indexing ----

func (in *Interp) index(st *State, x *ssa.Index) []*State {
	v := in.val(st, x.X)
	i, ok := in.val(st, x.Index).(Int)
	if t, isT := v.(TabSel); isT {
		v = in.resolveSel(st, t)
	}
	if !ok {
		in.oblige(st, x, "index", false, "untracked index")
		return in.set(st, x, in.freshVal(st, "idx", x.Type(), "?"))
	}
	var out []*State
	switch y := v.(type) {
	case Str:
		for _, s := range in.require(st, x, "index", cAndOf(ge(i.E, cst(0)), ge(addc(y.Len, -1), i.E)), "string index out of range") {
			out = append(out, in.set(s, x, in.readByte(s, y.R, add(y.Off, i.E), x.Type()))...)
		}
	case Arr:
		r := st.reg[y.R]
		for _, s := range in.require(st, x, "index", cAndOf(ge(i.E, cst(0)), ge(addc(r.N, -1), i.E)), "array index out of range") {
			out = append(out, in.set(s, x, in.elem(s, y.R, i.E, x.Type()))...)
		}
	default:
		in.oblige(st, x, "index", false, "index of an untracked value")
		return in.set(st, x, in.freshVal(st, "idx", x.Type(), "?"))
	}
	return out
}

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	v := in.val(st, x.X)
	i, ok := in.val(st, x.Index).(Int)
	if !ok {
		in.oblige(st, x, "index", false, "untracked index")
		return in.set(st, x, in.freshVal(st, "idx", x.Type(), "?"))
	}
	var out []*State
	switch y := v.(type) {
	case Slice:
		for _, s := range in.require(st, x, "index", cAndOf(ge(i.E, cst(0)), ge(addc(y.Len, -1), i.E)), "slice index out of range") {
			p := Ptr{R: y.R, Idx: add(y.Off, i.E), NN: cst(1)}
			if y.Hint != nil && y.R != 0 {
				if r := s.reg[y.R]; r != nil && r.Byte {
					in.learn(s, y.R, p.Idx, addc(p.Idx, 1), *y.Hint)
				}
			}
			out = append(out, in.set(s, x, p)...)
		}
	case Ptr:
		for _, s := range in.require(st, x, "nil", mkCmp(cEQ, addc(y.NN, -1)), "nil pointer dereference") {
			a, ok := in.cell(s, y, nil).(Arr)
			if !ok && y.R != 0 && len(y.Path) == 0 {
				// pointer made from a slice
				out = append(out, in.set(s, x, Ptr{R: y.R, Idx: add(y.Idx, i.E), NN: cst(1)})...)
				continue
			}
			if !ok {
				in.oblige(s, x, "index", false, "index of an untracked array")
				out = append(out, in.set(s, x, in.freshVal(s, "idx", x.Type(), "?"))...)
				continue
			}
			r := s.reg[a.R]
			for _, s2 := range in.require(s, x, "index", cAndOf(ge(i.E, cst(0)), ge(addc(r.N, -1), i.E)), "array index out of range") {
				out = append(out, in.set(s2, x, Ptr{R: a.R, Idx: i.E, NN: cst(1)})...)
			}
		}
	default:
		in.oblige(st, x, "index", false, "index of an untracked value")
		return in.set(st, x, in.freshVal(st, "idx", x.Type(), "?"))
	}
	return out
}

func (in *Interp) slice(st *State, x *ssa.Slice) []*State {
	v := in.val(st, x.X)
	if t, isT := v.(TabSel); isT {
		v = in.resolveSel(st, t)
	}
	get := func(v ssa.Value, def Expr) Expr {
		if v == nil {
			return def
		}
		if i, ok := in.val(st, v).(Int); ok {
			return i.E
		}
		return in.freshInt(st, "lim", types.Typ[types.Int]).E
	}
	var out []*State
	switch y := v.(type) {
	case Str:
		lo := get(x.Low, cst(0))
		hi := get(x.High, y.Len)
		for _, s := range in.require(st, x, "slice", cAndOf(ge(lo, cst(0)), cAndOf(ge(hi, lo), ge(y.Len, hi))), "string slice out of range") {
			out = append(out, in.set(s, x, Str{y.R, add(y.Off, lo), sub(hi, lo)})...)
		}
		return out
	case Slice:
		lo := get(x.Low, cst(0))
		hi := get(x.High, y.Len)
		mx := get(x.Max, y.Cap)
		c := cAndOf(ge(lo, cst(0)), cAndOf(ge(hi, lo), ge(y.Cap, hi)))
		if x.Max != nil {
			c = cAndOf(c, cAndOf(ge(mx, hi), ge(y.Cap, mx)))
		}
		for _, s := range in.require(st, x, "slice", c, "slice bounds out of range") {
			n := Slice{R: y.R, Off: add(y.Off, lo), Len: sub(hi, lo), Cap: sub(mx, lo), NN: y.NN}
			if r := s.reg[y.R]; r != nil && y.R != 0 && !r.Byte && !r.Lazy && r.Exact == nil && r.Elem != nil && !s.c.entailsGE(sub(y.Len, hi)) {
				z := in.zero(s, r.Elem, in.rnames[y.R]+"[]")
				w := s.regw(y.R)
				w.Cache = nil
				if w.Sum == nil {
					w.Sum = z
				} else {
					j := in.newJoiner(s, []*State{s})
					w.Sum = j.loose("sum", []Value{w.Sum, z})
					j.finishLoose()
				}
			}
			if y.Hint != nil && s.c.entailsGE(sub(y.Len, hi)) {
				n.Hint = y.Hint
			}
			out = append(out, in.set(s, x, n)...)
		}
		return out
	case Ptr:
		for _, s := range in.require(st, x, "nil", mkCmp(cEQ, addc(y.NN, -1)), "nil pointer dereference") {
			a, ok := in.cell(s, y, nil).(Arr)
			if !ok {
				in.oblige(s, x, "slice", false, "slice of an untracked array")
				out = append(out, in.set(s, x, in.freshVal(s, "slc", x.Type(), "?"))...)
				continue
			}
			n := s.reg[a.R].N
			lo := get(x.Low, cst(0))
			hi := get(x.High, n)
			mx := get(x.Max, n)
			c := cAndOf(ge(lo, cst(0)), cAndOf(ge(hi, lo), cAndOf(ge(mx, hi), ge(n, mx))))
			for _, s2 := range in.require(s, x, "slice", c, "slice bounds out of range") {
				out = append(out, in.set(s2, x, Slice{R: a.R, Off: lo, Len: sub(hi, lo), Cap: sub(mx, lo), NN: cst(1)})...)
			}
		}
		return out
	}
	in.oblige(st, x, "slice", false, "slice of an untracked value")
	return in.set(st, x, in.freshVal(st, "slc", x.Type(), "?"))
}

func (in *Interp) makeSlice(st *State, x *ssa.MakeSlice) []*State {
	n, ok1 := in.val(st, x.Len).(Int)
	c, ok2 := in.val(st, x.Cap).(Int)
	if !ok1 || !ok2 {
		in.oblige(st, x, "make", false, "untracked length")
		return in.set(st, x, in.freshVal(st, "mk", x.Type(), "new"))
	}
	var out []*State
	elem := x.Type().Underlying().(*types.Slice).Elem()
	for _, s := range in.require(st, x, "make", cAndOf(ge(n.E, cst(0)), cAndOf(ge(c.E, n.E), ge(cst(lenMax), c.E))), "makeslice: length out of range") {
		out = append(out, in.set(s, x, in.mkSlice(s, in.site(s, x), elem, n.E, c.E))...)
	}
	return out
}

func (in *Interp) mkSlice(s *State, name string, elem types.Type, n, c Expr) Slice {
	g := &Region{N: c, Elem: elem, Own: "new", Mut: true}
	nc := s.c.norm(c)
	if isByteElem(elem) {
		g.Byte = true
		g.Base = plain(setOf(0))
		if nc.isConst() && nc.C == 0 {
			g.Base = Sets{}
		}
	} else if nc.isConst() && nc.C <= 32 {
		g.Exact = make([]Value, nc.C)
		for i := range g.Exact {
			g.Exact[i] = in.zero(s, elem, fmt.Sprintf("%s[%d]", name, i))
		}
	} else if l := s.c.norm(n); !l.isConst() || l.C != 0 {
		g.Sum = in.zero(s, elem, name+"[]")
	} // else the zero elements are only seen by slicing beyond the length
	id := in.newRegion(s, name, g)
	return Slice{R: id, Off: cst(0), Len: n, Cap: c, NN: cst(1)}
}

// ---- maps ----

// mapKey gives the constant key of a map operation.
func (in *Interp) mapKey(st *State, v Value) (string, bool) {
	if t, ok := v.(TabSel); ok {
		v = in.resolveSel(st, t)
	}
	switch k := v.(type) {
	case Str:
		s, ok := in.constOf(st, k)
		return "s" + s, ok
	case Int:
		n := st.c.norm(k.E)
		return fmt.Sprintf("i%d", n.C), n.isConst()
	case Arr:
		r := st.reg[k.R]
		if r != nil && r.Byte && r.N.isConst() && r.N.C <= 16 {
			s, ok := in.constOf(st, Str{k.R, cst(0), r.N})
			return "a" + s, ok
		}
	case RType:
		return "t" + k.T.String(), true
	case Iface:
		if k.T != nil {
			s, ok := in.mapKey(st, k.V)
			return k.T.String() + "/" + s, ok
		}
	case Struct:
		out := "{"
		for _, f := range k.F {
			s, ok := in.mapKey(st, f)
			if !ok {
				return "", false
			}
			out += fmt.Sprintf("%d:%s", len(s), s)
		}
		return out, true
	}
	return "", false
}

func (in *Interp) mapOf(st *State, v Value) (*Obj, *MapContent) {
	m, ok := v.(MapV)
	if !ok || m.O == 0 {
		return nil, nil
	}
	ob := in.object(st, m.O)
	if ob == nil {
		return nil, nil
	}
	c, _ := ob.V.(*MapContent)
	return ob, c
}

// setEqCase: key equality of a map key with a constant.
func (in *Interp) keyEq(st *State, at ssa.Instruction, k Value, c Value, t types.Type) *Cond {
	e, _ := in.equal(st, at, k, c, t)
	return e
}

func (in *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	v := in.val(st, x.X)
	if t, isT := v.(TabSel); isT {
		v = in.resolveSel(st, t)
	}
	if s, ok := v.(Str); ok {
		i, ok := in.val(st, x.Index).(Int)
		if !ok {
			in.oblige(st, x, "index", false, "untracked index")
			return in.set(st, x, in.freshVal(st, "idx", x.Type(), "?"))
		}
		var out []*State
		for _, s2 := range in.require(st, x, "index", cAndOf(ge(i.E, cst(0)), ge(addc(s.Len, -1), i.E)), "string index out of range") {
			out = append(out, in.set(s2, x, in.readByte(s2, s.R, add(s.Off, i.E), types.Typ[types.Uint8]))...)
		}
		return out
	}
	key := in.val(st, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return in.set(st, x, in.freshVal(st, "lk", x.Type(), "?"))
	}
	// hashing an interface key may panic
	if kt, ok := key.(Iface); ok && kt.T != nil && !types.Comparable(kt.T) {
		in.oblige(st, x, "compare", false, "map key of an uncomparable type")
	}
	ob, m := in.mapOf(st, v)
	mk := func(s *State, e Value, found *Cond) {
		if x.CommaOk {
			s.fw().env[x] = Tuple{e, Bool{found}}
		} else {
			s.fw().env[x] = e
		}
	}
	if mv, ok := v.(MapV); ok && (mv.O == 0) {
		mk(st, in.zero(st, mt.Elem(), in.site(st, x)), condF)
		return []*State{st}
	}
	if m == nil {
		mk(st, in.freshVal(st, "lk", mt.Elem(), "?"), in.freshCond(st, "found"))
		return []*State{st}
	}
	sum := ob.Sum
	if m.Known && !sum {
		if k, ok := in.mapKey(st, key); ok {
			if e, has := m.Exact[k]; has {
				mk(st, e, condT)
			} else {
				mk(st, in.zero(st, mt.Elem(), in.site(st, x)), condF)
			}
			return []*State{st}
		}
		// split by the key when there are few entries, else by distinct values
		if len(m.Exact) <= 24 && in.splitMaps(mt) {
			var out []*State
			rest := st
			alive := true
			for _, k := range sortedKeys(m.Exact) {
				c := in.keyEq(rest, x, key, m.Keys[k], mt.Key())
				t, f := in.split(rest, c)
				for _, s := range t {
					mk(s, m.Exact[k], condT)
					out = append(out, s)
				}
				if len(f) == 0 {
					alive = false
					break
				}
				rest = f[0]
			}
			if alive {
				mk(rest, in.zero(rest, mt.Elem(), in.site(rest, x)), condF)
				out = append(out, rest)
			}
			return out
		}
		s2 := st.clone()
		var vs []Value
		for _, k := range sortedKeys(m.Exact) {
			vs = append(vs, m.Exact[k])
		}
		var out []*State
		if len(vs) > 0 {
			j := in.newJoiner(st, []*State{st})
			mk(st, j.loose("mapel", vs), condT)
			in.event(st, x, "maphit", key)
			out = append(out, st)
		}
		mk(s2, in.zero(s2, mt.Elem(), in.site(s2, x)), condF)
		in.mapMiss(s2, m, key)
		return append(out, s2)
	}
	s2 := st.clone()
	var out []*State
	if m.ESum != nil {
		mk(st, in.instance(st, m.ESum), condT)
		out = append(out, st)
	}
	mk(s2, in.zero(s2, mt.Elem(), in.site(s2, x)), condF)
	return append(out, s2)
}

// mapMiss records that the key differs from every known key.
func (in *Interp) mapMiss(st *State, m *MapContent, key Value) {}

func (in *Interp) splitMaps(mt *types.Map) bool {
	switch mt.Elem().Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Signature:
		return false
	}
	return true
}

func (in *Interp) mapUpdate(st *State, x *ssa.MapUpdate) []*State {
	v := in.val(st, x.Map)
	mv, ok := v.(MapV)
	if !ok {
		return []*State{st}
	}
	var out []*State
	for _, s := range in.require(st, x, "nilmap", mkCmp(cEQ, addc(mv.NN, -1)), "assignment to entry in nil map") {
		in.mapSet(s, x, mv, in.val(s, x.Key), in.val(s, x.Value))
		out = append(out, s)
	}
	return out
}

func (in *Interp) mapSet(s *State, at ssa.Instruction, mv MapV, key, val Value) {
	if t, ok := key.(TabSel); ok {
		key = in.resolveSel(s, t)
	}
	if t, ok := val.(TabSel); ok {
		val = in.resolveSel(s, t)
	}
	ob, m := in.mapOf(s, mv)
	if m == nil {
		return
	}
	in.wrote(s, at, ob.Own, in.onames[mv.O])
	n := *m
	k, kok := in.mapKey(s, key)
	if m.Known && kok && !ob.Sum {
		n.Exact, n.Keys = map[string]Value{}, map[string]Value{}
		for kk, vv := range m.Exact {
			n.Exact[kk], n.Keys[kk] = vv, m.Keys[kk]
		}
		n.Exact[k], n.Keys[k] = val, key
	} else {
		var ks, es []Value
		for _, kk := range sortedKeys(m.Exact) {
			ks, es = append(ks, m.Keys[kk]), append(es, m.Exact[kk])
		}
		if m.KSum != nil {
			ks, es = append(ks, m.KSum), append(es, m.ESum)
		}
		ks, es = append(ks, key), append(es, val)
		j := in.newJoiner(s, []*State{s})
		n.Known, n.Exact, n.Keys = false, nil, nil
		n.KSum, n.ESum = j.loose("mk", ks), j.loose("me", es)
		n.N = in.freshRange(s, "maplen", 1, lenMax)
	}
	nb := *ob
	nb.V = &n
	s.obj[mv.O] = &nb
}

// ---- iteration ----

func (in *Interp) rangeOver(st *State, x *ssa.Range) []*State {
	v := in.val(st, x.X)
	if t, isT := v.(TabSel); isT {
		v = in.resolveSel(st, t)
	}
	switch y := v.(type) {
	case Str:
		return in.set(st, x, Native{"striter", map[string]Value{"s": y, "pos": Int{cst(0)}}})
	case MapV:
		if _, m := in.mapOf(st, y); m != nil && m.Known && len(m.Exact) <= 40 && y.NN.isConst() {
			return in.set(st, x, Native{"mapiter", map[string]Value{"m": y, "exact": Int{cst(0)}}})
		}
		return in.set(st, x, Native{"mapiter", map[string]Value{"m": y}})
	}
	return in.set(st, x, Opaque{"iter"})
}

func (in *Interp) next(st *State, x *ssa.Next) []*State {
	it, ok := in.val(st, x.Iter).(Native)
	tt := x.Type().(*types.Tuple)
	if !ok {
		return in.set(st, x, Tuple{Bool{in.freshCond(st, "next")}, in.freshVal(st, "k", tt.At(1).Type(), "?"), in.freshVal(st, "v", tt.At(2).Type(), "?")})
	}
	setIter := func(s *State, f map[string]Value) {
		n := Native{it.Kind, map[string]Value{}}
		for k, v := range it.F {
			n.F[k] = v
		}
		for k, v := range f {
			n.F[k] = v
		}
		s.fw().env[x.Iter] = n
	}
	if it.Kind == "striter" {
		s := it.F["s"].(Str)
		pos := it.F["pos"].(Int).E
		more, end := in.split(st, ge(addc(s.Len, -1), pos))
		var out []*State
		for _, m := range more {
			bt := in.readByte(m, s.R, add(s.Off, pos), types.Typ[types.Uint8])
			// ASCII byte
			m2 := m.clone()
			for _, a := range in.assume(m, ge(cst(127), bt.E), true) {
				setIter(a, map[string]Value{"pos": Int{addc(pos, 1)}})
				a.fw().env[x] = Tuple{Bool{condT}, Int{pos}, bt}
				out = append(out, a)
			}
			for _, a := range in.assume(m2, ge(bt.E, cst(128)), true) {
				w := in.freshRange(a, "w", 1, 4)
				a.cw().addGE(sub(sub(s.Len, pos), w))
				setIter(a, map[string]Value{"pos": Int{add(pos, w)}})
				r := in.freshRange(a, "rune", 128, 0x10ffff)
				a.fw().env[x] = Tuple{Bool{condT}, Int{pos}, Int{r}}
				out = append(out, a)
			}
		}
		for _, e := range end {
			e.fw().env[x] = Tuple{Bool{condF}, Int{cst(0)}, Int{cst(0)}}
			out = append(out, e)
		}
		return out
	}
	mv := it.F["m"].(MapV)
	_, m := in.mapOf(st, mv)
	zero := func(s *State, i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return Opaque{"none"}
		}
		return in.zero(s, tt.At(i).Type(), in.site(s, x)+fmt.Sprint(i))
	}
	if p, ok := it.F["exact"].(Int); ok && m != nil && m.Known {
		keys := sortedKeys(m.Exact)
		if p.E.C < int64(len(keys)) {
			k := keys[p.E.C]
			setIter(st, map[string]Value{"exact": Int{cst(p.E.C + 1)}})
			in.event(st, x, "mapiter")
			return in.set(st, x, Tuple{Bool{condT}, m.Keys[k], m.Exact[k]})
		}
		return in.set(st, x, Tuple{Bool{condF}, zero(st, 1), zero(st, 2)})
	}
	var out []*State
	s2 := st.clone()
	if m == nil || m.KSum != nil || len(m.Exact) > 0 {
		var k, e Value
		mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if m == nil {
			k, e = in.freshVal(st, "k", mt.Key(), "?"), in.freshVal(st, "v", mt.Elem(), "?")
		} else {
			ks, es := []Value{}, []Value{}
			for _, kk := range sortedKeys(m.Exact) {
				ks, es = append(ks, m.Keys[kk]), append(es, m.Exact[kk])
			}
			if m.KSum != nil {
				ks, es = append(ks, m.KSum), append(es, m.ESum)
			}
			j := in.newJoiner(st, []*State{st})
			j.sl = true
			k, e = j.loose("k", ks), j.loose("e", es)
		}
		if mv.NN.isConst() && mv.NN.C == 0 {
			// nil map: no iteration
		} else {
			if ss := in.assume(st, mkCmp(cEQ, addc(mv.NN, -1)), true); len(ss) > 0 {
				in.event(ss[0], x, "mapiter")
				out = append(out, in.set(ss[0], x, Tuple{Bool{condT}, k, e})...)
			}
		}
	}
	return append(out, in.set(s2, x, Tuple{Bool{condF}, zero(s2, 1), zero(s2, 2)})...)
}

// ---- interfaces ----

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := in.val(st, x.X)
	fail := func(s *State) []*State {
		if !x.CommaOk {
			in.oblige(s, x, "assert", false, "failed type assertion to "+in.prog.short(x.AssertedType.String()))
			return nil
		}
		return in.set(s, x, Tuple{in.zero(s, x.AssertedType, in.site(s, x)), Bool{condF}})
	}
	good := func(s *State, v Value) []*State {
		if !x.CommaOk {
			in.oblige(s, x, "assert", true, "")
			return in.set(s, x, v)
		}
		return in.set(s, x, Tuple{v, Bool{condT}})
	}
	toI := types.IsInterface(x.AssertedType)
	if rt, ok := v.(RType); ok {
		return good(st, rt)
	}
	f, ok := v.(Iface)
	if !ok {
		if toI {
			return good(st, v)
		}
		s2 := st.clone()
		return append(good(st, in.freshVal(st, "ta", x.AssertedType, "?")), fail(s2)...)
	}
	var out []*State
	set, unset := in.split(st, mkCmp(cEQ, addc(f.NN, -1)))
	for _, s := range unset {
		out = append(out, fail(s)...)
	}
	for _, s := range set {
		if f.T != nil {
			match := false
			if toI {
				match = types.Implements(f.T, x.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(f.T, x.AssertedType)
			}
			if match {
				if toI {
					g := f
					g.NN = cst(1)
					out = append(out, good(s, g)...)
				} else {
					out = append(out, good(s, f.V)...)
				}
			} else {
				out = append(out, fail(s)...)
			}
			continue
		}
		// static knowledge
		if toI && types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
			g := f
			g.NN = cst(1)
			out = append(out, good(s, g)...)
			continue
		}
		if toI && f.ID == "zlibr:" && x.AssertedType.String() == "compress/zlib.Resetter" {
			// documented for the readers made by zlib.NewReader
			g := f
			g.NN = cst(1)
			out = append(out, good(s, g)...)
			continue
		}
		if len(f.ID) > 4 && f.ID[:4] == "new:" {
			// made by errors.New or fmt.Errorf: a private type
			if toI {
				if x.AssertedType.String() == "error" {
					g := f
					g.NN = cst(1)
					out = append(out, good(s, g)...)
					continue
				}
				if !unwrapperIface(x.AssertedType) {
					out = append(out, fail(s)...)
					continue
				}
			} else {
				out = append(out, fail(s)...)
				continue
			}
		}
		s2 := s.clone()
		id := "ta:" + f.ID + ":" + x.AssertedType.String()
		if f.ID == "mix" || f.ID == "" {
			id = fmt.Sprintf("ta~%d", in.nextSeq())
		}
		p := &Cond{op: cPred, id: id}
		for _, t := range in.assume(s, p, true) {
			if toI {
				g := f
				g.NN = cst(1)
				out = append(out, good(t, g)...)
			} else {
				// values in interfaces are not nil pointers
				out = append(out, good(t, in.initial(t, "ta:"+f.ID+":"+x.AssertedType.String(), x.AssertedType, nameCtx{own: "arg:" + f.ID, depth: 0}))...)
			}
		}
		for _, t := range in.assume(s2, p, false) {
			out = append(out, fail(t)...)
		}
	}
	return out
}

func unwrapperIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return true
	}
	for k := 0; k < i.NumMethods(); k++ {
		switch i.Method(k).Name() {
		case "Error", "Unwrap", "Is", "As":
		default:
			return false
		}
	}
	return true
}

// ---- defer ----

func (in *Interp) deferCall(st *State, x *ssa.Defer) []*State {
	d := deferred{call: &x.Call, site: x}
	if x.Call.IsInvoke() {
		d.fn = in.val(st, x.Call.Value)
	} else if f := x.Call.StaticCallee(); f == nil {
		d.fn = in.val(st, x.Call.Value)
	} else {
		d.fn = in.val(st, x.Call.Value)
	}
	for _, a := range x.Call.Args {
		d.args = append(d.args, in.val(st, a))
	}
	f := st.fw()
	f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
	return []*State{st}
}

func (in *Interp) runDefers(st *State, x ssa.Instruction) []*State {
	sts := []*State{st}
	var out []*State
	for len(sts) > 0 {
		s := sts[0]
		sts = sts[1:]
		n := len(s.top().defers)
		if n == 0 {
			out = append(out, s)
			continue
		}
		d := s.top().defers[n-1]
		f := s.fw()
		f.defers = f.defers[: n-1 : n-1]
		for _, e := range in.callWith(s, d.site, d.call, d.fn, d.args) {
			if in.after == nil {
				sts = append(sts, e.st)
				continue
			}
			for _, e := range in.after(e, d.site, d.call) {
				sts = append(sts, e.st)
			}
		}
	}
	return out
}
