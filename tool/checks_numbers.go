package main

// P25: numbers from the wire fit where they are put.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rng is a closed range of integers.
type rng struct{ lo, hi *big.Int }

func (r rng) within(o rng) bool { return r.lo.Cmp(o.lo) >= 0 && r.hi.Cmp(o.hi) <= 0 }

func (r rng) union(o rng) rng {
	if o.lo.Cmp(r.lo) < 0 {
		r.lo = o.lo
	}
	if o.hi.Cmp(r.hi) > 0 {
		r.hi = o.hi
	}
	return r
}

func (r rng) String() string { return r.lo.String() + ".." + r.hi.String() }

func bigN(n int64) *big.Int { return big.NewInt(n) }

// typeRange is the range of an integer type; int and uint have 64 bits.
func typeRange(t types.Type) (rng, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return rng{}, false
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32, types.UntypedRune:
		bits = 32
	}
	one := bigN(1)
	if b.Info()&types.IsUnsigned != 0 {
		return rng{bigN(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)}, true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return rng{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}, true
}

// ranges computes what values a function's integers can have, from constants,
// types, and the comparisons that dominate their use.
type ranges struct {
	p     *Program
	env   map[ssa.Value]rng
	depth int
	calls int
}

// conds calls f for each comparison that is known to hold or not at a block.
func conds(b *ssa.BasicBlock, f func(c *ssa.BinOp, holds bool)) {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		// a block entered only by one edge of the branch
		if len(d.Preds) != 1 {
			continue
		}
		p = d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		if c, ok := i.Cond.(*ssa.BinOp); ok {
			f(c, p.Succs[0] == d)
		}
	}
}

// edgeConds are the conditions on the edge from one block to another.
func edgeConds(from, to *ssa.BasicBlock, f func(c *ssa.BinOp, holds bool)) {
	conds(from, f)
	if len(from.Instrs) == 0 {
		return
	}
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		if c, ok := i.Cond.(*ssa.BinOp); ok {
			f(c, from.Succs[0] == to)
		}
	}
}

// flip turns a comparison around, and negates it when it does not hold.
func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// sameLen: two calls of len for the same slice.
func sameNumber(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		p, ok1 := x.Call.Value.(*ssa.Builtin)
		q, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && p.Name() == "len" && q.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
	}
	return false
}

func constInt(v ssa.Value) (*big.Int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return nil, false
	}
	k := constant.ToInt(c.Value)
	if k.Kind() != constant.Int {
		return nil, false
	}
	b, ok := new(big.Int).SetString(k.ExactString(), 10)
	return b, ok
}

// refine narrows a range by a comparison.
func (rs *ranges) refine(v ssa.Value, r rng, c *ssa.BinOp, holds bool, b *ssa.BasicBlock) rng {
	op, x, y := c.Op, c.X, c.Y
	if sameNumber(y, v) {
		op, x, y = flip(op), y, x
	}
	if !sameNumber(x, v) {
		return r
	}
	if !holds {
		op = negate(op)
	}
	k, ok := constInt(y)
	var lo, hi *big.Int
	if ok {
		lo, hi = k, k
	} else {
		o, ok := rs.of(y, nil)
		if !ok {
			return r
		}
		lo, hi = o.lo, o.hi
	}
	one := bigN(1)
	up := func(h *big.Int) {
		if h.Cmp(r.hi) < 0 {
			r.hi = h
		}
	}
	down := func(l *big.Int) {
		if l.Cmp(r.lo) > 0 {
			r.lo = l
		}
	}
	switch op {
	case token.LSS:
		up(new(big.Int).Sub(hi, one))
	case token.LEQ:
		up(hi)
	case token.GTR:
		down(new(big.Int).Add(lo, one))
	case token.GEQ:
		down(lo)
	case token.EQL:
		up(hi)
		down(lo)
	}
	return r
}

// at is the range of a value where a block is executed.
func (rs *ranges) at(v ssa.Value, b *ssa.BasicBlock) (rng, bool) {
	r, ok := rs.of(v, b)
	if !ok || b == nil {
		return r, ok
	}
	conds(b, func(c *ssa.BinOp, holds bool) { r = rs.refine(v, r, c, holds, b) })
	return r, true
}

// of is the range of a value.
func (rs *ranges) of(v ssa.Value, b *ssa.BasicBlock) (rng, bool) {
	if r, ok := rs.env[v]; ok {
		return r, true
	}
	full, ok := typeRange(v.Type())
	if !ok {
		return rng{}, false
	}
	if k, ok := constInt(v); ok {
		return rng{k, k}, true
	}
	if rs.depth > 12 {
		return full, true
	}
	rs.depth++
	defer func() { rs.depth-- }()
	clip := func(r rng) (rng, bool) {
		if r.within(full) {
			return r, true
		}
		return full, true
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if r, ok := rs.at(x.X, x.Block()); ok {
			return clip(r)
		}
	case *ssa.ChangeType:
		if r, ok := rs.at(x.X, x.Block()); ok {
			return clip(r)
		}
	case *ssa.Phi:
		if !rs.loop(x) {
			var out rng
			for i, e := range x.Edges {
				r, ok := rs.of(e, nil)
				if !ok {
					return full, true
				}
				edgeConds(x.Block().Preds[i], x.Block(), func(c *ssa.BinOp, holds bool) { r = rs.refine(e, r, c, holds, nil) })
				if i == 0 {
					out = r
				} else {
					out = out.union(r)
				}
			}
			return clip(out)
		}
		return rs.accumulate(x, full)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return rng{bigN(0), rs.lenMax(x.Call.Args[0], x.Block(), 0)}, true
		}
		if r, ok := rs.result(x, 0); ok {
			return clip(r)
		}
	case *ssa.Parameter:
		if r, ok := rs.passed(x); ok {
			return clip(r)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if r, ok := rs.result(c, x.Index); ok {
				return clip(r)
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && c.Call.StaticCallee() != nil {
			n := c.Call.StaticCallee().String()
			if n == "strconv.ParseInt" || n == "strconv.ParseUint" {
				if k, ok := constInt(c.Call.Args[2]); ok && k.Sign() > 0 && k.Int64() < 64 {
					one := bigN(1)
					if n == "strconv.ParseUint" {
						return rng{bigN(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(k.Int64())), one)}, true
					}
					h := new(big.Int).Lsh(one, uint(k.Int64()-1))
					return rng{new(big.Int).Neg(h), new(big.Int).Sub(h, one)}, true
				}
			}
		}
	case *ssa.BinOp:
		r, ok := rs.arith(x)
		if ok {
			return clip(r)
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			if r, ok := rs.at(x.X, x.Block()); ok {
				return clip(rng{new(big.Int).Neg(r.hi), new(big.Int).Neg(r.lo)})
			}
		}
	}
	return full, true
}

// result is the range of what a function of the module returns for the
// arguments of a call.
func (rs *ranges) result(c *ssa.Call, k int) (rng, bool) {
	f := c.Call.StaticCallee()
	if f == nil || rs.p == nil || !rs.p.inModule(f) || len(f.Blocks) == 0 || len(f.Params) != len(c.Call.Args) || rs.calls > 2 {
		return rng{}, false
	}
	in := &ranges{p: rs.p, env: map[ssa.Value]rng{}, depth: rs.depth, calls: rs.calls + 1}
	for i, a := range c.Call.Args {
		if r, ok := rs.at(a, c.Block()); ok {
			in.env[f.Params[i]] = r
		}
	}
	var out rng
	found := false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if k >= len(ret.Results) {
			return rng{}, false
		}
		// results that go with an error are not used
		if n := len(ret.Results); n > 1 && k != n-1 && ret.Results[n-1].Type().String() == "error" {
			if _, made := ret.Results[n-1].(*ssa.MakeInterface); made {
				continue
			}
		}
		r, ok := in.at(ret.Results[k], b)
		if !ok {
			return rng{}, false
		}
		if !found {
			out, found = r, true
		} else {
			out = out.union(r)
		}
	}
	return out, found
}

// passed is the range of what the callers of an unexported function pass.
func (rs *ranges) passed(x *ssa.Parameter) (rng, bool) {
	f := x.Parent()
	if rs.p == nil || rs.calls > 2 || f.Object() == nil || f.Object().Exported() || rs.p.exported(f) {
		return rng{}, false
	}
	k := -1
	for i, q := range f.Params {
		if q == x {
			k = i
		}
	}
	var out rng
	found := false
	for _, g := range rs.p.fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					call, ok := i.(*ssa.Call)
					if !ok || call.Call.Value != ssa.Value(f) || k < 0 || k >= len(call.Call.Args) {
						return rng{}, false // used as a value
					}
				}
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f {
					continue
				}
				up := &ranges{p: rs.p, env: map[ssa.Value]rng{}, depth: rs.depth, calls: rs.calls + 1}
				r, ok := up.at(call.Call.Args[k], b)
				if !ok {
					return rng{}, false
				}
				if !found {
					out, found = r, true
				} else {
					out = out.union(r)
				}
			}
		}
	}
	return out, found
}

// arith is the exact range of a result, not clipped to its type.
func (rs *ranges) arith(x *ssa.BinOp) (rng, bool) {
	a, ok1 := rs.at(x.X, x.Block())
	b, ok2 := rs.at(x.Y, x.Block())
	if !ok1 || !ok2 {
		return rng{}, false
	}
	z := func() *big.Int { return new(big.Int) }
	switch x.Op {
	case token.ADD:
		return rng{z().Add(a.lo, b.lo), z().Add(a.hi, b.hi)}, true
	case token.SUB:
		return rng{z().Sub(a.lo, b.hi), z().Sub(a.hi, b.lo)}, true
	case token.MUL:
		ps := []*big.Int{z().Mul(a.lo, b.lo), z().Mul(a.lo, b.hi), z().Mul(a.hi, b.lo), z().Mul(a.hi, b.hi)}
		r := rng{ps[0], ps[0]}
		for _, p := range ps {
			r = r.union(rng{p, p})
		}
		return r, true
	case token.QUO:
		if b.lo.Sign() > 0 {
			ps := []*big.Int{z().Quo(a.lo, b.lo), z().Quo(a.lo, b.hi), z().Quo(a.hi, b.lo), z().Quo(a.hi, b.hi)}
			r := rng{ps[0], ps[0]}
			for _, p := range ps {
				r = r.union(rng{p, p})
			}
			return r, true
		}
	case token.REM:
		if b.lo.Sign() > 0 {
			m := z().Sub(b.hi, bigN(1))
			lo := bigN(0)
			if a.lo.Sign() < 0 {
				lo = z().Neg(m)
			}
			return rng{lo, m}, true
		}
	case token.AND:
		if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			h := a.hi
			if b.hi.Cmp(h) < 0 {
				h = b.hi
			}
			return rng{bigN(0), h}, true
		}
		if b.lo.Sign() >= 0 {
			return rng{bigN(0), b.hi}, true
		}
	case token.SHL:
		if b.hi.IsInt64() && b.hi.Int64() < 64 && b.lo.Sign() >= 0 && a.lo.Sign() >= 0 {
			return rng{z().Lsh(a.lo, uint(b.lo.Int64())), z().Lsh(a.hi, uint(b.hi.Int64()))}, true
		}
	case token.SHR:
		if b.lo.Sign() >= 0 && b.lo.IsInt64() && b.lo.Int64() < 64 && a.lo.Sign() >= 0 {
			return rng{bigN(0), z().Rsh(a.hi, uint(b.lo.Int64()))}, true
		}
	}
	return rng{}, false
}

// lenMax bounds the length of a slice or string.
func (rs *ranges) lenMax(v ssa.Value, b *ssa.BasicBlock, depth int) *big.Int {
	best := bigN(lenMax)
	if depth > 6 {
		return best
	}
	less := func(k *big.Int) {
		if k.Cmp(best) < 0 {
			best = k
		}
	}
	visit := func(c *ssa.BinOp, holds bool) {
		for _, s := range []ssa.Value{c.X, c.Y} {
			call, ok := s.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && call.Call.Args[0] == v {
				rs2 := &ranges{p: rs.p, env: map[ssa.Value]rng{s: {bigN(0), best}}, depth: rs.depth}
				r := rs2.refine(s, rng{bigN(0), best}, c, holds, nil)
				less(r.hi)
			}
		}
	}
	if b != nil {
		conds(b, visit)
	}
	switch x := v.(type) {
	case *ssa.Slice:
		less(rs.lenMax(x.X, x.Block(), depth+1))
		if x.High != nil {
			if r, ok := rs.at(x.High, x.Block()); ok {
				less(r.hi)
			}
		}
	case *ssa.Phi:
		h := bigN(0)
		for i, e := range x.Edges {
			rs.depth++
			k := rs.lenMax(e, x.Block().Preds[i], depth+1)
			rs.depth--
			if k.Cmp(h) > 0 {
				h = k
			}
		}
		less(h)
	case *ssa.Convert:
		less(rs.lenMax(x.X, x.Block(), depth+1))
	case *ssa.ChangeType:
		less(rs.lenMax(x.X, x.Block(), depth+1))
	case *ssa.Parameter:
		less(rs.lenPassed(x, depth+1))
	}
	return best
}

// lenPassed bounds the length of what the callers of an unexported function pass.
func (rs *ranges) lenPassed(x *ssa.Parameter, depth int) *big.Int {
	f := x.Parent()
	if rs.p == nil || f.Object() == nil || f.Object().Exported() || rs.p.exported(f) {
		return bigN(lenMax)
	}
	most, found := bigN(0), false
	for _, g := range rs.p.fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				call, isCall := i.(*ssa.Call)
				for _, op := range i.Operands(nil) {
					if *op == ssa.Value(f) && (!isCall || call.Call.Value != ssa.Value(f)) {
						return bigN(lenMax)
					}
				}
				if !isCall || call.Call.StaticCallee() != f {
					continue
				}
				for k, q := range f.Params {
					if q == x && k < len(call.Call.Args) {
						found = true
						if n := rs.lenMax(call.Call.Args[k], b, depth+1); n.Cmp(most) > 0 {
							most = n
						}
					}
				}
			}
		}
	}
	if !found {
		return bigN(lenMax)
	}
	return most
}

// loop: the phi is carried around a loop.
func (rs *ranges) loop(x *ssa.Phi) bool {
	for _, p := range x.Block().Preds {
		if x.Block().Dominates(p) {
			return true
		}
	}
	return false
}

// trips bounds how often the body of a loop is run: a counter that goes up by
// one is compared with a bounded value on every way into the body.
func (rs *ranges) trips(h *ssa.BasicBlock) (int64, bool) {
	best := int64(-1)
	for _, i := range h.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isI := typeRange(p.Type()); !isI {
			if n, ok := rs.shrinks(h, p); ok && (best < 0 || n < best) {
				best = n
			}
			continue
		}
		if n, ok := rs.falls(h, p); ok && (best < 0 || n < best) {
			best = n
		}
		start, step := (*big.Int)(nil), ssa.Value(nil)
		good := true
		for k, e := range p.Edges {
			if h.Dominates(h.Preds[k]) {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD || b.X != p {
					good = false
					break
				}
				if c, ok := constInt(b.Y); !ok || c.Cmp(bigN(1)) != 0 {
					good = false
					break
				}
				step = b
			} else if c, ok := constInt(e); ok && start == nil {
				start = c
			} else {
				good = false
			}
		}
		if !good || start == nil || step == nil {
			continue
		}
		// the body runs when the counter, or its successor, is below a bound
		var f func(b *ssa.BasicBlock)
		f = func(b *ssa.BasicBlock) {
			if len(b.Instrs) == 0 {
				return
			}
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return
			}
			c, ok := br.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS || c.X != step && c.X != ssa.Value(p) {
				return
			}
			r, ok := rs.of(c.Y, b)
			if !ok {
				return
			}
			n := new(big.Int).Sub(r.hi, start)
			if c.X == step {
				n.Sub(n, bigN(1))
			}
			if n.IsInt64() && (best < 0 || n.Int64() < best) {
				best = n.Int64()
			}
		}
		f(h)
	}
	for _, i := range h.Instrs {
		if nx, ok := i.(*ssa.Next); ok && nx.IsString {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				n := rs.lenMax(rg.X, rg.Block(), 0)
				if n.IsInt64() && (best < 0 || n.Int64() < best) {
					best = n.Int64()
				}
			}
		}
	}
	return best, best >= 0
}

// entersBody: the loop goes on only if the comparison holds, as seen from p.
func entersBody(h *ssa.BasicBlock, want func(op token.Token, x, y ssa.Value) bool) bool {
	if len(h.Instrs) == 0 {
		return false
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	back := func(b *ssa.BasicBlock) bool {
		// the successor leads around the loop
		for _, p := range h.Preds {
			if h.Dominates(p) && b.Dominates(p) {
				return true
			}
		}
		return false
	}
	op := c.Op
	switch {
	case back(h.Succs[0]):
	case back(h.Succs[1]):
		op = negate(op)
	default:
		return false
	}
	return want(op, c.X, c.Y) || want(flip(op), c.Y, c.X)
}

// shrinks: a slice or string that loses at least one element in each round.
func (rs *ranges) shrinks(h *ssa.BasicBlock, p *ssa.Phi) (int64, bool) {
	most := bigN(0)
	for k, e := range p.Edges {
		if h.Dominates(h.Preds[k]) {
			sl, ok := e.(*ssa.Slice)
			if !ok || sl.X != ssa.Value(p) {
				return 0, false
			}
			lo, ok1 := constInt(orZero(sl.Low))
			if sl.Low == nil || !ok1 || lo.Sign() <= 0 || sl.High != nil {
				return 0, false
			}
		} else if n := rs.lenMax(e, h.Preds[k], 0); n.Cmp(most) > 0 {
			most = n
		}
	}
	if !most.IsInt64() {
		return 0, false
	}
	ok := entersBody(h, func(op token.Token, x, y ssa.Value) bool {
		call, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || call.Call.Args[0] != ssa.Value(p) {
			return false
		}
		c, ok := constInt(y)
		return ok && c.Sign() >= 0 && (op == token.GTR || op == token.NEQ && c.Sign() == 0 || op == token.GEQ && c.Sign() > 0)
	})
	return most.Int64(), ok
}

func orZero(v ssa.Value) ssa.Value {
	if v == nil {
		return ssa.NewConst(constant.MakeInt64(0), types.Typ[types.Int])
	}
	return v
}

// falls: a counter that goes down by one until zero.
func (rs *ranges) falls(h *ssa.BasicBlock, p *ssa.Phi) (int64, bool) {
	most := bigN(0)
	for k, e := range p.Edges {
		if h.Dominates(h.Preds[k]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(p) {
				return 0, false
			}
			c, ok := constInt(b.Y)
			if !ok || !(b.Op == token.SUB && c.Cmp(bigN(1)) == 0 || b.Op == token.ADD && c.Cmp(bigN(-1)) == 0) {
				return 0, false
			}
		} else {
			r, ok := rs.of(e, nil)
			if !ok {
				return 0, false
			}
			if r.hi.Cmp(most) > 0 {
				most = r.hi
			}
		}
	}
	if !most.IsInt64() || most.Int64() > 1<<40 {
		return 0, false
	}
	ok := entersBody(h, func(op token.Token, x, y ssa.Value) bool {
		c, ok := constInt(y)
		return x == ssa.Value(p) && ok && c.Sign() >= 0 && (op == token.GEQ || op == token.GTR)
	})
	return most.Int64() + 1, ok
}

// accumulate follows a value around a loop that runs a bounded number of times.
func (rs *ranges) accumulate(x *ssa.Phi, full rng) (rng, bool) {
	h := x.Block()
	n, ok := rs.trips(h)
	if !ok || n > 64 {
		return full, true
	}
	var cur rng
	first := true
	for i, e := range x.Edges {
		if !h.Dominates(h.Preds[i]) {
			r, ok := rs.of(e, nil)
			if !ok {
				return full, true
			}
			if first {
				cur, first = r, false
			} else {
				cur = cur.union(r)
			}
		}
	}
	if first {
		return full, true
	}
	old, had := rs.env[x]
	defer func() {
		if had {
			rs.env[x] = old
		} else {
			delete(rs.env, x)
		}
	}()
	for k := int64(0); k < n; k++ {
		rs.env[x] = cur
		for i, e := range x.Edges {
			if h.Dominates(h.Preds[i]) {
				r, ok := rs.exact(e)
				if !ok {
					return full, true
				}
				cur = cur.union(r)
			}
		}
		if !cur.within(full) {
			return full, true
		}
	}
	return cur, true
}

// exact is the range without wrapping.
func (rs *ranges) exact(v ssa.Value) (rng, bool) {
	if b, ok := v.(*ssa.BinOp); ok {
		return rs.arith(b)
	}
	return rs.of(v, nil)
}

// fits: the result of the operation cannot be out of the range of its type.
func (rs *ranges) fits(x *ssa.BinOp) bool {
	full, ok := typeRange(x.Type())
	if !ok {
		return true
	}
	r, ok := rs.arith(x)
	return ok && r.within(full)
}

// wrapChecked: an addition of unsigned numbers whose result is used only where
// it was found not to be less than one of them.
func wrapChecked(x *ssa.BinOp) bool {
	if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsUnsigned == 0 || x.Op != token.ADD || x.Referrers() == nil {
		return false
	}
	checked := func(visit func(f func(c *ssa.BinOp, holds bool))) bool {
		found := false
		visit(func(c *ssa.BinOp, holds bool) {
			op, a, b := c.Op, c.X, c.Y
			if b == ssa.Value(x) {
				op, a, b = flip(op), b, a
			}
			if a != ssa.Value(x) || b != x.X && b != x.Y {
				return
			}
			if !holds {
				op = negate(op)
			}
			found = found || op == token.GEQ
		})
		return found
	}
	for _, u := range *x.Referrers() {
		switch y := u.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			if y.Op == token.LSS || y.Op == token.GTR || y.Op == token.LEQ || y.Op == token.GEQ || y.Op == token.EQL || y.Op == token.NEQ {
				continue
			}
		case *ssa.Phi:
			for i, e := range y.Edges {
				if e == ssa.Value(x) && !checked(func(f func(c *ssa.BinOp, holds bool)) { edgeConds(y.Block().Preds[i], y.Block(), f) }) {
					return false
				}
			}
			continue
		}
		if !checked(func(f func(c *ssa.BinOp, holds bool)) { conds(u.Block(), f) }) {
			return false
		}
	}
	return true
}

// accumulator: a product, or a sum with a product by a constant, as in
// reading digits.
func accumulator(x *ssa.BinOp) bool {
	isMul := func(v ssa.Value) bool {
		for {
			if c, ok := v.(*ssa.Convert); ok {
				v = c.X
				continue
			}
			break
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.MUL && b.Op != token.SHL {
			return false
		}
		_, c1 := constInt(b.X)
		_, c2 := constInt(b.Y)
		if c1 == c2 {
			return false
		}
		o := b.X
		if c1 {
			o = b.Y
		}
		for {
			if c, ok := o.(*ssa.Convert); ok {
				o = c.X
				continue
			}
			break
		}
		switch o.(type) {
		case *ssa.Phi, *ssa.Parameter:
			return true // carried around a loop
		}
		return false
	}
	switch x.Op {
	case token.MUL, token.SHL:
		return isMul(x)
	case token.ADD, token.OR:
		return isMul(x.X) || isMul(x.Y)
	}
	return false
}

func init() {
	checks["P25"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Value range analysis over the functions that decoders can call (constants, types, dominating comparisons, loops that run a bounded number of times): every conversion to a narrower integer type, every conversion of a float to an integer and every product or sum that accumulates digits must fit its type, or be rejected by a dominating check; integers set by reflection must have been parsed with the size of the field or checked against it.")
		seen := map[*ssa.Function]bool{}
		for _, f := range p.fns {
			if p.exported(f) && decodes(f) {
				seen[f] = true
				for g := range p.reach(f) {
					seen[g] = true
				}
			}
		}
		n := 0
		for _, f := range p.fns {
			if !seen[f] || !p.inModule(f) {
				continue
			}
			n++
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					p.number(r, f, i)
				}
			}
		}
		r.set("functions", n)
		r.must(n >= 60, "functions", "dc", "", fmt.Sprintf("only %d functions that decoders call were found: the analysis lost its anchors", n))
	}}
}

func (p *Program) number(r *report, f *ssa.Function, i ssa.Instruction) {
	rs := &ranges{p: p, env: map[ssa.Value]rng{}}
	where := p.short(f.String())
	switch x := i.(type) {
	case *ssa.Convert:
		to, ok := typeRange(x.Type())
		if !ok {
			return
		}
		if isFloat(x.X.Type()) {
			lo, hi, num := floatBounds(x.X, x.Block())
			fine := num && lo != nil && hi != nil && lo.Cmp(to.lo) >= 0 && hi.Cmp(to.hi) <= 0
			r.must(fine, "conversion", where, p.pos(instrPos(i)), "a number that may not fit, or may not be one, is converted to "+x.Type().String())
			return
		}
		from, ok := typeRange(x.X.Type())
		if !ok || from.within(to) {
			return
		}
		v, _ := rs.at(x.X, x.Block())
		r.must(v.within(to), "conversion", where, p.pos(instrPos(i)), fmt.Sprintf("a number in %v is converted to %v", v, x.Type()))
	case *ssa.BinOp:
		if !accumulator(x) {
			return
		}
		r.must(rs.fits(x) || wrapChecked(x), "arithmetic", where, p.pos(instrPos(i)), fmt.Sprintf("the result of %s may not fit %v", x.Op, x.Type()))
	case *ssa.Call:
		c := x.Call.StaticCallee()
		if c == nil {
			return
		}
		n := c.String()
		if !strings.HasPrefix(n, "(reflect.Value).Set") || len(x.Call.Args) != 2 {
			return
		}
		kind := strings.TrimPrefix(n, "(reflect.Value).Set")
		if kind != "Int" && kind != "Uint" && kind != "Float" {
			return
		}
		r.must(reflectFits(x.Call.Args[1], kind, func(g func(v ssa.Value, holds bool)) { boolConds(x.Block(), g) }, 0), "reflection", where, p.pos(instrPos(i)), "a number is stored in a field of another size without a check")
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// floatBounds: what integer a float may become; num if it is certainly a number.
func floatBounds(v ssa.Value, b *ssa.BasicBlock) (lo, hi *big.Int, num bool) {
	conds(b, func(c *ssa.BinOp, holds bool) {
		op, x, y := c.Op, c.X, c.Y
		if y == v {
			op, x, y = flip(op), y, x
		}
		if x != v {
			return
		}
		if holds && op != token.NEQ || !holds && op == token.NEQ {
			num = true // nothing is true of NaN
		}
		if !holds {
			op = negate(op)
		}
		k, ok := y.(*ssa.Const)
		if !ok || k.Value == nil {
			return
		}
		n := constant.ToInt(k.Value)
		if n.Kind() != constant.Int {
			return
		}
		z, ok := new(big.Int).SetString(n.ExactString(), 10)
		if !ok {
			return
		}
		switch op {
		case token.LSS:
			hi = new(big.Int).Sub(z, bigN(1))
		case token.LEQ:
			hi = z
		case token.GEQ, token.GTR:
			lo = z
		}
	})
	return
}

// boolConds calls f for each condition known at a block.
func boolConds(b *ssa.BasicBlock, f func(v ssa.Value, holds bool)) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			f(i.Cond, p.Succs[0] == d)
		}
	}
}

// reflectFits: the number was parsed with the size of the field, or compared
// with what the field can hold.
func reflectFits(v ssa.Value, kind string, at func(func(v ssa.Value, holds bool)), depth int) bool {
	if depth > 5 {
		return false
	}
	found := false
	at(func(c ssa.Value, holds bool) {
		if call, ok := c.(*ssa.Call); ok && !holds && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "(reflect.Value).Overflow"+kind && call.Call.Args[1] == v {
			found = true
		}
	})
	if found {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			pb := x.Block().Preds[i]
			ok := reflectFits(e, kind, func(g func(v ssa.Value, holds bool)) {
				boolConds(pb, g)
				if br, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && pb.Succs[0] != pb.Succs[1] {
					g(br.Cond, pb.Succs[0] == x.Block())
				}
			}, depth+1)
			if !ok {
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strconv.Parse"+kind {
			return false
		}
		bits, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Call)
		return ok && bits.Call.IsInvoke() && bits.Call.Method.Name() == "Bits"
	}
	return false
}
