package main

// Localised calls: a callee is interpreted in the part of the state it can
// reach, and its outcomes are then combined with the rest. Symbols are
// immutable, so the constraints of the caller and of the outcome both hold.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) callLocal(st *State, fn *ssa.Function, args, bind []Value, ctx string) ([]exit, bool) {
	if in.initing || len(st.c.ineq) < 14 || in.opts.NoLocal {
		return nil, false
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			break
		}
	}
	if len(fn.Blocks) < 3 {
		return nil, false
	}
	// name the arguments
	alias := func(e Expr, what string) Expr {
		n := st.c.norm(e)
		if n.isConst() || len(n.T) == 1 && n.T[0].K == 1 && n.C == 0 {
			return n
		}
		s := in.syms.fresh(what)
		in.syms.info[s].lo, in.syms.info[s].hi = in.interval(st, n)
		st.cw().addEQ(sub(sx(s), n))
		return sx(s)
	}
	named := func(vs []Value) []Value {
		out := make([]Value, len(vs))
		for i, v := range vs {
			switch x := v.(type) {
			case Slice:
				x.Off, x.Len, x.Cap = alias(x.Off, "o"), alias(x.Len, "l"), alias(x.Cap, "c")
				v = x
			case Str:
				x.Off, x.Len = alias(x.Off, "o"), alias(x.Len, "l")
				v = x
			}
			out[i] = v
		}
		return out
	}
	args = named(args)
	r := &reach{st: st, objs: map[Oid]bool{}, regs: map[Rid]bool{}, syms: map[Sym]bool{}, local: true}
	for _, v := range args {
		r.val(v)
	}
	for _, v := range bind {
		r.val(v)
	}
	for _, k := range sortedKeys(st.gval) {
		if k[0] != '$' {
			r.val(st.gval[k])
		}
	}
	for o, ob := range st.obj {
		if strings.HasPrefix(ob.Own, "global") {
			r.object(o)
		}
	}
	r.drain()
	loc := newState()
	for o := range r.objs {
		if ob := st.obj[o]; ob != nil {
			loc.obj[o] = ob
		}
	}
	for g := range r.regs {
		rg := st.reg[g]
		if rg == nil {
			continue
		}
		if !rg.Byte || len(rg.Facts)+len(rg.Cnt)+len(rg.Cache) == 0 {
			loc.reg[g] = rg
			continue
		}
		n := rg.clone()
		n.Cache = nil
		n.Facts = nil
		spans := r.spans[g]
		apart := func(lo, hi Expr) bool {
			for _, sp := range spans {
				if !st.c.entailsGE(sub(sp[0], hi)) && !st.c.entailsGE(sub(lo, sp[1])) {
					return false
				}
			}
			return true
		}
		inside := func(es ...Expr) bool {
			for _, e := range es {
				for _, t := range e.T {
					if !r.syms[t.S] {
						return false
					}
				}
			}
			return true
		}
		for _, sp := range spans {
			s, ok := in.query2(st, g, sp[0], sp[1])
			if ok && s != n.Base {
				n.Facts = append(n.Facts, Fact{sp[0], sp[1], s})
			}
		}
		for _, f := range rg.Facts {
			if inside(f.Lo, f.Hi) {
				n.Facts = append(n.Facts, f)
				continue
			}
			if apart(f.Lo, f.Hi) {
				continue
			}
			cover := false
			for _, sp := range spans {
				if st.c.entailsGE(sub(sp[0], f.Lo)) && st.c.entailsGE(sub(f.Hi, sp[1])) {
					cover = true
					break
				}
			}
			if cover && len(spans) == 1 {
				continue // part of the summary of the span
			}
			r.expr(f.Lo)
			r.expr(f.Hi)
			n.Facts = append(n.Facts, f)
		}
		n.Cnt = nil
		for _, f := range rg.Cnt {
			if !inside(f.Lo, f.Hi, f.N) {
				if apart(f.Lo, f.Hi) {
					continue
				}
				r.expr(f.Lo)
				r.expr(f.Hi)
				r.expr(f.N)
			}
			n.Cnt = append(n.Cnt, f)
		}
		loc.reg[g] = n
	}
	all := map[Sym]bool{}
	st.c.symsOf(all)
	nk := 0
	for s := range all {
		if r.syms[s] {
			nk++
		}
	}
	if nk*10 > len(all)*8 {
		return nil, false
	}
	loc.c = st.c.clone()
	loc.c.project(func(s Sym) bool { return r.syms[s] })
	if loc.c.bot {
		return nil, true
	}
	loc.cOwn = true
	// elimination may have been too coarse for the shape of the arguments
	sure := func(e Expr) {
		if !loc.c.entailsGE(e) && st.c.entailsGE(e) {
			loc.c.addGE(e)
		}
	}
	for _, v := range args {
		switch x := v.(type) {
		case Slice:
			sure(x.Len)
			sure(addc(x.Len, -1))
			sure(x.Off)
			sure(sub(x.Cap, x.Len))
			if g := loc.reg[x.R]; g != nil {
				sure(sub(g.N, add(x.Off, x.Cap)))
				sure(sub(g.N, add(x.Off, x.Len)))
			}
		case Str:
			sure(x.Len)
			sure(addc(x.Len, -1))
			sure(x.Off)
			if g := loc.reg[x.R]; g != nil {
				sure(sub(g.N, add(x.Off, x.Len)))
			}
		}
	}
	for s := range r.syms {
		if b, ok := st.bset[s]; ok {
			loc.bset[s] = b
		}
	}
	for k, v := range st.pred {
		loc.pred[k] = v
	}
	for k, v := range st.ghost {
		loc.ghost[k] = v
	}
	for k, v := range st.gval {
		if k[0] != '$' {
			loc.gval[k] = v
		}
	}
	loc.trace = st.trace[:len(st.trace):len(st.trace)]
	// everything that came in stays alive
	var roots Tuple
	for _, o := range sortedOids(loc.obj) {
		roots = append(roots, Ptr{O: o, NN: cst(1)})
	}
	for _, g := range sortedRids(loc.reg) {
		roots = append(roots, Arr{g})
	}
	for _, s := range sortedSymSet(r.syms) {
		roots = append(roots, Int{sx(s)})
	}
	key := fmt.Sprintf("$loc%d", in.depth)
	loc.gval[key] = roots
	before := map[Oid]bool{}
	for o := range loc.obj {
		before[o] = true
	}
	regBefore := map[Rid]*Region{}
	for g, x := range loc.reg {
		regBefore[g] = x
	}
	known := map[string]bool{}
	for _, e := range loc.c.ineq {
		known[e.key()] = true
	}
	gaps := len(in.gaps)
	_ = gaps
	in.stats.Local++
	ex := in.callBody(loc, fn, args, bind, ctx)
	// would an outcome's new memory collide with memory it did not see?
	for _, e := range ex {
		for o := range e.st.obj {
			if !before[o] && st.obj[o] != nil && e.st.obj[in.oid(in.onames[o]+"'")] != nil {
				return nil, false
			}
		}
		for o := range e.st.obj {
			if !before[o] && st.obj[o] != nil && strings.HasSuffix(in.onames[o], "'") {
				return nil, false
			}
		}
		for g, x := range e.st.reg {
			if regBefore[g] != nil || st.reg[g] == nil || x.Const {
				continue
			}
			if strings.HasSuffix(in.rnames[g], "'") || e.st.reg[in.rid(in.rnames[g]+"'")] != nil {
				return nil, false
			}
		}
	}
	var out []exit
	for _, e := range ex {
		m := st.clone()
		for _, o := range sortedOids(e.st.obj) {
			if !before[o] && m.obj[o] != nil {
				in.retireObject(m, o)
			}
		}
		for _, g := range sortedRids(e.st.reg) {
			if regBefore[g] == nil && m.reg[g] != nil && !e.st.reg[g].Const {
				in.retireRegion(m, g)
			}
		}
		for o, ob := range e.st.obj {
			m.obj[o] = ob
		}
		for g, x := range e.st.reg {
			b := regBefore[g]
			old := m.reg[g]
			if b == nil || old == nil || b == x || x.Ver != b.Ver || !x.Byte {
				if b != nil && b == x {
					continue
				}
				m.reg[g] = x
				continue
			}
			// unchanged content: what was known and what was learned both hold
			n := old.clone()
			n.Base = old.Base.and(x.Base)
			seen := map[string]bool{}
			for _, f := range n.Facts {
				seen[f.Lo.key()+"|"+f.Hi.key()] = true
			}
			had := map[string]bool{}
			for _, f := range b.Facts {
				had[f.Lo.key()+"|"+f.Hi.key()] = true
			}
			for _, f := range x.Facts {
				k := f.Lo.key() + "|" + f.Hi.key()
				if seen[k] {
					for i := range n.Facts {
						if eqExpr(n.Facts[i].Lo, f.Lo) && eqExpr(n.Facts[i].Hi, f.Hi) {
							n.Facts[i].S = n.Facts[i].S.and(f.S)
						}
					}
					continue
				}
				if had[k] && containsFact(b.Facts, f) {
					continue
				}
				n.Facts = append(n.Facts, f)
			}
			for _, c := range x.Cnt {
				dup := false
				for _, d := range n.Cnt {
					if d.B == c.B && eqExpr(d.Lo, c.Lo) && eqExpr(d.Hi, c.Hi) && eqExpr(d.N, c.N) {
						dup = true
					}
				}
				if !dup {
					n.Cnt = append(n.Cnt, c)
				}
			}
			n.Lab |= x.Lab
			for k, v := range x.Cache {
				if n.Cache == nil {
					n.Cache = map[string]Value{}
				}
				if _, ok := n.Cache[k]; !ok {
					n.Cache[k] = v
				}
			}
			m.reg[g] = n
		}
		c := m.cw()
		for _, s := range sortedSyms(e.st.c.eq) {
			d := sub(sx(s), e.st.c.eq[s])
			if !c.bot {
				c.addEQ(d)
			}
		}
		for _, q := range e.st.c.ineq {
			if !known[q.key()] {
				c.addGE(q)
			}
		}
		for _, q := range e.st.c.neq {
			c.addNE(q)
		}
		if c.bot {
			continue
		}
		for s, b := range e.st.bset {
			if o, ok := m.bset[s]; ok {
				b = b.and(o)
			}
			m.bset[s] = b
		}
		for k, v := range e.st.pred {
			m.pred[k] = v
		}
		m.ghost = map[string]string{}
		for k, v := range e.st.ghost {
			m.ghost[k] = v
		}
		for k := range m.gval {
			if k[0] != '$' {
				delete(m.gval, k)
			}
		}
		for k, v := range e.st.gval {
			if k[0] != '$' {
				m.gval[k] = v
			}
		}
		m.trace = e.st.trace
		if m.c.infeasible() {
			continue
		}
		out = append(out, exit{m, e.ret})
	}
	return out, true
}

func containsFact(fs []Fact, f Fact) bool {
	for _, g := range fs {
		if eqExpr(g.Lo, f.Lo) && eqExpr(g.Hi, f.Hi) && g.S.subset(f.S) {
			return true
		}
	}
	return false
}

func sortedOids(m map[Oid]*Obj) []Oid {
	out := make([]Oid, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sortSlice(out)
	return out
}

func sortedRids(m map[Rid]*Region) []Rid {
	out := make([]Rid, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sortSlice(out)
	return out
}

func sortSlice[T ~int32](s []T) {
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
}
