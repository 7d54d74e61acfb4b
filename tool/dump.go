package main

import (
	"fmt"
	"strings"
)

// show renders a value for debugging.
func (in *Interp) show(st *State, v Value) string {
	e := func(x Expr) string { return in.syms.str(st.c.norm(x)) }
	switch x := v.(type) {
	case Int:
		return e(x.E)
	case Str:
		return fmt.Sprintf("str(%s,%s,%s)", in.rnames[x.R], e(x.Off), e(x.Len))
	case Slice:
		return fmt.Sprintf("slice(%s,%s,%s,cap %s,nn %s)", in.rnames[x.R], e(x.Off), e(x.Len), e(x.Cap), e(x.NN))
	case Ptr:
		return fmt.Sprintf("ptr(%s%s[%s]%v nn %s)", in.onames[x.O], in.rnames[x.R], e(x.Idx), x.Path, e(x.NN))
	case Iface:
		return fmt.Sprintf("iface(%v,%s,%s,nn %s)", x.T, in.show(st, x.V), x.ID, e(x.NN))
	case Tuple:
		var s []string
		for _, f := range x {
			s = append(s, in.show(st, f))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case Struct:
		var s []string
		for _, f := range x.F {
			s = append(s, in.show(st, f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case Native:
		var s []string
		for _, k := range sortedKeys(x.F) {
			s = append(s, k+":"+in.show(st, x.F[k]))
		}
		return x.Kind + "{" + strings.Join(s, ", ") + "}"
	case Bool:
		return "bool " + in.showCond(st, x.C)
	case Arr:
		return "arr " + in.rnames[x.R]
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) showCond(st *State, c *Cond) string {
	switch c.op {
	case cTrue:
		return "T"
	case cFalse:
		return "F"
	case cGE:
		return in.syms.str(c.e) + ">=0"
	case cEQ:
		return in.syms.str(c.e) + "==0"
	case cNE:
		return in.syms.str(c.e) + "!=0"
	case cAnd:
		return "(" + in.showCond(st, c.a) + " && " + in.showCond(st, c.b) + ")"
	case cOr:
		return "or"
	case cNot:
		return "!" + in.showCond(st, c.a)
	}
	return c.id
}

// dump renders a state for debugging.
func (in *Interp) dump(st *State) string {
	var sb strings.Builder
	f := st.top()
	for _, v := range in.prog.envOrder(f) {
		fmt.Fprintf(&sb, "  %s = %s\n", v.Name(), in.show(st, f.env[v]))
	}
	for o, ob := range st.obj {
		if in.globals != nil && in.globals.obj[o] == ob {
			continue
		}
		fmt.Fprintf(&sb, "  *%s = %s\n", in.onames[o], in.show(st, ob.V))
	}
	for id, r := range st.reg {
		if !r.Byte || r.Const || in.globals != nil && in.globals.reg[id] == r {
			continue
		}
		fmt.Fprintf(&sb, "  reg %s n=%s base=%v own=%s\n", in.rnames[id], in.syms.str(st.c.norm(r.N)), r.Base, r.Own)
		for _, f := range r.Facts {
			fmt.Fprintf(&sb, "     [%s, %s) %v\n", in.syms.str(st.c.norm(f.Lo)), in.syms.str(st.c.norm(f.Hi)), f.S)
		}
	}
	for _, s := range sortedSyms(st.c.eq) {
		fmt.Fprintf(&sb, "  %s#%d == %s\n", in.syms.info[s].name, s, in.syms.str(st.c.eq[s]))
	}
	for _, e := range st.c.ineq {
		fmt.Fprintf(&sb, "  %s >= 0\n", in.syms.str(e))
	}
	for _, e := range st.c.neq {
		fmt.Fprintf(&sb, "  %s != 0\n", in.syms.str(e))
	}
	for _, k := range sortedKeys(st.ghost) {
		fmt.Fprintf(&sb, "  ghost %s=%s\n", k, st.ghost[k])
	}
	return sb.String()
}
