package main

// Memory: initial values, loading and storing.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Monitor receives the events of an analysis run.
type Monitor interface {
	// Oblige reports a safety condition met on a path.
	Oblige(in *Interp, st *State, at ssa.Instruction, rule string, ok bool, detail string)
	// Wrote reports a write to memory of the given ownership.
	Wrote(in *Interp, st *State, at ssa.Instruction, own, what string)
	// Event reports anything else a check may be interested in.
	Event(in *Interp, st *State, at ssa.Instruction, kind string, args []Value)
}

// NopMonitor ignores everything.
type NopMonitor struct{}

func (NopMonitor) Oblige(*Interp, *State, ssa.Instruction, string, bool, string) {}
func (NopMonitor) Wrote(*Interp, *State, ssa.Instruction, string, string)        {}
func (NopMonitor) Event(*Interp, *State, ssa.Instruction, string, []Value)       {}

// lazyObj describes an object created on first access.
type lazyObj struct {
	t     types.Type
	own   string
	name  string
	owner types.Type
	field *types.Var
	depth int
}

type nameCtx struct {
	own   string
	owner types.Type
	field *types.Var
	depth int
}

func isNamed(t types.Type, name string) bool { return typeName(t) == name && namedOf(t) != nil }

// nativeOf reports types whose values are modelled instead of interpreted.
func nativeOf(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "strings.Builder":
		return "buf"
	case "sync/atomic.Value":
		return "atomic"
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Pool", "sync.Map":
		return "sync"
	case "bytes.Reader", "strings.Reader":
		return "rd"
	case "time.Time":
		return "time"
	}
	return ""
}

func (in *Interp) nativeZero(st *State, kind, name string) Native {
	n := Native{kind, map[string]Value{}}
	switch kind {
	case "buf":
		id := in.newRegion(st, name+".data", &Region{Byte: true, N: cst(lenMax), Base: Sets{}, Own: "new", Mut: true, Name: name})
		n.F["s"] = Slice{R: id, Off: cst(0), Len: cst(0), Cap: cst(lenMax), NN: cst(1)}
	case "atomic":
		n.F["v"] = Iface{NN: cst(0)}
	}
	return n
}

// zero is the zero value of a type.
func (in *Interp) zero(st *State, t types.Type, name string) Value {
	if k := nativeOf(t); k != "" {
		return in.nativeZero(st, k, name)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int{cst(0)}
		case u.Info()&types.IsBoolean != 0:
			return Bool{condF}
		case u.Info()&types.IsString != 0:
			return in.constStr(st, "")
		case u.Kind() == types.UntypedNil:
			return Ptr{NN: cst(0)}
		}
		return Opaque{"0"}
	case *types.Pointer:
		return Ptr{NN: cst(0)}
	case *types.Slice:
		return Slice{Off: cst(0), Len: cst(0), Cap: cst(0), NN: cst(0)}
	case *types.Map:
		return MapV{NN: cst(0)}
	case *types.Interface:
		return Iface{NN: cst(0)}
	case *types.Signature:
		return Fn{NN: cst(0)}
	case *types.Chan:
		return Ptr{NN: cst(0)}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = in.zero(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return Struct{f}
	case *types.Array:
		return in.newArr(st, u, name, "new", true)
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = in.zero(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		return out
	}
	return Opaque{"zero"}
}

func (in *Interp) newArr(st *State, u *types.Array, name, own string, zero bool) Arr {
	g := &Region{Elem: u.Elem(), N: cst(u.Len()), Own: own, Mut: true}
	if isByteElem(u.Elem()) {
		g.Byte = true
		if zero {
			g.Base = plain(setOf(0))
		} else {
			g.Base = plain(allBytes)
		}
		return Arr{in.newRegion(st, name+".arr", g)}
	}
	id := in.rid(name + ".arr")
	if u.Len() <= 300 {
		g.Exact = make([]Value, u.Len())
		for i := range g.Exact {
			if zero {
				g.Exact[i] = in.zero(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i))
			} else {
				g.Exact[i] = in.freshVal(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), own)
			}
		}
	} else if zero {
		g.Sum = in.zero(st, u.Elem(), name+"[]")
	} else {
		g.Sum = in.freshVal(st, name+"[]", u.Elem(), own)
	}
	_ = id
	return Arr{in.newRegion(st, name+".arr", g)}
}

func (in *Interp) nullable(name string, t types.Type, depth int) bool {
	if in.opts.Nullable != nil {
		return in.opts.Nullable(name, t)
	}
	if in.opts.Nullable2 != nil {
		return in.opts.Nullable2(name, t, depth)
	}
	return depth > 0
}

func (in *Interp) nnSym(st *State, name string, t types.Type, depth int) Expr {
	if !in.nullable(name, t, depth) {
		return cst(1)
	}
	return in.namedRange(st, name+".nn", 0, 1)
}

// initial makes the unknown initial value of a location; the same name always
// yields the same value.
func (in *Interp) initial(st *State, name string, t types.Type, c nameCtx) Value {
	if k := nativeOf(t); k != "" {
		n := Native{k, map[string]Value{}}
		switch k {
		case "buf":
			id := in.rid(name + ".data")
			if st.reg[id] == nil {
				st.reg[id] = &Region{Byte: true, N: cst(lenMax), Base: Sets{lAny: allBytes}, Own: c.own, Mut: true, Name: name}
			}
			ln := in.namedRange(st, name+".len", 0, lenMax/2)
			n.F["s"] = Slice{R: id, Off: cst(0), Len: ln, Cap: cst(lenMax), NN: cst(1)}
		case "atomic":
			n.F["v"] = Iface{NN: in.namedRange(st, name+".nn", 0, 1), ID: name}
		}
		return n
	}
	sets := func() Sets {
		if in.opts.FieldSets != nil {
			if s, ok := in.opts.FieldSets(t, c.owner, c.field); ok {
				return s
			}
		}
		return plain(allBytes)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return in.namedInt(st, name, t)
		case u.Info()&types.IsBoolean != 0:
			return Bool{mkCmp(cEQ, addc(in.namedRange(st, name, 0, 1), -1))}
		case u.Info()&types.IsString != 0:
			ln := in.namedRange(st, name+".len", 0, argMax)
			id := in.rid(name)
			if st.reg[id] == nil {
				st.reg[id] = &Region{Byte: true, N: ln, Base: sets(), Own: c.own, Name: name}
			}
			return Str{id, cst(0), ln}
		}
		return Opaque{name}
	case *types.Pointer:
		id := in.oid(name + ".*")
		if _, ok := in.lazies[id]; !ok {
			in.lazies[id] = lazyObj{u.Elem(), c.own, name, c.owner, c.field, c.depth + 1}
		}
		return Ptr{O: id, NN: in.nnSym(st, name, t, c.depth)}
	case *types.Slice:
		ln := in.namedRange(st, name+".len", 0, argMax)
		cp := in.namedRange(st, name+".cap", 0, lenMax)
		nn := in.namedRange(st, name+".nn", 0, 1)
		cw := st.cw()
		cw.addGE(sub(cp, ln))
		cw.addGE(sub(scale(nn, lenMax), cp))
		id := in.rid(name + "[]")
		if st.reg[id] == nil {
			g := &Region{N: cp, Elem: u.Elem(), Own: c.own, Mut: true, Name: name, Byte: isByteElem(u.Elem())}
			if g.Byte {
				g.Base = sets()
			} else {
				g.Lazy = true
			}
			st.reg[id] = g
		}
		in.lazyCtx(id, c)
		return Slice{R: id, Off: cst(0), Len: ln, Cap: cp, NN: nn}
	case *types.Map:
		id := in.oid(name + ".map")
		if _, ok := in.lazies[id]; !ok {
			in.lazies[id] = lazyObj{t, c.own, name, c.owner, c.field, c.depth + 1}
		}
		return MapV{O: id, NN: in.namedRange(st, name+".nn", 0, 1)}
	case *types.Interface:
		nn := cst(1)
		if c.depth > 0 {
			nn = in.nnSym(st, name, t, c.depth)
		}
		return Iface{ID: name, NN: nn}
	case *types.Signature:
		return Fn{ID: name, NN: in.nnSym(st, name, t, c.depth)}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		if n := namedOf(t); n != nil && !in.prog.isModType(n) && len(f) > 8 {
			// large types of the library are made field by field, when used
			for i := range f {
				f[i] = Opaque{"lazy:" + name + "." + u.Field(i).Name()}
			}
			return Struct{f}
		}
		for i := range f {
			c2 := c
			c2.owner, c2.field = t, u.Field(i)
			c2.depth++
			f[i] = in.initial(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), c2)
		}
		return Struct{f}
	case *types.Array:
		id := in.rid(name + ".arr")
		if st.reg[id] == nil {
			g := &Region{Elem: u.Elem(), N: cst(u.Len()), Own: c.own, Mut: true, Name: name}
			if isByteElem(u.Elem()) {
				g.Byte = true
				g.Base = sets()
			} else if u.Len() <= 64 {
				g.Exact = make([]Value, u.Len())
				for i := range g.Exact {
					g.Exact[i] = in.initial(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), c)
				}
			} else {
				g.Lazy = true
			}
			st.reg[id] = g
		}
		in.lazyCtx(id, c)
		return Arr{id}
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = in.initial(st, fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), c)
		}
		return out
	}
	return Opaque{name}
}

func (in *Interp) lazyCtx(id Rid, c nameCtx) { in.lazyCtxs[id] = c }

// freshVal makes an unknown value that is new on this path.
func (in *Interp) freshVal(st *State, name string, t types.Type, own string) Value {
	return in.initial(st, fmt.Sprintf("%s~%d", name, in.nextSeq()), t, nameCtx{own: own, depth: 1})
}

// object returns the object, creating it when it is an initial one.
func (in *Interp) object(st *State, o Oid) *Obj {
	if ob := st.obj[o]; ob != nil {
		return ob
	}
	l, ok := in.lazies[o]
	if !ok {
		return nil
	}
	ob := &Obj{T: l.t, Own: l.own, Name: l.name}
	if m, isMap := types.Unalias(l.t).Underlying().(*types.Map); isMap {
		c := nameCtx{own: l.own, owner: l.owner, field: l.field, depth: l.depth}
		n := in.namedRange(st, l.name+".mlen", 0, lenMax)
		ob.V = &MapContent{KSum: in.initial(st, l.name+".key", m.Key(), c), ESum: in.initial(st, l.name+".elem", m.Elem(), c), N: n}
	} else {
		ob.V = in.initial(st, l.name, l.t, nameCtx{own: l.own, owner: l.owner, field: l.field, depth: l.depth})
		if strings.HasPrefix(l.own, "globalext:") && strings.HasPrefix(l.name, "global:") {
			// variables of the library are set once
			switch v := ob.V.(type) {
			case Iface:
				ob.V = Iface{NN: cst(1), ID: "globalv:" + strings.TrimPrefix(l.name, "global:")}
			case Ptr:
				v.NN = cst(1)
				ob.V = v
			}
		}
	}
	st.obj[o] = ob
	return ob
}

// unifyLazy creates initial objects missing in some of the states.
func (in *Interp) unifyLazy(sts []*State) {
	ids := map[Oid]bool{}
	for _, s := range sts {
		for o := range s.obj {
			if _, ok := in.lazies[o]; ok {
				ids[o] = true
			}
		}
	}
	if len(ids) == 0 {
		return
	}
	var l []Oid
	for o := range ids {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	for _, s := range sts {
		for _, o := range l {
			if s.obj[o] == nil {
				in.object(s, o)
			}
		}
	}
}

// newObj allocates an object at a site.
func (in *Interp) newObj(st *State, name string, t types.Type, own string) Oid {
	id := in.oid(name)
	if _, live := st.obj[id]; live {
		in.retireObject(st, id)
	}
	st.obj[id] = &Obj{T: t, Own: own, Name: name}
	st.obj[id].V = in.zero(st, t, name)
	return id
}

func (in *Interp) nilPtr(p Ptr) bool { return p.O == 0 && p.R == 0 }

// cell reads the raw content of a location.
func (in *Interp) cell(st *State, p Ptr, t types.Type) Value {
	var v Value
	if p.R != 0 {
		v = in.elem(st, p.R, p.Idx, nil)
	} else {
		ob := in.object(st, p.O)
		if ob == nil {
			return nil
		}
		v = ob.V
	}
	for _, f := range p.Path {
		switch x := v.(type) {
		case Struct:
			if f >= len(x.F) {
				return nil
			}
			v = x.F[f]
		default:
			return nil
		}
	}
	return v
}

// snapshot copies array contents so that the value is independent of its location.
func (in *Interp) snapshot(st *State, v Value, name string) Value {
	switch x := v.(type) {
	case Arr:
		r := st.reg[x.R]
		if r == nil {
			return v
		}
		n := r.clone()
		n.Own = "new"
		id := in.newRegion(st, name+".snap", n)
		return Arr{id}
	case Struct:
		var f []Value
		for i, e := range x.F {
			s := in.snapshot(st, e, fmt.Sprintf("%s.%d", name, i))
			if !sameArr(s, e) && f == nil {
				f = append([]Value(nil), x.F...)
			}
			if f != nil {
				f[i] = s
			}
		}
		if f != nil {
			return Struct{f}
		}
	}
	return v
}

func hasArr(v Value) bool {
	switch x := v.(type) {
	case Arr:
		return true
	case Struct:
		for _, e := range x.F {
			if hasArr(e) {
				return true
			}
		}
	}
	return false
}

func sameArr(a, b Value) bool {
	x, ok1 := a.(Arr)
	y, ok2 := b.(Arr)
	if ok1 && ok2 {
		return x.R == y.R
	}
	return !hasArr(b)
}

// load reads a value of type t through a pointer.
func (in *Interp) load(st *State, p Ptr, t types.Type, name string) Value {
	if p.R != 0 && len(p.Path) == 0 {
		return in.elem(st, p.R, p.Idx, t)
	}
	v := in.cell(st, p, t)
	if v == nil {
		return in.freshVal(st, "load", t, "?")
	}
	v = in.force(st, v, t)
	if ob := st.obj[p.O]; ob != nil && ob.Sum {
		v = in.instance(st, v)
	}
	return in.snapshot(st, v, name)
}

// force makes the value of a field of a large library type.
func (in *Interp) force(st *State, v Value, t types.Type) Value {
	if o, ok := v.(Opaque); ok && strings.HasPrefix(o.ID, "lazy:") && t != nil {
		return in.initial(st, o.ID[5:], t, nameCtx{own: "lib", depth: 2})
	}
	return v
}

// instance makes an independent copy of a summary value.
func (in *Interp) instance(st *State, v Value) Value {
	switch x := v.(type) {
	case Int:
		if x.E.isConst() {
			return x
		}
	case Str:
		if _, ok := in.constOf(st, x); ok {
			return x
		}
	case Fn, Opaque, RType:
		return v
	}
	j := in.newJoiner(st, []*State{st})
	j.sl = true
	return j.loose("inst", []Value{v})
}

// elem reads an element of a region.
func (in *Interp) elem(st *State, id Rid, idx Expr, t types.Type) Value {
	r := st.reg[id]
	idx = st.c.norm(idx)
	if r == nil {
		if t == nil {
			return nil
		}
		return in.freshVal(st, "elem", t, "?")
	}
	if r.Byte {
		return in.readByte(st, id, idx, types.Typ[types.Uint8])
	}
	if r.Exact != nil {
		if idx.isConst() {
			if idx.C >= 0 && idx.C < int64(len(r.Exact)) {
				v := r.Exact[idx.C]
				if r.SumR {
					return in.instance(st, v)
				}
				return v
			}
			return in.freshVal(st, "elem", r.Elem, r.Own)
		}
		if len(r.Exact) > 32 && len(r.Exact) <= 256 && len(idx.T) == 1 && !r.SumR {
			if _, ok := st.bset[idx.T[0].S]; ok {
				return TabSel{r.Exact, idx}
			}
		}
	}
	key := idx.key()
	if v, ok := r.Cache[key]; ok && !r.SumR {
		return v
	}
	var v Value
	switch {
	case r.Exact != nil:
		v = in.instance(st, in.regionSum(st, r))
	case r.Lazy:
		nm := fmt.Sprintf("%s[%s]v%d", in.rnames[id], key, r.Ver)
		if r.SumR {
			nm = fmt.Sprintf("%s[]~%d", in.rnames[id], in.nextSeq())
		}
		c := in.lazyCtxs[id]
		if c.own == "" {
			c.own = r.Own
		}
		c.depth++
		v = in.initial(st, nm, r.Elem, c)
		if r.Sum != nil {
			j := in.newJoiner(st, []*State{st})
			v = j.loose("sum", []Value{v, r.Sum})
		}
	case r.Sum != nil:
		v = in.instance(st, r.Sum)
	default:
		v = in.freshVal(st, "elem", r.Elem, r.Own)
	}
	if !r.SumR {
		w := st.regw(id)
		if w.Cache == nil {
			w.Cache = map[string]Value{}
		}
		w.Cache[key] = v
	}
	return v
}

// resolveSel turns a table selection into a plain value.
func (in *Interp) resolveSel(st *State, t TabSel) Value {
	set := in.byteSetOf(st, t.Idx)
	var vs []Value
	for i := 0; i < 256 && i < len(t.Tab); i++ {
		if set.has(byte(i)) {
			vs = append(vs, t.Tab[i])
		}
	}
	if len(vs) == 0 {
		return t.Tab[0]
	}
	if len(vs) == 1 {
		return vs[0]
	}
	if _, ok := vs[0].(Bool); ok {
		// conditions on the index
		var ts ByteSet
		all := true
		for i := 0; i < 256 && i < len(t.Tab); i++ {
			b, ok := t.Tab[i].(Bool)
			if !ok || (b.C.op != cTrue && b.C.op != cFalse) {
				all = false
				break
			}
			if b.C.op == cTrue {
				ts.add(byte(i))
			}
		}
		if all {
			return Bool{in.memberCond(st, t.Idx, ts)}
		}
	}
	// distinct strings keep a bounded length
	j := in.newJoiner(st, []*State{st})
	var nb []Value
	seen := map[string]bool{}
	for _, v := range vs {
		k := fmt.Sprintf("%#v", v)
		if s, ok := v.(Str); ok {
			if c, ok := in.constOf(st, s); ok {
				k = "s" + c
			}
		}
		if !seen[k] {
			seen[k] = true
			nb = append(nb, v)
		}
	}
	if len(nb) == 1 {
		return nb[0]
	}
	return j.loose("sel", nb)
}

// memberCond is the condition that a byte expression is in the set.
func (in *Interp) memberCond(st *State, e Expr, set ByteSet) *Cond {
	e = st.c.norm(e)
	if e.isConst() {
		return condOf(e.C >= 0 && e.C < 256 && set.has(byte(e.C)))
	}
	cur := in.byteSetOf(st, e)
	if cur.subset(set) {
		return condT
	}
	if cur.and(set).empty() {
		return condF
	}
	if len(e.T) == 1 && e.T[0].K == 1 && e.C == 0 {
		s := e.T[0].S
		return &Cond{op: cPred, id: fmt.Sprintf("in:%d:%x", s, set), e: e, ref: func(st *State, pol bool) []*State {
			if _, ok := st.bset[s]; !ok {
				// replaced by an equality
				n := st.c.norm(e)
				if n.isConst() {
					if (n.C >= 0 && n.C < 256 && set.has(byte(n.C))) != pol {
						return nil
					}
				}
				return []*State{st}
			}
			x := set
			if !pol {
				x = set.not()
			}
			in.narrow(st, s, x)
			if st.c.bot {
				return nil
			}
			return []*State{st}
		}}
	}
	return &Cond{op: cPred, id: fmt.Sprintf("in:%s:%x", e.key(), set), e: e}
}

// store writes a value through a pointer.
func (in *Interp) store(st *State, p Ptr, v Value, at ssa.Instruction) {
	if p.R != 0 {
		r := st.reg[p.R]
		if r == nil {
			return
		}
		in.wrote(st, at, r.Own, in.rnames[p.R])
		if len(p.Path) > 0 {
			old := in.elem(st, p.R, p.Idx, nil)
			v = in.setIn(st, old, p.Path, v, fmt.Sprintf("%s[%s]", in.rnames[p.R], p.Idx.key()))
			if v == nil {
				return
			}
		}
		in.setElem(st, p.R, p.Idx, v)
		return
	}
	ob := in.object(st, p.O)
	if ob == nil {
		return
	}
	in.wrote(st, at, ob.Own, in.onames[p.O])
	nv := in.setIn(st, ob.V, p.Path, v, in.onames[p.O])
	if nv == nil {
		return
	}
	n := *ob
	if ob.Sum {
		j := in.newJoiner(st, []*State{st})
		n.V = j.loose("weak", []Value{ob.V, nv})
	} else {
		n.V = nv
	}
	st.obj[p.O] = &n
}

func (in *Interp) wrote(st *State, at ssa.Instruction, own, what string) {
	if in.mon != nil && at != nil {
		in.mon.Wrote(in, st, at, own, what)
	}
}

func (in *Interp) setIn(st *State, old Value, path []int, v Value, name string) Value {
	if len(path) == 0 {
		return in.own(st, old, v, name)
	}
	s, ok := old.(Struct)
	if !ok || path[0] >= len(s.F) {
		return nil
	}
	f := append([]Value(nil), s.F...)
	n := in.setIn(st, s.F[path[0]], path[1:], v, fmt.Sprintf("%s.%d", name, path[0]))
	if n == nil {
		return nil
	}
	f[path[0]] = n
	return Struct{f}
}

// own converts array values into locations owned by the target.
func (in *Interp) own(st *State, old, v Value, name string) Value {
	switch x := v.(type) {
	case Arr:
		if o, ok := old.(Arr); ok && st.reg[o.R] != nil {
			if o.R == x.R {
				return old
			}
			src := st.reg[x.R]
			dst := st.reg[o.R]
			if src == nil {
				return old
			}
			n := src.clone()
			n.Own, n.Name, n.Mut, n.SumR = dst.Own, dst.Name, true, dst.SumR
			n.Ver = in.nextSeq()
			st.reg[o.R] = n
			return old
		}
		if src := st.reg[x.R]; src != nil {
			n := src.clone()
			id := in.newRegion(st, name+".arr", n)
			return Arr{id}
		}
	case Struct:
		if !hasArr(v) {
			return v
		}
		f := append([]Value(nil), x.F...)
		o, _ := old.(Struct)
		for i := range f {
			var ov Value
			if i < len(o.F) {
				ov = o.F[i]
			}
			f[i] = in.own(st, ov, f[i], fmt.Sprintf("%s.%d", name, i))
		}
		return Struct{f}
	}
	return v
}

// setElem writes an element of a region.
func (in *Interp) setElem(st *State, id Rid, idx Expr, v Value) {
	r := st.reg[id]
	idx = st.c.norm(idx)
	if r.Byte {
		e := v
		if t, ok := e.(TabSel); ok {
			e = in.resolveSel(st, t)
		}
		x, ok := e.(Int)
		set := allBytes
		if ok {
			set = in.byteSetOf(st, x.E)
		}
		in.writeBytes(st, id, idx, addc(idx, 1), in.byteLabels(st, e, set), true)
		if ok && !r.SumR && len(x.E.T) > 0 {
			w := st.regw(id)
			w.Cache = map[string]Value{idx.key(): x}
			if len(x.E.T) == 1 && x.E.C == 0 && x.E.T[0].K == 1 {
				if _, has := in.org[x.E.T[0].S]; !has {
					in.org[x.E.T[0].S] = origin{id, idx, w.Ver, cst(1)}
				}
			}
		}
		return
	}
	w := st.regw(id)
	w.Ver = in.nextSeq()
	if w.Exact != nil {
		if idx.isConst() && idx.C >= 0 && idx.C < int64(len(w.Exact)) && !w.SumR {
			w.Exact[idx.C] = in.own(st, w.Exact[idx.C], v, fmt.Sprintf("%s[%d]", in.rnames[id], idx.C))
			w.Cache = nil
			return
		}
		w.Sum = in.regionSum(st, r)
		w.Exact = nil
	}
	w.Cache = nil
	j := in.newJoiner(st, []*State{st})
	vs := []Value{v}
	if w.Sum != nil {
		vs = append(vs, w.Sum)
	}
	w.Sum = j.loose("elem", vs)
	if !w.SumR {
		w.Cache = map[string]Value{idx.key(): v}
	}
}

// byteLabels gives the label sets of a byte value: labels follow the value
// through the region it was read from.
func (in *Interp) byteLabels(st *State, v Value, set ByteSet) Sets {
	out := plain(set)
	x, ok := v.(Int)
	if !ok {
		return out
	}
	e := st.c.norm(x.E)
	for _, t := range e.T {
		in.labelsOfSym(st, t.S, set, &out, 0)
	}
	for _, t := range x.E.T {
		in.labelsOfSym(st, t.S, set, &out, 0)
	}
	return out
}

func (in *Interp) labelsOfSym(st *State, s Sym, set ByteSet, out *Sets, depth int) {
	if l, ok := in.symLab[s]; ok {
		for k := 1; k < nLab; k++ {
			if l[k] {
				out[k] = out[k].or(set)
			}
		}
	}
	if d, ok := in.deriv[s]; ok && depth < 6 {
		in.labelsOfSym(st, d.src, set, out, depth+1)
	}
}

// constVal converts an SSA constant.
func (in *Interp) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Basic); ok || true {
			return in.zero(st, t, "zero")
		}
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool{condOf(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			return in.constStr(st, constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok && i > -coefMax && i < coefMax {
				return Int{cst(i)}
			}
			// a huge constant: a symbol with exact bounds
			s, fresh := in.syms.named("const:" + v.String())
			if fresh || in.syms.info[s].lo == nil {
				x, _ := new(big.Int).SetString(v.String(), 10)
				in.syms.info[s].lo, in.syms.info[s].hi = x, x
			}
			return Int{sx(s)}
		}
	}
	return Opaque{"const:" + c.Value.String()}
}

func ownHas(own, prefix string) bool {
	for _, p := range strings.Split(own, "+") {
		if strings.HasPrefix(p, prefix) {
			return true
		}
	}
	return false
}
