package main

// Merging of abstract states: signatures for partitioning, join and widening.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- reachability ----

type reach struct {
	st   *State
	objs map[Oid]bool
	regs map[Rid]bool
	oq   []Oid
	rq   []Rid
	syms map[Sym]bool

	local bool // leave out what is known of the content of byte regions
	spans map[Rid][][2]Expr
}

func (r *reach) span(g Rid, off, ln Expr) {
	if !r.local || g == 0 {
		return
	}
	if r.spans == nil {
		r.spans = map[Rid][][2]Expr{}
	}
	r.spans[g] = append(r.spans[g], [2]Expr{off, add(off, ln)})
}

func (r *reach) expr(e Expr) {
	for _, t := range e.T {
		r.syms[t.S] = true
	}
}

func (r *reach) cond(c *Cond) {
	if c == nil {
		return
	}
	r.expr(c.e)
	r.cond(c.a)
	r.cond(c.b)
	if c.op == cPred {
		for _, s := range predSyms(c) {
			r.syms[s] = true
		}
	}
}

// predSyms lists the symbols a predicate's refinement may mention.
func predSyms(c *Cond) []Sym {
	var out []Sym
	for _, t := range c.e.T {
		out = append(out, t.S)
	}
	return out
}

func (r *reach) region(id Rid) {
	if id != 0 && !r.regs[id] {
		r.regs[id] = true
		r.rq = append(r.rq, id)
	}
}

func (r *reach) object(id Oid) {
	if id != 0 && !r.objs[id] {
		r.objs[id] = true
		r.oq = append(r.oq, id)
	}
}

func (r *reach) val(v Value) {
	switch v := v.(type) {
	case nil:
	case Int:
		r.expr(v.E)
	case Bool:
		r.cond(v.C)
	case Str:
		r.region(v.R)
		r.span(v.R, v.Off, v.Len)
		r.expr(v.Off)
		r.expr(v.Len)
	case Slice:
		r.region(v.R)
		r.span(v.R, v.Off, v.Len)
		r.expr(v.Off)
		r.expr(v.Len)
		r.expr(v.Cap)
		r.expr(v.NN)
	case Ptr:
		r.object(v.O)
		r.region(v.R)
		if r.local && v.R != 0 {
			if g := r.st.reg[v.R]; g != nil {
				r.span(v.R, cst(0), g.N)
			}
		}
		r.expr(v.Idx)
		r.expr(v.NN)
	case Iface:
		r.val(v.V)
		r.expr(v.NN)
	case Fn:
		for _, b := range v.Bind {
			r.val(b)
		}
		r.expr(v.NN)
	case MapV:
		r.object(v.O)
		r.expr(v.NN)
	case Struct:
		for _, f := range v.F {
			r.val(f)
		}
	case Arr:
		r.region(v.R)
		if g := r.st.reg[v.R]; g != nil {
			r.span(v.R, cst(0), g.N)
		}
	case Tuple:
		for _, f := range v {
			r.val(f)
		}
	case RVal:
		r.val(v.V)
		if v.P != nil {
			r.val(*v.P)
		}
	case TabSel:
		r.expr(v.Idx)
		for _, x := range v.Tab {
			if s, ok := x.(Str); ok {
				r.region(s.R)
			}
		}
	case Native:
		for _, k := range sortedKeys(v.F) {
			r.val(v.F[k])
		}
	case *MapContent:
		for _, k := range sortedKeys(v.Exact) {
			r.val(v.Exact[k])
			r.val(v.Keys[k])
		}
		r.val(v.KSum)
		r.val(v.ESum)
		r.expr(v.N)
	}
}

func (r *reach) drain() {
	for len(r.oq) > 0 || len(r.rq) > 0 {
		if len(r.oq) > 0 {
			o := r.oq[0]
			r.oq = r.oq[1:]
			if ob := r.st.obj[o]; ob != nil {
				r.val(ob.V)
			}
			continue
		}
		g := r.rq[0]
		r.rq = r.rq[1:]
		rg := r.st.reg[g]
		if rg == nil {
			continue
		}
		r.expr(rg.N)
		if r.local && rg.Byte {
			continue
		}
		for _, f := range rg.Facts {
			r.expr(f.Lo)
			r.expr(f.Hi)
		}
		for _, c := range rg.Cnt {
			r.expr(c.Lo)
			r.expr(c.Hi)
			r.expr(c.N)
		}
		for _, e := range rg.Exact {
			r.val(e)
		}
		r.val(rg.Sum)
		for _, k := range sortedKeys(rg.Cache) {
			r.val(rg.Cache[k])
		}
	}
}

func (in *Interp) reachOf(st *State) *reach {
	r := &reach{st: st, objs: map[Oid]bool{}, regs: map[Rid]bool{}, syms: map[Sym]bool{}}
	for _, f := range st.fr {
		for _, v := range in.prog.envOrder(f) {
			r.val(f.env[v])
		}
		for _, d := range f.defers {
			r.val(d.fn)
			for _, a := range d.args {
				r.val(a)
			}
		}
	}
	for _, k := range sortedKeys(st.gval) {
		r.val(st.gval[k])
	}
	for o, ob := range st.obj {
		if strings.HasPrefix(ob.Own, "global") {
			r.object(o)
		}
	}
	sort.Slice(r.oq, func(i, j int) bool { return r.oq[i] < r.oq[j] })
	r.drain()
	return r
}

// gc drops unreachable memory and constraints on dead symbols.
func (in *Interp) gc(st *State) *reach {
	r := in.reachOf(st)
	for o := range st.obj {
		if !r.objs[o] {
			delete(st.obj, o)
		}
	}
	for g := range st.reg {
		if !r.regs[g] {
			delete(st.reg, g)
		}
	}
	return r
}

// mapExprs rewrites all memory references from one id to another.
type renamer struct {
	o map[Oid]Oid
	r map[Rid]Rid
}

func (m *renamer) val(v Value) Value {
	switch v := v.(type) {
	case Str:
		if n, ok := m.r[v.R]; ok {
			v.R = n
			return v
		}
	case Slice:
		if n, ok := m.r[v.R]; ok {
			v.R = n
			return v
		}
	case Ptr:
		if n, ok := m.r[v.R]; ok {
			v.R = n
		}
		if n, ok := m.o[v.O]; ok {
			v.O = n
		}
		return v
	case Iface:
		v.V = m.val(v.V)
		return v
	case Fn:
		if len(v.Bind) > 0 {
			b := make([]Value, len(v.Bind))
			for i := range b {
				b[i] = m.val(v.Bind[i])
			}
			v.Bind = b
		}
		return v
	case MapV:
		if n, ok := m.o[v.O]; ok {
			v.O = n
		}
		return v
	case Struct:
		f := make([]Value, len(v.F))
		for i := range f {
			f[i] = m.val(v.F[i])
		}
		return Struct{f}
	case Arr:
		if n, ok := m.r[v.R]; ok {
			v.R = n
		}
		return v
	case Tuple:
		f := make(Tuple, len(v))
		for i := range f {
			f[i] = m.val(v[i])
		}
		return f
	case RVal:
		v.V = m.val(v.V)
		if v.P != nil {
			p := m.val(*v.P).(Ptr)
			v.P = &p
		}
		return v
	case Native:
		n := Native{v.Kind, map[string]Value{}}
		for k, x := range v.F {
			n.F[k] = m.val(x)
		}
		return n
	case *MapContent:
		n := *v
		n.Exact = map[string]Value{}
		n.Keys = map[string]Value{}
		for k, x := range v.Exact {
			n.Exact[k] = m.val(x)
			n.Keys[k] = m.val(v.Keys[k])
		}
		n.KSum, n.ESum = m.val(v.KSum), m.val(v.ESum)
		return &n
	}
	return v
}

func (in *Interp) rename(st *State, m *renamer) {
	for i := range st.fr {
		f := st.fr[i].clone()
		for k, v := range f.env {
			f.env[k] = m.val(v)
		}
		for j, d := range f.defers {
			d.fn = m.val(d.fn)
			a := make([]Value, len(d.args))
			for k := range a {
				a[k] = m.val(d.args[k])
			}
			d.args = a
			f.defers = append(f.defers[:j:j], append([]deferred{d}, f.defers[j+1:]...)...)
		}
		st.fr[i] = f
		st.frOwn[i] = true
	}
	for k, v := range st.gval {
		st.gval[k] = m.val(v)
	}
	for o, ob := range st.obj {
		n := *ob
		n.V = m.val(ob.V)
		st.obj[o] = &n
	}
	for id, rg := range st.reg {
		if rg.Byte {
			continue
		}
		n := rg.clone()
		for i := range n.Exact {
			n.Exact[i] = m.val(n.Exact[i])
		}
		n.Sum = m.val(n.Sum)
		for k, v := range n.Cache {
			n.Cache[k] = m.val(v)
		}
		st.reg[id] = n
	}
}

// retireObject makes room for a new object of the same allocation site: the
// previous one, if still reachable, becomes part of a summary object.
func (in *Interp) retireObject(st *State, o Oid) {
	r := in.reachOf(st)
	if !r.objs[o] {
		delete(st.obj, o)
		return
	}
	old := in.oid(in.onames[o] + "'")
	prev := st.obj[o]
	merged := *prev
	merged.Sum = true
	merged.Name = in.onames[old]
	if ex := st.obj[old]; ex != nil && r.objs[old] {
		j := in.newJoiner(st, []*State{st})
		merged.V = j.loose("sum", []Value{ex.V, prev.V})
		j.finishLoose()
	}
	delete(st.obj, o)
	st.obj[old] = &merged
	in.rename(st, &renamer{o: map[Oid]Oid{o: old}})
}

func (in *Interp) retireRegion(st *State, id Rid) {
	r := in.reachOf(st)
	if !r.regs[id] {
		delete(st.reg, id)
		return
	}
	old := in.rid(in.rnames[id] + "'")
	prev := st.reg[id]
	m := prev.clone()
	m.SumR = true
	m.Facts, m.Cnt, m.Cache = nil, nil, nil
	m.Name = in.rnames[old]
	if m.Byte {
		m.Base = in.query(st, id, cst(0), prev.N)
		if m.Const {
			m.Const = false
		}
	} else {
		m.Sum = in.regionSum(st, prev)
		m.Exact = nil
	}
	n := in.freshRange(st, "n", 0, lenMax)
	if ex := st.reg[old]; ex != nil && r.regs[old] {
		m.Base = m.Base.or(ex.Base)
		m.Lab &= ex.Lab
		m.From = unionStr(m.From, ex.From)
		if !m.Byte {
			j := in.newJoiner(st, []*State{st})
			m.Sum = j.loose("sum", []Value{in.regionSum(st, ex), m.Sum})
			j.finishLoose()
		}
	} else {
		n = prev.N
	}
	m.N = n
	delete(st.reg, id)
	st.reg[old] = m
	in.rename(st, &renamer{r: map[Rid]Rid{id: old}})
}

func unionStr(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	if len(m) == 0 {
		return nil
	}
	return sortedKeys(m)
}

// regionSum summarises all elements of a non-byte region.
func (in *Interp) regionSum(st *State, r *Region) Value {
	if r.Exact == nil {
		return r.Sum
	}
	var vs []Value
	for _, e := range r.Exact {
		if e != nil {
			vs = append(vs, e)
		}
	}
	if r.Sum != nil {
		vs = append(vs, r.Sum)
	}
	if len(vs) == 0 {
		return nil
	}
	j := in.newJoiner(st, []*State{st})
	v := j.loose("sum", vs)
	j.finishLoose()
	return v
}

// ---- signatures ----

type sigW struct {
	sb   strings.Builder
	st   *State
	seen map[Oid]bool
	sreg map[Rid]bool
	ids  bool // tell known errors apart
	oq   []Oid
	rq   []Rid
	lvl  int // 0: full, 1: without nilness of slices and lengths, 2: coarse
}

func nnTok(st *State, e Expr) string {
	e = st.c.norm(e)
	if e.isConst() {
		if e.C == 0 {
			return "0"
		}
		return "1"
	}
	if st.c.entailsGE(addc(e, -1)) {
		return "1"
	}
	if st.c.entailsGE(neg(e)) {
		return "0"
	}
	return "?"
}

func (w *sigW) val(v Value) {
	st := w.st
	switch v := v.(type) {
	case nil:
		w.sb.WriteString("_")
	case Int:
		w.sb.WriteString("i")
	case Bool:
		switch v.C.op {
		case cTrue:
			w.sb.WriteString("T")
		case cFalse:
			w.sb.WriteString("F")
		default:
			w.sb.WriteString("b")
		}
	case Str:
		w.sb.WriteString("s")
	case Slice:
		if w.lvl >= 1 {
			w.sb.WriteString("[]")
			w.region(v.R)
			return
		}
		nn := nnTok(st, v.NN)
		if nn == "0" {
			w.sb.WriteString("[0]")
			return
		}
		fmt.Fprintf(&w.sb, "[%s:", nn)
		w.regTok(v.R)
		w.sb.WriteString("]")
	case Ptr:
		nn := nnTok(st, v.NN)
		if nn == "0" {
			w.sb.WriteString("P0")
			return
		}
		if w.lvl >= 2 {
			w.sb.WriteString("P")
			return
		}
		fmt.Fprintf(&w.sb, "P%s%d.%d%v", nn, v.O, v.R, v.Path)
		w.object(v.O)
		w.region(v.R)
	case Iface:
		nn := nnTok(st, v.NN)
		if nn == "0" {
			w.sb.WriteString("I0")
			return
		}
		if w.lvl >= 2 {
			w.sb.WriteString("I" + nn)
			return
		}
		w.sb.WriteString("I" + nn)
		if w.ids && (strings.HasPrefix(v.ID, "globalv:") || strings.HasPrefix(v.ID, "new:") || v.ID == "mix") {
			w.sb.WriteString("=" + v.ID)
		}
		if v.T != nil {
			w.sb.WriteString(v.T.String())
			w.val(v.V)
		}
	case Fn:
		fmt.Fprintf(&w.sb, "f%s%p%s", nnTok(st, v.NN), v.F, v.B)
		for _, b := range v.Bind {
			w.val(b)
		}
	case MapV:
		fmt.Fprintf(&w.sb, "m%s%d", nnTok(st, v.NN), v.O)
		w.object(v.O)
	case Struct:
		w.sb.WriteString("{")
		for _, f := range v.F {
			w.val(f)
		}
		w.sb.WriteString("}")
	case Arr:
		w.sb.WriteString("A")
	case Tuple:
		w.sb.WriteString("(")
		for _, f := range v {
			w.val(f)
		}
		w.sb.WriteString(")")
	case RVal:
		w.sb.WriteString("R" + v.T.String())
		if v.P != nil {
			w.val(*v.P)
		} else {
			w.val(v.V)
		}
	case RType:
		w.sb.WriteString("t" + v.T.String())
	case Native:
		w.sb.WriteString("N" + v.Kind)
		for _, k := range sortedKeys(v.F) {
			w.val(v.F[k])
		}
	case *MapContent:
		fmt.Fprintf(&w.sb, "M%v%d", v.Known, len(v.Exact))
	}
}

func (w *sigW) regTok(id Rid) {
	r := w.st.reg[id]
	if r != nil && (r.Const || (r.Byte && !r.Mut)) {
		w.sb.WriteString("c")
		return
	}
	fmt.Fprintf(&w.sb, "%d", id)
	w.region(id)
}

func (w *sigW) object(o Oid) {
	if o != 0 && !w.seen[o] {
		w.seen[o] = true
		w.oq = append(w.oq, o)
	}
}

func (w *sigW) region(r Rid) {
	if r != 0 && !w.sreg[r] {
		w.sreg[r] = true
		w.rq = append(w.rq, r)
	}
}

// signature of the discrete part of a state.
func (in *Interp) signature(st *State, lvl int) string {
	w := &sigW{st: st, seen: map[Oid]bool{}, sreg: map[Rid]bool{}, lvl: lvl, ids: in.opts.ErrIDs && lvl == 0}
	for i, f := range st.fr {
		fmt.Fprintf(&w.sb, "|%d:", i)
		for _, v := range in.prog.envOrder(f) {
			w.val(f.env[v])
			w.sb.WriteByte(',')
		}
		fmt.Fprintf(&w.sb, "d%d", len(f.defers))
		for _, d := range f.defers {
			fmt.Fprintf(&w.sb, "@%d", d.site.Pos())
			w.val(d.fn)
			for _, a := range d.args {
				w.val(a)
			}
		}
	}
	for _, k := range sortedKeys(st.ghost) {
		w.sb.WriteString("!" + k + "=" + st.ghost[k])
	}
	for _, k := range sortedKeys(st.gval) {
		if strings.HasPrefix(k, "$loc") {
			continue
		}
		w.sb.WriteString("!" + k)
		w.val(st.gval[k])
	}
	for len(w.oq) > 0 || len(w.rq) > 0 {
		if len(w.oq) > 0 {
			o := w.oq[0]
			w.oq = w.oq[1:]
			if ob := st.obj[o]; ob != nil && !ob.Sum && !in.isMessage(ob.T) {
				fmt.Fprintf(&w.sb, "#%d", o)
				w.val(ob.V)
			}
			continue
		}
		g := w.rq[0]
		w.rq = w.rq[1:]
		r := st.reg[g]
		if r == nil || r.Byte {
			continue
		}
		if r.Exact != nil && w.lvl == 0 && !r.Const {
			fmt.Fprintf(&w.sb, "&%d:%d", g, len(r.Exact))
			for _, e := range r.Exact {
				w.val(e)
			}
		}
	}
	return w.sb.String()
}

// ---- join ----

type slot struct {
	key  string
	es   []Expr
	has  []bool
	sym  Sym
	env  bool // integer variable of the current frame
	same bool
	weak bool // no relations with other slots
	out  Expr
	set  ByteSet // union of byte sets; valid if isB
	isB  bool
}

type joiner struct {
	in    *Interp
	sts   []*State
	out   *State
	vars  map[Sym]bool // loop-variant symbols
	slots []*slot
	byKey map[string]*slot
	oq    []Oid
	rq    []Rid
	oseen map[Oid]bool
	rseen map[Rid]bool
	lchg  bool
	sl    bool               // single-state (loose) mode
	onR   map[Rid][][2]*slot // slices and strings per region: off, len slots
	first bool               // states[0] is the previous loop head
	grew  bool
	weak  bool       // the content of a message is being joined
	caps  [][2]*slot // length and capacity of slices
}

func (in *Interp) newJoiner(out *State, sts []*State) *joiner {
	return &joiner{in: in, sts: sts, out: out, byKey: map[string]*slot{}, oseen: map[Oid]bool{}, rseen: map[Rid]bool{}, onR: map[Rid][][2]*slot{}}
}

func (j *joiner) mentionsVar(e Expr) bool {
	if j.vars == nil {
		return false
	}
	for _, t := range e.T {
		if j.vars[t.S] {
			return true
		}
	}
	return false
}

// num joins a numeric location.
func (j *joiner) num(key string, es []Expr, has []bool) Expr {
	ne := make([]Expr, len(es))
	for i := range es {
		if has == nil || has[i] {
			ne[i] = j.sts[i].c.norm(es[i])
		}
	}
	same := true
	ref := -1
	for i := range ne {
		if has != nil && !has[i] {
			continue
		}
		if ref < 0 {
			ref = i
		}
		if !eqExpr(ne[i], ne[ref]) || j.mentionsVar(ne[i]) {
			same = false
		}
	}
	if ref < 0 {
		return cst(0)
	}
	if same {
		k := "=" + ne[ref].key()
		s := j.byKey[k]
		if s == nil {
			s = &slot{key: k, es: ne, has: has, same: true, out: ne[ref]}
			j.byKey[k] = s
			j.slots = append(j.slots, s)
		}
		return s.out
	}
	var kb strings.Builder
	for i := range ne {
		if has != nil && !has[i] {
			kb.WriteString("-/")
			continue
		}
		kb.WriteString(ne[i].key() + "/")
	}
	k := kb.String()
	s := j.byKey[k]
	if s != nil && !j.weak {
		s.weak = false
	}
	if s == nil {
		s = &slot{key: k, es: ne, has: has, weak: j.weak}
		name := key
		if i := strings.LastIndexByte(name, '.'); i >= 0 && len(name) > 24 {
			name = name[i+1:]
		}
		s.sym = j.in.syms.fresh(name)
		s.out = sx(s.sym)
		j.byKey[k] = s
		j.slots = append(j.slots, s)
		// byte sets
		isB := true
		var set ByteSet
		for i := range ne {
			if has != nil && !has[i] {
				continue
			}
			if ne[i].isConst() && ne[i].C >= 0 && ne[i].C < 256 {
				set = set.or(setOf(byte(ne[i].C)))
				continue
			}
			if len(ne[i].T) == 1 && ne[i].C == 0 && ne[i].T[0].K == 1 {
				if b, ok := j.sts[i].bset[ne[i].T[0].S]; ok {
					set = set.or(b)
					continue
				}
			}
			isB = false
		}
		s.isB, s.set = isB, set
		info := &j.in.syms.info[s.sym]
		for i := range ne {
			if has != nil && !has[i] {
				continue
			}
			if j.in.wrappedFlag(ne[i]) {
				info.flag |= symWrapped
			}
		}
	}
	return s.out
}

func (j *joiner) numAll(key string, f func(i int) (Expr, bool)) Expr {
	es := make([]Expr, len(j.sts))
	has := make([]bool, len(j.sts))
	all := true
	for i := range es {
		es[i], has[i] = f(i)
		all = all && has[i]
	}
	if all {
		has = nil
	}
	return j.num(key, es, has)
}

func (j *joiner) slotOf(e Expr) *slot {
	if s := j.byKey["="+e.key()]; s != nil {
		return s
	}
	if len(e.T) == 1 && e.C == 0 {
		for _, s := range j.slots {
			if !s.same && s.sym == e.T[0].S {
				return s
			}
		}
	}
	return nil
}

// typeOfAll returns a common Go kind name or "".
func kindName(v Value) string { return fmt.Sprintf("%T", v) }

// val joins values; vs[i] is nil when the state has no such location.
func (j *joiner) val(key string, vs []Value) Value {
	if j.sl {
		return j.loose(key, vs)
	}
	ref := -1
	for i, v := range vs {
		if v == nil {
			continue
		}
		if ref < 0 {
			ref = i
		} else if kindName(v) != kindName(vs[ref]) {
			j.grow(1)
			return j.mismatch(key, vs)
		}
	}
	if ref < 0 {
		return nil
	}
	has := make([]bool, len(vs))
	all := true
	for i, v := range vs {
		has[i] = v != nil
		all = all && has[i]
	}
	if all {
		has = nil
	}
	nums := func(sfx string, f func(v Value) Expr) Expr {
		es := make([]Expr, len(vs))
		for i, v := range vs {
			if v != nil {
				es[i] = f(v)
			}
		}
		return j.num(key+sfx, es, has)
	}
	switch r := vs[ref].(type) {
	case Int:
		e := nums("", func(v Value) Expr { return v.(Int).E })
		if s := j.slotOf(e); s != nil && strings.HasPrefix(key, "T") {
			s.env = true
		}
		return Int{e}
	case Bool:
		return Bool{j.cond(key, vs)}
	case Str:
		sameR := true
		for _, v := range vs {
			if v != nil {
				if v.(Str).R != r.R {
					sameR = false
				}
			}
		}
		if sameR {
			off := nums(".off", func(v Value) Expr { return v.(Str).Off })
			ln := nums(".len", func(v Value) Expr { return v.(Str).Len })
			j.region(r.R)
			if so, sl := j.slotOf(off), j.slotOf(ln); so != nil && sl != nil {
				j.onR[r.R] = append(j.onR[r.R], [2]*slot{so, sl})
			}
			return Str{r.R, off, ln}
		}
		ln := nums(".len", func(v Value) Expr { return v.(Str).Len })
		id := j.phiBytes(key, vs, ln, false)
		return Str{id, cst(0), ln}
	case Slice:
		if j.weak {
			j.weak = false
			defer func() { j.weak = true }()
		}
		// nil slices do not matter for the region
		var R Rid
		same := true
		for i, v := range vs {
			if v == nil {
				continue
			}
			s := v.(Slice)
			if s.R == 0 || (j.sts[i].c.entailsGE(neg(s.NN))) {
				continue
			}
			if R == 0 {
				R = s.R
			} else if R != s.R {
				same = false
			}
		}
		nn := nums(".nn", func(v Value) Expr { return v.(Slice).NN })
		ln := nums(".len", func(v Value) Expr { return v.(Slice).Len })
		cp := nums(".cap", func(v Value) Expr { return v.(Slice).Cap })
		if a, b := j.slotOf(ln), j.slotOf(cp); a != nil && b != nil && !(a.same && b.same) {
			j.caps = append(j.caps, [2]*slot{a, b})
		}
		var hint *Sets
		hok := true
		for _, v := range vs {
			if v == nil {
				continue
			}
			h := v.(Slice).Hint
			if h == nil {
				if v.(Slice).R != 0 {
					hok = false
				}
				continue
			}
			if hint == nil {
				c := *h
				hint = &c
			} else {
				c := hint.or(*h)
				hint = &c
			}
		}
		if !hok {
			hint = nil
		}
		if same {
			off := nums(".off", func(v Value) Expr { return v.(Slice).Off })
			j.region(R)
			if so, sl := j.slotOf(off), j.slotOf(ln); so != nil && sl != nil {
				j.onR[R] = append(j.onR[R], [2]*slot{so, sl})
			}
			return Slice{R: R, Off: off, Len: ln, Cap: cp, NN: nn, Hint: hint}
		}
		j.grow(2)
		id := j.phiRegion(key, vs, cp)
		return Slice{R: id, Off: cst(0), Len: ln, Cap: cp, NN: nn, Hint: hint}
	case Ptr:
		var P *Ptr
		same := true
		for i, v := range vs {
			if v == nil {
				continue
			}
			p := v.(Ptr)
			if j.sts[i].c.entailsGE(neg(p.NN)) {
				continue
			}
			if P == nil {
				q := p
				P = &q
			} else if P.O != p.O || P.R != p.R || !samePath(P.Path, p.Path) {
				same = false
			}
		}
		nn := nums(".nn", func(v Value) Expr { return v.(Ptr).NN })
		if P == nil {
			return Ptr{NN: nn}
		}
		if !same {
			return j.phiPtr(key, vs, nn)
		}
		idx := cst(0)
		if P.R != 0 {
			idx = nums(".idx", func(v Value) Expr { return v.(Ptr).Idx })
			j.region(P.R)
		}
		j.object(P.O)
		return Ptr{O: P.O, R: P.R, Idx: idx, Path: P.Path, NN: nn}
	case Iface:
		var T types.Type
		id := ""
		known, unk := false, false
		mixed := false
		sub := make([]Value, len(vs))
		for i, v := range vs {
			if v == nil {
				continue
			}
			f := v.(Iface)
			if j.sts[i].c.entailsGE(neg(f.NN)) {
				continue
			}
			if f.T == nil {
				unk = true
				if id == "" {
					id = f.ID
				} else if id != f.ID {
					id = "mix"
				}
				continue
			}
			if !known {
				T, known = f.T, true
			} else if !types.Identical(T, f.T) {
				mixed = true
			}
			sub[i] = f.V
		}
		nn := nums(".nn", func(v Value) Expr { return v.(Iface).NN })
		if mixed || (known && unk) {
			j.grew = j.grew || vs[0] == nil || vs[0].(Iface).T != nil
			for _, v := range vs {
				if v != nil && v.(Iface).T != nil {
					j.keep(v.(Iface).V)
				}
			}
			return Iface{NN: nn, ID: "mix"}
		}
		if known {
			return Iface{T: T, V: j.val(key+".v", sub), NN: nn}
		}
		return Iface{NN: nn, ID: id}
	case Fn:
		same := true
		var ref *Fn
		for i, v := range vs {
			if v == nil {
				continue
			}
			f := v.(Fn)
			if j.sts[i].c.entailsGE(neg(f.NN)) {
				continue
			}
			if ref == nil {
				ref = &f
			} else if ref.F != f.F || ref.ID != f.ID || ref.B != f.B || len(ref.Bind) != len(f.Bind) {
				same = false
			}
		}
		nn := nums(".nn", func(v Value) Expr { return v.(Fn).NN })
		if ref == nil {
			return Fn{NN: nn}
		}
		if !same {
			return Fn{NN: nn, ID: "mix"}
		}
		out := Fn{F: ref.F, ID: ref.ID, B: ref.B, NN: nn}
		for b := range ref.Bind {
			sub := make([]Value, len(vs))
			for i, v := range vs {
				if v != nil && len(v.(Fn).Bind) > b {
					sub[i] = v.(Fn).Bind[b]
				}
			}
			out.Bind = append(out.Bind, j.val(fmt.Sprintf("%s.b%d", key, b), sub))
		}
		return out
	case MapV:
		nn := nums(".nn", func(v Value) Expr { return v.(MapV).NN })
		var o Oid
		same := true
		for _, v := range vs {
			if v == nil || v.(MapV).O == 0 {
				continue
			}
			if o == 0 {
				o = v.(MapV).O
			} else if o != v.(MapV).O {
				same = false
			}
		}
		if !same {
			return MapV{O: j.phiMap(key, vs), NN: nn}
		}
		j.object(o)
		return MapV{O: o, NN: nn}
	case Struct:
		n := len(r.F)
		out := make([]Value, n)
		for f := 0; f < n; f++ {
			sub := make([]Value, len(vs))
			for i, v := range vs {
				if v != nil && f < len(v.(Struct).F) {
					sub[i] = v.(Struct).F[f]
				}
			}
			out[f] = j.val(fmt.Sprintf("%s.%d", key, f), sub)
		}
		return Struct{out}
	case Tuple:
		out := make(Tuple, len(r))
		for f := range r {
			sub := make([]Value, len(vs))
			for i, v := range vs {
				if v != nil && f < len(v.(Tuple)) {
					sub[i] = v.(Tuple)[f]
				}
			}
			out[f] = j.val(fmt.Sprintf("%s.%d", key, f), sub)
		}
		return out
	case Arr:
		same := true
		for _, v := range vs {
			if v != nil && v.(Arr).R != r.R {
				same = false
			}
		}
		if same {
			j.region(r.R)
			return r
		}
		rg := j.sts[ref].reg[r.R]
		id := j.phiRegionR(key, vs, func(v Value) Rid { return v.(Arr).R }, func(v Value, i int) (Expr, Expr) {
			return cst(0), j.sts[i].reg[v.(Arr).R].N
		}, rg.N)
		return Arr{id}
	case TabSel:
		same := true
		for _, v := range vs {
			if v != nil && (len(v.(TabSel).Tab) == 0 || &v.(TabSel).Tab[0] != &r.Tab[0]) {
				same = false
			}
		}
		if !same {
			return j.mismatch(key, vs)
		}
		return TabSel{r.Tab, nums(".idx", func(v Value) Expr { return v.(TabSel).Idx })}
	case RVal:
		for _, v := range vs {
			if v != nil && !types.Identical(v.(RVal).T, r.T) {
				return Opaque{"rval"}
			}
		}
		sub := make([]Value, len(vs))
		psub := make([]Value, len(vs))
		hasP := false
		for i, v := range vs {
			if v == nil {
				continue
			}
			sub[i] = v.(RVal).V
			if v.(RVal).P != nil {
				psub[i] = *v.(RVal).P
				hasP = true
			}
		}
		out := RVal{T: r.T, V: j.val(key+".v", sub), Zero: r.Zero}
		if hasP {
			p := j.val(key+".p", psub)
			if pp, ok := p.(Ptr); ok {
				out.P = &pp
			}
		}
		return out
	case Native:
		out := Native{r.Kind, map[string]Value{}}
		keys := map[string]bool{}
		for _, v := range vs {
			if v != nil {
				for k := range v.(Native).F {
					keys[k] = true
				}
			}
		}
		for _, k := range sortedKeys(keys) {
			sub := make([]Value, len(vs))
			for i, v := range vs {
				if v != nil {
					sub[i] = v.(Native).F[k]
				}
			}
			out.F[k] = j.val(key+"."+k, sub)
		}
		return out
	case *MapContent:
		return j.mapContent(key, vs)
	case RType:
		for _, v := range vs {
			if v != nil && !types.Identical(v.(RType).T, r.T) {
				return Opaque{"rtype"}
			}
		}
		return r
	case Opaque:
		for _, v := range vs {
			if v != nil && v.(Opaque).ID != r.ID {
				return Opaque{"mix"}
			}
		}
		return r
	}
	return vs[ref]
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (j *joiner) mapContent(key string, vs []Value) Value {
	out := &MapContent{Known: true, Exact: map[string]Value{}, Keys: map[string]Value{}}
	keys := map[string]bool{}
	ks, es := make([]Value, len(vs)), make([]Value, len(vs))
	for i, v := range vs {
		if v == nil {
			continue
		}
		m := v.(*MapContent)
		if !m.Known {
			out.Known = false
		}
		for k := range m.Exact {
			keys[k] = true
		}
		ks[i], es[i] = m.KSum, m.ESum
	}
	if out.Known {
		for i, v := range vs {
			if v == nil {
				continue
			}
			_ = i
			if len(v.(*MapContent).Exact) != len(keys) {
				out.Known = false
			}
		}
	}
	if out.Known {
		for _, k := range sortedKeys(keys) {
			a, b := make([]Value, len(vs)), make([]Value, len(vs))
			for i, v := range vs {
				if v != nil {
					a[i], b[i] = v.(*MapContent).Exact[k], v.(*MapContent).Keys[k]
				}
			}
			out.Exact[k], out.Keys[k] = j.val(key+"["+k+"]", a), j.val(key+"k["+k+"]", b)
		}
	} else {
		// fold exact entries into the summary
		var kk, ee []Value
		var own []int
		for i, v := range vs {
			if v == nil {
				continue
			}
			m := v.(*MapContent)
			for _, k := range sortedKeys(m.Exact) {
				kk, ee = append(kk, m.Keys[k]), append(ee, m.Exact[k])
				own = append(own, i)
			}
		}
		_ = own
		out.KSum = j.sumVals(key+".k", append(kk, ks...), vs)
		out.ESum = j.sumVals(key+".e", append(ee, es...), vs)
		out.Exact, out.Keys = nil, nil
	}
	out.N = j.numAll(key+".n", func(i int) (Expr, bool) {
		if vs[i] == nil {
			return Expr{}, false
		}
		return vs[i].(*MapContent).N, true
	})
	return out
}

func (j *joiner) sumVals(key string, all []Value, _ []Value) Value {
	var vs []Value
	for _, v := range all {
		if v != nil {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return j.loose(key, vs)
}

// keep marks memory referenced from a value as reachable in the result.
func (j *joiner) keep(v Value) {
	r := &reach{st: j.out, objs: map[Oid]bool{}, regs: map[Rid]bool{}, syms: map[Sym]bool{}}
	r.val(v)
	for o := range r.objs {
		j.object(o)
	}
	for g := range r.regs {
		j.region(g)
	}
}

func (j *joiner) cond(key string, vs []Value) *Cond {
	same := true
	var ref *Cond
	for _, v := range vs {
		if v == nil {
			continue
		}
		c := v.(Bool).C
		if ref == nil {
			ref = c
		} else if !eqCond(ref, c) {
			same = false
		}
	}
	if same && !j.condVar(ref) {
		return ref
	}
	es := make([]Expr, len(vs))
	has := make([]bool, len(vs))
	all := true
	for i, v := range vs {
		if v == nil {
			all = false
			continue
		}
		has[i] = true
		c := v.(Bool).C
		if d := j.in.decide(j.sts[i], c); d >= 0 {
			es[i] = cst(int64(d))
		} else if c.op == cEQ && len(c.e.T) == 1 && c.e.C == -1 && c.e.T[0].K == 1 && j.in.isBoolSym(c.e.T[0].S) {
			es[i] = sx(c.e.T[0].S)
		} else {
			es[i] = j.in.freshRange(j.sts[i], "cond", 0, 1)
		}
	}
	if all {
		has = nil
	}
	e := j.num(key, es, has)
	return mkCmp(cEQ, addc(e, -1))
}

func (in *Interp) isBoolSym(s Sym) bool {
	i := in.syms.info[s]
	return i.lo != nil && i.hi != nil && i.lo.Sign() == 0 && i.hi.IsInt64() && i.hi.Int64() == 1
}

func (j *joiner) condVar(c *Cond) bool {
	if c == nil {
		return false
	}
	if c.op == cPred && j.vars != nil {
		return true
	}
	return j.mentionsVar(c.e) || j.condVar(c.a) || j.condVar(c.b)
}

func eqCond(a, b *Cond) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op {
		return false
	}
	switch a.op {
	case cTrue, cFalse:
		return true
	case cPred:
		return a.id == b.id
	}
	return eqExpr(a.e, b.e) && eqCond(a.a, b.a) && eqCond(a.b, b.b)
}

func (in *Interp) nextSeq() int {
	in.seq++
	return in.seq
}

// phiBytes makes a byte region standing for different byte contents.
func (j *joiner) phiBytes(key string, vs []Value, n Expr, mut bool) Rid {
	id := j.in.rid(fmt.Sprintf("phi:%d", j.in.nextSeq()))
	g := &Region{Byte: true, N: n, Mut: mut, Name: "phi", Lab: ^uint32(0)}
	own := map[string]bool{}
	for i, v := range vs {
		if v == nil {
			continue
		}
		s := v.(Str)
		if s.R == 0 {
			continue
		}
		r := j.sts[i].reg[s.R]
		if r == nil {
			continue
		}
		g.Base = g.Base.or(j.in.query(j.sts[i], s.R, s.Off, add(s.Off, s.Len)))
		if !(r.Const) {
			g.Lab &= r.Lab
		}
		g.From = unionStr(g.From, r.From)
		if r.Own != "const" {
			own[r.Own] = true
		}
	}
	g.Own = strings.Join(sortedKeys(own), "+")
	if g.Own == "" {
		g.Own = "const"
	}
	j.out.reg[id] = g
	j.rseen[id] = true
	if j.first {
		// growth against the previous loop head
		if vs[0] == nil {
			j.grow(5)
		} else if r := j.sts[0].reg[vs[0].(Str).R]; r == nil || !g.Base.subset(j.in.query(j.sts[0], vs[0].(Str).R, vs[0].(Str).Off, add(vs[0].(Str).Off, vs[0].(Str).Len))) || (!r.Const && r.Lab&^g.Lab != 0) || (r.Const && len(r.KBytes) > 0) {
			j.grow(6)
		}
	}
	return id
}

func (j *joiner) phiRegion(key string, vs []Value, n Expr) Rid {
	return j.phiRegionR(key, vs, func(v Value) Rid { return v.(Slice).R }, func(v Value, i int) (Expr, Expr) {
		s := v.(Slice)
		return s.Off, add(s.Off, s.Cap)
	}, n)
}

// phiRegionR makes a region standing for one of several regions.
func (j *joiner) phiRegionR(key string, vs []Value, rf func(Value) Rid, rng func(Value, int) (Expr, Expr), n Expr) Rid {
	id := j.in.rid(fmt.Sprintf("phir:%d", j.in.nextSeq()))
	g := &Region{N: n, Mut: true, Name: "phi", Lab: ^uint32(0), SumR: true}
	own := map[string]bool{}
	var sums []Value
	for i, v := range vs {
		if v == nil || rf(v) == 0 {
			continue
		}
		r := j.sts[i].reg[rf(v)]
		if r == nil {
			continue
		}
		g.Byte, g.Elem = r.Byte, r.Elem
		lo, hi := rng(v, i)
		if r.Byte {
			g.Base = g.Base.or(j.in.query(j.sts[i], rf(v), lo, hi))
		} else {
			if s := j.in.regionSum(j.sts[i], r); s != nil {
				sums = append(sums, s)
			}
			g.Lazy = g.Lazy || r.Lazy
		}
		g.Lab &= r.Lab
		g.From = unionStr(g.From, r.From)
		own[r.Own] = true
		g.From = unionStr(g.From, []string{r.Own})
	}
	g.Own = strings.Join(sortedKeys(own), "+")
	if len(sums) > 0 {
		g.Sum = j.loose(key+".sum", sums)
	}
	if _, isArr := firstVal(vs).(Arr); isArr {
		g.SumR = false
	}
	j.out.reg[id] = g
	j.rseen[id] = true
	return id
}

func firstVal(vs []Value) Value {
	for _, v := range vs {
		if v != nil {
			return v
		}
	}
	return nil
}

func (j *joiner) phiPtr(key string, vs []Value, nn Expr) Value {
	id := j.in.oid(fmt.Sprintf("phip:%d", j.in.nextSeq()))
	var contents []Value
	own := map[string]bool{}
	var T types.Type
	for i, v := range vs {
		if v == nil {
			continue
		}
		p := v.(Ptr)
		if p.O != 0 {
			if ob := j.sts[i].obj[p.O]; ob != nil {
				if c := pathGet(ob.V, p.Path); c != nil {
					contents = append(contents, c)
				}
				for _, w := range strings.Split(ob.Own, "+") {
					own[w] = true
				}
				if len(p.Path) == 0 {
					T = ob.T
				}
			}
		} else if p.R != 0 {
			if r := j.sts[i].reg[p.R]; r != nil {
				own[r.Own] = true
			}
		}
	}
	if j.first && !j.coversPtr(vs) {
		j.grow(3)
	}
	ob := &Obj{Own: strings.Join(sortedKeys(own), "+"), T: T, Sum: true, Name: "phi"}
	if len(contents) > 0 {
		ob.V = j.loose(key+".phi", contents)
	}
	j.out.obj[id] = ob
	j.oseen[id] = true
	return Ptr{O: id, NN: nn}
}

// coversPtr: the first pointer refers to an object that already stands for
// the objects of the others.
func (j *joiner) coversPtr(vs []Value) bool {
	p, ok := vs[0].(Ptr)
	if !ok || p.O == 0 || !strings.HasPrefix(j.in.onames[p.O], "phip:") {
		return false
	}
	h := j.sts[0].obj[p.O]
	if h == nil {
		return false
	}
	for i, v := range vs[1:] {
		if v == nil {
			continue
		}
		q := v.(Ptr)
		if q.R != 0 {
			return false
		}
		if q.O == 0 {
			continue
		}
		st := j.sts[i+1]
		ob := st.obj[q.O]
		if ob == nil {
			return false
		}
		for _, w := range strings.Split(ob.Own, "+") {
			if !ownHas(h.Own, w) {
				return false
			}
		}
		c := pathGet(ob.V, q.Path)
		if c != nil && !j.in.covers(j.sts[0], pathGet(h.V, p.Path), st, c, 0) {
			return false
		}
	}
	return true
}

func pathGet(v Value, path []int) Value {
	for _, p := range path {
		s, ok := v.(Struct)
		if !ok || p >= len(s.F) {
			return nil
		}
		v = s.F[p]
	}
	return v
}

// mismatch joins values of different kinds.
func (j *joiner) mismatch(key string, vs []Value) Value {
	for _, v := range vs {
		if v != nil {
			j.keep(v)
		}
	}
	return Opaque{"mix"}
}

func (j *joiner) object(o Oid) {
	if o != 0 && !j.oseen[o] {
		j.oseen[o] = true
		j.oq = append(j.oq, o)
	}
}

func (j *joiner) region(r Rid) {
	if r != 0 && !j.rseen[r] {
		j.rseen[r] = true
		j.rq = append(j.rq, r)
	}
}

// loose joins values without per-state precision: the result is valid whatever
// state it came from; numbers become fresh symbols bounded by intervals.
func (j *joiner) loose(key string, vs []Value) Value {
	in := j.in
	v0 := firstVal(vs)
	if v0 == nil {
		return nil
	}
	for _, v := range vs {
		if v != nil && kindName(v) != kindName(v0) {
			return j.mismatch(key, vs)
		}
	}
	hull := func(f func(Value) Expr) Expr {
		var lo, hi *big.Int
		lok, hok := true, true
		wrapped := false
		var same *Expr
		isSame := true
		for _, v := range vs {
			if v == nil {
				continue
			}
			e := f(v)
			if same == nil {
				same = &e
			} else if !eqExpr(*same, e) {
				isSame = false
			}
			wrapped = wrapped || in.wrappedFlag(e)
			var l, h *big.Int
			for _, s := range j.sts {
				a, b := in.interval(s, e)
				if a == nil {
					l = nil
				} else if l == nil || a.Cmp(l) < 0 {
					l = a
				}
				if b == nil {
					h = nil
				} else if h == nil || b.Cmp(h) > 0 {
					h = b
				}
				if a == nil {
					lok = false
				}
				if b == nil {
					hok = false
				}
			}
			if l != nil && (lo == nil || l.Cmp(lo) < 0) {
				lo = l
			}
			if h != nil && (hi == nil || h.Cmp(hi) > 0) {
				hi = h
			}
		}
		if isSame && same != nil && same.isConst() {
			return *same
		}
		s := in.syms.fresh("l")
		if wrapped {
			in.syms.info[s].flag |= symWrapped
		}
		c := j.out.cw()
		if lok && lo != nil && lo.IsInt64() && lo.Int64() > -coefMax {
			c.addGE(addc(sx(s), -lo.Int64()))
			in.syms.info[s].lo = lo
		}
		if hok && hi != nil && hi.IsInt64() && hi.Int64() < coefMax {
			c.addGE(addc(neg(sx(s)), hi.Int64()))
			in.syms.info[s].hi = hi
		}
		if !lok || !hok {
			in.syms.info[s].lo, in.syms.info[s].hi = lo, hi
			if !lok {
				in.syms.info[s].lo = nil
			}
			if !hok {
				in.syms.info[s].hi = nil
			}
		}
		return sx(s)
	}
	q := func(r Rid, lo, hi Expr) Sets {
		var out Sets
		for _, s := range j.sts {
			if s.reg[r] != nil {
				out = out.or(in.query(s, r, lo, hi))
			}
		}
		return out
	}
	regOf := func(r Rid) *Region {
		for _, s := range j.sts {
			if s.reg[r] != nil {
				return s.reg[r]
			}
		}
		return nil
	}
	switch r := v0.(type) {
	case Int:
		isB := true
		var set ByteSet
		for _, v := range vs {
			if v == nil {
				continue
			}
			e := v.(Int).E
			if e.isConst() && e.C >= 0 && e.C < 256 {
				set = set.or(setOf(byte(e.C)))
			} else if len(e.T) == 1 && e.C == 0 && e.T[0].K == 1 {
				found := false
				for _, s := range j.sts {
					if b, ok := s.bset[e.T[0].S]; ok {
						set = set.or(b)
						found = true
					}
				}
				isB = isB && found
			} else {
				isB = false
			}
		}
		e := hull(func(v Value) Expr { return v.(Int).E })
		if isB && len(e.T) == 1 {
			j.out.bset[e.T[0].S] = set
		}
		return Int{e}
	case Bool:
		same := true
		for _, v := range vs {
			if v != nil && !eqCond(v.(Bool).C, r.C) {
				same = false
			}
		}
		if same && (r.C.op == cTrue || r.C.op == cFalse) {
			return r
		}
		return Bool{mkCmp(cEQ, addc(in.freshRange(j.out, "lb", 0, 1), -1))}
	case Str:
		ln := hull(func(v Value) Expr { return v.(Str).Len })
		// keep constants when equal
		var one string
		eq := true
		for i, v := range vs {
			if v == nil {
				continue
			}
			s, ok := in.constOf(j.sts[0], v.(Str))
			if !ok || (i > 0 && one != s) {
				eq = false
				break
			}
			one = s
		}
		if eq {
			return in.constStr(j.out, one)
		}
		id := in.rid(fmt.Sprintf("lphi:%d", in.nextSeq()))
		g := &Region{Byte: true, N: ln, Name: "phi", Lab: ^uint32(0)}
		own := map[string]bool{}
		for _, v := range vs {
			if v == nil || v.(Str).R == 0 {
				continue
			}
			s := v.(Str)
			rg := regOf(s.R)
			if rg == nil {
				continue
			}
			g.Base = g.Base.or(q(s.R, s.Off, add(s.Off, s.Len)))
			if !rg.Const {
				g.Lab &= rg.Lab
			}
			g.From = unionStr(g.From, rg.From)
			own[rg.Own] = true
		}
		g.Own = strings.Join(sortedKeys(own), "+")
		j.out.reg[id] = g
		j.rseen[id] = true
		return Str{id, cst(0), ln}
	case Slice:
		var R Rid
		same := true
		var hs Sets
		byteR := false
		for _, v := range vs {
			if v == nil || v.(Slice).R == 0 {
				continue
			}
			s := v.(Slice)
			if R == 0 {
				R = s.R
			} else if R != s.R {
				same = false
			}
			if rg := regOf(s.R); rg != nil && rg.Byte {
				byteR = true
				h := q(s.R, s.Off, add(s.Off, s.Len))
				if s.Hint != nil {
					h = h.and(*s.Hint)
				}
				hs = hs.or(h)
			}
		}
		ln := hull(func(v Value) Expr { return v.(Slice).Len })
		cp := hull(func(v Value) Expr { return v.(Slice).Cap })
		nn := hull(func(v Value) Expr { return v.(Slice).NN })
		j.out.cw().addGE(sub(cp, ln))
		if R == 0 {
			return Slice{Len: ln, Cap: cp, NN: nn}
		}
		if same {
			off := hull(func(v Value) Expr { return v.(Slice).Off })
			j.region(R)
			if rg := regOf(R); rg != nil && !rg.SumR {
				if nE := rg.N; true {
					j.out.cw().addGE(sub(nE, add(off, cp)))
				}
			}
			out := Slice{R: R, Off: off, Len: ln, Cap: cp, NN: nn}
			if byteR {
				out.Hint = &hs
			}
			return out
		}
		id := j.phiRegion(key, padTo(vs, j), cp)
		out := Slice{R: id, Off: cst(0), Len: ln, Cap: cp, NN: nn}
		return out
	case Ptr:
		var P *Ptr
		same := true
		for _, v := range vs {
			if v == nil {
				continue
			}
			p := v.(Ptr)
			if p.O == 0 && p.R == 0 {
				continue
			}
			if P == nil {
				P = &p
			} else if P.O != p.O || P.R != p.R || !samePath(P.Path, p.Path) {
				same = false
			}
		}
		nn := hull(func(v Value) Expr { return v.(Ptr).NN })
		if P == nil {
			return Ptr{NN: nn}
		}
		if same {
			j.object(P.O)
			j.region(P.R)
			idx := cst(0)
			if P.R != 0 {
				idx = hull(func(v Value) Expr { return v.(Ptr).Idx })
			}
			return Ptr{O: P.O, R: P.R, Idx: idx, Path: P.Path, NN: nn}
		}
		return j.phiPtr(key, padTo(vs, j), nn)
	case Iface:
		var T types.Type
		known, unk, mixed := false, false, false
		var sub []Value
		for _, v := range vs {
			if v == nil {
				continue
			}
			f := v.(Iface)
			if f.NN.isConst() && f.NN.C == 0 {
				continue
			}
			if f.T == nil {
				unk = true
				continue
			}
			if !known {
				T, known = f.T, true
			} else if !types.Identical(T, f.T) {
				mixed = true
			}
			sub = append(sub, f.V)
		}
		nn := hull(func(v Value) Expr { return v.(Iface).NN })
		if known && !unk && !mixed {
			return Iface{T: T, V: j.loose(key+".v", sub), NN: nn}
		}
		for _, v := range sub {
			j.keep(v)
		}
		return Iface{NN: nn, ID: "mix"}
	case Struct:
		out := make([]Value, len(r.F))
		for f := range r.F {
			var sub []Value
			for _, v := range vs {
				if v != nil && f < len(v.(Struct).F) {
					sub = append(sub, v.(Struct).F[f])
				}
			}
			out[f] = j.loose(fmt.Sprintf("%s.%d", key, f), sub)
		}
		return Struct{out}
	case Tuple:
		out := make(Tuple, len(r))
		for f := range r {
			var sub []Value
			for _, v := range vs {
				if v != nil && f < len(v.(Tuple)) {
					sub = append(sub, v.(Tuple)[f])
				}
			}
			out[f] = j.loose(fmt.Sprintf("%s.%d", key, f), sub)
		}
		return out
	case Arr:
		id := in.rid(fmt.Sprintf("larr:%d", in.nextSeq()))
		rg := regOf(r.R)
		if rg == nil {
			return r
		}
		g := &Region{Byte: rg.Byte, Elem: rg.Elem, N: rg.N, Mut: true, Name: "arr", Lab: ^uint32(0)}
		for _, s := range j.sts {
			if n := s.c.norm(rg.N); n.isConst() && s.reg[r.R] == rg {
				g.N = n // an array has the size of its type
				break
			}
		}
		own := map[string]bool{}
		var sums []Value
		for _, v := range vs {
			if v == nil {
				continue
			}
			x := regOf(v.(Arr).R)
			if x == nil {
				continue
			}
			if x.Byte {
				g.Base = g.Base.or(q(v.(Arr).R, cst(0), x.N))
			} else if s := in.regionSum(j.sts[0], x); s != nil {
				sums = append(sums, s)
			}
			g.Lab &= x.Lab
			own[x.Own] = true
			g.From = unionStr(g.From, x.From)
		}
		g.Own = strings.Join(sortedKeys(own), "+")
		if len(sums) > 0 {
			g.Sum = j.loose(key+".sum", sums)
		}
		j.out.reg[id] = g
		j.rseen[id] = true
		return Arr{id}
	case MapV:
		for _, v := range vs {
			if v != nil && v.(MapV).O != r.O {
				return MapV{O: j.phiMap(key, vs), NN: hull(func(v Value) Expr { return v.(MapV).NN })}
			}
		}
		j.object(r.O)
		return MapV{O: r.O, NN: hull(func(v Value) Expr { return v.(MapV).NN })}
	case TabSel:
		var sub []Value
		for _, v := range vs {
			if v != nil {
				sub = append(sub, in.resolveSel(j.sts[0], v.(TabSel)))
			}
		}
		return j.loose(key, sub)
	}
	for _, v := range vs {
		if v != nil {
			j.keep(v)
		}
	}
	if len(vs) == 1 {
		return v0
	}
	return v0
}

func padTo(vs []Value, j *joiner) []Value {
	// phi helpers index the state list; in loose mode use the first state for all
	if len(vs) <= len(j.sts) {
		return vs
	}
	n := make([]*State, len(vs))
	for i := range n {
		n[i] = j.sts[0]
		if i < len(j.sts) {
			n[i] = j.sts[i]
		}
	}
	j.sts = n
	return vs
}

// finishLoose completes a single-state loose join.
func (j *joiner) finishLoose() {}

// ---- state join ----

type loopInfo struct {
	vars  map[Sym]bool
	widen bool
	iter  int
}

// joinStates merges states. With a loop, sts[0] is the previous head state and
// the result reports whether it grew.
func (in *Interp) joinStates(sts []*State, lp *loopInfo) (*State, bool) {
	if len(sts) == 1 && lp == nil {
		return sts[0], false
	}
	in.stats.Joins++
	for i := range sts {
		if len(sts) > 1 {
			sts[i] = sts[i].clone()
		}
	}
	in.unifyLazy(sts)
	out := newState()
	j := in.newJoiner(out, sts)
	if lp != nil {
		j.vars = lp.vars
		j.first = true
	}
	// frames
	nf := len(sts[0].fr)
	for fi := 0; fi < nf; fi++ {
		f0 := sts[0].fr[fi]
		nfm := &Frame{fn: f0.fn, ctx: f0.ctx, env: map[ssa.Value]Value{}}
		pre := fmt.Sprintf("F%d.", fi)
		if fi == nf-1 {
			pre = "T."
		}
		order := in.prog.envOrder(f0)
		for _, v := range order {
			vs := make([]Value, len(sts))
			ok := true
			for i, s := range sts {
				vs[i] = s.fr[fi].env[v]
				if vs[i] == nil {
					ok = false
				}
			}
			if !ok {
				continue // not defined in every state: dead
			}
			nfm.env[v] = j.val(pre+v.Name(), vs)
		}
		// deferred calls
		nd := len(f0.defers)
		for i := range sts {
			if len(sts[i].fr[fi].defers) < nd {
				nd = len(sts[i].fr[fi].defers)
			}
		}
		for d := 0; d < nd; d++ {
			df := f0.defers[d]
			n := deferred{call: df.call, site: df.site}
			fv := make([]Value, len(sts))
			for i := range sts {
				fv[i] = sts[i].fr[fi].defers[d].fn
			}
			n.fn = j.val(fmt.Sprintf("%sd%d", pre, d), fv)
			for a := range df.args {
				av := make([]Value, len(sts))
				for i := range sts {
					av[i] = sts[i].fr[fi].defers[d].args[a]
				}
				n.args = append(n.args, j.val(fmt.Sprintf("%sd%d.%d", pre, d, a), av))
			}
			nfm.defers = append(nfm.defers, n)
		}
		out.push(nfm)
	}
	gk := map[string]bool{}
	for _, s := range sts {
		for k := range s.gval {
			gk[k] = true
		}
	}
	for _, k := range sortedKeys(gk) {
		vs := make([]Value, len(sts))
		for i, s := range sts {
			vs[i] = s.gval[k]
			if vs[i] == nil && strings.HasPrefix(k, "site:") {
				vs[i] = Int{cst(0)}
			}
		}
		out.gval[k] = j.val("G."+k, vs)
	}
	// ghost flags agree by construction of the groups, otherwise keep them only if equal
	for k, v := range sts[0].ghost {
		same := true
		for _, s := range sts[1:] {
			if s.ghost[k] != v {
				same = false
			}
		}
		if same {
			out.ghost[k] = v
		} else {
			out.ghost[k] = "?"
		}
	}
	for _, s := range sts[1:] {
		for k := range s.ghost {
			if _, ok := sts[0].ghost[k]; !ok {
				out.ghost[k] = "?"
			}
		}
	}
	for _, s := range sts {
		for o, ob := range s.obj {
			if strings.HasPrefix(ob.Own, "global") {
				j.object(o)
			}
		}
	}
	sort.Slice(j.oq, func(a, b int) bool { return j.oq[a] < j.oq[b] })
	// memory
	for len(j.oq) > 0 || len(j.rq) > 0 {
		if len(j.oq) > 0 {
			o := j.oq[0]
			j.oq = j.oq[1:]
			vs := make([]Value, len(sts))
			var ref *Obj
			sum := false
			for i, s := range sts {
				if ob := s.obj[o]; ob != nil {
					vs[i] = ob.V
					if ref == nil {
						ref = ob
					}
					sum = sum || ob.Sum
				}
			}
			if ref == nil {
				continue
			}
			n := *ref
			n.Sum = sum
			j.weak = in.isMessage(n.T)
			if sum {
				n.V = j.loose(fmt.Sprintf("O%d", o), vs)
				if j.first && sts[0].obj[o] == nil {
					j.grow(7)
				}
			} else {
				n.V = j.val(fmt.Sprintf("O%d", o), vs)
			}
			j.weak = false
			out.obj[o] = &n
			continue
		}
		id := j.rq[0]
		j.rq = j.rq[1:]
		j.joinRegion(id)
	}
	j.counts()
	j.numeric(lp)
	if out.c.bot {
		// cannot happen for feasible inputs; fall back to no constraints
		out.c = newCons()
	}
	j.facts()
	// predicates known in all states
	if lp == nil {
		for k, v := range sts[0].pred {
			ok := true
			for _, s := range sts[1:] {
				if w, has := s.pred[k]; !has || w != v {
					ok = false
				}
			}
			if ok {
				out.pred[k] = v
			}
		}
	}
	best := sts[0].trace
	for _, s := range sts[1:] {
		if len(s.trace) < len(best) {
			best = s.trace
		}
	}
	out.trace = best[:len(best):len(best)]
	return out, j.grew
}

// joinRegion joins the content of a region present under the same id.
func (j *joiner) joinRegion(id Rid) {
	in := j.in
	var ref *Region
	n := 0
	for _, s := range j.sts {
		if r := s.reg[id]; r != nil {
			if ref == nil {
				ref = r
			}
			n++
		}
	}
	if ref == nil {
		return
	}
	if ref.Const && ref.KBytes != "" || ref.Const && ref.Byte {
		allConst := true
		for _, s := range j.sts {
			if r := s.reg[id]; r != nil && !r.Const {
				allConst = false
			}
		}
		if allConst {
			j.out.reg[id] = ref
			return
		}
	}
	g := ref.clone()
	g.Facts, g.Cnt, g.Cache = nil, nil, nil
	g.Base = Sets{}
	g.Lab = ^uint32(0)
	g.Const, g.KBytes = false, ""
	g.From = nil
	newVer := n != len(j.sts)
	for i, s := range j.sts {
		r := s.reg[id]
		if r == nil {
			continue
		}
		g.Base = g.Base.or(r.Base)
		g.Lab &= r.Lab
		g.From = unionStr(g.From, r.From)
		if r.Ver != g.Ver {
			newVer = true
		}
		g.SumR = g.SumR || r.SumR
		if j.first && i > 0 {
			if h := j.sts[0].reg[id]; h == nil || !r.Base.subset(h.Base) || h.Lab&^r.Lab != 0 {
				j.grow(8)
			}
		}
	}
	if newVer {
		g.Ver = in.nextSeq()
	}
	j.weak = g.Byte && !g.Mut
	defer func() { j.weak = false }()
	g.N = j.numAll(fmt.Sprintf("R%d.n", id), func(i int) (Expr, bool) {
		if r := j.sts[i].reg[id]; r != nil {
			return r.N, true
		}
		return Expr{}, false
	})
	j.weak = false
	if !g.Byte {
		exact := true
		ln := -1
		var sums []Value
		for _, s := range j.sts {
			r := s.reg[id]
			if r == nil {
				continue
			}
			if r.Exact == nil || (ln >= 0 && ln != len(r.Exact)) {
				exact = false
			}
			ln = len(r.Exact)
		}
		constTab := exact
		if exact {
			for _, s := range j.sts {
				if r := s.reg[id]; r != nil && (ln == 0 || &r.Exact[:1][0] != &ref.Exact[:1][0]) {
					constTab = false
				}
			}
		}
		if constTab && ln > 32 {
			g.Exact = ref.Exact
			for _, e := range ref.Exact {
				if s, ok := e.(Str); ok {
					j.region(s.R)
				}
			}
		} else if exact {
			for e := 0; e < ln; e++ {
				vs := make([]Value, len(j.sts))
				for i, s := range j.sts {
					if r := s.reg[id]; r != nil {
						vs[i] = r.Exact[e]
					}
				}
				g.Exact[e] = j.val(fmt.Sprintf("R%d[%d]", id, e), vs)
			}
		} else {
			g.Exact = nil
			for _, s := range j.sts {
				if r := s.reg[id]; r != nil {
					if v := in.regionSum(s, r); v != nil {
						sums = append(sums, v)
					}
				}
			}
			if len(sums) > 0 {
				// same value object: nothing to do
				same := true
				for _, v := range sums[1:] {
					if !sameVal(v, sums[0]) {
						same = false
					}
				}
				if same && len(sums) == n && j.closed(sums[0]) {
					g.Sum = sums[0]
					j.keep(sums[0])
					j.carry(sums[0])
				} else {
					g.Sum = j.looseMulti(fmt.Sprintf("R%d.sum", id), sums)
					if j.first && !j.sumCovered(id) {
						j.grow(9)
					}
				}
			}
		}
	}
	j.out.reg[id] = g
}

// sameVal is a cheap identity test of values.
func sameVal(a, b Value) bool {
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// closed: the summary mentions no loop-variant symbol.
func (j *joiner) closed(v Value) bool {
	r := &reach{st: j.sts[0], objs: map[Oid]bool{}, regs: map[Rid]bool{}, syms: map[Sym]bool{}}
	r.val(v)
	for s := range r.syms {
		if j.vars != nil && j.vars[s] {
			return false
		}
	}
	return true
}

// carry keeps constraints of the summary's own symbols.
func (j *joiner) carry(v Value) {
	r := &reach{st: j.sts[0], objs: map[Oid]bool{}, regs: map[Rid]bool{}, syms: map[Sym]bool{}}
	r.val(v)
	for s := range r.syms {
		e := sx(s)
		k := "=" + e.key()
		if j.byKey[k] == nil {
			es := make([]Expr, len(j.sts))
			for i := range es {
				es[i] = e
			}
			sl := &slot{key: k, es: es, same: true, out: e}
			j.byKey[k] = sl
			j.slots = append(j.slots, sl)
		}
		if b, ok := j.sts[0].bset[s]; ok {
			j.out.bset[s] = b
		}
	}
}

func (j *joiner) looseMulti(key string, vs []Value) Value { return j.loose(key, vs) }

// sumCovered reports whether the element summaries of later states are covered
// by the first one (same shape and no wider): approximated by a small budget of
// growth steps per region.
func (j *joiner) sumCovered(id Rid) bool {
	h := j.sts[0].reg[id]
	if h == nil || h.Sum == nil {
		return false
	}
	for _, s := range j.sts[1:] {
		r := s.reg[id]
		if r == nil {
			continue
		}
		v := r.Sum
		if r.Exact != nil {
			v = j.in.regionSum(s, r)
		}
		if v != nil && !j.in.covers(j.sts[0], h.Sum, s, v, 0) {
			return false
		}
	}
	return true
}

// covers: every concrete value of b (in sb) is described by a (in sa).
func (in *Interp) covers(sa *State, a Value, sb *State, b Value, depth int) bool {
	if a == nil || b == nil {
		return b == nil
	}
	if kindName(a) != kindName(b) {
		_, op := a.(Opaque)
		return op
	}
	iv := func(x, y Expr) bool {
		al, ah := in.interval(sa, x)
		bl, bh := in.interval(sb, y)
		if al != nil && (bl == nil || bl.Cmp(al) < 0) {
			return false
		}
		if ah != nil && (bh == nil || bh.Cmp(ah) > 0) {
			return false
		}
		return true
	}
	switch x := a.(type) {
	case Int:
		return iv(x.E, b.(Int).E)
	case Bool:
		return x.C.op != cTrue && x.C.op != cFalse || eqCond(x.C, b.(Bool).C)
	case Str:
		y := b.(Str)
		if !iv(x.Len, y.Len) {
			return false
		}
		if y.R == 0 || x.R == y.R {
			return true
		}
		if x.R == 0 {
			return false
		}
		ra, rb := sa.reg[x.R], sb.reg[y.R]
		if ra == nil || rb == nil {
			return false
		}
		return in.query(sb, y.R, y.Off, add(y.Off, y.Len)).subset(in.query(sa, x.R, x.Off, add(x.Off, x.Len))) && (rb.Const || ra.Const || ra.Lab&^rb.Lab == 0)
	case Slice:
		y := b.(Slice)
		if y.R != 0 && x.R != y.R {
			ra := sa.reg[x.R]
			rb := sb.reg[y.R]
			if ra == nil || rb == nil || !ra.SumR || !strings.Contains(ra.Own, rb.Own) {
				return false
			}
			if rb.Byte && !in.query(sb, y.R, y.Off, add(y.Off, y.Len)).subset(ra.Base) {
				return false
			}
		}
		return iv(x.Len, y.Len) && iv(x.Cap, y.Cap) && iv(x.NN, y.NN) && (y.R == 0 || y.R != x.R || iv(x.Off, y.Off))
	case Ptr:
		y := b.(Ptr)
		if !iv(x.NN, y.NN) {
			return false
		}
		if y.O == 0 && y.R == 0 {
			return true
		}
		if x.O == y.O && x.R == y.R && samePath(x.Path, y.Path) {
			return true
		}
		if oa, ob := sa.obj[x.O], sb.obj[y.O]; oa != nil && ob != nil && oa.Sum && oa.Name == "phi" && len(x.Path) == 0 && depth < 4 {
			return in.covers(sa, oa.V, sb, pathGet(ob.V, y.Path), depth+1)
		}
		return false
	case Iface:
		y := b.(Iface)
		if !iv(x.NN, y.NN) {
			return false
		}
		if x.T == nil {
			return x.ID == "mix" || y.T == nil && x.ID == y.ID
		}
		return y.T != nil && types.Identical(x.T, y.T) && in.covers(sa, x.V, sb, y.V, depth)
	case Struct:
		for i := range x.F {
			if !in.covers(sa, x.F[i], sb, b.(Struct).F[i], depth) {
				return false
			}
		}
		return true
	case Arr:
		ra, rb := sa.reg[x.R], sb.reg[b.(Arr).R]
		if x.R == b.(Arr).R {
			return true
		}
		if ra == nil || rb == nil {
			return false
		}
		if ra.Byte {
			return in.query(sb, b.(Arr).R, cst(0), rb.N).subset(in.query(sa, x.R, cst(0), ra.N))
		}
		return in.covers(sa, in.regionSum(sa, ra), sb, in.regionSum(sb, rb), depth)
	case MapV:
		return x.O == b.(MapV).O
	case Opaque:
		return true
	}
	return false
}

// counts joins occurrence-count facts of slices.
func (j *joiner) counts() {
	for id, prs := range j.onR {
		g := j.out.reg[id]
		if g == nil || !g.Byte {
			continue
		}
		ok := true
		for _, s := range j.sts {
			if r := s.reg[id]; r == nil || len(r.Cnt) == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		bytesSeen := map[byte]bool{}
		for _, c := range j.sts[0].reg[id].Cnt {
			bytesSeen[c.B] = true
		}
		done := map[string]bool{}
		for _, pr := range prs {
			for b := 0; b < 256; b++ {
				if !bytesSeen[byte(b)] {
					continue
				}
				key := fmt.Sprintf("%s|%s|%d", pr[0].key, pr[1].key, b)
				if done[key] {
					continue
				}
				done[key] = true
				es := make([]Expr, len(j.sts))
				found := true
				for i, s := range j.sts {
					lo := pr[0].es[i]
					hi := add(lo, pr[1].es[i])
					f := false
					for _, c := range s.reg[id].Cnt {
						if c.B == byte(b) && s.c.entailsEQ(sub(c.Lo, lo)) && s.c.entailsEQ(sub(c.Hi, hi)) {
							es[i] = c.N
							f = true
							break
						}
					}
					if !f {
						found = false
						break
					}
				}
				if !found {
					continue
				}
				n := j.num(fmt.Sprintf("cnt%d", id), es, nil)
				g.Cnt = append(g.Cnt, CntFact{pr[0].out, add(pr[0].out, pr[1].out), byte(b), n})
			}
		}
		if j.first && len(g.Cnt) < len(j.sts[0].reg[id].Cnt) {
			// facts were lost; not a growth of the numeric part by itself
			_ = id
		}
	}
}

// numeric computes the constraints of the joined state.
func (j *joiner) numeric(lp *loopInfo) {
	in := j.in
	n := len(j.sts)
	var phis, weak []*slot
	keep := map[Sym]bool{}
	for _, s := range j.slots {
		if s.same {
			for _, t := range s.out.T {
				if j.vars == nil || !j.vars[t.S] {
					keep[t.S] = true
				}
			}
			continue
		}
		if s.weak {
			weak = append(weak, s)
			continue
		}
		phis = append(phis, s)
	}
	// symbols referenced by the (loose) output are already constrained in out.c
	pre := j.out.c
	base := newCons()
	// per-state stores extended with phi definitions
	cs := make([]*Cons, n)
	for i, s := range j.sts {
		c := s.c.clone()
		for _, p := range phis {
			if p.has != nil && !p.has[i] {
				continue
			}
			c.addEQ(sub(sx(p.sym), p.es[i]))
		}
		cs[i] = c
	}
	if lp != nil {
		for _, p := range phis {
			lp.vars[p.sym] = true
		}
		for _, p := range weak {
			lp.vars[p.sym] = true
		}
	}
	isPhi := map[Sym]*slot{}
	for _, p := range phis {
		isPhi[p.sym] = p
	}
	keepf := func(s Sym) bool {
		if isPhi[s] != nil {
			return true
		}
		if j.vars != nil && j.vars[s] {
			return false
		}
		return keep[s]
	}
	// grow the kept set by common symbols that relate kept ones (region sizes and the like)
	common := map[Sym]int{}
	for _, s := range j.sts {
		m := map[Sym]bool{}
		s.c.symsOf(m)
		for x := range m {
			common[x]++
		}
	}
	// equalities: affine hull
	var full []*slot
	for _, p := range phis {
		if p.has == nil {
			full = append(full, p)
		}
	}
	for _, e := range in.karr(j, full) {
		base.addEQ(e)
	}
	// equalities common to all states over kept symbols
	proj := make([]*Cons, n)
	for i := range cs {
		p := cs[i].clone()
		p.project(keepf)
		proj[i] = p
	}
	try := func(e Expr, skip int) {
		for i := range cs {
			if i == skip {
				continue
			}
			// a slot missing in a state does not constrain
			miss := false
			for _, t := range e.T {
				if p := isPhi[t.S]; p != nil && p.has != nil && !p.has[i] {
					miss = true
				}
			}
			if miss {
				continue
			}
			if !cs[i].entailsGE(e) {
				return
			}
		}
		base.addGE(e)
	}
	cand := func(i int) {
		for _, s := range sortedSyms(proj[i].eq) {
			e := sub(sx(s), proj[i].eq[s])
			try(e, i)
			try(neg(e), i)
		}
		for _, e := range proj[i].ineq {
			try(e, i)
		}
	}
	widen := lp != nil && lp.widen
	if widen {
		cand(0)
		// thresholds
		for _, p := range phis {
			for _, t := range []int64{-1, 0, 1} {
				try(addc(sx(p.sym), -t), -1)
			}
		}
	} else {
		for i := range cs {
			cand(i)
		}
		// template bounds
		bound := func(e Expr) {
			lo, ok := int64(0), true
			firstS := true
			for i := range cs {
				miss := false
				for _, t := range e.T {
					if p := isPhi[t.S]; p != nil && p.has != nil && !p.has[i] {
						miss = true
					}
				}
				if miss {
					continue
				}
				v, k := cs[i].minimum(e)
				if !k || v == math.MaxInt64 {
					if k && v == math.MaxInt64 {
						continue
					}
					ok = false
					break
				}
				if firstS || v < lo {
					lo = v
					firstS = false
				}
			}
			if ok && !firstS && lo > -coefMax && lo < coefMax {
				base.addGE(addc(e, -lo))
			}
		}
		for _, p := range phis {
			bound(sx(p.sym))
			bound(neg(sx(p.sym)))
		}
		// slices are inside their memory
		for _, pr := range j.caps {
			bound(sub(pr[1].out, pr[0].out))
		}
		if len(phis) <= 10 {
			for a := 0; a < len(phis); a++ {
				for b := a + 1; b < len(phis); b++ {
					d := sub(sx(phis[a].sym), sx(phis[b].sym))
					bound(d)
					bound(neg(d))
				}
			}
		}
		// against common symbols mentioned near the phi values
		near := map[Sym]bool{}
		for _, p := range phis {
			for i := range cs {
				if p.has != nil && !p.has[i] {
					continue
				}
				for _, t := range p.es[i].T {
					if keepf(t.S) && isPhi[t.S] == nil {
						near[t.S] = true
					}
				}
				for _, q := range j.sts[i].c.ineq {
					hit := false
					for _, t := range q.T {
						if p.es[i].coef(t.S) != 0 {
							hit = true
						}
					}
					if hit {
						for _, t := range q.T {
							if keepf(t.S) && isPhi[t.S] == nil {
								near[t.S] = true
							}
						}
					}
				}
			}
		}
		// symbols whose own bounds differ between the states
		differ := map[Sym]bool{}
		for i := range cs {
			for _, q := range j.sts[i].c.ineq {
				for _, t := range q.T {
					if len(q.T) <= 2 && keepf(t.S) && isPhi[t.S] == nil && !near[t.S] {
						differ[t.S] = true
					}
				}
			}
		}
		if len(phis) > 0 {
			for _, s := range sortedSymSet(differ) {
				if len(near) > 12 {
					break
				}
				l0, k0 := cs[0].minimum(sx(s))
				h0, m0 := cs[0].maximum(sx(s))
				for i := 1; i < n; i++ {
					l, k := cs[i].minimum(sx(s))
					h, m := cs[i].maximum(sx(s))
					if k != k0 || l != l0 || m != m0 || h != h0 {
						near[s] = true
						break
					}
				}
			}
		}
		ns := sortedSymSet(near)
		if len(ns) > 12 {
			ns = ns[:12]
		}
		for _, p := range phis {
			for _, s := range ns {
				d := sub(sx(p.sym), sx(s))
				bound(d)
				bound(neg(d))
			}
		}
		// slice validity: offset+length against the region size
		for id, prs := range j.onR {
			g := j.out.reg[id]
			if g == nil {
				continue
			}
			for _, pr := range prs {
				if pr[0].same && pr[1].same {
					continue
				}
				end := add(pr[0].out, pr[1].out)
				bound(sub(g.N, end))
				for _, pq := range prs {
					e2 := add(pq[0].out, pq[1].out)
					if !eqExpr(e2, end) {
						bound(sub(e2, end))
						bound(sub(end, e2))
					}
				}
			}
		}
	}
	// bounds of the weak slots
	for _, p := range weak {
		for _, sgn := range []int64{1, -1} {
			var lo, first int64
			ok, got := true, false
			firstOK := false
			for i := range j.sts {
				if p.has != nil && !p.has[i] {
					continue
				}
				v, k := j.sts[i].c.minimum(scale(p.es[i], sgn))
				if k && v == math.MaxInt64 {
					continue
				}
				if i == 0 {
					first, firstOK = v, k
				}
				if !k {
					ok = false
					break
				}
				if !got || v < lo {
					lo, got = v, true
				}
			}
			if lp != nil && firstOK && (!ok || !got || lo < first) {
				j.grow(10)
				if ok && got && widen {
					// next threshold
					switch {
					case lo >= 0:
						lo = 0
					case lo >= -1:
						lo = -1
					case lo >= -255:
						lo = -255
					case lo >= -lenMax:
						lo = -lenMax
					default:
						ok = false
					}
				}
			}
			if ok && got && lo > -coefMax && lo < coefMax {
				base.addGE(addc(scale(sx(p.sym), sgn), -lo))
			}
		}
		if lp != nil && !j.grew && !j.mentionsVarPrev(p.es[0], lp, p) {
			j.grow(11)
		}
	}
	if debug && lp != nil {
		fmt.Println("NUMERIC widen", widen, "iter", lp.iter)
		for i := range cs {
			fmt.Println("  state", i)
			for _, p := range phis {
				fmt.Println("    phi", p.key, in.syms.str(sx(p.sym)), "=", in.syms.str(p.es[i]), "norm", in.syms.str(cs[i].norm(p.es[i])))
			}
			for _, e := range cs[i].ineq {
				fmt.Println("     ", in.syms.str(e))
			}
		}
		fmt.Println("  result")
		for _, e := range base.ineq {
			fmt.Println("     ", in.syms.str(e))
		}
	}
	// keep loose constraints
	for s, e := range pre.eq {
		base.addEQ(sub(sx(s), e))
	}
	for _, e := range pre.ineq {
		base.addGE(e)
	}
	// disequalities known in all states
	for _, e := range proj[0].neq {
		ok := true
		for i := 1; i < n; i++ {
			if !cs[i].entailsNE(e) {
				ok = false
			}
		}
		if ok {
			base.addNE(e)
		}
	}
	base.prune()
	j.out.c = base
	j.out.cOwn = true
	// byte sets
	phis = append(phis, weak...)
	for _, p := range phis {
		if p.isB {
			j.out.bset[p.sym] = p.set
		}
		in.hullInfo(j, p)
	}
	for s := range keep {
		var set ByteSet
		ok := true
		for _, st := range j.sts {
			b, has := st.bset[s]
			if !has {
				ok = false
				break
			}
			set = set.or(b)
		}
		if ok {
			j.out.bset[s] = set
		}
	}
	// growth test against the previous head
	if lp != nil {
		h := cs[0]
		_ = h
		if !j.grew {
			// new variation: a slot constant in the head but not now
			for _, p := range phis {
				if !j.mentionsVarPrev(p.es[0], lp, p) {
					j.grow(12)
					break
				}
			}
		}
		if !j.grew {
			for _, s := range sortedSyms(proj[0].eq) {
				e := sub(sx(s), proj[0].eq[s])
				if !base.entailsEQ(e) {
					j.grow(13)
					break
				}
			}
		}
		if !j.grew {
			for _, e := range proj[0].ineq {
				if !base.entailsGE(e) {
					j.grow(14)
					break
				}
			}
		}
		if !j.grew {
			for _, p := range phis {
				if p.isB && len(p.es[0].T) == 1 {
					if b, ok := j.sts[0].bset[p.es[0].T[0].S]; ok && !p.set.subset(b) {
						j.grow(15)
					}
				} else if len(p.es[0].T) == 1 {
					if _, ok := j.sts[0].bset[p.es[0].T[0].S]; ok {
						j.grow(16)
					}
				}
			}
			for s := range keep {
				if b, ok := j.sts[0].bset[s]; ok {
					if b2, ok2 := j.out.bset[s]; !ok2 || !b2.subset(b) {
						j.grow(17)
					}
				}
			}
		}
	}
}

// mentionsVarPrev: the head's value of the slot is already a loop variable.
func (j *joiner) mentionsVarPrev(e Expr, lp *loopInfo, p *slot) bool {
	for _, t := range e.T {
		if lp.vars[t.S] {
			return true
		}
	}
	return false
}

func (in *Interp) hullInfo(j *joiner, p *slot) {
	var lo, hi *big.Int
	lok, hok := true, true
	for i, e := range p.es {
		if p.has != nil && !p.has[i] {
			continue
		}
		l, h := in.typeBounds(e)
		if l == nil {
			lok = false
		} else if lo == nil || l.Cmp(lo) < 0 {
			lo = l
		}
		if h == nil {
			hok = false
		} else if hi == nil || h.Cmp(hi) > 0 {
			hi = h
		}
	}
	info := &in.syms.info[p.sym]
	if lok {
		info.lo = lo
	}
	if hok {
		info.hi = hi
	}
}

// typeBounds evaluates e with the type ranges of its symbols.
func (in *Interp) typeBounds(e Expr) (*big.Int, *big.Int) {
	lo, hi := big.NewInt(e.C), big.NewInt(e.C)
	for _, t := range e.T {
		sl, sh := in.syms.info[t.S].lo, in.syms.info[t.S].hi
		k := big.NewInt(t.K)
		if t.K < 0 {
			sl, sh = sh, sl
		}
		if lo != nil && sl != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(k, sl))
		} else {
			lo = nil
		}
		if hi != nil && sh != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(k, sh))
		} else {
			hi = nil
		}
	}
	return lo, hi
}

func sortedSyms(m map[Sym]Expr) []Sym {
	out := make([]Sym, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

func sortedSymSet(m map[Sym]bool) []Sym {
	out := make([]Sym, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

// karr computes affine equalities between phi symbols valid in all states.
func (in *Interp) karr(j *joiner, phis []*slot) []Expr {
	n := len(phis)
	if n == 0 || n > 40 {
		return nil
	}
	// columns
	type col struct {
		state int // -1: difference column
		other int
		s     Sym // 0: constant
	}
	cols := map[col]int{}
	rows := make([]map[int]int64, n)
	colIdx := func(c col) int {
		if i, ok := cols[c]; ok {
			return i
		}
		cols[c] = len(cols)
		return len(cols) - 1
	}
	bad := func(s Sym) bool { return j.vars != nil && j.vars[s] }
	for r, p := range phis {
		row := map[int]int64{}
		e0 := p.es[0]
		for k := 1; k < len(j.sts); k++ {
			d, ok := addScaled(e0, -1, p.es[k])
			if !ok {
				return nil
			}
			// difference on shared symbols; exclusive parts must vanish on their own
			row[colIdx(col{-1, k, 0})] += d.C
			for _, t := range d.T {
				if !bad(t.S) {
					row[colIdx(col{-1, k, t.S})] += t.K
				}
			}
		}
		for k := 0; k < len(j.sts); k++ {
			for _, t := range p.es[k].T {
				if bad(t.S) {
					row[colIdx(col{k, 0, t.S})] += t.K
				}
			}
		}
		rows[r] = row
	}
	m := len(cols)
	// nullspace of rows^T: find a with sum a_r*rows[r] = 0; eliminate with identity
	mat := make([][]*big.Rat, n)
	for r := range mat {
		mat[r] = make([]*big.Rat, m+n)
		for c := range mat[r] {
			mat[r][c] = new(big.Rat)
		}
		for c, v := range rows[r] {
			mat[r][c].SetInt64(v)
		}
		mat[r][m+r].SetInt64(1)
	}
	used := make([]bool, n)
	for c := 0; c < m; c++ {
		p := -1
		for r := n - 1; r >= 0; r-- {
			if !used[r] && mat[r][c].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			continue
		}
		used[p] = true
		for r := 0; r < n; r++ {
			if r == p || used[r] || mat[r][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Quo(mat[r][c], mat[p][c])
			for k := range mat[r] {
				if mat[p][k].Sign() != 0 {
					mat[r][k].Sub(mat[r][k], new(big.Rat).Mul(f, mat[p][k]))
				}
			}
		}
	}
	var out []Expr
	for r := 0; r < n; r++ {
		if used[r] {
			continue
		}
		// relation: sum a_k phi_k = sum a_k e_k^0
		den := big.NewInt(1)
		for k := 0; k < n; k++ {
			a := mat[r][m+k]
			if a.Sign() != 0 {
				d := a.Denom()
				g := new(big.Int).GCD(nil, nil, den, d)
				den = new(big.Int).Mul(den, new(big.Int).Quo(d, g))
			}
		}
		if !den.IsInt64() || den.Int64() > 1000 {
			continue
		}
		e := cst(0)
		ok := true
		for k := 0; k < n && ok; k++ {
			a := new(big.Rat).Mul(mat[r][m+k], new(big.Rat).SetInt(den))
			if a.Sign() == 0 {
				continue
			}
			if !a.IsInt() || !a.Num().IsInt64() {
				ok = false
				break
			}
			v := a.Num().Int64()
			if e, ok = addScaled(e, v, sx(phis[k].sym)); !ok {
				break
			}
			e, ok = addScaled(e, -v, phis[k].es[0])
		}
		if ok && !j.mentionsVarNonPhi(e, phis) {
			out = append(out, e)
		}
	}
	return out
}

func (j *joiner) mentionsVarNonPhi(e Expr, phis []*slot) bool {
	if j.vars == nil {
		return false
	}
	for _, t := range e.T {
		if !j.vars[t.S] {
			continue
		}
		isP := false
		for _, p := range phis {
			if p.sym == t.S {
				isP = true
			}
		}
		if !isP {
			return true
		}
	}
	return false
}

// facts rebuilds byte facts of regions from anchors.
func (j *joiner) facts() {
	in := j.in
	ids := make([]int, 0, len(j.out.reg))
	for id := range j.out.reg {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, ii := range ids {
		id := Rid(ii)
		g := j.out.reg[id]
		if !g.Byte || g.Const || g.SumR {
			continue
		}
		has := false
		for _, s := range j.sts {
			if r := s.reg[id]; r != nil && len(r.Facts) > 0 {
				has = true
			}
		}
		if !has {
			continue
		}
		type anchor struct {
			out Expr
			es  []Expr
		}
		var as []anchor
		seen := map[string]bool{}
		addA := func(out Expr, es []Expr) {
			k := out.key()
			if seen[k] || len(as) > 18 {
				return
			}
			seen[k] = true
			as = append(as, anchor{out, es})
		}
		constE := func(e Expr) []Expr {
			es := make([]Expr, len(j.sts))
			for i := range es {
				es[i] = e
			}
			return es
		}
		addA(cst(0), constE(cst(0)))
		ns := make([]Expr, len(j.sts))
		okN := true
		for i, s := range j.sts {
			if r := s.reg[id]; r != nil {
				ns[i] = r.N
			} else {
				okN = false
			}
		}
		if okN {
			addA(g.N, ns)
			addA(addc(g.N, -1), mapE(ns, -1))
		}
		for _, pr := range j.onR[id] {
			if pr[0].has != nil || pr[1].has != nil {
				continue
			}
			addA(pr[0].out, pr[0].es)
			es := make([]Expr, len(j.sts))
			for i := range es {
				es[i] = add(pr[0].es[i], pr[1].es[i])
			}
			addA(add(pr[0].out, pr[1].out), es)
		}
		for _, s := range j.slots {
			if s.env && s.has == nil {
				addA(s.out, s.es)
			}
		}
		// positions of a loop variable within a slice
		for _, pr := range j.onR[id] {
			if pr[0].has != nil || g.Own == "new" || pr[0].out.isConst() && pr[0].out.C == 0 {
				continue
			}
			for _, s := range j.slots {
				if s.env && s.has == nil && !s.out.isConst() && len(as) < 18 {
					es := make([]Expr, len(j.sts))
					for i := range es {
						es[i] = addc(add(pr[0].es[i], s.es[i]), 1)
					}
					addA(addc(add(pr[0].out, s.out), 1), es)
				}
			}
		}
		// endpoints of facts that mention no loop variable
		for _, s := range j.sts {
			if r := s.reg[id]; r != nil {
				for _, f := range r.Facts {
					for _, e := range []Expr{f.Lo, f.Hi} {
						e = s.c.norm(e)
						if !j.mentionsVar(e) && len(e.T) <= 1 {
							addA(e, constE(e))
						}
					}
				}
			}
		}
		w := g
		for a := range as {
			for b := range as {
				if a == b {
					continue
				}
				if as[a].out.isConst() && as[b].out.isConst() && as[a].out.C >= as[b].out.C {
					continue
				}
				var set Sets
				useful := false
				ok := true
				for i, s := range j.sts {
					if s.reg[id] == nil {
						continue
					}
					q, covered := in.query2(s, id, as[a].es[i], as[b].es[i])
					if !covered {
						ok = false
						break
					}
					if q != (Sets{}) {
						useful = true
					}
					set = set.or(q)
				}
				if !ok || !useful || g.Base.subset(set) {
					continue
				}
				if n, ok := in.query2(j.out, id, as[a].out, as[b].out); ok && n.subset(set) {
					continue
				}
				w.Facts = append(w.Facts, Fact{as[a].out, as[b].out, set.and(g.Base)})
				if len(w.Facts) > 60 {
					break
				}
			}
		}
		if j.first && !j.grew {
			// every fact of the previous head (between anchors) must survive
			h := j.sts[0].reg[id]
			if h == nil {
				j.grow(18)
				continue
			}
			for a := range as {
				for b := range as {
					if a == b {
						continue
					}
					q, covered := in.query2(j.sts[0], id, as[a].es[0], as[b].es[0])
					if !covered || h.Base.subset(q) {
						continue
					}
					n := in.query(j.out, id, as[a].out, as[b].out)
					if !n.subset(q) {
						j.grow(19)
					}
				}
			}
		}
	}
}

func mapE(es []Expr, d int64) []Expr {
	out := make([]Expr, len(es))
	for i := range es {
		out[i] = addc(es[i], d)
	}
	return out
}

// isMessage: the type is a protocol message, whose numbers are not related to
// the control of the program.
func (in *Interp) isMessage(t types.Type) bool {
	if t == nil || in.opts.StrongMsg {
		return false
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if b, ok := in.msgTypes[n]; ok {
		return b
	}
	b := false
	if _, isS := n.Underlying().(*types.Struct); isS && n.Obj().Pkg() != nil && in.prog.isModPath(n.Obj().Pkg().Path()) {
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "UnmarshalNMDC", "UnmarshalADC", "MarshalNMDC", "MarshalADC":
				b = true
			}
		}
	}
	if in.msgTypes == nil {
		in.msgTypes = map[*types.Named]bool{}
	}
	in.msgTypes[n] = b
	return b
}

// grow notes that the join is larger than the previous loop head.
func (j *joiner) grow(why int) {
	if debug && !j.grew && j.first {
		fmt.Println("GROW", why)
	}
	j.grew = true
}

// phiMap makes a map standing for one of several maps.
func (j *joiner) phiMap(key string, vs []Value) Oid {
	in := j.in
	id := in.oid(fmt.Sprintf("phimap:%d", in.nextSeq()))
	type ent struct {
		st *State
		m  *MapContent
	}
	var kk, ee []Value
	own := map[string]bool{}
	var head *ent
	var rest []ent
	for i, v := range vs {
		if v == nil || v.(MapV).O == 0 {
			continue
		}
		o := v.(MapV).O
		for k, s := range j.sts {
			if !j.sl && len(vs) == len(j.sts) && k != i {
				continue
			}
			ob := s.obj[o]
			if ob == nil {
				continue
			}
			m, ok := ob.V.(*MapContent)
			if !ok {
				continue
			}
			for _, w := range strings.Split(ob.Own, "+") {
				own[w] = true
			}
			e := ent{s, m}
			if i == 0 && k == 0 && strings.HasPrefix(in.onames[o], "phimap:") {
				head = &e
			} else {
				rest = append(rest, e)
			}
			for _, x := range sortedKeys(m.Exact) {
				kk, ee = append(kk, m.Keys[x]), append(ee, m.Exact[x])
			}
			if m.KSum != nil {
				kk, ee = append(kk, m.KSum), append(ee, m.ESum)
			}
		}
	}
	if j.first {
		ok := head != nil
		for _, e := range rest {
			if !ok {
				break
			}
			for _, x := range sortedKeys(e.m.Exact) {
				ok = ok && head.m.KSum != nil && in.covers(head.st, head.m.KSum, e.st, e.m.Keys[x], 0) && in.covers(head.st, head.m.ESum, e.st, e.m.Exact[x], 0)
			}
			if e.m.KSum != nil {
				ok = ok && head.m.KSum != nil && in.covers(head.st, head.m.KSum, e.st, e.m.KSum, 0) && in.covers(head.st, head.m.ESum, e.st, e.m.ESum, 0)
			}
		}
		if !ok {
			j.grow(20)
		}
	}
	c := &MapContent{}
	if len(kk) > 0 {
		c.KSum, c.ESum = j.loose(key+".k", kk), j.loose(key+".e", ee)
	}
	c.N = sx(in.syms.fresh("mapn"))
	j.out.cw().addGE(c.N)
	j.out.obj[id] = &Obj{V: c, Own: strings.Join(sortedKeys(own), "+"), Sum: true}
	j.oseen[id] = true
	return id
}
