package main

// Operations of the abstract state: symbols, memory, refinement.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Interp is one analysis run.
type Interp struct {
	lazyCtxs  map[Rid]nameCtx
	prog      *Program
	syms      *symTab
	oids      map[string]Oid
	onames    []string
	rids      map[string]Rid
	rnames    []string
	consts    map[string]Rid
	deriv     map[Sym]derived
	org       map[Sym]origin
	mon       Monitor
	muted     int
	depth     int
	seq       int
	steps     int
	limit     int
	opts      Options
	errs      map[string]bool // analysis gaps
	gaps      []string
	curFn     []string
	stats     Stats
	globals   *State // state after package initialisation
	initing   bool
	gobjs     map[*ssa.Global]Oid
	callStack []*ssa.Function
	lazies    map[Oid]lazyObj
	symLab    map[Sym][nLab]bool
	deadline  int
	ctxs      map[string]string
	externs   map[string]bool
	hook      func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool)
	track     func(st *State, at ssa.Instruction, kind string, args []Value) // every event
	after     func(e exit, at ssa.Instruction, c *ssa.CallCommon) []exit     // every call that returned
	rootExit  func(e exit)                                                   // exits of entry points
	source    func(m *mcall, r Value, s Slice) ([]exit, bool)                // what a reader returns
	contract  func(m *mcall, c *ssa.CallCommon, r Iface) ([]exit, bool)
	labBits   map[string]uint32
	msgTypes  map[*types.Named]bool
	onReturn  func(act *activation, st *State, x *ssa.Return, ret Value)
}

type Stats struct {
	Funcs  map[string]bool
	Calls  int
	Instrs int
	Joins  int
	Loops  int
	Local  int
}

type derived struct {
	src Sym
	tab [256]byte
}

type origin struct {
	r   Rid
	idx Expr
	ver int
	wid Expr // bytes covered
}

// Options of a run.
type Options struct {
	MaxStates int
	Text      bool // label bytes of text
	Nullable  func(name string, t types.Type) bool
	Nullable2 func(name string, t types.Type, depth int) bool
	FieldSets func(t types.Type, owner types.Type, field *types.Var) (Sets, bool)
	MaxUnroll int
	MaxHeads  int
	ErrIDs    bool // known errors keep states apart
	Soft      int
	ExitMerge int
	Fork      bool // keep wrapped results apart
	StrongMsg bool // relate the numbers of messages
	NoLocal   bool // interpret callees in the whole state
}

func newInterp(p *Program) *Interp {
	return &Interp{
		prog: p, syms: newSymTab(), oids: map[string]Oid{}, onames: []string{""}, rids: map[string]Rid{}, rnames: []string{""},
		consts: map[string]Rid{}, deriv: map[Sym]derived{}, org: map[Sym]origin{}, errs: map[string]bool{}, limit: 3000000,
		opts: Options{MaxStates: 24, MaxUnroll: 40, MaxHeads: 6, Soft: 6, ExitMerge: 1}, stats: Stats{Funcs: map[string]bool{}}, gobjs: map[*ssa.Global]Oid{}, lazies: map[Oid]lazyObj{}, symLab: map[Sym][nLab]bool{}, lazyCtxs: map[Rid]nameCtx{},
	}
}

func (in *Interp) oid(name string) Oid {
	if o, ok := in.oids[name]; ok {
		return o
	}
	in.onames = append(in.onames, name)
	o := Oid(len(in.onames) - 1)
	in.oids[name] = o
	return o
}

func (in *Interp) rid(name string) Rid {
	if o, ok := in.rids[name]; ok {
		return o
	}
	in.rnames = append(in.rnames, name)
	o := Rid(len(in.rnames) - 1)
	in.rids[name] = o
	return o
}

func (in *Interp) gap(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if !in.errs[s] {
		in.errs[s] = true
		in.gaps = append(in.gaps, s)
	}
}

// ---- numeric types ----

func intRange(t types.Type) (lo, hi *big.Int, bits int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return nil, nil, 0, false
	}
	one := big.NewInt(1)
	mk := func(bits uint, signed bool) (*big.Int, *big.Int) {
		if signed {
			h := new(big.Int).Lsh(one, bits-1)
			l := new(big.Int).Neg(h)
			return l, new(big.Int).Sub(h, one)
		}
		h := new(big.Int).Lsh(one, bits)
		return big.NewInt(0), new(big.Int).Sub(h, one)
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		lo, hi = mk(64, true)
		return lo, hi, 64, true
	case types.Int32:
		lo, hi = mk(32, true)
		return lo, hi, 32, true
	case types.Int16:
		lo, hi = mk(16, true)
		return lo, hi, 16, true
	case types.Int8:
		lo, hi = mk(8, true)
		return lo, hi, 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		lo, hi = mk(64, false)
		return lo, hi, 64, true
	case types.Uint32:
		lo, hi = mk(32, false)
		return lo, hi, 32, true
	case types.Uint16:
		lo, hi = mk(16, false)
		return lo, hi, 16, true
	case types.Uint8:
		lo, hi = mk(8, false)
		return lo, hi, 8, true
	}
	return nil, nil, 0, false
}

const lenMax = int64(1) << 47 // no object is larger than the address space
const argMax = int64(1) << 40 // no single string or slice given to the module is larger

// freshInt makes an unknown integer of the type.
func (in *Interp) freshInt(st *State, name string, t types.Type) Int {
	s := in.syms.fresh(name)
	in.constrainType(st, s, t)
	return Int{sx(s)}
}

func (in *Interp) constrainType(st *State, s Sym, t types.Type) {
	lo, hi, bits, ok := intRange(t)
	if !ok {
		return
	}
	in.syms.info[s].lo, in.syms.info[s].hi = lo, hi
	if bits == 8 && lo.Sign() == 0 {
		st.bset[s] = allBytes
	}
	c := st.cw()
	if lo.IsInt64() && lo.Int64() > -coefMax {
		c.addGE(addc(sx(s), -lo.Int64()))
	}
	if hi.IsInt64() && hi.Int64() < coefMax {
		c.addGE(addc(neg(sx(s)), hi.Int64()))
	}
}

// namedInt makes the initial value of a location.
func (in *Interp) namedInt(st *State, name string, t types.Type) Int {
	s, _ := in.syms.named(name)
	if _, ok := st.bset[s]; !ok {
		in.constrainType(st, s, t)
	}
	return Int{sx(s)}
}

func (in *Interp) freshRange(st *State, name string, lo, hi int64) Expr {
	s := in.syms.fresh(name)
	c := st.cw()
	if lo > -coefMax {
		c.addGE(addc(sx(s), -lo))
	}
	if hi < coefMax {
		c.addGE(addc(neg(sx(s)), hi))
	}
	in.syms.info[s].lo, in.syms.info[s].hi = big.NewInt(lo), big.NewInt(hi)
	return sx(s)
}

func (in *Interp) namedRange(st *State, name string, lo, hi int64) Expr {
	s, _ := in.syms.named(name)
	c := st.cw()
	c.addGE(addc(sx(s), -lo))
	c.addGE(addc(neg(sx(s)), hi))
	in.syms.info[s].lo, in.syms.info[s].hi = big.NewInt(lo), big.NewInt(hi)
	return sx(s)
}

func (in *Interp) freshNN(st *State, name string) Expr { return in.freshRange(st, name, 0, 1) }

// interval computes bounds of an expression; nil means unbounded.
func (in *Interp) interval(st *State, e Expr) (lo, hi *big.Int) {
	e = st.c.norm(e)
	if e.isConst() {
		return big.NewInt(e.C), big.NewInt(e.C)
	}
	if l, ok := st.c.minimum(e); ok && l > math.MinInt64/2 {
		lo = big.NewInt(l)
	}
	if h, ok := st.c.maximum(e); ok && h < math.MaxInt64/2 {
		hi = big.NewInt(h)
	}
	if lo == nil || hi == nil {
		l2, h2 := big.NewInt(e.C), big.NewInt(e.C)
		for _, t := range e.T {
			var sl, sh *big.Int
			if v, ok := st.c.minimum(sx(t.S)); ok {
				sl = big.NewInt(v)
			} else {
				sl = in.syms.info[t.S].lo
			}
			if v, ok := st.c.maximum(sx(t.S)); ok {
				sh = big.NewInt(v)
			} else {
				sh = in.syms.info[t.S].hi
			}
			k := big.NewInt(t.K)
			if t.K < 0 {
				sl, sh = sh, sl
			}
			if l2 != nil && sl != nil {
				l2 = new(big.Int).Add(l2, new(big.Int).Mul(k, sl))
			} else {
				l2 = nil
			}
			if h2 != nil && sh != nil {
				h2 = new(big.Int).Add(h2, new(big.Int).Mul(k, sh))
			} else {
				h2 = nil
			}
		}
		if lo == nil {
			lo = l2
		}
		if hi == nil {
			hi = h2
		}
	}
	return
}

func (in *Interp) fits(st *State, e Expr, t types.Type) bool {
	lo, hi, _, ok := intRange(t)
	if !ok {
		return false
	}
	// quick exact checks against small bounds
	if lo.IsInt64() && hi.IsInt64() {
		lok, hok := false, false
		if lo.Int64() > -coefMax {
			lok = st.c.entailsGE(addc(e, -lo.Int64()))
		}
		if hi.Int64() < coefMax {
			hok = st.c.entailsGE(addc(neg(e), hi.Int64()))
		}
		if lok && hok {
			return true
		}
	}
	l, h := in.interval(st, e)
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

func (in *Interp) wrappedFlag(e Expr) bool {
	for _, t := range e.T {
		if in.syms.info[t.S].flag&symWrapped != 0 {
			return true
		}
	}
	return false
}

// byteSetOf returns the possible values of a byte-valued expression.
func (in *Interp) byteSetOf(st *State, e Expr) ByteSet {
	e = st.c.norm(e)
	if e.isConst() {
		if e.C >= 0 && e.C < 256 {
			return setOf(byte(e.C))
		}
		return allBytes
	}
	if len(e.T) == 1 {
		if bs, ok := st.bset[e.T[0].S]; ok && (e.T[0].K == 1) {
			var out ByteSet
			for i := 0; i < 256; i++ {
				if bs.has(byte(i)) {
					v := int64(i) + e.C
					if v >= 0 && v < 256 {
						out.add(byte(v))
					}
				}
			}
			return out
		}
	}
	lo, hi := 0, 255
	if l, ok := st.c.minimum(e); ok && l > 0 && l < 256 {
		lo = int(l)
	}
	if h, ok := st.c.maximum(e); ok && h >= 0 && h < 255 {
		hi = int(h)
	}
	var out ByteSet
	for i := lo; i <= hi; i++ {
		out.add(byte(i))
	}
	return out
}

// ---- regions ----

func (in *Interp) constStr(st *State, s string) Str {
	key := "const:" + s
	r, ok := in.consts[key]
	if !ok {
		in.rnames = append(in.rnames, fmt.Sprintf("%q", s))
		r = Rid(len(in.rnames) - 1)
		in.consts[key] = r
	}
	if _, ok := st.reg[r]; !ok {
		st.reg[r] = &Region{Byte: true, N: cst(int64(len(s))), Const: true, KBytes: s, Base: plain(setOfString(s)), Own: "const", Name: in.rnames[r]}
	}
	return Str{r, cst(0), cst(int64(len(s)))}
}

// constOf returns the constant content of a string if known.
func (in *Interp) constOf(st *State, v Str) (string, bool) {
	if v.R == 0 {
		return "", true
	}
	ln := st.c.norm(v.Len)
	if ln.isConst() && ln.C == 0 {
		return "", true
	}
	r := st.reg[v.R]
	off := st.c.norm(v.Off)
	if r == nil || !off.isConst() || !ln.isConst() {
		return "", false
	}
	if !r.Const {
		// known byte by byte
		if ln.C > 16 || !r.Byte {
			return "", false
		}
		out := make([]byte, ln.C)
		for i := int64(0); i < ln.C; i++ {
			s := in.query(st, v.R, cst(off.C+i), cst(off.C+i+1))[lAny]
			if s.count() != 1 {
				return "", false
			}
			lo, _ := s.bounds()
			out[i] = byte(lo)
		}
		return string(out), true
	}
	if off.C < 0 || ln.C < 0 || off.C+ln.C > int64(len(r.KBytes)) {
		return "", false
	}
	return r.KBytes[off.C : off.C+ln.C], true
}

func (in *Interp) newRegion(st *State, name string, r *Region) Rid {
	id := in.rid(name)
	if _, live := st.reg[id]; live {
		in.retireRegion(st, id)
	}
	r.Name = name
	st.reg[id] = r
	return id
}

// newBytes allocates a byte region.
func (in *Interp) newBytes(st *State, name string, n Expr, base Sets, own string, mut bool) Rid {
	return in.newRegion(st, name, &Region{Byte: true, N: n, Base: base, Own: own, Mut: mut})
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// query over-approximates the bytes in region[lo:hi).
func (in *Interp) query(st *State, id Rid, lo, hi Expr) Sets {
	s, _ := in.query2(st, id, lo, hi)
	return s
}

func (in *Interp) query2(st *State, id Rid, lo, hi Expr) (Sets, bool) {
	q, ok := in.widest(st, id, lo, hi)
	if r := st.reg[id]; ok && r != nil && !r.Const && len(r.Facts) > 1 {
		lo, hi = st.c.norm(lo), st.c.norm(hi)
		if !st.c.entailsGE(sub(lo, hi)) {
			if t, ok := in.tightest(st, r, lo, hi); ok {
				q = q.and(t)
			}
		}
	}
	return q, ok
}

// tightest covers [lo:hi) by the facts that allow the fewest bytes.
func (in *Interp) tightest(st *State, r *Region, lo, hi Expr) (Sets, bool) {
	var acc Sets
	cur := lo
	used := make([]bool, len(r.Facts))
	for step := 0; step <= len(r.Facts); step++ {
		k := -1
		for i, f := range r.Facts {
			if used[i] || k >= 0 && f.S[lAny].count() >= r.Facts[k].S[lAny].count() {
				continue
			}
			if st.c.entailsGE(sub(cur, f.Lo)) && st.c.entailsGE(sub(f.Hi, cur)) && !st.c.entailsGE(sub(cur, f.Hi)) {
				k = i
			}
		}
		if k < 0 {
			return acc, false
		}
		used[k] = true
		acc = acc.or(r.Facts[k].S)
		cur = r.Facts[k].Hi
		if st.c.entailsGE(sub(cur, hi)) {
			return acc, true
		}
	}
	return acc, false
}

// widest covers [lo:hi) by the facts that reach furthest.
func (in *Interp) widest(st *State, id Rid, lo, hi Expr) (Sets, bool) {
	r := st.reg[id]
	if r == nil {
		return Sets{}, true
	}
	lo, hi = st.c.norm(lo), st.c.norm(hi)
	if st.c.entailsGE(sub(lo, hi)) {
		return Sets{}, true
	}
	if r.Const {
		if lo.isConst() && hi.isConst() && lo.C >= 0 && hi.C <= int64(len(r.KBytes)) {
			var out Sets
			out[lAny] = setOfString(r.KBytes[lo.C:hi.C])
			for l := 1; l < nLab; l++ {
				if !r.Base[l].empty() {
					out[l] = out[lAny]
				}
			}
			return out, true
		}
		return r.Base, false
	}
	cur := lo
	var acc Sets
	used := make([]bool, len(r.Facts))
	for step := 0; step <= len(r.Facts); step++ {
		best := -1
		for i, f := range r.Facts {
			if used[i] || f.S.subset(r.Base) == false && false {
				continue
			}
			if !st.c.entailsGE(sub(cur, f.Lo)) {
				continue
			}
			// progress: prefer facts reaching hi, then facts ending strictly after cur
			if st.c.entailsGE(sub(f.Hi, hi)) {
				if best < 0 || f.S.subset(r.Facts[best].S) || !st.c.entailsGE(sub(r.Facts[best].Hi, hi)) {
					best = i
				}
				continue
			}
			if best >= 0 && st.c.entailsGE(sub(r.Facts[best].Hi, hi)) {
				continue
			}
			if st.c.entailsGE(sub(f.Hi, cur)) && (best < 0 || st.c.entailsGE(sub(f.Hi, r.Facts[best].Hi))) {
				best = i
			}
		}
		if best < 0 {
			return r.Base, false
		}
		used[best] = true
		f := r.Facts[best]
		acc = acc.or(f.S)
		if st.c.entailsGE(sub(f.Hi, hi)) {
			return acc.and(r.Base), true
		}
		cur = f.Hi
	}
	return r.Base, false
}

// learn records that region[lo:hi) only holds bytes of s.
func (in *Interp) learn(st *State, id Rid, lo, hi Expr, s Sets) {
	r := st.reg[id]
	if r == nil || !r.Byte || r.Const || r.SumR {
		return
	}
	lo, hi = st.c.norm(lo), st.c.norm(hi)
	if eqExpr(lo, hi) {
		return
	}
	s = s.and(r.Base)
	if s == r.Base {
		return
	}
	for i, f := range r.Facts {
		if eqExpr(f.Lo, lo) && eqExpr(f.Hi, hi) {
			n := f.S.and(s)
			if n != f.S {
				w := st.regw(id)
				w.Facts[i].S = n
			}
			return
		}
	}
	if len(r.Facts) > 40 {
		return
	}
	w := st.regw(id)
	w.Facts = append(w.Facts, Fact{lo, hi, s})
}

// anySets makes a restriction that only concerns the byte values.
func anySets(b ByteSet) Sets {
	var s Sets
	for i := range s {
		s[i] = b
	}
	return s
}

// writeBytes updates region[lo:hi) with bytes from s. When exact is set the
// whole range is overwritten.
func (in *Interp) writeBytes(st *State, id Rid, lo, hi Expr, s Sets, exact bool) {
	r := st.reg[id]
	if r == nil {
		return
	}
	lo, hi = st.c.norm(lo), st.c.norm(hi)
	if st.c.entailsGE(sub(lo, hi)) {
		return
	}
	w := st.regw(id)
	w.Ver = in.nextSeq()
	w.Cache = nil
	w.Const = false
	if r.Const {
		w.Facts = nil
		for i := 0; i < len(r.KBytes) && i < 64; i++ {
			w.Facts = append(w.Facts, Fact{cst(int64(i)), cst(int64(i + 1)), plain(setOf(r.KBytes[i]))})
		}
		w.KBytes = ""
	}
	if r.SumR {
		exact = false
	}
	// does it overwrite everything?
	if exact && st.c.entailsGE(neg(lo)) && st.c.entailsGE(sub(hi, r.N)) {
		w.Base = s
		w.Facts = nil
		w.Cnt = nil
		return
	}
	base := r.Base
	w.Base = r.Base.or(s)
	var out []Fact
	for _, f := range w.Facts {
		if st.c.entailsGE(sub(lo, f.Hi)) || st.c.entailsGE(sub(f.Lo, hi)) {
			out = append(out, f) // disjoint
			continue
		}
		if !exact {
			f.S = f.S.or(s)
			out = append(out, f)
			continue
		}
		// keep the parts outside
		if !st.c.entailsGE(sub(f.Lo, lo)) {
			out = append(out, Fact{f.Lo, lo, f.S}) // valid also when empty or lo beyond f.Hi? clipped below
			if !st.c.entailsGE(sub(f.Hi, lo)) {
				out[len(out)-1].Hi = f.Hi
				out[len(out)-1].S = f.S.or(s)
			}
		}
		if !st.c.entailsGE(sub(hi, f.Hi)) {
			n := Fact{hi, f.Hi, f.S}
			if !st.c.entailsGE(sub(hi, f.Lo)) {
				n.Lo = f.Lo
				n.S = f.S.or(s)
			}
			out = append(out, n)
		}
	}
	// the untouched rest keeps the old base
	if base != w.Base && len(w.Facts) == 0 && exact {
		if !st.c.entailsGE(neg(lo)) {
			out = append(out, Fact{cst(0), lo, base})
		}
		if !st.c.entailsGE(sub(hi, r.N)) {
			out = append(out, Fact{hi, r.N, base})
		}
	} else if base != w.Base && exact {
		// base facts for the complement, when not already covered by finer facts
		out = append(out, Fact{cst(0), lo, base}, Fact{hi, r.N, base})
	}
	w.Facts = out
	w.Cnt = nil
	if exact {
		ns := s
		if ns != w.Base {
			w.Facts = append(w.Facts, Fact{lo, hi, ns})
		}
	}
	if len(w.Facts) > 48 {
		w.Facts = w.Facts[len(w.Facts)-48:]
	}
}

// readByte reads region[idx].
func (in *Interp) readByte(st *State, id Rid, idx Expr, t types.Type) Int {
	r := st.reg[id]
	idx = st.c.norm(idx)
	if r == nil {
		return in.freshInt(st, "byte", t)
	}
	if r.Const && idx.isConst() && idx.C >= 0 && idx.C < int64(len(r.KBytes)) {
		return Int{cst(int64(r.KBytes[idx.C]))}
	}
	key := idx.key()
	if v, ok := r.Cache[key]; ok && !r.SumR {
		return v.(Int)
	}
	s := in.query(st, id, idx, addc(idx, 1))
	if s[lAny].count() == 1 {
		lo, _ := s[lAny].bounds()
		return Int{cst(int64(lo))}
	}
	sym := in.syms.fresh("b")
	in.constrainType(st, sym, types.Typ[types.Uint8])
	if s[lAny].empty() {
		s[lAny] = allBytes
	}
	st.bset[sym] = s[lAny]
	in.boundBySet(st, sym)
	v := Int{sx(sym)}
	if r.SumR {
		return v
	}
	w := st.regw(id)
	if w.Cache == nil {
		w.Cache = map[string]Value{}
	}
	w.Cache[key] = v
	in.org[sym] = origin{id, idx, r.Ver, cst(1)}
	var lab [nLab]bool
	any := false
	for k := 1; k < nLab; k++ {
		if !s[k].empty() {
			lab[k], any = true, true
		}
	}
	if any {
		in.symLab[sym] = lab
	}
	return v
}

func (in *Interp) boundBySet(st *State, s Sym) {
	lo, hi := st.bset[s].bounds()
	if hi < 0 {
		st.cw().bot = true
		return
	}
	c := st.cw()
	c.addGE(addc(sx(s), -int64(lo)))
	c.addGE(addc(neg(sx(s)), int64(hi)))
}

// narrow intersects the value set of a byte symbol.
func (in *Interp) narrow(st *State, s Sym, set ByteSet) {
	old, ok := st.bset[s]
	if !ok {
		return
	}
	n := old.and(set)
	if n == old {
		return
	}
	st.bset[s] = n
	if n.empty() {
		st.cw().bot = true
		return
	}
	in.boundBySet(st, s)
	if n.count() == 1 {
		lo, _ := n.bounds()
		st.cw().addEQ(addc(sx(s), -int64(lo)))
	}
	if o, ok := in.org[s]; ok {
		if r := st.reg[o.r]; r != nil && r.Ver == o.ver {
			in.learn(st, o.r, o.idx, add(o.idx, o.wid), anySets(n))
		}
	}
	if d, ok := in.deriv[s]; ok {
		var pre ByteSet
		for i := 0; i < 256; i++ {
			if n.has(d.tab[i]) {
				pre.add(byte(i))
			}
		}
		in.narrow(st, d.src, pre)
	}
}

// ---- refinement ----

// assume restricts the state; the result is the list of possible states.
func (in *Interp) assume(st *State, c *Cond, pol bool) []*State {
	switch c.op {
	case cTrue, cFalse:
		if (c.op == cTrue) == pol {
			return []*State{st}
		}
		return nil
	case cNot:
		return in.assume(st, c.a, !pol)
	case cAnd:
		if pol {
			var out []*State
			for _, s := range in.assume(st, c.a, true) {
				out = append(out, in.assume(s, c.b, true)...)
			}
			return out
		}
		s2 := st.clone()
		out := in.assume(st, c.a, false)
		for _, s := range in.assume(s2, c.a, true) {
			out = append(out, in.assume(s, c.b, false)...)
		}
		return out
	case cPred:
		if v, ok := st.pred[c.id]; ok {
			if v == pol {
				return []*State{st}
			}
			return nil
		}
		if c.ref == nil {
			st.pred[c.id] = pol
			return []*State{st}
		}
		out := c.ref(st, pol)
		for _, s := range out {
			s.pred[c.id] = pol
		}
		return out
	}
	if !pol {
		c = cNotOf(c)
	}
	return in.assumeCmp(st, c.op, c.e)
}

func (in *Interp) assumeCmp(st *State, op condOp, e Expr) []*State {
	// 0/1 symbols with a definition
	c := st.cw()
	raw := e
	switch op {
	case cGE:
		c.addGE(e)
	case cEQ:
		c.addEQ(e)
	case cNE:
		c.addNE(e)
	}
	if c.bot {
		return nil
	}
	e = c.norm(raw)
	in.narrowByCmp(st, op, raw)
	if !eqExpr(e, raw) {
		in.narrowByCmp(st, op, e)
	}
	if st.c.bot || st.c.infeasible() {
		return nil
	}
	return []*State{st}
}

func (in *Interp) narrowByCmp(st *State, op condOp, e Expr) {
	if len(e.T) == 1 {
		t := e.T[0]
		if bs, ok := st.bset[t.S]; ok {
			var n ByteSet
			for i := 0; i < 256; i++ {
				if !bs.has(byte(i)) {
					continue
				}
				v := e.C + t.K*int64(i)
				if (op == cGE && v >= 0) || (op == cEQ && v == 0) || (op == cNE && v != 0) {
					n.add(byte(i))
				}
			}
			in.narrow(st, t.S, n)
		}
		return
	}
	if op == cEQ && len(e.T) == 2 && e.C == 0 && e.T[0].K == -e.T[1].K {
		a, aok := st.bset[e.T[0].S]
		b, bok := st.bset[e.T[1].S]
		if aok && bok {
			n := a.and(b)
			in.narrow(st, e.T[0].S, n)
			in.narrow(st, e.T[1].S, n)
		}
	}
}

// decide evaluates a condition without changing the state: 1 true, 0 false, -1 unknown.
func (in *Interp) decide(st *State, c *Cond) int {
	switch c.op {
	case cTrue:
		return 1
	case cFalse:
		return 0
	case cNot:
		d := in.decide(st, c.a)
		if d < 0 {
			return d
		}
		return 1 - d
	case cAnd:
		a, b := in.decide(st, c.a), in.decide(st, c.b)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return -1
	case cPred:
		if v, ok := st.pred[c.id]; ok {
			if v {
				return 1
			}
			return 0
		}
		return -1
	case cGE:
		if st.c.entailsGE(c.e) {
			return 1
		}
		if st.c.entailsGE(addc(neg(c.e), -1)) {
			return 0
		}
	case cEQ, cNE:
		t, f := 1, 0
		if c.op == cNE {
			t, f = 0, 1
		}
		if st.c.entailsEQ(c.e) {
			return t
		}
		if st.c.entailsNE(c.e) {
			return f
		}
		if len(c.e.T) == 1 {
			if bs, ok := st.bset[c.e.T[0].S]; ok {
				v := -c.e.C * c.e.T[0].K
				if v < 0 || v > 255 || !bs.has(byte(v)) {
					return f
				}
			}
		}
	}
	return -1
}

// split yields the states where the condition holds and where it does not.
func (in *Interp) split(st *State, c *Cond) (t, f []*State) {
	switch in.decide(st, c) {
	case 1:
		return in.assume(st, c, true), nil
	case 0:
		return nil, in.assume(st, c, false)
	}
	s2 := st.clone()
	return in.assume(st, c, true), in.assume(s2, c, false)
}
