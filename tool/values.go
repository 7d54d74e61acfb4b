package main

// Abstract values and memory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func (s ByteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s *ByteSet) add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s ByteSet) or(o ByteSet) ByteSet {
	return ByteSet{s[0] | o[0], s[1] | o[1], s[2] | o[2], s[3] | o[3]}
}
func (s ByteSet) and(o ByteSet) ByteSet {
	return ByteSet{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s ByteSet) not() ByteSet          { return ByteSet{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s ByteSet) empty() bool           { return s == ByteSet{} }
func (s ByteSet) subset(o ByteSet) bool { return s.and(o.not()).empty() }

var allBytes = ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
var asciiSet = ByteSet{^uint64(0), ^uint64(0), 0, 0}

func setOf(bs ...byte) ByteSet {
	var s ByteSet
	for _, b := range bs {
		s.add(b)
	}
	return s
}

func setOfString(x string) ByteSet {
	var s ByteSet
	for i := 0; i < len(x); i++ {
		s.add(x[i])
	}
	return s
}

func (s ByteSet) bounds() (lo, hi int) {
	lo, hi = 256, -1
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			if lo == 256 {
				lo = i
			}
			hi = i
		}
	}
	return
}

func (s ByteSet) count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			n++
		}
	}
	return n
}

func (s ByteSet) String() string {
	if s == allBytes {
		return "{any}"
	}
	var sb strings.Builder
	sb.WriteByte('{')
	if s.count() > 128 {
		sb.WriteString("not ")
		s = s.not()
	}
	n := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			if n++; n > 12 {
				sb.WriteString("…")
				break
			}
			fmt.Fprintf(&sb, "%q ", rune(i))
		}
	}
	return strings.TrimSpace(sb.String()) + "}"
}

// Labels of bytes: which kinds of data a byte may come from.
const (
	lAny  = iota // every byte
	lText        // bytes of human text
	lName        // bytes of user names
	lTok         // bytes of values that are protocol tokens by contract
	nLab
)

// Sets over-approximates, for a piece of memory, the bytes of every label in it.
type Sets [nLab]ByteSet

func (s Sets) or(o Sets) Sets {
	for i := range s {
		s[i] = s[i].or(o[i])
	}
	return s
}

func (s Sets) and(o Sets) Sets {
	for i := range s {
		s[i] = s[i].and(o[i])
	}
	return s
}

func (s Sets) subset(o Sets) bool {
	for i := range s {
		if !s[i].subset(o[i]) {
			return false
		}
	}
	return true
}

func (s Sets) restrict(b ByteSet) Sets {
	for i := range s {
		s[i] = s[i].and(b)
	}
	return s
}

func plain(b ByteSet) Sets { return Sets{lAny: b} }

type Oid int32 // object
type Rid int32 // region (array of elements)

// Value is an abstract value.
type Value interface{}

type Int struct{ E Expr }

type Bool struct{ C *Cond }

type Str struct {
	R        Rid
	Off, Len Expr
}

type Slice struct {
	R             Rid
	Off, Len, Cap Expr
	NN            Expr // 1: not nil
	Hint          *Sets
}

type Ptr struct {
	O    Oid
	R    Rid // element pointer when non-zero
	Idx  Expr
	Path []int
	NN   Expr
}

type Iface struct {
	T  types.Type // dynamic type; nil when unknown
	V  Value
	NN Expr
	ID string // identity of an unknown value
}

type Fn struct {
	F    *ssa.Function
	Bind []Value
	NN   Expr
	ID   string // unknown function
	B    string // builtin / model
}

type MapV struct {
	O  Oid
	NN Expr
}

type Struct struct{ F []Value }

// Arr is an array value or, inside an object, an array location; its content
// lives in the region, which is exclusively owned by it.
type Arr struct{ R Rid }

type Tuple []Value

// Opaque is a value the analysis does not track.
type Opaque struct {
	ID string
}

// RType is a reflect.Type; RVal is a reflect.Value.
type RType struct{ T types.Type }

type RVal struct {
	T    types.Type
	V    Value // value when not addressable
	P    *Ptr  // location when addressable
	Zero bool
}

// Native is an object of a modelled standard-library type held by value.
type Native struct {
	Kind string
	F    map[string]Value
}

// TabSel is an element of a constant table selected by a byte symbol.
type TabSel struct {
	Tab []Value
	Idx Expr
}

// MapContent is the content of a map object.
type MapContent struct {
	Exact map[string]Value // constant string/int keys, when Known
	Keys  map[string]Value
	Known bool
	KSum  Value
	ESum  Value
	N     Expr
}

type Obj struct {
	V    Value
	T    types.Type
	Own  string // ownership class: "arg:NAME", "recv", "global:NAME", "new", "lib"
	Name string
	Sum  bool // stands for several concrete objects
}

type Fact struct {
	Lo, Hi Expr
	S      Sets
}

type CntFact struct {
	Lo, Hi Expr
	B      byte
	N      Expr
}

type Region struct {
	Byte   bool
	Elem   types.Type
	N      Expr // number of elements
	Own    string
	Name   string
	Mut    bool
	Const  bool
	KBytes string // constant content
	Base   Sets
	Facts  []Fact
	Cnt    []CntFact
	Lab    uint32 // content labels
	From   []string
	Ver    int

	// non-byte regions
	Exact []Value // exact elements when not nil
	Sum   Value   // summary of the elements; nil: no element written yet
	Lazy  bool    // elements are initial values of an argument
	Cache map[string]Value
	SumR  bool // stands for several concrete regions
}

func (r *Region) clone() *Region {
	n := *r
	n.Facts = append([]Fact(nil), r.Facts...)
	n.Cnt = append([]CntFact(nil), r.Cnt...)
	if r.Exact != nil {
		n.Exact = append([]Value(nil), r.Exact...)
	}
	if r.Cache != nil {
		n.Cache = make(map[string]Value, len(r.Cache))
		for k, v := range r.Cache {
			n.Cache[k] = v
		}
	}
	return &n
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]Value
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	site ssa.Instruction
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, ctx: f.ctx, env: make(map[ssa.Value]Value, len(f.env)+8), defers: f.defers[:len(f.defers):len(f.defers)]}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// State is an abstract state.
type State struct {
	c     *Cons
	cOwn  bool
	fr    []*Frame
	frOwn []bool
	obj   map[Oid]*Obj
	reg   map[Rid]*Region
	bset  map[Sym]ByteSet
	pred  map[string]bool
	ghost map[string]string
	gval  map[string]Value // ghost values (kept alive and joined)
	trace []string
}

func newState() *State {
	return &State{c: newCons(), cOwn: true, obj: map[Oid]*Obj{}, reg: map[Rid]*Region{}, bset: map[Sym]ByteSet{}, pred: map[string]bool{}, ghost: map[string]string{}, gval: map[string]Value{}}
}

func (st *State) clone() *State {
	n := &State{c: st.c}
	st.cOwn, n.cOwn = false, false
	n.fr = append([]*Frame(nil), st.fr...)
	n.frOwn = make([]bool, len(n.fr))
	for i := range st.frOwn {
		st.frOwn[i] = false
	}
	n.obj = make(map[Oid]*Obj, len(st.obj)+4)
	for k, v := range st.obj {
		n.obj[k] = v
	}
	n.reg = make(map[Rid]*Region, len(st.reg)+4)
	for k, v := range st.reg {
		n.reg[k] = v
	}
	n.bset = make(map[Sym]ByteSet, len(st.bset)+4)
	for k, v := range st.bset {
		n.bset[k] = v
	}
	n.pred = make(map[string]bool, len(st.pred))
	for k, v := range st.pred {
		n.pred[k] = v
	}
	n.ghost = make(map[string]string, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.gval = make(map[string]Value, len(st.gval))
	for k, v := range st.gval {
		n.gval[k] = v
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return n
}

// cw returns the constraint store for writing.
func (st *State) cw() *Cons {
	if !st.cOwn {
		st.c = st.c.clone()
		st.cOwn = true
	}
	return st.c
}

func (st *State) top() *Frame { return st.fr[len(st.fr)-1] }

// fw returns the top frame for writing.
func (st *State) fw() *Frame {
	i := len(st.fr) - 1
	if !st.frOwn[i] {
		st.fr[i] = st.fr[i].clone()
		st.frOwn[i] = true
	}
	return st.fr[i]
}

func (st *State) push(f *Frame) {
	st.fr = append(st.fr, f)
	st.frOwn = append(st.frOwn, true)
}

func (st *State) pop() {
	st.fr = st.fr[:len(st.fr)-1]
	st.frOwn = st.frOwn[:len(st.frOwn)-1]
}

func (st *State) dead() bool { return st.c.bot }

// regw returns the region for writing.
func (st *State) regw(r Rid) *Region {
	n := st.reg[r].clone()
	st.reg[r] = n
	return n
}

// ---- conditions ----

type condOp uint8

const (
	cTrue condOp = iota
	cFalse
	cGE // E >= 0
	cEQ // E == 0
	cNE // E != 0
	cAnd
	cOr
	cNot
	cPred
)

type Cond struct {
	op   condOp
	e    Expr
	a, b *Cond
	id   string
	ref  func(st *State, pol bool) []*State // refinement of a predicate; nil: nothing known
}

var condT = &Cond{op: cTrue}
var condF = &Cond{op: cFalse}

func condOf(b bool) *Cond {
	if b {
		return condT
	}
	return condF
}

func cNotOf(c *Cond) *Cond {
	switch c.op {
	case cTrue:
		return condF
	case cFalse:
		return condT
	case cGE:
		return &Cond{op: cGE, e: addc(neg(c.e), -1)}
	case cEQ:
		return &Cond{op: cNE, e: c.e}
	case cNE:
		return &Cond{op: cEQ, e: c.e}
	case cNot:
		return c.a
	}
	return &Cond{op: cNot, a: c}
}

func cAndOf(a, b *Cond) *Cond {
	if a.op == cFalse || b.op == cFalse {
		return condF
	}
	if a.op == cTrue {
		return b
	}
	if b.op == cTrue {
		return a
	}
	return &Cond{op: cAnd, a: a, b: b}
}

func cOrOf(a, b *Cond) *Cond {
	return cNotOf(cAndOf(cNotOf(a), cNotOf(b)))
}

func ge(a, b Expr) *Cond  { return mkCmp(cGE, sub(a, b)) }
func eqc(a, b Expr) *Cond { return mkCmp(cEQ, sub(a, b)) }

func mkCmp(op condOp, e Expr) *Cond {
	if e.isConst() {
		switch op {
		case cGE:
			return condOf(e.C >= 0)
		case cEQ:
			return condOf(e.C == 0)
		case cNE:
			return condOf(e.C != 0)
		}
	}
	return &Cond{op: op, e: e}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
