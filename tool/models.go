package main

// Models of the library functions used by the module.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

type model = func(m *mcall) []exit

var models map[string]model

func init() {
	models = map[string]model{}
	for _, p := range []string{"bytes", "strings"} {
		byteFuncs(p)
	}
	bufferModels()
	miscModels()
	ioModels()
	reflectModels()
}

func (m *mcall) ret(v Value) []exit { return []exit{{m.st, v}} }

func retIn(st *State, v Value) exit { return exit{st, v} }

func (m *mcall) view(i int) (view, bool) {
	if i >= len(m.args) {
		return view{}, false
	}
	return viewOf(m.args[i])
}

func (m *mcall) unknown() []exit { return m.in.results(m.st, m.at, m.fn, m.sig) }

func (m *mcall) cstr(i int) (string, bool) {
	v, ok := m.view(i)
	if !ok {
		return "", false
	}
	return m.in.constView(m.st, v)
}

func (in *Interp) constView(st *State, v view) (string, bool) {
	if v.R != 0 {
		if r := st.reg[v.R]; r != nil && r.SumR {
			return "", false
		}
	}
	return in.constOf(st, Str{v.R, v.Off, v.Len})
}

func (m *mcall) cint(i int) (int64, bool) {
	x, ok := m.args[i].(Int)
	if !ok {
		return 0, false
	}
	e := m.st.c.norm(x.E)
	return e.C, e.isConst()
}

func nilErr() Iface { return Iface{NN: cst(0)} }

func (m *mcall) unkErr() Iface {
	return Iface{NN: cst(1), ID: fmt.Sprintf("u:%s~%d", m.fn, m.in.nextSeq())}
}

func (m *mcall) newErr() Iface { return Iface{NN: cst(1), ID: "new:" + m.in.siteID(m)} }

// siteID names a creation site; sentinels made during initialisation and
// errors made in functions are told apart by it.
func (in *Interp) siteID(m *mcall) string {
	p := m.at.Parent()
	return in.prog.short(p.String()) + "/" + in.siteName(m.at)
}

// freshBytes makes a new byte slice.
func (m *mcall) freshBytes(st *State, n Expr, s Sets, from view) Slice {
	in := m.in
	g := &Region{Byte: true, N: n, Base: s, Own: "new", Mut: true}
	m.derive(st, g, from)
	id := in.newRegion(st, m.site("b"), g)
	return Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)}
}

func (m *mcall) freshStr(st *State, n Expr, s Sets, from view) Str {
	in := m.in
	g := &Region{Byte: true, N: n, Base: s, Own: "new"}
	m.derive(st, g, from)
	id := in.newRegion(st, m.site("s"), g)
	return Str{id, cst(0), n}
}

func (m *mcall) derive(st *State, g *Region, from view) {
	if r := st.reg[from.R]; r != nil && from.R != 0 {
		g.From = r.From
		if r.Own != "new" && r.Own != "const" {
			g.From = unionStr(r.From, []string{"copy:" + r.Own})
		}
		g.Lab = r.Lab
	} else {
		g.Lab = 0
	}
}

func (m *mcall) out(st *State, n Expr, s Sets, from view) Value {
	if from.str {
		return m.freshStr(st, n, s, from)
	}
	return m.freshBytes(st, n, s, from)
}

// verID identifies the current content of a view.
func (in *Interp) verID(st *State, v view) string {
	r := st.reg[v.R]
	if r == nil {
		return "empty"
	}
	if r.SumR {
		return fmt.Sprintf("~%d", in.nextSeq())
	}
	return fmt.Sprintf("%d.%d:%s:%s", v.R, r.Ver, st.c.norm(v.Off).key(), st.c.norm(v.Len).key())
}

func (in *Interp) without(st *State, v view, lo, hi Expr, b ByteSet) {
	if v.R == 0 {
		return
	}
	in.learn(st, v.R, add(v.Off, lo), add(v.Off, hi), anySets(b.not()))
}

// found is a possible outcome of a search; idx is relative to the view.
type found struct {
	st  *State
	ok  bool
	idx Expr
	n   Expr // length of the match
}

// search looks for a pattern. pat: the constant pattern when known, otherwise
// plen gives its length.
func (m *mcall) search(v view, pat string, known bool, plen Expr, last bool) []found {
	in, st := m.in, m.st
	if known {
		plen = cst(int64(len(pat)))
		if c, ok := in.constView(st, v); ok {
			i := strings.Index(c, pat)
			if last {
				i = strings.LastIndex(c, pat)
			}
			if i < 0 {
				return []found{{st: st}}
			}
			return []found{{st, true, cst(int64(i)), plen}}
		}
		if len(pat) == 0 {
			if last {
				return []found{{st, true, v.Len, cst(0)}}
			}
			return []found{{st, true, cst(0), cst(0)}}
		}
		if len(pat) == 1 {
			return m.searchSet(v, setOf(pat[0]), last, true)
		}
		q := in.viewSets(st, v)
		for i := 0; i < len(pat); i++ {
			if !q[lAny].has(pat[i]) {
				return []found{{st: st}}
			}
		}
	}
	var out []found
	s2 := st.clone()
	if !m.present(s2, v, pat, known) {
		out = append(out, found{st: s2})
	}
	if ss := in.assume(st, ge(v.Len, plen), true); len(ss) > 0 {
		s := ss[0]
		idx := in.freshRange(s, "idx", 0, lenMax)
		s.cw().addGE(sub(sub(v.Len, plen), idx))
		if known && v.R != 0 {
			for i := 0; i < len(pat) && i < 12; i++ {
				p := add(v.Off, addc(idx, int64(i)))
				in.learn(s, v.R, p, addc(p, 1), anySets(setOf(pat[i])))
			}
		}
		if !s.c.infeasible() {
			out = append(out, found{s, true, idx, plen})
		}
	}
	return out
}

// present: a fact proves that the pattern occurs in the view.
func (m *mcall) present(st *State, v view, pat string, known bool) bool {
	r := st.reg[v.R]
	if !known || r == nil || v.R == 0 || r.Const || len(pat) == 0 {
		return false
	}
	has := func(c byte, f Fact) bool { return f.S[lAny].count() == 1 && f.S[lAny].has(c) }
	for _, f := range r.Facts {
		if !has(pat[0], f) || !st.c.entailsEQ(addc(sub(f.Hi, f.Lo), -1)) {
			continue
		}
		if !st.c.entailsGE(sub(f.Lo, v.Off)) || !st.c.entailsGE(sub(v.end(), addc(f.Lo, int64(len(pat))))) {
			continue
		}
		ok := true
		for i := 1; i < len(pat) && ok; i++ {
			q := m.in.query(st, v.R, addc(f.Lo, int64(i)), addc(f.Lo, int64(i)+1))[lAny]
			ok = q.count() == 1 && q.has(pat[i])
		}
		if ok {
			return true
		}
	}
	return false
}

// searchSet looks for a byte of a set. exact: the set is what is looked for
// (and not a larger set).
func (m *mcall) searchSet(v view, set ByteSet, last, exact bool) []found {
	in, st := m.in, m.st
	q := in.viewSets(st, v)
	if q[lAny].and(set).empty() || v.R == 0 {
		return []found{{st: st}}
	}
	if c, ok := in.constView(st, v); ok && exact {
		i := -1
		for k := 0; k < len(c); k++ {
			if set.has(c[k]) {
				i = k
				if !last {
					break
				}
			}
		}
		if i < 0 {
			return []found{{st: st}}
		}
		return []found{{st, true, cst(int64(i)), cst(1)}}
	}
	var out []found
	s2 := st.clone()
	one := set.count() == 1
	lo, _ := set.bounds()
	cnt := m.countFact(s2, v, byte(lo), one && exact)
	if !(exact && one && m.present(s2, v, string([]byte{byte(lo)}), true)) {
		ok := true
		if cnt != nil {
			ok = len(in.assumeCmp(s2, cEQ, cnt.N)) > 0
		}
		if ok {
			if exact {
				in.without(s2, v, cst(0), v.Len, set)
			}
			out = append(out, found{st: s2})
		}
	}
	s := st
	c := s.cw()
	c.addGE(addc(v.Len, -1))
	if cnt != nil {
		c.addGE(addc(cnt.N, -1))
	}
	idx := in.freshRange(s, "idx", 0, lenMax)
	c = s.cw()
	c.addGE(addc(sub(v.Len, idx), -1))
	if !c.infeasible() {
		p := add(v.Off, idx)
		in.learn(s, v.R, p, addc(p, 1), anySets(set))
		if exact {
			if last {
				in.without(s, v, addc(idx, 1), v.Len, set)
			} else {
				in.without(s, v, cst(0), idx, set)
			}
		}
		if cnt != nil {
			w := s.regw(v.R)
			if last {
				w.Cnt = append(w.Cnt, CntFact{v.Off, p, byte(lo), addc(cnt.N, -1)})
			} else {
				w.Cnt = append(w.Cnt, CntFact{addc(p, 1), v.end(), byte(lo), addc(cnt.N, -1)})
			}
			if len(w.Cnt) > 12 {
				w.Cnt = w.Cnt[len(w.Cnt)-12:]
			}
		}
		out = append(out, found{s, true, idx, cst(1)})
	}
	return out
}

func (m *mcall) countFact(st *State, v view, b byte, on bool) *CntFact {
	r := st.reg[v.R]
	if !on || r == nil || r.SumR {
		return nil
	}
	for i := range r.Cnt {
		c := r.Cnt[i]
		if c.B == b && st.c.entailsEQ(sub(c.Lo, v.Off)) && st.c.entailsEQ(sub(c.Hi, v.end())) {
			return &c
		}
	}
	return nil
}

func idxExits(fs []found) []exit {
	var out []exit
	for _, f := range fs {
		if f.ok {
			out = append(out, exit{f.st, Int{f.idx}})
		} else {
			out = append(out, exit{f.st, Int{cst(-1)}})
		}
	}
	return out
}

func boolExits(fs []found) []exit {
	var out []exit
	for _, f := range fs {
		out = append(out, exit{f.st, Bool{condOf(f.ok)}})
	}
	return out
}

// byteArg is the set of values of a byte or rune argument.
func (m *mcall) byteArg(i int) (ByteSet, bool) {
	x, ok := m.args[i].(Int)
	if !ok {
		return allBytes, false
	}
	s := m.in.byteSetOf(m.st, x.E)
	return s, s.count() == 1
}

func (m *mcall) prefixCond(v view, p view, suffix bool) *Cond {
	in, st := m.in, m.st
	c, known := in.constView(st, p)
	if !known {
		return &Cond{op: cPred, id: fmt.Sprintf("hp~%d", in.nextSeq()), ref: func(s *State, pol bool) []*State {
			if pol {
				return in.assumeCmp(s, cGE, sub(v.Len, p.Len))
			}
			return []*State{s}
		}}
	}
	n := int64(len(c))
	if n == 0 {
		return condT
	}
	if x, ok := in.constView(st, v); ok {
		if suffix {
			return condOf(strings.HasSuffix(x, c))
		}
		return condOf(strings.HasPrefix(x, c))
	}
	if in.decide(st, ge(v.Len, cst(n))) == 0 || v.R == 0 {
		return condF
	}
	at := func(i int64) Expr {
		if suffix {
			return addc(v.end(), i-n)
		}
		return addc(v.Off, i)
	}
	if in.decide(st, ge(v.Len, cst(n))) == 1 {
		all := true
		for i := int64(0); i < n; i++ {
			q := in.query(st, v.R, at(i), addc(at(i), 1))[lAny]
			if v.Hint != nil {
				q = q.and(v.Hint[lAny])
			}
			if !q.has(c[i]) {
				return condF
			}
			if q.count() != 1 {
				all = false
			}
		}
		if all {
			return condT
		}
	} else {
		q := in.viewSets(st, v)[lAny]
		for i := int64(0); i < n; i++ {
			if !q.has(c[i]) {
				return condF
			}
		}
	}
	k := "hp:"
	if suffix {
		k = "hs:"
	}
	return &Cond{op: cPred, id: k + in.verID(st, v) + ":" + c, e: add(v.Len, v.Off), ref: func(s *State, pol bool) []*State {
		if pol {
			for _, t := range in.assumeCmp(s, cGE, addc(v.Len, -n)) {
				for i := int64(0); i < n && i < 24; i++ {
					in.learn(t, v.R, at(i), addc(at(i), 1), anySets(setOf(c[i])))
				}
				return []*State{t}
			}
			return nil
		}
		if n == 1 {
			s2 := s.clone()
			out := in.assumeCmp(s, cEQ, v.Len)
			for _, t := range in.assumeCmp(s2, cGE, addc(v.Len, -1)) {
				in.learn(t, v.R, at(0), addc(at(0), 1), anySets(setOf(c[0]).not()))
				out = append(out, t)
			}
			return out
		}
		return []*State{s}
	}}
}

func (m *mcall) split1(c *Cond) (t, f []*State) { return m.in.split(m.st, c) }

// subVal is v[lo:hi] as a value; nn for slices that may become nil is kept.
func subVal(v view, lo, hi Expr) Value { return v.sub(lo, hi).val() }

// pieces is the slice of pieces of a view: each is free of the separator.
func (m *mcall) pieces(st *State, v view, hint *Sets, n Expr, rt types.Type) Value {
	in := m.in
	nm := m.site("sp")
	off := in.freshRange(st, "po", 0, lenMax)
	ln := in.freshRange(st, "pl", 0, lenMax)
	cp := in.freshRange(st, "pc", 0, lenMax)
	c := st.cw()
	c.addGE(sub(v.Len, add(off, ln)))
	c.addGE(sub(cp, ln))
	c.addGE(sub(v.Cap, add(off, cp)))
	pv := v
	pv.Off, pv.Len, pv.Cap = add(v.Off, off), ln, cp
	if v.str {
		pv.Cap = ln
	}
	pv.NN = cst(1)
	if hint != nil {
		h := *hint
		if v.Hint != nil {
			h = h.and(*v.Hint)
		}
		pv.Hint = &h
	}
	var el Value = pv.val()
	if v.str && hint != nil && v.R != 0 {
		// strings carry no hint: make a fresh string with the same bytes
		q := in.viewSets(st, v).and(*hint)
		el = m.freshStr(st, ln, q, v)
		if r := st.reg[el.(Str).R]; r != nil {
			st.regw(el.(Str).R).SumR = true
		}
	}
	elem := rt.Underlying().(*types.Slice).Elem()
	id := in.newRegion(st, nm, &Region{N: n, Elem: elem, Own: "new", Mut: true, Sum: el})
	return Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)}
}

func (m *mcall) exactSlice(st *State, vs []Value, rt types.Type) Value {
	elem := rt.Underlying().(*types.Slice).Elem()
	n := cst(int64(len(vs)))
	id := m.in.newRegion(st, m.site("ex"), &Region{N: n, Elem: elem, Own: "new", Mut: true, Exact: vs})
	return Slice{R: id, Off: cst(0), Len: n, Cap: n, NN: cst(1)}
}

func (m *mcall) splitModel(n int64) []exit {
	in, st := m.in, m.st
	v, ok1 := m.view(0)
	sepv, ok2 := m.view(1)
	if !ok1 || !ok2 {
		return m.unknown()
	}
	rt := m.sig.Results().At(0).Type()
	sep, known := in.constView(st, sepv)
	if n == 0 {
		return m.ret(in.zero(st, rt, "nil"))
	}
	if c, ok := in.constView(st, v); ok && known && sep != "" {
		var vs []Value
		pos := int64(0)
		for _, p := range strings.SplitN(c, sep, int(n)) {
			vs = append(vs, subVal(v, cst(pos), cst(pos+int64(len(p)))))
			pos += int64(len(p) + len(sep))
		}
		return m.ret(m.exactSlice(st, vs, rt))
	}
	if known && sep != "" && n > 0 && n <= 5 {
		// exact pieces
		type part struct {
			st   *State
			vs   []Value
			rest view
		}
		cur := []part{{st, nil, v}}
		var out []exit
		for k := int64(1); k < n; k++ {
			var nx []part
			for _, p := range cur {
				mm := *m
				mm.st = p.st
				for _, f := range mm.search(p.rest, sep, true, cst(0), false) {
					if !f.ok {
						out = append(out, exit{f.st, m.exactSlice(f.st, append(p.vs[:len(p.vs):len(p.vs)], p.rest.val()), rt)})
						continue
					}
					pc := p.rest.sub(cst(0), f.idx)
					pc.Cap = pc.Len
					nx = append(nx, part{f.st, append(p.vs[:len(p.vs):len(p.vs)], pc.val()), p.rest.sub(addc(f.idx, int64(len(sep))), p.rest.Len)})
				}
			}
			cur = nx
		}
		for _, p := range cur {
			out = append(out, exit{p.st, m.exactSlice(p.st, append(p.vs, p.rest.val()), rt)})
		}
		return out
	}
	// number of pieces
	cnt := in.freshRange(st, "np", 1, lenMax)
	c := st.cw()
	c.addGE(sub(addc(v.Len, 1), cnt))
	if known && sep == "" {
		c = st.cw()
		// explode: empty input gives no pieces
		cnt = in.freshRange(st, "np", 0, lenMax)
	}
	if n > 0 {
		st.cw().addGE(addc(neg(cnt), n))
	}
	var hint *Sets
	if known && len(sep) == 1 && n < 0 {
		h := anySets(setOf(sep[0]).not())
		hint = &h
	}
	if known && len(sep) == 1 {
		if cf := m.countFact(st, v, sep[0], true); cf != nil && n < 0 {
			st.cw().addEQ(addc(sub(cnt, cf.N), -1))
		}
	}
	val := m.pieces(st, v, hint, cnt, rt)
	return m.ret(val)
}

// trimmed is a sub-view of v.
func (m *mcall) trimmed(v view, left, right bool, cut ByteSet, exact bool) []exit {
	in, st := m.in, m.st
	if c, ok := in.constView(st, v); ok && exact {
		lo, hi := 0, len(c)
		for left && lo < hi && cut.has(c[lo]) {
			lo++
		}
		for right && hi > lo && cut.has(c[hi-1]) {
			hi--
		}
		return m.ret(subVal(v, cst(int64(lo)), cst(int64(hi))))
	}
	lo, hi := cst(0), v.Len
	if left {
		lo = in.freshRange(st, "tl", 0, lenMax)
	}
	if right {
		hi = in.freshRange(st, "th", 0, lenMax)
	}
	c := st.cw()
	c.addGE(sub(hi, lo))
	c.addGE(sub(v.Len, hi))
	r := v.sub(lo, hi)
	if !v.str {
		// an empty result may be nil
		s2 := st.clone()
		var out []exit
		for _, s := range in.assumeCmp(st, cGE, addc(r.Len, -1)) {
			m.notAt(s, r, left, right, cut, exact)
			out = append(out, exit{s, r.val()})
		}
		for _, s := range in.assumeCmp(s2, cEQ, r.Len) {
			e := r
			e.Len = cst(0)
			e.NN = in.freshNN(s, "nn")
			out = append(out, exit{s, e.val()})
		}
		return out
	}
	s2 := st.clone()
	var out []exit
	for _, s := range in.assumeCmp(st, cGE, addc(r.Len, -1)) {
		m.notAt(s, r, left, right, cut, exact)
		out = append(out, exit{s, r.val()})
	}
	for _, s := range in.assumeCmp(s2, cEQ, r.Len) {
		out = append(out, exit{s, in.constStr(s, "")})
	}
	return out
}

func (m *mcall) notAt(s *State, r view, left, right bool, cut ByteSet, exact bool) {
	if !exact || r.R == 0 {
		return
	}
	if left {
		m.in.learn(s, r.R, r.Off, addc(r.Off, 1), anySets(cut.not()))
	}
	if right {
		m.in.learn(s, r.R, addc(r.end(), -1), r.end(), anySets(cut.not()))
	}
}

var spaceSet = setOf(' ', '\t', '\n', '\v', '\f', '\r')

// transform makes a copy with every byte set mapped.
func (m *mcall) transform(v view, maxLen Expr, f func(ByteSet) ByteSet) Value {
	in, st := m.in, m.st
	q := in.viewSets(st, v)
	var s Sets
	for l := range s {
		if !q[l].empty() {
			s[l] = f(q[l])
		}
	}
	n := in.freshRange(st, "n", 0, lenMax)
	if maxLen.T != nil || maxLen.C != 0 {
		st.cw().addGE(sub(maxLen, n))
	}
	return m.out(st, n, s, v)
}

func caseMap(up bool) func(ByteSet) ByteSet {
	return func(b ByteSet) ByteSet {
		var o ByteSet
		for i := 0; i < 256; i++ {
			if !b.has(byte(i)) {
				continue
			}
			c := byte(i)
			if up && c >= 'a' && c <= 'z' {
				c -= 32
			} else if !up && c >= 'A' && c <= 'Z' {
				c += 32
			}
			o.add(c)
			if i >= 0x80 {
				o = o.or(allBytes.and(asciiSet.not())).or(setOf('k', 'K', 's', 'S', 'i', 'I'))
			}
		}
		return o
	}
}

// fnSet applies a rune predicate or mapping to ASCII bytes.
func (m *mcall) applyRune(f Value, b Expr, st *State) []exit {
	in := m.in
	fn, ok := f.(Fn)
	if !ok {
		return []exit{{st, Opaque{"fn"}}}
	}
	if fn.F != nil {
		return in.callKnown(st, m.at, fn.F, []Value{Int{b}}, fn.Bind, fn.F.Signature)
	}
	return []exit{{st, Opaque{"fn"}}}
}

// runeFunc evaluates a func(rune) on every ASCII byte; the results are nil
// when not determined.
func (m *mcall) runeFunc(f Value) (res [128]Value) {
	in := m.in
	in.muted++
	mon := in.mon
	in.mon = nil
	defer func() { in.muted--; in.mon = mon }()
	for i := 0; i < 128; i++ {
		s := m.st.clone()
		ex := m.applyRune(f, cst(int64(i)), s)
		if len(ex) == 1 {
			switch r := ex[0].ret.(type) {
			case Bool:
				if d := in.decide(ex[0].st, r.C); d >= 0 {
					res[i] = Bool{condOf(d == 1)}
				}
			case Int:
				if e := ex[0].st.c.norm(r.E); e.isConst() {
					res[i] = Int{e}
				}
			}
		}
	}
	return
}

func byteFuncs(p string) {
	reg := func(name string, f model) { models[p+"."+name] = f }
	idx := func(last bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			w, ok2 := m.view(1)
			if !ok || !ok2 {
				return m.unknown()
			}
			pat, known := m.in.constView(m.st, w)
			return idxExits(m.search(v, pat, known, w.Len, last))
		}
	}
	reg("Index", idx(false))
	reg("LastIndex", idx(true))
	byteIdx := func(last bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			if !ok {
				return m.unknown()
			}
			s, exact := m.byteArg(1)
			return idxExits(m.searchSet(v, s, last, exact))
		}
	}
	reg("IndexByte", byteIdx(false))
	reg("LastIndexByte", byteIdx(true))
	reg("IndexRune", func(m *mcall) []exit {
		v, ok := m.view(0)
		x, isI := m.cint(1)
		if !ok || !isI || x < 0 || x > 127 {
			return m.unknown()
		}
		return idxExits(m.searchSet(v, setOf(byte(x)), false, true))
	})
	anyIdx := func(last bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			c, known := m.cstr(1)
			if !ok {
				return m.unknown()
			}
			s := allBytes
			if known {
				s = setOfString(c)
			}
			return idxExits(m.searchSet(v, s, last, known && s.subset(asciiSet)))
		}
	}
	reg("IndexAny", anyIdx(false))
	reg("LastIndexAny", anyIdx(true))
	reg("ContainsAny", func(m *mcall) []exit {
		v, ok := m.view(0)
		c, known := m.cstr(1)
		if !ok {
			return m.unknown()
		}
		s := allBytes
		if known {
			s = setOfString(c)
		}
		return boolExits(m.searchSet(v, s, false, known && s.subset(asciiSet)))
	})
	reg("ContainsRune", func(m *mcall) []exit {
		v, ok := m.view(0)
		x, isI := m.cint(1)
		if !ok || !isI || x < 0 || x > 127 {
			return m.unknown()
		}
		return boolExits(m.searchSet(v, setOf(byte(x)), false, true))
	})
	reg("Contains", func(m *mcall) []exit {
		v, ok := m.view(0)
		w, ok2 := m.view(1)
		if !ok || !ok2 {
			return m.unknown()
		}
		pat, known := m.in.constView(m.st, w)
		return boolExits(m.search(v, pat, known, w.Len, false))
	})
	idxFunc := func(last bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			if !ok {
				return m.unknown()
			}
			var yes, no ByteSet
			for i, r := range m.runeFunc(m.args[1]) {
				if b, ok := r.(Bool); ok && b.C.op == cTrue {
					yes.add(byte(i))
				} else if ok {
					no.add(byte(i))
				} else {
					yes.add(byte(i))
				}
			}
			yes = yes.or(asciiSet.not())
			// the call itself, with an unknown rune
			m.applyRune(m.args[1], m.in.freshRange(m.st, "r", 0, 0x10ffff), m.st.clone())
			fs := m.searchSet(v, yes, last, false)
			for _, f := range fs {
				if f.ok && !last {
					m.in.learn(f.st, v.R, v.Off, add(v.Off, f.idx), anySets(no.or(asciiSet.not())))
				}
				if !f.ok {
					m.in.learn(f.st, v.R, v.Off, v.end(), anySets(no.or(asciiSet.not())))
				}
			}
			return idxExits(fs)
		}
	}
	reg("IndexFunc", idxFunc(false))
	reg("LastIndexFunc", idxFunc(true))
	pre := func(suffix bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			w, ok2 := m.view(1)
			if !ok || !ok2 {
				return m.unknown()
			}
			return m.ret(Bool{m.prefixCond(v, w, suffix)})
		}
	}
	reg("HasPrefix", pre(false))
	reg("HasSuffix", pre(true))
	trimFix := func(suffix, cut bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			w, ok2 := m.view(1)
			if !ok || !ok2 {
				return m.unknown()
			}
			t, f := m.split1(m.prefixCond(v, w, suffix))
			var out []exit
			mk := func(s *State, x Value, hit bool) {
				if cut {
					out = append(out, exit{s, Tuple{x, Bool{condOf(hit)}}})
				} else {
					out = append(out, exit{s, x})
				}
			}
			for _, s := range t {
				if suffix {
					mk(s, subVal(v, cst(0), sub(v.Len, w.Len)), true)
				} else {
					mk(s, subVal(v, w.Len, v.Len), true)
				}
			}
			for _, s := range f {
				mk(s, v.val(), false)
			}
			return out
		}
	}
	reg("TrimPrefix", trimFix(false, false))
	reg("TrimSuffix", trimFix(true, false))
	reg("CutPrefix", trimFix(false, true))
	reg("CutSuffix", trimFix(true, true))
	trim := func(l, r bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			if !ok {
				return m.unknown()
			}
			c, known := m.cstr(1)
			s := allBytes
			if known {
				s = setOfString(c)
			}
			return m.trimmed(v, l, r, s, known && s.subset(asciiSet))
		}
	}
	reg("Trim", trim(true, true))
	reg("TrimLeft", trim(true, false))
	reg("TrimRight", trim(false, true))
	reg("TrimSpace", func(m *mcall) []exit {
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		return m.trimmed(v, true, true, spaceSet, true)
	})
	trimF := func(l, r bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			if !ok {
				return m.unknown()
			}
			m.applyRune(m.args[1], m.in.freshRange(m.st, "r", 0, 0x10ffff), m.st.clone())
			return m.trimmed(v, l, r, allBytes, false)
		}
	}
	reg("TrimFunc", trimF(true, true))
	reg("TrimLeftFunc", trimF(true, false))
	reg("TrimRightFunc", trimF(false, true))
	reg("Split", func(m *mcall) []exit { return m.splitModel(-1) })
	reg("SplitN", func(m *mcall) []exit {
		n, ok := m.cint(2)
		if !ok {
			return m.splitModel(-2)
		}
		return m.splitModel(n)
	})
	reg("Fields", func(m *mcall) []exit {
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		h := anySets(spaceSet.not())
		n := m.in.freshRange(m.st, "np", 0, lenMax)
		m.st.cw().addGE(sub(v.Len, n))
		return m.ret(m.pieces(m.st, v, &h, n, m.sig.Results().At(0).Type()))
	})
	reg("Cut", func(m *mcall) []exit {
		v, ok := m.view(0)
		w, ok2 := m.view(1)
		if !ok || !ok2 {
			return m.unknown()
		}
		pat, known := m.in.constView(m.st, w)
		var out []exit
		for _, f := range m.search(v, pat, known, w.Len, false) {
			if f.ok {
				a := v.sub(cst(0), f.idx)
				a.Cap = a.Len
				if !v.str {
					a.Cap = v.Cap
				}
				out = append(out, exit{f.st, Tuple{a.val(), subVal(v, add(f.idx, w.Len), v.Len), Bool{condT}}})
			} else {
				out = append(out, exit{f.st, Tuple{v.val(), m.in.zero(f.st, m.sig.Results().At(1).Type(), "nil"), Bool{condF}}})
			}
		}
		return out
	})
	reg("Count", func(m *mcall) []exit {
		in, st := m.in, m.st
		v, ok := m.view(0)
		w, ok2 := m.view(1)
		if !ok || !ok2 {
			return m.unknown()
		}
		pat, known := in.constView(st, w)
		if c, ok := in.constView(st, v); ok && known {
			return m.ret(Int{cst(int64(strings.Count(c, pat)))})
		}
		b, single := byte(0), known && len(pat) == 1
		if single {
			b = pat[0]
		} else if lw := st.c.norm(w.Len); !known && lw.isConst() && lw.C == 1 {
			// a separator held in a variable
			_ = lw
		}
		if single {
			if !in.viewSets(st, v)[lAny].has(b) || v.R == 0 {
				return m.ret(Int{cst(0)})
			}
			if cf := m.countFact(st, v, b, true); cf != nil {
				return m.ret(Int{cf.N})
			}
		}
		n := in.freshRange(st, "cnt", 0, lenMax)
		if known && len(pat) == 0 {
			st.cw().addGE(sub(addc(v.Len, 1), n))
		} else {
			st.cw().addGE(sub(v.Len, n))
		}
		if single && v.R != 0 && !st.reg[v.R].Const && !st.reg[v.R].SumR {
			rw := st.regw(v.R)
			rw.Cnt = append(rw.Cnt, CntFact{v.Off, v.end(), b, n})
		}
		return m.ret(Int{n})
	})
	reg("Equal", func(m *mcall) []exit {
		v, ok := m.view(0)
		w, ok2 := m.view(1)
		if !ok || !ok2 {
			return m.unknown()
		}
		return m.ret(Bool{m.in.strEq(m.st, Str{v.R, v.Off, v.Len}, Str{w.R, w.Off, w.Len})})
	})
	reg("Compare", func(m *mcall) []exit {
		return m.ret(Int{m.in.freshRange(m.st, "cmp", -1, 1)})
	})
	reg("EqualFold", func(m *mcall) []exit {
		return m.ret(Bool{m.in.freshCond(m.st, "fold")})
	})
	repl := func(all bool) model {
		return func(m *mcall) []exit {
			v, ok := m.view(0)
			old, k1 := m.cstr(1)
			nv, ok2 := m.view(2)
			if !ok || !ok2 {
				return m.unknown()
			}
			q := m.in.viewSets(m.st, nv)[lAny]
			rm := false
			if all && k1 && len(old) == 1 {
				rm = true
			} else if !all {
				if n, ok := m.cint(3); ok && n < 0 && k1 && len(old) == 1 {
					rm = true
				}
			}
			mx := cst(0)
			ln := m.st.c.norm(nv.Len)
			if k1 && ln.isConst() && ln.C <= int64(len(old)) {
				mx = v.Len
			}
			return m.ret(m.transform(v, mx, func(b ByteSet) ByteSet {
				if k1 && len(old) == 1 && !b.has(old[0]) {
					return b
				}
				if rm {
					b = b.and(setOf(old[0]).not())
				}
				return b.or(q)
			}))
		}
	}
	reg("Replace", repl(false))
	reg("ReplaceAll", repl(true))
	reg("ToLower", func(m *mcall) []exit { return m.caseModel(false) })
	reg("ToUpper", func(m *mcall) []exit { return m.caseModel(true) })
	reg("Map", func(m *mcall) []exit {
		v, ok := m.view(1)
		if !ok {
			return m.unknown()
		}
		res := m.runeFunc(m.args[0])
		m.applyRune(m.args[0], m.in.freshRange(m.st, "r", 0, 0x10ffff), m.st.clone())
		f := func(b ByteSet) ByteSet {
			var o ByteSet
			for i := 0; i < 128; i++ {
				if !b.has(byte(i)) {
					continue
				}
				x, ok := res[i].(Int)
				switch {
				case !ok:
					o = allBytes
				case x.E.C < 0:
				case x.E.C < 128:
					o.add(byte(x.E.C))
				default:
					for _, c := range []byte(string(rune(x.E.C))) {
						o.add(c)
					}
				}
			}
			if !b.subset(asciiSet) {
				// decoded runes keep to multi-byte forms unless the function maps them down
				o = o.or(asciiSet.not())
			}
			return o
		}
		return m.ret(m.transform(v, cst(0), f))
	})
	reg("Repeat", func(m *mcall) []exit {
		v, ok := m.view(0)
		n, ok2 := m.args[1].(Int)
		if !ok || !ok2 {
			return m.unknown()
		}
		var out []exit
		for _, s := range m.in.require(m.st, m.at, "make", ge(n.E, cst(0)), "negative Repeat count") {
			q := m.in.viewSets(s, v)
			ln := m.in.freshRange(s, "n", 0, lenMax)
			if l := s.c.norm(v.Len); l.isConst() && l.C == 1 {
				ln = n.E
			}
			mm := *m
			mm.st = s
			out = append(out, exit{s, mm.out(s, ln, q, v)})
		}
		return out
	})
	reg("Join", func(m *mcall) []exit {
		in, st := m.in, m.st
		s, ok := m.args[0].(Slice)
		sep, ok2 := m.view(1)
		if !ok || !ok2 {
			return m.unknown()
		}
		q := in.viewSets(st, sep)
		from := view{str: p == "strings"}
		if r := st.reg[s.R]; s.R != 0 && r != nil {
			var el Value
			if r.Lazy && r.Exact == nil {
				el = in.elem(st, s.R, in.freshRange(st, "i", 0, lenMax), nil)
			} else {
				el = in.regionSum(st, r)
			}
			if ev, ok := viewOf(el); ok {
				q = q.or(in.viewSets(st, ev))
				from.R = ev.R
			} else if el != nil {
				q = plain(allBytes)
			}
		}
		n := in.freshRange(st, "n", 0, lenMax)
		return m.ret(m.out(st, n, q, from))
	})
	if p == "bytes" {
		reg("Clone", func(m *mcall) []exit {
			s, ok := m.args[0].(Slice)
			if !ok {
				return m.unknown()
			}
			id := m.in.copyHint(m.st, m.site("cl"), s, true)
			return m.ret(Slice{R: id, Off: cst(0), Len: s.Len, Cap: s.Len, NN: s.NN, Hint: s.Hint})
		})
		reg("Runes", func(m *mcall) []exit { return m.unknown() })
	}
}

func (m *mcall) caseModel(up bool) []exit {
	v, ok := m.view(0)
	if !ok {
		return m.unknown()
	}
	if c, ok := m.in.constView(m.st, v); ok && v.str {
		if up {
			return m.ret(m.in.constStr(m.st, strings.ToUpper(c)))
		}
		return m.ret(m.in.constStr(m.st, strings.ToLower(c)))
	}
	if m.in.viewSets(m.st, v)[lAny].subset(asciiSet) {
		q := m.in.viewSets(m.st, v)
		f := caseMap(up)
		for l := range q {
			q[l] = f(q[l])
		}
		return m.ret(m.out(m.st, v.Len, q, v))
	}
	return m.ret(m.transform(v, cst(0), caseMap(up)))
}

// ---- bytes.Buffer and strings.Builder ----

func (m *mcall) native(p Value, kind string) (Ptr, Native, bool) {
	ptr, ok := p.(Ptr)
	if !ok {
		return Ptr{}, Native{}, false
	}
	n, ok := m.in.cell(m.st, ptr, nil).(Native)
	return ptr, n, ok && n.Kind == kind
}

// setNative replaces a native object without reporting a write.
func (in *Interp) setNative(st *State, p Ptr, n Native) {
	if p.R != 0 {
		old := in.elem(st, p.R, p.Idx, nil)
		if len(p.Path) > 0 {
			in.setElem(st, p.R, p.Idx, in.setIn(st, old, p.Path, n, "native"))
		} else {
			in.setElem(st, p.R, p.Idx, n)
		}
		return
	}
	ob := in.object(st, p.O)
	if ob == nil {
		return
	}
	nv := in.setIn(st, ob.V, p.Path, n, in.onames[p.O])
	if nv == nil {
		return
	}
	c := *ob
	if ob.Sum {
		j := in.newJoiner(st, []*State{st})
		nv = j.loose("weak", []Value{ob.V, nv})
	}
	c.V = nv
	st.obj[p.O] = &c
}

func (n Native) with(k string, v Value) Native {
	o := Native{n.Kind, map[string]Value{}}
	for a, b := range n.F {
		o.F[a] = b
	}
	o.F[k] = v
	return o
}

// recvNN requires a non-nil receiver.
func (m *mcall) recvNN(p Ptr) []*State {
	return m.in.require(m.st, m.at, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference")
}

func bufferModels() {
	for _, t := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		builder := t != "(*bytes.Buffer)"
		reg := func(name string, f func(m *mcall, p Ptr, n Native, s Slice) []exit) {
			models[t+"."+name] = func(m *mcall) []exit {
				p0, ok := m.args[0].(Ptr)
				if !ok {
					m.in.gap("untracked buffer in %s", m.in.prog.short(m.at.Parent().String()))
					return m.unknown()
				}
				var out []exit
				for _, s := range m.recvNN(p0) {
					mm := *m
					mm.st = s
					p, n, ok := mm.native(p0, "buf")
					if !ok {
						m.in.gap("untracked buffer in %s", m.in.prog.short(m.at.Parent().String()))
						out = append(out, mm.unknown()...)
						continue
					}
					sl, _ := n.F["s"].(Slice)
					out = append(out, f(&mm, p, n, sl)...)
				}
				return out
			}
		}
		put := func(m *mcall, p Ptr, n Native, s Slice, src Value, ret func() Value) []exit {
			in, st := m.in, m.st
			m.in.event(st, m.at, "bufwrite", append([]Value{p, s}, src)...)
			v, _ := viewOf(src)
			q := in.viewSets(st, v)
			lo := add(s.Off, s.Len)
			st.cw().addGE(sub(cst(lenMax/2), v.Len))
			if st.reg[s.R] == nil {
				return m.ret(ret())
			}
			in.blit(st, s.R, lo, v, q)
			w := st.regw(s.R)
			if sr := st.reg[v.R]; sr != nil && v.R != 0 {
				w.From = unionStr(w.From, sr.From)
				if sr.Own != "new" && sr.Own != "const" {
					w.From = unionStr(w.From, []string{"copy:" + sr.Own})
				}
			}
			s.Len = add(s.Len, v.Len)
			in.setNative(st, p, n.with("s", s))
			return m.ret(ret())
		}
		writeRet := func(m *mcall, ln Expr) func() Value {
			return func() Value { return Tuple{Int{ln}, nilErr()} }
		}
		reg("Write", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			return put(m, p, n, s, m.args[1], writeRet(m, lenOf(m.args[1])))
		})
		reg("WriteString", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			return put(m, p, n, s, m.args[1], writeRet(m, lenOf(m.args[1])))
		})
		one := func(m *mcall, x Int) Value {
			in, st := m.in, m.st
			set := in.byteSetOf(st, x.E)
			e := st.c.norm(x.E)
			if e.isConst() && e.C >= 0 && e.C < 256 {
				return in.constStr(st, string([]byte{byte(e.C)}))
			}
			id := in.newBytes(st, m.site("c"), cst(1), in.byteLabels(st, x, set), "new", false)
			return Str{id, cst(0), cst(1)}
		}
		reg("WriteByte", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			x, ok := m.args[1].(Int)
			if !ok {
				x = Int{m.in.freshRange(m.st, "b", 0, 255)}
			}
			return put(m, p, n, s, one(m, x), func() Value { return nilErr() })
		})
		reg("WriteRune", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			x, ok := m.args[1].(Int)
			in, st := m.in, m.st
			if ok {
				e := st.c.norm(x.E)
				if e.isConst() && e.C >= 0 && e.C < 128 {
					return put(m, p, n, s, in.constStr(st, string(rune(e.C))), writeRet(m, cst(1)))
				}
				if e.isConst() {
					c := string(rune(e.C))
					return put(m, p, n, s, in.constStr(st, c), writeRet(m, cst(int64(len(c)))))
				}
			}
			ln := in.freshRange(st, "w", 1, 4)
			set := allBytes
			if ok {
				if lo, _ := in.interval(st, x.E); lo != nil && lo.IsInt64() && lo.Int64() >= 128 {
					set = asciiSet.not()
				}
			}
			id := in.newBytes(st, m.site("r"), ln, plain(set), "new", false)
			return put(m, p, n, s, Str{id, cst(0), ln}, writeRet(m, ln))
		})
		reg("Len", func(m *mcall, p Ptr, n Native, s Slice) []exit { return m.ret(Int{s.Len}) })
		reg("Cap", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			c := m.in.freshRange(m.st, "cap", 0, lenMax)
			m.st.cw().addGE(sub(c, s.Len))
			return m.ret(Int{c})
		})
		reg("String", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			id := m.in.copyHint(m.st, m.site("str"), s, false)
			return m.ret(Str{id, cst(0), s.Len})
		})
		reg("Reset", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			if st := m.st; st.reg[s.R] != nil && builder {
				// the old content is given away
				id := m.in.newRegion(st, m.site("new"), &Region{Byte: true, N: cst(lenMax), Own: "new", Mut: true})
				s.R = id
			} else if st.reg[s.R] != nil {
				w := st.regw(s.R)
				w.Ver = m.in.nextSeq()
			}
			s.Len = cst(0)
			m.in.setNative(m.st, p, n.with("s", s))
			return m.ret(Tuple{})
		})
		reg("Grow", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			x, _ := m.args[1].(Int)
			var out []exit
			// a count that may have wrapped around stands for more memory than there is
			if lo, _ := m.in.interval(m.st, x.E); lo == nil || !lo.IsInt64() || lo.Int64() < -1<<61 {
				m.st.cw().addGE(x.E)
			}
			for _, st := range m.in.require(m.st, m.at, "make", ge(x.E, cst(0)), "Grow: negative count") {
				out = append(out, exit{st, Tuple{}})
			}
			return out
		})
		if builder {
			continue
		}
		reg("Bytes", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			c := m.in.freshRange(m.st, "cap", 0, lenMax)
			m.st.cw().addGE(sub(c, s.Len))
			s.Cap = c
			if m.st.c.entailsGE(neg(s.Len)) {
				s.NN = m.in.freshNN(m.st, "nn")
			}
			return m.ret(s)
		})
		reg("Truncate", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			x, _ := m.args[1].(Int)
			var out []exit
			for _, st := range m.in.require(m.st, m.at, "slice", cAndOf(ge(x.E, cst(0)), ge(s.Len, x.E)), "bytes.Buffer: truncation out of range") {
				s2 := s
				s2.Len = x.E
				m.in.setNative(st, p, n.with("s", s2))
				out = append(out, exit{st, Tuple{}})
			}
			return out
		})
		reg("ReadFrom", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			ln := m.in.freshRange(m.st, "n", 0, lenMax/2)
			id := m.in.newBytes(m.st, m.site("rf"), ln, plain(allBytes), "new", false)
			s2 := m.st.clone()
			out := put(m, p, n, s, Str{id, cst(0), ln}, func() Value { return Tuple{Int{ln}, nilErr()} })
			mm := *m
			mm.st = s2
			return append(out, put(&mm, p, n, s, Str{id, cst(0), ln}, func() Value { return Tuple{Int{ln}, m.unkErr()} })...)
		})
		reg("Next", func(m *mcall, p Ptr, n Native, s Slice) []exit {
			x, _ := m.args[1].(Int)
			var out []exit
			t, f := m.split1(ge(s.Len, x.E))
			for _, st := range t {
				s2 := s
				s2.Off, s2.Len = add(s.Off, x.E), sub(s.Len, x.E)
				m.in.setNative(st, p, n.with("s", s2))
				r := s
				r.Len = x.E
				out = append(out, exit{st, r})
			}
			for _, st := range f {
				s2 := s
				s2.Off, s2.Len = add(s.Off, s.Len), cst(0)
				m.in.setNative(st, p, n.with("s", s2))
				out = append(out, exit{st, s})
			}
			return out
		})
	}
	mkBuf := func(m *mcall, src Value) []exit {
		in, st := m.in, m.st
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := in.newObj(st, m.site("buf"), t, "new")
		p := Ptr{O: o, NN: cst(1)}
		v, ok := viewOf(src)
		if ok && !st.c.entailsGE(neg(v.Len)) {
			n := st.obj[o].V.(Native)
			s := n.F["s"].(Slice)
			in.blit(st, s.R, cst(0), v, in.viewSets(st, v))
			s.Len = v.Len
			w := st.regw(s.R)
			if sr := st.reg[v.R]; sr != nil && v.R != 0 && sr.Own != "new" && sr.Own != "const" {
				w.From = unionStr(sr.From, []string{"maybe:" + sr.Own})
			}
			in.setNative(st, p, n.with("s", s))
		}
		return m.ret(p)
	}
	models["bytes.NewBuffer"] = func(m *mcall) []exit { return mkBuf(m, m.args[0]) }
	models["bytes.NewBufferString"] = func(m *mcall) []exit { return mkBuf(m, m.args[0]) }
	rd := func(m *mcall) []exit {
		in, st := m.in, m.st
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := in.newObj(st, m.site("rd"), t, "new")
		n := st.obj[o].V.(Native).with("s", m.args[0])
		in.setNative(st, Ptr{O: o, NN: cst(1)}, n)
		return m.ret(Ptr{O: o, NN: cst(1)})
	}
	models["bytes.NewReader"] = rd
	models["strings.NewReader"] = rd
	for _, t := range []string{"(*bytes.Reader)", "(*strings.Reader)"} {
		models[t+".Read"] = func(m *mcall) []exit { return m.readContract(m.args[1]) }
	}
}

// ---- others ----

var digitSet = setOfString("0123456789")

func (m *mcall) digits(x Value, base int64, okBase bool) view {
	in, st := m.in, m.st
	set := setOfString("0123456789")
	if !okBase || base > 10 {
		set = setOfString("0123456789abcdefghijklmnopqrstuvwxyz")
	}
	i, ok := x.(Int)
	if ok {
		e := st.c.norm(i.E)
		if e.isConst() && base == 10 && okBase {
			s := in.constStr(st, strconv.FormatInt(e.C, 10))
			v, _ := viewOf(s)
			return v
		}
		lo, _ := in.interval(st, i.E)
		if lo == nil || lo.Sign() < 0 {
			set.add('-')
		}
	} else {
		set.add('-')
	}
	mx := int64(20)
	if !okBase || base < 10 {
		mx = 65
	}
	n := in.freshRange(st, "nd", 1, mx)
	id := in.newBytes(st, m.site("num"), n, plain(set), "new", false)
	in.event(st, m.at, "format", x)
	return view{R: id, Off: cst(0), Len: n, Cap: n, str: true, NN: cst(1)}
}

func (m *mcall) sprintfSets(fi int) (Sets, bool) {
	in, st := m.in, m.st
	f, ok := m.cstr(fi)
	if !ok {
		return plain(allBytes), false
	}
	args, _ := m.args[fi+1].(Slice)
	var vals []Value
	if args.R != 0 {
		r := st.reg[args.R]
		l := st.c.norm(args.Len)
		if r == nil || r.Exact == nil || !l.isConst() || l.C > int64(len(r.Exact)) {
			return plain(allBytes), false
		}
		vals = r.Exact[:l.C]
	}
	out := Sets{}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out[lAny].add(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			if f[i] == ' ' || f[i] >= '0' && f[i] <= '9' {
				out[lAny] = out[lAny].or(setOf(' ', '0'))
			}
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			out[lAny].add('%')
			continue
		}
		if k >= len(vals) {
			return plain(allBytes), false
		}
		a := vals[k]
		k++
		fc, _ := a.(Iface)
		switch v := fc.V.(type) {
		case Int:
			if f[i] == 'd' || f[i] == 'v' {
				set := digitSet
				if lo, _ := in.interval(st, v.E); lo == nil || lo.Sign() < 0 {
					set.add('-')
				}
				if f[i] == 'v' && fc.T != nil && namedOf(fc.T) != nil {
					return plain(allBytes), false
				}
				out[lAny] = out[lAny].or(set)
				continue
			}
			return plain(allBytes), false
		case Str:
			if (f[i] == 's' || f[i] == 'v') && fc.T != nil && types.Identical(fc.T, types.Typ[types.String]) {
				vw, _ := viewOf(v)
				out = out.or(in.viewSets(st, vw))
				continue
			}
			if f[i] == 'q' {
				vw, _ := viewOf(v)
				q := in.viewSets(st, vw)
				for l := range q {
					if !q[l].empty() {
						q[l] = allBytes
					}
				}
				out = out.or(q)
				out[lAny] = allBytes
				continue
			}
		}
		out[lAny] = allBytes
		for l := 1; l < nLab; l++ {
			out[l] = allBytes
		}
	}
	return out, true
}

func (m *mcall) parseNum(bits int64, signed bool, rt types.Type) []exit {
	in, st := m.in, m.st
	v, ok := m.view(0)
	if ok {
		if c, isC := in.constView(st, v); isC {
			if x, err := strconv.ParseInt(c, 10, 64); err == nil && x > -coefMax && x < coefMax && bits == 64 {
				return m.ret(Tuple{Int{cst(x)}, nilErr()})
			}
		}
	}
	s2 := st.clone()
	mk := func(s *State) Int {
		x := in.freshInt(s, "num", rt)
		if bits > 0 && bits < 64 {
			c := s.cw()
			if signed {
				c.addGE(addc(x.E, int64(1)<<(bits-1)))
				c.addGE(addc(neg(x.E), int64(1)<<(bits-1)-1))
			} else {
				c.addGE(addc(neg(x.E), int64(1)<<bits-1))
			}
		}
		return x
	}
	return []exit{{st, Tuple{mk(st), nilErr()}}, {s2, Tuple{mk(s2), m.unkErr()}}}
}

func miscModels() {
	r := func(name string, f model) { models[name] = f }
	r("errors.New", func(m *mcall) []exit { return m.ret(m.newErr()) })
	r("fmt.Errorf", func(m *mcall) []exit {
		m.in.event(m.st, m.at, "errorf", m.args...)
		e := m.newErr()
		if f, ok := m.cstr(0); ok && strings.Contains(f, "%w") {
			e.ID = fmt.Sprintf("wrap:%s~%d", m.in.siteID(m), m.in.nextSeq())
		}
		return m.ret(e)
	})
	r("errors.Is", func(m *mcall) []exit {
		a, ok1 := m.args[0].(Iface)
		b, ok2 := m.args[1].(Iface)
		if ok1 && ok2 && (strings.HasPrefix(a.ID, "new:") || strings.HasPrefix(a.ID, "globalv:") || a.T != nil && false) {
			c, sts := m.in.ifaceEq(m.st, m.at, a, b)
			if len(sts) == 1 {
				return []exit{{sts[0], Bool{c}}}
			}
		}
		return m.ret(Bool{m.in.freshCond(m.st, "is")})
	})
	r("fmt.Sprintf", func(m *mcall) []exit {
		s, _ := m.sprintfSets(0)
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		return m.ret(m.freshStr(m.st, n, s, view{}))
	})
	r("fmt.Sprint", func(m *mcall) []exit {
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		return m.ret(m.freshStr(m.st, n, plain(allBytes), view{}))
	})
	num := func(name string, base func(m *mcall) (int64, bool)) {
		r("strconv."+name, func(m *mcall) []exit {
			b, ok := base(m)
			v := m.digits(m.args[0], b, ok)
			return m.ret(v.val())
		})
	}
	ten := func(m *mcall) (int64, bool) { return 10, true }
	arg := func(i int) func(m *mcall) (int64, bool) { return func(m *mcall) (int64, bool) { return m.cint(i) } }
	num("Itoa", ten)
	num("FormatInt", arg(1))
	num("FormatUint", arg(1))
	app := func(m *mcall) []exit {
		b, ok := m.cint(2)
		d, isS := m.args[0].(Slice)
		if !isS {
			return m.unknown()
		}
		v := m.digits(m.args[1], b, ok)
		return m.in.appendView(m.st, m.at, d, v.val(), types.Typ[types.Uint8], m.site("an"))
	}
	r("strconv.AppendInt", app)
	r("strconv.AppendUint", app)
	r("strconv.Quote", func(m *mcall) []exit {
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		return m.ret(m.freshStr(m.st, n, plain(allBytes), view{}))
	})
	r("strconv.Atoi", func(m *mcall) []exit { return m.parseNum(64, true, types.Typ[types.Int]) })
	parse := func(signed bool, rt types.Type) model {
		return func(m *mcall) []exit {
			bits, ok := m.cint(2)
			if !ok {
				bits = 64
			}
			if bits == 0 {
				bits = 64
			}
			m.in.event(m.st, m.at, "parse", m.args...)
			return m.parseNum(bits, signed, rt)
		}
	}
	r("strconv.ParseInt", parse(true, types.Typ[types.Int64]))
	r("strconv.ParseUint", parse(false, types.Typ[types.Uint64]))
	r("strconv.ParseFloat", func(m *mcall) []exit {
		s2 := m.st.clone()
		id := fmt.Sprintf("flt~%d", m.in.nextSeq())
		return []exit{{m.st, Tuple{Opaque{id}, nilErr()}}, {s2, Tuple{Opaque{id + "e"}, m.unkErr()}}}
	})
	r("strconv.ParseBool", func(m *mcall) []exit { return m.unknown() })
	r("math.Round", func(m *mcall) []exit {
		o, _ := m.args[0].(Opaque)
		return m.ret(Opaque{"round:" + o.ID})
	})
	r("html.UnescapeString", func(m *mcall) []exit {
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		if !m.in.viewSets(m.st, v)[lAny].has('&') {
			return m.ret(m.args[0])
		}
		return m.ret(m.transform(v, v.Len, func(b ByteSet) ByteSet { // no entity is shorter than its character
			if b.has('&') {
				return allBytes
			}
			return b
		}))
	})
	valid := func(m *mcall) []exit {
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		if m.in.viewSets(m.st, v)[lAny].subset(asciiSet) {
			m.in.event(m.st, m.at, "utf8", m.args[0])
			return m.ret(Bool{condT})
		}
		if v.R != 0 && m.st.reg[v.R] != nil && m.st.reg[v.R].SumR {
			return m.ret(Bool{m.in.freshCond(m.st, "utf8")})
		}
		id := "utf8:" + m.in.verID(m.st, v)
		return m.ret(Bool{&Cond{op: cPred, id: id, e: add(v.Off, v.Len)}})
	}
	r("unicode/utf8.Valid", valid)
	r("unicode/utf8.ValidString", valid)
	dec := func(m *mcall) []exit {
		in, st := m.in, m.st
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		var out []exit
		s2 := st.clone()
		for _, s := range in.assumeCmp(s2, cEQ, v.Len) {
			out = append(out, exit{s, Tuple{Int{cst(utf8.RuneError)}, Int{cst(0)}}})
		}
		for _, s := range in.assumeCmp(st, cGE, addc(v.Len, -1)) {
			b := in.readByte(s, v.R, v.Off, types.Typ[types.Uint8])
			t := s.clone()
			for _, a := range in.assume(s, ge(cst(127), b.E), true) {
				out = append(out, exit{a, Tuple{b, Int{cst(1)}}})
			}
			for _, a := range in.assume(t, ge(b.E, cst(128)), true) {
				w := in.freshRange(a, "w", 1, 4)
				a.cw().addGE(sub(v.Len, w))
				out = append(out, exit{a, Tuple{Int{in.freshRange(a, "rune", 128, 0x10ffff)}, Int{w}}})
			}
		}
		return out
	}
	r("unicode/utf8.DecodeRune", dec)
	r("unicode/utf8.DecodeRuneInString", dec)
	decLast := func(m *mcall) []exit {
		in, st := m.in, m.st
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		w := in.freshRange(st, "w", 0, 4)
		st.cw().addGE(sub(v.Len, w))
		s2 := st.clone()
		var out []exit
		for _, s := range in.assumeCmp(st, cGE, addc(v.Len, -1)) {
			s.cw().addGE(addc(w, -1))
			out = append(out, exit{s, Tuple{Int{in.freshRange(s, "rune", 0, 0x10ffff)}, Int{w}}})
		}
		for _, s := range in.assumeCmp(s2, cEQ, v.Len) {
			out = append(out, exit{s, Tuple{Int{cst(utf8.RuneError)}, Int{cst(0)}}})
		}
		return out
	}
	r("unicode/utf8.DecodeLastRune", decLast)
	r("unicode/utf8.DecodeLastRuneInString", decLast)
	runeCount := func(m *mcall) []exit {
		v, ok := m.view(0)
		n := m.in.freshRange(m.st, "rc", 0, lenMax)
		if ok {
			m.st.cw().addGE(sub(v.Len, n))
		}
		return m.ret(Int{n})
	}
	r("unicode/utf8.RuneCount", runeCount)
	r("unicode/utf8.RuneCountInString", runeCount)
	r("unicode/utf8.RuneLen", func(m *mcall) []exit { return m.ret(Int{m.in.freshRange(m.st, "rl", -1, 4)}) })
	r("unicode.IsSpace", func(m *mcall) []exit {
		x, ok := m.args[0].(Int)
		if ok {
			set := m.in.byteSetOf(m.st, x.E)
			if hi, okh := m.st.c.maximum(x.E); okh && hi < 128 {
				return m.ret(Bool{m.in.memberCond(m.st, x.E, spaceSet)})
			}
			_ = set
		}
		return m.ret(Bool{m.in.freshCond(m.st, "sp")})
	})
	for _, nm := range []string{"IsDigit", "IsLetter", "IsUpper", "IsLower", "IsPrint", "IsControl", "IsNumber", "IsPunct"} {
		r("unicode."+nm, func(m *mcall) []exit { return m.ret(Bool{m.in.freshCond(m.st, "uc")}) })
	}
	// text encodings
	decode := func(m *mcall) []exit {
		p, _ := m.args[0].(Ptr)
		v, ok := m.view(1)
		if !ok {
			return m.unknown()
		}
		var out []exit
		for _, s := range m.recvNN(p) {
			m.in.event(s, m.at, "codec", m.args...)
			s2 := s.clone()
			n := m.in.freshRange(s, "n", 0, lenMax)
			q := m.in.viewSets(s, v)
			for l := range q {
				if !q[l].empty() {
					q[l] = allBytes
				}
			}
			q[lAny] = allBytes
			mm := *m
			mm.st = s
			rv := mm.out(s, n, q, v)
			if x, _ := viewOf(rv); true {
				w := s.regw(x.R)
				w.From = unionStr(w.From, []string{"codec"})
			}
			out = append(out, exit{s, Tuple{rv, nilErr()}})
			out = append(out, exit{s2, Tuple{m.in.zero(s2, m.sig.Results().At(0).Type(), "nil"), m.unkErr()}})
		}
		return out
	}
	for _, t := range []string{"Decoder", "Encoder"} {
		r("(*golang.org/x/text/encoding."+t+").Bytes", decode)
		r("(*golang.org/x/text/encoding."+t+").String", decode)
	}
	// replacers
	r("strings.NewReplacer", func(m *mcall) []exit {
		in, st := m.in, m.st
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		s, _ := m.args[0].(Slice)
		n := Native{"replacer", map[string]Value{}}
		if rg := st.reg[s.R]; s.R != 0 && rg != nil && rg.Exact != nil {
			ok := true
			var ps []string
			for _, e := range rg.Exact {
				x, isS := e.(Str)
				c, k := in.constOf(st, x)
				if !isS || !k {
					ok = false
				}
				ps = append(ps, c)
			}
			if ok {
				in.oblige(st, m.at, "panic", len(ps)%2 == 0, "NewReplacer: odd argument count")
				for i, p := range ps {
					n.F[fmt.Sprintf("%03d", i)] = Opaque{p}
				}
			}
		}
		o := in.oid(m.site("repl"))
		if _, live := st.obj[o]; live {
			in.retireObject(st, o)
		}
		st.obj[o] = &Obj{T: t, Own: "lib", V: n, Name: "replacer"}
		return m.ret(Ptr{O: o, NN: cst(1)})
	})
	r("(*strings.Replacer).Replace", func(m *mcall) []exit {
		v, ok := m.view(1)
		p, n, ok2 := m.native(m.args[0], "replacer")
		if !ok || !ok2 {
			return m.unknown()
		}
		_ = p
		ks := sortedKeys(n.F)
		var pairs [][2]string
		for i := 0; i+1 < len(ks); i += 2 {
			pairs = append(pairs, [2]string{n.F[ks[i]].(Opaque).ID, n.F[ks[i+1]].(Opaque).ID})
		}
		if c, isC := m.in.constView(m.st, v); isC && len(pairs) > 0 {
			var l []string
			for _, p := range pairs {
				l = append(l, p[0], p[1])
			}
			return m.ret(m.in.constStr(m.st, strings.NewReplacer(l...).Replace(c)))
		}
		m.in.event(m.st, m.at, "replace", m.args...)
		mx := v.Len
		for _, p := range pairs {
			if len(p[1]) > len(p[0]) {
				mx = cst(0)
			}
		}
		if len(pairs) == 0 {
			mx = cst(0)
		}
		return m.ret(m.transform(v, mx, func(b ByteSet) ByteSet {
			o := b
			for _, p := range pairs {
				possible := true
				for i := 0; i < len(p[0]); i++ {
					if !b.has(p[0][i]) {
						possible = false
					}
				}
				if len(p[0]) == 1 {
					o = o.and(setOf(p[0][0]).not())
				}
				_ = possible
			}
			for _, p := range pairs {
				possible := true
				for i := 0; i < len(p[0]); i++ {
					if !b.has(p[0][i]) {
						possible = false
					}
				}
				if possible {
					o = o.or(setOfString(p[1]))
				}
			}
			if len(pairs) == 0 {
				o = allBytes
			}
			return o
		}))
	})
	// base32
	r("(encoding/base32.Encoding).WithPadding", func(m *mcall) []exit {
		in, st := m.in, m.st
		pad, ok := m.cint(1)
		o := in.oid(m.site("b32"))
		if _, live := st.obj[o]; live {
			in.retireObject(st, o)
		}
		n := Native{"b32", map[string]Value{"pad": Int{cst(0)}}}
		if !ok || pad != -1 {
			n.F["pad"] = Int{cst(1)}
		}
		st.obj[o] = &Obj{T: m.sig.Results().At(0).Type().(*types.Pointer).Elem(), Own: "lib", V: n, Name: "base32"}
		return m.ret(Ptr{O: o, NN: cst(1)})
	})
	nopad := func(m *mcall) bool {
		_, n, ok := m.native(m.args[0], "b32")
		if !ok {
			return false
		}
		p, _ := n.F["pad"].(Int)
		return p.E.isConst() && p.E.C == 0
	}
	b32set := setOfString("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567")
	encLen := func(m *mcall, st *State, ln Expr) Expr {
		l := st.c.norm(ln)
		if l.isConst() {
			if nopad(m) {
				return cst((l.C*8 + 4) / 5)
			}
			return cst((l.C + 4) / 5 * 8)
		}
		slack := int64(4)
		if !nopad(m) {
			slack = 32
		}
		n := m.in.namedRange(st, fmt.Sprintf("el%d:%v", slack, l), 0, lenMax)
		c := st.cw()
		c.addGE(sub(scale(n, 5), scale(l, 8)))
		c.addGE(addc(sub(scale(l, 8), scale(n, 5)), slack))
		return n
	}
	r("(*encoding/base32.Encoding).EncodeToString", func(m *mcall) []exit {
		v, _ := m.view(1)
		set := b32set
		if !nopad(m) {
			set.add('=')
		}
		return m.ret(m.freshStr(m.st, encLen(m, m.st, v.Len), plain(set), v))
	})
	r("(*encoding/base32.Encoding).EncodedLen", func(m *mcall) []exit {
		x, _ := m.args[1].(Int)
		return m.ret(Int{encLen(m, m.st, x.E)})
	})
	r("(*encoding/base32.Encoding).DecodedLen", func(m *mcall) []exit {
		x, _ := m.args[1].(Int)
		n := m.in.freshRange(m.st, "dl", 0, lenMax)
		c := m.st.cw()
		// n <= 5x/8 < n+1 (without padding)
		c.addGE(sub(scale(x.E, 5), scale(n, 8)))
		if nopad(m) {
			c.addGE(addc(sub(scale(n, 8), scale(x.E, 5)), 7))
		}
		return m.ret(Int{n})
	})
	r("(*encoding/base32.Encoding).Encode", func(m *mcall) []exit {
		d, ok := m.args[1].(Slice)
		v, ok2 := m.view(2)
		if !ok || !ok2 {
			m.in.oblige(m.st, m.at, "index", false, "base32: untracked buffer")
			return m.ret(Tuple{})
		}
		n := encLen(m, m.st, v.Len)
		set := b32set
		if !nopad(m) {
			set.add('=')
		}
		var out []exit
		for _, s := range m.in.require(m.st, m.at, "index", ge(d.Len, n), "base32: destination too short") {
			if rg := s.reg[d.R]; rg != nil && d.R != 0 {
				m.in.wrote(s, m.at, rg.Own, m.in.rnames[d.R])
				m.in.writeBytes(s, d.R, d.Off, add(d.Off, n), plain(set), true)
			}
			out = append(out, exit{s, Tuple{}})
		}
		return out
	})
	decLen := func(m *mcall, st *State, v view) Expr {
		n := m.in.freshRange(st, "dn", 0, lenMax)
		st.cw().addGE(sub(scale(v.Len, 5), scale(n, 8)))
		return n
	}
	r("(*encoding/base32.Encoding).DecodeString", func(m *mcall) []exit {
		v, ok := m.view(1)
		if !ok {
			return m.unknown()
		}
		m.in.event(m.st, m.at, "b32decode", m.args...)
		s2 := m.st.clone()
		n := decLen(m, m.st, v)
		b := m.freshBytes(m.st, n, plain(allBytes), v)
		n2 := decLen(m, s2, v)
		b2 := m.freshBytes(s2, n2, plain(allBytes), v)
		return []exit{{m.st, Tuple{b, nilErr()}}, {s2, Tuple{b2, m.unkErr()}}}
	})
	r("(*encoding/base32.Encoding).Decode", func(m *mcall) []exit {
		d, ok := m.args[1].(Slice)
		v, ok2 := m.view(2)
		if !ok || !ok2 {
			m.in.oblige(m.st, m.at, "index", false, "base32: untracked buffer")
			return m.unknown()
		}
		// every full or partial group is stored: the destination must hold all of it
		need := m.in.freshRange(m.st, "dn", 0, lenMax)
		c := m.st.cw()
		c.addGE(sub(scale(v.Len, 5), scale(need, 8)))
		c.addGE(addc(sub(scale(need, 8), scale(v.Len, 5)), 7))
		var out []exit
		for _, s := range m.in.require(m.st, m.at, "index", ge(d.Len, need), "base32: destination too short") {
			n := m.in.freshRange(s, "dn", 0, lenMax)
			s.cw().addGE(sub(need, n))
			if rg := s.reg[d.R]; rg != nil && d.R != 0 {
				m.in.wrote(s, m.at, rg.Own, m.in.rnames[d.R])
				m.in.writeBytes(s, d.R, d.Off, add(d.Off, d.Len), plain(allBytes), true)
			}
			s2 := s.clone()
			out = append(out, exit{s, Tuple{Int{n}, nilErr()}}, exit{s2, Tuple{Int{n}, m.unkErr()}})
		}
		return out
	})
	r("encoding/hex.EncodeToString", func(m *mcall) []exit {
		v, _ := m.view(0)
		return m.ret(m.freshStr(m.st, scale(v.Len, 2), plain(setOfString("0123456789abcdef")), v))
	})
	r("encoding/hex.DecodeString", func(m *mcall) []exit {
		v, _ := m.view(0)
		s2 := m.st.clone()
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		m.st.cw().addEQ(sub(scale(n, 2), v.Len))
		b := m.freshBytes(m.st, n, plain(allBytes), v)
		if m.st.c.infeasible() {
			return []exit{{s2, Tuple{m.in.zero(s2, m.sig.Results().At(0).Type(), "nil"), m.unkErr()}}}
		}
		return []exit{{m.st, Tuple{b, nilErr()}}, {s2, Tuple{m.in.zero(s2, m.sig.Results().At(0).Type(), "nil"), m.unkErr()}}}
	})
	b64 := func(m *mcall) []exit {
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		return m.ret(m.freshStr(m.st, n, plain(setOfString("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/-_=")), view{}))
	}
	r("(*encoding/base64.Encoding).EncodeToString", b64)
	r("crypto/sha256.Sum256", func(m *mcall) []exit {
		m.in.event(m.st, m.at, "sha256", m.args...)
		id := m.in.newBytes(m.st, m.site("sha"), cst(32), plain(allBytes), "new", true)
		return m.ret(Arr{id})
	})
	// sorting
	srt := func(m *mcall) []exit {
		in, st := m.in, m.st
		s, ok := m.args[0].(Slice)
		if f, isI := m.args[0].(Iface); isI {
			s, ok = f.V.(Slice)
		}
		if ok && s.R != 0 {
			if rg := st.reg[s.R]; rg != nil {
				in.wrote(st, m.at, rg.Own, in.rnames[s.R])
				if rg.Exact != nil && len(rg.Exact) > 1 {
					sm := in.regionSum(st, rg)
					w := st.regw(s.R)
					w.Ver = in.nextSeq()
					w.Cache = nil
					w.Sum, w.Exact = sm, nil
				} else {
					w := st.regw(s.R)
					w.Ver = in.nextSeq()
					w.Cache = nil
				}
			}
		}
		return m.ret(Tuple{})
	}
	r("sort.Strings", srt)
	r("sort.Ints", srt)
	less := func(m *mcall) []exit {
		out := srt(m)
		// the comparison gets valid indices
		if s, ok := m.args[0].(Iface); ok {
			if sl, ok := s.V.(Slice); ok {
				if f, ok := m.args[1].(Fn); ok && f.F != nil {
					st := m.st.clone()
					i, j := m.in.freshRange(st, "i", 0, lenMax), m.in.freshRange(st, "j", 0, lenMax)
					c := st.cw()
					c.addGE(addc(sub(sl.Len, i), -1))
					c.addGE(addc(sub(sl.Len, j), -1))
					if !c.infeasible() {
						m.in.callKnown(st, m.at, f.F, []Value{Int{i}, Int{j}}, f.Bind, f.F.Signature)
					}
				}
			}
		}
		return out
	}
	r("sort.Slice", less)
	r("sort.SliceStable", less)
	r("sort.Sort", srt)
	// net
	r("net.SplitHostPort", func(m *mcall) []exit {
		v, ok := m.view(0)
		if !ok {
			return m.unknown()
		}
		m.in.event(m.st, m.at, "splithost", m.args...)
		s2 := m.st.clone()
		q := m.in.viewSets(m.st, v)
		n1, n2 := m.in.freshRange(m.st, "hl", 0, lenMax), m.in.freshRange(m.st, "pl", 0, lenMax)
		m.st.cw().addGE(addc(sub(v.Len, add(n1, n2)), -1))
		h := m.freshStr(m.st, n1, q, v)
		p := m.freshStr(m.st, n2, q.restrict(setOf(':').not()), v)
		return []exit{{m.st, Tuple{h, p, nilErr()}}, {s2, Tuple{m.in.constStr(s2, ""), m.in.constStr(s2, ""), m.unkErr()}}}
	})
	r("net.JoinHostPort", func(m *mcall) []exit {
		a, _ := m.view(0)
		b, _ := m.view(1)
		q := m.in.viewSets(m.st, a).or(m.in.viewSets(m.st, b))
		q[lAny] = q[lAny].or(setOf('[', ']', ':'))
		n := m.in.freshRange(m.st, "n", 0, lenMax)
		return m.ret(m.freshStr(m.st, n, q, a))
	})
	r("net/url.Parse", func(m *mcall) []exit {
		m.in.event(m.st, m.at, "urlparse", m.args...)
		s2 := m.st.clone()
		u := m.in.freshVal(m.st, "url", m.sig.Results().At(0).Type(), "new").(Ptr)
		u.NN = cst(1)
		return []exit{{m.st, Tuple{u, nilErr()}}, {s2, Tuple{Ptr{NN: cst(0)}, m.unkErr()}}}
	})
	r("(*sync/atomic.Value).Load", func(m *mcall) []exit {
		// concurrent writers may have replaced the value
		nn := m.in.freshNN(m.st, "av")
		return m.ret(Iface{NN: nn, ID: fmt.Sprintf("u:atomic~%d", m.in.nextSeq())})
	})
	r("(*sync/atomic.Value).Store", func(m *mcall) []exit {
		m.in.event(m.st, m.at, "atomicstore", m.args...)
		f, ok := m.args[1].(Iface)
		if !ok {
			return m.ret(Tuple{})
		}
		var out []exit
		for _, s := range m.in.require(m.st, m.at, "panic", mkCmp(cEQ, addc(f.NN, -1)), "sync/atomic: store of nil value into Value") {
			out = append(out, exit{s, Tuple{}})
		}
		return out
	})
	for _, nm := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		r(nm, func(m *mcall) []exit { return m.ret(Tuple{}) })
	}
}
