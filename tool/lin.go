package main

// Linear integer arithmetic: the numeric abstract domain.
//
// Numeric values are linear expressions over immutable symbols. A state keeps a
// conjunction of linear equalities (in solved form) and inequalities over the
// symbols. Entailment is decided by finding a Farkas combination with a small
// floating-point simplex and re-checking it exactly, so an answer "entailed" is
// always right and an answer "not entailed" may be incomplete.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type Term struct {
	S Sym
	K int64
}

// Expr is C + sum K*S. Terms are sorted by symbol and have non-zero coefficients.
type Expr struct {
	C int64
	T []Term
}

func cst(c int64) Expr { return Expr{C: c} }
func sx(s Sym) Expr    { return Expr{T: []Term{{s, 1}}} }

func (e Expr) isConst() bool { return len(e.T) == 0 }

const coefMax = int64(1) << 61

type overflowErr struct{}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}

// addScaled returns a + k*b.
func addScaled(a Expr, k int64, b Expr) (Expr, bool) {
	m, ok := mulOK(k, b.C)
	if !ok {
		return Expr{}, false
	}
	c, ok := addOK(a.C, m)
	if !ok {
		return Expr{}, false
	}
	if len(b.T) == 0 || k == 0 {
		return Expr{c, a.T}, true
	}
	out := make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		if j >= len(b.T) || (i < len(a.T) && a.T[i].S < b.T[j].S) {
			out = append(out, a.T[i])
			i++
			continue
		}
		v, ok := mulOK(k, b.T[j].K)
		if !ok {
			return Expr{}, false
		}
		s := b.T[j].S
		j++
		if i < len(a.T) && a.T[i].S == s {
			v, ok = addOK(v, a.T[i].K)
			if !ok {
				return Expr{}, false
			}
			i++
		}
		if v != 0 {
			out = append(out, Term{s, v})
		}
	}
	return Expr{c, out}, true
}

func mustAdd(a Expr, k int64, b Expr) Expr {
	e, ok := addScaled(a, k, b)
	if !ok {
		panic(overflowErr{})
	}
	return e
}

func add(a, b Expr) Expr         { return mustAdd(a, 1, b) }
func sub(a, b Expr) Expr         { return mustAdd(a, -1, b) }
func addc(a Expr, c int64) Expr  { return mustAdd(a, 1, cst(c)) }
func neg(a Expr) Expr            { return mustAdd(cst(0), -1, a) }
func scale(a Expr, k int64) Expr { return mustAdd(cst(0), k, a) }

func eqExpr(a, b Expr) bool {
	if a.C != b.C || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func termsKey(t []Term) string {
	var buf [96]byte
	b := buf[:0]
	for _, x := range t {
		b = strconv.AppendInt(b, int64(x.S), 36)
		if x.K == 1 {
			b = append(b, '+')
		} else if x.K == -1 {
			b = append(b, '-')
		} else {
			b = append(b, ':')
			b = strconv.AppendInt(b, x.K, 36)
			b = append(b, ',')
		}
	}
	return string(b)
}

func (e Expr) key() string { return strconv.FormatInt(e.C, 10) + ";" + termsKey(e.T) }

func (e Expr) coef(s Sym) int64 {
	for _, t := range e.T {
		if t.S == s {
			return t.K
		}
	}
	return 0
}

// subst replaces s by r.
func (e Expr) subst(s Sym, r Expr) (Expr, bool) {
	k := e.coef(s)
	if k == 0 {
		return e, true
	}
	t := make([]Term, 0, len(e.T))
	for _, x := range e.T {
		if x.S != s {
			t = append(t, x)
		}
	}
	return addScaled(Expr{e.C, t}, k, r)
}

// ---- symbol table ----

type symInfo struct {
	name   string
	lo, hi *big.Int // type range; nil means unbounded
	flag   uint8
}

const (
	symWrapped uint8 = 1 << iota // may be the result of a wrapped computation
)

type symTab struct {
	info   []symInfo
	intern map[string]Sym
}

func newSymTab() *symTab { return &symTab{info: make([]symInfo, 1), intern: map[string]Sym{}} }

func (t *symTab) fresh(name string) Sym {
	t.info = append(t.info, symInfo{name: name})
	return Sym(len(t.info) - 1)
}

// named returns the symbol interned under the name.
func (t *symTab) named(name string) (Sym, bool) {
	if s, ok := t.intern[name]; ok {
		return s, false
	}
	s := t.fresh(name)
	t.intern[name] = s
	return s, true
}

func (t *symTab) str(e Expr) string {
	var sb strings.Builder
	for i, x := range e.T {
		if x.K >= 0 && i > 0 {
			sb.WriteString("+")
		}
		if x.K == -1 {
			sb.WriteString("-")
		} else if x.K != 1 {
			fmt.Fprintf(&sb, "%d*", x.K)
		}
		fmt.Fprintf(&sb, "%s#%d", t.info[x.S].name, x.S)
	}
	if e.C != 0 || len(e.T) == 0 {
		if e.C >= 0 && len(e.T) > 0 {
			sb.WriteString("+")
		}
		fmt.Fprintf(&sb, "%d", e.C)
	}
	return sb.String()
}

// ---- constraint store ----

// Cons is a persistent-by-copy constraint store.
type Cons struct {
	eq    map[Sym]Expr   // solved form: sym = expr (exprs contain no solved symbol)
	ineq  []Expr         // each >= 0
	index map[string]int // linear part -> position in ineq
	neq   []Expr         // each != 0
	bot   bool
	memo  map[string]memoVal // lower bounds of linear parts, while unchanged
	pts   []*sample          // points and directions of the polyhedron, to refute quickly
	comp  map[Sym]int        // connected component of a symbol
	lists map[int][]Expr     // constraints of a component
	dirty []Expr             // constraints added since the last feasibility check
}

type memoVal struct {
	lo int64
	ok bool
}

// sample is a point of (a component of) the polyhedron, or a direction in which
// it is unbounded.
type sample struct {
	x   map[Sym]float64
	ray bool
}

func (p *sample) eval(e Expr) (float64, bool) {
	v := 0.0
	if !p.ray {
		v = float64(e.C)
	}
	for _, t := range e.T {
		x, ok := p.x[t.S]
		if !ok && !p.ray {
			return 0, false
		}
		v += float64(t.K) * x
	}
	return v, true
}

// touched notes a new constraint.
func (c *Cons) touched(e Expr, eq bool) {
	c.memo, c.comp, c.lists = nil, nil, nil
	c.dirty = append(c.dirty[:len(c.dirty):len(c.dirty)], e)
	n := 0
	for _, p := range c.pts {
		v, ok := p.eval(e)
		if ok && v >= -1e-6 && (!eq || v <= 1e-6) {
			n++
		}
	}
	if n == len(c.pts) {
		return
	}
	out := make([]*sample, 0, n)
	for _, p := range c.pts {
		v, ok := p.eval(e)
		if ok && v >= -1e-6 && (!eq || v <= 1e-6) {
			out = append(out, p)
		}
	}
	c.pts = out
}

func (c *Cons) addSample(p *sample) {
	if p == nil {
		return
	}
	if len(c.pts) >= 24 {
		c.pts = append([]*sample(nil), c.pts[8:]...)
	}
	c.pts = append(c.pts[:len(c.pts):len(c.pts)], p)
}

// refuted: a known point shows that e >= 0 does not follow.
func (c *Cons) refuted(e Expr) bool {
	for i := len(c.pts) - 1; i >= 0; i-- {
		if v, ok := c.pts[i].eval(e); ok && v < -1e-3 {
			return true
		}
	}
	return false
}

func newCons() *Cons { return &Cons{eq: map[Sym]Expr{}, index: map[string]int{}} }

func (c *Cons) clone() *Cons {
	n := &Cons{eq: make(map[Sym]Expr, len(c.eq)), ineq: append([]Expr(nil), c.ineq...), index: make(map[string]int, len(c.index)), neq: append([]Expr(nil), c.neq...), bot: c.bot, memo: c.memo, comp: c.comp, lists: c.lists, pts: c.pts, dirty: c.dirty}
	for k, v := range c.eq {
		n.eq[k] = v
	}
	for k, v := range c.index {
		n.index[k] = v
	}
	return n
}

// norm rewrites e with the solved equalities.
func (c *Cons) norm(e Expr) Expr {
	if len(c.eq) == 0 {
		return e
	}
	for _, t := range e.T {
		if r, ok := c.eq[t.S]; ok {
			n, ok := e.subst(t.S, r)
			if !ok {
				return e
			}
			e = n
		}
	}
	return e
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func tighten(e Expr) Expr {
	if len(e.T) == 0 {
		return e
	}
	g := int64(0)
	for _, t := range e.T {
		g = gcd(g, t.K)
	}
	if g <= 1 {
		return e
	}
	t := make([]Term, len(e.T))
	for i, x := range e.T {
		t[i] = Term{x.S, x.K / g}
	}
	return Expr{floorDiv(e.C, g), t}
}

// addGE adds e >= 0.
func (c *Cons) addGE(e Expr) {
	if c.bot {
		return
	}
	e = tighten(c.norm(e))
	if len(e.T) == 0 {
		if e.C < 0 {
			c.bot = true
		}
		return
	}
	k := termsKey(e.T)
	if i, ok := c.index[k]; ok {
		if c.ineq[i].C <= e.C {
			return
		}
		c.ineq[i] = e
	} else {
		c.index[k] = len(c.ineq)
		c.ineq = append(c.ineq, e)
	}
	c.touched(e, false)
	// opposite constraint: equality or contradiction
	n := neg(e)
	if j, ok := c.index[termsKey(n.T)]; ok {
		// e>=0 and ineq[j]>=0, with ineq[j] = n + d, d = ineq[j].C - n.C
		// => L >= -e.C, L <= ineq[j].C  (L linear part)
		s := e.C + c.ineq[j].C
		if s < 0 {
			c.bot = true
		} else if s == 0 {
			c.addEQ(e)
		}
	}
	c.recheckNeq()
}

func (c *Cons) recheckNeq() {
	if len(c.neq) == 0 || c.bot {
		return
	}
	for i := 0; i < len(c.neq); i++ {
		e := c.norm(c.neq[i])
		c.neq[i] = e
		if len(e.T) == 0 {
			if e.C == 0 {
				c.bot = true
				return
			}
			c.neq = append(append([]Expr(nil), c.neq[:i]...), c.neq[i+1:]...)
			i--
			continue
		}
		// sharpen a matching non-strict bound
		for _, d := range []Expr{e, neg(e)} {
			if j, ok := c.index[termsKey(d.T)]; ok && c.ineq[j].C == d.C {
				c.neq = append(append([]Expr(nil), c.neq[:i]...), c.neq[i+1:]...)
				c.addGE(addc(d, -1))
				c.recheckNeq()
				return
			}
		}
	}
}

// addEQ adds e == 0.
func (c *Cons) addEQ(e Expr) {
	if c.bot {
		return
	}
	e = c.norm(e)
	if len(e.T) == 0 {
		if e.C != 0 {
			c.bot = true
		}
		return
	}
	g := int64(0)
	for _, t := range e.T {
		g = gcd(g, t.K)
	}
	if g > 1 {
		if e.C%g != 0 {
			c.bot = true
			return
		}
		t := make([]Term, len(e.T))
		for i, x := range e.T {
			t[i] = Term{x.S, x.K / g}
		}
		e = Expr{e.C / g, t}
	}
	// newest symbol with a unit coefficient
	pick := -1
	for i, t := range e.T {
		if t.K == 1 || t.K == -1 {
			pick = i
		}
	}
	if pick < 0 {
		c.rawGE(e)
		c.rawGE(neg(e))
		return
	}
	s, k := e.T[pick].S, e.T[pick].K
	rest := make([]Term, 0, len(e.T)-1)
	for i, t := range e.T {
		if i != pick {
			rest = append(rest, t)
		}
	}
	r := Expr{e.C, rest}
	if k == 1 {
		r = neg(r)
	}
	for x, v := range c.eq {
		if v.coef(s) != 0 {
			n, ok := v.subst(s, r)
			if !ok {
				c.rawGE(e)
				c.rawGE(neg(e))
				return
			}
			c.eq[x] = n
		}
	}
	c.touched(e, true)
	c.eq[s] = r
	old := c.ineq
	c.ineq = nil
	c.index = map[string]int{}
	for _, q := range old {
		c.addGE(q)
	}
	c.recheckNeq()
}

func (c *Cons) rawGE(e Expr) {
	c.touched(e, false)
	k := termsKey(e.T)
	if i, ok := c.index[k]; ok {
		if c.ineq[i].C > e.C {
			c.ineq[i] = e
		}
		return
	}
	c.index[k] = len(c.ineq)
	c.ineq = append(c.ineq, e)
}

func (c *Cons) addNE(e Expr) {
	if c.bot {
		return
	}
	e = c.norm(e)
	if len(e.T) == 0 {
		if e.C == 0 {
			c.bot = true
		}
		return
	}
	if c.entailsGE(e) {
		c.addGE(addc(e, -1))
		return
	}
	if c.entailsGE(neg(e)) {
		c.addGE(addc(neg(e), -1))
		return
	}
	for _, n := range c.neq {
		if eqExpr(n, e) {
			return
		}
	}
	c.neq = append(c.neq, e)
}

// entailsGE reports whether e >= 0 follows.
func (c *Cons) entailsGE(e Expr) bool {
	if c.bot {
		return true
	}
	e = tighten(c.norm(e))
	if len(e.T) == 0 {
		if e.C >= 0 {
			return true
		}
		return false
	}
	if i, ok := c.index[termsKey(e.T)]; ok && c.ineq[i].C <= e.C {
		return true
	}
	if c.refuted(e) {
		return false
	}
	lo, ok := c.minimum(e)
	return ok && lo >= 0
}

func (c *Cons) entailsEQ(e Expr) bool {
	if c.bot {
		return true
	}
	e = c.norm(e)
	if len(e.T) == 0 {
		return e.C == 0
	}
	return c.entailsGE(e) && c.entailsGE(neg(e))
}

func (c *Cons) entailsNE(e Expr) bool {
	if c.bot {
		return true
	}
	e = c.norm(e)
	if len(e.T) == 0 {
		return e.C != 0
	}
	for _, n := range c.neq {
		if eqExpr(n, e) || eqExpr(n, neg(e)) {
			return true
		}
	}
	return c.entailsGE(addc(e, -1)) || c.entailsGE(addc(neg(e), -1))
}

// infeasible tries to prove that no valuation satisfies the constraints.
func (c *Cons) infeasible() bool {
	if c.bot {
		return true
	}
	if len(c.ineq) == 0 || len(c.dirty) == 0 {
		return false
	}
	var d Expr
	for _, e := range c.dirty {
		for _, t := range c.norm(e).T {
			d.T = append(d.T, Term{t.S, 1})
		}
	}
	c.dirty = nil
	rel := c.relevant(d)
	if len(rel) == 0 {
		return false
	}
	_, _, inf, p := farkas(rel, Expr{C: 0}, true)
	if inf {
		c.bot = true
	} else {
		c.addSample(p)
	}
	return inf
}

// minimum returns a lower bound of e that follows from the constraints.
func (c *Cons) minimum(e Expr) (int64, bool) {
	if c.bot {
		return math.MaxInt64, true
	}
	e = c.norm(e)
	if len(e.T) == 0 {
		return e.C, true
	}
	k := termsKey(e.T)
	if m, ok := c.memo[k]; ok {
		if !m.ok || m.lo == math.MaxInt64 {
			return m.lo, m.ok
		}
		return m.lo + e.C, true
	}
	// relevant constraints: transitive closure over shared symbols
	rel := c.relevant(e)
	if len(rel) == 0 {
		return 0, false
	}
	v, ok, inf, p := farkas(rel, Expr{0, e.T}, false)
	if inf {
		v, ok = math.MaxInt64, true
	} else {
		c.addSample(p)
	}
	if c.memo == nil {
		c.memo = map[string]memoVal{}
	}
	c.memo[k] = memoVal{v, ok}
	if ok && !inf {
		r, fine := addOK(v, e.C)
		if !fine {
			return 0, false
		}
		return r, true
	}
	return v, ok
}

func (c *Cons) maximum(e Expr) (int64, bool) {
	v, ok := c.minimum(neg(e))
	if !ok || v == math.MinInt64 {
		return 0, false
	}
	return -v, true
}

// relevant lists the constraints connected to the symbols of e.
func (c *Cons) relevant(e Expr) []Expr {
	if c.comp == nil {
		c.comp = map[Sym]int{}
		parent := make([]int, len(c.ineq))
		var find func(i int) int
		find = func(i int) int {
			for parent[i] != i {
				parent[i] = parent[parent[i]]
				i = parent[i]
			}
			return i
		}
		first := make(map[Sym]int, len(c.ineq))
		for i, q := range c.ineq {
			parent[i] = i
			for _, t := range q.T {
				if k, ok := first[t.S]; ok {
					a, b := find(k), find(i)
					if a != b {
						if a < b {
							parent[b] = a
						} else {
							parent[a] = b
						}
					}
				} else {
					first[t.S] = i
				}
			}
		}
		c.lists = map[int][]Expr{}
		for i, q := range c.ineq {
			r := find(i)
			c.lists[r] = append(c.lists[r], q)
		}
		for s, i := range first {
			c.comp[s] = find(i)
		}
	}
	var seen []int
	var out []Expr
next:
	for _, t := range e.T {
		k, ok := c.comp[t.S]
		if !ok {
			continue
		}
		for _, x := range seen {
			if x == k {
				continue next
			}
		}
		seen = append(seen, k)
		if len(seen) == 1 {
			out = c.lists[k][:len(c.lists[k]):len(c.lists[k])]
		} else {
			out = append(out, c.lists[k]...)
		}
	}
	return out
}

// farkas finds lambda >= 0 with sum lambda_i*terms(cs_i) == terms(e), maximising
// the implied bound e.C - sum lambda_i*cs_i.C. With wantInf it looks for a
// contradiction (combination of the constraints equal to a negative constant).
// Results are verified exactly.
func farkas(cs []Expr, e Expr, wantInf bool) (bound int64, ok bool, inf bool, smp *sample) {
	lam, status, smp := simplexDual(cs, e)
	if status == lpUnbounded {
		// dual unbounded: primal infeasible; lam is a ray
		if verifyInf(cs, lam) {
			return 0, false, true, nil
		}
		return 0, false, false, nil
	}
	if status != lpOptimal {
		return 0, false, false, smp
	}
	if wantInf {
		return 0, false, false, smp
	}
	b, ok := verifyFarkas(cs, e, lam)
	return b, ok, false, smp
}

var denoms = []int64{1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 60}

func roundTo(lam []float64, d int64) []int64 {
	out := make([]int64, len(lam))
	for i, l := range lam {
		v := l * float64(d)
		r := math.Round(v)
		if math.Abs(v-r) > 1e-5*math.Max(1, math.Abs(r)) || r > 1e15 {
			return nil
		}
		out[i] = int64(r)
	}
	return out
}

func verifyFarkas(cs []Expr, e Expr, lam []float64) (int64, bool) {
	for _, d := range denoms {
		n := roundTo(lam, d)
		if n == nil {
			continue
		}
		// d*e - sum n_i*cs_i must be constant
		acc, ok := addScaled(cst(0), d, e)
		if !ok {
			return 0, false
		}
		for i, k := range n {
			if k == 0 {
				continue
			}
			if k < 0 {
				return 0, false
			}
			acc, ok = addScaled(acc, -k, cs[i])
			if !ok {
				return 0, false
			}
		}
		if len(acc.T) != 0 {
			continue
		}
		// e >= acc.C/d; integers: ceil
		return -floorDiv(-acc.C, d), true
	}
	return 0, false
}

func verifyInf(cs []Expr, lam []float64) bool {
	mx := 0.0
	for _, l := range lam {
		mx = math.Max(mx, math.Abs(l))
	}
	if mx == 0 {
		return false
	}
	try := func(scale float64) bool {
		sc := make([]float64, len(lam))
		for i := range lam {
			sc[i] = lam[i] * scale
		}
		for _, d := range denoms {
			n := roundTo(sc, d)
			if n == nil {
				continue
			}
			acc := cst(0)
			ok := true
			for i, k := range n {
				if k == 0 {
					continue
				}
				if k < 0 {
					ok = false
					break
				}
				acc, ok = addScaled(acc, k, cs[i])
				if !ok {
					break
				}
			}
			if ok && len(acc.T) == 0 && acc.C < 0 {
				return true
			}
		}
		return false
	}
	if try(1) {
		return true
	}
	mn := math.Inf(1)
	for _, l := range lam {
		if l > 1e-9 {
			mn = math.Min(mn, l)
		}
	}
	return try(1/mn) || try(1/mx)
}

const (
	lpOptimal = iota
	lpInfeasible
	lpUnbounded
	lpFail
)

// simplexDual solves: maximise -sum lam_i*c_i  s.t. sum lam_i*a_ij = e_j, lam >= 0.
func simplexDual(cs []Expr, e Expr) ([]float64, int, *sample) {
	// rows: symbols
	rowOf := map[Sym]int{}
	var rows []Sym
	addRow := func(s Sym) {
		if _, ok := rowOf[s]; !ok {
			rowOf[s] = len(rows)
			rows = append(rows, s)
		}
	}
	for _, q := range cs {
		for _, t := range q.T {
			addRow(t.S)
		}
	}
	for _, t := range e.T {
		if _, ok := rowOf[t.S]; !ok {
			return nil, lpInfeasible, nil
		}
	}
	m, n := len(rows), len(cs)
	w := n + m + 1
	tab := make([]float64, (m+2)*w)
	row := func(i int) []float64 { return tab[i*w : (i+1)*w] }
	for j, q := range cs {
		for _, t := range q.T {
			row(rowOf[t.S])[j] = float64(t.K)
		}
	}
	for _, t := range e.T {
		row(rowOf[t.S])[w-1] = float64(t.K)
	}
	basis := make([]int, m)
	sign := make([]float64, m)
	for i := 0; i < m; i++ {
		r := row(i)
		sign[i] = 1
		if r[w-1] < 0 {
			sign[i] = -1
			for j := range r {
				r[j] = -r[j]
			}
		}
		r[n+i] = 1
		basis[i] = n + i
	}
	// phase 1: minimise sum of artificials
	z := row(m)
	for i := 0; i < m; i++ {
		r := row(i)
		for j := 0; j < n; j++ {
			z[j] -= r[j]
		}
		z[w-1] -= r[w-1]
	}
	// phase 2 objective: minimise sum lam_i*c_i
	z2 := row(m + 1)
	scale := 1.0
	for _, q := range cs {
		scale = math.Max(scale, math.Abs(float64(q.C)))
	}
	_ = scale
	for j, q := range cs {
		z2[j] = float64(q.C)
	}
	pivot := func(pr, pc int) {
		r := row(pr)
		p := r[pc]
		for j := range r {
			r[j] /= p
		}
		r[pc] = 1
		for i := 0; i < m+2; i++ {
			if i == pr {
				continue
			}
			q := row(i)
			f := q[pc]
			if f == 0 {
				continue
			}
			for j := range q {
				q[j] -= f * r[j]
				if q[j] < 1e-11 && q[j] > -1e-11 {
					q[j] = 0
				}
			}
			q[pc] = 0
		}
		basis[pr] = pc
	}
	const eps = 1e-9
	run := func(obj []float64, lim int, eps2 float64) int {
		for it := 0; it < 400; it++ {
			pc := -1
			if it < 60 {
				best := -eps2
				for j := 0; j < lim; j++ {
					if obj[j] < best {
						best = obj[j]
						pc = j
					}
				}
			} else {
				for j := 0; j < lim; j++ {
					if obj[j] < -eps2 {
						pc = j
						break
					}
				}
			}
			if pc < 0 {
				return lpOptimal
			}
			pr := -1
			best := math.Inf(1)
			for i := 0; i < m; i++ {
				r := row(i)
				if r[pc] > eps {
					q := r[w-1] / r[pc]
					if q < best-1e-12 || (q <= best+1e-12 && pr >= 0 && basis[i] < basis[pr]) {
						best = q
						pr = i
					}
				}
			}
			if pr < 0 {
				// unbounded: build the ray
				return -1 - pc
			}
			pivot(pr, pc)
		}
		return lpFail
	}
	st := run(z, n, eps)
	if st != lpOptimal {
		return nil, lpFail, nil
	}
	if z[w-1] < -1e-7 {
		// a direction that lowers e without bound
		p := &sample{x: make(map[Sym]float64, m), ray: true}
		for i, s := range rows {
			if v := -sign[i] * (1 - z[n+i]); math.Abs(v) > 1e-9 {
				p.x[s] = v
			}
		}
		for _, q := range cs {
			if v, _ := p.eval(q); v < -1e-7 {
				p = nil
				break
			}
		}
		return nil, lpInfeasible, p
	}
	// drive artificials out
	for i := 0; i < m; i++ {
		if basis[i] >= n {
			r := row(i)
			for j := 0; j < n; j++ {
				if math.Abs(r[j]) > 1e-7 {
					pivot(i, j)
					break
				}
			}
		}
	}
	st = run(z2, n, eps)
	lam := make([]float64, n)
	if st < 0 {
		pc := -1 - st
		lam[pc] = 1
		for i := 0; i < m; i++ {
			if basis[i] < n {
				lam[basis[i]] = -row(i)[pc]
			}
		}
		return lam, lpUnbounded, nil
	}
	if st != lpOptimal {
		return nil, lpFail, nil
	}
	for i := 0; i < m; i++ {
		if basis[i] < n {
			lam[basis[i]] = row(i)[w-1]
		}
	}
	p := &sample{x: make(map[Sym]float64, m)}
	for i, s := range rows {
		p.x[s] = sign[i] * z2[n+i]
	}
	for _, q := range cs {
		if v, _ := p.eval(q); v < -1e-6*math.Max(1, math.Abs(float64(q.C))) {
			p = nil
			break
		}
	}
	return lam, lpOptimal, p
}

// symsOf lists all symbols mentioned.
func (c *Cons) symsOf(into map[Sym]bool) {
	for s, e := range c.eq {
		into[s] = true
		for _, t := range e.T {
			into[t.S] = true
		}
	}
	for _, e := range c.ineq {
		for _, t := range e.T {
			into[t.S] = true
		}
	}
}

// project removes every symbol that is not kept, by substitution or bounded
// Fourier-Motzkin elimination; when elimination would be large the constraints
// on the symbol are dropped (sound: fewer constraints).
func (c *Cons) project(keep func(Sym) bool) {
	if c.bot {
		return
	}
	c.memo, c.comp, c.lists = nil, nil, nil
	// equalities: dead solved symbols just go; live solved symbols over dead ones:
	// re-solve for the dead symbol to eliminate it.
	for {
		var pick Sym
		found := false
		for s, e := range c.eq {
			if !keep(s) {
				continue
			}
			for _, t := range e.T {
				if !keep(t.S) && (t.K == 1 || t.K == -1) && (!found || s < pick) {
					pick, found = s, true
				}
			}
		}
		if !found {
			break
		}
		e := c.eq[pick]
		var d Sym
		var k int64
		for _, t := range e.T {
			if !keep(t.S) && (t.K == 1 || t.K == -1) {
				d, k = t.S, t.K
				break
			}
		}
		// pick = rest + k*d  =>  d = k*(pick - rest)
		rest, ok := e.subst(d, cst(0))
		if !ok {
			break
		}
		r, ok1 := addScaled(sx(pick), -1, rest)
		if !ok1 {
			break
		}
		if k == -1 {
			r = neg(r)
		}
		delete(c.eq, pick)
		for x, v := range c.eq {
			if v.coef(d) != 0 {
				n, ok := v.subst(d, r)
				if !ok {
					delete(c.eq, x)
					continue
				}
				c.eq[x] = n
			}
		}
		old := c.ineq
		c.ineq, c.index = nil, map[string]int{}
		for _, q := range old {
			n, ok := q.subst(d, r)
			if ok {
				c.addGE(n)
			}
		}
		for i, q := range c.neq {
			if n, ok := q.subst(d, r); ok {
				c.neq[i] = n
			}
		}
	}
	for s, e := range c.eq {
		if !keep(s) {
			delete(c.eq, s)
			continue
		}
		for _, t := range e.T {
			if !keep(t.S) {
				// non-unit coefficient on a dead symbol: keep as inequality and let FM handle
				delete(c.eq, s)
				d := sub(sx(s), e)
				c.rawGE(d)
				c.rawGE(neg(d))
				break
			}
		}
	}
	dead := map[Sym]bool{}
	for _, q := range c.ineq {
		for _, t := range q.T {
			if !keep(t.S) {
				dead[t.S] = true
			}
		}
	}
	order := make([]Sym, 0, len(dead))
	for s := range dead {
		order = append(order, s)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] > order[j] })
	for _, s := range order {
		var pos, ng, rest []Expr
		for _, q := range c.ineq {
			k := q.coef(s)
			switch {
			case k > 0:
				pos = append(pos, q)
			case k < 0:
				ng = append(ng, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(pos)+len(ng) == 0 {
			continue
		}
		c.ineq, c.index = nil, map[string]int{}
		for _, q := range rest {
			c.rawGE(q)
		}
		if len(pos)*len(ng) > 12 {
			continue
		}
		for _, p := range pos {
			for _, q := range ng {
				kp, kq := p.coef(s), -q.coef(s)
				a, ok := addScaled(cst(0), kq, p)
				if ok {
					a, ok = addScaled(a, kp, q)
				}
				if ok && len(a.T) <= 5 {
					a = tighten(a)
					if len(a.T) == 0 {
						if a.C < 0 {
							c.bot = true
							return
						}
						continue
					}
					c.rawGE(a)
				}
			}
		}
	}
	out := c.neq[:0:0]
	for _, q := range c.neq {
		ok := true
		for _, t := range q.T {
			if !keep(t.S) {
				ok = false
			}
		}
		if ok {
			out = append(out, q)
		}
	}
	c.neq = out
	c.prune()
}

// prune removes inequalities that follow from the bounds of single symbols,
// possibly together with one other inequality. Nothing is lost.
func (c *Cons) prune() {
	if c.bot || len(c.ineq) < 8 {
		return
	}
	type bnd struct {
		lo, hi   int64
		hlo, hhi bool
	}
	box := map[Sym]bnd{}
	for _, q := range c.ineq {
		if len(q.T) != 1 {
			continue
		}
		b := box[q.T[0].S]
		switch q.T[0].K {
		case 1: // s >= -C
			if !b.hlo || b.lo < -q.C {
				b.lo, b.hlo = -q.C, true
			}
		case -1: // s <= C
			if !b.hhi || b.hi > q.C {
				b.hi, b.hhi = q.C, true
			}
		}
		box[q.T[0].S] = b
	}
	boxMin := func(e Expr) (int64, bool) {
		v := e.C
		for _, t := range e.T {
			b := box[t.S]
			x := b.lo
			if t.K > 0 && !b.hlo || t.K < 0 && !b.hhi {
				return 0, false
			}
			if t.K < 0 {
				x = b.hi
			}
			m, ok := mulOK(t.K, x)
			if !ok {
				return 0, false
			}
			if v, ok = addOK(v, m); !ok {
				return 0, false
			}
		}
		return v, true
	}
	gone := make([]bool, len(c.ineq))
	any := false
	for i, q := range c.ineq {
		if len(q.T) < 2 {
			continue
		}
		if v, ok := boxMin(q); ok && v >= 0 {
			gone[i], any = true, true
		}
	}
	// with one other inequality
	at := map[Sym][]int{}
	for i, q := range c.ineq {
		if gone[i] || len(q.T) < 2 {
			continue
		}
		for _, t := range q.T {
			at[t.S] = append(at[t.S], i)
		}
	}
	for i := len(c.ineq) - 1; i >= 0; i-- {
		q := c.ineq[i]
		if gone[i] || len(q.T) < 2 {
			continue
		}
		for _, t := range q.T {
			for _, k := range at[t.S] {
				p := c.ineq[k]
				if k == i || gone[k] || len(p.T) > len(q.T)+1 {
					continue
				}
				d, ok := addScaled(q, -1, p)
				if !ok || len(d.T) > 2 {
					continue
				}
				if v, ok := boxMin(d); ok && v >= 0 {
					gone[i], any = true, true
					break
				}
			}
			if gone[i] {
				break
			}
		}
	}
	if !any {
		return
	}
	old := c.ineq
	c.ineq, c.index = nil, map[string]int{}
	for i, q := range old {
		if !gone[i] {
			c.index[termsKey(q.T)] = len(c.ineq)
			c.ineq = append(c.ineq, q)
		}
	}
	c.comp, c.lists = nil, nil
}
