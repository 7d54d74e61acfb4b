package main

// Calls: dispatch, builtins, unknown callees.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mcall struct {
	in   *Interp
	st   *State
	at   ssa.Instruction
	fn   string
	args []Value
	sig  *types.Signature
	n    int
}

func (m *mcall) site(sfx string) string {
	m.n++
	return fmt.Sprintf("%s%s%d", m.in.site(m.st, m.at), sfx, m.n)
}

// call evaluates a call instruction.
func (in *Interp) call(st *State, at ssa.Instruction, c *ssa.CallCommon) []exit {
	fv := in.val(st, c.Value)
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		v := in.val(st, a)
		if t, ok := v.(TabSel); ok {
			v = in.resolveSel(st, t)
		}
		args[i] = v
	}
	out := in.callWith(st, at, c, fv, args)
	if in.after != nil {
		var after []exit
		for _, e := range out {
			after = append(after, in.after(e, at, c)...)
		}
		return after
	}
	return out
}

func (in *Interp) callWith(st *State, at ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value) []exit {
	if c.IsInvoke() {
		return in.invoke(st, at, c, fv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(st, at, b.Name(), args, c)
	}
	f, ok := fv.(Fn)
	if !ok {
		in.gap("call of an untracked function in %s", in.prog.short(at.Parent().String()))
		return []exit{{st, in.freshResult(st, c.Signature(), "call")}}
	}
	var out []exit
	for _, s := range in.require(st, at, "nil", mkCmp(cEQ, addc(f.NN, -1)), "call of a nil function") {
		if f.F != nil {
			out = append(out, in.callKnown(s, at, f.F, args, f.Bind, c.Signature())...)
			continue
		}
		in.event(s, at, "callback", append([]Value{f}, args...)...)
		out = append(out, in.unknownCall(s, at, "func:"+f.ID, args, c.Signature())...)
	}
	return out
}

func (in *Interp) callKnown(st *State, at ssa.Instruction, fn *ssa.Function, args []Value, bind []Value, sig *types.Signature) []exit {
	name := fn.String()
	if in.hook != nil {
		if ex, ok := in.hook(st, at, fn, args); ok {
			return ex
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Pkg != nil && fn.Pkg.Func("init") == fn {
		if !in.prog.isModPath(fn.Pkg.Pkg.Path()) {
			return []exit{{st, Tuple{}}}
		}
	}
	if m, ok := models[name]; ok {
		mc := &mcall{in: in, st: st, at: at, fn: name, args: args, sig: fn.Signature}
		in.event(st, at, "call:"+name, args...)
		return m(mc)
	}
	if in.prog.inModule(fn) {
		in.event(st, at, "enter:"+in.prog.short(name), args...)
		return in.callFunc(st, fn, args, bind, at)
	}
	// synthetic wrappers of external methods, and externals without a model
	if fn.Blocks != nil && fn.Synthetic != "" && fn.Pkg == nil && len(fn.Blocks) <= 3 && in.prog.pkgOf(fn) == "" {
		return in.callFunc(st, fn, args, bind, at)
	}
	if fn.Synthetic != "" && fn.Blocks != nil && strings.Contains(fn.Synthetic, "wrapper") {
		return in.callFunc(st, fn, args, bind, at)
	}
	in.event(st, at, "call:"+name, args...)
	if strings.HasPrefix(name, "(*sync/atomic.") && (strings.HasSuffix(name, ".Store") || strings.HasSuffix(name, ".Swap")) {
		in.event(st, at, "atomicstore", args...)
	}
	in.extern(name)
	if modifies(name) {
		for _, a := range args {
			in.clobber(st, at, a)
		}
	}
	return in.unknownCall(st, at, name, args, fn.Signature)
}

// extern records a library function without a model: its results are unknown
// and it is assumed to neither panic nor modify its arguments.
func (in *Interp) extern(name string) {
	if in.externs == nil {
		in.externs = map[string]bool{}
	}
	in.externs[name] = true
}

// modifies: library functions without a model that write to their arguments.
func modifies(name string) bool {
	for _, p := range []string{"sort.", "slices.Sort", "slices.Reverse", "slices.Insert", "slices.Delete", "slices.Compact", "slices.Replace", "slices.Grow",
		"maps.Copy", "maps.Delete", "maps.Clear", "math/rand.", "math/rand/v2.", "encoding/binary.", "encoding/hex.", "encoding/base64.", "(*encoding/base64.", "(encoding/binary.",
		"unicode/utf8.EncodeRune", "unicode/utf8.AppendRune", "strconv.Append", "io.Read", "crypto/rand.", "(crypto/cipher."} {
		if strings.HasPrefix(name, p) {
			return !strings.Contains(name, "Search") && !strings.Contains(name, "IsSorted") && !strings.Contains(name, "ToString") && !strings.Contains(name, "FromString")
		}
	}
	return false
}

// clobber makes the memory an argument refers to unknown.
func (in *Interp) clobber(st *State, at ssa.Instruction, v Value) {
	switch x := v.(type) {
	case Slice:
		rg := st.reg[x.R]
		if rg == nil || x.R == 0 {
			return
		}
		in.wrote(st, at, rg.Own, in.rnames[x.R])
		if rg.Byte {
			in.writeBytes(st, x.R, x.Off, add(x.Off, x.Len), plain(allBytes), true)
			return
		}
		w := st.regw(x.R)
		w.Sum, w.Exact, w.Cache = in.regionSum(st, rg), nil, nil
		if rg.Lazy && w.Sum == nil {
			w.Cache = nil
		}
	case Ptr:
		if ob := in.object(st, x.O); ob != nil && x.O != 0 {
			in.wrote(st, at, ob.Own, in.onames[x.O])
		}
	case MapV:
		if ob := in.object(st, x.O); ob != nil && x.O != 0 {
			in.wrote(st, at, ob.Own, in.onames[x.O])
		}
	case Iface:
		in.clobber(st, at, x.V)
	}
}

// unknownCall is a call of code that is not analysed.
func (in *Interp) unknownCall(st *State, at ssa.Instruction, name string, args []Value, sig *types.Signature) []exit {
	in.consume(st)
	return in.results(st, at, name, sig)
}

// results makes unknown results; a trailing error result forks into nil and non-nil.
func (in *Interp) results(st *State, at ssa.Instruction, name string, sig *types.Signature) []exit {
	n := sig.Results().Len()
	site := in.site(st, at)
	mk := func(s *State) Tuple {
		t := make(Tuple, n)
		for i := range t {
			rt := sig.Results().At(i).Type()
			t[i] = in.freshVal(s, "ret:"+site, rt, "lib")
		}
		return t
	}
	wrapR := func(t Tuple) Value {
		if n == 1 {
			return t[0]
		}
		return t
	}
	if n == 0 {
		return []exit{{st, Tuple{}}}
	}
	last := sig.Results().At(n - 1).Type()
	if isErrorType(last) {
		s2 := st.clone()
		ok, bad := mk(st), mk(s2)
		ok[n-1] = Iface{NN: cst(0)}
		bad[n-1] = Iface{NN: cst(1), ID: fmt.Sprintf("u:%s~%d", name, in.nextSeq())}
		return []exit{{st, wrapR(ok)}, {s2, wrapR(bad)}}
	}
	return []exit{{st, wrapR(mk(st))}}
}

// consume notes that outside code ran (a read or a callback): loops that do so
// on every iteration are driven by it.
func (in *Interp) consume(st *State) {}

// consumeRead notes that input was read.
func (in *Interp) consumeRead(st *State) {
	for k := range st.ghost {
		if k[0] == 'L' {
			st.ghost[k] = "1"
		}
	}
}

func isErrorType(t types.Type) bool { return t.String() == "error" }

// invoke calls an interface method.
func (in *Interp) invoke(st *State, at ssa.Instruction, c *ssa.CallCommon, recv Value, args []Value) []exit {
	mname := c.Method.Name()
	switch r := recv.(type) {
	case RType:
		return in.rtypeMethod(st, at, c, r, args)
	case Iface:
		var out []exit
		for _, s := range in.require(st, at, "nil", mkCmp(cEQ, addc(r.NN, -1)), "method call on a nil interface") {
			if r.T != nil {
				fn := in.prog.prog.LookupMethod(r.T, c.Method.Pkg(), mname)
				if fn == nil {
					in.gap("method %s of %s not found", mname, r.T)
					out = append(out, exit{s, in.freshResult(s, c.Signature(), "m")})
					continue
				}
				out = append(out, in.callKnown(s, at, fn, append([]Value{r.V}, args...), nil, fn.Signature)...)
				continue
			}
			out = append(out, in.invokeUnknown(s, at, c, r, args)...)
		}
		return out
	}
	in.gap("method call on an untracked value in %s", in.prog.short(at.Parent().String()))
	return []exit{{st, in.freshResult(st, c.Signature(), "m")}}
}

// invokeUnknown calls a method of a value whose dynamic type is unknown, by
// the contract of its interface.
func (in *Interp) invokeUnknown(st *State, at ssa.Instruction, c *ssa.CallCommon, r Iface, args []Value) []exit {
	iname := typeName(c.Value.Type())
	mname := c.Method.Name()
	m := &mcall{in: in, st: st, at: at, fn: iname + "." + mname, args: append([]Value{r}, args...), sig: c.Signature()}
	in.event(st, at, "invoke:"+mname, m.args...)
	if iname == "hash.Hash" || strings.HasPrefix(r.ID, "hash:") {
		if ex, ok := m.hashMethod(mname, r, args); ok {
			return ex
		}
	}
	if mname == "Reset" && r.ID == "zlibr:" {
		in.consumeRead(st)
	}
	switch mname {
	case "Read":
		if len(args) == 1 && isBytesSig(c.Signature()) {
			if sl, ok := args[0].(Slice); ok && in.source != nil {
				if ex, ok := in.source(m, r, sl); ok {
					return ex
				}
			}
			return m.readContract(args[0])
		}
	case "Write", "WriteString":
		if len(args) == 1 && c.Signature().Results().Len() == 2 {
			return m.writeContract(args[0])
		}
	case "Error", "String":
		if c.Signature().Results().Len() == 1 {
			n := in.freshRange(st, "len", 0, lenMax)
			id := in.newBytes(st, m.site("s"), n, plain(allBytes), "lib", false)
			return []exit{{st, Str{id, cst(0), n}}}
		}
	}
	if in.contract != nil {
		if ex, ok := in.contract(m, c, r); ok {
			return ex
		}
	}
	return in.unknownCall(st, at, "invoke:"+mname, m.args, c.Signature())
}

func isBytesSig(s *types.Signature) bool {
	if s.Params().Len() != 1 {
		return false
	}
	sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
	return ok && isByteElem(sl.Elem())
}

// readContract: Read(p) fills a prefix of p.
func (m *mcall) readContract(p Value) []exit {
	in, st := m.in, m.st
	in.consumeRead(st)
	s, ok := p.(Slice)
	if !ok {
		return in.results(st, m.at, m.fn, m.sig)
	}
	n := in.freshRange(st, "n", 0, lenMax)
	st.cw().addGE(sub(s.Len, n))
	if s.R != 0 {
		if r := st.reg[s.R]; r != nil {
			in.wrote(st, m.at, r.Own, in.rnames[s.R])
		}
		in.writeBytes(st, s.R, s.Off, add(s.Off, s.Len), plain(allBytes), true)
	}
	s2 := st.clone()
	return []exit{{st, Tuple{Int{n}, Iface{NN: cst(0)}}}, {s2, Tuple{Int{n}, Iface{NN: cst(1), ID: fmt.Sprintf("u:read~%d", in.nextSeq())}}}}
}

// writeContract: Write(p) returns n == len(p) or an error.
func (m *mcall) writeContract(p Value) []exit {
	in, st := m.in, m.st
	ln := lenOf(p)
	s2 := st.clone()
	n := in.freshRange(s2, "n", 0, lenMax)
	s2.cw().addGE(sub(ln, n))
	return []exit{{st, Tuple{Int{ln}, Iface{NN: cst(0)}}}, {s2, Tuple{Int{n}, Iface{NN: cst(1), ID: fmt.Sprintf("u:write~%d", in.nextSeq())}}}}
}

func lenOf(v Value) Expr {
	switch x := v.(type) {
	case Str:
		return x.Len
	case Slice:
		return x.Len
	}
	return cst(0)
}

// builtin functions.
func (in *Interp) builtin(st *State, at ssa.Instruction, name string, args []Value, c *ssa.CallCommon) []exit {
	one := func(v Value) []exit { return []exit{{st, v}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return one(Int{x.Len})
		case Slice:
			if name == "cap" {
				return one(Int{x.Cap})
			}
			return one(Int{x.Len})
		case Arr:
			return one(Int{st.reg[x.R].N})
		case Ptr:
			if a, ok := in.cell(st, x, nil).(Arr); ok {
				return one(Int{st.reg[a.R].N})
			}
		case MapV:
			if _, m := in.mapOf(st, x); m != nil && m.Known {
				return one(Int{cst(int64(len(m.Exact)))})
			}
			if x.O == 0 {
				return one(Int{cst(0)})
			}
			n := in.freshRange(st, "maplen", 0, lenMax)
			return one(Int{n})
		}
		return one(Int{in.freshRange(st, "len", 0, lenMax)})
	case "append":
		return in.appendTo(st, at, args, c)
	case "copy":
		return in.copyInto(st, at, args)
	case "print", "println", "close":
		return one(Tuple{})
	case "delete":
		if ob, m := in.mapOf(st, args[0]); m != nil {
			in.wrote(st, at, ob.Own, in.onames[args[0].(MapV).O])
			n := *m
			k, ok := in.mapKey(st, args[1])
			if m.Known && ok {
				n.Exact, n.Keys = map[string]Value{}, map[string]Value{}
				for kk, v := range m.Exact {
					if kk != k {
						n.Exact[kk], n.Keys[kk] = v, m.Keys[kk]
					}
				}
			} else if m.Known {
				mv := args[0].(MapV)
				var ks, es []Value
				for _, kk := range sortedKeys(m.Exact) {
					ks, es = append(ks, m.Keys[kk]), append(es, m.Exact[kk])
				}
				n.Known, n.Exact, n.Keys = false, nil, nil
				if len(ks) > 0 {
					j := in.newJoiner(st, []*State{st})
					n.KSum, n.ESum = j.loose("mk", ks), j.loose("me", es)
				}
				_ = mv
			}
			nb := *ob
			nb.V = &n
			st.obj[args[0].(MapV).O] = &nb
		}
		return one(Tuple{})
	case "min", "max":
		out := []exit{}
		a, ok1 := args[0].(Int)
		if !ok1 {
			break
		}
		cur := []exit{{st, a}}
		for _, bv := range args[1:] {
			b, ok := bv.(Int)
			if !ok {
				return one(in.freshVal(st, "minmax", c.Signature().Results().At(0).Type(), "new"))
			}
			var nx []exit
			for _, e := range cur {
				x := e.ret.(Int)
				cond := ge(b.E, x.E)
				if name == "max" {
					cond = ge(x.E, b.E)
				}
				t, f := in.split(e.st, cond)
				for _, s := range t {
					nx = append(nx, exit{s, x})
				}
				for _, s := range f {
					nx = append(nx, exit{s, b})
				}
			}
			cur = nx
		}
		out = append(out, cur...)
		return out
	case "recover":
		in.gap("recover in %s", in.prog.short(at.Parent().String()))
		return one(Iface{NN: cst(0)})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok {
			var out []exit
			for _, s := range in.require(st, at, "nil", mkCmp(cEQ, addc(p.NN, -1)), "nil pointer dereference") {
				p.NN = cst(1)
				out = append(out, exit{s, p})
			}
			return out
		}
		return one(args[0])
	case "clear":
		if mv, ok := args[0].(MapV); ok {
			if ob, m := in.mapOf(st, mv); m != nil {
				in.wrote(st, at, ob.Own, in.onames[mv.O])
				nb := *ob
				nb.V = &MapContent{Known: true, Exact: map[string]Value{}, Keys: map[string]Value{}}
				st.obj[mv.O] = &nb
			}
		}
		return one(Tuple{})
	}
	if c.Signature().Results().Len() == 0 {
		return one(Tuple{})
	}
	in.gap("builtin %s in %s", name, in.prog.short(at.Parent().String()))
	return one(in.freshVal(st, "bi", c.Signature().Results().At(0).Type(), "?"))
}

// view is a run of bytes: a string or a byte slice.
type view struct {
	R        Rid
	Off, Len Expr
	Cap      Expr
	Hint     *Sets
	str      bool
	NN       Expr
}

func viewOf(v Value) (view, bool) {
	switch x := v.(type) {
	case Str:
		return view{R: x.R, Off: x.Off, Len: x.Len, Cap: x.Len, str: true, NN: cst(1)}, true
	case Slice:
		return view{R: x.R, Off: x.Off, Len: x.Len, Cap: x.Cap, Hint: x.Hint, NN: x.NN}, true
	}
	return view{}, false
}

func (v view) val() Value {
	if v.str {
		return Str{v.R, v.Off, v.Len}
	}
	return Slice{R: v.R, Off: v.Off, Len: v.Len, Cap: v.Cap, NN: v.NN, Hint: v.Hint}
}

func (v view) end() Expr { return add(v.Off, v.Len) }

// sub is v[lo:hi].
func (v view) sub(lo, hi Expr) view {
	n := v
	n.Off, n.Len, n.Cap = add(v.Off, lo), sub(hi, lo), sub(v.Cap, lo)
	if v.str {
		n.Cap = n.Len
	}
	return n
}

// sets of the bytes in the view.
func (in *Interp) viewSets(st *State, v view) Sets {
	if v.R == 0 {
		return Sets{}
	}
	q := in.query(st, v.R, v.Off, v.end())
	if v.Hint != nil {
		q = q.and(*v.Hint)
	}
	return q
}

func (in *Interp) appendTo(st *State, at ssa.Instruction, args []Value, c *ssa.CallCommon) []exit {
	dst, ok := args[0].(Slice)
	if !ok || len(args) < 2 {
		return []exit{{st, args[0]}}
	}
	st2 := c.Args[0].Type().Underlying()
	var elem types.Type
	if sl, ok := st2.(*types.Slice); ok {
		elem = sl.Elem()
	} else {
		elem = types.Typ[types.Uint8]
	}
	return in.appendView(st, at, dst, args[1], elem, in.site(st, at))
}

// appendView appends a string, byte slice or slice.
func (in *Interp) appendView(st *State, at ssa.Instruction, dst Slice, src Value, elem types.Type, name string) []exit {
	ln := lenOf(src)
	total := add(dst.Len, ln)
	nl := st.c.norm(ln)
	if nl.isConst() && nl.C == 0 {
		return []exit{{st, dst}}
	}
	if st.c.entailsGE(addc(sub(cst(lenMax), total), 0)) == false {
		st.cw().addGE(sub(cst(lenMax), total)) // otherwise out of memory
		if st.c.bot {
			return nil
		}
	}
	byteE := isByteElem(elem)
	nn := cst(1)
	if !st.c.entailsGE(addc(total, -1)) {
		// append(nil, empty...) stays nil
		nn = in.freshNN(st, "nn")
		c := st.cw()
		c.addGE(sub(nn, dst.NN))
	}
	r := st.reg[dst.R]
	inPlace := dst.R != 0 && r != nil && (r.Own == "new" || ownHas(r.Own, "new") && !strings.Contains(r.Own, "+")) && !r.Const
	if dst.R != 0 && r != nil && !inPlace {
		// spare capacity of somebody else's slice may be overwritten
		if !st.c.entailsGE(sub(total, addc(dst.Cap, 1))) && !st.c.entailsGE(neg(ln)) {
			in.wrote(st, at, r.Own, "spare capacity of "+in.rnames[dst.R])
		}
	}
	cp := dst.Cap
	if !inPlace || !st.c.entailsGE(sub(dst.Cap, total)) {
		cp = in.freshRange(st, "cap", 0, lenMax)
		st.cw().addGE(sub(cp, total))
	}
	var id Rid
	off := cst(0)
	if inPlace {
		id = dst.R
		off = dst.Off
		w := st.regw(id)
		need := add(off, cp)
		if !st.c.entailsGE(sub(w.N, need)) {
			nN := in.freshRange(st, "n", 0, 2*lenMax)
			st.cw().addGE(sub(nN, need))
			st.cw().addGE(sub(nN, w.N))
			w.N = nN
		}
	} else {
		g := &Region{N: cp, Elem: elem, Byte: byteE, Own: "new", Mut: true, Lab: ^uint32(0)}
		if r != nil {
			g.From = unionStr(r.From, []string{"maybe:" + r.Own})
			g.Lab = r.Lab
			if byteE {
				v, _ := viewOf(dst)
				g.Base = in.viewSets(st, v)
				g.Facts = nil
				for _, f := range r.Facts {
					if st.c.entailsGE(sub(f.Lo, dst.Off)) && st.c.entailsGE(sub(add(dst.Off, dst.Len), f.Hi)) {
						g.Facts = append(g.Facts, Fact{sub(f.Lo, dst.Off), sub(f.Hi, dst.Off), f.S})
					}
				}
				if !st.c.entailsGE(neg(dst.Len)) {
					g.Facts = append(g.Facts, Fact{cst(0), dst.Len, g.Base})
				}
			} else {
				dl := st.c.norm(dst.Len)
				do := st.c.norm(dst.Off)
				if r.Exact != nil && dl.isConst() && do.isConst() && dl.C+do.C <= int64(len(r.Exact)) && !r.SumR {
					g.Exact = append([]Value{}, r.Exact[do.C:do.C+dl.C]...)
				} else if dl.isConst() && dl.C == 0 {
					g.Exact = []Value{}
				} else if r.Lazy {
					v := in.elem(st, dst.R, in.freshRange(st, "i", 0, lenMax), nil)
					g.Sum = v
				} else {
					g.Sum = in.regionSum(st, r)
				}
			}
		} else if !byteE {
			g.Exact = []Value{}
		}
		id = in.newRegion(st, name, g)
	}
	if byteE {
		v, _ := viewOf(src)
		q := in.viewSets(st, v)
		lo := add(off, dst.Len)
		in.blit(st, id, lo, v, q)
		w := st.regw(id)
		if sr := st.reg[v.R]; sr != nil && !sr.Const {
			w.Lab &= sr.Lab
			w.From = unionStr(w.From, sr.From)
			if sr.Own != "new" && sr.Own != "const" {
				w.From = unionStr(w.From, []string{"copy:" + sr.Own})
			}
		}
		var hint *Sets
		if dst.Hint != nil || dst.R == 0 {
			h := q
			if dst.Hint != nil {
				h = h.or(*dst.Hint)
			}
			hint = &h
		}
		return []exit{{st, Slice{R: id, Off: off, Len: total, Cap: cp, NN: nn, Hint: hint}}}
	}
	// element-wise
	s, _ := src.(Slice)
	w := st.regw(id)
	w.Ver = in.nextSeq()
	w.Cache = nil
	var add1 []Value
	exactSrc := false
	if sr := st.reg[s.R]; sr != nil && s.R != 0 {
		so, sl := st.c.norm(s.Off), st.c.norm(s.Len)
		if sr.Exact != nil && so.isConst() && sl.isConst() && so.C+sl.C <= int64(len(sr.Exact)) && !sr.SumR {
			add1 = sr.Exact[so.C : so.C+sl.C]
			exactSrc = true
		} else if sr.Lazy {
			add1 = []Value{in.elem(st, s.R, in.freshRange(st, "i", 0, lenMax), nil)}
		} else if v := in.regionSum(st, sr); v != nil {
			add1 = []Value{v}
		}
	}
	dl := st.c.norm(add(off, dst.Len))
	if w.Exact != nil && exactSrc && dl.isConst() && dl.C <= int64(len(w.Exact)) && len(w.Exact)+len(add1) <= 24 && !w.SumR {
		w.Exact = append(append([]Value{}, w.Exact[:dl.C]...), add1...)
	} else {
		var vs []Value
		if sm := in.regionSum(st, w); sm != nil {
			vs = append(vs, sm)
		}
		vs = append(vs, add1...)
		if len(vs) > 0 {
			j := in.newJoiner(st, []*State{st})
			nv := j.loose("app", vs)
			w = st.regw(id)
			w.Sum = nv
		}
		w.Exact = nil
	}
	res := Slice{R: id, Off: off, Len: total, Cap: cp, NN: nn}
	if _, ok := elem.Underlying().(*types.Signature); ok && in.track != nil {
		in.track(st, at, "fnappend", []Value{dst, Tuple(add1), res})
	}
	return []exit{{st, res}}
}

// blit copies the bytes of a view to region[lo:], keeping what is known about them.
func (in *Interp) blit(st *State, id Rid, lo Expr, v view, q Sets) {
	hi := add(lo, v.Len)
	if v.R != 0 {
		if c, ok := in.constOf(st, Str{v.R, v.Off, v.Len}); ok && len(c) <= 3 && len(c) > 0 {
			for i := 0; i < len(c); i++ {
				bq := plain(setOf(c[i]))
				for l := 1; l < nLab; l++ {
					if !q[l].empty() {
						bq[l] = setOf(c[i])
					}
				}
				in.writeBytes(st, id, addc(lo, int64(i)), addc(lo, int64(i)+1), bq, true)
			}
			return
		}
	}
	var fs []Fact
	if r := st.reg[v.R]; r != nil && !r.Const && !r.SumR && len(r.Facts) <= 20 {
		for _, f := range r.Facts {
			if st.c.entailsGE(sub(f.Lo, v.Off)) && st.c.entailsGE(sub(v.end(), f.Hi)) && !q.subset(f.S) {
				fs = append(fs, Fact{add(lo, sub(f.Lo, v.Off)), add(lo, sub(f.Hi, v.Off)), f.S})
			}
		}
	}
	in.writeBytes(st, id, lo, hi, q, true)
	for _, f := range fs {
		in.learn(st, id, f.Lo, f.Hi, f.S)
	}
}

func (in *Interp) copyInto(st *State, at ssa.Instruction, args []Value) []exit {
	dst, ok := args[0].(Slice)
	if !ok {
		return []exit{{st, Int{in.freshRange(st, "copied", 0, lenMax)}}}
	}
	sl := lenOf(args[1])
	t, f := in.split(st, ge(dst.Len, sl))
	var out []exit
	do := func(s *State, n Expr) {
		if r := s.reg[dst.R]; r != nil && dst.R != 0 && !s.c.entailsGE(neg(n)) {
			in.wrote(s, at, r.Own, in.rnames[dst.R])
			if r.Byte {
				if v, ok := viewOf(args[1]); ok {
					q := in.viewSets(s, v)
					w := v
					w.Len = n
					in.blit(s, dst.R, dst.Off2(), w, q)
					rw := s.regw(dst.R)
					if sr := s.reg[v.R]; sr != nil && !sr.Const {
						if s.c.entailsGE(neg(dst.Off)) && s.c.entailsGE(sub(n, r.N)) {
							rw.Lab = sr.Lab
						} else {
							rw.Lab &= sr.Lab
						}
						rw.From = unionStr(rw.From, sr.From)
						if sr.Own != "new" && sr.Own != "const" {
							rw.From = unionStr(rw.From, []string{"copy:" + sr.Own})
						}
					}
				}
			} else {
				src, _ := args[1].(Slice)
				w := s.regw(dst.R)
				w.Ver = in.nextSeq()
				w.Cache = nil
				var vs []Value
				if src.R != 0 {
					if sr := s.reg[src.R]; sr != nil {
						so, sn, do := s.c.norm(src.Off), s.c.norm(n), s.c.norm(dst.Off)
						if sr.Exact != nil && w.Exact != nil && so.isConst() && sn.isConst() && do.isConst() && so.C+sn.C <= int64(len(sr.Exact)) && do.C+sn.C <= int64(len(w.Exact)) && !sr.SumR && !w.SumR {
							tmp := append([]Value{}, sr.Exact[so.C:so.C+sn.C]...)
							copy(w.Exact[do.C:], tmp)
							out = append(out, exit{s, Int{n}})
							return
						}
						if sr.Lazy {
							vs = append(vs, in.elem(s, src.R, in.freshRange(s, "i", 0, lenMax), nil))
						} else if v := in.regionSum(s, sr); v != nil {
							vs = append(vs, v)
						}
						w.Lazy = w.Lazy || sr.Lazy && false
					}
				}
				if sm := in.regionSum(s, w); sm != nil && !(s.c.entailsGE(neg(dst.Off)) && s.c.entailsGE(sub(n, w.N))) {
					vs = append(vs, sm)
				}
				if len(vs) > 0 {
					j := in.newJoiner(s, []*State{s})
					nv := j.loose("copy", vs)
					w = s.regw(dst.R)
					w.Sum, w.Exact = nv, nil
				}
			}
		}
		out = append(out, exit{s, Int{n}})
	}
	for _, s := range t {
		do(s, sl)
	}
	for _, s := range f {
		do(s, dst.Len)
	}
	return out
}

func (s Slice) Off2() Expr { return s.Off }
