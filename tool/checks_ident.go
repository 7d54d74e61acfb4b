package main

// P22: identifiers of a fixed size.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var identMethods = setOfNames("UnmarshalADC", "UnmarshalNMDC", "UnmarshalText", "UnmarshalBase32", "UnmarshalBinary", "FromBase32", "FromString", "Parse")

const b32alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func setOfNames(names ...string) map[string]bool {
	out := map[string]bool{}
	for _, n := range names {
		out[n] = true
	}
	return out
}

// identType: a named array of bytes, and its size.
func identType(t types.Type) int64 {
	n, ok := t.(*types.Named)
	if !ok {
		return 0
	}
	a, ok := n.Underlying().(*types.Array)
	if !ok {
		return 0
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint8 {
		return 0
	}
	return a.Len()
}

func init() {
	checks["P22"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation with rejection runs. Every decoder of a fixed-size identifier is interpreted with all inputs shorter and longer than its text form, with base32 text that does not decode, and with base32 text that decodes to less or more than the identifier: no successful exit may be possible, and no failing one may have changed the identifier. With an input of the right size made of marked bytes, a successful exit must leave exactly those bytes (or exactly what they decode to) in the identifier. Base32 text is decoded with the standard alphabet only.")
		var jobs []job
		for _, f := range p.fns {
			if f.Pkg == nil || f.Synthetic != "" || f.Signature.Recv() == nil || !identMethods[f.Name()] || len(f.Params) != 2 {
				continue
			}
			pt, ok := f.Signature.Recv().Type().(*types.Pointer)
			if !ok {
				continue
			}
			size := identType(pt.Elem())
			if size == 0 || !byteText(f.Params[1].Type()) {
				continue
			}
			text := size
			if size > 4 {
				text = (size*8 + 4) / 5
			}
			jobs = append(jobs, p.identJobs(r, f, size, text)...)
		}
		r.jobs(p, jobs, map[string]bool{"whole text": true})
		r.atLeast("wrong size", 20)
		r.atLeast("does not decode", 7)
		r.atLeast("decoded size", 14)
		r.atLeast("unchanged", 40)
		r.atLeast("value", 9)
		p.alphabets(r)
		r.atLeast("alphabet", 1)
	}}
}

func byteText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (p *Program) identJobs(r *report, f *ssa.Function, size, text int64) []job {
	const before, char, digit = 0x11, 'Q', 0xD7
	var out []job
	name := p.short(f.String())
	// dec: how base32 text decodes: "" anything, "error", or "lo..hi" bytes
	type dec struct {
		err    bool
		lo, hi int64
	}
	run := func(rule, what string, lo, hi int64, set func(i int64) ByteSet, d *dec, judge func(in *Interp, e exit, ok bool, now []ByteSet) string) {
		out = append(out, job{rule + " " + name + ": " + what, func(in *Interp, mon *recMon) {
			in.entryOptions()
			in.opts.NoLocal = true
			in.opts.ExitMerge = 64
			st := in.start()
			n := cst(lo)
			if lo != hi {
				n = in.freshRange(st, "n", lo, hi)
			}
			// the field may be followed by others in the same line
			_, bytes := f.Params[1].Type().Underlying().(*types.Slice)
			c := n
			if bytes {
				c = in.freshRange(st, "cap", 0, lenMax)
				st.cw().addGE(sub(c, n))
			}
			id := in.newBytes(st, "text", c, plain(allBytes), "arg:text", false)
			switch {
			case set != nil && lo == hi:
				for i := int64(0); i < lo; i++ {
					in.learn(st, id, cst(i), cst(i+1), plain(set(i)))
				}
			case set != nil:
				in.learn(st, id, cst(0), n, plain(set(0)))
			}
			var a Value = Str{id, cst(0), n}
			if bytes {
				a = Slice{R: id, Off: cst(0), Len: n, Cap: c, NN: cst(1)}
			}
			o := in.newObject(st, f.Params[0].Type().(*types.Pointer).Elem(), in.markArr(st, size, before))
			st.gval["text"] = a
			st.gval["ident"] = Ptr{O: o, NN: cst(1)}
			in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
				m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
				nm := fn.String()
				if d == nil || !strings.HasPrefix(nm, "(*encoding/base32.Encoding).Decode") || nm == "(*encoding/base32.Encoding).DecodedLen" {
					return nil, false
				}
				src := args[len(args)-1]
				v, ok := viewOf(src)
				whole := ok && st.c.entailsEQ(addc(v.Len, -text)) && (set == nil || in.fine(st, v.R, v.Off, add(v.Off, v.Len)) == setOf(char))
				in.oblige(st, at, "whole text", whole, "what is decoded is not the text of the identifier")
				ln := cst(d.lo)
				if d.lo != d.hi {
					ln = in.freshRange(st, "dn", d.lo, d.hi)
				}
				err := nilErr()
				if d.err {
					err = m.unkErr()
				}
				if nm == "(*encoding/base32.Encoding).DecodeString" {
					return []exit{{st, Tuple{m.freshBytes(st, ln, plain(setOf(digit)), view{}), err}}}, true
				}
				b, ok := args[1].(Slice)
				if !ok {
					return nil, false
				}
				var ex []exit
				for _, s := range in.require(st, at, "index", ge(b.Len, ln), "base32: destination too short") {
					if b.R != 0 {
						in.writeBytes(s, b.R, b.Off, add(b.Off, ln), plain(setOf(digit)), true)
					}
					ex = append(ex, exit{s, Tuple{Int{ln}, err}})
				}
				return ex, true
			}
			where := name + ": " + what
			some := false
			for _, e := range in.callFunc(st, f, []Value{Ptr{O: o, NN: cst(1)}, a}, nil, nil) {
				good, fail := in.errNil(e)
				for i, x := range append(append([]exit{}, good...), fail...) {
					some = some || i < len(good)
					var now []ByteSet
					if q, ok := x.st.gval["ident"].(Ptr); ok {
						if ob := in.object(x.st, q.O); ob != nil {
							now = in.arrBytes(x.st, ob.V)
						}
					}
					if bad := judge(in, x, i < len(good), now); bad != "" {
						r.bad(rule, where, p.pos(f.Pos()), bad, strings.Join(x.st.trace, " ; "))
						return
					}
				}
			}
			if rule == "value" && !some {
				r.bad(rule, where, p.pos(f.Pos()), "no identifier of the right size is accepted", "")
				return
			}
			r.ok(rule, where)
			if rule != "value" {
				r.ok("unchanged", where)
			}
		}, 1})
	}
	reject := func(why string) func(in *Interp, e exit, ok bool, now []ByteSet) string {
		return func(in *Interp, e exit, ok bool, now []ByteSet) string {
			if ok {
				return why + " is accepted"
			}
			for i := int64(0); i < size; i++ {
				if i >= int64(len(now)) || now[i] != setOf(before) {
					return why + " is rejected, but the identifier is changed"
				}
			}
			return ""
		}
	}
	exact := func(want func(i int64) ByteSet) func(in *Interp, e exit, ok bool, now []ByteSet) string {
		return func(in *Interp, e exit, ok bool, now []ByteSet) string {
			if !ok {
				return ""
			}
			for i := int64(0); i < size; i++ {
				if i >= int64(len(now)) || now[i] != want(i) {
					return fmt.Sprintf("byte %d of the identifier is not that of the text", i)
				}
			}
			return ""
		}
	}
	wrong := []struct{ lo, hi int64 }{{0, 0}, {1, text - 2}, {text - 1, text - 1}, {text + 1, text + 1}, {text + 2, lenMax}}
	if size == text {
		for _, w := range wrong {
			run("wrong size", fmt.Sprintf("%d to %d bytes", w.lo, w.hi), w.lo, w.hi, nil, nil, reject("text of the wrong size"))
		}
		at := func(i int64) ByteSet { return setOf(byte('2' + i)) }
		run("value", fmt.Sprintf("%d marked bytes", text), text, text, at, nil, exact(at))
		at2 := func(i int64) ByteSet { return setOf(byte('Z' - i)) }
		run("value", fmt.Sprintf("%d other bytes", text), text, text, at2, nil, exact(at2))
		return out
	}
	q := func(i int64) ByteSet { return setOf(char) }
	for _, w := range wrong {
		// the decoder skips line breaks: it may find all of the digits in a longer text
		run("wrong size", fmt.Sprintf("%d to %d bytes", w.lo, w.hi), w.lo, w.hi, nil, &dec{lo: size, hi: size}, reject("text of the wrong size"))
	}
	run("does not decode", "an error and a whole value", text, text, nil, &dec{err: true, lo: size, hi: size}, reject("text that does not decode"))
	run("does not decode", "an error and a part", text, text, nil, &dec{err: true, lo: 0, hi: size - 1}, reject("text that does not decode"))
	run("decoded size", "nothing", text, text, nil, &dec{lo: 0, hi: 0}, reject("text that decodes to a part"))
	run("decoded size", "a part", text, text, nil, &dec{lo: 1, hi: size - 1}, reject("text that decodes to a part"))
	run("value", fmt.Sprintf("%d marked digits", text), text, text, q, &dec{lo: size, hi: size}, exact(func(int64) ByteSet { return setOf(digit) }))
	return out
}

// arrBytes: what each byte of an array may be.
func (in *Interp) arrBytes(st *State, v Value) []ByteSet {
	a, ok := v.(Arr)
	if !ok {
		return nil
	}
	rg := st.reg[a.R]
	if rg == nil {
		return nil
	}
	n := st.c.norm(rg.N)
	if !n.isConst() || n.C > 64 {
		return nil
	}
	var out []ByteSet
	for i := int64(0); i < n.C; i++ {
		out = append(out, in.fine(st, a.R, cst(i), cst(i+1)))
	}
	return out
}

// alphabets: uses of base32 encodings of another alphabet.
func (p *Program) alphabets(r *report) {
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/base32" {
						continue
					}
					r.must(g.Name() == "StdEncoding", "alphabet", p.short(f.String()), p.pos(instrPos(i)), "base32 with another alphabet")
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().String() != "encoding/base32.NewEncoding" {
					continue
				}
				k, ok := c.Common().Args[0].(*ssa.Const)
				r.must(ok && k.Value != nil && constant.StringVal(k.Value) == b32alphabet, "alphabet", p.short(f.String()), p.pos(instrPos(i)), "base32 with another alphabet")
			}
		}
	}
}
