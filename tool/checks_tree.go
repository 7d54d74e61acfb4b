package main

// P17: tree hashes depend on the content only.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const leafSize = 1024 // of a Tiger tree

// contentSource makes unknown readers return content in pieces of any size,
// and fail at any time. What was read and not hashed yet is in
// st.gval["pend"], where it went in st.gval["dst"].
func (in *Interp) contentSource() {
	place := func(m *mcall, s Slice) []*State {
		st := m.st
		if st.gval["pend"] == nil {
			st.gval["pend"] = Int{cst(0)}
		}
		pend := st.gval["pend"].(Int).E
		none, some := in.split(st, mkCmp(cEQ, pend))
		for _, x := range none {
			x.gval["dst"] = s
			x.gval["pend"] = Int{cst(0)}
		}
		for _, x := range some {
			d, ok := x.gval["dst"].(Slice)
			ok = ok && d.R == s.R && s.R != 0 && x.c.entailsEQ(sub(s.Off, add(d.Off, pend)))
			in.oblige(x, m.at, "contiguous", ok, "content is not read to where the content before it ends")
		}
		return append(none, some...)
	}
	wrote := func(m *mcall, st *State, s Slice) {
		if rg := st.reg[s.R]; rg != nil && s.R != 0 {
			in.wrote(st, m.at, rg.Own, in.rnames[s.R])
			in.writeBytes(st, s.R, s.Off, add(s.Off, s.Len), plain(allBytes), true)
		}
	}
	took := func(st *State, n Expr) {
		st.gval["pend"] = Int{add(st.gval["pend"].(Int).E, n)}
	}
	eof := func(name string) Value { return Iface{NN: cst(1), ID: "globalv:io." + name} }
	failure := func() Value { return Iface{NN: cst(1), ID: "new:read failure"} }
	in.source = func(m *mcall, r Value, s Slice) ([]exit, bool) {
		in.consumeRead(m.st)
		var out []exit
		if m.st.ghost["eof"] == "yes" {
			return []exit{{m.st, Tuple{Int{cst(0)}, eof("EOF")}}}, true
		}
		for _, st := range place(m, s) {
			wrote(m, st, s)
			n := in.freshRange(st, "read", 0, lenMax)
			st.cw().addGE(sub(s.Len, n))
			took(st, n)
			bad, end := st.clone(), st.clone()
			bad.ghost["failed"] = "yes"
			end.ghost["eof"] = "yes"
			out = append(out,
				exit{st, Tuple{Int{n}, nilErr()}},
				exit{end, Tuple{Int{n}, eof("EOF")}},
				exit{bad, Tuple{Int{n}, failure()}})
		}
		return out, true
	}
	in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
		name := fn.String()
		switch {
		case name == "io.ReadFull" && len(args) == 2:
			s, ok := args[1].(Slice)
			if !ok {
				return nil, false
			}
			m := &mcall{in: in, st: st, at: at, fn: name, args: args, sig: fn.Signature}
			in.consumeRead(st)
			if st.ghost["eof"] == "yes" {
				return []exit{{st, Tuple{Int{cst(0)}, eof("EOF")}}}, true
			}
			var out []exit
			for _, x := range place(m, s) {
				wrote(m, x, s)
				end, part, bad := x.clone(), x.clone(), x.clone()
				took(x, s.Len)
				out = append(out, exit{x, Tuple{Int{s.Len}, nilErr()}})
				end.ghost["eof"] = "yes"
				out = append(out, exit{end, Tuple{Int{cst(0)}, eof("EOF")}})
				n := in.freshRange(part, "read", 1, lenMax)
				part.cw().addGE(addc(sub(s.Len, n), -1))
				took(part, n)
				part.ghost["eof"] = "yes"
				out = append(out, exit{part, Tuple{Int{n}, eof("ErrUnexpectedEOF")}})
				n2 := in.freshRange(bad, "read", 0, lenMax)
				bad.ghost["failed"] = "yes"
				took(bad, n2)
				out = append(out, exit{bad, Tuple{Int{n2}, failure()}})
			}
			return out, true
		case strings.HasSuffix(name, "tiger.HashBytes") && len(args) == 1:
			return in.hashed(st, at, fn, args[0]), true
		}
		return nil, false
	}
}

// hashed judges what is hashed for a node.
func (in *Interp) hashed(st *State, at ssa.Instruction, fn *ssa.Function, arg Value) []exit {
	var out []exit
	done := func(x *State) {
		x.ghost["hashed"] = "yes"
		x.gval["pend"] = Int{cst(0)}
		delete(x.gval, "dst")
		out = append(out, exit{x, in.freshResult(x, fn.Signature, "hash")})
	}
	a, ok := arg.(Slice)
	first := allBytes
	if ok {
		first = in.fine(st, a.R, a.Off, addc(a.Off, 1))
	}
	pend := cst(0)
	if x, ok := st.gval["pend"].(Int); ok {
		pend = x.E
	}
	leaf := first == setOf(0)
	inner := first == setOf(1)
	in.oblige(st, at, "prefix", ok && (leaf || inner), "what is hashed does not begin with the prefix of a leaf or of an inner node")
	if !leaf {
		in.oblige(st, at, "inner node", ok && st.c.entailsEQ(addc(a.Len, -49)), "what is hashed for an inner node is not a prefix and two hashes")
		if st.ghost["source"] == "yes" {
			in.oblige(st, at, "inner node", st.ghost["eof"] == "yes" && st.c.entailsEQ(pend), "an inner node is hashed before all of the content")
		}
		out = append(out, exit{st, in.freshResult(st, fn.Signature, "hash")})
		return out
	}
	in.oblige(st, at, "leaf", st.ghost["source"] == "yes" && st.ghost["failed"] != "yes", "a leaf is hashed although reading its content failed")
	none, some := in.split(st, mkCmp(cEQ, pend))
	for _, x := range none {
		in.oblige(x, at, "leaf", x.c.entailsEQ(addc(a.Len, -1)), "a leaf has bytes that are not content")
		in.oblige(x, at, "leaf", x.ghost["eof"] == "yes" && x.ghost["hashed"] != "yes", "an empty leaf is hashed for content that is not empty")
		done(x)
	}
	for _, x := range some {
		d, isS := x.gval["dst"].(Slice)
		in.oblige(x, at, "leaf", isS && d.R == a.R && x.c.entailsEQ(sub(d.Off, addc(a.Off, 1))) && x.c.entailsEQ(addc(sub(a.Len, pend), -1)), "what is hashed for a leaf is not the prefix and the content that was read")
		full := in.decide(x, mkCmp(cEQ, addc(pend, -leafSize))) == 1
		in.oblige(x, at, "leaf", full || x.ghost["eof"] == "yes" && in.within(x, pend, leafSize), "a block that is not full is hashed before the end of the content")
		done(x)
	}
	return out
}

func init() {
	checks["P17"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation of the functions that hash content from a reader that may return pieces of any size, the end of input with or without data, and failures at any time: content is read to consecutive places; a leaf is hashed from the byte 0 and all that was read since the last one, which is a whole block unless the input ended; an inner node is hashed from the byte 1 and two hashes; a successful exit is only possible after the end of the input, with everything hashed and no read failure.")
		var jobs []job
		n := 0
		for _, f := range p.fns {
			if !p.exported(f) || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/tiger") || f.Synthetic != "" {
				continue
			}
			f := f
			src := -1
			for i, q := range f.Params {
				if typeName(q.Type()) == "io.Reader" {
					src = i
				}
			}
			rv := f.Signature.Recv()
			if src < 0 && (rv == nil || !strings.HasSuffix(typeName(deref(rv.Type())), "Leaves")) {
				continue
			}
			n++
			jobs = append(jobs, job{p.short(f.String()), func(in *Interp, mon *recMon) {
				in.entryOptions()
				in.opts.ExitMerge = 64
				in.opts.NoLocal, in.opts.ErrIDs = true, true
				in.contentSource()
				st := in.start()
				if src >= 0 {
					st.ghost["source"] = "yes"
					st.gval["pend"] = Int{cst(0)}
				}
				args := []Value{}
				for _, q := range f.Params {
					args = append(args, in.arg(st, q))
				}
				for _, e := range in.callFunc(st, f, args, nil, nil) {
					if src < 0 {
						continue
					}
					ok, _ := in.errNil(e)
					for _, e := range ok {
						pend, _ := e.st.gval["pend"].(Int)
						at := f.Blocks[0].Instrs[0]
						in.oblige(e.st, at, "complete", e.st.ghost["failed"] != "yes", "a failure to read the content is not reported")
						in.oblige(e.st, at, "complete", e.st.ghost["eof"] == "yes" && e.st.c.entailsEQ(pend.E), "the hash does not cover the whole content")
						in.oblige(e.st, at, "complete", e.st.ghost["hashed"] == "yes", "nothing was hashed")
					}
				}
			}, 10})
		}
		r.jobs(p, jobs, map[string]bool{"contiguous": true, "prefix": true, "inner node": true, "leaf": true, "complete": true})
		r.set("tree_functions", n)
		r.atLeast("complete", 2)
		r.atLeast("prefix", 2)
		r.atLeast("leaf", 1)
	}}
}
