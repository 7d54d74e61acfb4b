package main

// P18: keyprints.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	kpLen  = 59 // of a keyprint: SHA256/ and 52 digits
	kpMark = 'A'
)

func init() {
	checks["P18"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation with marked bytes. The keyprint function must hash all of its argument and return the prefix and the base32 form of that hash. Verification is interpreted with keyprints of peer certificates made of one byte, keyprints of anything else unknown, and expected keyprints that differ from those of the peer in one byte at each position, in the case of letters, or in length: no successful exit may be possible. The file reader must hash each certificate block, no other block, and return as many keyprints as it hashed, up to the end of the data.")
		var jobs []job
		for _, f := range p.fns {
			if f.Pkg == nil || f.Synthetic != "" || !p.exported(f) {
				continue
			}
			switch p.short(f.String()) {
			case "keyprint.FromBytes":
				jobs = append(jobs, p.keyprintOf(f))
			case "keyprint.FromFile":
				jobs = append(jobs, p.keyprintFile(f))
			case "keyprint/tlskp.VerifyKeyPrint":
				jobs = append(jobs, p.keyprintVerify(r, f)...)
			}
		}
		r.jobs(p, jobs, map[string]bool{"whole certificate": true, "keyprint": true, "certificate block": true, "all blocks": true})
		r.atLeast("whole certificate", 1)
		r.atLeast("keyprint", 1)
		r.atLeast("certificate block", 1)
		r.atLeast("all blocks", 1)
		r.atLeast("no match", kpLen+3)
	}}
}

// sameView: two values are the same bytes.
func sameView(st *State, a, b Value) bool {
	x, ok1 := viewOf(a)
	y, ok2 := viewOf(b)
	return ok1 && ok2 && x.R == y.R && st.c.entailsEQ(sub(x.Off, y.Off)) && st.c.entailsEQ(sub(x.Len, y.Len))
}

// keyprintOf: the keyprint is that of the SHA-256 of all of the argument.
func (p *Program) keyprintOf(f *ssa.Function) job {
	return job{p.short(f.String()), func(in *Interp, mon *recMon) {
		const sum, digit = 0xF7, 0xF8
		encoded := func(st *State, a Value) bool {
			v, ok := viewOf(a)
			return ok && st.c.entailsEQ(addc(v.Len, -32)) && in.fine(st, v.R, v.Off, add(v.Off, v.Len)) == setOf(sum)
		}
		in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
			m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
			switch fn.String() {
			case "crypto/sha256.Sum256":
				in.oblige(st, at, "whole certificate", sameView(st, args[0], st.gval["cert"]), "what is hashed is not the whole certificate")
				return []exit{{st, in.markArr(st, 32, sum)}}, true
			case "(*encoding/base32.Encoding).EncodeToString":
				set := allBytes
				if encoded(st, args[1]) {
					set = setOf(digit)
				}
				return m.ret(m.freshStr(st, cst(kpLen-7), plain(set), view{})), true
			case "(*encoding/base32.Encoding).Encode":
				d, ok := args[1].(Slice)
				if !ok || !encoded(st, args[2]) {
					return nil, false
				}
				in.writeBytes(st, d.R, d.Off, addc(d.Off, kpLen-7), plain(setOf(digit)), true)
				return m.ret(Tuple{}), true
			}
			return nil, false
		}
		in.entryOptions()
		in.opts.NoLocal = true
		st := in.start()
		a := in.arg(st, f.Params[0])
		st.gval["cert"] = a
		for _, e := range in.callFunc(st, f, []Value{a}, nil, nil) {
			s, ok := e.ret.(Str)
			ok = ok && e.st.c.entailsEQ(addc(s.Len, -kpLen))
			if ok {
				pre := in.fine(e.st, s.R, s.Off, addc(s.Off, 7))
				ok = pre.and(setOfString("SHA256/").not()).empty() && in.fine(e.st, s.R, addc(s.Off, 7), add(s.Off, s.Len)) == setOf(digit)
			}
			in.oblige(e.st, f.Blocks[0].Instrs[0], "keyprint", ok, "the result is not SHA256/ and the base32 form of the hash")
		}
	}, 10}
}

// keyprintFile: each certificate block is hashed, and nothing else.
func (p *Program) keyprintFile(f *ssa.Function) job {
	return job{p.short(f.String()), func(in *Interp, mon *recMon) {
		kinds := []string{"RSA PRIVATE KEY", "X509 CERTIFICATE", "CERTIFICATE REQUEST", "TRUSTED CERTIFICATE", "certificate", "CERTIFICATES", ""}
		leave := func(st *State, at ssa.Instruction) {
			in.oblige(st, at, "all blocks", st.ghost["block"] != "cert", "a certificate block is left out")
		}
		in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
			m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
			switch n := fn.String(); {
			case n == "encoding/pem.Decode":
				leave(st, at)
				delete(st.gval, "der")
				delete(st.ghost, "block")
				if rest := st.gval["rest"]; rest != nil {
					in.oblige(st, at, "all blocks", sameView(st, args[0], rest), "blocks are not looked for in all of the data")
				}
				var out []exit
				for _, e := range models[n](m) {
					t := e.ret.(Tuple)
					q, _ := t[0].(Ptr)
					e.st.gval["rest"] = t[1]
					if q.O == 0 {
						e.st.ghost["block"] = "end"
						out = append(out, e)
						continue
					}
					ob := in.object(e.st, q.O)
					sv, ok := ob.V.(Struct)
					if !ok || len(sv.F) < 3 {
						return nil, false
					}
					for k, name := range append(kinds, "CERTIFICATE") {
						s := e.st.clone()
						fs := append([]Value{}, sv.F...)
						fs[0] = in.constStr(s, name)
						o := *ob
						o.V = Struct{F: fs}
						s.obj[q.O] = &o
						s.ghost["block"] = "other " + name
						if k == len(kinds) {
							s.ghost["block"] = "cert"
							fs[2] = in.force(s, fs[2], types.NewSlice(types.Typ[types.Uint8]))
							s.gval["der"] = fs[2]
						}
						out = append(out, exit{s, e.ret})
					}
				}
				return out, true
			case strings.HasSuffix(n, "keyprint.FromBytes"):
				in.oblige(st, at, "certificate block", st.ghost["block"] == "cert" && sameView(st, args[0], st.gval["der"]), "what is hashed is not the content of a certificate block")
				st.ghost["block"] = "hashed"
				delete(st.gval, "der")
				c, _ := st.gval["count"].(Int)
				st.gval["count"] = Int{addc(c.E, 1)}
				return m.ret(m.freshStr(st, cst(kpLen), plain(setOf(kpMark)), view{})), true
			}
			return nil, false
		}
		in.entryOptions()
		in.opts.NoLocal = true
		in.opts.ExitMerge = 64
		st := in.start()
		st.gval["count"] = Int{cst(0)}
		at := f.Blocks[0].Instrs[0]
		for _, e := range in.callFunc(st, f, []Value{in.arg(st, f.Params[0])}, nil, nil) {
			good, _ := in.errNil(e)
			for _, x := range good {
				in.oblige(x.st, at, "all blocks", x.st.ghost["block"] == "end", "blocks after the one read last are left out")
				t, _ := x.ret.(Tuple)
				l, ok := t[0].(Slice)
				c, _ := x.st.gval["count"].(Int)
				in.oblige(x.st, at, "all blocks", ok && x.st.c.entailsEQ(sub(l.Len, c.E)), "not every keyprint is returned")
			}
		}
	}, 10}
}

// keyprintVerify: an expected keyprint that no certificate has is rejected.
func (p *Program) keyprintVerify(r *report, f *ssa.Function) []job {
	type try struct {
		name string
		kp   func(in *Interp, st *State) Value
	}
	var tries []try
	bytes := func(in *Interp, st *State, n Expr, set ByteSet) Str {
		id := in.newBytes(st, "kp", n, plain(set), "new", false)
		return Str{id, cst(0), n}
	}
	for i := 0; i < kpLen; i++ {
		i := i
		tries = append(tries, try{fmt.Sprintf("other byte at %d", i), func(in *Interp, st *State) Value {
			s := bytes(in, st, cst(kpLen), setOf(kpMark, 'B'))
			in.learn(st, s.R, cst(int64(i)), cst(int64(i+1)), plain(setOf('B')))
			return s
		}})
	}
	tries = append(tries, try{"other case", func(in *Interp, st *State) Value { return bytes(in, st, cst(kpLen), setOf('a')) }},
		try{"shorter", func(in *Interp, st *State) Value {
			n := in.freshRange(st, "n", 0, kpLen-1)
			return bytes(in, st, n, setOf(kpMark))
		}},
		try{"longer", func(in *Interp, st *State) Value {
			n := in.freshRange(st, "n", kpLen+1, lenMax)
			return bytes(in, st, n, setOf(kpMark))
		}})
	var out []job
	for _, t := range tries {
		t := t
		out = append(out, job{"keyprint with " + t.name, func(in *Interp, mon *recMon) {
			in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
				if fn.String() == "(*crypto/tls.Conn).ConnectionState" {
					ex := in.unknownCall(st, at, fn.String(), args, fn.Signature)
					for _, e := range ex {
						sv, _ := e.ret.(Struct)
						u, _ := fn.Signature.Results().At(0).Type().Underlying().(*types.Struct)
						for i := range sv.F {
							if u.Field(i).Name() == "PeerCertificates" {
								sv.F[i] = in.force(e.st, sv.F[i], u.Field(i).Type())
								e.st.gval["peers"] = sv.F[i]
							}
						}
						e.st.ghost["conn"] = "other"
						q, ok := args[0].(Ptr)
						if w, isP := e.st.gval["conn"].(Ptr); ok && isP && q.O == w.O {
							e.st.ghost["conn"] = "arg"
						}
					}
					return ex, true
				}
				if !strings.HasSuffix(fn.String(), "keyprint.FromBytes") {
					return nil, false
				}
				m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
				set := allBytes
				if p.peerRaw(in, st, args[0]) {
					set = setOf(kpMark)
				}
				return m.ret(m.freshStr(st, cst(kpLen), plain(set), view{})), true
			}
			in.entryOptions()
			in.opts.NoLocal = true
			st := in.start()
			var args []Value
			for _, q := range f.Params {
				if q.Type().String() == "string" {
					args = append(args, t.kp(in, st))
					continue
				}
				v := in.arg(st, q)
				if x, ok := v.(Ptr); ok {
					x.NN = cst(1)
					v = x
					st.gval["conn"] = x
				}
				args = append(args, v)
			}
			n := 0
			for _, e := range in.callFunc(st, f, args, nil, nil) {
				good, _ := in.errNil(e)
				for _, x := range good {
					n++
					r.bad("no match", "expected keyprint with "+t.name, p.pos(f.Pos()), "verification succeeds with an expected keyprint that no certificate of the peer has", strings.Join(x.st.trace, " ; "))
					break
				}
			}
			if n == 0 {
				r.ok("no match", "expected keyprint with "+t.name)
			}
		}, 1})
	}
	return out
}

// peerRaw: all the raw bytes of a certificate that the peer of the connection
// given to the entry point presented.
func (p *Program) peerRaw(in *Interp, st *State, v Value) bool {
	s, ok := v.(Slice)
	if !ok || st.reg[s.R] == nil || st.ghost["conn"] != "arg" {
		return false
	}
	l, ok := st.gval["peers"].(Slice)
	if !ok || l.R == 0 {
		return false
	}
	n, of := in.rnames[s.R], in.rnames[l.R]
	return strings.HasPrefix(n, of) && strings.HasSuffix(n, ".Raw[]") && st.c.entailsEQ(s.Off) && strings.HasPrefix(in.syms.str(s.Len), strings.TrimSuffix(n, "[]")+".len")
}
