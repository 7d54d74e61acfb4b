package main

// P24: hub addresses.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var addrSchemes = map[string][]string{"nmdc": {"dchub", "nmdcs"}, "adc": {"adc", "adcs"}}

// addrAlias are other names that a parser turns into a scheme of its protocol.
var addrAlias = map[string][]string{"nmdc": {"nmdc"}}

var schemeBytes = setOfString("abcdefghijklmnopqrstuvwxyz0123456789+-.")

// otherSchemes describes all schemes but those given: by length, or by a byte
// in which they differ from each one of the same length.
func otherSchemes(known []string) []schemeTry {
	var out []schemeTry
	byLen := map[int][]string{}
	most := 0
	for _, k := range known {
		byLen[len(k)] = append(byLen[len(k)], k)
		if len(k) > most {
			most = len(k)
		}
	}
	from := 0
	for n := 0; n <= most; n++ {
		ks := byLen[n]
		if len(ks) == 0 {
			continue
		}
		if n > from {
			out = append(out, schemeTry{lo: int64(from), hi: int64(n - 1)})
		}
		from = n + 1
		pos := make([]int, len(ks))
		for {
			t := schemeTry{lo: int64(n), hi: int64(n)}
			for i, k := range ks {
				t.not = append(t.not, struct {
					at int
					b  byte
				}{pos[i], k[pos[i]]})
			}
			out = append(out, t)
			i := 0
			for ; i < len(pos); i++ {
				if pos[i]++; pos[i] < n {
					break
				}
				pos[i] = 0
			}
			if i == len(pos) {
				break
			}
		}
	}
	return append(out, schemeTry{lo: int64(from), hi: lenMax})
}

type schemeTry struct {
	lo, hi int64
	not    []struct {
		at int
		b  byte
	}
}

func (t schemeTry) String() string {
	s := fmt.Sprintf("of %d to %d bytes", t.lo, t.hi)
	if t.lo == t.hi {
		s = fmt.Sprintf("of %d bytes", t.lo)
	}
	for _, n := range t.not {
		s += fmt.Sprintf(", no %q at %d", n.b, n.at)
	}
	return s
}

func (t schemeTry) value(in *Interp, st *State) Value {
	n := cst(t.lo)
	if t.lo != t.hi {
		n = in.freshRange(st, "n", t.lo, t.hi)
	}
	id := in.newBytes(st, "scheme", n, plain(schemeBytes), "new", false)
	for _, x := range t.not {
		in.learn(st, id, cst(int64(x.at)), cst(int64(x.at+1)), plain(schemeBytes.and(setOf(x.b).not())))
	}
	return Str{id, cst(0), n}
}

// urlModel makes url.Parse return an URL with this scheme.
func (in *Interp) urlModel(scheme func(st *State) Value, more func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool)) {
	in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
		if fn.String() != "net/url.Parse" {
			if more != nil {
				return more(st, at, fn, args)
			}
			return nil, false
		}
		m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
		st.gval["parsed"] = args[0]
		bad := st.clone()
		u := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		sv := Struct{}
		us := u.Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			f := us.Field(i)
			if f.Name() == "Scheme" {
				sv.F = append(sv.F, scheme(st))
			} else {
				sv.F = append(sv.F, in.initial(st, "url."+f.Name(), f.Type(), nameCtx{own: "new", depth: 2}))
			}
		}
		o := in.newObject(st, u, sv)
		return []exit{{st, Tuple{Ptr{O: o, NN: cst(1)}, nilErr()}}, {bad, Tuple{Ptr{NN: cst(0)}, m.unkErr()}}}, true
	}
}

func (p *Program) addrJob(r *report, f *ssa.Function, rule, what string, setup func(in *Interp), arg func(in *Interp, st *State) Value, judge func(in *Interp, e exit) string) job {
	return job{rule + " " + p.short(f.String()) + " " + what, func(in *Interp, mon *recMon) {
		in.entryOptions()
		in.opts.NoLocal = true
		in.opts.ExitMerge = 64
		setup(in)
		st := in.start()
		v := arg(in, st)
		st.gval["addr"] = v
		where := p.short(f.String()) + ": " + what
		for _, e := range in.callFunc(st, f, []Value{v}, nil, nil) {
			if bad := judge(in, e); bad != "" {
				r.bad(rule, where, p.pos(f.Pos()), bad, strings.Join(e.st.trace, " ; "))
				return
			}
		}
		r.ok(rule, where)
	}, 1}
}

func init() {
	checks["P24"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Abstract interpretation with rejection runs. The address parser of each protocol is interpreted with URLs of every scheme but its own, described by length and by a byte in which they differ: no successful exit may be possible, and with its own schemes the result keeps one of them. A bare NMDC address is parsed with the default scheme before it, another one as it is. Normalising is interpreted with URLs that have no host name: no successful exit may be possible. The combined functions are interpreted with addresses of ADC schemes and others: each must reach the parser of its protocol with the whole address, and return its results.")
		var jobs []job
		any := func(in *Interp, st *State) Value {
			n := in.freshRange(st, "n", 0, lenMax)
			return Str{in.newBytes(st, "addr", n, plain(allBytes), "arg:addr", false), cst(0), n}
		}
		text := func(s string) func(in *Interp, st *State) Value {
			return func(in *Interp, st *State) Value { return in.constStr(st, s) }
		}
		success := func(in *Interp, e exit) bool {
			good, _ := in.errNil(e)
			return len(good) > 0
		}
		for _, f := range p.fns {
			if f.Pkg == nil || f.Synthetic != "" || f.Signature.Recv() != nil || !p.exported(f) || len(f.Params) != 1 || f.Name() != "ParseAddr" && f.Name() != "NormalizeAddr" {
				continue
			}
			f := f
			pk := p.short(f.Pkg.Pkg.Path())
			if pk == "dc" {
				jobs = append(jobs, p.dispatchJobs(r, f)...)
				continue
			}
			own := addrSchemes[pk]
			if own == nil {
				continue
			}
			known := append(append([]string{}, own...), addrAlias[pk]...)
			for _, t := range otherSchemes(known) {
				t := t
				jobs = append(jobs, p.addrJob(r, f, "scheme", "scheme "+t.String(), func(in *Interp) {
					in.urlModel(func(st *State) Value { return t.value(in, st) }, nil)
				}, any, func(in *Interp, e exit) string {
					if success(in, e) {
						return "an address of an unsupported scheme is accepted"
					}
					return ""
				}))
			}
			if f.Name() == "NormalizeAddr" {
				for _, k := range own {
					k := k
					jobs = append(jobs, p.addrJob(r, f, "host", "no host, scheme "+k, func(in *Interp) {
						in.urlModel(func(st *State) Value { return in.constStr(st, k) }, func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
							m := &mcall{in: in, st: st, at: at, fn: fn.String(), args: args, sig: fn.Signature}
							switch fn.String() {
							case "net.SplitHostPort":
								bad := st.clone()
								n := in.freshRange(st, "n", 0, lenMax)
								port := m.freshStr(st, n, plain(allBytes), view{})
								return []exit{{st, Tuple{in.constStr(st, ""), port, nilErr()}}, {bad, Tuple{in.constStr(bad, ""), in.constStr(bad, ""), m.unkErr()}}}, true
							case "(*net/url.URL).Hostname":
								return m.ret(in.constStr(st, "")), true
							}
							return nil, false
						})
					}, any, func(in *Interp, e exit) string {
						if success(in, e) {
							return "an address without a host name is accepted"
						}
						return ""
					}))
				}
				continue
			}
			for _, k := range known {
				k := k
				jobs = append(jobs, p.addrJob(r, f, "own scheme", "scheme "+k, func(in *Interp) {
					in.urlModel(func(st *State) Value { return in.constStr(st, k) }, nil)
				}, any, func(in *Interp, e exit) string {
					good, _ := in.errNil(e)
					for _, x := range good {
						t, _ := x.ret.(Tuple)
						q, _ := t[0].(Ptr)
						ob := in.object(x.st, q.O)
						fine := false
						if ob != nil {
							if sv, ok := ob.V.(Struct); ok {
								u := ob.T.Underlying().(*types.Struct)
								for i := range sv.F {
									if u.Field(i).Name() == "Scheme" {
										s, _ := in.constText(x.st, sv.F[i])
										for _, o := range own {
											fine = fine || o == s
										}
									}
								}
							}
						}
						if !fine {
							return "the parsed address does not have a scheme of the protocol"
						}
					}
					return ""
				}))
			}
			asIs := []string{own[0] + "://host", own[1] + "://host:1", "http://host"}
			for _, a := range asIs {
				a := a
				jobs = append(jobs, p.addrJob(r, f, "parsed text", a, func(in *Interp) {
					in.urlModel(func(st *State) Value { return in.constStr(st, own[0]) }, nil)
				}, text(a), func(in *Interp, e exit) string {
					if s, ok := in.constText(e.st, e.st.gval["parsed"]); !ok || s != a {
						return "an address with a scheme is changed before it is parsed"
					}
					return ""
				}))
			}
			if pk != "nmdc" {
				continue
			}
			for _, a := range []string{"host", "host:411", "", "adc", "dchub", "[::1]:411", "user@host", "host/a:b"} {
				a := a
				jobs = append(jobs, p.addrJob(r, f, "default scheme", fmt.Sprintf("%q", a), func(in *Interp) {
					in.urlModel(func(st *State) Value { return in.constStr(st, own[0]) }, nil)
				}, text(a), func(in *Interp, e exit) string {
					if s, ok := in.constText(e.st, e.st.gval["parsed"]); !ok || s != own[0]+"://"+a {
						return "a bare address is not parsed with the default scheme"
					}
					return ""
				}))
			}
			jobs = append(jobs, p.addrJob(r, f, "default scheme", "any address without a colon", func(in *Interp) {
				in.urlModel(func(st *State) Value { return in.constStr(st, own[0]) }, nil)
			}, func(in *Interp, st *State) Value {
				n := in.freshRange(st, "n", 0, lenMax)
				return Str{in.newBytes(st, "addr", n, plain(setOf(':').not()), "arg:addr", false), cst(0), n}
			}, func(in *Interp, e exit) string {
				s, ok := e.st.gval["parsed"].(Str)
				a, _ := e.st.gval["addr"].(Str)
				if !ok || !e.st.c.entailsEQ(addc(sub(s.Len, a.Len), -int64(len(own[0])+3))) {
					return "a bare address is not parsed with the default scheme"
				}
				return ""
			}))
		}
		r.jobs(p, jobs, map[string]bool{})
		r.atLeast("scheme", 40)
		r.atLeast("own scheme", 4)
		r.atLeast("host", 4)
		r.atLeast("default scheme", 5)
		r.atLeast("parsed text", 4)
		r.atLeast("dispatch", 20)
	}}
}

// dispatchJobs: the combined functions reach the parser of the right protocol.
func (p *Program) dispatchJobs(r *report, f *ssa.Function) []job {
	var out []job
	run := func(what, want string, arg func(in *Interp, st *State) Value) {
		out = append(out, p.addrJob(r, f, "dispatch", what, func(in *Interp) {
			in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
				if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Name() != "ParseAddr" && fn.Name() != "NormalizeAddr" || len(args) != 1 {
					return nil, false
				}
				pk := p.short(fn.Pkg.Pkg.Path())
				if addrSchemes[pk] == nil {
					return nil, false
				}
				st.ghost["to"] += pk + "." + fn.Name()
				if !sameView(st, args[0], st.gval["addr"]) {
					st.ghost["to"] += " (changed)"
				}
				ex := in.results(st, at, fn.String(), fn.Signature)
				for _, e := range ex {
					if t, ok := e.ret.(Tuple); ok {
						e.st.gval["res"] = t[0]
						e.st.gval["err"] = t[1]
					}
				}
				return ex, true
			}
		}, arg, func(in *Interp, e exit) string {
			if e.st.ghost["to"] != want+"."+f.Name() {
				return "the address is not given to the parser of its protocol (" + e.st.ghost["to"] + ")"
			}
			t, ok := e.ret.(Tuple)
			if !ok || !sameValue(in, e.st, t[0], e.st.gval["res"]) && !sameView(e.st, t[0], e.st.gval["res"]) && in.show(e.st, t[0]) != in.show(e.st, e.st.gval["res"]) {
				return "the result of the parser is not returned"
			}
			if in.show(e.st, t[1]) != in.show(e.st, e.st.gval["err"]) {
				return "the error of the parser is not returned"
			}
			return ""
		}))
	}
	text := func(s string) func(in *Interp, st *State) Value {
		return func(in *Interp, st *State) Value { return in.constStr(st, s) }
	}
	for _, a := range []string{"adc://h", "adcs://h:1", "ADC://h", "aDcS://h/", "adc://", "adc://nmdcs://h", "adcs://[::1]:1/?kp=SHA256/A"} {
		run(fmt.Sprintf("%q", a), "adc", text(a))
	}
	for _, a := range []string{"", "h", "adc", "adcs", "adc:", "adc:/h", "adc//h", "adc.example.org", "adcs.example.org:411", "adcx://h", "adcss://h", "xadc://h", "adc.example.org://h", "ad://h", "dchub://adc://h", "nmdcs://adcs.example.org", "dchub://adc", "://adc", "://", "http://h?adc://", "h/adc://", " adc://h", "adc ://h"} {
		run(fmt.Sprintf("%q", a), "nmdc", text(a))
	}
	run("any address without a colon", "nmdc", func(in *Interp, st *State) Value {
		n := in.freshRange(st, "n", 0, lenMax)
		return Str{in.newBytes(st, "addr", n, plain(setOf(':').not()), "arg:addr", false), cst(0), n}
	})
	return out
}
