package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Routing headers of ADC packets, decided with marked bytes: the source is
// made of one byte value, the target of another, and the abstract memory says
// where they can end up.

const (
	markSrc = 0xF1
	markDst = 0xF2
	markCmd = 0xF3
)

// markArr makes an array of n bytes of one value.
func (in *Interp) markArr(st *State, n int64, b byte) Arr {
	id := in.newRegion(st, fmt.Sprintf("mark~%d", in.nextSeq()), &Region{Byte: true, N: cst(n), Own: "new", Mut: true, Elem: types.Typ[types.Uint8], Base: plain(setOf(b))})
	return Arr{id}
}

func (in *Interp) arrSet(st *State, v Value) (ByteSet, int64) {
	switch a := v.(type) {
	case Arr:
		if rg := st.reg[a.R]; rg != nil {
			n := st.c.norm(rg.N)
			return in.fine(st, a.R, cst(0), n), n.C
		}
	}
	return allBytes, -1
}

// sidFields finds the source, target and message fields of a packet type.
type packetShape struct {
	n             *types.Named
	u             *types.Struct
	src, dst, msg int
	sel           int
}

func (p *Program) packetShape(n *types.Named) packetShape {
	u, _ := n.Underlying().(*types.Struct)
	s := packetShape{n: n, u: u, src: -1, dst: -1, msg: -1, sel: -1}
	for i := 0; u != nil && i < u.NumFields(); i++ {
		f := u.Field(i)
		switch {
		case f.Name() == "ID":
			s.src = i
		case f.Name() == "To":
			s.dst = i
		case f.Name() == "Msg":
			s.msg = i
		case f.Name() == "Sel":
			s.sel = i
		}
	}
	return s
}

// mark is the value of a field made of one byte.
func (in *Interp) markValue(st *State, t types.Type, b byte) Value {
	if a, ok := t.Underlying().(*types.Array); ok {
		return in.markArr(st, a.Len(), b)
	}
	return in.initial(st, fmt.Sprintf("mark~%d", in.nextSeq()), t, nameCtx{own: "new"})
}

// kindOfName is the packet type a helper is named for.
func kindOfName(name string, ts []*types.Named) *types.Named {
	base := strings.TrimSuffix(strings.TrimPrefix(name, "Write"), "Stream")
	for _, n := range ts {
		if n.Obj().Name() == base+"Packet" {
			return n
		}
	}
	return nil
}

func init() {
	checks["P20"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Identifiers are marked with distinct byte values and followed through the abstract memory: every send helper and stream must marshal exactly one packet of the type it is named for with its source, target, selectors and message in place; every packet encoder must lay out kind, command, source, target and payload at the positions where the decoder of the same kind finds them; the reported source and target are those fields.")
		packets := p.packetTypes()
		helpers(p, r, packets)
		layout(p, r, packets)
		r.atLeast("helper", 12)
		r.atLeast("encoded header", 8)
		r.atLeast("decoded header", 8)
		r.atLeast("accessor", 6)
	}}
}

func helpers(p *Program, r *report, packets []*types.Named) {
	ctor := p.fn("adc.NewWriter")
	if ctor == nil {
		r.bad("helper", "adc.NewWriter", "", "the constructor was not found", "")
		return
	}
	wt := ctor.Signature.Results().At(0).Type()
	var jobs []job
	type outcome struct {
		f    *ssa.Function
		what []string
		n    int
	}
	var outs []*outcome
	for _, f := range p.methodsOf(wt) {
		want := kindOfName(f.Name(), packets)
		if want == nil {
			continue
		}
		f := f
		o := &outcome{f: f}
		outs = append(outs, o)
		jobs = append(jobs, job{"helper " + f.Name(), func(in *Interp, mon *recMon) {
			bad := func(format string, a ...interface{}) { o.what = append(o.what, fmt.Sprintf(format, a...)) }
			in.entryOptions()
			old := in.hook
			in.hook = func(st *State, at ssa.Instruction, fn *ssa.Function, args []Value) ([]exit, bool) {
				if fn.Name() == "MarshalPacketADC" && fn.Signature.Recv() != nil && in.prog.inModule(fn) {
					if st.ghost["sent"] != "" {
						bad("sends more than one packet")
					}
					st.ghost["sent"] = "1"
					pt := namedOf(deref(fn.Signature.Recv().Type()))
					if pt != want {
						bad("sends %s instead of %s", tname(pt), tname(want))
					}
					q, isP := args[0].(Ptr)
					var sv Struct
					if isP {
						if ob := in.object(st, q.O); ob != nil {
							sv, _ = ob.V.(Struct)
						}
					} else {
						sv, _ = args[0].(Struct)
					}
					sh := p.packetShape(pt)
					check := func(i int, b byte, what string) {
						if i < 0 {
							return
						}
						if sv.F == nil {
							bad("sends an unknown packet")
							return
						}
						if s, _ := in.arrSet(st, sv.F[i]); s != setOf(b) {
							bad("%s is not the one given by the caller", what)
						}
					}
					check(sh.src, markSrc, "the source")
					check(sh.dst, markDst, "the target")
					if sh.sel >= 0 && sv.F != nil {
						a, _ := sv.F[sh.sel].(Slice)
						b, _ := st.gval["sel"].(Slice)
						if a.R != b.R || !eqExpr(st.c.norm(a.Len), st.c.norm(b.Len)) || !eqExpr(st.c.norm(a.Off), st.c.norm(b.Off)) {
							bad("the selectors are not the ones given by the caller")
						}
					}
					if sh.msg >= 0 && sv.F != nil {
						if m, isI := sv.F[sh.msg].(Iface); !isI || m.ID != "arg:themessage" {
							bad("the message is not the one given by the caller")
						}
					}
					return []exit{{st, nilErr()}}, true
				}
				return old(st, at, fn, args)
			}
			mk := func(st *State, f *ssa.Function, recv Value) []Value {
				args := []Value{recv}
				sids := 0
				for _, pr := range f.Params[1:] {
					switch u := pr.Type().Underlying().(type) {
					case *types.Array:
						args = append(args, in.markArr(st, u.Len(), []byte{markSrc, markDst}[sids%2]))
						sids++
					case *types.Interface:
						args = append(args, Iface{ID: "arg:themessage", NN: cst(1)})
					case *types.Slice:
						v := in.arg(st, pr)
						st.gval["sel"] = v
						args = append(args, v)
					default:
						args = append(args, in.arg(st, pr))
					}
				}
				return args
			}
			done := func(e exit) {
				ok, _ := in.errNil(e)
				for _, x := range ok {
					o.n++
					if x.st.ghost["sent"] != "1" {
						bad("reports success without sending a packet")
					}
				}
			}
			p.quick(in, ctor, func(st *State) []Value { return []Value{Iface{ID: "arg:w", NN: cst(1)}} }, func(e exit) {
				w := e.ret
				st := e.st
				for _, e2 := range in.callFunc(st, f, mk(st, f, w), nil, nil) {
					if t, isI := e2.ret.(Iface); isI && !types.Identical(f.Signature.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
						if t.T == nil {
							bad("returns an unknown stream")
							continue
						}
						wm := p.method(t.T, "WriteMessage")
						if wm == nil {
							bad("the stream cannot write messages")
							continue
						}
						s := e2.st
						for _, e3 := range in.callFunc(s, wm, mk(s, wm, t.V), nil, nil) {
							done(e3)
						}
						continue
					}
					done(e2)
				}
			})
		}, 1000})
	}
	r.jobs(p, jobs, map[string]bool{})
	for _, o := range outs {
		if o.n == 0 {
			o.what = append(o.what, "never succeeds")
		}
		r.must(len(o.what) == 0, "helper", p.short(o.f.String()), p.pos(o.f.Pos()), strings.Join(uniq(o.what), "; "))
	}
}

// layout relates encoders and decoders of packets.
func layout(p *Program, r *report, packets []*types.Named) {
	dec := p.fn("adc.DecodePacketRaw")
	if dec == nil {
		r.bad("decoded header", "adc.DecodePacketRaw", "", "the packet decoder was not found", "")
		return
	}
	for _, n := range packets {
		n := n
		sh := p.packetShape(n)
		pt := types.NewPointer(n)
		pos := p.pos(n.Obj().Pos())
		name := tname(pt)
		enc := p.method(pt, "MarshalPacketADC")
		if enc == nil || sh.msg < 0 {
			r.bad("encoded header", name, pos, "the encoder or the message field was not found", "")
			continue
		}
		mkRecv := func(in *Interp, st *State) Value {
			v := in.initial(st, "arg:p", pt, nameCtx{own: "arg:p"})
			q := v.(Ptr)
			q.NN = cst(1)
			ob := *in.object(st, q.O)
			sv := ob.V.(Struct)
			fs := append([]Value(nil), sv.F...)
			if sh.src >= 0 {
				fs[sh.src] = in.markValue(st, sh.u.Field(sh.src).Type(), markSrc)
			}
			if sh.dst >= 0 {
				fs[sh.dst] = in.markValue(st, sh.u.Field(sh.dst).Type(), markDst)
			}
			fs[sh.msg] = Iface{ID: "arg:themessage", NN: cst(1)}
			ob.V = Struct{fs}
			st.obj[q.O] = &ob
			return q
		}
		// accessors
		for _, acc := range []struct {
			name string
			i    int
			b    byte
		}{{"Source", sh.src, markSrc}, {"Target", sh.dst, markDst}} {
			f := p.method(pt, acc.name)
			if f == nil {
				continue
			}
			var what []string
			r.jobs(p, []job{{"accessor " + name + "." + acc.name, func(in *Interp, mon *recMon) {
				p.quick(in, f, func(st *State) []Value { return []Value{mkRecv(in, st)} }, func(e exit) {
					if s, _ := in.arrSet(e.st, e.ret); s != setOf(acc.b) {
						what = append(what, "does not return the identifier of the packet")
					}
				})
			}, 10}}, map[string]bool{})
			r.must(len(what) == 0, "accessor", name+"."+acc.name, p.pos(f.Pos()), strings.Join(uniq(what), "; "))
		}
		// encoder
		var kind string
		var what []string
		srcAt, dstAt, header := int64(-1), int64(-1), int64(-1)
		wide := func(i int) int64 {
			if a, ok := sh.u.Field(i).Type().Underlying().(*types.Array); ok {
				return a.Len()
			}
			return 0
		}
		var nOK int
		cidAlphabet := setOfString("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567")
		r.jobs(p, []job{{"encode " + name, func(in *Interp, mon *recMon) {
			bad := func(format string, a ...interface{}) { what = append(what, fmt.Sprintf(format, a...)) }
			in.opts.NoLocal = true
			in.contract = func(m *mcall, c *ssa.CallCommon, rv Iface) ([]exit, bool) {
				if rv.ID == "arg:themessage" && c.Method.Name() == "Cmd" {
					return []exit{{m.st, in.markArr(m.st, 3, markCmd)}}, true
				}
				return nil, false
			}
			mon.events = func(in *Interp, st *State, at ssa.Instruction, k string, args []Value) {
				if k == "payload" {
					_, n, ok := in.bufOf(st, args[0])
					if !ok || st.gval["buf0"] == nil {
						bad("the payload is not written to the output")
						return
					}
					if m, isI := args[1].(Iface); !isI || m.ID != "arg:themessage" {
						bad("another message is encoded")
					}
					if st.ghost["payload"] != "" {
						bad("the payload is written twice")
					}
					st.ghost["payload"] = "1"
					b0 := st.gval["buf0"].(Slice)
					d := st.c.norm(sub(n.Len, b0.Len))
					if d.isConst() {
						if header >= 0 && header != d.C {
							bad("the payload has no fixed position")
						}
						header = d.C
					} else if sh.sel < 0 {
						bad("the payload has no fixed position")
					}
					// content of the header
					at := func(i, w int64) ByteSet {
						return in.fine(st, n.R, addc(add(b0.Off, b0.Len), i), addc(add(b0.Off, b0.Len), i+w))
					}
					if s := at(0, 1); s.count() != 1 {
						bad("the kind is not a fixed letter")
					} else {
						lo, _ := s.bounds()
						kind = string(rune(lo))
					}
					if at(1, 3) != setOf(markCmd) {
						bad("the command name is not at position 1")
					}
					end := d.C
					if !d.isConst() {
						end = 64
					}
					find := func(i int, b byte) int64 {
						w := wide(i)
						if w != 4 {
							// written in base32
							w = 39
							for k := int64(4); k+w <= end; k++ {
								if at(k, w).subset(cidAlphabet) {
									return k
								}
							}
							return -1
						}
						for k := int64(4); k+w <= end; k++ {
							if at(k, w) == setOf(b) {
								return k
							}
						}
						return -1
					}
					hdr := int64(5)
					if sh.src >= 0 {
						srcAt = find(sh.src, markSrc)
						if srcAt < 0 {
							bad("the source is not written")
						}
						hdr = srcAt + 5
						if wide(sh.src) != 4 {
							hdr = srcAt + 40
						}
					}
					if sh.dst >= 0 {
						dstAt = find(sh.dst, markDst)
						if dstAt < 0 {
							bad("the target is not written")
						}
						if dstAt+5 > hdr {
							hdr = dstAt + 5
						}
					}
					sp := setOf(' ')
					if at(4, 1) != sp || srcAt > 0 && at(srcAt-1, 1) != sp || dstAt > 0 && at(dstAt-1, 1) != sp {
						bad("the parts of the header are not separated by spaces")
					}
					last := in.fine(st, n.R, addc(add(n.Off, n.Len), -1), add(n.Off, n.Len))
					if sh.sel < 0 && last != sp {
						bad("there is no space before the payload")
					}
					if d.isConst() && d.C != hdr {
						bad("the payload starts at %d instead of %d", d.C, hdr)
					}
				}
			}
			p.quick(in, enc, func(st *State) []Value {
				args := []Value{mkRecv(in, st)}
				for _, q := range enc.Params[1:] {
					args = append(args, in.arg(st, q))
				}
				if _, n, ok := in.bufOf(st, args[1]); ok {
					st.gval["buf0"] = n
				}
				return args
			}, func(e exit) {
				ok, _ := in.errNil(e)
				for _, x := range ok {
					nOK++
					if x.st.ghost["payload"] == "" {
						bad("the payload is not written on every path")
					}
				}
			})
		}, 100}}, map[string]bool{})
		if nOK == 0 {
			what = append(what, "never succeeds")
		}
		r.must(len(what) == 0, "encoded header", name, p.pos(enc.Pos()), strings.Join(uniq(what), "; "))
		if len(what) > 0 || kind == "" {
			continue
		}
		// decoder
		what = nil
		nOK = 0
		r.jobs(p, []job{{"decode " + name, func(in *Interp, mon *recMon) {
			bad := func(format string, a ...interface{}) { what = append(what, fmt.Sprintf(format, a...)) }
			in.opts.NoLocal = true
			in.opts.ExitMerge, in.opts.Soft, in.opts.MaxStates = 64, 64, 200
			mon.events = func(in *Interp, st *State, at ssa.Instruction, k string, args []Value) {
				if k == "b32decode" && sh.src >= 0 && wide(sh.src) != 4 {
					v, _ := viewOf(args[1])
					if ln := st.c.norm(v.Len); !ln.isConst() || ln.C != 39 || in.fine(st, v.R, v.Off, add(v.Off, v.Len)) != setOf('A') {
						bad("the source is not read from position %d", srcAt)
					} else {
						st.ghost["cid"] = "1"
					}
				}
			}
			for _, short := range []bool{false, true} {
				p.quick(in, dec, func(st *State) []Value {
					v := in.arg(st, dec.Params[0])
					d := v.(Slice)
					st.gval["in"] = v
					// an empty payload or not
					if short {
						st.cw().addGE(sub(cst(header), d.Len))
					} else {
						st.cw().addGE(addc(d.Len, -(header + 1)))
					}
					set := func(i, w int64, b byte) {
						in.learn(st, d.R, addc(d.Off, i), addc(d.Off, i+w), anySets(setOf(b)))
					}
					// a line: the delimiter is its last byte only
					in.learn(st, d.R, d.Off, addc(add(d.Off, d.Len), -1), anySets(setOf('\n').not()))
					set(0, 1, kind[0])
					set(1, 3, markCmd)
					if sh.src >= 0 {
						if wide(sh.src) == 4 {
							set(srcAt, 4, markSrc)
						} else {
							set(srcAt, 39, 'A')
						}
					}
					if sh.dst >= 0 {
						set(dstAt, 4, markDst)
					}
					return []Value{v}
				}, func(e exit) {
					ok, _ := in.errNil(e)
					for _, x := range ok {
						nOK++
						st := x.st
						f, _ := x.ret.(Tuple)[0].(Iface)
						q, isP := f.V.(Ptr)
						if f.T == nil || !isP || namedOf(deref(f.T)) != n {
							bad("decodes to %s", tname(f.T))
							continue
						}
						ob := in.object(st, q.O)
						sv, _ := ob.V.(Struct)
						if sv.F == nil {
							bad("decodes to an unknown packet")
							continue
						}
						if sh.src >= 0 && wide(sh.src) == 4 {
							if s, _ := in.arrSet(st, sv.F[sh.src]); s != setOf(markSrc) {
								bad("the source is not read from position %d, where it is written", srcAt)
							}
						} else if sh.src >= 0 && st.ghost["cid"] != "1" {
							bad("the source is not read from position %d, where it is written", srcAt)
						}
						if sh.dst >= 0 {
							if s, _ := in.arrSet(st, sv.F[sh.dst]); s != setOf(markDst) {
								bad("the target is not read from position %d, where it is written", dstAt)
							}
						}
						raw, _ := sv.F[sh.msg].(Iface)
						rq, isP := raw.V.(Ptr)
						if !isP || raw.T == nil || !rawMessage(namedOf(deref(raw.T))) {
							bad("does not hold a raw message")
							continue
						}
						rv, _ := in.object(st, rq.O).V.(Struct)
						d, _ := st.gval["in"].(Slice)
						named, data := false, false
						for _, fv := range rv.F {
							switch y := fv.(type) {
							case Arr:
								if s, k := in.arrSet(st, y); s == setOf(markCmd) && k == 3 {
									named = true
								}
							case Slice:
								some, _ := in.split(st.clone(), ge(y.Len, cst(1)))
								data = true
								for _, s := range some {
									if y.R != d.R {
										bad("the payload is not the rest of the line")
										continue
									}
									end := sub(add(y.Off, y.Len), addc(add(d.Off, d.Len), -1))
									if in.decide(s, mkCmp(cEQ, end)) != 1 {
										bad("the payload does not end before the delimiter")
									}
									if sh.sel < 0 {
										if in.decide(s, mkCmp(cEQ, sub(sub(y.Off, d.Off), cst(header)))) != 1 {
											bad("the payload does not start at position %d, where it is written", header)
										}
									} else if in.decide(s, ge(sub(y.Off, d.Off), cst(srcAt+4))) != 1 {
										bad("the payload overlaps the header")
									}
								}
								_, none := in.split(st.clone(), ge(y.Len, cst(1)))
								for _, s := range none {
									if sh.sel < 0 && in.decide(s, ge(cst(header+1), d.Len)) != 1 {
										bad("a payload is dropped")
									}
								}
							}
						}
						if !named || !data {
							bad("does not keep the command name or the payload")
						}
					}
				})
			}
		}, 100}}, map[string]bool{})
		if nOK == 0 {
			what = append(what, "never succeeds")
		}
		r.must(len(what) == 0, "decoded header", name, pos, strings.Join(uniq(what), "; "))
	}
}

// bufOf finds the content of an output buffer.
func (in *Interp) bufOf(st *State, v Value) (Ptr, Slice, bool) {
	q, ok := v.(Ptr)
	if !ok {
		return Ptr{}, Slice{}, false
	}
	n, ok := in.cell(st, q, nil).(Native)
	if !ok {
		return q, Slice{}, false
	}
	s, ok := n.F["s"].(Slice)
	return q, s, ok
}

// fine is query with the narrowest facts.
func (in *Interp) fine(st *State, id Rid, lo, hi Expr) ByteSet {
	best := in.query(st, id, lo, hi)[lAny]
	r := st.reg[id]
	if r == nil || r.Const {
		return best
	}
	lo, hi = st.c.norm(lo), st.c.norm(hi)
	var acc ByteSet
	for cur, n := lo, 0; n <= len(r.Facts); n++ {
		k := -1
		for i, f := range r.Facts {
			if !st.c.entailsGE(sub(cur, f.Lo)) || !st.c.entailsGE(addc(sub(f.Hi, cur), -1)) {
				continue
			}
			if k < 0 || f.S[lAny].count() < r.Facts[k].S[lAny].count() {
				k = i
			}
		}
		if k < 0 {
			return best
		}
		acc = acc.or(r.Facts[k].S[lAny])
		cur = r.Facts[k].Hi
		if st.c.entailsGE(sub(cur, hi)) {
			return acc.and(best)
		}
	}
	return best
}
