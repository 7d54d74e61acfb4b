package main

// Models of readers and writers.

import (
	"fmt"
	"go/types"
)

// newNative allocates a library object.
func (m *mcall) newNative(st *State, n Native, t types.Type) Ptr {
	in := m.in
	o := in.oid(m.site("nat"))
	if _, live := st.obj[o]; live {
		in.retireObject(st, o)
	}
	st.obj[o] = &Obj{T: t, Own: "new", V: n, Name: n.Kind}
	return Ptr{O: o, NN: cst(1)}
}

func ioModels() {
	r := func(name string, f model) { models[name] = f }
	r("io.LimitReader", func(m *mcall) []exit {
		m.in.event(m.st, m.at, "limit", m.args...)
		return m.ret(Iface{NN: cst(1), ID: fmt.Sprintf("u:limit~%d", m.in.nextSeq())})
	})
	r("io.Copy", func(m *mcall) []exit {
		m.in.consumeRead(m.st)
		return m.unknown()
	})
	full := func(m *mcall) []exit {
		s, ok := m.args[1].(Slice)
		if !ok {
			return m.unknown()
		}
		m.in.consumeRead(m.st)
		st := m.st
		if rg := st.reg[s.R]; rg != nil && s.R != 0 {
			m.in.wrote(st, m.at, rg.Own, m.in.rnames[s.R])
			m.in.writeBytes(st, s.R, s.Off, add(s.Off, s.Len), plain(allBytes), true)
		}
		s2 := st.clone()
		n := m.in.freshRange(s2, "n", 0, lenMax)
		s2.cw().addGE(sub(s.Len, n))
		return []exit{{st, Tuple{Int{s.Len}, nilErr()}}, {s2, Tuple{Int{n}, m.unkErr()}}}
	}
	r("io.ReadFull", full)
	r("io.ReadAtLeast", func(m *mcall) []exit {
		m.in.consumeRead(m.st)
		s, ok := m.args[1].(Slice)
		if !ok {
			return m.unknown()
		}
		st := m.st
		if rg := st.reg[s.R]; rg != nil && s.R != 0 {
			m.in.wrote(st, m.at, rg.Own, m.in.rnames[s.R])
			m.in.writeBytes(st, s.R, s.Off, add(s.Off, s.Len), plain(allBytes), true)
		}
		n := m.in.freshRange(st, "n", 0, lenMax)
		st.cw().addGE(sub(s.Len, n))
		s2 := st.clone()
		return []exit{{st, Tuple{Int{n}, nilErr()}}, {s2, Tuple{Int{n}, m.unkErr()}}}
	})
	all := func(m *mcall) []exit {
		m.in.consumeRead(m.st)
		s2 := m.st.clone()
		mk := func(s *State) Value {
			n := m.in.freshRange(s, "n", 0, lenMax)
			return m.freshBytes(s, n, plain(allBytes), view{})
		}
		return []exit{{m.st, Tuple{mk(m.st), nilErr()}}, {s2, Tuple{mk(s2), m.unkErr()}}}
	}
	r("io.ReadAll", all)
	r("io/ioutil.ReadAll", all)

	// buffered writer: w, err (sticky), n (buffered bytes)
	r("bufio.NewWriterSize", func(m *mcall) []exit {
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return m.ret(m.newNative(m.st, Native{"bufw", map[string]Value{"w": m.args[0], "err": nilErr(), "n": Int{cst(0)}}}, t))
	})
	r("bufio.NewWriter", models["bufio.NewWriterSize"])
	bw := func(name string, f func(m *mcall, p Ptr, n Native) []exit) {
		r("(*bufio.Writer)."+name, onNative("bufw", f))
	}
	// sink writes to the target: ok, or an error
	sink := func(m *mcall, st *State, w Value, data Value) (ok []*State, bad []exit) {
		in := m.in
		in.event(st, m.at, "sink", w, data)
		mm := *m
		mm.st = st
		if t, isI := w.(Iface); isI && t.T != nil {
			if p, isP := t.V.(Ptr); isP {
				if n, isN := in.cell(st, p, nil).(Native); isN && n.Kind == "zw" {
					for _, e := range zwWrite(&mm, p, n, data) {
						tu := e.ret.(Tuple)
						a, b := in.split(e.st, mkCmp(cEQ, tu[1].(Iface).NN))
						ok = append(ok, a...)
						for _, s := range b {
							bad = append(bad, exit{s, tu[1]})
						}
					}
					return
				}
			}
		}
		s2 := st.clone()
		return []*State{st}, []exit{{s2, m.unkErr()}}
	}
	// guarded runs f unless the writer failed already
	guarded := func(m *mcall, n Native, ret func(Value) Value, f func(m *mcall) []exit) []exit {
		e, _ := n.F["err"].(Iface)
		good, bad := m.in.split(m.st, mkCmp(cEQ, e.NN))
		var out []exit
		for _, s := range bad {
			x := e
			x.NN = cst(1)
			out = append(out, exit{s, ret(x)})
		}
		for _, s := range good {
			mm := *m
			mm.st = s
			out = append(out, f(&mm)...)
		}
		return out
	}
	wret := func(m *mcall) func(Value) Value {
		return func(e Value) Value { return Tuple{Int{m.in.freshRange(m.st, "wn", 0, lenMax)}, e} }
	}
	write := func(m *mcall, p Ptr, n Native) []exit {
		ln := lenOf(m.args[1])
		m.in.event(m.st, m.at, "bufwr", p, m.args[1])
		return guarded(m, n, func(e Value) Value { return Tuple{Int{cst(0)}, e} }, func(m *mcall) []exit {
			var out []exit
			// kept in the buffer
			s1 := m.st.clone()
			nb := m.in.freshRange(s1, "nb", 0, lenMax)
			s1.cw().addGE(sub(nb, ln))
			m.in.setNative(s1, p, n.with("n", Int{nb}))
			out = append(out, exit{s1, Tuple{Int{ln}, nilErr()}})
			// passed on
			ok, bad := sink(m, m.st, n.F["w"], m.args[1])
			for _, s := range ok {
				nb := m.in.freshRange(s, "nb", 0, lenMax)
				m.in.setNative(s, p, n.with("n", Int{nb}))
				out = append(out, exit{s, Tuple{Int{ln}, nilErr()}})
			}
			for _, b := range bad {
				mm := *m
				mm.st = b.st
				nb := m.in.freshRange(b.st, "nb", 0, lenMax)
				m.in.setNative(b.st, p, n.with("n", Int{nb}).with("err", b.ret))
				k := m.in.freshRange(b.st, "wn", 0, lenMax)
				out = append(out, exit{b.st, Tuple{Int{k}, b.ret}})
			}
			return out
		})
	}
	bw("Write", write)
	bw("WriteString", write)
	bw("WriteByte", func(m *mcall, p Ptr, n Native) []exit {
		mm := *m
		mm.args = []Value{m.args[0], m.in.constStr(m.st, "?")}
		var out []exit
		for _, e := range write(&mm, p, n) {
			out = append(out, exit{e.st, e.ret.(Tuple)[1]})
		}
		return out
	})
	bw("Flush", func(m *mcall, p Ptr, n Native) []exit {
		m.in.event(m.st, m.at, "bufflush", p)
		return guarded(m, n, func(e Value) Value { return e }, func(m *mcall) []exit {
			k, _ := n.F["n"].(Int)
			some, none := m.in.split(m.st, ge(k.E, cst(1)))
			var out []exit
			for _, s := range none {
				out = append(out, exit{s, nilErr()})
			}
			for _, s0 := range some {
				ok, bad := sink(m, s0, n.F["w"], Slice{Off: cst(0), Len: k.E, Cap: k.E, NN: cst(1)})
				for _, s := range ok {
					m.in.setNative(s, p, n.with("n", Int{cst(0)}))
					out = append(out, exit{s, nilErr()})
				}
				for _, b := range bad {
					m.in.setNative(b.st, p, n.with("err", b.ret))
					out = append(out, exit{b.st, b.ret})
				}
			}
			return out
		})
	})
	bw("Buffered", func(m *mcall, p Ptr, n Native) []exit { return m.ret(n.F["n"]) })
	bw("Available", func(m *mcall, p Ptr, n Native) []exit {
		return m.ret(Int{m.in.freshRange(m.st, "av", 0, lenMax)})
	})
	bw("Reset", func(m *mcall, p Ptr, n Native) []exit {
		k, _ := n.F["n"].(Int)
		m.in.event(m.st, m.at, "bufreset", p, k)
		if m.in.muted == 0 {
			m.in.oblige(m.st, m.at, "lost", m.in.decide(m.st, mkCmp(cEQ, k.E)) == 1, "buffered data is discarded by Reset")
		}
		m.in.setNative(m.st, p, Native{"bufw", map[string]Value{"w": m.args[1], "err": nilErr(), "n": Int{cst(0)}}})
		return m.ret(Tuple{})
	})

	// zlib writer: w, err (sticky), closed
	r("compress/zlib.NewWriterLevel", func(m *mcall) []exit {
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		lvl, _ := m.args[1].(Int)
		good, bad := m.in.split(m.st, cAndOf(ge(lvl.E, cst(-2)), ge(cst(9), lvl.E)))
		var out []exit
		for _, s := range good {
			out = append(out, exit{s, Tuple{m.newNative(s, Native{"zw", map[string]Value{"w": m.args[0], "err": nilErr(), "closed": Int{cst(0)}}}, t), nilErr()}})
		}
		for _, s := range bad {
			out = append(out, exit{s, Tuple{Ptr{NN: cst(0)}, m.unkErr()}})
		}
		return out
	})
	r("compress/zlib.NewWriter", func(m *mcall) []exit {
		t := m.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return m.ret(m.newNative(m.st, Native{"zw", map[string]Value{"w": m.args[0], "err": nilErr(), "closed": Int{cst(0)}}}, t))
	})
	zw := func(name string, f func(m *mcall, p Ptr, n Native) []exit) {
		r("(*compress/zlib.Writer)."+name, onNative("zw", f))
	}
	zw("Write", func(m *mcall, p Ptr, n Native) []exit { return zwWrite(m, p, n, m.args[1]) })
	zfin := func(close bool) func(m *mcall, p Ptr, n Native) []exit {
		return func(m *mcall, p Ptr, n Native) []exit {
			kind := "zflush"
			if close {
				kind = "zclose"
			}
			m.in.event(m.st, m.at, kind, p)
			return guarded(m, n, func(e Value) Value { return e }, func(m *mcall) []exit {
				ok, bad := sink(m, m.st, n.F["w"], Slice{Off: cst(0), Len: cst(0), Cap: cst(0), NN: cst(1)})
				var out []exit
				for _, s := range ok {
					if close {
						m.in.setNative(s, p, n.with("closed", Int{cst(1)}))
					}
					out = append(out, exit{s, nilErr()})
				}
				for _, b := range bad {
					m.in.setNative(b.st, p, n.with("err", b.ret))
					out = append(out, exit{b.st, b.ret})
				}
				return out
			})
		}
	}
	zw("Flush", zfin(false))
	zw("Close", zfin(true))
	zw("Reset", func(m *mcall, p Ptr, n Native) []exit {
		m.in.event(m.st, m.at, "zreset", p, n.F["closed"])
		m.in.setNative(m.st, p, Native{"zw", map[string]Value{"w": m.args[1], "err": nilErr(), "closed": Int{cst(0)}}})
		return m.ret(Tuple{})
	})
	_ = wret
	// zlib reader
	r("compress/zlib.NewReader", func(m *mcall) []exit {
		m.in.consumeRead(m.st)
		m.in.event(m.st, m.at, "zopen", m.args...)
		s2 := m.st.clone()
		return []exit{{m.st, Tuple{Iface{NN: cst(1), ID: "zlibr:"}, nilErr()}},
			{s2, Tuple{Iface{NN: cst(0)}, m.unkErr()}}}
	})
}

func onNative(kind string, f func(m *mcall, p Ptr, n Native) []exit) model {
	return func(m *mcall) []exit {
		p0, ok := m.args[0].(Ptr)
		if !ok {
			m.in.gap("untracked %s in %s", kind, m.in.prog.short(m.at.Parent().String()))
			return m.unknown()
		}
		var out []exit
		for _, s := range m.recvNN(p0) {
			mm := *m
			mm.st = s
			p, n, ok := mm.native(p0, kind)
			if !ok {
				m.in.gap("untracked %s in %s", kind, m.in.prog.short(m.at.Parent().String()))
				out = append(out, mm.unknown()...)
				continue
			}
			out = append(out, f(&mm, p, n)...)
		}
		return out
	}
}

// zwWrite is Write of a zlib writer.
func zwWrite(m *mcall, p Ptr, n Native, data Value) []exit {
	in := m.in
	ln := lenOf(data)
	c, _ := n.F["closed"].(Int)
	in.oblige(m.st, m.at, "zclosed", in.decide(m.st, mkCmp(cEQ, c.E)) == 1, "write to a finished compressed stream")
	e, _ := n.F["err"].(Iface)
	good, bad := in.split(m.st, mkCmp(cEQ, e.NN))
	var out []exit
	for _, s := range bad {
		x := e
		x.NN = cst(1)
		out = append(out, exit{s, Tuple{Int{cst(0)}, x}})
	}
	for _, s := range good {
		in.event(s, m.at, "zsink", n.F["w"], data)
		s2 := s.clone()
		out = append(out, exit{s, Tuple{Int{ln}, nilErr()}})
		er := m.unkErr()
		in.setNative(s2, p, n.with("err", er))
		k := in.freshRange(s2, "wn", 0, lenMax)
		out = append(out, exit{s2, Tuple{Int{k}, er}})
	}
	return out
}
