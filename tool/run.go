package main

// Driving the interpreter: package initialisation and entry points.

import (
	"golang.org/x/tools/go/ssa"
)

// runInit interprets the initialisation of every package of the module.
func (in *Interp) runInit() {
	in.initing = true
	lim := in.limit
	in.limit = 20000000
	st := newState()
	for _, pk := range in.prog.pkgs {
		sp := in.prog.spkgs[pk.PkgPath]
		f := sp.Func("init")
		if f == nil {
			continue
		}
		ex := in.callFunc(st, f, nil, nil, nil)
		if len(ex) != 1 {
			in.gap("initialisation of %s has %d outcomes", pk.PkgPath, len(ex))
			if len(ex) == 0 {
				break
			}
		}
		st = ex[0].st
	}
	st.trace = nil
	in.gc(st)
	for id, r := range st.reg {
		// memory with a known content
		n := st.c.norm(r.N)
		if !r.Byte || r.Const || r.SumR || !n.isConst() || n.C == 0 || n.C > 64 {
			continue
		}
		k := make([]byte, n.C)
		ok := true
		for i := range k {
			s := in.query(st, id, cst(int64(i)), cst(int64(i)+1))[lAny]
			if s.count() != 1 {
				ok = false
				break
			}
			lo, _ := s.bounds()
			k[i] = byte(lo)
		}
		if ok {
			w := st.regw(id)
			w.Const, w.KBytes, w.Facts, w.Cache = true, string(k), nil, nil
			w.Base = plain(setOfString(string(k)))
		}
	}
	in.initing = false
	in.limit = lim
	in.steps = 0
	in.globals = st
}

// start makes a state in which a program starts to use the module.
func (in *Interp) start() *State {
	return in.globals.clone()
}

// arg makes an unknown argument.
func (in *Interp) arg(st *State, p *ssa.Parameter) Value {
	return in.initial(st, "arg:"+p.Name(), p.Type(), nameCtx{own: "arg:" + p.Name()})
}

// runRoot interprets a function with unknown arguments.
func (in *Interp) runRoot(f *ssa.Function) []exit {
	st := in.start()
	var args []Value
	for _, p := range f.Params {
		args = append(args, in.arg(st, p))
	}
	return in.callFunc(st, f, args, nil, nil)
}
