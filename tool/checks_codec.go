package main

// P26: text codecs of a connection are only accessed atomically.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isCodecPtr(t types.Type) bool {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := typeName(p.Elem())
	return s == "golang.org/x/text/encoding.Encoder" || s == "golang.org/x/text/encoding.Decoder"
}

// holdsCodec: a type with a text codec inside (not behind a function).
func holdsCodec(t types.Type) bool {
	t = types.Unalias(t)
	if isCodecPtr(t) {
		return true
	}
	if n := namedOf(t); n != nil {
		if s := typeName(t); s == "golang.org/x/text/encoding.Encoder" || s == "golang.org/x/text/encoding.Decoder" {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return holdsCodec(u.Elem())
	case *types.Array:
		return holdsCodec(u.Elem())
	case *types.Map:
		return holdsCodec(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsCodec(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isAtomicType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

// fieldName names the field an address refers to.
func (p *Program) fieldName(a *ssa.FieldAddr) string {
	t := deref(a.X.Type())
	s := t.Underlying().(*types.Struct)
	return p.short(t.String()) + "." + s.Field(a.Field).Name()
}

// fresh: memory that this function allocates itself and that is not shared
// yet (the constructor pattern).
func freshAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// carries: the value is a text codec, possibly in an interface.
func carries(v ssa.Value) bool {
	if isCodecPtr(v.Type()) {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return carries(x.X)
	case *ssa.ChangeInterface:
		return carries(x.X)
	case *ssa.ChangeType:
		return carries(x.X)
	}
	return false
}

// locked computes the mutexes that are certainly held at an instruction;
// deferred unlocks run at the end of the function.
func locked(at ssa.Instruction) map[string]bool {
	f := at.Parent()
	type set = map[string]bool
	key := func(c *ssa.CallCommon) (string, int) {
		fn := c.StaticCallee()
		if fn == nil || len(c.Args) == 0 {
			return "", 0
		}
		n := fn.String()
		if !strings.HasPrefix(n, "(*sync.Mutex).") && !strings.HasPrefix(n, "(*sync.RWMutex).") {
			return "", 0
		}
		fa, ok := c.Args[0].(*ssa.FieldAddr)
		if !ok {
			return "", 0
		}
		k := fmt.Sprintf("%s#%d", fa.X.Name(), fa.Field)
		switch fn.Name() {
		case "Lock":
			return "w:" + k, 1
		case "RLock":
			return "r:" + k, 1
		case "Unlock":
			return "w:" + k, -1
		case "RUnlock":
			return "r:" + k, -1
		}
		return "", 0
	}
	in := make([]set, len(f.Blocks))
	in[0] = set{}
	trans := func(b *ssa.BasicBlock, stop ssa.Instruction) set {
		s := set{}
		for k := range in[b.Index] {
			s[k] = true
		}
		for _, i := range b.Instrs {
			if i == stop {
				return s
			}
			if c, ok := i.(*ssa.Call); ok {
				if k, d := key(&c.Call); d > 0 {
					s[k] = true
				} else if d < 0 {
					delete(s, k)
				}
			}
		}
		return s
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if in[b.Index] == nil {
				continue
			}
			o := trans(b, nil)
			for _, s := range b.Succs {
				if in[s.Index] == nil {
					in[s.Index] = set{}
					for k := range o {
						in[s.Index][k] = true
					}
					changed = true
					continue
				}
				for k := range in[s.Index] {
					if !o[k] {
						delete(in[s.Index], k)
						changed = true
					}
				}
			}
		}
	}
	if in[at.Block().Index] == nil {
		return nil
	}
	return trans(at.Block(), at)
}

func init() {
	checks["P26"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Every load and store of a text codec in the module is classified: fields of shared values may hold one only inside a sync/atomic container, used through its methods, or under a mutex of the same value held on every path; containers hold one concrete type; every path through a setter stores its argument; package variables hold none.")
		guards := map[string]map[string]bool{} // field -> mutexes used
		plain := func(i ssa.Instruction, addr ssa.Value, write bool) {
			where := p.short(i.Parent().String())
			pos := p.pos(instrPos(i))
			var what string
			switch a := addr.(type) {
			case *ssa.FieldAddr:
				what = p.fieldName(a)
			case *ssa.Global:
				r.bad("atomic access", where+" "+p.short(a.String()), pos, "a text codec in a package variable", "")
				return
			case *ssa.Alloc:
				return
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi, *ssa.Call, *ssa.UnOp, *ssa.IndexAddr:
				what = "memory of type " + p.short(addr.Type().String())
			default:
				return
			}
			if freshAlloc(addr) {
				return
			}
			if fv, ok := addr.(*ssa.FreeVar); ok {
				// a variable shared with a closure of the same call
				_ = fv
				return
			}
			fa, ok := addr.(*ssa.FieldAddr)
			if ok {
				l := locked(i)
				hit := ""
				for k := range l {
					if strings.HasPrefix(k[2:], fa.X.Name()+"#") && (k[0] == 'w' || !write) {
						hit = k[2+len(fa.X.Name()):]
						if guards[what] == nil {
							guards[what] = map[string]bool{}
						}
						guards[what][hit] = true
					}
				}
				if hit != "" {
					r.ok("atomic access", where+" "+what+" "+pos)
					return
				}
			}
			verb := "read"
			if write {
				verb = "written"
			}
			r.bad("atomic access", where+" "+what, pos, "a text codec is "+verb+" without synchronisation in "+what, "")
		}
		kinds := map[string]map[string]bool{}
		containers := 0
		for _, f := range p.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.Store:
						if carries(x.Val) {
							plain(i, x.Addr, true)
						} else if holdsCodec(x.Val.Type()) {
							if _, ok := x.Addr.(*ssa.Alloc); !ok && !freshAlloc(x.Addr) {
								plain(i, x.Addr, true)
							}
						}
					case *ssa.MapUpdate:
						if carries(x.Value) {
							r.bad("atomic access", p.short(f.String())+" map", p.pos(instrPos(i)), "a text codec is kept in a map without synchronisation", "")
						}
					case *ssa.UnOp:
						if x.Op.String() == "*" {
							if holdsCodec(x.Type()) {
								plain(i, x.X, false)
							} else if isAtomicType(x.Type()) {
								r.bad("container use", p.short(f.String()), p.pos(instrPos(i)), "an atomic container is copied", "")
							}
						}
					case *ssa.FieldAddr:
						t := deref(x.Type())
						if !isAtomicType(t) {
							continue
						}
						containers++
						for _, u := range *x.Referrers() {
							if _, ok := u.(*ssa.DebugRef); ok {
								continue
							}
							c, ok := u.(ssa.CallInstruction)
							good := false
							if ok {
								if fn := c.Common().StaticCallee(); fn != nil && len(c.Common().Args) > 0 && c.Common().Args[0] == ssa.Value(x) {
									o := fn
									if fn.Origin() != nil {
										o = fn.Origin()
									}
									good = o.Pkg != nil && o.Pkg.Pkg.Path() == "sync/atomic" || strings.Contains(fn.String(), "sync/atomic.")
									if good && typeName(t) == "sync/atomic.Value" {
										for _, a := range c.Common().Args[1:] {
											k := p.fieldName(x)
											if kinds[k] == nil {
												kinds[k] = map[string]bool{}
											}
											if m, ok := a.(*ssa.MakeInterface); ok {
												kinds[k][m.X.Type().String()] = true
											} else {
												kinds[k]["an unknown type"] = true
											}
										}
									}
								}
							}
							r.must(good, "container use", p.short(f.String())+" "+p.fieldName(x)+" "+p.pos(instrPos(u)), p.pos(instrPos(u)), "an atomic container is used other than through its methods")
						}
					}
				}
			}
		}
		for _, k := range sortedKeys(kinds) {
			r.must(len(kinds[k]) == 1, "one type", k, "", fmt.Sprintf("values of different types are stored in it: %s", strings.Join(sortedKeys(kinds[k]), ", ")))
		}
		for _, k := range sortedKeys(guards) {
			r.must(len(guards[k]) == 1, "one guard", k, "", "accesses are guarded by different mutexes")
		}
		// setters
		var jobs []job
		n := 0
		for _, f := range p.fns {
			rv := f.Signature.Recv()
			if rv == nil || !p.exported(f) || f.Synthetic != "" || f.Signature.Params().Len() != 1 || !isCodecPtr(f.Signature.Params().At(0).Type()) || !p.lifecycle(deref(rv.Type())) {
				continue
			}
			f := f
			n++
			nm := p.short(f.String())
			jobs = append(jobs, job{"setter " + nm, func(in *Interp, mon *recMon) {
				in.opts.ExitMerge = 64
				in.opts.NoLocal = true
				mon.events = func(in *Interp, st *State, at ssa.Instruction, k string, args []Value) {
					if k != "atomicstore" || len(args) < 2 {
						return
					}
					v := args[1]
					if x, ok := v.(Iface); ok {
						v = x.V
					}
					if q, ok := v.(Ptr); ok {
						w, _ := st.gval["codec"].(Ptr)
						if q.O == w.O && q.O != 0 {
							st.ghost["stored"] = "1"
						} else {
							st.ghost["stored"] = "other"
						}
					}
				}
				var rcv Ptr
				p.quick(in, f, func(st *State) []Value {
					rcv, _ = in.arg(st, f.Params[0]).(Ptr)
					rcv.NN = cst(1)
					c := in.arg(st, f.Params[1])
					st.gval["codec"] = c
					st.gval["rcv"] = rcv
					return []Value{rcv, c}
				}, func(e exit) {
					ok := e.st.ghost["stored"] == "1"
					if !ok {
						// stored in a plain field, whose access is judged above
						w, _ := e.st.gval["codec"].(Ptr)
						if ob := in.object(e.st, rcv.O); ob != nil {
							if sv, isS := ob.V.(Struct); isS {
								for _, fv := range sv.F {
									if q, isP := fv.(Ptr); isP && q.O == w.O && q.O != 0 {
										ok = true
									}
								}
							}
						}
					}
					if ok {
						r.ok("setter stores", nm)
					} else {
						r.bad("setter stores", nm, p.pos(f.Pos()), "a path through the setter does not store the codec it is given", strings.Join(e.st.trace, " ; "))
					}
				})
			}, 10})
		}
		r.jobs(p, jobs, map[string]bool{})
		r.set("codec_setters", n)
		r.set("atomic_containers", containers)
		r.atLeast("setter stores", 2)
		if r.counts["container use"] < 4 && r.counts["atomic access"] < 4 {
			r.atLeast("container use", 4)
		}
	}}
}
