package main

// P27: fields sent by an encoder are restored by the decoder.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// reach is the functions of the module reachable by static calls.
func (p *Program) reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if !p.inModule(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					if fn, ok := (*o).(*ssa.Function); ok {
						walk(fn)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
			}
		}
	}
	walk(f)
	return seen
}

// sentFields: the fields of a message type that the encoder reads, and the
// fields of the structs they contain.
func (p *Program) sentFields(enc *ssa.Function) map[string]bool {
	out := map[string]bool{}
	var conv [][2]types.Type
	add := func(t types.Type, i int) {
		t = deref(t)
		if s, ok := t.Underlying().(*types.Struct); ok {
			out[tname(t)+"."+s.Field(i).Name()] = true
		}
	}
	for f := range p.reach(enc) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Field:
					add(x.X.Type(), x.Field)
				case *ssa.FieldAddr:
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Val == ssa.Value(x) {
								add(x.X.Type(), x.Field)
							}
						case *ssa.DebugRef:
						default:
							add(x.X.Type(), x.Field)
						}
					}
				case *ssa.ChangeType:
					// one message converted to another of the same shape
					a, b := deref(x.X.Type()), deref(x.Type())
					if _, ok := a.Underlying().(*types.Struct); ok {
						conv = append(conv, [2]types.Type{a, b})
					}
				case *ssa.MakeInterface:
					// handed to the generic encoder by reflection
					t := deref(x.X.Type())
					if s, ok := t.Underlying().(*types.Struct); ok && p.isModType(t) {
						for k := 0; k < s.NumFields(); k++ {
							if c := fieldCode(s.Tag(k)); c != "" && c != "-" {
								out[tname(t)+"."+s.Field(k).Name()] = true
							}
						}
					}
				}
			}
		}
	}
	for range conv {
		for _, c := range conv {
			a, b := c[0].Underlying().(*types.Struct), c[1].Underlying().(*types.Struct)
			for i := 0; b != nil && i < b.NumFields() && i < a.NumFields(); i++ {
				if out[tname(c[1])+"."+b.Field(i).Name()] {
					out[tname(c[0])+"."+a.Field(i).Name()] = true
				}
			}
		}
	}
	return out
}

// leaf is a field of a message, possibly inside other structs of the module.
type leaf struct {
	path  []int
	name  string // type and field that hold it
	label string
	tag   string
	typ   types.Type
	fld   *types.Var
	full  string // whole tag
	elem  bool   // inside the elements of a slice
}

func (p *Program) leaves(t types.Type) []leaf {
	var out []leaf
	var walk func(t types.Type, path []int, label string, elem bool, depth int)
	walk = func(t types.Type, path []int, label string, elem bool, depth int) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || depth > 3 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			lp := append(append([]int(nil), path...), i)
			l := leaf{lp, tname(t) + "." + f.Name(), label + "." + f.Name(), fieldCode(s.Tag(i)), f.Type(), f, s.Tag(i), elem}
			if _, isS := f.Type().Underlying().(*types.Struct); isS && p.isModType(f.Type()) && nativeOf(f.Type()) == "" {
				walk(f.Type(), lp, l.label, elem, depth+1)
				continue
			}
			out = append(out, l)
			if sl, isSl := f.Type().Underlying().(*types.Slice); isSl {
				if _, isS := sl.Elem().Underlying().(*types.Struct); isS && p.isModType(sl.Elem()) {
					walk(sl.Elem(), lp, l.label+"[]", true, depth+1)
				}
			}
		}
	}
	walk(t, nil, tname(t), false, 0)
	return out
}

// newObject makes an object with a value.
func (in *Interp) newObject(st *State, t types.Type, v Value) Oid {
	id := in.oid(fmt.Sprintf("made~%d", in.nextSeq()))
	st.obj[id] = &Obj{T: t, Own: "new", Name: "made", V: v}
	return id
}

// fieldValue follows a path of fields through a value.
func fieldValue(v Value, path []int) Value {
	for _, i := range path {
		s, ok := v.(Struct)
		if !ok || i >= len(s.F) {
			return nil
		}
		v = s.F[i]
	}
	return v
}

// isZero: the value is certainly the zero value.
func (in *Interp) isZero(st *State, v Value) bool {
	switch x := v.(type) {
	case Int:
		e := st.c.norm(x.E)
		return e.isConst() && e.C == 0
	case Bool:
		return in.decide(st, x.C) == 0
	case Str:
		e := st.c.norm(x.Len)
		return e.isConst() && e.C == 0
	case Slice:
		e := st.c.norm(x.Len)
		n := st.c.norm(x.NN)
		return e.isConst() && e.C == 0 && n.isConst() && n.C == 0
	case Ptr:
		n := st.c.norm(x.NN)
		return n.isConst() && n.C == 0
	case Iface:
		n := st.c.norm(x.NN)
		return n.isConst() && n.C == 0
	case MapV:
		n := st.c.norm(x.NN)
		return n.isConst() && n.C == 0
	case Arr:
		rg := st.reg[x.R]
		if rg == nil {
			return false
		}
		if rg.Byte {
			return in.fine(st, x.R, cst(0), rg.N) == setOf(0)
		}
		for _, e := range rg.Exact {
			if !in.isZero(st, e) {
				return false
			}
		}
		return rg.Sum == nil || in.isZero(st, rg.Sum)
	case Struct:
		for _, f := range x.F {
			if !in.isZero(st, f) {
				return false
			}
		}
		return true
	}
	return false
}

// derivedFields: set or read by one side only, by design.
var derivedFields = map[string]string{}

func init() {
	checks["P27"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("For every message type the fields its encoder reads (field accesses of all functions it can call, and the tagged fields it hands to the reflective encoder) are compared with the fields its decoder can set, by abstract interpretation of the decoder on a zero message over every input: a field is set when some successful exit leaves it with a value other than zero. Tagged fields must be accepted by the reflective encoder as well.")
		decs := map[string]string{"nmdc": "UnmarshalNMDC", "adc": "UnmarshalADC"}
		encs := map[string]string{"nmdc": "MarshalNMDC", "adc": "MarshalADC"}
		var jobs []job
		var mu sync.Mutex
		set := map[string]map[string]bool{}
		okd := map[string]bool{}
		kinds := map[string]bool{}
		sendable := map[string]bool{}
		type target struct {
			n   *types.Named
			pkg string
		}
		var ts []target
		seen := map[*types.Named]bool{}
		for _, pr := range protos() {
			for _, n := range p.messageTypes(pr.pkg) {
				if _, ok := n.Underlying().(*types.Struct); ok && !seen[n] {
					seen[n] = true
					ts = append(ts, target{n, pr.pkg})
				}
			}
		}
		for _, t := range ts {
			t := t
			tn := tname(t.n)
			ls := p.leaves(t.n)
			set[tn] = map[string]bool{}
			if len(ls) == 0 {
				continue
			}
			var f *ssa.Function
			generic := t.pkg == "adc"
			if generic {
				f = p.fn("adc.Unmarshal")
			} else {
				f = p.method(types.NewPointer(t.n), decs[t.pkg])
			}
			if f == nil {
				continue
			}
			mf := p.fn("adc.Marshal")
			own := p.method(types.NewPointer(t.n), encs[t.pkg]) != nil
			for _, l := range ls {
				if !generic || own || mf == nil {
					break
				}
				l := l
				if l.tag == "" || len(l.path) != 1 {
					continue
				}
				k := l.typ.String() + " " + positional(l.tag)
				if kinds[k] {
					continue
				}
				kinds[k] = true
				jobs = append(jobs, job{"encode " + l.label, func(in *Interp, mon *recMon) {
					p.quick(in, mf, func(st *State) []Value {
						typ := types.NewStruct([]*types.Var{l.fld}, []string{l.full})
						v := in.initial(st, "arg:f", l.typ, nameCtx{own: "arg:f"})
						var arg Value = Struct{[]Value{in.nonZero(st, v)}}
						args := []Value{in.arg(st, mf.Params[0]), Iface{T: typ, V: arg, NN: cst(1)}}
						return args
					}, func(e exit) {
						good, _ := in.errNil(e)
						if len(good) > 0 {
							mu.Lock()
							sendable[k] = true
							mu.Unlock()
						}
					})
				}, 10})
			}
			if generic && p.method(types.NewPointer(t.n), decs[t.pkg]) == nil {
				okd[tn] = true
				for _, l := range ls {
					if l.tag == "" || len(l.path) != 1 {
						continue
					}
					l := l
					jobs = append(jobs, job{"decode " + l.label, func(in *Interp, mon *recMon) {
						typ := types.NewStruct([]*types.Var{l.fld}, []string{l.full})
						p.quick(in, f, func(st *State) []Value {
							q := Ptr{O: in.newObject(st, typ, in.zero(st, typ, "msg")), NN: cst(1)}
							st.gval["msg"] = q
							return []Value{in.arg(st, f.Params[0]), Iface{T: types.NewPointer(typ), V: q, NN: cst(1)}}
						}, func(e exit) {
							good, _ := in.errNil(e)
							for _, x := range good {
								q, _ := x.st.gval["msg"].(Ptr)
								if ob := in.object(x.st, q.O); ob != nil {
									if v := fieldValue(ob.V, []int{0}); v != nil && !in.isZero(x.st, v) {
										mu.Lock()
										set[tn][l.name] = true
										mu.Unlock()
									}
								}
							}
						})
					}, 10})
				}
				continue
			}
			jobs = append(jobs, job{"decode " + tn, func(in *Interp, mon *recMon) {
				p.quick(in, f, func(st *State) []Value {
					o := in.newObject(st, t.n, in.zero(st, t.n, "msg"))
					q := Ptr{O: o, NN: cst(1)}
					st.gval["msg"] = q
					var args []Value
					for i, pr := range f.Params {
						switch {
						case generic && i == 1:
							args = append(args, Iface{T: types.NewPointer(t.n), V: q, NN: cst(1)})
						case !generic && i == 0:
							args = append(args, q)
						default:
							args = append(args, in.arg(st, pr))
						}
					}
					return args
				}, func(e exit) {
					good, _ := in.errNil(e)
					for _, x := range good {
						q, _ := x.st.gval["msg"].(Ptr)
						ob := in.object(x.st, q.O)
						if ob == nil {
							continue
						}
						mu.Lock()
						okd[tn] = true
						for _, l := range ls {
							if l.elem {
								continue
							}
							v := fieldValue(ob.V, l.path)
							if v != nil && !in.isZero(x.st, v) {
								set[tn][l.name] = true
							}
						}
						mu.Unlock()
					}
				})
			}, 1000})
		}
		r.jobs(p, jobs, map[string]bool{})
		for _, t := range ts {
			tn := tname(t.n)
			ls := p.leaves(t.n)
			if len(ls) == 0 {
				continue
			}
			pos := p.pos(t.n.Obj().Pos())
			enc := p.method(types.NewPointer(t.n), encs[t.pkg])
			sent := map[string]bool{}
			written := map[string]bool{}
			if enc != nil {
				sent = p.sentFields(enc)
			}
			if dec := p.method(types.NewPointer(t.n), decs[t.pkg]); dec != nil {
				written = p.writtenFields(dec)
			}
			if !okd[tn] {
				r.bad("decoder succeeds", tn, pos, "no input is decoded successfully", "")
				continue
			}
			r.ok("decoder succeeds", tn)
			for _, l := range ls {
				s := sent[l.name] || enc == nil && l.tag != ""
				d := set[tn][l.name]
				if l.elem {
					d = written[l.name]
				}
				why := derivedFields[l.name]
				r.must(!s || d || why != "", "sent is restored", l.label, pos, "the encoder sends the field, no successful decoding sets it")
				r.must(!d || s || why != "", "set is sent", l.label, pos, "decoding sets the field, the encoder never reads it")
				if enc == nil && l.tag != "" && len(l.path) == 1 {
					r.must(sendable[l.typ.String()+" "+positional(l.tag)], "type supported by the encoder", l.label, pos, fmt.Sprintf("a field of type %s with a value cannot be encoded", strings.TrimPrefix(tname(l.typ), t.pkg+".")))
				}
			}
		}
		r.atLeast("sent is restored", 200)
		r.atLeast("type supported by the encoder", 70)
	}}
}

// positional fields are encoded without a code.
func positional(tag string) string {
	if tag == "#" {
		return tag
	}
	return ""
}

// nonZero constrains a value to be other than zero.
func (in *Interp) nonZero(st *State, v Value) Value {
	switch x := v.(type) {
	case Int:
		st.cw().addGE(addc(x.E, -1))
	case Str:
		st.cw().addGE(addc(x.Len, -1))
	case Slice:
		st.cw().addGE(addc(x.Len, -1))
		x.NN = cst(1)
		return x
	case Ptr:
		x.NN = cst(1)
		return x
	case Bool:
		return Bool{condT}
	}
	return v
}

// writtenFields: fields that a decoder or the functions it calls store to.
func (p *Program) writtenFields(dec *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for f := range p.reach(dec) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, u := range *x.Referrers() {
					switch y := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if y.Addr != ssa.Value(x) {
							continue
						}
					}
					t := deref(x.X.Type())
					out[tname(t)+"."+t.Underlying().(*types.Struct).Field(x.Field).Name()] = true
				}
			}
		}
	}
	return out
}
