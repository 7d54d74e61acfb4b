package main

// Models of package reflect.

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func elemOf(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func isIntKind(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUintKind(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }

func basicOf(k reflect.Kind) types.Type {
	m := map[reflect.Kind]types.BasicKind{reflect.Int: types.Int, reflect.Int8: types.Int8, reflect.Int16: types.Int16, reflect.Int32: types.Int32, reflect.Int64: types.Int64,
		reflect.Uint: types.Uint, reflect.Uint8: types.Uint8, reflect.Uint16: types.Uint16, reflect.Uint32: types.Uint32, reflect.Uint64: types.Uint64}
	return types.Typ[m[k]]
}

// must is an obligation of a reflect call that does not depend on the values.
func (m *mcall) must(ok bool, detail string) bool {
	m.in.oblige(m.st, m.at, "reflect", ok, detail)
	return ok
}

func (m *mcall) rval(i int) (RVal, bool) {
	v, ok := m.args[i].(RVal)
	if !ok {
		m.in.gap("reflect on an untracked value in %s", m.in.prog.short(m.at.Parent().String()))
	}
	return v, ok
}

// get is the value held.
func (m *mcall) get(r RVal) Value {
	if r.P != nil {
		return m.in.load(m.st, *r.P, r.T, m.site("rv"))
	}
	return r.V
}

func (m *mcall) kindInt(k reflect.Kind) []exit { return m.ret(Int{cst(int64(k))}) }

func (m *mcall) structField(t types.Type, i int) Value {
	in, st := m.in, m.st
	u := types.Unalias(t).Underlying().(*types.Struct)
	f := u.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	out := in.freshVal(st, m.site("sf"), m.sig.Results().At(0).Type(), "new").(Struct)
	fs := append([]Value(nil), out.F...)
	rs := m.sig.Results().At(0).Type().Underlying().(*types.Struct)
	for k := range fs {
		switch rs.Field(k).Name() {
		case "Name":
			fs[k] = in.constStr(st, f.Name())
		case "PkgPath":
			fs[k] = in.constStr(st, pkg)
		case "Type":
			fs[k] = RType{f.Type()}
		case "Tag":
			fs[k] = in.constStr(st, u.Tag(i))
		case "Anonymous":
			fs[k] = Bool{condOf(f.Anonymous())}
		}
	}
	return Struct{fs}
}

func reflectModels() {
	val := func(name string, f func(m *mcall, r RVal) []exit) {
		models["(reflect.Value)."+name] = func(m *mcall) []exit {
			r, ok := m.rval(0)
			if !ok {
				return m.unknown()
			}
			return f(m, r)
		}
	}
	models["reflect.ValueOf"] = func(m *mcall) []exit {
		i, ok := m.args[0].(Iface)
		if !ok {
			return m.unknown()
		}
		var out []exit
		t, f := m.in.split(m.st, mkCmp(cEQ, addc(i.NN, -1)))
		for _, s := range t {
			if i.T == nil {
				m.in.gap("reflect.ValueOf an unknown value in %s", m.in.prog.short(m.at.Parent().String()))
				out = append(out, exit{s, Opaque{"rval"}})
				continue
			}
			out = append(out, exit{s, RVal{T: i.T, V: i.V}})
		}
		for _, s := range f {
			out = append(out, exit{s, RVal{Zero: true}})
		}
		return out
	}
	models["reflect.TypeOf"] = func(m *mcall) []exit {
		i, ok := m.args[0].(Iface)
		if !ok || i.T == nil {
			m.in.gap("reflect.TypeOf an unknown value in %s", m.in.prog.short(m.at.Parent().String()))
			return m.ret(Iface{NN: cst(1), ID: "rtype"})
		}
		var out []exit
		t, f := m.in.split(m.st, mkCmp(cEQ, addc(i.NN, -1)))
		for _, s := range t {
			out = append(out, exit{s, RType{i.T}})
		}
		for _, s := range f {
			out = append(out, exit{s, Iface{NN: cst(0)}})
		}
		return out
	}
	models["reflect.New"] = func(m *mcall) []exit {
		t, ok := m.args[0].(RType)
		if !ok {
			if i, isI := m.args[0].(Iface); isI && m.st.c.entailsEQ(i.NN) {
				m.must(false, "reflect.New of a nil type")
				return nil
			}
			m.in.gap("reflect.New of an unknown type in %s", m.in.prog.short(m.at.Parent().String()))
			return m.ret(Opaque{"rval"})
		}
		o := m.in.newObj(m.st, m.site("new"), t.T, "new")
		return m.ret(RVal{T: types.NewPointer(t.T), V: Ptr{O: o, NN: cst(1)}})
	}
	models["reflect.Zero"] = func(m *mcall) []exit {
		t, ok := m.args[0].(RType)
		if !ok {
			m.in.gap("reflect.Zero of an unknown type in %s", m.in.prog.short(m.at.Parent().String()))
			return m.ret(Opaque{"rval"})
		}
		return m.ret(RVal{T: t.T, V: m.in.zero(m.st, t.T, m.site("zero"))})
	}
	models["reflect.PtrTo"] = func(m *mcall) []exit {
		if t, ok := m.args[0].(RType); ok {
			return m.ret(RType{types.NewPointer(t.T)})
		}
		return m.unknown()
	}
	models["reflect.PointerTo"] = models["reflect.PtrTo"]
	models["reflect.Indirect"] = func(m *mcall) []exit {
		r, ok := m.rval(0)
		if !ok {
			return m.unknown()
		}
		if kindOf(r.T) != reflect.Ptr {
			return m.ret(r)
		}
		return m.elemOfVal(r)
	}
	models["reflect.MakeSlice"] = func(m *mcall) []exit {
		t, ok := m.args[0].(RType)
		n, ok2 := m.args[1].(Int)
		c, ok3 := m.args[2].(Int)
		if !ok || !ok2 || !ok3 || !m.must(kindOf(t.T) == reflect.Slice, "reflect.MakeSlice of a type that is not a slice") {
			return m.unknown()
		}
		var out []exit
		for _, s := range m.in.require(m.st, m.at, "makeslice", cAndOf(ge(n.E, cst(0)), ge(c.E, n.E)), "reflect.MakeSlice with a bad length") {
			sl := m.in.mkSlice(s, m.site("mk"), elemOf(t.T), n.E, c.E)
			out = append(out, exit{s, RVal{T: t.T, V: sl}})
		}
		return out
	}
	models["reflect.Append"] = func(m *mcall) []exit { return m.unknown() }
	val("Kind", func(m *mcall, r RVal) []exit {
		if r.Zero {
			return m.kindInt(reflect.Invalid)
		}
		return m.kindInt(kindOf(r.T))
	})
	val("IsValid", func(m *mcall, r RVal) []exit { return m.ret(Bool{condOf(!r.Zero)}) })
	val("Type", func(m *mcall, r RVal) []exit {
		if !m.must(!r.Zero, "Type of a zero reflect.Value") {
			return nil
		}
		return m.ret(RType{r.T})
	})
	val("Elem", func(m *mcall, r RVal) []exit {
		if !m.must(!r.Zero && (kindOf(r.T) == reflect.Ptr || kindOf(r.T) == reflect.Interface), "Elem of a reflect.Value that is not a pointer or interface") {
			return nil
		}
		return m.elemOfVal(r)
	})
	val("NumField", func(m *mcall, r RVal) []exit {
		if !m.must(!r.Zero && kindOf(r.T) == reflect.Struct, "NumField of a value that is not a struct") {
			return nil
		}
		return m.ret(Int{cst(int64(r.T.Underlying().(*types.Struct).NumFields()))})
	})
	val("Field", func(m *mcall, r RVal) []exit {
		if !m.must(!r.Zero && kindOf(r.T) == reflect.Struct, "Field of a value that is not a struct") {
			return nil
		}
		u := r.T.Underlying().(*types.Struct)
		i, ok := m.cint(1)
		if !ok {
			m.in.gap("reflect field with an unknown index in %s", m.in.prog.short(m.at.Parent().String()))
			return m.ret(Opaque{"rval"})
		}
		if !m.must(i >= 0 && i < int64(u.NumFields()), "reflect field index out of range") {
			return nil
		}
		n := RVal{T: u.Field(int(i)).Type()}
		if r.P != nil {
			p := *r.P
			p.Path = append(append([]int(nil), p.Path...), int(i))
			n.P = &p
		} else if s, ok := r.V.(Struct); ok {
			n.V = s.F[i]
		} else {
			n.V = m.in.freshVal(m.st, m.site("f"), n.T, "?")
		}
		return m.ret(n)
	})
	val("Addr", func(m *mcall, r RVal) []exit {
		if !m.must(r.P != nil, "Addr of a value that is not addressable") {
			return nil
		}
		p := *r.P
		p.NN = cst(1)
		return m.ret(RVal{T: types.NewPointer(r.T), V: p})
	})
	val("CanAddr", func(m *mcall, r RVal) []exit { return m.ret(Bool{condOf(r.P != nil)}) })
	val("CanSet", func(m *mcall, r RVal) []exit { return m.ret(Bool{condOf(r.P != nil)}) })
	val("CanInterface", func(m *mcall, r RVal) []exit { return m.ret(Bool{condT}) })
	val("Interface", func(m *mcall, r RVal) []exit {
		if !m.must(!r.Zero, "Interface of a zero reflect.Value") {
			return nil
		}
		v := m.get(r)
		if _, ok := v.(Iface); ok {
			return m.ret(v)
		}
		return m.ret(Iface{T: r.T, V: v, NN: cst(1)})
	})
	val("IsNil", func(m *mcall, r RVal) []exit {
		switch kindOf(r.T) {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan:
			m.must(!r.Zero, "IsNil")
		default:
			m.must(false, "IsNil of a value that cannot be nil")
			return nil
		}
		return m.ret(Bool{m.in.nilCond(m.st, m.get(r))})
	})
	val("Len", func(m *mcall, r RVal) []exit {
		v := m.get(r)
		switch x := v.(type) {
		case Str, Slice:
			return m.ret(Int{lenOf(x)})
		case Arr:
			return m.ret(Int{m.st.reg[x.R].N})
		case MapV:
			return m.ret(Int{m.in.freshRange(m.st, "len", 0, lenMax)})
		}
		m.must(false, "Len of a value without a length")
		return nil
	})
	val("Index", func(m *mcall, r RVal) []exit {
		i, ok := m.args[1].(Int)
		if !ok {
			return m.unknown()
		}
		v := m.get(r)
		var out []exit
		switch x := v.(type) {
		case Slice:
			for _, s := range m.in.require(m.st, m.at, "index", cAndOf(ge(i.E, cst(0)), ge(sub(x.Len, i.E), cst(1))), "reflect index out of range") {
				out = append(out, exit{s, RVal{T: elemOf(r.T), P: &Ptr{R: x.R, Idx: add(x.Off, i.E), NN: cst(1)}}})
			}
			return out
		case Arr:
			n := m.st.reg[x.R].N
			for _, s := range m.in.require(m.st, m.at, "index", cAndOf(ge(i.E, cst(0)), ge(sub(n, i.E), cst(1))), "reflect index out of range") {
				nv := RVal{T: elemOf(r.T)}
				if r.P != nil {
					nv.P = &Ptr{R: x.R, Idx: i.E, NN: cst(1)}
				} else {
					nv.V = m.in.elem(s, x.R, i.E, nv.T)
				}
				out = append(out, exit{s, nv})
			}
			return out
		case Str:
			for _, s := range m.in.require(m.st, m.at, "index", cAndOf(ge(i.E, cst(0)), ge(sub(x.Len, i.E), cst(1))), "reflect index out of range") {
				out = append(out, exit{s, RVal{T: types.Typ[types.Uint8], V: m.in.readByte(s, x.R, add(x.Off, i.E), types.Typ[types.Uint8])}})
			}
			return out
		}
		m.must(false, "Index of a value without elements")
		return nil
	})
	set := func(m *mcall, r RVal, v Value) []exit {
		if !m.must(r.P != nil, "set of a value that cannot be set") {
			return nil
		}
		m.in.store(m.st, *r.P, v, m.at)
		return m.ret(Tuple{})
	}
	val("Set", func(m *mcall, r RVal) []exit {
		x, ok := m.args[1].(RVal)
		if !ok {
			return m.unknown()
		}
		if !m.must(!x.Zero && (types.AssignableTo(x.T, r.T)), "reflect Set with a value of another type") {
			return nil
		}
		v := m.get(x)
		if kindOf(r.T) == reflect.Interface && kindOf(x.T) != reflect.Interface {
			v = Iface{T: x.T, V: v, NN: cst(1)}
		}
		return set(m, r, v)
	})
	val("SetString", func(m *mcall, r RVal) []exit {
		if !m.must(kindOf(r.T) == reflect.String, "SetString of a value that is not a string") {
			return nil
		}
		return set(m, r, m.args[1])
	})
	val("SetBool", func(m *mcall, r RVal) []exit {
		if !m.must(kindOf(r.T) == reflect.Bool, "SetBool of a value that is not a bool") {
			return nil
		}
		return set(m, r, m.args[1])
	})
	val("SetLen", func(m *mcall, r RVal) []exit { return m.unknown() })
	setNum := func(name string, is func(reflect.Kind) bool) {
		val(name, func(m *mcall, r RVal) []exit {
			if !m.must(is(kindOf(r.T)), name+" of a value of another kind") {
				return nil
			}
			x, ok := m.args[1].(Int)
			if !ok {
				return set(m, r, m.in.freshInt(m.st, "set", r.T))
			}
			fit := m.in.fits(m.st, x.E, r.T)
			m.in.oblige(m.st, m.at, "narrow", fit, "the number may not fit the field it is stored in")
			if !fit {
				return set(m, r, m.in.freshInt(m.st, "set", r.T))
			}
			return set(m, r, x)
		})
	}
	setNum("SetInt", isIntKind)
	setNum("SetUint", isUintKind)
	val("SetFloat", func(m *mcall, r RVal) []exit { return set(m, r, m.args[1]) })
	num := func(name string, is func(reflect.Kind) bool, zero Value) {
		val(name, func(m *mcall, r RVal) []exit {
			if !m.must(!r.Zero && is(kindOf(r.T)), name+" of a value of another kind") {
				return nil
			}
			return m.ret(m.get(r))
		})
	}
	num("Int", isIntKind, nil)
	num("Uint", isUintKind, nil)
	num("Bool", func(k reflect.Kind) bool { return k == reflect.Bool }, nil)
	num("Float", func(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }, nil)
	val("Bytes", func(m *mcall, r RVal) []exit { return m.ret(m.get(r)) })
	val("String", func(m *mcall, r RVal) []exit {
		v := m.get(r)
		if s, ok := v.(Str); ok {
			return m.ret(s)
		}
		return m.unknown()
	})
	over := func(name string, is func(reflect.Kind) bool) {
		val(name, func(m *mcall, r RVal) []exit {
			if !m.must(is(kindOf(r.T)), name+" of a value of another kind") {
				return nil
			}
			x, ok := m.args[1].(Int)
			lo, hi, bits, ok2 := intRange(r.T)
			if !ok || !ok2 {
				return m.unknown()
			}
			if bits == 64 {
				return m.ret(Bool{condF})
			}
			return m.ret(Bool{cNotOf(cAndOf(ge(x.E, cst(lo.Int64())), ge(cst(hi.Int64()), x.E)))})
		})
	}
	over("OverflowInt", isIntKind)
	over("OverflowUint", isUintKind)
	models["(reflect.StructTag).Get"] = func(m *mcall) []exit {
		t, ok1 := m.cstr(0)
		k, ok2 := m.cstr(1)
		if ok1 && ok2 {
			return m.ret(m.in.constStr(m.st, reflect.StructTag(t).Get(k)))
		}
		return m.unknown()
	}
	models["(reflect.StructTag).Lookup"] = func(m *mcall) []exit {
		t, ok1 := m.cstr(0)
		k, ok2 := m.cstr(1)
		if ok1 && ok2 {
			s, ok := reflect.StructTag(t).Lookup(k)
			return m.ret(Tuple{m.in.constStr(m.st, s), Bool{condOf(ok)}})
		}
		return m.unknown()
	}
	models["(reflect.Kind).String"] = func(m *mcall) []exit {
		if k, ok := m.cint(0); ok {
			return m.ret(m.in.constStr(m.st, reflect.Kind(k).String()))
		}
		return m.unknown()
	}
}

// elemOfVal is what a pointer or interface refers to.
func (m *mcall) elemOfVal(r RVal) []exit {
	var out []exit
	switch x := m.get(r).(type) {
	case Ptr:
		t, f := m.in.split(m.st, mkCmp(cEQ, addc(x.NN, -1)))
		for _, s := range t {
			p := x
			p.NN = cst(1)
			out = append(out, exit{s, RVal{T: elemOf(r.T), P: &p}})
		}
		for _, s := range f {
			out = append(out, exit{s, RVal{Zero: true}})
		}
		return out
	case Iface:
		t, f := m.in.split(m.st, mkCmp(cEQ, addc(x.NN, -1)))
		for _, s := range t {
			if x.T == nil {
				m.in.gap("reflect Elem of an unknown value in %s", m.in.prog.short(m.at.Parent().String()))
				out = append(out, exit{s, Opaque{"rval"}})
				continue
			}
			out = append(out, exit{s, RVal{T: x.T, V: x.V}})
		}
		for _, s := range f {
			out = append(out, exit{s, RVal{Zero: true}})
		}
		return out
	}
	m.in.gap("reflect Elem of an untracked value in %s", m.in.prog.short(m.at.Parent().String()))
	return m.ret(Opaque{"rval"})
}

// rtypeMethod is a method of a known reflect.Type.
func (in *Interp) rtypeMethod(st *State, at ssa.Instruction, c *ssa.CallCommon, r RType, args []Value) []exit {
	m := &mcall{in: in, st: st, at: at, fn: "reflect.Type." + c.Method.Name(), args: append([]Value{r}, args...), sig: c.Signature()}
	switch c.Method.Name() {
	case "Kind":
		return m.kindInt(kindOf(r.T))
	case "Elem":
		e := elemOf(r.T)
		if !m.must(e != nil, "Elem of a type without elements") {
			return nil
		}
		return m.ret(RType{e})
	case "NumField":
		u, ok := r.T.Underlying().(*types.Struct)
		if !m.must(ok, "NumField of a type that is not a struct") {
			return nil
		}
		return m.ret(Int{cst(int64(u.NumFields()))})
	case "Field":
		u, ok := r.T.Underlying().(*types.Struct)
		if !m.must(ok, "Field of a type that is not a struct") {
			return nil
		}
		i, known := m.cint(1)
		if !known {
			in.gap("reflect field with an unknown index in %s", in.prog.short(at.Parent().String()))
			return m.unknown()
		}
		if !m.must(i >= 0 && i < int64(u.NumFields()), "reflect field index out of range") {
			return nil
		}
		return m.ret(m.structField(r.T, int(i)))
	case "Bits":
		_, _, bits, ok := intRange(r.T)
		if b, isB := r.T.Underlying().(*types.Basic); isB && !ok {
			switch b.Kind() {
			case types.Float32:
				bits, ok = 32, true
			case types.Float64:
				bits, ok = 64, true
			}
		}
		if !m.must(ok, "Bits of a type that is not a number") {
			return nil
		}
		return m.ret(Int{cst(int64(bits))})
	case "Len":
		u, ok := r.T.Underlying().(*types.Array)
		if !m.must(ok, "Len of a type that is not an array") {
			return nil
		}
		return m.ret(Int{cst(u.Len())})
	case "Name":
		if n := namedOf(r.T); n != nil && kindOf(r.T) != reflect.Ptr {
			return m.ret(in.constStr(st, n.Obj().Name()))
		}
		return m.ret(in.constStr(st, ""))
	case "String":
		return m.ret(in.constStr(st, types.TypeString(r.T, func(p *types.Package) string { return p.Name() })))
	case "Comparable":
		return m.ret(Bool{condOf(types.Comparable(r.T))})
	case "Implements", "AssignableTo", "ConvertibleTo":
		if o, ok := args[0].(RType); ok {
			var b bool
			switch c.Method.Name() {
			case "Implements":
				i, isI := o.T.Underlying().(*types.Interface)
				if !m.must(isI, "Implements with a type that is not an interface") {
					return nil
				}
				b = types.Implements(r.T, i)
			case "AssignableTo":
				b = types.AssignableTo(r.T, o.T)
			default:
				b = types.ConvertibleTo(r.T, o.T)
			}
			return m.ret(Bool{condOf(b)})
		}
	}
	return m.unknown()
}
