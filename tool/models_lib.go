package main

// Models of hashes and encodings.

import (
	"fmt"
	"go/types"
)

func init() {
	models["github.com/cxmcc/tiger.New"] = func(m *mcall) []exit {
		return m.ret(Iface{NN: cst(1), ID: fmt.Sprintf("hash:24~%d", m.in.nextSeq())})
	}
	models["encoding/pem.Decode"] = func(m *mcall) []exit {
		in, st := m.in, m.st
		d, ok := m.args[0].(Slice)
		if !ok {
			return m.unknown()
		}
		// no block: everything is returned as the rest
		s2 := st.clone()
		out := []exit{{s2, Tuple{Ptr{NN: cst(0)}, d}}}
		// a block ends somewhere in the data
		bt := m.sig.Results().At(0).Type().(*types.Pointer)
		pv := in.freshVal(st, "pem:"+m.site("b"), bt, "new").(Ptr)
		pv.NN = cst(1)
		n := in.freshRange(st, "rest", 0, lenMax)
		st.cw().addGE(addc(sub(d.Len, n), -1))
		rest := Slice{R: d.R, Off: add(d.Off, sub(d.Len, n)), Len: n, Cap: sub(d.Cap, sub(d.Len, n)), NN: d.NN}
		if !st.c.infeasible() {
			out = append(out, exit{st, Tuple{pv, rest}})
		}
		return out
	}
}

// hashMethod follows the contract of hash.Hash.
func (m *mcall) hashMethod(name string, r Iface, args []Value) ([]exit, bool) {
	in, st := m.in, m.st
	size := int64(-1)
	if len(r.ID) > 5 && r.ID[:5] == "hash:" {
		fmt.Sscanf(r.ID[5:], "%d", &size)
	}
	switch name {
	case "Write":
		return m.ret(Tuple{Int{lenOf(args[0])}, nilErr()}), true
	case "Reset":
		return m.ret(Tuple{}), true
	case "Size":
		if size > 0 {
			return m.ret(Int{cst(size)}), true
		}
		return m.ret(Int{in.freshRange(st, "size", 1, 64)}), true
	case "BlockSize":
		return m.ret(Int{in.freshRange(st, "size", 1, 1024)}), true
	case "Sum":
		d, ok := args[0].(Slice)
		if !ok {
			return nil, false
		}
		n := cst(size)
		if size <= 0 {
			n = in.freshRange(st, "size", 1, 64)
		}
		id := in.newBytes(st, m.site("sum"), n, plain(allBytes), "new", false)
		return in.appendView(st, m.at, d, Str{id, cst(0), n}, types.Typ[types.Uint8], m.site("s")), true
	}
	return nil, false
}
