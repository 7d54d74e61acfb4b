package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kind letters of ADC packets.
var vocabKinds = map[string]string{
	"adc.InfoPacket": "I", "adc.HubPacket": "H", "adc.BroadcastPacket": "B", "adc.DirectPacket": "D",
	"adc.EchoPacket": "E", "adc.ClientPacket": "C", "adc.FeaturePacket": "F", "adc.UDPPacket": "U",
}

// lookup finds a package-level object by its short name.
func (p *Program) lookup(short string) types.Object {
	i := strings.LastIndexByte(short, '.')
	if i < 0 {
		return nil
	}
	for _, pk := range p.pkgs {
		if pk.Types.Name() == short[:i] && p.short(pk.PkgPath) == short[:i] {
			return pk.Types.Scope().Lookup(short[i+1:])
		}
	}
	for _, pk := range p.pkgs {
		if pk.Types.Name() == short[:i] {
			if o := pk.Types.Scope().Lookup(short[i+1:]); o != nil {
				return o
			}
		}
	}
	return nil
}

// fieldCode is the code a tag gives to a field.
func fieldCode(tag string) string {
	v := reflect.StructTag(tag).Get("adc")
	if i := strings.IndexByte(v, ','); i >= 0 {
		v = v[:i]
	}
	return v
}

// namedValue evaluates a package variable abstractly after initialisation.
func (p *Program) namedValue(in *Interp, o types.Object, f func(st *State, v Value)) {
	in.entryOptions()
	in.steps++
	st := in.start()
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg == o.Pkg() {
			if g, ok := pk.Members[o.Name()].(*ssa.Global); ok {
				id := in.globalObj(st, g)
				f(st, st.obj[id].V)
			}
		}
	}
}

func init() {
	checks["P21"] = checkFunc{run: func(p *Program, r *report) {
		r.rule("Exported constants, feature codes, command names, packet kind letters and field tags of the type-checked program are compared with a table of the NMDC and ADC specifications; command names, kinds and features are evaluated by abstract interpretation of the initialisers and naming methods; field codes of one message must be distinct.")
		for _, k := range sortedKeys(vocabConsts) {
			o := p.lookup(k)
			switch x := o.(type) {
			case *types.Const:
				got := x.Val().ExactString()
				if x.Val().Kind() == constant.String {
					got = fmt.Sprintf("%q", constant.StringVal(x.Val()))
				}
				r.must(got == vocabConsts[k], "constant", k, p.pos(o.Pos()), fmt.Sprintf("is %s, the protocol has %s", got, vocabConsts[k]))
			case *types.Var:
				want := strings.Trim(vocabConsts[k], "\"")
				var got string
				var ok bool
				r.jobs(p, []job{{k, func(in *Interp, mon *recMon) {
					p.namedValue(in, o, func(st *State, v Value) {
						got, ok = in.constText(st, v)
						if i, isInt := v.(Int); isInt {
							e := st.c.norm(i.E)
							got, ok = fmt.Sprint(e.C), e.isConst()
						}
					})
				}, 1}}, map[string]bool{})
				r.must(ok && got == want, "constant", k, p.pos(o.Pos()), fmt.Sprintf("is %q, the protocol has %q", got, want))
			default:
				r.bad("constant", k, "", "the constant is gone", "")
			}
		}
		for _, k := range sortedKeys(vocabFeatures) {
			o := p.lookup(k)
			if o == nil {
				r.bad("feature", k, "", "the feature is gone", "")
				continue
			}
			var got string
			r.jobs(p, []job{{k, func(in *Interp, mon *recMon) {
				p.namedValue(in, o, func(st *State, v Value) { got, _ = in.constText(st, v) })
			}, 1}}, map[string]bool{})
			r.must(got == vocabFeatures[k], "feature", k, p.pos(o.Pos()), fmt.Sprintf("is %q, the protocol has %q", got, vocabFeatures[k]))
		}
		for _, pr := range protos() {
			found := map[string]bool{}
			var jobs []job
			ns := p.messageTypes(pr.pkg)
			got := make([]string, len(ns))
			for i, n := range ns {
				i, n := i, n
				if rawMessage(n) {
					continue
				}
				jobs = append(jobs, job{"name of " + tname(n), func(in *Interp, mon *recMon) {
					got[i], _ = p.wireName(in, n, pr.meth)
				}, 1})
			}
			r.jobs(p, jobs, map[string]bool{})
			for i, n := range ns {
				tn := tname(n)
				want, ok := vocabNames[tn]
				if rawMessage(n) || !ok {
					continue
				}
				found[tn] = true
				r.must(got[i] == want, "command name", tn, p.pos(n.Obj().Pos()), fmt.Sprintf("encodes under the command %q, the protocol has %q", got[i], want))
			}
			for _, k := range sortedKeys(vocabNames) {
				if strings.HasPrefix(k, pr.pkg+".") && !found[k] {
					r.bad("command name", k, "", "the message type is gone", "")
				}
			}
		}
		vocabTags(p, r)
		for _, n := range p.packetTypes() {
			n := n
			want, ok := vocabKinds[tname(n)]
			if !ok {
				continue
			}
			got := ""
			r.jobs(p, []job{{"kind of " + tname(n), func(in *Interp, mon *recMon) { got = strings.Join(p.packetKind(in, n), "") }, 1}}, map[string]bool{})
			r.must(got == want, "packet kind letter", tname(n), p.pos(n.Obj().Pos()), fmt.Sprintf("is sent with the letter %q, the protocol has %q", got, want))
		}
		r.atLeast("constant", 100)
		r.atLeast("feature", 25)
		r.atLeast("command name", 60)
		r.atLeast("field code", 80)
		r.atLeast("packet kind letter", 8)
	}}
}

func vocabTags(p *Program, r *report) {
	for _, k := range sortedKeys(vocabFields) {
		o := p.lookup(k)
		if o == nil {
			r.bad("field code", k, "", "the message type is gone", "")
			continue
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			r.bad("field code", k, p.pos(o.Pos()), "the message is not a struct", "")
			continue
		}
		have := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			want, ok := vocabFields[k][f.Name()]
			if !ok {
				continue
			}
			have[f.Name()] = true
			got := fieldCode(s.Tag(i))
			r.must(got == want, "field code", k+"."+f.Name(), p.pos(f.Pos()), fmt.Sprintf("is sent as %q, the protocol has %q", got, want))
		}
		for _, f := range sortedKeys(vocabFields[k]) {
			if !have[f] {
				r.bad("field code", k+"."+f, p.pos(o.Pos()), "the field is gone", "")
			}
		}
	}
	// every tagged message: codes are distinct and positional fields come first
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			at := map[string]string{}
			for i := 0; i < s.NumFields(); i++ {
				c := fieldCode(s.Tag(i))
				if c == "" || c == "-" {
					continue
				}
				k := pk.Types.Name() + "." + nm + "." + s.Field(i).Name()
				pos := p.pos(s.Field(i).Pos())
				if c != "#" {
					good := len(c) == 2 && c[0] >= 'A' && c[0] <= 'Z' && (c[1] >= 'A' && c[1] <= 'Z' || c[1] >= '0' && c[1] <= '9')
					r.must(good, "code format", k, pos, fmt.Sprintf("the field code %q is not a letter and an alphanumeric", c))
					r.must(at[c] == "", "distinct code", k, pos, fmt.Sprintf("shares the field code %q with %s", c, at[c]))
					at[c] = k
				}
			}
		}
	}
}

// packetKind interprets the kind method of a packet.
func (p *Program) packetKind(in *Interp, n *types.Named) (kinds []string) {
	k := p.method(types.NewPointer(n), "Kind")
	if k == nil {
		return nil
	}
	p.quick(in, k, func(st *State) []Value {
		v := in.initial(st, "arg:p", types.NewPointer(n), nameCtx{own: "arg:p"})
		if q, ok := v.(Ptr); ok {
			q.NN = cst(1)
			v = q
		}
		return []Value{v}
	}, func(e exit) {
		x, _ := e.ret.(Int)
		c := e.st.c.norm(x.E)
		if c.isConst() {
			kinds = append(kinds, string(rune(c.C)))
		} else {
			kinds = append(kinds, "?")
		}
	})
	return uniq(kinds)
}
