package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// descModel lets a path analysis see through protobuf reflection on enums: the
// values of an enum, their numbers and their annotations are those of the
// compiled descriptors.
type descModel struct {
	c     *Ctx
	enums map[string]*enumDesc // Go package path + "." + Go name
	ext   map[string]int       // extension variable -> field number
	typ   map[string]types.Type

	messages bool // annotations that are messages are followed as well
	raw      map[*term][]byte
}

func (c *Ctx) newDescModel() *descModel {
	m := &descModel{c: c, enums: map[string]*enumDesc{}, ext: map[string]int{}, typ: map[string]types.Type{}, raw: map[*term][]byte{}}
	enums, _, _ := c.descriptors()
	for _, e := range enums {
		m.enums[e.goPkg+"."+e.name] = e
	}
	for g, n := range c.extFields() {
		m.ext[g.String()] = n
	}
	return m
}

func (m *descModel) enumOf(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if m.enums[k] == nil {
		return ""
	}
	m.typ[k] = n
	return k
}

func intTerm(e *tpath, n int64) *term { return e.constTerm(constant.MakeInt64(n)) }

func unwrapIface(t *term) *term {
	for t.op == "iface" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// call models one call; ok is false for calls it knows nothing about.
func (m *descModel) call(e *tpath, st *tstate, cc *ssa.CallCommon, args []*term) (res []*term, ok bool) {
	one := func(t *term) ([]*term, bool) { return []*term{t}, true }
	if len(args) == 0 {
		return nil, false
	}
	a0 := unwrapIface(args[0])
	if strings.HasPrefix(a0.op, "descmsg:") {
		if t := m.msgField(e, cc, a0); t != nil {
			return one(t)
		}
		return nil, false
	}
	meth := ""
	if cc.IsInvoke() {
		meth = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		meth = f.Name()
		if f.Signature.Recv() != nil {
			if k := m.enumOf(f.Signature.Recv().Type()); k != "" {
				switch meth {
				case "Descriptor", "Type":
					return one(e.mk("enumdesc:" + k))
				case "Number":
					return one(a0)
				}
				return nil, false
			}
		}
		if isProtoFn(cc, "HasExtension") || isProtoFn(cc, "GetExtension") {
			if a0.op != "enumopts" || len(args) < 2 {
				return nil, false
			}
			g := unwrapIface(args[1])
			name := strings.TrimPrefix(strings.TrimPrefix(g.key, "global:"), "addr:")
			fld, known := m.ext[name]
			v, k := m.val(a0.args[0])
			if !known || v == nil {
				return nil, false
			}
			if raw, is := v.msgs[fld]; m.messages && (is || m.msgExt(args[1], cc)) {
				if meth == "HasExtension" {
					return one(e.constTerm(constant.MakeBool(is)))
				}
				t := e.mk(fmt.Sprintf("descmsg:%x", raw))
				if !is {
					t = e.mk("descmsg:none")
				}
				m.raw[t] = raw
				return one(e.mk("extmsg", t))
			}
			x, has := v.opts[fld]
			_ = k
			if meth == "HasExtension" {
				return one(e.constTerm(constant.MakeBool(has)))
			}
			t := e.mk("extval", intTerm(e, x))
			return one(t)
		}
		return nil, false
	}
	switch {
	case strings.HasPrefix(a0.op, "enumdesc:"):
		k := strings.TrimPrefix(a0.op, "enumdesc:")
		if meth == "Values" {
			return one(e.mk("enumvals:" + k))
		}
		if meth == "Descriptor" {
			return one(a0)
		}
	case strings.HasPrefix(a0.op, "enumvals:"):
		k := strings.TrimPrefix(a0.op, "enumvals:")
		en := m.enums[k]
		switch meth {
		case "Len":
			return one(intTerm(e, int64(len(en.vals))))
		case "Get":
			if i, ok := intOf(args[1]); ok && i >= 0 && i < int64(len(en.vals)) {
				return one(e.mk("enumval:"+k, intTerm(e, i)))
			}
		case "ByNumber":
			if n, ok := intOf(args[1]); ok {
				for i, v := range en.vals {
					if v.num == n {
						return one(e.mk("enumval:"+k, intTerm(e, int64(i))))
					}
				}
				return one(e.nilTerm())
			}
		}
	case strings.HasPrefix(a0.op, "enumval:"):
		v, _ := m.val(a0)
		switch meth {
		case "Number":
			return one(intTerm(e, v.num))
		case "Options":
			return one(e.mk("enumopts", a0))
		case "Index":
			return one(a0.args[0])
		}
	}
	return nil, false
}

// msgExt: the extension's values are messages: no enum value carries a number for it.
func (m *descModel) msgExt(g *term, cc *ssa.CallCommon) bool {
	name := strings.TrimPrefix(strings.TrimPrefix(unwrapIface(unwrapIface(g)).key, "global:"), "addr:")
	fld := m.ext[name]
	for _, e := range m.enums {
		for _, v := range e.vals {
			if _, ok := v.msgs[fld]; ok {
				return true
			}
		}
	}
	return false
}

// msgField: a field of a message that an annotation holds.
func (m *descModel) msgField(e *tpath, cc *ssa.CallCommon, a0 *term) *term {
	kind, field, recv := protoMethod(cc)
	if kind != "Get" && kind != "Has" {
		return nil
	}
	n := namedOf(recv)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	num, list := 0, false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		if f != field && f != "xxx_hidden_"+field {
			continue
		}
		for _, part := range strings.Split(reflect.StructTag(st.Tag(i)).Get("protobuf"), ",") {
			if x, err := strconv.Atoi(part); err == nil && num == 0 {
				num = x
			}
			list = list || part == "rep"
		}
	}
	if num == 0 {
		return nil
	}
	var ints []int64
	var msgs []*term
	wire(m.raw[a0], func(k, typ int, v uint64, d []byte) {
		if k != num {
			return
		}
		if typ == 0 {
			ints = append(ints, int64(int32(v)))
		} else if typ == 2 {
			t := e.mk(fmt.Sprintf("descmsg:%x", d))
			m.raw[t] = append([]byte(nil), d...)
			msgs = append(msgs, t)
		}
	})
	if kind == "Has" {
		return e.constTerm(constant.MakeBool(len(ints)+len(msgs) > 0))
	}
	res := cc.Signature().Results().At(0).Type()
	switch {
	case list:
		if len(ints) > 0 {
			return nil
		}
		if len(msgs) == 0 {
			return e.nilTerm()
		}
		return e.mk("append", append([]*term{e.nilTerm()}, msgs...)...)
	case isBool(res):
		return e.constTerm(constant.MakeBool(len(ints) > 0 && ints[len(ints)-1] != 0))
	case len(msgs) > 0:
		return msgs[0]
	case len(ints) > 0:
		return intTerm(e, ints[len(ints)-1])
	}
	if b, ok := res.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return intTerm(e, 0)
	}
	return nil
}

func (m *descModel) val(t *term) (*enumVal, string) {
	k, ok := strings.CutPrefix(t.op, "enumval:")
	if !ok {
		return nil, ""
	}
	i, ok := intOf(t.args[0])
	if !ok {
		return nil, ""
	}
	return &m.enums[k].vals[i], k
}

func intOf(t *term) (int64, bool) {
	if t.cst == nil || t.cst.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cst)
}

var _ = fmt.Sprint
