package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte strings of known length, byte by byte: used where fixed layouts are read
// and written. Every slice of such a string resolves to a list of byte terms; the
// memory of arrays and made slices is kept per element.

const maxLayout = 4096

// bl: the bytes of a byte string whose length is known.
func (e *tpath) bl(st *tstate, t *term) ([]*term, bool) {
	t = unstored(t)
	if t.op == "iface" && len(t.args) == 1 {
		t = unstored(t.args[0])
	}
	over := func(xs []*term) []*term {
		for i := range xs {
			if v := st.cells[e.mk("iaddr", t, intTerm(e, int64(i)))]; v != nil {
				xs[i] = v
			}
		}
		return xs
	}
	if n, ok := e.fixedLen[t]; ok {
		xs := make([]*term, n)
		for i := range xs {
			xs[i] = e.byteAt(t, linT{k: int64(i)})
		}
		return over(xs), true
	}
	switch {
	case t.op == "nil" || e.nilness(st, t) == 'n':
		return nil, true
	case t.cst != nil && t.cst.Kind() == constant.String:
		var xs []*term
		for _, b := range []byte(constant.StringVal(t.cst)) {
			xs = append(xs, intTerm(e, int64(b)))
		}
		return xs, true
	case t.op == "seq":
		return over(append([]*term(nil), t.args...)), true
	case t.op == "slice":
		xs, ok := e.bl(st, t.args[0])
		if !ok {
			return nil, false
		}
		lo, hi := int64(0), int64(len(xs))
		if t.args[1].op != "_" {
			if lo, ok = intOf(t.args[1]); !ok {
				return nil, false
			}
		}
		if t.args[2].op != "_" {
			if hi, ok = intOf(t.args[2]); !ok {
				return nil, false
			}
		}
		for int64(len(xs)) < hi && hi <= maxLayout && t.args[0].op == "obj" {
			// into the spare capacity
			v := st.cells[e.mk("iaddr", t.args[0], intTerm(e, int64(len(xs))))]
			xs = append(xs, valOr(v, intTerm(e, 0)))
		}
		if lo < 0 || hi < lo || hi > int64(len(xs)) {
			return nil, false
		}
		return xs[lo:hi], true
	case t.op == "obj":
		n := int64(-1)
		if t.typ != nil {
			if p, ok := t.typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok && isByteElemT(a.Elem()) {
					n = a.Len()
				}
			}
		}
		if m := st.cells[e.mk("makelen", t)]; m != nil {
			if k, ok := intOf(m); ok {
				n = k
			}
		}
		if n < 0 || n > maxLayout {
			return nil, false
		}
		sm := st.cells[e.mk("smear", t)]
		xs := make([]*term, n)
		for i := range xs {
			xs[i] = intTerm(e, 0)
			if sm != nil {
				xs[i] = e.mk("part", sm, intTerm(e, int64(i)))
			}
		}
		return over(xs), true
	}
	if n, ok := e.knownLen(st, t); ok && n >= 0 && n <= maxLayout {
		xs := make([]*term, n)
		var head []*term
		if t.op == "unbounded" {
			head, _ = e.bl(st, t.args[0])
		}
		for i := range xs {
			if i < len(head) {
				xs[i] = head[i]
			} else {
				xs[i] = e.mk("part", t, intTerm(e, int64(i)))
			}
		}
		return over(xs), true
	}
	return nil, false
}

// knownLen: the length of a byte string, as the path has fixed it.
func (e *tpath) knownLen(st *tstate, t *term) (int64, bool) {
	l := e.mk("len", t)
	// coefficient of l, and constant; anything else is not known
	var lin func(x *term) (k, c int64, ok bool)
	lin = func(x *term) (k, c int64, ok bool) {
		x = unstored(x)
		if n, ok := intOf(x); ok {
			return 0, n, true
		}
		switch {
		case x == l:
			return 1, 0, true
		case x.op == "len" && x.args[0].op == "unbounded":
			return 0, 0, false
		case strings.HasPrefix(x.op, "bin") && (strings.HasSuffix(x.op, ":+") || strings.HasSuffix(x.op, ":-")):
			k1, c1, ok1 := lin(x.args[0])
			k2, c2, ok2 := lin(x.args[1])
			if strings.HasSuffix(x.op, ":-") {
				k2, c2 = -k2, -c2
			}
			return k1 + k2, c1 + c2, ok1 && ok2
		case strings.HasPrefix(x.op, "conv:int") && convBytes(x.op) >= 4:
			return lin(x.args[0])
		}
		return 0, 0, false
	}
	for f, v := range st.facts {
		if f.op != "==" || v != 't' {
			continue
		}
		k1, c1, ok1 := lin(f.args[0])
		k2, c2, ok2 := lin(f.args[1])
		if k, c := k1-k2, c2-c1; ok1 && ok2 && (k == 1 || k == -1) {
			return k * c, true
		}
	}
	return 0, false
}

func isByteElemT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *tpath) seq(xs []*term) *term {
	ys := make([]*term, len(xs))
	for i, x := range xs {
		if n, ok := intOf(x); ok {
			x = intTerm(e, int64(byte(n)))
		}
		ys[i] = x
	}
	if len(ys) == 0 {
		t := e.mk("seq")
		return t
	}
	return e.mk("seq", ys...)
}

// snap: the bytes a byte string has now.
func (e *tpath) snap(st *tstate, t *term) *term {
	if unstored(t).op == "nil" {
		return t
	}
	if xs, ok := e.bl(st, t); ok {
		return e.seq(xs)
	}
	return t
}

// spot: the memory cell of an element, through slices of slices.
func (e *tpath) spot(base, idx *term) *term {
	base = unstored(base)
	i, ok := intOf(idx)
	for ok && base.op == "slice" {
		if base.args[1].op != "_" {
			lo, k := intOf(base.args[1])
			if !k {
				return nil
			}
			i += lo
		}
		base = unstored(base.args[0])
	}
	if !ok {
		return nil
	}
	return e.mk("iaddr", base, intTerm(e, i))
}

// put writes bytes into a byte string from a place on.
func (e *tpath) put(st *tstate, dst *term, at int64, xs []*term) {
	for i, x := range xs {
		if a := e.spot(dst, intTerm(e, at+int64(i))); a != nil {
			if n, ok := intOf(x); ok {
				x = intTerm(e, int64(byte(n)))
			}
			st.cells[a] = x
		} else {
			e.smear(st, dst, x)
		}
	}
}

// smear: some element of the memory holds this now.
func (e *tpath) smear(st *tstate, dst, v *term) {
	o := baseObj(unstored(dst))
	k := e.mk("smear", o)
	if old := st.cells[k]; old != nil {
		v = e.mix(old, v)
	}
	for c, w := range st.cells {
		if c.op == "iaddr" && c.args[0] == o {
			v = e.mix(w, v)
			delete(st.cells, c)
		}
	}
	st.cells[k] = v
}

// mix: any of these.
func (e *tpath) mix(ts ...*term) *term {
	var xs []*term
	have := map[*term]bool{}
	for _, t := range ts {
		as := []*term{t}
		if t.op == "mix" {
			as = t.args
		}
		for _, a := range as {
			if !have[a] {
				have[a] = true
				xs = append(xs, a)
			}
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].key < xs[j].key })
	if len(xs) == 1 {
		return xs[0]
	}
	return e.mk("mix", xs...)
}

func (e *tpath) layoutInstr(in ssa.Instruction, st *tstate, ctx string) bool {
	v, _ := in.(ssa.Value)
	set := func(t *term) bool { st.env[v] = t; return true }
	switch x := in.(type) {
	case *ssa.IndexAddr:
		el := derefType(x.Type())
		if !isByteElemT(el) {
			return false
		}
		base, idx := e.val(st, x.X), e.val(st, x.Index)
		if a := e.spot(base, idx); a != nil {
			return set(a)
		}
		return set(e.mk("iaddr", unstored(base), idx))
	case *ssa.Store:
		a := e.val(st, x.Addr)
		if p := derefType(x.Addr.Type()); p != nil {
			if ar, ok := p.Underlying().(*types.Array); ok && isByteElemT(ar.Elem()) {
				if xs, ok := e.bl(st, e.val(st, x.Val)); ok {
					e.put(st, a, 0, xs)
					return true
				}
			}
		}
		if a.op != "iaddr" || !isByteElemT(derefType(x.Addr.Type())) {
			return false
		}
		val := e.val(st, x.Val)
		if _, ok := intOf(a.args[1]); ok {
			e.put(st, a.args[0], mustInt(a.args[1]), []*term{val})
		} else {
			e.smear(st, a.args[0], val)
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		o := e.val(st, x.X)
		if ar, ok := x.Type().Underlying().(*types.Array); ok && isByteElemT(ar.Elem()) {
			if xs, ok := e.bl(st, o); ok {
				return set(e.seq(xs))
			}
		}
		if o.op == "iaddr" && isByteElemT(x.Type()) {
			i, ok := intOf(o.args[1])
			xs, k := e.bl(st, o.args[0])
			if ok && k && i >= 0 && i < int64(len(xs)) {
				return set(xs[i])
			}
			if c := st.cells[o]; c != nil {
				return set(c)
			}
			return set(e.mk("elem", o.args[0], o.args[1]))
		}
	case *ssa.Index:
		if !isText(x.X.Type()) && !isByteElemT(x.Type()) {
			return false
		}
		return e.indexed(st, x.X, x.Index, set)
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return e.indexed(st, x.X, x.Index, set)
		}
	case *ssa.Convert:
		if isText(x.X.Type()) && isText(x.Type()) {
			return set(e.snap(st, e.val(st, x.X)))
		}
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
			xs, k := e.bl(st, a)
			ys, l := e.bl(st, b)
			if k && l {
				switch x.Op {
				case token.ADD:
					return set(e.seq(append(append([]*term(nil), xs...), ys...)))
				case token.EQL, token.NEQ:
					if len(xs) != len(ys) {
						return set(e.constTerm(constant.MakeBool(x.Op == token.NEQ)))
					}
				}
			}
			return false
		}
		if m, ok := intOf(a); ok && (x.Op == token.QUO || x.Op == token.REM) {
			if n, ok := intOf(b); ok && n > 0 {
				if x.Op == token.QUO {
					return set(intTerm(e, m/n))
				}
				return set(intTerm(e, m%n))
			}
		}
		t := e.bin(x.Op, a, b, x)
		if n, ok := intOf(t); ok {
			t = e.constTerm(wrap(constant.MakeInt64(n), x.Type()))
		} else if strings.HasPrefix(t.op, "bin:") {
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.SHL:
				if b, ok := x.Type().Underlying().(*types.Basic); ok {
					if w := convBytes("conv:" + b.Name()); w == 1 || w == 2 {
						t = e.mk("conv:"+b.Name(), t)
					}
				}
			}
		}
		return set(t)
	}
	return false
}

func mustInt(t *term) int64 { n, _ := intOf(t); return n }

func (e *tpath) indexed(st *tstate, s, i ssa.Value, set func(*term) bool) bool {
	xs, ok := e.bl(st, e.val(st, s))
	k, c := intOf(e.val(st, i))
	if !ok || !c || k < 0 || k >= int64(len(xs)) {
		return set(e.mk("elem", unstored(e.val(st, s)), e.val(st, i)))
	}
	return set(xs[k])
}

func isText(t types.Type) bool {
	if isByteSlice(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// layoutCall models one call; ok is false for calls it knows nothing about.
func (e *tpath) layoutCall(ci ssa.CallInstruction, st *tstate, args []*term, site string) ([]*term, bool) {
	cc := ci.Common()
	one := func(t ...*term) ([]*term, bool) { return t, true }
	name := callName(cc)
	fresh := func(kind string) *term {
		t := e.mk(kind + "@" + site)
		t.op = "obj"
		return t
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if !isText(cc.Args[0].Type()) {
				if p := derefType(cc.Args[0].Type()); p != nil {
					if a, ok := p.Underlying().(*types.Array); ok {
						return one(intTerm(e, a.Len()))
					}
				}
				return nil, false
			}
			if xs, ok := e.bl(st, args[0]); ok {
				return one(intTerm(e, int64(len(xs))))
			}
			return one(e.mk("len", unstored(args[0])))
		case "copy":
			if !isByteSlice(cc.Args[0].Type()) {
				return nil, false
			}
			ds, k := e.bl(st, args[0])
			xs, l := e.bl(st, args[1])
			if k && l {
				if len(xs) > len(ds) {
					xs = xs[:len(ds)]
				}
				e.put(st, args[0], 0, append([]*term(nil), xs...))
				return one(intTerm(e, int64(len(xs))))
			}
			if k {
				var ys []*term
				for i, d := range ds {
					ys = append(ys, e.mk("part", e.mix(d, unstored(args[1])), intTerm(e, int64(i))))
				}
				e.put(st, args[0], 0, ys)
			} else {
				e.smear(st, args[0], unstored(args[1]))
			}
			return one(e.mk("copied@"+site, args...))
		case "append":
			if !isByteSlice(cc.Args[0].Type()) || len(args) != 2 {
				return nil, false
			}
			xs, k := e.bl(st, args[0])
			ys, l := e.bl(st, args[1])
			if k && l && len(xs)+len(ys) <= maxLayout {
				if len(ys) == 0 {
					return one(args[0])
				}
				return one(e.seq(append(append([]*term(nil), xs...), ys...)))
			}
			return one(e.mk("unbounded", args[0], args[1]))
		case "min", "max":
			r := args[0]
			for _, a := range args[1:] {
				x, k := intOf(r)
				y, l := intOf(a)
				if !k || !l {
					return nil, false
				}
				if bi.Name() == "min" && y < x || bi.Name() == "max" && y > x {
					r = a
				}
			}
			return one(r)
		}
		return nil, false
	}
	if kind, field, recv := protoMethod(cc); kind != "" && isProtoMsg(recv) && len(args) > 0 {
		return e.layoutField(st, cc, kind, field, args)
	}
	switch {
	case name == "bytes.Clone" || strings.HasPrefix(name, "slices.Clone") || strings.HasPrefix(name, "strings.Clone"):
		return one(e.snap(st, args[0]))
	case name == "bytes.NewReader" || name == "bytes.NewBuffer":
		t := fresh("reader")
		t.typ = cc.Signature().Results().At(0).Type()
		st.cells[e.mk("rd.src", t)] = args[0]
		st.cells[e.mk("rd.off", t)] = intTerm(e, 0)
		return one(t)
	case name == "bufio.NewScanner":
		r := unwrapIface(args[0])
		src, off := st.cells[e.mk("rd.src", r)], st.cells[e.mk("rd.off", r)]
		if src == nil {
			return nil, false
		}
		t := e.mk("scanner@"+site, r)
		st.facts[t] = 'N'
		st.cells[e.mk("scan.src", t)] = e.snap(st, src)
		st.cells[e.mk("scan.off", t)] = off
		st.cells[e.mk("scan.err", t)] = e.nilTerm()
		return one(t)
	case name == "(*bytes.Reader).Read" || name == "io.ReadFull" || name == "(*bytes.Buffer).Read":
		r := unwrapIface(args[0])
		if st.cells[e.mk("rd.src", r)] == nil {
			return nil, false
		}
		src, k := e.bl(st, st.cells[e.mk("rd.src", r)])
		off, l := intOf(st.cells[e.mk("rd.off", r)])
		dst, m := e.bl(st, args[1])
		if !k || !l || !m {
			return nil, false
		}
		n := int64(len(src)) - off
		err := e.nilTerm()
		if n > int64(len(dst)) {
			n = int64(len(dst))
		}
		if n == 0 && len(dst) > 0 || name == "io.ReadFull" && n < int64(len(dst)) {
			err = e.mk("nonnil")
		}
		e.put(st, args[1], 0, append([]*term(nil), src[off:off+n]...))
		st.cells[e.mk("rd.off", r)] = intTerm(e, off+n)
		return one(intTerm(e, n), err)
	case name == "(*bytes.Reader).ReadByte" || name == "(*bytes.Buffer).ReadByte":
		r := unwrapIface(args[0])
		if st.cells[e.mk("rd.src", r)] == nil {
			return nil, false
		}
		src, k := e.bl(st, st.cells[e.mk("rd.src", r)])
		off, l := intOf(st.cells[e.mk("rd.off", r)])
		if !k || !l {
			return nil, false
		}
		if off >= int64(len(src)) {
			return one(intTerm(e, 0), e.mk("nonnil"))
		}
		st.cells[e.mk("rd.off", r)] = intTerm(e, off+1)
		return one(src[off], e.nilTerm())
	case name == "encoding/binary.Read":
		r, p := unwrapIface(args[0]), unwrapIface(args[2])
		if st.cells[e.mk("rd.src", r)] == nil || p.typ == nil || derefType(p.typ) == nil {
			return nil, false
		}
		b, ok := derefType(p.typ).Underlying().(*types.Basic)
		n := int64(0)
		if ok {
			n = map[types.BasicKind]int64{types.Uint8: 1, types.Int8: 1, types.Uint16: 2, types.Int16: 2, types.Uint32: 4, types.Int32: 4, types.Uint64: 8, types.Int64: 8}[b.Kind()]
		}
		src, k := e.bl(st, st.cells[e.mk("rd.src", r)])
		off, l := intOf(st.cells[e.mk("rd.off", r)])
		if n == 0 || !k || !l || p.op != "obj" {
			return nil, false
		}
		if off+n > int64(len(src)) {
			st.cells[e.mk("rd.off", r)] = intTerm(e, int64(len(src)))
			return one(e.mk("nonnil"))
		}
		xs := append([]*term(nil), src[off:off+n]...)
		switch o := unwrapIface(args[1]).key; {
		case n == 1, strings.Contains(o, "BigEndian"), strings.Contains(o, "bigEndian"):
		case strings.Contains(o, "LittleEndian"), strings.Contains(o, "littleEndian"):
			for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
				xs[i], xs[j] = xs[j], xs[i]
			}
		default:
			return nil, false
		}
		v := xs[0]
		if n > 1 {
			v = e.mk("cat", xs...)
		}
		if b.Info()&types.IsUnsigned == 0 {
			v = e.mk("conv:"+types.TypeString(p.typ.Underlying().(*types.Pointer).Elem(), nil), v)
		}
		st.cells[p] = v
		st.cells[e.mk("rd.off", r)] = intTerm(e, off+n)
		return one(e.nilTerm())
	case name == "(*bytes.Reader).Len":
		r := args[0]
		if st.cells[e.mk("rd.src", r)] == nil {
			return nil, false
		}
		src, k := e.bl(st, st.cells[e.mk("rd.src", r)])
		off, l := intOf(st.cells[e.mk("rd.off", r)])
		if !k || !l {
			return nil, false
		}
		return one(intTerm(e, int64(len(src))-off))
	case strings.HasPrefix(name, "(*bytes.Buffer).Write"):
		at := e.mk("buf.data", args[0])
		cur, k := e.bl(st, valOr(st.cells[at], e.nilTerm()))
		ys, l := []*term{args[1]}, true
		res := []*term{e.nilTerm()}
		if name != "(*bytes.Buffer).WriteByte" {
			ys, l = e.bl(st, args[1])
			res = []*term{intTerm(e, int64(len(ys))), e.nilTerm()}
		}
		if !k || !l {
			return nil, false
		}
		st.cells[at] = e.seq(append(append([]*term(nil), cur...), ys...))
		return one(res...)
	case name == "(*bytes.Buffer).Bytes":
		return one(valOr(st.cells[e.mk("buf.data", args[0])], e.nilTerm()))
	case name == "(*bytes.Buffer).Grow":
		return one()
	case name == "encoding/hex.EncodeToString":
		if xs, ok := e.bl(st, args[0]); ok {
			return one(e.mk("hex", xs...))
		}
	case name == "strconv.ParseInt" || name == "strconv.ParseUint" || name == "strconv.Atoi":
		base := int64(10)
		if name != "strconv.Atoi" {
			base, _ = intOf(args[1])
		}
		if args[0].op == "hex" && base == 10 {
			t := e.mk("parsed", args[0].args...)
			err := e.mk("parseerr", t)
			err.typ = cc.Signature().Results().At(1).Type()
			return one(t, err)
		}
	case name == "time.Unix":
		if n, ok := intOf(args[1]); ok && n == 0 {
			return one(e.mk("time", args[0]))
		}
	case name == "(time.Time).UTC" || name == "(time.Time).In" || name == "(time.Time).Local":
		if args[0].op == "time" {
			return one(args[0])
		}
	case name == "(time.Time).Unix":
		if args[0].op == "time" {
			return one(args[0].args[0])
		}
	case strings.HasSuffix(name, "timestamppb.New"):
		if args[0].op == "time" {
			t := e.mk("timestamp", args[0].args[0])
			st.facts[t] = 'N'
			return one(t)
		}
	case strings.HasSuffix(name, "timestamppb.Timestamp).AsTime"), strings.HasSuffix(name, "timestamppb.Timestamp).GetSeconds"), strings.HasSuffix(name, "timestamppb.Timestamp).GetNanos"):
		sec, nano := (*term)(nil), intTerm(e, 0)
		t := unstored(args[0])
		switch {
		case e.nilness(st, t) == 'n':
			sec = intTerm(e, 0)
		case t.op == "timestamp":
			sec = t.args[0]
		case t.op == "obj":
			sec = intTerm(e, 0)
			for a, v := range st.cells {
				if strings.HasPrefix(a.op, "faddr") && a.args[0] == t {
					switch {
					case strings.HasPrefix(a.name, "Seconds|"):
						sec = v
					case strings.HasPrefix(a.name, "Nanos|"):
						nano = v
					}
				}
			}
		default:
			return nil, false
		}
		switch {
		case strings.HasSuffix(name, "GetSeconds"):
			return one(sec)
		case strings.HasSuffix(name, "GetNanos"):
			return one(nano)
		}
		return one(e.mk("time", sec))
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		little := strings.Contains(name, "little")
		meth := name[strings.LastIndex(name, ".")+1:]
		n := 0
		for s, k := range map[string]int{"16": 2, "32": 4, "64": 8} {
			if strings.HasSuffix(meth, s) {
				n = k
			}
		}
		if n == 0 {
			return nil, false
		}
		order := func(i int) int { // position of byte i of the encoding, counted from the highest
			if little {
				return n - 1 - i
			}
			return i
		}
		switch {
		case strings.HasPrefix(meth, "Uint"):
			bs, ok := e.bl(st, args[len(args)-1])
			if !ok || len(bs) < n {
				return nil, false
			}
			xs := make([]*term, n)
			for i := range xs {
				xs[order(i)] = bs[i]
			}
			return one(e.mk("cat", xs...))
		case strings.HasPrefix(meth, "AppendUint"), strings.HasPrefix(meth, "PutUint"):
			d, v := args[len(args)-2], args[len(args)-1]
			var xs []*term
			for i := 0; i < n; i++ {
				xs = append(xs, e.byteOf(v, n-1-order(i)))
			}
			if strings.HasPrefix(meth, "PutUint") {
				e.put(st, d, 0, xs)
				return one()
			}
			bs, ok := e.bl(st, d)
			if !ok {
				return one(e.mk("unbounded", d, v))
			}
			return one(e.seq(append(append([]*term(nil), bs...), xs...)))
		}
	}
	return nil, false
}

// layoutField: message fields are what was last stored in them.
func (e *tpath) layoutField(st *tstate, cc *ssa.CallCommon, kind, field string, args []*term) ([]*term, bool) {
	one := func(t ...*term) ([]*term, bool) { return t, true }
	m := unstored(args[0])
	k := m.key + "." + field
	v := st.fields[k]
	known := m.op == "obj"
	if e.nilness(st, m) == 'n' {
		known, v = true, nil
	}
	switch kind {
	case "Get":
		if v != nil {
			return one(unstored(v))
		}
		if known {
			return one(e.zero(cc.Signature().Results().At(0).Type()))
		}
		return one(e.mk("get:"+field, m))
	case "Has":
		yes, no := e.constTerm(constant.MakeBool(true)), e.constTerm(constant.MakeBool(false))
		switch {
		case v != nil:
			// setting a message to nil clears it, setting a scalar or bytes does not
			if isPointerLike(v.typOr(nil)) || v.op == "obj" || v.op == "timestamp" || v.op == "elem" || v.op == "nil" && !e.bytesField(cc, field) {
				switch e.nilness(st, v) {
				case 'n':
					return one(no)
				case 0:
					return one(e.not(e.mk("isnil", v)))
				}
			}
			return one(yes)
		case known:
			return one(no)
		}
		return one(e.mk("has:"+field, m))
	case "Set":
		val := args[1]
		if isByteSlice(cc.Args[1].Type()) {
			val = e.snap(st, val)
		}
		if tv := e.truth(st, val); tv != 0 && val.cst == nil && isBool(cc.Args[1].Type()) {
			val = e.constTerm(constant.MakeBool(tv == 't'))
		}
		st.fields[k] = val
		return one()
	case "Clear":
		delete(st.fields, k)
		return one()
	}
	return nil, false
}

// bytesField: the field of the receiver holds bytes.
func (e *tpath) bytesField(cc *ssa.CallCommon, field string) bool {
	o, _, _ := types.LookupFieldOrMethod(cc.StaticCallee().Signature.Recv().Type(), true, nil, "Get"+field)
	f, ok := o.(*types.Func)
	return ok && isByteSlice(f.Type().(*types.Signature).Results().At(0).Type())
}

// digits: a number as decimal digits, where each is known to be the value of four
// bits (taken to be a decimal digit) or a constant.
func (e *tpath) digits(t *term) map[int][4]bit {
	t = unstored(t)
	if e.anyDigit {
		return nil
	}
	if n, ok := intOf(t); ok {
		if n < 0 {
			return nil
		}
		out := map[int][4]bit{}
		for p := 0; n > 0; p, n = p+1, n/10 {
			if d := n % 10; d > 0 {
				var b [4]bit
				for i := range b {
					b[i].one = d>>i&1 == 1
				}
				out[p] = b
			}
		}
		return out
	}
	pow := func(t *term) int {
		n, ok := intOf(t)
		k := 0
		for ok && n >= 10 && n%10 == 0 {
			n, k = n/10, k+1
		}
		if !ok || n != 1 {
			return -1
		}
		return k
	}
	op := t.op
	if i := strings.IndexByte(op, ':'); strings.HasPrefix(op, "bin") && i > 0 {
		switch op[i+1:] {
		case "+", "|":
			a, b := e.digits(t.args[0]), e.digits(t.args[1])
			if a == nil || b == nil {
				return nil
			}
			out := map[int][4]bit{}
			for p, d := range a {
				out[p] = d
			}
			for p, d := range b {
				if _, ok := out[p]; ok || op[i+1:] == "|" {
					return nil
				}
				out[p] = d
			}
			return out
		case "*", "/", "%":
			x, c := t.args[0], t.args[1]
			if x.cst != nil && op[i+1:] == "*" {
				x, c = c, x
			}
			k := pow(c)
			a := e.digits(x)
			if k < 0 || a == nil {
				return nil
			}
			out := map[int][4]bit{}
			for p, d := range a {
				switch {
				case op[i+1:] == "*":
					out[p+k] = d
				case op[i+1:] == "/" && p >= k:
					out[p-k] = d
				case op[i+1:] == "%" && p < k:
					out[p] = d
				}
			}
			return out
		}
	}
	if strings.HasPrefix(op, "conv:") {
		a := e.digits(t.args[0])
		max := map[int]int{1: 2, 2: 4, 4: 9, 8: 18}[convBytes(op)]
		for p := range a {
			if p >= max {
				return nil
			}
		}
		return a
	}
	if op == "parsed" {
		out := map[int][4]bit{}
		for i, b := range t.args {
			bs := e.bits(b)
			p := 2 * (len(t.args) - 1 - i)
			out[p] = [4]bit(bs[0:4])
			out[p+1] = [4]bit(bs[4:8])
		}
		return out
	}
	switch {
	case op == "in" || op == "byte" || op == "cat" || strings.HasPrefix(op, "bin:&") || strings.HasPrefix(op, "bin:>>"):
		bs := e.bits(t)
		for _, b := range bs[4:] {
			if b != (bit{}) {
				return nil
			}
		}
		return map[int][4]bit{0: [4]bit(bs[0:4])}
	}
	return nil
}

var _ = fmt.Sprint
