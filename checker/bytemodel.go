package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Byte strings as terms: what a serialiser has appended so far is a chain of
// append/concat/u16 terms, which flatten turns into single bytes and opaque
// stretches; lengths of such chains are linear expressions over the stretches.

// byteCall models the library calls that serialisers are made of.
func (e *tpath) byteCall(st *tstate, cc *ssa.CallCommon, name string, args []*term) ([]*term, bool) {
	one := func(t *term) ([]*term, bool) { return []*term{t}, true }
	if cc.IsInvoke() && args[0].op == "iface" && args[0].typ != nil && isProtoMsg(args[0].typ) {
		meth := cc.Method.Name()
		m := args[0].args[0]
		switch {
		case meth == "ProtoReflect":
			return one(e.mk("protoreflect", m))
		case strings.HasPrefix(meth, "Get") && len(meth) > 3 && len(args) == 1:
			field := meth[3:]
			if v := st.fields[m.key+"."+field]; v != nil {
				return one(e.mk("stored:"+field, m, v))
			}
			return one(e.mk("get:"+field, m))
		}
	}
	if len(args) > 0 && args[0].op == "protoreflect" && cc.IsInvoke() && cc.Method.Name() == "IsValid" {
		return one(e.not(e.mk("isnil", args[0].args[0])))
	}
	switch name {
	case "bytes.NewReader", "bytes.NewBuffer":
		t := e.mk("reader", args[0])
		t.typ = cc.Signature().Results().At(0).Type()
		return one(t)
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString":
		at := e.mk("buf.data", args[0])
		cur := valOr(st.cells[at], e.nilTerm())
		if name == "(*bytes.Buffer).WriteByte" {
			st.cells[at] = e.mk("append", cur, args[1])
			return one(e.nilTerm())
		}
		if xs, ok := e.elems(st, args[1]); ok {
			st.cells[at] = e.mk("append", append([]*term{cur}, xs...)...)
		} else {
			st.cells[at] = e.mk("concat", cur, args[1])
		}
		return []*term{e.canon(st, e.mk("len", unstored(args[1]))), e.nilTerm()}, true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len":
		t := valOr(st.cells[e.mk("buf.data", args[0])], e.nilTerm())
		if args[0].op != "obj" {
			return nil, false
		}
		if strings.HasSuffix(name, "Len") {
			return one(e.canon(st, e.mk("len", t)))
		}
		return one(t)
	case "(*bytes.Buffer).Grow":
		return []*term{}, true
	case "bufio.NewScanner":
		r := unwrapIface(args[0])
		if r.op != "reader" {
			return nil, false
		}
		t := e.mk("scanner", r)
		st.facts[t] = 'N'
		st.cells[e.mk("scan.src", t)] = r.args[0]
		st.cells[e.mk("scan.off", t)] = intTerm(e, 0)
		st.cells[e.mk("scan.err", t)] = e.nilTerm()
		st.cells[e.mk("scan.max", t)] = intTerm(e, 64*1024)
		return one(t)
	case "(*bufio.Scanner).Buffer":
		st.cells[e.mk("scan.max", args[0])] = args[2]
		return []*term{}, true
	case "(*bufio.Scanner).Split":
		st.cells[e.mk("scan.split", args[0])] = args[1]
		return []*term{}, true
	case "(*bufio.Scanner).Bytes":
		if t := st.cells[e.mk("scan.tok", args[0])]; t != nil {
			return one(t)
		}
	case "(*bufio.Scanner).Err":
		if t := st.cells[e.mk("scan.err", args[0])]; t != nil {
			return one(t)
		}
	case "reflect.ValueOf":
		if args[0].op == "iface" {
			return one(e.mk("rvalue", args[0].args[0]).withType(args[0].typ))
		}
	case "(reflect.Value).IsValid", "(reflect.Value).Kind", "(reflect.Value).IsNil":
		if args[0].op != "rvalue" {
			return nil, false
		}
		switch name {
		case "(reflect.Value).IsValid":
			return one(e.constTerm(constant.MakeBool(true)))
		case "(reflect.Value).IsNil":
			return one(e.mk("isnil", args[0].args[0]))
		}
		if isPointerLike(args[0].typ) {
			return one(intTerm(e, 22))
		}
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		little := strings.Contains(name, "little")
		meth := name[strings.LastIndex(name, ".")+1:]
		var n int
		switch {
		case strings.HasSuffix(meth, "16"):
			n = 2
		case strings.HasSuffix(meth, "32"):
			n = 4
		case strings.HasSuffix(meth, "64"):
			n = 8
		default:
			return nil, false
		}
		bs := func(v *term) []*term {
			var out []*term
			for i := 0; i < n; i++ {
				k := n - 1 - i
				if little {
					k = i
				}
				out = append(out, e.byteOf(v, k))
			}
			return out
		}
		switch {
		case strings.HasPrefix(meth, "Uint"):
			b, lo, _, ok := e.rng(st, args[len(args)-1])
			if !ok {
				return nil, false
			}
			var xs []*term
			for i := 0; i < n; i++ {
				k := i
				if little {
					k = n - 1 - i
				}
				xs = append(xs, e.byteAt(b, lo.add(linT{k: int64(k)}, 1)))
			}
			return one(e.mk("cat", xs...))
		case strings.HasPrefix(meth, "AppendUint") && len(args) >= 2:
			return one(e.mk("append", append([]*term{args[len(args)-2]}, bs(args[len(args)-1])...)...))
		case strings.HasPrefix(meth, "PutUint") && len(args) >= 2:
			d := args[len(args)-2]
			base, low := d, intTerm(e, 0)
			if d.op == "slice" {
				base = d.args[0]
				if d.args[1].op != "_" {
					low = d.args[1]
				}
			}
			for i, b := range bs(args[len(args)-1]) {
				st.cells[e.mk("iaddr", base, e.plus(low, int64(i)))] = b
			}
			return []*term{}, true
		}
	}
	return nil, false
}

func (t *term) withType(ty types.Type) *term { t.typ = ty; return t }

func (e *tpath) not(t *term) *term {
	if t.op == "not" {
		return t.args[0]
	}
	if t.cst != nil && t.cst.Kind() == constant.Bool {
		return e.constTerm(constant.MakeBool(!constant.BoolVal(t.cst)))
	}
	return e.mk("not", t)
}

func (e *tpath) plus(t *term, n int64) *term {
	if n == 0 {
		return t
	}
	if k, ok := intOf(t); ok {
		return intTerm(e, k+n)
	}
	return e.mk("bin:+", t, intTerm(e, n))
}

// byteOf: byte k (0 the lowest) of an integer.
func (e *tpath) byteOf(v *term, k int) *term {
	if n, ok := intOf(v); ok {
		return intTerm(e, int64(byte(uint64(n)>>(8*k))))
	}
	for strings.HasPrefix(v.op, "conv:") && k < convBytes(v.op) {
		v = v.args[0]
	}
	return e.mk("byte", v, intTerm(e, int64(k)))
}

func convBytes(op string) int {
	switch strings.TrimPrefix(op, "conv:") {
	case "uint8", "byte", "int8":
		return 1
	case "uint16", "int16":
		return 2
	case "uint32", "int32":
		return 4
	case "int", "uint", "int64", "uint64":
		return 8
	}
	return 0
}

// normByte puts a byte-sized term into the form byteOf gives.
func (e *tpath) normByte(t *term) *term {
	if n, ok := intOf(t); ok {
		return intTerm(e, int64(byte(n)))
	}
	if t.op == "byte" {
		return t
	}
	k := int64(0)
	v := t
	for {
		if strings.HasPrefix(v.op, "conv:") {
			v = v.args[0]
			continue
		}
		if v.op == "bin:>>" {
			if n, ok := intOf(v.args[1]); ok && n%8 == 0 {
				k += n / 8
				v = v.args[0]
				continue
			}
		}
		if v.op == "bin:&" {
			if n, ok := intOf(v.args[1]); ok && n == 0xff && k == 0 {
				v = v.args[0]
				continue
			}
		}
		break
	}
	if v == t {
		return t
	}
	return e.mk("byte", v, intTerm(e, k))
}

type chunk struct {
	b   *term   // a single byte
	seq *term   // or a stretch of bytes
	app []*term // how the stretch came about: the function (as "fn" term) and its other arguments
}

// flatten lists what a chain of appends holds; ok is false when the base of the
// chain is not known to be empty.
func (e *tpath) flatten(st *tstate, t *term, empty func(*term) bool) ([]chunk, bool) {
	switch {
	case t.op == "nil" || empty(t):
		return nil, true
	case t.op == "obj" && t.typ != nil:
		if _, ok := t.typ.Underlying().(*types.Slice); ok && st.cells[t] == nil && len(st.content[t]) == 0 {
			return nil, true // a make with length zero
		}
	case t.op == "append":
		cs, ok := e.flatten(st, t.args[0], empty)
		for _, a := range t.args[1:] {
			cs = append(cs, chunk{b: e.normByte(a)})
		}
		return cs, ok
	case t.op == "concat":
		cs, ok := e.flatten(st, t.args[0], empty)
		if ds, k := e.flatten(st, t.args[1], func(*term) bool { return false }); k && t.args[1].op != "obj" {
			return append(cs, ds...), ok
		}
		return append(cs, chunk{seq: unstored(t.args[1])}), ok
	case t.op == "ret0" && strings.HasPrefix(t.args[0].op, "app:"):
		a := t.args[0]
		cs, ok := e.flatten(st, a.args[0], empty)
		return append(cs, chunk{seq: e.mk("content", append([]*term{e.mk(a.op)}, a.args[1:]...)...), app: a.args[1:]}), ok
	case t.op == "slice" && t.args[2].cst != nil && t.args[2].cst.ExactString() == "0":
		return nil, true
	case t.op == "slice" && t.args[1].op == "_" && t.args[2].op == "_" && t.args[0].op != "obj":
		return e.flatten(st, t.args[0], empty)
	}
	return nil, false
}

// bit is one bit of an integer: a constant, or bit i of a term.
type bit struct {
	src *term
	i   int
	one bool
}

// bits: the bits of an integer term, the lowest first; ok is false where the
// term's structure is not known.
func (e *tpath) bits(t *term) []bit {
	out := make([]bit, 64)
	opaque := func() []bit {
		for i := range out {
			out[i] = bit{src: t, i: i}
		}
		return out
	}
	if n, ok := intOf(t); ok {
		for i := range out {
			out[i].one = uint64(n)>>i&1 == 1
		}
		return out
	}
	t = unstored(t)
	if n, ok := intOf(t); ok {
		for i := range out {
			out[i].one = uint64(n)>>i&1 == 1
		}
		return out
	}
	const0 := bit{}
	zero := func(b bit) bool { return b == const0 }
	switch {
	case t.op == "in":
		for i := 0; i < 8; i++ {
			out[i] = bit{src: t, i: i}
		}
		return out
	case t.op == "cat":
		for k, a := range t.args {
			for i, b := range e.bits(a)[:8] {
				out[8*(len(t.args)-1-k)+i] = b
			}
		}
		return out
	case t.op == "byte":
		k, _ := intOf(t.args[1])
		copy(out, e.bits(t.args[0])[8*k:8*k+8])
		return out
	case strings.HasPrefix(t.op, "conv:"):
		w := 8 * convBytes(t.op)
		if w == 0 {
			return opaque()
		}
		x := e.bits(t.args[0])
		if w == 64 {
			return x
		}
		copy(out, x[:w])
		if strings.HasPrefix(t.op, "conv:int") {
			for i := w; i < 64; i++ {
				out[i] = x[w-1] // the sign
			}
		}
		return out
	case t.op == "bin:<<" || t.op == "bin:>>":
		n, ok := intOf(t.args[1])
		if !ok || n < 0 || n > 63 {
			return opaque()
		}
		x := e.bits(t.args[0])
		if t.op == "bin:<<" {
			copy(out[n:], x[:64-n])
		} else {
			if !zero(x[63]) {
				// the sign is not known: only the bits that stay below it are
				copy(out, x[n:])
				for i := 64 - int(n); i < 64; i++ {
					out[i] = bit{src: t, i: i}
				}
				return out
			}
			copy(out, x[n:])
		}
		return out
	case t.op == "bin:|" || t.op == "bin:&" || t.op == "bin:^":
		x, y := e.bits(t.args[0]), e.bits(t.args[1])
		isOne := func(b bit) bool { return b.src == nil && b.one }
		for i := range out {
			a, b := x[i], y[i]
			switch {
			case t.op != "bin:&" && zero(a):
				out[i] = b
			case t.op != "bin:&" && zero(b):
				out[i] = a
			case t.op == "bin:&" && (zero(a) || zero(b)):
			case t.op == "bin:&" && isOne(a):
				out[i] = b
			case t.op == "bin:&" && isOne(b):
				out[i] = a
			case t.op != "bin:^" && a == b:
				out[i] = a
			case t.op == "bin:|" && (isOne(a) || isOne(b)):
				out[i] = bit{one: true}
			default:
				out[i] = bit{src: t, i: i}
			}
		}
		return out
	case t.op == "un:^":
		for i, b := range e.bits(t.args[0]) {
			if b.src == nil {
				out[i] = bit{one: !b.one}
			} else {
				out[i] = bit{src: t, i: i}
			}
		}
		return out
	case t.op == "bin:&^":
		x, y := e.bits(t.args[0]), e.bits(t.args[1])
		for i := range out {
			switch {
			case zero(x[i]) || y[i].src == nil && y[i].one:
			case zero(y[i]):
				out[i] = x[i]
			default:
				out[i] = bit{src: t, i: i}
			}
		}
		return out
	case e.layout && (strings.HasSuffix(t.op, ":/") || strings.HasSuffix(t.op, ":%")):
		ds := e.digits(t)
		for p := range ds {
			if p > 0 {
				return opaque()
			}
		}
		if ds == nil {
			return opaque()
		}
		if d, ok := ds[0]; ok {
			copy(out, d[:])
		}
		return out
	case strings.HasPrefix(t.op, "bin") && strings.HasSuffix(t.op, ":+"):
		x, y := e.bits(t.args[0]), e.bits(t.args[1])
		for i := range out {
			if !zero(x[i]) && !zero(y[i]) {
				return opaque()
			}
		}
		for i := range out {
			out[i] = x[i]
			if zero(x[i]) {
				out[i] = y[i]
			}
		}
		return out
	}
	return opaque()
}

// sameByte: a byte-sized term as the input byte it equals, if it is one.
func (e *tpath) sameByte(t *term) (*term, bool) {
	bs := e.bits(t)[:8]
	for i, b := range bs {
		if b.src == nil || b.src.op != "in" || b.src != bs[0].src || b.i != i {
			return nil, false
		}
	}
	return bs[0].src, true
}

type linT struct {
	k int64
	c map[string]int64
}

func (l linT) add(o linT, f int64) linT {
	n := linT{l.k + f*o.k, map[string]int64{}}
	for k, v := range l.c {
		n.c[k] += v
	}
	for k, v := range o.c {
		n.c[k] += f * v
	}
	for k, v := range n.c {
		if v == 0 {
			delete(n.c, k)
		}
	}
	return n
}

func (l linT) eq(o linT) bool { d := l.add(o, -1); return d.k == 0 && len(d.c) == 0 }

// seqLen: the number of bytes of a stretch.
func (e *tpath) seqLen(t *term) linT {
	t = unstored(t)
	if e.syms == nil {
		e.syms = map[string]*term{}
	}
	e.syms["#"+t.key] = e.mk("len", t)
	return linT{0, map[string]int64{"#" + t.key: 1}}
}

// stretchLen: the number of bytes of a stretch, by its ends when it is a part of
// a longer one.
func (e *tpath) stretchLen(st *tstate, t *term) linT {
	if _, lo, hi, ok := e.rng(st, t); ok {
		return hi.add(lo, -1)
	}
	return e.seqLen(t)
}

// linOf: an integer term as a linear expression over lengths of stretches and
// numbers read from the input.
func (e *tpath) linOf(st *tstate, t *term, empty func(*term) bool) linT {
	if n, ok := intOf(t); ok {
		return linT{n, nil}
	}
	if l, ok := e.lins[t]; ok {
		return l
	}
	switch {
	case t.op == "len":
		x := unstored(t.args[0])
		if cs, ok := e.flatten(st, x, empty); ok {
			return e.chunksLen(st, cs)
		}
		if _, lo, hi, ok := e.rng(st, x); ok {
			return hi.add(lo, -1)
		}
		return e.seqLen(x)
	case t.op == "bin:+":
		return e.linOf(st, t.args[0], empty).add(e.linOf(st, t.args[1], empty), 1)
	case t.op == "bin:-":
		return e.linOf(st, t.args[0], empty).add(e.linOf(st, t.args[1], empty), -1)
	case strings.HasPrefix(t.op, "conv:"):
		if n, w := e.valueBytes(t.args[0]), convBytes(t.op); w > 0 && (n < w || n == w && (w == 8 || !strings.HasPrefix(t.op, "conv:int"))) {
			return e.linOf(st, t.args[0], empty)
		}
	}
	if e.syms == nil {
		e.syms = map[string]*term{}
	}
	e.syms[t.key] = t
	return linT{0, map[string]int64{t.key: 1}}
}

// valueBytes: how many bytes the value of an integer term can need (8: unknown,
// or a length).
func (e *tpath) valueBytes(t *term) int {
	switch {
	case t.op == "cat":
		return len(t.args)
	case t.op == "in":
		return 1
	case strings.HasPrefix(t.op, "conv:"):
		if n := e.valueBytes(t.args[0]); n < convBytes(t.op) {
			return n
		}
		return convBytes(t.op)
	}
	return 8
}

func (l linT) String() string {
	var ks []string
	for k := range l.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := fmt.Sprint(l.k)
	for _, k := range ks {
		s += fmt.Sprintf("%+d*%s", l.c[k], k)
	}
	return s
}

func never(*term) bool { return false }

// canon gives integer terms with the same linear expression the same term.
func (e *tpath) canon(st *tstate, t *term) *term {
	if t.cst != nil {
		return t
	}
	l := e.linOf(st, t, never)
	if len(l.c) == 0 {
		return intTerm(e, l.k)
	}
	if len(l.c) == 1 && l.k == 0 {
		for k, v := range l.c {
			if s := e.syms[k]; v == 1 && s != nil {
				return s
			}
		}
	}
	if e.lins == nil {
		e.lins = map[*term]linT{}
	}
	n := e.mk("lin:" + l.String())
	e.lins[n] = l
	return n
}

// intOp: sums and differences of machine-word integers are kept as linear
// expressions.
func (e *tpath) intOp(st *tstate, x *ssa.BinOp, a, b *term) (*term, bool) {
	bt, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return nil, false
	}
	wide := bt.Kind() == types.Int || bt.Kind() == types.Int64
	switch x.Op {
	case token.ADD, token.SUB:
		if a.cst != nil && b.cst != nil {
			return nil, false
		}
		if !wide {
			return e.mk(fmt.Sprintf("bin%d:%s", convBytes("conv:"+bt.Name()), x.Op), a, b), true
		}
		return e.canon(st, e.mk("bin:"+x.Op.String(), a, b)), true
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !wide || a.cst != nil && b.cst != nil {
			return nil, false
		}
		d := e.linOf(st, a, never).add(e.linOf(st, b, never), -1)
		if len(d.c) == 0 {
			v := constant.Compare(constant.MakeInt64(d.k), x.Op, constant.MakeInt64(0))
			return e.constTerm(constant.MakeBool(v)), true
		}
		return e.bin(x.Op, e.canon(st, a), e.canon(st, b), x), true
	}
	return nil, false
}

// rng: the part of a base byte string a slice term names.
func (e *tpath) rng(st *tstate, t *term) (base *term, lo, hi linT, ok bool) {
	t = unstored(t)
	switch {
	case t.op == "slice" && t.args[0].op != "obj":
		b, l0, h0, ok := e.rng(st, t.args[0])
		if !ok {
			return nil, lo, hi, false
		}
		lo, hi = l0, h0
		if t.args[1].op != "_" {
			lo = l0.add(e.linOf(st, t.args[1], never), 1)
		}
		if t.args[2].op != "_" {
			hi = l0.add(e.linOf(st, t.args[2], never), 1)
		}
		return b, lo, hi, true
	case t.op == "slice" && t.args[1].op == "_" && t.args[2].op == "_":
		return e.rng(st, t.args[0])
	case t.op == "obj":
		if v := st.cells[e.mk("filled", t)]; v != nil {
			return e.rng(st, v)
		}
		return nil, lo, hi, false
	case t.op == "append" || t.op == "concat":
		if cs, ok := e.flatten(st, t, never); ok && len(cs) == 1 && cs[0].seq != nil && len(cs[0].app) == 0 {
			return e.rng(st, cs[0].seq)
		}
		return nil, lo, hi, false
	case t.callee() == "bytes.Clone" || strings.HasPrefix(t.callee(), "slices.Clone"):
		return e.rng(st, t.args[0])
	case t.op == "nil":
		return nil, lo, hi, false
	}
	return t, linT{}, e.seqLen(t), true
}

// inByte: one byte of a base byte string.
func (e *tpath) inByte(st *tstate, s, idx *term) (*term, bool) {
	b, lo, _, ok := e.rng(st, s)
	if !ok {
		return nil, false
	}
	return e.byteAt(b, lo.add(e.linOf(st, idx, never), 1)), true
}

func (e *tpath) byteAt(base *term, at linT) *term {
	t := e.mk("in:"+at.String(), base)
	t.op = "in"
	if e.lins == nil {
		e.lins = map[*term]linT{}
	}
	if e.inAt == nil {
		e.inAt = map[*term]linT{}
	}
	e.inAt[t] = at
	return t
}

// copied: a whole buffer filled from a string of its own length is that string.
func (e *tpath) copied(st *tstate, dst, src *term) {
	o := dst
	if o.op == "slice" {
		if o.args[1].op != "_" || o.args[2].op != "_" {
			delete(st.cells, e.mk("filled", baseObj(o)))
			return
		}
		o = o.args[0]
	}
	n := st.cells[e.mk("makelen", o)]
	if o.op != "obj" || n == nil {
		return
	}
	delete(st.cells, e.mk("filled", o))
	if _, lo, hi, ok := e.rng(st, src); ok && e.linOf(st, n, never).eq(hi.add(lo, -1)) {
		st.cells[e.mk("filled", o)] = src
	}
}

// scan models bufio.Scanner over a byte string with a split function: the split
// function is asked for the next token at the current place. Buffering does not
// show, because a split function that wants more data is asked again with more.
func (e *tpath) scan(st *tstate, sc *term, ctx string, depth int) ([]toutcome, bool) {
	src, split := st.cells[e.mk("scan.src", sc)], st.cells[e.mk("scan.split", sc)]
	if src == nil || split == nil || split.fn == nil {
		return nil, false
	}
	off := st.cells[e.mk("scan.off", sc)]
	n, _ := intOf(valOr(st.cells[e.mk("scan.n", sc)], intTerm(e, 0)))
	data := e.mk("slice", src, off, e.mk("_"))
	atEOF := e.mk(fmt.Sprintf("atEOF#%d", n), sc)
	var outs []toutcome
	for _, o := range e.exec(split.fn, []*term{data, atEOF}, split.args, st.clone(), ctx, depth+1) {
		if len(o.res) != 3 {
			return nil, false
		}
		s := o.st
		set := func(k string, v *term) { s.cells[e.mk("scan."+k, sc)] = v }
		yes, no := e.constTerm(constant.MakeBool(true)), e.constTerm(constant.MakeBool(false))
		switch {
		case e.nilness(s, o.res[2]) == 'N':
			set("err", e.mk("nonnil"))
			outs = append(outs, toutcome{st: s, res: []*term{no}})
		case e.nilness(s, o.res[1]) == 'n':
			if e.truth(s, atEOF) == 'f' {
				continue // asked again with more data
			}
			set("err", e.nilTerm())
			set("stop", data)
			// data the split function skips
			set("off", e.canon(s, e.mk("bin:+", off, o.res[0])))
			outs = append(outs, toutcome{st: s, res: []*term{no}})
		default:
			if n >= int64(e.maxScan) {
				continue
			}
			set("off", e.canon(s, e.mk("bin:+", off, o.res[0])))
			set("tok", o.res[1])
			set("n", intTerm(e, n+1))
			outs = append(outs, toutcome{st: s, res: []*term{yes}})
		}
	}
	return outs, true
}

func (e *tpath) chunksLen(st *tstate, cs []chunk) linT {
	l := linT{}
	for _, c := range cs {
		if c.b != nil {
			l.k++
		} else {
			l = l.add(e.stretchLen(st, c.seq), 1)
		}
	}
	return l
}

// patched applies the bytes that were stored at known positions of the chain.
func (e *tpath) patched(st *tstate, cs []chunk, empty func(*term) bool) []chunk {
	out := append([]chunk(nil), cs...)
	for a, v := range st.cells {
		if a.op != "iaddr" || len(a.args) != 2 {
			continue
		}
		if b, ok := e.flatten(st, a.args[0], empty); !ok || a.args[0].op == "obj" || len(b) == 0 || len(b) > len(cs) {
			continue
		}
		at := e.linOf(st, a.args[1], empty)
		for i := range cs {
			if cs[i].b != nil && e.chunksLen(st, cs[:i]).eq(at) {
				out[i].b = e.normByte(v)
			}
		}
	}
	return out
}
