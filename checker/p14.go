package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P14"] = check{level: "other", run: runLayout} }

// P14: readers and writers of fixed layouts agree on where each field is.
//
// The reader of an element is followed over an input of its size in which every
// byte is a symbol of its own; the writer is then followed over each message the
// reader can return. A bit of the output must be the bit of the input at the same
// place, by way of a field; where no field was read, it may be the retained raw
// bytes' or anything constant.

type layoutPair struct {
	rd, wr sizeFn
	n      int64
	size   int64 // size argument for the writer, if it takes one
}

// maxBad: unreadable records on one path.
const maxBad = 2

type recPart struct {
	key       string
	n         int64
	data, msg int
	fails     bool // the reader can refuse bytes of the right number
}

type layouts struct {
	c       *Ctx
	r       *Report
	enums   map[string]*enumDesc
	proto   int // extension field with the protocol value
	leafR   map[*ssa.Function]string
	leafW   map[*ssa.Function]string
	recR    map[*ssa.Function]recPart // records that are opaque parts of files
	recW    map[*ssa.Function]recPart
	codec   map[*ssa.Function]int
	seen    map[string]bool
	bits    int
	coarse  int
	paths   int
	undec   []string
	pairs   int
	budget  int
	entries int               // lists of entries counted (P26)
	ends    int               // ends of writers looked at (P28)
	values  int               // bytes compared by value over unchanged messages
	flags   map[int64][]*term // boolean fields read from one byte, of the message at hand
	done    map[string]bool   // bytes compared for the message at hand
}

func (k *layouts) find(fn *ssa.Function, what, msg string) {
	if k.seen[fname(fn)+what] {
		return
	}
	k.seen[fname(fn)+what] = true
	k.r.add(Finding{Rule: "position", Fn: fname(fn), What: what, Pos: relPos(k.c.P.SSA.Fset.Position(fn.Pos())), Msg: msg})
}

// leafWriter: bytes, message and possibly a size in, bytes and error out.
func leafWriter(f *ssa.Function) (data, msg, size int, ok bool) {
	data, msg, size = -1, -1, -1
	res := f.Signature.Results()
	if res.Len() != 2 || !isByteSlice(res.At(0).Type()) || !isErrorType(res.At(1).Type()) {
		return
	}
	for i, p := range f.Params {
		switch {
		case isByteSlice(p.Type()) && data < 0:
			data = i
		case isProtoMsg(p.Type()) && msg < 0:
			msg = i
		case isInt(p.Type()) && size < 0:
			size = i
		default:
			if _, st := derefType(p.Type()).Underlying().(*types.Struct); !st {
				return
			}
		}
	}
	return data, msg, size, data >= 0 && msg >= 0
}

// noLists: no repeated or message fields, so that the element is one string.
func noLists(t types.Type) bool {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !strings.HasPrefix(f.Name(), "xxx_hidden_") {
			continue
		}
		ft := f.Type()
		if isProtoMsg(ft) {
			return false
		}
		if p, ok := ft.(*types.Pointer); ok {
			ft = p.Elem()
		}
		if s, ok := ft.Underlying().(*types.Slice); ok && !isByteElem(s) {
			return false
		}
	}
	return true
}

// codecKind: 1 for functions from a code to an enum value by the schema's
// annotations, 2 for the way back.
func (k *layouts) codecKind(f *ssa.Function) int {
	if v, ok := k.codec[f]; ok {
		return v
	}
	k.codec[f] = 0
	res := f.Signature.Results()
	if len(f.Params) != 1 || res.Len() == 0 || res.Len() > 2 || !isRepoFunc(f) {
		return 0
	}
	enum := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && k.enums[n.Obj().Pkg().Path()+"."+n.Obj().Name()] != nil
	}
	kind := 0
	switch {
	case enum(res.At(0).Type()) && isInt(f.Params[0].Type()) && !enum(f.Params[0].Type()):
		kind = 1
	case enum(f.Params[0].Type()) && isInt(res.At(0).Type()) && !enum(res.At(0).Type()):
		kind = 2
	}
	if kind == 0 || res.Len() == 2 && !isErrorType(res.At(1).Type()) {
		return 0
	}
	refl := false
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function, d int)
	rec = func(g *ssa.Function, d int) {
		if g == nil || seen[g] || d > 3 || len(g.Blocks) == 0 {
			return
		}
		seen[g] = true
		if loopsOverEnum(g.Blocks[0]) {
			refl = true
			return
		}
		for _, ci := range callsOf(g) {
			if h := ci.Common().StaticCallee(); h != nil && isRepoFunc(h) {
				rec(h, d+1)
			}
		}
	}
	rec(f, 0)
	if refl {
		k.codec[f] = kind
	}
	return k.codec[f]
}

func (k *layouts) enumOf(t types.Type) *enumDesc {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	return k.enums[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

func newLayouts(c *Ctx, r *Report) *layouts {
	k := &layouts{c: c, r: r, enums: map[string]*enumDesc{}, proto: -1, leafR: map[*ssa.Function]string{}, leafW: map[*ssa.Function]string{}, codec: map[*ssa.Function]int{}, seen: map[string]bool{}}
	enums, _, _ := c.descriptors()
	for _, e := range enums {
		k.enums[e.goPkg+"."+e.name] = e
	}
	for g, n := range c.extFields() {
		if g.Name() == "E_ProtocolEnumValue" {
			k.proto = n
		}
	}
	return k
}

// textPairs: unsized strings are opaque inside other elements, and followed for short
// lengths.
func (k *layouts) textPairs(readers []sizeFn, leafKey map[string]bool) []layoutPair {
	var leaves []layoutPair
	for _, f := range sortedFuncs(k.c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) {
			continue
		}
		d, m, sz, ok := leafWriter(f)
		if !ok || !leafKey[elemKey(f.Params[m].Type())] {
			continue
		}
		k.leafW[f] = elemKey(f.Params[m].Type())
		for _, s := range readers {
			if k.leafR[s.f] != "" && s.key == k.leafW[f] {
				for _, n := range []int64{2, 4} {
					p := layoutPair{rd: s, wr: sizeFn{f: f, data: d, msg: m, key: s.key}, n: n, size: -1}
					if sz >= 0 {
						p.size = n
					}
					leaves = append(leaves, p)
				}
			}
		}
	}
	return leaves
}

// fixedPairs: readers and writers of the elements with one size; the readers of
// unsized strings are noted on the way.
func (k *layouts) fixedPairs() (pairs []layoutPair, readers []sizeFn, leafKey map[string]bool) {
	scope := map[*ssa.Function]bool{}
	c := k.c
	e := newNumEng(c)
	var writers []sizeFn
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) || strings.HasSuffix(funcPkg(f).Path(), "/internal/vu") {
			continue
		}
		if s, ok := readerShape(f); ok {
			readers = append(readers, s)
			scope[f] = true
		} else if s, ok := writerShape(f); ok {
			writers = append(writers, s)
			scope[f] = true
		}
	}
	readers, writers = withoutParts(c, readers), withoutParts(c, writers)
	var roots []*ssa.Function
	for f := range scope {
		roots = append(roots, f)
	}
	e.scope = c.P.reach(roots...)
	leafKey = map[string]bool{}
	for _, s := range readers {
		var mt types.Type
		if s.msg >= 0 {
			mt = s.f.Params[s.msg].Type()
		} else {
			mt = s.f.Signature.Results().At(0).Type()
		}
		u := e.analyse(s.f).unit
		lo, hi, any := u.lenBounds(s.data)
		if !any {
			continue
		}
		if lo == nil {
			lo = new(int64)
		}
		fixed := hi != nil && *lo == *hi || hi == nil && *lo > 0 && (s.msg < 0 && !isProtoMsg(mt) || !sizedMessage(s.f, s.msg))
		if !fixed {
			if isProtoMsg(mt) && noLists(mt) && hi == nil && *lo < 4 {
				leafKey[s.key] = true
				k.leafR[s.f] = s.key
			}
			continue
		}
		for _, w := range writers {
			if w.key == s.key {
				pairs = append(pairs, layoutPair{rd: s, wr: w, n: *lo})
			}
		}
	}
	return pairs, readers, leafKey
}

func runLayout(c *Ctx, r *Report) {
	k := newLayouts(c, r)
	only := os.Getenv("P14ONLY")
	pairs, readers, leafKey := k.fixedPairs()
	leaves := k.textPairs(readers, leafKey)
	if os.Getenv("P14TRACE") != "" {
		for f := range k.leafR {
			fmt.Println("leaf reader", fname(f))
		}
		for f := range k.leafW {
			fmt.Println("leaf writer", fname(f))
		}
		for f, v := range k.codec {
			fmt.Println("codec", fname(f), v)
		}
	}
	k.budget = 600000
	if c.Tier == "thorough" {
		k.budget = 6000000
	}
	for _, p := range append(pairs, leaves...) {
		if only != "" && !strings.Contains(fname(p.wr.f), only) {
			continue
		}
		t0 := time.Now()
		k.pair(p, k.leafW[p.wr.f] != "")
		if os.Getenv("P14TRACE") != "" {
			fmt.Println(fname(p.rd.f), fname(p.wr.f), p.n, "paths", k.paths, "bits", k.bits, "coarse", k.coarse, time.Since(t0))
		}
	}
	sort.Strings(k.undec)
	r.Cov["rule"] = "for every message the reader returns for an input of symbolic bytes, each bit the writer produces is the input bit at its place by way of a field read from it; where no field is read, retained raw bytes or constants"
	r.Cov["pairs"] = k.pairs
	r.Cov["paths"] = k.paths
	r.Cov["bits_exact"] = k.bits
	r.Cov["bits_by_dependence"] = k.coarse
	r.Cov["undecided_pairs"] = k.undec
	r.Cov["obligations"] = k.bits + k.coarse
	if only == "" {
		r.floor("reader and writer pairs", k.pairs, 20)
	}
}

// codecCall: functions between codes and enum values.
func (k *layouts) codecCall(e *tpath, g *ssa.Function, args []*term) []*term {
	switch k.codecKind(g) {
	case 1:
		en := k.enumOf(g.Signature.Results().At(0).Type())
		t := e.mk("dec:"+en.goPkg+"."+en.name, args[0])
		er := e.mk("decerr", t)
		if g.Signature.Results().Len() == 1 {
			return []*term{t}
		}
		return []*term{t, er}
	case 2:
		en := k.enumOf(g.Params[0].Type())
		a := unstored(args[0])
		two := g.Signature.Results().Len() == 2
		res := func(v, er *term) []*term {
			if two {
				return []*term{v, er}
			}
			return []*term{v}
		}
		if a.op == "dec:"+en.goPkg+"."+en.name {
			return res(a.args[0], e.nilTerm())
		}
		if n, ok := intOf(a); ok {
			for _, v := range en.vals {
				if v.num == n {
					if x, ok := v.opts[k.proto]; ok {
						return res(intTerm(e, x), e.nilTerm())
					}
				}
			}
			return res(intTerm(e, 0), e.mk("nonnil"))
		}
		t := e.mk("enc:"+en.goPkg+"."+en.name, a)
		return res(t, e.mk("encerr", t))
	}
	return nil
}

// valueBounds: between what a number made of input bytes lies, whatever they are.
func (e *tpath) valueBounds(t *term) (lo, hi int64, ok bool) {
	t = unstored(t)
	if n, ok := intOf(t); ok {
		return n, n, true
	}
	if t.op == "parsed" && len(t.args) < 8 {
		hi = 1
		for range t.args {
			hi *= 100
		}
		return 0, hi - 1, true
	}
	if t.op != "in" && t.op != "cat" && !strings.HasPrefix(t.op, "bin:") && convBytes(t.op) == 0 {
		return 0, 0, false
	}
	bits := e.bits(t)
	if bits[63] != (bit{}) {
		return 0, 0, false
	}
	for i, b := range bits[:63] {
		if b.src != nil || b.one {
			hi |= 1 << i
		}
		if b.src == nil && b.one {
			lo |= 1 << i
		}
	}
	return lo, hi, true
}

func (k *layouts) engine(leaf bool, p layoutPair) (*tpath, *term, *term) {
	e := newTpath(k.c)
	e.unroll, e.keepAll, e.bytes, e.layout, e.maxIter, e.maxScan = true, true, true, true, 200, 200
	e.budget = k.budget
	e.inline = isRepoFunc
	e.fixedLen = map[*term]int64{}
	in, raw := e.mk("arg:in"), e.mk("arg:raw")
	e.fixedLen[in] = p.n
	e.fixedLen[raw] = p.n
	e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
		if res := k.codecCall(e, g, args); res != nil {
			return res
		}
		if key := k.leafR[g]; key != "" && !(leaf && g == p.rd.f) {
			for _, a := range args {
				if xs, ok := e.bl(st, a); ok && a.op != "nil" {
					t := e.mk("leaf:"+key, xs...)
					st.facts[t] = 'N'
					return []*term{t, e.mk("leaferr", t)}
				}
			}
		}
		if q, ok := k.recR[g]; ok && g != p.rd.f {
			if xs, ok := e.bl(st, args[q.data]); ok {
				if int64(len(xs)) != q.n {
					return []*term{e.nilTerm(), e.mk("nonnil")}
				}
				t := e.mk("leaf:"+q.key, xs...)
				bad := 0
				for f, v := range st.facts {
					if f.op == "leaferr" && v == 'N' {
						bad++
					}
				}
				st.facts[t] = 'N'
				if bad >= maxBad || !q.fails {
					return []*term{t, e.nilTerm()}
				}
				return []*term{t, e.mk("leaferr", t)}
			}
		}
		if q, ok := k.recW[g]; ok && g != p.wr.f {
			a := unstored(args[q.msg])
			same := a.op == "leaf:"+q.key
			for f, v := range st.fields {
				if strings.HasPrefix(f, a.key+".") && !(v.cst != nil && v.cst.Kind() == constant.Bool && constant.BoolVal(v.cst)) {
					same = false
				}
			}
			if dst, ok := e.bl(st, args[q.data]); ok && same {
				out := []*term{e.seq(append(append([]*term(nil), dst...), a.args...))}
				if g.Signature.Results().Len() > 1 {
					out = append(out, e.nilTerm())
				}
				return out
			}
		}
		if key := k.leafW[g]; key != "" && !leaf {
			d, m, s, _ := leafWriter(g)
			a := unstored(args[m])
			dst, ok := e.bl(st, args[d])
			if ok && a.op == "leaf:"+key {
				if s >= 0 {
					if n, ok := intOf(args[s]); !ok || n != int64(len(a.args)) {
						return []*term{e.nilTerm(), e.mk("nonnil")}
					}
				}
				return []*term{e.seq(append(append([]*term(nil), dst...), a.args...)), e.nilTerm()}
			}
		}
		return nil
	}
	e.decide = func(st *tstate, t *term) byte {
		if t.op == "<" {
			a, b, ok := e.valueBounds(t.args[0])
			c, d, ok2 := e.valueBounds(t.args[1])
			switch {
			case !ok || !ok2:
			case b < c:
				return 't'
			case a >= d:
				return 'f'
			}
			return 0
		}
		if t.op != "==" {
			return 0
		}
		for i := 0; i < 2; i++ {
			d := t.args[i]
			n, ok := intOf(t.args[1-i])
			if name, dec := strings.CutPrefix(d.op, "dec:"); dec && ok {
				for _, v := range k.enums[name].vals {
					if v.num == n {
						if _, has := v.opts[k.proto]; !has && e.nilness(st, e.mk("decerr", d)) == 'n' {
							return 'f'
						}
					}
				}
			}
		}
		return 0
	}
	return e, in, raw
}

func (k *layouts) pair(p layoutPair, leaf bool) {
	e, in, raw := k.engine(leaf, p)
	var args []*term
	for i, q := range p.rd.f.Params {
		switch {
		case i == p.rd.data:
			args = append(args, in)
		case i == p.rd.msg:
			t := e.mk("arg:msg")
			t.op, t.typ = "obj", q.Type()
			args = append(args, t)
		default:
			args = append(args, e.mk(fmt.Sprintf("arg%d:opts", i)))
		}
	}
	outs := e.exec(p.rd.f, args, nil, newTstate(), "", 0)
	label := fname(p.rd.f) + " / " + fname(p.wr.f)
	if e.over {
		k.undec = append(k.undec, label+": too many paths")
		return
	}
	joined, failed, ok := k.follow(e, p, outs, args, in, raw, leaf, label, nil)
	if !ok {
		return
	}
	if joined == 0 && failed > 0 {
		// what the caller adds may be missing
		if unset := unsetBools(e, p, outs, args); len(unset) > 0 {
			if joined, failed, ok = k.follow(e, p, outs, args, in, raw, leaf, label, unset); !ok {
				return
			}
		}
	}
	k.paths += joined
	if joined > 0 {
		k.pairs++
	} else if failed > 0 {
		k.undec = append(k.undec, label+": no message that is read is written")
	}
}

// unsetBools: boolean fields of the message that the reader leaves unset.
func unsetBools(e *tpath, p layoutPair, outs []toutcome, args []*term) []string {
	var names []string
	mt := p.rd.f.Signature.Results().At(0).Type()
	if p.rd.msg >= 0 {
		mt = p.rd.f.Params[p.rd.msg].Type()
	}
	ms := types.NewMethodSet(mt)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !strings.HasPrefix(f.Name(), "Set") {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 1 || !isBool(sig.Params().At(0).Type()) {
			continue
		}
		name, set := strings.TrimPrefix(f.Name(), "Set"), false
		for _, o := range outs {
			msg := (*term)(nil)
			if p.rd.msg >= 0 {
				msg = args[p.rd.msg]
			} else {
				msg = unstored(o.res[0])
			}
			set = set || o.st.fields[msg.key+"."+name] != nil
		}
		if !set {
			names = append(names, name)
		}
	}
	return names
}

// follow runs the writer on every message the reader returns.
func (k *layouts) follow(e *tpath, p layoutPair, outs []toutcome, args []*term, in, raw *term, leaf bool, label string, set []string) (joined, failed int, done bool) {
	flags := k.flagBits(e, p, outs, in)
	for _, o := range outs {
		if len(o.res) > 1 && e.nilness(o.st, o.res[len(o.res)-1]) == 'N' {
			continue
		}
		var msg *term
		if p.rd.msg >= 0 {
			msg = args[p.rd.msg]
		} else {
			msg = unstored(o.res[0])
		}
		if e.nilness(o.st, msg) == 'n' {
			continue
		}
		k.done = map[string]bool{}
		k.unchanged(e, p, o.st, msg, in, set)
		k.rawFields(e, o.st, msg, in, raw)
		for _, f := range set {
			o.st.fields[unstored(msg).key+"."+f] = e.constTerm(constant.MakeBool(true))
		}
		read, text := k.readBits(e, o.st, msg, in, p.n)
		k.flags = k.boolFields(e, o.st, msg, in)
		for b := range flags {
			read[e.inAt[b.src].k] |= 1 << b.i
		}
		k.done = map[string]bool{}
		for _, keep := range []bool{true, false} {
			st := o.st.clone()
			hadRaw := false
			for f := range st.fields {
				if strings.HasSuffix(f, ".RawData") {
					hadRaw = true
					if !keep {
						delete(st.fields, f)
					}
				}
			}
			if !keep && (!hadRaw || leaf) {
				continue
			}
			for _, w := range e.exec(p.wr.f, k.writerArgs(e, p, msg), nil, st, "w", 0) {
				if len(w.res) > 1 && e.nilness(w.st, w.res[1]) == 'N' {
					failed++
					if os.Getenv("P14FAIL") != "" {
						fmt.Println("REFUSES", fname(p.wr.f), p.n, keep, w.res[1].key)
					}
					continue
				}
				bs, ok := e.bl(w.st, w.res[0])
				if !ok {
					k.undec = append(k.undec, label+": output not followed")
					return joined, failed, false
				}
				joined++
				if int64(len(bs)) != p.n {
					continue // P15
				}
				k.compare(e, p, w.st, bs, read, text, in, raw, keep && hadRaw)
			}
			if e.over {
				k.undec = append(k.undec, label+": too many paths")
				return joined, failed, false
			}
		}
	}
	return joined, failed, true
}

func (k *layouts) writerArgs(e *tpath, p layoutPair, msg *term) []*term {
	var wargs []*term
	for i, q := range p.wr.f.Params {
		switch {
		case i == p.wr.data:
			wargs = append(wargs, e.nilTerm())
		case i == p.wr.msg, p.wr.msg < 0 && isInt(q.Type()):
			wargs = append(wargs, msg)
		case isInt(q.Type()):
			wargs = append(wargs, intTerm(e, p.size))
		default:
			wargs = append(wargs, e.mk(fmt.Sprintf("arg%d:opts", i)))
		}
	}
	return wargs
}

// reachable: the message and the messages stored in it, by key.
func (k *layouts) reachable(e *tpath, st *tstate, msg *term) map[string]bool {
	out := map[string]bool{}
	var rec func(t *term)
	rec = func(t *term) {
		t = unstored(t)
		if out[t.key] {
			return
		}
		out[t.key] = true
		for f, v := range st.fields {
			if strings.HasPrefix(f, t.key+".") {
				rec(v)
			}
		}
		for _, x := range e.listOf(st, t) {
			rec(x)
		}
	}
	rec(msg)
	return out
}

// rawFields: retained raw bytes become a byte string of their own, so that they can
// be told from what the fields hold.
func (k *layouts) rawFields(e *tpath, st *tstate, msg, in, raw *term) {
	objs := k.reachable(e, st, msg)
	for f, v := range st.fields {
		o, ok := strings.CutSuffix(f, ".RawData")
		if !ok || !objs[o] {
			continue
		}
		xs, ok := e.bl(st, v)
		if !ok {
			continue
		}
		var ys []*term
		for _, x := range xs {
			if x.op == "in" && x.args[0] == in {
				x = e.byteAt(raw, e.inAt[x])
			}
			ys = append(ys, x)
		}
		st.fields[f] = e.seq(ys)
	}
}

// readBits: which bits of the input the fields of a message are made of; text marks
// bytes that only go into strings as a whole.
func (k *layouts) readBits(e *tpath, st *tstate, msg, in *term, n int64) (read []byte, text []bool) {
	read, text = make([]byte, n), make([]bool, n)
	inText := make([]byte, n)
	seen := map[*term]bool{}
	var visit func(t *term, str bool)
	mark := func(b bit, str bool) {
		if i := e.inAt[b.src]; b.src.args[0] == in && i.k < n {
			if str {
				inText[i.k] |= 1 << b.i
			} else {
				read[i.k] |= 1 << b.i
			}
		}
	}
	visit = func(t *term, str bool) {
		t = unstored(t)
		if seen[t] {
			return
		}
		seen[t] = true
		str = str || strings.HasPrefix(t.op, "call:") || strings.HasPrefix(t.op, "elem") || strings.HasPrefix(t.op, "un") || strings.HasPrefix(t.op, "part")
		if k.bitwise(t) {
			for _, b := range e.bits(t) {
				switch {
				case b.src == nil:
				case b.src.op == "in":
					mark(b, str)
				case b.src == t:
					for _, a := range t.args {
						visit(a, str)
					}
				default:
					visit(b.src, str)
				}
			}
			return
		}
		if xs, ok := e.bl(st, t); ok {
			for _, x := range xs {
				visit(x, str)
			}
			return
		}
		for _, a := range t.args {
			visit(a, str)
		}
		for _, d := range st.content[t] {
			visit(d, str)
		}
		for a, v := range st.cells {
			if len(a.args) > 0 && a.args[0] == t {
				visit(v, str)
			}
		}
	}
	for o := range k.reachable(e, st, msg) {
		for f, v := range st.fields {
			if strings.HasPrefix(f, o+".") && !strings.HasSuffix(f, ".RawData") {
				visit(v, false)
			}
		}
	}
	if !isPtrTerm(msg) {
		visit(msg, false)
	}
	for i := range text {
		text[i] = read[i] == 0 && inText[i] != 0
		read[i] |= inText[i]
	}
	return read, text
}

func isPtrTerm(t *term) bool { return t.op == "obj" || t.op == "timestamp" }

func (k *layouts) bitwise(t *term) bool {
	switch {
	case t.op == "in", t.op == "cat", t.op == "byte", strings.HasPrefix(t.op, "conv:") && convBytes(t.op) > 0:
		return true
	case strings.HasPrefix(t.op, "bin"):
		return true
	}
	return false
}

// sameRaw: input bits that the path has found equal to those of the raw bytes.
func (k *layouts) sameRaw(e *tpath, st *tstate, in, raw *term) map[bit]bool {
	out := map[bit]bool{}
	pair := func(a, b bit) {
		for _, p := range [][2]bit{{a, b}, {b, a}} {
			x, y := p[0], p[1]
			if x.src != nil && y.src != nil && x.src.op == "in" && y.src.op == "in" && x.i == y.i && x.src.args[0] == in && y.src.args[0] == raw && e.inAt[x.src].k == e.inAt[y.src].k {
				out[x] = true
			}
		}
	}
	for f, v := range st.facts {
		if f.op != "==" || v != 't' {
			continue
		}
		x, y := unstored(f.args[0]), unstored(f.args[1])
		if a, b := e.digits(x), e.digits(y); a != nil && len(a) == len(b) {
			for p, d := range a {
				for i := range d {
					pair(d[i], b[p][i])
				}
			}
		}
		if k.bitwise(x) && k.bitwise(y) {
			xs, ys := e.bits(x), e.bits(y)
			for i := range xs {
				pair(xs[i], ys[i])
			}
		}
	}
	return out
}

// boolFields: boolean fields that depend on one input byte.
func (k *layouts) boolFields(e *tpath, st *tstate, msg, in *term) map[int64][]*term {
	out := map[int64][]*term{}
	objs := k.reachable(e, st, msg)
	for f, v := range st.fields {
		i := strings.LastIndexByte(f, '.')
		if i < 0 || !objs[f[:i]] {
			continue
		}
		v = unstored(v)
		if v.op != "not" && v.op != "==" && v.op != "<" {
			continue
		}
		d := k.inputBytes(e, st, v, in)
		for x := range d {
			if len(d) == 1 {
				out[x] = append(out[x], v)
			}
		}
	}
	return out
}

// sameFlags: with the byte that is written, the fields come out as they were.
func (k *layouts) sameFlags(e *tpath, st *tstate, fs []*term, in, out *term) bool {
	for _, f := range fs {
		want := e.truth(st, f)
		got, ok := k.boolWith(e, f, in, out)
		if want == 0 || !ok || got != (want == 't') {
			return false
		}
	}
	return true
}

// boolWith: a boolean with one byte of the input given.
func (k *layouts) boolWith(e *tpath, t, in, out *term) (v, ok bool) {
	num := func(t *term) (int64, bool) {
		if n, ok := intOf(t); ok {
			return n, true
		}
		if !k.bitwise(t) {
			return 0, false
		}
		n := int64(0)
		ob := e.bits(out)
		for j, b := range e.bits(t) {
			if b.src == in {
				b = ob[b.i]
			}
			if b.src != nil || j > 62 && b.one {
				return 0, false
			}
			if b.one {
				n |= 1 << j
			}
		}
		return n, true
	}
	switch t.op {
	case "not":
		v, ok = k.boolWith(e, t.args[0], in, out)
		return !v, ok
	case "==", "<":
		a, k1 := num(t.args[0])
		b, k2 := num(t.args[1])
		if t.op == "==" {
			return a == b, k1 && k2
		}
		return a < b, k1 && k2
	}
	return false, false
}

// altered: the number written is known to be another one than the byte read.
func (k *layouts) altered(e *tpath, b bit, out, here *term) string {
	if b.i < 8 {
		for p := range e.digits(b.src) {
			if p > 0 {
				return "the binary value of a number read as decimal digits"
			}
		}
	}
	m, c, t := int64(1), int64(0), unstored(out)
	for {
		switch {
		case t.op == "byte" && mustInt(t.args[1]) == 0, strings.HasPrefix(t.op, "conv:"):
			t = unstored(t.args[0])
			continue
		case t.op == "bin:+" || t.op == "bin:-" || t.op == "bin:*":
			x, n := t.args[0], t.args[1]
			if x.cst != nil && t.op != "bin:-" {
				x, n = n, x
			}
			if v, ok := intOf(n); ok {
				switch t.op {
				case "bin:+":
					c += m * v
				case "bin:-":
					c -= m * v
				default:
					m *= v
				}
				t = unstored(x)
				continue
			}
		}
		break
	}
	if byte(m) == 1 && byte(c) == 0 || !k.bitwise(t) {
		return ""
	}
	for j, b := range e.bits(t)[:8] {
		if (b != bit{src: here, i: j}) {
			return ""
		}
	}
	return fmt.Sprintf("the byte read times %d plus %d", byte(m), byte(c))
}

// flagBits: input bits that decide the value of a field, as far as that is a constant
// on every path.
func (k *layouts) flagBits(e *tpath, p layoutPair, outs []toutcome, in *term) map[bit]bool {
	type vals struct {
		t, f map[string]bool
		open bool
	}
	var paths []map[bit]bool
	var fields []map[string]string
	bits, names := map[bit]bool{}, map[string]bool{}
	for _, o := range outs {
		if len(o.res) > 1 && e.nilness(o.st, o.res[len(o.res)-1]) == 'N' {
			continue
		}
		kn, fs := k.knownBits(e, o.st), map[string]string{}
		for b := range kn {
			if b.src.args[0] == in {
				bits[b] = true
			}
		}
		for f, v := range o.st.fields {
			v = unstored(v)
			if v.cst != nil {
				fs[f] = v.key
			} else {
				fs[f] = "?"
			}
			names[f] = true
		}
		paths, fields = append(paths, kn), append(fields, fs)
	}
	out := map[bit]bool{}
	for b := range bits {
		for f := range names {
			v := &vals{t: map[string]bool{}, f: map[string]bool{}}
			for i, kn := range paths {
				x, ok := kn[b]
				val := fields[i][f]
				switch {
				case !ok || val == "?":
					v.open = true
				case x:
					v.t[val] = true
				default:
					v.f[val] = true
				}
			}
			if v.open || len(v.t) != 1 || len(v.f) != 1 {
				continue
			}
			for x := range v.t {
				if !v.f[x] {
					out[b] = true
				}
			}
		}
	}
	return out
}

// knownBits: input bits whose value the path has fixed.
func (k *layouts) knownBits(e *tpath, st *tstate) map[bit]bool {
	out := map[bit]bool{}
	for round := 0; round < 2; round++ {
		for t, v := range st.facts {
			if t.op != "==" || v != 't' && v != 'f' {
				continue
			}
			for i := 0; i < 2; i++ {
				c, ok := intOf(t.args[1-i])
				if !ok {
					continue
				}
				x := t.args[i]
				if !k.bitwise(x) {
					continue
				}
				bs := e.bits(x)
				open, at, differ := 0, -1, false
				for j, b := range bs {
					want := uint64(c)>>j&1 == 1
					switch {
					case b.src == nil:
						differ = differ || b.one != want
					default:
						if have, ok := out[b]; ok && b.src.op == "in" {
							differ = differ || have != want
							continue
						}
						open, at = open+1, j
						if v == 't' && b.src.op == "in" {
							out[b] = want
						}
					}
				}
				if v == 'f' && open == 1 && !differ && bs[at].src.op == "in" {
					out[bs[at]] = uint64(c)>>at&1 == 0
				}
			}
		}
	}
	return out
}

func (k *layouts) inputBytes(e *tpath, st *tstate, t, in *term) map[int64]bool {
	out := map[int64]bool{}
	for d := range e.deps(st, t) {
		if d.op == "in" && d.args[0] == in {
			out[e.inAt[d].k] = true
		}
	}
	return out
}

func (k *layouts) compare(e *tpath, p layoutPair, st *tstate, out []*term, read []byte, text []bool, in, raw *term, withRaw bool) {
	known, same := k.knownBits(e, st), k.sameRaw(e, st, in, raw)
	from := func(i int) string { return fmt.Sprintf("byte %d", i) }
	for i, o := range out {
		key := fmt.Sprint(i, " ", o.key, " ", withRaw)
		for j := 0; j < 8; j++ {
			if v, ok := known[bit{src: e.byteAt(in, linT{k: int64(i)}), i: j}]; ok {
				key += fmt.Sprint(" ", j, v)
			}
		}
		if k.done[key] {
			continue
		}
		k.done[key] = true
		bs := e.bits(o)[:8]
		for j, b := range bs {
			isRead := read[i]>>j&1 == 1
			here := bit{src: e.byteAt(in, linT{k: int64(i)}), i: j}
			covered := withRaw && (b.src == nil || b.src.op != "in" || b.src.args[0] != raw)
			if v, ok := known[here]; covered && !isRead && !(ok && b.src == nil && v == b.one) {
				k.find(p.wr.f, from(i), fmt.Sprintf("%s bit %d of the retained raw bytes is overwritten although %s reads no field from it", from(i), j, fname(p.rd.f)))
			}
			switch {
			case b.src == nil:
				k.bits++
				if v, ok := known[here]; ok && v == b.one || !isRead {
					continue
				}
				if fs := k.flags[int64(i)]; len(fs) > 0 && k.sameFlags(e, st, fs, here.src, o) {
					continue
				}
				k.find(p.wr.f, from(i), fmt.Sprintf("%s of what is written is constant where %s reads a field", from(i), fname(p.rd.f)))
			case b.src.op == "in" && b.src.args[0] == in:
				k.bits++
				if b != here {
					a := e.inAt[b.src].k
					k.find(p.wr.f, from(i), fmt.Sprintf("%s bit %d of what is written is what %s reads from byte %d bit %d", from(i), j, fname(p.rd.f), a, b.i))
				}
			case b.src.op == "in" && b.src.args[0] == raw:
				k.bits++
				if e.inAt[b.src].k != int64(i) || b.i != j {
					k.find(p.wr.f, from(i), fmt.Sprintf("%s of what is written is byte %d of the retained raw bytes", from(i), e.inAt[b.src].k))
				} else if isRead && !text[i] && !same[here] {
					if fs := k.flags[int64(i)]; len(fs) > 0 && k.sameFlagsAll(e, st, fs, here.src, o) {
						continue
					}
					k.find(p.wr.f, from(i), fmt.Sprintf("%s keeps the raw byte although %s reads a field from it: a changed field is not written", from(i), fname(p.rd.f)))
				}
			default:
				k.coarse++
				if os.Getenv("P14COARSE") != "" && j == 0 {
					fmt.Fprintln(os.Stderr, "COARSE", fname(p.wr.f), i, len(k.inputBytes(e, st, b.src, in)), o.key)
				}
				d := k.inputBytes(e, st, b.src, in)
				if w := k.altered(e, b, o, here.src); w != "" && isRead {
					k.find(p.wr.f, from(i), from(i)+" of what is written is "+w)
				}
				if !d[int64(i)] && (isRead || len(d) > 0) {
					k.find(p.wr.f, from(i), fmt.Sprintf("%s of what is written does not come from the field %s reads there", from(i), fname(p.rd.f)))
				}
			}
		}
	}
}
