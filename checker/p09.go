package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P09"] = check{level: "proof", run: func(c *Ctx, r *Report) { newCardIO(c, r).run("P09") }}
	checks["P10"] = check{level: "proof", run: func(c *Ctx, r *Report) { newCardIO(c, r).run("P10") }}
}

// P09 and P10: the table of elementary files the driver card parser accepts,
// derived from its code, against the blocks the serialiser writes, derived from
// its code.

type cardIO struct {
	c             *Ctx
	r             *Report
	efs           *enumDesc
	content       *enumDesc
	fid           map[int64]int64 // EF number -> file identifier
	hasFid        map[int64]bool
	read, write   *ssa.Function
	fileT         types.Type
	fields        []cardField
	byKey         map[string]*cardField
	model         *descModel
	tlvLevel      map[*ssa.Function]int
	setsSig       map[*ssa.Function]int
	keeps         map[string]bool // places the reader stores signatures in
	readPaths     int
	writePaths    int
	runs          int
	blocksChecked int
}

// cardField is one place of the file message: a direct field or a field of one of
// its application parts.
type cardField struct {
	part, name, msg string
	oneof           []string // alternatives inside the message, by message field
	signed          bool     // the message has a Signature field
	typ             types.Type
}

func (f *cardField) key() string {
	if f.part == "" {
		return f.name
	}
	return f.part + "." + f.name
}

func newCardIO(c *Ctx, r *Report) *cardIO {
	k := &cardIO{c: c, r: r, fid: map[int64]int64{}, hasFid: map[int64]bool{}, keeps: map[string]bool{}, byKey: map[string]*cardField{}, model: c.newDescModel(),
		tlvLevel: map[*ssa.Function]int{}, setsSig: map[*ssa.Function]int{}}
	enums, _, _ := c.descriptors()
	for _, e := range enums {
		switch {
		case e.name == "ElementaryFileType":
			k.efs = e
		case e.name == "ContentType" && strings.Contains(e.goPkg, "/card/"):
			k.content = e
		}
	}
	fidExt := -1
	for g, n := range c.extFields() {
		if g.Name() == "E_FileId" {
			fidExt = n
		}
	}
	if k.efs != nil {
		for _, v := range k.efs.vals {
			if x, ok := v.opts[fidExt]; ok {
				k.fid[v.num], k.hasFid[v.num] = x, true
			}
		}
	}
	isRead, isWrite := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for f := range c.P.All {
		if !isRepoFunc(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if returnsMsg(f, "DriverCardFile") && takesMsg(f, "RawCardFile") {
			isRead[f] = true
		}
		res := f.Signature.Results()
		if res.Len() == 2 && isByteSlice(res.At(0).Type()) && isErrorType(res.At(1).Type()) && takesMsg(f, "DriverCardFile") {
			isWrite[f] = true
		}
	}
	k.read, k.write = outermost(isRead), outermost(isWrite)
	if k.read != nil {
		k.fileT = k.read.Signature.Results().At(0).Type()
		add := func(part string, t types.Type) {
			for _, f := range protoFields(t) {
				if f.elem == "" || f.list {
					continue
				}
				mt := msgOfField(t, f.name)
				cf := cardField{part: part, name: f.name, msg: f.elem, typ: mt}
				cf.signed = hasMethod(mt, "GetSignature")
				if part == "" && !strings.HasPrefix(f.name, "I") {
				}
				k.fields = append(k.fields, cf)
			}
		}
		for _, f := range protoFields(k.fileT) {
			if f.elem == "" {
				continue
			}
			mt := msgOfField(k.fileT, f.name)
			if strings.HasPrefix(f.elem, "DriverCardFile_") {
				add(f.name, mt)
			} else {
				k.fields = append(k.fields, cardField{name: f.name, msg: f.elem, typ: mt, signed: hasMethod(mt, "GetSignature")})
			}
		}
		for i := range k.fields {
			k.byKey[k.fields[i].key()] = &k.fields[i]
		}
	}
	return k
}

func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func takesMsg(f *ssa.Function, name string) bool {
	for _, p := range f.Params {
		if isProtoMsg(p.Type()) {
			if n := namedOf(derefType(p.Type())); n != nil && n.Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// outermost: the function of the set that no other one calls.
func outermost(set map[*ssa.Function]bool) *ssa.Function {
	var root *ssa.Function
	for _, f := range sortedFuncs(set) {
		inner := false
		for g := range set {
			for _, ci := range callsOf(g) {
				inner = inner || g != f && ci.Common().StaticCallee() == f
			}
		}
		if !inner {
			root = f
		}
	}
	return root
}

// reaches: some function called from f (itself included) satisfies p.
func (k *cardIO) reaches(f *ssa.Function, memo map[*ssa.Function]int, p func(*ssa.Function) bool) bool {
	if v, ok := memo[f]; ok {
		return v == 1
	}
	memo[f] = 0
	if !isRepoFunc(f) || isProtoPkg(fnPkgT(f)) {
		return false
	}
	res := p(f)
	if !res {
		for _, ci := range callsOf(f) {
			if g := ci.Common().StaticCallee(); g != nil && k.reaches(g, memo, p) {
				res = true
				break
			}
		}
	}
	if res {
		memo[f] = 1
	}
	return res
}

func fnPkgT(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// isTLV: the function deals with file identifiers or signatures, not just with
// the content of one file.
func (k *cardIO) isTLV(f *ssa.Function) bool {
	return k.reaches(f, k.tlvLevel, func(g *ssa.Function) bool {
		for _, p := range g.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "ElementaryFileType" {
				return true
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && gl.Name() == "E_FileId" {
						return true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if kind, field, recv := protoMethod(ci.Common()); kind == "Get" && field == "Signature" && k.isFileMsg(recv) {
						return true
					}
				}
			}
		}
		return false
	})
}

func (k *cardIO) isFileMsg(t types.Type) bool {
	n := namedOf(derefType(t))
	if n == nil {
		return false
	}
	for i := range k.fields {
		if k.fields[i].msg == n.Obj().Name() {
			return true
		}
	}
	return false
}

func (k *cardIO) storesSig(f *ssa.Function) bool {
	return k.reaches(f, k.setsSig, func(g *ssa.Function) bool {
		for _, ci := range callsOf(g) {
			if kind, field, recv := protoMethod(ci.Common()); kind == "Set" && field == "Signature" && k.isFileMsg(recv) && len(ci.Common().Args) > 1 {
				return true
			}
		}
		return false
	})
}

type rec struct {
	ef, gen, content int64
	symbolic         bool // file and generation unknown
}

// stored is what one accepted path keeps.
type stored struct {
	st    *tstate
	items []*term
	file  *term
	at    map[string]*term // field key -> message term
	e     *tpath
}

// parse follows the parser over a list of records and returns the accepting paths.
func (k *cardIO) parse(recs []rec) ([]stored, bool) {
	k.runs++
	e := newTpath(k.c)
	e.unroll, e.keepAll, e.maxIter, e.bytes = true, true, len(recs)+2, true
	e.model = k.model
	e.inline = isRepoFunc
	st := newTstate()
	raw := e.mk("arg0:raw")
	st.facts[raw] = 'N'
	list := e.mk("get:Records", raw)
	n := e.mk("len", list)
	e.assume(st, e.mk("==", n, intTerm(e, 0)), len(recs) == 0)
	for i := 0; i <= len(recs)+1; i++ {
		e.assume(st, e.less(intTerm(e, int64(i)), n, nil0(e)), i < len(recs))
	}
	var items []*term
	for i, rc := range recs {
		it := e.mk("load", e.mk("iaddr", list, intTerm(e, int64(i))))
		items = append(items, it)
		st.facts[it] = 'N'
		st.fields[it.key+".ContentType"] = intTerm(e, rc.content)
		st.facts[e.mk("get:Value", it)] = 'N'
		if !rc.symbolic {
			st.fields[it.key+".File"] = intTerm(e, rc.ef)
			st.fields[it.key+".Generation"] = intTerm(e, rc.gen)
		}
	}
	e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
		res := g.Signature.Results()
		if !isRepoFunc(g) || !takesBytes(g) || res.Len() != 2 || !isErrorType(res.At(1).Type()) || !isProtoMsg(res.At(0).Type()) || k.storesSig(g) {
			return nil
		}
		t := e.mk("decode:"+fname(g), args...)
		a, b := e.mk("ret0", t), e.mk("ret1", t)
		return []*term{a, b}
	}
	var args []*term
	for i, p := range k.read.Params {
		if isProtoMsg(p.Type()) {
			args = append(args, raw)
		} else {
			args = append(args, e.mk(fmt.Sprintf("arg%d:opts", i)))
		}
	}
	outs := e.exec(k.read, args, nil, st, "", 0)
	if e.over {
		k.r.add(Finding{Rule: "undecided", Fn: fname(k.read), What: "path budget", Msg: "too many paths to enumerate"})
		return nil, false
	}
	var out []stored
	for _, o := range outs {
		k.readPaths++
		if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
			continue
		}
		s := stored{st: o.st, items: items, file: o.res[0], at: map[string]*term{}, e: e}
		for i := range k.fields {
			f := &k.fields[i]
			base := o.res[0]
			if f.part != "" {
				b := o.st.fields[base.key+"."+f.part]
				if b == nil {
					continue
				}
				base = unstored(b)
			}
			if v := o.st.fields[base.key+"."+f.name]; v != nil && unstored(v).op != "nil" {
				s.at[f.key()] = unstored(v)
			}
		}
		out = append(out, s)
	}
	return out, true
}

// fromItem: the number of the record whose value the message is decoded from.
func (s *stored) fromItem(m *term) int {
	at := -1
	seen := map[*term]bool{}
	var rec func(t *term)
	rec = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i, it := range s.items {
			if t == s.e.mk("get:Value", it) {
				if at >= 0 && at != i {
					at = -2
				} else if at == -1 {
					at = i
				}
			}
		}
		for _, a := range t.args {
			if !strings.HasPrefix(t.op, "get:") {
				rec(a)
			}
		}
		// messages built around the decoded part
		if t.op == "obj" {
			for key, v := range s.st.fields {
				if strings.HasPrefix(key, t.key+".") && key != t.key+".Signature" {
					rec(unstored(v))
				}
			}
		}
	}
	rec(m)
	return at
}

func (s *stored) sig(m *term) *term {
	v := s.st.fields[m.key+".Signature"]
	if v == nil {
		return nil
	}
	v = unstored(v)
	if s.e.nilness(s.st, v) == 'n' {
		return nil
	}
	return v
}

type efGen struct{ ef, gen int64 }

type block struct {
	fid   int64
	app   int64
	seq   *term
	fn    string
	known bool
	why   string
}

// emit follows the serialiser with exactly the given fields present.
type emission struct {
	st     *tstate
	e      *tpath
	blocks []block
	bad    string
	sigs   map[string]bool // field key -> its signature is present on this path
	paths  map[string]*term
}

func (k *cardIO) serialise(present []string) ([]emission, bool) {
	k.runs++
	e := newTpath(k.c)
	e.unroll, e.keepAll, e.bytes, e.maxIter = true, true, true, 64
	e.model = k.model
	e.inline = isRepoFunc
	st := newTstate()
	file := e.mk("arg0:file")
	st.facts[file] = 'N'
	on := map[string]bool{}
	for _, p := range present {
		on[p] = true
	}
	terms := map[string]*term{}
	isField := map[*term]string{}
	parts := map[string]bool{}
	for i := range k.fields {
		f := &k.fields[i]
		base := file
		if f.part != "" {
			base = e.mk("get:"+f.part, file)
			parts[f.part] = parts[f.part] || on[f.key()]
		}
		t := e.mk("get:"+f.name, base)
		terms[f.key()] = t
		isField[t] = f.key()
		if on[f.key()] {
			st.facts[t] = 'N'
		} else if f.part == "" {
			st.facts[t] = 'n'
		}
	}
	for i := range k.fields {
		f := &k.fields[i]
		if f.part != "" {
			st.facts[e.mk("get:"+f.part, file)] = map[bool]byte{true: 'N', false: 'n'}[parts[f.part]]
			if !on[f.key()] {
				st.facts[terms[f.key()]] = 'n'
			}
			// a certificate carries the kind its place holds
			for _, g := range protoFields(f.typ) {
				if g.elem != "" && !g.list && on[f.key()] && !f.signed {
					st.facts[e.mk("get:"+g.name, terms[f.key()])] = 'N'
				}
			}
		}
	}
	e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
		res := g.Signature.Results()
		if !isRepoFunc(g) || !takesBytes(g) || res.Len() != 2 || !isErrorType(res.At(1).Type()) || !isByteSlice(res.At(0).Type()) || g == k.write {
			return nil
		}
		// the functions that write the content of one file
		msg := -1
		for i, p := range g.Params {
			if isProtoMsg(p.Type()) && k.isFileMsg(p.Type()) {
				msg = i
			}
		}
		if msg < 0 || k.isTLV(g) {
			return nil
		}
		dst := -1
		for i, p := range g.Params {
			if isByteSlice(p.Type()) && dst < 0 {
				dst = i
			}
		}
		t := e.mk("app:"+fname(g), args[dst], args[msg])
		return []*term{e.mk("ret0", t), e.mk("ret1", t)}
	}
	var args []*term
	empty := map[*term]bool{}
	for i, p := range k.write.Params {
		if isProtoMsg(p.Type()) {
			args = append(args, file)
		} else {
			a := e.mk(fmt.Sprintf("arg%d:dst", i))
			empty[a] = true
			args = append(args, a)
		}
	}
	outs := e.exec(k.write, args, nil, st, "", 0)
	if e.over {
		k.r.add(Finding{Rule: "undecided", Fn: fname(k.write), What: "path budget", Msg: "too many paths to enumerate"})
		return nil, false
	}
	var out []emission
	for _, o := range outs {
		k.writePaths++
		if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
			continue
		}
		em := emission{st: o.st, e: e, sigs: map[string]bool{}, paths: terms}
		isEmpty := func(t *term) bool { return empty[t] }
		cs, ok := e.flatten(o.st, o.res[0], isEmpty)
		if !ok {
			em.bad = "what is written could not be followed back to an empty buffer"
			out = append(out, em)
			continue
		}
		cs = e.patched(o.st, cs, isEmpty)
		// split into blocks: identifier, appendix, length, content
		for i := 0; i < len(cs) && em.bad == ""; {
			if i+5 > len(cs) {
				em.bad = "the output ends inside a block header"
				break
			}
			head := cs[i : i+5]
			for _, h := range head {
				if h.b == nil {
					em.bad = "a block does not start with a two-byte identifier, an appendix and a two-byte length"
				}
			}
			if em.bad != "" {
				break
			}
			f1, ok1 := intOf(head[0].b)
			f0, ok0 := intOf(head[1].b)
			ap, oka := intOf(head[2].b)
			if !ok1 || !ok0 || !oka {
				em.bad = "the identifier or appendix of a block is not a constant of the schema"
				break
			}
			b := block{fid: f1<<8 | f0, app: ap}
			i += 5
			if i < len(cs) && cs[i].seq != nil {
				b.seq = cs[i].seq
				if len(cs[i].app) > 0 {
					b.seq = cs[i].app[len(cs[i].app)-1]
					b.fn = strings.TrimPrefix(cs[i].seq.args[0].op, "app:")
				}
				want := e.stretchLen(o.st, cs[i].seq)
				if !lenBytes(e, o.st, head[3].b, head[4].b, want, isEmpty) {
					b.why = "its length field is not the length of its content"
				} else if !shortEnough(e, o.st, want, isEmpty) {
					b.why = "its content is not checked to fit the 16-bit length field"
				}
				i++
			} else {
				b.why = "it has no content"
				if a, ok := intOf(head[3].b); ok && a == 0 {
					if c, ok := intOf(head[4].b); ok && c == 0 {
						b.why = ""
					}
				}
			}
			em.blocks = append(em.blocks, b)
		}
		out = append(out, em)
	}
	return out, true
}

// lenBytes: two bytes are the big-endian 16-bit length.
func lenBytes(e *tpath, st *tstate, hi, lo *term, want linT, empty func(*term) bool) bool {
	ok := func(b *term, k int64) bool {
		if b.op != "byte" {
			return false
		}
		n, _ := intOf(b.args[1])
		return n == k && e.linOf(st, b.args[0], empty).eq(want)
	}
	return ok(hi, 1) && ok(lo, 0)
}

// shortEnough: the path has compared the length with what 16 bits can say.
func shortEnough(e *tpath, st *tstate, want linT, empty func(*term) bool) bool {
	for t, v := range st.facts {
		if t.op != "<" {
			continue
		}
		if c, ok := intOf(t.args[0]); ok && v == 'f' && c <= 65535 && e.linOf(st, t.args[1], empty).eq(want) {
			return true
		}
		if c, ok := intOf(t.args[1]); ok && v == 't' && c <= 65536 && e.linOf(st, t.args[0], empty).eq(want) {
			return true
		}
	}
	return false
}

func (k *cardIO) efName(n int64) string {
	for _, v := range k.efs.vals {
		if v.num == n {
			return v.name
		}
	}
	return fmt.Sprint(n)
}

// fieldOfContent: the place whose content a written stretch is.
func (em *emission) fieldOfContent(t *term) (string, bool) {
	t = unstored(t)
	sig := false
	if t.op == "get:Signature" {
		sig = true
		t = t.args[0]
	}
	for t != nil {
		for key, m := range em.paths {
			if m == t {
				return key, sig
			}
		}
		if strings.HasPrefix(t.op, "get:") && len(t.args) == 1 {
			t = unstored(t.args[0])
			continue
		}
		break
	}
	return "", sig
}

func (k *cardIO) run(prop string) {
	r := k.r
	if k.read == nil || k.write == nil || k.efs == nil || k.content == nil || len(k.fid) == 0 {
		r.add(Finding{Rule: "undecided", Fn: "internal/card", What: "anchors", Msg: "the driver card reader, writer or the enum of elementary files is gone"})
		return
	}
	p09 := prop == "P09"
	p10 := prop == "P10"
	data, sigc := int64(-1), int64(-1)
	for _, v := range k.content.vals {
		switch v.name {
		case "DATA":
			data = v.num
		case "SIGNATURE":
			sigc = v.num
		}
	}
	rpos := relPos(k.c.P.SSA.Fset.Position(k.read.Pos()))
	wpos := relPos(k.c.P.SSA.Fset.Position(k.write.Pos()))
	genName := map[int64]string{0: "no generation", 1: "Gen1", 2: "Gen2"}

	// the reader's table
	table := map[efGen]string{}
	signedOK := map[efGen]bool{}
	var order []efGen
	for _, v := range append(append([]enumVal(nil), k.efs.vals...), enumVal{name: "unknown", num: 9999}) {
		for gen := int64(1); gen <= 2; gen++ { // the two the record splitter tells apart
			eg := efGen{v.num, gen}
			label := k.efName(v.num) + " " + genName[gen]
			outs, ok := k.parse([]rec{{ef: v.num, gen: gen, content: data}})
			if !ok {
				return
			}
			for _, s := range outs {
				if len(s.at) == 0 {
					continue
				}
				if len(s.at) > 1 {
					if p09 {
						r.add(Finding{Rule: "reader", Fn: fname(k.read), What: label, Pos: rpos, Msg: "one record fills several places: " + keysOf(s.at)})
					}
					continue
				}
				for key, m := range s.at {
					if s.fromItem(m) != 0 && p09 {
						r.add(Finding{Rule: "reader", Fn: fname(k.read), What: label, Pos: rpos, Msg: key + " is not decoded from the record's value"})
					}
					if o, ok := table[eg]; ok && o != key && p09 {
						r.add(Finding{Rule: "reader", Fn: fname(k.read), What: label, Pos: rpos, Msg: "is stored as " + o + " on one path and as " + key + " on another"})
					} else if !ok {
						order = append(order, eg)
					}
					table[eg] = key
					if p10 && s.sig(m) != nil {
						r.add(Finding{Rule: "signature", Fn: fname(k.read), What: label, Pos: rpos, Msg: "gets a signature although no signature record follows"})
					}
				}
			}
		}
	}
	// places and the identifiers they are accepted under
	accept := map[string]map[string]efGen{}
	for _, eg := range order {
		key := table[eg]
		if accept[key] == nil {
			accept[key] = map[string]efGen{}
		}
		accept[key][fmt.Sprintf("%04X/%d", k.fid[eg.ef], eg.gen)] = eg
		if !k.hasFid[eg.ef] && p09 {
			r.add(Finding{Rule: "reader", Fn: fname(k.read), What: k.efName(eg.ef), Pos: rpos, Msg: "has no file identifier in the schema but is stored as " + key})
		}
	}
	if p09 {
		// two files together: neither keeps the other from being stored
		for _, a := range order {
			for _, b := range order {
				if table[a] == table[b] || len(r.Findings) > 40 {
					continue
				}
				outs, ok := k.parse([]rec{{ef: a.ef, gen: a.gen, content: data}, {ef: b.ef, gen: b.gen, content: data}})
				if !ok {
					return
				}
				label := fmt.Sprintf("%s Gen%d, %s Gen%d", k.efName(a.ef), a.gen, k.efName(b.ef), b.gen)
				for _, s := range outs {
					for i, x := range []efGen{a, b} {
						m := s.at[table[x]]
						if m == nil || s.fromItem(m) != i {
							r.add(Finding{Rule: "reader", Fn: fname(k.read), What: label, Pos: rpos, Msg: fmt.Sprintf("when both files are present, %s is not stored in %s", k.efName(x.ef), table[x])})
						}
					}
				}
				if len(outs) == 0 {
					r.add(Finding{Rule: "reader", Fn: fname(k.read), What: label, Pos: rpos, Msg: "the two files are accepted alone but not together"})
				}
			}
		}
	}
	if p10 {
		k.readerSignatures(order, table, signedOK, data, sigc, rpos)
	}
	// the writer, one place at a time and in pairs
	var keys []string
	for key := range accept {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	expect := map[string]string{}
	for _, key := range keys {
		k.writer(prop, []string{key}, accept, table, wpos, expect)
	}
	if len(r.Findings) == 0 {
		for i, a := range keys {
			for _, b := range keys[i+1:] {
				k.writer(prop, []string{a, b}, accept, table, wpos, expect)
			}
			if len(r.Findings) > 40 {
				break
			}
		}
	}
	r.Cov["rule"] = "reader: for every elementary file and generation, the one place of the file message its record fills; writer: with each place (and each pair of places) present, exactly one data block per place under the identifier and appendix the place is accepted under, with its content, and a signature block with the stored signature right behind it"
	r.Cov["reader_entries"] = len(order)
	r.Cov["runs"] = k.runs
	r.Cov["paths"] = k.readPaths + k.writePaths
	r.Cov["blocks"] = k.blocksChecked
	r.Cov["obligations"] = k.blocksChecked + len(order)
	r.floor("stored elementary files", len(order), 30)
	r.floor("places", len(keys), 30)
	if p10 {
		n := 0
		for _, v := range k.keeps {
			if v {
				n++
			}
		}
		r.floor("places with signatures", n, 20)
	}
}

func keysOf(m map[string]*term) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}

func (k *cardIO) writer(prop string, present []string, accept map[string]map[string]efGen, table map[efGen]string, pos string, expect map[string]string) {
	r := k.r
	p09, p10 := prop == "P09", prop == "P10"
	outs, ok := k.serialise(present)
	if !ok {
		return
	}
	label := strings.Join(present, " + ")
	if len(outs) == 0 {
		if p09 {
			r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: "no path serialises a file with " + label})
		}
		return
	}
	full := map[string]bool{}
	for _, em := range outs {
		if em.bad != "" {
			r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: em.bad})
			continue
		}
		count := map[string]int{}
		last := ""
		var lastBlock block
		for _, b := range em.blocks {
			k.blocksChecked++
			key, sig := "", false
			if b.seq != nil {
				key, sig = em.fieldOfContent(b.seq)
			}
			if sig || b.app&1 == 1 {
				// a signature block
				switch {
				case !p10:
				case !sig:
					r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: fmt.Sprintf("a signature block (%04X/%02X) does not hold the stored signature of %s", b.fid, b.app, valueOr(last, "any place"))})
				case key != last:
					r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: fmt.Sprintf("the signature of %s follows the block of %s", key, valueOr(last, "no file"))})
				case b.fid != lastBlock.fid || b.app != lastBlock.app+1:
					r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: fmt.Sprintf("the signature of %s is written as %04X/%02X behind a data block %04X/%02X", key, b.fid, b.app, lastBlock.fid, lastBlock.app)})
				case b.why != "":
					r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: "the signature block of " + key + ": " + b.why})
				}
				if sig {
					em.sigs[key] = true
				}
				last = ""
				continue
			}
			last, lastBlock = key, b
			if key == "" {
				// content that is not from the file
				if p09 {
					r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: fmt.Sprintf("a block %04X/%02X is written whose content comes from no place of the file", b.fid, b.app)})
				}
				continue
			}
			count[key]++
			if !p09 {
				continue
			}
			if b.why != "" {
				r.add(Finding{Rule: "length", Fn: fname(k.write), What: key, Pos: pos, Msg: fmt.Sprintf("block %04X/%02X: %s", b.fid, b.app, b.why)})
			}
			gen := int64(1)
			if b.app >= 2 {
				gen = 2
			}
			id := fmt.Sprintf("%04X/%d", b.fid, gen)
			acc := accept[key]
			if _, ok := acc[id]; !ok || b.app != (gen-1)*2 {
				var as []string
				for a := range acc {
					as = append(as, a)
				}
				sort.Strings(as)
				r.add(Finding{Rule: "identifier", Fn: fname(k.write), What: key, Pos: pos, Msg: fmt.Sprintf("is written as %04X/%02X but read from %s (identifier/generation)", b.fid, b.app, strings.Join(as, ", "))})
			} else if len(acc) > 1 {
				var as []string
				for a := range acc {
					as = append(as, a)
				}
				sort.Strings(as)
				r.add(Finding{Rule: "identifier", Fn: fname(k.write), What: key, Pos: pos, Msg: fmt.Sprintf("is accepted as %s but always written as %s: what was read under the other tag comes back under a different one", strings.Join(as, " and "), id)})
			}
		}
		all := true
		for _, p := range present {
			if count[p] > 1 && p09 {
				r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: fmt.Sprintf("%s is written %d times", p, count[p])})
			}
			if count[p] == 0 {
				// only an empty certificate may be left out
				if p09 && !em.knownEmpty(p) {
					r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: p + " is present but not written"})
				}
				all = false
			}
			if p10 && count[p] > 0 && k.keeps[p] && !em.sigs[p] {
				s := em.e.mk("get:Signature", em.paths[p])
				if em.e.nilness(em.st, s) != 'n' && em.e.truth(em.st, em.e.mk("==", em.e.mk("len", s), intTerm(em.e, 0))) != 't' {
					r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: "the stored signature of " + p + " is not written behind its data block"})
				}
			}
			if p10 && em.sigs[p] {
				full["sig:"+p] = true
			}
		}
		for key := range count {
			found := false
			for _, p := range present {
				found = found || p == key
			}
			if !found && p09 {
				r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: key + " is written although the file has none"})
			}
		}
		full["all"] = full["all"] || all
	}
	if p09 && !full["all"] {
		r.add(Finding{Rule: "writer", Fn: fname(k.write), What: label, Pos: pos, Msg: "no path writes all of " + label})
	}
	if p10 {
		for _, p := range present {
			if k.keeps[p] && !full["sig:"+p] {
				r.add(Finding{Rule: "signature", Fn: fname(k.write), What: label, Pos: pos, Msg: "no path writes the stored signature of " + p})
			}
		}
	}
}

func valueOr(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// knownEmpty: the path has found the raw content of the place to be empty.
func (em *emission) knownEmpty(key string) bool {
	m := em.paths[key]
	for t, v := range em.st.facts {
		if v != 't' || t.op != "==" || t.args[0].op != "len" {
			continue
		}
		if n, ok := intOf(t.args[1]); !ok || n != 0 {
			continue
		}
		if k, sig := em.fieldOfContent(t.args[0].args[0]); k == key && !sig {
			return true
		}
	}
	_ = m
	return false
}

// readerSignatures: a signature record is stored with the file of the record
// before it when that has the same identifier and generation, and nowhere else.
func (k *cardIO) readerSignatures(order []efGen, table map[efGen]string, signedOK map[efGen]bool, data, sigc int64, pos string) {
	r := k.r
	for _, eg := range order {
		label := fmt.Sprintf("%s Gen%d", k.efName(eg.ef), eg.gen)
		f := k.byKey[table[eg]]
		// with its own signature
		outs, ok := k.parse([]rec{{ef: eg.ef, gen: eg.gen, content: data}, {ef: eg.ef, gen: eg.gen, content: sigc}})
		if !ok {
			return
		}
		kept := false
		for _, s := range outs {
			m := s.at[f.key()]
			if m == nil {
				continue
			}
			sg := s.sig(m)
			if sg == s.e.mk("get:Value", s.items[1]) {
				kept = true
			} else {
				r.add(Finding{Rule: "signature", Fn: fname(k.read), What: label, Pos: pos, Msg: "a file followed by its signature is accepted, but the signature is not stored with it"})
			}
		}
		signedOK[eg] = kept
		k.keeps[table[eg]] = k.keeps[table[eg]] || kept
		// a signature of unknown file and generation
		outs, ok = k.parse([]rec{{ef: eg.ef, gen: eg.gen, content: data}, {content: sigc, symbolic: true}})
		if !ok {
			return
		}
		for _, s := range outs {
			same := true
			for _, fl := range []struct {
				n string
				v int64
			}{{"File", eg.ef}, {"Generation", eg.gen}} {
				t := s.e.mk("==", s.e.mk("get:"+fl.n, s.items[1]), intTerm(s.e, fl.v))
				same = same && s.e.truth(s.st, t) == 't'
			}
			if !same {
				r.add(Finding{Rule: "signature", Fn: fname(k.read), What: label, Pos: pos, Msg: "a signature record that follows it is accepted without being known to be of the same file and generation"})
			}
		}
	}
	// a file that follows a signed one has no signature of its own
	for _, a := range order {
		if !signedOK[a] {
			continue
		}
		for _, b := range order {
			if a == b || table[a] == table[b] {
				continue
			}
			outs, ok := k.parse([]rec{{ef: a.ef, gen: a.gen, content: data}, {ef: a.ef, gen: a.gen, content: sigc}, {ef: b.ef, gen: b.gen, content: data}})
			if !ok {
				return
			}
			for _, s := range outs {
				ma, mb := s.at[table[a]], s.at[table[b]]
				label := fmt.Sprintf("%s Gen%d, %s Gen%d", k.efName(a.ef), a.gen, k.efName(b.ef), b.gen)
				if ma == nil || mb == nil {
					r.add(Finding{Rule: "signature", Fn: fname(k.read), What: label, Pos: pos, Msg: "one of the two files is not stored"})
					continue
				}
				if s.sig(ma) != s.e.mk("get:Value", s.items[1]) || s.sig(mb) != nil {
					r.add(Finding{Rule: "signature", Fn: fname(k.read), What: label, Pos: pos, Msg: "the signature of the first file is not kept with it alone"})
				}
			}
			if len(r.Findings) > 40 {
				return
			}
		}
	}
}
