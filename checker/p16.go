package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P16"] = check{level: "other", run: runP16} }

// P16: splitting a card dump into records and joining them again.
//
// The splitter is followed over a symbolic dump, the joiner over each result it can
// accept. What the joiner writes must be the bytes of the dump, in order, from the
// first to the last, and the path must have established that there are no more.

type rawIO struct {
	c           *Ctx
	r           *Report
	e           *tpath
	in          *term
	read, write *ssa.Function
	fid         map[int64]map[int64]bool // file identifier -> elementary files (some share one)
	data, sig   int64
	seen        map[string]bool
	records     int
	accepted    int
	joined      int
	depth       int
	obls        int
	bytes       int
}

func (k *rawIO) find(rule string, fn *ssa.Function, what, msg string) {
	if k.seen[rule+what+msg] {
		return
	}
	k.seen[rule+what+msg] = true
	k.r.add(Finding{Rule: rule, Fn: fname(fn), What: what, Pos: relPos(k.c.P.SSA.Fset.Position(fn.Pos())), Msg: msg})
}

func runP16(c *Ctx, r *Report) {
	isRead, isWrite := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for f := range c.P.All {
		if !isRepoFunc(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if returnsMsg(f, "RawCardFile") && takesBytes(f) {
			isRead[f] = true
		}
		res := f.Signature.Results()
		if res.Len() == 2 && isByteSlice(res.At(0).Type()) && isErrorType(res.At(1).Type()) && takesMsg(f, "RawCardFile") {
			isWrite[f] = true
		}
	}
	k := &rawIO{c: c, r: r, read: outermost(isRead), write: outermost(isWrite), fid: map[int64]map[int64]bool{}, data: -1, sig: -1, seen: map[string]bool{}}
	enums, _, _ := c.descriptors()
	ext := -1
	for g, n := range c.extFields() {
		if g.Name() == "E_FileId" {
			ext = n
		}
	}
	for _, en := range enums {
		for _, v := range en.vals {
			switch {
			case en.name == "ElementaryFileType":
				if x, ok := v.opts[ext]; ok {
					if k.fid[x] == nil {
						k.fid[x] = map[int64]bool{}
					}
					k.fid[x][v.num] = true
				}
			case en.name == "ContentType" && strings.Contains(en.goPkg, "/card/") && v.name == "DATA":
				k.data = v.num
			case en.name == "ContentType" && strings.Contains(en.goPkg, "/card/") && v.name == "SIGNATURE":
				k.sig = v.num
			}
		}
	}
	if k.read == nil || k.write == nil || len(k.fid) == 0 || k.data < 0 || k.sig < 0 {
		r.add(Finding{Rule: "undecided", Fn: "internal/card", What: "anchors", Msg: "the raw card file reader, writer or their enums are gone"})
		return
	}
	// with the identifier looked up in the schema, and for longer dumps with the
	// lookup as one opaque function of the identifier
	if !k.run(1, false) {
		k.find("undecided", k.read, "path budget", "too many paths to enumerate")
		return
	}
	deepest := 3
	if c.Tier == "thorough" {
		k.run(2, false)
		deepest = 5
	}
	for n := deepest; n > 1 && !k.run(n, true); n-- {
	}
	r.Cov["rule"] = "every byte the joiner writes for an accepted dump is the next byte of the dump; the path has established that the dump ends there; tag, length, value, content type, generation and file of each record are those of its bytes"
	r.Cov["joining_paths"] = k.joined
	r.Cov["bytes_and_stretches"] = k.bytes
	r.Cov["max_records_followed"] = k.depth
	r.Cov["obligations"] = k.obls
	r.floor("accepting paths", k.accepted, 7)
	r.floor("records", k.records, 8)
}

// loopsOverEnum: the function of the block handles enum reflection.
func loopsOverEnum(b *ssa.BasicBlock) bool {
	for _, ci := range callsOf(b.Parent()) {
		n := callName(ci.Common())
		if strings.Contains(n, "protoreflect") || strings.Contains(n, "Descriptor") {
			return true
		}
	}
	return false
}

// split checks one accepting path: the records and the end of the dump.
func (k *rawIO) split(o toutcome, full map[string]bool) (int, bool) {
	e := k.e
	lst := o.st.fields[o.res[0].key+".Records"]
	var items []*term
	if lst != nil && unstored(lst).op != "nil" {
		items = e.listOf(o.st, lst)
		if items == nil {
			k.find("undecided", k.read, "records", "the list of records could not be followed")
			return 0, false
		}
	}
	at := linT{}
	for i, it := range items {
		k.records++
		k.obls += 4 // tag, length, value, file
		label := fmt.Sprintf("record %d", i+1)
		get := func(f string) *term {
			if v := o.st.fields[it.key+"."+f]; v != nil {
				return unstored(v)
			}
			return intTerm(e, 0)
		}
		var head []*term
		for j := int64(0); j < 5; j++ {
			head = append(head, e.byteAt(k.in, at.add(linT{k: j}, 1)))
		}
		if !k.isInt(get("Tag"), head[:3]) {
			k.find("split", k.read, label+" tag", "the tag is not the three bytes at the start of the record")
		}
		if !k.isInt(get("Length"), head[3:]) {
			k.find("split", k.read, label+" length", "the length is not the two bytes behind the tag")
		}
		base, lo, hi, ok := e.rng(o.st, get("Value"))
		end := at.add(linT{k: 5}, 1).add(e.linOf(o.st, e.mk("cat", head[3], head[4]), never), 1)
		if !ok || base != k.in || !lo.eq(at.add(linT{k: 5}, 1)) || !hi.eq(end) {
			// a value that is known to be empty may be kept as none
			if !(k.zero(o.st, end.add(at, -1).add(linT{k: 5}, -1)) && e.isEmptySeq(o.st, get("Value"))) {
				k.find("split", k.read, label+" value", "the value is not the bytes behind the length, as many as it says")
				return 0, false
			}
		}
		for v := int64(0); v < 4; v++ {
			if !k.possible(o.st, head[2], v) {
				continue
			}
			full[fmt.Sprint(v)] = true
			k.obls += 2 // content type, generation
			ct, gen := k.data, int64(1)
			if v&1 == 1 {
				ct = k.sig
			}
			if v&2 == 2 {
				gen = 2
			}
			if n, ok := k.eval(get("ContentType"), head[2], v); !ok || n != ct {
				k.find("split", k.read, fmt.Sprintf("tag byte %d content type", v), "the content type does not follow the lowest bit of the third tag byte")
			}
			if n, ok := k.eval(get("Generation"), head[2], v); !ok || n != gen {
				k.find("split", k.read, fmt.Sprintf("tag byte %d generation", v), "the generation does not follow the second bit of the third tag byte")
			}
		}
		k.file(o.st, get("File"), head, label)
		at = end
	}
	k.obls++
	if !k.ends(o.st, at) {
		k.find("split", k.read, "end of dump", fmt.Sprintf("a dump is accepted without being known to end behind its last record (%d records)", len(items)))
	}
	for a, v := range o.st.cells {
		if a.op == "scan.max" {
			if n, ok := intOf(v); !ok || n < 5+65535 {
				k.find("split", k.read, "record size", "the scanner's limit is below the longest record of the format (5 + 65535 bytes)")
			}
		}
	}
	return len(items), true
}

func (e *tpath) isEmptySeq(st *tstate, t *term) bool {
	t = unstored(t)
	return t.op == "nil" || e.nilness(st, t) == 'n' || t.op == "obj" && len(st.content[t]) == 0
}

// isInt: the integer made of these bytes, the highest first.
func (k *rawIO) isInt(t *term, want []*term) bool {
	bs := k.e.bits(t)
	for i := 0; i < 64; i++ {
		if i >= 8*len(want) {
			if bs[i] != (bit{}) {
				return false
			}
			continue
		}
		if bs[i] != (bit{src: want[len(want)-1-i/8], i: i % 8}) {
			return false
		}
	}
	return true
}

// file: the elementary file is the one the schema gives the identifier.
func (k *rawIO) file(st *tstate, t *term, head []*term, label string) {
	e := k.e
	n, ok := intOf(t)
	if !ok {
		// looked up some other way: at least from nothing but the identifier
		bad := false
		uses := 0
		seen := map[*term]bool{}
		var rec func(x *term)
		rec = func(x *term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.op == "in" {
				uses++
				bad = bad || x != head[0] && x != head[1]
				return
			}
			for _, a := range x.args {
				rec(a)
			}
		}
		rec(t)
		if bad || uses != 2 {
			k.find("split", k.read, label+" file", "the file is not found from the two bytes of the identifier")
		}
		return
	}
	// the identifiers this path leaves possible
	cat := e.mk("cat", head[0], head[1])
	if fid, ok := k.known(st, cat); ok {
		if !k.fid[fid][n] && (n != 0 || k.fid[fid] != nil) {
			k.find("split", k.read, fmt.Sprintf("file %04X", fid), fmt.Sprintf("identifier %04X is taken for elementary file %d, which the schema does not give it", fid, n))
		}
		return
	}
	if n != 0 {
		k.find("split", k.read, label+" file", fmt.Sprintf("elementary file %d is given to records of unknown identifier", n))
		return
	}
	for fid, efs := range k.fid {
		if !efs[n] && k.possible2(st, cat, fid) {
			k.find("split", k.read, fmt.Sprintf("file %04X", fid), fmt.Sprintf("identifier %04X can be taken for an unknown one", fid))
		}
	}
}

func (k *rawIO) known(st *tstate, cat *term) (int64, bool) {
	for t, v := range st.facts {
		if v == 't' && t.op == "==" {
			for i := 0; i < 2; i++ {
				if n, ok := intOf(t.args[i]); ok && k.sameInt(t.args[1-i], cat) {
					return n, true
				}
			}
		}
	}
	return 0, false
}

func (k *rawIO) sameInt(a, b *term) bool {
	x, y := k.e.bits(a), k.e.bits(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// possible2: the path does not exclude the integer having the value.
func (k *rawIO) possible2(st *tstate, cat *term, val int64) bool {
	for t, v := range st.facts {
		if t.op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if n, ok := intOf(t.args[i]); ok && k.sameInt(t.args[1-i], cat) && (n == val) != (v == 't') {
				return false
			}
		}
	}
	return true
}

// possible: the path does not exclude the byte having the value.
func (k *rawIO) possible(st *tstate, b *term, val int64) bool {
	for t, v := range st.facts {
		if v != 't' && v != 'f' {
			continue
		}
		if x, ok := k.eval(t, b, val); ok && (x != 0) != (v == 't') {
			return false
		}
	}
	return true
}

// eval: the value of a term that depends on one byte only.
func (k *rawIO) eval(t, b *term, val int64) (int64, bool) {
	if t == b {
		return val, true
	}
	if n, ok := intOf(t); ok {
		return n, true
	}
	if t.cst != nil && t.cst.Kind() == constant.Bool {
		if constant.BoolVal(t.cst) {
			return 1, true
		}
		return 0, true
	}
	truth := func(v bool) (int64, bool) {
		if v {
			return 1, true
		}
		return 0, true
	}
	var xs []int64
	for _, a := range t.args {
		x, ok := k.eval(a, b, val)
		if !ok {
			return 0, false
		}
		xs = append(xs, x)
	}
	switch {
	case strings.HasPrefix(t.op, "conv:") && len(xs) == 1:
		switch convBytes(t.op) {
		case 1:
			return xs[0] & 0xff, !strings.Contains(t.op, "int8") || strings.Contains(t.op, "uint8")
		case 2, 4, 8:
			return xs[0], xs[0] >= 0 && xs[0] < 1<<15
		}
		return xs[0], xs[0] >= 0 && xs[0] < 128
	case t.op == "byte" && len(xs) == 2:
		return xs[0] >> (8 * xs[1]) & 0xff, true
	case t.op == "cat":
		n := int64(0)
		for _, x := range xs {
			n = n<<8 | x
		}
		return n, true
	case t.op == "not" && len(xs) == 1:
		return truth(xs[0] == 0)
	case len(xs) != 2:
		return 0, false
	case t.op == "==":
		return truth(xs[0] == xs[1])
	case t.op == "<":
		return truth(xs[0] < xs[1])
	}
	i := strings.IndexByte(t.op, ':')
	if !strings.HasPrefix(t.op, "bin") || i < 0 {
		return 0, false
	}
	a, c := xs[0], xs[1]
	switch t.op[i+1:] {
	case "&":
		return a & c, true
	case "|":
		return a | c, true
	case "^":
		return a ^ c, true
	case "&^":
		return a &^ c, true
	case "+":
		return a + c, a+c < 128
	case "-":
		return a - c, a-c >= 0
	case "*":
		return a * c, a*c < 128
	case "/":
		if c > 0 && a >= 0 {
			return a / c, true
		}
	case "%":
		if c > 0 && a >= 0 {
			return a % c, true
		}
	case "<<":
		if c >= 0 && c < 8 {
			return a << c, a<<c < 128
		}
	case ">>":
		if c >= 0 && c < 64 {
			return a >> c, true
		}
	}
	return 0, false
}

// zero: the path knows the (never negative) quantity to be zero.
func (k *rawIO) zero(st *tstate, d linT) bool {
	if len(d.c) == 0 {
		return d.k <= 0
	}
	for t, v := range st.facts {
		if len(t.args) != 2 || v != 't' && v != 'f' || t.op != "==" && t.op != "<" {
			continue
		}
		if !k.integer(t.args[0]) || !k.integer(t.args[1]) {
			continue
		}
		x := k.e.linOf(st, t.args[0], never)
		y := k.e.linOf(st, t.args[1], never)
		le := func(l linT) bool { // l <= 0 is known; does d <= 0 follow?
			g := d.add(l, -1)
			return len(g.c) == 0 && g.k <= 0
		}
		switch {
		case t.op == "==" && v == 't':
			if le(x.add(y, -1)) || le(y.add(x, -1)) {
				return true
			}
		case t.op == "<" && v == 't': // x - y + 1 <= 0
			if le(x.add(y, -1).add(linT{k: 1}, 1)) {
				return true
			}
		case t.op == "<" && v == 'f': // y - x <= 0
			if le(y.add(x, -1)) {
				return true
			}
		}
	}
	return false
}

func (k *rawIO) integer(t *term) bool {
	_, isInt := intOf(t)
	return isInt || t.op == "len" || t.op == "cat" || t.op == "in" || strings.HasPrefix(t.op, "lin:") || strings.HasPrefix(t.op, "conv:") || strings.HasPrefix(t.op, "bin:")
}

// ends: the path knows that the dump has no bytes behind that place.
func (k *rawIO) ends(st *tstate, at linT) bool {
	return k.zero(st, k.e.seqLen(k.in).add(at, -1))
}

// join checks that what is written is the dump.
func (k *rawIO) join(w toutcome) {
	e := k.e
	cs, ok := e.flatten(w.st, w.res[0], never)
	if !ok && e.nilness(w.st, w.res[0]) != 'n' {
		k.find("undecided", k.write, "output", "what is written could not be followed")
		return
	}
	cs = e.patched(w.st, cs, never)
	at := linT{}
	for _, c := range cs {
		k.bytes++
		k.obls++
		if c.b != nil {
			b, ok := e.sameByte(c.b)
			if !ok {
				k.find("join", k.write, "byte", fmt.Sprintf("a byte is written that is not a byte of the dump (%s of the record)", k.place(at)))
				return
			}
			if b.args[0] != k.in || !e.inAt[b].eq(at) {
				k.find("join", k.write, "byte", fmt.Sprintf("%s of the record is not written where it was read", k.place(at)))
				return
			}
			at = at.add(linT{k: 1}, 1)
			continue
		}
		base, lo, hi, ok := e.rng(w.st, c.seq)
		if !ok || base != k.in || !lo.eq(at) {
			if e.isEmptySeq(w.st, c.seq) {
				continue
			}
			k.find("join", k.write, "stretch", "the value is not written where it was read")
			return
		}
		at = hi
	}
	k.obls++
	if !k.ends(w.st, at) {
		k.find("join", k.write, "end", "what is written is not known to be all of the dump")
	}
}

func (k *rawIO) place(l linT) string {
	return fmt.Sprintf("byte %d", l.k)
}

// run follows dumps of up to that many records.
func (k *rawIO) run(depth int, opaque bool) bool {
	e := newTpath(k.c)
	e.unroll, e.keepAll, e.bytes, e.maxIter, e.maxScan = true, true, true, depth+1, depth
	e.budget = 4000000
	e.model = k.c.newDescModel()
	e.inline = isRepoFunc
	k.e = e
	// loops over the enum of files are followed to their end, record loops are not
	e.limit = func(b *ssa.BasicBlock) int {
		if b.Parent() != nil && e.model != nil && loopsOverEnum(b) {
			return 256
		}
		return e.maxIter
	}
	if opaque {
		e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
			res := g.Signature.Results()
			if !isRepoFunc(g) || res.Len() == 0 || len(args) != 1 || g.Signature.Recv() != nil {
				return nil
			}
			n := namedOf(res.At(0).Type())
			p, ok := g.Signature.Params().At(0).Type().Underlying().(*types.Basic)
			if n == nil || n.Obj().Name() != "ElementaryFileType" || !ok || p.Info()&types.IsInteger == 0 {
				return nil
			}
			t := e.mk("lookup:"+fname(g), args...)
			var out []*term
			for i := 0; i < res.Len(); i++ {
				out = append(out, e.mk(fmt.Sprintf("ret%d", i), t))
			}
			return out
		}
	}
	k.in = nil
	var args []*term
	for i, p := range k.read.Params {
		t := e.mk(fmt.Sprintf("arg%d:in", i))
		if isByteSlice(p.Type()) && k.in == nil {
			k.in = t
		}
		args = append(args, t)
	}
	outs := e.exec(k.read, args, nil, newTstate(), "", 0)
	if e.over {
		return false
	}
	if depth > k.depth {
		k.depth = depth
	}
	counts := map[int]int{}
	full := map[string]bool{}
	for _, o := range outs {
		if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
			continue
		}
		k.accepted++
		n, ok := k.split(o, full)
		if !ok {
			continue
		}
		counts[n]++
		var wargs []*term
		for i, p := range k.write.Params {
			if isProtoMsg(p.Type()) {
				wargs = append(wargs, o.res[0])
			} else {
				wargs = append(wargs, e.mk(fmt.Sprintf("arg%d:opts", i)))
			}
		}
		ws := e.exec(k.write, wargs, nil, o.st.clone(), "w", 0)
		if e.over {
			return false
		}
		ok = false
		for _, w := range ws {
			if e.nilness(w.st, w.res[1]) == 'N' {
				k.find("join", k.write, "accepted", "refuses records that the splitter has accepted")
				continue
			}
			k.joined++
			ok = true
			k.join(w)
		}
		if !ok {
			k.find("join", k.write, "accepted", "no path joins the records of an accepted dump")
		}
	}
	for n := 0; n <= depth; n++ {
		if counts[n] == 0 {
			k.find("split", k.read, fmt.Sprintf("%d records", n), "no path accepts a dump of that many records")
		}
	}
	for _, v := range []string{"0", "1", "2", "3"} {
		if !full[v] {
			k.find("split", k.read, "tag byte "+v, "no path accepts a record with this tag byte")
		}
	}
	return true
}
