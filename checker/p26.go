package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P26"] = check{level: "other", run: runWhole} }

// P26: what an elementary file reader accepts, its writer gives back byte for byte.
//
// The reader is followed over inputs of every length up to a bound, each byte a
// symbol of its own, and the writer over the messages that come out, unchanged.
// Records of a fixed layout are opaque parts whose reader and writer are inverse
// (P14, P15).

func runWhole(c *Ctx, r *Report) {
	k := newLayouts(c, r)
	max := int64(250)
	if c.Tier == "thorough" {
		max = 1200
	}
	k.budget = 600000
	if s := os.Getenv("P26MAX"); s != "" {
		fmt.Sscan(s, &max)
	}
	read := k.fileReaders()
	var writers []sizeFn
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) || strings.HasSuffix(funcPkg(f).Path(), "/internal/vu") {
			continue
		}
		if s, ok := writerShape(f); ok {
			writers = append(writers, s)
		}
	}
	pairs, readers, leafKey := k.fixedPairs()
	k.textPairs(readers, leafKey)
	k.recordParts(pairs)
	writers = withoutParts(c, writers)
	only := os.Getenv("P26ONLY")
	files, lens, paths := 0, 0, 0
	reached := map[string]string{}
	e := newNumEng(c)
	var roots []*ssa.Function
	for _, s := range read {
		roots = append(roots, s.f)
	}
	e.scope = c.P.reach(roots...)
	for _, s := range read {
		for _, w := range writers {
			if w.key != s.key || only != "" && !strings.Contains(fname(s.f), only) {
				continue
			}
			t0 := time.Now()
			f := &wholeFile{k: k, stride: 0}
			for _, n := range lengthsOf(e, s, max) {
				f.layoutPair = layoutPair{rd: s, wr: w, n: n}
				p, ok := f.follow()
				paths += p
				lens++
				if !ok {
					break
				}
				f.upTo = n
				if p > 300 {
					break
				}
			}
			label := fname(s.f) + " / " + fname(w.f)
			if f.accepted == 0 {
				k.undec = append(k.undec, label+": no length is accepted")
			} else {
				files++
				f.withoutRaw()
				reached[label] = fmt.Sprintf("%d lengths accepted up to %d bytes, records of %d bytes", f.accepted, f.upTo, f.stride)
			}
			acc := f.accepted
			if os.Getenv("P14TRACE") != "" {
				fmt.Println(fname(s.f), fname(w.f), "lengths accepted", acc, "paths", paths, time.Since(t0))
			}
		}
	}
	sort.Strings(k.undec)
	r.Cov["rule"] = "for every length up to the bound, a file the reader accepts is written back with the bytes it was read from"
	r.Cov["files"] = files
	r.Cov["lengths"] = lens
	r.Cov["paths"] = paths
	r.Cov["bytes"] = k.bits
	r.Cov["undecided"] = k.undec
	r.Cov["reached"] = reached
	r.Cov["entry_readers"] = k.entryLists(read)
	r.Cov["obligations"] = k.bits + k.entries
	if only == "" {
		r.floor("files followed", files, 10)
	}
}

// fileReaders: what the reader of a card file calls for the value of one file.
func (k *layouts) fileReaders() []sizeFn {
	var out []sizeFn
	seen := map[*ssa.Function]bool{}
	for _, f := range sortedFuncs(k.c.P.All) {
		if !isRepoFunc(f) || f.Synthetic != "" || !returnsMsg(f, "DriverCardFile") || !takesMsg(f, "RawCardFile") {
			continue
		}
		var rec func(f *ssa.Function, d int)
		rec = func(f *ssa.Function, d int) {
			if seen[f] || d > 6 {
				return
			}
			seen[f] = true
			for _, ci := range callsOf(f) {
				g := ci.Common().StaticCallee()
				if g == nil || !isRepoFunc(g) || seen[g] || len(g.Blocks) == 0 || isProtoPkg(funcPkg(g)) {
					continue
				}
				if s, ok := readerShape(g); ok && s.msg < 0 && isProtoMsg(g.Signature.Results().At(0).Type()) {
					seen[g] = true
					out = append(out, s)
					continue
				}
				rec(g, d+1)
			}
		}
		rec(f, 0)
	}
	return out
}

// recordParts: readers and writers of fixed layouts, unless their caller changes what
// they return.
func (k *layouts) recordParts(pairs []layoutPair) {
	k.recR, k.recW = map[*ssa.Function]recPart{}, map[*ssa.Function]recPart{}
	changed := map[string]bool{}
	for f := range k.c.P.All {
		if !isRepoFunc(f) || isProtoPkg(funcPkg(f)) {
			continue
		}
		for _, ci := range callsOf(f) {
			g := ci.Common().StaticCallee()
			if g == nil || !isProtoPkg(funcPkg(g)) || !strings.HasPrefix(g.Name(), "Set") || len(ci.Common().Args) == 0 {
				continue
			}
			if a := ci.Common().Args; len(a) == 2 && isTrue(a[1]) {
				continue // part of the message the pair was compared with (P14)
			}
			if call, ok := resultOf(ci.Common().Args[0]); ok {
				if h := call.Common().StaticCallee(); h != nil {
					if s, ok := readerShape(h); ok {
						changed[s.key] = true
					}
				}
			}
		}
	}
	for _, p := range pairs {
		if p.rd.msg >= 0 || p.wr.msg < 0 || changed[p.rd.key] || !isProtoMsg(p.rd.f.Signature.Results().At(0).Type()) {
			continue
		}
		k.recR[p.rd.f] = recPart{key: p.rd.key, n: p.n, data: p.rd.data, fails: k.canFail(p)}
		k.recW[p.wr.f] = recPart{key: p.rd.key, n: p.n, data: p.wr.data, msg: p.wr.msg}
	}
}

func isTrue(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
}

// canFail: the reader refuses some input of its size.
func (k *layouts) canFail(p layoutPair) bool {
	q := &layouts{c: k.c, r: k.r, enums: k.enums, proto: k.proto, leafR: k.leafR, leafW: k.leafW, codec: k.codec, seen: k.seen, budget: k.budget}
	e, in, _ := q.engine(false, p)
	for _, o := range e.exec(p.rd.f, readerArgs(e, p, in), nil, newTstate(), "", 0) {
		if len(o.res) < 2 || e.nilness(o.st, o.res[1]) != 'n' {
			if os.Getenv("P14TRACE") == "2" {
				fmt.Println("fails", fname(p.rd.f), o.res[1].key)
			}
			return true
		}
	}
	return e.over
}

func readerArgs(e *tpath, p layoutPair, in *term) []*term {
	var args []*term
	for i := range p.rd.f.Params {
		if i == p.rd.data {
			args = append(args, in)
		} else {
			args = append(args, e.mk(fmt.Sprintf("arg%d:opts", i)))
		}
	}
	return args
}

// resultOf: the call whose result a value is.
func resultOf(v ssa.Value) (*ssa.Call, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Call:
			return x, true
		default:
			return nil, false
		}
	}
}

// lengthsOf: the lengths to follow: all up to the bound, and those around what a
// reader asks for.
func lengthsOf(e *numEng, s sizeFn, max int64) []int64 {
	var ns []int64
	last := max
	if lo, hi, any := e.analyse(s.f).unit.lenBounds(s.data); any && hi != nil && *hi < 2000 {
		last = *hi + 2
		if lo != nil && *lo > max {
			for n := int64(0); n <= 20; n++ {
				ns = append(ns, n)
			}
			for n := *lo - 2; n <= last; n++ {
				ns = append(ns, n)
			}
			return ns
		}
	}
	for n := int64(0); n <= last; n++ {
		ns = append(ns, n)
	}
	return ns
}

// wholeFile is one file, followed for growing lengths.
type wholeFile struct {
	k *layouts
	layoutPair
	accepted int
	opaque   bool // lists are left out
	refusals bool // only what is refused (P28)
	upTo     int64
	stride   int64           // the largest record seen
	bare     map[int64]int64 // by length: what is written without the raw bytes
}

func (f *wholeFile) label() string { return fname(f.rd.f) + " / " + fname(f.wr.f) }

func (f *wholeFile) undecided(format string, args ...any) {
	f.k.undec = append(f.k.undec, f.label()+": "+fmt.Sprintf(format, args...))
}

func (f *wholeFile) follow() (paths int, done bool) {
	over := false
	if !f.opaque {
		if paths, done, over = f.run(false); !over {
			return paths, done
		}
	}
	// what makes lists of messages from bytes is left out: the raw bytes have to do
	f.opaque = true
	if paths, done, over = f.run(true); over {
		f.undecided("too many paths for %d bytes", f.n)
	}
	return paths, done
}

func (f *wholeFile) run(opaque bool) (paths int, done, over bool) {
	k := f.k
	saved := k.budget
	defer func() { k.budget = saved }()
	if !opaque {
		k.budget = saved / 10
	}
	e, in, _ := k.engine(false, f.layoutPair)
	if opaque {
		inner := e.subst
		e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
			if res := g.Signature.Results(); g != f.rd.f && g != f.wr.f && res.Len() > 1 && isErrorType(res.At(res.Len()-1).Type()) {
				list := msgList(res.At(0).Type())
				for _, p := range g.Params {
					if list && isByteSlice(p.Type()) || msgList(p.Type()) {
						var out []*term
						for i := 0; i < res.Len(); i++ {
							out = append(out, e.mk(fmt.Sprintf("opaque%d:", i)+fname(g), args...))
						}
						return out
					}
				}
			}
			return inner(st, g, args)
		}
	}
	outs := e.exec(f.rd.f, readerArgs(e, f.layoutPair, in), nil, newTstate(), "", 0)
	if e.over {
		return 0, false, true
	}
	k.done = map[string]bool{}
	accepted := false
	for _, o := range outs {
		if len(o.res) > 1 && e.nilness(o.st, o.res[len(o.res)-1]) == 'N' {
			continue
		}
		msg := unstored(o.res[0])
		if e.nilness(o.st, msg) == 'n' {
			continue
		}
		accepted = true
		if raw := o.st.fields[msg.key+".RawData"]; raw != nil {
			if bs, ok := e.bl(o.st, unstored(raw)); ok {
				f.rawIs(e, in, bs)
			}
		}
		for _, bare := range []bool{false, true} {
			st := o.st.clone()
			if bare && f.refusals {
				continue
			}
			if bare {
				if st.fields[msg.key+".RawData"] == nil || opaque {
					continue
				}
				delete(st.fields, msg.key+".RawData")
			}
			before := st.clone()
			e.splitLess = f.refusals
			ws := e.exec(f.wr.f, k.writerArgs(e, f.layoutPair, msg), nil, st, "u", 0)
			e.splitLess = false
			if e.over {
				return paths, false, true
			}
			if f.refusals {
				k.refused(e, f.layoutPair, before, msg, ws)
				continue
			}
			for _, w := range ws {
				if len(w.res) > 1 && e.nilness(w.st, w.res[1]) == 'N' {
					continue
				}
				paths++
				bs, ok := e.bl(w.st, w.res[0])
				if !ok {
					if opaque && bareOf(w.res[0]) {
						continue
					}
					f.undecided("output not followed for %d bytes", f.n)
					return paths, false, false
				}
				if bare {
					if f.bare == nil {
						f.bare = map[int64]int64{}
					}
					if m, ok := f.bare[f.n]; !ok || int64(len(bs)) < m {
						f.bare[f.n] = int64(len(bs))
					}
				} else if int64(len(bs)) != f.n {
					k.find(f.wr.f, "length", fmt.Sprintf("a file of %d bytes, which %s accepts, is written back with %d", f.n, fname(f.rd.f), len(bs)))
					continue
				}
				f.compare(e, w.st, in, bs, bare)
			}
		}
		f.records(e, o.st, msg)
	}
	if accepted {
		f.accepted++
	}
	return paths, true, false
}

// bareOf: made of lists that were left out.
func bareOf(t *term) bool {
	if strings.HasPrefix(t.op, "opaque") {
		return true
	}
	for _, a := range t.args {
		if bareOf(a) {
			return true
		}
	}
	return false
}

func msgList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isProtoMsg(s.Elem())
}

// rawIs: the retained raw bytes are bytes of the file, in order and up to its end.
func (f *wholeFile) rawIs(e *tpath, in *term, bs []*term) {
	from := f.n - int64(len(bs))
	for i, b := range bs {
		f.k.bits++
		if b != e.byteAt(in, linT{k: from + int64(i)}) {
			f.k.find(f.rd.f, "raw", fmt.Sprintf("byte %d of the retained raw bytes of a file of %d bytes is not byte %d of the file", i, f.n, from+int64(i)))
			return
		}
	}
}

// records notes the size of the largest opaque record of the message's lists.
func (f *wholeFile) records(e *tpath, st *tstate, msg *term) {
	for name, v := range st.fields {
		if !strings.HasPrefix(name, msg.key+".") {
			continue
		}
		for _, x := range e.listOf(st, v) {
			if x = unstored(x); strings.HasPrefix(x.op, "leaf:") && int64(len(x.args)) > f.stride {
				f.stride = int64(len(x.args))
			}
		}
	}
}

// compare: the bytes written are those read, one by one.
func (f *wholeFile) compare(e *tpath, st *tstate, in *term, bs []*term, bare bool) {
	k := f.k
	known := k.knownBits(e, st)
	for i, o := range bs {
		here := e.byteAt(in, linT{k: int64(i)})
		if k.exact(e, known, o, here) {
			k.bits++
			continue
		}
		if bare {
			if o.op == "in" && o.args[0] == in {
				k.find(f.wr.f, fmt.Sprintf("byte %d", i), fmt.Sprintf("byte %d of a file of %d bytes is written from byte %d", i, f.n, e.inAt[o].k))
			}
			continue
		}
		key := fmt.Sprint(i, " ", o.key)
		if k.done[key] {
			continue
		}
		k.done[key] = true
		v, bad := k.differs(e, st, in, here, o)
		switch {
		case v == "":
			k.bits++
		case bad:
			k.find(f.wr.f, fmt.Sprintf("byte %d", i), fmt.Sprintf("byte %d of a file of %d bytes: %s", i, f.n, v))
		default:
			for d := range k.inputBytes(e, st, o, in) {
				if d != int64(i) && len(k.inputBytes(e, st, o, in)) == 1 {
					k.find(f.wr.f, fmt.Sprintf("byte %d", i), fmt.Sprintf("byte %d of a file of %d bytes is written from byte %d", i, f.n, d))
				}
			}
			f.undecided("byte %d of %d: %s", i, f.n, v)
		}
	}
}

// withoutRaw: with the raw bytes taken away, what is missing is less than a record.
func (f *wholeFile) withoutRaw() {
	if f.stride == 0 {
		// the records are followed inside: the distance of lengths that are complete
		last := int64(-1)
		for n := int64(0); n <= f.upTo; n++ {
			if m, ok := f.bare[n]; ok && m == n {
				if last >= 0 && n-last > f.stride {
					f.stride = n - last
				}
				last = n
			}
		}
		if f.stride == 0 {
			return
		}
	}
	for n, m := range f.bare {
		f.k.bits++
		if n-m >= f.stride && n != m {
			f.k.find(f.rd.f, "records", fmt.Sprintf("of a file of %d bytes, %d bytes are written when the raw bytes are not there: records of %d bytes are not all in the message", n, m, f.stride))
			return
		}
	}
}

// entryLists: below the files, readers whose message holds a list of entries: how
// many there are depends on the length alone, except for erased entries.
func (k *layouts) entryLists(read []sizeFn) []string {
	var out []string
	top, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, s := range read {
		top[s.f] = true
		roots = append(roots, s.f)
	}
	for _, g := range sortedFuncs(k.c.P.reach(roots...)) {
		if seen[g] || !isRepoFunc(g) || len(g.Blocks) == 0 || isProtoPkg(funcPkg(g)) {
			continue
		}
		seen[g] = true
		s, ok := readerShape(g)
		if _, rec := k.recR[g]; rec || !ok || s.msg >= 0 || g.Signature.Results().Len() != 2 || !hasMsgList(g.Signature.Results().At(0).Type()) {
			continue
		}
		lens := 0
		tails, counts := map[int64]int64{}, map[int64]int{}
		for n := int64(0); n <= 40; n++ {
			c, most, tail := k.entryCount(s, n)
			if c < 0 {
				break
			}
			if lens += c; c > 0 {
				tails[n], counts[n] = tail, most
			}
		}
		k.tails(g, tails, counts)
		if lens > 0 {
			out = append(out, fmt.Sprintf("%s: %d lengths", fname(g), lens))
		}
	}
	sort.Strings(out)
	return out
}

func hasMsgList(t types.Type) bool {
	for _, f := range protoFields(t) {
		if f.elem != "" && f.list {
			return true
		}
	}
	return false
}

// tails: what is not read at the end is less than what an entry takes.
func (k *layouts) tails(g *ssa.Function, tails map[int64]int64, counts map[int64]int) {
	size, last, count := int64(0), int64(-1), -1
	for n := int64(0); n <= 40; n++ {
		m, ok := counts[n]
		if !ok || m <= count {
			continue
		}
		if last >= 0 && count > 0 && (size == 0 || n-last < size) {
			size = n - last
		}
		last, count = n, m
	}
	if size == 0 {
		return
	}
	for n := int64(0); n <= 40; n++ {
		if tail, ok := tails[n]; ok {
			k.entries++
			if tail >= size {
				k.find(g, "tail", fmt.Sprintf("of %d bytes, the last %d are read into nothing, although an entry takes %d", n, tail, size))
				return
			}
		}
	}
}

// entryCount returns how many entries are read at most, and how many bytes at the end
// are not read by any path.
func (k *layouts) entryCount(s sizeFn, n int64) (lens, entries int, tail int64) {
	p := layoutPair{rd: s, n: n}
	saved := k.budget
	k.budget = saved / 10
	e, in, _ := k.engine(false, p)
	k.budget = saved
	outs := e.exec(s.f, readerArgs(e, p, in), nil, newTstate(), "", 0)
	if e.over {
		return -1, 0, 0
	}
	type res struct{ count, erased, size int }
	by := map[string][]res{}
	tail = n
	for _, o := range outs {
		if len(o.res) > 1 && e.nilness(o.st, o.res[1]) == 'N' {
			continue
		}
		msg := unstored(o.res[0])
		if e.nilness(o.st, msg) == 'n' {
			continue
		}
		used, text := k.readBits(e, o.st, msg, in, n)
		t := int64(0)
		for i := n - 1; i >= 0 && used[i] == 0 && !text[i]; i-- {
			t++
		}
		if t < tail {
			tail = t
		}
		erased := 0
		known := k.knownBits(e, o.st)
		for i := int64(0); i < n; i++ {
			all := true
			for j := 0; j < 8; j++ {
				v, ok := known[bit{src: e.byteAt(in, linT{k: i}), i: j}]
				all = all && ok && v
			}
			if all {
				erased++
			}
		}
		for _, f := range protoFields(s.f.Signature.Results().At(0).Type()) {
			if f.elem == "" || !f.list {
				continue
			}
			r := res{erased: erased}
			if v := o.st.fields[msg.key+"."+f.name]; v != nil {
				xs := e.listOf(o.st, v)
				r.count = len(xs)
				for _, x := range xs {
					if x = unstored(x); len(x.args) > r.size && strings.HasPrefix(x.op, "leaf:") {
						r.size = len(x.args)
					}
				}
			}
			by[f.name] = append(by[f.name], r)
		}
	}
	if len(by) == 0 {
		return 0, 0, 0
	}
	for name, rs := range by {
		most, size := 0, 1
		for _, r := range rs {
			if r.count > most {
				most = r.count
			}
			if r.size > size {
				size = r.size
			}
		}
		for _, r := range rs {
			k.entries++
			if (most-r.count)*size > r.erased {
				k.find(s.f, "entries "+name, fmt.Sprintf("of %d bytes, %d entries of %s are read for some contents and %d for others, although what is left out is not erased memory", n, most, name, r.count))
				return 1, 0, 0
			}
		}
		if most > entries {
			entries = most
		}
	}
	return 1, entries, tail
}
