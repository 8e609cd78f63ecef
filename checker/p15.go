package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15: a writer of a fixed-size element appends exactly the size its reader requires.

func init() {
	checks["P15"] = check{level: "proof", run: runSizes}
}

// elemKey names what a reader or writer handles: the message type, or the name
// of the element for scalar ones.
func elemKey(t types.Type) string {
	if isProtoMsg(t) {
		if n := namedOf(derefType(t)); n != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
	}
	return ""
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type sizeFn struct {
	f    *ssa.Function
	data int // index of the byte-slice parameter (among f.Params)
	msg  int // index of the message parameter, -1 if it is a result
	key  string
}

// readerShape: bytes in, one message out (result or out-parameter), nothing else but options.
func readerShape(f *ssa.Function) (sizeFn, bool) {
	s := sizeFn{f: f, data: -1, msg: -1}
	res := f.Signature.Results()
	if res.Len() == 0 || res.Len() > 2 || !isErrorType(res.At(res.Len()-1).Type()) {
		return s, false
	}
	for i, p := range f.Params {
		switch {
		case isByteSlice(p.Type()):
			if s.data >= 0 {
				return s, false
			}
			s.data = i
		case isProtoMsg(p.Type()):
			if s.msg >= 0 {
				return s, false
			}
			s.msg = i
			s.key = elemKey(p.Type())
		default:
			if _, ok := derefType(p.Type()).Underlying().(*types.Struct); !ok {
				return s, false
			}
		}
	}
	if s.data < 0 {
		return s, false
	}
	if res.Len() == 2 {
		if s.msg >= 0 {
			return s, false
		}
		t := res.At(0).Type()
		if k := elemKey(t); k != "" {
			s.key = k
		} else if isInt(t) {
			s.key = elemStem(f.Name())
		}
	}
	return s, s.key != ""
}

// writerShape: destination and message in, grown destination out.
func writerShape(f *ssa.Function) (sizeFn, bool) {
	s := sizeFn{f: f, data: -1, msg: -1}
	res := f.Signature.Results()
	if res.Len() == 0 || res.Len() > 2 || !isByteSlice(res.At(0).Type()) || res.Len() == 2 && !isErrorType(res.At(1).Type()) {
		return s, false
	}
	scalar := false
	for i, p := range f.Params {
		switch {
		case isByteSlice(p.Type()):
			if s.data >= 0 {
				return s, false
			}
			s.data = i
		case isProtoMsg(p.Type()):
			if s.msg >= 0 {
				return s, false
			}
			s.msg = i
			s.key = elemKey(p.Type())
		case isInt(p.Type()):
			if scalar {
				return s, false
			}
			scalar = true
		default:
			if _, ok := derefType(p.Type()).Underlying().(*types.Struct); !ok {
				return s, false
			}
		}
	}
	if s.key == "" && scalar {
		s.key = elemStem(f.Name())
	} else if scalar {
		return s, false
	}
	return s, s.key != "" && s.data >= 0
}

func elemStem(name string) string {
	l := strings.ToLower(name)
	for _, p := range []string{"append", "unmarshal", "parse", "marshal", "read", "write"} {
		if strings.HasPrefix(l, p) && len(l) > len(p) {
			return l[len(p):]
		}
	}
	return ""
}

// lenBounds are the bounds of len(par) known at every successful return.
func (u *nunit) lenBounds(par int) (lo, hi *int64, any bool) {
	sig := u.f.Signature
	errIdx := sig.Results().Len() - 1
	l := u.comp(u.val(u.f.Params[par], u.root), 'l')
	if len(l.t) != 1 || l.c != 0 {
		return nil, nil, false
	}
	first := true
	for _, r := range u.rets {
		if !u.posReach(r.b) {
			continue
		}
		e := u.envAt(r.b, len(r.b.instrs)-1).clone()
		u.setNil(e, r.res[errIdx], true)
		if e.dead {
			continue
		}
		var rl, rh *int64
		for _, c := range e.cons {
			k := c.coef(l.t[0].a)
			if len(c.t) != 1 || k != 1 && k != -1 {
				continue
			}
			if k == 1 && (rl == nil || -c.c > *rl) { // len + c >= 0
				rl = i64(-c.c)
			}
			if k == -1 && (rh == nil || c.c < *rh) { // -len + c >= 0
				rh = i64(c.c)
			}
		}
		for _, c := range u.retLens {
			if (rl == nil || c > *rl) && u.prove(e, l.plus(-c), 1) {
				rl = i64(c)
			}
			if (rh == nil || c < *rh) && u.prove(e, l.scale(-1).plus(c), 1) {
				rh = i64(c)
			}
		}
		if first {
			lo, hi, first = rl, rh, false
			continue
		}
		if lo != nil && (rl == nil || *rl < *lo) {
			lo = rl
		}
		if hi != nil && (rh == nil || *rh > *hi) {
			hi = rh
		}
	}
	return lo, hi, !first
}

// grown: by how much the result is longer than the destination on success, for a
// message that is nil (1), not nil (2) or anything (0).
func (u *nunit) grown(s sizeFn, nilness int, want *int64) (lo, hi *int64, any bool) {
	sig := u.f.Signature
	errIdx := -1
	if sig.Results().Len() == 2 {
		errIdx = 1
	}
	base := u.comp(u.val(u.f.Params[s.data], u.root), 'l')
	if len(base.t) != 1 {
		return nil, nil, false
	}
	first := true
	for _, r := range u.rets {
		if !u.posReach(r.b) {
			continue
		}
		e := u.envAt(r.b, len(r.b.instrs)-1).clone()
		if errIdx >= 0 {
			u.setNil(e, r.res[errIdx], true)
		}
		if nilness > 0 && s.msg >= 0 {
			u.setNil(e, u.val(u.f.Params[s.msg], u.root), nilness == 1)
		}
		if e.dead {
			continue
		}
		l := u.comp(r.res[0], 'l')
		var d ndiff
		if want != nil && u.prove(e, l.add(base, -1).plus(-*want), 2) && u.prove(e, base.add(l, -1).plus(*want), 2) {
			d.lo, d.hi = want, want
		} else {
			d = u.diffs(e, l)[base.t[0].a]
			if d.lo == nil && u.prove(e, l.add(base, -1), 1) {
				d.lo = i64(0)
			}
		}
		if first {
			lo, hi, first = d.lo, d.hi, false
			continue
		}
		if lo != nil && (d.lo == nil || *d.lo < *lo) {
			lo = d.lo
		}
		if hi != nil && (d.hi == nil || *d.hi > *hi) {
			hi = d.hi
		}
	}
	return lo, hi, !first
}

// withoutParts leaves out the functions that only handle a part of an element on
// behalf of its reader or writer: every call of them comes from one of the same element.
func withoutParts(c *Ctx, fs []sizeFn) []sizeFn {
	key := map[*ssa.Function]string{}
	for _, s := range fs {
		key[s.f] = s.key
	}
	from := map[*ssa.Function]map[string]bool{}
	for f := range c.P.All {
		if !isRepoFunc(f) || f.Synthetic != "" {
			continue
		}
		for _, ci := range callsOf(f) {
			g := ci.Common().StaticCallee()
			if g == nil || g == f || key[g] == "" {
				continue
			}
			if from[g] == nil {
				from[g] = map[string]bool{}
			}
			o := f
			for o.Parent() != nil {
				o = o.Parent()
			}
			from[g][key[o]] = true
		}
	}
	var out []sizeFn
	for _, s := range fs {
		if k := from[s.f]; len(k) == 1 && k[s.key] {
			continue
		}
		out = append(out, s)
	}
	return out
}

func ival(lo, hi *int64) string {
	s := func(p *int64, inf string) string {
		if p == nil {
			return inf
		}
		return fmt.Sprint(*p)
	}
	if lo != nil && hi != nil && *lo == *hi {
		return fmt.Sprint(*lo)
	}
	return s(lo, "?") + ".." + s(hi, "?")
}

func runSizes(c *Ctx, r *Report) {
	e := newNumEng(c)
	scope := map[*ssa.Function]bool{}
	var readers, writers []sizeFn
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) || strings.HasSuffix(funcPkg(f).Path(), "/internal/vu") {
			continue
		}
		if s, ok := readerShape(f); ok {
			readers = append(readers, s)
			scope[f] = true
		} else if s, ok := writerShape(f); ok {
			writers = append(writers, s)
			scope[f] = true
		}
	}
	readers, writers = withoutParts(c, readers), withoutParts(c, writers)
	var roots []*ssa.Function
	for f := range scope {
		roots = append(roots, f)
	}
	e.scope = c.P.reach(roots...)
	type elem struct {
		lo, hi *int64
		by     string
	}
	sizes := map[string][]elem{}
	trace := os.Getenv("NUMTRACE") != ""
	for _, s := range readers {
		u := e.analyse(s.f).unit
		lo, hi, any := u.lenBounds(s.data)
		if !any || lo == nil {
			continue
		}
		fixed := hi != nil && *lo == *hi
		if hi == nil && *lo > 0 && !sizedMessage(s.f, s.msg) {
			fixed, hi = true, lo
		}
		if trace {
			fmt.Println("reader", fname(s.f), s.key[strings.LastIndexByte(s.key, '/')+1:], ival(lo, hi), fixed)
		}
		if fixed || hi != nil {
			sizes[s.key] = append(sizes[s.key], elem{lo, hi, fname(s.f)})
		}
	}
	// A writer of an element that is part of another one must cope with a missing
	// message; a whole card file that is missing is simply not written (P09).
	called := map[*ssa.Function]bool{}
	for _, w := range writers {
		if strings.Contains(w.key[strings.LastIndexByte(w.key, '.')+1:], "File") {
			continue
		}
		for _, ci := range callsOf(w.f) {
			if g := ci.Common().StaticCallee(); g != nil {
				called[g] = true
			}
		}
	}
	n := 0
	gr := newGrower(c)
	for _, s := range writers {
		inf := e.analyse(s.f)
		u := inf.unit
		for _, z := range sizes[s.key] {
			for _, nilness := range []int{2, 1} {
				if nilness == 1 && (s.msg < 0 || !called[s.f]) {
					continue
				}
				lo, hi, any := u.grown(s, nilness, z.lo)
				if !any {
					continue
				}
				n++
				if trace {
					fmt.Println("writer", fname(s.f), nilness, "reader", ival(z.lo, z.hi), "appends", ival(lo, hi))
				}
				if lo != nil && hi != nil && *lo >= *z.lo && *hi <= *z.hi {
					continue
				}
				if hi == nil || lo == nil || *lo < *hi {
					if *z.lo == *z.hi && gr.writesSize(s, nilness == 1, *z.lo) {
						continue
					}
				}
				what := "a message"
				if nilness == 1 {
					what = "a missing message"
				}
				r.add(Finding{Rule: "size", Fn: fname(s.f), What: what, Pos: relPos(c.P.SSA.Fset.Position(s.f.Pos())),
					Msg: fmt.Sprintf("writing %s appends %s bytes, but its reader %s takes %s", what, ival(lo, hi), z.by, ival(z.lo, z.hi))})
			}
		}
	}
	r.Cov["writers"] = len(writers)
	r.Cov["readers"] = len(readers)
	r.Cov["obligations"] = n
	r.floor("fixed-size writers compared with their reader", n, 25)
}

// writesSize: every path on which the writer succeeds adds n bytes; it may refuse
// every missing message.
func (g *grower) writesSize(s sizeFn, missing bool, n int64) bool {
	args := make([]int64, len(s.f.Params))
	m, ok := g.size(s.f, s.data, s.msg, missing, args)
	return ok && m == n || missing && m == noPath
}

// grower finds by how much writers lengthen what they append to, path by path.
type grower struct {
	c    *Ctx
	k    *layouts
	memo map[string]int64
	busy map[string]bool
}

const noPath = -1 // no call succeeds

func newGrower(c *Ctx) *grower {
	return &grower{c: c, k: newLayouts(c, nil), memo: map[string]int64{}, busy: map[string]bool{}}
}

// size: the bytes added on success, if that is one number; ints are the values of
// integer parameters.
func (g *grower) size(f *ssa.Function, data, msg int, missing bool, ints []int64) (int64, bool) {
	key := fmt.Sprint(fname(f), missing, ints)
	if n, ok := g.memo[key]; ok {
		return n, n >= 0
	}
	if g.busy[key] || len(g.busy) > 12 {
		return -2, false
	}
	g.busy[key] = true
	defer delete(g.busy, key)
	e := newTpath(g.c)
	e.unroll, e.keepAll, e.bytes, e.layout, e.maxIter = true, true, true, true, 64
	e.budget, e.fixedLen = 100000, map[*term]int64{}
	e.inline = isRepoFunc
	e.subst = func(st *tstate, h *ssa.Function, args []*term) []*term {
		if res := g.k.codecCall(e, h, args); res != nil {
			return res
		}
		if h == f {
			return nil
		}
		d, m, z, ok := leafWriter(h)
		if !ok {
			return nil
		}
		dst, ok := e.bl(st, args[d])
		is := make([]int64, len(args))
		if z >= 0 {
			n, k := intOf(args[z])
			is[z], ok = n, ok && k
		}
		if !ok {
			return nil
		}
		n := int64(0)
		switch e.nilness(st, args[m]) {
		case 'n':
			n, ok = g.size(h, d, m, true, is)
		case 'N':
			n, ok = g.size(h, d, m, false, is)
		default:
			v, _ := g.size(h, d, m, true, is)
			n, ok = g.size(h, d, m, false, is)
			ok = ok && (v == n || v == noPath) // a missing one may be refused
		}
		if !ok {
			return nil
		}
		t := e.mk("written:"+fname(h), unstored(args[m]))
		xs := append([]*term(nil), dst...)
		for i := int64(0); i < n; i++ {
			xs = append(xs, e.mk("part", t, intTerm(e, i)))
		}
		return []*term{e.seq(xs), e.mk("writeerr", t)}
	}
	st := newTstate()
	var args []*term
	for i, p := range f.Params {
		t := e.mk(fmt.Sprintf("arg%d", i))
		switch {
		case i == data || i == msg && missing:
			t = e.nilTerm()
		case i == msg:
			st.facts[t] = 'N'
		case isInt(p.Type()) && ints[i] != 0:
			t = intTerm(e, ints[i])
		}
		args = append(args, t)
	}
	n := int64(noPath)
	for _, o := range e.exec(f, args, nil, st, "", 0) {
		if len(o.res) > 1 && e.nilness(o.st, o.res[1]) == 'N' {
			continue
		}
		bs, ok := e.bl(o.st, o.res[0])
		if !ok || n >= 0 && n != int64(len(bs)) {
			n = -2
			break
		}
		n = int64(len(bs))
	}
	if e.over {
		n = -2
	}
	g.memo[key] = n
	if os.Getenv("NUMTRACE") != "" {
		fmt.Println("grows", key, n, e.over)
	}
	return n, n >= 0
}

// sizedMessage: the message holds a list or a length of its own, so that its size varies.
func sizedMessage(f *ssa.Function, msg int) bool {
	t := f.Signature.Results().At(0).Type()
	if msg >= 0 {
		t = f.Params[msg].Type()
	}
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if strings.HasSuffix(fl.Name(), "Length") {
			return true
		}
		ft := fl.Type()
		if p, ok := ft.(*types.Pointer); ok {
			ft = p.Elem()
		}
		if s, ok := ft.Underlying().(*types.Slice); ok && !isByteElem(s) {
			return true
		}
	}
	return false
}
