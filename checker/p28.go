package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P28"] = check{level: "other", run: runRefusals} }

// P28: what a reader of the card data accepts, its writer does not refuse.
//
// Readers and writers of the same message are followed as in P14 and P26, the writer
// over the message the reader returned. A path on which every end of the writer is an
// error is a finding; so is one end with an error for which input bytes are found.

func runRefusals(c *Ctx, r *Report) {
	k := newLayouts(c, r)
	k.budget = 600000
	read := k.fileReaders()
	pairs, readers, leafKey := k.fixedPairs()
	k.textPairs(readers, leafKey)
	n := 0
	for _, p := range pairs {
		if p.rd.msg < 0 && !isProtoMsg(p.rd.f.Signature.Results().At(0).Type()) {
			continue
		}
		before := k.ends
		k.refusals(p)
		if k.ends > before {
			n++
		}
	}
	records := k.ends
	k.recordParts(pairs)
	max, files := int64(60), 0
	if c.Tier == "thorough" {
		max = 250
	}
	e := newNumEng(c)
	var roots []*ssa.Function
	for _, s := range read {
		roots = append(roots, s.f)
	}
	e.scope = c.P.reach(roots...)
	var writers []sizeFn
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) || strings.HasSuffix(funcPkg(f).Path(), "/internal/vu") {
			continue
		}
		if s, ok := writerShape(f); ok {
			writers = append(writers, s)
		}
	}
	for _, s := range read {
		for _, w := range withoutParts(c, writers) {
			if w.key != s.key {
				continue
			}
			before := k.ends
			f := &wholeFile{k: k, refusals: true}
			for _, n := range lengthsOf(e, s, max) {
				f.layoutPair = layoutPair{rd: s, wr: w, n: n}
				b := k.ends
				_, ok := f.follow()
				if !ok || k.ends-b > 300 {
					break
				}
			}
			if k.ends > before {
				files++
			} else {
				k.undec = append(k.undec, f.label()+": not followed")
			}
		}
	}
	sort.Strings(k.undec)
	r.Cov["rule"] = "the writer, followed over the message a reader returned for each of its paths, does not end in an error"
	r.Cov["records"] = n
	r.Cov["record_paths"] = records
	r.Cov["files"] = files
	r.Cov["writer_ends"] = k.ends
	r.Cov["undecided"] = k.undec
	r.Cov["obligations"] = k.ends
	r.floor("records followed", n, 16)
	r.floor("files followed", files, 10)
}

// refusals follows one reader and writer of a fixed layout.
func (k *layouts) refusals(p layoutPair) {
	e, in, _ := k.engine(false, p)
	args := readerArgs(e, p, in)
	if p.rd.msg >= 0 {
		t := e.mk("arg:msg")
		t.op, t.typ = "obj", p.rd.f.Params[p.rd.msg].Type()
		args[p.rd.msg] = t
	}
	outs := e.exec(p.rd.f, args, nil, newTstate(), "", 0)
	label := fname(p.rd.f) + " / " + fname(p.wr.f)
	set := unsetBools(e, p, outs, args) // what the caller adds
	for _, o := range outs {
		if len(o.res) > 0 && isErrorType(resultType(p.rd.f, len(o.res)-1)) && e.nilness(o.st, o.res[len(o.res)-1]) == 'N' {
			continue
		}
		msg := unstored(o.res[0])
		if p.rd.msg >= 0 {
			msg = args[p.rd.msg]
		}
		if e.nilness(o.st, msg) == 'n' {
			continue
		}
		st := o.st.clone()
		for _, f := range set {
			st.fields[msg.key+"."+f] = e.constTerm(constant.MakeBool(true))
		}
		before := st.clone()
		e.splitLess = true
		ws := e.exec(p.wr.f, k.writerArgs(e, p, msg), nil, st, "r", 0)
		e.splitLess = false
		if e.over {
			k.undec = append(k.undec, label+": too many paths")
			return
		}
		k.refused(e, p, before, msg, ws)
	}
}

// refused looks at the ends of a writer that was followed from a state.
func (k *layouts) refused(e *tpath, p layoutPair, before *tstate, msg *term, ws []toutcome) {
	var bad []toutcome
	for _, w := range ws {
		k.ends++
		if len(w.res) > 1 && e.nilness(w.st, w.res[len(w.res)-1]) == 'N' {
			bad = append(bad, w)
		}
	}
	if len(bad) == 0 {
		return
	}
	if len(bad) == len(ws) {
		lost := k.lostEnums(e, before, msg, p)
		for _, l := range lost {
			if key := "refused " + l; !k.seen[key] {
				k.seen[key] = true
				k.r.add(Finding{Rule: "enum", Fn: l, What: "refused", Pos: relPos(k.c.P.SSA.Fset.Position(p.wr.f.Pos())), Msg: "a value that is not known is accepted for " + l + ", but not written: there is no place for it in the message (" + fname(p.wr.f) + ")"})
			}
		}
		if len(lost) == 0 {
			k.find(p.wr.f, "refused", "a message that is read from some data is refused whatever the rest of it holds")
		}
		return
	}
	for _, w := range bad {
		if v := k.witness(e, before, w.st); v != "" {
			k.find(p.wr.f, "refused value", "a message that is read is refused: "+v)
		} else if os.Getenv("P14TRACE") == "R" {
			fmt.Println("PARTIAL", fname(p.wr.f), p.n)
			for f, v := range w.st.facts {
				if _, ok := before.facts[f]; !ok {
					fmt.Println("    ", string(v), f.key)
				}
			}
		}
	}
}

// witness: input bytes for which the conditions the writer added to those of the
// reader hold, with all others over the same bytes.
func (k *layouts) witness(e *tpath, before, after *tstate) string {
	leaves, groups := map[*term]bool{}, map[*term]bool{}
	consts := map[int64]bool{0: true}
	var note func(t *term)
	note = func(t *term) {
		t = unstored(t)
		if n, ok := intOf(t); ok {
			consts[n-1], consts[n], consts[n+1] = true, true, true
			return
		}
		if t.op == "cat" {
			groups[t] = true
			return
		}
		for _, a := range t.args {
			note(a)
		}
	}
	var facts []*term
	added := 0
	for f, v := range after.facts {
		if _, ok := before.facts[f]; ok {
			continue
		}
		if v != 't' && v != 'f' || !e.inputs(f, nil, leaves) {
			return ""
		}
		added++
		facts = append(facts, f)
		note(f)
	}
	if added == 0 {
		return ""
	}
	for f, v := range before.facts {
		mine := map[*term]bool{}
		ok := e.inputs(f, nil, mine) && (v == 't' || v == 'f')
		touches, more := false, false
		for l := range mine {
			touches = touches || leaves[l]
			more = more || !leaves[l]
		}
		if !ok {
			for d := range e.deps(before, f) {
				if leaves[d] && f.op != "decerr" {
					return ""
				}
			}
			continue
		}
		if touches && more {
			return ""
		}
		if touches {
			facts = append(facts, f)
			note(f)
		}
	}
	// the values to try: those around the constants, for each number of several bytes
	type slot struct {
		bytes []*term
		vals  []int64
	}
	var slots []slot
	done := map[*term]bool{}
	var gs []*term
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].key < gs[j].key })
	for _, g := range gs {
		s := slot{bytes: g.args}
		for _, b := range g.args {
			if b.op != "in" || done[b] || len(g.args) > 6 {
				return ""
			}
			done[b] = true
		}
		max := int64(1)<<(8*len(g.args)) - 1
		for c := range consts {
			if c >= 0 && c <= max {
				s.vals = append(s.vals, c)
			}
		}
		s.vals = append(s.vals, max)
		sort.Slice(s.vals, func(i, j int) bool { return s.vals[i] < s.vals[j] })
		slots = append(slots, s)
	}
	var ls []*term
	for l := range leaves {
		if !done[l] {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].key < ls[j].key })
	parts := map[int64]bool{0: true, 0xFF: true}
	for c := range consts {
		for ; c > 0; c >>= 8 {
			parts[c&255] = true
		}
	}
	for _, l := range ls {
		s := slot{bytes: []*term{l}}
		for v := int64(0); v < 256; v++ {
			if len(ls) <= 2 || parts[v] {
				s.vals = append(s.vals, v)
			}
		}
		slots = append(slots, s)
	}
	total := 1
	for _, s := range slots {
		if total *= len(s.vals); total > 1<<20 {
			return ""
		}
	}
	env := map[*term]int64{}
	for n := 0; n < total; n++ {
		x := n
		for _, s := range slots {
			v := s.vals[x%len(s.vals)]
			x /= len(s.vals)
			for i, b := range s.bytes {
				env[b] = v >> (8 * (len(s.bytes) - 1 - i)) & 255
			}
		}
		good := true
		for _, f := range facts {
			b, ok := e.eval(f, env)
			if !ok || b == notDecimal || (b != 0) != (after.facts[f] == 't') {
				good = false
				break
			}
		}
		if !good {
			continue
		}
		var parts []string
		for _, s := range slots {
			for _, b := range s.bytes {
				parts = append(parts, fmt.Sprintf("byte %d is 0x%02X", e.inAt[b].k, env[b]))
			}
		}
		return strings.Join(parts, ", ")
	}
	return ""
}

func resultType(f *ssa.Function, i int) types.Type { return f.Signature.Results().At(i).Type() }

// lostEnums: enumeration fields of a message that hold the mark of an unknown value,
// without the value next to it.
func (k *layouts) lostEnums(e *tpath, st *tstate, msg *term, p layoutPair) []string {
	var out []string
	seen := map[*term]bool{}
	var rec func(t *term, mt types.Type)
	rec = func(t *term, mt types.Type) {
		if t = unstored(t); seen[t] {
			return
		}
		seen[t] = true
		ms := types.NewMethodSet(mt)
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj()
			name, ok := strings.CutPrefix(f.Name(), "Get")
			sig := f.Type().(*types.Signature)
			v := st.fields[t.key+"."+name]
			if !ok || v == nil || sig.Results().Len() != 1 {
				continue
			}
			rt := sig.Results().At(0).Type()
			switch n, _ := rt.(*types.Named); {
			case isProtoMsg(rt):
				rec(v, rt)
			case msgList(rt):
				for _, x := range e.listOf(st, v) {
					rec(x, rt.Underlying().(*types.Slice).Elem())
				}
			case n != nil && n.Obj().Pkg() != nil && st.fields[t.key+".Unrecognized"+name] == nil:
				d := k.enums[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
				if num, ok := intOf(v); ok && d != nil {
					for _, c := range d.vals {
						if c.num == num && strings.HasSuffix(c.name, "_UNRECOGNIZED") {
							out = append(out, typeBase(mt)+"."+name)
						}
					}
				}
			}
		}
	}
	mt := resultType(p.rd.f, 0)
	if p.rd.msg >= 0 {
		mt = p.rd.f.Params[p.rd.msg].Type()
	}
	rec(msg, mt)
	sort.Strings(out)
	return out
}

func typeBase(t types.Type) string {
	s := types.TypeString(t, nil)
	return s[strings.LastIndex(s, ".")+1:]
}
