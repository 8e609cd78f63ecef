package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P24: allocation sizes and numbers of rounds on the parse path are limited by a small
// constant or by the bytes that are present.

func init() {
	checks["P24"] = check{level: "other", run: runMemory}
}

// smallFixed is the fixed number of elements or rounds allowed without input to back them.
const smallFixed = 4096

func runMemory(c *Ctx, r *Report) {
	roots := c.parseRoots()
	reach := c.P.reach(roots...)
	e := newNumEng(c)
	e.scope = reach
	e.term, e.mem = true, true
	var fs []*ssa.Function
	for _, f := range sortedFuncs(reach) {
		if isRepoFunc(f) && len(f.Blocks) > 0 && !isProtoPkg(funcPkg(f)) {
			fs = append(fs, f)
		}
	}
	kinds := map[string]bool{"loop": true, "alloc": true}
	if pre := os.Getenv("NUMROOT"); pre != "" {
		for _, f := range sortedFuncs(c.P.All) {
			if strings.HasPrefix(f.Name(), pre) && len(f.Blocks) > 0 && isRepoFunc(f) {
				n := 0
				for _, o := range e.analyse(f).open {
					if kinds[o.ob.kind] {
						n++
						fmt.Printf("%s: %s in %s at %s opaque=%v %s\n", f.Name(), o.ob.what, fname(o.in.Parent()), c.P.instrPos(o.in), o.opaque, o.detail)
					}
				}
				if n == 0 {
					fmt.Printf("%s: clean %v\n", f.Name(), e.info[f].ranks)
				}
			}
		}
		return
	}
	for _, f := range fs {
		e.analyse(f)
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	inSites := map[*ssa.Function]int{}
	for _, f := range fs {
		for _, ci := range callsOf(f) {
			if g := ci.Common().StaticCallee(); g != nil {
				if _, ok := ci.(*ssa.Call); ok {
					inSites[g]++
				} else {
					e.refused[g] = true
				}
			}
		}
	}
	trace := os.Getenv("NUMTRACE") != ""
	loops, allocs, undecided := 0, 0, 0
	for _, f := range fs {
		i := e.info[f]
		loops += i.loops
		allocs += i.allocs
		if !(isRoot[f] || e.refused[f] || inSites[f] == 0 && f.Parent() == nil) {
			continue
		}
		for _, o := range i.open {
			if !kinds[o.ob.kind] {
				continue
			}
			if o.opaque {
				undecided++
				if trace {
					fmt.Printf("  undecided %s: %s in %s: %s\n", fname(f), o.ob.what, fname(o.in.Parent()), o.detail)
				}
				continue
			}
			fn := o.in.Parent()
			via := ""
			if fn != f {
				via = fmt.Sprintf(" (analysed from %s)", fname(f))
			}
			if o.ob.kind == "loop" {
				r.add(Finding{Rule: "rounds", Fn: fname(fn), What: "loop at " + loopName(o.in), Pos: c.P.instrPos(o.in),
					Msg: fmt.Sprintf("the number of rounds is not limited by the bytes present: %s%s", o.detail, via)})
				continue
			}
			r.add(Finding{Rule: "allocation", Fn: fname(fn), What: o.ob.what, Pos: c.P.instrPos(o.in),
				Msg: fmt.Sprintf("%s is not limited by the bytes present: %s%s", o.ob.what, o.detail, via)})
		}
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Pos < r.Findings[j].Pos })
	r.Cov["functions"] = len(fs)
	r.Cov["loops"] = loops
	r.Cov["allocation_sites"] = allocs
	r.Cov["undecided"] = undecided
	r.floor("functions reachable from the entry points", len(fs), 40)
	r.floor("loops", loops, 20)
	r.floor("allocation sites", allocs, 10)
}

// presentAtom: the quantity counts bytes or elements that exist already.
func (u *nunit) presentAtom(a int) bool {
	at := u.atoms[a]
	if at.kind == "mul" {
		return false
	}
	if at.comp == 'l' || at.comp == 'c' {
		return true
	}
	if at.kind == "len" || at.kind == "range" || strings.HasSuffix(at.name, ").Len") {
		return true
	}
	if at.nv != nil && at.nv.v != nil {
		if c, ok := at.nv.v.(*ssa.Call); ok && at.comp == 'v' && strings.HasSuffix(callName(c.Common()), ".Len") {
			return true
		}
	}
	return false
}

// allocSize is the number of elements an instruction asks for.
func (u *nunit) allocSize(ni ninstr) (lin, string, bool) {
	switch x := ni.in.(type) {
	case *ssa.MakeSlice:
		return u.num(u.val(x.Cap, ni.ctx)), "make", true
	case *ssa.MakeMap:
		if x.Reserve != nil {
			return u.num(u.val(x.Reserve, ni.ctx)), "make of a map", true
		}
	case *ssa.MakeChan:
		return u.num(u.val(x.Size, ni.ctx)), "make of a channel", true
	case *ssa.Call:
		args := x.Common().Args
		switch nm := callName(x.Common()); nm {
		case "slices.Grow":
			return u.num(u.val(args[1], ni.ctx)), nm, true
		case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
			return u.num(u.val(args[1], ni.ctx)), nm, true
		case "bytes.Repeat", "strings.Repeat", "slices.Repeat":
			s := u.sl(u.val(args[0], ni.ctx)).len
			k := u.num(u.val(args[1], ni.ctx))
			if p, ok := u.mulLin(s, k); ok {
				return p, nm, true
			}
			return k, nm, true
		}
	}
	return lin{}, "", false
}

// copySize is the length of the sequence an instruction copies.
func (u *nunit) copySize(ni ninstr) (lin, string, bool) {
	switch x := ni.in.(type) {
	case *ssa.Convert:
		if isSeq(x.Type()) && isSeq(x.X.Type()) {
			return u.sl(u.val(x.X, ni.ctx)).len, "conversion", true
		}
	case *ssa.Call:
		args := x.Common().Args
		switch nm := callName(x.Common()); nm {
		case "bytes.Clone", "slices.Clone", "strings.Clone":
			return u.sl(u.val(args[0], ni.ctx)).len, nm, true
		case "builtin.append":
			if c, ok := args[0].(*ssa.Const); ok && c.Value == nil && len(args) == 2 {
				return u.sl(u.val(args[1], ni.ctx)).len, "copy by append", true
			}
		}
	}
	return lin{}, "", false
}

func (u *nunit) checkAllocs(inf *ninfo) {
	for _, b := range u.blocks {
		for i, ni := range b.instrs {
			n, what, ok := u.allocSize(ni)
			if !ok {
				if n, what, ok = u.copySize(ni); ok && !n.isConst() {
					inf.allocs++
					if h := u.costly(b, n); h != nil {
						inf.open = append(inf.open, oblResult{in: ni.in, ob: oblig{kind: "alloc", what: what + " in every round"}, unit: u.f, goal: -1, opaque: u.opaqueIn(n),
							detail: "each round copies " + u.show(n) + ", which is not limited by the bytes the round consumes"})
					}
				}
				continue
			}
			inf.allocs++
			if n.isConst() {
				continue
			}
			e := u.envAt(b, i)
			if u.limited(e, n) || u.limitedOnSuccess(b, n) || u.filledAfter(ni, n) {
				if h := u.costly(b, n); h != nil {
					inf.open = append(inf.open, oblResult{in: ni.in, ob: oblig{kind: "alloc", what: what + " in every round"}, unit: u.f, goal: -1, opaque: u.opaqueIn(n),
						detail: "each round asks for " + u.show(n) + ", which is not limited by the bytes the round consumes"})
				}
				continue
			}
			inf.open = append(inf.open, oblResult{in: ni.in, ob: oblig{kind: "alloc", what: what}, unit: u.f, goal: -1, opaque: u.opaqueIn(n),
				detail: "the requested size is " + u.show(n)})
		}
	}
}

// limited: the number is at most a small constant or a small multiple of what is present.
func (u *nunit) limited(e *fenv, n lin) bool {
	if u.prove(e, n.scale(-1).plus(smallFixed), 0) {
		return true
	}
	seen := map[int]bool{}
	var inv []int
	put := func(l lin) {
		for _, t := range l.t {
			if !seen[t.a] && u.presentAtom(t.a) {
				inv = append(inv, t.a)
			}
			seen[t.a] = true
		}
	}
	put(n)
	for _, l := range u.relevant(e, n).cons {
		put(l)
	}
	sort.Ints(inv)
	if len(inv) > 40 {
		inv = inv[:40]
	}
	for _, a := range inv {
		for _, k := range []int64{1, 64} {
			if ok, _ := u.entails(e, linA(a).scale(k).add(n, -1).plus(smallFixed)); ok {
				return true
			}
		}
	}
	for _, a := range inv {
		if u.prove(e, linA(a).add(n, -1).plus(smallFixed), 0) {
			return true
		}
	}
	return false
}

// limitedOnSuccess: at most 65535 elements are asked for, and whenever the function
// reports no error they turned out to be backed by bytes. So at most one allocation of
// a parse is not backed by input, and it is small.
func (u *nunit) limitedOnSuccess(b *nb, n lin) bool {
	if _, hi := u.bounds(n); hi == nil || *hi > 65535 {
		return false
	}
	after := reachesWithout(b, nil)
	some := false
	for _, r := range u.rets {
		if len(r.res) == 0 || !isErrorType(r.res[len(r.res)-1].typ) {
			return false
		}
		if r.b != b && !after[r.b] {
			continue
		}
		some = true
		e := u.envAt(r.b, len(r.b.instrs)).clone()
		u.setNil(e, r.res[len(r.res)-1], true)
		if e.dead {
			continue
		}
		if !u.limited(e, n) {
			return false
		}
	}
	return some
}

// filledAfter: at most 65535 elements that the function then fills from a reader.
func (u *nunit) filledAfter(ni ninstr, n lin) bool {
	if _, hi := u.bounds(n); hi == nil || *hi > 65535 {
		return false
	}
	v, ok := ni.in.(*ssa.MakeSlice)
	if !ok {
		return false
	}
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			switch callName(c.Common()) {
			case "io.ReadFull", "io.ReadAtLeast":
				return true
			}
		}
	}
	return false
}

// costly finds the innermost loop around b that runs as often as there is input and whose
// rounds each allocate n elements without consuming that much.
func (u *nunit) costly(b *nb, n lin) *nb {
	var h *nb
	for _, x := range u.blocks {
		if x.body != nil && x.body[b] && (h == nil || h.body[x]) && !u.fewRounds(x) {
			h = x
		}
	}
	if h == nil {
		return nil
	}
	steps := map[int][]lin{}
	for _, m := range u.measures(h) {
		for i := range h.preds {
			if u.isLatch(h, i) {
				steps[i] = append(steps[i], m.old.add(m.next(i), -1))
			}
		}
	}
	for x := range h.body {
		for _, ni := range x.instrs {
			c, ok := ni.in.(*ssa.Call)
			if !ok {
				continue
			}
			switch nm := callName(c.Common()); nm {
			case "(*bufio.Scanner).Scan":
				adv := u.vals[fmt.Sprintf("s%d:%p:%d", ni.ctx.id, c, 0)]
				if adv == nil {
					return nil
				}
				for i := range h.preds {
					steps[i] = append(steps[i], u.num(adv))
				}
			default:
				if strings.HasSuffix(nm, ".Read") || strings.HasPrefix(nm, "io.Read") {
					return nil // consumption is not tracked
				}
			}
		}
	}
	after := reachesWithout(b, h)
	for i, p := range h.preds {
		if !u.isLatch(h, i) || p.p != b && !after[p.p] {
			continue
		}
		e := u.latchEnv(p)
		if e.dead {
			continue
		}
		ok := false
		for _, d := range steps[i] {
			if u.prove(e, d.scale(64).add(n, -1).plus(smallFixed), 0) {
				ok = true
				break
			}
		}
		if !ok {
			return h
		}
	}
	return nil
}
