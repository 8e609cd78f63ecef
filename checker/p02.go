package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P02: every loop has a measure that progresses in each round and is bounded by
// something the loop does not change.

func init() {
	checks["P02"] = check{level: "proof", run: runTermination}
}

func runTermination(c *Ctx, r *Report) {
	roots := c.parseRoots()
	reach := c.P.reach(roots...)
	e := newNumEng(c)
	e.scope = reach
	e.term = true
	var fs []*ssa.Function
	for _, f := range sortedFuncs(reach) {
		if isRepoFunc(f) && len(f.Blocks) > 0 && !isProtoPkg(funcPkg(f)) {
			fs = append(fs, f)
		}
	}
	if pre := os.Getenv("NUMROOT"); pre != "" {
		fs = nil
		for _, f := range sortedFuncs(c.P.All) {
			if strings.HasPrefix(f.Name(), pre) && len(f.Blocks) > 0 && isRepoFunc(f) {
				fs = append(fs, f)
				n := 0
				for _, o := range e.analyse(f).open {
					if o.ob.kind == "loop" {
						n++
						fmt.Printf("%s: loop in %s at %s opaque=%v %s\n", f.Name(), fname(o.in.Parent()), c.P.instrPos(o.in), o.opaque, o.detail)
					}
				}
				if n == 0 {
					fmt.Printf("%s: clean %v\n", f.Name(), e.info[f].ranks)
				}
			}
		}
		return
	}
	for _, f := range fs {
		e.analyse(f)
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	inSites := map[*ssa.Function]int{}
	for _, f := range fs {
		for _, ci := range callsOf(f) {
			if g := ci.Common().StaticCallee(); g != nil {
				if _, ok := ci.(*ssa.Call); ok {
					inSites[g]++
				} else {
					e.refused[g] = true
				}
			}
		}
	}
	loops, undecided := 0, 0
	how := map[string]int{}
	trace := os.Getenv("NUMTRACE") != ""
	for _, f := range fs {
		i := e.info[f]
		loops += i.loops
		for _, k := range i.ranks {
			how[k]++
			if trace {
				fmt.Printf("  %s: %s\n", fname(f), k)
			}
		}
		if !(isRoot[f] || e.refused[f] || inSites[f] == 0 && f.Parent() == nil) {
			if trace && i.dirtyLoop() {
				fmt.Printf("  %s: left to its callers\n", fname(f))
			}
			continue
		}
		for _, o := range i.open {
			if o.ob.kind != "loop" {
				continue
			}
			if o.opaque {
				undecided++
				if trace {
					fmt.Printf("  undecided %s: %s\n", fname(f), o.detail)
				}
				continue
			}
			fn := o.in.Parent()
			via := ""
			if fn != f {
				via = fmt.Sprintf(" (analysed from %s)", fname(f))
			}
			r.add(Finding{Rule: "loop-progress", Fn: fname(fn), What: "loop at " + loopName(o.in), Pos: c.P.instrPos(o.in),
				Msg: fmt.Sprintf("the loop may never end: %s%s", o.detail, via)})
		}
	}
	recs := c.recursions(fs, reach)
	for _, rc := range recs {
		r.add(Finding{Rule: "recursion", Fn: fname(rc.f), What: "call of " + fname(rc.g), Pos: c.P.instrPos(rc.site),
			Msg: fmt.Sprintf("the parser recurses on data of the input (%s) without a constant bound on the depth", rc.arg)})
	}
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Pos < r.Findings[j].Pos })
	r.Cov["functions"] = len(fs)
	r.Cov["loops"] = loops
	r.Cov["undecided"] = undecided
	for k, v := range how {
		r.Cov["loops_by_"+k] = v
	}
	r.floor("functions reachable from the entry points", len(fs), 40)
	r.floor("loops", loops, 20)
}

func (i *ninfo) dirtyLoop() bool {
	for _, o := range i.open {
		if o.ob.kind == "loop" {
			return true
		}
	}
	return false
}

func loopName(in ssa.Instruction) string {
	n := 0
	for _, b := range in.Parent().Blocks {
		if b == in.Block() {
			break
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				n++
				break
			}
		}
	}
	return fmt.Sprintf("header %d", n)
}

type recSite struct {
	f, g *ssa.Function
	site ssa.Instruction
	arg  string
}

// recursions are the calls within a cycle of the call graph that pass bytes, readers or
// numbers on.
func (c *Ctx) recursions(fs []*ssa.Function, reach map[*ssa.Function]bool) []recSite {
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range fs {
		calls[f] = callsOf(f)
	}
	callees := func(ci ssa.CallInstruction) []*ssa.Function {
		var out []*ssa.Function
		if g := ci.Common().StaticCallee(); g != nil {
			return []*ssa.Function{g}
		}
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
			return []*ssa.Function{mc.Fn.(*ssa.Function)}
		}
		if ci.Common().IsInvoke() {
			return c.P.implementations(ci.Common())
		}
		return out
	}
	var out []recSite
	for _, f := range fs {
		for _, ci := range calls[f] {
			for _, g := range callees(ci) {
				if !reach[g] || !isRepoFunc(g) {
					continue
				}
				// does g lead back to f?
				seen := map[*ssa.Function]bool{}
				var back func(x *ssa.Function) bool
				back = func(x *ssa.Function) bool {
					if x == f {
						return true
					}
					if seen[x] {
						return false
					}
					seen[x] = true
					for _, cj := range calls[x] {
						for _, y := range callees(cj) {
							if isRepoFunc(y) && back(y) {
								return true
							}
						}
					}
					return false
				}
				if !back(g) {
					continue
				}
				for _, a := range ci.Common().Args {
					if _, cst := a.(*ssa.Const); cst {
						continue
					}
					t := a.Type()
					if isByteSlice(t) || isStr(t) || isInt(t) || strings.Contains(t.String(), "Reader") || strings.Contains(t.String(), "Scanner") {
						out = append(out, recSite{f, g, ci, srcName(a)})
						break
					}
				}
			}
		}
	}
	return out
}

// ---- ranking ----

type measure struct {
	name string
	old  lin             // decreasing, bounded below
	next func(i int) lin // value on back edge i of the header
	dep  []int           // the atoms it is made of
}

// rank shows that the loop at h ends; otherwise it says why not.
func (u *nunit) rank(h *nb, present bool) (how string, opaque bool, detail string) {
	lib, libWhy := u.libraryLoop(h)
	if lib != "" {
		return lib, false, ""
	}
	ms := u.measures(h)
	var open []int
	for i := range h.preds {
		if u.isLatch(h, i) {
			open = append(open, i)
		}
	}
	envs := map[int]*fenv{}
	for _, i := range open {
		p := h.preds[i]
		e := u.envAt(p.p, len(p.p.instrs)).clone()
		if p.p.cond != nil {
			u.assumeEdge(e, p)
		}
		envs[i] = e
	}
	drop := func(done map[int]bool) {
		var rest []int
		for _, i := range open {
			if !done[i] {
				rest = append(rest, i)
			}
		}
		open = rest
	}
	// a flag that ends the loop once set: rounds that set it are the last
	for _, ph := range h.phis {
		if len(ph.edges) != len(h.preds) {
			continue
		}
		if b, ok := ph.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			for _, pol := range []bool{true, false} {
				if u.exitsOn(h, ph, pol) {
					for _, i := range open {
						u.assume(envs[i], ph.edges[i], !pol)
					}
					break
				}
			}
			continue
		}
		if !nilable(ph.typ) {
			continue
		}
		for _, isNil := range []bool{false, true} {
			if u.exitsOnNil(h, ph, isNil) {
				for _, i := range open {
					u.setNil(envs[i], ph.edges[i], !isNil)
				}
				break
			}
		}
	}
	done := map[int]bool{}
	for _, i := range open {
		if envs[i].dead || u.prove(envs[i], linC(-1), 0) {
			done[i] = true
		}
	}
	drop(done)
	how = "counter"
	bounded := map[int]bool{}
	why := ""
	someOpaque := false
	startOK := map[int]bool{}
	for len(open) > 0 {
		progress := false
		for mi, m := range ms {
			if present {
				if _, ok := startOK[mi]; !ok {
					startOK[mi] = u.startLimited(h, m, false)
				}
				if !startOK[mi] {
					continue
				}
			}
			done := map[int]bool{}
			ok := true
			for _, i := range open {
				nx := m.next(i)
				d := m.old.add(nx, -1)
				if !u.prove(envs[i], d, 0) {
					ok = false
					if d.isConst() {
						break
					}
					if u.opaqueIn(d) {
						someOpaque = true
					}
					if why == "" && !u.prove(envs[i], d.scale(-1), 0) && u.boundedBelow(envs[i], m, h, present) {
						why = fmt.Sprintf("%s: cannot be shown that %s >= 1 in every round", m.name, u.show(d))
					}
					break
				}
				if u.prove(envs[i], d.plus(-1), 0) && u.boundedBelow(envs[i], m, h, present) {
					done[i] = true
				} else if why == "" && u.boundedBelow(envs[i], m, h, present) {
					why = fmt.Sprintf("%s: cannot be shown that %s >= 1 in every round", m.name, u.show(d))
				}
			}
			if ok && len(done) > 0 {
				bounded[mi] = true
				drop(done)
				progress = true
				break
			}
		}
		if !progress {
			break
		}
	}
	if len(open) == 0 {
		return how, false, ""
	}
	if libWhy != "" {
		return "", false, libWhy
	}
	if why == "" {
		why = "no quantity was found that gets closer to a fixed bound in every round"
	}
	someOpaque = someOpaque || u.exitUnknown(h)
	return "", someOpaque, why
}

func (u *nunit) measures(h *nb) []measure {
	comps := u.headerComps(h)
	var ms []measure
	for _, c := range comps {
		if c.c == 'c' || c.c == 'o' {
			continue
		}
		c := c
		next := func(i int) lin { return u.comp(c.ph.edges[i], c.c) }
		ms = append(ms,
			measure{name: "decreasing " + u.atoms[c.a].name, old: linA(c.a), next: next, dep: []int{c.a}},
			measure{name: "increasing " + u.atoms[c.a].name, old: linA(c.a).scale(-1), next: func(i int) lin { return next(i).scale(-1) }, dep: []int{c.a}})
	}
	if len(comps) <= 8 {
		for _, a := range comps {
			for _, b := range comps {
				if a == b || a.c == 'c' || b.c == 'c' || a.c == 'o' || b.c == 'o' {
					continue
				}
				a, b := a, b
				ms = append(ms, measure{name: "shrinking distance", old: linA(a.a).add(linA(b.a), -1),
					next: func(i int) lin { return u.comp(a.ph.edges[i], a.c).add(u.comp(b.ph.edges[i], b.c), -1) }, dep: []int{a.a, b.a}})
			}
		}
	}
	return ms
}

// boundedBelow: on this edge the measure is at least some value that does not change
// during the loop.
func (u *nunit) boundedBelow(e *fenv, m measure, h *nb, present bool) bool {
	var slack, room, factor int64 = 1 << 34, 1 << 20, 256
	if present {
		slack, room, factor = smallFixed, smallFixed, 64
	}
	if u.prove(e, m.old.plus(slack), 0) {
		return true
	}
	seen := map[int]bool{}
	var inv []int
	put := func(l lin) {
		for _, t := range l.t {
			if !seen[t.a] && !u.inLoop(t.a, h) && (!present || u.presentAtom(t.a)) {
				inv = append(inv, t.a)
			}
			seen[t.a] = true
		}
	}
	rs := u.relevant(e, m.old)
	for _, l := range rs.cons {
		put(l)
	}
	for _, l := range u.inv[h] {
		put(l)
	}
	sort.Ints(inv)
	if len(inv) > 40 {
		inv = inv[:40]
	}
	for _, a := range inv {
		for _, k := range []int64{1, factor} {
			if ok, _ := u.entails(e, m.old.add(linA(a), k).plus(room)); ok {
				return true
			}
		}
	}
	for _, a := range inv {
		if u.prove(e, m.old.add(linA(a), 1).plus(room), 0) {
			return true
		}
	}
	return false
}

// libraryLoop recognises loops whose rounds each consume something from a library
// iterator, scanner or reader made outside the loop.
func (u *nunit) libraryLoop(h *nb) (how, why string) {
	every := func(b *nb) bool {
		for _, l := range h.latch {
			if !u.dominates(b, l.p) {
				return false
			}
		}
		return h.body[b]
	}
	outside := func(n *nv) bool {
		if n == nil || n.kind == 'm' || n.kind == 'k' {
			return false
		}
		return n.blk == nil || !h.body[n.blk]
	}
	var body []*nb
	for b := range h.body {
		body = append(body, b)
	}
	sort.Slice(body, func(i, j int) bool { return body[i].rpo < body[j].rpo })
	for _, b := range body {
		if !every(b) {
			continue
		}
		for bi, ni := range b.instrs {
			switch x := ni.in.(type) {
			case *ssa.Next:
				if outside(u.val(x.Iter, ni.ctx)) {
					return "range", ""
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW && x.CommaOk {
					return "channel", ""
				}
			case *ssa.Call:
				nm := callName(x.Common())
				switch nm {
				case "(*bufio.Scanner).Scan":
					sc := u.val(x.Common().Args[0], ni.ctx)
					if !outside(sc) {
						continue
					}
					ok, bad := u.scanProgress(h, x, ni.ctx)
					if ok {
						return "scanner", ""
					}
					if bad != "" {
						why = bad
					}
				case "(*bytes.Reader).Read", "(*bytes.Buffer).Read", "(*strings.Reader).Read", "io.ReadFull", "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte",
					"(*bufio.Reader).ReadByte", "(*bytes.Buffer).Next", "encoding/binary.Read", "(*bytes.Buffer).ReadBytes", "(*bytes.Buffer).ReadString",
					"(*bytes.Reader).ReadRune", "(*bufio.Reader).ReadRune", "(*strings.Reader).ReadByte", "(*strings.Reader).ReadRune", "io.CopyN", "io.ReadAtLeast":
					rd := u.val(x.Common().Args[0], ni.ctx)
					if nm == "io.CopyN" {
						rd = u.val(x.Common().Args[1], ni.ctx)
					}
					if rd.kind == 'v' {
						if mi, ok := rd.v.(*ssa.MakeInterface); ok {
							rd = u.val(mi.X, rd.ctx)
						}
					}
					if !outside(rd) || u.rewound(h, rd) {
						continue
					}
					ok, bad := u.readProgress(h, b, bi, x, ni.ctx, rd)
					if ok {
						return "reader", ""
					}
					if bad != "" {
						why = bad
					}
				}
			}
		}
	}
	return "", why
}

// scanProgress: whenever another round follows a Scan, the split function has advanced.
func (u *nunit) scanProgress(h *nb, x *ssa.Call, ctx *nctx) (bool, string) {
	key := func(i int) *nv { return u.vals[fmt.Sprintf("s%d:%p:%d", ctx.id, x, i)] }
	adv, tok := key(0), key(1)
	if adv == nil || tok == nil {
		// a library split function, which advances
		g, _, _ := u.splitOf(x.Common().Args[0], ctx)
		return g == nil || !isRepoFunc(g), ""
	}
	res := u.val(x, ctx)
	for _, l := range h.latch {
		e := u.envAt(l.p, len(l.p.instrs)).clone()
		if l.p.cond != nil {
			u.assumeEdge(e, l)
		}
		u.assume(e, res, true)
		if e.dead {
			continue
		}
		if n := u.num(adv); !u.prove(e, n.plus(-1), 0) {
			if u.opaqueIn(n) {
				return false, ""
			}
			return false, fmt.Sprintf("the split function may return a token without advancing: cannot be shown that %s >= 1", u.show(n))
		}
	}
	// the loop is left when nothing was scanned
	return u.exitsOn(h, res, false), ""
}

// exitsOn: the loop is left whenever cond has the value pol.
func (u *nunit) exitsOn(h *nb, cond *nv, pol bool) bool {
	for _, l := range h.latch {
		e := u.envAt(l.p, len(l.p.instrs)).clone()
		if l.p.cond != nil {
			u.assumeEdge(e, l)
		}
		if v, ok := e.bools[u.deref(cond)]; ok && v != pol {
			continue
		}
		if v, ok := e.bools[cond]; ok && v != pol {
			continue
		}
		u.assume(e, cond, pol)
		if !e.dead && !u.prove(e, linC(-1), 0) {
			return false
		}
	}
	return true
}

// rewound: something in the loop may put bytes back into the reader.
func (u *nunit) rewound(h *nb, rd *nv) bool {
	for b := range h.body {
		for _, ni := range b.instrs {
			ci, ok := ni.in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			for _, a := range cc.Args {
				n := u.val(a, ni.ctx)
				if n.kind == 'v' {
					if mi, ok := n.v.(*ssa.MakeInterface); ok {
						n = u.val(mi.X, n.ctx)
					}
				}
				if n != rd {
					continue
				}
				nm := callName(cc)
				base := nm[strings.LastIndex(nm, ".")+1:]
				switch {
				case base == "Seek" || base == "Reset" || strings.HasPrefix(base, "Unread") || strings.HasPrefix(base, "Write"):
					return true
				case cc.StaticCallee() != nil && isRepoFunc(cc.StaticCallee()):
					// a helper: it may only read
					if u.e.rewinds(cc.StaticCallee(), map[*ssa.Function]bool{}) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (e *numEng) rewinds(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, ci := range callsOf(g) {
		nm := callName(ci.Common())
		base := nm[strings.LastIndex(nm, ".")+1:]
		if base == "Seek" || base == "Reset" || strings.HasPrefix(base, "Unread") || strings.HasPrefix(base, "Write") {
			return true
		}
		if h := ci.Common().StaticCallee(); h != nil && isRepoFunc(h) && e.rewinds(h, seen) {
			return true
		}
	}
	return false
}

// readProgress: another round follows only if the read consumed at least one byte.
func (u *nunit) readProgress(h *nb, b *nb, bi int, x *ssa.Call, ctx *nctx, rd *nv) (bool, string) {
	nm := callName(x.Common())
	args := x.Common().Args
	env := u.envAt(b, bi)
	left := func() bool { return u.readerLen(env, rd) } // something is left to read
	succeeds := func(err *nv) bool {
		for _, l := range h.latch {
			e := u.envAt(l.p, len(l.p.instrs)).clone()
			if l.p.cond != nil {
				u.assumeEdge(e, l)
			}
			if isNil, ok := e.nils[u.nilKey(u.deref(err))]; !ok || !isNil {
				return false
			}
		}
		return true
	}
	errGone := func() bool {
		if isErrorType(x.Type()) {
			return succeeds(u.val(x, ctx))
		}
		for _, r := range *x.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && isErrorType(ex.Type()) {
				return succeeds(u.val(ex, ctx))
			}
		}
		return false
	}
	count := func(n lin) (bool, string) {
		if u.prove(env, n.plus(-1), 0) {
			return true, ""
		}
		if u.opaqueIn(n) {
			return false, ""
		}
		return false, fmt.Sprintf("a round may read nothing: cannot be shown that %s >= 1", u.show(n))
	}
	var ok bool
	var why string
	switch {
	case nm == "encoding/binary.Read":
		return errGone(), ""
	case strings.HasSuffix(nm, ".Read"):
		ok, why = count(u.sl(u.val(args[1], ctx)).len)
		return ok && (errGone() || left()), why
	case nm == "io.ReadFull":
		ok, why = count(u.sl(u.val(args[1], ctx)).len)
	case nm == "io.ReadAtLeast" || nm == "io.CopyN":
		ok, why = count(u.num(u.val(args[2], ctx)))
	case nm == "(*bytes.Buffer).Next":
		ok, why = count(u.num(u.val(args[1], ctx)))
		return ok && left(), why
	default:
		return errGone() || left(), ""
	}
	return ok && errGone(), why
}

// readerLen: a Len call on the reader is known to have been positive.
func (u *nunit) readerLen(e *fenv, rd *nv) bool {
	for _, at := range u.atoms {
		if at == nil || at.nv == nil || at.nv.v == nil {
			continue
		}
		c, ok := at.nv.v.(*ssa.Call)
		if !ok || !strings.HasSuffix(callName(c.Common()), ".Len") || len(c.Common().Args) != 1 {
			continue
		}
		if u.val(c.Common().Args[0], at.nv.ctx) != rd {
			continue
		}
		if ok, _ := u.entails(e, linA(at.id).plus(-1)); ok {
			return true
		}
	}
	return false
}

// exitUnknown: leaving the loop depends on something the analysis has no view of.
func (u *nunit) exitUnknown(h *nb) bool {
	for b := range h.body {
		leaves := false
		for _, s := range b.succs {
			if s != nil && !h.body[s] {
				leaves = true
			}
		}
		if leaves && b.cond != nil && u.unknownIn(b.cond, map[*nv]bool{}, h) {
			return true
		}
	}
	return false
}

func (u *nunit) unknownIn(n *nv, seen map[*nv]bool, h *nb) bool {
	if n == nil || seen[n] {
		return false
	}
	seen[n] = true
	for _, e := range n.edges {
		if u.unknownIn(e, seen, h) {
			return true
		}
	}
	if n.kind == 'k' {
		return true
	}
	if n.kind != 'v' {
		return false
	}
	switch x := n.v.(type) {
	case *ssa.Call:
		if n.blk != nil && !h.body[n.blk] {
			return false
		}
		if _, ok := x.Common().Value.(*ssa.Builtin); ok || u.isPureCall(x) {
			return false
		}
		if x.Common().IsInvoke() || u.target(x.Common(), n.ctx) == nil {
			return true
		}
		for _, a := range x.Common().Args {
			if u.stateful(a.Type()) {
				return true
			}
		}
		return false
	case *ssa.Parameter, *ssa.Const, *ssa.Global, *ssa.Alloc, *ssa.FreeVar, *ssa.Function:
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if m := u.load(n, x); m != nil && m != n {
				return u.unknownIn(m, seen, h)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && isByteElem(ia.X.Type()) && !u.localBuffer(u.val(ia.X, n.ctx)) {
				return false // a byte of the input
			}
			return n.blk == nil || h.body[n.blk]
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return n.blk == nil || h.body[n.blk]
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return u.unknownIn(u.val(lk, n.ctx), seen, h)
		}
	case *ssa.Phi:
		return false
	}
	if in, ok := n.v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil && u.unknownIn(u.val(*op, n.ctx), seen, h) {
				return true
			}
		}
	}
	return false
}

// stateful: a value of this type may count calls.
func (u *nunit) stateful(t types.Type) bool {
	if isProtoMsg(t) || isErrorType(t) {
		return false
	}
	switch t := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface, *types.Signature, *types.Map, *types.Chan:
		_ = t
		return true
	}
	return false
}

// exitsOnNil: the loop is left whenever the value is nil (or not nil).
func (u *nunit) exitsOnNil(h *nb, ph *nv, isNil bool) bool {
	for _, l := range h.latch {
		e := u.envAt(l.p, len(l.p.instrs)).clone()
		if l.p.cond != nil {
			u.assumeEdge(e, l)
		}
		u.setNil(e, ph, isNil)
		if !e.dead && !u.prove(e, linC(-1), 0) {
			return false
		}
	}
	return true
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// startLimited: the measure starts at no more than a small constant or a small multiple
// of what is present.
func (u *nunit) startLimited(h *nb, m measure, constOnly bool) bool {
	for i, p := range h.preds {
		if u.isLatch(h, i) {
			continue
		}
		e := u.envAt(p.p, len(p.p.instrs)).clone()
		if p.p.cond != nil {
			u.assumeEdge(e, p)
		}
		n := m.next(i)
		if constOnly {
			if !u.prove(e, n.scale(-1).plus(smallFixed), 0) {
				return false
			}
		} else if !u.limited(e, n) {
			return false
		}
	}
	return true
}

func (u *nunit) latchEnv(l nedge) *fenv {
	e := u.envAt(l.p, len(l.p.instrs)).clone()
	if l.p.cond != nil {
		u.assumeEdge(e, l)
	}
	return e
}

// fewRounds: the loop runs a constant number of times at most.
func (u *nunit) fewRounds(h *nb) bool {
	for _, m := range u.measures(h) {
		ok := true
		for i, p := range h.preds {
			if !u.isLatch(h, i) {
				continue
			}
			e := u.latchEnv(p)
			if !u.prove(e, m.old.add(m.next(i), -1).plus(-1), 0) || !u.prove(e, m.old.plus(smallFixed), 0) {
				ok = false
				break
			}
		}
		if ok && u.startLimited(h, m, true) {
			return true
		}
	}
	return false
}
