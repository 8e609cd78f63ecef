package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Numeric abstract interpretation. A unit is one function with the helpers chosen for
// inlining expanded into its control-flow graph; local variables and fields whose
// address does not escape are put in SSA form as well. Integers and slice bounds are
// linear forms over atoms; the facts at a block are the branch conditions on its
// dominator chain, the verified loop invariants, and what earlier instructions
// guarantee; merges are split by incoming edge on demand. Loop invariants are guessed
// from the text of the loop and kept only if they are inductive.

type nctx struct {
	id     int
	parent *nctx
	site   ssa.CallInstruction
	fn     *ssa.Function
	args   []*nv
	binds  []*nv
	depth  int
}

type nv struct {
	id    int
	v     ssa.Value
	ctx   *nctx
	kind  byte // 'v' SSA value, 'r' result of an inlined call, 'm' memory phi, 'i' initial memory, 'k' unknown memory, 'z' zero value, 't' scanner token, 'f' field of a struct value
	blk   *nb
	edges []*nv
	typ   types.Type
	key   string
	base  *nv
	fwd   *nv // a phi that turned out to be trivial
}

type nedge struct {
	p  *nb
	si int
}

type ninstr struct {
	in  ssa.Instruction
	ctx *nctx
}

type nb struct {
	id     int
	ctx    *nctx
	sb     *ssa.BasicBlock
	instrs []ninstr
	preds  []nedge
	succs  []*nb
	cond   *nv
	idom   *nb
	rpo    int
	phis   []*nv
	latch  []nedge // back edges into this block
	body   map[*nb]bool
}

type natom struct {
	id     int
	name   string
	kind   string // "len","read","phi","getter","param","call","opaque","mul",...
	lo, hi *int64
	def    *nb
	side   []lin
	fa, fb int   // factors of a product
	choice []lin // the atom is one of these
	nv     *nv
	comp   byte // 'v' value, 'l' length, 'o' offset, 'c' capacity
}

type nslice struct {
	base     string
	baseNV   *nv
	off      lin
	len, cap lin
	array    bool // cap is exact
}

type nret struct {
	b   *nb
	res []*nv
	in  *ssa.Return
}

type nunit struct {
	e       *numEng
	f       *ssa.Function
	root    *nctx
	entry   *nb
	blocks  []*nb
	rets    []nret
	vals    map[string]*nv
	atoms   []*natom
	atomKey map[string]int
	nums    map[*nv]lin
	numBusy map[*nv]bool
	sls     map[*nv]*nslice
	slBusy  map[*nv]bool
	ctxs    int
	instrAt map[string]*nb // block of an instruction instance
	idxAt   map[string]int
	inv     map[*nb][]lin
	invVer  int
	envC    map[*nb]*fenv
	envVer  int
	fm      int
	where   map[*nv]*nb
	vers    map[string]map[*nb]string
	getC    map[string]ngetter
	kills   map[string]map[*nb][]nkill
	tooBig  bool
	memC    map[string]*nv
	written map[string]bool
	memPend int
	fmBudg  int
	noAlias map[*nv]bool
	oblC    map[string][]oblig
	envBusy map[*nb]bool
	envHit  bool
	noProve bool
	fmMax   int
	pre     []lin
	posting map[int]bool
	joins   map[*nb][]lin
	accC    map[*nb][]accum
	retLens []int64
}

type numEng struct {
	c       *Ctx
	info    map[*ssa.Function]*ninfo
	busy    map[*ssa.Function]bool
	scope   map[*ssa.Function]bool
	stores  map[*ssa.Function]map[string]bool
	fmTotal int
	fields  map[string]bool
	marshal bool
	term    bool                   // loops are obligations too
	mem     bool                   // rounds and allocations must be limited by the bytes present
	refused map[*ssa.Function]bool // not clean on its own and not expanded at some call
	nnC     map[*ssa.Function]bool
	setC    map[*ssa.Function]map[string]bool
}

func newNumEng(c *Ctx) *numEng {
	return &numEng{c: c, info: map[*ssa.Function]*ninfo{}, busy: map[*ssa.Function]bool{}, stores: map[*ssa.Function]map[string]bool{}, refused: map[*ssa.Function]bool{}, nnC: map[*ssa.Function]bool{}, setC: map[*ssa.Function]map[string]bool{}}
}

const maxUnitBlocks = 6000

// ---- graph ----

func (u *nunit) mkctx(parent *nctx, site ssa.CallInstruction, f *ssa.Function, args, binds []*nv) *nctx {
	u.ctxs++
	c := &nctx{id: u.ctxs, parent: parent, site: site, fn: f, args: args, binds: binds}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	return c
}

func (u *nunit) mknv(key string, n nv) *nv {
	if o := u.vals[key]; o != nil {
		return o
	}
	p := &n
	p.id = len(u.vals) + 1
	p.key = key
	u.vals[key] = p
	return p
}

// val is the canonical value of an SSA value in a context.
func (u *nunit) val(v ssa.Value, ctx *nctx) *nv {
	switch x := v.(type) {
	case *ssa.Parameter:
		if ctx.args != nil {
			for i, p := range ctx.fn.Params {
				if p == x && i < len(ctx.args) && ctx.args[i] != nil {
					return ctx.args[i]
				}
			}
		}
	case *ssa.FreeVar:
		for i, p := range ctx.fn.FreeVars {
			if p == x && i < len(ctx.binds) && ctx.binds[i] != nil {
				return ctx.binds[i]
			}
		}
	case *ssa.ChangeType:
		return u.val(x.X, ctx)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if r := u.vals[fmt.Sprintf("r%d:%p:%d", ctx.id, c, x.Index)]; r != nil {
				return r
			}
		}
	case *ssa.Call:
		if r := u.vals[fmt.Sprintf("r%d:%p:%d", ctx.id, x, 0)]; r != nil {
			return r
		}
	case *ssa.Const:
		return u.mknv("c:"+x.String()+":"+x.Type().String(), nv{v: v, kind: 'v', typ: v.Type()})
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return u.mknv(fmt.Sprintf("g:%p", v), nv{v: v, kind: 'v', typ: v.Type()})
	}
	return u.mknv(fmt.Sprintf("v%d:%p", ctx.id, v), nv{v: v, ctx: ctx, kind: 'v', typ: v.Type()})
}

func (u *nunit) newBlock(ctx *nctx, sb *ssa.BasicBlock) *nb {
	b := &nb{id: len(u.blocks), ctx: ctx, sb: sb}
	u.blocks = append(u.blocks, b)
	if len(u.blocks) > maxUnitBlocks {
		u.tooBig = true
	}
	return b
}

func link(p *nb, si int, s *nb) {
	for len(p.succs) <= si {
		p.succs = append(p.succs, nil)
	}
	p.succs[si] = s
	s.preds = append(s.preds, nedge{p, si})
}

func instrKey(in ssa.Instruction, ctx *nctx) string { return fmt.Sprintf("%d:%p", ctx.id, in) }

func (u *nunit) build(f *ssa.Function, ctx *nctx) (*nb, []nret) {
	first := map[*ssa.BasicBlock]*nb{}
	last := map[*ssa.BasicBlock]*nb{}
	var rets []nret
	// dominance order, so that values are registered before they are used
	order := f.DomPreorder()
	for _, sb := range order {
		b := u.newBlock(ctx, sb)
		first[sb] = b
		cur := b
		for _, in := range sb.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				n := u.val(ph, ctx)
				n.blk = b
				b.phis = append(b.phis, n)
				continue
			}
			if ci, ok := in.(*ssa.Call); ok && !u.tooBig && callName(ci.Common()) == "(*bufio.Scanner).Scan" {
				cur = u.inlineSplit(ci, ctx, cur, sb)
			}
			if ci, ok := in.(*ssa.Call); ok && !u.tooBig {
				if g, args, binds := u.e.inlineTarget(u, ci, ctx); g != nil {
					cx := u.mkctx(ctx, ci, g, args, binds)
					en, rs := u.build(g, cx)
					link(cur, 0, en)
					if len(rs) == 0 {
						// never returns
						cur = u.newBlock(ctx, sb)
						continue
					}
					cont := u.newBlock(ctx, sb)
					n := g.Signature.Results().Len()
					var rv []*nv
					for i := 0; i < n; i++ {
						r := u.mknv(fmt.Sprintf("r%d:%p:%d", ctx.id, ci, i), nv{kind: 'r', ctx: ctx, v: ci, blk: cont, typ: g.Signature.Results().At(i).Type()})
						rv = append(rv, r)
						cont.phis = append(cont.phis, r)
					}
					for _, r := range rs {
						link(r.b, 0, cont)
						for i := range rv {
							rv[i].edges = append(rv[i].edges, r.res[i])
						}
					}
					// what the call does to memory is in the inlined body
					cur = cont
					continue
				}
			}
			k := instrKey(in, ctx)
			u.instrAt[k] = cur
			u.idxAt[k] = len(cur.instrs)
			cur.instrs = append(cur.instrs, ninstr{in, ctx})
			if v, ok := in.(ssa.Value); ok {
				u.val(v, ctx).blk = cur
			}
			if r, ok := in.(*ssa.Return); ok {
				nr := nret{b: cur, in: r}
				for _, x := range r.Results {
					nr.res = append(nr.res, u.val(x, ctx))
				}
				rets = append(rets, nr)
			}
		}
		last[sb] = cur
	}
	for _, sb := range order {
		p := last[sb]
		if iff, ok := sb.Instrs[len(sb.Instrs)-1].(*ssa.If); ok {
			p.cond = u.val(iff.Cond, ctx)
		}
	}
	// edges in the order of the SSA predecessors, for the phis
	for _, sb := range order {
		used := map[*ssa.BasicBlock]int{}
		for _, pb := range sb.Preds {
			p := last[pb]
			if p == nil {
				continue // unreachable
			}
			n := used[pb]
			used[pb]++
			for si, s := range pb.Succs {
				if s == sb {
					if n == 0 {
						for len(p.succs) <= si {
							p.succs = append(p.succs, nil)
						}
						p.succs[si] = first[sb]
						first[sb].preds = append(first[sb].preds, nedge{p, si})
						break
					}
					n--
				}
			}
		}
		for _, in := range sb.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				n := u.val(ph, ctx)
				for i, e := range ph.Edges {
					if last[sb.Preds[i]] != nil {
						n.edges = append(n.edges, u.val(e, ctx))
					}
				}
			}
		}
	}
	return first[f.Blocks[0]], rets
}

// inlineSplit expands the split function of a scanner before its Scan call; the token
// it returns is what Bytes yields afterwards.
func (u *nunit) inlineSplit(ci *ssa.Call, ctx *nctx, cur *nb, sb *ssa.BasicBlock) *nb {
	g, binds, bctx := u.splitOf(ci.Common().Args[0], ctx)
	if g == nil || !isRepoFunc(g) || len(g.Blocks) == 0 || len(g.Params) != 2 || g.Signature.Results().Len() != 3 {
		return cur
	}
	for c := ctx; c != nil; c = c.parent {
		if c.fn == g {
			return cur
		}
	}
	if u.e.busy[g] {
		return cur
	}
	u.e.analyse(g)
	var args, bv []*nv
	for i, p := range g.Params {
		args = append(args, u.mknv(fmt.Sprintf("sa%d:%p:%d", ctx.id, ci, i), nv{kind: 't', typ: p.Type(), ctx: ctx, blk: cur}))
	}
	for _, b := range binds {
		bv = append(bv, u.val(b, bctx))
	}
	cx := u.mkctx(ctx, ci, g, args, bv)
	en, rs := u.build(g, cx)
	link(cur, 0, en)
	cont := u.newBlock(ctx, sb)
	var rv []*nv
	for i := 0; i < 3; i++ {
		r := u.mknv(fmt.Sprintf("s%d:%p:%d", ctx.id, ci, i), nv{kind: 'r', ctx: ctx, v: ci, blk: cont, typ: g.Signature.Results().At(i).Type()})
		rv = append(rv, r)
		cont.phis = append(cont.phis, r)
	}
	for _, r := range rs {
		link(r.b, 0, cont)
		for i := range rv {
			rv[i].edges = append(rv[i].edges, r.res[i])
		}
	}
	return cont
}

// tokenAt finds the token of the last Scan before a Bytes call on the same scanner.
func (u *nunit) tokenAt(c *ssa.Call, ctx *nctx) *nv {
	sc := u.val(c.Common().Args[0], ctx)
	k := instrKey(c, ctx)
	b := u.instrAt[k]
	i := u.idxAt[k]
	for b != nil {
		for i--; i >= 0; i-- {
			x, ok := b.instrs[i].in.(*ssa.Call)
			if ok && callName(x.Common()) == "(*bufio.Scanner).Scan" && u.val(x.Common().Args[0], b.instrs[i].ctx) == sc {
				return u.vals[fmt.Sprintf("s%d:%p:%d", b.instrs[i].ctx.id, x, 1)]
			}
		}
		if b = b.idom; b != nil {
			i = len(b.instrs)
		}
	}
	return nil
}

func (u *nunit) analyseGraph() {
	// reachable blocks in reverse post-order
	seen := map[*nb]bool{}
	var post []*nb
	var dfs func(b *nb)
	dfs = func(b *nb) {
		seen[b] = true
		for _, s := range b.succs {
			if s != nil && !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(u.entry)
	var rpo []*nb
	for i := len(post) - 1; i >= 0; i-- {
		post[i].rpo = len(rpo)
		rpo = append(rpo, post[i])
	}
	// drop unreachable predecessors (with their phi edges)
	for _, b := range rpo {
		var ps []nedge
		var keep []int
		for i, e := range b.preds {
			if seen[e.p] {
				ps = append(ps, e)
				keep = append(keep, i)
			}
		}
		if len(ps) != len(b.preds) {
			for _, n := range b.phis {
				var es []*nv
				for _, i := range keep {
					es = append(es, n.edges[i])
				}
				n.edges = es
			}
			b.preds = ps
		}
	}
	u.blocks = rpo
	for changed := true; changed; {
		changed = false
		for _, b := range rpo[1:] {
			var d *nb
			for _, e := range b.preds {
				if e.p == u.entry || e.p.idom != nil {
					if d == nil {
						d = e.p
					} else {
						x, y := d, e.p
						for x != y {
							for x.rpo > y.rpo {
								x = x.idom
							}
							for y.rpo > x.rpo {
								y = y.idom
							}
						}
						d = x
					}
				}
			}
			if d != b.idom {
				b.idom = d
				changed = true
			}
		}
	}
	for _, b := range rpo {
		for _, e := range b.preds {
			if u.dominates(b, e.p) {
				b.latch = append(b.latch, e)
				if b.body == nil {
					b.body = map[*nb]bool{b: true}
				}
				var up func(x *nb)
				up = func(x *nb) {
					if b.body[x] {
						return
					}
					b.body[x] = true
					for _, q := range x.preds {
						up(q.p)
					}
				}
				up(e.p)
			}
		}
	}
}

func (u *nunit) dominates(a, b *nb) bool {
	for b != nil && b.rpo >= a.rpo {
		if a == b {
			return true
		}
		b = b.idom
	}
	return false
}

// ---- atoms ----

func (u *nunit) atom(key string, mk func() natom) int {
	if i, ok := u.atomKey[key]; ok {
		return i
	}
	a := mk()
	a.id = len(u.atoms)
	if a.name == "" {
		a.name = key
	}
	u.atoms = append(u.atoms, &a)
	u.atomKey[key] = a.id
	return a.id
}

func i64(v int64) *int64 { return &v }

func typeRange(t types.Type) (lo, hi *int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	switch b.Kind() {
	case types.Int8:
		return i64(-128), i64(127)
	case types.Uint8:
		return i64(0), i64(255)
	case types.Int16:
		return i64(-32768), i64(32767)
	case types.Uint16:
		return i64(0), i64(65535)
	case types.Int32:
		return i64(math.MinInt32), i64(math.MaxInt32)
	case types.Uint32:
		return i64(0), i64(math.MaxUint32)
	case types.Uint, types.Uint64, types.Uintptr:
		return i64(0), nil
	}
	return nil, nil
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isSeq(t types.Type) bool {
	if isStr(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

// freshAtom is an unconstrained atom of n's type.
func (u *nunit) freshAtom(n *nv, kind string) lin {
	id := u.atom("n:"+n.key, func() natom {
		lo, hi := typeRange(n.typ)
		return natom{kind: kind, lo: lo, hi: hi, def: n.blk, nv: n, comp: 'v', name: u.nvName(n)}
	})
	return linA(id)
}

func (u *nunit) nvName(n *nv) string {
	if n.v != nil {
		return n.v.Name()
	}
	return n.key
}

// bounds is the interval of l from the ranges of its atoms.
func (u *nunit) bounds(l lin) (lo, hi *int64) {
	a, b := l.c, l.c
	okl, okh := true, true
	for _, t := range l.t {
		at := u.atoms[t.a]
		x, y := at.lo, at.hi
		if t.k < 0 {
			x, y = y, x
		}
		if x == nil || *x > 1<<50 || *x < -(1<<50) {
			okl = false
		} else if okl {
			a += t.k * *x
		}
		if y == nil || *y > 1<<50 || *y < -(1<<50) {
			okh = false
		} else if okh {
			b += t.k * *y
		}
	}
	if okl {
		lo = &a
	}
	if okh {
		hi = &b
	}
	return
}

func (u *nunit) mulAtom(a, b int) int {
	if a > b {
		a, b = b, a
	}
	return u.atom(fmt.Sprintf("mul:%d:%d", a, b), func() natom {
		x, y := u.atoms[a], u.atoms[b]
		n := natom{kind: "mul", fa: a, fb: b, name: x.name + "*" + y.name, def: x.def}
		if y.def != nil && (n.def == nil || y.def.rpo > n.def.rpo) {
			n.def = y.def
		}
		if x.lo != nil && y.lo != nil && *x.lo >= 0 && *y.lo >= 0 {
			n.lo = i64(0)
			if *x.lo <= 1<<20 && *y.lo <= 1<<20 {
				n.lo = i64(*x.lo * *y.lo)
			}
			if x.hi != nil && y.hi != nil && *x.hi <= 1<<32 && *y.hi <= 1<<20 {
				n.hi = i64(*x.hi * *y.hi)
			}
		}
		return n
	})
}

// mulLin multiplies two forms of degree one (ok=false: not representable).
func (u *nunit) mulLin(x, y lin) (lin, bool) {
	if x.isConst() {
		return y.scale(x.c), true
	}
	if y.isConst() {
		return x.scale(y.c), true
	}
	r := linC(x.c * y.c)
	for _, t := range x.t {
		if u.atoms[t.a].kind == "mul" {
			return lin{}, false
		}
		r = r.add(linA(t.a), t.k*y.c)
		for _, s := range y.t {
			if u.atoms[s.a].kind == "mul" {
				return lin{}, false
			}
			r = r.add(linA(u.mulAtom(t.a, s.a)), t.k*s.k)
		}
	}
	for _, s := range y.t {
		r = r.add(linA(s.a), s.k*x.c)
	}
	return r, true
}

// subst replaces atoms by forms, also inside products.
func (u *nunit) subst(l lin, m map[int]lin) (lin, bool) {
	r := linC(l.c)
	for _, t := range l.t {
		if v, ok := m[t.a]; ok {
			r = r.add(v, t.k)
			continue
		}
		if a := u.atoms[t.a]; a.kind == "mul" {
			x, okx := m[a.fa]
			y, oky := m[a.fb]
			if okx || oky {
				if !okx {
					x = linA(a.fa)
				}
				if !oky {
					y = linA(a.fb)
				}
				p, ok := u.mulLin(x, y)
				if !ok {
					return lin{}, false
				}
				r = r.add(p, t.k)
				continue
			}
		}
		r = r.add(linA(t.a), t.k)
	}
	return r, true
}

// ---- integer values ----

func (u *nunit) num(n *nv) lin {
	for n.fwd != nil {
		n = n.fwd
	}
	if l, ok := u.nums[n]; ok {
		return l
	}
	if u.numBusy[n] {
		return u.freshAtom(n, "busy")
	}
	u.numBusy[n] = true
	l := u.num1(n)
	delete(u.numBusy, n)
	u.nums[n] = l
	return l
}

// fit returns l if it cannot leave the range of t, and a fresh atom otherwise.
func (u *nunit) fit(n *nv, l lin, kind string) lin {
	t := n.typ
	lo, hi := typeRange(t)
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr) {
		hi = i64(1 << 52)
	}
	if lo == nil {
		return l // int and int64: quantities stay far below 2^63 (assumption)
	}
	a, b := u.bounds(l)
	okl := a != nil && *a >= *lo
	okh := b != nil && *b <= *hi
	if (!okl || !okh) && n.blk != nil && !u.noProve {
		env := u.envAt(n.blk, u.defIdx(n))
		okl = okl || u.prove(env, l.plus(-*lo), 0)
		okh = okh || u.prove(env, l.scale(-1).plus(*hi), 0)
	}
	if okl && okh {
		return l
	}
	// may wrap around
	return u.freshAtom(n, kind)
}

// defIdx is the position of n's instruction in its block.
func (u *nunit) defIdx(n *nv) int {
	if in, ok := n.v.(ssa.Instruction); ok && n.kind == 'v' {
		return u.idxAt[instrKey(in, n.ctx)]
	}
	return 0
}

func (u *nunit) num1(n *nv) lin {
	switch n.kind {
	case 'r', 'm':
		return u.phiAtom(n, 'v', "phi")
	case 'z':
		return linC(0)
	case 'i':
		return u.freshAtom(n, "init")
	case 't':
		return u.freshAtom(n, "read")
	case 'k', 'f':
		return u.freshAtom(n, "opaque")
	}
	switch x := n.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x.Value); ok {
				return linC(i)
			}
		}
		return u.freshAtom(n, "opaque")
	case *ssa.Parameter:
		return u.freshAtom(n, "param")
	case *ssa.Phi:
		return u.phiAtom(n, 'v', "phi")
	case *ssa.BinOp:
		return u.binop(n, x)
	case *ssa.Convert:
		if !isInt(x.X.Type()) {
			return u.freshAtom(n, "opaque")
		}
		l := u.num(u.val(x.X, n.ctx))
		return u.fit(n, l, u.kindOf(l))
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			return u.fit(n, u.num(u.val(x.X, n.ctx)).scale(-1), "opaque")
		case token.MUL:
			return u.loadNum(n, x)
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			// position while ranging over a string
			if rg, ok := nx.Iter.(*ssa.Range); ok && isStr(rg.X.Type()) {
				s := u.sl(u.val(rg.X, n.ctx))
				l := u.freshAtom(n, "range")
				a := u.atoms[l.t[0].a]
				a.lo = i64(0)
				a.side = append(a.side, s.len.add(l, -1).plus(-1))
				return l
			}
		}
		return u.callNum(n)
	case *ssa.Call:
		return u.callNum(n)
	case *ssa.Index:
		return u.readAtom(n, u.val(x.X, n.ctx), u.num(u.val(x.Index, n.ctx)), 1, "")
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			return u.readAtom(n, u.val(x.X, n.ctx), u.num(u.val(x.Index, n.ctx)), 1, "")
		}
	case *ssa.Field:
		if v := u.fieldOf(u.val(x.X, n.ctx), x.Field); v != nil {
			return u.num(v)
		}
	}
	return u.freshAtom(n, "opaque")
}

// kindOf: a form is as understood as its least understood atom.
func (u *nunit) kindOf(l lin) string {
	for _, t := range l.t {
		if u.atoms[t.a].kind == "opaque" {
			return "opaque"
		}
	}
	return "wrap"
}

func (u *nunit) phiAtom(n *nv, comp byte, kind string) lin {
	// a phi whose edges all carry the same value
	if n.blk == nil || len(n.blk.latch) == 0 {
		var same *lin
		ok := len(n.edges) > 0 && len(n.edges) <= 8
		for _, e := range n.edges {
			if e == n {
				continue
			}
			l := u.comp(e, comp)
			if same == nil {
				same = &l
			} else if !same.equal(l) {
				ok = false
				break
			}
		}
		if ok && same != nil {
			return *same
		}
	}
	id := u.atom(string(comp)+":"+n.key, func() natom {
		a := natom{kind: kind, def: n.blk, nv: n, comp: comp, name: u.nvName(n)}
		if comp == 'v' {
			a.lo, a.hi = typeRange(n.typ)
		} else {
			a.lo = i64(0)
			a.name = map[byte]string{'l': "len(", 'c': "cap(", 'o': "off("}[comp] + a.name + ")"
		}
		return a
	})
	return linA(id)
}

// comp is a component of a value: the integer, or a slice's length, offset, capacity.
func (u *nunit) comp(n *nv, c byte) lin {
	switch c {
	case 'l':
		return u.sl(n).len
	case 'o':
		return u.sl(n).off
	case 'c':
		return u.sl(n).cap
	}
	return u.num(n)
}

func (u *nunit) binop(n *nv, x *ssa.BinOp) lin {
	if !isInt(x.Type()) {
		return u.freshAtom(n, "opaque")
	}
	a, b := u.num(u.val(x.X, n.ctx)), u.num(u.val(x.Y, n.ctx))
	kind := "calc"
	if u.kindOf(a) == "opaque" || u.kindOf(b) == "opaque" {
		kind = "opaque"
	}
	fresh := func() lin { return u.freshAtom(n, kind) }
	switch x.Op {
	case token.ADD:
		return u.fit(n, a.add(b, 1), kind)
	case token.SUB:
		return u.fit(n, a.add(b, -1), kind)
	case token.MUL:
		if p, ok := u.mulLin(a, b); ok {
			return u.fit(n, p, kind)
		}
		return fresh()
	case token.SHL:
		if b.isConst() && b.c >= 0 && b.c < 40 {
			return u.fit(n, a.scale(1<<uint(b.c)), kind)
		}
		return fresh()
	case token.QUO, token.SHR:
		k := b.c
		if x.Op == token.SHR {
			if !b.isConst() || b.c < 0 || b.c > 40 {
				l := fresh()
				if lo, _ := u.bounds(a); lo != nil && *lo >= 0 {
					at := u.atoms[l.t[0].a]
					at.lo = i64(0)
					at.side = append(at.side, a.add(l, -1))
				}
				return l
			}
			k = 1 << uint(b.c)
		}
		if a.isConst() && b.isConst() && k != 0 {
			return linC(a.c / k)
		}
		l := fresh()
		at := u.atoms[l.t[0].a]
		if (b.isConst() || x.Op == token.SHR) && k > 0 {
			neg := true
			if lo, hi := u.bounds(a); lo != nil && *lo >= 0 {
				neg = false
				at.lo = i64(0)
				if hi != nil {
					at.hi = i64(*hi / k)
				}
			} else if n.blk != nil && !u.noProve && u.prove(u.envAt(n.blk, u.defIdx(n)), a, 0) {
				neg = false
				at.lo = i64(0)
			}
			if !neg || x.Op == token.SHR {
				at.side = append(at.side, a.add(l, -k), l.scale(k).plus(k-1).add(a, -1))
			} else {
				at.side = append(at.side, a.add(l, -k).plus(k-1), l.scale(k).plus(k-1).add(a, -1))
			}
			// exact when every coefficient is a multiple
			ok := a.c%k == 0
			for _, t := range a.t {
				ok = ok && t.k%k == 0
			}
			if ok {
				r := linC(a.c / k)
				for _, t := range a.t {
					r.t = append(r.t, lterm{t.a, t.k / k})
				}
				return r
			}
		}
		return l
	case token.REM:
		l := fresh()
		at := u.atoms[l.t[0].a]
		nonneg := false
		if lo, hi := u.bounds(a); lo != nil && *lo >= 0 {
			nonneg = true
			if hi != nil {
				at.hi = i64(*hi)
			}
		} else if n.blk != nil {
			nonneg = !u.noProve && u.prove(u.envAt(n.blk, u.defIdx(n)), a, 1)
		}
		if nonneg {
			at.lo = i64(0)
		}
		if b.isConst() && b.c > 0 {
			if at.hi == nil || *at.hi > b.c-1 {
				at.hi = i64(b.c - 1)
			}
			if !nonneg {
				at.lo = i64(-(b.c - 1))
			}
		} else if lo, _ := u.bounds(b); lo != nil && *lo >= 0 {
			at.side = append(at.side, b.add(l, -1).plus(-1)) // the divisor is not zero here
		}
		return l
	case token.AND:
		l := fresh()
		at := u.atoms[l.t[0].a]
		for _, p := range [][2]lin{{a, b}, {b, a}} {
			if p[1].isConst() && p[1].c >= 0 {
				at.lo, at.hi = i64(0), i64(p[1].c)
			}
			if lo, _ := u.bounds(p[0]); lo != nil && *lo >= 0 {
				at.lo = i64(0)
				at.side = append(at.side, p[0].add(l, -1))
			}
		}
		return l
	case token.OR, token.XOR:
		l := fresh()
		at := u.atoms[l.t[0].a]
		alo, ahi := u.bounds(a)
		blo, bhi := u.bounds(b)
		if alo != nil && blo != nil && *alo >= 0 && *blo >= 0 {
			at.lo = i64(0)
			at.side = append(at.side, a.add(b, 1).add(l, -1))
			if ahi != nil && bhi != nil {
				m := int64(1)
				for m <= *ahi || m <= *bhi {
					m <<= 1
				}
				at.hi = i64(m - 1)
			}
			if x.Op == token.OR {
				at.side = append(at.side, l.add(a, -1), l.add(b, -1))
			}
		}
		return l
	case token.AND_NOT:
		l := fresh()
		at := u.atoms[l.t[0].a]
		if lo, _ := u.bounds(a); lo != nil && *lo >= 0 {
			at.lo = i64(0)
			at.side = append(at.side, a.add(l, -1))
		}
		return l
	}
	return fresh()
}

// readAtom is the value of width bytes of s at index i.
func (u *nunit) readAtom(n *nv, s *nv, i lin, width int, order string) lin {
	if !isSeq(s.typ) {
		return u.freshAtom(n, "read")
	}
	d := u.sl(s)
	if d.base == "" || u.written[d.base] || d.baseNV != nil && u.localBuffer(d.baseNV) {
		l := u.freshAtom(n, "read")
		return l
	}
	id := u.atom(fmt.Sprintf("rd:%s:%s:%d%s", d.base, d.off.add(i, 1).key(), width, order), func() natom {
		a := natom{kind: "read", lo: i64(0), def: n.blk, nv: n, comp: 'v', name: fmt.Sprintf("%s[..]", u.nvName(s))}
		if width < 8 {
			a.hi = i64(1<<(8*uint(width)) - 1)
		}
		return a
	})
	// the same bytes may be read first in another branch
	if a := u.atoms[id]; a.def != n.blk && a.def != nil && n.blk != nil && !u.dominates(a.def, n.blk) {
		for d := n.blk; d != nil; d = d.idom {
			if u.dominates(d, a.def) {
				a.def = d
				break
			}
		}
	}
	return linA(id)
}

// localBuffer: memory the unit itself fills.
func (u *nunit) localBuffer(n *nv) bool {
	switch x := n.v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.Call:
		return callName(x.Common()) == "builtin.append"
	}
	return false
}

// ---- slices ----

func (u *nunit) sl(n *nv) *nslice {
	for n.fwd != nil {
		n = n.fwd
	}
	if s := u.sls[n]; s != nil {
		return s
	}
	if u.slBusy[n] {
		return u.freshSlice(n, "busy")
	}
	u.slBusy[n] = true
	s := u.sl1(n)
	delete(u.slBusy, n)
	u.sls[n] = s
	return s
}

func (u *nunit) freshSlice(n *nv, kind string) *nslice {
	l := u.atom("len:"+n.key, func() natom {
		return natom{kind: kind, lo: i64(0), def: n.blk, nv: n, comp: 'l', name: "len(" + u.nvName(n) + ")"}
	})
	s := &nslice{base: n.key, baseNV: n, len: linA(l)}
	if isStr(n.typ) {
		s.cap = s.len
		return s
	}
	c := u.atom("cap:"+n.key, func() natom {
		return natom{kind: kind, lo: i64(0), def: n.blk, nv: n, comp: 'c', name: "cap(" + u.nvName(n) + ")"}
	})
	a := u.atoms[c]
	if len(a.side) == 0 {
		a.side = append(a.side, linA(c).add(linA(l), -1))
	}
	s.cap = linA(c)
	return s
}

func (u *nunit) fixedSlice(n *nv, l lin) *nslice {
	return &nslice{base: n.key, baseNV: n, len: l, cap: l, array: true}
}

func (u *nunit) sl1(n *nv) *nslice {
	switch n.kind {
	case 'r', 'm':
		return u.phiSlice(n)
	case 'z':
		return u.fixedSlice(n, linC(0))
	case 'i':
		return u.freshSlice(n, "init")
	case 'k', 'f':
		return u.freshSlice(n, "opaque")
	case 't':
		return u.freshSlice(n, "read")
	}
	switch x := n.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return u.fixedSlice(n, linC(int64(len(constant.StringVal(x.Value)))))
		}
		return u.fixedSlice(n, linC(0)) // nil
	case *ssa.Parameter:
		return u.freshSlice(n, "len")
	case *ssa.Phi:
		return u.phiSlice(n)
	case *ssa.Slice:
		return u.sliceOf(n, x)
	case *ssa.MakeSlice:
		s := u.fixedSlice(n, u.num(u.val(x.Len, n.ctx)))
		s.cap = u.num(u.val(x.Cap, n.ctx))
		return s
	case *ssa.Convert:
		if isSeq(x.X.Type()) && (isByteSlice(x.X.Type()) || isStr(x.X.Type())) && (isByteSlice(x.Type()) || isStr(x.Type())) {
			o := u.sl(u.val(x.X, n.ctx))
			return &nslice{base: o.base, baseNV: o.baseNV, off: o.off, len: o.len, cap: o.len, array: true}
		}
		s := u.freshSlice(n, "calc")
		return s
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			return u.fixedSlice(n, u.sl(u.val(x.X, n.ctx)).len.add(u.sl(u.val(x.Y, n.ctx)).len, 1))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if m := u.load(n, x); m != nil {
				return u.sl(m)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return u.globalSlice(n, g)
			}
			return u.freshSlice(n, "elem")
		}
	case *ssa.Field:
		if v := u.fieldOf(u.val(x.X, n.ctx), x.Field); v != nil {
			return u.sl(v)
		}
	case *ssa.Call:
		return u.callSlice(n, x, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return u.callSlice(n, c, x.Index)
		}
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert:
	}
	return u.freshSlice(n, "opaque")
}

func (u *nunit) globalSlice(n *nv, g *ssa.Global) *nslice {
	gn := u.val(g, u.root)
	return u.freshSlice(gn, "opaque")
}

func (u *nunit) sliceOf(n *nv, x *ssa.Slice) *nslice {
	xv := u.val(x.X, n.ctx)
	var o *nslice
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			o = &nslice{base: xv.key, baseNV: xv, len: linC(at.Len()), cap: linC(at.Len()), array: true}
		}
	}
	if o == nil {
		o = u.sl(xv)
	}
	lo, hi := linC(0), o.len
	if x.Low != nil {
		lo = u.num(u.val(x.Low, n.ctx))
	}
	if x.High != nil {
		hi = u.num(u.val(x.High, n.ctx))
	}
	s := &nslice{base: o.base, baseNV: o.baseNV, off: o.off.add(lo, 1), len: hi.add(lo, -1), cap: o.cap.add(lo, -1), array: o.array}
	if x.Max != nil {
		s.cap = u.num(u.val(x.Max, n.ctx)).add(lo, -1)
	}
	if isStr(x.Type()) {
		s.cap = s.len
	}
	return s
}

// roots collects the sequences a value may be a part of.
func (u *nunit) roots(n *nv, seen map[*nv]bool, out map[string]*nv) {
	for n.fwd != nil {
		n = n.fwd
	}
	if seen[n] {
		return
	}
	seen[n] = true
	switch {
	case n.kind == 'r' || n.kind == 'm':
		for _, e := range n.edges {
			u.roots(e, seen, out)
		}
		return
	case n.kind == 'z':
		return
	case n.kind != 'v':
		out[n.key] = n
		return
	}
	switch x := n.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return // a nil slice has no elements
		}
	case *ssa.Phi:
		for _, e := range n.edges {
			u.roots(e, seen, out)
		}
		return
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
			u.roots(u.val(x.X, n.ctx), seen, out)
			return
		}
		xv := u.val(x.X, n.ctx)
		out[xv.key] = xv
		return
	case *ssa.Convert:
		if isSeq(x.X.Type()) {
			u.roots(u.val(x.X, n.ctx), seen, out)
			return
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if m := u.load(n, x); m != nil {
				u.roots(m, seen, out)
				return
			}
		}
	}
	out[n.key] = n
}

func (u *nunit) phiSlice(n *nv) *nslice {
	out := map[string]*nv{}
	u.roots(n, map[*nv]bool{}, out)
	s := &nslice{}
	loop := n.blk != nil && len(n.blk.latch) > 0
	if len(out) == 1 {
		for k, b := range out {
			s.base, s.baseNV = k, b
		}
	}
	if loop {
		// break the cycle through the back edge
		u.sls[n] = s
		s.len = u.phiAtom(n, 'l', "phi")
		s.cap = u.phiAtom(n, 'c', "phi")
		if s.base != "" {
			s.off = u.phiAtom(n, 'o', "phi")
		} else {
			s.base, s.baseNV = n.key, n
		}
	} else {
		single := s.base != ""
		if !single {
			s.base, s.baseNV = n.key, n
		}
		u.sls[n] = s
		s.len = u.phiAtom(n, 'l', "phi")
		s.cap = u.phiAtom(n, 'c', "phi")
		if single {
			s.off = u.phiAtom(n, 'o', "phi")
		}
	}
	if len(s.cap.t) == 1 && s.cap.c == 0 {
		if a := u.atoms[s.cap.t[0].a]; a.kind == "phi" && a.nv == n && len(a.side) == 0 {
			a.side = append(a.side, s.cap.add(s.len, -1))
		}
	}
	return s
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// ---- calls ----

func byteOrderRead(name string) int {
	if !strings.HasPrefix(name, "(encoding/binary.") || !strings.Contains(name, "Endian).Uint") {
		return 0
	}
	switch {
	case strings.HasSuffix(name, "Uint16"):
		return 2
	case strings.HasSuffix(name, "Uint32"):
		return 4
	case strings.HasSuffix(name, "Uint64"):
		return 8
	}
	return 0
}

// pureMethod: methods of protobuf descriptors and messages that only read.
func pureMethod(name string) bool {
	return strings.HasPrefix(name, "(google.golang.org/protobuf/reflect/protoreflect.") && !protoreflectMutator(name)
}

func (u *nunit) callNum(n *nv) lin {
	call, idx := n.v, 0
	if ex, ok := n.v.(*ssa.Extract); ok {
		call, idx = ex.Tuple, ex.Index
	}
	c, ok := call.(*ssa.Call)
	if !ok {
		return u.freshAtom(n, "opaque")
	}
	cc := c.Common()
	args := callArgs(cc)
	av := func(i int) *nv { return u.val(args[i], n.ctx) }
	name := callName(cc)
	if kd, fl, rt := protoMethod(cc); kd == "Get" {
		f := protoMsgName(rt) + "." + fl
		key, exact := u.getter(c, n.ctx)
		if exact != nil && exact != n {
			return u.num(exact)
		}
		r := av(0)
		id := u.atom(key, func() natom {
			lo, hi := typeRange(n.typ)
			return natom{kind: "getter", lo: lo, hi: hi, def: u.commonDef(r, n), nv: n, comp: 'v', name: f}
		})
		return linA(id)
	}
	if w := byteOrderRead(name); w > 0 {
		return u.readAtom(n, av(1), linC(0), w, name[17:20])
	}
	nonneg := func(l lin) lin {
		u.atoms[l.t[0].a].lo = i64(0)
		return l
	}
	switch name {
	case "builtin.len", "builtin.cap":
		t := cc.Args[0].Type()
		if isSeq(t) {
			if name == "builtin.cap" {
				return u.sl(av(0)).cap
			}
			return u.sl(av(0)).len
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return linC(at.Len())
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return linC(at.Len())
			}
		}
		return nonneg(u.freshAtom(n, "len")) // maps, channels
	case "builtin.copy":
		l := nonneg(u.freshAtom(n, "calc"))
		a := u.atoms[l.t[0].a]
		if len(a.side) == 0 {
			a.side = append(a.side, u.sl(av(0)).len.add(l, -1), u.sl(av(1)).len.add(l, -1))
		}
		return l
	case "builtin.min", "builtin.max":
		l := u.freshAtom(n, "calc")
		a := u.atoms[l.t[0].a]
		if len(a.side) == 0 {
			k := int64(-1)
			if name == "builtin.max" {
				k = 1
			}
			alllo := true
			for i := range args {
				x := u.num(av(i))
				a.side = append(a.side, l.scale(k).add(x, -k))
				a.choice = append(a.choice, x)
				if lo, _ := u.bounds(x); lo == nil || *lo < 0 {
					alllo = false
				} else if k == 1 {
					a.lo = i64(0)
				}
			}
			if alllo {
				a.lo = i64(0)
			}
		}
		return l
	case "(*bytes.Reader).Len", "(*bytes.Buffer).Len", "(*strings.Reader).Len", "(*strings.Builder).Len", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount", "unicode/utf8.RuneLen":
		return nonneg(u.freshAtom(n, "call"))
	case "bytes.IndexByte", "strings.IndexByte", "bytes.Index", "strings.Index", "strings.IndexRune", "bytes.IndexAny", "strings.IndexAny", "strings.LastIndex", "bytes.LastIndex", "strings.LastIndexByte", "bytes.LastIndexByte", "slices.Index", "bytes.IndexFunc", "strings.IndexFunc", "slices.IndexFunc":
		l := u.freshAtom(n, "calc")
		a := u.atoms[l.t[0].a]
		if len(a.side) == 0 {
			a.lo = i64(-1)
			s := u.sl(av(0))
			if strings.HasSuffix(name, ".Index") && !strings.HasPrefix(name, "slices") {
				a.side = append(a.side, s.len.add(l, -1)) // the empty separator is found at the end
			} else if strings.HasSuffix(name, ".LastIndex") {
				a.side = append(a.side, s.len.add(l, -1))
			} else {
				a.side = append(a.side, s.len.add(l, -1).plus(-1))
			}
		}
		return l
	}
	if name == "(*math/big.Int).Sign" || name == "(*math/big.Int).BitLen" || name == "(*math/big.Int).Cmp" || name == "(*math/big.Int).CmpAbs" {
		return u.bigAtom(name, c, n.ctx)
	}
	if pureMethod(name) && len(args) == 1 {
		r := u.pureKey(av(0), 0)
		id := u.atom("pure:"+name+":"+r, func() natom {
			return natom{kind: "call", lo: i64(0), def: u.commonDef(av(0), n), nv: n, comp: 'v', name: name}
		})
		if strings.HasSuffix(name, ").Len") {
			return linA(id)
		}
	}
	if g := u.target(cc, n.ctx); g != nil && isRepoFunc(g) {
		return u.repoCallComp(n, c, g, idx, 'v')
	}
	return u.freshAtom(n, "opaque")
}

// commonDef is where a value computed from r by a pure read may be considered defined.
func (u *nunit) commonDef(r *nv, n *nv) *nb {
	if c, ok := r.v.(*ssa.Call); ok && r.kind == 'v' && u.isPureCall(c) {
		var d *nb
		for _, a := range callArgs(c.Common()) {
			if x := u.commonDef(u.val(a, r.ctx), n); x != nil && (d == nil || x.rpo > d.rpo) {
				d = x
			}
		}
		return d
	}
	return r.blk
}

func (u *nunit) isPureCall(c *ssa.Call) bool {
	name := callName(c.Common())
	return pureMethod(name) || strings.HasSuffix(name, ").Descriptor") || strings.HasSuffix(name, ").Options")
}

// pureKey names a value built by pure methods from a root.
func (u *nunit) pureKey(n *nv, d int) string {
	if c, ok := n.v.(*ssa.Call); ok && n.kind == 'v' && d < 6 {
		name := callName(c.Common())
		args := callArgs(c.Common())
		if u.isPureCall(c) {
			k := name
			for _, a := range args {
				k += "," + u.pureKey(u.val(a, n.ctx), d+1)
			}
			return k
		}
	}
	return n.key
}

func (u *nunit) callSlice(n *nv, c *ssa.Call, idx int) *nslice {
	cc := c.Common()
	args := callArgs(cc)
	av := func(i int) *nv { return u.val(args[i], n.ctx) }
	name := callName(cc)
	if kd, fl, rt := protoMethod(cc); kd == "Get" {
		_ = rt
		_ = fl
		key, exact := u.getter(c, n.ctx)
		if exact != nil && exact != n {
			return u.sl(exact)
		}
		r := av(0)
		g := u.mknv(key, nv{kind: 't', typ: n.typ, ctx: n.ctx, v: n.v, blk: u.commonDef(r, n)})
		s := u.freshSlice(g, "getter")
		return s
	}
	switch name {
	case "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text":
		if t := u.tokenAt(c, n.ctx); t != nil {
			return u.sl(t)
		}
	case "builtin.append":
		l := u.sl(av(0)).len.add(u.sl(av(1)).len, 1)
		s := u.freshSlice(n, "calc")
		s.len = l
		if a := u.atoms[s.cap.t[0].a]; len(a.side) == 1 {
			a.side = []lin{s.cap.add(l, -1)}
		}
		return s
	case "bytes.Clone", "slices.Clone", "strings.Clone", "strings.ToUpper", "strings.ToLower":
		if name == "bytes.Clone" || name == "slices.Clone" || name == "strings.Clone" {
			return u.fixedSlice(n, u.sl(av(0)).len)
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		s := u.freshSlice(n, "read")
		if a := u.atoms[s.len.t[0].a]; a.hi == nil {
			a.lo = i64(1)
			if name == "strconv.Itoa" {
				a.hi = i64(20)
			} else {
				a.hi = i64(65)
			}
		}
		return s
	case "encoding/hex.EncodeToString":
		return u.fixedSlice(n, u.sl(av(0)).len.scale(2))
	case "(*math/big.Int).FillBytes":
		return u.fixedSlice(n, u.sl(av(1)).len)
	case "strings.Repeat", "bytes.Repeat":
		if l, ok := u.mulLin(u.sl(av(0)).len, u.num(av(1))); ok {
			return u.fixedSlice(n, l)
		}
	case "strings.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "strings.TrimSuffix", "strings.TrimPrefix", "strings.TrimRightFunc", "strings.TrimLeftFunc",
		"bytes.TrimSpace", "bytes.TrimRight", "bytes.TrimLeft", "bytes.Trim", "bytes.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimRightFunc", "strings.TrimFunc", "bytes.TrimFunc":
		s := u.freshSlice(n, "calc")
		if a := u.atoms[s.len.t[0].a]; len(a.side) == 0 {
			a.side = append(a.side, u.sl(av(0)).len.add(s.len, -1))
		}
		return s
	}
	if strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, "Endian).AppendUint") {
		w := int64(2)
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "64") {
			w = 8
		}
		s := u.freshSlice(n, "calc")
		s.len = u.sl(av(1)).len.plus(w)
		if a := u.atoms[s.cap.t[0].a]; len(a.side) == 1 {
			a.side = []lin{s.cap.add(s.len, -1)}
		}
		return s
	}
	if g := u.target(cc, n.ctx); g != nil && isRepoFunc(g) {
		l := u.repoCallComp(n, c, g, idx, 'l')
		s := u.freshSlice(n, "call")
		s.len = l
		if !isStr(n.typ) {
			if a := u.atoms[s.cap.t[0].a]; len(a.side) == 1 {
				a.side = []lin{s.cap.add(l, -1)}
			}
		}
		return s
	}
	if name == "encoding/hex.AppendDecode" || name == "encoding/hex.AppendEncode" || strings.HasPrefix(name, "strconv.Append") || name == "unicode/utf8.AppendRune" || name == "fmt.Append" || name == "fmt.Appendf" {
		s := u.freshSlice(n, "calc")
		if a := u.atoms[s.len.t[0].a]; len(a.side) == 0 {
			a.side = append(a.side, s.len.add(u.sl(av(0)).len, -1))
		}
		return s
	}
	return u.freshSlice(n, "opaque")
}

// repoCallComp is a component of a result of a repository call that is not inlined.
func (u *nunit) repoCallComp(n *nv, c *ssa.Call, g *ssa.Function, idx int, comp byte) lin {
	id := u.atom(string(comp)+":"+n.key, func() natom {
		a := natom{kind: "call", def: n.blk, nv: n, comp: comp, name: g.Name() + "()"}
		if comp == 'v' {
			a.lo, a.hi = typeRange(n.typ)
		} else {
			a.lo = i64(0)
		}
		return a
	})
	if a := u.atoms[id]; a.side == nil && !u.posting[id] {
		u.posting[id] = true
		defer delete(u.posting, id)
		a.side = []lin{}
		for _, f := range u.e.postFacts(u, c, n.ctx, g, false) {
			a.side = append(a.side, f)
			if len(f.t) == 1 && f.t[0].a == id && f.t[0].k == 1 && (a.lo == nil || *a.lo < -f.c) {
				a.lo = i64(-f.c)
			}
		}
	}
	return linA(id)
}

// ---- memory ----

// addr names a memory location: base value plus field path ("" for the whole).
func (u *nunit) addr(n *nv) (*nv, string, bool) {
	for n.fwd != nil {
		n = n.fwd
	}
	if (n.kind == 'r' || n.kind == 'm' || isPhi(n)) && len(n.edges) > 0 {
		e0 := n.edges[0]
		for _, e := range n.edges[1:] {
			if e != e0 {
				return n, "", false
			}
		}
		if e0 != n {
			return u.addr(e0)
		}
	}
	if n.kind != 'v' {
		return n, "", false
	}
	switch x := n.v.(type) {
	case *ssa.Alloc:
		return n, "", true
	case *ssa.FieldAddr:
		b, p, ok := u.addr(u.val(x.X, n.ctx))
		return b, fmt.Sprintf("%s.%d", p, x.Field), ok
	case *ssa.Parameter, *ssa.FreeVar:
		return n, "", true
	case *ssa.UnOp:
		if x.Op == token.MUL { // a pointer kept in a local variable
			if m := u.load(n, x); m != nil && m != n {
				return u.addr(m)
			}
		}
	}
	return n, "", false
}

// tracked: locations whose every access is in the unit.
func (u *nunit) tracked(base *nv) bool {
	if r, ok := u.noAlias[base]; ok {
		return r
	}
	u.noAlias[base] = false
	ok := false
	switch x := base.v.(type) {
	case *ssa.Alloc:
		ok = u.addrUses(x, base.ctx, 0)
	case *ssa.Parameter:
		pt, isP := x.Type().Underlying().(*types.Pointer)
		if isP {
			n := namedOf(pt.Elem())
			ok = n != nil && isRepoPkg(n.Obj().Pkg()) && u.addrUses(x, base.ctx, 0)
		}
	}
	u.noAlias[base] = ok
	return ok
}

// addrUses: the address is only loaded from, stored to, passed to inlined calls, to
// calls that do not keep it, or captured by closures that are inlined.
func (u *nunit) addrUses(v ssa.Value, ctx *nctx, d int) bool {
	if d > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.BinOp:
		case *ssa.FieldAddr:
			if !u.addrUses(x, ctx, d+1) {
				return false
			}
		case *ssa.IndexAddr:
		case *ssa.Slice:
			// array contents are not tracked
		case *ssa.MakeInterface:
			for _, q := range *x.Referrers() {
				if _, ok := q.(ssa.CallInstruction); !ok {
					return false
				}
			}
		case *ssa.Phi:
			return false
		case *ssa.MakeClosure:
			// calls of the closure that are not inlined are kills
		case ssa.CallInstruction:
			// inlined, or a kill
		case *ssa.Return:
			if ctx.parent == nil {
				continue
			}
			// the inlined callee hands the address to its caller
			if c, ok := ctx.site.(*ssa.Call); ok {
				if !u.addrUses(c, ctx.parent, d+1) {
					return false
				}
			}
		case *ssa.Extract:
		default:
			return false
		}
	}
	return true
}

// load is the value read by a load instruction, nil if memory is not tracked.
func (u *nunit) load(n *nv, x *ssa.UnOp) *nv {
	b, path, ok := u.addr(u.val(x.X, n.ctx))
	if !ok || !u.tracked(b) {
		return nil
	}
	k := instrKey(x, n.ctx)
	blk := u.instrAt[k]
	if blk == nil {
		return nil
	}
	return u.memAt(b, path, n.typ, blk, u.idxAt[k])
}

func (u *nunit) loadNum(n *nv, x *ssa.UnOp) lin {
	if m := u.load(n, x); m != nil {
		return u.num(m)
	}
	if ia, ok := x.X.(*ssa.IndexAddr); ok {
		if isSeq(ia.X.Type()) && isByteElem(ia.X.Type()) {
			return u.readAtom(n, u.val(ia.X, n.ctx), u.num(u.val(ia.Index, n.ctx)), 1, "")
		}
		return u.freshAtom(n, "elem")
	}
	if g, ok := x.X.(*ssa.Global); ok {
		if c := u.e.c.globalConst(g); c.k == 'c' {
			if i, ok := c.int(); ok {
				return linC(i)
			}
		}
	}
	return u.freshAtom(n, "opaque")
}

func isByteElem(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// memAt is the value of a location just before instruction i of block b.
func (u *nunit) memAt(base *nv, path string, t types.Type, b *nb, i int) *nv {
	for i--; i >= 0; i-- {
		if v, hit := u.memEffect(base, path, t, b.instrs[i], b); hit {
			return v
		}
	}
	return u.memIn(base, path, t, b)
}

func (u *nunit) memIn(base *nv, path string, t types.Type, b *nb) *nv {
	k := fmt.Sprintf("m%d:%s:%s", b.id, base.key, path)
	if v := u.memC[k]; v != nil {
		return v
	}
	if len(b.preds) == 0 {
		v := u.mknv("i:"+base.key+path, nv{kind: 'i', typ: t, base: base, ctx: u.root})
		u.memC[k] = v
		return v
	}
	if len(b.preds) == 1 {
		p := b.preds[0].p
		v := u.memAt(base, path, t, p, len(p.instrs))
		u.memC[k] = v
		return v
	}
	m := u.mknv(k, nv{kind: 'm', typ: t, blk: b, base: base, ctx: b.ctx})
	u.memC[k] = m
	u.memPend++
	var es []*nv
	for _, e := range b.preds {
		es = append(es, u.memAt(base, path, t, e.p, len(e.p.instrs)))
	}
	u.memPend--
	var same *nv
	triv := true
	for _, e := range es {
		if e == m {
			continue
		}
		if same == nil {
			same = e
		} else if same != e {
			triv = false
		}
	}
	if triv && same != nil {
		u.memC[k] = same
		m.edges = es
		m.fwd = same
		return same
	}
	m.edges = es
	m.blk = b
	b.phis = append(b.phis, m)
	return m
}

// memEffect: what instruction in does to a location.
func (u *nunit) memEffect(base *nv, path string, t types.Type, ni ninstr, blk *nb) (*nv, bool) {
	switch x := ni.in.(type) {
	case *ssa.Alloc:
		if u.val(x, ni.ctx) == base {
			return u.mknv("z:"+t.String(), nv{kind: 'z', typ: t}), true
		}
	case *ssa.Store:
		b, p, ok := u.addr(u.val(x.Addr, ni.ctx))
		if !ok || b != base {
			return nil, false
		}
		switch {
		case p == path:
			return u.val(x.Val, ni.ctx), true
		case strings.HasPrefix(path, p+".") || p == "" && path != "":
			return u.fieldPath(u.val(x.Val, ni.ctx), path[len(p):], t), true
		case strings.HasPrefix(p, path+"."):
			return u.mknv(fmt.Sprintf("k:%s:%s%s", instrKey(x, ni.ctx), base.key, path), nv{kind: 'k', typ: t, blk: blk, ctx: ni.ctx}), true
		}
	case ssa.CallInstruction:
		if u.mayWrite(base, path, x, ni.ctx) {
			kind := byte('k')
			if g := x.Common().StaticCallee(); g != nil && !isRepoFunc(g) && !u.captured(base) {
				kind = 't' // filled by a library decoder: any value
			}
			return u.mknv(fmt.Sprintf("k:%s:%s%s", instrKey(ni.in, ni.ctx), base.key, path), nv{kind: kind, typ: t, blk: blk, ctx: ni.ctx}), true
		}
	}
	return nil, false
}

// fieldPath is a field of a struct value.
func (u *nunit) fieldPath(n *nv, path string, t types.Type) *nv {
	if n.kind == 'z' {
		return u.mknv("z:"+t.String(), nv{kind: 'z', typ: t})
	}
	if x, ok := n.v.(*ssa.UnOp); ok && n.kind == 'v' && x.Op == token.MUL {
		b, p, ok := u.addr(u.val(x.X, n.ctx))
		k := instrKey(x, n.ctx)
		if ok && u.tracked(b) && u.instrAt[k] != nil {
			return u.memAt(b, p+path, t, u.instrAt[k], u.idxAt[k])
		}
	}
	if c, ok := n.v.(*ssa.Const); ok && c.Value == nil {
		return u.mknv("z:"+t.String(), nv{kind: 'z', typ: t})
	}
	if (n.kind == 'r' || n.kind == 'm' || isPhi(n)) && len(n.edges) > 0 {
		k := "fp:" + n.key + path
		if o := u.vals[k]; o != nil {
			return o
		}
		m := u.mknv(k, nv{kind: 'm', typ: t, blk: n.blk, ctx: n.ctx})
		for _, e := range n.edges {
			m.edges = append(m.edges, u.fieldPath(e, path, t))
		}
		n.blk.phis = append(n.blk.phis, m)
		return m
	}
	return u.mknv("f:"+n.key+path, nv{kind: 'f', typ: t, blk: n.blk, ctx: n.ctx, base: n})
}

func isPhi(n *nv) bool {
	_, ok := n.v.(*ssa.Phi)
	return ok && n.kind == 'v'
}

func (u *nunit) fieldOf(n *nv, i int) *nv {
	st, ok := n.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return u.fieldPath(n, fmt.Sprintf(".%d", i), st.Field(i).Type())
}

// mayWrite: a call that is not inlined may change the location.
func (u *nunit) mayWrite(base *nv, path string, ci ssa.CallInstruction, ctx *nctx) bool {
	cc := ci.Common()
	if kd, _, _ := protoMethod(cc); kd != "" {
		return false
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	passed := false
	for _, a := range append(callArgs(cc), cc.Value) {
		if a == nil {
			continue
		}
		x := u.val(a, ctx)
		for i := 0; i < 4; i++ {
			if mi, ok := x.v.(*ssa.MakeInterface); ok && x.kind == 'v' {
				x = u.val(mi.X, x.ctx)
			}
		}
		if b, _, _ := u.addr(x); b == base || x == base {
			passed = true
		}
		if mc, ok := x.v.(*ssa.MakeClosure); ok {
			for _, bd := range mc.Bindings {
				if bb, _, _ := u.addr(u.val(bd, x.ctx)); bb == base {
					passed = true
				}
			}
		}
	}
	if passed {
		if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && !u.captured(base) {
			return u.e.storesTo(g, base.typ)
		}
		return true
	}
	return u.captured(base) && !u.quiet(cc)
}

func (u *nunit) captured(base *nv) bool {
	v := base.v
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// quiet: a call that cannot reach a closure of the unit.
func (u *nunit) quiet(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && mc != nil {
		return false
	}
	if g.Parent() != nil {
		return false
	}
	for _, a := range cc.Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			return false
		}
		if _, ok := a.Type().Underlying().(*types.Interface); ok && !isErrorType(a.Type()) {
			if _, isC := a.(*ssa.Const); !isC {
				if mi, ok := a.(*ssa.MakeInterface); !ok || !plainData(mi.X.Type()) {
					return strings.HasPrefix(callName(cc), "fmt.")
				}
			}
		}
	}
	return true
}

func plainData(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Slice, *types.Array:
		return true
	}
	return isProtoMsg(t)
}

// storesTo: g or something it calls stores to a field of the struct t points to.
func (e *numEng) storesTo(g *ssa.Function, t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return true
	}
	reach := e.c.P.reach(g)
	for f := range reach {
		m := e.stores[f]
		if m == nil {
			m = map[string]bool{}
			e.stores[f] = m
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						a := st.Addr
						for {
							fa, ok := a.(*ssa.FieldAddr)
							if !ok {
								break
							}
							if nn := namedOf(fa.X.Type()); nn != nil {
								m[nn.Obj().Name()] = true
							}
							a = fa.X
						}
						if nn := namedOf(a.Type()); nn != nil {
							m[nn.Obj().Name()] = true
						}
					}
				}
			}
		}
		if m[n.Obj().Name()] {
			return true
		}
	}
	return false
}

func sortLins(ls []lin) {
	sort.Slice(ls, func(i, j int) bool { return ls[i].key() < ls[j].key() })
}
