package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- obligations ----

type oblig struct {
	kind   string
	goals  []lin // all must be >= 0
	alt    []lin // or all of these (division: the divisor is negative)
	alts   [][]lin
	point  *nv // the public key must be known to lie on its curve
	nonNil *nv
	never  bool // the instruction must be unreachable
	what   string
}

func (u *nunit) obligations(ni ninstr) []oblig {
	k := instrKey(ni.in, ni.ctx)
	if o, ok := u.oblC[k]; ok {
		return o
	}
	o := u.oblig1(ni)
	u.oblC[k] = o
	return o
}

func srcName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		return srcName(x.X)
	case *ssa.Alloc:
		return x.Comment
	case *ssa.FieldAddr:
		if n := namedOf(x.X.Type()); n != nil {
			if st, ok := n.Underlying().(*types.Struct); ok {
				return st.Field(x.Field).Name()
			}
		}
	case *ssa.Slice:
		return srcName(x.X)
	case *ssa.Call:
		return callName(x.Common())
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return callName(c.Common())
		}
	case *ssa.Phi:
		return x.Comment
	case *ssa.Global:
		return x.Name()
	}
	return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

func (u *nunit) oblig1(ni ninstr) []oblig {
	ctx := ni.ctx
	idx := func(x ssa.Value, n lin, what string, i ssa.Value) []oblig {
		l := u.num(u.val(i, ctx))
		return []oblig{{kind: "index", goals: []lin{l, n.add(l, -1).plus(-1)}, what: "index into " + what}}
	}
	switch x := ni.in.(type) {
	case *ssa.IndexAddr:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return idx(x.X, linC(at.Len()), srcName(x.X), x.Index)
			}
		}
		if isSeq(x.X.Type()) {
			return idx(x.X, u.sl(u.val(x.X, ctx)).len, srcName(x.X), x.Index)
		}
	case *ssa.Index:
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			return idx(x.X, linC(at.Len()), srcName(x.X), x.Index)
		}
		if isStr(x.X.Type()) {
			return idx(x.X, u.sl(u.val(x.X, ctx)).len, srcName(x.X), x.Index)
		}
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			return idx(x.X, u.sl(u.val(x.X, ctx)).len, srcName(x.X), x.Index)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return nil
		}
		var c, n lin
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			at, ok := pt.Elem().Underlying().(*types.Array)
			if !ok {
				return nil
			}
			c, n = linC(at.Len()), linC(at.Len())
		} else {
			s := u.sl(u.val(x.X, ctx))
			c, n = s.cap, s.len
			if isStr(x.X.Type()) {
				c = s.len
			}
		}
		lo, hi := linC(0), n
		if x.Low != nil {
			lo = u.num(u.val(x.Low, ctx))
		}
		if x.High != nil {
			hi = u.num(u.val(x.High, ctx))
		}
		o := oblig{kind: "slice", goals: []lin{lo, hi.add(lo, -1)}, what: "slice of " + srcName(x.X)}
		if x.High != nil {
			o.goals = append(o.goals, c.add(hi, -1))
		}
		if x.Max != nil {
			m := u.num(u.val(x.Max, ctx))
			o.goals = append(o.goals, m.add(hi, -1), c.add(m, -1))
		}
		return []oblig{o}
	case *ssa.SliceToArrayPointer:
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return []oblig{{kind: "slice", goals: []lin{u.sl(u.val(x.X, ctx)).len.plus(-at.Len())}, what: "array of " + srcName(x.X)}}
			}
		}
	case *ssa.MakeSlice:
		l, c := u.num(u.val(x.Len, ctx)), u.num(u.val(x.Cap, ctx))
		return []oblig{{kind: "make", goals: []lin{l, c.add(l, -1)}, what: "make"}}
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return nil
		}
		switch x.Op {
		case token.QUO, token.REM:
			d := u.num(u.val(x.Y, ctx))
			if d.isConst() && d.c != 0 {
				return nil
			}
			return []oblig{{kind: "divide", goals: []lin{d.plus(-1)}, alt: []lin{d.scale(-1).plus(-1)}, what: "division"}}
		case token.SHL, token.SHR:
			d := u.num(u.val(x.Y, ctx))
			if lo, _ := u.bounds(d); lo != nil && *lo >= 0 {
				return nil
			}
			return []oblig{{kind: "shift", goals: []lin{d}, what: "shift count"}}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return u.ptrOb(x.X, ctx)
		}
	case *ssa.FieldAddr:
		return u.ptrOb(x.X, ctx)
	case *ssa.Store:
		return u.ptrOb(x.Addr, ctx)
	case *ssa.TypeAssert:
		if x.CommaOk || u.assertOK(x, ctx) {
			return nil
		}
		return []oblig{{kind: "assert", never: true, what: "type assertion to " + types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() })}}
	case *ssa.MapUpdate:
		return []oblig{{kind: "nil", nonNil: u.val(x.Map, ctx), what: "write to map " + srcName(x.Map)}}
	case *ssa.Panic:
		if rangeFuncCheck(x) {
			return nil // emitted by the compiler, not by the program
		}
		return []oblig{{kind: "panic", never: true, what: "explicit panic"}}
	case ssa.CallInstruction:
		return u.callOb(x, ctx)
	}
	return nil
}

func bigDivides(name string) bool {
	switch name {
	case "(*math/big.Int).Mod", "(*math/big.Int).Div", "(*math/big.Int).Quo", "(*math/big.Int).Rem", "(*math/big.Int).DivMod", "(*math/big.Int).QuoRem":
		return true
	}
	return false
}

// rangeFuncCheck: the state checks the compiler puts around a range-over-func
// loop panic with a constant of its own.
func rangeFuncCheck(x *ssa.Panic) bool {
	mi, ok := x.X.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	c, ok := mi.X.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return false
	}
	switch constant.StringVal(c.Value) {
	case "iterator call did not preserve panic", "yield function called after range loop exit":
		return true
	}
	return false
}

// assertOK: the dynamic type is known.
func (u *nunit) assertOK(x *ssa.TypeAssert, ctx *nctx) bool {
	v := u.deref(u.val(x.X, ctx))
	if mi, ok := v.v.(*ssa.MakeInterface); ok && v.kind == 'v' {
		return types.AssignableTo(mi.X.Type(), x.AssertedType)
	}
	c, ok := v.v.(*ssa.Call)
	if !ok || v.kind != 'v' {
		return false
	}
	switch name := callName(c.Common()); {
	case name == "google.golang.org/protobuf/proto.GetExtension":
		return true // the extension type fixes the dynamic type (checked by the table properties)
	case name == "google.golang.org/protobuf/proto.Clone":
		a := u.deref(u.val(c.Common().Args[0], v.ctx))
		if mi, ok := a.v.(*ssa.MakeInterface); ok && a.kind == 'v' {
			return types.AssignableTo(mi.X.Type(), x.AssertedType)
		}
	case strings.HasSuffix(name, ").Options") && strings.Contains(name, "protoreflect"):
		return true
	}
	return false
}

func (u *nunit) ptrOb(p ssa.Value, ctx *nctx) []oblig {
	switch x := p.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.FreeVar:
		return nil
	case *ssa.UnOp, *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.Field, *ssa.Const:
		_ = x
		return []oblig{{kind: "nil", nonNil: u.val(p, ctx), what: "dereference of " + srcName(p)}}
	}
	return nil
}

func (u *nunit) callOb(ci ssa.CallInstruction, ctx *nctx) []oblig {
	cc := ci.Common()
	args := callArgs(cc)
	if kd, fl, _ := protoMethod(cc); kd != "" {
		if kd == "Set" || kd == "Clear" {
			return []oblig{{kind: "nil", nonNil: u.val(args[0], ctx), what: kd + fl + " on " + srcName(args[0])}}
		}
		return nil
	}
	name := callName(cc)
	if cc.IsInvoke() {
		out := []oblig{{kind: "nil", nonNil: u.val(cc.Value, ctx), what: "call of " + cc.Method.Name() + " on " + srcName(cc.Value)}}
		if cc.Method.Name() == "Get" && len(args) == 2 && isInt(args[1].Type()) && strings.HasPrefix(name, "(google.golang.org/protobuf/reflect/protoreflect.") {
			i := u.num(u.val(args[1], ctx))
			lenName := strings.TrimSuffix(name, ").Get") + ").Len"
			n := linA(u.atom("pure:"+lenName+":"+u.pureKey(u.val(args[0], ctx), 0), func() natom {
				return natom{kind: "call", lo: i64(0), comp: 'v', name: lenName}
			}))
			out = append(out, oblig{kind: "index", goals: []lin{i, n.add(i, -1).plus(-1)}, what: "descriptor list index"})
		}
		return out
	}
	if _, ok := cc.Value.(*ssa.Builtin); !ok && cc.StaticCallee() == nil {
		return []oblig{{kind: "nil", nonNil: u.val(cc.Value, ctx), what: "call of function value " + srcName(cc.Value)}}
	}
	switch {
	case strings.HasPrefix(name, "(encoding/binary.") && (strings.Contains(name, "Endian).Uint") || strings.Contains(name, "Endian).PutUint")):
		w := int64(8)
		if strings.HasSuffix(name, "16") {
			w = 2
		} else if strings.HasSuffix(name, "32") {
			w = 4
		}
		return []oblig{{kind: "slice", goals: []lin{u.sl(u.val(args[1], ctx)).len.plus(-w)}, what: fmt.Sprintf("%d-byte access to %s", w, srcName(args[1]))}}
	case name == "(*math/big.Int).Exp" && len(args) == 4:
		if c, ok := u.deref(u.val(args[3], ctx)).v.(*ssa.Const); ok && c.Value == nil {
			return []oblig{{kind: "divide", never: true, what: "Exp without modulus"}}
		}
		w := u.bigNonZero(u.val(args[3], ctx))
		return []oblig{{kind: "divide", goals: w[0], alts: w[1:], what: "Exp modulo " + srcName(args[3])}}
	case bigDivides(name) && len(args) >= 3:
		w := u.bigNonZero(u.val(args[2], ctx))
		return []oblig{{kind: "divide", goals: w[0], alts: w[1:], what: "big integer division"}}
	case name == "crypto/ecdsa.Verify":
		return []oblig{{kind: "curve", point: u.val(args[0], ctx), what: "signature check under " + srcName(args[0])}}
	case name == "strings.Repeat" || name == "bytes.Repeat":
		return []oblig{{kind: "make", goals: []lin{u.num(u.val(args[1], ctx))}, what: "Repeat"}}
	case name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic") || name == "runtime.Goexit" || strings.HasPrefix(name, "regexp.MustCompile"):
		return []oblig{{kind: "panic", never: true, what: name}}
	}
	return nil
}

// ---- results ----

type oblResult struct {
	in     ssa.Instruction
	ob     oblig
	goal   int
	opaque bool
	unit   *ssa.Function
	detail string
}

type npost struct {
	res  int
	comp byte
	err  bool // only when the error is nil
	eqs  bool
	k    int64 // coefficient of the result
	c    int64
	par  []nparTerm
}

type nparTerm struct {
	param int
	comp  byte
	k     int64
}

type ninfo struct {
	f      *ssa.Function
	size   int
	open   []oblResult
	nonNil map[int]bool
	posts  []npost
	fm     int
	obls   int
	loops  int
	allocs int
	ranks  []string
	unit   *nunit
	big    bool
}

func (i *ninfo) dirty() bool { return len(i.open) > 0 }

func (e *numEng) alwaysNonNil(g *ssa.Function, idx int) bool {
	if g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 || len(g.Blocks) > 40 {
		return false
	}
	if r, ok := e.nnC[g]; ok {
		return r
	}
	e.nnC[g] = false
	ok := true
	for _, b := range g.Blocks {
		r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isR {
			continue
		}
		switch x := r.Results[0].(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		case *ssa.Call:
			n := callName(x.Common())
			h := x.Common().StaticCallee()
			if n != "fmt.Errorf" && n != "errors.New" && (h == nil || !isRepoFunc(h) || !e.alwaysNonNil(h, 0)) {
				ok = false
			}
		default:
			ok = false
		}
	}
	e.nnC[g] = ok
	return ok
}

// inlineTarget decides whether a call is expanded in place.
func (e *numEng) inlineTarget(u *nunit, ci *ssa.Call, ctx *nctx) (*ssa.Function, []*nv, []*nv) {
	cc := ci.Common()
	if cc.IsInvoke() {
		return nil, nil, nil
	}
	g, binds, bctx := u.calleeOf(cc, ctx)
	if g == nil || !isRepoFunc(g) || isProtoPkg(funcPkg(g)) || len(g.Blocks) == 0 {
		return nil, nil, nil
	}
	for c := ctx; c != nil; c = c.parent {
		if c.fn == g {
			e.refused[g] = true
			return nil, nil, nil
		}
	}
	if e.busy[g] {
		e.refused[g] = true
		return nil, nil, nil
	}
	inf := e.analyse(g)
	want := inf.dirty() || g.Parent() != nil
	sig := g.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok && inf.size <= 40 && !isProtoMsg(t) {
			if nm := namedOf(pt.Elem()); nm != nil && isRepoPkg(nm.Obj().Pkg()) {
				want = true
			}
		}
		if (isInt(t) || isSeq(t) && !isStr(t)) && inf.size <= 250 && !inf.covered(i) {
			want = true
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && inf.size <= 60 {
			want = true
		}
		if isErrorType(t) && sig.Results().Len() == 1 && inf.size <= 40 {
			for _, p := range g.Params {
				want = want || isInt(p.Type()) || isSeq(p.Type()) // a validator: its success says something about them
			}
		}
	}
	for _, p := range g.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Signature:
			want = true
		case *types.Pointer:
			if n := namedOf(t.Elem()); n != nil && isRepoPkg(n.Obj().Pkg()) && !isProtoMsg(p.Type()) {
				want = want || inf.size <= 250
			}
		}
	}
	if !want {
		return nil, nil, nil
	}
	if ctx.depth >= 8 || len(u.blocks)+inf.size > maxUnitBlocks {
		if inf.dirty() {
			e.refused[g] = true
		}
		return nil, nil, nil
	}
	var args, bv []*nv
	for _, a := range cc.Args {
		args = append(args, u.val(a, ctx))
	}
	for _, b := range binds {
		bv = append(bv, u.val(b, bctx))
	}
	return g, args, bv
}

func (u *nunit) calleeOf(cc *ssa.CallCommon, ctx *nctx) (*ssa.Function, []ssa.Value, *nctx) {
	x := u.val(cc.Value, ctx)
	if x.kind != 'v' {
		return nil, nil, nil
	}
	switch v := x.v.(type) {
	case *ssa.Function:
		return v, nil, nil
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function), v.Bindings, x.ctx
	}
	return nil, nil, nil
}

// target is the function called, also through a function value known here.
func (u *nunit) target(cc *ssa.CallCommon, ctx *nctx) *ssa.Function {
	if g := cc.StaticCallee(); g != nil || cc.IsInvoke() {
		return g
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	g, _, _ := u.calleeOf(cc, ctx)
	return g
}

// splitOf finds the split function installed on a scanner.
func (u *nunit) splitOf(sc ssa.Value, ctx *nctx) (*ssa.Function, []ssa.Value, *nctx) {
	x := u.val(sc, ctx)
	if x.kind != 'v' || x.v.Referrers() == nil {
		return nil, nil, nil
	}
	for _, r := range *x.v.Referrers() {
		if c, ok := r.(*ssa.Call); ok && callName(c.Common()) == "(*bufio.Scanner).Split" {
			cc := &ssa.CallCommon{Value: c.Common().Args[1]}
			for {
				if ct, ok := cc.Value.(*ssa.ChangeType); ok {
					cc.Value = ct.X
					continue
				}
				break
			}
			return u.calleeOf(cc, x.ctx)
		}
	}
	return nil, nil, nil
}

func (e *numEng) newUnit(f *ssa.Function) *nunit {
	u := &nunit{e: e, f: f, vals: map[string]*nv{}, atomKey: map[string]int{}, nums: map[*nv]lin{}, numBusy: map[*nv]bool{},
		sls: map[*nv]*nslice{}, slBusy: map[*nv]bool{}, instrAt: map[string]*nb{}, idxAt: map[string]int{}, inv: map[*nb][]lin{},
		envC: map[*nb]*fenv{}, envBusy: map[*nb]bool{}, vers: map[string]map[*nb]string{}, getC: map[string]ngetter{}, kills: map[string]map[*nb][]nkill{}, memC: map[string]*nv{}, written: map[string]bool{}, noAlias: map[*nv]bool{},
		oblC: map[string][]oblig{}, posting: map[int]bool{}}
	u.fmMax = 40000
	u.root = u.mkctx(nil, nil, f, nil, nil)
	u.entry, u.rets = u.build(f, u.root)
	u.analyseGraph()
	u.findWritten()
	return u
}

// findWritten notes sequences whose bytes the unit changes in place.
func (u *nunit) findWritten() {
	mark := func(v ssa.Value, ctx *nctx) {
		out := map[string]*nv{}
		u.roots(u.val(v, ctx), map[*nv]bool{}, out)
		for k := range out {
			u.written[k] = true
		}
	}
	for _, b := range u.blocks {
		for _, ni := range b.instrs {
			switch x := ni.in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					mark(ia.X, ni.ctx)
				}
			case ssa.CallInstruction:
				cc := x.Common()
				switch n := callName(cc); {
				case n == "builtin.copy":
					mark(cc.Args[0], ni.ctx)
				case strings.Contains(n, "Endian).Put"):
					mark(callArgs(cc)[1], ni.ctx)
				}
			}
		}
	}
	u.resetForms()
}

// resetForms drops everything computed from unproven or partial facts.
func (u *nunit) resetForms() {
	u.nums, u.sls = map[*nv]lin{}, map[*nv]*nslice{}
	u.envC, u.joins, u.accC = map[*nb]*fenv{}, nil, nil
	u.oblC = map[string][]oblig{}
	u.envHit = false
	for _, a := range u.atoms {
		a.side = nil
		if a.kind == "calc" {
			// ranges derived from proofs are derived again
		}
	}
}

func (u *nunit) warm() {
	for _, b := range u.blocks {
		for _, ph := range b.phis {
			u.warmVal(ph)
			for _, e := range ph.edges {
				u.warmVal(e)
			}
		}
		for _, ni := range b.instrs {
			u.obligations(ni)
			if v, ok := ni.in.(ssa.Value); ok {
				u.warmVal(u.val(v, ni.ctx))
			}
		}
	}
	for _, r := range u.rets {
		for _, x := range r.res {
			u.warmVal(x)
		}
	}
}

func (u *nunit) warmVal(n *nv) {
	if n.typ == nil {
		return
	}
	if isInt(n.typ) {
		u.num(n)
	} else if isSeq(n.typ) {
		u.sl(n)
	} else {
		u.deref(n)
	}
}

// ---- loop invariants ----

type hcomp struct {
	a  int
	ph *nv
	c  byte
}

func (u *nunit) headerComps(h *nb) []hcomp {
	var out []hcomp
	seen := map[int]bool{}
	put := func(l lin, ph *nv, c byte) {
		if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
			a := u.atoms[l.t[0].a]
			if a.nv == ph && a.comp == c && !seen[a.id] && (a.kind == "phi") {
				seen[a.id] = true
				out = append(out, hcomp{a.id, ph, c})
			}
		}
	}
	for _, ph := range h.phis {
		switch {
		case len(ph.edges) != len(h.preds):
		case isInt(ph.typ):
			put(u.num(ph), ph, 'v')
		case isSeq(ph.typ):
			s := u.sl(ph)
			put(s.len, ph, 'l')
			put(s.cap, ph, 'c')
			put(s.off, ph, 'o')
		}
	}
	return out
}

func (u *nunit) isLatch(h *nb, i int) bool {
	for _, l := range h.latch {
		if h.preds[i] == l {
			return true
		}
	}
	return false
}

// inLoop: the atom may change within the loop.
func (u *nunit) inLoop(a int, h *nb) bool {
	at := u.atoms[a]
	if at.kind == "mul" {
		return u.inLoop(at.fa, h) || u.inLoop(at.fb, h)
	}
	return at.def != nil && h.body[at.def]
}

func (u *nunit) candidates(h *nb) []lin {
	comps := u.headerComps(h)
	isComp := map[int]bool{}
	for _, c := range comps {
		isComp[c.a] = true
	}
	var out []lin
	seen := map[string]bool{}
	put := func(l lin) {
		if l.isConst() || len(out) > 160 {
			return
		}
		hasComp := false
		for _, t := range l.t {
			if isComp[t.a] {
				hasComp = true
			} else if at := u.atoms[t.a]; at.kind == "mul" {
				for _, f := range []int{at.fa, at.fb} {
					if isComp[f] {
						hasComp = true
					} else if u.inLoop(f, h) {
						return
					}
				}
			} else if u.inLoop(t.a, h) {
				return
			}
		}
		if !hasComp {
			return
		}
		l = l.tighten()
		if k := l.key(); !seen[k] {
			seen[k] = true
			out = append(out, l)
		}
	}
	type ci struct {
		E     lin
		hasE  bool
		delta []lin
	}
	infos := make([]ci, len(comps))
	steps := map[int64]bool{0: true, 1: true, -1: true}
	for i, c := range comps {
		p := linA(c.a)
		var ent []lin
		for j := range h.preds {
			v := u.comp(c.ph.edges[j], c.c)
			if u.isLatch(h, j) {
				d := v.add(p, -1)
				infos[i].delta = append(infos[i].delta, d)
				if d.isConst() && len(steps) < 10 {
					steps[d.c] = true
					steps[-d.c] = true
				}
			} else {
				ent = append(ent, v)
			}
		}
		if len(ent) > 0 {
			infos[i].E, infos[i].hasE = ent[0], true
			for _, e := range ent[1:] {
				if !e.equal(ent[0]) {
					infos[i].hasE = false
				}
			}
		}
		put(p)
		if infos[i].hasE {
			put(p.add(infos[i].E, -1))
			put(infos[i].E.add(p, -1))
		}
		for _, e := range ent {
			if lo, _ := u.bounds(e); lo != nil {
				put(p.plus(-*lo))
			}
		}
	}
	var stepList []int64
	for s := range steps {
		stepList = append(stepList, s)
	}
	sort.Slice(stepList, func(i, j int) bool { return stepList[i] < stepList[j] })
	// relations between two variables
	for i := range comps {
		for j := range comps {
			if i == j || !infos[i].hasE || !infos[j].hasE || len(infos[i].delta) == 0 {
				continue
			}
			p, q := linA(comps[i].a).add(infos[i].E, -1), linA(comps[j].a).add(infos[j].E, -1)
			if i < j {
				sum, diff := true, true
				for k := range infos[i].delta {
					if !infos[i].delta[k].add(infos[j].delta[k], 1).equal(linC(0)) {
						sum = false
					}
					if !infos[i].delta[k].equal(infos[j].delta[k]) {
						diff = false
					}
				}
				if sum {
					put(p.add(q, 1))
					put(p.add(q, 1).scale(-1))
				}
				if diff {
					put(p.add(q, -1))
					put(q.add(p, -1))
				}
			}
			// q counts rounds: p = step * q
			d := infos[j].delta[0]
			ok := d.isConst() && d.c != 0
			for _, x := range infos[j].delta {
				ok = ok && x.equal(d)
			}
			s := infos[i].delta[0]
			for _, x := range infos[i].delta {
				ok = ok && x.equal(s)
			}
			for _, t := range s.t {
				ok = ok && !u.inLoop(t.a, h)
			}
			if !ok {
				continue
			}
			if m, okm := u.mulLin(s, q); okm {
				r := p.scale(d.c).add(m, -1)
				put(r)
				put(r.scale(-1))
			}
		}
	}
	// comparisons of the loop, weakened by a step
	guard := func(n *nv) {
		if n == nil {
			return
		}
		n = u.deref(n)
		x, ok := n.v.(*ssa.BinOp)
		if !ok || n.kind != 'v' {
			return
		}
		a, b := u.val(x.X, n.ctx), u.val(x.Y, n.ctx)
		var d lin
		switch {
		case isInt(x.X.Type()):
			d = u.num(a).add(u.num(b), -1)
		default:
			return
		}
		f := lin{c: d.c}
		dropped := false
		for _, t := range d.t {
			if isComp[t.a] || !u.inLoop(t.a, h) {
				f.t = append(f.t, t)
			} else if at := u.atoms[t.a]; at.kind == "mul" && (isComp[at.fa] && !u.inLoop(at.fb, h) || isComp[at.fb] && !u.inLoop(at.fa, h)) {
				f.t = append(f.t, t)
			} else {
				dropped = true
			}
		}
		has := false
		for _, t := range f.t {
			has = has || isComp[t.a] || u.atoms[t.a].kind == "mul"
		}
		if !has {
			return
		}
		forms := []lin{f, f.scale(-1)}
		if dropped {
			f0 := f
			f0.c = 0
			forms = append(forms, f0, f0.scale(-1))
		}
		for _, g := range forms {
			for _, s := range stepList {
				put(g.plus(s))
			}
		}
	}
	var body []*nb
	for b := range h.body {
		body = append(body, b)
	}
	sort.Slice(body, func(i, j int) bool { return body[i].rpo < body[j].rpo })
	for _, b := range body {
		guard(b.cond)
	}
	return out
}

func (u *nunit) houdini() {
	var heads []*nb
	for _, b := range u.blocks {
		if len(b.latch) > 0 {
			heads = append(heads, b)
		}
	}
	u.warm()
	u.resetForms()
	if len(heads) == 0 {
		return
	}
	for round := 0; round < 2; round++ {
		u.noProve = round == 0
		u.warm()
		verified := u.inv
		cand := map[*nb][]lin{}
		for _, h := range heads {
			cand[h] = u.candidates(h)
		}
		u.noProve = true
		for {
			u.inv = map[*nb][]lin{}
			for h, ls := range cand {
				u.inv[h] = append(append([]lin(nil), verified[h]...), ls...)
			}
			u.envC, u.joins = map[*nb]*fenv{}, nil
			changed := false
			for _, h := range heads {
				var keep []lin
				for _, l := range cand[h] {
					if u.inductive(h, l) {
						keep = append(keep, l)
					} else {
						changed = true
					}
				}
				cand[h] = keep
			}
			if !changed || u.fm > u.fmMax {
				if changed { // out of budget: nothing is verified
					for h := range cand {
						cand[h] = nil
					}
				}
				break
			}
		}
		u.inv = map[*nb][]lin{}
		for _, h := range heads {
			u.inv[h] = append(append([]lin(nil), verified[h]...), cand[h]...)
		}
		u.noProve = false
		u.resetForms()
	}
}

// inductive: the candidate holds on every edge into the header.
func (u *nunit) inductive(h *nb, l lin) bool {
	comps := u.headerComps(h)
	for i, p := range h.preds {
		m := map[int]lin{}
		for _, c := range comps {
			m[c.a] = u.comp(c.ph.edges[i], c.c)
		}
		g, ok := u.subst(l, m)
		if !ok {
			return false
		}
		e := u.envAt(p.p, len(p.p.instrs))
		if p.p.cond != nil {
			e = e.clone()
			u.assumeEdge(e, p)
		}
		if !u.prove(e, g, 1) {
			return false
		}
	}
	return true
}

// ---- analysis of one function ----

func (e *numEng) analyse(f *ssa.Function) *ninfo {
	if i := e.info[f]; i != nil {
		return i
	}
	e.busy[f] = true
	u := e.newUnit(f)
	inf := &ninfo{f: f, size: len(u.blocks), nonNil: map[int]bool{}, big: u.tooBig}
	u.houdini()
	u.warm()
	inf.open, inf.obls = u.check()
	for _, b := range u.blocks {
		if len(b.latch) > 0 {
			inf.loops++
		}
	}
	if e.term {
		for _, b := range u.blocks {
			if len(b.latch) == 0 {
				continue
			}
			how, opaque, why := u.rank(b, e.mem)
			if how != "" {
				inf.ranks = append(inf.ranks, how)
				continue
			}
			inf.open = append(inf.open, oblResult{in: b.sb.Instrs[len(b.sb.Instrs)-1], ob: oblig{kind: "loop", what: "loop"}, unit: f, goal: -1, opaque: opaque, detail: why})
		}
	}
	if e.mem {
		u.checkAllocs(inf)
	}
	u.summarise(inf)
	inf.fm = u.fm
	e.fmTotal += u.fm
	inf.unit = u
	delete(e.busy, f)
	e.info[f] = inf
	return inf
}

func (u *nunit) opaqueIn(l lin) bool {
	for _, t := range l.t {
		a := u.atoms[t.a]
		switch a.kind {
		case "opaque", "busy", "init":
			return true
		case "mul":
			if u.opaqueIn(linA(a.fa)) || u.opaqueIn(linA(a.fb)) {
				return true
			}
		}
	}
	return false
}

func (u *nunit) check() (open []oblResult, n int) {
	for _, b := range u.blocks {
		for i, ni := range b.instrs {
			obs := u.obligations(ni)
			if len(obs) == 0 {
				continue
			}
			var env *fenv
			for _, o := range obs {
				n++
				triv := !o.never && o.nonNil == nil && o.point == nil && len(o.goals) > 0
				for _, g := range o.goals {
					if lo, _ := u.bounds(g); lo == nil || *lo < 0 {
						triv = false
					}
				}
				if triv || o.nonNil != nil && u.staticNil(o.nonNil) == 1 {
					continue
				}
				if env == nil {
					env = u.envAt(b, i)
				}
				r := oblResult{in: ni.in, ob: o, unit: u.f, goal: -1}
				switch {
				case o.never:
					if !u.prove(env, linC(-1), 0) {
						open = append(open, r)
					}
				case o.point != nil:
					if !u.onCurve(env, o.point) {
						r.detail = "the key is a point on its curve (the library panics otherwise)"
						open = append(open, r)
					}
				case o.nonNil != nil:
					if !u.isNonNil(env, o.nonNil, 0) {
						r.opaque = !u.mayBeNil(env, o.nonNil, map[*nv]bool{})
						r.detail = u.describe(o.nonNil)
						open = append(open, r)
					}
				default:
					bad := -1
					for gi, g := range o.goals {
						if !u.prove(env, g, 0) {
							bad = gi
							break
						}
					}
					for _, alt := range o.alts {
						if bad < 0 {
							break
						}
						ok := true
						for _, g := range alt {
							ok = ok && u.prove(env, g, 0)
						}
						if ok {
							bad = -1
						}
					}
					if bad >= 0 && len(o.alts) > 0 && u.neqZero(env, o.goals[0].plus(1)) {
						bad = -1
					}
					if bad >= 0 && len(o.alt) > 0 {
						bad = -1
						for gi, g := range o.alt {
							if !u.prove(env, g, 0) {
								bad = gi
							}
						}
						if bad >= 0 && u.neqZero(env, o.goals[0].plus(1)) {
							bad = -1
						}
					}
					if bad >= 0 {
						r.goal = bad
						r.opaque = u.opaqueIn(o.goals[bad])
						r.detail = u.show(o.goals[bad]) + " >= 0"
						open = append(open, r)
					}
				}
			}
		}
	}
	return
}

func (u *nunit) neqZero(e *fenv, d lin) bool {
	for _, q := range e.neqs {
		if q.equal(d) || q.equal(d.scale(-1)) {
			return true
		}
	}
	return false
}

func (u *nunit) show(l lin) string {
	var sb strings.Builder
	for i, t := range l.t {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if t.k != 1 {
			fmt.Fprintf(&sb, "%d*", t.k)
		}
		sb.WriteString(u.atoms[t.a].name + "{" + u.atoms[t.a].kind + "}")
	}
	if l.c != 0 || len(l.t) == 0 {
		fmt.Fprintf(&sb, " + %d", l.c)
	}
	return sb.String()
}

func (u *nunit) describe(n *nv) string {
	n = u.deref(n)
	if n.v != nil {
		return srcName(n.v)
	}
	return string(n.kind)
}

// mayBeNil: a nil of known origin can arrive here.
func (u *nunit) mayBeNil(e *fenv, n *nv, seen map[*nv]bool) bool {
	n = u.deref(n)
	if seen[n] {
		return false
	}
	seen[n] = true
	if o, ok := e.nils[u.nilKey(n)]; ok {
		return o
	}
	switch u.staticNil(n) {
	case 1:
		return false
	case -1:
		return true
	}
	if u.isPhiLike(n) {
		for i, ed := range n.edges {
			if n.blk != nil && i < len(n.blk.preds) && !u.plausible(e, n.blk, i) {
				continue
			}
			if u.mayBeNil(e, ed, seen) {
				return true
			}
		}
		return false
	}
	if n.kind != 'v' {
		return false
	}
	switch x := n.v.(type) {
	case *ssa.Call:
		if kd, _, _ := protoMethod(x.Common()); kd == "Get" {
			return true
		}
		switch name := callName(x.Common()); {
		case strings.HasSuffix(name, ").ByNumber"), strings.HasSuffix(name, ").ByName"):
			return true
		}
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup, *ssa.TypeAssert:
			return true
		case *ssa.Call:
			// the object of a call whose error was not looked at
			g := t.Common().StaticCallee()
			return g != nil && isRepoFunc(g)
		}
	}
	return false
}

// ---- summaries ----

func (u *nunit) summarise(inf *ninfo) {
	sig := u.f.Signature
	n := sig.Results().Len()
	errIdx := -1
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		errIdx = n - 1
	}
	// forms over the parameters only
	type pa struct {
		param int
		comp  byte
	}
	pars := map[int]pa{}
	for i, p := range u.f.Params {
		pn := u.val(p, u.root)
		if isInt(p.Type()) {
			if l := u.num(pn); len(l.t) == 1 {
				pars[l.t[0].a] = pa{i, 'v'}
			}
		} else if isSeq(p.Type()) {
			if l := u.sl(pn).len; len(l.t) == 1 {
				pars[l.t[0].a] = pa{i, 'l'}
			}
		}
	}
	envs := map[int]*fenv{}
	envOf := func(i int, cls bool) *fenv {
		r := u.rets[i]
		k := i * 2
		if cls {
			k++
		}
		if e := envs[k]; e != nil {
			return e
		}
		e := u.envAt(r.b, len(r.b.instrs)-1)
		if cls {
			e = e.clone()
			u.setNil(e, r.res[errIdx], true)
		}
		envs[k] = e
		return e
	}
	if errIdx >= 0 {
		// what success says about the lengths and numbers handed in
		for at, x := range pars {
			var lo, hi *int64
			first := true
			l0, h0 := u.bounds(linA(at))
			for i, r := range u.rets {
				if !u.posReach(r.b) {
					continue
				}
				e := envOf(i, true)
				if e.dead {
					continue
				}
				l, h := u.atomBounds(e, at, -1, 2)
				if first {
					lo, hi, first = l, h, false
					continue
				}
				if lo != nil && (l == nil || *l < *lo) {
					lo = l
				}
				if hi != nil && (h == nil || *h > *hi) {
					hi = h
				}
			}
			if lo != nil && (l0 == nil || *lo > *l0) {
				inf.posts = append(inf.posts, npost{res: -1, err: true, c: -*lo, par: []nparTerm{{x.param, x.comp, 1}}})
			}
			if hi != nil && (h0 == nil || *hi < *h0) {
				inf.posts = append(inf.posts, npost{res: -1, err: true, c: *hi, par: []nparTerm{{x.param, x.comp, -1}}})
			}
		}
	}
	for _, cls := range []bool{false, true} {
		if cls && errIdx < 0 {
			continue
		}
		for j := 0; j < n; j++ {
			t := sig.Results().At(j).Type()
			if j == errIdx {
				continue
			}
			var comp byte
			switch {
			case isInt(t):
				comp = 'v'
			case isSeq(t):
				comp = 'l'
			case cls:
				// nil-ness of the result on success
				ok := len(u.rets) > 0
				for i, r := range u.rets {
					if !u.posReach(r.b) {
						continue
					}
					e := envOf(i, true)
					if !e.dead && !u.isNonNil(e, r.res[j], 0) {
						ok = false
						break
					}
				}
				inf.nonNil[j] = ok
				continue
			default:
				continue
			}
			var cands []npost
			for _, r := range u.rets {
				f := u.comp(r.res[j], comp)
				p := npost{res: j, comp: comp, err: cls, eqs: true, k: 1, c: -f.c}
				ok := true
				for _, tm := range f.t {
					x, is := pars[tm.a]
					if !is {
						ok = false
						break
					}
					p.par = append(p.par, nparTerm{x.param, x.comp, -tm.k})
				}
				if ok {
					cands = append(cands, p)
				}
				if len(cands) > 3 {
					break
				}
			}
			cands = append(cands, npost{res: j, comp: comp, err: cls, k: 1})
			for _, x := range pars {
				if x.comp == 'l' || x.comp == 'v' {
					cands = append(cands, npost{res: j, comp: comp, err: cls, k: -1, par: []nparTerm{{x.param, x.comp, 1}}})
				}
				if x.comp == 'l' && comp == 'l' {
					cands = append(cands, npost{res: j, comp: comp, err: cls, k: 1, par: []nparTerm{{x.param, x.comp, -1}}})
				}
			}
			if comp == 'l' && !isStr(t) {
				var m map[int]ndiff
				for i, r := range u.rets {
					e := envOf(i, cls)
					if e.dead || !u.posReach(r.b) {
						continue
					}
					d := u.diffs(e, u.comp(r.res[j], 'l'))
					if m != nil {
						d = meetDiffs(m, d)
					}
					m = d
				}
				for a, d := range m {
					x, ok := pars[a]
					if !ok || x.comp != 'l' {
						continue
					}
					if d.lo != nil {
						inf.posts = append(inf.posts, npost{res: j, comp: comp, err: cls, k: 1, c: -*d.lo, par: []nparTerm{{x.param, x.comp, -1}}})
					}
					if d.hi != nil {
						inf.posts = append(inf.posts, npost{res: j, comp: comp, err: cls, k: -1, c: *d.hi, par: []nparTerm{{x.param, x.comp, 1}}})
					}
				}
			}
			if comp == 'l' && !isStr(t) {
				// the length grows by the value of another parameter
				for _, x := range pars {
					for _, y := range pars {
						if x.comp == 'l' && y.comp == 'v' {
							cands = append(cands, npost{res: j, comp: comp, err: cls, eqs: true, k: 1, par: []nparTerm{{x.param, 'l', -1}, {y.param, 'v', -1}}})
						}
					}
				}
			}
			for _, p := range cands {
				ok := true
				for i, r := range u.rets {
					e := envOf(i, cls)
					if e.dead {
						continue
					}
					l := u.comp(r.res[j], comp).scale(p.k).plus(p.c)
					for _, tm := range p.par {
						l = l.add(u.comp(u.val(u.f.Params[tm.param], u.root), tm.comp), tm.k)
					}
					if !u.prove(e, l, 1) || p.eqs && !u.prove(e, l.scale(-1), 1) {
						ok = false
						break
					}
				}
				if ok {
					inf.posts = append(inf.posts, p)
				}
			}
		}
	}
}

// covered: the summary relates the length of result j to that of a parameter,
// as for functions appending to a buffer; they need not be inlined.
func (i *ninfo) covered(j int) bool {
	for _, p := range i.posts {
		if p.res == j && p.comp == 'l' && len(p.par) == 1 && p.par[0].comp == 'l' && p.par[0].k == -1 && p.k == 1 {
			return true
		}
	}
	return false
}

func (u *nunit) posReach(b *nb) bool { return b == u.entry || b.idom != nil }

// postFacts instantiates the summary of g at a call.
func (e *numEng) postFacts(u *nunit, c *ssa.Call, ctx *nctx, g *ssa.Function, nilClass bool) []lin {
	if e.busy[g] {
		return nil
	}
	inf := e.analyse(g)
	var out []lin
	for _, p := range inf.posts {
		if p.err != nilClass {
			continue
		}
		var rn *nv
		if p.res < 0 {
			l := linC(p.c)
			args := callArgs(c.Common())
			for _, t := range p.par {
				l = l.add(u.comp(u.val(args[t.param], ctx), t.comp), t.k)
			}
			out = append(out, l)
			continue
		}
		if g.Signature.Results().Len() == 1 {
			rn = u.val(c, ctx)
		} else {
			for _, r := range *c.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == p.res {
					rn = u.val(ex, ctx)
				}
			}
		}
		if rn == nil {
			continue
		}
		l := u.repoCallComp(rn, c, g, p.res, p.comp).scale(p.k).plus(p.c)
		args := callArgs(c.Common())
		ok := true
		for _, t := range p.par {
			if t.param >= len(args) {
				ok = false
				break
			}
			l = l.add(u.comp(u.val(args[t.param], ctx), t.comp), t.k)
		}
		if !ok {
			continue
		}
		out = append(out, l)
		if p.eqs {
			out = append(out, l.scale(-1))
		}
	}
	return out
}
