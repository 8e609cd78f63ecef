package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- facts at a program point ----

type fenv struct {
	cons   []lin
	keys   map[string]bool
	neqs   []lin
	nils   map[string]bool // nilKey -> is nil
	bools  map[*nv]bool
	alias  map[*nv][]*nv
	done   map[*nb]bool
	merges []*nb
	dead   bool
	depth  int
}

func newEnv() *fenv {
	return &fenv{keys: map[string]bool{}, nils: map[string]bool{}, bools: map[*nv]bool{}, alias: map[*nv][]*nv{}, done: map[*nb]bool{}}
}

func (e *fenv) clone() *fenv {
	n := &fenv{dead: e.dead, depth: e.depth}
	n.cons = e.cons[:len(e.cons):len(e.cons)]
	n.neqs = e.neqs[:len(e.neqs):len(e.neqs)]
	n.merges = append([]*nb(nil), e.merges...)
	n.keys = make(map[string]bool, len(e.keys)+8)
	for k := range e.keys {
		n.keys[k] = true
	}
	n.nils = make(map[string]bool, len(e.nils)+4)
	for k, v := range e.nils {
		n.nils[k] = v
	}
	n.bools = make(map[*nv]bool, len(e.bools)+4)
	for k, v := range e.bools {
		n.bools[k] = v
	}
	n.alias = make(map[*nv][]*nv, len(e.alias))
	for k, v := range e.alias {
		n.alias[k] = v[:len(v):len(v)]
	}
	n.done = make(map[*nb]bool, len(e.done)+4)
	for k := range e.done {
		n.done[k] = true
	}
	return n
}

func (e *fenv) add(l lin) {
	if l.isConst() {
		if l.c < 0 {
			e.dead = true
		}
		return
	}
	l = l.tighten()
	k := l.key()
	if e.keys[k] {
		return
	}
	e.keys[k] = true
	e.cons = append(e.cons, l)
}

func (e *fenv) addEq(a, b lin) {
	d := a.add(b, -1)
	e.add(d)
	e.add(d.scale(-1))
}

// nilKey names a value for nilness: repeated reads of a field of the same message agree.
func (u *nunit) nilKey(n *nv) string {
	for n.fwd != nil {
		n = n.fwd
	}
	if n.kind == 'v' {
		if c, ok := n.v.(*ssa.Call); ok {
			if kd, _, _ := protoMethod(c.Common()); kd == "Get" {
				key, exact := u.getter(c, n.ctx)
				if exact != nil && exact != n {
					return u.nilKey(exact)
				}
				return key
			}
		}
		if x, ok := n.v.(*ssa.UnOp); ok && x.Op == token.MUL {
			if m := u.load(n, x); m != nil && m != n {
				return u.nilKey(m)
			}
		}
		if x, ok := n.v.(*ssa.MakeInterface); ok {
			return u.nilKey(u.val(x.X, n.ctx))
		}
		if x, ok := n.v.(*ssa.ChangeInterface); ok {
			return u.nilKey(u.val(x.X, n.ctx))
		}
	}
	return n.key
}

// deref follows loads of tracked memory.
func (u *nunit) deref(n *nv) *nv {
	for i := 0; i < 12; i++ {
		if n.fwd != nil {
			n = n.fwd
			continue
		}
		if n.kind != 'v' {
			return n
		}
		x, ok := n.v.(*ssa.UnOp)
		if !ok || x.Op != token.MUL {
			if c, ok := n.v.(*ssa.Call); ok {
				if kd, _, _ := protoMethod(c.Common()); kd == "Get" {
					if _, exact := u.getter(c, n.ctx); exact != nil && exact != n {
						n = exact
						continue
					}
				}
				return n
			}
			if c, ok := n.v.(*ssa.ChangeInterface); ok {
				n = u.val(c.X, n.ctx)
				continue
			}
			return n
		}
		m := u.load(n, x)
		if m == nil || m == n {
			return n
		}
		n = m
	}
	return n
}

// staticNil: 1 never nil, -1 nil, 0 unknown.
func (u *nunit) staticNil(n *nv) int {
	n = u.deref(n)
	switch n.kind {
	case 'z':
		return -1
	case 'v':
	default:
		return 0
	}
	switch x := n.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return -1
		}
		return 1
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return 1
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return 1
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrorType(x.Type()) {
			_ = g
			return 1 // sentinel errors
		}
	case *ssa.Call:
		switch name := callName(x.Common()); name {
		case "fmt.Errorf", "errors.New":
			return 1
		default:
			if kd, _, _ := protoMethod(x.Common()); (kd == "" || kd == "Other") && nonNilResult(name) {
				return 1
			}
			if strings.HasSuffix(name, "EnumValueDescriptors).ByNumber") && u.declaredValue(x, n.ctx) {
				return 1
			}
			if g := x.Common().StaticCallee(); g != nil {
				if isRepoFunc(g) {
					if u.e.alwaysNonNil(g, 0) {
						return 1
					}
				} else if _, ok := x.Type().Underlying().(*types.Signature); ok {
					return 1 // library iterators
				}
			}
		}
	case *ssa.Convert:
		return 0
	}
	return 0
}

// declaredValue: the descriptor of a declared constant is looked up in the
// descriptor of its own enum.
func (u *nunit) declaredValue(c *ssa.Call, ctx *nctx) bool {
	args := callArgs(c.Common())
	if len(args) != 2 {
		return false
	}
	step := func(n *nv, suffix string) *nv {
		n = u.deref(n)
		x, ok := n.v.(*ssa.Call)
		if n.kind != 'v' || !ok || !strings.HasSuffix(callName(x.Common()), suffix) {
			return nil
		}
		return u.val(callArgs(x.Common())[0], n.ctx)
	}
	r := step(u.val(args[0], ctx), ").Values")
	if r == nil {
		return false
	}
	if r = step(r, ").Descriptor"); r == nil {
		return false
	}
	num := u.deref(u.val(args[1], ctx))
	for i := 0; i < 4 && num.kind == 'v'; i++ {
		switch x := num.v.(type) {
		case *ssa.ChangeType:
			num = u.deref(u.val(x.X, num.ctx))
		case *ssa.Convert:
			num = u.deref(u.val(x.X, num.ctx))
		case *ssa.Call:
			if strings.HasSuffix(callName(x.Common()), ").Number") {
				num = u.deref(u.val(callArgs(x.Common())[0], num.ctx))
			}
		}
	}
	r = u.deref(r)
	nt := namedOf(r.typ)
	if nt == nil || nt.Obj().Pkg() == nil {
		return false
	}
	k, ok := num.v.(*ssa.Const)
	if num.kind != 'v' || !ok || k.Value == nil || !types.Identical(num.typ, r.typ) {
		return false
	}
	sc := nt.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if d, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(d.Type(), nt) && constant.Compare(d.Val(), token.EQL, k.Value) {
			return true
		}
	}
	return false
}

// nonNilResult: library calls whose single result is never nil.
func nonNilResult(name string) bool {
	switch name {
	case "bytes.NewReader", "bytes.NewBuffer", "bufio.NewScanner", "bufio.NewReader", "strings.NewReader", "math/big.NewInt",
		"crypto/sha256.New", "crypto/sha1.New", "crypto/sha512.New", "crypto/sha512.New384", "google.golang.org/protobuf/proto.Clone",
		"golang.org/x/text/encoding.ReplaceUnsupported":
		return true
	}
	for _, s := range []string{").NewDecoder", ").NewEncoder", ").ProtoReflect", ").Descriptor", ").SetBytes", ").Values", ").Enum", ").Options", ").Type", "protoreflect.EnumValueDescriptors).Get", "protoreflect.FieldDescriptors).Get", "protoreflect.MessageDescriptors).Get"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func (u *nunit) setNil(e *fenv, n *nv, isNil bool) {
	n0 := n
	n = u.deref(n)
	k := u.nilKey(n)
	if o, ok := e.nils[k]; ok {
		if o != isNil {
			e.dead = true
		}
		return
	}
	switch u.staticNil(n) {
	case 1:
		if isNil {
			e.dead = true
		}
		return
	case -1:
		if !isNil {
			e.dead = true
		}
		return
	}
	e.nils[k] = isNil
	if isNil && isSeq(n.typ) && !isStr(n.typ) {
		e.add(u.sl(n).len.scale(-1))
	}
	if ex, ok := n.v.(*ssa.Extract); ok && n.kind == 'v' {
		if c, ok := ex.Tuple.(*ssa.Call); ok && isNil && isErrorType(ex.Type()) {
			u.callSucceeded(e, c, n.ctx)
		}
	}
	if c, ok := n.v.(*ssa.Call); ok && n.kind == 'v' && isNil && isErrorType(c.Type()) {
		u.callSucceeded(e, c, n.ctx)
	}
	for _, a := range e.alias[n] {
		u.setNil(e, a, isNil)
	}
	if n0 != n {
		for _, a := range e.alias[n0] {
			u.setNil(e, a, isNil)
		}
	}
	u.refineOn(e, n)
}

// callSucceeded: the call returned a nil error.
func (u *nunit) callSucceeded(e *fenv, c *ssa.Call, ctx *nctx) {
	g := u.target(c.Common(), ctx)
	if g == nil || !isRepoFunc(g) {
		return
	}
	for _, l := range u.e.postFacts(u, c, ctx, g, true) {
		e.add(l)
	}
	if inf := u.e.info[g]; inf != nil {
		for _, r := range *c.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && inf.nonNil[ex.Index] {
				e.nils[u.nilKey(u.val(ex, ctx))] = false
			}
		}
	}
}

func (u *nunit) isPhiLike(n *nv) bool {
	return n.kind == 'r' || n.kind == 'm' || isPhi(n)
}

func (u *nunit) refineOn(e *fenv, n *nv) {
	if u.isPhiLike(n) && n.blk != nil && len(n.blk.latch) == 0 && len(n.blk.preds) > 1 {
		u.refine(e, n.blk)
	}
}

// assume records that a boolean value is pol.
func (u *nunit) assume(e *fenv, n *nv, pol bool) {
	if e.dead {
		return
	}
	n = u.deref(n)
	if o, ok := e.bools[n]; ok {
		if o != pol {
			e.dead = true
		}
		return
	}
	e.bools[n] = pol
	for _, a := range e.alias[n] {
		u.assume(e, a, pol)
	}
	if n.kind != 'v' {
		if n.kind == 'z' && pol {
			e.dead = true
		}
		u.refineOn(e, n)
		return
	}
	switch x := n.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != pol {
			e.dead = true
		}
	case *ssa.Phi:
		u.refineOn(e, n)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			u.assume(e, u.val(x.X, n.ctx), !pol)
		}
	case *ssa.BinOp:
		u.assumeCmp(e, n, x, pol)
	case *ssa.Call:
		cc := x.Common()
		name := callName(cc)
		args := callArgs(cc)
		if kd, fl, rt := protoMethod(cc); kd == "Has" {
			r := u.val(args[0], n.ctx)
			k, _ := u.getter(x, n.ctx)
			if pol {
				e.nils[u.nilKey(r)] = false
				if getterIsMessage(rt, fl) {
					e.nils[k] = false
				}
			}
		}
		switch name {
		case "bytes.HasPrefix", "strings.HasPrefix", "bytes.HasSuffix", "strings.HasSuffix", "bytes.Contains", "strings.Contains":
			if pol {
				e.add(u.sl(u.val(args[0], n.ctx)).len.add(u.sl(u.val(args[1], n.ctx)).len, -1))
			}
		case "bytes.Equal":
			if pol {
				e.addEq(u.sl(u.val(args[0], n.ctx)).len, u.sl(u.val(args[1], n.ctx)).len)
			}
		case "(*bufio.Scanner).Scan":
			if pol {
				if t := u.vals[fmt.Sprintf("s%d:%p:%d", n.ctx.id, x, 1)]; t != nil {
					u.setNil(e, t, false)
				}
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if pol && x.Index == 1 {
				for _, r := range *t.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
						e.nils[u.nilKey(u.val(ex, n.ctx))] = false
					}
				}
			}
		case *ssa.Next:
			// positions are bounded through their own facts
		}
	}
}

func getterIsMessage(rt types.Type, field string) bool {
	ms := types.NewMethodSet(rt)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Get"+field {
			s := ms.At(i).Type().(*types.Signature)
			return s.Results().Len() == 1 && isProtoMsg(s.Results().At(0).Type())
		}
	}
	return false
}

func (u *nunit) assumeCmp(e *fenv, n *nv, x *ssa.BinOp, pol bool) {
	a, b := u.val(x.X, n.ctx), u.val(x.Y, n.ctx)
	op := x.Op
	if !pol {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	t := x.X.Type()
	switch {
	case isInt(t):
		l, m := u.num(a), u.num(b)
		switch op {
		case token.EQL:
			e.addEq(l, m)
			u.refineOn(e, u.deref(a))
			u.refineOn(e, u.deref(b))
		case token.NEQ:
			d := l.add(m, -1)
			if d.isConst() {
				if d.c == 0 {
					e.dead = true
				}
			} else {
				e.neqs = append(e.neqs, d)
			}
			u.refineOn(e, u.deref(a))
			u.refineOn(e, u.deref(b))
		case token.LSS:
			e.add(m.add(l, -1).plus(-1))
		case token.LEQ:
			e.add(m.add(l, -1))
		case token.GTR:
			e.add(l.add(m, -1).plus(-1))
		case token.GEQ:
			e.add(l.add(m, -1))
		}
	case isStr(t):
		if op == token.EQL {
			e.addEq(u.sl(a).len, u.sl(b).len)
		}
		if op == token.NEQ {
			for _, p := range [][2]*nv{{a, b}, {b, a}} {
				if l := u.sl(p[1]).len; l.isConst() && l.c == 0 {
					e.add(u.sl(p[0]).len.plus(-1))
				}
			}
		}
	default:
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			for _, p := range [][2]*nv{{a, b}, {b, a}} {
				if c, ok := p[1].v.(*ssa.Const); ok && c.Value != nil && p[1].kind == 'v' {
					u.assume(e, p[0], constant.BoolVal(c.Value) == (op == token.EQL))
				}
			}
			return
		}
		for _, p := range [][2]*nv{{a, b}, {b, a}} {
			if c, ok := p[1].v.(*ssa.Const); ok && p[1].kind == 'v' && c.Value == nil {
				if op == token.EQL || op == token.NEQ {
					u.setNil(e, p[0], op == token.EQL)
				}
				return
			}
		}
	}
}

func (u *nunit) assumeEdge(e *fenv, ed nedge) {
	if ed.p.cond != nil && len(ed.p.succs) == 2 && ed.p.succs[0] != ed.p.succs[1] {
		u.assume(e, ed.p.cond, ed.si == 0)
	}
}

// plausible: edge i of merge m is not contradicted by simple facts.
func (u *nunit) plausible(e *fenv, m *nb, i int) bool {
	for _, ph := range m.phis {
		if i >= len(ph.edges) {
			continue
		}
		ed := ph.edges[i]
		if o, ok := e.nils[u.nilKey(ph)]; ok {
			s := u.staticNil(ed)
			if s == 1 && o || s == -1 && !o {
				return false
			}
			if p, ok := e.nils[u.nilKey(u.deref(ed))]; ok && p != o {
				return false
			}
		}
		if o, ok := e.bools[ph]; ok {
			d := u.deref(ed)
			if c, isC := d.v.(*ssa.Const); isC && d.kind == 'v' && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != o {
				return false
			}
			if d.kind == 'z' && o {
				return false
			}
			if p, ok := e.bools[d]; ok && p != o {
				return false
			}
		}
		if isInt(ph.typ) {
			l := u.num(ph)
			if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 {
				v := u.num(ed)
				if v.isConst() {
					at := l.t[0].a
					for _, c := range e.cons {
						if len(c.t) == 1 && c.t[0].a == at && c.c+c.t[0].k*v.c < 0 {
							return false
						}
					}
					for _, c := range e.neqs {
						if len(c.t) == 1 && c.t[0].a == at && c.c+c.t[0].k*v.c == 0 {
							return false
						}
					}
				}
			}
		}
	}
	ed := m.preds[i]
	if ed.p.cond != nil && len(ed.p.succs) == 2 {
		if o, ok := e.bools[u.deref(ed.p.cond)]; ok && o != (ed.si == 0) && u.between(ed.p, m) {
			return false
		}
	}
	return true
}

// between: block p lies strictly below m's immediate dominator or is it.
func (u *nunit) between(p, m *nb) bool { return m.idom != nil && u.dominates(m.idom, p) }

func (u *nunit) refine(e *fenv, m *nb) {
	if e.dead || e.done[m] || len(m.latch) > 0 || e.depth > 12 {
		return
	}
	var live []int
	for i := range m.preds {
		if u.plausible(e, m, i) {
			live = append(live, i)
			if len(live) > 1 {
				return
			}
		}
	}
	if len(live) == 0 {
		e.dead = true
		return
	}
	e.done[m] = true
	u.addEdge(e, m, live[0])
}

// addEdge adds what holds when m was entered through its edge i.
func (u *nunit) addEdge(e *fenv, m *nb, i int) {
	e.depth++
	defer func() { e.depth-- }()
	ed := m.preds[i]
	var chain []*nb
	for b := ed.p; b != nil && b != m.idom; b = b.idom {
		chain = append(chain, b)
	}
	for j := len(chain) - 1; j >= 0; j-- {
		u.enter(e, chain[j])
		u.execFacts(e, chain[j], len(chain[j].instrs))
	}
	u.assumeEdge(e, ed)
	for _, ph := range m.phis {
		if i < len(ph.edges) {
			u.equate(e, ph, ph.edges[i])
		}
		if e.dead {
			return
		}
	}
}

func (u *nunit) equate(e *fenv, a, b *nv) {
	if a == b {
		return
	}
	switch {
	case isInt(a.typ):
		e.addEq(u.num(a), u.num(b))
		return
	case isSeq(a.typ):
		x, y := u.sl(a), u.sl(b)
		e.addEq(x.len, y.len)
		if !isStr(a.typ) {
			e.addEq(x.cap, y.cap)
		}
		if x.base == y.base {
			e.addEq(x.off, y.off)
		}
	}
	e.alias[a] = append(e.alias[a], b)
	e.alias[b] = append(e.alias[b], a)
	if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		if o, ok := e.bools[a]; ok {
			u.assume(e, b, o)
		} else if o, ok := e.bools[u.deref(b)]; ok {
			u.assume(e, a, o)
		} else {
			d := u.deref(b)
			if c, isC := d.v.(*ssa.Const); isC && d.kind == 'v' && c.Value != nil && c.Value.Kind() == constant.Bool {
				u.assume(e, a, constant.BoolVal(c.Value))
			}
		}
		return
	}
	if o, ok := e.nils[u.nilKey(a)]; ok {
		u.setNil(e, b, o)
	} else if s := u.staticNil(b); s != 0 {
		u.setNil(e, a, s < 0)
	} else if o, ok := e.nils[u.nilKey(u.deref(b))]; ok {
		u.setNil(e, a, o)
	}
}

// enter adds what holds at the start of b, given what holds at its dominator.
func (u *nunit) enter(e *fenv, b *nb) {
	switch {
	case len(b.preds) == 1:
		u.assumeEdge(e, b.preds[0])
		for _, ph := range b.phis {
			if len(ph.edges) == 1 {
				u.equate(e, ph, ph.edges[0])
			}
		}
	case len(b.latch) > 0:
		for _, l := range u.inv[b] {
			e.add(l)
		}
		u.sumFacts(e, b)
	case len(b.preds) > 1:
		e.merges = append(e.merges, b)
		u.refine(e, b)
		for _, l := range u.joinFacts(b) {
			e.add(l)
		}
	}
}

func (u *nunit) blockEnv(b *nb) *fenv {
	if e := u.envC[b]; e != nil {
		return e
	}
	if u.envBusy[b] {
		// a form of this very point is being computed
		u.envHit = true
		if b.idom != nil {
			return u.blockEnv(b.idom)
		}
		return newEnv()
	}
	u.envBusy[b] = true
	hit := u.envHit
	u.envHit = false
	var e *fenv
	if b.idom == nil {
		e = newEnv()
		for _, l := range u.pre {
			e.add(l)
		}
	} else {
		e = u.blockEnv(b.idom).clone()
		u.execFacts(e, b.idom, len(b.idom.instrs))
	}
	u.enter(e, b)
	delete(u.envBusy, b)
	if !u.envHit {
		u.envC[b] = e
	}
	u.envHit = u.envHit || hit
	return e
}

// envAt is what holds just before instruction i of b.
func (u *nunit) envAt(b *nb, i int) *fenv {
	e := u.blockEnv(b)
	if i > 0 {
		e = e.clone()
		u.execFacts(e, b, i)
	}
	return e
}

// execFacts adds what the instructions of b before index n guarantee by having
// been executed without panic.
func (u *nunit) execFacts(e *fenv, b *nb, n int) {
	for i := 0; i < n && i < len(b.instrs); i++ {
		ni := b.instrs[i]
		for _, o := range u.obligations(ni) {
			for _, g := range o.goals {
				e.add(g)
			}
			if o.nonNil != nil {
				k := u.nilKey(u.deref(o.nonNil))
				if _, ok := e.nils[k]; !ok {
					e.nils[k] = false
				}
			}
		}
	}
}

// ---- proving ----

type relset struct {
	cons  []lin
	seen  map[string]bool
	atoms map[int]int
}

func (r *relset) put(l lin) {
	k := l.key()
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.cons = append(r.cons, l)
}

// relevant selects the facts connected to the goal.
func (u *nunit) relevant(e *fenv, g lin) *relset {
	r := &relset{seen: map[string]bool{}, atoms: map[int]int{}}
	var queue []int
	push := func(l lin, d int) {
		for _, t := range l.t {
			if _, ok := r.atoms[t.a]; !ok {
				r.atoms[t.a] = d
				queue = append(queue, t.a)
			}
		}
	}
	push(g, 0)
	byAtom := map[int][]int{}
	for i, c := range e.cons {
		for _, t := range c.t {
			byAtom[t.a] = append(byAtom[t.a], i)
		}
	}
	const maxCons = 140
	for len(queue) > 0 && len(r.cons) < maxCons {
		a := queue[0]
		queue = queue[1:]
		d := r.atoms[a]
		if d > 6 {
			continue
		}
		at := u.atoms[a]
		if at.lo != nil {
			r.put(linA(a).plus(-*at.lo))
		}
		if at.hi != nil {
			r.put(linA(a).scale(-1).plus(*at.hi))
		}
		for _, s := range at.side {
			r.put(s)
			push(s, d+1)
		}
		if at.kind == "mul" {
			push(linA(at.fa).add(linA(at.fb), 1), d+1)
		}
		for _, i := range byAtom[a] {
			r.put(e.cons[i])
			push(e.cons[i], d+1)
		}
	}
	// products of known inequalities with the non-negative factor of a product
	var lem []lin
	for a := range r.atoms {
		at := u.atoms[a]
		if at.kind != "mul" {
			continue
		}
		for _, p := range [][2]int{{at.fa, at.fb}, {at.fb, at.fa}} {
			x, y := p[0], p[1]
			ya := u.atoms[y]
			if ya.lo == nil || *ya.lo < 0 {
				continue
			}
			for _, c := range r.cons {
				if len(lem) > 40 || len(c.t) > 3 {
					continue
				}
				if k := c.coef(x); k == 0 {
					continue
				}
				ok := true
				for _, t := range c.t {
					if u.atoms[t.a].kind == "mul" {
						ok = false
						break
					}
					lo, hi := min(t.a, y), max(t.a, y)
					if _, exists := u.atomKey[fmt.Sprintf("mul:%d:%d", lo, hi)]; !exists && t.a != x && t.a != y {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				if m, ok := u.mulLin(c, linA(y)); ok {
					lem = append(lem, m)
				}
			}
		}
	}
	for _, l := range lem {
		r.put(l)
		for _, t := range l.t {
			if _, ok := r.atoms[t.a]; !ok {
				r.atoms[t.a] = 9
				at := u.atoms[t.a]
				if at.lo != nil {
					r.put(linA(t.a).plus(-*at.lo))
				}
			}
		}
	}
	return r
}

func (u *nunit) entails(e *fenv, g lin) (bool, *relset) {
	r := u.relevant(e, g)
	neg := g.scale(-1).plus(-1)
	u.fm++
	cs := append(r.cons[:len(r.cons):len(r.cons)], neg)
	if infeasible(cs) {
		return true, r
	}
	// disequalities: x != 0 with x >= 0 known gives x >= 1
	added := false
	for _, q := range e.neqs {
		rel := false
		for _, t := range q.t {
			if _, ok := r.atoms[t.a]; ok {
				rel = true
			}
		}
		if !rel {
			continue
		}
		for _, s := range []int64{1, -1} {
			v := q.scale(s)
			u.fm++
			rq := u.relevant(e, v)
			all := append(append(rq.cons[:len(rq.cons):len(rq.cons)], cs...), v.scale(-1).plus(-1))
			if infeasible(all) {
				cs = append(cs, v.plus(-1))
				added = true
				break
			}
		}
	}
	if added {
		u.fm++
		return infeasible(cs), r
	}
	return false, r
}

// prove: goal >= 0 holds at the point e describes.
func (u *nunit) prove(e *fenv, g lin, depth int) bool {
	if e.dead {
		return true
	}
	if g.isConst() && g.c >= 0 {
		return true
	}
	if lo, _ := u.bounds(g); lo != nil && *lo >= 0 {
		return true
	}
	if u.fm > u.fmMax {
		return false
	}
	ok, r := u.entails(e, g)
	if ok {
		return true
	}
	if depth >= 3 {
		return false
	}
	if c := u.choiceIn(e, g, r); c != nil {
		for _, x := range c.choice {
			e2 := e.clone()
			e2.keys[fmt.Sprintf("choice%d", c.id)] = true
			e2.addEq(linA(c.id), x)
			if !u.prove(e2, g, depth+1) {
				return false
			}
		}
		return true
	}
	tries := 0
	for pass := 0; pass < 2; pass++ {
		for j := len(e.merges) - 1; j >= 0; j-- {
			m := e.merges[j]
			if e.done[m] || len(m.preds) > 60 {
				continue
			}
			rel := false
			for _, ph := range m.phis {
				if u.phiTouches(ph, r) {
					rel = true
					break
				}
			}
			if rel != (pass == 0) {
				continue
			}
			if pass == 1 && !u.mergeTouches(m, r) {
				continue
			}
			if tries++; tries > 4 {
				return false
			}
			if u.split(e, m, g, depth) {
				return true
			}
		}
	}
	return false
}

// choiceIn finds a minimum or maximum the goal depends on that was not yet resolved.
func (u *nunit) choiceIn(e *fenv, g lin, r *relset) *natom {
	look := func(l lin) *natom {
		for _, t := range l.t {
			if a := u.atoms[t.a]; len(a.choice) > 1 && len(a.choice) <= 3 && !e.keys[fmt.Sprintf("choice%d", a.id)] {
				return a
			}
		}
		return nil
	}
	if a := look(g); a != nil {
		return a
	}
	for _, l := range r.cons {
		if a := look(l); a != nil {
			return a
		}
	}
	return nil
}

func (u *nunit) split(e *fenv, m *nb, g lin, depth int) bool {
	for i := range m.preds {
		if !u.plausible(e, m, i) {
			continue
		}
		e2 := e.clone()
		e2.done[m] = true
		u.addEdge(e2, m, i)
		if e2.dead {
			continue
		}
		if !u.prove(e2, g, depth+1) {
			return false
		}
	}
	return true
}

func (u *nunit) phiTouches(ph *nv, r *relset) bool {
	touch := func(l lin) bool {
		for _, t := range l.t {
			if d, ok := r.atoms[t.a]; ok && d <= 4 {
				return true
			}
		}
		return false
	}
	switch {
	case isInt(ph.typ):
		return touch(u.num(ph))
	case isSeq(ph.typ):
		s := u.sl(ph)
		return touch(s.len) || touch(s.cap)
	}
	return false
}

// mergeTouches: a branch between m's dominator and m compares something relevant.
func (u *nunit) mergeTouches(m *nb, r *relset) bool {
	seen := map[*nb]bool{}
	for _, ed := range m.preds {
		for b := ed.p; b != nil && b != m.idom && !seen[b]; b = b.idom {
			seen[b] = true
			if u.condTouches(b.cond, r) {
				return true
			}
		}
	}
	return m.idom != nil && u.condTouches(m.idom.cond, r)
}

func (u *nunit) condTouches(n *nv, r *relset) bool {
	if n == nil || n.kind != 'v' {
		return false
	}
	x, ok := n.v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{x.X, x.Y} {
		v := u.val(o, n.ctx)
		var l lin
		switch {
		case isInt(v.typ):
			l = u.num(v)
		case isStr(v.typ):
			l = u.sl(v).len
		default:
			continue
		}
		for _, t := range l.t {
			if d, ok := r.atoms[t.a]; ok && d <= 2 {
				return true
			}
		}
	}
	return false
}

// isNonNil: the value cannot be nil at the point.
func (u *nunit) isNonNil(e *fenv, n *nv, depth int) bool {
	if e.dead {
		return true
	}
	n = u.deref(n)
	if u.staticNil(n) == 1 {
		return true
	}
	if o, ok := e.nils[u.nilKey(n)]; ok {
		return !o
	}
	if u.isPhiLike(n) && depth < 4 {
		if len(n.edges) == 0 {
			return false
		}
		if n.blk != nil && len(n.blk.latch) > 0 {
			return u.loopNonNil(n, map[*nv]bool{}, depth)
		}
		for i, ed := range n.edges {
			if !u.plausible(e, n.blk, i) {
				continue
			}
			e2 := e.clone()
			e2.done[n.blk] = true
			u.addEdge(e2, n.blk, i)
			if !e2.dead && !u.isNonNil(e2, ed, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (u *nunit) loopNonNil(n *nv, seen map[*nv]bool, depth int) bool {
	if seen[n] {
		return true
	}
	seen[n] = true
	for i, ed := range n.edges {
		d := u.deref(ed)
		if d == n || u.staticNil(d) == 1 {
			continue
		}
		if u.isPhiLike(d) {
			if !u.loopNonNil(d, seen, depth) {
				return false
			}
			continue
		}
		p := n.blk.preds[i]
		e := u.envAt(p.p, len(p.p.instrs)).clone()
		u.assumeEdge(e, p)
		if !u.isNonNil(e, d, depth+1) {
			return false
		}
	}
	return true
}

// ---- fields of messages ----

type nkill struct {
	i    int
	recv *nv // receiver of the setter, nil for calls that may set the field
	val  *nv
	id   string
}

// fieldKills: the instructions that change a field of a message type.
func (u *nunit) fieldKills(typ, fl string) map[*nb][]nkill {
	k := typ + "." + fl
	if m, ok := u.kills[k]; ok {
		return m
	}
	m := map[*nb][]nkill{}
	for _, b := range u.blocks {
		for i, ni := range b.instrs {
			ci, ok := ni.in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if kd, f2, rt := protoMethod(cc); kd != "" {
				if (kd == "Set" || kd == "Clear") && f2 == fl && protoMsgName(rt) == typ {
					args := callArgs(cc)
					kl := nkill{i: i, recv: u.val(args[0], ni.ctx), id: instrKey(ni.in, ni.ctx)}
					if kd == "Set" && len(args) == 2 {
						kl.val = u.val(args[1], ni.ctx)
					}
					m[b] = append(m[b], kl)
				}
				continue
			}
			if g := u.target(cc, ni.ctx); g != nil && isRepoFunc(g) && u.e.setsIn(g)[k] {
				m[b] = append(m[b], nkill{i: i, id: instrKey(ni.in, ni.ctx)})
			}
		}
	}
	u.kills[k] = m
	return m
}

// setsIn: the message fields set by g and what it calls.
func (e *numEng) setsIn(g *ssa.Function) map[string]bool {
	if m, ok := e.setC[g]; ok {
		return m
	}
	m := map[string]bool{}
	e.setC[g] = m
	for f := range e.c.P.reach(g) {
		if !isRepoFunc(f) {
			continue
		}
		for _, ci := range callsOf(f) {
			if kd, fl, rt := protoMethod(ci.Common()); kd == "Set" || kd == "Clear" {
				m[protoMsgName(rt)+"."+fl] = true
			}
		}
	}
	return m
}

func (u *nunit) distinct(a, b *nv) bool {
	if a == b {
		return false
	}
	fresh := func(n *nv) bool {
		_, ok := n.v.(*ssa.Alloc)
		return ok && n.kind == 'v'
	}
	param := func(n *nv) bool {
		_, ok := n.v.(*ssa.Parameter)
		return ok && n.kind == 'v'
	}
	return fresh(a) && (fresh(b) || param(b)) || fresh(b) && param(a)
}

// base resolves a receiver without looking at message fields.
func (u *nunit) recvOf(n *nv) *nv {
	for i := 0; i < 12; i++ {
		if n.fwd != nil {
			n = n.fwd
			continue
		}
		if u.isPhiLike(n) && len(n.edges) > 0 {
			e0 := n.edges[0]
			for _, e := range n.edges[1:] {
				if e != e0 {
					return n
				}
			}
			if e0 == n {
				return n
			}
			n = e0
			continue
		}
		if x, ok := n.v.(*ssa.UnOp); ok && n.kind == 'v' && x.Op == token.MUL {
			if m := u.load(n, x); m != nil && m != n {
				n = m
				continue
			}
		}
		return n
	}
	return n
}

// getter names the value a getter reads: receiver, field, and the version of the field
// at the call; exact is the value set last on the same receiver, if that is evident.
func (u *nunit) getter(c *ssa.Call, ctx *nctx) (string, *nv) {
	ck := instrKey(c, ctx)
	if g, ok := u.getC[ck]; ok {
		return g.key, g.val
	}
	u.getC[ck] = ngetter{key: "get:busy:" + ck}
	_, fl, rt := protoMethod(c.Common())
	typ := protoMsgName(rt)
	recv := u.recvOf(u.val(callArgs(c.Common())[0], ctx))
	rk := recv.key
	if rc, ok := recv.v.(*ssa.Call); ok && recv.kind == 'v' {
		if kd, _, _ := protoMethod(rc.Common()); kd == "Get" {
			k, ex := u.getter(rc, recv.ctx)
			if ex != nil {
				recv = u.recvOf(ex)
				rk = recv.key
			} else {
				rk = k
			}
		}
	}
	kills := u.fieldKills(typ, fl)
	g := ngetter{key: "get:" + rk + "." + fl}
	b := u.instrAt[ck]
	if len(kills) > 0 && b != nil {
		relevant := func(k nkill) bool {
			return k.recv == nil || !u.distinct(u.recvOf(k.recv), recv)
		}
		last := func(b *nb, before int) *nkill {
			for j := len(kills[b]) - 1; j >= 0; j-- {
				if k := kills[b][j]; k.i < before && relevant(k) {
					return &kills[b][j]
				}
			}
			return nil
		}
		if k := last(b, u.idxAt[ck]); k != nil {
			g.key += "@" + k.id
			if k.recv != nil && u.recvOf(k.recv) == recv && k.val != nil {
				g.val = k.val
			}
		} else {
			vk := typ + "." + fl + "|" + rk
			vers := u.vers[vk]
			if vers == nil {
				vers = map[*nb]string{}
				u.vers[vk] = vers
				out := func(b *nb) string {
					if k := last(b, 1<<30); k != nil {
						return k.id
					}
					return vers[b]
				}
				for changed := true; changed; {
					changed = false
					for _, x := range u.blocks {
						v := ""
						if x == u.entry {
							v = "0"
						}
						for _, p := range x.preds {
							o := out(p.p)
							if o == "" {
								continue
							}
							if v == "" {
								v = o
							} else if v != o {
								v = fmt.Sprintf("p%d", x.id)
							}
						}
						if strings.HasPrefix(vers[x], "p") && vers[x] == fmt.Sprintf("p%d", x.id) {
							v = vers[x]
						}
						if v != vers[x] {
							vers[x] = v
							changed = true
						}
					}
				}
			}
			v := vers[b]
			if v != "0" {
				g.key += "@" + v
				for _, ks := range kills {
					for _, k := range ks {
						if k.id == v && k.recv != nil && u.recvOf(k.recv) == recv && k.val != nil {
							g.val = k.val
						}
					}
				}
			}
		}
	}
	u.getC[ck] = g
	return g.key, g.val
}

type ngetter struct {
	key string
	val *nv
}

// ---- length differences at joins ----

type ndiff struct{ lo, hi *int64 }

// diffs are the lengths l is known to exceed or equal, each with the interval
// of the difference: l - len(a) in [lo, hi].
func (u *nunit) diffs(e *fenv, l lin) map[int]ndiff {
	out := map[int]ndiff{}
	type item struct {
		a int
		d int
	}
	var queue []item
	put := func(a int, lo, hi *int64, d int) {
		if lo == nil && hi == nil {
			return
		}
		o, ok := out[a]
		ch := !ok
		if lo != nil && (o.lo == nil || *lo > *o.lo) {
			o.lo, ch = lo, true
		}
		if hi != nil && (o.hi == nil || *hi < *o.hi) {
			o.hi, ch = hi, true
		}
		out[a] = o
		if ch && d < 6 {
			queue = append(queue, item{a, d})
		}
	}
	plus := func(a, b *int64) *int64 {
		if a == nil || b == nil || *a > 1<<40 || *b > 1<<40 || *a < -(1<<40) || *b < -(1<<40) {
			return nil
		}
		return i64(*a + *b)
	}
	for _, t := range l.t {
		if t.k == 1 && u.atoms[t.a].comp == 'l' {
			lo, hi := u.envBounds(e, l.without(t.a))
			put(t.a, lo, hi, 0)
		}
	}
	step := func(a int, d ndiff, c lin, dep int) {
		k := c.coef(a)
		if k != 1 && k != -1 || len(c.t) > 4 {
			return
		}
		r := c.without(a).scale(-k) // k=1: a >= r;  k=-1: a <= r
		for _, t := range r.t {
			if t.k != 1 || u.atoms[t.a].comp != 'l' {
				continue
			}
			lo, hi := u.envBounds(e, r.without(t.a))
			if k == 1 {
				put(t.a, plus(d.lo, lo), nil, dep+1)
			} else {
				put(t.a, nil, plus(d.hi, hi), dep+1)
			}
		}
	}
	for n := 0; len(queue) > 0 && n < 60; n++ {
		it := queue[0]
		queue = queue[1:]
		d := out[it.a]
		for _, c := range u.atoms[it.a].side {
			step(it.a, d, c, it.d)
		}
		for _, c := range e.cons {
			step(it.a, d, c, it.d)
		}
	}
	return out
}

// envBounds is bounds, sharpened by the facts of e.
func (u *nunit) envBounds(e *fenv, l lin) (lo, hi *int64) {
	if len(l.t) == 0 || len(l.t) > 3 {
		return u.bounds(l)
	}
	return u.linBounds(e, l, -1, 3)
}

func (u *nunit) linBounds(e *fenv, l lin, skip, depth int) (lo, hi *int64) {
	a, b := i64(l.c), i64(l.c)
	mul := func(s, v *int64, k int64) *int64 {
		if s == nil || v == nil || *v > 1<<40 || *v < -(1<<40) || k > 1<<16 || k < -(1<<16) {
			return nil
		}
		return i64(*s + k**v)
	}
	for _, t := range l.t {
		if t.a == skip {
			continue
		}
		x, y := u.atomBounds(e, t.a, skip, depth)
		if t.k < 0 {
			x, y = y, x
		}
		a, b = mul(a, x, t.k), mul(b, y, t.k)
		if a == nil && b == nil {
			break
		}
	}
	return a, b
}

func (u *nunit) atomBounds(e *fenv, at, skip, depth int) (lo, hi *int64) {
	lo, hi = u.bounds(linA(at))
	if lo != nil && hi != nil && *lo == *hi {
		return
	}
	see := func(c lin) {
		k := c.coef(at)
		if k != 1 && k != -1 || len(c.t) > 3 || c.coef(skip) != 0 || len(c.t) > 1 && (depth == 0 || u.atoms[at].comp != 'l') {
			return
		}
		rl, rh := u.linBounds(e, c, at, depth-1)
		if k == 1 && rh != nil && (lo == nil || -*rh > *lo) { // at + rest >= 0
			lo = i64(-*rh)
		}
		if k == -1 && rh != nil && (hi == nil || *rh < *hi) {
			hi = rh
		}
		_ = rl
	}
	for _, c := range u.atoms[at].side {
		see(c)
	}
	for _, c := range e.cons {
		see(c)
	}
	return
}

func meetDiffs(a, b map[int]ndiff) map[int]ndiff {
	out := map[int]ndiff{}
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			continue
		}
		var m ndiff
		if x.lo != nil && y.lo != nil {
			m.lo = i64(min(*x.lo, *y.lo))
		}
		if x.hi != nil && y.hi != nil {
			m.hi = i64(max(*x.hi, *y.hi))
		}
		if m.lo != nil || m.hi != nil {
			out[k] = m
		}
	}
	return out
}

// joinFacts: how the lengths of the byte slices merged at b relate to the
// lengths known before the branches, whichever branch was taken.
func (u *nunit) joinFacts(b *nb) []lin {
	if f, ok := u.joins[b]; ok {
		return f
	}
	if u.joins == nil {
		u.joins = map[*nb][]lin{}
	}
	u.joins[b] = nil
	if b.idom == nil || len(b.preds) > 40 {
		return nil
	}
	var phis []*nv
	for _, ph := range b.phis {
		if len(ph.edges) == len(b.preds) && isSeq(ph.typ) && !isStr(ph.typ) && isByteElem(ph.typ) {
			if l := u.sl(ph).len; len(l.t) == 1 && l.c == 0 && u.atoms[l.t[0].a].nv == ph {
				phis = append(phis, ph)
			}
		}
	}
	if len(phis) == 0 {
		return nil
	}
	base := u.blockEnv(b.idom).clone()
	u.execFacts(base, b.idom, len(b.idom.instrs))
	res := map[*nv]map[int]ndiff{}
	for i := range b.preds {
		e := base.clone()
		e.done[b] = true
		u.addEdge(e, b, i)
		if e.dead {
			continue
		}
		for _, ph := range phis {
			d := u.diffs(e, u.sl(ph.edges[i]).len)
			if old, ok := res[ph]; ok {
				d = meetDiffs(old, d)
			}
			res[ph] = d
		}
	}
	var out []lin
	for _, ph := range phis {
		l := u.sl(ph).len
		for a, d := range res[ph] {
			if linA(a).equal(l) {
				continue
			}
			if d.lo != nil {
				out = append(out, l.add(linA(a), -1).plus(-*d.lo))
			}
			if d.hi != nil {
				out = append(out, linA(a).add(l, -1).plus(*d.hi))
			}
		}
	}
	sortLins(out)
	u.joins[b] = out
	return out
}
