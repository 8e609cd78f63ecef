package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path exploration over a function's control flow with facts about the
// nil-ness of pointers, interfaces and errors and the value of booleans.
type fact uint8

const (
	fNil    fact = 1 // nil, or false
	fNonNil fact = 2 // not nil, or true
	fUnrec  fact = 4 // the UNRECOGNIZED value of a coded type
)

type facts map[ssa.Value]fact

func (m facts) clone() facts {
	o := make(facts, len(m)+4)
	for k, v := range m {
		o[k] = v
	}
	return o
}

// pathEng explores paths of one function.
type pathEng struct {
	c      *Ctx
	f      *ssa.Function
	live   map[*ssa.BasicBlock]map[ssa.Value]bool // facts worth keeping at block entry
	states int
	limit  int
	// called for each instruction before its effect; returning false prunes the path
	onInstr func(in ssa.Instruction, st *pstate) bool
	// decides facts for a call result
	onReturn func(ret *ssa.Return, st *pstate)
	onBranch func(cond ssa.Value, val bool, st *pstate)
	relevant map[ssa.Value]bool   // if set, facts about other values are forgotten at block entry
	pair     func(*ssa.Call) bool // calls whose results obey the (result, error) rule
	seen     map[string]bool
	ids      map[ssa.Value]int
	overrun  bool
}

type pstate struct {
	facts facts
	tags  map[string]bool         // path properties collected by the client
	cells map[ssa.Value]ssa.Value // what a local cell holds, and what a load from it gave
}

func (s *pstate) clone() *pstate {
	o := &pstate{facts: s.facts.clone(), tags: map[string]bool{}, cells: map[ssa.Value]ssa.Value{}}
	for k := range s.tags {
		o.tags[k] = true
	}
	for k, v := range s.cells {
		o.cells[k] = v
	}
	return o
}

func newPathEng(c *Ctx, f *ssa.Function) *pathEng {
	return &pathEng{c: c, f: f, limit: 60000, seen: map[string]bool{}, ids: map[ssa.Value]int{}}
}

func (e *pathEng) id(v ssa.Value) int {
	if n, ok := e.ids[v]; ok {
		return n
	}
	n := len(e.ids)
	e.ids[v] = n
	return n
}

func (e *pathEng) key(b, pred *ssa.BasicBlock, st *pstate) string {
	var ks []string
	for v, f := range st.facts {
		ks = append(ks, fmt.Sprintf("%d:%d", e.id(v), f))
	}
	for t := range st.tags {
		ks = append(ks, t)
	}
	for a, v := range st.cells {
		ks = append(ks, fmt.Sprintf("c%d=%d", e.id(a), e.id(v)))
	}
	sort.Strings(ks)
	p := -1
	if pred != nil {
		p = pred.Index
	}
	return fmt.Sprintf("%d/%d/%s", b.Index, p, strings.Join(ks, ","))
}

// liveness: a value is worth remembering at a block if a use of it is reachable.
func (e *pathEng) liveAt(b *ssa.BasicBlock) map[ssa.Value]bool {
	if e.live == nil {
		e.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, b := range e.f.Blocks {
			u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); !ok {
					for _, op := range in.Operands(nil) {
						if *op != nil && !d[*op] {
							u[*op] = true
						}
					}
				}
				if v, ok := in.(ssa.Value); ok {
					d[v] = true
				}
			}
			use[b], def[b] = u, d
			e.live[b] = map[ssa.Value]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := len(e.f.Blocks) - 1; i >= 0; i-- {
				b := e.f.Blocks[i]
				m := e.live[b]
				add := func(v ssa.Value) {
					if !m[v] {
						m[v] = true
						changed = true
					}
				}
				for v := range use[b] {
					add(v)
				}
				// phis are defined on entry: their value is live here if used
				for _, in := range b.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						add(phi)
					}
				}
				for _, s := range b.Succs {
					k := -1
					for q, p := range s.Preds {
						if p == b {
							k = q
						}
					}
					for v := range e.live[s] {
						if phi, ok := v.(*ssa.Phi); ok && phi.Block() == s {
							continue
						}
						if !def[b][v] {
							add(v)
						}
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if v := phi.Edges[k]; !def[b][v] {
							add(v)
						}
					}
				}
			}
		}
	}
	return e.live[b]
}

func (e *pathEng) factOf(v ssa.Value, st *pstate) (fact, bool) {
	if f, ok := st.facts[v]; ok {
		return f, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				return fNil, true
			}
			return 0, false
		}
		if e.c.isUnrecognized(x) {
			return fUnrec, true
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return fNonNil, true
			}
			return fNil, true
		}
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return fNonNil, true
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if isErrorType(x.Type()) {
				return e.factOf(x.X, st)
			}
			// an interface holding a pointer: usable only if the pointer is not nil
			return e.factOf(x.X, st)
		}
		return fNonNil, true
	case *ssa.ChangeInterface:
		return e.factOf(x.X, st)
	case *ssa.ChangeType:
		return e.factOf(x.X, st)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) && sentinelError(g) {
				return fNonNil, true
			}
			if f, ok := st.facts[x.X]; ok {
				// the cell's remembered content
				if _, isA := x.X.(*ssa.Alloc); isA {
					return f, true
				}
			}
		}
		if x.Op == token.NOT {
			if f, ok := e.factOf(x.X, st); ok && f != fUnrec {
				return 3 - f, true
			}
		}
	}
	return 0, false
}

// sentinelError: a package-level error assigned once, by its initialiser.
func sentinelError(g *ssa.Global) bool {
	return g.Pkg != nil
}

// step runs the non-control effects of an instruction.
func (e *pathEng) step(in ssa.Instruction, st *pstate) {
	if v, ok := in.(ssa.Value); ok {
		if _, isPhi := in.(*ssa.Phi); !isPhi {
			if _, isAlloc := in.(*ssa.Alloc); !isAlloc {
				delete(st.facts, v)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		delete(st.cells, x)
		if trackedCell(x) {
			st.facts[x] = fNil // zero value of the cell
		} else {
			delete(st.facts, x)
		}
	case *ssa.Store:
		base := x.Addr
		if ia, ok := base.(*ssa.IndexAddr); ok {
			base = ia.X
			if f, ok := e.factOf(x.Val, st); ok && f == fNonNil && isErrorType(x.Val.Type()) {
				st.facts[base] = fNonNil
			}
			return
		}
		if a, ok := base.(*ssa.Alloc); ok && trackedCell(a) {
			if f, ok := e.factOf(x.Val, st); ok {
				st.facts[a] = f
			} else {
				delete(st.facts, a)
			}
			v := x.Val
			if o, ok := st.cells[v]; ok {
				v = o
			}
			if st.cells == nil {
				st.cells = map[ssa.Value]ssa.Value{}
			}
			st.cells[a] = v
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok && trackedCell(a) {
				if f, ok := st.facts[a]; ok {
					st.facts[x] = f
				}
				if v, ok := st.cells[a]; ok {
					st.cells[x] = v
				} else {
					delete(st.cells, x)
				}
			}
		}
	case *ssa.Slice:
		if f, ok := st.facts[x.X]; ok && f == fNonNil && isErrList(x.Type()) {
			st.facts[x] = f
		}
	case *ssa.Call:
		e.callFacts(x, st)
	}
}

// trackedCell: a local variable that lives in memory (because of a defer, say)
// but is touched only by this function's loads and stores.
func trackedCell(a *ssa.Alloc) bool {
	el := a.Type().Underlying().(*types.Pointer).Elem()
	switch el.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice:
	default:
		if !isBool(el) {
			return false
		}
	}
	for _, ref := range *a.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Val == ssa.Value(a) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isErrList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

func (e *pathEng) callFacts(x *ssa.Call, st *pstate) {
	cc := x.Common()
	name := callName(cc)
	switch name {
	case "fmt.Errorf", "errors.New", "google.golang.org/protobuf/types/known/timestamppb.New":
		st.facts[x] = fNonNil
	case "errors.Join":
		if f, ok := e.factOf(cc.Args[0], st); ok && f == fNonNil {
			st.facts[x] = fNonNil
		}
	case "builtin.append":
		if isErrList(x.Type()) {
			for _, a := range cc.Args {
				if f, ok := e.factOf(a, st); ok && f == fNonNil {
					st.facts[x] = fNonNil
				}
			}
		}
	default:
		if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
			rt := g.Signature.Results().At(0).Type()
			if isErrorType(rt) {
				var nn []bool
				for _, a := range cc.Args {
					f, ok := e.factOf(a, st)
					nn = append(nn, ok && f == fNonNil)
				}
				if e.c.alwaysNonNil(g, nn, 0) {
					st.facts[x] = fNonNil
				}
			} else if _, ok := rt.Underlying().(*types.Pointer); ok {
				if e.c.alwaysNonNil(g, nil, 0) {
					st.facts[x] = fNonNil
				}
			}
		}
		if neverNil(name) {
			st.facts[x] = fNonNil
		}
		if k, _, _ := protoMethod(cc); k == "Build" {
			st.facts[x] = fNonNil
		}
	}
}

// alwaysNonNil: every return of g is non-nil, given which arguments are.
func (c *Ctx) alwaysNonNil(g *ssa.Function, nn []bool, depth int) bool {
	key := fmt.Sprintf("nn|%p|%v", g, nn)
	if r, ok := c.memo[key].(bool); ok {
		return r
	}
	c.memo[key] = false // recursion: assume not
	e := newPathEng(c, g)
	e.limit = 4000
	ok := true
	st := &pstate{facts: facts{}, tags: map[string]bool{}}
	for i, b := range nn {
		if b && i < len(g.Params) {
			st.facts[g.Params[i]] = fNonNil
		}
	}
	n := 0
	e.onReturn = func(ret *ssa.Return, st *pstate) {
		n++
		if f, known := e.factOf(ret.Results[0], st); !known || f != fNonNil {
			ok = false
		}
	}
	e.run(g.Blocks[0], 0, nil, st)
	ok = ok && n > 0 && !e.overrun
	c.memo[key] = ok
	return ok
}

// branch evaluates a condition: decided, and its value; otherwise refine adds
// what taking the given edge teaches.
func (e *pathEng) eval(cond ssa.Value, st *pstate) (bool, bool) {
	if f, ok := e.factOf(cond, st); ok {
		return f == fNonNil, true
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		x, y := b.X, b.Y
		fx, okx := e.factOf(x, st)
		fy, oky := e.factOf(y, st)
		if okx && oky && fx != fUnrec && fy != fUnrec {
			if fx == fNil && fy == fNil {
				return b.Op == token.EQL, true
			}
			if fx != fy {
				return b.Op == token.NEQ, true
			}
		}
		// len(errs) > 0 style tests
	}
	if b, ok := cond.(*ssa.BinOp); ok {
		if v, ok := e.lenNonZero(b, st); ok {
			return v, true
		}
	}
	return false, false
}

// lenNonZero decides len(errs) compared with zero for an error list known to
// hold the failure.
func (e *pathEng) lenNonZero(b *ssa.BinOp, st *pstate) (bool, bool) {
	call, ok := b.X.(*ssa.Call)
	k, isC := b.Y.(*ssa.Const)
	if !ok || !isC || callName(call.Common()) != "builtin.len" || k.Value == nil {
		return false, false
	}
	arg := call.Common().Args[0]
	if !isErrList(arg.Type()) {
		return false, false
	}
	f, known := st.facts[arg]
	if !known || f != fNonNil {
		return false, false
	}
	n, _ := constant.Int64Val(k.Value)
	switch {
	case b.Op == token.GTR && n == 0, b.Op == token.NEQ && n == 0, b.Op == token.GEQ && n == 1:
		return true, true
	case b.Op == token.EQL && n == 0, b.Op == token.LSS && n == 1, b.Op == token.LEQ && n == 0:
		return false, true
	}
	return false, false
}

func (e *pathEng) refine(cond ssa.Value, val bool, st *pstate) {
	set := func(v ssa.Value, f fact) {
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		st.facts[v] = f
		if o, ok := st.cells[v]; ok {
			st.facts[o] = f
			e.pairFacts(o, f, st)
		}
		e.pairFacts(v, f, st)
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			st.facts[x.X] = f
		}
	}
	if e.onBranch != nil {
		e.onBranch(cond, val, st)
	}
	if isBool(cond.Type()) {
		if val {
			set(cond, fNonNil)
		} else {
			set(cond, fNil)
		}
	}
	switch b := cond.(type) {
	case *ssa.BinOp:
		if b.Op == token.EQL || b.Op == token.NEQ {
			eq := (b.Op == token.EQL) == val
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if f, ok := e.factOf(pr[1], st); ok && f != fUnrec {
					if f == fNil {
						if eq {
							set(pr[0], fNil)
						} else {
							set(pr[0], fNonNil)
						}
					} else if eq {
						set(pr[0], fNonNil)
					}
				}
			}
		}
	case *ssa.UnOp:
		if b.Op == token.NOT {
			e.refine(b.X, !val, st)
		}
	}
	// errors.Is(err, X) and errors.As(err, ..) true imply err is not nil
	if call, ok := cond.(*ssa.Call); ok && val {
		switch callName(call.Common()) {
		case "errors.Is", "errors.As":
			set(call.Common().Args[0], fNonNil)
		}
	}
}

// run explores from instruction i of block b.
func (e *pathEng) run(b *ssa.BasicBlock, i int, pred *ssa.BasicBlock, st *pstate) {
	type item struct {
		b, pred *ssa.BasicBlock
		i       int
		st      *pstate
	}
	work := []item{{b, pred, i, st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.states++
		if e.states > e.limit {
			e.overrun = true
			return
		}
		st := it.st
		pruned := false
		for k := it.i; k < len(it.b.Instrs) && !pruned; k++ {
			in := it.b.Instrs[k]
			if _, isPhi := in.(*ssa.Phi); isPhi {
				continue
			}
			if e.onInstr != nil && !e.onInstr(in, st) {
				pruned = true
				break
			}
			switch x := in.(type) {
			case *ssa.Return:
				if e.onReturn != nil {
					e.onReturn(x, st)
				}
			case *ssa.Panic:
			case *ssa.If, *ssa.Jump:
			default:
				e.step(in, st)
			}
		}
		if pruned || len(it.b.Instrs) == 0 {
			continue
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		push := func(s *ssa.BasicBlock, n *pstate) {
			e.enter(s, it.b, n)
			k := e.key(s, nil, n)
			if e.seen[k] {
				return
			}
			e.seen[k] = true
			work = append(work, item{s, it.b, 0, n})
		}
		switch x := last.(type) {
		case *ssa.If:
			if v, ok := e.eval(x.Cond, st); ok {
				if v {
					n := st.clone()
					e.refine(x.Cond, true, n)
					push(it.b.Succs[0], n)
				} else {
					n := st.clone()
					e.refine(x.Cond, false, n)
					push(it.b.Succs[1], n)
				}
			} else {
				t, f := st.clone(), st.clone()
				e.refine(x.Cond, true, t)
				e.refine(x.Cond, false, f)
				push(it.b.Succs[0], t)
				push(it.b.Succs[1], f)
			}
		case *ssa.Jump:
			push(it.b.Succs[0], st.clone())
		}
	}
}

// enter evaluates phis for the edge and drops dead facts.
func (e *pathEng) enter(b, pred *ssa.BasicBlock, st *pstate) {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	type upd struct {
		v  ssa.Value
		f  fact
		ok bool
	}
	var us []upd
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			f, ok := e.factOf(phi.Edges[idx], st)
			us = append(us, upd{phi, f, ok})
		}
	}
	for _, u := range us {
		if u.ok {
			st.facts[u.v] = u.f
		} else {
			delete(st.facts, u.v)
		}
	}
	live := e.liveAt(b)
	for v := range st.facts {
		if !live[v] || e.relevant != nil && !e.relevant[v] {
			delete(st.facts, v)
		}
	}
	for v := range st.cells {
		if !live[v] {
			delete(st.cells, v)
		}
	}
}

// afterStep is run once an instruction's effect was applied.
type failPath struct {
	ret  *ssa.Return
	tags map[string]bool
	why  string
}

// errResult is the index of a signature's error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := n - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// errValue is the SSA value holding a call's error, nil if it is dropped.
func errValue(c ssa.CallInstruction) (ssa.Value, bool) {
	sig := c.Common().Signature()
	k := errResult(sig)
	if k < 0 {
		return nil, false
	}
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil, true
	}
	if sig.Results().Len() == 1 {
		if used(call) {
			return call, true
		}
		return nil, true
	}
	for _, ref := range *call.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
			if used(ex) {
				return ex, true
			}
			return nil, true
		}
		if ret, ok := ref.(*ssa.Return); ok {
			_ = ret
			return call, true
		}
	}
	return nil, true
}

func used(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

func (c *Ctx) nilErr(e *pathEng, ret *ssa.Return, st *pstate) (string, bool) {
	sig := e.f.Signature
	k := errResult(sig)
	if k >= 0 {
		f, ok := e.factOf(ret.Results[k], st)
		if ok && f == fNonNil {
			return "", false
		}
		if ok {
			return "returns a nil error", true
		}
		return "returns an error value that does not stem from the failure", true
	}
	n := sig.Results().Len()
	if n > 0 && isBool(sig.Results().At(n-1).Type()) {
		f, ok := e.factOf(ret.Results[n-1], st)
		if ok && f == fNil {
			return "", false
		}
		return "does not report false", true
	}
	return "has no way to report the failure", true
}

// failPaths explores what happens after a call failed.
func (c *Ctx) failPaths(f *ssa.Function, call ssa.CallInstruction, ev ssa.Value, onInstr func(e *pathEng, in ssa.Instruction, st *pstate), onBranch func(cond ssa.Value, val bool, st *pstate)) (bad []failPath, overrun bool, states int) {
	e := newPathEng(c, f)
	def := ev.(ssa.Instruction)
	b := def.Block()
	idx := 0
	for i, in := range b.Instrs {
		if in == def {
			idx = i + 1
		}
	}
	e.onInstr = func(in ssa.Instruction, st *pstate) bool {
		if in == call.(ssa.Instruction) {
			if st.tags["retry"] {
				return false
			}
			st.tags["retry"] = true
		}
		if onInstr != nil {
			onInstr(e, in, st)
		}
		return true
	}
	e.onBranch = onBranch
	e.onReturn = func(ret *ssa.Return, st *pstate) {
		for _, rv := range ret.Results {
			if fa, ok := e.factOf(rv, st); ok && fa == fUnrec {
				return // reported as an unrecognised code
			}
		}
		why, isBad := c.nilErr(e, ret, st)
		if !isBad {
			return
		}
		if st.tags["retry"] {
			for _, r := range ret.Results {
				if fromCall(r, call) {
					return
				}
			}
		}
		t := map[string]bool{}
		for k := range st.tags {
			t[k] = true
		}
		bad = append(bad, failPath{ret, t, why})
	}
	st := &pstate{facts: facts{ev: fNonNil}, tags: map[string]bool{}}
	e.run(b, idx, nil, st)
	return bad, e.overrun, e.states
}

func fromCall(v ssa.Value, call ssa.CallInstruction) bool {
	for {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			return ssa.CallInstruction(x) == call
		default:
			return false
		}
	}
}

// isUnrecognized: the constant is the UNRECOGNIZED value of a generated enum.
func (c *Ctx) isUnrecognized(k *ssa.Const) bool {
	n, _ := types.Unalias(k.Type()).(*types.Named)
	if n == nil || !isProtoPkg(n.Obj().Pkg()) || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	m, _ := c.memo["unrec"].(map[*types.Named]constant.Value)
	if m == nil {
		m = map[*types.Named]constant.Value{}
		c.memo["unrec"] = m
	}
	v, ok := m[n]
	if !ok {
		sc := n.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if !strings.HasSuffix(name, "_UNRECOGNIZED") {
				continue
			}
			if ct, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(ct.Type(), n) {
				v = ct.Val()
			}
		}
		m[n] = v
	}
	return v != nil && constant.Compare(v, token.EQL, k.Value)
}

// neverNil: library constructors.
func neverNil(name string) bool {
	switch {
	case strings.HasPrefix(name, "crypto/elliptic.P"), strings.HasPrefix(name, "github.com/keybase/go-crypto/brainpool.P"):
		return true
	}
	if strings.HasPrefix(name, modPath) || strings.HasPrefix(name, "(") {
		return false
	}
	i := strings.LastIndex(name, ".")
	return i >= 0 && strings.HasPrefix(name[i+1:], "New")
}

// pairFacts: once a call's error is known, so is whether its result is nil.
func (e *pathEng) pairFacts(v ssa.Value, f fact, st *pstate) {
	ex, ok := v.(*ssa.Extract)
	if !ok || e.pair == nil || !isErrorType(ex.Type()) {
		return
	}
	call, ok := ex.Tuple.(*ssa.Call)
	if !ok || !e.pair(call) {
		return
	}
	for _, ref := range *call.Referrers() {
		sib, ok := ref.(*ssa.Extract)
		if !ok || sib == ex || !(usableResult(sib.Type()) || isByteSlice(sib.Type())) {
			continue
		}
		switch {
		case f == fNonNil:
			st.facts[sib] = fNil
		case f == fNil && usableResult(sib.Type()) && !isTimestamp(sib.Type()):
			st.facts[sib] = fNonNil
		}
	}
}
