package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive, interprocedural dataflow over symbolic terms. A term names
// where a value comes from (a parameter, a message getter, the result of a call);
// every branch outcome becomes a fact about its condition term. Functions chosen
// by inline are expanded at the call; every other call yields an opaque term. No
// solver is involved: facts are only matched structurally.

type term struct {
	op   string
	args []*term
	key  string
	cst  constant.Value
	fn   *ssa.Function // op "fn": function value; args are closure bindings
	typ  types.Type
	name string // field terms: field name and JSON key
}

type tstate struct {
	env     map[ssa.Value]*term
	facts   map[*term]byte // 'n' nil, 'N' non-nil, 't', 'f'
	cells   map[*term]*term
	content map[*term][]*term
	fields  map[string]*term
	events  []*term // opaque calls the client asked to see, in order
	defers  []deferred
	count   map[*ssa.BasicBlock]int
}

type deferred struct {
	ci   ssa.CallInstruction
	args []*term
	fn   *term
}

type toutcome struct {
	st  *tstate
	res []*term
	ret *ssa.Return
}

type tpath struct {
	c         *Ctx
	terms     map[string]*term
	inline    func(f *ssa.Function) bool
	event     func(name string, cc *ssa.CallCommon) bool // opaque calls to record
	keep      func(t *term) bool                         // facts kept when a function returns
	resolve   func(cc *ssa.CallCommon) []*ssa.Function   // dynamic targets to expand (nil: opaque)
	steps     int
	budget    int
	over      bool
	objs      int
	onExit    func(st *tstate, ci ssa.CallInstruction, name string, args []*term) // calls that do not return
	onAccess  func(st *tstate, in ssa.Instruction, addr *term, write bool)
	keepAll   bool                                                    // failed outcomes keep their facts
	splitLess bool                                                    // outcomes that differ in a comparison are kept apart
	dispatch  bool                                                    // expand interface calls whose dynamic type is known
	maxIter   int                                                     // visits of a block per path (loops whose index stays constant are unrolled)
	leaf      func(t *term) bool                                      // terms deps does not look behind
	subst     func(st *tstate, g *ssa.Function, args []*term) []*term // results of calls the client models itself
	model     *descModel                                              // protobuf reflection on enums
	limit     func(b *ssa.BasicBlock) int                             // visits of one block, instead of maxIter
	bytes     bool                                                    // big-endian integers, reflection on nil and dynamic getters are modelled
	unroll    bool                                                    // loops are followed round by round, with what each round carries
	onCall    func(st *tstate, ci ssa.CallInstruction, name string, args []*term)
	lins      map[*term]linT   // linear forms of integer terms
	inAt      map[*term]linT   // positions of "in" byte terms
	syms      map[string]*term // atoms of linear forms
	maxScan   int              // rounds of a modelled scanner
	layout    bool             // byte strings of known length are followed byte by byte
	fixedLen  map[*term]int64  // lengths of byte strings given by the client
	anyDigit  bool             // decimal digits may be anything four bits hold
	decide    func(st *tstate, t *term) byte
}

func newTpath(c *Ctx) *tpath {
	return &tpath{c: c, terms: map[string]*term{}, budget: 400000,
		inline: func(*ssa.Function) bool { return false },
		event:  func(string, *ssa.CallCommon) bool { return false },
		keep:   func(*term) bool { return true },
	}
}

func (e *tpath) mk(op string, args ...*term) *term {
	var sb strings.Builder
	sb.WriteString(op)
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.key)
		}
		sb.WriteByte(')')
	}
	k := sb.String()
	if t := e.terms[k]; t != nil {
		return t
	}
	t := &term{op: op, args: args, key: k}
	if len(k) > 400 { // keep keys short: the identity is what matters
		t.key = fmt.Sprintf("%s#%d", op, len(e.terms))
	}
	e.terms[k] = t
	return t
}

func (e *tpath) constTerm(v constant.Value) *term {
	t := e.mk("const:" + v.ExactString())
	t.cst = v
	return t
}

func (e *tpath) nilTerm() *term { return e.mk("nil") }

func (s *tstate) clone() *tstate {
	n := &tstate{env: map[ssa.Value]*term{}, facts: map[*term]byte{}, cells: map[*term]*term{}, content: map[*term][]*term{}, fields: map[string]*term{}, count: map[*ssa.BasicBlock]int{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.content {
		n.content[k] = v
	}
	for k, v := range s.fields {
		n.fields[k] = v
	}
	for k, v := range s.count {
		n.count[k] = v
	}
	n.events = append([]*term(nil), s.events...)
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func newTstate() *tstate {
	return (&tstate{}).clone()
}

// nilness of a term: 'n', 'N' or 0 when unknown.
func (e *tpath) nilness(st *tstate, t *term) byte {
	switch {
	case t.op == "nil":
		return 'n'
	case t.cst != nil:
		return 'N'
	case e.layout && t.op == "seq":
		if len(t.args) > 0 {
			return 'N'
		}
	case strings.HasPrefix(t.op, "obj"), strings.HasPrefix(t.op, "enumval"), strings.HasPrefix(t.op, "enumdesc"), t.op == "fn", t.op == "nonnil", strings.HasPrefix(t.op, "faddr"), t.op == "addr":
		return 'N'
	case t.op == "iface":
		if isPointerLike(t.typ) {
			return 'N' // an interface holding a (possibly nil) pointer is not nil
		}
		return 'N'
	}
	if f := st.facts[t]; f == 'n' || f == 'N' {
		return f
	}
	// a getter on a nil message yields the zero value
	if strings.HasPrefix(t.op, "get:") && len(t.args) == 1 && e.nilness(st, t.args[0]) == 'n' {
		return 'n'
	}
	// a non-nil sub-message implies its parents are non-nil
	if strings.HasPrefix(t.op, "stored:") {
		return e.nilness(st, t.args[1])
	}
	return 0
}

func isPointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// setNil records nilness; false when it contradicts what is known.
func (e *tpath) setNil(st *tstate, t *term, v byte) bool {
	if k := e.nilness(st, t); k != 0 {
		return k == v
	}
	st.facts[t] = v
	if v == 'N' && strings.HasPrefix(t.op, "get:") && len(t.args) == 1 {
		return e.setNil(st, t.args[0], 'N')
	}
	return true
}

// truth of a boolean term.
func (e *tpath) truth(st *tstate, t *term) byte {
	if t.cst != nil && t.cst.Kind() == constant.Bool {
		if constant.BoolVal(t.cst) {
			return 't'
		}
		return 'f'
	}
	switch t.op {
	case "not":
		switch e.truth(st, t.args[0]) {
		case 't':
			return 'f'
		case 'f':
			return 't'
		}
		return 0
	case "isnil":
		switch e.nilness(st, t.args[0]) {
		case 'n':
			return 't'
		case 'N':
			return 'f'
		}
		return 0
	}
	if f := st.facts[t]; f == 't' || f == 'f' {
		return f
	}
	if e.decide != nil {
		if v := e.decide(st, t); v != 0 {
			return v
		}
	}
	if t.op == "==" && t.args[1].cst != nil {
		// equality with another constant is already known
		for o, f := range st.facts {
			if f == 't' && o.op == "==" && o.args[0] == t.args[0] && o != t && o.args[1].cst != nil {
				return 'f'
			}
		}
		if len0, x := lenTerm(t.args[0]); len0 && x != nil {
			if n, ok := constant.Int64Val(t.args[1].cst); ok && n == 0 {
				if e.nilness(st, x) == 'n' {
					return 't'
				}
			}
		}
	}
	return 0
}

func lenTerm(t *term) (bool, *term) {
	if t.op == "len" {
		return true, t.args[0]
	}
	return false, nil
}

func (e *tpath) assume(st *tstate, t *term, v bool) bool {
	tv := byte('f')
	if v {
		tv = 't'
	}
	if k := e.truth(st, t); k != 0 {
		return k == tv
	}
	switch t.op {
	case "not":
		return e.assume(st, t.args[0], !v)
	case "isnil":
		if v {
			return e.setNil(st, t.args[0], 'n')
		}
		return e.setNil(st, t.args[0], 'N')
	}
	st.facts[t] = tv
	if strings.HasPrefix(t.op, "has:") {
		if v {
			return e.setNil(st, t.args[0], 'N')
		}
	}
	return true
}

// exec runs a function on argument terms and returns every outcome.
func (e *tpath) exec(f *ssa.Function, args []*term, fvs []*term, st *tstate, ctx string, depth int) []toutcome {
	if len(f.Blocks) == 0 || depth > 14 {
		e.over = e.over || depth > 14
		return nil
	}
	saveEnv, saveCount, saveDef := st.env, st.count, st.defers
	st.env = map[ssa.Value]*term{}
	st.count = map[*ssa.BasicBlock]int{}
	st.defers = nil
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(fvs) {
			st.env[v] = fvs[i]
		}
	}
	var outs []toutcome
	seen := map[string]int{}
	e.walk(f.Blocks[0], nil, 0, st, ctx, depth, func(o toutcome) {
		o = e.project(o)
		k := e.outKey(o)
		if i, ok := seen[k]; ok {
			if e.layout { // what both are known to satisfy
				facts := outs[i].st.facts
				for t, v := range facts {
					if t.op == "<" && o.st.facts[t] != v {
						delete(facts, t)
					}
				}
			}
			return
		}
		seen[k] = len(outs)
		outs = append(outs, o)
	})
	for i := range outs {
		outs[i].st.env = map[ssa.Value]*term{}
		for k, v := range saveEnv {
			outs[i].st.env[k] = v
		}
		outs[i].st.count = map[*ssa.BasicBlock]int{}
		for k, v := range saveCount {
			outs[i].st.count[k] = v
		}
		outs[i].st.defers = append([]deferred(nil), saveDef...)
	}
	return outs
}

// project reduces an outcome to what a caller can depend on.
func (e *tpath) project(o toutcome) toutcome {
	st := o.st
	for k, v := range st.fields {
		if tv := e.truth(st, v); tv != 0 && v.cst == nil {
			st.fields[k] = e.constTerm(constant.MakeBool(tv == 't'))
		}
	}
	// an error that is known non-nil is just that
	failed := false
	for i, r := range o.res {
		if r.typ != nil && isErrorType(r.typ) || r.op == "nonnil" || o.ret != nil && i < len(o.ret.Results) && isErrorType(o.ret.Results[i].Type()) {
			if e.nilness(st, r) == 'N' {
				o.res[i] = e.mk("nonnil")
				failed = true
			} else if e.nilness(st, r) == 'n' {
				o.res[i] = e.nilTerm()
			}
		} else if tv := e.truth(st, r); tv != 0 && o.ret != nil && i < len(o.ret.Results) && isBool(o.ret.Results[i].Type()) {
			o.res[i] = e.constTerm(constant.MakeBool(tv == 't'))
		}
	}
	for t := range st.facts {
		if failed && !e.keepAll && !strings.HasPrefix(t.op, "get:") && !strings.HasPrefix(t.op, "arg") && t.op != "==" || !e.keep(t) {
			delete(st.facts, t)
		}
	}
	return o
}

func (e *tpath) outKey(o toutcome) string {
	var parts []string
	for t, v := range o.st.facts {
		if !e.layout || t.op != "<" || e.splitLess {
			parts = append(parts, t.key+string(v))
		}
	}
	for k, v := range o.st.fields {
		parts = append(parts, k+"="+v.key)
	}
	for k, v := range o.st.cells {
		if !strings.Contains(k.key, "local") {
			parts = append(parts, k.key+":="+v.key)
		}
	}
	sort.Strings(parts)
	for _, t := range o.st.events {
		parts = append(parts, t.key)
	}
	for _, r := range o.res {
		parts = append(parts, r.key)
	}
	return strings.Join(parts, ";")
}

func (e *tpath) val(st *tstate, v ssa.Value) *term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UntypedNil {
				return e.nilTerm()
			}
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return e.mk("zero:" + types.TypeString(x.Type(), nil))
			}
			return e.nilTerm()
		}
		return e.constTerm(x.Value)
	case *ssa.Function:
		t := e.mk("fn:" + fname(x))
		t.op, t.fn = "fn", x
		return t
	case *ssa.Global:
		t := e.mk("addr:" + x.String())
		t.op = "addr"
		return t
	case *ssa.Builtin:
		return e.mk("builtin:" + x.Name())
	}
	if t := st.env[v]; t != nil {
		return t
	}
	t := e.mk(fmt.Sprintf("unk:%s.%s", fname(v.Parent()), v.Name()))
	return t
}

func (e *tpath) walk(b, pred *ssa.BasicBlock, from int, st *tstate, ctx string, depth int, out func(toutcome)) {
	if e.over {
		return
	}
	if from == 0 {
		st.count[b]++
		n := e.iters()
		if e.limit != nil {
			n = e.limit(b)
		}
		if st.count[b] > n {
			return
		}
		// phis, in parallel
		var phis []*ssa.Phi
		var vals []*term
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var t *term
			if e.unroll {
				for i, pb := range b.Preds {
					if pb == pred {
						t = e.val(st, ph.Edges[i])
					}
				}
			} else if e.maxIter > 2 && st.count[b] > 1 {
				for i, pb := range b.Preds {
					if pb == pred {
						if v := e.val(st, ph.Edges[i]); v.cst != nil || v.op == "obj" || v.op == "nil" || v.op == "nonnil" {
							t = v
						}
					}
				}
			}
			if t != nil {
			} else if st.count[b] > 1 {
				t = e.mk(fmt.Sprintf("phi:%s.%s%s", fname(b.Parent()), ph.Name(), ctx))
				// what a loop carries depends on everything that can flow in
				var dep []*term
				for _, ed := range ph.Edges {
					if _, ok := ed.(*ssa.Const); !ok {
						if d := st.env[ed]; d != nil && d != t {
							dep = append(dep, d)
						}
					}
				}
				st.content[t] = append(append([]*term(nil), st.content[t]...), dep...)
			} else {
				for i, pb := range b.Preds {
					if pb == pred {
						t = e.val(st, ph.Edges[i])
					}
				}
			}
			phis = append(phis, ph)
			vals = append(vals, t)
		}
		for i, ph := range phis {
			if vals[i] != nil {
				st.env[ph] = vals[i]
			}
		}
		from = len(phis)
	}
	for i := from; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.budget {
			e.over = true
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.If:
			cond := e.val(st, x.Cond)
			tv := e.truth(st, cond)
			if tv != 'f' {
				s2 := st
				if tv == 0 {
					s2 = st.clone()
				}
				if e.assume(s2, cond, true) {
					e.walk(b.Succs[0], b, 0, s2, ctx, depth, out)
				}
			}
			if tv != 't' {
				if e.assume(st, cond, false) {
					e.walk(b.Succs[1], b, 0, st, ctx, depth, out)
				}
			}
			return
		case *ssa.Jump:
			e.walk(b.Succs[0], b, 0, st, ctx, depth, out)
			return
		case *ssa.Return:
			var res []*term
			for _, r := range x.Results {
				t := e.val(st, r)
				res = append(res, t)
			}
			out(toutcome{st: st, res: res, ret: x})
			return
		case *ssa.Panic:
			return
		case *ssa.Defer:
			d := deferred{ci: x}
			for _, a := range callArgs(x.Common()) {
				d.args = append(d.args, e.val(st, a))
			}
			if x.Common().StaticCallee() == nil && !x.Common().IsInvoke() {
				d.fn = e.val(st, x.Common().Value)
			} else if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
				d.fn = e.val(st, mc)
			}
			st.defers = append(st.defers, d)
			if n := callName(x.Common()); e.event(n, x.Common()) {
				st.events = append(st.events, e.mk("defer:"+n, d.args...))
			}
		case *ssa.RunDefers:
			sts := []*tstate{st}
			ds := st.defers
			st.defers = nil
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*tstate
				for _, s := range sts {
					for _, o := range e.callWith(ds[k].ci, ds[k].fn, ds[k].args, s, ctx, depth) {
						next = append(next, o.st)
					}
				}
				sts = next
			}
			for _, s := range sts {
				e.walk(b, pred, i+1, s, ctx, depth, out)
			}
			return
		case *ssa.Call:
			var fnT *term
			if x.Common().StaticCallee() == nil && !x.Common().IsInvoke() {
				fnT = e.val(st, x.Common().Value)
			} else if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
				fnT = e.val(st, mc)
			}
			var args []*term
			for _, a := range callArgs(x.Common()) {
				args = append(args, e.val(st, a))
			}
			if n := callName(x.Common()); noReturn(n) {
				if e.onExit != nil {
					e.onExit(st, x, n, args)
				}
				return
			}
			outs := e.callWith(x, fnT, args, st, ctx, depth)
			for _, o := range outs {
				o.st.env[x] = e.tuple(o.res)
				e.walk(b, pred, i+1, o.st, ctx, depth, out)
			}
			return
		default:
			e.instr(x, st, ctx)
		}
	}
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln":
		return true
	}
	return false
}

func (e *tpath) iters() int {
	if e.maxIter > 2 {
		return e.maxIter
	}
	return 2
}

func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (e *tpath) tuple(res []*term) *term {
	if len(res) == 1 {
		return res[0]
	}
	return e.mk("tuple", res...)
}

func (e *tpath) site(in ssa.Instruction, ctx string) string {
	b := in.Block()
	return fmt.Sprintf("%s.%d.%d%s", fname(in.Parent()), b.Index, instrIndex(in), ctx)
}

// callWith evaluates one call and returns the possible continuations.
func (e *tpath) callWith(ci ssa.CallInstruction, fnT *term, args []*term, st *tstate, ctx string, depth int) []toutcome {
	cc := ci.Common()
	one := func(t ...*term) []toutcome { return []toutcome{{st: st, res: t}} }
	site := e.site(ci.(ssa.Instruction), ctx) + e.round(st, ci.(ssa.Instruction))
	name := callName(cc)
	if e.onCall != nil {
		e.onCall(st, ci, name, args)
	}
	if e.layout {
		if res, ok := e.layoutCall(ci, st, args, site); ok {
			return one(res...)
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if args[0].cst != nil && args[0].cst.Kind() == constant.String {
				return one(e.constTerm(constant.MakeInt64(int64(len(constant.StringVal(args[0].cst))))))
			}
			if n, ok := arrayLen(args[0]); ok {
				return one(e.constTerm(constant.MakeInt64(n)))
			}
			if e.bytes {
				if x := unstored(args[0]); x.op == "nil" {
					return one(intTerm(e, 0))
				} else if (x.op == "append" || x.op == "concat" && closedList(x)) && !isByteSlice(cc.Args[0].Type()) {
					if xs := e.listOf(st, x); xs != nil || x.op == "concat" {
						return one(intTerm(e, int64(len(xs))))
					}
				}
				return one(e.canon(st, e.mk("len", unstored(args[0]))))
			}
			return one(e.mk("len", args[0]))
		case "copy":
			if e.bytes && isByteSlice(cc.Args[0].Type()) {
				e.copied(st, args[0], args[1])
			}
			e.dep(st, args[0], args[1])
			return one(e.mk("copy@"+site, args...))
		case "append":
			if e.unroll && len(args) == 2 {
				if xs, ok := e.elems(st, args[1]); ok {
					return one(e.mk("append", append([]*term{args[0]}, xs...)...))
				}
				return one(e.mk("concat", args...))
			}
			return one(e.mk("append", args...))
		}
		return one(e.mk("builtin:"+bi.Name(), args...))
	}
	if e.bytes && name == "(*bufio.Scanner).Scan" {
		if outs, ok := e.scan(st, args[0], ctx+"/"+shortSite(ci)+e.round(st, ci.(ssa.Instruction)), depth); ok {
			return outs
		}
	}
	if e.bytes {
		if res, ok := e.byteCall(st, cc, name, args); ok {
			return one(res...)
		}
	}
	if e.model != nil {
		if res, ok := e.model.call(e, st, cc, args); ok {
			return one(res...)
		}
	}
	if kind, field, recv := protoMethod(cc); kind != "" && isProtoMsg(recv) && len(args) > 0 {
		k := args[0].key + "." + field
		switch kind {
		case "Get":
			if v := st.fields[k]; v != nil {
				if v.cst != nil {
					return one(v)
				}
				return one(e.mk("stored:"+field, args[0], v))
			}
			if e.bytes && args[0].op == "obj" && isProtoMsg(recv) && st.cells[args[0]] == nil {
				return one(e.zero(cc.Signature().Results().At(0).Type()))
			}
			return one(e.mk("get:"+field, args[0]))
		case "Has":
			if f, ok := ci.(*ssa.Call); ok {
				_ = f
			}
			return one(e.mk("has:"+field, args[0]))
		case "Set":
			if len(args) > 1 {
				v := args[1]
				if tv := e.truth(st, v); tv != 0 && v.cst == nil && isBool(cc.Args[1].Type()) {
					v = e.constTerm(constant.MakeBool(tv == 't'))
				}
				st.fields[k] = v
			}
			return one()
		case "Clear":
			st.fields[k] = e.nilTerm()
			return one()
		}
		return one(e.mk("proto:"+field+"@"+site, args...))
	}
	g := cc.StaticCallee()
	var fvs []*term
	if g == nil && fnT != nil && fnT.fn != nil {
		g = fnT.fn
		fvs = fnT.args
	} else if fnT != nil && fnT.fn != nil {
		fvs = fnT.args
	}
	if g != nil && e.subst != nil {
		if res := e.subst(st, g, args); res != nil {
			return one(res...)
		}
	}
	if g == nil && e.dispatch && cc.IsInvoke() && args[0].op == "iface" && args[0].typ != nil {
		g = e.c.P.SSA.LookupMethod(args[0].typ, cc.Method.Pkg(), cc.Method.Name())
		if g != nil && len(g.Blocks) > 0 && isRepoFunc(g) && e.inline(g) {
			return e.exec(g, append([]*term{args[0].args[0]}, args[1:]...), nil, st, ctx+"/"+shortSite(ci)+e.round(st, ci.(ssa.Instruction)), depth+1)
		}
		g = nil
	}
	if g == nil && e.resolve != nil {
		if gs := e.resolve(cc); len(gs) > 0 {
			var outs []toutcome
			for i, h := range gs {
				s := st
				if i < len(gs)-1 {
					s = st.clone()
				}
				outs = append(outs, e.exec(h, args, nil, s, ctx+"/"+site, depth+1)...)
			}
			return outs
		}
	}
	if g != nil && len(g.Blocks) > 0 && (isRepoFunc(g) && (e.inline(g) || e.inlineArg(args)) || e.layout && iterFunc(g)) {
		return e.exec(g, args, fvs, st, ctx+"/"+shortSite(ci)+e.round(st, ci.(ssa.Instruction)), depth+1)
	}
	// opaque
	op := "call:" + name + "@" + site
	if pureCall(name) {
		op = "call:" + name
	}
	t := e.mk(op, args...)
	if e.event(name, cc) {
		st.events = append(st.events, t)
	}
	if cc.Signature().Results().Len() == 1 && (name == "fmt.Errorf" || name == "errors.New") {
		return one(e.mk("nonnil"))
	}
	if neverNil(name) && cc.Signature().Results().Len() == 1 {
		st.facts[t] = 'N'
	}
	// a method may store its arguments in the object it is called on
	if len(args) > 1 && (cc.IsInvoke() || cc.Signature().Recv() != nil) && strings.HasPrefix(args[0].op, "call:") {
		e.dep(st, args[0], t)
	}
	// variables of the caller that a function it hands over can set
	if e.bytes {
		for _, a := range args {
			if a.fn != nil {
				for _, v := range a.args {
					if strings.HasPrefix(v.op, "obj") || strings.HasPrefix(v.op, "faddr") || strings.HasPrefix(v.op, "local") {
						e.clobber(st, v, e.mk("clobber", t, v))
					}
				}
			}
		}
	}
	// memory reachable from pointer arguments may now hold anything derived from the arguments
	for i, a := range args {
		if i < len(callArgs(cc)) {
			at := callArgs(cc)[i].Type()
			if strings.HasPrefix(a.op, "obj") || strings.HasPrefix(a.op, "faddr") || a.op == "iface" && len(a.args) > 0 && strings.HasPrefix(a.args[0].op, "obj") {
				o := a
				if a.op == "iface" {
					o = a.args[0]
				}
				e.dep(st, o, t)
				if _, isPtr := o.typOr(at).Underlying().(*types.Pointer); isPtr {
					if !readOnlyCall(name) {
						e.clobber(st, o, e.mk("clobber", t))
					}
				}
			}
		}
	}
	n := cc.Signature().Results().Len()
	if n == 0 {
		return one()
	}
	if n == 1 {
		// methods that return their receiver (math/big)
		if len(args) > 0 && cc.Signature().Recv() != nil && types.Identical(cc.Signature().Results().At(0).Type(), cc.Signature().Recv().Type()) && strings.HasPrefix(args[0].op, "obj") && strings.Contains(name, "math/big.Int") {
			return one(args[0])
		}
		t.typ = cc.Signature().Results().At(0).Type()
		return one(t)
	}
	var res []*term
	for i := 0; i < n; i++ {
		r := e.mk(fmt.Sprintf("ret%d", i), t)
		r.typ = cc.Signature().Results().At(i).Type()
		res = append(res, r)
	}
	return one(res...)
}

// iterFunc: an iterator of the standard library, or the loop inside it.
func iterFunc(g *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "slices" {
		return false
	}
	switch g.Name() {
	case "Chunk", "Values", "All", "Backward":
		return true
	}
	return false
}

// round tells the rounds of a loop apart when they are followed one by one.
func (e *tpath) round(st *tstate, in ssa.Instruction) string {
	if n := st.count[in.Block()]; e.unroll && n > 1 {
		return fmt.Sprintf("#%d", n)
	}
	return ""
}

// elems: the elements of a slice of a whole array object, as stored now.
func (e *tpath) elems(st *tstate, t *term) ([]*term, bool) {
	n, ok := arrayLen(t)
	if !ok || n > 64 {
		return nil, false
	}
	var out []*term
	for i := int64(0); i < n; i++ {
		v := st.cells[e.mk("iaddr", t.args[0], e.constTerm(constant.MakeInt64(i)))]
		if v == nil {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

// arrayLen: the length of a slice of a whole array object.
func arrayLen(t *term) (int64, bool) {
	if t.op == "slice" && t.args[1].op == "_" && t.args[2].op == "_" && t.args[0].op == "obj" && t.args[0].typ != nil {
		if p, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len(), true
			}
		}
	}
	return 0, false
}

func (t *term) typOr(d types.Type) types.Type {
	if t.typ != nil {
		return t.typ
	}
	return d
}

// inlineArg: a function worth expanding is passed to the callee.
func (e *tpath) inlineArg(args []*term) bool {
	for _, a := range args {
		if a.op == "fn" && a.fn != nil && e.inline(a.fn) {
			return true
		}
	}
	return false
}

func shortSite(ci ssa.CallInstruction) string {
	in := ci.(ssa.Instruction)
	return fmt.Sprintf("%s.%d.%d", in.Parent().Name(), in.Block().Index, instrIndex(in))
}

func pureCall(name string) bool {
	switch name {
	case "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Compare":
		return true
	}
	return false
}

func readOnlyCall(name string) bool {
	return strings.HasPrefix(name, "crypto/ecdsa.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "fmt.")
}

func (e *tpath) dep(st *tstate, o, d *term) {
	o = baseObj(o)
	for _, x := range st.content[o] {
		if x == d {
			return
		}
	}
	st.content[o] = append(append([]*term(nil), st.content[o]...), d)
}

func baseObj(t *term) *term {
	for {
		switch {
		case t.op == "slice" || strings.HasPrefix(t.op, "faddr") || t.op == "iaddr" || t.op == "iface" && len(t.args) > 0:
			t = t.args[0]
		default:
			return t
		}
	}
}

func (e *tpath) clobber(st *tstate, addr, v *term) {
	for k := range st.cells {
		if len(k.args) > 0 && (strings.HasPrefix(k.op, "faddr") || k.op == "iaddr") && k.args[0] == addr {
			delete(st.cells, k)
		}
	}
	st.cells[addr] = v
}

// at: element i of an array value.
func (e *tpath) at(v, i *term, elem types.Type) *term {
	if strings.HasPrefix(v.op, "zero:") {
		return e.zero(elem)
	}
	if k, ok := intOf(i); ok && v.op == "mk" && k >= 0 && k < int64(len(v.args)) {
		return v.args[k]
	}
	return e.mk("index", v, i)
}

// arrayValue: the value of a small array whose elements were stored one by
// one at constant positions.
func (e *tpath) arrayValue(st *tstate, addr *term, a *types.Array) *term {
	if a.Len() > 64 {
		return nil
	}
	parts := false
	for k := range st.cells {
		if len(k.args) == 2 && k.op == "iaddr" && k.args[0] == addr {
			if _, ok := intOf(k.args[1]); !ok {
				return nil
			}
			parts = true
		}
	}
	if !parts {
		return nil
	}
	var xs []*term
	for i := int64(0); i < a.Len(); i++ {
		xs = append(xs, e.load(st, e.mk("iaddr", addr, e.constTerm(constant.MakeInt64(i))), a.Elem()))
	}
	return e.mk("mk", xs...)
}

func (e *tpath) field(t *term, i int) *term {
	if t.op == "mk" && i < len(t.args) {
		return t.args[i]
	}
	return e.mk(fmt.Sprintf("field:%d", i), t)
}

func (e *tpath) load(st *tstate, addr *term, typ types.Type) *term {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		parts := false
		for k := range st.cells {
			if len(k.args) > 0 && strings.HasPrefix(k.op, "faddr") && k.args[0] == addr {
				parts = true
			}
		}
		if parts {
			var fs []*term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, e.load(st, e.mk(fmt.Sprintf("faddr:%d", i), addr), s.Field(i).Type()))
			}
			return e.mk("mk", fs...)
		}
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		if v := e.arrayValue(st, addr, a); v != nil {
			return v
		}
	}
	if v := st.cells[addr]; v != nil {
		return v
	}
	if e.bytes && addr.op == "iaddr" {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if t, ok := e.inByte(st, addr.args[0], addr.args[1]); ok {
				return t
			}
		} else if i, ok := intOf(addr.args[1]); ok {
			if xs := e.listOf(st, addr.args[0]); i >= 0 && i < int64(len(xs)) {
				return xs[i]
			}
		}
	}
	if strings.HasPrefix(addr.op, "faddr:") {
		var i int
		fmt.Sscanf(addr.op, "faddr:%d", &i)
		if v := st.cells[addr.args[0]]; v != nil {
			if strings.HasPrefix(v.op, "zero:") {
				return e.zero(typ)
			}
			f := e.field(v, i)
			if f.name == "" && strings.HasPrefix(f.op, "field:") {
				f.name = addr.name
			}
			return f
		}
	}
	if strings.HasPrefix(addr.op, "obj") {
		return e.zero(typ)
	}
	if addr.op == "iaddr" && addr.args[0].op == "obj" {
		if v := st.cells[addr.args[0]]; v != nil {
			return e.at(v, addr.args[1], typ)
		}
	}
	if addr.op == "addr" {
		t := e.mk("global:" + addr.key)
		t.typ = typ
		if isErrorType(typ) {
			return e.mk("nonnil")
		}
		return t
	}
	return e.mk("load", addr)
}

func (e *tpath) zero(typ types.Type) *term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.constTerm(constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return e.constTerm(constant.MakeString(""))
		case u.Info()&types.IsNumeric != 0:
			return e.constTerm(constant.MakeInt64(0))
		}
	case *types.Struct, *types.Array:
		return e.mk("zero:" + types.TypeString(typ, nil))
	}
	return e.nilTerm()
}

func (e *tpath) instr(in ssa.Instruction, st *tstate, ctx string) {
	if e.layout && e.layoutInstr(in, st, ctx) {
		return
	}
	v, isVal := in.(ssa.Value)
	set := func(t *term) { st.env[v] = t }
	switch x := in.(type) {
	case *ssa.Alloc:
		loc := "objlocal@"
		if x.Heap {
			loc = "obj@"
		}
		t := e.mk(loc + e.site(x, ctx) + e.round(st, x))
		t.op, t.typ = "obj", x.Type()
		set(t)
		for k := range st.cells {
			if k == t || len(k.args) > 0 && k.args[0] == t {
				delete(st.cells, k)
			}
		}
	case *ssa.Store:
		a := e.val(st, x.Addr)
		val := e.val(st, x.Val)
		if e.onAccess != nil {
			e.onAccess(st, in, a, true)
		}
		if e.bytes && a.op == "iaddr" {
			delete(st.cells, e.mk("filled", baseObj(a)))
		}
		e.clobber(st, a, val)
		if strings.HasPrefix(a.op, "faddr") || a.op == "iaddr" {
			e.dep(st, a, val)
		} else {
			st.cells[a] = val
		}
	case *ssa.UnOp:
		o := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if e.onAccess != nil {
				e.onAccess(st, in, o, false)
			}
			set(e.load(st, o, x.Type()))
		case token.NOT:
			if o.cst != nil && o.cst.Kind() == constant.Bool {
				set(e.constTerm(constant.MakeBool(!constant.BoolVal(o.cst))))
			} else if o.op == "not" {
				set(o.args[0])
			} else {
				set(e.mk("not", o))
			}
		default:
			if n, ok := intOf(o); ok && x.Op == token.XOR {
				set(e.constTerm(wrap(constant.MakeInt64(^n), x.Type())))
				return
			}
			set(e.mk("un:"+x.Op.String(), o))
		}
	case *ssa.BinOp:
		if e.bytes && !e.layout {
			if t, ok := e.intOp(st, x, e.val(st, x.X), e.val(st, x.Y)); ok {
				set(t)
				return
			}
		}
		set(e.bin(x.Op, e.val(st, x.X), e.val(st, x.Y), x))
	case *ssa.FieldAddr:
		t := e.mk(fmt.Sprintf("faddr:%d", x.Field), e.val(st, x.X))
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			t.name = fieldName(p.Elem(), x.Field)
		}
		set(t)
	case *ssa.Field:
		t := e.field(e.val(st, x.X), x.Field)
		if strings.HasPrefix(t.op, "field:") {
			t.name = fieldName(x.X.Type(), x.Field)
		}
		set(t)
	case *ssa.IndexAddr:
		base := e.val(st, x.X)
		if _, ok := arrayLen(base); ok {
			base = base.args[0]
		}
		set(e.mk("iaddr", base, e.val(st, x.Index)))
	case *ssa.Index:
		set(e.at(e.val(st, x.X), e.val(st, x.Index), x.Type()))
	case *ssa.Slice:
		set(e.mk("slice", e.val(st, x.X), e.opt(st, x.Low), e.opt(st, x.High)))
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			set(t.args[x.Index])
		} else {
			set(e.mk(fmt.Sprintf("ret%d", x.Index), t))
		}
	case *ssa.MakeInterface:
		o := e.val(st, x.X)
		if o.op == "nonnil" {
			set(o)
			return
		}
		t := e.mk("iface", o)
		t.typ = x.X.Type()
		set(t)
	case *ssa.ChangeInterface:
		set(e.val(st, x.X))
	case *ssa.ChangeType:
		set(e.val(st, x.X))
	case *ssa.Convert:
		o := e.val(st, x.X)
		if o.cst != nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && o.cst.Kind() == constant.Int {
				o = e.constTerm(wrap(o.cst, x.Type()))
			}
			set(o)
		} else {
			set(e.mk("conv:"+types.TypeString(x.Type(), nil), o))
		}
	case *ssa.TypeAssert:
		o := e.val(st, x.X)
		if o.op == "extval" && !x.CommaOk {
			set(o.args[0])
			return
		}
		if o.op == "extmsg" {
			if x.CommaOk {
				set(e.mk("tuple", o.args[0], e.constTerm(constant.MakeBool(true))))
			} else {
				set(o.args[0])
			}
			return
		}
		if bt, ok := x.AssertedType.Underlying().(*types.Basic); ok && o.op == "extval" && bt.Kind() == types.Int32 {
			set(e.mk("tuple", o.args[0], e.constTerm(constant.MakeBool(true))))
			return
		}
		if e.bytes && o.op == "iface" && o.typ != nil && x.CommaOk {
			if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				if types.Implements(o.typ, it) {
					set(e.mk("tuple", o, e.constTerm(constant.MakeBool(true))))
				} else {
					set(e.mk("tuple", e.nilTerm(), e.constTerm(constant.MakeBool(false))))
				}
				return
			}
		}
		set(e.mk("assert", o))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []*term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		t := e.mk("fn:"+fname(f)+ctx, bs...)
		t.op, t.fn = "fn", f
		set(t)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		t := e.mk("objmake@" + e.site(in, ctx) + e.round(st, in))
		t.op, t.typ = "obj", v.Type()
		if ms, ok := in.(*ssa.MakeSlice); ok && e.bytes {
			ln := e.val(st, ms.Len)
			if n, ok := intOf(ln); !ok || n != 0 {
				st.content[t] = append(st.content[t], e.mk("nonempty"))
			}
			st.cells[e.mk("makelen", t)] = ln
			delete(st.cells, e.mk("filled", t))
		}
		set(t)
	case *ssa.MapUpdate:
		e.dep(st, e.val(st, x.Map), e.val(st, x.Value))
	case *ssa.Lookup:
		t := e.mk("lookup@"+e.site(in, ctx)+e.round(st, in), e.val(st, x.X), e.val(st, x.Index))
		set(t)
	case *ssa.Range:
		set(e.mk("range", e.val(st, x.X)))
	case *ssa.Next:
		set(e.mk("next@"+e.site(in, ctx)+e.round(st, in), e.val(st, x.Iter)))
	default:
		if isVal {
			var as []*term
			for _, op := range in.Operands(nil) {
				if *op != nil {
					as = append(as, e.val(st, *op))
				}
			}
			set(e.mk(fmt.Sprintf("%T@%s", in, e.site(in, ctx)), as...))
		}
	}
}

// fieldName is the name of a struct field, followed by its JSON key.
func fieldName(t types.Type, i int) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return ""
	}
	key := reflect.StructTag(s.Tag(i)).Get("json")
	if j := strings.Index(key, ","); j >= 0 {
		key = key[:j]
	}
	return s.Field(i).Name() + "|" + key
}

func (e *tpath) opt(st *tstate, v ssa.Value) *term {
	if v == nil {
		return e.mk("_")
	}
	return e.val(st, v)
}

func (e *tpath) bin(op token.Token, a, b *term, x *ssa.BinOp) *term {
	if a.cst != nil && b.cst != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.cst.Kind() == b.cst.Kind() {
				return e.constTerm(constant.MakeBool(constant.Compare(a.cst, op, b.cst)))
			}
		case token.ADD, token.SUB, token.MUL:
			if a.cst.Kind() == b.cst.Kind() && (a.cst.Kind() == constant.Int || op == token.ADD && a.cst.Kind() == constant.String) {
				return e.constTerm(constant.BinaryOp(a.cst, op, b.cst))
			}
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if v, ok := foldBin(op, a.cst, b.cst, x.Type()); ok && a.cst.Kind() == constant.Int && b.cst.Kind() == constant.Int {
				return e.constTerm(v)
			}
		}
	}
	not := func(t *term) *term {
		if t.cst != nil {
			return e.constTerm(constant.MakeBool(!constant.BoolVal(t.cst)))
		}
		if t.op == "not" {
			return t.args[0]
		}
		return e.mk("not", t)
	}
	eq := func() *term {
		if a == b {
			return e.constTerm(constant.MakeBool(true))
		}
		if a.op == "nil" {
			return e.mk("isnil", b)
		}
		if b.op == "nil" {
			return e.mk("isnil", a)
		}
		if isBool(x.X.Type()) {
			if b.cst != nil {
				a, b = b, a
			}
			if a.cst != nil {
				if constant.BoolVal(a.cst) {
					return b
				}
				return not(b)
			}
		}
		if a.cst != nil || b.cst == nil && a.key > b.key {
			a, b = b, a
		}
		return e.mk("==", a, b)
	}
	switch op {
	case token.EQL:
		return eq()
	case token.NEQ:
		return not(eq())
	case token.GTR: // a > b  <=> b < a
		return e.less(b, a, not)
	case token.LSS:
		return e.less(a, b, not)
	case token.GEQ:
		return not(e.less(a, b, not))
	case token.LEQ:
		return not(e.less(b, a, not))
	}
	return e.mk("bin:"+op.String(), a, b)
}

// less normalises comparisons of a length with 0 and 1 to a comparison with zero.
func (e *tpath) less(a, b *term, not func(*term) *term) *term {
	zero := e.constTerm(constant.MakeInt64(0))
	if b.op == "len" && a.cst != nil && a.cst.ExactString() == "0" {
		return not(e.mk("==", b, zero))
	}
	if a.op == "len" && b.cst != nil && b.cst.ExactString() == "1" {
		return e.mk("==", a, zero)
	}
	return e.mk("<", a, b)
}

// deps lists every term a value is built from, including what was stored into
// the memory it names.
func (e *tpath) deps(st *tstate, t *term) map[*term]bool {
	out := map[*term]bool{}
	var rec func(t *term)
	rec = func(t *term) {
		if t == nil || out[t] {
			return
		}
		out[t] = true
		if strings.HasPrefix(t.op, "get:") || strings.HasPrefix(t.op, "stored:") || e.leaf != nil && e.leaf(t) {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, d := range st.content[t] {
			rec(d)
		}
		if v := st.cells[t]; v != nil {
			rec(v)
		}
		for k, v := range st.cells {
			if len(k.args) > 0 && k.args[0] == t && strings.HasPrefix(k.op, "faddr") {
				rec(v)
			}
		}
	}
	rec(t)
	return out
}

func (t *term) callee() string {
	if !strings.HasPrefix(t.op, "call:") {
		return ""
	}
	s := t.op[len("call:"):]
	if i := strings.Index(s, "@"); i >= 0 {
		s = s[:i]
	}
	return s
}
