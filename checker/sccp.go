package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Conditional constant propagation (Wegman-Zadeck) with interprocedural
// evaluation of repository functions. Values are constants, the address-taken
// value of a package variable (symbol), constant maps and arrays held in package
// variables, or unknown. Only edges that constants leave possible are followed.

type cv struct {
	k   byte // 0 bottom, 'c' constant, 's' symbol, 'n' nil, 't' top
	c   constant.Value
	s   string
	g   *ssa.Global // symbol: the variable whose value this is
	tup []cv
}

var cvTop = cv{k: 't'}

func cvConst(c constant.Value) cv { return cv{k: 'c', c: c} }
func cvInt(n int64) cv            { return cvConst(constant.MakeInt64(n)) }

func (a cv) eq(b cv) bool {
	if a.k != b.k || a.s != b.s || len(a.tup) != len(b.tup) {
		return false
	}
	if a.k == 'c' && (a.c.Kind() != b.c.Kind() || !constant.Compare(a.c, token.EQL, b.c)) {
		return false
	}
	for i := range a.tup {
		if !a.tup[i].eq(b.tup[i]) {
			return false
		}
	}
	return true
}

func (a cv) join(b cv) cv {
	if a.k == 0 {
		return b
	}
	if b.k == 0 || a.eq(b) {
		return a
	}
	if len(a.tup) > 0 && len(a.tup) == len(b.tup) {
		out := cv{k: 'c', c: constant.MakeBool(true)}
		for i := range a.tup {
			out.tup = append(out.tup, a.tup[i].join(b.tup[i]))
		}
		return out
	}
	return cvTop
}

func (a cv) String() string {
	switch a.k {
	case 0:
		return "unreachable"
	case 'c':
		return a.c.ExactString()
	case 's':
		return a.s
	case 'n':
		return "nil"
	}
	return "?"
}

func (a cv) int() (int64, bool) {
	if a.k != 'c' || a.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(a.c)
}

type sccp struct {
	c        *Ctx
	override func(v ssa.Value) (cv, bool)                    // fixes the value of an instruction
	observe  func(in ssa.Instruction, at func(ssa.Value) cv) // called for every executable instruction at the fixpoint
	depth    int
}

// eval runs the analysis of f with the given parameter values (missing ones are
// unknown) and returns the joined result.
func (e *sccp) eval(f *ssa.Function, args []cv) cv {
	if len(f.Blocks) == 0 || e.depth > 8 {
		return cvTop
	}
	e.depth++
	defer func() { e.depth-- }()
	vals := map[ssa.Value]cv{}
	for i, p := range f.Params {
		if i < len(args) && args[i].k != 0 {
			vals[p] = args[i]
		} else {
			vals[p] = cvTop
		}
		if e.override != nil {
			if v, ok := e.override(p); ok {
				vals[p] = v
			}
		}
	}
	for _, fv := range f.FreeVars {
		vals[fv] = cvTop
	}
	at := func(v ssa.Value) cv { return e.valueOf(v, vals) }
	obs := e.observe
	e.observe = nil
	edge := map[[2]int]bool{}
	reached := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	for changed, n := true, 0; changed && n < 200; n++ {
		changed = false
		for _, b := range f.Blocks {
			if !reached[b] {
				continue
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					nv := e.transfer(v, vals, edge)
					old := vals[v]
					j := old.join(nv)
					if !j.eq(old) {
						vals[v] = j
						changed = true
					}
				}
			}
			mark := func(s *ssa.BasicBlock) {
				k := [2]int{b.Index, s.Index}
				if !edge[k] {
					edge[k] = true
					changed = true
				}
				reached[s] = true
			}
			if n := len(b.Instrs); n > 0 {
				if br, ok := b.Instrs[n-1].(*ssa.If); ok {
					c := at(br.Cond)
					switch {
					case c.k == 'c':
						if constant.BoolVal(c.c) {
							mark(b.Succs[0])
						} else {
							mark(b.Succs[1])
						}
					case c.k == 0:
					default:
						mark(b.Succs[0])
						mark(b.Succs[1])
					}
				} else {
					for _, s := range b.Succs {
						mark(s)
					}
				}
			}
		}
	}
	var out cv
	e.observe = obs
	for _, b := range f.Blocks {
		if !reached[b] {
			continue
		}
		for _, in := range b.Instrs {
			if e.observe != nil {
				e.observe(in, at)
				if call, ok := in.(*ssa.Call); ok {
					e.transfer(call, vals, edge) // observe the callee in this context
				}
			}
			if ret, ok := in.(*ssa.Return); ok {
				var r cv
				if len(ret.Results) == 1 {
					r = at(ret.Results[0])
				} else {
					r = cv{k: 'c', c: constant.MakeBool(true)}
					for _, x := range ret.Results {
						r.tup = append(r.tup, at(x))
					}
				}
				out = out.join(r)
			}
		}
	}
	if out.k == 0 {
		return cvTop
	}
	return out
}

func (e *sccp) valueOf(v ssa.Value, vals map[ssa.Value]cv) cv {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return cv{k: 'n'}
		}
		return cvConst(k.Value)
	}
	if g, ok := v.(*ssa.Global); ok {
		return cv{k: 's', s: "&" + g.RelString(nil), g: g}
	}
	switch v.(type) {
	case *ssa.Function, *ssa.Builtin:
		return cvTop
	}
	return vals[v]
}

// wrap truncates an integer constant to the width of t.
func wrap(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	var bits uint
	signed := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	default:
		return c
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	mask := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	c = constant.BinaryOp(c, token.AND, mask)
	if constant.Sign(c) < 0 {
		c = constant.BinaryOp(c, token.ADD, mod)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(c, token.GEQ, half) {
			c = constant.BinaryOp(c, token.SUB, mod)
		}
	}
	return c
}

func foldBin(op token.Token, x, y constant.Value, t types.Type) (res constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(x, op, y)), true
	case token.SHL, token.SHR:
		n, exact := constant.Uint64Val(y)
		if !exact || n > 64 {
			return nil, false
		}
		return wrap(constant.Shift(x, op, uint(n)), t), true
	case token.QUO:
		if x.Kind() == constant.Int {
			if constant.Sign(y) == 0 {
				return nil, false
			}
			return wrap(constant.BinaryOp(x, token.QUO_ASSIGN, y), t), true
		}
		return constant.BinaryOp(x, op, y), true
	case token.REM:
		if constant.Sign(y) == 0 {
			return nil, false
		}
		return wrap(constant.BinaryOp(x, op, y), t), true
	case token.AND_NOT:
		return wrap(constant.BinaryOp(x, token.AND_NOT, y), t), true
	}
	return wrap(constant.BinaryOp(x, op, y), t), true
}

func (e *sccp) transfer(v ssa.Value, vals map[ssa.Value]cv, edge map[[2]int]bool) cv {
	if e.override != nil {
		if x, ok := e.override(v); ok {
			return x
		}
	}
	at := func(v ssa.Value) cv { return e.valueOf(v, vals) }
	switch x := v.(type) {
	case *ssa.Phi:
		var out cv
		for i, ed := range x.Edges {
			if edge[[2]int{x.Block().Preds[i].Index, x.Block().Index}] {
				out = out.join(at(ed))
			}
		}
		return out
	case *ssa.BinOp:
		a, b := at(x.X), at(x.Y)
		if a.k == 0 || b.k == 0 {
			return cv{}
		}
		if a.k == 'c' && b.k == 'c' && a.tup == nil && b.tup == nil {
			if r, ok := foldBin(x.Op, a.c, b.c, x.Type()); ok {
				return cvConst(r)
			}
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if (a.k == 's' && b.k == 'n') || (a.k == 'n' && b.k == 's') {
				return cvConst(constant.MakeBool(x.Op == token.NEQ))
			}
			if a.k == 'n' && b.k == 'n' {
				return cvConst(constant.MakeBool(x.Op == token.EQL))
			}
		}
		return cvTop
	case *ssa.Convert:
		a := at(x.X)
		if a.k == 'c' && a.c.Kind() == constant.Int {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return cvConst(wrap(a.c, x.Type()))
			}
		}
		if a.k == 0 {
			return a
		}
		return cvTop
	case *ssa.ChangeType:
		return at(x.X)
	case *ssa.MakeInterface:
		return at(x.X)
	case *ssa.ChangeInterface:
		return at(x.X)
	case *ssa.Extract:
		a := at(x.Tuple)
		if a.k == 0 {
			return a
		}
		if x.Index < len(a.tup) {
			return a.tup[x.Index]
		}
		return cvTop
	case *ssa.UnOp:
		a := at(x.X)
		if a.k == 0 {
			return a
		}
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if k := e.c.globalConst(g); k.k != 0 {
					return k
				}
				return cv{k: 's', s: g.RelString(nil), g: g}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if g, ok := ia.X.(*ssa.Global); ok {
					if i, ok := at(ia.Index).int(); ok {
						return e.c.globalElem(g, cvInt(i))
					}
				}
				if ld, ok := ia.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if g, ok := ld.X.(*ssa.Global); ok {
						if i, ok := at(ia.Index).int(); ok {
							return e.c.globalElem(g, cvInt(i))
						}
					}
				}
			}
			return cvTop
		case token.NOT, token.SUB, token.XOR:
			if a.k == 'c' && a.tup == nil {
				return cvConst(wrap(constant.UnaryOp(x.Op, a.c, 0), x.Type()))
			}
		}
		return cvTop
	case *ssa.Lookup:
		m, k := at(x.X), at(x.Index)
		if m.k == 0 || k.k == 0 {
			return cv{}
		}
		if m.k == 's' && m.g != nil && k.k == 'c' {
			val := e.c.globalElem(m.g, k)
			if x.CommaOk {
				if val.k == 't' {
					return cvTop
				}
				ok := val.k != 0
				if !ok {
					val = zeroCV(x.Type().(*types.Tuple).At(0).Type())
				}
				return cv{k: 'c', c: constant.MakeBool(true), tup: []cv{val, cvConst(constant.MakeBool(ok))}}
			}
			if val.k == 0 {
				return zeroCV(x.Type())
			}
			return val
		}
		return cvTop
	case *ssa.Call:
		cc := x.Common()
		if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && len(g.Blocks) > 0 {
			var args []cv
			for _, a := range cc.Args {
				av := at(a)
				if av.k == 0 {
					return cv{}
				}
				args = append(args, av)
			}
			return e.eval(g, args)
		}
		return cvTop
	}
	return cvTop
}

func zeroCV(t types.Type) cv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return cvInt(0)
		case u.Info()&types.IsBoolean != 0:
			return cvConst(constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return cvConst(constant.MakeString(""))
		}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
		return cv{k: 'n'}
	}
	return cvTop
}

type globalTab struct {
	val   cv            // scalar constant
	elems map[string]cv // constant map / array
	ok    bool
}

// globalInit reads the initialiser of a package variable that is never written
// elsewhere: a scalar constant, or a map, array or slice literal.
func (c *Ctx) globalInit(g *ssa.Global) *globalTab {
	key := "ginit:" + g.RelString(nil)
	if t, ok := c.memo[key]; ok {
		return t.(*globalTab)
	}
	t := &globalTab{elems: map[string]cv{}}
	c.memo[key] = t
	if g.Pkg == nil || !isRepoPkg(g.Pkg.Pkg) {
		return t
	}
	init := g.Pkg.Func("init")
	e := &sccp{c: c}
	at := func(v ssa.Value) cv {
		switch x := v.(type) {
		case *ssa.Const:
			return e.valueOf(x, nil)
		case *ssa.UnOp:
			if gg, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				return cv{k: 's', s: gg.RelString(nil), g: gg}
			}
		case *ssa.Global:
			return cv{k: 's', s: "&" + x.RelString(nil), g: x}
		}
		return cvTop
	}
	// writes outside init disqualify
	for f := range c.P.All {
		if f == init || funcPkg(f) != g.Pkg.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if baseGlobal(x.Addr) == g {
						return t
					}
				case *ssa.MapUpdate:
					if baseGlobal(x.Map) == g {
						return t
					}
				}
			}
		}
	}
	if init == nil {
		return t
	}
	var stored ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if stored != nil {
					return t
				}
				stored = s.Val
			}
		}
	}
	base := ssa.Value(g)
	if stored != nil {
		if k := at(stored); k.k == 'c' || k.k == 'n' {
			t.val, t.ok = k, true
			return t
		}
		base = stored
		if sl, ok := stored.(*ssa.Slice); ok {
			base = sl.X
		}
	}
	zero := map[string]bool{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Map == base {
					if k := at(x.Key); k.k == 'c' {
						t.elems[k.String()] = at(x.Value)
						t.ok = true
					} else {
						t.ok = false
						return t
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && (ia.X == base || ia.X == g) {
					if k, ok := at(ia.Index).int(); ok {
						t.elems[fmt.Sprint(k)] = at(x.Val)
						t.ok = true
						zero["a"] = true
					}
				}
			}
		}
	}
	return t
}

func (c *Ctx) globalConst(g *ssa.Global) cv {
	t := c.globalInit(g)
	if t.ok && t.val.k != 0 {
		return t.val
	}
	return cv{}
}

// globalElem looks up a key: bottom when the key is absent, top when unknown.
func (c *Ctx) globalElem(g *ssa.Global, k cv) cv {
	t := c.globalInit(g)
	if !t.ok {
		return cvTop
	}
	v, ok := t.elems[k.String()]
	if !ok {
		if _, isMap := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); !isMap {
			if at, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return zeroCV(at.Elem())
			}
			return cvTop
		}
		return cv{}
	}
	return v
}
