package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P08"] = check{level: "proof", run: runP08}
}

// usableResult: result types whose absence is visible as nil.
func usableResult(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface:
		return !isErrorType(t)
	}
	return false
}

func isTimestamp(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "google.golang.org/protobuf/types/known/timestamppb"
}

// pairFact: facts about a call's results that follow from each other.
func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	case *ssa.Call:
		return x, 0
	}
	return nil, 0
}

// resErr evaluates the (result, error) pair of a return under the facts and
// returns what is wrong with it.
func (c *Ctx) resErr(e *pathEng, ret *ssa.Return, ri, ei int, st *pstate, scope map[*ssa.Function]bool) string {
	res, err := ret.Results[ri], ret.Results[ei]
	if v, ok := st.cells[res]; ok {
		res = v
	}
	if v, ok := st.cells[err]; ok {
		err = v
	}
	fe, ke := e.factOf(err, st)
	fr, kr := e.factOf(res, st)
	if !kr {
		fr, kr = e.factOf(ret.Results[ri], st)
	}
	if !ke {
		fe, ke = e.factOf(ret.Results[ei], st)
	}
	byteRes := isByteSlice(res.Type())
	// both results of one call, unexamined: the callee's obligation
	if !ke {
		c1, i1 := callOf(stripIface(res))
		c2, i2 := callOf(err)
		if c1 != nil && c1 == c2 && i1 != i2 && c.pairCallee(c1, scope) {
			return ""
		}
	}
	canNilErr := !ke || fe == fNil
	canErr := !ke || fe == fNonNil
	if canNilErr && !byteRes {
		if !(kr && fr == fNonNil) {
			// the result of a call known to have succeeded
			ok := false
			if c1, _ := callOf(stripIface(res)); c1 != nil && c.pairCallee(c1, scope) {
				if ev, _ := errValue(c1); ev != nil {
					if f, known := st.facts[ev]; known && f == fNil {
						ok = true
					}
				}
			}
			if !ok {
				if kr {
					return "a nil result comes with a nil error"
				}
				return "the result may be nil although the error is nil"
			}
		}
	}
	if canErr {
		if !(kr && fr == fNil) {
			ok := false
			if c1, _ := callOf(stripIface(res)); c1 != nil && c.pairCallee(c1, scope) {
				if ev, _ := errValue(c1); ev != nil {
					if f, known := st.facts[ev]; known && f == fNonNil {
						ok = true // the failed callee returned nil
					}
				}
			}
			if !ok {
				if fe == fNonNil && ke {
					return "a result is handed out together with an error"
				}
				return "the error may be non-nil while a result is handed out"
			}
		}
	}
	return ""
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// pairCallee: the called function is bound by the same rule (it is analysed
// itself) or is a library function known to obey it.
func (c *Ctx) pairCallee(call *ssa.Call, scope map[*ssa.Function]bool) bool {
	cc := call.Common()
	if cc.IsInvoke() {
		im := c.P.implementations(cc)
		for _, g := range im {
			if !scope[g] {
				return false
			}
		}
		return len(im) > 0
	}
	if g := cc.StaticCallee(); g != nil {
		if isRepoFunc(g) {
			return scope[g]
		}
		return true
	}
	gs := c.taken()[sigKey(cc.Signature())]
	for _, g := range gs {
		if !scope[g] {
			return false
		}
	}
	return len(gs) > 0
}

func (c *Ctx) taken() map[string][]*ssa.Function {
	if t, ok := c.memo["taken"].(map[string][]*ssa.Function); ok {
		return t
	}
	t := c.P.addressTaken()
	c.memo["taken"] = t
	return t
}

func runP08(c *Ctx, r *Report) {
	roots := append(append(append(c.parseRoots(), c.marshalRoots()...), c.verifyRoots()...), c.resolverMethods()...)
	// every exported operation of the library packages as well
	for _, f := range sortedFuncs(c.P.All) {
		if isRepoFunc(f) && f.Parent() == nil && f.Synthetic == "" && len(f.Blocks) > 0 && f.Object() != nil && f.Object().Exported() {
			if pk := funcPkg(f); pk != nil && pk.Name() != "main" {
				roots = append(roots, f)
			}
		}
	}
	scope := map[*ssa.Function]bool{}
	for _, f := range sortedFuncs(c.P.reach(roots...)) {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue // generic body; its instances are analysed
		}
		if f.Signature.Results().Len() >= 2 && errResult(f.Signature) >= 0 {
			scope[f] = true
		}
	}
	paths, pairs := 0, 0
	for _, f := range sortedFuncs(scope) {
		ei := errResult(f.Signature)
		for ri := 0; ri < f.Signature.Results().Len(); ri++ {
			t := f.Signature.Results().At(ri).Type()
			if ri == ei || !(usableResult(t) || isByteSlice(t)) || isTimestamp(t) {
				continue
			}
			pairs++
			e := newPathEng(c, f)
			e.pair = func(call *ssa.Call) bool { return c.pairCallee(call, scope) }
			e.relevant = relevantTo(f, ri, ei)
			e.onReturn = func(ret *ssa.Return, st *pstate) {
				paths++
				if why := c.resErr(e, ret, ri, ei, st, scope); why != "" {
					r.add(Finding{Rule: "result-error", Fn: fname(f), What: fmt.Sprintf("return (result %d)", ri), Pos: c.P.instrPos(ret), Msg: why})
				}
			}
			e.run(f.Blocks[0], 0, nil, &pstate{facts: facts{}, tags: map[string]bool{}})
			if e.overrun {
				r.add(Finding{Rule: "undecided", Fn: fname(f), What: "paths", Pos: c.P.instrPos(f.Blocks[0].Instrs[0]), Msg: "too many paths"})
			}
		}
	}
	r.floor("result_error_pairs", pairs, 180)
	r.floor("return_paths_examined", paths, 1000)
	r.Cov["explanation"] = "for every function reporting a pointer, interface or byte-slice result together with an error, every return is evaluated under the nil-ness facts of the paths leading to it: (non-nil result, nil error) or (nil result, non-nil error); results of callees bound by the same rule are used inductively"
	r.Cov["proof"] = proofCov(pairs, r)
	r.Assume = append(r.Assume, "library functions return a usable result exactly when their error is nil", "user-supplied certificate resolvers obey the same rule",
		"a timestamp result may be nil without error: an all-zero time in the data means no time")
}

// relevantTo: the values the (result, error) pair of a function is made of.
func relevantTo(f *ssa.Function, idx ...int) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || m[v] {
			return
		}
		m[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Extract:
			for _, ref := range *x.Tuple.Referrers() {
				if sib, ok := ref.(*ssa.Extract); ok && !m[sib] && (isErrorType(sib.Type()) || usableResult(sib.Type())) {
					visit(sib)
				}
			}
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.Call:
			for _, a := range x.Common().Args {
				if isErrorType(a.Type()) || isErrList(a.Type()) {
					visit(a)
				}
			}
		case *ssa.Slice:
			visit(x.X)
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				visit(a)
			}
		case *ssa.Alloc:
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					visit(st.Val)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				for _, i := range idx {
					visit(ret.Results[i])
				}
			}
		}
	}
	return m
}
