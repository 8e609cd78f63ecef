package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P07"] = check{level: "proof", run: runP07}
}

// resolverMethods: the methods of every repository type that implements the
// public CertificateResolver interface.
func (c *Ctx) resolverMethods() []*ssa.Function {
	pk := c.P.ByPath[modPath]
	tn, _ := pk.Types.Scope().Lookup("CertificateResolver").(*types.TypeName)
	if tn == nil {
		panic("public interface CertificateResolver not found")
	}
	iface := tn.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, p := range c.P.ByPath {
		if p.Types == nil || !isRepoPkg(p.Types) {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			t, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || t.IsAlias() {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(rt, iface) {
					ms := c.P.SSA.MethodSets.MethodSet(rt)
					for i := 0; i < iface.NumMethods(); i++ {
						m := iface.Method(i)
						if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
							out = append(out, c.P.SSA.MethodValue(sel))
						}
					}
					break
				}
			}
		}
	}
	return out
}

// neverFails: calls whose error is documented to be always nil, or whose
// failure cannot affect the result (closing something that was only read).
func neverFails(cc *ssa.CallCommon) bool {
	n := callName(cc)
	switch {
	case strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(*bytes.Buffer).Write"), n == "(hash.Hash).Write",
		n == "(io.Closer).Close", n == "(io.ReadCloser).Close":
		return true
	case strings.HasPrefix(n, "fmt.Fprint"):
		t := cc.Args[0]
		if mi, ok := t.(*ssa.MakeInterface); ok {
			s := mi.X.Type().String()
			return s == "*strings.Builder" || s == "*bytes.Buffer"
		}
	case n == "(io.Writer).Write":
		return strings.HasPrefix(cc.Value.Type().String(), "hash.")
	}
	return false
}

func runP07(c *Ctx, r *Report) {
	roots := append(append(append(c.parseRoots(), c.marshalRoots()...), c.verifyRoots()...), c.resolverMethods()...)
	fs := sortedFuncs(c.P.reach(roots...))
	sites, discarded, states := 0, 0, 0
	for _, f := range fs {
		for _, ci := range callsOf(f) {
			cc := ci.Common()
			n := callName(cc)
			if n == "fmt.Errorf" || n == "errors.New" || n == "errors.Join" || n == "errors.Unwrap" {
				continue
			}
			if errResult(cc.Signature()) < 0 {
				continue
			}
			if g := cc.StaticCallee(); g != nil && g.Signature.Results().Len() == 1 && isErrorType(g.Signature.Results().At(0).Type()) && c.isErrCtor(g) {
				continue // builds an error from its arguments, does not itself fail
			}
			if neverFails(cc) {
				continue
			}
			sites++
			ev, _ := errValue(ci)
			what := "error of " + shortCall(cc)
			if ev == nil {
				discarded++
				r.add(Finding{Rule: "discarded", Fn: fname(f), What: what, Pos: c.P.instrPos(ci), Msg: "the error result is never looked at"})
				continue
			}
			data := byteArgs(cc)
			bad, over, st := c.failPaths(f, ci, ev, func(e *pathEng, in ssa.Instruction, st *pstate) {
				c.verbatimTags(e, in, data, st)
			}, func(cond ssa.Value, val bool, st *pstate) {
				if altMatch(cond, val, cc) {
					st.tags["alt"] = true
				}
			})
			states += st
			if over {
				r.add(Finding{Rule: "undecided", Fn: fname(f), What: what, Pos: c.P.instrPos(ci), Msg: "too many paths"})
				continue
			}
			for _, b := range bad {
				switch {
				case b.tags["raw"] && b.tags["invalid"]:
					continue // documented: kept verbatim and marked invalid
				case b.tags["unrec"]:
					continue // documented: an unknown code is reported as UNRECOGNIZED
				case b.tags["alt"]:
					continue // the failing attempt's argument was recognised otherwise
				case !b.tags["set"] && c.retainedBefore(ci, data):
					continue // the whole element is kept verbatim, nothing is decoded
				}
				r.add(Finding{Rule: "swallowed", Fn: fname(f), What: what, Pos: c.P.instrPos(ci),
					Msg: fmt.Sprintf("when this call fails, a path to the return at %s %s", c.P.instrPos(b.ret), b.why)})
			}
		}
	}
	r.floor("functions_analysed", len(fs), 250)
	r.floor("fallible_call_sites", sites, 300)
	r.Cov["paths_states_explored"] = states
	r.Cov["explanation"] = "for every call with an error result reachable from the public operations, every control-flow path that starts with that call failing is followed (branches decided by the nil-ness of the error) and must end in a return with a non-nil error; a record kept verbatim and marked invalid is the only exception"
	r.Cov["proof"] = proofCov(sites, r)
	r.Assume = append(r.Assume, "library calls report failure through their error result")
}

func shortCall(cc *ssa.CallCommon) string {
	n := callName(cc)
	if n == "" {
		return "call of a function value"
	}
	n = strings.ReplaceAll(n, modPath+"/", "")
	return n
}

// isErrCtor: the function only makes an error value (every return non-nil).
func (c *Ctx) isErrCtor(g *ssa.Function) bool {
	if !isRepoFunc(g) || len(g.Blocks) == 0 {
		return false
	}
	return c.alwaysNonNil(g, nil, 0)
}

// byteArgs are the roots of the byte slices handed to a call.
func byteArgs(cc *ssa.CallCommon) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, a := range cc.Args {
		if isByteSlice(a.Type()) {
			for _, r := range byteRoots(a) {
				out[r] = true
			}
		}
	}
	return out
}

// byteRoots strips slicing and cloning.
func byteRoots(v ssa.Value) []ssa.Value {
	out := []ssa.Value{v}
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			switch callName(x.Common()) {
			case "bytes.Clone", "slices.Clone":
				v = x.Common().Args[0]
			default:
				return out
			}
		default:
			return out
		}
		out = append(out, v)
	}
}

// verbatimTags notes setters that retain the undecodable bytes and mark the
// record invalid.
func (c *Ctx) verbatimTags(e *pathEng, in ssa.Instruction, data map[ssa.Value]bool, st *pstate) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := ci.Common()
	if k, field, _ := protoMethod(cc); k == "Set" && len(cc.Args) > 1 {
		if e != nil {
			if f, ok := e.factOf(cc.Args[1], st); ok && f == fUnrec {
				st.tags["unrec"] = true
			}
		}
		st.tags["set"] = true
		if isByteSlice(cc.Args[1].Type()) {
			for _, rt := range byteRoots(cc.Args[1]) {
				if data[rt] {
					st.tags["raw"] = true
				}
			}
		}
		if isBool(cc.Args[1].Type()) && strings.HasPrefix(field, "Valid") {
			if k, ok := cc.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
				st.tags["invalid"] = true
			}
		}
		return
	}
	// a helper that does so with the bytes it is given
	if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && len(g.Blocks) > 0 {
		for i, a := range cc.Args {
			if !isByteSlice(a.Type()) || i >= len(g.Params) {
				continue
			}
			hit := false
			for _, rt := range byteRoots(a) {
				hit = hit || data[rt]
			}
			if !hit {
				continue
			}
			sub := &pstate{tags: map[string]bool{}}
			for _, cj := range callsOf(g) {
				if k, _, _ := protoMethod(cj.Common()); k == "Set" {
					c.verbatimTags(nil, cj.(ssa.Instruction), map[ssa.Value]bool{g.Params[i]: true}, sub)
				}
			}
			if sub.tags["raw"] && sub.tags["invalid"] {
				st.tags["raw"], st.tags["invalid"] = true, true
			}
		}
	}
}

// altMatch: the branch taken recognises an argument of the failed call by
// comparing it with a constant.
func altMatch(cond ssa.Value, val bool, cc *ssa.CallCommon) bool {
	b, ok := cond.(*ssa.BinOp)
	if !ok || !val || b.Op != token.EQL {
		return false
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		k, ok := pr[1].(*ssa.Const)
		if !ok || k.Value == nil {
			continue
		}
		for _, a := range cc.Args {
			for {
				if a == pr[0] {
					return true
				}
				if cv, ok := a.(*ssa.Convert); ok {
					a = cv.X
					continue
				}
				break
			}
		}
	}
	return false
}

// retainedBefore: on every way to the call the bytes it fails on were stored
// verbatim in the message, and nothing else was.
func (c *Ctx) retainedBefore(call ssa.CallInstruction, data map[ssa.Value]bool) bool {
	f := call.Parent()
	kept := false
	for _, ci := range callsOf(f) {
		cc := ci.Common()
		k, _, _ := protoMethod(cc)
		if k != "Set" || !ci.Block().Dominates(call.Block()) {
			continue
		}
		if ci.Block() == call.Block() && instrIndex(ci) > instrIndex(call) {
			continue
		}
		ok := false
		if isByteSlice(cc.Args[1].Type()) {
			for _, rt := range byteRoots(cc.Args[1]) {
				ok = ok || data[rt]
			}
		}
		if !ok {
			return false
		}
		kept = true
	}
	return kept
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}
