package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// must returns a public function of the library; its absence is a load error.
func (c *Ctx) must(name string) *ssa.Function {
	f := c.P.fn(modPath, name)
	if f == nil {
		panic("public function " + name + " not found in the root package")
	}
	return f
}

// methodOf finds the method of a named type of a package.
func (p *Prog) methodOf(path, typ, name string) *ssa.Function {
	pk := p.ByPath[path]
	if pk == nil || pk.Types == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(pk.Types, name); sel != nil {
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

func (c *Ctx) parseRoots() []*ssa.Function   { return []*ssa.Function{c.must("UnmarshalFile")} }
func (c *Ctx) marshalRoots() []*ssa.Function { return []*ssa.Function{c.must("MarshalFile")} }
func (c *Ctx) verifyRoots() []*ssa.Function {
	r := []*ssa.Function{c.must("VerifyFile")}
	if m := c.P.methodOf(modPath, "VerifyOptions", "VerifyFile"); m != nil {
		r = append(r, m)
	}
	return r
}

// anonRoots are the anonymisation operations: functions of the repository named
// Anonymize... that take a message and return a message.
func (c *Ctx) anonRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if !strings.HasPrefix(strings.ToLower(f.Name()), "anonymi") {
			continue
		}
		if f.Signature.Params().Len() < 1 || f.Signature.Results().Len() < 1 {
			continue
		}
		if !isProtoMsg(f.Signature.Params().At(0).Type()) {
			continue
		}
		out = append(out, f)
	}
	return out
}
