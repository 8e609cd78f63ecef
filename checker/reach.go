package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// reach computes the repository functions reachable from the given roots.
// Calls are resolved statically; dynamic calls are over-approximated: every
// function value mentioned in a reachable function, every method of a
// repository type converted to an interface there, and for an interface call
// every repository implementation of that method.
func (p *Prog) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil || seen[f] || !isRepoFunc(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		work = append(work, f)
	}
	for _, r := range roots {
		push(r)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
						if g.Synthetic != "" { // wrappers, bound methods
							for _, bb := range g.Blocks {
								for _, ii := range bb.Instrs {
									if c, ok := ii.(ssa.CallInstruction); ok {
										push(c.Common().StaticCallee())
									}
								}
							}
						}
					}
				}
				switch v := in.(type) {
				case ssa.CallInstruction:
					cc := v.Common()
					if cc.IsInvoke() {
						for _, g := range p.implementations(cc) {
							push(g)
						}
					} else {
						push(cc.StaticCallee())
					}
				case *ssa.MakeInterface:
					t := v.X.Type()
					if n := namedOf(t); n != nil && isRepoPkg(n.Obj().Pkg()) {
						ms := p.SSA.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							push(p.SSA.MethodValue(ms.At(i)))
						}
					}
				}
			}
		}
	}
	return seen
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// implementations lists the repository methods an interface call may reach.
func (p *Prog) implementations(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for path, pk := range p.ByPath {
		if pk.Types == nil || !isRepoPkg(pk.Types) {
			continue
		}
		_ = path
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, iface) {
					sel := p.SSA.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name())
					if sel != nil {
						if g := p.SSA.MethodValue(sel); g != nil {
							// follow promotion / pointer wrappers to the declared body
							out = append(out, g)
						}
					}
					break
				}
			}
		}
	}
	return out
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// fn returns the package-level function or method of the named package.
func (p *Prog) fn(path, name string) *ssa.Function {
	pk := p.pkg(path)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// instrPos finds a source position for an instruction (its own, an operand's,
// or its function's).
func (p *Prog) instrPos(in ssa.Instruction) string {
	ps := in.Pos()
	if !ps.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if r.Pos().IsValid() {
					ps = r.Pos()
					break
				}
			}
		}
	}
	if !ps.IsValid() {
		for _, op := range in.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				ps = (*op).Pos()
				break
			}
		}
	}
	if !ps.IsValid() && in.Parent() != nil {
		ps = in.Parent().Pos()
	}
	return relPos(p.SSA.Fset.Position(ps))
}

// callName is the resolved full name of a static callee or interface method.
func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			return o.RelString(nil)
		}
		return f.RelString(nil)
	}
	return ""
}
