package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isProtoMsg reports whether t is a pointer to a generated message struct.
func isProtoMsg(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, _ := types.Unalias(pt.Elem()).(*types.Named)
	if n == nil || !isProtoPkg(n.Obj().Pkg()) {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func protoMsgName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	return n.Obj().Name()
}

// protoMethod decomposes a call to a generated message method:
// kind is "Get", "Set", "Has", "Clear", "Which", "Build", "Other" or "".
func protoMethod(cc *ssa.CallCommon) (kind, field string, recv types.Type) {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil {
		return "", "", nil
	}
	obj := f.Object()
	if obj == nil || !isProtoPkg(obj.Pkg()) {
		return "", "", nil
	}
	recv = f.Signature.Recv().Type()
	name := f.Name()
	for _, k := range []string{"Get", "Set", "Has", "Clear", "Which"} {
		if strings.HasPrefix(name, k) && len(name) > len(k) && name[len(k)] >= 'A' && name[len(k)] <= 'Z' {
			if isProtoMsg(recv) {
				return k, name[len(k):], recv
			}
		}
	}
	if name == "Build" {
		return "Build", "", recv
	}
	return "Other", name, recv
}

// hasPointers reports whether values of t can refer to mutable memory.
func hasPointers(t types.Type) bool {
	return hasPtr(t, map[types.Type]bool{})
}

func hasPtr(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if isErrorType(t) {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return false // time.Time is a value; the Location it names is immutable
	}
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Location" {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPtr(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// callsOf lists the call instructions of a function.
func callsOf(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// addressTaken lists repository functions used as values, by signature string.
func (p *Prog) addressTaken() map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if seen[g] || !isRepoFunc(g) || len(g.Blocks) == 0 {
			return
		}
		seen[g] = true
		k := sigKey(g.Signature)
		out[k] = append(out[k], g)
	}
	for f := range p.All {
		if !isRepoFunc(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						add(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

func sigKey(s *types.Signature) string {
	var sb strings.Builder
	tup := func(t *types.Tuple) {
		for i := 0; i < t.Len(); i++ {
			sb.WriteString(types.TypeString(types.Unalias(t.At(i).Type()), nil))
			sb.WriteByte(',')
		}
	}
	tup(s.Params())
	if s.Variadic() {
		sb.WriteString("...")
	}
	sb.WriteString("->")
	tup(s.Results())
	return sb.String()
}
