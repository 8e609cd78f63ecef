package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P23"] = check{level: "proof", run: runP23, tools: true} }

// pathSinks: file-changing calls and the indices of their path arguments.
var pathSinks = map[string][]int{
	"os.WriteFile": {0}, "os.Create": {0}, "os.OpenFile": {0}, "os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Rename": {0, 1}, "os.Link": {1}, "os.Symlink": {1}, "os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Chtimes": {0}, "os.CreateTemp": {0},
	"os.MkdirTemp": {0}, "io/ioutil.WriteFile": {0}, "os.OpenRoot": {0}, "os.CopyFS": {0},
}

// containment decides where path strings of a command may point.
type containment struct {
	c       *Ctx
	funcs   []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	closure map[*ssa.Function][]*ssa.MakeClosure
	asValue map[*ssa.Function]bool // used other than as the operand of a call or closure
	walkFn  map[*ssa.Function]ssa.Value
	stores  map[string][]ssa.Value // struct field key -> stored values
	busy    map[string]bool
	why     string
}

func newContainment(c *Ctx, funcs []*ssa.Function) *containment {
	k := &containment{c: c, funcs: funcs, callers: map[*ssa.Function][]ssa.CallInstruction{}, closure: map[*ssa.Function][]*ssa.MakeClosure{},
		asValue: map[*ssa.Function]bool{}, walkFn: map[*ssa.Function]ssa.Value{}, stores: map[string][]ssa.Value{}, busy: map[string]bool{}}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					k.closure[g] = append(k.closure[g], mc)
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						key := fieldKeyOf(fa.X.Type(), fa.Field)
						k.stores[key] = append(k.stores[key], st.Val)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if g := cc.StaticCallee(); g != nil {
						k.callers[g] = append(k.callers[g], ci)
					} else if g := localFuncVar(cc.Value); g != nil {
						k.callers[g] = append(k.callers[g], ci)
					}
					for i, a := range cc.Args {
						g := funcOf(a)
						if g == nil {
							continue
						}
						n := callName(cc)
						if (n == "path/filepath.WalkDir" || n == "path/filepath.Walk") && i == 1 {
							k.walkFn[g] = cc.Args[0]
						} else {
							k.asValue[g] = true
						}
					}
				}
			}
		}
	}
	return k
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.MakeInterface:
		return funcOf(x.X)
	}
	return nil
}

// localFuncVar: the only function ever stored in the local variable that is called.
func localFuncVar(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		root := x.X
		if fv, ok := root.(*ssa.FreeVar); ok {
			for _, ref := range *fv.Parent().Referrers() {
				if mc, ok := ref.(*ssa.MakeClosure); ok {
					for i, o := range fv.Parent().FreeVars {
						if o == fv {
							root = mc.Bindings[i]
						}
					}
				}
			}
		}
		if al, ok := root.(*ssa.Alloc); ok {
			var g *ssa.Function
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					h := funcOf(st.Val)
					if h == nil || g != nil && g != h {
						return nil
					}
					g = h
				}
			}
			return g
		}
	}
	return nil
}

func fieldKeyOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s#%d", types.TypeString(t, nil), i)
}

// sources lists what a value can be: parameters, captured variables, loads of
// local variables and fields, phis and results of local functions are followed.
// nil means it cannot be told.
func (k *containment) sources(v ssa.Value) ([]ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Edges, true
	case *ssa.ChangeType:
		return []ssa.Value{x.X}, true
	case *ssa.Convert:
		return nil, false
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		if k.asValue[f] || idx < 0 {
			return nil, false
		}
		var out []ssa.Value
		for _, ci := range k.callers[f] {
			args := ci.Common().Args
			if idx < len(args) {
				out = append(out, args[idx])
			}
		}
		return out, true // a function nobody calls has no paths
	case *ssa.FreeVar:
		var out []ssa.Value
		for _, mc := range k.closure[x.Parent()] {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					out = append(out, mc.Bindings[i])
				}
			}
		}
		return out, len(out) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return k.loads(x.X)
		}
	case *ssa.Field:
		if st := k.stores[fieldKeyOf(x.X.Type(), x.Field)]; len(st) > 0 {
			return st, true
		}
	case *ssa.Call:
		if g := x.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && inMainModule(g) {
			return k.results(g, 0)
		}
	case *ssa.Extract:
		if ca, ok := x.Tuple.(*ssa.Call); ok {
			if g := ca.Common().StaticCallee(); g != nil && len(g.Blocks) > 0 && inMainModule(g) {
				return k.results(g, x.Index)
			}
		}
	}
	return nil, false
}

func (k *containment) results(g *ssa.Function, i int) ([]ssa.Value, bool) {
	var out []ssa.Value
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			// results returned together with an error are not used
			if n := len(ret.Results); n > 1 && i < n-1 && isErrorType(ret.Results[n-1].Type()) {
				if c, ok := ret.Results[i].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
					continue
				}
			}
			out = append(out, ret.Results[i])
		}
	}
	return out, len(out) > 0
}

// loads: the values stored at an address.
func (k *containment) loads(addr ssa.Value) ([]ssa.Value, bool) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		var out []ssa.Value
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
				out = append(out, st.Val)
			}
		}
		// closures may assign it too
		for _, ref := range *a.Referrers() {
			if mc, ok := ref.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				for i, bd := range mc.Bindings {
					if bd == a {
						for _, r2 := range *g.FreeVars[i].Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == g.FreeVars[i] {
								out = append(out, st.Val)
							}
						}
					}
				}
			}
		}
		return out, len(out) > 0
	case *ssa.FreeVar:
		var out []ssa.Value
		for _, mc := range k.closure[a.Parent()] {
			for i, fv := range a.Parent().FreeVars {
				if fv == a {
					if o, ok := k.loads(mc.Bindings[i]); ok {
						out = append(out, o...)
					} else {
						return nil, false
					}
				}
			}
		}
		return out, len(out) > 0
	case *ssa.FieldAddr:
		if st := k.stores[fieldKeyOf(a.X.Type(), a.Field)]; len(st) > 0 {
			return st, true
		}
	case *ssa.IndexAddr:
		return k.elems(a.X)
	}
	return nil, false
}

// elems: the values stored in a local array or slice literal.
func (k *containment) elems(v ssa.Value) ([]ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.Slice:
		return k.elems(x.X)
	case *ssa.Alloc:
		var out []ssa.Value
		for _, ref := range *x.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						out = append(out, st.Val)
					}
				}
			}
		}
		return out, len(out) > 0
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if src, ok := k.loads(x.X); ok {
				return k.elemsAll(src)
			}
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return k.elemsAll(x.Common().Args)
		}
		if src, ok := k.sources(x); ok {
			return k.elemsAll(src)
		}
	case *ssa.Phi, *ssa.Parameter, *ssa.Extract:
		key := fmt.Sprintf("elems %p", v)
		if k.busy[key] {
			return nil, true
		}
		k.busy[key] = true
		defer delete(k.busy, key)
		if src, ok := k.sources(v); ok {
			return k.elemsAll(src)
		}
	case *ssa.Const:
		return nil, true // nil slice
	}
	return nil, false
}

func (k *containment) elemsAll(vs []ssa.Value) ([]ssa.Value, bool) {
	var out []ssa.Value
	for _, v := range vs {
		o, ok := k.elems(v)
		if !ok {
			return nil, false
		}
		out = append(out, o...)
	}
	return out, true
}

// variadic: the elements of a variadic argument, in order.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out[c.Int64()] = st.Val
				}
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// segment classes
const (
	segBad   = iota // may contain a separator together with ".."
	segMulti        // fixed relative path without ".." (may contain separators)
	segNoSep        // no separator, but may be "." or ".." or empty
	segPlain        // a single name other than "." and ".."
)

func (k *containment) seg(v ssa.Value) int {
	key := fmt.Sprintf("seg %p", v)
	if k.busy[key] {
		return segPlain // decided by the other sources
	}
	k.busy[key] = true
	defer delete(k.busy, key)
	bad := func(msg string) int {
		if k.why == "" {
			k.why = msg
		}
		return segBad
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.String {
			return segNoSep
		}
		return segOfConst(constant.StringVal(x.Value))
	case *ssa.BinOp:
		if x.Op == token.ADD {
			// split at the separators spelled out in constant parts
			segs := []int{segNoSep}
			empty := true
			for _, p := range flattenConcat(x) {
				c, ok := p.(*ssa.Const)
				if !ok {
					segs[len(segs)-1] = joinSeg(segs[len(segs)-1], k.seg(p))
					empty = false
					continue
				}
				for i, q := range strings.Split(constant.StringVal(c.Value), "/") {
					if i > 0 {
						segs = append(segs, segNoSep)
						empty = true
					}
					if q == "" {
						if empty {
							segs[len(segs)-1] = segNoSep
						}
						continue
					}
					empty = false
					segs[len(segs)-1] = joinSeg(segs[len(segs)-1], segOfConst(q))
				}
				if empty && len(segs) > 1 {
					segs[len(segs)-1] = segNoSep
				}
			}
			if len(segs) == 1 {
				return segs[0]
			}
			for i, s := range segs {
				if i == len(segs)-1 && empty {
					continue // trailing separator
				}
				if s == segBad || s == segNoSep && !(i == 0 && leadingSep(x)) {
					return bad("a path element that may be \"..\"")
				}
			}
			return segMulti
		}
	case *ssa.MakeInterface:
		if isStringType(x.X.Type()) {
			return k.seg(x.X)
		}
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return segPlain
		}
		return bad("a formatted value of type " + types.TypeString(x.X.Type(), nil))
	case *ssa.Call:
		n := callName(x.Common())
		args := x.Common().Args
		switch n {
		case "path/filepath.Base", "path.Base":
			return segNoSep
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "encoding/hex.EncodeToString":
			if n == "encoding/hex.EncodeToString" {
				return segNoSep
			}
			return segPlain
		case "(io/fs.DirEntry).Name", "(io/fs.FileInfo).Name", "(os.DirEntry).Name", "(os.FileInfo).Name":
			return segPlain
		case "path/filepath.Ext", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Clone":
			if s := k.seg(args[0]); s != segBad {
				return segNoSep
			}
			return segBad
		case "strings.ReplaceAll", "strings.Replace":
			if o, ok := args[1].(*ssa.Const); ok && o.Value != nil && constant.StringVal(o.Value) == "/" && n == "strings.ReplaceAll" && k.seg(args[2]) >= segNoSep {
				return segNoSep
			}
			if k.seg(args[0]) >= segNoSep && k.seg(args[2]) >= segNoSep {
				return segNoSep
			}
			return bad("strings.Replace on text that may contain separators")
		case "path/filepath.Join", "path.Join":
			es, ok := variadic(args[0])
			if !ok {
				return bad("a path joined from a list that is not spelled out")
			}
			s := segPlain
			for _, a := range es {
				t := k.seg(a)
				if t == segBad || t == segNoSep {
					return bad("a joined path element that may be \"..\"")
				}
				if t < s {
					s = t
				}
			}
			if len(es) > 1 {
				s = segMulti
			}
			return s
		case "fmt.Sprintf", "fmt.Sprint":
			i := 0
			var pieces []int
			if n == "fmt.Sprintf" {
				c, ok := args[0].(*ssa.Const)
				if !ok {
					return bad("a computed format")
				}
				i = 1
				pieces = append(pieces, segOfConst(stripVerbs(constant.StringVal(c.Value))))
			}
			es, ok := variadic(args[i])
			if !ok {
				return bad("a formatted list that is not spelled out")
			}
			for _, a := range es {
				pieces = append(pieces, k.seg(a))
			}
			s := segNoSep
			for _, p := range pieces {
				s = joinSeg(s, p)
			}
			return s
		}
		if src, ok := k.sources(x); ok {
			return k.segAll(src)
		}
		return bad("the result of " + n)
	default:
		if src, ok := k.sources(v); ok {
			return k.segAll(src)
		}
	}
	return bad("a value the check cannot follow (" + fmt.Sprintf("%T", v) + ")")
}

func (k *containment) segAll(vs []ssa.Value) int {
	s := segPlain
	sep, dots := false, false
	for _, v := range vs {
		t := k.seg(v)
		switch t {
		case segBad:
			return segBad
		case segMulti:
			sep = true
		case segNoSep:
			dots = true
		}
		if t < s {
			s = t
		}
	}
	if sep && dots {
		return segMulti + 0
	}
	return s
}

// flattenConcat lists the operands of a chain of string concatenations.
func flattenConcat(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(flattenConcat(b.X), flattenConcat(b.Y)...)
	}
	return []ssa.Value{v}
}

func leadingSep(v ssa.Value) bool {
	c, ok := flattenConcat(v)[0].(*ssa.Const)
	return ok && strings.HasPrefix(constant.StringVal(c.Value), "/")
}

func segOfConst(s string) int {
	for _, p := range strings.FieldsFunc(s, func(r rune) bool { return r == '/' || r == '\\' }) {
		if p == ".." {
			return segBad
		}
	}
	if strings.ContainsAny(s, `/\`) {
		return segMulti
	}
	if strings.Trim(s, ".") == "" {
		return segNoSep
	}
	return segPlain
}

// stripVerbs removes the formatting verbs of a format string.
func stripVerbs(f string) string {
	var sb strings.Builder
	for i := 0; i < len(f); i++ {
		if f[i] == '%' && i+1 < len(f) {
			j := i + 1
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			i = j
			continue
		}
		sb.WriteByte(f[i])
	}
	return sb.String()
}

func joinSeg(a, b int) int {
	if a == segBad || b == segBad {
		return segBad
	}
	if a == segMulti || b == segMulti {
		// a separator next to something that may be ".."
		if a == segNoSep || b == segNoSep {
			return segBad
		}
		return segMulti
	}
	if a == segPlain || b == segPlain {
		return segPlain
	}
	return segNoSep
}

// depth: how many elements below the output directory a path is at least; -1
// when it may lie outside.
func (k *containment) depth(v ssa.Value) int {
	key := fmt.Sprintf("depth %p", v)
	if k.busy[key] {
		return 1 << 20
	}
	k.busy[key] = true
	defer delete(k.busy, key)
	out := func(msg string) int {
		if k.why == "" {
			k.why = msg
		}
		return -1
	}
	all := func(vs []ssa.Value) int {
		d := 1 << 20
		for _, v := range vs {
			if n := k.depth(v); n < d {
				d = n
			}
		}
		return d
	}
	switch x := v.(type) {
	case *ssa.Const:
		return out("a fixed path outside the output directory")
	case *ssa.UnOp:
		// the value of a command-line flag
		if x.Op == token.MUL {
			if isFlagPtr(k, x.X, 0) {
				return 0
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if d := k.depth(x.X); d >= 0 {
				s := k.seg(x.Y)
				if s == segBad {
					return -1
				}
				if c, ok := x.Y.(*ssa.Const); ok && strings.HasPrefix(constant.StringVal(c.Value), "/") {
					return d
				}
				parts := flattenConcat(x.X)
				if c, ok := parts[len(parts)-1].(*ssa.Const); ok && strings.HasSuffix(constant.StringVal(c.Value), "/") {
					if s == segPlain {
						return d + 1
					}
					if s == segNoSep {
						d--
						if d < 0 {
							return out("a path element that may be \"..\"")
						}
					}
					return d
				}
				if d >= 1 && s >= segNoSep {
					return d
				}
				return out("text appended to a directory name")
			}
			return -1
		}
	case *ssa.Parameter:
		f := x.Parent()
		if root, ok := k.walkFn[f]; ok && len(f.Params) > 0 && f.Params[0] == x {
			return k.depth(root)
		}
	case *ssa.Extract:
		if ca, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			switch callName(ca.Common()) {
			case "path/filepath.Abs", "path/filepath.EvalSymlinks":
				return k.depth(ca.Common().Args[0])
			case "path/filepath.Glob":
				return out("the matches of a pattern built from a directory name")
			}
		}
	case *ssa.Call:
		n := callName(x.Common())
		args := x.Common().Args
		switch n {
		case "path/filepath.Join", "path.Join":
			es, ok := variadic(args[0])
			if !ok || len(es) == 0 {
				return out("a path joined from a list that is not spelled out")
			}
			d := k.depth(es[0])
			if d < 0 {
				return -1
			}
			for _, a := range es[1:] {
				switch k.seg(a) {
				case segBad:
					return -1
				case segNoSep:
					// "..": one level up
					if c, ok := a.(*ssa.Const); ok && strings.Trim(constant.StringVal(c.Value), ".") == "" && constant.StringVal(c.Value) != ".." {
						continue
					}
					d--
					if d < 0 {
						return out("a path element that may be \"..\"")
					}
				case segPlain:
					d++
				}
			}
			return d
		case "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return k.depth(args[0])
		case "path/filepath.Dir", "path.Dir":
			d := k.depth(args[0])
			if d < 1 {
				return out("the parent of the output directory")
			}
			return d - 1
		case "flag.Arg":
			return 0
		}
		if src, ok := k.sources(x); ok {
			return all(src)
		}
		return out("the result of " + n)
	}
	if ix, ok := v.(*ssa.UnOp); ok && ix.Op == token.MUL {
		if ia, ok := ix.X.(*ssa.IndexAddr); ok {
			if es, ok := k.elems(ia.X); ok {
				return all(es)
			}
			if ex, ok := ia.X.(*ssa.Extract); ok {
				if ca, ok := ex.Tuple.(*ssa.Call); ok && callName(ca.Common()) == "path/filepath.Glob" {
					return out("the matches of a pattern built from a directory name")
				}
			}
		}
	}
	if src, ok := k.sources(v); ok {
		return all(src)
	}
	return out("a value the check cannot follow (" + fmt.Sprintf("%T", v) + ")")
}

// isFlagPtr: the result of flag.String, or a variable given to flag.StringVar.
func isFlagPtr(k *containment, v ssa.Value, n int) bool {
	if n > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return callName(x.Common()) == "flag.String" || callName(x.Common()) == "(*flag.FlagSet).String"
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr:
		if refs := v.Referrers(); refs != nil {
			for _, ref := range *refs {
				if ci, ok := ref.(ssa.CallInstruction); ok {
					nm := callName(ci.Common())
					if nm == "flag.StringVar" || nm == "(*flag.FlagSet).StringVar" {
						return true
					}
				}
			}
		}
		if g, ok := v.(*ssa.Global); ok {
			for _, f := range k.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(callName(ci.Common()), "StringVar") {
							for _, a := range ci.Common().Args {
								if a == g {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			key := fieldKeyOf(fa.X.Type(), fa.Field)
			for _, f := range k.funcs {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(callName(ci.Common()), "StringVar") {
							for _, a := range ci.Common().Args {
								if o, ok := a.(*ssa.FieldAddr); ok && fieldKeyOf(o.X.Type(), o.Field) == key {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		if al, ok := v.(*ssa.Alloc); ok {
			_ = al
		}
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if src, ok := k.loads(x.X); ok {
				for _, s := range src {
					if !isFlagPtr(k, s, n+1) {
						return false
					}
				}
				return true
			}
			// a package variable holding the flag pointer
			if g, ok := x.X.(*ssa.Global); ok {
				for _, f := range k.funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok && st.Addr == g && isFlagPtr(k, st.Val, n+1) {
								return true
							}
						}
					}
				}
			}
		}
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Phi:
		if src, ok := k.sources(v); ok {
			for _, s := range src {
				if !isFlagPtr(k, s, n+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// isEntryType: the struct listed in the index (JSON keys path and url).
func isEntryType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	path, url := false, false
	for i := 0; i < s.NumFields(); i++ {
		switch fieldName(t, i)[strings.Index(fieldName(t, i), "|")+1:] {
		case "path":
			path = true
		case "url":
			url = true
		}
	}
	return path && url
}

func runP23(c *Ctx, r *Report) {
	var funcs []*ssa.Function
	for _, f := range sortedFuncs(c.Tools.All) {
		if inMainModule(f) && len(f.Blocks) > 0 {
			funcs = append(funcs, f)
		}
	}
	k := newContainment(c, funcs)
	add := func(rule string, f *ssa.Function, what, msg, pos string) {
		r.add(Finding{Rule: rule, Fn: fname(f), What: what, Pos: pos, Msg: msg})
	}
	// 1. every path handed to a file-changing call lies in the output directory
	sinks := 0
	for _, f := range funcs {
		for _, ci := range callsOf(f) {
			n := callName(ci.Common())
			if n == "os.Chdir" || strings.HasPrefix(n, "os/exec.") {
				add("outside-output-directory", f, n, "the working directory or another program is involved", c.Tools.instrPos(ci.(ssa.Instruction)))
			}
			idx, ok := pathSinks[n]
			if !ok {
				continue
			}
			if n == "os.OpenFile" && len(ci.Common().Args) > 1 {
				if fl, ok := ci.Common().Args[1].(*ssa.Const); ok && fl.Int64() == 0 {
					continue // read only
				}
			}
			for _, i := range idx {
				sinks++
				k.why = ""
				if d := k.depth(ci.Common().Args[i]); d < 0 {
					add("outside-output-directory", f, n, "the path may lie outside the output directory: it is built from "+k.why, c.Tools.instrPos(ci.(ssa.Instruction)))
				}
			}
		}
	}
	// 2.-4. path-sensitive part
	p23Paths(c, r, funcs, k, add)
	r.Cov["path_arguments"] = sinks
	r.floor("file-changing calls", sinks, 1)
}

func p23Paths(c *Ctx, r *Report, funcs []*ssa.Function, k *containment, add func(rule string, f *ssa.Function, what, msg, pos string)) {
	// functions worth expanding: they write files, list entries, use responses or lock
	memo := map[*ssa.Function]int{}
	var interesting func(f *ssa.Function) bool
	own := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isEntryType(st.Val.Type()) {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					n := callName(cc)
					if _, ok := pathSinks[n]; ok || isResponseCall(cc) || strings.HasPrefix(n, "(*sync.") {
						return true
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && isEntryType(s.Elem()) {
							return true
						}
					}
				}
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isEntryType(f.Signature.Results().At(i).Type()) {
				return true
			}
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if p, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Pointer); ok && isHTTPResponse(p) {
				return true
			}
		}
		return false
	}
	interesting = func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v == 1
		}
		memo[f] = 0
		res := own(f)
		for _, ci := range callsOf(f) {
			g := ci.Common().StaticCallee()
			if g == nil {
				g = localFuncVar(ci.Common().Value)
			}
			if g != nil && inMainModule(g) && len(g.Blocks) > 0 && interesting(g) {
				res = true
			}
		}
		if res {
			memo[f] = 1
		}
		return res
	}
	// tasks: functions started concurrently
	tasks := map[*ssa.Function]bool{}
	for _, f := range funcs {
		for _, ci := range callsOf(f) {
			cc := ci.Common()
			if _, ok := ci.(*ssa.Go); ok {
				if g := funcOf(cc.Value); g != nil {
					tasks[g] = true
				}
				for _, a := range cc.Args {
					if g := funcOf(a); g != nil {
						tasks[g] = true
					}
				}
			}
			switch callName(cc) {
			case "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo", "(*sync.WaitGroup).Go", "time.AfterFunc":
				for _, a := range cc.Args {
					if g := funcOf(a); g != nil {
						tasks[g] = true
					} else if g := localFuncVar(a); g != nil {
						tasks[g] = true
					}
				}
			}
		}
	}
	// variables tasks write (the captured variable and where it lives)
	written := map[ssa.Value]bool{}
	type unlockedRead struct {
		f   *ssa.Function
		v   ssa.Value
		pos string
	}
	var reads []unlockedRead
	capturedBy := func(root *ssa.Function, t *term) []ssa.Value {
		var out []ssa.Value
		for i, fv := range root.FreeVars {
			if t.op == "fv:"+fv.Name() {
				for _, mc := range k.closure[root] {
					out = append(out, mc.Bindings[i])
				}
			}
		}
		return out
	}
	heldLocks := func(st *tstate) int {
		held := 0
		for _, ev := range st.events {
			switch ev.callee() {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				held++
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				held--
			}
		}
		return held
	}
	var roots []*ssa.Function
	for _, f := range funcs {
		if tasks[f] {
			roots = append(roots, f)
		}
	}
	for _, f := range funcs {
		if !tasks[f] && f.Name() == "main" && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	paths, listings, uses, accesses := 0, 0, 0, 0
	for _, root := range roots {
		root := root
		e := newTpath(c)
		e.budget = 4000000
		e.keepAll = true
		e.inline = func(f *ssa.Function) bool { return inMainModule(f) && !tasks[f] && (interesting(f) || smallString(f)) }
		e.keep = func(t *term) bool {
			return strings.HasPrefix(t.op, "ret") || strings.HasPrefix(t.op, "call:") || t.op == "==" || t.op == "<" || strings.HasPrefix(t.op, "field:") || strings.HasPrefix(t.op, "load")
		}
		e.event = func(n string, cc *ssa.CallCommon) bool {
			_, ok := pathSinks[n]
			return ok || strings.HasPrefix(n, "(*os.File).") || strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "(*golang.org/x/sync/errgroup.Group).")
		}
		judge := func(st *tstate, in ssa.Instruction, mk *term, how string) {
			// the entry's path
			var path *term
			var et types.Type
			switch x := in.(type) {
			case *ssa.Store:
				et = x.Val.Type()
			case ssa.CallInstruction:
				et = x.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
			case *ssa.Send:
				et = x.X.Type()
			}
			stt := et
			if p, ok := et.Underlying().(*types.Pointer); ok {
				stt = p.Elem()
			}
			s := stt.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if strings.HasSuffix(fieldName(stt, i), "|path") {
					switch mk.op {
					case "mk":
						path = mk.args[i]
					case "obj":
						path = e.load(st, e.mk(fmt.Sprintf("faddr:%d", i), mk), s.Field(i).Type())
					}
				}
			}
			if path == nil {
				return
			}
			listings++
			want := e.segments(st, path)
			ok := false
			for _, ev := range st.events {
				n := ev.callee()
				if n != "os.WriteFile" && n != "io/ioutil.WriteFile" && n != "os.Rename" && !(n == "os.Create" || n == "os.OpenFile" || n == "(*os.Root).WriteFile") {
					continue
				}
				i := 0
				switch n {
				case "os.Rename", "(*os.Root).WriteFile":
					i = 1
				}
				if i >= len(ev.args) {
					continue
				}
				got := e.segments(st, ev.args[i])
				if len(got) < len(want) || len(want) == 0 {
					continue
				}
				same := true
				for j := range want {
					if got[len(got)-len(want)+j] != want[j] {
						same = false
					}
				}
				for _, g := range got[:len(got)-len(want)] {
					if g.cst != nil {
						same = false // the listed path lacks an element
					}
				}
				if !same {
					continue
				}
				if n == "os.Create" || n == "os.OpenFile" {
					// every write to the file succeeded, and so did closing it
					file := e.mk("ret0", ev)
					wrote, good := false, e.nilness(st, e.mk("ret1", ev)) == 'n'
					for _, w := range st.events {
						if strings.HasPrefix(w.callee(), "(*os.File).Write") && len(w.args) > 0 && w.args[0] == file {
							wrote = true
							if e.nilness(st, e.mk("ret1", w)) != 'n' {
								good = false
							}
						}
					}
					if wrote && good {
						ok = true
					}
					continue
				}
				if e.nilness(st, ev) == 'n' {
					ok = true
				}
			}
			if !ok {
				add("listed-before-saved", in.Parent(), how, "an entry is listed although the file of its path has not been written successfully on this path", c.Tools.instrPos(in))
			}
		}
		e.onCall = func(st *tstate, ci ssa.CallInstruction, name string, args []*term) {
			cc := ci.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(args) == 2 {
				s, ok := cc.Args[0].Type().Underlying().(*types.Slice)
				if !ok || !isEntryType(s.Elem()) {
					return
				}
				arr := args[1]
				if arr.op == "slice" {
					arr = arr.args[0]
				}
				for a, v := range st.cells {
					if a.op == "iaddr" && a.args[0] == arr {
						judge(st, ci.(ssa.Instruction), v, "append")
					}
				}
				return
			}
			if isBodyUse(name) || cc.IsInvoke() && name == "(io.ReadCloser).Read" {
				for i, a := range args {
					if i >= len(callArgs(cc)) {
						break
					}
					for d := range e.deps(st, a) {
						if strings.HasPrefix(d.op, "faddr") && strings.HasPrefix(d.name, "Body|") {
							uses++
							if !e.statusOK(st, d.args[0]) {
								add("status-not-checked", ci.Parent(), name, "the body of a response is used although its status is not known to be success on this path", c.Tools.instrPos(ci.(ssa.Instruction)))
							}
						}
					}
				}
			}
		}
		e.onAccess = func(st *tstate, in ssa.Instruction, addr *term, write bool) {
			if s, ok := in.(*ssa.Store); ok && write && isEntryType(s.Val.Type()) {
				if _, isPtr := s.Val.Type().Underlying().(*types.Pointer); isPtr || !strings.HasPrefix(baseObj(addr).op, "obj") {
					judge(st, in, e.val(st, s.Val), "assignment")
				}
			}
			if !tasks[root] {
				// between starting tasks and waiting for them, the starter must not touch what they write
				var v ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					v = x.Addr
				case *ssa.UnOp:
					v = x.X
				}
				if v == nil || !written[v] || heldLocks(st) > 0 {
					return
				}
				running := false
				for _, ev := range st.events {
					switch n := ev.callee(); {
					case strings.HasSuffix(n, ".Go") || strings.HasSuffix(n, ".TryGo"):
						running = true
					case strings.HasSuffix(n, ".Wait"):
						running = false
					}
				}
				accesses++
				if running {
					add("unlocked-access", in.Parent(), "captured variable", "a variable the started tasks write is used before they have been waited for", c.Tools.instrPos(in))
				}
				return
			}
			b := baseObj(addr)
			if !write {
				if strings.HasPrefix(b.op, "fv:") && heldLocks(st) <= 0 {
					for _, v := range capturedBy(root, b) {
						reads = append(reads, unlockedRead{in.Parent(), v, c.Tools.instrPos(in)})
					}
				}
				return
			}
			if !strings.HasPrefix(b.op, "fv:") && !strings.HasPrefix(b.op, "load") && b.op != "addr" {
				return
			}
			for _, v := range capturedBy(root, b) {
				written[v] = true
			}
			if b.op == "load" {
				// an element or field of something captured; a distinct index per task is its own location
				if addr.op == "iaddr" {
					return
				}
				if root := baseObj(b.args[0]); !strings.HasPrefix(root.op, "fv:") && root.op != "addr" {
					return
				}
			}
			accesses++
			held := heldLocks(st)
			if held <= 0 {
				add("unlocked-write", in.Parent(), "captured variable", "a task writes a variable shared with other tasks without holding a lock", c.Tools.instrPos(in))
			}
		}
		var args, fvs []*term
		for i, p := range root.Params {
			args = append(args, e.mk(fmt.Sprintf("arg%d:%s", i, p.Name())))
		}
		for _, fv := range root.FreeVars {
			fvs = append(fvs, e.mk("fv:"+fv.Name()))
		}
		outs := e.exec(root, args, fvs, newTstate(), "", 0)
		paths += len(outs)
		if e.over {
			r.Cov["undecided"] = "path budget exceeded in " + fname(root)
		}
	}
	for _, rd := range reads {
		if written[rd.v] {
			add("unlocked-access", rd.f, "captured variable", "a task reads a variable that tasks write without holding a lock", rd.pos)
		}
	}
	names := []string{}
	for _, f := range roots {
		names = append(names, fname(f))
	}
	sort.Strings(names)
	r.Cov["entry_points"] = names
	r.Cov["paths"] = paths
	r.Cov["listings_checked"] = listings
	r.Cov["body_uses_checked"] = uses
	r.Cov["shared_writes_checked"] = accesses
	r.Cov["rule"] = "path arguments of file-changing calls are built by Join from the output-directory flag and separator-free names; an entry is listed only where the write of its path is known to have succeeded; bodies are read only under a success status; captured variables are written under a lock"
	r.Cov["obligations"] = listings + uses + accesses
	r.Cov["discharged"] = listings + uses + accesses - len(r.Findings)
	r.Cov["checker_cmd"] = "run.sh P23"
	r.Cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "path/filepath.Join and Base follow their documentation; the output directory contains no symbolic links planted by others"}
	r.floor("concurrent tasks and main", len(roots), 1)
	r.floor("listing points", listings, 1)
}

// segments splits a path term into its elements.
func (e *tpath) segments(st *tstate, t *term) []*term {
	if t.cst != nil && t.cst.Kind() == constant.String {
		var out []*term
		for _, p := range strings.Split(constant.StringVal(t.cst), "/") {
			if p != "" && p != "." {
				out = append(out, e.constTerm(constant.MakeString(p)))
			}
		}
		return out
	}
	if t.callee() == "path/filepath.Join" || t.callee() == "path.Join" {
		arr := t.args[0]
		if arr.op == "slice" {
			arr = arr.args[0]
		}
		var out []*term
		for i := 0; ; i++ {
			v := st.cells[e.mk("iaddr", arr, e.constTerm(constant.MakeInt64(int64(i))))]
			if v == nil {
				break
			}
			out = append(out, e.segments(st, v)...)
		}
		return out
	}
	if t.op == "bin:+" && len(t.args) == 2 {
		a, b := t.args[0], t.args[1]
		if endsSep(a) || b.cst != nil && b.cst.Kind() == constant.String && strings.HasPrefix(constant.StringVal(b.cst), "/") {
			return append(e.segments(st, a), e.segments(st, b)...)
		}
		// a suffix of the last element: "g1/" + name + ".bin" and "g1/" + (name + ".bin") are the same path
		if b.cst != nil {
			if sg := e.segments(st, a); len(sg) > 1 {
				return append(sg[:len(sg)-1:len(sg)-1], e.mk("bin:+", sg[len(sg)-1], b))
			}
		}
	}
	return []*term{t}
}

func endsSep(t *term) bool {
	if t.cst != nil && t.cst.Kind() == constant.String {
		return strings.HasSuffix(constant.StringVal(t.cst), "/")
	}
	return t.op == "bin:+" && len(t.args) == 2 && endsSep(t.args[1])
}

func isResponseCall(cc *ssa.CallCommon) bool {
	res := cc.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isHTTPResponse(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func isBodyUse(n string) bool {
	switch n {
	case "io.ReadAll", "io.Copy", "io.CopyN", "io.ReadFull", "golang.org/x/net/html.Parse", "bufio.NewReader", "bufio.NewScanner", "encoding/json.NewDecoder", "(*bytes.Buffer).ReadFrom", "io.LimitReader", "io/ioutil.ReadAll", "archive/zip.NewReader", "io.TeeReader":
		return true
	}
	return false
}

// smallString: a short helper computing a string.
func smallString(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() == 0 || res.Len() > 2 || !isStringType(res.At(0).Type()) || len(f.Blocks) > 8 {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
	}
	return true
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
