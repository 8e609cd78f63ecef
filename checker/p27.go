package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P27"] = check{level: "other", run: runText} }

// P27: every text put in a message is valid UTF-8.
//
// The places are the setters of string fields of messages and the stores to fields of
// builders. What is set is traced back through the operations that make it, to
// constants, to library calls that return valid text whatever they are given, and to
// bytes of the input. Bytes of the input that reach a field without one of the former
// are a finding; what cannot be decided is listed, and counts for nothing.

type textKind int

const (
	tAny     textKind = iota // still being looked at: an assumption of a cycle
	tASCII                   // valid, and a part of it is valid too
	tValid                   // valid UTF-8
	tUnknown                 // not decided
	tRaw                     // bytes of the input, as they are
)

type texts struct {
	c       *Ctx
	memo    map[ssa.Value]textKind
	prev    map[ssa.Value]textKind // of the round before: what a cycle starts from
	callers map[*ssa.Function][]*ssa.CallCommon
	assume  ssa.Value // a text known to be valid where the question is asked
	depth   int
}

func worse(a, b textKind) textKind {
	if b > a {
		return b
	}
	return a
}

// literal: what a constant text is.
func literal(s string) textKind {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			if utf8.ValidString(s) {
				return tValid
			}
			return tRaw
		}
	}
	return tASCII
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// of returns what the text v (a string or a slice of bytes) is where it is made; the
// branches that test it are looked at by at.
func (k *texts) of(v ssa.Value) textKind {
	if t, ok := k.memo[v]; ok {
		return t
	}
	if k.assume != nil && origin(v) == k.assume {
		return tValid
	}
	if k.depth > 200 {
		return tUnknown
	}
	k.depth++
	k.memo[v] = k.prev[v]
	t := k.eval(v)
	k.depth--
	k.memo[v] = t
	return t
}

func (k *texts) eval(v ssa.Value) textKind {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return tASCII
		}
		if v.Value.Kind() == constant.String {
			return literal(constant.StringVal(v.Value))
		}
		return tUnknown
	case *ssa.ChangeType:
		return k.at(v.X, v.Block())
	case *ssa.Convert:
		from := v.X.Type().Underlying()
		if b, ok := from.(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				return k.at(v.X, v.Block())
			}
			return tValid // a rune
		}
		if isByteSlice(from) {
			return k.at(v.X, v.Block())
		}
		if s, ok := from.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return tValid
			}
		}
		return tUnknown
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return worse(k.at(v.X, v.Block()), k.at(v.Y, v.Block()))
		}
		return tUnknown
	case *ssa.Phi:
		t := tAny
		for i, e := range v.Edges {
			t = worse(t, k.edge(e, v.Block().Preds[i], v.Block()))
		}
		return t
	case *ssa.Slice:
		return k.slice(v)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return k.call(c, v.Index)
		}
		return tUnknown
	case *ssa.Call:
		return k.call(v, 0)
	case *ssa.Parameter:
		return k.param(v)
	case *ssa.FreeVar:
		return k.free(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return k.load(v)
		}
	case *ssa.Alloc:
		if p, ok := v.Type().Underlying().(*types.Pointer); ok && isString(p.Elem()) {
			return k.stored(v, 0)
		}
	case *ssa.MakeSlice:
		// what is written into it is not followed
		return tUnknown
	}
	return tUnknown
}

// at: what v is in a block, given the tests that lead there.
func (k *texts) at(v ssa.Value, b *ssa.BasicBlock) textKind {
	t := k.of(v)
	if t < tUnknown || b == nil {
		return t
	}
	for d := b; d != nil; d = d.Idom() {
		i := d.Idom()
		if i == nil || len(d.Preds) != 1 || d.Preds[0] != i {
			continue
		}
		if g := k.guard(i, d, v); g != tRaw {
			t = g
			if g < tUnknown {
				return g
			}
		}
	}
	return t
}

// edge: what v is when control passes from one block to another.
func (k *texts) edge(v ssa.Value, from, to *ssa.BasicBlock) textKind {
	if br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
		if q, ok := br.Cond.(*ssa.Const); ok && q.Value != nil && constant.BoolVal(q.Value) != (from.Succs[0] == to) && from.Succs[0] != from.Succs[1] {
			return tAny // never taken
		}
	}
	t := k.at(v, from)
	if t < tUnknown {
		return t
	}
	if g := k.guard(from, to, v); g != tRaw {
		return g
	}
	return t
}

// guard: what the branch at the end of a block says about v. tRaw if it says nothing.
func (k *texts) guard(from, to *ssa.BasicBlock, v ssa.Value) textKind {
	br, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return tRaw
	}
	return k.cond(br.Cond, from.Succs[0] == to, v, 0)
}

func (k *texts) cond(c ssa.Value, holds bool, v ssa.Value, depth int) textKind {
	if depth > 8 {
		return tUnknown
	}
	switch c := c.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return k.cond(c.X, !holds, v, depth+1)
		}
	case *ssa.BinOp:
		// a text equal to a valid one
		if (c.Op == token.EQL) == holds && (c.Op == token.EQL || c.Op == token.NEQ) && isString(c.X.Type()) {
			for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if same(p[0], v) {
					if t := k.of(p[1]); t < tUnknown {
						return t
					}
				}
			}
		}
		// len(v) == 0
		if b, ok := c.X.(*ssa.Call); ok && (c.Op == token.EQL) == holds && (c.Op == token.EQL || c.Op == token.NEQ) {
			if bi, ok := b.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && same(b.Call.Args[0], v) {
				if n, ok := c.Y.(*ssa.Const); ok && n.Value != nil && n.Int64() == 0 {
					return tASCII
				}
			}
			return tRaw
		}
	case *ssa.Phi:
		// a && b, a || b: the edges that can bring the value it has
		t := tAny
		for i, e := range c.Edges {
			if q, ok := e.(*ssa.Const); ok && q.Value != nil && q.Value.Kind() == constant.Bool {
				if constant.BoolVal(q.Value) != holds {
					continue
				}
				t = worse(t, k.guard(c.Block().Preds[i], c.Block(), v))
				continue
			}
			g := k.cond(e, holds, v, depth+1)
			if g >= tUnknown {
				if g2 := k.guard(c.Block().Preds[i], c.Block(), v); g2 < g {
					g = g2
				}
			}
			t = worse(t, g)
		}
		if t != tAny {
			return t
		}
		return tUnknown
	case *ssa.Call:
		f := c.Call.StaticCallee()
		if f == nil {
			return k.mentions(c, v)
		}
		name := f.String()
		if name == "unicode/utf8.ValidString" || name == "unicode/utf8.Valid" {
			if !holds {
				return tRaw
			}
			if same(c.Call.Args[0], v) {
				return tValid
			}
			// what v is made of
			if k.assume != nil {
				return tRaw
			}
			sub := &texts{c: k.c, memo: map[ssa.Value]textKind{}, callers: k.callers, assume: origin(c.Call.Args[0]), depth: k.depth}
			return sub.of(v)
		}
		// a predicate of the repository that tests its parameter
		for i, a := range c.Call.Args {
			if same(a, v) {
				if isRepoFunc(f) && len(f.Blocks) > 0 && i < len(f.Params) {
					return k.predicate(f, f.Params[i], holds, depth+1)
				}
				return tUnknown
			}
		}
	}
	return tRaw
}

// mentions: a call that is not known, and may test v.
func (k *texts) mentions(c *ssa.Call, v ssa.Value) textKind {
	for _, a := range c.Call.Args {
		if same(a, v) {
			return tUnknown
		}
	}
	return tRaw
}

// predicate: what a function says about a parameter when it returns the given value.
func (k *texts) predicate(f *ssa.Function, p ssa.Value, holds bool, depth int) textKind {
	t := tAny
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 {
			continue
		}
		res := ret.Results[0]
		g := tRaw
		if q, ok := res.(*ssa.Const); ok && q.Value != nil && q.Value.Kind() == constant.Bool {
			if constant.BoolVal(q.Value) != holds {
				continue
			}
		} else {
			g = k.cond(res, holds, p, depth+1)
		}
		if g >= tUnknown {
			for d := b; d != nil; d = d.Idom() {
				i := d.Idom()
				if i == nil || len(d.Preds) != 1 || d.Preds[0] != i {
					continue
				}
				if g2 := k.guard(i, d, p); g2 < tUnknown {
					g = g2
				}
			}
		}
		if g == tRaw {
			g = tUnknown // a loop over the bytes, say
		}
		t = worse(t, g)
	}
	if t == tAny {
		return tUnknown
	}
	return t
}

// same: two values are the same text; conversions between string and bytes keep it.
func same(a, b ssa.Value) bool {
	return origin(a) == origin(b)
}

func origin(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			_, basic := x.X.Type().Underlying().(*types.Basic)
			if isString(x.X.Type()) && isByteSlice(x.Type()) || !basic && isByteSlice(x.X.Type()) && isString(x.Type()) {
				v = x.X
				continue
			}
			return v
		default:
			return v
		}
	}
}

// slice: a part of a text.
func (k *texts) slice(v *ssa.Slice) textKind {
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			return k.array(v.X)
		}
		return tUnknown
	}
	t := k.at(v.X, v.Block())
	if t != tValid {
		return t
	}
	for _, b := range []ssa.Value{v.Low, v.High} {
		if b == nil || k.boundary(b, v.X) {
			continue
		}
		if k.looked(v.X, v.Block()) {
			return tUnknown
		}
		if blind(b, 0) {
			return tRaw // may fall inside a character
		}
		return tUnknown
	}
	return t
}

// blind: an offset made of constants, lengths and parameters alone.
func blind(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter:
		return true
	case *ssa.Convert:
		return depth < 5 && blind(x.X, depth+1)
	case *ssa.BinOp:
		return depth < 5 && blind(x.X, depth+1) && blind(x.Y, depth+1)
	case *ssa.Call:
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok {
			return false
		}
		if bi.Name() == "len" {
			return true
		}
		for _, a := range x.Call.Args {
			if depth >= 5 || !blind(a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// looked: a test of what s holds leads to a block.
func (k *texts) looked(s ssa.Value, b *ssa.BasicBlock) bool {
	var holds func(v ssa.Value, depth int) bool
	holds = func(v ssa.Value, depth int) bool {
		if depth > 5 {
			return false
		}
		if same(v, s) {
			return true
		}
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return false
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if *o != nil && holds(*o, depth+1) {
					return true
				}
			}
		}
		return false
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		if br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && holds(br.Cond, 0) {
			return true
		}
	}
	return false
}

// boundary: an offset that does not fall inside a character of s.
func (k *texts) boundary(b, s ssa.Value) bool {
	switch x := b.(type) {
	case *ssa.Const:
		return x.Value != nil && x.Int64() == 0
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return same(x.Call.Args[0], s)
		}
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
				return same(x.Call.Args[0], s) && k.of(x.Call.Args[1]) < tUnknown
			case "strings.IndexByte", "strings.LastIndexByte", "bytes.IndexByte", "bytes.LastIndexByte":
				c, ok := x.Call.Args[1].(*ssa.Const)
				return same(x.Call.Args[0], s) && ok && c.Int64() < utf8.RuneSelf
			case "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc":
				return same(x.Call.Args[0], s)
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
			r, ok := nx.Iter.(*ssa.Range)
			return ok && same(r.X, s)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != b && !k.boundary(e, s) {
				return false
			}
		}
		return true
	}
	return false
}

// validFuncs return valid text whatever they are given.
var validFuncs = map[string]textKind{
	"strings.Map": tValid, "bytes.Map": tValid,
	"fmt.Sprint":   tUnknown,
	"strconv.Itoa": tASCII, "strconv.FormatInt": tASCII, "strconv.FormatUint": tASCII, "strconv.FormatBool": tASCII,
	"strconv.FormatFloat": tASCII, "strconv.Quote": tValid, "strconv.QuoteToASCII": tASCII,
	"encoding/hex.EncodeToString": tASCII, "encoding/hex.Dump": tASCII,
	"(*encoding/base64.Encoding).EncodeToString": tASCII,
	"(*encoding/base32.Encoding).EncodeToString": tASCII,
	"(encoding/asn1.ObjectIdentifier).String":    tASCII,
	"(time.Time).String":                         tUnknown,
	"(*math/big.Int).String":                     tASCII, "(*math/big.Int).Text": tASCII,
	"(time.Duration).String": tValid,
}

// keepFuncs return a part of their first argument that begins and ends at a character,
// when that is valid.
var keepFuncs = map[string]bool{
	"Trim": true, "TrimLeft": true, "TrimRight": true, "TrimSpace": true, "TrimFunc": true, "TrimLeftFunc": true, "TrimRightFunc": true,
	"Clone": true, "ToUpper": true, "ToLower": true, "ToTitle": true, "Title": true, "Repeat": true,
}

// bothFuncs: the text is made of all text arguments.
var bothFuncs = map[string]bool{
	"TrimPrefix": true, "TrimSuffix": true, "CutPrefix": true, "CutSuffix": true, "Cut": true,
	"Replace": true, "ReplaceAll": true,
}

func (k *texts) call(c *ssa.Call, idx int) textKind {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(cc.Args) == 2 {
			return worse(k.at(cc.Args[0], c.Block()), k.at(cc.Args[1], c.Block()))
		}
		return tUnknown
	}
	f := cc.StaticCallee()
	if f == nil {
		return tUnknown
	}
	if kind, _, _ := protoMethod(cc); kind == "Get" {
		if isString(c.Type()) {
			return tValid // what the setters put there
		}
		if isByteSlice(c.Type()) {
			return tRaw
		}
		return tUnknown
	}
	name := f.String()
	if t, ok := validFuncs[name]; ok {
		return t
	}
	pkg := funcPkg(f)
	path := ""
	if pkg != nil {
		path = pkg.Path()
	}
	arg := func(i int) textKind {
		if i >= len(cc.Args) {
			return tUnknown
		}
		return k.at(cc.Args[i], c.Block())
	}
	switch {
	case path == "strings" || path == "bytes" || path == "slices":
		if f.Signature.Recv() != nil {
			if f.Name() == "String" || f.Name() == "Bytes" {
				return k.builder(cc.Args[0])
			}
			return tUnknown
		}
		n := f.Name()
		if o := f.Origin(); o != nil {
			n = o.Name()
		}
		switch {
		case n == "ToValidUTF8":
			if t := arg(1); t >= tUnknown {
				return t
			}
			return tValid
		case keepFuncs[n]:
			return arg(0)
		case bothFuncs[n]:
			t := arg(0)
			// a valid text cut at a valid one
			for i := 1; i < len(cc.Args); i++ {
				if isString(cc.Args[i].Type()) || isByteSlice(cc.Args[i].Type()) {
					if u := arg(i); u >= tUnknown && t < tUnknown {
						t = tUnknown
					}
				}
			}
			if t == tASCII && (n == "Replace" || n == "ReplaceAll") {
				t = tValid
			}
			return t
		case n == "Join":
			return tUnknown
		}
		return tUnknown
	case path == "golang.org/x/text/encoding" && (f.Name() == "String" || f.Name() == "Bytes") && strings.Contains(name, "Decoder"):
		if k.decoderOfNop(cc.Args[0], 0) {
			return arg(1)
		}
		return tValid
	case path == "fmt" && (f.Name() == "Sprintf" || f.Name() == "Appendf"):
		return k.sprintf(cc)
	case path == "strconv" && strings.HasPrefix(f.Name(), "Append"):
		return arg(0)
	case path == "google.golang.org/protobuf/proto" && f.Name() == "String":
		return arg(0)
	case path == "os" && f.Name() == "ReadFile" || path == "io" && f.Name() == "ReadAll":
		return tRaw
	}
	if isRepoFunc(f) && len(f.Blocks) > 0 {
		t := tAny
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			// what is returned with an error is not used
			if n := len(ret.Results); n > 1 && isErrorType(ret.Results[n-1].Type()) {
				if q, ok := ret.Results[n-1].(*ssa.Const); !ok || !q.IsNil() {
					if _, ok := ret.Results[idx].(*ssa.Const); ok {
						continue
					}
				}
			}
			t = worse(t, k.at(ret.Results[idx], b))
		}
		return t
	}
	return tUnknown
}

// decoderOfNop: a decoder that leaves the bytes as they are.
func (k *texts) decoderOfNop(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return k.decoderOfNop(x.Call.Value, depth+1)
		}
		if len(x.Call.Args) > 0 {
			return k.decoderOfNop(x.Call.Args[0], depth+1)
		}
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		return ok && g.Pkg.Pkg.Path() == "golang.org/x/text/encoding" && g.Name() == "Nop"
	case *ssa.MakeInterface:
		return k.decoderOfNop(x.X, depth+1)
	}
	return false
}

// sprintf: a format that is constant, over numbers and valid text.
func (k *texts) sprintf(cc *ssa.CallCommon) textKind {
	i := 0
	if !isString(cc.Args[0].Type()) {
		i = 1
	}
	q, ok := cc.Args[i].(*ssa.Const)
	if !ok || q.Value == nil {
		return tUnknown
	}
	t := literal(constant.StringVal(q.Value))
	if strings.Contains(constant.StringVal(q.Value), "%") {
		args, ok := varargs(cc.Args[i+1])
		if !ok {
			return tUnknown
		}
		var verbs []byte
		f := constant.StringVal(q.Value)
		for j := 0; j < len(f); j++ {
			if f[j] != '%' {
				continue
			}
			for j++; j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0; j++ {
			}
			if j < len(f) && f[j] != '%' {
				verbs = append(verbs, f[j])
			}
		}
		if len(verbs) != len(args) {
			return tUnknown
		}
		for j, a := range args {
			if strings.IndexByte("dxXobtqT", verbs[j]) >= 0 {
				if verbs[j] == 'q' {
					t = worse(t, tValid)
				}
				continue
			}
			m, ok := a.(*ssa.MakeInterface)
			if !ok {
				return tUnknown
			}
			if b, ok := m.X.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
				t = worse(t, tValid)
				continue
			}
			if types.NewMethodSet(m.X.Type()).Lookup(nil, "String") != nil {
				return tUnknown
			}
			if isString(m.X.Type()) || isByteSlice(m.X.Type()) && verbs[j] == 's' {
				t = worse(t, k.at(m.X, m.Block()))
				continue
			}
			return tUnknown
		}
	}
	return t
}

// varargs lists what the compiler puts in the slice of a variadic call.
func varargs(v ssa.Value) ([]ssa.Value, bool) {
	if q, ok := v.(*ssa.Const); ok && q.IsNil() {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return nil, false
	}
	arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *a.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		q, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				out[q.Int64()] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// builder: what is written into a strings.Builder or bytes.Buffer of the function.
func (k *texts) builder(p ssa.Value) textKind {
	a, ok := p.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return tUnknown
	}
	t := tASCII
	for _, ref := range *a.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			return tUnknown
		}
		f := c.Call.StaticCallee()
		if f == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != p {
			return tUnknown
		}
		switch f.Name() {
		case "WriteString", "Write":
			t = worse(t, k.at(c.Call.Args[1], c.Block()))
		case "WriteRune":
			t = worse(t, tValid)
		case "WriteByte":
			if q, ok := c.Call.Args[1].(*ssa.Const); !ok || q.Int64() >= utf8.RuneSelf {
				t = worse(t, k.octet(c.Call.Args[1], c.Block()))
			}
		case "String", "Bytes", "Len", "Cap", "Grow", "Reset":
		default:
			return tUnknown
		}
	}
	return t
}

// octet: a byte written by itself; only a test that it is below 0x80 makes it valid.
func (k *texts) octet(v ssa.Value, b *ssa.BasicBlock) textKind {
	for d := b; d != nil; d = d.Idom() {
		i := d.Idom()
		if i == nil {
			break
		}
		if br, ok := i.Instrs[len(i.Instrs)-1].(*ssa.If); ok {
			if c, ok := br.Cond.(*ssa.BinOp); ok && (c.X == v || c.Y == v) {
				return tUnknown // tested: what that is worth is not worked out
			}
		}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) {
			return k.at(ia.X, ia.Block())
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return k.at(x.X, x.Block())
		}
	}
	return tUnknown
}

// array: the elements stored into an array of bytes of the function.
func (k *texts) array(p ssa.Value) textKind {
	a, ok := p.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return tUnknown
	}
	t := tASCII
	for _, ref := range *a.Referrers() {
		switch r := ref.(type) {
		case *ssa.IndexAddr:
			if r.Referrers() == nil {
				continue
			}
			for _, s := range *r.Referrers() {
				switch s := s.(type) {
				case *ssa.Store:
					q, ok := s.Val.(*ssa.Const)
					if !ok || q.Value == nil || q.Int64() >= utf8.RuneSelf || q.Int64() < 0 {
						t = worse(t, k.octet(s.Val, s.Block()))
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return tUnknown
				}
			}
		case *ssa.Slice:
			if r.Referrers() == nil {
				continue
			}
			for _, s := range *r.Referrers() {
				switch s := s.(type) {
				case *ssa.Convert, *ssa.DebugRef:
				case *ssa.Call:
					if b, ok := s.Call.Value.(*ssa.Builtin); ok {
						if b.Name() == "copy" && s.Call.Args[0] == r {
							t = worse(t, k.at(s.Call.Args[1], s.Block()))
						}
						continue
					}
					return tUnknown
				default:
					return tUnknown
				}
			}
		case *ssa.DebugRef:
		default:
			return tUnknown
		}
	}
	return t
}

// param: the arguments of all calls of the function.
func (k *texts) param(p *ssa.Parameter) textKind {
	f := p.Parent()
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	calls := k.callers[f]
	exported := f.Object() != nil && f.Object().Exported()
	if len(calls) == 0 || exported && isByteSlice(p.Type()) {
		if isByteSlice(p.Type()) {
			return tRaw
		}
		return tUnknown
	}
	t := tAny
	for _, cc := range calls {
		if idx >= len(cc.Args) {
			return tUnknown
		}
		var b *ssa.BasicBlock
		for _, in := range k.blockOf(cc) {
			b = in
		}
		t = worse(t, k.at(cc.Args[idx], b))
	}
	return t
}

func (k *texts) blockOf(cc *ssa.CallCommon) []*ssa.BasicBlock {
	if b, ok := k.c.memo["p27 block"].(map[*ssa.CallCommon]*ssa.BasicBlock)[cc]; ok {
		return []*ssa.BasicBlock{b}
	}
	return nil
}

// free: what is bound where the closure is made.
func (k *texts) free(v *ssa.FreeVar) textKind {
	f := v.Parent()
	idx := -1
	for i, q := range f.FreeVars {
		if q == v {
			idx = i
		}
	}
	t := tAny
	found := false
	if f.Parent() != nil {
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f && idx >= 0 && idx < len(m.Bindings) {
					found = true
					t = worse(t, k.of(m.Bindings[idx]))
				}
			}
		}
	}
	if !found {
		return tUnknown
	}
	return t
}

// load: what was stored in a variable.
func (k *texts) load(v *ssa.UnOp) textKind {
	return k.stored(v.X, 0)
}

func (k *texts) stored(p ssa.Value, depth int) textKind {
	if depth > 4 {
		return tUnknown
	}
	t := tAny
	found := false
	switch x := p.(type) {
	case *ssa.Alloc:
		if x.Referrers() == nil {
			return tUnknown
		}
		for _, ref := range *x.Referrers() {
			switch s := ref.(type) {
			case *ssa.Store:
				if s.Addr == p {
					found = true
					t = worse(t, k.at(s.Val, s.Block()))
				} else {
					return tUnknown
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range s.Bindings {
					if b != p {
						continue
					}
					fn := s.Fn.(*ssa.Function)
					if k.writes(fn.FreeVars[i]) {
						u := k.storedIn(fn.FreeVars[i])
						found = true
						t = worse(t, u)
					}
				}
			default:
				return tUnknown
			}
		}
		if !found {
			return tASCII // never assigned: empty
		}
		return t
	case *ssa.FreeVar:
		f := x.Parent()
		if f.Parent() == nil {
			return tUnknown
		}
		for i, q := range f.FreeVars {
			if q != x {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
						found = true
						t = worse(t, k.stored(m.Bindings[i], depth+1))
					}
				}
			}
		}
		if found {
			return t
		}
	case *ssa.FieldAddr:
		// a field of what a library decoded: asn1.RawValue
		n := namedOf(x.X.Type())
		if n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "encoding/") {
			if st, ok := n.Underlying().(*types.Struct); ok && isByteSlice(st.Field(x.Field).Type()) {
				return tRaw
			}
		}
		return tUnknown
	case *ssa.IndexAddr:
		return k.table(x.X)
	case *ssa.Global:
		return k.table(x)
	}
	return tUnknown
}

func (k *texts) writes(v *ssa.FreeVar) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch s := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			return true
		default:
			_ = s
			return true
		}
	}
	return false
}

func (k *texts) storedIn(v *ssa.FreeVar) textKind {
	t := tAny
	for _, ref := range *v.Referrers() {
		switch s := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if s.Addr != v {
				return tUnknown
			}
			t = worse(t, k.at(s.Val, s.Block()))
		default:
			return tUnknown
		}
	}
	return t
}

// table: the texts of a package-level variable, set in its initialisation alone.
func (k *texts) table(p ssa.Value) textKind {
	if u, ok := p.(*ssa.UnOp); ok {
		p = u.X
	}
	g, ok := p.(*ssa.Global)
	if !ok {
		return tUnknown
	}
	t := tAny
	for _, f := range sortedFuncs(k.c.P.All) {
		if funcPkg(f) != g.Pkg.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				if ia, ok := a.(*ssa.IndexAddr); ok {
					a = ia.X
				}
				if a != ssa.Value(g) {
					continue
				}
				if !isString(s.Val.Type()) {
					return tUnknown
				}
				t = worse(t, k.at(s.Val, b))
			}
		}
	}
	if t == tAny {
		return tUnknown
	}
	return t
}

// reason names the bytes that reach a field.
func (k *texts) reason(v ssa.Value, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] || k.memo[v] != tRaw {
		return ""
	}
	seen[v] = true
	if c, ok := v.(*ssa.Convert); ok && isByteSlice(c.X.Type()) {
		return relPos(k.c.P.SSA.Fset.Position(c.Pos()))
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if s := k.reason(*o, seen); s != "" {
				return s
			}
		}
	}
	if c, ok := v.(*ssa.Extract); ok {
		return k.reason(c.Tuple, seen)
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && isRepoFunc(f) {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, res := range ret.Results {
						if s := k.reason(res, seen); s != "" {
							return s
						}
					}
				}
			}
		}
	}
	if v.Pos().IsValid() {
		return relPos(k.c.P.SSA.Fset.Position(v.Pos()))
	}
	return ""
}

func runText(c *Ctx, r *Report) {
	k := &texts{c: c, memo: map[ssa.Value]textKind{}, callers: map[*ssa.Function][]*ssa.CallCommon{}}
	blocks := map[*ssa.CallCommon]*ssa.BasicBlock{}
	c.memo["p27 block"] = blocks
	var funcs []*ssa.Function
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) {
			continue
		}
		funcs = append(funcs, f)
		for _, ci := range callsOf(f) {
			cc := ci.Common()
			blocks[cc] = ci.Block()
			if g := cc.StaticCallee(); g != nil {
				k.callers[g] = append(k.callers[g], cc)
			}
		}
	}
	n, valid := 0, 0
	undecided := []string{}
	fields := map[string]bool{}
	var sites, later []func()
	var decide func(f *ssa.Function, field string, v ssa.Value, b *ssa.BasicBlock, pos token.Pos)
	site := func(f *ssa.Function, field string, v ssa.Value, b *ssa.BasicBlock, pos token.Pos) {
		sites = append(sites, func() { k.at(v, b) })
		later = append(later, func() { decide(f, field, v, b, pos) })
	}
	decide = func(f *ssa.Function, field string, v ssa.Value, b *ssa.BasicBlock, pos token.Pos) {
		n++
		at := relPos(c.P.SSA.Fset.Position(pos))
		switch k.at(v, b) {
		case tAny, tASCII, tValid:
			valid++
			fields[field] = true
		case tRaw:
			from := k.reason(origin(v), map[ssa.Value]bool{})
			if from == "" {
				from = at
			}
			r.add(Finding{Rule: "text", Fn: fname(f), What: field, Pos: at, Msg: "bytes of the input are put in a text field without a step that makes them valid UTF-8 (they become text at " + from + "); a message that holds them cannot be serialised"})
		default:
			undecided = append(undecided, at+" "+field)
		}
	}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					cc := in.Common()
					if kind, field, recv := protoMethod(cc); kind == "Set" && len(cc.Args) == 2 && isString(cc.Args[1].Type()) {
						site(f, protoMsgName(recv)+"."+field, cc.Args[1], b, in.Pos())
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					nt := namedOf(fa.X.Type())
					if nt == nil || !isProtoPkg(nt.Obj().Pkg()) {
						continue
					}
					st, ok := nt.Underlying().(*types.Struct)
					if !ok {
						continue
					}
					t := in.Val.Type()
					v := in.Val
					if p, ok := t.Underlying().(*types.Pointer); ok && isString(p.Elem()) {
						// &s or proto.String(s)
					} else if !isString(t) {
						continue
					}
					site(f, strings.TrimSuffix(nt.Obj().Name(), "_builder")+"."+st.Field(fa.Field).Name(), v, b, in.Pos())
				}
			}
		}
	}
	// what a cycle is worth is found by assuming the best and looking again
	for round := 0; round < 20; round++ {
		k.prev, k.memo = k.memo, map[ssa.Value]textKind{}
		for _, s := range sites {
			s()
		}
		stable := true
		for v, t := range k.memo {
			if k.prev[v] != t {
				stable = false
			}
		}
		if stable {
			break
		}
	}
	for _, d := range later {
		d()
	}
	sort.Strings(undecided)
	r.Cov["obligations"], r.Cov["discharged"] = n, valid
	r.Cov["setters_of_text_fields"] = n
	r.Cov["undecided_setters"] = undecided
	var names []string
	for f := range fields {
		names = append(names, f)
	}
	sort.Strings(names)
	r.Cov["fields"] = names
	r.Cov["values_traced"] = len(k.memo)
	r.floor("text_setters_decided", valid, 15)
}
