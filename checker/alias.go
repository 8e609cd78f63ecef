package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A context-sensitive (summary based), flow-insensitive may-alias analysis.
// Every value carries the set of memory labels it may point to. Labels are
// caller memory (INPUT), refilled buffers (SCRATCH), package-level variables
// (GLOBAL), the message given to the operation (MSG), the memory of a
// parameter, or an allocation site of the function.
type lab int

const (
	labInput   lab = 1
	labScratch lab = 2
	labGlobal  lab = 3
	labMsg     lab = 4

	labParam lab = 1000   // + 2*i: memory of parameter i, +1: memory reachable from it
	labSite  lab = 100000 // + k: object allocated in the function
)

func labName(l lab) string {
	switch l {
	case labInput:
		return "the caller's byte slice"
	case labScratch:
		return "a scanner buffer that is refilled"
	case labGlobal:
		return "a package-level variable"
	case labMsg:
		return "the given message"
	}
	return fmt.Sprintf("label %d", l)
}

type lset map[lab]bool

func (s lset) addAll(o lset) bool {
	ch := false
	for l := range o {
		if !s[l] {
			s[l] = true
			ch = true
		}
	}
	return ch
}

func (s lset) clone() lset {
	o := lset{}
	o.addAll(s)
	return o
}

// effect is a write to labelled memory or a store of labelled memory into a
// message, remembered with the construct it stems from.
type effect struct {
	kind string // "write" or "sink"
	what string // construct
	fn   *ssa.Function
	pos  string
	recv string // message type of the setter, if any
}

type alSum struct {
	res      []lset // own labels per result (no sites)
	fresh    []bool // result may be a fresh object
	freshC   []lset // labels reachable from that fresh object
	effects  map[effect]lset
	addC     map[lab]lset // parameter memory gains contents
	funcData bool
}

type alFn struct {
	an    *aliasAn
	f     *ssa.Function
	val   map[ssa.Value]lset
	siteC map[lab]lset
	sites map[any]lab
	sum   *alSum
	ch    bool
}

type aliasAn struct {
	p     *Prog
	taken map[string][]*ssa.Function
	fns   map[*ssa.Function]*alFn
	seed  map[*ssa.Function]map[int]lset // extra labels for a parameter's own memory
	// statistics
	calls, setters int
}

func newAliasAn(p *Prog) *aliasAn {
	return &aliasAn{p: p, taken: p.addressTaken(), fns: map[*ssa.Function]*alFn{}, seed: map[*ssa.Function]map[int]lset{}}
}

func (a *aliasAn) get(f *ssa.Function) *alFn {
	if x := a.fns[f]; x != nil {
		return x
	}
	n := f.Signature.Results().Len()
	x := &alFn{an: a, f: f, val: map[ssa.Value]lset{}, siteC: map[lab]lset{}, sites: map[any]lab{},
		sum: &alSum{res: make([]lset, n), fresh: make([]bool, n), freshC: make([]lset, n), effects: map[effect]lset{}, addC: map[lab]lset{}}}
	for i := 0; i < n; i++ {
		x.sum.res[i] = lset{}
		x.sum.freshC[i] = lset{}
	}
	a.fns[f] = x
	return x
}

// solve iterates all reachable functions to a fixed point.
func (a *aliasAn) solve(roots ...*ssa.Function) {
	fs := sortedFuncs(a.p.reach(roots...))
	for round := 0; ; round++ {
		changed := false
		for i := len(fs) - 1; i >= 0; i-- {
			x := a.get(fs[i])
			for {
				x.ch = false
				x.pass()
				if !x.ch {
					break
				}
				changed = true
			}
		}
		if !changed {
			return
		}
		if round > 200 {
			panic("alias analysis does not converge")
		}
	}
}

func (x *alFn) site(k any) lab {
	if l, ok := x.sites[k]; ok {
		return l
	}
	l := labSite + lab(len(x.sites))
	x.sites[k] = l
	x.siteC[l] = lset{}
	x.ch = true
	return l
}

func (x *alFn) own(v ssa.Value) lset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return lset{}
	case *ssa.Global:
		return lset{labGlobal: true}
	case *ssa.Parameter:
		if !hasPointers(v.Type()) {
			return lset{}
		}
		for i, q := range x.f.Params {
			if q == v {
				s := lset{labParam + lab(2*i): true}
				if e := x.an.seed[x.f][i]; e != nil {
					s.addAll(e)
				}
				return s
			}
		}
	case *ssa.FreeVar:
		for i, q := range x.f.FreeVars {
			if q == v {
				return lset{labParam + lab(2*(len(x.f.Params)+i)): true}
			}
		}
	}
	return x.val[v]
}

func (x *alFn) contentOf(l lab) lset {
	switch {
	case l == labGlobal:
		return lset{labGlobal: true}
	case l == labMsg:
		return lset{labMsg: true}
	case l >= labSite:
		return x.siteC[l]
	case l >= labParam:
		s := lset{}
		if (l-labParam)%2 == 0 {
			s[l+1] = true
		} else {
			s[l] = true
		}
		s.addAll(x.sum.addC[l])
		return s
	}
	return lset{}
}

func (x *alFn) deref(s lset) lset {
	o := lset{}
	for l := range s {
		o.addAll(x.contentOf(l))
	}
	return o
}

// deep is everything reachable from s, s included.
func (x *alFn) deep(s lset) lset {
	o := s.clone()
	for {
		if !o.addAll(x.deref(o)) {
			return o
		}
	}
}

func (x *alFn) set(v ssa.Value, s lset) {
	if len(s) == 0 || !hasPointers(v.Type()) {
		return
	}
	c := x.val[v]
	if c == nil {
		c = lset{}
		x.val[v] = c
	}
	if c.addAll(s) {
		x.ch = true
	}
}

func (x *alFn) addContent(to lset, c lset) {
	if len(c) == 0 {
		return
	}
	for l := range to {
		switch {
		case l >= labSite:
			if x.siteC[l].addAll(c) {
				x.ch = true
			}
		case l >= labParam:
			m := x.sum.addC[l]
			if m == nil {
				m = lset{}
				x.sum.addC[l] = m
			}
			for q := range c {
				if q < labSite && !m[q] && q != l && q != l+1 {
					m[q] = true
					x.ch = true
				}
			}
		}
	}
}

func (x *alFn) effect(e effect, s lset) {
	m := x.sum.effects[e]
	for l := range s {
		if l >= labSite {
			continue
		}
		if m == nil {
			m = lset{}
			x.sum.effects[e] = m
		}
		if !m[l] {
			m[l] = true
			x.ch = true
		}
	}
}

func (x *alFn) write(in ssa.Instruction, what, recv string, s lset) {
	x.effect(effect{kind: "write", what: what, fn: x.f, pos: x.an.p.instrPos(in), recv: recv}, s)
}

func (x *alFn) sink(in ssa.Instruction, what, recv string, s lset) {
	x.effect(effect{kind: "sink", what: what, fn: x.f, pos: x.an.p.instrPos(in), recv: recv}, s)
}

func (x *alFn) pass() {
	for _, b := range x.f.Blocks {
		for _, in := range b.Instrs {
			x.instr(in)
		}
	}
}

func (x *alFn) instr(in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc:
		x.set(v, lset{x.site(v): true})
	case *ssa.MakeSlice:
		x.set(v, lset{x.site(v): true})
	case *ssa.MakeMap:
		x.set(v, lset{x.site(v): true})
	case *ssa.MakeChan:
		x.set(v, lset{x.site(v): true})
	case *ssa.MakeClosure:
		s := lset{}
		for _, bnd := range v.Bindings {
			s.addAll(x.own(bnd))
		}
		x.set(v, s)
	case *ssa.Phi:
		for _, e := range v.Edges {
			x.set(v, x.own(e))
		}
	case *ssa.ChangeType:
		x.set(v, x.own(v.X))
	case *ssa.ChangeInterface:
		x.set(v, x.own(v.X))
	case *ssa.MakeInterface:
		x.set(v, x.own(v.X))
	case *ssa.TypeAssert:
		x.set(v, x.own(v.X))
	case *ssa.SliceToArrayPointer:
		x.set(v, x.own(v.X))
	case *ssa.Convert:
		if hasPointers(v.X.Type()) {
			x.set(v, x.own(v.X))
		} else if hasPointers(v.Type()) {
			x.set(v, lset{x.site(v): true})
		}
	case *ssa.MultiConvert:
		x.set(v, x.own(v.X))
	case *ssa.Slice:
		x.set(v, x.own(v.X))
	case *ssa.FieldAddr:
		x.set(v, x.own(v.X))
	case *ssa.IndexAddr:
		x.set(v, x.own(v.X))
	case *ssa.Field:
		x.set(v, x.own(v.X))
	case *ssa.Index:
		x.set(v, x.own(v.X))
	case *ssa.Extract:
		x.set(v, x.tuple(v.Tuple, v.Index))
	case *ssa.Lookup:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			x.set(v, x.deref(x.own(v.X)))
		}
	case *ssa.Range:
		x.set(v, x.own(v.X))
	case *ssa.Next:
		if !v.IsString {
			x.set(v, x.deref(x.own(v.Iter)))
		}
	case *ssa.UnOp:
		if v.Op == token.MUL || v.Op == token.ARROW {
			x.set(v, x.deref(x.own(v.X)))
		}
	case *ssa.Store:
		x.write(v, "store through a pointer or element", "", x.own(v.Addr))
		if hasPointers(v.Val.Type()) {
			x.addContent(x.own(v.Addr), x.own(v.Val))
		}
	case *ssa.MapUpdate:
		x.write(v, "map update", "", x.own(v.Map))
		x.addContent(x.own(v.Map), x.own(v.Value))
		x.addContent(x.own(v.Map), x.own(v.Key))
	case *ssa.Send:
		x.addContent(x.own(v.Chan), x.own(v.X))
	case *ssa.Return:
		for i, r := range v.Results {
			if !hasPointers(r.Type()) {
				continue
			}
			for l := range x.own(r) {
				if l >= labSite {
					if !x.sum.fresh[i] {
						x.sum.fresh[i] = true
						x.ch = true
					}
					for q := range x.deep(lset{l: true}) {
						if q < labSite && !x.sum.freshC[i][q] {
							x.sum.freshC[i][q] = true
							x.ch = true
						}
					}
				} else if !x.sum.res[i][l] {
					x.sum.res[i][l] = true
					x.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		x.call(v)
	}
}

// tuple results are kept per index under a synthetic key.
type tupKey struct {
	v ssa.Value
	i int
}

func (x *alFn) tuple(v ssa.Value, i int) lset {
	if c, ok := v.(*ssa.Call); ok {
		if l, ok := x.sites[tupKey{c, i}]; ok {
			return x.siteC[l]
		}
		return lset{}
	}
	return x.own(v)
}

func (x *alFn) setResult(c ssa.CallInstruction, i, n int, s lset) {
	call, ok := c.(*ssa.Call)
	if !ok || len(s) == 0 {
		return
	}
	if n == 1 {
		x.set(call, s)
		return
	}
	l := x.site(tupKey{call, i})
	if x.siteC[l].addAll(s) {
		x.ch = true
	}
}

func (x *alFn) call(c ssa.CallInstruction) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(c, b.Name())
		return
	}
	if kind, field, recv := protoMethod(cc); kind != "" {
		x.protoCall(c, kind, field, recv)
		return
	}
	var targets []*ssa.Function
	var fvOwn func(g *ssa.Function, i int) lset
	args := cc.Args
	if cc.IsInvoke() {
		for _, g := range x.an.p.implementations(cc) {
			targets = append(targets, g)
		}
		if len(targets) > 0 {
			args = append([]ssa.Value{cc.Value}, args...)
		}
	} else if g := cc.StaticCallee(); g != nil {
		if isRepoFunc(g) && len(g.Blocks) > 0 {
			targets = append(targets, g)
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fvOwn = func(_ *ssa.Function, i int) lset { return x.own(mc.Bindings[i]) }
		}
	} else {
		// dynamic call: every repository function of that signature used as a value
		for _, g := range x.an.taken[sigKey(cc.Signature())] {
			targets = append(targets, g)
		}
		fvOwn = func(g *ssa.Function, i int) lset {
			// the closure's captured cells
			return x.own(cc.Value)
		}
	}
	if len(targets) == 0 {
		x.external(c)
		return
	}
	for _, g := range targets {
		x.apply(c, g, args, fvOwn)
	}
}

func (x *alFn) apply(c ssa.CallInstruction, g *ssa.Function, args []ssa.Value, fvOwn func(*ssa.Function, int) lset) {
	sum := x.an.get(g).sum
	argOwn := func(i int) lset {
		if i < len(args) {
			return x.own(args[i])
		}
		j := i - len(g.Params)
		if fvOwn != nil && j >= 0 && j < len(g.FreeVars) {
			return fvOwn(g, j)
		}
		return lset{}
	}
	subst := func(s lset) lset {
		o := lset{}
		for l := range s {
			if l >= labSite {
				continue
			}
			if l >= labParam {
				i := int(l-labParam) / 2
				a := argOwn(i)
				if (l-labParam)%2 == 1 {
					a = x.deep(x.deref(a))
				}
				o.addAll(a)
			} else {
				o[l] = true
			}
		}
		return o
	}
	n := len(sum.res)
	for i := 0; i < n; i++ {
		s := subst(sum.res[i])
		if sum.fresh[i] {
			type fk struct {
				c ssa.CallInstruction
				i int
			}
			l := x.site(fk{c, i})
			x.addContent(lset{l: true}, subst(sum.freshC[i]))
			x.addContent(lset{l: true}, lset{l: true})
			s[l] = true
		}
		x.setResult(c, i, n, s)
	}
	for l, add := range sum.addC {
		x.addContent(subst(lset{l: true}), subst(add))
	}
	for e, s := range sum.effects {
		x.effect(e, subst(s))
	}
}

func (x *alFn) protoCall(c ssa.CallInstruction, kind, field string, recvT types.Type) {
	cc := c.Common()
	recv := x.own(cc.Args[0])
	name := protoMsgName(recvT) + "." + kind + field
	switch kind {
	case "Get":
		x.setResult(c, 0, 1, x.deref(recv))
	case "Set":
		x.an.setters++
		x.write(c, name, protoMsgName(recvT), recv)
		if len(cc.Args) > 1 && hasPointers(cc.Args[1].Type()) {
			v := x.own(cc.Args[1])
			x.addContent(recv, v)
			x.sink(c, name, protoMsgName(recvT), x.deep(v))
		}
	case "Clear":
		x.write(c, name, protoMsgName(recvT), recv)
	case "Build":
		l := x.site(c)
		x.addContent(lset{l: true}, recv)
		x.sink(c, name, protoMsgName(recvT), x.deep(recv))
		x.setResult(c, 0, 1, lset{l: true})
	case "Other":
		if field == "Reset" {
			x.write(c, name, protoMsgName(recvT), recv)
		}
		if field == "ProtoReflect" {
			x.setResult(c, 0, 1, recv)
		}
	}
}

func (x *alFn) builtin(c ssa.CallInstruction, name string) {
	cc := c.Common()
	switch name {
	case "append":
		dst := x.own(cc.Args[0])
		x.write(c, "append into existing memory", "", dst)
		l := x.site(c)
		s := dst.clone()
		s[l] = true
		if call, ok := c.(*ssa.Call); ok {
			x.set(call, s)
			if el, ok := call.Type().Underlying().(*types.Slice); ok && hasPointers(el.Elem()) {
				x.addContent(s, x.deref(x.own(cc.Args[1])))
				x.addContent(lset{l: true}, x.deref(dst))
			}
		}
	case "copy":
		x.write(c, "copy into existing memory", "", x.own(cc.Args[0]))
		if el, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && hasPointers(el.Elem()) {
			x.addContent(x.own(cc.Args[0]), x.deref(x.own(cc.Args[1])))
		}
	case "clear", "delete":
		x.write(c, name, "", x.own(cc.Args[0]))
	}
}

// freshResults are library functions whose results share no memory with their
// arguments.
var freshResults = map[string]bool{
	"bytes.Clone": true, "slices.Clone": true, "maps.Clone": true,
	"google.golang.org/protobuf/proto.Clone": true, "google.golang.org/protobuf/proto.CloneOf": true,
	"google.golang.org/protobuf/proto.Marshal": true, "io.ReadAll": true,
	"(*math/big.Int).Bytes": true, "bytes.Join": true, "bytes.Repeat": true, "bytes.ToUpper": true, "bytes.ToLower": true,
	"slices.Concat": true, "bytes.ReplaceAll": true, "bytes.Replace": true, "bytes.Map": true,
	"os.ReadFile": true, "encoding/hex.DecodeString": true,
}

// mutators are library functions that write to the memory of an argument.
func mutatedArg(name string) (int, bool) {
	switch {
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").PutUint"):
		return 1, true
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ").AppendUint"):
		return 1, true
	case strings.HasPrefix(name, "encoding/binary.Append"), strings.HasPrefix(name, "encoding/binary.Encode"), strings.HasPrefix(name, "encoding/binary.Put"):
		return 0, true
	case name == "encoding/binary.Read":
		return 2, true
	case name == "encoding/binary.Decode":
		return 2, true
	case strings.HasPrefix(name, "sort."), name == "slices.Sort", name == "slices.SortFunc", name == "slices.SortStableFunc", name == "slices.Reverse",
		name == "slices.Delete", name == "slices.DeleteFunc", name == "slices.Insert", name == "slices.Replace", name == "slices.Compact", name == "slices.CompactFunc", name == "slices.Grow",
		name == "math/rand.Read", name == "crypto/rand.Read", name == "maps.Copy", name == "maps.DeleteFunc":
		return 0, true
	case strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"), name == "unicode/utf8.AppendRune", strings.HasPrefix(name, "encoding/hex.Append"), name == "encoding/hex.Encode", name == "encoding/hex.Decode":
		return 0, true
	case name == "io.ReadFull", name == "io.ReadAtLeast", name == "(*bytes.Reader).Read", name == "(io.Reader).Read", name == "(*bufio.Reader).Read", name == "(*strings.Reader).Read":
		return 1, true
	case name == "google.golang.org/protobuf/proto.Merge", name == "google.golang.org/protobuf/proto.Reset", name == "google.golang.org/protobuf/proto.SetExtension", name == "google.golang.org/protobuf/proto.ClearExtension":
		return 0, true
	case name == "google.golang.org/protobuf/proto.Unmarshal":
		return 1, true
	case name == "(*math/big.Int).FillBytes":
		return 1, true
	}
	return 0, false
}

// protoreflectMutator: methods of protoreflect.Message, List and Map that write
// to their receiver.
func protoreflectMutator(name string) bool {
	if !strings.HasPrefix(name, "(google.golang.org/protobuf/reflect/protoreflect.") {
		return false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "Set", "Clear", "Mutable", "SetUnknown", "Append", "AppendMutable", "Truncate":
		return true
	}
	return false
}

func (x *alFn) external(c ssa.CallInstruction) {
	cc := c.Common()
	x.an.calls++
	name := callName(cc)
	var all lset = lset{}
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	for _, v := range args {
		if hasPointers(v.Type()) {
			all.addAll(x.own(v))
		}
	}
	n := cc.Signature().Results().Len()
	switch {
	case name == "(*bufio.Scanner).Bytes", name == "(*bufio.Reader).Peek", name == "(*bufio.Reader).ReadSlice", name == "(*bufio.Reader).ReadLine":
		x.setResult(c, 0, n, lset{labScratch: true})
		return
	case name == "(*bufio.Scanner).Split":
		// the split function's data argument is the scanner's buffer
		for _, g := range x.funcTargets(cc.Args[1]) {
			m := x.an.seed[g]
			if m == nil {
				m = map[int]lset{}
				x.an.seed[g] = m
			}
			if m[0] == nil {
				m[0] = lset{labScratch: true}
				x.ch = true
			}
		}
		return
	case name == "(*bufio.Scanner).Buffer":
		return
	}
	if i, ok := mutatedArg(name); ok && i < len(args) {
		x.write(c, name, "", x.own(args[i]))
	}
	if protoreflectMutator(name) {
		x.write(c, name, "", x.own(args[0]))
	}
	// callbacks passed to library functions run with whatever the library has
	for _, v := range args {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			for _, g := range x.funcTargets(v) {
				var as []ssa.Value
				x.apply(c, g, as, func(_ *ssa.Function, i int) lset {
					if mc, ok := v.(*ssa.MakeClosure); ok && i < len(mc.Bindings) {
						return x.own(mc.Bindings[i])
					}
					return x.own(v)
				})
			}
		}
	}
	if freshResults[name] || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "strings.") {
		all = lset{}
		for i := 0; i < n; i++ {
			if hasPointers(cc.Signature().Results().At(i).Type()) {
				type xk struct {
					c ssa.CallInstruction
					i int
				}
				x.setResult(c, i, n, lset{x.site(xk{c, i}): true})
			}
		}
		return
	}
	res := all.clone()
	res.addAll(x.deref(all))
	for i := 0; i < n; i++ {
		if hasPointers(cc.Signature().Results().At(i).Type()) {
			x.setResult(c, i, n, res)
		}
	}
	// an out-parameter (asn1.Unmarshal(data, &raw)) may receive any argument's memory
	for _, v := range args {
		u := v
		if mi, ok := v.(*ssa.MakeInterface); ok {
			u = mi.X
		}
		if _, ok := u.Type().Underlying().(*types.Pointer); ok && len(args) > 1 && !isProtoMsg(u.Type()) {
			x.addContent(x.own(v), all)
		}
	}
}

func (x *alFn) funcTargets(v ssa.Value) []*ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		if isRepoFunc(v) {
			return []*ssa.Function{v}
		}
		return nil
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return x.funcTargets(v.X)
	case *ssa.MakeInterface:
		return x.funcTargets(v.X)
	}
	if s, ok := v.Type().Underlying().(*types.Signature); ok {
		return x.an.taken[sigKey(s)]
	}
	return nil
}

// rootEffects evaluates a root's summary under the given labels for its
// parameters' own memory and everything reachable from it.
type rootEffect struct {
	effect
	labels []lab
}

func (a *aliasAn) rootEffects(f *ssa.Function, own, content map[int]lab) []rootEffect {
	var out []rootEffect
	for e, s := range a.get(f).sum.effects {
		var ls []lab
		seen := map[lab]bool{}
		add := func(l lab) {
			if l != 0 && !seen[l] {
				seen[l] = true
				ls = append(ls, l)
			}
		}
		for l := range s {
			if l >= labParam {
				i := int(l-labParam) / 2
				if (l-labParam)%2 == 0 {
					add(own[i])
				} else {
					add(content[i])
				}
			} else {
				add(l)
			}
		}
		if len(ls) > 0 {
			sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
			out = append(out, rootEffect{e, ls})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].pos != out[j].pos {
			return out[i].pos < out[j].pos
		}
		return out[i].what < out[j].what
	})
	return out
}
