package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P21"] = check{level: "proof", run: runP21} }

// Taint from the personal fields of the original message to the result of an
// anonymisation operation. Values carry labels: personal data (with the field it
// comes from), the original message (or a part of it), or an object made by the
// operation, whose message fields are tracked separately. The analysis is
// interprocedural, context-sensitive in the labels of the arguments, and does not
// depend on the order of statements; only a copy of the original made by proto.Clone
// is followed through the setters that overwrite it.

type tlab struct {
	kind byte // 'P' personal, 'B' personal bytes in the original's memory, 'M' part of the original, 'Q' the same without personal data, 'C' part of a copy, 'O' object, 'F' function
	src  string
	obj  *tobj
	fn   *ssa.Function
}

type tset map[tlab]bool

type tobj struct {
	id     string
	typ    types.Type
	fields map[string]tset // message fields; "" for elements and everything else
	where  map[string]ssa.Instruction
	clone  types.Type // proto.Clone of (part of) the original
	site   ssa.Instruction
}

type taint struct {
	c       *Ctx
	objs    map[string]*tobj
	memo    map[string][]tset
	ids     map[string]string
	tuples  map[string]map[ssa.Value][]tset
	vals    map[string]map[ssa.Value]tset
	busy    map[string]bool
	changed bool
	calls   int
	sets    map[ssa.Instruction]bool
	writes  map[ssa.Instruction]bool
	mut     map[ssa.Instruction]string
	edited  map[string]bool
	gets    map[ssa.Instruction]bool
	over    bool
}

// personal reports whether a scalar field of a message is personal data.
func personalField(msg, field string, t types.Type) bool {
	l := strings.ToLower(field)
	if strings.HasSuffix(l, "language") {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Info()&types.IsString != 0)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return true
		}
		if u.Info()&types.IsNumeric == 0 || isProtoEnum(t) {
			return false
		}
		switch l {
		case "latitude", "longitude", "serialnumber", "keyid":
			return true
		case "year", "month", "day":
			return msg == "Date" || msg == "MonthYear"
		}
	}
	return false
}

// structuralPart names sub-messages that are carried over as a whole.
func structuralPart(field string) bool {
	l := strings.ToLower(field)
	return strings.HasSuffix(l, "language") || strings.HasSuffix(l, "index")
}

// getters of a message type, field name to result type.
func (x *taint) getters(t types.Type) map[string]types.Type {
	out := map[string]types.Type{}
	ms := x.c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		n := m.Name()
		sig, ok := m.Type().(*types.Signature)
		if ok && strings.HasPrefix(n, "Get") && len(n) > 3 && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			out[n[3:]] = sig.Results().At(0).Type()
		}
	}
	return out
}

// carries reports the personal fields inside a value of type t taken from the original.
func (x *taint) carries(t types.Type, seen map[string]bool, path string, out *[]string) {
	switch u := types.Unalias(t).(type) {
	case *types.Slice:
		x.carries(u.Elem(), seen, path, out)
		return
	case *types.Pointer:
	default:
		return
	}
	if !isProtoMsg(t) || seen[t.String()] {
		return
	}
	seen[t.String()] = true
	defer delete(seen, t.String())
	g := x.getters(t)
	var names []string
	for n := range g {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if personalField(protoMsgName(t), n, g[n]) {
			*out = append(*out, strings.TrimPrefix(path+"."+n, "."))
		} else if !structuralPart(n) {
			x.carries(g[n], seen, path+"."+n, out)
		}
	}
}

func (x *taint) add(dst tset, src tset) {
	for l := range src {
		if !dst[l] {
			dst[l] = true
			x.changed = true
		}
	}
}

func (o *tobj) get(f string) tset {
	s := o.fields[f]
	if s == nil {
		s = tset{}
		o.fields[f] = s
	}
	return s
}

// put stores labels into a field of every object of s.
func (x *taint) put(in ssa.Instruction, s tset, f string, v tset) {
	for l := range s {
		if l.kind != 'O' {
			continue
		}
		d := l.obj.get(f)
		for k := range v {
			if !d[k] {
				d[k] = true
				x.changed = true
				if k.kind != 'O' || l.obj.where[f] == nil {
					l.obj.where[f] = in
				}
			}
		}
	}
}

func (x *taint) object(id string, t types.Type, in ssa.Instruction) *tobj {
	o := x.objs[id]
	if o == nil {
		o = &tobj{id: fmt.Sprintf("o%d", len(x.objs)), typ: t, fields: map[string]tset{}, where: map[string]ssa.Instruction{}, site: in}
		x.objs[id] = o
		x.changed = true
	}
	return o
}

// readField is what reading field f (of static type t) of a message yields.
func (x *taint) readField(s tset, msg, f string, t types.Type) tset {
	out := tset{}
	orig, copied := false, false
	for l := range s {
		switch l.kind {
		case 'C':
			copied = true
		case 'M', 'Q':
			orig = true
		case 'P', 'B':
			out[l] = true
		case 'O':
			for k := range l.obj.get(f) {
				out[k] = true
			}
			if l.obj.clone != nil && !overwritten(l.obj.site, f) {
				copied = true
			}
		}
	}
	if orig || copied {
		switch {
		case personalField(msg, f, t):
			if _, ok := t.Underlying().(*types.Slice); ok && orig {
				out[tlab{kind: 'B', src: msg + "." + f}] = true
			} else {
				out[tlab{kind: 'P', src: msg + "." + f}] = true
			}
		case hasPointers(t):
			var ps []string
			if !structuralPart(f) {
				x.carries(t, map[string]bool{}, "", &ps)
			}
			switch {
			case len(ps) > 0 && orig:
				out[tlab{kind: 'M', src: msg + "." + f}] = true
			case len(ps) > 0:
				out[tlab{kind: 'C', src: msg + "." + f}] = true
			case orig:
				out[tlab{kind: 'Q', src: msg + "." + f}] = true
			}
		}
	}
	return out
}

// elems is what loading through (or ranging over) s yields.
func elems(s tset) tset {
	out := tset{}
	for l := range s {
		switch l.kind {
		case 'B':
			out[tlab{kind: 'P', src: l.src}] = true
		case 'P', 'M', 'Q', 'C':
			out[l] = true
		case 'O':
			for k := range l.obj.get("") {
				out[k] = true
			}
		}
	}
	return out
}

// deep is the personal data reachable from s.
func (x *taint) deep(s tset, t types.Type) tset {
	out := tset{}
	seen := map[*tobj]bool{}
	var walk func(s tset)
	walk = func(s tset) {
		for l := range s {
			switch l.kind {
			case 'P', 'B', 'M', 'C':
				out[tlab{kind: 'P', src: l.src}] = true
			case 'O':
				if seen[l.obj] {
					continue
				}
				seen[l.obj] = true
				if l.obj.clone != nil {
					out[tlab{kind: 'P', src: "a copy of the original"}] = true
				}
				for _, v := range l.obj.fields {
					walk(v)
				}
			}
		}
	}
	walk(s)
	return out
}

func (x *taint) call(f *ssa.Function, args, fvs []tset, ctx string, depth int) []tset {
	n := f.Signature.Results().Len()
	empty := make([]tset, n)
	for i := range empty {
		empty[i] = tset{}
	}
	if len(f.Blocks) == 0 || depth > 25 {
		x.over = x.over || depth > 25
		return empty
	}
	// one context per call string; the arguments of repeated visits are joined
	key := ctx + "|" + fname(f)
	for k := range x.busy {
		if strings.HasSuffix(k, "|"+fname(f)) {
			key = k // recursion
		}
	}
	if x.ids[key] == "" {
		x.ids[key] = fmt.Sprintf("c%d", len(x.ids))
	}
	id := x.ids[key]
	res := x.memo[key]
	if res == nil {
		res = empty
		x.memo[key] = res
		x.changed = true
	}
	if x.busy[key] {
		return res
	}
	x.busy[key] = true
	x.calls++
	vals := x.vals[key]
	if vals == nil {
		vals = map[ssa.Value]tset{}
		x.vals[key] = vals
	}
	for i, p := range f.Params {
		if vals[p] == nil {
			vals[p] = tset{}
		}
		if i < len(args) {
			x.add(vals[p], args[i])
		}
	}
	for i, v := range f.FreeVars {
		if vals[v] == nil {
			vals[v] = tset{}
		}
		if i < len(fvs) {
			x.add(vals[v], fvs[i])
		}
	}
	tuples := x.tuples[key]
	if tuples == nil {
		tuples = map[ssa.Value][]tset{}
		x.tuples[key] = tuples
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x.instr(f, in, vals, tuples, id, depth)
			if r, ok := in.(*ssa.Return); ok {
				for i, v := range r.Results {
					x.add(res[i], x.val(vals, v))
				}
			}
		}
	}
	delete(x.busy, key)
	return res
}

func (x *taint) val(vals map[ssa.Value]tset, v ssa.Value) tset {
	if s, ok := vals[v]; ok {
		return s
	}
	switch v := v.(type) {
	case *ssa.Function:
		return tset{tlab{kind: 'F', fn: v}: true}
	}
	return tset{}
}

func (x *taint) instr(f *ssa.Function, in ssa.Instruction, vals map[ssa.Value]tset, tuples map[ssa.Value][]tset, ctx string, depth int) {
	set := func(v ssa.Value, s tset) {
		d := vals[v]
		if d == nil {
			d = tset{}
			vals[v] = d
		}
		x.add(d, s)
	}
	get := func(v ssa.Value) tset { return x.val(vals, v) }
	site := func(t types.Type) tset {
		id := fmt.Sprintf("%s#%d.%d", ctx, in.Block().Index, instrIndex(in))
		return tset{tlab{kind: 'O', obj: x.object(id, t, in)}: true}
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		set(v, site(v.Type()))
	case *ssa.MakeSlice:
		set(v, site(v.Type()))
	case *ssa.MakeMap:
		set(v, site(v.Type()))
	case *ssa.MakeClosure:
		s := site(v.Type())
		for l := range s {
			for i, b := range v.Bindings {
				x.add(l.obj.get(fmt.Sprintf("bind%d", i)), get(b))
			}
			set(v, tset{tlab{kind: 'F', fn: v.Fn.(*ssa.Function), obj: l.obj}: true})
		}
	case *ssa.FieldAddr:
		if isProtoMsg(v.X.Type()) {
			// field of a message struct: only well-known types expose theirs
			st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			set(v, x.readField(get(v.X), protoMsgName(v.X.Type()), st.Field(v.Field).Name(), st.Field(v.Field).Type()))
		}
		set(v, get(v.X))
	case *ssa.IndexAddr:
		set(v, get(v.X))
	case *ssa.Field:
		set(v, get(v.X))
	case *ssa.Index:
		set(v, elems(get(v.X)))
		set(v, x.onlyP(get(v.Index)))
	case *ssa.Lookup:
		set(v, elems(get(v.X)))
		set(v, x.onlyP(get(v.Index)))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			set(v, elems(get(v.X)))
		} else {
			set(v, get(v.X))
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			set(v, x.onlyP(get(v.X)))
			set(v, x.onlyP(get(v.Y)))
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			set(v, get(e))
		}
	case *ssa.ChangeType:
		set(v, get(v.X))
	case *ssa.Convert:
		s := fresh(get(v.X))
		if hasPointers(v.X.Type()) { // bytes to string and back
			s = tset{}
			for l := range fresh(get(v.X)) {
				if l.kind != 'O' {
					s[l] = true
				}
			}
			for l := range elems(get(v.X)) {
				s[l] = true
			}
		}
		set(v, s)
	case *ssa.MultiConvert:
		set(v, get(v.X))
	case *ssa.ChangeInterface:
		set(v, get(v.X))
	case *ssa.MakeInterface:
		set(v, get(v.X))
	case *ssa.TypeAssert:
		set(v, get(v.X))
	case *ssa.Slice:
		set(v, get(v.X))
		for _, e := range []ssa.Value{v.Low, v.High} {
			if e != nil {
				set(v, x.onlyP(get(e)))
			}
		}
	case *ssa.SliceToArrayPointer:
		set(v, get(v.X))
	case *ssa.Range:
		set(v, get(v.X))
	case *ssa.Next:
		set(v, elems(get(v.Iter)))
	case *ssa.Extract:
		if t := tuples[v.Tuple]; t != nil {
			set(v, t[v.Index])
		} else {
			set(v, get(v.Tuple))
		}
	case *ssa.Store:
		s := get(v.Val)
		if _, ok := v.Addr.(*ssa.Alloc); !ok {
			x.write(in, "store", get(v.Addr))
		}
		fld := ""
		if fa, ok := v.Addr.(*ssa.FieldAddr); ok && isProtoMsg(fa.X.Type()) {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			fld = st.Field(fa.Field).Name()
			x.put(in, get(fa.X), fld, s)
		} else {
			x.put(in, get(v.Addr), "", s)
		}
	case *ssa.MapUpdate:
		x.write(in, "map update", get(v.Map))
		x.put(in, get(v.Map), "", get(v.Value))
		x.put(in, get(v.Map), "", get(v.Key))
	case ssa.CallInstruction:
		x.callInstr(f, v, vals, tuples, get, set, site, ctx, depth)
	}
}

func (x *taint) onlyP(s tset) tset {
	out := tset{}
	for l := range s {
		if l.kind == 'P' || l.kind == 'B' {
			out[tlab{kind: 'P', src: l.src}] = true
		}
	}
	return out
}

// write notes a write through s at in.
func (x *taint) write(in ssa.Instruction, what string, s tset) {
	x.writes[in] = true
	for l := range s {
		if l.kind == 'M' || l.kind == 'Q' || l.kind == 'B' {
			x.mut[in] = what
		}
	}
}

// fresh labels a value that is a new copy of what s holds.
func fresh(s tset) tset {
	out := tset{}
	for l := range s {
		if l.kind == 'B' {
			l = tlab{kind: 'P', src: l.src}
		}
		out[l] = true
	}
	return out
}

func (x *taint) callInstr(f *ssa.Function, ci ssa.CallInstruction, vals map[ssa.Value]tset, tuples map[ssa.Value][]tset,
	get func(ssa.Value) tset, set func(ssa.Value, tset), site func(types.Type) tset, ctx string, depth int) {
	cc := ci.Common()
	val := ci.Value()
	result := func(s tset) {
		if val != nil {
			set(val, s)
		}
	}
	if kind, field, recv := protoMethod(cc); kind != "" {
		r := get(cc.Args[0])
		msg := protoMsgName(recv)
		switch kind {
		case "Get":
			x.gets[ci] = true
			result(x.readField(r, msg, field, val.Type()))
		case "Set":
			x.sets[ci] = true
			x.write(ci, msg+".Set"+field, r)
			for l := range r {
				if l.kind == 'C' && len(x.deep(get(cc.Args[1]), nil)) == 0 {
					x.edited[l.src+"."+field] = true
				}
			}
			if len(cc.Args) > 1 {
				x.put(ci, r, field, get(cc.Args[1]))
			}
		case "Build":
			s := site(cc.Signature().Results().At(0).Type())
			for l := range s {
				for o := range r {
					if o.kind == 'O' {
						for f, v := range o.obj.fields {
							x.put(ci, tset{l: true}, f, v)
						}
					}
				}
			}
			result(s)
		case "Clear":
			x.write(ci, msg+".Clear"+field, r)
			for l := range r {
				if l.kind == 'C' {
					x.edited[l.src+"."+field] = true
				}
			}
		case "Has", "Which":
		default:
			if field == "Reset" {
				x.write(ci, msg+".Reset", r)
			}
			if field == "ProtoReflect" || field == "Enum" {
				result(r)
			} else if field == "String" || field == "Descriptor" {
				if isProtoMsg(recv) {
					result(x.deep(r, recv))
				}
			}
		}
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			d, s := get(cc.Args[0]), get(cc.Args[1])
			o := site(val.Type())
			e := elems(s)
			if _, ok := cc.Args[0].(*ssa.Slice); ok {
				x.write(ci, "append", d)
			}
			x.put(ci, o, "", e)
			x.put(ci, d, "", e)
			x.put(ci, o, "", elems(d))
			result(o)
			result(d)
		case "copy":
			x.write(ci, "copy", get(cc.Args[0]))
			x.put(ci, get(cc.Args[0]), "", elems(get(cc.Args[1])))
			result(tset{})
		case "len", "cap":
			result(x.onlyP(get(cc.Args[0])))
		case "min", "max":
			for _, a := range cc.Args {
				result(x.onlyP(get(a)))
			}
		}
		return
	}
	var args []tset
	for _, a := range callArgs(cc) {
		args = append(args, get(a))
	}
	apply := func(g *ssa.Function, as, fvs []tset) {
		cx := fmt.Sprintf("%s:%d.%d", ctx, ci.Block().Index, instrIndex(ci))
		res := x.call(g, as, fvs, cx, depth+1)
		if val == nil {
			return
		}
		if len(res) == 1 {
			result(res[0])
		} else if len(res) > 1 {
			t := tuples[val]
			if t == nil {
				t = make([]tset, len(res))
				for i := range t {
					t[i] = tset{}
				}
				tuples[val] = t
			}
			for i := range res {
				x.add(t[i], res[i])
			}
		}
	}
	if g := cc.StaticCallee(); g != nil {
		name := callName(cc)
		switch {
		case strings.HasSuffix(name, "/proto.Clone") || strings.HasSuffix(name, "/proto.CloneOf"):
			t := cc.Args[0].Type()
			if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			s := site(t)
			for l := range s {
				x.mergeInto(ci, l.obj, args[0], t)
			}
			result(s)
			return
		case strings.HasSuffix(name, "/proto.Merge"):
			t := cc.Args[1].Type()
			if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			for l := range args[0] {
				if l.kind == 'O' {
					x.mergeInto(ci, l.obj, args[1], t)
				}
			}
			x.write(ci, "proto.Merge", args[0])
			return
		case isRepoFunc(g) && !isProtoPkg(funcPkg(g)) && len(g.Blocks) > 0:
			var fvs []tset
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					fvs = append(fvs, get(b))
				}
			}
			apply(g, args, fvs)
			return
		}
	} else if !cc.IsInvoke() {
		done := false
		for l := range get(cc.Value) {
			if l.kind == 'F' && len(l.fn.Blocks) > 0 && isRepoFunc(l.fn) {
				var fvs []tset
				for i := range l.fn.FreeVars {
					if l.obj != nil {
						fvs = append(fvs, l.obj.get(fmt.Sprintf("bind%d", i)))
					}
				}
				apply(l.fn, args, fvs)
				done = true
			}
		}
		if done {
			return
		}
	}
	// anything else: the result, and whatever the arguments point to, may contain
	// the personal data reachable from the arguments
	if i, ok := mutatedArg(callName(cc)); ok && i < len(args) {
		x.write(ci, callName(cc), args[i])
	}
	if protoreflectMutator(callName(cc)) {
		x.write(ci, callName(cc), args[0])
	}
	all := tset{}
	for _, a := range args {
		for l := range x.deep(a, nil) {
			all[l] = true
		}
	}
	// function arguments are run on the other arguments
	for _, a := range args {
		for l := range a {
			if l.kind == 'F' && l.fn != nil && len(l.fn.Blocks) > 0 && isRepoFunc(l.fn) {
				var as []tset
				for range l.fn.Params {
					in := tset{}
					for _, b := range args {
						for k := range elems(b) {
							in[k] = true
						}
					}
					as = append(as, in)
				}
				var fvs []tset
				for i := range l.fn.FreeVars {
					if l.obj != nil {
						fvs = append(fvs, l.obj.get(fmt.Sprintf("bind%d", i)))
					}
				}
				apply(l.fn, as, fvs)
			}
		}
	}
	if len(all) > 0 {
		for _, a := range args {
			x.put(ci, a, "", all)
		}
	}
	if val != nil && val.Type() != nil {
		if hasPointers(val.Type()) || val.Type().Underlying() != nil {
			if _, isTuple := val.Type().(*types.Tuple); isTuple || !isBool(val.Type()) && !isErrorType(val.Type()) {
				result(all)
			}
			for _, a := range args { // containers may be returned as they are
				if hasPointers(val.Type()) {
					for l := range a {
						if l.kind == 'O' && !isErrorType(val.Type()) {
							result(tset{l: true})
						}
					}
				}
			}
		}
	}
}

// mergeInto makes o (part) copy of the messages in s.
func (x *taint) mergeInto(ci ssa.CallInstruction, o *tobj, s tset, t types.Type) {
	for l := range s {
		switch l.kind {
		case 'M', 'C':
			if o.clone == nil {
				o.clone = t
				o.site = ci
				x.changed = true
			}
		case 'O':
			if l.obj.clone != nil && o.clone == nil {
				o.clone, o.site = l.obj.clone, ci
				x.changed = true
			}
			for f, v := range l.obj.fields {
				x.put(ci, tset{tlab{kind: 'O', obj: o}: true}, f, v)
			}
		}
	}
}

// overwritten reports whether every path from the copy to a return of its function
// sets or clears field f of the copy.
func overwritten(site ssa.Instruction, field string) bool {
	v, ok := site.(ssa.Value)
	if ci, isCall := site.(ssa.CallInstruction); isCall && strings.HasSuffix(callName(ci.Common()), "/proto.Merge") {
		v, ok = ci.Common().Args[0], true
		if mi, isMI := v.(*ssa.MakeInterface); isMI {
			v = mi.X
		}
	}
	if !ok {
		return false
	}
	f := site.Parent()
	isCopy := func(a ssa.Value) bool {
		for i := 0; i < 6; i++ {
			if a == v {
				return true
			}
			switch y := a.(type) {
			case *ssa.TypeAssert:
				a = y.X
			case *ssa.Extract:
				a = y.Tuple
			case *ssa.ChangeInterface:
				a = y.X
			case *ssa.MakeInterface:
				a = y.X
			case *ssa.Phi:
				return false
			default:
				return false
			}
		}
		return false
	}
	hit := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			k, fl, _ := protoMethod(ci.Common())
			if (k == "Set" || k == "Clear") && fl == field && len(ci.Common().Args) > 0 && isCopy(ci.Common().Args[0]) {
				if b != site.Block() || instrIndex(in) > instrIndex(site) {
					hit[b] = true
				}
			}
			if k == "Other" && fl == "Reset" && isCopy(ci.Common().Args[0]) {
				hit[b] = true
			}
		}
	}
	if hit[site.Block()] {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool
	free = func(b *ssa.BasicBlock) bool {
		if seen[b] || hit[b] {
			return false
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range b.Succs {
			if free(s) {
				return true
			}
		}
		return false
	}
	if _, ok := site.Block().Instrs[len(site.Block().Instrs)-1].(*ssa.Return); ok {
		return false
	}
	for _, s := range site.Block().Succs {
		if free(s) {
			return false
		}
	}
	return true
}

func runP21(c *Ctx, r *Report) {
	roots := c.anonRoots()
	x := &taint{c: c, objs: map[string]*tobj{}, memo: map[string][]tset{}, ids: map[string]string{}, tuples: map[string]map[ssa.Value][]tset{}, vals: map[string]map[ssa.Value]tset{}, busy: map[string]bool{}, sets: map[ssa.Instruction]bool{}, writes: map[ssa.Instruction]bool{}, mut: map[ssa.Instruction]string{}, edited: map[string]bool{}, gets: map[ssa.Instruction]bool{}}
	obl := 0
	leakable := 0
	for _, f := range roots {
		var args []tset
		for _, p := range f.Params {
			s := tset{}
			if isProtoMsg(p.Type()) {
				s[tlab{kind: 'M', src: protoMsgName(p.Type())}] = true
			} else if sl, ok := p.Type().Underlying().(*types.Slice); ok && isProtoMsg(sl.Elem()) {
				s[tlab{kind: 'M', src: protoMsgName(sl.Elem())}] = true
			}
			args = append(args, s)
		}
		var res []tset
		for i := 0; i < 100; i++ {
			x.changed = false
			res = x.call(f, args, nil, "", 0)
			if !x.changed {
				break
			}
		}
		if x.over {
			panic("anonymisation taint: call depth exceeded in " + fname(f))
		}
		seen := map[*tobj]bool{}
		report := func(in ssa.Instruction, what, src string) {
			fn, pos := fname(f), c.P.instrPos(f.Blocks[0].Instrs[0])
			if in != nil {
				fn, pos = fname(in.Parent()), c.P.instrPos(in)
			}
			r.add(Finding{Rule: "personal-data", Fn: fn, What: what + "<-" + src, Pos: pos,
				Msg: fmt.Sprintf("the result of %s can contain personal data of the original: %s receives a value derived from %s", fname(f), what, src)})
		}
		var walk func(s tset, what string, at ssa.Instruction)
		walk = func(s tset, what string, at ssa.Instruction) {
			for l := range s {
				switch l.kind {
				case 'P', 'B':
					report(at, what, l.src)
				case 'M', 'C':
					report(at, what, "the original "+l.src)
				case 'O':
					if seen[l.obj] {
						continue
					}
					seen[l.obj] = true
					o := l.obj
					if o.clone != nil {
						var ps []string
						g := x.getters(o.clone)
						var names []string
						for n := range g {
							names = append(names, n)
						}
						sort.Strings(names)
						for _, n := range names {
							obl++
							ps = ps[:0]
							if personalField(protoMsgName(o.clone), n, g[n]) {
								ps = append(ps, n)
							} else if !structuralPart(n) {
								var all []string
								x.carries(g[n], map[string]bool{}, n, &all)
								for _, p := range all { // parts of the copy edited in place
									q := strings.Split(p, ".")
									if len(q) < 2 || !x.edited[protoMsgName(o.clone)+"."+q[0]+"."+q[1]] {
										ps = append(ps, p)
									}
								}
							}
							if len(ps) > 0 && !overwritten(o.site, n) {
								report(o.site, "the copy's "+n, protoMsgName(o.clone)+"."+ps[0])
							}
						}
					}
					var fs []string
					for k := range o.fields {
						fs = append(fs, k)
					}
					sort.Strings(fs)
					for _, k := range fs {
						obl++
						w := what
						if k != "" {
							w = protoMsgName(o.typ) + "." + k
						}
						walk(o.fields[k], w, o.where[k])
					}
				}
			}
		}
		for i, s := range res {
			obl++
			if isErrorType(f.Signature.Results().At(i).Type()) {
				continue
			}
			walk(s, "the result", nil)
		}
		for _, p := range f.Params {
			if isProtoMsg(p.Type()) {
				var ps []string
				x.carries(p.Type(), map[string]bool{}, "", &ps)
				leakable += len(ps)
			}
		}
	}
	// the original is left as it was
	for in, what := range x.mut {
		r.add(Finding{Rule: "mutates-original", Fn: fname(in.Parent()), What: what, Pos: c.P.instrPos(in),
			Msg: "during anonymisation this may modify the original message"})
	}
	r.floor("operations_analysed", len(roots), 1)
	r.floor("setters_examined", len(x.sets), 1)
	r.floor("personal_fields_of_the_originals", leakable, 1)
	r.floor("writes_examined", len(x.writes), 1)
	r.Cov["getters_examined"] = len(x.gets)
	r.Cov["calls_analysed"] = x.calls
	r.Cov["result_fields_examined"] = obl
	r.Cov["explanation"] = "taint from every personal field (text, byte strings, positions, dates of birth, serial numbers) of the message given to each Anonymize operation to every field of the message it returns, through all helpers and serialisers; and no store, setter, copy or writing library call reaches the original"
	r.Cov["proof"] = proofCov(obl+len(x.writes), r)
	r.Assume = append(r.Assume, "flows through branch conditions are not counted as copies", "personal data are the text, byte-string, position, date and serial-number fields; times, odometer readings, coded values, indices and the preferred language are not")
}
