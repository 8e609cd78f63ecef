package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P12"] = check{level: "proof", run: runP12} }

// P12: every transfer of a vehicle unit file goes to the code for its own type.
//
// The schema says what belongs together: the enum of transfer types (with its
// generation and version annotations) and the file messages whose fields take one
// message per transfer. The assembly of a file is then followed for every single
// transfer and every pair of transfers.

type vuField struct {
	name string // field name as in Get/Set
	elem string // lower-case message name
	list bool
}

type vuFile struct {
	name   string // field of VehicleUnitFile
	msg    string
	fields []vuField
}

func protoFields(t types.Type) []vuField {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []vuField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n, ok := strings.CutPrefix(f.Name(), "xxx_hidden_")
		if !ok {
			continue
		}
		ft := f.Type()
		list := false
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			if s, ok := p.Elem().Underlying().(*types.Slice); ok {
				ft, list = s.Elem(), true
			}
		} else if s, ok := ft.Underlying().(*types.Slice); ok && !isByteElem(s) {
			ft, list = s.Elem(), true
		}
		e := ""
		if nm := namedOf(derefType(ft)); nm != nil && isProtoMsg(ft) {
			e = nm.Obj().Name()
		}
		out = append(out, vuField{n, e, list})
	}
	return out
}

func msgOfField(t types.Type, name string) types.Type {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "xxx_hidden_"+name {
			return st.Field(i).Type()
		}
	}
	return nil
}

func runP12(c *Ctx, r *Report) {
	enums, _, _ := c.descriptors()
	byField := map[string]int{}
	for g, n := range c.extFields() {
		byField[g.Name()] = n
	}
	var tt *enumDesc
	for _, e := range enums {
		if e.name == "TransferType" {
			tt = e
		}
	}
	var root *ssa.Function
	isRoot := map[*ssa.Function]bool{}
	for f := range c.P.All {
		if isRepoFunc(f) && f.Synthetic == "" && returnsMsg(f, "VehicleUnitFile") && takesBytes(f) {
			isRoot[f] = true
		}
	}
	for _, f := range sortedFuncs(isRoot) {
		inner := false
		for g := range isRoot {
			for _, ci := range callsOf(g) {
				inner = inner || ci.Common().StaticCallee() == f
			}
		}
		if !inner {
			root = f
		}
	}
	if tt == nil || root == nil {
		r.add(Finding{Rule: "undecided", Fn: "internal/vu", What: "anchors", Msg: "the transfer type enum or UnmarshalVehicleUnitFile is gone"})
		return
	}
	fileT := root.Signature.Results().At(0).Type()
	var files []vuFile
	elems := map[string]bool{}
	for _, f := range protoFields(fileT) {
		if f.elem == "" {
			continue
		}
		vf := vuFile{name: f.name, msg: f.elem}
		for _, g := range protoFields(msgOfField(fileT, f.name)) {
			if g.elem != "" {
				vf.fields = append(vf.fields, g)
				elems[g.elem] = true
			}
		}
		files = append(files, vf)
	}
	// the message of each transfer type
	msgs := map[int64]string{}
	treps := map[int64]string{}
	var all []enumVal
	for _, v := range tt.vals {
		if v.num == 0 {
			continue
		}
		all = append(all, v)
		code, ok := v.opts[byField["E_TrepValue"]]
		if !ok {
			r.add(Finding{Rule: "code", Fn: "TransferType", What: v.name, Msg: "the transfer type has no transfer response code, so no transfer is ever recognised as one"})
		} else if o := treps[code]; o != "" {
			r.add(Finding{Rule: "code", Fn: "TransferType", What: v.name, Msg: fmt.Sprintf("shares transfer response code %d with %s", code, o)})
		} else {
			treps[code] = v.name
		}
		for e := range elems {
			if normName(e) == normName(v.name) {
				msgs[v.num] = e
			}
		}
	}
	for e := range elems {
		n := 0
		for _, m := range msgs {
			if m == e {
				n++
			}
		}
		if n != 1 {
			r.add(Finding{Rule: "code", Fn: "TransferType", What: e, Msg: fmt.Sprintf("%d transfer types carry this message, want one", n)})
		}
	}
	// fieldOf: where a file message keeps the transfers of a type
	fieldOf := func(f vuFile, t int64) *vuField {
		for i := range f.fields {
			if m := msgs[t]; m != "" && f.fields[i].elem == m {
				return &f.fields[i]
			}
		}
		return nil
	}
	isDecoder := func(f *ssa.Function) string {
		for m := range elems {
			if returnsMsg(f, m) && takesBytes(f) {
				return m
			}
		}
		return ""
	}
	isRaw := func(f *ssa.Function) bool { return returnsMsg(f, "RawVehicleUnitFile") && takesBytes(f) }
	pos := relPos(c.P.SSA.Fset.Position(root.Pos()))
	runs, paths, stores, rejects := 0, 0, 0, 0
	follow := func(ts []int64) {
		runs++
		e := newTpath(c)
		e.unroll, e.keepAll, e.maxIter = true, true, len(ts)+2
		e.inline = isRepoFunc
		st := newTstate()
		data := e.mk("arg0:data")
		// the records the splitter returns
		var items []*term
		seed := func(st *tstate, list *term) {
			items = nil
			n := e.mk("len", list)
			for i := 0; i <= len(ts); i++ {
				t := e.less(e.constTerm(constant.MakeInt64(int64(i))), n, nil0(e))
				if i < len(ts) {
					e.assume(st, t, true)
				} else {
					e.assume(st, t, false)
				}
			}
			for i, t := range ts {
				it := e.mk("load", e.mk("iaddr", list, e.constTerm(constant.MakeInt64(int64(i)))))
				items = append(items, it)
				e.assume(st, e.mk("==", e.mk("get:Type", it), e.constTerm(constant.MakeInt64(t))), true)
				gen := int64(0)
				for _, v := range all {
					if v.num == t {
						gen = v.opts[byField["E_Generation"]]
					}
				}
				e.assume(st, e.mk("==", e.mk("get:Generation", it), e.constTerm(constant.MakeInt64(gen))), true)
			}
		}
		var raw *term
		e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
			if m := isDecoder(g); m != "" && isRepoFunc(g) {
				t := e.mk("decode:"+m, args...)
				return []*term{e.mk("ret0", t), e.mk("ret1", t)}
			}
			if !isRepoFunc(g) || !isRaw(g) {
				return nil
			}
			raw = e.mk("split", args...)
			seed(st, e.mk("get:Records", e.mk("ret0", raw)))
			return []*term{e.mk("ret0", raw), e.mk("ret1", raw)}
		}
		var args []*term
		for range root.Params {
			args = append(args, data)
		}
		outs := e.exec(root, args, nil, st, "", 0)
		if e.over {
			r.add(Finding{Rule: "undecided", Fn: fname(root), What: "path budget", Msg: "too many paths to enumerate"})
			return
		}
		label := ""
		for _, t := range ts {
			nm := fmt.Sprint("transfer type ", t)
			for _, v := range all {
				if v.num == t {
					nm = v.name
				}
			}
			label += " " + nm
		}
		label = label[1:]
		if raw == nil {
			r.add(Finding{Rule: "undecided", Fn: fname(root), What: "splitter", Msg: "no call of the splitter was found"})
			return
		}
		// which file message can hold them all
		var home []vuFile
		for _, f := range files {
			ok := true
			for _, t := range ts {
				ok = ok && fieldOf(f, t) != nil
			}
			if ok {
				home = append(home, f)
			}
		}
		good := 0
		for _, o := range outs {
			paths++
			if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
				continue
			}
			st := o.st
			where := pos
			if len(home) == 0 {
				r.add(Finding{Rule: "accepted", Fn: fname(root), What: label, Pos: where,
					Msg: "a file with these transfers is accepted although no generation's file message has a place for all of them: at least one is dropped"})
				continue
			}
			res := o.res[0]
			var fine bool
			var why string
			for _, f := range home {
				sub := st.fields[res.key+"."+f.name]
				if sub == nil || sub.op == "nil" {
					if why == "" {
						why = "the result has no " + f.name + " part"
					}
					continue
				}
				// every transfer in its place, in order
				ok := true
				for _, fl := range f.fields {
					var want []*term
					for i, t := range ts {
						if fo := fieldOf(f, t); fo != nil && fo.name == fl.name {
							want = append(want, e.mk("get:Value", items[i]))
						}
					}
					if len(want) == 0 {
						continue
					}
					v := st.fields[sub.key+"."+fl.name]
					var got []*term
					if v != nil {
						if fl.list {
							got = e.listOf(st, v)
						} else {
							got = []*term{unstored(v)}
							want = want[len(want)-1:]
						}
					}
					if len(got) != len(want) {
						ok, why = false, fmt.Sprintf("%s.%s holds %d of %d transfers", f.msg, fl.name, len(got), len(want))
						break
					}
					for i, g := range got {
						call := g
						if g.op == "ret0" {
							call = g.args[0]
						}
						m, _ := strings.CutPrefix(call.op, "decode:")
						has := false
						for _, a := range call.args {
							has = has || unstored(a) == want[i]
						}
						switch {
						case m == "" || m != fl.elem:
							ok, why = false, fmt.Sprintf("%s.%s is not filled by a decoder of its message", f.msg, fl.name)
						case !has:
							ok, why = false, fmt.Sprintf("%s.%s entry %d is not decoded from the value of transfer %d", f.msg, fl.name, i+1, i+1)
						case call != g && e.nilness(st, e.mk("ret1", call)) != 'n':
							ok, why = false, fmt.Sprintf("%s.%s entry %d is stored although decoding it may have failed", f.msg, fl.name, i+1)
						}
					}
				}
				// generation and version as annotated
				if ok {
					for _, t := range ts {
						for _, v := range all {
							if v.num != t {
								continue
							}
							for _, a := range []struct{ ext, field string }{{"E_Generation", "Generation"}, {"E_Version", "Version"}} {
								want, has := v.opts[byField[a.ext]]
								if !has {
									continue
								}
								g := st.fields[res.key+"."+a.field]
								if g == nil || unstored(g).cst == nil || unstored(g).cst.ExactString() != fmt.Sprint(want) {
									ok, why = false, fmt.Sprintf("the file's %s is not that of %s", a.field, v.name)
								}
							}
						}
					}
				}
				if ok {
					fine = true
					stores++
				}
			}
			if fine {
				good++
			} else {
				r.add(Finding{Rule: "misplaced", Fn: fname(root), What: label, Pos: where, Msg: "a file with these transfers is accepted, but " + why})
			}
		}
		if len(home) == 0 {
			rejects++
		} else if good == 0 {
			r.add(Finding{Rule: "rejected", Fn: fname(root), What: label, Pos: pos, Msg: "no path accepts a file with these transfers with each of them stored in its place"})
		}
	}
	var types []int64
	for _, v := range all {
		types = append(types, v.num)
	}
	types = append(types, 9999) // a type this version does not know
	for _, a := range types {
		follow([]int64{a})
		if len(r.Findings) > 40 {
			break
		}
		for _, b := range types {
			follow([]int64{a, b})
		}
	}
	c.vuSplitter(r, tt, all, byField, isRaw)
	r.Cov["rule"] = "for every transfer type and every ordered pair of types: a file of these transfers is either rejected, or every transfer is decoded from its own value by a decoder of its own message and stored in the field of that message, in file order, under the annotated generation and version"
	r.Cov["runs"] = runs
	r.Cov["paths"] = paths
	r.Cov["stored"] = stores
	r.Cov["rejected_combinations"] = rejects
	r.Cov["obligations"] = runs
	r.floor("transfer types", len(all), 16)
	r.floor("file messages", len(files), 3)
	r.floor("accepted combinations", stores, 50)
}

// vuSplitter: the records of the splitter carry the type whose code was read, its
// generation, and the bytes the sizing of that type measured.
func (c *Ctx) vuSplitter(r *Report, tt *enumDesc, all []enumVal, ext map[string]int, isRaw func(*ssa.Function) bool) {
	var splitters, sizers []*ssa.Function
	isType := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Name() == tt.name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == tt.goPkg
	}
	isSizer := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		if !isRepoFunc(f) || res.Len() != 2 || !isInt(res.At(0).Type()) || !isErrorType(res.At(1).Type()) || !takesBytes(f) {
			return false
		}
		for _, p := range f.Params {
			if isType(p.Type()) {
				return true
			}
		}
		return false
	}
	for _, f := range sortedFuncs(c.P.All) {
		if isRepoFunc(f) && f.Synthetic == "" && len(f.Blocks) > 0 && isRaw(f) {
			splitters = append(splitters, f)
		}
	}
	model := c.newDescModel()
	cases := 0
	for _, f := range splitters {
		e := newTpath(c)
		e.unroll, e.keepAll, e.model = true, true, model
		e.inline = isRepoFunc
		e.limit = func(b *ssa.BasicBlock) int {
			if b.Parent() == f {
				return 2
			}
			return len(tt.vals) + 2
		}
		e.subst = func(st *tstate, g *ssa.Function, args []*term) []*term {
			if !isSizer(g) {
				return nil
			}
			seen := false
			for _, s := range sizers {
				seen = seen || s == g
			}
			if !seen {
				sizers = append(sizers, g)
			}
			t := e.mk("size", args...)
			return []*term{e.mk("ret0", t), e.mk("ret1", t)}
		}
		var args []*term
		for i := range f.Params {
			args = append(args, e.mk(fmt.Sprintf("arg%d:data", i)))
		}
		outs := e.exec(f, args, nil, newTstate(), "", 0)
		pos := relPos(c.P.SSA.Fset.Position(f.Pos()))
		if e.over {
			r.add(Finding{Rule: "undecided", Fn: fname(f), What: "path budget", Pos: pos, Msg: "too many paths to enumerate"})
			continue
		}
		got := map[int64]bool{}
		for _, o := range outs {
			if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
				continue
			}
			for _, rec := range e.listOf(o.st, valOr(o.st.fields[o.res[0].key+".Records"], e.nilTerm())) {
				fld := func(n string) *term { return valOr(o.st.fields[rec.key+"."+n], e.nilTerm()) }
				cases++
				tagT, typT := fld("Tag"), fld("Type")
				n, ok := intOf(unstored(typT))
				var ev *enumVal
				for i := range all {
					if ok && all[i].num == n {
						ev = &all[i]
					}
				}
				if ev == nil {
					r.add(Finding{Rule: "code", Fn: fname(f), What: "Type", Pos: pos, Msg: "a record's type is not one the schema lists for the code that was read: " + typT.key})
					continue
				}
				code := ev.opts[ext["E_TrepValue"]]
				deps := e.deps(o.st, tagT)
				match := false
				var known []string
				for t, v := range o.st.facts {
					if v == 't' && t.op == "==" && t.args[1].cst != nil && deps[t.args[0]] {
						known = append(known, t.args[1].cst.ExactString())
						if k, ok := intOf(t.args[1]); ok && k == 0x7600|code {
							match = true
						}
					}
				}
				if !match {
					r.add(Finding{Rule: "code", Fn: fname(f), What: ev.name, Pos: pos,
						Msg: fmt.Sprintf("a record becomes %s without its tag being equal to %#x (known about the tag: %v)", ev.name, 0x7600|code, known)})
					continue
				}
				got[n] = true
				if g, ok := intOf(unstored(fld("Generation"))); !ok || g != ev.opts[ext["E_Generation"]] {
					r.add(Finding{Rule: "generation", Fn: fname(f), What: ev.name, Pos: pos, Msg: "the record's generation is not the one annotated on its type: " + fld("Generation").key})
				}
				sized := false
				for d := range e.deps(o.st, fld("Value")) {
					if d.op == "size" {
						for _, a := range d.args {
							if k, ok := intOf(a); ok && k == n {
								sized = true
							}
						}
					}
				}
				if !sized {
					r.add(Finding{Rule: "size", Fn: fname(f), What: ev.name, Pos: pos, Msg: "the record's value is not cut by the size computed for its own type"})
				}
			}
		}
		for _, v := range all {
			if !got[v.num] {
				r.add(Finding{Rule: "code", Fn: fname(f), What: v.name, Pos: pos, Msg: "no path recognises a transfer of this type by its code"})
			}
		}
	}
	// every type is sized, and nothing else is
	for _, f := range sizers {
		for _, v := range append(append([]enumVal(nil), all...), enumVal{name: "an unknown type", num: 9999}) {
			e := newTpath(c)
			e.unroll, e.keepAll, e.model = true, true, model
			e.inline = isRepoFunc
			e.limit = func(b *ssa.BasicBlock) int { return 2 }
			var args []*term
			for i, p := range f.Params {
				if isType(p.Type()) {
					args = append(args, intTerm(e, v.num))
				} else {
					args = append(args, e.mk(fmt.Sprintf("arg%d:data", i)))
				}
			}
			ok := false
			for _, o := range e.exec(f, args, nil, newTstate(), "", 0) {
				ok = ok || len(o.res) == 2 && e.nilness(o.st, o.res[1]) != 'N'
			}
			cases++
			pos := relPos(c.P.SSA.Fset.Position(f.Pos()))
			switch {
			case e.over:
			case v.num == 9999 && ok:
				r.add(Finding{Rule: "size", Fn: fname(f), What: v.name, Pos: pos, Msg: "a transfer of a type that is not in the schema gets a size"})
			case v.num != 9999 && !ok:
				r.add(Finding{Rule: "size", Fn: fname(f), What: v.name, Pos: pos, Msg: "transfers of this type can never be sized: every path fails"})
			}
		}
	}
	r.Cov["splitter_cases"] = cases
	r.floor("splitters", len(splitters), 1)
	r.floor("sizing functions", len(sizers), 1)
}

func valOr(t, d *term) *term {
	if t == nil {
		return d
	}
	return t
}

func unstored(t *term) *term {
	for strings.HasPrefix(t.op, "stored:") {
		t = t.args[1]
	}
	return t
}

// listOf: the elements of a list built by appending to an empty one.
func (e *tpath) listOf(st *tstate, t *term) []*term {
	t = unstored(t)
	if t.op == "append" && len(t.args) > 0 {
		out := e.listOf(st, t.args[0])
		for _, a := range t.args[1:] {
			out = append(out, unstored(a))
		}
		return out
	}
	if t.op == "concat" {
		return append(e.listOf(st, t.args[0]), e.listOf(st, t.args[1])...)
	}
	if xs, ok := e.elems(st, t); ok {
		return xs
	}
	return nil
}

// closedList: a list of which every element is known.
func closedList(t *term) bool {
	t = unstored(t)
	switch t.op {
	case "nil":
		return true
	case "append":
		return len(t.args) > 0 && closedList(t.args[0])
	case "concat":
		return closedList(t.args[0]) && closedList(t.args[1])
	}
	return false
}

// returnsMsg: the first result is a message of that name.
func returnsMsg(f *ssa.Function, name string) bool {
	res := f.Signature.Results()
	if res.Len() == 0 || !isProtoMsg(res.At(0).Type()) {
		return false
	}
	n := namedOf(derefType(res.At(0).Type()))
	return n != nil && n.Obj().Name() == name
}

func takesBytes(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isByteSlice(p.Type()) {
			return true
		}
	}
	return false
}
