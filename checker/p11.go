package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P11"] = check{level: "other", run: runFraming} }

// P11: how long a transfer of a vehicle unit is.
//
// For every transfer type there is one length, a polynomial over the counts and sizes in
// the data (spec). The function that sizes transfers has to return it, and the decoder of
// the transfer has to accept exactly a slice of that length.

// part of a transfer: n bytes; or a count of w bytes and records of n bytes; or a record
// array (type, size, count, records).
type part struct {
	w, n  int64
	array bool
}

func fixed(n int64) part      { return part{n: n} }
func counted(w, n int64) part { return part{w: w, n: n} }
func arrays(n int) []part {
	var out []part
	for i := 0; i < n; i++ {
		out = append(out, part{array: true})
	}
	return out
}

// transferLayout: Annex 1B and 1C, Appendix 7, 2.2.6; sizes of the records from Appendix 1.
var transferLayout = map[string][]part{
	"DOWNLOAD_INTERFACE_VERSION": {fixed(2)},
	// two certificates, VIN, VRN, time, period, slots, download activity; company locks;
	// controls; signature
	"OVERVIEW_GEN1":   {fixed(194 + 194 + 17 + 15 + 4 + 8 + 1 + 58), counted(1, 98), counted(1, 31), fixed(128)},
	"ACTIVITIES_GEN1": {fixed(4 + 3), counted(2, 129), counted(2, 2), counted(1, 28), counted(2, 5), fixed(128)},
	// faults, events, over speeding control, over speeding events, time adjustments
	"EVENTS_AND_FAULTS_GEN1":    {counted(1, 82), counted(1, 83), fixed(9), counted(1, 31), counted(1, 98), fixed(128)},
	"DETAILED_SPEED_GEN1":       {counted(2, 64), fixed(128)},
	"TECHNICAL_DATA_GEN1":       {fixed(116 + 20), counted(1, 167), fixed(128)},
	"OVERVIEW_GEN2_V1":          arrays(11),
	"OVERVIEW_GEN2_V2":          arrays(11),
	"ACTIVITIES_GEN2_V1":        arrays(8),
	"ACTIVITIES_GEN2_V2":        arrays(10),
	"EVENTS_AND_FAULTS_GEN2_V1": arrays(6),
	"EVENTS_AND_FAULTS_GEN2_V2": arrays(6),
	"DETAILED_SPEED_GEN2":       arrays(2),
	"TECHNICAL_DATA_GEN2_V1":    arrays(8),
	"TECHNICAL_DATA_GEN2_V2":    arrays(8),
}

func lengthOf(parts []part) poly {
	at := pconst(0)
	for _, p := range parts {
		switch {
		case p.array:
			at = at.add(pconst(5), 1).add(be(at.add(pconst(1), 1), 2).mul(be(at.add(pconst(3), 1), 2)), 1)
		case p.w > 0:
			at = at.add(pconst(p.w), 1).add(be(at, int(p.w)).mul(pconst(p.n)), 1)
		default:
			at = at.add(pconst(p.n), 1)
		}
	}
	return at
}

// plain: names without what differs between the spellings of a transfer and a message.
func plain(s string) string {
	return strings.ToUpper(strings.ReplaceAll(s, "_", ""))
}

func runFraming(c *Ctx, r *Report) {
	vu := ""
	var sizers, decoders, splitters []*ssa.Function
	for _, f := range sortedFuncs(c.P.All) {
		p := funcPkg(f)
		if p == nil || !isRepoFunc(f) || f.Parent() != nil || len(f.Blocks) == 0 || !strings.HasSuffix(p.Path(), "/internal/vu") || f.Synthetic != "" {
			continue
		}
		vu = p.Path()
		sig := f.Signature
		data, typ := 0, false
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if isByteSlice(t) {
				data++
			}
			if n := namedOf(t); n != nil && n.Obj().Name() == "TransferType" {
				typ = true
			}
		}
		if data != 1 || sig.Results().Len() != 2 || !isErrorType(sig.Results().At(1).Type()) {
			continue
		}
		t := sig.Results().At(0).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int && typ {
			sizers = append(sizers, f)
		}
		if isProtoMsg(t) {
			if protoMsgName(t) == "RawVehicleUnitFile" {
				splitters = append(splitters, f)
			} else {
				decoders = append(decoders, f)
			}
		}
	}
	_ = vu
	// the sizer that handles all types: it calls the others
	var root *ssa.Function
	for _, f := range sizers {
		called := false
		for _, g := range sizers {
			for _, ci := range callsOf(g) {
				if g != f && ci.Common().StaticCallee() == f {
					called = true
				}
			}
		}
		if !called {
			root = f
		}
	}
	pos := func(f *ssa.Function) string { return relPos(c.P.SSA.Fset.Position(f.Pos())) }
	if root == nil {
		r.add(Finding{Rule: "floor", Fn: "internal/vu", What: "sizer", Msg: "no function that sizes a transfer of a given type was found"})
		return
	}
	typeParam, dataParam := -1, -1
	var enum *types.Named
	for i, p := range root.Params {
		if isByteSlice(p.Type()) {
			dataParam = i
		}
		if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "TransferType" {
			typeParam, enum = i, n
		}
	}
	codes := map[string]int64{}
	if enum != nil {
		sc := enum.Obj().Pkg().Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), enum) {
				if v, ok := constant.Int64Val(k.Val()); ok {
					codes[strings.TrimPrefix(n, "TransferType_")] = v
				}
			}
		}
	}
	lens := map[string]bool{}
	undecided := []string{}
	sized, decoded, whole, obl := 0, 0, 0, 0
	var names []string
	for n := range transferLayout {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		code, ok := codes[n]
		if !ok {
			undecided = append(undecided, n+": no such transfer type")
			continue
		}
		want := lengthOf(transferLayout[n])
		// the size
		k := &frames{lens: lens}
		args := make([]fval, len(root.Params))
		for i := range args {
			args[i] = funknown
		}
		args[dataParam] = fval{kind: 's', pos: pconst(0), p: patom("len")}
		args[typeParam] = fint(pconst(code))
		ends := k.call(root, args, nil, newFstate())
		if os.Getenv("P11TRACE") != "" {
			fmt.Println("SIZE", n, len(ends), k.fail, k.steps)
		}
		if k.fail != "" {
			undecided = append(undecided, n+" (size): "+k.fail)
		} else {
			okEnds := 0
			good := true
			for _, e := range ends {
				if e.res[1].kind == 'e' && e.res[1].flag == 'N' {
					continue
				}
				okEnds++
				obl++
				if !good {
					break
				}
				if e.res[0].kind != 'i' {
					undecided = append(undecided, n+" (size): the size is not a number that is followed")
					good = false
					continue
				}
				if d := e.res[0].p.add(want, -1); len(d) != 0 {
					if w, ok := differs(d, e.st.facts, map[string]poly{"len": want.add(patom("slack"), 1)}); ok {
						r.add(Finding{Rule: "size", Fn: fname(root), What: n, Pos: pos(root), Msg: "the size of a transfer is not that of its layout: " + w})
					} else {
						undecided = append(undecided, n+" (size): not shown equal")
					}
					good = false
				}
			}
			if good && okEnds > 0 {
				sized++
			}
			if okEnds == 0 {
				r.add(Finding{Rule: "size", Fn: fname(root), What: n, Pos: pos(root), Msg: "transfers of this type are never sized without an error"})
			} else if fs := limiting(ends, map[string]poly{"len": want.add(patom("slack"), 1)}); fs != "" {
				r.add(Finding{Rule: "size", Fn: fname(root), What: n, Pos: pos(root), Msg: "a complete transfer is refused when " + fs})
			}
		}
		// the decoders
		for _, f := range decoders {
			if plain(protoMsgName(f.Signature.Results().At(0).Type())) != plain(n) {
				continue
			}
			k := &frames{lens: lens}
			args := make([]fval, len(f.Params))
			for i, p := range f.Params {
				args[i] = funknown
				if isByteSlice(p.Type()) {
					args[i] = fval{kind: 's', pos: pconst(0), p: patom("len")}
				}
			}
			ends := k.call(f, args, nil, newFstate())
			if os.Getenv("P11TRACE") != "" {
				fmt.Println("DECODE", n, len(ends), k.fail, k.steps)
			}
			if k.fail != "" {
				undecided = append(undecided, fname(f)+": "+k.fail)
				continue
			}
			okEnds := 0
			same := true
			for _, e := range ends {
				if e.res[1].kind == 'e' && e.res[1].flag == 'N' {
					continue
				}
				okEnds++
				obl++
				var accepted poly
				for _, fc := range e.st.facts {
					if co := fc.p["len"]; fc.op == '=' && !fc.neg && (co == 1 || co == -1) {
						accepted = patom("len").add(fc.p, -co)
					}
				}
				// or from both sides
				above := false
				for _, up := range e.st.facts {
					if up.op != '<' || !up.neg && up.p["len"] != 1 || up.neg && up.p["len"] != -1 {
						continue
					}
					above = true
					most := patom("len").add(up.p, 1) // X - len >= 0
					if !up.neg {
						most = patom("len").add(up.p, -1).add(pconst(1), -1) // len - X < 0
					}
					for _, down := range e.st.facts {
						if down.op == '<' && (down.neg && down.p["len"] == 1 && patom("len").add(down.p, -1).key() == most.key() ||
							!down.neg && down.p["len"] == -1 && patom("len").add(down.p, 1).add(pconst(1), 1).key() == most.key()) {
							accepted = most
						}
					}
				}
				switch {
				case accepted != nil && same:
					if d := accepted.add(want, -1); len(d) != 0 {
						same = false
						if w, ok := differs(d, e.st.facts, map[string]poly{"len": accepted}); ok {
							r.add(Finding{Rule: "decode", Fn: fname(f), What: n, Pos: pos(f), Msg: "the decoder accepts a length that is not that of the layout: " + w})
						} else {
							undecided = append(undecided, fname(f)+": not shown equal")
						}
					}
				case accepted != nil:
				case e.st.loose:
					same = false
					undecided = append(undecided, fname(f)+": the data is handed on")
				case e.st.reads && (e.st.unsure || above):
					same = false
					undecided = append(undecided, fname(f)+": which lengths it accepts")
				case e.st.reads:
					same = false
					r.add(Finding{Rule: "decode", Fn: fname(f), What: n, Pos: pos(f), Msg: "the decoder accepts a transfer without comparing what it read with its length"})
				default:
					same = false
					whole++
				}
			}
			if okEnds == 0 {
				r.add(Finding{Rule: "decode", Fn: fname(f), What: n, Pos: pos(f), Msg: "no transfer of this type is ever accepted"})
				continue
			}
			if same {
				decoded++
			}
			if fs := limiting(ends, map[string]poly{"len": want}); fs != "" {
				r.add(Finding{Rule: "decode", Fn: fname(f), What: n, Pos: pos(f), Msg: "a complete transfer is refused when " + fs})
			}
		}
	}
	// the splitter gives every transfer as many bytes as it was sized
	split := 0
	for _, f := range splitters {
		uses := false
		for _, ci := range callsOf(f) {
			if ci.Common().StaticCallee() == root {
				uses = true
			}
		}
		if !uses {
			undecided = append(undecided, fname(f)+": the sizes are used elsewhere")
			continue
		}
		k := &frames{lens: lens, sizer: root}
		args := make([]fval, len(f.Params))
		for i, p := range f.Params {
			args[i] = funknown
			if isByteSlice(p.Type()) {
				args[i] = fval{kind: 's', pos: pconst(0), p: patom("len")}
			}
		}
		k.call(f, args, nil, newFstate())
		if len(k.rounds) == 0 {
			undecided = append(undecided, fname(f)+": "+k.fail)
			continue
		}
		for _, b := range k.rounds {
			obl++
			// the phi that stands for the offset: value at pos p, next offset p+size
			for v := range b.st.vals {
				i := strings.Index(v, ":")
				p, n := v[:i], v[i+1:]
				good := n == patom("size("+p+")").key()
				// where the next one begins: the variable the position is made of
				next, wrong := false, ""
				for a, x := range b.next {
					// the same distance behind the variable as before
					var from poly
					switch x.kind {
					case 'i':
						from = x.p
					case 's':
						from = x.pos
					default:
						continue
					}
					at := b.st.at[v]
					if at[a] != 1 {
						continue
					}
					if d := from.add(patom("size("+p+")"), -1).add(at, -1); len(d) == 0 {
						next = true
					} else {
						wrong = from.key()
					}
				}
				if !good {
					r.add(Finding{Rule: "split", Fn: fname(f), What: "value", Pos: pos(f), Msg: "a transfer is given the bytes at " + p + " of length " + n + ", not as many as it was sized from there"})
				} else if !next && wrong != "" {
					r.add(Finding{Rule: "split", Fn: fname(f), What: "next", Pos: pos(f), Msg: "behind a transfer at " + p + " the next one is looked for at " + wrong + ", not as many bytes on as it was sized"})
				} else if !next {
					undecided = append(undecided, fname(f)+": where the next transfer begins")
				} else {
					split++
				}
			}
		}
	}
	sort.Strings(undecided)
	r.Cov["obligations"], r.Cov["discharged"] = obl, obl
	r.Cov["undecided_transfers"] = undecided
	r.Cov["undecided"] = len(undecided)
	r.Cov["decoders_of_the_whole"] = whole
	r.floor("sizes", sized, 5)
	r.floor("decoders", decoded, 3)
	r.Cov["rounds_of_the_splitter"] = split
}

// limiting names a test all successful ends have passed, and which a complete transfer
// may fail.
func limiting(ends []fend, at map[string]poly) string {
	count := map[string]int{}
	facts := map[string]fcond{}
	n := 0
	for _, e := range ends {
		if l := len(e.res); e.res[l-1].kind == 'e' && e.res[l-1].flag == 'N' {
			continue
		}
		n++
		for k, f := range e.st.facts {
			count[k]++
			facts[k] = f
		}
	}
	var keys []string
	for k := range facts {
		if count[k] == n {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		f := facts[key]
		p := f.p
		for a, by := range at {
			p = p.subst(a, by)
		}
		f.p = p
		lo, hi := p.limits()
		switch {
		case f.op == '<' && !f.neg && hi < 0, f.op == '<' && f.neg && lo >= 0:
			continue
		case f.op == '=' && !f.neg && len(p) == 0, f.op == '=' && f.neg && (lo > 0 || hi < 0):
			continue
		}
		no := f
		no.neg = !no.neg
		if w, ok := differs(nil, map[string]fcond{key: no}, nil); ok {
			return w
		}
	}
	return ""
}

// differs looks for bytes with which a difference is not zero, given what is known. The
// bytes are drawn from a few values; those at positions that depend on other bytes are
// looked up at the positions these give.
func differs(d poly, facts map[string]fcond, at map[string]poly) (string, bool) {
	var conds []fcond
	if at == nil {
		// the length, if it is known
		for _, f := range facts {
			if co := f.p["len"]; f.op == '=' && !f.neg && (co == 1 || co == -1) {
				at = map[string]poly{"len": patom("len").add(f.p, -co)}
			}
		}
	}
	for _, f := range facts {
		p := f.p
		for a, by := range at {
			p = p.subst(a, by)
		}
		f.p = p
		conds = append(conds, f)
	}
	if d != nil {
		for a, by := range at {
			d = d.subst(a, by)
		}
	}
	// the atoms a polynomial depends on, those inside derived ones included
	bad := false
	var note func(p poly, into map[string]bool)
	note = func(p poly, into map[string]bool) {
		for k := range p {
			if k == "" {
				continue
			}
			for _, a := range strings.Split(k, "*") {
				if dv, ok := derivations[a]; ok {
					note(dv.x, into)
					note(dv.y, into)
				} else if !strings.HasPrefix(a, "b(") && a != "slack" && a != "len" {
					bad = true
				} else {
					into[a] = true
				}
			}
		}
	}
	// the conditions with the fewest atoms first, the difference last
	uses := make([]map[string]bool, len(conds))
	for i, c := range conds {
		uses[i] = map[string]bool{}
		note(c.p, uses[i])
	}
	order := make([]int, len(conds))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool {
		i, j := order[a], order[b]
		if len(uses[i]) != len(uses[j]) {
			return len(uses[i]) < len(uses[j])
		}
		return conds[i].key() < conds[j].key()
	})
	var list []string
	index := map[string]int{}
	add := func(atoms map[string]bool) {
		var as []string
		for a := range atoms {
			if _, ok := index[a]; !ok {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, j int) bool {
			if len(as[i]) != len(as[j]) {
				return len(as[i]) < len(as[j])
			}
			return as[i] < as[j]
		})
		for _, a := range as {
			index[a] = len(list)
			list = append(list, a)
		}
	}
	// the atoms of the difference last: they are the first to be changed again
	inD := map[string]bool{}
	note(d, inD)
	for _, i := range order {
		rest := map[string]bool{}
		for a := range uses[i] {
			if !inD[a] {
				rest[a] = true
			}
		}
		add(rest)
	}
	for _, i := range order {
		add(uses[i])
	}
	add(inD)
	tests := map[int][]fcond{}
	for _, i := range order {
		n := 0
		for a := range uses[i] {
			n = max(n, index[a]+1)
		}
		tests[n] = append(tests[n], conds[i])
	}
	if bad {
		return "", false
	}
	var eval func(p poly, val map[string]int64) (int64, bool)
	eval = func(p poly, val map[string]int64) (int64, bool) {
		s := int64(0)
		for k, v := range p {
			t := v
			if k != "" {
				for _, a := range strings.Split(k, "*") {
					if dv, ok := derivations[a]; ok {
						x, ok := dv.value(func(q poly) (int64, bool) { return eval(q, val) })
						if !ok {
							return 0, false
						}
						t *= x
					} else {
						t *= val[a]
					}
				}
			}
			s += t
		}
		return s, true
	}
	// Two atoms at different positions are different bytes if the positions differ by a
	// polynomial that is never zero; positions grow along the layout, so it is enough to
	// take every atom for itself here and to accept the first assignment.
	choices := []int64{0, 1, 2, 255, 128, 100}
	if len(list) > 6 {
		choices = []int64{0, 1, 255}
	}
	// and what the conditions compare with
	have := map[int64]bool{}
	for _, v := range choices {
		have[v] = true
	}
	for _, c := range conds {
		n := c.p[""]
		if n < 0 {
			n = -n
		}
		for _, v := range []int64{n, n - 1, n + 1, n >> 8, n & 255} {
			if v >= 0 && v <= 255 && !have[v] && len(choices) < 16 {
				have[v] = true
				choices = append(choices, v)
			}
		}
	}
	steps := 0
	var found map[string]int64
	var rec func(i int, val map[string]int64) bool
	rec = func(i int, val map[string]int64) bool {
		if steps++; steps > 50000 {
			return false
		}
		for _, c := range tests[i] {
			x, ok := eval(c.p, val)
			h := c.op == '<' && x < 0 || c.op == '=' && x == 0
			if !ok || h == c.neg {
				return false
			}
		}
		if i == len(list) {
			if d != nil {
				if x, ok := eval(d, val); !ok || x == 0 {
					return false
				}
			}
			found = map[string]int64{}
			for k, v := range val {
				found[k] = v
			}
			return true
		}
		cs := choices
		if list[i] == "len" {
			cs = []int64{1 << 24, 1 << 20, 1000, 129, 128, 127, 100, 2, 1, 0}
		}
		if list[i] == "slack" {
			cs = []int64{0, 1, 100000}
		}
		for _, v := range cs {
			val[list[i]] = v
			if rec(i+1, val) {
				return true
			}
		}
		return false
	}
	if !rec(0, map[string]int64{}) {
		return "", false
	}
	var parts []string
	for _, a := range list {
		if a != "slack" && a != "len" && found[a] != 0 {
			at := place(a)
			if len(at) > 40 {
				at = at[:40] + "..."
			}
			parts = append(parts, fmt.Sprintf("the byte at %s is %d", at, found[a]))
		}
	}
	if len(parts) > 4 {
		parts = append(parts[:4], "...")
	}
	s := strings.Join(parts, ", ")
	if s == "" {
		s = "all counts are zero"
	}
	if d != nil {
		n, _ := eval(d, found)
		s += fmt.Sprintf(": %+d bytes", n)
	}
	return s, true
}
