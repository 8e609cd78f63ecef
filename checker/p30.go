package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P30: a file's type, its payload and the input agree. The three public operations
// are followed path by path with the parsers, writers and verifiers opaque; what a
// path assumes about the first two bytes, the inferred card type or the file type
// is then evaluated for every value these can have.

func init() { checks["P30"] = check{level: "proof", run: runP30} }

type fileKinds struct {
	c        *Ctx
	r        *Report
	types    map[string]int64 // name of a file type -> number
	driver   int64            // number of CardType DRIVER_CARD
	cards    []int64
	und      map[string]bool
	paths    int
	obl, dis int
}

func camelName(s string) string {
	out := ""
	for _, w := range strings.Split(s, "_") {
		if w != "" {
			out += w[:1] + strings.ToLower(w[1:])
		}
	}
	return out
}

func inRoot(g *ssa.Function) bool { p := funcPkg(g); return p != nil && p.Path() == modPath }

// evalTerm: the value of a term when some terms have known values.
func (e *tpath) evalTerm(st *tstate, t *term, env func(*term) (constant.Value, bool)) (constant.Value, bool) {
	if t.cst != nil {
		return t.cst, true
	}
	if v, ok := env(t); ok {
		return v, true
	}
	sub := func(i int) (constant.Value, bool) { return e.evalTerm(st, t.args[i], env) }
	switch {
	case strings.HasPrefix(t.op, "stored:"):
		return sub(len(t.args) - 1)
	case t.op == "not":
		if v, ok := sub(0); ok && v.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(v)), true
		}
	case t.op == "cat":
		n := int64(0)
		for i := range t.args {
			v, ok := sub(i)
			if !ok || v.Kind() != constant.Int {
				return nil, false
			}
			k, _ := constant.Int64Val(v)
			n = n<<8 | k&0xff
		}
		return constant.MakeInt64(n), true
	case t.op == "==" || t.op == "<":
		a, ok := sub(0)
		b, ok2 := sub(1)
		if ok && ok2 && a.Kind() == b.Kind() {
			op := "=="
			if t.op == "<" {
				op = "<"
			}
			return constant.MakeBool(compareConst(a, op, b)), true
		}
	case strings.HasPrefix(t.op, "conv:") && len(t.args) == 1:
		if v, ok := sub(0); ok && v.Kind() == constant.Int {
			n, _ := constant.Int64Val(v)
			if w := convBytes(t.op); w > 0 && w < 8 {
				n &= 1<<(8*w) - 1
			}
			return constant.MakeInt64(n), true
		}
	case strings.HasPrefix(t.op, "bin") && len(t.args) == 2:
		a, ok := sub(0)
		b, ok2 := sub(1)
		if !ok || !ok2 || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil, false
		}
		x, _ := constant.Int64Val(a)
		y, _ := constant.Int64Val(b)
		w := 8
		fmt.Sscanf(t.op, "bin%d:", &w)
		i := strings.Index(t.op, ":")
		z := int64(0)
		switch t.op[i+1:] {
		case "+":
			z = x + y
		case "-":
			z = x - y
		case "*":
			z = x * y
		case "&":
			z = x & y
		case "|":
			z = x | y
		case "^":
			z = x ^ y
		case "<<":
			if y < 0 || y > 40 {
				return nil, false
			}
			z = x << y
		case ">>":
			if y < 0 || y > 62 {
				return nil, false
			}
			z = x >> y
		default:
			return nil, false
		}
		if w < 8 && w > 0 {
			z &= 1<<(8*w) - 1
		}
		return constant.MakeInt64(z), true
	case strings.HasPrefix(t.callee(), "slices.Contains") && !strings.HasPrefix(t.callee(), "slices.ContainsFunc") && closedList(t.args[0]):
		x, ok := e.evalTerm(st, t.args[1], env)
		if !ok {
			return nil, false
		}
		for _, y := range e.listOf(st, t.args[0]) {
			v, ok := e.evalTerm(st, y, env)
			if !ok {
				return nil, false
			}
			if compareConst(x, "==", v) {
				return constant.MakeBool(true), true
			}
		}
		return constant.MakeBool(false), true
	case t.callee() == "bytes.HasPrefix" || t.callee() == "bytes.Equal":
		xs, ok := e.elems(st, t.args[1])
		b, lo, hi, ok2 := e.rng(st, t.args[0])
		if !ok || !ok2 {
			return nil, false
		}
		if t.callee() == "bytes.Equal" {
			d := hi.add(lo, -1)
			if len(d.c) != 0 || d.k != int64(len(xs)) {
				return nil, false
			}
		}
		for i, x := range xs {
			want, ok := e.evalTerm(st, x, env)
			got, ok2 := e.evalTerm(st, e.byteAt(b, lo.add(linT{k: int64(i)}, 1)), env)
			if !ok || !ok2 {
				return nil, false
			}
			if !compareConst(want, "==", got) {
				return constant.MakeBool(false), true
			}
		}
		return constant.MakeBool(true), true
	}
	return nil, false
}

func compareConst(a constant.Value, op string, b constant.Value) bool {
	if op == "<" {
		x, _ := constant.Int64Val(a)
		y, _ := constant.Int64Val(b)
		return a.Kind() == constant.Int && x < y
	}
	return a.ExactString() == b.ExactString()
}

// fits: 'f' when a fact of the path contradicts the values, 't' when every fact
// that speaks of what has a value holds, '?' when one of those cannot be evaluated.
func (e *tpath) fits(st *tstate, env func(*term) (constant.Value, bool), about func(*term) bool) byte {
	res := byte('t')
	for t, v := range st.facts {
		x, ok := e.evalTerm(st, t, env)
		if ok && x.Kind() == constant.Bool && (v == 't' || v == 'f') {
			if constant.BoolVal(x) != (v == 't') {
				return 'f'
			}
			continue
		}
		for d := range e.deps(st, t) {
			if about(d) {
				res = '?'
			}
		}
	}
	return res
}

func runP30(c *Ctx, r *Report) {
	k := &fileKinds{c: c, r: r, types: map[string]int64{}, und: map[string]bool{}, driver: -1}
	enums, _, _ := c.descriptors()
	for _, en := range enums {
		for _, v := range en.vals {
			switch {
			case strings.HasSuffix(en.pkg, ".tachograph.v1") && strings.HasPrefix(en.name, "File") && strings.HasSuffix(en.name, "Type"):
				k.types[v.name] = v.num
			case strings.HasSuffix(en.pkg, ".card.v1") && en.name == "CardType":
				k.cards = append(k.cards, v.num)
				if v.name == "DRIVER_CARD" {
					k.driver = v.num
				}
			}
		}
	}
	found := map[string]int{}
	for _, f := range sortedFuncs(c.P.All) {
		if !inRoot(f) || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		switch f.Name() {
		case "UnmarshalFile":
			found[f.Name()]++
			k.unmarshal(f)
		case "MarshalFile":
			found[f.Name()]++
			k.marshal(f)
		case "VerifyFile":
			found[f.Name()]++
			k.verify(f)
		}
	}
	k.inference()
	und := []string{}
	for u := range k.und {
		und = append(und, u)
	}
	sort.Strings(und)
	r.Cov["rule"] = "every path of the public operations with the parsers, writers and verifiers opaque: for each value of the first two bytes a successful path stores exactly the payload its type names, made by a parser from the whole input without an error, and no payload under another type; for each file type the writer and the verifier are handed that type's payload and their result is passed on, any other type is an error"
	r.Cov["paths"] = k.paths
	r.Cov["obligations"] = k.obl
	r.Cov["discharged"] = k.dis
	r.Cov["undecided"] = und
	r.Cov["checker_cmd"] = "run.sh P30"
	r.Cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "generated protobuf accessors"}
	for _, n := range []string{"UnmarshalFile", "MarshalFile", "VerifyFile"} {
		if found[n] == 0 {
			r.add(Finding{Rule: "undecided", Fn: modPath, What: n, Msg: "the public operation is gone"})
		}
	}
	if k.types["VEHICLE_UNIT"] == 0 || k.types["DRIVER_CARD"] == 0 || k.types["RAW_CARD"] == 0 || k.driver < 0 {
		r.add(Finding{Rule: "undecided", Fn: modPath, What: "enums", Msg: "the file types or card types are gone from the schema"})
	}
	r.floor("obligations discharged", k.dis, 8)
}

func (k *fileKinds) engine() *tpath {
	e := newTpath(k.c)
	e.bytes, e.keepAll, e.splitLess, e.unroll = true, true, true, true
	e.inline = inRoot
	e.event = func(n string, cc *ssa.CallCommon) bool { g := cc.StaticCallee(); return g != nil && isRepoFunc(g) }
	return e
}

func (k *fileKinds) params(e *tpath, f *ssa.Function) []*term {
	var args []*term
	for i, p := range f.Params {
		t := e.mk(fmt.Sprintf("arg%d:%s", i, p.Name()))
		t.typ = p.Type()
		args = append(args, t)
	}
	return args
}

func (k *fileKinds) trace(f *ssa.Function, outs []toutcome) {
	if os.Getenv("P30TRACE") == "" {
		return
	}
	fmt.Println("==", fname(f), len(outs))
	for _, o := range outs {
		var fs []string
		for t, v := range o.st.facts {
			fs = append(fs, fmt.Sprintf("%c:%s", v, t.key))
		}
		sort.Strings(fs)
		fmt.Println("-- facts", fs)
		for x, v := range o.st.fields {
			fmt.Println("   field", x, "=", v.key)
		}
		for _, x := range o.res {
			fmt.Println("   res", x.key)
		}
	}
}

func (k *fileKinds) unmarshal(f *ssa.Function) {
	c, r := k.c, k.r
	e := k.engine()
	args := k.params(e, f)
	var data *term
	for i, p := range f.Params {
		if isByteSlice(p.Type()) {
			data = args[i]
		}
	}
	if data == nil {
		return
	}
	outs := e.exec(f, args, nil, newTstate(), "", 0)
	k.trace(f, outs)
	if e.over {
		r.add(Finding{Rule: "undecided", Fn: fname(f), What: "path budget", Msg: "too many paths to enumerate"})
		return
	}
	byNum := map[int64]string{}
	for n, v := range k.types {
		byNum[v] = n
	}
	at := func(i int64) *term { return e.byteAt(data, linT{k: i}) }
	b0, b1 := at(0), at(1)
	length := e.mk("len", data)
	about := func(t *term) bool {
		return t.op == "in" || strings.HasPrefix(t.op, "conv:string") || strings.HasPrefix(t.callee(), "bytes.") && !strings.HasPrefix(t.callee(), "bytes.Clone")
	}
	type kind struct {
		o    toutcome
		name string // file type, "" for an error
		pos  string
	}
	var kinds []kind
	for _, o := range outs {
		k.paths++
		pos := c.P.instrPos(o.ret)
		if len(o.res) < 2 {
			continue
		}
		if e.nilness(o.st, o.res[1]) == 'N' {
			kinds = append(kinds, kind{o, "", pos})
			continue
		}
		out := unstored(o.res[0])
		fields := map[string]*term{}
		for key, v := range o.st.fields {
			if fl, ok := strings.CutPrefix(key, out.key+"."); ok && v.op != "nil" {
				fields[fl] = v
			}
		}
		k.obl++
		tv := fields["Type"]
		if tv == nil || tv.cst == nil {
			if len(fields) == 0 {
				k.und["a successful path of "+fname(f)+" returns a message the analysis does not see built"] = true
			} else if tv == nil {
				r.add(Finding{Rule: "type-not-set", Fn: fname(f), What: "type", Pos: pos, Msg: "a file is returned without a type"})
			} else {
				k.und["the type a successful path of "+fname(f)+" sets is not a constant"] = true
			}
			kinds = append(kinds, kind{o, "?", pos})
			continue
		}
		n, _ := constant.Int64Val(tv.cst)
		name := byNum[n]
		kinds = append(kinds, kind{o, name, pos})
		delete(fields, "Type")
		want := camelName(name)
		good := true
		for fl := range fields {
			if fl != want {
				good = false
				r.add(Finding{Rule: "payload-differs-from-type", Fn: fname(f), What: name + "/" + fl, Pos: pos, Msg: fmt.Sprintf("a file of type %s is returned with the payload %s", name, fl)})
			}
		}
		p := fields[want]
		if p == nil {
			if good {
				r.add(Finding{Rule: "payload-missing", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("a file of type %s is returned without the payload %s", name, want)})
			}
			continue
		}
		for key := range o.st.fields {
			if fl, ok := strings.CutPrefix(key, unstored(p).key+"."); ok && unstored(p) != out {
				good = false
				r.add(Finding{Rule: "payload-changed", Fn: fname(f), What: name + "/" + fl, Pos: pos, Msg: fmt.Sprintf("field %s of the parsed %s is set again after parsing", fl, want)})
			}
		}
		why, known := k.whole(e, o.st, p, data, 0)
		switch {
		case !known:
			k.und["where the payload of type "+name+" comes from: "+why] = true
		case why != "":
			good = false
			r.add(Finding{Rule: "payload-not-whole", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("the payload of a file of type %s is %s", name, why)})
		}
		// the card type that was inferred
		if name == "DRIVER_CARD" || name == "RAW_CARD" {
			asked := map[*term]bool{}
			for t := range o.st.facts {
				for d := range e.deps(o.st, t) {
					if d.typ != nil && strings.HasPrefix(d.op, "call:") {
						if n := namedOf(d.typ); n != nil && n.Obj().Name() == "CardType" {
							asked[d] = true
						}
					}
				}
			}
			if len(asked) == 0 {
				k.und["how the type of a card is inferred on a path to "+name] = true
			}
			for _, v := range append([]int64{1 << 20}, k.cards...) {
				if len(asked) == 0 {
					break
				}
				env := func(t *term) (constant.Value, bool) {
					if asked[t] {
						return constant.MakeInt64(v), true
					}
					return nil, false
				}
				fit := e.fits(o.st, env, func(t *term) bool { return asked[t] })
				if fit == '?' {
					k.und["the condition on the inferred card type on a path to "+name] = true
				}
				if fit == 't' && (v == k.driver) != (name == "DRIVER_CARD") {
					good = false
					r.add(Finding{Rule: "wrong-card-type", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("a file of type %s is returned for a card whose inferred type is %d (a driver card is %d)", name, v, k.driver)})
					break
				}
			}
		}
		if good && known {
			k.dis++
		}
	}
	// the first two bytes decide
	reported := map[string]bool{}
	wrong := 0
	for x := int64(0); x < 256; x++ {
		for y := int64(0); y < 256; y++ {
			env := func(t *term) (constant.Value, bool) {
				switch t {
				case b0:
					return constant.MakeInt64(x), true
				case b1:
					return constant.MakeInt64(y), true
				case length:
					return constant.MakeInt64(1 << 16), true
				}
				return nil, false
			}
			parsed := false
			for _, kd := range kinds {
				fit := e.fits(kd.o.st, env, about)
				if fit == 'f' {
					continue
				}
				if kd.name == "" || kd.name == "?" {
					parsed = parsed || fit == '?' || kd.name == "?"
					continue
				}
				ok := kd.name == "VEHICLE_UNIT" && x == 0x76 || (kd.name == "DRIVER_CARD" || kd.name == "RAW_CARD") && x == 0 && y == 2
				parsed = true
				if ok {
					continue
				}
				if fit == '?' {
					k.und["which first bytes lead to "+kd.name] = true
					continue
				}
				if !reported[kd.name] {
					reported[kd.name] = true
					wrong++
					r.add(Finding{Rule: "wrong-first-bytes", Fn: fname(f), What: kd.name, Pos: kd.pos, Msg: fmt.Sprintf("data that begins with %02x %02x is returned as a file of type %s", x, y, kd.name)})
				}
			}
			if !parsed && (x == 0x76 || x == 0 && y == 2) && !reported["refused"] {
				reported["refused"] = true
				wrong++
				r.add(Finding{Rule: "input-refused", Fn: fname(f), What: "first bytes", Msg: fmt.Sprintf("data that begins with %02x %02x is never parsed", x, y)})
			}
		}
	}
	k.obl += 4
	k.dis += max(0, 4-wrong)
}

// whole: the value is what parsers made, without an error, of the whole input.
func (k *fileKinds) whole(e *tpath, st *tstate, t, data *term, depth int) (why string, known bool) {
	t = unstored(t)
	call := t
	if t.op == "ret0" {
		call = t.args[0]
	}
	if !strings.HasPrefix(call.op, "call:") || depth > 4 {
		return t.key, false
	}
	if t.op == "ret0" && e.nilness(st, e.mk("ret1", call)) != 'n' {
		return "the result of " + call.callee() + ", which may have failed", true
	}
	res, any := "", false
	for _, a := range call.args {
		a = unstored(a)
		if b, lo, hi, ok := e.rng(st, a); ok && b == data {
			any = true
			if lo.k != 0 || len(lo.c) != 0 || !hi.eq(e.seqLen(data)) {
				res = "made of a part of the input only"
			}
			continue
		}
		if a.op == "ret0" || strings.HasPrefix(a.op, "call:") && a.typ != nil && isProtoMsg(a.typ) {
			w, ok := k.whole(e, st, a, data, depth+1)
			if !ok {
				return w, false
			}
			any = true
			if w != "" {
				res = w
			}
		}
	}
	if !any {
		return t.key, false
	}
	return res, true
}

// payloads: the payload fields of a file message, by file type.
func (k *fileKinds) payloads(t types.Type) map[string]string {
	out := map[string]string{}
	ms := types.NewMethodSet(t)
	for n := range k.types {
		if ms.Lookup(nil, "Get"+camelName(n)) != nil {
			out[n] = camelName(n)
		}
	}
	return out
}

func (k *fileKinds) perType(f *ssa.Function, judge func(e *tpath, args []*term, file *term, name string, num int64, field string, outs []toutcome)) {
	e := k.engine()
	args := k.params(e, f)
	var file *term
	for i, p := range f.Params {
		if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "File" && isProtoMsg(p.Type()) {
			file = args[i]
		}
	}
	if file == nil {
		return
	}
	outs := e.exec(f, args, nil, newTstate(), "", 0)
	k.trace(f, outs)
	k.paths += len(outs)
	if e.over {
		k.r.add(Finding{Rule: "undecided", Fn: fname(f), What: "path budget", Msg: "too many paths to enumerate"})
		return
	}
	pay := k.payloads(file.typ)
	typ := e.mk("get:Type", file)
	names := map[int64]string{1 << 20: "a number without a name"}
	for n, v := range k.types {
		names[v] = n
	}
	var nums []int64
	for n := range names {
		nums = append(nums, n)
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	for _, n := range nums {
		env := func(t *term) (constant.Value, bool) {
			if t == typ {
				return constant.MakeInt64(n), true
			}
			return nil, false
		}
		var fit []toutcome
		und := false
		for _, o := range outs {
			if e.nilness(o.st, file) == 'n' {
				continue
			}
			switch e.fits(o.st, env, func(t *term) bool { return t == typ }) {
			case 't':
				fit = append(fit, o)
			case '?':
				und = true
			}
		}
		k.obl++
		if und {
			k.und["which paths of "+fname(f)+" a file of type "+names[n]+" takes"] = true
			continue
		}
		before := len(k.r.Findings)
		judge(e, args, file, names[n], n, pay[names[n]], fit)
		if len(k.r.Findings) == before {
			k.dis++
		}
	}
}

// handed: the call was given the file's payload of that name and no other.
func handed(e *tpath, st *tstate, call, file *term, field string) bool {
	ok := false
	for _, a := range call.args {
		for d := range e.deps(st, a) {
			d = unstored(d)
			if strings.HasPrefix(d.op, "get:") && len(d.args) == 1 && d.args[0] == file {
				if d.op != "get:"+field {
					return false
				}
				ok = ok || unstored(a) == d
			}
		}
	}
	return ok
}

func (k *fileKinds) marshal(f *ssa.Function) {
	k.perType(f, func(e *tpath, args []*term, file *term, name string, num int64, field string, outs []toutcome) {
		served := false
		for _, o := range outs {
			pos := k.c.P.instrPos(o.ret)
			if len(o.res) < 2 || e.nilness(o.st, o.res[1]) == 'N' {
				for _, ev := range o.st.events {
					served = served || field != "" && handed(e, o.st, ev, file, field)
				}
				continue
			}
			if field == "" {
				k.r.add(Finding{Rule: "unknown-type-accepted", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("a file of type %s, which has no payload, can be serialised without an error", name)})
				continue
			}
			b := unstored(o.res[0])
			if x, lo, hi, ok := e.rng(o.st, b); ok && lo.k == 0 && len(lo.c) == 0 && hi.eq(e.seqLen(x)) {
				b = x
			}
			if b.op != "ret0" || !handed(e, o.st, b.args[0], file, field) {
				if b.op != "ret0" && b.op != "nil" && b.op != "slice" && !strings.HasPrefix(b.op, "call:") {
					k.und["what "+fname(f)+" returns for type "+name] = true
					continue
				}
				k.r.add(Finding{Rule: "other-payload-serialised", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("for a file of type %s the result is not what a writer made of the payload %s", name, field)})
				continue
			}
			served = true
			er := e.mk("ret1", b.args[0])
			if unstored(o.res[1]) != er && e.nilness(o.st, er) != 'n' {
				k.r.add(Finding{Rule: "writer-error-lost", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("the error of the writer of %s is not returned", field)})
			}
		}
		if field != "" && !served {
			k.r.add(Finding{Rule: "type-not-served", Fn: fname(f), What: name, Msg: fmt.Sprintf("a file of type %s never reaches a writer of its payload %s", name, field)})
		}
	})
}

func (k *fileKinds) verify(f *ssa.Function) {
	k.perType(f, func(e *tpath, args []*term, file *term, name string, num int64, field string, outs []toutcome) {
		served := false
		for _, o := range outs {
			pos := k.c.P.instrPos(o.ret)
			if len(o.res) < 1 {
				continue
			}
			res := unstored(o.res[len(o.res)-1])
			var call *term
			for _, ev := range o.st.events {
				if field != "" && handed(e, o.st, ev, file, field) {
					call = ev
					served = true
				}
			}
			if e.nilness(o.st, res) == 'N' {
				continue
			}
			if field == "" {
				k.r.add(Finding{Rule: "unknown-type-accepted", Fn: fname(f), What: name, Pos: pos, Msg: fmt.Sprintf("a file of type %s, which has no payload, can be verified without an error", name)})
				continue
			}
			if name != "DRIVER_CARD" {
				continue // has no certificates the library reads
			}
			switch {
			case call == nil:
				k.r.add(Finding{Rule: "payload-not-verified", Fn: fname(f), What: name, Pos: pos, Msg: "verifying a driver-card file can succeed without its driver card having been verified"})
			case res != call && e.nilness(o.st, call) != 'n':
				k.r.add(Finding{Rule: "verifier-error-lost", Fn: fname(f), What: name, Pos: pos, Msg: "the error of verifying the driver card is not returned"})
			default:
				deps := e.deps(o.st, call)
				for i, a := range args {
					p := f.Params[i]
					if p.Type().String() == "context.Context" && !deps[a] {
						k.r.add(Finding{Rule: "caller-argument-lost", Fn: fname(f), What: "context", Pos: pos, Msg: "the driver card is verified without the caller's context"})
					}
					s, ok := p.Type().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for j := 0; j < s.NumFields(); j++ {
						if _, ok := s.Field(j).Type().Underlying().(*types.Interface); !ok {
							continue
						}
						fl := e.field(a, j)
						if e.nilness(o.st, fl) != 'n' && !deps[fl] && !deps[a] {
							k.r.add(Finding{Rule: "caller-argument-lost", Fn: fname(f), What: s.Field(j).Name(), Pos: pos, Msg: fmt.Sprintf("the driver card is verified without the %s the caller gave", s.Field(j).Name())})
						}
					}
				}
			}
		}
		if name == "DRIVER_CARD" && !served {
			k.r.add(Finding{Rule: "type-not-served", Fn: fname(f), What: name, Msg: "a driver-card file is never verified"})
		}
	})
}

// inference: the functions that say what card a dump comes from, on dumps of one and
// two records whose contents and files are unknown.
func (k *fileKinds) inference() {
	c, r := k.c, k.r
	byName := map[string]int64{}
	var files, contents []int64
	driver := map[int64]bool{}
	m := c.newDescModel()
	m.messages = true
	for _, en := range m.enums {
		if !strings.HasSuffix(en.pkg, ".card.v1") {
			continue
		}
		for _, v := range en.vals {
			switch en.name {
			case "ElementaryFileType":
				files = append(files, v.num)
				byName[v.name] = v.num
			case "ContentType":
				contents = append(contents, v.num)
				if v.name == "DATA" {
					byName["DATA"] = v.num
				}
			case "CardType":
				if v.num == k.driver {
					for _, raw := range v.msgs {
						efsOf(raw, driver)
					}
				}
			}
		}
	}
	sort.Slice(files, func(i, j int) bool { return files[i] < files[j] })
	sort.Slice(contents, func(i, j int) bool { return contents[i] < contents[j] })
	n := 0
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() < 1 || len(f.Params) < 1 {
			continue
		}
		res := namedOf(f.Signature.Results().At(0).Type())
		in := namedOf(f.Params[0].Type())
		if res == nil || res.Obj().Name() != "CardType" || in == nil || in.Obj().Name() != "RawCardFile" {
			continue
		}
		n++
		most := 2
		if c.Tier == "thorough" {
			most = 3
		}
		for size := 1; size <= most; size++ {
			k.obl++
			e := newTpath(c)
			e.bytes, e.keepAll, e.splitLess, e.unroll, e.maxIter, e.budget = true, true, true, true, 100000, 40000000
			e.model = m
			e.inline = isRepoFunc
			args := k.params(e, f)
			st := newTstate()
			list := []*term{e.nilTerm()}
			for i := 0; i < size; i++ {
				t := e.mk(fmt.Sprintf("record%d", i))
				st.facts[t] = 'N'
				list = append(list, t)
			}
			st.fields[args[0].key+".Records"] = e.mk("append", list...)
			st.facts[args[0]] = 'N'
			outs := e.exec(f, args, nil, st, "", 0)
			k.paths += len(outs)
			if os.Getenv("P30TRACE") != "" {
				fmt.Println("== inference", fname(f), size, len(outs), e.steps, e.over)
				for i, o := range outs {
					if i > 40 {
						break
					}
					var fs []string
					for t, v := range o.st.facts {
						fs = append(fs, fmt.Sprintf("%c:%s", v, t.key))
					}
					sort.Strings(fs)
					fmt.Println("-- facts", fs, o.res[0].key)
				}
			}
			if e.over {
				k.und[fmt.Sprintf("how %s infers the type of a card with %d records", fname(f), size)] = true
				continue
			}
			type val struct {
				content, file int64
				data, driver  bool
			}
			var vals []val
			for _, ct := range contents {
				for _, fl := range append([]int64{1 << 20}, files...) {
					vals = append(vals, val{ct, fl, ct == byName["DATA"], driver[fl]})
				}
			}
			label := func(v val) string {
				for nm, x := range byName {
					if x == v.file && nm != "DATA" {
						return nm
					}
				}
				return fmt.Sprint("file ", v.file)
			}
			before := len(r.Findings)
			decided := true
			und := func(what string) {
				decided = false
				k.und[fmt.Sprintf("%s of %s on %d records", what, fname(f), size)] = true
			}
			for _, o := range outs {
				if len(o.res) == 0 {
					continue
				}
				if o.res[0].cst == nil {
					und("a result")
					continue
				}
				got, _ := constant.Int64Val(o.res[0].cst)
				// the values each record can have on this path
				can := make([][]val, size)
				mixed := false
				for i := 0; i < size; i++ {
					own := map[*term]bool{e.mk("get:File", list[i+1]): true, e.mk("get:ContentType", list[i+1]): true}
					sub := &tstate{facts: map[*term]byte{}, cells: o.st.cells, content: o.st.content, fields: o.st.fields}
					for t, v := range o.st.facts {
						mine, other := false, false
						for d := range e.deps(o.st, t) {
							mine = mine || own[d]
							other = other || !own[d] && (strings.HasPrefix(d.op, "get:File") || strings.HasPrefix(d.op, "get:ContentType")) && len(d.args) == 1
						}
						mixed = mixed || mine && other
						if mine {
							sub.facts[t] = v
						}
					}
					for _, v := range vals {
						env := func(t *term) (constant.Value, bool) {
							if own[t] {
								if t.op == "get:File" {
									return constant.MakeInt64(v.file), true
								}
								return constant.MakeInt64(v.content), true
							}
							return nil, false
						}
						switch e.fits(sub, env, func(t *term) bool { return own[t] }) {
						case 't':
							can[i] = append(can[i], v)
						case '?':
							mixed = true
						}
					}
				}
				if mixed {
					und("a condition")
					continue
				}
				possible := true
				for i := range can {
					possible = possible && len(can[i]) > 0
				}
				if !possible {
					continue
				}
				pos := c.P.instrPos(o.ret)
				if got == k.driver {
					for i := range can {
						for _, v := range can[i] {
							if v.data && !v.driver {
								r.add(Finding{Rule: "foreign-file-on-driver-card", Fn: fname(f), What: label(v), Pos: pos, Msg: fmt.Sprintf("a dump whose record %d holds %s, which the driver card's structure does not have, is taken for a driver card", i+1, label(v))})
								break
							}
						}
					}
					continue
				}
				// some dump of this path holds nothing but files of the driver card
				some, all := "", true
				for i := range can {
					here, ok := "", false
					for _, v := range can[i] {
						if v.data && v.driver {
							here, ok = label(v), true
						} else if !v.data {
							ok = true
						}
					}
					all = all && ok
					if here != "" {
						some = here
					}
				}
				if all && some != "" {
					r.add(Finding{Rule: "driver-card-not-recognised", Fn: fname(f), What: some, Pos: pos, Msg: fmt.Sprintf("a dump whose data records are all files of the driver card's structure (%s) is given card type %d", some, got)})
				}
			}
			if decided && len(r.Findings) == before {
				k.dis++
			}
		}
	}
	r.Cov["inference_functions"] = n
	r.Cov["driver_card_files"] = len(driver)
	if n == 0 {
		k.und["no function that tells the type of a raw card file was found"] = true
	}
}

// efsOf: the elementary files a file structure names.
func efsOf(raw []byte, out map[int64]bool) {
	typ, ef := int64(0), int64(-1)
	wire(raw, func(num, t int, v uint64, d []byte) {
		switch num {
		case 1:
			typ = int64(v)
		case 2:
			ef = int64(v)
		case 4:
			efsOf(d, out)
		}
	})
	_ = typ
	if ef > 0 {
		out[ef] = true
	}
}
