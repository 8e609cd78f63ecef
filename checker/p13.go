package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P13"] = check{level: "proof", run: runP13} }

// --- descriptor tables -------------------------------------------------------

type enumVal struct {
	name string
	num  int64
	opts map[int]int64  // varint options by field number
	msgs map[int][]byte // message options by field number
}

type enumDesc struct {
	pkg, name string // proto package and message-qualified name
	goPkg     string
	vals      []enumVal
}

func uvarint(b []byte) (uint64, []byte, bool) {
	v, n := binary.Uvarint(b)
	if n <= 0 {
		return 0, nil, false
	}
	return v, b[n:], true
}

// wire iterates over the fields of a serialised message.
func wire(b []byte, f func(num int, typ int, v uint64, data []byte)) bool {
	for len(b) > 0 {
		tag, rest, ok := uvarint(b)
		if !ok {
			return false
		}
		b = rest
		num, typ := int(tag>>3), int(tag&7)
		switch typ {
		case 0:
			v, r, ok := uvarint(b)
			if !ok {
				return false
			}
			b = r
			f(num, typ, v, nil)
		case 1:
			if len(b) < 8 {
				return false
			}
			f(num, typ, binary.LittleEndian.Uint64(b), b[:8])
			b = b[8:]
		case 2:
			n, r, ok := uvarint(b)
			if !ok || uint64(len(r)) < n {
				return false
			}
			f(num, typ, 0, r[:n])
			b = r[n:]
		case 5:
			if len(b) < 4 {
				return false
			}
			f(num, typ, 0, b[:4])
			b = b[4:]
		default:
			return false
		}
	}
	return true
}

// descriptors decodes the file descriptors compiled into the generated packages.
func (c *Ctx) descriptors() (enums []*enumDesc, files int, bad []string) {
	var paths []string
	for p, pk := range c.P.ByPath {
		if pk.Types != nil && isProtoPkg(pk.Types) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		pk := c.P.ByPath[p]
		for _, n := range pk.Types.Scope().Names() {
			k, ok := pk.Types.Scope().Lookup(n).(*types.Const)
			if !ok || !strings.HasSuffix(n, "_rawDesc") {
				continue
			}
			raw := []byte(constant.StringVal(k.Val()))
			files++
			pkgName := ""
			wire(raw, func(num, typ int, v uint64, d []byte) {
				if num == 2 {
					pkgName = string(d)
				}
			})
			var doEnum func(prefix string, d []byte)
			doEnum = func(prefix string, d []byte) {
				e := &enumDesc{pkg: pkgName, goPkg: p}
				if !wire(d, func(num, typ int, v uint64, x []byte) {
					switch num {
					case 1:
						e.name = prefix + string(x)
					case 2:
						ev := enumVal{opts: map[int]int64{}, msgs: map[int][]byte{}}
						wire(x, func(num, typ int, v uint64, y []byte) {
							switch num {
							case 1:
								ev.name = string(y)
							case 2:
								ev.num = int64(int32(v))
							case 3:
								wire(y, func(num, typ int, v uint64, z []byte) {
									switch typ {
									case 0:
										ev.opts[num] = int64(int32(v))
									case 2:
										ev.msgs[num] = z
									}
								})
							}
						})
						e.vals = append(e.vals, ev)
					}
				}) {
					bad = append(bad, n)
				}
				enums = append(enums, e)
			}
			var doMsg func(prefix string, d []byte)
			doMsg = func(prefix string, d []byte) {
				name := ""
				wire(d, func(num, typ int, v uint64, x []byte) {
					if num == 1 {
						name = string(x)
					}
				})
				wire(d, func(num, typ int, v uint64, x []byte) {
					switch num {
					case 3:
						doMsg(prefix+name+"_", x)
					case 4:
						doEnum(prefix+name+"_", x)
					}
				})
			}
			if !wire(raw, func(num, typ int, v uint64, d []byte) {
				switch num {
				case 4:
					doMsg("", d)
				case 5:
					doEnum("", d)
				}
			}) {
				bad = append(bad, n)
			}
		}
	}
	return
}

// extField finds the field number of an extension variable E_X: the Field value
// of the ExtensionInfo literal it points at.
func (c *Ctx) extFields() map[*ssa.Global]int {
	out := map[*ssa.Global]int{}
	for p, pk := range c.P.ByPath {
		if pk.Types == nil || !isProtoPkg(pk.Types) {
			continue
		}
		sp := c.P.pkg(p)
		init := sp.Func("init")
		if init == nil {
			continue
		}
		// E_X = &extTypes[i]
		arr := map[*ssa.Global]map[int64]int{} // extTypes slice variable -> index -> field number
		stores := map[ssa.Value]*ssa.Global{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if sl, ok := s.Val.(*ssa.Slice); ok {
							stores[sl.X] = g
						}
					}
				}
			}
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok || stores[ia.X] == nil {
					continue
				}
				ix, ok := ia.Index.(*ssa.Const)
				ld, ok2 := s.Val.(*ssa.UnOp)
				if !ok || !ok2 || ld.X.Referrers() == nil {
					continue
				}
				for _, ref := range *ld.X.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok || fa.Referrers() == nil {
						continue
					}
					st, ok := ld.Type().Underlying().(*types.Struct)
					if !ok || st.Field(fa.Field).Name() != "Field" {
						continue
					}
					for _, r2 := range *fa.Referrers() {
						if fs, ok := r2.(*ssa.Store); ok {
							if k, ok := fs.Val.(*ssa.Const); ok {
								g := stores[ia.X]
								if arr[g] == nil {
									arr[g] = map[int64]int{}
								}
								arr[g][ix.Int64()] = int(k.Int64())
							}
						}
					}
				}
			}
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !strings.HasPrefix(g.Name(), "E_") {
					continue
				}
				ia, ok := s.Val.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				ld, ok := ia.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				ag, ok := ld.X.(*ssa.Global)
				ix, ok2 := ia.Index.(*ssa.Const)
				if ok && ok2 {
					if n, ok := arr[ag][ix.Int64()]; ok {
						out[g] = n
					}
				}
			}
		}
	}
	return out
}

// codeExts are the extensions that hold protocol codes, with their code width.
var codeExts = map[string]int64{
	"E_ProtocolEnumValue": 0xFF,
	"E_FileId":            0xFFFF,
	"E_TrepValue":         0xFF,
	"E_CodePage":          0xFF,
}

func runP13(c *Ctx, r *Report) {
	enums, files, bad := c.descriptors()
	r.floor("descriptor_files", files, 60)
	for _, b := range bad {
		r.add(Finding{Rule: "table", Fn: b, What: "descriptor", Msg: "the compiled descriptor could not be decoded"})
	}
	ext := c.extFields()
	nExt, nCodes, nEnums := 0, 0, 0
	codes := map[string]map[int64]bool{} // extension -> all codes in use
	byField := map[int]string{}
	for g, n := range ext {
		if _, ok := codeExts[g.Name()]; ok {
			nExt++
			byField[n] = g.Name()
			codes[g.Name()] = map[int64]bool{}
		}
	}
	for _, e := range enums {
		for fld, name := range byField {
			seen := map[int64]string{}
			for _, v := range e.vals {
				code, ok := v.opts[fld]
				if !ok {
					continue
				}
				nCodes++
				codes[name][code] = true
				if old, dup := seen[code]; dup && !(name == "E_FileId" && c.separateDFs(enums, ext, e, old, v.name)) {
					r.add(Finding{Rule: "table", Fn: e.pkg + "." + e.name, What: fmt.Sprintf("%s and %s", old, v.name),
						Msg: fmt.Sprintf("both values have %s %d: one of them can never be decoded and encodes to the other's code", name, code)})
				}
				seen[code] = v.name
				if code < 0 || code > codeExts[name] {
					r.add(Finding{Rule: "table", Fn: e.pkg + "." + e.name, What: v.name,
						Msg: fmt.Sprintf("%s %d does not fit the code's width (max %d), so it is truncated to another value's code when written", name, code, codeExts[name])})
				}
			}
			if len(seen) > 0 {
				nEnums++
			}
		}
	}
	r.floor("code_extensions", nExt, 4)
	r.floor("coded_enums", nEnums, 20)
	r.floor("codes", nCodes, 200)

	fs := c.P.reach(append(c.parseRoots(), c.marshalRoots()...)...)
	c.extUses(r, fs, codes)
	c.enumConversions(r, fs)
	c.codePages(r, fs, enums, byField)
	r.Assume = append(r.Assume, "protobuf-go reports an enum's values and options as its compiled descriptor lists them")
}

// separateDFs: two elementary files with one identifier never appear in the same
// dedicated file of any card's file structure, so the application generation
// tells them apart, and the one the search finds first is the structure's.
func (c *Ctx) separateDFs(enums []*enumDesc, ext map[*ssa.Global]int, e *enumDesc, a, b string) bool {
	fld := 0
	for g, n := range ext {
		if g.Name() == "E_FileStructure" {
			fld = n
		}
	}
	num := map[string]int64{}
	for _, v := range e.vals {
		num[v.name] = v.num
	}
	found, clash := false, false
	var walk func(d []byte)
	walk = func(d []byte) {
		efs := map[int64]bool{}
		wire(d, func(n, t int, v uint64, x []byte) {
			if n != 4 {
				return
			}
			wire(x, func(n, t int, v uint64, y []byte) {
				if n == 2 {
					efs[int64(v)] = true
				}
			})
			walk(x)
		})
		if efs[num[a]] && efs[num[b]] {
			clash = true
		}
		if efs[num[b]] && !efs[num[a]] {
			clash = true // the search returns a where the structure says b
		}
		if len(efs) > 0 {
			found = true
		}
	}
	for _, en := range enums {
		for _, v := range en.vals {
			if m, ok := v.msgs[fld]; ok && fld != 0 {
				walk(m)
			}
		}
	}
	return found && !clash
}

// --- uses of the extension tables ---------------------------------------------

// extOf returns the code extension a GetExtension/HasExtension call names.
func extOf(cc *ssa.CallCommon) *ssa.Global {
	if len(cc.Args) < 2 {
		return nil
	}
	v := cc.Args[1]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			g, _ := x.X.(*ssa.Global)
			return g
		case *ssa.Global:
			return x
		default:
			return nil
		}
	}
}

func isProtoFn(cc *ssa.CallCommon, name string) bool {
	return callName(cc) == "google.golang.org/protobuf/proto."+name
}

// sameExpr reports structural equality of two pure expressions.
func sameExpr(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || callName(x.Common()) != callName(y.Common()) || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		if x.Call.IsInvoke() && !sameExpr(x.Call.Value, y.Call.Value, d+1) {
			return false
		}
		for i := range x.Call.Args {
			if !sameExpr(x.Call.Args[i], y.Call.Args[i], d+1) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		y, ok := b.(*ssa.MakeInterface)
		return ok && sameExpr(x.X, y.X, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X, d+1)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && sameExpr(x.X, y.X, d+1)
	}
	return false
}

// valueDescOf walks back from an options value to the descriptor it belongs to.
func valueDescOf(v ssa.Value, d int) ssa.Value {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return valueDescOf(x.X, d+1)
	case *ssa.ChangeInterface:
		return valueDescOf(x.X, d+1)
	case *ssa.TypeAssert:
		return valueDescOf(x.X, d+1)
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Method.Name() == "Options" {
			return x.Call.Value
		}
	}
	return nil
}

// codeExpr evaluates the expression v for a given code of the tracked source.
func (e *sccp) codeExpr(v, src ssa.Value, code int64, d int) (int64, bool) {
	if v == src {
		return code, true
	}
	if d > 10 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Int64(), true
		}
	case *ssa.Convert:
		n, ok := e.codeExpr(x.X, src, code, d+1)
		if !ok {
			return 0, false
		}
		return constant.Int64Val(wrap(constant.MakeInt64(n), x.Type()))
	case *ssa.ChangeType:
		return e.codeExpr(x.X, src, code, d+1)
	case *ssa.TypeAssert:
		return e.codeExpr(x.X, src, code, d+1)
	case *ssa.Extract:
		return e.codeExpr(x.Tuple, src, code, d+1)
	case *ssa.BinOp:
		a, ok1 := e.codeExpr(x.X, src, code, d+1)
		b, ok2 := e.codeExpr(x.Y, src, code, d+1)
		if ok1 && ok2 {
			if r, ok := foldBin(x.Op, constant.MakeInt64(a), constant.MakeInt64(b), x.Type()); ok && r.Kind() == constant.Int {
				return constant.Int64Val(r)
			}
		}
	}
	return 0, false
}

// dependsOn reports whether the pure expression v is computed from src.
func dependsOn(v, src ssa.Value, d int) bool {
	if v == src {
		return true
	}
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return dependsOn(x.X, src, d+1)
	case *ssa.ChangeType:
		return dependsOn(x.X, src, d+1)
	case *ssa.TypeAssert:
		return dependsOn(x.X, src, d+1)
	case *ssa.Extract:
		return dependsOn(x.Tuple, src, d+1)
	case *ssa.BinOp:
		return dependsOn(x.X, src, d+1) || dependsOn(x.Y, src, d+1)
	}
	return false
}

// lossless reports whether v is derived from a parameter, load or call result by
// conversions that keep every value apart.
func lossless(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		if intBits(x.Type()) < intBits(x.X.Type()) {
			return false
		}
		return lossless(x.X, d+1)
	case *ssa.ChangeType:
		return lossless(x.X, d+1)
	case *ssa.BinOp:
		return false
	}
	return true
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (c *Ctx) extUses(r *Report, fs map[*ssa.Function]bool, codes map[string]map[int64]bool) {
	ev := &sccp{c: c}
	nSites, nCmp, nOut := 0, 0, 0
	dec, encd, reads := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	byTable := map[string]int{}
	for _, f := range sortedFuncs(fs) {
		if f.Origin() != nil && len(f.TypeArgs()) > 0 && !firstInstance(fs, f) {
			continue // one instance of a generic stands for all
		}
		for _, ci := range callsOf(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || !isProtoFn(call.Common(), "GetExtension") {
				continue
			}
			g := extOf(call.Common())
			if g == nil || codes[g.Name()] == nil {
				continue
			}
			nSites++
			byTable[g.Name()]++
			reads[f] = true
			fn := stableFn(f)
			pos := c.P.instrPos(call)
			vd := valueDescOf(call.Call.Args[0], 0)
			// guard
			if codes[g.Name()][0] && !c.guarded(call, g, vd) {
				r.add(Finding{Rule: "guard", Fn: fn, What: "GetExtension " + g.Name(), Pos: pos,
					Msg: "the extension is read without testing that the value has one: a value without a code then acts as code 0, which belongs to another value"})
			}
			c.specialCases(r, f, call, g, codes[g.Name()])
			c.follow(r, ev, f, call, call, g, vd, codes[g.Name()], &nCmp, &nOut, 0, map[ssa.Value]bool{})
			c.scanLoop(r, f, vd)
		}
	}
	for changed := true; changed; { // functions that read a table through helpers
		changed = false
		for f := range c.P.All {
			if reads[f] || !isRepoFunc(f) {
				continue
			}
			for _, ci := range callsOf(f) {
				if g := ci.Common().StaticCallee(); g != nil && (reads[g] || (g.Origin() != nil && reads[g.Origin()])) {
					reads[f] = true
					changed = true
					break
				}
			}
		}
	}
	for f := range reads {
		if f.Signature.Params().Len() != 1 || f.Signature.Results().Len() == 0 || f.Parent() != nil {
			continue
		}
		pt, rt := f.Signature.Params().At(0).Type(), f.Signature.Results().At(0).Type()
		if isPlainInt(pt) && isProtoEnum(rt) {
			dec[f] = true
		}
		if isPlainInt(rt) && isProtoEnum(pt) {
			encd[f] = true
		}
	}
	for f := range c.P.All { // all instances of a generic
		for g := range dec {
			if g.Origin() != nil && f.Origin() == g.Origin() {
				dec[f] = true
			}
		}
		for g := range encd {
			if g.Origin() != nil && f.Origin() == g.Origin() {
				encd[f] = true
			}
		}
	}
	c.tableCallSites(r, fs, dec, encd)
	r.floor("extension_reads", nSites, 2)
	r.floor("code_comparisons", nCmp, 1)
	r.floor("code_outputs", nOut, 1)
	r.Cov["reads_per_table"] = byTable
}

// bitsOf describes v as bits (mask, after shifting right by sh) of a root value.
func bitsOf(v ssa.Value) (root ssa.Value, mask uint64, plain bool) {
	mask, plain = 0xFF, true
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return v, mask, false
			}
			n, _ := constant.Uint64Val(k.Value)
			switch x.Op {
			case token.AND:
				mask &= n
				plain = plain && n&0xFF == 0xFF
				v = x.X
				continue
			case token.SHR:
				mask = mask << n & 0xFF
				plain = plain && n == 0
				v = x.X
				continue
			case token.AND_NOT:
				mask &^= n
				plain = false
				v = x.X
				continue
			}
			return v, mask, false
		}
		return v, mask, plain
	}
}

// tableCallSites: what is looked up is the whole code, and what is written is the
// code looked up.
func (c *Ctx) tableCallSites(r *Report, fs, dec, encd map[*ssa.Function]bool) {
	n := 0
	for _, f := range sortedFuncs(fs) {
		for _, ci := range callsOf(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			switch {
			case dec[g]:
				n++
				arg := call.Call.Args[len(call.Call.Args)-1]
				root, mask, plain := bitsOf(arg)
				if plain || intBits(arg.Type()) > 8 {
					continue
				}
				if _, op := root.(*ssa.BinOp); op {
					r.add(Finding{Rule: "lossy", Fn: stableFn(f), What: "code of " + short(call.Type()), Pos: c.P.instrPos(call),
						Msg: "the code is computed from the input instead of being read as it is"})
					continue
				}
				have := mask
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op == nil || !isPlainInt((*op).Type()) {
								continue
							}
							if rt, m, _ := bitsOf(*op); *op != arg && rt != *op && sameByte(rt, root) {
								have |= m
							}
						}
					}
				}
				if have&0xFF != 0xFF {
					r.add(Finding{Rule: "lossy", Fn: stableFn(f), What: "code of " + short(call.Type()), Pos: c.P.instrPos(call),
						Msg: fmt.Sprintf("only the bits %#x of the byte are looked up and the others are not read at all, so different codes collapse into one value", mask)})
				}
			case encd[g]:
				n++
				c.encodedUse(r, f, call)
			}
		}
	}
	r.floor("table_call_sites", n, 1)
}

func sameByte(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
		return false
	}
	ia, ok1 := la.X.(*ssa.IndexAddr)
	ib, ok2 := lb.X.(*ssa.IndexAddr)
	return ok1 && ok2 && ia.X == ib.X && sameExpr(ia.Index, ib.Index, 0)
}

func short(t types.Type) string {
	if tp, ok := t.(*types.Tuple); ok && tp.Len() > 0 {
		t = tp.At(0).Type()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *Ctx) encodedUse(r *Report, f *ssa.Function, call *ssa.Call) {
	arg := call.Call.Args[len(call.Call.Args)-1]
	codes := c.codesOf(arg.Type())
	var v ssa.Value = call
	if _, tup := call.Type().(*types.Tuple); tup {
		v = nil
		for _, ref := range *call.Referrers() {
			if ex, ok := ref.(*ssa.Extract); ok && ex.Index == 0 {
				v = ex
			}
		}
	}
	if v == nil || v.Referrers() == nil || len(codes) == 0 {
		return
	}
	ev := &sccp{c: c}
	var walk func(w ssa.Value, d int)
	walk = func(w ssa.Value, d int) {
		if d > 4 || w.Referrers() == nil {
			return
		}
		for _, ref := range *w.Referrers() {
			switch x := ref.(type) {
			case *ssa.Convert:
				walk(x, d+1)
			case *ssa.Phi:
			case *ssa.BinOp:
				if x.X != w {
					continue
				}
				if _, ok := x.Y.(*ssa.Const); !ok {
					continue
				}
				switch x.Op {
				case token.AND, token.ADD, token.SUB, token.XOR, token.AND_NOT, token.OR, token.MUL:
				default:
					continue
				}
				for code := range codes {
					if got, ok := ev.codeExpr(x, v, code, 0); ok && got != code {
						r.add(Finding{Rule: "altered", Fn: stableFn(f), What: "code of " + short(arg.Type()), Pos: c.P.instrPos(x),
							Msg: fmt.Sprintf("the code %d looked up for the value becomes %d before it is written", code, got)})
						return
					}
				}
				walk(x, d+1)
			}
		}
	}
	walk(v, 0)
}

// codesOf lists the protocol codes of an enum type.
func (c *Ctx) codesOf(t types.Type) map[int64]bool {
	n, ok := types.Unalias(t).(*types.Named)
	out := map[int64]bool{}
	if !ok {
		return out
	}
	fld := 0
	for g, k := range c.extFields() {
		if g.Name() == "E_ProtocolEnumValue" {
			fld = k
		}
	}
	enums, _, _ := c.descriptors()
	for _, e := range enums {
		if e.goPkg == n.Obj().Pkg().Path() && e.name == n.Obj().Name() {
			for _, v := range e.vals {
				if k, ok := v.opts[fld]; ok {
					out[k] = true
				}
			}
		}
	}
	return out
}

// specialCases evaluates the function for each code of the table by constant
// propagation: no code may be diverted to a constant result.
func (c *Ctx) specialCases(r *Report, f *ssa.Function, call *ssa.Call, g *ssa.Global, codes map[int64]bool) {
	ei := errResult(f.Signature)
	var sorted []int64
	for k := range codes {
		sorted = append(sorted, k)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	for _, code := range sorted {
		code := code
		for _, asInput := range []bool{false, true} {
			e := &sccp{c: c}
			e.override = func(v ssa.Value) (cv, bool) {
				if v.Parent() != f {
					return cv{}, false
				}
				switch x := v.(type) {
				case *ssa.Parameter:
					if asInput && isPlainInt(x.Type()) {
						return cvInt(code), true
					}
				case *ssa.TypeAssert:
					if x.X == ssa.Value(call) && !asInput {
						if x.CommaOk {
							return cv{k: 'c', c: constant.MakeBool(true), tup: []cv{cvInt(code), cvConst(constant.MakeBool(true))}}, true
						}
						return cvInt(code), true
					}
				}
				return cv{}, false
			}
			e.observe = func(in ssa.Instruction, at func(ssa.Value) cv) {
				ret, ok := in.(*ssa.Return)
				if !ok || in.Parent() != f || len(ret.Results) == 0 {
					return
				}
				if ei >= 0 && at(ret.Results[ei]).k != 'n' {
					return
				}
				v0 := at(ret.Results[0])
				n, ok := v0.int()
				if !ok {
					return
				}
				if asInput {
					if ei >= 0 && isProtoEnum(ret.Results[0].Type()) {
						r.add(Finding{Rule: "diverted", Fn: stableFn(f), What: fmt.Sprintf("code %d", code), Pos: c.P.instrPos(ret),
							Msg: fmt.Sprintf("the input code %d is mapped to a fixed value without consulting the table", code)})
					}
					return
				}
				if isPlainInt(ret.Results[0].Type()) && n != code && call.Block().Dominates(ret.Block()) && (ei >= 0 || len(ret.Results) == 1) {
					r.add(Finding{Rule: "diverted", Fn: stableFn(f), What: fmt.Sprintf("code %d", code), Pos: c.P.instrPos(ret),
						Msg: fmt.Sprintf("the value whose code is %d can be written as %d", code, n)})
				}
			}
			e.eval(f, nil)
		}
	}
}

func firstInstance(fs map[*ssa.Function]bool, f *ssa.Function) bool {
	for g := range fs {
		if g.Origin() == f.Origin() && g != f && g.String() < f.String() {
			return false
		}
	}
	return true
}

func stableFn(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return fname(o)
	}
	return fname(f)
}

// guarded: the read is dominated by a branch on HasExtension of the same
// extension, or on some other test of the same options or descriptor.
func (c *Ctx) guarded(call *ssa.Call, g *ssa.Global, vd ssa.Value) bool {
	f := call.Parent()
	for _, b := range f.Blocks {
		n := len(b.Instrs)
		br, ok := b.Instrs[n-1].(*ssa.If)
		if !ok || !b.Dominates(call.Block()) || b == call.Block() {
			continue
		}
		var test func(v ssa.Value, d int) bool
		test = func(v ssa.Value, d int) bool {
			if d > 4 {
				return false
			}
			switch x := v.(type) {
			case *ssa.Call:
				if isProtoFn(x.Common(), "HasExtension") {
					return extOf(x.Common()) == g
				}
				if x.Call.StaticCallee() != nil && isRepoFunc(x.Call.StaticCallee()) {
					for _, a := range x.Call.Args {
						if a == vd || (vd != nil && valueDescOf(a, 0) == vd) {
							return true
						}
					}
				}
			case *ssa.UnOp:
				return test(x.X, d+1)
			case *ssa.BinOp:
				return test(x.X, d+1) || test(x.Y, d+1)
			case *ssa.Phi:
				for _, e := range x.Edges {
					if test(e, d+1) {
						return true
					}
				}
			}
			return false
		}
		if test(br.Cond, 0) {
			return true
		}
	}
	return false
}

// follow tracks where the code read from a table goes.
func (c *Ctx) follow(r *Report, ev *sccp, f *ssa.Function, src, v ssa.Value, g *ssa.Global, vd ssa.Value, codes map[int64]bool, nCmp, nOut *int, depth int, seen map[ssa.Value]bool) {
	if seen[v] || depth > 12 || v.Referrers() == nil {
		return
	}
	seen[v] = true
	fn := stableFn(f)
	checkOut := func(in ssa.Instruction, w ssa.Value, what string) {
		*nOut++
		for code := range codes {
			n, ok := ev.codeExpr(w, src, code, 0)
			if !ok {
				return
			}
			if n != code && n != (code>>8)&0xFF && n != code&0xFF && n != 0x7600|code {
				r.add(Finding{Rule: "altered", Fn: fn, What: g.Name() + " " + what, Pos: c.P.instrPos(in),
					Msg: fmt.Sprintf("the code %d is turned into %d on the way out, so it is not the code the reader accepts", code, n)})
				return
			}
		}
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.TypeAssert:
			c.follow(r, ev, f, src, x, g, vd, codes, nCmp, nOut, depth+1, seen)
		case *ssa.Extract:
			if x.Index == 0 {
				c.follow(r, ev, f, src, x, g, vd, codes, nCmp, nOut, depth+1, seen)
			}
		case *ssa.Convert, *ssa.ChangeType:
			c.follow(r, ev, f, src, x.(ssa.Value), g, vd, codes, nCmp, nOut, depth+1, seen)
		case *ssa.Phi:
			c.follow(r, ev, f, src, x, g, vd, codes, nCmp, nOut, depth+1, seen)
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ:
				*nCmp++
				c.codeCompare(r, ev, f, src, x, g, vd, codes)
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				c.follow(r, ev, f, src, x, g, vd, codes, nCmp, nOut, depth+1, seen)
			}
		case *ssa.Return:
			checkOut(x, v, "returned")
			// continue in the callers
			if f.Parent() == nil {
				for caller := range c.P.All {
					if !isRepoFunc(caller) {
						continue
					}
					for _, ci := range callsOf(caller) {
						cl, ok := ci.(*ssa.Call)
						if !ok || cl.Call.StaticCallee() != f {
							continue
						}
						var cvd ssa.Value
						// the descriptor of the caller: the argument that is (or holds) vd here
						for i, p := range f.Params {
							if (p == vd || valueDescOf(p, 0) == vd) && i < len(cl.Call.Args) {
								cvd = cl.Call.Args[i]
							} else if i < len(cl.Call.Args) {
								if w := valueDescOf(cl.Call.Args[i], 0); w != nil {
									cvd = w
								}
							}
						}
						var start ssa.Value = cl
						for i, res := range x.Results {
							if res != v || len(x.Results) == 1 {
								continue
							}
							for _, rr := range *cl.Referrers() {
								if ex, ok := rr.(*ssa.Extract); ok && ex.Index == i {
									start = ex
								}
							}
						}
						c.follow(r, ev, caller, start, start, g, cvd, codes, nCmp, nOut, depth+1, map[ssa.Value]bool{})
						c.scanLoop(r, caller, cvd)
					}
				}
			}
		case *ssa.Call:
			if cal := x.Call.StaticCallee(); cal != nil {
				nm := callName(x.Common())
				if strings.Contains(nm, "PutUint") || strings.Contains(nm, "AppendUint") {
					for _, a := range x.Call.Args {
						if dependsOn(a, src, 0) {
							checkOut(x, a, "written")
						}
					}
				} else if isRepoFunc(cal) {
					for _, a := range x.Call.Args {
						if a == v {
							checkOut(x, a, "passed on")
						}
					}
				}
			}
		case *ssa.Store:
			if x.Val == v {
				checkOut(x, v, "stored")
			}
		}
	}
}

// codeCompare checks a comparison of a table code with an input code.
func (c *Ctx) codeCompare(r *Report, ev *sccp, f *ssa.Function, src ssa.Value, x *ssa.BinOp, g *ssa.Global, vd ssa.Value, codes map[int64]bool) {
	fn := stableFn(f)
	pos := c.P.instrPos(x)
	mine, other := x.X, x.Y
	if !dependsOn(mine, src, 0) {
		mine, other = other, mine
	}
	if _, isConst := other.(*ssa.Const); isConst {
		return
	}
	seen := map[int64]int64{}
	for code := range codes {
		n, ok := ev.codeExpr(mine, src, code, 0)
		if !ok {
			break
		}
		if old, dup := seen[n]; dup {
			r.add(Finding{Rule: "altered", Fn: fn, What: g.Name() + " compared", Pos: pos,
				Msg: fmt.Sprintf("codes %d and %d become the same number before they are compared with the input", old, code)})
			return
		}
		seen[n] = code
		if n != code && n != 0x7600|code {
			r.add(Finding{Rule: "altered", Fn: fn, What: g.Name() + " compared", Pos: pos,
				Msg: fmt.Sprintf("the input is compared with %d instead of the table's code %d", n, code)})
			return
		}
	}
	if !lossless(other, 0) && !c.alsoCompared(x, other) {
		r.add(Finding{Rule: "lossy", Fn: fn, What: g.Name() + " compared", Pos: pos,
			Msg: "the input code is masked, narrowed or computed on before the comparison, so different input codes select the same value"})
	}
	// the value returned on a match is the one whose code was compared
	if vd == nil {
		return
	}
	b := x.Block()
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || br.Cond != ssa.Value(x) {
		return
	}
	t := b.Succs[0]
	if x.Op == token.NEQ {
		t = b.Succs[1]
	}
	if len(t.Preds) != 1 {
		return
	}
	for _, bb := range f.Blocks {
		if !t.Dominates(bb) {
			continue
		}
		for _, in := range bb.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok || !cl.Call.IsInvoke() {
				continue
			}
			if m := cl.Call.Method.Name(); m == "Number" && strings.HasSuffix(cl.Call.Value.Type().String(), "EnumValueDescriptor") {
				if !sameExpr(cl.Call.Value, vd, 0) {
					r.add(Finding{Rule: "mismatch", Fn: fn, What: g.Name() + " match", Pos: c.P.instrPos(cl),
						Msg: "on a matching code the number of a different enum value is used"})
				}
			}
			if m := cl.Call.Method.Name(); m == "Index" && strings.HasSuffix(cl.Call.Value.Type().String(), "EnumValueDescriptor") {
				r.add(Finding{Rule: "mismatch", Fn: fn, What: g.Name() + " match", Pos: c.P.instrPos(cl),
					Msg: "the position of the value in its declaration is used instead of its number"})
			}
		}
	}
}

// alsoCompared: another comparison of an expression over the same root guards or
// follows this one (for example a test of the tag's high byte).
func (c *Ctx) alsoCompared(x *ssa.BinOp, other ssa.Value) bool {
	root := other
	for {
		switch y := root.(type) {
		case *ssa.Convert:
			root = y.X
			continue
		case *ssa.ChangeType:
			root = y.X
			continue
		case *ssa.BinOp:
			if _, k := y.Y.(*ssa.Const); k {
				root = y.X
				continue
			}
		}
		break
	}
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok || bo == x || (bo.Op != token.EQL && bo.Op != token.NEQ) {
				continue
			}
			if dependsOn(bo.X, root, 0) || dependsOn(bo.Y, root, 0) {
				return true
			}
		}
	}
	return false
}

// scanLoop: a value fetched with Get(i) inside a counting loop must range over
// all values.
func (c *Ctx) scanLoop(r *Report, f *ssa.Function, vd ssa.Value) {
	get, ok := vd.(*ssa.Call)
	if !ok || !get.Call.IsInvoke() || get.Call.Method.Name() != "Get" || len(get.Call.Args) != 1 {
		return
	}
	idx := get.Call.Args[0]
	var phi *ssa.Phi
	off := int64(0)
	switch x := idx.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			phi, _ = x.X.(*ssa.Phi)
			off = k.Int64()
			if x.Op == token.SUB {
				off = -off
			}
		}
	}
	if phi == nil {
		return
	}
	for _, e := range phi.Edges {
		switch k := e.(type) {
		case *ssa.Const:
			if k.Int64()+off != 0 {
				r.add(Finding{Rule: "scan", Fn: stableFn(f), What: "first value", Pos: c.P.instrPos(get),
					Msg: fmt.Sprintf("the search over the enum's values starts at position %d, so codes of earlier values are not recognised", k.Int64()+off)})
			}
		case *ssa.BinOp:
			if st, ok := k.Y.(*ssa.Const); ok && k.X == ssa.Value(phi) && k.Op == token.ADD && st.Int64() != 1 {
				r.add(Finding{Rule: "scan", Fn: stableFn(f), What: "step", Pos: c.P.instrPos(get),
					Msg: fmt.Sprintf("the search over the enum's values advances by %d and skips values", st.Int64())})
			}
		}
	}
	// bound: compared with Len() exactly
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			var bound ssa.Value
			switch {
			case bo.X == idx || bo.X == ssa.Value(phi):
				bound = bo.Y
			case bo.Y == idx || bo.Y == ssa.Value(phi):
				bound = bo.X
			default:
				continue
			}
			if ar, ok := bound.(*ssa.BinOp); ok && (ar.Op == token.SUB || ar.Op == token.QUO) {
				if cl, ok := ar.X.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Len" {
					if bo.Op == token.LSS && bo.X == ssa.Value(phi) {
						r.add(Finding{Rule: "scan", Fn: stableFn(f), What: "bound", Pos: c.P.instrPos(bo),
							Msg: "the search over the enum's values stops before the last value, whose code is never recognised"})
					}
				}
			}
		}
	}
}

// --- direct conversions ---------------------------------------------------------

func isProtoEnum(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !isProtoPkg(n.Obj().Pkg()) {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isPlainInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && !isProtoEnum(t)
}

// enumConversions: enum values come from and go to protocol codes only through
// the tables, never by reinterpreting the number.
func (c *Ctx) enumConversions(r *Report, fs map[*ssa.Function]bool) {
	n := 0
	for _, f := range sortedFuncs(fs) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var from ssa.Value
				var to ssa.Value
				switch x := in.(type) {
				case *ssa.Convert:
					from, to = x.X, x
				case *ssa.ChangeType:
					from, to = x.X, x
				default:
					continue
				}
				if _, k := from.(*ssa.Const); k {
					continue
				}
				switch {
				case isProtoEnum(to.Type()) && isPlainInt(from.Type()):
					n++
					if bad := rawByteSource(from, 0); bad != "" && c.codedEnum(to.Type()) {
						r.add(Finding{Rule: "reinterpreted", Fn: stableFn(f), What: types.TypeString(to.Type(), nil), Pos: c.P.instrPos(in),
							Msg: "a protocol code (" + bad + ") is used as the enum's number instead of being looked up in the code table"})
					}
				case isProtoEnum(from.Type()) && isPlainInt(to.Type()):
					n++
					if c.codedEnum(from.Type()) && flowsToBytes(to, 0, map[ssa.Value]bool{}) {
						r.add(Finding{Rule: "reinterpreted", Fn: stableFn(f), What: types.TypeString(from.Type(), nil), Pos: c.P.instrPos(in),
							Msg: "the enum's number is written as its protocol code instead of the code the table assigns to it"})
					}
				case types.TypeString(from.Type(), nil) == "google.golang.org/protobuf/reflect/protoreflect.EnumNumber" && isPlainInt(to.Type()):
					n++
					if flowsToBytes(to, 0, map[ssa.Value]bool{}) {
						r.add(Finding{Rule: "reinterpreted", Fn: stableFn(f), What: "enum number", Pos: c.P.instrPos(in),
							Msg: "an enum's number is written as its protocol code instead of the code the table assigns to it"})
					}
				}
			}
		}
	}
	r.Cov["enum_conversions"] = n
}

// codedEnum: the enum's values carry protocol codes.
func (c *Ctx) codedEnum(t types.Type) bool {
	n := types.Unalias(t).(*types.Named)
	m, _ := c.memo["codedEnums"].(map[string]bool)
	if m == nil {
		m = map[string]bool{}
		enums, _, _ := c.descriptors()
		flds := map[int]bool{}
		for g, k := range c.extFields() {
			if _, ok := codeExts[g.Name()]; ok {
				flds[k] = true
			}
		}
		for _, e := range enums {
			for _, v := range e.vals {
				for k := range v.opts {
					if flds[k] {
						m[e.goPkg+"."+e.name] = true
					}
				}
			}
		}
		c.memo["codedEnums"] = m
	}
	return m[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// rawByteSource: the integer is computed from bytes of the input.
func rawByteSource(v ssa.Value, d int) string {
	if d > 8 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return rawByteSource(x.X, d+1)
	case *ssa.ChangeType:
		return rawByteSource(x.X, d+1)
	case *ssa.BinOp:
		if s := rawByteSource(x.X, d+1); s != "" {
			return s
		}
		return rawByteSource(x.Y, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && isByteSlice(ia.X.Type()) {
				return "a byte of the input"
			}
		}
	case *ssa.Parameter:
		if intBits(x.Type()) <= 16 {
			return "parameter " + x.Name()
		}
	case *ssa.Extract:
		if intBits(x.Type()) <= 16 {
			return "a value read from the input"
		}
	case *ssa.Call:
		nm := callName(x.Common())
		if strings.Contains(nm, "encoding/binary") {
			return "an integer read from the input"
		}
		if isPlainInt(x.Type()) && intBits(x.Type()) <= 16 {
			return "a value read from the input"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s := rawByteSource(e, d+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// flowsToBytes: the integer ends up as a byte that is stored, appended, returned
// as a byte or handed to a byte writer.
func flowsToBytes(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if d > 8 || seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	small := intBits(v.Type()) <= 16 && isPlainInt(v.Type())
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Convert:
			if isPlainInt(x.Type()) && flowsToBytes(x, d+1, seen) {
				return true
			}
		case *ssa.ChangeType:
			if isPlainInt(x.Type()) && flowsToBytes(x, d+1, seen) {
				return true
			}
		case *ssa.Phi:
			if flowsToBytes(x, d+1, seen) {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				if flowsToBytes(x, d+1, seen) {
					return true
				}
			}
		case *ssa.Store:
			if x.Val == v && small {
				return true
			}
		case *ssa.Return:
			if small {
				return true
			}
		case *ssa.Call:
			nm := callName(x.Common())
			if strings.Contains(nm, "PutUint") || strings.Contains(nm, "AppendUint") {
				return true
			}
		}
	}
	return false
}

// --- code pages -------------------------------------------------------------------

func normName(s string) string {
	var sb strings.Builder
	for _, ch := range s {
		if ch >= 'a' && ch <= 'z' {
			ch -= 32
		}
		if (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') {
			sb.WriteRune(ch)
		}
	}
	return sb.String()
}

func (c *Ctx) codePages(r *Report, fs map[*ssa.Function]bool, enums []*enumDesc, byField map[int]string) {
	var enc *enumDesc
	fld := 0
	for k, n := range byField {
		if n == "E_CodePage" {
			fld = k
		}
	}
	for _, e := range enums {
		for _, v := range e.vals {
			if _, ok := v.opts[fld]; ok && fld != 0 {
				enc = e
			}
		}
	}
	if enc == nil {
		r.add(Finding{Rule: "floor", Fn: "code page table", What: "enum", Msg: "no enum of the schema carries code pages"})
		return
	}
	byCode := map[int64]enumVal{}
	byNum := map[int64]enumVal{}
	for _, v := range enc.vals {
		byNum[v.num] = v
		if cp, ok := v.opts[fld]; ok {
			byCode[cp] = v
		}
	}
	isEnc := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == enc.goPkg && n.Obj().Name() == enc.name
	}
	wantMap := func(v enumVal) string { // charset a value of the table names, "" if it names none
		for _, k := range []string{"ISO", "KOI", "WINDOWS", "CODEPAGE"} {
			if strings.HasPrefix(normName(v.name), k) {
				return normName(v.name)
			}
		}
		return ""
	}
	mapName := func(x cv) string {
		if x.k != 's' {
			return ""
		}
		return normName(x.s[strings.LastIndex(x.s, ".")+1:])
	}
	nDec, nEnc, nTab := 0, 0, 0
	// role: tables between a byte and the encoding
	for _, f := range sortedFuncs(fs) {
		sig := f.Signature
		if sig.Results().Len() == 0 || sig.Params().Len() != 1 || f.Parent() != nil {
			continue
		}
		pt, rt := sig.Params().At(0).Type(), sig.Results().At(0).Type()
		pi := len(f.Params) - 1
		res := func(v cv) cv {
			if len(v.tup) > 0 {
				return v.tup[0]
			}
			return v
		}
		args := func(n int64) []cv {
			a := make([]cv, len(f.Params))
			for i := range a {
				a[i] = cvTop
			}
			a[pi] = cvInt(n)
			return a
		}
		switch {
		case isEnc(rt) && isPlainInt(pt):
			for k := int64(0); k < 256; k++ {
				got, ok := res((&sccp{c: c}).eval(f, args(k))).int()
				if !ok {
					continue
				}
				nTab++
				want, known := byCode[k]
				gv := byNum[got]
				_, coded := gv.opts[fld]
				switch {
				case known && got != want.num:
					r.add(Finding{Rule: "code page", Fn: fname(f), What: fmt.Sprintf("page %d", k), Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
						Msg: fmt.Sprintf("code page %d is read as %s, the schema assigns it to %s", k, gv.name, want.name)})
				case !known && coded:
					r.add(Finding{Rule: "code page", Fn: fname(f), What: fmt.Sprintf("page %d", k), Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
						Msg: fmt.Sprintf("code page %d, which the schema does not assign, is read as %s (page %d): both collapse into one value", k, gv.name, gv.opts[fld])})
				}
			}
		case isEnc(pt) && isPlainInt(rt):
			for _, v := range enc.vals {
				cp, ok := v.opts[fld]
				if !ok {
					continue
				}
				got, ok := res((&sccp{c: c}).eval(f, args(v.num))).int()
				if !ok {
					continue
				}
				nTab++
				if got != cp {
					r.add(Finding{Rule: "code page", Fn: fname(f), What: v.name, Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
						Msg: fmt.Sprintf("%s is written as code page %d, the schema and the reader use %d", v.name, got, cp)})
				}
			}
		}
	}
	// role: the reader and writer of code-paged strings
	for _, f := range sortedFuncs(fs) {
		sets, gets := false, false
		for _, ci := range callsOf(f) {
			kind, field, _ := protoMethod(ci.Common())
			if kind == "Set" && field == "Encoding" {
				if _, k := ci.Common().Args[1].(*ssa.Const); !k {
					sets = true
				}
			}
			if kind == "Get" && field == "Encoding" {
				gets = true
			}
		}
		coderCall := func(in ssa.Instruction, names ...string) (ssa.Value, bool) {
			cl, ok := in.(*ssa.Call)
			if !ok {
				return nil, false
			}
			nm := callName(cl.Common())
			for _, n := range names {
				if nm == "(*golang.org/x/text/encoding/charmap.Charmap)."+n {
					return cl.Call.Args[0], true
				}
			}
			return nil, false
		}
		if sets {
			// the code page byte: element 0 of a byte-slice parameter
			for k := int64(0); k < 256; k++ {
				k := k
				var maps []string
				var encs []cv
				e := &sccp{c: c}
				e.override = func(v ssa.Value) (cv, bool) {
					ld, ok := v.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL || ld.Parent() != f {
						return cv{}, false
					}
					ia, ok := ld.X.(*ssa.IndexAddr)
					if !ok {
						return cv{}, false
					}
					p, ok := ia.X.(*ssa.Parameter)
					ix, ok2 := ia.Index.(*ssa.Const)
					if ok && ok2 && isByteSlice(p.Type()) && ix.Int64() == 0 {
						return cvInt(k), true
					}
					return cv{}, false
				}
				e.observe = func(in ssa.Instruction, at func(ssa.Value) cv) {
					if rv, ok := coderCall(in, "NewDecoder", "DecodeByte"); ok {
						maps = append(maps, mapName(at(rv)))
					}
					if cl, ok := in.(*ssa.Call); ok && in.Parent() == f {
						if kind, field, _ := protoMethod(cl.Common()); kind == "Set" && field == "Encoding" {
							encs = append(encs, at(cl.Call.Args[1]))
						}
					}
				}
				e.eval(f, nil)
				want, known := byCode[k]
				if !known {
					continue
				}
				nDec++
				for _, x := range encs {
					if n, ok := x.int(); ok && n != want.num {
						r.add(Finding{Rule: "code page", Fn: fname(f), What: fmt.Sprintf("page %d", k), Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
							Msg: fmt.Sprintf("code page %d is stored as %s, the schema assigns it to %s", k, byNum[n].name, want.name)})
					}
				}
				for _, m := range maps {
					if w := wantMap(want); w != "" && m != "" && m != w {
						r.add(Finding{Rule: "charset", Fn: fname(f), What: fmt.Sprintf("read page %d", k), Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
							Msg: fmt.Sprintf("text in code page %d (%s) is decoded with the %s table", k, want.name, m)})
					}
				}
			}
		}
		if gets && !sets {
			for _, v := range enc.vals {
				if _, ok := v.opts[fld]; !ok {
					continue
				}
				v := v
				var maps []string
				e := &sccp{c: c}
				e.override = func(x ssa.Value) (cv, bool) {
					if cl, ok := x.(*ssa.Call); ok && cl.Parent() == f {
						if kind, field, _ := protoMethod(cl.Common()); kind == "Get" && field == "Encoding" {
							return cvInt(v.num), true
						}
					}
					return cv{}, false
				}
				e.observe = func(in ssa.Instruction, at func(ssa.Value) cv) {
					if rv, ok := coderCall(in, "NewEncoder", "EncodeRune"); ok {
						maps = append(maps, mapName(at(rv)))
					}
				}
				e.eval(f, nil)
				nEnc++
				w := wantMap(v)
				if w != "" && len(maps) == 0 && c.encodesText(f) {
					r.add(Finding{Rule: "charset", Fn: fname(f), What: "write " + v.name, Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
						Msg: fmt.Sprintf("text stored under %s is written without that character table: it is decoded with it", v.name)})
				}
				for _, m := range maps {
					if w != "" && m != "" && m != w {
						r.add(Finding{Rule: "charset", Fn: fname(f), What: "write " + v.name, Pos: relPos(c.P.SSA.Fset.Position(f.Pos())),
							Msg: fmt.Sprintf("text stored under %s is encoded with the %s table", v.name, m)})
					}
				}
			}
		}
	}
	r.floor("code_page_entries", nTab, 0)
	r.floor("code_page_reads", nDec, 1)
	r.floor("code_page_writes", nEnc, 1)
}

// encodesText: the function (or a callee) turns the message's text into bytes.
func (c *Ctx) encodesText(f *ssa.Function) bool {
	for _, ci := range callsOf(f) {
		kind, field, _ := protoMethod(ci.Common())
		if kind == "Get" && field == "Value" {
			return true
		}
	}
	return false
}
