package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P06"] = check{level: "proof", run: runP06} }

// purePackages are the libraries parsing and serialising may call: functions of
// their arguments only (exceptions are listed in impureFuncs).
var purePackages = []string{
	"errors", "fmt", "strings", "bytes", "strconv", "unicode", "encoding", "math", "bufio", "io", "sort", "slices", "maps", "cmp", "iter",
	"time", "hash", "crypto", "container", "unique", "regexp", "text/scanner", "reflect",
	"google.golang.org/protobuf", "golang.org/x/text", "github.com/keybase/go-crypto/brainpool", "github.com/ProtonMail/go-crypto",
}

var impurePrefixes = []string{
	"math/rand", "crypto/rand", "hash/maphash",
	"fmt.Print", "fmt.Scan", "fmt.Fscan",
	"time.Now", "time.Since", "time.Until", "time.After", "time.Sleep", "time.Tick", "time.New", "time.LoadLocation", "(time.Time).Local",
	"google.golang.org/protobuf/types/known/timestamppb.Now",
	"google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/encoding",
	"google.golang.org/protobuf/proto.SetExtension", "google.golang.org/protobuf/reflect/protoregistry.(*",
	"google.golang.org/protobuf/proto.RangeExtensions",
	"(google.golang.org/protobuf/reflect/protoreflect.Message).Range", "(google.golang.org/protobuf/reflect/protoreflect.Map).Range",
	"maps.Keys", "maps.Values", "maps.All", "crypto/rsa.Encrypt", "crypto/rsa.Sign", "crypto/rsa.Generate", "crypto/ecdsa.Sign", "crypto/ecdsa.Generate",
}

// locationMethods are the methods of time.Time whose result depends on the
// location attached to it.
var locationMethods = map[string]bool{
	"Format": true, "AppendFormat": true, "String": true, "GoString": true, "Year": true, "Month": true, "Day": true, "Date": true,
	"Clock": true, "Hour": true, "Minute": true, "Weekday": true, "YearDay": true, "ISOWeek": true, "AddDate": true, "Zone": true,
	"Location": true, "MarshalText": true, "MarshalJSON": true, "MarshalBinary": true, "IsDST": true, "ZoneBounds": true,
}

func extPkgPath(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil {
			return cc.Method.Pkg().Path()
		}
		return "" // error.Error
	}
	f := cc.StaticCallee()
	if f == nil {
		return ""
	}
	if p := funcPkg(f); p != nil {
		return p.Path()
	}
	return ""
}

func hasPkgPrefix(path string, list []string) bool {
	for _, p := range list {
		if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return false
}

func isTimeTime(t types.Type) bool {
	n, _ := types.Unalias(t).(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// isUTCLoc reports whether a *time.Location value is time.UTC.
func isUTCLoc(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.String() == "time.UTC"
		}
	}
	return false
}

func runP06(c *Ctx, r *Report) {
	roots := append(append(c.parseRoots(), c.marshalRoots()...), c.anonRoots()...)
	reach := c.P.reach(roots...)
	fs := sortedFuncs(reach)
	a := c.alias()
	extCalls, globals := 0, 0

	// 1. no write to package-level memory
	for _, f := range roots {
		for _, e := range a.rootEffects(f, nil, nil) {
			if e.kind == "write" {
				for _, l := range e.labels {
					if l == labGlobal {
						r.add(Finding{Rule: "global-write", Fn: fname(e.fn), What: e.what, Pos: e.pos, Msg: "writes memory reachable from a package-level variable: state is kept between calls"})
					}
				}
			}
		}
	}
	// 2. globals read must be assigned only by package initialisation
	written := map[*ssa.Global][]string{}
	for f := range c.P.All {
		if !isRepoFunc(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := baseGlobal(st.Addr); g != nil {
						written[g] = append(written[g], fname(f))
					}
				}
			}
		}
	}
	local := c.localTimes(fs)
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := func() string { return c.P.instrPos(in) }
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil {
						continue
					}
					globals++
					if w := written[g]; len(w) > 0 {
						sort.Strings(w)
						r.add(Finding{Rule: "mutable-global", Fn: fname(f), What: g.RelString(nil), Pos: pos(), Msg: "reads a package variable that " + w[0] + " assigns"})
					}
					switch {
					case g.String() == "time.Local":
						r.add(Finding{Rule: "local-time", Fn: fname(f), What: "time.Local", Pos: pos(), Msg: "uses the process's local time zone"})
					case g.Pkg.Pkg.Path() == "os":
						r.add(Finding{Rule: "io", Fn: fname(f), What: g.String(), Pos: pos(), Msg: "uses process-wide state"})
					}
				}
				switch v := in.(type) {
				case *ssa.Go:
					r.add(Finding{Rule: "concurrency", Fn: fname(f), What: "go statement", Pos: pos(), Msg: "the result may depend on scheduling"})
				case *ssa.Select:
					r.add(Finding{Rule: "concurrency", Fn: fname(f), What: "select", Pos: pos(), Msg: "the result may depend on scheduling"})
				case *ssa.Send:
					r.add(Finding{Rule: "concurrency", Fn: fname(f), What: "channel send", Pos: pos(), Msg: "the result may depend on scheduling"})
				case *ssa.UnOp:
					if v.Op == token.ARROW {
						r.add(Finding{Rule: "concurrency", Fn: fname(f), What: "channel receive", Pos: pos(), Msg: "the result may depend on scheduling"})
					}
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); ok && !orderFree(v) {
						r.add(Finding{Rule: "map-order", Fn: fname(f), What: "range over a map", Pos: pos(), Msg: "the iteration order of a map is random and the loop body is not order independent"})
					}
				case ssa.CallInstruction:
					cc := v.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					name := callName(cc)
					path := extPkgPath(cc)
					if path == "" || isRepoPkg(pkgOf(cc)) || isProtoPkg(pkgOf(cc)) {
						continue
					}
					extCalls++
					if strings.HasPrefix(name, "maps.") && sortedAtOnce(v) {
						continue
					}
					bad := ""
					for _, p := range impurePrefixes {
						if strings.HasPrefix(name, p) || path == p {
							bad = "is not a function of its arguments alone"
						}
					}
					if !hasPkgPrefix(path, purePackages) {
						bad = "is outside the set of libraries known to be pure"
					}
					if bad != "" {
						r.add(Finding{Rule: "impure-call", Fn: fname(f), What: name, Pos: pos(), Msg: "the called function " + bad})
					}
					if strings.HasPrefix(name, "time.Date") || strings.HasPrefix(name, "time.ParseInLocation") || name == "(time.Time).In" {
						if loc := cc.Args[len(cc.Args)-1]; !isUTCLoc(loc) {
							r.add(Finding{Rule: "local-time", Fn: fname(f), What: name, Pos: pos(), Msg: "the location is not time.UTC"})
						}
					}
					if strings.HasPrefix(name, "(time.Time).") && locationMethods[strings.TrimPrefix(name, "(time.Time).")] && local[cc.Args[0]] {
						r.add(Finding{Rule: "local-time", Fn: fname(f), What: name, Pos: pos(), Msg: "applied to a time that may be in the process's local zone (made by time.Unix and not converted with UTC)"})
					}
				}
			}
		}
	}
	r.floor("functions_analysed", len(fs), 200)
	r.floor("library_call_sites", extCalls, 500)
	r.Cov["package_variable_references"] = globals
	r.Cov["explanation"] = "effect analysis over every function reachable from UnmarshalFile, MarshalFile and the Anonymize operations: every library call site is checked against an allow-list of pure packages, every store against package-level memory, and clocks, local time zones, goroutines, channels and map iteration are excluded"
	r.Cov["proof"] = proofCov(extCalls+globals, r)
	r.Assume = append(r.Assume, aliasAssumptions...)
	r.Assume = append(r.Assume, "library functions of the allow-listed packages other than the listed exceptions depend on their arguments only")
}

func pkgOf(cc *ssa.CallCommon) *types.Package {
	if cc.IsInvoke() {
		return cc.Method.Pkg()
	}
	if f := cc.StaticCallee(); f != nil {
		return funcPkg(f)
	}
	return nil
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// sortedAtOnce: maps.Keys(m) consumed only by slices.Sorted...
func sortedAtOnce(ci ssa.CallInstruction) bool {
	v, ok := ci.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	n := 0
	for _, ref := range *v.Referrers() {
		switch u := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.ChangeType:
			if !sortedAtOnceVal(u) {
				return false
			}
			n++
		case ssa.CallInstruction:
			if !strings.HasPrefix(callName(u.Common()), "slices.Sorted") {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

func sortedAtOnceVal(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if u, ok := ref.(ssa.CallInstruction); !ok || !strings.HasPrefix(callName(u.Common()), "slices.Sorted") {
			return false
		}
	}
	return true
}

// orderFree: the loop only tests membership (returns constants or breaks), or
// only writes map entries or integer sums, or collects into a slice that is sorted.
func orderFree(rg *ssa.Range) bool {
	f := rg.Parent()
	var head *ssa.BasicBlock
	for _, ref := range *rg.Referrers() {
		if nx, ok := ref.(*ssa.Next); ok {
			head = nx.Block()
		}
	}
	if head == nil {
		return false
	}
	body := loopBlocks(f, head)
	sorted := false
	for _, ci := range callsOf(f) {
		n := callName(ci.Common())
		if (strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort")) && head.Dominates(ci.Block()) && !body[ci.Block()] {
			sorted = true
		}
	}
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != head {
				// leaves the loop early: fine only when nothing of the element escapes
				for _, in := range s.Instrs {
					if ret, ok := in.(*ssa.Return); ok {
						for _, rv := range ret.Results {
							if _, ok := rv.(*ssa.Const); !ok {
								return false
							}
						}
						continue
					}
				}
				if len(s.Instrs) == 0 {
					return false
				}
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); !ok {
					return false
				}
			}
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Store, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Phi:
				if _, ok := v.Type().Underlying().(*types.Slice); ok && !sorted {
					return false
				}
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsFloat) != 0 {
					return false
				}
			case ssa.CallInstruction:
				switch callName(v.Common()) {
				case "builtin.len", "builtin.cap", "bytes.Equal", "strings.EqualFold":
				case "builtin.append":
					if !sorted {
						return false
					}
				default:
					if k, _, _ := protoMethod(v.Common()); k == "Get" || k == "Has" {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

// loopBlocks is the natural loop with the given header.
func loopBlocks(f *ssa.Function, head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

// localTimes computes the time.Time values that may carry the local zone.
func (c *Ctx) localTimes(fs []*ssa.Function) map[ssa.Value]bool {
	loc := map[ssa.Value]bool{}
	ret := map[*ssa.Function]map[int]bool{}
	taken := c.P.addressTaken()
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !loc[v] {
				loc[v] = true
				changed = true
			}
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch v := in.(type) {
					case *ssa.Phi:
						for _, e := range v.Edges {
							if loc[e] {
								mark(v)
							}
						}
					case *ssa.Store:
						if loc[v.Val] {
							mark(v.Addr)
						}
					case *ssa.UnOp:
						if v.Op == token.MUL && loc[v.X] {
							mark(v)
						}
					case *ssa.FieldAddr:
						if loc[v] {
							mark(v.X)
						}
						if loc[v.X] {
							mark(v)
						}
					case *ssa.Field:
						if loc[v.X] {
							mark(v)
						}
					case *ssa.MakeInterface:
						if loc[v.X] {
							mark(v)
						}
					case *ssa.Extract:
						if call, ok := v.Tuple.(*ssa.Call); ok {
							for _, g := range callees(c.P, taken, call.Common()) {
								if ret[g][v.Index] {
									mark(v)
								}
							}
						}
					case *ssa.Return:
						for i, rv := range v.Results {
							if loc[rv] && !ret[f][i] {
								if ret[f] == nil {
									ret[f] = map[int]bool{}
								}
								ret[f][i] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						cc := v.Common()
						val, _ := v.(ssa.Value)
						name := callName(cc)
						switch name {
						case "time.Unix", "time.UnixMilli", "time.UnixMicro", "(time.Time).Local", "time.Now":
							mark(val)
						case "(time.Time).UTC":
						case "(time.Time).In":
							if !isUTCLoc(cc.Args[1]) {
								mark(val)
							}
						case "(time.Time).Add", "(time.Time).AddDate", "(time.Time).Truncate", "(time.Time).Round":
							if loc[cc.Args[0]] {
								mark(val)
							}
						default:
							for _, g := range callees(c.P, taken, cc) {
								args := cc.Args
								if cc.IsInvoke() {
									args = append([]ssa.Value{cc.Value}, args...)
								}
								for i, av := range args {
									if loc[av] && i < len(g.Params) {
										mark(g.Params[i])
									}
								}
								if ret[g][0] && g.Signature.Results().Len() == 1 {
									mark(val)
								}
							}
						}
					}
				}
			}
		}
	}
	return loc
}

// callees resolves a call to repository functions.
func callees(p *Prog, taken map[string][]*ssa.Function, cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		return p.implementations(cc)
	}
	if g := cc.StaticCallee(); g != nil {
		if isRepoFunc(g) && len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return taken[sigKey(cc.Signature())]
}
