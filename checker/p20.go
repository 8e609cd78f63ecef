package main

import (
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P20"] = check{level: "proof", run: runP20} }

func isNetCall(name string) bool {
	switch name {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "(*net/http.Client).Head",
		"net/http.Get", "net/http.Post", "net/http.PostForm", "net/http.Head", "(net/http.RoundTripper).RoundTrip", "(*net/http.Transport).RoundTrip":
		return true
	}
	return strings.HasPrefix(name, "net.Dial") || strings.HasPrefix(name, "(*net.Dialer).")
}

func isEmbedRead(name string) bool {
	switch name {
	case "(embed.FS).ReadFile", "(embed.FS).Open", "io/fs.ReadFile", "(io/fs.FS).Open", "(io/fs.ReadFileFS).ReadFile":
		return true
	}
	return false
}

// pathTemplate renders a file name built from constants and one variable as
// prefix, variable, suffix.
func pathTemplate(st *tstate, t *term) (pre string, v *term, suf string, ok bool) {
	if t.cst != nil && t.cst.Kind() == constant.String {
		return constant.StringVal(t.cst), nil, "", true
	}
	switch {
	case t.op == "bin:+":
		p1, v1, s1, ok1 := pathTemplate(st, t.args[0])
		p2, v2, s2, ok2 := pathTemplate(st, t.args[1])
		if !ok1 || !ok2 || v1 != nil && v2 != nil {
			return
		}
		if v1 != nil {
			return p1, v1, s1 + p2, true
		}
		if v2 != nil {
			return p1 + p2, v2, s2, true
		}
		return p1 + p2, nil, "", true
	case t.callee() != "":
		return "", nil, "", false
	case strings.HasPrefix(t.op, "conv:"):
		return pathTemplate(st, t.args[0])
	}
	return "", t, "", true
}

func runP20(c *Ctx, r *Report) {
	root := c.must("DefaultCertificateResolver")
	e := newTpath(c)
	e.dispatch, e.keepAll, e.maxIter = true, true, 12
	memo := map[*ssa.Function]int{}
	var interesting func(f *ssa.Function, depth int) bool
	interesting = func(f *ssa.Function, depth int) bool {
		if v, ok := memo[f]; ok {
			return v == 1
		}
		memo[f] = 0
		res := smallPure(f, 0)
		for _, h := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, ci := range callsOf(h) {
				cc := ci.Common()
				n := callName(cc)
				if isNetCall(n) || isEmbedRead(n) || cc.IsInvoke() && isResolverCall(n) || strings.HasPrefix(n, "net/http.NewRequest") || n == "io.ReadAll" {
					res = true
				}
				if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && depth < 10 && interesting(g, depth+1) {
					res = true
				}
			}
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && isHTTPResponse(fa.X.Type()) {
						res = true
					}
					if mi, ok := in.(*ssa.MakeInterface); ok {
						// builds a resolver
						if c.P.methodByName(mi.X.Type(), "GetRsaCertificate") != nil {
							res = true
						}
					}
				}
			}
		}
		if rs := f.Signature.Results(); rs.Len() > 0 {
			if c.P.methodByName(rs.At(0).Type(), "GetRsaCertificate") != nil {
				res = true
			}
		}
		if res {
			memo[f] = 1
		}
		return res
	}
	e.inline = func(f *ssa.Function) bool { return interesting(f, 0) }
	e.event = func(name string, cc *ssa.CallCommon) bool {
		return isNetCall(name) || isEmbedRead(name) || strings.HasSuffix(name, ").Close") || name == "io.ReadAll" || strings.HasPrefix(name, "(io.")
	}
	e.keep = func(t *term) bool { return t.op != "has" }

	paths, netPaths, closes, embedReads := 0, 0, 0, 0
	fn0 := ""
	add := func(rule, what, msg string, o toutcome) {
		pos := ""
		if o.ret != nil {
			pos = c.P.instrPos(o.ret)
		}
		r.add(Finding{Rule: rule, Fn: fn0, What: what, Pos: pos, Msg: msg})
	}
	kinds := 0
	for _, method := range []string{"GetRsaCertificate", "GetEccCertificate", "GetRootCertificate"} {
		fn0 = "DefaultCertificateResolver." + method
		for _, ro := range e.exec(root, nil, nil, newTstate(), "", 0) {
			if len(ro.res) == 0 || ro.res[0].op != "iface" {
				r.Cov["undecided"] = "the default resolver's dynamic type is not evident"
				continue
			}
			res := ro.res[0]
			m := c.P.methodByName(res.typ, method)
			if m == nil || len(m.Blocks) == 0 {
				continue
			}
			kinds++
			args := []*term{res.args[0]}
			for i, p := range m.Params[1:] {
				t := e.mk("arg:" + p.Name())
				_ = i
				args = append(args, t)
			}
			ctxT := args[1]
			var chr *term
			if len(args) > 2 {
				chr = args[2]
			}
			for _, o := range e.exec(m, args, nil, ro.st.clone(), "", 0) {
				paths++
				st := o.st
				failed := e.nilness(st, o.res[len(o.res)-1]) == 'N'
				var embedEv []*term
				for i, ev := range st.events {
					n := ev.callee()
					switch {
					case isEmbedRead(n):
						embedReads++
						embedEv = append(embedEv, ev)
						if chr == nil {
							continue
						}
						pre, v, suf, ok := pathTemplate(st, ev.args[len(ev.args)-1])
						if !ok {
							continue
						}
						if v != chr {
							add("embedded-lookup-key", "embedded store", "the embedded certificate is read under a name that is not built from the requested reference alone", o)
							continue
						}
						c.embedTemplate(r, ev, pre, suf, method)
					case isNetCall(n):
						netPaths++
						if chr != nil {
							miss := false
							for _, em := range embedEv {
								if e.nilness(st, e.mk("ret1", em)) == 'N' {
									miss = true
								}
								// found but unusable: an error of a later step that depends on the bytes
								for t, v := range st.facts {
									if v == 'N' && strings.HasPrefix(t.op, "ret") && t.op != "ret0" && t.args[0] != em && e.deps(st, t.args[0])[e.mk("ret0", em)] {
										miss = true
									}
								}
							}
							if !miss {
								add("network-before-embedded", "network request", "the network is consulted on a path on which the embedded store was not asked first, or had an answer", o)
							}
						}
						if n != "(*net/http.Client).Do" && !strings.HasSuffix(n, "RoundTrip") {
							add("request-without-context", n, "the request does not carry the caller's context", o)
						} else if !e.carriesCtx(st, ev.args[1], ctxT) {
							add("request-without-context", n, "the request is not built with the caller's context", o)
						}
						if e.nilness(st, e.mk("ret1", ev)) == 'N' {
							continue // the request failed: there is no body
						}
						resp := e.mk("ret0", ev)
						// closed on every path
						closed := false
						used := false
						for _, later := range st.events[i+1:] {
							ln := later.callee()
							if strings.HasPrefix(later.op, "defer:") {
								ln = strings.TrimPrefix(later.op, "defer:")
							}
							d := e.deps(st, later)
							if strings.HasSuffix(ln, ").Close") && d[resp] {
								closed = true
							}
						}
						for _, x := range o.res {
							if e.deps(st, x)[resp] {
								used = true
							}
						}
						for t := range st.facts {
							// bytes of the body were decoded
							if strings.HasPrefix(t.op, "ret") && t.args[0].callee() != "" && strings.HasPrefix(t.args[0].callee(), modPath) && e.deps(st, t)[resp] {
								used = true
							}
						}
						if closed {
							closes++
						} else {
							add("body-not-closed", n, "the response body is not closed on this path ("+e.why(st)+")", o)
						}
						if !failed && used && !e.statusOK(st, resp) {
							add("status-not-checked", n, "the response is used on a path that does not establish a success status", o)
						}
						if !failed && used && chr != nil {
							for t := range e.deps(st, ev.args[1]) {
								want := map[string]string{"GetRsaCertificate": "|g1", "GetEccCertificate": "|g2"}[method]
								if (strings.HasSuffix(t.name, "|g1") || strings.HasSuffix(t.name, "|g2")) && !strings.HasSuffix(t.name, want) {
									add("wrong-index", n, "the address requested comes from the other generation's index list", o)
								}
							}
						}
						if !failed && used && chr != nil && !e.entryMatches(st, ev.args[1], chr) {
							add("entry-not-matched", n, "the address requested does not come from the index entry whose holder reference equals the requested reference", o)
						}
					}
				}
			}
		}
	}
	if e.over {
		r.add(Finding{Rule: "undecided", Fn: "resolver", What: "path budget", Msg: "too many paths to enumerate"})
	}
	// every network call of the library, wherever it is
	sites := 0
	for _, f := range sortedFuncs(c.P.All) {
		if !isRepoFunc(f) || isProtoPkg(funcPkg(f)) {
			continue
		}
		for _, ci := range callsOf(f) {
			n := callName(ci.Common())
			if !isNetCall(n) {
				continue
			}
			sites++
			if n != "(*net/http.Client).Do" && !strings.HasSuffix(n, "RoundTrip") {
				r.add(Finding{Rule: "request-without-context", Fn: fname(f), What: n, Pos: c.P.instrPos(ci.(ssa.Instruction)), Msg: "a request made this way cannot carry the caller's context"})
			}
		}
	}
	r.Cov["rule"] = "per lookup kind, every path through the default resolver: embedded read by the reference before any request; request built with the caller's context; 2xx status before the body is used; body closed on every path after a successful request"
	r.Cov["paths"] = paths
	r.Cov["paths_with_request"] = netPaths
	r.Cov["closes_established"] = closes
	r.Cov["embedded_reads"] = embedReads
	r.Cov["network_call_sites"] = sites
	r.Cov["obligations"] = paths + netPaths*4
	r.Cov["discharged"] = paths + netPaths*4 - len(r.Findings)
	r.Cov["instructions_interpreted"] = e.steps
	r.Cov["checker_cmd"] = "run.sh P20"
	r.Cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "net/http, embed"}
	r.Cov["lookup_kinds"] = kinds
}

func isHTTPResponse(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == "Response"
}

// methodByName finds a concrete method of a type.
func (p *Prog) methodByName(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// carriesCtx: the request was built with the given context.
func (e *tpath) carriesCtx(st *tstate, req, ctx *term) bool {
	for t := range e.deps(st, req) {
		switch t.callee() {
		case "net/http.NewRequestWithContext":
			if t.args[0] == ctx || e.derivedCtx(st, t.args[0], ctx) {
				return true
			}
		case "(*net/http.Request).WithContext":
			if t.args[1] == ctx || e.derivedCtx(st, t.args[1], ctx) {
				return true
			}
		}
	}
	return false
}

func (e *tpath) derivedCtx(st *tstate, t, ctx *term) bool { return e.deps(st, t)[ctx] }

// statusOK: the facts of the path bound the response status to 200..299.
func (e *tpath) statusOK(st *tstate, resp *term) bool {
	lo, hi := int64(0), int64(1<<30)
	for t, v := range st.facts {
		if v != 't' && v != 'f' || len(t.args) != 2 {
			continue
		}
		isStatus := func(x *term) bool {
			return strings.HasPrefix(x.op, "load") && len(x.args) == 1 && strings.HasPrefix(x.args[0].op, "faddr:") && e.deps(st, x)[resp] && strings.HasPrefix(x.args[0].name, "StatusCode|")
		}
		a, b := t.args[0], t.args[1]
		num := func(x *term) (int64, bool) {
			if x.cst == nil || x.cst.Kind() != constant.Int {
				return 0, false
			}
			return constant.Int64Val(x.cst)
		}
		switch t.op {
		case "==":
			if n, ok := num(b); ok && v == 't' {
				if isStatus(a) {
					lo, hi = n, n
				} else if a.op == "bin:/" && isStatus(a.args[0]) && n == 2 {
					if d, ok := num(a.args[1]); ok && d == 100 {
						lo, hi = 200, 299
					}
				}
			}
		case "<":
			if n, ok := num(b); ok && isStatus(a) {
				if v == 't' && n-1 < hi {
					hi = n - 1
				} else if v == 'f' && n > lo {
					lo = n
				}
			}
			if n, ok := num(a); ok && isStatus(b) {
				if v == 't' && n+1 > lo {
					lo = n + 1
				} else if v == 'f' && n < hi {
					hi = n
				}
			}
		}
	}
	return lo >= 200 && hi <= 299
}

// entryMatches: some index entry compared equal to the reference provides the address.
func (e *tpath) entryMatches(st *tstate, req, chr *term) bool {
	rd := e.deps(st, req)
	for t, v := range st.facts {
		if t.op != "==" || v != 't' {
			continue
		}
		var o *term
		switch {
		case t.args[0] == chr:
			o = t.args[1]
		case t.args[1] == chr:
			o = t.args[0]
		default:
			continue
		}
		if len(o.args) == 0 {
			continue
		}
		name := o.name
		if name == "" && o.op == "load" {
			name = o.args[0].name
		}
		if j := strings.Index(name, "|"); j >= 0 && name[j+1:] != "" && name[j+1:] != "chr" {
			continue // compared with another field of the index
		}
		base := o.args[0]
		for strings.HasPrefix(base.op, "faddr:") || strings.HasPrefix(base.op, "field:") {
			base = base.args[0]
		}
		if rd[base] {
			return true
		}
	}
	// a keyed index (map lookup by the reference)
	for t := range rd {
		if strings.HasPrefix(t.op, "lookup@") && t.args[1] == chr {
			return true
		}
		if t.callee() != "" {
			for _, a := range t.args {
				if a == chr {
					return true
				}
			}
		}
	}
	return false
}

// embedTemplate checks that the names the store is read under are names of shipped files.
func (c *Ctx) embedTemplate(r *Report, ev *term, pre, suf, method string) {
	var names []string
	abs := map[string]string{}
	want := map[string]string{"GetRsaCertificate": "rsa", "GetEccCertificate": "ecc"}[method]
	for path, pk := range c.P.ByPath {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for _, f := range pk.EmbedFiles {
			dir := ""
			if len(pk.GoFiles) > 0 {
				dir = filepath.Dir(pk.GoFiles[0])
			}
			rel, err := filepath.Rel(dir, f)
			if err == nil {
				names = append(names, filepath.ToSlash(rel))
				abs[filepath.ToSlash(rel)] = f
			}
		}
	}
	sort.Strings(names)
	n := 0
	for _, f := range names {
		if strings.HasPrefix(f, pre) && strings.HasSuffix(f, suf) && len(f) > len(pre)+len(suf) {
			n++
			if b, err := os.ReadFile(abs[f]); err == nil && want != "" {
				kind := "rsa"
				if len(b) > 1 && b[0] == 0x7F && b[1] == 0x21 {
					kind = "ecc"
				}
				if kind != want {
					r.add(Finding{Rule: "embedded-kind", Fn: method, What: f, Msg: "the store read for this kind of certificate ships certificates of the other kind"})
				}
			}
			mid := f[len(pre) : len(f)-len(suf)]
			for _, ch := range mid {
				if ch < '0' || ch > '9' {
					r.add(Finding{Rule: "embedded-name", Fn: method, What: f, Msg: "the part of the name that stands for the reference is not a decimal reference"})
					break
				}
			}
		}
	}
	r.Cov["shipped_"+method] = n
	if n == 0 {
		r.add(Finding{Rule: "embedded-name", Fn: method, What: pre + "<reference>" + suf, Msg: "no shipped file has a name of this form: the embedded store can never answer"})
	}
}
