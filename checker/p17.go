package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P17"] = check{level: "proof", run: func(c *Ctx, r *Report) { c.verifyPaths(r, "P17") }}
	checks["P18"] = check{level: "proof", run: func(c *Ctx, r *Report) { c.verifyPaths(r, "P18") }}
	checks["P19"] = check{level: "proof", run: func(c *Ctx, r *Report) { c.verifyPaths(r, "P19") }}
}

func isCertType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || !isProtoMsg(t) {
		return false
	}
	for _, m := range []string{"SetSignatureValid"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), m); o != nil {
			return true
		}
	}
	return false
}

func isResolverCall(name string) bool {
	for _, m := range []string{").GetRsaCertificate", ").GetEccCertificate", ").GetRootCertificate"} {
		if strings.HasSuffix(name, m) {
			return true
		}
	}
	return false
}

func isSigPrimitive(name string) bool {
	switch {
	case strings.HasPrefix(name, "crypto/ecdsa.Verify"), name == "(*math/big.Int).Exp",
		strings.HasPrefix(name, "crypto/rsa.Verify"), strings.HasPrefix(name, "crypto/ed25519.Verify"):
		return true
	}
	return false
}

func isByteCompare(name string) bool {
	switch name {
	case "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Compare":
		return true
	}
	return false
}

// verifyEngine expands every function that takes part in signature verification.
func (c *Ctx) verifyEngine() *tpath {
	e := newTpath(c)
	memo := map[*ssa.Function]int{}
	var interesting func(f *ssa.Function, depth int) bool
	interesting = func(f *ssa.Function, depth int) bool {
		if v, ok := memo[f]; ok {
			return v == 1
		}
		memo[f] = 0
		res := false
		var fs []*ssa.Function
		fs = append(fs, f)
		fs = append(fs, f.AnonFuncs...)
		for _, h := range fs {
			for _, ci := range callsOf(h) {
				cc := ci.Common()
				n := callName(cc)
				if isSigPrimitive(n) || cc.IsInvoke() && isResolverCall(n) || isByteCompare(n) {
					res = true
				}
				if k, _, recv := protoMethod(cc); k == "Set" && isCertType(recv) {
					res = true
				}
				if g := cc.StaticCallee(); g != nil && isRepoFunc(g) && depth < 10 && interesting(g, depth+1) {
					res = true
				}
				for _, a := range cc.Args {
					if g, ok := a.(*ssa.Function); ok && isRepoFunc(g) && depth < 10 && interesting(g, depth+1) {
						res = true
					}
				}
			}
		}
		if !res {
			res = smallPure(f, 0)
		}
		if res {
			memo[f] = 1
		}
		return res
	}
	e.inline = func(f *ssa.Function) bool { return interesting(f, 0) }
	e.leaf = func(t *term) bool { return isResolverCall(t.callee()) }
	e.event = func(name string, cc *ssa.CallCommon) bool { return cc.IsInvoke() && isResolverCall(name) }
	e.keep = func(t *term) bool {
		if t.op == "==" && t.args[0].op == "len" && !strings.HasPrefix(t.args[0].args[0].op, "get:") {
			return false
		}
		return strings.HasPrefix(t.op, "get:") || strings.HasPrefix(t.op, "arg") || strings.HasPrefix(t.op, "ret") || t.op == "==" || strings.HasPrefix(t.op, "call:") || strings.HasPrefix(t.op, "field:")
	}
	return e
}

// smallPure: a short straight function of its arguments, worth expanding.
func smallPure(f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 14 || depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			}
			if k, _, _ := protoMethod(cc); k == "Get" || k == "Has" {
				continue
			}
			n := callName(cc)
			if n == "fmt.Errorf" || n == "errors.New" || isByteCompare(n) {
				continue
			}
			g := cc.StaticCallee()
			if g == nil || !isRepoFunc(g) || !smallPure(g, depth+1) {
				return false
			}
		}
	}
	return true
}

// sigCheck is a signature comparison known to have succeeded on a path.
type sigCheck struct {
	kind string // "rsa" or "ecc"
	fact *term
	deps map[*term]bool // everything the comparison depends on
	sig  map[*term]bool // what the signature value was taken from
	key  map[*term]bool // what the public key was taken from
	msg  map[*term]bool // what the digest was computed over
}

func factTrue(e *tpath, st *tstate, t *term) bool {
	v := st.facts[t]
	if t.op == "==" && t.args[1].cst != nil && t.args[0].callee() != "" {
		switch t.args[0].callee() {
		case "crypto/subtle.ConstantTimeCompare":
			s := t.args[1].cst.ExactString()
			return v == 't' && s == "1" || v == 'f' && s == "0"
		case "bytes.Compare":
			return v == 't' && t.args[1].cst.ExactString() == "0"
		}
	}
	return v == 't'
}

// sigChecks lists the signature checks that succeeded on the path.
func (e *tpath) sigChecks(st *tstate) []sigCheck {
	var out []sigCheck
	for t := range st.facts {
		if !factTrue(e, st, t) {
			continue
		}
		switch {
		case strings.HasPrefix(t.callee(), "crypto/ecdsa.Verify") && len(t.args) >= 3:
			s := sigCheck{kind: "ecc", fact: t, key: e.deps(st, t.args[0]), msg: e.deps(st, t.args[1]), sig: map[*term]bool{}, deps: e.deps(st, t)}
			for _, a := range t.args[2:] {
				for d := range e.deps(st, a) {
					s.sig[d] = true
				}
			}
			out = append(out, s)
		case isByteCompare(t.callee()), t.op == "==":
			d := e.deps(st, t)
			var exp, sha *term
			for x := range d {
				switch {
				case x.callee() == "(*math/big.Int).Exp":
					exp = x
				case strings.HasPrefix(x.callee(), "crypto/sha1."):
					sha = x
				}
			}
			if exp == nil || sha == nil || len(exp.args) < 4 {
				continue
			}
			// the digest on one side, the recovered value on the other
			a, b := t, t
			if t.op == "==" && isByteCompare(t.args[0].callee()) {
				a = t.args[0]
			} else {
				a = t
			}
			if len(a.args) < 2 {
				continue
			}
			b = a.args[1]
			a = a.args[0]
			has := func(x *term, sub string) bool {
				for y := range e.deps(st, x) {
					if strings.HasPrefix(y.callee(), sub) {
						return true
					}
				}
				return false
			}
			if !(has(a, "crypto/sha1.") && has(b, "(*math/big.Int).Exp") || has(b, "crypto/sha1.") && has(a, "(*math/big.Int).Exp")) {
				continue
			}
			if !wholeDigest(a) || !wholeDigest(b) {
				continue
			}
			s := sigCheck{kind: "rsa", fact: t, sig: e.deps(st, exp.args[1]), key: map[*term]bool{}, msg: e.deps(st, sha), deps: d}
			for _, k := range exp.args[2:] {
				for x := range e.deps(st, k) {
					s.key[x] = true
				}
			}
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fact.key < out[j].fact.key })
	return out
}

// linForm writes an integer term as constant + sum of coefficient*atom.
func linForm(t *term) (int64, map[*term]int64) {
	if t.cst != nil {
		if n, ok := constant.Int64Val(t.cst); ok {
			return n, nil
		}
	}
	if n, ok := int64(0), false; t.op == "len" {
		if n, ok = arrayLen(t.args[0]); ok {
			return n, nil
		}
		if s := t.args[0]; s.op == "slice" {
			return sliceWidth(s)
		}
	}
	if len(t.args) == 2 && (t.op == "bin:+" || t.op == "bin:-") {
		c1, m1 := linForm(t.args[0])
		c2, m2 := linForm(t.args[1])
		sg := int64(1)
		if t.op == "bin:-" {
			sg = -1
		}
		return linAdd(c1, m1, c2, m2, sg)
	}
	return 0, map[*term]int64{t: 1}
}

func linAdd(c1 int64, m1 map[*term]int64, c2 int64, m2 map[*term]int64, sg int64) (int64, map[*term]int64) {
	m := map[*term]int64{}
	for k, v := range m1 {
		m[k] += v
	}
	for k, v := range m2 {
		m[k] += sg * v
	}
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return c1 + sg*c2, m
}

// sliceWidth: high - low of a slice term.
func sliceWidth(t *term) (int64, map[*term]int64) {
	c1, m1 := int64(0), map[*term]int64(nil)
	if t.args[2].op != "_" {
		c1, m1 = linForm(t.args[2])
	} else if n, ok := arrayLen(&term{op: "slice", args: []*term{t.args[0], {op: "_"}, {op: "_"}}}); ok {
		c1 = n
	} else if t.args[0].op == "slice" {
		c1, m1 = sliceWidth(t.args[0])
	} else {
		m1 = map[*term]int64{t.args[0]: 1}
	}
	if t.args[1].op == "_" {
		return c1, m1
	}
	c2, m2 := linForm(t.args[1])
	return linAdd(c1, m1, c2, m2, -1)
}

// wholeDigest: a slice that is compared spans at least a SHA-1 digest; a bound
// that depends on the data could cut the comparison short.
func wholeDigest(t *term) bool {
	if t.op != "slice" {
		return true
	}
	n, m := sliceWidth(t)
	if len(m) == 0 {
		return n >= 20
	}
	return t.args[2].op == "_"
}

func hasGet(set map[*term]bool, field string, recv *term) bool {
	for t := range set {
		if (t.op == "get:"+field || t.op == "stored:"+field) && len(t.args) > 0 && t.args[0] == recv {
			return true
		}
	}
	return false
}

// recvsOf lists the messages whose field is read in a set of terms.
func recvsOf(set map[*term]bool, fields ...string) []*term {
	seen := map[*term]bool{}
	var out []*term
	for t := range set {
		for _, f := range fields {
			if (t.op == "get:"+f || t.op == "stored:"+f) && len(t.args) > 0 && !seen[t.args[0]] {
				seen[t.args[0]] = true
				out = append(out, t.args[0])
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

// checked finds a successful signature check of cert, and the issuers whose key it used.
func (e *tpath) checked(st *tstate, cert *term, kind string) (ok bool, missing string, issuers []*term) {
	missing = "no signature check of this certificate has succeeded"
	for _, s := range e.sigChecks(st) {
		if s.kind != kind {
			continue
		}
		if kind == "ecc" {
			if !hasGet(s.msg, "RawData", cert) {
				continue
			}
			sigOK := false
			for t := range s.sig {
				if t.op == "get:Signature" && t.args[0] == cert || strings.HasPrefix(t.op, "get:RawData") && t.args[0] == cert {
					sigOK = true
				}
			}
			if !sigOK {
				continue
			}
			iss := []*term{}
			for _, pk := range recvsOf(s.key, "PublicPointX") {
				if strings.HasPrefix(pk.op, "get:PublicKey") {
					iss = append(iss, pk.args[0])
				}
			}
			if len(iss) != 1 {
				missing = "the public key of the check does not come from one issuer certificate"
				continue
			}
			if iss[0] == cert {
				missing = "the certificate was checked with its own key"
				continue
			}
			return true, "", iss
		}
		if !hasGet(s.sig, "RawData", cert) || !hasGet(s.msg, "RawData", cert) {
			continue
		}
		iss := []*term{}
		for _, r := range recvsOf(s.key, "RsaModulus") {
			if hasGet(s.key, "RsaExponent", r) {
				iss = append(iss, r)
			}
		}
		if len(iss) == 0 {
			missing = "modulus and exponent of the check do not come from one issuer"
			continue
		}
		var direct []*term
		for _, i := range iss {
			if i != cert {
				direct = append(direct, i)
			}
		}
		if len(direct) == 0 {
			missing = "the certificate was checked with its own key"
			continue
		}
		// header and trailer of the recovered value
		need := map[string]bool{"106": false, "188": false}
		for t := range st.facts {
			if t.op != "==" || st.facts[t] != 't' || t.args[1].cst == nil || t.args[1].cst.Kind() != constant.Int {
				continue
			}
			v := t.args[1].cst.ExactString()
			if _, want := need[v]; !want {
				continue
			}
			d := e.deps(st, t.args[0])
			for x := range d {
				if x.callee() == "(*math/big.Int).Exp" && hasGet(e.deps(st, x.args[1]), "RawData", cert) {
					need[v] = true
				}
			}
		}
		if !need["106"] || !need["188"] {
			missing = "the header (6A) or trailer (BC) of the recovered signature was not compared"
			continue
		}
		return true, "", direct
	}
	return false, missing, nil
}

// lookupOf recognises the certificate returned by a resolver lookup.
func lookupOf(t *term) *term {
	if t.op == "ret0" && isResolverCall(t.args[0].callee()) {
		return t.args[0]
	}
	return nil
}

func (c *Ctx) verifyPaths(r *Report, prop string) {
	roots := c.verifyRoots()
	e := c.verifyEngine()
	sites := map[ssa.CallInstruction][]string{}
	e.onCall = func(st *tstate, ci ssa.CallInstruction, name string, args []*term) {
		k, field, recv := protoMethod(ci.Common())
		if k != "Set" || field != "SignatureValid" || !isCertType(recv) || len(args) < 2 {
			return
		}
		kind := "ecc"
		if strings.HasPrefix(protoMsgName(recv), "Rsa") {
			kind = "rsa"
		}
		why := ""
		v := e.truth(st, args[1])
		switch {
		case v == 'f':
		case v == 't':
			if ok, miss, _ := e.checked(st, args[0], kind); !ok {
				why = "the flag is set to true on a path where " + miss
			}
		default:
			// the outcome of the check itself
			s2 := st.clone()
			if e.assume(s2, args[1], true) {
				if ok, miss, _ := e.checked(s2, args[0], kind); !ok {
					why = "the flag is set to a value that can be true although " + miss
				}
			}
		}
		if why != "" || sites[ci] == nil {
			sites[ci] = append(sites[ci], why)
		}
	}
	outcomes, success, checksSeen, facts := 0, 0, 0, 0
	certsSeen := map[string]bool{}
	fn0 := ""
	add := func(rule, what, msg string, ret *ssa.Return) {
		pos := ""
		if ret != nil {
			pos = c.P.instrPos(ret)
		}
		r.add(Finding{Rule: rule, Fn: fn0, What: what, Pos: pos, Msg: msg})
	}
	for _, root := range roots {
		fn0 = fname(root)
		var args []*term
		var file *term
		for i, p := range root.Params {
			t := e.mk(fmt.Sprintf("arg%d:%s", i, p.Name()))
			t.typ = p.Type()
			args = append(args, t)
			if isProtoMsg(p.Type()) {
				file = t
			}
		}
		if file == nil {
			continue
		}
		outs := e.exec(root, args, nil, newTstate(), "", 0)
		if e.over {
			break
		}
		get := func(path ...string) *term {
			t := file
			for _, p := range path {
				t = e.mk("get:"+p, t)
			}
			return t
		}
		apps := []struct {
			app, cert *term
			kind      string
			label     string
		}{
			{get("DriverCard", "Tachograph"), get("DriverCard", "Tachograph", "CardCertificate", "RsaCertificate"), "rsa", "first-generation card certificate"},
			{get("DriverCard", "TachographG2"), get("DriverCard", "TachographG2", "CardSignCertificate", "EccCertificate"), "ecc", "second-generation card sign certificate"},
		}
		driver := c.enumConst(file, "GetType", "File_DRIVER_CARD", root)
		for _, o := range outs {
			outcomes++
			facts += len(o.st.facts)
			last := o.res[len(o.res)-1]
			failed := e.nilness(o.st, last) == 'N'
			if !failed {
				success++
				isDriver := true
				if driver != nil {
					tt := e.mk("==", get("Type"), e.constTerm(driver))
					isDriver = e.truth(o.st, tt) != 'f'
				}
				if isDriver && prop == "P17" {
					for _, ev := range o.st.events {
						if e.nilness(o.st, e.mk("ret1", ev)) != 'n' {
							add("lookup-failure-ignored", ev.callee(), "verification can report success although this lookup returned an error", o.ret)
						}
					}
				}
				if isDriver {
					for _, a := range apps {
						if e.nilness(o.st, a.app) == 'n' {
							continue
						}
						certsSeen[a.label] = true
						ok, miss, iss := e.checked(o.st, a.cert, a.kind)
						if !ok {
							if prop == "P17" {
								add("success-without-check", a.label, "verification can report success although "+miss+" ("+e.why(o.st)+")", o.ret)
							}
							continue
						}
						checksSeen++
						c.issuerRules(e, o, a.cert, a.kind, a.label, iss, prop, add)
					}
				}
			}
			if prop == "P18" && failed {
				for _, a := range apps {
					c.flagRules(e, o, a.cert, a.kind, a.label, add)
				}
			}
		}
	}
	// verification functions of their own, on any certificate
	if prop == "P18" {
		for _, f := range sortedFuncs(c.P.reach(roots...)) {
			if f.Object() == nil || !f.Object().Exported() || !isRepoFunc(f) || len(f.Blocks) == 0 || isProtoPkg(funcPkg(f)) || !isErrorResult(f) {
				continue
			}
			var cert *term
			var args []*term
			for i, p := range f.Params {
				t := e.mk(fmt.Sprintf("arg%d:%s", i, p.Name()))
				args = append(args, t)
				if cert == nil && isCertType(p.Type()) {
					cert = t
				}
			}
			if cert == nil || !e.inline(f) {
				continue
			}
			fn0 = fname(f)
			n := 0
			for _, o := range e.exec(f, args, nil, newTstate(), "", 0) {
				n++
				outcomes++
				if e.nilness(o.st, o.res[len(o.res)-1]) == 'N' {
					if e.nilness(o.st, cert) == 'n' {
						continue
					}
					v := o.st.fields[cert.key+".SignatureValid"]
					if v == nil || e.truth(o.st, v) != 'f' {
						add("stale-flag", "parameter "+cert.op, "an error is returned on a path on which the flag of the certificate being verified was not reset to false ("+e.why(o.st)+")", o.ret)
					}
				}
			}
			certsSeen[fn0] = true
		}
	}
	if e.over {
		r.Cov["abandoned"] = "path budget exhausted"
		r.add(Finding{Rule: "undecided", Fn: "verification", What: "path budget", Msg: "the verification code has too many paths to enumerate"})
	}
	if prop == "P18" {
		n := 0
		for _, f := range sortedFuncs(c.P.All) {
			if !isRepoFunc(f) || isProtoPkg(funcPkg(f)) {
				continue
			}
			for _, ci := range callsOf(f) {
				k, field, recv := protoMethod(ci.Common())
				if k == "Set" && field == "SignatureValid" && isCertType(recv) {
					n++
					whys, seen := sites[ci]
					arg := ci.Common().Args[1]
					if k, ok := arg.(*ssa.Const); ok && k.Value != nil && !constant.BoolVal(k.Value) {
						continue
					}
					if !seen {
						r.add(Finding{Rule: "flag-outside-verification", Fn: fname(f), What: "SetSignatureValid", Pos: c.P.instrPos(ci.(ssa.Instruction)), Msg: "the signature-valid flag is set outside any verification of the certificate"})
					}
					for _, w := range whys {
						if w != "" {
							r.add(Finding{Rule: "flag-without-check", Fn: fname(f), What: "SetSignatureValid", Pos: c.P.instrPos(ci.(ssa.Instruction)), Msg: w})
						}
					}
				}
			}
			// builder literals
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					if !ok || st.Field(fa.Field).Name() != "SignatureValid" || !isProtoPkg(st.Field(fa.Field).Pkg()) {
						continue
					}
					r.add(Finding{Rule: "flag-outside-verification", Fn: fname(f), What: "SignatureValid in a builder", Pos: c.P.instrPos(in), Msg: "the signature-valid flag is set outside any verification of the certificate"})
				}
			}
		}
		r.Cov["flag_sites"] = n
		r.floor("flag_sites", n, 1)
	}
	r.Cov["rule"] = map[string]string{
		"P17": "on every path of VerifyFile that can end without error, each application present has a successful comparison against the ECDSA/RSA primitive over the card certificate's own bytes, with the issuer's key",
		"P18": "every SetSignatureValid(true) is reached only after the check of the same certificate succeeded; every error outcome has the flag stored false",
		"P19": "the issuer key of each successful check comes from the certificate looked up under the card certificate's own authority reference, whose holder reference was compared equal, and whose key is either established or verified against the root",
	}[prop]
	r.Cov["paths"] = outcomes
	r.Cov["success_paths"] = success
	r.Cov["branch_facts"] = facts
	r.Cov["instructions_interpreted"] = e.steps
	r.Cov["obligations"] = outcomes
	r.Cov["discharged"] = outcomes - len(r.Findings)
	r.Cov["checker_cmd"] = "run.sh " + prop
	r.Cov["trusted_base"] = []string{"golang.org/x/tools/go/ssa", "crypto/ecdsa, math/big, crypto/sha1 implement their documentation", "message getters and setters of generated code"}
	var labels []string
	for l := range certsSeen {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	r.Cov["certificates"] = labels
	if prop != "P18" {
		r.Cov["checks_established"] = checksSeen
		r.floor("certificate kinds verified", len(labels), 2)
	}
}

func isErrorResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// enumConst finds the value of an enum constant of the type a getter returns.
func (c *Ctx) enumConst(recv *term, getter, name string, root *ssa.Function) constant.Value {
	for _, p := range root.Params {
		if !isProtoMsg(p.Type()) {
			continue
		}
		n := namedOf(p.Type())
		if k, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const); ok {
			return k.Val()
		}
	}
	return nil
}

// why lists the branch outcomes that describe a path.
func (e *tpath) why(st *tstate) string {
	var fs []string
	for t, v := range st.facts {
		k := t.key
		if len(k) > 90 {
			continue
		}
		fs = append(fs, fmt.Sprintf("%s is %s", k, map[byte]string{'n': "nil", 'N': "set", 't': "true", 'f': "false"}[v]))
	}
	sort.Strings(fs)
	if len(fs) > 8 {
		fs = fs[:8]
	}
	return "path: " + strings.Join(fs, ", ")
}

// issuerRules checks the provenance of the issuer key of a verified certificate.
func (c *Ctx) issuerRules(e *tpath, o toutcome, cert *term, kind, label string, iss []*term, prop string, add func(rule, what, msg string, ret *ssa.Return)) {
	st := o.st
	direct := iss
	// the issuer looked up by the certificate's own reference
	var ca *term
	for _, i := range direct {
		if l := lookupOf(i); l != nil && !strings.HasSuffix(l.callee(), "GetRootCertificate") {
			ca = i
		}
	}
	if ca == nil {
		if prop == "P19" {
			var names []string
			for _, i := range direct {
				names = append(names, i.key)
			}
			add("issuer-not-looked-up", label, "the issuer key ("+strings.Join(names, ", ")+") does not come from a lookup of the certificate's authority reference", o.ret)
		}
		return
	}
	l := lookupOf(ca)
	established := true
	var rootIss *term
	if kind == "rsa" {
		nonEmpty := func(field string) bool {
			return e.truth(st, e.mk("==", e.mk("len", e.mk("get:"+field, ca)), e.constTerm(constant.MakeInt64(0)))) == 'f'
		}
		stored := st.fields[ca.key+".RsaModulus"] != nil
		established = !stored && nonEmpty("RsaModulus") && nonEmpty("RsaExponent")
		if !established {
			ok, miss, riss := e.checked(st, ca, "rsa")
			for _, x := range riss {
				if rl := lookupOf(x); rl != nil && strings.HasSuffix(rl.callee(), "GetRootCertificate") {
					rootIss = x
				}
			}
			switch {
			case !ok:
				add("issuer-unverified", label, "the issuer certificate has no established key and "+miss, o.ret)
			case rootIss == nil:
				if prop == "P19" {
					add("issuer-unverified", label, "the issuer certificate was not checked with the root key", o.ret)
				}
			}
		}
	}
	if prop != "P19" {
		return
	}
	ref := l.args[len(l.args)-1]
	if !isOwnRef(ref, cert) {
		add("issuer-by-wrong-reference", label, "the issuer is looked up by "+ref.key+", not by the certificate's own authority reference", o.ret)
	}
	if !e.refCompared(st, cert, ca, "CertificateHolderReference") {
		add("issuer-not-compared", label, "no comparison of the certificate's authority reference with the holder reference of the issuer has succeeded on this path", o.ret)
	}
	if rootIss != nil && !e.refCompared(st, ca, rootIss, "KeyId") {
		add("issuer-not-compared", label+" (issuer)", "no comparison of the issuer's authority reference with the root key identifier has succeeded on this path", o.ret)
	}
}

func isOwnRef(t, cert *term) bool {
	for strings.HasPrefix(t.op, "conv:") {
		t = t.args[0]
	}
	return (t.op == "get:CertificateAuthorityReference" || t.op == "stored:CertificateAuthorityReference") && t.args[0] == cert
}

// refCompared: the certificate's authority reference was compared equal to the issuer's reference.
func (e *tpath) refCompared(st *tstate, cert, issuer *term, field string) bool {
	for t := range st.facts {
		if !factTrue(e, st, t) {
			continue
		}
		var a, b *term
		switch {
		case t.op == "==" && isByteCompare(t.args[0].callee()):
			a, b = t.args[0].args[0], t.args[0].args[1]
		case t.op == "==" && len(t.args) == 2, isByteCompare(t.callee()), t.callee() == "strings.EqualFold":
			a, b = t.args[0], t.args[1]
		default:
			continue
		}
		own := func(x *term) bool {
			d := e.deps(st, x)
			return hasGet(d, "CertificateAuthorityReference", cert) || hasGet(d, "RawData", cert)
		}
		other := func(x *term) bool { return hasGet(e.deps(st, x), field, issuer) }
		if own(a) && other(b) || own(b) && other(a) {
			return true
		}
	}
	return false
}

// flagRules: on a failed verification, every card certificate that was looked at
// and did not pass its check has its flag stored false.
func (c *Ctx) flagRules(e *tpath, o toutcome, cert *term, kind, label string, add func(rule, what, msg string, ret *ssa.Return)) {
	if e.nilness(o.st, cert) != 'N' {
		return
	}
	// a flag stored true was judged where it was stored: this certificate verified and another did not
	if v := o.st.fields[cert.key+".SignatureValid"]; v == nil || e.truth(o.st, v) == 0 {
		add("stale-flag", label, "verification fails on a path on which the flag of this certificate was not reset to false ("+e.why(o.st)+")", o.ret)
	}
}
