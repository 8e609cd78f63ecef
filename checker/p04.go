package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P04"] = check{level: "proof", run: runP04}
	checks["P05"] = check{level: "proof", run: runP05}
}

func (c *Ctx) alias() *aliasAn {
	if a, ok := c.memo["alias"].(*aliasAn); ok {
		return a
	}
	a := newAliasAn(c.P)
	var roots []*ssa.Function
	roots = append(roots, c.parseRoots()...)
	roots = append(roots, c.marshalRoots()...)
	roots = append(roots, c.verifyRoots()...)
	roots = append(roots, c.anonRoots()...)
	a.solve(roots...)
	c.memo["alias"] = a
	return a
}

func paramIndex(f *ssa.Function, pred func(types.Type) bool) int {
	for i, p := range f.Params {
		if pred(p.Type()) {
			return i
		}
	}
	return -1
}

func runP04(c *Ctx, r *Report) {
	a := c.alias()
	sinks := 0
	for _, f := range c.parseRoots() {
		i := paramIndex(f, isByteSlice)
		if i < 0 {
			panic(fname(f) + " takes no byte slice")
		}
		for _, e := range a.rootEffects(f, map[int]lab{i: labInput}, map[int]lab{}) {
			bad := ""
			for _, l := range e.labels {
				if l == labInput || l == labScratch && e.kind == "sink" || l == labGlobal {
					bad = labName(l)
				}
			}
			if e.kind == "sink" {
				sinks++
			}
			if bad == "" {
				continue
			}
			if e.kind == "write" {
				r.add(Finding{Rule: "write", Fn: fname(e.fn), What: e.what, Pos: e.pos, Msg: "parsing writes to memory that may be " + bad})
			} else {
				r.add(Finding{Rule: "shared-bytes", Fn: fname(e.fn), What: e.what, Pos: e.pos, Msg: "the value stored in the message may share memory with " + bad})
			}
		}
		for l := range a.get(f).sum.res[0] {
			if l == labParam+lab(2*i) {
				r.add(Finding{Rule: "shared-bytes", Fn: fname(f), What: "result", Pos: c.P.instrPos(f.Blocks[0].Instrs[0]), Msg: "the result may be the caller's memory"})
			}
		}
	}
	reach := c.P.reach(c.parseRoots()...)
	setters, scr := 0, 0
	for f := range reach {
		for _, ci := range callsOf(f) {
			if k, _, _ := protoMethod(ci.Common()); k == "Set" && hasPointers(ci.Common().Args[1].Type()) {
				setters++
			}
			if callName(ci.Common()) == "(*bufio.Scanner).Bytes" {
				scr++
			}
			if strings.HasPrefix(callName(ci.Common()), "unsafe.") {
				r.add(Finding{Rule: "unsafe", Fn: fname(f), What: callName(ci.Common()), Pos: c.P.instrPos(ci), Msg: "unsafe defeats the ownership argument"})
			}
		}
	}
	r.floor("functions_analysed", len(reach), 100)
	r.floor("stores_of_referencing_values_into_messages", setters, 150)
	r.floor("scanner_buffer_reads", scr, 1)
	r.Cov["explanation"] = "context-sensitive may-alias summaries over every function reachable from UnmarshalFile; obligation: no store into a message and no write has a value whose memory may be the caller's slice, a refilled scanner buffer or a package-level variable"
	r.Cov["proof"] = proofCov(setters+scr, r)
	r.Assume = append(r.Assume, aliasAssumptions...)
	_ = sinks
}

var aliasAssumptions = []string{
	"library functions not listed as writers in alias.go do not write to their arguments, and their results share memory at most with their arguments",
	"generated protobuf accessors behave as documented (getters read, setters store, Build stores)",
	"no code uses unsafe or reflection to write (checked: none is reachable)",
}

func proofCov(obl int, r *Report) map[string]any {
	return map[string]any{"obligations": obl}
}

func runP05(c *Ctx, r *Report) {
	a := c.alias()
	check := func(f *ssa.Function, allow func(effect) bool) {
		i := paramIndex(f, isProtoMsg)
		if i < 0 {
			panic(fname(f) + " takes no message")
		}
		for _, e := range a.rootEffects(f, map[int]lab{i: labMsg}, map[int]lab{i: labMsg}) {
			if e.kind != "write" || allow(e.effect) {
				continue
			}
			for _, l := range e.labels {
				if l == labMsg {
					r.add(Finding{Rule: "mutates-message", Fn: fname(e.fn), What: e.what, Pos: e.pos,
						Msg: fmt.Sprintf("called from %s, this may modify the message (or bytes reachable from it) given to the operation", fname(f))})
				}
			}
		}
	}
	for _, f := range c.marshalRoots() {
		check(f, func(effect) bool { return false })
	}
	for _, f := range c.verifyRoots() {
		// the flag, and what RSA signature recovery reveals of the same certificate
		check(f, func(e effect) bool {
			return e.recv == "RsaCertificate" || e.recv == "EccCertificate" && strings.HasSuffix(e.what, ".SetSignatureValid")
		})
	}
	roots := append(c.marshalRoots(), c.verifyRoots()...)
	reach := c.P.reach(roots...)
	writes := 0
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					writes++
				case ssa.CallInstruction:
					n := callName(v.Common())
					if n == "builtin.append" || n == "builtin.copy" {
						writes++
					}
					if k, _, _ := protoMethod(v.Common()); k == "Set" || k == "Clear" {
						writes++
					}
				}
			}
		}
	}
	r.floor("functions_analysed", len(reach), 100)
	r.floor("writes_examined", writes, 500)
	r.Cov["explanation"] = "same alias summaries, with everything reachable from the message given to MarshalFile or VerifyFile labelled; obligation: no store, append, copy, setter or writing library call reaches labelled memory, except the fields verification sets on the certificate it checks"
	r.Cov["proof"] = proofCov(writes, r)
	r.Assume = append(r.Assume, aliasAssumptions...)
}
