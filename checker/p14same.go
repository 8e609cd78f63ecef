package main

import (
	"fmt"
	"go/constant"
	"os"
	"sort"
	"strings"
)

// A message that is written as it was read, its raw bytes included, has to come out
// as the bytes that were read, digits that are not decimal among them. Bytes made of
// a few input bytes are compared for every value of those.

// unchanged runs the writer on the message as the reader left it.
func (k *layouts) unchanged(e *tpath, p layoutPair, st0 *tstate, msg, in *term, set []string) {
	st := st0.clone()
	hadRaw := false
	for f := range st.fields {
		hadRaw = hadRaw || strings.HasSuffix(f, ".RawData")
	}
	if !hadRaw {
		return
	}
	for _, f := range set {
		st.fields[unstored(msg).key+"."+f] = e.constTerm(constant.MakeBool(true))
	}
	for _, w := range e.exec(p.wr.f, k.writerArgs(e, p, msg), nil, st, "u", 0) {
		if len(w.res) > 1 && e.nilness(w.st, w.res[1]) == 'N' {
			continue
		}
		bs, ok := e.bl(w.st, w.res[0])
		if !ok || int64(len(bs)) != p.n {
			continue
		}
		known := k.knownBits(e, w.st)
		for i, o := range bs {
			here := e.byteAt(in, linT{k: int64(i)})
			if k.exact(e, known, o, here) {
				k.values++
				continue
			}
			key := fmt.Sprint("same ", i, " ", o.key)
			if k.done[key] {
				continue
			}
			k.done[key] = true
			switch v, bad := k.differs(e, w.st, in, here, o); {
			case v == "":
				k.values++
			case bad:
				k.find(p.wr.f, fmt.Sprintf("byte %d", i), fmt.Sprintf("byte %d of a message that is written as it was read, raw bytes included: %s", i, v))
			default:
				if os.Getenv("P14SAME") != "" {
					fmt.Fprintln(os.Stderr, "SAME", fname(p.wr.f), i, v, o.key)
				}
			}
		}
	}
}

// exact: every bit is the one of the input, without assuming decimal digits.
func (k *layouts) exact(e *tpath, known map[bit]bool, out, here *term) bool {
	e.anyDigit = true
	defer func() { e.anyDigit = false }()
	for j, b := range e.bits(out)[:8] {
		h := bit{src: here, i: j}
		if v, ok := known[h]; b != h && !(ok && b.src == nil && v == b.one) {
			return false
		}
	}
	return true
}

// differs: an input for which the byte written is another one than the one read.
// The text is empty when there is none; bad is false when that is not known.
func (k *layouts) differs(e *tpath, st *tstate, in, here, out *term) (string, bool) {
	leaves := map[*term]bool{here: true}
	if !e.inputs(out, in, leaves) || len(leaves) > 2 {
		return "not a function of a few input bytes", false
	}
	var facts []*term
	for f, v := range st.facts {
		if v != 't' && v != 'f' {
			continue
		}
		mine := map[*term]bool{}
		ok := e.inputs(f, in, mine)
		touches, more := false, false
		for l := range mine {
			touches = touches || leaves[l]
			more = more || !leaves[l]
		}
		if !touches && ok {
			continue
		}
		if !ok || more {
			for d := range e.deps(st, f) {
				if leaves[d] {
					return "a condition over it is not known: " + f.key, false
				}
			}
			continue
		}
		facts = append(facts, f)
	}
	var ls []*term
	for l := range leaves {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return e.inAt[ls[i]].k < e.inAt[ls[j]].k })
	env := map[*term]int64{}
	n := 1
	for range ls {
		n *= 256
	}
	for v := 0; v < n; v++ {
		x := v
		for _, l := range ls {
			env[l] = int64(x & 255)
			x >>= 8
		}
		feasible := true
		for _, f := range facts {
			b, ok := e.eval(f, env)
			if !ok {
				return "a condition over it is not known: " + f.key, false
			}
			if b == notDecimal || (b != 0) != (st.facts[f] == 't') {
				feasible = false
				break
			}
		}
		if !feasible {
			continue
		}
		b, ok := e.eval(out, env)
		if ok && b == notDecimal {
			continue
		}
		if !ok {
			return "value not known", false
		}
		if byte(b) != byte(env[here]) {
			var parts []string
			for _, l := range ls {
				parts = append(parts, fmt.Sprintf("byte %d read as 0x%02X", e.inAt[l].k, env[l]))
			}
			return fmt.Sprintf("0x%02X is written for %s", byte(b), strings.Join(parts, ", ")), true
		}
	}
	return "", false
}

// sameFlagsAll: the boolean fields read from a byte are what they would be for the
// byte written, whatever the path allows both to be.
func (k *layouts) sameFlagsAll(e *tpath, st *tstate, fs []*term, here, out *term) bool {
	leaves := map[*term]bool{here: true}
	if !e.inputs(out, nil, leaves) || len(leaves) > 2 {
		return false
	}
	for _, f := range fs {
		mine := map[*term]bool{}
		if !e.inputs(f, nil, mine) || len(mine) != 1 || !mine[here] {
			return false
		}
	}
	var facts []*term
	for f, v := range st.facts {
		mine := map[*term]bool{}
		if v != 't' && v != 'f' || !e.inputs(f, nil, mine) {
			continue
		}
		in := true
		for l := range mine {
			in = in && leaves[l]
		}
		if in {
			facts = append(facts, f)
		}
	}
	env := map[*term]int64{}
	var ls []*term
	for l := range leaves {
		ls = append(ls, l)
	}
	for v := 0; v < 1<<(8*len(ls)); v++ {
		x := v
		for _, l := range ls {
			env[l] = int64(x & 255)
			x >>= 8
		}
		feasible := true
		for _, f := range facts {
			if b, ok := e.eval(f, env); ok && (b == notDecimal || (b != 0) != (st.facts[f] == 't')) {
				feasible = false
				break
			}
		}
		if !feasible {
			continue
		}
		w, ok := e.eval(out, env)
		if !ok {
			return false
		}
		for _, f := range fs {
			a, ok := e.eval(f, env)
			b, ok2 := e.eval(f, map[*term]int64{here: w & 255})
			if !ok || !ok2 || a != b {
				return false
			}
		}
	}
	return true
}

// inputs collects the input bytes a term is made of; ok is false when it is made of
// anything else, or in a way eval does not know.
func (e *tpath) inputs(t, in *term, into map[*term]bool) bool {
	t = unstored(t)
	if t.cst != nil {
		return t.cst.Kind() == constant.Int || t.cst.Kind() == constant.Bool
	}
	switch {
	case t.op == "in":
		into[t] = true
		return in == nil || t.args[0] == in
	case t.op == "not", t.op == "==", t.op == "<", t.op == "cat", t.op == "byte", t.op == "parsed", strings.HasPrefix(t.op, "bin:"), strings.HasPrefix(t.op, "conv:") && convBytes(t.op) > 0:
		for _, a := range t.args {
			if !e.inputs(a, in, into) {
				return false
			}
		}
		return true
	}
	return false
}

// notDecimal: the value of a parsed number whose digits are not decimal, which would
// have been an error.
const notDecimal = -1 << 62

// eval: the value of a term for given values of the input bytes.
func (e *tpath) eval(t *term, env map[*term]int64) (int64, bool) {
	t = unstored(t)
	if t.cst != nil {
		if t.cst.Kind() == constant.Bool {
			if constant.BoolVal(t.cst) {
				return 1, true
			}
			return 0, true
		}
		return intOf(t)
	}
	if v, ok := env[t]; ok {
		return v, true
	}
	xs := make([]int64, len(t.args))
	for i, a := range t.args {
		v, ok := e.eval(a, env)
		if !ok || v == notDecimal {
			return v, ok
		}
		xs[i] = v
	}
	truth := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch t.op {
	case "not":
		return truth(xs[0] == 0)
	case "==":
		return truth(xs[0] == xs[1])
	case "<":
		return truth(xs[0] < xs[1])
	case "cat":
		v := int64(0)
		for _, x := range xs {
			v = v<<8 | x&255
		}
		return v, true
	case "parsed":
		v := int64(0)
		for _, x := range xs {
			if x>>4&15 > 9 || x&15 > 9 {
				return notDecimal, true
			}
			v = v*100 + x>>4&15*10 + x&15
		}
		return v, true
	case "byte":
		if xs[1] < 0 || xs[1] > 7 {
			return 0, false
		}
		return xs[0] >> (8 * xs[1]) & 255, true
	}
	if strings.HasPrefix(t.op, "conv:") {
		switch strings.TrimPrefix(t.op, "conv:") {
		case "uint8", "byte":
			return int64(uint8(xs[0])), true
		case "int8":
			return int64(int8(xs[0])), true
		case "uint16":
			return int64(uint16(xs[0])), true
		case "int16":
			return int64(int16(xs[0])), true
		case "uint32":
			return int64(uint32(xs[0])), true
		case "int32":
			return int64(int32(xs[0])), true
		case "int", "int64":
			return xs[0], true
		}
		return 0, false
	}
	if op, ok := strings.CutPrefix(t.op, "bin:"); ok && len(xs) == 2 {
		a, b := xs[0], xs[1]
		switch op {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/", "%":
			if b == 0 {
				return 0, false
			}
			if op == "/" {
				return a / b, true
			}
			return a % b, true
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "<<", ">>":
			if b < 0 || b > 31 {
				return 0, false
			}
			if op == "<<" {
				return a << b, true
			}
			return a >> b, true
		}
	}
	return 0, false
}
