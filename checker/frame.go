package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small path engine for functions that walk over a slice of bytes with an offset.
// Integers are polynomials over the bytes of the slice (at positions that are
// polynomials themselves) and its length. Loops over a counter are summed up: what a
// round adds to each variable, times the number of rounds.

// poly: a sum of products; the key of a product is its atoms, sorted, joined by "*".
type poly map[string]int64

func pconst(n int64) poly {
	if n == 0 {
		return poly{}
	}
	return poly{"": n}
}

func patom(a string) poly { return poly{a: 1} }

func (p poly) add(q poly, f int64) poly {
	r := poly{}
	for k, v := range p {
		r[k] = v
	}
	for k, v := range q {
		if r[k] += f * v; r[k] == 0 {
			delete(r, k)
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for k, v := range p {
		for l, w := range q {
			var parts []string
			if k != "" {
				parts = append(parts, strings.Split(k, "*")...)
			}
			if l != "" {
				parts = append(parts, strings.Split(l, "*")...)
			}
			sort.Strings(parts)
			m := strings.Join(parts, "*")
			if r[m] += v * w; r[m] == 0 {
				delete(r, m)
			}
		}
	}
	return r
}

func (p poly) constant() (int64, bool) {
	switch len(p) {
	case 0:
		return 0, true
	case 1:
		v, ok := p[""]
		return v, ok
	}
	return 0, false
}

// key is the canonical form; the separators of products inside an atom are hidden.
func (p poly) key() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%+d", p[k])
		if k != "" {
			b.WriteString("." + strings.ReplaceAll(k, "*", "·"))
		}
	}
	if b.Len() == 0 {
		return "0"
	}
	return b.String()
}

// positions are numbered: spelled out they would double with every count.
var posIDs, posKeys = map[string]int{}, []string{}
var posPolys []poly

func byteAt(pos poly) poly {
	key := pos.key()
	id, ok := posIDs[key]
	if !ok {
		id = len(posKeys)
		posIDs[key] = id
		posKeys = append(posKeys, key)
		posPolys = append(posPolys, pos)
	}
	loops := map[string]bool{}
	for k := range pos {
		for _, a := range strings.Split(k, "*") {
			if i := strings.Index(a, "loop"); i >= 0 {
				loops[strings.TrimSuffix(a[i:], ")")] = true
			}
		}
	}
	var ls []string
	for l := range loops {
		ls = append(ls, ":"+l)
	}
	sort.Strings(ls)
	return patom(fmt.Sprintf("b(%d%s)", id, strings.Join(ls, "")))
}

// derived atoms are computed from polynomials: a number cut to a type, an operation on bits.
type derivation struct {
	op   string
	x, y poly
}

var derivations = map[string]derivation{}

func derive(op string, x, y poly) poly {
	a := fmt.Sprintf("%s(%s,%s)", strings.ReplaceAll(op, "*", "x"), x.key(), y.key())
	derivations[a] = derivation{op, x, y}
	return patom(a)
}

// wrapLimits: the numbers of a type, by its kind.
func wrapLimits(op string) (lo, hi float64, ok bool) {
	switch op {
	case fmt.Sprint("wrap", int(types.Uint8)):
		return 0, math.MaxUint8, true
	case fmt.Sprint("wrap", int(types.Uint16)):
		return 0, math.MaxUint16, true
	case fmt.Sprint("wrap", int(types.Uint32)):
		return 0, math.MaxUint32, true
	case fmt.Sprint("wrap", int(types.Int8)):
		return math.MinInt8, math.MaxInt8, true
	case fmt.Sprint("wrap", int(types.Int16)):
		return math.MinInt16, math.MaxInt16, true
	case fmt.Sprint("wrap", int(types.Int32)):
		return math.MinInt32, math.MaxInt32, true
	}
	return 0, 0, false
}

// limits of a derived atom.
func (d derivation) limits() (lo, hi float64, ok bool) {
	if lo, hi, ok := wrapLimits(d.op); ok {
		return lo, hi, true
	}
	xl, xh := d.x.limits()
	if d.op == "opmax" || d.op == "opmin" {
		yl, yh := d.y.limits()
		if d.op == "opmax" {
			return math.Max(xl, yl), math.Max(xh, yh), true
		}
		return math.Min(xl, yl), math.Min(xh, yh), true
	}
	if xl < 0 {
		return 0, 0, false
	}
	switch d.op {
	case "op&":
		if n, is := d.y.constant(); is && n >= 0 {
			return 0, math.Min(xh, float64(n)), true
		}
		return 0, xh, true
	case "op>>", "op/", "op&^":
		return 0, xh, true
	case "op%":
		if n, is := d.y.constant(); is && n > 0 {
			return 0, float64(n - 1), true
		}
	}
	return 0, 0, false
}

// value computes a derived atom; false if it is not known how.
func (d derivation) value(at func(poly) (int64, bool)) (int64, bool) {
	x, ok := at(d.x)
	if !ok {
		return 0, false
	}
	switch d.op {
	case fmt.Sprint("wrap", int(types.Uint8)):
		return int64(uint8(x)), true
	case fmt.Sprint("wrap", int(types.Uint16)):
		return int64(uint16(x)), true
	case fmt.Sprint("wrap", int(types.Uint32)):
		return int64(uint32(x)), true
	case fmt.Sprint("wrap", int(types.Int8)):
		return int64(int8(x)), true
	case fmt.Sprint("wrap", int(types.Int16)):
		return int64(int16(x)), true
	case fmt.Sprint("wrap", int(types.Int32)):
		return int64(int32(x)), true
	}
	if d.y == nil {
		return 0, false
	}
	y, ok := at(d.y)
	if !ok {
		return 0, false
	}
	switch d.op {
	case "opmax":
		return max(x, y), true
	case "opmin":
		return min(x, y), true
	case "op&":
		return x & y, true
	case "op|":
		return x | y, true
	case "op^":
		return x ^ y, true
	case "op&^":
		return x &^ y, true
	case "op>>":
		if y >= 0 && y < 63 {
			return x >> y, true
		}
	case "op/":
		if y != 0 {
			return x / y, true
		}
	case "op%":
		if y != 0 {
			return x % y, true
		}
	}
	return 0, false
}

// byteOf is the position of a byte.
func byteOf(atom string) (poly, bool) {
	s := strings.TrimSuffix(strings.TrimPrefix(atom, "b("), ")")
	if i := strings.IndexByte(s, ':'); i >= 0 {
		s = s[:i]
	}
	n := 0
	if _, err := fmt.Sscan(s, &n); err != nil || !strings.HasPrefix(atom, "b(") || n >= len(posPolys) {
		return nil, false
	}
	return posPolys[n], true
}

// fset: what a field of a message was set to, or what a message was read from: n bytes
// at a position; in a list, the first element's and how much further the next one's lies.
type fset struct {
	msg, field string
	pos, n     poly
	fn         poly // of a single byte: what is made of it
	num        poly // the number, if it is one
	step       poly
	what       string // if it is not known where it comes from
	id         int
	in         *ssa.Call
}

func (s fset) key() string {
	k := s.msg + "." + s.field + "=" + s.what
	if s.pos != nil {
		k += s.pos.key() + ":" + s.n.key()
	}
	if s.fn != nil {
		k += "#" + s.fn.key()
	}
	if s.step != nil {
		k += "~" + s.step.key()
	}
	return k
}

// source says which bytes a value was made of.
func source(v fval) (s fset) {
	switch v.kind {
	case 's':
		return fset{pos: v.pos, n: v.p}
	case 'r':
		return source(v.vals[0])
	case 'i':
		atoms := map[string]bool{}
		var note func(p poly) bool
		note = func(p poly) bool {
			for k := range p {
				if k == "" {
					continue
				}
				for _, a := range strings.Split(k, "*") {
					if d, ok := derivations[a]; ok {
						if !note(d.x) || !note(d.y) {
							return false
						}
					} else if strings.HasPrefix(a, "b(") {
						atoms[a] = true
					} else {
						return false
					}
				}
			}
			return true
		}
		if note(v.p) && len(atoms) > 0 {
			for a := range atoms {
				pos, ok := byteOf(a)
				if !ok {
					continue
				}
				if n := len(atoms); be(pos, n).key() == v.p.key() {
					return fset{pos: pos, n: pconst(int64(n))}
				}
				if len(atoms) == 1 {
					return fset{pos: pos, n: pconst(1), fn: v.p}
				}
			}
			return fset{what: "number " + v.p.key(), num: v.p}
		}
	case 'S':
		return fset{what: "list of " + v.p.key(), n: v.p}
	}
	return fset{what: "?"}
}

// mapBytes replaces the bytes a number is made of.
func mapBytes(p poly, f func(pos poly) poly) poly {
	r := poly{}
	for k, c := range p {
		t := pconst(c)
		if k != "" {
			for _, a := range strings.Split(k, "*") {
				if d, ok := derivations[a]; ok {
					y := d.y
					if y != nil {
						y = mapBytes(y, f)
					}
					t = t.mul(derive(d.op, mapBytes(d.x, f), y))
				} else if pos, ok := byteOf(a); ok {
					t = t.mul(byteAt(f(pos)))
				} else {
					t = t.mul(patom(a))
				}
			}
		}
		r = r.add(t, 1)
	}
	return r
}

// place spells out the position of a byte.
func place(atom string) string {
	s := strings.TrimSuffix(strings.TrimPrefix(atom, "b("), ")")
	if i := strings.IndexByte(s, ':'); i >= 0 {
		s = s[:i]
	}
	n := 0
	if _, err := fmt.Sscan(s, &n); err != nil || n >= len(posKeys) {
		return s
	}
	return strings.TrimPrefix(posKeys[n], "+")
}

// be: an unsigned number of n bytes.
func be(pos poly, n int) poly {
	r := poly{}
	for i := 0; i < n; i++ {
		r = r.add(byteAt(pos.add(pconst(int64(i)), 1)), int64(1)<<(8*(n-1-i)))
	}
	return r
}

// limits returns bounds of a polynomial; bytes lie between 0 and 255, lengths are not
// negative.
func (p poly) limits() (lo, hi float64) {
	for k, c := range p {
		max := 1.0
		if k != "" {
			for _, a := range strings.Split(k, "*") {
				if d, ok := derivations[a]; ok {
					l, h, ok := d.limits()
					if !ok || l < 0 {
						return math.Inf(-1), math.Inf(1)
					}
					max *= h
				} else if strings.HasPrefix(a, "b(") {
					max *= 255
				} else {
					max = math.Inf(1)
					if !strings.HasPrefix(a, "len") && !strings.HasPrefix(a, "size") && !strings.HasPrefix(a, "slack") {
						return math.Inf(-1), math.Inf(1)
					}
				}
			}
		}
		if c > 0 {
			if k == "" {
				lo += float64(c)
			}
			hi += float64(c) * max
		} else {
			if k == "" {
				hi += float64(c)
			}
			lo += float64(c) * max
		}
	}
	return lo, hi
}

func (p poly) mentions(prefix string) bool {
	for k := range p {
		if strings.Contains(k, prefix) {
			return true
		}
	}
	return false
}

// subst replaces an atom of the polynomial (not those inside positions).
func (p poly) subst(atom string, by poly) poly {
	r := poly{}
	for k, v := range p {
		t := pconst(v)
		if k != "" {
			for _, a := range strings.Split(k, "*") {
				if a == atom {
					t = t.mul(by)
				} else {
					t = t.mul(patom(a))
				}
			}
		}
		r = r.add(t, 1)
	}
	return r
}

// fval is a value: 'i' an integer, 's' a part of the input, 'S' another slice,
// 'p' a pointer to a cell, 'e' an error ('N' not nil, 'Z' nil), 'b' a condition,
// 'f' a function, 't' several values, 'a' an aggregate loaded from cells, '?' unknown.
type fval struct {
	kind byte
	p    poly // 'i'; the length of a slice
	pos  poly // where a part of the input begins
	cell string
	flag byte
	cond *fcond
	fn   *ssa.Function
	bind []fval
	vals []fval
}

// fcond: p op 0, with op one of '<' '=' ; neg: negated. A known one has p nil.
type fcond struct {
	p     poly
	op    byte
	neg   bool
	known bool
	val   bool
}

func (c fcond) key() string {
	s := c.p.key() + string(c.op)
	if c.neg {
		s = "!" + s
	}
	return s
}

func (v fval) digest() string {
	switch v.kind {
	case 'i':
		return "i" + v.p.key()
	case 's':
		return "s" + v.pos.key() + ":" + v.p.key()
	case 'S':
		return "S" + v.p.key() + v.cell
	case 'p':
		return "p" + v.cell
	case 'e':
		return "e" + string(v.flag)
	case 'b':
		if v.cond != nil && v.cond.p != nil {
			return "b" + v.cond.key()
		}
		if v.cond != nil && v.cond.known {
			return fmt.Sprint("b", v.cond.val)
		}
		return "b?"
	case 'f':
		return "f" + v.fn.String()
	case 'r':
		return "r" + v.vals[0].digest()
	case 't', 'a':
		s := "("
		for _, x := range v.vals {
			s += x.digest() + ","
		}
		return s + ")"
	}
	return "?"
}

var funknown = fval{kind: '?'}

func fint(p poly) fval { return fval{kind: 'i', p: p} }

type fstate struct {
	mem    map[string]fval
	facts  map[string]fcond
	sets   map[string]fset
	at     map[string]poly // where these begin
	vals   map[string]bool // what was set as the value of a record, at which size
	reads  bool            // a byte of the input was used as a number
	unsure bool            // a condition that is not known was passed
	loose  bool            // the input was handed to something that is not followed
}

func (s *fstate) clone() *fstate {
	n := &fstate{mem: map[string]fval{}, facts: map[string]fcond{}, vals: map[string]bool{}, sets: map[string]fset{}, at: s.at, reads: s.reads, loose: s.loose, unsure: s.unsure}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.sets {
		n.sets[k] = v
	}
	return n
}

func (s *fstate) digest() string {
	var ks []string
	for k, v := range s.mem {
		ks = append(ks, k+"="+v.digest())
	}
	for k := range s.facts {
		ks = append(ks, k)
	}
	for k := range s.vals {
		ks = append(ks, k)
	}
	for k := range s.sets {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";") + fmt.Sprint(s.reads, s.loose, s.unsure)
}

type fend struct {
	st  *fstate
	res []fval
}

type rvals map[ssa.Value]fval

// floop collects what happens in one round of a loop.
type floop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []fround
	exits  []fround
	all    bool // followed round by round: it may be left anywhere
	tail   bool // not in the loop any more: only returns are of interest
}

type fround struct {
	from, to *ssa.BasicBlock
	env      rvals
	st       *fstate
	next     map[string]fval // what the variables of the loop are in the next round
}

type frames struct {
	steps  int
	fail   string // why the function was not followed
	ids    int
	fields bool          // note what fields are set to
	built  bool          // messages were made in a way that is not followed
	sizer  *ssa.Function // what is not followed but named
	stack  string        // the calls that lead to the function, for the names of cells
	rounds []fround      // of the loop that calls the sizer
	depth  int
	lens   map[string]bool
}

func (k *frames) over(why string) {
	if k.fail == "" {
		k.fail = why
	}
}

// call follows a function.
func (k *frames) call(f *ssa.Function, args, bind []fval, st *fstate) []fend {
	if len(f.Blocks) == 0 || k.depth > 12 {
		k.over("call of " + f.String())
		return nil
	}
	k.depth++
	defer func() { k.depth-- }()
	env := rvals{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = funknown
		}
	}
	for i, v := range f.FreeVars {
		if i < len(bind) {
			env[v] = bind[i]
		}
	}
	var ends []fend
	k.block(f.Blocks[0], nil, env, st, nil, map[string]bool{}, &ends)
	return dedupEnds(ends)
}

func dedupEnds(ends []fend) []fend {
	seen := map[string]bool{}
	var out []fend
	for _, e := range ends {
		d := e.st.digest()
		for _, r := range e.res {
			d += "|" + r.digest()
		}
		if !seen[d] {
			seen[d] = true
			out = append(out, e)
		}
	}
	return out
}

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			body[h] = true
			work := []*ssa.BasicBlock{p}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if body[b] {
					continue
				}
				body[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	if len(body) == 0 {
		return nil
	}
	return body
}

func (k *frames) enter(b, from *ssa.BasicBlock, env rvals) rvals {
	n := rvals{}
	for v, x := range env {
		n[v] = x
	}
	if from == nil {
		return n
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n[phi] = k.val(phi.Edges[pi], env)
	}
	return n
}

// block follows control into a block.
func (k *frames) block(b, from *ssa.BasicBlock, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) {
	if k.fail != "" {
		return
	}
	if lp != nil {
		if b == lp.header {
			lp.backs = append(lp.backs, fround{from, b, k.enter(b, from, env), st, nil})
			return
		}
		if lp.tail {
			if naturalLoop(b) != nil {
				k.over("a loop that may be left in the middle")
				return
			}
		} else if !lp.body[b] {
			if from != lp.header && !lp.all {
				// it may only lead to an error
				lp = &floop{tail: true}
			} else {
				lp.exits = append(lp.exits, fround{from, b, env, st, nil})
				return
			}
		}
	}
	env = k.enter(b, from, env)
	if body := naturalLoop(b); body != nil {
		k.loop(b, body, env, st, lp, seen, ends)
		return
	}
	k.instrs(b, env, st, lp, seen, ends)
}

func (k *frames) key(b *ssa.BasicBlock, env rvals, st *fstate) string {
	var ks []string
	for v, x := range env {
		if in, ok := v.(ssa.Instruction); ok {
			d := in.Block()
			if d != b && !d.Dominates(b) {
				continue
			}
			ks = append(ks, v.Name()+"="+x.digest())
		}
	}
	sort.Strings(ks)
	return fmt.Sprint(b.Index, "#", strings.Join(ks, ";"), "#", st.digest())
}

// instrs executes a block whose phis are set.
func (k *frames) instrs(b *ssa.BasicBlock, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) {
	if k.steps++; k.steps > 60000 {
		k.over("too many paths")
		return
	}
	if key := k.key(b, env, st); seen[key] {
		return
	} else {
		seen[key] = true
	}
	k.from(b, 0, env, st, lp, seen, ends)
}

func (k *frames) from(b *ssa.BasicBlock, i int, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) {
	for ; i < len(b.Instrs); i++ {
		if k.fail != "" {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Defer:
			k.over("defer")
			return
		case *ssa.Go:
			k.over("goroutine")
			return
		case *ssa.Store:
			a := k.val(in.Addr, env)
			if a.kind == 'p' {
				k.store(st, a.cell, k.val(in.Val, env))
			}
		case *ssa.Call:
			outs := k.doCall(in, env, st)
			if len(outs) == 0 {
				return // never returns without an error that ends the path
			}
			for j, o := range outs {
				if j == len(outs)-1 {
					env[in], st = o.res[0], o.st
					break
				}
				n := rvals{}
				for v, x := range env {
					n[v] = x
				}
				n[in] = o.res[0]
				k.from(b, i+1, n, o.st, lp, seen, ends)
			}
		case *ssa.If:
			c := k.val(in.Cond, env)
			k.branch(b, c, env, st, lp, seen, ends)
			return
		case *ssa.Jump:
			k.block(b.Succs[0], b, env, st, lp, seen, ends)
			return
		case *ssa.Return:
			e := fend{st: st}
			for _, r := range in.Results {
				e.res = append(e.res, k.val(r, env))
			}
			*ends = append(*ends, e)
			return
		case *ssa.Panic:
			return
		case ssa.Value:
			env[in] = k.eval(in, env, st)
		}
	}
}

func (k *frames) branch(b *ssa.BasicBlock, c fval, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) {
	copyEnv := func() rvals {
		n := rvals{}
		for v, x := range env {
			n[v] = x
		}
		return n
	}
	if c.kind != 'b' || c.cond == nil || c.cond.p == nil && !c.cond.known {
		st.unsure = true
		k.block(b.Succs[0], b, copyEnv(), st.clone(), lp, seen, ends)
		k.block(b.Succs[1], b, env, st, lp, seen, ends)
		return
	}
	if v, ok := k.decide(*c.cond, st); ok {
		s := b.Succs[1]
		if v {
			s = b.Succs[0]
		}
		k.block(s, b, env, st, lp, seen, ends)
		return
	}
	yes, no := *c.cond, *c.cond
	no.neg = !no.neg
	s2 := st.clone()
	s2.facts[yes.key()] = yes
	k.block(b.Succs[0], b, copyEnv(), s2, lp, seen, ends)
	st.facts[no.key()] = no
	k.block(b.Succs[1], b, env, st, lp, seen, ends)
}

func (k *frames) decide(c fcond, st *fstate) (bool, bool) {
	if c.known {
		return c.val, true
	}
	lo, hi := c.p.limits()
	var v, ok bool
	switch c.op {
	case '<':
		if hi < 0 {
			v, ok = true, true
		} else if lo >= 0 {
			v, ok = false, true
		}
	case '=':
		if n, is := c.p.constant(); is {
			v, ok = n == 0, true
		} else if lo > 0 || hi < 0 {
			v, ok = false, true
		}
	}
	if ok {
		return v != c.neg, true
	}
	if _, is := st.facts[c.key()]; is {
		return true, true
	}
	n := c
	n.neg = !n.neg
	if _, is := st.facts[n.key()]; is {
		return false, true
	}
	return false, false
}

// unroll follows a loop round by round while its condition is known; false if it is not.
func (k *frames) unroll(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok || k.sizer != nil {
		return false
	}
	var out []fround
	var inner []fend
	cur := []fround{{env: env, st: st}}
	for i := 0; len(cur) > 0; i++ {
		if i > 64 || len(cur) > 64 {
			return false
		}
		var next []fround
		had := map[string]bool{}
		for _, c := range cur {
			e := rvals{}
			for v, x := range c.env {
				e[v] = x
			}
			round := &floop{header: h, body: body, all: true}
			k.instrs(h, e, c.st.clone(), round, map[string]bool{}, &inner)
			if k.fail != "" {
				return false
			}
			left := false
			for _, x := range round.exits {
				left = left || x.from == h
			}
			if left && (len(round.backs) > 0 || len(round.exits) > 1) {
				return false // it is not known whether there is another round
			}
			out = append(out, round.exits...)
			for _, b := range round.backs {
				if d := k.key(h, b.env, b.st); !had[d] {
					had[d] = true
					next = append(next, b)
				}
			}
		}
		cur = next
	}
	*ends = append(*ends, inner...)
	for _, x := range out {
		k.block(x.to, x.from, x.env, x.st, lp, seen, ends)
	}
	return true
}

// loop sums up a loop over a counter and goes on behind it.
func (k *frames) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, env rvals, st *fstate, lp *floop, seen map[string]bool, ends *[]fend) {
	if k.unroll(h, body, env, st, lp, seen, ends) {
		return
	}
	k.ids++
	tag := fmt.Sprintf("loop%d.", k.ids)
	type slot struct {
		phi  *ssa.Phi
		cell string
		from fval
		atom string
	}
	var slots []slot
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		slots = append(slots, slot{phi: phi, from: env[phi]})
	}
	var round *floop
	var inner []fend
	for try := 0; ; try++ {
		if try == 6 {
			k.over("a loop whose variables keep growing")
			return
		}
		e, s := rvals{}, st.clone()
		for v, x := range env {
			e[v] = x
		}
		for i := range slots {
			sl := &slots[i]
			sl.atom = fmt.Sprintf("%s%d", tag, i)
			v := funknown
			if sl.from.kind == 'i' {
				v = fint(patom(sl.atom))
			} else if sl.from.kind == 's' {
				// a slice that is cut from the front: its end stays
				v = fval{kind: 's', pos: patom(sl.atom), p: sl.from.pos.add(sl.from.p, 1).add(patom(sl.atom), -1)}
			} else if sl.from.kind == 'S' {
				v = fval{kind: 'S', p: patom(sl.atom)}
			}
			if sl.phi != nil {
				e[sl.phi] = v
			} else {
				s.mem[sl.cell] = v
			}
		}
		round = &floop{header: h, body: body}
		inner = nil
		k.instrs(h, e, s, round, map[string]bool{}, &inner)
		if k.fail != "" {
			return
		}
		// cells a round changes
		grew := false
		for _, b := range round.backs {
			for c, v := range b.st.mem {
				old, had := st.mem[c]
				if !had || old.digest() == v.digest() {
					continue
				}
				known := false
				for _, sl := range slots {
					if sl.phi == nil && sl.cell == c {
						known = true
					}
				}
				if !known {
					slots = append(slots, slot{cell: c, from: old})
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	if k.sizer != nil {
		for _, b := range round.backs {
			if len(b.st.vals) > 0 {
				b.next = map[string]fval{}
				for _, sl := range slots {
					if sl.phi != nil {
						b.next[sl.atom] = b.env[sl.phi]
					} else {
						b.next[sl.atom] = b.st.mem[sl.cell]
					}
				}
				k.rounds = append(k.rounds, b)
			}
		}
	}
	for _, e := range inner {
		// a return in the middle of the loop: only one that fails can be left out
		if n := len(e.res); n == 0 || e.res[n-1].kind != 'e' || e.res[n-1].flag != 'N' {
			k.over("a loop that may end in the middle of " + h.Parent().String())
			return
		}
	}
	// what a round adds
	delta := make([]poly, len(slots))
	for i, sl := range slots {
		for j, b := range round.backs {
			var v fval
			if sl.phi != nil {
				v = b.env[sl.phi]
			} else {
				v = b.st.mem[sl.cell]
			}
			var cur poly
			switch {
			case sl.from.kind == 'i' && v.kind == 'i':
				cur = v.p
			case sl.from.kind == 's' && v.kind == 's':
				end := sl.from.pos.add(sl.from.p, 1)
				if v.pos.add(v.p, 1).key() == end.key() {
					cur = v.pos
				}
			case sl.from.kind == 'S' && v.kind == 'S':
				cur = v.p
			}
			if cur == nil {
				delta[i] = nil
				break
			}
			d := cur.add(patom(sl.atom), -1)
			if d.mentions(tag) || j > 0 && (delta[i] == nil || delta[i].key() != d.key()) {
				delta[i] = nil
				break
			}
			delta[i] = d
		}
	}
	// how many rounds: from the condition at the header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	var exit *ssa.BasicBlock
	if ok {
		for _, s := range h.Succs {
			if !body[s] {
				exit = s
			}
		}
	}
	if exit == nil || body[h.Succs[0]] == body[h.Succs[1]] {
		k.over("a loop without a condition at its head")
		return
	}
	var n poly
	if len(round.backs) == 0 {
		n = pconst(0)
	} else if len(round.exits) > 0 {
		x := round.exits[0]
		c := k.val(br.Cond, x.env)
		if c.kind == 'b' && c.cond != nil && c.cond.p != nil {
			stay := *c.cond
			if exit == h.Succs[0] {
				stay.neg = !stay.neg
			}
			for i, sl := range slots {
				d, isc := delta[i].constant()
				if delta[i] == nil || !isc || sl.from.kind == 's' {
					continue
				}
				rest := stay.p.add(patom(sl.atom), -stay.p[sl.atom])
				if rest.mentions(tag) {
					continue
				}
				co := stay.p[sl.atom]
				at := stay.p.subst(sl.atom, sl.from.p) // the condition at the start
				switch {
				case stay.op == '<' && !stay.neg && co == 1 && d == 1, stay.op == '<' && !stay.neg && co == -1 && d == -1:
					n = poly{}.add(at, -1) // x < 0 with x growing by one: -x rounds
				case stay.op == '<' && stay.neg && co == -1 && d == 1, stay.op == '<' && stay.neg && co == 1 && d == -1:
					n = at.add(pconst(1), 1) // x >= 0 with x shrinking by one
				case stay.op == '=' && stay.neg && co*d == 1:
					n = poly{}.add(at, -1)
				case stay.op == '=' && stay.neg && co*d == -1:
					n = at
				}
				if n != nil {
					break
				}
			}
		}
	} else {
		return // never left without an error
	}
	if n == nil {
		k.over("a loop whose number of rounds is not known")
		return
	}
	if lo, _ := n.limits(); lo < 0 {
		k.over("a loop whose number of rounds may be negative")
		return
	}
	// what the rounds set: in the first round, and how much further in the next
	if k.fields {
		over := func(p poly) (poly, poly, bool) {
			if p == nil {
				return nil, nil, true
			}
			first, step, ok := p, pconst(0), true
			for i, sl := range slots {
				co := p[sl.atom]
				if sl.from.p == nil || !p.mentions(sl.atom) {
					continue
				}
				from := sl.from.p
				if sl.from.kind == 's' {
					from = sl.from.pos
				}
				if delta[i] == nil {
					ok = false
					continue
				}
				first = first.subst(sl.atom, from)
				step = step.add(delta[i], co)
			}
			return first, step, ok && !first.mentions(tag)
		}
		for _, b := range round.backs {
			for key, f := range b.st.sets {
				if _, had := st.sets[key]; had {
					continue
				}
				if f.pos != nil {
					pos, step, ok := over(f.pos)
					if f.n.mentions(tag) || !ok {
						f = fset{msg: f.msg, field: f.field, in: f.in, what: "?"}
					} else if f.pos = pos; f.step == nil {
						f.step = step
					}
				}
				if f.num != nil {
					f.num = mapBytes(f.num, func(p poly) poly {
						first, _, ok := over(p)
						if !ok {
							return p
						}
						return first
					})
					f.what = "number " + f.num.key()
				}
				st.sets[f.key()] = f
			}
		}
	}
	zero := len(round.backs) == 0
	for i, sl := range slots {
		v := funknown
		switch {
		case zero:
			v = sl.from
		case delta[i] == nil:
		case sl.from.kind == 'i':
			v = fint(sl.from.p.add(n.mul(delta[i]), 1))
		case sl.from.kind == 's':
			pos := sl.from.pos.add(n.mul(delta[i]), 1)
			v = fval{kind: 's', pos: pos, p: sl.from.pos.add(sl.from.p, 1).add(pos, -1)}
		case sl.from.kind == 'S':
			v = fval{kind: 'S', p: sl.from.p.add(n.mul(delta[i]), 1)}
		}
		if sl.phi != nil {
			env[sl.phi] = v
		} else {
			st.mem[sl.cell] = v
		}
	}
	for _, b := range round.backs {
		st.reads = st.reads || b.st.reads
		st.loose = st.loose || b.st.loose
		st.unsure = st.unsure || b.st.unsure
	}
	if zero {
		// no round succeeds: the loop is passed only when it has none
		for _, x := range round.exits {
			for key, c := range x.st.facts {
				if _, ok := st.facts[key]; !ok {
					for _, sl := range slots {
						if sl.from.p != nil {
							c.p = c.p.subst(sl.atom, sl.from.p)
						}
					}
					if !c.p.mentions(tag) {
						st.facts[c.key()] = c
					}
				}
			}
		}
	}
	// the head once more, with the values at the end
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.Call:
			outs := k.doCall(in, env, st)
			if len(outs) == 0 {
				return
			}
			env[in], st = outs[0].res[0], outs[0].st
		case *ssa.Store:
			if a := k.val(in.Addr, env); a.kind == 'p' {
				k.store(st, a.cell, k.val(in.Val, env))
			}
		case ssa.Value:
			env[in] = k.eval(in, env, st)
		}
	}
	k.block(exit, h, env, st, lp, seen, ends)
}

func (k *frames) store(st *fstate, cell string, v fval) {
	for c := range st.mem {
		if strings.HasPrefix(c, cell+".") {
			delete(st.mem, c)
		}
	}
	if v.kind == 'a' {
		for i, f := range v.vals {
			k.store(st, fmt.Sprintf("%s.%d", cell, i), f)
		}
		return
	}
	st.mem[cell] = v
}

func (k *frames) val(v ssa.Value, env rvals) fval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isErrorType(v.Type()) {
				return fval{kind: 'e', flag: 'Z'}
			}
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				return fval{kind: 'S', p: pconst(0)}
			}
			return funknown
		}
		switch v.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok {
				return fint(pconst(n))
			}
		case constant.Bool:
			return fval{kind: 'b', cond: &fcond{known: true, val: constant.BoolVal(v.Value)}}
		}
		return funknown
	case *ssa.Function:
		return fval{kind: 'f', fn: v}
	}
	if x, ok := env[v]; ok {
		return x
	}
	return funknown
}

func (k *frames) zero(t types.Type) fval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return fint(pconst(0))
		}
		if u.Info()&types.IsBoolean != 0 {
			return fval{kind: 'b', cond: &fcond{known: true}}
		}
	case *types.Slice:
		return fval{kind: 'S', p: pconst(0)}
	case *types.Interface:
		if isErrorType(t) {
			return fval{kind: 'e', flag: 'Z'}
		}
	}
	return funknown
}

func (k *frames) load(st *fstate, cell string, t types.Type) fval {
	if v, ok := st.mem[cell]; ok {
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		v := fval{kind: 'a'}
		for i := 0; i < int(a.Len()); i++ {
			v.vals = append(v.vals, k.load(st, fmt.Sprintf("%s.%d", cell, i), a.Elem()))
		}
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !isProtoMsg(types.NewPointer(t)) && s.NumFields() < 12 {
		v := fval{kind: 'a'}
		for i := 0; i < s.NumFields(); i++ {
			v.vals = append(v.vals, k.load(st, fmt.Sprintf("%s.%d", cell, i), s.Field(i).Type()))
		}
		return v
	}
	return k.zero(t)
}

// narrow: an integer in a type that may be too small for it.
func (k *frames) narrow(p poly, t types.Type) fval {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return funknown
	}
	lo, hi := p.limits()
	var min, max float64
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return fint(p)
	case types.Uint, types.Uint64, types.Uintptr:
		max = 1 << 62
	case types.Int32:
		min, max = math.MinInt32, math.MaxInt32
	case types.Uint32:
		max = math.MaxUint32
	case types.Uint16:
		max = math.MaxUint16
	case types.Int16:
		min, max = math.MinInt16, math.MaxInt16
	case types.Uint8:
		max = 255
	case types.Int8:
		min, max = -128, 127
	}
	if p.mentions("loop") && !p.mentions("b(") {
		return fint(p) // a counter
	}
	if lo >= min && hi <= max {
		return fint(p)
	}
	return fint(derive(fmt.Sprintf("wrap%d", b.Kind()), p, nil))
}

func (k *frames) eval(v ssa.Value, env rvals, st *fstate) fval {
	switch v := v.(type) {
	case *ssa.Alloc:
		// a new one each time it is reached
		cell := fmt.Sprintf("c%s%d_%s", v.Name(), v.Pos(), k.stack)
		for c := range st.mem {
			if c == cell || strings.HasPrefix(c, cell+".") {
				delete(st.mem, c)
			}
		}
		if t := v.Type().Underlying().(*types.Pointer).Elem(); !isProtoMsg(v.Type()) {
			switch t.Underlying().(type) {
			case *types.Array:
				return fval{kind: 'p', cell: cell}
			}
			if _, ok := t.Underlying().(*types.Struct); !ok {
				st.mem[cell] = k.zero(t)
			} else {
				x := k.load(st, cell, t)
				k.store(st, cell, x)
			}
		}
		return fval{kind: 'p', cell: cell}
	case *ssa.FieldAddr:
		if x := k.val(v.X, env); x.kind == 'p' {
			return fval{kind: 'p', cell: fmt.Sprintf("%s.%d", x.cell, v.Field)}
		}
		return funknown
	case *ssa.Field:
		if x := k.val(v.X, env); x.kind == 'a' && v.Field < len(x.vals) {
			return x.vals[v.Field]
		}
		return funknown
	case *ssa.IndexAddr:
		x := k.val(v.X, env)
		i := k.val(v.Index, env)
		if x.kind == 's' && i.kind == 'i' {
			return fval{kind: 'p', cell: "@", pos: x.pos.add(i.p, 1)}
		}
		if n, ok := i.p.constant(); ok && i.kind == 'i' && x.cell != "" && x.cell != "@" && (x.kind == 'p' || x.kind == 'S') {
			return fval{kind: 'p', cell: fmt.Sprintf("%s.%d", x.cell, n)}
		}
		return funknown
	case *ssa.Index:
		x, i := k.val(v.X, env), k.val(v.Index, env)
		if n, ok := i.p.constant(); ok && i.kind == 'i' && x.kind == 'a' && n >= 0 && int(n) < len(x.vals) {
			return x.vals[n]
		}
		return funknown
	case *ssa.UnOp:
		x := k.val(v.X, env)
		switch v.Op {
		case token.MUL:
			if x.kind == 'p' && x.cell == "@" {
				st.reads = true
				return fint(byteAt(x.pos))
			}
			if x.kind == 'p' {
				return k.load(st, x.cell, v.Type())
			}
		case token.NOT:
			if x.kind == 'b' && x.cond != nil {
				c := *x.cond
				if c.known {
					c.val = !c.val
				} else {
					c.neg = !c.neg
				}
				return fval{kind: 'b', cond: &c}
			}
		case token.SUB:
			if x.kind == 'i' {
				return fint(poly{}.add(x.p, -1))
			}
		}
		return funknown
	case *ssa.BinOp:
		return k.binop(v, k.val(v.X, env), k.val(v.Y, env))
	case *ssa.Convert:
		x := k.val(v.X, env)
		if x.kind == 'i' {
			return k.narrow(x.p, v.Type())
		}
		if x.kind == 's' && isString(v.Type()) {
			return funknown
		}
		return funknown
	case *ssa.ChangeType:
		return k.val(v.X, env)
	case *ssa.ChangeInterface:
		return k.val(v.X, env)
	case *ssa.MakeInterface:
		if isErrorType(v.Type()) {
			return fval{kind: 'e', flag: 'N'}
		}
		return k.val(v.X, env)
	case *ssa.MakeClosure:
		f := fval{kind: 'f', fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.bind = append(f.bind, k.val(b, env))
		}
		return f
	case *ssa.MakeSlice:
		if n := k.val(v.Len, env); n.kind == 'i' {
			return fval{kind: 'S', p: n.p}
		}
		return funknown
	case *ssa.Slice:
		x := k.val(v.X, env)
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok && x.kind == 'p' && v.Low == nil && v.High == nil {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() <= 64 {
				return fval{kind: 'S', p: pconst(a.Len()), cell: x.cell}
			}
		}
		if x.kind != 's' && x.kind != 'S' {
			return funknown
		}
		lo, hi := pconst(0), x.p
		if v.Low != nil {
			l := k.val(v.Low, env)
			if l.kind != 'i' {
				return funknown
			}
			lo = l.p
		}
		if v.High != nil {
			h := k.val(v.High, env)
			if h.kind != 'i' {
				return funknown
			}
			hi = h.p
		}
		if x.kind == 'S' {
			return fval{kind: 'S', p: hi.add(lo, -1)}
		}
		// the slice would panic otherwise
		c := fcond{p: hi.add(lo, -1), op: '<', neg: true}
		if l, _ := c.p.limits(); l < 0 {
			st.facts[c.key()] = c
		}
		return fval{kind: 's', pos: x.pos.add(lo, 1), p: hi.add(lo, -1)}
	case *ssa.Extract:
		if t := k.val(v.Tuple, env); t.kind == 't' && v.Index < len(t.vals) {
			return t.vals[v.Index]
		}
		return funknown
	}
	return funknown
}

func (k *frames) binop(v *ssa.BinOp, x, y fval) fval {
	switch v.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.kind == 'e' && y.kind == 'e' && (v.Op == token.EQL || v.Op == token.NEQ) {
			if x.flag == 'Z' || y.flag == 'Z' {
				return fval{kind: 'b', cond: &fcond{known: true, val: (x.flag == y.flag) == (v.Op == token.EQL)}}
			}
			return funknown
		}
		if x.kind != 'i' || y.kind != 'i' {
			return funknown
		}
		c := fcond{op: '<'}
		switch v.Op {
		case token.EQL, token.NEQ:
			c.op, c.neg = '=', v.Op == token.NEQ
			c.p = x.p.add(y.p, -1)
			// one form for an equality
			if m := (poly{}).add(c.p, -1); m.key() < c.p.key() {
				c.p = m
			}
		case token.LSS:
			c.p = x.p.add(y.p, -1)
		case token.GEQ:
			c.p, c.neg = x.p.add(y.p, -1), true
		case token.GTR:
			c.p = y.p.add(x.p, -1)
		case token.LEQ:
			c.p, c.neg = y.p.add(x.p, -1), true
		}
		return fval{kind: 'b', cond: &c}
	}
	if x.kind != 'i' || y.kind != 'i' {
		return funknown
	}
	switch v.Op {
	case token.ADD:
		return k.narrow(x.p.add(y.p, 1), v.Type())
	case token.SUB:
		return k.narrow(x.p.add(y.p, -1), v.Type())
	case token.MUL:
		return k.narrow(x.p.mul(y.p), v.Type())
	case token.SHL:
		if n, ok := y.p.constant(); ok && n >= 0 && n < 40 {
			return k.narrow(x.p.mul(pconst(1<<n)), v.Type())
		}
	case token.OR:
		for _, p := range [][2]poly{{x.p, y.p}, {y.p, x.p}} {
			g := int64(1)
			for g < 1<<40 {
				all := true
				for _, c := range p[0] {
					if c%(g*2) != 0 {
						all = false
					}
				}
				if !all || len(p[0]) == 0 {
					break
				}
				g *= 2
			}
			lo, hi := p[1].limits()
			if len(p[0]) == 0 || lo >= 0 && hi < float64(g) {
				return k.narrow(p[0].add(p[1], 1), v.Type())
			}
		}
	case token.AND:
		for _, p := range [][2]poly{{x.p, y.p}, {y.p, x.p}} {
			if n, ok := p[1].constant(); ok && n >= 0 && n&(n+1) == 0 {
				if lo, hi := p[0].limits(); lo >= 0 && hi <= float64(n) {
					return fint(p[0])
				}
			}
		}
	}
	switch v.Op {
	case token.AND, token.OR, token.XOR, token.SHR, token.QUO, token.REM, token.AND_NOT:
		return k.narrow(derive("op"+v.Op.String(), x.p, y.p), v.Type())
	}
	return fint(derive("op?"+v.Op.String(), x.p, y.p))
}

// results makes what an unknown call returns.
func (k *frames) unknownResults(sig *types.Signature) fval {
	r := sig.Results()
	one := func(t types.Type) fval {
		if isErrorType(t) {
			return fval{kind: 'e', flag: 'Z'} // only what succeeds is of interest
		}
		return funknown
	}
	if r.Len() == 1 {
		return one(r.At(0).Type())
	}
	t := fval{kind: 't'}
	for i := 0; i < r.Len(); i++ {
		t.vals = append(t.vals, one(r.At(i).Type()))
	}
	return t
}

func (k *frames) doCall(in *ssa.Call, env rvals, st *fstate) []fend {
	cc := &in.Call
	one := func(v fval) []fend { return []fend{{st: st, res: []fval{v}}} }
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x := funknown
		if len(cc.Args) > 0 {
			x = k.val(cc.Args[0], env)
		}
		switch b.Name() {
		case "len":
			if x.kind == 's' || x.kind == 'S' {
				return one(fint(x.p))
			}
		case "append":
			if y := k.val(cc.Args[1], env); x.kind == 'S' && (y.kind == 'S' || y.kind == 's') {
				return one(fval{kind: 'S', p: x.p.add(y.p, 1)})
			}
		case "max", "min":
			p := x.p
			for _, a := range cc.Args[1:] {
				y := k.val(a, env)
				if x.kind != 'i' || y.kind != 'i' {
					return one(funknown)
				}
				if p.key() != y.p.key() {
					p = derive("op"+b.Name(), p, y.p)
				}
			}
			if x.kind == 'i' {
				return one(fint(p))
			}
		}
		return one(funknown)
	}
	var args []fval
	for _, a := range cc.Args {
		args = append(args, k.val(a, env))
	}
	f := cc.StaticCallee()
	var bind []fval
	if f == nil && !cc.IsInvoke() {
		if v := k.val(cc.Value, env); v.kind == 'f' {
			f, bind = v.fn, v.bind
		}
	} else if f != nil {
		if m, ok := cc.Value.(*ssa.MakeClosure); ok {
			if v := k.val(m, env); v.kind == 'f' {
				bind = v.bind
			}
		}
	}
	if f == nil {
		for _, a := range args {
			if a.kind == 's' || a.kind == 'p' {
				st.loose = true
			}
		}
		return one(k.unknownResults(cc.Signature()))
	}
	if kind, field, recv := protoMethod(cc); kind != "" {
		if kind == "Build" || kind == "Other" && !strings.HasPrefix(field, "String") {
			k.built = true
		}
		if k.fields && kind == "Set" && len(args) == 2 {
			s := source(args[1])
			s.msg, s.field, s.in = protoMsgName(recv), field, in
			st.sets[s.key()] = s
		}
		if kind == "Set" && field == "Value" && len(args) == 2 && args[1].kind == 's' {
			v := args[1].pos.key() + ":" + args[1].p.key()
			st.vals[v], st.at[v] = true, args[1].pos
		}
		return one(k.unknownResults(f.Signature))
	}
	name := f.String()
	if name == "fmt.Errorf" || name == "errors.New" {
		return one(fval{kind: 'e', flag: 'N'})
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).Uint") && len(args) == 2 && args[1].kind == 's' {
		n := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8}[f.Name()]
		if n > 0 && n < 8 {
			st.reads = true
			return one(fint(be(args[1].pos, n)))
		}
		return one(funknown)
	}
	if k.sizer != nil && f == k.sizer {
		for _, a := range args {
			if a.kind == 's' {
				v := fint(patom("size(" + a.pos.key() + ")"))
				return one(fval{kind: 't', vals: []fval{v, {kind: 'e', flag: 'Z'}}})
			}
		}
	}
	if !isRepoFunc(f) || len(f.Blocks) == 0 {
		for _, a := range args {
			if a.kind == 's' && !strings.HasPrefix(name, "bytes.Clone") && !strings.HasPrefix(name, "slices.Clone") {
				st.loose = true
			}
			if a.kind == 'p' && a.cell != "@" {
				st.loose = true
			}
		}
		return one(k.unknownResults(f.Signature))
	}
	// a function that returns or changes a number is followed, another one only asked
	// whether it accepts the length
	follow := f.Parent() != nil
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		// (an enum is not a number to count with)
		if b, ok := types.Unalias(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 || isByteSlice(t) {
			follow = true
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			follow = true
		}
	}
	sliced := false
	for _, a := range args {
		if a.kind == 'p' && a.cell != "@" || a.kind == 'f' {
			follow = true
		}
		if a.kind == 's' {
			sliced = true
		}
	}
	if p := funcPkg(f); p != nil && strings.HasSuffix(p.Path(), "/internal/vu") && sliced {
		follow = true
	}
	if !follow {
		if sliced && !k.accepts(f, args) {
			return nil
		}
		v := k.unknownResults(f.Signature)
		if k.fields {
			k.read(in, f, args, &v, st)
		}
		return one(v)
	}
	var out []fend
	stack := k.stack
	k.stack += fmt.Sprintf("/%d", in.Pos())
	ends := k.call(f, args, bind, st)
	k.stack = stack
	for _, e := range ends {
		n := len(e.res)
		if n > 0 && e.res[n-1].kind == 'e' && e.res[n-1].flag == 'N' && n > 1 {
			// followed on: the caller may look at the error
			for i := range e.res[:n-1] {
				if e.res[i].kind == '?' {
					e.res[i] = k.zero(f.Signature.Results().At(i).Type())
				}
			}
		}
		switch n {
		case 0:
			e.res = []fval{funknown}
		case 1:
		default:
			e.res = []fval{{kind: 't', vals: e.res}}
		}
		out = append(out, e)
	}
	return out
}

// read: what a reader returns was made of the one part of the input it is given.
func (k *frames) read(in *ssa.Call, f *ssa.Function, args []fval, v *fval, st *fstate) {
	from, n := funknown, 0
	for i, a := range args {
		if a.kind == 's' || a.kind == 'i' && len(a.p) > 0 && source(a).pos != nil {
			from = a
			n++
		}
		if isProtoMsg(f.Signature.Params().At(min(i, f.Signature.Params().Len()-1)).Type()) {
			k.built = true // it may fill the message
		}
	}
	if n != 1 {
		return
	}
	r := fval{kind: 'r', vals: []fval{from}}
	t := f.Signature.Results().At(0).Type()
	if v.kind == 't' {
		v.vals[0] = r
	} else if f.Signature.Results().Len() == 1 && !isErrorType(t) {
		*v = r
	}
	if isProtoMsg(t) {
		s := source(from)
		s.msg, s.in = protoMsgName(t), in
		st.sets[s.key()] = s
	}
}

// accepts: whether a reader of part of the input has a path without an error for that
// length.
func (k *frames) accepts(f *ssa.Function, args []fval) bool {
	key := f.String()
	var as []fval
	for _, a := range args {
		if a.kind == 's' {
			n, ok := a.p.constant()
			if !ok {
				return true
			}
			key += fmt.Sprint(":", n)
			a = fval{kind: 's', pos: pconst(0), p: pconst(n)}
		} else if a.kind != 'i' {
			a = funknown
		}
		as = append(as, a)
	}
	if v, ok := k.lens[key]; ok {
		return v
	}
	k.lens[key] = true
	sub := &frames{lens: k.lens, depth: k.depth, steps: 50000}
	ends := sub.call(f, as, nil, newFstate())
	ok := sub.fail != ""
	for _, e := range ends {
		n := len(e.res)
		if n == 0 || e.res[n-1].kind != 'e' || e.res[n-1].flag != 'N' {
			ok = true
		}
	}
	k.lens[key] = ok
	return ok
}

func newFstate() *fstate {
	return &fstate{mem: map[string]fval{}, facts: map[string]fcond{}, vals: map[string]bool{}, sets: map[string]fset{}, at: map[string]poly{}}
}
