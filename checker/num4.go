package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- sums over a local list of lengths ----
//
// Two loops that add up the same elements of a list (the usual way of sizing a
// buffer before filling it) agree: as long as the second loop has not gone
// further than the first, its sum is at most the first one's.

type accum struct {
	h   *nb
	sum int // the accumulator at the header
	idx lin // next index to be added
	arr *nv
}

// localList resolves a slice to the make that created it, when it is only ever
// indexed.
func (u *nunit) localList(n *nv) *nv {
	n = u.deref(n)
	ms, ok := n.v.(*ssa.MakeSlice)
	if n.kind != 'v' || !ok {
		return nil
	}
	for _, r := range *ms.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *x.Referrers() {
				switch y := q.(type) {
				case *ssa.Store:
					if y.Val == ssa.Value(x) {
						return nil
					}
				case *ssa.UnOp:
				default:
					return nil
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return n
}

// listStores are the stores into a local list, with the blocks they are in.
func (u *nunit) listStores(arr *nv) (idx []lin, val []*nv, blk []*nb, pos []int) {
	for _, r := range *arr.v.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				k := instrKey(st, arr.ctx)
				b := u.instrAt[k]
				if b == nil {
					continue // unreachable
				}
				idx = append(idx, u.num(u.val(ia.Index, arr.ctx)))
				val = append(val, u.val(st.Val, arr.ctx))
				blk = append(blk, b)
				pos = append(pos, u.idxAt[k])
			}
		}
	}
	return
}

func reachesWithout(from *nb, stop *nb) map[*nb]bool {
	seen := map[*nb]bool{}
	work := append([]*nb(nil), from.succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == nil || seen[b] || b == stop {
			continue
		}
		seen[b] = true
		work = append(work, b.succs...)
	}
	return seen
}

// accums are the accumulators of the loop at h.
func (u *nunit) accums(h *nb) []accum {
	if a, ok := u.accC[h]; ok {
		return a
	}
	if u.accC == nil {
		u.accC = map[*nb][]accum{}
	}
	u.accC[h] = nil
	var out []accum
	for _, ph := range h.phis {
		if !isInt(ph.typ) || len(ph.edges) != len(h.preds) {
			continue
		}
		q := u.num(ph)
		if len(q.t) != 1 || q.c != 0 || u.atoms[q.t[0].a].nv != ph {
			continue
		}
		var el *natom
		ok := true
		for i := range h.preds {
			l := u.num(ph.edges[i])
			if !u.isLatch(h, i) {
				ok = ok && l.isConst() && l.c == 0
				continue
			}
			d := l.add(q, -1)
			if len(d.t) != 1 || d.c != 0 || d.t[0].k != 1 {
				ok = false
				break
			}
			a := u.atoms[d.t[0].a]
			if el != nil && el != a || a.kind != "elem" {
				ok = false
				break
			}
			el = a
		}
		if !ok || el == nil {
			continue
		}
		ld, isLd := el.nv.v.(*ssa.UnOp)
		if !isLd {
			continue
		}
		ia := ld.X.(*ssa.IndexAddr)
		arr := u.localList(u.val(ia.X, el.nv.ctx))
		if arr == nil || arr.ctx != el.nv.ctx {
			continue
		}
		idx := u.num(u.val(ia.Index, el.nv.ctx))
		if len(idx.t) != 1 || idx.t[0].k != 1 {
			continue
		}
		ind := u.atoms[idx.t[0].a]
		if ind.nv == nil || ind.nv.blk != h || len(ind.nv.edges) != len(h.preds) {
			continue
		}
		for i := range h.preds {
			l := u.num(ind.nv.edges[i])
			if u.isLatch(h, i) {
				ok = ok && l.equal(linA(ind.id).plus(1))
			} else {
				ok = ok && l.equal(linC(-idx.c))
			}
		}
		if !ok {
			continue
		}
		// what was added does not change afterwards, and is never negative
		key := instrKey(ld, el.nv.ctx)
		lb := u.instrAt[key]
		if lb == nil || !h.body[lb] {
			continue
		}
		after := reachesWithout(lb, h)
		later := reachesWithout(h, nil)
		si, sv, sb, sp := u.listStores(arr)
		for k := range si {
			if lo, _ := u.bounds(u.num(sv[k])); (lo == nil || *lo < 0) && !u.prove(u.envAt(sb[k], sp[k]), u.num(sv[k]), 0) {
				ok = false
			}
			switch {
			case h.body[sb[k]]:
				if !si[k].equal(idx) || after[sb[k]] || sb[k] == lb && sp[k] > u.idxAt[key] {
					ok = false
				}
			case later[sb[k]]:
				ok = false
			}
		}
		if ok {
			out = append(out, accum{h, q.t[0].a, idx, arr})
		}
	}
	u.accC[h] = out
	return out
}

// sumFacts adds what is known about the accumulators of the loop at h.
func (u *nunit) sumFacts(e *fenv, h *nb) {
	as := u.accums(h)
	for _, q := range as {
		e.add(linA(q.sum))
		for p := h.idom; p != nil; p = p.idom {
			if len(p.latch) == 0 || p.body[h] {
				continue
			}
			for _, o := range u.accums(p) {
				if o.arr != q.arr {
					continue
				}
				if ok, _ := u.entails(e, o.idx.add(q.idx, -1)); ok {
					e.add(linA(o.sum).add(linA(q.sum), -1))
				}
			}
		}
	}
}

// ---- preconditions of library arithmetic ----

// bigAtom is what a query of a big integer returns: the same number for every
// query of the same integer (integers are not changed after they were made).
func (u *nunit) bigAtom(name string, c *ssa.Call, ctx *nctx) lin {
	args := callArgs(c.Common())
	key := "big:" + name
	for _, a := range args {
		key += ":" + u.deref(u.val(a, ctx)).key
	}
	return u.bigQuery(key, name, u.val(c, ctx))
}

func (u *nunit) bigQuery(key, name string, n *nv) lin {
	id := u.atom(key, func() natom {
		a := natom{kind: "call", nv: n, comp: 'v', name: name, lo: i64(-1), hi: i64(1)}
		if strings.HasSuffix(name, "BitLen") {
			a.lo, a.hi = i64(0), nil
		}
		return a
	})
	return linA(id)
}

// bigNonZero: ways to know that a big integer is not zero.
func (u *nunit) bigNonZero(n *nv) [][]lin {
	k := u.deref(n).key
	sign := u.bigQuery("big:(*math/big.Int).Sign:"+k, "(*math/big.Int).Sign", n)
	bits := u.bigQuery("big:(*math/big.Int).BitLen:"+k, "(*math/big.Int).BitLen", n)
	out := [][]lin{{sign.plus(-1)}, {sign.scale(-1).plus(-1)}, {bits.plus(-1)}}
	for key, id := range u.atomKey {
		if strings.HasPrefix(key, "big:(*math/big.Int).Cmp:"+k+":") {
			out = append(out, []lin{linA(id).plus(-1)}) // greater than something: only small constants are compared with
		}
	}
	return out
}

// onCurve: a successful on-curve check of the key's point is known.
func (u *nunit) onCurve(e *fenv, key *nv) bool {
	key = u.deref(key)
	if c, ok := key.v.(*ssa.Call); ok && key.kind == 'v' {
		if g := c.Common().StaticCallee(); g != nil && !isRepoFunc(g) {
			return true // made and checked by the library
		}
	}
	var coords []string
	if al, ok := key.v.(*ssa.Alloc); ok && key.kind == 'v' {
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					if nm := fieldNameOf(fa); nm == "X" || nm == "Y" {
						coords = append(coords, nm+u.deref(u.val(st.Val, key.ctx)).key)
					}
				}
			}
		}
	}
	for n, v := range e.bools {
		c, ok := n.v.(*ssa.Call)
		if !v || n.kind != 'v' || !ok {
			continue
		}
		nm := callName(c.Common())
		if !strings.HasSuffix(nm, ").IsOnCurve") {
			continue
		}
		args := callArgs(c.Common())
		if len(args) < 3 {
			continue
		}
		x, y := "X"+u.deref(u.val(args[len(args)-2], n.ctx)).key, "Y"+u.deref(u.val(args[len(args)-1], n.ctx)).key
		match := true
		for _, k := range coords {
			if k != x && k != y {
				match = false
			}
		}
		if match {
			return true
		}
	}
	return false
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	st := derefStruct(fa.X.Type())
	if st == nil || fa.Field >= st.NumFields() {
		return fmt.Sprint(fa.Field)
	}
	return st.Field(fa.Field).Name()
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}
