package main

import (
	"sort"
	"strconv"
	"strings"
)

// Linear forms over atoms (symbolic integers) and entailment by Fourier-Motzkin
// elimination with integer tightening. Incomplete answers are always "not entailed".

type lterm struct {
	a int
	k int64
}

type lin struct {
	c int64
	t []lterm // sorted by atom, no zero coefficients
}

func linC(c int64) lin { return lin{c: c} }
func linA(a int) lin   { return lin{t: []lterm{{a, 1}}} }
func (l lin) isConst() bool {
	return len(l.t) == 0
}

func (l lin) add(m lin, k int64) lin {
	r := lin{c: l.c + k*m.c}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || i < len(l.t) && l.t[i].a < m.t[j].a:
			r.t = append(r.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].a < l.t[i].a:
			if k*m.t[j].k != 0 {
				r.t = append(r.t, lterm{m.t[j].a, k * m.t[j].k})
			}
			j++
		default:
			if s := l.t[i].k + k*m.t[j].k; s != 0 {
				r.t = append(r.t, lterm{l.t[i].a, s})
			}
			i++
			j++
		}
	}
	return r
}

func (l lin) plus(c int64) lin { l.c += c; return l }
func (l lin) scale(k int64) lin {
	return lin{}.add(l, k)
}

func (l lin) coef(a int) int64 {
	for _, t := range l.t {
		if t.a == a {
			return t.k
		}
	}
	return 0
}

func (l lin) without(a int) lin {
	r := lin{c: l.c}
	for _, t := range l.t {
		if t.a != a {
			r.t = append(r.t, t)
		}
	}
	return r
}

func (l lin) equal(m lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

func (l lin) vkey() string {
	var sb strings.Builder
	for _, t := range l.t {
		sb.WriteString(strconv.Itoa(t.a))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(t.k, 10))
		sb.WriteByte(';')
	}
	return sb.String()
}

func (l lin) key() string { return l.vkey() + strconv.FormatInt(l.c, 10) }

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides a constraint l >= 0 by the gcd of its coefficients.
func (l lin) tighten() lin {
	var g int64
	for _, t := range l.t {
		g = gcd64(g, t.k)
	}
	if g <= 1 {
		return l
	}
	r := lin{c: floorDiv(l.c, g)}
	for _, t := range l.t {
		r.t = append(r.t, lterm{t.a, t.k / g})
	}
	return r
}

const linLimit = int64(1) << 40

func (l lin) big() bool {
	for _, t := range l.t {
		if t.k > linLimit || t.k < -linLimit {
			return true
		}
	}
	return l.c > 1<<61 || l.c < -(1<<61)
}

// infeasible reports whether the constraints (each l >= 0) have no integer solution.
func infeasible(cs []lin) bool {
	best := map[string]lin{}
	put := func(m map[string]lin, l lin) (bool, bool) {
		l = l.tighten()
		if len(l.t) == 0 {
			return l.c < 0, true
		}
		if l.big() {
			return false, true
		}
		k := l.vkey()
		if o, ok := m[k]; !ok || l.c < o.c {
			m[k] = l
			// l and -l together: contradiction when the constants do not meet
			n := l.scale(-1)
			if p, ok := m[n.vkey()]; ok && p.c+l.c < 0 {
				return true, false
			}
			return false, false
		}
		return false, true
	}
	for _, l := range cs {
		if bad, _ := put(best, l); bad {
			return true
		}
	}
	for round := 0; round < 200; round++ {
		if len(best) == 0 {
			return false
		}
		if len(best) > 900 {
			return false
		}
		var list []lin
		keys := make([]string, 0, len(best))
		for k := range best {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			list = append(list, best[k])
		}
		// equalities first: l >= 0 and -l >= 0 with a unit coefficient
		done := false
		for _, l := range list {
			n := l.scale(-1)
			o, ok := best[n.vkey()]
			if !ok || o.c != -l.c {
				continue
			}
			unit := -1
			for i, t := range l.t {
				if t.k == 1 || t.k == -1 {
					unit = i
					break
				}
			}
			if unit < 0 {
				continue
			}
			a, k := l.t[unit].a, l.t[unit].k
			// k*a + rest = 0  =>  a = -k*rest
			val := l.without(a).scale(-k)
			nb := map[string]lin{}
			for _, m := range list {
				if c := m.coef(a); c != 0 {
					m = m.without(a).add(val, c)
				}
				if bad, _ := put(nb, m); bad {
					return true
				}
			}
			best = nb
			done = true
			break
		}
		if done {
			continue
		}
		pos, neg := map[int]int{}, map[int]int{}
		for _, l := range list {
			for _, t := range l.t {
				if t.k > 0 {
					pos[t.a]++
				} else {
					neg[t.a]++
				}
			}
		}
		pick, cost := -1, 0
		for a := range pos {
			if c := pos[a]*neg[a] - pos[a] - neg[a]; pick < 0 || c < cost || c == cost && a < pick {
				pick, cost = a, c
			}
		}
		for a := range neg {
			if pos[a] == 0 {
				if c := -neg[a]; pick < 0 || c < cost || c == cost && a < pick {
					pick, cost = a, c
				}
			}
		}
		if pick < 0 {
			return false
		}
		nb := map[string]lin{}
		var ps, ns []lin
		for _, l := range list {
			switch c := l.coef(pick); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				if bad, _ := put(nb, l); bad {
					return true
				}
			}
		}
		if len(ps)*len(ns) > 2500 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.coef(pick), -n.coef(pick)
				g := gcd64(a, b)
				m := p.scale(b/g).add(n, a/g)
				if bad, _ := put(nb, m); bad {
					return true
				}
			}
		}
		best = nb
	}
	return false
}
