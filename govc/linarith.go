package main

import (
	"math"
	"os"
	"sort"
)

// Internal back end: proves that a set of 64-bit facts is contradictory by
// linear arithmetic over the integers (Fourier-Motzkin). A fact is used only
// when interval bounds show that neither of its sides can wrap around, so the
// machine comparison is the mathematical one. It never answers "satisfiable".
// The thorough tier runs with this back end off.

var linOff = os.Getenv("GOVC_NOLIN") != ""

type lc struct { // sum coef*atom + c <= 0
	m map[*Term]int64
	c int64
}

const linMax = int64(1) << 62

func (b *TermBank) linOf(t *Term) (map[*Term]int64, int64) {
	as, ks, c := b.linParts(t)
	m := map[*Term]int64{}
	for i, a := range as {
		m[a] = int64(ks[i])
	}
	return m, int64(c)
}

type ivl struct{ lo, hi int64 }

func satMul(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || r >= linMax || r <= -linMax {
		return 0, false
	}
	return r, true
}

// rng computes an interval for a linear expression, false if it may leave +-2^62.
func rng(m map[*Term]int64, c int64, iv map[*Term]ivl) (ivl, bool) {
	r := ivl{c, c}
	if c >= linMax || c <= -linMax {
		return r, false
	}
	for a, k := range m {
		v, ok := iv[a]
		if !ok {
			return r, false
		}
		x, ok1 := satMul(k, v.lo)
		y, ok2 := satMul(k, v.hi)
		if !ok1 || !ok2 {
			return r, false
		}
		if x > y {
			x, y = y, x
		}
		r.lo += x
		r.hi += y
		if r.lo <= -linMax || r.hi >= linMax {
			return r, false
		}
	}
	return r, true
}

type rawC struct {
	xm, ym map[*Term]int64
	xc, yc int64
	off    int64 // x - y + off <= 0
	x, y   *Term
	done   bool
}

func (b *TermBank) linUnsat(pc []*Term, extra *Term) bool {
	if linOff {
		return false
	}
	var raw []*rawC
	add := func(x, y *Term, off int64) {
		if x.S.W != 64 || x.S.Name != "BV" {
			return
		}
		xm, xc := b.linOf(x)
		ym, yc := b.linOf(y)
		raw = append(raw, &rawC{xm, ym, xc, yc, off, x, y, false})
	}
	var fact func(t *Term, neg bool)
	fact = func(t *Term, neg bool) {
		switch t.Op {
		case ONot:
			fact(t.Args[0], !neg)
		case OAnd:
			if !neg {
				for _, a := range t.Args {
					fact(a, false)
				}
			}
		case OOr:
			if neg {
				for _, a := range t.Args {
					fact(a, true)
				}
			}
		case OSLe:
			if neg {
				add(t.Args[1], t.Args[0], 1)
			} else {
				add(t.Args[0], t.Args[1], 0)
			}
		case OSLt:
			if neg {
				add(t.Args[1], t.Args[0], 0)
			} else {
				add(t.Args[0], t.Args[1], 1)
			}
		case OEq:
			if !neg {
				add(t.Args[0], t.Args[1], 0)
				add(t.Args[1], t.Args[0], 0)
			}
		}
	}
	nq := 0
	if extra != nil {
		fact(extra, false)
		nq = len(raw)
		if nq == 0 {
			return false
		}
	}
	for _, p := range pc {
		fact(p, false)
	}
	// intervals of atoms
	iv := map[*Term]ivl{}
	note := func(m map[*Term]int64) {
		for a := range m {
			if _, ok := iv[a]; !ok {
				u := b.ubound(a)
				if u < uint64(linMax) {
					iv[a] = ivl{0, int64(u)}
				}
			}
		}
	}
	for _, r := range raw {
		note(r.xm)
		note(r.ym)
	}
	lo := map[*Term]int64{}
	hi := map[*Term]int64{}
	get := func(a *Term) ivl {
		if v, ok := iv[a]; ok {
			return v
		}
		v := ivl{math.MinInt64, math.MaxInt64}
		if x, ok := lo[a]; ok {
			v.lo = x
		}
		if x, ok := hi[a]; ok {
			v.hi = x
		}
		return v
	}
	single := func(m map[*Term]int64, c int64) (*Term, bool) {
		if len(m) == 1 && c == 0 {
			for a, k := range m {
				if k == 1 {
					return a, true
				}
			}
		}
		return nil, false
	}
	for round := 0; round < 4; round++ {
		ch := false
		for _, r := range raw {
			if a, ok := single(r.xm, r.xc); ok { // a <= y - off
				if yr, ok := rng(r.ym, r.yc, iv); ok {
					v := get(a)
					if n := yr.hi - r.off; n < v.hi {
						if w, ok := iv[a]; ok {
							iv[a] = ivl{w.lo, n}
						} else {
							hi[a] = n
						}
						ch = true
					}
				}
			}
			if a, ok := single(r.ym, r.yc); ok { // a >= x + off
				if xr, ok := rng(r.xm, r.xc, iv); ok {
					v := get(a)
					if n := xr.lo + r.off; n > v.lo {
						if w, ok := iv[a]; ok {
							iv[a] = ivl{n, w.hi}
						} else {
							lo[a] = n
						}
						ch = true
					}
				}
			}
		}
		for a, l := range lo {
			if h, ok := hi[a]; ok {
				if _, ok := iv[a]; !ok && l > -linMax && h < linMax {
					iv[a] = ivl{l, h}
					ch = true
				}
			}
		}
		for _, v := range iv {
			if v.lo > v.hi {
				return true
			}
		}
		if !ch {
			break
		}
	}
	// admissible constraints
	var cs []lc
	var goal []lc
	for i, r := range raw {
		_, ok1 := rng(r.xm, r.xc, iv)
		_, ok2 := rng(r.ym, r.yc, iv)
		if !ok1 || !ok2 {
			continue
		}
		m := map[*Term]int64{}
		for a, k := range r.xm {
			m[a] += k
		}
		for a, k := range r.ym {
			m[a] -= k
		}
		for a, k := range m {
			if k == 0 {
				delete(m, a)
			}
		}
		l := lc{m, r.xc - r.yc + r.off}
		if i < nq {
			goal = append(goal, l)
		} else {
			cs = append(cs, l)
		}
	}
	if extra != nil && len(goal) == 0 {
		return false
	}
	// cone of influence
	rel := map[*Term]bool{}
	for _, g := range goal {
		for a := range g.m {
			rel[a] = true
		}
	}
	use := append([]lc{}, goal...)
	taken := make([]bool, len(cs))
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if taken[i] {
				continue
			}
			hit := extra == nil || len(c.m) == 0
			for a := range c.m {
				if rel[a] {
					hit = true
				}
			}
			if hit {
				taken[i] = true
				ch = true
				use = append(use, c)
				for a := range c.m {
					rel[a] = true
				}
			}
		}
	}
	for a := range rel {
		v := iv[a]
		use = append(use, lc{map[*Term]int64{a: 1}, -v.hi}, lc{map[*Term]int64{a: -1}, v.lo})
	}
	return fm(use)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// fm: Fourier-Motzkin elimination; true means contradictory.
func fm(cs []lc) bool {
	for {
		// contradictions, normalisation, duplicates
		var out []lc
		for _, c := range cs {
			if len(c.m) == 0 {
				if c.c > 0 {
					return true
				}
				continue
			}
			g := int64(0)
			for _, k := range c.m {
				g = gcd(g, k)
			}
			if g > 1 {
				m := map[*Term]int64{}
				for a, k := range c.m {
					m[a] = k / g
				}
				// sum + c/g <= 0 over integers: round up c/g
				q := c.c / g
				if c.c%g > 0 {
					q++
				}
				c = lc{m, q}
			}
			out = append(out, c)
		}
		cs = out
		if len(cs) == 0 {
			return false
		}
		// choose the variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, c := range cs {
			for a, k := range c.m {
				if k > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var vars []*Term
		for a := range pos {
			vars = append(vars, a)
		}
		for a := range neg {
			if pos[a] == 0 {
				vars = append(vars, a)
			}
		}
		if len(vars) == 0 {
			return false
		}
		sort.Slice(vars, func(i, j int) bool {
			x, y := pos[vars[i]]*neg[vars[i]], pos[vars[j]]*neg[vars[j]]
			if x != y {
				return x < y
			}
			return vars[i].ID < vars[j].ID
		})
		v := vars[0]
		if pos[v]*neg[v] > 600 {
			return false
		}
		var nx, ps, ns []lc
		for _, c := range cs {
			switch k := c.m[v]; {
			case k > 0:
				ps = append(ps, c)
			case k < 0:
				ns = append(ns, c)
			default:
				nx = append(nx, c)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, bb := p.m[v], -n.m[v]
				m := map[*Term]int64{}
				okAll := true
				comb := func(src map[*Term]int64, f int64) {
					for t, k := range src {
						x, ok := satMul(k, f)
						if !ok || x > 1<<40 || x < -(1<<40) {
							okAll = false
							return
						}
						m[t] += x
						if m[t] == 0 {
							delete(m, t)
						}
					}
				}
				comb(p.m, bb)
				comb(n.m, a)
				x, ok1 := satMul(p.c, bb)
				y, ok2 := satMul(n.c, a)
				if !okAll || !ok1 || !ok2 {
					continue // dropping a constraint is sound
				}
				nx = append(nx, lc{m, x + y})
			}
		}
		cs = nx
		if len(cs) > 1500 {
			return false
		}
	}
}
