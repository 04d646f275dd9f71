package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Zone is a difference-bound matrix over integer terms: m[i][j] bounds a_i-a_j.
// Index 0 is the constant zero. Parities are tracked beside it.
const INF = math.MaxInt64

type Zone struct {
	atoms []T // atoms[0] == nil
	idx   map[T]int
	m     [][]int64
	par   map[T]int8 // 0 even, 1 odd
	bot   bool
}

func newZone() *Zone {
	return &Zone{atoms: []T{nil}, idx: map[T]int{}, m: [][]int64{{0}}, par: map[T]int8{}}
}

func (z *Zone) clone() *Zone {
	n := &Zone{atoms: append([]T(nil), z.atoms...), idx: make(map[T]int, len(z.idx)), m: make([][]int64, len(z.m)), par: make(map[T]int8, len(z.par)), bot: z.bot}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	for k, v := range z.par {
		n.par[k] = v
	}
	w := len(z.m)
	buf := make([]int64, w*w)
	for i := range z.m {
		n.m[i] = buf[i*w : (i+1)*w : (i+1)*w]
		copy(n.m[i], z.m[i])
	}
	return n
}

func addB(a, b int64) int64 {
	if a == INF || b == INF {
		return INF
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return INF
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64 / 2
	}
	return s
}

func (z *Zone) atom(t T) int {
	if i, ok := z.idx[t]; ok {
		return i
	}
	i := len(z.atoms)
	z.atoms = append(z.atoms, t)
	z.idx[t] = i
	for r := range z.m {
		z.m[r] = append(z.m[r], INF)
	}
	row := make([]int64, i+1)
	for j := range row {
		row[j] = INF
	}
	row[i] = 0
	z.m = append(z.m, row)
	return i
}

// add a_i - a_j <= c, keeping closure.
func (z *Zone) add(i, j int, c int64) {
	if z.bot || c == INF {
		return
	}
	if i == j {
		if c < 0 {
			z.bot = true
		}
		return
	}
	// parity tightening
	pi, oki := z.parity(i)
	pj, okj := z.parity(j)
	if oki && okj {
		p := (pi ^ pj) & 1
		if int8(c&1) != p {
			c--
		}
	}
	if z.m[i][j] <= c {
		return
	}
	if z.m[j][i] != INF && addB(c, z.m[j][i]) < 0 {
		z.bot = true
		return
	}
	n := len(z.atoms)
	z.m[i][j] = c
	for p := 0; p < n; p++ {
		a := addB(z.m[p][i], c)
		if a == INF {
			continue
		}
		if a < z.m[p][j] {
			z.m[p][j] = a
		}
		for q := 0; q < n; q++ {
			b := addB(a, z.m[j][q])
			if b < z.m[p][q] {
				if p == q && b < 0 {
					z.bot = true
					return
				}
				z.m[p][q] = b
			}
		}
	}
}

func (z *Zone) parity(i int) (int8, bool) {
	if i == 0 {
		return 0, true
	}
	p, ok := z.par[z.atoms[i]]
	if !ok && z.m[i][0] != INF && z.m[0][i] != INF && z.m[i][0] == -z.m[0][i] {
		return int8(z.m[i][0] & 1), true
	}
	return p, ok
}

func (z *Zone) setParity(t T, p int8) {
	if old, ok := z.par[t]; ok {
		if old != p {
			z.bot = true
		}
		return
	}
	z.par[t] = p
	i := z.atom(t)
	n := len(z.atoms)
	for j := 0; j < n; j++ {
		if j == i {
			continue
		}
		pj, ok := z.parity(j)
		if !ok {
			continue
		}
		if c := z.m[i][j]; c != INF && int8(c&1) != (p^pj)&1 {
			z.m[i][j] = INF
			z.add(i, j, c)
			if z.m[i][j] == INF {
				z.m[i][j] = c
			}
		}
		if c := z.m[j][i]; c != INF && int8(c&1) != (p^pj)&1 {
			z.m[j][i] = INF
			z.add(j, i, c)
			if z.m[j][i] == INF {
				z.m[j][i] = c
			}
		}
	}
}

// lin splits a term into atom and constant offset.
func lin(t T) (T, int64) {
	if v, ok := t.constInt(); ok {
		return nil, v
	}
	if t.op == OBin && t.aux == "+c" {
		c, _ := t.args[1].constInt()
		a, k := lin(t.args[0])
		return a, k + c
	}
	return t, 0
}

func (z *Zone) at(t T) int {
	if t == nil {
		return 0
	}
	return z.atom(t)
}

// le assumes a <= b + c.
func (z *Zone) le(a, b T, c int64) {
	x, cx := lin(a)
	y, cy := lin(b)
	// x+cx <= y+cy+c
	k := satAdd(satAdd(c, cy), satNeg(cx))
	if k == INF {
		return
	}
	z.add(z.at(x), z.at(y), k)
	if x == nil || y == nil || k == -INF {
		return
	}
	// p+q <= p+k bounds q, where the sum does not overflow
	if q := z.rest(x, y); q != nil {
		z.add(z.at(q), 0, k)
	}
	if q := z.rest(y, x); q != nil {
		z.add(0, z.at(q), k)
	}
}

// rest: q, where t is the sum p+q of a number of each sign.
func (z *Zone) rest(t, p T) T {
	if t.op != OBin || t.aux != "+" {
		return nil
	}
	for i := 0; i < 2; i++ {
		q := t.args[1-i]
		if t.args[i] != p || q.op == OConst || q.op == OBin && q.aux == "+c" {
			continue
		}
		if z.lower(p) >= 0 && z.upper(q) <= 0 || z.lower(q) >= 0 && z.upper(p) <= 0 {
			return q
		}
	}
	return nil
}

// saturating arithmetic: INF carries no information, -INF is below every bound
func satAdd(a, b int64) int64 {
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return INF
	}
	if a < 0 && b < 0 && s >= 0 {
		return -INF
	}
	if s == math.MinInt64 {
		return -INF
	}
	return s
}

func satNeg(a int64) int64 {
	if a == math.MinInt64 {
		return INF
	}
	return -a
}

// maxDiff returns an upper bound on a-b (INF if none).
func (z *Zone) maxDiff(a, b T) int64 {
	x, cx := lin(a)
	y, cy := lin(b)
	if x == y {
		return satAdd(cx, satNeg(cy))
	}
	i, ok := 0, true
	if x != nil {
		i, ok = z.idx[x]
		if !ok {
			return INF
		}
	}
	j := 0
	if y != nil {
		j, ok = z.idx[y]
		if !ok {
			return INF
		}
	}
	d := z.m[i][j]
	if d == INF {
		return INF
	}
	return addB(d, satAdd(cx, satNeg(cy)))
}

// provesLE: a <= b + c in every concretisation.
func (z *Zone) provesLE(a, b T, c int64) bool {
	if z.bot {
		return true
	}
	d := z.maxDiff(a, b)
	return d != INF && d <= c
}

func (z *Zone) upper(a T) int64 { return z.maxDiff(a, mkInt(0)) }
func (z *Zone) lower(a T) int64 { // -INF if unknown
	d := z.maxDiff(mkInt(0), a)
	if d == INF {
		return -INF
	}
	return -d
}

func (z *Zone) forget(keep func(T) bool) {
	var ni []int
	for i, a := range z.atoms {
		if i == 0 || keep(a) {
			ni = append(ni, i)
		}
	}
	for p := range z.par {
		if !keep(p) {
			delete(z.par, p)
		}
	}
	if len(ni) == len(z.atoms) {
		return
	}
	atoms := make([]T, len(ni))
	idx := make(map[T]int, len(ni))
	m := make([][]int64, len(ni))
	for a, i := range ni {
		atoms[a] = z.atoms[i]
		if a > 0 {
			idx[atoms[a]] = a
		}
		m[a] = make([]int64, len(ni))
		for b, j := range ni {
			m[a][b] = z.m[i][j]
		}
	}
	z.atoms, z.idx, z.m = atoms, idx, m
}

// rename maps atoms; atoms whose image collides are dropped.
func (z *Zone) rename(f func(T) T) {
	seen := map[T]bool{}
	drop := map[T]bool{}
	img := map[T]T{}
	for i, a := range z.atoms {
		if i == 0 {
			continue
		}
		n := f(a)
		img[a] = n
		b, _ := lin(n)
		if n.isConst() || seen[n] || b != n {
			drop[a] = true
		}
		seen[n] = true
	}
	z.forget(func(t T) bool { return !drop[t] })
	np := map[T]int8{}
	for p, v := range z.par {
		if !drop[p] {
			if n, ok := img[p]; ok {
				np[n] = v
			}
		}
	}
	z.par = np
	z.idx = map[T]int{}
	for i, a := range z.atoms {
		if i == 0 {
			continue
		}
		z.atoms[i] = img[a]
		z.idx[img[a]] = i
	}
}

func (z *Zone) remove(t T) {
	z.forget(func(a T) bool { return a != t })
	delete(z.par, t)
}

// leq: z ⊑ o (z at least as precise).
func (z *Zone) leq(o *Zone) bool {
	if z.bot {
		return true
	}
	if o.bot {
		return false
	}
	for p, v := range o.par {
		if w, ok := z.par[p]; !ok || w != v {
			return false
		}
	}
	mp := make([]int, len(o.atoms))
	for i := 1; i < len(o.atoms); i++ {
		if k, ok := z.idx[o.atoms[i]]; ok {
			mp[i] = k
		} else {
			mp[i] = -1
		}
	}
	for i := range o.atoms {
		row := o.m[i]
		for j := range o.atoms {
			if i == j || row[j] == INF {
				continue
			}
			if mp[i] < 0 || mp[j] < 0 || z.m[mp[i]][mp[j]] > row[j] {
				return false
			}
		}
	}
	return true
}

// join (or widen: bounds that grew are dropped).
func (z *Zone) join(o *Zone, widen bool) *Zone {
	if z.bot {
		return o.clone()
	}
	if o.bot {
		return z.clone()
	}
	r := newZone()
	var common []T
	for i, a := range z.atoms {
		if i == 0 {
			continue
		}
		if _, ok := o.idx[a]; ok {
			common = append(common, a)
		}
	}
	for _, a := range common {
		r.atom(a)
	}
	n := len(r.atoms)
	zi, oi := make([]int, n), make([]int, n)
	for i := 1; i < n; i++ {
		zi[i], oi[i] = z.idx[r.atoms[i]], o.idx[r.atoms[i]]
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			x := z.m[zi[i]][zi[j]]
			y := o.m[oi[i]][oi[j]]
			if widen {
				if y > x {
					// one step to the nearest of a few thresholds
					x = INF
					if i != 0 && j != 0 {
						for _, th := range []int64{-1, 0, 1} {
							if y <= th {
								x = th
								break
							}
						}
					} else if j == 0 && y <= 0 {
						x = 0
					} else if i == 0 && y <= 1 { // lower bounds -1,0,1
						for _, th := range []int64{-5, -4, -3, -2, -1, 0, 1} {
							if y <= th {
								x = th
								break
							}
						}
					}
				}
				r.m[i][j] = x
			} else {
				if y > x {
					x = y
				}
				r.m[i][j] = x
			}
		}
	}
	for p, v := range z.par {
		if w, ok := o.par[p]; ok && w == v {
			r.par[p] = v
		}
	}
	// max of closed matrices is closed; after widening close once (bounds only shrink)
	if widen {
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if r.m[i][k] == INF {
					continue
				}
				for j := 0; j < n; j++ {
					s := addB(r.m[i][k], r.m[k][j])
					if s < r.m[i][j] {
						r.m[i][j] = s
					}
				}
			}
		}
	}
	return r
}

func (z *Zone) String() string {
	if z.bot {
		return "⊥"
	}
	var s []string
	for i := range z.atoms {
		for j := range z.atoms {
			if i == j || z.m[i][j] == INF {
				continue
			}
			switch {
			case j == 0:
				s = append(s, fmt.Sprintf("%v<=%d", z.atoms[i], z.m[i][j]))
			case i == 0:
				s = append(s, fmt.Sprintf("%v>=%d", z.atoms[j], -z.m[i][j]))
			default:
				s = append(s, fmt.Sprintf("%v-%v<=%d", z.atoms[i], z.atoms[j], z.m[i][j]))
			}
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// dup adds atom t equal to v.
func (z *Zone) dup(t, v T) {
	z.remove(t)
	x, c := lin(v)
	s := z.at(x)
	i := z.atom(t)
	// t = x + c
	for j := range z.atoms {
		if j == i {
			continue
		}
		z.m[i][j] = addB(z.m[s][j], c)
		z.m[j][i] = addB(z.m[j][s], -c)
	}
	z.m[i][s], z.m[s][i] = c, -c
}
