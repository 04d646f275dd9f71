package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Positions. pos(n) is the position node n had in its list when the command started: -1 for the head sentinel, the
// length for the tail sentinel, one more than its predecessor. Loops that walk a list relate it to their counters.

func posOf(n T) T { return mk(OCall, "pos", tInt, n) }

// rposOf: the distance from the last element.
func rposOf(n T) T { return mk(OCall, "rpos", tInt, n) }

func (a *Analysis) posOn() bool { return a.root != nil && a.root.kind == "cmd" && !a.race }

// posFacts: what the way a node was reached says about its position.
func (a *Analysis) posFacts(st *State, at T, depth int) {
	n := at.args[0]
	rev := at.aux == "rpos"
	pos := posOf
	if rev {
		pos = rposOf
	}
	if n.op != OLd || n.args[0].op != OFA || depth > 8 {
		return
	}
	ad := n.args[0]
	base := ad.args[0]
	eq := func(t T, k int64) {
		if x, ok := addTerm(t, k); ok {
			a.ensure(st, t)
			st.num.le(at, x, 0)
			st.num.le(x, at, 0)
		}
	}
	if sh := shapeOf(base.typ); sh != nil {
		f := ad.aux.(int)
		switch {
		case f == sh.head && !rev || f == sh.tail && rev:
			eq(mkInt(-1), 0)
		case f == sh.head || f == sh.tail:
			if ln := initialLen(base); ln != nil {
				eq(ln, 0)
			}
		}
		return
	}
	if !isLink(ad) {
		return
	}
	nm := structOf(base.typ).Field(ad.aux.(int)).Name()
	switch k := int64(1); {
	case hasAny(nm, "prev", "pred"):
		k = -1
		fallthrough
	case hasAny(nm, "next", "succ"):
		if rev {
			k = -k
		}
		eq(pos(base), k)
	}
}

// initialLen: the length of a list when the command started.
func initialLen(l T) T {
	sh := shapeOf(l.typ)
	if sh == nil || sh.ln < 0 {
		return nil
	}
	t := structOf(l.typ).Field(sh.ln).Type()
	return mk(OLd, nil, t, mk(OFA, sh.ln, types.NewPointer(t), l))
}

// posEq: two nodes of one list are the same iff their positions are.
func (a *Analysis) posEq(st *State, l, r T, truth bool) {
	if !a.posOn() || l.isNil() || r.isNil() || !isNodeType(l.typ) || !isNodeType(r.typ) {
		return
	}
	if truth && (a.isDrained(st, l, r) || a.isDrained(st, r, l)) {
		st.flags["drained"] = true
	}
	x, y := a.rootOf(st, l), a.rootOf(st, r)
	if x == nil || x != y || l.hasStar || r.hasStar || !aNode(l) || !aNode(r) || x.op == OObj {
		return
	}
	some := false // one is a node for sure
	for _, n := range []T{l, r} {
		v, ok := a.isNil(st, n, n.typ)
		some = some || n.op != OSym || ok && !v
		if n.op == OSym && (!ok || v) && !truth {
			return
		}
	}
	if !some {
		return
	}
	for _, f := range []func(T) T{posOf, rposOf} {
		a.posCmp(st, f(l), f(r), truth)
		if st.num.bot {
			return
		}
	}
}

// isDrained: n is what follows the head (or precedes the tail) of a list now, and s its other sentinel.
func (a *Analysis) isDrained(st *State, n, s T) bool {
	if s.op != OLd || s.args[0].op != OFA {
		return false
	}
	l := s.args[0].args[0]
	sh := shapeOf(l.typ)
	if sh == nil {
		return false
	}
	c := &Ck{a: a, st: st}
	switch s.args[0].aux.(int) {
	case sh.tail:
		return c.end(l, true) == n
	case sh.head:
		return c.end(l, false) == n
	}
	return false
}

func (a *Analysis) posCmp(st *State, p, q T, truth bool) {
	if truth {
		a.eqNum(st, p, q)
		return
	}
	a.ensure(st, p)
	a.ensure(st, q)
	if st.num.provesLE(p, q, 0) {
		st.num.le(p, q, -1)
	} else if st.num.provesLE(q, p, 0) {
		st.num.le(q, p, -1)
	}
}

// apart: the number x is known to differ from want, given as a sum of numbers the zone knows.
func (c *Ck) apart(x, want T) bool {
	s, k := linForm(want)
	a, st := c.a, c.st
	a.ensure(st, x)
	if st.num.bot {
		return false
	}
	if s == "" {
		lo, hi := a.bounds(st, x)
		return lo > k || hi < k
	}
	for _, t := range append([]T(nil), st.num.atoms[1:]...) {
		s2, k2 := linForm(t)
		if s2 != s {
			continue
		}
		y, _ := addTerm(t, k-k2)
		if st.num.provesLE(x, y, -1) || st.num.provesLE(y, x, -1) {
			return true
		}
		if d, e := st.num.maxDiff(x, y), st.num.maxDiff(y, x); c.strict && (d < 8 || e < 8) && (d != 0 || e != 0) && (d < 8 && e < 8 || anyTerm(x, func(t T) bool { return t.op == OSym })) {
			return true // what is known leaves room for another number
		}
	}
	return false
}

// atLeast: lo <= x is known, for sums lo and x.
func (c *Ck) atLeast(x, lo T) bool { return c.maxSum(lo, x) <= 0 }

func sum(x, y T) T { return mk(OBin, "+", tInt, x, y) }
func sub(x, y T) T { return mk(OBin, "-", tInt, x, y) }

// numWord: the number word i was read as.
func (c *Ck) numWord(i int) T {
	for _, t := range c.st.num.atoms {
		if t != nil && t.op == OCall && c.parsed(t, i) {
			return t
		}
	}
	return nil
}

// nodeAt: node n, known to be of list l, is not the one that index p names.
func (c *Ck) notAt(n, l, p T) bool {
	ln := initialLen(l)
	if ln == nil || n.hasStar || !aNode(n) || c.a.rootOf(c.st, n) != c.a.rootOf(c.st, l) {
		return false
	}
	lo, hi := c.a.bounds(c.st, p)
	switch {
	case lo >= 0:
		return c.apart(posOf(n), p)
	case hi < 0:
		return c.apart(posOf(n), sum(p, ln)) || c.apart(rposOf(n), sub(mkInt(-1), p))
	}
	return false
}

// inRange: index p is known to name an element of l (1), or known to name none (-1). Where what is known about the
// index falls short of that by a few places, 2 and -2: the border was drawn in the wrong place.
func (c *Ck) inRange(l, p T) int {
	ln := initialLen(l)
	if ln == nil {
		return 0
	}
	c.a.ensure(c.st, ln)
	lo, hi := c.a.bounds(c.st, p)
	// above: by how much the index exceeds the border at most, below: at least
	above, below := int64(INF), int64(-INF)
	switch {
	case lo >= 0:
		// p - len
		above = c.st.num.maxDiff(p, ln)
		if d := c.st.num.maxDiff(ln, p); d != INF {
			below = -d
		}
	case hi < 0:
		// -len - 1 - p
		above = c.maxSum(sub(mkInt(-1), ln), p)
		if d := c.maxSum(p, sub(mkInt(-1), ln)); d != INF {
			below = -d
		}
	default:
		return 0
	}
	switch {
	case above <= -1:
		return 1
	case below >= 0:
		return -1
	case below != -INF && below > -8:
		return -2
	case above != INF && above < 8:
		return 2
	}
	return 0
}

// maxSum: the most by which sum x exceeds sum y.
func (c *Ck) maxSum(x, y T) int64 {
	best := int64(INF)
	for _, u := range c.like(x) {
		for _, v := range c.like(y) {
			if d := c.st.num.maxDiff(u, v); d < best {
				best = d
			}
		}
	}
	return best
}

// like: the terms the zone knows that are equal to the sum.
func (c *Ck) like(w T) (r []T) {
	s, k := linForm(w)
	if s == "" {
		return []T{mkInt(k)}
	}
	for _, t := range append([]T(nil), c.st.num.atoms[1:]...) {
		if s2, k2 := linForm(t); s2 == s {
			y, _ := addTerm(t, k-k2)
			r = append(r, y)
		}
	}
	return
}

// holder: the node whose value v is.
func holder(v T) T {
	for v != nil && v.op == OConv {
		v = v.args[0]
	}
	if v == nil || v.op != OLd || v.args[0].op != OFA || !isNodeType(v.args[0].args[0].typ) {
		return nil
	}
	return v.args[0].args[0]
}

func postLIndex(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	p := c.numWord(2)
	if scen[1] == 'A' || p == nil {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	switch c.r.kind {
	case "bulk":
		if n := holder(c.r.val); n != nil {
			c.ok("C17", "index", !c.notAt(n, l, p), "LINDEX answers the element of another position: %s", short(c.r.val))
		}
		c.ok("C17", "index-range", !oneIn(c.inRange(l, p), -1, 2), "LINDEX answers an element for an index outside the list")
	case "nilbulk":
		c.ok("C17", "index-range", !oneIn(c.inRange(l, p), 1, -2), "LINDEX answers nothing for an index inside the list")
	}
}

func postLSet(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	p := c.numWord(2)
	if scen[1] == 'A' || p == nil {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	sh := shapeOf(l.typ)
	if sh == nil {
		return
	}
	if c.isErr() {
		c.ok("C17", "index-range", !oneIn(c.inRange(l, p), 1, -2), "LSET refuses an index inside the list")
		return
	}
	c.ok("C17", "index-range", !oneIn(c.inRange(l, p), -1, 2), "LSET accepts an index outside the list")
	wrote := false
	for _, cell := range sortedCells(c.st) {
		if cell.op != OFA || !isNodeType(cell.args[0].typ) || cell.aux.(int) != sh.val {
			continue
		}
		wrote = true
		n := cell.args[0]
		c.ok("C17", "index", !c.notAt(n, l, p), "LSET changes the element of another position: %s", short(n))
		if val := c.st.heap[cell]; !opaque(val) {
			c.value("C27", "lset", val, c.word(3), "the element LSET stores")
		}
	}
	if !wrote {
		c.ok("C21", "lset", v.effect != "same", "LSET is confirmed and changes nothing")
	}
}

func postLTrim(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	p, q := c.numWord(2), c.numWord(3)
	if scen[1] == 'A' || p == nil || q == nil || c.isErr() {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	ln := initialLen(l)
	sh := shapeOf(l.typ)
	if ln == nil || sh == nil {
		return
	}
	if v.effect == "del" {
		c.ok("C17", "trim", !c.notEmpty(l, p, q), "LTRIM removes the list although the range asked for is not empty")
	}
	if v.effect == "same" || v.effect == "del" {
		return
	}
	first, last := c.end(l, true), c.end(l, false)
	if first == nil || last == nil || !aNode(first) || !aNode(last) || first.hasStar || last.hasStar {
		return
	}
	if c.a.rootOf(c.st, first) != c.a.rootOf(c.st, l) || c.a.rootOf(c.st, last) != c.a.rootOf(c.st, l) {
		return
	}
	// the first element kept and the last one
	c.a.ensure(c.st, posOf(first))
	c.a.ensure(c.st, posOf(last))
	c.strict = true
	defer func() { c.strict = false }()
	c.ok("C17", "trim", !c.offEnd(l, first, p, true), "LTRIM keeps another part of the list than asked for: it starts at %s", short(first))
	c.ok("C17", "trim", !c.offEnd(l, last, q, false), "LTRIM keeps another part of the list than asked for: it ends at %s", short(last))
	// the length fits
	now := c.size(l)
	if now == nil {
		return
	}
	forms := func(x T) (r []T) {
		for _, t := range append([]T{mkInt(0)}, c.st.num.atoms[1:]...) {
			if t.op == OCall && (t.aux == "pos" || t.aux == "rpos") {
				continue
			}
			d := c.st.num.maxDiff(x, t)
			if e := c.st.num.maxDiff(t, x); d != INF && e == -d {
				y, _ := addTerm(t, d)
				r = append(r, y)
			}
		}
		return
	}
	fs, ls, ns := forms(posOf(first)), forms(posOf(last)), append(forms(now), now)
	if len(fs) == 0 || len(ls) == 0 {
		return
	}
	for _, x := range fs {
		for _, y := range ls {
			for _, n := range ns {
				if linSum(n) == linSum(sum(sub(y, x), mkInt(1))) {
					c.ok("C17", "trim-length", true, "")
					return
				}
			}
		}
	}
	if opaque(now) {
		return
	}
	c.ok("C17", "trim-length", false, "the length LTRIM leaves (%s) is not the number of elements kept", short(now))
}

func postLPos(c *Ck, scen map[int]byte) {
	if scen[1] == 'A' || c.r.kind != "int" {
		return
	}
	c.posIs(c.r.val, nil)
}

// posIs: the number is the position of the element found.
func (c *Ck) posIs(v T, at ssa.Instruction) {
	bad, any := true, false
	for _, n := range c.pivots(2) {
		if n.hasStar || !aNode(n) {
			return
		}
		any = true
		x := posOf(n)
		c.a.ensure(c.st, x)
		c.a.ensure(c.st, v)
		d, e := c.st.num.maxDiff(x, v), c.st.num.maxDiff(v, x)
		bad = bad && (c.apart(x, v) || (d < 8 || e < 8) && (d != 0 || e != 0))
	}
	if !any {
		return
	}
	const msg = "LPOS answers another position than that of the element found"
	if at == nil {
		c.ok("C17", "position", !bad, msg)
	} else {
		c.a.rep.obl("C17", c.st, at, "position", !bad, msg)
	}
}

func sortedCells(st *State) []T {
	var l []T
	for c := range st.heap {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func sortedFacts(st *State) []T {
	var l []T
	for c := range st.facts {
		l = append(l, c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func oneIn(x int, l ...int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// pivots: the nodes whose value is known to be word i.
func (c *Ck) pivots(i int) (at []T) {
	for _, f := range sortedFacts(c.st) {
		if !c.st.facts[f] || f.op != OCall || f.aux != "bytes.Equal" {
			continue
		}
		for j := 0; j < 2; j++ {
			if n := holder(f.args[j]); n != nil && content(f.args[1-j]) == c.key(i) {
				at = append(at, n)
			}
		}
	}
	return
}

// insertedAt: LINSERT puts the new element next to one with the value of the pivot.
func (c *Ck) insertedAt(l T) {
	sh := shapeOf(l.typ)
	k, ok := c.keyword(2)
	if sh == nil || !ok {
		return
	}
	at := c.pivots(3)
	for _, cell := range sortedCells(c.st) {
		if cell.op != OFA || cell.args[0].op != OObj || !isNodeType(cell.args[0].typ) || cell.aux.(int) != sh.val {
			continue
		}
		x := cell.args[0]
		if !opaque(c.st.heap[cell]) {
			c.value("C27", "linsert", c.st.heap[cell], c.word(4), "the element LINSERT stores")
		}
		for _, n := range at {
			if n == c.oldEnd(l, false) {
				one := c.a.same(c.st, initialLen(l), mkInt(1))
				c.ok("C17", "insert", one, "LINSERT looks for the pivot from the end of the list")
			}
		}
		nb := c.field(x, sh.prev)
		if k == "before" {
			nb = c.field(x, sh.next)
		}
		if nb == nil || nb.hasStar || !aNode(nb) || len(at) == 0 {
			continue
		}
		found := false
		for _, n := range at {
			found = found || n.hasStar || c.a.sameNode(c.st, n, nb)
		}
		c.ok("C17", "insert", found, "LINSERT puts the element beside %s, not beside the pivot", short(nb))
	}
}

// unlinked: each turn of a loop that takes elements out of a list counts them.
func (a *Analysis) unlinked(st *State, at ssa.Instruction) {
	if !a.posOn() {
		return
	}
	// the nodes bypassed in this turn
	gone := map[T]int{}
	for _, c := range sortedCells(st) {
		if c.op != OFA || c.hasStar || !isLink(c) {
			continue
		}
		q := st.heap[c]
		if q == nil || q.op != OLd || q.hasStar || q.args[0].op != OFA || q.args[0].aux != c.aux || !hasAny(structOf(c.args[0].typ).Field(c.aux.(int)).Name(), "next", "succ") {
			continue
		}
		x := q.args[0].args[0]
		m, _ := mirror(x.typ, c.aux.(int))
		clean := &State{heap: map[T]T{}, slices: st.slices}
		if x.op == OSym && a.loadRaw(clean, fieldAddr(x, m), x.typ) == c.args[0] {
			gone[a.rootOf(st, x)]++
		}
	}
	for r, n := range gone {
		for _, c := range sortedCells(st) {
			if c.op != OFA || c.hasStar || shapeOf(c.args[0].typ) == nil || c.aux.(int) != shapeOf(c.args[0].typ).ln || a.rootOf(st, c) != r {
				continue
			}
			base, k := lin(st.heap[c])
			if base == nil {
				continue
			}
			s, isSite := base.aux.(*Site)
			if base.op == OLd && base.args[0] == c || base.op == OSym && isSite && strings.HasPrefix(s.tag, "cell") {
				a.rep.obl("C17", st, at, "length", int(-k) == n, fmt.Sprintf("%d element(s) leave the list and its length changes by %d", n, k))
			}
		}
	}
}

// offEnd: node n is known not to be where a range that index p begins (or ends) does.
func (c *Ck) offEnd(l, n, p T, low bool) bool {
	return c.offAt(l, posOf(n), rposOf(n), p, low)
}

func (c *Ck) offAt(l, pos, rpos, p T, low bool) bool {
	ln := initialLen(l)
	c.a.ensure(c.st, ln)
	c.a.ensure(c.st, pos)
	lo, hi := c.a.bounds(c.st, p)
	back := func(want T) bool {
		if rpos == nil {
			return false
		}
		c.a.ensure(c.st, rpos)
		return c.apart(rpos, want)
	}
	switch {
	case lo >= 0 && !low && c.st.num.provesLE(ln, p, 1):
		return back(mkInt(0)) || c.apart(pos, sub(ln, mkInt(1)))
	case lo >= 0 && (low || c.st.num.provesLE(p, ln, -1)):
		return c.apart(pos, p)
	case hi < 0 && c.atLeast(sum(p, ln), mkInt(0)):
		return c.apart(pos, sum(p, ln)) || back(sub(mkInt(-1), p))
	case hi < 0 && low && c.atLeast(mkInt(-1), sum(p, ln)):
		return c.apart(pos, mkInt(0))
	}
	return false
}

var lastPos = mk(OGhost, "lastpos", tInt)

// ranged: an element is added to the answer of LRANGE: the first one is where the range begins, each other one
// follows the one before.
func (a *Analysis) ranged(st *State, at ssa.Instruction, it T) {
	if !a.posOn() || a.root.name != "lrange" {
		return
	}
	if r := a.reply(st, it); r.kind == "bulk" && r.val != nil {
		it = r.val
	}
	n := holder(it)
	if n == nil || n.hasStar || !aNode(n) {
		return
	}
	c := &Ck{a: a, name: a.root.name, sp: specs[a.root.name], st: st, cmd: a.cmdRoot()}
	l := a.listOf(n)
	for x := n; l == nil && x != nil; {
		o, ok := st.origin[x]
		if !ok || o == x {
			break
		}
		x = o
		l = a.listOf(x)
	}
	a.ensure(st, posOf(n))
	if last, ok := st.heap[lastPos]; ok {
		next, _ := addTerm(last, 1)
		prev, _ := addTerm(last, -1)
		x := posOf(n)
		if st.flags["backwards"] || st.num.provesLE(x, prev, 0) && st.num.provesLE(prev, x, 0) {
			st.flags["backwards"] = true // collected from the end
			return
		}
		d, e := st.num.maxDiff(x, next), st.num.maxDiff(next, x)
		bad := c.apart(x, next) || (d < 8 || e < 8) && (d != 0 || e != 0)
		a.rep.obl("C17", st, at, "range", !bad, "the elements of the range are not answered one after the other")
	} else if p := c.numWord(2); p != nil {
		if l == nil {
			l = c.rangeList()
		}
		if l != nil {
			a.rep.obl("C17", st, at, "range", !c.offEnd(l, n, p, true), "the answer of LRANGE starts with another element than asked for: "+short(n))
		}
	}
	st.heap[lastPos] = posOf(n)
	st.flags["ranged"] = true
}

func (a *Analysis) listOf(n T) T {
	for n != nil && n.op == OLd && n.args[0].op == OFA {
		n = n.args[0].args[0]
		if shapeOf(n.typ) != nil {
			return n
		}
	}
	return nil
}

// rangeList: the list under the first key.
func (c *Ck) rangeList() T {
	v := c.a.view(c.st, c.key(1))
	if v == nil {
		return nil
	}
	l := c.list(v)
	if l == nil || shapeOf(l.typ) == nil {
		return nil
	}
	return l
}

func postLRange(c *Ck, scen map[int]byte) {
	q := c.numWord(3)
	if scen[1] == 'A' || q == nil || c.isErr() {
		return
	}
	l := c.list(c.kv[1])
	if l == nil || shapeOf(l.typ) == nil {
		return
	}
	if last, ok := c.st.heap[lastPos]; ok && !c.st.flags["backwards"] {
		c.ok("C17", "range", !c.offAt(l, last, nil, q, false), "the answer of LRANGE ends with another element than asked for")
	} else if p := c.numWord(2); p != nil && (c.r.kind == "nilarr" || c.emptyArr()) {
		c.ok("C17", "range", !c.notEmpty(l, p, q), "LRANGE answers nothing although the range asked for is not empty")
	}
}

// strictly: x and y are known to differ, or what is known of them leaves room for a difference.
func (c *Ck) strictly(x, y T) bool {
	c.a.ensure(c.st, x)
	c.a.ensure(c.st, y)
	d, e := c.st.num.maxDiff(x, y), c.st.num.maxDiff(y, x)
	return d < 0 || e < 0 || (d < 8 || e < 8) && (d != 0 || e != 0)
}

// asMany: a command told how many elements to take stops short of that number only when none is left.
func (c *Ck) asMany(left, all T, v *KV) {
	p := c.numWord(2)
	if p == nil || v.effect == "del" || c.st.flags["drained"] {
		return
	}
	if left != nil {
		if lo, hi := c.a.bounds(c.st, left); lo == 0 && hi == 0 {
			return
		}
	}
	k := c.a.lenTerm(c.st, c.r.val)
	c.a.ensure(c.st, k)
	if all != nil && c.a.same(c.st, k, all) {
		return
	}
	c.ok("C24", "as-many", !c.apart(k, p), "another number of elements is taken than asked for, although more are left")
}

// emptyRange: the range from index p to index q is not known to be empty, and known to be close to it.
func (c *Ck) notEmpty(l, p, q T) bool {
	ln := initialLen(l)
	c.a.ensure(c.st, ln)
	norm := func(x T) T {
		lo, hi := c.a.bounds(c.st, x)
		switch {
		case lo >= 0:
			return x
		case hi < 0:
			return sum(x, ln)
		}
		return nil
	}
	s, e := norm(p), norm(q)
	if s == nil || e == nil {
		return false
	}
	a, b, z := c.maxSum(e, s), c.maxSum(ln, s), c.maxSum(e, mkInt(0))
	if a <= -1 || b <= 0 || z <= -1 {
		return false
	}
	return a < 8 || b < 8 || z < 8
}

func (a *Analysis) same(st *State, x, y T) bool {
	a.ensure(st, x)
	a.ensure(st, y)
	return st.num.provesLE(x, y, 0) && st.num.provesLE(y, x, 0)
}
