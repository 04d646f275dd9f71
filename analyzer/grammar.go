package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is known about the words of a request is kept in flags:
//
//	parsed:i  word i was converted to a number
//	numok:i   and the conversion is known to have succeeded
//	cmp:i     word i was compared with a keyword
//	opt:i=k   and is known to be keyword k

// wordIdx: t is word i of the request, as bytes or string, possibly in another case.
func (a *Analysis) wordIdx(t T) (int, bool) {
	if a.root == nil || a.root.kind != "cmd" {
		return 0, false
	}
	for t != nil {
		switch {
		case t.op == OConv && len(t.args) == 1:
			t = t.args[0]
			continue
		case t.op == OCall && len(t.args) == 1 && (t.aux == "strings.ToLower" || t.aux == "strings.ToUpper" || t.aux == "bytes.ToLower" || t.aux == "bytes.ToUpper"):
			t = t.args[0]
			continue
		}
		break
	}
	if t == nil || t.op != OLd || t.args[0].op != OIA {
		return 0, false
	}
	b := t.args[0].args[0]
	if b.op != ORoot || b.aux != "cmd" {
		return 0, false
	}
	i, ok := t.args[0].args[1].constInt()
	return int(i), ok
}

// onParse: a number is read from a text.
func (a *Analysis) onParse(st *State, at ssa.Instruction, name string, args []T) {
	if a.root == nil || a.root.kind != "cmd" || !strings.HasPrefix(name, "strconv.") {
		return
	}
	bits := int64(64)
	switch name {
	case "strconv.Atoi":
	case "strconv.ParseInt", "strconv.ParseUint":
		if b, ok := args[1].constInt(); ok {
			a.rep.obl("C19", st, at, "number-base", b == 10, fmt.Sprintf("a number is read to base %d instead of 10", b))
		}
		bits, _ = args[2].constInt()
	case "strconv.ParseFloat":
		bits, _ = args[1].constInt()
	default:
		return
	}
	a.rep.obl("C19", st, at, "number-size", bits == 64 || bits == 0, fmt.Sprintf("a number is read with %d bits, so well-formed numbers are refused or changed", bits))
	if i, ok := a.wordIdx(args[0]); ok {
		st.flags[fmt.Sprintf("parsed:%d", i)] = true
		return
	}
	x := content(args[0])
	for x != nil && x.op == OConv && len(x.args) == 1 {
		x = x.args[0]
	}
	loose := false
	switch {
	case x == nil:
	case x.op == OCall && len(x.args) > 0:
		n, _ := x.aux.(string)
		loose = strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "strings.Replace") || strings.HasPrefix(n, "bytes.Replace")
		x = x.args[0]
	case x.op == OSub:
		loose = true
		x = x.args[0]
	}
	if loose {
		if _, ok := a.wordIdx(x); ok {
			a.rep.obl("C19", st, at, "number-word", false, "only a part of the word is read as the number, so a malformed word is accepted")
		}
	}
}

// wordFact: a branch depends on a word of the request.
func (a *Analysis) wordFact(st *State, f T, truth bool) {
	if a.root == nil || a.root.kind != "cmd" {
		return
	}
	if isParseErrFact(f) {
		if i, ok := a.wordIdx(f.args[0].args[0]); ok && truth {
			st.flags[fmt.Sprintf("numok:%d", i)] = true
		}
		return
	}
	var l, r T
	switch {
	case f.op == OBin && f.aux == "==":
		l, r = f.args[0], f.args[1]
	case f.op == OCall && len(f.args) == 2 && (f.aux == "strings.EqualFold" || f.aux == "bytes.EqualFold" || f.aux == "bytes.Equal"):
		l, r = content(f.args[0]), content(f.args[1])
	default:
		return
	}
	for j := 0; j < 2; j++ {
		if s, ok := r.constStr(); ok {
			if i, ok := a.wordIdx(l); ok {
				st.flags[fmt.Sprintf("cmp:%d", i)] = true
				if truth {
					st.flags[fmt.Sprintf("opt:%d=%s", i, strings.ToLower(s))] = true
				}
			}
		}
		l, r = r, l
	}
}

// signs: once a command tells negative numbers from others it keeps the two cases apart.
func (a *Analysis) signs(st *State, l, r T) {
	if !a.posOn() || st.num.bot {
		return
	}
	for j := 0; j < 2; j++ {
		x, _ := lin(l)
		if x != nil && x.op == OBin && x.aux == "+" {
			for _, y := range x.args {
				if y.op == OCall {
					x = y
				}
			}
		}
		if x != nil && x.op == OConv && len(x.args) == 1 {
			x = x.args[0]
		}
		if _, ok := r.constInt(); ok && x != nil && x.op == OCall && len(x.args) > 0 && (x.aux == "strconv.Atoi#0" || x.aux == "strconv.ParseInt#0") {
			if i, ok := a.wordIdx(x.args[0]); ok {
				lo, hi := a.bounds(st, x)
				if lo >= 0 {
					st.flags[fmt.Sprintf("sgn:%d=+", i)] = true
				} else if hi < 0 {
					st.flags[fmt.Sprintf("sgn:%d=-", i)] = true
				}
			}
		}
		// and numbers below the length of the list from others
		if y, _ := lin(r); y != nil && y.op == OLd && y.args[0].op == OFA && x != nil && x.op == OCall && len(x.args) > 0 {
			if sh := shapeOf(y.args[0].args[0].typ); sh != nil && y.args[0].aux == sh.ln {
				if i, ok := a.wordIdx(x.args[0]); ok {
					if st.num.provesLE(l, r, -1) {
						st.flags[fmt.Sprintf("rng:%d=<", i)] = true
					} else if st.num.provesLE(r, l, 0) {
						st.flags[fmt.Sprintf("rng:%d=>", i)] = true
					}
				}
			}
		}
		l, r = r, l
	}
}

// legal: yes, no, open (not established by the command itself), or not known to the analysis.
type legal int

const (
	lYes legal = iota
	lOpen
	lDunno
	lNo
)

func (l legal) and(m legal) legal {
	if m > l {
		return m
	}
	return l
}

// keyword: the keyword word i is known to be.
func (c *Ck) keyword(i int) (string, bool) {
	p := fmt.Sprintf("opt:%d=", i)
	for f, v := range c.st.flags {
		if v && strings.HasPrefix(f, p) {
			return f[len(p):], true
		}
	}
	return "", false
}

func (c *Ck) oneOf(i int, set ...string) legal {
	k, ok := c.keyword(i)
	if !ok {
		if c.st.flags[fmt.Sprintf("cmp:%d", i)] {
			return lNo
		}
		return lDunno
	}
	for _, s := range set {
		if s == k {
			return lYes
		}
	}
	return lNo
}

// numIn: word i is a number within the limits.
func (c *Ck) numIn(i int, lo, hi int64) legal {
	if !c.st.flags[fmt.Sprintf("parsed:%d", i)] {
		return lDunno
	}
	if !c.st.flags[fmt.Sprintf("numok:%d", i)] {
		return lNo
	}
	l, u, ok := c.numBounds(i)
	switch {
	case !ok:
		if lo == -INF && hi == INF {
			return lYes
		}
		return lDunno
	case l >= lo && u <= hi:
		return lYes
	case u < lo || l > hi:
		return lNo
	}
	return lOpen
}

func (c *Ck) numBounds(i int) (int64, int64, bool) {
	l, u, ok := int64(-INF), int64(INF), false
	for _, n := range []string{"strconv.Atoi#0", "strconv.ParseInt#0"} {
		for _, t := range c.st.num.atoms {
			if t != nil && t.op == OCall && t.aux == n && c.parsed(t, i) {
				a, b := c.a.bounds(c.st, t)
				if a > l {
					l = a
				}
				if b < u {
					u = b
				}
				ok = true
			}
		}
	}
	return l, u, ok
}

// grammar: is the request, with a number of words the command takes, well-formed beyond the types of its keys?
func (c *Ck) grammar() legal {
	switch c.name {
	case "lpop", "rpop", "spop":
		if c.words() == 2 {
			return lYes
		}
		return c.numIn(2, 1, INF)
	case "setrange":
		l := c.numIn(2, 0, INF)
		if c.isErr() && l == lYes {
			// the limit of a value may be exceeded
			if _, hi, ok := c.numBounds(2); !ok || hi > 1<<20 {
				return lDunno
			}
		}
		return l
	case "linsert":
		return c.oneOf(2, "before", "after")
	case "lmove":
		return c.oneOf(3, "left", "right").and(c.oneOf(4, "left", "right"))
	case "expire":
		l := c.numIn(2, -INF, INF)
		if c.words() == 4 {
			l = l.and(c.oneOf(3, "nx", "xx", "gt", "lt", ""))
		} else if c.words() != 3 {
			return lDunno
		}
		return l
	case "hrandfield", "srandmember":
		l := lYes
		switch c.words() {
		case 2:
		case 3:
			l = c.numIn(2, -INF, INF)
		case 4:
			l = c.numIn(2, -INF, INF).and(c.oneOf(3, "withvalues"))
		default:
			return lDunno
		}
		if c.isErr() && c.words() > 2 {
			// very long answers may be refused
			if lo, _, ok := c.numBounds(2); l == lYes && (!ok || lo < -1024) {
				return lDunno
			}
		}
		return l
	case "lpos":
		l := lYes
		if c.n == 0 {
			return lDunno
		}
		for i := 3; i+1 < c.n; i += 2 {
			l = l.and(c.oneOf(i, "rank", "count", "maxlen"))
			switch k, _ := c.keyword(i); k {
			case "rank":
				m := c.numIn(i+1, 1, INF)
				if n := c.numIn(i+1, -INF, -1); n < m {
					m = n
				}
				if m == lOpen {
					m = lDunno // zero may be excluded without a range
				}
				l = l.and(m)
			case "count", "maxlen":
				l = l.and(c.numIn(i+1, 0, INF))
			}
		}
		return l
	case "lset":
		if c.isErr() {
			return lDunno
		}
		return c.numIn(2, -INF, INF)
	case "set":
		if c.n == 0 {
			return lDunno
		}
		_, l := c.setOptions()
		return l
	}
	return lDunno
}

// words: the number of words on this path, 0 if it is not fixed.
func (c *Ck) words() int {
	if c.n > 0 {
		return c.n
	}
	lo, hi := c.a.bounds(c.st, mkLen(c.cmd))
	if lo == hi {
		return int(lo)
	}
	return 0
}

// setOptions: the options of a SET and where their numbers are.
func (c *Ck) setOptions() (map[string]int, legal) {
	o := map[string]int{}
	l := lYes
	times := 0
	for i := 3; i < c.n; i++ {
		l = l.and(c.oneOf(i, "nx", "xx", "get", "keepttl", "ex", "px", "exat", "pxat"))
		k, ok := c.keyword(i)
		if !ok {
			return o, l
		}
		o[k] = i
		switch k {
		case "keepttl":
			times++
		case "ex", "px", "exat", "pxat":
			times++
			i++
			if i >= c.n {
				return o, lNo
			}
			o[k] = i
			l = l.and(c.numIn(i, -INF, INF))
		}
	}
	if times > 1 || has(o, "nx") && has(o, "xx") {
		l = lNo
	}
	return o, l
}

func has(m map[string]int, k string) bool {
	_, ok := m[k]
	return ok
}

// wellFormed: what is malformed is refused, what is well-formed is not.
func (c *Ck) wellFormed(badAr bool) {
	st := c.st
	if badAr || c.r.kind == "?" || c.a.race {
		return
	}
	if !c.isErr() {
		for i := 1; i < 12; i++ {
			if st.flags[fmt.Sprintf("parsed:%d", i)] {
				c.ok("C19", "number-checked", st.flags[fmt.Sprintf("numok:%d", i)] || st.flags["badarg"], "word %d is used as a number without a check that it is one", i)
			}
		}
		g := c.grammar()
		if g != lDunno {
			c.ok("C19", "well-formed", g == lYes, "a request whose options or numbers are not ones the command takes is accepted")
		}
		return
	}
	if st.flags["badarg"] || c.wrongKey() || len(c.kv) == 0 {
		return
	}
	g := c.grammar()
	if g == lYes {
		c.ok("C19", "refusal", false, "a well-formed request on a key of the right type is refused")
	}
}

// wrongKey: a key of the command has another type, or is missing where that is an error.
func (c *Ck) wrongKey() bool {
	sp := c.sp
	for i, v := range c.kv {
		if (v.status == "V" || v.status == "U") && v.typ != "" {
			if c.typed(i) && v.typ != sp.typ && !strings.HasPrefix(v.typ, sp.typ) {
				return true
			}
			if c.name == "set" && v.typ != "str" {
				return true
			}
		}
		if sp.miss == "err" && i == 1 && (v.status == "A" || v.status == "X") {
			return true
		}
	}
	return false
}
