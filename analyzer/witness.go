package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The witness analysis follows one arbitrary element w of sets and fields of hashes, different from every word of the
// command. Which maps hold w is part of the (partitioned) state. A loop over a map meets w exactly once when the map
// holds it from the start to the end of the loop, and never otherwise; what is done for other elements does not
// concern w. A slice carries the sequence of w's appearances among its elements ("k" for w itself, "v" for the value
// of the field w, "?" when unknown) and the position of the appearance, when there is one. As w is arbitrary, what
// holds for w holds for every element.

func wTerm() T { return mk(ORoot, "w", tStr) }

func wposOf(s T) T { return mk(OCall, "wpos", tInt, s) }

// w0: whether a map that existed before the command held w then.
func w0Cell(m T) T { return mk(OGhost, "w0", types.Typ[types.Bool], m) }

func (a *Analysis) noteW0(st *State, m, k T, present bool) {
	if a.witness && k == wTerm() && m.op != OObj && m.op != OStar {
		if _, ok := st.heap[w0Cell(m)]; !ok {
			st.heap[w0Cell(m)] = mkBool(present)
		}
	}
}

// otherKey: k is known to differ from r in the witness analysis.
func (a *Analysis) otherKey(r, k T) bool {
	w := wTerm()
	return a.witness && (r == w) != (k == w)
}

// wmark: what an element of a slice is in terms of w.
func (a *Analysis) wmark(st *State, e T) string {
	w := wTerm()
	if e == nil || e.isNil() {
		return ""
	}
	if e.op == OIface {
		e = e.args[0]
	}
	if e.isNil() {
		return ""
	}
	if p, ok := typUnder(e).(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok || s.NumFields() == 0 {
			return ""
		}
		f := s.Field(0).Type()
		if !isByteSlice(f) && !isString(f) {
			return ""
		}
		if e.op != OObj {
			return "?"
		}
		return a.wmark(st, a.loadRaw(st, mk(OFA, 0, types.NewPointer(f), e), f))
	}
	for e.op == OConv && (e.aux == "str" || e.aux == "bytes") {
		e = e.args[0]
	}
	switch {
	case e == w:
		return "k"
	case e.op == OCall && e.aux == "mapval" && e.args[1] == w:
		return "v"
	case anyTerm(e, func(t T) bool { return t == w }):
		return "?"
	case e.isConst(), e.op == ORoot:
		return ""
	case e.op == OCall && e.aux == "mapval":
		return a.wmark(st, e.args[1])
	case e.op == OLd && e.args[0].op == OIA:
		if a.wOf(st, e.args[0].args[0]) == "?" {
			return "?"
		}
		return ""
	case e.op == OLd:
		return ""
	case e.op == OSym:
		if s, ok := e.aux.(*Site); ok {
			if _, ok := s.instr.(*ssa.Next); ok {
				return ""
			}
		}
	}
	if e.typ != nil && !isString(e.typ) && !isByteSlice(e.typ) {
		return ""
	}
	return "?"
}

// wOf: the appearances of w in a slice.
func (a *Analysis) wOf(st *State, v T) string {
	if v.isNil() {
		return ""
	}
	if inf := st.slices[v]; inf != nil {
		if !inf.wok {
			return "?"
		}
		return inf.w
	}
	switch {
	case v.op == ORoot:
		return ""
	case v.op == OSub && v.args[0].op == ORoot:
		return ""
	case v.op == OSub && v.args[0].op == OObj:
		if es, ok := a.elems(st, v); ok {
			s := ""
			for _, e := range es {
				s += a.wmark(st, e)
			}
			return wcap(s)
		}
	}
	return "?"
}

func wcap(s string) string {
	if strings.Contains(s, "?") || len(s) > 3 {
		return "?"
	}
	return s
}

// wAppend: the appearances of w in append(base, add...); t is the result.
func (a *Analysis) wAppend(st *State, n *SliceInfo, base, add, t T) {
	if !a.witness {
		return
	}
	b, d := a.wOf(st, base), a.wOf(st, add)
	n.wok = true
	n.w = wcap(b + d)
	if len(n.w) != 1 || n.w == "?" {
		return
	}
	var p T
	if b != "" {
		n.welem = a.wElem(st, base)
		p = wposOf(base)
	} else {
		n.welem = a.wElem(st, add)
		q := a.wPosIn(st, add)
		if q == nil {
			n.w = "?"
			return
		}
		p = a.addLens(st, a.lenTerm(st, base), q)
	}
	a.ensure(st, p)
	st.num.dup(wposOf(t), p)
}

func (a *Analysis) wElem(st *State, v T) T {
	if inf := st.slices[v]; inf != nil && inf.wok {
		return inf.welem
	}
	if es, ok := a.elems(st, v); ok {
		for _, e := range es {
			if m := a.wmark(st, e); m == "k" || m == "v" {
				return e
			}
		}
	}
	return nil
}

func (a *Analysis) wPosIn(st *State, v T) T {
	if inf := st.slices[v]; inf != nil && inf.wok {
		return wposOf(v)
	}
	if es, ok := a.elems(st, v); ok {
		for i, e := range es {
			if m := a.wmark(st, e); m == "k" || m == "v" {
				return mkInt(int64(i))
			}
		}
	}
	return nil
}

// wLoad: reading element i of a slice that holds w meets w or another element. The answers are states in which the
// value read is set.
func (a *Analysis) wLoad(st *State, x *ssa.UnOp, addr T) []*State {
	if !a.witness || addr.op != OIA {
		return nil
	}
	s := addr.args[0]
	inf := st.slices[s]
	if inf == nil || !inf.wok || len(inf.w) != 1 || inf.w == "?" || inf.hasSeq {
		return nil
	}
	if _, ok := st.heap[addr]; ok {
		return nil
	}
	p, i := wposOf(s), addr.args[1]
	a.ensure(st, p)
	a.ensure(st, i)
	st.num.le(mkInt(0), p, 0)
	st.num.le(p, a.lenTerm(st, s), -1)
	e := inf.welem
	for e != nil && e.op == OIface {
		e = e.args[0]
	}
	if e == nil || e.op == OObj || e.op == OStar {
		e = nil
	} else {
		e = inf.welem
	}
	lo, hi := st.clone(), st.clone()
	st.num.le(p, i, 0)
	st.num.le(i, p, 0)
	lo.num.le(i, p, -1)
	hi.num.le(p, i, -1)
	if e == nil {
		e = a.sym(st, x, "wel", x.Type())
	}
	a.set(st, x, e)
	for _, s := range []*State{lo, hi} {
		a.set(s, x, a.loadRaw(s, addr, x.Type()))
	}
	var out []*State
	for _, s := range []*State{st, lo, hi} {
		if !s.num.bot {
			out = append(out, s)
		}
	}
	return out
}

// wStore: writing element i of a slice.
func (a *Analysis) wStore(st *State, n *SliceInfo, addr, v T) {
	if !a.witness || !n.wok {
		return
	}
	s, i := addr.args[0], addr.args[1]
	m := a.wmark(st, v)
	a.ensure(st, i)
	switch {
	case n.w == "?":
	case m == "" && n.w == "":
	case m == "" && len(n.w) == 1:
		p := wposOf(s)
		a.ensure(st, p)
		if !st.num.provesLE(i, p, -1) && !st.num.provesLE(p, i, -1) {
			n.w = "?"
		}
	case len(m) == 1 && m != "?" && n.w == "":
		n.w, n.welem = m, v
		st.num.dup(wposOf(s), i)
	default:
		n.w = "?"
	}
}

// wNext: the ways a loop over a map can go on, as far as w is concerned. handled is false when the loop is to be
// treated in the ordinary way.
func (a *Analysis) wNext(st *State, it, base T, kt, vt types.Type) (sts []*State) {
	ws := mk(OGhost, "wstart", types.Typ[types.Bool], it)
	if _, ok := st.heap[ws]; ok {
		return []*State{st}
	}
	for _, r := range a.member(st, base, wTerm(), vt) {
		r.st.heap[ws] = mkBool(r.ok)
		sts = append(sts, r.st)
	}
	return sts
}

// ---------- what the commands must do with w ----------

// wGot: the appearances of w in the reply.
func (c *Ck) wGot() string {
	switch c.r.kind {
	case "nilarr", "nilbulk", "int", "str":
		return ""
	case "arr":
		return c.a.wOf(c.st, c.r.val)
	case "bulk":
		return c.a.wmark(c.st, c.r.val)
	}
	return "?"
}

// initialTable: the map a container held when the command started.
func initialTable(p T) T {
	if p == nil {
		return nil
	}
	pt, ok := typUnder(p).(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if t := s.Field(i).Type(); isMap(t) {
			return mk(OLd, nil, t, mk(OFA, i, types.NewPointer(t), p))
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// wBefore: whether w was in the container under key i when the command started: 'y', 'n' or '?'.
func (c *Ck) wBefore(i int) byte {
	v := c.kv[i]
	if v == nil {
		return '?'
	}
	switch v.status {
	case "A", "X":
		return 'n'
	case "V":
		m := initialTable(c.old(v.key, ""))
		if m == nil {
			return '?'
		}
		if b, ok := c.st.heap[w0Cell(m)]; ok {
			if t, _ := b.constBool(); t {
				return 'y'
			}
			return 'n'
		}
	}
	return '?'
}

// wIn: whether the map holds w now.
func (c *Ck) wIn(m T) byte {
	if m == nil {
		return '?'
	}
	if r := c.st.mem[inTerm(m, wTerm())]; r != nil {
		if r.present {
			return 'y'
		}
		return 'n'
	}
	if m.op == OObj && !c.a.opaqueObj(c.st, m) {
		return 'n'
	}
	return '?'
}

// wAfter: whether w is in the container left under key i.
func (c *Ck) wAfter(i int) byte {
	v := c.kv[i]
	switch {
	case v == nil || v.rec.val != nil && v.rec.val.hasStar:
		return '?'
	case v.rec.cur == 'D':
		return 'n'
	case v.rec.cur == 0 && (v.status == "A" || v.status == "X"):
		return 'n'
	}
	if v.rec.cur == 'S' && v.rec.val != nil && v.rec.val.op == OSV {
		// the set of another key
		return '?'
	}
	return c.wIn(c.table(c.cur(v)))
}

func (c *Ck) witness() {
	if c.isErr() || c.r.kind == "?" || c.st.flags["badarg"] {
		return
	}
	name := c.name
	switch name {
	case "smembers", "hkeys", "hvals", "hgetall":
		want := map[string]string{"smembers": "k", "hkeys": "k", "hvals": "v", "hgetall": "kv"}[name]
		what := map[string]string{"smembers": "member", "hkeys": "field", "hvals": "value", "hgetall": "field with its value"}[name]
		got := c.wGot()
		if got == "?" {
			return
		}
		switch c.wBefore(1) {
		case 'y':
			c.ok("C22", "whole", got == want, "a %s of the collection %s", what, wSay(got, want))
		case 'n':
			c.ok("C22", "whole", got == "", "the reply has a %s that the collection does not have", what)
		default:
			c.ok("C22", "whole", got != "" || c.kv[1].status != "V", "a %s of the collection may be missing from the reply", what)
		}
	case "sinter", "sunion", "sdiff":
		if c.n > 0 {
			c.wAlgebra(1, c.wGot(), "the reply")
		}
		for i := 1; i < c.n; i++ {
			c.wFrame(i)
		}
	case "sinterstore", "sunionstore", "sdiffstore":
		if c.n > 0 {
			for i := 2; i < c.n; i++ {
				if _, ok := c.ali[i]; !ok {
					c.wFrame(i)
				}
			}
			switch c.wAfter(1) {
			case 'y':
				c.wAlgebra(2, "k", "the set stored")
			case 'n':
				c.wAlgebra(2, "", "the set stored")
			}
			if c.kv[1].rec.cur == 0 && c.kv[1].status != "A" && c.kv[1].status != "X" {
				c.ok("C22", "stored", c.kv[1].effect != "mod", "the old value at the destination is modified")
			}
		}
	case "sadd", "srem", "smove", "hset", "hmset", "hsetnx", "hdel", "hincrby", "hincrbyfloat", "srandmember", "hrandfield", "scard", "sismember", "hget", "hmget", "hlen", "hexists", "hstrlen":
		c.wFrame(1)
		if name == "smove" {
			c.wFrame(2)
		}
		if got := c.wGot(); (name == "srandmember" || name == "hrandfield") && got != "?" {
			if c.wBefore(1) == 'n' {
				c.ok("C22", "random", got == "", "an element is answered that the collection does not have")
			}
			n := c.numWord(2)
			if strings.Count(got, "k") > 1 && (n == nil || c.atLeast(n, mkInt(1))) {
				c.ok("C22", "random", false, "an element is answered twice")
			}
			if strings.Contains(got, "v") {
				c.ok("C22", "random", strings.HasPrefix(got, "kv"), "a value is not answered next to its field")
			}
		}
	case "spop":
		got, b, e := c.wGot(), c.wBefore(1), c.wAfter(1)
		if got == "?" {
			return
		}
		if got != "" {
			c.ok("C22", "popped", e != 'y', "a member is answered and stays in the set")
			c.ok("C22", "popped", b != 'n' && got == "k", "a member is answered that was not in the set, or twice")
		} else if b == 'y' && c.kv[1].rec.cur != 'D' {
			c.ok("C22", "popped", e != 'n', "a member is removed and not answered")
		}
	}
}

func wSay(got, want string) string {
	switch {
	case got == "":
		return "may be missing from the reply"
	case len(got) > len(want):
		return "is answered more than once"
	}
	return "is not answered as it should"
}

// wFrame: w, which the command does not name, stays where it was.
func (c *Ck) wFrame(i int) {
	v := c.kv[i]
	if v == nil || v.status != "V" || v.rec.cur == 'D' {
		return
	}
	m := initialTable(c.old(v.key, ""))
	cur := c.table(c.cur(v))
	if m == nil || cur == nil || v.rec.cur == 'S' && v.rec.val != nil && v.rec.val.op == OSV {
		return
	}
	b, e := c.wBefore(i), c.wIn(cur)
	if cur != m && cur.op != OObj {
		return
	}
	switch {
	case b == 'n':
		c.ok("C22", "others", e != 'y', "an element that the command does not name is added")
	case b == 'y':
		c.ok("C22", "others", e != 'n', "an element that the command does not name is lost")
	case cur != m:
		c.ok("C22", "others", e != 'n', "the elements that the command does not name are lost")
	}
	if b == 'y' && e == 'y' {
		if r := c.st.mem[inTerm(cur, wTerm())]; r != nil && r.val != nil && r.val.typ != nil && isByteSlice(r.val.typ) {
			mk := c.a.wmark(c.st, r.val)
			c.ok("C22", "others", mk == "v" || mk == "?", "the value of a field that the command does not name is changed")
		}
	}
}

// wAlgebra compares the membership of w in the result with what the sets from word `from` on say.
func (c *Ck) wAlgebra(from int, got string, what string) {
	if got == "?" {
		return
	}
	var opts [][]bool
	for i := from; i < c.n; i++ {
		switch c.wBefore(i) {
		case 'y':
			opts = append(opts, []bool{true})
		case 'n':
			opts = append(opts, []bool{false})
		default:
			opts = append(opts, []bool{true, false})
		}
	}
	bad := ""
	cur := make([]bool, len(opts))
	var rec func(j int)
	rec = func(j int) {
		if j < len(opts) {
			for _, b := range opts[j] {
				cur[j] = b
				rec(j + 1)
			}
			return
		}
		in := cur[0]
		for _, b := range cur[1:] {
			switch {
			case strings.HasPrefix(c.name, "sinter"):
				in = in && b
			case strings.HasPrefix(c.name, "sunion"):
				in = in || b
			default:
				in = in && !b
			}
		}
		switch {
		case in && got == "":
			bad = "an element of the result is missing from " + what
		case !in && got != "":
			bad = what + " has an element that does not belong to the result"
		case in && got != "k":
			bad = "an element is answered more than once"
		}
	}
	rec(0)
	c.ok("C22", "algebra", bad == "", "%s", bad)
}
