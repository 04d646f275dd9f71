package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parseRules follows the goroutine that turns the bytes of a connection into requests.
type parseRules struct{ a *Analysis }

func (a *Analysis) srvParse(P *Program) []*Root {
	var fn *ssa.Function
	for _, f := range P.goTargets("resp") {
		if a.reaches(f, func(i ssa.Instruction) bool { _, ok := i.(*ssa.Send); return ok }) {
			fn = f
		}
	}
	if fn == nil {
		return nil
	}
	h := &parseRules{a}
	a.on.closeCh, a.on.send, a.on.read, a.on.fact, a.on.num = h.closeCh, h.send, h.read, h.fact, h.num
	a.on.finish, a.on.field, a.on.global, a.on.goStmt, a.on.ext = h.finish, h.field, a.globalWrite, h.goStmt, h.ext
	return []*Root{a.runFn(fn, "aux", "parse", nil)}
}

func (h *parseRules) closeCh(st *State, at ssa.Instruction, ch T) {
	if !isRespChan(ch) {
		return
	}
	h.a.rep.obl("C10", st, at, "close-twice", !st.flags["closed"], "the channel of requests is closed twice")
	st.flags["closed"] = true
}

func (h *parseRules) goStmt(st *State, at *ssa.Go, fn T, args []T) {
	var f *ssa.Function
	if fn != nil {
		f, _ = fn.aux.(*ssa.Function)
	}
	bad := f != nil && h.a.reaches(f, func(i ssa.Instruction) bool { _, ok := i.(*ssa.Send); return ok })
	h.a.rep.obl("C23", st, at, "in-order", !bad, "requests of one connection are handed over by several goroutines")
}

// sentKind: "err" for a message with an error, "data" for one with a request.
func (h *parseRules) sentKind(st *State, v T) (kind string, data T) {
	s := structOf(v.typ)
	if s == nil {
		return "", nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x := h.a.loadRaw(st, mk(OFA, i, types.NewPointer(f.Type()), v), f.Type())
		if f.Type().String() == "error" {
			if !x.isNil() && kind == "" {
				kind = "err"
			}
		} else if !x.isNil() {
			data = x
		}
	}
	if data != nil {
		kind = "data"
	}
	return
}

func (h *parseRules) send(st *State, at ssa.Instruction, ch, v T) {
	a := h.a
	if !isRespChan(ch) {
		return
	}
	a.rep.obl("C10", st, at, "send-on-closed", !st.flags["closed"], "a request is sent on the closed channel")
	a.rep.obl("C23", st, at, "send-after-error", !st.flags["errsent"], "something is sent after an error was reported: nobody receives it any more")
	kind, data := h.sentKind(st, v)
	delete(st.flags, "elem")
	switch kind {
	case "err":
		st.flags["errsent"] = true
		h.refused(st, at)
	case "data":
		a.rep.obl("C23", st, at, "truncated", !st.flags["readerr"], "a request is handed over although reading it failed")
		a.rep.obl("C23", st, at, "malformed", !st.flags["badarg"], "a request with a malformed number is handed over")
		a.rep.obl("C23", st, at, "terminator", !st.flags["needcr"] && !st.flags["needlf"], "a bulk string is handed over without checking the CR LF behind it")
		if data.op == OIface && strings.HasSuffix(data.aux.(string), "resp.RedisArray") {
			p := data.args[0]
			if p.op == OObj || p.op == OLd || p.op == OSym {
				h.complete(st, at, p)
				st.heap[mk(OGhost, "sent", tBool, p)] = mkBool(true)
			}
		}
	}
}

// exact: a bulk string has the announced length.
func (h *parseRules) exact(st *State, at ssa.Instruction, v T) {
	a := h.a
	ln := a.lenTerm(st, v)
	a.ensure(st, ln)
	related, equal := false, false
	for cell, n := range st.heap {
		if n == nil || n.isConst() || !isIntTerm(n) || cell.op != OFA {
			continue
		}
		a.ensure(st, n)
		if st.num.provesLE(ln, n, 0) && st.num.provesLE(n, ln, 0) {
			equal = true
		}
		if st.num.maxDiff(ln, n) < 8 && st.num.maxDiff(n, ln) < 8 && st.num.upper(n) > 8 {
			related = true
		}
	}
	if related || equal {
		a.rep.obl("C23", st, at, "bulk-length", equal, "a bulk string is handed over with another length than announced")
	}
}

// complete: an array handed over has the announced number of elements.
func (h *parseRules) complete(st *State, at ssa.Instruction, p T) {
	a := h.a
	s := structOf(p.typ)
	if s == nil || s.NumFields() == 0 {
		return
	}
	d := a.loadRaw(st, mk(OFA, 0, types.NewPointer(s.Field(0).Type()), p), s.Field(0).Type())
	if d.isNil() {
		return
	}
	ln := a.lenTerm(st, d)
	a.ensure(st, ln)
	if st.num.lower(ln) == st.num.upper(ln) {
		return
	}
	related, equal := false, false
	for cell, v := range st.heap {
		if v == nil || v.isConst() || !isIntTerm(v) || cell.op != OFA || v == ln {
			continue
		}
		a.ensure(st, v)
		if st.num.lower(v) == st.num.upper(v) {
			continue
		}
		le, ge := st.num.provesLE(ln, v, 0), st.num.provesLE(v, ln, 0)
		if le && ge {
			equal = true
		}
		if st.num.maxDiff(ln, v) < 4 || st.num.maxDiff(v, ln) < 4 {
			related = true
		}
	}
	if related || equal {
		a.rep.obl("C23", st, at, "array-complete", equal, "an array is handed over before it has the announced number of elements (or with more)")
	}
}

// stall: no complete array is kept back while waiting for more input.
func (h *parseRules) stall(st *State, at ssa.Instruction) {
	a := h.a
	for cell, p := range st.heap {
		if cell.op != OFA || p == nil || p.op != OObj || p.typ == nil || !strings.HasSuffix(namedOf(p.typ), "resp.RedisArray") {
			continue
		}
		s := structOf(p.typ)
		if s == nil || s.NumFields() == 0 {
			continue
		}
		d := a.loadRaw(st, mk(OFA, 0, types.NewPointer(s.Field(0).Type()), p), s.Field(0).Type())
		ln := a.lenTerm(st, d)
		a.ensure(st, ln)
		ok := true
		for c2, v := range st.heap {
			if c2.op == OFA && c2.args[0] == cell.args[0] && v != nil && isIntTerm(v) && !v.isConst() {
				a.ensure(st, v)
				if st.num.provesLE(mkInt(1), v, 0) && st.num.provesLE(ln, v, 0) && st.num.provesLE(v, ln, 0) {
					ok = false
				}
			}
		}
		a.rep.obl("C23", st, at, "no-stall", ok, "a complete request is kept back while waiting for more input")
	}
}

func (h *parseRules) read(st *State, at ssa.Instruction, name string, args []T) {
	a := h.a
	a.rep.obl("C23", st, at, "read-after-error", !st.flags["readerr"], "reading goes on after a read error")
	a.rep.obl("C23", st, at, "read-after-report", !st.flags["errsent"], "reading goes on after an error was reported: the connection is not served any more")
	a.rep.obl("C23", st, at, "malformed", !st.flags["badarg"], "a malformed number is ignored")
	a.rep.obl("C23", st, at, "terminator", !st.flags["needcr"] && !st.flags["needlf"], "the CR LF behind a bulk string is not checked")
	a.rep.obl("C23", st, at, "element-kept", !st.flags["elem"], "a parsed word is dropped")
	h.stall(st, at)
	delete(st.heap, lastNum)
	delete(st.flags, "short")
	delete(st.flags, "long")
	if name == "(*bufio.Reader).Read" {
		st.flags["short"] = true
	}
	if name == "io.ReadAtLeast" && len(args) > 2 {
		ln := a.lenTerm(st, args[1])
		a.ensure(st, ln)
		a.ensure(st, args[2])
		st.flags["short"] = !st.num.provesLE(ln, args[2], 0)
		if !st.flags["short"] {
			delete(st.flags, "short")
		}
	}
	if (strings.HasPrefix(name, "io.") || name == "(*bufio.Reader).Read") && len(args) > 1 {
		if r := a.rootOf(st, args[1]); r != nil {
			v, ok := st.heap[mk(OGhost, "published", tBool, r)]
			_ = v
			a.rep.obl("C18", st, at, "buffer-reused", !ok, "the buffer read into still holds the words of an earlier request")
		}
		st.flags["needcr"], st.flags["needlf"] = true, true
	}
}

func (h *parseRules) fact(st *State, c T, truth bool) {
	if c.op == OBin && c.aux == "==" {
		l, r := c.args[0], c.args[1]
		if l.isNil() {
			l, r = r, l
		}
		if r.isNil() && !truth && isReadErr(l) {
			st.flags["readerr"] = true
			delete(st.flags, "needcr")
			delete(st.flags, "needlf")
		}
		if !r.isNil() && truth && (isReadErr(l) || isReadErr(r)) {
			st.flags["readerr"] = true
		}
	}
	if c.op == OCall && truth && strings.HasSuffix(c.aux.(string), "HasSuffix") {
		if s, ok := c.args[1].constStr(); ok || len(c.args) == 2 {
			if !ok || strings.HasSuffix(s, "\r\n") {
				delete(st.flags, "needcr")
			}
			delete(st.flags, "needlf")
		}
	}
}

func isReadErr(t T) bool {
	if t == nil || t.op != OSym && t.op != OStar {
		return false
	}
	s, ok := t.aux.(*Site)
	if !ok {
		return false
	}
	return strings.HasPrefix(s.tag, "rerr") || strings.HasPrefix(s.tag, "read1")
}

// lastNum holds the number of the header read last.
var lastNum = mk(OGhost, "lastnum", tInt)

// ext: a second buffer on the same connection loses what the first one holds.
func (h *parseRules) ext(st *State, at ssa.Instruction, name string, args []T) {
	if !strings.HasPrefix(name, "bufio.NewReader") && name != "bufio.NewScanner" || len(args) == 0 || args[0].hasStar {
		return
	}
	g := mk(OGhost, "wrapped", tBool, unbox(args[0]))
	_, twice := st.heap[g]
	h.a.rep.obl("C23", st, at, "input-kept", !twice, "the connection is wrapped in a second buffer: requests that lie in the first one are lost")
	st.heap[g] = mkBool(true)
}

// refused: no announced length that a client may send is refused.
func (h *parseRules) refused(st *State, at ssa.Instruction) {
	n := st.heap[lastNum]
	if n == nil || st.flags["readerr"] || st.flags["badarg"] {
		return
	}
	lo, _ := h.a.bounds(st, n)
	h.a.rep.obl("C23", st, at, "length-accepted", !st.flags["long"] && (lo < 0 || lo >= 1<<20), "a request with a legal length is refused")
}

// num: comparisons of announced lengths and of the bytes behind a bulk string.
func (h *parseRules) num(st *State, c T) {
	if c.op == OBin {
		for _, x := range c.args {
			x = uncast(x)
			if x.op == OCall && strings.HasPrefix(x.aux.(string), "strconv.Parse") && strings.HasSuffix(x.aux.(string), "Int#0") {
				st.heap[lastNum] = x
				if lo, hi := h.a.bounds(st, x); lo > 16 && lo < 1<<20 && hi > 1<<20 {
					st.flags["long"] = true // longer than some limit that a client may exceed
				}
				if b, ok := x.args[len(x.args)-2].constInt(); ok && len(x.args) == 3 {
					h.a.rep.obl("C23", st, nil, "decimal", b == 10, "a length that is not decimal is accepted")
				}
			}
			if x.op == OSym {
				if s, ok := x.aux.(*Site); ok && s.tag == "n" {
					delete(st.flags, "short")
				}
			}
		}
	}
	if !st.flags["needcr"] && !st.flags["needlf"] || c.op != OBin {
		return
	}
	for i := 0; i < 2; i++ {
		k, ok := c.args[1-i].constInt()
		if !ok || c.args[i].isConst() {
			continue
		}
		h.a.ensure(st, c.args[i])
		if st.num.provesLE(c.args[i], mkInt(k), 0) && st.num.provesLE(mkInt(k), c.args[i], 0) {
			if k == 13 {
				delete(st.flags, "needcr")
			}
			if k == 10 {
				delete(st.flags, "needlf")
			}
		} else if k == 13 || k == 10 {
			// the terminator is wrong: the message is not one
			if f, ok := st.facts[mkEq(c.args[i], mkInt(k))]; ok && !f {
				st.flags["badterm"] = true
			}
		}
	}
}

func (h *parseRules) field(st *State, at ssa.Instruction, addr T, write bool) {
	if !write || addr.op != OFA {
		return
	}
	a := h.a
	base := addr.args[0]
	if base.typ == nil {
		return
	}
	n := namedOf(base.typ)
	if strings.HasSuffix(n, "resp.BulkString") || strings.HasSuffix(n, "resp.SimpleString") || strings.HasSuffix(n, "resp.SimpleError") || strings.HasSuffix(n, "resp.Integer") {
		st.flags["elem"] = true
	}
	if strings.HasSuffix(n, "resp.RedisArray") {
		delete(st.flags, "elem")
		_, sent := st.heap[mk(OGhost, "sent", tBool, base)]
		a.rep.obl("C23", st, at, "sent-unchanged", !sent, "an array is changed after it was handed over")
	}
	if strings.HasSuffix(n, "resp.BulkString") && a.storing != nil && !a.storing.isNil() {
		v := a.storing
		r := a.rootOf(st, v)
		if r == nil {
			return
		}
		_, shared := st.heap[mk(OGhost, "shared", tBool, v)]
		_, shared2 := st.heap[mk(OGhost, "shared", tBool, r)]
		ok := !shared && !shared2 && r.op != ORoot && r.op != OGlobal && r.op != OStar
		a.rep.obl("C18", st, at, "request-owned", ok, "the words of a request lie in a buffer that is used again: "+short(v))
		a.rep.obl("C23", st, at, "short-read", !st.flags["short"], "a bulk string is handed over although only a part of it may have been read")
		if v.op == OCall {
			nm := v.aux.(string)
			bad := strings.HasPrefix(nm, "bytes.Trim") || strings.HasPrefix(nm, "bytes.To") || strings.HasPrefix(nm, "bytes.Replace") || strings.HasPrefix(nm, "bytes.Map") || strings.HasPrefix(nm, "bytes.Title")
			bad = bad && nm != "bytes.TrimSuffix" && nm != "bytes.TrimPrefix"
			a.rep.obl("C23", st, at, "verbatim", !bad, "the bytes of a bulk string are changed by "+nm)
		}
		h.exact(st, at, v)
		if r.op == OObj {
			st.heap[mk(OGhost, "published", tBool, r)] = mkBool(true)
		}
	}
}

func (h *parseRules) finish(o *Outcome, at *ssa.Return) {
	a, st := h.a, o.st
	a.rep.obl("C23", st, at, "channel-closed", st.flags["closed"], "the parser ends without closing its channel: the connection is never closed")
	a.rep.obl("C23", st, at, "ends-on-error", st.flags["errsent"] || st.flags["readerr"] || st.flags["badarg"], "the parser ends although the client sent nothing wrong")
}

func uncast(t T) T {
	for (t.op == OCast || t.op == OConv) && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}
