package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How replies are put on the wire and requests are taken from it.

func flatten(x T) []T {
	x = content(x)
	if x.op == OCall && x.aux == "concat" {
		var out []T
		for _, y := range x.args {
			out = append(out, flatten(y)...)
		}
		return out
	}
	return []T{x}
}

// pieces merges neighbouring constants.
func pieces(x T) []T {
	var out []T
	for _, y := range flatten(x) {
		if s, ok := y.constStr(); ok {
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].constStr(); ok {
					out[n-1] = mkStr(p + s)
					continue
				}
			}
		}
		out = append(out, y)
	}
	return out
}

func opaquePieces(ps []T) bool {
	for _, p := range ps {
		if p.op == OSym || p.op == OStar || p.op == OObj || p.op == OConv && p.aux == "str" && (p.args[0].op == OSym || p.args[0].op == OStar || p.args[0].op == OObj) {
			return true
		}
	}
	return false
}

// numText: x is the decimal text of an integer term.
func numText(x T) (T, bool, bool) {
	if x.op != OCall {
		return nil, false, false
	}
	switch x.aux {
	case "strconv.Itoa":
		return unconv(x.args[0]), true, true
	case "strconv.FormatInt":
		b, ok := x.args[1].constInt()
		return unconv(x.args[0]), true, !ok || b == 10
	case "strconv.FormatUint":
		b, ok := x.args[1].constInt()
		return x.args[0], true, !ok || b == 10
	}
	return nil, false, false
}

// unconv: conversions between 64-bit integers do not change the number that is sent.
func unconv(x T) T {
	for x != nil && x.op == OConv && len(x.args) == 1 {
		switch x.aux {
		case "str", "bytes":
			return x
		}
		if s, _ := x.aux.(string); strings.HasPrefix(s, "int:") && !strings.HasSuffix(s, "int") && !strings.HasSuffix(s, "int64") {
			return x // narrower: another number
		}
		x = x.args[0]
	}
	return x
}

func (a *Analysis) srvFmt(P *Program) []*Root {
	var rs []*Root
	for _, k := range []string{"SimpleString", "SimpleError", "Integer", "BulkString", "RedisArray"} {
		f := P.fn("resp", k+".ToRedisFormat")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		rs = append(rs, a.fmtOf(P, k, f)...)
	}
	for _, k := range []string{"SimpleString", "SimpleError", "Integer", "BulkString"} {
		if f := P.fn("resp", k+".GetBytesData"); f != nil && len(f.Blocks) > 0 {
			rs = append(rs, a.bytesOf(P, k, f))
		}
	}
	if f := P.fn("resp", "RedisArray.ToCommand"); f != nil && len(f.Blocks) > 0 {
		for n := int64(0); n < 4; n++ {
			rs = append(rs, a.toCommand(P, f, n))
		}
	}
	if len(rs) == 0 {
		return nil
	}
	return rs
}

// dataCell: the first field of the receiver.
func dataCell(recv T) (T, types.Type) {
	s := structOf(recv.typ)
	if s == nil || s.NumFields() == 0 {
		return nil, nil
	}
	t := s.Field(0).Type()
	return mk(OLd, nil, t, mk(OFA, 0, types.NewPointer(t), recv)), t
}

func (a *Analysis) fmtOf(P *Program, kind string, f *ssa.Function) []*Root {
	var rs []*Root
	one := func(n int64, nilData bool) {
		var data T
		if kind == "RedisArray" || kind == "BulkString" {
			a.unroll = n >= 0
		}
		a.on = Callbacks{}
		a.on.finish = func(o *Outcome, at *ssa.Return) {
			if len(o.ret) == 1 && data != nil {
				a.checkFmt(P, kind, o, at, data, n, nilData)
			}
		}
		r := a.runRoot(f, "aux", "fmt:"+kind, func(st *State, args []T) {
			data, _ = dataCell(args[0])
			if data == nil {
				return
			}
			if kind == "RedisArray" {
				if nilData {
					st.heap[data.args[0]] = mkNil(data.typ)
				} else {
					st.facts[mkEq(data, mkNil(data.typ))] = false
					ln := mkLen(data)
					a.ensure(st, ln)
					if n >= 0 {
						a.eqNum(st, ln, mkInt(n))
					}
				}
			}
		})
		a.unroll = false
		rs = append(rs, r)
	}
	if kind == "RedisArray" {
		one(-1, true)
		for n := int64(0); n < 4; n++ {
			one(n, false)
		}
	} else {
		one(-1, false)
	}
	return rs
}

func (a *Analysis) checkFmt(P *Program, kind string, o *Outcome, at *ssa.Return, data T, n int64, nilData bool) {
	st := o.st
	ps := pieces(o.ret[0])
	if kind == "RedisArray" {
		// numbers that are known here
		var l []T
		for _, p := range ps {
			if x, ok, dec := numText(p); ok && dec && isIntTerm(x) {
				a.ensure(st, x)
				if lo, hi := a.bounds(st, x); lo == hi {
					p = mkStr(fmt.Sprint(lo))
				}
			}
			l = append(l, p)
		}
		ps = pieces(mkConcat(l...))
	}
	if len(ps) == 0 {
		a.rep.obl("C11", st, at, "shape", false, "a "+kind+" is sent as nothing")
		return
	}
	whole, _ := ps[0].constStr()
	bad := func(rule string, ok bool, msg string) {
		a.rep.obl("C11", st, at, rule, ok, msg+": "+cut(showPieces(ps), 160))
	}
	switch kind {
	case "SimpleString", "SimpleError", "Integer":
		c := map[string]string{"SimpleString": "+", "SimpleError": "-", "Integer": ":"}[kind]
		if opaquePieces(ps) {
			return
		}
		first, ok1 := ps[0].constStr()
		last, ok2 := ps[len(ps)-1].constStr()
		bad("shape", ok1 && strings.HasPrefix(first, c), "a "+kind+" does not start with "+c)
		bad("shape", ok2 && strings.HasSuffix(last, "\r\n"), "a "+kind+" does not end with CR LF")
		seen := false
		for i, p := range ps {
			if s, ok := p.constStr(); ok {
				if i == len(ps)-1 {
					s = strings.TrimSuffix(s, "\r\n")
				}
				bad("shape", !strings.ContainsAny(s, "\r\n"), "a "+kind+" has a line end inside")
				continue
			}
			if contains(p, data) {
				seen = true
			}
			if kind == "Integer" {
				x, ok, dec := numText(p)
				if ok {
					bad("number", dec && x == data, "an integer is sent as another number")
				} else if p.op == OCall && strings.HasPrefix(p.aux.(string), "fmt%") {
					bad("number", p.aux == "fmt%d" || p.aux == "fmt%v", "an integer is not sent in decimal")
				}
				continue
			}
			a.sanitised(P, st, at, p, data, kind, bad)
		}
		bad("text", seen, "a "+kind+" is sent without its content")
	case "BulkString":
		isN, known := a.decideEq(st, data, mkNil(data.typ), data.typ)
		if len(ps) == 1 && whole != "" {
			if strings.HasPrefix(whole, "$-1") || strings.HasPrefix(whole, "_") {
				bad("nil", whole == "$-1\r\n", "the nil reply is malformed")
				bad("nil", known && isN, "a value that is not nil is sent as nil")
				return
			}
			ln := a.lenTerm(st, data)
			a.ensure(st, ln)
			bad("bulk", whole == "$0\r\n\r\n" && st.num.provesLE(ln, mkInt(0), 0) && known && !isN, "a bulk string is malformed")
			return
		}
		if opaquePieces(ps) {
			return
		}
		bad("nil", known && !isN, "the nil reply is sent as an empty value")
		ok := len(ps) == 5
		var sz, body T
		if ok {
			c0, _ := ps[0].constStr()
			c2, _ := ps[2].constStr()
			c4, _ := ps[4].constStr()
			ok = c0 == "$" && c2 == "\r\n" && c4 == "\r\n"
			sz, body = ps[1], ps[3]
		}
		bad("bulk", ok, "a bulk string is malformed")
		if !ok {
			return
		}
		if x, isN, dec := numText(sz); isN {
			bad("bulk-length", dec && (x == mkLen(data) || a.sameNum(st, x, mkLen(data))), "a bulk string is sent with another length than it has")
		} else if sz.op == OCall && strings.HasPrefix(sz.aux.(string), "fmt%") && sz.aux != "fmt%d" && sz.aux != "fmt%v" {
			bad("bulk-length", false, "the length of a bulk string is not sent in decimal")
		}
		bad("bulk-body", body == content(data), "a bulk string is sent with other bytes than it has")
	case "RedisArray":
		if nilData {
			if whole != "" {
				bad("nil", whole == "*-1\r\n", "the nil array is malformed")
			}
			return
		}
		if opaquePieces(ps) {
			return
		}
		bad("array", strings.HasPrefix(whole, "*"), "an array does not start with *")
		if !strings.HasPrefix(whole, "*") {
			return
		}
		bad("array-length", whole == fmt.Sprintf("*%d\r\n", n), fmt.Sprintf("an array of %d elements is sent with the header %q", n, whole))
		ok := len(ps) == int(n)+1
		for i := int64(0); ok && i < n; i++ {
			el := ps[i+1]
			for el.op == OConv {
				el = el.args[0]
			}
			ok = el.op == OCall && el.aux == "meth:ToRedisFormat" && isElem(el.args[0], data, i)
		}
		bad("array-elements", ok, fmt.Sprintf("the %d elements of an array are not sent one after another", n))
	}
}

func isElem(x, data T, i int64) bool {
	if x.op != OLd || x.args[0].op != OIA || x.args[0].args[0] != data {
		return false
	}
	k, ok := x.args[0].args[1].constInt()
	return ok && k == i
}

func (a *Analysis) sameNum(st *State, x, y T) bool {
	if x == y {
		return true
	}
	if !isIntTerm(x) || !isIntTerm(y) {
		return false
	}
	a.ensure(st, x)
	a.ensure(st, y)
	return st.num.provesLE(x, y, 0) && st.num.provesLE(y, x, 0)
}

// sanitised: text taken from outside cannot contain a line end.
func (a *Analysis) sanitised(P *Program, st *State, at ssa.Instruction, p, data T, kind string, bad func(string, bool, string)) {
	if p == data || p == content(data) {
		bad("line-safe", false, "the text of a "+kind+" is sent as it is and can contain line ends")
		return
	}
	if p.op == OCall && p.aux == "(*strings.Replacer).Replace" {
		g := p.args[0]
		if g.op == OLd && g.args[0].op == OGlobal {
			if l, ok := P.replacerOf(g.args[0].aux.(*ssa.Global)); ok {
				bad("line-safe", replacesLineEnds(l), "the replaced characters do not include both CR and LF")
			}
		}
		return
	}
	if p.op == OCall && (p.aux == "strings.ReplaceAll" || p.aux == "strings.Replace") {
		// nested replacements: both characters must go
		gone := map[string]bool{}
		x := p
		for x.op == OCall && (x.aux == "strings.ReplaceAll" || x.aux == "strings.Replace") {
			if s, ok := x.args[1].constStr(); ok {
				if len(x.args) == 3 {
					gone[s] = true
				} else if n, ok := x.args[3].constInt(); ok && n < 0 {
					gone[s] = true
				}
			}
			x = x.args[0]
		}
		bad("line-safe", gone["\r"] && gone["\n"], "the replaced characters do not include both CR and LF")
		return
	}
	if p.op == OCall && (p.aux == "strings.TrimSpace" || strings.HasPrefix(p.aux.(string), "strings.Trim") || strings.HasPrefix(p.aux.(string), "strings.To")) && contains(p, data) {
		bad("line-safe", false, "the text of a "+kind+" can contain line ends")
	}
}

func replacesLineEnds(l []string) bool {
	cr, lf := false, false
	for i := 0; i+1 < len(l); i += 2 {
		if strings.ContainsAny(l[i+1], "\r\n") {
			return false
		}
		cr = cr || l[i] == "\r"
		lf = lf || l[i] == "\n"
	}
	return cr && lf
}

// replacerOf: the constant arguments of the strings.NewReplacer a variable is initialised with.
func (P *Program) replacerOf(g *ssa.Global) ([]string, bool) {
	for fn := range allFns(P) {
		if fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.NewReplacer" {
					return nil, false
				}
				return constVarargs(c.Call.Args[0])
			}
		}
	}
	return nil, false
}

func constVarargs(v ssa.Value) ([]string, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]string, ar.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			st, ok := u.(*ssa.Store)
			if !ok {
				continue
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				return nil, false
			}
			out[i.Int64()] = constant.StringVal(c.Value)
		}
	}
	return out, true
}

func showPieces(ps []T) string {
	var l []string
	for _, p := range ps {
		l = append(l, p.String())
	}
	return strings.Join(l, " ")
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// bytesOf: a word of a request is taken as it was sent.
func (a *Analysis) bytesOf(P *Program, kind string, f *ssa.Function) *Root {
	var data T
	a.on = Callbacks{}
	a.on.finish = func(o *Outcome, at *ssa.Return) {
		if len(o.ret) != 1 || data == nil {
			return
		}
		x := o.ret[0]
		if ps := pieces(x); opaquePieces(ps) && x != data {
			return
		}
		ok := false
		switch kind {
		case "Integer":
			y, isN, dec := numText(content(x))
			ok = isN && dec && y == data
		case "BulkString":
			ok = x == data || content(x) == content(data)
		default:
			ok = content(x) == data || content(x) == content(data)
		}
		a.rep.obl("C27", o.st, at, "request-word", ok, "a "+kind+" of a request is read as "+short(x))
	}
	return a.runRoot(f, "aux", "word:"+kind, func(st *State, args []T) { data, _ = dataCell(args[0]) })
}

// toCommand: the words of a request are the elements of the array, in order.
func (a *Analysis) toCommand(P *Program, f *ssa.Function, n int64) *Root {
	var data T
	a.on = Callbacks{}
	a.on.finish = func(o *Outcome, at *ssa.Return) {
		if len(o.ret) != 1 || data == nil {
			return
		}
		es, ok := a.elems(o.st, o.ret[0])
		if !ok {
			return
		}
		good := len(es) == int(n)
		for i := 0; good && i < len(es); i++ {
			e := es[i]
			good = e.op == OCall && e.aux == "meth:GetBytesData" && isElem(e.args[0], data, int64(i))
		}
		a.rep.obl("C27", o.st, at, "request-words", good, fmt.Sprintf("a request of %d words is not executed with exactly these words: %v", n, es))
	}
	a.unroll = true
	r := a.runRoot(f, "aux", "words", func(st *State, args []T) {
		data, _ = dataCell(args[0])
		if data != nil {
			ln := mkLen(data)
			a.ensure(st, ln)
			a.eqNum(st, ln, mkInt(n))
		}
	})
	a.unroll = false
	return r
}
