package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handleRules follows one connection: requests received, commands executed,
// replies written, databases selected, the socket closed.
type handleRules struct {
	a       *Analysis
	P       *Program
	localDb bool // the selected database travels through local variables
}

const memDbT = "/memdb.MemDb"

func isMemDbPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(t) == modPath+memDbT
}

// localDbFlow: some function of the server merges or returns database pointers.
func localDbFlow(P *Program, a *Analysis) bool {
	p := P.pkg("server")
	for fn := range allFns(P) {
		if fn.Pkg != p || fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "New") {
			continue
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isMemDbPtr(fn.Signature.Results().At(i).Type()) {
				return true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok && isMemDbPtr(ph.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// request state lives in flags that are cleared at every receive
var reqFlags = []string{"array", "exec", "wrote", "selected", "badarg", "err", "unflushed", "nilreply", "sel0", "sel1", "selloose", "refusable", "cut"}

func (h *handleRules) endRequest(st *State, at ssa.Instruction) {
	a := h.a
	if st.flags["array"] || st.flags["exec"] {
		a.rep.obl("C12", st, at, "reply-once", st.flags["wrote"], "the next request is read (or the connection ended) before this one was answered")
	}
	if st.flags["wrote"] {
		a.rep.obl("C12", st, at, "reply-flushed", !st.flags["unflushed"], "the reply stays in a buffer")
		for _, p := range []string{"C11", "C12"} {
			a.rep.obl(p, st, at, "reply-whole", !st.flags["cut"], "only the first bytes of the reply are written")
		}
	}
	for _, f := range reqFlags {
		delete(st.flags, f)
	}
}

func (h *handleRules) recv(st *State, at ssa.Instruction, ch T) {
	if !isRespChan(ch) {
		return
	}
	h.endRequest(st, at)
	st.flags["served"] = true
	h.waits(st, at, "the next request")
}

// waits: nothing that other connections need is held while this one waits for its client.
func (h *handleRules) waits(st *State, at ssa.Instruction, what string) {
	for _, x := range st.held {
		r := h.a.rootOf(st, x.lock)
		shared := r != nil && (r.op == ORoot || r.op == OGlobal)
		h.a.rep.obl("C13", st, at, "waits-alone", !shared, "a connection holds "+short(x.lock)+", which other connections need, while it waits for "+what)
		h.a.rep.obl("C04", st, at, "blocking-under-lock", !shared, "a connection waits for "+what+" while it holds "+short(x.lock))
	}
	if len(st.held) == 0 {
		h.a.rep.obl("C13", st, at, "waits-alone", true, "")
	}
}

func isRespChan(ch T) bool {
	if ch == nil || ch.typ == nil {
		return true
	}
	c, ok := ch.typ.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(c.Elem().String(), "resp.RedisResp")
}

func (h *handleRules) fact(st *State, c T, truth bool) {
	if c.op == OCall {
		if n, _ := c.aux.(string); strings.HasPrefix(n, "is:") && strings.HasSuffix(n, "resp.RedisArray") && truth {
			st.flags["array"] = true
		} else if truth && (n == "strings.HasPrefix" || n == "strings.HasSuffix" || n == "strings.Contains") && len(c.args) == 2 && hasWord(c.args[0]) {
			if s, ok := c.args[1].constStr(); ok && strings.EqualFold(s, "select") {
				st.flags["selloose"] = true
			}
		} else if strings.HasPrefix(n, "errors.Is") && truth && respErr(c.args[0]) {
			st.flags["err"] = true
		}
	}
	if c.op == OBin && c.aux == "==" {
		l, r := c.args[0], c.args[1]
		if l.isConst() {
			l, r = r, l
		}
		if s, ok := r.constStr(); ok && strings.EqualFold(s, "select") {
			st.flags["sel0"] = !truth
			st.flags["sel1"] = truth
		}
		switch {
		case r.isNil() && isDyn(l) && truth:
			st.flags["nilreply"] = true
		case r.isNil() && respErr(l) && !truth:
			st.flags["err"] = true
		case !r.isNil() && (respErr(l) || respErr(r)) && truth:
			st.flags["err"] = true
		case r.isNil() && truth && l.typ != nil && strings.HasSuffix(namedOf(l.typ), "resp.RedisResp"):
			st.flags["chclosed"] = true
		}
	}
}

// respErr: the error of a parsed request.
func respErr(t T) bool {
	return t != nil && t.op == OLd && t.args[0].op == OFA && t.typ != nil && t.typ.String() == "error" && t.args[0].args[0].typ != nil && strings.HasSuffix(namedOf(t.args[0].args[0].typ), "resp.RedisResp")
}

func connType(t types.Type) bool {
	switch t.String() {
	case "net.Conn", "io.Writer", "io.ReadWriter", "io.ReadWriteCloser", "io.WriteCloser", "io.Closer", "*net.TCPConn":
		return true
	}
	return false
}

func (h *handleRules) invoke(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T) {
	if !connType(c.Value.Type()) {
		return
	}
	switch c.Method.Name() {
	case "Write":
		h.write(st, at, args[1], false)
	case "Close":
		st.flags["connclosed"] = true
	}
}

func (h *handleRules) ext(st *State, at ssa.Instruction, name string, args []T) {
	switch {
	case name == "io.WriteString":
		h.write(st, at, args[1], false)
	case strings.HasPrefix(name, "fmt.Fprint"):
		h.write(st, at, nil, false)
	case strings.HasPrefix(name, "(*bufio.Writer).Write"):
		if len(args) > 1 {
			h.write(st, at, args[1], true)
		}
	case name == "(*bufio.Writer).Flush":
		delete(st.flags, "unflushed")
	case name == "(*net.TCPConn).Write":
		h.write(st, at, args[1], false)
	}
}

func (h *handleRules) write(st *State, at ssa.Instruction, v T, buffered bool) {
	a := h.a
	// the rest of a reply that is sent in pieces
	piece := st.flags["wrote"] && v != nil && (v.op == OSym || v.op == OSub)
	a.rep.obl("C12", st, at, "reply-once", !st.flags["wrote"] || piece, "a second reply is written for one request")
	delete(st.flags, "cut")
	if v != nil && v.op == OSub && dynIn(v) && v.args[2] != nil {
		if _, ok := v.args[2].constInt(); ok {
			st.flags["cut"] = true
		}
	}
	a.rep.obl("C12", st, at, "write-after-close", !st.flags["connclosed"], "a reply is written after the connection was closed")
	if !st.flags["array"] && !st.flags["exec"] && !st.flags["err"] {
		// inline requests and the like
	}
	st.flags["wrote"] = true
	if buffered {
		st.flags["unflushed"] = true
	}
	if v == nil {
		return
	}
	x := content(v)
	kind := replyKind(x)
	if st.flags["exec"] {
		// what is written is what the command answered
		d := dynIn(x)
		known := st.flags["nilreply"] // the executor gave no reply value
		enc := x
		for enc.op == OConv && len(enc.args) == 1 {
			enc = enc.args[0]
		}
		if m, ok := enc.aux.(string); ok && enc.op == OCall && len(enc.args) > 0 && strings.HasPrefix(m, "meth:") && isDyn(enc.args[0]) {
			a.rep.obl("C12", st, at, "reply-encoded", m == "meth:ToRedisFormat", "what is written is not the reply in wire format but "+m[5:]+"()")
			a.rep.obl("C11", st, at, "reply-encoded", m == "meth:ToRedisFormat", "what is written is not the reply in wire format but "+m[5:]+"()")
		}
		if kind != "" || d {
			a.rep.obl("C12", st, at, "reply-of-command", d || known, "the reply written is not the one the command gave: "+short(x))
		}
		return
	}
	if !st.flags["array"] {
		return
	}
	// the command was not executed: it is unknown, empty or handled here
	key, table, present := h.lookup(st)
	sel := h.isSelect(st)
	if sel == 1 {
		h.selectReply(st, at, x, kind)
		return
	}
	if key != nil && table && sel == 0 {
		if present {
			a.rep.obl("C15", st, at, "registered-executed", false, "a registered command is answered without being executed")
		} else if kind != "" {
			a.rep.obl("C15", st, at, "unknown-error", kind == "-", "an unknown command is not answered with an error: "+short(x))
		}
	}
}

func isDyn(t T) bool {
	if t == nil || (t.op != OSym && t.op != OStar) {
		return false
	}
	s, ok := t.aux.(*Site)
	return ok && strings.HasPrefix(s.tag, "dyn")
}

func dynIn(t T) bool {
	if t == nil {
		return false
	}
	if isDyn(t) {
		return true
	}
	for _, x := range t.args {
		if dynIn(x) {
			return true
		}
	}
	return false
}

// replyKind: the first byte of a reply text, "" when it is not known.
func replyKind(x T) string {
	if x == nil {
		return ""
	}
	if s, ok := x.constStr(); ok && s != "" {
		return s[:1]
	}
	if x.op == OCall && x.aux == "concat" || x.op == OBin && x.aux == "concat" {
		if len(x.args) > 0 {
			return replyKind(x.args[0])
		}
	}
	return ""
}

// lookup: the last lookup in the command table.
func (h *handleRules) lookup(st *State) (key T, table, present bool) {
	for _, r := range st.mem {
		if h.isTable(r.m) {
			return r.k, true, r.present
		}
	}
	return nil, false, false
}

// isTable: a map from names to executors.
func (h *handleRules) isTable(m T) bool {
	if m == nil || m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && isString(mt.Key()) && holdsExecutor(mt.Elem())
}

func holdsExecutor(t types.Type) bool {
	if isExecutor(t) {
		return true
	}
	s := structOf(t)
	if s == nil {
		s, _ = t.Underlying().(*types.Struct)
	}
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isExecutor(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

// isSelect: 1 the request is SELECT, 0 it is not, -1 not known.
func (h *handleRules) isSelect(st *State) int {
	if st.flags["sel1"] {
		return 1
	}
	if st.flags["sel0"] {
		return 0
	}
	return -1
}

// word: x is the text of word i of the request.
func wordOf(x T) (T, int, bool) {
	for x != nil && x.op == OConv && (x.aux == "str" || x.aux == "bytes") {
		x = x.args[0]
	}
	if x == nil || x.op != OLd || x.args[0].op != OIA {
		return nil, 0, false
	}
	i, ok := x.args[0].args[1].constInt()
	if !ok {
		return nil, 0, false
	}
	if s, ok := x.args[0].args[0].typ.Underlying().(*types.Slice); !ok || !isByteSlice(s.Elem()) {
		return nil, 0, false
	}
	return x.args[0].args[0], int(i), true
}

// hasWord: x is made from a word of the request.
func hasWord(x T) bool {
	if x == nil {
		return false
	}
	if _, _, ok := wordOf(x); ok {
		return true
	}
	for _, y := range x.args {
		if hasWord(y) {
			return true
		}
	}
	return false
}

// derived: x is a part of a text or the result of a function that changes texts.
func derived(x T) bool {
	for x != nil && x.op == OConv && len(x.args) == 1 {
		x = x.args[0]
	}
	if x == nil {
		return false
	}
	if x.op == OSub {
		return true
	}
	if x.op == OCall && len(x.args) > 0 {
		n, _ := x.aux.(string)
		switch n {
		case "strings.ToLower", "strings.ToUpper", "bytes.ToLower", "bytes.ToUpper":
			return derived(x.args[0])
		}
		return strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "strings.Replace") || n == "concat"
	}
	return x.op == OBin && x.aux == "concat"
}

// dbIndex: the number a database index is parsed from.
func dbIndex(x T) (T, bool) {
	for x != nil && x.op == OConv {
		x = x.args[0]
	}
	if x == nil || x.op != OCall {
		return nil, false
	}
	n, _ := x.aux.(string)
	if strings.HasPrefix(n, "strconv.Atoi#0") || strings.HasPrefix(n, "strconv.ParseInt#0") || strings.HasPrefix(n, "strconv.ParseUint#0") {
		return x, true
	}
	return nil, false
}

func (h *handleRules) selectReply(st *State, at ssa.Instruction, x T, kind string) {
	a := h.a
	switch kind {
	case "+":
		if !h.localDb {
			a.rep.obl("C13", st, at, "select-acts", st.flags["selected"], "SELECT is confirmed although the database of the connection was not changed")
		}
		a.rep.obl("C13", st, at, "select-checked", !st.flags["badarg"], "SELECT is confirmed for a word that is not a number")
		for _, t := range append([]T(nil), st.num.atoms[1:]...) {
			if t.op == OLen && isWords(t.args[0]) {
				lo, hi := a.bounds(st, t)
				a.rep.obl("C19", st, at, "select-arity", lo == 2 && hi == 2, fmt.Sprintf("SELECT is confirmed for a request with between %d and %d words", lo, hi))
			}
		}
	case "-":
		a.rep.obl("C13", st, at, "select-refused", !st.flags["selected"], "SELECT changed the database although it answers an error")
		if st.flags["badarg"] {
			return
		}
		// with two words and an index in range there is nothing to refuse
		a.rep.obl("C13", st, at, "select-accepts", st.flags["refusable"], "SELECT refuses an index that exists")
	}
}

// num: notes when a request is known not to be a well-formed SELECT.
func (h *handleRules) num(st *State, c T) {
	a := h.a
	var scan func(t T, d int)
	scan = func(t T, d int) {
		if t == nil || d > 6 || st.flags["refusable"] {
			return
		}
		if t.op == OLen && isWords(t.args[0]) {
			s2 := st.clone()
			a.eqNum(s2, t, mkInt(2))
			f, known := st.facts[mkEq(t, mkInt(2))]
			if s2.num.bot || known && !f {
				st.flags["refusable"] = true
			}
			return
		}
		if _, ok := dbIndex(t); ok {
			if st.num.provesLE(t, mkInt(-1), 0) {
				st.flags["refusable"] = true
				return
			}
			for _, d := range st.num.atoms[1:] {
				if d.op == OLen && isDbTable(d.args[0]) && st.num.provesLE(d, t, 0) {
					st.flags["refusable"] = true
					return
				}
			}
		}
		for _, x := range t.args {
			scan(x, d+1)
		}
	}
	scan(c, 0)
}

func isWords(t T) bool {
	if t == nil || t.typ == nil {
		return false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return ok && isByteSlice(s.Elem())
}

func isDbTable(t T) bool {
	if t == nil || t.typ == nil {
		return false
	}
	s, ok := t.typ.Underlying().(*types.Slice)
	return ok && isMemDbPtr(s.Elem())
}

func (h *handleRules) dyn(st *State, at ssa.Instruction, c *ssa.CallCommon, f T, args []T) {
	if !isExecutor(c.Value.Type()) && !(len(args) == 2 && args[0].typ != nil && isMemDbPtr(args[0].typ)) {
		return
	}
	a := h.a
	a.rep.obl("C12", st, at, "executed-once", !st.flags["exec"], "a command is executed twice for one request")
	a.rep.obl("C12", st, at, "reply-after", !st.flags["wrote"], "a command is executed after its reply was written")
	st.flags["exec"] = true
	// the executor is the one registered under the first word, in any case
	if key := tableKey(f, h); key != nil {
		folded := false
		k := key
		if k.op == OCall && (k.aux == "strings.ToLower" || k.aux == "strings.ToUpper" || k.aux == "bytes.ToLower" || k.aux == "bytes.ToUpper") {
			folded = true
			k = k.args[0]
		} else if k.op == OConv && len(k.args) == 1 && k.args[0].op == OCall && strings.HasPrefix(k.args[0].aux.(string), "bytes.To") {
			folded = true
			k = k.args[0].args[0]
		}
		base, i, ok := wordOf(k)
		if !ok && hasWord(k) && derived(k) {
			a.rep.obl("C15", st, at, "whole-word", false, "the command is not looked up by the whole first word: "+short(key))
		}
		if ok {
			a.rep.obl("C15", st, at, "case", folded, "the command is looked up without regard to case")
			a.rep.obl("C15", st, at, "first-word", i == 0, "the command is not looked up by the first word of the request")
			a.rep.obl("C15", st, at, "same-request", base == args[1] || args[1].op != OSub && a.sameRoot(st, base, args[1]), "the executor is given another request than the one it was looked up for: "+short(args[1]))
		}
	}
	// the database is the one selected on this connection
	db := args[0]
	if cell, ok := st.heap[mk(OGhost, "selected", tBool)]; ok {
		_ = cell
		_, fixed := dbsIndex(db)
		a.rep.obl("C13", st, at, "select-lasts", !fixed, "a command after SELECT runs on database "+short(db)+" again")
	} else if i, ok := dbsIndex(db); ok {
		a.rep.obl("C13", st, at, "first-db", i == 0, "a new connection starts on database "+short(db))
	} else if db.op == OLd && db.args[0].op == OIA && isDbTable(db.args[0].args[0]) {
		i := db.args[0].args[1]
		_, parsed := dbIndex(i)
		ix := i
		if x, _ := lin(i); x != nil {
			ix = x
		}
		if !parsed && ix.op == OLen {
			a.rep.obl("C13", st, at, "first-db", a.mayZero(st, i) == yes, "a new connection starts on database "+short(db))
		}
	} else if fromPool(db) {
		a.rep.obl("C13", st, at, "first-db", false, "a new connection starts on the database a former connection left in a pool: "+short(db))
	}
}

// fromPool: what an object taken from a pool held when it was taken.
func fromPool(t T) bool {
	return t.op == OLd && anyTerm(t, func(x T) bool {
		if x.op != OSym {
			return false
		}
		s, ok := x.aux.(*Site)
		if !ok {
			return false
		}
		c, ok := s.instr.(*ssa.Call)
		if !ok {
			return false
		}
		g := c.Call.StaticCallee()
		return g != nil && g.String() == "(*sync.Pool).Get"
	})
}

func (a *Analysis) mayZero(st *State, i T) tri {
	if st.num.provesLE(i, mkInt(0), 0) && st.num.provesLE(mkInt(0), i, 0) {
		return yes
	}
	return no
}

func (a *Analysis) sameRoot(st *State, x, y T) bool {
	return x == y || a.rootOf(st, x) == a.rootOf(st, y)
}

// dbsIndex: the database at a constant position of the table.
func dbsIndex(db T) (int64, bool) {
	if db.op == OLd && db.args[0].op == OIA && isDbTable(db.args[0].args[0]) {
		return db.args[0].args[1].constInt()
	}
	return 0, false
}

// tableKey: the name under which a function value was found in the command table.
func tableKey(f T, h *handleRules) T {
	for f != nil {
		if f.op == OCall && f.aux == "mapval" && h.isTable(f.args[0]) {
			return f.args[1]
		}
		if len(f.args) == 0 {
			return nil
		}
		f = f.args[0]
	}
	return nil
}

func (h *handleRules) field(st *State, at ssa.Instruction, addr T, write bool) {
	if !write {
		return
	}
	a := h.a
	r := a.rootOf(st, addr)
	shared := r != nil && (r.op == ORoot || r.op == OGlobal)
	if r != nil && r.op == ORoot && r.typ != nil && (strings.HasSuffix(r.typ.String(), "net.Conn") || strings.HasSuffix(r.typ.String(), "resp.RedisResp")) {
		shared = false
	}
	et := addrElemType(addr)
	if shared {
		locked := len(st.held) > 0
		a.rep.obl("C14", st, at, "shared-field", locked, "memory shared by all connections is written without a lock: "+short(addr))
	}
	if et != nil && isMemDbPtr(et) {
		a.rep.obl("C13", st, at, "select-private", !shared, "the selected database is stored where all connections see it: "+short(addr))
		if st.flags["served"] {
			a.rep.obl("C15", st, at, "whole-word", !st.flags["selloose"] || st.flags["sel1"], "SELECT is run for other words than its name")
			v := a.storing
			if v != nil && v.op == OLd && v.args[0].op == OIA && isDbTable(v.args[0].args[0]) && h.isSelect(st) == 1 {
				i := v.args[0].args[1]
				if x, ok := dbIndex(i); ok {
					_, w, wok := wordOf(x.args[0])
					a.rep.obl("C13", st, at, "select-index", !wok || w == 1, "SELECT takes its index from another word of the request")
					if !wok && hasWord(x.args[0]) && derived(x.args[0]) {
						a.rep.obl("C13", st, at, "select-index", false, "SELECT does not read its index from the whole word: "+short(x.args[0]))
					}
				} else if _, isC := i.constInt(); isC || i.op == OBin {
					a.rep.obl("C13", st, at, "select-index", false, "SELECT chooses another database than asked for: "+short(i))
				}
			}
			if h.isSelect(st) == 1 {
				st.flags["selected"] = true
				st.heap[mk(OGhost, "selected", tBool)] = mkBool(true)
			}
		}
	}
}

func (h *handleRules) mapWrite(st *State, at ssa.Instruction, m T) {
	r := h.a.rootOf(st, m)
	if r != nil && (r.op == ORoot || r.op == OGlobal) {
		h.a.rep.obl("C14", st, at, "shared-map", len(st.held) > 0, "a map shared by all connections is written without a lock: "+short(m))
	}
}

// globalWrite: package variables written while serving.
func (a *Analysis) globalWrite(st *State, at ssa.Instruction, addr T, write bool) {
	if write {
		a.rep.obl("C14", st, at, "global", len(st.held) > 0, "a package variable is written without a lock: "+short(addr))
	}
}

func (h *handleRules) goStmt(st *State, at *ssa.Go, fn T, args []T) {
	var f *ssa.Function
	if fn != nil {
		f, _ = fn.aux.(*ssa.Function)
	}
	if f == nil {
		return
	}
	bad := h.a.reaches(f, func(i ssa.Instruction) bool { return isExecCall(i) || isConnInvoke(i, "Write") })
	h.a.rep.obl("C12", st, at, "in-order", !bad, "requests of one connection are executed or answered concurrently")
}

func (h *handleRules) finish(o *Outcome, at *ssa.Return) {
	a, st := h.a, o.st
	done := st.flags["err"] || st.flags["chclosed"]
	closed := st.flags["connclosed"]
	a.rep.obl("C23", st, at, "serve-until-end", done, "the connection is given up although the client is still there (its parser then waits forever)")
	a.rep.obl("C23", st, at, "socket-closed", closed, "the connection ends without closing the socket")
	h.endRequest(st, at)
}
