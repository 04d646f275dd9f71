package main

import (
	"go/types"
	"strings"
)

func (c *Ck) strIs(s string) bool {
	if c.r.kind != "str" {
		return false
	}
	v, ok := c.r.val.constStr()
	return ok && v == s
}

// lenIs: the integer reply is the length of a value.
func (c *Ck) lenIs(rule string, v T, what string) {
	if v == nil {
		return
	}
	if !c.ok("C24", rule, c.r.kind == "int", "the reply is not the %s", what) {
		return
	}
	ln := c.a.lenTerm(c.st, v)
	c.ok("C24", rule, c.eqInt(c.r.val, ln), "the reply is not the %s", what)
}

func (c *Ck) countIs(rule string, n T, what string) {
	if n == nil {
		return
	}
	c.ok("C24", rule, c.r.kind == "int" && c.eqInt(c.r.val, n), "the reply is not the number of %s", what)
}

// changeIs: the reply is the number of elements put into ("ins") or taken out of ("del") a map.
func (c *Ck) changeIs(rule, how string, m T, what string) {
	if m == nil {
		return
	}
	other := map[string]string{"ins": "del", "del": "ins"}[how]
	if z, ok := c.ghost(other, m).constInt(); ok && z == 0 && c.r.kind == "int" && c.r.val != nil {
		cell := mk(OMLen, nil, types.Typ[types.Int], m)
		now, ini := c.a.mlen(c.st, m), mk(OLd, nil, types.Typ[types.Int], cell)
		if r := c.a.rootOf(c.st, m); r != nil && r.op == OObj {
			ini = mkInt(0)
		}
		if how == "del" {
			now, ini = ini, now
		}
		if linSum(c.r.val) == linSum(mk(OBin, "-", types.Typ[types.Int], now, ini)) {
			c.ok("C24", rule, true, "")
			return
		}
	}
	c.countIs(rule, c.ghost(how, m), what)
}

func postPing(c *Ck, scen map[int]byte) {
	if c.n == 1 {
		c.ok("C27", "ping", c.strIs("PONG"), "PING does not answer PONG")
	} else if c.n == 2 && c.ok("C27", "ping", c.r.kind == "bulk", "PING with a message does not answer the message") {
		c.value("C27", "ping", c.r.val, c.word(1), "the reply to PING")
	}
}

func (c *Ck) live(scen map[int]byte) int64 {
	n := int64(0)
	for i := range c.kv {
		if scen[i] == 'L' {
			n++
		}
	}
	return n
}

func postDel(c *Ck, scen map[int]byte) {
	n := int64(0)
	anyX := false
	for i, v := range c.kv {
		if scen[i] == 'L' {
			n++
			c.ok("C21", "del", v.effect == "del", "DEL leaves a live key in place")
		} else {
			c.ok("C21", "del", v.effect == "same" || v.effect == "del", "DEL creates a key")
			if v.status != "A" {
				anyX = true
			}
		}
		if v.rec.cur == 'D' {
			c.ok("C06", "deleted-deadline", v.rec.exp == 'D' || v.rec.initExp == 'N', "DEL leaves the deadline of a key behind")
		}
	}
	good := c.intIs(n)
	c.ok("C24", "del", good, "DEL does not answer the number of keys it deleted (%d)", n)
	if anyX {
		c.ok("C05", "del", good, "DEL counts an expired key as deleted")
	}
}

func postExists(c *Ck, scen map[int]byte) {
	n := c.live(scen)
	good := c.intIs(n)
	c.ok("C24", "exists", good, "EXISTS does not answer the number of existing keys (%d)", n)
	for i, v := range c.kv {
		if scen[i] == 'A' && v.status != "A" {
			c.ok("C05", "exists", good, "EXISTS counts an expired key")
		}
	}
}

func isNowPlus(t T) (T, bool) {
	if t == nil {
		return nil, false
	}
	// (x + now)
	if t.op == OBin && t.aux == "+" {
		for j := 0; j < 2; j++ {
			if t.args[j] == nowTerm() {
				return t.args[1-j], true
			}
		}
	}
	return nil, false
}

// deadlineIs: the deadline stored is the wanted integer.
func (c *Ck) deadlineIs(v *KV, want func(x T) bool, what string) {
	if v.rec.exp != 'S' {
		c.ok("C06", "deadline", false, "no deadline is stored")
		return
	}
	e := unbox(v.rec.expVal)
	if opaque(e) {
		return
	}
	c.ok("C06", "deadline", want(e), "the deadline stored is not %s but %s", what, short(e))
}

// parsed: t is the number written in word i.
func (c *Ck) parsed(t T, i int) bool {
	for t != nil && t.op == OConv && len(t.args) == 1 && isInt(t.typ) {
		t = t.args[0]
	}
	if t == nil || t.op != OCall {
		return false
	}
	n := t.aux.(string)
	if !strings.HasPrefix(n, "strconv.ParseInt#0") && !strings.HasPrefix(n, "strconv.Atoi#0") {
		return false
	}
	return content(t.args[0]) == c.key(i)
}

func (c *Ck) nowPlusParsed(i int) func(T) bool {
	return func(e T) bool {
		x, ok := isNowPlus(e)
		return ok && c.parsed(x, i)
	}
}

func (c *Ck) nowPlusDiv(i int) func(T) bool {
	return func(e T) bool {
		x, ok := isNowPlus(e)
		return ok && c.div1000(x, i)
	}
}

func (c *Ck) div1000(x T, i int) bool {
	if x == nil || x.op != OBin && x.op != OCall {
		return false
	}
	s, _ := x.aux.(string)
	if s != "/" || len(x.args) != 2 {
		return false
	}
	k, ok := x.args[1].constInt()
	return ok && k == 1000 && c.parsed(x.args[0], i)
}

func postExpire(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		c.miss(1, "missing-deadline", v.texp != "set", "EXPIRE gives a deadline to a missing key")
		return
	}
	c.ok("C21", "expire", v.effect == "same", "EXPIRE changes or removes the value")
	set := v.texp == "set"
	c.ok("C06", "expire-clears", v.texp != "clear", "EXPIRE drops the deadline")
	if set {
		c.ok("C24", "expire", c.intIs(1), "EXPIRE sets a deadline and does not answer 1")
		c.deadlineIs(v, c.nowPlusParsed(2), "the current time plus the seconds given")
	} else {
		c.ok("C24", "expire", c.intIs(0), "EXPIRE sets no deadline and does not answer 0")
	}
	if c.n == 3 {
		c.ok("C06", "expire", set, "EXPIRE on a live key sets no deadline")
	}
	if c.n == 4 && v.rec.initExp != 0 {
		has := v.rec.initExp == 'E'
		switch c.option(3) {
		case "nx":
			c.ok("C06", "expire-nx", set == !has, "EXPIRE NX does not depend on the key having no deadline")
		case "xx":
			c.ok("C06", "expire-xx", set == has, "EXPIRE XX does not depend on the key having a deadline")
		case "gt", "lt":
			if set && !has {
				c.ok("C06", "expire-gt-lt", false, "EXPIRE GT/LT gives a deadline to a key that has none")
			} else if set {
				dl := deadlineTerm(v.key)
				e := unbox(v.rec.expVal)
				c.a.ensure(c.st, e)
				if c.option(3) == "gt" {
					c.ok("C06", "expire-gt-lt", c.st.num.provesLE(dl, e, -1), "EXPIRE GT sets a deadline that is not later")
				} else {
					c.ok("C06", "expire-gt-lt", c.st.num.provesLE(e, dl, -1), "EXPIRE LT sets a deadline that is not earlier")
				}
			}
		}
	}
}

func postPersist(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	c.ok("C21", "persist", v.effect == "same", "PERSIST changes or removes the value")
	c.ok("C06", "persist", v.texp != "set", "PERSIST sets a deadline")
	gone := v.rec.exp == 'D' || v.rec.initExp == 'N'
	c.ok("C06", "persist", gone, "PERSIST leaves the deadline in place")
	switch v.rec.initExp {
	case 'E':
		c.ok("C24", "persist", c.intIs(1), "PERSIST removes a deadline and does not answer 1")
	case 'N':
		c.ok("C24", "persist", c.intIs(0), "PERSIST finds no deadline and does not answer 0")
	}
}

func postTTL(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	if !c.ok("C06", "ttl", c.r.kind == "int", "TTL does not answer a number") {
		return
	}
	switch v.rec.initExp {
	case 'N':
		c.ok("C06", "ttl", c.intIs(-1), "TTL of a key without a deadline is not -1")
	case 'E':
		want := mk(OBin, "-", types.Typ[types.Int64], deadlineTerm(v.key), nowTerm())
		if !opaque(c.r.val) {
			c.ok("C06", "ttl", linSum(c.r.val) == linSum(want) || c.eqInt(c.r.val, want), "TTL does not answer the time left until the deadline")
		}
	}
}

func postRename(c *Ck, scen map[int]byte) {
	s, d := c.kv[1], c.kv[2]
	if scen[1] == 'A' {
		return
	}
	c.ok("C21", "rename-reply", c.strIs("OK"), "RENAME of an existing key does not answer OK")
	if len(c.ali) > 0 {
		c.ok("C21", "rename", s.effect == "same" || s.effect == "set" && s.rec.val == sv(s.key), "RENAME of a key to its own name loses the value")
		c.keepTTL(s)
		return
	}
	c.ok("C21", "rename", s.effect == "del", "RENAME leaves the old name in place")
	if !c.ok("C21", "rename", d.effect == "set", "RENAME does not store the value under the new name") {
		return
	}
	if d.rec.val != nil && !opaque(d.rec.val) {
		c.ok("C21", "rename", d.rec.val == sv(s.key), "RENAME stores %s instead of the renamed value", short(d.rec.val))
	}
	switch s.rec.initExp {
	case 'N':
		ok := d.rec.exp == 'D' || d.rec.exp == 0 && (d.rec.initExp == 'N' || d.rec.initDict == 'A')
		c.ok("C06", "rename-deadline", ok, "RENAME of a key without a deadline leaves the deadline of the overwritten key in force")
	case 'E':
		if c.ok("C06", "rename-deadline", d.rec.exp == 'S', "RENAME loses the deadline of the renamed key") {
			e := unbox(d.rec.expVal)
			c.ok("C06", "rename-deadline", e == deadlineTerm(s.key) || d.rec.expVal == mk(OSV, "expires", anyType, s.key) || opaque(e), "RENAME does not carry the deadline over")
		}
	default:
		c.ok("C06", "rename-deadline", false, "RENAME does not look at the deadline of the renamed key")
	}
}

var typeWord = map[string]string{"str": "string", "hash": "hash", "list": "list", "set": "set"}

func postType(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	if w := typeWord[v.typ]; w != "" {
		c.ok("C09", "type", c.strIs(w), "TYPE does not answer %s", w)
	} else if strings.Count(v.typ, "!") < 4 {
		s, ok := c.r.val.constStr()
		c.ok("C09", "type", !(ok && c.r.kind == "str"), "TYPE answers %s without establishing the type of the value", s)
	}
}

func postSet(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if c.n == 0 {
		if v != nil && v.effect == "set" {
			c.value("C27", "set", v.rec.val, c.word(2), "the value SET stores")
		}
		return
	}
	opt := ""
	if c.n >= 4 {
		opt = c.option(3)
	}
	stored := v.effect == "set"
	if stored {
		c.value("C27", "set", v.rec.val, c.word(2), "the value SET stores")
	} else {
		if scen[1] == 'L' {
			c.ok("C21", "set", v.effect == "same", "a SET that does not store removes the key")
		}
		c.ok("C06", "set-refused", v.texp == "same" || v.status == "X" || v.rec.initExp == 'N', "a SET that does not store changes the deadline")
	}
	oldVal := c.old(v.key, "str")
	switch {
	case c.n == 3 || c.n == 4 && opt == "get" || c.n == 4 && opt == "keepttl" || c.n == 5 && (opt == "ex" || opt == "px" || opt == "exat" || opt == "pxat"):
		if scen[1] == 'A' {
			c.miss(1, "missing-created", stored, "SET does not store")
		} else {
			c.ok("C27", "set", stored, "SET does not store")
		}
	case c.n == 4 && opt == "nx":
		if scen[1] == 'A' {
			c.miss(1, "missing-created", stored, "SET NX on a missing key does not store")
		} else {
			c.ok("C27", "set-nx", !stored, "SET NX overwrites an existing key")
		}
	case c.n == 4 && opt == "xx":
		if scen[1] == 'A' {
			c.miss(1, "missing-effect", !stored, "SET XX stores although the key is missing")
		} else {
			c.ok("C27", "set-xx", stored, "SET XX on an existing key does not store")
		}
	default:
		if c.n >= 4 && opt == "" && c.n <= 5 {
			c.ok("C19", "set-option", false, "SET accepts a word that is not one of its options")
		}
		return
	}
	if opt == "get" {
		if scen[1] == 'A' {
			c.miss(1, "missing-reply", c.r.kind == "nilbulk", "SET GET on a missing key does not answer nil")
		} else if c.ok("C27", "set-get", c.r.kind == "bulk", "SET GET does not answer the old value") && oldVal != nil {
			c.value("C27", "set-get", c.r.val, oldVal, "the reply of SET GET")
		}
	} else if stored {
		c.ok("C27", "set-reply", c.strIs("OK"), "a SET that stores does not answer OK")
	} else {
		c.ok("C27", "set-reply", c.r.kind == "nilbulk", "a SET that does not store does not answer nil")
	}
	if !stored {
		return
	}
	switch opt {
	case "ex":
		c.deadlineIs(v, c.nowPlusParsed(4), "the current time plus the seconds given")
	case "px":
		c.deadlineIs(v, c.nowPlusDiv(4), "the current time plus the milliseconds given")
	case "exat":
		c.deadlineIs(v, func(e T) bool { return c.parsed(e, 4) }, "the time given")
	case "pxat":
		c.deadlineIs(v, func(e T) bool { return c.div1000(e, 4) }, "the time given")
	case "keepttl":
		if scen[1] == 'L' {
			c.keepTTL(v)
		} else {
			c.created(v, "C06")
		}
	default:
		if scen[1] == 'L' {
			c.noTTL(v)
		} else {
			c.created(v, "C06")
		}
	}
}

func postGet(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	if c.ok("C27", "get", c.r.kind == "bulk", "GET of a live string does not answer its value") {
		if o := c.old(v.key, "str"); o != nil {
			c.value("C27", "get", c.r.val, o, "the reply of GET")
		}
	}
}

func postGetRange(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	if c.ok("C27", "getrange", c.r.kind == "bulk", "GETRANGE of a live string does not answer a string") {
		o := c.old(v.key, "str")
		t := c.r.val
		if t.op == OSub && o != nil && t.args[0] != o && !opaque(t.args[0]) {
			c.ok("C27", "getrange", false, "GETRANGE answers part of %s", short(t.args[0]))
		}
	}
}

func postSetRange(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if c.ok("C27", "setrange", v.effect == "set", "SETRANGE does not store") {
		c.lenIs("setrange", unbox(v.rec.val), "length of the value stored")
	}
}

func postMGet(c *Ck, scen map[int]byte) {
	if c.r.kind != "arr" {
		c.ok("C27", "mget", false, "MGET does not answer an array")
		return
	}
	es, ok := c.a.elems(c.st, c.r.val)
	if !ok {
		return
	}
	if !c.ok("C27", "mget", len(es) == c.n-1, "MGET answers %d values for %d keys", len(es), c.n-1) {
		return
	}
	for i, e := range es {
		v := c.kv[i+1]
		r := c.a.reply(c.st, e)
		if scen[i+1] == 'A' {
			c.miss(i+1, "missing-reply", r.kind == "nilbulk", "MGET does not answer nil for a missing key")
			continue
		}
		if v.typ == "str" {
			if c.ok("C27", "mget", r.kind == "bulk", "MGET does not answer the value of a live string") {
				c.value("C27", "mget", r.val, c.old(v.key, "str"), "the value MGET answers")
			}
		} else if v.typ != "" {
			c.ok("C09", "mget", r.kind == "nilbulk", "MGET does not answer nil for a key that is not a string")
		} else {
			c.ok("C27", "mget", r.kind == "bulk" && r.val != nil && opaque(r.val), "MGET answers for a live key without looking at its value")
		}
	}
}

func postMSet(c *Ck, scen map[int]byte) {
	c.ok("C27", "mset", c.strIs("OK"), "MSET does not answer OK")
	for i, v := range c.kv {
		if !c.ok("C27", "mset", v.effect == "set", "MSET does not store one of its keys") {
			continue
		}
		c.value("C27", "mset", v.rec.val, c.word(i+1), "a value MSET stores")
		if scen[i] == 'L' {
			c.noTTL(v)
		} else if v.status == "A" {
			c.created(v, "C06")
		} else {
			c.ok("C05", "mset", v.rec.exp == 'D' || v.rec.initExp == 'N', "MSET leaves the past deadline of an expired key on the new value")
		}
	}
}

func postSetEx(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if !c.ok("C27", "setex", v.effect == "set", "SETEX does not store") {
		return
	}
	c.ok("C27", "setex", c.strIs("OK"), "SETEX does not answer OK")
	c.value("C27", "setex", v.rec.val, c.word(3), "the value SETEX stores")
	c.deadlineIs(v, c.nowPlusParsed(2), "the current time plus the seconds given")
}

func postSetNx(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'L' {
		c.ok("C27", "setnx", v.effect == "same" && v.texp == "same", "SETNX changes an existing key")
		c.ok("C24", "setnx", c.intIs(0), "SETNX on an existing key does not answer 0")
		return
	}
	if v.effect == "set" {
		c.value("C27", "setnx", v.rec.val, c.word(2), "the value SETNX stores")
		c.ok("C24", "setnx", c.intIs(1), "a SETNX that stores does not answer 1")
	}
}

func postStrLen(c *Ck, scen map[int]byte) {
	if scen[1] == 'L' {
		c.lenIs("strlen", c.old(c.kv[1].key, "str"), "length of the string")
	}
}

// formatted: the number a stored value is the decimal writing of.
func formatted(v T) T {
	v = unbox(v)
	for v != nil && v.op == OConv && (v.aux == "bytes" || v.aux == "str") && len(v.args) == 1 {
		v = v.args[0]
	}
	if v == nil {
		return nil
	}
	if v.op == OCall {
		n := v.aux.(string)
		if strings.HasPrefix(n, "strconv.FormatInt") || strings.HasPrefix(n, "strconv.Itoa") || strings.HasPrefix(n, "strconv.FormatFloat") {
			return v.args[0]
		}
	}
	return nil
}

// postIncr: what is answered is what is stored, and it is the old number plus the step.
func postIncr(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if !c.ok("C24", "incr", v.effect == "set", "the new number is not stored") {
		return
	}
	c.number(v.rec.val, func() (T, bool) {
		if scen[1] == 'A' {
			return nil, true
		}
		o := c.old(v.key, "str")
		return o, o != nil
	}, c.n-1)
}

// number checks a counter: stored and answered numbers agree and equal old + step.
func (c *Ck) number(stored T, old func() (T, bool), step int) {
	float := strings.HasSuffix(c.name, "float")
	if float {
		if c.ok("C24", "incr-reply", c.r.kind == "bulk", "the reply is not the new number") {
			if c.sameBytes(c.r.val, stored) == 0 {
				c.ok("C24", "incr-reply", false, "the reply differs from the number stored")
			} else {
				c.ok("C24", "incr-reply", true, "")
			}
		}
		return
	}
	if !c.ok("C24", "incr-reply", c.r.kind == "int", "the reply is not the new number") {
		return
	}
	f := formatted(stored)
	if s, ok := content(unbox(stored)).constStr(); ok {
		cv, okc := constOf(linSum(c.r.val))
		c.ok("C24", "incr-reply", okc && itoa(cv) == s, "the reply differs from the number stored")
	} else if f != nil {
		c.ok("C24", "incr-reply", linSum(f) == linSum(c.r.val) || c.eqInt(f, c.r.val), "the reply differs from the number stored")
	}
	o, known := old()
	if !known || opaque(c.r.val) {
		return
	}
	var want string
	parse := func(x T) T { return mk(OCall, "strconv.ParseInt#0", types.Typ[types.Int64], content(x)) }
	one := mkInt(1)
	var st T
	sign := int64(1)
	switch c.name {
	case "incr":
		st = one
	case "decr":
		st, sign = one, -1
	case "incrby":
		st = parse(c.word(2))
	case "decrby":
		st, sign = parse(c.word(2)), -1
	case "hincrby":
		st = parse(c.word(3))
	default:
		return
	}
	t := st
	if sign < 0 {
		t = mk(OBin, "-", types.Typ[types.Int64], mkInt(0), st)
	}
	if o != nil {
		t = mk(OBin, "+", types.Typ[types.Int64], parse(o), t)
	}
	want = linSum(t)
	c.ok("C24", "incr-step", linSum(c.r.val) == want, "the reply %s is not the old number plus the step asked for", short(c.r.val))
}

func itoa(v int64) string { return mkInt(v).String() }

func postAppend(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if !c.ok("C27", "append", v.effect == "set", "APPEND does not store") {
		return
	}
	c.lenIs("append", unbox(v.rec.val), "length of the value stored")
	got := unbox(v.rec.val)
	if scen[1] == 'A' {
		c.value("C27", "append", got, c.word(2), "the value APPEND stores")
		return
	}
	o := c.old(v.key, "str")
	if o == nil {
		return
	}
	want := mkConcat(content(o), content(c.word(2)))
	g := content(got)
	if g != want && !opaque(g) {
		c.ok("C27", "append", false, "APPEND stores %s instead of the old value followed by the argument", short(g))
	} else {
		c.ok("C27", "append", true, "")
	}
}

// ---- hashes and sets ----

// mapOf: the map left under the key; nil when there is none.
func (c *Ck) mapOf(v *KV) T {
	if v.rec.cur == 'D' {
		return c.table(c.old(v.key, ""))
	}
	return c.table(c.cur(v))
}

func (c *Ck) mem(m, k T) *MemRec {
	if m == nil {
		return nil
	}
	return c.st.mem[inTerm(m, k)]
}

func postMapDel(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	m := c.mapOf(v)
	if m == nil {
		return
	}
	c.changeIs("removed", "del", m, "elements removed")
	if c.n == 0 {
		return
	}
	for i := 2; i < c.n; i++ {
		if r := c.mem(m, c.key(i)); r != nil {
			c.ok("C27", "removed", !r.present, "an element named in the command is still there")
		} else if v.effect == "same" {
			c.ok("C27", "removed", c.n > 3, "the command does not look for the element")
		}
	}
}

func postMapHas(c *Ck, scen map[int]byte) {
	if scen[1] == 'A' {
		return
	}
	m := c.mapOf(c.kv[1])
	if m == nil {
		return
	}
	r := c.mem(m, c.key(2))
	if !c.ok("C24", "member", r != nil, "the answer does not depend on the element asked for") {
		return
	}
	w := int64(0)
	if r.present {
		w = 1
	}
	c.ok("C24", "member", c.intIs(w), "the answer is not %d", w)
}

func postHGet(c *Ck, scen map[int]byte) {
	if scen[1] == 'A' {
		return
	}
	m := c.mapOf(c.kv[1])
	r := c.mem(m, c.key(2))
	if !c.ok("C27", "hget", r != nil, "the answer does not depend on the field asked for") {
		return
	}
	c.fieldReply(c.r, r, "HGET")
}

func (c *Ck) fieldReply(rp Reply, r *MemRec, what string) {
	if !r.present {
		c.ok("C27", "field", rp.kind == "nilbulk", "%s does not answer nil for a missing field", what)
		return
	}
	if rp.kind == "nilbulk" {
		// the stored value itself is nil
		c.ok("C27", "field", r.val.isNil() || c.st.facts[mk(OBin, "==", types.Typ[types.Bool], r.val, mkNil(r.val.typ))], "%s answers nil for a field that is present", what)
		return
	}
	if c.ok("C27", "field", rp.kind == "bulk", "%s does not answer the value of the field", what) {
		c.value("C27", "field", rp.val, r.val, "the value "+what+" answers")
	}
}

func postHMGet(c *Ck, scen map[int]byte) {
	if c.n == 0 {
		return
	}
	if !c.ok("C27", "hmget", c.r.kind == "arr", "HMGET does not answer an array") {
		return
	}
	es, ok := c.a.elems(c.st, c.r.val)
	if !ok {
		return
	}
	good := c.ok("C27", "hmget", len(es) == c.n-2, "HMGET answers %d values for %d fields", len(es), c.n-2)
	if scen[1] == 'A' {
		c.miss(1, "missing-reply", good, "HMGET does not answer one value per field")
		for _, e := range es {
			c.miss(1, "missing-reply", c.a.reply(c.st, e).kind == "nilbulk", "HMGET on a missing key answers a value that is not nil")
		}
		return
	}
	if !good {
		return
	}
	m := c.mapOf(c.kv[1])
	for i, e := range es {
		if r := c.mem(m, c.key(i+2)); r != nil {
			c.fieldReply(c.a.reply(c.st, e), r, "HMGET")
		}
	}
}

func postHSet(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	m := c.mapOf(v)
	if !c.ok("C27", "hset", m != nil || c.cur(v) == nil && opaque(v.rec.val), "no hash is stored") {
		return
	}
	if c.name == "hset" {
		c.changeIs("added", "ins", m, "fields added")
	} else {
		c.ok("C27", "hset", c.strIs("OK"), "HMSET does not answer OK")
	}
	for i := 2; i+1 < c.n; i += 2 {
		r := c.mem(m, c.key(i))
		if r == nil {
			if i == 2 && c.n == 4 {
				c.ok("C27", "hset", false, "the field given is not stored")
			}
			continue
		}
		if c.ok("C27", "hset", r.present, "a field given is not stored") {
			c.value("C27", "hset", r.val, c.word(i+1), "the value stored for a field")
		}
	}
}

func postHSetNx(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	m := c.mapOf(v)
	if m == nil {
		return
	}
	r := c.mem(m, c.key(2))
	if !c.ok("C27", "hsetnx", r != nil && r.present, "the field is not there afterwards") {
		return
	}
	if c.eqInt(c.ghost("ins", m), mkInt(1)) {
		c.ok("C24", "hsetnx", c.intIs(1), "a HSETNX that stores does not answer 1")
		c.value("C27", "hsetnx", r.val, c.word(3), "the value HSETNX stores")
	} else {
		c.ok("C24", "hsetnx", c.intIs(0), "a HSETNX that does not store does not answer 0")
		c.ok("C27", "hsetnx", v.effect == "same", "HSETNX overwrites an existing field")
	}
}

func postHIncr(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	m := c.mapOf(v)
	if m == nil {
		return
	}
	r := c.mem(m, c.key(2))
	if !c.ok("C24", "incr", r != nil && r.present, "the new number is not stored under the field") {
		return
	}
	fresh := c.eqInt(c.ghost("ins", m), mkInt(1))
	c.number(r.val, func() (T, bool) {
		if fresh {
			return nil, true
		}
		// the previous value of the field
		var mt types.Type = r.val.typ
		for _, t := range in.all {
			if t.op == OCall && t.aux == "mapval" && t.args[0] == m && t.args[1] == c.key(2) {
				return t, !c.st.facts[mk(OBin, "==", types.Typ[types.Bool], t, mkNil(mt))]
			}
		}
		return nil, false
	}, 3)
}

func postMapLen(c *Ck, scen map[int]byte) {
	if scen[1] == 'L' {
		if p := c.old(c.kv[1].key, ""); p != nil {
			c.countIs("size", c.size(p), "elements")
		}
	}
}

func postHStrLen(c *Ck, scen map[int]byte) {
	if scen[1] == 'A' {
		return
	}
	m := c.mapOf(c.kv[1])
	r := c.mem(m, c.key(2))
	if !c.ok("C24", "hstrlen", r != nil, "the answer does not depend on the field asked for") {
		return
	}
	if r.present {
		c.lenIs("hstrlen", r.val, "length of the value of the field")
	} else {
		c.ok("C24", "hstrlen", c.intIs(0), "HSTRLEN of a missing field is not 0")
	}
}

func postSAdd(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	m := c.mapOf(v)
	if !c.ok("C27", "sadd", m != nil || c.cur(v) == nil && opaque(v.rec.val), "no set is stored") {
		return
	}
	c.changeIs("added", "ins", m, "members added")
	for i := 2; i < c.n; i++ {
		r := c.mem(m, c.key(i))
		if r == nil {
			c.ok("C27", "sadd", c.n > 3, "the member given is not stored")
			continue
		}
		c.ok("C27", "sadd", r.present, "a member given is not stored")
	}
}

func postSMove(c *Ck, scen map[int]byte) {
	s, d := c.kv[1], c.kv[2]
	if scen[1] == 'A' {
		return
	}
	sm := c.mapOf(s)
	if sm == nil {
		return
	}
	mem := c.key(3)
	rs := c.mem(sm, mem)
	if !c.ok("C21", "smove", rs != nil, "SMOVE does not look for the member in the source") {
		return
	}
	if len(c.ali) > 0 {
		if c.intIs(1) {
			c.ok("C21", "smove", s.effect != "del" && rs.present, "SMOVE from a set to itself loses the member")
		}
		return
	}
	if c.intIs(0) {
		c.ok("C21", "smove", !rs.present && c.eqInt(c.ghost("del", sm), mkInt(0)), "SMOVE answers 0 although the member was in the source")
		c.ok("C21", "smove", s.effect == "same" && (d.effect == "same" || d.status == "X" && d.effect == "del"), "SMOVE answers 0 and changes a set")
		return
	}
	if !c.ok("C24", "smove", c.intIs(1), "SMOVE answers neither 0 nor 1") {
		return
	}
	c.ok("C24", "smove", c.eqInt(c.ghost("del", sm), mkInt(1)), "SMOVE answers 1 although nothing left the source")
	c.ok("C21", "smove", !rs.present, "SMOVE leaves the member in the source")
	if s.effect == "del" {
		c.emptied(s)
	} else {
		c.keepTTL(s)
	}
	dm := c.mapOf(d)
	rd := c.mem(dm, mem)
	c.ok("C21", "smove", rd != nil && rd.present && d.effect != "del", "SMOVE loses the member: it is not in the destination")
	if scen[2] == 'A' {
		c.miss(2, "missing-created", d.effect == "set", "the destination is not created afresh")
		if d.effect == "set" {
			c.created(d, "C06")
		}
	} else {
		c.keepTTL(d)
	}
}

func postSPop(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	m := c.mapOf(v)
	if m == nil {
		return
	}
	if c.n == 2 {
		if !c.ok("C21", "spop", c.r.kind == "bulk", "SPOP of a live set does not answer a member") {
			return
		}
		c.ok("C21", "spop", c.eqInt(c.ghost("del", m), mkInt(1)), "SPOP does not remove exactly one member")
		if k := content(c.r.val); k != nil {
			if r := c.mem(m, k); r != nil {
				c.ok("C21", "spop", !r.present, "SPOP answers a member it leaves in the set")
			} else if !k.hasStar && k.op != OStar {
				c.ok("C21", "spop", false, "SPOP answers something that is not the member removed")
			}
		}
		return
	}
	if c.r.kind == "arr" && c.r.val != nil {
		if n, k := c.ghost("del", m), c.a.lenTerm(c.st, c.r.val); n != nil && k != nil {
			c.a.ensure(c.st, n)
			c.a.ensure(c.st, k)
			d, e := c.st.num.maxDiff(n, k), c.st.num.maxDiff(k, n)
			c.ok("C21", "spop", d <= 0 || d == INF && e > 8, "SPOP removes more members than it answers")
		}
		c.asMany(c.size(c.cur(v)), c.oldSize(c.cur(v)), v)
	}
}

func postStore(c *Ck, scen map[int]byte) {
	d := c.kv[1]
	if d.effect == "set" {
		c.countIs("stored", c.size(unbox(d.rec.val)), "members stored")
		ok := d.rec.exp == 'D' || d.rec.exp == 0 && (d.rec.initExp == 'N' || d.rec.initDict == 'A')
		c.ok("C06", "clear-deadline", ok, "the destination keeps the deadline of the value it held before")
		if v := d.rec.val; v != nil && !opaque(v) && v.op == OSV {
			c.ok("C22", "alias", false, "the destination shares the set of a source")
		}
		return
	}
	c.ok("C24", "stored", c.intIs(0), "nothing is stored and the reply is not 0")
	if scen[1] == 'L' {
		c.ok("C22", "stale", d.effect == "del", "an empty result leaves the old value at the destination")
	} else {
		c.ok("C22", "stale", d.effect != "mod", "the old value at the destination is modified")
	}
}

// ---- lists ----

func (c *Ck) list(v *KV) T {
	if v.rec.cur == 'D' {
		return c.old(v.key, "")
	}
	return c.cur(v)
}

func postLLen(c *Ck, scen map[int]byte) { postMapLen(c, scen) }

func postPush(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' && c.sp.miss != "create" {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	c.countIs("length", c.size(l), "elements in the list")
	if c.n == 0 {
		return
	}
	// the elements pushed, from the end they were pushed at
	left := strings.HasPrefix(c.name, "l")
	nd := c.end(l, left)
	for i := c.n - 1; i >= 2; i-- {
		if nd == nil {
			return
		}
		val := c.nodeVal(nd)
		if val == nil {
			return
		}
		switch c.sameBytes(val, c.word(i)) {
		case 0:
			c.ok("C27", "push", false, "an element pushed is not at the %s of the list: found %s", endText(left), short(val))
			return
		case 1:
			c.ok("C27", "push", true, "")
		}
		nd = c.step(nd, left)
	}
}

func endText(left bool) string {
	if left {
		return "head"
	}
	return "tail"
}

func postLPop(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	left := strings.HasPrefix(c.name, "l")
	old := c.oldSize(l)
	if c.r.kind == "bulk" || c.r.kind == "nilbulk" {
		if d, ok := addTerm(old, -1); ok {
			c.ok("C21", "pop", c.eqInt(c.size(l), d), "one element is answered and the length does not drop by one")
		}
		if nd := c.oldEnd(l, left); nd != nil && c.r.kind == "bulk" {
			val := c.oldVal(nd)
			if val != nil && c.r.val != val && !opaque(c.r.val) {
				c.ok("C27", "pop", false, "the element answered is not the %s of the list", endText(left))
			} else {
				c.ok("C27", "pop", true, "")
			}
		}
		return
	}
	if c.r.kind == "arr" && c.r.val != nil {
		c.asMany(c.size(l), c.oldSize(l), v)
	}
}

// sumIs: x + y == z.
func (c *Ck) sumIs(x, y, z T) bool {
	s := mk(OBin, "+", types.Typ[types.Int], x, y)
	if linSum(s) == linSum(z) {
		return true
	}
	if v, ok := z.constInt(); ok {
		_ = v
	}
	// z - x == y
	if k, ok := x.constInt(); ok {
		t, _ := addTerm(y, k)
		return c.eqInt(t, z)
	}
	if k, ok := y.constInt(); ok {
		t, _ := addTerm(x, k)
		return c.eqInt(t, z)
	}
	lx, ux := c.a.bounds(c.st, x)
	if lx == ux {
		t, _ := addTerm(y, lx)
		return c.eqInt(t, z)
	}
	ly, uy := c.a.bounds(c.st, y)
	if ly == uy {
		t, _ := addTerm(x, ly)
		return c.eqInt(t, z)
	}
	return false
}

// postLRem: the number of elements removed is within the one asked for, and it is that number where the search ended
// because of it.
func postLRem(c *Ck, scen map[int]byte) {
	p := c.numWord(2)
	if p == nil || c.isErr() || c.r.kind != "int" || c.r.val == nil || scen[1] == 'A' {
		return
	}
	want := p
	switch lo, hi := c.a.bounds(c.st, p); {
	case hi < 0:
		want = sub(mkInt(0), p)
	case lo <= 0:
		return
	}
	c.a.ensure(c.st, c.r.val)
	d, e := c.maxSum(c.r.val, want), c.maxSum(want, c.r.val)
	c.ok("C17", "removed", d <= 0 || d > 8, "LREM may remove more elements than asked for")
	c.ok("C17", "removed", e <= 0 || e > 8, "LREM stops before it has removed the elements asked for")
}

func postLInsert(c *Ck, scen map[int]byte) {
	v := c.kv[1]
	if scen[1] == 'A' {
		return
	}
	l := c.list(v)
	if l == nil {
		return
	}
	if v.effect == "same" {
		c.ok("C24", "linsert", c.intIs(-1), "LINSERT inserts nothing and does not answer -1")
		return
	}
	c.countIs("length", c.size(l), "elements in the list")
	if d, ok := addTerm(c.oldSize(l), 1); ok {
		c.ok("C21", "linsert", c.eqInt(c.size(l), d), "LINSERT does not insert exactly one element")
	}
	c.insertedAt(l)
}

func postLMove(c *Ck, scen map[int]byte) {
	s, d := c.kv[1], c.kv[2]
	if scen[1] == 'A' {
		return
	}
	if !c.ok("C21", "lmove", c.r.kind == "bulk" || c.r.kind == "nilbulk", "LMOVE of a live list does not answer the element moved") {
		return
	}
	sl, dl := c.list(s), c.list(d)
	if sl == nil || dl == nil {
		return
	}
	if len(c.ali) > 0 {
		c.ok("C21", "lmove", s.effect != "del" && c.eqInt(c.size(sl), c.oldSize(sl)), "LMOVE within one list changes its length")
		return
	}
	if t, ok := addTerm(c.oldSize(sl), -1); ok {
		c.ok("C21", "lmove", c.eqInt(c.size(sl), t), "LMOVE does not take exactly one element from the source")
	}
	if scen[2] == 'A' {
		c.miss(2, "missing-created", d.effect == "set", "the destination is not created afresh")
		if d.effect == "set" {
			c.created(d, "C06")
			c.ok("C21", "lmove", c.eqInt(c.size(dl), mkInt(1)), "LMOVE does not add exactly one element to the destination")
		}
	} else {
		if t, ok := addTerm(c.oldSize(dl), 1); ok {
			c.ok("C21", "lmove", c.eqInt(c.size(dl), t), "LMOVE does not add exactly one element to the destination")
		}
		c.keepTTL(d)
	}
	if s.effect == "del" {
		c.emptied(s)
	} else {
		c.keepTTL(s)
	}
	from, to := c.option(3), c.option(4)
	if from != "left" && from != "right" || to != "left" && to != "right" {
		// a test of the one keyword leaves the other
		return
	}
	if nd := c.oldEnd(sl, from == "left"); nd != nil {
		moved := c.oldVal(nd)
		if moved != nil {
			if c.r.kind == "bulk" {
				c.value("C27", "lmove", c.r.val, moved, "the element LMOVE answers")
			}
			if e := c.end(dl, to == "left"); e != nil {
				if got := c.nodeVal(e); got != nil {
					c.value("C27", "lmove", got, moved, "the element at the "+endText(to == "left")+" of the destination")
				}
			}
		}
	}
}
