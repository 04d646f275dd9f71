package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ck is one way a command can end, being compared with what its users rely on.
type Ck struct {
	strict bool
	a      *Analysis
	name   string
	sp     *CmdSpec
	o      *Outcome
	st     *State
	at     *ssa.Return
	r      Reply
	n      int // number of words, 0 when not fixed on this path
	cmd    T
	kv     map[int]*KV
	ali    map[int]int
}

func (c *Ck) ok(prop, rule string, cond bool, format string, args ...any) bool {
	msg := ""
	if !cond {
		msg = fmt.Sprintf(format, args...) + c.where()
	}
	c.a.rep.obl(prop, c.st, c.at, rule, cond, msg)
	return cond
}

func (c *Ck) where() string {
	var l []string
	for i, v := range c.kv {
		l = append(l, fmt.Sprintf("key #%d %s%s, value %s, deadline %s", i, statusText(v.status), typText(v.typ), v.effect, v.texp))
	}
	sort.Strings(l)
	s := "; reply " + c.r.String()
	if len(l) > 0 {
		s += "; " + strings.Join(l, "; ")
	}
	return " (" + strings.ToUpper(c.name) + c.a.root.variantText() + s + ")"
}

func (r *Root) variantText() string {
	if r.variant == "" {
		return ""
	}
	return " [" + r.variant + "]"
}

func statusText(s string) string {
	switch s {
	case "A":
		return "missing"
	case "X":
		return "expired"
	case "V":
		return "live"
	case "U":
		return "present with unexamined deadline"
	}
	return "not examined"
}

func typText(t string) string {
	if t == "" {
		return ""
	}
	return " (" + t + ")"
}

func (a *Analysis) cmdRoot() T {
	return mk(ORoot, "cmd", a.root.fn.Signature.Params().At(1).Type())
}

// word is the i-th word of the command; key the same as a string.
func (c *Ck) word(i int) T {
	if j, ok := c.ali[i]; ok {
		i = j
	}
	et := c.cmd.typ.Underlying().(*types.Slice).Elem()
	return mk(OLd, nil, et, mkIA(c.cmd, mkInt(int64(i)), types.NewPointer(et)))
}

func (c *Ck) key(i int) T { return mk(OConv, "str", tStr, c.word(i)) }

func sv(k T) T { return mk(OSV, "dict", anyType, k) }

// the value stored under a key when the command started, as its data type
func (c *Ck) old(k T, typ string) T {
	r := c.st.keys[k]
	if r == nil || r.initType == "" {
		return nil
	}
	tn := r.initType
	for _, t := range in.all {
		if t.op == OCast && t.aux == tn && t.args[0].op == OSV && t.args[0].args[0] == k && t.args[0].aux == "dict" {
			return t
		}
	}
	return nil
}

// opaque: the term mentions values the analysis does not follow.
func opaque(t T) bool {
	if t == nil {
		return true
	}
	if t.hasStar {
		return true
	}
	switch t.op {
	case OSym, OObj, OStar:
		return true
	}
	for _, x := range t.args {
		if opaque(x) {
			return true
		}
	}
	return false
}

func unbox(t T) T {
	if t != nil && t.op == OIface {
		return t.args[0]
	}
	return t
}

// sameBytes compares byte values: 1 equal, 0 different, -1 not known.
func (c *Ck) sameBytes(x, y T) int {
	if x == nil || y == nil {
		return -1
	}
	x, y = unbox(x), unbox(y)
	if x == y {
		return 1
	}
	cx, cy := content(x), content(y)
	if cx == cy {
		return 1
	}
	if opaque(cx) || opaque(cy) {
		return -1
	}
	return 0
}

// eqInt: the two integers are equal on this path.
func (c *Ck) eqInt(x, y T) bool {
	if x == nil || y == nil {
		return false
	}
	if x == y {
		return true
	}
	if sx, sy := linSum(x), linSum(y); sx == sy {
		return true
	}
	c.a.ensure(c.st, x)
	c.a.ensure(c.st, y)
	return c.st.num.provesLE(x, y, 0) && c.st.num.provesLE(y, x, 0)
}

// linSum writes an integer term as a sorted sum.
func linSum(t T) string {
	s, k := linForm(t)
	return fmt.Sprintf("%s+%d", s, k)
}

// wide: an integer type that holds every length.
func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// linForm: a sum in normal form and its constant.
func linForm(t T) (string, int64) {
	m := map[string]int64{}
	var k int64
	var walk func(t T, s int64)
	walk = func(t T, s int64) {
		if v, ok := t.constInt(); ok {
			k += s * v
			return
		}
		if t.op == OBin {
			switch t.aux {
			case "+", "+c":
				walk(t.args[0], s)
				walk(t.args[1], s)
				return
			case "-":
				walk(t.args[0], s)
				walk(t.args[1], -s)
				return
			case "*":
				if v, ok := t.args[0].constInt(); ok {
					walk(t.args[1], s*v)
					return
				}
				if v, ok := t.args[1].constInt(); ok {
					walk(t.args[0], s*v)
					return
				}
			}
		}
		if t.op == OConv && len(t.args) == 1 && t.typ != nil && t.args[0].typ != nil && isInt(t.typ) && isInt(t.args[0].typ) && wide(t.typ) {
			walk(t.args[0], s)
			return
		}
		if t.op == OCall {
			// Atoi(s) and ParseInt(s, 10, 64) agree
			n, _ := t.aux.(string)
			if n == "strconv.Atoi#0" || n == "strconv.ParseInt#0" {
				m["parse:"+content(t.args[0]).String()+fmt.Sprint(content(t.args[0]).id)] += s
				return
			}
		}
		m[fmt.Sprint(t.id)] += s
	}
	walk(t, 1)
	var l []string
	for x, v := range m {
		if v != 0 {
			l = append(l, fmt.Sprintf("%d*%s", v, x))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "+"), k
}

func constOf(s string) (int64, bool) {
	if !strings.HasPrefix(s, "+") {
		return 0, false
	}
	var v int64
	_, err := fmt.Sscanf(s[1:], "%d", &v)
	return v, err == nil
}

func (c *Ck) intIs(v int64) bool {
	if c.r.kind != "int" || c.r.val == nil {
		return false
	}
	return c.eqInt(c.r.val, mkInt(v))
}

// option returns the lower-cased keyword word i was found to be.
func (c *Ck) option(i int) string {
	w := c.key(i)
	for f, v := range c.st.facts {
		if !v || f.op != OBin || f.aux != "==" {
			continue
		}
		for j := 0; j < 2; j++ {
			s, ok := f.args[j].constStr()
			if !ok {
				continue
			}
			t := f.args[1-j]
			if t == w || t.op == OCall && len(t.args) == 1 && t.args[0] == w {
				return strings.ToLower(s)
			}
			if t.op == OConv && len(t.args) == 1 && t.args[0] == c.word(i) {
				return strings.ToLower(s)
			}
		}
	}
	return ""
}

func (a *Analysis) checkCmd(o *Outcome, at *ssa.Return) {
	sp := specs[a.root.name]
	if sp == nil || len(o.ret) != 1 {
		return
	}
	c := &Ck{a: a, name: a.root.name, sp: sp, o: o, st: o.st, at: at, cmd: a.cmdRoot(), kv: map[int]*KV{}, ali: a.root.alias}
	c.r = a.reply(o.st, o.ret[0])
	ln := mkLen(c.cmd)
	lo, hi := a.bounds(c.st, ln)
	if lo == hi && (a.root.variant != "" || sp.min == sp.max) {
		c.n = int(lo)
	}
	if c.n > 0 {
		for _, i := range sp.keys(c.n) {
			if i < c.n {
				c.kv[i] = a.view(c.st, c.key(i))
			}
		}
	} else if l := sp.keys(2); len(l) == 1 && len(sp.keys(9)) == 1 {
		// a single key whatever the number of words
		if lo > 1 {
			c.kv[1] = a.view(c.st, c.key(1))
		}
	}
	if a.race {
		c.raced()
		return
	}
	c.generic(ln, lo, hi)
}

// raced checks a path on which other clients may act whenever the command holds no lock.
func (c *Ck) raced() {
	c.ok("C03", "released", len(c.st.held) == 0, "the command returns while still holding %d lock(s)", len(c.st.held))
	if c.isErr() {
		return
	}
	v := c.kv[1]
	if v == nil {
		return
	}
	switch c.name {
	case "expire":
		bad := false
		if set := v.rec.exp == 'S'; set {
			dl, e := deadlineTerm(v.key), unbox(v.rec.expVal)
			c.a.ensure(c.st, e)
			switch c.option(3) {
			case "nx":
				bad = v.rec.initExp != 'N'
			case "xx":
				bad = v.rec.initExp != 'E'
			case "gt":
				bad = v.rec.initExp != 'E' || !c.st.num.provesLE(dl, e, -1)
			case "lt":
				bad = v.rec.initExp != 'E' || !c.st.num.provesLE(e, dl, -1)
			}
		}
		c.ok("C01", "stale-deadline", !bad, "EXPIRE sets the deadline depending on one read before the key was locked")
	case "ttl":
		if c.r.kind == "int" && !c.intIs(-2) {
			c.ok("C01", "stale-deadline", v.rec.initExp != 0, "TTL answers from a deadline read before the key was locked")
		}
	case "rename":
		if w := c.kv[2]; w != nil && v.rec.cur == 'D' {
			c.ok("C01", "stale-deadline", (v.rec.initExp == 'E') == (w.rec.exp == 'S'), "RENAME moves a deadline that was read before the keys were locked")
		}
	}
}

func (c *Ck) isErr() bool { return c.r.kind == "err" }

func (c *Ck) generic(ln T, lo, hi int64) {
	a, st, sp := c.a, c.st, c.sp
	// locks released
	c.ok("C03", "released", len(st.held) == 0, "the command returns while still holding %d lock(s)", len(st.held))
	// a reply
	c.ok("C12", "reply", c.r.kind != "nil" && c.r.kind != "nilptr", "the command ends without a reply value")
	if c.r.kind == "arr" {
		if inf := a.sliceInfo(st, c.r.val); inf != nil {
			for _, it := range inf.items {
				if it.op == OGhost {
					continue
				}
				k := a.reply(st, it).kind
				c.ok("C12", "reply-element", k != "nil" && k != "nilptr", "the array reply holds an element without a value")
			}
		}
	}
	if c.r.kind == "arr" && c.r.val != nil {
		if es, ok := a.elems(st, c.r.val); ok {
			for _, e := range es {
				k := a.reply(st, e).kind
				c.ok("C12", "reply-element", k != "nil" && k != "nilptr", "the array reply holds an element without a value")
			}
		}
	}
	// which keys may be touched at all
	mine := map[T]int{}
	for i, v := range c.kv {
		mine[v.key] = i
	}
	known := c.n > 0 || len(c.kv) > 0 || len(sp.keys(9)) == 0
	var ks []T
	for k := range st.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		v := a.view(st, k)
		_, isMine := mine[k]
		lazy := v.status == "X" && (v.effect == "del" || v.effect == "same") && (v.texp == "clear" || v.texp == "same")
		untouched := v.effect == "same" && v.texp == "same" || lazy
		if known && !isMine && !k.hasStar {
			c.ok("C21", "frame", untouched, "key %s is not one of the keys the command names, yet it is changed", short(k))
		}
		if c.isErr() {
			c.ok("C08", "error-no-effect", untouched, "an error reply leaves key %s changed", short(k))
		}
		if sp.ro {
			c.ok("C16", "read-only", untouched, "the read-only command changes key %s", short(k))
		}
		if st.flags["badarg"] {
			c.ok("C19", "malformed-no-effect", untouched, "an argument that is not a number leaves key %s changed", short(k))
		}
		c.final(k, v)
		if v.rec.used && v.rec.initDict == 'P' {
			c.ok("C05", "examined", v.rec.chk != 2 || v.status != "U", "key %s is used without finding out whether its deadline has passed", short(k))
		}
	}
	// keys tested in a second pass may have been tested in the first
	typedKeys := map[T]bool{}
	for x := range st.arch {
		if ar := parseArch(x); ar.typ != "" {
			typedKeys[ar.key] = true
		}
	}
	for x := range st.arch {
		ar := parseArch(x)
		lazy := ar.exp == "X" && (ar.cur == "D" || ar.cur == "-") && (ar.curExp == "D" || ar.curExp == "-") && !ar.mutated
		untouched := ar.cur == "-" && ar.curExp == "-" && !ar.mutated || lazy
		if c.isErr() {
			c.ok("C08", "error-no-effect", untouched, "an error reply leaves key %s changed", short(ar.key))
		}
		if sp.ro {
			c.ok("C16", "read-only", untouched, "the read-only command changes key %s", short(ar.key))
		}
		if ar.init == "P" {
			c.ok("C05", "examined", !ar.unexamined || ar.exp != "-" && ar.exp != "E", "key %s is used without finding out whether its deadline has passed", short(ar.key))
		}
		if sp.typ != "" && !c.isErr() && c.r.kind != "?" && ar.key.hasStar && len(typedKeys) == 1 && ar.init == "P" && ar.exp != "X" {
			c.ok("C09", "wrong-type", !wrongArch(ar.typ, sp.typ), "a key holding another type of value is not refused (%s)", short(ar.key))
		}
		if ar.cur == "D" {
			c.ok("C06", "deleted-deadline", ar.curExp == "D" || ar.exp == "N" || ar.init == "A", "key %s is deleted and its deadline is left behind", short(ar.key))
		}
	}
	// arity and malformed arguments
	badAr := c.arityBad(ln, lo, hi)
	good := lo >= int64(sp.min) && (sp.max < 0 || hi <= int64(sp.max))
	if good && sp.par >= 0 {
		p, ok := a.parityOf(st, ln)
		good = ok && p == sp.par
	}
	if !c.isErr() && c.r.kind != "?" {
		c.ok("C19", "arity", good, "a number of words the command does not take is accepted (between %d and %d here)", lo, hi)
		c.ok("C19", "malformed", !st.flags["badarg"], "an argument that is not a number is accepted")
		a.root.okLens[[2]int64{lo, hi}] = true
	}
	if c.isErr() && !sp.errOK && !badAr && !st.flags["badarg"] {
		wrong := false
		for i, v := range c.kv {
			if c.typed(i) && (v.status == "V" || v.status == "U") && v.typ != "" && v.typ != sp.typ && !strings.HasPrefix(v.typ, sp.typ) {
				wrong = true
			}
			if sp.miss == "err" && i == 1 && (v.status == "A" || v.status == "X") {
				wrong = true
			}
		}
		typed := len(st.arch) > 0 && sp.typ != "" // a key may have another type
		if c.n > 0 || len(c.kv) > 0 || !typed && good {
			c.ok("C19", "refusal", wrong, "a request with the right number of words, the right types and well-formed numbers is refused")
		}
	}
	c.wellFormed(badAr)
	if badAr {
		return
	}
	c.types()
	if len(c.kv) != len(sp.keys(maxInt(c.n, 2))) || c.n == 0 && len(sp.keys(2)) > 0 && len(c.kv) == 0 {
		return
	}
	c.atomic()
	if c.n == 0 && len(c.kv) == 0 {
		return
	}
	c.scenarios()
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (c *Ck) typed(i int) bool {
	return c.sp.typ != "" && !(c.sp.dest == i)
}

func (c *Ck) arityBad(ln T, lo, hi int64) bool {
	sp := c.sp
	if hi < int64(sp.min) || sp.max >= 0 && lo > int64(sp.max) {
		return true
	}
	if sp.par >= 0 {
		if p, ok := c.a.parityOf(c.st, ln); ok && p != sp.par {
			return true
		}
	}
	if sp.max > 0 && sp.min == sp.max {
		// a hole: len != k
		return lo > int64(sp.max) || hi < int64(sp.min)
	}
	return false
}

// final: what is stored at the end is consistent.
func (c *Ck) final(k T, v *KV) {
	r := v.rec
	absent := r.cur == 'D' || r.cur == 0 && r.initDict == 'A'
	noDl := r.exp == 'D' || r.exp == 0 && (r.initExp == 'N' || r.initDict == 'A')
	if absent {
		c.ok("C06", "absent-deadline", noDl, "key %s no longer exists but keeps a deadline", short(k))
	}
	if v.status == "X" && v.effect == "set" {
		c.ok("C06", "expired-deadline", r.exp != 0, "expired key %s is written again and keeps its old deadline", short(k))
		c.ok("C05", "expired-deadline", r.exp != 0, "expired key %s is written again and keeps its old deadline, so the new value is lost", short(k))
	}
	if v.status == "X" && v.effect == "mod" {
		c.ok("C05", "expired-content", false, "the content of expired key %s is modified as if it were live", short(k))
	}
	// emptied containers
	val := r.val
	if r.cur == 0 {
		if r.initDict != 'P' || !r.mutated {
			return
		}
		val = c.old(k, "")
	}
	if r.cur == 'D' || val == nil {
		return
	}
	if r.cur == 'S' && !r.mutated && val.op == OSV {
		c.shared(k, val)
		return
	}
	c.shared(k, val)
	n := c.size(unbox(val))
	if n == nil {
		return
	}
	c.a.ensure(c.st, n)
	c.ok("C07", "non-empty", c.st.num.provesLE(mkInt(1), n, 0) || c.notZero(n), "key %s may be left holding an empty collection", short(k))
}

// size of a container value: number of map entries or the list length.
func (c *Ck) size(p T) T {
	if p == nil {
		return nil
	}
	pt, ok := typUnder(p).(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			m := c.a.loadRaw(c.st, mk(OFA, i, types.NewPointer(f.Type()), p), f.Type())
			return c.a.mlen(c.st, m)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isInt(f.Type()) {
			return c.a.loadRaw(c.st, mk(OFA, i, types.NewPointer(f.Type()), p), f.Type())
		}
	}
	return nil
}

func (c *Ck) oldSize(p T) T {
	n := c.size(p)
	if n == nil {
		return nil
	}
	pt := typUnder(p).(*types.Pointer)
	s := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			m := mk(OLd, nil, f.Type(), mk(OFA, i, types.NewPointer(f.Type()), p))
			return mk(OLd, nil, types.Typ[types.Int], mk(OMLen, nil, types.Typ[types.Int], m))
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isInt(f.Type()) {
			return mk(OLd, nil, f.Type(), mk(OFA, i, types.NewPointer(f.Type()), p))
		}
	}
	return nil
}

// table: the map of a hash or set value.
func (c *Ck) table(p T) T {
	if p == nil {
		return nil
	}
	pt, ok := typUnder(p).(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			return c.a.loadRaw(c.st, mk(OFA, i, types.NewPointer(f.Type()), p), f.Type())
		}
	}
	return nil
}

func (c *Ck) ghost(name string, m T) T {
	if m == nil {
		return nil
	}
	if v, ok := c.st.heap[mk(OGhost, name, types.Typ[types.Int], m)]; ok {
		return v
	}
	return mkInt(0)
}

// cur: the value stored under a key at the end (nil if none or not known).
func (c *Ck) cur(v *KV) T {
	switch v.rec.cur {
	case 'D':
		return nil
	case 'S':
		if v.rec.val != nil && v.rec.val.op == OSV {
			return c.old(v.rec.val.args[0], "")
		}
		return unbox(v.rec.val)
	}
	if v.rec.initDict == 'P' {
		return c.old(v.key, "")
	}
	return nil
}

// atomic: every key of a multi-key command is used in one critical section.
func (c *Ck) atomic() {
	if !c.sp.multi || c.isErr() {
		return
	}
	var sec *Site
	set := false
	for _, i := range sortedInts(c.kv) {
		v := c.kv[i]
		r := v.rec
		used := r.dictSeen || v.effect == "mod" || v.effect == "set" || v.effect == "del" && !r.lazy
		if !used || r.sec == nil || r.lazy && v.effect == "del" {
			continue
		}
		if set {
			c.ok("C02", "one-step", sec == r.sec, "the keys of the command are used in different critical sections")
		}
		sec, set = r.sec, true
	}
}

func sortedInts(m map[int]*KV) []int {
	var l []int
	for i := range m {
		l = append(l, i)
	}
	sort.Ints(l)
	return l
}

// types: a typed command refuses a live key of another type.
func (c *Ck) types() {
	sp := c.sp
	if sp.typ == "" || c.r.kind == "?" {
		return
	}
	srcMissing := false
	if v := c.kv[1]; v != nil && (c.name == "lmove" || c.name == "smove") && (v.status == "A" || v.status == "X") {
		srcMissing = true
	}
	for i, v := range c.kv {
		if !c.typed(i) || v.status == "A" || v.status == "X" {
			continue
		}
		if srcMissing && i != 1 {
			continue
		}
		right := v.typ == sp.typ
		if c.isErr() {
			continue
		}
		c.ok("C09", "wrong-type", right, "a key holding another type of value is not refused")
	}
}

// scenarios: compare the outcome with the command's specification for every
// situation the path stands for.
func (c *Ck) scenarios() {
	if c.a.witness {
		c.witness()
		return
	}
	is := sortedInts(c.kv)
	scen := map[int]byte{}
	var rec func(j int)
	rec = func(j int) {
		if j == len(is) {
			c.scenario(scen)
			return
		}
		i := is[j]
		if _, al := c.ali[i]; al {
			scen[i] = scen[c.ali[i]]
			rec(j + 1)
			return
		}
		switch c.kv[i].status {
		case "A", "X":
			scen[i] = 'A'
			rec(j + 1)
		case "V":
			scen[i] = 'L'
			rec(j + 1)
		default:
			for _, s := range []byte{'A', 'L'} {
				scen[i] = s
				rec(j + 1)
			}
		}
	}
	rec(0)
}

// missProp: the property a wrong treatment of a missing key breaks.
func (c *Ck) missProp(i int) string {
	if v := c.kv[i]; v != nil && (v.status == "X" || v.status == "U" || v.status == "?") {
		return "C05"
	}
	return "C20"
}

// miss reports a wrong treatment of a key that is missing or expired.
func (c *Ck) miss(i int, rule string, cond bool, format string, args ...any) {
	v := c.kv[i]
	if v != nil && v.status == "A" {
		c.ok("C20", rule, cond, format, args...)
		return
	}
	if v != nil && v.status == "X" {
		c.ok("C05", rule, cond, "expired key: "+format, args...)
		return
	}
	// both are possible on this path
	c.ok("C05", rule, cond, "key that may be expired: "+format, args...)
	if v == nil || v.rec.initDict != 'P' {
		c.ok("C20", rule, cond, format, args...)
	}
}

func (c *Ck) replyIs(want string) bool {
	r := c.r
	switch {
	case want == "nilbulk":
		return r.kind == "nilbulk"
	case want == "err":
		return r.kind == "err"
	case strings.HasPrefix(want, "int:"):
		var v int64
		fmt.Sscanf(want[4:], "%d", &v)
		return c.intIs(v)
	case want == "empty":
		if r.kind != "bulk" {
			return false
		}
		ln := c.a.lenTerm(c.st, r.val)
		return c.eqInt(ln, mkInt(0))
	case want == "arr0":
		return c.emptyArr()
	case want == "nothing":
		return r.kind == "nilbulk" || r.kind == "nilarr" || c.emptyArr()
	case strings.HasPrefix(want, "str:"):
		s, ok := r.val.constStr()
		return r.kind == "str" && ok && s == want[4:]
	}
	return true
}

func (c *Ck) emptyArr() bool {
	if c.r.kind != "arr" {
		return false
	}
	return c.eqInt(c.a.lenTerm(c.st, c.r.val), mkInt(0))
}

func (c *Ck) scenario(scen map[int]byte) {
	sp := c.sp
	if c.isErr() {
		if sp.miss != "err" {
			return
		}
	}
	if c.r.kind == "?" {
		return
	}
	if sp.miss != "" && scen[1] == 'A' {
		v := c.kv[1]
		if sp.miss == "create" {
			c.miss(1, "missing-created", v.effect == "set", "the key is not created afresh")
			if v.effect == "set" {
				c.created(v, "C06")
			}
		} else {
			c.miss(1, "missing-reply", c.replyIs(sp.miss), "the reply is not the one for a missing key (%s)", sp.miss)
			clean := v.effect == "same" || v.effect == "del" && v.status == "X"
			c.miss(1, "missing-effect", clean, "a missing key is changed")
		}
	}
	if sp.miss == "err" && scen[1] == 'A' || c.isErr() {
		return
	}
	if scen[1] == 'L' {
		v := c.kv[1]
		switch sp.role {
		case 'w':
			c.keepTTL(v)
		case 'o':
			c.noTTL(v)
		}
		if sp.role == 'w' && v.effect == "del" {
			c.emptied(v)
		}
		if sp.role == 'r' {
			c.ok("C21", "vanish", v.effect == "same", "a live key is changed")
		}
	}
	if sp.post != nil {
		sp.post(c, scen)
	}
}

// created: a key written afresh has no deadline.
func (c *Ck) created(v *KV, prop string) {
	r := v.rec
	ok := r.exp == 'D' || r.exp == 0 && (r.initExp == 'N' || r.initDict == 'A')
	c.ok(prop, "fresh-deadline", ok, "a key created afresh starts with a deadline")
}

// keepTTL: the command changes the value and leaves the deadline alone.
func (c *Ck) keepTTL(v *KV) {
	if v.effect == "del" {
		return
	}
	same := v.texp == "same" || v.texp == "clear" && v.rec.initExp == 'N'
	if v.texp == "set" && v.rec.initExp == 'E' {
		e := unbox(v.rec.expVal)
		same = e == deadlineTerm(v.key) || v.rec.expVal == mk(OSV, "expires", anyType, v.key)
	}
	c.ok("C06", "keep-deadline", same, "modifying the value of a key changes its deadline")
}

// noTTL: the value is replaced as a whole, so the deadline goes.
func (c *Ck) noTTL(v *KV) {
	r := v.rec
	ok := r.exp == 'D' || r.exp == 0 && r.initExp == 'N'
	c.ok("C06", "clear-deadline", ok, "a key overwritten with a new value keeps the deadline of the old one")
}

// emptied: the key may only vanish when its collection became empty.
func (c *Ck) emptied(v *KV) {
	p := c.old(v.key, "")
	n := c.size(p)
	if n == nil {
		c.ok("C21", "vanish", false, "a live key is deleted")
		return
	}
	c.a.ensure(c.st, n)
	c.ok("C21", "vanish", c.st.num.provesLE(n, mkInt(0), 0), "a live key is deleted although its collection may not be empty")
}

func (c *Ck) value(prop, rule string, got, want T, what string) {
	switch c.sameBytes(got, want) {
	case 1:
		c.ok(prop, rule, true, "")
	case 0:
		c.ok(prop, rule, false, "%s is %s instead of %s", what, short(unbox(got)), short(unbox(want)))
	}
}

// notZero: the path established n != 0 (lengths are never negative).
func (c *Ck) notZero(n T) bool {
	for f, v := range c.st.facts {
		if v || f.op != OBin || f.aux != "==" {
			continue
		}
		for j := 0; j < 2; j++ {
			if f.args[j] == n {
				if k, ok := f.args[1-j].constInt(); ok && k == 0 {
					return true
				}
			}
		}
	}
	return false
}

// wrongArch: a type known of (or excluded for) an archived key rules out the type the command takes.
func wrongArch(got, want string) bool {
	if got == "" {
		return false
	}
	if rest, not := strings.CutPrefix(got, "!"); not {
		for _, t := range strings.Split(rest, ";") {
			if t != "" && shortType(t) == want {
				return true
			}
		}
		return false
	}
	return shortType(got) != want
}

// shared: the collection now under k is not also the one another key keeps.
func (c *Ck) shared(k, val T) {
	if c.st.keys[k] == nil || c.st.keys[k].cur != 'S' || k.hasStar {
		return
	}
	u := unbox(val)
	var src T
	switch {
	case u.op == OCast && u.args[0].op == OSV && u.args[0].aux == "dict":
		if u.typ == nil || isSlice(u.typ) {
			return
		}
		src = u.args[0].args[0]
	case u.op == OSV && u.aux == "dict":
		src = u.args[0]
		if r := c.st.keys[src]; r == nil || r.initType == "" || !strings.HasPrefix(r.initType, "*") {
			return
		}
	default:
		return
	}
	r := c.st.keys[src]
	if src == k || src.hasStar || r == nil {
		return
	}
	if f, ok := c.st.facts[mkEq(k, src)]; ok && f {
		return
	}
	for _, p := range []string{"C18", "C21"} {
		c.ok(p, "shared", !(r.cur == 0 && r.initDict == 'P'), "keys %s and %s are left sharing one collection: a change of one changes the other", short(k), short(src))
	}
}
