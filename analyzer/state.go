package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type Deferred struct {
	instr ssa.Instruction
	fn    T // OFunc / OClosure, or nil for invoke/builtin
	call  *ssa.CallCommon
	args  []T
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	iter   map[*ssa.BasicBlock]int // unrolled iterations of the loops being run
	itag   string
	back   bool // the block was entered through a back edge
	regs   map[ssa.Value]T
	defers []Deferred
	call   ssa.Value                   // register of the caller that receives the result (nil: discard)
	loops  map[*ssa.BasicBlock]map[T]T // heap at loop entry
	peeled map[*ssa.BasicBlock]bool    // loop head reached through a back edge
	heldAt map[*ssa.BasicBlock]int     // locks held when the loop was entered
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]T, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]Deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]map[T]T, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.iter = make(map[*ssa.BasicBlock]int, len(f.iter))
	for k, v := range f.iter {
		n.iter[k] = v
	}
	n.heldAt = make(map[*ssa.BasicBlock]int, len(f.heldAt))
	for k, v := range f.heldAt {
		n.heldAt[k] = v
	}
	n.peeled = make(map[*ssa.BasicBlock]bool, len(f.peeled))
	for k, v := range f.peeled {
		n.peeled[k] = v
	}
	return &n
}

// SliceInfo describes a slice built by the analysed code.
type SliceInfo struct {
	items  []T // element terms; OGhost("allof", s) stands for every element of s
	seq    []T // the exact elements, when hasSeq
	hasSeq bool
	nonNil bool
	fresh  bool // backing array was allocated by the analysed code and never shared
	sorted bool
	wok    bool   // the appearances of the witness are known
	w      string // they, in order
	welem  T
}

type Held struct {
	lock T // mutex term, or OGhost("allof", slice)
	mode byte
	sec  *Site
	cls  string // "key", "seg", "other"
}

type MemRec struct {
	m, k    T
	present bool
	val     T
}

// KeyRec is what a path knows and did about one database key.
type KeyRec struct {
	initDict  byte // 0 unknown, 'A' absent, 'P' present
	initType  string
	notTypes  string // ';'-separated
	initExp   byte   // 0 unknown, 'N' none, 'E' present
	cur       byte   // 0 as at start, 'D' deleted, 'S' set
	val       T
	exp       byte // 0 as at start, 'D' cleared, 'S' set
	expVal    T
	mutated   bool // container content changed
	sec       *Site
	secMode   byte
	secDone   bool   // a section that used the key was closed
	expSec    *Site  // section in which the deadline was last examined
	peeked    bool   // deadline examined without the key lock
	expLocked bool   // deadline examined with the key lock
	dictSeen  bool   // dictionary entry examined
	lookSec   *Site  // the segment section in which it was first examined
	readSec   *Site  // the segment section of a look-up that wrote nothing yet
	used      bool   // what the dictionary holds was looked up by itself
	chk       byte   // 1 expiry examined before the dictionary entry was, 2 entry first
	lazy      bool   // the closed section only removed the expired key
	ended     string // for lists: ends touched
}

type TraceNode struct {
	prev *TraceNode
	pos  token.Pos
	msg  string
	n    int
}

type State struct {
	frames  []*Frame
	heap    map[T]T
	facts   map[T]bool
	slices  map[T]*SliceInfo
	origin  map[T]T
	mem     map[T]*MemRec
	keys    map[T]*KeyRec
	arch    map[string]bool // archived key summaries
	checked map[T]bool      // generalised keys whose expiry was examined
	held    []Held
	flags   map[string]bool
	num     *Zone
	trace   *TraceNode
	dead    bool
}

func newState() *State {
	return &State{heap: map[T]T{}, facts: map[T]bool{}, slices: map[T]*SliceInfo{}, origin: map[T]T{}, mem: map[T]*MemRec{}, keys: map[T]*KeyRec{}, arch: map[string]bool{}, checked: map[T]bool{}, flags: map[string]bool{}, num: newZone()}
}

func (s *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(s.frames)), heap: make(map[T]T, len(s.heap)), facts: make(map[T]bool, len(s.facts)),
		slices: make(map[T]*SliceInfo, len(s.slices)), origin: make(map[T]T, len(s.origin)), mem: make(map[T]*MemRec, len(s.mem)),
		keys: make(map[T]*KeyRec, len(s.keys)), arch: make(map[string]bool, len(s.arch)), checked: make(map[T]bool, len(s.checked)),
		held: append([]Held(nil), s.held...), flags: make(map[string]bool, len(s.flags)), num: s.num.clone(), trace: s.trace,
	}
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.slices {
		n.slices[k] = v
	}
	for k, v := range s.origin {
		n.origin[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.keys {
		n.keys[k] = v
	}
	for k, v := range s.arch {
		n.arch[k] = v
	}
	for k, v := range s.checked {
		n.checked[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(pos token.Pos, msg string) {
	n := 0
	if s.trace != nil {
		n = s.trace.n
	}
	s.trace = &TraceNode{prev: s.trace, pos: pos, msg: msg, n: n + 1}
}

// renameSym replaces a stale symbol by its generalisation everywhere.
func (s *State) renameSym(from, to T) {
	used := false
	has := func(t T) bool { return t != nil && t.hasSym(from) }
	memo := map[T]T{}
	f := func(t T) T {
		if has(t) {
			used = true
			return subst(t, from, to, memo)
		}
		return t
	}
	for _, fr := range s.frames {
		for k, v := range fr.regs {
			if has(v) {
				fr.regs[k] = f(v)
			}
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if has(d.fn) {
				d.fn = f(d.fn)
			}
			for j, a := range d.args {
				if has(a) {
					na := append([]T(nil), d.args...)
					na[j] = f(a)
					d.args = na
				}
			}
		}
		for b, h := range fr.loops {
			ch := false
			for k, v := range h {
				if has(k) || has(v) {
					ch = true
					break
				}
			}
			if ch {
				nh := make(map[T]T, len(h))
				for k, v := range h {
					nh[f(k)] = f(v)
				}
				fr.loops[b] = nh
			}
		}
	}
	for k, v := range s.heap {
		if has(k) || has(v) {
			delete(s.heap, k)
			nk, nv := f(k), f(v)
			if old, ok := s.heap[nk]; ok && old != nv && nk != k {
				nv = mixed(nk)
			}
			s.heap[nk] = nv
		}
	}
	for k, v := range s.facts {
		if has(k) {
			delete(s.facts, k)
			s.dropFact(k, v)
			_ = v
		}
	}
	for k, v := range s.slices {
		ch := has(k)
		for _, it := range v.items {
			if has(it) {
				ch = true
			}
		}
		for _, it := range v.seq {
			if has(it) {
				ch = true
			}
		}
		if has(v.welem) {
			ch = true
		}
		if ch {
			delete(s.slices, k)
			ni := *v
			ni.items = nil
			ni.seq = nil
			ni.welem = f(v.welem)
			for _, it := range v.seq {
				ni.seq = append(ni.seq, f(it))
			}
			for _, it := range v.items {
				ni.items = addItem(ni.items, f(it))
			}
			nk := f(k)
			if old, ok := s.slices[nk]; ok && nk != k {
				for _, it := range old.items {
					ni.items = addItem(ni.items, it)
				}
				ni.hasSeq, ni.seq = false, nil
				ni.nonNil = ni.nonNil && old.nonNil
				ni.fresh = ni.fresh && old.fresh
				ni.wok, ni.w, ni.welem = false, "", nil
			}
			s.slices[nk] = &ni
		}
	}
	for k, v := range s.origin {
		if has(k) || has(v) {
			delete(s.origin, k)
			s.origin[f(k)] = f(v)
		}
	}
	for k, v := range s.mem {
		if has(k) || has(v.val) {
			delete(s.mem, k)
			if f(k).hasStar {
				continue
			}
			nv := *v
			nv.m, nv.k, nv.val = f(v.m), f(v.k), f(v.val)
			s.mem[f(k)] = &nv
		}
	}
	for k, v := range s.keys {
		if has(k) || has(v.val) || has(v.expVal) {
			delete(s.keys, k)
			nv := *v
			nv.val, nv.expVal = f(v.val), f(v.expVal)
			nk := f(k)
			if nk.hasStar {
				s.archive(nk, &nv, s.expState(k, v))
				continue
			}
			s.keys[nk] = &nv
		}
	}
	for k := range s.checked {
		if has(k) {
			delete(s.checked, k)
			s.checked[f(k)] = true
		}
	}
	for i := range s.held {
		if has(s.held[i].lock) {
			s.held[i].lock = f(s.held[i].lock)
		}
	}
	s.num.rename(func(t T) T {
		if has(t) {
			return subst(t, from, to, memo)
		}
		return t
	})
	s.num.forget(func(t T) bool { return !t.hasStar })
	_ = used
}

func mixed(addr T) T { return mk(OStar, mkSite(nil, addr, "mixed"), addrElemType(addr)) }

func addrElemType(t T) types.Type {
	if t == nil || t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func addItem(items []T, t T) []T {
	for _, x := range items {
		if x == t {
			return items
		}
	}
	out := append(append([]T(nil), items...), t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (s *State) dropFact(k T, v bool) {
	if isParseErrFact(k) && !v {
		s.flags["badarg"] = true
	}
}

func isParseErrFact(k T) bool {
	return k.op == OBin && k.aux == "==" && k.args[1].isNil() && k.args[0].op == OCall && isParseErr(k.args[0].aux.(string))
}

func isParseErr(n string) bool {
	return len(n) > 4 && n[len(n)-4:] == ".err"
}

func (s *State) archive(k T, r *KeyRec, es string) {
	d := func(b byte) string {
		if b == 0 {
			return "-"
		}
		return string(b)
	}
	init := d(r.initDict)
	e := d(r.initExp)
	if r.initExp == 'E' {
		e = es
	}
	vt := ""
	if r.val != nil {
		vt = "val"
	}
	tn := r.initType
	if tn == "" && r.notTypes != "" {
		tn = "!" + r.notTypes
	}
	did := ""
	if !r.lazy && (r.dictSeen || r.mutated || r.cur != 0) {
		did = "open"
		if r.secDone {
			did = "done"
		}
	}
	s.arch[fmt.Sprintf("%d|%s|%s|%s|%s|%v|%s|%v|%v|%s|%v|%v", k.id, init, e, d(r.cur), d(r.exp), r.mutated, tn, r.lazy, r.secDone, vt, r.used && r.chk == 2, did)] = true
	if r.peeked || r.expLocked {
		s.checked[k] = true
	}
}

type ArchRec struct {
	key                    T
	init, exp, cur, curExp string
	mutated                bool
	typ                    string
	lazy, secDone          bool
	val                    string
	did                    bool // used in a critical section that was closed since
	unexamined             bool // looked up without its deadline having been examined before
}

func parseArch(a string) ArchRec {
	var f []string
	last := 0
	for i := 0; i <= len(a); i++ {
		if i == len(a) || a[i] == '|' {
			f = append(f, a[last:i])
			last = i + 1
		}
	}
	id, _ := strconv.Atoi(f[0])
	return ArchRec{key: in.all[id-1], init: f[1], exp: f[2], cur: f[3], curExp: f[4], mutated: f[5] == "true", typ: f[6], lazy: f[7] == "true", secDone: f[8] == "true", val: f[9], unexamined: f[10] == "true", did: f[11] == "done"}
}

// expState: N none, L live, X past, E present but not compared.
func (s *State) expState(k T, r *KeyRec) string {
	switch r.initExp {
	case 'N':
		return "N"
	case 0:
		return "-"
	}
	dl := deadlineTerm(k)
	now := nowTerm()
	if s.num.provesLE(dl, now, 0) && !s.num.provesLE(now, dl, 0) {
		return "X"
	}
	if s.num.provesLE(now, dl, 0) {
		return "L"
	}
	return "E"
}

func nowTerm() T { return mk(OCall, "unix", types.Typ[types.Int64], mk(ORoot, "now", nil)) }
func deadlineTerm(k T) T {
	return mk(OCast, "int64", types.Typ[types.Int64], mk(OSV, "expires", anyType, k))
}

var anyType = types.NewInterfaceType(nil, nil)

// ---- reachability, garbage collection and state keys ----

func (s *State) gc() {
	live := map[T]bool{}
	var work []T
	addT := func(t T) {
		if t == nil {
			return
		}
		for _, x := range t.syms {
			if !live[x] {
				live[x] = true
				work = append(work, x)
			}
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.regs {
			addT(v)
		}
		for _, d := range fr.defers {
			addT(d.fn)
			for _, a := range d.args {
				addT(a)
			}
		}
	}
	for k, r := range s.keys {
		addT(k)
		addT(r.val)
		addT(r.expVal)
	}
	for _, h := range s.held {
		addT(h.lock)
	}
	// nodes of a list that were changed
	for c := range s.heap {
		if c.op == OFA && !c.hasStar && isNodeType(c.args[0].typ) {
			addT(c)
		}
	}
	for f, v := range s.facts {
		if v && f.op == OCall && f.aux == "bytes.Equal" && !f.hasStar && (holder(f.args[0]) != nil || holder(f.args[1]) != nil) {
			addT(f) // the element looked for was found
		}
	}
	// cells: address live => value live. Addresses rooted in dead objects vanish.
	for changed := true; changed; {
		changed = false
		n := len(live)
		for a, v := range s.heap {
			if allLive(a, live) {
				addT(v)
			}
		}
		for k, i := range s.slices {
			if allLive(k, live) {
				for _, it := range i.items {
					addT(it)
				}
				for _, it := range i.seq {
					addT(it)
				}
			}
		}
		for k, v := range s.origin {
			if allLive(k, live) {
				addT(v)
			}
		}
		if len(live) != n {
			changed = true
		}
	}
	starLive := map[T]bool{}
	s.collectStars(starLive)
	for a := range s.heap {
		if !allLive(a, live) || (a.hasStar && !starsIn(a, starLive)) {
			delete(s.heap, a)
		}
	}
	for k := range s.slices {
		if !allLive(k, live) || (k.hasStar && !starsIn(k, starLive)) {
			delete(s.slices, k)
		}
	}
	for k := range s.origin {
		if !allLive(k, live) || (k.hasStar && !starsIn(k, starLive)) {
			delete(s.origin, k)
		}
	}
	for k, v := range s.facts {
		if !allLive(k, live) || k.hasStar {
			delete(s.facts, k)
			s.dropFact(k, v)
		}
	}
	for k := range s.mem {
		if !allLive(k, live) {
			delete(s.mem, k)
		}
	}
	s.num.forget(func(t T) bool { return !t.hasStar && allLive(t, live) })
}

// collectStars gathers star leaves referenced from registers, defers, keys and cells reachable from them (approximate: everything but cell addresses).
func (s *State) collectStars(out map[T]bool) {
	var walk func(t T)
	seen := map[T]bool{}
	walk = func(t T) {
		if t == nil || !t.hasStar || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OStar {
			out[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.regs {
			walk(v)
		}
		for _, d := range fr.defers {
			walk(d.fn)
			for _, a := range d.args {
				walk(a)
			}
		}
	}
	for _, r := range s.keys {
		walk(r.val)
	}
	for _, h := range s.held {
		walk(h.lock)
	}
	for changed := true; changed; {
		n := len(out)
		for a, v := range s.heap {
			if !a.hasStar || starsIn(a, out) {
				walk(v)
			}
		}
		for k, i := range s.slices {
			if !k.hasStar || starsIn(k, out) {
				for _, it := range i.items {
					walk(it)
				}
				for _, it := range i.seq {
					walk(it)
				}
			}
		}
		changed = len(out) != n
	}
}

func starsIn(t T, live map[T]bool) bool {
	if t == nil || !t.hasStar {
		return true
	}
	if t.op == OStar {
		return live[t]
	}
	for _, a := range t.args {
		if !starsIn(a, live) {
			return false
		}
	}
	return true
}

func allLive(t T, live map[T]bool) bool {
	for _, x := range t.syms {
		if !live[x] {
			return false
		}
	}
	return true
}

type hkey [16]byte

func (s *State) key(a *Analysis) hkey {
	h := fnv.New128a()
	var buf []byte
	wi := func(i int) {
		buf = strconv.AppendInt(buf, int64(i), 36)
		buf = append(buf, ' ')
	}
	wt := func(t T) {
		if t == nil {
			buf = append(buf, '_', ' ')
		} else {
			wi(t.id)
		}
	}
	for i, f := range s.frames {
		wi(in.ptr(f.fn))
		wi(f.blk.Index)
		wi(f.idx)
		if f.prev != nil && (i == 0 && endsInReturn(f.blk) || a.loopExit(f)) {
			wi(f.prev.Index) // the ways to a return are kept apart
		}
		if f.ctx != nil {
			wi(f.ctx.id)
		}
		type kv struct{ a, b int }
		var l []kv
		for k, v := range f.regs {
			l = append(l, kv{in.ptr(k), v.id})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
		for _, e := range l {
			wi(e.a)
			wi(e.b)
		}
		buf = append(buf, 'D')
		for _, d := range f.defers {
			wi(in.ptr(d.instr))
			wt(d.fn)
			for _, x := range d.args {
				wt(x)
			}
		}
		buf = append(buf, 'P')
		var p []int
		for b, v := range f.peeled {
			if v {
				p = append(p, b.Index)
			}
		}
		sort.Ints(p)
		for _, i := range p {
			wi(i)
		}
		buf = append(buf, '\n')
	}
	wmap := func(m map[T]T) {
		var l []T
		for k := range m {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, k := range l {
			wi(k.id)
			wt(m[k])
		}
		buf = append(buf, '\n')
	}
	wmap(s.heap)
	wmap(s.origin)
	{
		var l []T
		for k := range s.facts {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, k := range l {
			wi(k.id)
			if s.facts[k] {
				buf = append(buf, 'T')
			} else {
				buf = append(buf, 'F')
			}
		}
		l = nil
		buf = append(buf, '\n')
		for k := range s.slices {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, k := range l {
			wi(k.id)
			i := s.slices[k]
			for _, it := range i.items {
				wi(it.id)
			}
			if i.hasSeq {
				buf = append(buf, 'Q')
				for _, it := range i.seq {
					wi(it.id)
				}
			}
			buf = append(buf, fmt.Sprint(i.nonNil, i.fresh, i.sorted)...)
			if i.wok {
				buf = append(buf, 'W')
				buf = append(buf, i.w...)
				wt(i.welem)
			}
		}
		l = nil
		buf = append(buf, '\n')
		for k := range s.mem {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, k := range l {
			wi(k.id)
			r := s.mem[k]
			wt(r.val)
			buf = append(buf, fmt.Sprint(r.present)...)
		}
		l = nil
		buf = append(buf, '\n')
		for k := range s.keys {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		for _, k := range l {
			wi(k.id)
			buf = append(buf, s.keys[k].sig()...)
			buf = append(buf, s.expState(k, s.keys[k])...)
		}
	}
	var ss []string
	for k, v := range s.flags {
		if v {
			ss = append(ss, "F"+k)
		}
	}
	sort.Strings(ss)
	for _, x := range ss {
		buf = append(buf, x...)
		buf = append(buf, '\n')
	}
	for _, x := range s.held {
		wi(x.lock.id)
		buf = append(buf, x.mode)
		wi(x.sec.id)
	}
	h.Write(buf)
	var k hkey
	copy(k[:], h.Sum(nil))
	return k
}

func (r *KeyRec) sig() string {
	sid := 0
	if r.sec != nil {
		sid = r.sec.id
	}
	eid := 0
	if r.expSec != nil {
		eid = r.expSec.id
	}
	v, e := 0, 0
	if r.val != nil {
		v = r.val.id
	}
	if r.expVal != nil {
		e = r.expVal.id
	}
	return fmt.Sprintf("%d%s|%s|%d%d%d|%d|%d|%v%d%d%v%d%v%v%v%v%d%v%s%v%v", r.initDict, r.initType, r.notTypes, r.initExp, r.cur, r.exp, v, e, r.mutated, sid, r.secMode, r.secDone, eid, r.peeked, r.expLocked, r.dictSeen, r.lazy, r.chk, r.secDone, r.ended, r.used, r.readSec != nil)
}

func (s *State) rec(k T) *KeyRec {
	if r, ok := s.keys[k]; ok {
		n := *r
		return &n
	}
	return &KeyRec{}
}

func endsInReturn(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	return ok
}
