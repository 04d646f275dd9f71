package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- naming the parts of a database ----------

// dbField finds the field of the database struct an access path goes through.
func dbField(t T) (string, T) {
	for i := 0; t != nil && i < 64; i++ {
		switch t.op {
		case OFA:
			if t.args[0].typ != nil && namedOf(t.args[0].typ) == modPath+"/memdb.MemDb" {
				return fieldKind(t), t.args[0]
			}
			t = t.args[0]
		case OIA, OLd, OSub, OCast:
			t = t.args[0]
		default:
			return "", nil
		}
	}
	return "", nil
}

func fieldKind(fa T) string {
	n := strings.ToLower(fieldName(fa))
	ft := addrElemType(fa)
	if ft != nil {
		switch namedOf(ft) {
		case modPath + "/memdb.ConcurrentMap":
			if strings.Contains(n, "exp") || strings.Contains(n, "ttl") || strings.Contains(n, "deadline") {
				return "expires"
			}
			return "dict"
		case modPath + "/memdb.LocksManager":
			return "locks"
		}
	}
	return n
}

// storeOf tells whether a map term is a segment of the dictionary or of the deadline table.
func (a *Analysis) storeOf(m T) (string, T) {
	if m == nil {
		return "", nil
	}
	if _, ok := typUnder(m).(*types.Map); !ok {
		return "", nil
	}
	f, db := dbField(m)
	if f == "dict" || f == "expires" {
		return f, db
	}
	return "", nil
}

func contains(t, x T) bool {
	if t == x {
		return true
	}
	if t == nil {
		return false
	}
	for _, y := range t.args {
		if contains(y, x) {
			return true
		}
	}
	return false
}

// ---------- locks ----------

func lockClass(l T) string {
	if l.op == OGhost && l.aux == "allof" {
		return "key"
	}
	if f, _ := dbField(l); f == "locks" {
		return "key"
	}
	t := l
	for i := 0; t != nil && i < 64; i++ {
		if t.op == OFA && t.args[0].typ != nil {
			n := namedOf(t.args[0].typ)
			if n == modPath+"/memdb.segment" || n == modPath+"/memdb.ConcurrentMap" {
				return "seg"
			}
			if n == modPath+"/memdb.LocksManager" {
				return "key"
			}
		}
		if len(t.args) == 0 {
			break
		}
		t = t.args[0]
	}
	return "other"
}

func (a *Analysis) slItems(st *State, s T) []T {
	if inf := a.sliceInfo(st, s); inf != nil {
		return inf.items
	}
	return nil
}

func sameItems(x, y []T) bool {
	if len(x) != len(y) || len(x) == 0 {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (a *Analysis) sameLock(st *State, x, y T) bool {
	if x == y {
		return true
	}
	if x.op == OGhost && y.op == OGhost && x.aux == "allof" && y.aux == "allof" {
		xs, ok1 := a.elems(st, x.args[0])
		ys, ok2 := a.elems(st, y.args[0])
		if ok1 && ok2 {
			return sameSet(xs, ys)
		}
		if partOf(x.args[0], y.args[0]) || partOf(y.args[0], x.args[0]) {
			return false
		}
		return sameItems(a.slItems(st, x.args[0]), a.slItems(st, y.args[0]))
	}
	return false
}

func sameSet(xs, ys []T) bool {
	in := func(t T, l []T) bool {
		for _, u := range l {
			if u == t {
				return true
			}
		}
		return false
	}
	for _, t := range xs {
		if !in(t, ys) {
			return false
		}
	}
	for _, t := range ys {
		if !in(t, xs) {
			return false
		}
	}
	return true
}

// partOf: s is a proper part of slice b.
func partOf(s, b T) bool {
	return s.op == OSub && s.args[0] == b && !subFromStart(s)
}

// lockOp: op is Lock, RLock, Unlock or RUnlock.
func (a *Analysis) lockOp(st *State, at ssa.Instruction, l T, op, cls string) {
	if cls == "" {
		cls = lockClass(l)
	}
	switch op {
	case "Lock", "RLock":
		mode := byte('W')
		if op == "RLock" {
			mode = 'R'
		}
		if cls == "key" {
			for _, h := range st.held {
				if h.cls == "key" && !a.seqNames["rawlocks"] {
					a.rep.obl("C04", st, at, "nested-key-lock", false, "a key lock is taken while another key lock is held: "+h.lock.String())
				}
			}
			a.rep.obl("C04", st, at, "nested-key-lock", true, "")
		}
		for _, h := range st.held {
			if h.cls == "seg" && !a.seqNames["rawlocks"] {
				a.rep.obl("C04", st, at, "lock-under-segment", false, "a lock is taken while a segment lock is held")
			} else if h.cls == "other" && a.sameLock(st, h.lock, l) {
				a.rep.obl("C04", st, at, "self-deadlock", false, "a lock is taken again while it is held")
			}
		}
		a.rep.obl("C04", st, at, "lock-order", true, "")
		if cls == "key" && a.race {
			a.interfere(st)
		}
		st.held = append(st.held, Held{lock: l, mode: mode, sec: a.site(st, at, "sec"), cls: cls})
		st.note(at.Pos(), op+" "+short(l))
	case "Unlock", "RUnlock":
		mode := byte('W')
		if op == "RUnlock" {
			mode = 'R'
		}
		for i := len(st.held) - 1; i >= 0; i-- {
			h := st.held[i]
			if h.cls == cls && a.sameLock(st, h.lock, l) {
				a.rep.obl("C03", st, at, "unlock-mode", h.mode == mode, "the lock is released in another mode than it was taken")
				st.held = append(append([]Held(nil), st.held[:i]...), st.held[i+1:]...)
				a.closeSection(st, h)
				if cls == "seg" {
					for k, r := range st.keys {
						if r.readSec == h.sec && r.readSec != nil {
							n := *r
							n.readSec, n.used = nil, true
							st.keys[k] = &n
						}
					}
				}
				st.note(at.Pos(), op+" "+short(l))
				return
			}
		}
		a.rep.obl("C03", st, at, "unlock-held", false, "a lock is released that this path does not hold: "+l.String())
	}
}

// interfere forgets what was found out about the keys before a lock is held: other clients may
// have changed them meanwhile.
func (a *Analysis) interfere(st *State) {
	for k, r := range st.keys {
		if r.mutated || (r.cur != 0 || r.exp != 0 || r.dictSeen) && !r.lazy {
			continue
		}
		if a.covering(st, k) != nil {
			continue
		}
		n := KeyRec{peeked: true, lazy: r.lazy, sec: r.sec, secDone: r.secDone}
		st.keys[k] = &n
		dl := deadlineTerm(k)
		if _, ok := st.num.idx[dl]; ok {
			st.num.remove(dl)
		}
	}
}

func short(t T) string {
	s := t.String()
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

func (a *Analysis) closeSection(st *State, h Held) {
	if h.cls != "key" {
		return
	}
	for x := range st.arch {
		if y, open := strings.CutSuffix(x, "|open"); open {
			delete(st.arch, x)
			st.arch[y+"|done"] = true
		}
	}
	for k, r := range st.keys {
		if r.sec == h.sec {
			n := *r
			n.secDone = true
			// a section that only removed the expired key is not part of the command proper
			n.lazy = n.lazy || (n.cur == 'D' && n.exp == 'D' && !n.mutated && st.expState(k, r) == "X" && n.expSec == h.sec)
			st.keys[k] = &n
		}
	}
}

// covering returns the held key lock that protects key k.
func (a *Analysis) covering(st *State, k T) *Held {
	for i := range st.held {
		h := &st.held[i]
		if h.cls != "key" {
			continue
		}
		if a.lockCovers(st, h.lock, k) {
			return h
		}
	}
	return nil
}

func (a *Analysis) lockCovers(st *State, l, k T) bool {
	if l.op == OGhost && l.aux == "allof" {
		return a.inSlice(st, l.args[0], k, 0)
	}
	if contains(l, k) {
		return true
	}
	for _, x := range a.resolve(st, k) {
		if x != k && !x.hasStar && contains(l, x) {
			return true
		}
	}
	return false
}

// inSlice: key k is certainly one of the elements of slice s.
func (a *Analysis) inSlice(st *State, s, k T, d int) bool {
	if d > 4 {
		return false
	}
	if es, ok := a.elems(st, s); ok {
		in := func(t T) bool {
			for _, e := range es {
				if e == t {
					return true
				}
			}
			return false
		}
		if in(k) {
			return true
		}
		rs := a.resolve(st, k)
		for _, x := range rs {
			if !in(x) {
				return false
			}
		}
		return len(rs) > 0
	}
	if s.op == OSub && k.op == OLd && k.args[0].op == OIA && k.args[0].args[0] == s.args[0] && s.args[1] != nil {
		// an element before the part that is locked
		if st.num.provesLE(k.args[0].args[1], s.args[1], -1) {
			return false
		}
	}
	if k.op == OLd && k.args[0].op == OIA {
		b := k.args[0].args[0]
		if b == s || (b.op == OSub && b.args[0] == s) || (s.op == OSub && b == s.args[0] && subFromStart(s)) {
			return true
		}
		// element of another slice all of whose elements are in s
	}
	for _, it := range a.slItems(st, s) {
		if it == k {
			return true
		}
		if it.op == OGhost && it.aux == "allof" && it.args[0] != s && a.inSlice(st, it.args[0], k, d+1) {
			return true
		}
		if it.hasStar && matches(it, k) {
			return true
		}
	}
	for _, x := range a.resolve(st, k) {
		if x != k {
			ok := false
			for _, it := range a.slItems(st, s) {
				if it == x || it.hasStar && matches(it, x) {
					ok = true
				}
				if it.op == OGhost && it.aux == "allof" && it.args[0] != s && a.inSlice(st, it.args[0], x, d+1) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
	}
	rs := a.resolve(st, k)
	return !(len(rs) == 1 && rs[0] == k)
}

func subFromStart(s T) bool {
	c, ok := s.args[1].constInt()
	return ok && c == 0 && s.args[2] == nil
}

// ---------- dictionary and deadline table ----------

func segSec(st *State) *Site {
	for _, h := range st.held {
		if h.cls == "seg" {
			return h.sec
		}
	}
	return nil
}

// commands that replace a value whatever it is
var overwrites = map[string]bool{"set": true, "setex": true, "mset": true, "rename": true, "sdiffstore": true, "sinterstore": true, "sunionstore": true}

// access applies the locking rules to an access of key k and returns its record (a copy, not yet stored).
func (a *Analysis) access(st *State, at ssa.Instruction, store string, k T, write bool) *KeyRec {
	r := st.rec(k)
	// segment lock
	h := a.covering(st, k)
	if store == "expires" && !write {
		if h == nil {
			r.peeked = true
		} else {
			r.expLocked = true
			r.expSec = h.sec
		}
		if h == nil {
			return r
		}
	}
	if h == nil {
		a.rep.obl("C01", st, at, "key-lock", false, fmt.Sprintf("%s entry of key %s is %s without holding the key's lock", store, k, rw(write)))
		return r
	}
	a.rep.obl("C01", st, at, "key-lock", true, "")
	if write {
		a.rep.obl("C01", st, at, "write-lock", h.mode == 'W', fmt.Sprintf("%s entry of key %s is written under a read lock", store, k))
	}
	if r.sec != nil && r.sec != h.sec || r.sec == h.sec && r.secDone {
		if !(r.lazy || r.cur == 0 && r.exp == 0 && !r.mutated && !r.dictSeen) && r.secDone {
			a.rep.obl("C01", st, at, "one-section", false, fmt.Sprintf("key %s is used in two separate critical sections of one command", k))
		}
		if r.secDone {
			r.secDone = false
		}
	}
	a.rep.obl("C01", st, at, "one-section", true, "")
	if a.root != nil && a.root.kind == "cmd" && specs[a.root.name] != nil && specs[a.root.name].multi {
		// an earlier section that used another key of the command is closed already
		early := ""
		for x := range st.arch {
			if ar := parseArch(x); ar.did {
				early = short(ar.key)
			}
		}
		a.rep.obl("C02", st, at, "one-step", early == "", fmt.Sprintf("key %s is used after the critical section in which the command used %s was closed", k, early))
	}
	r.sec = h.sec
	r.secMode = h.mode
	return r
}

func rw(w bool) string {
	if w {
		return "written"
	}
	return "read"
}

func (a *Analysis) segCheck(st *State, at ssa.Instruction, m T, write bool) {
	// m = Ld(FA(ht, seg)); the lock must be a field of the same seg
	seg := m
	if seg.op == OLd && seg.args[0].op == OFA {
		seg = seg.args[0].args[0]
	}
	ok, okW := false, false
	for _, h := range st.held {
		if h.cls != "seg" {
			continue
		}
		if contains(h.lock, seg) {
			ok = true
			if h.mode == 'W' {
				okW = true
			}
		}
	}
	what := "read"
	if write {
		what = "written"
		ok = okW
	}
	a.rep.obl("C14", st, at, "segment-lock", ok, "the hash table of a segment is "+what+" without holding that segment's lock in the needed mode")
}

// storeIndex checks that dict/expires look a key up in the slot of that very key.
func (a *Analysis) slotCheck(st *State, at ssa.Instruction, m, k T) {
	var idx T
	t := m
	for i := 0; t != nil && i < 64; i++ {
		if t.op == OIA {
			idx = t.args[1]
		}
		if len(t.args) == 0 {
			break
		}
		t = t.args[0]
	}
	if idx == nil || idx.op == OSym || idx.op == OStar || idx.isConst() {
		return
	}
	a.rep.obl("C01", st, at, "slot", contains(idx, k), fmt.Sprintf("key %s is looked up in a slot computed from something else", k))
	shape := replaceTerm(idx, k, mk(ORoot, "key", nil))
	a.slots[shape] = a.rep.pos(instrPos(at))
}

func (a *Analysis) storeGet(st *State, at ssa.Instruction, store string, db, m, k T) []lkRes {
	a.segCheck(st, at, m, false)
	a.slotCheck(st, at, m, k)
	r := a.access(st, at, store, k, false)
	if store == "dict" {
		if r.chk == 0 {
			r.chk = 2
			if r.initExp != 0 || r.peeked || r.expLocked || a.examined(st, k) {
				r.chk = 1
			}
		}
		if !r.dictSeen {
			r.lookSec = segSec(st)
		}
		if r.cur == 0 {
			if r.readSec = segSec(st); r.readSec == nil {
				r.used = true
			}
		}
		r.dictSeen = true
		st.keys[k] = r
		switch r.cur {
		case 'S':
			return []lkRes{{st, r.val, true}}
		case 'D':
			return []lkRes{{st, nil, false}}
		}
		v := mk(OSV, "dict", anyType, k)
		if k.hasStar {
			s2 := st.clone()
			return []lkRes{{st, v, true}, {s2, nil, false}}
		}
		switch r.initDict {
		case 'A':
			return []lkRes{{st, nil, false}}
		case 'P':
			return []lkRes{{st, v, true}}
		}
		if r.initExp == 'E' {
			r.initDict = 'P'
			return []lkRes{{st, v, true}}
		}
		s2 := st.clone()
		r2 := *r
		r2.initDict = 'A'
		r2.initExp = 'N'
		s2.keys[k] = &r2
		r.initDict = 'P'
		st.note(at.Pos(), "key "+short(k)+" present")
		s2.note(at.Pos(), "key "+short(k)+" missing")
		return []lkRes{{st, v, true}, {s2, nil, false}}
	}
	st.keys[k] = r
	switch r.exp {
	case 'S':
		return []lkRes{{st, r.expVal, true}}
	case 'D':
		return []lkRes{{st, nil, false}}
	}
	v := mk(OSV, "expires", anyType, k)
	if k.hasStar {
		s2 := st.clone()
		return []lkRes{{st, v, true}, {s2, nil, false}}
	}
	switch r.initExp {
	case 'N':
		return []lkRes{{st, nil, false}}
	case 'E':
		return []lkRes{{st, v, true}}
	}
	if r.initDict == 'A' {
		r.initExp = 'N'
		return []lkRes{{st, nil, false}}
	}
	s2 := st.clone()
	r2 := *r
	r2.initExp = 'N'
	s2.keys[k] = &r2
	r.initExp = 'E'
	r.initDict = 'P'
	st.note(at.Pos(), "key "+short(k)+" has a deadline")
	s2.note(at.Pos(), "key "+short(k)+" has no deadline")
	return []lkRes{{st, v, true}, {s2, nil, false}}
}

func (a *Analysis) storeSet(st *State, at ssa.Instruction, store string, db, m, k, v T) {
	a.segCheck(st, at, m, true)
	a.slotCheck(st, at, m, k)
	r := a.access(st, at, store, k, true)
	if store == "dict" {
		if a.race && a.root.kind == "cmd" && !overwrites[a.root.name] {
			a.rep.obl("C01", st, at, "blind-write", r.dictSeen && (r.lookSec == nil || r.lookSec != segSec(st)) || k.hasStar, fmt.Sprintf("key %s is overwritten without looking, in the same critical section, at what it holds", k))
		}
		r.cur = 'S'
		r.readSec = nil
		r.val = v
		if v.op == OIface {
			a.valueTypes[v.aux.(string)] = true
		}
		st.note(at.Pos(), "set "+short(k))
	} else {
		r.exp = 'S'
		r.expVal = v
		if v.op == OIface {
			a.rep.obl("C10", st, at, "deadline-type", v.aux.(string) == "int64", fmt.Sprintf("a deadline of type %v is stored where int64 is expected by every reader", v.aux))
		}
		st.note(at.Pos(), "set deadline of "+short(k))
	}
	st.keys[k] = r
}

func (a *Analysis) storeDel(st *State, at ssa.Instruction, store string, db, m, k T) {
	a.segCheck(st, at, m, true)
	a.slotCheck(st, at, m, k)
	r := a.access(st, at, store, k, true)
	if store == "dict" {
		r.cur = 'D'
		r.readSec = nil
		r.val = nil
		st.note(at.Pos(), "delete "+short(k))
	} else {
		r.exp = 'D'
		r.expVal = nil
		st.note(at.Pos(), "clear deadline of "+short(k))
	}
	st.keys[k] = r
}

func (a *Analysis) onStoreScan(st *State, at ssa.Instruction, store string, db, m T) {
	a.segCheck(st, at, m, false)
}

// examined: the deadline of a key this term may stand for was examined under another name.
func (a *Analysis) examined(st *State, k T) bool {
	if r, ok := st.keys[k]; ok && (r.peeked || r.expLocked) {
		return true
	}
	rs := a.resolve(st, k)
	for _, x := range rs {
		ok := false
		if r, has := st.keys[x]; has && (r.peeked || r.expLocked) {
			ok = true
		}
		for c := range st.checked {
			if c == x || (matches(c, x) || matches(x, c)) && !ownGen(c, x) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ownGen: c stands for what x was in earlier iterations of the loop that is being run.
func ownGen(c, x T) bool {
	if c == x {
		return true
	}
	if c == nil || x == nil {
		return false
	}
	if c.op == OStar && x.op == OSym && c.aux == x.aux {
		return true
	}
	if c.op != x.op || c.aux != x.aux || len(c.args) != len(x.args) {
		return false
	}
	for i := range c.args {
		if !ownGen(c.args[i], x.args[i]) {
			return false
		}
	}
	return true
}

// keyOf finds the database key a container access path starts from.
func (a *Analysis) keyOf(st *State, t T) T {
	r := a.rootOf(st, t)
	if r == nil {
		return nil
	}
	if r.op == OSV && r.aux == "dict" {
		return r.args[0]
	}
	if r.op == OObj || r.op == OStar {
		for k, kr := range st.keys {
			if kr.cur == 'S' && kr.val != nil && a.rootOf(st, kr.val) == r {
				return k
			}
		}
	}
	return nil
}

// container applies the rules for touching the value stored under a key.
func (a *Analysis) container(st *State, at ssa.Instruction, addr T, write bool) {
	k := a.keyOf(st, addr)
	if k == nil {
		// element of a local collection of stored values
		for _, x := range a.resolve(st, addr) {
			if x == addr {
				continue
			}
			if rt := a.rootOf(st, x); rt != nil && rt.op == OSV && rt.aux == "dict" {
				h := a.covering(st, rt.args[0])
				if h == nil {
					h = a.anyKeyHeld(st, rt.args[0])
				}
				a.rep.obl("C01", st, at, "value-lock", h != nil && (!write || h.mode == 'W'), "the value of key "+rt.args[0].String()+" is used without its lock")
			}
		}
		return
	}
	if isSection(k) {
		return
	}
	h := a.covering(st, k)
	if h == nil {
		h = a.anyKeyHeld(st, k)
	}
	if h == nil {
		a.rep.obl("C01", st, at, "value-lock", false, fmt.Sprintf("the value of key %s is %s after its lock was released or without it", k, rw(write)))
	} else {
		r := st.rec(k)
		ok := !write || h.mode == 'W'
		a.rep.obl("C01", st, at, "value-lock", ok, fmt.Sprintf("the value of key %s is changed under a read lock", k))
		if r.sec != nil && r.sec != h.sec && !k.hasStar {
			a.rep.obl("C01", st, at, "value-section", false, fmt.Sprintf("the value of key %s is used in a later critical section than the one that looked it up", k))
		}
	}
	if write {
		r := st.rec(k)
		if !r.mutated {
			r.mutated = true
			st.keys[k] = r
			st.note(at.Pos(), "change value of "+short(k))
		}
	}
}

func isSection(k T) bool { return false }

func (a *Analysis) anyKeyHeld(st *State, k T) *Held {
	if !k.hasStar {
		return nil
	}
	for i := range st.held {
		h := &st.held[i]
		if h.cls == "key" && h.lock.op == OGhost {
			for _, it := range a.slItems(st, h.lock.args[0]) {
				if it == k || matches(it, k) || matches(k, it) {
					return h
				}
				if it.op == OGhost && it.aux == "allof" {
					return h
				}
			}
		}
		if h.cls == "key" && h.lock.op != OGhost && h.lock.hasStar {
			return h
		}
	}
	return nil
}

func (a *Analysis) bytesElem(addr T) bool {
	if addr.op != OIA {
		return false
	}
	t := addrElemType(addr)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (a *Analysis) onLoad(st *State, at ssa.Instruction, addr T) {
	if addr.op == OGlobal {
		a.onGlobal(st, at, addr, false)
		return
	}
	if a.bytesElem(addr) {
		return // bytes are immutable once stored
	}
	if addr.op == OFA || addr.op == OIA {
		if a.isListy(addr) {
			a.container(st, at, addr, false)
		}
		a.onField(st, at, addr, false)
	}
}

// isListy: the cell belongs to a container object (not to bookkeeping of the database).
func (a *Analysis) isListy(addr T) bool {
	if f, _ := dbField(addr); f != "" {
		return false
	}
	return true
}

func (a *Analysis) onStore(st *State, at ssa.Instruction, addr, v T) {
	a.storing = v
	if addr.op == OGlobal {
		a.onGlobal(st, at, addr, true)
		if a.root != nil && a.root.kind == "cmd" {
			a.sharedWrite(st, at, addr)
		}
		return
	}
	if a.bytesElem(addr) {
		a.bytesWrite(st, at, addr.args[0], "an element of a byte slice is overwritten")
	}
	if addr.op == OFA || addr.op == OIA {
		a.unlinks(st, at, addr, v)
		a.container(st, at, addr, true)
		a.onField(st, at, addr, true)
	} else if addr.op == OLd {
		a.onField(st, at, addr, true)
	}
	if a.root != nil && a.root.kind == "cmd" {
		a.sharedWrite(st, at, addr)
	}
}

// sharedWrite: memory all connections can reach, apart from the tables and their values.
func (a *Analysis) sharedWrite(st *State, at ssa.Instruction, addr T) {
	r := a.rootOf(st, addr)
	what := ""
	switch {
	case r != nil && r.op == OGlobal:
		what = "a package variable is written while serving without a lock of its own"
	case addr.op == OFA && addr.args[0].op != OObj && (isMemDbPtr(addr.args[0].typ) || namedOf(addr.args[0].typ) == modPath+"/memdb.LocksManager"):
		what = "a field shared by all connections is written without a lock of its own"
	case addr.op == OLd && r != nil && r.op == ORoot && isMemDbPtr(r.typ):
		what = "memory shared by all connections is written without a lock of its own"
	default:
		return
	}
	ok := false
	for _, h := range st.held {
		if h.cls != "key" && h.cls != "seg" && h.mode == 'W' {
			ok = true
		}
	}
	a.rep.obl("C14", st, at, "shared-write", ok, what+": "+short(addr))
}

// bytesWrite: C18, bytes that may be stored or already handed to a reply must not change.
func (a *Analysis) bytesWrite(st *State, at ssa.Instruction, base T, what string) {
	r := a.rootOf(st, base)
	ok := r != nil && (r.op == OObj || (r.op == OConv && r.aux == "bytes") || r.op == OSym && a.freshSlice(st, base))
	if ok && r.op == OObj {
		// a fresh buffer that was already stored in the database
		for _, kr := range st.keys {
			if kr.cur == 'S' && kr.val != nil && kr.val.op == OIface && a.rootOf(st, kr.val.args[0]) == r && isSlice(kr.val.args[0].typ) {
				ok = false
			}
		}
	}
	a.rep.obl("C18", st, at, "in-place-write", ok, what+" although other holders may still see it ("+short(base)+")")
}

func (a *Analysis) freshSlice(st *State, t T) bool {
	inf := st.slices[t]
	return inf != nil && inf.fresh
}

func (a *Analysis) onMapRead(st *State, at ssa.Instruction, m, k T) {
	if m.isNil() {
		return
	}
	a.container(st, at, m, false)
}

func (a *Analysis) onMapWrite(st *State, at ssa.Instruction, m, k T, op string) {
	if a.on.mapWrite != nil {
		a.on.mapWrite(st, at, m)
	}
	if r := a.rootOf(st, m); r != nil && r.op == OGlobal && a.root != nil && a.root.kind == "cmd" {
		a.sharedWrite(st, at, m)
	}
	a.container(st, at, m, true)
}

var _ = token.NoPos
