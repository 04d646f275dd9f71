package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var modPath = "gRedis"

func (a *Analysis) clearObj(st *State, o T) {
	for c := range st.heap {
		if rootObj(c) == o {
			delete(st.heap, c)
		}
	}
	delete(st.slices, o)
}

// mirror returns the index of the opposite link field of a doubly linked node type.
func mirror(t types.Type, f int) (int, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return 0, false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return 0, false
	}
	var self []int
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			self = append(self, i)
		}
	}
	if len(self) != 2 {
		return 0, false
	}
	if self[0] == f {
		return self[1], true
	}
	if self[1] == f {
		return self[0], true
	}
	return 0, false
}

func isLink(addr T) bool {
	if addr.op != OFA || addr.args[0].typ == nil {
		return false
	}
	_, ok := mirror(addr.args[0].typ, addr.aux.(int))
	return ok
}

func isNodeType(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), t) {
			n++
		}
	}
	return n == 2
}

func (a *Analysis) load(st *State, at ssa.Instruction, addr T, typ types.Type) T {
	a.onLoad(st, at, addr)
	return a.loadRaw(st, addr, typ)
}

func (a *Analysis) loadRaw(st *State, addr T, typ types.Type) T {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		var fs []T
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, a.loadRaw(st, mk(OFA, i, types.NewPointer(s.Field(i).Type()), addr), s.Field(i).Type()))
		}
		return mk(OStruct, typ.String(), typ, fs...)
	}
	if addr.op == OGlobal {
		if c, ok := a.constG[addr.aux.(*ssa.Global)]; ok {
			return c
		}
		return mk(OLd, nil, typ, addr)
	}
	r := rootObj(addr)
	if r.op == OObj {
		if addr.op == OIA {
			if _, isConst := addr.args[1].constInt(); isConst {
				if inf := st.slices[r]; inf == nil || len(inf.items) == 0 {
					if !a.opaqueObj(st, r) {
						return zeroOf(typ)
					}
				}
			} else if inf := st.slices[r]; inf != nil && len(inf.items) == 0 && inf.fresh && !a.opaqueObj(st, r) {
				return zeroOf(typ)
			}
			return mk(OLd, nil, typ, addr)
		}
		if !a.opaqueObj(st, r) {
			return zeroOf(typ)
		}
	}
	if addr.op == OIA {
		if i, ok := addr.args[1].constInt(); ok {
			if inf := st.slices[addr.args[0]]; inf != nil && inf.hasSeq && i >= 0 && int(i) < len(inf.seq) {
				return inf.seq[i]
			}
		}
	}
	if addr.op == OFA {
		base := addr.args[0]
		if base.op == OLd && base.args[0].op == OFA {
			x := base.args[0]
			if x.args[0].typ != nil && base.typ != nil {
				if m, ok := mirror(base.typ, addr.aux.(int)); ok && isLink(x) && x.aux.(int) == m {
					return x.args[0]
				}
			}
		}
	}
	t := mk(OLd, nil, typ, addr)
	return t
}

// opaqueObj: the object's content was filled by code outside the analysis.
func (a *Analysis) opaqueObj(st *State, o T) bool {
	_, ok := st.heap[mk(OGhost, "opaque", types.Typ[types.Bool], o)]
	return ok
}

func (a *Analysis) store(st *State, at ssa.Instruction, addr, v T, typ types.Type) bool {
	a.onStore(st, at, addr, v)
	a.storeRaw(st, addr, v, typ)
	return true
}

func (a *Analysis) storeRaw(st *State, addr, v T, typ types.Type) {
	if s, ok := typ.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			fa := mk(OFA, i, types.NewPointer(ft), addr)
			switch {
			case v.op == OStruct && i < len(v.args):
				a.storeRaw(st, fa, v.args[i], ft)
			case v.isNil():
				a.storeRaw(st, fa, zeroOf(ft), ft)
			default:
				a.storeRaw(st, fa, mk(OCall, fmt.Sprintf("field%d", i), ft, v), ft)
			}
		}
		return
	}
	if addr.op == OIA {
		base := addr.args[0]
		_, c1 := addr.args[1].constInt()
		for c := range st.heap {
			if c != addr && c.op == OIA && c.args[0] == base {
				_, c2 := c.args[1].constInt()
				if !(c1 && c2) {
					// may be the same element
					a.ensure(st, addr.args[1])
					a.ensure(st, c.args[1])
					if st.num.provesLE(addr.args[1], c.args[1], -1) || st.num.provesLE(c.args[1], addr.args[1], -1) {
						continue
					}
					delete(st.heap, c)
				}
			}
		}
		if inf := st.slices[base]; inf != nil {
			n := *inf
			n.items = addItem(inf.items, v)
			a.wStore(st, &n, addr, v)
			st.slices[base] = &n
		}
	}
	if addr.hasStar {
		if old, ok := st.heap[addr]; ok && old != v {
			v = mixed(addr)
		}
	}
	st.heap[addr] = v
}

// rootOf strips an access path to the object it starts from.
func (a *Analysis) rootOf(st *State, t T) T {
	for i := 0; t != nil && i < 64; i++ {
		switch t.op {
		case OFA, OIA, OLd, OCast, OSub, OIface:
			t = t.args[0]
		case OConv:
			if t.aux == "str" || t.aux == "bytes" {
				return t // a copy
			}
			t = t.args[0]
		case OCall:
			if t.aux == "mapval" || t.aux == "bappend" {
				t = t.args[0]
				continue
			}
			if o, ok := st.origin[t]; ok && o != t {
				t = o
				continue
			}
			return t
		case OSym, OStar:
			if o, ok := st.origin[t]; ok && o != t {
				t = o
				continue
			}
			return t
		default:
			return t
		}
	}
	return t
}

// resolve lists the terms t may stand for by following elements of local slices.
func (a *Analysis) resolve(st *State, t T) []T {
	out := []T{}
	var rec func(t T, d int)
	seen := map[T]bool{}
	rec = func(t T, d int) {
		if d > 6 || seen[t] {
			return
		}
		seen[t] = true
		if s, elem := innerElem(st, t); s != nil {
			inf := st.slices[s]
			any := false
			for _, it := range inf.items {
				if it.op == OGhost && it.aux == "allof" {
					src := it.args[0]
					e := mk(OLd, nil, elem.typ, mkIA(src, mk(OStar, mkSite(nil, src, "any"), types.Typ[types.Int]), types.NewPointer(anyOr(elem.typ))))
					any = true
					rec(replaceTerm(t, elem, e), d+1)
					continue
				}
				any = true
				rec(replaceTerm(t, elem, it), d+1)
			}
			if any {
				return
			}
		}
		out = append(out, t)
	}
	rec(t, 0)
	return out
}

func anyOr(t types.Type) types.Type {
	if t == nil {
		return anyType
	}
	return t
}

// innerElem finds a subterm Ld(IA(S,..)) of t whose slice S was built locally.
func innerElem(st *State, t T) (T, T) {
	if t == nil {
		return nil, nil
	}
	if t.op == OLd && t.args[0].op == OIA {
		s := t.args[0].args[0]
		if s.op == OSub {
			s = s.args[0]
		}
		if inf := st.slices[s]; inf != nil && len(inf.items) > 0 {
			return s, t
		}
	}
	for _, x := range t.args {
		if s, e := innerElem(st, x); s != nil {
			return s, e
		}
	}
	return nil, nil
}

func replaceTerm(t, from, to T) T {
	if t == from {
		return to
	}
	if t == nil || len(t.args) == 0 {
		return t
	}
	args := make([]T, len(t.args))
	ch := false
	for i, x := range t.args {
		args[i] = replaceTerm(x, from, to)
		if args[i] != x {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

// sliceInfo describes the elements of a slice value, or nil.
func (a *Analysis) sliceInfo(st *State, v T) *SliceInfo {
	if v.isNil() {
		return &SliceInfo{fresh: true}
	}
	if inf := st.slices[v]; inf != nil {
		return inf
	}
	switch v.op {
	case OSub:
		base := v.args[0]
		if base.op == OObj {
			if p, ok := typUnder(base).(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					inf := &SliceInfo{nonNil: true, fresh: true}
					for i := int64(0); i < at.Len() && i < 64; i++ {
						if e, ok := st.heap[mkIA(base, mkInt(i), types.NewPointer(at.Elem()))]; ok {
							inf.items = addItem(inf.items, e)
						} else {
							inf.items = addItem(inf.items, zeroOf(at.Elem()))
						}
					}
					return inf
				}
			}
		}
		if inf := st.slices[base]; inf != nil {
			return &SliceInfo{items: inf.items, nonNil: inf.nonNil}
		}
		return &SliceInfo{items: []T{mk(OGhost, "allof", nil, v)}, nonNil: true}
	case ORoot, OLd, OCast:
		return &SliceInfo{items: []T{mk(OGhost, "allof", nil, v)}}
	}
	return nil
}

// ---------- maps ----------
func inTerm(m, k T) T { return mk(OGhost, "in", types.Typ[types.Bool], m, k) }

func (a *Analysis) mlen(st *State, m T) T {
	c := mk(OMLen, nil, types.Typ[types.Int], m)
	if v, ok := st.heap[c]; ok {
		for _, r := range st.mem {
			if r.present && r.m == m {
				a.ensure(st, v)
				st.num.le(mkInt(1), v, 0)
				break
			}
		}
		return v
	}
	if m.isNil() {
		return mkInt(0)
	}
	v := mk(OLd, nil, types.Typ[types.Int], c)
	lo := int64(0)
	if r := a.rootOf(st, m); r != nil && r.op == OSV && r.aux == "dict" {
		lo = 1
	}
	if _, ok := st.num.idx[v]; !ok {
		st.num.atom(v)
		st.num.le(mkInt(lo), v, 0)
		st.num.le(v, mkInt(maxLen), 0)
	}
	st.heap[c] = v
	return v
}

func (a *Analysis) setMlen(st *State, m T, v T) {
	st.heap[mk(OMLen, nil, types.Typ[types.Int], m)] = v
}

func (a *Analysis) bump(st *State, name string, m T) {
	g := mk(OGhost, name, types.Typ[types.Int], m)
	old, ok := st.heap[g]
	if !ok {
		old = mkInt(0)
	}
	st.heap[g] = a.intOp(st, nil, token.ADD, old, mkInt(1), types.Typ[types.Int])
}

// uncount gives up the numbers of keys that loops over m have met: m changes under them.
func (a *Analysis) uncount(st *State, m T) {
	for t, b := range st.heap {
		if t.op == OGhost && t.aux == "iterof" && b == m {
			delete(st.heap, mk(OGhost, "count", tInt, t.args[0]))
		}
	}
}

type lkRes struct {
	st  *State
	val T
	ok  bool
}

func (a *Analysis) member(st *State, m, k T, vt types.Type) []lkRes {
	g := inTerm(m, k)
	if r, ok := st.mem[g]; ok {
		if r.present {
			return []lkRes{{st, r.val, true}}
		}
		return []lkRes{{st, zeroOf(vt), false}}
	}
	if a.witness && k == wTerm() && m.op == OObj && !a.opaqueObj(st, m) {
		return []lkRes{{st, zeroOf(vt), false}} // never put there
	}
	n := a.mlen(st, m)
	a.ensure(st, n)
	if st.num.provesLE(n, mkInt(0), 0) {
		a.noteW0(st, m, k, false)
		return []lkRes{{st, zeroOf(vt), false}}
	}
	s2 := st.clone()
	a.noteW0(st, m, k, true)
	a.noteW0(s2, m, k, false)
	v := mk(OCall, "mapval", vt, m, k)
	st.num.le(mkInt(1), n, 0)
	st.mem[g] = &MemRec{m: m, k: k, present: true, val: v}
	s2.mem[g] = &MemRec{m: m, k: k, present: false}
	return []lkRes{{st, v, true}, {s2, nil, false}}
}

func (a *Analysis) mapLookup(st *State, x *ssa.Lookup, m, k T) bool {
	mt := x.X.Type().Underlying().(*types.Map)
	store, db := a.storeOf(m)
	var rs []lkRes
	if store != "" {
		rs = a.storeGet(st, x, store, db, m, k)
	} else {
		a.onMapRead(st, x, m, k)
		if m.isNil() {
			rs = []lkRes{{st, zeroOf(mt.Elem()), false}}
		} else if !isString(mt.Key()) && !isInt(mt.Key()) {
			a.set(st, x, a.symTuple(st, x, x.CommaOk))
			return true
		} else {
			rs = a.tabLookup(st, m, k, mt.Elem())
			if rs == nil {
				rs = a.member(st, m, k, mt.Elem())
			}
		}
	}
	var out []*State
	for _, r := range rs {
		v := r.val
		if !r.ok {
			v = zeroOf(mt.Elem())
		}
		if x.CommaOk {
			a.set(r.st, x, mk(OTuple, nil, nil, v, mkBool(r.ok)))
		} else {
			a.set(r.st, x, v)
		}
		out = append(out, r.st)
	}
	if len(out) == 1 && out[0] == st {
		return true
	}
	return a.fork(out...)
}

// tabLookup: what a lookup in a package-level literal table answers, entry by entry.
func (a *Analysis) tabLookup(st *State, m, k T, vt types.Type) []lkRes {
	if m.op != OLd || m.args[0].op != OGlobal {
		return nil
	}
	tab := a.globTab[m.args[0].aux.(*ssa.Global)]
	if tab == nil {
		return nil
	}
	var rs []lkRes
	for _, e := range tab {
		if e.key == k {
			return []lkRes{{st, e.val, true}}
		}
	}
	for _, e := range tab {
		if distinctConst(e.key, k) {
			continue
		}
		s := st.clone()
		if a.assume(s, mkEq(k, e.key), true) && !s.num.bot {
			rs = append(rs, lkRes{s, e.val, true})
		}
	}
	for _, e := range tab {
		if !distinctConst(e.key, k) && (!a.assume(st, mkEq(k, e.key), false) || st.num.bot) {
			return rs
		}
	}
	return append(rs, lkRes{st, nil, false})
}

func (a *Analysis) symTuple(st *State, x ssa.Value, commaOk bool) T {
	if !commaOk {
		return a.sym(st, x, "", x.Type())
	}
	tu := x.Type().(*types.Tuple)
	return mk(OTuple, nil, nil, a.sym(st, x, "v", tu.At(0).Type()), a.sym(st, x, "ok", tu.At(1).Type()))
}

func distinctConst(x, y T) bool { return x != y && x.isConst() && y.isConst() }

func (a *Analysis) invalidate(st *State, m, k T, present bool) {
	for g, r := range st.mem {
		if r.m == m && r.k != k && r.present == present && !distinctConst(r.k, k) && !a.otherKey(r.k, k) {
			if f, ok := st.facts[mkEq(r.k, k)]; ok && !f {
				continue
			}
			delete(st.mem, g)
		}
	}
}

func (a *Analysis) mapUpdate(st *State, x *ssa.MapUpdate, m, k, v T) bool {
	if m.isNil() {
		a.rep.obl("C10", st, x, "nil-map", false, "assignment to an entry of a nil map")
		return false
	}
	if store, db := a.storeOf(m); store != "" {
		a.storeSet(st, x, store, db, m, k, v)
		return true
	}
	a.onMapWrite(st, x, m, k, "set")
	mt := x.Map.Type().Underlying().(*types.Map)
	var out []*State
	for _, r := range a.member(st, m, k, mt.Elem()) {
		s := r.st
		if !r.ok {
			n := a.mlen(s, m)
			a.setMlen(s, m, a.intOp(s, nil, token.ADD, n, mkInt(1), types.Typ[types.Int]))
			a.bump(s, "ins", m)
			a.uncount(s, m)
			a.invalidate(s, m, k, false)
		}
		if !k.hasStar {
			s.mem[inTerm(m, k)] = &MemRec{m: m, k: k, present: true, val: v}
		}
		a.addMapItem(s, m, k, v)
		out = append(out, s)
	}
	if len(out) == 1 && out[0] == st {
		return true
	}
	return a.fork(out...)
}

// addMapItem records what a locally made map may contain.
func (a *Analysis) addMapItem(st *State, m, k, v T) {
	if m.op != OObj {
		return
	}
	inf := st.slices[m]
	n := &SliceInfo{}
	if inf != nil {
		*n = *inf
	}
	n.items = addItem(n.items, k)
	st.slices[m] = n
}

func (a *Analysis) mapDelete(st *State, at ssa.Instruction, m, k T, mt *types.Map) bool {
	if m.isNil() {
		return true
	}
	if store, db := a.storeOf(m); store != "" {
		a.storeDel(st, at, store, db, m, k)
		return true
	}
	a.onMapWrite(st, at, m, k, "del")
	var out []*State
	for _, r := range a.member(st, m, k, mt.Elem()) {
		s := r.st
		if r.ok {
			n := a.mlen(s, m)
			a.ensure(s, n)
			s.num.le(mkInt(1), n, 0)
			a.setMlen(s, m, a.intOp(s, nil, token.SUB, n, mkInt(1), types.Typ[types.Int]))
			a.bump(s, "del", m)
			a.uncount(s, m)
			a.invalidate(s, m, k, true)
			if !k.hasStar {
				s.mem[inTerm(m, k)] = &MemRec{m: m, k: k, present: false}
			}
		}
		out = append(out, s)
	}
	if len(out) == 1 && out[0] == st {
		return true
	}
	return a.fork(out...)
}

func (a *Analysis) next(st *State, x *ssa.Next) bool {
	it := a.val(st, x.Iter)
	base := st.heap[mk(OGhost, "iterof", anyType, it)]
	vis := mk(OGhost, "visited", types.Typ[types.Bool], it)
	tu := x.Type().(*types.Tuple)
	kt, vt := tu.At(1).Type(), tu.At(2).Type()
	if x.IsString {
		s2 := st.clone()
		k := a.sym(st, x, "k", types.Typ[types.Int])
		if base != nil {
			ln := a.lenTerm(st, base)
			a.ensure(st, k)
			a.ensure(st, ln)
			st.num.le(mkInt(0), k, 0)
			st.num.le(k, ln, -1)
		}
		v := a.sym(st, x, "r", types.Typ[types.Rune])
		a.set(st, x, mk(OTuple, nil, nil, mkBool(true), k, v))
		a.set(s2, x, mk(OTuple, nil, nil, mkBool(false), mkInt(0), mkInt(0)))
		return a.fork(st, s2)
	}
	if base == nil {
		base = a.sym(st, x, "base", anyType)
	}
	rg, _ := x.Iter.(*ssa.Range)
	if rg != nil {
		if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
			kt, vt = mt.Key(), mt.Elem()
		}
	}
	visited, _ := st.heap[vis].constBool()
	store, db := a.storeOf(base)
	wit := a.witness && store == "" && base.op != OSym && isString(kt)
	wvis := mk(OGhost, "wvis", types.Typ[types.Bool], it)
	wseen := false
	if wit {
		sts := a.wNext(st, it, base, kt, vt)
		if len(sts) > 1 || sts[0] != st {
			for _, s := range sts {
				s.top().idx-- // once more, with the answer known
			}
			return a.fork(sts...)
		}
		wseen, _ = st.heap[wvis].constBool()
	}
	if store == "" {
		a.onMapRead(st, x, base, nil)
	} else {
		a.onStoreScan(st, x, store, db, base)
	}
	var n T
	canTrue, canFalse := true, true
	cell := mk(OGhost, "count", tInt, it)
	count := st.heap[cell]
	// met: one more key, of which there are no more than n
	met := func(s *State) {
		if count != nil {
			s.num.le(count, n, -1)
			s.heap[cell] = a.intOp(s, nil, token.ADD, count, mkInt(1), tInt)
		}
	}
	if store == "" {
		n = a.mlen(st, base)
		a.ensure(st, n)
		if count != nil {
			a.ensure(st, count)
			if st.num.provesLE(n, count, 0) {
				canTrue = false
			}
			if st.num.provesLE(count, n, -1) {
				canFalse = false
			}
		}
		if st.num.provesLE(n, mkInt(0), 0) {
			canTrue = false
		}
		if !visited && st.num.provesLE(mkInt(1), n, 0) {
			canFalse = false
		}
	}
	var out []*State
	if wit && !wseen {
		if r := st.mem[inTerm(base, wTerm())]; r != nil && r.present {
			if b, _ := st.heap[mk(OGhost, "wstart", types.Typ[types.Bool], it)].constBool(); b {
				canFalse = false
			}
			s2 := st.clone()
			s2.heap[wvis] = mkBool(true)
			s2.heap[vis] = mkBool(true)
			met(s2)
			a.set(s2, x, mk(OTuple, nil, nil, mkBool(true), wTerm(), r.val))
			out = append(out, s2)
		}
	}
	if canFalse {
		s2 := st.clone()
		if wit {
			delete(s2.heap, wvis)
			delete(s2.heap, mk(OGhost, "wstart", types.Typ[types.Bool], it))
		}
		if !visited && store == "" {
			s2.num.le(n, mkInt(0), 0)
		}
		if count != nil {
			s2.num.le(n, count, 0)
			s2.num.le(count, n, 0)
			delete(s2.heap, cell)
		}
		a.set(s2, x, mk(OTuple, nil, nil, mkBool(false), zeroOf(kt), zeroOf(vt)))
		out = append(out, s2)
	}
	if canTrue {
		k := a.sym(st, x, "k", kt)
		var v T
		if store == "" {
			if !visited {
				st.num.le(mkInt(1), n, 0)
			}
			met(st)
			v = mk(OCall, "mapval", vt, base, k)
			st.mem[inTerm(base, k)] = &MemRec{m: base, k: k, present: true, val: v}
		} else {
			v = mk(OSV, store, vt, k)
			r := st.rec(k)
			if store == "dict" {
				r.initDict = 'P'
			} else {
				r.initDict, r.initExp = 'P', 'E'
			}
			st.keys[k] = r
		}
		st.heap[vis] = mkBool(true)
		a.set(st, x, mk(OTuple, nil, nil, mkBool(true), k, v))
		out = append(out, st)
	}
	return a.fork(out...)
}

// ---------- type assertions ----------
func (a *Analysis) typeAssert(st *State, x *ssa.TypeAssert) bool {
	v := a.val(st, x.X)
	done := func(s *State, val T, ok bool) *State {
		if x.CommaOk {
			if !ok {
				val = zeroOf(x.AssertedType)
			}
			a.set(s, x, mk(OTuple, nil, nil, val, mkBool(ok)))
		} else {
			a.rep.obl("C10", s, x, "type-assert", ok, "type assertion may fail: "+x.AssertedType.String())
			if !ok {
				s.dead = true
				return s
			}
			a.set(s, x, val)
		}
		return s
	}
	_, isI := x.AssertedType.Underlying().(*types.Interface)
	if v.isNil() {
		return a.fork(done(st, nil, false))
	}
	if v.op == OIface {
		dt := v.args[0].typ
		name := v.aux.(string)
		if isI {
			if dt != nil {
				return a.fork(done(st, v, types.Implements(dt, x.AssertedType.Underlying().(*types.Interface))))
			}
			return a.fork(done(st, v, true))
		}
		return a.fork(done(st, v.args[0], name == x.AssertedType.String()))
	}
	if isI {
		// interface to interface: assume success with the same value unless nil
		s2 := st.clone()
		t := mk(OCall, "impl:"+x.AssertedType.String(), types.Typ[types.Bool], v)
		var out []*State
		if a.assume(st, t, true) {
			out = append(out, done(st, v, true))
		}
		if a.assume(s2, t, false) {
			out = append(out, done(s2, nil, false))
		}
		return a.fork(out...)
	}
	tn := x.AssertedType.String()
	if v.op == OSV && v.aux == "expires" {
		return a.fork(done(st, mk(OCast, tn, x.AssertedType, v), tn == "int64"))
	}
	cast := mk(OCast, tn, x.AssertedType, v)
	if v.op == OSV && v.aux == "dict" {
		k := v.args[0]
		r := st.rec(k)
		if !k.hasStar {
			if r.initType != "" {
				return a.fork(done(st, cast, r.initType == tn))
			}
			if strings.Contains(r.notTypes, ";"+tn+";") {
				return a.fork(done(st, nil, false))
			}
		}
		if !a.valueTypes[tn] {
			return a.fork(done(st, nil, false))
		}
		s2 := st.clone()
		r1, r2 := *r, *r
		r1.initType = tn
		st.keys[k] = &r1
		var ts []string
		for _, t := range strings.Split(r.notTypes, ";") {
			if t != "" {
				ts = append(ts, t)
			}
		}
		ts = append(ts, tn)
		sort.Strings(ts)
		r2.notTypes = ";" + strings.Join(ts, ";") + ";"
		s2.keys[k] = &r2
		out := []*State{done(st, cast, true)}
		if len(ts) < len(a.valueTypes) {
			out = append(out, done(s2, nil, false))
		}
		return a.fork(out...)
	}
	t := mk(OCall, "is:"+tn, types.Typ[types.Bool], v)
	s2 := st.clone()
	var out []*State
	if a.assume(st, t, true) {
		out = append(out, done(st, cast, true))
	}
	if a.assume(s2, t, false) {
		out = append(out, done(s2, nil, false))
	}
	return a.fork(out...)
}
