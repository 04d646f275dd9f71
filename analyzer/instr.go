package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (a *Analysis) simple(st *State, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := a.obj(st, x, "", x.Type())
		a.clearObj(st, o)
		a.set(st, x, o)
	case *ssa.BinOp:
		l, r := a.val(st, x.X), a.val(st, x.Y)
		t := a.evalBin(st, x, x.Op, l, r, x.Type())
		if t == nil {
			return false
		}
		a.set(st, x, t)
	case *ssa.UnOp:
		v := a.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if !a.nonNil(st, x, v) {
				return false
			}
			if sts := a.wLoad(st, x, v); len(sts) > 0 {
				for _, s := range sts {
					a.onLoad(s, x, v)
				}
				return a.fork(sts...)
			}
			a.set(st, x, a.load(st, x, v, x.Type()))
		case token.NOT:
			if b, ok := v.constBool(); ok {
				a.set(st, x, mkBool(!b))
			} else {
				a.set(st, x, mk(OBin, "!", x.Type(), v))
			}
		case token.SUB:
			if isInt(x.Type()) {
				t := a.evalBin(st, x, token.SUB, mkInt(0), v, x.Type())
				a.set(st, x, t)
			} else {
				a.set(st, x, mk(OBin, "neg", x.Type(), v))
			}
		case token.ARROW:
			return a.recv(st, x, v, x.CommaOk)
		default:
			a.set(st, x, mk(OBin, x.Op.String(), x.Type(), v))
		}
	case *ssa.ChangeInterface:
		a.set(st, x, a.val(st, x.X))
	case *ssa.ChangeType:
		a.set(st, x, a.val(st, x.X))
	case *ssa.Convert:
		a.set(st, x, a.convert(st, x, a.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := a.val(st, x.X)
		a.set(st, x, mk(OIface, x.X.Type().String(), x.Type(), retype(v, x.X.Type())))
	case *ssa.Extract:
		tu := a.val(st, x.Tuple)
		if tu.op == OTuple && x.Index < len(tu.args) {
			a.set(st, x, tu.args[x.Index])
		} else {
			a.set(st, x, a.sym(st, x, "", x.Type()))
		}
	case *ssa.Field:
		v := a.val(st, x.X)
		if v.op == OStruct && x.Field < len(v.args) {
			a.set(st, x, v.args[x.Field])
		} else if v.isNil() {
			a.set(st, x, zeroOf(x.Type()))
		} else {
			a.set(st, x, mk(OCall, fmt.Sprintf("field%d", x.Field), x.Type(), v))
		}
	case *ssa.FieldAddr:
		v := a.val(st, x.X)
		if !a.nonNil(st, x, v) {
			return false
		}
		a.set(st, x, mk(OFA, x.Field, x.Type(), retype(v, x.X.Type())))
	case *ssa.IndexAddr:
		base, idx := a.val(st, x.X), a.val(st, x.Index)
		if isSlice(x.X.Type()) && base.isNil() {
			a.rep.obl("C10", st, x, "index", false, "index into an empty slice")
			return false
		}
		ln := a.lenTerm(st, base)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				ln = mkInt(at.Len())
			}
		}
		if !a.inBounds(st, x, idx, ln, -1, "index") {
			return false
		}
		a.set(st, x, mkIA(base, idx, x.Type()))
	case *ssa.Index:
		base, idx := a.val(st, x.X), a.val(st, x.Index)
		if isString(x.X.Type()) {
			if !a.inBounds(st, x, idx, a.lenTerm(st, base), -1, "index") {
				return false
			}
		}
		a.set(st, x, mk(OCall, "at", x.Type(), base, idx))
	case *ssa.Lookup:
		base, idx := a.val(st, x.X), a.val(st, x.Index)
		if isString(x.X.Type()) {
			if !a.inBounds(st, x, idx, a.lenTerm(st, base), -1, "index") {
				return false
			}
			a.set(st, x, mk(OCall, "at", x.Type(), base, idx))
			return true
		}
		return a.mapLookup(st, x, base, idx)
	case *ssa.MakeChan:
		o := a.obj(st, x, "", x.Type())
		st.heap[mk(OGhost, "chan", types.Typ[types.String], o)] = mkStr("open")
		if c, ok := a.val(st, x.Size).constInt(); ok && c > 0 {
			st.heap[mk(OGhost, "chanbuf", types.Typ[types.Bool], o)] = mkBool(true)
		}
		a.set(st, x, o)
	case *ssa.MakeClosure:
		var b []T
		for _, v := range x.Bindings {
			b = append(b, a.val(st, v))
		}
		a.set(st, x, mk(OClosure, x.Fn.(*ssa.Function), x.Type(), b...))
	case *ssa.MakeMap:
		o := a.obj(st, x, "", x.Type())
		a.clearObj(st, o)
		st.heap[mk(OMLen, nil, types.Typ[types.Int], o)] = mkInt(0)
		a.set(st, x, o)
	case *ssa.MakeSlice:
		ln, cp := a.val(st, x.Len), a.val(st, x.Cap)
		if !a.makeSize(st, x, ln, x.Type()) {
			return false
		}
		if cp != ln && !a.makeSize(st, x, cp, x.Type()) {
			return false
		}
		o := a.obj(st, x, "", x.Type())
		a.clearObj(st, o)
		st.slices[o] = &SliceInfo{nonNil: true, fresh: true, wok: a.witness}
		lt := mk(OLen, nil, types.Typ[types.Int], o)
		a.ensure(st, lt)
		a.eqNum(st, lt, ln)
		if c, ok := ln.constInt(); ok {
			st.flags[fmt.Sprintf("mk%d", o.id)] = false
			_ = c
		}
		a.set(st, x, o)
	case *ssa.MapUpdate:
		return a.mapUpdate(st, x, a.val(st, x.Map), a.val(st, x.Key), a.val(st, x.Value))
	case *ssa.Range:
		base := a.val(st, x.X)
		o := a.obj(st, x, "it", x.Type())
		st.heap[mk(OGhost, "iterof", anyType, o)] = base
		st.heap[mk(OGhost, "visited", types.Typ[types.Bool], o)] = mkBool(false)
		delete(st.heap, mk(OGhost, "wvis", types.Typ[types.Bool], o))
		delete(st.heap, mk(OGhost, "wstart", types.Typ[types.Bool], o))
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			a.onMapRead(st, x, base, nil)
			if s, _ := a.storeOf(base); s == "" && base.op != OSym && !base.hasStar {
				st.heap[mk(OGhost, "count", tInt, o)] = mkInt(0)
			}
		}
		a.set(st, x, o)
	case *ssa.Next:
		return a.next(st, x)
	case *ssa.Select:
		return a.selectInstr(st, x)
	case *ssa.Send:
		return a.send(st, x, a.val(st, x.Chan), a.val(st, x.X))
	case *ssa.Slice:
		return a.slice(st, x)
	case *ssa.Store:
		ad := a.val(st, x.Addr)
		if !a.nonNil(st, x, ad) {
			return false
		}
		return a.store(st, x, ad, a.val(st, x.Val), x.Val.Type())
	case *ssa.TypeAssert:
		return a.typeAssert(st, x)
	default:
		if v, ok := ins.(ssa.Value); ok {
			a.set(st, v, a.sym(st, v, "", v.Type()))
		}
	}
	return true
}

func retype(v T, typ types.Type) T {
	if v.typ == nil && v.op != OConst {
		v.typ = typ
	}
	return v
}

// nonNil: definite nil dereferences are reported and end the path.
func (a *Analysis) nonNil(st *State, at ssa.Instruction, v T) bool {
	bad := v.isNil()
	if !bad && !v.isConst() {
		if f, ok := st.facts[mkEq(v, mkNil(nil))]; ok && f {
			bad = true
		}
	}
	if fa, ok := at.(*ssa.FieldAddr); ok && bad && a.race && isNodeType(fa.X.Type()) {
		return false
	}
	a.rep.obl("C10", st, at, "nil-deref", !bad, "nil pointer dereference")
	return !bad
}

func mkEq(x, y T) T {
	if x.isConst() && !y.isConst() || (x.isConst() == y.isConst() && x.id > y.id) {
		x, y = y, x
	}
	return mk(OBin, "==", types.Typ[types.Bool], x, y)
}

// linLE proves t <= b+c for sums and multiples, which the zone does not relate.
func (a *Analysis) linLE(st *State, t, b T, c int64) bool {
	x, cx := lin(t)
	if x == nil || x.op != OBin {
		return false
	}
	z := st.num
	switch x.aux {
	case "+":
		for i := 0; i < 2; i++ {
			p, q := x.args[i], x.args[1-i]
			// p+q <= p+r-d when q <= r-d
			for k, u := range z.atoms {
				if k == 0 || u.op != OBin || u.aux != "+" || u == x {
					continue
				}
				for j := 0; j < 2; j++ {
					if u.args[j] != p {
						continue
					}
					r := u.args[1-j]
					if d := z.maxDiff(q, r); d != INF && z.provesLE(u, b, c-cx-d) {
						return true
					}
				}
			}
			// q bounded by a constant
			if hi := z.upper(q); hi != INF && hi < 1<<40 && z.provesLE(p, b, c-cx-hi) {
				return true
			}
		}
	case "-":
		if lo := z.lower(x.args[1]); lo > -(1<<40) && z.provesLE(x.args[0], b, c-cx+lo) {
			return true
		}
	case "*":
		for i := 0; i < 2; i++ {
			k, ok := x.args[i].constInt()
			if !ok || k < 1 || k > 64 {
				continue
			}
			y, cy := lin(x.args[1-i])
			// y <= q+d with q = w/k: k*y <= w+k*d
			for j, u := range z.atoms {
				if j == 0 || u.op != OBin || u.aux != "/" {
					continue
				}
				if kk, ok := u.args[1].constInt(); !ok || kk != k || !z.provesLE(mkInt(0), u.args[0], 0) {
					continue
				}
				if d := z.maxDiff(y, u); d != INF && d > -(1<<40) && d < 1<<40 && z.provesLE(u.args[0], b, c-cx-k*(d+cy)) {
					return true
				}
			}
		}
	}
	return false
}

// inBounds requires 0 <= idx <= len+slack.
func (a *Analysis) inBounds(st *State, at ssa.Instruction, idx, ln T, slack int64, what string) bool {
	a.ensure(st, idx)
	a.ensure(st, ln)
	lo := st.num.provesLE(mkInt(0), idx, 0)
	hi := st.num.provesLE(idx, ln, slack) || a.linLE(st, idx, ln, slack)
	msg := ""
	if !lo {
		msg = fmt.Sprintf("%s may be negative (%v)", what, idx)
	} else if !hi {
		msg = fmt.Sprintf("%s may exceed the length (%v against %v)", what, idx, ln)
	}
	a.rep.obl("C10", st, at, what, lo && hi, msg)
	if !lo {
		st.num.le(mkInt(0), idx, 0)
	}
	if !hi {
		st.num.le(idx, ln, slack)
	}
	return !st.num.bot
}

func (a *Analysis) makeSize(st *State, at ssa.Instruction, n T, typ types.Type) bool {
	a.ensure(st, n)
	ok := st.num.provesLE(mkInt(0), n, 0)
	msg := "make with a size that may be negative"
	if ok {
		big := int64(1) << 30
		ok = st.num.provesLE(n, mkInt(big), 0)
		if !ok {
			// proportional to something that already exists in memory
			for i, at := range st.num.atoms {
				if i == 0 {
					continue
				}
				isLen := at.op == OLen || (at.op == OLd && at.args[0].op == OMLen) || (at.op == OLd && isLenField(at.args[0])) || (at.op == OLd && isLenCall(at))
				if isLen && st.num.provesLE(n, at, 64) {
					ok = true
					break
				}
			}
		}
		if !ok && a.sumOfSizes(st, n, 0) {
			ok = true
		}
		if !ok && a.trustedSize(n) {
			ok = true
		}
		msg = fmt.Sprintf("make with a size that no existing object bounds (%v)", n)
	}
	a.rep.obl("C10", st, at, "make", ok, msg)
	st.num.le(mkInt(0), n, 0)
	return !st.num.bot
}

// sumOfSizes: a sum of a few numbers each bounded by something in memory.
func (a *Analysis) sumOfSizes(st *State, n T, d int) bool {
	if d > 3 {
		return false
	}
	a.ensure(st, n)
	if d > 0 {
		if st.num.provesLE(n, mkInt(1<<30), 0) {
			return true
		}
		for i, at := range st.num.atoms {
			if i > 0 && (at.op == OLen || at.op == OLd && (at.args[0].op == OMLen || isLenField(at.args[0]))) && st.num.provesLE(n, at, 64) {
				return true
			}
		}
	}
	if n.op == OBin && n.aux == "+" {
		return a.sumOfSizes(st, n.args[0], d+1) && a.sumOfSizes(st, n.args[1], d+1)
	}
	if n.op == OBin && n.aux == "*" {
		for i := 0; i < 2; i++ {
			if k, ok := n.args[i].constInt(); ok && k >= 0 && k <= 64 {
				return a.sumOfSizes(st, n.args[1-i], d+1)
			}
		}
	}
	return false
}

func isLenCall(t T) bool { return false }

// trustedSize: sizes that come from the validated configuration.
func (a *Analysis) trustedSize(n T) bool {
	var walk func(t T) bool
	walk = func(t T) bool {
		if t == nil {
			return false
		}
		if t.op == ORoot && t.aux == "confsize" {
			return true
		}
		if t.op == OSym && t.aux.(*Site).mlen {
			return true // a generalised map size
		}
		if t.op == OFA && t.args[0].typ != nil && namedOf(t.args[0].typ) == modPath+"/config.Config" {
			return true
		}
		if t.op == OLd && t.args[0].op == OFA && t.args[0].args[0].typ != nil && namedOf(t.args[0].args[0].typ) == modPath+"/memdb.ConcurrentMap" {
			return true
		}
		for _, x := range t.args {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(n)
}

func namedOf(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// isLenField: an integer field named like a length of a repo container.
func isLenField(addr T) bool {
	if addr.op != OFA || addr.args[0].typ == nil {
		return false
	}
	return namedOf(addr.args[0].typ) == modPath+"/memdb.List" && fieldName(addr) == "Len"
}

// ---------- arithmetic ----------
func intRange(typ types.Type) (int64, int64) {
	lo, hi := typeRange(typ)
	if lo == -INF {
		lo = math.MinInt64
	}
	return lo, hi
}

func addOv(x, y int64) (int64, bool) {
	s := x + y
	if (x > 0 && y > 0 && s < 0) || (x < 0 && y < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}

func (a *Analysis) evalBin(st *State, at ssa.Instruction, op token.Token, l, r T, typ types.Type) T {
	lt := l.typ
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if isString(typ) && op == token.ADD {
			return mkConcat(l, r)
		}
		if !isInt(typ) {
			return mk(OBin, op.String(), typ, l, r)
		}
		return a.intOp(st, at, op, l, r, typ)
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		_ = lt
		xt := at.(*ssa.BinOp).X.Type()
		return a.compare(st, op, l, r, xt)
	}
	return mk(OBin, op.String(), typ, l, r)
}

func mkConcat(parts ...T) T {
	var out []T
	for _, p := range parts {
		if p.op == OCall && p.aux == "concat" {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	var m []T
	for _, p := range out {
		if s, ok := p.constStr(); ok {
			if s == "" {
				continue
			}
			if len(m) > 0 {
				if q, ok := m[len(m)-1].constStr(); ok {
					m[len(m)-1] = mkStr(q + s)
					continue
				}
			}
		}
		m = append(m, p)
	}
	if len(m) == 0 {
		return mkStr("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return mk(OCall, "concat", types.Typ[types.String], m...)
}

func (a *Analysis) intOp(st *State, at ssa.Instruction, op token.Token, l, r T, typ types.Type) T {
	lo, hi := intRange(typ)
	ll, lu := a.bounds(st, l)
	rl, ru := a.bounds(st, r)
	if ll == lu && !l.isConst() && ll != -INF && !loopSym(l) {
		l = mkInt(ll)
	}
	if rl == ru && !r.isConst() && rl != -INF && !loopSym(r) {
		r = mkInt(rl)
	}
	lc, lok := l.constInt()
	rc, rok := r.constInt()
	if lok && rok {
		if v, ok := foldInt(op, lc, rc, lo, hi); ok {
			return mkInt(v)
		}
	}
	mkB := func(x, y T) T { return mk(OBin, op.String(), typ, x, y) }
	switch op {
	case token.ADD, token.SUB:
		if op == token.ADD && lok && !rok {
			l, r, lc, rc, lok, rok = r, l, rc, lc, rok, lok
			ll, lu, rl, ru = rl, ru, ll, lu
		}
		if rok {
			c := rc
			if op == token.SUB {
				c = -c
			}
			if c == math.MinInt64 {
				return mkB(l, r)
			}
			okOv := true
			if c > 0 {
				okOv = lu != INF && lu <= hi-c
			} else if c < 0 {
				okOv = ll != -INF && ll >= lo-c
			}
			if okOv {
				t, _ := addTerm(l, c)
				return t
			}
			return mkB(l, r)
		}
		if op == token.ADD && l.id > r.id {
			l, r = r, l
			ll, lu, rl, ru = rl, ru, ll, lu
		}
		// difference of related atoms
		if op == token.SUB {
			d1, d2 := st.num.maxDiff(l, r), st.num.maxDiff(r, l)
			if d1 != INF && d2 != INF && d1 == -d2 {
				return mkInt(d1)
			}
		}
		t := mkB(l, r)
		// overflow?
		xl, xu := ll, lu
		if xl == -INF {
			xl = lo
		}
		if xu == INF {
			xu = hi
		}
		yl, yu := rl, ru
		if yl == -INF {
			yl = lo
		}
		if yu == INF {
			yu = hi
		}
		var rlo, rhi int64
		var ok1, ok2 bool
		if op == token.ADD {
			rlo, ok1 = addOv(xl, yl)
			rhi, ok2 = addOv(xu, yu)
		} else {
			if yu == math.MinInt64 || yl == math.MinInt64 {
				ok1, ok2 = false, false
				if yl == math.MinInt64 && xu < 0 {
					rhi, ok2 = xu-yl, true
				}
				if yu != math.MinInt64 {
					rlo, ok1 = addOv(xl, -yu)
				}
			} else {
				rlo, ok1 = addOv(xl, -yu)
				rhi, ok2 = addOv(xu, -yl)
			}
			// relation may exclude the overflow
			if !ok1 || !ok2 {
				d1, d2 := st.num.maxDiff(l, r), st.num.maxDiff(r, l)
				if d1 != INF && d2 != INF {
					rlo, rhi, ok1, ok2 = -d2, d1, true, true
				}
			}
		}
		i := st.num.atom(t)
		_ = i
		if !ok1 || !ok2 || rlo < lo || rhi > hi {
			if lo != math.MinInt64 {
				st.num.le(mkInt(lo), t, 0)
			}
			if hi != INF {
				st.num.le(t, mkInt(hi), 0)
			}
			return t
		}
		st.num.le(t, mkInt(rhi), 0)
		st.num.le(mkInt(rlo), t, 0)
		if op == token.ADD {
			if ru != INF {
				st.num.le(t, l, ru)
			}
			if rl != -INF {
				st.num.le(l, t, -rl)
			}
			if lu != INF {
				st.num.le(t, r, lu)
			}
			if ll != -INF {
				st.num.le(r, t, -ll)
			}
			// (x-y)+y and friends: r already a difference
			for _, pq := range [][2]T{{l, r}, {r, l}} {
				p, q := pq[0], pq[1]
				if b, c := lin(p); b != nil && b.op == OBin && b.aux == "-" && b.args[1] == q {
					a.ensure(st, b.args[0])
					x, _ := addTerm(b.args[0], c)
					st.num.le(t, x, 0)
					st.num.le(x, t, 0)
				}
			}
			// bound by a difference: p <= m - q  =>  p+q <= m
			for _, pq := range [][2]T{{l, r}, {r, l}} {
				p, q := pq[0], pq[1]
				for i, at := range st.num.atoms {
					if i > 0 && at.op == OBin && at.aux == "-" && at.args[1] == q {
						d := st.num.maxDiff(p, at)
						if d != INF {
							st.num.le(t, at.args[0], d)
						}
						// and from below, where the difference does not overflow
						if d := st.num.maxDiff(at, p); d != INF && st.num.lower(q) >= 0 && st.num.lower(at.args[0]) >= 0 {
							st.num.le(at.args[0], t, d)
						}
					}
				}
			}
		} else {
			if d := st.num.maxDiff(l, r); d != INF {
				st.num.le(t, mkInt(0), d)
			}
			if d := st.num.maxDiff(r, l); d != INF {
				st.num.le(mkInt(0), t, d)
			}
			if rl != -INF && rl != math.MinInt64 {
				st.num.le(t, l, -rl)
			}
			if ru != INF {
				st.num.le(l, t, ru)
			}
			pl, ok1 := a.parityOf(st, l)
			pr, ok2 := a.parityOf(st, r)
			if ok1 && ok2 {
				st.num.setParity(t, (pl^pr)&1)
			}
		}
		return t
	case token.MUL:
		t := mkB(l, r)
		st.num.atom(t)
		if ll >= 0 && rl >= 0 && lu != INF && ru != INF && (lu == 0 || ru <= (1<<62)/lu) {
			st.num.le(mkInt(0), t, 0)
			st.num.le(t, mkInt(lu*ru), 0)
			if rok && rc >= 1 {
				st.num.le(l, t, 0)
			}
			if lok && lc >= 1 {
				st.num.le(r, t, 0)
			}
			if rok && rc%2 == 0 || lok && lc%2 == 0 {
				st.num.setParity(t, 0)
			}
		}
		return t
	case token.QUO, token.REM:
		nz := st.num.provesLE(mkInt(1), r, 0) || st.num.provesLE(r, mkInt(-1), 0)
		a.rep.obl("C10", st, at, "div", nz, fmt.Sprintf("division by a value that may be zero (%v)", r))
		if !nz {
			st.num.le(mkInt(1), r, 0)
		}
		t := mkB(l, r)
		st.num.atom(t)
		pos := st.num.provesLE(mkInt(1), r, 0)
		if op == token.REM && pos {
			if ll >= 0 {
				st.num.le(mkInt(0), t, 0)
				st.num.le(t, l, 0)
			} else if ru != INF {
				st.num.le(mkInt(0), t, ru-1)
			}
			st.num.le(t, r, -1)
			if rok && rc == 2 {
				a.parityTerm(st, t, l)
			}
		}
		if op == token.QUO && pos && ll >= 0 {
			st.num.le(mkInt(0), t, 0)
			st.num.le(t, l, 0)
		}
		return t
	case token.AND:
		t := mkB(l, r)
		st.num.atom(t)
		if rok && rc >= 0 {
			st.num.le(mkInt(0), t, 0)
			st.num.le(t, mkInt(rc), 0)
			if rc == 1 {
				a.parityTerm(st, t, l)
			}
		} else if lok && lc >= 0 {
			st.num.le(mkInt(0), t, 0)
			st.num.le(t, mkInt(lc), 0)
			if lc == 1 {
				a.parityTerm(st, t, r)
			}
		}
		return t
	}
	t := mkB(l, r)
	st.num.atom(t)
	return t
}

// parityTerm: t is x&1 or x%2.
func (a *Analysis) parityTerm(st *State, t, x T) {
	if p, ok := a.parityOf(st, x); ok {
		lo, _ := a.bounds(st, x)
		if lo >= 0 || t.aux == "&" {
			st.num.le(t, mkInt(int64(p)), 0)
			st.num.le(mkInt(int64(p)), t, 0)
		}
	}
}

func foldInt(op token.Token, x, y, lo, hi int64) (int64, bool) {
	var v int64
	switch op {
	case token.ADD:
		s, ok := addOv(x, y)
		if !ok {
			return x + y, lo == math.MinInt64
		}
		v = s
	case token.SUB:
		v = x - y
		if (x >= 0 && y < 0 && v < 0) || (x < 0 && y > 0 && v > 0) {
			return v, lo == math.MinInt64
		}
	case token.MUL:
		v = x * y
		if x != 0 && (v/x != y) {
			return 0, false
		}
	case token.QUO:
		if y == 0 {
			return 0, false
		}
		v = x / y
	case token.REM:
		if y == 0 {
			return 0, false
		}
		v = x % y
	case token.AND:
		v = x & y
	case token.OR:
		v = x | y
	case token.XOR:
		v = x ^ y
	case token.SHL:
		if y < 0 || y > 62 {
			return 0, false
		}
		v = x << uint(y)
	case token.SHR:
		if y < 0 || y > 63 {
			return 0, false
		}
		v = x >> uint(y)
	default:
		return 0, false
	}
	if v < lo || v > hi {
		return 0, false
	}
	return v, true
}

func (a *Analysis) compare(st *State, op token.Token, l, r T, typ types.Type) T {
	bt := types.Typ[types.Bool]
	if isInt(typ) {
		a.ensure(st, l)
		a.ensure(st, r)
		switch op {
		case token.GTR:
			l, r, op = r, l, token.LSS
		case token.GEQ:
			l, r, op = r, l, token.LEQ
		}
		switch op {
		case token.LSS:
			if st.num.provesLE(l, r, -1) {
				return mkBool(true)
			}
			if st.num.provesLE(r, l, 0) {
				return mkBool(false)
			}
			return mk(OBin, "<", bt, l, r)
		case token.LEQ:
			if st.num.provesLE(l, r, 0) {
				return mkBool(true)
			}
			if st.num.provesLE(r, l, -1) {
				return mkBool(false)
			}
			return mk(OBin, "<=", bt, l, r)
		}
		if st.num.provesLE(l, r, -1) || st.num.provesLE(r, l, -1) {
			return mkBool(op == token.NEQ)
		}
		if st.num.provesLE(l, r, 0) && st.num.provesLE(r, l, 0) {
			return mkBool(op == token.EQL)
		}
		e := mkEq(l, r)
		if f, ok := st.facts[e]; ok {
			return mkBool(f == (op == token.EQL))
		}
		if op == token.NEQ {
			return mk(OBin, "!", bt, e)
		}
		return e
	}
	switch op {
	case token.EQL, token.NEQ:
		if v, ok := a.decideEq(st, l, r, typ); ok {
			return mkBool(v == (op == token.EQL))
		}
		if isBool(typ) {
			if b, ok := r.constBool(); ok {
				if b == (op == token.EQL) {
					return l
				}
				return mk(OBin, "!", bt, l)
			}
		}
		e := mkEq(l, r)
		if op == token.NEQ {
			return mk(OBin, "!", bt, e)
		}
		return e
	}
	t := mk(OBin, op.String(), bt, l, r)
	if f, ok := st.facts[t]; ok {
		return mkBool(f)
	}
	return t
}

func (a *Analysis) decideEq(st *State, l, r T, typ types.Type) (bool, bool) {
	if l == r {
		if b, ok := typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
			return true, true
		}
		return false, false
	}
	if l.isConst() && r.isConst() {
		if l.aux == nil || r.aux == nil {
			return l.aux == nil && r.aux == nil, true
		}
		lv, rv := l.aux.(constant.Value), r.aux.(constant.Value)
		if lv.Kind() == rv.Kind() {
			return constant.Compare(lv, token.EQL, rv), true
		}
		return false, false
	}
	if l.isConst() {
		l, r = r, l
	}
	if r.isNil() {
		if v, ok := a.isNil(st, l, typ); ok {
			return v, true
		}
	}
	if isPtr(typ) {
		lo, ro := l.op == OObj || l.op == OFA && rootObj(l).op == OObj, r.op == OObj || r.op == OFA && rootObj(r).op == OObj
		if lo && ro {
			return false, true
		}
		if lo && !mayBeNew(r) || ro && !mayBeNew(l) {
			return false, true
		}
	}
	if f, ok := st.facts[mkEq(l, r)]; ok {
		return f, true
	}
	// x == c known for another constant
	if r.isConst() && r.aux != nil {
		for k, v := range st.facts {
			if v && k.op == OBin && k.aux == "==" && k.args[0] == l && k.args[1].isConst() && k.args[1] != r && k.args[1].aux != nil {
				return false, true
			}
		}
	}
	return false, false
}

// mayBeNew: may the term denote an object allocated after the entry point started?
func mayBeNew(t T) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case OObj, OSym, OStar:
		return true
	case OLd:
		return mayBeNew(t.args[0])
	}
	for _, x := range t.args {
		if mayBeNew(x) {
			return true
		}
	}
	return false
}

func (a *Analysis) isNil(st *State, l T, typ types.Type) (bool, bool) {
	switch l.op {
	case OObj, OFA, OIA, OIface, OClosure, OFunc, OGlobal:
		return false, true
	case OSub:
		return a.isNil(st, l.args[0], typ)
	case OConv:
		return false, true
	case OCast:
		if l.args[0].op == OSV {
			return false, true
		}
	case OSV:
		return false, true
	case OCall:
		if l.aux == "mapval" {
			return false, true
		}
	case ORoot:
		return false, true
	case OLd:
		ad := l.args[0]
		if ad.op == OIA {
			if r := rootObj(ad); r.op == ORoot {
				return false, true // arguments are never nil
			}
		}
		if isLink(ad) {
			return false, true // inside a well-formed list
		}
	}
	if inf := st.slices[l]; inf != nil && inf.nonNil {
		return false, true
	}
	if l.op == OSym && isNodeType(typ) && a.posOn() {
		if _, ok := st.num.idx[posOf(l)]; ok {
			return false, true // only nodes have positions
		}
	}
	if f, ok := st.facts[mkEq(l, mkNil(nil))]; ok {
		return f, true
	}
	return false, false
}

// assume refines the state with cond == truth; false when infeasible.
func (a *Analysis) assume(st *State, c T, truth bool) bool {
	if v, ok := c.constBool(); ok {
		return v == truth
	}
	if c.op == OBin {
		switch c.aux {
		case "!":
			return a.assume(st, c.args[0], !truth)
		case "<", "<=":
			l, r := c.args[0], c.args[1]
			if isIntTerm(l) && isIntTerm(r) {
				a.ensure(st, l)
				a.ensure(st, r)
				k := int64(0)
				if c.aux == "<" {
					k = -1
				}
				if truth {
					st.num.le(l, r, k)
				} else {
					// r <= l-? : !(l<r) = r<=l ; !(l<=r) = r<=l-1
					st.num.le(r, l, -1-k)
				}
				a.sharpen(st)
				a.signs(st, l, r)
				a.onNum(st, c)
				return !st.num.bot
			}
		case "==":
			l, r := c.args[0], c.args[1]
			if isIntTerm(l) && isIntTerm(r) {
				if truth {
					a.eqNum(st, l, r)
					a.parityBack(st, l, r)
					a.onNum(st, c)
					return !st.num.bot
				}
				a.ensure(st, l)
				a.ensure(st, r)
				if st.num.provesLE(l, r, 0) {
					st.num.le(l, r, -1)
				} else if st.num.provesLE(r, l, 0) {
					st.num.le(r, l, -1)
				} else {
					st.facts[c] = false
				}
				// x&1 != 1 => even
				if k, ok := r.constInt(); ok && (k == 0 || k == 1) {
					a.ensure(st, l)
					if st.num.lower(l) >= 0 && st.num.upper(l) <= 1 {
						a.parityBack(st, l, mkInt(1-k))
					}
				}
				a.onNum(st, c)
				return !st.num.bot
			}
			if v, ok := a.decideEq(st, l, r, typOr(l, r)); ok {
				return v == truth
			}
			a.posEq(st, l, r, truth)
			if st.num.bot {
				return false
			}
			st.facts[c] = truth
			return a.factHook(st, c, truth)
		}
	}
	if f, ok := st.facts[c]; ok {
		return f == truth
	}
	st.facts[c] = truth
	return a.factHook(st, c, truth)
}

// sharpen: two numbers known to differ, of which one is at most the other, differ by one.
func (a *Analysis) sharpen(st *State) {
	if st.num.bot {
		return
	}
	var done []T
	for c, v := range st.facts {
		if v || c.op != OBin || c.aux != "==" || !isIntTerm(c.args[0]) || !isIntTerm(c.args[1]) {
			continue
		}
		done = append(done, c)
	}
	sort.Slice(done, func(i, j int) bool { return done[i].id < done[j].id })
	for _, c := range done {
		l, r := c.args[0], c.args[1]
		a.ensure(st, l)
		a.ensure(st, r)
		if st.num.provesLE(l, r, 0) {
			st.num.le(l, r, -1)
		} else if st.num.provesLE(r, l, 0) {
			st.num.le(r, l, -1)
		} else {
			continue
		}
		delete(st.facts, c)
	}
}

func typOr(l, r T) types.Type {
	if l.typ != nil {
		return l.typ
	}
	if r.typ != nil {
		return r.typ
	}
	return types.Typ[types.String]
}

func isIntTerm(t T) bool {
	if _, ok := t.constInt(); ok {
		return true
	}
	return t.typ != nil && isInt(t.typ)
}

func (a *Analysis) parityBack(st *State, l, r T) {
	if l.op == OBin && (l.aux == "&" || l.aux == "%") {
		k, ok := r.constInt()
		if !ok {
			return
		}
		if c, ok := l.args[1].constInt(); ok && (l.aux == "&" && c == 1 || l.aux == "%" && c == 2) {
			at, off := lin(l.args[0])
			if at != nil {
				a.ensure(st, at)
				st.num.setParity(at, int8((k-off)&1)&1)
			}
		}
	}
}

func (a *Analysis) convert(st *State, at ssa.Instruction, v T, from, to types.Type) T {
	fu, tu := from.Underlying(), to.Underlying()
	if isInt(from) && isInt(to) {
		lo, hi := intRange(to)
		l, u := a.bounds(st, v)
		fl, fh := intRange(from)
		if l == -INF {
			l = fl
		}
		if u == INF {
			u = fh
		}
		if l >= lo && u <= hi {
			return v
		}
		t := mk(OConv, "int:"+to.String(), to, v)
		a.ensure(st, t)
		return t
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			if v.op == OConv && v.aux == "bytes" {
				return v.args[0]
			}
			if v.isNil() {
				return mkStr("")
			}
			return mk(OConv, "str", to, v)
		}
		if isString(from) {
			return v
		}
		return mk(OConv, "string", to, v)
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		if types.Identical(sl.Elem().Underlying(), types.Typ[types.Byte]) {
			return mk(OConv, "bytes", to, v)
		}
	}
	return mk(OConv, to.String(), to, v)
}

func (a *Analysis) lenTerm(st *State, v T) T {
	switch v.op {
	case OSub:
		base, lo, hi := v.args[0], v.args[1], v.args[2]
		if hi == nil {
			if p, ok := typUnder(base).(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					hi = mkInt(at.Len())
				}
			}
			if hi == nil {
				hi = a.lenTerm(st, base)
			}
		}
		return a.intOp(st, nil, token.SUB, hi, lo, types.Typ[types.Int])
	}
	t := mkLen(v)
	a.ensure(st, t)
	return t
}

func (a *Analysis) slice(st *State, x *ssa.Slice) bool {
	base := a.val(st, x.X)
	var lo, hi, mx T
	lo = mkInt(0)
	if x.Low != nil {
		lo = a.val(st, x.Low)
	}
	if x.High != nil {
		hi = a.val(st, x.High)
	}
	if x.Max != nil {
		mx = a.val(st, x.Max)
	}
	var ln T
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			ln = mkInt(at.Len())
		}
	} else {
		ln = a.lenTerm(st, base)
	}
	top := ln
	if mx != nil && hi == nil {
		hi = mx
	}
	if hi != nil {
		// bounded by capacity, which is at least the length; treat the length as the bound
		capOk := false
		if !isString(x.X.Type()) && !st.num.provesLE(hi, ln, 0) {
			if c := a.capTerm(st, base); c != nil {
				a.ensure(st, hi)
				if st.num.provesLE(hi, c, 0) {
					capOk = true
				}
			}
		}
		if !capOk && !a.inBounds(st, x, hi, ln, 0, "slice") {
			return false
		}
		top = hi
	}
	if !a.inBounds(st, x, lo, top, 0, "slice") {
		return false
	}
	if base.isNil() {
		a.set(st, x, base)
		return true
	}
	if s, ok := base.constStr(); ok {
		l, ok1 := lo.constInt()
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.constInt()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			a.set(st, x, mkStr(s[l:h]))
			return true
		}
	}
	if c, ok := lo.constInt(); ok && c == 0 && hi == nil && mx == nil && !isPtr(x.X.Type()) {
		a.set(st, x, base)
		return true
	}
	t := mkSub(base, lo, hi, x.Type())
	a.set(st, x, t)
	return true
}

func (a *Analysis) capTerm(st *State, base T) T {
	if base.op == OObj {
		if v, ok := st.heap[mk(OGhost, "cap", types.Typ[types.Int], base)]; ok {
			return v
		}
	}
	return nil
}

// loopSym: the term mentions a loop-generalised integer, whose value must stay symbolic.
func loopSym(t T) bool {
	for _, x := range t.syms {
		if x.op != OSym {
			continue
		}
		switch x.aux.(*Site).instr.(type) {
		case *ssa.Phi, *ssa.BasicBlock:
			return true
		}
	}
	return false
}
