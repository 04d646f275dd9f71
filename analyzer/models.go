package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tStr = types.Typ[types.String]

// ---------- builtins ----------
func (a *Analysis) builtin(st *State, at ssa.Instruction, name string, c *ssa.CallCommon, args []T, res ssa.Value) bool {
	set := func(t T) {
		if res != nil {
			a.set(st, res, t)
		}
	}
	switch name {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if s, db := a.storeOf(args[0]); s != "" {
				a.onStoreScan(st, at, s, db, args[0])
				set(a.sym(st, at, "len", tInt))
				return true
			}
			a.onMapRead(st, at, args[0], nil)
			n := a.mlen(st, args[0])
			a.ensure(st, n)
			set(n)
		case *types.Array:
			set(mkInt(u.Len()))
		case *types.Pointer:
			set(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			t := a.sym(st, at, "len", tInt)
			a.ensure(st, t)
			st.num.le(mkInt(0), t, 0)
			set(t)
		default:
			set(a.lenTerm(st, args[0]))
		}
	case "cap":
		if cp := a.capTerm(st, args[0]); cp != nil {
			set(cp)
		} else {
			t := a.sym(st, at, "cap", tInt)
			ln := a.lenTerm(st, args[0])
			a.ensure(st, t)
			st.num.le(ln, t, 0)
			st.num.le(t, mkInt(maxLen), 0)
			set(t)
		}
	case "append":
		return a.doAppend(st, at, c, args, res)
	case "copy":
		a.doCopy(st, at, c, args, res)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		return a.mapDelete(st, at, args[0], args[1], mt)
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			a.onMapWrite(st, at, args[0], nil, "clear")
			a.setMlen(st, args[0], mkInt(0))
			for g, r := range st.mem {
				if r.m == args[0] {
					delete(st.mem, g)
				}
			}
		}
	case "close":
		a.onClose(st, at, args[0])
	case "panic":
		a.rep.obl("C10", st, at, "panic", false, "explicit panic is reachable")
		return false
	case "recover":
		set(mkNil(anyType))
	case "print", "println":
	case "min", "max":
		t := a.sym(st, at, name, c.Args[0].Type())
		if isInt(t.typ) {
			a.ensure(st, t)
			for _, x := range args {
				a.ensure(st, x)
				if name == "min" {
					st.num.le(t, x, 0)
				} else {
					st.num.le(x, t, 0)
				}
			}
			lo, hi := int64(-INF), int64(-INF)
			for i, x := range args {
				l, h := a.bounds(st, x)
				if i == 0 || name == "min" && l < lo || name == "max" && l > lo {
					lo = l
				}
				if i == 0 || name == "min" && h < hi || name == "max" && h > hi {
					hi = h
				}
			}
			if lo != -INF {
				st.num.le(mkInt(lo), t, 0)
			}
			if hi != INF {
				st.num.le(t, mkInt(hi), 0)
			}
		}
		set(t)
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		if res != nil {
			set(a.sym(st, at, name, res.Type()))
		}
	}
	return true
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// prefixAppend: appending to a prefix overwrites what follows it.
func (a *Analysis) prefixAppend(st *State, at ssa.Instruction, base T) {
	if base.op != OSub || base.args[2] == nil {
		return
	}
	r := a.rootOf(st, base)
	ok := r.op == OObj || (r.op == OConv && r.aux == "bytes") || a.freshSlice(st, base.args[0])
	a.rep.obl("C18", st, at, "append-to-prefix", ok, "append to a prefix of bytes that others may hold overwrites them in place")
}

func (a *Analysis) doAppend(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T, res ssa.Value) bool {
	base := args[0]
	typ := c.Args[0].Type()
	if len(args) == 1 {
		if res != nil {
			a.set(st, res, base)
		}
		return true
	}
	add := args[1]
	if isByteSlice(typ) {
		a.prefixAppend(st, at, base)
		var t T
		if base.isNil() {
			base = mk(OConv, "bytes", typ, mkStr(""))
		}
		// single bytes: append(b, 'x', 'y')
		parts := a.byteParts(st, add)
		t = mk(OCall, "bappend", typ, append([]T{base}, parts...)...)
		lt := a.lenTerm(st, base)
		at2 := a.addLens(st, lt, a.lenTerm(st, add))
		ln := mk(OLen, nil, tInt, t)
		a.ensure(st, ln)
		a.eqNum(st, ln, at2)
		if res != nil {
			a.set(st, res, t)
		}
		return true
	}
	a.onAppend(st, at, add)
	inf := a.sliceInfo(st, base)
	n := &SliceInfo{nonNil: true}
	if inf != nil {
		n.items = inf.items
		n.fresh = inf.fresh
	} else {
		n.items = addItem(n.items, mk(OGhost, "allof", nil, base))
	}
	ln := a.lenTerm(st, base)
	var al T
	if isString(add.typ) && !isSlice(add.typ) {
		al = a.lenTerm(st, add)
	} else {
		if ai := a.sliceInfo(st, add); ai != nil {
			for _, it := range ai.items {
				n.items = addItem(n.items, it)
			}
			al = a.lenTerm(st, add)
		} else {
			n.items = addItem(n.items, mk(OGhost, "allof", nil, add))
			al = a.lenTerm(st, add)
		}
	}
	if a.unroll {
		if b, ok := a.elems(st, base); ok {
			if e, ok := a.elems(st, add); ok && len(b)+len(e) <= 64 {
				n.seq, n.hasSeq = append(append([]T(nil), b...), e...), true
			}
		}
	}
	if a.coarse && len(n.items) > 0 {
		n.items = []T{mk(OStar, mkSite(nil, typ.String(), "elem"), n.items[0].typ)}
	}
	total := a.addLens(st, ln, al)
	// keep the value's identity apart from the base it grew from
	tmp := mk(OSym, a.site(st, at, "app!tmp"), typ)
	tl := mk(OLen, nil, tInt, tmp)
	a.ensure(st, tl)
	a.eqNum(st, tl, total)
	a.wAppend(st, n, base, add, tmp)
	st.slices[tmp] = n
	fin := mk(OSym, a.site(st, at, "app"), typ)
	if res != nil {
		a.set(st, res, tmp)
	}
	if st.mentions(fin) {
		st.renameSym(fin, mk(OStar, fin.aux, fin.typ))
	}
	st.renameSym(tmp, fin)
	return true
}

// elems lists the exact elements of a slice value, when they are known.
func (a *Analysis) elems(st *State, v T) ([]T, bool) {
	if v.isNil() {
		return nil, true
	}
	var et types.Type
	if v.typ != nil {
		if s, ok := v.typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	if et == nil {
		return nil, false
	}
	lo, hi := a.bounds(st, a.lenTerm(st, v))
	if lo != hi || lo < 0 || lo > 64 {
		return nil, false
	}
	inf := st.slices[v]
	if v.op == OSub && inf == nil && v.args[0].typ != nil && isSlice(v.args[0].typ) && v.args[1] != nil {
		if from, to := a.bounds(st, v.args[1]); from == to && from >= 0 {
			if es, ok := a.elems(st, v.args[0]); ok && from+lo <= int64(len(es)) {
				return es[from : from+lo], true
			}
		}
	}
	var out []T
	for i := int64(0); i < lo; i++ {
		ad := mkIA(v, mkInt(i), types.NewPointer(et))
		if c, ok := st.heap[ad]; ok {
			out = append(out, c)
			continue
		}
		if inf != nil && inf.hasSeq && int(i) < len(inf.seq) {
			out = append(out, inf.seq[i])
			continue
		}
		switch r := rootObj(ad); {
		case r.op == ORoot || r.op == OObj || r.op == OLd:
			out = append(out, a.loadRaw(st, ad, et))
		default:
			return nil, false
		}
	}
	return out, true
}

func (a *Analysis) addLens(st *State, x, y T) T {
	return a.intOp(st, nil, token.ADD, x, y, tInt)
}

// byteParts turns the appended byte slice into content terms.
func (a *Analysis) byteParts(st *State, add T) []T {
	if add.op == OSub && add.args[0].op == OObj {
		base := add.args[0]
		if p, ok := typUnder(base).(*types.Pointer); ok {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				var s []byte
				okAll := true
				for i := int64(0); i < ar.Len(); i++ {
					e, ok := st.heap[mkIA(base, mkInt(i), types.NewPointer(ar.Elem()))]
					v, okc := e.constInt()
					if !ok || !okc {
						okAll = false
						break
					}
					s = append(s, byte(v))
				}
				if okAll {
					return []T{mk(OConv, "bytes", add.typ, mkStr(string(s)))}
				}
			}
		}
	}
	return []T{add}
}

// content gives a byte slice or string value as a string term.
func content(t T) T {
	switch {
	case t == nil:
		return nil
	case t.op == OConv && t.aux == "bytes":
		return content(t.args[0])
	case t.op == OCall && t.aux == "bappend":
		var ps []T
		for _, x := range t.args {
			ps = append(ps, content(x))
		}
		return mkConcat(ps...)
	case t.op == OCall && t.aux == "concat":
		var ps []T
		for _, x := range t.args {
			ps = append(ps, content(x))
		}
		return mkConcat(ps...)
	case t.isNil():
		return mkStr("")
	case t.typ != nil && isByteSlice(t.typ):
		return mk(OConv, "str", tStr, t)
	}
	return t
}

func (a *Analysis) doCopy(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T, res ssa.Value) {
	dst := args[0]
	if isByteSlice(c.Args[0].Type()) {
		a.bytesWrite(st, at, dst, "copy overwrites bytes")
	} else {
		a.container(st, at, dst, true)
	}
	base := dst
	if base.op == OSub {
		base = base.args[0]
	}
	if inf := st.slices[base]; inf != nil {
		n := *inf
		src := a.sliceInfo(st, args[1])
		if src != nil {
			for _, it := range src.items {
				n.items = addItem(n.items, it)
			}
		} else {
			n.items = addItem(n.items, mk(OGhost, "allof", nil, args[1]))
		}
		n.wok = false
		st.slices[base] = &n
	}
	for cell := range st.heap {
		if cell.op == OIA && cell.args[0] == base {
			delete(st.heap, cell)
		}
	}
	if res != nil {
		t := a.sym(st, at, "copied", tInt)
		a.ensure(st, t)
		st.num.le(mkInt(0), t, 0)
		st.num.le(t, a.lenTerm(st, dst), 0)
		if !isString(c.Args[1].Type()) {
			st.num.le(t, a.lenTerm(st, args[1]), 0)
		}
		a.set(st, res, t)
	}
}

// ---------- calls of code outside the repository ----------
func (a *Analysis) model(st *State, at ssa.Instruction, fn *ssa.Function, args []T, res ssa.Value) bool {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	set := func(ts ...T) {
		if res == nil {
			return
		}
		if len(ts) == 1 {
			a.set(st, res, ts[0])
		} else {
			a.set(st, res, mk(OTuple, nil, nil, ts...))
		}
	}
	switch name {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		op := name[strings.LastIndex(name, ".")+1:]
		if args[0].isNil() {
			a.rep.obl("C10", st, at, "nil-deref", false, "lock operation on a nil mutex")
			return false
		}
		a.lockOp(st, at, args[0], op, "")
		return true
	case "(*sync.RWMutex).TryLock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryRLock":
		op := strings.TrimPrefix(name[strings.LastIndex(name, ".")+1:], "Try")
		s2 := st.clone()
		a.lockOp(st, at, args[0], op, "")
		set(mkBool(true))
		if res != nil {
			a.set(s2, res, mkBool(false))
		}
		return a.fork(st, s2)
	case "(*sync.RWMutex).RLocker":
		set(mk(OIface, "rlocker", anyType, args[0]))
		return true
	case "time.Now":
		set(mk(ORoot, "now", fn.Signature.Results().At(0).Type()))
		return true
	case "(time.Time).Unix":
		set(mk(OCall, "unix", types.Typ[types.Int64], args[0]))
		return true
	case "time.Sleep":
		a.blocking(st, at, "time.Sleep")
		return true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		a.onExit(st, at, name)
		return false
	case "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
		a.onExit(st, at, name)
		return false
	case "fmt.Sprintf":
		set(a.sprintf(st, at, args))
		return true
	case "fmt.Sprint":
		set(a.sprint(st, at, args))
		return true
	case "errors.New":
		o := a.obj(st, at, "err", types.NewPointer(fn.Signature.Results().At(0).Type()))
		set(mk(OIface, "*errors.errorString", fn.Signature.Results().At(0).Type(), o))
		return true
	case "fmt.Errorf":
		o := a.obj(st, at, "err", types.NewPointer(fn.Signature.Results().At(0).Type()))
		set(mk(OIface, "*fmt.wrapError", fn.Signature.Results().At(0).Type(), o))
		return true
	case "bytes.Equal":
		x, y := args[0], args[1]
		if x == y {
			set(mkBool(true))
			return true
		}
		if x.id > y.id {
			x, y = y, x
		}
		a.pureSet(st, at, "bytes.Equal", []T{x, y}, fn, res)
		return true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := args[0].constStr(); ok {
			switch name {
			case "strings.ToLower":
				set(mkStr(strings.ToLower(s)))
			case "strings.ToUpper":
				set(mkStr(strings.ToUpper(s)))
			default:
				set(mkStr(strings.TrimSpace(s)))
			}
			return true
		}
		t := mk(OCall, name, tStr, args...)
		a.foldFacts(st, t)
		set(t)
		return true
	case "strings.EqualFold":
		x, y := args[0], args[1]
		if _, ok := x.constStr(); ok {
			x, y = y, x
		}
		if s, ok := y.constStr(); ok {
			t := mkEq(mk(OCall, "strings.ToLower", tStr, x), mkStr(strings.ToLower(s)))
			if v, ok := a.decideEq(st, t.args[0], t.args[1], tStr); ok {
				set(mkBool(v))
			} else {
				set(t)
			}
			return true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
		if y, ok := args[1].constStr(); ok {
			t := mk(OCall, name, tBool, args...)
			if f, ok := st.facts[t]; ok {
				set(mkBool(f))
				return true
			}
			set(t)
			_ = y
			return true
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write",
		"(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		cell := mk(OGhost, "buf", tStr, args[0])
		old, ok := st.heap[cell]
		if !ok {
			old = mkStr("")
		}
		x := args[1]
		if strings.HasSuffix(name, "Byte") || strings.HasSuffix(name, "Rune") {
			if c, ok := x.constInt(); ok {
				x = mkStr(string(rune(c)))
			} else {
				x = mk(OCall, "bytestr", tStr, x)
			}
		} else {
			x = content(x)
		}
		st.heap[cell] = mkConcat(old, x)
		a.setRes(st, at, res, fn.Signature, "w")
		return true
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		cell := mk(OGhost, "buf", tStr, args[0])
		old, ok := st.heap[cell]
		if !ok {
			old = mkStr("")
		}
		if strings.HasSuffix(name, "Bytes") {
			old = mk(OConv, "bytes", fn.Signature.Results().At(0).Type(), old)
		}
		set(old)
		return true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		cell := mk(OGhost, "buf", tStr, args[0])
		old, ok := st.heap[cell]
		if !ok {
			old = mkStr("")
		}
		set(a.lenTerm(st, old))
		return true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		n := args[1]
		a.makeSize(st, at, n, nil)
		return true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.heap[mk(OGhost, "buf", tStr, args[0])] = mkStr("")
		return true
	case "strings.Repeat", "bytes.Repeat":
		a.ensure(st, args[1])
		neg := st.num.provesLE(mkInt(0), args[1], 0)
		a.rep.obl("C10", st, at, "repeat", neg, "strings.Repeat with a count that may be negative")
		if !neg {
			st.num.le(mkInt(0), args[1], 0)
		}
		if !a.makeSize(st, at, args[1], nil) {
			return false
		}
		a.pureSet(st, at, name, args, fn, res)
		return true
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand.Perm":
		a.ensure(st, args[0])
		pos := st.num.provesLE(mkInt(1), args[0], 0)
		if name == "math/rand.Perm" {
			pos = st.num.provesLE(mkInt(0), args[0], 0)
		}
		a.rep.obl("C10", st, at, "rand", pos, name+" with an argument that may not be positive")
		st.num.le(mkInt(1), args[0], 0)
		if name == "math/rand.Perm" {
			break
		}
		t := a.sym(st, at, "rand", fn.Signature.Results().At(0).Type())
		a.ensure(st, t)
		st.num.le(mkInt(0), t, 0)
		st.num.le(t, args[0], -1)
		set(t)
		return true
	case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.StoreInt64", "sync/atomic.StoreInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.CompareAndSwapInt64":
		a.onAtomic(st, at, args[0])
		a.setRes(st, at, res, fn.Signature, "atomic")
		return true
	case "sort.Ints", "sort.Strings", "slices.Sort", "sort.Slice", "sort.Sort", "slices.SortFunc", "sort.SliceStable", "sort.Stable":
		x := args[0]
		if x.op == OIface {
			x = x.args[0]
		}
		if inf := st.slices[x]; inf != nil {
			n := *inf
			if len(n.w) == 1 && n.w != "?" {
				st.num.remove(wposOf(x)) // somewhere
			}
			n.sorted = name == "sort.Ints" || name == "slices.Sort" || name == "sort.Strings"
			st.slices[x] = &n
		}
		for cell := range st.heap {
			if cell.op == OIA && cell.args[0] == x {
				delete(st.heap, cell)
			}
		}
		a.setRes(st, at, res, fn.Signature, "sort")
		return true
	case "bufio.NewReader", "bufio.NewReaderSize", "bufio.NewWriter", "bufio.NewScanner":
		a.external(st, at, name, args)
		o := a.obj(st, at, "bufio", fn.Signature.Results().At(0).Type())
		st.heap[mk(OGhost, "opaque", tBool, o)] = mkBool(true)
		set(o)
		return true
	case "io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read":
		a.blocking(st, at, name)
		a.onRead(st, at, name, args)
		buf := args[1]
		if r := a.rootOf(st, buf); r != nil {
			st.heap[mk(OGhost, "opaque", tBool, r)] = mkBool(true)
		}
		n := a.sym(st, at, "n", tInt)
		a.ensure(st, n)
		st.num.le(mkInt(0), n, 0)
		st.num.le(n, a.lenTerm(st, buf), 0)
		set(n, a.sym(st, at, "rerr", fn.Signature.Results().At(1).Type()))
		return true
	case "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine", "(*bufio.Reader).Peek":
		a.blocking(st, at, name)
		a.onRead(st, at, name, args)
		a.setRes(st, at, res, fn.Signature, "read")
		if res != nil {
			// without an error at least the delimiter was read
			tu := a.val(st, res)
			if tu.op == OTuple && len(tu.args) == 2 {
				s2 := st.clone()
				ln := a.lenTerm(st, tu.args[0])
				a.ensure(st, ln)
				if name == "(*bufio.Reader).Peek" {
					if n := args[1]; isIntTerm(n) {
						a.ensure(st, n)
						st.num.le(n, ln, 0)
						st.num.le(ln, n, 0)
						a.ensure(s2, a.lenTerm(s2, tu.args[0]))
						a.ensure(s2, n)
						s2.num.le(a.lenTerm(s2, tu.args[0]), n, 0)
					}
				} else {
					st.num.le(mkInt(1), ln, 0)
				}
				if name == "(*bufio.Reader).ReadSlice" || name == "(*bufio.Reader).Peek" {
					st.heap[mk(OGhost, "shared", tBool, tu.args[0])] = mkBool(true)
				}
				var out []*State
				if a.assume(st, mkEq(tu.args[1], mkNil(nil)), true) {
					out = append(out, st)
				}
				if a.assume(s2, mkEq(tu.args[1], mkNil(nil)), false) {
					out = append(out, s2)
				}
				return a.fork(out...)
			}
		}
		return true
	case "strings.Fields", "strings.Split", "strings.SplitN":
		a.setRes(st, at, res, fn.Signature, "split")
		if res != nil && name != "strings.Fields" {
			if s, ok := args[1].constStr(); ok && s != "" {
				ln := a.lenTerm(st, a.val(st, res))
				a.ensure(st, ln)
				st.num.le(mkInt(1), ln, 0)
			}
		}
		return true
	case "os.Open", "os.OpenFile", "os.Create", "net.Listen", "net.Dial":
		a.external(st, at, name, args)
		a.blocking(st, at, name)
		a.setRes(st, at, res, fn.Signature, "open")
		return true
	}
	if fn.Pkg != nil && pureExternal(fn.Pkg.Pkg.Path(), name) || fn.Pkg == nil && pureExternal(pkgOf(name), name) {
		a.pureSet(st, at, name, args, fn, res)
		return true
	}
	if blockingExternal(name) {
		a.blocking(st, at, name)
	}
	a.external(st, at, name, args)
	a.setRes(st, at, res, fn.Signature, "ext")
	return true
}

func pkgOf(name string) string {
	n := strings.TrimLeft(name, "(*")
	if i := strings.LastIndex(n, "."); i > 0 {
		n = n[:i]
	}
	return n
}

func blockingExternal(name string) bool {
	for _, p := range []string{"net.", "(*net.", "os.", "(*os.", "io.", "(*bufio.", "bufio.", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "fmt.Print", "fmt.Fprint", "(*log."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func pureExternal(pkg, name string) bool {
	switch name {
	case "os.IsNotExist", "os.IsPermission", "os.IsTimeout", "os.IsExist":
		return true
	}
	switch pkg {
	case "strconv", "strings", "bytes", "unicode", "unicode/utf8", "math", "path", "path/filepath", "errors", "math/bits", "slices", "net":
		if strings.HasPrefix(name, "(") {
			return name == "(*strings.Replacer).Replace"
		}
		if pkg == "net" {
			return name == "net.ParseIP" || name == "net.JoinHostPort"
		}
		if pkg == "slices" {
			return strings.HasPrefix(name, "slices.Contains") || strings.HasPrefix(name, "slices.Index") || strings.HasPrefix(name, "slices.Equal")
		}
		return !strings.HasPrefix(name, "strings.New") && !strings.HasPrefix(name, "bytes.New")
	}
	return false
}

// pureSet: the result is a function of the arguments.
func (a *Analysis) pureSet(st *State, at ssa.Instruction, name string, args []T, fn *ssa.Function, res ssa.Value) {
	a.onParse(st, at, name, args)
	if strings.HasPrefix(name, "strconv.Append") && len(args) > 1 {
		// appends the text of a number
		a.prefixAppend(st, at, args[0])
		base := args[0]
		if base.isNil() {
			base = mk(OConv, "bytes", fn.Signature.Results().At(0).Type(), mkStr(""))
		}
		x, ok := a.foldCall("strconv.Format"+name[14:], 0, args[1:], tStr)
		if !ok {
			x = mk(OCall, "strconv.Format"+name[14:], tStr, args[1:]...)
		}
		if res != nil {
			t := mk(OCall, "bappend", fn.Signature.Results().At(0).Type(), base, x)
			if base.op == OSub {
				if hi, ok := base.args[2].constInt(); ok && hi == 0 {
					t = mk(OConv, "bytes", fn.Signature.Results().At(0).Type(), x)
				}
			}
			a.set(st, res, t)
		}
		return
	}
	if res == nil {
		return
	}
	sig := fn.Signature
	one := func(i int) T {
		typ := sig.Results().At(i).Type()
		n := name
		if sig.Results().Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		if typ.String() == "error" {
			n = name + ".err"
		}
		if v, ok := a.foldCall(name, i, args, typ); ok {
			return v
		}
		t := mk(OCall, n, typ, args...)
		if isInt(typ) {
			a.ensure(st, t)
			switch name {
			case "strings.Index", "strings.IndexByte", "strings.LastIndex", "bytes.Index", "bytes.IndexByte", "strings.IndexRune", "strings.IndexAny":
				st.num.le(mkInt(-1), t, 0)
				st.num.le(t, a.lenTerm(st, args[0]), 0)
			case "strings.Count", "bytes.Count":
				st.num.le(mkInt(0), t, 0)
			case "strings.Compare", "bytes.Compare":
				st.num.le(mkInt(-1), t, 0)
				st.num.le(t, mkInt(1), 0)
			}
		}
		if isByteSlice(typ) && strings.HasPrefix(name, "bytes.") {
			// trims return sub-slices of their argument
			if strings.HasPrefix(name, "bytes.Trim") {
				st.origin[t] = a.rootOf(st, args[0])
			}
		}
		if isBool(typ) {
			if f, ok := st.facts[t]; ok {
				return mkBool(f)
			}
		}
		return t
	}
	n := sig.Results().Len()
	if n == 1 {
		a.set(st, res, one(0))
		return
	}
	var ts []T
	for i := 0; i < n; i++ {
		ts = append(ts, one(i))
	}
	if n > 0 {
		a.set(st, res, mk(OTuple, nil, nil, ts...))
	}
}

func (a *Analysis) foldCall(name string, i int, args []T, typ types.Type) (T, bool) {
	switch name {
	case "strconv.Itoa", "strconv.FormatInt":
		if v, ok := args[0].constInt(); ok {
			return mkStr(fmt.Sprint(v)), true
		}
	}
	return nil, false
}

// foldFacts carries knowledge about ToLower(x) over to ToUpper(x) and back for ASCII constants.
func (a *Analysis) foldFacts(st *State, t T) {}

func (a *Analysis) sprintf(st *State, at ssa.Instruction, args []T) T {
	f, ok := args[0].constStr()
	if !ok {
		return mk(OCall, "fmt.Sprintf", tStr, args...)
	}
	var vs []T
	if len(args) > 1 && !args[1].isNil() {
		var okv bool
		vs, okv = a.varargs(st, args[1])
		if !okv {
			return mk(OCall, "fmt.Sprintf", tStr, args...)
		}
	}
	var parts []T
	i := 0
	lit := ""
	for p := 0; p < len(f); p++ {
		if f[p] != '%' {
			lit += string(f[p])
			continue
		}
		p++
		if p >= len(f) {
			break
		}
		if f[p] == '%' {
			lit += "%"
			continue
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		if i >= len(vs) {
			return mk(OCall, "fmt.Sprintf", tStr, append([]T{args[0]}, vs...)...)
		}
		v := vs[i]
		i++
		if v.op == OIface {
			v = v.args[0]
		}
		verb := f[p]
		switch {
		case (verb == 's' || verb == 'v') && v.typ != nil && (isString(v.typ) || isByteSlice(v.typ) && verb == 's'):
			parts = append(parts, content(v))
		case (verb == 's' || verb == 'v') && v.isConst():
			if s, ok := v.constStr(); ok {
				parts = append(parts, mkStr(s))
			} else if n, ok := v.constInt(); ok && verb == 'v' {
				parts = append(parts, mkStr(fmt.Sprint(n)))
			} else {
				parts = append(parts, mk(OCall, "fmt%"+string(verb), tStr, v))
			}
		case (verb == 'd' || verb == 'v') && v.typ != nil && isInt(v.typ):
			if n, ok := v.constInt(); ok {
				parts = append(parts, mkStr(fmt.Sprint(n)))
			} else {
				parts = append(parts, mk(OCall, "strconv.FormatInt", tStr, v, mkInt(10)))
			}
		default:
			parts = append(parts, mk(OCall, "fmt%"+string(verb), tStr, v))
		}
	}
	parts = append(parts, mkStr(lit))
	return mkConcat(parts...)
}

func (a *Analysis) sprint(st *State, at ssa.Instruction, args []T) T {
	vs, ok := a.varargs(st, args[0])
	if ok && len(vs) == 1 {
		v := vs[0]
		if v.op == OIface {
			v = v.args[0]
		}
		if v.typ != nil && isString(v.typ) {
			return v
		}
	}
	return mk(OCall, "fmt.Sprint", tStr, vs...)
}

// varargs lists the elements of a variadic argument built at the call.
func (a *Analysis) varargs(st *State, s T) ([]T, bool) {
	if s.isNil() {
		return nil, true
	}
	if s.op != OSub || s.args[0].op != OObj {
		return nil, false
	}
	base := s.args[0]
	p, ok := typUnder(base).(*types.Pointer)
	if !ok {
		return nil, false
	}
	ar, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []T
	for i := int64(0); i < ar.Len(); i++ {
		e, ok := st.heap[mkIA(base, mkInt(i), types.NewPointer(ar.Elem()))]
		if !ok {
			e = zeroOf(ar.Elem())
		}
		out = append(out, e)
	}
	return out, true
}

// ---------- calls through interfaces and function values ----------
func (a *Analysis) invokeModel(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T, res ssa.Value) bool {
	recv := args[0]
	m := c.Method.Name()
	it := c.Value.Type().String()
	if recv.op == OIface && recv.aux == "rlocker" || it == "sync.Locker" {
		op := m
		l := recv
		if recv.op == OIface {
			l = recv.args[0]
			if recv.aux == "rlocker" {
				op = "R" + m
			}
		}
		a.lockOp(st, at, l, op, "")
		return true
	}
	if strings.HasPrefix(it, "net.") || strings.HasPrefix(it, "io.") {
		a.blocking(st, at, it+"."+m)
	}
	a.onInvoke(st, at, c, args)
	sig := c.Method.Type().(*types.Signature)
	if m == "Sum32" && res != nil {
		t := a.sym(st, at, "sum", sig.Results().At(0).Type())
		a.ensure(st, t)
		a.set(st, res, t)
		return true
	}
	if sig.Params().Len() == 0 && sig.Results().Len() == 1 && (m == "Error" || m == "String" || m == "GetBytesData" || m == "ToRedisFormat" || m == "GetData") && res != nil {
		t := mk(OCall, "meth:"+m, sig.Results().At(0).Type(), recv)
		a.set(st, res, t)
		if m == "ToRedisFormat" {
			ln := a.lenTerm(st, t)
			a.ensure(st, ln)
			st.num.le(mkInt(1), ln, 0) // a type byte at least
		}
		return true
	}
	a.setRes(st, at, res, sig, "inv")
	if (m == "Write" || m == "Read") && len(args) == 2 && res != nil && isSlice(args[1].typ) {
		// between nothing and everything was written
		if t := a.val(st, res); t.op == OTuple && len(t.args) == 2 && isIntTerm(t.args[0]) {
			ln := a.lenTerm(st, args[1])
			a.ensure(st, t.args[0])
			a.ensure(st, ln)
			st.num.le(mkInt(0), t.args[0], 0)
			st.num.le(t.args[0], ln, 0)
		}
	}
	return true
}

func (a *Analysis) dynCall(st *State, at ssa.Instruction, c *ssa.CallCommon, fn T, args []T, res ssa.Value) bool {
	a.onDynCall(st, at, c, fn, args)
	a.setRes(st, at, res, c.Signature(), "dyn")
	if res != nil {
		a.afterDyn(st, res)
	}
	return true
}

// ---------- channels ----------
func (a *Analysis) recv(st *State, x *ssa.UnOp, ch T, commaOk bool) bool {
	a.blocking(st, x, "channel receive")
	a.onRecv(st, x, ch)
	if !commaOk {
		a.set(st, x, a.sym(st, x, "", x.Type()))
		return true
	}
	tu := x.Type().(*types.Tuple)
	s2 := st.clone()
	a.set(s2, x, mk(OTuple, nil, nil, zeroOf(tu.At(0).Type()), mkBool(false)))
	if a.on.recv != nil {
		s2.flags["chclosed"] = true
	}
	v := a.sym(st, x, "v", tu.At(0).Type())
	a.set(st, x, mk(OTuple, nil, nil, v, mkBool(true)))
	return a.fork(st, s2)
}

func (a *Analysis) send(st *State, x *ssa.Send, ch, v T) bool {
	a.blocking(st, x, "channel send")
	a.onSend(st, x, ch, v)
	return true
}

func (a *Analysis) selectInstr(st *State, x *ssa.Select) bool {
	if x.Blocking {
		a.blocking(st, x, "select")
	}
	tu := x.Type().(*types.Tuple)
	var out []*State
	n := len(x.States)
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s := st.clone()
		vals := []T{mkInt(int64(i)), mkBool(true)}
		for j := 2; j < tu.Len(); j++ {
			vals = append(vals, a.sym(s, x, fmt.Sprintf("r%d", j), tu.At(j).Type()))
		}
		a.set(s, x, mk(OTuple, nil, nil, vals...))
		if i >= 0 && x.States[i].Dir == types.RecvOnly {
			a.onRecv(s, x, a.val(s, x.States[i].Chan))
		}
		if i >= 0 && x.States[i].Dir == types.SendOnly {
			a.onSend(s, x, a.val(s, x.States[i].Chan), a.val(s, x.States[i].Send))
		}
		out = append(out, s)
	}
	return a.fork(out...)
}

var _ = constant.MakeBool
