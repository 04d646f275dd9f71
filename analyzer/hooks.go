package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// blocking: C04, nothing may wait for a peer while a database lock is held.
func (a *Analysis) blocking(st *State, at ssa.Instruction, what string) {
	ok := true
	for _, h := range st.held {
		if h.cls == "key" || h.cls == "seg" {
			ok = false
		}
	}
	a.rep.obl("C04", st, at, "blocking-under-lock", ok, what+" while a database lock is held")
}

func (a *Analysis) onGo(st *State, at *ssa.Go, fn T, args []T) {
	if a.on.goStmt != nil {
		a.on.goStmt(st, at, fn, args)
	}
}

func (a *Analysis) onLog(st *State, at ssa.Instruction, fn *ssa.Function, args []T) {
	if a.on.log != nil {
		a.on.log(st, at, fn, args)
	}
}

func (a *Analysis) onRecursion(st *State, at ssa.Instruction, fn *ssa.Function) {}

func (a *Analysis) factHook(st *State, c T, truth bool) bool {
	if isParseErrFact(c) && !truth {
		st.flags["badarg"] = true
	}
	a.wordFact(st, c, truth)
	if a.on.fact != nil {
		a.on.fact(st, c, truth)
	}
	return true
}

// onAppend: KEYS lists no key whose deadline was not examined or has passed.
func (a *Analysis) onAppend(st *State, at ssa.Instruction, add T) {
	if a.race || a.root.kind != "cmd" || a.root.name != "keys" && a.root.name != "lrange" && a.root.name != "lpos" {
		return
	}
	inf := a.sliceInfo(st, add)
	if inf == nil {
		return
	}
	if a.root.name == "lpos" {
		c := &Ck{a: a, name: a.root.name, sp: specs[a.root.name], st: st, cmd: a.cmdRoot()}
		for _, it := range inf.items {
			if r := a.reply(st, it); r.kind == "int" && r.val != nil {
				c.posIs(r.val, at)
			}
		}
		return
	}
	if a.root.name == "lrange" {
		for _, it := range inf.items {
			a.ranged(st, at, it)
		}
		return
	}
	for _, it := range inf.items {
		r := a.reply(st, it)
		if r.kind != "bulk" || r.val == nil {
			continue
		}
		k := content(r.val)
		if k == nil || k.hasStar {
			continue
		}
		v := a.view(st, k)
		a.rep.obl("C05", st, at, "listed", v.ttl == "N" || v.ttl == "L" || a.examined(st, k) && v.ttl != "X", "KEYS lists a key without finding out whether its deadline has passed")
	}
}

func (a *Analysis) onClose(st *State, at ssa.Instruction, ch T) {
	if a.on.closeCh != nil {
		a.on.closeCh(st, at, ch)
	}
}
func (a *Analysis) onSend(st *State, at ssa.Instruction, ch, v T) {
	if a.on.send != nil {
		a.on.send(st, at, ch, v)
	}
}
func (a *Analysis) onRecv(st *State, at ssa.Instruction, ch T) {
	if a.on.recv != nil {
		a.on.recv(st, at, ch)
	}
}
func (a *Analysis) onExit(st *State, at ssa.Instruction, name string) {
	a.rep.obl("C10", st, at, "exit", false, name+" is reachable while serving clients")
}
func (a *Analysis) onAtomic(st *State, at ssa.Instruction, addr T) {}

func (a *Analysis) onInvoke(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T) {
	if a.on.invoke != nil {
		a.on.invoke(st, at, c, args)
	}
}
func (a *Analysis) onDynCall(st *State, at ssa.Instruction, c *ssa.CallCommon, fn T, args []T) {
	if a.on.dyn != nil {
		a.on.dyn(st, at, c, fn, args)
	}
}
func (a *Analysis) afterDyn(st *State, res ssa.Value) {}

func (a *Analysis) external(st *State, at ssa.Instruction, name string, args []T) {
	if a.on.ext != nil {
		a.on.ext(st, at, name, args)
	}
}

func (a *Analysis) onGlobal(st *State, at ssa.Instruction, addr T, write bool) {
	if a.on.global != nil {
		a.on.global(st, at, addr, write)
	}
}

func (a *Analysis) onField(st *State, at ssa.Instruction, addr T, write bool) {
	if a.on.field != nil {
		a.on.field(st, at, addr, write)
	}
}

func (a *Analysis) onRead(st *State, at ssa.Instruction, name string, args []T) {
	if a.on.read != nil {
		a.on.read(st, at, name, args)
	}
}

// onNum: a comparison of integers was added to the state.
func (a *Analysis) onNum(st *State, c T) {
	if a.on.num != nil && !st.num.bot {
		a.on.num(st, c)
	}
}

type Callbacks struct {
	read     func(st *State, at ssa.Instruction, name string, args []T)
	num      func(st *State, c T)
	goStmt   func(st *State, at *ssa.Go, fn T, args []T)
	log      func(st *State, at ssa.Instruction, fn *ssa.Function, args []T)
	closeCh  func(st *State, at ssa.Instruction, ch T)
	send     func(st *State, at ssa.Instruction, ch, v T)
	recv     func(st *State, at ssa.Instruction, ch T)
	invoke   func(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T)
	dyn      func(st *State, at ssa.Instruction, c *ssa.CallCommon, fn T, args []T)
	ext      func(st *State, at ssa.Instruction, name string, args []T)
	global   func(st *State, at ssa.Instruction, addr T, write bool)
	field    func(st *State, at ssa.Instruction, addr T, write bool)
	fact     func(st *State, c T, truth bool)
	mapWrite func(st *State, at ssa.Instruction, m T)
	finish   func(o *Outcome, at *ssa.Return)
}

func (a *Analysis) finish(st *State, at *ssa.Return, rs []T) {
	o := Outcome{st: st, ret: rs}
	a.root.outs = append(a.root.outs, o)
	if a.on.finish != nil {
		a.on.finish(&o, at)
	}
	if a.root.kind == "cmd" {
		a.links(st, at)
		a.checkCmd(&o, at)
	}
}

// ---------- invariants of stored structures ----------

func (a *Analysis) fieldInvariant(st *State, at T) {
	ad := at.args[0]
	switch ad.op {
	case OFA:
		n := ""
		if ad.args[0].typ != nil {
			n = namedOf(ad.args[0].typ)
		}
		switch n {
		case modPath + "/memdb.ConcurrentMap":
			if fieldName(ad) == "size" {
				st.num.le(mkInt(1), at, 0)
				st.num.le(at, mkInt(1<<32), 0)
				if tf := siblingSlice(ad); tf != nil {
					ln := mk(OLen, nil, tInt, mk(OLd, nil, addrElemType(tf), tf))
					st.num.atom(ln)
					st.num.le(ln, at, 0)
					st.num.le(at, ln, 0)
				}
			}
		case modPath + "/memdb.List":
			if isInt(addrElemType(ad)) {
				lo := int64(0)
				if r := a.rootOf(st, ad); r != nil && r.op == OSV {
					lo = 1
				}
				st.num.le(mkInt(lo), at, 0)
				st.num.le(at, mkInt(maxLen), 0)
			}
		case modPath + "/config.Config":
			switch fieldName(ad) {
			case "SegNum", "DbNum":
				if a.validConf {
					st.num.le(mkInt(1), at, 0)
					st.num.le(at, mkInt(1<<31), 0)
				}
			}
		}
	case OMLen:
		lo := int64(0)
		if r := a.rootOf(st, ad.args[0]); r != nil && r.op == OSV {
			lo = 1
		}
		st.num.le(mkInt(lo), at, 0)
		st.num.le(at, mkInt(maxLen), 0)
	}
}

// siblingSlice: the slice field next to an integer field of the same struct.
func siblingSlice(fa T) T {
	u := fa.args[0].typ.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	s, ok := u.(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isSlice(s.Field(i).Type()) {
			return mk(OFA, i, types.NewPointer(s.Field(i).Type()), fa.args[0])
		}
	}
	return nil
}

func (a *Analysis) lenInvariant(st *State, at T) {
	x := at.args[0]
	if x.op == OLd && x.args[0].op == OGlobal {
		if n, ok := a.globLen[x.args[0].aux.(*ssa.Global)]; ok {
			st.num.le(mkInt(n), at, 0)
			st.num.le(at, mkInt(n), 0)
		}
		return
	}
	if x.op != OLd || x.args[0].op != OFA || x.args[0].args[0].typ == nil {
		return
	}
	fa := x.args[0]
	switch namedOf(fa.args[0].typ) {
	case modPath + "/memdb.ConcurrentMap":
		st.num.le(mkInt(1), at, 0)
		// its size field, if any
		p := fa.args[0].typ.Underlying().(*types.Pointer)
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "size" && isInt(s.Field(i).Type()) {
					sz := mk(OLd, nil, s.Field(i).Type(), mk(OFA, i, types.NewPointer(s.Field(i).Type()), fa.args[0]))
					if _, ok := st.num.idx[sz]; !ok {
						st.num.atom(sz)
						st.num.le(sz, at, 0)
						st.num.le(at, sz, 0)
					}
				}
			}
		}
	case modPath + "/memdb.LocksManager", modPath + "/server.Manager":
		st.num.le(mkInt(1), at, 0)
	}
}

// ---------- function classes ----------

func scalar(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// isPure: functions of scalars kept as uninterpreted terms because they loop,
// recurse or use opaque library objects, and touch nothing else.
func (a *Analysis) isPure(fn *ssa.Function) bool {
	if v, ok := a.pure[fn]; ok {
		return v == 1
	}
	a.pure[fn] = 2
	if len(fn.FreeVars) > 0 || len(fn.Blocks) == 0 {
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || !scalar(sig.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !scalar(sig.Params().At(i).Type()) {
			return false
		}
	}
	complexFn := len(a.li(fn).heads) > 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Global); ok {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.Panic:
				return false
			case *ssa.Call:
				if x.Call.IsInvoke() {
					if n, ok := x.Call.Value.Type().(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), "hash") {
						return false
					}
					complexFn = true
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil {
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						continue
					}
					return false
				}
				if a.inRepo(f) {
					if f == fn {
						complexFn = true
						continue
					}
					if !a.isPure(f) && !a.simplePure(f) {
						return false
					}
				} else {
					p := ""
					if f.Pkg != nil {
						p = f.Pkg.Pkg.Path()
					} else {
						p = pkgOf(f.String())
					}
					if !pureExternal(p, f.String()) && !strings.HasPrefix(p, "hash") && p != "fmt" {
						return false
					}
				}
			}
		}
	}
	if complexFn {
		a.pure[fn] = 1
		return true
	}
	return false
}

func (a *Analysis) simplePure(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Store, *ssa.Call, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic:
				return false
			}
		}
	}
	return len(fn.FreeVars) == 0
}

type multiLock struct {
	param int
	op    string
}

// multiLockOf recognises functions that apply one lock operation to every key of a list.
func (a *Analysis) multiLockOf(fn *ssa.Function) *multiLock {
	if m, ok := a.multi[fn]; ok {
		return m
	}
	a.multi[fn] = nil
	if fn.Signature.Results().Len() != 0 || len(fn.FreeVars) > 0 {
		return nil
	}
	param := -1
	for i, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
			if param >= 0 {
				return nil
			}
			param = i
		}
	}
	if param < 0 {
		return nil
	}
	ops := map[string]bool{}
	loop := false
	bad := false
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if len(a.li(f).heads) > 0 {
			loop = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var c *ssa.CallCommon
				switch x := ins.(type) {
				case *ssa.Call:
					c = &x.Call
				case *ssa.Defer:
					c = &x.Call
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				}
				if c == nil {
					continue
				}
				if c.IsInvoke() {
					if c.Value.Type().String() == "sync.Locker" {
						ops[c.Method.Name()] = true
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					if _, ok := c.Value.(*ssa.Builtin); !ok {
						// a callback applied to each lock
						continue
					}
					continue
				}
				for _, x := range c.Args {
					if gf, ok := x.(*ssa.Function); ok && strings.Contains(gf.String(), "sync.") {
						ops[strings.TrimSuffix(gf.Name(), "$thunk")] = true
					}
				}
				if a.inRepo(g) {
					if f, _ := namedRecv(g); f == modPath+"/memdb.ConcurrentMap" {
						bad = true
					}
					walk(g)
					continue
				}
				n := g.String()
				if strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "(*sync.Mutex).") {
					ops[n[strings.LastIndex(n, ".")+1:]] = true
				}
			}
		}
	}
	walk(fn)
	if bad || !loop || len(ops) != 1 {
		return nil
	}
	var op string
	for o := range ops {
		op = o
	}
	m := &multiLock{param: param, op: op}
	a.multi[fn] = m
	return m
}

func namedRecv(fn *ssa.Function) (string, bool) {
	if r := fn.Signature.Recv(); r != nil {
		return namedOf(r.Type()), true
	}
	return "", false
}
