package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// srvCtors: the tables of locks, segments and databases hold separate objects in every slot.
func (a *Analysis) srvCtors(P *Program) []*Root {
	r := a.pseudo("ctors")
	a.dbCount(P)
	var fns []*ssa.Function
	for fn := range allFns(P) {
		if a.inRepo(fn) && fn.Pkg != nil && len(fn.Blocks) > 0 {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		l := a.li(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					kind := slotKind(x.Val.Type())
					if kind == "" {
						continue
					}
					a.visited[fn] = true
					h := innerLoop(l, b)
					if h == nil {
						continue
					}
					a.slotFresh(x.Val, ins, kind, l, h)
					a.slotsAll(fn, ia, ins, kind)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						vs, ok := variadic(x.Call.Args[1])
						if !ok {
							continue
						}
						h := innerLoop(l, b)
						for _, v := range vs {
							if k := slotKind(v.Type()); k != "" && h != nil {
								a.visited[fn] = true
								a.slotFresh(v, ins, k, l, h)
							}
						}
					}
				}
			}
		}
		a.dbParts(fn)
		a.slotCopies(fn)
	}
	return []*Root{r}
}

func innerLoop(l *loopInfo, b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for h, body := range l.body {
		if body[b] && (best == nil || len(body) < len(l.body[best])) {
			best = h
		}
	}
	return best
}

// slotKind: pointers to locks, segments and databases.
func slotKind(t types.Type) string {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return ""
	}
	switch n := namedOf(t); n {
	case "sync.RWMutex", "sync.Mutex":
		return "lock"
	case modPath + "/memdb.MemDb":
		return "database"
	case modPath + "/memdb.segment":
		return "segment"
	default:
		if strings.HasPrefix(n, modPath+"/memdb.") {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if s, ok := p.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok && s.NumFields() > 1 {
							return "segment"
						}
					}
				}
			}
		}
	}
	return ""
}

// madeIn: the object v points to is made in each round of the loop.
func (a *Analysis) madeIn(v ssa.Value, body map[*ssa.BasicBlock]bool, depth int) tri {
	if depth > 6 {
		return dunno
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return no // parameters, globals, constants are the same in each round
	}
	in := body[ins.Block()]
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap:
		if in {
			return yes
		}
		return no
	case *ssa.Call:
		if !in {
			return no
		}
		f := x.Call.StaticCallee()
		if f == nil || !a.inRepo(f) {
			return dunno
		}
		// the callee returns something it made
		res := dunno
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 {
				switch y := rt.Results[0].(type) {
				case *ssa.Alloc, *ssa.Call, *ssa.MakeMap:
					res = yes
				case *ssa.UnOp:
					if _, ok := y.X.(*ssa.Global); ok {
						return no
					}
					return dunno
				case *ssa.Parameter:
					for i, p := range f.Params {
						if p == y {
							return a.madeIn(x.Call.Args[i], body, depth+1)
						}
					}
				default:
					return dunno
				}
			}
		}
		return res
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return a.madeIn(s, body, depth+1)
				}
			}
			if _, ok := x.X.(*ssa.Global); ok {
				return no
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return a.madeIn(fa.X, body, depth+1)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, c := constI(ia.Index); c && !in {
					return no
				}
			}
		}
		if !in {
			return no
		}
		return dunno
	case *ssa.FieldAddr:
		return a.madeIn(x.X, body, depth+1)
	}
	if !in {
		return no
	}
	return dunno
}

func (a *Analysis) slotFresh(v ssa.Value, at ssa.Instruction, kind string, l *loopInfo, h *ssa.BasicBlock) {
	body := l.body[h]
	res := a.madeIn(v, body, 0)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		from, ok1 := ld.X.(*ssa.IndexAddr)
		sto, ok2 := at.(*ssa.Store)
		if ok1 && ok2 {
			if to, ok := sto.Addr.(*ssa.IndexAddr); ok && to.X == from.X && to.Index != from.Index {
				res = no // what another slot holds
			}
		}
	}
	p := map[string]string{"lock": "C04", "segment": "C14", "database": "C13"}[kind]
	if res != dunno {
		a.rep.obl(p, nil, at, "separate-"+kind, res == yes, "all slots of the table share one "+kind)
		if kind == "lock" {
			a.rep.obl("C03", nil, at, "separate-lock", res == yes, "all slots of the table share one lock")
		}
	}
	// the parts of an object made here
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) {
				continue
			}
			switch st.Val.Type().Underlying().(type) {
			case *types.Map:
				if x := a.madeIn(st.Val, body, 0); x != dunno {
					a.rep.obl(p, nil, st, "separate-parts", x == yes, "the "+kind+"s of the table share their "+fieldOf(fa))
				}
			}
		}
	}
}

func fieldOf(fa *ssa.FieldAddr) string {
	if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			return s.Field(fa.Field).Name()
		}
	}
	return "?"
}

// slotsAll: the loop fills the whole table.
func (a *Analysis) slotsAll(fn *ssa.Function, ia *ssa.IndexAddr, at ssa.Instruction, kind string) {
	mk := madeSlice(fn, ia.X)
	u := a.covers(ia.Index, func(v ssa.Value) (int64, bool) {
		if mk != nil && sameVal(v, mk.Len) {
			return 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok && mk != nil && b.Op == token.SUB && sameVal(b.X, mk.Len) {
			if c, ok := constI(b.Y); ok {
				return -c, true
			}
		}
		s, k, ok := lenOf(v, nil)
		if ok && (s == ia.X || mk != nil && madeSlice(fn, s) == mk) {
			return k, true
		}
		return 0, false
	})
	if u.head == nil || u.full == dunno {
		return
	}
	full := u.full == yes
	if full && !a.always(at.Block(), u.head) {
		return
	}
	a.rep.obl("C10", nil, at, "table-filled", full, "some slots of the table of "+kind+"s are never filled")
}

func sameVal(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	fx, okx := fieldLoad(x)
	fy, oky := fieldLoad(y)
	return okx && oky && fx == fy
}

// fieldLoad: a load of a field of a package variable's object, as text.
func fieldLoad(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s, ok := fieldLoad(x.X)
			return "*" + s, ok
		}
	case *ssa.FieldAddr:
		s, ok := fieldLoad(x.X)
		return s + "." + fieldOf(x), ok
	case *ssa.Global:
		return x.String(), true
	case *ssa.Parameter:
		return x.Name(), true
	case *ssa.Alloc:
		return x.Name(), true
	}
	return "", false
}

// madeSlice: the make that produced a slice, directly or through a field of a local object.
func madeSlice(fn *ssa.Function, v ssa.Value) *ssa.MakeSlice {
	if m, ok := v.(*ssa.MakeSlice); ok {
		return m
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if m, ok := onlyStore(al).(*ssa.MakeSlice); ok {
				return m
			}
		}
		return nil
	}
	var out *ssa.MakeSlice
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if f2, ok := s.Addr.(*ssa.FieldAddr); ok && f2.X == fa.X && f2.Field == fa.Field {
					n++
					out, _ = s.Val.(*ssa.MakeSlice)
				}
			}
		}
	}
	if n == 1 {
		return out
	}
	return nil
}

// slotCopies: a slot of the table of databases is not filled with the database of another slot.
func (a *Analysis) slotCopies(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || !isMemDbPtr(s.Val.Type()) {
				continue
			}
			to, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ld, ok := s.Val.(*ssa.UnOp)
			if !ok {
				continue
			}
			from, ok := ld.X.(*ssa.IndexAddr)
			if !ok || from.X != to.X && !sameVal(from.X, to.X) {
				continue
			}
			a.rep.obl("C13", nil, s, "separate-database", sameVal(from.Index, to.Index), "two indexes name the same database")
		}
	}
}

// dbParts: the value table and the deadline table of a database are two objects.
func (a *Analysis) dbParts(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			al, ok := ins.(*ssa.Alloc)
			if !ok || namedOf(al.Type()) != modPath+"/memdb.MemDb" {
				continue
			}
			seen := map[ssa.Value]bool{}
			for _, r := range *al.Referrers() {
				fa, ok := r.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(fa) && namedOf(s.Val.Type()) != "" {
						a.rep.obl("C21", nil, s, "separate-tables", !seen[s.Val], "the value table and the deadline table are the same object")
						seen[s.Val] = true
						// not shared between databases
						if u, ok := s.Val.(*ssa.UnOp); ok {
							if _, ok := u.X.(*ssa.Global); ok {
								a.rep.obl("C13", nil, s, "separate-database", false, "all databases share one "+fieldOf(fa))
							}
						}
					}
				}
			}
		}
	}
}

// dbCount: the table of databases has as many as configured.
func (a *Analysis) dbCount(P *Program) {
	for fn := range allFns(P) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/server" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if sl, ok := ins.(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
						if t, ok := sl.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(namedOf(t.Elem()), "memdb.MemDb") {
							if n, isC := constI(sl.High); isC && n > 0 {
								a.rep.obl("C25", nil, ins, "databases", false, "the number of databases is not the configured one")
							}
						}
					}
				}
				m, ok := ins.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				sl, ok := m.Type().Underlying().(*types.Slice)
				if !ok || !strings.HasSuffix(namedOf(sl.Elem()), "memdb.MemDb") {
					continue
				}
				n := m.Len
				if c, isC := constI(n); isC && c == 0 {
					continue // filled by append
				}
				_, isC := constI(n)
				op, isB := n.(*ssa.BinOp)
				isB = isB && (isDbNum(op.X) || isDbNum(op.Y))
				a.rep.obl("C25", nil, ins, "databases", !isC && !isB, "the number of databases is not the configured one")
			}
		}
	}
}

func isDbNum(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldOf(fa) == "DbNum"
}
