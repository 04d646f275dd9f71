package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// srvInit: the constructors establish what the commands rely on.
func (a *Analysis) srvInit(P *Program) []*Root {
	var roots []*Root
	a.on.finish = func(o *Outcome, at *ssa.Return) {
		if len(o.ret) == 0 {
			return
		}
		a.checkMade(o.st, at, o.ret[0], 0)
	}
	for _, fn := range a.makers(P) {
		roots = append(roots, a.runFn(fn, "aux", "init", nil))
	}
	a.on.finish = nil
	return roots
}

// makers: functions that return a new database, table or manager.
func (a *Analysis) makers(P *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range []string{"memdb", "server"} {
		p := P.pkg(pk)
		if p == nil {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			fn, ok := p.Members[n].(*ssa.Function)
			if !ok || fn.Signature.Results().Len() != 1 || len(fn.Blocks) == 0 {
				continue
			}
			ints := false
			for _, q := range fn.Params {
				ints = ints || isInt(q.Type())
			}
			if ints {
				continue // looked at where it is called
			}
			switch namedOf(fn.Signature.Results().At(0).Type()) {
			case modPath + "/memdb.ConcurrentMap", modPath + "/memdb.MemDb", modPath + "/memdb.LocksManager", modPath + "/server.Manager":
				out = append(out, fn)
			}
		}
	}
	return out
}

// checkMade: the size kept next to a table is its length; no table is empty.
func (a *Analysis) checkMade(st *State, at *ssa.Return, p T, depth int) {
	if p == nil || depth > 3 || p.typ == nil {
		return
	}
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	n := namedOf(p.typ)
	fa := func(i int) T { return mk(OFA, i, types.NewPointer(s.Field(i).Type()), p) }
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		switch namedOf(ft) {
		case modPath + "/memdb.ConcurrentMap", modPath + "/memdb.LocksManager":
			v := a.loadRaw(st, fa(i), ft)
			if v != nil && v.isNil() {
				a.rep.obl("C10", st, at, "made", false, "field "+s.Field(i).Name()+" is left nil")
				continue
			}
			a.checkMade(st, at, v, depth+1)
		}
	}
	if n == modPath+"/memdb.ConcurrentMap" {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != "size" {
				continue
			}
			for j := 0; j < s.NumFields(); j++ {
				if isSlice(s.Field(j).Type()) {
					sz, tb := a.loadRaw(st, fa(i), s.Field(i).Type()), a.loadRaw(st, fa(j), s.Field(j).Type())
					ln := a.lenTerm(st, tb)
					a.ensure(st, sz)
					a.ensure(st, ln)
					a.rep.obl("C10", st, at, "table-size", st.num.provesLE(sz, ln, 0), "the size kept for the table exceeds its length: keys are looked up outside of it")
					a.rep.obl("C10", st, at, "table-size", st.num.provesLE(mkInt(1), sz, 0), "the table may be empty")
				}
			}
		}
	}
}

// srvGlob: the pure helpers that commands call with client bytes cannot crash.
func (a *Analysis) srvGlob(P *Program) []*Root {
	var roots []*Root
	p := P.pkg("util")
	if p == nil {
		return nil
	}
	for _, n := range sortedKeys(p.Members) {
		if fn, ok := p.Members[n].(*ssa.Function); ok && len(fn.Blocks) > 0 && fn.Name() != "init" {
			if !token.IsExported(fn.Name()) && calledByOthers(p, fn) {
				continue // a helper: judged where it is called, with the arguments it gets there
			}
			roots = append(roots, a.runFn(fn, "aux", "util", nil))
		}
	}
	return roots
}

// calledByOthers: another function of the package calls fn.
func calledByOthers(p *ssa.Package, fn *ssa.Function) bool {
	for _, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f == fn {
			continue
		}
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						return true
					}
				}
			}
		}
	}
	return false
}
