package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pseudo gives rules that look at the whole program a root to report under.
func (a *Analysis) pseudo(name string) *Root {
	r := &Root{name: name, kind: "aux"}
	a.root = r
	return r
}

// reachable: functions that can run, from the given ones, through calls, closures and function values.
func (a *Analysis) reachable(from ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		if f.Pkg != nil && !a.repoPk[f.Pkg] {
			return
		}
		seen[f] = true
		a.visited[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range a.impls(c.Common()) {
						walk(g)
					}
				}
			}
		}
	}
	for _, f := range from {
		walk(f)
	}
	return seen
}

// impls: the methods of this repository an interface call can reach.
func (a *Analysis) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range a.pkgs {
		for _, m := range p.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, it) {
					continue
				}
				if sel := a.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := a.prog.MethodValue(sel); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// srvTable: the commands a client can name.
func (a *Analysis) srvTable(P *Program) []*Root {
	r := a.pseudo("table")
	mainPk := (*ssa.Package)(nil)
	for _, p := range P.spkgs {
		if p.Pkg.Name() == "main" {
			mainPk = p
		}
	}
	var from []*ssa.Function
	if mainPk != nil {
		from = append(from, mainPk.Func("main"), mainPk.Func("init"))
	}
	for _, p := range P.spkgs {
		from = append(from, p.Func("init"))
	}
	live := a.reachable(from...)
	for _, n := range sortedKeys(specs) {
		fn, at := P.cmds[n], P.cmdAt[n]
		if fn == nil {
			alt := ""
			for m := range P.cmds {
				if strings.EqualFold(m, n) {
					alt = m
				}
			}
			switch {
			case alt != "" && P.upperTable():
			case alt != "":
				a.rep.oblAt("C15", nil, P.cmdAt[alt], P.cmds[alt].String(), "registered", false, "command "+n+" is registered as "+alt+", which no request is looked up by")
			case P.litAt[n] == "":
				a.rep.oblAt("C15", nil, "memdb", "RegisterCommand", "registered", false, "command "+n+" is in no command table")
			}
			continue
		}
		a.rep.oblAt("C15", nil, at, fn.String(), "registered", true, "")
		if reg := P.cmdFn[n]; reg != nil {
			a.rep.oblAt("C15", nil, at, reg.String(), "registration-runs", live[reg], "the registration of "+n+" is never run: "+reg.Name()+" is not called when the server starts")
		}
	}
	for _, n := range sortedKeys(specs) {
		fn := P.cmds[n]
		if fn == nil {
			continue
		}
		for _, m := range sortedKeys(specs) {
			if m >= n || P.cmds[m] != fn {
				continue
			}
			a.rep.oblAt("C15", nil, P.cmdAt[n], fn.String(), "own-function", a.looksAtName(fn), "commands "+m+" and "+n+" run the same function, which does not look at the command name")
		}
		if reg := P.cmdFn[n]; reg != nil && live[reg] && mainPk != nil {
			a.rep.oblAt("C15", nil, P.cmdAt[n], reg.String(), "registration-always", alwaysRun(live, reg), "the registration of "+n+" is skipped on some path of main: "+reg.Name()+" is called conditionally")
			if f, b := regBlock(reg, n); f != nil {
				a.rep.oblAt("C15", nil, P.cmdAt[n], reg.String(), "registration-always", !skippable(f, b), "the registration of "+n+" is skipped on some path of "+f.Name())
			}
		}
	}
	for _, n := range P.dup {
		if specs[n] != nil {
			a.rep.oblAt("C15", nil, P.cmdAt[n], "", "registered-once", false, "command "+n+" is registered for two different functions")
		}
	}
	return []*Root{r}
}

// looksAtName: the function reads the first word of the command.
func (a *Analysis) looksAtName(fn *ssa.Function) bool {
	for f := range a.reachable(fn) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.IndexAddr:
					// the first word, or a word that may be the first
					if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
						if _, ok := s.Elem().Underlying().(*types.Slice); ok {
							if i, c := constI(x.Index); c && i == 0 {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// alwaysRun: main, or an initialiser, calls the function on every path to its end.
func alwaysRun(live map[*ssa.Function]bool, reg *ssa.Function) bool {
	calls, always := false, false
	for f := range live {
		if len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g != reg {
					continue
				}
				calls = true
				if f.Name() == "init" && f.Synthetic != "" || !skippable(f, b) {
					always = true
				}
			}
		}
	}
	return !calls || always
}

// regBlock: where the function makes the call that names the command.
func regBlock(reg *ssa.Function, name string) (*ssa.Function, *ssa.BasicBlock) {
	for _, b := range reg.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			for _, x := range c.Call.Args {
				if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == name {
					return reg, b
				}
			}
		}
	}
	return nil, nil
}

// skippable: a path from the entry to a normal return does not pass the block, other than one that ends the function early with an error.
func skippable(f *ssa.Function, b *ssa.BasicBlock) bool {
	if b == f.Blocks[0] || reachesBlock(b, b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if reachesBlock(b, x) {
			return true // joins again behind the call
		}
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0])
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// upperTable: requests are looked up in upper case.
func (P *Program) upperTable() bool {
	for fn := range allFns(P) {
		if fn.Pkg == nil || fn.Pkg.Pkg.Name() != "server" && fn.Pkg.Pkg.Name() != "memdb" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && (f.String() == "strings.ToUpper" || f.String() == "bytes.ToUpper") && fn.Pkg.Pkg.Name() == "server" {
						return true
					}
				}
			}
		}
	}
	return false
}

// srvAtomic: fields used with sync/atomic are used so everywhere.
func (a *Analysis) srvAtomic(P *Program) []*Root {
	r := a.pseudo("atomic")
	type fld struct {
		s *types.Struct
		i int
	}
	atom := map[fld]string{}
	key := func(v ssa.Value) (fld, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return fld{}, false
		}
		p, ok := fa.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return fld{}, false
		}
		s, ok := p.Elem().Underlying().(*types.Struct)
		return fld{s, fa.Field}, ok
	}
	fns := allFns(P)
	for fn := range fns {
		if !a.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || !strings.HasPrefix(f.String(), "sync/atomic.") || len(c.Common().Args) == 0 {
					continue
				}
				if k, ok := key(c.Common().Args[0]); ok {
					atom[k] = a.rep.pos(ins.Pos())
				}
			}
		}
	}
	fresh := func(fn *ssa.Function, v ssa.Value) bool {
		fa := v.(*ssa.FieldAddr)
		_, ok := fa.X.(*ssa.Alloc)
		return ok
	}
	live := a.reachable(a.servingRoots(P)...)
	for fn := range fns {
		if !a.inRepo(fn) || !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ad ssa.Value
				what := "read"
				switch x := ins.(type) {
				case *ssa.UnOp:
					ad = x.X
				case *ssa.Store:
					ad, what = x.Addr, "written"
				}
				if ad == nil {
					continue
				}
				if k, ok := key(ad); ok && atom[k] != "" && !fresh(fn, ad) {
					a.rep.obl("C14", nil, ins, "atomic-everywhere", false, "field "+k.s.Field(k.i).Name()+" is "+what+" plainly here and atomically at "+atom[k])
				}
			}
		}
	}
	for fn := range fns {
		if a.inRepo(fn) && live[fn] {
			a.globalBuffer(fn)
		}
	}
	for k, at := range atom {
		a.rep.oblAt("C14", nil, at, "", "atomic-everywhere", true, k.s.Field(k.i).Name())
	}
	return []*Root{r}
}

// servingRoots: what runs while clients are served.
func (a *Analysis) servingRoots(P *Program) []*ssa.Function {
	var l []*ssa.Function
	for _, n := range sortedKeys(P.cmds) {
		l = append(l, P.cmds[n])
	}
	return append(l, append(P.goTargets("server"), P.goTargets("resp")...)...)
}

// globalBuffer: the bytes behind a package variable are not used as a scratch buffer by code that serves connections.
func (a *Analysis) globalBuffer(fn *ssa.Function) {
	locks := false
	type use struct {
		ins ssa.Instruction
		g   *ssa.Global
	}
	var uses []use
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok || len(c.Common().Args) == 0 {
				continue
			}
			name := ""
			if f := c.Common().StaticCallee(); f != nil {
				name = f.String()
			} else if f, ok := c.Common().Value.(*ssa.Builtin); ok {
				name = f.Name()
			}
			locks = locks || strings.HasPrefix(name, "(*sync.") && strings.HasSuffix(name, "Lock")
			if name != "append" && name != "copy" && !strings.HasPrefix(name, "strconv.Append") && !strings.HasPrefix(name, "fmt.Append") {
				continue
			}
			v := c.Common().Args[0]
			sl, sliced := v.(*ssa.Slice)
			if sliced {
				if sl.Max != nil {
					continue
				}
				v = sl.X
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v = u.X
			}
			g, ok := v.(*ssa.Global)
			if !ok || !sliced && name != "copy" {
				continue
			}
			uses = append(uses, use{ins, g})
		}
	}
	for _, u := range uses {
		a.rep.obl("C14", nil, u.ins, "global", locks, "the bytes of a package variable are overwritten without a lock: "+u.g.Name())
	}
}
