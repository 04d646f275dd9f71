package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// runFn analyses a function with unconstrained arguments.
func (a *Analysis) runFn(fn *ssa.Function, kind, name string, pre func(st *State, args []T)) *Root {
	a.coarse = true
	defer func() { a.coarse = false }()
	return a.runRoot(fn, kind, name, pre)
}

func (a *Analysis) runRoot(fn *ssa.Function, kind, name string, pre func(st *State, args []T)) *Root {
	r := &Root{name: name, fn: fn, kind: kind}
	st := newState()
	var args, fv []T
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, mk(ORoot, n, p.Type()))
	}
	for i, p := range fn.FreeVars {
		fv = append(fv, mk(ORoot, fmt.Sprintf("free%d", i), p.Type()))
	}
	if pre != nil {
		pre(st, args)
	}
	a.runBound(r, st, args, fv)
	return r
}

func (a *Analysis) runSrv(P *Program, name, variant string) []*Root {
	switch name {
	case "handle":
		return a.srvHandle(P)
	case "fmt":
		return a.srvFmt(P)
	case "parse":
		return a.srvParse(P)
	case "table":
		return a.srvTable(P)
	case "locks":
		return a.srvLocks(P)
	case "ctors":
		return a.srvCtors(P)
	case "init":
		return a.srvInit(P)
	case "glob":
		return a.srvGlob(P)
	case "start":
		return a.srvStart(P)
	case "config":
		return a.srvConf(P)
	case "logger":
		return a.srvLog(P)
	case "atomic":
		return a.srvAtomic(P)
	}
	return nil
}

func allFns(P *Program) map[*ssa.Function]bool { return ssautil.AllFunctions(P.prog) }

// goTargets: the functions started as goroutines by code of a package.
func (P *Program) goTargets(pkg string) []*ssa.Function {
	var out []*ssa.Function
	p := P.pkg(pkg)
	if p == nil {
		return nil
	}
	for fn := range ssautil.AllFunctions(P.prog) {
		if fn.Pkg != p {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					if f := g.Call.StaticCallee(); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// reaches: some instruction satisfying want is in fn or in what it calls.
func (a *Analysis) reaches(fn *ssa.Function, want func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !a.inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if want(ins) {
					return true
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

func isConnInvoke(ins ssa.Instruction, names ...string) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return false
	}
	it := ci.Common().Value.Type().String()
	if it != "net.Conn" && it != "io.Writer" && it != "io.ReadWriter" && it != "io.ReadWriteCloser" && it != "io.WriteCloser" {
		return false
	}
	for _, n := range names {
		if ci.Common().Method.Name() == n {
			return true
		}
	}
	return false
}

func (a *Analysis) srvHandle(P *Program) []*Root {
	var fn *ssa.Function
	for _, f := range P.goTargets("server") {
		if a.reaches(f, isExecCall) {
			fn = f
		}
	}
	if fn == nil {
		fn = P.fn("server", "Manager.Handle")
	}
	if fn == nil {
		return nil
	}
	h := &handleRules{a: a, P: P, localDb: localDbFlow(P, a)}
	a.on.dyn, a.on.invoke, a.on.ext, a.on.fact, a.on.field = h.dyn, h.invoke, h.ext, h.fact, h.field
	a.on.recv, a.on.goStmt, a.on.finish, a.on.global, a.on.mapWrite = h.recv, h.goStmt, h.finish, a.globalWrite, h.mapWrite
	a.on.num = h.num
	r := a.runFn(fn, "aux", "handle", nil)
	return []*Root{r}
}

// isExecCall: a call of a command's executor through the command table.
func isExecCall(ins ssa.Instruction) bool {
	c, ok := ins.(*ssa.Call)
	return ok && !c.Call.IsInvoke() && c.Call.StaticCallee() == nil && isExecutor(c.Call.Value.Type())
}
