package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo  string
	pkgs  []*packages.Package
	prog  *ssa.Program
	spkgs []*ssa.Package
	cmds  map[string]*ssa.Function
	cmdAt map[string]string
	dup   []string
	cmdFn map[string]*ssa.Function // where a command is registered
	litAt map[string]string        // string constants of the code
}

func load(repo string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, pkgs: ps, prog: prog, cmds: map[string]*ssa.Function{}, cmdAt: map[string]string{}, cmdFn: map[string]*ssa.Function{}, litAt: map[string]string{}}
	for _, p := range spkgs {
		if p != nil {
			P.spkgs = append(P.spkgs, p)
		}
	}
	for _, p := range ps {
		if p.Module != nil {
			modPath = p.Module.Path
		}
	}
	P.findCommands()
	return P, nil
}

func (P *Program) pkg(name string) *ssa.Package {
	for _, p := range P.spkgs {
		if p.Pkg.Path() == modPath+"/"+name {
			return p
		}
	}
	return nil
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	p := P.pkg(pkg)
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i > 0 {
		tn, ok := p.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
			ms := P.prog.MethodSets.MethodSet(t)
			if sel := ms.Lookup(p.Pkg, name[i+1:]); sel != nil {
				return P.prog.MethodValue(sel)
			}
		}
		return nil
	}
	return p.Func(name)
}

// isExecutor: func(db *MemDb, cmd [][]byte) RedisData
func isExecutor(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 2 || s.Results().Len() != 1 || s.Recv() != nil {
		return false
	}
	if namedOf(s.Params().At(0).Type()) != modPath+"/memdb.MemDb" {
		return false
	}
	if s.Params().At(1).Type().String() != "[][]byte" {
		return false
	}
	return strings.HasSuffix(s.Results().At(0).Type().String(), "resp.RedisData")
}

// findCommands pairs every executor function with the constant name it is registered under.
func (P *Program) findCommands() {
	lits := map[ast.Node]*ssa.Function{}
	decls := map[ast.Node]*ssa.Function{}
	lits2 := map[*ssa.Function][]string{}
	defer func() {
		for _, f := range P.cmdFn {
			for _, v := range lits2[f] {
				P.litAt[v] = f.String()
			}
		}
	}()
	for fn := range ssautil.AllFunctions(P.prog) {
		switch n := fn.Syntax().(type) {
		case *ast.FuncLit:
			lits[n] = fn
		case *ast.FuncDecl:
			decls[n] = fn
		}
	}
	for _, p := range P.pkgs {
		info := p.TypesInfo
		for _, f := range p.Syntax {
			var encl *ast.FuncDecl
			ast.Inspect(f, func(n ast.Node) bool {
				if fd, ok := n.(*ast.FuncDecl); ok {
					encl = fd
				}
				if bl, ok := n.(*ast.BasicLit); ok {
					if tv, ok := info.Types[bl]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
						v := constant.StringVal(tv.Value)
						if encl != nil && encl.End() > bl.Pos() {
							lits2[decls[encl]] = append(lits2[decls[encl]], v)
						} else {
							P.litAt[v] = P.prog.Fset.Position(bl.Pos()).String()
						}
					}
				}
				var elems []ast.Expr
				switch x := n.(type) {
				case *ast.CallExpr:
					elems = x.Args
				case *ast.KeyValueExpr:
					elems = []ast.Expr{x.Key, x.Value}
				case *ast.CompositeLit:
					elems = x.Elts
				case *ast.AssignStmt:
					for i, l := range x.Lhs {
						if ix, ok := l.(*ast.IndexExpr); ok && i < len(x.Rhs) {
							elems = append(elems, ix.Index, x.Rhs[i])
						}
					}
				default:
					return true
				}
				var names []string
				var fns []*ssa.Function
				for _, e := range elems {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, isComp := n.(*ast.CompositeLit); isComp {
							e = kv.Value
						}
					}
					if tv, ok := info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
						names = append(names, constant.StringVal(tv.Value))
					}
					for _, g := range execRefs(info, e) {
						if sf := P.prog.FuncValue(g); sf != nil {
							fns = append(fns, sf)
						}
					}
					if fl, ok := ast.Unparen(e).(*ast.FuncLit); ok {
						if sf := lits[fl]; sf != nil && len(sf.FreeVars) == 0 && isExecutor(sf.Signature) {
							fns = append(fns, sf)
						}
					}
				}
				if len(fns) == 1 && len(names) >= 1 {
					sf := fns[0]
					{
						nm := names[0]
						if old, ok := P.cmds[nm]; ok && old != sf {
							P.dup = append(P.dup, nm)
						}
						P.cmds[nm] = sf
						P.cmdFn[nm] = nil
						if encl != nil && encl.Pos() <= n.Pos() && n.End() <= encl.End() {
							P.cmdFn[nm] = decls[encl]
						}
						ps := P.prog.Fset.Position(n.Pos())
						P.cmdAt[nm] = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, P.repo+"/"), ps.Line)
					}
				}
				return true
			})
		}
	}
}

func execRefs(info *types.Info, e ast.Expr) []*types.Func {
	switch x := e.(type) {
	case *ast.Ident:
		if f, ok := info.Uses[x].(*types.Func); ok && isExecutor(f.Type()) {
			return []*types.Func{f}
		}
	case *ast.SelectorExpr:
		if f, ok := info.Uses[x.Sel].(*types.Func); ok && isExecutor(f.Type()) {
			return []*types.Func{f}
		}
	case *ast.UnaryExpr:
		return execRefs(info, x.X)
	case *ast.ParenExpr:
		return execRefs(info, x.X)
	case *ast.KeyValueExpr:
		return execRefs(info, x.Value)
	case *ast.CallExpr:
		if tv, ok := info.Types[x.Fun]; ok && tv.IsType() && len(x.Args) == 1 {
			return execRefs(info, x.Args[0])
		}
	case *ast.CompositeLit:
		var out []*types.Func
		for _, el := range x.Elts {
			out = append(out, execRefs(info, el)...)
		}
		return out
	}
	return nil
}

func (P *Program) newAnalysis(rep *Reports) *Analysis {
	a := &Analysis{prog: P.prog, pkgs: P.spkgs, repoPk: map[*ssa.Package]bool{}, loops: map[*ssa.Function]*loopInfo{}, rep: rep,
		pure: map[*ssa.Function]int{}, constG: map[*ssa.Global]T{}, multi: map[*ssa.Function]*multiLock{}, pureRng: map[string][2]int64{},
		maxSteps: 2000000, seqNames: map[string]bool{}, valueTypes: map[string]bool{}, visited: map[*ssa.Function]bool{}, slots: map[T]string{}, validConf: true}
	for _, p := range P.spkgs {
		a.repoPk[p] = true
	}
	rep.a = a
	rep.repo = P.repo
	a.findConstGlobals()
	a.findValueTypes()
	a.pureRanges()
	return a
}

// findConstGlobals: package variables assigned once, by their initialiser, a constant.
func (a *Analysis) findConstGlobals() {
	stores := map[*ssa.Global]int{}
	val := map[*ssa.Global]ssa.Value{}
	escaped := map[*ssa.Global]bool{}
	loads := map[*ssa.Global][]*ssa.UnOp{}
	a.globTab = map[*ssa.Global][]tabEnt{}
	for fn := range ssautil.AllFunctions(a.prog) {
		if !a.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == g {
							stores[g]++
							val[g] = x.Val
							if fn.Name() != "init" {
								stores[g] += 2
							}
						} else {
							escaped[g] = true
						}
					case *ssa.UnOp:
						loads[g] = append(loads[g], x)
					default:
						escaped[g] = true
					}
				}
			}
		}
	}
	a.globLen = map[*ssa.Global]int64{}
	for g, v := range val {
		if stores[g] == 1 && !escaped[g] {
			if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					if ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						a.globLen[g] = ar.Len()
					}
				}
			}
			if c, ok := v.(*ssa.Const); ok && c.Value != nil {
				a.constG[g] = constTerm(c.Value, c.Type())
			}
			if mm, ok := v.(*ssa.MakeMap); ok {
				if tab := literalMap(mm, loads[g]); tab != nil {
					a.globTab[g] = tab
				}
			}
		}
	}
}

// tabEnt is one entry of a package-level table that is written once, as a literal.
type tabEnt struct{ key, val T }

// literalMap: the entries of the map, when they are constants and functions and nobody changes them later.
func literalMap(mm *ssa.MakeMap, loads []*ssa.UnOp) []tabEnt {
	var tab []tabEnt
	for _, r := range *mm.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if x.Map != mm || !ok || k.Value == nil {
				return nil
			}
			e := tabEnt{key: constTerm(k.Value, k.Type())}
			v := x.Value
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			switch v := v.(type) {
			case *ssa.Const:
				if v.Value == nil {
					return nil
				}
				e.val = constTerm(v.Value, v.Type())
			case *ssa.Function:
				e.val = mk(OFunc, v, v.Type())
			default:
				return nil
			}
			tab = append(tab, e)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	for _, ld := range loads {
		for _, r := range *ld.Referrers() {
			switch x := r.(type) {
			case *ssa.Lookup:
				if x.X != ld {
					return nil
				}
			case *ssa.Range, *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return nil
				}
			default:
				return nil
			}
		}
	}
	if len(tab) > 8 {
		return nil
	}
	return tab
}

// findValueTypes: the dynamic types that are ever put into the dictionary.
func (a *Analysis) findValueTypes() {
	for _, t := range []string{"[]byte", "*" + modPath + "/memdb.Hash", "*" + modPath + "/memdb.List", "*" + modPath + "/memdb.Set"} {
		a.valueTypes[t] = true
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// pureRanges bounds the results of the functions kept as uninterpreted terms.
func (a *Analysis) pureRanges() {
	for fn := range ssautil.AllFunctions(a.prog) {
		if !a.inRepo(fn) || !a.isPure(fn) || !isInt(fn.Signature.Results().At(0).Type()) {
			continue
		}
		r := &Root{name: "range:" + fn.Name(), fn: fn, kind: "aux"}
		st := newState()
		var args []T
		for i, p := range fn.Params {
			args = append(args, mk(ORoot, fmt.Sprintf("arg%d", i), p.Type()))
		}
		a.quiet = true
		a.run(r, st, args)
		a.quiet = false
		if r.incomplete || len(r.outs) == 0 {
			continue
		}
		lo, hi := int64(INF), int64(-INF)
		for _, o := range r.outs {
			l, h := a.bounds(o.st, o.ret[0])
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
		a.pureRng[fnName(fn)] = [2]int64{lo, hi}
	}
}
