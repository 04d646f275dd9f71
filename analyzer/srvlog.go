package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// logRules follows one call of a logging function.
type logRules struct {
	a   *Analysis
	lvl int64
	nm  string
	idx T // index of the level name last found equal

	prefixes bool // the package sets the prefix for each message
}

var logLevels = []string{"debug", "info", "warning", "panic", "error"}

func isLevel(t T) bool {
	return t != nil && t.typ != nil && strings.HasSuffix(t.typ.String(), "logger.LogLevel")
}

// num: what is known about the configured level.
func (h *logRules) num(st *State, c T) {
	if c.op != OBin {
		return
	}
	for _, x := range c.args {
		if x.isConst() || !isLevel(x) {
			continue
		}
		lo, hi := h.a.bounds(st, x)
		if hi <= h.lvl {
			st.flags["on"] = true
		}
		if lo > h.lvl {
			st.flags["off"] = true
		}
	}
}

func (h *logRules) ext(st *State, at ssa.Instruction, name string, args []T) {
	a := h.a
	switch {
	case strings.HasPrefix(name, "(*log.Logger).Print") || strings.HasPrefix(name, "(*log.Logger).Output") || strings.HasPrefix(name, "log.Print"):
		a.rep.obl("C26", st, at, "threshold", !st.flags["off"], h.nm+" messages are written although the level is set higher")
		a.rep.obl("C26", st, at, "threshold", st.flags["off"] || st.flags["on"], h.nm+" messages are written whatever level is set")
		a.rep.obl("C26", st, at, "once", !st.flags["printed"], "a message is written twice")
		a.rep.obl("C26", st, at, "whole", len(st.held) > 0, "messages of different connections mix: the prefix and the text are not written in one step")
		st.flags["printed"] = true
		if h.prefixes && len(args) > 1 && !st.flags["prefixed"] {
			own, dark := false, false
			es, ok := a.elems(st, args[len(args)-1])
			for _, e := range append(es, args[1:]...) {
				o, _, _ := h.levelsIn(e)
				own = own || o
			}
			a.rep.obl("C26", st, at, "prefix", own || dark || !ok, "a "+h.nm+" message is written with the prefix of the message before")
		}
	case strings.HasPrefix(name, "(*log.Logger).Fatal") || strings.HasPrefix(name, "(*log.Logger).Panic") || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic"):
		a.rep.obl("C26", st, at, "survives", false, "logging ends the process")
		a.rep.obl("C10", st, at, "exit", false, "logging ends the process")
		st.flags["printed"] = true
	case name == "(*log.Logger).SetPrefix":
		a.rep.obl("C26", st, at, "whole", len(st.held) > 0, "the prefix is changed without the log lock")
		if len(args) > 1 {
			st.flags["prefixed"] = true
			own, other, dark := h.levelsIn(args[1])
			a.rep.obl("C26", st, at, "prefix", !other && (own || dark), "the prefix of a "+h.nm+" message is not the one of its level")
		}
	}
}

// levelsIn: whether a text names the level of this function, another one, or something unknown.
func (h *logRules) levelsIn(t T) (own, other, dark bool) {
	anyTerm(t, func(t T) bool {
		if t.op == OLd && t.args[0].op == OIA && isString(t.typ) {
			if i, ok := t.args[0].args[1].constInt(); ok {
				own, other = own || i == h.lvl, other || i != h.lvl
			} else {
				dark = true
			}
		}
		if s, ok := t.constStr(); ok {
			s = strings.ToLower(s)
			for i, n := range logLevels {
				if strings.Contains(s, n) {
					own, other = own || int64(i) == h.lvl, other || int64(i) != h.lvl
				}
			}
		}
		if t.op == OSym || t.op == OObj || t.op == OStar {
			dark = true
		}
		return false
	})
	return
}

func (h *logRules) global(st *State, at ssa.Instruction, addr T, write bool) {
	if write {
		h.a.rep.obl("C14", st, at, "global", len(st.held) > 0, "a package variable is written without a lock: "+short(addr))
		h.a.rep.obl("C26", st, at, "whole", len(st.held) > 0, "a variable of the logger is written without the log lock: "+short(addr))
	}
}

func (h *logRules) finish(o *Outcome, at *ssa.Return) {
	a, st := h.a, o.st
	if !st.flags["printed"] {
		a.rep.obl("C26", st, at, "written", st.flags["off"], h.nm+" messages are lost although the level admits them")
	}
	a.rep.obl("C26", st, at, "released", len(st.held) == 0, "the log lock is not released: every connection stops at its next message")
	a.rep.obl("C04", st, at, "log-released", len(st.held) == 0, "the log lock is not released: every connection stops at its next message")
}

func (a *Analysis) srvLog(P *Program) []*Root {
	p := P.pkg("logger")
	if p == nil {
		return nil
	}
	var roots []*Root
	a.seqNames["logger"] = true
	defer func() { a.seqNames["logger"] = false; a.on = Callbacks{} }()
	prefixes := false
	for fn := range allFns(P) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "(*log.Logger).SetPrefix" {
					prefixes = true
				}
			}
		}
	}
	for i, n := range logLevels {
		fn := p.Func(strings.ToUpper(n[:1]) + n[1:])
		if fn == nil {
			continue
		}
		h := &logRules{a: a, lvl: int64(i), nm: n, prefixes: prefixes}
		a.on.num, a.on.ext, a.on.global, a.on.finish = h.num, h.ext, h.global, h.finish
		roots = append(roots, a.runFn(fn, "aux", "log."+n, nil))
	}
	a.on = Callbacks{}
	a.pseudo("logger")
	tbl, at := levelTable(p)
	a.visited[p.Func("init")] = true
	if tbl != nil {
		for _, n := range sortedKeys(p.Members) {
			g, ok := p.Members[n].(*ssa.Global)
			var v int64
			if ok {
				c, okc := a.constG[g]
				if !okc {
					continue
				}
				v, ok = c.constInt()
				if !isLevel(&Term{typ: g.Type().Underlying().(*types.Pointer).Elem()}) {
					continue
				}
			} else if nc, isC := p.Members[n].(*ssa.NamedConst); isC && strings.HasSuffix(nc.Type().String(), "logger.LogLevel") {
				v, ok = nc.Value.Int64(), true
			}
			if !ok {
				continue
			}
			ln := strings.ToLower(n)
			known := false
			for _, x := range logLevels {
				known = known || x == ln
			}
			if !known {
				continue
			}
			a.rep.obl("C26", nil, at, "level-names", int(v) < len(tbl) && v >= 0 && tbl[v] == ln, fmt.Sprintf("level %s is number %d, which the table of names calls something else", n, v))
			a.rep.obl("C26", nil, at, "level-order", int(v) < len(logLevels) && v >= 0 && logLevels[v] == ln, fmt.Sprintf("level %s is number %d in the order of levels", n, v))
		}
		for i, n := range logLevels {
			a.rep.obl("C26", nil, at, "level-order", i < len(tbl) && tbl[i] == n, "the table of level names has another order than debug, info, warning, panic, error")
		}
	}
	// the configured level is the named one
	if fn := p.Func("Init"); fn != nil {
		h := &logRules{a: a}
		a.on.field = func(st *State, at ssa.Instruction, addr T, write bool) {
			if !write || addrElemType(addr) == nil || !strings.HasSuffix(addrElemType(addr).String(), "logger.LogLevel") {
				return
			}
			v := a.storing
			if v == nil {
				return
			}
			if c, ok := v.constInt(); ok {
				if c == 0 && !st.flags["lset"] {
					return // zero value of the literal
				}
				if tbl == nil || st.flags["named"] {
					return
				}
				st.flags["lset"] = true
				a.rep.obl("C26", st, at, "default-level", c == 1, "the default level is not info")
				return
			}
			for v.op == OConv && len(v.args) == 1 {
				v = v.args[0]
			}
			if st.flags["named"] && h.idx != nil && v.op == OBin {
				a.rep.obl("C26", st, at, "named-level", a.mayEqual(st, v, h.idx), "the level set is not the one whose name was found")
			}
			a.rep.obl("C26", st, at, "named-level", st.flags["named"] || v.op == OCall, "the level is set without having found its name in the table")
		}
		a.on.fact = func(st *State, c T, truth bool) {
			if c.op == OBin && c.aux == "==" && truth {
				for _, x := range c.args {
					if x.op == OLd && x.args[0].op == OFA && fieldName(x.args[0]) == "LogLevel" {
						st.flags["named"] = true
					} else if x.op == OLd && x.args[0].op == OIA {
						h.idx = x.args[0].args[1]
					}
				}
			}
		}
		roots = append(roots, a.runFn(fn, "aux", "log.init", nil))
	}
	roots = append(roots, a.levelRuns(P, p, tbl)...)
	return roots
}

// levelRuns: for each level name, the level that Init sets.
func (a *Analysis) levelRuns(P *Program, p *ssa.Package, tbl []string) (roots []*Root) {
	fn := p.Func("Init")
	if fn == nil || tbl == nil || len(fn.Params) == 0 {
		return nil
	}
	var g *ssa.Global
	for _, n := range sortedKeys(p.Members) {
		if x, ok := p.Members[n].(*ssa.Global); ok {
			if sl, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				g = x
			}
		}
	}
	if g == nil {
		return nil
	}
	a.unroll = true
	defer func() { a.unroll = false }()
	for i, n := range logLevels {
		want := int64(i)
		a.on = Callbacks{}
		a.on.ext = func(st *State, at ssa.Instruction, name string, args []T) {
			isFile := func(t T) bool {
				return anyTerm(t, func(t T) bool {
					s, ok := t.aux.(*Site)
					return t.op == OSym && ok && strings.HasPrefix(s.tag, "open")
				})
			}
			isStd := func(t T) bool {
				return anyTerm(t, func(t T) bool {
					g, ok := t.aux.(*ssa.Global)
					return t.op == OGlobal && ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os"
				})
			}
			switch {
			case name == "io.MultiWriter" && len(args) > 0:
				es, ok := a.elems(st, args[0])
				std := ok
				for _, e := range es {
					std = std && isStd(e)
				}
				if std {
					st.flags["stdonly"] = true
				}
			case name == "log.New" && len(args) > 0:
				bad := isStd(args[0]) && !isFile(args[0]) || st.flags["stdonly"]
				a.rep.obl("C26", st, at, "log-file", !bad, "messages are not written to the log file")
			}
		}
		a.on.finish = func(o *Outcome, at *ssa.Return) {
			for cell, v := range o.st.heap {
				if cell.op == OFA && fieldName(cell) == "LogLevel" && isLevel(&Term{typ: addrElemType(cell)}) && v != nil {
					bad := v.isConst() && v.String() != fmt.Sprint(want)
					a.rep.obl("C26", o.st, at, "level-set", !bad, "with the level "+n+" configured, the logger works at level "+v.String())
				}
			}
		}
		roots = append(roots, a.runRoot(fn, "aux", "log.init", func(st *State, args []T) {
			s := structOf(args[0].typ)
			for j := 0; s != nil && j < s.NumFields(); j++ {
				if s.Field(j).Name() == "LogLevel" {
					st.heap[fieldAddr(args[0], j)] = mkStr(n)
				}
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			tab := mk(OLd, nil, t, mk(OGlobal, g, g.Type()))
			for j, x := range tbl {
				st.heap[mkIA(tab, mkInt(int64(j)), types.NewPointer(tStr))] = mkStr(x)
			}
			ln := a.lenTerm(st, tab)
			a.ensure(st, ln)
			st.num.le(ln, mkInt(int64(len(tbl))), 0)
			st.num.le(mkInt(int64(len(tbl))), ln, 0)
		}))
	}
	return roots
}

// levelTable: the literal list of level names.
func levelTable(p *ssa.Package) ([]string, ssa.Instruction) {
	init := p.Func("init")
	if init == nil {
		return nil, nil
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := st.Addr.(*ssa.Global); !ok {
				continue
			}
			sl, ok := st.Val.(*ssa.Slice)
			if !ok {
				continue
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok || !isString(ar.Elem()) {
				continue
			}
			out := make([]string, ar.Len())
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, okc := constI(ia.Index)
				for _, r2 := range *ia.Referrers() {
					if s2, ok := r2.(*ssa.Store); ok && okc {
						if c, ok := s2.Val.(*ssa.Const); ok && c.Value != nil {
							out[i] = strings.Trim(c.Value.ExactString(), `"`)
						}
					}
				}
			}
			has := false
			for _, x := range out {
				has = has || x == "warning"
			}
			if has {
				return out, st
			}
		}
	}
	return nil, nil
}

// mayEqual: the two numbers are not known to differ.
func (a *Analysis) mayEqual(st *State, x, y T) bool {
	if x == y {
		return true
	}
	a.ensure(st, x)
	a.ensure(st, y)
	return !st.num.provesLE(x, y, -1) && !st.num.provesLE(y, x, -1)
}
