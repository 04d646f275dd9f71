package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// startRules follows the connections from accept to their own goroutine.
type startRules struct {
	a *Analysis
}

func isConnT(t types.Type) bool {
	if t == nil {
		return false
	}
	s := t.String()
	return s == "net.Conn" || s == "*net.TCPConn"
}

func connChan(ch T) bool {
	if ch == nil || ch.typ == nil {
		return false
	}
	c, ok := ch.typ.Underlying().(*types.Chan)
	return ok && isConnT(c.Elem())
}

func (s *startRules) got(st *State, at ssa.Instruction) {
	s.a.rep.obl("C23", st, at, "handed-on", !st.flags["accepted"], "the next connection is taken before this one was handed on: it is never served")
	st.flags["accepted"] = true
	delete(st.flags, "accepterr")
	delete(st.flags, "lclosed")
}

func (s *startRules) invoke(st *State, at ssa.Instruction, c *ssa.CallCommon, args []T) {
	switch c.Method.Name() {
	case "Accept":
		s.got(st, at)
		st.flags["accepting"] = true
	case "Close":
		if connType(c.Value.Type()) && c.Value.Type().String() != "io.Closer" {
			s.a.rep.obl("C23", st, at, "closed-unserved", !st.flags["accepted"] || st.flags["lclosed"] || st.flags["stop"], "an accepted connection is closed instead of served")
			delete(st.flags, "accepted")
		}
	}
}

// listens: the address listened on is made of the configured host and port.
func (s *startRules) listens(st *State, at ssa.Instruction, addr T) {
	if addr == nil {
		return
	}
	uses := func(f string) bool {
		return anyTerm(addr, func(t T) bool { return t.op == OLd && t.args[0].op == OFA && confField(t.args[0]) == f })
	}
	var dark func(t T) bool
	dark = func(t T) bool {
		if t == nil || t.op == OLd && t.args[0].op == OFA && confField(t.args[0]) != "" {
			return false
		}
		if t.op == OSym || t.op == OObj || t.op == OStar {
			return true
		}
		for _, x := range t.args {
			if dark(x) {
				return true
			}
		}
		return false
	}
	for _, f := range []string{"Host", "Port"} {
		s.a.rep.obl("C25", st, at, "address", uses(f) || dark(addr), "the address listened on does not contain the configured "+strings.ToLower(f))
	}
}

func (s *startRules) ext(st *State, at ssa.Instruction, name string, args []T) {
	if name == "net.Listen" && len(args) == 2 {
		s.listens(st, at, args[1])
	}
	if strings.HasSuffix(name, "TCPListener).Accept") || strings.HasSuffix(name, "TCPListener).AcceptTCP") {
		s.got(st, at)
		st.flags["accepting"] = true
	}
}

func (s *startRules) recv(st *State, at ssa.Instruction, ch T) {
	if connChan(ch) {
		s.got(st, at)
		return
	}
	st.flags["stop"] = true
}

func (s *startRules) send(st *State, at ssa.Instruction, ch, v T) {
	if connChan(ch) {
		delete(st.flags, "accepted")
	}
}

func (s *startRules) goStmt(st *State, at *ssa.Go, fn T, args []T) {
	hand := false
	for _, x := range at.Call.Args {
		hand = hand || isConnT(x.Type())
	}
	if mc, ok := at.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			t := b.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok && isConnT(p.Elem()) || isConnT(t) {
				hand = true
			}
		}
	}
	if hand {
		delete(st.flags, "accepted")
	}
}

func (s *startRules) fact(st *State, c T, truth bool) {
	if c.op == OCall {
		if n, _ := c.aux.(string); strings.HasPrefix(n, "errors.Is") && truth {
			st.flags["lclosed"] = true
		}
	}
	if c.op != OBin || c.aux != "==" {
		return
	}
	l, r := c.args[0], c.args[1]
	if l.isConst() {
		l, r = r, l
	}
	if r.isNil() && l.typ != nil && l.typ.String() == "error" && !truth && st.flags["accepted"] {
		delete(st.flags, "accepted")
		st.flags["accepterr"] = true
	}
	if !r.isNil() && truth && l.typ != nil && l.typ.String() == "error" {
		st.flags["lclosed"] = true
	}
}

func (s *startRules) finish(o *Outcome, at *ssa.Return) {
	st := o.st
	s.a.rep.obl("C23", st, at, "handed-on", !st.flags["accepted"] || st.flags["stop"], "a connection is dropped unserved")
	if st.flags["accepting"] {
		s.a.rep.obl("C23", st, at, "keeps-accepting", st.flags["lclosed"] || st.flags["stop"], "the server stops accepting connections")
	}
}

func isAccept(ins ssa.Instruction) bool {
	c, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name() == "Accept"
	}
	f := c.Common().StaticCallee()
	return f != nil && strings.Contains(f.String(), "TCPListener).Accept")
}

func takesConn(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		c, ok := x.X.Type().Underlying().(*types.Chan)
		return ok && isConnT(c.Elem())
	case *ssa.Select:
		for _, s := range x.States {
			if c, ok := s.Chan.Type().Underlying().(*types.Chan); ok && s.Dir == types.RecvOnly && isConnT(c.Elem()) {
				return true
			}
		}
	}
	return false
}

func (a *Analysis) srvStart(P *Program) []*Root {
	p := P.pkg("server")
	if p == nil {
		return nil
	}
	goT := map[*ssa.Function]bool{}
	for _, f := range P.goTargets("server") {
		goT[f] = true
	}
	var roots []*Root
	s := &startRules{a}
	served := false
	fns := allFns(P)
	for _, f := range sortedFns(fns) {
		if f.Pkg != p || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		direct := a.inFn(f, isAccept) || a.inFn(f, takesConn)
		if !direct {
			continue
		}
		a.pseudo("start")
		a.visited[f] = true
		// a handler called instead of started holds up everybody else
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
						g = mc.Fn.(*ssa.Function)
					}
				}
				if g == nil || !a.reaches(g, isExecCall) {
					continue
				}
				_, isGo := ins.(*ssa.Go)
				if !isGo && !a.reachesCall(g, isExecCall) {
					served = true // it is started there
					continue
				}
				a.rep.obl("C13", nil, ins, "own-goroutine", isGo, "a connection is served inside the loop that takes new ones: other clients wait for it to end")
				served = served || isGo
				if isGo {
					a.admitted(f, ins, g)
				}
			}
		}
		if a.reaches(f, isExecCall) && !goT[f] {
			served = true
		}
		a.on.invoke, a.on.ext, a.on.recv, a.on.send, a.on.goStmt, a.on.fact, a.on.finish = s.invoke, s.ext, s.recv, s.send, s.goStmt, s.fact, s.finish
		if !a.reachesCall(f, isExecCall) {
			roots = append(roots, a.runFn(f, "aux", "start", nil))
		}
		a.on = Callbacks{}
	}
	_ = served
	return roots
}

func (a *Analysis) inFn(f *ssa.Function, want func(ssa.Instruction) bool) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if want(ins) {
				return true
			}
		}
	}
	return false
}

// reachesCall: like reaches, not counting what is only started as a goroutine.
func (a *Analysis) reachesCall(fn *ssa.Function, want func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !a.inRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if want(ins) {
					return true
				}
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
						g = mc.Fn.(*ssa.Function)
					}
					if walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	byName := map[string]*ssa.Function{}
	for f := range m {
		byName[f.String()] = f
	}
	var out []*ssa.Function
	for _, n := range sortedKeys(byName) {
		out = append(out, byName[n])
	}
	return out
}

// admitted: the loop that starts the serving of a connection does not wait for the end of another one.
func (a *Analysis) admitted(f *ssa.Function, start ssa.Instruction, g *ssa.Function) {
	elem := func(v ssa.Value) types.Type {
		if c, ok := v.Type().Underlying().(*types.Chan); ok {
			return c.Elem()
		}
		return nil
	}
	callee := func(ins ssa.Instruction) string {
		if c, ok := ins.(ssa.CallInstruction); ok {
			if t := c.Common().StaticCallee(); t != nil {
				return t.String()
			}
		}
		return ""
	}
	frees := func(want func(ssa.Instruction) bool) bool {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if want(ins) {
					return true
				}
			}
		}
		for _, h := range g.AnonFuncs {
			if a.inFn(h, want) {
				return true
			}
		}
		return false
	}
	for _, body := range a.li(f).body {
		if !body[start.Block()] {
			continue
		}
		for _, b := range f.Blocks {
			if !body[b] {
				continue
			}
			for _, ins := range b.Instrs {
				waits := false
				switch x := ins.(type) {
				case *ssa.Send:
					t := elem(x.Chan)
					waits = t != nil && !isConnT(t) && frees(func(i ssa.Instruction) bool {
						u, ok := i.(*ssa.UnOp)
						return ok && u.Op == token.ARROW && elem(u.X) != nil && types.Identical(elem(u.X), t)
					})
				case *ssa.Call:
					switch callee(x) {
					case "(*sync.WaitGroup).Wait":
						waits = frees(func(i ssa.Instruction) bool { return callee(i) == "(*sync.WaitGroup).Done" })
					case "(*sync.Mutex).Lock":
						waits = frees(func(i ssa.Instruction) bool { return callee(i) == "(*sync.Mutex).Unlock" }) &&
							!frees(func(i ssa.Instruction) bool { return callee(i) == "(*sync.Mutex).Lock" })
					}
				}
				if waits {
					a.rep.obl("C13", nil, ins, "own-goroutine", false, "the loop that takes new connections waits until another connection has ended")
				}
			}
		}
	}
}
