package main

import (
	"fmt"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation, tied to a source construct.
type Finding struct {
	Prop  string   `json:"property"`
	Rule  string   `json:"rule"`
	Where string   `json:"where"`
	Func  string   `json:"function"`
	Root  string   `json:"entry_point"`
	Msg   string   `json:"message"`
	Trace []string `json:"path"`
}

type oblKey struct {
	prop, rule, where, root string
}

type Reports struct {
	a    *Analysis
	obls map[oblKey]int // number of times discharged
	bad  map[oblKey]*Finding
	want string // property being decided, "" for all
	repo string
}

func newReports() *Reports {
	return &Reports{obls: map[oblKey]int{}, bad: map[oblKey]*Finding{}}
}

func (r *Reports) pos(p token.Pos) string {
	if p == token.NoPos || r.a == nil {
		return "?"
	}
	ps := r.a.prog.Fset.Position(p)
	f := ps.Filename
	if rel, err := filepath.Rel(r.repo, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func instrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if p := i.Pos(); p != token.NoPos {
		return p
	}
	if v, ok := i.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, x := range *rs {
				if x.Pos() != token.NoPos {
					return x.Pos()
				}
			}
		}
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos() != token.NoPos {
			return (*op).Pos()
		}
	}
	b := i.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos() != token.NoPos {
				return x.Pos()
			}
		}
		if b.Parent() != nil {
			return b.Parent().Pos()
		}
	}
	return token.NoPos
}

// obl records an obligation of a property at an instruction.
func (r *Reports) obl(prop string, st *State, at ssa.Instruction, rule string, ok bool, msg string) {
	if r.a != nil && r.a.quiet {
		return
	}
	fn := ""
	if at != nil && at.Parent() != nil {
		fn = at.Parent().String()
	} else if st != nil && len(st.frames) > 0 {
		fn = st.top().fn.String()
	}
	p := "?"
	if at != nil {
		p = r.pos(instrPos(at))
	}
	r.oblAt(prop, st, p, fn, rule, ok, msg)
}

func (r *Reports) oblAt(prop string, st *State, where, fn, rule string, ok bool, msg string) {
	if r.a != nil && r.a.quiet {
		return
	}
	root := ""
	if r.a != nil && r.a.root != nil {
		root = r.a.root.name
	}
	k := oblKey{prop, rule, where, root}
	if ok {
		r.obls[k]++
		return
	}
	if r.bad[k] != nil {
		return
	}
	f := &Finding{Prop: prop, Rule: rule, Where: where, Func: fn, Root: root, Msg: msg}
	if st != nil {
		var tr []string
		n := 0
		for t := st.trace; t != nil && n < 60; t = t.prev {
			tr = append(tr, r.pos(t.pos)+" "+t.msg)
			n++
		}
		for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
			tr[i], tr[j] = tr[j], tr[i]
		}
		f.Trace = tr
		for i := len(st.frames) - 1; i > 0; i-- {
			c := st.frames[i].ctx
			if c != nil && c.call != nil {
				f.Msg += " [called from " + r.pos(c.call.Pos()) + "]"
			}
		}
	}
	r.bad[k] = f
}

func (r *Reports) findings(prop string) []*Finding {
	var out []*Finding
	for _, f := range r.bad {
		if prop == "" || f.Prop == prop {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Prop != b.Prop {
			return a.Prop < b.Prop
		}
		if a.Where != b.Where {
			return a.Where < b.Where
		}
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		return a.Root < b.Root
	})
	return out
}
