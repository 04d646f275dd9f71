package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *Analysis) startState(P *Program) *State {
	st := newState()
	return st
}

func (a *Analysis) cmdArgs(fn *types.Signature) []T {
	return []T{mk(ORoot, "db", fn.Params().At(0).Type()), mk(ORoot, "cmd", fn.Params().At(1).Type())}
}

func (a *Analysis) runCmd(P *Program, name, variant string) *Root {
	fn := P.cmds[name]
	r := &Root{name: name, fn: fn, kind: "cmd", variant: variant, okLens: map[[2]int64]bool{}}
	st := a.startState(P)
	args := a.cmdArgs(fn.Signature)
	ln := mkLen(args[1])
	a.ensure(st, ln)
	st.num.le(mkInt(1), ln, 0)
	st.num.le(ln, mkInt(1<<20), 0)
	a.unroll = false
	a.witness = strings.HasPrefix(variant, "w,")
	defer func() { a.witness = false }()
	variant = strings.TrimPrefix(variant, "w,")
	var n int64
	var x, y int
	if c, _ := fmt.Sscanf(variant, "n=%d,alias=%d:%d", &n, &x, &y); c == 3 {
		et := args[1].typ.Underlying().(*types.Slice).Elem()
		pt := types.NewPointer(et)
		st.heap[mkIA(args[1], mkInt(int64(y)), pt)] = mk(OLd, nil, et, mkIA(args[1], mkInt(int64(x)), pt))
		r.alias = map[int]int{y: x}
	}
	if n > 0 {
		a.unroll = true
		a.eqNum(st, ln, mkInt(n))
	}
	a.race = variant == "race"
	if sp := specs[name]; a.witness && sp != nil {
		// no deadlines: what is expired is the matter of other rules
		c := &Ck{a: a, cmd: args[1], ali: r.alias}
		for i := 1; i < int(n); i++ {
			st.keys[c.key(i)] = &KeyRec{initExp: 'N'}
		}
	}
	a.run(r, st, args)
	a.race = false
	a.unroll = false
	return r
}

func (a *Analysis) describe(o *Outcome) string {
	var b strings.Builder
	for _, r := range o.ret {
		b.WriteString(a.reply(o.st, r).String() + " ")
	}
	var ks []T
	for k := range o.st.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	d := func(c byte) string {
		if c == 0 {
			return "-"
		}
		return string(c)
	}
	for _, k := range ks {
		r := o.st.keys[k]
		fmt.Fprintf(&b, "| %s: init=%s%s exp=%s -> %s exp=%s mut=%v", short(k), d(r.initDict), strings.TrimPrefix(r.initType, "*gRedis/memdb."), o.st.expState(k, r), d(r.cur), d(r.exp), r.mutated)
	}
	for x := range o.st.arch {
		ar := parseArch(x)
		fmt.Fprintf(&b, "| *%s: init=%s%s exp=%s -> %s exp=%s mut=%v", short(ar.key), ar.init, ar.typ, ar.exp, ar.cur, ar.curExp, ar.mutated)
	}
	for f, v := range o.st.flags {
		if v {
			b.WriteString(" " + f)
		}
	}
	return b.String()
}

// Reply is what a command path answers.
type Reply struct {
	kind string // err, str, int, bulk, nilbulk, arr, nilarr, nil, ?
	val  T
}

func (r Reply) String() string {
	if r.val != nil {
		return r.kind + ":" + short(r.val)
	}
	return r.kind
}

func (a *Analysis) reply(st *State, t T) Reply {
	if t.isNil() {
		return Reply{kind: "nil"}
	}
	if t.op != OIface {
		return Reply{kind: "?", val: t}
	}
	p := t.args[0]
	if p.isNil() {
		return Reply{kind: "nilptr"}
	}
	tn := t.aux.(string)
	field := func() T {
		pt, ok := typUnder(p).(*types.Pointer)
		if !ok {
			return nil
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || s.NumFields() == 0 {
			return nil
		}
		return a.loadRaw(st, mk(OFA, 0, types.NewPointer(s.Field(0).Type()), p), s.Field(0).Type())
	}
	f := field()
	switch {
	case strings.HasSuffix(tn, "resp.SimpleError"):
		return Reply{"err", f}
	case strings.HasSuffix(tn, "resp.SimpleString"):
		return Reply{"str", f}
	case strings.HasSuffix(tn, "resp.Integer"):
		return Reply{"int", f}
	case strings.HasSuffix(tn, "resp.BulkString"):
		if f.isNil() {
			return Reply{"nilbulk", nil}
		}
		return Reply{"bulk", f}
	case strings.HasSuffix(tn, "resp.RedisArray"):
		if f.isNil() {
			return Reply{"nilarr", nil}
		}
		return Reply{"arr", f}
	}
	return Reply{"?", t}
}

// atLoopHead: a lock taken in one iteration must not be kept into the next one.
func (a *Analysis) atLoopHead(st *State, to *ssa.BasicBlock) {
	fr := st.frames[len(st.frames)-1]
	if !fr.back {
		if fr.heldAt == nil {
			fr.heldAt = map[*ssa.BasicBlock]int{}
		}
		fr.heldAt[to] = len(st.held)
		return
	}
	a.links(st, to.Instrs[len(to.Instrs)-1])
	a.unlinked(st, to.Instrs[len(to.Instrs)-1])
	if a.seqNames["rawlocks"] || len(to.Instrs) == 0 {
		return
	}
	n := fr.heldAt[to]
	ok := len(st.held) <= n
	a.rep.obl("C03", st, to.Instrs[len(to.Instrs)-1], "released", ok, "the loop starts its next iteration while a lock taken in the last one is still held")
	if len(st.held) > n+1 {
		st.held = append([]Held(nil), st.held[:n+1]...) // enough to see what taking another one means
	}
}
