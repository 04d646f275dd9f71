package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// links: where a node was linked in one direction, its neighbour links back. A node that is linked back by neither
// neighbour has left the list and is not looked at.
func (a *Analysis) links(st *State, at ssa.Instruction) {
	if a.root == nil || a.root.kind != "cmd" || a.race {
		return
	}
	var cells []T
	for c := range st.heap {
		if c.op == OFA && !c.hasStar && isLink(c) {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	far := func(x T, f int) (T, int) { // what x.f links back with
		m, _ := mirror(x.typ, f)
		v := a.loadRaw(st, fieldAddr(x, f), x.typ)
		if v.isNil() || v.hasStar || !aNode(v) {
			return nil, 0
		}
		return a.loadRaw(st, fieldAddr(v, m), x.typ), 1
	}
	for _, c := range cells {
		x := c.args[0]
		f := c.aux.(int)
		m, ok := mirror(x.typ, f)
		if !ok || !aNode(x) {
			continue
		}
		back, st1 := far(x, f)
		if st1 == 0 {
			continue
		}
		other, st2 := far(x, m)
		if st2 != 0 && !a.sameNode(st, other, x) {
			continue // not in the list
		}
		if back.hasStar || !back.isNil() && !aNode(back) {
			continue
		}
		good := a.sameNode(st, back, x)
		for _, n := range otherNames(st, x) {
			good = good || st.heap[fieldAddr(n, f)] != nil // the link may have been changed under that name
		}
		v := a.loadRaw(st, fieldAddr(x, f), x.typ)
		for _, n := range otherNames(st, v) {
			b := a.loadRaw(st, fieldAddr(n, m), x.typ)
			good = good || b.hasStar || a.sameNode(st, b, x)
		}
		a.rep.obl("C17", st, at, "links", good, "the two directions of a list disagree: "+short(x)+" is followed by "+short(st.heap[c])+", which is linked to "+short(back))
	}
}

// aNode: the node is an object, a word of the original list or a node found in a loop.
func aNode(t T) bool {
	for t != nil {
		switch t.op {
		case OObj, ORoot, OSV:
			return true
		case OSym:
			s, ok := t.aux.(*Site)
			return !ok || !strings.HasPrefix(s.tag, "cell") // the content of a cell changed by a loop
		case OLd, OFA, OCast, OIA, OIface:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// sameNode: the nodes are one node by name or by a comparison made on this path; what the comparison says of the
// links of the two is followed as well.
func (a *Analysis) sameNode(st *State, x, y T) bool {
	return eqNode(nodeEqs(st), x, y, 4)
}

func nodeEqs(st *State) [][2]T {
	var r [][2]T
	for c, v := range st.facts {
		if v && c.op == OBin && c.aux == "==" && isNodeType(c.args[0].typ) {
			r = append(r, [2]T{c.args[0], c.args[1]})
			for i := 0; i < 2; i++ { // if y follows x, then x precedes y
				y, ad := c.args[1-i], c.args[i]
				if ad.op != OLd || !isLink(ad.args[0]) {
					continue
				}
				ad = ad.args[0]
				if m, ok := mirror(ad.args[0].typ, ad.aux.(int)); ok {
					r = append(r, [2]T{ad.args[0], mk(OLd, nil, y.typ, fieldAddr(y, m))})
				}
			}
		}
	}
	return r
}

func eqNode(eqs [][2]T, x, y T, d int) bool {
	if x == y {
		return true
	}
	if d == 0 || len(eqs) == 0 {
		return false
	}
	for _, e := range eqs {
		for i := 0; i < 2; i++ {
			if e[i] == x && eqNode(eqs, e[1-i], y, d-1) || e[i] == y && eqNode(eqs, x, e[1-i], d-1) {
				return true
			}
		}
	}
	if x.op == y.op && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 {
		for i := range x.args {
			if !eqNode(eqs, x.args[i], y.args[i], d-1) {
				return false
			}
		}
		return true
	}
	return false
}

// otherNames: the names a comparison made on this path gives the node.
func otherNames(st *State, x T) []T {
	var r []T
	eqs := nodeEqs(st)
	for _, e := range eqs {
		for i := 0; i < 2; i++ {
			if e[i] != x && eqNode(eqs, e[i], x, 4) {
				r = append(r, e[i])
			}
		}
	}
	return r
}

// loopExit: the block is where several ways out of a loop meet.
func (a *Analysis) loopExit(f *Frame) bool {
	l := a.li(f.fn)
	for h, b := range l.body {
		if b[f.blk] || !b[f.prev] {
			continue
		}
		n := 0
		for _, p := range f.blk.Preds {
			if b[p] {
				n++
			}
		}
		if n > 1 && h != nil {
			return true
		}
	}
	return false
}

// walksNodes: the block lies in a loop that follows the links of a list.
func walksNodes(b *ssa.BasicBlock, l *loopInfo) bool {
	for h, body := range l.body {
		if !body[b] {
			continue
		}
		for _, i := range h.Instrs {
			if ph, ok := i.(*ssa.Phi); ok && isNodeType(ph.Type()) {
				return true
			}
		}
	}
	return false
}

// orBlock: the block is reached when one of several conditions holds.
func orBlock(b *ssa.BasicBlock) bool {
	for i, p := range b.Preds {
		x, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || x == nil || p.Succs[0] == p.Succs[1] {
			return false
		}
		if i > 0 && !b.Preds[0].Dominates(p) && !p.Dominates(b.Preds[0]) {
			return false
		}
	}
	return true
}

// unlinks: an element leaves a list at an end. LPOP takes it from the left and RPOP from the right; LREM starts on the
// left for a positive count and on the right for a negative one.
func (a *Analysis) unlinks(st *State, at ssa.Instruction, addr, v T) {
	if !a.posOn() || a.root.name != "lrem" && a.root.name != "lpop" && a.root.name != "rpop" || !isLink(addr) || addr.hasStar || v == nil {
		return
	}
	n := a.loadRaw(st, addr, addr.args[0].typ)
	if n.isNil() || n.hasStar || n.op != OLd && n.op != OSym || a.loadRaw(st, fieldAddr(n, addr.aux.(int)), n.typ) != v {
		return
	}
	c := &Ck{a: a, name: a.root.name, sp: specs[a.root.name], st: st, cmd: a.cmdRoot()}
	l := c.rangeList()
	if l == nil || len(otherNames(st, n)) > 0 {
		return
	}
	ln := initialLen(l)
	if ln == nil || st.num.provesLE(ln, mkInt(1), 0) || st.num.provesLE(a.loadRaw(st, ln.args[0], ln.typ), mkInt(1), 0) {
		return
	}
	left := addr.args[0] == c.field(l, shapeOf(l.typ).head)
	right := addr.args[0] == c.field(l, shapeOf(l.typ).tail)
	switch a.root.name {
	case "lpop", "rpop":
		if left || right {
			a.rep.obl("C17", st, at, "end", left == (a.root.name == "lpop"), "an element is taken from the other end of the list")
		}
	case "lrem":
		p := c.numWord(2)
		if p == nil {
			return
		}
		if st.flags["walked"] {
			return // the list was searched before
		}
		lo, hi := a.bounds(st, p)
		if first := n == c.oldEnd(l, true); first || n == c.oldEnd(l, false) {
			if hi < 0 || lo > 0 {
				a.rep.obl("C17", st, at, "removed", first == (lo > 0), "LREM searches the list from the other end")
			}
		}
	}
}
