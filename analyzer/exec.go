package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	heads map[*ssa.BasicBlock]bool
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> blocks
	rpo   map[*ssa.BasicBlock]int
	last  map[*ssa.BasicBlock]int                // head -> greatest rpo of its loop
	live  map[*ssa.BasicBlock]map[ssa.Value]bool // live-in
	liveX map[[2]int]map[ssa.Value]bool
}

type Node struct {
	num     *Zone
	visits  int
	arch    map[string]bool
	checked map[T]bool
	item    *wlItem // queued, not yet processed
}

type Outcome struct {
	st  *State
	ret []T
}

type Root struct {
	name       string // e.g. command name
	fn         *ssa.Function
	kind       string // "cmd", ...
	variant    string
	outs       []Outcome
	steps      int
	incomplete bool
	okLens     map[[2]int64]bool
	alias      map[int]int
}

type Analysis struct {
	race       bool // other clients may act while no key lock is held
	prog       *ssa.Program
	pkgs       []*ssa.Package
	repoPk     map[*ssa.Package]bool
	loops      map[*ssa.Function]*loopInfo
	root       *Root
	table      map[hkey]*Node
	wl         *worklist
	local      []*State
	rep        *Reports
	pure       map[*ssa.Function]int // 1 pure, 2 not
	constG     map[*ssa.Global]T
	globTab    map[*ssa.Global][]tabEnt
	gInit      map[*ssa.Global]ssa.Value
	gStores    map[*ssa.Global]int
	multi      map[*ssa.Function]*multiLock
	globLen    map[*ssa.Global]int64
	pureRng    map[string][2]int64
	hooks      Hooks
	on         Callbacks
	slots      map[T]string
	storing    T // value being stored
	validConf  bool
	quiet      bool
	unroll     bool // loops with known bounds are unrolled
	debug      bool
	witness    bool // one arbitrary element of sets and hashes is followed
	coarse     bool // elements of slices are not told apart
	maxSteps   int
	until      time.Time // give up then
	seqNames   map[string]bool
	valueTypes map[string]bool
	visited    map[*ssa.Function]bool
}

// Hooks are the property rules' view of the execution.
type Hooks struct{}

// ---------- worklist ----------
type wlItem struct {
	st   *State
	vec  []int
	node *Node
}
type worklist []*wlItem

func (w worklist) Len() int { return len(w) }
func (w worklist) Less(i, j int) bool {
	a, b := w[i].vec, w[j].vec
	for k := 0; k < len(a) && k < len(b); k++ {
		if a[k] != b[k] {
			return a[k] < b[k]
		}
	}
	return len(a) > len(b)
}
func (w worklist) Swap(i, j int) { w[i], w[j] = w[j], w[i] }
func (w *worklist) Push(x any)   { *w = append(*w, x.(*wlItem)) }
func (w *worklist) Pop() any {
	o := *w
	x := o[len(o)-1]
	*w = o[:len(o)-1]
	return x
}

func (a *Analysis) vec(st *State) []int {
	var v []int
	for _, f := range st.frames {
		l := a.li(f.fn)
		p := 2 * l.rpo[f.blk]
		if f.back {
			// after every block of the loop, before its exits
			p = 2*l.last[f.blk] + 1
		}
		v = append(v, p, f.idx)
	}
	return v
}

// ---------- loop and liveness info ----------
func (a *Analysis) li(fn *ssa.Function) *loopInfo {
	if l, ok := a.loops[fn]; ok {
		return l
	}
	l := &loopInfo{heads: map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveX: map[[2]int]map[ssa.Value]bool{}}
	a.loops[fn] = l
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.heads[s] = true
				body := l.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.body[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	depth := func(b *ssa.BasicBlock) int {
		n := 0
		for _, body := range l.body {
			if body[b] {
				n++
			}
		}
		return n
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		l.rpo[b] = len(post) - i
	}
	l.last = map[*ssa.BasicBlock]int{}
	for h, body := range l.body {
		for b := range body {
			if l.rpo[b] > l.last[h] {
				l.last[h] = l.rpo[b]
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				for _, op := range ins.Operands(nil) {
					if *op != nil && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		l.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			in := l.live[b]
			n := len(in)
			for v := range use[b] {
				in[v] = true
			}
			for _, s := range b.Succs {
				for v := range l.live[s] {
					if !def[b][v] {
						in[v] = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if e := ph.Edges[pi]; !def[b][e] {
								in[e] = true
							}
						}
					}
				}
			}
			if len(in) != n {
				changed = true
			}
		}
	}
	return l
}

// liveAfter: registers needed from instruction idx on in block b (after phis).
func (a *Analysis) liveFrom(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := a.li(fn)
	k := [2]int{b.Index, idx}
	if r, ok := l.liveX[k]; ok {
		return r
	}
	r := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.live[s] {
			r[v] = true
		}
		for pi, p := range s.Preds {
			if p == b {
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					r[ph.Edges[pi]] = true
				}
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= idx; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(r, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				r[*op] = true
			}
		}
	}
	l.liveX[k] = r
	return r
}

// ---------- driver ----------
func (a *Analysis) run(root *Root, st *State, args []T) { a.runBound(root, st, args, nil) }

func (a *Analysis) runBound(root *Root, st *State, args, fv []T) {
	a.root = root
	a.table = map[hkey]*Node{}
	a.wl = &worklist{}
	fr := &Frame{fn: root.fn, blk: root.fn.Blocks[0], regs: map[ssa.Value]T{}, loops: map[*ssa.BasicBlock]map[T]T{}, peeled: map[*ssa.BasicBlock]bool{}}
	for i, p := range root.fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range root.fn.FreeVars {
		if i < len(fv) {
			fr.regs[p] = fv[i]
		}
	}
	st.frames = []*Frame{fr}
	a.visited[root.fn] = true
	a.submit(st)
	for a.wl.Len() > 0 {
		it := heap.Pop(a.wl).(*wlItem)
		it.node.item = nil
		a.local = []*State{it.st}
		for len(a.local) > 0 {
			s := a.local[len(a.local)-1]
			a.local = a.local[:len(a.local)-1]
			for !s.dead && s.num != nil {
				root.steps++
				if root.steps > a.maxSteps || root.steps%4096 == 0 && (!a.until.IsZero() && time.Now().After(a.until) || heapMB() > maxHeapMB) {
					root.incomplete = true
					return
				}
				if s.num.bot {
					break
				}
				if !a.step(s) {
					break
				}
			}
		}
	}
}

// submit merges a state into the table and queues it when it brings anything new.
func (a *Analysis) submit(st *State) {
	if st.num.bot || st.dead {
		return
	}
	for i, f := range st.frames {
		var live map[ssa.Value]bool
		live = a.liveFrom(f.fn, f.blk, f.idx)
		if i < len(st.frames)-1 {
			// the call's own result register is written on return
		}
		for v := range f.regs {
			if !live[v] {
				if _, isParam := v.(*ssa.Parameter); isParam && i == 0 {
					continue
				}
				delete(f.regs, v)
			}
		}
	}
	st.gc()
	for _, at := range append([]T(nil), st.num.atoms[1:]...) {
		if at.op == OSym && at.aux.(*Site).mlen {
			a.intrinsic(st, at)
		}
	}
	if st.num.bot {
		return
	}
	k := st.key(a)
	n, ok := a.table[k]
	if a.debug && len(st.frames) == 1 && a.li(st.top().fn).heads[st.top().blk] {
		fmt.Printf("SUBMIT %x new=%v\n", k[:4], !ok)
		st.dump()
	}
	if !ok {
		n := &Node{num: st.num.clone(), arch: map[string]bool{}, checked: map[T]bool{}}
		for x := range st.arch {
			n.arch[x] = true
		}
		for x := range st.checked {
			n.checked[x] = true
		}
		a.table[k] = n
		statAdd(st, 0)
		n.item = &wlItem{st: st, vec: a.vec(st), node: n}
		heap.Push(a.wl, n.item)
		return
	}
	grew := false
	for x := range st.arch {
		if !n.arch[x] {
			n.arch[x] = true
			grew = true
		}
	}
	for x := range n.checked {
		if !st.checked[x] {
			delete(n.checked, x)
			grew = true
		}
	}
	if st.num.leq(n.num) && !grew {
		statAdd(st, 2)
		return
	}
	statAdd(st, 1)
	for x := range n.arch {
		st.arch[x] = true
	}
	st.checked = map[T]bool{}
	for x := range n.checked {
		st.checked[x] = true
	}
	if n.item == nil {
		n.visits++
	}
	j := n.num.join(st.num, n.visits > 2)
	if n.visits > 60 {
		// give up on every relation that still moves
		for i := range j.m {
			for q := range j.m {
				if i != q && j.m[i][q] > n.num.maxDiff(atomAt(j, i), atomAt(j, q)) {
					j.m[i][q] = INF
				}
			}
		}
	}
	st.num = j
	for _, at := range append([]T(nil), j.atoms[1:]...) {
		a.intrinsic(st, at)
	}
	n.num = st.num.clone()
	if n.item != nil {
		n.item.st = st
		return
	}
	n.item = &wlItem{st: st, vec: a.vec(st), node: n}
	heap.Push(a.wl, n.item)
}

func atomAt(z *Zone, i int) T {
	if i == 0 {
		return mkInt(0)
	}
	return z.atoms[i]
}

// ---------- values ----------
func (a *Analysis) val(st *State, v ssa.Value) T {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		return mk(OGlobal, x, x.Type())
	case *ssa.Function:
		return mk(OFunc, x, x.Type())
	case *ssa.Builtin:
		return mk(OFunc, x.Name(), nil)
	}
	if t, ok := st.top().regs[v]; ok {
		return t
	}
	return a.sym(st, v, "undef", v.Type())
}

func constTerm(v constant.Value, typ types.Type) T {
	if b, ok := typ.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsInteger != 0 {
			v = constant.ToInt(v)
		}
	}
	return mkConst(v, typ)
}

func zeroOf(typ types.Type) T {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), typ)
		}
	}
	return mkNil(typ)
}

// site names what an instruction produces, apart for every unrolled iteration.
func (a *Analysis) site(st *State, at any, tag string) *Site {
	return mkSite(a.ctx(st), at, tag+st.top().itag)
}

func (a *Analysis) ctx(st *State) *Ctx { return st.top().ctx }

// sym returns the symbol for what an instruction produces, retiring its previous value.
func (a *Analysis) sym(st *State, at any, tag string, typ types.Type) T {
	site := a.site(st, at, tag)
	t := mk(OSym, site, typ)
	a.retire(st, t)
	return t
}

func (a *Analysis) obj(st *State, at any, tag string, typ types.Type) T {
	site := a.site(st, at, tag)
	t := mk(OObj, site, typ)
	a.retire(st, t)
	return t
}

func (a *Analysis) retire(st *State, t T) {
	if !st.mentions(t) {
		return
	}
	star := mk(OStar, t.aux, t.typ)
	st.renameSym(t, star)
}

func (s *State) mentions(x T) bool {
	for _, f := range s.frames {
		for _, v := range f.regs {
			if v.hasSym(x) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fn != nil && d.fn.hasSym(x) {
				return true
			}
			for _, y := range d.args {
				if y != nil && y.hasSym(x) {
					return true
				}
			}
		}
	}
	for k, v := range s.heap {
		if k.hasSym(x) || (v != nil && v.hasSym(x)) {
			return true
		}
	}
	for k := range s.facts {
		if k.hasSym(x) {
			return true
		}
	}
	for k, v := range s.slices {
		if k.hasSym(x) {
			return true
		}
		for _, it := range v.items {
			if it.hasSym(x) {
				return true
			}
		}
		for _, it := range v.seq {
			if it.hasSym(x) {
				return true
			}
		}
	}
	for k, v := range s.origin {
		if k.hasSym(x) || (v != nil && v.hasSym(x)) {
			return true
		}
	}
	for k, v := range s.mem {
		if k.hasSym(x) || (v.val != nil && v.val.hasSym(x)) {
			return true
		}
	}
	for k, v := range s.keys {
		if k.hasSym(x) || (v.val != nil && v.val.hasSym(x)) || (v.expVal != nil && v.expVal.hasSym(x)) {
			return true
		}
	}
	for _, h := range s.held {
		if h.lock.hasSym(x) {
			return true
		}
	}
	for k := range s.checked {
		if k.hasSym(x) {
			return true
		}
	}
	for i, at := range s.num.atoms {
		if i > 0 && at.hasSym(x) {
			return true
		}
	}
	return false
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

const maxLen = int64(1) << 48

func typeRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -INF, INF
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, INF
	}
	return -INF, INF
}

// ensure registers an integer term as an atom with the bounds of its kind.
func (a *Analysis) ensure(st *State, t T) {
	at, _ := lin(t)
	if at == nil {
		return
	}
	if _, ok := st.num.idx[at]; ok {
		return
	}
	st.num.atom(at)
	a.intrinsic(st, at)
}

// intrinsic adds the bounds every value of the atom's kind has.
func (a *Analysis) intrinsic(st *State, at T) {
	i := st.num.atom(at)
	lo, hi := -int64(INF), int64(INF)
	if at.typ != nil {
		lo, hi = typeRange(at.typ)
	}
	switch at.op {
	case OLen:
		lo, hi = 0, maxLen
		if t := at.args[0]; t.op == OCall && t.aux == "meth:ToRedisFormat" {
			lo = 1 // a type byte at least
		}
	case OCall:
		if at.aux == "pos" || at.aux == "rpos" {
			a.posFacts(st, at, 0)
			return
		}
		if r, ok := a.pureRng[at.aux.(string)]; ok {
			lo, hi = r[0], r[1]
		}
	case OLd:
		a.fieldInvariant(st, at)
	case OMLen:
		lo, hi = 0, maxLen
	case OSym:
		if at.aux.(*Site).mlen {
			lo, hi = 0, maxLen
		}
	}
	if lo != -INF {
		st.num.add(0, i, -lo)
	}
	if hi != INF {
		st.num.add(i, 0, hi)
	}
	if at.op == OLen {
		a.lenInvariant(st, at)
	}
}

func (a *Analysis) bounds(st *State, t T) (int64, int64) {
	a.ensure(st, t)
	return st.num.lower(t), st.num.upper(t)
}

// eq assumes x == y.
func (a *Analysis) eqNum(st *State, x, y T) {
	a.ensure(st, x)
	a.ensure(st, y)
	st.num.le(x, y, 0)
	st.num.le(y, x, 0)
	// parity transfer
	ax, cx := lin(x)
	ay, cy := lin(y)
	if ax != nil && ay == nil {
		return
	}
	if ax != nil && ay != nil {
		if p, ok := st.num.par[ay]; ok {
			st.num.setParity(ax, (p^int8((cy-cx)&1))&1)
		} else if p, ok := st.num.par[ax]; ok {
			st.num.setParity(ay, (p^int8((cy-cx)&1))&1)
		}
	}
}

func (a *Analysis) parityOf(st *State, t T) (int8, bool) {
	at, c := lin(t)
	if at == nil {
		return int8(c & 1), true
	}
	if p, ok := st.num.par[at]; ok {
		return (p ^ int8(c&1)) & 1, true
	}
	lo, hi := st.num.lower(at), st.num.upper(at)
	if lo == hi && lo != -INF {
		return int8((lo + c) & 1), true
	}
	return 0, false
}

// ---------- block transition ----------
func (a *Analysis) enter(st *State, to *ssa.BasicBlock) {
	fr := st.top()
	from := fr.blk
	l := a.li(fr.fn)
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// an If with both edges to one block
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	vals := make([]T, len(phis))
	for i, ph := range phis {
		vals[i] = a.val(st, ph.Edges[pi])
	}
	head := l.heads[to]
	back := head && to.Dominates(from)
	fr.prev = from
	fr.blk = to
	fr.back = back
	fr.idx = len(phis)
	for h := range fr.loops {
		if !l.body[h][to] {
			delete(fr.loops, h)
			delete(fr.peeled, h)
			delete(fr.iter, h)
		}
	}
	for h := range fr.iter {
		if !l.body[h][to] {
			delete(fr.iter, h)
		}
	}
	fr.retag()
	if a.posOn() && !a.coarse && a.loopExit(fr) && walksNodes(from, l) {
		st.flags[fmt.Sprintf("exit:%d:%d", to.Index, from.Index)] = true
	}
	if a.root.name == "lrem" && a.posOn() && !a.coarse && walksNodes(from, l) && !walksNodes(to, l) {
		st.flags["walked"] = true
	}
	if (a.root.name == "ltrim" || a.root.name == "lrange") && a.posOn() && !a.coarse && len(phis) == 0 && len(to.Preds) > 1 && !head && orBlock(to) {
		st.flags[fmt.Sprintf("or:%d:%d:%d", in.ptr(fr.fn), to.Index, from.Index)] = true
	}
	if !head {
		for i, ph := range phis {
			fr.regs[ph] = vals[i]
		}
		if len(to.Preds) == 1 {
			a.local = append(a.local, st)
			return
		}
		a.submit(st)
		return
	}
	if !back {
		snap := make(map[T]T, len(st.heap))
		for k, v := range st.heap {
			snap[k] = v
		}
		fr.loops[to] = snap
		fr.peeled[to] = false
	} else {
		fr.peeled[to] = true
	}
	a.atLoopHead(st, to)
	lim := 5
	if a.unroll {
		lim = 12
	}
	if !a.coarse && fr.iter[to] < lim && a.constLoop(st, to, phis, vals) {
		if fr.iter == nil {
			fr.iter = map[*ssa.BasicBlock]int{}
		}
		fr.iter[to]++
		fr.retag()
		for i, ph := range phis {
			fr.regs[ph] = vals[i]
		}
		fr.peeled[to] = false
		if !back {
			a.local = append(a.local, st)
			return
		}
		a.submit(st)
		return
	}
	delete(fr.iter, to)
	fr.retag()

	type pend struct {
		set   func(T)
		tmp   T
		final T
	}
	var ps []pend
	tmpN := 0
	general := func(v T, typ types.Type, at any, tag string, set func(T)) {
		site := mkSite(fr.ctx, at, tag+fr.itag)
		if strings.HasPrefix(tag, "cell") {
			id, _ := strconv.Atoi(tag[4:])
			site.mlen = id > 0 && in.all[id-1].op == OMLen
		}
		final := mk(OSym, site, typ)
		tmp := mk(OSym, mkSite(fr.ctx, at, tag+fr.itag+"!tmp"), typ)
		tmpN++
		if isInt(typ) {
			a.ensure(st, v)
			p, okp := a.parityOf(st, v)
			st.num.dup(tmp, v)
			if okp {
				st.num.setParity(tmp, p)
			}
		} else if isSlice(typ) {
			if inf := a.sliceInfo(st, v); inf != nil {
				if inf.hasSeq {
					c := *inf
					c.hasSeq, c.seq = false, nil
					inf = &c
				}
				st.slices[tmp] = inf
				if inf.wok && len(inf.w) == 1 && inf.w != "?" {
					a.ensure(st, wposOf(v))
					st.num.dup(wposOf(tmp), wposOf(v))
				}
			}
			lt := a.lenTerm(st, v)
			a.ensure(st, lt)
			tl := mk(OLen, nil, types.Typ[types.Int], tmp)
			st.num.dup(tl, lt)
		} else if nil_, ok := a.isNil(st, v, typ); a.posOn() && isNodeType(typ) && ok && !nil_ {
			a.ensure(st, posOf(v))
			st.num.dup(posOf(tmp), posOf(v))
			a.ensure(st, rposOf(v))
			st.num.dup(rposOf(tmp), rposOf(v))
		}
		if o := a.rootOf(st, v); o != nil && o != v {
			st.origin[tmp] = o
		} else if o != nil && (o.op == OSV || o.op == OObj || o.op == ORoot) && !isInt(typ) {
			st.origin[tmp] = o
		}
		set(tmp)
		ps = append(ps, pend{set, tmp, final})
	}
	for i, ph := range phis {
		ph := ph
		v := vals[i]
		set := func(t T) { fr.regs[ph] = t }
		typ := ph.Type()
		switch {
		case isInt(typ):
			general(v, typ, ph, "", set)
		case isSlice(typ):
			if !back && v.op == ORoot {
				set(v)
			} else {
				general(v, typ, ph, "", set)
			}
		case v.isConst() || v.op == OObj || v.op == OStar || !back:
			if v.op == OBin || v.op == OSym && isBool(typ) {
				general(v, typ, ph, "", set)
			} else {
				set(v)
			}
		case v.op == OIface && (v.args[0].op == OObj || v.args[0].op == OStar):
			set(v)
		default:
			general(v, typ, ph, "", set)
		}
	}
	if back {
		snap := fr.loops[to]
		var cells []T
		for c := range st.heap {
			cells = append(cells, c)
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		for _, c := range cells {
			c := c
			v := st.heap[c]
			if c.hasStar || v == nil {
				continue
			}
			e, ok := snap[c]
			if !ok {
				e = a.initialCell(st, c)
			}
			if e == v {
				continue
			}
			typ := cellType(c)
			set := func(t T) { st.heap[c] = t }
			tag := fmt.Sprintf("cell%d", c.id)
			switch {
			case isInt(typ):
				general(v, typ, to, tag, set)
			case isSlice(typ):
				general(v, typ, to, tag, set)
			case v.isConst() || v.op == OObj || v.op == OStar || v.op == OFunc:
			case v.op == OIface && (v.args[0].op == OObj || v.args[0].op == OStar || v.args[0].isConst()):
			case v.op == OSV || v.op == OCast || v.op == ORoot:
			default:
				general(v, typ, to, tag, set)
			}
		}
	}
	for _, p := range ps {
		if st.mentions(p.final) {
			st.renameSym(p.final, mk(OStar, p.final.aux, p.final.typ))
		}
	}
	for _, p := range ps {
		st.renameSym(p.tmp, p.final)
		// renameSym substitutes in regs and heap
	}
	a.submit(st)
}

// constLoop: the head's condition compares a counter of known value with a known bound.
func (a *Analysis) constLoop(st *State, to *ssa.BasicBlock, phis []*ssa.Phi, vals []T) bool {
	iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bin, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// a variable a closure captured is read anew each time
	cell := func(v ssa.Value) (T, bool) {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || ld.Block() != to {
			return nil, false
		}
		switch ld.X.(type) {
		case *ssa.FreeVar, *ssa.Alloc:
		default:
			return nil, false
		}
		addr, ok := st.top().regs[ld.X]
		if !ok {
			return nil, false
		}
		t, ok := st.heap[addr]
		return t, ok
	}
	var known func(v ssa.Value, d int) bool
	known = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		for i, ph := range phis {
			if v == ph {
				_, ok := vals[i].constInt()
				return ok
			}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return isInt(x.Type())
		case *ssa.BinOp:
			if x.Block() == to {
				return known(x.X, d+1) && known(x.Y, d+1)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && x.Block() == to {
				arg := x.Call.Args[0]
				var t T
				for i, ph := range phis {
					if arg == ph {
						t = vals[i]
					}
				}
				if t == nil {
					if _, isMap := arg.Type().Underlying().(*types.Map); isMap {
						return false
					}
					var ok bool
					if t, ok = cell(arg); !ok {
						if t, ok = st.top().regs[arg]; !ok {
							return false
						}
					}
				}
				lo, hi := a.bounds(st, a.lenTerm(st, t))
				return lo == hi
			}
		}
		t, ok := cell(v)
		if !ok {
			t, ok = st.top().regs[v]
		}
		if !ok || !isInt(v.Type()) {
			return false
		}
		if _, isc := t.constInt(); isc {
			return true
		}
		lo, hi := a.bounds(st, t)
		return lo == hi && lo != -INF
	}
	switch bin.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
		return known(bin.X, 0) && known(bin.Y, 0)
	}
	return false
}

func (f *Frame) retag() {
	f.itag = ""
	if len(f.iter) == 0 {
		return
	}
	var hs []*ssa.BasicBlock
	for h := range f.iter {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for _, h := range hs {
		f.itag += fmt.Sprintf("#%d.%d", h.Index, f.iter[h])
	}
}

func cellType(c T) types.Type {
	switch c.op {
	case OMLen:
		return types.Typ[types.Int]
	case OGhost:
		return c.typ
	}
	return addrElemType(c)
}

func (a *Analysis) initialCell(st *State, c T) T {
	switch c.op {
	case OMLen:
		return mk(OLd, nil, types.Typ[types.Int], c)
	case OGhost:
		return zeroOf(c.typ)
	}
	if r := rootObj(c); r != nil && r.op == OObj {
		if t := addrElemType(c); t != nil {
			return zeroOf(t)
		}
	}
	return mk(OLd, nil, addrElemType(c), c)
}

func rootObj(t T) T {
	for {
		switch t.op {
		case OFA, OIA, OSub:
			t = t.args[0]
		default:
			return t
		}
	}
}

// ---------- stepping ----------
// step executes one instruction; false when st must not be continued by the caller.
func (a *Analysis) step(st *State) bool {
	fr := st.top()
	ins := fr.blk.Instrs[fr.idx]
	if a.debug {
		fmt.Printf("   [%d] %s b%d.%d %v\n", len(st.frames), fr.fn.Name(), fr.blk.Index, fr.idx, ins)
	}
	switch x := ins.(type) {
	case *ssa.If:
		c := a.val(st, x.Cond)
		a.branch(st, x, c)
		return false
	case *ssa.Jump:
		a.enter(st, fr.blk.Succs[0])
		return false
	case *ssa.Return:
		a.doReturn(st, x)
		return false
	case *ssa.Panic:
		a.rep.obl("C10", st, x, "panic", false, "explicit panic is reachable")
		return false
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.idx++
			return true
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return a.doCall(st, d.instr, d.call, d.fn, d.args, nil)
	case *ssa.Defer:
		fn, args := a.resolveCall(st, &x.Call)
		same := 0
		for i := range fr.defers {
			if fr.defers[i].instr == x {
				same++
			}
		}
		if same >= 4 {
			// deferred again and again in a loop: the first ones stand for all
			fr.idx++
			return true
		}
		fr.defers = append(fr.defers, Deferred{instr: x, fn: fn, call: &x.Call, args: args})
		fr.idx++
		return true
	case *ssa.Go:
		fn, args := a.resolveCall(st, &x.Call)
		a.onGo(st, x, fn, args)
		fr.idx++
		return true
	case *ssa.Call:
		fn, args := a.resolveCall(st, &x.Call)
		fr.idx++ // return address
		return a.doCall(st, x, &x.Call, fn, args, x)
	case *ssa.DebugRef:
		fr.idx++
		return true
	}
	fr.idx++
	return a.simple(st, ins)
}

func (a *Analysis) set(st *State, v ssa.Value, t T) { st.top().regs[v] = t }

// fork continues with the given states.
func (a *Analysis) fork(sts ...*State) bool {
	for _, s := range sts {
		if s != nil && !s.dead && !s.num.bot {
			a.local = append(a.local, s)
		}
	}
	return false
}

func (a *Analysis) branch(st *State, x *ssa.If, c T) {
	b := st.top().blk
	if v, ok := c.constBool(); ok {
		if v {
			a.enter(st, b.Succs[0])
		} else {
			a.enter(st, b.Succs[1])
		}
		return
	}
	s2 := st.clone()
	for i, s := range []*State{st, s2} {
		if a.assume(s, c, i == 0) {
			p := x.Cond.Pos()
			if p == token.NoPos {
				p = blockPos(b)
			}
			s.note(p, map[bool]string{true: "true", false: "false"}[i == 0])
			a.enter(s, b.Succs[i])
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p != token.NoPos {
			return p
		}
	}
	return token.NoPos
}

func (a *Analysis) doReturn(st *State, x *ssa.Return) {
	var rs []T
	for _, r := range x.Results {
		rs = append(rs, a.val(st, r))
	}
	fr := st.top()
	if len(st.frames) == 1 {
		a.finish(st, x, rs)
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	var res T
	if len(rs) == 1 {
		res = rs[0]
	} else if len(rs) > 1 {
		res = mk(OTuple, nil, nil, rs...)
	}
	caller := st.top()
	if fr.call != nil && res != nil {
		caller.regs[fr.call] = res
	}
	a.submit(st)
}

func (a *Analysis) resolveCall(st *State, c *ssa.CallCommon) (T, []T) {
	var args []T
	for _, x := range c.Args {
		args = append(args, a.val(st, x))
	}
	if c.IsInvoke() {
		recv := a.val(st, c.Value)
		return nil, append([]T{recv}, args...)
	}
	return a.val(st, c.Value), args
}

// doCall dispatches; the frame's idx already points past the call (except for RunDefers).
func (a *Analysis) doCall(st *State, at ssa.Instruction, c *ssa.CallCommon, fn T, args []T, res ssa.Value) bool {
	if c.IsInvoke() {
		recv := args[0]
		if recv.op == OIface {
			if m := a.findMethod(recv.args[0].typ, c.Method); m != nil {
				return a.callFn(st, at, m, nil, append([]T{recv.args[0]}, args[1:]...), res)
			}
		}
		if recv.isNil() {
			a.rep.obl("C10", st, at, "nil-call", false, "method call on a nil interface")
			return false
		}
		return a.invokeModel(st, at, c, args, res)
	}
	switch fn.op {
	case OFunc:
		if n, ok := fn.aux.(string); ok {
			return a.builtin(st, at, n, c, args, res)
		}
		return a.callFn(st, at, fn.aux.(*ssa.Function), nil, args, res)
	case OClosure:
		return a.callFn(st, at, fn.aux.(*ssa.Function), fn.args, args, res)
	}
	if fn.isNil() {
		a.rep.obl("C10", st, at, "nil-call", false, "call of a nil function")
		return false
	}
	return a.dynCall(st, at, c, fn, args, res)
}

func (a *Analysis) findMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := a.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return a.prog.MethodValue(sel)
}

func (a *Analysis) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return a.repoPk[fn.Pkg]
	}
	if fn.Parent() != nil {
		return a.inRepo(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		for p := range a.repoPk {
			if p.Pkg == fn.Object().Pkg() {
				return true
			}
		}
	}
	if fn.Synthetic != "" && fn.Signature.Recv() != nil {
		// promoted / wrapper methods of repo types
		return strings.Contains(fn.Signature.Recv().Type().String(), modPath+"/")
	}
	return false
}

func (a *Analysis) callFn(st *State, at ssa.Instruction, fn *ssa.Function, bind []T, args []T, res ssa.Value) bool {
	if !a.inRepo(fn) || len(fn.Blocks) == 0 {
		return a.model(st, at, fn, args, res)
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "logger" && !a.seqNames["logger"] {
		a.onLog(st, at, fn, args)
		a.setRes(st, at, res, fn.Signature, "log")
		return true
	}
	if a.isPure(fn) && a.root.fn != fn {
		t := mk(OCall, fnName(fn), resType(fn.Signature), args...)
		if res != nil {
			a.set(st, res, t)
		}
		return true
	}
	if ml := a.multiLockOf(fn); ml != nil && !a.seqNames["rawlocks"] {
		if ml.param < len(args) {
			a.lockOp(st, at, mk(OGhost, "allof", nil, args[ml.param], args[0]), ml.op, "key")
			a.setRes(st, at, res, fn.Signature, "ml")
			return true
		}
	}
	for _, f := range st.frames {
		if f.fn == fn {
			// recursion: unknown result
			a.setRes(st, at, res, fn.Signature, "rec")
			a.onRecursion(st, at, fn)
			return true
		}
	}
	if len(st.frames) > 24 {
		a.root.incomplete = true
		return false
	}
	a.visited[fn] = true
	var ctx *Ctx
	ctx = mkCtxTag(st.top().ctx, at, st.top().itag)
	nf := &Frame{fn: fn, ctx: ctx, blk: fn.Blocks[0], regs: map[ssa.Value]T{}, loops: map[*ssa.BasicBlock]map[T]T{}, peeled: map[*ssa.BasicBlock]bool{}, call: res}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.regs[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.regs[fv] = bind[i]
		}
	}
	st.frames = append(st.frames, nf)
	return true
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return nil
}

// setRes gives the call an unknown result.
func (a *Analysis) setRes(st *State, at ssa.Instruction, res ssa.Value, sig *types.Signature, tag string) {
	if res == nil {
		return
	}
	n := sig.Results().Len()
	switch n {
	case 0:
		return
	case 1:
		a.set(st, res, a.sym(st, at, tag, sig.Results().At(0).Type()))
	default:
		var ts []T
		for i := 0; i < n; i++ {
			ts = append(ts, a.sym(st, at, fmt.Sprintf("%s%d", tag, i), sig.Results().At(i).Type()))
		}
		a.set(st, res, mk(OTuple, nil, nil, ts...))
	}
}

// a worker that needs more memory than this gives up on its entry point
const maxHeapMB = 3000

func heapMB() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return s[0].Value.Uint64() >> 20
}
