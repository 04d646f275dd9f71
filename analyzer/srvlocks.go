package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Three-valued answers of the dataflow rules: only a definite no is a violation.
type tri int

const (
	dunno tri = iota
	yes
	no
)

// env binds the parameters and free variables of the functions being looked through.
type env struct {
	up   *env
	bind map[ssa.Value]ssa.Value
}

func (e *env) lookup(v ssa.Value) (ssa.Value, *env) {
	if e == nil {
		return v, nil
	}
	if b, ok := e.bind[v]; ok {
		return b, e.up
	}
	return v, e
}

// resolve follows parameters, single-store cells, conversions and trivial phis.
func resolveV(v ssa.Value, e *env) (ssa.Value, *env) {
	for i := 0; i < 40; i++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			b, up := e.lookup(v)
			if b == v {
				return v, e
			}
			v, e = b, up
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				cell, ce := resolveV(x.X, e)
				if al, ok := cell.(*ssa.Alloc); ok {
					if s := onlyStore(al); s != nil {
						v, e = s, ce
						continue
					}
				}
			}
			return v, e
		case *ssa.Phi:
			var one ssa.Value
			for _, ed := range x.Edges {
				if ed == x {
					continue
				}
				if one != nil && one != ed {
					return v, e
				}
				one = ed
			}
			if one == nil {
				return v, e
			}
			v = one
			continue
		}
		return v, e
	}
	return v, e
}

// onlyStore: the single value ever stored into a local cell.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			val = s.Val
			n++
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

// lenOf: v is len(s)+k of a slice; returns the slice and k.
func lenOf(v ssa.Value, e *env) (ssa.Value, int64, bool) {
	v, e = resolveV(v, e)
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			s, _ := resolveV(x.Call.Args[0], e)
			return s, 0, true
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && isInt(c.Type()) {
			if s, k, ok := lenOf(x.X, e); ok {
				switch x.Op {
				case token.ADD:
					return s, k + c.Int64(), true
				case token.SUB:
					return s, k - c.Int64(), true
				}
			}
		}
	}
	return nil, 0, false
}

func constI(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || !isInt(c.Type()) {
		return 0, false
	}
	return c.Int64(), true
}

type loopUse struct {
	full tri
	down bool
	head *ssa.BasicBlock
}

// covers: the index idx runs over all positions of a slice (recognised by isLen).
func (a *Analysis) covers(idx ssa.Value, isLen func(ssa.Value) (int64, bool)) loopUse {
	// mirrored: len-1-j
	if b, ok := idx.(*ssa.BinOp); ok && b.Op == token.SUB {
		add, m := int64(0), b
		if c, ok := constI(b.Y); ok {
			if x, ok := b.X.(*ssa.BinOp); ok && x.Op == token.SUB {
				add, m = -c, x
			}
		}
		if k, ok := isLen(m.X); ok {
			if u := a.covers(m.Y, isLen); u.head != nil {
				u.down = !u.down
				if k+add != -1 {
					u.full = dunno
				}
				return u
			}
		}
	}
	off := int64(0)
	v := idx
	var inc *ssa.BinOp
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := constI(b.Y); ok {
			off, v, inc = c, b.X, b
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return loopUse{}
	}
	fn := ph.Parent()
	l := a.li(fn)
	h := ph.Block()
	if !l.heads[h] {
		return loopUse{}
	}
	var init ssa.Value
	step := int64(0)
	for i, e := range ph.Edges {
		if h.Dominates(h.Preds[i]) {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(ph) {
				return loopUse{}
			}
			c, ok := constI(b.Y)
			if !ok {
				return loopUse{}
			}
			if b.Op == token.SUB {
				c = -c
			} else if b.Op != token.ADD {
				return loopUse{}
			}
			if step != 0 && step != c {
				return loopUse{}
			}
			step = c
		} else {
			if init != nil && init != e {
				return loopUse{}
			}
			init = e
		}
	}
	// the only way out is the head's test
	for b := range l.body[h] {
		for _, s := range b.Succs {
			if !l.body[h][s] && b != h {
				return loopUse{}
			}
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return loopUse{}
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return loopUse{}
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if !l.body[h][h.Succs[0]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	cnt := func(v ssa.Value) bool { return v == ssa.Value(ph) || inc != nil && v == ssa.Value(inc) }
	if !cnt(x) {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if !cnt(x) {
		return loopUse{}
	}
	// value of the index in terms of the compared counter
	cmpOff := int64(0)
	if x == ssa.Value(ph) {
		cmpOff = off // idx = x + off
	}
	switch {
	case step == 1:
		c0, ok := constI(init)
		if !ok {
			return loopUse{}
		}
		k, ok := isLen(y)
		if !ok {
			return loopUse{}
		}
		first := c0 + off
		var last int64 // last index relative to len
		switch op {
		case token.LSS, token.NEQ:
			last = k - 1 + cmpOff
		case token.LEQ:
			last = k + cmpOff
		default:
			return loopUse{}
		}
		u := loopUse{full: no, head: h}
		if first == 0 && last == -1 {
			u.full = yes
		} else if first < 0 || last > -1 {
			u.full = dunno
		}
		return u
	case step == -1:
		k, ok := isLen(init)
		if !ok {
			return loopUse{}
		}
		c, ok := constI(y)
		if !ok {
			return loopUse{}
		}
		first := k + off // relative to len
		var last int64
		switch op {
		case token.GEQ:
			last = c + cmpOff
		case token.GTR, token.NEQ:
			last = c + 1 + cmpOff
		default:
			return loopUse{}
		}
		u := loopUse{full: no, down: true, head: h}
		if first == -1 && last == 0 {
			u.full = yes
		} else if first > -1 || last < 0 {
			u.full = dunno
		}
		return u
	case step > 1:
		return loopUse{full: no, head: h}
	}
	return loopUse{}
}

// always: the instruction's block is passed in every round of the loop.
func (a *Analysis) always(b, head *ssa.BasicBlock) bool {
	for i, p := range head.Preds {
		_ = i
		if head.Dominates(p) && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// ---------- where lock positions come from ----------

type posSeq struct {
	covers   tri
	distinct tri
	order    string // asc, desc, none, ""
	expr     string // the position function
	why      string
}

type lockDF struct {
	a *Analysis
	P *Program
}

// posExpr renders how a lock position is computed from a key, with the key as K.
func (d *lockDF) posExpr(v ssa.Value, e *env, key *ssa.Value, depth int) string {
	if depth > 30 {
		return "?"
	}
	v, e = resolveV(v, e)
	rec := func(x ssa.Value) string { return d.posExpr(x, e, key, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.Parameter:
		if isString(x.Type()) {
			*key = x
			return "K"
		}
		if _, ok := x.Type().Underlying().(*types.Pointer); ok {
			return "recv"
		}
		return "?"
	case *ssa.BinOp:
		return "(" + rec(x.X) + x.Op.String() + rec(x.Y) + ")"
	case *ssa.Convert:
		return x.Type().String() + "(" + rec(x.X) + ")"
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			var as []string
			for _, y := range x.Call.Args {
				as = append(as, rec(y))
			}
			return b.Name() + "(" + strings.Join(as, ",") + ")"
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return "?"
		}
		if d.a.inRepo(f) && len(f.Blocks) == 1 && !strings.HasSuffix(fnName(f), ".Hash") {
			if rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				ne := &env{up: e, bind: map[ssa.Value]ssa.Value{}}
				for i, p := range f.Params {
					ne.bind[p] = x.Call.Args[i]
				}
				return d.posExpr(rt.Results[0], ne, key, depth+1)
			}
		}
		var as []string
		for _, y := range x.Call.Args {
			as = append(as, rec(y))
		}
		return fnName(f) + "(" + strings.Join(as, ",") + ")"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch ad := x.X.(type) {
			case *ssa.FieldAddr:
				return rec(ad.X) + "." + fmt.Sprint(ad.Field)
			case *ssa.IndexAddr:
				if isString(x.Type()) {
					s, _ := resolveV(ad.X, e)
					if sl, ok := s.Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
						*key = x
						return "K"
					}
				}
			}
		}
		return "?"
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// the argument list of a variadic call
			var as []string
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							as = append(as, rec(s.Val))
						}
					}
				}
			}
			return "[" + strings.Join(as, ",") + "]"
		}
		return "?"
	case *ssa.Extract:
		return "?"
	}
	return "?"
}

// isPos: v is the lock position of the key at some index of the list of keys.
func (d *lockDF) isPos(v ssa.Value, e *env, keys ssa.Value) (idx ssa.Value, expr string, ok bool) {
	var key ssa.Value
	ex := d.posExpr(v, e, &key, 0)
	if key == nil || !strings.Contains(ex, "K") || !isInt(v.Type()) {
		return nil, "", false
	}
	if u, isU := key.(*ssa.UnOp); isU {
		if ia, isI := u.X.(*ssa.IndexAddr); isI {
			return ia.Index, ex, true
		}
	}
	return nil, ex, true
}

// guard: what keeps an instruction from being passed in each round of a loop.
func (d *lockDF) guard(b, head *ssa.BasicBlock) string {
	if d.a.always(b, head) {
		return ""
	}
	l := d.a.li(b.Parent())
	kinds := map[string]bool{}
	for x := range l.body[head] {
		if x == head || len(x.Succs) != 2 || !x.Dominates(b) {
			continue
		}
		iff := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if edgeDom(x.Succs[0], b) || edgeDom(x.Succs[1], b) {
			kinds[d.condKind(iff.Cond, 0)] = true
		}
	}
	if len(kinds) == 1 {
		for k := range kinds {
			return k
		}
	}
	return "other"
}

func edgeDom(s, b *ssa.BasicBlock) bool { return len(s.Preds) == 1 && s.Dominates(b) }

func (d *lockDF) condKind(v ssa.Value, depth int) string {
	if depth > 6 {
		return "other"
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && lk.CommaOk {
			return "dedupe"
		}
	case *ssa.Lookup:
		return "dedupe"
	case *ssa.UnOp:
		return d.condKind(x.X, depth+1)
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok {
			return "const"
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			return "dedupe"
		}
	}
	return "other"
}

// slice classifies the list of positions v as it is at instruction use.
func (d *lockDF) slice(v ssa.Value, e *env, use ssa.Instruction, depth int) posSeq {
	if depth > 6 {
		return posSeq{why: "too deep"}
	}
	v, e = resolveV(v, e)
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && d.a.inRepo(f) && len(f.Blocks) > 0 {
			d.a.visited[f] = true
			ne := &env{up: e, bind: map[ssa.Value]ssa.Value{}}
			for i, p := range f.Params {
				ne.bind[p] = c.Call.Args[i]
			}
			var out *posSeq
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(rt.Results) == 0 {
					continue
				}
				if cn, ok := rt.Results[0].(*ssa.Const); ok && cn.IsNil() {
					continue
				}
				q := d.slice(rt.Results[0], ne, rt, depth+1)
				if out != nil && *out != q {
					return posSeq{why: "several results"}
				}
				out = &q
			}
			if out != nil {
				// what the caller does to it afterwards
				return d.after(*out, v, c.Parent(), use)
			}
			return posSeq{}
		}
		if f := c.Call.StaticCallee(); f != nil {
			switch fnName(f) {
			case "slices.Compact":
				q := d.slice(c.Call.Args[0], e, c, depth+1)
				if q.order == "asc" || q.order == "desc" {
					q.distinct = yes
				}
				return q
			}
		}
	}
	// the local list: everything that flows into it
	al := aliases(v)
	var fn *ssa.Function
	if ins, ok := v.(ssa.Instruction); ok {
		fn = ins.Parent()
	}
	if fn == nil {
		return posSeq{why: "not local"}
	}
	q := posSeq{}
	n := 0
	var fills []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var srcs []ssa.Value
			switch x := ins.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && al[ia.X] {
					if ld, ok := x.Val.(*ssa.UnOp); ok {
						if ia2, ok := ld.X.(*ssa.IndexAddr); ok && al[ia2.X] {
							return posSeq{why: "permuted by hand"}
						}
					}
					srcs = append(srcs, x.Val)
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && al[ssa.Value(x)] {
					if !al[x.Call.Args[0]] {
						return posSeq{why: "appended to another list"}
					}
					vs, ok := variadic(x.Call.Args[1])
					if !ok {
						return posSeq{why: "appended list"}
					}
					srcs = append(srcs, vs...)
				}
			}
			for _, s := range srcs {
				one := d.source(s, e, ins)
				n++
				fills = append(fills, ins)
				if n > 1 {
					return posSeq{why: "several fills"}
				}
				q = one
			}
		}
	}
	if n == 0 {
		return posSeq{why: "no fill"}
	}
	return d.after(q, v, fn, use, fills...)
}

// reaches: control can go from instruction x to instruction y.
func flowsTo(x, y ssa.Instruction) bool {
	if x.Block() == y.Block() && before(x, y) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == y.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(x.Block())
}

// shortList: the block is skipped only for lists of at most one element.
func shortList(b, use *ssa.BasicBlock) tri {
	p := b.Idom()
	if p == nil || !p.Dominates(use) || len(p.Succs) != 2 || len(b.Preds) != 1 {
		return dunno
	}
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return dunno
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return dunno
	}
	_, k, okl := lenOf(c.X, nil)
	n, okc := constI(c.Y)
	if !okl || !okc {
		return dunno
	}
	op := c.Op
	if p.Succs[1] == b {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	n -= k
	switch op {
	case token.GTR:
		n++
	case token.GEQ:
	case token.NEQ:
		if n == 0 || n == 1 {
			return yes
		}
		return no
	default:
		return no
	}
	if n <= 2 {
		return yes
	}
	return no
}

// after applies the sorting done on a list between its making and its use.
func (d *lockDF) after(q posSeq, v ssa.Value, fn *ssa.Function, use ssa.Instruction, fills ...ssa.Instruction) posSeq {
	al := aliases(v)
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil {
				continue
			}
			if d.a.inRepo(f) {
				continue
			}
			for _, arg := range c.Call.Args {
				x := arg
				for i := 0; i < 4; i++ {
					switch y := x.(type) {
					case *ssa.MakeInterface:
						x = y.X
						continue
					case *ssa.ChangeType:
						x = y.X
						continue
					}
					break
				}
				rev := false
				if rc, ok := x.(*ssa.Call); ok {
					if rf := rc.Call.StaticCallee(); rf != nil && rf.String() == "sort.Reverse" {
						rev = true
						x = rc.Call.Args[0]
						for i := 0; i < 4; i++ {
							switch y := x.(type) {
							case *ssa.MakeInterface:
								x = y.X
								continue
							case *ssa.ChangeType:
								x = y.X
								continue
							}
							break
						}
					}
				}
				if !al[x] {
					continue
				}
				dom := ins.Block().Dominates(use.Block()) && (ins.Block() != use.Block() || before(ins, use))
				if !dom {
					switch shortList(ins.Block(), use.Block()) {
					case dunno:
						q.order = ""
						continue
					case no:
						continue
					}
				}
				late := false
				for _, f := range fills {
					late = late || flowsTo(ins, f)
				}
				if late {
					continue
				}
				switch name := fnName(f); name {
				case "sort.Ints", "slices.Sort", "sort.Sort", "sort.Stable":
					q.order = "asc"
					if rev {
						q.order = "desc"
					}
				case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
					q.order = lessOrder(c.Call.Args[len(c.Call.Args)-1], al)
				case "slices.Reverse":
					switch q.order {
					case "asc":
						q.order = "desc"
					case "desc":
						q.order = "asc"
					}
				case "sort.SearchInts", "sort.IntsAreSorted", "slices.Contains", "slices.BinarySearch", "fmt.Sprint", "fmt.Println":
				default:
					q.order, q.distinct, q.covers = "", dunno, dunno
					q.why = "given to " + name
				}
			}
		}
	}
	// cut to a fixed length
	for x := range al {
		if y, ok := x.(*ssa.Slice); ok && isSlice(y.X.Type()) && al[y.X] {
			if h, ok := constI2(y.High); ok && h >= 2 {
				q.covers = no
			}
		}
	}
	return q
}

func before(x, y ssa.Instruction) bool {
	for _, i := range x.Block().Instrs {
		if i == x {
			return true
		}
		if i == y {
			return false
		}
	}
	return false
}

// lessOrder: the order a comparison function gives, when it compares the elements themselves.
func lessOrder(v ssa.Value, al map[ssa.Value]bool) string {
	var f *ssa.Function
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Blocks) != 1 {
		return ""
	}
	rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return ""
	}
	b, ok := rt.Results[0].(*ssa.BinOp)
	if !ok || len(f.Params) != 2 {
		return ""
	}
	par := func(v ssa.Value) int {
		for i, p := range f.Params {
			if v == ssa.Value(p) {
				return i
			}
			if u, ok := v.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.Index == ssa.Value(p) && isInt(u.Type()) {
					return i
				}
			}
		}
		return -1
	}
	x, y := par(b.X), par(b.Y)
	if x < 0 || y < 0 || x == y {
		return ""
	}
	up := b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.SUB
	down := b.Op == token.GTR || b.Op == token.GEQ
	if x == 1 {
		up, down = down, up
	}
	switch {
	case up:
		return "asc"
	case down:
		return "desc"
	}
	return ""
}

// variadic lists the elements of the implicit argument array of append.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out, true
}

// aliases: the values that are the same local list (phis, appends, re-slices, its cell).
func aliases(v ssa.Value) map[ssa.Value]bool {
	set := map[ssa.Value]bool{}
	var add func(x ssa.Value)
	add = func(x ssa.Value) {
		if x == nil || set[x] {
			return
		}
		if _, ok := x.(*ssa.Const); ok {
			return
		}
		set[x] = true
		switch y := x.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				add(e)
			}
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				add(y.Call.Args[0])
			}
		case *ssa.Slice:
			if isSlice(y.X.Type()) {
				add(y.X)
			}
		case *ssa.UnOp:
			if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
				for _, r := range *al.Referrers() {
					switch z := r.(type) {
					case *ssa.Store:
						if z.Addr == ssa.Value(al) {
							add(z.Val)
						}
					case *ssa.UnOp:
						add(z)
					}
				}
			}
		}
		if rs := x.Referrers(); rs != nil {
			for _, r := range *rs {
				switch z := r.(type) {
				case *ssa.Phi:
					add(z)
				case *ssa.Call:
					if b, ok := z.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && z.Call.Args[0] == x {
						add(z)
					}
				case *ssa.Slice:
					if isSlice(x.Type()) {
						add(z)
					}
				case *ssa.Store:
					if al, ok := z.Addr.(*ssa.Alloc); ok && z.Val == x {
						for _, r2 := range *al.Referrers() {
							if u, ok := r2.(*ssa.UnOp); ok {
								add(u)
							}
						}
					}
				}
			}
		}
	}
	add(v)
	return set
}

// source classifies the positions put into a list by one instruction in a loop.
func (d *lockDF) source(s ssa.Value, e *env, at ssa.Instruction) posSeq {
	s, e2 := resolveV(s, e)
	if ex, ok := s.(*ssa.Extract); ok {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 1 {
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				return posSeq{}
			}
			q := d.mapKeys(rg.X, e2)
			q.order = "none"
			if g := d.guard(at.Block(), nx.Block()); g == "const" {
				q.covers = no
			} else if g != "" {
				q.covers = dunno
			}
			return q
		}
	}
	if idx, expr, ok := d.isPos(s, e2, nil); ok {
		q := posSeq{order: "none", distinct: no, expr: expr}
		if idx == nil {
			return posSeq{expr: expr, order: "none"}
		}
		u := d.keysLoop(idx, e2)
		q.covers = u.full
		if u.head != nil {
			switch d.guard(at.Block(), u.head) {
			case "":
			case "dedupe":
				q.distinct = yes
			case "const":
				q.covers, q.distinct = no, dunno
			default:
				q.covers, q.distinct = dunno, dunno
			}
		} else {
			q.distinct = dunno
		}
		return q
	}
	return posSeq{why: "unknown element"}
}

// keysLoop: the loop over the list of keys whose index this is.
func (d *lockDF) keysLoop(idx ssa.Value, e *env) loopUse {
	part := dunno
	u := d.a.covers(idx, func(v ssa.Value) (int64, bool) {
		s, k, ok := lenOf(v, e)
		if !ok {
			return 0, false
		}
		sl, ok := s.Type().Underlying().(*types.Slice)
		switch x := s.(type) {
		case *ssa.Parameter:
			part = yes
		case *ssa.Slice:
			if lo, okc := constI2(x.Low); okc && lo > 0 {
				part = no
			}
		case *ssa.Phi:
			// a list that is cut short in some case
			for _, ed := range x.Edges {
				if y, ok := ed.(*ssa.Slice); ok {
					lo, okl := constI2(y.Low)
					_, okh := constI2(y.High)
					if okl && lo > 0 || okh {
						part = no
					}
				}
			}
		}
		return k, ok && isString(sl.Elem())
	})
	if u.full == yes {
		u.full = part
	}
	return u
}

func constI2(v ssa.Value) (int64, bool) {
	if v == nil {
		return 0, false
	}
	return constI(v)
}

func (d *lockDF) mapKeys(m ssa.Value, e *env) posSeq {
	m, e = resolveV(m, e)
	if c, ok := m.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && d.a.inRepo(f) && len(f.Blocks) > 0 {
			d.a.visited[f] = true
			ne := &env{up: e, bind: map[ssa.Value]ssa.Value{}}
			for i, p := range f.Params {
				ne.bind[p] = c.Call.Args[i]
			}
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					return d.mapKeys(rt.Results[0], ne)
				}
			}
		}
	}
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return posSeq{distinct: yes}
	}
	q := posSeq{distinct: yes}
	n := 0
	for _, r := range *mm.Referrers() {
		up, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		n++
		k, e2 := resolveV(up.Key, e)
		idx, expr, ok := d.isPos(k, e2, nil)
		if !ok || idx == nil {
			return posSeq{distinct: yes}
		}
		u := d.keysLoop(idx, e2)
		q.expr, q.covers = expr, u.full
		if u.head != nil {
			switch d.guard(up.Block(), u.head) {
			case "", "dedupe":
			case "const":
				q.covers = no
			default:
				q.covers = dunno
			}
		}
	}
	if n != 1 {
		return posSeq{distinct: yes}
	}
	return q
}

// ---------- the lock operations ----------

type lockSite struct {
	fn   *ssa.Function
	op   string
	at   ssa.Instruction
	call ssa.Instruction // the call in fn that leads to it
	key  ssa.Value       // index of the key in the list, when it is a fixed one
	q    posSeq
	one  bool
	expr string
}

// sites finds the lock operations a function performs, looking into helpers.
func (d *lockDF) sites(root, fn *ssa.Function, e *env, depth int, out *[]lockSite) {
	if depth > 4 {
		return
	}
	d.a.visited[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			var target ssa.Value
			op := ""
			if c.IsInvoke() {
				if c.Value.Type().String() == "sync.Locker" {
					op, target = c.Method.Name(), c.Value
					if mi, ok := target.(*ssa.MakeInterface); ok {
						target = mi.X
					}
				}
			} else {
				f := c.StaticCallee()
				var fe *env
				if f == nil {
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					v, ve := resolveV(c.Value, e)
					switch x := v.(type) {
					case *ssa.Function:
						f = x
					case *ssa.MakeClosure:
						f = x.Fn.(*ssa.Function)
						fe = &env{up: ve, bind: map[ssa.Value]ssa.Value{}}
						for i, fv := range f.FreeVars {
							fe.bind[fv] = x.Bindings[i]
						}
					}
				}
				if f == nil {
					continue
				}
				// a method expression's thunk
				if f.Synthetic != "" && len(f.Blocks) == 1 {
					for _, i2 := range f.Blocks[0].Instrs {
						if c2, ok := i2.(*ssa.Call); ok && c2.Call.StaticCallee() != nil && strings.HasPrefix(c2.Call.StaticCallee().String(), "(*sync.") {
							f = c2.Call.StaticCallee()
						}
					}
				}
				if n := f.String(); strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "(*sync.Mutex).") {
					op, target = f.Name(), c.Args[0]
				} else if d.a.inRepo(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 0 {
					ne := &env{up: e, bind: map[ssa.Value]ssa.Value{}}
					if fe != nil {
						ne.up = e
						for k, v := range fe.bind {
							ne.bind[k] = v
						}
					}
					for i, p := range f.Params {
						if i < len(c.Args) {
							ne.bind[p] = c.Args[i]
						}
					}
					from := len(*out)
					d.sites(root, f, ne, depth+1, out)
					for i := from; i < len(*out); i++ {
						(*out)[i].call = ins
					}
					continue
				}
			}
			if op == "" {
				continue
			}
			t, te := resolveV(target, e)
			u, ok := t.(*ssa.UnOp)
			if !ok {
				// the address of an element of a table of locks held by value
				if ia, ok := t.(*ssa.IndexAddr); ok {
					*out = append(*out, d.site(root, op, ins, ia, te))
				}
				continue
			}
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				*out = append(*out, d.site(root, op, ins, ia, te))
			}
		}
	}
}

func (d *lockDF) site(root *ssa.Function, op string, at ssa.Instruction, ia *ssa.IndexAddr, e *env) lockSite {
	s := lockSite{fn: root, op: op, at: at}
	idx, e2 := resolveV(ia.Index, e)
	// position of one key
	if i, expr, ok := d.isPos(idx, e2, nil); ok {
		s.expr = expr
		if i == nil {
			s.one = true
			return s
		}
		if _, fixed := i.(*ssa.Const); fixed {
			s.key = i
		}
		u := d.keysLoop(i, e2)
		s.q = posSeq{order: "none", distinct: no, covers: u.full, expr: expr}
		if u.head == nil {
			s.q = posSeq{}
		} else {
			loopFn := u.head.Parent()
			if at.Parent() == loopFn {
				switch d.guard(at.Block(), u.head) {
				case "":
				case "dedupe":
					s.q.distinct = yes
				default:
					s.q.distinct, s.q.covers = dunno, dunno
				}
			}
		}
		return s
	}
	switch x := idx.(type) {
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				s.q = d.mapKeys(rg.X, e2)
				s.q.order = "none"
				if g := d.guard(at.Block(), nx.Block()); g != "" {
					s.q.covers = dunno
				}
			}
		}
	case *ssa.UnOp:
		if la, ok := x.X.(*ssa.IndexAddr); ok {
			lst, le := resolveV(la.X, e2)
			s.q = d.slice(lst, le, x, 0)
			al := aliases(lst)
			u := d.a.covers(la.Index, func(v ssa.Value) (int64, bool) {
				l, k, ok := lenOf(v, le)
				return k, ok && (al[l] || l == lst)
			})
			switch {
			case u.full == dunno:
				s.q.covers = dunno
				if u.head == nil {
					s.q.order = ""
				}
			case u.full == no && s.q.covers != dunno:
				s.q.covers = no
			}
			if u.down {
				switch s.q.order {
				case "asc":
					s.q.order = "desc"
				case "desc":
					s.q.order = "asc"
				}
			}
			if u.head != nil {
				switch d.guard(at.Block(), u.head) {
				case "":
				case "dedupe":
					if s.q.order == "asc" || s.q.order == "desc" {
						s.q.distinct = yes
					} else {
						s.q.distinct = dunno
					}
				case "const":
					s.q.covers = no
				default:
					s.q.covers, s.q.distinct = dunno, dunno
				}
			}
		}
	}
	s.expr = s.q.expr
	return s
}

// fixedPairs: two keys at fixed places of the list locked one after the other, with no comparison
// that could have put them in order.
func (a *Analysis) fixedPairs(all []lockSite) {
	acq := func(s lockSite) bool { return s.key != nil && (s.op == "Lock" || s.op == "RLock") }
	at := func(s lockSite) ssa.Instruction {
		if s.call != nil {
			return s.call
		}
		return s.at
	}
	ordered := func(b *ssa.BasicBlock) bool {
		for x := b.Idom(); x != nil; x = x.Idom() {
			iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				return true // decided by something else
			}
			if _, k := c.Y.(*ssa.Const); k {
				continue
			}
			if c.Op != token.EQL && c.Op != token.NEQ {
				return true
			}
		}
		return false
	}
	for _, s := range all {
		for _, t := range all {
			if s.fn != t.fn || !acq(s) || !acq(t) || s.key.(*ssa.Const).Int64() == t.key.(*ssa.Const).Int64() {
				continue
			}
			x, y := at(s), at(t)
			if x.Parent() != s.fn || y.Parent() != s.fn || x == y || !flowsTo(x, y) || flowsTo(y, x) {
				continue
			}
			a.rep.obl("C04", nil, y, "sorted", ordered(y.Block()), "the locks of two keys are taken in the order the keys are named in "+s.fn.Name())
		}
	}
}

func (a *Analysis) srvLocks(P *Program) []*Root {
	r := a.pseudo("locks")
	d := &lockDF{a, P}
	var fns []*ssa.Function
	for fn := range allFns(P) {
		if a.inRepo(fn) && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "memdb" && len(fn.Blocks) > 0 && fn.Synthetic == "" && fn.Parent() == nil {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	var all []lockSite
	for _, fn := range fns {
		ml := a.multiLockOf(fn)
		single := false
		if ml == nil {
			// a function of one key that performs lock operations
			ns := 0
			for _, p := range fn.Params {
				if isString(p.Type()) && !isSlice(p.Type()) {
					ns++
				}
			}
			if n, _ := namedRecv(fn); n == modPath+"/memdb.LocksManager" && ns == 1 && fn.Signature.Results().Len() == 0 {
				single = true
			}
		}
		if ml == nil && !single {
			continue
		}
		var ss []lockSite
		d.sites(fn, fn, nil, 0, &ss)
		for _, s := range ss {
			if ml != nil && s.one {
				continue
			}
			all = append(all, s)
		}
	}
	a.fixedPairs(all)
	order := map[string]lockSite{}
	exprs := map[string]lockSite{}
	for _, s := range all {
		if s.expr != "" && !strings.Contains(s.expr, "?") {
			exprs[s.expr] = s
		}
		if s.one {
			continue
		}
		acq := s.op == "Lock" || s.op == "RLock"
		// the function takes all keys of its list
		p := "C03"
		what := "released"
		if acq {
			p, what = "C01", "locked"
		}
		if s.q.covers != dunno {
			a.rep.obl(p, nil, s.at, "all-keys", s.q.covers == yes, "not all keys of the list are "+what+" in "+s.fn.Name())
			a.rep.obl("C02", nil, s.at, "all-keys", s.q.covers == yes, "not all keys of the list are "+what+" in "+s.fn.Name())
		}
		if s.q.distinct != dunno {
			if acq {
				a.rep.obl("C04", nil, s.at, "locked-once", s.q.distinct == yes, "keys on the same position make "+s.fn.Name()+" wait for itself")
			} else {
				a.rep.obl("C03", nil, s.at, "released-once", s.q.distinct == yes, "keys on the same position make "+s.fn.Name()+" release twice")
			}
		}
		if acq && s.q.order != "" {
			a.rep.obl("C04", nil, s.at, "sorted", s.q.order != "none", "the locks are not taken in a fixed order in "+s.fn.Name())
			if s.q.order != "none" {
				order[s.q.order] = s
			}
		}
	}
	if len(order) > 1 {
		s := order["desc"]
		a.rep.obl("C04", nil, s.at, "same-order", false, "locks are taken in descending order in "+s.fn.Name()+" and ascending in "+order["asc"].fn.Name())
	} else if len(order) == 1 {
		for _, s := range order {
			a.rep.obl("C04", nil, s.at, "same-order", true, "")
		}
	}
	if len(exprs) > 1 {
		ks := sortedKeys(exprs)
		for _, k := range ks[1:] {
			s := exprs[k]
			for _, p := range []string{"C01", "C02"} {
				a.rep.obl(p, nil, s.at, "one-lock-per-key", false, "the lock of a key is found by "+k+" in "+s.fn.Name()+" and by "+ks[0]+" in "+exprs[ks[0]].fn.Name())
			}
		}
	} else if len(exprs) == 1 {
		for _, s := range all {
			if s.expr != "" {
				a.rep.obl("C01", nil, s.at, "one-lock-per-key", true, "")
			}
		}
	}
	if a.debug {
		for _, s := range all {
			fmt.Printf("%s %s one=%v %+v %s\n", s.fn, s.op, s.one, s.q, s.expr)
		}
	}
	return []*Root{r}
}
