package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed symbolic names of values. Two occurrences of the same
// term in one abstract state always denote the same concrete value.
type Op uint8

const (
	OConst Op = iota // aux: constant.Value, or nil for the nil/zero value
	OSym             // aux: *Site; the value last produced at that site
	OStar            // aux: *Site; some value produced earlier at that site (loop generalisation)
	ORoot            // aux: string; an input of the analysed entry point
	OObj             // aux: *Site; the object last allocated at that site
	OFA              // &base.field; aux: int
	OIA              // &base[idx]
	OLd              // what memory at an address held when the entry point started
	OSub             // slice base[lo:hi:?]
	OConv            // value conversion; aux: string naming it
	OCall            // result of a pure function; aux: string
	OBin             // aux: string operator
	OIface           // interface holding args[0]; aux: type string
	OSV              // value stored for key args[0] at start; aux: store name
	OCast            // dynamic value of interface args[0]; aux: type string
	OTuple
	OClosure // aux: *ssa.Function, args: bindings
	OFunc    // aux: *ssa.Function or builtin name
	OLen     // length of an immutable slice/string value
	OMLen    // ghost cell: number of entries of map args[0]
	OGhost   // ghost cell; aux: string
	OStruct  // struct value
	OGlobal  // address of a global; aux: *ssa.Global
)

type Term struct {
	op   Op
	aux  any
	args []*Term
	id   int
	typ  types.Type
	// leaf summary
	hasStar bool
	syms    []*Term // OSym/OObj leaves, sorted by id
}

type T = *Term

type Ctx struct {
	parent *Ctx
	call   ssa.Instruction
	id     int
	depth  int
}

type Site struct {
	ctx   *Ctx
	instr any // ssa.Instruction / ssa.Value / *ssa.BasicBlock
	tag   string
	id    int
	mlen  bool // the generalised size of a map
}

type interner struct {
	terms map[string]*Term
	all   []*Term
	sites map[string]*Site
	ctxs  map[string]*Ctx
	ptrs  map[any]int
}

var in = &interner{terms: map[string]*Term{}, sites: map[string]*Site{}, ctxs: map[string]*Ctx{}, ptrs: map[any]int{}}

func (n *interner) ptr(x any) int {
	if i, ok := n.ptrs[x]; ok {
		return i
	}
	i := len(n.ptrs) + 1
	n.ptrs[x] = i
	return i
}

func mkCtx(parent *Ctx, call ssa.Instruction) *Ctx { return mkCtxTag(parent, call, "") }

func mkCtxTag(parent *Ctx, call ssa.Instruction, tag string) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d/%d", pid, in.ptr(call)) + tag
	if c, ok := in.ctxs[k]; ok {
		return c
	}
	c := &Ctx{parent: parent, call: call, id: len(in.ctxs) + 1, depth: d}
	in.ctxs[k] = c
	return c
}

func mkSite(ctx *Ctx, instr any, tag string) *Site {
	cid := 0
	if ctx != nil {
		cid = ctx.id
	}
	k := fmt.Sprintf("%d/%d/%s", cid, in.ptr(instr), tag)
	if s, ok := in.sites[k]; ok {
		return s
	}
	s := &Site{ctx: ctx, instr: instr, tag: tag, id: len(in.sites) + 1}
	in.sites[k] = s
	return s
}

func auxKey(a any) string {
	switch x := a.(type) {
	case nil:
		return "-"
	case string:
		return "s" + x
	case int:
		return "i" + strconv.Itoa(x)
	case *Site:
		return "@" + strconv.Itoa(x.id)
	case constant.Value:
		return "c" + x.Kind().String() + x.ExactString()
	default:
		return "p" + strconv.Itoa(in.ptr(a))
	}
}

func mk(op Op, aux any, typ types.Type, args ...T) T {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteString(auxKey(aux))
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	if op == OConst && aux == nil && typ != nil {
		// nil of different kinds is one term except struct zero values
		if _, ok := typ.Underlying().(*types.Struct); ok {
			b.WriteString(typ.String())
		}
	}
	k := b.String()
	if t, ok := in.terms[k]; ok {
		return t
	}
	t := &Term{op: op, aux: aux, args: args, id: len(in.all) + 1, typ: typ}
	in.terms[k] = t
	in.all = append(in.all, t)
	if op == OStar {
		t.hasStar = true
	}
	set := map[int]T{}
	if op == OSym || op == OObj {
		set[t.id] = t
	}
	for _, a := range args {
		if a == nil {
			continue
		}
		if a.hasStar {
			t.hasStar = true
		}
		for _, s := range a.syms {
			set[s.id] = s
		}
	}
	for _, s := range set {
		t.syms = append(t.syms, s)
	}
	for i := 1; i < len(t.syms); i++ {
		for j := i; j > 0 && t.syms[j].id < t.syms[j-1].id; j-- {
			t.syms[j], t.syms[j-1] = t.syms[j-1], t.syms[j]
		}
	}
	return t
}

func (t *Term) hasSym(s T) bool {
	for _, x := range t.syms {
		if x == s {
			return true
		}
	}
	return false
}

func subst(t T, from, to T, memo map[T]T) T {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if !t.hasSym(from) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]T, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, from, to, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// rebuild re-normalises after substitution.
func rebuild(t T, args []T) T {
	switch t.op {
	case OSub:
		return mkSub(args[0], args[1], args[2], t.typ)
	case OIA:
		return mkIA(args[0], args[1], t.typ)
	case OLen:
		return mkLen(args[0])
	}
	return mk(t.op, t.aux, t.typ, args...)
}

func mkConst(v constant.Value, typ types.Type) T { return mk(OConst, v, typ) }
func mkInt(i int64) T                            { return mk(OConst, constant.MakeInt64(i), types.Typ[types.Int]) }
func mkBool(b bool) T                            { return mk(OConst, constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) T                           { return mk(OConst, constant.MakeString(s), types.Typ[types.String]) }
func mkNil(typ types.Type) T                     { return mk(OConst, nil, typ) }

func (t *Term) isConst() bool { return t != nil && t.op == OConst }
func (t *Term) isNil() bool   { return t != nil && t.op == OConst && t.aux == nil }
func (t *Term) constInt() (int64, bool) {
	if t == nil || t.op != OConst || t.aux == nil {
		return 0, false
	}
	v, ok := t.aux.(constant.Value)
	if !ok || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
func (t *Term) constStr() (string, bool) {
	if t == nil || t.op != OConst || t.aux == nil {
		return "", false
	}
	v, ok := t.aux.(constant.Value)
	if !ok || v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v), true
}
func (t *Term) constBool() (bool, bool) {
	if t == nil || t.op != OConst || t.aux == nil {
		return false, false
	}
	v, ok := t.aux.(constant.Value)
	if !ok || v.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v), true
}

// mkSub builds base[lo:hi]; hi may be nil meaning len(base).
func mkSub(base, lo, hi T, typ types.Type) T {
	if lo == nil {
		lo = mkInt(0)
	}
	if base.op == OSub {
		// (b[l:h])[lo:hi] = b[l+lo : l+hi]
		if c, ok := lo.constInt(); ok {
			if c == 0 && hi == nil {
				return base
			}
			if hi == nil {
				if nl, ok := addTerm(base.args[1], c); ok {
					return mk(OSub, nil, typ, base.args[0], nl, base.args[2])
				}
			}
		}
	}
	if c, ok := lo.constInt(); ok && c == 0 && hi == nil {
		if _, isPtr := typUnder(base).(*types.Pointer); !isPtr {
			return base
		}
	}
	return mk(OSub, nil, typ, base, lo, hi)
}

func typUnder(t T) types.Type {
	if t == nil || t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

// addTerm adds a constant syntactically.
func addTerm(t T, c int64) (T, bool) {
	if c == 0 {
		return t, true
	}
	if v, ok := t.constInt(); ok {
		return mkInt(v + c), true
	}
	if t.op == OBin && t.aux == "+c" {
		v, _ := t.args[1].constInt()
		if v+c == 0 {
			return t.args[0], true
		}
		return mk(OBin, "+c", t.typ, t.args[0], mkInt(v+c)), true
	}
	return mk(OBin, "+c", t.typ, t, mkInt(c)), true
}

func mkIA(base, idx T, typ types.Type) T {
	if base.op == OSub {
		if c, ok := base.args[1].constInt(); ok {
			ni, _ := addTerm(idx, c)
			return mkIA(base.args[0], ni, typ)
		}
		if c, ok := idx.constInt(); ok {
			ni, _ := addTerm(base.args[1], c)
			return mkIA(base.args[0], ni, typ)
		}
	}
	if idx.hasStar && idx.op != OStar {
		// position lost
		for idx.op == OBin && idx.aux == "+c" {
			idx = idx.args[0]
		}
	}
	return mk(OIA, nil, typ, base, idx)
}

func mkLen(x T) T {
	switch x.op {
	case OConst:
		if s, ok := x.constStr(); ok {
			return mkInt(int64(len(s)))
		}
		if x.aux == nil {
			return mkInt(0)
		}
	case OConv:
		if x.aux == "str" || x.aux == "bytes" {
			return mkLen(x.args[0])
		}
	case OCall:
		if x.aux == "strings.ToLower" || x.aux == "strings.ToUpper" {
			// length may change for non-ASCII input
		}
	}
	return mk(OLen, nil, types.Typ[types.Int], x)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 12 {
		return "…"
	}
	arg := func(i int) string { return t.args[i].str(d + 1) }
	all := func() string {
		var s []string
		for i := range t.args {
			s = append(s, arg(i))
		}
		return strings.Join(s, ",")
	}
	switch t.op {
	case OConst:
		if t.aux == nil {
			return "nil"
		}
		return t.aux.(constant.Value).ExactString()
	case OSym:
		return "$" + siteName(t.aux.(*Site))
	case OStar:
		return "*" + siteName(t.aux.(*Site))
	case OObj:
		return "new:" + siteName(t.aux.(*Site))
	case ORoot:
		return t.aux.(string)
	case OGlobal:
		return "&" + t.aux.(*ssa.Global).Name()
	case OFA:
		return "&" + arg(0) + "." + fieldName(t)
	case OIA:
		return "&" + arg(0) + "[" + arg(1) + "]"
	case OLd:
		a := t.args[0].str(d + 1)
		if strings.HasPrefix(a, "&") {
			return a[1:]
		}
		return "(*" + a + ")"
	case OSub:
		return arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case OConv:
		return t.aux.(string) + "(" + all() + ")"
	case OCall:
		return t.aux.(string) + "(" + all() + ")"
	case OBin:
		if len(t.args) == 2 {
			return "(" + arg(0) + t.aux.(string) + arg(1) + ")"
		}
		return t.aux.(string) + "(" + all() + ")"
	case OIface:
		return "any(" + arg(0) + ")"
	case OSV:
		return t.aux.(string) + "{" + arg(0) + "}"
	case OCast:
		return arg(0) + ".(" + t.aux.(string) + ")"
	case OTuple:
		return "(" + all() + ")"
	case OClosure:
		return "closure:" + t.aux.(*ssa.Function).Name()
	case OFunc:
		if f, ok := t.aux.(*ssa.Function); ok {
			return "func:" + f.Name()
		}
		return fmt.Sprint("func:", t.aux)
	case OLen:
		return "len(" + arg(0) + ")"
	case OMLen:
		return "mlen(" + arg(0) + ")"
	case OGhost:
		return "#" + t.aux.(string) + "(" + all() + ")"
	case OStruct:
		return "{" + all() + "}"
	}
	return "?"
}

func siteName(s *Site) string {
	switch i := s.instr.(type) {
	case ssa.Value:
		n := i.Name()
		if a, ok := i.(*ssa.Alloc); ok && a.Comment != "" {
			n = a.Comment
		}
		if p, ok := i.(*ssa.Phi); ok && p.Comment != "" {
			n = p.Comment
		}
		return n + s.tag + "@" + strconv.Itoa(s.id)
	}
	return s.tag + "@" + strconv.Itoa(s.id)
}

func fieldName(t T) string {
	base := t.args[0].typ
	i := t.aux.(int)
	if base != nil {
		u := base.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if s, ok := u.(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return "f" + strconv.Itoa(i)
}

// matches reports whether concrete term t is an instance of pattern p, where a
// Star in p stands for any term.
func matches(p, t T) bool {
	if p == t {
		return true
	}
	if p == nil || t == nil {
		return false
	}
	if p.op == OStar {
		return true
	}
	if !p.hasStar || p.op != t.op || len(p.args) != len(t.args) || auxKey(p.aux) != auxKey(t.aux) {
		return false
	}
	for i := range p.args {
		if !matches(p.args[i], t.args[i]) {
			return false
		}
	}
	return true
}
