package main

import (
	"fmt"
	"sort"
	"strings"
)

// KV is what a path found and left under one key.
type KV struct {
	key    T
	rec    *KeyRec
	status string // A missing, X expired, V live, U present but deadline not examined, ? not looked at
	ttl    string // N none, L pending, X past, E present, - unknown
	typ    string // str hash list set, !T;T: known not to be, "" unknown
	effect string // same, mod, del, set
	texp   string // deadline afterwards: same, clear, set
}

var typeShort = map[string]string{"[]byte": "str"}

func shortType(t string) string {
	if s, ok := typeShort[t]; ok {
		return s
	}
	if i := strings.LastIndex(t, "."); i >= 0 {
		return strings.ToLower(t[i+1:])
	}
	return t
}

func (a *Analysis) view(st *State, k T) *KV {
	r, ok := st.keys[k]
	if !ok {
		return &KV{key: k, rec: &KeyRec{}, status: "?", ttl: "-", effect: "same", texp: "same"}
	}
	v := &KV{key: k, rec: r}
	v.ttl = st.expState(k, r)
	switch {
	case r.initDict == 'A':
		v.status = "A"
	case v.ttl == "X":
		v.status = "X"
	case r.initDict == 'P' && (v.ttl == "N" || v.ttl == "L"):
		v.status = "V"
	case r.initDict == 'P':
		v.status = "U"
	default:
		v.status = "?"
	}
	if r.initType != "" {
		v.typ = shortType(r.initType)
	} else if r.notTypes != "" {
		var l []string
		for _, t := range strings.Split(r.notTypes, ";") {
			if t != "" {
				l = append(l, "!"+shortType(t))
			}
		}
		v.typ = strings.Join(l, ";")
	}
	switch {
	case r.cur == 'D':
		v.effect = "del"
	case r.cur == 'S':
		v.effect = "set"
	case r.mutated:
		v.effect = "mod"
	default:
		v.effect = "same"
	}
	switch r.exp {
	case 'D':
		v.texp = "clear"
	case 'S':
		v.texp = "set"
	default:
		v.texp = "same"
	}
	return v
}

func (v *KV) String() string {
	s := fmt.Sprintf("%s:%s/%s %s->%s,%s", short(v.key), v.status, v.ttl, v.typ, v.effect, v.texp)
	if v.rec.cur == 'S' && v.rec.val != nil {
		s += " =" + v.rec.val.String()
	}
	if v.rec.exp == 'S' && v.rec.expVal != nil {
		s += " @" + v.rec.expVal.String()
	}
	return s
}

func (a *Analysis) summary(o *Outcome) string {
	var b strings.Builder
	st := o.st
	for _, r := range o.ret {
		b.WriteString(a.showReply(st, r))
	}
	var ks []T
	for k := range st.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	for _, k := range ks {
		v := a.view(st, k)
		b.WriteString(" | " + v.String())
		c := a.contentOf(st, v)
		if c != "" {
			b.WriteString(" {" + c + "}")
		}
	}
	for x := range st.arch {
		ar := parseArch(x)
		fmt.Fprintf(&b, " | *%s: %s/%s %s->%s,%s mut=%v", short(ar.key), ar.init, ar.exp, ar.typ, ar.cur, ar.curExp, ar.mutated)
	}
	for f, v := range st.flags {
		if v {
			b.WriteString(" " + f)
		}
	}
	var l []string
	for g, m := range st.mem {
		_ = g
		l = append(l, fmt.Sprintf("in(%v,%v)=%v:%v", m.m, m.k, m.present, m.val))
	}
	for c, v := range st.heap {
		if c.op == OGhost && (c.aux == "ins" || c.aux == "del") {
			l = append(l, fmt.Sprintf("%v=%v", c, v))
		}
	}
	sort.Strings(l)
	for _, x := range l {
		b.WriteString("\n        " + x)
	}
	return b.String()
}

func (a *Analysis) showReply(st *State, t T) string {
	r := a.reply(st, t)
	if r.kind == "arr" {
		if es, ok := a.elems(st, r.val); ok {
			var l []string
			for _, e := range es {
				l = append(l, a.showReply(st, e))
			}
			return "arr[" + strings.Join(l, ", ") + "]"
		}
		s := "arr~"
		if inf := a.sliceInfo(st, r.val); inf != nil {
			for _, it := range inf.items {
				s += " " + a.showReply(st, it)
			}
		}
		return s
	}
	if r.val != nil {
		return r.kind + ":" + r.val.String()
	}
	return r.kind
}

// contentOf describes the container left under a key.
func (a *Analysis) contentOf(st *State, v *KV) string {
	var cell []string
	root := func(t T) bool {
		r := a.rootOf(st, t)
		if r == nil {
			return false
		}
		if r.op == OSV && r.aux == "dict" && r.args[0] == v.key {
			return true
		}
		return v.rec.val != nil && r == a.rootOf(st, v.rec.val)
	}
	for c, val := range st.heap {
		if c.op == OFA && root(c) || c.op == OMLen && root(c.args[0]) {
			cell = append(cell, fmt.Sprintf("%v:=%v", c, val))
		}
	}
	sort.Strings(cell)
	return strings.Join(cell, "; ")
}
