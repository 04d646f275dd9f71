package main

import (
	"go/types"
	"strings"
)

// Shape of the list types: which fields are the two sentinels, the links and the value.
type listShape struct {
	head, tail int
	next, prev int
	val        int
	node       types.Type // *ListNode
	ln         int
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, _ := p.Elem().Underlying().(*types.Struct)
	return s
}

func hasAny(s string, l ...string) bool {
	s = strings.ToLower(s)
	for _, x := range l {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func shapeOf(t types.Type) *listShape {
	s := structOf(t)
	if s == nil {
		return nil
	}
	sh := &listShape{head: -1, tail: -1, next: -1, prev: -1, val: -1, ln: -1}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isInt(f.Type()) && sh.ln < 0 {
			sh.ln = i
		}
		if structOf(f.Type()) != nil && isNodeType(f.Type()) {
			sh.node = f.Type()
			switch {
			case hasAny(f.Name(), "head", "first", "front", "left"):
				sh.head = i
			case hasAny(f.Name(), "tail", "last", "back", "right"):
				sh.tail = i
			}
		}
	}
	if sh.head < 0 || sh.tail < 0 {
		return nil
	}
	n := structOf(sh.node)
	for i := 0; i < n.NumFields(); i++ {
		f := n.Field(i)
		switch {
		case types.Identical(f.Type(), sh.node) && hasAny(f.Name(), "next", "succ"):
			sh.next = i
		case types.Identical(f.Type(), sh.node) && hasAny(f.Name(), "prev", "pred"):
			sh.prev = i
		case isByteSlice(f.Type()):
			sh.val = i
		}
	}
	if sh.next < 0 || sh.prev < 0 || sh.val < 0 {
		return nil
	}
	return sh
}

func fieldAddr(p T, i int) T {
	s := structOf(p.typ)
	return mk(OFA, i, types.NewPointer(s.Field(i).Type()), p)
}

func (c *Ck) field(p T, i int) T {
	s := structOf(p.typ)
	if s == nil {
		return nil
	}
	return c.a.loadRaw(c.st, fieldAddr(p, i), s.Field(i).Type())
}

func (c *Ck) oldField(p T, i int) T {
	s := structOf(p.typ)
	if s == nil {
		return nil
	}
	return mk(OLd, nil, s.Field(i).Type(), fieldAddr(p, i))
}

// end: the first or last node of a list now.
func (c *Ck) end(l T, left bool) T {
	sh := shapeOf(l.typ)
	if sh == nil {
		return nil
	}
	if left {
		return c.field(c.field(l, sh.head), sh.next)
	}
	return c.field(c.field(l, sh.tail), sh.prev)
}

// oldEnd: the same when the command started.
func (c *Ck) oldEnd(l T, left bool) T {
	sh := shapeOf(l.typ)
	if sh == nil {
		return nil
	}
	if left {
		return c.oldField(c.oldField(l, sh.head), sh.next)
	}
	return c.oldField(c.oldField(l, sh.tail), sh.prev)
}

func (c *Ck) nodeVal(nd T) T {
	for i, s := 0, structOf(nd.typ); s != nil && i < s.NumFields(); i++ {
		if isByteSlice(s.Field(i).Type()) {
			return c.field(nd, i)
		}
	}
	return nil
}

func (c *Ck) oldVal(nd T) T {
	for i, s := 0, structOf(nd.typ); s != nil && i < s.NumFields(); i++ {
		if isByteSlice(s.Field(i).Type()) {
			return c.oldField(nd, i)
		}
	}
	return nil
}

func (c *Ck) step(nd T, left bool) T {
	s := structOf(nd.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := s.Field(i)
		if !types.Identical(f.Type(), nd.typ) {
			continue
		}
		if left && hasAny(f.Name(), "next", "succ") || !left && hasAny(f.Name(), "prev", "pred") {
			return c.field(nd, i)
		}
	}
	return nil
}
