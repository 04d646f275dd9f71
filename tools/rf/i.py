# lists: special cases at the two ends
from lib import *
import sys
LS="memdb/list_struct.go"
def body(fn,new):
    s=rd(LS); i=s.index("func (l *List) "+fn+"("); j=s.index("\n}",i)+2
    wr(LS,s[:i]+new.strip("\n")+s[j:])
def I1():
    body("InsertAfter",'''
func (l *List) InsertAfter(val []byte, pivot []byte) bool {
	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
		if !bytes.Equal(cur.Val, pivot) {
			continue
		}
		if cur.Next == l.Tail {
			l.RPush(val)
			return true
		}
		next := cur.Next
		node := &ListNode{Prev: cur, Next: next, Val: val}
		cur.Next, next.Prev = node, node
		l.Len++
		return true
	}
	return false
}''')
    body("InsertBefore",'''
func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
		if !bytes.Equal(cur.Val, pivot) {
			continue
		}
		if cur.Prev == l.Head {
			l.LPush(val)
			return true
		}
		prev := cur.Prev
		node := &ListNode{Prev: prev, Next: cur, Val: val}
		cur.Prev, prev.Next = node, node
		l.Len++
		return true
	}
	return false
}''')
    go("I1")
def I2():
    body("Remove",'''
func (l *List) unlink(n *ListNode) {
	switch {
	case n == l.Head.Next:
		l.LPop()
	case n == l.Tail.Prev:
		l.RPop()
	default:
		p, q := n.Prev, n.Next
		p.Next, q.Prev = q, p
		l.Len--
	}
}

func (l *List) Remove(val []byte, count int) int {
	removed := 0
	if count >= 0 {
		for cur := l.Head.Next; cur != l.Tail; {
			next := cur.Next
			if bytes.Equal(cur.Val, val) {
				l.unlink(cur)
				removed++
				if removed == count {
					break
				}
			}
			cur = next
		}
		return removed
	}
	for cur := l.Tail.Prev; cur != l.Head; {
		prev := cur.Prev
		if bytes.Equal(cur.Val, val) {
			l.unlink(cur)
			removed++
			if removed == -count {
				break
			}
		}
		cur = prev
	}
	return removed
}''')
    go("I2")
def I3():
    body("Trim",'''
func (l *List) Trim(start, end int) {
	if start < 0 {
		start = l.Len + start
	}
	if end < 0 {
		end = l.Len + end
	}
	if start > end || start >= l.Len || end < 0 {
		l.Clear()
		return
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	if start < 0 {
		start = 0
	}
	if start == 0 && end == l.Len-1 {
		return
	}
	first, last := l.Index(start), l.Index(end)
	if first != l.Head.Next {
		l.Head.Next, first.Prev = first, l.Head
	}
	if last != l.Tail.Prev {
		l.Tail.Prev, last.Next = last, l.Tail
	}
	l.Len = end - start + 1
}''')
    body("Range",'''
func (l *List) Range(start, end int) [][]byte {
	if start < 0 {
		start = l.Len + start
	}
	if end < 0 {
		end = l.Len + end
	}
	if start > end || start >= l.Len || end < 0 {
		return nil
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	if start < 0 {
		start = 0
	}
	n := end - start + 1
	res := make([][]byte, n)
	if l.Len-end < start {
		cur := l.Tail.Prev
		for i := l.Len - 1; i > end; i-- {
			cur = cur.Prev
		}
		for i := n - 1; i >= 0; i-- {
			res[i] = cur.Val
			cur = cur.Prev
		}
		return res
	}
	cur := l.Head.Next
	for i := 0; i < start; i++ {
		cur = cur.Next
	}
	for i := range res {
		res[i] = cur.Val
		cur = cur.Next
	}
	return res
}''')
    body("Index",'''
func (l *List) Index(index int) *ListNode {
	if index < 0 {
		index += l.Len
	}
	if index < 0 || index >= l.Len {
		return nil
	}
	if index > l.Len/2 {
		cur := l.Tail.Prev
		for i := l.Len - 1; i > index; i-- {
			cur = cur.Prev
		}
		return cur
	}
	cur := l.Head.Next
	for ; index > 0; index-- {
		cur = cur.Next
	}
	return cur
}''')
    go("I3")
for n in sys.argv[1:] or ["I1","I2","I3"]:
    reset(); globals()[n]()
