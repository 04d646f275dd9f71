from lib import *
import sys
LS="memdb/list_struct.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"(")
    j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
def E1():
    # unlink / link helpers
    app(LS,"""
// link puts node between its two new neighbours.
func (l *List) link(prev, next *ListNode, val []byte) *ListNode {
	node := &ListNode{Prev: prev, Next: next, Val: val}
	prev.Next = node
	next.Prev = node
	l.Len++
	return node
}

// unlink takes node out of the list.
func (l *List) unlink(node *ListNode) *ListNode {
	node.Prev.Next = node.Next
	node.Next.Prev = node.Prev
	l.Len--
	return node
}

func (l *List) find(pivot []byte) *ListNode {
	cur := l.Head.Next
	for cur != l.Tail && !bytes.Equal(cur.Val, pivot) {
		cur = cur.Next
	}
	if cur == l.Tail {
		return nil
	}
	return cur
}

// bounds resolves the two ends of a range, false when the range is empty.
func (l *List) bounds(start, end int) (int, int, bool) {
	if start < 0 {
		start += l.Len
	}
	if end < 0 {
		end += l.Len
	}
	if start < 0 {
		start = 0
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	return start, end, start <= end
}
""")
    body(LS,"(l *List) LPush","""func (l *List) LPush(val []byte) {
	l.link(l.Head, l.Head.Next, val)
}""")
    body(LS,"(l *List) RPush","""func (l *List) RPush(val []byte) {
	l.link(l.Tail.Prev, l.Tail, val)
}""")
    body(LS,"(l *List) LPop","""func (l *List) LPop() *ListNode {
	if l.Len > 0 {
		return l.unlink(l.Head.Next)
	}
	return nil
}""")
    body(LS,"(l *List) RPop","""func (l *List) RPop() *ListNode {
	if l.Len > 0 {
		return l.unlink(l.Tail.Prev)
	}
	return nil
}""")
    body(LS,"(l *List) InsertBefore","""func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	at := l.find(pivot)
	if at == nil {
		return false
	}
	l.link(at.Prev, at, val)
	return true
}""")
    body(LS,"(l *List) InsertAfter","""func (l *List) InsertAfter(val []byte, pivot []byte) bool {
	if at := l.find(pivot); at != nil {
		l.link(at, at.Next, val)
		return true
	}
	return false
}""")
    body(LS,"(l *List) Remove","""func (l *List) Remove(val []byte, count int) int {
	if l.Len == 0 {
		return 0
	}
	if count == 0 {
		count = l.Len
	}
	removed := 0
	if count > 0 {
		cur := l.Head.Next
		for cur != l.Tail && removed < count {
			next := cur.Next
			if bytes.Equal(cur.Val, val) {
				l.unlink(cur)
				removed++
			}
			cur = next
		}
		return removed
	}
	cur := l.Tail.Prev
	for cur != l.Head && removed < -count {
		prev := cur.Prev
		if bytes.Equal(cur.Val, val) {
			l.unlink(cur)
			removed++
		}
		cur = prev
	}
	return removed
}""")
    body(LS,"(l *List) Range","""func (l *List) Range(start, end int) [][]byte {
	start, end, ok := l.bounds(start, end)
	if !ok {
		return nil
	}
	res := make([][]byte, 0, end-start+1)
	node := l.Index(start)
	for i := start; i <= end; i++ {
		res = append(res, node.Val)
		node = node.Next
	}
	return res
}""")
    body(LS,"(l *List) Trim","""func (l *List) Trim(start, end int) {
	start, end, ok := l.bounds(start, end)
	if !ok {
		l.Clear()
		return
	}
	first, last := l.Index(start), l.Index(end)
	l.Head.Next, first.Prev = first, l.Head
	l.Tail.Prev, last.Next = last, l.Tail
	l.Len = end - start + 1
}""")
    body(LS,"(l *List) Clear","""func (l *List) Clear() {
	l.Head.Next = l.Tail
	l.Tail.Prev = l.Head
	l.Len = 0
}""")
def E2():
    body(LS,"(l *List) Index","""func (l *List) Index(index int) *ListNode {
	if index < 0 {
		index += l.Len
	}
	if index < 0 || index >= l.Len {
		return nil
	}
	cur := l.Head.Next
	for ; index > 0; index-- {
		cur = cur.Next
	}
	return cur
}""")
    body(LS,"(l *List) Pos","""func (l *List) Pos(val []byte) int {
	for i, cur := 0, l.Head.Next; cur != l.Tail; i, cur = i+1, cur.Next {
		if bytes.Equal(val, cur.Val) {
			return i
		}
	}
	return -1
}""")
    body(LS,"(l *List) Trim","""func (l *List) Trim(start, end int) {
	if start < 0 {
		start += l.Len
		if start < 0 {
			start = 0
		}
	}
	if end < 0 {
		end += l.Len
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	if start > end {
		l.Clear()
		return
	}
	for i := l.Len - 1; i > end; i-- {
		l.RPop()
	}
	for i := 0; i < start; i++ {
		l.LPop()
	}
}""")
    body(LS,"(l *List) Range","""func (l *List) Range(start, end int) [][]byte {
	if start < 0 {
		start += l.Len
		if start < 0 {
			start = 0
		}
	}
	if end < 0 {
		end += l.Len
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	if start > end {
		return nil
	}
	res := make([][]byte, end-start+1)
	cur := l.Head.Next
	for i := 0; i < start; i++ {
		cur = cur.Next
	}
	for i := range res {
		res[i] = cur.Val
		cur = cur.Next
	}
	return res
}""")
    body(LS,"(l *List) Remove","""func (l *List) Remove(val []byte, count int) int {
	if l.Len == 0 {
		return 0
	}
	limit := count
	if limit < 0 {
		limit = -limit
	}
	if limit == 0 {
		limit = l.Len
	}
	removed := 0
	fromHead := count >= 0
	cur := l.Head.Next
	if !fromHead {
		cur = l.Tail.Prev
	}
	for cur != l.Head && cur != l.Tail && removed < limit {
		if bytes.Equal(cur.Val, val) {
			cur.Prev.Next, cur.Next.Prev = cur.Next, cur.Prev
			removed++
		}
		if fromHead {
			cur = cur.Next
		} else {
			cur = cur.Prev
		}
	}
	l.Len -= removed
	return removed
}""")
    body(LS,"(l *List) InsertBefore","""func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	cur := l.Head.Next
	for cur != l.Tail {
		if !bytes.Equal(cur.Val, pivot) {
			cur = cur.Next
			continue
		}
		prev := cur.Prev
		node := &ListNode{Val: val}
		node.Prev = prev
		node.Next = cur
		prev.Next = node
		cur.Prev = node
		l.Len = l.Len + 1
		return true
	}
	return false
}""")
    body(LS,"(l *List) LPop","""func (l *List) LPop() *ListNode {
	first := l.Head.Next
	if first == l.Tail {
		return nil
	}
	l.Head.Next = first.Next
	first.Next.Prev = l.Head
	l.Len--
	return first
}""")
def E3():
    # Index walks from the nearer end; Set inline; range backwards-filled
    body(LS,"(l *List) Index","""func (l *List) Index(index int) *ListNode {
	n := l.Len
	if index < 0 {
		index = n + index
	}
	if index < 0 || index >= n {
		return nil
	}
	var cur *ListNode
	if index < n/2 {
		cur = l.Head.Next
		for i := 0; i != index; i++ {
			cur = cur.Next
		}
	} else {
		cur = l.Tail.Prev
		for i := n - 1; i != index; i-- {
			cur = cur.Prev
		}
	}
	return cur
}""")
    body(LS,"(l *List) Range","""func (l *List) Range(start, end int) [][]byte {
	if start < 0 {
		start = l.Len + start
	}
	if end < 0 {
		end = l.Len + end
	}
	if start > end || start >= l.Len || end < 0 {
		return nil
	}
	if start < 0 {
		start = 0
	}
	if end > l.Len-1 {
		end = l.Len - 1
	}
	res := make([][]byte, 0, end-start+1)
	i := 0
	for cur := l.Head.Next; cur != l.Tail && i <= end; cur = cur.Next {
		if i >= start {
			res = append(res, cur.Val)
		}
		i++
	}
	return res
}""")
    body(LS,"(l *List) Trim","""func (l *List) Trim(start, end int) {
	if start < 0 {
		start = l.Len + start
	}
	if end < 0 {
		end = l.Len + end
	}
	if start > end || start >= l.Len || end < 0 {
		l.Clear()
		return
	}
	if end >= l.Len {
		end = l.Len - 1
	}
	if start < 0 {
		start = 0
	}
	startNode := l.Head.Next
	for i := 0; i < start; i++ {
		startNode = startNode.Next
	}
	endNode := startNode
	for i := start; i < end; i++ {
		endNode = endNode.Next
	}
	l.Head.Next = startNode
	startNode.Prev = l.Head
	l.Tail.Prev = endNode
	endNode.Next = l.Tail
	l.Len = end - start + 1
}""")
    body(LS,"(l *List) Set","""func (l *List) Set(val []byte, index int) bool {
	if node := l.Index(index); node != nil {
		node.Val = val
		return true
	}
	return false
}""")
    body(LS,"(l *List) InsertAfter","""func (l *List) InsertAfter(val []byte, pivot []byte) bool {
	inserted := false
	for cur := l.Head.Next; cur != l.Tail && !inserted; cur = cur.Next {
		if bytes.Equal(cur.Val, pivot) {
			next := cur.Next
			node := &ListNode{Prev: cur, Next: next, Val: val}
			cur.Next = node
			next.Prev = node
			l.Len++
			inserted = true
		}
	}
	return inserted
}""")
for n in sys.argv[1:] or ["E1","E2","E3"]:
    reset(); globals()[n](); go(n)
