# LPOS as one loop; LREM and LPOP by other means
from lib import *
import sys
L="memdb/list.go"; LS="memdb/list_struct.go"
def cut(f,a,b,new):
    s=rd(f); i=s.index(a); j=s.index(b,i); wr(f,s[:i]+new+s[j:])
def J1():
    cut(L,"	var res []resp.RedisData\n	var reverse bool","func lPushList",'''	forward, skip := true, 0
	if rank && rankVal > 0 {
		skip = rankVal - 1
	} else if rank {
		forward, skip = false, -rankVal-1
	}
	cur, end, pos, step := l.Head.Next, l.Tail, 0, 1
	if !forward {
		cur, end, pos, step = l.Tail.Prev, l.Head, l.Len-1, -1
	}
	var res []resp.RedisData
	for seen := 0; cur != end; seen++ {
		if maxLen && maxLenVal > 0 && seen >= maxLenVal {
			break
		}
		if bytes.Equal(cur.Val, element) {
			if skip > 0 {
				skip--
			} else if !count {
				return resp.NewInteger(int64(pos))
			} else {
				res = append(res, resp.NewInteger(int64(pos)))
				if countVal > 0 && len(res) == countVal {
					break
				}
			}
		}
		pos += step
		if forward {
			cur = cur.Next
		} else {
			cur = cur.Prev
		}
	}
	if len(res) == 0 {
		return resp.NewBulkString(nil)
	}
	return resp.NewArray(res)
}

''')
    go("J1")
def J2():
    # positions first, then the reply
    cut(L,"	var res []resp.RedisData\n	var reverse bool","func lPushList",'''	var all []int
	i := 0
	for n := l.Head.Next; n != l.Tail; n = n.Next {
		if bytes.Equal(n.Val, element) {
			all = append(all, i)
		}
		i++
	}
	if !rank {
		rankVal = 1
	}
	if maxLen && maxLenVal == 0 {
		maxLen = false
	}
	res := make([]resp.RedisData, 0)
	add := func(p int) bool {
		res = append(res, resp.NewInteger(int64(p)))
		return !count || countVal != 0 && len(res) >= countVal
	}
	if rankVal > 0 {
		for k := rankVal - 1; k < len(all); k++ {
			if maxLen && all[k] >= maxLenVal || add(all[k]) {
				break
			}
		}
	} else if rankVal < 0 {
		for k := len(all) + rankVal; k >= 0; k-- {
			if maxLen && l.Len-1-all[k] >= maxLenVal || add(all[k]) {
				break
			}
		}
	}
	if len(res) == 0 {
		return resp.NewBulkString(nil)
	}
	if !count {
		return res[0]
	}
	return resp.NewArray(res)
}

''')
    go("J2")
def J3():
    # LREM: the nodes to remove are collected first
    cut(LS,"func (l *List) Remove(","func (l *List) Set(",'''func (l *List) Remove(val []byte, count int) int {
	var hits []*ListNode
	for n := l.Head.Next; n != l.Tail; n = n.Next {
		if bytes.Equal(n.Val, val) {
			hits = append(hits, n)
		}
	}
	switch {
	case count > 0 && count < len(hits):
		hits = hits[:count]
	case count < 0 && -len(hits) < count:
		hits = hits[len(hits)+count:]
	}
	for _, n := range hits {
		n.Prev.Next, n.Next.Prev = n.Next, n.Prev
		l.Len--
	}
	return len(hits)
}

''')
    go("J3")
def J4():
    # LREM: one loop for both directions
    cut(LS,"func (l *List) Remove(","func (l *List) Set(",'''func (l *List) Remove(val []byte, count int) int {
	left := l.Len
	if count > 0 {
		left = count
	} else if count < 0 {
		left = -count
	}
	next := func(n *ListNode) *ListNode { return n.Next }
	cur, end := l.Head.Next, l.Tail
	if count < 0 {
		next = func(n *ListNode) *ListNode { return n.Prev }
		cur, end = l.Tail.Prev, l.Head
	}
	removed := 0
	for ; cur != end && left > 0; cur = next(cur) {
		if !bytes.Equal(cur.Val, val) {
			continue
		}
		cur.Prev.Next = cur.Next
		cur.Next.Prev = cur.Prev
		l.Len--
		removed++
		left--
	}
	return removed
}

''')
    go("J4")
def J5():
    # LREM: two passes for negative counts
    cut(LS,"func (l *List) Remove(","func (l *List) Set(",'''func (l *List) Remove(val []byte, count int) int {
	total := 0
	for n := l.Head.Next; n != l.Tail; n = n.Next {
		if bytes.Equal(n.Val, val) {
			total++
		}
	}
	keep := 0
	want := total
	if count > 0 && count < total {
		want = count
	}
	if count < 0 && -count < total {
		want = -count
		keep = total + count
	}
	removed := 0
	for n := l.Head.Next; n != l.Tail && removed < want; n = n.Next {
		if bytes.Equal(n.Val, val) {
			if keep > 0 {
				keep--
				continue
			}
			n.Next.Prev = n.Prev
			n.Prev.Next = n.Next
			l.Len--
			removed++
		}
	}
	return removed
}

''')
    go("J5")
for n in sys.argv[1:] or ["J1","J2","J3","J4","J5"]:
    reset(); globals()[n]()
