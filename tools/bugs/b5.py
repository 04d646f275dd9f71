from lib import *
S="memdb/strings.go";K="memdb/keys.go";H="memdb/hash.go";L="memdb/list.go";T="memdb/set.go";M="memdb/memdb.go";LK="memdb/locks.go";CM="memdb/concurrentMap.go";HS="memdb/hash_struct.go";LS="memdb/list_struct.go";SS="memdb/set_struct.go"
bug("c17a-index-neg","C17",(LS,"(l *List) Index","i < -index-1","i < -index-1 && i < l.Len-2"))
bug("c17b-index-le","C17",(LS,"(l *List) Index","\t\tfor i := 0; i < index; i++ {","\t\tif index == 0 {\n\t\t\treturn cur\n\t\t}\n\t\tfor i := 1; i < index; i++ {"))
bug("c17c-index-range","C17",(LS,"(l *List) Index","index < -l.Len","index <= -l.Len"))
bug("c17d-index-top","C17",(LS,"(l *List) Index","index >= l.Len {","index >= l.Len-1 && index > 4 {"))
bug("c17f-trim-len","C17",(LS,"(l *List) Trim","l.Len = end - start + 1","l.Len -= start"))
bug("c17g-trim-endclamp","C17",(LS,"(l *List) Trim","\tif end >= l.Len {\n\t\tend = l.Len - 1\n\t}\n","\tif end >= l.Len-1 {\n\t\tend = l.Len - 2\n\t\tif end < 0 {\n\t\t\tend = 0\n\t\t}\n\t}\n"))
bug("c17h-trim-link","C17",(LS,"(l *List) Trim","\tendNode.Next = l.Tail\n","\tif start == 0 {\n\t\tendNode.Next = l.Tail\n\t}\n"))
bug("c17i-pos-off","C17",(LS,"(l *List) Pos","\t\tpos++\n","\t\tif cur.Prev != l.Head || len(cur.Val) > 0 {\n\t\t\tpos++\n\t\t}\n"))
bug("c17j-insertbefore-link","C17",(LS,"(l *List) InsertBefore","\t\t\tnode.Prev.Next = node\n","\t\t\tif node.Prev != l.Head {\n\t\t\t\tnode.Prev.Next = node\n\t\t\t}\n"))
bug("c17k-remove-len","C17",(LS,"(l *List) Remove","\t\tfor cur := l.Tail.Prev; cur != l.Head && removed < -count; {\n\t\t\tif bytes.Equal(cur.Val, val) {\n\t\t\t\tcur.Next.Prev = cur.Prev\n\t\t\t\tcur.Prev.Next = cur.Next\n\t\t\t\tl.Len--\n","\t\tfor cur := l.Tail.Prev; cur != l.Head && removed < -count; {\n\t\t\tif bytes.Equal(cur.Val, val) {\n\t\t\t\tcur.Next.Prev = cur.Prev\n\t\t\t\tcur.Prev.Next = cur.Next\n\t\t\t\tif removed == 0 {\n\t\t\t\t\tl.Len--\n\t\t\t\t}\n"))
bug("c17l-lpush-order","C17",(L,"lPushList","l.LPush(","l.RPush("))
bug("c17m-rpush-prev","C17",(LS,"(l *List) RPush","\tl.Tail.Prev = node\n","\tif l.Len != 1 {\n\t\tl.Tail.Prev = node\n\t}\n"))
bug("c17n-lset-neg","C17",(LS,"(l *List) Set","\tnode := l.Index(index)\n","\tif index < -1 {\n\t\tindex++\n\t}\n\tnode := l.Index(index)\n"))
bug("c17o-clear","C17",(LS,"(l *List) Clear","\tl.Tail.Prev = l.Head\n",""))
bug("c17p-insert-pivot","C17",(LS,"(l *List) InsertAfter","node := &ListNode{Prev: cur, Next: cur.Next, Val: val}\n\t\t\tcur.Next = node\n\t\t\tnode.Next.Prev = node\n","if cur.Next == l.Tail {\n\t\t\t\tcur = cur.Prev\n\t\t\t}\n\t\t\tnode := &ListNode{Prev: cur, Next: cur.Next, Val: val}\n\t\t\tcur.Next = node\n\t\t\tnode.Next.Prev = node\n"))
bug("c17q-range-start","C17",(LS,"(l *List) Range","if i >= start {","if i > start || start == 0 {"))
bug("c17r-range-end","C17",(LS,"(l *List) Range","\tif end >= l.Len {\n\t\tend = l.Len - 1\n\t}\n","\tif end >= l.Len-1 {\n\t\tend = l.Len - 2\n\t\tif end < start {\n\t\t\tend = start\n\t\t}\n\t}\n"))
bug("c17s-rpop-count-order","C17",(L,"rPopList","l.RPop().Val","l.LPop().Val"))
bug("c17t-linsert-flag","C17",(L,"lInsertList",'flag == "before"','flag == "before" || l.Len == 1'))
bug("c17u-range-neg","C17",(LS,"(l *List) Range","\tif start < 0 {\n\t\tstart = l.Len + start\n\t}\n","\tif start < 0 {\n\t\tstart = l.Len + start\n\t\tif start == 0 {\n\t\t\tstart++\n\t\t}\n\t}\n"))
bug("c17v-range-skip","C17",(LS,"(l *List) Range","\t\tif i >= start {\n","\t\tif i >= start && (i == start || len(cur.Val) > 0) {\n"))
bug("c17w-range-trunc","C17",(LS,"(l *List) Range","i <= end;","i <= end && i < 1000;"))
bug("c17x-linsert-lastpivot","C17",(LS,"(l *List) InsertBefore","for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {\n\t\tif bytes.Equal(cur.Val, pivot) {","for cur := l.Tail.Prev; cur != l.Head; cur = cur.Prev {\n\t\tif bytes.Equal(cur.Val, pivot) {"))
bug("c17y-rpop-multi","C17",(L,"rPopList","for i := 0; i < count; i++ {","for i := 0; i < count-1 || i == 0; i++ {"))
bug("c17z-trim-swap","C17",(LS,"(l *List) Trim","\tif start > end || start >= l.Len || end < 0 {","\tif start >= end || start >= l.Len || end < 0 {"))
main()
