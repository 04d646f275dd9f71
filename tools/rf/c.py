from lib import *
reset()
def body(f,fn,new):
    s=rd(f); i=s.index("func %s("%fn) if not fn.startswith("(") else s.index("func "+fn+"(")
    j=s.index("\n}\n",i)+3
    wr(f,s[:i]+new.strip("\n")+"\n"+s[j:])
H="memdb/hash.go"
# hdel explicit rather than defer
sub(H,"""	// if hash table is empty, delete it
	defer func() {
		if h.IsEmpty() {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := 0
	for _, _field := range cmd[2:] {
		field := string(_field)
		res += h.Del(field)
	}

	return resp.NewInteger(int64(res))
""","""	var res int64
	for i := 2; i < len(cmd); i++ {
		res += int64(h.Del(string(cmd[i])))
	}
	db.dropIfEmpty(key, h.Len())

	return resp.NewInteger(res)
""")
app(H,"""// dropIfEmpty removes a key whose collection has no elements left.
func (db *MemDb) dropIfEmpty(key string, n int) {
	if n > 0 {
		return
	}
	db.DeleteExpire(key)
	db.dict.Delete(key)
}

// hashForWrite returns the hash stored at key, creating it if needed.
func (db *MemDb) hashForWrite(key string) (*Hash, bool) {
	if v, ok := db.dict.Get(key); ok {
		h, isHash := v.(*Hash)
		return h, isHash
	}
	h := NewHash()
	db.dict.Set(key, h)
	return h, true
}
""")
sub(H,"""	v, ok := db.dict.Get(key)
	if !ok {
		v = NewHash()
		db.dict.Set(key, v)
	}

	// wrong type
	h, ok := v.(*Hash)
	if !ok {
""","""	h, ok := db.hashForWrite(key)
	if !ok {
""")
sub(H,"""	res := make([]resp.RedisData, 0, h.Len())
	for k, v := range h.table {
		res = append(res, resp.NewBulkString([]byte(k)))
		res = append(res, resp.NewBulkString(v))
	}
""","""	res := make([]resp.RedisData, 0, 2*h.Len())
	for k, v := range h.Table() {
		res = append(res, resp.NewBulkString([]byte(k)), resp.NewBulkString(v))
	}
""")
sub(H,"""	keys := h.Keys()
	res := make([]resp.RedisData, 0, h.Len())
	for _, key := range keys {
		res = append(res, resp.NewBulkString([]byte(key)))
	}

	return resp.NewArray(res)
""","""	return stringsReply(h.Keys())
""")
app(H,"""func stringsReply(words []string) resp.RedisData {
	out := make([]resp.RedisData, len(words))
	for i, w := range words {
		out[i] = resp.NewBulkString([]byte(w))
	}
	return resp.NewArray(out)
}
""")
sub(H,"""	field := string(cmd[2])
	if h.Exist(field) {
		return resp.NewInteger(int64(1))
	}

	return resp.NewInteger(int64(0))
""","""	n := int64(0)
	if h.Exist(string(cmd[2])) {
		n = 1
	}
	return resp.NewInteger(n)
""")
sub(H,"""	res := 0
	for i := 2; i < len(cmd); i += 2 {
		field := string(cmd[i])
		val := cmd[i+1]
		res += h.Set(field, val)
	}

	return resp.NewInteger(int64(res))
""","""	before := h.Len()
	for args := cmd[2:]; len(args) > 1; args = args[2:] {
		h.Set(string(args[0]), args[1])
	}

	return resp.NewInteger(int64(h.Len() - before))
""")
sub(H,"""	field := string(cmd[2])
	val := cmd[3]
	if h.Exist(field) {
		// 0 if the field already exists in the hash and no operation was performed.
		return resp.NewInteger(0)
	}
	h.Set(field, val)

	return resp.NewInteger(1)
""","""	if field := string(cmd[2]); !h.Exist(field) {
		return resp.NewInteger(int64(h.Set(field, cmd[3])))
	}
	return resp.NewInteger(0)
""")
sub(H,"""	res := make([]resp.RedisData, 0, len(cmd)-2)
	for _, _field := range cmd[2:] {
		field := string(_field)
		v := h.Get(field)
		res = append(res, resp.NewBulkString(v))
	}
""","""	res := make([]resp.RedisData, len(cmd)-2)
	for i := range res {
		res[i] = resp.NewBulkString(h.Get(string(cmd[i+2])))
	}
""")
HS="memdb/hash_struct.go"
body(HS,"(h *Hash) Set","""func (h *Hash) Set(key string, v []byte) int {
	_, had := h.table[key]
	h.table[key] = v
	if had {
		return 0
	}
	return 1
}
""")
body(HS,"(h *Hash) Del","""func (h *Hash) Del(key string) int {
	n := len(h.table)
	delete(h.table, key)
	return n - len(h.table)
}
""")
body(HS,"(h *Hash) IncrBy","""func (h *Hash) IncrBy(key string, increment int) (int, bool) {
	value := increment
	if v := h.Get(key); v != nil {
		n, err := strconv.Atoi(string(v))
		if err != nil {
			return 0, false
		}
		value += n
	}
	h.Set(key, []byte(strconv.Itoa(value)))
	return value, true
}
""")
body(HS,"(h *Hash) Random","""func (h *Hash) Random(count int) []string {
	if count == 0 || len(h.table) == 0 {
		return []string{}
	}
	if count > 0 {
		keys := h.Keys()
		if count < len(keys) {
			keys = keys[:count]
		}
		return keys
	}
	keys := make([]string, 0, -count)
	for len(keys) < -count {
		for key := range h.table {
			keys = append(keys, key)
			break
		}
	}
	return keys
}
""")
S="memdb/set.go"
sub(S,"""	res := 0
	for _, _key := range cmd[2:] {
		key := string(_key)
		res += s.Add(key)
	}
""","""	res := 0
	for _, member := range cmd[2:] {
		if s.Has(string(member)) {
			continue
		}
		s.Add(string(member))
		res++
	}
""")
sub(S,"""	// if set is empty, delete it
	defer func() {
		if s.Len() == 0 {
			db.dict.Delete(key)
			db.DeleteExpire(key)
		}
	}()

	res := 0
	for _, _key := range cmd[2:] {
		key := string(_key)
		res += s.Remove(key)
	}
""","""	res := 0
	for _, _key := range cmd[2:] {
		res += s.Remove(string(_key))
	}
	if s.Len() == 0 {
		db.dict.Delete(key)
		db.DeleteExpire(key)
	}
""")
sub(S,"""	if !s.Has(member) {
		return resp.NewInteger(0)
	}

	return resp.NewInteger(1)
""","""	if s.Has(member) {
		return resp.NewInteger(1)
	}

	return resp.NewInteger(0)
""")
# set algebra through one function
body(S,"sInterSet","""func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
	return setAlgebra(db, cmd, (*Set).Intersect)
}

func setAlgebra(db *MemDb, cmd [][]byte, op func(*Set, ...*Set) *Set) resp.RedisData {
	if len(cmd) < 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	keys := make([]string, 0, len(cmd)-1)
	for _, k := range cmd[1:] {
		db.DeleteExpiredKey(string(k))
		keys = append(keys, string(k))
	}

	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)

	sets, ok := db.setsAt(keys)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	result := op(sets[0], sets[1:]...)
	var res []resp.RedisData
	for _, mem := range result.Members() {
		res = append(res, resp.NewBulkString([]byte(mem)))
	}
	return resp.NewArray(res)
}

// setsAt returns the sets of all keys; missing keys are empty sets.
func (db *MemDb) setsAt(keys []string) ([]*Set, bool) {
	sets := make([]*Set, 0, len(keys))
	for _, key := range keys {
		v, ok := db.dict.Get(key)
		if !ok {
			sets = append(sets, NewSet())
			continue
		}
		s, ok := v.(*Set)
		if !ok {
			return nil, false
		}
		sets = append(sets, s)
	}
	return sets, true
}
""")
body(S,"sUnionSet","""func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
	return setAlgebra(db, cmd, func(s *Set, others ...*Set) *Set { return s.Union(others...) })
}
""")
body(S,"sUnionStoreSet","""func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}

	all := make([]string, len(cmd)-1)
	for i := range all {
		all[i] = string(cmd[i+1])
		db.DeleteExpiredKey(all[i])
	}
	dest, keys := all[0], all[1:]

	db.locks.MLock(all)
	defer db.locks.MUnLock(all)

	sets, ok := db.setsAt(keys)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	result := sets[0].Union(sets[1:]...)

	db.dict.Delete(dest)
	db.DeleteExpire(dest)
	if result.Len() > 0 {
		db.dict.Set(dest, result)
	}
	return resp.NewInteger(int64(result.Len()))
}
""")
sub(S,"""	defer func() {
		if srcSet.Len() == 0 {
			db.dict.Delete(src)
			db.DeleteExpire(src)
		}
	}()

	desVal, ok := db.dict.Get(des)
	if !ok {
		// a destination that does not exist is created
		if !srcSet.Has(member) {
			return resp.NewInteger(0)
		}
		desVal = NewSet()
		db.dict.Set(des, desVal)
	}

	desSet, ok := desVal.(*Set)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	res := srcSet.Move(desSet, member)

	return resp.NewInteger(int64(res))
""","""	var desSet *Set
	desVal, found := db.dict.Get(des)
	if found {
		if desSet, ok = desVal.(*Set); !ok {
			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
		}
	}
	if !srcSet.Has(member) {
		return resp.NewInteger(0)
	}
	if !found {
		desSet = NewSet()
		db.dict.Set(des, desSet)
	}
	srcSet.Move(desSet, member)
	if srcSet.Len() == 0 {
		db.dict.Delete(src)
		db.DeleteExpire(src)
	}
	return resp.NewInteger(1)
""")
sub(S,"""	res := make([]resp.RedisData, 0, countVal)
	for i := 0; i < countVal; i++ {
		res = append(res, resp.NewBulkString([]byte(s.Pop())))
	}
""","""	res := make([]resp.RedisData, 0, countVal)
	for countVal > 0 {
		countVal--
		res = append(res, resp.NewBulkString([]byte(s.Pop())))
	}
""")
SS="memdb/set_struct.go"
body(SS,"(s *Set) Add","""func (s *Set) Add(key string) (added int) {
	if _, ok := s.table[key]; !ok {
		s.table[key] = void{}
		added = 1
	}
	return
}
""")
body(SS,"(s *Set) Intersect","""func (s *Set) Intersect(sets ...*Set) *Set {
	res := NewSet()
next:
	for key := range s.table {
		for _, set := range sets {
			if !set.Has(key) {
				continue next
			}
		}
		res.Add(key)
	}
	return res
}
""")
body(SS,"(s *Set) Difference","""func (s *Set) Difference(sets ...*Set) *Set {
	res := NewSet()
	for key := range s.table {
		if !inAny(key, sets) {
			res.Add(key)
		}
	}
	return res
}

func inAny(key string, sets []*Set) bool {
	for _, set := range sets {
		if set.Has(key) {
			return true
		}
	}
	return false
}
""")
L="memdb/list.go"
sub(L,"""	for _, element := range cmd[2:] {
		l.LPush(element)
	}
""","""	for i := 2; i < len(cmd); i++ {
		l.LPush(cmd[i])
	}
""")
sub(L,"""	desVal, ok := db.dict.Get(des)
	if !ok {
		desVal = NewList()
		db.dict.Set(des, desVal)
	}

	defer func() {
		if srcList.Len == 0 {
			db.dict.Delete(src)
			db.DeleteExpire(src)
		}
	}()

	desList, ok := desVal.(*List)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}

	var srcPop *ListNode
	if srcDrc == "left" {
		srcPop = srcList.LPop()
	} else {
		srcPop = srcList.RPop()
	}

	if desDrc == "left" {
		desList.LPush(srcPop.Val)
	} else {
		desList.RPush(srcPop.Val)
	}

	return resp.NewBulkString(srcPop.Val)
""","""	var desList *List
	if desVal, ok := db.dict.Get(des); ok {
		if desList, ok = desVal.(*List); !ok {
			return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
		}
	} else {
		desList = NewList()
		db.dict.Set(des, desList)
	}

	pop, push := srcList.RPop, desList.RPush
	if srcDrc == "left" {
		pop = srcList.LPop
	}
	if desDrc == "left" {
		push = desList.LPush
	}
	moved := pop().Val
	push(moved)
	if srcList.Len == 0 {
		db.dict.Delete(src)
		db.DeleteExpire(src)
	}
	return resp.NewBulkString(moved)
""")
sub(L,"""	if count == 1 {
		node := l.LPop()
		if node == nil {
			return resp.NewBulkString(nil)
		} else {
			return resp.NewBulkString(node.Val)
		}
	}

	if count > l.Len {
		count = l.Len
	}

	res := make([]resp.RedisData, 0, count)
	for i := 0; i < count; i++ {
		node := l.LPop()
		if node == nil {
			break
		}
		res = append(res, resp.NewBulkString(node.Val))
	}
""","""	if count == 1 {
		return resp.NewBulkString(l.LPop().Val)
	}

	res := make([]resp.RedisData, 0)
	for ; count > 0 && l.Len > 0; count-- {
		res = append(res, resp.NewBulkString(l.LPop().Val))
	}
""")
LS="memdb/list_struct.go"
body(LS,"(l *List) LPop","""func (l *List) LPop() *ListNode {
	if l.Len == 0 {
		return nil
	}
	first := l.Head.Next
	l.unlink(first)
	return first
}

func (l *List) unlink(n *ListNode) {
	n.Prev.Next = n.Next
	n.Next.Prev = n.Prev
	l.Len--
}
""")
body(LS,"(l *List) RPop","""func (l *List) RPop() *ListNode {
	if l.Len == 0 {
		return nil
	}
	last := l.Tail.Prev
	l.unlink(last)
	return last
}
""")
body(LS,"(l *List) LPush","""func (l *List) LPush(val []byte) {
	l.insert(l.Head, l.Head.Next, val)
}

func (l *List) insert(prev, next *ListNode, val []byte) {
	node := &ListNode{Prev: prev, Next: next, Val: val}
	prev.Next = node
	next.Prev = node
	l.Len++
}
""")
body(LS,"(l *List) RPush","""func (l *List) RPush(val []byte) {
	l.insert(l.Tail.Prev, l.Tail, val)
}
""")
body(LS,"(l *List) InsertBefore","""func (l *List) InsertBefore(val []byte, pivot []byte) bool {
	cur := l.find(pivot)
	if cur == nil {
		return false
	}
	l.insert(cur.Prev, cur, val)
	return true
}

func (l *List) find(val []byte) *ListNode {
	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
		if bytes.Equal(cur.Val, val) {
			return cur
		}
	}
	return nil
}
""")
sub(LS,"""			if bytes.Equal(cur.Val, val) {
				cur.Next.Prev = cur.Prev
				cur.Prev.Next = cur.Next
				l.Len--
				removed++
			}
			cur = cur.Next
""","""			next := cur.Next
			if bytes.Equal(cur.Val, val) {
				l.unlink(cur)
				removed++
			}
			cur = next
""")
sub(LS,"""	res := make([][]byte, 0, end-start+1)
	cur := l.Head
	for i := 0; i <= end; i++ {
		cur = cur.Next
		if i >= start {
			res = append(res, cur.Val)
		}
	}
	return res
""","""	res := make([][]byte, 0, end-start+1)
	node := l.Index(start)
	for len(res) < end-start+1 {
		res = append(res, node.Val)
		node = node.Next
	}
	return res
""")
go("C")
