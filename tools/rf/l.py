# function values in tables, one body for several commands, matching by other means
from lib import *
import sys,re
SE="memdb/set.go"; L="memdb/list.go"; K="memdb/keys.go"; U="util/util.go"; M="memdb/memdb.go"; ST="memdb/strings.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"("); j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
def L1():
    s=rd(SE)
    s=s.replace("func sAddSet(",'''type setOp func(first *Set, rest ...*Set) *Set

func keysOf(db *MemDb, words [][]byte) []string {
	keys := make([]string, len(words))
	for i, w := range words {
		keys[i] = string(w)
		db.DeleteExpiredKey(keys[i])
	}
	return keys
}

// calc applies op to the sets under the keys, which the caller has locked.
func calc(db *MemDb, keys []string, op setOp) (*Set, bool) {
	sets := make([]*Set, 0, len(keys))
	for _, key := range keys {
		v, ok := db.dict.Get(key)
		if !ok {
			sets = append(sets, NewSet())
			continue
		}
		set, ok := v.(*Set)
		if !ok {
			return nil, false
		}
		sets = append(sets, set)
	}
	return op(sets[0], sets[1:]...), true
}

func setCalc(db *MemDb, cmd [][]byte, op setOp) resp.RedisData {
	if len(cmd) < 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	keys := keysOf(db, cmd[1:])
	db.locks.MRLock(keys)
	defer db.locks.MRUnLock(keys)
	set, ok := calc(db, keys, op)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	var res []resp.RedisData
	for _, mem := range set.Members() {
		res = append(res, resp.NewBulkString([]byte(mem)))
	}
	return resp.NewArray(res)
}

func setStore(db *MemDb, cmd [][]byte, op setOp) resp.RedisData {
	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	keys := keysOf(db, cmd[1:])
	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)
	dest := keys[0]
	set, ok := calc(db, keys[1:], op)
	if !ok {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	db.DeleteExpire(dest)
	if set.Len() == 0 {
		db.dict.Delete(dest)
	} else {
		db.dict.Set(dest, set)
	}
	return resp.NewInteger(int64(set.Len()))
}

func sAddSet(''',1)
    wr(SE,s)
    for n,o in (("Inter","Intersect"),("Diff","Difference"),("Union","Union")):
        body(SE,"s%sSet"%n,'func s%sSet(db *MemDb, cmd [][]byte) resp.RedisData {\n	return setCalc(db, cmd, (*Set).%s)\n}'%(n,o))
        body(SE,"s%sStoreSet"%n,'func s%sStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {\n	return setStore(db, cmd, (*Set).%s)\n}'%(n,o))
    go("L1")
def L2():
    s=rd(L)
    i=s.index("	srcDrc := strings.ToLower"); j=s.index("	db.locks.MLock([]string{src, des})")
    s=s[:i]+'''	pop, ok1 := popEnd[strings.ToLower(string(cmd[3]))]
	push, ok2 := pushEnd[strings.ToLower(string(cmd[4]))]
	if !ok1 || !ok2 {
		return resp.NewSimpleError("syntax error")
	}

'''+s[j:]
    i=s.index("	var srcPop *ListNode"); j=s.index("func lPopList(")
    s=s[:i]+'''	node := pop(srcList)
	push(desList, node.Val)
	return resp.NewBulkString(node.Val)
}

var popEnd = map[string]func(*List) *ListNode{"left": (*List).LPop, "right": (*List).RPop}
var pushEnd = map[string]func(*List, []byte){"left": (*List).LPush, "right": (*List).RPush}

'''+s[j:]
    wr(L,s)
    s=rd(K)
    i=s.index("	switch option {\n	case \"nx\""); j=s.index("func persistKey(")
    s=s[:i]+'''	var old int64
	_old, has := db.expires.Get(key)
	if has {
		old = _old.(int64)
	}
	var set bool
	switch option {
	case "":
		set = true
	case "nx":
		set = !has
	case "xx":
		set = has
	case "gt":
		set = has && ttl > old
	case "lt":
		set = has && ttl < old
	default:
		return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
	}
	if set {
		res = db.SetExpire(key, ttl)
	}
	return resp.NewInteger(int64(res))
}

'''+s[j:]
    wr(K,s)
    go("L2")
def L3():
    body(U,"PattenMatch",'''
func PattenMatch(pattern, src string) bool {
	p, s := 0, 0
	for p < len(pattern) {
		if pattern[p] == '*' {
			rest := strings.TrimLeft(pattern[p:], "*")
			if rest == "" {
				return true
			}
			for ; s < len(src); s++ {
				if PattenMatch(rest, src[s:]) {
					return true
				}
			}
			return false
		}
		if s == len(src) {
			return false
		}
		switch c := pattern[p]; c {
		case '?':
			p++
		case '[':
			ok, next := matchClass(pattern, p+1, src[s])
			if !ok {
				return false
			}
			p = next
		default:
			if c != src[s] {
				return false
			}
			p++
		}
		s++
	}
	return s == len(src)
}

// matchClass matches c against the class that starts at i and answers where the pattern goes on.
func matchClass(pattern string, i int, c byte) (bool, int) {
	end := strings.IndexByte(pattern[i:], ']')
	if end < 0 {
		return false, i
	}
	end += i
	not := i < end && pattern[i] == '^'
	if not {
		i++
	}
	match := false
	for ; i < end; i++ {
		if pattern[i] == '-' && i+1 < len(pattern) && i > 0 {
			match = match || pattern[i-1] <= c && c <= pattern[i+1]
			i++
		} else {
			match = match || pattern[i] == c
		}
	}
	return match != not, end + 1
}''')
    s=rd(U)
    if '"strings"' not in s: s=s.replace("import (","import (\n\t\"strings\"",1)
    wr(U,s)
    go("L3")
def L4():
    s=rd(M)
    s+='''
func now() int64 { return time.Now().Unix() }

// read runs f while nobody changes the key.
func (db *MemDb) read(key string, f func() resp.RedisData) resp.RedisData {
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
	return f()
}

// write runs f while nobody else uses the key.
func (db *MemDb) write(key string, f func() resp.RedisData) resp.RedisData {
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	return f()
}

// drop removes the key.
func (db *MemDb) drop(key string) int {
	n := db.dict.Delete(key)
	db.DeleteExpire(key)
	return n
}
'''
    s=s.replace("	now := time.Now().Unix()\n\n	// true if","\n	// true if").replace("return now > expireTime","return expireTime < now()")
    s=s.replace("import (","import (\n\t\"gRedis/resp\"",1)
    wr(M,s)
    n=0
    for f in ("memdb/hash.go",SE,L,ST,K):
        s=rd(f)
        # whole bodies become closures
        out=[];i=0
        for m in re.finditer(r'	db\.locks\.(R?)Lock\(key\)\n	defer db\.locks\.R?UnLock\(key\)\n((?:.*\n)*?)\}\n',s):
            out.append(s[i:m.start()])
            b=m[2]
            out.append('	return db.%s(key, func() resp.RedisData {\n%s	})\n}\n'%("read" if m[1] else "write",b.lstrip("\n")))
            n+=1; i=m.end()
        out.append(s[i:])
        s="".join(out)
        s=s.replace("			db.dict.Delete(key)\n			db.DeleteExpire(key)\n","			db.drop(key)\n").replace("time.Now().Unix()","now()")
        if f in (K,ST) and "time." not in s: s=s.replace('	"time"\n','')
        wr(f,s)
    print("closures",n)
    import subprocess
    subprocess.run(["gofmt","-w","memdb"],cwd="/tmp/w")
    go("L4")
for n in sys.argv[1:] or ["L1","L2","L3","L4"]:
    reset(); globals()[n]()
