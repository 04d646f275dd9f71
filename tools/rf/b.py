from lib import *
reset()
# keys.go
sub("memdb/keys.go","""	deleted := 0
	for _, k := range cmd[1:] {
		key := string(k)
		if !db.DeleteExpiredKey(key) {
			db.locks.Lock(key)
			deleted += db.dict.Delete(key)
			db.DeleteExpire(key)
			db.locks.UnLock(key)
		}
	}
""","""	deleted := 0
	for i := 1; i < len(cmd); i++ {
		deleted += db.removeOne(string(cmd[i]))
	}
""")
app("memdb/keys.go","""func (db *MemDb) removeOne(key string) int {
	if db.DeleteExpiredKey(key) {
		return 0
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	db.expires.Delete(key)
	return db.dict.Delete(key)
}
""")
sub("memdb/keys.go","""		if !db.DeleteExpiredKey(key) {
			db.locks.RLock(key)
			if _, ok := db.dict.Get(key); ok {
				existed++
			}
			db.locks.RUnLock(key)
		}
""","""		if db.DeleteExpiredKey(key) {
			continue
		}
		db.locks.RLock(key)
		_, ok := db.dict.Get(key)
		db.locks.RUnLock(key)
		if ok {
			existed++
		}
""")
sub("memdb/keys.go","""	for _, key := range keys {
		if !db.DeleteExpiredKey(key) {
			if util.PattenMatch(pattern, key) {
				res = append(res, resp.NewBulkString([]byte(key)))
			}
		}
	}
""","""	for i := range keys {
		key := keys[i]
		if db.DeleteExpiredKey(key) || !util.PattenMatch(pattern, key) {
			continue
		}
		res = append(res, resp.NewBulkString([]byte(key)))
	}
""")
sub("memdb/keys.go","""	switch option {
	case "nx":
		if _, ok := db.expires.Get(key); !ok {
			res = db.SetExpire(key, ttl)
		}
	case "xx":
		if _, ok := db.expires.Get(key); ok {
			res = db.SetExpire(key, ttl)
		}
	case "gt":
		if v, ok := db.expires.Get(key); ok && ttl > v.(int64) {
			res = db.SetExpire(key, ttl)
		}
	case "lt":
		if v, ok := db.expires.Get(key); ok && ttl < v.(int64) {
			res = db.SetExpire(key, ttl)
		}
	default:
		if option != "" {
			return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
		}
		res = db.SetExpire(key, ttl)
	}
""","""	old, has := db.expires.Get(key)
	var oldTTL int64
	if has {
		oldTTL = old.(int64)
	}
	apply := false
	switch option {
	case "nx":
		apply = !has
	case "xx":
		apply = has
	case "gt":
		apply = has && oldTTL < ttl
	case "lt":
		apply = has && oldTTL > ttl
	case "":
		apply = true
	default:
		return resp.NewSimpleError("Unsupported option " + string(cmd[3]))
	}
	if apply {
		res = db.SetExpire(key, ttl)
	}
""")
sub("memdb/keys.go",'	"fmt"\n',"")
sub("memdb/keys.go","""	oldTTL, ok := db.expires.Get(oldKey)

	db.dict.Delete(oldKey)
	db.DeleteExpire(oldKey)
	// If newkey already exists it is overwritten
	db.dict.Delete(newKey)
	db.DeleteExpire(newKey)
	db.dict.Set(newKey, oldValue)

	// If a key is renamed with RENAME, the associated time to live is transferred to the new key name.
	if ok {
		db.SetExpire(newKey, oldTTL.(int64))
	}
""","""	deadline, hasTTL := db.expires.Get(oldKey)

	for _, k := range []string{oldKey, newKey} {
		db.DeleteExpire(k)
		db.dict.Delete(k)
	}
	db.dict.Set(newKey, oldValue)
	if hasTTL {
		db.expires.Set(newKey, deadline)
	}
""")
sub("memdb/keys.go","""	switch v.(type) {
	case []byte:
		return resp.NewSimpleString("string")
	case *Hash:
		return resp.NewSimpleString("hash")
	case *List:
		return resp.NewSimpleString("list")
	case *Set:
		return resp.NewSimpleString("set")
	}

	return resp.NewSimpleString("none")
""","""	name := "none"
	if _, ok := v.([]byte); ok {
		name = "string"
	} else if _, ok := v.(*Hash); ok {
		name = "hash"
	} else if _, ok := v.(*List); ok {
		name = "list"
	} else if _, ok := v.(*Set); ok {
		name = "set"
	}
	return resp.NewSimpleString(name)
""")
sub("memdb/keys.go","""	now := time.Now().Unix()
	ttl, ok := db.expires.Get(key)
	if !ok {
		return resp.NewInteger(int64(-1))
	}

	return resp.NewInteger(ttl.(int64) - now)
""","""	left := int64(-1)
	if ttl, ok := db.expires.Get(key); ok {
		left = ttl.(int64) - time.Now().Unix()
	}
	return resp.NewInteger(left)
""")
# strings: set options parsing helper + nx/xx restructure
for o,v in(("ex","exval"),("px","pxval"),("exat","exatval"),("pxat","pxatval")):
    sub("memdb/strings.go","""			%s = true
			optNum++
			i++
			if i >= len(cmd) {
				return resp.NewSimpleError("syntax error")
			}
			%s, err = strconv.ParseInt(string(cmd[i]), 10, 64)
			if err != nil {
				return resp.NewSimpleError("value is not an integer")
			}
"""%(o,v),"""			%s = true
			optNum++
			var bad resp.RedisData
			%s, i, bad = intOption(cmd, i)
			if bad != nil {
				return bad
			}
"""%(o,v),1)
sub("memdb/strings.go","	var err error\n	optNum := 0","	optNum := 0")
app("memdb/strings.go","""func intOption(cmd [][]byte, i int) (int64, int, resp.RedisData) {
	i++
	if i >= len(cmd) {
		return 0, i, resp.NewSimpleError("syntax error")
	}
	v, err := strconv.ParseInt(string(cmd[i]), 10, 64)
	if err != nil {
		return 0, i, resp.NewSimpleError("value is not an integer")
	}
	return v, i, nil
}
""")
s=rd("memdb/strings.go")
a=s.index("	if nx || xx {\n		if nx {"); b=s.index("	if !keepttl {")
s=s[:a]+"""	refused := nx && oldOk || xx && !oldOk
	switch {
	case get && oldOk:
		res = resp.NewBulkString(oldVal.([]byte))
	case get || refused:
		res = resp.NewBulkString(nil)
	default:
		res = resp.NewSimpleString("OK")
	}
	if refused {
		return res
	}
	db.dict.Set(key, val)

"""+s[b:]
wr("memdb/strings.go",s)
sub("memdb/strings.go","""	if ex {
		db.SetExpire(key, time.Now().Unix()+exval)
	}
	if px {
		db.SetExpire(key, time.Now().Unix()+pxval/1000)
	}
	if exat {
		db.SetExpire(key, exatval)
	}
	if pxat {
		db.SetExpire(key, pxatval/1000)
	}
""","""	var deadline int64
	switch {
	case ex:
		deadline = time.Now().Unix() + exval
	case px:
		deadline = time.Now().Unix() + pxval/1000
	case exat:
		deadline = exatval
	case pxat:
		deadline = pxatval / 1000
	default:
		return res
	}
	db.expires.Set(key, deadline)
""")
sub("memdb/strings.go","""	val, ok := db.dict.Get(key)
	if ok {
		if v, ok := val.([]byte); !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		} else {
			return resp.NewBulkString(v)
		}
	} else {
		return resp.NewBulkString(nil)
	}
""","""	val, ok := db.dict.Get(key)
	if !ok {
		return resp.NewBulkString(nil)
	}
	switch v := val.(type) {
	case []byte:
		return resp.NewBulkString(v)
	default:
		return resp.NewSimpleError("the value stored at key is not a string")
	}
""")
sub("memdb/strings.go","""	for _, k := range cmd[1:] {
		key := string(k)
		if !db.DeleteExpiredKey(key) {
			db.locks.RLock(key)

			if val, ok := db.dict.Get(key); ok {
				if v, ok := val.([]byte); ok {
					res = append(res, resp.NewBulkString(v))
				} else {
					res = append(res, resp.NewBulkString(nil)) // not string
				}
			} else {
				res = append(res, resp.NewBulkString(nil))
			}

			db.locks.RUnLock(key)
		} else {
			res = append(res, resp.NewBulkString(nil))
		}
	}
""","""	for _, k := range cmd[1:] {
		key := string(k)
		var item []byte
		if !db.DeleteExpiredKey(key) {
			db.locks.RLock(key)
			if val, ok := db.dict.Get(key); ok {
				item, _ = val.([]byte)
			}
			db.locks.RUnLock(key)
		}
		res = append(res, resp.NewBulkString(item))
	}
""")
sub("memdb/strings.go","""	keys := make([]string, 0)
	vals := make([][]byte, 0)
	for i := 1; i < len(cmd); i += 2 {
		keys = append(keys, string(cmd[i]))
		vals = append(vals, cmd[i+1])
	}
""","""	pairs := (len(cmd) - 1) / 2
	keys := make([]string, pairs)
	vals := make([][]byte, pairs)
	for i := 0; i < pairs; i++ {
		keys[i] = string(cmd[2*i+1])
		vals[i] = cmd[2*i+2]
	}
""")
sub("memdb/strings.go","""	for i := 0; i < len(keys); i++ {
		db.DeleteExpire(keys[i])
		db.dict.Set(keys[i], vals[i])
	}
""","""	for i, key := range keys {
		db.dict.Set(key, vals[i])
		db.DeleteExpire(key)
	}
""")
# incr family through one helper
s=rd("memdb/strings.go")
import re
def repl_body(s,fn,body):
    a=s.index("func %s(db"%fn); b=s.index("\n}\n",a)+3
    return s[:a]+body+s[b:]
s=repl_body(s,"incrString","""func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return db.addTo(string(cmd[1]), 1)
}
""")
s=repl_body(s,"decrString","""func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return db.addTo(string(cmd[1]), -1)
}
""")
s=repl_body(s,"incrByString","""func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	n, err := strconv.ParseInt(string(cmd[2]), 10, 64)
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
	return db.addTo(string(cmd[1]), n)
}

func (db *MemDb) addTo(key string, delta int64) resp.RedisData {
	db.DeleteExpiredKey(key)

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	var n int64
	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}
		var err error
		n, err = strconv.ParseInt(string(v), 10, 64)
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
	}
	n += delta
	db.dict.Set(key, []byte(strconv.FormatInt(n, 10)))
	return resp.NewInteger(n)
}
""")
wr("memdb/strings.go",s)
sub("memdb/strings.go","""		v = append(v, apd...)
		db.dict.Set(key, v)
		return resp.NewInteger(int64(len(v)))
	} else {
		db.dict.Set(key, apd)
		return resp.NewInteger(int64(len(apd)))
	}
""","""		joined := make([]byte, 0, len(v)+len(apd))
		joined = append(joined, v...)
		joined = append(joined, apd...)
		apd = joined
	}
	db.dict.Set(key, apd)
	return resp.NewInteger(int64(len(apd)))
""")
sub("memdb/strings.go","""	if _, ok := db.dict.Get(key); ok {
		return resp.NewInteger(0)
	}

	db.dict.Set(key, val)

	return resp.NewInteger(1)
""","""	_, exists := db.dict.Get(key)
	if !exists {
		db.dict.Set(key, val)
		return resp.NewInteger(1)
	}
	return resp.NewInteger(0)
""")
sub("memdb/strings.go","""	newLen := len(oldVal)
	if offset+len(value) > newLen {
		newLen = offset + len(value)
	}
	newVal = make([]byte, newLen)
	copy(newVal, oldVal)
	copy(newVal[offset:], value)
""","""	end := offset + len(value)
	if end < len(oldVal) {
		end = len(oldVal)
	}
	newVal = append(make([]byte, 0, end), oldVal...)
	for len(newVal) < end {
		newVal = append(newVal, 0)
	}
	for i := range value {
		newVal[offset+i] = value[i]
	}
""")
go("B")
