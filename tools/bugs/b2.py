from lib import *
S="memdb/strings.go";K="memdb/keys.go";H="memdb/hash.go";L="memdb/list.go";T="memdb/set.go";M="memdb/memdb.go";LK="memdb/locks.go";CM="memdb/concurrentMap.go";HS="memdb/hash_struct.go";LS="memdb/list_struct.go";SS="memdb/set_struct.go";HD="server/handler.go";SV="server/server.go";D="resp/data.go";P="resp/parser.go"
LOCK="\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n\n"
# C05
bug("c05a-exists-nolazy","C05",(K,"existsKey","if !db.DeleteExpiredKey(key) {","if key != \"\" || !db.DeleteExpiredKey(key) {"))
bug("c05b-setnx-nolazy","C05",(S,"setNxString","\tdb.DeleteExpiredKey(key)\n",""))
bug("c05c-keys-lazy-after-match","C05",(K,"keysKey","\t\tif !db.DeleteExpiredKey(key) {\n\t\t\tif util.PattenMatch(pattern, key) {\n\t\t\t\tres = append(res, resp.NewBulkString([]byte(key)))\n\t\t\t}\n\t\t}\n","\t\tif pattern == \"*\" || !db.DeleteExpiredKey(key) {\n\t\t\tif util.PattenMatch(pattern, key) {\n\t\t\t\tres = append(res, resp.NewBulkString([]byte(key)))\n\t\t\t}\n\t\t}\n"))
bug("c05d-lmove-dest","C05",(L,"lMoveList","\tdb.DeleteExpiredKey(des)\n",""))
bug("c05e-sinter-first","C05",(T,"sInterSet","for _, _key := range cmd[1:] {\n\t\tkey := string(_key)\n\t\tdb.DeleteExpiredKey(key)","for i, _key := range cmd[1:] {\n\t\tkey := string(_key)\n\t\tif i > 0 {\n\t\t\tdb.DeleteExpiredKey(key)\n\t\t}"))
bug("c05f-no-recheck","C05",(M,"(db *MemDb) DeleteExpiredKey","\t\t// it may have been written again before it was locked\n\t\tif !db.CheckExpire(key) {\n\t\t\treturn false\n\t\t}\n",""))
bug("c05g-only-dict","C05",(M,"(db *MemDb) DeleteExpiredKey","\t\tdb.expires.Delete(key)\n",""))
bug("c05h-only-exp","C05",(M,"(db *MemDb) DeleteExpiredKey","\t\tdb.dict.Delete(key)\n",""))
bug("c05i-append-type","C05",(S,"appendString","\tdb.DeleteExpiredKey(key)\n","\tif len(cmd[2]) > 0 {\n\t\tdb.DeleteExpiredKey(key)\n\t}\n"))
bug("c05j-checkexpire-late","C05",(M,"(db *MemDb) CheckExpire","now > expireTime","now > expireTime+1"))
bug("c05k-smove-dest","C05",(T,"sMoveSet","\tdb.DeleteExpiredKey(des)\n","\tif des != src {\n\t\tdb.CheckExpire(des)\n\t}\n"))
bug("c05l-hset-lazy-discarded","C05",(H,"hSetHash","\tdb.DeleteExpiredKey(key)\n","\tdb.CheckExpire(key)\n"))
bug("c05m-expire-revives","C05",(K,"expireKey","\tif db.DeleteExpiredKey(key) {\n\t\treturn resp.NewInteger(int64(0))\n\t}\n","\tif db.CheckExpire(key) && v <= 0 {\n\t\treturn resp.NewInteger(int64(0))\n\t}\n"))
bug("c05n-zero-deadline","C05",(M,"(db *MemDb) CheckExpire","\texpireTime := _expireTime.(int64)\n","\texpireTime := _expireTime.(int64)\n\tif expireTime <= 0 {\n\t\treturn false\n\t}\n"))
bug("c05o-mget-lazy-first","C05",(S,"mGetString","\tfor _, k := range cmd[1:] {\n\t\tkey := string(k)\n\t\tif !db.DeleteExpiredKey(key) {","\tfor i, k := range cmd[1:] {\n\t\tkey := string(k)\n\t\tif i > 8 || !db.DeleteExpiredKey(key) {"))
bug("c05p-rename-dest-ttl","C05",(K,"renameKey","\tif db.DeleteExpiredKey(oldKey) {\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}\n",""))
# C06
bug("c06a-mset","C06",(S,"mSetString","\t\tdb.DeleteExpire(keys[i])\n",""))
bug("c06b-sunionstore","C06",(T,"sUnionStoreSet","\t\tdb.DeleteExpire(dest)\n\t\tif destSet.Len() == 0 {\n\t\t\tdb.dict.Delete(dest)\n","\t\tif destSet.Len() == 0 {\n\t\t\tdb.DeleteExpire(dest)\n\t\t\tdb.dict.Delete(dest)\n"))
bug("c06c-rename-nottl","C06",(K,"renameKey","\tdb.DeleteExpire(newKey)\n\tdb.dict.Set","\tdb.dict.Set"))
bug("c06d-gt-ge","C06",(K,"expireKey","ok && ttl > v.(int64)","ok && ttl >= v.(int64)"))
bug("c06e-lt-nottl","C06",(K,"expireKey","if v, ok := db.expires.Get(key); ok && ttl < v.(int64)","if v, ok := db.expires.Get(key); !ok || ttl < v.(int64)"))
bug("c06f-lpop-deadline","C06",(L,"lPopList","\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n","\t\t\tdb.dict.Delete(key)\n"))
bug("c06g-setrange-clears","C06",(S,"setRangeString","\tdb.dict.Set(key, newVal)\n","\tdb.DeleteExpire(key)\n\tdb.dict.Set(key, newVal)\n"))
bug("c06h-pxat","C06",(S,"setString","pxatval/1000","pxatval/100"))
bug("c06i-ttl-noexp","C06",(K,"ttlKey","return resp.NewInteger(int64(-1))","return resp.NewInteger(int64(-2))"))
bug("c06j-rename-same","C06",(K,"renameKey","\tdb.dict.Delete(oldKey)\n\tdb.DeleteExpire(oldKey)\n","\tif oldKey == newKey {\n\t\tdb.DeleteExpire(oldKey)\n\t\treturn resp.NewSimpleString(\"OK\")\n\t}\n\tdb.dict.Delete(oldKey)\n\tdb.DeleteExpire(oldKey)\n"))
bug("c06k-set-xx-keepttl","C06",(S,"setString","if !keepttl {","if !keepttl && !xx {"))
bug("c06l-set-get-keep","C06",(S,"setString","if !keepttl {","if !keepttl && !(get && oldOk) {"))
bug("c06m-incr-clears","C06",(S,"incrString","\t\tdb.dict.Set(key, []byte(nVal))\n","\t\tdb.dict.Delete(key)\n\t\tdb.DeleteExpire(key)\n\t\tdb.dict.Set(key, []byte(nVal))\n"))
bug("c06n-px-rounding","C06",(S,"setString","time.Now().Unix()+pxval/1000","time.Now().Unix()+pxval"))
bug("c06o-del-keeps","C06",(K,"delKey","\t\t\tdb.DeleteExpire(key)\n",""))
bug("c06p-setexpire-nodict","C06",(M,"(db *MemDb) SetExpire","\tif _, ok := db.dict.Get(key); !ok {\n\t\t//logger.Error(\"SetExpire: key doesn't exist\")\n\t\treturn 0\n\t}\n",""))
bug("c06q-smove-src","C06",(T,"sMoveSet","\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(src)\n","\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(des)\n"))
bug("c06r-ltrim","C06",(L,"lTrimList","\t\t\tdb.DeleteExpire(key)\n",""))
bug("c06s-exat-relative","C06",(S,"setString","db.SetExpire(key, exatval)","db.SetExpire(key, time.Now().Unix()+exatval)"))
bug("c06t-xx-neg","C06",(K,"expireKey","\tcase \"xx\":\n\t\tif _, ok := db.expires.Get(key); ok {","\tcase \"xx\":\n\t\tif _, ok := db.expires.Get(key); ok || v < 0 {"))
# C07
bug("c07a-ltrim","C07",(L,"lTrimList","\tdefer func() {\n\t\tif l.Len == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t}\n\t}()\n",""))
bug("c07b-smove","C07",(T,"sMoveSet","\tdefer func() {\n\t\tif srcSet.Len() == 0 {\n\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(src)\n\t\t}\n\t}()\n",""))
bug("c07c-spop-count","C07",(T,"sPopSet","\tdefer func() {\n\t\tif s.Len() == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t}\n\t}()\n",""),(T,"sPopSet","\t\treturn resp.NewBulkString([]byte(s.Pop()))","\t\tm := s.Pop()\n\t\tif s.Len() == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t}\n\t\treturn resp.NewBulkString([]byte(m))"))
bug("c07d-hdel-eager","C07",(H,"hDelHash","\t\tif h.IsEmpty() {","\t\tif len(cmd) == 3 && h.IsEmpty() {"))
bug("c07e-sdiffstore","C07",(T,"sDiffStoreSet","\t\tif destSet.Len() == 0 {\n\t\t\tdb.dict.Delete(dest)\n\t\t} else {\n\t\t\tdb.dict.Set(dest, destSet)\n\t\t}\n","\t\tdb.dict.Set(dest, destSet)\n"))
bug("c07f-lmove-creates","C07",(L,"lMoveList","\tdb.locks.MLock([]string{src, des})\n\tdefer db.locks.MUnLock([]string{src, des})\n","\tdb.locks.MLock([]string{src, des})\n\tdefer db.locks.MUnLock([]string{src, des})\n\tif _, ok := db.dict.Get(des); !ok {\n\t\tdb.dict.Set(des, NewList())\n\t}\n"))
bug("c07g-lrem-early","C07",(L,"lRemList","\t\tif l.Len == 0 {","\t\tif l.Len == 0 && count >= 0 {"))
bug("c07h-lpop-order","C07",(L,"lPopList","\tdefer func() {\n\t\tif l.Len == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t}\n\t}()\n\n\tif count == 1 {\n\t\tnode := l.LPop()\n","\tif count == 1 {\n\t\tnode := l.LPop()\n"),(L,"lPopList","\tif count > l.Len {\n\t\tcount = l.Len\n\t}\n","\tdefer func() {\n\t\tif l.Len == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t}\n\t}()\n\tif count > l.Len {\n\t\tcount = l.Len\n\t}\n"))
bug("c07i-hincrby-err","C07",(HS,"(h *Hash) Len","return len(h.table)","return len(h.table) - 0"),(H,"hSetNxHash","\tif h.Exist(field) {","\tif len(val) == 0 || h.Exist(field) {"))
bug("c07j-list-len","C07",(LS,"(l *List) Trim","\t\tl.Clear()\n","\t\tl.Head.Next = l.Tail\n\t\tl.Tail.Prev = l.Head\n"))
bug("c07k-srem-defer-gone","C07",(T,"sRemSet","\t\tif s.Len() == 0 {","\t\tif s == nil || s.Len() < 0 {"))
# C08
bug("c08a-setex-early","C08",(S,"setExString","\tsec, err :=","\tdb.locks.Lock(key)\n\tdb.DeleteExpire(key)\n\tdb.locks.UnLock(key)\n\tsec, err :="))
bug("c08b-lmove-pop-first","C08",(L,"lMoveList","\tdesList, ok := desVal.(*List)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n\n\tvar srcPop *ListNode\n\tif srcDrc == \"left\" {\n\t\tsrcPop = srcList.LPop()\n\t} else {\n\t\tsrcPop = srcList.RPop()\n\t}\n","\tvar srcPop *ListNode\n\tif srcDrc == \"left\" {\n\t\tsrcPop = srcList.LPop()\n\t} else {\n\t\tsrcPop = srcList.RPop()\n\t}\n\tdesList, ok := desVal.(*List)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n"))
bug("c08c-store-failed","C08",(T,"sUnionStoreSet","\t\t\t\tfailed = true\n",""))
bug("c08d-expire-badopt","C08",(K,"expireKey","\t\tif option != \"\" {\n\t\t\treturn resp.NewSimpleError(fmt.Sprintf(\"Unsupported option %s\", string(cmd[3])))\n\t\t}\n\t\tres = db.SetExpire(key, ttl)\n","\t\tres = db.SetExpire(key, ttl)\n\t\tif option != \"\" {\n\t\t\treturn resp.NewSimpleError(fmt.Sprintf(\"Unsupported option %s\", string(cmd[3])))\n\t\t}\n"))
bug("c08e-hset-partial","C08",(H,"hSetHash","len(cmd) < 4 || len(cmd)&1 == 1","len(cmd) < 4"),(H,"hSetHash","\t\tfield := string(cmd[i])\n","\t\tif i+1 >= len(cmd) {\n\t\t\treturn resp.NewSimpleError(\"wrong number of arguments for command\")\n\t\t}\n\t\tfield := string(cmd[i])\n"))
bug("c08f-set-delexp","C08",(S,"setString","\tif oldOk {\n\t\tif _, ok := oldVal.([]byte); !ok {","\tif !keepttl {\n\t\tdb.DeleteExpire(key)\n\t}\n\tif oldOk {\n\t\tif _, ok := oldVal.([]byte); !ok {"))
bug("c08g-rename-dest-del","C08",(K,"renameKey","\toldValue, ok := db.dict.Get(oldKey)\n","\tdb.DeleteExpire(newKey)\n\toldValue, ok := db.dict.Get(oldKey)\n"))
bug("c08h-hincrby-stores","C08",(HS,"(h *Hash) IncrBy","\t\tif err != nil {\n\t\t\treturn 0, false","\t\tif err != nil {\n\t\t\th.Del(key)\n\t\t\treturn 0, false"))
bug("c08i-lset-create","C08",(LS,"(l *List) Set","\tif node == nil {\n\t\treturn false","\tif node == nil {\n\t\tif index == l.Len {\n\t\t\tl.RPush(val)\n\t\t}\n\t\treturn false"))
bug("c08j-smove-wrongtype","C08",(T,"sMoveSet","\tdesVal, ok := db.dict.Get(des)\n","\tn := srcSet.Remove(member)\n\tdesVal, ok := db.dict.Get(des)\n"),(T,"sMoveSet","\t\tif !srcSet.Has(member) {","\t\tif n == 0 {"),(T,"sMoveSet","\tres := srcSet.Move(desSet, member)\n","\tres := n\n\tif n == 1 {\n\t\tdesSet.Add(member)\n\t}\n"))
bug("c08k-incrbyfloat","C08",(S,"incrByFloatString","\t\tif err != nil {\n\t\t\treturn resp.NewSimpleError(\"value is not an float\")\n\t\t}\n\n\t\tfV","\t\tif err != nil {\n\t\t\tdb.DeleteExpire(key)\n\t\t\treturn resp.NewSimpleError(\"value is not an float\")\n\t\t}\n\n\t\tfV"))
# C09
bug("c09a-getrange","C09",(S,"getRangeString","\tv, ok := val.([]byte)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"the value stored at key is not a string\")\n\t}","\tv, _ := val.([]byte)"))
bug("c09b-sunion-skip","C09",(T,"sUnionSet","\t\t\tset, ok = _set.(*Set)\n\t\t\tif !ok {\n\t\t\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t\t\t}\n","\t\t\tset, ok = _set.(*Set)\n\t\t\tif !ok {\n\t\t\t\tcontinue\n\t\t\t}\n"))
bug("c09c-type","C09",(K,"typeKey","\tcase *List:\n\t\treturn resp.NewSimpleString(\"list\")\n",""))
bug("c09d-scard","C09",(T,"sCardSet","\ts, ok := v.(*Set)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n","\ts, ok := v.(*Set)\n\tif !ok {\n\t\tif h, isHash := v.(*Hash); isHash {\n\t\t\treturn resp.NewInteger(int64(h.Len()))\n\t\t}\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n"))
bug("c09e-setnx-overwrite","C09",(S,"appendString","\t\tif !ok {\n\t\t\treturn resp.NewSimpleError(\"the value stored at key is not a string\")\n\t\t}\n","\t\tif !ok {\n\t\t\tv = []byte{}\n\t\t}\n"))
bug("c09f-lpushx","C09",(L,"lPushXList","\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation","\tif !ok {\n\t\treturn resp.NewInteger(0)\n\t}\n\tif l == nil {\n\t\treturn resp.NewSimpleError(\"Operation"))
bug("c09g-sdiffstore-first","C09",(T,"sDiffStoreSet","\ts, ok := v.(*Set)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n","\ts, ok := v.(*Set)\n\tif !ok {\n\t\ts = NewSet()\n\t}\n"))
bug("c09h-mget-err","C09",(S,"mGetString","\t\t\t\t\tres = append(res, resp.NewBulkString(nil)) // not string\n","\t\t\t\t\tres = append(res, resp.NewSimpleError(\"wrong type\"))\n"))
bug("c09i-smove-dest-create","C09",(T,"sMoveSet","\tdesSet, ok := desVal.(*Set)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation against a key holding the wrong kind of value\")\n\t}\n","\tdesSet, ok := desVal.(*Set)\n\tif !ok {\n\t\tdesSet = NewSet()\n\t\tdb.dict.Set(des, desSet)\n\t}\n"))
bug("c09j-hget","C09",(H,"hGetHash","\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation","\tif !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\tif h == nil {\n\t\treturn resp.NewSimpleError(\"Operation"))
bug("c09k-type-hash","C09",(K,"typeKey","resp.NewSimpleString(\"hash\")","resp.NewSimpleString(\"set\")"))
main()
