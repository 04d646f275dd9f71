from lib import *
S="memdb/strings.go";K="memdb/keys.go";H="memdb/hash.go";L="memdb/list.go";T="memdb/set.go";M="memdb/memdb.go";LK="memdb/locks.go";CM="memdb/concurrentMap.go";HS="memdb/hash_struct.go";LS="memdb/list_struct.go";SS="memdb/set_struct.go";HD="server/handler.go";SV="server/server.go";D="resp/data.go";P="resp/parser.go";U="util/util.go";G="logger/logger.go";CF="config/config.go"
# C18
bug("c18a-setrange-inplace","C18",(S,"setRangeString","\tnewVal = make([]byte, newLen)\n\tcopy(newVal, oldVal)\n","\tif newLen <= len(oldVal) {\n\t\tnewVal = oldVal\n\t} else {\n\t\tnewVal = make([]byte, newLen)\n\t\tcopy(newVal, oldVal)\n\t}\n"))
bug("c18b-lset-copy","C18",(LS,"(l *List) Set","\tnode.Val = val\n","\tif len(node.Val) == len(val) {\n\t\tcopy(node.Val, val)\n\t} else {\n\t\tnode.Val = val\n\t}\n"))
bug("c18c-hincr-append","C18",(HS,"(h *Hash) IncrBy","h.Set(key, []byte(strconv.Itoa(value)))","h.Set(key, strconv.AppendInt(v[:0], int64(value), 10))"))
bug("c18d-incr-append","C18",(S,"incrString","\t\tnVal := strconv.FormatInt(nV, 10)\n\t\tdb.dict.Set(key, []byte(nVal))\n","\t\tdb.dict.Set(key, strconv.AppendInt(v[:0], nV, 10))\n"))
bug("c18e-parser-reuse","C18",(P,"readline","\t\tmsg = make([]byte, buf.stringLen+2)\n","\t\tif int64(cap(buf.scratch)) < buf.stringLen+2 {\n\t\t\tbuf.scratch = make([]byte, buf.stringLen+2)\n\t\t}\n\t\tmsg = buf.scratch[:buf.stringLen+2]\n"),(P,None,"\tinArray   bool\n","\tinArray   bool\n\tscratch   []byte\n"))
bug("c18f-peek","C18",(P,"readline","\t\tmsg = make([]byte, buf.stringLen+2)\n\t\t_, err = io.ReadFull(reader, msg)\n","\t\tif buf.stringLen+2 <= int64(reader.Size()) {\n\t\t\tmsg, err = reader.Peek(int(buf.stringLen + 2))\n\t\t\treader.Discard(len(msg))\n\t\t} else {\n\t\t\tmsg = make([]byte, buf.stringLen+2)\n\t\t\t_, err = io.ReadFull(reader, msg)\n\t\t}\n"))
bug("c18g-append-getrange","C18",(S,"appendString","v = append(v, apd...)","v = append(v[:len(v):cap(v)], apd...)"))
bug("c18h-getrange-zero","C18",(S,"getRangeString","return resp.NewBulkString(v[start:end])","part := v[start:end]\n\tfor i := range part {\n\t\tif part[i] == 0 {\n\t\t\tpart[i] = ' '\n\t\t}\n\t}\n\treturn resp.NewBulkString(part)"))
bug("c18i-hset-copy","C18",(HS,"(h *Hash) Set","\th.table[key] = v\n","\tif old := h.table[key]; cap(old) >= len(v) && old != nil {\n\t\th.table[key] = append(old[:0], v...)\n\t} else {\n\t\th.table[key] = v\n\t}\n"))
bug("c18j-decrby","C18",(S,"decrByString","\t\tnVal := strconv.FormatInt(nV, 10)\n\t\tdb.dict.Set(key, []byte(nVal))\n","\t\tnVal := strconv.FormatInt(nV, 10)\n\t\tif len(nVal) == len(v) {\n\t\t\tcopy(v, nVal)\n\t\t} else {\n\t\t\tdb.dict.Set(key, []byte(nVal))\n\t\t}\n"))
bug("c18k-bulk-crlf","C18",(D,"(b *BulkString) ToRedisFormat","func (b *BulkString) ToRedisFormat() []byte {\n","func (b *BulkString) ToRedisFormat() []byte {\n\tif len(b.data) > 0 && b.data[len(b.data)-1] == 0 {\n\t\tb.data[len(b.data)-1] = ' '\n\t}\n"))
bug("c18l-lpush-share","C18",(L,"lSetList","\tif !l.Set(val, index) {","\tif node := l.Index(index); node != nil && cap(node.Val) > len(val) {\n\t\tnode.Val = append(node.Val[:0], val...)\n\t\treturn resp.NewSimpleString(\"OK\")\n\t}\n\tif !l.Set(val, index) {"))
bug("c18m-toLowerInPlace","C18",(HD,"(m *Manager) ExecCommand","cmdName := strings.ToLower(string((cmd[0])))","for i, w := range cmd {\n\t\tif i > 2 && len(w) == 2 {\n\t\t\tcopy(w, strings.ToLower(string(w)))\n\t\t}\n\t}\n\tcmdName := strings.ToLower(string((cmd[0])))"))
# C19
bug("c19a-getrange-arity","C19",(S,"getRangeString","len(cmd) != 4","len(cmd) < 4"))
bug("c19b-set-nxxx","C19",(S,"setString","nx && xx || optNum > 1","nx && xx || optNum > 2"))
bug("c19c-set-keepttl-ex","C19",(S,"setString","\t\t\tkeepttl = true\n\t\t\toptNum++\n","\t\t\tkeepttl = true\n"))
bug("c19d-incrby-ignore","C19",(S,"incrByString","\tif err != nil {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n\n\tdb.locks","\tif err != nil && increment == 0 {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n\n\tdb.locks"))
bug("c19e-lindex-err","C19",(L,"lIndexList","\tif err != nil {\n\t\tif err != nil {\n\t\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t\t}\n\t}\n","\tif err != nil && index != 0 {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n"))
bug("c19f-linsert-flag","C19",(L,"lInsertList","if flag != \"before\" && flag != \"after\" {","if flag != \"before\" && flag != \"after\" && flag != \"\" {"))
bug("c19g-expire-opt","C19",(K,"expireKey","\t\tif option != \"\" {\n\t\t\treturn resp.NewSimpleError(fmt.Sprintf(\"Unsupported option %s\", string(cmd[3])))\n\t\t}\n\t\tres = db.SetExpire(key, ttl)\n","\t\tres = db.SetExpire(key, ttl)\n"),(K,"-imp","fmt",""))
bug("c19h-hset-odd","C19",(H,"hSetHash","len(cmd) < 4 || len(cmd)&1 == 1","len(cmd) < 4"),(H,"hSetHash","i < len(cmd); i += 2","i+1 < len(cmd); i += 2"))
bug("c19i-mset-odd","C19",(S,"mSetString","len(cmd) < 3 || len(cmd)&1 != 1","len(cmd) < 3"),(S,"mSetString","i < len(cmd); i += 2","i+1 < len(cmd); i += 2"))
bug("c19j-ping-many","C19",(K,"pingKeys","if len(cmd) > 2 {","if len(cmd) > 3 {"))
bug("c19k-select-two","C19",(HD,"(m *Manager) Select","len(cmd) != 2","len(cmd) < 2"))
bug("c19l-lpop-strict","C19",(L,"lPopList","if err != nil || count <= 0 {","if err != nil || count <= 0 || count > 1000000 {"))
bug("c19m-hincrby-trim","C19",(H,"hIncrByHash","strconv.Atoi(string(cmd[3]))","strconv.Atoi(strings.TrimSpace(string(cmd[3])))"))
bug("c19n-spop-zero","C19",(T,"sPopSet","if countVal <= 0 {","if countVal < 0 {"))
bug("c19o-srand-4","C19",(T,"sRandMemberSet","len(cmd) != 2 && len(cmd) != 3","len(cmd) < 2"))
bug("c19p-set-mono","C19",(S,"setString","\t\t\texval, err = strconv.ParseInt(string(cmd[i]), 10, 64)\n\t\t\tif err != nil {\n\t\t\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t\t\t}\n","\t\t\texval, err = strconv.ParseInt(string(cmd[i]), 10, 64)\n"))
bug("c19q-setex-float","C19",(S,"setExString","\tsec, err := strconv.ParseInt(string(cmd[2]), 10, 64)\n","\tsec, err := strconv.ParseInt(string(cmd[2]), 0, 64)\n"))
bug("c19r-hrandfield-wv","C19",(H,"hRandFieldHash","\t\tif strings.ToLower(string(cmd[3])) != \"withvalues\" {\n\t\t\treturn resp.NewSimpleError(\"syntax error\")\n\t\t} else {\n\t\t\twithvalues = true\n\t\t}\n","\t\twithvalues = strings.ToLower(string(cmd[3])) == \"withvalues\"\n"))
bug("c19s-lmove-dir","C19",(L,"lMoveList","(srcDrc != \"left\" && srcDrc != \"right\") || (desDrc != \"left\" && desDrc != \"right\")","(srcDrc != \"left\" && srcDrc != \"right\") && (desDrc != \"left\" && desDrc != \"right\")"))
bug("c19t-lpos-rank0","C19",(L,"lPosList","\t\t\t\tif countVal < 0 {\n\t\t\t\t\treturn resp.NewSimpleError(\"COUNT can't be negative\")\n\t\t\t\t}\n",""))
bug("c19u-lpos-unknown","C19",(L,"lPosList","\t\t\tdefault:\n\t\t\t\treturn resp.NewSimpleError(fmt.Sprintf(\"Unsupported option %s\", string(cmd[i])))\n",""),(L,"-imp","fmt",""))
bug("c19v-setrange-neg","C19",(S,"setRangeString","offset < 0 || offset > maxStringLen-len(cmd[3])","offset > maxStringLen-len(cmd[3])"),(S,"setRangeString","\tvalue := cmd[3]\n","\tvalue := cmd[3]\n\tif offset < 0 {\n\t\toffset = 0\n\t}\n"))
bug("c19w-incr-strict","C19",(S,"incrByString","\tif err != nil {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n\n\tdb.locks","\tif err != nil || increment < 0 {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n\n\tdb.locks"))
bug("c19x-append-arity","C19",(S,"appendString","len(cmd) != 3","len(cmd) < 3"))
bug("c19y-ltrim-swallow","C19",(L,"lTrimList","\tend, err := strconv.Atoi(string(cmd[3]))\n\tif err != nil {\n\t\treturn resp.NewSimpleError(\"value is not an integer\")\n\t}\n","\tend, _ := strconv.Atoi(string(cmd[3]))\n"))
bug("c19z-mget-max","C19",(S,"mGetString","if len(cmd) < 2 {","if len(cmd) < 2 || len(cmd) > 1024 {"))
# C20
bug("c20a-lrange-miss","C20",(L,"lRangeList","\tv, ok := db.dict.Get(key)\n\tif !ok {\n\t\treturn resp.NewArray(nil)\n\t}","\tv, ok := db.dict.Get(key)\n\tif !ok {\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}"))
bug("c20b-lset-miss-create","C20",(L,"lSetList","\tif !ok {\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}\n\n\t// wrong","\tif !ok {\n\t\tif index == 0 {\n\t\t\tl := NewList()\n\t\t\tl.RPush(val)\n\t\t\tdb.dict.Set(key, l)\n\t\t\treturn resp.NewSimpleString(\"OK\")\n\t\t}\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}\n\n\t// wrong"))
bug("c20c-decrby-sign","C20",(S,"decrByString","[]byte(strconv.FormatInt(-decrement, 10))","[]byte(strconv.FormatInt(decrement, 10))"))
bug("c20d-decrby-reply","C20",(S,"decrByString","return resp.NewInteger(-decrement)","return resp.NewInteger(decrement)"))
bug("c20e-ttl-missing","C20",(K,"ttlKey","\tif _, ok := db.dict.Get(key); !ok {\n\t\treturn resp.NewInteger(int64(-2))\n\t}\n",""))
bug("c20f-hincr-empty","C20",(HS,"(h *Hash) IncrBy","h.Set(key, []byte(strconv.Itoa(increment)))\n\t\treturn increment, true","h.Set(key, []byte(strconv.Itoa(1)))\n\t\treturn 1, true"))
bug("c20g-linsert-create","C20",(L,"lInsertList","\tif !ok {\n\t\treturn resp.NewInteger(0)\n\t}\n\n\t// wrong","\tif !ok {\n\t\treturn resp.NewInteger(-1)\n\t}\n\n\t// wrong"))
bug("c20h-pushx","C20",(L,"rPushXList","\tif !ok {\n\t\treturn resp.NewInteger(0)\n\t}\n\n\t// wrong","\tif !ok {\n\t\tv = NewList()\n\t\tif len(cmd) > 3 {\n\t\t\tdb.dict.Set(key, v)\n\t\t} else {\n\t\t\treturn resp.NewInteger(0)\n\t\t}\n\t}\n\n\t// wrong"))
bug("c20i-setrange-pad","C20",(S,"setRangeString","\t\toldVal = make([]byte, 0)\n","\t\toldVal = []byte(\"\")\n\t\tif offset > 0 {\n\t\t\toldVal = []byte{' '}\n\t\t}\n"))
bug("c20j-setrange-empty","C20",(S,"setRangeString","\t\toldVal = make([]byte, 0)\n","\t\toldVal = make([]byte, 0)\n\t\tif len(value) == 0 {\n\t\t\treturn resp.NewInteger(int64(offset))\n\t\t}\n"))
bug("c20k-append-miss","C20",(S,"appendString","\t\tdb.dict.Set(key, apd)\n\t\treturn resp.NewInteger(int64(len(apd)))\n","\t\tif len(apd) > 0 {\n\t\t\tdb.dict.Set(key, apd[:len(apd):len(apd)])\n\t\t}\n\t\treturn resp.NewInteger(int64(len(apd)))\n"))
bug("c20l-type-none","C20",(K,"typeKey","\tif !ok {\n\t\treturn resp.NewSimpleString(\"none\")\n\t}\n","\tif !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n"))
bug("c20m-expire-missing","C20",(M,"(db *MemDb) SetExpire","\tif _, ok := db.dict.Get(key); !ok {\n\t\t//logger.Error(\"SetExpire: key doesn't exist\")\n\t\treturn 0\n\t}\n","\tif _, ok := db.dict.Get(key); !ok && ttl >= 0 {\n\t\treturn 0\n\t}\n"))
bug("c20n-rename-missing-ok","C20",(K,"renameKey","\tif !ok {\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}\n","\tif !ok {\n\t\tif oldKey == newKey {\n\t\t\treturn resp.NewSimpleString(\"OK\")\n\t\t}\n\t\treturn resp.NewSimpleError(\"no such key\")\n\t}\n"))
bug("c20o-lpop-count-miss","C20",(L,"lPopList","\tif !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\n\t// wrong","\tif !ok {\n\t\tif len(cmd) == 3 {\n\t\t\treturn resp.NewInteger(0)\n\t\t}\n\t\treturn resp.NewBulkString(nil)\n\t}\n\n\t// wrong"))
bug("c20p-hmget-short","C20",(H,"hMGetHash","\t\t// a key that does not exist is treated as an empty hash.\n\t\tv = NewHash()\n","\t\treturn resp.NewArray([]resp.RedisData{resp.NewBulkString(nil)})\n"))
bug("c20q-sadd-dup-miss","C20",(T,"sAddSet","\t\tv = NewSet()\n\t\tdb.dict.Set(key, v)\n","\t\tv = NewSet()\n\t\tdb.dict.Set(key, v)\n\t\tif len(cmd) == 3 {\n\t\t\tv.(*Set).Add(string(cmd[2]))\n\t\t}\n"))
bug("c20r-incrfloat","C20",(S,"incrByFloatString","f := []byte(strconv.FormatFloat(increment, 'f', -1, 64))","f := []byte(strconv.FormatFloat(increment, 'f', 17, 64))"))
bug("c20s-smove-missdest","C20",(T,"sMoveSet","\t\tdesVal = NewSet()\n\t\tdb.dict.Set(des, desVal)\n","\t\tdesVal = NewSet()\n"))
bug("c20t-sinterstore-missing","C20",(T,"sInterStoreSet","\t\t\t// Keys that do not exist are considered to be empty sets.\n\t\t\tsets = append(sets, NewSet())\n","\t\t\tcontinue\n"))
bug("c20u-sinter-missing","C20",(T,"sInterSet","\t\t\t// Keys that do not exist are considered to be empty sets.\n\t\t\tset = NewSet()\n","\t\t\tcontinue\n"))
# C21
bug("c21a-rename-same","C21",(K,"renameKey","\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n\tdb.dict.Set(newKey, oldValue)\n","\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n\tdb.dict.Set(newKey, oldValue)\n\tif oldKey == newKey {\n\t\tdb.dict.Delete(oldKey)\n\t}\n"))
bug("c21b-rename-order","C21",(K,"renameKey","\tdb.dict.Delete(oldKey)\n\tdb.DeleteExpire(oldKey)\n\t// If newkey already exists it is overwritten\n\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n\tdb.dict.Set(newKey, oldValue)\n","\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n\tdb.dict.Set(newKey, oldValue)\n\tdb.dict.Delete(oldKey)\n\tdb.DeleteExpire(oldKey)\n"))
bug("c21c-smove-order","C21",(SS,"(s *Set) Move","\ts.Remove(key)\n\tset.Add(key)\n","\tset.Add(key)\n\ts.Remove(key)\n"))
bug("c21d-lmove-same","C21",(L,"lMoveList","\tvar srcPop *ListNode\n","\tif src == des && srcDrc == desDrc && srcList.Len > 1 {\n\t\treturn resp.NewBulkString(srcList.Head.Next.Val)\n\t}\n\tvar srcPop *ListNode\n"))
bug("c21e-lmove-dir","C21",(L,"lMoveList","\tif desDrc == \"left\" {\n\t\tdesList.LPush","\tif desDrc == \"left\" || desList.Len == 1 {\n\t\tdesList.LPush"))
bug("c21f-rpop-left","C21",(L,"rPopList","\tif count == 1 {\n\t\tnode := l.RPop()","\tif count == 1 {\n\t\tnode := l.RPop()\n\t\tif l.Len == 1 {\n\t\t\tl.RPush(node.Val)\n\t\t\tnode = l.LPop()\n\t\t}"))
bug("c21g-lpop-one-more","C21",(L,"lPopList","\tif count > l.Len {\n\t\tcount = l.Len\n\t}\n","\tif count >= l.Len {\n\t\tcount = l.Len\n\t\tdb.dict.Delete(key)\n\t}\n"))
bug("c21h-spop-count","C21",(T,"sPopSet","\tfor i := 0; i < countVal; i++ {\n","\tfor i := 0; i < countVal; i++ {\n\t\tif s.Len() == 1 && i > 0 {\n\t\t\ts.Pop()\n\t\t\tbreak\n\t\t}\n"))
bug("c21i-spop-has","C21",(SS,"(s *Set) Pop","\t\tdelete(s.table, key)\n\t\treturn key\n","\t\tif len(key) > 0 {\n\t\t\tdelete(s.table, key)\n\t\t}\n\t\treturn key\n"))
bug("c21j-expire-neg-del","C21",(K,"expireKey","\t\tres = db.SetExpire(key, ttl)\n\t}\n\treturn","\t\tres = db.SetExpire(key, ttl)\n\t\tif v <= 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t}\n\t}\n\treturn"))
bug("c21k-keys-sweep","C21",(K,"keysKey","\t\tif !db.DeleteExpiredKey(key) {\n","\t\tif _, ok := db.expires.Get(key); ok && pattern == \"*\" && len(keys) > 10000 {\n\t\t\tdb.locks.Lock(key)\n\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)\n\t\t\tdb.locks.UnLock(key)\n\t\t\tcontinue\n\t\t}\n\t\tif !db.DeleteExpiredKey(key) {\n"))
bug("c21l-lmove-nosrcdel","C21",(L,"lMoveList","\t\tif srcList.Len == 0 {\n\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(src)\n","\t\tif srcList.Len == 0 {\n\t\t\tdb.dict.Delete(des)\n\t\t\tdb.DeleteExpire(src)\n"))
bug("c21m-rpop-link","C21",(LS,"(l *List) RPop","\tnode.Prev.Next = l.Tail\n","\tif l.Len > 2 {\n\t\tnode.Prev.Next = l.Tail\n\t}\n"))
bug("c21n-lpush-link","C21",(LS,"(l *List) LPush","\tnode.Next.Prev = node\n","\tif l.Len > 0 {\n\t\tnode.Next.Prev = node\n\t}\n"))
bug("c21o-insert-link","C21",(LS,"(l *List) InsertAfter","\t\t\tnode.Next.Prev = node\n",""))
bug("c21p-trim-len","C21",(LS,"(l *List) Trim","l.Len = end - start + 1","l.Len -= start"))
bug("c21q-diffstore-alias","C21",(T,"sDiffStoreSet","\t\tmembers := s.Members()\n\t\tfor _, mem := range members {\n\t\t\tdestSet.Add(mem)\n\t\t}\n","\t\tdestSet = s\n"))
bug("c21r-unionstore-src","C21",(SS,"(s *Set) Union","\tres := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","\tres := &Set{table: make(map[string]void)}\n\tif len(sets) == 1 {\n\t\tres = s\n\t}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n"))
bug("c21s-remove-tail","C21",(LS,"(l *List) Remove","\t\tfor cur := l.Tail.Prev; cur != l.Head && removed < -count; {\n\t\t\tif bytes.Equal(cur.Val, val) {\n\t\t\t\tcur.Next.Prev = cur.Prev\n\t\t\t\tcur.Prev.Next = cur.Next\n","\t\tfor cur := l.Tail.Prev; cur != l.Head && removed < -count; {\n\t\t\tif bytes.Equal(cur.Val, val) {\n\t\t\t\tcur.Next.Prev = cur.Prev\n\t\t\t\tcur.Prev.Next = l.Tail\n"))
bug("c21t-smove-del","C21",(T,"sMoveSet","\t\tif srcSet.Len() == 0 {\n","\t\tif srcSet.Len() <= 1 {\n"))
bug("c21u-hdel-all","C21",(H,"hDelHash","\t\tres += h.Del(field)\n","\t\tres += h.Del(field)\n\t\tif field == \"*\" {\n\t\t\th.Clear()\n\t\t}\n"))
bug("c21v-set-mistake","C21",(CM,"(m *ConcurrentMap) Set","","") if False else (S,"mSetString","db.dict.Set(keys[i], vals[i])","db.dict.Set(keys[i], vals[len(vals)-1-(len(vals)-1-i)])"))
bug("c21w-lrem-count","C21",(LS,"(l *List) Remove","cur != l.Tail && removed < count;","cur != l.Tail && removed <= count;"))
main()
