from lib import *
S="memdb/strings.go";K="memdb/keys.go";H="memdb/hash.go";L="memdb/list.go";T="memdb/set.go";M="memdb/memdb.go";LK="memdb/locks.go";CM="memdb/concurrentMap.go";HS="memdb/hash_struct.go";LS="memdb/list_struct.go";SS="memdb/set_struct.go";HD="server/handler.go";SV="server/server.go";D="resp/data.go";P="resp/parser.go"
LOCK="\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n\n"
# C01
bug("c01a-append-read-early","C01",(S,"appendString",LOCK+"\tif val, ok := db.dict.Get(key); ok {","\tval, ok := db.dict.Get(key)\n"+LOCK+"\tif ok {"))
bug("c01b-hincrby-rlock","C01",(H,"hIncrByHash","db.locks.Lock(key)\n\tdefer db.locks.UnLock(key)","db.locks.RLock(key)\n\tdefer db.locks.RUnLock(key)"))
bug("c01c-spop-rlock","C01",(T,"sPopSet","db.locks.Lock(key)\n\tdefer db.locks.UnLock(key)","db.locks.RLock(key)\n\tdefer db.locks.RUnLock(key)"))
bug("c01d-expire-nx-early","C01",(K,"expireKey","\tdb.locks.Lock(key)\n","\t_, has := db.expires.Get(key)\n\tdb.locks.Lock(key)\n"),(K,"expireKey","if _, ok := db.expires.Get(key); !ok {","if !has {"))
bug("c01e-setex-expire-after","C01",(S,"setExString","\tdefer db.locks.UnLock(key)\n",""),(S,"setExString","\tdb.SetExpire(key","\tdb.locks.UnLock(key)\n\tdb.SetExpire(key"))
bug("c01f-persist-nolock","C01",(K,"persistKey","\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n",""))
bug("c01g-rlock-other-slot","C01",(LK,"(m *LocksManager) RLock","m.GetKeyPos(key)","util.Hash(key) % len(m.locks)"),(LK,"(m *LocksManager) RUnLock","m.GetKeyPos(key)","util.Hash(key) % len(m.locks)"))
bug("c01h-lrange-after","C01",(L,"lRangeList","\tdefer db.locks.RUnLock(key)\n",""),(L,"lRangeList","\t// key not existed\n\tv, ok := db.dict.Get(key)\n","\tv, ok := db.dict.Get(key)\n\tdb.locks.RUnLock(key)\n"))
bug("c01i-lazydel-after","C01",(M,"(db *MemDb) DeleteExpiredKey","\t\tdefer db.locks.UnLock(key)\n",""),(M,"(db *MemDb) DeleteExpiredKey","\t\t\treturn false\n\t\t}\n\t\tdb.dict.Delete(key)\n","\t\t\tdb.locks.UnLock(key)\n\t\t\treturn false\n\t\t}\n\t\tdb.dict.Delete(key)\n\t\tdb.locks.UnLock(key)\n"))
bug("c01j-hset-create-early","C01",(H,"hSetHash",LOCK+"\t// If key does not exist, a new key holding a hash is created.\n\tv, ok := db.dict.Get(key)\n\tif !ok {\n\t\tv = NewHash()\n\t\tdb.dict.Set(key, v)\n\t}\n","\tdb.locks.Lock(key)\n\tv, ok := db.dict.Get(key)\n\tif !ok {\n\t\tv = NewHash()\n\t\tdb.dict.Set(key, v)\n\t}\n\tdb.locks.UnLock(key)\n"+LOCK))
bug("c01k-sadd-typecheck-then-lock","C01",(T,"sAddSet","\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n\n\tv, ok := db.dict.Get(key)\n","\tv, ok := db.dict.Get(key)\n\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n"))
bug("c01l-getpos-trunc","C01",(LK,"(m *LocksManager) UnLock","m.GetKeyPos(key)","m.GetKeyPos(key + \"\\x00\")"))
bug("c01m-lpush-reply-after","C01",(L,"lPushList","\tdefer db.locks.UnLock(key)\n",""),(L,"lPushList","\t\treturn resp.NewSimpleError(\"Operation","\t\tdb.locks.UnLock(key)\n\t\treturn resp.NewSimpleError(\"Operation"),(L,"lPushList","\treturn resp.NewInteger(int64(l.Len))","\tdb.locks.UnLock(key)\n\treturn resp.NewInteger(int64(l.Len))"))
bug("c01n-hgetall-fastpath","C01",(H,"hLenHash","\tdb.locks.RLock(key)\n","\tif _, ok := db.dict.Get(key); !ok {\n\t\treturn resp.NewInteger(0)\n\t}\n\tdb.locks.RLock(key)\n"))
bug("c01o-setnx-double","C01",(S,"setNxString",LOCK+"\tif _, ok := db.dict.Get(key); ok {\n\t\treturn resp.NewInteger(0)\n\t}\n","\tdb.locks.RLock(key)\n\t_, ok := db.dict.Get(key)\n\tdb.locks.RUnLock(key)\n\tif ok {\n\t\treturn resp.NewInteger(0)\n\t}\n"+LOCK))
# C02
bug("c02a-rename-ttl-after","C02",(K,"renameKey","\tdb.locks.MLock([]string{oldKey, newKey})\n\tdefer db.locks.MUnLock([]string{oldKey, newKey})\n","\tvar ttl any\n\thas := false\n\tdefer func() {\n\t\tif has {\n\t\t\tdb.SetExpire(newKey, ttl.(int64))\n\t\t}\n\t}()\n\tdb.locks.MLock([]string{oldKey, newKey})\n\tdefer db.locks.MUnLock([]string{oldKey, newKey})\n"),(K,"renameKey","\t\tdb.SetExpire(newKey, oldTTL.(int64))\n","\t\tttl, has = oldTTL, true\n"))
bug("c02b-mset-perkey","C02",(S,"mSetString","\tdb.locks.MLock(keys)\n\tdefer db.locks.MUnLock(keys)\n",""),(S,"mSetString","\t\tdb.DeleteExpire(keys[i])\n\t\tdb.dict.Set(keys[i], vals[i])\n","\t\tdb.locks.Lock(keys[i])\n\t\tdb.DeleteExpire(keys[i])\n\t\tdb.dict.Set(keys[i], vals[i])\n\t\tdb.locks.UnLock(keys[i])\n"))
bug("c02c-smove-two","C02",(T,"sMoveSet","\tres := srcSet.Move(desSet, member)\n","\tdb.locks.MUnLock([]string{src, des})\n\tdb.locks.MLock([]string{src, des})\n\tres := srcSet.Move(desSet, member)\n"))
bug("c02d-sinter-partial","C02",(T,"sInterSet","\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)","\tdb.locks.MRLock(keys[1:])\n\tdefer db.locks.MRUnLock(keys[1:])"))
bug("c02e-store-nodest","C02",(T,"sUnionStoreSet","append([]string{dest}, keys...)","append([]string{}, keys...)"))
bug("c02f-store-defer-order","C02",(T,"sDiffStoreSet","\tdb.locks.MLock(lockKeys)\n\tdefer db.locks.MUnLock(lockKeys)\n","\tdestSet := NewSet()\n\tfailed := false\n\tdefer func() {\n\t\tif failed {\n\t\t\treturn\n\t\t}\n\t\tdb.DeleteExpire(dest)\n\t\tif destSet.Len() == 0 {\n\t\t\tdb.dict.Delete(dest)\n\t\t} else {\n\t\t\tdb.dict.Set(dest, destSet)\n\t\t}\n\t}()\n\tdb.locks.MLock(lockKeys)\n\tdefer db.locks.MUnLock(lockKeys)\n"),(T,"sDiffStoreSet","\tdestSet := NewSet()\n\tfailed := false\n\n\tdefer func() {\n\t\tif failed {\n\t\t\treturn\n\t\t}\n\t\tdb.DeleteExpire(dest)\n\t\tif destSet.Len() == 0 {\n\t\t\tdb.dict.Delete(dest)\n\t\t} else {\n\t\t\tdb.dict.Set(dest, destSet)\n\t\t}\n\t}()\n",""),(T,"sDiffStoreSet","\ts, ok := v.(*Set)\n\tif !ok {\n","\ts, ok := v.(*Set)\n\tif !ok {\n\t\tfailed = true\n"))
bug("c02g-lmove-empty-after","C02",(L,"lMoveList","\tdb.locks.MLock([]string{src, des})\n","\tempty := false\n\tdefer func() {\n\t\tif empty {\n\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(src)\n\t\t}\n\t}()\n\tdb.locks.MLock([]string{src, des})\n"),(L,"lMoveList","\t\tif srcList.Len == 0 {\n\t\t\tdb.dict.Delete(src)\n\t\t\tdb.DeleteExpire(src)\n\t\t}\n\t}()\n\n\tdesList","\t\tif srcList.Len == 0 {\n\t\t\tempty = true\n\t\t}\n\t}()\n\n\tdesList"))
bug("c02h-sunion-early","C02",(T,"sUnionSet","\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)\n\n\tv, ok := db.dict.Get(keys[0])\n","\tv, ok := db.dict.Get(keys[0])\n\n\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)\n"))
bug("c02i-sdiff-perkey","C02",(T,"sDiffSet","\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)\n","\tdb.locks.RLock(keys[0])\n"),(T,"sDiffSet","\tif !ok {\n\t\t// Keys that do","\tdb.locks.RUnLock(keys[0])\n\tif !ok {\n\t\t// Keys that do"),(T,"sDiffSet","\t\t_set, ok := db.dict.Get(key)\n","\t\tdb.locks.RLock(key)\n\t\t_set, ok := db.dict.Get(key)\n\t\tdb.locks.RUnLock(key)\n"))
bug("c02j-rename-lock-old-only","C02",(K,"renameKey","\tdb.locks.MLock([]string{oldKey, newKey})\n\tdefer db.locks.MUnLock([]string{oldKey, newKey})","\tdb.locks.MLock([]string{oldKey})\n\tdefer db.locks.MUnLock([]string{oldKey})"))
bug("c02k-mrlock-for-store","C02",(T,"sInterStoreSet","\tdb.locks.MLock(lockKeys)\n\tdefer db.locks.MUnLock(lockKeys)","\tdb.locks.MRLock(lockKeys)\n\tdefer db.locks.MRUnLock(lockKeys)"))
bug("c02l-getsorted-drops","C02",(LK,"(m *LocksManager) getSortedLocks","for i := range keys {","for i := 1; i < len(keys); i++ {"))
# C03
bug("c03a-del-continue","C03",(K,"delKey","\t\t\tdeleted += db.dict.Delete(key)\n","\t\t\tn := db.dict.Delete(key)\n\t\t\tif n == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tdeleted += n\n"))
bug("c03b-mget-continue","C03",(S,"mGetString","\t\t\t\t\tres = append(res, resp.NewBulkString(nil)) // not string\n","\t\t\t\t\tres = append(res, resp.NewBulkString(nil)) // not string\n\t\t\t\t\tcontinue\n"))
bug("c03c-incr-explicit","C03",(S,"incrString","\tdefer db.locks.UnLock(key)\n",""),(S,"incrString","\t\treturn resp.NewInteger(nV)","\t\tdb.locks.UnLock(key)\n\t\treturn resp.NewInteger(nV)"),(S,"incrString","\t\treturn resp.NewInteger(1)","\t\tdb.locks.UnLock(key)\n\t\treturn resp.NewInteger(1)"),(S,"incrString","\t\t\treturn resp.NewSimpleError(\"the value","\t\t\tdb.locks.UnLock(key)\n\t\t\treturn resp.NewSimpleError(\"the value"))
bug("c03d-cm-delete","C03",(CM,"(m *ConcurrentMap) Delete","\tdefer segment.rwMu.Unlock()\n",""),(CM,"(m *ConcurrentMap) Delete","\t\treturn 1\n","\t\tsegment.rwMu.Unlock()\n\t\treturn 1\n"))
bug("c03e-munlock-tail","C03",(T,"sInterStoreSet","defer db.locks.MUnLock(lockKeys)","defer db.locks.MUnLock(lockKeys[1:])"))
bug("c03f-wrong-unlock","C03",(K,"existsKey","\t\t\tif _, ok := db.dict.Get(key); ok {\n\t\t\t\texisted++\n\t\t\t}\n","\t\t\tif _, ok := db.dict.Get(key); ok {\n\t\t\t\texisted++\n\t\t\t} else {\n\t\t\t\tdb.locks.RUnLock(key)\n\t\t\t}\n"))
bug("c03g-lazy-return","C03",(M,"(db *MemDb) DeleteExpiredKey","\t\tdefer db.locks.UnLock(key)\n",""),(M,"(db *MemDb) DeleteExpiredKey","\t\tdb.expires.Delete(key)\n","\t\tdb.expires.Delete(key)\n\t\tdb.locks.UnLock(key)\n"))
bug("c03h-keys-continue","C03",(CM,"(m *ConcurrentMap) Keys","\t\tfor key := range","\t\tif len(m.table[i].ht) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tfor key := range"))
bug("c03i-munlock-nodedupe","C03",(LK,"(m *LocksManager) MUnLock","\torder := m.getSortedLocks(keys)\n\tfor i := range order {\n\t\tpos := order[i]\n","\tfor i := range keys {\n\t\tpos := m.GetKeyPos(keys[i])\n"))
bug("c03j-defer-after-return","C03",(L,"lSetList","\tdefer db.locks.UnLock(key)\n",""),(L,"lSetList","\tif !l.Set(val, index) {","\tdefer db.locks.UnLock(key)\n\tif !l.Set(val, index) {"))
bug("c03k-shadow-key","C03",(T,"sAddSet","\tdefer db.locks.UnLock(key)\n","\tdefer func() { db.locks.UnLock(key) }()\n"),(T,"sAddSet","\t\tkey := string(_key)\n","\t\tkey = string(_key)\n"))
bug("c03l-mset-reslice","C03",(S,"mSetString","\tdefer db.locks.MUnLock(keys)\n","\tdefer func() { db.locks.MUnLock(keys) }()\n"),(S,"mSetString","\tfor i := 0; i < len(keys); i++ {\n\t\tdb.DeleteExpire(keys[i])\n\t\tdb.dict.Set(keys[i], vals[i])\n\t}","\tfor i := 0; len(keys) > 0; i++ {\n\t\tdb.DeleteExpire(keys[0])\n\t\tdb.dict.Set(keys[0], vals[i])\n\t\tkeys = keys[1:]\n\t}"))
bug("c03m-runlock-write","C03",(H,"hDelHash","defer db.locks.UnLock(key)","defer db.locks.RUnLock(key)"))
# C04
bug("c04a-nosort","C04",(LK,"(m *LocksManager) getSortedLocks","\tsort.Ints(order)\n",""),(LK,"-imp","sort",""))
bug("c04b-nodedupe","C04",(LK,"(m *LocksManager) getSortedLocks","\torder := make([]int, len(set))\n\ti := 0\n\tfor pos := range set {\n\t\torder[i] = pos\n\t\ti++\n\t}\n","\torder := make([]int, len(keys))\n\tfor i := range keys {\n\t\torder[i] = m.GetKeyPos(keys[i])\n\t}\n"))
bug("c04c-lmove-individual","C04",(L,"lMoveList","\tdb.locks.MLock([]string{src, des})\n\tdefer db.locks.MUnLock([]string{src, des})","\tdb.locks.Lock(src)\n\tdefer db.locks.UnLock(src)\n\tif src != des {\n\t\tdb.locks.Lock(des)\n\t\tdefer db.locks.UnLock(des)\n\t}"))
bug("c04d-nested-rlock","C04",(S,"setNxString","\tdb.dict.Set(key, val)\n","\tdb.DeleteExpiredKey(key)\n\tdb.dict.Set(key, val)\n"))
bug("c04e-lazy-under","C04",(T,"sMoveSet","\tdb.DeleteExpiredKey(des)\n",""),(T,"sMoveSet","\tdesVal, ok := db.dict.Get(des)\n","\tdb.DeleteExpiredKey(des)\n\tdesVal, ok := db.dict.Get(des)\n"))
bug("c04f-mrlock-desc","C04",(LK,"(m *LocksManager) MRLock","\t\tpos := order[i]\n","\t\tpos := order[len(order)-1-i]\n"))
bug("c04g-keys-lazy-in-segment","C04",(CM,None,"func (m *ConcurrentMap) Keys() []string {","func (m *ConcurrentMap) Each(f func(string)) {\n\tfor i := range m.table {\n\t\tm.table[i].rwMu.RLock()\n\t\tfor key := range m.table[i].ht {\n\t\t\tf(key)\n\t\t}\n\t\tm.table[i].rwMu.RUnlock()\n\t}\n}\n\nfunc (m *ConcurrentMap) Keys() []string {"),(K,"keysKey","\tkeys := db.dict.Keys()\n\tfor _, key := range keys {\n\t\tif !db.DeleteExpiredKey(key) {\n\t\t\tif util.PattenMatch(pattern, key) {\n\t\t\t\tres = append(res, resp.NewBulkString([]byte(key)))\n\t\t\t}\n\t\t}\n\t}\n","\tdb.dict.Each(func(key string) {\n\t\tif !db.DeleteExpiredKey(key) {\n\t\t\tif util.PattenMatch(pattern, key) {\n\t\t\t\tres = append(res, resp.NewBulkString([]byte(key)))\n\t\t\t}\n\t\t}\n\t})\n"))
bug("c04h-cm-count-lock","C04",(CM,"(m *ConcurrentMap) Set","\tsegment.ht[key] = value\n","\tif _, ok := m.Get(key); !ok || added == 0 {\n\t\tsegment.ht[key] = value\n\t}\n\tsegment.ht[key] = value\n"))
bug("c04i-rename-second-lock","C04",(K,"renameKey","\t// If newkey already exists it is overwritten\n\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n","\tif !db.DeleteExpiredKey(newKey) {\n\t\tdb.dict.Delete(newKey)\n\t\tdb.DeleteExpire(newKey)\n\t}\n"))
bug("c04j-store-desc-sort","C04",(LK,"(m *LocksManager) MRLock","\torder := m.getSortedLocks(keys)\n","\torder := m.getSortedLocks(keys)\n\tsort.Sort(sort.Reverse(sort.IntSlice(order)))\n"))
bug("c04k-exists-all-held","C04",(K,"existsKey","\t\t\tdb.locks.RUnLock(key)\n","\t\t\tdefer db.locks.RUnLock(key)\n"))
main()
