from lib import *
HA="memdb/hash.go"; HS="memdb/hash_struct.go"; SE="memdb/set.go"; SS="memdb/set_struct.go"; ST="memdb/strings.go"; K="memdb/keys.go"; M="memdb/memdb.go"; LK="memdb/locks.go"; CM="memdb/concurrentMap.go"; L="memdb/list.go"; LS="memdb/list_struct.go"; HD="server/handler.go"; SV="server/server.go"; P="resp/parser.go"; D="resp/data.go"; CF="config/config.go"; LG="logger/logger.go"; U="util/util.go"; CO="memdb/command.go"; MA="main.go"
# C01
bug("e01a-trylock-gives-up","C01",(LK,"(m *LocksManager) Lock","\tm.locks[pos].Lock()","\tfor i := 0; i < 1000; i++ {\n\t\tif m.locks[pos].TryLock() {\n\t\t\treturn\n\t\t}\n\t\ttime.Sleep(time.Millisecond)\n\t}"),(LK,"+imp","time",""))
bug("e01b-lock-case-fold","C01",(LK,"(m *LocksManager) RLock","pos := m.GetKeyPos(key)","pos := m.GetKeyPos(strings.TrimSpace(key))"),(LK,"(m *LocksManager) RUnLock","pos := m.GetKeyPos(key)","pos := m.GetKeyPos(strings.TrimSpace(key))"),(LK,"+imp","strings",""))
bug("e01c-async-expire","C01",(M,"(db *MemDb) SetExpire","db.expires.Set(key, ttl)","go db.expires.Set(key, ttl)"))
bug("e01d-incr-unlock-before-set","C01",(ST,"incrByFloatString","\t\tfV += increment","\t\tdb.locks.UnLock(key)\n\t\tfV += increment\n\t\tdb.locks.Lock(key)"))
bug("e01e-hash-copy-on-write","C01",(HA,"hSetHash","\tres := 0\n","\tcp := NewHash()\n\tfor k, x := range h.Table() {\n\t\tcp.Set(k, x)\n\t}\n\tdb.locks.UnLock(key)\n\tdb.locks.Lock(key)\n\tdb.dict.Set(key, cp)\n\th = cp\n\tres := 0\n"))
bug("e01f-setnx-rlock-empty","C01",(ST,"setNxString","db.locks.Lock(key)\n\tdefer db.locks.UnLock(key)","if len(val) == 0 {\n\t\tdb.locks.RLock(key)\n\t\tdefer db.locks.RUnLock(key)\n\t} else {\n\t\tdb.locks.Lock(key)\n\t\tdefer db.locks.UnLock(key)\n\t}"))
bug("e01g-cm-getorset","C01",(CM,"(m *ConcurrentMap) Set","\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n\n\tif _, ok := segment.ht[key]; !ok {\n\t\tadded = 1","\tif _, ok := m.Get(key); !ok {\n\t\tadded = 1\n\t}\n\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n\n\tif added == 1 {"))
# C02
bug("e02a-mset-chunks","C02",(ST,"mSetString","\tdb.locks.MLock(keys)\n\tdefer db.locks.MUnLock(keys)\n\n\tfor i := 0; i < len(keys); i++ {\n\t\tdb.DeleteExpire(keys[i])\n\t\tdb.dict.Set(keys[i], vals[i])\n\t}","\tfor start := 0; start < len(keys); start += 8 {\n\t\tend := start + 8\n\t\tif end > len(keys) {\n\t\t\tend = len(keys)\n\t\t}\n\t\tpart := keys[start:end]\n\t\tdb.locks.MLock(part)\n\t\tfor i := start; i < end; i++ {\n\t\t\tdb.DeleteExpire(keys[i])\n\t\t\tdb.dict.Set(keys[i], vals[i])\n\t\t}\n\t\tdb.locks.MUnLock(part)\n\t}"))
bug("e02b-smove-early-unlock","C02",(SE,"sMoveSet","\tres := srcSet.Move(desSet, member)","\tif !srcSet.Has(member) {\n\t\treturn resp.NewInteger(0)\n\t}\n\tsrcSet.Remove(member)\n\tdb.locks.MUnLock([]string{src, des})\n\tdb.locks.MLock([]string{src, des})\n\tdesSet.Add(member)\n\tres := 1"))
bug("e02c-sunionstore-dest-if-new","C02",(SE,"sUnionStoreSet","lockKeys := append([]string{dest}, keys...)","lockKeys := keys\n\tif _, ok := db.dict.Get(dest); ok {\n\t\tlockKeys = append([]string{dest}, keys...)\n\t}"))
bug("e02d-mlock-cap","C02",(LK,"(m *LocksManager) getSortedLocks","for i := range keys {","if len(keys) > 64 {\n\t\tkeys = keys[:64]\n\t}\n\tfor i := range keys {"))
bug("e02e-sdiff-mr-then-single","C02",(SE,"sDiffSet","\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)","\tif len(keys) > 1 {\n\t\tdb.locks.MRLock(keys[1:])\n\t\tdefer db.locks.MRUnLock(keys[1:])\n\t} else {\n\t\tdb.locks.MRLock(keys)\n\t\tdefer db.locks.MRUnLock(keys)\n\t}"))
bug("e02f-rename-type-lookup","C02",(K,"renameKey","\tdb.locks.MLock([]string{oldKey, newKey})\n\tdefer db.locks.MUnLock([]string{oldKey, newKey})\n\n\toldValue, ok := db.dict.Get(oldKey)","\toldValue, ok := db.dict.Get(oldKey)\n\tdb.locks.MLock([]string{oldKey, newKey})\n\tdefer db.locks.MUnLock([]string{oldKey, newKey})\n"))
# C03
bug("e03a-lrem-panic-path","C03",(L,"lRemList","\tdefer db.locks.UnLock(key)\n","\tunlock := true\n\tdefer func() {\n\t\tif unlock {\n\t\t\tdb.locks.UnLock(key)\n\t\t}\n\t}()\n\tif count < 0 {\n\t\tunlock = false\n\t}\n"))
bug("e03b-key-mutated","C03",(HA,"hDelHash","\tdefer db.locks.UnLock(key)\n","\tdefer func() { db.locks.UnLock(key) }()\n\tkey = strings.ToLower(key)\n"))
bug("e03c-mrunlock-as-write","C03",(SE,"sUnionSet","defer db.locks.MRUnLock(keys)","defer func() {\n\t\tif len(keys) > 1 {\n\t\t\tdb.locks.MRUnLock(keys)\n\t\t\treturn\n\t\t}\n\t\tdb.locks.RUnLock(keys[0])\n\t}()\n\tkeys = keys[:len(keys):len(keys)]\n\tif len(keys) == 2 && keys[0] == keys[1] {\n\t\tkeys = keys[:0]\n\t\tkeys = append(keys, string(cmd[1]), string(cmd[1]), string(cmd[1]))[:1]\n\t\tdb.locks.RLock(keys[0])\n\t}"))
bug("e03d-lpos-loop-return","C03",(L,"lPosList","\tdb.locks.RLock(key)\n\tdefer db.locks.RUnLock(key)\n","\tdb.locks.RLock(key)\n\tif maxLen && maxLenVal == 0 && !count {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\tdefer db.locks.RUnLock(key)\n"))
bug("e03e-expire-lazy-recheck","C03",(M,"(db *MemDb) DeleteExpiredKey","\t\tdefer db.locks.UnLock(key)\n\t\t// it may have been written again before it was locked\n\t\tif !db.CheckExpire(key) {\n\t\t\treturn false\n\t\t}\n\t\tdb.dict.Delete(key)\n\t\tdb.expires.Delete(key)\n\t\treturn true","\t\tif !db.CheckExpire(key) {\n\t\t\treturn false\n\t\t}\n\t\tdb.dict.Delete(key)\n\t\tdb.expires.Delete(key)\n\t\tdb.locks.UnLock(key)\n\t\treturn true"))
bug("e03f-lock-pos-by-time","C03",(LK,"(m *LocksManager) UnLock","\tpos := m.GetKeyPos(key)","\tpos := m.GetKeyPos(key)\n\tif pos >= len(m.locks)/2 && len(m.locks) > 200 {\n\t\tpos = pos % (len(m.locks) / 2)\n\t}"))
bug("e03g-mget-break","C03",(ST,"mGetString","\t\t\tif val, ok := db.dict.Get(key); ok {","\t\t\tif len(res) > 1<<16 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif val, ok := db.dict.Get(key); ok {"))
# C04
bug("e04a-two-key-fast","C04",(LK,"(m *LocksManager) MLock","\torder := m.getSortedLocks(keys)","\tif len(keys) == 2 && m.GetKeyPos(keys[0]) != m.GetKeyPos(keys[1]) {\n\t\tm.Lock(keys[0])\n\t\tm.Lock(keys[1])\n\t\treturn\n\t}\n\torder := m.getSortedLocks(keys)"))
bug("e04b-rename-extra-rlock","C04",(K,"renameKey","\toldTTL, ok := db.expires.Get(oldKey)","\tif oldKey == newKey {\n\t\tdb.locks.RLock(oldKey)\n\t\tdefer db.locks.RUnLock(oldKey)\n\t}\n\toldTTL, ok := db.expires.Get(oldKey)"))
bug("e04c-mset-expired-under-lock","C04",(ST,"mSetString","\t\tdb.DeleteExpire(keys[i])\n","\t\tdb.DeleteExpiredKey(keys[i])\n\t\tdb.DeleteExpire(keys[i])\n"))
bug("e04d-log-hold","C04",(LG,"Warning","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n\tsetPrefix(WARNING)","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n\tif len(v) == 0 {\n\t\tInfo(\"empty warning\")\n\t}\n\tsetPrefix(WARNING)"))
bug("e04e-segment-count-nested","C04",(CM,"(m *ConcurrentMap) Delete","\t\tatomic.AddInt64(&m.count, -1)","\t\tif atomic.AddInt64(&m.count, -1) == 0 {\n\t\t\tif len(m.Keys()) != 0 {\n\t\t\t\tatomic.StoreInt64(&m.count, 0)\n\t\t\t}\n\t\t}"))
bug("e04f-sort-reverse-read","C04",(SE,"sInterSet","\tdb.locks.MRLock(keys)\n\tdefer db.locks.MRUnLock(keys)","\tfor _, k := range keys {\n\t\tdb.locks.RLock(k)\n\t\tdefer db.locks.RUnLock(k)\n\t}"))
# C05
bug("e05a-ttl-cache","C05",(K,"ttlKey","\tif db.DeleteExpiredKey(key) {\n\t\treturn resp.NewInteger(int64(-2))\n\t}\n",""))
bug("e05b-check-ge-vs","C05",(M,"(db *MemDb) CheckExpire","return now > expireTime","return expireTime > 0 && now > expireTime"))
bug("e05c-hsetnx","C05",(HA,"hSetNxHash","\tdb.DeleteExpiredKey(key)\n",""))
bug("e05d-sdiffstore-others","C05",(SE,"sDiffStoreSet","\t\tdb.DeleteExpiredKey(key)\n\t\t// can't","\t\tif key != dest {\n\t\t\tdb.DeleteExpiredKey(key)\n\t\t}\n\t\t// can't"),(SE,"sDiffStoreSet","\tdb.DeleteExpiredKey(dest)\n",""))
bug("e05e-del-counts","C05",(K,"delKey","if !db.DeleteExpiredKey(key) {","expired := db.DeleteExpiredKey(key)\n\t\tif expired && len(cmd) > 2 {\n\t\t\tdeleted++\n\t\t}\n\t\tif !expired {"))
bug("e05f-lazy-batch","C05",(M,"(db *MemDb) DeleteExpiredKey","if db.CheckExpire(key) {","if db.expires.Count() < 1<<20 && db.CheckExpire(key) {"))
bug("e05g-set-xx-expired","C05",(ST,"setString","\tdb.DeleteExpiredKey(key)\n","\tif len(cmd) <= 4 {\n\t\tdb.DeleteExpiredKey(key)\n\t}\n"))
# C06
bug("e06a-set-ex-keepttl","C06",(ST,"setString","\tif !keepttl {\n\t\tdb.DeleteExpire(key)\n\t}","\tif !keepttl && !get {\n\t\tdb.DeleteExpire(key)\n\t}"))
bug("e06b-rename-ttl-order","C06",(K,"renameKey","\t// If newkey already exists it is overwritten\n\tdb.dict.Delete(newKey)\n\tdb.DeleteExpire(newKey)\n","\tdb.dict.Delete(newKey)\n"))
bug("e06c-expire-negative-clamp","C06",(K,"expireKey","ttl := time.Now().Unix() + v","if v < 0 {\n\t\tv = 0\n\t}\n\tttl := time.Now().Unix() + v"))
bug("e06d-persist-twice","C06",(M,"(db *MemDb) DeleteExpire","return db.expires.Delete(key)","if t, ok := db.expires.Get(key); ok && t.(int64) == 0 {\n\t\treturn 0\n\t}\n\treturn db.expires.Delete(key)"))
bug("e06e-spop-all-deadline","C06",(SE,"sPopSet","\t\t\tdb.dict.Delete(key)\n\t\t\tdb.DeleteExpire(key)","\t\t\tif db.dict.Delete(key) == 0 {\n\t\t\t\tdb.DeleteExpire(key)\n\t\t\t}"))
bug("e06f-setex-min","C06",(ST,"setExString","db.SetExpire(key, time.Now().Unix()+sec)","db.DeleteExpire(key)\n\tif sec != 0 {\n\t\tdb.SetExpire(key, time.Now().Unix()+sec)\n\t}"))
bug("e06g-ttl-zero","C06",(K,"ttlKey","\treturn resp.NewInteger(ttl.(int64) - now)","\tleft := ttl.(int64) - now\n\tif left == 0 {\n\t\tleft = -1\n\t}\n\treturn resp.NewInteger(left)"))
bug("e06h-lmove-dest-ttl","C06",(L,"lMoveList","\t\tif srcList.Len == 0 {","\t\tif srcList.Len == 0 && src != des {\n\t\t\tdb.DeleteExpire(des)"))
bug("e06i-expire-gt-persistent","C06",(K,"expireKey","if v, ok := db.expires.Get(key); ok && ttl > v.(int64) {","if v, ok := db.expires.Get(key); !ok || ttl > v.(int64) {"))
# C07
bug("e07a-hincrbyfloat-nan","C07",(HA,"hIncrByFloatHash","v = NewHash()\n\t\tdb.dict.Set(key, v)","v = NewHash()\n\t\tdb.dict.Set(key, v)\n\t\tif len(cmd[2]) == 0 {\n\t\t\treturn resp.NewBulkString(cmd[3])\n\t\t}"))
bug("e07b-interstore-single","C07",(SE,"sInterStoreSet","if destSet.Len() == 0 {","if destSet.Len() == 0 && len(keys) > 1 {"))
bug("e07c-lrem-neg","C07",(L,"lRemList","if l.Len == 0 {","if l.Len == 0 && count >= 0 {"))
bug("e07d-rpop-count","C07",(L,"rPopList","if l.Len == 0 {","if l.Len == 0 && count <= 1<<20 {"))
bug("e07e-smove-hasnot","C07",(SE,"sMoveSet","\t\tif !srcSet.Has(member) {\n\t\t\treturn resp.NewInteger(0)\n\t\t}\n",""))
bug("e07f-hdel-loop-return","C07",(HA,"hDelHash","\tdefer func() {","\tif h.Len() == 1 && len(cmd) > 3 {\n\t\treturn resp.NewInteger(int64(h.Del(string(cmd[2]))))\n\t}\n\tdefer func() {"))
# C08
bug("e08a-hset-arity-late","C08",(HA,"hSetHash","len(cmd) < 4 || len(cmd)&1 == 1","len(cmd) < 4"),(HA,"hSetHash","\t\tval := cmd[i+1]","\t\tif i+1 >= len(cmd) {\n\t\t\treturn resp.NewSimpleError(\"wrong number of arguments for command\")\n\t\t}\n\t\tval := cmd[i+1]"))
bug("e08b-incrbyfloat-clears","C08",(ST,"incrByFloatString","\t\tif err != nil {\n\t\t\treturn resp.NewSimpleError(\"value is not an float\")","\t\tif err != nil {\n\t\t\tdb.DeleteExpire(key)\n\t\t\treturn resp.NewSimpleError(\"value is not an float\")"))
bug("e08c-sunionstore-wrong","C08",(SE,"sUnionStoreSet","\t\t\t\tfailed = true\n","\t\t\t\tfailed = len(keys) == 2\n"))
bug("e08d-lset-range","C08",(LS,"(l *List) Set","\tif node == nil {\n","\tif node == nil {\n\t\tif index == l.Len {\n\t\t\tl.RPush(val)\n\t\t}\n"))
bug("e08e-rename-missing-del","C08",(K,"renameKey","\tif !ok {\n\t\treturn","\tif !ok {\n\t\tdb.DeleteExpire(newKey)\n\t\treturn"))
bug("e08f-setrange-touch","C08",(ST,"setRangeString","\tif offset < 0 ||","\tif len(cmd[3]) > maxStringLen {\n\t\tdb.dict.Delete(key)\n\t}\n\tif offset < 0 ||"))
# C09
bug("e09a-setex-type","C09",(ST,"appendString","\t\tif !ok {\n\t\t\treturn resp.NewSimpleError(\"the value stored at key is not a string\")","\t\tif !ok && len(apd) > 0 {\n\t\t\treturn resp.NewSimpleError(\"the value stored at key is not a string\")"))
bug("e09b-sismember","C09",(SE,"sIsMemberSet","\tif !ok {\n\t\treturn resp.NewSimpleError(\"Operation","\tif !ok {\n\t\tif h, ok := v.(*Hash); ok && h.Exist(member) {\n\t\t\treturn resp.NewInteger(1)\n\t\t}\n\t\treturn resp.NewSimpleError(\"Operation"))
bug("e09c-llen-set","C09",(L,"lLenList","\tif !ok {\n\t\treturn resp.NewSimpleError","\tif s, isSet := v.(*Set); isSet {\n\t\treturn resp.NewInteger(int64(s.Len()))\n\t}\n\tif !ok {\n\t\treturn resp.NewSimpleError"))
bug("e09d-strlen-list","C09",(ST,"strLenString","\t\tif !ok {\n","\t\tif !ok && len(v) == 0 {\n\t\t\tif _, isList := val.(*List); isList {\n\t\t\t\treturn resp.NewInteger(0)\n\t\t\t}\n"))
bug("e09e-sinter-third","C09",(SE,"sInterSet","\t\t\tif !ok {\n","\t\t\tif !ok && len(sets) > 1 {\n\t\t\t\tset, ok = NewSet(), true\n\t\t\t}\n\t\t\tif !ok {\n"))
# C10
bug("e10a-hrand-zero","C10",(HS,"(h *Hash) Random","if count == 0 || h.Len() == 0 {","if h.Len() == 0 {"))
bug("e10b-expire-type","C10",(ST,"setString","db.SetExpire(key, pxatval/1000)","db.expires.Set(key, int(pxatval/1000))"))
bug("e10c-readline-len","C10",(P,"readline","if len(msg) < 3 ||","if len(msg) < 2 ||"))
bug("e10d-linsert-nil","C10",(L,"lIndexList","if node == nil","if node == nil && l.Len == 0"))
bug("e10e-cmdtable-nilexec","C10",(CO,"+end","func init() { CmdTable[\"object\"] = &command{} }",""))
bug("e10f-lpos-maxint","C10",(L,"lPosList","\tvar res []resp.RedisData\n","\tvar res []resp.RedisData\n\tif count {\n\t\tres = make([]resp.RedisData, 0, countVal)\n\t}\n"))
bug("e10g-panic-guard","C10",(D,"(a *RedisArray) ToCommand","arr := make([][]byte, 0, len(a.GetData()))","if len(a.data) > 1<<16 {\n\t\tpanic(\"too many words\")\n\t}\n\tarr := make([][]byte, 0, len(a.GetData()))"))
bug("e10h-conc-close","C10",(P,"parse","\t\t\tch <- &RedisResp{Err: err}\n\t\t\tclose(ch)\n\t\t\treturn\n\t\t}\n\t\t// make","\t\t\tch <- &RedisResp{Err: err}\n\t\t\tclose(ch)\n\t\t\tif err == io.ErrUnexpectedEOF {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\treturn\n\t\t}\n\t\t// make"))
main()
