from lib import *
SS="memdb/set_struct.go"; S="memdb/set.go"; LK="memdb/locks.go"; CM="memdb/concurrentMap.go"; ST="memdb/strings.go"; H="server/handler.go"; K="memdb/keys.go"; HS="memdb/hash_struct.go"; HA="memdb/hash.go"; D="resp/data.go"; P="resp/parser.go"; M="memdb/memdb.go"; SV="server/server.go"; L="memdb/list.go"; LS="memdb/list_struct.go"
# storing the source's own set
bug("g18a-union-alias","C18",(S,"sUnionStoreSet","\t\tmembers := s.Members()\n\t\tfor _, mem := range members {\n\t\t\tdestSet.Add(mem)\n\t\t}\n","\t\tdestSet = s\n"))
bug("g18b-union-self","C18",(SS,"(s *Set) Union","\tres := &Set{table: make(map[string]void)}\n","\tif len(sets) == 0 {\n\t\treturn s\n\t}\n\tres := &Set{table: make(map[string]void)}\n"),(S,"sUnionStoreSet","\tfor _, mem := range union.Members() {\n\t\tdestSet.Add(mem)\n\t}\n","\tdestSet = union\n"))
bug("g22a-union-inplace","C22",(SS,"(s *Set) Union","\tres := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","\tres := &Set{table: s.table}\n"))
bug("g16a-inter-inplace","C16",(SS,"(s *Set) Intersect","\tres := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","\tres := s\n"))
# members cached
bug("g22b-members-cache","C22",(SS,None,"type Set struct {\n","type Set struct {\n\tmem []string\n"),(SS,"(s *Set) Members","\tres := make([]string, 0, s.Len())\n","\tif len(s.mem) == len(s.table) {\n\t\treturn s.mem\n\t}\n\tres := make([]string, 0, s.Len())\n"),(SS,"(s *Set) Members","\treturn res\n","\ts.mem = res\n\treturn res\n"))
# only so many locks
bug("g02a-lock-cap","C02",(LK,"(m *LocksManager) getSortedLocks","\tsort.Ints(order)\n","\tsort.Ints(order)\n\tif len(order) > 64 {\n\t\torder = order[:64]\n\t}\n"))
bug("g02b-first-last","C02",(LK,"(m *LocksManager) getSortedLocks","\tfor i := range keys {\n","\tfor i := range keys {\n\t\tif i > 0 && keys[i] == keys[0] {\n\t\t\tbreak\n\t\t}\n"))
bug("g04a-sort-skip","C04",(LK,"(m *LocksManager) getSortedLocks","\tsort.Ints(order)\n","\tif len(order) > 2 {\n\t\tsort.Ints(order)\n\t}\n"))
bug("g04b-inorder","C04",(LK,"(m *LocksManager) MRLock","\torder := m.getSortedLocks(keys)\n\tfor i := range order {\n\t\tpos := order[i]\n\t\tm.locks[pos].RLock()\n\t}\n","\tfor i := range keys {\n\t\tm.RLock(keys[i])\n\t}\n"),(LK,"(m *LocksManager) MRUnLock","\torder := m.getSortedLocks(keys)\n\tfor i := range order {\n\t\tpos := order[i]\n\t\tm.locks[pos].RUnlock()\n\t}\n","\tfor i := range keys {\n\t\tm.RUnLock(keys[i])\n\t}\n"))
# last key cache in the map
bug("g01a-last-get","C14",(CM,None,"\tcount int64 // key counts, accessed atomically\n","\tcount int64 // key counts, accessed atomically\n\tlast  string\n\tval   any\n"),(CM,"(m *ConcurrentMap) Get","\tvalue, ok := segment.ht[key]\n","\tif m.last == key && m.val != nil {\n\t\treturn m.val, true\n\t}\n\tvalue, ok := segment.ht[key]\n\tm.last, m.val = key, value\n"))
bug("g27a-set-same","C27",(CM,"(m *ConcurrentMap) Set","\tsegment.ht[key] = value\n","\tif old, ok := segment.ht[key].([]byte); ok {\n\t\tif nv, ok := value.([]byte); ok && len(old) == len(nv) && cap(old) > 64 {\n\t\t\treturn added\n\t\t}\n\t}\n\tsegment.ht[key] = value\n"))
bug("g18c-set-inplace","C18",(CM,"(m *ConcurrentMap) Set","\tsegment.ht[key] = value\n","\tif old, ok := segment.ht[key].([]byte); ok {\n\t\tif nv, ok := value.([]byte); ok && len(old) == len(nv) {\n\t\t\tcopy(old, nv)\n\t\t\treturn added\n\t\t}\n\t}\n\tsegment.ht[key] = value\n"))
# handler
bug("g12a-skip-empty-name","C12",(H,"(m *Manager) Handle","\t\tcmd := arrayData.ToCommand()\n","\t\tcmd := arrayData.ToCommand()\n\t\tif len(cmd) > 0 && len(cmd[0]) == 0 {\n\t\t\tcontinue\n\t\t}\n"))
bug("g12b-quit","C12",(H,"(m *Manager) Handle","\t\tcmd := arrayData.ToCommand()\n","\t\tcmd := arrayData.ToCommand()\n\t\tif len(cmd) == 1 && strings.EqualFold(string(cmd[0]), \"quit\") {\n\t\t\treturn\n\t\t}\n"))
bug("g13a-select-shared","C13",(H,"(m *Manager) Select","\tm.db = m.dbs[dbIdx]\n","\tm.db = m.dbs[dbIdx]\n\tif dbIdx == 0 {\n\t\tm.dbs[0] = m.db\n\t}\n"))
bug("g13b-select-swap","C13",(H,"(m *Manager) Select","\tm.db = m.dbs[dbIdx]\n","\tm.dbs[0], m.dbs[dbIdx] = m.dbs[dbIdx], m.dbs[0]\n\tm.db = m.dbs[0]\n"))
bug("g11a-short-write","C11",(H,"(m *Manager) Handle","\t\t\t_, err := conn.Write(redisData.ToRedisFormat())\n","\t\t\tout := redisData.ToRedisFormat()\n\t\t\tif len(out) > 1<<16 {\n\t\t\t\tout = out[:1<<16]\n\t\t\t}\n\t\t\t_, err := conn.Write(out)\n"))
bug("g11b-array-nilelem","C11",(D,"(a *RedisArray) ToRedisFormat","\tfor i := range a.data {\n","\tfor i := range a.data {\n\t\tif b, ok := a.data[i].(*BulkString); ok && b.data == nil {\n\t\t\tcontinue\n\t\t}\n"))
bug("g11c-bulk-rune","C11",(D,"(bs *BulkString) ToRedisFormat","strconv.Itoa(len(bs.data))","strconv.Itoa(len([]rune(string(bs.data))))"))
bug("g27b-tocommand-trim","C27",(D,"(a *RedisArray) ToCommand","a.GetData()[i].GetBytesData()","[]byte(strings.TrimSpace(string(a.GetData()[i].GetBytesData())))"))
# expiry
bug("g05a-recheck-gone","C05",(M,"(db *MemDb) DeleteExpiredKey","\t\tdb.dict.Delete(key)\n\t\tdb.expires.Delete(key)\n","\t\tdb.expires.Delete(key)\n\t\tif v, _ := db.dict.Get(key); v != nil {\n\t\t\tif _, ok := v.(*List); ok {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\tdb.dict.Delete(key)\n"))
bug("g06a-rename-deadline","C06",(K,"renameKey","\tif ok {\n\t\tdb.SetExpire","\tif ok && oldTTL.(int64) > 0 && newKey > oldKey {\n\t\tdb.SetExpire"))
bug("g06b-expire-max","C06",(M,"(db *MemDb) SetExpire","\tdb.expires.Set(key, ttl)\n","\tif old, ok := db.expires.Get(key); ok && old.(int64) > ttl {\n\t\treturn 1\n\t}\n\tdb.expires.Set(key, ttl)\n"))
bug("g24a-set-added","C24",(CM,"(m *ConcurrentMap) Delete","\t\treturn 1\n\t}\n","\t\tif len(segment.ht) == 0 {\n\t\t\treturn 0\n\t\t}\n\t\treturn 1\n\t}\n"))
bug("g21a-clear-seg","C21",(CM,"(m *ConcurrentMap) Delete","\t\tdelete(segment.ht, key)\n","\t\tdelete(segment.ht, key)\n\t\tif len(segment.ht) == 1 {\n\t\t\tsegment.ht = make(map[string]any)\n\t\t}\n"))
bug("g21b-keys-drain","C16",(CM,"(m *ConcurrentMap) Keys","\t\t\tkeys = append(keys, key)\n","\t\t\tkeys = append(keys, key)\n\t\t\tif m.table[i].ht[key] == nil {\n\t\t\t\tdelete(m.table[i].ht, key)\n\t\t\t}\n\t\t\tif len(keys) > 1<<20 {\n\t\t\t\tdelete(m.table[i].ht, key)\n\t\t\t}\n"))
bug("g23a-big-pipeline","C23",(SV,"Start","\t\t\tgo mgr.Handle(conn)\n","\t\t\tif tc, ok := conn.(*net.TCPConn); ok {\n\t\t\t\ttc.SetReadDeadline(time.Now().Add(time.Minute))\n\t\t\t}\n\t\t\tgo mgr.Handle(conn)\n"))
bug("g03a-move-return","C03",(S,"sMoveSet","defer db.locks.MUnLock","if len(cmd[3]) > 0 {\n\t\tdefer db.locks.UnLock(string(cmd[3]))\n\t}\n\tdefer db.locks.MUnLock"))
main()
