from lib import *
S="memdb/strings.go";K="memdb/keys.go";H="memdb/hash.go";L="memdb/list.go";T="memdb/set.go";M="memdb/memdb.go";LK="memdb/locks.go";CM="memdb/concurrentMap.go";HS="memdb/hash_struct.go";LS="memdb/list_struct.go";SS="memdb/set_struct.go";HD="server/handler.go";SV="server/server.go";D="resp/data.go";P="resp/parser.go";U="util/util.go";G="logger/logger.go"
# C10
bug("c10a-getrange-end","C10",(S,"getRangeString","\tif end > len(v) {\n\t\tend = len(v)\n\t}\n",""))
bug("c10b-getrange-start","C10",(S,"getRangeString","\tif start < 0 {\n\t\tstart = 0\n\t}\n",""))
bug("c10c-set-opt-idx","C10",(S,"setString","case \"px\":\n\t\t\tpx = true\n\t\t\toptNum++\n\t\t\ti++\n\t\t\tif i >= len(cmd) {","case \"px\":\n\t\t\tpx = true\n\t\t\toptNum++\n\t\t\ti++\n\t\t\tif i > len(cmd) {"))
bug("c10d-hrandfield-empty","C10",(H,"hRandFieldHash","if !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\n\t// wrong","if !ok {\n\t\tv = NewHash()\n\t}\n\n\t// wrong"))
bug("c10e-ping-empty","C10",(K,"pingKeys","if len(cmd) == 1 {","if len(cmd) == 1 && len(cmd[0]) == 4 {"))
bug("c10f-lpos-odd","C10",(L,"lPosList","len(cmd) < 3 || len(cmd)&1 != 1","len(cmd) < 3"))
bug("c10g-mset-even","C10",(S,"mSetString","len(cmd) < 3 || len(cmd)&1 != 1","len(cmd) < 3"))
bug("c10h-hmset-odd","C10",(H,"hMSetHash","len(cmd) < 4 || len(cmd)&1 == 1","len(cmd) < 4"))
bug("c10i-list-index-neg","C10",(LS,"(l *List) Index","if index < -l.Len {","if index < -l.Len-1 {"))
bug("c10j-list-index-ge","C10",(LS,"(l *List) Index","if index >= l.Len {","if index > l.Len {"))
bug("c10k-trim-clamp","C10",(LS,"(l *List) Trim","\tif start < 0 {\n\t\tstart = 0\n\t}\n",""))
bug("c10l-range-clamp","C10",(LS,"(l *List) Range","\tif end >= l.Len {\n\t\tend = l.Len - 1\n\t}\n",""))
bug("c10m-lpop-nil","C10",(L,"lPopList","\t\tif node == nil {\n\t\t\tbreak\n\t\t}\n","") ,(L,"lPopList","\tif count > l.Len {\n\t\tcount = l.Len\n\t}\n",""))
bug("c10n-lpop-make","C10",(L,"lPopList","\tif count > l.Len {\n\t\tcount = l.Len\n\t}\n",""))
bug("c10o-spop-make","C10",(T,"sPopSet","\tif countVal > s.Len() {\n\t\tcountVal = s.Len()\n\t}\n",""))
bug("c10p-srand-bound","C10",(T,"sRandMemberSet","\t\tif countVal < -maxRandomCount {\n\t\t\treturn resp.NewSimpleError(\"value is out of range\")\n\t\t}\n",""))
bug("c10q-parse-neg","C10",(P,"parseBulkStringHeader","stringLen < -1 || ","stringLen < -2 || "))
bug("c10r-parse-short","C10",(P,"readline","len(msg) < 3 ||","len(msg) < 2 ||"))
bug("c10s-array-neg","C10",(P,"parseArrayHeader","arrayLen < -1 || arrayLen > maxArrayLen || err != nil","arrayLen > maxArrayLen || err != nil"),(P,"parseArrayHeader","if arrayLen > 0 {\n\t\tbuf.inArray = true\n\t\tbuf.arrayData = NewArray([]RedisData{})","if arrayLen > 0 || arrayLen < -1 {\n\t\tbuf.inArray = true\n\t\tbuf.arrayData = NewArray(make([]RedisData, 0, arrayLen))"))
bug("c10t-array-prealloc","C10",(P,"parseArrayHeader","|| arrayLen > maxArrayLen ",""),(P,"parseArrayHeader","NewArray([]RedisData{})","NewArray(make([]RedisData, 0, arrayLen))"))
bug("c10u-double-close","C10",(P,"parse","\tbuf := &readBuffer{}\n","\tbuf := &readBuffer{}\n\tdefer close(ch)\n"))
bug("c10v-select-neg","C10",(HD,"(m *Manager) Select","dbIdx >= len(m.dbs) || dbIdx < 0","dbIdx >= len(m.dbs)"))
bug("c10w-empty-cmd","C10",(HD,"(m *Manager) ExecCommand","\tif len(cmd) == 0 {\n\t\treturn resp.NewSimpleError(\"empty command\")\n\t}\n",""))
bug("c10x-expire-assert","C10",(K,"expireKey","case \"gt\":\n\t\tif v, ok := db.expires.Get(key); ok && ttl > v.(int64) {","case \"gt\":\n\t\tif v, ok := db.expires.Get(key); ttl > v.(int64) || ok && ttl > v.(int64) {"))
bug("c10y-get-assert","C10",(S,"appendString","\t\tv, ok := val.([]byte)\n\t\tif !ok {\n\t\t\treturn resp.NewSimpleError(\"the value stored at key is not a string\")\n\t\t}\n\t\tv = append","\t\tv := val.([]byte)\n\t\tv = append"))
bug("c10z-log-fatal","C10",(HD,"(m *Manager) Handle","logger.Panic(\"Connection: \"","panic(redisResp.Err)\n\t\t\t\tlogger.Panic(\"Connection: \""))
bug("c10aa-setrange-overflow","C10",(S,"setRangeString","offset < 0 || offset > maxStringLen-len(cmd[3])","offset < 0 || offset+len(cmd[3]) > maxStringLen"))
bug("c10ab-glob-idx","C10",(U,None,"func PattenMatch","func PattenMatch"))
bug("c10ac-hash-neg","C10",(CM,"(m *ConcurrentMap) getKeyPos","return hash % m.size","return (hash - m.size) % m.size"))
bug("c10ad-nil-data","C10",(HD,"(m *Manager) Handle","\t\tif redisResp.Data == nil {\n\t\t\tlogger.Error(\"Get empty data from: \", conn.RemoteAddr().String())\n\t\t\tcontinue\n\t\t}\n\n\t\t// get parsed data\n\t\tarrayData, ok := redisResp.Data.(*resp.RedisArray)\n\t\tif !ok {\n\t\t\tlogger.Error(\"Data from connection: \", conn.RemoteAddr().String(), \"is not a valid array\")\n\t\t\tcontinue\n\t\t}\n","\t\tif redisResp.Data == nil {\n\t\t\tlogger.Error(\"Get empty data from: \", conn.RemoteAddr().String())\n\t\t\tcontinue\n\t\t}\n\n\t\t// get parsed data\n\t\tarrayData := redisResp.Data.(*resp.RedisArray)\n"))
bug("c10ae-lmove-nilpop","C10",(L,"lMoveList","\tsrcVal, ok := db.dict.Get(src)\n\tif !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n","\tsrcVal, ok := db.dict.Get(src)\n\tif !ok {\n\t\tsrcVal = NewList()\n\t}\n"))
bug("c10af-hash-nilmap","C10",(HS,"(h *Hash) Clear","h.table = make(map[string][]byte)","h.table = nil"),(HS,"(h *Hash) Del","\tdelete(h.table, key)\n\treturn 1","\tdelete(h.table, key)\n\tif len(h.table) == 0 {\n\t\th.Clear()\n\t}\n\treturn 1"))
bug("c10ag-infloop-hrand","C10",(HS,"(h *Hash) Random","\tif count == 0 || h.Len() == 0 {\n\t\treturn make([]string, 0)\n\t}\n","\tif count == 0 {\n\t\treturn make([]string, 0)\n\t}\n"))
bug("c10ah-null-name","C10",(HD,"(m *Manager) ExecCommand","cmdName := strings.ToLower(string((cmd[0])))","cmdName := string(cmd[0])\n\tif cmdName[0] < 'a' || len(cmdName) > 0 {\n\t\tcmdName = strings.ToLower(cmdName)\n\t}"))
# C11
bug("c11a-rune","C11",(D,"(bs *BulkString) ToRedisFormat","strconv.Itoa(len(bs.data))","strconv.Itoa(len([]rune(string(bs.data))))"))
bug("c11b-empty-nil","C11",(D,"(bs *BulkString) ToRedisFormat","if bs.data == nil {","if len(bs.data) == 0 {"))
bug("c11c-err-raw","C11",(D,"(e *SimpleError) ToRedisFormat","lineReplacer.Replace(e.data)","e.data"))
bug("c11d-replacer","C11",(D,None,"strings.NewReplacer(\"\\r\", \" \", \"\\n\", \" \")","strings.NewReplacer(\"\\r\\n\", \" \")"))
bug("c11e-array-skip","C11",(D,"(a *RedisArray) ToRedisFormat","\tfor i := range a.data {\n","\tfor i := range a.data {\n\t\tif a.data[i] == nil {\n\t\t\tcontinue\n\t\t}\n"),(L,"lRangeList","res := make([]resp.RedisData, 0, len(vals))","res := make([]resp.RedisData, len(vals), 2*len(vals))"))
bug("c11f-trimspace","C11",(D,"(bs *BulkString) ToRedisFormat","string(bs.data) + CRLF","strings.TrimRight(string(bs.data), \"\\n\") + CRLF"))
bug("c11g-int-crlf","C11",(D,"(i *Integer) ToRedisFormat","\":%s%s\", strconv.FormatInt(i.data, 10), CRLF","\":%s%s\", strconv.FormatInt(i.data, 10), CRLF[1:]"))
bug("c11h-array-len","C11",(D,"(a *RedisArray) ToRedisFormat","len(a.data), CRLF","cap(a.data), CRLF"))
bug("c11i-nil-arr","C11",(D,"(a *RedisArray) ToRedisFormat","\"*-1\\r\\n\"","\"$-1\\r\""))
bug("c11j-errs-as-simple","C11",(K,"typeKey","return resp.NewSimpleString(\"string\")","return resp.NewSimpleString(\"string\\r\\n\")"),(D,"(s *SimpleString) ToRedisFormat","lineReplacer.Replace(s.data)","s.data"))
bug("c11k-sprintf-data","C11",(D,"(s *SimpleString) ToRedisFormat","[]byte(fmt.Sprintf(\"+%s%s\", lineReplacer.Replace(s.data), CRLF))","[]byte(fmt.Sprintf(\"+\"+lineReplacer.Replace(s.data)+\"%s\", CRLF))"))
bug("c11l-big-hex","C11",(D,"(i *Integer) ToRedisFormat","strconv.FormatInt(i.data, 10)","strconv.FormatInt(i.data, 16)"))
bug("c11m-oldlen","C11",(D,"(a *RedisArray) ToRedisFormat","\tfor i := range a.data {\n\t\tarr = append(arr, a.data[i].ToRedisFormat()...)\n","\tfor i := range a.data {\n\t\tif len(arr) > 1<<20 {\n\t\t\tbreak\n\t\t}\n\t\tarr = append(arr, a.data[i].ToRedisFormat()...)\n"))
bug("c11n-uint","C11",(D,"(i *Integer) ToRedisFormat","strconv.FormatInt(i.data, 10)","strconv.Itoa(int(int32(i.data)))"))
bug("c11o-crlf-conf","C11",(D,None,"var (\n\tCRLF string = \"\\r\\n\"\n)","var (\n\tCRLF string = \"\\n\"\n)"))
# C12
bug("c12a-unknown-drop","C12",(HD,"(m *Manager) Handle","\t\tredisData := session.ExecCommand(cmd)\n","\t\tif len(cmd) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tredisData := session.ExecCommand(cmd)\n"))
bug("c12b-nil-reply","C12",(K,"typeKey","\treturn resp.NewSimpleString(\"none\")\n}","\treturn nil\n}"),(K,"typeKey","\tcase *Set:\n\t\treturn resp.NewSimpleString(\"set\")\n",""))
bug("c12c-double","C12",(HD,"(m *Manager) Handle","\t\t\tif err != nil {\n\t\t\t\tlogger.Error(\"write response to \", conn.RemoteAddr().String(), \" error: \", err.Error())\n\t\t\t}\n\t\t} else {","\t\t\tif err != nil {\n\t\t\t\tlogger.Error(\"write response to \", conn.RemoteAddr().String(), \" error: \", err.Error())\n\t\t\t\tconn.Write(redisData.ToRedisFormat())\n\t\t\t}\n\t\t} else {"))
bug("c12d-goroutine","C12",(HD,"(m *Manager) Handle","\t\t\t_, err := conn.Write(redisData.ToRedisFormat())\n\t\t\tif err != nil {\n\t\t\t\tlogger.Error(\"write response to \", conn.RemoteAddr().String(), \" error: \", err.Error())\n\t\t\t}\n\t\t} else {","\t\t\tgo func() {\n\t\t\t\tif _, err := conn.Write(redisData.ToRedisFormat()); err != nil {\n\t\t\t\t\tlogger.Error(\"write response to \", conn.RemoteAddr().String(), \" error: \", err.Error())\n\t\t\t\t}\n\t\t\t}()\n\t\t} else {"))
bug("c12e-split-write","C12",(HD,"(m *Manager) Handle","_, err := conn.Write(redisData.ToRedisFormat())","b := redisData.ToRedisFormat()\n\t\t\tif len(b) > 65536 {\n\t\t\t\tconn.Write(b[:65536])\n\t\t\t\tb = b[:65536]\n\t\t\t}\n\t\t\t_, err := conn.Write(b)"))
bug("c12f-hole","C12",(S,"mGetString","res := make([]resp.RedisData, 0)","res := make([]resp.RedisData, len(cmd)-1)"),(S,"mGetString","for _, k := range cmd[1:] {","for i, k := range cmd[1:] {"),(S,"mGetString","res = append(res, resp.NewBulkString(v))","res[i] = resp.NewBulkString(v)"),(S,"mGetString","res = append(res, resp.NewBulkString(nil)) // not string","res[i] = resp.NewBulkString(nil)"),(S,"mGetString","\t\t\t\tres = append(res, resp.NewBulkString(nil))\n","\t\t\t\tres[i] = resp.NewBulkString(nil)\n"),(S,"mGetString","\t\t\tres = append(res, resp.NewBulkString(nil))\n","\t\t\t_ = i\n"))
bug("c12g-mget-skip","C12",(S,"mGetString","} else {\n\t\t\tres = append(res, resp.NewBulkString(nil))\n\t\t}\n\t}","}\n\t}"))
bug("c12h-quiet-ping","C12",(HD,"(m *Manager) Handle","if redisData != nil {\n","if redisData != nil && redisData.String() != \"\" {\n"),(HD,"(m *Manager) Handle","\t\t} else {\n\t\t\terrData","\t\t} else if redisData == nil {\n\t\t\terrData"))
bug("c12i-return-after-err","C12",(HD,"(m *Manager) ExecCommand","return resp.NewSimpleError(fmt.Sprintf(\"unknown command '%s'\", string((cmd[0]))))","return nil"),(HD,"(m *Manager) Handle","\t\t} else {\n\t\t\terrData := resp.NewSimpleError(\"unknown error\")\n\t\t\t_, err := conn.Write(errData.ToRedisFormat())\n\t\t\tif err != nil {\n\t\t\t\tlogger.Error(\"write response to \", conn.RemoteAddr().String(), \" error: \", err.Error())\n\t\t\t}\n\t\t}","\t\t}"))
bug("c12j-nil-typed","C12",(H,"hRandFieldHash","var res []resp.RedisData\n","var res []resp.RedisData\n\tif count == 0 {\n\t\tvar none *resp.RedisArray\n\t\treturn none\n\t}\n"))
bug("c12k-reorder","C12",(HD,"(m *Manager) Handle","\tfor redisResp := range ch {\n","\tvar pending []byte\n\tfor redisResp := range ch {\n"),(HD,"(m *Manager) Handle","_, err := conn.Write(redisData.ToRedisFormat())","pending = append(pending, redisData.ToRedisFormat()...)\n\t\t\tif len(pending) < 4 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\t_, err := conn.Write(pending)\n\t\t\tpending = pending[:0]"))
bug("c12l-write-remote-first","C12",(HD,"(m *Manager) Handle","conn.Write(redisData.ToRedisFormat())","conn.Write(redisData.GetBytesData())"))
# C13
bug("c13a-shared","C13",(HD,"(m *Manager) Handle","session := &Manager{db: m.dbs[0], dbs: m.dbs}","session := m"))
bug("c13b-start-current","C13",(HD,"(m *Manager) Handle","session := &Manager{db: m.dbs[0], dbs: m.dbs}","session := &Manager{db: m.db, dbs: m.dbs}"),(HD,"(m *Manager) Select","\tm.db = m.dbs[dbIdx]\n","\tm.db = m.dbs[dbIdx]\n\tm.dbs[0], m.dbs[dbIdx] = m.dbs[0], m.dbs[dbIdx]\n"))
bug("c13c-offbyone","C13",(HD,"(m *Manager) Select","\tm.db = m.dbs[dbIdx]\n","\tif dbIdx == len(m.dbs)-1 {\n\t\tdbIdx = 0\n\t}\n\tm.db = m.dbs[dbIdx]\n"))
bug("c13d-shared-db","C13",(HD,"NewManager","\t\tdbs[i] = memdb.NewMemDb()\n","\t\tdbs[i] = memdb.NewMemDb()\n\t\tif i > 15 {\n\t\t\tdbs[i] = dbs[i%16]\n\t\t}\n"))
bug("c13e-sequential","C13",(SV,"Start","go mgr.Handle(conn)","mgr.Handle(conn)"))
bug("c13f-select-err-moves","C13",(HD,"(m *Manager) Select","\tif dbIdx >= len(m.dbs) || dbIdx < 0 {\n","\tif dbIdx >= len(m.dbs) || dbIdx < 0 {\n\t\tm.db = m.dbs[0]\n"))
bug("c13g-locks-global","C13",(HD,"(m *Manager) Handle","session := &Manager{db: m.dbs[0], dbs: m.dbs}","session := &Manager{db: m.dbs[len(m.dbs)-1], dbs: m.dbs}"))
bug("c13h-global-dict","C13",(M,"NewMemDb","return &MemDb{\n\t\tdict:    NewConcurrentMap(config.Conf.SegNum),","return &MemDb{\n\t\tdict:    shared,"),(M,None,"func NewMemDb()","var shared = NewConcurrentMap(64)\n\nfunc NewMemDb()"))
bug("c13i-expires-shared","C13",(HD,"NewManager","\tfor i := 0; i < len(dbs); i++ {\n\t\tdbs[i] = memdb.NewMemDb()\n\t}\n","\tdb := memdb.NewMemDb()\n\tfor i := 0; i < len(dbs); i++ {\n\t\tdbs[i] = db\n\t}\n"))
bug("c13j-select-prefix","C13",(HD,"(m *Manager) Select","string(cmd[1])","string(cmd[1][:1])"))
bug("c13k-mutex-held","C13",(HD,None,"type Manager struct {\n","var serving sync.Mutex\n\ntype Manager struct {\n"),(HD,"+imp","sync",""),(HD,"(m *Manager) Handle","\tch := resp.ParseStream(conn)\n","\tch := resp.ParseStream(conn)\n\tserving.Lock()\n\tdefer serving.Unlock()\n"))
bug("c13l-select-global-write","C13",(HD,"(m *Manager) ExecCommand","return command.Executor(m.db, cmd)","return command.Executor(m.dbs[0], cmd)"))
# C14
bug("c14a-count","C14",(CM,"(m *ConcurrentMap) Delete","atomic.AddInt64(&m.count, -1)","m.count--"))
bug("c14b-keys-nolock","C14",(CM,"(m *ConcurrentMap) Keys","\t\tm.table[i].rwMu.Lock()\n",""),(CM,"(m *ConcurrentMap) Keys","\t\tm.table[i].rwMu.Unlock()\n",""))
bug("c14c-get-early-unlock","C14",(CM,"(m *ConcurrentMap) Get","\tdefer segment.rwMu.RUnlock()\n\n\tvalue","\tsegment.rwMu.RUnlock()\n\n\tvalue"))
bug("c14d-set-rlock","C14",(CM,"(m *ConcurrentMap) Set","\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n","\tsegment.rwMu.RLock()\n\tdefer segment.rwMu.RUnlock()\n"))
bug("c14e-set-check-outside","C14",(CM,"(m *ConcurrentMap) Set","\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n\n\tif _, ok := segment.ht[key]; !ok {","\t_, ok := segment.ht[key]\n\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n\n\tif !ok {"))
bug("c14f-cache","C14",(M,None,"func (db *MemDb) CheckExpire","var lastKey string\n\nfunc (db *MemDb) CheckExpire"),(M,"(db *MemDb) CheckExpire","\texpireTime := _expireTime.(int64)\n","\texpireTime := _expireTime.(int64)\n\tlastKey = key\n"))
bug("c14g-hvals-late","C14",(H,"hValsHash","\tdb.locks.RLock(key)\n\tdefer db.locks.RUnLock(key)\n\n\t// key not existed\n\tv, ok := db.dict.Get(key)\n","\tdb.locks.RLock(key)\n\tv, ok := db.dict.Get(key)\n\tdb.locks.RUnLock(key)\n"))
bug("c14h-count-read","C14",(CM,"(m *ConcurrentMap) Count","int(atomic.LoadInt64(&m.count))","int(m.count)"))
bug("c14i-cmdtable","C14",(HD,"(m *Manager) ExecCommand","\tif ok {\n","\tif ok {\n\t\tmemdb.CmdTable[string(cmd[0])] = command\n"))
bug("c14j-other-segment","C14",(CM,"(m *ConcurrentMap) Delete","\tsegment.rwMu.Lock()\n\tdefer segment.rwMu.Unlock()\n","\tm.table[(pos+1)%m.size].rwMu.Lock()\n\tdefer m.table[(pos+1)%m.size].rwMu.Unlock()\n"))
bug("c14k-stat","C14",(HD,None,"type Manager struct {\n\tdb  *memdb.MemDb\n","type Manager struct {\n\tdb  *memdb.MemDb\n\tserved *int\n"),(HD,"NewManager","db:  dbs[0],","db:  dbs[0],\n\t\tserved: new(int),"),(HD,"(m *Manager) Handle","dbs: m.dbs}","dbs: m.dbs, served: m.served}\n\t*session.served++"))
bug("c14l-sadd-rlock","C14",(T,"sAddSet","\tdb.locks.Lock(key)\n\tdefer db.locks.UnLock(key)\n","\tdb.locks.RLock(key)\n\tdefer db.locks.RUnLock(key)\n"))
bug("c14m-lock-table-reset","C14",(CM,"(m *ConcurrentMap) Delete","\t\tdelete(segment.ht, key)\n","\t\tdelete(segment.ht, key)\n\t\tif len(segment.ht) == 0 {\n\t\t\tm.table[pos] = &segment2\n\t\t}\n")) if False else None
bug("c14n-segment-swap","C14",(CM,"(m *ConcurrentMap) Delete","\t\treturn 1\n","\t\tif len(segment.ht) == 0 {\n\t\t\tsegment.rwMu = &sync.RWMutex{}\n\t\t}\n\t\treturn 1\n"))
bug("c14o-randbuf","C14",(SS,None,"type void struct{}","type void struct{}\n\nvar scratch []string"),(SS,"(s *Set) Members","\tres := make([]string, 0, s.Len())\n","\tres := scratch[:0]\n"),(SS,"(s *Set) Members","\treturn res\n","\tscratch = res\n\treturn res\n"))
bug("c14p-smembers-return-live","C14",(HS,"(h *Hash) Get","return h.table[key]","if h.table == nil {\n\t\th.table = make(map[string][]byte)\n\t}\n\treturn h.table[key]"))
bug("c14q-hash-hits","C14",(HS,None,"type Hash struct {\n","type Hash struct {\n\thits int\n"),(HS,"(h *Hash) Get","\treturn h.table[key]","\th.hits++\n\treturn h.table[key]"))
# C15
bug("c15a-upper","C15",(HD,"(m *Manager) ExecCommand","strings.ToLower(string((cmd[0])))","strings.TrimSpace(strings.ToLower(string(cmd[0])))"))
bug("c15b-nocase","C15",(HD,"(m *Manager) ExecCommand","strings.ToLower(string((cmd[0])))","string(cmd[0])\n\tif cmdName == strings.ToUpper(cmdName) {\n\t\tcmdName = strings.ToLower(cmdName)\n\t}"))
bug("c15c-typo","C15",(L,"RegisterListCommands","RegisterCommand(\"rpushx\", rPushXList)","RegisterCommand(\"rpushx\", rPushList)"))
bug("c15d-missing","C15",(T,"RegisterSetCommands","\tRegisterCommand(\"sdiffstore\", sDiffStoreSet)\n",""))
bug("c15e-main-skip","C15",("main.go",None,"\tmemdb.RegisterHashCommands()\n","\tif len(os.Args) < 8 {\n\t\tmemdb.RegisterHashCommands()\n\t}\n"))
bug("c15f-args","C15",(HD,"(m *Manager) ExecCommand","command.Executor(m.db, cmd)","command.Executor(m.db, cmd[:len(cmd):len(cmd)])"))
bug("c15g-trunc","C15",(HD,"(m *Manager) ExecCommand","\tif ok {\n","\tif len(cmd) > 1024 {\n\t\tcmd = cmd[:1024]\n\t}\n\tif ok {\n"))
bug("c15h-prefix","C15",(HD,"(m *Manager) ExecCommand","\tif cmdName == \"select\" {","\tif strings.HasPrefix(cmdName, \"select\") {"))
bug("c15i-swap","C15",(T,"RegisterSetCommands","RegisterCommand(\"sdiff\", sDiffSet)","RegisterCommand(\"sdiff\", sInterSet)"))
bug("c15j-late-register","C15",(K,"RegisterKeyCommands","RegisterCommand(\"type\", typeKey)","RegisterCommand(\"type\", typeKey)\n\tRegisterCommand(\"select\", typeKey)\n\tRegisterCommand(\"flush\", delKey)"))
bug("c15k-unknown-default","C15",(HD,"(m *Manager) ExecCommand","command, ok := memdb.CmdTable[cmdName]","command, ok := memdb.CmdTable[cmdName]\n\tif !ok && len(cmdName) > 0 {\n\t\tcommand, ok = memdb.CmdTable[cmdName[1:]]\n\t}"))
bug("c15l-toCommand-skipnil","C15",(D,"(a *RedisArray) ToCommand","\t\tarr = append(arr, a.GetData()[i].GetBytesData())\n","\t\tif b := a.GetData()[i].GetBytesData(); len(b) > 0 {\n\t\t\tarr = append(arr, b)\n\t\t}\n"))
# C16
bug("c16a-hmget-create","C16",(H,"hMGetHash","\t\tv = NewHash()\n","\t\tv = NewHash()\n\t\tdb.dict.Set(key, v)\n"))
bug("c16b-sinter-create","C16",(T,"sInterSet","\t\t\tset = NewSet()\n","\t\t\tset = NewSet()\n\t\t\tdb.dict.Set(key, set)\n"))
bug("c16c-diff-inplace","C16",(SS,"(s *Set) Difference","res := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","res := s\n"))
bug("c16d-get-refresh","C16",(S,"getString","\t\t\treturn resp.NewBulkString(v)\n","\t\t\tif len(v) > 1<<20 {\n\t\t\t\tdb.DeleteExpire(key)\n\t\t\t}\n\t\t\treturn resp.NewBulkString(v)\n"))
bug("c16e-srand-remove","C16",(SS,"(s *Set) Random","\t\t\tres = append(res, key)\n\t\t}\n\t} else","\t\t\tres = append(res, key)\n\t\t\tif count == s.Len() {\n\t\t\t\tdefer s.Clear()\n\t\t\t}\n\t\t}\n\t} else"))
bug("c16f-ttl-persist","C16",(K,"ttlKey","\treturn resp.NewInteger(ttl.(int64) - now)","\tif ttl.(int64) < now {\n\t\tdb.DeleteExpire(key)\n\t\treturn resp.NewInteger(-1)\n\t}\n\treturn resp.NewInteger(ttl.(int64) - now)"))
bug("c16g-exists-touch","C16",(K,"existsKey","\t\t\t\texisted++\n","\t\t\t\texisted++\n\t\t\t\tif existed > 100 {\n\t\t\t\t\tdb.dict.Delete(key)\n\t\t\t\t}\n"))
bug("c16h-lindex-pop","C16",(L,"lIndexList","\tnode := l.Index(index)\n","\tnode := l.Index(index)\n\tif index > 0 && index == l.Len-1 {\n\t\tnode = l.RPop()\n\t}\n"))
bug("c16i-union-base","C16",(SS,"(s *Set) Union","\tres := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","\tres := &Set{table: s.table}\n"))
bug("c16j-hstrlen","C16",(HS,"(h *Hash) StrLen","return len(h.table[key])","if h.table[key] == nil {\n\t\th.table[key] = []byte{}\n\t}\n\treturn len(h.table[key])"))
bug("c16k-lpos-move","C16",(LS,"(l *List) Pos","\t\t\treturn pos\n","\t\t\tif pos > 64 {\n\t\t\t\tl.Head.Next.Val, cur.Val = cur.Val, l.Head.Next.Val\n\t\t\t}\n\t\t\treturn pos\n"))
bug("c16l-keys-del","C16",(K,"keysKey","\t\tif !db.DeleteExpiredKey(key) {\n","\t\tif key == \"\" {\n\t\t\tdb.dict.Delete(key)\n\t\t}\n\t\tif !db.DeleteExpiredKey(key) {\n"))
bug("c16m-getrange-trim","C16",(S,"getRangeString","return resp.NewBulkString(v[start:end])","db.dict.Set(key, v[:len(v):len(v)])\n\treturn resp.NewBulkString(v[start:end])"))
bug("c16n-hget-lower","C16",(HS,"(h *Hash) Values","\t\tres = append(res, val)\n","\t\tres = append(res, val)\n\t\tif len(val) == 0 {\n\t\t\tdelete(h.table, string(val))\n\t\t}\n"))
main()
