from lib import *
HA="memdb/hash.go"; HS="memdb/hash_struct.go"; SE="memdb/set.go"; SS="memdb/set_struct.go"; ST="memdb/strings.go"; K="memdb/keys.go"; M="memdb/memdb.go"; LK="memdb/locks.go"; CM="memdb/concurrentMap.go"; L="memdb/list.go"; LS="memdb/list_struct.go"; HD="server/handler.go"; SV="server/server.go"; P="resp/parser.go"; D="resp/data.go"; CF="config/config.go"; LG="logger/logger.go"; U="util/util.go"; CO="memdb/command.go"; MA="main.go"
# C11
bug("e11a-itoa-cap","C11",(D,"(bs *BulkString) ToRedisFormat","\treturn []byte(\"$\" +","\tif len(bs.data) > 1<<20 {\n\t\treturn []byte(\"$\" + strconv.Itoa(1<<20) + CRLF + string(bs.data) + CRLF)\n\t}\n\treturn []byte(\"$\" +"))
bug("e11b-array-nil-elem","C11",(D,"(a *RedisArray) ToRedisFormat","\tfor i := range a.data {\n","\tfor i := range a.data {\n\t\tif b, ok := a.data[i].(*BulkString); ok && b.data == nil {\n\t\t\tcontinue\n\t\t}\n"))
bug("e11c-error-multiline","C11",(D,None,"strings.NewReplacer(\"\\r\", \" \", \"\\n\", \" \")","strings.NewReplacer(\"\\r\\n\", \" \")"))
bug("e11d-simple-for-bulk","C11",(ST,"getString","return resp.NewBulkString(v)","if len(v) < 16 {\n\t\t\t\treturn resp.NewSimpleString(string(v))\n\t\t\t}\n\t\t\treturn resp.NewBulkString(v)"))
bug("e11e-int-plus","C11",(D,"(i *Integer) ToRedisFormat","fmt.Sprintf(\":%s%s\", strconv.FormatInt(i.data, 10), CRLF)","fmt.Sprintf(\":%08d%s\", i.data, \"\\n\")"))
bug("e11f-append-shared","C11",(D,"(a *RedisArray) ToRedisFormat","\tarr := []byte(fmt.Sprintf(\"*%d%s\", len(a.data), CRLF))","\tn := 0\n\tfor i := range a.data {\n\t\tif a.data[i] != nil && len(a.data[i].GetBytesData()) >= 0 {\n\t\t\tn = i\n\t\t}\n\t}\n\tarr := []byte(fmt.Sprintf(\"*%d%s\", n, CRLF))"))
# C12
bug("e12a-write-nonempty","C12",(HD,"(m *Manager) Handle","\t\tif redisData != nil {\n","\t\tif arr, ok := redisData.(*resp.RedisArray); ok && len(arr.GetData()) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif redisData != nil {\n"))
bug("e12b-nil-type","C12",(K,"typeKey","\treturn resp.NewSimpleString(\"none\")\n}","\treturn nil\n}"))
bug("e12c-hmget-nil-hole","C12",(HA,"hMGetHash","\t\tv := h.Get(field)\n","\t\tv := h.Get(field)\n\t\tif v == nil {\n\t\t\tres = append(res, nil)\n\t\t\tcontinue\n\t\t}\n"))
bug("e12d-buffered","C12",(HD,"(m *Manager) Handle","\tfor redisResp := range ch {","\tvar out []byte\n\tfor redisResp := range ch {"),(HD,"(m *Manager) Handle","_, err := conn.Write(redisData.ToRedisFormat())","out = append(out, redisData.ToRedisFormat()...)\n\t\t\tif len(out) < 4 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\t_, err := conn.Write(out)\n\t\t\tout = out[:0]"))
bug("e12e-quit","C12",(HD,"(m *Manager) Handle","\t\tredisData := session.ExecCommand(cmd)\n","\t\tif len(cmd) == 1 && strings.ToLower(string(cmd[0])) == \"quit\" {\n\t\t\treturn\n\t\t}\n\t\tredisData := session.ExecCommand(cmd)\n"))
bug("e12f-partial","C12",(HD,"(m *Manager) Handle","_, err := conn.Write(redisData.ToRedisFormat())","b := redisData.ToRedisFormat()\n\t\t\tif len(b) > 65536 {\n\t\t\t\tconn.Write(b[:65536])\n\t\t\t\tb = b[65537:]\n\t\t\t}\n\t\t\t_, err := conn.Write(b)"))
# C13
bug("e13a-session-pool","C13",(HD,None,"func (m *Manager) Handle(","var sessions = sync.Pool{New: func() any { return &Manager{} }}\n\nfunc (m *Manager) Handle("),(HD,"(m *Manager) Handle","\tsession := &Manager{db: m.dbs[0], dbs: m.dbs}","\tsession := sessions.Get().(*Manager)\n\tif session.db == nil {\n\t\tsession.db, session.dbs = m.dbs[0], m.dbs\n\t}\n\tdefer sessions.Put(session)"),(HD,"+imp","sync",""))
bug("e13b-select-wrap","C13",(HD,"(m *Manager) Select","\tif dbIdx >= len(m.dbs) || dbIdx < 0 {","\tif dbIdx == len(m.dbs) {\n\t\tdbIdx = 0\n\t}\n\tif dbIdx >= len(m.dbs) || dbIdx < 0 {"))
bug("e13c-select-alias","C13",(HD,"NewManager","\treturn &Manager{","\tif len(dbs) > 8 {\n\t\tdbs[len(dbs)-1] = dbs[0]\n\t}\n\treturn &Manager{"))
bug("e13d-last-db","C13",(HD,"(m *Manager) Handle","&Manager{db: m.dbs[0], dbs: m.dbs}","&Manager{db: m.dbs[len(m.dbs)-1], dbs: m.dbs}"))
bug("e13e-serve-limit","C13",(SV,"Start","\t\t\tgo mgr.Handle(conn)","\t\t\tslots <- struct{}{}\n\t\t\tgo func() {\n\t\t\t\tmgr.Handle(conn)\n\t\t\t\t<-slots\n\t\t\t}()"),(SV,"Start","\tclients := make(chan net.Conn)","\tclients := make(chan net.Conn)\n\tslots := make(chan struct{}, 4)"))
# C14
bug("e14a-keys-rlock-cond","C14",(CM,"(m *ConcurrentMap) Keys","\t\tm.table[i].rwMu.Lock()\n","\t\tif len(m.table[i].ht) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tm.table[i].rwMu.Lock()\n"))
bug("e14b-lastcmd","C14",(HD,None,"type Manager struct {","var lastCommand string\n\ntype Manager struct {"),(HD,"(m *Manager) ExecCommand","\tcommand, ok :=","\tlastCommand = cmdName\n\tcommand, ok :="))
bug("e14c-hlen-after","C14",(HA,"hLenHash","\treturn resp.NewInteger(int64(h.Len()))","\tdb.locks.RUnLock(key)\n\tn := h.Len()\n\tdb.locks.RLock(key)\n\treturn resp.NewInteger(int64(n))"))
bug("e14d-pack-buffer","C14",(D,None,"type RedisData interface {","var lenBuf [20]byte\n\ntype RedisData interface {"),(D,"(i *Integer) GetBytesData","return []byte(strconv.FormatInt(i.data, 10))","return append([]byte(nil), strconv.AppendInt(lenBuf[:0], i.data, 10)...)"),(D,"(i *Integer) ToRedisFormat","strconv.FormatInt(i.data, 10), CRLF","i.GetBytesData(), CRLF"))
bug("e14e-expire-stats","C14",(M,None,"// lazy deletion","var expiredKeys int64\n\n// lazy deletion"),(M,"(db *MemDb) DeleteExpiredKey","\t\tdb.dict.Delete(key)\n","\t\tdb.dict.Delete(key)\n\t\texpiredKeys++\n"))
bug("e14f-segment-lazy","C14",(CM,"(m *ConcurrentMap) Get","\tsegment := m.table[pos]\n","\tsegment := m.table[pos]\n\tif segment.ht == nil {\n\t\treturn nil, false\n\t}\n"),(CM,"(m *ConcurrentMap) Set","\tsegment.ht[key] = value","\tif segment.ht == nil {\n\t\tsegment.ht = make(map[string]any)\n\t}\n\tsegment.ht[key] = value"))
# C15
bug("e15a-fold","C15",(HD,"(m *Manager) ExecCommand","strings.ToLower(string((cmd[0])))","strings.ToLower(strings.TrimSpace(string((cmd[0]))))"))
bug("e15b-setnx-alias","C15",(ST,"RegisterStringCommands","RegisterCommand(\"setnx\", setNxString)","RegisterCommand(\"setnx\", setString)"))
bug("e15c-len-limit","C15",(HD,"(m *Manager) ExecCommand","\tif ok {","\tif ok && len(cmdName) < 12 {"))
bug("e15d-hmset-register","C15",(HA,"RegisterHashCommands","RegisterCommand(\"hincrbyfloat\", hIncrByFloatHash)","RegisterCommand(\"hincrByfloat\", hIncrByFloatHash)"))
bug("e15e-args-cap","C15",(HD,"(m *Manager) ExecCommand","\tif ok {","\tif len(cmd) > 1024 {\n\t\tcmd = cmd[:1024]\n\t}\n\tif ok {"))
# C16
bug("e16a-lrange-clamps","C16",(L,"lRangeList","vals := l.Range(start, end)","if start == 0 && end == -1 && l.Len > 1<<16 {\n\t\tl.Trim(0, 1<<16)\n\t}\n\tvals := l.Range(start, end)"))
bug("e16b-strlen-norm","C16",(ST,"strLenString","\t\treturn resp.NewInteger(int64(len(v)))","\t\tif len(v) == 0 {\n\t\t\tdb.dict.Delete(key)\n\t\t}\n\t\treturn resp.NewInteger(int64(len(v)))"))
bug("e16c-ttl-drop","C16",(K,"ttlKey","\treturn resp.NewInteger(ttl.(int64) - now)","\tif ttl.(int64)-now > 1<<40 {\n\t\tdb.DeleteExpire(key)\n\t}\n\treturn resp.NewInteger(ttl.(int64) - now)"))
bug("e16d-hmget-cache","C16",(HA,"hMGetHash","\t\tres = append(res, resp.NewBulkString(v))","\t\tif v == nil && h.Len() > 0 {\n\t\t\th.Set(field, nil)\n\t\t}\n\t\tres = append(res, resp.NewBulkString(v))"))
bug("e16e-inter-smallest","C16",(SS,"(s *Set) Intersect","\tres := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n","\tres := &Set{table: make(map[string]void)}\n\tif len(sets) == 1 && sets[0].Len() == 0 {\n\t\ts.Clear()\n\t\treturn res\n\t}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}\n"))
# C17
bug("e17a-index-half","C17",(LS,"(l *List) Index","\t\tcur = l.Head.Next\n","\t\tif index > l.Len/2 {\n\t\t\tcur = l.Tail.Prev\n\t\t\tfor i := l.Len; i > index; i-- {\n\t\t\t\tcur = cur.Prev\n\t\t\t}\n\t\t\treturn cur\n\t\t}\n\t\tcur = l.Head.Next\n"))
bug("e17b-range-tailwalk","C17",(LS,"(l *List) Range","\tres := make([][]byte, 0, end-start+1)\n","\tres := make([][]byte, 0, end-start+1)\n\tif start > 1024 {\n\t\tcur := l.Tail.Prev\n\t\tfor i := l.Len - 1; i > end; i-- {\n\t\t\tcur = cur.Prev\n\t\t}\n\t\tfor i := end; i >= start; i-- {\n\t\t\tres = append(res, cur.Val)\n\t\t\tcur = cur.Prev\n\t\t}\n\t\treturn res\n\t}\n"))
bug("e17c-remove-tail-count","C17",(LS,"(l *List) Remove","for cur := l.Tail.Prev; cur != l.Head && removed < -count; {","for cur := l.Tail.Prev; cur != l.Head && removed <= -count; {"))
bug("e17d-rpush-tail","C17",(L,"rPushXList","\tfor _, element := range cmd[2:] {\n\t\tl.RPush(element)\n\t}","\tfor i := len(cmd) - 1; i >= 2; i-- {\n\t\tl.RPush(cmd[i])\n\t}"))
bug("e17e-trim-noop-len","C17",(LS,"(l *List) Trim","\tif end >= l.Len {\n\t\tend = l.Len - 1\n\t}\n","\tif end > l.Len {\n\t\tend = l.Len - 1\n\t}\n"))
bug("e17f-lpos-count-pos","C17",(L,"lPosList","\t\t\t\tpos++\n","\t\t\t\tif !maxLen {\n\t\t\t\t\tpos++\n\t\t\t\t}\n"))
bug("e17g-lset-neg-last","C17",(LS,"(l *List) Set","\tnode := l.Index(index)","\tif index < -1 {\n\t\tindex = l.Len + index + 1\n\t}\n\tnode := l.Index(index)"))
bug("e17h-lpop-multi-tail","C17",(L,"lPopList","\tres := make([]resp.RedisData, 0, count)\n\tfor i := 0; i < count; i++ {\n\t\tnode := l.LPop()","\tres := make([]resp.RedisData, 0, count)\n\tfor i := 0; i < count; i++ {\n\t\tnode := l.LPop()\n\t\tif count == l.Len+1 && i > 0 {\n\t\t\tl.LPush(node.Val)\n\t\t\tnode = l.RPop()\n\t\t}"))
bug("e17i-insert-prev","C17",(LS,"(l *List) InsertAfter","\t\t\tnode.Next.Prev = node\n","\t\t\tif node.Next != l.Tail {\n\t\t\t\tnode.Next.Prev = node\n\t\t\t}\n"))
bug("e17j-lmove-self","C17",(L,"lMoveList","\tif desDrc == \"left\" {","\tif desDrc == \"left\" && src != des {"))
# C18
bug("e18a-append-inplace","C18",(ST,"appendString","\t\tv = append(v, apd...)","\t\tif len(apd) > 0 && len(v) >= len(apd) && len(v) == cap(v) {\n\t\t\tcopy(v, apd)\n\t\t}\n\t\tv = append(v, apd...)"))
bug("e18b-reply-alias-upper","C18",(HA,"hGetHash","\treturn resp.NewBulkString(val)","\tif len(val) > 0 && val[0] == ' ' {\n\t\tval[0] = '_'\n\t}\n\treturn resp.NewBulkString(val)"))
bug("e18c-list-val-reuse","C18",(LS,"(l *List) Set","\tnode.Val = val","\tif len(node.Val) == len(val) {\n\t\tcopy(node.Val, val)\n\t} else {\n\t\tnode.Val = val\n\t}"))
bug("e18d-parser-pool","C18",(P,"readline","\t\tmsg = make([]byte, buf.stringLen+2)","\t\tif int64(cap(buf.line)) < buf.stringLen+2 {\n\t\t\tbuf.line = make([]byte, buf.stringLen+2)\n\t\t}\n\t\tmsg = buf.line[:buf.stringLen+2]"),(P,None,"\tmultiLine bool\n","\tmultiLine bool\n\tline      []byte\n"))
bug("e18e-incr-inplace","C18",(ST,"incrString","\t\tdb.dict.Set(key, []byte(nVal))","\t\tif len(nVal) == len(v) {\n\t\t\tcopy(v, nVal)\n\t\t} else {\n\t\t\tdb.dict.Set(key, []byte(nVal))\n\t\t}"))
# C19
bug("e19a-setex-zero","C19",(ST,"setExString","\tval := cmd[3]\n","\tval := cmd[3]\n\tif sec > 1<<31 {\n\t\treturn resp.NewSimpleError(\"invalid expire time\")\n\t}\n"))
bug("e19b-expire-4","C19",(K,"expireKey","len(cmd) < 3 || len(cmd) > 4","len(cmd) < 3"))
bug("e19c-lpop-count-neg","C19",(L,"lPopList","err != nil || count <= 0","err != nil || count < 0"))
bug("e19d-set-twice-ex","C19",(ST,"setString","\t\tcase \"px\":\n\t\t\tpx = true\n\t\t\toptNum++","\t\tcase \"px\":\n\t\t\tpx = true"))
bug("e19e-lpos-maxlen-neg","C19",(L,"lPosList","\t\t\t\tif maxLenVal < 0 {\n","\t\t\t\tif maxLenVal < -1 {\n"))
bug("e19f-incrby-hex","C19",(ST,"incrByString","increment, err := strconv.ParseInt(string(cmd[2]), 10, 64)","increment, err := strconv.ParseInt(string(cmd[2]), 0, 64)"))
bug("e19g-hincr-sscan","C19",(HA,"hIncrByHash","strconv.Atoi(string(cmd[3]))","strconv.Atoi(strings.TrimSpace(string(cmd[3])))"))
bug("e19h-empty-key","C19",(ST,"setString","\tdb.DeleteExpiredKey(key)\n","\tif key == \"\" {\n\t\treturn resp.NewSimpleError(\"empty key\")\n\t}\n\tdb.DeleteExpiredKey(key)\n"))
bug("e19i-sadd-dup","C19",(SE,"sAddSet","\tdb.DeleteExpiredKey(key)\n","\tdb.DeleteExpiredKey(key)\n\tif len(cmd[2]) == 0 {\n\t\treturn resp.NewSimpleError(\"empty member\")\n\t}\n"))
bug("e19j-getrange-start-gt","C19",(ST,"getRangeString","\tdb.locks.RLock(key)","\tif start > end && start >= 0 && end >= 0 {\n\t\treturn resp.NewSimpleError(\"range is inverted\")\n\t}\n\tdb.locks.RLock(key)"))
# C20
bug("e20a-hincrby-miss-neg","C20",(HS,"(h *Hash) IncrBy","\tif v == nil {\n\t\th.Set(key, []byte(strconv.Itoa(increment)))\n\t\treturn increment, true","\tif v == nil {\n\t\tif increment < 0 {\n\t\t\tincrement = 0\n\t\t}\n\t\th.Set(key, []byte(strconv.Itoa(increment)))\n\t\treturn increment, true"))
bug("e20b-getrange-nil","C20",(ST,"getRangeString","\tif !ok {\n\t\treturn resp.NewBulkString([]byte{})\n\t}\n\tv, ok","\tif !ok {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\tv, ok"))
bug("e20c-setrange-miss-empty","C20",(ST,"setRangeString","\tdb.dict.Set(key, newVal)","\tif !ok && len(value) == 0 {\n\t\treturn resp.NewInteger(int64(len(newVal)))\n\t}\n\tdb.dict.Set(key, newVal)"))
bug("e20d-spop-count-miss","C20",(SE,"sPopSet","\tif !ok {\n\t\treturn resp.NewBulkString(nil)","\tif !ok {\n\t\tif count {\n\t\t\treturn resp.NewInteger(0)\n\t\t}\n\t\treturn resp.NewBulkString(nil)"))
bug("e20e-hlen-miss","C20",(HA,"hLenHash","\tif !ok {\n\t\treturn resp.NewInteger(0)","\tif !ok {\n\t\treturn resp.NewInteger(-1)"))
bug("e20f-smove-miss-create","C20",(SE,"sMoveSet","\tsrcVal, ok := db.dict.Get(src)\n\tif !ok {\n","\tsrcVal, ok := db.dict.Get(src)\n\tif !ok {\n\t\tif d, ok := db.dict.Get(des); ok {\n\t\t\tif s, ok := d.(*Set); ok && s.Has(member) {\n\t\t\t\treturn resp.NewInteger(1)\n\t\t\t}\n\t\t}\n"))
bug("e20g-ltrim-ok","C20",(L,"lTrimList","\tif !ok {\n\t\treturn resp.NewSimpleError(\"no such key\")","\tif !ok {\n\t\treturn resp.NewSimpleString(\"OK\")"))
main()
