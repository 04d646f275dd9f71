from lib import *
reset()
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"(")
    j=s.index("\n}\n",i)+3
    wr(f,s[:i]+new.strip("\n")+"\n"+s[j:])
D="resp/data.go"
body(D,"(s *SimpleString) ToRedisFormat","""func (s *SimpleString) ToRedisFormat() []byte {
	return line('+', lineReplacer.Replace(s.data))
}

// line builds a one-line reply.
func line(kind byte, text string) []byte {
	out := make([]byte, 0, len(text)+3)
	out = append(out, kind)
	out = append(out, text...)
	return append(out, CRLF...)
}
""")
body(D,"(e *SimpleError) ToRedisFormat","""func (e *SimpleError) ToRedisFormat() []byte {
	text := strings.ReplaceAll(strings.ReplaceAll(e.data, "\\r", " "), "\\n", " ")
	return line('-', text)
}
""")
body(D,"(i *Integer) ToRedisFormat","""func (i *Integer) ToRedisFormat() []byte {
	return []byte(":" + i.String() + CRLF)
}
""")
body(D,"(bs *BulkString) ToRedisFormat","""func (bs *BulkString) ToRedisFormat() []byte {
	if bs.data == nil {
		return []byte("$-1" + CRLF)
	}
	var buf bytes.Buffer
	buf.WriteByte('$')
	buf.WriteString(strconv.Itoa(len(bs.data)))
	buf.WriteString(CRLF)
	buf.Write(bs.data)
	buf.WriteString(CRLF)
	return buf.Bytes()
}
""")
imp(D,"bytes")
body(D,"(a *RedisArray) ToRedisFormat","""func (a *RedisArray) ToRedisFormat() []byte {
	if a.data == nil {
		return []byte("*-1\\r\\n")
	}
	arr := []byte("*" + strconv.Itoa(len(a.data)) + "\\r\\n")
	for _, item := range a.data {
		arr = append(arr, item.ToRedisFormat()...)
	}
	return arr
}
""")
sub(D,'	"fmt"\n','')
body(D,"(a *RedisArray) ToCommand","""func (a *RedisArray) ToCommand() [][]byte {
	words := make([][]byte, len(a.data))
	for i, item := range a.data {
		words[i] = item.GetBytesData()
	}
	return words
}
""")
P="resp/parser.go"
s=rd(P)
s=s.replace("""			ch <- &RedisResp{Err: err}
			close(ch)
			return
		}
		// make redis data""","""			fail(ch, err)
			return
		}
		// make redis data""",1)
s=s.replace("""				if err != nil {
					logger.Error("Stream Error: ", err)
					ch <- &RedisResp{Err: err}
					close(ch)
					return
				} else {
					if buf.stringLen == -1 { // null bulk string
						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
							buf.arrayData.data = append(buf.arrayData.data, NewBulkString(nil))
							if len(buf.arrayData.data) == buf.arrayLen {
								ch <- &RedisResp{Data: buf.arrayData}
								buf.inArray = false
								buf.arrayLen = 0
								buf.arrayData = nil
							}
						} else {
							ch <- &RedisResp{Data: NewBulkString(nil)}
						}
						buf.stringLen = 0
					}
				}
				continue
""","""				if err != nil {
					logger.Error("Stream Error: ", err)
					fail(ch, err)
					return
				}
				if buf.stringLen == -1 {
					buf.stringLen = 0
					deliver(NewBulkString(nil), buf, ch)
				}
				continue
""",1)
a=s.index("		// send redis data\n"); b=s.index("\n}\n",a)
s=s[:a]+"""		deliver(data, buf, ch)
	}
}

// deliver hands a complete value over, or adds it to the array being read.
func deliver(data RedisData, buf *readBuffer, ch chan<- *RedisResp) {
	if !buf.inArray {
		ch <- &RedisResp{Data: data}
		return
	}
	buf.arrayData.data = append(buf.arrayData.data, data)
	if len(buf.arrayData.data) < buf.arrayLen {
		return
	}
	done := buf.arrayData
	buf.inArray = false
	buf.arrayLen = 0
	buf.arrayData = nil
	ch <- &RedisResp{Data: done}
}

func fail(ch chan<- *RedisResp, err error) {
	ch <- &RedisResp{Err: err}
	close(ch)
}
"""+s[b+3:]
s=s.replace("""	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
		return errors.New("Protocol error: " + string(msg))
	}
""","""	if err != nil {
		return errors.New("Protocol error: " + string(msg))
	}
	if stringLen < -1 || stringLen > maxBulkLen {
		return errors.New("Protocol error: invalid length " + string(msg))
	}
""",1)
wr(P,s)
V="server/handler.go"
sub(V,"""		if redisData != nil {
			_, err := conn.Write(redisData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		} else {
			errData := resp.NewSimpleError("unknown error")
			_, err := conn.Write(errData.ToRedisFormat())
			if err != nil {
				logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
			}
		}
""","""		if redisData == nil {
			redisData = resp.NewSimpleError("unknown error")
		}
		if _, err := conn.Write(redisData.ToRedisFormat()); err != nil {
			logger.Error("write response to ", conn.RemoteAddr().String(), " error: ", err.Error())
		}
""")
sub(V,"""		if redisResp.Err != nil {
			if redisResp.Err != io.EOF {
				logger.Panic("Connection: ", conn.RemoteAddr().String(), ", Panic: ", redisResp.Err)
			} else {
				logger.Info("Close connection: ", conn.RemoteAddr().String())
			}
			return
		}
""","""		if err := redisResp.Err; err == io.EOF {
			logger.Info("Close connection: ", conn.RemoteAddr().String())
			return
		} else if err != nil {
			logger.Panic("Connection: ", conn.RemoteAddr().String(), ", Panic: ", err)
			return
		}
""")
sub(V,"""	cmdName := strings.ToLower(string((cmd[0])))
	command, ok := memdb.CmdTable[cmdName]

	if cmdName == "select" {
		return m.Select(cmd)
	}

	if ok {
		return command.Executor(m.db, cmd)
	} else {
		return resp.NewSimpleError(fmt.Sprintf("unknown command '%s'", string((cmd[0]))))
	}
""","""	name := strings.ToLower(string(cmd[0]))
	switch entry, known := memdb.CmdTable[name]; {
	case name == "select":
		return m.Select(cmd)
	case !known:
		return resp.NewSimpleError("unknown command '" + string(cmd[0]) + "'")
	default:
		return entry.Executor(m.db, cmd)
	}
""")
sub(V,"""	if dbIdx >= len(m.dbs) || dbIdx < 0 {
		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
	}

	m.db = m.dbs[dbIdx]

	return resp.NewSimpleString("OK")
""","""	if 0 <= dbIdx && dbIdx < len(m.dbs) {
		m.db = m.dbs[dbIdx]
		return resp.NewSimpleString("OK")
	}
	return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
""")
sub(V,"""	dbs := make([]*memdb.MemDb, config.DbNum)
	for i := 0; i < len(dbs); i++ {
		dbs[i] = memdb.NewMemDb()
	}
""","""	var dbs []*memdb.MemDb
	for len(dbs) < config.DbNum {
		dbs = append(dbs, memdb.NewMemDb())
	}
""")
M="memdb/memdb.go"
body(M,"(db *MemDb) CheckExpire","""func (db *MemDb) CheckExpire(key string) bool {
	if deadline, ok := db.expires.Get(key); ok {
		return deadline.(int64) < time.Now().Unix()
	}
	return false
}
""")
body(M,"(db *MemDb) DeleteExpiredKey","""func (db *MemDb) DeleteExpiredKey(key string) bool {
	if !db.CheckExpire(key) {
		return false
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	expired := db.CheckExpire(key)
	if expired {
		db.purge(key)
	}
	return expired
}

func (db *MemDb) purge(key string) {
	db.expires.Delete(key)
	db.dict.Delete(key)
}
""")
C="memdb/concurrentMap.go"
body(C,"(m *ConcurrentMap) Set","""func (m *ConcurrentMap) Set(key string, value any) (added int) {
	seg := m.segmentOf(key)
	seg.rwMu.Lock()
	if _, ok := seg.ht[key]; !ok {
		added = 1
		atomic.AddInt64(&m.count, 1)
	}
	seg.ht[key] = value
	seg.rwMu.Unlock()
	return added
}

func (m *ConcurrentMap) segmentOf(key string) *segment {
	return m.table[m.getKeyPos(key)]
}
""")
body(C,"(m *ConcurrentMap) Delete","""func (m *ConcurrentMap) Delete(key string) int {
	seg := m.segmentOf(key)
	seg.rwMu.Lock()
	defer seg.rwMu.Unlock()

	if _, ok := seg.ht[key]; !ok {
		return 0
	}
	delete(seg.ht, key)
	atomic.AddInt64(&m.count, -1)
	return 1
}
""")
body(C,"(m *ConcurrentMap) Get","""func (m *ConcurrentMap) Get(key string) (value any, ok bool) {
	m.segmentOf(key).read(func(ht map[string]any) { value, ok = ht[key] })
	return
}

func (s *segment) read(f func(map[string]any)) {
	s.rwMu.RLock()
	defer s.rwMu.RUnlock()
	f(s.ht)
}
""")
body(C,"(m *ConcurrentMap) Keys","""func (m *ConcurrentMap) Keys() []string {
	keys := make([]string, 0)
	for _, seg := range m.table {
		keys = seg.appendKeys(keys)
	}
	return keys
}

func (s *segment) appendKeys(keys []string) []string {
	s.rwMu.RLock()
	defer s.rwMu.RUnlock()
	for key := range s.ht {
		keys = append(keys, key)
	}
	return keys
}
""")
K="memdb/locks.go"
body(K,"(m *LocksManager) MLock","""func (m *LocksManager) MLock(keys []string) {
	for _, pos := range m.getSortedLocks(keys) {
		m.locks[pos].Lock()
	}
}
""")
body(K,"(m *LocksManager) MUnLock","""func (m *LocksManager) MUnLock(keys []string) {
	order := m.getSortedLocks(keys)
	for i := len(order) - 1; i >= 0; i-- {
		m.locks[order[i]].Unlock()
	}
}
""")
body(K,"(m *LocksManager) Lock","""func (m *LocksManager) Lock(key string) {
	m.lockOf(key).Lock()
}

func (m *LocksManager) lockOf(key string) *sync.RWMutex {
	return m.locks[m.GetKeyPos(key)]
}
""")
body(K,"(m *LocksManager) GetKeyPos","""func (m *LocksManager) GetKeyPos(key string) int {
	return util.Hash("@"+key+"&") % len(m.locks)
}
""")
sub(K,'	"fmt"\n','')
X="server/server.go"
sub(X,"""	go func() {
		for {
			conn, err := listener.Accept()
			if err != nil {
				logger.Error(err)
				continue
			}
			clients <- conn
		}
	}()
""","""	go acceptLoop(listener, clients)
""")
app(X,"""func acceptLoop(listener net.Listener, clients chan<- net.Conn) {
	for {
		if conn, err := listener.Accept(); err == nil {
			clients <- conn
		} else {
			logger.Error(err)
		}
	}
}
""")
body("memdb/command.go","RegisterCommand","""func RegisterCommand(cmdName string, executor cmdExecutor) {
	CmdTable[cmdName] = &command{executor}
}
""")
sub("logger/logger.go","""	for i := range logLevelTable {
		if logLevelTable[i] == config.LogLevel {
			logConf.LogLevel = LogLevel(i)
			break
		}
	}
""","""	for i, name := range logLevelTable {
		if name == config.LogLevel {
			logConf.LogLevel = LogLevel(i)
		}
	}
""")
body("logger/logger.go","Debug","""func Debug(v ...any) {
	if logConf.LogLevel <= DEBUG {
		logMu.Lock()
		defer logMu.Unlock()
		setPrefix(DEBUG)
		logger.Println(v)
	}
}
""")
go("D")
