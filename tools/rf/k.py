# parser by recursive descent, lock sets as bit maps, helpers with closures and type parameters, server loops
from lib import *
import sys,re
P="resp/parser.go"; LK="memdb/locks.go"; HA="memdb/hash.go"; SE="memdb/set.go"; L="memdb/list.go"; SV="server/server.go"; HD="server/handler.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"("); j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
def K1():
    body(P,"parse",'''
func parse(reader io.Reader, ch chan *RedisResp) {
	defer close(ch)
	in := bufio.NewReader(reader)
	for {
		data, err := readRequest(in)
		if err != nil {
			if err != io.EOF {
				logger.Error("Stream Error: ", err)
			}
			ch <- &RedisResp{Err: err}
			return
		}
		ch <- &RedisResp{Data: data}
	}
}

// readRequest reads an array or a single item.
func readRequest(in *bufio.Reader) (RedisData, error) {
	line, err := readline(in, &readBuffer{})
	if err != nil {
		return nil, err
	}
	if line[0] != '*' {
		return readItem(in, line)
	}
	buf := &readBuffer{}
	if err := parseArrayHeader(line, buf); err != nil {
		return nil, err
	}
	if buf.arrayLen == -1 {
		return NewArray(nil), nil
	}
	arr := NewArray([]RedisData{})
	for len(arr.data) < buf.arrayLen {
		line, err := readline(in, &readBuffer{})
		if err != nil {
			return nil, err
		}
		item, err := readItem(in, line)
		if err != nil {
			return nil, err
		}
		arr.data = append(arr.data, item)
	}
	return arr, nil
}

func readItem(in *bufio.Reader, line []byte) (RedisData, error) {
	if line[0] != '$' {
		return parseSingleLine(line)
	}
	buf := &readBuffer{}
	if err := parseBulkStringHeader(line, buf); err != nil {
		return nil, err
	}
	if buf.stringLen == -1 {
		return NewBulkString(nil), nil
	}
	msg, err := readline(in, buf)
	if err != nil {
		return nil, err
	}
	return parseBulkString(msg)
}''')
    go("K1")
def K2():
    s=rd(SV)
    i=s.index("	// start a goroutine to accept"); j=s.rindex("}")
    s=s[:i]+'''	go acceptLoop(listener, clients)

	for {
		select {
		case conn := <-clients:
			serve(mgr, conn)
		case sig := <-osSignals:
			logger.Info("Got signal ", sig.String())
			return nil
		}
	}
}

func acceptLoop(listener net.Listener, clients chan<- net.Conn) {
	for {
		if conn, err := listener.Accept(); err == nil {
			clients <- conn
		} else {
			logger.Error(err)
		}
	}
}

func serve(mgr *Manager, conn net.Conn) {
	logger.Info(conn.RemoteAddr().String(), " connected")
	go mgr.Handle(conn)
}
'''
    wr(SV,s)
    body(HD,"(m *Manager) Handle",'''
func (m *Manager) Handle(conn net.Conn) {
	defer closeConn(conn)
	session := m.newSession()
	peer := conn.RemoteAddr().String()
	for req := range resp.ParseStream(conn) {
		if req.Err == io.EOF {
			logger.Info("Close connection: ", peer)
			return
		}
		if req.Err != nil {
			logger.Panic("Connection: ", peer, ", Panic: ", req.Err)
			return
		}
		session.answer(conn, peer, req.Data)
	}
}

func (m *Manager) newSession() *Manager {
	s := *m
	s.db = m.dbs[0]
	return &s
}

func closeConn(conn net.Conn) {
	if err := conn.Close(); err != nil {
		logger.Error(err)
	}
}

func (m *Manager) answer(conn net.Conn, peer string, data resp.RedisData) {
	switch x := data.(type) {
	case nil:
		logger.Error("Get empty data from: ", peer)
	case *resp.RedisArray:
		res := m.ExecCommand(x.ToCommand())
		if res == nil {
			res = resp.NewSimpleError("unknown error")
		}
		if _, err := conn.Write(res.ToRedisFormat()); err != nil {
			logger.Error("write response to ", peer, " error: ", err.Error())
		}
	default:
		logger.Error("Data from connection: ", peer, "is not a valid array")
	}
}''')
    go("K2")
def K3():
    s=rd(LK); i=s.index("// force to lock"); 
    s=s[:i]+'''// the locks the keys need, in the order of the table
func (m *LocksManager) needed(keys []string) []bool {
	need := make([]bool, len(m.locks))
	for _, key := range keys {
		need[m.GetKeyPos(key)] = true
	}
	return need
}

func (m *LocksManager) MLock(keys []string) {
	for pos, n := range m.needed(keys) {
		if n {
			m.locks[pos].Lock()
		}
	}
}

func (m *LocksManager) MUnLock(keys []string) {
	for pos, n := range m.needed(keys) {
		if n {
			m.locks[pos].Unlock()
		}
	}
}

func (m *LocksManager) MRLock(keys []string) {
	for pos, n := range m.needed(keys) {
		if n {
			m.locks[pos].RLock()
		}
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	for pos, n := range m.needed(keys) {
		if n {
			m.locks[pos].RUnlock()
		}
	}
}
'''
    s=s.replace('	"sort"\n','')
    wr(LK,s); go("K3")
def K4():
    s=rd(LK); i=s.index("// force to lock"); 
    s=s[:i]+'''func (m *LocksManager) positions(keys []string) []int {
	order := make([]int, 0, len(keys))
	for _, key := range keys {
		order = append(order, m.GetKeyPos(key))
	}
	sort.Ints(order)
	n := 0
	for i, pos := range order {
		if i == 0 || pos != order[i-1] {
			order[n] = pos
			n++
		}
	}
	return order[:n]
}

func (m *LocksManager) each(keys []string, f func(*sync.RWMutex)) {
	for _, pos := range m.positions(keys) {
		f(m.locks[pos])
	}
}

func (m *LocksManager) MLock(keys []string)    { m.each(keys, (*sync.RWMutex).Lock) }
func (m *LocksManager) MUnLock(keys []string)  { m.each(keys, (*sync.RWMutex).Unlock) }
func (m *LocksManager) MRLock(keys []string)   { m.each(keys, (*sync.RWMutex).RLock) }
func (m *LocksManager) MRUnLock(keys []string) { m.each(keys, (*sync.RWMutex).RUnlock) }
'''
    wr(LK,s); go("K4")
def K5():
    s=rd(HA)
    s=s.replace("func hDelHash(",'''const wrongKind = "Operation against a key holding the wrong kind of value"

// readHash runs f on the hash under the key.
func readHash(db *MemDb, key string, missing resp.RedisData, f func(h *Hash) resp.RedisData) resp.RedisData {
	if db.DeleteExpiredKey(key) {
		return missing
	}
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
	switch v, ok := db.dict.Get(key); h := v.(type) {
	case *Hash:
		return f(h)
	default:
		if !ok {
			return missing
		}
		return resp.NewSimpleError(wrongKind)
	}
}

func hDelHash(''',1)
    wr(HA,s)
    body(HA,"hExistsHash",'''
func hExistsHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return readHash(db, string(cmd[1]), resp.NewInteger(0), func(h *Hash) resp.RedisData {
		var n int64
		if h.Exist(string(cmd[2])) {
			n = 1
		}
		return resp.NewInteger(n)
	})
}''')
    body(HA,"hGetHash",'''
func hGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return readHash(db, string(cmd[1]), resp.NewBulkString(nil), func(h *Hash) resp.RedisData {
		return resp.NewBulkString(h.Get(string(cmd[2])))
	})
}''')
    body(HA,"hGetAllHash",'''
func hGetAllHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return readHash(db, string(cmd[1]), resp.NewArray([]resp.RedisData{}), func(h *Hash) resp.RedisData {
		pairs := make([]resp.RedisData, 0, 2*h.Len())
		for field, val := range h.table {
			pairs = append(pairs, resp.NewBulkString([]byte(field)), resp.NewBulkString(val))
		}
		return resp.NewArray(pairs)
	})
}''')
    body(HA,"hLenHash",'''
func hLenHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return readHash(db, string(cmd[1]), resp.NewInteger(0), func(h *Hash) resp.RedisData {
		return resp.NewInteger(int64(len(h.table)))
	})
}''')
    body(HA,"hKeysHash",'''
func hKeysHash(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return readHash(db, string(cmd[1]), resp.NewArray([]resp.RedisData{}), func(h *Hash) resp.RedisData {
		names := make([]resp.RedisData, h.Len())
		for i, name := range h.Keys() {
			names[i] = resp.NewBulkString([]byte(name))
		}
		return resp.NewArray(names)
	})
}''')
    go("K5")
def K6():
    # type parameters
    wr("memdb/typed.go",'''package memdb

import "gRedis/resp"

// typed finds the value of the key; the reply is not nil where it has another type.
func typed[T any](db *MemDb, key string) (val T, found bool, bad resp.RedisData) {
	v, ok := db.dict.Get(key)
	if !ok {
		return val, false, nil
	}
	val, ok = v.(T)
	if !ok {
		return val, false, resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
	return val, true, nil
}

func mapSlice[A, B any](l []A, f func(A) B) []B {
	r := make([]B, 0, len(l))
	for _, x := range l {
		r = append(r, f(x))
	}
	return r
}
''')
    n=0
    for f,t in ((HA,"*Hash"),(SE,"*Set"),(L,"*List"),("memdb/strings.go","[]byte")):
        s=rd(f)
        s,k=re.subn(r'	v, ok := db\.dict\.Get\(key\)\n	if !ok \{\n((?:		//.*\n)?)		return (.*)\n	\}\n\n?(	// wrong type\n)?	(\w+), ok := v\.\('+re.escape(t)+r'\)\n	if !ok \{\n		return resp\.NewSimpleError\("Operation against a key holding the wrong kind of value"\)\n	\}\n',
          lambda m:'	%s, found, bad := typed[%s](db, key)\n	if bad != nil {\n		return bad\n	}\n	if !found {\n		return %s\n	}\n'%(m[4],t,m[2]),s)
        n+=k
        s=s.replace('''	keys := h.Keys()
	res := make([]resp.RedisData, 0, h.Len())
	for _, key := range keys {
		res = append(res, resp.NewBulkString([]byte(key)))
	}
''','''	res := mapSlice(h.Keys(), func(k string) resp.RedisData { return resp.NewBulkString([]byte(k)) })
''')
        wr(f,s)
    print("typed",n)
    go("K6")
def K7():
    s=rd(LK); i=s.index("// force to lock"); 
    s=s[:i]+'''func (m *LocksManager) positions(keys []string) []int {
	order := make([]int, 0, len(keys))
	for _, key := range keys {
		order = append(order, m.GetKeyPos(key))
	}
	sort.Ints(order)
	n := 0
	for i, pos := range order {
		if i == 0 || pos != order[i-1] {
			order[n] = pos
			n++
		}
	}
	return order[:n]
}

func (m *LocksManager) MLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].Lock()
	}
}

func (m *LocksManager) MUnLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].Unlock()
	}
}

func (m *LocksManager) MRLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].RLock()
	}
}

func (m *LocksManager) MRUnLock(keys []string) {
	for _, pos := range m.positions(keys) {
		m.locks[pos].RUnlock()
	}
}
'''
    wr(LK,s); go("K7")
for n in sys.argv[1:] or ["K1","K2","K3","K4","K5","K6","K7"]:
    reset(); globals()[n]()
