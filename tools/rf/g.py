from lib import *
import sys
ST="memdb/strings.go"; K="memdb/keys.go"; C="config/config.go"; L="logger/logger.go"; M="memdb/memdb.go"; HD="server/handler.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"(")
    j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
def G1():
    # strings: options struct, helpers
    body(ST,"setString","""
type setOptions struct {
	nx, xx, get, keepTTL bool
	hasDeadline          bool
	deadline             func(now int64) int64
	ttlOptions           int
}

func parseSetOptions(args [][]byte) (*setOptions, resp.RedisData) {
	opts := &setOptions{}
	for i := 0; i < len(args); i++ {
		name := strings.ToLower(string(args[i]))
		switch name {
		case "nx":
			opts.nx = true
		case "xx":
			opts.xx = true
		case "get":
			opts.get = true
		case "keepttl":
			opts.keepTTL = true
			opts.ttlOptions++
		case "ex", "px", "exat", "pxat":
			opts.ttlOptions++
			i++
			if i >= len(args) {
				return nil, resp.NewSimpleError("syntax error")
			}
			n, err := strconv.ParseInt(string(args[i]), 10, 64)
			if err != nil {
				return nil, resp.NewSimpleError("value is not an integer")
			}
			opts.hasDeadline = true
			switch name {
			case "ex":
				opts.deadline = func(now int64) int64 { return now + n }
			case "px":
				opts.deadline = func(now int64) int64 { return now + n/1000 }
			case "exat":
				opts.deadline = func(int64) int64 { return n }
			case "pxat":
				opts.deadline = func(int64) int64 { return n / 1000 }
			}
		default:
			return nil, resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(args[i])))
		}
	}
	if opts.nx && opts.xx || opts.ttlOptions > 1 {
		return nil, resp.NewSimpleError("syntax error")
	}
	return opts, nil
}

func setString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key := string(cmd[1])
	db.DeleteExpiredKey(key)
	opts, bad := parseSetOptions(cmd[3:])
	if bad != nil {
		return bad
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	old, exists := db.dict.Get(key)
	var oldBytes []byte
	if exists {
		var isString bool
		if oldBytes, isString = old.([]byte); !isString {
			return resp.NewSimpleError("The value stored at key is not a string")
		}
	}

	if opts.nx && exists || opts.xx && !exists {
		if opts.get && exists {
			return resp.NewBulkString(oldBytes)
		}
		return resp.NewBulkString(nil)
	}

	db.dict.Set(key, cmd[2])
	if !opts.keepTTL {
		db.DeleteExpire(key)
	}
	if opts.hasDeadline {
		db.SetExpire(key, opts.deadline(time.Now().Unix()))
	}
	if opts.get {
		return resp.NewBulkString(oldBytes)
	}
	return resp.NewSimpleString("OK")
}
""")
    body(ST,"getRangeString","""
func clampRange(start, end, n int) (int, int, bool) {
	if start < 0 {
		start += n
	}
	if end < 0 {
		end += n
	}
	if start < 0 {
		start = 0
	}
	if end >= n {
		end = n - 1
	}
	if start > end {
		return 0, 0, false
	}
	return start, end + 1, true
}

func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 4 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewBulkString([]byte{})
	}
	var bounds [2]int
	for i := range bounds {
		n, err := strconv.Atoi(string(cmd[2+i]))
		if err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
		bounds[i] = n
	}

	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
	val, ok := db.dict.Get(key)
	if !ok {
		return resp.NewBulkString([]byte{})
	}
	v, ok := val.([]byte)
	if !ok {
		return resp.NewSimpleError("the value stored at key is not a string")
	}
	if from, to, ok := clampRange(bounds[0], bounds[1], len(v)); ok {
		return resp.NewBulkString(v[from:to])
	}
	return resp.NewBulkString([]byte{})
}
""")
    body(ST,"setRangeString","""
func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 4 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key, value := string(cmd[1]), cmd[3]
	db.DeleteExpiredKey(key)

	offset, err := strconv.Atoi(string(cmd[2]))
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
	if offset < 0 || offset > maxStringLen-len(value) {
		return resp.NewSimpleError("offset is out of range")
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	var oldVal []byte
	if val, ok := db.dict.Get(key); ok {
		if oldVal, ok = val.([]byte); !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}
	}

	newVal := append([]byte{}, oldVal...)
	for len(newVal) < offset+len(value) {
		newVal = append(newVal, 0)
	}
	copy(newVal[offset:offset+len(value)], value)
	db.dict.Set(key, newVal)
	return resp.NewInteger(int64(len(newVal)))
}
""")
    body(ST,"mGetString","""
func (db *MemDb) stringOrNil(key string) []byte {
	if db.DeleteExpiredKey(key) {
		return nil
	}
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
	val, _ := db.dict.Get(key)
	str, _ := val.([]byte)
	return str
}

func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	res := make([]resp.RedisData, len(cmd)-1)
	for i := 1; i < len(cmd); i++ {
		res[i-1] = resp.NewBulkString(db.stringOrNil(string(cmd[i])))
	}
	return resp.NewArray(res)
}
""")
    body(ST,"incrString","""
func (db *MemDb) addInt(key string, delta int64) resp.RedisData {
	db.DeleteExpiredKey(key)
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	var cur int64
	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}
		var err error
		if cur, err = strconv.ParseInt(string(v), 10, 64); err != nil {
			return resp.NewSimpleError("value is not an integer")
		}
	}
	cur += delta
	db.dict.Set(key, strconv.AppendInt(nil, cur, 10))
	return resp.NewInteger(cur)
}

func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return db.addInt(string(cmd[1]), 1)
}
""")
    body(ST,"decrString","""
func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	return db.addInt(string(cmd[1]), -1)
}
""")
    body(ST,"incrByString","""
func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	n, err := strconv.ParseInt(string(cmd[2]), 10, 64)
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
	return db.addInt(string(cmd[1]), n)
}
""")
    body(ST,"decrByString","""
func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	n, err := strconv.ParseInt(string(cmd[2]), 10, 64)
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
	return db.addInt(string(cmd[1]), -n)
}
""")
    body(ST,"incrByFloatString","""
func incrByFloatString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key := string(cmd[1])
	db.DeleteExpiredKey(key)
	increment, err := strconv.ParseFloat(string(cmd[2]), 64)
	if err != nil {
		return resp.NewSimpleError("value is not an float")
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	total := increment
	if val, ok := db.dict.Get(key); ok {
		v, ok := val.([]byte)
		if !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}
		cur, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return resp.NewSimpleError("value is not an float")
		}
		total += cur
	}
	text := formatFloat(total)
	db.dict.Set(key, text)
	return resp.NewBulkString(text)
}

func formatFloat(f float64) []byte {
	return strconv.AppendFloat(nil, f, 'f', -1, 64)
}
""")
    body(ST,"appendString","""
func appendString(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key := string(cmd[1])
	db.DeleteExpiredKey(key)
	db.locks.Lock(key)
	defer db.locks.UnLock(key)

	var old []byte
	val, ok := db.dict.Get(key)
	if ok {
		if old, ok = val.([]byte); !ok {
			return resp.NewSimpleError("the value stored at key is not a string")
		}
	}
	joined := make([]byte, 0, len(old)+len(cmd[2]))
	joined = append(joined, old...)
	joined = append(joined, cmd[2]...)
	db.dict.Set(key, joined)
	return resp.NewInteger(int64(len(joined)))
}
""")
    body(ST,"mSetString","""
func mSetString(db *MemDb, cmd [][]byte) resp.RedisData {
	n := len(cmd) - 1
	if n < 2 || n%2 != 0 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	pairs := cmd[1:]
	keys := make([]string, n/2)
	for i := range keys {
		keys[i] = string(pairs[2*i])
	}
	db.locks.MLock(keys)
	defer db.locks.MUnLock(keys)
	for i, key := range keys {
		db.dict.Set(key, pairs[2*i+1])
		db.expires.Delete(key)
	}
	return resp.NewSimpleString("OK")
}
""")
    go("G1")
def G2():
    body(K,"delKey","""
func (db *MemDb) remove(key string) bool {
	if db.DeleteExpiredKey(key) {
		return false
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	db.expires.Delete(key)
	return db.dict.Delete(key) == 1
}

func delKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	var deleted int64
	for _, k := range cmd[1:] {
		if db.remove(string(k)) {
			deleted++
		}
	}
	return resp.NewInteger(deleted)
}
""")
    body(K,"existsKey","""
func (db *MemDb) exists(key string) bool {
	if db.DeleteExpiredKey(key) {
		return false
	}
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)
	_, ok := db.dict.Get(key)
	return ok
}

func existsKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) < 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	var n int64
	for i := 1; i < len(cmd); i++ {
		if db.exists(string(cmd[i])) {
			n++
		}
	}
	return resp.NewInteger(n)
}
""")
    body(K,"expireKey","""
func wantsDeadline(option string, had bool, old, new int64) bool {
	switch option {
	case "nx":
		return !had
	case "xx":
		return had
	case "gt":
		return had && new > old
	case "lt":
		return had && new < old
	}
	return true
}

func expireKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if n := len(cmd); n != 3 && n != 4 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	seconds, err := strconv.ParseInt(string(cmd[2]), 10, 64)
	if err != nil {
		return resp.NewSimpleError("value is not an integer")
	}
	deadline := time.Now().Unix() + seconds

	option := ""
	if len(cmd) == 4 {
		option = strings.ToLower(string(cmd[3]))
	}

	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(0)
	}
	switch option {
	case "", "nx", "xx", "gt", "lt":
	default:
		return resp.NewSimpleError(fmt.Sprintf("Unsupported option %s", string(cmd[3])))
	}

	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	var old int64
	cur, had := db.expires.Get(key)
	if had {
		old = cur.(int64)
	}
	if !wantsDeadline(option, had, old, deadline) {
		return resp.NewInteger(0)
	}
	return resp.NewInteger(int64(db.SetExpire(key, deadline)))
}
""")
    body(K,"ttlKey","""
func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	const missing, persistent = -2, -1
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewInteger(missing)
	}
	db.locks.RLock(key)
	defer db.locks.RUnLock(key)

	left := int64(missing)
	if _, ok := db.dict.Get(key); ok {
		left = persistent
		if deadline, ok := db.expires.Get(key); ok {
			left = deadline.(int64) - time.Now().Unix()
		}
	}
	return resp.NewInteger(left)
}
""")
    body(K,"renameKey","""
func (db *MemDb) take(key string) (any, *int64, bool) {
	value, ok := db.dict.Get(key)
	if !ok {
		return nil, nil, false
	}
	var deadline *int64
	if d, ok := db.expires.Get(key); ok {
		t := d.(int64)
		deadline = &t
	}
	db.dict.Delete(key)
	db.DeleteExpire(key)
	return value, deadline, true
}

func renameKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 3 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	from, to := string(cmd[1]), string(cmd[2])
	if db.DeleteExpiredKey(from) {
		return resp.NewSimpleError("no such key")
	}
	both := []string{from, to}
	db.locks.MLock(both)
	defer db.locks.MUnLock(both)

	value, deadline, ok := db.take(from)
	if !ok {
		return resp.NewSimpleError("no such key")
	}
	db.dict.Set(to, value)
	if deadline == nil {
		db.expires.Delete(to)
	} else {
		db.expires.Set(to, *deadline)
	}
	return resp.NewSimpleString("OK")
}
""")
    body(K,"typeKey","""
func typeName(v any) string {
	switch v.(type) {
	case []byte:
		return "string"
	case *Hash:
		return "hash"
	case *List:
		return "list"
	case *Set:
		return "set"
	default:
		return "none"
	}
}

func typeKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	key := string(cmd[1])
	if db.DeleteExpiredKey(key) {
		return resp.NewSimpleString("none")
	}
	db.locks.RLock(key)
	v, _ := db.dict.Get(key)
	db.locks.RUnLock(key)
	return resp.NewSimpleString(typeName(v))
}
""")
    body(K,"keysKey","""
func keysKey(db *MemDb, cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	var res = []resp.RedisData{}
	for _, key := range db.dict.Keys() {
		if db.DeleteExpiredKey(key) || !util.PattenMatch(string(cmd[1]), key) {
			continue
		}
		res = append(res, resp.NewBulkString([]byte(key)))
	}
	return resp.NewArray(res)
}
""")
    body(M,"(db *MemDb) DeleteExpiredKey","""
func (db *MemDb) DeleteExpiredKey(key string) bool {
	if !db.CheckExpire(key) {
		return false
	}
	db.locks.Lock(key)
	defer db.locks.UnLock(key)
	expired := db.CheckExpire(key)
	if expired {
		db.expires.Delete(key)
		db.dict.Delete(key)
	}
	return expired
}
""")
    body(M,"(db *MemDb) CheckExpire","""
func (db *MemDb) CheckExpire(key string) bool {
	deadline, ok := db.expires.Get(key)
	return ok && deadline.(int64) < time.Now().Unix()
}
""")
    go("G2")
def G3():
    body(C,"(conf *Config) ParseConfFile","""
func (conf *Config) ParseConfFile() error {
	file, err := os.Open(conf.ConfigFile)
	if err != nil {
		return err
	}
	defer file.Close()

	reader := bufio.NewReader(file)
	for last := false; !last; {
		line, err := reader.ReadString('\\n')
		if err == io.EOF {
			last = true
		} else if err != nil {
			return err
		}
		if err := conf.applyLine(strings.Fields(line)); err != nil {
			return err
		}
	}
	return nil
}

func (conf *Config) applyLine(words []string) error {
	switch len(words) {
	case 0:
		return nil
	case 1:
		return errors.New("missing value of " + words[0])
	}
	value := words[1]
	switch strings.ToLower(words[0]) {
	case "host":
		if net.ParseIP(value) == nil {
			return errors.New("given host invaild")
		}
		conf.Host = value
	case "logdir":
		conf.LogDir = value
	case "loglevel":
		conf.LogLevel = strings.ToLower(value)
	case "port":
		return setInt(&conf.Port, value)
	case "segnum":
		return setInt(&conf.SegNum, value)
	case "dbnum":
		return setInt(&conf.DbNum, value)
	}
	return nil
}

func setInt(field *int, value string) error {
	n, err := strconv.Atoi(value)
	if err != nil {
		return err
	}
	*field = n
	return nil
}
""")
    body(C,"Init","""
func Init() (*Config, error) {
	conf := defaults()
	initFlag(conf)
	flag.Parse()

	if net.ParseIP(conf.Host) == nil {
		return nil, &CfgError{message: fmt.Sprintf("Ip address %s is invaild", conf.Host)}
	}
	if conf.ConfigFile != "" {
		if err := conf.ParseConfFile(); err != nil {
			return nil, err
		}
	}
	if err := conf.check(); err != nil {
		return nil, err
	}
	Conf = conf
	return conf, nil
}

func (conf *Config) check() error {
	if conf.SegNum < 1 || conf.DbNum < 1 {
		return &CfgError{message: "segnum and dbnum must be positive"}
	}
	return nil
}

func defaults() *Config {
	return &Config{
		Host:     defaultHost,
		Port:     defaultPort,
		LogDir:   defaultLogDir,
		LogLevel: defaultLogLevel,
		SegNum:   defaultSegNum,
		DbNum:    defaultDbNum,
	}
}
""")
    for lv in ["Debug","Info","Warning","Panic","Error"]:
        body(L,lv,"""
func %s(v ...any) {
	write(%s, v)
}
"""%(lv,lv.upper()))
    body(L,"setPrefix","""
func write(level LogLevel, v []any) {
	if level < logConf.LogLevel {
		return
	}
	logMu.Lock()
	defer logMu.Unlock()
	prefix = fmt.Sprintf("[%s]", logLevelTable[level])
	if _, file, line, ok := runtime.Caller(2); ok {
		prefix += fmt.Sprintf("[%s:%d]", file, line)
	}
	logger.SetPrefix(prefix)
	logger.Println(v)
}
""")
    body(L,"Init","""
func Init(config *config.Config) error {
	logConf = &LogConfig{Path: config.LogDir, Name: "redis.log", LogLevel: levelOf(config.LogLevel)}
	logMu = new(sync.Mutex)

	if err := ensureDir(logConf.Path); err != nil {
		return err
	}
	file, err := os.OpenFile(path.Join(logConf.Path, logConf.Name), os.O_RDWR|os.O_CREATE, 0755)
	if err != nil {
		return err
	}
	logFile = file
	logger = log.New(io.MultiWriter(logFile, os.Stdout), "", log.LstdFlags)
	return nil
}

func ensureDir(dir string) error {
	if _, err := os.Stat(dir); err == nil {
		return nil
	}
	return os.Mkdir(dir, 0755)
}

func levelOf(name string) LogLevel {
	for i, known := range logLevelTable {
		if known == name {
			return LogLevel(i)
		}
	}
	return INFO
}
""")
    body(HD,"(m *Manager) Select","""
func (m *Manager) Select(cmd [][]byte) resp.RedisData {
	if len(cmd) != 2 {
		return resp.NewSimpleError("wrong number of arguments for command")
	}
	idx, err := strconv.Atoi(string(cmd[1]))
	switch {
	case err != nil:
		return resp.NewSimpleError("value is not an integer")
	case idx < 0, idx >= len(m.dbs):
		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
	}
	m.db = m.dbs[idx]
	return resp.NewSimpleString("OK")
}
""")
    body(HD,"(m *Manager) Handle","""
func (m *Manager) Handle(conn net.Conn) {
	defer func() {
		if err := conn.Close(); err != nil {
			logger.Error(err)
		}
	}()
	peer := conn.RemoteAddr().String()
	session := &Manager{db: m.dbs[0], dbs: m.dbs}

	for request := range resp.ParseStream(conn) {
		switch {
		case request.Err == io.EOF:
			logger.Info("Close connection: ", peer)
			return
		case request.Err != nil:
			logger.Panic("Connection: ", peer, ", Panic: ", request.Err)
			return
		case request.Data == nil:
			logger.Error("Get empty data from: ", peer)
			continue
		}
		session.serve(conn, peer, request.Data)
	}
}

func (m *Manager) serve(conn io.Writer, peer string, data resp.RedisData) {
	array, ok := data.(*resp.RedisArray)
	if !ok {
		logger.Error("Data from connection: ", peer, "is not a valid array")
		return
	}
	reply := m.ExecCommand(array.ToCommand())
	if reply == nil {
		reply = resp.NewSimpleError("unknown error")
	}
	if _, err := conn.Write(reply.ToRedisFormat()); err != nil {
		logger.Error("write response to ", peer, " error: ", err.Error())
	}
}
""")
    go("G3")
for n in sys.argv[1:] or ["G1","G2","G3"]:
    reset(); globals()[n]()
