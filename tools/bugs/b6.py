from lib import *
P="resp/parser.go"; H="server/handler.go"; S="server/server.go"; C="config/config.go"; G="logger/logger.go"; K="memdb/keys.go"; ST="memdb/strings.go"; HA="memdb/hash.go"; HS="memdb/hash_struct.go"; SE="memdb/set.go"; SS="memdb/set_struct.go"; L="memdb/list.go"; LS="memdb/list_struct.go"; M="memdb/memdb.go"; CM="memdb/concurrentMap.go"; D="resp/data.go"
# C23
bug("c23a-null-elem-len","C23",(P,"parse","\t\t\t\t\t\t\tif len(buf.arrayData.data) == buf.arrayLen {\n\t\t\t\t\t\t\t\tch <-","\t\t\t\t\t\t\tif len(buf.arrayData.data) == buf.arrayLen-1 {\n\t\t\t\t\t\t\t\tch <-"))
bug("c23b-partial-eof","C23",(P,"readline","_, err = io.ReadFull(reader, msg)\n\t\tif err != nil {","_, err = io.ReadFull(reader, msg)\n\t\tif err != nil && err != io.ErrUnexpectedEOF {"))
bug("c23c-short-read","C23",(P,"readline","_, err = io.ReadFull(reader, msg)","_, err = reader.Read(msg)"))
bug("c23d-reset-buf","C23",(P,"parse","\t\t\t\tbuf.inArray = false\n\t\t\t\tbuf.arrayLen = 0\n\t\t\t\tbuf.arrayData = nil\n\t\t\t}\n\t\t} else { // send single","\t\t\t\tbuf.arrayLen = 0\n\t\t\t\tbuf.arrayData = nil\n\t\t\t\tbuf.inArray = reader == nil\n\t\t\t\tif cap(buf.arrayDataBuf()) > 0 {\n\t\t\t\t\tbuf.inArray = true\n\t\t\t\t}\n\t\t\t}\n\t\t} else { // send single"),(P,"+end","func (b *readBuffer) arrayDataBuf() []RedisData { if b.arrayData == nil { return nil }; return b.arrayData.data }\n",""))
bug("c23e-continue-after-error","C23",(P,"parse","\t\tif err != nil {\n\t\t\tlogger.Error(\"Stream Error: \", err)\n\t\t\tch <- &RedisResp{Err: err}\n\t\t\tclose(ch)\n\t\t\treturn\n\t\t}\n\n\t\t// send redis data","\t\tif err != nil {\n\t\t\tlogger.Error(\"Stream Error: \", err)\n\t\t\tcontinue\n\t\t}\n\n\t\t// send redis data"))
bug("c23f-crlf-check-or","C23",(P,"readline","if msg[len(msg)-1] != '\\n' || msg[len(msg)-2] != '\\r' {","if msg[len(msg)-1] != '\\n' && msg[len(msg)-2] != '\\r' {"))
bug("c23g-atoi-lenient","C23",(P,"parseBulkStringHeader","stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)","stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 0, 64)"))
bug("c23h-accept-return","C23",(S,"Start","\t\t\t\tlogger.Error(err)\n\t\t\t\tcontinue","\t\t\t\tlogger.Error(err)\n\t\t\t\treturn"))
bug("c23i-handle-noclose","C23",(H,"(m *Manager) Handle","\tdefer func() {\n\t\terr := conn.Close()","\tdefer func() {\n\t\tif session.db != m.db {\n\t\t\treturn\n\t\t}\n\t\terr := conn.Close()"))
bug("c23j-write-err-return","C23",(H,"(m *Manager) Handle","\t\t\t_, err := conn.Write(redisData.ToRedisFormat())\n\t\t\tif err != nil {\n","\t\t\t_, err := conn.Write(redisData.ToRedisFormat())\n\t\t\tif err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif err != nil {\n"))
bug("c23k-max-bulk","C23",(P,None,"512 * 1024 * 1024","64 * 1024"))
bug("c23l-bufreader-per-msg","C23",(P,"parse","\t\tvar data RedisData\n","\t\tvar data RedisData\n\t\tif !buf.inArray && !buf.multiLine {\n\t\t\tstreamReader = bufio.NewReader(reader)\n\t\t}\n"))
bug("c23m-nested-array-accept","C23",(P,"parse","\t\t\tif msg[0] == '*' {","\t\t\tif msg[0] == '*' && !(buf.inArray && len(buf.arrayData.data) == 0) {"))
bug("c23n-queue-chan","C23",(P,"ParseStream","make(chan *RedisResp)","make(chan *RedisResp, 16)"))
bug("c23o-drop-when-slow","C23",(P,"parse","\t\t} else { // send single data\n\t\t\tch <- &RedisResp{Data: data}","\t\t} else { // send single data\n\t\t\tselect {\n\t\t\tcase ch <- &RedisResp{Data: data}:\n\t\t\tdefault:\n\t\t\t}"))
bug("c23p-parse-data-trim","C23",(P,"parseBulkString","msgData := msg[:len(msg)-2]","msgData := bytes.TrimRight(msg, \"\\r\\n\")"),(P,"+imp","bytes",""))
bug("c23q-handle-async","C23",(H,"(m *Manager) Handle","redisData := session.ExecCommand(cmd)","var redisData resp.RedisData\n\t\tdone := make(chan struct{}, 1)\n\t\tgo func() { redisData = session.ExecCommand(cmd); done <- struct{}{} }()\n\t\tif len(cmd) < 64 {\n\t\t\t<-done\n\t\t}"))
# C24
bug("c24a-del-dup","C24",(K,"delKey","deleted += db.dict.Delete(key)","if _, ok := db.dict.Get(key); ok || deleted > 0 {\n\t\t\t\tdeleted++\n\t\t\t}\n\t\t\tdb.dict.Delete(key)"))
bug("c24b-exists-dup","C24",(K,"existsKey","existed++","if len(cmd) < 3 || string(cmd[1]) != key || existed == 0 {\n\t\t\t\t\texisted++\n\t\t\t\t}"))
bug("c24c-hset-count","C24",(HS,"(h *Hash) Set","if","if len(v) == 0 {\n\t\th.table[key] = v\n\t\treturn 1\n\t}\n\tif"))
bug("c24d-srem-count","C24",(SE,"sRemSet","res += s.Remove(key)","if s.Remove(key) == 1 || s.Len() == 0 {\n\t\t\tres++\n\t\t}"))
bug("c24e-expire-nx","C24",(K,"expireKey","return resp.NewInteger(0)","return resp.NewInteger(1)"))
bug("c24f-append-len","C24",(ST,"appendString","return resp.NewInteger(int64(len(v)))","return resp.NewInteger(int64(cap(v)))"))
bug("c24g-hsetnx","C24",(HA,"hSetNxHash","if h.Exist(field)","if h.Len() > 0 && h.Exist(field)"))
bug("c24h-setnx-present","C24",(ST,"setNxString","return resp.NewInteger(0)","return resp.NewInteger(int64(len(cmd) - 2))"))
bug("c24i-sunionstore-count","C24",(SE,"sUnionStoreSet","\tfor _, mem := range union.Members() {\n\t\tdestSet.Add(mem)\n\t}\n\n\treturn resp.NewInteger(int64(destSet.Len()))","\tn := 0\n\tfor _, set := range sets {\n\t\tn += set.Len()\n\t}\n\tfor _, mem := range union.Members() {\n\t\tdestSet.Add(mem)\n\t}\n\n\treturn resp.NewInteger(int64(s.Len() + n))"))
bug("c24j-strlen-runes","C24",(ST,"strLenString","len(v)","len([]rune(string(v)))"))
bug("c24k-hstrlen","C24",(HS,"(h *Hash) StrLen","len(","len(key)+0*len("))
bug("c24l-persist","C24",(K,"persistKey","return resp.NewInteger(","return resp.NewInteger(1+0*"))
bug("c24m-incr-reply","C24",(ST,"incrByString","return resp.NewInteger(","return resp.NewInteger(int64(len(cmd)-3)+"))
bug("c24n-scard-cap","C24",(SE,"sCardSet","int64(s.Len())","int64(len(s.Members()[:s.Len()/2*2])+s.Len()%2)"))
bug("c24o-ttl-ms","C06",(K,"ttlKey","return resp.NewInteger(-1)","return resp.NewInteger(-2)"))
bug("c24p-cmap-delete","C24",(CM,"(m *ConcurrentMap) Delete","return 1","return len(key) & 1"))
bug("c24q-lpushx","C24",(L,"lPushXList","return resp.NewInteger(0)","return resp.NewInteger(int64(len(cmd) - 2))"))
bug("c24r-smove","C24",(SS,"(s *Set) Move","\tset.Add(key)\n\treturn 1","\treturn set.Add(key)"))
bug("c24s-hlen-neg","C24",(HA,"hLenHash","int64(h.Len())","int64(int8(h.Len()))"))
bug("c24t-llen32","C24",(L,"lLenList","int64(l.Len)","int64(int16(l.Len))"))
# C25
bug("c25a-eof-lastline","C25",(C,"(conf *Config) ParseConfFile","\t\targvs := strings.Fields(line)\n","\t\tif ioErr == io.EOF {\n\t\t\tbreak\n\t\t}\n\t\targvs := strings.Fields(line)\n"))
bug("c25b-port-err","C25",(C,"(conf *Config) ParseConfFile","conf.Port, err = strconv.Atoi(argvs[1])\n\t\t\tif err != nil {","conf.Port, err = strconv.Atoi(argvs[1])\n\t\t\tif err != nil && conf.Port == 0 && len(argvs) > 2 {"))
bug("c25c-swap","C25",(C,"(conf *Config) ParseConfFile","conf.LogDir = argvs[1]","conf.LogDir = argvs[len(argvs)-1]"))
bug("c25d-case","C25",(C,"(conf *Config) ParseConfFile","strings.ToLower(argvs[0])","strings.TrimSpace(argvs[0])"))
bug("c25e-neg","C25",(C,"Init","_conf.SegNum <= 0 ||","_conf.SegNum < 0 ||"))
bug("c25f-neg-flags-only","C25",(C,"Init","\tif _conf.SegNum <= 0 || _conf.DbNum <= 0 {\n\t\treturn nil, &CfgError{message: \"segnum and dbnum must be positive\"}\n\t}\n\n",""),(C,"Init","\tif _conf.ConfigFile != \"\" {","\tif _conf.SegNum <= 0 || _conf.DbNum <= 0 {\n\t\treturn nil, &CfgError{message: \"segnum and dbnum must be positive\"}\n\t}\n\tif _conf.ConfigFile != \"\" {"))
bug("c25g-default","C25",(C,None,"int    = 16","int    = 6"))
bug("c25h-flag-dest","C25",(C,"initFlag",'&(conf.SegNum), "segnum", defaultSegNum','&(conf.SegNum), "segnum", defaultDbNum'))
bug("c25i-openerr","C25",(C,"(conf *Config) ParseConfFile","\tif err != nil {\n\t\treturn err\n\t}\n\n\tdefer","\tif os.IsNotExist(err) {\n\t\treturn nil\n\t}\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tdefer"))
bug("c25j-hostinvalid","C25",(C,"(conf *Config) ParseConfFile",'return errors.New("given host invaild")','break'))
bug("c25k-parse-first","C25",(C,"Init","\tinitFlag(_conf)\n\tflag.Parse()\n","\tflag.Parse()\n\tinitFlag(_conf)\n"))
bug("c25l-comment","C25",(C,"(conf *Config) ParseConfFile","\t\tif len(argvs) == 0 {","\t\tif len(argvs) == 0 || len(argvs[0]) > 6 && argvs[0] != \"loglevel\" {"))
bug("c25m-missing-skip","C25",(C,"(conf *Config) ParseConfFile",'return errors.New("missing value of " + argvs[0])','if ioErr == io.EOF {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tcontinue'))
bug("c25n-file-before-flags","C25",(C,"Init","\tif _conf.ConfigFile != \"\" {\n\t\terr := _conf.ParseConfFile()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n","\tif _conf.ConfigFile != \"\" {\n\t\terr := _conf.ParseConfFile()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tflag.Parse()\n\t}\n"))
bug("c25o-readerr","C25",(C,"(conf *Config) ParseConfFile","if ioErr != nil && ioErr != io.EOF {\n\t\t\treturn ioErr","if ioErr != nil && ioErr != io.EOF {\n\t\t\tbreak"))
bug("c25p-manager-dbs","C25",(H,"NewManager","make([]*memdb.MemDb, config.DbNum)","make([]*memdb.MemDb, 16)"))
bug("c25q-port-listen","C25",(S,"Start",'config.Host+":"+strconv.Itoa(config.Port)','":"+strconv.Itoa(config.Port)'))
bug("c25r-segnum-ignored","C25",(M,"NewMemDb","config.Conf.SegNum","100"))
bug("c25s-atoi-hex","C25",(C,"(conf *Config) ParseConfFile","conf.DbNum, err = strconv.Atoi(argvs[1])","var n int64\n\t\t\tn, err = strconv.ParseInt(argvs[1], 10, 8)\n\t\t\tconf.DbNum = int(n)"))
# C26
bug("c26a-level-le","C26",(G,"Warning","if WARNING < logConf.LogLevel","if WARNING <= logConf.LogLevel"))
bug("c26b-prefix","C26",(G,"Panic","setPrefix(PANIC)","setPrefix(ERROR)"))
bug("c26c-nolock","C26",(G,"Debug","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n\tsetPrefix(DEBUG)\n","\tlogMu.Lock()\n\tsetPrefix(DEBUG)\n\tlogMu.Unlock()\n"))
bug("c26d-table-order","C26",(G,None,'"warning", "panic", "error"','"warning", "error", "panic"'))
bug("c26e-twice","C26",(G,"Error","\tlogger.Println(v)\n","\tlogger.Println(v)\n\tif logConf.LogLevel == ERROR {\n\t\tlogger.Println(v)\n\t}\n"))
bug("c26f-panic-real","C26",(G,"Panic","logger.Println(v)","logger.Panicln(v)"))
bug("c26g-default","C26",(G,"Init","LogLevel: INFO","LogLevel: WARNING"))
bug("c26h-no-unlock","C26",(G,"Info","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n\tsetPrefix(INFO)\n\tlogger.Println(v)","\tlogMu.Lock()\n\tsetPrefix(INFO)\n\tif len(v) == 0 {\n\t\treturn\n\t}\n\tlogger.Println(v)\n\tlogMu.Unlock()"))
bug("c26i-trylock","C26",(G,"Info","\tlogMu.Lock()\n","\tif !logMu.TryLock() {\n\t\treturn\n\t}\n"))
bug("c26j-level-off","C26",(G,"Init","LogLevel(i)","LogLevel(i + 1)"))
bug("c26k-break","C26",(G,"Init","\t\t\tlogConf.LogLevel = LogLevel(i)\n\t\t\tbreak\n\t\t}","\t\t\tlogConf.LogLevel = LogLevel(i)\n\t\t}\n\t\tif i == 3 {\n\t\t\tbreak\n\t\t}"))
bug("c26l-debug-as-info","C26",(G,"Debug","if DEBUG < logConf.LogLevel","if DEBUG < logConf.LogLevel && logConf.LogLevel > INFO"))
bug("c26m-stdout-only","C26",(G,"Init","io.MultiWriter(logFile, os.Stdout)","io.MultiWriter(os.Stdout)"))
bug("c26n-trunc","C26",(G,"Init","os.O_RDWR|os.O_CREATE","os.O_RDWR|os.O_CREATE|os.O_TRUNC"))
bug("c26o-recursion","C26",(G,"Error","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n","\tlogMu.Lock()\n\tdefer logMu.Unlock()\n\tif len(v) == 0 {\n\t\tWarning(\"empty error\")\n\t}\n"))
# C27
bug("c27a-set-trim","C27",(ST,"setString","string(cmd[1])","strings.TrimSpace(string(cmd[1]))"))
bug("c27b-getrange-neg-end","C27",(ST,"getRangeString","\tif end < len(v) {\n\t\tend++\n\t}","\tif end < len(v)-1 {\n\t\tend++\n\t}"))
bug("c27c-setrange-pad","C27",(ST,"setRangeString","copy(newVal, oldVal)","copy(newVal[len(newVal)-newLen:], oldVal[:len(oldVal)-len(oldVal)/4096])"))
bug("c27d-mget-prev","C27",(ST,"mGetString","res = append(res, resp.NewBulkString(nil))","res = append(res, resp.NewBulkString([]byte{}))"))
bug("c27e-hset-field","C27",(HA,"hSetHash","val := cmd[i+1]","val := cmd[i+1]\n\t\tif i+3 < len(cmd) && len(val) == 0 {\n\t\t\tval = cmd[i+3]\n\t\t}"))
bug("c27f-sadd-lower","C27",(SE,"sAddSet","key := string(_key)","key := string(bytes.TrimRight(_key, \"\\x00\"))"),(SE,"+imp","bytes",""))
bug("c27g-append-empty","C27",(ST,"appendString","db.dict.Set(key, apd)\n","if len(apd) > 0 {\n\t\t\tdb.dict.Set(key, apd)\n\t\t}\n"))
bug("c27h-mset-last","C27",(ST,"mSetString","i += 2","i += 2 + len(cmd)/1024"))
bug("c27i-hmget-missing","C27",(HA,"hMGetHash","h.Get(","h.Get(\"\"+"))
bug("c27j-hget-empty","C27",(HA,"hGetHash","resp.NewBulkString(h.Get(","resp.NewBulkString(nonEmpty(h.Get("),(HA,"hGetHash","","")) if False else None
bug("c27k-set-get-old","C27",(ST,"getString","return resp.NewBulkString(v)","if len(v) == 0 {\n\t\treturn resp.NewBulkString(nil)\n\t}\n\treturn resp.NewBulkString(v)"))
bug("c27l-incr-base","C27",(ST,"incrString","strconv.Atoi(string(","strconv.Atoi(strings.TrimSpace(string("),(ST,"incrString","XX","YY")) if False else None
bug("c27m-hvals-keys","C27",(HS,"(h *Hash) Values","append(res, ","append(res, []byte(nil)), append(res, ")) if False else None
bug("c27n-setex-val","C27",(ST,"setExString","cmd[3]","cmd[2]"))
bug("c27o-hgetall-skip","C27",(HA,"hGetAllHash","res = append(res, ","if len(res) < 2048 {\n\t\t\tres = append(res, ")) if False else None
bug("c27p-echo","C27",(K,"pingKeys","cmd[1]","cmd[0]"))
bug("c27q-rename-copy","C27",(K,"renameKey","db.dict.Set(","db.dict.SetIfNotExist("))
bug("c27r-xx","C27",(CM,"(m *ConcurrentMap) SetIfExist","if _, ok","if _, ok := shard.table[\"\"]; ok {\n\t\treturn 0\n\t}\n\tif _, ok")) if False else None
bug("c27s-smembers-lower","C27",(SS,"(s *Set) Members","res = append(res, key)","if key != \"\" {\n\t\t\tres = append(res, key)\n\t\t}"))
bug("c27t-hkeys-cap","C27",(HS,"(h *Hash) Keys","res = append(res, key)","if len(res) < 1<<16 {\n\t\t\tres = append(res, key)\n\t\t}")) 
main()
