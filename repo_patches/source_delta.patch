From 0d5a5346867698065cd7f6660e5c4bcb36d79069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:04 +0000
Subject: [PATCH 01/40] fix: SELECT switched the database of every connected
 client

The selected database was a field of the manager shared by all connections,
so one client's SELECT redirected all the others (and raced with them).
---
 server/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 017598f..c3e9bb7 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -29,6 +29,9 @@ func NewManager(config *config.Config) *Manager {
 }
 
 func (m *Manager) Handle(conn net.Conn) {
+	// the selected database belongs to this connection only
+	session := &Manager{db: m.dbs[0], dbs: m.dbs}
+
 	// parse conn
 	ch := resp.ParseStream(conn)
 
@@ -67,7 +70,7 @@ func (m *Manager) Handle(conn net.Conn) {
 
 		// excute parsed command
 		cmd := arrayData.ToCommand()
-		redisData := m.ExecCommand(cmd)
+		redisData := session.ExecCommand(cmd)
 
 		// write result to connection
 		if redisData != nil {
-- 
2.43.0


From 7a74a3c354aa60eaf1cff8c439ffd8276207357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:05 +0000
Subject: [PATCH 02/40] fix: an empty or null array request crashed the server

'*0' and '*-1' reached cmd[0] with no elements.
---
 server/handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler.go b/server/handler.go
index c3e9bb7..853b09b 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -89,6 +89,10 @@ func (m *Manager) Handle(conn net.Conn) {
 }
 
 func (m *Manager) ExecCommand(cmd [][]byte) resp.RedisData {
+	if len(cmd) == 0 {
+		return resp.NewSimpleError("empty command")
+	}
+
 	cmdName := strings.ToLower(string((cmd[0])))
 	command, ok := memdb.CmdTable[cmdName]
 
-- 
2.43.0


From 141026ba98170c7c9d3cced67e76c3d2fc6e14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:07 +0000
Subject: [PATCH 03/40] fix: short lines and unknown type bytes crashed the
 server

A bare LF or CRLF line was indexed out of range, and a line with an unknown
type byte produced a nil element that was dereferenced when the enclosing
array was executed.
---
 resp/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resp/parser.go b/resp/parser.go
index 88efef6..23decb3 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -142,7 +142,7 @@ func readline(reader *bufio.Reader, buf *readBuffer) (msg []byte, err error) {
 		if err != nil {
 			return nil, err
 		}
-		if len(msg) == 0 || msg[len(msg)-2] != '\r' {
+		if len(msg) < 3 || msg[len(msg)-2] != '\r' {
 			return nil, errors.New("Protocol error: stream msg invalid")
 		}
 	}
@@ -166,6 +166,8 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 			return nil, err
 		}
 		data = NewInteger(integerData)
+	default:
+		return nil, errors.New("Protocol error: " + string(msg))
 	}
 
 	return data, nil
-- 
2.43.0


From 2df9f0d14f23200787211c962f240497b057c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:08 +0000
Subject: [PATCH 04/40] fix: a huge declared length crashed the server

The header length of a bulk string went unchecked into make(). Use the
limits of Redis (512 MB per bulk string, 1M elements per request).
---
 resp/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index 23decb3..d816b89 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -8,6 +8,12 @@ import (
 	"strconv"
 )
 
+// maximum size of a bulk string and number of elements of an array in a request
+const (
+	maxBulkLen  int64 = 512 * 1024 * 1024
+	maxArrayLen int64 = 1024 * 1024
+)
+
 type RedisResp struct {
 	Data RedisData
 	Err  error
@@ -176,7 +182,7 @@ func parseSingleLine(msg []byte) (RedisData, error) {
 func parseBulkStringHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	stringLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if stringLen < -1 || err != nil {
+	if stringLen < -1 || stringLen > maxBulkLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
@@ -201,7 +207,7 @@ func parseBulkString(msg []byte) (RedisData, error) {
 func parseArrayHeader(msg []byte, buf *readBuffer) error {
 	// read header; discard flag and "\r\n"
 	arrayLen, err := strconv.ParseInt(string(msg[1:len(msg)-2]), 10, 64)
-	if arrayLen < -1 || err != nil {
+	if arrayLen < -1 || arrayLen > maxArrayLen || err != nil {
 		return errors.New("Protocol error: " + string(msg))
 	}
 
-- 
2.43.0


From fa133b95437f4d7ee8ba477faf2d0c2f9c766ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:09 +0000
Subject: [PATCH 05/40] fix: the parser goroutine leaked after every stream
 error

The connection handler stops at the first error, but the parser went on and
blocked forever on its next send. Every error now ends the stream.
---
 resp/parser.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/resp/parser.go b/resp/parser.go
index d816b89..9f696c4 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -41,15 +41,12 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		msg, err := readline(streamReader, buf)
 		if err != nil {
 			// read all and close channel
-			if err == io.EOF {
-				ch <- &RedisResp{Err: err}
-				close(ch)
-				return
+			if err != io.EOF {
+				logger.Error("Stream Error: ", err)
 			}
-			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 		// make redis data
 		if buf.multiLine {
@@ -65,7 +62,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.stringLen == -1 { // null bulk string
 						if buf.inArray { // Null elements in arrays; ["hello",nil,"world"]
@@ -91,7 +89,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 				if err != nil {
 					logger.Error("Stream Error: ", err)
 					ch <- &RedisResp{Err: err}
-					buf = &readBuffer{}
+					close(ch)
+					return
 				} else {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
@@ -110,8 +109,8 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 		if err != nil {
 			logger.Error("Stream Error: ", err)
 			ch <- &RedisResp{Err: err}
-			buf = &readBuffer{}
-			continue
+			close(ch)
+			return
 		}
 
 		// send redis data
-- 
2.43.0


From 2357c15a57174d22ba101449caca097024d35046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:10 +0000
Subject: [PATCH 06/40] fix: an empty array inside an array stalled the
 connection

The parser stayed inside an array of length 0, which no number of elements
completes, so no later request of the connection was ever answered.
---
 resp/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resp/parser.go b/resp/parser.go
index 9f696c4..e215c9d 100644
--- a/resp/parser.go
+++ b/resp/parser.go
@@ -95,8 +95,10 @@ func parse(reader io.Reader, ch chan *RedisResp) {
 					if buf.arrayLen == -1 { // null bulk string
 						ch <- &RedisResp{Data: NewArray(nil)}
 						buf.arrayLen = 0
+						buf.inArray = false
 					} else if buf.arrayLen == 0 {
 						ch <- &RedisResp{Data: NewArray([]RedisData{})}
+						buf.inArray = false
 					}
 				}
 				continue
-- 
2.43.0


From 3217f172dd2e33d29ae55158ae251c70e5e0b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 07/40] fix: a CRLF in a command name or option split the error
 reply

The client's bytes are quoted in error replies, so a line break in them
ended the reply early and desynchronised the connection.
---
 resp/data.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resp/data.go b/resp/data.go
index 65b99da..c157bcf 100644
--- a/resp/data.go
+++ b/resp/data.go
@@ -16,6 +16,9 @@ var (
 	CRLF string = "\r\n"
 )
 
+// a line-based reply ends at its first CR or LF, so its text can't contain any
+var lineReplacer = strings.NewReplacer("\r", " ", "\n", " ")
+
 type RedisData interface {
 	GetBytesData() []byte
 	ToRedisFormat() []byte
@@ -60,7 +63,7 @@ func (s *SimpleString) GetBytesData() []byte {
 }
 
 func (s *SimpleString) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("+%s%s", s.data, CRLF)) // +OK\r\n
+	return []byte(fmt.Sprintf("+%s%s", lineReplacer.Replace(s.data), CRLF)) // +OK\r\n
 }
 
 func (s *SimpleString) String() string {
@@ -83,7 +86,7 @@ func (e *SimpleError) GetBytesData() []byte {
 }
 
 func (e *SimpleError) ToRedisFormat() []byte {
-	return []byte(fmt.Sprintf("-%s%s", e.data, CRLF)) // -Error message\r\n
+	return []byte(fmt.Sprintf("-%s%s", lineReplacer.Replace(e.data), CRLF)) // -Error message\r\n
 }
 
 func (e *SimpleError) String() string {
-- 
2.43.0


From 527b5cd4cdbb425c56930d5e1db01521fe5d3d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:52 +0000
Subject: [PATCH 08/40] fix: SELECT of a database out of range did not reply an
 error

---
 server/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/handler.go b/server/handler.go
index 853b09b..88fdbeb 100644
--- a/server/handler.go
+++ b/server/handler.go
@@ -118,7 +118,7 @@ func (m *Manager) Select(cmd [][]byte) resp.RedisData {
 	}
 
 	if dbIdx >= len(m.dbs) || dbIdx < 0 {
-		return resp.NewSimpleString(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
+		return resp.NewSimpleError(fmt.Sprintf("ERR DB index is out of range with maximum %d", len(m.dbs)))
 	}
 
 	m.db = m.dbs[dbIdx]
-- 
2.43.0


From ae4786479b299a7a1ec16aa3daac4a1ad258e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:54 +0000
Subject: [PATCH 09/40] fix: SET with a missing or malformed EX/PX value
 crashed or was accepted

The error replies were built and dropped.
---
 memdb/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 42a7871..1c4d8f4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -47,18 +47,18 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			exval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-				resp.NewSimpleError("value is not an integer")
+				return resp.NewSimpleError("value is not an integer")
 			}
 		case "px":
 			px = true
 			optNum++
 			i++
 			if i >= len(cmd) {
-				resp.NewSimpleError("syntax error")
+				return resp.NewSimpleError("syntax error")
 			}
 			pxval, err = strconv.ParseInt(string(cmd[i]), 10, 64)
 			if err != nil {
-- 
2.43.0


From dd08d0fd218a84fa151f9c081154c8cdb6cb9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:55 +0000
Subject: [PATCH 10/40] fix: SET rejected every EXAT and PXAT option

The option name itself was parsed as the timestamp.
---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 1c4d8f4..4776cb4 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -67,6 +67,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "exat":
 			exat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
@@ -77,6 +78,7 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		case "pxat":
 			pxat = true
 			optNum++
+			i++
 			if i >= len(cmd) {
 				return resp.NewSimpleError("syntax error")
 			}
-- 
2.43.0


From 76a613c60cdbaf2600b9519deb52a560ff433b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:57 +0000
Subject: [PATCH 11/40] fix: a SET prevented by NX changed the time to live of
 the key

---
 memdb/strings.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index 4776cb4..8f69290 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -131,6 +131,14 @@ func setString(db *MemDb, cmd [][]byte) resp.RedisData {
 		res = resp.NewSimpleString("OK")
 	}
 
+	// a SET that NX or XX prevents leaves the key alone, its time to live included
+	if nx && oldOk || xx && !oldOk {
+		if get && oldOk {
+			res = resp.NewBulkString(oldVal.([]byte))
+		}
+		return res
+	}
+
 	if get {
 		if oldOk {
 			res = resp.NewBulkString(oldVal.([]byte))
-- 
2.43.0


From 5c2a9c7cff837b909cff6eeb336d9596bb515c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:59 +0000
Subject: [PATCH 12/40] fix: SETRANGE with a huge offset crashed the server

---
 memdb/strings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 8f69290..ac8e40c 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -8,6 +8,9 @@ import (
 	"time"
 )
 
+// maximum size of a string value
+const maxStringLen int = 512 * 1024 * 1024
+
 /*
 EX seconds -- Set the specified expire time, in seconds.
 PX milliseconds -- Set the specified expire time, in milliseconds.
@@ -263,7 +266,7 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if err != nil {
 		return resp.NewSimpleError("value is not an integer")
 	}
-	if offset < 0 {
+	if offset < 0 || offset > maxStringLen-len(cmd[3]) {
 		return resp.NewSimpleError("offset is out of range")
 	}
 
-- 
2.43.0


From 4b809d075fbfed61c5c0f6cfb797dc3fed39ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:00 +0000
Subject: [PATCH 13/40] fix: SETRANGE cut the rest of the value and changed
 replies in flight

Only the bytes from offset on that value covers are overwritten. The old
value was also modified in place, while a GET of another client could still
be sending it.
---
 memdb/strings.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index ac8e40c..b293612 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -288,15 +288,14 @@ func setRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	//  If the offset is larger than the current length of the string at key, the string is padded with zero-bytes to make offset fit.
-	if offset > len(oldVal) {
-		newVal = oldVal
-		zeroes := make([]byte, offset-len(oldVal)) // pre-allocating memory
-		newVal = append(newVal, zeroes...)
-	} else {
-		newVal = oldVal[:offset]
-	}
-
-	newVal = append(newVal, value...)
+	// The old value may still be referenced by a reply being sent, so it is never changed in place.
+	newLen := len(oldVal)
+	if offset+len(value) > newLen {
+		newLen = offset + len(value)
+	}
+	newVal = make([]byte, newLen)
+	copy(newVal, oldVal)
+	copy(newVal[offset:], value)
 	db.dict.Set(key, newVal)
 	return resp.NewInteger(int64(len(newVal)))
 }
-- 
2.43.0


From 2645d7bd94d2eb502f0dfa64b9b16b57f9bfe3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:01 +0000
Subject: [PATCH 14/40] fix: MGET left expired keys out of its reply

Every key has its element, nil when it does not exist.
---
 memdb/strings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memdb/strings.go b/memdb/strings.go
index b293612..f11ee25 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -323,6 +323,8 @@ func mGetString(db *MemDb, cmd [][]byte) resp.RedisData {
 			}
 
 			db.locks.RUnLock(key)
+		} else {
+			res = append(res, resp.NewBulkString(nil))
 		}
 	}
 
-- 
2.43.0


From 35fc4eb7f60dbf0586dbb0943e3adfd4a19e3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:03 +0000
Subject: [PATCH 15/40] fix: concurrent SETNX of one key could both succeed

The key was looked up before it was locked.
---
 memdb/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index f11ee25..8c4c996 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -389,15 +389,15 @@ func setNxString(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
-	if _, ok := db.dict.Get(key); ok {
-		return resp.NewInteger(0)
-	}
-
 	val := cmd[2]
 
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
+	if _, ok := db.dict.Get(key); ok {
+		return resp.NewInteger(0)
+	}
+
 	db.dict.Set(key, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From c7eed97946465cf48ee60220967beaf380ce6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:04 +0000
Subject: [PATCH 16/40] fix: INCR, INCRBY, DECR and DECRBY ignored a missing
 key

It counts as 0, as INCRBYFLOAT already has it.
---
 memdb/strings.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index 8c4c996..a1df1f9 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -455,7 +455,9 @@ func incrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(1, 10)))
+		return resp.NewInteger(1)
 	}
 }
 
@@ -493,7 +495,9 @@ func incrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(increment, 10)))
+		return resp.NewInteger(increment)
 	}
 }
 
@@ -526,7 +530,9 @@ func decrString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-1, 10)))
+		return resp.NewInteger(-1)
 	}
 }
 
@@ -564,7 +570,9 @@ func decrByString(db *MemDb, cmd [][]byte) resp.RedisData {
 
 		return resp.NewInteger(nV)
 	} else {
-		return resp.NewInteger(0)
+		//  If the key does not exist, it is set to 0 before performing the operation.
+		db.dict.Set(key, []byte(strconv.FormatInt(-decrement, 10)))
+		return resp.NewInteger(-decrement)
 	}
 }
 
-- 
2.43.0


From e54c8fd8d8121c7afa67e20b3fc8aa67ccc365bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:06 +0000
Subject: [PATCH 17/40] fix: lazy expiry could delete a value just written

The deadline was checked before the key was locked and not again after.
---
 memdb/memdb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/memdb.go b/memdb/memdb.go
index b450868..c5efff5 100644
--- a/memdb/memdb.go
+++ b/memdb/memdb.go
@@ -55,6 +55,10 @@ func (db *MemDb) DeleteExpiredKey(key string) bool {
 	if db.CheckExpire(key) {
 		db.locks.Lock(key)
 		defer db.locks.UnLock(key)
+		// it may have been written again before it was locked
+		if !db.CheckExpire(key) {
+			return false
+		}
 		db.dict.Delete(key)
 		db.expires.Delete(key)
 		return true
-- 
2.43.0


From c43193f104d8a85bbea6249a05cdd9821f9f0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:07 +0000
Subject: [PATCH 18/40] fix: KEYS crashed the server when keys were being added

The result was sized by a count read before the segments were locked.
---
 memdb/concurrentMap.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 72cf441..5e3b869 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -98,13 +98,11 @@ func (m *ConcurrentMap) Clear() {
 
 // 这里拿到的keys有可能有过期的，需要lazy deletion
 func (m *ConcurrentMap) Keys() []string {
-	keys := make([]string, m.count)
-	k := 0
+	keys := make([]string, 0)
 	for i := range m.table {
 		m.table[i].rwMu.Lock()
 		for key := range m.table[i].ht {
-			keys[k] = key
-			k++
+			keys = append(keys, key)
 		}
 		m.table[i].rwMu.Unlock()
 	}
-- 
2.43.0


From b831448f703044c556d0863dbfa65db9a668c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:08 +0000
Subject: [PATCH 19/40] fix: the key count of the map was updated without
 synchronisation

Writers of different segments share the counter.
---
 memdb/concurrentMap.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/memdb/concurrentMap.go b/memdb/concurrentMap.go
index 5e3b869..1d01c83 100644
--- a/memdb/concurrentMap.go
+++ b/memdb/concurrentMap.go
@@ -3,14 +3,15 @@ package memdb
 import (
 	"gRedis/util"
 	"sync"
+	"sync/atomic"
 )
 
 const MaxSegSize int = int(1<<32 - 1) // max signed int32
 
 type ConcurrentMap struct {
 	table []*segment
-	size  int // table size
-	count int // key counts
+	size  int   // table size
+	count int64 // key counts, accessed atomically
 }
 
 type segment struct {
@@ -52,7 +53,7 @@ func (m *ConcurrentMap) Set(key string, value any) int {
 
 	if _, ok := segment.ht[key]; !ok {
 		added = 1
-		m.count++
+		atomic.AddInt64(&m.count, 1)
 	}
 	segment.ht[key] = value
 	return added
@@ -67,7 +68,7 @@ func (m *ConcurrentMap) Delete(key string) int {
 
 	if _, ok := segment.ht[key]; ok {
 		delete(segment.ht, key)
-		m.count--
+		atomic.AddInt64(&m.count, -1)
 		return 1
 	}
 
@@ -89,7 +90,7 @@ func (m *ConcurrentMap) Size() int {
 }
 
 func (m *ConcurrentMap) Count() int {
-	return m.count
+	return int(atomic.LoadInt64(&m.count))
 }
 
 func (m *ConcurrentMap) Clear() {
-- 
2.43.0


From 3f2d91743706d1aee79d52f476c42e69894a4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 20/40] fix: PERSIST replied 1 for keys without a time to live

---
 memdb/keys.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/memdb/keys.go b/memdb/keys.go
index ceb418b..37f1949 100644
--- a/memdb/keys.go
+++ b/memdb/keys.go
@@ -147,9 +147,7 @@ func persistKey(db *MemDb, cmd [][]byte) resp.RedisData {
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
-	db.DeleteExpire(key)
-
-	return resp.NewInteger(int64(1))
+	return resp.NewInteger(int64(db.DeleteExpire(key)))
 }
 
 func ttlKey(db *MemDb, cmd [][]byte) resp.RedisData {
-- 
2.43.0


From c2fb85a81bc270fbc0ab3cfef5694b114df00d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:31 +0000
Subject: [PATCH 21/40] fix: a rejected HINCRBY or HINCRBYFLOAT left an empty
 hash behind

The hash was created before the increment was parsed.
---
 memdb/hash.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 162611e..5d7221f 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -161,6 +161,11 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.Atoi(string(cmd[3]))
+	if err != nil {
+		return resp.NewSimpleError("value is not an integer")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -178,11 +183,6 @@ func hIncrByHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.Atoi(string(cmd[3]))
-	if err != nil {
-		return resp.NewSimpleError("value is not an integer")
-	}
-
 	val, ok := h.IncrBy(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an integer")
@@ -200,6 +200,11 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	key := string(cmd[1])
 	db.DeleteExpiredKey(key)
 
+	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
+	if err != nil {
+		return resp.NewSimpleError("value is not an float")
+	}
+
 	db.locks.Lock(key)
 	defer db.locks.UnLock(key)
 
@@ -218,11 +223,6 @@ func hIncrByFloatHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	field := string(cmd[2])
-	increment, err := strconv.ParseFloat(string(cmd[3]), 64)
-	if err != nil {
-		return resp.NewSimpleError("value is not an float")
-	}
-
 	val, ok := h.IncrByFloat(field, increment)
 	if !ok {
 		return resp.NewSimpleError("hash value is not an float")
-- 
2.43.0


From 6bc52e9f28c91ee93ff9916f1b9082766be4412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:32 +0000
Subject: [PATCH 22/40] fix: HSETNX never added a field to an existing hash

It looked at the key instead of the field, and did not check the type.
---
 memdb/hash.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 5d7221f..205529b 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -421,9 +421,6 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		v = NewHash()
 		db.dict.Set(key, v)
-	} else {
-		// 0 if the field already exists in the hash and no operation was performed.
-		return resp.NewInteger(0)
 	}
 
 	// wrong type
@@ -434,6 +431,10 @@ func hSetNxHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	field := string(cmd[2])
 	val := cmd[3]
+	if h.Exist(field) {
+		// 0 if the field already exists in the hash and no operation was performed.
+		return resp.NewInteger(0)
+	}
 	h.Set(field, val)
 
 	return resp.NewInteger(1)
-- 
2.43.0


From dd1b0b9b2d839e37b324280bce6f760e22b96b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:34 +0000
Subject: [PATCH 23/40] fix: HMGET of a missing key left the requested fields
 out

Every field has its element, nil when it does not exist.
---
 memdb/hash.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index 205529b..e1effcb 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -304,10 +304,7 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	// passive delete expired key
 	key := string(cmd[1])
-	if db.DeleteExpiredKey(key) {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
-	}
+	db.DeleteExpiredKey(key)
 
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
@@ -315,8 +312,8 @@ func hMGetHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	// key not existed
 	v, ok := db.dict.Get(key)
 	if !ok {
-		// an empty list when key does not exist.
-		return resp.NewArray([]resp.RedisData{})
+		// a key that does not exist is treated as an empty hash.
+		v = NewHash()
 	}
 
 	// wrong type
-- 
2.43.0


From f31258f42b6eff1d8e2f0a9a6e31a8d655328068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 24/40] fix: HRANDFIELD and SRANDMEMBER with a huge count
 crashed the server

The count went unchecked into make().
---
 memdb/hash.go |  6 ++++++
 memdb/set.go  | 11 ++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/memdb/hash.go b/memdb/hash.go
index e1effcb..a40199a 100644
--- a/memdb/hash.go
+++ b/memdb/hash.go
@@ -6,6 +6,9 @@ import (
 	"strings"
 )
 
+// maximum number of elements that can be asked for when they may repeat
+const maxRandomCount = 1024 * 1024
+
 func hDelHash(db *MemDb, cmd [][]byte) resp.RedisData {
 	if len(cmd) < 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
@@ -523,6 +526,9 @@ func hRandFieldHash(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if count < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if len(cmd) == 4 {
diff --git a/memdb/set.go b/memdb/set.go
index 37a9c8b..df8e7c2 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -571,6 +571,9 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if err != nil {
 			return resp.NewSimpleError("value is not an integer")
 		}
+		if countVal < -maxRandomCount {
+			return resp.NewSimpleError("value is out of range")
+		}
 	}
 
 	if countVal == 0 {
@@ -599,14 +602,8 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewBulkString([]byte(rand[0]))
 	}
 
-	var res []resp.RedisData
-	if countVal < 0 {
-		res = make([]resp.RedisData, 0, -countVal)
-	} else {
-		res = make([]resp.RedisData, 0, countVal)
-	}
-
 	rand = s.Random(countVal)
+	res := make([]resp.RedisData, 0, len(rand))
 	for i := 0; i < len(rand); i++ {
 		res = append(res, resp.NewBulkString([]byte(rand[i])))
 	}
-- 
2.43.0


From bf1181873f35d35951b0e7ba4d5047a732e6c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:36 +0000
Subject: [PATCH 25/40] fix: LINSERT inserted at every pivot, and forever after
 an equal one

Only the first occurrence of the pivot counts. LINSERT AFTER with the element
equal to the pivot met its own insertions and never ended.
---
 memdb/list_struct.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 287b99a..8f8149a 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -60,31 +60,29 @@ func (l *List) Pos(val []byte) int {
 }
 
 func (l *List) InsertBefore(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur.Prev, Next: cur, Val: val}
 			cur.Prev = node
 			node.Prev.Next = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) InsertAfter(val []byte, pivot []byte) bool {
-	var ok bool
 	for cur := l.Head.Next; cur != l.Tail; cur = cur.Next {
 		if bytes.Equal(cur.Val, pivot) {
-			ok = true
 			node := &ListNode{Prev: cur, Next: cur.Next, Val: val}
 			cur.Next = node
 			node.Next.Prev = node
 			l.Len++
+			return true
 		}
 	}
-	return ok
+	return false
 }
 
 func (l *List) LPop() *ListNode {
-- 
2.43.0


From 8fa2e1606ac61578e2b9c65f308cafed0d94e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 26/40] fix: LMOVE from a key of another type left an empty
 list behind

The destination was created before the source was checked; moving from that
empty list then crashed the server. Also drop a debugging print.
---
 memdb/list.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index 22af999..a22b48b 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -159,11 +159,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if !ok {
 		return resp.NewBulkString(nil)
 	}
-	desVal, ok := db.dict.Get(des)
-	if !ok {
-		desVal = NewList()
-		db.dict.Set(des, desVal)
-	}
 
 	// wrong type
 	srcList, ok := srcVal.(*List)
@@ -171,6 +166,12 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	desVal, ok := db.dict.Get(des)
+	if !ok {
+		desVal = NewList()
+		db.dict.Set(des, desVal)
+	}
+
 	defer func() {
 		if srcList.Len == 0 {
 			db.dict.Delete(src)
@@ -193,7 +194,6 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 	if desDrc == "left" {
 		desList.LPush(srcPop.Val)
 	} else {
-		fmt.Println(desList, desList.Head, desList.Tail)
 		desList.RPush(srcPop.Val)
 	}
 
-- 
2.43.0


From 6c4e53684b51dd96f48eb3f3b3ba51dcb41c09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:39 +0000
Subject: [PATCH 27/40] fix: LINDEX and LSET with the smallest integer crashed
 the server

Its negation overflows.
---
 memdb/list_struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/list_struct.go b/memdb/list_struct.go
index 8f8149a..c2d609b 100644
--- a/memdb/list_struct.go
+++ b/memdb/list_struct.go
@@ -28,7 +28,7 @@ func NewList() *List {
 func (l *List) Index(index int) *ListNode {
 	var cur *ListNode
 	if index < 0 {
-		if -index > l.Len {
+		if index < -l.Len {
 			return nil
 		}
 		cur = l.Tail.Prev
-- 
2.43.0


From d655c98135b1a9d5afab373b968707169ffa0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:41 +0000
Subject: [PATCH 28/40] fix: LPOP and RPOP ignored surplus arguments

---
 memdb/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/memdb/list.go b/memdb/list.go
index a22b48b..3183e12 100644
--- a/memdb/list.go
+++ b/memdb/list.go
@@ -201,7 +201,7 @@ func lMoveList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func lPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
@@ -714,7 +714,7 @@ func lTrimList(db *MemDb, cmd [][]byte) resp.RedisData {
 }
 
 func rPopList(db *MemDb, cmd [][]byte) resp.RedisData {
-	if len(cmd) < 2 {
+	if len(cmd) != 2 && len(cmd) != 3 {
 		return resp.NewSimpleError("wrong number of arguments for command")
 	}
 
-- 
2.43.0


From fefa51705865cae384a36a82c360088551d25da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:42 +0000
Subject: [PATCH 29/40] fix: set operations skipped expired keys

An expired key is an empty set like any missing one. Leaving it out gave
wrong results (SINTER, SDIFF), kept the old destination (the STORE forms) and
crashed the server when no key was left.
---
 memdb/set.go | 51 ++++++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index df8e7c2..059548e 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -75,10 +75,9 @@ func sInterSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -143,13 +142,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -224,10 +219,9 @@ func sDiffSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -292,13 +286,9 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
@@ -652,10 +642,9 @@ func sUnionSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-1)
 	for _, _key := range cmd[1:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	db.locks.MRLock(keys)
@@ -720,13 +709,9 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	keys := make([]string, 0, len(cmd)-2)
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-		if !db.DeleteExpiredKey(key) {
-			// can't guarantee the key must to be existed
-			keys = append(keys, key)
-		}
-	}
-	if len(keys) == 0 {
-		return resp.NewInteger(0)
+		db.DeleteExpiredKey(key)
+		// can't guarantee the key must to be existed
+		keys = append(keys, key)
 	}
 
 	// get primary key
-- 
2.43.0


From 840ef39bd006520cf181b09c843b5caf7b53e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:43 +0000
Subject: [PATCH 30/40] fix: SINTERSTORE ignored missing keys

The intersection with a missing key, an empty set, is empty.
---
 memdb/set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index 059548e..dbf46e9 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -198,6 +198,9 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
+		} else {
+			// Keys that do not exist are considered to be empty sets.
+			sets = append(sets, NewSet())
 		}
 	}
 
-- 
2.43.0


From 74f9c6b0b1ffc97d7d21c1d94e6b6d726f7dabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:45 +0000
Subject: [PATCH 31/40] fix: SINTERSTORE, SDIFFSTORE and SUNIONSTORE stored
 wrong destinations

An empty result stored an empty set, which later crashed SRANDMEMBER, and an
error reply had already replaced the destination with one.
---
 memdb/set.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index dbf46e9..6465a6c 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -169,13 +169,18 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	failed := false
 
 	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
+		if failed {
+			return
+		}
+		db.DeleteExpire(dest)
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
 		}
 	}()
 
@@ -195,6 +200,7 @@ func sInterStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				failed = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
@@ -316,13 +322,18 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover old before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	failed := false
 
 	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
+		if failed {
+			return
+		}
+		db.DeleteExpire(dest)
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
 		}
 	}()
 
@@ -342,6 +353,7 @@ func sDiffStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				failed = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
@@ -739,13 +751,18 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	// whatever old destination key/value it is, just cover before return
-	_, oldOk := db.dict.Get(dest)
 	destSet := NewSet()
+	failed := false
 
 	defer func() {
-		db.dict.Set(dest, destSet)
-		if oldOk {
-			db.DeleteExpire(dest)
+		if failed {
+			return
+		}
+		db.DeleteExpire(dest)
+		if destSet.Len() == 0 {
+			db.dict.Delete(dest)
+		} else {
+			db.dict.Set(dest, destSet)
 		}
 	}()
 
@@ -765,6 +782,7 @@ func sUnionStoreSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		if ok {
 			set, ok := _set.(*Set)
 			if !ok {
+				failed = true
 				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 			}
 			sets = append(sets, set)
-- 
2.43.0


From 5dffd1856b8687815767f1ed9a41f282e472d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:46 +0000
Subject: [PATCH 32/40] fix: SMOVE did nothing when the destination did not
 exist

---
 memdb/set.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 6465a6c..27b313c 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -449,9 +449,7 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}
 
 	des := string(cmd[2])
-	if db.DeleteExpiredKey(des) {
-		return resp.NewInteger(0)
-	}
+	db.DeleteExpiredKey(des)
 
 	member := string(cmd[3])
 
@@ -477,7 +475,12 @@ func sMoveSet(db *MemDb, cmd [][]byte) resp.RedisData {
 
 	desVal, ok := db.dict.Get(des)
 	if !ok {
-		return resp.NewInteger(0)
+		// a destination that does not exist is created
+		if !srcSet.Has(member) {
+			return resp.NewInteger(0)
+		}
+		desVal = NewSet()
+		db.dict.Set(des, desVal)
 	}
 
 	desSet, ok := desVal.(*Set)
-- 
2.43.0


From 796d5f225298e6cfaddd27b402bb656ea2513d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:48 +0000
Subject: [PATCH 33/40] fix: SPOP and SRANDMEMBER replied nil for the empty
 member

---
 memdb/set.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 27b313c..e5fdea8 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -540,11 +540,7 @@ func sPopSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	}()
 
 	if !count {
-		pop := s.Pop()
-		if pop == "" {
-			return resp.NewBulkString(nil)
-		}
-		return resp.NewBulkString([]byte(pop))
+		return resp.NewBulkString([]byte(s.Pop()))
 	}
 
 	if countVal > s.Len() {
@@ -604,7 +600,7 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-		if rand[0] == "" {
+		if len(rand) == 0 {
 			return resp.NewBulkString(nil)
 		}
 		return resp.NewBulkString([]byte(rand[0]))
-- 
2.43.0


From 463b51c5084ba6a118ca3d02c187546d16013b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:49 +0000
Subject: [PATCH 34/40] fix: SREM of the last member left an empty set behind

Unlike every other removal; SRANDMEMBER of it then crashed the server.
---
 memdb/set.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/memdb/set.go b/memdb/set.go
index e5fdea8..753a205 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -638,6 +638,14 @@ func sRemSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	// if set is empty, delete it
+	defer func() {
+		if s.Len() == 0 {
+			db.dict.Delete(key)
+			db.DeleteExpire(key)
+		}
+	}()
+
 	res := 0
 	for _, _key := range cmd[2:] {
 		key := string(_key)
-- 
2.43.0


From 512a0372be32a3d6752d97fe614c9aea6079d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 35/40] fix: KEYS with a pattern that ends in an open range
 crashed the server

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 2667940..35a1b79 100644
--- a/util/util.go
+++ b/util/util.go
@@ -78,7 +78,7 @@ func PattenMatch(pattern, src string) bool {
 				if pattern[patPos] == ']' {
 					close = true
 					break
-				} else if pattern[patPos] == '-' {
+				} else if pattern[patPos] == '-' && patPos+1 < patLen {
 					start, end := pattern[patPos-1], pattern[patPos+1]
 					if src[srcPos] >= start && src[srcPos] <= end {
 						match = true
-- 
2.43.0


From ade8f8a461a135086436f903cac89b1e9080bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:52 +0000
Subject: [PATCH 36/40] fix: KEYS did not match patterns with ? or [ after *

The character after the star was looked for literally.
---
 util/util.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/util/util.go b/util/util.go
index 35a1b79..7678c44 100644
--- a/util/util.go
+++ b/util/util.go
@@ -51,13 +51,7 @@ func PattenMatch(pattern, src string) bool {
 				return true
 			}
 			for srcPos < srcLen {
-				for srcPos < srcLen && src[srcPos] != pattern[patPos] {
-					srcPos++
-				}
-				if srcPos == srcLen {
-					return patPos == patLen
-				}
-				if PattenMatch(pattern[patPos+1:], src[srcPos+1:]) {
+				if PattenMatch(pattern[patPos:], src[srcPos:]) {
 					return true
 				} else {
 					srcPos++
-- 
2.43.0


From 0bd57bb93b0b4bf5073d2ba03cfe7f01807c5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:53 +0000
Subject: [PATCH 37/40] fix: a configuration file ending in a newline hung the
 server at start

An option without a value crashed it, and a read error was dropped.
---
 config/config.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 00d7d7a..27ee506 100644
--- a/config/config.go
+++ b/config/config.go
@@ -93,14 +93,20 @@ func (conf *Config) ParseConfFile() error {
 	for {
 		line, ioErr := fileReader.ReadString('\n')
 		if ioErr != nil && ioErr != io.EOF {
-			return err
+			return ioErr
 		}
 
 		argvs := strings.Fields(line)
 
 		if len(argvs) == 0 {
+			if ioErr == io.EOF {
+				break
+			}
 			continue
 		}
+		if len(argvs) < 2 {
+			return errors.New("missing value of " + argvs[0])
+		}
 
 		switch strings.ToLower(argvs[0]) {
 		case "host":
-- 
2.43.0


From c71327c47b50951e4a14bb65988c119346eeea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:55 +0000
Subject: [PATCH 38/40] fix: a zero or negative segnum or dbnum crashed the
 server

Instead of being rejected at start.
---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index 27ee506..82f8018 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,6 +76,10 @@ func Init() (*Config, error) {
 		}
 	}
 
+	if _conf.SegNum <= 0 || _conf.DbNum <= 0 {
+		return nil, &CfgError{message: "segnum and dbnum must be positive"}
+	}
+
 	Conf = _conf
 	return Conf, nil
 }
-- 
2.43.0


From aa2ff90def835a541f409eea36a5d2afa2b6c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:21 +0000
Subject: [PATCH 39/40] fix: GETRANGE up to the largest integer replied an
 empty string

The increment of the end offset overflowed.
---
 memdb/strings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/memdb/strings.go b/memdb/strings.go
index a1df1f9..d48855c 100644
--- a/memdb/strings.go
+++ b/memdb/strings.go
@@ -235,7 +235,9 @@ func getRangeString(db *MemDb, cmd [][]byte) resp.RedisData {
 	if end < 0 {
 		end = len(v) + end
 	}
-	end++
+	if end < len(v) {
+		end++
+	}
 
 	if start > end || start >= len(v) || end < 0 {
 		return resp.NewBulkString([]byte{})
-- 
2.43.0


From 652a6917b16600ce620346631a86e73c699ae1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:19 +0000
Subject: [PATCH 40/40] fix: SRANDMEMBER with count 0 answered nil for a key of
 another type

---
 memdb/set.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/memdb/set.go b/memdb/set.go
index 753a205..e174806 100644
--- a/memdb/set.go
+++ b/memdb/set.go
@@ -580,10 +580,6 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		}
 	}
 
-	if countVal == 0 {
-		return resp.NewBulkString(nil)
-	}
-
 	db.locks.RLock(key)
 	defer db.locks.RUnLock(key)
 
@@ -597,6 +593,10 @@ func sRandMemberSet(db *MemDb, cmd [][]byte) resp.RedisData {
 		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
 	}
 
+	if countVal == 0 {
+		return resp.NewBulkString(nil)
+	}
+
 	var rand []string
 	if !count {
 		rand = s.Random(1)
-- 
2.43.0

