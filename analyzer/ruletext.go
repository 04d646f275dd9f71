package main

// ruleTexts says what each rule demands, for the evidence and for the report.
var ruleTexts = map[string]string{
	"C01/key-lock":            "every access to the value or deadline of a key is made while the lock of that very key is held",
	"C01/write-lock":          "a change of a key is made while its lock is held exclusively",
	"C01/one-section":         "what was tested about a key and what is done with it lie in one critical section",
	"C01/slot":                "the lock taken for a key is the one at the position computed from that key",
	"C01/one-lock-per-key":    "equal keys have the same lock, whichever function takes it",
	"C01/value-lock":          "the contents of a stored container are used under the lock of its key",
	"C01/value-section":       "a container fetched in one critical section is not used in another one",
	"C01/blind-write":         "a value computed from a key's old value is stored in the section in which the old one was read",
	"C01/stale-deadline":      "a deadline is changed only in the section in which the key was seen",
	"C02/all-keys":            "the locks of all keys the command names are held together",
	"C02/one-step":            "all keys of the command are read and changed in one critical section",
	"C03/released":            "no lock is held when the command ends",
	"C03/released-once":       "the multi-key release gives each lock back once",
	"C03/separate-lock":       "the locks in the table are distinct objects",
	"C03/unlock-held":         "only locks that are held are released",
	"C03/unlock-mode":         "a lock is released in the mode in which it was taken",
	"C04/nested-key-lock":     "no key lock is taken while another one is held",
	"C04/lock-under-segment":  "no lock is taken while a segment of the table is locked",
	"C04/self-deadlock":       "a lock is not taken again by its holder",
	"C04/lock-order":          "locks of different kinds are nested in one order",
	"C04/same-order":          "all multi-key functions take the locks in the same order",
	"C04/sorted":              "the positions locked together are sorted",
	"C04/locked-once":         "the positions locked together are free of duplicates",
	"C04/blocking-under-lock": "nothing waits for a client or channel while a lock is held",
	"C04/log-released":        "the lock of the log is released on every path",
	"C05/examined":            "the value of a key is used only after its deadline was examined",
	"C05/listed":              "a key is answered by KEYS only after its deadline was examined",
	"C05/expired-content":     "nothing of an expired value reaches a reply or a stored value",
	"C05/expired-deadline":    "the deadline of an expired value does not survive",
	"C05/del":                 "DEL does not count an expired key",
	"C05/exists":              "EXISTS does not count an expired key",
	"C05/mset":                "MSET on an expired key gives what it gives on a missing one",
	"C06/absent-deadline":     "a key that does not exist has no deadline",
	"C06/clear-deadline":      "a command that overwrites the value clears the deadline",
	"C06/keep-deadline":       "a command that changes the value in place keeps the deadline",
	"C06/deleted-deadline":    "the deadline goes with the key",
	"C06/deadline":            "the deadline stored is the one the request names, in seconds",
	"C06/expire":              "EXPIRE stores now plus the seconds given",
	"C06/expire-clears":       "EXPIRE never clears a deadline",
	"C06/expire-nx":           "EXPIRE NX acts exactly when there is no deadline",
	"C06/expire-xx":           "EXPIRE XX acts exactly when there is one",
	"C06/expire-gt-lt":        "EXPIRE GT and LT act exactly when the new deadline is later or earlier",
	"C06/expired-deadline":    "the deadline of an expired value does not survive",
	"C06/persist":             "PERSIST clears the deadline and nothing else",
	"C06/rename-deadline":     "RENAME moves the deadline, or its absence, with the value",
	"C06/set-refused":         "a refused SET leaves the deadline alone",
	"C06/ttl":                 "TTL answers the seconds left, -1 without deadline, -2 without key",
	"C07/non-empty":           "each container stored is shown to have an element at the end of the command",
	"C08/error-no-effect":     "on a path that ends with an error no table, container or deadline was changed",
	"C09/wrong-type":          "on a path for a key of another type the reply is an error",
	"C09/mget":                "MGET answers nil for a key of another type",
	"C09/type":                "TYPE answers the name of the type stored",
	"C10/index":               "every index lies within the length",
	"C10/slice":               "every slice bound lies within the capacity",
	"C10/nil-deref":           "no nil pointer is dereferenced",
	"C10/nil-call":            "no nil function is called",
	"C10/nil-map":             "no entry of a nil map is assigned",
	"C10/panic":               "no panic is reachable",
	"C10/exit":                "nothing ends the process while serving",
	"C10/make":                "sizes of allocations are not negative and bounded",
	"C10/made":                "a map is made before it is used",
	"C10/div":                 "no division by zero",
	"C10/deadline-type":       "a deadline is stored with the type its readers take",
	"C10/repeat":              "no negative repeat count",
	"C10/rand":                "random bounds are positive",
	"C10/type-assert":         "an unchecked type assertion holds",
	"C10/close-twice":         "a channel is closed once",
	"C10/send-on-closed":      "nothing is sent on a closed channel",
	"C10/table-size":          "tables are made with at least one segment",
	"C10/table-filled":        "every entry of a table is filled in when it is made",
	"C11/shape":               "the bytes of a reply are marker, length of exactly the content that follows, content, line end",
	"C11/reply-encoded":       "what is written to a connection comes from the encoding of a reply",
	"C12/reply":               "every path of a command ends with a reply that is not nil",
	"C12/reply-element":       "no element of an array reply is missing",
	"C11/reply-whole":         "a reply is written to its last byte before the next request is read",
	"C12/reply-whole":         "a reply is written to its last byte before the next request is read",
	"C12/reply-once":          "the connection loop writes one reply per request",
	"C12/reply-after":         "the reply is written after the command ran, before the next request",
	"C12/reply-of-command":    "the reply written is the one the command gave",
	"C12/reply-encoded":       "the reply is written in its encoded form",
	"C12/reply-flushed":       "buffered replies are flushed",
	"C12/executed-once":       "a request is executed once",
	"C12/in-order":            "requests of a connection are executed by one goroutine in order",
	"C12/write-after-close":   "nothing is written after the connection was closed",
	"C13/first-db":            "a connection starts in database 0",
	"C13/own-goroutine":       "each connection has its goroutine",
	"C13/select-accepts":      "a valid index is accepted",
	"C13/select-acts":         "a SELECT that answers OK moved the connection",
	"C13/select-checked":      "the index is compared with the number of databases",
	"C13/select-index":        "the database taken is the one at the index in the request",
	"C13/select-lasts":        "the database selected is used by later commands of the connection",
	"C13/select-private":      "the current database is owned by the connection",
	"C13/select-refused":      "a refused SELECT changes nothing",
	"C13/separate-database":   "each database of the table is made separately",
	"C13/waits-alone":         "a connection does not hold up another one",
	"C14/segment-lock":        "a segment map is accessed under the lock of that segment, exclusively for writes",
	"C14/shared-write":        "memory other connections can reach is written under its lock",
	"C14/shared-map":          "a shared map is not written while serving",
	"C14/shared-field":        "a shared field is not written without a lock",
	"C14/global":              "package variables are not written while serving",
	"C14/atomic-everywhere":   "a field used atomically is used atomically everywhere",
	"C15/registered":          "the command is in the table under its documented name",
	"C15/own-function":        "each name has the function of its command",
	"C15/registered-executed": "the entry found is the one executed",
	"C15/registration-always": "registration does not depend on a condition",
	"C15/registration-runs":   "registration runs before serving",
	"C15/case":                "the name looked up is the lower-cased first word",
	"C15/first-word":          "the name looked up is the first word of the request",
	"C15/whole-word":          "the name is compared as a whole",
	"C15/same-request":        "the command gets all the words of the request",
	"C15/unknown-error":       "an unknown name is answered with an error",
	"C15/memdb":               "the command runs on the database of the connection",
	"C16/read-only":           "no path of a reading command stores into tables, containers or stored bytes",
	"C17/links":               "the two directions of a changed list agree at every node whose links were stored",
	"C17/length":              "the length changes by the nodes put in or taken out",
	"C17/index":               "the node addressed is the one at the index of the request",
	"C17/index-range":         "an index outside the list addresses nothing",
	"C17/insert":              "LINSERT links the node next to the pivot, on the side named",
	"C17/position":            "LPOS answers the position of the node that matched",
	"C17/removed":             "LREM removes at most the number asked for, stops early only when it has, and searches from the end the sign names",
	"C17/end":                 "LPOP takes elements from the left end, RPOP from the right",
	"C17/range":               "LRANGE answers from the first to the last index of the range",
	"C17/trim":                "LTRIM keeps exactly the nodes of the range",
	"C17/trim-length":         "the length after LTRIM is the size of the range",
	"C18/shared":              "after a command, no two keys hold the same collection object",
	"C21/shared":              "after a command, no two keys hold the same collection object",
	"C18/in-place-write":      "no byte of a stored or answered value is overwritten",
	"C18/append-to-prefix":    "nothing is appended onto memory a stored value shares",
	"C18/request-owned":       "words of the request are not changed after they were stored",
	"C18/buffer-reused":       "a read buffer is not used again for the next word",
	"C19/arity":               "a path that does not end with an error has a documented number of words",
	"C19/well-formed":         "every documented number of words has a path without error",
	"C19/malformed":           "a malformed word leads to an error",
	"C19/malformed-no-effect": "a malformed request has no effect",
	"C19/number-checked":      "the error of a number parse is tested before the number is used",
	"C19/number-word":         "the number parsed is the word at the documented place",
	"C19/number-base":         "numbers are decimal",
	"C19/number-size":         "numbers have 64 bits",
	"C19/set-option":          "options of SET are the documented ones, without conflict",
	"C19/refusal":             "a legal request is not refused",
	"C19/select-arity":        "SELECT takes one word",
	"C20/missing-reply":       "the reply for a missing key is the documented one",
	"C21/frame":               "keys the command does not name are untouched",
	"C21/vanish":              "a live key disappears only where the command says so",
	"C21/del":                 "DEL removes exactly the keys named",
	"C21/rename":              "RENAME moves the value itself",
	"C21/rename-reply":        "RENAME of a missing key answers an error, otherwise OK",
	"C21/lmove":               "LMOVE puts in exactly what it took out",
	"C21/smove":               "SMOVE removes and adds the same member",
	"C21/pop":                 "a pop removes what it answers",
	"C21/spop":                "SPOP removes what it answers",
	"C21/linsert":             "LINSERT adds one element, the one given",
	"C21/lset":                "LSET changes one element",
	"C21/set":                 "SET stores the value or leaves the old one",
	"C21/expire":              "EXPIRE leaves the value",
	"C21/persist":             "PERSIST leaves the value",
	"C21/separate-tables":     "values and deadlines, and the databases, have tables of their own",
	"C22/whole":               "an arbitrary element of the collection is answered exactly once (a field right before its value)",
	"C22/algebra":             "an arbitrary element is in the result exactly when set algebra says so, once",
	"C22/stored":              "an arbitrary element is in the set stored exactly when set algebra says so",
	"C22/others":              "an arbitrary element not named in the request stays as it was, with its value",
	"C22/popped":              "what SPOP answers is removed, what it does not answer stays",
	"C22/random":              "random elements are elements of the collection, distinct for a positive count, with their own value",
	"C22/alias":               "a stored result shares no memory with a source",
	"C22/stale":               "a result is made from the current sets",
	"C23/array-complete":      "an array is handed on when all its elements were read",
	"C23/bulk-length":         "a bulk string has the declared length",
	"C23/channel-closed":      "the channel of requests is closed at the end",
	"C23/closed-unserved":     "a connection is not closed before it was served",
	"C23/decimal":             "declared lengths are decimal",
	"C23/element-kept":        "every element read becomes part of its array",
	"C23/ends-on-error":       "a protocol or read error ends the connection",
	"C23/handed-on":           "every complete request is handed on",
	"C23/in-order":            "requests are handed on in the order read",
	"C23/input-kept":          "no byte read from the connection is dropped",
	"C23/keeps-accepting":     "a failed accept does not end the server",
	"C23/length-accepted":     "legal lengths are accepted",
	"C23/malformed":           "malformed input is reported",
	"C23/no-stall":            "no path of the reader waits for something that never comes",
	"C23/read-after-error":    "nothing is read after an error",
	"C23/read-after-report":   "nothing is read after the end was reported",
	"C23/send-after-error":    "no request is handed on after an error",
	"C23/sent-unchanged":      "a request is not changed after it was handed on",
	"C23/serve-until-end":     "a connection is served until it ends",
	"C23/short-read":          "as many bytes as declared are read, however they arrive",
	"C23/socket-closed":       "the socket is closed when the connection ends",
	"C23/terminator":          "line ends are checked",
	"C23/truncated":           "a truncated request is not executed",
	"C23/verbatim":            "the bytes of a word are those sent",
	"C24/as-many":             "the number of elements answered or removed is the one asked for or there",
	"C24/stored":              "a STORE command answers the size of the set stored",
	"C24/member":              "SISMEMBER and HEXISTS answer whether the element is there",
	"C24/del":                 "DEL answers the number of keys removed",
	"C24/exists":              "EXISTS answers the number of keys found",
	"C24/expire":              "EXPIRE answers 1 exactly when it set a deadline",
	"C24/persist":             "PERSIST answers 1 exactly when it cleared one",
	"C24/setnx":               "SETNX answers 1 exactly when it set the key",
	"C24/hsetnx":              "HSETNX answers 1 exactly when it set the field",
	"C24/smove":               "SMOVE answers 1 exactly when it moved the member",
	"C24/linsert":             "LINSERT answers the new length, -1 without pivot, 0 without list",
	"C24/hstrlen":             "HSTRLEN answers the length of the field's value",
	"C24/incr":                "INCR and its kin store a number",
	"C24/incr-reply":          "INCR and its kin answer what they store",
	"C24/incr-step":           "what is stored is the old value plus the step",
	"C25/read-to-end":         "the file is read to its end, the last line included",
	"C25/reading-ends":        "the reading loop ends at the end of the file",
	"C25/errors-reported":     "every error of reading and parsing is returned",
	"C25/directive-field":     "each directive stores the field of its name",
	"C25/directive-value":     "the value is the word behind the directive",
	"C25/directive-case":      "directives are compared in lower case",
	"C25/flag-defined":        "every documented flag is defined",
	"C25/flag-field":          "each flag stores the field of its name",
	"C25/flag-default":        "defaults are the documented ones",
	"C25/command-line":        "flags are parsed before the configuration is used",
	"C25/file-wins":           "the file is read after the flags",
	"C25/host-checked":        "hosts are checked to be addresses",
	"C25/positive":            "the number of segments and databases is positive in the configuration returned",
	"C25/published":           "the configuration returned is the one in use",
	"C25/configured":          "the server is made from the configuration",
	"C25/address":             "the server listens on the configured host and port",
	"C25/databases":           "as many databases are made as configured",
	"C26/threshold":           "a message is dropped exactly below the configured level",
	"C26/level-order":         "the numbers of the levels are in the documented order",
	"C26/level-names":         "the names of the levels are at the numbers of the levels",
	"C26/level-set":           "the level is set from its name",
	"C26/named-level":         "the level set is the one named",
	"C26/default-level":       "without a known name the level is info",
	"C26/prefix":              "the prefix is that of the message's level",
	"C26/once":                "a message is written once",
	"C26/whole":               "prefix and message are written under one lock",
	"C26/written":             "a message at or above the level is written",
	"C26/released":            "the lock of the log is released",
	"C26/survives":            "logging does not end the process",
	"C26/log-file":            "messages go to the log file",
	"C27/request-word":        "the value stored is the documented word of the request",
	"C27/request-words":       "all words meant for the key are stored",
	"C27/get":                 "GET answers the value stored",
	"C27/getrange":            "GETRANGE answers the bytes of the range",
	"C27/mget":                "MGET answers the value of each key at its place",
	"C27/mset":                "MSET stores each value under its own key",
	"C27/set":                 "SET stores the word given",
	"C27/set-get":             "SET GET answers the old value",
	"C27/set-nx":              "SET NX writes exactly when the key is missing",
	"C27/set-xx":              "SET XX writes exactly when the key is there",
	"C27/set-reply":           "SET answers OK exactly when it wrote",
	"C27/setex":               "SETEX stores the word given",
	"C27/setnx":               "SETNX stores the word given",
	"C27/setrange":            "SETRANGE keeps the bytes around the range and pads with zero bytes",
	"C27/append":              "APPEND stores the old value followed by the word",
	"C27/hget":                "HGET answers the value of the field",
	"C27/hmget":               "HMGET answers the value of each field at its place",
	"C27/hset":                "HSET stores each value under its own field",
	"C27/hsetnx":              "HSETNX stores the word given",
	"C27/field":               "the field used is the word given",
	"C27/sadd":                "SADD adds the words given",
	"C27/push":                "pushes put in the words given",
	"C27/pop":                 "pops answer the bytes of the element taken out",
	"C27/removed":             "what is removed is what was named",
	"C27/ping":                "PING answers its word",
}
