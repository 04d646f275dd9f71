p("C04", "Commands never deadlock",
  "Whatever commands clients run at the same time, on whatever keys and in whatever order they name them, every command finishes: commands that need several keys never wait for each other in a circle, a command never waits for exclusion it already has (also when two of its keys are equal or fall on the same lock), and no command waits for a client while other commands have to wait for it.",
  ["schedules", "inputs"], "all interleavings of commands, all orders and repetitions of keys",
  "A deadlock needs a particular interleaving and particular hash positions; the tests run one goroutine.",
  CMDS + ["memdb/locks.go", "memdb/concurrentMap.go"], [("lock positions sorted and free of duplicates", "memdb/locks.go"), ("one lock acquisition per command", "memdb/*.go")],
  ["progress of all clients"],
  tech="lock-order and lockset analysis of the SSA form, dataflow on the lists of lock positions",
  note="No path of any command takes a key lock while it holds one (multi-key commands take all locks in one ordered call), nothing is locked under a segment lock, nothing blocks under a database lock; in the multi-lock functions the positions locked are shown sorted, free of duplicates and complete by dataflow on the slices they come from.")
p("C10", "No request can crash the server",
  "Whatever bytes a client sends (any command, any number and content of words, malformed or truncated protocol, extreme numbers, any pattern), the server process survives: no index out of range, nil dereference, failed type assertion, negative or huge allocation, close of a closed channel or exit is reachable while serving.",
  ["inputs"], "all byte streams on all connections, all database states",
  "The tests send a handful of well-formed requests.",
  CMDS + ["resp/parser.go", "resp/data.go", "server/handler.go", "util/util.go", "memdb/list_struct.go", "memdb/set_struct.go", "memdb/hash_struct.go"],
  [("length checks before indexing", "memdb/*.go"), ("limits on declared lengths", "resp/parser.go")], ["the server process"],
  note="Every index, slice, division, assertion, dereference, allocation size and channel operation reachable from the commands, the connection handler, the parser and the reply formatting is an obligation discharged in the zone domain and the typestate.")
p("C11", "Replies are always well-formed RESP",
  "Every reply on the wire is a complete RESP value: the declared length of a bulk string or array is the number of bytes or elements that follow, nil is -1, integers are decimal, and simple strings and errors contain no CR or LF, whatever the content of the database and of the request. So a client never loses its place in the stream.",
  ["inputs"], "all replies with any content", "Tests compare a few ASCII replies.",
  ["resp/data.go"], [("ToRedisFormat of the reply types", "resp/data.go")], ["bytes written to the connection"],
  note="The byte string every reply type produces is derived as a symbolic concatenation and compared with the RESP grammar; lengths are the length terms of the very content that follows.")
p("C13", "Connections are isolated; SELECT affects only its own connection",
  "A connection starts in database 0; SELECT with a valid index moves this connection, and no other, to exactly that database, for all its later commands; an invalid index is answered with an error and changes nothing. Databases share no keys. One connection never waits for another one's requests to end.",
  ["schedules", "histories", "inputs"], "all interleavings of connections and SELECTs, all index texts", "No test uses two connections or SELECT.",
  ["server/handler.go", "server/server.go", "memdb/memdb.go"], [("database pointer kept per connection", "server/handler.go"), ("one goroutine per connection", "server/server.go")], ["which database a command acts on"],
  note="Ownership of the current-database variable per connection, value tracking of the index from the request word to the database table, and a dataflow rule that every database of the table is created separately.")
p("C14", "Shared memory is never accessed without synchronisation",
  "Every map segment, counter, value or package variable that two connections can reach is only accessed under its lock or atomically. No schedule of clients can cause a data race, in particular no concurrent map access, which would end the process.",
  ["schedules"], "all interleavings of all commands and connections", "The race detector is not used and no test is concurrent.",
  ["memdb/concurrentMap.go", "memdb/locks.go", "memdb/memdb.go", "server/handler.go", "logger/logger.go"] + CMDS, [("segment locks", "memdb/concurrentMap.go"), ("key locks", "memdb/locks.go"), ("atomic counter", "memdb/concurrentMap.go")], ["data races"],
  tech="lockset analysis over the SSA form, ownership of fresh and shared memory",
  note="Each access to a segment map happens under that segment's lock (exclusively for writes), each access to a stored container or its contents under the key's lock, fields used atomically are used atomically everywhere, and nothing else shared is written while serving.")
p("C15", "Every documented command is reachable, whatever its case",
  "A request whose first word is the name of a supported command, in upper, lower or mixed case, runs that command with all the words of the request; any other first word is answered with an error and runs nothing.",
  ["inputs"], "all first words", "Tests call the command functions directly, not through the table.",
  ["memdb/command.go", "server/handler.go", "main.go"] + CMDS, [("command table", "memdb/command.go"), ("lower-casing before lookup", "server/handler.go")], ["replies"],
  note="Registration is collected from the source and compared with the documented list; in the connection loop the key looked up is the lower-cased first word and the executor called is the entry found.")
p("C23", "Requests are read completely, in order, until the connection ends",
  "The requests of a connection are decoded exactly as sent, one after the other, however the bytes are split or pipelined; a malformed or truncated request is never executed, it is reported and ends the connection. Each connection accepted is served until it ends, then its socket is closed and nothing of it stays behind; a failed accept does not stop the server.",
  ["inputs", "histories", "schedules"], "all byte streams and all ways they are split, all moments of disconnection", "Parser tests use whole well-formed requests from memory.",
  ["resp/parser.go", "server/handler.go", "server/server.go"], [("parser goroutine and its channel", "resp/parser.go"), ("connection loop", "server/handler.go"), ("accept loop", "server/server.go")], ["requests executed, sockets and goroutines"],
  note="Typestate of the parser (bytes wanted, error seen, value complete, channel open) and of the connection (served, closed) on every path.")
p("C25", "Start-up configuration is honoured, and nonsense is refused",
  "The server starts with the documented defaults, overridden by the command line flags and then by the configuration file, whose directives may be in any case and each set the option of their name to the word behind it. Every configuration file is read to its end; a value that is no number, a host that is no address, a segment or database number that is not positive, a missing value or an unreadable file is reported as an error instead of giving a server that hangs, crashes or runs with something else.",
  ["inputs"], "all flags and configuration files", "One test reads one file.",
  ["config/config.go"], [("flag definitions and file parser", "config/config.go")], ["configuration in use, start-up errors"],
  note="Every path through the reading of flags and file: which field each flag and directive stores, that numbers are used only after their error was tested, that no path reads on after the end of the file, and that the values in the configuration returned are positive.")
p("C26", "Log messages are written whole, once, and exactly from the set level on",
  "A message is written to the log exactly when its level is at least the configured one (order debug, info, warning, panic, error; info if none is named), once, with the prefix of its own level, never mixed with a message of another connection; and logging never ends or blocks the server.",
  ["schedules", "inputs"], "all levels and concurrent messages", "The logger has no test.",
  ["logger/logger.go"], [("level test, log lock", "logger/logger.go")], ["lines of the log"],
  note="On every path of each logging function: the bounds of the configured level known where the message is written or dropped, the lock held around prefix and message and free at the end, and the table of level names against the level numbers.")
p("C17", "Lists keep their order, their length and their addressing",
  "A list is one sequence, the same read from either end, and its length is the number of its elements after any commands. LPUSH and RPUSH put the words in at their end one after the other, LPOP and RPOP take from theirs, LMOVE takes from and puts at the ends it names. LINDEX, LSET, LRANGE and LTRIM address exactly the elements of their indexes, counted from 0 or back from -1, ranges including both ends and cut to the list; LINSERT puts the element directly before or after the first occurrence of the pivot, LREM with a count takes away no more than that many and counts what it took, and LPOS answers the position of an occurrence.",
  ["inputs", "histories"], "all lists, indexes (negative, beyond either end), ranges and repeated elements", "The tests use a few short lists and indexes.",
  ["memdb/list_struct.go", "memdb/list.go"], [("doubly linked list with sentinels and a length field", "memdb/list_struct.go"), ("index normalisation", "memdb/list_struct.go")], ["LRANGE, LINDEX, LLEN and LPOP/RPOP replies after any history"],
  tech="abstract interpretation of the SSA form (shape of the doubly linked list, positions of nodes in the zone domain)",
  note="At each path end the two directions of every changed list agree at each node whose links were stored, the length field differs from the old one by the nodes put in or taken out, and the position of each node answered, changed or kept is related in the zone domain to the index word of the request, by case of its sign and range.")
p("C22", "Set and hash commands answer and store whole, exact collections",
  "SMEMBERS, HKEYS, HVALS and HGETALL answer every member, field or value of the collection exactly once, and HGETALL and HRANDFIELD WITHVALUES each field directly before its own value. SINTER, SUNION and SDIFF answer, and their STORE forms store, exactly the members that set algebra gives (a missing key is an empty set; the first key is the one subtracted from; the destination may be one of the sources), each once. The other members and fields of a collection are untouched when some are added, set, moved or removed, a stored result never shares memory with a source, SPOP answers a member and removes exactly that one, and SRANDMEMBER and HRANDFIELD answer elements of the collection only.",
  ["inputs", "histories"], "all collections of any size and content, any number of sets, equal keys among them", "The tests use sets of two or three members and do not look at the others.",
  ["memdb/set_struct.go", "memdb/hash_struct.go", "memdb/set.go", "memdb/hash.go"], [("Union, Intersect, Difference, Members", "memdb/set_struct.go"), ("Keys, Values, Random", "memdb/hash_struct.go")], ["array replies, stored sets and hashes"],
  tech="abstract interpretation of the SSA form with a distinguished element (membership partitioning, positions in the zone domain)",
  note="One arbitrary element, different from every word of the request, is followed through maps, slices and loops on every path; whether and how often it is in the reply or in the stored collection is compared with set algebra. One to three (thorough: more) keys, collections of any size.")
NA = [
 ("C28", "KEYS answers exactly the live keys that match the glob pattern", "For every pattern and key name, KEYS answers the key exactly when the pattern, with *, ?, [...] and backslash as documented, matches the whole name, and each live matching key once.",
  ["inputs"], "all patterns and key names", ["util/util.go", "memdb/keys.go"],
  "Whether a hand-written backtracking matcher accepts exactly the language of the pattern depends on the contents of two strings of unbounded length compared position by position; no abstraction within reach relates them. (That the matcher cannot crash or read out of range is decided under C10, that expired keys are not listed under C05.)"),
 ("C29", "Arithmetic at the limits of 64-bit integers and of floating point", "INCR, DECR, INCRBY, DECRBY and HINCRBY answer an error instead of wrapping around at the limits of a 64-bit integer, and INCRBYFLOAT and HINCRBYFLOAT answer the nearest representable sum.",
  ["inputs"], "all pairs of stored number and step", ["memdb/strings.go", "memdb/hash_struct.go"],
  "The tree wraps around (a deviation from Redis, but no overflow check is documented here) and rounding is a matter of values, not of program structure; the linear relation between old value, step and reply is decided under C24."),
 ("C30", "Expired keys are discarded promptly", "A key is observed as expired within the second its time to live ends, and its memory is reclaimed eventually even if no command names it again.",
  ["schedules", "histories"], "all clocks and histories", ["memdb/memdb.go"],
  "Clock readings and elapsed time are runtime quantities; there is no active expiry in the code. The treatment of a key whose deadline has passed at the moment of the command is decided under C05."),
 ("C31", "Random choices are fair", "SPOP, SRANDMEMBER and HRANDFIELD choose every element with the same probability.",
  ["inputs"], "all collections", ["memdb/set_struct.go", "memdb/hash_struct.go"],
  "A statement about distributions; the source relies on map iteration order, whose distribution is the runtime's."),
 ("C32", "Every request is answered in bounded time and memory", "No request, pattern or history makes the server use time or memory out of proportion to the data it names.",
  ["inputs", "histories"], "all requests", ["util/util.go", "memdb/set_struct.go", "resp/parser.go"],
  "Cost bounds quantify over runtime sizes; only the size limits before allocations are decided, under C10."),
]
for i_, t_, s_, o_, x_, f_, n_ in NA:
    p(i_, t_, s_, o_, x_, "Needs all inputs.", f_, [("see files", f_[0])], ["replies"], claim=False, na=n_)
