package main

import "fmt"

// CmdSpec states what the users of one command rely on.
type CmdSpec struct {
	min, max int  // accepted number of words, command name included; max<0: unbounded
	par      int8 // required parity of the number of words, -1 none
	keys     func(n int) []int
	role     byte   // r read, w read-modify-write, o overwrite, d delete, - none, ? special
	typ      string // data type the command works on
	ro       bool
	miss     string // reply for a missing key: nilbulk int:0 empty arr0 err str:none create
	errOK    bool   // may refuse an option or a range
	multi    bool   // several keys in one atomic step
	dest     int    // position of a destination key (overwritten), 0 none
	exact    []int  // word counts analysed with every loop over the words unrolled
	alias    [][2]int
	post     func(c *Ck, scen map[int]byte)
}

func at1(n int) []int  { return []int{1} }
func at12(n int) []int { return []int{1, 2} }
func from1(n int) []int {
	var l []int
	for i := 1; i < n; i++ {
		l = append(l, i)
	}
	return l
}
func odd1(n int) []int {
	var l []int
	for i := 1; i < n; i += 2 {
		l = append(l, i)
	}
	return l
}
func none(n int) []int { return nil }

var specs = map[string]*CmdSpec{
	// keys
	"ping":    {min: 1, max: 2, par: -1, keys: none, role: '-', ro: true, post: postPing, exact: []int{1, 2}},
	"del":     {min: 2, max: -1, par: -1, keys: from1, role: 'd', post: postDel, exact: []int{2, 3}},
	"exists":  {min: 2, max: -1, par: -1, keys: from1, role: 'r', ro: true, post: postExists, exact: []int{2, 3}},
	"keys":    {min: 2, max: 2, par: -1, keys: none, role: '-', ro: true},
	"expire":  {min: 3, max: 4, par: -1, keys: at1, role: '?', miss: "int:0", errOK: true, post: postExpire, exact: []int{3, 4}},
	"persist": {min: 2, max: 2, par: -1, keys: at1, role: '?', miss: "int:0", post: postPersist},
	"ttl":     {min: 2, max: 2, par: -1, keys: at1, role: 'r', ro: true, miss: "int:-2", post: postTTL},
	"rename":  {min: 3, max: 3, par: -1, keys: at12, role: '?', miss: "err", multi: true, dest: 2, post: postRename, alias: [][2]int{{1, 2}}},
	"type":    {min: 2, max: 2, par: -1, keys: at1, role: 'r', ro: true, miss: "str:none", post: postType},
	// strings
	"set":         {min: 3, max: -1, par: -1, keys: at1, role: '?', errOK: true, post: postSet, exact: []int{3, 4, 5, 6}},
	"get":         {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "str", ro: true, miss: "nilbulk", post: postGet},
	"getrange":    {min: 4, max: 4, par: -1, keys: at1, role: 'r', typ: "str", ro: true, miss: "empty", post: postGetRange},
	"setrange":    {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", errOK: true, post: postSetRange},
	"mget":        {min: 2, max: -1, par: -1, keys: from1, role: 'r', ro: true, post: postMGet, exact: []int{2, 3}},
	"mset":        {min: 3, max: -1, par: 1, keys: odd1, role: 'o', multi: true, post: postMSet, exact: []int{3, 5}},
	"setex":       {min: 4, max: 4, par: -1, keys: at1, role: '?', post: postSetEx},
	"setnx":       {min: 3, max: 3, par: -1, keys: at1, role: '?', miss: "create", post: postSetNx},
	"strlen":      {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "str", ro: true, miss: "int:0", post: postStrLen},
	"incr":        {min: 2, max: 2, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postIncr},
	"incrby":      {min: 3, max: 3, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postIncr},
	"decr":        {min: 2, max: 2, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postIncr},
	"decrby":      {min: 3, max: 3, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postIncr},
	"incrbyfloat": {min: 3, max: 3, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postIncr},
	"append":      {min: 3, max: 3, par: -1, keys: at1, role: 'w', typ: "str", miss: "create", post: postAppend},
	// hashes
	"hdel":         {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "hash", miss: "int:0", post: postMapDel, exact: []int{3, 4}},
	"hexists":      {min: 3, max: 3, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "int:0", post: postMapHas},
	"hget":         {min: 3, max: 3, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "nilbulk", post: postHGet},
	"hgetall":      {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "arr0"},
	"hincrby":      {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "hash", miss: "create", post: postHIncr},
	"hincrbyfloat": {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "hash", miss: "create", post: postHIncr},
	"hkeys":        {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "arr0"},
	"hlen":         {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "int:0", post: postMapLen},
	"hmget":        {min: 3, max: -1, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, post: postHMGet, exact: []int{3, 4}},
	"hmset":        {min: 4, max: -1, par: 0, keys: at1, role: 'w', typ: "hash", miss: "create", post: postHSet, exact: []int{4, 6}},
	"hset":         {min: 4, max: -1, par: 0, keys: at1, role: 'w', typ: "hash", miss: "create", post: postHSet, exact: []int{4, 6}},
	"hsetnx":       {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "hash", miss: "create", post: postHSetNx},
	"hvals":        {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "arr0"},
	"hstrlen":      {min: 3, max: 3, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "int:0", post: postHStrLen},
	"hrandfield":   {min: 2, max: 4, par: -1, keys: at1, role: 'r', typ: "hash", ro: true, miss: "nothing", errOK: true, exact: []int{2, 3, 4}},
	// lists
	"lindex":  {min: 3, max: 3, par: -1, keys: at1, role: 'r', typ: "list", ro: true, miss: "nilbulk", post: postLIndex},
	"linsert": {min: 5, max: 5, par: -1, keys: at1, role: 'w', typ: "list", miss: "int:0", errOK: true, post: postLInsert},
	"llen":    {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "list", ro: true, miss: "int:0", post: postLLen},
	"lmove":   {min: 5, max: 5, par: -1, keys: at12, role: '?', typ: "list", miss: "nilbulk", errOK: true, multi: true, post: postLMove, alias: [][2]int{{1, 2}}},
	"lpop":    {min: 2, max: 3, par: -1, keys: at1, role: 'w', typ: "list", miss: "nothing", errOK: true, post: postLPop, exact: []int{2, 3}},
	"lpos":    {min: 3, max: -1, par: 1, keys: at1, role: 'r', typ: "list", ro: true, miss: "nothing", errOK: true, post: postLPos, exact: []int{3, 5}},
	"lpush":   {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "list", miss: "create", post: postPush, exact: []int{3, 4}},
	"lpushx":  {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "list", miss: "int:0", post: postPush, exact: []int{3, 4}},
	"lrange":  {min: 4, max: 4, par: -1, keys: at1, role: 'r', typ: "list", ro: true, miss: "nothing", post: postLRange},
	"lrem":    {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "list", miss: "int:0", post: postLRem},
	"lset":    {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "list", miss: "err", errOK: true, post: postLSet},
	"ltrim":   {min: 4, max: 4, par: -1, keys: at1, role: 'w', typ: "list", miss: "err", post: postLTrim},
	"rpop":    {min: 2, max: 3, par: -1, keys: at1, role: 'w', typ: "list", miss: "nothing", errOK: true, post: postLPop, exact: []int{2, 3}},
	"rpush":   {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "list", miss: "create", post: postPush, exact: []int{3, 4}},
	"rpushx":  {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "list", miss: "int:0", post: postPush, exact: []int{3, 4}},
	// sets
	"sadd":        {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "set", miss: "create", post: postSAdd, exact: []int{3, 4}},
	"scard":       {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "set", ro: true, miss: "int:0", post: postMapLen},
	"sdiff":       {min: 2, max: -1, par: -1, keys: from1, role: 'r', typ: "set", ro: true, multi: true, exact: []int{2, 3, 4}},
	"sdiffstore":  {min: 3, max: -1, par: -1, keys: from1, role: '?', typ: "set", multi: true, dest: 1, post: postStore, exact: []int{3, 4, 5}, alias: [][2]int{{1, 2}, {1, 3}}},
	"sinter":      {min: 2, max: -1, par: -1, keys: from1, role: 'r', typ: "set", ro: true, multi: true, exact: []int{2, 3, 4}},
	"sinterstore": {min: 3, max: -1, par: -1, keys: from1, role: '?', typ: "set", multi: true, dest: 1, post: postStore, exact: []int{3, 4, 5}, alias: [][2]int{{1, 2}, {1, 3}}},
	"sismember":   {min: 3, max: 3, par: -1, keys: at1, role: 'r', typ: "set", ro: true, miss: "int:0", post: postMapHas},
	"smembers":    {min: 2, max: 2, par: -1, keys: at1, role: 'r', typ: "set", ro: true, miss: "nothing"},
	"smove":       {min: 4, max: 4, par: -1, keys: at12, role: '?', typ: "set", miss: "int:0", multi: true, post: postSMove, alias: [][2]int{{1, 2}}},
	"spop":        {min: 2, max: 3, par: -1, keys: at1, role: 'w', typ: "set", miss: "nothing", errOK: true, post: postSPop, exact: []int{2, 3}},
	"srandmember": {min: 2, max: 3, par: -1, keys: at1, role: 'r', typ: "set", ro: true, miss: "nothing", errOK: true, exact: []int{2, 3}},
	"srem":        {min: 3, max: -1, par: -1, keys: at1, role: 'w', typ: "set", miss: "int:0", post: postMapDel, exact: []int{3, 4}},
	"sunion":      {min: 2, max: -1, par: -1, keys: from1, role: 'r', typ: "set", ro: true, multi: true, exact: []int{2, 3, 4}},
	"sunionstore": {min: 3, max: -1, par: -1, keys: from1, role: '?', typ: "set", multi: true, dest: 1, post: postStore, exact: []int{3, 4, 5}, alias: [][2]int{{1, 2}, {1, 3}}},
}

// variants lists the analyses made of one command.
func variants(name, tier string) []string {
	l := []string{"", "race"}
	sp := specs[name]
	if sp == nil {
		return l
	}
	for _, n := range sp.exact {
		if sp.multi && sp.typ == "set" && n > 4 && tier != "thorough" {
			continue // the number of situations grows too fast
		}
		l = append(l, fmt.Sprintf("n=%d", n))
	}
	for _, al := range sp.alias {
		n := sp.min
		if al[1] >= n {
			n = al[1] + 1
		}
		l = append(l, fmt.Sprintf("n=%d,alias=%d:%d", n, al[0], al[1]))
	}
	return l
}

// witVariants lists the witness analyses made of one command.
func witVariants(name, tier string) []string {
	sp := specs[name]
	ns := sp.exact
	if len(ns) == 0 {
		ns = []int{sp.min}
	}
	var l []string
	for _, n := range ns {
		l = append(l, fmt.Sprintf("w,n=%d", n))
	}
	for _, al := range sp.alias {
		n := sp.min
		if al[1] >= n {
			n = al[1] + 1
		}
		l = append(l, fmt.Sprintf("w,n=%d,alias=%d:%d", n, al[0], al[1]))
	}
	return l
}
