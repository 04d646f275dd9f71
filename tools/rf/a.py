from lib import *
reset()
C=["memdb/%s.go"%x for x in("keys","strings","hash","list","set")]
for f in C:
    s=rd(f)
    s=s.replace('resp.NewSimpleError("wrong number of arguments for command")','errArity()')
    s=s.replace('resp.NewSimpleError("Operation against a key holding the wrong kind of value")','errType()')
    s=s.replace('resp.NewSimpleError("value is not an integer")','errInt()')
    s=s.replace('	db.locks.Lock(key)\n	defer db.locks.UnLock(key)\n','	defer db.lockKey(key)()\n')
    s=s.replace('	db.locks.RLock(key)\n	defer db.locks.RUnLock(key)\n','	unlock := db.rlockKey(key)\n	defer unlock()\n')
    # typed getters
    s=re.sub(r'	v, ok := db\.dict\.Get\(key\)\n	if !ok \{\n((?:		//.*\n)?)		return (.*)\n	\}\n\n(	// wrong type\n)?	(\w), ok := v\.\(\*(Hash|List|Set)\)\n	if !ok \{\n		return errType\(\)\n	\}\n',
      r'	\4, found, errReply := db.find\5(key)\n	if errReply != nil {\n		return errReply\n	}\n	if !found {\n		return \2\n	}\n',s)
    wr(f,s)
wr("memdb/helpers.go",'''package memdb

import "gRedis/resp"

func errArity() resp.RedisData { return resp.NewSimpleError("wrong number of arguments for command") }
func errType() resp.RedisData {
	return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
}
func errInt() resp.RedisData { return resp.NewSimpleError("value is not an integer") }

func (db *MemDb) lockKey(key string) func() {
	db.locks.Lock(key)
	return func() { db.locks.UnLock(key) }
}

func (db *MemDb) rlockKey(key string) func() {
	db.locks.RLock(key)
	return func() {
		db.locks.RUnLock(key)
	}
}

func (db *MemDb) findHash(key string) (*Hash, bool, resp.RedisData) {
	v, ok := db.dict.Get(key)
	if !ok {
		return nil, false, nil
	}
	if h, ok := v.(*Hash); ok {
		return h, true, nil
	}
	return nil, false, errType()
}

func (db *MemDb) findList(key string) (l *List, found bool, e resp.RedisData) {
	v, found := db.dict.Get(key)
	if found {
		var ok bool
		if l, ok = v.(*List); !ok {
			e = errType()
		}
	}
	return
}

func (db *MemDb) findSet(key string) (*Set, bool, resp.RedisData) {
	v, ok := db.dict.Get(key)
	if !ok {
		return nil, false, nil
	}
	switch s := v.(type) {
	case *Set:
		return s, true, nil
	default:
		return nil, true, errType()
	}
}
''')
go("A")
