from lib import *
import sys
SE="memdb/set.go"; LK="memdb/locks.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"(")
    j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
LOOP='''	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		_set, ok := db.dict.Get(key)
		var set *Set
		if ok {
			set, ok = _set.(*Set)
			if !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		} else {
			// Keys that do not exist are considered to be empty sets.
			set = NewSet()
		}
		sets = append(sets, set)
	}
'''
def H1():
    sub(SE,LOOP,'''	for _, key := range keys[1:] {
		if v, ok := db.dict.Get(key); ok {
			if _, ok := v.(*Set); !ok {
				return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
			}
		}
	}
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		v, _ := db.dict.Get(key)
		set, ok := v.(*Set)
		if !ok {
			set = NewSet()
		}
		sets = append(sets, set)
	}
''')
    go("H1")
def H2():
    sub(SE,LOOP,'''	wrong := false
	sets := make([]*Set, 0, len(keys)-1)
	for _, key := range keys[1:] {
		set := NewSet()
		if v, ok := db.dict.Get(key); ok {
			s, isSet := v.(*Set)
			if !isSet {
				wrong = true
				continue
			}
			set = s
		}
		sets = append(sets, set)
	}
	if wrong {
		return resp.NewSimpleError("Operation against a key holding the wrong kind of value")
	}
''')
    go("H2")
def H3():
    body(LK,"(m *LocksManager) MLock","""
func (m *LocksManager) MLock(keys []string) {
	if len(keys) == 2 {
		p, q := m.GetKeyPos(keys[0]), m.GetKeyPos(keys[1])
		switch {
		case p < q:
			m.locks[p].Lock()
			m.locks[q].Lock()
		case q < p:
			m.locks[q].Lock()
			m.locks[p].Lock()
		default:
			m.locks[p].Lock()
		}
		return
	}
	for _, pos := range m.getSortedLocks(keys) {
		m.locks[pos].Lock()
	}
}""")
    body(LK,"(m *LocksManager) MUnLock","""
func (m *LocksManager) MUnLock(keys []string) {
	if len(keys) == 2 {
		p, q := m.GetKeyPos(keys[0]), m.GetKeyPos(keys[1])
		m.locks[p].Unlock()
		if p != q {
			m.locks[q].Unlock()
		}
		return
	}
	for _, pos := range m.getSortedLocks(keys) {
		m.locks[pos].Unlock()
	}
}""")
    body(LK,"(m *LocksManager) MRLock","""
func (m *LocksManager) MRLock(keys []string) {
	if len(keys) == 2 {
		p, q := m.GetKeyPos(keys[0]), m.GetKeyPos(keys[1])
		if p > q {
			p, q = q, p
		}
		m.locks[p].RLock()
		if q != p {
			m.locks[q].RLock()
		}
		return
	}
	for _, pos := range m.getSortedLocks(keys) {
		m.locks[pos].RLock()
	}
}""")
    go("H3")
for n in sys.argv[1:] or ["H1","H2","H3"]:
    reset(); globals()[n]()
