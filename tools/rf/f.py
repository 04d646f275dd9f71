from lib import *
import sys
SS="memdb/set_struct.go"; HS="memdb/hash_struct.go"; S="memdb/set.go"; H="memdb/hash.go"
def body(f,fn,new):
    s=rd(f); i=s.index("func "+fn+"(")
    j=s.index("\n}",i)+2
    wr(f,s[:i]+new.strip("\n")+s[j:])
def F1():
    body(SS,"(s *Set) Members","""
func (s *Set) Members() []string {
	res := make([]string, len(s.table))
	i := 0
	for key := range s.table {
		res[i] = key
		i++
	}
	return res
}""")
    body(HS,"(h *Hash) Keys","""
func (h *Hash) Keys() []string {
	keys := make([]string, len(h.table))
	i := 0
	for key := range h.table {
		keys[i] = key
		i++
	}
	return keys
}""")
    body(HS,"(h *Hash) Values","""
func (h *Hash) Values() [][]byte {
	var res [][]byte
	for _, v := range h.table {
		res = append(res, v)
	}
	return res
}""")
    body(SS,"(s *Set) Intersect","""
func (s *Set) Intersect(sets ...*Set) *Set {
	res := NewSet()
	for key := range s.table {
		if inAll(key, sets) {
			res.table[key] = void{}
		}
	}
	return res
}

func inAll(key string, sets []*Set) bool {
	for _, other := range sets {
		if !other.Has(key) {
			return false
		}
	}
	return true
}""")
    body(SS,"(s *Set) Difference","""
func (s *Set) Difference(sets ...*Set) *Set {
	res := NewSet()
	for key := range s.table {
		found := false
		for i := 0; i < len(sets); i++ {
			if sets[i].Has(key) {
				found = true
				break
			}
		}
		if !found {
			res.Add(key)
		}
	}
	return res
}""")
    body(SS,"(s *Set) Union","""
func (s *Set) Union(sets ...*Set) *Set {
	res := s.Copy()
	for _, set := range sets {
		res.addAll(set)
	}
	return res
}

func (s *Set) Copy() *Set {
	res := NewSet()
	res.addAll(s)
	return res
}

func (s *Set) addAll(o *Set) {
	for key := range o.table {
		s.table[key] = void{}
	}
}""")
    go("F1")
def F2():
    # members helper in set.go, Sets gathered by a helper
    s=rd(S)
    s=re.sub(r'	var res \[\]resp\.RedisData\n	if len\(keys\) == 1 \{\n		members := s\.Members\(\)\n		for _, mem := range members \{\n			res = append\(res, resp\.NewBulkString\(\[\]byte\(mem\)\)\)\n		\}\n		return resp\.NewArray\(res\)\n	\}\n','	if len(keys) == 1 {\n		return memberReply(s)\n	}\n',s)
    s=re.sub(r'	for _, mem := range (\w+)\.Members\(\) \{\n		res = append\(res, resp\.NewBulkString\(\[\]byte\(mem\)\)\)\n	\}\n\n	return resp\.NewArray\(res\)\n',r'	return memberReply(\1)\n',s)
    s=re.sub(r'		members := s\.Members\(\)\n		for _, mem := range members \{\n			destSet\.Add\(mem\)\n		\}\n','		destSet = s.Union()\n',s)
    s=re.sub(r'	for _, mem := range (\w+)\.Members\(\) \{\n		destSet\.Add\(mem\)\n	\}\n',r'	destSet = \1\n',s)
    s+='''
func memberReply(s *Set) resp.RedisData {
	var res []resp.RedisData
	for _, mem := range s.Members() {
		res = append(res, resp.NewBulkString([]byte(mem)))
	}
	return resp.NewArray(res)
}
'''
    wr(S,s)
    go("F2")
def F3():
    # random without early break, hash copies by explicit index
    body(SS,"(s *Set) Random","""
func (s *Set) Random(count int) []string {
	if count == 0 || len(s.table) == 0 {
		return []string{}
	}
	if count > 0 {
		return s.distinct(count)
	}
	want := -count
	res := make([]string, 0, want)
	for len(res) < want {
		for key := range s.table {
			res = append(res, key)
			break
		}
	}
	return res
}

func (s *Set) distinct(count int) []string {
	if n := s.Len(); count > n {
		count = n
	}
	res := make([]string, 0, count)
	for key := range s.table {
		if len(res) == count {
			break
		}
		res = append(res, key)
	}
	return res
}""")
    body(SS,"(s *Set) Pop","""
func (s *Set) Pop() string {
	var picked string
	for key := range s.table {
		picked = key
		break
	}
	delete(s.table, picked)
	return picked
}""")
    body(SS,"(s *Set) Move","""
func (s *Set) Move(set *Set, key string) int {
	if s.Remove(key) == 0 {
		return 0
	}
	set.Add(key)
	return 1
}""")
    body(HS,"(h *Hash) RandomWithValue","""
func (h *Hash) RandomWithValue(count int) ([]string, [][]byte) {
	keys := h.Random(count)
	vals := make([][]byte, 0, len(keys))
	for _, key := range keys {
		vals = append(vals, h.table[key])
	}
	return keys, vals
}""")
    body(SS,"(s *Set) Intersect","""
func (s *Set) Intersect(sets ...*Set) *Set {
	all := append([]*Set{s}, sets...)
	small := all[0]
	for _, x := range all[1:] {
		if x.Len() < small.Len() {
			small = x
		}
	}
	res := NewSet()
	for key := range small.table {
		in := true
		for _, x := range all {
			if !x.Has(key) {
				in = false
				break
			}
		}
		if in {
			res.Add(key)
		}
	}
	return res
}""")
    body(SS,"(s *Set) Difference","""
func (s *Set) Difference(sets ...*Set) *Set {
	res := NewSet()
	other := NewSet().Union(sets...)
	for key := range s.table {
		if !other.Has(key) {
			res.Add(key)
		}
	}
	return res
}""")
    go("F3")
for n in sys.argv[1:] or ["F1","F2","F3"]:
    reset(); globals()[n]()
