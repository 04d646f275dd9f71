from lib import *
HA="memdb/hash.go"; HS="memdb/hash_struct.go"; SE="memdb/set.go"; SS="memdb/set_struct.go"
bug("c22a-inter-first-hit","C22",(SS,"(s *Set) Intersect","\t\t\tif !set.Has(key) {\n\t\t\t\tres.Remove(key)\n\t\t\t}","\t\t\tif !set.Has(key) {\n\t\t\t\tres.Remove(key)\n\t\t\t\tif res.Len() == 1 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}"))
bug("c22b-inter-skip-last","C22",(SS,"(s *Set) Intersect","for _, set := range sets {","for i, set := range sets {\n\t\tif i > 0 && i == len(sets)-1 {\n\t\t\tbreak\n\t\t}"))
bug("c22c-union-skip-empty-string","C22",(SS,"(s *Set) Union","for key := range set.table {\n\t\t\tres.Add(key)","for key := range set.table {\n\t\t\tif key == \"\" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tres.Add(key)"))
bug("c22d-diff-small","C22",(SS,"(s *Set) Difference","for key := range set.table {\n\t\t\tres.Remove(key)\n\t\t}","if set.Len() > res.Len() {\n\t\t\tcontinue\n\t\t}\n\t\tfor key := range set.table {\n\t\t\tres.Remove(key)\n\t\t}"))
bug("c22e-diff-in-place","C22",(SS,"(s *Set) Difference","res := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}","res := &Set{table: s.table}"))
bug("c22f-smembers-skip-empty","C22",(SE,"sMembersSet","for _, mem := range members {","for _, mem := range members {\n\t\tif len(mem) == 0 {\n\t\t\tcontinue\n\t\t}"))
bug("c22g-hkeys-cap","C22",(HA,"hKeysHash","for _, key := range keys {","for _, key := range keys {\n\t\tif len(res) >= 1024 {\n\t\t\tbreak\n\t\t}"))
bug("c22h-hvals-dedupe","C22",(HS,"(h *Hash) Values","for _, val := range h.table {\n\t\tres = append(res, val)","seen := make(map[string]bool)\n\tfor _, val := range h.table {\n\t\tif seen[string(val)] {\n\t\t\tcontinue\n\t\t}\n\t\tseen[string(val)] = true\n\t\tres = append(res, val)"))
bug("c22i-hgetall-skip-emptyval","C22",(HA,"hGetAllHash","for k, v := range h.table {","for k, v := range h.table {\n\t\tif len(v) == 0 {\n\t\t\tcontinue\n\t\t}"))
bug("c22j-hgetall-order","C22",(HA,"hGetAllHash","\t\tres = append(res, resp.NewBulkString([]byte(k)))\n\t\tres = append(res, resp.NewBulkString(v))","\t\tif len(v) > 64 {\n\t\t\tres = append(res, resp.NewBulkString(v))\n\t\t\tres = append(res, resp.NewBulkString([]byte(k)))\n\t\t\tcontinue\n\t\t}\n\t\tres = append(res, resp.NewBulkString([]byte(k)))\n\t\tres = append(res, resp.NewBulkString(v))"))
bug("c22k-members-off-by-one","C22",(SE,"sMembersSet","for _, mem := range members {\n\t\tres = append(res, resp.NewBulkString([]byte(mem)))","for i := 0; i+1 < len(members) || i == 0; i++ {\n\t\tmem := members[i]\n\t\tres = append(res, resp.NewBulkString([]byte(mem)))"))
bug("c22l-store-missing-source","C22",(SE,"sInterStoreSet","\tinter := s.Intersect(sets...)","\tif len(sets) > 1 {\n\t\tsets = sets[:len(sets)-1]\n\t}\n\tinter := s.Intersect(sets...)"))
bug("c22m-sdiff-missing-first","C22",(SE,"sDiffSet","sets = append(sets, set)","if set.Len() == 0 {\n\t\t\tbreak\n\t\t}\n\t\tsets = append(sets, set)"))
bug("c22n-sunion-dup-reply","C22",(SE,"sUnionSet","\tfor _, mem := range union.Members() {\n\t\tres = append(res, resp.NewBulkString([]byte(mem)))\n\t}","\tfor _, mem := range s.Members() {\n\t\tres = append(res, resp.NewBulkString([]byte(mem)))\n\t}\n\tfor _, mem := range union.Members() {\n\t\tif len(mem) > 0 && s.Has(mem) && len(sets) == 1 {\n\t\t\tcontinue\n\t\t}\n\t\tif s.Has(mem) && len(mem) > 0 {\n\t\t\tcontinue\n\t\t}\n\t\tres = append(res, resp.NewBulkString([]byte(mem)))\n\t}"))
bug("c22o-sadd-evict","C22",(SS,"(s *Set) Add","\ts.table[key] = void{}","\tif len(s.table) >= 65536 {\n\t\tfor k := range s.table {\n\t\t\tdelete(s.table, k)\n\t\t\tbreak\n\t\t}\n\t}\n\ts.table[key] = void{}"))
bug("c22p-hset-realloc","C22",(HS,"(h *Hash) Set","h.table[key] = v","if len(h.table) == 1024 {\n\t\tt := make(map[string][]byte, 2048)\n\t\tfor k, x := range h.table {\n\t\t\tif len(x) > 0 {\n\t\t\t\tt[k] = x\n\t\t\t}\n\t\t}\n\t\th.table = t\n\t}\n\th.table[key] = v"))
bug("c22q-union-primary-shares","C22",(SS,"(s *Set) Union","res := &Set{table: make(map[string]void)}\n\tfor key := range s.table {\n\t\tres.Add(key)\n\t}","res := &Set{table: make(map[string]void)}\n\tif s.Len() < 4096 {\n\t\tfor key := range s.table {\n\t\t\tres.Add(key)\n\t\t}\n\t}"))
bug("c22r-random-dup","C22",(SS,"(s *Set) Random","\t\tfor key := range s.table {\n\t\t\t// If the provided count argument is positive","\t\tfor key := range s.table {\n\t\t\tif len(res) == 0 && count > 2 {\n\t\t\t\tres = append(res, key)\n\t\t\t}\n\t\t\t// If the provided count argument is positive"))
bug("c22s-spop-members","C22",(SE,"sPopSet","Pop()","Members()[0]"))
bug("c22t-hdel-prefix","C22",(HS,"(h *Hash) Del","delete(h.table, key)","for k := range h.table {\n\t\tif strings.EqualFold(k, key) {\n\t\t\tdelete(h.table, k)\n\t\t}\n\t}"),(HS,"+imp","strings",""))
bug("c22u-isect-swap","C22",(SS,"(s *Set) Intersect","for key := range s.table {\n\t\tres.Add(key)","base := s\n\tfor _, set := range sets {\n\t\tif set.Len() < base.Len() {\n\t\t\tbase = set\n\t\t}\n\t}\n\tfor key := range base.table {\n\t\tres.Add(key)"))
bug("c22v-smembers-expired-w","C22",(SS,"(s *Set) Members","for key := range s.table {","for key := range s.table {\n\t\tif len(res) == cap(res) && len(res) > 128 {\n\t\t\tbreak\n\t\t}"))
bug("c22w-sdiffstore-dest","C22",(SE,"sDiffStoreSet","\tdiff := s.Difference(sets...)","\tif len(sets) == 0 {\n\t\tsets = append(sets, s)\n\t}\n\tdiff := s.Difference(sets...)"))
bug("c22x-hrand-withvalues","C22",(HA,"hRandFieldHash","NewBulkString(vals[i])","NewBulkString(vals[0])"))
main()
