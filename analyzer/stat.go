package main

import (
	"fmt"
	"os"
	"sort"
)

var statN = map[string]*[4]int{}

func statAdd(st *State, kind int) {
	if os.Getenv("GVSTAT") == "" {
		return
	}
	f := st.top()
	k := fmt.Sprintf("%s b%d.%d", f.fn.Name(), f.blk.Index, f.idx)
	s := statN[k]
	if s == nil {
		s = &[4]int{}
		statN[k] = s
	}
	s[kind]++
	s[3] += len(st.num.atoms)
}

func statDump() {
	var l []string
	for k := range statN {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { a, b := statN[l[i]], statN[l[j]]; return a[0]+a[1]+a[2] > b[0]+b[1]+b[2] })
	for i, k := range l {
		if i > 40 {
			break
		}
		s := statN[k]
		fmt.Printf("%-40s new=%d grew=%d dup=%d atoms=%d\n", k, s[0], s[1], s[2], s[3]/(s[0]+s[1]+s[2]))
	}
}
