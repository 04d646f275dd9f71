package main

import (
	"fmt"
	"sort"
)

func (s *State) dump() {
	for i, f := range s.frames {
		fmt.Printf("  frame %d %s b%d.%d peeled=%v\n", i, f.fn.Name(), f.blk.Index, f.idx, f.peeled)
		var l []string
		for k, v := range f.regs {
			l = append(l, fmt.Sprintf("     %s = %v", k.Name(), v))
		}
		sort.Strings(l)
		for _, x := range l {
			fmt.Println(x)
		}
	}
	pr := func(n string, l []string) {
		sort.Strings(l)
		for _, x := range l {
			fmt.Println("  ", n, x)
		}
	}
	var l []string
	for k, v := range s.heap {
		l = append(l, fmt.Sprintf("%v = %v", k, v))
	}
	pr("heap", l)
	l = nil
	for k, v := range s.facts {
		l = append(l, fmt.Sprintf("%v = %v", k, v))
	}
	pr("fact", l)
	l = nil
	for k, v := range s.slices {
		l = append(l, fmt.Sprintf("%v = %v", k, *v))
	}
	pr("slice", l)
	l = nil
	for k, v := range s.origin {
		l = append(l, fmt.Sprintf("%v = %v", k, v))
	}
	pr("origin", l)
	l = nil
	for k, v := range s.mem {
		l = append(l, fmt.Sprintf("%v = %v %v", k, v.present, v.val))
	}
	pr("mem", l)
	l = nil
	for k, v := range s.keys {
		l = append(l, fmt.Sprintf("%v = %v", k, v.sig()))
	}
	pr("key", l)
	l = nil
	for k := range s.arch {
		l = append(l, k)
	}
	for k := range s.checked {
		l = append(l, k.String())
	}
	pr("arch", l)
	for _, h := range s.held {
		fmt.Println("   held", h.lock, string(h.mode), h.cls)
	}
	fmt.Println("   num", s.num)
}
