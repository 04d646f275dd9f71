package main

import (
	"fmt"
	"strings"
)

// Prop says which obligations decide a property and on which entry points.
type Prop struct {
	sel  []string // PROP[/rule][@entry,entry|@multi]
	cmds string   // "*", "", "multi", "ro" or a list
	srv  []string
	var_ string // "all", "" general only, "exact"
	how  string
}

const howWit = "Abstract interpretation over the SSA form of every listed entry point with a distinguished element: one arbitrary element w of the collections, different from every word of the command, is followed through maps (whether each map holds w is part of the partitioned state; a loop over a map meets w exactly once when the map holds it throughout), through slices (in which order w and its value appear, and at which position, related to loop counters in a zone domain) and into the reply or the value stored; other elements are abstracted away, so collections of every size are covered. The membership of w in the result is compared with the one set algebra gives. Nothing is executed and no solver is used."

const howCmd = "Abstract interpretation over the SSA form of every listed entry point: a fixpoint with joins and widening over a domain of symbolic values, zone constraints on integers, per-key typestate (initial value, type, deadline, effect, critical section) and held locks, with all callees in the repository inlined and trace partitioning on the typestate. Each rule is an obligation on a program point or on the abstract state in which the entry point ends; a violation names the construct and the path of lock and store operations that leads to it. Nothing is executed and no solver is used."

var props = map[string]*Prop{
	"C01": {sel: []string{"C01", "C03@~cmd", "C14/segment-lock", "C14/separate-segment", "C03/separate-lock"}, cmds: "*", srv: []string{"locks", "ctors"}, var_: "all", how: howCmd},
	"C02": {sel: []string{"C02", "C01@multi", "C03@multi", "C04@multi"}, cmds: "multi", srv: []string{"locks"}, var_: "all", how: howCmd},
	"C03": {sel: []string{"C03", "C04/log-released"}, cmds: "*", srv: []string{"locks", "ctors", "logger"}, var_: "all", how: howCmd},
	"C05": {sel: []string{"C05", "C01/one-section", "C06/expired-deadline"}, cmds: "*", var_: "all", how: howCmd},
	"C06": {sel: []string{"C06", "C20/missing-deadline", "C05/expired-deadline"}, cmds: "*", var_: "all", how: howCmd},
	"C07": {sel: []string{"C07", "C21/vanish"}, cmds: "*", var_: "all", how: howCmd},
	"C08": {sel: []string{"C08", "C19/malformed-no-effect"}, cmds: "*", var_: "all", how: howCmd},
	"C09": {sel: []string{"C09"}, cmds: "*", var_: "all", how: howCmd},
	"C04": {sel: []string{"C04"}, cmds: "*", srv: []string{"handle", "locks", "ctors", "logger"}, var_: "all", how: howCmd},
	"C10": {sel: []string{"C10"}, cmds: "*", srv: []string{"handle", "parse", "fmt", "init", "ctors", "glob", "start", "config", "logger"}, var_: "all", how: howCmd},
	"C11": {sel: []string{"C11"}, srv: []string{"fmt"}, how: howCmd},
	"C12": {sel: []string{"C12"}, cmds: "*", srv: []string{"handle"}, var_: "all", how: howCmd},
	"C13": {sel: []string{"C13"}, srv: []string{"handle", "start", "ctors"}, how: howCmd},
	"C14": {sel: []string{"C14", "C01/value-lock", "C01/write-lock", "C01/key-lock"}, cmds: "*", srv: []string{"handle", "atomic", "ctors", "logger"}, var_: "all", how: howCmd},
	"C15": {sel: []string{"C15", "C27/request-words"}, srv: []string{"handle", "table", "fmt"}, how: howCmd},
	"C23": {sel: []string{"C23", "C10/close-twice", "C10/send-on-closed"}, srv: []string{"handle", "parse", "start"}, how: howCmd},
	"C16": {sel: []string{"C16"}, cmds: "ro", var_: "all", how: howCmd},
	"C18": {sel: []string{"C18"}, cmds: "*", srv: []string{"parse", "handle"}, var_: "all", how: howCmd},
	"C19": {sel: []string{"C19"}, cmds: "*", srv: []string{"handle"}, var_: "all", how: howCmd},
	"C20": {sel: []string{"C20", "C24/incr-reply", "C24/incr-step", "C24/added", "C19/refusal"}, cmds: "*", var_: "all", how: howCmd},
	"C17": {sel: []string{"C17", "C27/push", "C27/pop", "C27/lmove", "C27/lset", "C24/length", "C24/as-many", "C21/pop", "C21/linsert", "C21/lmove", "C21/lset"}, cmds: "*", srv: []string{"ctors"}, var_: "all", how: howCmd},
	"C21": {sel: []string{"C21", "C22/others", "C22/popped", "C22/alias", "C17/links", "C27/lmove", "C27/pop", "C24/smove", "C24/removed", "C16/read-only", "C06/absent-deadline"}, cmds: "*", srv: []string{"ctors"}, var_: "all", how: howCmd},
	"C22": {sel: []string{"C22", "C24/stored"}, cmds: "smembers,hkeys,hvals,hgetall,sinter,sunion,sdiff,sinterstore,sunionstore,sdiffstore,sadd,srem,smove,spop,srandmember,hset,hmset,hsetnx,hdel,hincrby,hincrbyfloat,hrandfield,scard,sismember,hget,hmget,hlen,hexists,hstrlen", var_: "witness", how: howWit},
	"C24": {sel: []string{"C24", "C21/smove", "C20/missing-reply", "C05/missing-reply"}, cmds: "*", var_: "all", how: howCmd},
	"C25": {sel: []string{"C25", "C10@config"}, srv: []string{"config", "start", "ctors"}, how: howCmd},
	"C26": {sel: []string{"C26", "C10@log.debug,log.info,log.warning,log.panic,log.error,log.init,logger"}, srv: []string{"logger"}, how: howCmd},
	"C27": {sel: []string{"C27", "C22/whole", "C18", "C23/verbatim", "C23/bulk-length", "C23/short-read", "C20/missing-reply", "C05/missing-reply"}, cmds: "*", srv: []string{"parse", "fmt"}, var_: "all", how: howCmd},
}

func (p *Prop) jobs(tier string) []Job {
	var l []Job
	for _, n := range sortedKeys(specs) {
		sp := specs[n]
		use := false
		switch p.cmds {
		case "*":
			use = true
		case "multi":
			use = sp.multi
		case "ro":
			use = sp.ro
		case "":
		default:
			use = strings.Contains(","+p.cmds+",", ","+n+",")
		}
		if !use {
			continue
		}
		vs := []string{""}
		if p.var_ == "witness" {
			vs = witVariants(n, tier)
			if sp.dest > 0 && sp.multi {
				vs = append(vs, variants(n, tier)...)
			}
			for _, v := range vs {
				l = append(l, Job{"cmd", n, v})
			}
			continue
		}
		if p.var_ == "all" || tier == "thorough" {
			vs = variants(n, tier)
		}
		for _, v := range vs {
			l = append(l, Job{"cmd", n, v})
		}
	}
	if p.var_ != "witness" && p.selects("C22/") {
		for _, j := range props["C22"].jobs(tier) {
			if strings.HasPrefix(j.Variant, "w,") {
				l = append(l, j)
			}
		}
	}
	for _, s := range p.srv {
		l = append(l, Job{"srv", s, ""})
	}
	return l
}

func (p *Prop) selects(prefix string) bool {
	for _, s := range p.sel {
		if strings.HasPrefix(s, prefix) {
			return true
		}
	}
	return false
}

func (p *Prop) match(prop, rule, root string) bool {
	for _, s := range p.sel {
		at := ""
		if i := strings.Index(s, "@"); i >= 0 {
			s, at = s[:i], s[i+1:]
		}
		if i := strings.Index(s, "/"); i >= 0 {
			if s[i+1:] != rule {
				continue
			}
			s = s[:i]
		}
		if s != prop {
			continue
		}
		switch at {
		case "":
			return true
		case "~cmd":
			if specs[root] != nil {
				return true
			}
		case "multi":
			if sp := specs[root]; sp != nil && sp.multi {
				return true
			}
		default:
			if strings.Contains(","+at+",", ","+root+",") {
				return true
			}
		}
	}
	return false
}

func ruleText(r string) string { return ruleTexts[r] }

func init() { _ = fmt.Sprint }
