package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// confRules follows the reading of the configuration.
type confRules struct {
	a *Analysis
	P *Program
}

var confNames = map[string]string{"host": "Host", "port": "Port", "logdir": "LogDir", "loglevel": "LogLevel", "segnum": "SegNum", "dbnum": "DbNum", "config": "ConfigFile"}

func confField(ad T) string {
	if ad.op == OFA && ad.args[0].typ != nil && namedOf(ad.args[0].typ) == modPath+"/config.Config" {
		return fieldName(ad)
	}
	return ""
}

func (h *confRules) ext(st *State, at ssa.Instruction, name string, args []T) {
	a := h.a
	if name == "(*bufio.Scanner).Scan" || name == "(*bufio.Scanner).Text" || strings.HasPrefix(name, "strings.Fields") || strings.HasPrefix(name, "strings.Split") {
		clearDir(st)
		return
	}
	if !strings.HasPrefix(name, "flag.") && !strings.HasPrefix(name, "(*flag.FlagSet)") {
		return
	}
	n := name[strings.LastIndex(name, ".")+1:]
	if strings.HasPrefix(name, "(*") && len(args) > 0 {
		args = args[1:]
	}
	switch n {
	case "Parse":
		a.rep.obl("C25", st, at, "file-wins", !st.flags["fileread"], "the command line is applied after the configuration file")
		st.flags["parsed"] = true
	}
	switch n {
	case "StringVar", "IntVar", "Int64Var", "UintVar":
		if len(args) < 3 {
			return
		}
		f := confField(args[0])
		a.rep.obl("C25", st, at, "flag-defined", f == "" || !st.flags["parsed"], "a flag is defined after the command line was read")
		if s, ok := args[1].constStr(); ok && f != "" {
			if want, ok := confNames[s]; ok {
				a.rep.obl("C25", st, at, "flag-field", want == f, "flag -"+s+" sets "+f)
			}
			def := map[string]string{"host": `"127.0.0.1"`, "port": "6379", "logdir": `"./"`, "loglevel": `"info"`, "segnum": "100", "dbnum": "16"}[s]
			if args[2].isConst() && def != "" {
				got := args[2].String()
				if cs, ok := args[2].constStr(); ok {
					got = `"` + cs + `"`
				}
				a.rep.obl("C25", st, at, "flag-default", got == def, "the default of -"+s+" is "+got+", documented is "+def)
			}
		}
		et := addrElemType(args[0])
		if et != nil {
			v := a.sym(st, at, "flag", et)
			if isInt(et) {
				a.ensure(st, v)
			}
			st.heap[args[0]] = v
		}
	}
}

func (h *confRules) read(st *State, at ssa.Instruction, name string, args []T) {
	h.a.rep.obl("C25", st, at, "reading-ends", !st.flags["readerr"], "the file is read again after its end or after an error: start-up never ends")
	clearDir(st)
	st.flags["fileread"] = true
	if strings.HasSuffix(name, ".ReadString") || strings.HasSuffix(name, ".ReadBytes") {
		st.flags["line"] = true
	}
}

// looked: the line read last is examined.
func looked(st *State, c T) {
	if st.flags["line"] && anyTerm(c, func(t T) bool {
		if t.op != OSym && t.op != OStar {
			return false
		}
		s, ok := t.aux.(*Site)
		return ok && (s.tag == "read0" || s.tag == "split")
	}) {
		delete(st.flags, "line")
	}
}

func anyTerm(t T, f func(T) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, x := range t.args {
		if anyTerm(x, f) {
			return true
		}
	}
	return false
}

// num: comparisons with the number of words on a line.
func (h *confRules) num(st *State, c T) {
	looked(st, c)
	if c.op != OBin {
		return
	}
	for _, x := range c.args {
		if x.op != OLen || len(x.args) != 1 || x.args[0].op != OSym {
			continue
		}
		if s, ok := x.args[0].aux.(*Site); ok && s.tag == "split" {
			if lo, hi := h.a.bounds(st, x); lo == 1 && hi == 1 {
				st.flags["novalue"] = true
			}
		}
	}
}

// clearDir: another line is looked at.
func clearDir(st *State) {
	for f := range st.flags {
		if strings.HasPrefix(f, "dir:") || f == "ipok" || f == "numok" {
			delete(st.flags, f)
		}
	}
}

// firstWord: the name of the directive on a line, and whether its case was folded.
func firstWord(t T) (fold, ok bool) {
	for i := 0; t != nil && i < 6; i++ {
		switch {
		case t.op == OCall && (t.aux == "strings.ToLower" || t.aux == "strings.ToUpper"):
			fold = true
			t = t.args[0]
		case t.op == OCall && strings.HasPrefix(t.aux.(string), "strings.Trim"):
			t = t.args[0]
		case t.op == OLd && t.args[0].op == OIA:
			i, isC := t.args[0].args[1].constInt()
			return fold, isC && i == 0
		default:
			return fold, false
		}
	}
	return fold, false
}

func (h *confRules) fact(st *State, c T, truth bool) {
	looked(st, c)
	if c.op == OCall {
		if n, _ := c.aux.(string); truth && len(c.args) > 0 {
			switch n {
			case "os.IsNotExist", "os.IsPermission", "os.IsTimeout":
				st.flags["failed"] = true
			case "errors.Is":
				if isReadErr(c.args[0]) {
					st.flags["readerr"] = true
				} else {
					st.flags["failed"] = true
				}
			}
		}
		if n, _ := c.aux.(string); n == "strings.EqualFold" && truth {
			for i := 0; i < 2; i++ {
				if s, ok := c.args[i].constStr(); ok {
					if _, isD := confNames[strings.ToLower(s)]; isD {
						clearDir(st)
						st.flags["dir:"+strings.ToLower(s)] = true
					}
				}
			}
		}
		return
	}
	if c.op != OBin || c.aux != "==" {
		return
	}
	l, r := c.args[0], c.args[1]
	if l.isConst() {
		l, r = r, l
	}
	if isParseErrFact(c) && truth {
		st.flags["numok"] = true
		delete(st.flags, "unchecked")
	}
	if s, ok := r.constStr(); ok {
		d := strings.ToLower(s)
		if _, isD := confNames[d]; isD {
			if fold, ok := firstWord(l); ok && !truth {
				delete(st.flags, "dir:"+d)
			} else if ok {
				clearDir(st)
				st.flags["dir:"+d] = true
				if !fold {
					st.flags["dircase"] = true
				}
			}
		}
	}
	isErr := l.typ != nil && l.typ.String() == "error"
	switch {
	case r.isNil() && !truth && isReadErr(l):
		st.flags["readerr"] = true
		st.flags["failed"] = true
	case !r.isNil() && truth && (isReadErr(l) || isReadErr(r)):
		delete(st.flags, "failed") // io.EOF is not a failure
	case r.isNil() && !truth && isErr:
		st.flags["failed"] = true
	case r.isNil() && truth && l.op == OCall && l.aux == "net.ParseIP":
		st.flags["badhost"] = true
	case r.isNil() && !truth && l.op == OCall && l.aux == "net.ParseIP":
		st.flags["ipok"], st.flags["hostok"] = true, true
	}
}

func (h *confRules) field(st *State, at ssa.Instruction, addr T, write bool) {
	a := h.a
	f := confField(addr)
	if f == "" || !write {
		return
	}
	r := a.rootOf(st, addr)
	if r != nil && r.op == OObj && !st.flags["reading"] && !h.anyDir(st) {
		return // the literal with the defaults
	}
	for d, want := range confNames {
		if st.flags["dir:"+d] {
			a.rep.obl("C25", st, at, "directive-field", want == f, "directive "+d+" sets "+f)
			if st.flags["dircase"] {
				a.rep.obl("C25", st, at, "directive-case", false, "directive names in another case are ignored")
			}
			if v := a.storing; v != nil {
				if v.op == OCall && isParsed(v.aux.(string)) && !st.flags["numok"] {
					st.flags["unchecked"] = true
				}
				if p := uncast(v); p.op == OCall && strings.HasPrefix(p.aux.(string), "strconv.Parse") && len(p.args) == 3 {
					b, okb := p.args[1].constInt()
					bits, oks := p.args[2].constInt()
					a.rep.obl("C25", st, at, "directive-value", !okb || b == 10, "directive "+d+" does not take decimal numbers")
					a.rep.obl("C25", st, at, "directive-value", !oks || bits == 0 || bits >= 16, "directive "+d+" refuses ordinary numbers")
				}
				if x := wordTerm(v); x != nil && !x.isConst() && x.op == OBin {
					if lo, hi := a.bounds(st, x); lo >= 1 {
						a.rep.obl("C25", st, at, "directive-value", hi == 1, "directive "+d+" may take another word than the one after it")
					}
				}
				if i, ok := wordIndex(v); ok {
					a.rep.obl("C25", st, at, "directive-value", i == 1, "directive "+d+" takes another word than the one after it")
				} else if v.isConst() {
					a.rep.obl("C25", st, at, "directive-value", false, "directive "+d+" ignores its value")
				}
			}
			if d == "host" {
				a.rep.obl("C25", st, at, "host-checked", st.flags["hostok"], "a host that is no address is accepted")
			}
		}
	}
}

func (h *confRules) anyDir(st *State) bool {
	for f := range st.flags {
		if strings.HasPrefix(f, "dir:") {
			return true
		}
	}
	return false
}

func isParsed(n string) bool {
	return strings.HasPrefix(n, "strconv.Atoi#0") || strings.HasPrefix(n, "strconv.Parse")
}

// wordIndex: the word of the line a value comes from.
func wordIndex(t T) (int64, bool) {
	if x := wordTerm(t); x != nil {
		return x.constInt()
	}
	return 0, false
}

func wordTerm(t T) T {
	for i := 0; t != nil && i < 8; i++ {
		switch t.op {
		case OCall, OConv, OCast:
			if len(t.args) == 0 {
				return nil
			}
			t = t.args[0]
		case OLd:
			if t.args[0].op == OIA {
				return t.args[0].args[1]
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func (h *confRules) finish(o *Outcome, at *ssa.Return) {
	a, st := h.a, o.st
	if len(o.ret) == 0 {
		return
	}
	e := o.ret[len(o.ret)-1]
	if e.typ != nil && e.typ.String() != "error" && !e.isNil() && e.op != OIface {
		return
	}
	good := e.isNil()
	if good {
		a.rep.obl("C25", st, at, "errors-reported", !st.flags["badarg"], "a value that is no number is accepted")
		a.rep.obl("C25", st, at, "errors-reported", !st.flags["unchecked"], "a value that may be no number is accepted")
		a.rep.obl("C25", st, at, "errors-reported", !st.flags["failed"], "a failure to read the configuration is not reported")
		a.rep.obl("C25", st, at, "errors-reported", !st.flags["badhost"], "a host that is no address is not reported")
		a.rep.obl("C25", st, at, "errors-reported", !st.flags["novalue"], "a directive without a value is not reported")
		a.rep.obl("C25", st, at, "read-to-end", !st.flags["line"], "the last line of the file is read and not looked at")
	}
	if !good || len(o.ret) != 2 {
		return
	}
	p := o.ret[0]
	if p.isNil() {
		a.rep.obl("C25", st, at, "configured", false, "neither a configuration nor an error is returned")
		return
	}
	a.rep.obl("C25", st, at, "host-checked", st.flags["hostok"], "a host that is no address is accepted")
	a.rep.obl("C25", st, at, "command-line", st.flags["parsed"], "the command line is not read")
	pt, ok := typUnder(p).(*types.Pointer)
	if !ok {
		return
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if n != "SegNum" && n != "DbNum" {
			continue
		}
		v := a.loadRaw(st, mk(OFA, i, types.NewPointer(s.Field(i).Type()), p), s.Field(i).Type())
		a.ensure(st, v)
		a.rep.obl("C25", st, at, "positive", st.num.provesLE(mkInt(1), v, 0), n+" may be zero or negative: the server crashes on its first command")
	}
	// what the other packages use
	if g := h.confGlobal(); g != nil {
		v := st.heap[g]
		if v != nil {
			a.rep.obl("C25", st, at, "published", v == p, "the configuration in use is not the one read")
		} else {
			a.rep.obl("C25", st, at, "published", false, "the configuration read is not put into use")
		}
	}
}

func (h *confRules) confGlobal() T {
	p := h.P.pkg("config")
	if p == nil {
		return nil
	}
	for _, n := range sortedKeys(p.Members) {
		if g, ok := p.Members[n].(*ssa.Global); ok {
			if pt, ok := g.Type().Underlying().(*types.Pointer); ok && namedOf(pt.Elem()) == modPath+"/config.Config" {
				if _, isP := pt.Elem().Underlying().(*types.Pointer); isP {
					return mk(OGlobal, g, g.Type())
				}
			}
		}
	}
	return nil
}

func (a *Analysis) srvConf(P *Program) []*Root {
	h := &confRules{a, P}
	a.validConf = false
	defer func() { a.validConf = true; a.on = Callbacks{} }()
	var roots []*Root
	for _, n := range []string{"Init", "Config.ParseConfFile"} {
		fn := P.fn("config", n)
		if fn == nil {
			continue
		}
		a.on.ext, a.on.read, a.on.fact, a.on.field, a.on.finish, a.on.num = h.ext, h.read, h.fact, h.field, h.finish, h.num
		roots = append(roots, a.runFn(fn, "aux", "config", func(st *State, args []T) {
			if n != "Init" {
				st.flags["reading"] = true
			}
		}))
	}
	return roots
}
