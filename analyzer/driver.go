package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Job is one entry point analysed in one setting.
type Job struct {
	Kind    string // cmd, srv
	Name    string
	Variant string
}

// JobResult is what a worker reports for a job.
type JobResult struct {
	Job        Job
	Missing    bool
	Panic      string
	Steps      int
	Outs       int
	Incomplete bool
	Ms         int64
	Findings   []*Finding
	Obls       []OblCount
	Funcs      []string
}

type OblCount struct {
	Prop, Rule, Where, Root string
	N                       int
}

// runJob analyses one entry point; a failure of the analyser itself is not a finding.
func runJob(P *Program, j Job, tier string) (res JobResult) {
	res.Job = j
	t0 := time.Now()
	rep := newReports()
	defer func() {
		if e := recover(); e != nil {
			res.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			res.Findings = nil
		}
		res.Ms = time.Since(t0).Milliseconds()
	}()
	a := P.newAnalysis(rep)
	a.maxSteps = 1200000
	a.until = t0.Add(150 * time.Second)
	if tier == "thorough" {
		a.maxSteps = 6000000
		a.until = t0.Add(600 * time.Second)
	}
	var roots []*Root
	switch j.Kind {
	case "cmd":
		if P.cmds[j.Name] == nil {
			res.Missing = true
			return
		}
		roots = append(roots, a.runCmd(P, j.Name, j.Variant))
	case "srv":
		roots = a.runSrv(P, j.Name, j.Variant)
		if roots == nil {
			res.Missing = true
		}
	}
	for _, r := range roots {
		res.Steps += r.steps
		res.Outs += len(r.outs)
		res.Incomplete = res.Incomplete || r.incomplete
	}
	res.Findings = rep.findings("")
	for k, n := range rep.obls {
		res.Obls = append(res.Obls, OblCount{k.prop, k.rule, k.where, k.root, n})
	}
	for f := range a.visited {
		res.Funcs = append(res.Funcs, f.String())
	}
	sort.Strings(res.Funcs)
	return
}

func worker(repo, tier string) {
	P, err := load(repo)
	out := json.NewEncoder(os.Stdout)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var j Job
		if err := in.Decode(&j); err != nil {
			return
		}
		r := runJob(P, j, tier)
		if err := out.Encode(&r); err != nil {
			return
		}
	}
}

// runJobs spreads the jobs over worker processes.
func runJobs(repo, tier string, jobs []Job) ([]JobResult, error) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(jobs) {
		n = len(jobs)
	}
	sort.SliceStable(jobs, func(i, j int) bool { return cost(jobs[i]) > cost(jobs[j]) })
	q := make(chan Job, len(jobs))
	for _, j := range jobs {
		q <- j
	}
	close(q)
	var mu sync.Mutex
	var all []JobResult
	var firstErr error
	var wg sync.WaitGroup
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fail := func(err error) {
				mu.Lock()
				if firstErr == nil {
					firstErr = err
				}
				mu.Unlock()
			}
			var c *exec.Cmd
			var w io.WriteCloser
			var enc *json.Encoder
			var dec *json.Decoder
			start := func() error {
				c = exec.Command(self, "-worker", "-repo", repo, "-tier", tier)
				c.Stderr = os.Stderr
				w, _ = c.StdinPipe()
				r, _ := c.StdoutPipe()
				enc, dec = json.NewEncoder(w), json.NewDecoder(bufio.NewReader(r))
				return c.Start()
			}
			if err := start(); err != nil {
				fail(err)
				return
			}
			for j := range q {
				err := enc.Encode(j)
				var res JobResult
				if err == nil {
					err = dec.Decode(&res)
				}
				if err != nil {
					// the worker died (memory, a defect of the analyser): no verdict on this job
					w.Close()
					if e := c.Wait(); e != nil && c.ProcessState.ExitCode() == 3 {
						fail(fmt.Errorf("the source could not be loaded"))
						return
					}
					res = JobResult{Job: j, Panic: "the worker ended early: " + err.Error()}
					if err := start(); err != nil {
						fail(err)
						return
					}
				}
				mu.Lock()
				all = append(all, res)
				mu.Unlock()
			}
			w.Close()
			c.Wait()
		}()
	}
	wg.Wait()
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i].Job, all[j].Job
		if a.Kind != b.Kind {
			return a.Kind < b.Kind
		}
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return a.Variant < b.Variant
	})
	return all, firstErr
}

func cost(j Job) int {
	c := map[string]int{"set": 40, "sinterstore": 16, "sunionstore": 12, "sdiffstore": 12, "mget": 8, "lpos": 7, "sunion": 6, "sinter": 6, "sdiff": 6, "hmget": 4}[j.Name]
	if c == 0 {
		c = 1
	}
	if j.Kind == "srv" {
		c = 20
	}
	if strings.HasPrefix(j.Variant, "n=4") {
		c *= 3
	}
	if strings.HasPrefix(j.Variant, "n=5") {
		c *= 9
	}
	return c
}

// ---------- deciding one property ----------

func verifDir() string {
	self, err := os.Executable()
	if err == nil {
		if d := filepath.Dir(filepath.Dir(self)); exists(filepath.Join(d, "properties.jsonl")) {
			return d
		}
	}
	return "/verif"
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

type known struct{ prop, rule, root, fn string }

// knownFindings reads the committed list of recorded defects.
func knownFindings(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var l []known
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		k := known{}
		for _, f := range strings.Fields(line[len("known: "):]) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "rule="):
				k.rule = f[5:]
			case strings.HasPrefix(f, "entry="):
				k.root = f[6:]
			case strings.HasPrefix(f, "function="):
				k.fn = f[9:]
			}
		}
		l = append(l, k)
	}
	return l
}

func decide(repo, id, tier string) int {
	if id == "ALL" {
		return decideAll(repo, tier)
	}
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	dir := verifDir()
	jobs := p.jobs(tier)
	res, err := runJobs(repo, tier, jobs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "analysis:", err)
		return 2
	}
	var bad []*Finding
	obls, sites := 0, map[string]bool{}
	rules := map[string]int{}
	roots := map[string]bool{}
	funcs := map[string]bool{}
	var incomplete, missing, broken []string
	outs, steps := 0, 0
	for _, r := range res {
		lbl := strings.TrimSpace(r.Job.Name + " " + r.Job.Variant)
		if r.Missing {
			missing = append(missing, lbl)
			continue
		}
		if r.Panic != "" {
			broken = append(broken, lbl+": "+strings.SplitN(r.Panic, "\n", 2)[0])
			fmt.Fprintln(os.Stderr, "analyser failure in", lbl, ":", r.Panic)
			continue
		}
		if r.Incomplete {
			incomplete = append(incomplete, lbl)
		}
		roots[r.Job.Name] = true
		outs += r.Outs
		steps += r.Steps
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, o := range r.Obls {
			if p.match(o.Prop, o.Rule, o.Root) {
				obls += o.N
				rules[o.Prop+"/"+o.Rule] += o.N
				sites[o.Prop+o.Rule+o.Where] = true
			}
		}
		for _, f := range r.Findings {
			if p.match(f.Prop, f.Rule, f.Root) {
				bad = append(bad, f)
			}
		}
	}
	kf := knownFindings(dir)
	var viol []*Finding
	seenK := map[string]bool{}
	dup := map[string]bool{}
	for _, f := range bad {
		k := f.Prop + f.Rule + f.Where + f.Root
		if dup[k] {
			continue
		}
		dup[k] = true
		isK := false
		for _, k := range kf {
			if k.prop == id && (k.rule == "" || k.rule == f.Rule) && (k.root == "" || k.root == f.Root) && (k.fn == "" || strings.HasSuffix(f.Func, k.fn)) {
				isK = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s in %s (%s): %s", id, f.Rule, f.Func, f.Root, f.Msg)
				if !seenK[line] {
					seenK[line] = true
					fmt.Println(line)
				}
			}
		}
		if !isK {
			viol = append(viol, f)
		}
	}
	var checked []map[string]any
	for _, r := range sortedKeys(rules) {
		checked = append(checked, map[string]any{"rule": r, "meaning": ruleText(r), "discharged": rules[r]})
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": 1, "level": "other", "violations": len(viol), "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"obligations": obls + len(viol), "discharged": obls,
			"checker_cmd": "/verif/run.sh " + id, "trusted_base": trusted,
			"explanation":      p.how,
			"entry_points":     sortedKeys(roots),
			"settings":         len(res) - len(missing),
			"functions":        len(funcs),
			"function_list":    sortedKeys(funcs),
			"path_ends":        outs,
			"abstract_steps":   steps,
			"obligation_sites": len(sites),
			"rules":            checked,
			"incomplete":       incomplete,
			"not_found":        missing,
			"analyser_failed":  broken,
			"violated":         viol,
		},
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		var n int
		if _, err := fmt.Sscan(s, &n); err == nil {
			ev["seed"] = n
		}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d entry points in %d settings, %d functions, %d path ends, %d obligations (%d sites), %d violations, %.1f s\n", id, len(roots), len(res)-len(missing), len(funcs), outs, obls+len(viol), len(sites), len(viol), time.Since(t0).Seconds())
	for _, x := range incomplete {
		fmt.Println("  incomplete:", x)
	}
	for _, x := range missing {
		fmt.Println("  not found:", x)
	}
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(dir, "evidence", id+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s/%s %s [%s] %s\n    %s\n", f.Prop, f.Rule, f.Where, f.Root, f.Func, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintln(&sb, "        ", t)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i < 12 {
			fmt.Printf("  %s/%s %s [%s] %s: %s\n", f.Prop, f.Rule, f.Where, f.Root, f.Func, f.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// decideAll (debugging): every entry point once, and which properties report.
func decideAll(repo, tier string) int {
	seen := map[Job]bool{}
	var jobs []Job
	for _, id := range sortedKeys(props) {
		for _, j := range props[id].jobs(tier) {
			if !seen[j] {
				seen[j] = true
				jobs = append(jobs, j)
			}
		}
	}
	res, err := runJobs(repo, tier, jobs)
	if err != nil {
		fmt.Println("analysis:", err)
	}
	dup := map[string]bool{}
	by := map[string]int{}
	for _, r := range res {
		if r.Missing || r.Panic != "" || r.Incomplete {
			fmt.Println("NOTE", r.Job, "missing:", r.Missing, "incomplete:", r.Incomplete, strings.SplitN(r.Panic, "\n", 2)[0])
		}
		for _, f := range r.Findings {
			k := f.Prop + f.Rule + f.Where + f.Root
			if dup[k] {
				continue
			}
			dup[k] = true
			for id, p := range props {
				if p.match(f.Prop, f.Rule, f.Root) {
					by[id]++
				}
			}
			fmt.Printf("%s/%s %s [%s] %s: %s\n", f.Prop, f.Rule, f.Where, f.Root, f.Func, f.Msg)
		}
	}
	fmt.Println("REPORTED BY", by)
	return 0
}

var trusted = []string{
	"go/types and golang.org/x/tools/go/ssa as the meaning of the source",
	"the models of the standard library functions the code calls (analyzer/models.go)",
	"the transfer functions, joins and zone domain of the analyser",
	"the database invariants assumed at the start of a command and re-established at its end (DESIGN.md)",
}
