package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------- worker protocol ----------

type OblRes struct {
	Name   string
	Kind   string
	Desc   string
	Pos    string
	Status string
	Solver string
	Secs   float64
	Out    string   `json:",omitempty"`
	Second []string `json:",omitempty"`
}

type ConRes struct {
	Con      string
	Fn       string
	Pkg      string
	Target   string
	Unsup    string
	Obls     []OblRes
	Vacuous  []string
	Covered  int
	Secs     float64
	Used     []string
	Inlined  []string
	Trusted  []string
	Hints    [][]interface{}
	Stats    map[string]*SolveStat
	Killed   bool
	Invs     int
	LogicTop map[string]int
}

func (r *ConRes) failed() []OblRes {
	var out []OblRes
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (r *ConRes) ok() bool {
	return r.Unsup == "" && !r.Killed && len(r.failed()) == 0 && len(r.Vacuous) == 0 && len(r.Obls) > 0
}

func ensuresLabels(con *Contract) []string {
	var out []string
	ast.Inspect(con.fd.Decl.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "gvEnsures" && len(c.Args) == 2 {
				if tv := con.Pkg.Info.Types[c.Args[0]]; tv.Value != nil {
					out = append(out, strings.Trim(tv.Value.ExactString(), "\""))
				}
			}
		}
		return true
	})
	return out
}

// verifyContract binds invariant parameters by name first; when that leaves something unproved (a
// renamed variable, a moved loop) every type-correct binding is tried.
func verifyContract(pr *Program, con *Contract, tier string) *ConRes {
	permInv, skippedPerm = false, false
	r := verifyContract1(pr, con, tier)
	if r.ok() || !skippedPerm {
		return r
	}
	permInv = true
	r2 := verifyContract1(pr, con, tier)
	permInv = false
	if r2.ok() {
		r2.Secs += r.Secs
		return r2
	}
	r.Secs += r2.Secs
	return r
}

func verifyContract1(pr *Program, con *Contract, tier string) *ConRes {
	t0 := time.Now()
	solverMu.Lock()
	solverStats = map[string]*SolveStat{}
	solverMu.Unlock()
	r := generate(pr, con)
	out := &ConRes{Con: con.Name, Fn: con.Fn, Pkg: con.Pkg.Path, Target: con.Target, Unsup: r.Unsup, Used: r.Used, Inlined: r.Inlined, Trusted: r.Trusted, Stats: solverStats}
	mult := time.Duration(1)
	if tier == "thorough" {
		mult = 4
	}
	var jobs []job
	for _, o := range r.Obls {
		jobs = append(jobs, job{hyps: o.Hyps, goal: o.Goal, timeout: con.Timeout * mult})
	}
	if r.Unsup == "" {
		res := proveBatch(jobs)
		for i, o := range r.Obls {
			o.Res = res[i]
			or := OblRes{Name: o.Name(), Kind: o.Kind, Desc: o.Desc, Pos: o.Pos, Status: res[i].Status, Solver: res[i].Solver, Secs: res[i].Secs}
			if res[i].Status != "proved" {
				or.Out = firstLines(res[i].Out, 20)
				if d := os.Getenv("GVC_DUMP"); d != "" && res[i].Query != nil {
					writeFile(filepath.Join(d, fmt.Sprintf("%s_%d.smt2", con.Name, i)), res[i].Query.emit(nil))
					_, light := stagedQueries(res[i].Query.srcHyps, res[i].Query.srcGoal)
					for k, l := range light.all() {
						writeFile(filepath.Join(d, fmt.Sprintf("%s_%d.light%d", con.Name, i, k)), l.bv)
						writeFile(filepath.Join(d, fmt.Sprintf("%s_%d.lighti%d", con.Name, i, k)), l.in)
					}
				}
			} else if tier == "thorough" && res[i].Query != nil && res[i].Solver != "simplifier" {
				or.Second = secondOpinion(res[i])
			}
			out.Obls = append(out.Obls, or)
		}
		// vacuity: each ensures clause must be reachable
		byLabel := map[string][]*Obl{}
		for _, o := range r.V.covers {
			byLabel[o.Desc] = append(byLabel[o.Desc], o)
		}
		var first []job
		labels := ensuresLabels(con)
		for _, l := range labels {
			if list := byLabel[l]; len(list) > 0 {
				first = append(first, job{hyps: list[0].Hyps, goal: tFalse, timeout: 2 * time.Second, quick: true, cover: true})
			}
		}
		proveBatch(first) // remembered: the loop below finds the answers
		for _, l := range labels {
			list := byLabel[l]
			reach := false
			for i, o := range list {
				if i >= 24 {
					reach = true
					break
				}
				x := proveBatch([]job{{hyps: o.Hyps, goal: tFalse, timeout: 2 * time.Second, quick: true, cover: true}})[0]
				if x.Status != "proved" {
					reach = true
					break
				}
			}
			if !reach {
				out.Vacuous = append(out.Vacuous, l)
			} else {
				out.Covered++
			}
		}
		n := 0
		for _, o := range r.Obls {
			if o.Res.Status != "proved" && n < 8 && o.Res.Query != nil {
				if h := r.V.hints(o); h != nil {
					out.Hints = append(out.Hints, h)
				}
				n++
			}
		}
	}
	out.Secs = time.Since(t0).Seconds()
	return out
}

func secondOpinion(r Result) []string {
	var out []string
	text := r.Query.emit(nil)
	for _, n := range []string{"z3", "cvc5", "z3-new"} {
		if solvers[n].name == strings.TrimSuffix(r.Solver, "(int)") {
			continue
		}
		x, _ := runSolver(bg, n, text, 10*time.Second)
		out = append(out, n+":"+x)
		if x == "unsat" || x == "sat" {
			break
		}
	}
	return out
}

func workerMain(repo, contracts string, patterns []string, tier string, par int) {
	procSem = make(chan struct{}, par)
	debug.SetGCPercent(400)
	if f := os.Getenv("GVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	pr, err := loadProgram(repo, contracts, patterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cs := collectContracts(pr)
	in := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for in.Scan() {
		name := strings.TrimSpace(in.Text())
		con := cs.ByName[name]
		if con == nil {
			enc.Encode(&ConRes{Con: name, Unsup: "contract not found"})
			continue
		}
		enc.Encode(verifyContract(pr, con, tier))
	}
}

// ---------- orchestration ----------

type checkCfg struct {
	verif, repo, prop, tier, only string
	seed                          int64
	jobs                          int
	verbose                       bool
	search                        float64
	noEvidence                    bool
}

func (c *checkCfg) contracts() string { return filepath.Join(c.verif, "contracts") }

var reProp = regexp.MustCompile(`(?m)^//gvc:(contract|lemma|finding|trusted)(.*)$`)

// packages (relative) that hold contracts of the property
func (c *checkCfg) patterns() []string {
	root := filepath.Join(c.contracts(), "common")
	set := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		for _, m := range reProp.FindAllStringSubmatch(string(b), -1) {
			for _, x := range splitList(m[2]) {
				if x == c.prop || c.prop == "" {
					rel, _ := filepath.Rel(root, filepath.Dir(p))
					set["./"+rel] = true
				}
			}
		}
		return nil
	})
	return sortedKeys(set)
}

type finding struct {
	Property string `json:"property"`
	Finding  string `json:"finding"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadFindings(verif string) []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Property != "" {
			out = append(out, f)
		}
	}
	return out
}

func checkMain(c *checkCfg) int {
	t0 := time.Now()
	evPath := filepath.Join(c.verif, "evidence", c.prop+".json")
	repDir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(repDir, 0755)
	if !c.noEvidence {
		os.Remove(evPath)
	}
	pats := c.patterns()
	if len(pats) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for", c.prop)
		return 2
	}
	var viols []string
	violation := func(key string, body map[string]interface{}, concrete bool) {
		p := filepath.Join(repDir, c.prop+"-"+key+".json")
		body["property"] = c.prop
		b, _ := json.MarshalIndent(body, "", " ")
		os.WriteFile(p, b, 0644)
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, p)
		if !concrete {
			l += " no-failing-input-found"
		}
		viols = append(viols, l)
	}
	finish := func(ev map[string]interface{}) int {
		anyConcrete := false
		for _, l := range viols {
			if !strings.HasSuffix(l, "found") {
				anyConcrete = true
			}
		}
		n := 0
		for _, l := range viols {
			if anyConcrete && strings.HasSuffix(l, "found") {
				fmt.Println("UNPROVED (no failing input): " + strings.TrimSuffix(strings.TrimPrefix(l, "VIOLATION "), " no-failing-input-found"))
				continue
			}
			fmt.Println(l)
			n++
		}
		ev["violations"] = n
		ev["wall_s"] = round(time.Since(t0).Seconds())
		if !c.noEvidence {
			b, _ := json.MarshalIndent(ev, "", " ")
			os.WriteFile(evPath, append(b, '\n'), 0644)
		}
		if n > 0 {
			return 1
		}
		return 0
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof"}

	pr, err := loadProgram(c.repo, c.contracts(), pats)
	if err != nil {
		ev["coverage"] = map[string]interface{}{"obligations": 0, "discharged": 0, "checker_cmd": "gvc", "trusted_base": []string{}, "error": err.Error()}
		violation("load", map[string]interface{}{"obligation": "the repository loads and type-checks", "verifier_output": err.Error()}, false)
		return finish(ev)
	}
	cs := collectContracts(pr)
	var sel []*Contract
	var findingFns []*FuncDecl
	for _, fd := range pr.ByObj {
		if f, ok := fd.Dirs["finding"]; ok && fd.Ghost {
			for _, x := range splitList(f) {
				if x == c.prop {
					findingFns = append(findingFns, fd)
				}
			}
		}
	}
	sort.Slice(findingFns, func(i, j int) bool { return findingFns[i].Key < findingFns[j].Key })
	var trustedCons []string
	for _, con := range cs.All {
		if c.only != "" && con.Fn != c.only && con.Name != c.only {
			continue
		}
		if con.Trusted {
			continue
		}
		for _, p := range con.Props {
			if p == c.prop || c.prop == "" {
				sel = append(sel, con)
				break
			}
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts selected for", c.prop)
		return 2
	}
	// verify, then close over the contracts used at call sites
	results := map[string]*ConRes{}
	var bounded []*Contract
	pool := newPool(c, pats)
	deadline := t0.Add(480 * time.Second)
	if c.tier == "thorough" {
		deadline = t0.Add(6 * time.Hour)
	}
	queue := sel
	done := map[string]bool{}
	for len(queue) > 0 {
		var names []string
		for _, con := range queue {
			if done[con.Name] {
				continue
			}
			done[con.Name] = true
			if con.Bounded != "" {
				bounded = append(bounded, con)
				continue
			}
			names = append(names, con.Name)
		}
		queue = nil
		for _, r := range pool.run(names, deadline) {
			results[r.Con] = r
			if c.verbose {
				printRes(r)
			}
			for _, u := range r.Used {
				con := cs.ByName[u]
				if con == nil {
					continue
				}
				if con.Trusted {
					trustedCons = append(trustedCons, con.Name)
					continue
				}
				if !done[con.Name] && c.only == "" {
					queue = append(queue, con)
				}
			}
		}
	}
	pool.close()
	// failures: look for a concrete failing input on the real code
	var failed []*Contract
	hints := map[string][][]interface{}{}
	for _, n := range sortedKeys(results) {
		r := results[n]
		if !r.ok() {
			failed = append(failed, cs.ByName[n])
			hints[n] = r.Hints
		}
	}
	var found map[string]*searchRes
	searchSecs := map[string]float64{}
	if len(failed) > 0 && c.search > 0 {
		found = c.runSearch(pr, failed, hints, c.search*8/float64(7+len(failed)), searchSecs, nil)
	}
	for _, con := range failed {
		r := results[con.Name]
		body := map[string]interface{}{"contract": con.Name, "function": con.Target, "obligations": r.failed(), "unsupported": r.Unsup, "vacuous": r.Vacuous}
		if r.Killed {
			body["unsupported"] = "verification did not finish in time"
		}
		if len(r.failed()) > 0 {
			body["obligation"] = r.failed()[0].Name
		} else {
			body["obligation"] = con.Name + "/generation"
		}
		if !c.verbose {
			fmt.Printf("FAILED OBLIGATION %v %v\n", body["obligation"], body["unsupported"])
		}
		f := found[con.Name]
		if f != nil && f.Violation != "" {
			body["failing_input"] = f.Inputs
			body["failure"] = f.Violation
			body["stack"] = f.Stack
			body["replay_seed"] = f.Seed
			body["replay_iter"] = f.Iter
			body["replay_hints"] = hints[con.Name]
			body["package"] = con.Pkg.Path
			body["replay_cmd"] = fmt.Sprintf("%s/check.sh replay <this file>", c.verif)
			violation(con.Fn, body, true)
		} else {
			if f != nil {
				body["search"] = fmt.Sprintf("%d runs, %d satisfied the preconditions, no failure (%s)", f.Runs, f.Accepted, f.Err)
			}
			violation(con.Fn, body, false)
		}
	}
	// bounded stand-ins, and in the thorough tier the run-time oracles of all contracts
	oracle := map[string]interface{}{}
	var boundedOut []map[string]interface{}
	if len(bounded) > 0 {
		secs := 3.0
		if c.tier == "thorough" {
			secs = 60
		}
		fr := c.runSearch(pr, bounded, nil, secs, searchSecs, nil)
		for _, con := range bounded {
			f := fr[con.Name]
			if f == nil {
				f = &searchRes{Err: "not run"}
			}
			boundedOut = append(boundedOut, map[string]interface{}{"contract": con.Name, "function": con.Target, "bound": con.Bounded, "runs": f.Runs, "accepted": f.Accepted, "error": f.Err})
			if f.Violation != "" || f.Err != "" {
				violation(con.Fn, map[string]interface{}{"contract": con.Name, "function": con.Target, "obligation": con.Name + "/bounded/" + f.Violation, "failing_input": f.Inputs, "failure": f.Violation, "stack": f.Stack,
					"replay_seed": f.Seed, "replay_iter": f.Iter, "package": con.Pkg.Path, "error": f.Err}, f.Violation != "")
			}
		}
	}
	if c.tier == "thorough" && len(failed) == 0 {
		var all []*Contract
		for _, n := range sortedKeys(results) {
			if con := cs.ByName[n]; !con.NoSearch {
				all = append(all, con)
			}
		}
		fr := c.runSearch(pr, all, nil, 10, searchSecs, nil)
		for _, con := range all {
			f := fr[con.Name]
			if f == nil {
				continue
			}
			oracle[con.Name] = fmt.Sprintf("%d runs, %d accepted %s", f.Runs, f.Accepted, f.Err)
			if f.Violation != "" {
				violation(con.Fn, map[string]interface{}{"contract": con.Name, "function": con.Target, "obligation": con.Name + "/runtime-oracle", "failing_input": f.Inputs, "failure": f.Violation, "stack": f.Stack,
					"replay_seed": f.Seed, "replay_iter": f.Iter, "package": con.Pkg.Path}, true)
			}
		}
	}
	// known findings: fixed inputs re-run against the current code
	findRes := map[string]string{}
	if len(findingFns) > 0 {
		known := map[string]finding{}
		for _, f := range loadFindings(c.verif) {
			if f.Fixed == "" && f.Property == c.prop {
				known[f.Finding] = f
			}
		}
		var cons []*Contract
		for _, fd := range findingFns {
			cons = append(cons, &Contract{Name: fd.Pkg.Types.Name() + "." + fd.Decl.Name.Name, Fn: fd.Decl.Name.Name, Pkg: fd.Pkg, fd: fd})
		}
		fr := c.runSearch(pr, cons, nil, 0.05, searchSecs, nil)
		for _, con := range cons {
			f := fr[con.Name]
			if f == nil || f.Err != "" {
				continue
			}
			if f.Violation == "" {
				findRes[con.Fn] = "does not fail on this tree"
				continue
			}
			if k, ok := known[con.Fn]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", c.prop, con.Fn, k.What, f.Violation)
				findRes[con.Fn] = f.Violation
				continue
			}
			violation(con.Fn, map[string]interface{}{"contract": con.Name, "obligation": con.Name, "failing_input": f.Inputs, "failure": f.Violation, "stack": f.Stack, "replay_seed": f.Seed, "replay_iter": f.Iter, "package": con.Pkg.Path}, true)
		}
	}
	// evidence
	nObl, nDis := 0, 0
	kinds := map[string]int{}
	backs := map[string]int{}
	stats := map[string]*SolveStat{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	second := map[string]int{}
	var fns []map[string]interface{}
	for _, n := range sortedKeys(results) {
		r := results[n]
		d := 0
		var slow float64
		for _, o := range r.Obls {
			nObl++
			kinds[o.Kind]++
			if o.Status == "proved" {
				nDis++
				d++
				backs[o.Solver]++
			}
			if o.Secs > slow {
				slow = o.Secs
			}
			for _, s := range o.Second {
				second[s]++
			}
		}
		if r.Unsup != "" && len(r.Obls) == 0 {
			nObl++
		}
		for k, s := range r.Stats {
			if stats[k] == nil {
				stats[k] = &SolveStat{}
			}
			stats[k].Calls += s.Calls
			stats[k].Secs += s.Secs
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inl[strings.TrimPrefix(t, modPath)] = true
		}
		fn := strings.TrimPrefix(strings.TrimPrefix(r.Target, modPath), ".")
		if fn == "" {
			fn = "(lemma)"
		}
		fns = append(fns, map[string]interface{}{"contract": n, "function": fn, "obligations": len(r.Obls), "discharged": d, "clauses_reachable": r.Covered, "secs": round(r.Secs), "slowest_obligation_s": round(slow), "uses_contracts": r.Used})
	}
	for _, t := range trustedCons {
		trusted["assumed contract "+t] = true
	}
	ss := map[string]interface{}{}
	for k, s := range stats {
		ss[k] = map[string]interface{}{"calls": s.Calls, "secs": round(s.Secs)}
	}
	tb := append([]string{"gvc (this verifier: symbolic execution of the type-checked Go AST, simplifier, quantifier instantiation)", "go/parser, go/types of go1.24.13", "SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2"}, sortedKeys(trusted)...)
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nDis, "checker_cmd": "gvc check -prop " + c.prop + " -tier " + c.tier + " (SMT back ends: z3-new, z3, cvc5)",
		"trusted_base": tb, "obligation_kinds": kinds, "discharged_by": backs, "solver": ss, "functions_under_contract": fns, "inlined_real_code": sortedKeys(inl),
	}
	if len(second) > 0 {
		cov["second_solver"] = second
	}
	if len(boundedOut) > 0 {
		cov["bounded_standins_not_proved"] = boundedOut
	}
	if len(oracle) > 0 {
		cov["runtime_oracle"] = oracle
	}
	if len(findRes) > 0 {
		cov["known_findings"] = findRes
	}
	ev["coverage"] = cov
	ev["assumptions"] = assumptions(trusted)
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %.1fs\n", c.prop, len(results), nObl, nDis, time.Since(t0).Seconds())
	return finish(ev)
}

func assumptions(trusted map[string]bool) []string {
	out := []string{
		"sequential execution: the functions under contract are verified for a single goroutine; data races are outside the contracts",
		"memory allocation never fails and no slice or string is longer than 2^47 bytes; stack overflow is not modelled",
		"machine integers are modelled exactly as 64-bit two's-complement bit-vectors (amd64); math/big as mathematical integers",
		"loops and recursion: partial correctness (termination is not proved)",
	}
	for _, t := range sortedKeys(trusted) {
		out = append(out, "trusted: "+t)
	}
	return out
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func printRes(r *ConRes) {
	st := "ok"
	if !r.ok() {
		st = "FAIL"
	}
	fmt.Printf("%-5s %-40s obls=%d %.1fs %s\n", st, r.Con, len(r.Obls), r.Secs, r.Unsup)
	seen := map[string]int{}
	for _, o := range r.failed() {
		seen[o.Name]++
		if seen[o.Name] > 2 {
			continue
		}
		fmt.Printf("      %s [%s %.1fs]\n", strings.TrimPrefix(o.Name, r.Con), o.Status, o.Secs)
	}
	for _, v := range r.Vacuous {
		fmt.Printf("      vacuous clause %q\n", v)
	}
	if os.Getenv("GVC_USED") != "" {
		fmt.Println("      used", r.Used, "inlined", r.Inlined, "trusted", r.Trusted)
	}
	if r.Killed {
		fmt.Printf("      killed (time)\n")
	}
	if len(r.Hints) > 0 && os.Getenv("GVC_HINTS") != "" {
		b, _ := json.Marshal(r.Hints[0])
		fmt.Printf("      hint %s\n", b)
	}
}

// ---------- worker pool ----------

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
}

type pool struct {
	c    *checkCfg
	pats []string
	mu   sync.Mutex
	free []*worker
	n    int
}

func newPool(c *checkCfg, pats []string) *pool { return &pool{c: c, pats: pats} }

func (p *pool) get() (*worker, error) {
	p.mu.Lock()
	if len(p.free) > 0 {
		w := p.free[len(p.free)-1]
		p.free = p.free[:len(p.free)-1]
		p.mu.Unlock()
		return w, nil
	}
	p.mu.Unlock()
	exe, _ := os.Executable()
	args := append([]string{"worker", "-repo", p.c.repo, "-verif", p.c.verif, "-tier", p.c.tier, "-par", strconv.Itoa(3)}, p.pats...)
	cmd := exec.Command(exe, args...)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := spawn(cmd); err != nil {
		return nil, err
	}
	return &worker{cmd, in, json.NewDecoder(out)}, nil
}

// processes are started from one locked thread: Pdeathsig is tied to the thread
var spawnCh = make(chan func())

func init() {
	go func() {
		runtime.LockOSThread()
		for f := range spawnCh {
			f()
		}
	}()
}

func spawn(cmd *exec.Cmd) error {
	ch := make(chan error)
	spawnCh <- func() { ch <- cmd.Start() }
	return <-ch
}

func (p *pool) put(w *worker) {
	p.mu.Lock()
	p.free = append(p.free, w)
	p.mu.Unlock()
}

func (p *pool) close() {
	for _, w := range p.free {
		w.in.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
}

func (p *pool) run(names []string, deadline time.Time) []*ConRes {
	ch := make(chan string, len(names))
	for _, n := range names {
		ch <- n
	}
	close(ch)
	var mu sync.Mutex
	var out []*ConRes
	var wg sync.WaitGroup
	nw := p.c.jobs
	if nw > len(names) {
		nw = len(names)
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			for n := range ch {
				var r ConRes
				r.Con = n
				if time.Now().After(deadline) {
					r.Killed = true
				} else {
					var err error
					if w == nil {
						w, err = p.get()
					}
					if err != nil {
						r.Unsup = err.Error()
					} else {
						fmt.Fprintln(w.in, n)
						t := time.AfterFunc(time.Until(deadline), func() { w.cmd.Process.Kill() })
						var rr ConRes
						err := w.out.Decode(&rr)
						t.Stop()
						if err != nil {
							r.Killed = true
							r.Unsup = "verifier process ended: " + err.Error()
							w.cmd.Process.Kill()
							w.cmd.Wait()
							w = nil
						} else {
							r = rr
						}
					}
				}
				mu.Lock()
				out = append(out, &r)
				mu.Unlock()
			}
			if w != nil {
				p.put(w)
			}
		}()
	}
	wg.Wait()
	return out
}

// ---------- run-time search / replay ----------

type searchRes struct {
	Runs, Accepted int64
	Labels         map[string]int
	Violation      string
	Inputs         []string
	Iter           int64
	Stack          string
	Seed           int64
	Err            string
}

// buildHarness compiles the test binary holding the real package, the contracts and the search driver.
func (c *checkCfg) buildHarness(pr *Program, p *Pkg, tmp string) (string, error) {
	rel := strings.TrimPrefix(strings.TrimPrefix(p.Path, modPath), "/")
	dir := filepath.Join(c.repo, rel)
	repl := map[string]string{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(dir, e.Name())] = ""
		}
	}
	// contracts of every loaded package (ghost functions of other packages are not needed)
	ghost, err := ghostFiles(c.contracts(), rel, p.Types.Name())
	if err != nil {
		return "", err
	}
	tag := strings.ReplaceAll(rel, "/", "_")
	put := func(name string, b []byte) {
		f := filepath.Join(tmp, tag+"_"+name)
		os.WriteFile(f, b, 0644)
		repl[filepath.Join(dir, name)] = f
	}
	for _, g := range ghost {
		n := filepath.Base(g.path)
		if n == "zz_gvrt.go" {
			put(n, g.src)
			continue
		}
		put("gvc_"+n, g.src)
	}
	tm, err := os.ReadFile(filepath.Join(c.contracts(), "gvsearch_test.go.tmpl"))
	if err != nil {
		return "", err
	}
	src := strings.Replace(string(tm), "package PKG", "package "+p.Types.Name(), 1)
	src += "\nvar gvsContracts = []gvsContract{\n"
	var keys []string
	byName := map[string]*FuncDecl{}
	for _, fd := range pr.ByObj {
		if fd.Pkg == p && fd.Ghost && fd.Decl.Recv == nil {
			byName[fd.Decl.Name.Name] = fd
			_, a := fd.Dirs["contract"]
			_, b := fd.Dirs["lemma"]
			_, f := fd.Dirs["finding"]
			_, tr := fd.Dirs["trusted"]
			if a || b || f || tr {
				keys = append(keys, fd.Decl.Name.Name)
			}
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := "nil"
		if byName["gen_"+k] != nil {
			g = "gen_" + k
		}
		src += fmt.Sprintf("\t{%q, %s, %s},\n", p.Types.Name()+"."+k, k, g)
	}
	src += "}\n"
	put("zz_gvsearch_test.go", []byte(src))
	ov := filepath.Join(tmp, tag+"_overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ov, b, 0644)
	bin := filepath.Join(tmp, tag+"_search.test")
	arg := "./" + rel
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, arg)
	cmd.Dir = c.repo
	o, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("harness does not build: %s", firstLines(string(o), 12))
	}
	return bin, nil
}

// run the executable contracts; iter non-nil replays a single iteration
func (c *checkCfg) runSearch(pr *Program, cons []*Contract, hints map[string][][]interface{}, secs float64, used map[string]float64, replay *searchRes) map[string]*searchRes {
	out := map[string]*searchRes{}
	tmp, err := os.MkdirTemp("", "gvcsearch")
	if err != nil {
		return out
	}
	defer os.RemoveAll(tmp)
	byPkg := map[*Pkg][]*Contract{}
	for _, con := range cons {
		if con.NoSearch {
			out[con.Name] = &searchRes{Err: "not searchable"}
			continue
		}
		byPkg[con.Pkg] = append(byPkg[con.Pkg], con)
	}
	type task struct {
		bin  string
		con  *Contract
		seed int64
	}
	var tasks []task
	var pkgs []*Pkg
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Path < pkgs[j].Path })
	for _, p := range pkgs {
		bin, err := c.buildHarness(pr, p, tmp)
		for _, con := range byPkg[p] {
			if err != nil {
				out[con.Name] = &searchRes{Err: err.Error()}
				continue
			}
			out[con.Name] = &searchRes{}
			reps := 1
			if hints != nil && len(cons) < 8 {
				reps = 8 / len(cons)
			}
			for k := 0; k < reps; k++ {
				tasks = append(tasks, task{bin, con, c.seed*64 + int64(k)})
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, t := range tasks {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, t task) {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			skip := out[t.con.Name].Violation != ""
			mu.Unlock()
			if skip {
				return
			}
			cfg := map[string]interface{}{"Seconds": secs, "Seed": t.seed, "Only": map[string]bool{t.con.Name: true}, "Hints": hints, "Iter": -1, "Out": filepath.Join(tmp, fmt.Sprintf("out%d.json", i))}
			if replay != nil {
				cfg["Seed"], cfg["Iter"] = replay.Seed, replay.Iter
			}
			b, _ := json.Marshal(cfg)
			cf := filepath.Join(tmp, fmt.Sprintf("cfg%d.json", i))
			os.WriteFile(cf, b, 0644)
			wd := filepath.Join(tmp, fmt.Sprintf("wd%d", i))
			os.Mkdir(wd, 0755)
			cmd := exec.Command("/bin/bash", "-c", fmt.Sprintf("ulimit -v 6000000; exec timeout -s KILL %d %s -test.run '^TestGvcSearch$'", int(secs)+45, t.bin))
			cmd.Dir = wd
			cmd.Env = append(os.Environ(), "GVC_CFG="+cf, "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
			t0 := time.Now()
			o, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			used[t.con.Name] += time.Since(t0).Seconds()
			cur := out[t.con.Name]
			var m map[string]*searchRes
			jb, e2 := os.ReadFile(cfg["Out"].(string))
			if e2 == nil {
				json.Unmarshal(jb, &m)
			}
			if r := m[t.con.Name]; r != nil {
				cur.Runs += r.Runs
				cur.Accepted += r.Accepted
				if r.Violation != "" && cur.Violation == "" {
					cur.Violation, cur.Inputs, cur.Iter, cur.Stack = r.Violation, r.Inputs, r.Iter, r.Stack
					cur.Seed = t.seed
					if replay != nil {
						cur.Seed = replay.Seed
					}
				}
				return
			}
			// the process died: a fatal error of the code under test (stack overflow, deadlock) or resource exhaustion
			txt := string(o)
			if i := strings.Index(txt, "fatal error:"); i >= 0 && !strings.Contains(txt, "out of memory") {
				cur.Violation = firstLines(txt[i:], 1)
				cur.Stack = firstLines(txt[i:], 40)
				cur.Seed = t.seed
				return
			}
			cur.Err = fmt.Sprintf("search process: %v %s", err, firstLines(txt, 5))
		}(i, t)
	}
	wg.Wait()
	for _, r := range out {
		if r.Runs > 0 {
			r.Err = ""
		}
	}
	return out
}

func replayMain(c *checkCfg, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m struct {
		Property, Contract, Package, Obligation, Failure string
		Replay_seed, Replay_iter                         int64
		Replay_hints                                     [][]interface{}
	}
	json.Unmarshal(b, &m)
	fmt.Println("obligation:", m.Obligation)
	if m.Failure == "" {
		fmt.Println("no failing input was found for this obligation; re-run the check to redo the proof")
		return 1
	}
	c.prop = m.Property
	pr, err := loadProgram(c.repo, c.contracts(), []string{"." + strings.TrimPrefix(m.Package, modPath)})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var con *Contract
	for _, fd := range pr.ByObj {
		if fd.Ghost && fd.Pkg.Types.Name()+"."+fd.Decl.Name.Name == m.Contract {
			con = &Contract{Name: m.Contract, Fn: fd.Decl.Name.Name, Pkg: fd.Pkg, fd: fd}
		}
	}
	if con == nil {
		fmt.Fprintln(os.Stderr, "contract not found")
		return 2
	}
	r := c.runSearch(pr, []*Contract{con}, map[string][][]interface{}{m.Contract: m.Replay_hints}, 5, map[string]float64{}, &searchRes{Seed: m.Replay_seed, Iter: m.Replay_iter})[m.Contract]
	fmt.Println("inputs:", strings.Join(r.Inputs, ", "))
	fmt.Println("result:", r.Violation, r.Err)
	if r.Violation != "" {
		fmt.Println(r.Stack)
		return 1
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check|worker|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gvc", flag.ExitOnError)
	c := &checkCfg{}
	def := func(k, d string) string {
		if v := os.Getenv(k); v != "" {
			return v
		}
		return d
	}
	par := 3
	seed, _ := strconv.ParseInt(def("VERIF_SEED", "1"), 10, 64)
	fs.StringVar(&c.repo, "repo", def("GVC_REPO", "/repo"), "")
	fs.StringVar(&c.verif, "verif", def("GVC_VERIF", "/verif"), "")
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", def("VERIF_TIER", "quick"), "")
	fs.StringVar(&c.only, "only", "", "")
	fs.Int64Var(&c.seed, "seed", seed, "")
	fs.IntVar(&c.jobs, "j", 8, "")
	fs.IntVar(&par, "par", 3, "")
	fs.BoolVar(&c.verbose, "v", false, "")
	fs.BoolVar(&c.noEvidence, "n", false, "")
	fs.Float64Var(&c.search, "search", 20, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(c))
	case "worker":
		workerMain(c.repo, c.contracts(), fs.Args(), c.tier, par)
	case "replay":
		os.Exit(replayMain(c, fs.Arg(0)))
	case "oracle": // development: run every contract's run-time oracle
		os.Exit(oracleMain(c))
	default:
		os.Exit(2)
	}
}

func oracleMain(c *checkCfg) int {
	pats := c.patterns()
	pr, err := loadProgram(c.repo, c.contracts(), pats)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	cs := collectContracts(pr)
	var sel []*Contract
	for _, con := range cs.All {
		if c.only != "" && con.Fn != c.only {
			continue
		}
		ok := c.prop == ""
		for _, p := range con.Props {
			ok = ok || p == c.prop
		}
		if ok {
			sel = append(sel, con)
		}
	}
	rc := 0
	res := c.runSearch(pr, sel, nil, c.search, map[string]float64{}, nil)
	for _, n := range sortedKeys(res) {
		r := res[n]
		fmt.Printf("%-45s runs=%d accepted=%d %s %s\n", n, r.Runs, r.Accepted, r.Violation, r.Err)
		if r.Violation != "" {
			rc = 1
			fmt.Println("     ", strings.Join(r.Inputs, ", "))
			if c.verbose {
				fmt.Println(r.Stack)
			}
		}
	}
	return rc
}
