package main

import (
	"regexp"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var patterns = []string{"./detour", "./recast"}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: govc verify|check|list ...")
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "list":
		cmdList(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func cmdList(args []string) {
	fs := flag.NewFlagSet("list", flag.ExitOnError)
	dir := fs.String("contracts", "/verif/contracts", "")
	fs.Parse(args)
	sp, err := loadSpecs(*dir)
	if err != nil {
		fatal("%v", err)
	}
	for _, k := range sp.Order {
		c := sp.C[k]
		fmt.Printf("%-60s %s trusted=%v props=%v\n", k, c.Mode, c.Trusted, c.Props)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	fn := fs.String("f", "", "function key (substring)")
	prop := fs.String("prop", "", "")
	verbose := fs.Bool("v", false, "")
	dbg := fs.Bool("debug", false, "")
	keep := fs.Bool("keep", false, "")
	closure := fs.Bool("closure", false, "")
	s1 := fs.Int("t1", 5, "")
	s2 := fs.Int("t2", 25, "")
	fs.Parse(args)
	debugPanics = *dbg
	prog, err := loadProgram(*repo, patterns)
	if err != nil {
		fatal("load: %v", err)
	}
	sp, err := loadSpecs(*dir)
	if err != nil {
		fatal("contracts: %v", err)
	}
	var keys []string
	for _, k := range sp.Order {
		c := sp.C[k]
		if c.Trusted {
			continue
		}
		if *fn != "" && !strings.Contains(k, *fn) {
			continue
		}
		if *prop != "" && !hasProp(c, *prop) {
			continue
		}
		keys = append(keys, k)
	}
	s, err := newSolver(20 * time.Minute)
	if err != nil {
		fatal("%v", err)
	}
	s.keep = *keep
	s.chatty = *verbose
	s.stage1, s.stage2 = *s1, *s2
	s.hasty = true
	defer s.close()
	results := verifyAll(prog, sp, keys, *closure)
	t0 := time.Now()
	njobs := solveAll(s, prog, sp, results)
	fails := 0
	for _, r := range results {
		np, nb := 0, 0
		for _, j := range r.Jobs {
			if j.bad() {
				nb++
			} else if j.Kind != "cover" {
				np++
			}
		}
		st := "ok"
		if nb > 0 || r.Err != "" {
			st = "FAIL"
			fails++
		}
		fmt.Printf("%-5s %s: %d proved, %d trivial, %d failed; loops %d (no measure %d) inlined %v used %v\n", st, r.Key, np, r.Trivial, nb, r.Loops, r.LoopsNoDec, r.Inlined, r.Used)
		if r.Err != "" {
			fmt.Printf("      error: %s\n", r.Err)
		}
		for _, j := range r.Jobs {
			if j.bad() || *verbose {
				fmt.Printf("      %-8s %s (%s) %s %dms\n", j.Status, j.Name, j.Pos, j.Solver, j.MS)
				if j.bad() {
					fmt.Printf("               %s\n", j.Src)
					if *keep {
						fmt.Printf("               %s\n", filepath.Join(s.dir, fmt.Sprintf("o%05d.smt2", j.id)))
					}
					if j.Model != "" {
						fmt.Printf("               model: %s\n", strings.ReplaceAll(j.Model, "\n", " "))
					}
					if strings.Contains(j.Output, "error") {
						fmt.Printf("               %s\n", firstN(j.Output, 400))
					}
				}
			}
		}
	}
	fmt.Printf("%d obligations, %.1fs wall, %d failing contracts, solvers %v\n", njobs, time.Since(t0).Seconds(), fails, s.stats.byBack)
	if *keep {
		fmt.Println("scripts in", s.dir)
	}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func hasProp(c *Contract, p string) bool {
	for _, x := range c.Props {
		if x == p {
			return true
		}
	}
	return false
}

// verifyAll generates obligations for keys and, with closure set, for every
// contract they rely on.
func verifyAll(prog *Program, sp *Specs, keys []string, closure bool) []*FuncResult {
	done := map[string]bool{}
	var out []*FuncResult
	work := append([]string{}, keys...)
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		c := sp.C[k]
		if c == nil {
			continue
		}
		if c.Trusted {
			out = append(out, &FuncResult{Key: k, Trusted: true, File: fmt.Sprintf("%s:%d", c.File, c.Line)})
			continue
		}
		r := verifyFunc(prog, sp, c)
		out = append(out, r)
		if closure {
			work = append(work, r.Used...)
			work = append(work, r.Lemmas...)
		}
	}
	return out
}

// solveAll discharges the obligations of all results. A contract with failing
// obligations gets a second chance with the exits of the function kept apart
// (or merged, if its contract already keeps them apart).
func solveAll(s *solver, prog *Program, sp *Specs, results []*FuncResult) int {
	var jobs []*Job
	for _, r := range results {
		jobs = append(jobs, r.Jobs...)
	}
	s.run(jobs)
	n := len(jobs)
	type retry struct {
		i int
		r *FuncResult
	}
	var again []retry
	jobs = nil
	for i, r := range results {
		bad := 0
		for _, j := range r.Jobs {
			if j.bad() {
				bad++
			}
		}
		c := sp.C[r.Key]
		if bad == 0 || r.Err != "" || c == nil || c.Lemma != nil {
			continue
		}
		if s.chatty {
			fmt.Printf("retry %s (paths=%v)\n", r.Key, !c.Paths)
			for _, j := range r.Jobs {
				if j.bad() {
					fmt.Printf("   first try: %s %s %s\n", j.Name, j.Status, j.Pos)
				}
			}
		}
		c2 := *c
		c2.Paths = !c.Paths
		r2 := verifyFunc(prog, sp, &c2)
		if r2.Err != "" || len(r2.Jobs) > 1500 {
			continue
		}
		again = append(again, retry{i, r2})
		jobs = append(jobs, r2.Jobs...)
	}
	if len(again) == 0 {
		return n
	}
	s.base, s.failures = n, map[string]int{}
	s.run(jobs)
	for _, a := range again {
		ok := true
		for _, j := range a.r.Jobs {
			ok = ok && !j.bad()
		}
		if ok {
			results[a.i] = a.r
		}
	}
	// A last, patient attempt: a contract left with only a few undecided
	// obligations (none refuted) gets long runs of every back end, so that a
	// busy machine does not turn a slow proof into an alarm.
	undecided := func(r *FuncResult) []*Job {
		var u []*Job
		for _, j := range r.Jobs {
			if !j.bad() {
				continue
			}
			if j.Kind == "cover" || j.Status != "unknown" {
				return nil
			}
			u = append(u, j)
		}
		return u
	}
	var last []*Job
	pick := map[int]*FuncResult{}
	for _, a := range again {
		u, r := undecided(results[a.i]), results[a.i]
		if u2 := undecided(a.r); len(u2) > 0 && (len(u) == 0 || len(u2) < len(u)) {
			u, r = u2, a.r
		}
		if len(u) > 0 && len(u) <= 4 {
			pick[a.i] = r
			last = append(last, u...)
		}
	}
	if len(last) > 0 && len(last) <= 8 && !s.hasty {
		if s.chatty {
			fmt.Printf("last attempt at %d undecided obligations\n", len(last))
		}
		s.failures = map[string]int{}
		s.patient(last)
		for i, r := range pick {
			results[i] = r
		}
	}
	return n + len(jobs)
}

// ---- check ----

type knownEntry struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // known | fixed
	ID       string `json:"id"`   // obligation name or harness case
	What     string `json:"what"`
}

func loadKnown(file string) []knownEntry {
	var ks []knownEntry
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, ln := range strings.Split(string(data), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known:") {
			continue
		}
		// known: property=<id> id=<quoted> <what>
		f := strings.SplitN(strings.TrimSpace(ln[6:]), " ", 2)
		if len(f) < 2 || !strings.HasPrefix(f[0], "property=") {
			continue
		}
		rest := strings.TrimSpace(f[1])
		if !strings.HasPrefix(rest, "id=\"") {
			continue
		}
		i := strings.Index(rest[4:], "\"")
		if i < 0 {
			continue
		}
		ks = append(ks, knownEntry{Property: f[0][9:], Kind: "known", ID: rest[4 : 4+i], What: strings.TrimSpace(rest[4+i+1:])})
	}
	return ks
}

type funcEvidence struct {
	Function   string   `json:"function"`
	Contract   string   `json:"contract"`
	Arithmetic string   `json:"arithmetic"`
	Floats     string   `json:"floats,omitempty"`
	Obls       int      `json:"obligations"`
	Discharged int      `json:"discharged"`
	Trivial    int      `json:"discharged_by_simplification"`
	Loops      int      `json:"loops_with_invariants"`
	LoopsNoDec int      `json:"loops_without_termination_measure"`
	Unrolled   int      `json:"loops_fully_unrolled"`
	Inlined    []string `json:"inlined,omitempty"`
	Calls      []string `json:"callee_contracts,omitempty"`
	Error      string   `json:"error,omitempty"`
}

type failure struct {
	ID     string `json:"id"`
	Func   string `json:"function"`
	Pos    string `json:"position,omitempty"`
	Clause string `json:"clause,omitempty"`
	Status string `json:"status"`
	Model  string `json:"counterexample_model,omitempty"`
	Output string `json:"verifier_output,omitempty"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	level := fs.String("level", "proof", "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	id := *prop
	outDir := filepath.Join(*verif, "out", id)
	os.MkdirAll(outDir, 0o755)
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	var fails []failure
	var fe []funcEvidence
	trusted := map[string]bool{}
	nob, ndis, ntriv, ncov := 0, 0, 0, 0
	var solverMS int64
	byBack := map[string]int{}
	generated := 0

	prog, err := loadProgram(*repo, patterns)
	if err != nil {
		fails = append(fails, failure{ID: "load", Status: "error", Output: err.Error()})
	}
	var sp *Specs
	if err == nil {
		sp, err = loadSpecs(filepath.Join(*verif, "contracts"))
		if err != nil {
			fails = append(fails, failure{ID: "contracts", Status: "error", Output: err.Error()})
		}
	}
	if err == nil {
		var keys []string
		for _, k := range sp.Order {
			if hasProp(sp.C[k], id) {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			fails = append(fails, failure{ID: "contracts", Status: "error", Output: "no contract mentions " + id})
		}
		results := verifyAll(prog, sp, keys, true)
		budget := 420 * time.Second
		if tier == "thorough" {
			budget = 3000 * time.Second
		}
		s, err := newSolver(budget)
		if err != nil {
			fatal("%v", err)
		}
		if tier == "thorough" {
			s.stage2 = 120
		}
		solveAll(s, prog, sp, results)
		s.close()
		solverMS = s.stats.ms
		byBack = s.stats.byBack
		for _, r := range results {
			c := sp.C[r.Key]
			if r.Trusted {
				trusted["contract assumed, body not verified: "+r.Key+" ("+c.Note+")"] = true
				continue
			}
			ev := funcEvidence{Function: r.Key, Contract: r.File, Arithmetic: arithName(c), Trivial: r.Trivial, Loops: r.Loops, LoopsNoDec: r.LoopsNoDec, Unrolled: r.Unrolled, Inlined: r.Inlined, Calls: r.Used, Error: r.Err, Floats: floatName(c)}
			for _, j := range r.Jobs {
				if j.Kind == "cover" {
					ncov++
				} else {
					ev.Obls++
					generated++
					if !j.bad() {
						ev.Discharged++
					}
				}
				if j.bad() {
					fails = append(fails, failure{ID: j.Name, Func: j.Func, Pos: j.Pos, Clause: j.Src, Status: j.Status, Model: j.Model, Output: firstN(j.Output, 1500)})
				}
			}
			if r.Err != "" {
				fails = append(fails, failure{ID: r.Key + ": outside the verifier's reach", Func: r.Key, Status: "error", Output: r.Err})
			}
			nob += ev.Obls
			ndis += ev.Discharged
			ntriv += r.Trivial
			for _, x := range r.Externs {
				trusted["external: "+x] = true
			}
			for _, x := range r.Notes {
				trusted[x] = true
			}
			if r.LoopsNoDec > 0 {
				trusted[fmt.Sprintf("termination not proved for %d loop(s) of %s", r.LoopsNoDec, r.Key)] = true
			}
			if c.Overflow == "wrap" && c.Mode == "int" {
				trusted["signed overflow wraps silently (modelled exactly, not an obligation) in "+r.Key] = true
			}
			fe = append(fe, ev)
		}
	}
	trusted["the Go front end (go/types), the obligation generator /verif/tool, and the SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2"] = true
	trusted["slice lengths and offsets are below 2^40; memory allocation succeeds; single-threaded use"] = true

	// concrete evaluation of the same contracts on the compiled code
	hr := runHarness(*repo, *verif, id, seed, tier, fails)
	var hfail []failure
	if hr.Ran && hr.Failed {
		hfail = append(hfail, failure{ID: "concrete: " + hr.Case, Status: "failed", Output: hr.Output, Clause: hr.What})
	} else if hr.Ran && hr.Broken {
		hfail = append(hfail, failure{ID: "concrete: harness does not build or run", Status: "error", Output: firstN(hr.Output, 3000)})
	}

	isKnown := func(f failure) *knownEntry {
		for i := range known {
			if known[i].Property == id && known[i].ID == f.ID {
				return &known[i]
			}
		}
		return nil
	}
	var open, openC []failure
	for _, f := range fails {
		if k := isKnown(f); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			continue
		}
		open = append(open, f)
	}
	for _, f := range hfail {
		if k := isKnown(f); k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			continue
		}
		openC = append(openC, f)
	}
	for _, k := range hr.Known {
		ok := false
		for i := range known {
			if known[i].Property == id && known[i].ID == "concrete: "+k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[i].What)
				ok = true
			}
		}
		if !ok {
			openC = append(openC, failure{ID: "concrete: " + k, Status: "failed"})
		}
	}
	viol := len(open) + len(openC)

	var tb []string
	for k := range trusted {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	cov := map[string]interface{}{
		"obligations":                  nob,
		"discharged":                   ndis,
		"checker_cmd":                  fmt.Sprintf("cd /verif/tool && go build -o /tmp/govc . && VERIF_SEED=%d VERIF_TIER=%s /tmp/govc check -prop %s", seed, tier, id),
		"trusted_base":                 tb,
		"functions_under_contract":     fe,
		"discharged_by_simplification": ntriv,
		"vacuity_checks":               ncov,
		"solver_ms":                    solverMS,
		"discharged_by_backend":        byBack,
	}
	if hr.Ran {
		cov["bounded_concrete_evaluation"] = map[string]interface{}{
			"what":   "the same contracts evaluated on the compiled code; bounded, not counted as proved: " + hr.Note,
			"cases":  hr.Cases,
			"detail": hr.Detail,
		}
	}
	if len(open)+len(openC) > 0 {
		cov["failed"] = append(append([]failure{}, openC...), open...)
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": *level, "coverage": cov,
		"assumptions": tb, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*verif, "evidence", id+".json"), append(b, '\n'), 0o644)

	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged (+%d by simplification), %d vacuity checks, solver time %.1fs, wall %.1fs\n", id, len(fe), nob, ndis, ntriv, ncov, float64(solverMS)/1000, time.Since(t0).Seconds())
	if hr.Ran {
		fmt.Printf("%s: bounded concrete evaluation: %d cases\n", id, hr.Cases)
	}
	if viol == 0 {
		os.Exit(0)
	}
	rp := filepath.Join(outDir, "replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", id)
	if len(openC) > 0 {
		fmt.Fprintf(&sb, "failing input on the real code:\n")
		for _, f := range openC {
			fmt.Fprintf(&sb, "  %s\n  %s\n%s\n", f.ID, f.Clause, f.Output)
		}
		fmt.Fprintf(&sb, "replay: cd %s && VERIF_SEED=%d %s\n\n", *repo, seed, hr.Cmd)
	}
	for _, f := range open {
		fmt.Fprintf(&sb, "failed obligation: %s\n  at %s\n  clause: %s\n  status: %s\n", f.ID, f.Pos, f.Clause, f.Status)
		if f.Model != "" {
			fmt.Fprintf(&sb, "  counterexample (verifier): %s\n", f.Model)
		}
		fmt.Fprintf(&sb, "  verifier output: %s\n\n", f.Output)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range openC {
		if i < 5 {
			fmt.Printf("failing input: %s %s\n", f.ID, firstN(f.Clause, 300))
		}
	}
	for i, f := range open {
		if i < 12 {
			fmt.Printf("failed obligation: %s [%s] at %s\n", f.ID, f.Status, f.Pos)
			if f.Status == "error" {
				fmt.Printf("   %s\n", firstN(f.Output, 300))
			}
		}
	}
	if len(openC) > 0 && !hr.Broken {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	os.Exit(1)
}

func arithName(c *Contract) string {
	if c.Mode == "bv" {
		return "machine integers (bit-vectors)"
	}
	if c.Overflow == "wrap" {
		return "integers with exact wrap-around"
	}
	return "mathematical integers; signed overflow excluded by obligations, unsigned wraps exactly"
}

func floatName(c *Contract) string {
	switch c.Floats {
	case "fp":
		return "IEEE-754 bit-precise"
	case "real":
		return "real arithmetic (rounding ignored)"
	}
	return "uninterpreted operations"
}

// ---- concrete harness ----

type harnessResult struct {
	Ran, Failed, Broken bool
	Case, What          string
	Output              string
	Cases               int
	Detail              map[string]int
	Note                string
	Cmd                 string
	Known               []string
}

// runHarness evaluates the property's executable contract on the real code.
// The harness is an in-package test laid over /repo with go test -overlay.
func runHarness(repo, verif, id string, seed int, tier string, fails []failure) (r harnessResult) {
	var found string
	pkg := ""
	for _, p := range []string{"detour", "recast"} {
		f := filepath.Join(verif, "harness", p, "verif_"+id+"_test.go")
		if _, err := os.Stat(f); err == nil {
			found, pkg = f, p
		}
	}
	if found == "" {
		return
	}
	r.Ran = true
	tmp, err := os.MkdirTemp("", "govc-h-")
	if err != nil {
		r.Broken = true
		r.Output = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	rep[filepath.Join(repo, pkg, "zz_verif_"+id+"_test.go")] = found
	rep[filepath.Join(repo, pkg, "zz_verif_common_test.go")] = filepath.Join(verif, "harness", pkg, "verif_common_test.go")
	// shared parts, named by lines "verif:share NAME"
	if src, e := os.ReadFile(found); e == nil {
		for _, m := range regexp.MustCompile(`verif:share (\w+)`).FindAllStringSubmatch(string(src), -1) {
			rep[filepath.Join(repo, pkg, "zz_verif_share_"+m[1]+"_test.go")] = filepath.Join(verif, "harness", pkg, "share_"+m[1]+"_test.go")
		}
	}
	// the package's own tests are not needed here
	olds, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, o := range olds {
		rep[o] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(verif, "out", id, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	hints := filepath.Join(tmp, "hints.txt")
	var hb strings.Builder
	for _, f := range fails {
		hb.WriteString(f.Model + "\n")
	}
	os.WriteFile(hints, []byte(hb.String()), 0o644)
	outf := filepath.Join(tmp, "result.json")
	cmdline := fmt.Sprintf("go test -overlay %s -run '^TestVerif%s$' -count=1 ./%s", ovf, id, pkg)
	r.Cmd = cmdline
	to := "200s"
	if tier == "thorough" {
		to = "1500s"
	}
	cmd := exec.Command("go", "test", "-overlay", ovf, "-run", "^TestVerif"+id+"$", "-count=1", "-timeout", to, "./"+pkg)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "VERIF_HINTS="+hints, "VERIF_RESULT="+outf, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "TMPDIR="+tmp)
	out, err := cmd.CombinedOutput()
	r.Output = string(out)
	if len(r.Output) > 12000 {
		r.Output = r.Output[:6000] + "\n...\n" + r.Output[len(r.Output)-6000:]
	}
	var res struct {
		Cases  int            `json:"cases"`
		Detail map[string]int `json:"detail"`
		Fail   string         `json:"fail"`
		What   string         `json:"what"`
		Note   string         `json:"note"`
		Known  []string       `json:"known"`
	}
	if data, e := os.ReadFile(outf); e == nil {
		json.Unmarshal(data, &res)
	}
	r.Cases, r.Detail, r.Case, r.What, r.Note, r.Known = res.Cases, res.Detail, res.Fail, res.What, res.Note, res.Known
	if res.Fail != "" {
		r.Failed = true
		return
	}
	if err != nil {
		if strings.Contains(r.Output, "[build failed]") || strings.Contains(r.Output, "setup failed") {
			r.Broken = true
			return
		}
		// a crash of the code under test (fatal error, os.Exit, unrecovered panic)
		r.Failed = true
		r.Case = "crash"
		r.What = "the code under test ended the process"
	}
	return
}
