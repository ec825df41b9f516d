package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

type Job struct {
	Name, Kind, Pos, Src, Func string
	Timeout                    int
	Script                     string
	Ground                     string // the script without quantified hypotheses (sufficient when unsatisfiable)
	Inputs                     []string
	Status                     string // proved, failed, unknown, vacuous, ok
	Solver                     string
	MS                         int64
	Model                      string
	Output                     string
	id                         int
}

func (j *Job) bad() bool {
	return j.Status == "failed" || j.Status == "unknown" || j.Status == "vacuous"
}

type backend struct {
	name string
	args func(file string, secs int) []string
}

// oldMatch: pattern-based instantiation only; terminates quickly.
var oldMatch = backend{"z3-4.8.12/ematching", func(f string, s int) []string {
	return []string{"z3", fmt.Sprintf("-T:%d", s), "-memory:4000", "auto_config=false", "smt.mbqi=false", f}
}}

var backends = []backend{
	{"z3-5.3.2", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-memory:4000", f} }},
	{"z3-5.3.2/ematching", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-memory:4000", "auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.relevancy=2", f}
	}},
	{"z3-5.3.2/seed3", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-memory:4000", "auto_config=false", "smt.random_seed=3", f}
	}},
	{"cvc5-1.1.2", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
	{"z3-4.8.12", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), "-memory:4000", f} }},
	{"z3-5.3.2/seed7", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "-memory:4000", "smt.random_seed=7", "smt.arith.solver=2", f}
	}},
}

func runSolver(ctx context.Context, b backend, file string, secs int) (string, string, int64) {
	args := b.args(file, secs)
	c2, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c2, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	ms := time.Since(t0).Milliseconds()
	o := out.String()
	first := ""
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "WARNING") {
			continue // a remark about a pattern
		}
		first = l
		break
	}
	switch first {
	case "sat", "unsat", "unknown":
	case "timeout":
		first = "unknown"
	default:
		if strings.Contains(o, "error") {
			first = "error"
		} else {
			first = "unknown"
		}
	}
	if len(o) > 4000 {
		o = o[:4000]
	}
	return first, o, ms
}

type solveStats struct {
	mu     sync.Mutex
	ms     int64
	byBack map[string]int
}

func (s *solveStats) add(b string, ms int64, won bool) {
	s.mu.Lock()
	s.ms += ms
	if won {
		s.byBack[b]++
	}
	s.mu.Unlock()
}

type solver struct {
	dir      string
	stats    *solveStats
	deadline time.Time
	failures map[string]int
	mu       sync.Mutex
	keep     bool
	chatty   bool
	stage1   int
	stage2   int
	base     int
	hasty    bool
}

func newSolver(budget time.Duration) (*solver, error) {
	d, err := os.MkdirTemp("", "govc-")
	if err != nil {
		return nil, err
	}
	return &solver{dir: d, stats: &solveStats{byBack: map[string]int{}}, deadline: time.Now().Add(budget), failures: map[string]int{}, stage1: 5, stage2: 25}, nil
}

func (s *solver) close() {
	if !s.keep {
		os.RemoveAll(s.dir)
	}
}

func (s *solver) run(jobs []*Job) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	ch := make(chan *Job)
	var wg sync.WaitGroup
	var hard []*Job
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if !s.first(j) {
					s.mu.Lock()
					hard = append(hard, j)
					s.mu.Unlock()
				}
			}
		}()
	}
	for i, j := range jobs {
		j.id = s.base + i
		ch <- j
	}
	close(ch)
	wg.Wait()
	// hard obligations: several back ends at once
	w := 3
	ch = make(chan *Job)
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				s.second(j)
			}
		}()
	}
	for _, j := range hard {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// patient: long runs of every back end on a few obligations, two at a time.
func (s *solver) patient(jobs []*Job) {
	s.stage2, s.stage1 = 100, 5
	ch := make(chan *Job)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				j.Timeout = 0
				s.second(j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (s *solver) file(j *Job, suffix, script string) string {
	f := filepath.Join(s.dir, fmt.Sprintf("o%05d%s.smt2", j.id, suffix))
	os.WriteFile(f, []byte(script), 0o644)
	return f
}

// first: quick attempt. Returns false when the obligation needs more effort.
func (s *solver) first(j *Job) bool {
	f := s.file(j, "", j.Script)
	secs := s.stage1
	if j.Kind == "cover" {
		secs = 2
	}
	if j.Ground != "" {
		b := backend{backends[0].name + "/ground", backends[0].args}
		r, _, ms := runSolver(context.Background(), b, s.file(j, "g", j.Ground), 1)
		j.MS = ms
		s.stats.add(b.name, ms, r == "unsat")
		if r == "unsat" {
			j.Status, j.Solver = "proved", b.name
			if !s.keep {
				os.Remove(f)
			}
			return true
		}
	}
	if j.Kind != "cover" && strings.Contains(j.Script, "(forall ") {
		r, _, ms := runSolver(context.Background(), oldMatch, f, 3)
		s.stats.add(oldMatch.name, ms, r == "unsat")
		if r == "unsat" {
			j.MS, j.Status, j.Solver = ms, "proved", oldMatch.name
			if !s.keep {
				os.Remove(f)
			}
			return true
		}
	}
	r, o, ms := runSolver(context.Background(), backends[0], f, secs)
	j.MS = ms
	s.stats.add(backends[0].name, ms, r == "unsat" && j.Kind != "cover")
	if j.Kind == "cover" {
		if r == "unsat" {
			j.Status = "vacuous"
			j.Output = "the hypotheses are contradictory"
		} else {
			j.Status = "ok"
		}
		if !s.keep {
			os.Remove(f)
		}
		return true
	}
	switch r {
	case "unsat":
		j.Status, j.Solver = "proved", backends[0].name
		if !s.keep {
			os.Remove(f)
		}
		return true
	case "sat":
		j.Status, j.Solver = "failed", backends[0].name
		j.Output = o
		s.model(j)
		s.noteFail(j)
		return true
	}
	j.Output = o
	return false
}

func (s *solver) noteFail(j *Job) {
	s.mu.Lock()
	s.failures[j.Func]++
	s.mu.Unlock()
}

func (s *solver) model(j *Job) {
	if len(j.Inputs) == 0 {
		return
	}
	f := s.file(j, "m", j.Script+"(get-value ("+strings.Join(j.Inputs, " ")+"))\n")
	_, o, _ := runSolver(context.Background(), backends[0], f, 5)
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		j.Model = strings.TrimSpace(o[i+1:])
	}
}

func (s *solver) second(j *Job) {
	s.mu.Lock()
	nf := s.failures[j.Func]
	s.mu.Unlock()
	secs := s.stage2
	if j.Timeout > 0 {
		secs = j.Timeout
	}
	if left := int(time.Until(s.deadline).Seconds()); left < secs {
		secs = left
	}
	if nf >= 3 && secs > 8 {
		secs = 8
	}
	if secs <= 0 || nf >= 8 {
		j.Status = "unknown"
		j.Output += "\n(no further attempt: budget used or the function already has failed obligations)"
		return
	}
	f := s.file(j, "", j.Script)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct {
		b    backend
		r, o string
		ms   int64
	}
	ch := make(chan rr, len(backends)+1)
	n := 0
	for i, b := range backends {
		if i == 0 && secs <= s.stage1 {
			continue
		}
		n++
		go func(b backend) {
			r, o, ms := runSolver(ctx, b, f, secs)
			ch <- rr{b, r, o, ms}
		}(b)
	}
	if j.Ground != "" {
		n++
		go func() {
			b := backend{backends[0].name + "/ground", backends[0].args}
			r, o, ms := runSolver(ctx, b, s.file(j, "g", j.Ground), secs)
			if r == "sat" {
				r = "unknown" // hypotheses were dropped
			}
			ch <- rr{b, r, o, ms}
		}()
	}
	var outs []string
	sat := ""
	for i := 0; i < n; i++ {
		x := <-ch
		s.stats.add(x.b.name, x.ms, x.r == "unsat" && j.Status != "proved")
		if j.Status == "proved" {
			continue
		}
		if x.r == "unsat" {
			j.Status, j.Solver = "proved", x.b.name
			j.MS += x.ms
			cancel()
			continue
		}
		if x.r == "sat" && sat == "" {
			sat = x.b.name
		}
		outs = append(outs, x.b.name+": "+strings.TrimSpace(x.o))
	}
	if j.Status == "proved" {
		if !s.keep {
			os.Remove(f)
		}
		return
	}
	j.Status = "unknown"
	if sat != "" {
		j.Status, j.Solver = "failed", sat
		s.model(j)
	}
	j.Output = strings.Join(outs, "\n")
	s.noteFail(j)
}
