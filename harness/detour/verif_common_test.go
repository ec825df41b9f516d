package detour

// Common part of the concrete evaluators. They evaluate the contracts of
// /verif/contracts on the compiled functions, on seeded inputs and on the
// scalar values of verifier counterexamples (VERIF_HINTS).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vh struct {
	t      *testing.T
	rng    *rand.Rand
	cases  int
	detail map[string]int
	fail   string
	what   string
	note   string
	known  []string
	cur    string
	curAt  time.Time
	mu     sync.Mutex
	hints  []int64
	thorough bool
	start  time.Time
}

type vstop struct{}

func newVH(t *testing.T, note string) *vh {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	h := &vh{t: t, rng: rand.New(rand.NewSource(seed*7919 + 11)), detail: map[string]int{}, note: note, start: time.Now()}
	h.thorough = os.Getenv("VERIF_TIER") == "thorough"
	if d, err := os.ReadFile(os.Getenv("VERIF_HINTS")); err == nil {
		re := regexp.MustCompile(`\(- (\d+)\)|#x([0-9a-f]+)|\b(\d+)\)`)
		for _, m := range re.FindAllStringSubmatch(string(d), 400) {
			switch {
			case m[1] != "":
				if v, err := strconv.ParseInt(m[1], 10, 64); err == nil {
					h.hints = append(h.hints, -v)
				}
			case m[2] != "":
				if v, err := strconv.ParseUint(m[2], 16, 64); err == nil {
					h.hints = append(h.hints, int64(v))
				}
			case m[3] != "":
				if v, err := strconv.ParseInt(m[3], 10, 64); err == nil {
					h.hints = append(h.hints, v)
				}
			}
		}
	}
	go h.watch()
	return h
}

// watch ends the process when one case does not finish.
func (h *vh) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		h.mu.Lock()
		stuck := h.cur != "" && time.Since(h.curAt) > 20*time.Second
		if stuck {
			h.fail = "hang"
			h.what = "no result after 20 s: " + h.cur
			h.write()
			os.Exit(1)
		}
		h.mu.Unlock()
	}
}

func (h *vh) write() {
	if f := os.Getenv("VERIF_RESULT"); f != "" {
		b, _ := json.Marshal(map[string]interface{}{"cases": h.cases, "detail": h.detail, "fail": h.fail, "what": h.what, "note": h.note, "known": h.known})
		os.WriteFile(f, b, 0o644)
	}
}

func (h *vh) done() {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.cur = ""
	h.write()
	if h.fail != "" {
		h.t.Errorf("%s: %s", h.fail, h.what)
	}
}

func (h *vh) failf(name, f string, a ...interface{}) {
	h.mu.Lock()
	if h.fail == "" {
		h.fail, h.what = name, fmt.Sprintf(f, a...)
	}
	h.mu.Unlock()
	panic(vstop{})
}

// ok checks a contract clause.
func (h *vh) ok(c bool, name, f string, a ...interface{}) {
	if !c {
		h.failf(name, f, a...)
	}
}

// do runs one case; a panic of the code under test is a violation.
func (h *vh) do(group string, in string, f func()) {
	if h.fail != "" {
		return
	}
	h.mu.Lock()
	h.cases++
	h.detail[group]++
	h.cur, h.curAt = group+" "+in, time.Now()
	h.mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(vstop); is {
				h.what += " [input: " + in + "]"
				return
			}
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			h.mu.Lock()
			if h.fail == "" {
				h.fail, h.what = group+": panic", fmt.Sprintf("%v [input: %s]\n%s", r, in, st)
			}
			h.mu.Unlock()
		}
	}()
	f()
}

// panics runs f and tells whether it panicked.
func (h *vh) panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(vstop); is {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return
}

func (h *vh) n(quick int) int {
	if h.thorough {
		return quick * 20
	}
	return quick
}

func (h *vh) intn(n int) int { return h.rng.Intn(n) }

// interesting 32-bit values: hints, boundaries, random
func (h *vh) u32() uint32 {
	switch h.intn(5) {
	case 0:
		if len(h.hints) > 0 {
			return uint32(h.hints[h.intn(len(h.hints))])
		}
		return uint32(h.intn(4))
	case 1:
		return uint32(1)<<uint(h.intn(32)) + uint32(h.intn(3)) - 1
	case 2:
		return uint32(h.intn(70))
	case 3:
		return ^uint32(h.intn(4))
	}
	return h.rng.Uint32()
}

func sprint(a ...interface{}) string {
	var b strings.Builder
	for i, x := range a {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%v", x)
	}
	return b.String()
}
