package recast

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"
)

func TestVerifC26(t *testing.T) {
	h := newVH(t, "random call histories of the build context against a reference log and timer model, including full logs and disabled contexts")
	defer h.done()
	for k := 0; k < h.n(400); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("history", sprint("seed", seed), func() {
			state := h.intn(4) != 0
			ctx := NewBuildContext(state)
			logOn, timOn := state, state
			var log []string
			acc := make([]time.Duration, maxTimers)
			started := make([]time.Time, maxTimers)
			check := func(what string) {
				h.ok(ctx.LogCount() == len(log), "log count", "%s: %d messages, want %d", what, ctx.LogCount(), len(log))
				for i := range log {
					if ctx.LogText(int32(i)) != log[i] {
						h.ok(false, "log text", "%s: message %d is %q, want %q", what, i, ctx.LogText(int32(i)), log[i])
						return
					}
				}
				for i := range acc {
					if !timOn {
						h.ok(ctx.AccumulatedTime(TimerLabel(i)) <= 0, "disabled timer", "%s: timer %d %v", what, i, ctx.AccumulatedTime(TimerLabel(i)))
					} else if got := ctx.AccumulatedTime(TimerLabel(i)); got != acc[i] {
						h.ok(false, "timer", "%s: timer %d accumulated %v, want %v", what, i, got, acc[i])
						return
					}
				}
			}
			add := func(n int) {
				for ; n > 0; n-- {
					a, b := h.intn(1000), strings.Repeat("x%d", h.intn(3))
					pre := ""
					switch h.intn(3) {
					case 0:
						ctx.Progressf("%d=%s", a, b)
						pre = "PROG "
					case 1:
						ctx.Warningf("%d=%s", a, b)
						pre = "WARN "
					default:
						ctx.Errorf("%d=%s", a, b)
						pre = "ERR "
					}
					if logOn && len(log) < 1000 {
						log = append(log, pre+fmt.Sprintf("%d=%s", a, b))
					}
				}
			}
			for i := 0; i < 30; i++ {
				what := ""
				switch h.intn(12) {
				case 0:
					logOn = h.intn(3) != 0
					ctx.EnableLog(logOn)
					what = "EnableLog"
				case 1:
					timOn = h.intn(3) != 0
					ctx.EnableTimer(timOn)
					what = "EnableTimer"
				case 2:
					if h.intn(3) == 0 {
						ctx.ResetLog()
						if logOn {
							log = nil
						}
					}
					what = "ResetLog"
				case 3:
					if h.intn(3) == 0 {
						ctx.ResetTimers()
						if timOn {
							for i := range acc {
								acc[i] = 0
							}
						}
					}
					what = "ResetTimers"
				case 4, 5, 6:
					n := 1 + h.intn(8)
					if h.intn(6) == 0 {
						n = 990 + h.intn(30)
					}
					add(n)
					what = "log"
				case 7:
					var b bytes.Buffer
					ctx.DumpLog(&b, "head %d", 7)
					want := "head 7\n"
					for _, l := range log {
						want += l + "\n"
					}
					h.ok(b.String() == want, "dump", "DumpLog of %d messages gives %d bytes, want %d", len(log), b.Len(), len(want))
					what = "DumpLog"
				case 8, 9:
					l := h.intn(maxTimers)
					t0 := time.Now()
					ctx.StartTimer(TimerLabel(l))
					if timOn {
						started[l] = t0
					}
					what = "StartTimer"
				default:
					l := h.intn(maxTimers)
					if timOn && started[l].IsZero() {
						break
					}
					was := ctx.accTime[l]
					t0 := time.Now()
					if timOn {
						// make the elapsed time large enough to tell apart
						back := time.Duration(1+h.intn(1000)) * time.Hour
						ctx.startTime[l] = t0.Add(-back)
						ctx.StopTimer(TimerLabel(l))
						d := ctx.accTime[l] - was
						h.ok(d >= back && d <= back+time.Since(t0), "stop timer", "timer %d: elapsed %v but %v was added to %v", l, back, d, was)
						acc[l] = ctx.accTime[l]
					} else {
						ctx.StopTimer(TimerLabel(l))
						h.ok(ctx.accTime[l] == was, "stop disabled timer", "timer %d changed from %v to %v", l, was, ctx.accTime[l])
					}
					what = "StopTimer"
				}
				check(what)
			}
		})
	}
}
