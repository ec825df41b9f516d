package detour

import (
	"math"
	"testing"
)

func TestVerifC08(t *testing.T) {
	h := newVH(t, "random push/pop/modify/clear histories against a multiset, with ties, infinities and zeros of both signs; capacities 1 to 40")
	defer h.done()
	costs := []float32{0, float32(math.Copysign(0, -1)), 1, 1, 2, 3, -1, -5, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, 1e-40}
	cost := func() float32 {
		if h.intn(3) == 0 {
			return costs[h.intn(len(costs))]
		}
		return float32(h.intn(12)) + h.rng.Float32()*float32(h.intn(2))
	}
	for k := 0; k < h.n(1500); k++ {
		capa := int32(1 + h.intn(40))
		if h.intn(3) == 0 {
			capa = int32(1 + h.intn(4))
		}
		nops := 5 + h.intn(120)
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("queue history", sprint("capacity", capa, "ops", nops, "rng", seed), func() {
			q := newnodeQueue(capa)
			in := map[*Node]int{}
			n := 0
			var pool []*Node
			bufLen := len(q.heap)
			spare := q.heap[:cap(q.heap)]
			for op := 0; op < nops; op++ {
				switch c := h.intn(10); {
				case c < 5 && n < int(capa):
					nd := &Node{Total: cost(), ID: PolyRef(op)}
					if len(pool) > 0 && h.intn(8) == 0 {
						nd = pool[h.intn(len(pool))]
						if in[nd] > 0 {
							nd = &Node{Total: cost(), ID: PolyRef(op)}
						}
					}
					tot := nd.Total
					q.push(nd)
					pool = append(pool, nd)
					in[nd]++
					n++
					h.ok(nd.Total == tot && nd.ID == nd.ID, "push", "changed the node")
				case c < 8 && n > 0:
					tp := q.top()
					min := float32(math.Inf(1))
					for x, m := range in {
						if m > 0 && x.Total < min {
							min = x.Total
						}
					}
					h.ok(tp.Total == min && in[tp] > 0, "top", "top has total %v, minimum is %v", tp.Total, min)
					p := q.pop()
					h.ok(p == tp, "pop", "pop returned another node than top")
					in[p]--
					n--
				case c == 8 && n > 0:
					// lower the cost of a queued node
					var qd []*Node
					for _, x := range pool {
						if in[x] > 0 {
							qd = append(qd, x)
						}
					}
					x := qd[h.intn(len(qd))]
					if v := cost(); v < x.Total {
						x.Total = v
					}
					q.modify(x)
				case c == 9 && h.intn(12) == 0:
					q.clear()
					in = map[*Node]int{}
					n = 0
				case c == 9:
					q.modify(&Node{Total: -100}) // not queued: nothing happens
				}
				h.ok(int(q.size) == n && q.empty() == (n == 0), "size", "size %d, want %d", q.size, n)
				h.ok(len(q.heap) == bufLen && q.capacity == capa, "capacity", "buffer resized")
				cnt := map[*Node]int{}
				for i := int32(0); i < q.size; i++ {
					cnt[q.heap[i]]++
					if i > 0 {
						h.ok(q.heap[(i-1)/2].Total <= q.heap[i].Total, "heap order", "entry %d below its parent", i)
					}
				}
				for x, m := range in {
					h.ok(cnt[x] == m, "contents", "node %d queued %d times, want %d", x.ID, cnt[x], m)
				}
				_ = spare
			}
			// drain: totals come out in order
			last := float32(math.Inf(-1))
			for !q.empty() {
				p := q.pop()
				h.ok(p.Total >= last, "drain order", "%v after %v", p.Total, last)
				last = p.Total
				in[p]--
			}
			for _, m := range in {
				h.ok(m == 0, "drain contents", "")
			}
		})
	}
}
