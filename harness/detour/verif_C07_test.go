package detour

import "testing"

func TestVerifC07(t *testing.T) {
	h := newVH(t, "random get/find/clear histories of the node pool against a map, with colliding references, several states per reference, pools of 1 to 40 nodes and up to 65535 nodes")
	defer h.done()
	type key struct {
		id PolyRef
		st uint8
	}
	// references colliding in small tables
	coll := map[uint32][]PolyRef{}
	for r := PolyRef(0); r < 4096; r++ {
		b := hashRef(r) & 7
		coll[b] = append(coll[b], r)
	}
	history := func(maxNodes, hashSize int32, nops int, refs []PolyRef, states int) {
		np := newNodePool(maxNodes, hashSize)
		h.ok(np.MaxNodes() == maxNodes && np.HashSize() == hashSize && np.NodeCount() == 0, "new pool", "sizes %d %d %d", np.MaxNodes(), np.HashSize(), np.NodeCount())
		m := map[key]*Node{}
		var order []*Node
		type fields struct {
			cost, total float32
			pidx        uint32
			flags       NodeFlags
		}
		saved := map[*Node]fields{}
		check := func() {
			for k, n := range m {
				h.ok(n.ID == k.id && n.State == k.st, "identity", "node of %v is (%d,%d)", k, n.ID, n.State)
				h.ok(np.FindNode(k.id, k.st) == n, "find", "FindNode(%v) does not return the node handed out", k)
				f := saved[n]
				h.ok(n.Cost == f.cost && n.Total == f.total && n.PIdx == f.pidx && n.Flags == f.flags, "payload", "the payload of %v changed", k)
			}
			for i, n := range order {
				x := np.NodeIdx(n)
				h.ok(x == uint32(i+1), "index", "node %d has index %d", i, x)
				h.ok(np.NodeAtIdx(int32(x)) == n, "index", "NodeAtIdx(%d) is another node", x)
			}
			h.ok(np.NodeIdx(nil) == 0 && np.NodeAtIdx(0) == nil, "index", "nil node")
			h.ok(int(np.NodeCount()) == len(order), "count", "%d nodes, want %d", np.NodeCount(), len(order))
		}
		for op := 0; op < nops; op++ {
			id := refs[h.intn(len(refs))]
			st := uint8(h.intn(states))
			switch c := h.intn(20); {
			case c < 11:
				n := np.Node(id, st)
				if o, ok := m[key{id, st}]; ok {
					h.ok(n == o, "get", "Node(%d,%d) is not the node handed out before", id, st)
					break
				}
				if len(order) == int(maxNodes) {
					h.ok(n == nil, "full", "a node from a full pool")
					break
				}
				h.ok(n != nil, "get", "no node although %d of %d are used", len(order), maxNodes)
				h.ok(n.ID == id && n.State == st && n.Cost == 0 && n.Total == 0 && n.PIdx == 0 && n.Flags == 0, "fresh node", "%+v", *n)
				for _, o := range order {
					h.ok(o != n, "fresh node", "handed out twice")
				}
				m[key{id, st}] = n
				order = append(order, n)
				f := fields{h.rng.Float32(), h.rng.Float32(), uint32(h.intn(50)), NodeFlags(h.intn(8))}
				n.Cost, n.Total, n.PIdx, n.Flags = f.cost, f.total, f.pidx, f.flags
				saved[n] = f
			case c < 15:
				n := np.FindNode(id, st)
				h.ok(n == m[key{id, st}], "find", "FindNode(%d,%d)", id, st)
			case c < 19:
				mx := h.intn(6)
				buf := make([]*Node, mx+h.intn(2))
				got := np.FindNodes(id, buf, int32(mx))
				want := 0
				for k := range m {
					if k.id == id {
						want++
					}
				}
				if want > mx {
					want = mx
				}
				h.ok(int(got) == want, "find all", "FindNodes(%d, max %d) = %d, want %d", id, mx, got, want)
				seen := map[*Node]bool{}
				for _, n := range buf[:got] {
					h.ok(n != nil && n.ID == id && m[key{id, n.State}] == n && !seen[n], "find all", "wrong or repeated node")
					seen[n] = true
				}
				for _, n := range buf[got:] {
					h.ok(n == nil, "find all", "wrote past the nodes returned")
				}
			default:
				if h.intn(4) == 0 {
					np.Clear()
					for k := range m {
						h.ok(np.FindNode(k.id, k.st) == nil, "clear", "found after Clear")
					}
					m, order, saved = map[key]*Node{}, nil, map[*Node]fields{}
				}
			}
			if len(order) < 100 || op == nops-1 {
				check()
			}
		}
	}
	for k := 0; k < h.n(700); k++ {
		maxNodes := int32(1 + h.intn(40))
		hashSize := int32(1) << uint(h.intn(6))
		var refs []PolyRef
		if h.intn(2) == 0 {
			refs = coll[uint32(h.intn(8))][:2+h.intn(60)]
		} else {
			for i := 0; i < 1+h.intn(60); i++ {
				refs = append(refs, PolyRef(h.u32()))
			}
		}
		states := 1 + h.intn(4)
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("node pool history", sprint("max", maxNodes, "hash", hashSize, "refs", len(refs), "states", states, "rng", seed), func() {
			history(maxNodes, hashSize, 10+h.intn(100), refs, states)
		})
	}
	// the largest pool, filled completely
	for _, mx := range []int32{255, 256, 257, 65535} {
		h.do("large pool", sprint("max", mx), func() {
			np := newNodePool(mx, 256)
			for i := int32(0); i < mx; i++ {
				n := np.Node(PolyRef(i), uint8(i&3))
				h.ok(n != nil && np.NodeIdx(n) == uint32(i+1) && n == np.NodeAtIdx(i+1), "large pool", "node %d", i)
			}
			h.ok(np.Node(PolyRef(mx), 0) == nil, "large pool", "a node from a full pool")
			for i := int32(0); i < mx; i += 1 + mx/3000 {
				n := np.FindNode(PolyRef(i), uint8(i&3))
				h.ok(n != nil && n.ID == PolyRef(i) && n == np.NodeAtIdx(i+1), "large pool", "find %d", i)
				h.ok(np.FindNode(PolyRef(i), uint8((i+1)&3)) == nil, "large pool", "found a state never asked for")
			}
			h.ok(np.FindNode(PolyRef(mx), 0) == nil, "large pool", "found the rejected reference")
		})
	}
}
