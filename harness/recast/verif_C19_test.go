package recast

import "testing"

func TestVerifC19(t *testing.T) {
	h := newVH(t, "insertion histories (up to 400 vertices, clustered, colliding and boundary coordinates) against a reference list; hash range")
	defer h.done()
	// coordinates that share a bucket
	byBucket := map[int32][][2]uint16{}
	for x := 0; x < 130; x++ {
		for z := 0; z < 130; z++ {
			b := computeVertexHash(int32(x), 0, int32(z))
			byBucket[b] = append(byBucket[b], [2]uint16{uint16(x), uint16(z)})
		}
	}
	for k := 0; k < h.n(40000); k++ {
		x, z := uint16(h.u32()), uint16(h.u32())
		h.do("hash", sprint("x", x, "z", z), func() {
			b := computeVertexHash(int32(x), 0, int32(z))
			h.ok(b >= 0 && b < VERTEX_BUCKET_COUNT, "bucket in range", "got %d", b)
			h.ok(b == computeVertexHash(int32(x), 0, int32(z)), "bucket is a function of the position", "")
		})
	}
	for k := 0; k < h.n(1200); k++ {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		kind := h.intn(4)
		n := 1 + h.intn(400)
		if kind == 3 {
			n = 1 + h.intn(40)
		}
		h.do("history", sprint("seed", seed, "kind", kind, "count", n), func() {
			spare := h.intn(3)
			verts := make([]uint16, 3*(n+spare))
			for i := range verts {
				verts[i] = 0xaaaa
			}
			next := make([]int32, n+spare)
			first := make([]int32, VERTEX_BUCKET_COUNT)
			for i := range first {
				first[i] = -1
			}
			var nv int32
			var ref [][3]uint16
			var pool [][2]uint16
			for len(pool) == 0 {
				c := byBucket[int32(h.intn(int(VERTEX_BUCKET_COUNT)))]
				if len(c) > 1 {
					pool = append(pool, c...)
				}
			}
			base := uint16(h.u32())
			for i := 0; i < n; i++ {
				var x, y, z uint16
				switch kind {
				case 0: // dense
					x, z = uint16(h.intn(6)), uint16(h.intn(6))
					y = uint16(h.intn(12))
				case 1: // colliding buckets
					p := pool[h.intn(len(pool))]
					x, z = p[0], p[1]
					y = uint16(h.intn(30))
				case 2: // ends of the range
					x, z = uint16(65535*h.intn(2)), uint16(65535-h.intn(2))
					y = uint16(h.intn(5)) - 2
				default:
					x, z = uint16(h.u32()), uint16(h.u32())
					y = base + uint16(h.intn(9))
				}
				want := -1
				for j, r := range ref {
					d := int(r[1]) - int(y)
					if r[0] == x && r[2] == z && d <= 2 && d >= -2 {
						want = j
					}
				}
				got := int(addVertex(x, y, z, verts, first, next, &nv))
				if want < 0 {
					h.ok(got == len(ref), "new vertex", "step %d: vertex %v got number %d, want %d", i, [3]uint16{x, y, z}, got, len(ref))
					ref = append(ref, [3]uint16{x, y, z})
				} else {
					h.ok(got < len(ref), "existing vertex reused", "step %d: vertex %v got number %d, stored before: %v", i, [3]uint16{x, y, z}, got, ref[want])
					d := int(ref[got][1]) - int(y)
					h.ok(ref[got][0] == x && ref[got][2] == z && d <= 2 && d >= -2, "vertex at that position", "step %d: vertex %v got %v", i, [3]uint16{x, y, z}, ref[got])
				}
				h.ok(int(nv) == len(ref), "count", "step %d: %d vertices, want %d", i, nv, len(ref))
				for j, r := range ref {
					h.ok(verts[3*j] == r[0] && verts[3*j+1] == r[1] && verts[3*j+2] == r[2], "stored vertices keep their coordinates", "step %d: vertex %d is %v, was %v", i, j, verts[3*j:3*j+3], r)
				}
			}
		})
	}
}
