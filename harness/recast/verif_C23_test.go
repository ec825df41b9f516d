package recast

import (
	"math"
	"strings"
	"testing"
)

func TestVerifC23(t *testing.T) {
	h := newVH(t, "histories of up to 700 additions, deletions (first, last, middle) and mesh loads compared with a list kept beside, through the accessors only; volumes of 0 to 12 corners, any float bits")
	defer h.done()

	type vol struct {
		verts      []float32
		hmin, hmax float32
		area       uint8
	}
	same := func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
	equal := func(a vol, b ConvexVolume) bool {
		if int(b.NVerts)*3 != len(a.verts) || !same(a.hmin, b.HMin) || !same(a.hmax, b.HMax) || int32(a.area) != b.Area {
			return false
		}
		for i := range a.verts {
			if !same(a.verts[i], b.Verts[i]) {
				return false
			}
		}
		return true
	}
	for n := h.n(60); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		steps := 1 + h.intn(60)
		adds := 1 + h.intn(5) // of 6
		if n%4 == 0 {
			steps, adds = 300+h.intn(400), 5
		}
		h.do("history", sprint("seed steps", seed, steps), func() {
			ig := new(InputGeom)
			var want []vol
			val := func() float32 {
				if h.intn(4) == 0 {
					return math.Float32frombits(h.u32())
				}
				return float32(h.intn(1000)) / 8
			}
			for s := 0; s < steps; s++ {
				switch {
				case h.intn(300) == 0 && s > 0:
					// a new mesh starts over
					err := ig.LoadOBJMesh(strings.NewReader("v 0 0 0\nv 0 0 1\nv 1 0 0\nf 1 2 3\n"))
					h.ok(err == nil, "mesh loads", "step %d: %v", s, err)
					want = nil
				case h.intn(6) < adds || len(want) == 0:
					v := vol{hmin: val(), hmax: val(), area: uint8(h.intn(256))}
					for k := 3 * h.intn(13); k > 0; k-- {
						v.verts = append(v.verts, val())
					}
					in := append([]float32(nil), v.verts...)
					ig.AddConvexVolume(in, v.hmin, v.hmax, v.area)
					for i := range in {
						h.ok(same(in[i], v.verts[i]), "argument untouched", "step %d corner value %d", s, i)
						in[i] = 777 // the volume keeps its own copy
					}
					if len(want) < 256 {
						want = append(want, v)
					}
				default:
					i := h.intn(len(want))
					switch h.intn(4) {
					case 0:
						i = 0
					case 1:
						i = len(want) - 1
					}
					gone := ig.ConvexVolumes()[i]
					for k := range want {
						if equal(want[k], gone) {
							want = append(append([]vol(nil), want[:k]...), want[k+1:]...)
							break
						}
					}
					ig.DeleteConvexVolume(i)
				}
				if c := int(ig.ConvexVolumesCount()); c != len(want) {
					h.failf("count", "step %d: %d volumes, want %d", s, c, len(want))
					return
				}
				// each remaining volume is there once, in any order
				got := ig.ConvexVolumes()[:ig.ConvexVolumesCount()]
				taken := make([]bool, len(got))
				for i, v := range want {
					found := false
					for k := 0; k < len(got) && !found; k++ {
						j := (i + k) % len(got)
						if !taken[j] && equal(v, got[j]) {
							taken[j], found = true, true
						}
					}
					if !found {
						h.failf("volumes intact", "step %d: a volume with %d corners and area %d is lost or altered", s, len(v.verts)/3, v.area)
						return
					}
				}
				// additions go to the end
				if len(want) > 0 && len(want) < 256 && s%7 == 0 {
					v := vol{verts: []float32{1, 2, 3}, hmin: float32(s), area: 9}
					ig.AddConvexVolume(v.verts, v.hmin, v.hmax, v.area)
					want = append(want, v)
					h.ok(equal(v, ig.ConvexVolumes()[len(want)-1]), "appended", "step %d: the new volume is not the last one", s)
				}
			}
		})
	}
}
