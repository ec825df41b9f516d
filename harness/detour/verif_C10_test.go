package detour

import (
	"math"
	"testing"

	"github.com/arl/gogeo/f32/d3"
)

func TestVerifC10(t *testing.T) {
	h := newVH(t, "filter decisions and packed area/type on boundary and random values")
	defer h.done()
	for k := 0; k < h.n(20000); k++ {
		p := Poly{Flags: uint16(h.u32()), AreaAndType: uint8(h.u32()), FirstLink: h.u32(), VertCount: uint8(h.u32())}
		if h.intn(2) == 0 {
			p.Flags = 1 << uint(h.intn(16))
		}
		qf := NewStandardQueryFilter()
		inc, exc := uint16(h.u32()), uint16(h.u32())
		if h.intn(2) == 0 {
			inc, exc = 1<<uint(h.intn(16)), 1<<uint(h.intn(16))
		}
		h.do("PassFilter", sprint("flags", p.Flags, "include", inc, "exclude", exc), func() {
			h.ok(qf.IncludeFlags() == 0xffff && qf.ExcludeFlags() == 0, "defaults", "")
			qf.SetIncludeFlags(inc)
			h.ok(qf.IncludeFlags() == inc && qf.ExcludeFlags() == 0, "SetIncludeFlags", "")
			qf.SetExcludeFlags(exc)
			h.ok(qf.IncludeFlags() == inc && qf.ExcludeFlags() == exc, "SetExcludeFlags", "")
			want := p.Flags&inc != 0 && p.Flags&exc == 0
			h.ok(qf.PassFilter(PolyRef(h.u32()), nil, &p) == want, "PassFilter", "want %v", want)
		})
		a, ty := uint8(h.intn(64)), uint8(h.intn(4))
		h.do("area and type", sprint("byte", p.AreaAndType, "area", a, "type", ty), func() {
			b := p
			h.ok(b.Area() == b.AreaAndType&63 && b.Type() == b.AreaAndType>>6, "Area/Type", "")
			oldT := b.Type()
			b.SetArea(a)
			h.ok(b.Area() == a && b.Type() == oldT, "SetArea", "area %d type %d, was type %d", b.Area(), b.Type(), oldT)
			b.SetType(ty)
			h.ok(b.Area() == a && b.Type() == ty, "SetType", "area %d type %d", b.Area(), b.Type())
			b.AreaAndType = p.AreaAndType
			h.ok(b == p, "packed byte only", "")
		})
		i := int32(h.intn(64))
		c := float32(h.rng.NormFloat64() * 10)
		h.do("costs", sprint("area", i, "cost", c), func() {
			for j := int32(0); j < 64; j++ {
				h.ok(qf.AreaCost(j) == 1, "default cost", "area %d", j)
			}
			qf.SetAreaCost(i, c)
			for j := int32(0); j < 64; j++ {
				w := float32(1)
				if j == i {
					w = c
				}
				h.ok(qf.AreaCost(j) == w, "SetAreaCost", "area %d cost %v", j, qf.AreaCost(j))
			}
			pa := d3.Vec3{h.rng.Float32() * 100, h.rng.Float32() * 100, h.rng.Float32() * 100}
			pb := d3.Vec3{h.rng.Float32() * 100, h.rng.Float32() * 100, h.rng.Float32() * 100}
			p.SetArea(uint8(h.intn(64)))
			if h.intn(2) == 0 {
				p.SetArea(uint8(i))
			}
			prev, next := &Poly{}, &Poly{}
			prev.SetArea(uint8(h.intn(64)))
			next.SetArea(uint8(h.intn(64)))
			got := qf.Cost(pa, pb, 1, nil, prev, 2, nil, &p, 3, nil, next)
			dx, dy, dz := float64(pa[0])-float64(pb[0]), float64(pa[1])-float64(pb[1]), float64(pa[2])-float64(pb[2])
			want := math.Sqrt(dx*dx+dy*dy+dz*dz) * float64(qf.AreaCost(int32(p.Area())))
			h.ok(math.Abs(float64(got)-want) <= 1e-3*(1+math.Abs(want)), "Cost", "got %v want %v", got, want)
		})
	}
}
