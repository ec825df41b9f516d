package recast

import "testing"

func TestVerifC16(t *testing.T) {
	h := newVH(t, "SetCon/GetCon on random and boundary packed words, all directions; direction tables")
	defer h.done()
	for k := 0; k < h.n(20000); k++ {
		s := CompactSpan{Y: uint16(h.u32()), Reg: uint16(h.u32()), Con: h.u32(), H: uint8(h.u32())}
		dir, v := int32(h.intn(4)), int32(h.intn(64))
		h.do("SetCon", sprint("con", s.Con, "dir", dir, "value", v), func() {
			b := s
			SetCon(&s, dir, v)
			for d := int32(0); d < 4; d++ {
				want := int32(b.Con >> (6 * uint(d)) & 63)
				if d == dir {
					want = v
				}
				h.ok(GetCon(&s, d) == want, "GetCon after SetCon", "direction %d reads %d, want %d", d, GetCon(&s, d), want)
			}
			h.ok(s.Con>>24 == b.Con>>24 && s.Y == b.Y && s.Reg == b.Reg && s.H == b.H, "SetCon frame", "other bits or fields changed")
		})
	}
	for d := int32(0); d < 4; d++ {
		h.do("directions", sprint("dir", d), func() {
			x, y := GetDirOffsetX(d), GetDirOffsetY(d)
			h.ok(x*x+y*y == 1, "unit step", "%d,%d", x, y)
			h.ok(x+GetDirOffsetX((d+2)&3) == 0 && y+GetDirOffsetY((d+2)&3) == 0, "opposite directions", "")
			h.ok(GetDirForOffset(x, y) == d, "GetDirForOffset", "got %d", GetDirForOffset(x, y))
			h.ok(GetDirOffsetX(d+4) == x && GetDirOffsetY(d-4) == y, "direction modulo 4", "")
			for e := int32(0); e < d; e++ {
				h.ok(GetDirOffsetX(e) != x || GetDirOffsetY(e) != y, "distinct steps", "")
			}
			h.ok(x == []int32{-1, 0, 1, 0}[d] && y == []int32{0, 1, 0, -1}[d], "direction order", "%d,%d", x, y)
		})
	}
}
