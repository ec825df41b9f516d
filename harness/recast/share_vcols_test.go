package recast

// column model: intervals bottom to top
type vspan struct {
	lo, hi int
	area   uint8
}

// vcolumn reads one column of a heightfield; the bound guards against cycles
func vcolumn(hf *Heightfield, idx int) (out []vspan) {
	for s := hf.Spans[idx]; s != nil && len(out) < 70000; s = s.next {
		out = append(out, vspan{int(s.smin), int(s.smax), s.area})
	}
	return
}

func vcopy(hf *Heightfield) (out [][]vspan) {
	for i := range hf.Spans {
		out = append(out, vcolumn(hf, i))
	}
	return
}

func vsame(a, b []vspan) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// vfield builds a random heightfield with sorted, disjoint columns, linked by hand
func vfield(h *vh, w, d int32, maxSpans, height int) *Heightfield {
	hf := NewHeightfield(w, d, []float32{0, 0, 0}, []float32{float32(w), 100, float32(d)}, 1, 0.5)
	top := h.intn(3)
	for i := range hf.Spans {
		var prev *Span
		y := h.intn(1 + height/8)
		if h.intn(5) == 0 {
			y = 0
		}
		for k := h.intn(maxSpans + 1); k > 0; k-- {
			hi := y + h.intn(1+height/4)
			if hi > 65535 {
				hi = 65535
			}
			s := &Span{smin: uint16(y), smax: uint16(hi)}
			if top == 0 && k == 1 && h.intn(3) == 0 {
				s.smax = 65535
			}
			if h.intn(3) > 0 {
				s.area = uint8(1 + h.intn(63))
			}
			if prev == nil {
				hf.Spans[i] = s
			} else {
				prev.next = s
			}
			prev = s
			y = int(s.smax) + 1 + h.intn(1+height/4)
			if h.intn(4) == 0 {
				y = int(s.smax) + 1
			}
			if y > 65000 {
				break
			}
		}
	}
	return hf
}
