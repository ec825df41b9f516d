id='C14-grow'; property='C14'; pkg='recast'
needs='an added span that is swallowed by a taller existing one starting below it, with further spans above'
breaks='when the new span lies inside an existing one and starts a new merge, the taller top is kept only if the bottom did not move, so solid matter above the new span is lost'
edits=[('recast/heightfield.go','''			if cur.smin < s.smin {
				s.smin = cur.smin
			}
			if cur.smax > s.smax {
				s.smax = cur.smax
			}
''','''			if cur.smax > s.smax && cur.smin-s.smin < 0x8000 {
				s.smax = cur.smax
			} else if cur.smax > s.smax {
				// starts below the new span: keep the higher top
				s.smax += (cur.smax - s.smax) & 0x3fff
			}
			if cur.smin < s.smin {
				s.smin = cur.smin
			}
''')]
test='''
import "testing"

func TestDemo(t *testing.T) {
	hf := NewHeightfield(1, 1, []float32{0, 0, 0}, []float32{1, 1, 1}, 1, 1)
	hf.addSpan(0, 0, 10, 40000, 1, 1)
	hf.addSpan(0, 0, 20, 30, 1, 1)
	if s := hf.Spans[0]; s.smin != 10 || s.smax != 40000 || s.next != nil {
		t.Fatalf("column is %d-%d", s.smin, s.smax)
	}
	hf.addSpan(0, 0, 50000, 50001, 1, 1)
	hf.addSpan(0, 0, 45000, 50000, 1, 1)
	if s := hf.Spans[0].next; s.smin != 45000 || s.smax != 50001 || s.next != nil {
		t.Fatalf("column is %d-%d", s.smin, s.smax)
	}
}
'''
