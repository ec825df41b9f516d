package detour

// verif:share vgrid

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"reflect"
	"testing"
	"testing/iotest"
)

// choppy returns random amounts per read, sometimes none, and then err (EOF or
// another error), possibly together with the last bytes.
type choppy struct {
	h    *vh
	b    []byte
	err  error
	with bool
}

func (c *choppy) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := 1 + c.h.intn(40)
	if c.h.intn(6) == 0 {
		n = 0
	}
	if c.h.intn(5) == 0 {
		n = len(c.b)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 && c.with {
		return n, c.err
	}
	return n, nil
}

var errBroken = errors.New("broken")

func TestVerifC06(t *testing.T) {
	h := newVH(t, "written meshes cut at every record boundary and at random bytes, damaged headers, fragmenting and failing readers")
	defer h.done()

	sameMesh := func(name string, a, b *NavMesh) {
		h.ok(a.Params == b.Params && len(a.Tiles) == len(b.Tiles) && a.saltBits == b.saltBits && a.tileBits == b.tileBits && a.polyBits == b.polyBits, name, "parameters %v, want %v", b.Params, a.Params)
		for i := range a.Tiles {
			t, u := &a.Tiles[i], &b.Tiles[i]
			h.ok((t.Header == nil) == (u.Header == nil) && t.Salt == u.Salt && t.DataSize == u.DataSize, name, "slot %d differs", i)
			if t.Header == nil {
				continue
			}
			x, y := *t, *u
			x.Next, y.Next = nil, nil
			h.ok(reflect.DeepEqual(x, y), name, "tile %d differs", i)
		}
	}

	for n := h.n(300); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w := newVWorld(h, vopt{conns: h.intn(3), nobv: h.intn(3) == 0, maxW: 3 + h.intn(5)})
		h.do("mesh", sprint("seed", seed), func() {
			w.build(h)
			var buf bytes.Buffer
			h.ok(w.nav.ToWriter(&buf) == nil, "mesh", "ToWriter failed")
			b := buf.Bytes()
			refuse := func(name string, r io.Reader, f string, a ...interface{}) {
				nav, err := Decode(r)
				h.ok(err != nil, name, "no error: "+f, a...)
				h.ok(nav == nil, name, "a mesh was returned together with an error: "+f, a...)
			}
			nav, err := Decode(bytes.NewReader(b))
			h.ok(err == nil && nav != nil, "intact", "Decode: %v", err)
			live := 0
			for i := range nav.Tiles {
				if nav.Tiles[i].Header != nil {
					live++
				}
			}
			h.ok(live == len(w.tiles), "intact", "%d tiles, want %d", live, len(w.tiles))

			// how the bytes are split into reads does not matter
			for k := 0; k < 8; k++ {
				var r io.Reader = bytes.NewReader(b)
				what := "chunks"
				switch k {
				case 0:
					r, what = iotest.OneByteReader(r), "one byte at a time"
				case 1:
					r, what = iotest.HalfReader(r), "half reads"
				case 2:
					r, what = iotest.DataErrReader(r), "EOF with the data"
				case 3:
					r, what = &choppy{h, b, errBroken, false}, "error after the data"
				case 4:
					r, what = iotest.DataErrReader(iotest.OneByteReader(r)), "one byte at a time, EOF with the data"
				default:
					r = &choppy{h, b, io.EOF, k%2 == 0}
				}
				nav2, err := Decode(r)
				h.ok(err == nil, "fragments", "%s: %v", what, err)
				sameMesh("fragments", nav, nav2)
			}
			// bytes after the end are not part of it
			extra := bytes.NewReader(append(append([]byte(nil), b...), 1, 2, 3))
			nav2, err := Decode(extra)
			h.ok(err == nil, "trailing", "Decode: %v", err)
			sameMesh("trailing", nav, nav2)

			// cut anywhere
			var cuts []int
			var recs []int
			for o := 40; o < len(b); o += 8 + int(binary.LittleEndian.Uint32(b[o+4:])) {
				recs = append(recs, o)
				for _, d := range []int{-1, 0, 1, 4, 7, 8, 9, 107, 108, 109} {
					cuts = append(cuts, o+d)
				}
			}
			cuts = append(cuts, 0, 1, 4, 8, 39, len(b)-1, len(b)-2)
			for k := 0; k < 25; k++ {
				cuts = append(cuts, h.intn(len(b)))
			}
			if n%10 == 0 {
				for i := 0; i < len(b); i++ {
					cuts = append(cuts, i)
				}
			}
			for _, c := range cuts {
				if c >= len(b) {
					continue
				}
				switch h.intn(3) {
				case 0:
					refuse("cut", bytes.NewReader(b[:c]), "cut at %d of %d", c, len(b))
				case 1:
					refuse("cut", &choppy{h, b[:c], io.EOF, h.intn(2) == 0}, "cut at %d of %d", c, len(b))
				case 2:
					refuse("cut", &choppy{h, b[:c], errBroken, h.intn(2) == 0}, "read error at %d of %d", c, len(b))
				}
			}

			// damaged headers
			damaged := func(off int, v uint32) io.Reader {
				c := append([]byte(nil), b...)
				binary.LittleEndian.PutUint32(c[off:], v)
				return bytes.NewReader(c)
			}
			bad := func(cur uint32) uint32 {
				v := cur
				for v == cur {
					switch h.intn(5) {
					case 0:
						v = cur ^ 1<<uint(h.intn(32))
					case 1:
						v = h.u32()
					case 2:
						v = cur>>24 | cur>>8&0xff00 | cur<<8&0xff0000 | cur<<24
					case 3:
						v = 0
					default:
						v = cur + uint32(h.intn(3)) - 1
					}
				}
				return v
			}
			le := binary.LittleEndian
			for k := 0; k < 12; k++ {
				v := bad(le.Uint32(b))
				refuse("magic", damaged(0, v), "magic %#x", v)
				v = bad(le.Uint32(b[4:]))
				refuse("version", damaged(4, v), "version %d", v)
				v = le.Uint32(b[8:]) + 1 + uint32(h.intn(1000))
				refuse("count", damaged(8, v), "%d tiles announced", v)
				o := recs[h.intn(len(recs))]
				// the tile's own header
				v = bad(le.Uint32(b[o+8:]))
				refuse("tile magic", damaged(o+8, v), "tile magic %#x", v)
				v = bad(le.Uint32(b[o+12:]))
				refuse("tile version", damaged(o+12, v), "tile version %d", v)
				// the record: no reference, no data
				refuse("tile record", damaged(o, 0), "no reference")
				v = -uint32(h.intn(200))
				refuse("tile record", damaged(o+4, v), "tile of %d bytes", int32(v))
				// fewer bytes than the tile's header announces
				size := le.Uint32(b[o+4:])
				v = 1 + uint32(h.intn(int(size)-1))
				refuse("short tile", damaged(o+4, v), "tile of %d bytes in a record of %d", size, v)
				last := recs[len(recs)-1]
				v = le.Uint32(b[last+4:]) + 1 + uint32(h.intn(1<<16))
				refuse("long tile", damaged(last+4, v), "last tile said to have %d bytes", v)
				// section counts: negative, or more than the record holds
				f := o + 8 + 24 + 4*h.intn(8)
				v = le.Uint32(b[f:]) + size/2 + 1 + uint32(h.intn(1<<20))
				if h.intn(3) == 0 {
					v = ^uint32(h.intn(1 << 20))
				}
				if h.intn(4) == 0 {
					v = 1<<31 - 1 - uint32(h.intn(3))
				}
				if h.intn(4) == 0 {
					v = 1<<uint(26+h.intn(5)) + uint32(h.intn(3))
				}
				refuse("section count", damaged(f, v), "count %d in section %d of a tile of %d bytes", int32(v), (f-o-32)/4, size)
			}
		})
	}
	// streams without a mesh
	for n := h.n(3000); n > 0; n-- {
		b := make([]byte, h.intn(200))
		h.rng.Read(b)
		h.do("noise", sprint(b), func() {
			nav, err := Decode(bytes.NewReader(b))
			h.ok(err != nil && nav == nil, "noise", "random bytes were decoded")
		})
	}
}
