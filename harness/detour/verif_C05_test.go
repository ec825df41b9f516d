package detour

// verif:share vgrid
// verif:share vfile

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

type failingWriter struct{ n int }

var errFull = errors.New("full")

func (w *failingWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		n := w.n
		w.n = 0
		return n, errFull
	}
	w.n -= len(b)
	return len(b), nil
}

func TestVerifC05(t *testing.T) {
	h := newVH(t, "random tiles with every field arbitrary against an independent description of the format; whole meshes with off-mesh connections written, read back and written again; writers that fail")
	defer h.done()
	dir, err := ioutil.TempDir("", "verifC05")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)

	for n := h.n(1500); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		h.do("tile", sprint("seed", seed), func() {
			cnt := func() int32 {
				if h.intn(3) == 0 {
					return 0
				}
				return int32(h.intn(6))
			}
			ft := &fTile{}
			b := make([]byte, 100)
			h.rng.Read(b)
			binary.Read(bytes.NewReader(b), binary.LittleEndian, &ft.H)
			hd := &ft.H
			hd.PolyCount, hd.VertCount, hd.MaxLinkCount, hd.DetailMeshCount = cnt(), cnt(), cnt(), cnt()
			hd.DetailVertCount, hd.DetailTriCount, hd.BvNodeCount, hd.OffMeshConCount = cnt(), cnt(), cnt(), cnt()
			ft.alloc()
			size := len(ft.bytes())
			raw := make([]byte, size)
			h.rng.Read(raw)
			copy(raw, ft.bytes()[:100])
			ft, used := fParse(raw)
			h.ok(used == size, "tile", "description is off: %d of %d", used, size)

			// reader
			var mh MeshHeader
			mh.unserialize(raw)
			var mt MeshTile
			mt.unserialize(&mh, raw[100:])
			ft.same(h, "read", &mt, &mh)
			// writer, into a larger buffer
			out := make([]byte, size+50)
			for i := range out {
				out[i] = 0xa5
			}
			mh.serialize(out)
			mt.serialize(out[100:])
			for i := size; i < len(out); i++ {
				h.ok(out[i] == 0xa5, "written outside", "byte %d of a tile of %d bytes was written", i, size)
			}
			back, _ := fParse(out)
			h.ok(back != nil, "written", "written tile is too short")
			for i := range back.Details {
				back.Details[i].Pad = ft.Details[i].Pad
			}
			h.ok(reflect.DeepEqual(back, ft), "written", "written tile is %v, want %v", back, ft)

			// headers
			var sh navMeshSetHeader
			hb := make([]byte, sh.Size())
			h.rng.Read(hb)
			le := binary.LittleEndian
			sh.Magic, sh.Version, sh.NumTiles = le.Uint32(hb), le.Uint32(hb[4:]), le.Uint32(hb[8:])
			for i := range sh.Params.Orig {
				sh.Params.Orig[i] = math.Float32frombits(le.Uint32(hb[12+4*i:]))
			}
			sh.Params.TileWidth, sh.Params.TileHeight = math.Float32frombits(le.Uint32(hb[24:])), math.Float32frombits(le.Uint32(hb[28:]))
			sh.Params.MaxTiles, sh.Params.MaxPolys = le.Uint32(hb[32:]), le.Uint32(hb[36:])
			var w bytes.Buffer
			nn, err := sh.WriteTo(&w)
			h.ok(err == nil && nn == 40 && bytes.Equal(w.Bytes(), hb), "set header", "written as %x, want %x", w.Bytes(), hb)
			th := navMeshTileHeader{TileRef(h.u32()), int32(h.u32())}
			w.Reset()
			nn, err = th.WriteTo(&w)
			tb := w.Bytes()
			h.ok(err == nil && nn == 8 && len(tb) == 8 && binary.LittleEndian.Uint32(tb) == uint32(th.TileRef) && binary.LittleEndian.Uint32(tb[4:]) == uint32(th.DataSize), "tile record", "written as %x", tb)
		})
	}

	for n := h.n(120); n > 0; n-- {
		seed := h.rng.Int63()
		h.rng.Seed(seed)
		w := newVWorld(h, vopt{conns: h.intn(4), nobv: h.intn(3) == 0, base: int32(h.intn(7) - 3)})
		h.do("mesh", sprint("seed", seed), func() {
			w.build(h)
			// empty some slots (not the first)
			for _, t := range w.tiles {
				if w.nav.decodePolyIDTile(PolyRef(t.ref)) != 0 && h.intn(4) == 0 {
					_, st := w.nav.RemoveTile(t.ref)
					h.ok(StatusSucceed(st), "mesh", "RemoveTile: %#x", st)
				}
			}
			var buf bytes.Buffer
			err := w.nav.ToWriter(&buf)
			h.ok(err == nil, "mesh", "ToWriter: %v", err)
			b := buf.Bytes()
			h.ok(int(w.nav.Size()) == len(b), "size", "announced %d bytes, wrote %d", w.nav.Size(), len(b))

			// what was written
			r := bytes.NewReader(b)
			var sh struct {
				Magic, Version, Tiles uint32
				F                     [5]uint32
				MaxTiles, MaxPolys    uint32
			}
			binary.Read(r, binary.LittleEndian, &sh)
			p := &w.nav.Params
			h.ok(sh.Magic == uint32(navMeshSetMagic) && sh.Version == uint32(navMeshSetVersion) && sh.F == [5]uint32{fb(p.Orig[0]), fb(p.Orig[1]), fb(p.Orig[2]), fb(p.TileWidth), fb(p.TileHeight)} && sh.MaxTiles == p.MaxTiles && sh.MaxPolys == p.MaxPolys, "set header", "set header %v for %v", sh, *p)
			o := 40
			live := uint32(0)
			for i := range w.nav.Tiles {
				t := &w.nav.Tiles[i]
				if t.Header == nil {
					continue
				}
				live++
				h.ok(o+8 <= len(b), "mesh", "tile %d is missing", i)
				h.ok(binary.LittleEndian.Uint32(b[o:]) == uint32(w.nav.TileRef(t)) && binary.LittleEndian.Uint32(b[o+4:]) == uint32(t.DataSize), "tile record", "record of tile %d differs", i)
				o += 8
				h.ok(o+int(t.DataSize) <= len(b), "mesh", "tile %d is cut", i)
				ft, _ := fParse(b[o : o+int(t.DataSize)])
				h.ok(ft != nil, "mesh", "tile %d is too short", i)
				ft.same(h, "mesh", t, t.Header)
				o += int(t.DataSize)
			}
			h.ok(o == len(b) && sh.Tiles == live, "mesh", "%d bytes and %d tiles written, want %d and %d", len(b), sh.Tiles, o, live)

			// read back
			fn := filepath.Join(dir, "mesh.bin")
			h.ok(w.nav.SaveToFile(fn) == nil, "file", "SaveToFile failed")
			fbuf, _ := ioutil.ReadFile(fn)
			h.ok(bytes.Equal(fbuf, b), "file", "the file differs from the stream")
			nav, err := Decode(bytes.NewReader(b))
			h.ok(err == nil, "read back", "Decode: %v", err)
			h.ok(nav.Params == w.nav.Params && len(nav.Tiles) == len(w.nav.Tiles), "read back", "parameters %v, want %v", nav.Params, w.nav.Params)
			for i := range nav.Tiles {
				t, u := &w.nav.Tiles[i], &nav.Tiles[i]
				h.ok((t.Header == nil) == (u.Header == nil), "read back", "slot %d: used %v, want %v", i, u.Header != nil, t.Header != nil)
				if t.Header == nil {
					continue
				}
				h.ok(*t.Header == *u.Header && nav.TileRef(u) == w.nav.TileRef(t) && t.DataSize == u.DataSize, "read back", "tile %d: header or reference differ", i)
				h.ok(reflect.DeepEqual(t.Verts, u.Verts) && reflect.DeepEqual(t.DetailMeshes, u.DetailMeshes) && reflect.DeepEqual(t.DetailVerts, u.DetailVerts) && bytes.Equal(t.DetailTris, u.DetailTris) && reflect.DeepEqual(t.OffMeshCons, u.OffMeshCons) && len(t.BvTree) == len(u.BvTree) && (len(t.BvTree) == 0 || reflect.DeepEqual(t.BvTree, u.BvTree)), "read back", "tile %d: sections differ", i)
				h.ok(len(t.Polys) == len(u.Polys) && len(t.Links) == len(u.Links), "read back", "tile %d: %d polygons, want %d", i, len(u.Polys), len(t.Polys))
				for j := range t.Polys {
					a, c := t.Polys[j], u.Polys[j]
					a.FirstLink, c.FirstLink = 0, 0
					h.ok(a == c, "read back", "tile %d polygon %d: %v, want %v", i, j, c, a)
				}
			}

			// a writer that fails
			for k := 0; k < 6; k++ {
				cut := h.intn(len(b))
				if k == 0 {
					cut = len(b) - 1
				}
				h.ok(w.nav.ToWriter(&failingWriter{cut}) != nil, "write error", "no error although only %d of %d bytes could be written", cut, len(b))
			}
			h.ok(w.nav.SaveToFile(filepath.Join(dir, "none", "x")) != nil, "write error", "no error for a file that cannot be created")
		})
	}
}
