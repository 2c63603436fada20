package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// C26: the export of an optimized model.

func init() {
	register(&Prop{
		ID:    "C26",
		Rule:  "random solids and triangle soups are optimized (random meld distances and centers) and exported into new and existing files, missing directories, full files; every exported file is decoded by an independent decoder and compared face by face, read by the real reader, and for models without melded corners sliced again; a case is non-trivial when a file was compared or an error expected",
		Quick: 2500, Deep: 100000,
		Require: map[string]int{"exported_faces": 50000, "read_back": 1000, "sliced_again": 300, "replaced": 300, "refused": 300, "exported_again": 300, "many_faces": 3},
		Assume:  []string{"files hold coordinates as 32 bit numbers, which keep whole micrometers up to about 8 m"},
		Run:     runC26,
	})
}

func runC26(c *Ctx, i int) {
	r := c.Rand
	o := randOptions(r, varyAll)
	o.Slicing.MeldDistance = data.Micrometer(pickInt(r, 30, 30, 0, 1, 100, 1000))
	if r.Intn(3) == 0 {
		far := int64(pickInt(r, 10, 1000, 1000000, 4000000))
		o.Printer.Center = data.NewMicroVec3(data.Micrometer(r.Int63n(2*far)-far), data.Micrometer(r.Int63n(2*far)-far), data.Micrometer(r.Int63n(2*far)-far))
	}
	var m *Mesh
	if r.Intn(4) == 0 {
		m = &Mesh{Name: "soup"}
		s := pick(r, 0.01, 1, 100, 1000)
		for n := 1 + r.Intn(1+r.Intn(400)); n > 0; n-- {
			var t [3]V3
			for k := range t {
				t[k] = V3{math.Round(rnd(r, -s, s)*1000) / 1000, math.Round(rnd(r, -s, s)*1000) / 1000, math.Round(rnd(r, -s, s)*1000) / 1000}
			}
			if len(m.Tris) > 0 && r.Intn(2) == 0 {
				t[0], t[1] = m.Tris[len(m.Tris)-1][1], m.Tris[len(m.Tris)-1][2]
			}
			m.Tris = append(m.Tris, t)
		}
	} else if i%400 == 123 { // more faces than fit into 16 bits
		m = &Mesh{Name: "many"}
		n := 20000 + r.Intn(60000)
		w := 1 + r.Intn(400)
		for k := 0; k < n; k++ {
			x, y := float64(k%w), float64(k/w)
			m.Tris = append(m.Tris, [3]V3{{x, y, 0}, {x + 1, y, float64(k % 3)}, {x, y + 1, 0.5}})
		}
		c.Count("many_faces", 1)
	} else {
		m = gcodeSolid(r, i).Map(func(v V3) V3 {
			e := func(x float64) float64 { return math.Round(x*1000) / 1000 }
			return V3{e(v.X), e(v.Y), e(v.Z)}
		})
	}
	c.Name("%d %s", i, shorten(m.Name, 60))
	c.Key(i)
	g := goslice.NewGoSlice(o)
	in := c.File("in.stl", m.BinarySTL("vmon"))
	mod, err := g.Reader.Read(in)
	if err != nil {
		c.Fail("error", "reading a valid model failed: %v", err)
		return
	}
	om, err := g.Optimizer.Optimize(mod)
	if err != nil {
		return // nothing usable left
	}
	before := modelDump(om)
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(filepath.Join(dir, "sub dir"), 0o755)
	os.WriteFile(filepath.Join(dir, "other.stl"), []byte("other"), 0o644)
	name := []string{"out.stl", "test.stl", "sub dir/ü.STL", "noextension", "-"}[r.Intn(5)]
	f := filepath.Join(dir, name)
	if r.Intn(3) == 0 {
		os.WriteFile(f, bytes.Repeat([]byte("old"), r.Intn(100000)), 0o644)
		c.Count("replaced", 1)
	}
	snap := snapshot(dir)
	if err := om.SaveDebugSTL(f); err != nil {
		c.Fail("error", "exporting to %q failed: %v", f, err)
		return
	}
	if ch := changes(snap, snapshot(dir), name); len(ch) > 0 {
		c.Fail("other-files", "exporting to %q touched other files: %v", name, ch)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		c.Fail("no-file", "exporting to %q succeeded, but: %v", f, err)
		return
	}
	n := om.FaceCount()
	if len(b) != 84+50*n || binary.LittleEndian.Uint32(b[80:84]) != uint32(n) {
		c.Fail("faces", "the exported file has %d bytes for %d faces", len(b), n)
		return
	}
	if bytes.HasPrefix(b, []byte("solid")) {
		c.Fail("header", "the exported binary file starts like an ASCII file")
	}
	for k := 0; k < n; k++ {
		p := om.Face(k).Points()
		for v := 0; v < 3; v++ {
			w := iv3(p[v])
			for a, want := range [3]int64{w.X, w.Y, w.Z} {
				got := float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*k+12+12*v+4*a:]))) * 1000
				if d := math.Abs(got - float64(want)); !(d <= 0.01+math.Abs(float64(want))/(1<<23)) {
					c.Fail("coordinate", "face %d vertex %d axis %d is %v µm in the exported file instead of %d", k, v, a, got, want)
					return
				}
			}
		}
	}
	c.Count("exported_faces", n)
	c.Nontrivial(true)
	// by the real reader
	back, err := g.Reader.Read(f)
	if err != nil || back.FaceCount() != n {
		c.Fail("read-back", "the exported file with %d faces is not read back: %v", n, err)
		return
	}
	exact := true
	for k := 0; k < n; k++ {
		p, q := om.Face(k).Points(), back.Face(k).Points()
		for v := 0; v < 3; v++ {
			d := iv3(p[v]).sub(iv3(q[v]))
			w := iv3(p[v])
			lim := int64(0)
			if max(absI(w.X), absI(w.Y), absI(w.Z)) > 8000000 {
				lim, exact = 1+max(absI(w.X), absI(w.Y), absI(w.Z))>>22, false
			}
			if max(absI(d.X), absI(d.Y), absI(d.Z)) > lim {
				c.Fail("read-back", "vertex %d of face %d is %v, and %v in the exported file", v, k, p[v], q[v])
				return
			}
		}
	}
	c.Count("read_back", 1)
	if modelDump(om) != before {
		c.Fail("model", "exporting changed the model")
	}
	// sliced again: the same program, as where a model lies in its file does not matter
	if exact && m.Name != "soup" && m.Name != "many" && n == len(m.Tris) && r.Intn(2) == 0 && !nearPoints(m, 2*float64(o.Slicing.MeldDistance)/1000+0.002) {
		g1, w1 := instance(o, in)
		g2, w2 := instance(o, f)
		e1, e2 := g1.Process(), g2.Process()
		if fmt.Sprint(e1) != fmt.Sprint(e2) || w1.code != w2.code {
			c.Fail("sliced-again", "the exported model gives another program (%v, %v, first difference at %d)", e1, e2, firstDiff(w1.code, w2.code))
		}
		c.Count("sliced_again", 1)
	}
	// again, and where it is not possible
	switch r.Intn(3) {
	case 0:
		if err := om.SaveDebugSTL(f); err != nil {
			c.Fail("error", "exporting again to %q failed: %v", f, err)
		} else if b2, _ := os.ReadFile(f); !bytes.Equal(b, b2) {
			c.Fail("again", "exporting again gives another file")
		}
		c.Count("exported_again", 1)
	case 1:
		bad := []string{filepath.Join(dir, "no", "o.stl"), dir, "", filepath.Join(f, "o.stl"), dir + "/" + string(bytes.Repeat([]byte("n"), 300))}[r.Intn(5)]
		if err := om.SaveDebugSTL(bad); err == nil {
			c.Fail("success", "exporting to %q succeeded", bad)
		}
		c.Count("refused", 1)
	case 2:
		if full := fullFile(); full != nil {
			if err := om.SaveDebugSTL(fmt.Sprintf("/proc/self/fd/%d", full.Fd())); err == nil {
				c.Fail("success", "exporting to a full file succeeded")
			}
			full.Close()
			c.Count("refused", 1)
		}
	}
}
