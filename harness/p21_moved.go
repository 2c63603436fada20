package main

import (
	"encoding/binary"
	"math"
	"sort"

	"github.com/aligator/goslice"
)

// C21: where a model lies in its file, and in which format it is, does not matter.

func init() {
	register(&Prop{
		ID:    "C21",
		Rule:  "random solids sliced with random options from a binary file and again moved by random distances (within a printer's size and far away), in another format and with other headers, names, attributes and normals; the programs must be equal byte by byte; non-trivial: moved by more than a millimeter",
		Quick: 2400, Deep: 100000,
		Require: map[string]int{"moved": 1500, "moved_far": 200, "ascii": 500, "programs": 3000, "sunk_or_raised": 1000},
		Assume:  []string{"the coordinates are whole micrometers", "no two different points are closer than twice the meld distance, as the grid used for melding is fixed in the coordinates of the file"},
		Run: func(c *Ctx, i int) {
			m := gcodeSolid(c.Rand, i)
			c.Name("%d %s", i, shorten(m.Name, 60))
			o := randOptions(c.Rand, varyAll)
			if c.Intn(2) == 0 {
				o.Printer.Center.SetZ(0)
			}
			m = m.Map(func(v V3) V3 {
				e := func(x float64) float64 { return math.Round(x*1000) / 1000 }
				return V3{e(v.X), e(v.Y), e(v.Z)}
			})
			if nearPoints(m, 0.06) {
				c.Count("with_near_points", 1)
				return
			}
			slice := func(file []byte) (string, bool) {
				r := &Run{}
				p := o
				p.GoSlice.InputFilePath = c.File("model.stl", file)
				g := goslice.NewGoSlice(p)
				g.Writer = writeTap{r}
				if err := g.Process(); err != nil {
					c.Fail("error", "slicing a valid model failed: %v", err)
					return "", false
				}
				c.Count("programs", 1)
				return r.GCode, true
			}
			first, ok := slice(m.BinarySTL("vmon"))
			if !ok {
				return
			}
			// float32 keeps the micrometers within about 8 m
			far := pick(c.Rand, 1, 20, 300, 300, 3000)
			d := V3{math.Round(rnd(c.Rand, -far, far)*1000) / 1000, math.Round(rnd(c.Rand, -far, far)*1000) / 1000, math.Round(rnd(c.Rand, -far, far)*1000) / 1000}
			what := "moved"
			switch c.Intn(6) {
			case 0:
				d = V3{}
				what = "rewritten"
			case 1:
				d.X, d.Y = 0, 0
			}
			mv := m.Clone().Translate(d)
			var b []byte
			if c.Intn(3) == 0 {
				b = mv.AsciiSTL("a name", c.Intn(3))
				c.Count("ascii", 1)
				what += " and written as ASCII"
			} else {
				b = mv.BinarySTL(pickStr(c, "x", "", "vmon"))
				for k := 84; k+50 <= len(b); k += 50 {
					b[k+48], b[k+49] = byte(c.Intn(256)), byte(c.Intn(256))
					for a := 0; a < 3; a++ { // the stored normals
						binary.LittleEndian.PutUint32(b[k+4*a:], math.Float32bits(float32(pick(c.Rand, 0, 0, 1, -1, 0.7, -2, 5, 1e20, math.NaN()))))
					}
				}
			}
			second, ok := slice(b)
			if !ok {
				return
			}
			c.Count("moved", 1)
			if far >= 3000 {
				c.Count("moved_far", 1)
			}
			if d.Z != 0 {
				c.Count("sunk_or_raised", 1)
			}
			c.Nontrivial(math.Abs(d.X)+math.Abs(d.Y)+math.Abs(d.Z) > 1)
			c.Key(m.Name, optKey(o), d)
			if first != second {
				k := firstDiff(first, second)
				c.Fail("differs", "the model %s by %v gives another program: %q instead of %q at byte %d", what, d, shorten(second[k:], 60), shorten(first[k:], 60), k)
			}
		},
	})
}

// nearPoints reports whether two different corners are closer than d in every coordinate.
func nearPoints(m *Mesh, d float64) bool {
	seen := map[V3]bool{}
	var ps []V3
	for _, t := range m.Tris {
		for _, v := range t {
			if !seen[v] {
				seen[v] = true
				ps = append(ps, v)
			}
		}
	}
	sort.Slice(ps, func(a, b int) bool { return ps[a].X < ps[b].X })
	for i := range ps {
		for j := i + 1; j < len(ps) && ps[j].X-ps[i].X < d; j++ {
			if math.Abs(ps[j].Y-ps[i].Y) < d && math.Abs(ps[j].Z-ps[i].Z) < d {
				return true
			}
		}
	}
	return false
}
