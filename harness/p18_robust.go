package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// C18: whatever the file, the mesh and the options are, slicing ends with an error or with a well-formed program.

func init() {
	register(&Prop{
		ID:    "C18",
		Rule:  "(1) damaged and arbitrary bytes as model file, (2) hostile meshes: soups of random, duplicate, degenerate, flat, inverted, open, self-intersecting and non-manifold triangles, grids whose vertices are a few micrometers apart, far away and huge ones, (3) every option at and beyond its boundaries (zero, negative, largest and smallest integers, NaN, infinite, denormal) alone and in pairs on small models; each runs through the complete pipeline under a watchdog for CPU time, wall time and memory; a case is non-trivial when it reached the slicer",
		Quick: 6000, Deep: 300000, CPU: 90,
		Require: map[string]int{"programs": 1500, "refused": 400, "bytes": 1000, "soups": 1500, "options_at_boundaries": 1500, "sliced": 2000},
		Assume:  []string{"the requested print is small: models and options whose regular result has more than some hundred thousand lines (micrometer thin layers or lines on big models, millions of skirts) are not generated, as their effort is what was asked for"},
		Run:     runC18,
	})
}

// hostileMesh generates triangles without any promise.
func hostileMesh(r *rand.Rand) (*Mesh, string) {
	m := &Mesh{}
	size := pick(r, 0.1, 1, 3, 8, 20)
	v := func() V3 {
		return V3{rnd(r, -size, size), rnd(r, -size, size), rnd(r, 0, size)}
	}
	kind := r.Intn(12)
	n := 1 + r.Intn(60)
	name := ""
	switch kind {
	case 0:
		name = "soup"
		for i := 0; i < n; i++ {
			m.Tris = append(m.Tris, Tri{v(), v(), v()})
		}
	case 1:
		name = "grid soup"
		g := size / float64(1+r.Intn(4))
		s := func() V3 { a := v(); return V3{snap(a.X, g), snap(a.Y, g), snap(a.Z, g)} }
		for i := 0; i < n; i++ {
			m.Tris = append(m.Tris, Tri{s(), s(), s()})
		}
	case 2:
		name = "duplicates"
		b := randSolid(r, SolidOpts{MaxR: size, MaxH: size})
		for _, t := range b.Tris {
			for k := r.Intn(3); k >= 0; k-- {
				if r.Intn(2) == 0 {
					m.Tris = append(m.Tris, Tri{t[0], t[1], t[2]})
				} else {
					m.Tris = append(m.Tris, Tri{t[1], t[0], t[2]})
				}
			}
		}
	case 3:
		name = "open"
		for _, t := range randSolid(r, SolidOpts{MaxR: size, MaxH: size}).Tris {
			if r.Intn(6) > 0 {
				m.Tris = append(m.Tris, Tri{t[0], t[1], t[2]})
			}
		}
	case 4:
		name = "randomly inverted"
		for _, t := range randSolid(r, SolidOpts{MaxR: size, MaxH: size}).Tris {
			if r.Intn(2) == 0 {
				m.Tris = append(m.Tris, Tri{t[0], t[1], t[2]})
			} else {
				m.Tris = append(m.Tris, Tri{t[1], t[0], t[2]})
			}
		}
	case 5:
		name = "crossing solids"
		for k := 1 + r.Intn(4); k >= 0; k-- {
			m.Append(randSolid(r, SolidOpts{MaxR: size, MaxH: size}).Translate(V3{rnd(r, -1, 1) * size / 2, rnd(r, -1, 1) * size / 2, rnd(r, -1, 1) * size / 3}))
		}
	case 6:
		name = "fan around an edge"
		a, b := v(), v()
		for i := 0; i < n; i++ {
			m.Tris = append(m.Tris, Tri{a, b, v()})
		}
	case 7:
		name = "fan around a corner"
		a := v()
		p := v()
		for i := 0; i < n; i++ {
			q := v()
			m.Tris = append(m.Tris, Tri{a, p, q})
			p = q
		}
	case 8:
		name = "needles"
		for i := 0; i < n; i++ {
			a, b := v(), v()
			m.Tris = append(m.Tris, Tri{a, b, b.Add(V3{rnd(r, -.05, .05), rnd(r, -.05, .05), rnd(r, -.05, .05)})})
		}
	case 9:
		name = "chain of near points"
		p := v()
		for i := 0; i < 40+5*n; i++ {
			d := func() V3 { return V3{rnd(r, -.06, .06), rnd(r, -.06, .06), rnd(r, -.06, .06)} }
			q := p.Add(d())
			m.Tris = append(m.Tris, Tri{p, q, q.Add(d())})
			p = q
		}
		for i := 0; i < 5; i++ {
			m.Tris = append(m.Tris, Tri{v(), v(), v()})
		}
	case 10:
		name = "flat"
		for _, t := range randSolid(r, SolidOpts{MaxR: size, MaxH: size}).Tris {
			m.Tris = append(m.Tris, Tri{V3{t[0].X, t[0].Y, 0}, V3{t[1].X, t[1].Y, t[1].Z * pick(r, 0, 0, 1e-3)}, V3{t[2].X, t[2].Y, 0}})
		}
	default:
		name = "noise on a solid"
		e := pick(r, 0.001, 0.02, 0.05, 0.3)
		for _, t := range randSolid(r, SolidOpts{MaxR: size, MaxH: size}).Tris {
			d := func(a V3) V3 { return a.Add(V3{rnd(r, -e, e), rnd(r, -e, e), rnd(r, -e, e)}) }
			m.Tris = append(m.Tris, Tri{d(t[0]), d(t[1]), d(t[2])})
		}
	}
	if r.Intn(8) == 0 {
		d := pick(r, 100, 1000, 100000, 900000)
		m = m.Translate(V3{d, -d, d / 2})
		name += ", far away"
	}
	return m, name
}

// counts, degrees, percentages and temperatures
var extremeInts = []int{0, -1, -2, -7, -50, -100, -1000, 1, 2, 3, 89, 90, 91, 99, 100, 101, 180, 360, 400, 1000}

// lengths in micrometers, up to a kilometer
var extremeUm = []int{0, -1, -2, -100, -100000, -1000000000, 1, 2, 3, 10, 29, 31, 159, 161, 1000, 5000, 65536, 1000000, 123456789, 1000000000}

func extremeMM(r *rand.Rand) data.Millimeter {
	return data.Millimeter(pick(r, 0, -1, math.Copysign(0, -1), 1e-30, 1e-45, -1e-10, 0.0004, 0.0006, 0.001, 1, 1000, 1e6, -1e6, -0.001, math.NaN(), math.Inf(1), math.Inf(-1)))
}

// extremeOption sets one option to an extreme value and returns its description.
func extremeOption(r *rand.Rand, o *data.Options) string {
	xi := extremeInts[r.Intn(len(extremeInts))]
	xu := data.Micrometer(extremeUm[r.Intn(len(extremeUm))])
	xm := extremeMM(r)
	p, f, s, b := &o.Print, &o.Filament, &o.Print.Support, &o.Print.BrimSkirt
	is := func(n string, v *int) string { *v = xi; return fmt.Sprintf("%s=%d", n, xi) }
	us := func(n string, v *data.Micrometer) string { *v = xu; return fmt.Sprintf("%s=%d", n, xu) }
	ms := func(n string, v *data.Millimeter) string { *v = xm; return fmt.Sprintf("%s=%v", n, float32(xm)) }
	count := func(n string, v *int) string { // every one of them is printed
		return is(n, v)
	}
	switch r.Intn(38) {
	case 0:
		return ms("initialLayerSpeed", &p.IntialLayerSpeed)
	case 1:
		return ms("layerSpeed", &p.LayerSpeed)
	case 2:
		return ms("outerPerimeterSpeed", &p.OuterPerimeterSpeed)
	case 3:
		return ms("moveSpeed", &p.MoveSpeed)
	case 4, 5:
		return us("initialLayerThickness", &p.InitialLayerThickness)
	case 6, 7:
		return us("layerThickness", &p.LayerThickness)
	case 8, 9:
		return is("insetCount", &p.InsetCount)
	case 10:
		return is("infillOverlapPercent", &p.InfillOverlapPercent)
	case 11:
		return is("additionalInternalInfillOverlapPercent", &p.AdditionalInternalInfillOverlapPercent)
	case 12:
		return is("infillPercent", &p.InfillPercent)
	case 13:
		return is("infillRotation", &p.InfillRotationDegree)
	case 14:
		return is("bottomLayers", &p.NumberBottomLayers)
	case 15:
		return is("topLayers", &p.NumberTopLayers)
	case 16, 17:
		s.Enabled = true
		return "support " + is("thresholdAngle", &s.ThresholdAngle)
	case 18:
		s.Enabled = true
		return "support " + is("topGapLayers", &s.TopGapLayers)
	case 19:
		s.Enabled = true
		return "support " + is("interfaceLayers", &s.InterfaceLayers)
	case 20, 21:
		s.Enabled = r.Intn(4) > 0
		return fmt.Sprintf("support %v ", s.Enabled) + ms("patternSpacing", &s.PatternSpacing)
	case 22:
		s.Enabled = true
		return "support " + ms("gap", &s.Gap)
	case 23:
		return count("skirtCount", &b.SkirtCount)
	case 24:
		return ms("skirtDistance", &b.SkirtDistance)
	case 25:
		return count("brimCount", &b.BrimCount)
	case 26:
		return us("filamentDiameter", &f.FilamentDiameter)
	case 27:
		f.InitialTemperatureLayerCount = extremeInts[r.Intn(len(extremeInts))]
		f.InitialHotEndTemperature = extremeInts[r.Intn(len(extremeInts))]
		f.BedTemperature = extremeInts[r.Intn(len(extremeInts))]
		return is("hotEndTemperature", &f.HotEndTemperature)
	case 28:
		return ms("retractionSpeed", &f.RetractionSpeed)
	case 29:
		return ms("retractionLength", &f.RetractionLength)
	case 30:
		return ms("retractionZHop", &f.RetractionZHop)
	case 31:
		f.FanSpeed.LayerToSpeedLUT = map[int]int{xi: extremeInts[r.Intn(len(extremeInts))]}
		if r.Intn(4) == 0 {
			f.FanSpeed.LayerToSpeedLUT = nil
		}
		return fmt.Sprint("fan ", f.FanSpeed.LayerToSpeedLUT)
	case 32:
		return is("extrusionMultiplier", &f.ExtrusionMultiplier)
	case 33, 34:
		if xu > 0 && xu < 15 { // thousands of lines
			xu = 15
		}
		return us("extrusionWidth", &o.Printer.ExtrusionWidth)
	case 35:
		a, b, c := xu, extremeUm[r.Intn(len(extremeUm))], extremeUm[r.Intn(15)] // higher ones need thousands of layers
		o.Printer.Center = data.NewMicroVec3(data.Micrometer(a), data.Micrometer(b), data.Micrometer(c))
		return "center=" + o.Printer.Center.String()
	case 36:
		return us("meldDistance", &o.Slicing.MeldDistance)
	}
	if r.Intn(2) == 0 {
		return us("joinDistance", &o.Slicing.JoinPolygonSnapDistance)
	}
	return us("finishDistance", &o.Slicing.FinishPolygonSnapDistance)
}

func runC18(c *Ctx, i int) {
	o := defaults()
	var file []byte
	name := ""
	var soup *Mesh
	switch {
	case i%6 == 0:
		name = "bytes"
		c.Count("bytes", 1)
		file = hostileBytes(c)
		if ext := binaryExtent(file); ext > 200 && ext < 1e7 {
			// a changed byte made it huge: it is sliced coarsely
			o.Print.LayerThickness = data.Micrometer(ext * 1000 / 40)
			o.Print.InfillPercent = 1
			o.Print.NumberBottomLayers, o.Print.NumberTopLayers = 0, 0
		}
	case i%2 == 0:
		var m *Mesh
		m, name = hostileMesh(c.Rand)
		c.Count("soups", 1)
		if c.Intn(3) > 0 {
			o = randOptions(c.Rand, varyAll)
			name += " " + optKey(o)
		}
		if _, hi := m.BBox(); hi.X > 50 { // thin layers of a huge model
			lo, _ := m.BBox()
			o.Print.LayerThickness = data.Micrometer(math.Max(300, (hi.Z-lo.Z)*1000/40))
		}
		file = m.BinarySTL("vmon")
		soup = m
		c.Key(name, len(file))
	default:
		m := randSolid(c.Rand, SolidOpts{MaxR: pick(c.Rand, 1, 3, 5), MaxH: pick(c.Rand, 0.5, 2), NoRot3D: true})
		if c.Intn(3) == 0 {
			o = randOptions(c.Rand, varyAll)
		}
		var ns []string
		for n := 1 + c.Intn(2)*c.Intn(2)*(1+c.Intn(3)); n > 0; n-- {
			ns = append(ns, extremeOption(c.Rand, &o))
		}
		if t := o.Print.LayerThickness; t > 0 && t < 20 {
			// not more than some hundred layers
			if lo, hi := m.BBox(); (hi.Z-lo.Z)*1000 > 300*float64(t) {
				f := 300 * float64(t) / 1000 / (hi.Z - lo.Z)
				m = m.Map(func(v V3) V3 { return V3{v.X, v.Y, v.Z * f} })
			}
		}
		file = m.BinarySTL("vmon")
		name = strings.Join(ns, " ")
		c.Key(name)
		c.Count("options_at_boundaries", 1)
	}
	c.Name("%d %s", i, shorten(name, 160))
	in := c.File("model.stl", file)
	o.GoSlice.InputFilePath = in
	o.GoSlice.OutputFilePath = c.Dir() + "/out.gcode"
	o.GoSlice.Logger = quietLog
	os.Remove(o.GoSlice.OutputFilePath)
	g := goslice.NewGoSlice(o)
	r := &Run{Opt: o}
	g.Slicer = slicerTap{g.Slicer, r}
	g.Generator = genTap{g.Generator, r}
	err := g.Process()
	if r.Sliced != nil {
		c.Count("sliced", 1)
		c.Nontrivial(true)
	}
	out, rerr := os.ReadFile(o.GoSlice.OutputFilePath)
	if err != nil {
		c.Count("refused", 1)
		if err.Error() == "" {
			c.Fail("message", "an error without a message")
		}
		if rerr == nil {
			c.Fail("partial", "slicing failed with %q but wrote an output of %d bytes", err, len(out))
		}
		return
	}
	c.Count("programs", 1)
	if rerr != nil {
		c.Fail("nofile", "slicing succeeded but there is no output: %v", rerr)
		return
	}
	c.Max("largest_program_bytes", float64(len(out)))
	if len(out) > 12e6 {
		// A changed byte may ask for a print of many meters. It is sliced, but not read move by move.
		c.Count("huge_programs", 1)
		return
	}
	p := parseG(string(out))
	if len(p.Bad) > 0 {
		c.Fail("syntax", "%s: the program contains %v", name, shorten(fmt.Sprint(p.Bad), 300))
		return
	}
	if p.End < 0 || p.Reset < 0 || len(p.Layers) == 0 || len(p.Layers) != len(r.Layers) {
		c.Fail("structure", "%s: the program has start %d, end %d and %d layers instead of %d", name, p.Reset, p.End, len(p.Layers), len(r.Layers))
	}
	for k, l := range p.Layers {
		if l != k {
			c.Fail("structure", "%s: layer %d is announced as %d", name, k, l)
			break
		}
	}
	if soup == nil {
		return
	}
	// Whatever the mesh is, nothing is printed out of its reach.
	lo, hi := soup.BBox()
	w := float64(o.Printer.ExtrusionWidth)
	b := o.Print.BrimSkirt
	reach := 100 + 2*w*float64(3+b.BrimCount+b.SkirtCount) + 2*float64(b.SkirtDistance)*1000
	if s := o.Print.Support; s.Enabled {
		reach += 4 * (float64(s.PatternSpacing) + float64(s.Gap)) * 1000
	}
	for _, m := range p.Moves {
		if !m.Extrudes() {
			continue
		}
		dx, dy := math.Abs(m.To[0]-float64(o.Printer.Center.X())), math.Abs(m.To[1]-float64(o.Printer.Center.Y()))
		if dx > (hi.X-lo.X)*500+reach || dy > (hi.Y-lo.Y)*500+reach || m.To[2] < 0 || m.To[2] > (hi.Z-lo.Z)*1000+400 {
			c.Fail("reach", "%s: line %d prints at %.2f %.2f %.2f mm, the model has the size %.2f %.2f %.2f mm", name, m.Line, m.To[0]/1000, m.To[1]/1000, m.To[2]/1000, hi.X-lo.X, hi.Y-lo.Y, hi.Z-lo.Z)
			return
		}
		c.Count("reach_checked", 1)
	}
}

// hostileBytes generates a file that may or may not be a model.
func hostileBytes(c *Ctx) []byte {
	m := randSolid(c.Rand, SolidOpts{MaxR: 3, MaxH: 2, NoRot3D: true})
	var b []byte
	ascii := c.Intn(2) == 0
	if ascii {
		b = m.AsciiSTL("x", c.Intn(3))
	} else {
		b = m.BinarySTL(pickStr(c, "vmon", "solid x", "", "solid"))
	}
	switch c.Intn(7) {
	case 0:
		b = make([]byte, c.Intn(600))
		c.Read(b)
	case 1:
		b = b[:c.Intn(len(b)+1)]
	case 2, 3:
		for n := 1 + c.Intn(10); n > 0; n-- {
			b[c.Intn(len(b))] = byte(c.Intn(256))
		}
	case 4:
		k := c.Intn(len(b))
		b = append(append(append([]byte{}, b[:k]...), b[c.Intn(len(b)):]...), b[c.Intn(len(b)):]...)
	case 5:
		if !ascii {
			for n := 1 + c.Intn(4); n > 0; n-- { // whole floats of any value within the triangles
				k := 84 + 50*c.Intn((len(b)-84)/50) + 12 + 4*c.Intn(9)
				for j := 0; j < 4; j++ {
					b[k+j] = byte(c.Intn(256))
				}
			}
		} else {
			w := strings.Fields(string(b))
			for n := 1 + c.Intn(4); n > 0; n-- {
				w[c.Intn(len(w))] = pickStr(c, "solid", "endsolid", "facet", "endfacet", "vertex", "normal", "outer", "loop", "endloop", "nan", "inf", "-inf", "1e999", "1e30", "0x1p4", "", "\x00", "é", "1e-400")
			}
			b = []byte(strings.Join(w, " "))
		}
	default:
		if !ascii {
			for j := 80; j < 84; j++ {
				b[j] = byte(c.Intn(256))
			}
		} else {
			b = append([]byte(pickStr(c, "\xef\xbb\xbf", " ", "\n", "SOLID\n", "solid a\n")), b...)
		}
	}
	c.Key(fmt.Sprintf("%x", b[:len(b)/2]))
	return b
}

// binaryExtent returns the size of the model in the binary file in mm.
func binaryExtent(b []byte) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for k := 84; k+50 <= len(b); k += 50 {
		for j := 12; j < 48; j += 4 {
			v := float64(math.Float32frombits(binary.LittleEndian.Uint32(b[k+j:])))
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
	}
	return hi - lo
}
