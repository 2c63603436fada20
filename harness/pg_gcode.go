package main

// C02-C07: monitors over the printed program.

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
)

// gcodeSolid draws a model that is quick to slice completely.
func gcodeSolid(r *rand.Rand, i int) *Mesh {
	switch {
	case i%12 == 5: // a vertical gap between two bodies: some layers are empty
		m := boxMesh(5, 4, 0.9)
		m.Append(boxMesh(3, 6, 0.8).Translate(V3{rnd(r, -3, 3), 1, 0.9 + rnd(r, 0.3, 1)}))
		m.Name = "gap"
		return m.Round32()
	case i%48 == 17: // a big flat plate
		m := boxMesh(rnd(r, 55, 170), rnd(r, 55, 170), pick(r, 0.8, 0.8, 2.4))
		m.Name = "plate"
		return m.Round32()
	case i%48 == 42: // far apart: long travels, wide grids
		m := boxMesh(rnd(r, 1.5, 5), rnd(r, 1.5, 5), rnd(r, 0.8, 1.6))
		l, th := pick(r, rnd(r, 60, 300), rnd(r, 300, 900)), rnd(r, 0, 7)
		for k := 1; k < 2+r.Intn(3); k++ {
			m.Append(boxMesh(rnd(r, 1.5, 5), rnd(r, 1.5, 5), rnd(r, 0.8, 1.6)).Translate(V3{l * math.Cos(th), l * math.Sin(th), 0}))
			th += rnd(r, 0.7, 2)
		}
		m.Name = "far"
		return m.Round32()
	case i%12 == 8: // several towers: many travels outside of the model
		m := &Mesh{Name: "towers"}
		for k := 0; k < 3+r.Intn(4); k++ {
			m.Append(boxMesh(rnd(r, 1.5, 3), rnd(r, 1.5, 3), rnd(r, 0.5, 2)).Translate(V3{float64(k%3) * 4.5, float64(k/3) * 5, 0}))
		}
		return m.Round32()
	case i%24 == 13: // its first or last sections vanish
		m := tipSolid(r, SolidOpts{MaxH: 2.6, MaxR: 4})
		return m.RotateXYZ(0, 0, rnd(r, 0, 6)).Round32()
	case i%160 == 121: // high columns side by side
		m := &Mesh{Name: "columns"}
		for k := 0; k < 2+r.Intn(2); k++ {
			m.Append(boxMesh(rnd(r, 1.3, 2), rnd(r, 1.3, 2), rnd(r, 60, 180)).Translate(V3{float64(k) * 4, 0, 0}))
		}
		return m.Round32()
	case i%160 == 41: // hundreds of layers
		m := boxMesh(rnd(r, 1.3, 2), rnd(r, 1.3, 2), pick(r, rnd(r, 40, 70), rnd(r, 90, 260)))
		m.Name = "tower"
		return m.Round32()
	}
	return randSolid(r, SolidOpts{MaxH: 2.6, MaxR: 5, Ledges: true})
}

func gcodeRun(c *Ctx, i int, v optVary) *Run {
	m := gcodeSolid(c.Rand, i)
	o := randOptions(c.Rand, v)
	return gcodeRunWith(c, i, m, o)
}

func gcodeRunWith(c *Ctx, i int, m *Mesh, o data.Options) *Run {
	c.Name("%s-%d", m.Name, i)
	c.Key(describeMesh(m), optKey(o))
	lo, hi := m.BBox()
	if toUm(hi.Z)-toUm(lo.Z) < int64(o.Print.InitialLayerThickness) {
		c.Count("too_flat", 1)
		return nil
	}
	r := mustSlice(c, m, o)
	if r == nil {
		return nil
	}
	c.Sample("%s; %s; %d layers, %d moves", describeMesh(m), optKey(o), len(r.Layers), len(r.G.Moves))
	return r
}

// ---- C02: layers ----

func init() {
	register(&Prop{
		ID:    "C02",
		Rule:  "random watertight solids (also with vertical gaps and several towers) through the complete pipeline with random thicknesses, hops and all other options; the printed program is interpreted; a case is non-trivial when the program has at least two layers with extrusion",
		Quick: 10000, Deep: 120000,
		Require: map[string]int{"layers": 3000, "extrusions": 100000, "hops": 200, "empty_layers": 20},
		Assume:  []string{"Z is printed with two decimals, so heights are compared to within 5 µm"},
		Run: func(c *Ctx, i int) {
			o := randOptions(c.Rand, varyAll)
			o.Print.LayerThickness = data.Micrometer(pickInt(c.Rand, 100, 150, 200, 200, 250, 300, 77, 333))
			o.Print.InitialLayerThickness = data.Micrometer(pickInt(c.Rand, 100, 200, 200, 250, 300, 350, 123))
			if i%9 == 4 {
				o.Printer.Center.SetZ(data.Micrometer(pickInt(c.Rand, -300, 200, 450, -50)))
			}
			m := gcodeSolid(c.Rand, i)
			if i%7 == 3 { // a top exactly at, just below or just above a layer plane
				n := 1 + c.Intn(12)
				h := float64(int64(o.Print.InitialLayerThickness)+int64(n)*int64(o.Print.LayerThickness)+int64(pickInt(c.Rand, -1, 0, 1))) / 1000
				m = boxMesh(4, 3, h)
				m.Name = "edge"
				m.Round32()
			}
			if i%29 == 11 { // layers of a few micrometers
				o.Print.LayerThickness = data.Micrometer(5 + c.Intn(30))
				o.Print.InitialLayerThickness = data.Micrometer(10 + c.Intn(60))
				o.Filament.RetractionZHop = mm(float64(c.Intn(5)) / 100)
				m = tipSolid(c.Rand, SolidOpts{MaxH: 0.2, MaxR: 3, Flat: true})
				c.Count("thin_layers", 1)
			}
			if i%397 == 77 { // more than a thousand thin layers
				o.Print.LayerThickness = data.Micrometer(20 + c.Intn(40))
				o.Print.Support.Enabled = false
				m = boxMesh(1.4, 1.9, rnd(c.Rand, 20, 80))
				m.Name = "needle"
				m.Round32()
			}
			lo, hi := m.BBox()
			if toUm(hi.Z)-toUm(lo.Z)+int64(o.Printer.Center.Z()) < int64(o.Print.InitialLayerThickness) {
				c.Count("too_flat", 1)
				return
			}
			r := gcodeRunWith(c, i, m, o)
			if r == nil {
				return
			}
			checkLayers(c, r)
		},
	})
}

func checkLayers(c *Ctx, r *Run) {
	want := nLayers(r.P.Hi.Z, r.Opt)
	if len(r.G.Layers) != want {
		c.Fail("count", "the program has %d layers, the model (%d µm high) needs %d", len(r.G.Layers), r.P.Hi.Z, want)
		return
	}
	for k, n := range r.G.Layers {
		if n != k {
			c.Fail("order", "the %d. LAYER comment announces layer %d", k, n)
			return
		}
	}
	if r.G.End < 0 || (len(r.G.LayerLn) > 0 && r.G.End < r.G.LayerLn[len(r.G.LayerLn)-1]) {
		c.Fail("end", "the end of the program (line %d) does not follow the last layer", r.G.End)
		return
	}
	hop := 0.0
	if r.Opt.Filament.RetractionLength != 0 && int(r.Opt.Filament.RetractionSpeed) != 0 {
		hop = float64(r.Opt.Filament.RetractionZHop.ToMicrometer())
	}
	printed := map[int]bool{}
	for i := range r.G.Moves {
		m := &r.G.Moves[i]
		if m.Header || m.InEnd {
			continue
		}
		if m.Layer < 0 {
			c.Fail("outside", "line %d: move outside of any layer: %s", m.Line+1, r.G.Lines[m.Line])
			return
		}
		z := float64(layerZ(r.Opt, m.Layer))
		if m.Extrudes() {
			printed[m.Layer] = true
			c.Count("extrusions", 1)
			if math.Abs(m.To[2]-z) > 5.01 || (m.Known[2] && m.From[2] != m.To[2]) {
				c.Fail("height", "line %d: extrusion of layer %d from z=%.0f to z=%.0f µm instead of %.0f: %s", m.Line+1, m.Layer, m.From[2], m.To[2], z, r.G.Lines[m.Line])
				return
			}
			continue
		}
		if !m.HasX && !m.HasY && !m.HasZ {
			continue
		}
		c.Count("travels", 1)
		d := m.To[2] - z
		if math.Abs(d) <= 5.01 {
			continue
		}
		if hop > 0 && math.Abs(d-hop) <= 5.01 {
			c.Count("hops", 1)
			continue
		}
		c.Fail("height", "line %d: move of layer %d to z=%.0f µm (layer height %.0f, hop %.0f): %s", m.Line+1, m.Layer, m.To[2], z, hop, r.G.Lines[m.Line])
		return
	}
	for k, l := range r.Layers {
		if len(l.LayerParts()) == 0 {
			c.Count("empty_layers", 1)
		}
		if printed[k] {
			c.Count("printed_layers", 1)
		}
	}
	c.Nontrivial(len(printed) >= 2)
}

// ---- C03: extrusion ----

func init() {
	register(&Prop{
		ID:    "C03",
		Rule:  "three of four cases slice random solids with random widths, thicknesses, filament diameters, multipliers and retractions; the others drive the program builder with random histories of polygons, speeds, comments and moves worth up to 40 m of filament; the filament of every printed segment is compared with length x thickness x width x multiplier / filament area, also accumulated; non-trivial: at least 100 extrusions",
		Quick: 2500, Deep: 60000,
		Require: map[string]int{"extrusions": 200000, "builder_extrusions": 100000, "retractions": 1000},
		Assume:  []string{"positions are printed with two decimals (10 µm), which bounds the precision of the compared lengths of sliced models; builder histories use points on that grid"},
		Run: func(c *Ctx, i int) {
			if i%4 == 3 {
				runC03Builder(c, i)
				return
			}
			o := randOptions(c.Rand, varyAll)
			o.Filament.FilamentDiameter = data.Micrometer(pickInt(c.Rand, 1750, 1750, 2850, 3000, 1680))
			o.Filament.ExtrusionMultiplier = pickInt(c.Rand, 100, 100, 95, 110, 80, 37, 200)
			raise(c, &o)
			r := gcodeRunWith(c, i, gcodeSolid(c.Rand, i), o)
			if r == nil {
				return
			}
			checkExtrusion(c, r)
		},
	})
}

func perMM(o data.Options, layer int) float64 {
	t := float64(o.Print.LayerThickness)
	if layer == 0 {
		t = float64(o.Print.InitialLayerThickness)
	}
	d := float64(o.Filament.FilamentDiameter)
	return t * float64(o.Printer.ExtrusionWidth) / (math.Pi * d * d / 4) * float64(o.Filament.ExtrusionMultiplier) / 100
}

func checkExtrusion(c *Ctx, r *Run) {
	sumGot, sumWant, n := 0.0, 0.0, 0
	perLayer := map[int][2]float64{}
	for i := range r.G.Moves {
		m := &r.G.Moves[i]
		if m.Header || m.InEnd || !m.HasE {
			continue
		}
		pm := perMM(r.Opt, m.Layer)
		if m.XY() == 0 && math.Abs(m.DE) > 0.016*pm+0.0003 || m.DE < 0 {
			c.Count("retractions", 1)
			if m.XY() != 0 && m.Known[0] {
				c.Fail("retract-move", "line %d: filament is pulled back while moving: %s", m.Line+1, r.G.Lines[m.Line])
				return
			}
			if d := math.Abs(math.Abs(m.DE) - float64(r.Opt.Filament.RetractionLength)); d > 0.0003 {
				c.Fail("retract-amount", "line %d: %.4f mm of filament without any movement (the retraction length is %v): %s", m.Line+1, m.DE, r.Opt.Filament.RetractionLength, r.G.Lines[m.Line])
				return
			}
			continue
		}
		n++
		want := m.XY() / 1000 * pm
		if d := math.Abs(m.DE - want); d > 0.0145*pm+0.0003 {
			c.Fail("amount", "line %d (layer %d): %.4f mm of filament for %.3f mm, expected %.4f: %s", m.Line+1, m.Layer, m.DE, m.XY()/1000, want, r.G.Lines[m.Line])
			return
		}
		sumGot += m.DE
		sumWant += want
		p := perLayer[m.Layer]
		perLayer[m.Layer] = [2]float64{p[0] + m.DE, p[1] + want}
	}
	c.Count("extrusions", n)
	c.Nontrivial(n >= 100)
	for k, p := range perLayer {
		if p[1] > 0.5 && math.Abs(p[0]-p[1]) > 0.004*p[1]+0.02 {
			c.Fail("layer-amount", "layer %d: %.4f mm of filament, expected %.4f", k, p[0], p[1])
			return
		}
	}
	if sumWant > 0 {
		c.Max("relative_deviation_total_permille", 1000*math.Abs(sumGot-sumWant)/sumWant)
	}
}

// runC03Builder: long histories, exact to the printed precision.
func runC03Builder(c *Ctx, i int) {
	o := defaults()
	o.Filament.FilamentDiameter = data.Micrometer(pickInt(c.Rand, 1750, 1750, 2850, 1680))
	o.Filament.ExtrusionMultiplier = pickInt(c.Rand, 100, 100, 95, 110, 37)
	b := gcode.NewGCodeBuilder(&o)
	b.SetMoveSpeed(150)
	b.SetExtrudeSpeed(60)
	area := math.Pi * float64(o.Filament.FilamentDiameter) * float64(o.Filament.FilamentDiameter) / 4
	n := 300 + c.Intn(3000)
	size := float64(pickInt(c.Rand, 2, 20, 200)) * 1000
	c.Name("builder-%d", i)
	c.Key(n, size, o.Filament.FilamentDiameter)
	var want []float64 // expected E after every extrusion
	e, pm := 0.0, 0.0
	set := func() {
		t, w := pickInt(c.Rand, 100, 200, 300), pickInt(c.Rand, 300, 400, 600)
		b.SetExtrusion(data.Micrometer(t), data.Micrometer(w))
		pm = float64(t*w) / area * float64(o.Filament.ExtrusionMultiplier) / 100
	}
	set()
	grid := func(v float64) float64 { return math.Round(v/10) * 10 }
	for k := 0; k < n; k++ {
		switch c.Intn(12) {
		case 0:
			set()
		case 1:
			b.SetExtrudeSpeed(mm(float64(20 + c.Intn(60))))
		case 2:
			b.AddComment("TYPE:FILL")
		case 3:
			b.SetExtrudeSpeedOverride(mm(float64(c.Intn(40))))
		}
		// a polygon whose corners the smoothing keeps: a star with large steps
		m := 2 + c.Intn(6)
		ctr := Pt{grid(rnd(c.Rand, 0, size)), grid(rnd(c.Rand, 0, size))}
		var pts []Pt
		for j := 0; j < m; j++ {
			a := 2 * math.Pi * float64(j) / float64(m)
			rr := size / 4 * rnd(c.Rand, 0.6, 1)
			pts = append(pts, Pt{grid(ctr.X + rr*math.Cos(a)), grid(ctr.Y + rr*math.Sin(a))})
		}
		if m == 2 || !keepsAll(pts) {
			pts = pts[:2]
		}
		open := c.Intn(3) == 0 || len(pts) == 2
		if err := b.AddPolygon(nil, pathOf(pts), data.Micrometer(200*(k/200)), open); err != nil {
			c.Fail("error", "AddPolygon: %v", err)
			return
		}
		for j := 1; j < len(pts); j++ {
			e += dist(pts[j-1], pts[j]) / 1000 * pm
			want = append(want, e)
		}
		if !open {
			e += dist(pts[len(pts)-1], pts[0]) / 1000 * pm
			want = append(want, e)
		}
	}
	g := parseG("G92 E0\n" + b.String())
	k := 0
	prev := 0.0
	for j := range g.Moves {
		m := &g.Moves[j]
		if !m.HasE {
			continue
		}
		if k >= len(want) {
			c.Fail("extra", "more extrusions than polygon edges (%d)", len(want))
			return
		}
		w := want[k]
		if d := math.Abs(m.E - w); d > 0.0002+2e-6*w {
			c.Fail("drift", "extrusion %d of %d: E is %.4f, expected %.4f (%.4f mm of filament for a segment that needs %.4f)", k, len(want), m.E, w, m.DE, w-prev)
			return
		}
		c.Max("drift_um", math.Abs(m.E-w)*1000)
		prev = w
		k++
	}
	if k != len(want) {
		c.Fail("missing", "%d extrusions for %d polygon edges", k, len(want))
		return
	}
	c.Count("builder_extrusions", k)
	c.Max("builder_filament_mm", e)
	c.Nontrivial(k > 100)
	c.Sample("%d polygons of up to %.0f mm, %d extrusions, %.0f mm of filament", n, size/2000, k, e)
}

// keepsAll: every corner is far from the line through its neighbours and from the chord of the ends.
func keepsAll(p []Pt) bool {
	n := len(p)
	for i := 1; i < n-1; i++ {
		if distPtSeg(p[i], Seg{p[i-1], p[i+1]}) < 300 || distPtSeg(p[i], Seg{p[0], p[n-1]}) < 300 {
			return false
		}
		for a := 0; a < i; a++ {
			for b := i + 1; b < n; b++ {
				d := p[b].Sub(p[a])
				if math.Abs(d.Cross(p[i].Sub(p[a])))/d.Len() < 300 {
					return false
				}
			}
		}
	}
	return true
}

// ---- C04: retraction ----

func init() {
	register(&Prop{
		ID:    "C04",
		Rule:  "random solids (towers, holes, gaps) with random retraction lengths, speeds and hops through the complete pipeline; for each travel within the model's printing the oracle decides with its own geometry whether it leaves the layer; non-trivial: at least one travel that must and one that must not retract",
		Quick: 10000, Deep: 100000,
		Require: map[string]int{"travels_leaving": 5000, "travels_inside": 5000, "hops": 300, "retractions": 3000, "no_skirt_programs": 100},
		Assume:  []string{"travels that come closer than 25 µm to a contour without clearly crossing it are not judged (positions are printed with 10 µm resolution)"},
		Run: func(c *Ctx, i int) {
			v := varyAll
			o := randOptions(c.Rand, v)
			if c.Intn(3) == 0 {
				o.Print.BrimSkirt.SkirtCount = 0
			}
			raise(c, &o)
			r := gcodeRunWith(c, i, gcodeSolid(c.Rand, i), o)
			if r == nil {
				return
			}
			checkRetraction(c, r)
		},
	})
}

func checkRetraction(c *Ctx, r *Run) {
	o := r.Opt
	length := float64(o.Filament.RetractionLength)
	on := length != 0 && o.Filament.RetractionSpeed != 0
	hop := 0.0
	if on && o.Filament.RetractionZHop > 0 {
		hop = float64(o.Filament.RetractionZHop.ToMicrometer())
	}
	regs := make([]*Region, len(r.Layers))
	reg := func(k int) *Region {
		if regs[k] == nil {
			regs[k] = regionOf(r.Layers[k].LayerParts())
		}
		return regs[k]
	}
	must, mustNot := 0, 0
	retracted := false
	line := func(m *Move) string { return r.G.Lines[m.Line] }
	if o.Print.BrimSkirt.SkirtCount == 0 && o.Print.BrimSkirt.BrimCount == 0 {
		c.Count("no_skirt_programs", 1)
	}
	type trav struct {
		m   *Move
		ret bool
	}
	var last *trav   // the last travel
	sawHop := false  // lifted since the retraction
	started := false // whether a position was set
	for i := range r.G.Moves {
		m := &r.G.Moves[i]
		if m.Header || m.InEnd {
			continue
		}
		small := 0.016*perMM(o, m.Layer) + 0.0003
		if m.HasE && (m.DE < 0 || m.XY() == 0 && m.DE > small) {
			if !started {
				c.Fail("before-start", "line %d: the first move of the print is a retraction: %s", m.Line+1, line(m))
				return
			}
			if !on {
				c.Fail("disabled", "line %d: retraction although it is disabled: %s", m.Line+1, line(m))
				return
			}
			if m.HasX || m.HasY || m.HasZ {
				c.Fail("moving", "line %d: retraction together with a movement: %s", m.Line+1, line(m))
				return
			}
			if math.Abs(math.Abs(m.DE)-length) > 0.0003 {
				c.Fail("amount", "line %d: retraction of %.4f mm instead of %.4f: %s", m.Line+1, m.DE, length, line(m))
				return
			}
			if m.DE < 0 {
				if retracted {
					c.Fail("twice", "line %d: retraction while already retracted: %s", m.Line+1, line(m))
					return
				}
				c.Count("retractions", 1)
				retracted, sawHop = true, false
			} else {
				if !retracted {
					c.Fail("prime-twice", "line %d: filament is primed without a retraction before: %s", m.Line+1, line(m))
					return
				}
				if math.Abs(m.From[2]-float64(layerZ(o, m.Layer))) > 5.01 {
					c.Fail("prime-height", "line %d: filament is primed at z=%.0f instead of the layer's height: %s", m.Line+1, m.From[2], line(m))
					return
				}
				retracted = false
			}
			continue
		}
		if m.HasE && m.DE >= 0 {
			started = true
			if retracted {
				c.Fail("printing-retracted", "line %d: extrusion while the filament is retracted: %s", m.Line+1, line(m))
				return
			}
			continue
		}
		// a travel
		if m.XY() == 0 && m.Known[0] && m.Known[1] {
			if retracted && m.HasZ && m.To[2] > m.From[2] && hop > 0 {
				sawHop = true
				c.Count("hops", 1)
			}
			started = true
			continue
		}
		if hop > 0 && retracted {
			want := float64(layerZ(o, m.Layer)) + hop
			if math.Abs(m.To[2]-want) > 5.01 || !sawHop && hop > 15 { // smaller ones may vanish in the two decimals
				c.Fail("hop", "line %d: a retracted travel at z=%.0f instead of lifted to %.0f: %s", m.Line+1, m.To[2], want, line(m))
				return
			}
		}
		first := !started
		started = true
		last = &trav{m, retracted}
		if !on || first || m.Layer < 0 {
			continue
		}
		isFree := m.Type == "SKIRT" || (m.Type == "" && m.Layer == 0)
		if isFree {
			if retracted {
				c.Fail("skirt", "line %d: retraction on the way to the skirt or brim: %s", m.Line+1, line(m))
				return
			}
			continue
		}
		// does the travel leave the layer?
		leaves, known := leavesRegion(reg(m.Layer), Seg{m.FromPt(), m.ToPt()})
		if !known {
			c.Count("travels_not_judged", 1)
			continue
		}
		if leaves {
			must++
			if !retracted {
				c.Fail("missing", "line %d (layer %d): the travel from (%.0f %.0f) to (%.0f %.0f) leaves the model but the filament is not retracted: %s", m.Line+1, m.Layer, m.From[0], m.From[1], m.To[0], m.To[1], line(m))
				return
			}
		} else {
			mustNot++
			if retracted {
				c.Fail("needless", "line %d (layer %d): the travel from (%.0f %.0f) to (%.0f %.0f) stays inside of the model but the filament is retracted: %s", m.Line+1, m.Layer, m.From[0], m.From[1], m.To[0], m.To[1], line(m))
				return
			}
		}
	}
	_ = last
	if retracted {
		c.Fail("end", "the print ends with the filament retracted by an unfinished travel")
		return
	}
	c.Count("travels_leaving", must)
	c.Count("travels_inside", mustNot)
	c.Nontrivial(must > 0 && mustNot > 0)
}

// leavesRegion: known is false if the decision depends on less than 25 µm.
func leavesRegion(reg *Region, s Seg) (leaves, known bool) {
	l := s.Len()
	if l == 0 {
		return false, false
	}
	const tol = 25
	// candidate points: the ends, and the middle of each piece between crossings with the contours
	d := s.B.Sub(s.A)
	ts := []float64{0, 1}
	for _, e := range reg.segs {
		ed := e.B.Sub(e.A)
		den := d.Cross(ed)
		if den == 0 {
			continue
		}
		w := e.A.Sub(s.A)
		t := w.Cross(ed) / den
		u := w.Cross(d) / den
		if u >= -0.01 && u <= 1.01 && t > 0 && t < 1 {
			ts = append(ts, t)
		}
	}
	sortFloats(ts)
	unsure := false
	for i := 0; i+1 < len(ts); i++ {
		p := s.A.Add(d.Mul((ts[i] + ts[i+1]) / 2))
		if !reg.Contains(p) {
			if reg.Dist(p) > tol {
				return true, true
			}
			unsure = true
		}
	}
	if unsure {
		return false, false
	}
	// inside, but maybe touching: require a clear distance along the way
	n := 2 + int(l/40)
	if n > 400 {
		n = 400
	}
	for i := 0; i <= n; i++ {
		if p := lerp(s.A, s.B, float64(i)/float64(n)); reg.Dist(p) < tol || !reg.Contains(p) {
			return false, false
		}
	}
	return false, true
}

// ---- C05: feedrates ----

func init() {
	register(&Prop{
		ID:    "C05",
		Rule:  "random solids with random initial, normal, outer wall, travel and retraction speeds through the complete pipeline with walls, skins, infill, support, brim and skirt; the feedrate in effect of every move is compared with the speed its kind of move must have; non-trivial: extrusions on the first layer, of outer walls and of something else",
		Quick: 10000, Deep: 100000,
		Require: map[string]int{"first_layer": 20000, "outer_wall": 20000, "inner_wall": 10000, "fill": 20000, "support": 1000, "walls_located": 20000, "travel": 20000, "retraction": 3000},
		Assume:  []string{"feedrates are compared with a tolerance of 1 mm/min"},
		Run: func(c *Ctx, i int) {
			o := randOptions(c.Rand, varyAll)
			if c.Intn(2) == 0 {
				o.Print.Support.Enabled = true
			}
			if c.Intn(3) == 0 { // distinct and unusual speeds
				o.Print.IntialLayerSpeed = mm(float64(10 + c.Intn(30)))
				o.Print.LayerSpeed = mm(float64(41 + c.Intn(30)))
				o.Print.OuterPerimeterSpeed = mm(float64(72 + c.Intn(20)))
				o.Print.MoveSpeed = mm(float64(100 + c.Intn(100)))
			}
			if c.Intn(3) == 0 { // fractions of a millimeter per second
				for _, s := range []*data.Millimeter{&o.Print.IntialLayerSpeed, &o.Print.LayerSpeed, &o.Print.OuterPerimeterSpeed, &o.Print.MoveSpeed, &o.Filament.RetractionSpeed} {
					if *s > 0 {
						*s += mm(pick(c.Rand, 0, 0.25, 0.5, 0.9))
					}
				}
				c.Count("fractional_speeds", 1)
			}
			raise(c, &o)
			r := gcodeRunWith(c, i, gcodeSolid(c.Rand, i), o)
			if r == nil {
				return
			}
			checkSpeeds(c, r)
		},
	})
}

func checkSpeeds(c *Ctx, r *Run) {
	p, f := r.Opt.Print, r.Opt.Filament
	seen := map[string]int{}
	var reg *Region
	wl, nw := -1, 0
	for i := range r.G.Moves {
		m := &r.G.Moves[i]
		if m.Header || m.InEnd {
			continue
		}
		kind, want := "", 0.0
		small := 0.016*perMM(r.Opt, m.Layer) + 0.0003
		switch {
		case !m.HasE:
			kind, want = "travel", float64(p.MoveSpeed)
		case m.DE < 0 || m.XY() == 0 && m.DE > small:
			kind, want = "retraction", float64(f.RetractionSpeed)
		case m.Layer == 0:
			kind, want = "first_layer", float64(p.IntialLayerSpeed)
		case m.Type == "WALL-OUTER":
			kind, want = "outer_wall", float64(p.OuterPerimeterSpeed)
		case m.Type == "WALL-INNER":
			kind, want = "inner_wall", float64(p.LayerSpeed)
		case m.Type == "FILL":
			kind, want = "fill", float64(p.LayerSpeed)
		case m.Type == "SUPPORT":
			kind, want = "support", float64(p.LayerSpeed)
		default:
			c.Fail("unknown", "line %d: extrusion of unknown type %q on layer %d: %s", m.Line+1, m.Type, m.Layer, r.G.Lines[m.Line])
			return
		}
		if (kind == "outer_wall" || kind == "inner_wall") && m.Layer != wl {
			wl, nw, reg = m.Layer, 0, regionOf(r.Sliced[m.Layer].LayerParts())
		}
		if (kind == "outer_wall" || kind == "inner_wall") && m.XY() > 100 && nw < 40 {
			// which wall it really is, is told by its distance to the contour of the layer
			nw++
			mid := m.FromPt().Add(m.ToPt()).Mul(0.5)
			if d, w := reg.Dist(mid), float64(r.Opt.Printer.ExtrusionWidth); math.Abs(d-w/2) < w/4 {
				kind, want = "outer_wall", float64(p.OuterPerimeterSpeed)
				c.Count("walls_located", 1)
			} else if d > 1.25*w {
				kind, want = "inner_wall", float64(p.LayerSpeed)
				c.Count("walls_located", 1)
			}
		}
		seen[kind]++
		if math.Abs(m.F-want*60) > 1 {
			c.Fail("speed:"+kind, "line %d (layer %d): %s at %.0f mm/min instead of %.0f (%.0f mm/s): %s", m.Line+1, m.Layer, strings.ReplaceAll(kind, "_", " "), m.F, want*60, want, r.G.Lines[m.Line])
			return
		}
	}
	for k, n := range seen {
		c.Count(k, n)
	}
	c.Nontrivial(seen["first_layer"] > 0 && seen["outer_wall"] > 0 && seen["inner_wall"]+seen["fill"] > 0)
}

// ---- C06: start and end code ----

func init() {
	register(&Prop{
		ID:    "C06",
		Rule:  "small random models with random start and end code (temperature codes present, absent, commented out, glued to their argument, templates, percent signs, blank lines, odd spacing), with and without heated bed and enforcement; the program around the print is compared line by line with what the options say; non-trivial: a custom start or end code",
		Quick: 40000, Deep: 400000,
		Require: map[string]int{"programs": 1000, "safe_bed": 50, "safe_hotend": 50, "safe_off": 50, "templates": 200, "percent": 100, "commented_codes": 100, "empty_last_layers": 100},
		Run:     runC06,
	})
}

func randHunk(c *Ctx, start bool) []string {
	n := c.Intn(6)
	var h []string
	for k := 0; k < n; k++ {
		switch c.Intn(16) {
		case 0:
			h = append(h, "M190 S{print_bed_temperature} ; bed")
		case 1:
			h = append(h, "M109 S{print_temperature}")
		case 2:
			h = append(h, fmt.Sprintf("M140 S%d", 40+c.Intn(40)))
		case 3:
			h = append(h, fmt.Sprintf("M104 S%d", 180+c.Intn(40)))
		case 4:
			h = append(h, pickStr(c, ";M109 S200", "; M109 S200 wait", ";M104 S0", ";M190 S60", "; M140 S0 off"))
			c.Count("commented_codes", 1)
		case 5:
			h = append(h, pickStr(c, "M117 50% done", "M117 100%", "; %d %s %v", "M117 %!x"))
			c.Count("percent", 1)
		case 6:
			h = append(h, pickStr(c, "  M104 S190", "\tM140 S50", " G28"))
		case 7:
			h = append(h, pickStr(c, "M104S190", "M190S70", "M109S205"))
		case 8:
			h = append(h, pickStr(c, "; keep {print_temperature} and {print_bed_temperature} {print_temperature}", "M117 {print_bed_temperature}/{print_temperature}"))
		case 9:
			h = append(h, pickStr(c, "", " ", "G28 ", "G28\r", "M117 x \t"))
		default:
			h = append(h, pickStr(c, "G28 X0", "G1 Z5 F5000 ; lift nozzle", "M84 ; steppers off", "G92 E0", "M107", "G21", "M82", "; note M104", "M900 K0.2", "T0", "G29"))
		}
	}
	return h
}

func pickStr(c *Ctx, xs ...string) string { return xs[c.Intn(len(xs))] }

// sets reports whether any line executes one of the codes.
func sets(lines []string, codes ...string) bool {
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if k := strings.Index(l, ";"); k >= 0 {
			l = strings.TrimSpace(l[:k])
		}
		for _, code := range codes {
			if strings.HasPrefix(l, code) && (len(l) == len(code) || l[len(code)] == ' ' || l[len(code)] == 'S' || l[len(code)] == '\t') {
				return true
			}
		}
	}
	return false
}

func runC06(c *Ctx, i int) {
	m := boxMesh(rnd(c.Rand, 3, 6), rnd(c.Rand, 3, 6), rnd(c.Rand, 0.3, 1)).Round32()
	m.Name = "box"
	switch i % 10 {
	case 3: // the last or first layers are empty
		m = tipSolid(c.Rand, SolidOpts{MaxH: 1.5, MaxR: 3}).Round32()
	case 6:
		m = gcodeSolid(c.Rand, c.Intn(24))
	}
	o := randOptions(c.Rand, varyAll)
	o.Printer.ForceSafeStartStopGCode = c.Intn(4) > 0
	o.Printer.HasHeatedBed = c.Intn(3) > 0
	f := &o.Filament
	f.InitialBedTemperature, f.InitialHotEndTemperature = 61+c.Intn(9), 211+c.Intn(9)
	f.BedTemperature, f.HotEndTemperature = 51+c.Intn(9), 191+c.Intn(9)
	if c.Intn(6) == 0 { // off, the same, or beyond the usual
		f.InitialBedTemperature, f.BedTemperature = pickInt(c.Rand, 0, 60, 130), pickInt(c.Rand, 0, 60)
		f.InitialHotEndTemperature, f.HotEndTemperature = pickInt(c.Rand, 0, 200, 310), pickInt(c.Rand, 0, 200)
	}
	custom := i%8 != 0
	if custom {
		o.Printer.StartGCode = data.NewGCodeHunk(randHunk(c, true))
		o.Printer.EndGCode = data.NewGCodeHunk(randHunk(c, false))
	}
	start, end := o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines
	start, end = append([]string(nil), start...), append([]string(nil), end...)
	r := gcodeRunWith(c, i, m, o)
	if r == nil {
		return
	}
	c.Key(start, end)
	c.Nontrivial(custom)
	if n := len(r.Layers); n > 0 && len(r.Layers[n-1].LayerParts()) == 0 {
		c.Count("empty_last_layers", 1)
	}
	c.Count("programs", 1)
	safe := o.Printer.ForceSafeStartStopGCode
	bedCodes, hotCodes := []string{"M140", "M190"}, []string{"M104", "M109"}

	// ---- before the first layer ----
	lines := strings.Split(r.GCode, "\n")
	layer0 := -1
	for k, l := range lines {
		if l == ";LAYER:0" {
			layer0 = k
			break
		}
	}
	if layer0 < 0 {
		c.Fail("no-layer", "the program has no layer 0")
		return
	}
	head := lines[:layer0]
	marker := -1
	for k, l := range head {
		if l == ";START GCODE" {
			marker = k
			break
		}
	}
	if marker < 0 {
		c.Fail("no-start", "the start of the program is not marked")
		return
	}
	var want []string
	for _, l := range start {
		if strings.Contains(l, "{print_") {
			c.Count("templates", 1)
		}
		l = strings.ReplaceAll(l, "{print_bed_temperature}", fmt.Sprint(f.InitialBedTemperature))
		l = strings.ReplaceAll(l, "{print_temperature}", fmt.Sprint(f.InitialHotEndTemperature))
		want = append(want, l)
	}
	body := head[marker+1:]
	if len(body) != len(want)+1 {
		c.Fail("start", "the start code has %d lines in the program, expected %d: %q instead of %q", len(body)-1, len(want), body, want)
		return
	}
	for k := range want {
		if body[k] != want[k] {
			c.Fail("start", "line %d of the start code is %q, expected %q", k, body[k], want[k])
			return
		}
	}
	if !strings.HasPrefix(body[len(want)], "G92 E0") {
		c.Fail("reset", "the extrusion is not reset after the start code but %q follows", body[len(want)])
		return
	}
	bed, hot := 0, 0
	for _, l := range head[:marker] {
		code := strings.Fields(l + " ;")[0]
		switch {
		case strings.HasPrefix(l, ";"):
		case code == "M190" || code == "M140":
			bed++
			if !strings.HasPrefix(l, fmt.Sprintf("M190 S%d ", f.InitialBedTemperature)) {
				c.Fail("bed", "the bed is heated by %q instead of waiting for %d", l, f.InitialBedTemperature)
				return
			}
		case code == "M109" || code == "M104":
			hot++
			if !strings.HasPrefix(l, fmt.Sprintf("M109 S%d ", f.InitialHotEndTemperature)) {
				c.Fail("hotend", "the hot end is heated by %q instead of waiting for %d", l, f.InitialHotEndTemperature)
				return
			}
		default:
			c.Fail("head", "unexpected line before the start code: %q", l)
			return
		}
	}
	wantBed, wantHot := 0, 0
	if safe && o.Printer.HasHeatedBed && !sets(start, bedCodes...) {
		wantBed = 1
		c.Count("safe_bed", 1)
	}
	if safe && !sets(start, hotCodes...) {
		wantHot = 1
		c.Count("safe_hotend", 1)
	}
	if bed != wantBed || hot != wantHot {
		c.Fail("safe-start", "the bed is heated %d times and the hot end %d times before the start code %q, expected %d and %d (enforced: %v, heated bed: %v)", bed, hot, start, wantBed, wantHot, safe, o.Printer.HasHeatedBed)
		return
	}

	// ---- after the last layer ----
	tail := lines[r.G.End+1:]
	if len(tail) > 0 && tail[len(tail)-1] == "" {
		tail = tail[:len(tail)-1]
	}
	var wantTail []string
	if safe {
		if !sets(end, hotCodes...) {
			wantTail = append(wantTail, "M104 S0 ")
			c.Count("safe_off", 1)
		}
		if o.Printer.HasHeatedBed && !sets(end, bedCodes...) {
			wantTail = append(wantTail, "M140 S0 ")
		}
	}
	ns := len(wantTail)
	wantTail = append(wantTail, end...)
	if len(tail) != len(wantTail) {
		c.Fail("end", "the end of the program is %q, expected %q (enforced: %v, heated bed: %v)", tail, wantTail, safe, o.Printer.HasHeatedBed)
		return
	}
	for k := range tail {
		if k < ns && !strings.HasPrefix(tail[k], wantTail[k]) || k >= ns && tail[k] != wantTail[k] {
			c.Fail("end", "the end of the program is %q, expected %q", tail, wantTail)
			return
		}
	}
}

// ---- C07: fan and temperatures ----

func init() {
	register(&Prop{
		ID:    "C07",
		Rule:  "random models with random fan schedules (also speed 0, many layers, layers beyond the model) and temperature switch layers, with and without heated bed; all fan and temperature commands between the first layer and the end are compared with the schedule, and must precede the layer's first move; non-trivial: at least two scheduled events inside of the model",
		Quick: 12000, Deep: 120000,
		Require: map[string]int{"fan_commands": 1500, "fan_off": 200, "temp_switches": 400, "bed_switches": 200, "no_bed_switches": 50, "layers": 5000},
		Run:     runC07,
	})
}

func runC07(c *Ctx, i int) {
	var m *Mesh
	if c.Intn(2) == 0 {
		m = boxMesh(3, 3, rnd(c.Rand, 0.4, 4)).Round32()
		m.Name = "box"
	} else {
		m = gcodeSolid(c.Rand, i)
	}
	o := randOptions(c.Rand, varyAll)
	f := &o.Filament
	f.InitialBedTemperature, f.InitialHotEndTemperature = 61+c.Intn(9), 211+c.Intn(9)
	f.BedTemperature, f.HotEndTemperature = pickInt(c.Rand, 0, 52, 55), 191+c.Intn(9)
	if c.Intn(6) == 0 { // the same as before, or off
		f.BedTemperature, f.HotEndTemperature = f.InitialBedTemperature, pickInt(c.Rand, 0, f.InitialHotEndTemperature)
	}
	f.InitialTemperatureLayerCount = orInt(c.Rand, 0, 300, 0, 1, 2, 3, 5, 8, 100)
	lut := map[int]int{}
	for k := c.Intn(6); k > 0; k-- {
		lut[orInt(c.Rand, 0, 300, 0, 1, 2, 3, 4, 5, 7, 9, 12, 200)] = orInt(c.Rand, 0, 255, 0, 1, 100, 128, 255)
	}
	f.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: lut}
	r := gcodeRunWith(c, i, m, o)
	if r == nil {
		return
	}
	c.Key(lut, f.InitialTemperatureLayerCount)
	n := len(r.G.Layers)
	type ev struct{ kind, val int } // 0 fan, 1 bed, 2 hotend
	got := make([][]ev, n)
	moved := -1
	layer := -1
	for ln, l := range r.G.Lines {
		if r.G.End >= 0 && ln >= r.G.End {
			break
		}
		if layer+1 < n && ln == r.G.LayerLn[layer+1] {
			layer++
			continue
		}
		if layer < 0 || strings.HasPrefix(l, ";") {
			continue
		}
		w := strings.Fields(strings.SplitN(l, ";", 2)[0])
		if len(w) == 0 {
			continue
		}
		if w[0] == "G0" || w[0] == "G1" {
			moved = layer
			continue
		}
		s := -1
		if len(w) > 1 && strings.HasPrefix(w[1], "S") {
			fmt.Sscan(w[1][1:], &s)
		}
		var e ev
		switch w[0] {
		case "M106":
			e = ev{0, s}
			if s == 0 {
				c.Fail("fan", "layer %d: fan speed 0 by %q", layer, l)
				return
			}
		case "M107":
			e = ev{0, 0}
			c.Count("fan_off", 1)
		case "M140":
			e = ev{1, s}
		case "M104":
			e = ev{2, s}
		default:
			c.Fail("command", "layer %d: unexpected command %q", layer, l)
			return
		}
		if moved == layer {
			c.Fail("late", "layer %d: %q after the layer has already started", layer, l)
			return
		}
		got[layer] = append(got[layer], e)
	}
	events := 0
	for k := 0; k < n; k++ {
		var want []ev
		if s, ok := lut[k]; ok {
			want = append(want, ev{0, s})
			c.Count("fan_commands", 1)
		}
		if k == f.InitialTemperatureLayerCount {
			if o.Printer.HasHeatedBed {
				want = append(want, ev{1, f.BedTemperature})
				c.Count("bed_switches", 1)
			} else {
				c.Count("no_bed_switches", 1)
			}
			want = append(want, ev{2, f.HotEndTemperature})
			c.Count("temp_switches", 1)
		}
		events += len(want)
		// compare as sets
		match := len(got[k]) == len(want)
		for _, w := range want {
			found := 0
			for _, g := range got[k] {
				if g == w {
					found++
				}
			}
			match = match && found == 1
		}
		if !match {
			c.Fail("schedule", "layer %d: commands (kind: 0 fan, 1 bed, 2 hot end) %v, expected %v (schedule %v, switch at %d, heated bed %v)", k, got[k], want, lut, f.InitialTemperatureLayerCount, o.Printer.HasHeatedBed)
			return
		}
	}
	c.Nontrivial(events >= 2)
}
