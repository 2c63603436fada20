package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// C01: every layer is the cross-section of the model at its height.

func init() {
	register(&Prop{
		ID:    "C01",
		Rule:  "random watertight solids (boxes, lofts, tubes, tori, spheres, L/U/T prisms, several bodies, islands in holes, free rotation, vertical gaps, shuffled triangles) sliced with random thicknesses, plate positions and weld distances; each layer is compared in both directions with an independently computed cross-section; a case is non-trivial when at least one layer has a non-empty section",
		Quick: 10000, Deep: 200000,
		Require: map[string]int{"layers": 2000, "boundary_points": 50000, "holes": 200, "points_inside": 20000, "crowds": 10},
		Assume:  []string{"bodies of one model do not intersect each other", "a plane lying in a horizontal face takes the section just below it", "closed contours not longer than finish-polygon-snap-distance may be dropped (documented option)"},
		Run:     runC01,
	})
}

func runC01(c *Ctx, i int) {
	o := defaults()
	o.Print.LayerThickness = data.Micrometer(pickInt(c.Rand, 100, 150, 200, 200, 250, 300, 77))
	o.Print.InitialLayerThickness = data.Micrometer(pickInt(c.Rand, 100, 200, 200, 250, 300, 350, 123))
	cx, cy, cz := int64(pickInt(c.Rand, 100000, 0, -40000, 71234)), int64(pickInt(c.Rand, 100000, 0, 3210, 88)), int64(0)
	o.Slicing.MeldDistance = data.Micrometer(pickInt(c.Rand, 30, 30, 10, 3, 20))
	if c.Intn(3) == 0 {
		o.Slicing.FinishPolygonSnapDistance = data.Micrometer(pickInt(c.Rand, 200, 500, 50))
	}
	var m *Mesh
	switch {
	case i%10 == 3: // a vertical gap between two bodies: some layers are empty
		m = boxMesh(5, 4, 1.2)
		m.Append(boxMesh(3, 6, 1).Translate(V3{rnd(c.Rand, -3, 3), 1, 1.2 + rnd(c.Rand, 0.1, 2)}))
		m.Name = "gap"
		m.Round32()
	case i%10 == 7:
		m = randSolid(c.Rand, SolidOpts{MaxH: 10, MaxR: 40})
		m.Name = "large-" + m.Name
	case i%50 == 16: // many parts, also within each other
		m = crowd(c.Rand)
		c.Count("crowds", 1)
	case i%20 == 9: // off the bed
		m = randSolid(c.Rand, SolidOpts{})
		cz = int64(pickInt(c.Rand, -700, -200, 300, 1000))
	default:
		m = randSolid(c.Rand, SolidOpts{Ledges: true})
	}
	o.Printer.Center = data.NewMicroVec3(data.Micrometer(cx), data.Micrometer(cy), data.Micrometer(cz))
	c.Name("%s-%d", m.Name, i)
	r := sliceOnly(c, m, o)
	if r.P.Hi.Z < int64(o.Print.InitialLayerThickness) {
		c.Count("too_flat", 1)
		if r.Err == nil && len(r.Sliced) > 0 {
			c.Fail("too-flat", "%d layers of a model that does not reach the first one", len(r.Sliced))
		}
		return
	}
	if r.Err != nil {
		c.Fail("error", "slicing a valid model failed: %v", r.Err)
		return
	}
	c.Key(describeMesh(m), o.Print.LayerThickness, o.Print.InitialLayerThickness, cx, cy, cz)
	c.Sample("%s, thickness %d/%d, center %d/%d/%d: %d layers", describeMesh(m), o.Print.InitialLayerThickness, o.Print.LayerThickness, cx, cy, cz, len(r.Sliced))
	want := nLayers(r.P.Hi.Z, o)
	if len(r.Sliced) != want {
		c.Fail("count", "%d layers, but the model is %d µm high, i.e. %d layers", len(r.Sliced), r.P.Size.Z, want)
		return
	}
	for k, l := range r.Sliced {
		if l == nil {
			c.Fail("nil", "layer %d is nil", k)
			return
		}
		checkSection(c, r, k, regionOf(l.LayerParts()), 40)
		if c.Failed() {
			return
		}
	}
}

// checkSection compares a layer with the cross-section of the model.
func checkSection(c *Ctx, r *Run, k int, got *Region, tol float64) {
	z := layerZ(r.Opt, k)
	segs := r.P.Section(z)
	loops, open := chainLoops(segs)
	if open > 0 {
		c.Count("sections_skipped_open", 1)
		return
	}
	finish := float64(r.Opt.Slicing.FinishPolygonSnapDistance)
	var small []Seg // contours that may be dropped
	smallArea, perim, area := 0.0, 0.0, 0.0
	var sure []Seg
	for _, l := range loops {
		if lenPoly(l, true) <= finish+50 {
			small = append(small, segsOfPoly(l)...)
			smallArea += math.Abs(areaPoly(l))
			c.Count("tiny_contours", 1)
		} else {
			sure = append(sure, segsOfPoly(l)...)
		}
		area += areaPoly(l)
		perim += lenPoly(l, true)
	}
	c.Count("layers", 1)
	if len(sure) > 0 {
		c.Nontrivial(true)
	} else {
		c.Count("empty_layers", 1)
	}
	// orientation
	gp := 0.0
	for pi, p := range got.Parts {
		if len(p.Outline) < 3 || areaPoly(p.Outline) <= 0 {
			c.Fail("orientation", "layer %d (z=%d) part %d: the outline is not a counter-clockwise polygon (area %.0f)", k, z, pi, areaPoly(p.Outline))
			return
		}
		for hi, h := range p.Holes {
			c.Count("holes", 1)
			if len(h) < 3 || areaPoly(h) >= 0 {
				c.Fail("orientation", "layer %d (z=%d) part %d: hole %d is not clockwise (area %.0f)", k, z, pi, hi, areaPoly(h))
				return
			}
		}
		c.Count("parts", 1)
		gp += p.Area()
	}
	// area
	if d := math.Abs(gp - area); d > perim*8+smallArea+1000 {
		c.Fail("area", "layer %d (z=%d): area %.4f mm², but the cross-section has %.4f mm²", k, z, gp/1e6, area/1e6)
		return
	}
	// every contour of the section is in the layer, and the other way round
	for _, s := range sure {
		n := 1 + int(s.Len()/3000)
		for j := 0; j < n; j++ {
			p := lerp(s.A, s.B, (float64(j)+c.Float64())/float64(n))
			// slivers of material or air may vanish in the simplification of the contours
			d := s.B.Sub(s.A)
			if d.Len() == 0 {
				continue
			}
			side := Pt{-d.Y, d.X}.Mul(3 * tol / d.Len())
			if distToSegs(p.Add(side), segs) < 2*tol || distToSegs(p.Sub(side), segs) < 2*tol ||
				!parity(p.Add(side), segs) || parity(p.Sub(side), segs) {
				c.Count("points_at_slivers", 1)
				continue
			}
			c.Count("boundary_points", 1)
			dev := got.Dist(p)
			if !math.IsInf(dev, 0) {
				c.Max("boundary_deviation_um", dev)
			}
			if dev > tol {
				c.Fail("missing-boundary", "layer %d (z=%d): the cross-section has a boundary at (%.0f %.0f), the nearest one of the layer is %.0f µm away", k, z, p.X, p.Y, dev)
				return
			}
		}
	}
	for _, s := range got.segs {
		for _, p := range []Pt{s.A, lerp(s.A, s.B, c.Float64())} {
			c.Count("boundary_points", 1)
			if d := distToSegs(p, segs); d > tol {
				c.Fail("extra-boundary", "layer %d (z=%d): the layer has a boundary at (%.0f %.0f), the nearest one of the cross-section is %.0f µm away", k, z, p.X, p.Y, d)
				return
			}
		}
	}
	// inside / outside
	if len(segs) == 0 {
		return
	}
	lo, hi := bboxSegs(segs)
	probe := func(p Pt) bool {
		if distToSegs(p, segs) <= tol || (len(small) > 0 && distToSegs(p, small) < 200) {
			return true
		}
		in := parity(p, segs)
		n := got.Count(p)
		if in {
			c.Count("points_inside", 1)
		} else {
			c.Count("points_outside", 1)
		}
		if n > 1 {
			c.Fail("overlap", "layer %d (z=%d): the point (%.0f %.0f) lies in %d parts", k, z, p.X, p.Y, n)
			return false
		}
		if in != (n == 1) {
			c.Fail("section", "layer %d (z=%d): the point (%.0f %.0f) is inside the model: %v, inside the layer: %v", k, z, p.X, p.Y, in, n == 1)
			return false
		}
		return true
	}
	for j := 0; j < 60; j++ {
		if !probe(Pt{rnd(c.Rand, lo.X-500, hi.X+500), rnd(c.Rand, lo.Y-500, hi.Y+500)}) {
			return
		}
	}
	for j := 0; j < 40; j++ {
		s := segs[c.Intn(len(segs))]
		d := s.B.Sub(s.A)
		if d.Len() == 0 {
			continue
		}
		nrm := Pt{-d.Y, d.X}.Mul(1 / d.Len())
		if !probe(lerp(s.A, s.B, c.Float64()).Add(nrm.Mul(rnd(c.Rand, -300, 300)))) {
			return
		}
	}
}
