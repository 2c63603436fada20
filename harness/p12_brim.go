package main

import (
	"math"
	"math/rand"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C12: brim and skirt.

func init() {
	register(&Prop{
		ID:    "C12",
		Rule:  "random models (several bodies, holes with islands, split and vanishing walls, support on the first layer) with random numbers of brim and skirt lines; every printed line of the type SKIRT is matched with a distance from an outline or from the hull; a case is non-trivial when brim or skirt lines were judged",
		Quick: 12000, Deep: 150000,
		Require: map[string]int{"brim_loops": 3000, "skirt_loops": 3000, "brim_membership": 20000, "skirt_with_support": 100, "skirt_with_brim": 300, "without_brim": 500, "without_skirt": 300, "islands": 50, "several_outlines": 200, "nothing_on_first_layer": 20, "only_support_on_first_layer": 50},
		Assume:  []string{"printed lines are judged to 25 µm; corners may be cut straight", "the brims of different outlines may overlap each other", "the brim of outlines that touch themselves is not judged"},
		Run:     runC12,
	})
}

func brimSolid(r *rand.Rand, i int) *Mesh {
	h := rnd(r, 0.5, 1.2)
	switch i % 8 {
	case 0: // islands in holes
		a := rnd(r, 8, 14)
		return islandMesh(r, a, h)
	case 1: // several bodies
		m := &Mesh{Name: "bodies"}
		for k := 0; k < 2+r.Intn(4); k++ {
			m.Append(boxMesh(rnd(r, 1, 5), rnd(r, 1, 5), rnd(r, 0.4, 1)).Translate(V3{float64(k%3) * rnd(r, 5.2, 9), float64(k/3) * rnd(r, 5.2, 9), 0}))
		}
		m.RotateXYZ(0, 0, pick(r, 0, rnd(r, 0, 6)))
		return m.Round32()
	case 2: // walls that split: the outline has two outer walls
		n := rnd(r, 0.1, 0.5)
		b := rnd(r, 1.5, 3)
		m := prismMesh([]Pt{{-6, -b}, {-3, -b}, {-3, -n}, {3, -n}, {3, -b}, {6, -b}, {6, b}, {3, b}, {3, n}, {-3, n}, {-3, b}, {-6, b}}, 0, h)
		m.Name = "barbell"
		m.RotateXYZ(0, 0, rnd(r, 0, 6))
		return m.Round32()
	case 3:
		return supportSolid(r, r.Intn(7))
	case 4: // a concave outline whose brim grows together
		g := rnd(r, 0.5, 4)
		m := prismMesh([]Pt{{0, 0}, {10, 0}, {10, 4}, {7, 4}, {7, 2}, {3, 2}, {3, 8}, {7, 8}, {7, 4 + g}, {10, 4 + g}, {10, 10}, {0, 10}}, 0, h)
		m.Name = "cee"
		m.RotateXYZ(0, 0, pick(r, 0, rnd(r, 0, 6)))
		return m.Round32()
	case 5:
		if r.Intn(3) == 0 { // the first layer is too thin for any wall
			m := boxMesh(rnd(r, 3, 9), rnd(r, 0.05, 0.25), h)
			m.Name = "blade"
			m.Append(boxMesh(rnd(r, 2, 4), rnd(r, 2, 4), 0.6).Translate(V3{0, 0, h}))
			return m.Round32()
		}
		if r.Intn(3) == 0 { // flat plates, and nothing above them for a while
			m := boxMesh(rnd(r, 2, 6), rnd(r, 2, 6), 0.31)
			if r.Intn(2) == 0 {
				m.Append(boxMesh(rnd(r, 1.5, 5), rnd(r, 1.5, 5), 0.31).Translate(V3{8, rnd(r, -3, 3), 0}))
			}
			m.Append(boxMesh(3, 3, 0.5).Translate(V3{rnd(r, 0, 4), 0, rnd(r, 0.9, 2)}))
			m.Name = "plates"
			return m.Round32()
		}
	}
	return gcodeSolid(r, i)
}

// frameMesh is a square from x0 to x1 with a square hole that leaves bars of the width t.
func frameMesh(x0, x1, t, h float64) *Mesh {
	m := &Mesh{}
	o, in := rectPoly(x0, x0, x1, x1), rectPoly(x0+t, x0+t, x1-t, x1-t)
	quad := func(a, b, c, d V3) { m.tri(a, b, c); m.tri(a, c, d) }
	v := func(p Pt, z float64) V3 { return V3{p.X, p.Y, z} }
	for i := range o {
		j := (i + 1) % 4
		quad(v(o[i], 0), v(o[j], 0), v(o[j], h), v(o[i], h))
		quad(v(in[j], 0), v(in[i], 0), v(in[i], h), v(in[j], h))
		quad(v(o[i], h), v(o[j], h), v(in[j], h), v(in[i], h))
		quad(v(o[j], 0), v(o[i], 0), v(in[i], 0), v(in[j], 0))
	}
	return m
}

// islandMesh is a square frame with a post (or another frame) in its hole.
func islandMesh(r *rand.Rand, a, h float64) *Mesh {
	m := &Mesh{Name: "island"}
	t := rnd(r, 1, 2)
	in := t + rnd(r, 0.3, 1)
	m.Append(frameMesh(0, a, t, h))
	if r.Intn(2) == 0 && a-2*in > 2*t+1 {
		m.Append(frameMesh(in, a-in, rnd(r, 0.6, t), h))
	} else {
		m.Append(boxMesh(a-2*in, a-2*in, h).Translate(V3{in, in, 0}))
	}
	m.RotateXYZ(0, 0, pick(r, 0, rnd(r, 0, 6)))
	return m.Round32()
}

func runC12(c *Ctx, i int) {
	o := randOptions(c.Rand, optVary{geometry: true, support: i%8 == 3})
	o.Print.InitialLayerThickness = data.Micrometer(pickInt(c.Rand, 100, 200, 250, 300))
	bs := &o.Print.BrimSkirt
	bs.BrimCount = pickInt(c.Rand, 0, 1, 2, 3, 5, 8)
	bs.SkirtCount = pickInt(c.Rand, 0, 1, 2, 2, 3, 5)
	bs.SkirtDistance = mm(pick(c.Rand, 5, 5, 2, 3.3, 8, 0, 0.7))
	if i%8 == 3 {
		o.Print.Support.Enabled = true
		if c.Intn(3) == 0 { // the model floats above the plate, so that the first layer consists of support only
			o.Printer.Center.SetZ(data.Micrometer(pickInt(c.Rand, 400, 700, 1500)))
			o.Print.Support.TopGapLayers = c.Intn(2)
		}
	}
	m := brimSolid(c.Rand, i)
	r := gcodeRunWith(c, i, m, o)
	if r == nil || len(r.Layers) == 0 {
		return
	}
	for k := 1; k < len(r.Layers); k++ {
		if n := len(r.G.layerStrokes(k, "SKIRT", "")); n > 0 {
			c.Fail("layer", "%d brim or skirt lines on layer %d", n, k)
			return
		}
		if b, _ := modifier.BrimOuterDimension(r.Layers[k]); len(b) > 0 {
			c.Fail("layer", "layer %d has a brim", k)
			return
		}
	}
	w := float64(o.Printer.ExtrusionWidth)
	per, err := modifier.Perimeters(r.Layers[0])
	if err != nil {
		c.Fail("attribute", "%v", err)
		return
	}
	support, err := modifier.FullSupport(r.Layers[0])
	if err != nil {
		c.Fail("attribute", "%v", err)
		return
	}
	var outlines [][]Pt
	var all []Pt
	for _, part := range per {
		for _, wall := range part[:1] {
			for _, x := range wall {
				outlines = append(outlines, polyOf(x.Outline()))
				all = append(all, polyOf(x.Outline())...)
			}
		}
	}
	for _, x := range support {
		all = append(all, polyOf(x.Outline())...)
	}
	var top [][]Pt
	for a, x := range outlines {
		in := false
		for b, y := range outlines {
			in = in || (a != b && parity(x[0], segsOfPoly(y)))
		}
		if in {
			c.Count("islands", 1)
		} else {
			top = append(top, x)
		}
	}
	if len(top) > 1 {
		c.Count("several_outlines", 1)
	}
	st := r.G.layerStrokes(0, "SKIRT", "")
	skirts := bs.SkirtCount
	if len(all) == 0 {
		c.Count("nothing_on_first_layer", 1)
		if len(st) > 0 {
			c.Fail("empty", "%d brim or skirt lines around nothing", len(st))
		}
		return
	}
	if len(st) < skirts {
		c.Fail("skirt-count", "%d lines of brim and skirt although %d skirt lines are configured", len(st), skirts)
		return
	}
	for n, s := range st {
		if !s.Closed() {
			c.Fail("open", "brim or skirt line %d is not closed: from (%.0f %.0f) to (%.0f %.0f)", n, s.Pts[0].X, s.Pts[0].Y, s.Pts[len(s.Pts)-1].X, s.Pts[len(s.Pts)-1].Y)
			return
		}
	}
	// they come before everything else of the layer
	first, lastSkirt := math.MaxInt, -1
	for _, s := range r.G.Strokes {
		if s.Layer != 0 {
			continue
		}
		if s.Type == "SKIRT" {
			lastSkirt = s.Moves[len(s.Moves)-1]
		} else if s.Moves[0] < first {
			first = s.Moves[0]
		}
	}
	if lastSkirt > first {
		c.Fail("order", "a brim or skirt line is printed after walls, support or infill")
		return
	}
	const tol = 25
	// skirt
	hull := convexHull(all)
	hs := segsOfPoly(hull)
	if skirts == 0 {
		c.Count("without_skirt", 1)
	}
	for n := 0; n < skirts; n++ {
		d := math.Round(float64(bs.SkirtDistance)*1000) + w*float64(bs.BrimCount) + w + w*float64(n)
		if !followsOffset(c, sprint("skirt line ", n), st[n].Pts, hs, d, tol) {
			return
		}
		segs := segsOfOpen(st[n].Pts)
		for _, p := range all {
			if !parity(p, segs) {
				c.Fail("skirt-around", "skirt line %d does not surround (%.0f %.0f)", n, p.X, p.Y)
				return
			}
		}
		c.Count("skirt_loops", 1)
		c.Nontrivial(true)
	}
	if skirts > 0 && len(outlines) == 0 {
		c.Count("only_support_on_first_layer", 1)
	}
	if skirts > 0 && len(support) > 0 {
		c.Count("skirt_with_support", 1)
	}
	if skirts > 0 && bs.BrimCount > 0 {
		c.Count("skirt_with_brim", 1)
	}
	// brim
	lines := st[skirts:]
	if bs.BrimCount == 0 {
		c.Count("without_brim", 1)
		if len(lines) > 0 {
			c.Fail("brim-extra", "%d brim lines although there are none configured", len(lines))
		}
		return
	}
	tops := make([][]Seg, len(top))
	for t := range top {
		tops[t] = segsOfPoly(top[t])
	}
	for t := range top {
		if touchesItself(top[t]) {
			c.Count("needles", 1)
			return
		}
	}
	loops := map[[2]int][][]Seg{}
	for n, s := range lines {
		found := false
		for t := range tops {
			for b := 1; b <= bs.BrimCount && !found; b++ {
				if onOffset(s.Pts, tops[t], w*float64(b), tol) && !parity(s.Pts[0], tops[t]) && parity(top[t][0], segsOfOpen(s.Pts)) {
					loops[[2]int{t, b}] = append(loops[[2]int{t, b}], segsOfOpen(s.Pts))
					found = true
				}
			}
		}
		if !found {
			c.Fail("brim-distance", "brim line %d starting at (%.0f %.0f) runs at no multiple (up to %d) of %.0f µm around any outline", n, s.Pts[0].X, s.Pts[0].Y, bs.BrimCount, w)
			return
		}
		c.Count("brim_loops", 1)
	}
	outer, err := modifier.BrimOuterDimension(r.Layers[0])
	if err != nil {
		c.Fail("attribute", "%v", err)
		return
	}
	ro := regionOf(outer)
	for t := range tops {
		for b := 1; b <= bs.BrimCount; b++ {
			d := w * float64(b)
			for n := 0; n < 6; n++ {
				sg := tops[t][c.Intn(len(tops[t]))]
				l := sg.B.Sub(sg.A)
				if l.Len() == 0 {
					continue
				}
				p := lerp(sg.A, sg.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(d * rnd(c.Rand, 0.5, 1) * float64(1-2*c.Intn(2)) / l.Len()))
				if inOffset(p, tops[t], d, tol) != yes {
					continue
				}
				got := 0
				near := false
				for _, s := range loops[[2]int{t, b}] {
					near = near || distToSegs(p, s) < tol
					if parity(p, s) {
						got++
					}
				}
				if near {
					continue
				}
				c.Count("brim_membership", 1)
				if got != 1 {
					c.Fail("brim-missing", "(%.0f %.0f) near outline %d is surrounded by %d brim lines at the distance %.0f", p.X, p.Y, t, got, d)
					return
				}
			}
		}
		// the area of the brim
		d := w*float64(bs.BrimCount) + w/2
		for n := 0; n < 10; n++ {
			sg := tops[t][c.Intn(len(tops[t]))]
			l := sg.B.Sub(sg.A)
			if l.Len() == 0 {
				continue
			}
			p := lerp(sg.A, sg.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(d * rnd(c.Rand, -1.6, 1.6) / l.Len()))
			want := no
			for u := range tops {
				if x := inOffset(p, tops[u], d, 15); x != no {
					want = yes
					if x == unknown {
						want = unknown
						break
					}
				}
			}
			// corners are cut twice
			for u := range tops {
				if dd := distToSegs(p, tops[u]); want != yes && dd < d*1.5 {
					want = unknown
				}
			}
			if want == unknown || ro.Dist(p) < 5 {
				continue
			}
			// a gap that the brim closes may be enclosed
			if want == no && insideHull(p, top) {
				continue
			}
			c.Count("brim_area", 1)
			if got := ro.Contains(p); got != (want == yes) {
				c.Fail("brim-area", "(%.0f %.0f) belongs to the area of the brim: %v instead of %v", p.X, p.Y, got, want == yes)
				return
			}
		}
	}
	c.Nontrivial(true)
}

// touchesItself tells whether the outline has needles that may be inside out due to rounding.
func touchesItself(p []Pt) bool {
	segs := segsOfPoly(p)
	for i, v := range p {
		for j, s := range segs {
			if s.A != v && s.B != v && distPtSeg(v, s) < 4 {
				// the neighbour of a short edge is no needle
				if n := (i + 1) % len(p); (s.A == p[n] && dist(v, p[n]) < 4) || dist(v, s.A) < 4 && (j+1)%len(p) == i {
					continue
				}
				return true
			}
		}
	}
	return false
}

func insideHull(p Pt, polys [][]Pt) bool {
	var all []Pt
	for _, x := range polys {
		all = append(all, x...)
	}
	return parity(p, segsOfPoly(convexHull(all)))
}

// onOffset tells whether the closed line runs completely at the distance d around (or inside) the contour.
func onOffset(line []Pt, segs []Seg, d, tol float64) bool {
	min := math.Inf(1)
	for i := 0; i+1 < len(line); i++ {
		for _, p := range []Pt{line[i], lerp(line[i], line[i+1], 0.5)} {
			dd := distToSegs(p, segs)
			min = math.Min(min, dd)
			if dd < d-tol || dd > math.Sqrt2*d+tol || (dd > d+tol && !atJoin(p, segs, d, tol)) {
				return false
			}
		}
	}
	return min <= d+tol
}

func followsOffset(c *Ctx, what string, line []Pt, segs []Seg, d, tol float64) bool {
	for i := 0; i+1 < len(line); i++ {
		for _, p := range []Pt{line[i], lerp(line[i], line[i+1], c.Float64())} {
			dd := distToSegs(p, segs)
			c.Count("line_points", 1)
			if parity(p, segs) || dd < d-tol || dd > math.Sqrt2*d+tol || (dd > d+tol && !atJoin(p, segs, d, tol)) {
				c.Fail("distance", "%s: (%.0f %.0f) is %.0f µm away instead of %.0f", what, p.X, p.Y, dd, d)
				return false
			}
		}
	}
	return true
}
