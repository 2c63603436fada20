package main

import (
	"math"
	"sort"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C08: the walls.

func init() {
	register(&Prop{
		ID:    "C08",
		Rule:  "random watertight solids (thin walls, holes, islands, splitting and vanishing insets) through the complete pipeline with random extrusion widths and 1 to 6 walls; the planned walls of every part are compared with the distance to its contour in both directions, the printed walls with an independent section of the mesh; a case is non-trivial when at least one part has all its walls and one wall is missing or split or has a hole",
		Quick: 10000, Deep: 150000,
		Require: map[string]int{"parts": 5000, "wall_vertices": 100000, "membership": 100000, "walls_expected_at_contour": 10000, "printed_walls": 5000, "inner_walls": 2000, "split_walls": 50, "too_narrow": 100, "many_walls": 50},
		Assume:  []string{"corners that open towards the inside may be cut straight (distance up to 1.42 times the offset)", "planned walls are exact to 6 µm, printed ones to 60 µm of the section of the mesh"},
		Run:     runC08,
	})
}

func runC08(c *Ctx, i int) {
	o := randOptions(c.Rand, optVary{geometry: true})
	raise(c, &o)
	o.Print.InsetCount = pickInt(c.Rand, 1, 2, 2, 3, 4, 5, 6, 8)
	o.Printer.ExtrusionWidth = data.Micrometer(pickInt(c.Rand, 300, 400, 400, 401, 455, 600, 800))
	o.Print.BrimSkirt.BrimCount = pickInt(c.Rand, 0, 0, 2)
	if i%40 == 23 { // many walls
		o.Print.InsetCount = 7 + c.Intn(14)
		c.Count("many_walls", 1)
	}
	m := gcodeSolid(c.Rand, i)
	if i%4 == 1 {
		m = randSolid(c.Rand, SolidOpts{MaxH: 1.5, MaxR: 4, Ledges: true})
	}
	if i%6 == 2 { // a bar bell: walls that split
		w := float64(o.Printer.ExtrusionWidth) / 1000
		n := w * rnd(c.Rand, 0.6, 5) / 2
		b := rnd(c.Rand, 1.5, 3)
		m = prismMesh([]Pt{{-6, -b}, {-3, -b}, {-3, -n}, {3, -n}, {3, -b}, {6, -b}, {6, b}, {3, b}, {3, n}, {-3, n}, {-3, b}, {-6, b}}, 0, 0.8)
		m.RotateXYZ(0, 0, rnd(c.Rand, 0, 6)).Round32()
		m.Name = "barbell"
	}
	if i%40 == 23 {
		o.Printer.ExtrusionWidth = data.Micrometer(pickInt(c.Rand, 250, 300, 400))
		m = randSolid(c.Rand, SolidOpts{MaxH: 1, MaxR: 12})
	}
	r := gcodeRunWith(c, i, m, o)
	if r == nil {
		return
	}
	full, special := false, false
	for k := range r.Layers {
		f, s := checkWalls(c, r, k)
		full, special = full || f, special || s
		if c.Failed() {
			return
		}
		checkPrintedWalls(c, r, k)
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(full && special)
}

// checkWalls compares the planned walls of the layer with its parts.
func checkWalls(c *Ctx, r *Run, k int) (full, special bool) {
	const tol = 6
	w := r.Opt.Printer.ExtrusionWidth
	parts := r.Sliced[k].LayerParts()
	per, err := modifier.Perimeters(r.Layers[k])
	if err != nil {
		c.Fail("attribute", "layer %d: %v", k, err)
		return
	}
	if len(per) != len(parts) {
		c.Fail("parts", "layer %d has %d parts but walls for %d", k, len(parts), len(per))
		return
	}
	for pi, part := range parts {
		if len(per[pi]) != r.Opt.Print.InsetCount {
			c.Fail("count", "layer %d part %d has %d walls instead of %d", k, pi, len(per[pi]), r.Opt.Print.InsetCount)
			return
		}
		P := partOf(part)
		segs := P.Segs()
		lo, hi := bboxSegs(segs)
		if hasNeedles(part) {
			// needles of the width of the rounding are cut off before the walls are made
			c.Count("parts_with_needles", 1)
			continue
		}
		c.Count("parts", 1)
		all := true
		for wi, wall := range per[pi] {
			d := float64(w/2) + float64(wi)*float64(w)
			reg := regionOf(wall)
			if len(wall) != 1 || len(wall[0].Holes()) > 0 {
				special = true
			}
			if len(wall) > 1 {
				c.Count("split_walls", 1)
			}
			if len(wall) == 0 {
				c.Count("too_narrow", 1)
				all = false
			}
			for _, s := range reg.segs {
				for _, p := range []Pt{s.A, lerp(s.A, s.B, c.Float64())} {
					c.Count("wall_vertices", 1)
					dd := distToSegs(p, segs)
					if !parity(p, segs) {
						c.Fail("outside", "layer %d part %d wall %d: (%.0f %.0f) lies outside of the part", k, pi, wi, p.X, p.Y)
						return
					}
					c.Max("wall_deviation_um", math.Max(d-dd, dd-math.Sqrt2*d))
					if dd < d-tol || dd > math.Sqrt2*d+tol || (dd > d+tol && !nearVertex(p, segs, math.Sqrt2*d+tol)) {
						c.Fail("distance", "layer %d part %d wall %d: (%.0f %.0f) is %.0f µm away from the contour instead of %.0f", k, pi, wi, p.X, p.Y, dd, d)
						return
					}
				}
			}
			// membership
			probe := func(p Pt) bool {
				e := inOffset(p, segs, -d, tol)
				if e == unknown || reg.Dist(p) < tol {
					return true
				}
				c.Count("membership", 1)
				if got := reg.Contains(p); got != (e == yes) {
					c.Fail("area", "layer %d part %d wall %d: (%.0f %.0f) is %.0f µm inside the part, enclosed by the wall: %v", k, pi, wi, p.X, p.Y, distToSegs(p, segs), got)
					return false
				}
				return true
			}
			for j := 0; j < 12; j++ {
				if !probe(Pt{rnd(c.Rand, lo.X, hi.X), rnd(c.Rand, lo.Y, hi.Y)}) {
					return
				}
			}
			for j := 0; j < 12; j++ {
				s := segs[c.Intn(len(segs))]
				l := s.B.Sub(s.A)
				if l.Len() == 0 {
					continue
				}
				if !probe(lerp(s.A, s.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul((d + rnd(c.Rand, -80, 80)) / l.Len()))) {
					return
				}
			}
		}
		full = full || all
	}
	return
}

// checkPrintedWalls compares the printed walls with the section of the mesh and checks their order.
func checkPrintedWalls(c *Ctx, r *Run, k int) {
	const tol = 60
	w := float64(r.Opt.Printer.ExtrusionWidth)
	segs := r.P.Section(layerZ(r.Opt, k))
	if _, open := chainLoops(segs); open > 0 || len(segs) == 0 {
		return
	}
	reg := regionOf(r.Sliced[k].LayerParts())
	needles := false
	for _, part := range r.Sliced[k].LayerParts() {
		needles = needles || hasNeedles(part)
	}
	strokes := append(r.G.layerStrokes(k, "WALL-OUTER", ""), r.G.layerStrokes(k, "WALL-INNER", "")...)
	sort.Slice(strokes, func(a, b int) bool { return strokes[a].Moves[0] < strokes[b].Moves[0] })
	var outer []Seg
	byDepth := map[int][]Seg{}
	lastOf := map[int]int{} // part -> last depth printed
	for _, s := range strokes {
		c.Count("printed_walls", 1)
		if s.Type == "WALL-INNER" {
			c.Count("inner_walls", 1)
		}
		sg := segsOfOpen(s.Pts)
		// depth: the smallest distance to the contours
		d := math.Inf(1)
		var mid []Pt
		for _, e := range sg {
			for _, p := range []Pt{e.A, lerp(e.A, e.B, 0.5)} {
				mid = append(mid, p)
				d = math.Min(d, reg.Dist(p))
			}
		}
		depth := int(math.Round(d/w - 0.5))
		if lenPoly(s.Pts, false) < 1000 || needles {
			// so small a wall may consist of nothing but cut corners, and needles are cut off before
			byDepth[depth] = append(byDepth[depth], sg...)
			continue
		}
		if math.Abs(d-(float64(depth)+0.5)*w) > 40 {
			c.Fail("printed-distance", "layer %d: the printed wall at (%.0f %.0f) keeps %.0f µm to the contour, which is no (i+1/2) x %.0f", k, s.Pts[0].X, s.Pts[0].Y, d, w)
			return
		}
		if (depth == 0) != (s.Type == "WALL-OUTER") {
			c.Fail("type", "layer %d: the wall at (%.0f %.0f) with %.0f µm to the contour is announced as %s", k, s.Pts[0].X, s.Pts[0].Y, d, s.Type)
			return
		}
		if !s.Closed() {
			// too short to tell
			if lenPoly(s.Pts, false) > 200 {
				c.Fail("open", "layer %d: the wall starting at (%.0f %.0f) is not closed: it ends at (%.0f %.0f)", k, s.Pts[0].X, s.Pts[0].Y, s.Pts[len(s.Pts)-1].X, s.Pts[len(s.Pts)-1].Y)
				return
			}
		}
		part := -1
		for pi := range reg.Parts {
			if parity(mid[0], reg.per[pi]) && distToSegs(mid[0], reg.per[pi]) > 20 {
				part = pi
			}
		}
		if part >= 0 {
			if last, ok := lastOf[part]; ok {
				good := depth == last || depth == last+1 || depth > last && last > 0 || depth == 0
				if last == 0 && depth != 0 {
					good = false
				}
				if !good {
					c.Fail("order", "layer %d part %d: wall %d is printed after wall %d", k, part, depth, last)
					return
				}
			}
			lastOf[part] = depth
		}
		byDepth[depth] = append(byDepth[depth], sg...)
		if depth == 0 {
			outer = append(outer, sg...)
		}
	}
	if needles {
		return
	}
	// along every contour of the model runs its outer wall, and the inner ones where there is room for them
	for j := 0; j < 60; j++ {
		s := segs[c.Intn(len(segs))]
		l := s.B.Sub(s.A)
		if l.Len() < 20 {
			continue
		}
		nrm := Pt{-l.Y, l.X}.Mul(1 / l.Len())
		at := lerp(s.A, s.B, c.Float64())
		if reg.Dist(at) > 40 {
			continue // C01 looks at these
		}
		for depth := 0; depth < r.Opt.Print.InsetCount; depth++ {
			d := (float64(depth) + 0.5) * w
			// the wall exists if the surroundings of the point are certainly inside of the shrunk region
			if inOffset(at.Add(nrm.Mul(d+tol)), segs, -d, 40) != yes {
				break
			}
			c.Count("walls_expected_at_contour", 1)
			if dev := distToSegs(at.Add(nrm.Mul(d)), byDepth[depth]); dev > tol {
				c.Fail("not-printed", "layer %d: next to the contour at (%.0f %.0f) wall %d should be printed %.0f µm inside, the nearest one is %.0f µm off", k, at.X, at.Y, depth, d, dev)
				return
			} else {
				c.Max("printed_wall_deviation_um", dev)
			}
		}
	}
}

// hasNeedles tells whether a contour of the part runs back along itself at the distance of the rounding.
func hasNeedles(part data.LayerPart) bool {
	if touchesItself(polyOf(part.Outline())) {
		return true
	}
	for _, h := range part.Holes() {
		if touchesItself(polyOf(h)) {
			return true
		}
	}
	return false
}

// raise sometimes lifts the placed model above the plate (empty first layers) or sinks it into it.
func raise(c *Ctx, o *data.Options) {
	if c.Intn(10) == 0 {
		o.Printer.Center.SetZ(data.Micrometer(pickInt(c.Rand, -100, 130, 450, 450, 1010)))
		c.Count("raised_or_sunk", 1)
	}
}
