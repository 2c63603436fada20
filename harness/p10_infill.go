package main

import (
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C10: the lines that fill an area.

func init() {
	register(&Prop{
		ID:    "C10",
		Rule:  "areas (random ones given to the pattern directly, and the planned skin, infill and support areas of complete programs) filled with random directions, distances, zigzag settings and layers; every printed segment is attributed to a line of the fixed grid or to a connection, and sampled points on all grid lines must be covered exactly once; a case is non-trivial when covered points were judged",
		Quick: 24000, Deep: 250000,
		Require: map[string]int{"covered_points": 50000, "shortened_ends": 2000, "segment_points": 50000, "connections": 1000, "missing_connections_justified": 200, "printed_areas_skin": 500, "printed_areas_infill": 300, "printed_areas_support": 50, "printed_areas_interface": 20},
		Assume:  []string{"line ends at contours that are almost parallel to the lines are only judged as far as rounding allows"},
		Run:     runC10,
	})
}

type pattern struct {
	deg      float64 // the lines are vertical after turning the area by this angle
	d, w     float64
	min, max Pt // bounds in world coordinates
	zigzag   bool
}

// gridOf returns the position of the first line and the range of the lines in the turned frame.
func (p pattern) gridOf() (x0, x1, y0, y1 float64) {
	x0, y0 = math.Inf(1), math.Inf(1)
	x1, y1 = math.Inf(-1), math.Inf(-1)
	for _, q := range []Pt{p.min, {p.max.X, p.min.Y}, p.max, {p.min.X, p.max.Y}} {
		q = rotPt(q, p.deg)
		x0, x1 = math.Min(x0, q.X), math.Max(x1, q.X)
		y0, y1 = math.Min(y0, q.Y), math.Max(y1, q.Y)
	}
	return
}

// accepts tells whether a path may come from the pattern: only lines of the grid and short links, all in the area.
func (p pattern) accepts(path []Pt, reg *Region, tol float64) bool {
	if len(reg.segs) == 0 {
		return false
	}
	x0, _, _, _ := p.gridOf()
	onLine := func(a, b Pt) bool {
		x := x0 + math.Round((a.X-x0)/p.d)*p.d
		return math.Abs(a.X-x) <= tol && math.Abs(b.X-x) <= tol
	}
	for i := 0; i+1 < len(path); i++ {
		a, b := rotPt(path[i], p.deg), rotPt(path[i+1], p.deg)
		for _, t := range []float64{0, 0.5, 1} {
			if q := lerp(path[i], path[i+1], t); reg.Dist(q) > tol && !reg.Contains(q) {
				return false
			}
		}
		if onLine(a, b) {
			continue
		}
		// the ends of a link are on different lines
		if dist(a, b) > p.w+2*p.d+2*tol || !onLine(a, a) || !onLine(b, b) {
			return false
		}
	}
	return true
}

type fillSeg struct {
	a, b Pt
	link bool
}

// checkPattern judges the segments that fill one area (or several disjoint ones). direct: these are all the paths of one
// area in their order, so that also the ends of the connections are judged (in a program tiny lines are invisible).
func checkPattern(c *Ctx, what string, paths [][]Pt, reg *Region, p pattern, tol float64, direct bool) {
	x0, x1, y0, y1 := p.gridOf()
	var segs []Seg
	for _, s := range reg.segs {
		segs = append(segs, Seg{rotPt(s.A, p.deg), rotPt(s.B, p.deg)})
	}
	if len(segs) == 0 {
		if len(paths) > 0 {
			c.Fail("empty", "%s: an empty area was filled", what)
		}
		return
	}
	lo, hi := bboxSegs(segs)
	inside := func(q Pt) bool { return distToSegs(q, segs) <= tol || parity(q, segs) }
	interval := func(x, y float64) (a, b float64, ok bool) {
		s := Seg{Pt{x, lo.Y - 10}, Pt{x, hi.Y + 10}}
		l := s.Len()
		for _, iv := range clipSegToSegs(s, segs) {
			a, b := s.A.Y+iv[0]*l, s.A.Y+iv[1]*l
			if a <= y && y <= b {
				return a, b, true
			}
		}
		return 0, 0, false
	}
	// a line with next to nothing left after it was shortened is not visible in the program
	tinyLine := func(q Pt) bool {
		for _, dx := range []float64{-tol, 0, tol} {
			if a, b, ok := interval(x0+math.Round((q.X-x0)/p.d)*p.d+dx, q.Y); ok && b-a < p.w+3*tol {
				return true
			}
		}
		return false
	}
	byLine := map[int][]fillSeg{}
	var last *Pt
	lastLine := false
	for _, path := range paths {
		for i := 0; i+1 < len(path); i++ {
			a, b := rotPt(path[i], p.deg), rotPt(path[i+1], p.deg)
			if dist(a, b) == 0 {
				e := b
				last = &e
				continue
			}
			for _, t := range []float64{0, 1, c.Float64(), 0.5} {
				c.Count("segment_points", 1)
				if q := lerp(a, b, t); !inside(q) {
					wq := rotPt(q, -p.deg)
					c.Fail("outside", "%s: the segment from (%.0f %.0f) to (%.0f %.0f) leaves the area at (%.0f %.0f) by %.1f µm", what, path[i].X, path[i].Y, path[i+1].X, path[i+1].Y, wq.X, wq.Y, distToSegs(q, segs))
					return
				}
			}
			k := math.Round((a.X - x0) / p.d)
			x := x0 + k*p.d
			if math.Abs(a.X-x) <= tol && math.Abs(b.X-x) <= tol {
				if x < x0-tol || x > x1+tol {
					c.Fail("off-grid", "%s: line outside of the grid", what)
					return
				}
				byLine[int(k)] = append(byLine[int(k)], fillSeg{a: a, b: b})
				// a missing connection needs a reason
				if direct && p.zigzag && last != nil && lastLine && dist(*last, a) > 2*tol {
					if d := dist(*last, a); d <= p.w+2*p.d-2*tol {
						leaves, known := leavesRegion(reg, Seg{rotPt(*last, -p.deg), path[i]})
						if known && !leaves {
							c.Fail("not-connected", "%s: the neighbouring lines ending in (%.0f %.0f) are not connected although nothing lies between them (%.0f µm)", what, path[i].X, path[i].Y, d)
							return
						}
						if known {
							c.Count("missing_connections_justified", 1)
						}
					}
				}
				lastLine = true
			} else {
				d := dist(a, b)
				switch {
				case !p.zigzag:
					c.Fail("direction", "%s: the segment from (%.0f %.0f) to (%.0f %.0f) lies on no line of the pattern (direction %.1f°, off by %.1f and %.1f µm)", what, path[i].X, path[i].Y, path[i+1].X, path[i+1].Y, 90-p.deg, a.X-x, b.X-x)
					return
				case d > p.w+2*p.d+2*tol:
					c.Fail("connection-length", "%s: a connection is %.0f µm long", what, d)
					return
				case direct && (last == nil || dist(*last, a) > 2*tol) && !tinyLine(a):
					c.Fail("connection-start", "%s: the connection from (%.0f %.0f) does not start at the end of a line", what, path[i].X, path[i].Y)
					return
				}
				c.Count("connections", 1)
				lastLine = false
			}
			e := b
			last = &e
		}
	}
	// coverage
	k0, k1 := int(math.Ceil((math.Max(lo.X, x0)-x0)/p.d)), int(math.Floor((math.Min(hi.X, x1)-x0)/p.d))
	if k1 < k0 {
		return
	}
	for n := 0; n < 12; n++ {
		k := k0 + c.Intn(k1-k0+1)
		if n == 0 {
			k = k0
		}
		if n == 1 {
			k = k1
		}
		x := x0 + float64(k)*p.d
		s := Seg{Pt{x, lo.Y - 10}, Pt{x, hi.Y + 10}}
		for _, iv := range clipSegToSegs(s, segs) {
			for j := 0; j < 3; j++ {
				a, b := s.A.Y+iv[0]*s.Len(), s.A.Y+iv[1]*s.Len()
				y := a + (b-a)*c.Float64()
				if j == 1 && p.zigzag {
					y = a + p.w*c.Float64()
				}
				if j == 2 && p.zigzag {
					y = b - p.w*c.Float64()
				}
				if y < a || y > b || y < y0 || y > y1 || a < y0 || b > y1 {
					continue
				}
				covers, free := true, p.zigzag
				for _, dx := range []float64{-tol, 0, tol} {
					a, b, ok := interval(x+dx, y)
					if !ok || distToSegs(Pt{x, y}, segs) <= tol {
						covers, free = false, false
						break
					}
					cut := 0.0
					if p.zigzag {
						if b-a < p.w+2*tol {
							covers, free = false, false
							break
						}
						cut = p.w / 2
					}
					if y-a <= cut+tol || b-y <= cut+tol {
						covers = false
					}
					if y-a >= cut-2*tol && b-y >= cut-2*tol {
						free = false
					}
				}
				if !covers && !free {
					continue
				}
				m := 0
				for _, f := range byLine[k] {
					if math.Min(f.a.Y, f.b.Y) <= y && y <= math.Max(f.a.Y, f.b.Y) {
						m++
					}
				}
				q := rotPt(Pt{x, y}, -p.deg)
				if covers {
					c.Count("covered_points", 1)
					if m != 1 {
						c.Fail("coverage", "%s: (%.0f %.0f) on line %d is covered %d times", what, q.X, q.Y, k, m)
						return
					}
				} else {
					c.Count("shortened_ends", 1)
					if m != 0 {
						c.Fail("not-shortened", "%s: (%.0f %.0f) near the end of line %d is covered although the lines leave room for the connections", what, q.X, q.Y, k)
						return
					}
				}
			}
		}
	}
	c.Nontrivial(true)
}

func runC10(c *Ctx, i int) {
	if i%3 != 0 {
		runC10Direct(c, i)
		return
	}
	o := randOptions(c.Rand, optVary{geometry: true, infill: true, support: true})
	raise(c, &o)
	var m *Mesh
	if i%2 == 0 {
		m = gcodeSolid(c.Rand, i/6)
		if o.Print.Support.Enabled = c.Intn(2) == 0; o.Print.Support.Enabled {
			m = supportSolid(c.Rand, i/6)
		}
	} else {
		o.Print.InfillPercent = pickInt(c.Rand, 100, 50, 20, 33, 7)
		m = gcodeSolid(c.Rand, i/6)
	}
	r := gcodeRunWith(c, i, m, o)
	if r == nil {
		return
	}
	w := float64(o.Printer.ExtrusionWidth)
	sp := math.Round(float64(o.Print.Support.PatternSpacing) * 1000)
	lo, hi := Pt{float64(r.P.Lo.X), float64(r.P.Lo.Y)}, Pt{float64(r.P.Hi.X), float64(r.P.Hi.Y)}
	grow := Pt{sp, sp}
	for k := range r.Layers {
		turned := float64(o.Print.InfillRotationDegree)
		if k%2 == 0 {
			turned += 90
		}
		type area struct {
			attr, typ, sub, count string
			p                     pattern
		}
		areas := []area{
			{"bottom", "FILL", "BOTTOM-FILL", "printed_areas_skin", pattern{turned, w, w, lo, hi, false}},
			{"top", "FILL", "TOP-FILL", "printed_areas_skin", pattern{turned, w, w, lo, hi, false}},
		}
		if pct := o.Print.InfillPercent; pct > 0 {
			// as many lines per 10 mm as the percentage of the lines that fill completely
			d := math.Floor(10000 / (math.Floor(10000/w) * float64(pct) / 100))
			areas = append(areas, area{"infill", "FILL", "INTERNAL-FILL", "printed_areas_infill", pattern{turned, d, w, lo, hi, o.Print.InfillZigZag}})
		}
		if o.Print.Support.Enabled {
			areas = append(areas, area{"", "SUPPORT", "", "", pattern{}})
		}
		for _, a := range areas {
			var paths [][]Pt
			for _, st := range r.G.layerStrokes(k, a.typ, a.sub) {
				paths = append(paths, st.Pts)
			}
			if a.typ == "SUPPORT" {
				checkSupportPattern(c, r, k, paths, sp, w, lo.Sub(grow), hi.Add(grow))
				if c.Failed() {
					return
				}
				continue
			}
			parts, err := modifier.PartsAttribute(r.Layers[k], a.attr)
			if err != nil {
				c.Fail("attribute", "%v", err)
				return
			}
			if len(parts) > 0 {
				c.Count(a.count, 1)
			}
			checkPattern(c, sprint("layer ", k, " ", a.sub), paths, regionOf(parts), a.p, 12, false)
			if c.Failed() {
				return
			}
		}
	}
}

// checkSupportPattern: support and its interface share the comment, but are printed one after the other and with different directions.
func checkSupportPattern(c *Ctx, r *Run, k int, paths [][]Pt, sp, w float64, lo, hi Pt) {
	sup, err := modifier.PartsAttribute(r.Layers[k], "support")
	itf, err2 := modifier.PartsAttribute(r.Layers[k], "supportInterface")
	if err != nil || err2 != nil {
		c.Fail("attribute", "%v %v", err, err2)
		return
	}
	rs, ri := regionOf(sup), regionOf(itf)
	var ps, pi [][]Pt
	psup, pitf := pattern{90, sp, w, lo, hi, true}, pattern{0, w, w, lo, hi, true}
	for _, p := range paths {
		a, b := psup.accepts(p, rs, 12), pitf.accepts(p, ri, 12)
		if a && b {
			// next to nothing: the area it lies deeper in
			q := lerp(p[0], p[1], 0.5)
			a = rs.Contains(q) && !(ri.Contains(q) && ri.Dist(q) > rs.Dist(q))
		}
		switch {
		case a:
			ps = append(ps, p)
		case b:
			pi = append(pi, p)
		default:
			c.Fail("support-line", "layer %d: the support line %v fits neither the support areas nor the interface areas and their patterns", k, p)
			return
		}
	}
	if len(sup) > 0 {
		c.Count("printed_areas_support", 1)
	}
	if len(itf) > 0 {
		c.Count("printed_areas_interface", 1)
	}
	checkPattern(c, sprint("layer ", k, " support"), ps, rs, psup, 12, false)
	checkPattern(c, sprint("layer ", k, " support interface"), pi, ri, pitf, 12, false)
}

func runC10Direct(c *Ctx, i int) {
	size := pick(c.Rand, 5000, 10000, 20000)
	if c.Intn(12) == 0 {
		size = pick(c.Rand, 60000, 180000)
	}
	reg := randArea(c.Rand, size)
	part := reg.Parts[c.Intn(len(reg.Parts))]
	off := Pt{math.Round(rnd(c.Rand, -100000, 200000)), math.Round(rnd(c.Rand, -100000, 200000))}
	if c.Intn(3) == 0 {
		off = Pt{}
	}
	for j := range part.Outline {
		part.Outline[j] = part.Outline[j].Add(off)
	}
	for _, h := range part.Holes {
		for j := range h {
			h[j] = h[j].Add(off)
		}
	}
	reg = &Region{}
	reg.add(part)
	lo, hi := reg.BBox()
	p := pattern{w: float64(200 + c.Intn(500)), zigzag: c.Intn(2) == 0}
	p.d = p.w
	if c.Intn(2) == 0 {
		p.d = float64(200 + c.Intn(3000))
	}
	if size > 50000 { // not too many lines
		p.d = math.Max(p.d, size/200)
		c.Count("long_lines", 1)
	}
	p.min, p.max = lo.Sub(Pt{float64(c.Intn(3000)), float64(c.Intn(3000))}), hi.Add(Pt{float64(c.Intn(3000)), float64(c.Intn(3000))})
	deg := pickInt(c.Rand, 45, 0, 90, 30, 60, 17, 135, -30, 180, 200, 270, 1, c.Intn(360))
	rect := c.Intn(2) == 0
	layer := c.Intn(50)
	if c.Intn(3) == 0 {
		layer = c.Intn(30000)
	}
	mp := func(p Pt) data.MicroPoint { return data.NewMicroPoint(data.Micrometer(p.X), data.Micrometer(p.Y)) }
	f := clip.NewLinearPattern(data.Micrometer(p.w), data.Micrometer(p.d), mp(p.min), mp(p.max), deg, rect, p.zigzag)
	p.deg = float64(deg)
	if rect && layer%2 == 0 {
		p.deg += 90
	}
	in := layerPartOf(part)
	for rep := 0; rep < 2; rep++ {
		res, err := f.Fill(layer, in)
		if err != nil {
			c.Fail("error", "Fill: %v", err)
			return
		}
		if !sameParts([]data.LayerPart{in}, reg.LayerParts()) {
			c.Fail("mutated", "Fill changed the part")
			return
		}
		var paths [][]Pt
		for _, q := range res {
			paths = append(paths, polyOf(q))
		}
		checkPattern(c, sprint("pattern ", deg, "° rectlinear ", rect, " layer ", layer, " distance ", p.d, " width ", p.w, " zigzag ", p.zigzag), paths, reg, p, 5, true)
		if c.Failed() {
			return
		}
		layer += 2 * c.Intn(5)
	}
	c.Key(sprint(part.Outline, part.Holes, p))
}
