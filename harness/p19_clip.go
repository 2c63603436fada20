package main

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// C19: the area operations every modifier is built of.

func init() {
	register(&Prop{
		ID:    "C19",
		Rule:  "random areas (stars, combs, spirals, stairs on a grid, rings, islands in holes, several overlapping parts, and results of earlier operations which share edges with their operands) through Union, Difference, Intersection, Inset, InsetLayer, GenerateLayerParts, Hull, TopLevelPolygons and IsCrossingPerimeter; membership of sampled points is compared with the operands; a case is non-trivial when the operands of a boolean operation overlapped partially",
		Quick: 60000, Deep: 1000000,
		Require: map[string]int{"points_in_result": 20000, "points_outside_result": 20000, "contour_points": 10000, "inset_points": 5000, "hulls": 500, "toplevel": 500, "lines_crossing": 500, "lines_inside": 500, "shared_edge_operations": 500, "generated_parts": 500, "turned_operands": 500, "nothing_left": 500, "operands_kept": 5000},
		Assume:  []string{"points closer than 4 µm to a contour of an operand are not judged (integer coordinates)"},
		Run:     runC19,
	})
}

// starPoly draws a simple polygon around c.
func starPoly(r *rand.Rand, c Pt, rad float64) []Pt {
	n := 3 + r.Intn(14)
	if r.Intn(8) == 0 {
		n = 20 + r.Intn(100)
	}
	off := rnd(r, 0, 2*math.Pi)
	var p []Pt
	for i := 0; i < n; i++ {
		a := off + (float64(i)+rnd(r, -0.3, 0.3))/float64(n)*2*math.Pi
		d := rad * rnd(r, 0.35, 1)
		p = append(p, Pt{math.Round(c.X + d*math.Cos(a)), math.Round(c.Y + d*math.Sin(a))})
	}
	return p
}

// simplePoly tells whether no two segments cross or touch improperly.
func simplePoly(p []Pt) bool {
	s := segsOfPoly(p)
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if segIntersect(s[i], s[j]) {
				return false
			}
			if j != i+1 && !(i == 0 && j == len(s)-1) && math.Min(math.Min(distPtSeg(s[i].A, s[j]), distPtSeg(s[i].B, s[j])), math.Min(distPtSeg(s[j].A, s[i]), distPtSeg(s[j].B, s[i]))) < 2 {
				return false
			}
		}
	}
	return true
}

func rectPoly(x0, y0, x1, y1 float64) []Pt { return []Pt{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}} }

func rotPoly(p []Pt, deg float64) []Pt {
	out := make([]Pt, len(p))
	for i := range p {
		q := rotPt(p[i], deg)
		out[i] = Pt{math.Round(q.X), math.Round(q.Y)}
	}
	return out
}

func reversed(p []Pt) []Pt {
	out := make([]Pt, len(p))
	for i := range p {
		out[len(p)-1-i] = p[i]
	}
	return out
}

// randArea draws disjoint parts.
func randArea(r *rand.Rand, size float64) *Region {
	reg := &Region{}
	c := Pt{rnd(r, -size/3, size/3), rnd(r, -size/3, size/3)}
	switch r.Intn(9) {
	case 0: // rectangle on a coarse grid
		g := 500.0
		x, y := snap(c.X, g), snap(c.Y, g)
		reg.add(Part{Outline: rectPoly(x-g*float64(1+r.Intn(8)), y-g*float64(1+r.Intn(8)), x+g*float64(1+r.Intn(8)), y+g*float64(1+r.Intn(8)))})
	case 1: // comb
		n := 2 + r.Intn(5)
		w, h := math.Round(size/float64(3*n)), math.Round(size/2)
		p := []Pt{{0, 0}, {float64(2*n-1) * w, 0}}
		for k := n - 1; k >= 0; k-- {
			p = append(p, Pt{float64(2*k+1) * w, h}, Pt{float64(2*k) * w, h})
			if k > 0 {
				p = append(p, Pt{float64(2*k) * w, math.Round(h / 4)}, Pt{float64(2*k-1) * w, math.Round(h / 4)})
			}
		}
		for i := range p {
			p[i] = p[i].Add(Pt{math.Round(c.X), math.Round(c.Y)})
		}
		if r.Intn(2) == 0 {
			p = rotPoly(p, rnd(r, 0, 360))
		}
		reg.add(Part{Outline: p})
	case 2: // ring, maybe with an island and an island's hole
		p := Part{Outline: starPoly(r, c, size/2)}
		for i := range p.Outline {
			d := p.Outline[i].Sub(c)
			p.Outline[i] = Pt{math.Round(c.X + d.X/d.Len()*size/2), math.Round(c.Y + d.Y/d.Len()*size/2)}
		}
		d := distToSegs(c, p.Segs())
		h := starPoly(r, c, d*0.9)
		p.Holes = [][]Pt{reversed(h)}
		if !parity(c, p.Segs()) && d > 800 {
			reg.add(p)
			d2 := distToSegs(c, segsOfPoly(h))
			if d2 > 300 && r.Intn(2) == 0 {
				reg.add(Part{Outline: starPoly(r, c, d2*0.9)})
			}
		} else {
			reg.add(Part{Outline: p.Outline})
		}
	case 3: // several rectangles that share edges or corners in a row (disjoint interiors)
		g := 700.0
		n := 2 + r.Intn(3)
		x := snap(c.X, g)
		for k := 0; k < n; k++ {
			y := snap(c.Y, g) + g*float64(r.Intn(3))
			reg.add(Part{Outline: rectPoly(x, y, x+g, y+g*float64(1+r.Intn(3)))})
			x += g * float64(1+r.Intn(2))
		}
	case 4: // grid with many holes
		n := 1 + r.Intn(3)
		p := Part{Outline: rectPoly(0, 0, float64(n)*2000+1000, float64(n)*2000+1000)}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				x, y := 1000+float64(a)*2000, 1000+float64(b)*2000
				p.Holes = append(p.Holes, reversed(rectPoly(x, y, x+float64(200+r.Intn(800)), y+float64(200+r.Intn(800)))))
			}
		}
		ang := 0.0
		if r.Intn(2) == 0 {
			ang = rnd(r, 0, 90)
		}
		p.Outline = rotPoly(p.Outline, ang)
		for k := range p.Holes {
			p.Holes[k] = rotPoly(p.Holes[k], ang)
		}
		reg.add(p)
	default:
		for k := 0; k < 50; k++ {
			p := starPoly(r, c, size/2*rnd(r, 0.3, 1))
			if simplePoly(p) {
				reg.add(Part{Outline: p})
				break
			}
		}
		if len(reg.Parts) == 0 {
			reg.add(Part{Outline: rectPoly(0, 0, 1000, 1000)})
		}
	}
	return reg
}

type clipFn func(a, b []data.LayerPart) ([]data.LayerPart, bool)

func copyParts(p []data.LayerPart) []data.LayerPart {
	var out []data.LayerPart
	for _, x := range p {
		out = append(out, layerPartOf(partOf(x)))
	}
	return out
}

func sameParts(a, b []data.LayerPart) bool {
	return reflect.DeepEqual(regionOf(a).Parts, regionOf(b).Parts)
}

func runC19(c *Ctx, i int) {
	cl := clip.NewClipper()
	size := pick(c.Rand, 3000, 8000, 8000, 40000)
	a := randArea(c.Rand, size).LayerParts()
	for c.Intn(3) == 0 {
		a = append(a, randArea(c.Rand, size).LayerParts()...)
	}
	var b []data.LayerPart
	shared := false
	switch c.Intn(6) {
	case 0: // nothing
	case 1, 2: // derived from the first: shares edges
		shared = true
		e := data.Micrometer(c.Intn(700) - 200)
		for _, p := range a {
			for _, in := range cl.Inset(p, 0, 1, e) {
				b = append(b, in...)
			}
		}
		cut := randArea(c.Rand, size).LayerParts()
		var ok bool
		if b, ok = cl.Intersection(b, cut); !ok {
			c.Fail("not-ok", "Intersection")
			return
		}
		if c.Intn(2) == 0 {
			if b, ok = cl.Intersection(b, a); !ok {
				c.Fail("not-ok", "Intersection")
				return
			}
		}
	default:
		b = randArea(c.Rand, size).LayerParts()
		for c.Intn(3) == 0 {
			b = append(b, randArea(c.Rand, size).LayerParts()...)
		}
	}
	if c.Intn(12) == 0 { // nothing on the left
		a, b, shared = nil, a, false
		if c.Intn(2) == 0 {
			a = []data.LayerPart{}
		}
		c.Count("nothing_left", 1)
	}
	c.Key(regionOf(a).Parts, regionOf(b).Parts)
	c.Sample("%d parts against %d parts, shared edges %v", len(a), len(b), shared)
	ra, rb := regionOf(a), regionOf(b)
	if c.Intn(4) == 0 { // boolean operations do not depend on the orientations
		a, b = turned(c.Rand, a), turned(c.Rand, b)
		c.Count("turned_operands", 1)
	}
	for _, op := range []struct {
		name string
		f    clipFn
		want func(a, b bool) bool
	}{
		{"Union", cl.Union, func(a, b bool) bool { return a || b }},
		{"Difference", cl.Difference, func(a, b bool) bool { return a && !b }},
		{"Intersection", cl.Intersection, func(a, b bool) bool { return a && b }},
		{"Difference-reverse", func(x, y []data.LayerPart) ([]data.LayerPart, bool) { return cl.Difference(y, x) }, func(a, b bool) bool { return b && !a }},
	} {
		a0, b0 := copyParts(a), copyParts(b)
		res, ok := op.f(a, b)
		if !ok {
			c.Fail("not-ok", "%s of %d and %d parts fails", op.name, len(a), len(b))
			return
		}
		if !sameParts(a, a0) || !sameParts(b, b0) {
			c.Fail("mutated", "%s changed its operands", op.name)
			return
		}
		rr := regionOf(res)
		if shared {
			c.Count("shared_edge_operations", 1)
		}
		checkClipResult(c, op.name, ra, rb, rr, op.want)
		if c.Failed() {
			return
		}
	}
	if len(a) == 0 {
		return
	}
	kept := copyParts(a)
	for _, f := range []struct {
		name  string
		check func()
	}{
		{"GenerateLayerParts", func() { checkGenerate(c, cl, a) }},
		{"Inset", func() { checkInset(c, cl, ra) }},
		{"Hull", func() { checkHull(c, cl, a, ra) }},
		{"TopLevelPolygons", func() { checkTopLevel(c, cl, a, ra) }},
		{"IsCrossingPerimeter", func() { checkCrossing(c, cl, a, ra) }},
	} {
		f.check()
		if !sameParts(a, kept) && !c.Failed() {
			c.Fail("mutated", "%s changed its operands", f.name)
		}
		if c.Failed() {
			return
		}
		c.Count("operands_kept", 1)
	}
}

// turned gives the outlines and holes random orientations.
func turned(r *rand.Rand, parts []data.LayerPart) []data.LayerPart {
	var out []data.LayerPart
	for _, x := range parts {
		p := partOf(x)
		q := Part{Outline: p.Outline}
		if r.Intn(3) == 0 {
			q.Outline = reversed(q.Outline)
		}
		for _, h := range p.Holes {
			if r.Intn(2) == 0 {
				h = reversed(h)
			}
			q.Holes = append(q.Holes, h)
		}
		out = append(out, layerPartOf(q))
	}
	return out
}

func checkClipResult(c *Ctx, name string, ra, rb, rr *Region, want func(a, b bool) bool) {
	const tol = 4
	segs := append(append([]Seg(nil), ra.segs...), rb.segs...)
	if len(segs) == 0 {
		if len(rr.Parts) > 0 {
			c.Fail("area", "%s of nothing is something", name)
		}
		return
	}
	lo, hi := bboxSegs(segs)
	both, onlyA := false, false
	judge := func(p Pt) bool {
		if distToSegs(p, segs) <= tol {
			return true
		}
		ia, ib := ra.Contains(p), rb.Contains(p)
		both = both || ia && ib
		onlyA = onlyA || ia && !ib
		w := want(ia, ib)
		n := rr.Count(p)
		if w {
			c.Count("points_in_result", 1)
		} else {
			c.Count("points_outside_result", 1)
		}
		switch {
		case w && n == 0:
			c.Fail("missing:"+name, "%s: (%.0f %.0f) is missing in the result (in the first operand: %v, in the second: %v)", name, p.X, p.Y, ia, ib)
		case !w && n > 0:
			c.Fail("extra:"+name, "%s: (%.0f %.0f) should not be in the result (in the first operand: %v, in the second: %v)", name, p.X, p.Y, ia, ib)
		case n > 1:
			c.Fail("double:"+name, "%s: (%.0f %.0f) is in %d parts of the result", name, p.X, p.Y, n)
		default:
			return true
		}
		return false
	}
	for k := 0; k < 25; k++ {
		if !judge(Pt{rnd(c.Rand, lo.X, hi.X), rnd(c.Rand, lo.Y, hi.Y)}) {
			return
		}
	}
	for k := 0; k < 25; k++ {
		s := segs[c.Intn(len(segs))]
		l := s.B.Sub(s.A)
		if l.Len() == 0 {
			continue
		}
		if !judge(lerp(s.A, s.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(rnd(c.Rand, -60, 60) / l.Len()))) {
			return
		}
	}
	// inside of every contour of the result
	for _, pa := range rr.Parts {
		for _, poly := range append([][]Pt{pa.Outline}, pa.Holes...) {
			k := c.Intn(len(poly))
			s := Seg{poly[k], poly[(k+1)%len(poly)]}
			l := s.B.Sub(s.A)
			if l.Len() == 0 {
				continue
			}
			for _, d := range []float64{-6, 6, -25, 25} {
				if !judge(lerp(s.A, s.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(d / l.Len()))) {
					return
				}
			}
		}
	}
	c.Nontrivial(both && onlyA)
	for k := 0; k < 10 && len(rr.segs) > 0; k++ {
		s := rr.segs[c.Intn(len(rr.segs))]
		p := lerp(s.A, s.B, c.Float64())
		c.Count("contour_points", 1)
		if d := distToSegs(p, segs); d > tol {
			c.Fail("contour:"+name, "%s: the contour of the result passes (%.0f %.0f), %.1f µm away from all contours of the operands", name, p.X, p.Y, d)
			return
		}
	}
}

// checkGenerate: contours in any order and orientation become disjoint parts.
func checkGenerate(c *Ctx, cl clip.Clipper, a []data.LayerPart) {
	// the same area as disjoint parts
	u, ok := cl.Union(a, nil)
	if !ok {
		return
	}
	var polys data.Paths
	var all []Seg
	for _, p := range regionOf(u).Parts {
		for _, poly := range append([][]Pt{p.Outline}, p.Holes...) {
			if c.Intn(2) == 0 {
				poly = reversed(poly)
			}
			k := c.Intn(len(poly))
			poly = append(append([]Pt(nil), poly[k:]...), poly[:k]...)
			if !keepsAll(poly) {
				return
			}
			polys = append(polys, pathOf(poly))
			all = append(all, segsOfPoly(poly)...)
		}
	}
	c.Shuffle(len(polys), func(i, j int) { polys[i], polys[j] = polys[j], polys[i] })
	if len(polys) == 0 {
		return
	}
	l, ok := cl.GenerateLayerParts(polyLayer(polys))
	if !ok {
		c.Fail("not-ok", "GenerateLayerParts of %d contours fails", len(polys))
		return
	}
	res := regionOf(l.LayerParts())
	c.Count("generated_parts", len(res.Parts))
	lo, hi := bboxSegs(all)
	for k := 0; k < 40; k++ {
		p := Pt{rnd(c.Rand, lo.X, hi.X), rnd(c.Rand, lo.Y, hi.Y)}
		if distToSegs(p, all) <= 25 {
			continue
		}
		n := res.Count(p)
		if parity(p, all) && n != 1 || !parity(p, all) && n != 0 {
			c.Fail("generate", "GenerateLayerParts: (%.0f %.0f) is in %d parts", p.X, p.Y, n)
			return
		}
	}
}

type polyLayer data.Paths

func (p polyLayer) Polygons() data.Paths { return data.Paths(p) }

func checkInset(c *Ctx, cl clip.Clipper, ra *Region) {
	p := ra.Parts[c.Intn(len(ra.Parts))]
	switch c.Intn(8) {
	case 0: // a narrow part
		w, l := float64(6+c.Intn(40)), float64(300+c.Intn(20000))
		if c.Intn(2) == 0 {
			p = Part{Outline: rotPoly(rectPoly(0, 0, l, w), rnd(c.Rand, 0, 360))}
		} else { // on a block
			p = Part{Outline: []Pt{{0, 0}, {2000, 0}, {2000, 1000}, {2000 + l, 1000}, {2000 + l, 1000 + w}, {2000, 1000 + w}, {2000, 3000}, {0, 3000}}}
		}
	case 1: // many holes
		n := 2 + c.Intn(3)
		p = Part{Outline: rectPoly(0, 0, float64(n)*2000+1000, float64(n)*2000+1000)}
		for a := 0; a < n*n; a++ {
			x, y := 1000+float64(a%n)*2000, 1000+float64(a/n)*2000
			p.Holes = append(p.Holes, reversed(starPoly(c.Rand, Pt{x + 500, y + 500}, float64(300+c.Intn(700)))))
		}
	}
	off := float64(c.Intn(900) - 300)
	if c.Intn(3) == 0 {
		off = float64(c.Intn(60) - 30)
	}
	if math.Abs(off) < 5 {
		return
	}
	step := float64(100 + c.Intn(500))
	n := 1 + c.Intn(3)
	if c.Intn(6) == 0 {
		n, step = 4+c.Intn(9), float64(20+c.Intn(200))
	}
	in := cl.Inset(layerPartOf(p), data.Micrometer(step), n, data.Micrometer(off))
	if len(in) != n {
		c.Fail("inset-count", "%d insets instead of %d", len(in), n)
		return
	}
	segs := p.Segs()
	lo, hi := bboxSegs(segs)
	for k, one := range in {
		d := off - step*float64(k)
		rr := regionOf(one)
		for j := 0; j < 25; j++ {
			q := Pt{rnd(c.Rand, lo.X-off, hi.X+off), rnd(c.Rand, lo.Y-off, hi.Y+off)}
			if j%2 == 0 {
				s := segs[c.Intn(len(segs))]
				l := s.B.Sub(s.A)
				if l.Len() == 0 {
					continue
				}
				q = lerp(s.A, s.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(1.5 * d * rnd(c.Rand, -1, 1) / l.Len()))
			}
			if rr.Dist(q) < 4 {
				continue
			}
			want := inOffset(q, segs, d, 8)
			if want == unknown {
				continue
			}
			c.Count("inset_points", 1)
			m := rr.Count(q)
			if want == yes && m != 1 || want == no && m != 0 {
				c.Fail("inset", "(%.0f %.0f) lies in %d parts of the area grown by %.0f (distance %.1f)", q.X, q.Y, m, d, distToSegs(q, segs))
				return
			}
		}
	}
}

func checkHull(c *Ctx, cl clip.Clipper, a []data.LayerPart, ra *Region) {
	h, ok := cl.Hull(a)
	if !ok {
		c.Fail("not-ok", "Hull fails")
		return
	}
	var pts []Pt
	for _, p := range ra.Parts {
		pts = append(pts, p.Outline...)
	}
	want := convexHull(pts)
	got := polyOf(h)
	c.Count("hulls", 1)
	ws, gs := segsOfPoly(want), segsOfPoly(got)
	for _, p := range want {
		if distToSegs(p, gs) > 1 {
			c.Fail("hull", "the hull misses (%.0f %.0f)", p.X, p.Y)
			return
		}
	}
	for _, p := range got {
		if distToSegs(p, ws) > 1 {
			c.Fail("hull", "the hull has the point (%.0f %.0f) which is not on the border of the convex hull", p.X, p.Y)
			return
		}
	}
	if math.Abs(math.Abs(areaPoly(got))-math.Abs(areaPoly(want))) > 1e-6*math.Abs(areaPoly(want))+10 {
		c.Fail("hull", "the hull has the area %.0f instead of %.0f", math.Abs(areaPoly(got)), math.Abs(areaPoly(want)))
	}
}

func checkTopLevel(c *Ctx, cl clip.Clipper, a []data.LayerPart, ra *Region) {
	// only defined for parts that do not overlap
	u, ok := cl.Union(a, nil)
	if !ok {
		return
	}
	ru := regionOf(u)
	top, ok := cl.TopLevelPolygons(u)
	if !ok {
		c.Fail("not-ok", "TopLevelPolygons fails")
		return
	}
	// parts that touch each other or themselves may be joined
	for i := range ru.Parts {
		for j := range ru.Parts {
			sj := segsOfPoly(ru.Parts[j].Outline)
			for k, p := range ru.Parts[i].Outline {
				for l := range sj {
					if (i != j || k != l && k != (l+1)%len(sj)) && distPtSeg(p, sj[l]) < 4 {
						return
					}
				}
			}
		}
	}
	c.Count("toplevel", 1)
	got := &Region{}
	for _, p := range top {
		got.add(Part{Outline: polyOf(p)})
	}
	var outl []Seg
	full := &Region{}
	for _, p := range ru.Parts {
		outl = append(outl, segsOfPoly(p.Outline)...)
		full.add(Part{Outline: p.Outline})
	}
	if len(outl) == 0 {
		return
	}
	lo, hi := bboxSegs(outl)
	for k := 0; k < 30; k++ {
		p := Pt{rnd(c.Rand, lo.X, hi.X), rnd(c.Rand, lo.Y, hi.Y)}
		if distToSegs(p, outl) < 4 {
			continue
		}
		n := got.Count(p)
		if full.Contains(p) && n != 1 || !full.Contains(p) && n != 0 {
			c.Fail("toplevel", "(%.0f %.0f) lies in %d top level outlines and in %d outlines", p.X, p.Y, n, full.Count(p))
			return
		}
	}
}

func checkCrossing(c *Ctx, cl clip.Clipper, a []data.LayerPart, ra *Region) {
	u, ok := cl.Union(a, nil)
	if !ok || len(u) == 0 {
		return
	}
	ru := regionOf(u)
	lo, hi := ru.BBox()
	for k := 0; k < 6; k++ {
		s := Seg{Pt{math.Round(rnd(c.Rand, lo.X, hi.X)), math.Round(rnd(c.Rand, lo.Y, hi.Y))}, Pt{math.Round(rnd(c.Rand, lo.X, hi.X)), math.Round(rnd(c.Rand, lo.Y, hi.Y))}}
		if k%2 == 0 {
			s.B = s.A.Add(Pt{math.Round(rnd(c.Rand, -400, 400)), math.Round(rnd(c.Rand, -400, 400))})
		}
		leaves, known := leavesRegion(ru, s)
		if !known {
			continue
		}
		got, ok := cl.IsCrossingPerimeter(u, data.Path{data.NewMicroPoint(data.Micrometer(s.A.X), data.Micrometer(s.A.Y)), data.NewMicroPoint(data.Micrometer(s.B.X), data.Micrometer(s.B.Y))})
		if !ok {
			c.Fail("not-ok", "IsCrossingPerimeter fails")
			return
		}
		if leaves {
			c.Count("lines_crossing", 1)
		} else {
			c.Count("lines_inside", 1)
		}
		if got != leaves {
			c.Fail("crossing", "IsCrossingPerimeter of (%.0f %.0f) - (%.0f %.0f) is %v", s.A.X, s.A.Y, s.B.X, s.B.Y, got)
			return
		}
	}
}
