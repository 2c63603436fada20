package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
)

// C20: smoothing keeps the shape of paths and contours.

func init() {
	register(&Prop{
		ID:    "C20",
		Rule:  "random paths (walks of all step lengths, noise, arcs and waves around the tolerance, spikes, back and forth, repeated and collinear points, far away coordinates) smoothed by DouglasPeucker with the default and other tolerances, by Simplify with the default and other tolerances, and printed by the builder as open and closed paths; the oracle matches the kept points with the given ones and measures the deviation in both directions; a case is non-trivial when points were dropped",
		Quick: 120000, Deep: 4000000,
		Require: map[string]int{"smoothed_paths": 20000, "points_dropped": 100000, "points_kept": 100000, "contours": 20000, "contour_points_dropped": 20000, "contours_with_long_segments": 400, "contours_with_tiny_segments": 2000, "printed_open": 3000, "printed_closed": 3000, "printed_single": 100, "deep": 20},
		Assume:  []string{"contours are at least 30 µm in size; spikes of a contour without any area (thinner than the tolerance) may be cut off by Simplify"},
		Run:     runC20,
	})
}

func randPath(r *rand.Rand, max int) []IPt {
	n := 1 + r.Intn(max)
	if r.Intn(40) == 0 {
		n = 1 + r.Intn(3)
	}
	off := IPt{}
	switch r.Intn(5) {
	case 0:
		off = IPt{int64(r.Intn(2000001) - 1000000), int64(r.Intn(2000001) - 1000000)}
	case 1:
		off = IPt{int64(r.Intn(200001) - 100000), int64(r.Intn(200001) - 100000)}
	case 2:
		if r.Intn(4) == 0 {
			off = IPt{-900000000, 700000000}
		}
	}
	var p []IPt
	add := func(x, y float64) { p = append(p, IPt{off.X + int64(math.Round(x)), off.Y + int64(math.Round(y))}) }
	step := math.Pow(10, rnd(r, 0, 4.7))
	amp := pick(r, 1, 3, 5, 7, 8, 9, 10, 12, 20, 100)
	x, y := 0.0, 0.0
	switch kind := r.Intn(9); kind {
	case 0: // walk
		for i := 0; i < n; i++ {
			x += rnd(r, -1, 1) * step
			y += rnd(r, -1, 1) * step
			add(x, y)
		}
	case 1: // noise around a line
		a := rnd(r, 0, 2*math.Pi)
		for i := 0; i < n; i++ {
			d := rnd(r, -amp, amp)
			add(math.Cos(a)*float64(i)*step-math.Sin(a)*d, math.Sin(a)*float64(i)*step+math.Cos(a)*d)
		}
	case 2: // arc
		R := step * pick(r, 1, 10, 100)
		da := pick(r, 0.001, 0.01, 0.05, 0.2, 1)
		for i := 0; i < n; i++ {
			add(R*math.Cos(da*float64(i)), R*math.Sin(da*float64(i)))
		}
	case 3: // wave
		wl := rnd(r, 2, 40)
		for i := 0; i < n; i++ {
			add(float64(i)*step, amp*math.Sin(float64(i)/wl*2*math.Pi))
		}
	case 4: // back and forth nearly on a line
		a := rnd(r, 0, 2*math.Pi)
		for i := 0; i < n; i++ {
			t, d := rnd(r, -1, 1)*step*10, rnd(r, -1, 1)*amp
			add(math.Cos(a)*t-math.Sin(a)*d, math.Sin(a)*t+math.Cos(a)*d)
		}
	case 5: // walk with a preferred direction, right angles and repeated points
		for i := 0; i < n; i++ {
			switch r.Intn(4) {
			case 0:
				x += step
			case 1:
				y += step
			case 2:
				x += rnd(r, -amp, amp)
			}
			add(x, y)
		}
	case 6: // spikes
		for i := 0; i < n; i++ {
			x += step
			if r.Intn(4) == 0 {
				h := rnd(r, -1, 1) * step * 5
				w := rnd(r, 0, amp)
				add(x, y)
				add(x+w/2, y+h)
				add(x+w, y)
			} else {
				add(x, y+rnd(r, -amp, amp)/2)
			}
		}
	case 7: // a thin loop that starts somewhere on its long side
		l := step * 10
		w := rnd(r, 0, amp)
		s := rnd(r, 0.1, 0.9)
		add(l*s, 0)
		add(l, rnd(r, -1, 1))
		add(l, w)
		for i := n % 5; i > 0; i-- {
			add(l*float64(i)/6, w+rnd(r, -1, 1))
		}
		add(0, w)
		add(0, 0)
		add(l*s*rnd(r, 0, 1), 0)
		a := rnd(r, 0, 360)
		if r.Intn(2) == 0 {
			for i := range p {
				q := rotPt(Pt{float64(p[i].X - off.X), float64(p[i].Y - off.Y)}, a)
				p[i] = IPt{off.X + int64(math.Round(q.X)), off.Y + int64(math.Round(q.Y))}
			}
		}
	default: // few different points
		for i := 0; i < n; i++ {
			add(float64(r.Intn(4))*step, float64(r.Intn(3))*step)
		}
	}
	return p
}

type IPt struct{ X, Y int64 }

func ipath(p []IPt) data.Path {
	q := make(data.Path, len(p), len(p)+3)
	for i, v := range p {
		q[i] = data.NewMicroPoint(data.Micrometer(v.X), data.Micrometer(v.Y))
	}
	return q
}

func ipts(p data.Path) []IPt {
	q := make([]IPt, len(p))
	for i, v := range p {
		q[i] = IPt{int64(v.X()), int64(v.Y())}
	}
	return q
}

// distIPtSeg is the distance of a point to a segment, precise also far away from the origin.
func distIPtSeg(p, a, b IPt) float64 {
	f := func(q IPt) Pt { return Pt{float64(q.X - a.X), float64(q.Y - a.Y)} }
	return distPtSeg(f(p), Seg{Pt{}, f(b)})
}

// keepsShape reports whether out can be in with points left out that lie within tol of the line between the kept ones around them.
// Points may be repeated, so every possible assignment is tried.
func keepsShape(in, out []IPt, tol float64) (ok bool, why string) {
	if len(out) == 0 || out[0] != in[0] || out[len(out)-1] != in[len(in)-1] {
		return false, "the ends are not the given ones"
	}
	at := map[int]bool{0: true} // possible positions of the current point of out in in
	for j := 1; j < len(out); j++ {
		next := map[int]bool{}
		found := false
		for a := range at {
			for b := a + 1; b < len(in); b++ {
				if in[b] != out[j] {
					continue
				}
				found = true
				if next[b] {
					continue
				}
				good := true
				for k := a + 1; k < b && good; k++ {
					good = distIPtSeg(in[k], in[a], in[b]) <= tol
				}
				if good {
					next[b] = true
				}
			}
		}
		if len(next) == 0 {
			if !found {
				return false, fmt.Sprintf("point %d of the result, %v, is not a later point of the path", j, out[j])
			}
			return false, fmt.Sprintf("the points left out before %v are farther away than %.2f", out[j], tol)
		}
		at = next
	}
	if !at[len(in)-1] {
		return false, "points after the end"
	}
	return true, ""
}

func eqPts(a, b []IPt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC20(c *Ctx, i int) {
	c.Name("%d", i)
	switch i % 3 {
	case 0:
		c20Path(c)
	case 1:
		c20Contour(c)
	default:
		c20Print(c)
	}
}

// unchanged calls f with the path and reports a change of it, also behind its end.
func unchanged(c *Ctx, what string, in []IPt, f func(data.Path) data.Path) []IPt {
	p := ipath(in)
	mark := data.NewMicroPoint(4711, 815)
	back := p[:cap(p)]
	for k := len(p); k < cap(p); k++ {
		back[k] = mark
	}
	out := f(p)
	res := ipts(out)
	if !eqPts(ipts(p), in) {
		c.Fail(what+"-mutates", "%s changed the given path %v to %v", what, shorten(fmt.Sprint(in), 400), shorten(fmt.Sprint(ipts(p)), 400))
	}
	for k := len(p); k < cap(p); k++ {
		if back[k].X() != 4711 || back[k].Y() != 815 {
			c.Fail(what+"-mutates", "%s wrote behind the end of the given path", what)
		}
	}
	return res
}

func c20Path(c *Ctx) {
	max := 60
	if c.Intn(200) == 0 {
		max = pickInt(c.Rand, 3000, 3000, 3000, 20000)
	}
	in := randPath(c.Rand, max)
	if max > 60 {
		if c.Intn(2) == 0 { // a long straight run before it
			var run []IPt
			for k := 100 + c.Intn(6000); k > 0; k-- {
				run = append(run, IPt{in[0].X - int64(k)*int64(1+max%3), in[0].Y + int64(c.Intn(5))})
			}
			in = append(run, in...)
		}
		c.Count("deep", 1)
	}
	eps := data.Micrometer(-1)
	tol := math.Sqrt(70)
	if c.Intn(3) == 0 {
		eps = data.Micrometer(pickInt(c.Rand, 1, 2, 10, 25, 100, 1000, 1000000))
		tol = math.Sqrt(float64(eps))
	}
	out := unchanged(c, "DouglasPeucker", in, func(p data.Path) data.Path { return data.DouglasPeucker(p, eps) })
	c.Count("smoothed_paths", 1)
	if ok, why := keepsShape(in, out, tol+0.001); !ok {
		c.Fail("smooth", "smoothing with %d: %s: %s became %s", eps, why, shorten(fmt.Sprint(in), 500), shorten(fmt.Sprint(out), 300))
		return
	}
	c.Count("points_kept", len(out))
	c.Count("points_dropped", len(in)-len(out))
	c.Nontrivial(len(out) < len(in))
}

func c20Contour(c *Ctx) {
	var in []IPt
	simple := c.Intn(2) == 0
	if simple { // star shaped with noise
		n := 3 + c.Intn(80)
		R := math.Pow(10, rnd(c.Rand, 1.7, 5.3))
		e := pick(c.Rand, 0, 0.001, 0.01, 0.3, 0.8)
		amp := pick(c.Rand, 0, 1, 3, 5, 6, 10)
		off := Pt{rnd(c.Rand, -1, 1) * 300000, rnd(c.Rand, -1, 1) * 300000}
		for k := 0; k < n; k++ {
			rr := R*(1-e*c.Float64()) + rnd(c.Rand, -amp, amp)
			if R > 1000 && c.Intn(6) == 0 { // a cluster of short segments
				for j := c.Intn(8); j > 0; j-- {
					a := (float64(k) + 0.01*c.Float64()/R*100) / float64(n) * 2 * math.Pi
					in = append(in, IPt{int64(off.X + rr*math.Cos(a) + rnd(c.Rand, -9, 9)), int64(off.Y + rr*math.Sin(a) + rnd(c.Rand, -9, 9))})
				}
			}
			a := float64(k) / float64(n) * 2 * math.Pi
			in = append(in, IPt{int64(off.X + rr*math.Cos(a)), int64(off.Y + rr*math.Sin(a))})
		}
	} else {
		in = randPath(c.Rand, 60)
	}
	small, allowed := data.Micrometer(-1), data.Micrometer(-1)
	sTol, aTol := 10.0, 5.0
	if c.Intn(4) == 0 {
		small, allowed = data.Micrometer(pickInt(c.Rand, 4, 100, 400, 10000)), data.Micrometer(pickInt(c.Rand, 1, 25, 100, 400))
		sTol, aTol = math.Sqrt(float64(small)), math.Max(5, math.Sqrt(float64(allowed)))
	}
	out := unchanged(c, "Simplify", in, func(p data.Path) data.Path { return p.Simplify(small, allowed) })
	c.Count("contours", 1)
	// a cyclic subsequence
	k := 0
	for _, v := range in {
		if k < len(out) && v == out[k] {
			k++
		}
	}
	if k < len(out) {
		c.Fail("simplify-order", "the result %v is no subsequence of %v", shorten(fmt.Sprint(out), 300), shorten(fmt.Sprint(in), 500))
		return
	}
	c.Count("contour_points_dropped", len(in)-len(out))
	c.Nontrivial(len(out) < len(in))
	var size int64
	for _, v := range in {
		size = max64(size, max64(max64(v.X-in[0].X, in[0].X-v.X), max64(v.Y-in[0].Y, in[0].Y-v.Y)))
	}
	if !simple || size < 60 {
		return
	}
	worst, at := 0.0, IPt{}
	for _, v := range in {
		d := math.Inf(1)
		for j := range out {
			d = math.Min(d, distIPtSeg(v, out[j], out[(j+1)%len(out)]))
		}
		if d > worst {
			worst, at = d, v
		}
	}
	limit, kind := 8*aTol, "tiny"
	long := true
	for k, v := range in {
		w := in[(k+1)%len(in)]
		long = long && math.Hypot(float64(v.X-w.X), float64(v.Y-w.Y)) >= math.Max(100, sTol)
	}
	if long {
		limit, kind = 1.5*aTol+1, "long"
	}
	c.Count("contours_with_"+kind+"_segments", 1)
	c.Max("contour_deviation_per_tolerance_"+kind, worst/aTol)
	if worst > limit {
		c.Fail("simplify", "simplifying with %d, %d leaves %v %.1f away: %v became %v", small, allowed, at, worst, shorten(fmt.Sprint(in), 600), shorten(fmt.Sprint(out), 600))
	}
}

// c20Print prints paths and reads them back.
func c20Print(c *Ctx) {
	o := defaults()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetMoveSpeed(150)
	b.SetExtrudeSpeed(60)
	b.AddComment("LAYER:0")
	type given struct {
		p    []IPt
		open bool
		z    data.Micrometer
	}
	var gs []given
	for n := 1 + c.Intn(5); n > 0; n-- {
		p := randPath(c.Rand, 25)
		open := c.Intn(2) == 0
		for k := range p { // the program has a resolution of 10 µm
			p[k].X, p[k].Y = (p[k].X/10)*10%2000000, (p[k].Y/10)*10%2000000
		}
		z := data.Micrometer(10 * c.Intn(300))
		if c.Intn(3) == 0 {
			z = data.Micrometer(200 * (len(gs) + 1))
		}
		gs = append(gs, given{p, open, z})
		b.AddComment("TYPE:%d", len(gs))
		unchanged(c, "AddPolygon", p, func(q data.Path) data.Path {
			if err := b.AddPolygon(nil, q, z, open); err != nil {
				c.Fail("error", "AddPolygon: %v", err)
			}
			return q
		})
		if len(p) == 0 {
			c.Fail("harness", "empty path")
		}
	}
	if err := b.AddPolygon(nil, nil, 100000, c.Intn(2) == 0); err != nil {
		c.Fail("error", "AddPolygon of an empty path: %v", err)
	}
	g := parseG(b.String())
	if len(g.Bad) > 0 {
		c.Fail("syntax", "%v", g.Bad)
		return
	}
	for k, gv := range gs {
		var pts []IPt // positions after each move
		for _, m := range g.Moves {
			if m.Type != fmt.Sprint(k+1) {
				continue
			}
			q := IPt{int64(math.Round(m.To[0])), int64(math.Round(m.To[1]))}
			if math.Abs(m.To[2]-float64(gv.z)) > 0.5 {
				c.Fail("height", "path %d is printed at %.3f instead of %d", k+1, m.To[2], gv.z)
			}
			if len(pts) == 0 && m.DE != 0 {
				// no travel was needed
				pts = append(pts, IPt{int64(math.Round(m.From[0])), int64(math.Round(m.From[1]))})
			} else if len(pts) > 0 && !(m.DE > 0) {
				if m.XY() > 0 {
					c.Fail("travel", "path %d contains a travel in line %d", k+1, m.Line)
				}
			}
			pts = append(pts, q)
		}
		in := append([]IPt{}, gv.p...)
		if len(pts) == 0 { // a point where the head already was
			pts = in[:1]
		}
		tol := math.Sqrt(70) + 0.001
		if !gv.open {
			if in[0] != in[len(in)-1] {
				in = append(in, in[0])
			}
			if pts[0] != pts[len(pts)-1] {
				c.Fail("open", "the closed path %d starts at %v and ends at %v", k+1, pts[0], pts[len(pts)-1])
				return
			}
			c.Count("printed_closed", 1)
		} else {
			c.Count("printed_open", 1)
		}
		if len(gv.p) == 1 {
			c.Count("printed_single", 1)
		}
		in, pts = noRepeats(in), noRepeats(pts)
		if len(in) == 1 && len(pts) == 1 && in[0] == pts[0] {
			continue
		}
		if ok, why := keepsShape(in, pts, tol); !ok {
			// with a closed path the last given point is always kept, the closing line is a move of its own
			c.Fail("print", "path %d (open: %v): %s: %s was printed as %s", k+1, gv.open, why, shorten(fmt.Sprint(in), 500), shorten(fmt.Sprint(pts), 500))
			return
		}
		c.Nontrivial(len(pts) < len(in))
	}
}

func noRepeats(p []IPt) []IPt {
	var q []IPt
	for i, v := range p {
		if i == 0 || v != p[i-1] {
			q = append(q, v)
		}
	}
	return q
}
