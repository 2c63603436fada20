package main

// Independent 2D geometry used by the oracles (micrometers as float64).
// Nothing in here uses the clipper library or GoSlice's own geometry helpers.

import (
	"math"

	"github.com/aligator/goslice/data"
)

type Pt struct{ X, Y float64 }

func (a Pt) Sub(b Pt) Pt         { return Pt{a.X - b.X, a.Y - b.Y} }
func (a Pt) Add(b Pt) Pt         { return Pt{a.X + b.X, a.Y + b.Y} }
func (a Pt) Mul(f float64) Pt    { return Pt{a.X * f, a.Y * f} }
func (a Pt) Len() float64        { return math.Hypot(a.X, a.Y) }
func (a Pt) Dot(b Pt) float64    { return a.X*b.X + a.Y*b.Y }
func (a Pt) Cross(b Pt) float64  { return a.X*b.Y - a.Y*b.X }
func dist(a, b Pt) float64       { return a.Sub(b).Len() }
func lerp(a, b Pt, t float64) Pt { return Pt{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t} }
func rotPt(p Pt, deg float64) Pt {
	s, c := math.Sincos(deg * math.Pi / 180)
	return Pt{p.X*c - p.Y*s, p.X*s + p.Y*c}
}

type Seg struct{ A, B Pt }

func (s Seg) Len() float64 { return dist(s.A, s.B) }

func distPtSeg(p Pt, s Seg) float64 {
	d := s.B.Sub(s.A)
	l2 := d.Dot(d)
	if l2 == 0 {
		return dist(p, s.A)
	}
	t := p.Sub(s.A).Dot(d) / l2
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	return dist(p, s.A.Add(d.Mul(t)))
}

// distToSegs returns the distance from p to the nearest of the segments (Inf if there is none).
func distToSegs(p Pt, segs []Seg) float64 {
	best := math.Inf(1)
	for i := range segs {
		s := &segs[i]
		// cheap bounding box rejection
		lo, hi := s.A.X, s.B.X
		if lo > hi {
			lo, hi = hi, lo
		}
		if p.X < lo-best || p.X > hi+best {
			continue
		}
		lo, hi = s.A.Y, s.B.Y
		if lo > hi {
			lo, hi = hi, lo
		}
		if p.Y < lo-best || p.Y > hi+best {
			continue
		}
		if d := distPtSeg(p, *s); d < best {
			best = d
		}
	}
	return best
}

// parity counts crossings of an axis ray from p with the segments (even-odd rule).
func parity(p Pt, segs []Seg) bool {
	in := false
	for i := range segs {
		a, b := segs[i].A, segs[i].B
		if (a.Y > p.Y) != (b.Y > p.Y) {
			x := a.X + (p.Y-a.Y)*(b.X-a.X)/(b.Y-a.Y)
			if x > p.X {
				in = !in
			}
		}
	}
	return in
}

func segsOfPoly(poly []Pt) []Seg {
	if len(poly) < 2 {
		return nil
	}
	r := make([]Seg, 0, len(poly))
	for i := range poly {
		r = append(r, Seg{poly[i], poly[(i+1)%len(poly)]})
	}
	return r
}

func segsOfOpen(path []Pt) []Seg {
	var r []Seg
	for i := 0; i+1 < len(path); i++ {
		r = append(r, Seg{path[i], path[i+1]})
	}
	return r
}

func areaPoly(p []Pt) float64 {
	if len(p) < 3 {
		return 0
	}
	o := p[0]
	s := 0.0
	for i := 1; i+1 < len(p); i++ {
		s += p[i].Sub(o).Cross(p[i+1].Sub(o))
	}
	return s / 2
}

func lenPoly(p []Pt, closed bool) float64 {
	l := 0.0
	for i := 0; i+1 < len(p); i++ {
		l += dist(p[i], p[i+1])
	}
	if closed && len(p) > 1 {
		l += dist(p[len(p)-1], p[0])
	}
	return l
}

func bboxSegs(segs []Seg) (lo, hi Pt) {
	lo = Pt{math.Inf(1), math.Inf(1)}
	hi = Pt{math.Inf(-1), math.Inf(-1)}
	for _, s := range segs {
		for _, p := range []Pt{s.A, s.B} {
			lo.X = math.Min(lo.X, p.X)
			lo.Y = math.Min(lo.Y, p.Y)
			hi.X = math.Max(hi.X, p.X)
			hi.Y = math.Max(hi.Y, p.Y)
		}
	}
	return
}

// ---- conversions from GoSlice types ----

func ptOf(p data.MicroPoint) Pt { return Pt{float64(p.X()), float64(p.Y())} }

func polyOf(p data.Path) []Pt {
	r := make([]Pt, len(p))
	for i, q := range p {
		r[i] = ptOf(q)
	}
	return r
}

func pathOf(p []Pt) data.Path {
	r := make(data.Path, len(p))
	for i, q := range p {
		r[i] = data.NewMicroPoint(data.Micrometer(math.Round(q.X)), data.Micrometer(math.Round(q.Y)))
	}
	return r
}

// Region is a set of polygons with holes, as GoSlice hands them around.
type Part struct {
	Outline []Pt
	Holes   [][]Pt
}

type Region struct {
	Parts []Part
	segs  []Seg
	per   [][]Seg
	boxes [][2]Pt
}

func (p Part) Segs() []Seg {
	r := segsOfPoly(p.Outline)
	for _, h := range p.Holes {
		r = append(r, segsOfPoly(h)...)
	}
	return r
}

func (p Part) Area() float64 {
	a := math.Abs(areaPoly(p.Outline))
	for _, h := range p.Holes {
		a -= math.Abs(areaPoly(h))
	}
	return a
}

func partOf(p data.LayerPart) Part {
	r := Part{Outline: polyOf(p.Outline())}
	for _, h := range p.Holes() {
		r.Holes = append(r.Holes, polyOf(h))
	}
	return r
}

func layerPartOf(p Part) data.LayerPart {
	var holes data.Paths
	for _, h := range p.Holes {
		holes = append(holes, pathOf(h))
	}
	return data.NewBasicLayerPart(pathOf(p.Outline), holes)
}

func regionOf(parts []data.LayerPart) *Region {
	r := &Region{}
	for _, p := range parts {
		r.add(partOf(p))
	}
	return r
}

func (r *Region) add(p Part) {
	s := p.Segs()
	r.Parts = append(r.Parts, p)
	r.per = append(r.per, s)
	lo, hi := bboxSegs(s)
	r.boxes = append(r.boxes, [2]Pt{lo, hi})
	r.segs = append(r.segs, s...)
}

func (r *Region) LayerParts() []data.LayerPart {
	var o []data.LayerPart
	for _, p := range r.Parts {
		o = append(o, layerPartOf(p))
	}
	return o
}

func (r *Region) Segs() []Seg { return r.segs }

// Count returns in how many of the parts p lies.
func (r *Region) Count(p Pt) int {
	n := 0
	for i := range r.Parts {
		b := r.boxes[i]
		if p.X < b[0].X || p.X > b[1].X || p.Y < b[0].Y || p.Y > b[1].Y {
			continue
		}
		if parity(p, r.per[i]) {
			n++
		}
	}
	return n
}

func (r *Region) Contains(p Pt) bool { return r.Count(p) > 0 }
func (r *Region) Dist(p Pt) float64  { return distToSegs(p, r.segs) }
func (r *Region) Area() float64 {
	a := 0.0
	for _, p := range r.Parts {
		a += p.Area()
	}
	return a
}

func (r *Region) BBox() (lo, hi Pt) { return bboxSegs(r.segs) }

func segIntersect(a, b Seg) bool {
	d1 := a.B.Sub(a.A)
	d2 := b.B.Sub(b.A)
	o1 := d1.Cross(b.A.Sub(a.A))
	o2 := d1.Cross(b.B.Sub(a.A))
	o3 := d2.Cross(a.A.Sub(b.A))
	o4 := d2.Cross(a.B.Sub(b.A))
	return ((o1 > 0) != (o2 > 0)) && ((o3 > 0) != (o4 > 0)) && o1 != 0 && o2 != 0 && o3 != 0 && o4 != 0
}

// clipSegToRegion returns the parameter intervals of s that lie inside the even-odd region described by segs.
func clipSegToSegs(s Seg, segs []Seg) [][2]float64 {
	d := s.B.Sub(s.A)
	ts := []float64{0, 1}
	for _, e := range segs {
		ed := e.B.Sub(e.A)
		den := d.Cross(ed)
		if den == 0 {
			continue
		}
		w := e.A.Sub(s.A)
		t := w.Cross(ed) / den
		u := w.Cross(d) / den
		if u >= 0 && u <= 1 && t > 0 && t < 1 {
			ts = append(ts, t)
		}
	}
	sortFloats(ts)
	var out [][2]float64
	for i := 0; i+1 < len(ts); i++ {
		if ts[i+1]-ts[i] <= 1e-12 {
			continue
		}
		m := (ts[i] + ts[i+1]) / 2
		if parity(s.A.Add(d.Mul(m)), segs) {
			if len(out) > 0 && out[len(out)-1][1] == ts[i] {
				out[len(out)-1][1] = ts[i+1]
			} else {
				out = append(out, [2]float64{ts[i], ts[i+1]})
			}
		}
	}
	return out
}

func sortFloats(a []float64) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

// convexHull: Andrew's monotone chain, independent of the library GoSlice uses. CCW.
func convexHull(pts []Pt) []Pt {
	p := append([]Pt(nil), pts...)
	sortPts(p)
	n := len(p)
	if n < 3 {
		return p
	}
	var h []Pt
	for i := 0; i < n; i++ {
		for len(h) >= 2 && h[len(h)-1].Sub(h[len(h)-2]).Cross(p[i].Sub(h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p[i])
	}
	t := len(h) + 1
	for i := n - 2; i >= 0; i-- {
		for len(h) >= t && h[len(h)-1].Sub(h[len(h)-2]).Cross(p[i].Sub(h[len(h)-2])) <= 0 {
			h = h[:len(h)-1]
		}
		h = append(h, p[i])
	}
	return h[:len(h)-1]
}
