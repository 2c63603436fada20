package main

import "math"

// Three-valued oracles for offset regions.
//
// GoSlice offsets with square joins: at a corner that opens towards the offset side the new contour is cut
// straight, so its distance to the corner lies between d and sqrt(2)*d. Everywhere else it is exactly d.

type tri int8

const (
	no tri = iota - 1
	unknown
	yes
)

func (t tri) String() string { return [...]string{"no", "unknown", "yes"}[t+1] }
func (t tri) not() tri       { return -t }
func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}
func triAnd(a, b tri) tri {
	if a < b {
		return a
	}
	return b
}
func triOr(a, b tri) tri {
	if a > b {
		return a
	}
	return b
}

// nearVertex tells whether a vertex of the segments lies within r of p.
func nearVertex(p Pt, segs []Seg, r float64) bool {
	for i := range segs {
		a := segs[i].A
		if math.Abs(a.X-p.X) <= r && math.Abs(a.Y-p.Y) <= r && dist(a, p) <= r {
			return true
		}
	}
	return false
}

// inSegs: membership in the even-odd region, unknown within tol of the contour.
func inSegs(p Pt, segs []Seg, tol float64) tri {
	if distToSegs(p, segs) <= tol {
		return unknown
	}
	return triOf(parity(p, segs))
}

// inOffset: membership of p in the region of segs grown (d > 0) or shrunk (d < 0) by |d|.
func inOffset(p Pt, segs []Seg, d, tol float64) tri {
	if len(segs) == 0 {
		return no
	}
	if d == 0 {
		return inSegs(p, segs, tol)
	}
	a := math.Abs(d)
	dd := distToSegs(p, segs)
	in := parity(p, segs)
	if in != (d < 0) {
		// on the side that is kept (growing: inside) or lost (shrinking: outside)
		if dd <= tol {
			if d > 0 && a > 2*tol {
				return yes
			}
			return unknown
		}
		return triOf(d > 0)
	}
	near := triOf(d > 0)
	switch {
	case dd < a-tol:
		return near
	case dd > math.Sqrt2*a+tol:
		return near.not()
	case dd > a+tol && !atJoin(p, segs, a, tol):
		return near.not()
	}
	return unknown
}

// atJoin tells whether p may belong to the square join of a corner: the corners of the cut of a corner that turns by phi
// have the distance a/cos(phi/4) from it.
func atJoin(p Pt, segs []Seg, a, tol float64) bool {
	r := math.Sqrt2*a + tol
	for i := range segs {
		v := segs[i].A
		if math.Abs(v.X-p.X) > r || math.Abs(v.Y-p.Y) > r {
			continue
		}
		d := dist(v, p)
		if d > r {
			continue
		}
		if i == 0 || segs[i-1].B != v {
			return true
		}
		u, w := segs[i-1].B.Sub(segs[i-1].A), segs[i].B.Sub(v)
		if u.Len() <= tol || w.Len() <= tol {
			return true // together with the next corner it may turn more
		}
		phi := math.Abs(math.Atan2(u.Cross(w), u.Dot(w)))
		if d <= a/math.Cos(phi/4)+tol {
			return true
		}
	}
	return false
}

// inRegion is inSegs for a set of parts that may overlap each other.
func (r *Region) in(p Pt, tol float64) tri {
	res := no
	for i := range r.Parts {
		b := r.boxes[i]
		if p.X < b[0].X-tol || p.X > b[1].X+tol || p.Y < b[0].Y-tol || p.Y > b[1].Y+tol {
			continue
		}
		if res = triOr(res, inSegs(p, r.per[i], tol)); res == yes {
			return yes
		}
	}
	return res
}

// inOff: every part is offset on its own, as GoSlice does.
func (r *Region) inOff(p Pt, d, tol float64) tri { return r.inOffMin(p, d, tol, 0) }

// inOffThick is inOff for d > 0, but everything which is only there because of needles (which are lost or inside out
// due to rounding) is unknown.
func (r *Region) inOffThick(p Pt, d, tol float64) tri { return r.inOffMin(p, d, tol, tol/2) }

func (r *Region) inOffMin(p Pt, d, tol, thick float64) tri {
	res := no
	g := math.Max(d, 0)*math.Sqrt2 + tol
	for i := range r.Parts {
		b := r.boxes[i]
		if p.X < b[0].X-g || p.X > b[1].X+g || p.Y < b[0].Y-g || p.Y > b[1].Y+g {
			continue
		}
		t := inOffset(p, r.per[i], d, tol)
		if t == yes && thick > 0 && !nearThick(p, r.per[i], d, thick) {
			t = unknown
		}
		if res = triOr(res, t); res == yes {
			return yes
		}
	}
	return res
}

// nearThick tells whether a disk of the radius t fits into the region with its center not farther than d from p.
// It may miss such disks.
func nearThick(p Pt, segs []Seg, d, t float64) bool {
	fits := func(x Pt) bool {
		return dist(p, x) <= d-1 && parity(x, segs) && distToSegs(x, segs) >= t*0.95
	}
	if fits(p) {
		return true
	}
	for _, s := range segs {
		if distPtSeg(p, s) > d {
			continue
		}
		v := s.B.Sub(s.A)
		l := v.Len()
		if l == 0 {
			continue
		}
		n := Pt{-v.Y, v.X}.Mul(t / l)
		at := math.Max(0, math.Min(1, p.Sub(s.A).Dot(v)/(l*l)))
		for _, k := range [...]float64{at, at + 20/l, at - 20/l, at + 100/l, at - 100/l, 0.5} {
			if k < 0 || k > 1 {
				continue
			}
			if x := lerp(s.A, s.B, k); fits(x.Add(n)) || fits(x.Sub(n)) {
				return true
			}
		}
	}
	return false
}
