package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/aligator/goslice/data"
)

// C25: the geometric primitives are exact and never change their operands.

func init() {
	register(&Prop{
		ID:    "C25",
		Rule:  "random programs of operations on a pool of points, vectors and paths with coordinates of all magnitudes up to a kilometer (and small ones, so that equality cases occur); every result is compared with exact integer or high precision arithmetic, and after each operation all values of the pool, also aliases, must be unchanged; non-trivial: always",
		Quick: 120000, Deep: 4000000,
		Require: map[string]int{"vector_ops": 200000, "point_ops": 200000, "rotations": 20000, "conversions": 50000, "bounds": 20000, "lengths": 50000, "distances": 20000, "negative_lengths": 100, "equal_lengths": 100, "aliases_changed": 1000},
		Assume:  []string{"coordinates are within a kilometer, so that squares fit into 64 bit"},
		Run:     runC25,
	})
}

func coord(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return int64(r.Intn(7) - 3)
	case 1:
		return int64(r.Intn(41) - 20)
	case 2:
		return int64(r.Intn(2001) - 1000)
	case 3:
		return pickI64(r, 0, 1, -1, 1000000000, -1000000000, 1<<26, 1<<25+1)
	}
	v := int64(math.Pow(10, rnd(r, 0, 9)))
	if r.Intn(2) == 0 {
		return -v
	}
	return v
}

func pickI64(r *rand.Rand, xs ...int64) int64 { return xs[r.Intn(len(xs))] }

// isqrt is the largest integer whose square is not more than v.
func isqrt(v int64) int64 { return new(big.Int).Sqrt(big.NewInt(v)).Int64() }

// quotient rounds towards zero as integer divisions do.
func quotient(a, b int64) int64 {
	return new(big.Int).Quo(big.NewInt(a), big.NewInt(b)).Int64()
}

func runC25(c *Ctx, i int) {
	c.Name("%d", i)
	c.Nontrivial(true)
	var vs []IV3
	var v []data.MicroVec3
	var ps []IPt
	var p []data.MicroPoint
	addV := func(x IV3, o data.MicroVec3) { vs, v = append(vs, x), append(v, o) }
	addP := func(x IPt, o data.MicroPoint) { ps, p = append(ps, x), append(p, o) }
	for k := 2 + c.Intn(3); k > 0; k-- {
		x := IV3{coord(c.Rand), coord(c.Rand), coord(c.Rand)}
		addV(x, mv3(x))
		y := IPt{coord(c.Rand), coord(c.Rand)}
		addP(y, data.NewMicroPoint(data.Micrometer(y.X), data.Micrometer(y.Y)))
	}
	inside := func(xs ...int64) bool {
		for _, x := range xs {
			if x > 1200000000 || x < -1200000000 {
				return false
			}
		}
		return true
	}
	last := "nothing"
	verify := func() bool {
		for k := range v {
			if iv3(v[k]) != vs[k] {
				c.Fail("value", "after %s the vector %d is %v instead of %v", last, k, iv3(v[k]), vs[k])
				return false
			}
		}
		for k := range p {
			if q := (IPt{int64(p[k].X()), int64(p[k].Y())}); q != ps[k] {
				c.Fail("value", "after %s the point %d is %v instead of %v", last, k, q, ps[k])
				return false
			}
		}
		return true
	}
	for step := 0; step < 12; step++ {
		if len(v) > 12 {
			v, vs = v[6:], vs[6:]
		}
		if len(p) > 12 {
			p, ps = p[6:], ps[6:]
		}
		a, b := c.Intn(len(v)), c.Intn(len(v))
		s, t := c.Intn(len(p)), c.Intn(len(p))
		f := pickI64(c.Rand, 0, 1, -1, 2, 3, -7, 10)
		A, B, S, T := vs[a], vs[b], ps[s], ps[t]
		op := c.Intn(16)
		if op < 6 {
			c.Count("vector_ops", 1)
		} else if op < 13 {
			c.Count("point_ops", 1)
		}
		last = fmt.Sprintf("operation %d on %v %v %v %v %d", op, A, B, S, T, f)
		switch op {
		case 0:
			if x := A.add(B); inside(x.X, x.Y, x.Z) {
				addV(x, v[a].Add(v[b]))
			}
		case 1:
			if x := A.sub(B); inside(x.X, x.Y, x.Z) {
				addV(x, v[a].Sub(v[b]))
			}
		case 2:
			if x := (IV3{A.X * f, A.Y * f, A.Z * f}); inside(x.X, x.Y, x.Z) {
				addV(x, v[a].Mul(data.Micrometer(f)))
			}
		case 3:
			if f != 0 {
				addV(IV3{quotient(A.X, f), quotient(A.Y, f), quotient(A.Z, f)}, v[a].Div(data.Micrometer(f)))
			}
		case 4:
			addV(A, v[a].Copy())
		case 5:
			addP(IPt{A.X, A.Y}, v[a].PointXY())
			if got, want := int64(v[a].Max()), max64(A.X, max64(A.Y, A.Z)); got != want {
				c.Fail("max", "the largest coordinate of %v is said to be %d", A, got)
			}
		case 6:
			if x := (IPt{S.X + T.X, S.Y + T.Y}); inside(x.X, x.Y) {
				addP(x, p[s].Add(p[t]))
			}
		case 7:
			if x := (IPt{S.X - T.X, S.Y - T.Y}); inside(x.X, x.Y) {
				addP(x, p[s].Sub(p[t]))
			}
		case 8:
			if x := (IPt{S.X * f, S.Y * f}); inside(x.X, x.Y) {
				addP(x, p[s].Mul(data.Micrometer(f)))
			}
		case 9:
			if f != 0 {
				addP(IPt{quotient(S.X, f), quotient(S.Y, f)}, p[s].Div(data.Micrometer(f)))
			}
		case 10:
			addP(S, p[s].Copy())
		case 11, 12: // rotation
			deg := pick(c.Rand, 0, 90, 180, 270, 360, -90, 45, 30, 1, -1, 720.5, rnd(c.Rand, -400, 400))
			q := p[s].Rotate(deg)
			rad := deg * math.Pi / 180
			x := float64(S.X)*math.Cos(rad) - float64(S.Y)*math.Sin(rad)
			y := float64(S.X)*math.Sin(rad) + float64(S.Y)*math.Cos(rad)
			if math.Abs(float64(q.X())-x) > 0.51 || math.Abs(float64(q.Y())-y) > 0.51 {
				c.Fail("rotate", "%v rotated by %v is %v %v instead of %.3f %.3f", S, deg, q.X(), q.Y(), x, y)
			}
			c.Count("rotations", 1)
		case 13: // setters change only their own value, also if it was made of others
			k := data.Micrometer(coord(c.Rand))
			if c.Intn(2) == 0 {
				switch c.Intn(3) {
				case 0:
					v[a].SetX(k)
					vs[a].X = int64(k)
				case 1:
					v[a].SetY(k)
					vs[a].Y = int64(k)
				default:
					v[a].SetZ(k)
					vs[a].Z = int64(k)
				}
			} else if c.Intn(2) == 0 {
				p[s].SetX(k)
				ps[s].X = int64(k)
			} else {
				p[s].SetY(k)
				ps[s].Y = int64(k)
			}
			c.Count("aliases_changed", 1)
		case 14: // lengths
			c.Count("lengths", 2)
			l2 := A.len2()
			if inside(A.X, A.Y, A.Z) {
				if int64(v[a].Size2()) != l2 {
					c.Fail("size2", "the squared length of %v is said to be %d", A, v[a].Size2())
				}
				if d := int64(v[a].Size()) - isqrt(l2); d != 0 && !(l2 > 1<<52 && (d == 1 || d == -1)) {
					c.Fail("size", "the length of %v is said to be %d", A, v[a].Size())
				}
				limit := isqrt(l2) + pickI64(c.Rand, 0, 0, 1, -1)
				if c.Intn(8) == 0 { // nothing fits inside a negative length
					limit = -limit
				}
				if limit < 0 {
					c.Count("negative_lengths", 1)
					if v[a].ShorterThanOrEqual(data.Micrometer(limit)) {
						c.Fail("shorter", "%v shorter than or equal to %d", A, limit)
					}
				} else {
					if limit*limit == l2 {
						c.Count("equal_lengths", 1)
					}
					if got := v[a].ShorterThanOrEqual(data.Micrometer(limit)); got != (l2 <= limit*limit) {
						c.Fail("shorter", "%v shorter than or equal to %d: %v", A, limit, got)
					}
				}
			}
			p2 := S.X*S.X + S.Y*S.Y
			if int64(p[s].Size2()) != p2 {
				c.Fail("size2", "the squared length of %v is said to be %d", S, p[s].Size2())
			}
			if d := int64(p[s].Size()) - isqrt(p2); d != 0 && !(p2 > 1<<52 && (d == 1 || d == -1)) {
				c.Fail("size", "the length of %v is said to be %d", S, p[s].Size())
			}
			if mm, want := float64(p[s].SizeMM()), math.Sqrt(float64(p2))/1000; math.Abs(mm-want) > want*5e-7+1e-9 {
				c.Fail("sizemm", "the length of %v is said to be %v mm instead of %v", S, mm, want)
			}
			limit := isqrt(p2) + pickI64(c.Rand, 0, 0, 1, -1)
			if c.Intn(8) == 0 {
				limit = -limit
			}
			if limit < 0 {
				c.Count("negative_lengths", 1)
				if p[s].ShorterThanOrEqual(data.Micrometer(limit)) {
					c.Fail("shorter", "%v shorter than or equal to %d", S, limit)
				}
			} else {
				if limit*limit == p2 {
					c.Count("equal_lengths", 1)
				}
				if got := p[s].ShorterThanOrEqual(data.Micrometer(limit)); got != (p2 <= limit*limit) {
					c.Fail("shorter", "%v shorter than or equal to %d: %v", S, limit, got)
				}
			}
		default:
			c25Others(c, p, ps)
		}
		if !verify() {
			return
		}
	}
}

func c25Others(c *Ctx, p []data.MicroPoint, ps []IPt) {
	// conversions
	for k := 0; k < 4; k++ {
		u := coord(c.Rand)
		c.Count("conversions", 2)
		if got, want := data.Micrometer(u).ToMillimeter(), float32(float64(u)/1000); float32(got) != want {
			c.Fail("tomm", "%d µm are said to be %v mm", u, got)
		}
		m := float32(float64(u) / 1000 * pick(c.Rand, 1, 1, 0.1, 0.01))
		if got, want := float64(data.Millimeter(m).ToMicrometer()), float64(m)*1000; math.Abs(got-want) > 0.5+math.Abs(want)*1.2e-7 {
			c.Fail("toum", "%v mm are said to be %v µm", m, got)
		}
		if u > -8000000 && u < 8000000 { // both directions are exact for all sizes of printers
			if back := data.Micrometer(u).ToMillimeter().ToMicrometer(); int64(back) != u {
				c.Fail("roundtrip", "%d µm become %d µm by converting them to mm and back", u, back)
			}
		}
		v := coord(c.Rand)
		if int64(data.Max(data.Micrometer(u), data.Micrometer(v))) != max64(u, v) || int64(data.Min(data.Micrometer(u), data.Micrometer(v))) != min64(u, v) {
			c.Fail("minmax", "Min or Max of %d and %d", u, v)
		}
	}
	// bounds
	paths := data.Paths{}
	var all [][]IPt
	for k := c.Intn(4); k > 0; k-- {
		n := c.Intn(6)
		var q []IPt
		for ; n > 0; n-- {
			q = append(q, IPt{coord(c.Rand), coord(c.Rand)})
		}
		all = append(all, q)
		paths = append(paths, ipath(q))
	}
	box := func(qs ...[]IPt) (lo, hi IPt) {
		first := true
		for _, q := range qs {
			for _, x := range q {
				if first {
					lo, hi, first = x, x, false
				}
				lo = IPt{min64(lo.X, x.X), min64(lo.Y, x.Y)}
				hi = IPt{max64(hi.X, x.X), max64(hi.Y, x.Y)}
			}
		}
		return
	}
	eq := func(what string, a, b data.MicroPoint, qs ...[]IPt) {
		lo, hi := box(qs...)
		c.Count("bounds", 1)
		if (IPt{int64(a.X()), int64(a.Y())}) != lo || (IPt{int64(b.X()), int64(b.Y())}) != hi {
			c.Fail("bounds", "the bounds of %s %v are said to be %v %v, %v %v", what, qs, a.X(), a.Y(), b.X(), b.Y())
		}
	}
	for k := range paths {
		lo, hi := paths[k].Bounds()
		eq("the path", lo, hi, all[k])
		lo.SetX(lo.X() - 5) // the bounds are points of their own
		hi.SetY(hi.Y() + 5)
		if !eqPts(ipts(paths[k]), all[k]) {
			c.Fail("bounds-alias", "changing the bounds changes the path")
			return
		}
	}
	lo, hi := paths.Bounds()
	eq("the paths", lo, hi, all...)
	var parts []data.LayerPart
	var outlines [][]IPt
	for k := range paths {
		holes := data.Paths{}
		if len(all[k]) > 0 { // a hole lies inside, only the outlines count
			holes = append(holes, data.Path{paths[k][0]})
		}
		part := data.NewBasicLayerPart(paths[k], holes)
		if !eqPts(ipts(part.Outline()), all[k]) || len(part.Holes()) != len(holes) {
			c.Fail("part", "the part does not consist of its outline and holes")
		}
		parts = append(parts, part)
		outlines = append(outlines, all[k])
	}
	l := data.NewPartitionedLayer(parts)
	if len(l.LayerParts()) != len(parts) {
		c.Fail("layer", "the layer does not consist of its parts")
	}
	lo, hi = l.Bounds()
	eq("the layer", lo, hi, outlines...)

	// rotation of paths, in place
	deg := pick(c.Rand, 0, 90, 17, -45, rnd(c.Rand, -360, 360))
	rot := data.Paths{}
	for k := range all {
		rot = append(rot, ipath(all[k]))
	}
	rot.Rotate(deg)
	for k := range rot {
		for j := range rot[k] {
			w := rotPt(Pt{float64(all[k][j].X), float64(all[k][j].Y)}, deg)
			if math.Abs(float64(rot[k][j].X())-w.X) > 0.51 || math.Abs(float64(rot[k][j].Y())-w.Y) > 0.51 {
				c.Fail("rotate", "%v rotated by %v is %v %v", all[k][j], deg, rot[k][j].X(), rot[k][j].Y())
			}
			c.Count("rotations", 1)
		}
	}

	// almost finished paths
	if q := all; len(q) > 0 && len(q[0]) > 0 {
		a, b := q[0][0], q[0][len(q[0])-1]
		d2 := (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y)
		if d2 >= 0 && math.Abs(float64(a.X-b.X)) < 1e9 && math.Abs(float64(a.Y-b.Y)) < 1e9 {
			limit := isqrt(d2) + pickI64(c.Rand, 0, 1, -1)
			if limit >= 0 {
				if got := paths[0].IsAlmostFinished(data.Micrometer(limit)); got != (d2 <= limit*limit) {
					c.Fail("finished", "a path with ends %v and %v is almost finished up to %d: %v", a, b, limit, got)
				}
			}
		}
	}

	// distances and products, within the size where they fit
	x := func() IPt { return IPt{coord(c.Rand) % 40000, coord(c.Rand) % 40000} }
	a, b, q := x(), x(), x()
	pt := func(v IPt) data.MicroPoint { return data.NewMicroPoint(data.Micrometer(v.X), data.Micrometer(v.Y)) }
	c.Count("distances", 1)
	if got := int64(data.DotProduct(pt(a), pt(b))); got != a.X*b.X+a.Y*b.Y {
		c.Fail("dot", "the product of %v and %v is said to be %d", a, b, got)
	}
	want := 0.0
	if a == b {
		want = float64((q.X-a.X)*(q.X-a.X) + (q.Y-a.Y)*(q.Y-a.Y))
	} else {
		u := Pt{float64(b.X - a.X), float64(b.Y - a.Y)}
		cr := u.Cross(Pt{float64(q.X - a.X), float64(q.Y - a.Y)})
		want = cr * cr / u.Dot(u)
	}
	got := float64(data.PerpendicularDistance2(pt(a), pt(b), pt(q)))
	large := u2max(a, b, q) > 3e9 // the square of the product does not fit
	if got < want-1.5 || (!large && got > want+1.5) {
		c.Fail("distance", "the squared distance of %v to the line through %v and %v is said to be %v instead of %v", q, a, b, got, want)
	}
}

func u2max(a, b, q IPt) float64 {
	return math.Abs(float64((b.X-a.X)*(q.X-a.X) + (b.Y-a.Y)*(q.Y-a.Y)))
}
