package main

import (
	"math"
	"math/rand"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C30: bodies which lie far apart do not influence each other.

func init() {
	register(&Prop{
		ID:    "C30",
		Rule:  "two random solids are put into one file with a gap of at least 45 mm (either first, or their faces mixed; also bodies of very different size, above each other's height and with holes in their surface), and each of them is sliced alone at the same place with the same options; on every layer the slices, walls, borders of the infill, skins, infill, support, interface and brim planned for one body, and its printed walls, must cover the same points in the common program as alone; a case is non-trivial when both bodies were compared",
		Quick: 1500, Deep: 40000,
		Require: map[string]int{"pairs": 1000, "bodies": 2000, "layers_compared": 15000, "points": 500000, "inside": 100000, "support_inside": 2000, "skin_inside": 10000, "brim_inside": 1000, "printed_points": 50000, "mixed_faces": 200, "raised_bodies": 200, "above_top": 1000, "open_models": 100, "plates": 40, "columns": 40},
		Assume:  []string{"points within 20 µm of a border of either result are not judged (40 µm for the printed walls)"},
		Run:     runC30,
	})
}

func apartSolid(r *rand.Rand, i int) *Mesh {
	switch r.Intn(6) {
	case 0:
		return supportSolid(r, r.Intn(1000))
	case 1:
		return skinSolid(r, r.Intn(1000))
	case 2:
		return brimSolid(r, r.Intn(1000))
	case 3:
		return richSolid(r, SolidOpts{MaxH: 2, MaxR: 5, Ledges: true})
	}
	return randSolid(r, SolidOpts{MaxH: 2.6, MaxR: 5, Ledges: true})
}

func runC30(c *Ctx, i int) {
	r := c.Rand
	even := func(m *Mesh) *Mesh { // so that every center is a whole number
		return m.Map(func(v V3) V3 {
			e := func(x float64) float64 { return f32(math.Round(x*500) / 500) }
			return V3{e(v.X), e(v.Y), e(v.Z)}
		})
	}
	o := randOptions(r, varyAll)
	a, b := apartSolid(r, i), apartSolid(r, i)
	switch r.Intn(16) {
	case 0, 1:
		b = a.Clone()
	case 2: // of very different sizes
		b = boxMesh(rnd(r, 30, 120), rnd(r, 30, 120), pick(r, 0.8, rnd(r, 0.8, 2)))
		b.Name = "plate"
		c.Count("plates", 1)
	case 4:
		if r.Intn(3) == 0 {
			b = crowd(r).Map(func(v V3) V3 { return V3{v.X, v.Y, v.Z / 2} })
			o.Print.InsetCount = 1 + r.Intn(2)
			c.Count("crowds", 1)
		}
	case 3:
		b = boxMesh(rnd(r, 1.2, 2), rnd(r, 1.2, 2), rnd(r, 5, 40))
		b.Name = "column"
		c.Count("columns", 1)
	}
	if r.Intn(6) == 0 { // with holes in the surface
		for _, m := range []*Mesh{a, b} {
			k := r.Intn(3)
			if r.Intn(3) == 0 {
				k = len(m.Tris) / 4
			}
			for ; k > 0 && len(m.Tris) > 4; k-- {
				d := r.Intn(len(m.Tris))
				m.Tris = append(append([]Tri(nil), m.Tris[:d]...), m.Tris[d+1:]...)
			}
		}
		c.Count("open_models", 1)
	}
	if r.Intn(3) == 0 {
		o.Print.Support.Enabled = true
	}
	if r.Intn(3) == 0 { // only brim
		o.Print.BrimSkirt.SkirtCount = 0
		o.Print.BrimSkirt.BrimCount = 1 + r.Intn(6)
	}
	o.Printer.Center.SetZ(0)
	// b beside a
	alo, ahi := a.BBox()
	blo, bhi := b.BBox()
	gap := 45 + pick(r, 0, rnd(r, 0, 10), rnd(r, 0, 150), rnd(r, 0, 800))
	if len(a.Tris)+len(b.Tris) > 2000 { // wide grids for many parts take long
		gap = 45 + rnd(r, 0, 20)
		o.Print.Support.Enabled = false
		o.Printer.ExtrusionWidth += 100
		o.Print.LayerThickness += 100
	}
	axis := r.Intn(2)
	d := V3{rnd(r, -20, 20), rnd(r, -20, 20), alo.Z - blo.Z}
	neg := r.Intn(2) == 0
	switch {
	case axis == 0 && !neg:
		d.X = ahi.X - blo.X + gap
	case axis == 0:
		d.X = alo.X - bhi.X - gap
	case !neg:
		d.Y = ahi.Y - blo.Y + gap
	default:
		d.Y = alo.Y - bhi.Y - gap
	}
	if r.Intn(4) == 0 {
		d.Z += rnd(r, -2.5, 2.5)
		c.Count("raised_bodies", 1)
	}
	b.Translate(d)
	a, b = even(a), even(b)
	u := &Mesh{Name: shorten(a.Name, 40) + "+" + shorten(b.Name, 40)}
	switch r.Intn(3) {
	case 0:
		u.Append(a).Append(b)
	case 1:
		u.Append(b).Append(a)
	default:
		c.Count("mixed_faces", 1)
		for x, y := 0, 0; x < len(a.Tris) || y < len(b.Tris); {
			if y == len(b.Tris) || x < len(a.Tris) && r.Intn(2) == 0 {
				u.Tris = append(u.Tris, a.Tris[x])
				x++
			} else {
				u.Tris = append(u.Tris, b.Tris[y])
				y++
			}
		}
	}
	c.Name("%d %s", i, u.Name)
	if nearPoints(u, 0.06) {
		c.Count("with_near_points", 1)
	}
	c.Key(describeMesh(u), optKey(o))
	ulo, uhi := fileBox(u)
	if uhi.Z-ulo.Z < int64(o.Print.InitialLayerThickness) {
		c.Count("too_flat", 1)
		return
	}
	whole := mustSlice(c, u, o)
	if whole == nil {
		return
	}
	c.Count("pairs", 1)
	c.Sample("%s; %s; gap %.1f along axis %d; %d layers", describeMesh(u), optKey(o), gap, axis, len(whole.Layers))
	bodies := 0
	for n, m := range []*Mesh{a, b} {
		lo, hi := fileBox(m)
		p := o
		ctr := o.Printer.Center
		p.Printer.Center = data.NewMicroVec3(
			ctr.X()+data.Micrometer((lo.X+hi.X)/2-(ulo.X+uhi.X)/2),
			ctr.Y()+data.Micrometer((lo.Y+hi.Y)/2-(ulo.Y+uhi.Y)/2),
			ctr.Z()+data.Micrometer(lo.Z-ulo.Z))
		if hi.Z-ulo.Z < int64(o.Print.InitialLayerThickness) {
			c.Count("flat_body", 1)
			continue
		}
		alone := mustSlice(c, m, p)
		if alone == nil {
			return
		}
		// the side of this body
		xlo, xhi := alone.P.Lo, alone.P.Hi
		grow := int64(22000)
		side := func(q Pt) bool {
			return q.X >= float64(xlo.X-grow) && q.X <= float64(xhi.X+grow) && q.Y >= float64(xlo.Y-grow) && q.Y <= float64(xhi.Y+grow)
		}
		compareBody(c, n, whole, alone, side)
		if c.Failed() {
			return
		}
		bodies++
		c.Count("bodies", 1)
	}
	c.Nontrivial(bodies == 2)
}

// fileBox is the bounding box in micrometers, in the coordinates of the file.
func fileBox(m *Mesh) (lo, hi IV3) {
	l, h := m.BBox()
	return IV3{toUm(l.X), toUm(l.Y), toUm(l.Z)}, IV3{toUm(h.X), toUm(h.Y), toUm(h.Z)}
}

// planned returns the areas planned on the layer by name.
func planned(c *Ctx, l data.PartitionedLayer) map[string][]data.LayerPart {
	out := map[string][]data.LayerPart{"slice": l.LayerParts()}
	fail := func(err error) {
		if err != nil {
			c.Fail("attribute", "%v", err)
		}
	}
	per, err := modifier.Perimeters(l)
	fail(err)
	names := []string{"outermost wall", "second wall", "third wall"}
	for _, part := range per {
		for w, wall := range part {
			n := "further walls"
			if w < len(names) {
				n = names[w]
			}
			out[n] = append(out[n], wall...)
			if w == len(part)-1 {
				out["innermost wall"] = append(out["innermost wall"], wall...)
			}
		}
	}
	over, err := modifier.OverlapPerimeters(l)
	fail(err)
	for _, p := range over {
		out["border of the infill"] = append(out["border of the infill"], p...)
	}
	for _, n := range []string{"bottom", "top", "infill", "support", "supportInterface", "fullSupport"} {
		p, err := modifier.PartsAttribute(l, n)
		fail(err)
		out[n] = p
	}
	p, err := modifier.BrimOuterDimension(l)
	fail(err)
	out["outer brim"] = p
	return out
}

var plannedNames = []string{"slice", "outermost wall", "second wall", "third wall", "innermost wall", "border of the infill", "bottom", "top", "infill", "fullSupport", "support", "supportInterface", "outer brim"}

func compareBody(c *Ctx, n int, whole, alone *Run, side func(Pt) bool) {
	empty := data.NewPartitionedLayer(nil)
	if len(alone.Layers) > len(whole.Layers) {
		c.Fail("layers", "a body alone has %d layers, together with another one %d", len(alone.Layers), len(whole.Layers))
		return
	}
	for k := range whole.Layers {
		l := data.PartitionedLayer(empty)
		if k < len(alone.Layers) {
			l = alone.Layers[k]
			c.Count("layers_compared", 1)
		} else {
			c.Count("above_top", 1)
		}
		x, y := planned(c, whole.Layers[k]), planned(c, l)
		for _, name := range plannedNames {
			ra, rb := &Region{}, regionOf(y[name])
			for _, p := range x[name] {
				q := partOf(p)
				if len(q.Outline) > 0 && side(q.Outline[0]) {
					ra.add(q)
				}
			}
			contains := func(reg *Region) func(Pt) bool { return reg.Contains }
			in := samplePair(c, ra.segs, rb.segs, 20, contains(ra), contains(rb), func(p Pt, together bool) {
				c.Fail("area:"+name, "body %d, layer %d, %s: the point (%.0f %.0f) belongs to it together with another body (which is far away): %v, alone: %v; %.0f and %.0f off its border", n, k, name, p.X, p.Y, together, !together, ra.Dist(p), rb.Dist(p))
			})
			if c.Failed() {
				return
			}
			c.Count("inside", in)
			switch name {
			case "bottom", "top":
				c.Count("skin_inside", in)
			case "support", "supportInterface":
				c.Count("support_inside", in)
			case "outer brim":
				c.Count("brim_inside", in)
			}
		}
		for _, typ := range []string{"WALL-OUTER", "WALL-INNER", "SKIRT"} {
			if typ == "SKIRT" && whole.Opt.Print.BrimSkirt.SkirtCount != 0 {
				continue // the skirt is around all bodies
			}
			var sa, sb []Seg
			for _, s := range whole.G.layerStrokes(k, typ, "") {
				if side(s.Pts[0]) {
					sa = append(sa, segsOfPoly(s.Pts)...)
				}
			}
			if k < len(alone.Layers) {
				for _, s := range alone.G.layerStrokes(k, typ, "") {
					sb = append(sb, segsOfPoly(s.Pts)...)
				}
			}
			before := c.res.Counts["points"]
			samplePair(c, sa, sb, 40, func(p Pt) bool { return parity(p, sa) }, func(p Pt) bool { return parity(p, sb) }, func(p Pt, together bool) {
				c.Fail("printed:"+typ, "body %d, layer %d: the point (%.0f %.0f) is surrounded by the printed %s together with another body (which is far away): %v, alone: %v", n, k, p.X, p.Y, typ, together, !together)
			})
			c.Count("printed_points", c.res.Counts["points"]-before)
			if c.Failed() {
				return
			}
		}
	}
}

// samplePair compares two areas at points near both borders and between them; it returns how many points were inside.
func samplePair(c *Ctx, a, b []Seg, tol float64, inA, inB func(Pt) bool, differ func(p Pt, a bool)) int {
	all := append(append([]Seg(nil), a...), b...)
	if len(all) == 0 {
		return 0
	}
	in, seen := 0, 0
	test := func(p Pt) bool {
		if distToSegs(p, all) <= tol {
			return true
		}
		u, v := inA(p), inB(p)
		seen++
		if u {
			in++
		}
		if u != v {
			differ(p, u)
			return false
		}
		return true
	}
	defer func() { c.Count("points", seen) }()
	count := func(s []Seg) bool {
		if len(s) == 0 {
			return true
		}
		n := len(s)
		if n > 12 {
			n = 12
		}
		for k := 0; k < n; k++ {
			sg := s[k]
			if len(s) > n {
				sg = s[c.Intn(len(s))]
			}
			l := sg.B.Sub(sg.A)
			if l.Len() == 0 {
				continue
			}
			e := Pt{-l.Y, l.X}.Mul((tol + 5 + 300*math.Pow(c.Float64(), 4)) / l.Len())
			mid := lerp(sg.A, sg.B, rnd(c.Rand, 0.2, 0.8))
			if !test(mid.Add(e)) || !test(mid.Sub(e)) {
				return false
			}
		}
		return true
	}
	if !count(a) || !count(b) {
		return in
	}
	lo, hi := bboxSegs(all)
	for k := 0; k < 6; k++ {
		if !test(Pt{rnd(c.Rand, lo.X, hi.X), rnd(c.Rand, lo.Y, hi.Y)}) {
			return in
		}
	}
	return in
}
