package main

import (
	"math"
	"math/rand"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C09: top and bottom skins, internal infill.

func init() {
	register(&Prop{
		ID:    "C09",
		Rule:  "random solids with ledges, slopes, cavities, gaps and several bodies through the complete pipeline with random numbers of top and bottom layers, overlaps, wall counts and infill percentages; points on a 100 µm grid are classified by a three-valued oracle that only knows the slicer's layers and the inner walls, and compared with the planned areas and the printed lines; a case is non-trivial when skins and internal infill points were both decided",
		Quick: 6000, Deep: 100000,
		Require: map[string]int{"sure_bottom": 2000, "sure_not_bottom": 2000, "sure_top": 1000, "sure_not_top": 2000, "sure_inside": 10000, "sure_outside": 5000, "infill_points": 1000, "printed_skin_points": 1000, "printed_infill_points": 500, "cavity_skins": 100},
		Assume:  []string{"points whose class depends on less than the grid distance are not judged", "the expansion of skins into the infill may be cut straight at corners"},
		Run:     runC09,
	})
}

// skinSolid draws models where skins begin and end inside.
func skinSolid(r *rand.Rand, i int) *Mesh {
	switch i % 8 {
	case 1: // stairs
		m := &Mesh{Name: "stairs"}
		n := 2 + r.Intn(3)
		w := rnd(r, 1.6, 2.6)
		var poly []Pt
		poly = append(poly, Pt{0, 0}, Pt{w * float64(n), 0})
		for k := n; k >= 1; k-- {
			poly = append(poly, Pt{w * float64(k), float64(n-k+1) * 0.7}, Pt{w * float64(k-1), float64(n-k+1) * 0.7})
		}
		poly = poly[:len(poly)-1]
		poly = append(poly, Pt{0, float64(n) * 0.7})
		m = prismMesh(poly, 0, rnd(r, 4, 8))
		m.Name = "stairs"
		m.RotateXYZ(math.Pi/2, 0, rnd(r, 0, 6))
		return m.Round32()
	case 2: // upside down pyramid or mushroom
		h1, h2 := rnd(r, 0.6, 1.4), rnd(r, 0.6, 1.4)
		m := loft([]Level{{Z: 0, S: rnd(r, 0.3, 0.5)}, {Z: h1, S: rnd(r, 0.3, 0.5)}, {Z: h1, S: 1}, {Z: h1 + h2, S: rnd(r, 0.6, 1)}}, randProfile(r, 6, 0.8), rnd(r, 0, 6), true, false)
		m.Name = "mushroom"
		return m.Round32()
	case 3: // a closed cavity
		h := rnd(r, 2, 3)
		m := boxMesh(rnd(r, 8, 12), rnd(r, 8, 12), h)
		c := boxMesh(rnd(r, 2, 4), rnd(r, 2, 4), rnd(r, 0.4, h-1.2)).Translate(V3{rnd(r, 2, 3.5), rnd(r, 2, 3.5), rnd(r, 0.5, 0.7)})
		for k := range c.Tris {
			c.Tris[k][1], c.Tris[k][2] = c.Tris[k][2], c.Tris[k][1]
		}
		m.Append(c)
		m.Name = "cavity"
		m.RotateXYZ(0, 0, rnd(r, 0, 6))
		return m.Round32()
	case 4: // a bridge
		m := prismMesh([]Pt{{0, 0}, {2.5, 0}, {2.5, 1}, {6.5, 1}, {6.5, 0}, {9, 0}, {9, 2.2}, {0, 2.2}}, 0, rnd(r, 3, 6))
		m.Name = "bridge"
		m.RotateXYZ(math.Pi/2, 0, rnd(r, 0, 6))
		return m.Round32()
	case 5: // two bodies that leave a gap in height
		m := boxMesh(7, 6, 1.0)
		m.Append(boxMesh(6, 7, 1.1).Translate(V3{rnd(r, -2, 2), 1, 1 + rnd(r, 0.2, 0.9)}))
		m.Name = "gap"
		return m.Round32()
	}
	return randSolid(r, SolidOpts{MaxH: 3.2, MaxR: 6, Ledges: true})
}

func runC09(c *Ctx, i int) {
	o := randOptions(c.Rand, optVary{geometry: true, infill: true})
	raise(c, &o)
	o.Print.NumberBottomLayers = pickInt(c.Rand, 0, 1, 2, 3, 3, 5, 9)
	o.Print.NumberTopLayers = pickInt(c.Rand, 0, 1, 2, 3, 4, 4, 7)
	o.Print.AdditionalInternalInfillOverlapPercent = orInt(c.Rand, 0, 1500, 400, 400, 200, 100, 50, 0)
	o.Print.InsetCount = pickInt(c.Rand, 1, 2, 2, 3)
	m := skinSolid(c.Rand, i)
	r := gcodeRunWith(c, i, m, o)
	if r == nil {
		return
	}
	s := newSkinOracle(r)
	before := c.res.Counts["sure_bottom"] + c.res.Counts["sure_top"]
	for k := range r.Layers {
		checkSkins(c, r, s, k)
		if c.Failed() {
			return
		}
	}
	c.Nontrivial(c.res.Counts["sure_bottom"]+c.res.Counts["sure_top"] > before && c.res.Counts["infill_points"] > 0)
}

const skinGrid = 100.0

type skinOracle struct {
	r     *Run
	layer []*Field // of the complete layer
}

func newSkinOracle(r *Run) *skinOracle {
	s := &skinOracle{r: r}
	for _, l := range r.Sliced {
		s.layer = append(s.layer, newField(regionOf(l.LayerParts()).segs, skinGrid, 2000))
	}
	return s
}

// raw: whether the neighbourhood of the node needs a skin before the expansion.
// sure: certainly at the node itself; possible: maybe somewhere in the cell of the node.
func (s *skinOracle) raw(inner *Field, k, n, dir int, x, y int) (sure, possible bool) {
	const tol = 12
	cell := skinGrid/math.Sqrt2 + tol
	si := inner.at(x, y)
	if si <= -cell || n <= 0 {
		return false, false
	}
	for i := 1; i <= n; i++ {
		j := k + dir*i
		if j < 0 || j >= len(s.layer) {
			// the end of the model lies within the skin: everything belongs to it
			return si > tol, true
		}
		d := s.layer[j].at(x, y)
		if d < cell {
			possible = true
		}
		if d < -tol && si > tol {
			return true, true
		}
	}
	return false, possible
}

// skin: whether the node belongs to the skin (before it is cut by the border of the infill).
func (s *skinOracle) skin(inner *Field, k, n, dir int, e float64, x, y int) tri {
	const tol = 12
	cell := skinGrid/math.Sqrt2 + tol
	if n <= 0 {
		return no
	}
	if e >= 0 {
		res := no
		inner.disc(x, y, math.Sqrt2*e+tol+cell, func(qx, qy int, d float64) bool {
			sure, possible := s.raw(inner, k, n, dir, qx, qy)
			if sure && d <= math.Max(e-tol, 0) {
				res = yes
				return false
			}
			if possible {
				res = unknown
			}
			return true
		})
		return res
	}
	e = -e
	res := yes
	inner.disc(x, y, math.Sqrt2*e+tol+cell, func(qx, qy int, d float64) bool {
		sure, possible := s.raw(inner, k, n, dir, qx, qy)
		if !possible && d <= math.Max(e-tol, 0) {
			res = no
			return false
		}
		// the whole cell has to belong to it
		if !sure || inner.at(qx, qy) < cell || !s.sureCell(k, n, dir, qx, qy) {
			res = unknown
		}
		return true
	})
	return res
}

func (s *skinOracle) sureCell(k, n, dir, x, y int) bool {
	cell := skinGrid/math.Sqrt2 + 12
	for i := 1; i <= n; i++ {
		j := k + dir*i
		if j < 0 || j >= len(s.layer) || s.layer[j].at(x, y) < -cell {
			return true
		}
	}
	return false
}

func checkSkins(c *Ctx, r *Run, s *skinOracle, k int) {
	const tol = 12
	o := r.Opt.Print
	w := float64(r.Opt.Printer.ExtrusionWidth)
	per, err := modifier.Perimeters(r.Layers[k])
	if err != nil {
		c.Fail("attribute", "layer %d: %v", k, err)
		return
	}
	get := func(f func(data.PartitionedLayer) ([]data.LayerPart, error)) *Region {
		p, err := f(r.Layers[k])
		if err != nil {
			c.Fail("attribute", "layer %d: %v", k, err)
		}
		return regionOf(p)
	}
	bottom, top := get(modifier.BottomInfill), get(modifier.TopInfill)
	infill := get(func(l data.PartitionedLayer) ([]data.LayerPart, error) { return modifier.PartsAttribute(l, "infill") })
	if c.Failed() {
		return
	}
	// all innermost walls
	all := &Region{}
	type innerPart struct {
		f    *Field
		segs []Seg
	}
	var inners []innerPart
	for _, part := range per {
		if len(part) == 0 {
			continue
		}
		for _, in := range part[len(part)-1] {
			p := partOf(in)
			all.add(p)
		}
		in := regionOf(part[len(part)-1])
		if len(in.Parts) > 0 {
			inners = append(inners, innerPart{newField(in.segs, skinGrid, 500), in.segs})
		}
	}
	border := math.Trunc(w * float64(100-o.InfillOverlapPercent) / 100 / 2)
	e := (float64(o.InfillOverlapPercent+o.AdditionalInternalInfillOverlapPercent) - 100) / 100 * w / 2
	// printed lines
	lines := map[string][]Seg{}
	for _, sub := range []string{"BOTTOM-FILL", "TOP-FILL", "INTERNAL-FILL"} {
		for _, st := range r.G.layerStrokes(k, "FILL", sub) {
			lines[sub] = append(lines[sub], segsOfOpen(st.Pts)...)
		}
	}
	judge := func(p Pt, onGrid bool) bool {
		// inside the border of the infill?
		in := no
		which := -1
		for i := range inners {
			t := inOffset(p, inners[i].segs, -border, tol)
			if t == yes {
				which = i
			}
			in = triOr(in, t)
		}
		if in == unknown {
			return true
		}
		db, dt, di := bottom.Dist(p), top.Dist(p), infill.Dist(p)
		if db < tol || dt < tol || di < tol {
			return true
		}
		nb, nt, ni := bottom.Count(p), top.Count(p), infill.Count(p)
		if in == no {
			c.Count("sure_outside", 1)
			if nb+nt+ni > 0 {
				c.Fail("outside", "layer %d: (%.0f %.0f) lies outside of the infill border but in bottom %d, top %d, infill %d areas", k, p.X, p.Y, nb, nt, ni)
				return false
			}
			return true
		}
		c.Count("sure_inside", 1)
		if nb+nt+ni > 1 {
			c.Fail("overlap", "layer %d: (%.0f %.0f) lies in bottom %d, top %d and infill %d areas", k, p.X, p.Y, nb, nt, ni)
			return false
		}
		if nb+nt+ni == 0 && o.InfillPercent > 0 {
			c.Fail("gap", "layer %d: (%.0f %.0f) lies inside the infill border but in no skin and not in the infill", k, p.X, p.Y)
			return false
		}
		if o.InfillPercent == 0 && ni > 0 {
			c.Fail("no-infill", "layer %d: (%.0f %.0f) has infill although 0 %% is configured", k, p.X, p.Y)
			return false
		}
		if !onGrid {
			return true
		}
		x, y := int(math.Round(p.X/skinGrid)), int(math.Round(p.Y/skinGrid))
		sb := s.skin(inners[which].f, k, o.NumberBottomLayers, -1, e, x, y)
		st := s.skin(inners[which].f, k, o.NumberTopLayers, 1, e, x, y)
		switch sb {
		case yes:
			c.Count("sure_bottom", 1)
			if k > o.NumberBottomLayers {
				c.Count("cavity_skins", 1)
			}
			if nb == 0 {
				c.Fail("bottom-missing", "layer %d: (%.0f %.0f) needs a bottom skin: the model is missing somewhere in the %d layers below", k, p.X, p.Y, o.NumberBottomLayers)
				return false
			}
		case no:
			c.Count("sure_not_bottom", 1)
			if nb > 0 {
				c.Fail("bottom-extra", "layer %d: (%.0f %.0f) has a bottom skin but the %d layers below are solid all around (%.0f µm)", k, p.X, p.Y, o.NumberBottomLayers, e)
				return false
			}
		}
		switch {
		case st == yes && nb == 0:
			c.Count("sure_top", 1)
			if nt == 0 {
				c.Fail("top-missing", "layer %d: (%.0f %.0f) needs a top skin: the model is missing somewhere in the %d layers above", k, p.X, p.Y, o.NumberTopLayers)
				return false
			}
		case st == no:
			c.Count("sure_not_top", 1)
			if nt > 0 {
				c.Fail("top-extra", "layer %d: (%.0f %.0f) has a top skin but the %d layers above are solid all around (%.0f µm)", k, p.X, p.Y, o.NumberTopLayers, e)
				return false
			}
		}
		if ni > 0 {
			c.Count("infill_points", 1)
		}
		// skins are printed without gaps
		for sub, reg := range map[string]*Region{"BOTTOM-FILL": bottom, "TOP-FILL": top} {
			if reg.Contains(p) && reg.Dist(p) > w {
				c.Count("printed_skin_points", 1)
				if d := distToSegs(p, lines[sub]); d > w/2+25 {
					c.Fail("skin-hole", "layer %d: (%.0f %.0f) lies inside of the skin, the nearest %s line is %.0f µm away", k, p.X, p.Y, sub, d)
					return false
				}
			}
		}
		return true
	}
	lo, hi := all.BBox()
	if len(all.segs) == 0 {
		if len(bottom.Parts)+len(top.Parts)+len(infill.Parts) > 0 {
			c.Fail("outside", "layer %d has infill areas but no inner walls", k)
		}
		return
	}
	snapG := func(v float64) float64 { return math.Round(v/skinGrid) * skinGrid }
	for j := 0; j < 50; j++ {
		if !judge(Pt{snapG(rnd(c.Rand, lo.X-600, hi.X+600)), snapG(rnd(c.Rand, lo.Y-600, hi.Y+600))}, true) {
			return
		}
	}
	for _, reg := range []*Region{bottom, top, infill, all} {
		for j := 0; j < 25 && len(reg.segs) > 0; j++ {
			sg := reg.segs[c.Intn(len(reg.segs))]
			l := sg.B.Sub(sg.A)
			if l.Len() == 0 {
				continue
			}
			at := lerp(sg.A, sg.B, c.Float64())
			q := at.Add(Pt{-l.Y, l.X}.Mul(rnd(c.Rand, -60, 60) / l.Len()))
			if !judge(q, false) {
				return
			}
			q = at.Add(Pt{-l.Y, l.X}.Mul(rnd(c.Rand, -500, 500) / l.Len()))
			if !judge(Pt{snapG(q.X), snapG(q.Y)}, true) {
				return
			}
		}
	}
	// the printed lines stay in their area
	for sub, reg := range map[string]*Region{"BOTTOM-FILL": bottom, "TOP-FILL": top, "INTERNAL-FILL": infill} {
		for j, sg := range lines[sub] {
			if j%3 != 0 {
				continue
			}
			p := lerp(sg.A, sg.B, c.Float64())
			c.Count("printed_infill_points", 1)
			if !reg.Contains(p) && reg.Dist(p) > 20 {
				c.Fail("line-outside", "layer %d: the %s line from (%.0f %.0f) to (%.0f %.0f) leaves its area", k, sub, sg.A.X, sg.A.Y, sg.B.X, sg.B.Y)
				return
			}
		}
	}
}
