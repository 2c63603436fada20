package main

import (
	"math"
	"math/rand"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// C11: support.

func init() {
	register(&Prop{
		ID:    "C11",
		Rule:  "random models with overhangs, bridges, tables, mushrooms, slopes around the threshold, overhangs above the model itself and several bodies, with random support options; for sampled columns the support of every layer is derived top down by a three-valued oracle (which only knows the sliced layers and the options) and compared with the planned areas and the printed lines; a case is non-trivial when supported points were decided",
		Quick: 5000, Deep: 40000,
		Require: map[string]int{"overhang_points": 2000, "no_overhang_points": 5000, "sure_support": 20000, "sure_no_support": 20000, "sure_interface": 3000, "sure_no_interface": 20000, "gap_points": 3000, "top_gap_points": 500, "printed_points": 3000, "without_support": 50, "brim_layers": 100},
		Assume:  []string{"points whose class depends on less than the tolerance (12 µm) or on how corners are cut are not judged"},
		Run:     runC11,
	})
}

func supportSolid(r *rand.Rand, i int) *Mesh {
	switch i % 7 {
	case 0: // table with several legs
		h := rnd(r, 1.5, 4)
		m := boxMesh(rnd(r, 10, 16), rnd(r, 8, 14), rnd(r, 0.5, 1.2)).Translate(V3{0, 0, h})
		for k := 0; k < 1+r.Intn(3); k++ {
			m.Append(boxMesh(rnd(r, 1.5, 3), rnd(r, 1.5, 3), h).Translate(V3{rnd(r, -1, 9), rnd(r, -1, 8), 0}))
		}
		m.Name = "table"
		m.RotateXYZ(0, 0, pick(r, 0, rnd(r, 0, 6)))
		return m.Round32()
	case 1: // a ceiling above a step of the model
		h1, h2 := rnd(r, 0.6, 1.4), rnd(r, 1.2, 3)
		w := rnd(r, 6, 9)
		m := prismMesh([]Pt{{0, 0}, {14, 0}, {14, h1}, {3, h1}, {3, h1 + h2}, {3 + w, h1 + h2}, {3 + w, h1 + h2 + 0.8}, {0, h1 + h2 + 0.8}}, 0, rnd(r, 4, 8))
		m.Name = "shelf"
		m.RotateXYZ(math.Pi/2, 0, rnd(r, 0, 6))
		return m.Round32()
	case 2: // slopes around the threshold
		h := rnd(r, 2, 4)
		ang := rnd(r, 25, 80) / 180 * math.Pi
		x := math.Min(h*math.Tan(ang), 12)
		m := prismMesh([]Pt{{0, 0}, {4, 0}, {4 + x, h}, {0, h}}, 0, rnd(r, 4, 8))
		m.Name = "slope"
		m.RotateXYZ(math.Pi/2, 0, rnd(r, 0, 6))
		return m.Round32()
	case 3: // floating body beside a standing one
		m := boxMesh(5, 5, rnd(r, 2, 4))
		z := rnd(r, 0.4, 2.2)
		m.Append(boxMesh(rnd(r, 3, 7), rnd(r, 3, 7), rnd(r, 0.5, 2)).Translate(V3{rnd(r, 5.2, 9), rnd(r, -2, 3), z}))
		m.Name = "floating"
		return m.Round32()
	case 4:
		m := sphereMesh(rnd(r, 2.5, 5), 12, 24)
		if r.Intn(2) == 0 {
			m = torusMesh(rnd(r, 3, 5), rnd(r, 1, 2), 24, 12)
			m.RotateXYZ(pick(r, 0, math.Pi/2), 0, 0)
		}
		m.Name += "-ball"
		return m.Round32()
	}
	return skinSolid(r, pickInt(r, 2, 3, 4, 5, 6))
}

type supportOracle struct {
	o       data.Options
	s       []*Region // sliced layers
	v       []*Region // overhangs above layer j
	e, gap  float64
	topGap  int
	itf     int
	rawAt   []int // rawAt[k]: j of the overhang that starts at layer k, or -1
	wantErr bool
}

func newSupportOracle(c *Ctx, r *Run) *supportOracle {
	o := r.Opt
	s := &supportOracle{o: o, topGap: o.Print.Support.TopGapLayers, itf: o.Print.Support.InterfaceLayers}
	s.e = math.Trunc(math.Round(float64(o.Print.Support.PatternSpacing)*1000) * 3 / 2)
	s.gap = math.Round(float64(o.Print.Support.Gap) * 1000)
	d := math.Round(float64(o.Print.LayerThickness) * math.Tan(float64(o.Print.Support.ThresholdAngle)*math.Pi/180))
	for _, l := range r.Sliced {
		s.s = append(s.s, regionOf(l.LayerParts()))
		s.v = append(s.v, nil)
		s.rawAt = append(s.rawAt, -1)
	}
	cl := clip.NewClipper()
	for j := 0; j+1 < len(s.s); j++ {
		k := j - s.topGap
		if k < 0 {
			continue
		}
		s.rawAt[k] = j
		// The exact overhang is computed with GoSlice's own area operations, and verified below.
		var grown []data.LayerPart
		for _, p := range r.Sliced[j].LayerParts() {
			for _, in := range cl.Inset(p, 0, 1, data.Micrometer(d)) {
				grown = append(grown, in...)
			}
		}
		v, ok := cl.Difference(r.Sliced[j+1].LayerParts(), grown)
		if !ok {
			c.Fail("area", "difference")
			return nil
		}
		s.v[j] = regionOf(v)
		segs := append(append([]Seg(nil), s.s[j].segs...), s.s[j+1].segs...)
		if len(segs) == 0 {
			continue
		}
		for n := 0; n < 30; n++ {
			sg := segs[c.Intn(len(segs))]
			l := sg.B.Sub(sg.A)
			if l.Len() == 0 {
				continue
			}
			p := lerp(sg.A, sg.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(rnd(c.Rand, -2*d, 2*d) / l.Len()))
			want := triAnd(s.s[j+1].in(p, 12), s.s[j].inOffThick(p, d, 12).not())
			if want == unknown || s.v[j].Dist(p) < 4 {
				continue
			}
			if want == yes {
				c.Count("overhang_points", 1)
			} else {
				c.Count("no_overhang_points", 1)
			}
			if (want == yes) != s.v[j].Contains(p) {
				c.Fail("overhang", "layer %d overhangs layer %d at (%.0f %.0f) (%.0f inside %v, %.0f off %v, limit %.0f): %v, but the area operations say %v", j+1, j, p.X, p.Y, s.s[j+1].Dist(p), s.s[j+1].Contains(p), s.s[j].Dist(p), s.s[j].Contains(p), d, want, s.v[j].Contains(p))
				return nil
			}
		}
	}
	return s
}

// column derives the support and the interface of all layers at p.
func (s *supportOracle) column(p Pt) (full, itf []tri) {
	const tol = 12
	n := len(s.s)
	full, itf = make([]tri, n), make([]tri, n)
	f := no
	for k := n - 1; k >= 0; k-- {
		full[k] = no
		itf[k] = no
		if k == n-1 {
			continue
		}
		raw := no
		if j := s.rawAt[k]; j >= 0 {
			raw = s.v[j].inOffThick(p, s.e, tol)
		}
		f = triOr(f, raw)
		if f != no {
			f = triAnd(f, s.s[k].inOffThick(p, s.gap, tol).not())
		}
		full[k] = f
		if s.itf > 0 {
			above := no
			if k+s.itf < n {
				above = full[k+s.itf]
			}
			itf[k] = triAnd(f, above.not())
		}
	}
	return
}

func runC11(c *Ctx, i int) {
	o := randOptions(c.Rand, optVary{geometry: true, support: true, brim: i%3 == 0})
	raise(c, &o)
	o.Print.Support.Enabled = i%20 != 7
	m := supportSolid(c.Rand, i)
	r := gcodeRunWith(c, i, m, o)
	if r == nil || len(r.Sliced) == 0 {
		return
	}
	if !o.Print.Support.Enabled {
		c.Count("without_support", 1)
		for k := range r.Layers {
			for _, a := range []string{"support", "supportInterface", "fullSupport"} {
				if p, _ := modifier.PartsAttribute(r.Layers[k], a); len(p) > 0 {
					c.Fail("disabled", "layer %d has %s although it is switched off", k, a)
				}
			}
			if len(r.G.layerStrokes(k, "SUPPORT", "")) > 0 {
				c.Fail("disabled", "layer %d prints support although it is switched off", k)
			}
		}
		return
	}
	s := newSupportOracle(c, r)
	if s == nil {
		return
	}
	var full, sup, itf []*Region
	for k := range r.Layers {
		var rs [3]*Region
		for n, a := range []string{"fullSupport", "support", "supportInterface"} {
			p, err := modifier.PartsAttribute(r.Layers[k], a)
			if err != nil {
				c.Fail("attribute", "layer %d: %v", k, err)
				return
			}
			rs[n] = regionOf(p)
		}
		full, sup, itf = append(full, rs[0]), append(sup, rs[1]), append(itf, rs[2])
	}
	brim := &Region{}
	if o.Print.BrimSkirt.BrimCount > 0 {
		p, _ := modifier.BrimOuterDimension(r.Layers[0])
		brim = regionOf(p)
		c.Count("brim_layers", 1)
	}
	judge := func(p Pt) bool {
		wf, wi := s.column(p)
		for k := range r.Layers {
			nf, ns, ni := full[k].Count(p), sup[k].Count(p), itf[k].Count(p)
			if full[k].Dist(p) < 8 || sup[k].Dist(p) < 8 || itf[k].Dist(p) < 8 {
				continue
			}
			switch wf[k] {
			case yes:
				c.Count("sure_support", 1)
				if nf != 1 {
					c.Fail("missing", "layer %d: (%.0f %.0f) has to be supported (in %d support areas)", k, p.X, p.Y, nf)
					return false
				}
			case no:
				c.Count("sure_no_support", 1)
				if nf+ns+ni > 0 {
					c.Fail("extra", "layer %d: (%.0f %.0f) must not be supported but lies in %d full, %d support, %d interface areas", k, p.X, p.Y, nf, ns, ni)
					return false
				}
				if s.s[k].Dist(p) < s.gap || s.s[k].Contains(p) {
					c.Count("gap_points", 1)
				}
				for j := k + 1; j < len(s.s) && j <= k+s.topGap; j++ {
					if s.s[j].Contains(p) && !s.s[j-1].Contains(p) {
						c.Count("top_gap_points", 1)
					}
				}
			}
			inBrim := no
			if k == 0 {
				inBrim = brim.in(p, 8)
			}
			if inBrim == unknown {
				continue
			}
			if inBrim == yes {
				if ns+ni > 0 {
					c.Fail("brim", "layer 0: support is printed on the brim at (%.0f %.0f)", p.X, p.Y)
					return false
				}
				continue
			}
			if nf == 1 && ns+ni != 1 {
				c.Fail("split", "layer %d: (%.0f %.0f) of the support is in %d support and %d interface areas", k, p.X, p.Y, ns, ni)
				return false
			}
			if nf == 0 && ns+ni > 0 {
				c.Fail("split", "layer %d: (%.0f %.0f) is printed but not part of the support", k, p.X, p.Y)
				return false
			}
			switch wi[k] {
			case yes:
				c.Count("sure_interface", 1)
				if ni != 1 {
					c.Fail("interface-missing", "layer %d: (%.0f %.0f) is within the top %d layers of the support but no interface", k, p.X, p.Y, s.itf)
					return false
				}
			case no:
				c.Count("sure_no_interface", 1)
				if ni > 0 {
					c.Fail("interface-extra", "layer %d: (%.0f %.0f) is not within the top %d layers of the support but in the interface", k, p.X, p.Y, s.itf)
					return false
				}
			}
		}
		return true
	}
	before := c.res.Counts["sure_support"]
	var vs, ss []Seg
	for j := range s.v {
		if s.v[j] != nil {
			vs = append(vs, s.v[j].segs...)
		}
		ss = append(ss, s.s[j].segs...)
	}
	if len(ss) == 0 {
		return
	}
	lo, hi := bboxSegs(ss)
	near := func(segs []Seg, d float64) Pt {
		sg := segs[c.Intn(len(segs))]
		l := sg.B.Sub(sg.A)
		if l.Len() == 0 {
			return sg.A
		}
		return lerp(sg.A, sg.B, c.Float64()).Add(Pt{-l.Y, l.X}.Mul(d / l.Len()))
	}
	for n := 0; n < 60; n++ {
		var p Pt
		switch {
		case n%4 == 0:
			p = Pt{rnd(c.Rand, lo.X-6000, hi.X+6000), rnd(c.Rand, lo.Y-6000, hi.Y+6000)}
		case n%4 == 1 && len(vs) > 0:
			p = near(vs, rnd(c.Rand, -1.6, 1.6)*s.e)
		case n%4 == 2 && len(vs) > 0:
			p = near(vs, (s.e+rnd(c.Rand, -80, 80))*float64(1-2*c.Intn(2)))
		default:
			p = near(ss, rnd(c.Rand, -1.5, 1.5)*s.gap)
		}
		if !judge(p) {
			return
		}
	}
	// what is printed is support
	for k := range r.Layers {
		st := r.G.layerStrokes(k, "SUPPORT", "")
		var lines []Seg
		for _, x := range st {
			lines = append(lines, segsOfOpen(x.Pts)...)
		}
		for n := 0; n < 5 && len(lines) > 0; n++ {
			l := lines[c.Intn(len(lines))]
			p := lerp(l.A, l.B, c.Float64())
			wf, _ := s.column(p)
			c.Count("printed_points", 1)
			if wf[k] == no && s.s[k].inOff(p, s.gap+12, 12) == yes {
				c.Fail("printed", "layer %d: support is printed too close to the model or inside of it at (%.0f %.0f)", k, p.X, p.Y)
				return
			}
			if wf[k] == no && full[k].Dist(p) > 25 && !full[k].Contains(p) {
				c.Fail("printed", "layer %d: support is printed at (%.0f %.0f) where none belongs", k, p.X, p.Y)
				return
			}
		}
		// a support area wider than the pattern holds at least one line
		if len(lines) == 0 && len(full[k].Parts) > 0 {
			sp := math.Round(float64(o.Print.Support.PatternSpacing) * 1000)
			for n := 0; n < 20; n++ {
				p := near(full[k].segs, rnd(c.Rand, -2, 2)*sp)
				if p.X > lo.X && p.X < hi.X && p.Y > lo.Y && p.Y < hi.Y && full[k].Contains(p) && full[k].Dist(p) > sp && (k > 0 || len(brim.Parts) == 0) {
					c.Fail("not-printed", "layer %d: nothing is printed in the support area around (%.0f %.0f)", k, p.X, p.Y)
					return
				}
			}
		}
	}
	c.Nontrivial(c.res.Counts["sure_support"] > before)
}
