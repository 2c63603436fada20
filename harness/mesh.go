package main

// Workload generator: watertight solids (millimeters), hostile triangle soups, and STL encoders.
// Also the independent cross-section oracle for a mesh.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
)

func sortPts(p []Pt) {
	sort.Slice(p, func(i, j int) bool {
		if p[i].X != p[j].X {
			return p[i].X < p[j].X
		}
		return p[i].Y < p[j].Y
	})
}

type V3 struct{ X, Y, Z float64 }

func (a V3) Add(b V3) V3 { return V3{a.X + b.X, a.Y + b.Y, a.Z + b.Z} }

type Tri [3]V3

type Mesh struct {
	Name string
	Tris []Tri
}

func f32(v float64) float64 { return float64(float32(v)) }

func (m *Mesh) tri(a, b, c V3) {
	if a == b || b == c || a == c {
		return
	}
	m.Tris = append(m.Tris, Tri{a, b, c})
}

// Each vertex is rounded to what an STL file can hold, so that the oracle sees the same numbers as the reader.
func (m *Mesh) Round32() *Mesh {
	for i := range m.Tris {
		for j := range m.Tris[i] {
			v := &m.Tris[i][j]
			v.X, v.Y, v.Z = f32(v.X), f32(v.Y), f32(v.Z)
		}
	}
	return m
}

func (m *Mesh) Map(f func(V3) V3) *Mesh {
	for i := range m.Tris {
		for j := range m.Tris[i] {
			m.Tris[i][j] = f(m.Tris[i][j])
		}
	}
	return m
}

func (m *Mesh) Translate(d V3) *Mesh { return m.Map(func(v V3) V3 { return v.Add(d) }) }

func (m *Mesh) Append(o *Mesh) *Mesh {
	m.Tris = append(m.Tris, o.Tris...)
	return m
}

func (m *Mesh) Clone() *Mesh {
	return &Mesh{Name: m.Name, Tris: append([]Tri(nil), m.Tris...)}
}

func (m *Mesh) BBox() (lo, hi V3) {
	lo = V3{math.Inf(1), math.Inf(1), math.Inf(1)}
	hi = V3{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
	for _, t := range m.Tris {
		for _, v := range t {
			lo.X, lo.Y, lo.Z = math.Min(lo.X, v.X), math.Min(lo.Y, v.Y), math.Min(lo.Z, v.Z)
			hi.X, hi.Y, hi.Z = math.Max(hi.X, v.X), math.Max(hi.Y, v.Y), math.Max(hi.Z, v.Z)
		}
	}
	return
}

func (m *Mesh) RotateXYZ(ax, ay, az float64) *Mesh {
	sx, cx := math.Sincos(ax)
	sy, cy := math.Sincos(ay)
	sz, cz := math.Sincos(az)
	return m.Map(func(v V3) V3 {
		v = V3{v.X, v.Y*cx - v.Z*sx, v.Y*sx + v.Z*cx}
		v = V3{v.X*cy + v.Z*sy, v.Y, -v.X*sy + v.Z*cy}
		return V3{v.X*cz - v.Y*sz, v.X*sz + v.Y*cz, v.Z}
	})
}

// ---- solids ----

type Level struct {
	Z, S   float64 // height and scale
	DX, DY float64
}

// loft builds a closed solid whose cross-section is the star shaped profile r, scaled and moved per level.
// flip reverses all faces (used for the inner wall of tubes); caps says whether to close bottom and top.
func loft(levels []Level, r []float64, th0 float64, caps, flip bool) *Mesh {
	n := len(r)
	m := &Mesh{}
	ring := func(l Level) []V3 {
		o := make([]V3, n)
		for j := range o {
			a := th0 + 2*math.Pi*float64(j)/float64(n)
			o[j] = V3{l.DX + l.S*r[j]*math.Cos(a), l.DY + l.S*r[j]*math.Sin(a), l.Z}
			if l.S == 0 {
				o[j] = V3{l.DX, l.DY, l.Z}
			}
		}
		return o
	}
	add := func(a, b, c V3) {
		if flip {
			m.tri(a, c, b)
		} else {
			m.tri(a, b, c)
		}
	}
	var prev []V3
	for i, l := range levels {
		cur := ring(l)
		if i > 0 {
			for j := 0; j < n; j++ {
				k := (j + 1) % n
				if (i+j)%2 == 0 {
					add(prev[j], prev[k], cur[k])
					add(prev[j], cur[k], cur[j])
				} else {
					add(prev[j], prev[k], cur[j])
					add(prev[k], cur[k], cur[j])
				}
			}
		}
		prev = cur
	}
	if caps {
		b, t := levels[0], levels[len(levels)-1]
		rb, rt := ring(b), ring(t)
		for j := 0; j < n; j++ {
			k := (j + 1) % n
			add(V3{b.DX, b.DY, b.Z}, rb[k], rb[j])
			add(V3{t.DX, t.DY, t.Z}, rt[j], rt[k])
		}
	}
	return m
}

// tube is a loft with a concentric hole (inner profile = hole * outer profile on every level).
func tube(levels []Level, r []float64, th0, hole float64) *Mesh {
	m := loft(levels, r, th0, false, false)
	in := make([]Level, len(levels))
	copy(in, levels)
	for i := range in {
		in[i].S *= hole
	}
	m.Append(loft(in, r, th0, false, true))
	n := len(r)
	at := func(l Level, s float64, j int) V3 {
		a := th0 + 2*math.Pi*float64(j)/float64(n)
		return V3{l.DX + s*r[j]*math.Cos(a), l.DY + s*r[j]*math.Sin(a), l.Z}
	}
	b, t := levels[0], levels[len(levels)-1]
	for j := 0; j < n; j++ {
		k := (j + 1) % n
		o0, o1, i0, i1 := at(b, b.S, j), at(b, b.S, k), at(b, b.S*hole, j), at(b, b.S*hole, k)
		m.tri(o0, i1, o1)
		m.tri(o0, i0, i1)
		o0, o1, i0, i1 = at(t, t.S, j), at(t, t.S, k), at(t, t.S*hole, j), at(t, t.S*hole, k)
		m.tri(o0, o1, i1)
		m.tri(o0, i1, i0)
	}
	return m
}

func circleProfile(n int, r float64) []float64 {
	p := make([]float64, n)
	for i := range p {
		p[i] = r
	}
	return p
}

func boxMesh(w, d, h float64) *Mesh {
	return prismMesh([]Pt{{0, 0}, {w, 0}, {w, d}, {0, d}}, 0, h)
}

// prismMesh extrudes a simple polygon (CCW, mm).
func prismMesh(poly []Pt, z0, z1 float64) *Mesh {
	m := &Mesh{}
	n := len(poly)
	for i := range poly {
		a, b := poly[i], poly[(i+1)%n]
		m.tri(V3{a.X, a.Y, z0}, V3{b.X, b.Y, z0}, V3{b.X, b.Y, z1})
		m.tri(V3{a.X, a.Y, z0}, V3{b.X, b.Y, z1}, V3{a.X, a.Y, z1})
	}
	for _, t := range earClip(poly) {
		a, b, c := poly[t[0]], poly[t[1]], poly[t[2]]
		m.tri(V3{a.X, a.Y, z1}, V3{b.X, b.Y, z1}, V3{c.X, c.Y, z1})
		m.tri(V3{a.X, a.Y, z0}, V3{c.X, c.Y, z0}, V3{b.X, b.Y, z0})
	}
	return m
}

func earClip(poly []Pt) [][3]int {
	idx := make([]int, len(poly))
	for i := range idx {
		idx[i] = i
	}
	var out [][3]int
	for guard := 0; len(idx) > 3 && guard < 10000; guard++ {
		cut := false
		for i := range idx {
			a, b, c := idx[(i+len(idx)-1)%len(idx)], idx[i], idx[(i+1)%len(idx)]
			A, B, C := poly[a], poly[b], poly[c]
			if B.Sub(A).Cross(C.Sub(B)) <= 0 {
				continue
			}
			ok := true
			for _, k := range idx {
				if k == a || k == b || k == c {
					continue
				}
				P := poly[k]
				if B.Sub(A).Cross(P.Sub(A)) >= 0 && C.Sub(B).Cross(P.Sub(B)) >= 0 && A.Sub(C).Cross(P.Sub(C)) >= 0 {
					ok = false
					break
				}
			}
			if ok {
				out = append(out, [3]int{a, b, c})
				idx = append(idx[:i], idx[i+1:]...)
				cut = true
				break
			}
		}
		if !cut {
			break
		}
	}
	if len(idx) == 3 {
		out = append(out, [3]int{idx[0], idx[1], idx[2]})
	}
	return out
}

func torusMesh(R, r float64, nu, nv int) *Mesh {
	m := &Mesh{}
	p := func(i, j int) V3 {
		a := 2 * math.Pi * float64(i%nu) / float64(nu)
		b := 2 * math.Pi * float64(j%nv) / float64(nv)
		return V3{(R + r*math.Cos(b)) * math.Cos(a), (R + r*math.Cos(b)) * math.Sin(a), r * math.Sin(b)}
	}
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			m.tri(p(i, j), p(i+1, j), p(i+1, j+1))
			m.tri(p(i, j), p(i+1, j+1), p(i, j+1))
		}
	}
	return m
}

func sphereMesh(r float64, nu, nv int) *Mesh {
	var lv []Level
	for i := 0; i <= nv; i++ {
		a := math.Pi * float64(i) / float64(nv)
		s := math.Sin(a)
		if i == 0 || i == nv {
			s = 0
		}
		lv = append(lv, Level{Z: -r * math.Cos(a), S: s})
	}
	return loft(lv, circleProfile(nu, r), 0, false, false)
}

// SolidOpts tunes randSolid.
type SolidOpts struct {
	MaxH    float64 // mm
	MaxR    float64 // mm
	NoTiny  bool    // no cross-section component thinner than about 1.5 mm
	Flat    bool    // flat horizontal bottom and top (no tips)
	NoRot3D bool
	Ledges  bool // allow horizontal ledges (overhangs)
}

func rnd(r *rand.Rand, lo, hi float64) float64 { return lo + r.Float64()*(hi-lo) }
func pick(r *rand.Rand, xs ...float64) float64 { return xs[r.Intn(len(xs))] }

func snap(v, g float64) float64 { return math.Round(v/g) * g }

func randProfile(r *rand.Rand, maxR float64, minRatio float64) []float64 {
	var n int
	switch r.Intn(4) {
	case 0:
		n = 4
	case 1:
		n = 3 + r.Intn(4)
	case 2:
		n = 6 + r.Intn(12)
	default:
		n = 24 + r.Intn(40)
	}
	p := make([]float64, n)
	base := rnd(r, maxR*0.5, maxR)
	kind := r.Intn(3)
	k := 2 + r.Intn(4)
	amp := rnd(r, 0.05, 0.35)
	for i := range p {
		switch kind {
		case 0:
			p[i] = base
		case 1:
			p[i] = base * rnd(r, minRatio, 1)
		default:
			p[i] = base * (1 - amp + amp*math.Cos(float64(k)*2*math.Pi*float64(i)/float64(n)))
		}
	}
	return p
}

func randLevels(r *rand.Rand, o SolidOpts, grid float64) []Level {
	h := snap(rnd(r, o.MaxH*0.3, o.MaxH), grid)
	if h < 3*grid {
		h = 3 * grid
	}
	k := 1 + r.Intn(4)
	zs := []float64{0}
	for i := 1; i < k; i++ {
		z := rnd(r, 0, h)
		if r.Intn(2) == 0 {
			z = snap(z, grid)
		}
		zs = append(zs, z)
	}
	zs = append(zs, h)
	sort.Float64s(zs)
	var lv []Level
	for i, z := range zs {
		if i > 0 && z-zs[i-1] < 0.15 {
			continue
		}
		l := Level{Z: z, S: rnd(r, 0.45, 1)}
		if r.Intn(3) == 0 && len(lv) > 0 {
			l.S = lv[len(lv)-1].S
		}
		if r.Intn(4) == 0 {
			l.DX, l.DY = rnd(r, -1, 1), rnd(r, -1, 1)
		} else if len(lv) > 0 {
			l.DX, l.DY = lv[len(lv)-1].DX, lv[len(lv)-1].DY
		}
		lv = append(lv, l)
		if o.Ledges && i > 0 && i < len(zs)-1 && r.Intn(2) == 0 {
			l2 := l
			l2.S = rnd(r, 0.45, 1)
			if math.Abs(l2.S-l.S) > 0.05 {
				lv = append(lv, l2)
			}
		}
	}
	if lv[len(lv)-1].Z < h {
		l := lv[len(lv)-1]
		if h-l.Z >= 0.15 {
			l.Z = h
			lv = append(lv, l)
		} else {
			lv[len(lv)-1].Z = h
		}
	}
	return lv
}

// randSolid returns a watertight solid (possibly several disjoint bodies).
func randSolid(r *rand.Rand, o SolidOpts) *Mesh {
	if o.MaxH == 0 {
		o.MaxH = 6
	}
	if o.MaxR == 0 {
		o.MaxR = 6
	}
	grid := pick(r, 0.1, 0.2, 0.25, 0.07)
	one := func(maxR float64) (*Mesh, string) {
		minRatio := 0.5
		switch k := r.Intn(12); {
		case k < 2:
			w, d := snap(rnd(r, maxR*0.6, maxR*1.6), 0.05), snap(rnd(r, maxR*0.6, maxR*1.6), 0.05)
			h := snap(rnd(r, 0.6, o.MaxH), grid)
			if h < 2*grid {
				h = 2 * grid
			}
			m := boxMesh(w, d, h)
			return m.Translate(V3{-w / 2, -d / 2, 0}), "box"
		case k < 6:
			p := randProfile(r, maxR, minRatio)
			return loft(randLevels(r, o, grid), p, rnd(r, 0, 6), true, false), "loft"
		case k < 9:
			p := randProfile(r, maxR, 0.75)
			return tube(randLevels(r, o, grid), p, rnd(r, 0, 6), rnd(r, 0.3, 0.6)), "tube"
		case k < 10 && !o.Flat:
			return torusMesh(maxR*0.65, rnd(r, maxR*0.15, maxR*0.3), 8+r.Intn(24), 6+r.Intn(10)), "torus"
		case k < 11 && !o.Flat:
			return sphereMesh(rnd(r, o.MaxH*0.3, o.MaxH*0.5), 8+r.Intn(20), 5+r.Intn(10)), "sphere"
		default:
			// L / U / T shaped prism
			a := rnd(r, maxR*0.5, maxR)
			t := rnd(r, maxR*0.25, maxR*0.45)
			h := snap(rnd(r, 0.8, o.MaxH), grid)
			var poly []Pt
			switch r.Intn(3) {
			case 0:
				poly = []Pt{{0, 0}, {2 * a, 0}, {2 * a, t}, {t, t}, {t, 2 * a}, {0, 2 * a}}
			case 1:
				poly = []Pt{{0, 0}, {2 * a, 0}, {2 * a, 2 * a}, {2*a - t, 2 * a}, {2*a - t, t}, {t, t}, {t, 2 * a}, {0, 2 * a}}
			default:
				poly = []Pt{{a - t/2, 0}, {a + t/2, 0}, {a + t/2, a}, {2 * a, a}, {2 * a, a + t}, {0, a + t}, {0, a}, {a - t/2, a}}
			}
			m := prismMesh(poly, 0, h)
			return m.Translate(V3{-a, -a, 0}), "poly"
		}
	}
	m := &Mesh{}
	kind := r.Intn(6)
	if r.Intn(14) == 0 {
		kind = 6
	}
	switch kind {
	case 6:
		m = richSolid(r, o)
		if r.Intn(4) == 0 && !o.NoRot3D && !o.Flat {
			m.RotateXYZ(rnd(r, 0, 6), rnd(r, 0, 6), 0)
		}
	case 0: // several bodies side by side
		n := 2 + r.Intn(3)
		m.Name = "multi"
		for i := 0; i < n; i++ {
			b, nm := one(o.MaxR * 0.6)
			lo, _ := b.BBox()
			b.Translate(V3{float64(i) * o.MaxR * 1.9, rnd(r, -3, 3), -lo.Z})
			m.Append(b)
			m.Name += "+" + nm
		}
	case 1: // island inside the hole of a tube
		h := snap(rnd(r, 1, o.MaxH), grid)
		p := randProfile(r, o.MaxR, 0.85)
		m = tube([]Level{{Z: 0, S: 1}, {Z: h, S: 1}}, p, 0, 0.6)
		m.Append(loft([]Level{{Z: 0, S: 0.35}, {Z: snap(h*rnd(r, 0.4, 1), grid), S: 0.3}}, p, 0, true, false))
		m.Name = "island"
	case 2: // rotated in space
		if !o.NoRot3D && !o.Flat {
			b, nm := one(o.MaxR)
			m = b.RotateXYZ(rnd(r, 0, 6), rnd(r, 0, 6), rnd(r, 0, 6))
			m.Name = "rot3d-" + nm
			break
		}
		fallthrough
	default:
		b, nm := one(o.MaxR)
		m = b
		m.Name = nm
	}
	if r.Intn(3) > 0 {
		m.RotateXYZ(0, 0, rnd(r, 0, 2*math.Pi))
	}
	if r.Intn(2) == 0 {
		m.Translate(V3{rnd(r, -50, 50), rnd(r, -50, 50), rnd(r, -20, 20)})
	}
	// shuffle the triangles and rotate their vertices: their order in the file means nothing
	if r.Intn(2) == 0 {
		r.Shuffle(len(m.Tris), func(i, j int) { m.Tris[i], m.Tris[j] = m.Tris[j], m.Tris[i] })
		for i := range m.Tris {
			for k := r.Intn(3); k > 0; k-- {
				t := m.Tris[i]
				m.Tris[i] = Tri{t[1], t[2], t[0]}
			}
		}
	}
	return m.Round32()
}

// ---- STL encodings ----

func (m *Mesh) BinarySTL(header string) []byte {
	var b bytes.Buffer
	h := make([]byte, 80)
	copy(h, header)
	b.Write(h)
	binary.Write(&b, binary.LittleEndian, uint32(len(m.Tris)))
	for _, t := range m.Tris {
		var f [12]float32
		for i, v := range t {
			f[3+3*i], f[4+3*i], f[5+3*i] = float32(v.X), float32(v.Y), float32(v.Z)
		}
		binary.Write(&b, binary.LittleEndian, f)
		b.Write([]byte{0, 0})
	}
	return b.Bytes()
}

func (m *Mesh) AsciiSTL(name string, style int) []byte {
	var b bytes.Buffer
	fm := func(v float64) string {
		switch style % 3 {
		case 0:
			return fmt.Sprintf("%g", float32(v))
		case 1:
			return fmt.Sprintf("%.9e", float32(v))
		default:
			return fmt.Sprintf("%.8f", float32(v))
		}
	}
	in := "  "
	if style%2 == 1 {
		in = "\t"
	}
	fmt.Fprintf(&b, "solid %s\n", name)
	for _, t := range m.Tris {
		fmt.Fprintf(&b, "%sfacet normal 0 0 0\n%s%souter loop\n", in, in, in)
		for _, v := range t {
			fmt.Fprintf(&b, "%s%s%svertex %s %s %s\n", in, in, in, fm(v.X), fm(v.Y), fm(v.Z))
		}
		fmt.Fprintf(&b, "%s%sendloop\n%sendfacet\n", in, in, in)
	}
	fmt.Fprintf(&b, "endsolid %s\n", name)
	return b.Bytes()
}

// ---- the independent view of the mesh: micrometer grid, placed on the build plate ----

type IV3 struct{ X, Y, Z int64 }

func toUm(v float64) int64 { return int64(math.RoundToEven(float64(float32(v) * 1000))) }

type Placed struct {
	Tris   [][3]IV3
	Lo, Hi IV3 // after placement
	Size   IV3
}

// place puts the mesh where the documentation says: centered in X/Y on center, its lowest point on center.Z.
func place(m *Mesh, cx, cy, cz int64) *Placed {
	p := &Placed{}
	lo := IV3{math.MaxInt64, math.MaxInt64, math.MaxInt64}
	hi := IV3{math.MinInt64, math.MinInt64, math.MinInt64}
	mn := func(a *int64, b int64) {
		if b < *a {
			*a = b
		}
	}
	mx := func(a *int64, b int64) {
		if b > *a {
			*a = b
		}
	}
	for _, t := range m.Tris {
		var q [3]IV3
		for i, v := range t {
			q[i] = IV3{toUm(v.X), toUm(v.Y), toUm(v.Z)}
			mn(&lo.X, q[i].X)
			mn(&lo.Y, q[i].Y)
			mn(&lo.Z, q[i].Z)
			mx(&hi.X, q[i].X)
			mx(&hi.Y, q[i].Y)
			mx(&hi.Z, q[i].Z)
		}
		p.Tris = append(p.Tris, q)
	}
	ox, oy, oz := (lo.X+hi.X)/2-cx, (lo.Y+hi.Y)/2-cy, lo.Z-cz
	for i := range p.Tris {
		for j := range p.Tris[i] {
			v := &p.Tris[i][j]
			v.X -= ox
			v.Y -= oy
			v.Z -= oz
		}
	}
	p.Lo = IV3{lo.X - ox, lo.Y - oy, lo.Z - oz}
	p.Hi = IV3{hi.X - ox, hi.Y - oy, hi.Z - oz}
	p.Size = IV3{hi.X - lo.X, hi.Y - lo.Y, hi.Z - lo.Z}
	return p
}

// Section is the cross-section at height z; a horizontal face in the plane belongs to the material below it.
// Segments are directed so that the material is on their left for outward facing triangles.
func (p *Placed) Section(z int64) []Seg {
	var out []Seg
	for _, t := range p.Tris {
		b := [3]bool{t[0].Z < z, t[1].Z < z, t[2].Z < z}
		if b[0] == b[1] && b[1] == b[2] {
			continue
		}
		// find the edge going from below to above and the one going down
		var up, down Pt
		for i := 0; i < 3; i++ {
			u, v := t[i], t[(i+1)%3]
			if b[i] == b[(i+1)%3] {
				continue
			}
			// always from the lower end, so that both triangles at the edge get the very same point
			lo, hi := u, v
			if !b[i] {
				lo, hi = v, u
			}
			f := float64(z-lo.Z) / float64(hi.Z-lo.Z)
			pt := Pt{float64(lo.X) + f*float64(hi.X-lo.X), float64(lo.Y) + f*float64(hi.Y-lo.Y)}
			if b[i] {
				up = pt
			} else {
				down = pt
			}
		}
		if up != down {
			out = append(out, Seg{down, up})
		}
	}
	return out
}

// chainLoops joins directed segments with equal end points to closed loops; open reports leftovers.
func chainLoops(segs []Seg) (loops [][]Pt, open int) {
	next := map[Pt][]int{}
	for i, s := range segs {
		next[s.A] = append(next[s.A], i)
	}
	used := make([]bool, len(segs))
	for i := range segs {
		if used[i] {
			continue
		}
		var loop []Pt
		k := i
		for {
			used[k] = true
			loop = append(loop, segs[k].A)
			end := segs[k].B
			if end == segs[i].A {
				loops = append(loops, loop)
				break
			}
			k = -1
			for _, j := range next[end] {
				if !used[j] {
					k = j
					break
				}
			}
			if k < 0 {
				open++
				break
			}
		}
	}
	return
}
