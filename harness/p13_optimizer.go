package main

import (
	"bytes"
	"log"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
)

// C13: the optimized model.

func init() {
	register(&Prop{
		ID:    "C13",
		Rule:  "closed solids, cracked solids (every triangle has its own, slightly moved vertices), triangle soups with duplicated, turned, flipped and degenerate faces, and lattices whose coordinates collide in hashes, with random meld distances and centers; the optimized model is compared face by face with the given one; a case is non-trivial when faces were dropped, points melded or neighbours found",
		Quick: 40000, Deep: 1000000,
		Require: map[string]int{"faces": 200000, "dropped_degenerate": 5000, "dropped_duplicates": 5000, "neighbours": 100000, "open_edges": 20000, "melded_points": 20000, "watertight": 1000, "all_degenerate": 50, "crack_pairs": 5000},
		Assume:  []string{"points closer than the meld distance need not be merged, only most of those that are much closer"},
		Run:     runC13,
	})
}

type fakeFace [3]data.MicroVec3

func (f fakeFace) Points() [3]data.MicroVec3 { return f }

func mv3(v IV3) data.MicroVec3 {
	return data.NewMicroVec3(data.Micrometer(v.X), data.Micrometer(v.Y), data.Micrometer(v.Z))
}
func iv3(v data.MicroVec3) IV3 { return IV3{int64(v.X()), int64(v.Y()), int64(v.Z())} }

func (a IV3) sub(b IV3) IV3 { return IV3{a.X - b.X, a.Y - b.Y, a.Z - b.Z} }
func (a IV3) add(b IV3) IV3 { return IV3{a.X + b.X, a.Y + b.Y, a.Z + b.Z} }
func (a IV3) len2() int64   { return a.X*a.X + a.Y*a.Y + a.Z*a.Z }

func ibox(tris [][3]IV3) (lo, hi IV3) {
	lo, hi = tris[0][0], tris[0][0]
	for _, t := range tris {
		for _, v := range t {
			lo = IV3{min64(lo.X, v.X), min64(lo.Y, v.Y), min64(lo.Z, v.Z)}
			hi = IV3{max64(hi.X, v.X), max64(hi.Y, v.Y), max64(hi.Z, v.Z)}
		}
	}
	return
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// heldModel keeps the vectors, so that changes to them are seen.
type heldModel struct {
	faces []fakeFace
	lo    data.MicroVec3
	hi    data.MicroVec3
}

func holdModel(tris [][3]IV3) *heldModel {
	m := &heldModel{}
	for _, t := range tris {
		m.faces = append(m.faces, fakeFace{mv3(t[0]), mv3(t[1]), mv3(t[2])})
	}
	lo, hi := ibox(tris)
	m.lo, m.hi = mv3(lo), mv3(hi)
	return m
}

func (m *heldModel) FaceCount() int       { return len(m.faces) }
func (m *heldModel) Face(i int) data.Face { return m.faces[i] }
func (m *heldModel) Min() data.MicroVec3  { return m.lo.Copy() }
func (m *heldModel) Max() data.MicroVec3  { return m.hi.Copy() }
func (m *heldModel) same(t [][3]IV3) string {
	for i := range t {
		for j := range t[i] {
			if iv3(m.faces[i][j]) != t[i][j] {
				return sprint("face ", i, " vertex ", j)
			}
		}
	}
	return ""
}

func soup(r *rand.Rand, meld int64) (tris [][3]IV3, kind string, closed bool) {
	n := 4 + r.Intn(60)
	rv := func(s int64) IV3 {
		return IV3{r.Int63n(2*s+1) - s, r.Int63n(2*s+1) - s, r.Int63n(2*s+1) - s}
	}
	switch r.Intn(5) {
	case 0: // closed solid
		m := randSolid(r, SolidOpts{MaxH: 3, MaxR: 5, Ledges: true})
		p := place(m, int64(r.Intn(200000)-100000), int64(r.Intn(200000)-100000), int64(r.Intn(2000)-1000))
		return p.Tris, "solid", true
	case 1: // cracked solid
		m := randSolid(r, SolidOpts{MaxH: 3, MaxR: 5, Ledges: true})
		p := place(m, int64(r.Intn(20000)-10000), 0, 0)
		for i := range p.Tris {
			for j := range p.Tris[i] {
				p.Tris[i][j] = p.Tris[i][j].add(rv(meld / 20))
			}
		}
		return p.Tris, "cracked", false
	case 2: // soup with repetitions
		for k := 0; k < n; k++ {
			a := rv(20 * meld)
			t := [3]IV3{a, a.add(rv(30 * meld)), a.add(rv(30 * meld))}
			if len(tris) > 0 && r.Intn(2) == 0 {
				t = tris[r.Intn(len(tris))]
				switch r.Intn(4) {
				case 0:
					t = [3]IV3{t[1], t[2], t[0]}
				case 1:
					t = [3]IV3{t[2], t[1], t[0]}
				case 2:
					t[r.Intn(3)] = t[r.Intn(3)]
				}
			}
			if r.Intn(6) == 0 {
				t[1] = t[0].add(rv(meld/2 + 1))
			}
			tris = append(tris, t)
		}
		return tris, "soup", false
	case 3: // a lattice: many shared points, far from the origin, and collisions of simple hashes
		step := []int64{meld, meld * 1024, meld * 4, 3*meld + 1}[r.Intn(4)]
		sx, sy, sz := step, step, step
		dim := 3
		if r.Intn(3) == 0 { // different steps and many points: long lists of equal hashes
			f := func() int64 {
				return (meld + 1) * []int64{1, 2, 4, 16, 256, 1024, 4096, 1 << 10, 1 << 20}[r.Intn(9)]
			}
			sx, sy, sz = f(), f(), f()
			if r.Intn(2) == 0 {
				sx, sy, sz = meld*1024, meld*2, meld*1024
			}
			dim, n = 3+r.Intn(6), n*4
		}
		o := rv(1000 * meld)
		for k := 0; k < n; k++ {
			var t [3]IV3
			for j := range t {
				t[j] = o.add(IV3{int64(r.Intn(dim)) * sx, int64(r.Intn(dim)) * sy, int64(r.Intn(dim-1)) * sz})
			}
			tris = append(tris, t)
		}
		return tris, "lattice", false
	}
	// a strip that shrinks to nothing
	for k := 0; k < n; k++ {
		a := rv(3 * meld)
		tris = append(tris, [3]IV3{a, a.add(rv(2 * meld)), a.add(rv(2 * meld))})
	}
	return tris, "crowd", false
}

func runC13(c *Ctx, i int) {
	meld := int64(pickInt(c.Rand, 30, 30, 1, 2, 7, 100, 500, 5000))
	tris, kind, closed := soup(c.Rand, meld)
	if i%500 == 77 { // many faces
		m := sphereMesh(rnd(c.Rand, 20, 40), 80+c.Intn(60), 40+c.Intn(40))
		tris, kind, closed = place(m, 0, 0, 0).Tris, "large", true
	}
	if i%60 == 9 { // nothing is left
		kind, closed = "nothing", false
		for k := range tris {
			tris[k][1] = tris[k][0]
			if c.Intn(2) == 0 {
				tris[k][2] = tris[k][1]
			}
		}
	}
	ctr := IV3{int64(pickInt(c.Rand, 100000, 0, -5000, 57301)), int64(pickInt(c.Rand, 100000, 0, 42000, 91235)), int64(pickInt(c.Rand, 0, 0, 200, -300))}
	o := defaults()
	o.Slicing.MeldDistance = data.Micrometer(meld)
	o.Printer.Center = mv3(ctr)
	var logged bytes.Buffer
	o.GoSlice.Logger = log.New(&logged, "", 0)
	c.Name("%s-%d", kind, i)
	c.Key(meld, ctr, tris)
	in := holdModel(tris)
	om, err := optimizer.NewOptimizer(&o).Optimize(in)
	if d := in.same(tris); d != "" {
		c.Fail("mutated", "optimizing changed %s of the given model", d)
		return
	}
	if iv3(o.Printer.Center) != ctr {
		c.Fail("mutated", "optimizing changed the center in the options")
		return
	}
	if kind == "nothing" {
		c.Count("all_degenerate", 1)
		if err == nil {
			c.Fail("nothing", "a model without any usable face was accepted")
		}
		return
	}
	n := len(tris)
	if err != nil {
		// only if every face is degenerate within the meld distance
		for f := range tris {
			if !nearDegenerate(tris[f], 2*meld) {
				c.Fail("error", "%v, but face %d is usable: %v", err, f, tris[f])
				return
			}
		}
		return
	}
	// the position
	lo, hi := ibox(tris)
	var out [][3]IV3
	for g := 0; g < om.FaceCount(); g++ {
		var t [3]IV3
		for j, p := range om.OptimizedFace(g).Points() {
			t[j] = iv3(p)
		}
		q := om.Face(g).Points()
		if iv3(q[0]) != t[0] || iv3(q[1]) != t[1] || iv3(q[2]) != t[2] {
			c.Fail("face", "Face and OptimizedFace differ at face %d", g)
			return
		}
		of := om.OptimizedFace(g)
		if int64(of.MinZ()) != min64(t[0].Z, min64(t[1].Z, t[2].Z)) || int64(of.MaxZ()) != max64(t[0].Z, max64(t[1].Z, t[2].Z)) {
			c.Fail("z", "face %d %v reports the heights %d to %d", g, t, of.MinZ(), of.MaxZ())
			return
		}
		out = append(out, t)
	}
	c.Count("faces", n)
	if s := iv3(om.Size()); s != hi.sub(lo) {
		c.Fail("size", "the size is %v instead of %v", s, hi.sub(lo))
		return
	}
	olo, ohi := ibox(out)
	if iv3(om.Min()) != olo || iv3(om.Max()) != ohi {
		c.Fail("bounds", "the bounds are %v %v instead of %v %v", iv3(om.Min()), iv3(om.Max()), olo, ohi)
		return
	}
	given := map[IV3]bool{}
	for _, t := range tris {
		for _, v := range t {
			given[v] = true
		}
	}
	var off IV3
	ok := false
	for dx := int64(-1); dx <= 1 && !ok; dx++ {
		for dy := int64(-1); dy <= 1 && !ok; dy++ {
			off = IV3{(lo.X+hi.X)/2 - ctr.X + dx, (lo.Y+hi.Y)/2 - ctr.Y + dy, lo.Z - ctr.Z}
			if absI(2*(off.X+ctr.X)-lo.X-hi.X) > 1 || absI(2*(off.Y+ctr.Y)-lo.Y-hi.Y) > 1 {
				continue
			}
			ok = true
			for _, t := range out {
				for _, v := range t {
					ok = ok && given[v.add(off)]
				}
			}
		}
	}
	if !ok {
		c.Fail("placement", "the vertices are not those of the given model moved so that it is centered on %v: given %v to %v, placed %v to %v", ctr, lo, hi, olo, ohi)
		return
	}
	for g := range out {
		for j := range out[g] {
			out[g][j] = out[g][j].add(off)
		}
	}
	// no degenerate faces, no duplicates, the neighbours
	vset := func(t [3]IV3) [3]IV3 {
		less := func(a, b IV3) bool {
			return a.X < b.X || a.X == b.X && (a.Y < b.Y || a.Y == b.Y && a.Z < b.Z)
		}
		if less(t[1], t[0]) {
			t[0], t[1] = t[1], t[0]
		}
		if less(t[2], t[1]) {
			t[1], t[2] = t[2], t[1]
		}
		if less(t[1], t[0]) {
			t[0], t[1] = t[1], t[0]
		}
		return t
	}
	seen := map[[3]IV3]int{}
	edges := map[[2]IV3][]int{}
	ekey := func(a, b IV3) [2]IV3 {
		if b.X < a.X || a.X == b.X && (b.Y < a.Y || a.Y == b.Y && b.Z < a.Z) {
			a, b = b, a
		}
		return [2]IV3{a, b}
	}
	for g, t := range out {
		if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
			c.Fail("degenerate", "face %d has two equal vertices: %v", g, t)
			return
		}
		if h, dup := seen[vset(t)]; dup {
			c.Fail("duplicate", "faces %d and %d have the same vertices: %v", h, g, t)
			return
		}
		seen[vset(t)] = g
		for j := 0; j < 3; j++ {
			k := ekey(t[j], t[(j+1)%3])
			edges[k] = append(edges[k], g)
		}
	}
	open := 0
	for g, t := range out {
		touch := om.OptimizedFace(g).TouchingFaceIndices()
		for j := 0; j < 3; j++ {
			all := edges[ekey(t[j], t[(j+1)%3])]
			if touch[j] == -1 {
				open++
				c.Count("open_edges", 1)
				if len(all) > 1 {
					c.Fail("neighbour-missing", "face %d has no neighbour at edge %d although %v share it", g, j, all)
					return
				}
				continue
			}
			c.Count("neighbours", 1)
			found := false
			for _, h := range all {
				found = found || h == touch[j]
			}
			if !found || touch[j] == g {
				c.Fail("neighbour", "face %d names %d as neighbour at edge %d, but the edge belongs to %v", g, touch[j], j, all)
				return
			}
		}
	}
	if got, ok := loggedOpen(logged.String()); !ok || got != open {
		c.Fail("open-faces", "%d open faces are reported instead of %d: %q", got, open, logged.String())
		return
	}
	// every face comes from a given one
	m2 := meld * meld
	near := func(a, b [3]IV3) bool {
		return a[0].sub(b[0]).len2() <= m2 && a[1].sub(b[1]).len2() <= m2 && a[2].sub(b[2]).len2() <= m2
	}
	turn := func(t [3]IV3, k int) [3]IV3 { return [3]IV3{t[k%3], t[(k+1)%3], t[(k+2)%3]} }
	flip := func(t [3]IV3) [3]IV3 { return [3]IV3{t[2], t[1], t[0]} }
	match := func(a, b [3]IV3) (same, flipped bool) {
		for k := 0; k < 3; k++ {
			same = same || near(a, turn(b, k))
			flipped = flipped || near(a, turn(flip(b), k))
		}
		return
	}
	grid := map[IV3][]int{} // faces by the cell of their first vertices
	cell := func(v IV3) IV3 { return IV3{floorDiv(v.X, meld), floorDiv(v.Y, meld), floorDiv(v.Z, meld)} }
	around := func(m map[IV3][]int, v IV3, f func(int) bool) {
		q := cell(v)
		for x := int64(-1); x <= 1; x++ {
			for y := int64(-1); y <= 1; y++ {
				for z := int64(-1); z <= 1; z++ {
					for _, g := range m[q.add(IV3{x, y, z})] {
						if f(g) {
							return
						}
					}
				}
			}
		}
	}
	igrid := map[IV3][]int{}
	for g, t := range out {
		for _, v := range t {
			grid[cell(v)] = append(grid[cell(v)], g)
		}
	}
	for f, t := range tris {
		for _, v := range t {
			igrid[cell(v)] = append(igrid[cell(v)], f)
		}
	}
	for g, t := range out {
		ok := false
		around(igrid, t[0], func(f int) bool {
			s, _ := match(tris[f], t)
			ok = ok || s
			return ok
		})
		if !ok {
			c.Fail("invented", "face %d %v is no face of the given model (up to the meld distance %d)", g, t, meld)
			return
		}
	}
	exact := map[[3]IV3]bool{}
	for _, t := range out {
		exact[vset(t)] = true
	}
	dropped := false
	for f, t := range tris {
		s, fl := false, false
		around(grid, t[0], func(g int) bool {
			a, b := match(t, out[g])
			s, fl = s || a, fl || b
			return s
		})
		if !s && !fl {
			if !nearDegenerate(t, 2*meld) {
				c.Fail("lost", "face %d %v is missing", f, t)
				return
			}
			c.Count("dropped_degenerate", 1)
			dropped = true
			continue
		}
		if nearDegenerate(t, 0) {
			c.Count("dropped_degenerate", 1)
			dropped = true
			continue
		}
		if !s {
			// only flipped: there has to be another given face which is flipped
			ok := false
			around(igrid, t[0], func(h int) bool {
				_, b := match(t, tris[h])
				ok = ok || b
				return ok
			})
			// its vertices may also be further away
			if !ok && !nearDegenerate(t, 4*meld) {
				others := 0
				around(igrid, t[0], func(h int) bool {
					if h != f {
						others++
					}
					return others > 0
				})
				if others == 0 {
					c.Fail("flipped", "face %d %v is flipped", f, t)
					return
				}
			}
		}
		if !exact[vset(t)] {
			c.Count("melded_points", 1)
			dropped = true
		}
	}
	if len(out) < n {
		c.Count("dropped_duplicates", n-len(out))
	}
	if closed {
		// nothing of a clean solid may change
		clean := true
		uniq := []IV3{}
		for v := range given {
			uniq = append(uniq, v)
		}
		vg := map[IV3][]int{}
		for k, v := range uniq {
			around(vg, v, func(h int) bool {
				clean = clean && uniq[h].sub(v).len2() > m2
				return !clean
			})
			vg[cell(v)] = append(vg[cell(v)], k)
		}
		dups := map[[3]IV3]bool{}
		for _, t := range tris {
			clean = clean && !dups[vset(t)]
			dups[vset(t)] = true
		}
		if clean {
			c.Count("watertight", 1)
			if len(out) != n || open > 0 {
				c.Fail("watertight", "a watertight solid with %d faces has %d faces and %d open ones afterwards", n, len(out), open)
				return
			}
		}
	}
	if kind == "cracked" && meld >= 100 {
		// of the points that are much closer than the distance, most have to be merged
		used := map[IV3]bool{}
		for _, t := range out {
			for _, v := range t {
				used[v] = true
			}
		}
		p := len(given)
		lim := 0
		for v := range used {
			_ = v
			lim++
		}
		c.Count("crack_pairs", p)
		c.Max("points_kept_of_cracked_percent", 100*float64(lim)/float64(p))
		if p > 200 && lim > p*6/10 {
			c.Fail("not-melded", "%d of %d points are left although the vertices of neighbouring faces are at most %d µm apart with a meld distance of %d", lim, p, 2*meld/20, meld)
			return
		}
	}
	c.Nontrivial(dropped || open < 3*len(out))
}

func nearDegenerate(t [3]IV3, d int64) bool {
	d2 := d * d
	return t[0].sub(t[1]).len2() <= d2 || t[1].sub(t[2]).len2() <= d2 || t[0].sub(t[2]).len2() <= d2
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func floorDiv(a, b int64) int64 { return int64(math.Floor(float64(a) / float64(b))) }

func loggedOpen(s string) (int, bool) {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "open faces") {
			f := strings.Fields(l)
			n, err := strconv.Atoi(f[len(f)-1])
			return n, err == nil
		}
	}
	return 0, false
}
