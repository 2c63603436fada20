package main

import (
	"fmt"
	"math"
	"math/rand"
)

// richSolid returns a watertight solid with many holes, islands, bodies, layers or faces, or with tips.
func richSolid(r *rand.Rand, o SolidOpts) *Mesh {
	for {
		var m *Mesh
		switch k := r.Intn(20); {
		case k < 11:
			m = voxelSolid(r, o)
		case k < 14:
			m = tipSolid(r, o)
		case k < 16: // a high, thin tower
			h := rnd(r, 4, 12) * o.MaxH
			m = boxMesh(rnd(r, 1.1, 1.6), rnd(r, 1.1, 1.6), h)
			m.Name = "tall"
		case k < 18: // many small faces
			n := 100 + r.Intn(200)
			m = loft([]Level{{Z: 0, S: 1}, {Z: rnd(r, 0.3, 0.7) * o.MaxH, S: rnd(r, 0.6, 1)}}, circleProfile(n, o.MaxR*rnd(r, 0.5, 1)), rnd(r, 0, 6), true, false)
			m.Name = "round"
		default:
			if o.Flat {
				continue
			}
			m = sphereMesh(o.MaxH*rnd(r, 0.3, 0.5), 30+r.Intn(40), 20+r.Intn(30))
			m.Name = "fine"
		}
		return m
	}
}

// tipSolid has an apex at the top, the bottom or both, so the last or first sections vanish.
func tipSolid(r *rand.Rand, o SolidOpts) *Mesh {
	p := randProfile(r, o.MaxR, 0.6)
	h := snap(rnd(r, 0.3, 1)*o.MaxH, 0.1) + 0.3
	tip := pick(r, 0, 0, 0.06)
	var lv []Level
	name := "cone"
	switch {
	case o.Flat || r.Intn(2) == 0:
		lv = []Level{{Z: 0, S: 1}, {Z: h, S: tip}}
		if r.Intn(2) == 0 {
			lv = []Level{{Z: 0, S: 1}, {Z: h / 2, S: 0.8}, {Z: h, S: tip, DX: rnd(r, -1, 1)}}
		}
	case r.Intn(2) == 0:
		name = "funnel"
		lv = []Level{{Z: 0, S: tip}, {Z: h, S: 1}}
	default:
		name = "spindle"
		lv = []Level{{Z: 0, S: tip}, {Z: h / 2, S: 1}, {Z: h, S: tip}}
	}
	m := loft(lv, p, rnd(r, 0, 6), true, false)
	m.Name = name
	return m
}

// voxelSolid is made of cells of an uneven grid: plates full of holes, pillars with a common base or roof,
// rings within rings, or random cells.
func voxelSolid(r *rand.Rand, o SolidOpts) *Mesh {
	n := 3 + 2*r.Intn(4)
	if r.Intn(4) == 0 {
		n = 9 + 2*r.Intn(2)
	}
	nz := 1 + r.Intn(3)
	kind := r.Intn(5)
	if kind == 1 {
		nz = 2 + r.Intn(2)
	}
	size := o.MaxR * rnd(r, 1, 2)
	if kind == 2 || size < 1.2*float64(n) {
		size = rnd(r, 1.2, 2) * float64(n)
	}
	line := func(k int, total float64, even bool) []float64 {
		xs := make([]float64, k+1)
		for i := 1; i <= k; i++ {
			w := 1.0
			if !even {
				w = rnd(r, 0.6, 1.4)
			}
			xs[i] = xs[i-1] + w
		}
		for i := range xs {
			xs[i] = snap(xs[i]*total/xs[k], 0.01)
		}
		return xs
	}
	even := r.Intn(2) == 0
	xs, ys := line(n, size, even), line(n, size*rnd(r, 0.7, 1.2), even)
	zs := line(nz, math.Max(0.4*float64(nz), o.MaxH*rnd(r, 0.3, 1)), r.Intn(2) == 0)
	cell := make([]bool, n*n*nz)
	at := func(x, y, z int) bool {
		return x >= 0 && y >= 0 && z >= 0 && x < n && y < n && z < nz && cell[(z*n+y)*n+x]
	}
	density := rnd(r, 0.4, 0.9)
	roof, base := r.Intn(2) == 0, r.Intn(2) == 0
	name := ""
	for z := 0; z < nz; z++ {
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				var v bool
				ring := x
				for _, d := range []int{y, n - 1 - x, n - 1 - y} {
					if d < ring {
						ring = d
					}
				}
				switch kind {
				case 0:
					name, v = "sieve", !(x%2 == 1 && y%2 == 1) || (base && z == 0 && nz > 1)
				case 1:
					name, v = "pillars", x%2 == 0 && y%2 == 0 || (roof && z == nz-1) || (base && z == 0)
				case 2:
					name, v = "rings", ring%2 == 0 || (base && z == 0 && nz > 1)
				default:
					name, v = "cells", r.Float64() < density
				}
				cell[(z*n+y)*n+x] = v
			}
		}
	}
	// cells that only share an edge would make it ambiguous
	for again := true; again; {
		again = false
		fix := func(a, b, c, d [3]int) { // around an edge: a opposite to d, b opposite to c
			A, B, C, D := at(a[0], a[1], a[2]), at(b[0], b[1], b[2]), at(c[0], c[1], c[2]), at(d[0], d[1], d[2])
			if A == D && B == C && A != B {
				f := b
				if !B {
					f = b
				} else {
					f = a
				}
				if f[0] >= 0 && f[1] >= 0 && f[2] >= 0 && f[0] < n && f[1] < n && f[2] < nz {
					cell[(f[2]*n+f[1])*n+f[0]] = true
					again = true
				}
			}
		}
		for z := 0; z < nz; z++ {
			for y := 0; y < n; y++ {
				for x := 0; x < n; x++ {
					if x+1 < n && y+1 < n {
						fix([3]int{x, y, z}, [3]int{x + 1, y, z}, [3]int{x, y + 1, z}, [3]int{x + 1, y + 1, z})
					}
					if x+1 < n && z+1 < nz {
						fix([3]int{x, y, z}, [3]int{x + 1, y, z}, [3]int{x, y, z + 1}, [3]int{x + 1, y, z + 1})
					}
					if y+1 < n && z+1 < nz {
						fix([3]int{x, y, z}, [3]int{x, y + 1, z}, [3]int{x, y, z + 1}, [3]int{x, y + 1, z + 1})
					}
				}
			}
		}
	}
	m := &Mesh{Name: name}
	quad := func(a, b, c, d V3) {
		if r.Intn(2) == 0 {
			m.tri(a, b, c)
			m.tri(a, c, d)
		} else {
			m.tri(a, b, d)
			m.tri(b, c, d)
		}
	}
	for z := 0; z < nz; z++ {
		for y := 0; y < n; y++ {
			for x := 0; x < n; x++ {
				if !at(x, y, z) {
					continue
				}
				p := func(i, j, k int) V3 { return V3{xs[x+i] - size/2, ys[y+j] - size/2, zs[z+k]} }
				if !at(x-1, y, z) {
					quad(p(0, 0, 0), p(0, 0, 1), p(0, 1, 1), p(0, 1, 0))
				}
				if !at(x+1, y, z) {
					quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1))
				}
				if !at(x, y-1, z) {
					quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1))
				}
				if !at(x, y+1, z) {
					quad(p(0, 1, 0), p(0, 1, 1), p(1, 1, 1), p(1, 1, 0))
				}
				if !at(x, y, z-1) {
					quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0))
				}
				if !at(x, y, z+1) {
					quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1))
				}
			}
		}
	}
	if len(m.Tris) == 0 {
		return boxMesh(3, 3, 1)
	}
	m.Name = fmt.Sprintf("%s%d", name, n)
	return m
}

// crowd is made of many bodies side by side: tubes, tubes within tubes and rods within tubes.
func crowd(r *rand.Rand) *Mesh {
	m := &Mesh{Name: "crowd"}
	nx, ny := 4+r.Intn(4), 5+r.Intn(4)
	h := rnd(r, 0.7, 1.5)
	deep := r.Intn(3)
	prof := circleProfile(5+r.Intn(6), 1)
	lv := func(x, y, s float64) []Level { return []Level{{0, s, x, y}, {h, s, x, y}} }
	for k := 0; k < nx*ny; k++ {
		x, y := float64(k%nx)*8, float64(k/nx)*8
		th, s := rnd(r, 0, 6), rnd(r, 2.5, 3.9)
		for d := 0; d <= deep && s > 0.5; d++ {
			if r.Intn(4) == 0 {
				m.Append(loft(lv(x, y, s), prof, th, true, false))
				break
			}
			m.Append(tube(lv(x, y, s), prof, th, 0.8))
			s *= 0.55
		}
	}
	return m.Round32()
}
