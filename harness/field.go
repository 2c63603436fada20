package main

import "math"

// Field caches signed distances (positive inside) to a region of disjoint parts on a grid.
type Field struct {
	g      float64
	x0, y0 int
	nx, ny int
	v      []float32
	segs   []Seg
}

func newField(segs []Seg, g float64, margin float64) *Field {
	f := &Field{g: g, segs: segs}
	if len(segs) == 0 {
		return f
	}
	lo, hi := bboxSegs(segs)
	f.x0, f.y0 = int(math.Floor((lo.X-margin)/g)), int(math.Floor((lo.Y-margin)/g))
	f.nx, f.ny = int(math.Ceil((hi.X+margin)/g))-f.x0+1, int(math.Ceil((hi.Y+margin)/g))-f.y0+1
	if f.nx*f.ny > 40e6 {
		f.nx, f.ny = 0, 0
		return f
	}
	f.v = make([]float32, f.nx*f.ny)
	nan := float32(math.NaN())
	for i := range f.v {
		f.v[i] = nan
	}
	return f
}

func (f *Field) pt(ix, iy int) Pt { return Pt{float64(ix) * f.g, float64(iy) * f.g} }

func (f *Field) calc(ix, iy int) float64 {
	if len(f.segs) == 0 {
		return math.Inf(-1)
	}
	p := f.pt(ix, iy)
	d := distToSegs(p, f.segs)
	if !parity(p, f.segs) {
		d = -d
	}
	return d
}

func (f *Field) at(ix, iy int) float64 {
	x, y := ix-f.x0, iy-f.y0
	if x < 0 || y < 0 || x >= f.nx || y >= f.ny {
		return f.calc(ix, iy)
	}
	k := y*f.nx + x
	if v := f.v[k]; v == v {
		return float64(v)
	}
	d := f.calc(ix, iy)
	f.v[k] = float32(d)
	return d
}

// disc calls fn for all grid nodes within r of node (ix, iy) with their distance, until it returns false.
func (f *Field) disc(ix, iy int, r float64, fn func(x, y int, d float64) bool) {
	n := int(r / f.g)
	for dy := -n; dy <= n; dy++ {
		for dx := -n; dx <= n; dx++ {
			d := math.Hypot(float64(dx), float64(dy)) * f.g
			if d <= r && !fn(ix+dx, iy+dy, d) {
				return
			}
		}
	}
}
