package main

// Running the real pipeline with monitors at the handler boundaries.

import (
	"io"
	"log"
	"math"
	"math/rand"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

var quietLog = log.New(io.Discard, "", 0)

func defaults() data.Options {
	o := data.DefaultOptions()
	o.GoSlice.Logger = quietLog
	return o
}

type Run struct {
	Opt     data.Options
	Mesh    *Mesh
	P       *Placed
	Model   data.OptimizedModel
	Sliced  []data.PartitionedLayer // as the slicer returned them
	Layers  []data.PartitionedLayer // as the generator got them
	GCode   string
	Written int
	Err     error
	G       *GProg
}

type slicerTap struct {
	inner interface {
		Slice(data.OptimizedModel) ([]data.PartitionedLayer, error)
	}
	r *Run
}

func (s slicerTap) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	s.r.Model = m
	l, err := s.inner.Slice(m)
	s.r.Sliced = append([]data.PartitionedLayer(nil), l...)
	return l, err
}

type genTap struct {
	inner interface {
		Init(data.OptimizedModel)
		Generate([]data.PartitionedLayer) (string, error)
	}
	r *Run
}

func (g genTap) Init(m data.OptimizedModel) { g.inner.Init(m) }
func (g genTap) Generate(l []data.PartitionedLayer) (string, error) {
	g.r.Layers = append([]data.PartitionedLayer(nil), l...)
	return g.inner.Generate(l)
}

type writeTap struct{ r *Run }

func (w writeTap) Write(code, dest string) error {
	w.r.GCode = code
	w.r.Written++
	return nil
}

// slice runs the complete pipeline on the mesh (through a real STL file) and records what passes between the stages.
func runSlice(c *Ctx, m *Mesh, o data.Options) *Run {
	o.GoSlice.Logger = quietLog
	o.GoSlice.InputFilePath = c.File("model.stl", m.BinarySTL("vmon"))
	o.GoSlice.OutputFilePath = c.Dir() + "/out.gcode"
	r := &Run{Opt: o, Mesh: m}
	ctr := o.Printer.Center
	r.P = place(m, int64(ctr.X()), int64(ctr.Y()), int64(ctr.Z()))
	g := goslice.NewGoSlice(o)
	g.Slicer = slicerTap{g.Slicer, r}
	g.Generator = genTap{g.Generator, r}
	g.Writer = writeTap{r}
	r.Err = g.Process()
	if r.Err == nil && r.Written == 1 {
		r.G = parseG(r.GCode)
	}
	return r
}

// mustSlice reports an error of the pipeline on a valid model as a violation and returns nil.
func mustSlice(c *Ctx, m *Mesh, o data.Options) *Run {
	r := runSlice(c, m, o)
	if r.Err != nil {
		c.Fail("error", "slicing a valid model failed: %v", r.Err)
		return nil
	}
	if r.G == nil {
		c.Fail("nowrite", "slicing reported success but the writer was called %d times", r.Written)
		return nil
	}
	if len(r.G.Bad) > 0 {
		c.Fail("syntax", "unreadable G-code: %v", r.G.Bad)
		return nil
	}
	c.Count("models", 1)
	c.Count("layers", len(r.Layers))
	c.Count("moves", len(r.G.Moves))
	return r
}

// sliceOnly runs reader, optimizer and slicer.
func sliceOnly(c *Ctx, m *Mesh, o data.Options) *Run {
	o.GoSlice.Logger = quietLog
	o.GoSlice.InputFilePath = c.File("model.stl", m.BinarySTL("vmon"))
	r := &Run{Opt: o, Mesh: m}
	ctr := o.Printer.Center
	r.P = place(m, int64(ctr.X()), int64(ctr.Y()), int64(ctr.Z()))
	g := goslice.NewGoSlice(o)
	mod, err := g.Reader.Read(o.GoSlice.InputFilePath)
	if err != nil {
		r.Err = err
		return r
	}
	r.Model, r.Err = g.Optimizer.Optimize(mod)
	if r.Err != nil {
		return r
	}
	r.Sliced, r.Err = g.Slicer.Slice(r.Model)
	return r
}

func (r *Run) NLayers() int {
	return nLayers(r.P.Size.Z, r.Opt)
}

func nLayers(h int64, o data.Options) int {
	i, t := int64(o.Print.InitialLayerThickness), int64(o.Print.LayerThickness)
	if h < i {
		return 0
	}
	return int((h-i)/t) + 1
}

func layerZ(o data.Options, k int) int64 {
	return int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
}

func pickInt(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

func mm(v float64) data.Millimeter { return data.Millimeter(v) }

// orInt is mostly one of the given values and sometimes any value of the range.
func orInt(r *rand.Rand, lo, hi int, xs ...int) int {
	if r.Intn(4) == 0 {
		return lo + r.Intn(hi-lo+1)
	}
	return pickInt(r, xs...)
}

// orMM is mostly one of the given values and sometimes any multiple of step within the range.
func orMM(r *rand.Rand, lo, hi, step float64, xs ...float64) data.Millimeter {
	if r.Intn(4) == 0 {
		return mm(math.Round(rnd(r, lo, hi)/step) * step)
	}
	return mm(pick(r, xs...))
}

// optVary describes which groups of options randOptions changes.
type optVary struct {
	geometry, infill, speeds, retract, brim, support, temps bool
}

var varyAll = optVary{true, true, true, true, true, true, true}

// randOptions draws a valid configuration; every group not varied keeps its default.
func randOptions(r *rand.Rand, v optVary) data.Options {
	o := defaults()
	if v.geometry {
		o.Printer.ExtrusionWidth = data.Micrometer(orInt(r, 250, 800, 300, 350, 400, 400, 450, 500, 600))
		o.Print.LayerThickness = data.Micrometer(orInt(r, 80, 380, 100, 150, 200, 200, 250, 300))
		o.Print.InitialLayerThickness = data.Micrometer(orInt(r, 80, 380, 100, 200, 200, 250, 300, 350))
		o.Print.InsetCount = orInt(r, 1, 8, 1, 1, 2, 2, 3, 4)
		o.Printer.Center = data.NewMicroVec3(data.Micrometer(orInt(r, -50000, 400000, 100000, 100000, 0, -5000, 57300, 117777)), data.Micrometer(orInt(r, -50000, 400000, 100000, 100000, 0, 42000, 91234)), 0)
	}
	if v.infill {
		o.Print.InfillPercent = orInt(r, 1, 100, 0, 5, 10, 20, 20, 33, 50, 75, 100)
		o.Print.InfillRotationDegree = orInt(r, -360, 720, 45, 45, 0, 90, 30, 60, 17, 135, -30)
		o.Print.InfillZigZag = r.Intn(3) == 0
		o.Print.InfillOverlapPercent = orInt(r, 0, 100, 50, 50, 0, 25, 75, 100)
		o.Print.AdditionalInternalInfillOverlapPercent = orInt(r, 0, 900, 400, 400, 200, 100)
		o.Print.NumberBottomLayers = orInt(r, 0, 14, 3, 3, 0, 1, 2, 5)
		o.Print.NumberTopLayers = orInt(r, 0, 14, 4, 4, 0, 1, 2, 6)
	}
	if v.speeds {
		o.Print.IntialLayerSpeed = orMM(r, 1, 320, 0.1, 30, 30, 15, 22, 70)
		o.Print.LayerSpeed = orMM(r, 1, 320, 0.1, 60, 60, 45, 80, 33)
		o.Print.OuterPerimeterSpeed = orMM(r, 1, 320, 0.1, 40, 40, 20, 55, 90)
		o.Print.MoveSpeed = orMM(r, 1, 520, 0.1, 150, 150, 120, 200, 99)
	}
	if v.retract {
		o.Filament.RetractionLength = orMM(r, 0, 12, 0.01, 2, 2, 0, 0.8, 4.5, 6)
		o.Filament.RetractionSpeed = orMM(r, 1, 120, 0.5, 30, 30, 0, 25, 45)
		o.Filament.RetractionZHop = orMM(r, 0, 3, 0.01, 0, 0, 0.2, 0.6, 1)
	}
	if v.brim {
		o.Print.BrimSkirt.BrimCount = orInt(r, 0, 12, 0, 0, 1, 2, 3, 5)
		o.Print.BrimSkirt.SkirtCount = orInt(r, 0, 9, 2, 2, 0, 1, 3)
		o.Print.BrimSkirt.SkirtDistance = orMM(r, 0, 25, 0.1, 5, 5, 2, 3.3, 8)
	}
	if v.support {
		o.Print.Support.Enabled = r.Intn(3) == 0
		o.Print.Support.ThresholdAngle = orInt(r, 1, 89, 60, 60, 45, 30, 70)
		o.Print.Support.TopGapLayers = orInt(r, 0, 9, 3, 3, 0, 1, 2, 4)
		o.Print.Support.InterfaceLayers = orInt(r, 0, 9, 2, 2, 0, 1, 3)
		o.Print.Support.PatternSpacing = orMM(r, 0.8, 5, 0.1, 2.5, 2.5, 1.5, 2)
		o.Print.Support.Gap = orMM(r, 0, 2, 0.05, 0.6, 0.6, 0.4, 0.8, 1)
	}
	if v.temps {
		o.Printer.HasHeatedBed = r.Intn(4) > 0
		o.Filament.InitialTemperatureLayerCount = orInt(r, 0, 15, 3, 3, 0, 1, 2, 5)
		o.Filament.ExtrusionMultiplier = orInt(r, 20, 250, 100, 100, 95, 110, 80)
	}
	return o
}

func optKey(o data.Options) string {
	var b []byte
	add := func(v ...interface{}) {
		for _, x := range v {
			b = append(b, []byte(sprint(x))...)
			b = append(b, ' ')
		}
	}
	p, f, s := o.Print, o.Filament, o.Print.Support
	add("w", o.Printer.ExtrusionWidth, "t", p.InitialLayerThickness, p.LayerThickness, "insets", p.InsetCount, "infill", p.InfillPercent, p.InfillRotationDegree, p.InfillZigZag, p.InfillOverlapPercent, p.AdditionalInternalInfillOverlapPercent,
		"skin", p.NumberBottomLayers, p.NumberTopLayers, "speed", p.IntialLayerSpeed, p.LayerSpeed, p.OuterPerimeterSpeed, p.MoveSpeed, "retract", f.RetractionLength, f.RetractionSpeed, f.RetractionZHop,
		"brim", p.BrimSkirt.BrimCount, p.BrimSkirt.SkirtCount, p.BrimSkirt.SkirtDistance, "support", s.Enabled, s.ThresholdAngle, s.TopGapLayers, s.InterfaceLayers, s.PatternSpacing, s.Gap, "mult", f.ExtrusionMultiplier, "center", o.Printer.Center.String())
	return string(b)
}
