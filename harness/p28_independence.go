package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"

	"github.com/aligator/goslice/data"
)

// C28: options change nothing but their own aspect of the program.

func init() {
	req := map[string]int{"programs_compared": 800, "lines_compared": 200000, "strokes_compared": 50000, "commands_compared": 20000}
	for _, a := range aspects {
		req["aspect_"+a.name] = 30
		if !a.rare {
			req["changed_by_"+a.name] = 5
		}
	}
	register(&Prop{
		ID:    "C28",
		Rule:  "random models and options are sliced twice, with one group of options (heat, fan and start and end code; speeds; filament; retraction; infill density and zigzag; filling; brim and skirt; support; inner walls) set to other values the second time; everything of the two programs that is none of this group's business must be equal: the text without the words of that group, or the printed paths of the other kinds, in order and with all their points; a case is non-trivial when two programs were compared",
		Quick: 4000, Deep: 100000,
		Require: req,
		Assume:  []string{"the kinds of the printed paths are those announced by the comments of the program"},
		Run:     runC28,
	})
}

type aspect struct {
	name  string
	rare  bool // may not change the program at all
	set   func(r *rand.Rand, o, other *data.Options)
	prep  func(r *rand.Rand, o *data.Options)
	lines func(p *GProg) []string // what must not change as text
	paths func(s *Stroke) bool    // or the printed paths which must not change
	moves bool                    // or all movements in the plane
}

var (
	wordF = regexp.MustCompile(` F[-+.0-9eE]+`)
	wordE = regexp.MustCompile(` E[-+.0-9]+`)
)

// bodyLines returns the moves and the comments which give the program its structure.
func bodyLines(p *GProg) []string {
	var out []string
	for k, l := range p.Lines {
		if k <= p.Reset || p.End >= 0 && k >= p.End {
			continue
		}
		if strings.HasPrefix(l, "G0") || strings.HasPrefix(l, "G1") || strings.HasPrefix(l, ";LAYER:") || strings.HasPrefix(l, ";TYPE:") || strings.HasSuffix(l, "-FILL") {
			out = append(out, l)
		}
	}
	return out
}

// commandLines returns everything but the moves and the comments of the paths, with the layers.
func commandLines(p *GProg) []string {
	var out []string
	for k, l := range p.Lines {
		inBody := k > p.Reset && (p.End < 0 || k < p.End)
		if inBody && (strings.HasPrefix(l, "G0") || strings.HasPrefix(l, "G1") || strings.HasPrefix(l, ";") && !strings.HasPrefix(l, ";LAYER:")) {
			continue
		}
		out = append(out, l)
	}
	return out
}

func without(re *regexp.Regexp) func(p *GProg) []string {
	return func(p *GProg) []string {
		var out []string
		for _, l := range bodyLines(p) {
			l = re.ReplaceAllString(l, "")
			if l == "G0" || l == "G1" {
				continue
			}
			out = append(out, l)
		}
		return out
	}
}

func otherThan(kinds ...string) func(s *Stroke) bool {
	return func(s *Stroke) bool {
		for _, k := range kinds {
			if s.Type == k || s.Sub == k {
				return false
			}
		}
		return true
	}
}

var aspects = []aspect{
	{name: "heat", set: func(r *rand.Rand, o, other *data.Options) {
		f := &o.Filament
		f.InitialBedTemperature, f.BedTemperature = r.Intn(120), r.Intn(120)
		f.InitialHotEndTemperature, f.HotEndTemperature = r.Intn(300), r.Intn(300)
		f.InitialTemperatureLayerCount = r.Intn(8)
		f.FanSpeed.LayerToSpeedLUT = randLUT(r)
		o.Printer.HasHeatedBed = r.Intn(2) == 0
		o.Printer.ForceSafeStartStopGCode = r.Intn(2) == 0
		o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines = textHunk(r), textHunk(r)
	}, lines: bodyLines},
	{name: "speed", set: func(r *rand.Rand, o, other *data.Options) {
		o.Print.IntialLayerSpeed, o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed, o.Print.MoveSpeed = other.Print.IntialLayerSpeed, other.Print.LayerSpeed, other.Print.OuterPerimeterSpeed, other.Print.MoveSpeed
		if o.Filament.RetractionSpeed != 0 {
			o.Filament.RetractionSpeed = data.Millimeter(rnd(r, 1, 100))
		}
	}, lines: without(wordF)},
	{name: "filament", set: func(r *rand.Rand, o, other *data.Options) {
		o.Filament.ExtrusionMultiplier = 1 + r.Intn(300)
		o.Filament.FilamentDiameter = data.Micrometer(1000 + r.Intn(3000))
	}, lines: without(wordE)},
	{name: "retraction", set: func(r *rand.Rand, o, other *data.Options) {
		o.Filament.RetractionLength, o.Filament.RetractionSpeed, o.Filament.RetractionZHop = other.Filament.RetractionLength, other.Filament.RetractionSpeed, other.Filament.RetractionZHop
	}, moves: true},
	{name: "density", set: func(r *rand.Rand, o, other *data.Options) {
		o.Print.InfillPercent, o.Print.InfillZigZag = other.Print.InfillPercent, other.Print.InfillZigZag
	}, paths: otherThan("INTERNAL-FILL")},
	{name: "filling", set: func(r *rand.Rand, o, other *data.Options) {
		p, q := &o.Print, &other.Print
		p.InfillPercent, p.InfillZigZag, p.InfillRotationDegree, p.InfillOverlapPercent, p.AdditionalInternalInfillOverlapPercent, p.NumberBottomLayers, p.NumberTopLayers = q.InfillPercent, q.InfillZigZag, q.InfillRotationDegree, q.InfillOverlapPercent, q.AdditionalInternalInfillOverlapPercent, q.NumberBottomLayers, q.NumberTopLayers
	}, paths: otherThan("FILL")},
	{name: "brim", set: func(r *rand.Rand, o, other *data.Options) {
		o.Print.BrimSkirt = other.Print.BrimSkirt
		if r.Intn(2) == 0 {
			o.Print.BrimSkirt.BrimCount = r.Intn(5)
		}
	}, paths: func(s *Stroke) bool { return s.Type != "SKIRT" && (s.Type != "SUPPORT" || s.Layer > 0) }},
	{name: "support", rare: true, prep: func(r *rand.Rand, o *data.Options) {
		o.Print.BrimSkirt.SkirtCount = 0
	}, set: func(r *rand.Rand, o, other *data.Options) {
		o.Print.Support = other.Print.Support
		o.Print.Support.Enabled = r.Intn(3) > 0
	}, paths: otherThan("SUPPORT")},
	{name: "walls", set: func(r *rand.Rand, o, other *data.Options) {
		o.Print.InsetCount = other.Print.InsetCount
	}, paths: otherThan("WALL-INNER", "FILL")},
}

func runC28(c *Ctx, i int) {
	r := c.Rand
	a := aspects[i%len(aspects)]
	m := gcodeSolid(r, r.Intn(1000))
	wide := i/len(aspects)%12 == 5
	if wide {
		m = boxMesh(rnd(r, 30, 80), rnd(r, 30, 80), 0.8)
		m.Name = "wide"
		m.Round32()
	}
	c.Name("%d %s %s", i, a.name, shorten(m.Name, 60))
	o := randOptions(r, varyAll)
	if a.prep != nil {
		a.prep(r, &o)
	}
	other := randOptions(r, varyAll)
	if wide { // where thin infill has lines
		o.Print.InfillPercent, other.Print.InfillPercent = 1+r.Intn(8), 1+r.Intn(8)
		o.Print.NumberBottomLayers, o.Print.NumberTopLayers = r.Intn(2), r.Intn(2)
	}
	p := o
	a.set(r, &p, &other)
	slice := func(o data.Options) *Run {
		run := runSlice(c, m, o)
		if run.Err != nil {
			c.Fail("error", "slicing a valid model failed: %v", run.Err)
			return nil
		}
		if run.G == nil || run.G.Reset < 0 {
			c.Fail("nowrite", "no program")
			return nil
		}
		return run
	}
	x, y := slice(o), slice(p)
	if x == nil || y == nil {
		return
	}
	c.Count("aspect_"+a.name, 1)
	c.Count("programs_compared", 1)
	if x.GCode != y.GCode {
		c.Count("changed_by_"+a.name, 1)
	}
	c.Nontrivial(true)
	c.Key(m.Name, optKey(o), optKey(p))
	var u, v []string
	switch {
	case a.lines != nil:
		u, v = a.lines(x.G), a.lines(y.G)
		c.Count("lines_compared", len(u))
	case a.moves:
		list := func(g *GProg) []string {
			var out []string
			for k := range g.Moves {
				mv := &g.Moves[k]
				if mv.Header || mv.InEnd || mv.XY() == 0 {
					continue
				}
				out = append(out, fmt.Sprintf("layer %d %s %s to (%.0f %.0f) printing %v", mv.Layer, mv.Type, mv.Sub, mv.To[0], mv.To[1], mv.HasE))
			}
			return out
		}
		u, v = list(x.G), list(y.G)
		c.Count("lines_compared", len(u))
	default:
		list := func(g *GProg) (out []string, amounts []float64) {
			for k := range g.Strokes {
				s := &g.Strokes[k]
				if s.Layer >= 0 && a.paths(s) {
					e, feed := 0.0, map[float64]bool{}
					for _, n := range s.Moves {
						e += g.Moves[n].DE
						feed[g.Moves[n].F] = true
					}
					out = append(out, fmt.Sprintf("layer %d %s %s at %.0f with %v: %.0f", s.Layer, s.Type, s.Sub, s.Z, feed, s.Pts))
					amounts = append(amounts, e)
				}
			}
			return out, amounts
		}
		var e, f []float64
		u, e = list(x.G)
		v, f = list(y.G)
		c.Count("strokes_compared", len(u))
		if len(e) == len(f) {
			for k := range e {
				if d := math.Abs(e[k] - f[k]); u[k] == v[k] && d > 0.00015 {
					c.Fail("amount:"+a.name, "other options for %s changed the filament of a path from %.4f to %.4f: %s, with %s and %s", a.name, e[k], f[k], shorten(u[k], 200), optKey(o), optKey(p))
					return
				}
			}
		}
	}
	if a.name != "heat" {
		// commands, with the layers they belong to
		cu, cv := commandLines(x.G), commandLines(y.G)
		c.Count("commands_compared", len(cu))
		u, v = append(cu, u...), append(cv, v...)
	}
	for k := 0; k < len(u) || k < len(v); k++ {
		if k >= len(u) || k >= len(v) || u[k] != v[k] {
			get := func(l []string) string {
				if k < len(l) {
					return shorten(l[k], 300)
				}
				return "nothing"
			}
			c.Fail("changed:"+a.name, "other options for %s changed something else: %q instead of %q (%d of %d), with %s and %s", a.name, get(v), get(u), k, len(u), optKey(o), optKey(p))
			return
		}
	}
}
