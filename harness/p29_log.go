package main

import (
	"errors"
	"fmt"
	"log"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

// C29: the log tells what was really read, sliced and done.

func init() {
	register(&Prop{
		ID:    "C29",
		Rule:  "runs of the real pipeline on random closed, open and merged models with additional modifiers of any name, and with a failure of any stage (damaged files, unusable options, failing stages, modifiers and renderers); the lines of the log are recorded together with the begin and the end of every stage, and all numbers and names in them compared with the file, the optimized model, the layers and the program; a case is non-trivial when the log of a run was compared",
		Quick: 4000, Deep: 100000,
		Require: map[string]int{"runs": 3000, "failed": 800, "succeeded": 1500, "face_counts": 2500, "bounds": 2500, "open_models": 300, "open_counts": 2000, "layer_counts": 2000, "modifiers": 10000, "rendered_layers": 20000, "failed_modifier": 100, "failed_render": 50, "failed_read": 100, "failed_optimize": 50, "failed_slice": 50, "failed_write": 50},
		Assume:  []string{"the facts are found in the log by the words face count, min and max, open faces, sliced to, modifier and render layer, in any case"},
		Run:     runC29,
	})
}

// events records the log together with what the stages do.
type events struct {
	list []string
	part string
}

func (e *events) add(f string, a ...interface{}) { e.list = append(e.list, fmt.Sprintf(f, a...)) }
func (e *events) Write(b []byte) (int, error) {
	e.part += string(b)
	for {
		k := strings.IndexByte(e.part, '\n')
		if k < 0 {
			return len(b), nil
		}
		e.list = append(e.list, "log:"+e.part[:k])
		e.part = e.part[k+1:]
	}
}

type logStages struct {
	e      *events
	g      *goslice.GoSlice
	failAt string
	model  data.Model
	om     data.OptimizedModel
	sliced int
	code   string
	read   handler.ModelReader
	opt    handler.ModelOptimizer
	slice  handler.ModelSlicer
	gen    handler.GCodeGenerator
	write  handler.GCodeWriter
}

func (s *logStages) end(name string, err error) error {
	if err == nil && s.failAt == name {
		err = errors.New("stage failed")
	}
	if err != nil {
		s.e.add("failed %s", name)
	} else {
		s.e.add("end %s", name)
	}
	return err
}

func (s *logStages) Read(f string) (data.Model, error) {
	s.e.add("begin read")
	m, err := s.read.Read(f)
	s.model = m
	return m, s.end("read", err)
}
func (s *logStages) Optimize(m data.Model) (data.OptimizedModel, error) {
	s.e.add("begin optimize")
	om, err := s.opt.Optimize(m)
	s.om = om
	return om, s.end("optimize", err)
}
func (s *logStages) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	s.e.add("begin slice")
	l, err := s.slice.Slice(m)
	s.sliced = len(l)
	return l, s.end("slice", err)
}
func (s *logStages) Init(m data.OptimizedModel) { s.gen.Init(m) }
func (s *logStages) Generate(l []data.PartitionedLayer) (string, error) {
	s.e.add("begin generate")
	code, err := s.gen.Generate(l)
	s.code = code
	return code, s.end("generate", err)
}
func (s *logStages) Write(code, dest string) error {
	s.e.add("begin write")
	return s.end("write", nil)
}

type logMod struct {
	inner handler.LayerModifier
	name  string
	n     int
	s     *logStages
}

func (m *logMod) GetName() string {
	if m.inner != nil {
		return m.inner.GetName()
	}
	return m.name
}
func (m *logMod) Init(om data.OptimizedModel) {
	if m.inner != nil {
		m.inner.Init(om)
	}
}
func (m *logMod) Modify(l []data.PartitionedLayer) error {
	m.s.e.add("begin modify%d", m.n)
	var err error
	if m.inner != nil {
		err = m.inner.Modify(l)
	}
	return m.s.end(fmt.Sprint("modify", m.n), err)
}

var (
	reFaces  = regexp.MustCompile(`(?i)face count:?\s*(\S+)`)
	reBounds = regexp.MustCompile(`(?i)min:?\s*(\S+)\s+max:?\s*(\S+)`)
	reOpen   = regexp.MustCompile(`(?i)open faces:?\s*(\S+)`)
	reSliced = regexp.MustCompile(`(?i)sliced to\s+(\S+)`)
	reMod    = regexp.MustCompile(`(?i)modifier\s(.*?)\s*applied`)
	reRender = regexp.MustCompile(`(?i)render layer\s+(\d+)\s*/\s*(\S+)`)
)

func runC29(c *Ctx, i int) {
	r := c.Rand
	m := gcodeSolid(r, i)
	if r.Intn(4) == 0 {
		m = richSolid(r, SolidOpts{MaxR: 6, MaxH: 2, Ledges: true})
	}
	closed := true
	if r.Intn(5) == 0 { // holes in the surface
		for k := 1 + r.Intn(3); k > 0 && len(m.Tris) > 4; k-- {
			d := r.Intn(len(m.Tris))
			m.Tris = append(append([]Tri(nil), m.Tris[:d]...), m.Tris[d+1:]...)
		}
		closed = false
		c.Count("open_models", 1)
	}
	if r.Intn(3) == 0 {
		m.Translate(V3{rnd(r, -200, 200), rnd(r, -200, 200), rnd(r, -50, 50)}).Round32()
	}
	c.Name("%d %s", i, shorten(m.Name, 60))
	o := randOptions(r, varyAll)
	c.Key(describeMesh(m), optKey(o), closed)
	e := &events{}
	o.GoSlice.Logger = log.New(e, "", 0)
	name := pickStr(c, "model.stl", "a b.stl", "größe.STL", "x%d%s.stl", "m.gcode")
	file := m.BinarySTL("vmon")
	if r.Intn(3) == 0 {
		file = m.AsciiSTL("vmon", r.Intn(3))
	}
	fail := ""
	s := &logStages{e: e}
	if r.Intn(3) == 0 {
		fail = pickStr(c, "read", "missing", "damaged", "optimize", "slice", "thickness", "modify", "modify", "generate", "width", "write")
	}
	switch fail {
	case "damaged":
		file = file[:len(file)/2]
	case "thickness":
		o.Print.LayerThickness = 0
	case "width":
		o.Printer.ExtrusionWidth = 0
	}
	in := c.File(name, file)
	if fail == "missing" {
		os.Remove(in)
	}
	o.GoSlice.InputFilePath = in
	o.GoSlice.OutputFilePath = c.Dir() + "/out.gcode"
	g := goslice.NewGoSlice(o)
	s.read, s.opt, s.slice, s.gen, s.write = g.Reader, g.Optimizer, g.Slicer, g.Generator, g.Writer
	g.Reader, g.Optimizer, g.Slicer, g.Generator, g.Writer = s, s, s, s, s
	var mods []handler.LayerModifier
	for _, x := range g.Modifiers {
		for r.Intn(5) == 0 {
			mods = append(mods, &logMod{name: pickStr(c, "A", "my own", "ünïcode", "100%d", "Perimeter", "two words %v"), s: s})
		}
		mods = append(mods, &logMod{inner: x, s: s})
	}
	for k, x := range mods {
		x.(*logMod).n = k
	}
	g.Modifiers = mods
	switch fail {
	case "modify":
		s.failAt = fmt.Sprint("modify", r.Intn(len(mods)))
	case "read", "optimize", "slice", "generate", "write":
		s.failAt = fail
	}
	err := g.Process()
	c.Count("runs", 1)
	if e.part != "" {
		c.Fail("line", "the last line of the log is not complete: %q", e.part)
		return
	}
	bad := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "%s\nthe run (%s, %v): %s", fmt.Sprintf(f, a...), shorten(m.Name, 60), err, shorten(strings.Join(e.list, "\n"), 3000))
	}
	if fail != "" && err == nil && !(fail == "damaged") {
		c.Fail("error", "the run did not fail (%s)", fail)
		return
	}
	if err != nil && fail == "" && strings.Contains(err.Error(), "does not reach") {
		c.Count("too_flat", 1)
	} else if err != nil && fail == "" && closed {
		c.Fail("error", "slicing a valid model failed: %v", err)
		return
	}
	if err != nil {
		c.Count("failed", 1)
	} else {
		c.Count("succeeded", 1)
	}
	c.Nontrivial(true)
	c.Sample("%s, failing %q: %d lines of log and events", describeMesh(m), fail, len(e.list))

	// what the log says between the end of one stage and the begin of the next one
	pos := func(ev string) int {
		for k, l := range e.list {
			if l == ev {
				return k
			}
		}
		return -1
	}
	type hit struct {
		at   int
		args []string
	}
	find := func(re *regexp.Regexp) (out []hit) {
		for k, l := range e.list {
			if strings.HasPrefix(l, "log:") {
				// the path of the input may contain anything
				if a := re.FindStringSubmatch(strings.ReplaceAll(l[4:], in, "")); a != nil {
					out = append(out, hit{k, a[1:]})
				}
			}
		}
		return
	}
	// once demands that the fact is told exactly once, after and before the given events
	once := func(what string, re *regexp.Regexp, done string, from, to int) []string {
		h := find(re)
		if pos(done) < 0 {
			if len(h) > 0 {
				bad(what, "the log tells the %s although there was no %q", what, done)
			}
			return nil
		}
		if len(h) != 1 {
			bad(what, "the %s are told %d times", what, len(h))
			return nil
		}
		if h[0].at < from || to >= 0 && h[0].at > to {
			bad(what, "the %s are not told at their stage", what)
			return nil
		}
		return h[0].args
	}
	if k := pos("begin read"); k >= 0 {
		named := false
		for _, l := range e.list[:k] {
			named = named || strings.Contains(l, in)
		}
		if !named {
			bad("input", "the input %q is not named before it is read", in)
			return
		}
	}
	lo, hi := fileBox(m)
	if a := once("face count", reFaces, "end read", pos("end read"), pos("begin optimize")); a != nil {
		if fail != "damaged" && a[0] != strconv.Itoa(len(m.Tris)) {
			bad("face-count", "%s faces instead of %d", a[0], len(m.Tris))
		}
		c.Count("face_counts", 1)
	}
	if a := once("bounds", reBounds, "end read", pos("end read"), pos("begin optimize")); a != nil {
		got := strings.Join(a, " ")
		if want := fmt.Sprintf("%d_%d_%d %d_%d_%d", lo.X, lo.Y, lo.Z, hi.X, hi.Y, hi.Z); fail != "damaged" && got != want {
			bad("bounds-differ", "the bounds are %s instead of %s", got, want)
		}
		c.Count("bounds", 1)
	}
	done := "end optimize"
	if fail == "optimize" {
		done = "failed optimize"
	}
	if a := once("open faces", reOpen, done, pos("begin optimize"), pos("begin slice")); a != nil {
		n := 0
		for k := 0; s.om != nil && k < s.om.FaceCount(); k++ {
			for _, t := range s.om.OptimizedFace(k).TouchingFaceIndices() {
				if t < 0 {
					n++
				}
			}
		}
		if a[0] != strconv.Itoa(n) {
			bad("open-count", "%s open faces instead of %d", a[0], n)
		}
		if n == 0 && !closed {
			c.Count("open_models_without_open_faces", 1)
		}
		c.Count("open_counts", 1)
	}
	if a := once("number of layers", reSliced, "end slice", pos("end slice"), pos("begin modify0")); a != nil {
		if a[0] != strconv.Itoa(s.sliced) {
			bad("layer-count", "%s layers instead of %d", a[0], s.sliced)
		}
		c.Count("layer_counts", 1)
	}
	if c.Failed() {
		return
	}
	h := find(reMod)
	k := 0
	for n, x := range mods {
		at := pos(fmt.Sprintf("end modify%d", n))
		if at < 0 {
			break
		}
		next := pos(fmt.Sprintf("begin modify%d", n+1))
		if next < 0 {
			next = pos("begin generate")
		}
		if k >= len(h) || h[k].args[0] != x.GetName() || h[k].at < at || next >= 0 && h[k].at > next {
			bad("modifier", "modifier %d (%q) is not told after it was applied", n, x.GetName())
			return
		}
		k++
		c.Count("modifiers", 1)
	}
	if k < len(h) {
		bad("modifier", "%q is told although it was not applied", h[k].args[0])
		return
	}
	h = find(reRender)
	begin, end := pos("begin generate"), pos("end generate")
	if fail == "generate" {
		end = pos("failed generate")
	}
	for n, x := range h {
		if begin < 0 || x.at < begin || end >= 0 && x.at > end || x.args[0] != strconv.Itoa(n) || x.args[1] != strconv.Itoa(s.sliced-1) {
			bad("render", "the rendered layer %d of 0 to %d is told as %s/%s", n, s.sliced-1, x.args[0], x.args[1])
			return
		}
		c.Count("rendered_layers", 1)
	}
	if end >= 0 && len(h) != s.sliced {
		bad("render", "%d rendered layers are told instead of %d", len(h), s.sliced)
		return
	}
	if end >= 0 {
		if n := strings.Count(s.code, ";LAYER:"); n != s.sliced {
			bad("program", "the log tells of %d layers, the program has %d", s.sliced, n)
		}
	}
	switch {
	case err == nil:
	case pos("failed read") >= 0:
		c.Count("failed_read", 1)
	case pos("failed optimize") >= 0:
		c.Count("failed_optimize", 1)
	case pos("failed slice") >= 0:
		c.Count("failed_slice", 1)
	case pos("failed generate") >= 0:
		c.Count("failed_render", 1)
	case pos("failed write") >= 0:
		c.Count("failed_write", 1)
	default:
		c.Count("failed_modifier", 1)
	}
}
