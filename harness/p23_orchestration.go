package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
)

// C23: the stages run in order, each on the result of the one before, and every error stops everything and is reported.

func init() {
	register(&Prop{
		ID:    "C23",
		Level: "fault_enumeration",
		Rule:  "the real orchestration (GoSlice.Process, the generator) over recording stand-ins for all stages and renderers, with random numbers of modifiers, layers and renderers, replaced layers, repeated runs and a failure of every single stage, modifier (of every layer) and renderer; the recorded trace is checked against the specification; the real stages with additional modifiers and renderers in between; the readers of the attributes with right, wrong and missing values, also between the real stages; non-trivial: more than one stage ran",
		Quick: 60000, Deep: 1000000,
		Require: map[string]int{"complete_runs": 3000, "fail_read": 300, "fail_optimize": 300, "fail_slice": 300, "fail_modify": 300, "fail_generate": 300, "fail_write": 300, "rendered": 20000, "fail_render": 300, "real_runs": 50, "attributes": 5000, "repeated_runs": 1000},
		Assume:  []string{"stages are told the model (Init) at any time between the optimizer and their work"},
		Run:     runC23,
	})
}

type recModel struct {
	data.OptimizedModel
	id int
}

func (m *recModel) FaceCount() int      { return 4711 }
func (m *recModel) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (m *recModel) Max() data.MicroVec3 { return data.NewMicroVec3(1, 1, 1) }

type recLayer struct {
	id    int
	attrs map[string]interface{}
}

func (l *recLayer) LayerParts() []data.LayerPart       { return nil }
func (l *recLayer) Attributes() map[string]interface{} { return l.attrs }
func (l *recLayer) Bounds() (data.MicroPoint, data.MicroPoint) {
	return data.NewMicroPoint(0, 0), data.NewMicroPoint(0, 0)
}

type recorder struct {
	c       *Ctx
	trace   []string
	failAt  string
	err     error
	input   string
	loaded  *recModel
	optimed *recModel
	layers  []data.PartitionedLayer
	next    int
	code    string
}

func (r *recorder) ev(s string) error {
	r.trace = append(r.trace, s)
	if s == r.failAt {
		return r.err
	}
	return nil
}
func (r *recorder) bad(sig, f string, a ...interface{}) { r.c.Fail(sig, f, a...) }

func (r *recorder) Read(f string) (data.Model, error) {
	if f != r.input {
		r.bad("input", "the reader got %q instead of %q", f, r.input)
	}
	r.loaded = &recModel{id: 1}
	if err := r.ev("read"); err != nil {
		return nil, err
	}
	return r.loaded, nil
}
func (r *recorder) Optimize(m data.Model) (data.OptimizedModel, error) {
	if m != data.Model(r.loaded) {
		r.bad("model", "the optimizer did not get the model of the reader")
	}
	r.optimed = &recModel{id: 2}
	if err := r.ev("optimize"); err != nil {
		return nil, err
	}
	return r.optimed, nil
}
func (r *recorder) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	if m != data.OptimizedModel(r.optimed) {
		r.bad("model", "the slicer did not get the optimized model")
	}
	if err := r.ev("slice"); err != nil {
		return nil, err
	}
	return r.layers, nil
}

type recMod struct {
	r      *recorder
	n      int
	inited data.OptimizedModel
}

func (m *recMod) GetName() string             { return fmt.Sprint("mod", m.n) }
func (m *recMod) Init(om data.OptimizedModel) { m.inited = om }
func (m *recMod) Modify(l []data.PartitionedLayer) error {
	r := m.r
	if m.inited != data.OptimizedModel(r.optimed) {
		r.bad("init", "modifier %d works without the optimized model", m.n)
	}
	m.inited = nil
	if err := r.ev(fmt.Sprint("modify", m.n)); err != nil {
		return err
	}
	if !sameLayers(l, r.layers) {
		r.bad("layers", "modifier %d does not get the layers as the stage before left them", m.n)
		return nil
	}
	for k := range l { // each modifier replaces some layers
		if r.c.Intn(2) == 0 {
			r.next++
			l[k] = &recLayer{id: r.next}
		}
	}
	r.layers = append([]data.PartitionedLayer{}, l...)
	return nil
}

func sameLayers(a, b []data.PartitionedLayer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type recGen struct {
	r      *recorder
	inited data.OptimizedModel
}

func (g *recGen) Init(om data.OptimizedModel) { g.inited = om }
func (g *recGen) Generate(l []data.PartitionedLayer) (string, error) {
	r := g.r
	if g.inited != data.OptimizedModel(r.optimed) {
		r.bad("init", "the generator works without the optimized model")
	}
	g.inited = nil
	if !sameLayers(l, r.layers) {
		r.bad("layers", "the generator does not get the layers as the modifiers left them")
	}
	if err := r.ev("generate"); err != nil {
		return "", err
	}
	return r.code, nil
}

type recWriter struct {
	r    *recorder
	dest string
}

func (w *recWriter) Write(code, dest string) error {
	if code != w.r.code {
		w.r.bad("code", "the writer gets %q instead of %q", shorten(code, 100), shorten(w.r.code, 100))
	}
	if dest != w.dest {
		w.r.bad("destination", "the writer writes to %q instead of %q", dest, w.dest)
	}
	return w.r.ev("write")
}

func runC23(c *Ctx, i int) {
	c.Name("%d", i)
	switch {
	case i%300 == 0:
		c23Real(c)
	case i%60 == 31:
		c23Spoiled(c)
	case i%3 == 0:
		c23Generator(c)
	case i%3 == 1:
		c23Process(c)
	default:
		c23Attributes(c)
	}
}

func c23Process(c *Ctx) {
	o := defaults()
	o.GoSlice.InputFilePath = pickStr(c, "a.stl", "/x/y.stl", "b", "some dir/ö.STL")
	o.GoSlice.OutputFilePath = pickStr(c, "", "", "out.gcode", "/z/w", o.GoSlice.InputFilePath)
	g := goslice.NewGoSlice(o)
	r := &recorder{c: c, input: o.GoSlice.InputFilePath}
	w := &recWriter{r: r, dest: o.GoSlice.OutputFilePath}
	if w.dest == "" {
		w.dest = o.GoSlice.InputFilePath + ".gcode"
	}
	g.Reader, g.Optimizer, g.Slicer, g.Generator, g.Writer = r, r, r, &recGen{r: r}, w
	n := c.Intn(6)
	g.Modifiers = nil
	order := c.Perm(n)
	for _, k := range order {
		g.Modifiers = append(g.Modifiers, &recMod{r: r, n: k})
	}
	want := []string{"read", "optimize", "slice"}
	for _, k := range order {
		want = append(want, fmt.Sprint("modify", k))
	}
	want = append(want, "generate", "write")
	for run := 0; run < 1+c.Intn(3); run++ {
		r.trace = nil
		r.failAt, r.err = "", nil
		r.code = fmt.Sprintf("code %d %d", run, c.Intn(1000))
		if c.Intn(8) == 0 {
			r.code = ""
		}
		r.layers = nil
		for k := c.Intn(6); k > 0; k-- {
			r.next++
			r.layers = append(r.layers, &recLayer{id: r.next})
		}
		r.layers = append([]data.PartitionedLayer{}, r.layers...)
		stop := len(want)
		if c.Intn(3) > 0 {
			stop = 1 + c.Intn(len(want))
			r.failAt = want[stop-1]
			r.err = errors.New(fmt.Sprint("failure ", c.Intn(1000000)))
		}
		err := g.Process()
		if got, exp := strings.Join(r.trace, " "), strings.Join(want[:stop], " "); got != exp {
			c.Fail("order", "the stages ran as %q instead of %q (failing: %q)", got, exp, r.failAt)
			return
		}
		if r.err == nil && err != nil {
			c.Fail("error", "no stage failed but the result is %v", err)
		}
		if r.err != nil && (err == nil || !errors.Is(err, r.err) && !strings.Contains(err.Error(), r.err.Error())) {
			c.Fail("error", "%s failed with %v but the result is %v", r.failAt, r.err, err)
		}
		if r.failAt == "" {
			c.Count("complete_runs", 1)
		} else {
			c.Count("fail_"+strings.TrimRight(r.failAt, "0123456789"), 1)
		}
		if run > 0 {
			c.Count("repeated_runs", 1)
		}
		c.Key(strings.Join(r.trace, " "), r.failAt, len(r.layers))
	}
	c.Nontrivial(true)
}

type recRenderer struct {
	c      *Ctx
	n      int
	want   *[]string // what still has to come
	model  data.OptimizedModel
	inited data.OptimizedModel
	layers *[]data.PartitionedLayer
	o      *data.Options
	failAt string
	err    error
	out    *strings.Builder
}

func (r *recRenderer) Init(m data.OptimizedModel) { r.inited = m }
func (r *recRenderer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
	k := fmt.Sprintf("%d/%d", layerNr, r.n)
	if len(*r.want) == 0 || (*r.want)[0] != k {
		r.c.Fail("render-order", "renderer call %s where %v was expected", k, *r.want)
	} else {
		*r.want = (*r.want)[1:]
	}
	ls := *r.layers
	switch {
	case r.inited != r.model:
		r.c.Fail("init", "renderer %d works without the model", r.n)
	case maxLayer != len(ls)-1:
		r.c.Fail("max", "renderer %d is told that the last layer is %d instead of %d", r.n, maxLayer, len(ls)-1)
	case layerNr < 0 || layerNr >= len(ls) || layer != ls[layerNr]:
		r.c.Fail("layer", "renderer %d does not get layer %d", r.n, layerNr)
	case int64(z) != layerZ(*r.o, layerNr):
		r.c.Fail("height", "renderer %d is told %d as height of layer %d instead of %d", r.n, z, layerNr, layerZ(*r.o, layerNr))
	case options == nil || optKey(*options) != optKey(*r.o):
		r.c.Fail("options", "renderer %d does not get the options", r.n)
	}
	if k == r.failAt {
		return r.err
	}
	switch r.c.Intn(3) {
	case 0:
		t := fmt.Sprintf("%s %d %%d %%", k, r.c.Intn(1000))
		b.AddComment("%s", t)
		r.out.WriteString(";" + t + "\n")
	case 1:
		t := fmt.Sprintf("M%d", r.c.Intn(1000))
		b.AddCommand("%s ; %d", t, layerNr)
		fmt.Fprintf(r.out, "%s ; %d\n", t, layerNr)
	}
	r.c.Count("rendered", 1)
	return nil
}

func c23Generator(c *Ctx) {
	o := randOptions(c.Rand, varyAll)
	n := c.Intn(6)
	var rs []*recRenderer
	var want []string
	var layers []data.PartitionedLayer
	var out strings.Builder
	mk := func(k int) *recRenderer {
		r := &recRenderer{c: c, n: k, want: &want, layers: &layers, o: &o, out: &out}
		rs = append(rs, r)
		return r
	}
	var g handler.GCodeGenerator
	switch n { // the type of the options of the generator is not exported
	case 0:
		g = gcode.NewGenerator(&o)
	case 1:
		g = gcode.NewGenerator(&o, gcode.WithRenderer(mk(0)))
	case 2:
		g = gcode.NewGenerator(&o, gcode.WithRenderer(mk(0)), gcode.WithRenderer(mk(1)))
	case 3:
		g = gcode.NewGenerator(&o, gcode.WithRenderer(mk(0)), gcode.WithRenderer(mk(1)), gcode.WithRenderer(mk(2)))
	default:
		g = gcode.NewGenerator(&o, gcode.WithRenderer(mk(0)), gcode.WithRenderer(mk(1)), gcode.WithRenderer(mk(2)), gcode.WithRenderer(mk(3)), gcode.WithRenderer(mk(4)))
	}
	for run := 0; run < 1+c.Intn(3); run++ {
		model := &recModel{id: run}
		layers = nil
		for k := c.Intn(7); k > 0; k-- {
			layers = append(layers, &recLayer{id: c.Intn(1 << 30)})
		}
		want = nil
		for l := range layers {
			for k := range rs {
				want = append(want, fmt.Sprintf("%d/%d", l, k))
			}
		}
		failAt := ""
		if len(want) > 0 && c.Intn(3) == 0 {
			k := c.Intn(len(want))
			failAt = want[k]
			want = want[:k+1]
		}
		out.Reset()
		err0 := errors.New(fmt.Sprint("failure ", c.Intn(100000)))
		for _, r := range rs {
			r.model, r.inited, r.failAt, r.err = model, nil, failAt, err0
		}
		given := append([]data.PartitionedLayer{}, layers...)
		g.Init(model)
		code, err := g.Generate(given)
		if !sameLayers(given, layers) {
			c.Fail("layers", "the generator changed the layers")
		}
		if len(want) > 0 {
			c.Fail("render-order", "the renderer calls %v are missing", want)
		}
		if failAt != "" {
			c.Count("fail_render", 1)
			if err == nil || !errors.Is(err, err0) && !strings.Contains(err.Error(), err0.Error()) {
				c.Fail("error", "the renderer call %s failed with %v but the result is %v", failAt, err0, err)
			}
		} else {
			if err != nil {
				c.Fail("error", "no renderer failed but the result is %v", err)
			} else if code != out.String() {
				c.Fail("code", "the program is %q instead of %q", shorten(code, 200), shorten(out.String(), 200))
			}
		}
		c.Key(n, len(layers), failAt)
		c.Nontrivial(n*len(layers) > 1)
	}
}

type countMod struct{ inits, calls int }

func (m *countMod) GetName() string             { return "counting" }
func (m *countMod) Init(om data.OptimizedModel) { m.inits++ }
func (m *countMod) Modify(l []data.PartitionedLayer) error {
	m.calls++
	return nil
}

// c23Real adds modifiers that do nothing between the real ones, and replaces layers by wrappers of the same content.
func c23Real(c *Ctx) {
	o := randOptions(c.Rand, varyAll)
	m := randSolid(c.Rand, SolidOpts{MaxR: 5, MaxH: 3, NoTiny: true})
	o.GoSlice.Logger = quietLog
	o.GoSlice.InputFilePath = c.File("model.stl", m.BinarySTL("vmon"))
	var codes [2]string
	for k := range codes {
		r := &Run{}
		g := goslice.NewGoSlice(o)
		g.Writer = writeTap{r}
		var added []*countMod
		if k == 1 {
			var ms []handler.LayerModifier
			for _, x := range append(g.Modifiers, nil) {
				for j := c.Intn(3); j > 0; j-- {
					a := &countMod{}
					added = append(added, a)
					ms = append(ms, a)
				}
				if x != nil {
					ms = append(ms, x)
				}
			}
			g.Modifiers = ms
		}
		if err := g.Process(); err != nil {
			c.Fail("error", "slicing a valid model failed: %v", err)
			return
		}
		for _, a := range added {
			if a.calls != 1 || a.inits < 1 {
				c.Fail("calls", "an additional modifier was called %d times", a.calls)
			}
		}
		codes[k] = r.GCode
	}
	if codes[0] != codes[1] {
		c.Fail("differs", "modifiers which do nothing change the program (at byte %d)", firstDiff(codes[0], codes[1]))
	}
	c.Count("real_runs", 1)
	c.Nontrivial(true)
}

// spoiler sets an attribute of a layer to a value of another type.
type spoiler struct {
	countMod
	name  string
	value interface{}
	layer func(layers []data.PartitionedLayer) int
	done  bool
}

type spoiledLayer struct {
	data.PartitionedLayer
	attrs map[string]interface{}
}

func (l spoiledLayer) Attributes() map[string]interface{} { return l.attrs }

func (m *spoiler) Modify(l []data.PartitionedLayer) error {
	k := m.layer(l)
	if k < 0 || k >= len(l) {
		return nil
	}
	attrs := map[string]interface{}{}
	for n, v := range l[k].Attributes() {
		attrs[n] = v
	}
	attrs[m.name] = m.value
	l[k] = spoiledLayer{l[k], attrs}
	m.done = true
	return nil
}

// c23Spoiled runs the real stages with an attribute of another type between them.
func c23Spoiled(c *Ctx) {
	o := randOptions(c.Rand, varyAll)
	o.Print.InfillPercent = 1 + c.Intn(100)
	o.Print.Support.Enabled = true
	o.Print.Support.TopGapLayers = c.Intn(2)
	o.Print.BrimSkirt.SkirtCount = 1 + c.Intn(2)
	o.Print.BrimSkirt.BrimCount = c.Intn(3)
	m := boxMesh(3, 3, 2)
	m.Append(boxMesh(9, 3, 1).Translate(V3{0, 0, 2})) // with an overhang down to the bed
	m = m.Round32()
	o.GoSlice.Logger = quietLog
	o.GoSlice.InputFilePath = c.File("model.stl", m.BinarySTL("vmon"))
	r := &Run{}
	g := goslice.NewGoSlice(o)
	g.Writer = writeTap{r}
	if len(g.Modifiers) != 6 {
		return // built in another way
	}
	any := func(l []data.PartitionedLayer) int { return c.Intn(len(l)) }
	first := func(l []data.PartitionedLayer) int { return 0 }
	supported := func(l []data.PartitionedLayer) int { // layers with support below them
		if len(l) < 3 {
			return -1
		}
		return c.Intn(len(l) - 2)
	}
	// after which modifier, and where it is read afterwards
	cases := []struct {
		name  string
		after []int
		layer func(l []data.PartitionedLayer) int
	}{
		{"perimeters", []int{0, 1, 2, 3, 4, 5}, any},
		{"overlapPerimeters", []int{0, 1}, any},
		{"bottom", []int{1, 2, 3, 4, 5}, any},
		{"top", []int{1, 2, 3, 4, 5}, any},
		{"infill", []int{2, 3, 4, 5}, any},
		{"brim", []int{3, 4, 5}, first},
		{"support", []int{5}, any},
		{"support", []int{4}, supported},
		{"supportInterface", []int{5}, any},
		{"fullSupport", []int{5}, first},
		{"outerBrim", []int{3, 4}, first},
	}
	k := cases[c.Intn(len(cases))]
	if k.name == "brim" && o.Print.BrimSkirt.BrimCount == 0 {
		return
	}
	sp := &spoiler{name: k.name, layer: k.layer}
	sp.value = []interface{}{nil, 5, "x", map[string]int{}, data.Paths{}, [][][][]data.LayerPart{}, struct{}{}}[c.Intn(7)]
	after := k.after[c.Intn(len(k.after))]
	var ms []handler.LayerModifier
	for n, x := range g.Modifiers {
		if ms = append(ms, x); n == after {
			ms = append(ms, sp)
		}
	}
	// the support has to reach the bed for the brim to be needed
	bed := 0
	if k.name == "outerBrim" {
		ms = append(ms, layerTap(func(l []data.PartitionedLayer) {
			p, _ := modifier.FullSupport(l[0])
			bed = len(p)
		}))
	}
	g.Modifiers = ms
	err := g.Process()
	if !sp.done || k.name == "outerBrim" && err == nil && bed == 0 {
		return
	}
	c.Key(k.name, after, fmt.Sprintf("%T", sp.value), optKey(o))
	c.Count("spoiled", 1)
	c.Count("spoiled_"+k.name, 1)
	c.Nontrivial(true)
	if err == nil {
		c.Fail("spoiled:"+k.name, "the run succeeds although the attribute %q was a %T after the modifier %s", k.name, sp.value, g.Modifiers[after].GetName())
	} else if r.GCode != "" || r.G != nil {
		c.Fail("spoiled:"+k.name, "the run failed (%v) and wrote a program", err)
	}
}

// layerTap is a modifier which looks at the layers.
type layerTap func(l []data.PartitionedLayer)

func (layerTap) GetName() string          { return "tap" }
func (layerTap) Init(data.OptimizedModel) {}
func (t layerTap) Modify(l []data.PartitionedLayer) error {
	t(l)
	return nil
}

// c23Attributes reads attributes which are right, of another type or missing.
func c23Attributes(c *Ctx) {
	parts := []data.LayerPart{layerPartOf(Part{Outline: []Pt{{0, 0}, {1000, 0}, {0, 1000}}})}
	for n := c.Intn(2); n > 0; n-- {
		parts = append(parts, layerPartOf(Part{Outline: []Pt{{5000, 0}, {6000, 0}, {5000, 1000}}}))
	}
	value := func() interface{} {
		switch c.Intn(8) {
		case 6:
			return nil
		case 0:
			return 5
		case 1:
			return "x"
		case 2:
			return parts[0]
		case 3:
			return map[string]int{}
		case 4:
			return data.Paths{}
		case 5:
			return [][][][]data.LayerPart{}
		}
		return 5.5
	}
	names := []string{"perimeters", "overlapPerimeters", "brim", "outerBrim", "fullSupport", "support", "supportInterface", "bottom", "top", "infill", "own"}
	l := &recLayer{attrs: map[string]interface{}{}}
	if c.Intn(6) == 0 {
		l.attrs = nil
	}
	name := names[c.Intn(len(names))]
	kind := c.Intn(3) // missing, wrong, right
	if l.attrs != nil {
		for _, n := range names { // the others must not matter
			if n != name && c.Intn(2) == 0 {
				l.attrs[n] = value()
			}
		}
	} else {
		kind = 0
	}
	if kind == 1 {
		l.attrs[name] = value()
	}
	check := func(what string, got int, err error) {
		switch {
		case kind == 1 && err == nil:
			c.Fail("attribute", "%s accepts an attribute %q of the type %T", what, name, l.attrs[name])
		case kind != 1 && err != nil:
			c.Fail("attribute", "%s: %v", what, err)
		case kind == 0 && got != 0:
			c.Fail("attribute", "%s finds %d parts of a missing attribute", what, got)
		case kind == 2 && got != len(parts):
			c.Fail("attribute", "%s finds %d parts instead of %d", what, got, len(parts))
		}
		c.Count("attributes", 1)
		c.Nontrivial(true)
	}
	offset := clip.OffsetResult{{parts}, {parts, parts}}
	if kind == 2 {
		switch name {
		case "perimeters", "brim":
			l.attrs[name] = offset
		case "overlapPerimeters":
			l.attrs[name] = [][]data.LayerPart{parts}
		default:
			l.attrs[name] = parts
		}
	}
	total := func(o clip.OffsetResult) int {
		if len(o) == 0 {
			return 0
		}
		if len(o) != 2 || len(o[1]) != 2 {
			return -1
		}
		return len(o[0][0])
	}
	switch name {
	case "perimeters":
		p, err := modifier.Perimeters(l)
		check("Perimeters", total(p), err)
	case "brim":
		p, err := modifier.Brim(l)
		check("Brim", total(p), err)
	case "overlapPerimeters":
		p, err := modifier.OverlapPerimeters(l)
		n := 0
		for _, x := range p {
			n += len(x)
		}
		check("OverlapPerimeters", n, err)
	default:
		f, what := modifier.PartsAttribute, "PartsAttribute"
		g := map[string]func(data.PartitionedLayer) ([]data.LayerPart, error){"outerBrim": modifier.BrimOuterDimension, "fullSupport": modifier.FullSupport, "bottom": modifier.BottomInfill, "top": modifier.TopInfill}[name]
		p, err := f(l, name)
		if g != nil && c.Intn(2) == 0 {
			what = "the reader of " + name
			p, err = g(l)
		}
		check(what, len(p), err)
	}
	c.Key(name, kind, len(l.attrs))
}
