package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// C16: the same program every time, instances do not influence each other.

func init() {
	register(&Prop{
		ID:    "C16",
		Rule:  "histories of runs in one process (fresh instances, instances created before others run, one instance used again for the same and for another model, stages called twice on the same objects) and several instances running at the same time with random delays at their log lines, all under Go's race detector; every program is compared with the one of a fresh instance, options, model and layers with their state before; a case is non-trivial when at least two programs were compared",
		Quick: 70, Deep: 3000, Race: true, Workers: 4, CPU: 300,
		Require: map[string]int{"programs_compared": 200, "reused_instance": 30, "other_model": 30, "stages_twice": 30, "concurrent_runs": 60, "concurrent_schedules": 10, "options_compared": 60, "stage_options_compared": 400, "new_process": 50, "same_bounds": 30, "replaced_model": 30, "defaults_compared": 70},
		Assume:  []string{"one instance is not used from two goroutines at the same time"},
		Run:     runC16,
	})
}

// dump writes everything that is reachable by values and through the interfaces of points, paths and parts.
func dump(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil;")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case data.MicroVec3:
			if !v.IsNil() {
				fmt.Fprintf(b, "(%d %d %d)", x.X(), x.Y(), x.Z())
				return
			}
		case data.MicroPoint:
			if v.Kind() != reflect.Interface && v.Kind() != reflect.Ptr || !v.IsNil() {
				fmt.Fprintf(b, "(%d %d)", x.X(), x.Y())
				return
			}
		case *log.Logger:
			return
		case data.LayerPart:
			if x != nil {
				b.WriteString("part{")
				dump(b, reflect.ValueOf(x.Outline()))
				dump(b, reflect.ValueOf(x.Holes()))
				dump(b, reflect.ValueOf(x.Attributes()))
				b.WriteString("}")
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		dump(b, v.Elem())
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		fmt.Fprintf(b, "map[%d:", len(keys))
		for _, k := range keys {
			fmt.Fprintf(b, "%v=", k)
			dump(b, v.MapIndex(k))
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i))
		}
		b.WriteString("}")
	case reflect.Func, reflect.Chan:
	default:
		fmt.Fprintf(b, "%v;", v)
	}
}

func dumpOf(x interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(x))
	return b.String()
}

func layersDump(ls []data.PartitionedLayer) string {
	var b strings.Builder
	for i, l := range ls {
		fmt.Fprintf(&b, "\nlayer %d ", i)
		if l == nil {
			b.WriteString("nil")
			continue
		}
		dump(&b, reflect.ValueOf(l.LayerParts()))
		dump(&b, reflect.ValueOf(l.Attributes()))
	}
	return b.String()
}

func modelDump(m data.OptimizedModel) string {
	var b strings.Builder
	for i := 0; i < m.FaceCount(); i++ {
		f := m.OptimizedFace(i)
		dump(&b, reflect.ValueOf(f.Points()))
		fmt.Fprintf(&b, "%v %d %d;", f.TouchingFaceIndices(), f.MinZ(), f.MaxZ())
	}
	dump(&b, reflect.ValueOf(m.Min()))
	dump(&b, reflect.ValueOf(m.Max()))
	dump(&b, reflect.ValueOf(m.Size()))
	return b.String()
}

type stringWriter struct {
	code string
	n    int
}

func (w *stringWriter) Write(code, dest string) error { w.code, w.n = code, w.n+1; return nil }

func instance(o data.Options, in string) (*goslice.GoSlice, *stringWriter) {
	o.GoSlice.InputFilePath = in
	o.GoSlice.OutputFilePath = "unused"
	w := &stringWriter{}
	g := goslice.NewGoSlice(o)
	g.Writer = w
	return g, w
}

// jitter delays the log lines of one run and records their order over all runs.
type jitter struct {
	id  int
	r   *rand.Rand
	mu  *sync.Mutex
	seq *[]string
}

func (j *jitter) Write(b []byte) (int, error) {
	s := string(b)
	if !strings.HasPrefix(s, "Render layer") {
		j.mu.Lock()
		w := strings.Fields(s)
		if len(w) > 1 {
			*j.seq = append(*j.seq, fmt.Sprint(j.id, w[0], w[1]))
		}
		j.mu.Unlock()
	}
	switch j.r.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(j.r.Intn(3000)) * time.Microsecond)
	}
	return len(b), nil
}

// optionsIn finds the options the stages of an instance work with.
func optionsIn(x interface{}) []*data.Options {
	var out []*data.Options
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 6 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			walk(v.Elem(), depth+1)
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.Type() == reflect.TypeOf((*data.Options)(nil)) {
				out = append(out, (*data.Options)(v.UnsafePointer()))
				return
			}
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for k := 0; k < v.NumField(); k++ {
				walk(v.Field(k), depth+1)
			}
		case reflect.Slice:
			for k := 0; k < v.Len() && k < 100; k++ {
				walk(v.Index(k), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return out
}

// spoil changes everything that can be reached from options.
func spoil(o *data.Options) {
	if o.Printer.Center != nil {
		o.Printer.Center.SetX(-77)
		o.Printer.Center.SetY(-78)
		o.Printer.Center.SetZ(-79)
	}
	for k := range o.Filament.FanSpeed.LayerToSpeedLUT {
		o.Filament.FanSpeed.LayerToSpeedLUT[k] = 177
	}
	if o.Filament.FanSpeed.LayerToSpeedLUT != nil {
		o.Filament.FanSpeed.LayerToSpeedLUT[77] = 177
	}
	for _, l := range [][]string{o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines} {
		for k := range l[:cap(l)] {
			l[:cap(l)][k] = "; spoilt"
		}
	}
}

// the defaults when this process started
var pristine = dumpOf(data.DefaultOptions())

// freshDefaults checks that the defaults are not shared.
func freshDefaults(c *Ctx) {
	o := data.DefaultOptions()
	if d := dumpOf(o); d != pristine {
		c.Fail("defaults", "the default options have changed: %s instead of %s", d, pristine)
	}
	spoil(&o)
	if d := dumpOf(data.DefaultOptions()); d != pristine {
		c.Fail("defaults-shared", "changing default options changes the default options returned later: %s instead of %s", d, pristine)
	}
	c.Count("defaults_compared", 1)
}

// extreme gives some options values that are unusual together.
func extreme(r *rand.Rand, o *data.Options) {
	for n := r.Intn(5); n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = pickInt(r, 0, 4, 8, 20, 500)
		case 1:
			o.Print.Support.Enabled = true
			o.Print.Support.InterfaceLayers = pickInt(r, 0, 9, 100)
		case 2:
			o.Print.MoveSpeed = data.Millimeter(pick(r, 1, 5, 20))
		case 3:
			o.Print.LayerSpeed = data.Millimeter(pick(r, 5, 200, 400))
		case 4:
			o.Print.NumberBottomLayers, o.Print.NumberTopLayers = pickInt(r, 0, 12, 100), pickInt(r, 0, 12, 100)
		case 5:
			o.Print.InsetCount = pickInt(r, 1, 2, 7, 20)
		case 6:
			o.Print.InfillPercent = pickInt(r, 0, 1, 100, 120)
		case 7:
			o.Filament.InitialTemperatureLayerCount = pickInt(r, 0, 1, 40, 1000)
			o.Filament.BedTemperature = pickInt(r, 0, 60, 300)
		case 8:
			o.Filament.RetractionLength, o.Filament.RetractionZHop = data.Millimeter(pick(r, 0, 50)), data.Millimeter(pick(r, 0, 5))
		case 9:
			o.Print.BrimSkirt.SkirtCount, o.Print.BrimSkirt.BrimCount = pickInt(r, 0, 1, 12), pickInt(r, 0, 1, 12)
		case 10:
			o.Print.InfillRotationDegree = pickInt(r, -720, 0, 90, 179, 400)
		case 11:
			o.Print.IntialLayerSpeed = data.Millimeter(pick(r, 1, 100))
			o.Print.OuterPerimeterSpeed = data.Millimeter(pick(r, 1, 100))
		}
	}
}

// turnedMesh returns another solid with the same bounding box and number of triangles.
func turnedMesh(r *rand.Rand, m *Mesh) *Mesh {
	lo, hi := m.BBox()
	how := 1 + r.Intn(3)
	out := m.Map(func(v V3) V3 {
		if how&1 != 0 {
			v.X = lo.X + hi.X - v.X
		}
		if how&2 != 0 {
			v.Y = lo.Y + hi.Y - v.Y
		}
		return v
	})
	if how != 3 {
		for k, t := range out.Tris {
			out.Tris[k][1], out.Tris[k][2] = t[2], t[1]
		}
	}
	return out
}

func runC16(c *Ctx, i int) {
	r := c.Rand
	freshDefaults(c)
	type job struct {
		o    data.Options
		m    *Mesh
		file string
		ref  string
	}
	var like *Mesh
	var opts []*data.Options
	var optd []string
	watch := func(g *goslice.GoSlice) {
		for _, s := range append([]interface{}{g.Reader, g.Optimizer, g.Slicer, g.Generator, g.Writer}, func() (l []interface{}) {
			for _, m := range g.Modifiers {
				l = append(l, m)
			}
			return
		}()...) {
			for _, o := range optionsIn(s) {
				opts = append(opts, o)
				optd = append(optd, dumpOf(o))
			}
		}
	}
	watched := func() {
		for k, o := range opts {
			if d := dumpOf(o); d != optd[k] {
				c.Fail("options", "the options of an instance were changed: %s instead of %s", d, optd[k])
			}
		}
		c.Count("stage_options_compared", len(opts))
	}
	mk := func(k int) *job {
		j := &job{}
		j.o = randOptions(r, varyAll)
		extreme(r, &j.o)
		j.o.Print.InfillZigZag = r.Intn(2) == 0
		j.o.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{2: 255, r.Intn(5): r.Intn(256), 5 + r.Intn(5): 0, 7: 100, 12: 9, 3: 77}
		if r.Intn(4) == 0 {
			j.m = boxMesh(rnd(r, 3, 12), rnd(r, 3, 12), rnd(r, 0.5, 3))
		} else {
			j.m = randSolid(r, SolidOpts{MaxR: 9, MaxH: 3, Ledges: true})
		}
		if like != nil && r.Intn(2) == 0 {
			j.m = turnedMesh(r, like)
			c.Count("same_bounds", 1)
		}
		like = j.m
		j.file = c.File(fmt.Sprintf("m%d.stl", k), j.m.BinarySTL("x"))
		g, w := instance(j.o, j.file)
		watch(g)
		if err := g.Process(); err != nil {
			c.Fail("error", "slicing a valid model failed: %v", err)
		}
		if w.n != 1 {
			c.Fail("nowrite", "the writer was called %d times", w.n)
		}
		j.ref = w.code
		return j
	}
	same := func(what, got, want string) {
		c.Count("programs_compared", 1)
		if got != want {
			k := firstDiff(got, want)
			lo := k - 60
			if lo < 0 {
				lo = 0
			}
			c.Fail("differs:"+strings.Fields(what)[0], "%s: the program is not the one of a fresh instance (%d instead of %d bytes, first difference at %d: %q instead of %q)", what, len(got), len(want), k, shorten(got[lo:], 120), shorten(want[lo:], 120))
		}
	}
	process := func(what string, g *goslice.GoSlice) {
		if err := g.Process(); err != nil {
			c.Fail("error", "%s: %v", what, err)
		}
	}
	// a new process
	newProcess := func(j *job, want string) {
		cl := os.Getenv("VMON_CLI")
		if cl == "" {
			panic("harness: VMON_CLI is not set")
		}
		dir := filepath.Join(c.Dir(), "p")
		os.MkdirAll(dir, 0o755)
		o := j.o
		o.GoSlice.OutputFilePath = filepath.Join(dir, "o")
		os.Remove(o.GoSlice.OutputFilePath)
		args := []string{j.file}
		for _, f := range flagSpecs {
			args = append(args, flagArgs(r, f, &o)...)
		}
		res := cli(dir, nil, nil, args...)
		b, err := os.ReadFile(o.GoSlice.OutputFilePath)
		if err != nil || res.code != 0 {
			c.Fail("new-process", "a new process ended with %d: %v, %s", res.code, err, shorten(res.out, 200))
			return
		}
		same("new process", want, string(b))
		c.Count("new_process", 1)
	}
	c.Name("case-%d", i)
	c.Key(i)
	if i%3 == 2 {
		// at the same time
		n := 3 + r.Intn(3)
		var jobs []*job
		for k := 0; k < n; k++ {
			jobs = append(jobs, mk(k))
		}
		if r.Intn(2) == 0 {
			// the very same options for all of them, including everything they point to
			for _, j := range jobs[1:] {
				j.o = jobs[0].o
				g, w := instance(j.o, j.file)
				process("fresh", g)
				j.ref = w.code
			}
		}
		if c.Failed() {
			return
		}
		before := dumpOf(jobs[0].o)
		var mu sync.Mutex
		var seq []string
		var wg sync.WaitGroup
		start := make(chan struct{})
		got := make([]string, n)
		errs := make([]error, n)
		for k := range jobs {
			k := k
			o := jobs[k].o
			o.GoSlice.Logger = log.New(&jitter{k, rand.New(rand.NewSource(r.Int63())), &mu, &seq}, "", 0)
			early := r.Intn(2) == 0
			var g *goslice.GoSlice
			var w *stringWriter
			if early {
				g, w = instance(o, jobs[k].file)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[k] = fmt.Errorf("panic: %v", p)
					}
				}()
				<-start
				if !early {
					g, w = instance(o, jobs[k].file)
				}
				errs[k] = g.Process()
				got[k] = w.code
			}()
		}
		close(start)
		wg.Wait()
		for k := range jobs {
			if errs[k] != nil {
				c.Fail("concurrent-error", "run %d of %d: %v", k, n, errs[k])
				continue
			}
			same(fmt.Sprintf("concurrent run %d of %d", k, n), got[k], jobs[k].ref)
			c.Count("concurrent_runs", 1)
		}
		if dumpOf(jobs[0].o) != before {
			c.Fail("options", "the options were changed")
		}
		watched()
		k := r.Intn(n)
		newProcess(jobs[k], got[k])
		h := fnv.New64a()
		io.WriteString(h, strings.Join(seq, "\n"))
		c.Key(h.Sum64())
		switches := 0
		for k := 1; k < len(seq); k++ {
			if seq[k][0] != seq[k-1][0] {
				switches++
			}
		}
		if switches > n {
			c.Count("concurrent_schedules", 1)
		}
		c.Max("switches_between_runs", float64(switches))
		c.Sample("%d runs at the same time, %d switches", n, switches)
		c.Nontrivial(true)
		return
	}
	a, b := mk(0), mk(1)
	if c.Failed() {
		return
	}
	oa, ob := dumpOf(a.o), dumpOf(b.o)
	// again
	g, w := instance(a.o, a.file)
	process("again", g)
	same("again", w.code, a.ref)
	// created before others run
	ga, wa := instance(a.o, a.file)
	gb, wb := instance(b.o, b.file)
	gc, wc := instance(a.o, b.file)
	process("interleaved", gb)
	process("interleaved", ga)
	same("interleaved instances", wb.code, b.ref)
	same("interleaved instances", wa.code, a.ref)
	process("fresh", gc)
	// one instance again
	for k := r.Intn(2); k >= 0; k-- {
		process("reused", ga)
		same("reused instance", wa.code, a.ref)
		c.Count("reused_instance", 1)
	}
	ga.Options.InputFilePath = b.file
	process("other model", ga)
	same("other model in the same instance", wa.code, wc.code)
	ga.Options.InputFilePath = a.file
	process("other model", ga)
	same("other model and back in the same instance", wa.code, a.ref)
	c.Count("other_model", 1)
	// another model at the same place and time, of the same size if possible
	if st, err := os.Stat(a.file); err == nil {
		was, _ := os.ReadFile(a.file)
		m := turnedMesh(r, a.m)
		if err := os.WriteFile(a.file, m.BinarySTL("x"), 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		os.Chtimes(a.file, st.ModTime(), st.ModTime())
		process("replaced model", ga)
		g, w := instance(a.o, c.File("elsewhere.stl", m.BinarySTL("x")))
		process("replaced model", g)
		same("replaced model in the same instance", wa.code, w.code)
		if r.Intn(2) == 0 {
			j := *a
			newProcess(&j, wa.code)
		}
		os.WriteFile(a.file, was, 0o644)
		os.Chtimes(a.file, st.ModTime(), st.ModTime())
		process("replaced model and back", ga)
		same("replaced model and back in the same instance", wa.code, a.ref)
		c.Count("replaced_model", 1)
	}
	newProcess(b, b.ref)
	// stages twice
	g, _ = instance(a.o, a.file)
	mod, err := g.Reader.Read(a.file)
	if err != nil {
		c.Fail("error", "%v", err)
		return
	}
	om, err := g.Optimizer.Optimize(mod)
	if err != nil {
		c.Fail("error", "%v", err)
		return
	}
	md := modelDump(om)
	om2, err := g.Optimizer.Optimize(mod)
	if err != nil || modelDump(om2) != md {
		c.Fail("optimizer-twice", "optimizing the same model again gives another model (%v)", err)
	}
	l1, err := g.Slicer.Slice(om)
	if err != nil {
		c.Fail("error", "%v", err)
		return
	}
	d1 := layersDump(l1)
	l2, err := g.Slicer.Slice(om)
	if err != nil || layersDump(l2) != d1 || layersDump(l1) != d1 {
		c.Fail("slicer-twice", "slicing the same model again gives other layers (%v)", err)
	}
	for _, m := range g.Modifiers {
		m.Init(om)
		if err := m.Modify(l1); err != nil {
			c.Fail("error", "%v", err)
			return
		}
	}
	if layersDump(l2) != d1 {
		c.Fail("modifier-alias", "modifying the layers changed other layers of the same model")
	}
	d1 = layersDump(l1)
	for _, m := range g.Modifiers {
		m.Init(om)
		if err := m.Modify(l2); err != nil {
			c.Fail("error", "%v", err)
			return
		}
	}
	if layersDump(l2) != d1 {
		c.Fail("modifier-twice", "the same modifiers give other results for the same layers")
	}
	if layersDump(l1) != d1 {
		c.Fail("modifier-alias", "modifying other layers changed the layers")
	}
	for k := 0; k < 2; k++ {
		g.Generator.Init(om)
		code, err := g.Generator.Generate(l1)
		if err != nil {
			c.Fail("error", "%v", err)
			return
		}
		same("generating again", code, a.ref)
		if layersDump(l1) != d1 {
			c.Fail("generator-alias", "generating the program changed the layers")
		}
	}
	// without setting up the patterns again
	code, err := g.Generator.Generate(l2)
	if err != nil {
		c.Fail("error", "%v", err)
		return
	}
	same("generating again", code, a.ref)
	if modelDump(om) != md {
		c.Fail("model-alias", "the model was changed by slicing it")
	}
	c.Count("stages_twice", 1)
	if dumpOf(a.o) != oa || dumpOf(b.o) != ob {
		c.Fail("options", "the options were changed")
	}
	watched()
	c.Count("options_compared", 2)
	c.Sample("%s", describeMesh(a.m))
	c.Nontrivial(true)
}
