package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/writer"
)

// C27: a run leaves nothing but the output file and what it logged.

func init() {
	register(&Prop{
		ID:    "C27",
		Rule:  "runs of the library in a monitored process, which succeed or fail at every stage (missing, damaged and unusable files, unusable options, failing stages, missing directories, full files), with working and failing loggers; standard streams, open files, goroutines, working directory, environment, umask, global loggers, temporary and all other files are compared with those before, and the program with the one of an ordinary run; a case is non-trivial when a run was compared",
		Quick: 3000, Deep: 100000, Workers: 6,
		Require: map[string]int{"succeeded": 500, "failed": 1000, "failed_reading": 300, "failed_stage": 200, "failed_writing": 200, "open_files_compared": 2000, "streams_compared": 2000, "failing_logger": 100, "exports": 30},
		Assume:  []string{"garbage collection, which closes forgotten files at some time, is off during a run"},
		Run:     runC27,
	})
}

// processState describes what a run must leave as it was.
func processState() map[string]string {
	st := map[string]string{}
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasPrefix(t, "/proc/") {
			st["open file "+e.Name()] = t
		}
	}
	st["working directory"], _ = os.Getwd()
	env := os.Environ()
	sort.Strings(env)
	st["environment"] = strings.Join(env, "\n")
	um := syscall.Umask(0)
	syscall.Umask(um)
	st["umask"] = fmt.Sprint(um)
	st["arguments"] = fmt.Sprintf("%q", os.Args)
	globals(st)
	return st
}

// globals describes the settings of the whole process. They must be the same as before the very first run.
func globals(st map[string]string) {
	st["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	st["global logger"] = fmt.Sprint(log.Flags(), log.Prefix(), fmt.Sprintf("%p", log.Writer()))
	st["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	st["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGPIPE, syscall.SIGQUIT, syscall.SIGUSR1} {
		st["signal "+s.String()] = fmt.Sprint(signal.Ignored(s))
	}
	var lim syscall.Rlimit
	for _, what := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_AS} {
		if syscall.Getrlimit(what, &lim) == nil {
			st[fmt.Sprintf("limit %d", what)] = fmt.Sprint(lim)
		}
	}
	gc := debug.SetGCPercent(-1)
	debug.SetGCPercent(gc)
	st["GC percent"] = fmt.Sprint(gc)
}

var firstGlobals = map[string]string{}
var firstOnce sync.Once

// failLog is a logger that fails.
type failLog struct{ n int }

func (f *failLog) Write(b []byte) (int, error) { f.n++; return 0, errors.New("disk full") }

type failStage struct{ at string }

var errStage = errors.New("stage failed")

func (failStage) Init(data.OptimizedModel) {}
func (failStage) GetName() string          { return "failing" }
func (failStage) Modify([]data.PartitionedLayer) error {
	return errStage
}
func (failStage) Optimize(data.Model) (data.OptimizedModel, error)           { return nil, errStage }
func (failStage) Slice(data.OptimizedModel) ([]data.PartitionedLayer, error) { return nil, errStage }
func (failStage) Generate([]data.PartitionedLayer) (string, error)           { return "", errStage }
func (failStage) Write(string, string) error                                 { return errStage }

func runC27(c *Ctx, i int) {
	r := c.Rand
	c.Name("case-%d", i)
	c.Key(i)
	firstOnce.Do(func() { globals(firstGlobals) })
	m := boxMesh(rnd(r, 3, 12), rnd(r, 3, 12), rnd(r, 0.4, 2))
	switch r.Intn(4) {
	case 0:
		m = randSolid(r, SolidOpts{MaxR: 8, MaxH: 3, Ledges: true})
	case 1: // also gaps, towers, tips
		m = gcodeSolid(r, []int{5, 8, 13}[r.Intn(3)])
	}
	good := m.BinarySTL("vmon")
	if r.Intn(3) == 0 {
		good = m.AsciiSTL("vmon", r.Intn(6))
	}
	o := randOptions(r, varyAll)
	// the program of an ordinary run
	want := ""
	{
		g, w := instance(o, c.File("ref.stl", good))
		if err := g.Process(); err != nil {
			c.Fail("error", "slicing a valid model failed: %v", err)
			return
		}
		want = w.code
	}
	dir := filepath.Join(c.Dir(), "w")
	for _, d := range []string{"tmp", "home", "out"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	for _, v := range [][2]string{{"TMPDIR", "tmp"}, {"HOME", "home"}, {"XDG_CACHE_HOME", "home"}, {"XDG_CONFIG_HOME", "home"}} {
		old, had := os.LookupEnv(v[0])
		os.Setenv(v[0], filepath.Join(dir, v[1]))
		name := v[0]
		defer func() {
			if had {
				os.Setenv(name, old)
			} else {
				os.Unsetenv(name)
			}
		}()
	}
	cwd, _ := os.Getwd()
	if err := os.Chdir(filepath.Join(dir, "home")); err == nil {
		defer os.Chdir(cwd)
	}
	in := filepath.Join(dir, "in.stl")
	out := filepath.Join(dir, "out", "o.gcode")
	outRel := "out/o.gcode"
	if r.Intn(3) == 0 {
		o.GoSlice.OutputFilePath = ""
		outRel = "in.stl.gcode"
		out = in + ".gcode"
	} else {
		o.GoSlice.OutputFilePath = out
	}
	o.GoSlice.InputFilePath = in
	file := good
	kind := i % 12
	fails, writes := "", true // in which way it has to fail, and whether the output may be written
	var full *os.File
	switch kind {
	case 0, 1, 2, 3:
	case 4: // damaged
		writes, fails = false, "reading"
		switch r.Intn(6) {
		case 0:
			file = file[:len(file)-1-r.Intn(40)]
			if len(m.Tris) == 0 || !bytes.HasPrefix(good, []byte("solid")) {
				break
			}
			file = good[:len(good)/2]
		case 1:
			file = nil
		case 2:
			file = []byte("solid x\nendsolid x\n")
		case 3:
			file = make([]byte, 84+r.Intn(2000))
			r.Read(file)
			copy(file, []string{"solid ", "x"}[r.Intn(2)])
		case 4:
			file = append([]byte("solid x\nfacet normal 0 0 0\nouter loop\nvertex 0 0 q\n"), good...)
		case 5:
			file = m.Clone().Map(func(v V3) V3 { v.X = v.X / 0; return v }).BinarySTL("x")
		}
	case 5: // missing
		writes, fails = false, "reading"
		o.GoSlice.InputFilePath = []string{filepath.Join(dir, "missing.stl"), dir, "", filepath.Join(in, "x"), filepath.Join(dir, strings.Repeat("n", 300))}[r.Intn(5)]
		if o.GoSlice.OutputFilePath == "" {
			outRel = "missing.stl.gcode"
		}
	case 6: // unusable options
		writes, fails = false, "options"
		switch r.Intn(4) {
		case 0:
			o.Printer.ExtrusionWidth = 0
		case 1:
			o.Print.LayerThickness = -1
		case 2:
			o.Filament.FilamentDiameter = 0
		case 3:
			o.Print.InitialLayerThickness = 0
		}
	case 7, 8: // a failing stage
		writes, fails = false, "stage"
	case 9, 10: // output impossible
		fails = "writing"
		switch r.Intn(3) {
		case 0:
			o.GoSlice.OutputFilePath = filepath.Join(dir, "no", "o.gcode")
		case 1:
			o.GoSlice.OutputFilePath = filepath.Join(dir, "out")
		case 2:
			if full = fullFile(); full == nil {
				return
			}
			defer full.Close()
			o.GoSlice.OutputFilePath = fmt.Sprintf("/proc/self/fd/%d", full.Fd())
		}
		outRel, writes = "", false
	}
	os.WriteFile(in, file, 0o644)
	if outRel != "" && r.Intn(3) == 0 {
		os.WriteFile(filepath.Join(dir, outRel), []byte("; old\n"), 0o644)
	}
	var lw bytes.Buffer
	fl := &failLog{}
	o.GoSlice.Logger = log.New(&lw, "", 0)
	if r.Intn(5) == 0 {
		o.GoSlice.Logger = log.New(fl, "", 0)
		c.Count("failing_logger", 1)
	}
	streams, err := os.OpenFile(filepath.Join(c.Dir(), "streams"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o644)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer streams.Close()
	prefix := []string{"", "", "slicer: "}[r.Intn(3)]
	o.GoSlice.Logger.SetPrefix(prefix)
	flags, logTo := o.GoSlice.Logger.Flags(), o.GoSlice.Logger.Writer()
	var runErr error
	what := "Process"
	run := func() {
		if kind == 11 { // parts used alone
			switch r.Intn(3) {
			case 0:
				what = "Write"
				runErr = writer.Writer().Write(want, out)
				outRel = strings.TrimPrefix(out, dir+"/")
				return
			case 1:
				what = "Read"
				_, runErr = goslice.NewGoSlice(o).Reader.Read(in)
				outRel = ""
				return
			case 2:
				what = "SaveDebugSTL"
				g := goslice.NewGoSlice(o)
				mod, err := g.Reader.Read(in)
				if err != nil {
					runErr = err
					return
				}
				om, err := g.Optimizer.Optimize(mod)
				if err != nil {
					runErr = err
					return
				}
				p := out
				if r.Intn(2) == 0 {
					p, fails = filepath.Join(dir, "no", "o.stl"), "writing"
				}
				outRel = strings.TrimPrefix(p, dir+"/")
				runErr = om.SaveDebugSTL(p)
				c.Count("exports", 1)
				return
			}
		}
		g := goslice.NewGoSlice(o)
		if fails == "stage" {
			switch r.Intn(5) {
			case 0:
				g.Optimizer = failStage{}
			case 1:
				g.Slicer = failStage{}
			case 2:
				g.Modifiers[r.Intn(len(g.Modifiers))] = failStage{}
			case 3:
				g.Generator = failStage{}
			case 4:
				g.Writer = failStage{}
			}
		}
		runErr = g.Process()
	}
	now := map[string]string{}
	globals(now)
	for k, v := range now {
		if w := firstGlobals[k]; w != v {
			c.Fail("state:"+strings.Fields(k)[0], "%s is %q after the run, and %q before the first one", k, v, w)
			firstGlobals[k] = v
		}
	}
	snap := snapshot(dir)
	inInfo, _ := os.Stat(in)
	gc := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(gc)
	runtime.GC()
	// everything that is written to the standard streams goes to a file
	keep1, e1 := syscall.Dup(1)
	keep2, e2 := syscall.Dup(2)
	if e1 != nil || e2 != nil {
		panic("harness: dup")
	}
	syscall.Dup3(int(streams.Fd()), 1, 0)
	syscall.Dup3(int(streams.Fd()), 2, 0)
	routines := runtime.NumGoroutine()
	before := processState()
	func() {
		defer func() {
			syscall.Dup3(keep1, 1, 0)
			syscall.Dup3(keep2, 2, 0)
			syscall.Close(keep1)
			syscall.Close(keep2)
		}()
		run()
		after := processState()
		for k, v := range after {
			if w, ok := before[k]; !ok || w != v {
				c.Fail("state:"+strings.Fields(k)[0], "%s (%v): %s is %q afterwards, and %q before", what, runErr, k, v, w)
			}
		}
		for k, v := range before {
			if _, ok := after[k]; !ok {
				c.Fail("state:"+strings.Fields(k)[0], "%s (%v): %s (%q) is missing afterwards", what, runErr, k, v)
			}
		}
	}()
	left := runtime.NumGoroutine()
	for k := 0; k < 100 && left > routines; k++ {
		time.Sleep(time.Duration(1+k/4) * time.Millisecond)
		left = runtime.NumGoroutine()
	}
	if left > routines {
		c.Fail("goroutines", "%s (%v): %d goroutines are left, there were %d before\n%s", what, runErr, left, routines, shorten(allRoutines(), 1500))
	}
	c.Count("open_files_compared", 1)
	c.Nontrivial(true)
	if _, err := streams.Seek(0, io.SeekStart); err == nil {
		if b, _ := io.ReadAll(streams); len(b) > 0 {
			c.Fail("streams", "%s (%v) wrote to a standard stream: %q", what, runErr, shorten(string(b), 300))
		}
		c.Count("streams_compared", 1)
	}
	if l := o.GoSlice.Logger; l.Prefix() != prefix || l.Flags() != flags || l.Writer() != logTo {
		c.Fail("logger", "%s (%v) changed the settings of the given logger", what, runErr)
	}
	end := snapshot(dir)
	if ch := changes(snap, end, outRel); len(ch) > 0 {
		c.Fail("other-files", "%s (%v) touched other files: %v", what, runErr, ch)
	}
	if info, err := os.Stat(in); err != nil || !info.ModTime().Equal(inInfo.ModTime()) || info.Mode() != inInfo.Mode() || info.Size() != inInfo.Size() {
		c.Fail("input", "%s (%v) changed the input file", what, runErr)
	}
	if fails != "" {
		if runErr == nil {
			c.Fail("success", "%s succeeded although %s is impossible", what, fails)
		}
		if !writes && outRel != "" {
			if ch := changes(snap, end); len(ch) > 0 {
				c.Fail("output", "%s failed (%v) and touched the output: %v", what, runErr, ch)
			}
		}
		c.Count("failed", 1)
		c.Count("failed_"+fails, 1)
		return
	}
	if runErr != nil {
		c.Fail("error", "%s failed: %v", what, runErr)
		return
	}
	c.Count("succeeded", 1)
	if what == "Process" {
		if got := string(end[outRel].b); got != want {
			c.Fail("program", "the program is another one (%d instead of %d bytes)", len(got), len(want))
		}
		if lw.Len() == 0 && fl.n == 0 {
			c.Fail("log", "nothing was logged")
		}
	}
}

func allRoutines() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}
