package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/spf13/pflag"
)

// C17: flags; C24: texts of options.

func init() {
	register(&Prop{
		ID:    "C17",
		Rule:  "random sets of all flags with random values in all spellings (separate, with =, repeated, short, negative, boolean forms), parsed by the real parser in this process and compared option by option with the documented meaning; and given to the real binary, whose program is compared with the program of the library with these options; refused values must end the binary without output; a case is non-trivial when at least one flag was given",
		Quick: 12000, Deep: 150000,
		Require: map[string]int{"flags_parsed": 20000, "parsed": 3000, "programs": 300, "flags_in_programs": 1500, "programs_changed": 200, "refused": 100, "defaults": 50},
		Run:     runC17,
	})
	register(&Prop{
		ID:    "C24",
		Rule:  "random values and hostile texts for every type of option: texts of values are read back, valid texts are compared with an independent reading, all others must be refused; a case is non-trivial when a text was judged",
		Quick: 60000, Deep: 1500000,
		Require: map[string]int{"read_back": 10000, "accepted": 8000, "refused": 8000, "codes": 1500},
		Run:     runC24,
	})
}

type flagSpec struct {
	name string
	ptr  func(o *data.Options) interface{}
}

var flagSpecs = []flagSpec{
	{"output", func(o *data.Options) interface{} { return &o.GoSlice.OutputFilePath }},
	{"meld-distance", func(o *data.Options) interface{} { return &o.Slicing.MeldDistance }},
	{"join-polygon-snap-distance", func(o *data.Options) interface{} { return &o.Slicing.JoinPolygonSnapDistance }},
	{"finish-polygon-snap-distance", func(o *data.Options) interface{} { return &o.Slicing.FinishPolygonSnapDistance }},
	{"initial-layer-speed", func(o *data.Options) interface{} { return &o.Print.IntialLayerSpeed }},
	{"layer-speed", func(o *data.Options) interface{} { return &o.Print.LayerSpeed }},
	{"outer-perimeter-speed", func(o *data.Options) interface{} { return &o.Print.OuterPerimeterSpeed }},
	{"move-speed", func(o *data.Options) interface{} { return &o.Print.MoveSpeed }},
	{"initial-layer-thickness", func(o *data.Options) interface{} { return &o.Print.InitialLayerThickness }},
	{"layer-thickness", func(o *data.Options) interface{} { return &o.Print.LayerThickness }},
	{"inset-count", func(o *data.Options) interface{} { return &o.Print.InsetCount }},
	{"infill-overlap-percent", func(o *data.Options) interface{} { return &o.Print.InfillOverlapPercent }},
	{"additional-internal-infill-overlap-percent", func(o *data.Options) interface{} { return &o.Print.AdditionalInternalInfillOverlapPercent }},
	{"infill-percent", func(o *data.Options) interface{} { return &o.Print.InfillPercent }},
	{"infill-rotation-degree", func(o *data.Options) interface{} { return &o.Print.InfillRotationDegree }},
	{"infill-zig-zag", func(o *data.Options) interface{} { return &o.Print.InfillZigZag }},
	{"number-bottom-layers", func(o *data.Options) interface{} { return &o.Print.NumberBottomLayers }},
	{"number-top-layers", func(o *data.Options) interface{} { return &o.Print.NumberTopLayers }},
	{"support-enabled", func(o *data.Options) interface{} { return &o.Print.Support.Enabled }},
	{"support-threshold-angle", func(o *data.Options) interface{} { return &o.Print.Support.ThresholdAngle }},
	{"support-top-gap-layers", func(o *data.Options) interface{} { return &o.Print.Support.TopGapLayers }},
	{"support-interface-layers", func(o *data.Options) interface{} { return &o.Print.Support.InterfaceLayers }},
	{"support-pattern-spacing", func(o *data.Options) interface{} { return &o.Print.Support.PatternSpacing }},
	{"support-gap", func(o *data.Options) interface{} { return &o.Print.Support.Gap }},
	{"skirt-count", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.SkirtCount }},
	{"skirt-distance", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.SkirtDistance }},
	{"brim-count", func(o *data.Options) interface{} { return &o.Print.BrimSkirt.BrimCount }},
	{"filament-diameter", func(o *data.Options) interface{} { return &o.Filament.FilamentDiameter }},
	{"initial-bed-temperature", func(o *data.Options) interface{} { return &o.Filament.InitialBedTemperature }},
	{"initial-hot-end-temperature", func(o *data.Options) interface{} { return &o.Filament.InitialHotEndTemperature }},
	{"bed-temperature", func(o *data.Options) interface{} { return &o.Filament.BedTemperature }},
	{"hot-end-temperature", func(o *data.Options) interface{} { return &o.Filament.HotEndTemperature }},
	{"initial-temperature-layer-count", func(o *data.Options) interface{} { return &o.Filament.InitialTemperatureLayerCount }},
	{"retraction-speed", func(o *data.Options) interface{} { return &o.Filament.RetractionSpeed }},
	{"retraction-length", func(o *data.Options) interface{} { return &o.Filament.RetractionLength }},
	{"retraction-z-hop", func(o *data.Options) interface{} { return &o.Filament.RetractionZHop }},
	{"fan-speed", func(o *data.Options) interface{} { return &o.Filament.FanSpeed }},
	{"extrusion-multiplier", func(o *data.Options) interface{} { return &o.Filament.ExtrusionMultiplier }},
	{"extrusion-width", func(o *data.Options) interface{} { return &o.Printer.ExtrusionWidth }},
	{"center", func(o *data.Options) interface{} { return &o.Printer.Center }},
	{"force-safe-gcode", func(o *data.Options) interface{} { return &o.Printer.ForceSafeStartStopGCode }},
	{"has-heated-bed", func(o *data.Options) interface{} { return &o.Printer.HasHeatedBed }},
	{"start-gcode", func(o *data.Options) interface{} { return &o.Printer.StartGCode }},
	{"end-gcode", func(o *data.Options) interface{} { return &o.Printer.EndGCode }},
}

// flagArgs writes the value a flag has in o in some spelling.
func flagArgs(r *rand.Rand, f flagSpec, o *data.Options) []string {
	intText := func(v int64) string {
		if v >= 0 && r.Intn(8) == 0 {
			return fmt.Sprintf("+%d", v)
		}
		return fmt.Sprint(v)
	}
	var s string
	switch p := f.ptr(o).(type) {
	case *bool:
		if *p {
			switch r.Intn(3) {
			case 0:
				return []string{"--" + f.name}
			case 1:
				return []string{"--" + f.name + "=1"}
			}
			return []string{"--" + f.name + "=true"}
		}
		return []string{"--" + f.name + "=" + []string{"false", "0", "f", "FALSE"}[r.Intn(4)]}
	case *string:
		s = *p
		if r.Intn(3) == 0 {
			return []string{"-o", s}
		}
	case *int:
		s = intText(int64(*p))
	case *data.Micrometer:
		s = intText(int64(*p))
	case *data.Millimeter:
		v := float32(*p)
		switch r.Intn(4) {
		case 0:
			s = strconv.FormatFloat(float64(v), 'e', -1, 32)
		case 1:
			s = strconv.FormatFloat(float64(v), 'f', -1, 32)
			if strings.HasPrefix(s, "0.") {
				s = s[1:]
			}
		default:
			s = strconv.FormatFloat(float64(v), 'f', -1, 32)
		}
	case *data.MicroVec3:
		s = fmt.Sprintf("%s_%s_%s", intText(int64((*p).X())), intText(int64((*p).Y())), intText(int64((*p).Z())))
	case *data.FanSpeedOptions:
		var ps []string
		for k, v := range p.LayerToSpeedLUT {
			ps = append(ps, fmt.Sprintf("%d=%d", k, v))
		}
		s = strings.Join(ps, ",")
	case *data.GCodeHunk:
		s = strings.Join(p.GCodeLines, []string{"\n", "\n", "\n\n", "\n  \n"}[r.Intn(4)])
		if len(p.GCodeLines) < 2 || r.Intn(4) == 0 {
			s += "\n"
		}
	default:
		panic("harness: flag type")
	}
	if r.Intn(2) == 0 {
		return []string{"--" + f.name + "=" + s}
	}
	return []string{"--" + f.name, s}
}

func randLUT(r *rand.Rand) map[int]int {
	m := map[int]int{}
	for n := 1 + r.Intn(4); n > 0; n-- {
		m[pickInt(r, 0, 1, 2, 3, 5, 10, 1000, r.Intn(100))] = pickInt(r, 0, 255, 1, 128, r.Intn(256))
	}
	return m
}

func textHunk(r *rand.Rand) []string {
	lines := []string{"G28", "M104 S{print_temperature}", "M190 S{print_bed_temperature} ; wait", "; comment = 5, 6", "G1 Z5 F5000", "M117 50% done", "  G4 P100", "M82 ;absolute", "--x"}
	var out []string
	for n := 1 + r.Intn(4); n > 0; n-- {
		out = append(out, lines[r.Intn(len(lines))])
	}
	return out
}

// scramble sets a flag's option to any value of its type.
func scramble(r *rand.Rand, f flagSpec, o *data.Options) {
	anyInt := func() int64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return -int64(r.Intn(1000))
		case 2:
			return r.Int63()
		}
		return int64(r.Intn(5000))
	}
	switch p := f.ptr(o).(type) {
	case *bool:
		*p = r.Intn(2) == 0
	case *string:
		*p = []string{"o.gcode", "a b", "", "-", "x=y", "ü"}[r.Intn(6)]
	case *int:
		*p = int(anyInt())
	case *data.Micrometer:
		*p = data.Micrometer(anyInt())
	case *data.Millimeter:
		*p = data.Millimeter(float32(pick(r, 0, 0.1, 2.5, -3, 1e-4, 123456.78, rnd(r, 0, 200), rnd(r, 0, 10))))
	case *data.MicroVec3:
		*p = data.NewMicroVec3(data.Micrometer(anyInt()), data.Micrometer(anyInt()), data.Micrometer(anyInt()))
	case *data.FanSpeedOptions:
		p.LayerToSpeedLUT = randLUT(r)
	case *data.GCodeHunk:
		p.GCodeLines = textHunk(r)
	}
}

// nearInt writes something that is almost an integer.
func nearInt(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return []string{"0x", "0X", "0b", "0o", "0", "-", "+", "_", "1_", "_1", "1__0", "0x_", "0_", "08", "09", "0b2", "0o8", "0xg", "-0x", "1e3", "1.0", "1.", "", " ", "٣", "１", "0x10000000000000000", "9223372036854775808", "-9223372036854775809", "1_0_", "+-1", "Infinity", "nil"}[r.Intn(33)]
	case 1:
		return s + []string{" ", "\n", ".", ".0", "mm", "_", "e0", "L", "\x00", "u", "%", "µm"}[r.Intn(12)]
	case 2:
		return []string{" ", "\n", "_", "+-", "0x_", "#", "$"}[r.Intn(7)] + s
	}
	k := r.Intn(len(s) + 1)
	return s[:k] + []string{"_", " ", ",", ".", "x", "-"}[r.Intn(6)] + s[k:]
}

func parseArgs(args []string) data.Options {
	pflag.CommandLine = pflag.NewFlagSet("goslice", pflag.ContinueOnError)
	old := os.Args
	os.Args = append([]string{"goslice"}, args...)
	defer func() { os.Args = old }()
	return data.ParseFlags()
}

func runC17(c *Ctx, i int) {
	r := c.Rand
	c.Name("case-%d", i)
	c.Key(i)
	shuffled := func(parts [][]string) []string {
		var a []string
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		for _, p := range parts {
			a = append(a, p...)
		}
		return a
	}
	if i%10 != 0 {
		// in this process
		o := data.DefaultOptions()
		var parts [][]string
		n := pickInt(r, 0, 1, 1, 2, 5, 12, 44)
		if i%10 == 1 {
			n = 1 // every flag alone
		}
		perm := r.Perm(len(flagSpecs))
		if n == 1 {
			perm[0] = (i / 10) % len(flagSpecs)
		}
		for _, k := range perm[:n] {
			f := flagSpecs[k]
			var pre []string
			if r.Intn(8) == 0 { // the last one counts
				pre = flagArgs(r, f, &o)
			}
			scramble(r, f, &o)
			parts = append(parts, append(pre, flagArgs(r, f, &o)...))
			c.Count("flags_parsed", 1)
		}
		if r.Intn(8) == 0 {
			o.GoSlice.PrintVersion = true
			parts = append(parts, []string{[]string{"-v", "--version"}[r.Intn(2)]})
		}
		if r.Intn(2) == 0 {
			o.GoSlice.InputFilePath = []string{"model.stl", "/a/b c.stl", "x"}[r.Intn(3)]
			parts = append(parts, []string{o.GoSlice.InputFilePath})
		}
		args := shuffled(parts)
		if o.GoSlice.InputFilePath != "" && r.Intn(4) == 0 {
			args = append(args, "further.stl", "arguments")
		}
		got := parseArgs(args)
		if got.GoSlice.Logger == nil {
			c.Fail("logger", "no logger")
		}
		if a, b := dumpOf(got), dumpOf(o); a != b {
			for _, f := range flagSpecs {
				if x, y := dumpOf(f.ptr(&got)), dumpOf(f.ptr(&o)); x != y {
					c.Fail("option:"+f.name, "goslice %q: option %s is %s instead of %s", args, f.name, x, y)
				}
			}
			if !c.Failed() {
				c.Fail("option", "goslice %q: %s instead of %s", args, a, b)
			}
		}
		if i%10 == 2 {
			freshDefaults(c)
			spoil(&got)
			if d := dumpOf(data.DefaultOptions()); d != pristine {
				c.Fail("defaults-shared", "changing parsed options changes the default options: %s instead of %s", d, pristine)
			}
		}
		c.Count("parsed", 1)
		if n == 0 {
			def := parseArgs(nil)
			for _, f := range flagSpecs {
				if v, want := plainValue(f.ptr(&def)), documentedDefaults[f.name]; v != want {
					c.Fail("default:"+f.name, "the default of --%s is %s instead of %s", f.name, v, want)
				}
			}
			c.Count("defaults", 1)
		}
		c.Nontrivial(len(args) > 0)
		c.Sample("goslice %q", args)
		return
	}
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(dir, 0o755)
	m := boxMesh(rnd(r, 3, 12), rnd(r, 3, 12), rnd(r, 0.4, 2))
	switch r.Intn(4) {
	case 0:
		m = randSolid(r, SolidOpts{MaxR: 8, MaxH: 3, Ledges: true})
	case 1:
		m = m.Append(boxMesh(20, 14, 0.4).Translate(V3{0, 0, 1.4 + r.Float64()}))
	}
	os.WriteFile(filepath.Join(dir, "m.stl"), m.BinarySTL("x"), 0o644)
	if i%40 == 30 {
		for n := 0; n < 15 && !c.Failed(); n++ {
			bad := [][2]string{{"inset-count", "x"}, {"inset-count", ""}, {"inset-count", "1.5"}, {"inset-count", "99999999999999999999"}, {"layer-thickness", "0.2"}, {"layer-thickness", "2e2"}, {"layer-thickness", ""}, {"layer-speed", "fast"}, {"layer-speed", "1,5"}, {"layer-speed", ""}, {"layer-speed", "1e99"},
				{"center", "1_2"}, {"center", "1_2_3_4"}, {"center", "1_2_x"}, {"center", ""}, {"center", "1.5_2_3"}, {"fan-speed", "3"}, {"fan-speed", "3=256"}, {"fan-speed", "3=-1"}, {"fan-speed", "-1=3"}, {"fan-speed", "1=1,"}, {"fan-speed", "1=1=1"}, {"fan-speed", "a=b"}, {"support-enabled", "maybe"}, {"has-heated-bed", "2"},
				{"meld-distance", "near"}, {"filament-diameter", "1.75"}, {"extrusion-width", "0"}, {"extrusion-width", "-1"}, {"layer-thickness", "-200"}, {"initial-layer-thickness", "0"}, {"filament-diameter", "0"}}
			b := bad[r.Intn(len(bad))]
			args := []string{"m.stl", "-o", "o", "--" + b[0] + "=" + b[1]}
			switch r.Intn(4) {
			case 0: // unknown one letter flags
				l := "abcdefgijklmnpqrstuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?#"
				x := "-" + string(l[r.Intn(len(l))])
				args = args[:3]
				switch r.Intn(3) {
				case 0:
					args = append(args, x)
				case 1:
					args = append(args, x+"=3")
				case 2:
					args = append(args, x, "3")
				}
				c.Count("unknown_short", 1)
			case 1: // almost the names of flags
				n := flagSpecs[r.Intn(len(flagSpecs))].name
				known := map[string]bool{"help": true, "version": true}
				for _, f := range flagSpecs {
					known[f.name] = true
				}
				k := r.Intn(len(n))
				x := []string{n[:k], n[:k] + n[k+1:], n + "s", "no-" + n, strings.ToUpper(n), strings.ReplaceAll(n, "-", "_"), strings.ReplaceAll(n, "-", ""), n[k:], strings.Split(n, "-")[0]}[r.Intn(9)]
				if x == "" || known[x] || x[0] == '-' || x[0] == '=' {
					x = "v" + n
				}
				args = append(args[:3], "--"+x+"="+[]string{"", "1", "3"}[r.Intn(3)])
				c.Count("unknown_long", 1)
			case 2: // numbers that are none
				var ints []flagSpec
				o := data.DefaultOptions()
				for _, f := range flagSpecs {
					switch f.ptr(&o).(type) {
					case *int, *data.Micrometer:
						ints = append(ints, f)
					}
				}
				s := nearInt(r, fmt.Sprint(1+r.Intn(500)))
				if _, err := strconv.ParseInt(s, 0, 64); err == nil {
					s = "x" + s
				}
				s = strings.ReplaceAll(s, "\x00", "~")
				args[3] = "--" + ints[r.Intn(len(ints))].name + "=" + s
			}
			if r.Intn(2) == 0 {
				r.Shuffle(len(args), func(i, j int) {
					// -o and its value stay together
					if args[i] != "-o" && args[j] != "-o" && args[i] != "o" && args[j] != "o" && args[i] != "3" && args[j] != "3" && len(args) == 4 {
						args[i], args[j] = args[j], args[i]
					}
				})
			}
			res := cli(dir, nil, nil, args...)
			if _, err := os.Stat(filepath.Join(dir, "o")); res.code == 0 || err == nil {
				c.Fail("not-refused", "goslice %q ended with %d, output: %v", args, res.code, err == nil)
			}
			c.Count("refused", 1)
			c.Nontrivial(true)
		}
		return
	}
	v := randOptions(r, varyAll)
	v.Slicing.MeldDistance = data.Micrometer(pickInt(r, 30, 10, 100))
	v.Slicing.JoinPolygonSnapDistance = data.Micrometer(pickInt(r, 160, 100))
	v.Slicing.FinishPolygonSnapDistance = data.Micrometer(pickInt(r, 1000, 500))
	v.Filament.FilamentDiameter = data.Micrometer(pickInt(r, 1750, 2850))
	v.Filament.InitialBedTemperature = pickInt(r, 60, 70)
	v.Filament.BedTemperature = pickInt(r, 55, 65)
	v.Filament.HotEndTemperature = pickInt(r, 200, 210)
	v.Filament.InitialHotEndTemperature = pickInt(r, 205, 215)
	v.Filament.FanSpeed.LayerToSpeedLUT = randLUT(r)
	v.Printer.ForceSafeStartStopGCode = r.Intn(2) == 0
	v.Printer.StartGCode.GCodeLines = textHunk(r)
	v.Printer.EndGCode.GCodeLines = textHunk(r)
	o := data.DefaultOptions()
	o.GoSlice.Logger = quietLog
	var parts [][]string
	n := pickInt(r, 1, 2, 5, 10, 43)
	if i%20 == 0 {
		n = 1
	}
	perm := r.Perm(len(flagSpecs) - 1)
	if n == 1 {
		perm[0] = (i / 20) % (len(flagSpecs) - 1)
	}
	var names []string
	for _, k := range perm[:n] {
		f := flagSpecs[1+k]
		switch p := f.ptr(&o).(type) {
		case *bool:
			*p = *f.ptr(&v).(*bool)
			if n == 1 {
				*p = !*f.ptr(&[]data.Options{data.DefaultOptions()}[0]).(*bool)
			}
		case *int:
			*p = *f.ptr(&v).(*int)
		case *data.Micrometer:
			*p = *f.ptr(&v).(*data.Micrometer)
		case *data.Millimeter:
			*p = *f.ptr(&v).(*data.Millimeter)
		case *data.MicroVec3:
			*p = *f.ptr(&v).(*data.MicroVec3)
		case *data.FanSpeedOptions:
			*p = *f.ptr(&v).(*data.FanSpeedOptions)
		case *data.GCodeHunk:
			*p = *f.ptr(&v).(*data.GCodeHunk)
		}
		parts = append(parts, flagArgs(r, f, &o))
		names = append(names, f.name)
		c.Count("flags_in_programs", 1)
	}
	args := shuffled(append(parts, []string{"m.stl"}, []string{"--output=o"}))
	program := func(o data.Options) string {
		o.GoSlice.Logger = quietLog
		o.GoSlice.InputFilePath = filepath.Join(dir, "m.stl")
		run := &Run{}
		g := goslice.NewGoSlice(o)
		g.Writer = writeTap{run}
		if err := g.Process(); err != nil {
			c.Fail("error", "slicing a valid model with %q failed: %v", args, err)
		}
		return run.GCode
	}
	want := program(o)
	res := cli(dir, nil, nil, args...)
	b, err := os.ReadFile(filepath.Join(dir, "o"))
	if res.code != 0 || err != nil {
		c.Fail("exit-code", "goslice %q ended with %d: %s", args, res.code, shorten(res.out, 300))
		return
	}
	if string(b) != want {
		c.Fail("program", "goslice %q: the program is not the one of the library with these options (first difference at %d)", args, firstDiff(string(b), want))
	}
	if program(data.DefaultOptions()) != want {
		c.Count("programs_changed", 1)
		if n == 1 {
			c.Count("changes_by_"+names[0], 1)
		}
	}
	c.Count("programs", 1)
	c.Nontrivial(true)
}

func runC24(c *Ctx, i int) {
	r := c.Rand
	c.Name("case-%d", i)
	c.Key(i)
	c.Nontrivial(true)
	junk := func() string {
		al := "0123456789-+_.,=exX \n\tabGMnÿ\x00"
		var b []byte
		for n := r.Intn(9); n > 0; n-- {
			b = append(b, al[r.Intn(len(al))])
		}
		return string(b)
	}
	intText := func() (string, int64) {
		v := int64(r.Intn(4000)) - 1000
		switch r.Intn(5) {
		case 0:
			v = r.Int63() - r.Int63()
		case 1:
			v = []int64{0, math.MaxInt64, math.MinInt64, 1, -1}[r.Intn(5)]
		}
		return strconv.FormatInt(v, 10), v
	}
	// a decimal integer as anyone would write it
	plainInt := func(s string) (int64, bool) {
		t := strings.TrimLeft(s, "+-")
		if t == "" || len(s)-len(t) > 1 || len(t) > 1 && t[0] == '0' || strings.Trim(t, "0123456789") != "" {
			return 0, false
		}
		v, err := strconv.ParseInt(s, 10, 64)
		return v, err == nil
	}
	// texts that are no integer in any notation
	noInt := func(s string) bool {
		_, err := strconv.ParseInt(s, 0, 64)
		return err != nil
	}
	switch i % 6 {
	case 0: // micrometer
		s, v := intText()
		var m data.Micrometer
		if err := m.Set(s); err != nil || int64(m) != v {
			c.Fail("micrometer", "%q is read as %d, %v", s, m, err)
		}
		c.Count("accepted", 1)
		var b data.Micrometer
		if err := b.Set(m.String()); err != nil || b != m {
			c.Fail("micrometer-back", "%d is written as %q and read as %d, %v", m, m.String(), b, err)
		}
		c.Count("read_back", 1)
		j := junk()
		if r.Intn(3) == 0 {
			j = nearInt(r, s)
		}
		b = m
		err := b.Set(j)
		if x, ok := plainInt(j); ok && (err != nil || int64(b) != x) {
			c.Fail("micrometer", "%q is read as %d, %v", j, b, err)
		} else if noInt(j) {
			if err == nil {
				c.Fail("micrometer-junk", "%q is accepted as %d", j, b)
			} else if b != m {
				c.Fail("micrometer-partial", "the refused %q changed the option from %d to %d", j, m, b)
			}
			c.Count("refused", 1)
		}
	case 1: // millimeter
		v := float32(pick(r, rnd(r, -500, 500), rnd(r, 0, 1), 0, 1e6*r.Float64(), float64(r.Intn(2000))/1000))
		s := strconv.FormatFloat(float64(v), "feg"[r.Intn(3)], -1, 32)
		var m data.Millimeter
		if err := m.Set(s); err != nil || float32(m) != v {
			c.Fail("millimeter", "%q is read as %v, %v", s, float32(m), err)
		}
		c.Count("accepted", 1)
		var b data.Millimeter
		if err := b.Set(m.String()); err != nil || math.Abs(float64(b-m)) > 0.000501+math.Abs(float64(m))*1e-6 {
			c.Fail("millimeter-back", "%v is written as %q and read as %v, %v", float32(m), m.String(), float32(b), err)
		}
		c.Count("read_back", 1)
		j := junk()
		switch r.Intn(6) {
		case 0:
			j = s + []string{"mm", " ", "e", "e+", "_", "f", ".", ".0.", "x", ","}[r.Intn(10)]
		case 1:
			j = []string{" ", "\n", "+ ", "--", "=", "0x", "e", "_", "."}[r.Intn(9)] + s
		case 2:
			j = []string{".", "e5", "1e39", "-1e39", "+", "1__0", "in", "na", "infi", "1e", "0x1", "0x1p", "0b1", "3,5"}[r.Intn(14)]
		}
		b = m
		err := b.Set(j)
		x, e := strconv.ParseFloat(j, 32)
		if e == nil && (err != nil || float32(b) != float32(x) && x == x) {
			c.Fail("millimeter", "%q is read as %v, %v", j, float32(b), err)
		} else if e != nil {
			if err == nil {
				c.Fail("millimeter-junk", "%q is accepted as %v", j, float32(b))
			} else if b != m {
				c.Fail("millimeter-partial", "the refused %q changed the option from %v to %v", j, float32(m), float32(b))
			}
			c.Count("refused", 1)
		}
	case 2: // center
		var t [3]string
		var v [3]int64
		for k := range t {
			t[k], v[k] = intText()
		}
		p := data.NewMicroVec3(7, 8, 9)
		s := strings.Join(t[:], "_")
		if err := p.Set(s); err != nil || iv3(p) != (IV3{v[0], v[1], v[2]}) {
			c.Fail("center", "%q is read as %v, %v", s, p, err)
		}
		c.Count("accepted", 1)
		q := data.NewMicroVec3(1, 2, 3)
		if err := q.Set(p.String()); err != nil || iv3(q) != iv3(p) {
			c.Fail("center-back", "%v is written as %q and read as %v, %v", iv3(p), p.String(), iv3(q), err)
		}
		c.Count("read_back", 1)
		bad := s
		switch r.Intn(7) {
		case 6:
			k := r.Intn(3)
			t[k] = nearInt(r, t[k])
			bad = strings.Join(t[:], "_")
		case 0:
			bad = t[0] + "_" + t[1]
		case 1:
			bad = s + "_" + t[0]
		case 2:
			bad = strings.Replace(s, "_", ",", 1)
		case 3:
			bad = t[0] + "__" + t[2]
		case 4:
			bad = s + "mm"
		case 5:
			bad = junk()
		}
		parts := strings.Split(bad, "_")
		invalid := len(parts) != 3
		for _, x := range parts {
			invalid = invalid || noInt(x)
		}
		if invalid {
			q = data.NewMicroVec3(1, 2, 3)
			before := iv3(q)
			if err := q.Set(bad); err == nil {
				c.Fail("center-junk", "%q is accepted as %v", bad, q)
			}
			if iv3(q) != before {
				c.Fail("center-partial", "the refused %q changed the center to %v", bad, q)
			}
			c.Count("refused", 1)
		}
	case 3: // fan
		lut := randLUT(r)
		for n := r.Intn(3); n > 0; n-- {
			lut[pickInt(r, 9999, 10000, 10001, 99999, 1<<20, math.MaxInt32, r.Intn(100000))] = r.Intn(256)
		}
		if r.Intn(20) == 0 {
			for k := r.Intn(200); k >= 0; k-- {
				lut[k] = r.Intn(256)
			}
		}
		var parts []string
		for k, v := range lut {
			parts = append(parts, fmt.Sprintf("%d=%d", k, v))
		}
		s := strings.Join(parts, ",")
		f := data.NewDefaultFanSpeedOptions()
		if err := f.Set(s); err != nil || dumpOf(f.LayerToSpeedLUT) != dumpOf(lut) {
			c.Fail("fan", "%q is read as %v, %v", s, f.LayerToSpeedLUT, err)
		}
		c.Count("accepted", 1)
		g := data.NewDefaultFanSpeedOptions()
		if err := g.Set(f.String()); err != nil || dumpOf(g) != dumpOf(f) {
			c.Fail("fan-back", "%v is written as %q and read as %v, %v", f.LayerToSpeedLUT, f.String(), g.LayerToSpeedLUT, err)
		}
		c.Count("read_back", 1)
		broken := []string{"", "5", "=", "5=", "=5", "-1=5", "5=-1", "5=256", "5=1000000", "5=1=1", "a=5", "5=b", "0=256", "0=-1", "0=", "1000000=256", "5.5=1", "1=2.5", ",", "99999999999999999999=1", "1=99999999999999999999", junk()}
		w := broken[r.Intn(len(broken))]
		bad := w
		if r.Intn(2) == 0 {
			all := append(append([]string(nil), parts...), w)
			r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			bad = strings.Join(all, ",")
		}
		valid := true
		want := map[int]int{}
		for _, kv := range strings.Split(bad, ",") {
			p := strings.Split(kv, "=")
			if len(p) != 2 {
				valid = false
				break
			}
			l, e1 := strconv.Atoi(p[0])
			v, e2 := strconv.Atoi(p[1])
			if e1 != nil || e2 != nil || l < 0 || v < 0 || v > 255 {
				valid = false
				break
			}
			want[l] = v
		}
		before := dumpOf(g)
		err := g.Set(bad)
		if valid {
			if err != nil || dumpOf(g.LayerToSpeedLUT) != dumpOf(want) {
				c.Fail("fan", "%q is read as %v, %v", bad, g.LayerToSpeedLUT, err)
			}
			c.Count("accepted", 1)
		} else {
			if err == nil {
				c.Fail("fan-junk", "%q is accepted as %v", bad, g.LayerToSpeedLUT)
			}
			if dumpOf(g) != before {
				c.Fail("fan-partial", "the refused %q changed the schedule to %v", bad, g.LayerToSpeedLUT)
			}
			c.Count("refused", 1)
		}
	case 4: // hunks
		lines := textHunk(r)
		for len(lines) < 2 {
			lines = textHunk(r)
		}
		for n := r.Intn(3); n > 0; n-- {
			k := r.Intn(len(lines))
			switch r.Intn(5) {
			case 0:
				lines[k] += []string{" ", "   ", "\t", "\t ", " ;", "\r", "\\n"}[r.Intn(7)]
			case 1:
				lines[k] = []string{" ", "    ", "\t"}[r.Intn(3)] + lines[k]
			case 2:
				lines[k] = strings.ToLower(lines[k])
			case 3:
				lines[k] = "M117 " + strings.Repeat("long ", r.Intn(300)) + "ü\x00"
			case 4:
				lines = append(lines, lines...)
			}
		}
		h := data.NewGCodeHunk(lines)
		var g data.GCodeHunk
		if err := g.Set(h.String()); err != nil || strings.Join(g.GCodeLines, "|") != strings.Join(lines, "|") {
			c.Fail("hunk-back", "%q is written as %q and read as %q, %v", lines, h.String(), g.GCodeLines, err)
		}
		c.Count("read_back", 1)
		// blank lines
		var b strings.Builder
		for _, l := range lines {
			b.WriteString([]string{"", "\n", "   \n", "\t\n\n"}[r.Intn(4)] + l + "\n")
		}
		if err := g.Set(b.String()); err != nil || strings.Join(g.GCodeLines, "|") != strings.Join(lines, "|") {
			c.Fail("hunk", "%q is read as %q, %v", b.String(), g.GCodeLines, err)
		}
		// text without any line end is refused and changes nothing
		bad := strings.Join(lines, []string{"\r", "", "\\n", ";", "\t", "\v"}[r.Intn(6)])
		if r.Intn(4) == 0 {
			bad = []string{"", " ", "G28", "start.gcode", "\\n", "\r"}[r.Intn(6)]
		}
		if err := g.Set(bad); err == nil {
			c.Fail("hunk-junk", "%q is accepted as %q", bad, g.GCodeLines)
		} else if strings.Join(g.GCodeLines, "|") != strings.Join(lines, "|") {
			c.Fail("hunk-partial", "the refused %q changed the lines to %q", bad, g.GCodeLines)
		}
		c.Count("refused", 1)
		c.Count("accepted", 1)
	case 5: // codes of hunks
		var lines, firsts []string
		for n := 1 + r.Intn(6); n > 0; n-- {
			w := []string{"M104", "M1040", "M109", "M140", "G1", "G28", "T0", ";M104", "; M104", "m104", "", "  ", "M84", "M104;x", "\tM109"}[r.Intn(15)]
			l := strings.Repeat(" ", r.Intn(3)) + w + []string{"", " S200", " ; M104 comment", " X1 M109"}[r.Intn(4)]
			lines = append(lines, l)
			f := strings.TrimSpace(l)
			if k := strings.IndexByte(f, ' '); k >= 0 {
				f = f[:k]
			}
			firsts = append(firsts, f)
		}
		h := data.NewGCodeHunk(lines)
		var want []string
		for _, f := range firsts {
			if f != "" && (f[0] == 'G' || f[0] == 'M') {
				want = append(want, f)
			}
		}
		if got := h.GetInstructionCode(); strings.Join(got, "|") != strings.Join(want, "|") {
			c.Fail("codes", "%q contains the codes %q instead of %q", lines, got, want)
		}
		for _, target := range [][]string{{"M104", "M109"}, {"M140", "M190"}, {"T0"}, {}} {
			has := false
			for _, f := range firsts {
				for _, t := range target {
					has = has || strings.HasPrefix(f, t)
				}
			}
			if got := h.DoesInstructionContainCodes(target); got != has {
				c.Fail("contains", "%q contains %q: %v", lines, target, got)
			}
		}
		c.Count("codes", 1)
	}
}

// plainValue is the value of an option without its own formatting.
func plainValue(ptr interface{}) string {
	switch v := ptr.(type) {
	case *int:
		return fmt.Sprint(*v)
	case *bool:
		return fmt.Sprint(*v)
	case *string:
		return fmt.Sprintf("%q", *v)
	case *data.Micrometer:
		return fmt.Sprint(int64(*v))
	case *data.Millimeter:
		return fmt.Sprint(float32(*v))
	case *data.MicroVec3:
		return fmt.Sprint(int64((*v).X()), int64((*v).Y()), int64((*v).Z()))
	case *data.FanSpeedOptions:
		return fmt.Sprint(v.LayerToSpeedLUT) // maps are printed in order
	case *data.GCodeHunk:
		return fmt.Sprintf("%q", v.GCodeLines)
	}
	return fmt.Sprintf("? %T", ptr)
}

// documentedDefaults are the defaults the usage text announces.
var documentedDefaults = map[string]string{
	"output":                       `""`,
	"meld-distance":                `30`,
	"join-polygon-snap-distance":   `160`,
	"finish-polygon-snap-distance": `1000`,
	"initial-layer-speed":          `30`,
	"layer-speed":                  `60`,
	"outer-perimeter-speed":        `40`,
	"move-speed":                   `150`,
	"initial-layer-thickness":      `200`,
	"layer-thickness":              `200`,
	"inset-count":                  `2`,
	"infill-overlap-percent":       `50`,
	"additional-internal-infill-overlap-percent": `400`,
	"infill-percent":                  `20`,
	"infill-rotation-degree":          `45`,
	"infill-zig-zag":                  `false`,
	"number-bottom-layers":            `3`,
	"number-top-layers":               `4`,
	"support-enabled":                 `false`,
	"support-threshold-angle":         `60`,
	"support-top-gap-layers":          `3`,
	"support-interface-layers":        `2`,
	"support-pattern-spacing":         `2.5`,
	"support-gap":                     `0.6`,
	"skirt-count":                     `2`,
	"skirt-distance":                  `5`,
	"brim-count":                      `0`,
	"filament-diameter":               `1750`,
	"initial-bed-temperature":         `60`,
	"initial-hot-end-temperature":     `205`,
	"bed-temperature":                 `55`,
	"hot-end-temperature":             `200`,
	"initial-temperature-layer-count": `3`,
	"retraction-speed":                `30`,
	"retraction-length":               `2`,
	"retraction-z-hop":                `0`,
	"fan-speed":                       `map[2:255]`,
	"extrusion-multiplier":            `100`,
	"extrusion-width":                 `400`,
	"center":                          `100000 100000 0`,
	"force-safe-gcode":                `true`,
	"has-heated-bed":                  `true`,
	"start-gcode":                     `[";SET BED TEMP" "M190 S{print_bed_temperature} ; heat and wait for bed" ";SET HOTEND TEMP" "M109 S{print_temperature} ; wait for hot end temperature" "M107 ; disable fan" "G1 Z5 F5000 ; lift nozzle"]`,
	"end-gcode":                       `["M107 ; disable fan" "G28 X0  ; home X axis to get head out of the way" "M84 ;steppers off"]`,
}
