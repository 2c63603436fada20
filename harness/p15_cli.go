package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/writer"
)

// C15: the command line program and its output file.

func init() {
	register(&Prop{
		ID:    "C15",
		Level: "fault_enumeration",
		Rule:  "the real goslice binary in a scratch directory: all ways to give input and output, existing outputs, refused inputs and options, and faults while it runs (full file, file size limit, missing directories, system calls for open, read, write and close that fail at chosen places, closed or full standard output); exit code, the whole output file and every other file of the directory are compared with the program that is expected; a case is non-trivial when the process ran",
		Quick: 2400, Deep: 40000,
		Require: map[string]int{"ok": 100, "ok_default_output": 30, "ok_overwritten": 20, "failed_input": 60, "failed_output": 40, "failed_usage": 40, "no_input": 10, "version": 10, "writer": 20, "full_file": 50},
		Assume:  []string{"system calls are made to fail by strace; where strace is not able to, only the other faults are injected"},
		Run:     runC15,
	})
}

type fileInfo struct {
	mode os.FileMode
	b    []byte
}

func snapshot(dir string) map[string]fileInfo {
	out := map[string]fileInfo{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		f := fileInfo{mode: fi.Mode().Type()}
		if fi.Mode().IsRegular() {
			f.b, _ = os.ReadFile(p)
		}
		out[rel] = f
		return nil
	})
	return out
}

// changes lists the entries that are different, except those named.
func changes(a, b map[string]fileInfo, except ...string) []string {
	var out []string
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for k, v := range b {
		if skip[k] {
			continue
		}
		if o, ok := a[k]; !ok {
			out = append(out, "new: "+k)
		} else if o.mode != v.mode || !bytes.Equal(o.b, v.b) {
			out = append(out, "changed: "+k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok && !skip[k] {
			out = append(out, "gone: "+k)
		}
	}
	sort.Strings(out)
	return out
}

type cliResult struct {
	code   int // -1: ended by a signal
	out    string
	timely bool
}

// longPath returns a long directory name that does not exist.
func longPath(r *rand.Rand) string {
	return strings.Repeat(strings.Repeat("n", 1+r.Intn(250))+"/", 1+r.Intn(14))
}

// fullFile returns a file in memory which can be opened by its path in /proc but not be written.
// It stands in for a full device: nothing the code under test does to that path (removing it,
// replacing it by another file) reaches a real device or file.
func fullFile() *os.File {
	const memfdCreate, addSeals, sealGrow, sealWrite = 319, 1033, 4, 8
	name := append([]byte("vmon-full"), 0)
	fd, _, e := syscall.Syscall(memfdCreate, uintptr(unsafe.Pointer(&name[0])), 1|2, 0)
	if e != 0 {
		return nil
	}
	if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, addSeals, sealGrow|sealWrite); e != 0 {
		syscall.Close(int(fd))
		return nil
	}
	return os.NewFile(fd, "full")
}

// cli runs the program (through wrapper, if there is one).
func cli(dir string, wrapper []string, stdout *os.File, args ...string) cliResult {
	return cliWith(dir, wrapper, stdout, nil, args...)
}

// cliWith runs the program with more files: the first one is /proc/self/fd/3.
func cliWith(dir string, wrapper []string, stdout *os.File, files []*os.File, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	argv := append(append([]string(nil), wrapper...), os.Getenv("VMON_CLI"))
	argv = append(argv, args...)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.ExtraFiles = files
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	err := cmd.Run()
	r := cliResult{out: b.String(), timely: ctx.Err() == nil}
	if err != nil {
		r.code = cmd.ProcessState.ExitCode()
		if cmd.ProcessState == nil {
			r.code = -2
		}
	}
	return r
}

var haveStrace = func() func() bool {
	var done, ok bool
	return func() bool {
		if !done {
			done = true
			cmd := exec.Command("strace", "-f", "-q", "-o", "/dev/null", "-e", "trace=close", "-e", "inject=close:error=EIO:when=9999", "true")
			ok = cmd.Run() == nil
		}
		return ok
	}
}()

var complains = regexp.MustCompile(`(?i)error|fail|invalid|unknown|has to be|no such|usage`)

func runC15(c *Ctx, i int) {
	if os.Getenv("VMON_CLI") == "" {
		panic("harness: VMON_CLI is not set")
	}
	r := c.Rand
	if i%20 == 19 {
		c15writer(c)
		return
	}
	dir := filepath.Join(c.Dir(), "w")
	os.MkdirAll(filepath.Join(dir, "sub dir"), 0o755)
	h := pick(r, 0.2, 1, 2)
	m := boxMesh(rnd(r, 4, 15), rnd(r, 4, 15), h)
	var model []byte
	if r.Intn(2) == 0 {
		model = m.BinarySTL("vmon")
	} else {
		model = m.AsciiSTL("vmon", r.Intn(6))
	}
	in := []string{"model.stl", "a b.stl", "sub dir/x.STL", "noextension", "ünï.stl", "dots.v1.2.stl", "-dash.stl", "x.gcode", "x.stl.gcode", "-", ".gcode", "UPPER.STL", "50%.stl"}[r.Intn(13)]
	write := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			panic("harness: " + err.Error())
		}
	}
	// the expected program
	o := defaults()
	var flags []string
	if r.Intn(2) == 0 {
		o.Print.InsetCount = 1 + r.Intn(3)
		flags = append(flags, fmt.Sprintf("--inset-count=%d", o.Print.InsetCount))
	}
	if r.Intn(3) == 0 {
		o.Print.BrimSkirt.BrimCount = r.Intn(4)
		flags = append(flags, "--brim-count", fmt.Sprint(o.Print.BrimSkirt.BrimCount))
	}
	expect := func() string {
		run := &Run{}
		o.GoSlice.InputFilePath = c.File("expect.stl", model)
		o.GoSlice.OutputFilePath = c.Dir() + "/unused"
		g := goslice.NewGoSlice(o)
		g.Writer = writeTap{run}
		if err := g.Process(); err != nil {
			c.Fail("error", "slicing a valid model failed: %v", err)
		}
		return run.GCode
	}
	inArg := in
	if r.Intn(3) == 0 {
		inArg = filepath.Join(dir, in)
	} else if len(in) > 1 && strings.HasPrefix(in, "-") {
		inArg = "./" + in
	}
	outName := []string{"out.gcode", "sub dir/o.g", "model.gcode", "o"}[r.Intn(4)]
	outArgs := func(name string) []string {
		if r.Intn(3) == 0 && !filepath.IsAbs(name) {
			name = filepath.Join(dir, name)
		}
		switch r.Intn(4) {
		case 0:
			return []string{"-o", name}
		case 1:
			return []string{"--output", name}
		case 2:
			return []string{"--output=" + name}
		}
		return []string{"-o=" + name}
	}
	order := func(parts ...[]string) []string {
		var a []string
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		for _, p := range parts {
			a = append(a, p...)
		}
		return a
	}
	old := []byte(nil)
	prepare := func(out string) {
		switch r.Intn(6) {
		case 0, 1:
			old = bytes.Repeat([]byte(";old\n"), 1+r.Intn(60000))
			write(out, old)
		case 2: // looks like the output
			old = []byte(expect())
			if c.Failed() || len(old) == 0 {
				return
			}
			switch r.Intn(4) {
			case 0:
				old[len(old)-1-r.Intn(min(len(old), 2000))] ^= 1
			case 1:
				old[r.Intn(len(old))] ^= 1
			case 2:
				old = old[:r.Intn(len(old))]
			case 3:
				old = append(old, ";old\n"...)
			}
			write(out, old)
		}
	}
	c.Name("case-%d", i)
	c.Key(i)
	// success checks a run that has to succeed, or (faulty) may do so only with the complete output.
	judge := func(kind string, res cliResult, before map[string]fileInfo, out string, faulty bool, args []string) {
		c.Nontrivial(true)
		if !res.timely {
			c.Fail("hang", "%s: goslice %q did not end", kind, args)
			return
		}
		after := snapshot(dir)
		if ch := changes(before, after, out); len(ch) > 0 {
			c.Fail("other-files", "%s: goslice %q touched other files: %v", kind, args, ch)
		}
		if res.code != 0 {
			if !faulty {
				c.Fail("exit-code", "%s: goslice %q ended with %d: %s", kind, args, res.code, shorten(res.out, 300))
				return
			}
			c.Count("failed_output", 1)
			c.Count("failed_"+kind, 1)
			return
		}
		want := expect()
		f, ok := after[out]
		if !ok {
			c.Fail("no-output", "%s: goslice %q reports success but there is no %s", kind, args, out)
			return
		}
		if string(f.b) != want {
			c.Fail("wrong-output", "%s: goslice %q reports success, but %s differs from the program (%d instead of %d bytes, first difference at %d)", kind, args, out, len(f.b), len(want), firstDiff(string(f.b), want))
			return
		}
		c.Count("ok", 1)
		if old != nil {
			c.Count("ok_overwritten", 1)
		}
	}
	// fails checks a run that has to fail without touching anything but (partly) out.
	fails := func(kind string, res cliResult, before map[string]fileInfo, out string, args []string) {
		c.Nontrivial(true)
		if !res.timely {
			c.Fail("hang", "%s: goslice %q did not end", kind, args)
			return
		}
		if res.code == 0 {
			c.Fail("success", "%s: goslice %q reports success: %s", kind, args, shorten(res.out, 300))
			return
		}
		if ch := changes(before, snapshot(dir), out); len(ch) > 0 {
			c.Fail("other-files", "%s: goslice %q failed but touched files: %v", kind, args, ch)
		}
		if res.code > 0 && !complains.MatchString(res.out) {
			c.Fail("silent", "%s: goslice %q failed without a message: %q", kind, args, shorten(res.out, 300))
		}
		c.Sample("%s: %q -> %d", kind, args, res.code)
	}

	switch k := i % 20; k {
	case 0, 1: // default output
		write(in, model)
		prepare(in + ".gcode")
		before := snapshot(dir)
		args := order([]string{inArg}, flags)
		judge("default", cli(dir, nil, nil, args...), before, in+".gcode", false, args)
		c.Count("ok_default_output", 1)
	case 2, 3: // chosen output
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		args := order([]string{inArg}, flags, outArgs(outName))
		judge("output", cli(dir, nil, nil, args...), before, outName, false, args)
	case 4: // flags end, further arguments, twice
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		args := append(append(outArgs(outName), flags...), "--", in)
		judge("twice", cli(dir, nil, nil, args...), before, outName, false, args)
		old = nil
		judge("twice", cli(dir, nil, nil, args...), before, outName, false, args)
	case 5: // no input
		args := order(flags, outArgs(outName))
		if r.Intn(3) == 0 {
			args = nil
		}
		before := snapshot(dir)
		res := cli(dir, nil, nil, args...)
		fails("no_input", res, before, "", args)
		c.Count("no_input", 1)
	case 6: // version
		before := snapshot(dir)
		args := []string{[]string{"--version", "-v"}[r.Intn(2)]}
		if r.Intn(2) == 0 {
			write(in, model)
			before = snapshot(dir)
			args = append(args, inArg)
		}
		res := cli(dir, nil, nil, args...)
		if res.code != 0 || !strings.HasPrefix(res.out, "GoSlice ") {
			c.Fail("version", "goslice %q ended with %d: %s", args, res.code, shorten(res.out, 200))
		}
		if ch := changes(before, snapshot(dir)); len(ch) > 0 {
			c.Fail("other-files", "goslice %q touched files: %v", args, ch)
		}
		c.Count("version", 1)
		c.Nontrivial(true)
	case 7, 8: // unusable options
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		bad := [][]string{{"--does-not-exist"}, {"--inset-count=x"}, {"--layer-thickness=0.2"}, {"--layer-thickness=0"}, {"--extrusion-width=-400"}, {"--layer-speed=abc"}, {"--center=1_2"}, {"--fan-speed=3=256"}, {"--fan-speed=a=1"}, {"--support-enabled=maybe"}, {"--inset-count"}, {"-z"}, {"--center", "1_2_3_4"}}[r.Intn(13)]
		args := order([]string{inArg}, flags, outArgs(outName))
		args = append(args, bad...)
		fails("usage", cli(dir, nil, nil, args...), before, "", args)
		c.Count("failed_usage", 1)
	case 9, 10, 11: // unusable input
		kind, long := r.Intn(6), false
		switch kind {
		case 5:
			write(in, model)
			if os.Getuid() == 0 { // permissions do not matter
				os.Remove(filepath.Join(dir, in))
			} else {
				os.Chmod(filepath.Join(dir, in), []os.FileMode{0, 0o222, 0o111}[r.Intn(3)])
				c.Count("unreadable", 1)
			}
		case 0: // missing
			if r.Intn(2) == 0 {
				in = longPath(r) + in
				inArg, long = in, true
			}
		case 1:
			write(in, model[:1+r.Intn(len(model)-60)])
		case 2:
			write(in, nil)
		case 3:
			os.MkdirAll(filepath.Join(dir, in), 0o755)
		default:
			b := []byte("solid x\nendsolid x\n")
			if r.Intn(2) == 0 {
				b = make([]byte, r.Intn(3000))
				r.Read(b)
			}
			write(in, b)
		}
		var oa []string
		out := in + ".gcode"
		if r.Intn(2) == 0 || long {
			out = outName
			oa = outArgs(outName)
		}
		prepare(out)
		before := snapshot(dir)
		args := order([]string{inArg}, flags, oa)
		fails("input", cli(dir, nil, nil, args...), before, "", args)
		c.Count("failed_input", 1)
	case 12: // output impossible
		write(in, model)
		if os.Getuid() != 0 && r.Intn(3) == 0 { // not permitted
			out := outName
			if r.Intn(2) == 0 {
				write(out, bytes.Repeat([]byte(";old\n"), 1+r.Intn(60000)))
				os.Chmod(filepath.Join(dir, out), []os.FileMode{0, 0o444}[r.Intn(2)])
				c.Count("unwritable_file", 1)
			} else {
				os.Mkdir(filepath.Join(dir, "locked"), 0o755)
				out = "locked/" + filepath.Base(out)
			}
			if r.Intn(2) == 0 {
				old = nil
			}
			before := snapshot(dir)
			if strings.HasPrefix(out, "locked") {
				os.Chmod(filepath.Join(dir, "locked"), 0o555)
				c.Count("unwritable_dir", 1)
			}
			args := order([]string{inArg}, flags, outArgs(out))
			res := cli(dir, nil, nil, args...)
			os.Chmod(filepath.Join(dir, "locked"), 0o755)
			os.Chmod(filepath.Join(dir, out), 0o644)
			// replacing the file is no error
			if res.code == 0 {
				judge("output", res, before, out, true, args)
			} else {
				fails("output", res, before, out, args)
			}
			return
		}
		out := []string{"no/such/dir/o.gcode", "sub dir", "/proc/self/fd/3", in + "/o.gcode", longPath(r) + "o.gcode"}[r.Intn(5)]
		var files []*os.File
		if out == "/proc/self/fd/3" {
			f := fullFile()
			if f == nil {
				c.Count("no_full_file", 1)
				return
			}
			defer f.Close()
			files = append(files, f)
			c.Count("full_file", 1)
		}
		before := snapshot(dir)
		args := order([]string{inArg}, flags, []string{"-o", out})
		fails("output", cliWith(dir, nil, nil, files, args...), before, "", args)
		c.Count("failed_output", 1)
	case 13: // file size limit
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		args := order([]string{inArg}, flags, outArgs(outName))
		w := []string{"bash", "-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", r.Intn(40))}
		judge("limit", cli(dir, w, nil, args...), before, outName, true, args)
	case 14: // standard output does not work
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		args := order([]string{inArg}, flags, outArgs(outName))
		if r.Intn(2) == 0 {
			f := fullFile()
			if f == nil {
				c.Count("no_full_file", 1)
				return
			}
			defer f.Close()
			judge("stdout", cli(dir, nil, f, args...), before, outName, true, args)
		} else {
			w := []string{"bash", "-c", "exec \"$0\" \"$@\" >&-"}
			judge("stdout", cli(dir, w, nil, args...), before, outName, true, args)
		}
	default: // system calls fail
		if !haveStrace() {
			c.Count("no_strace", 1)
			return
		}
		write(in, model)
		prepare(outName)
		before := snapshot(dir)
		abs := filepath.Join(dir, outName)
		where := abs
		var inject, sys string
		errno := []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPERM", "EACCES", "EROFS"}[r.Intn(7)]
		mustFail := true
		kind := []string{"close", "write", "open_out", "read", "open_in"}[r.Intn(5)]
		switch kind {
		case "close":
			sys, inject = "close", "close:error="+errno
		case "write":
			sys, inject = "write", fmt.Sprintf("write:error=%s:when=%d", errno, 1+r.Intn(2))
			mustFail = false // there may be only one write
		case "open_out":
			sys, inject = "openat", "openat:error="+errno
		case "read":
			where = filepath.Join(dir, in)
			sys, inject = "read", fmt.Sprintf("read:error=%s:when=%d", "EIO", 1+r.Intn(3))
			mustFail = false
		case "open_in":
			where = filepath.Join(dir, in)
			sys, inject = "openat", "openat:error="+errno
		}
		trace := filepath.Join(c.Dir(), "trace")
		w := []string{"strace", "-f", "-q", "-o", trace, "-e", "signal=none", "-P", where, "-e", "trace=" + sys, "-e", "inject=" + inject}
		// strace matches the paths as they are given
		args := order([]string{filepath.Join(dir, in)}, flags, []string{"-o", abs})
		res := cli(dir, w, nil, args...)
		tb, _ := os.ReadFile(trace)
		injected := strings.Count(string(tb), "(INJECTED)")
		c.Count("injected_"+kind, injected)
		if mustFail && injected == 0 {
			if sys == "openat" || sys == "close" {
				// another way to open or close files: the fault was not injected
				mustFail = false
			}
		}
		out := outName
		if kind == "read" || kind == "open_in" {
			out = ""
		}
		if injected > 0 && kind != "read" || mustFail {
			if res.code == 0 {
				c.Fail("success", "%s: goslice %q reports success although %s failed: %s", kind, args, inject, shorten(string(tb), 300))
			}
		}
		if injected > 0 && res.code != 0 {
			fails(kind, res, before, out, args)
		} else if injected == 0 || res.code == 0 && !c.Failed() {
			judge(kind, res, before, outName, false, args)
		}
	}
}

func shorten(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// c15writer uses the writer alone.
func c15writer(c *Ctx) {
	r := c.Rand
	c.Name("writer-%d", c.I)
	c.Key("writer", c.I)
	var code string
	switch r.Intn(5) {
	case 0:
	case 1:
		b := make([]byte, r.Intn(100000))
		r.Read(b)
		code = string(b)
	case 2:
		code = strings.Repeat("G1 X1 Y2 %d %s\r\n\x00ü", r.Intn(200000))
	default:
		code = strings.Repeat("G1 X10.00 Y20.00 E1.0000\n", r.Intn(3000))
	}
	w := writer.Writer()
	f := filepath.Join(c.Dir(), "o.gcode")
	for n := r.Intn(3); n >= 0; n-- {
		if err := w.Write(code, f); err != nil {
			c.Fail("writer", "writing failed: %v", err)
			return
		}
		if b, err := os.ReadFile(f); err != nil || string(b) != code {
			c.Fail("writer", "%d bytes in the file instead of %d, %v", len(b), len(code), err)
			return
		}
		if len(code) > 0 {
			code = code[:r.Intn(len(code))]
		}
	}
	for _, bad := range []string{filepath.Join(c.Dir(), "no", "o"), c.Dir(), ""} {
		if err := w.Write("G1\n", bad); err == nil {
			c.Fail("writer", "writing to %q succeeded", bad)
		}
	}
	if f := fullFile(); f != nil {
		if err := w.Write("G1\n", fmt.Sprintf("/proc/self/fd/%d", f.Fd())); err == nil {
			c.Fail("writer", "writing to a full file succeeded")
		}
		f.Close()
		c.Count("full_file", 1)
	}
	c.Count("writer", 1)
	c.Nontrivial(true)
}
