package main

// The runner: deterministic case lists, worker processes, watchdogs, verdicts, evidence.
//
// Verdicts are three-valued: exit 0 (held on everything observed), exit 1 + VIOLATION line, and
// anything else (inconclusive: too few events observed, or the machinery itself failed).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID      string
	Rule    string
	Quick   int // number of cases in the quick tier
	Deep    int // number of cases in the thorough tier
	Assume  []string
	Require map[string]int // minimum observed counts; fewer is inconclusive
	Level   string         // default: exploration
	Race    bool           // run by the binary built with the race detector
	Workers int            // 0: one per CPU (at most 8)
	CPU     int            // CPU seconds per case before it counts as a hang (default 60)
	Run     func(c *Ctx, i int)
}

func (p *Prop) level() string {
	if p.Level == "" {
		return "exploration"
	}
	return p.Level
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Fail struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

type Result struct {
	I        int            `json:"i"`
	Name     string         `json:"name"`
	Fails    []Fail         `json:"fails,omitempty"`
	Counts   map[string]int `json:"counts,omitempty"`
	Max      map[string]float64
	Distinct []uint64 `json:"distinct,omitempty"`
	Sample   string   `json:"sample,omitempty"`
	Nontriv  bool     `json:"nontriv,omitempty"`
	CPU      float64  `json:"cpu"`
	Panicked bool     `json:"panicked,omitempty"`
}

// Ctx is what a case sees.
type Ctx struct {
	*rand.Rand
	Prop *Prop
	Tier string
	I    int
	res  Result
	dir  string
	mu   sync.Mutex
	key  []string
}

// Name gives the case a stable name (known findings are identified by it).
func (c *Ctx) Name(format string, a ...interface{}) {
	c.res.Name = fmt.Sprintf(format, a...)
	curName.Store(c.res.Name)
}

var curName atomic.Value

// Fail records a violation observed by a monitor.
func (c *Ctx) Fail(sig, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Fails) < 20 {
		c.res.Fails = append(c.res.Fails, Fail{sig, fmt.Sprintf(format, a...)})
	}
}

func (c *Ctx) Failed() bool { return len(c.res.Fails) > 0 }

// Count adds to a measured counter of observed events.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counts[name] += n
	c.mu.Unlock()
}

// Max keeps the largest value seen of a measured quantity.
func (c *Ctx) Max(name string, v float64) {
	c.mu.Lock()
	if v > c.res.Max[name] {
		c.res.Max[name] = v
	}
	c.mu.Unlock()
}

// Key adds to the identity of the case for counting the distinct ones.
func (c *Ctx) Key(a ...interface{}) { c.key = append(c.key, fmt.Sprint(a...)) }

// Nontrivial marks the case as one that drove the property's mechanism.
func (c *Ctx) Nontrivial(b bool) {
	if b {
		c.res.Nontriv = true
	}
}

func (c *Ctx) Sample(format string, a ...interface{}) {
	if c.res.Sample == "" {
		c.res.Sample = fmt.Sprintf(format, a...)
	}
}

func (c *Ctx) Dir() string { return c.dir }

func (c *Ctx) File(name string, b []byte) string {
	p := filepath.Join(c.dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

func caseSeed(prop string, seed int64, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
	return int64(h.Sum64() >> 1)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

// panicSig names the place of a panic by the innermost frames that are not the runtime's.
func panicSig(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "goroutine") || strings.HasPrefix(l, "main.runCase") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			f := l[:i]
			if strings.HasPrefix(f, "runtime") || f == "" {
				continue
			}
			return f
		}
	}
	return "?"
}

func runCase(p *Prop, tier string, seed int64, i int, dir string) (res Result) {
	c := &Ctx{Rand: rand.New(rand.NewSource(caseSeed(p.ID, seed, i))), Prop: p, Tier: tier, I: i, dir: dir}
	c.res = Result{I: i, Name: fmt.Sprintf("case-%d", i), Counts: map[string]int{}, Max: map[string]float64{}}
	curName.Store(c.res.Name)
	t0 := cpuSeconds()
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if k := strings.Index(st, "panic("); k >= 0 {
				st = st[k:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			c.Fail("panic:"+panicSig(st), "panic: %v\n%s", r, st)
			c.res.Panicked = true
		}
		c.res.CPU = cpuSeconds() - t0
		if c.res.Nontriv {
			h := fnv.New64a()
			for _, k := range c.key {
				h.Write([]byte(k))
				h.Write([]byte{0})
			}
			if len(c.key) == 0 {
				fmt.Fprint(h, c.res.Name, i)
			}
			c.res.Distinct = []uint64{h.Sum64()}
		}
		res = c.res
	}()
	p.Run(c, i)
	return
}

const memLimit = 3 << 30

func workerMain(p *Prop, tier string, seed int64, root string) {
	debug.SetMaxStack(256 << 20)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1 << 30, Max: 1 << 30})
	runtime.GOMAXPROCS(2)
	if p.Race {
		runtime.GOMAXPROCS(4)
	}
	out := os.NewFile(3, "results")
	var omu sync.Mutex
	send := func(r Result) {
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(Result{I: r.I, Name: r.Name, Fails: []Fail{{"harness", err.Error()}}})
		}
		omu.Lock()
		out.Write(append(b, '\n'))
		omu.Unlock()
	}
	limit := float64(p.CPU)
	if limit == 0 {
		limit = 60
	}
	var cur struct {
		sync.Mutex
		i  int
		t0 float64
		w0 time.Time
		on bool
	}
	go func() {
		for {
			time.Sleep(40 * time.Millisecond)
			cur.Lock()
			if cur.on {
				if cpuSeconds()-cur.t0 > limit {
					send(Result{I: cur.i, Name: curName.Load().(string), Fails: []Fail{{"hang", fmt.Sprintf("did not finish within %.0f s of CPU time\n%s", limit, allStacks())}}})
					os.Exit(9)
				}
				if time.Since(cur.w0) > 150*time.Second && cpuSeconds()-cur.t0 < 2 {
					send(Result{I: cur.i, Name: curName.Load().(string), Fails: []Fail{{"stuck", fmt.Sprintf("waits for ever\n%s", allStacks())}}})
					os.Exit(9)
				}
				if rssBytes() > memLimit {
					send(Result{I: cur.i, Name: curName.Load().(string), Fails: []Fail{{"memory", fmt.Sprintf("used more than %d GB of memory\n%s", memLimit>>30, allStacks())}}})
					os.Exit(9)
				}
			}
			cur.Unlock()
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var i int
		fmt.Sscan(sc.Text(), &i)
		dir := filepath.Join(root, fmt.Sprintf("c%d", i))
		os.MkdirAll(dir, 0o755)
		cur.Lock()
		cur.i, cur.t0, cur.w0, cur.on = i, cpuSeconds(), time.Now(), true
		cur.Unlock()
		r := runCase(p, tier, seed, i, dir)
		cur.Lock()
		cur.on = false
		cur.Unlock()
		os.RemoveAll(dir)
		send(r)
	}
}

func allStacks() string {
	b := make([]byte, 1<<16)
	n := runtime.Stack(b, true)
	s := string(b[:n])
	// keep the stack that runs the case
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "main.runCase") {
			if len(g) > 2500 {
				g = g[:2500]
			}
			return g
		}
	}
	return ""
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	rf     *os.File
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(p *Prop, tier string, seed int64, root string, env []string) (*worker, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(filepath.Join(root, "bin", "vmon"), "worker", p.ID, tier, fmt.Sprint(seed), filepath.Join(root, "work"))
	cmd.ExtraFiles = []*os.File{w}
	cmd.Dir = filepath.Join(root, "work") // files with unexpected relative names stay in the scratch directory
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if sandboxUser != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: sandboxUser, Gid: sandboxUser}
	}
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = nil
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &worker{cmd, in, bufio.NewReaderSize(r, 1<<20), r, t}, nil
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.cmd.Wait()
	w.rf.Close()
}

func (w *worker) close() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	w.rf.Close()
}

var stopEarly = os.Getenv("VMON_STOP") != ""

// sandboxUser is the unprivileged user without any files of its own, except the scratch directory, as which
// the code under test runs: whatever it does, it reaches nothing real. 0 if the check itself is not run as root.
var sandboxUser uint32

// sandbox prepares the scratch directory: bin (belongs to the user of the check) and work (to the unprivileged user).
func sandbox(root string) ([]string, error) {
	bin, work := filepath.Join(root, "bin"), filepath.Join(root, "work")
	if err := os.Chmod(root, 0o755); err != nil {
		return nil, err
	}
	for _, d := range []string{bin, work} {
		if err := os.Mkdir(d, 0o755); err != nil {
			return nil, err
		}
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	env := []string{"TMPDIR=" + work, "HOME=" + work}
	files := map[string]string{exe: "vmon"}
	if cli := os.Getenv("VMON_CLI"); cli != "" {
		files[cli] = "goslice"
		env = append(env, "VMON_CLI="+filepath.Join(bin, "goslice"))
	}
	for from, to := range files {
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(bin, to), b, 0o755); err != nil {
			return nil, err
		}
		if err := os.Chmod(filepath.Join(bin, to), 0o755); err != nil {
			return nil, err
		}
	}
	if os.Getuid() != 0 {
		return env, nil
	}
	uid := uint32(61000 + os.Getpid()%4000)
	if err := os.Chown(work, int(uid), int(uid)); err != nil {
		return nil, err
	}
	sandboxUser = uid
	return env, nil
}

// runAll distributes the cases; it returns the results in case order and the number of cases lost to the wall-clock watchdog.
func runAll(p *Prop, tier string, seed int64, root string, cases []int, env []string) ([]Result, []string) {
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	if nw > len(cases) {
		nw = len(cases)
	}
	jobs := make(chan int, len(cases))
	for _, i := range cases {
		jobs <- i
	}
	close(jobs)
	var mu sync.Mutex
	var results []Result
	var problems []string
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// the thread that starts a child must live as long as the child (Pdeathsig)
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			var w *worker
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for i := range jobs {
				if w == nil {
					var err error
					if w, err = startWorker(p, tier, seed, root, env); err != nil {
						mu.Lock()
						problems = append(problems, "worker: "+err.Error())
						mu.Unlock()
						return
					}
				}
				fmt.Fprintln(w.in, i)
				type line struct {
					b   []byte
					err error
				}
				ch := make(chan line, 1)
				go func(w *worker) {
					b, err := w.out.ReadBytes('\n')
					ch <- line{b, err}
				}(w)
				var r Result
				select {
				case l := <-ch:
					if l.err != nil {
						w.kill()
						st := w.stderr.String()
						if len(st) > 3000 {
							st = st[:3000]
						}
						sig := "crash"
						if strings.Contains(st, "WARNING: DATA RACE") {
							sig = "race:" + raceSig(st)
						}
						r = Result{I: i, Name: fmt.Sprintf("case-%d", i), Fails: []Fail{{sig, "the process died: " + st}}}
						w = nil
						break
					}
					if err := json.Unmarshal(l.b, &r); err != nil {
						mu.Lock()
						problems = append(problems, "bad worker reply: "+err.Error())
						mu.Unlock()
						w.kill()
						w = nil
						continue
					}
					if len(r.Fails) == 1 && (r.Fails[0].Sig == "hang" || r.Fails[0].Sig == "memory" || r.Fails[0].Sig == "stuck") {
						w.kill()
						w = nil
					}
				case <-time.After(800 * time.Second):
					w.kill()
					w = nil
					mu.Lock()
					problems = append(problems, fmt.Sprintf("case %d: wall clock watchdog", i))
					mu.Unlock()
					continue
				}
				mu.Lock()
				results = append(results, r)
				if stopEarly && len(r.Fails) > 0 {
					for range jobs { // campaigns only need to know whether there is a violation
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(results, func(a, b int) bool { return results[a].I < results[b].I })
	return results, problems
}

func raceSig(st string) string {
	k := strings.Index(st, "WARNING: DATA RACE")
	var fr []string
	for _, l := range strings.Split(st[k:], "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/aligator/goslice") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			fr = append(fr, l)
			if len(fr) == 2 {
				break
			}
		}
	}
	return strings.Join(fr, "|")
}

// ---- known findings ----

type finding struct{ prop, cas, sig, what string }

func loadFindings(file string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C18 case=<name> sig=<signature> :: what fails
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		var f finding
		if k := strings.Index(l, " :: "); k >= 0 {
			f.what = l[k+4:]
			l = l[:k]
		}
		for _, w := range strings.Fields(l) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "case="):
				f.cas = w[5:]
			case strings.HasPrefix(w, "sig="):
				f.sig = w[4:]
			}
		}
		out = append(out, f)
	}
	return out
}

func parentMain(p *Prop, tier string, seed int64, verif string, only int) int {
	start := time.Now()
	root, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	defer os.RemoveAll(root)
	n := p.Quick
	if tier == "thorough" {
		n = p.Deep
	}
	scaled := false
	if v, err := strconv.ParseFloat(os.Getenv("VMON_SCALE"), 64); err == nil { // a part of the cases, for campaigns
		n, scaled = int(float64(n)*v)+1, true
	}
	var cases []int
	for i := 0; i < n; i++ {
		cases = append(cases, i)
	}
	if only >= 0 {
		cases = []int{only}
	}
	env, err := sandbox(root)
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	if p.Race {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66")
	}
	results, problems := runAll(p, tier, seed, root, cases, env)

	known := loadFindings(filepath.Join(verif, "known_findings.txt"))
	counts := map[string]int{}
	maxes := map[string]float64{}
	distinct := map[uint64]bool{}
	var samples []string
	violations := 0
	knownSeen := map[string]bool{}
	bySig := map[string]int{}
	cpu := 0.0
	slowest, slowName := 0.0, ""
	evid := filepath.Join(verif, "evidence")
	rdir := filepath.Join(evid, "replay")
	os.MkdirAll(rdir, 0o755)
	if only < 0 {
		old, _ := filepath.Glob(filepath.Join(rdir, p.ID+"-*.txt"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	for _, r := range results {
		cpu += r.CPU
		if r.CPU > slowest {
			slowest, slowName = r.CPU, r.Name
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		for k, v := range r.Max {
			if v > maxes[k] {
				maxes[k] = v
			}
		}
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		if r.Sample != "" && len(samples) < 6 && (len(samples) == 0 || r.I%3 == 0 || r.I == len(results)-1) {
			samples = append(samples, r.Name+": "+r.Sample)
		}
		var bad []Fail
		for _, f := range r.Fails {
			isKnown := false
			for _, k := range known {
				if k.prop == p.ID && k.cas == r.Name && strings.HasPrefix(f.Sig, k.sig) {
					isKnown = true
					if !knownSeen[k.cas+k.sig] {
						knownSeen[k.cas+k.sig] = true
						fmt.Printf("KNOWN-FINDING: property=%s case=%s %s\n", p.ID, k.cas, k.what)
					}
				}
			}
			if !isKnown {
				bad = append(bad, f)
			}
		}
		if len(bad) > 0 {
			violations++
			for _, f := range bad {
				bySig[f.Sig]++
			}
			if violations <= 12 {
				file := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", p.ID, r.I))
				var b strings.Builder
				fmt.Fprintf(&b, "property %s, case %d (%s), seed %d, tier %s\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s %d\n\n", p.ID, r.I, r.Name, seed, tier, verif, seed, tier, p.ID, r.I)
				for _, f := range bad {
					fmt.Fprintf(&b, "[%s] %s\n", f.Sig, f.Msg)
				}
				os.WriteFile(file, []byte(b.String()), 0o644)
				msg := bad[0].Msg
				if len(msg) > 400 {
					msg = msg[:400]
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n  case %s: [%s] %s\n", p.ID, file, r.Name, bad[0].Sig, strings.ReplaceAll(msg, "\n", "\n    "))
			}
		}
	}
	if only >= 0 {
		for _, r := range results {
			fmt.Printf("case %d %s: %d failures, counts %v max %v cpu %.2f\n%s\n", r.I, r.Name, len(r.Fails), r.Counts, r.Max, r.CPU, r.Sample)
			for _, f := range r.Fails {
				fmt.Printf("  [%s] %s\n", f.Sig, f.Msg)
			}
		}
		for _, pr := range problems {
			fmt.Println("problem:", pr)
		}
		if violations > 0 {
			return 1
		}
		return 0
	}

	cov := map[string]interface{}{
		"evaluations":         len(results),
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            counts,
		"cpu_s":               round2(cpu),
		"slowest_case_cpu_s":  round2(slowest),
	}
	if len(maxes) > 0 {
		m := map[string]float64{}
		for k, v := range maxes {
			m[k] = round2(v)
		}
		cov["worst_measured"] = m
	}
	if len(bySig) > 0 {
		cov["violations_by_signature"] = bySig
	}
	var missing []string
	for k, v := range p.Require {
		if counts[k] < v && !scaled {
			missing = append(missing, fmt.Sprintf("%s=%d (need %d)", k, counts[k], v))
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		cov["too_few_events"] = missing
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.level(),
		"coverage": cov, "wall_s": round2(time.Since(start).Seconds()), "violations": violations,
	}
	cov["ran_as_uid"] = sandboxUser
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	if len(missing) > 0 && len(problems) == 0 && violations == 0 {
		// the workload is known to cause these events: the code under test does not produce them any more
		violations++
		bySig["vanished"]++
		file := filepath.Join(rdir, p.ID+"-vanished.txt")
		os.WriteFile(file, []byte(fmt.Sprintf("property %s, seed %d, tier %s\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s\n\nexpected events did not happen: %s\n", p.ID, seed, tier, verif, seed, tier, p.ID, strings.Join(missing, "; "))), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  expected events did not happen: %s\n", p.ID, file, strings.Join(missing, "; "))
		ev["violations"] = violations
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evid, p.ID+".json"), append(b, '\n'), 0o644)

	var ks []string
	for k, v := range counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("%s: %d cases (%d distinct non-trivial), %d violations, %.1f s wall, %.1f s CPU, slowest case %.1f s (%s)\n  observed: %s\n", p.ID, len(results), len(distinct), violations, time.Since(start).Seconds(), cpu, slowest, slowName, strings.Join(ks, " "))
	for _, pr := range problems {
		fmt.Println("problem:", pr)
	}
	if violations > 0 {
		for s, k := range bySig {
			fmt.Printf("  %d x %s\n", k, s)
		}
		return 1
	}
	if len(problems) > 0 || len(missing) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(append(problems, missing...), "; "))
		return 2
	}
	return 0
}

func round2(v float64) float64 { return float64(int64(v*100+0.5)) / 100 }
