// Package h is the driver shared by all checks: it shards a fixed list of
// cases over worker processes, attributes crashes and hangs to single cases,
// aggregates what the monitors observed, and writes the evidence file.
package h

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Group is a family of cases.
type Group struct {
	Name     string
	Quick    int // number of cases, quick tier
	Thorough int // number of cases, thorough tier (0: 20*Quick)
	// Trivial groups need not observe a non-trivial case.
	Trivial bool
	// Fresh runs every case in a new process.
	Fresh bool
	Run   func(c *Case)
}

// Check describes one property check.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Groups      []Group
	Exhaustive  bool

	MemLimitGB  int     // RLIMIT_AS for workers, 0: none
	CPULimit    float64 // CPU seconds a single case may use (default 60)
	StallLimit  float64 // wall seconds without any CPU use (default 120)
	Shards      int     // default: number of CPUs
	MaxProcs    int     // GOMAXPROCS in workers (default 2)
	Env         []string
	AllowPanics bool // panics are not violations as such
}

// Case is the context of a single case.
type Case struct {
	Group string
	Index int
	Tier  string
	Seed  uint64
	Rng   *rand.Rand

	w     *worker
	nviol int
}

type violation struct {
	Key   string
	Msg   string
	Group string
	Index int
}

type result struct {
	Evals    int
	Counters map[string]int64
	Maxima   map[string]int64
	Samples  map[string][]string
	Viol     []violation
	Sup      int // further violations with a key already stored
	NonTriv  map[string]int64
}

type worker struct {
	ck      *Check
	res     result
	seen    map[uint64]struct{}
	distinc *bufio.Writer
	keys    map[string]int
	mu      sync.Mutex
	out     string
	newViol int
	known   map[string]bool
}

// Count adds to a named counter shown in the evidence.
func (c *Case) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.res.Counters[name] += int64(n)
	c.w.mu.Unlock()
}

// Max records a maximum.
func (c *Case) Max(name string, n int) {
	c.w.mu.Lock()
	if v, ok := c.w.res.Maxima[name]; !ok || v < int64(n) {
		c.w.res.Maxima[name] = int64(n)
	}
	c.w.mu.Unlock()
}

// Eval counts additional evaluations (each case counts as one).
func (c *Case) Eval(n int) {
	c.w.mu.Lock()
	c.w.res.Evals += n
	c.w.mu.Unlock()
}

// Hash returns a hash of data.
func Hash(data ...any) uint64 {
	f := fnv.New64a()
	for _, d := range data {
		switch d := d.(type) {
		case []byte:
			f.Write(d)
		case string:
			f.Write([]byte(d))
		default:
			fmt.Fprintf(f, "%v", d)
		}
		f.Write([]byte{0xff})
	}
	return f.Sum64()
}

// NonTrivial records that something non-trivial was observed.
func (c *Case) NonTrivial(data ...any) {
	x := Hash(data...)
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.res.NonTriv[c.Group]++
	if _, ok := c.w.seen[x]; ok {
		return
	}
	if len(c.w.seen) < 1500000 {
		c.w.seen[x] = struct{}{}
	}
}

// Sample keeps a few samples per group.
func (c *Case) Sample(format string, args ...any) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	s := c.w.res.Samples[c.Group]
	if len(s) >= 2 {
		return
	}
	t := fmt.Sprintf(format, args...)
	if len(t) > 1200 {
		t = t[:1200] + "..."
	}
	c.w.res.Samples[c.Group] = append(s, fmt.Sprintf("%s/%d: %s", c.Group, c.Index, t))
}

// Violation reports a violation.  Key identifies what fails (used to match
// known findings), the message shows the details.
func (c *Case) Violation(key string, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.nviol++
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.keys[key]++
	if w.keys[key] > 3 {
		w.res.Sup++
		return
	}
	w.res.Viol = append(w.res.Viol, violation{key, msg, c.Group, c.Index})
	if !w.known[key] {
		w.newViol++
	}
}

// Failed reports whether the case already reported a violation.
func (c *Case) Failed() bool { return c.nviol > 0 }

// Guard runs fn and reports a panic as a violation.  It returns false if
// fn panicked.
func (c *Case) Guard(what string, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := Stack(debug.Stack())
			c.Violation("panic:"+what+":"+st.Site, "%s: panic: %v\n%s", what, r, st.Text)
		}
	}()
	fn()
	return true
}

// Catch runs fn and returns the recovered panic value (nil if none).
func Catch(fn func()) (r any, stack string) {
	defer func() {
		r = recover()
		if r != nil {
			stack = Stack(debug.Stack()).Text
		}
	}()
	fn()
	return nil, ""
}

// StackInfo is a shortened stack trace.
type StackInfo struct {
	Site string // innermost function of the library
	Text string
}

// Stack shortens a stack trace to the interesting frames.
func Stack(st []byte) StackInfo {
	lines := strings.Split(string(st), "\n")
	var keep []string
	site := ""
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 2
		}
	}
	for i := start; i+1 < len(lines) && len(keep) < 24; i += 2 {
		keep = append(keep, lines[i], lines[i+1])
		if site == "" && strings.HasPrefix(lines[i], "seehuhn.de/go/sfnt") {
			s := lines[i]
			if k := strings.LastIndex(s, "("); k > 0 {
				s = s[:k]
			}
			site = strings.TrimPrefix(s, "seehuhn.de/go/sfnt")
		}
	}
	return StackInfo{site, strings.Join(keep, "\n")}
}

func caseRng(seed uint64, id, group string, index int) *rand.Rand {
	return rand.New(rand.NewPCG(seed, Hash(id, group, index)))
}

func (ck *Check) n(g *Group, tier string) int {
	n := g.Quick
	if tier == "thorough" {
		n = g.Thorough
		if n == 0 {
			n = 20 * g.Quick
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			n = int(float64(n) * f)
		}
	}
	return n
}

type job struct {
	g   *Group
	idx int
}

func (ck *Check) jobs(tier string) []job {
	var res []job
	only := os.Getenv("VERIF_GROUP")
	for i := range ck.Groups {
		g := &ck.Groups[i]
		if only != "" && only != g.Name {
			continue
		}
		for k := 0; k < ck.n(g, tier); k++ {
			res = append(res, job{g, k})
		}
	}
	return res
}

func (w *worker) runCase(g *Group, idx int, tier string, seed uint64) *Case {
	c := &Case{Group: g.Name, Index: idx, Tier: tier, Seed: seed,
		Rng: caseRng(seed, w.ck.ID, g.Name, idx), w: w}
	w.mu.Lock()
	w.res.Evals++
	w.mu.Unlock()
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := Stack(debug.Stack())
				if st.Site == "" {
					// a bug of the harness, not of the library
					fmt.Fprintf(os.Stderr, "HARNESS BUG in %s/%d: %v\n%s\n", g.Name, idx, r, debug.Stack())
					os.Exit(3)
				}
				c.Violation("panic:"+st.Site, "panic: %v\n%s", r, st.Text)
			}
		}()
		g.Run(c)
	}()
	return c
}

func newWorker(ck *Check, known map[string]bool) *worker {
	return &worker{ck: ck, seen: map[uint64]struct{}{}, keys: map[string]int{}, known: known,
		res: result{Counters: map[string]int64{}, Maxima: map[string]int64{},
			Samples: map[string][]string{}, NonTriv: map[string]int64{}}}
}

const maxNewViol = 6

func (ck *Check) setLimits() {
	if ck.MemLimitGB > 0 {
		l := syscall.Rlimit{Cur: uint64(ck.MemLimitGB) << 30, Max: uint64(ck.MemLimitGB) << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	mp := ck.MaxProcs
	if mp == 0 {
		mp = 2
	}
	runtime.GOMAXPROCS(mp)
}

func (ck *Check) workerMain(args []string) {
	shard, _ := strconv.Atoi(args[0])
	nshards, _ := strconv.Atoi(args[1])
	start, _ := strconv.Atoi(args[2])
	tier := args[3]
	seed, _ := strconv.ParseUint(args[4], 10, 64)
	out := args[5]
	ck.setLimits()

	w := newWorker(ck, loadKnown(ck.ID).keys())
	w.out = out
	jf, err := os.OpenFile(out+".journal", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	jobs := ck.jobs(tier)
	if name := os.Getenv("VERIF_PROF"); name != "" && shard == 0 {
		if f, err := os.Create(name); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	n := 0
	var buf [64]byte
	for i := shard; i < len(jobs); i += nshards {
		if n < start {
			n++
			continue
		}
		b := buf[:0]
		b = strconv.AppendInt(b, int64(n), 10)
		b = append(b, ' ')
		b = strconv.AppendInt(b, int64(i), 10)
		b = append(b, "                \n"...)
		jf.WriteAt(b[:24:24], 0)
		if jobs[i].g.Fresh {
			w.runFresh(jobs[i].g, jobs[i].idx, tier, seed)
		} else {
			w.runCase(jobs[i].g, jobs[i].idx, tier, seed)
		}
		n++
		if w.newViol >= maxNewViol {
			break
		}
	}
	jf.WriteAt([]byte("-1 -1                   "), 0)
	w.save(out)
}

// runFresh runs a case in a new process.
func (w *worker) runFresh(g *Group, idx int, tier string, seed uint64) {
	out := fmt.Sprintf("%s-fresh-%s-%d", w.out, g.Name, idx)
	defer os.Remove(out)
	cmd := exec.Command("/proc/self/exe", "--one", g.Name, strconv.Itoa(idx), tier, strconv.FormatUint(seed, 10), out)
	buf := &limitedBuf{}
	cmd.Stdout, cmd.Stderr = buf, buf
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	var f full
	if err == nil {
		var b []byte
		if b, err = os.ReadFile(out); err == nil {
			err = json.Unmarshal(b, &f)
		}
	}
	if err != nil {
		text := buf.String()
		if !strings.Contains(text, "fatal error:") && !strings.Contains(text, "panic:") ||
			strings.Contains(text, "out of memory") || strings.Contains(text, "HARNESS BUG") {
			fmt.Fprintf(os.Stderr, "process for %s/%d failed: %v\n%s\n", g.Name, idx, err, text)
			os.Exit(3)
		}
		c := &Case{Group: g.Name, Index: idx, Tier: tier, Seed: seed, w: w}
		c.Violation("crash:"+crashSite(text), "process died (%v):\n%s", err, tailHead(text))
		return
	}
	c := &Case{Group: g.Name, Index: idx, Tier: tier, Seed: seed, w: w}
	for _, v := range f.Res.Viol {
		c.Violation(v.Key, "%s", v.Msg)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.res.Evals += f.Res.Evals
	for k, v := range f.Res.Counters {
		w.res.Counters[k] += v
	}
	for k, v := range f.Res.Maxima {
		w.res.Maxima[k] = max(w.res.Maxima[k], v)
	}
	for k, v := range f.Res.Samples {
		if len(w.res.Samples[k]) == 0 {
			w.res.Samples[k] = v
		}
	}
	for k, v := range f.Res.NonTriv {
		w.res.NonTriv[k] += v
	}
	for _, x := range f.Seen {
		w.seen[x] = struct{}{}
	}
}

type full struct {
	Res  result
	Seen []uint64
}

func (w *worker) save(out string) {
	f := full{Res: w.res}
	for x := range w.seen {
		f.Seen = append(f.Seen, x)
	}
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(out+".tmp", out)
}

// ----- known findings -----

type knownEntry struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}
type knownList []knownEntry

func (k knownList) keys() map[string]bool {
	res := map[string]bool{}
	for _, e := range k {
		res[e.Key] = true
	}
	return res
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) knownList {
	var all struct {
		Known []knownEntry `json:"known"`
		Fixed []string     `json:"fixed"`
	}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	var res knownList
	for _, e := range all.Known {
		if e.Property == id {
			res = append(res, e)
		}
	}
	return res
}

// ----- parent -----

type shardState struct {
	id      int
	start   int
	restart int
	outs    []string
	err     error
}

// Main runs the check.
func Main(ck *Check) {
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "--worker" {
		ck.workerMain(args[1:])
		return
	}
	if len(args) > 0 && args[0] == "--one" {
		// --one group index tier seed out
		ck.setLimits()
		idx, _ := strconv.Atoi(args[2])
		seed, _ := strconv.ParseUint(args[4], 10, 64)
		w := newWorker(ck, nil)
		g := ck.group(args[1])
		w.runCase(g, idx, args[3], seed)
		w.save(args[5])
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	if len(args) > 1 && args[0] == "--replay" {
		ck.replay(args[1])
		return
	}
	os.Exit(ck.parent(tier, seed))
}

func (ck *Check) group(name string) *Group {
	for i := range ck.Groups {
		if ck.Groups[i].Name == name {
			return &ck.Groups[i]
		}
	}
	fmt.Fprintln(os.Stderr, "no such group:", name)
	os.Exit(3)
	return nil
}

type replayFile struct {
	Property string
	Group    string
	Index    int
	Tier     string
	Seed     uint64
	Key      string
	Message  string
	Command  string
}

func (ck *Check) replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	ck.setLimits()
	w := newWorker(ck, nil)
	w.runCase(ck.group(r.Group), r.Index, r.Tier, r.Seed)
	for _, v := range w.res.Viol {
		fmt.Printf("key: %s\n%s\n", v.Key, v.Msg)
	}
	if len(w.res.Viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		os.Exit(1)
	}
	fmt.Println("no violation")
}

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	k := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[k+1:])
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

type limitedBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := len(p)
	if len(l.head) < 16384 {
		k := min(len(p), 16384-len(l.head))
		l.head = append(l.head, p[:k]...)
		p = p[k:]
	}
	l.tail = append(l.tail, p...)
	if len(l.tail) > 65536 {
		l.tail = append([]byte(nil), l.tail[len(l.tail)-16384:]...)
	}
	return n, nil
}

func (l *limitedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.tail) == 0 {
		return string(l.head)
	}
	return string(l.head) + "\n[...]\n" + string(l.tail)
}

type runStatus struct {
	exit   int
	signal syscall.Signal
	killed string // reason if the watchdog killed it
	output string
}

// supervise runs cmd, with a watchdog.
func (ck *Check) supervise(cmd *exec.Cmd, journal string) runStatus {
	var out limitedBuf
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), ck.Env...)
	// Pdeathsig needs a stable parent thread
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return runStatus{exit: 3, output: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	cpuLim := ck.CPULimit
	if cpuLim == 0 {
		cpuLim = 60
	}
	stall := ck.StallLimit
	if stall == 0 {
		stall = 120
	}
	last := ""
	lastCPU := 0.0
	moveCPU := 0.0
	moveT := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var st runStatus
	for {
		select {
		case err := <-done:
			st.output = out.String()
			if err != nil {
				if ee, ok := err.(*exec.ExitError); ok {
					ws := ee.Sys().(syscall.WaitStatus)
					if ws.Signaled() {
						st.signal = ws.Signal()
						st.exit = -1
					} else {
						st.exit = ws.ExitStatus()
					}
				} else {
					st.exit = 3
				}
			}
			return st
		case <-tick.C:
			cur := ""
			if journal != "" {
				b, _ := os.ReadFile(journal)
				cur = string(b)
			}
			cpu := cpuTime(cmd.Process.Pid)
			if cpu < 0 {
				continue
			}
			if cur != last {
				last = cur
				lastCPU = cpu
				moveCPU = cpu
				moveT = time.Now()
				continue
			}
			if cpu > moveCPU+0.2 {
				moveCPU = cpu
				moveT = time.Now()
			}
			if st.killed == "" && cpu-lastCPU > cpuLim {
				st.killed = fmt.Sprintf("no result after %.0f CPU seconds", cpu-lastCPU)
			}
			if st.killed == "" && time.Since(moveT).Seconds() > stall {
				st.killed = fmt.Sprintf("blocked for %.0f s without using CPU", time.Since(moveT).Seconds())
			}
			if st.killed != "" {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				cmd.Process.Kill()
			}
		}
	}
}

func (ck *Check) parent(tier string, seed uint64) int {
	t0 := time.Now()
	dir := verifDir()
	evDir := filepath.Join(dir, "evidence")
	repDir := filepath.Join(evDir, "replay", ck.ID)
	os.RemoveAll(repDir)
	os.MkdirAll(evDir, 0o755)
	os.Remove(filepath.Join(evDir, ck.ID+".json"))
	tmp, err := os.MkdirTemp("", "verif-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	nsh := ck.Shards
	if nsh == 0 {
		nsh = runtime.NumCPU()
	}
	jobs := ck.jobs(tier)
	known := loadKnown(ck.ID)
	knownKeys := known.keys()

	var mu sync.Mutex
	var viols []violation
	var problems []string
	total := newWorker(ck, knownKeys)
	sup := 0

	merge := func(path string) bool {
		b, err := os.ReadFile(path)
		if err != nil {
			return false
		}
		var f struct {
			Res  result
			Seen []uint64
		}
		if err := json.Unmarshal(b, &f); err != nil {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		total.res.Evals += f.Res.Evals
		sup += f.Res.Sup
		for k, v := range f.Res.Counters {
			total.res.Counters[k] += v
		}
		for k, v := range f.Res.Maxima {
			if o, ok := total.res.Maxima[k]; !ok || o < v {
				total.res.Maxima[k] = v
			}
		}
		for k, v := range f.Res.NonTriv {
			total.res.NonTriv[k] += v
		}
		for k, v := range f.Res.Samples {
			for _, s := range v {
				if len(total.res.Samples[k]) < 2 {
					total.res.Samples[k] = append(total.res.Samples[k], s)
				}
			}
		}
		for _, x := range f.Seen {
			total.seen[x] = struct{}{}
		}
		viols = append(viols, f.Res.Viol...)
		return true
	}

	var wg sync.WaitGroup
	for s := 0; s < nsh; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			start := 0
			for try := 0; ; try++ {
				out := filepath.Join(tmp, fmt.Sprintf("s%d-%d", s, try))
				cmd := exec.Command(exe, "--worker", strconv.Itoa(s), strconv.Itoa(nsh),
					strconv.Itoa(start), tier, strconv.FormatUint(seed, 10), out)
				st := ck.supervise(cmd, out+".journal")
				if st.exit == 0 && st.killed == "" && merge(out) {
					return
				}
				jb, _ := os.ReadFile(out + ".journal")
				var n, i int
				k, _ := fmt.Sscanf(string(jb), "%d %d", &n, &i)
				if st.exit == 3 || k != 2 || i < 0 || i >= len(jobs) {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("shard %d failed: exit %d signal %v: %s", s, st.exit, st.signal, st.output))
					mu.Unlock()
					return
				}
				j := jobs[i]
				v, prob := ck.classify(exe, tmp, j, st, tier, seed)
				mu.Lock()
				if v != nil {
					viols = append(viols, *v)
				}
				if prob != "" {
					problems = append(problems, prob)
				}
				mu.Unlock()
				start = n + 1
				if try >= 4 {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("shard %d: too many crashes", s))
					mu.Unlock()
					return
				}
			}
		}(s)
	}
	wg.Wait()

	// report
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Group != viols[j].Group {
			return viols[i].Group < viols[j].Group
		}
		return viols[i].Index < viols[j].Index
	})
	knownSeen := map[string]bool{}
	var fresh []violation
	perKey := map[string]int{}
	for _, v := range viols {
		if knownKeys[v.Key] {
			knownSeen[v.Key] = true
			continue
		}
		perKey[v.Key]++
		if perKey[v.Key] <= 2 {
			fresh = append(fresh, v)
		}
	}
	for _, e := range known {
		// listed findings are part of the output whether or not this
		// run's workload happened to hit them again
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", ck.ID, e.What, e.Key)
	}
	if len(fresh) > 0 {
		os.MkdirAll(repDir, 0o755)
	}
	for i, v := range fresh {
		if i >= 20 {
			fmt.Printf("(%d more violations not shown)\n", len(fresh)-i)
			break
		}
		path := filepath.Join(repDir, fmt.Sprintf("%03d.json", i))
		b, _ := json.MarshalIndent(replayFile{ck.ID, v.Group, v.Index, tier, seed, v.Key, v.Msg,
			fmt.Sprintf("./run.sh %s --replay %s", ck.ID, path)}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		fmt.Printf("  case %s/%d key %s\n  %s\n", v.Group, v.Index, v.Key, strings.ReplaceAll(v.Msg, "\n", "\n  "))
	}
	for _, p := range problems {
		if len(p) > 6000 {
			p = p[:6000]
		}
		fmt.Println("PROBLEM:", p)
	}
	only := os.Getenv("VERIF_GROUP")
	if len(fresh) == 0 {
		for i := range ck.Groups {
			g := &ck.Groups[i]
			if only != "" && only != g.Name {
				continue
			}
			if !g.Trivial && ck.n(g, tier) > 0 && total.res.NonTriv[g.Name] == 0 {
				problems = append(problems, "group "+g.Name+" observed nothing non-trivial")
				fmt.Println("PROBLEM: group", g.Name, "observed nothing non-trivial")
			}
		}
	}

	samples := []string{}
	for i := range ck.Groups {
		samples = append(samples, total.res.Samples[ck.Groups[i].Name]...)
	}
	cov := map[string]any{
		"evaluations":                total.res.Evals,
		"distinct_nontrivial":        len(total.seen),
		"rule":                       ck.Rule,
		"samples":                    samples,
		"observed":                   total.res.Counters,
		"nontrivial_by_group":        total.res.NonTriv,
		"maxima":                     total.res.Maxima,
		"known_findings_reproduced":  len(knownSeen),
		"suppressed_same_key_counts": sup,
	}
	ev := map[string]any{
		"property":    ck.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       ck.Level,
		"coverage":    cov,
		"assumptions": ck.Assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, ck.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s\n",
		ck.ID, tier, total.res.Evals, len(total.seen), len(fresh), time.Since(t0).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		var keys []string
		for k := range total.res.Counters {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  %-50s %d\n", k, total.res.Counters[k])
		}
		for k, v := range total.res.Maxima {
			fmt.Printf("  max %-46s %d\n", k, v)
		}
		for k, v := range total.res.NonTriv {
			fmt.Printf("  nontrivial %-39s %d\n", k, v)
		}
	}
	switch {
	case len(fresh) > 0:
		return 1
	case len(problems) > 0:
		return 2
	}
	return 0
}

// classify decides what the abnormal end of a worker means.
func (ck *Check) classify(exe, tmp string, j job, st runStatus, tier string, seed uint64) (*violation, string) {
	out := filepath.Join(tmp, fmt.Sprintf("one-%s-%d", j.g.Name, j.idx))
	cmd := exec.Command(exe, "--one", j.g.Name, strconv.Itoa(j.idx), tier, strconv.FormatUint(seed, 10), out)
	jf := out + ".j"
	os.WriteFile(jf, []byte("x"), 0o644)
	st2 := ck.supervise(cmd, jf)
	if st2.exit == 0 && st2.killed == "" {
		// not reproduced in isolation
		if st.exit == 2 && (strings.Contains(st.output, "fatal error:") || strings.Contains(st.output, "panic:") || strings.Contains(st.output, "DATA RACE")) &&
			!strings.Contains(st.output, "out of memory") && !strings.Contains(st.output, "cannot allocate memory") && st.killed == "" {
			return &violation{"crash:" + crashSite(st.output), "worker crashed (not reproduced in isolation):\n" + tailHead(st.output), j.g.Name, j.idx}, ""
		}
		return nil, fmt.Sprintf("worker ended abnormally in %s/%d (exit %d, signal %v, %s), not reproduced:\n%s",
			j.g.Name, j.idx, st.exit, st.signal, st.killed, tailHead(st.output))
	}
	if st2.killed != "" {
		return &violation{"hang:" + j.g.Name + ":" + crashSite(st2.output), st2.killed + "\n" + tailHead(st2.output), j.g.Name, j.idx}, ""
	}
	return &violation{"crash:" + crashSite(st2.output), fmt.Sprintf("process died (exit %d, signal %v):\n%s", st2.exit, st2.signal, tailHead(st2.output)), j.g.Name, j.idx}, ""
}

func tailHead(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "\n..."
	}
	return s
}

func crashSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "seehuhn.de/go/sfnt") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "seehuhn.de/go/sfnt")
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") {
			return l
		}
	}
	return "unknown"
}

// Trunc shortens byte strings for error messages.
func Trunc(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}
