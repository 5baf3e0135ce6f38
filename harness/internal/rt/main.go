package rt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// result is what a child tells
type result struct {
	Evals    int64
	Cases    int64
	Counts   map[string]int64
	Hashes   []uint64
	Samples  []string
	Failures []failure
	Done     bool
	Slow     string
	SlowMs   int64
}

type failure struct {
	Suite, Key, Detail string
	Idx                int
	Notes              []string
}

type caseID struct {
	suite, idx int
}

const (
	caseWall = 90 * time.Second // in flight longer, a case is run again alone
	caseCPU  = 60               // seconds of CPU a case may use alone
	exitRace = 66
)

// Main is the check program
func Main(props []Property) {
	var (
		id     = flag.String("property", "", "")
		tier   = flag.String("tier", "quick", "")
		seed   = flag.Int64("seed", 1, "")
		outDir = flag.String("evidence", "", "")
		known  = flag.String("known", "", "file of known findings")
		child  = flag.String("child", "", "k/n: run part k of n")
		only   = flag.String("only", "", "suite/idx: run a case")
		out    = flag.String("out", "", "result of a child")
		flight = flag.String("flight", "", "in flight file of a child")
		skip   = flag.String("skip", "", "cases to leave out")
		mult   = flag.Float64("mult", 1, "multiplies numbers of cases")
		suite  = flag.String("suite", "", "only the suite")
		list   = flag.Bool("list", false, "")
		prof   = flag.String("cpuprofile", "", "of a replay")
		isRace = flag.Bool("israce", false, "")
	)
	flag.Parse()
	if *list {
		for _, p := range props {
			r := ""
			if p.Race {
				r = " race"
			}
			fmt.Printf("%s%s\n", p.ID, r)
		}
		return
	}
	var p *Property
	for i := range props {
		if props[i].ID == *id {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", *id)
		os.Exit(3)
	}
	if *suite != "" {
		for i := range p.Suites {
			if p.Suites[i].Name != *suite {
				p.Suites[i].Quick, p.Suites[i].Thorough = 0, 0
			}
		}
	}
	for i := range p.Suites {
		p.Suites[i].Quick = int(float64(p.Suites[i].Quick) * *mult)
		p.Suites[i].Thorough = int(float64(p.Suites[i].Thorough) * *mult)
	}
	cfg := &config{p: p, tier: *tier, seed: *seed, mult: *mult, suite: *suite, race: *isRace}
	switch {
	case *child != "":
		var k, n int
		fmt.Sscanf(*child, "%d/%d", &k, &n)
		cfg.child(k, n, *out, *flight, *skip)
	case *only != "" && *out != "":
		cfg.solo(*only, *out)
	case *only != "":
		if *prof != "" {
			f, _ := os.Create(*prof)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		cfg.replay(*only)
	default:
		os.Exit(cfg.supervise(*outDir, *known))
	}
}

type config struct {
	p     *Property
	tier  string
	seed  int64
	mult  float64
	suite string
	race  bool
}

func (cfg *config) n(s *Suite) int {
	if cfg.tier == "thorough" {
		return s.Thorough
	}
	return s.Quick
}

func (cfg *config) limits(cpu uint64) {
	if !cfg.race {
		as := uint64(4 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: as, Max: as})
		debug.SetMemoryLimit(2 << 30)
	}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if cpu > 0 {
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: cpu, Max: cpu})
	}
	debug.SetGCPercent(300)
	if cfg.race {
		debug.SetGCPercent(800)
	}
	debug.SetMaxStack(256 << 20)
}

type collector struct {
	res    result
	hashes map[uint64]struct{}
}

func (cfg *config) runCase(col *collector, s *Suite, idx int) *failure {
	c := &C{Prop: cfg.p.ID, Suite: s.Name, Idx: idx, Thorough: cfg.tier == "thorough",
		counts: col.res.Counts, hashes: col.hashes, sampling: idx < 40 || idx%97 == 0}
	seed := cfg.seed
	if s.Fixed {
		seed = 0
	}
	c.R = rand.New(rand.NewSource(seedOf(seed, c.Prop, c.Suite, idx)))
	t0 := time.Now()
	f := run(c, s)
	if d := time.Since(t0).Milliseconds(); d > col.res.SlowMs {
		col.res.SlowMs, col.res.Slow = d, fmt.Sprintf("%s/%d", s.Name, idx)
	}
	col.res.Cases++
	col.res.Evals += c.evals
	if len(c.samples) > 0 && len(col.res.Samples) < 6 {
		col.res.Samples = append(col.res.Samples, c.samples[0])
	}
	if f == nil {
		return nil
	}
	return &failure{Suite: s.Name, Idx: idx, Key: f.Key, Detail: f.Detail, Notes: c.notes}
}

func newCollector() *collector {
	return &collector{res: result{Counts: map[string]int64{}}, hashes: map[uint64]struct{}{}}
}

func (col *collector) write(out string) {
	for h := range col.hashes {
		col.res.Hashes = append(col.res.Hashes, h)
	}
	b, err := json.Marshal(col.res)
	if err == nil {
		err = os.WriteFile(out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

// child runs its cases one after another. In flight file has the suite and index, and a counter.
func (cfg *config) child(k, n int, out, flight, skip string) {
	runtime.GOMAXPROCS(2)
	if cfg.p.Race {
		runtime.GOMAXPROCS(4)
	}
	cfg.limits(0)
	skips := map[string]bool{}
	for _, s := range strings.Split(skip, ",") {
		skips[s] = true
	}
	fl, err := os.OpenFile(flight, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	col := newCollector()
	var seq uint64
	for si := range cfg.p.Suites {
		s := &cfg.p.Suites[si]
		for idx := 0; idx < cfg.n(s); idx++ {
			if idx%n != k || skips[fmt.Sprintf("%s/%d", s.Name, idx)] {
				continue
			}
			seq++
			var b [24]byte
			binary.LittleEndian.PutUint64(b[:], seq)
			binary.LittleEndian.PutUint64(b[8:], uint64(si))
			binary.LittleEndian.PutUint64(b[16:], uint64(idx))
			fl.WriteAt(b[:], 0)
			if f := cfg.runCase(col, s, idx); f != nil {
				col.res.Failures = append(col.res.Failures, *f)
				if len(col.res.Failures) >= 4 {
					col.res.Done = true
					col.write(out)
					return
				}
				break // of this suite, other suites may find others
			}
		}
	}
	col.res.Done = true
	col.write(out)
}

func (cfg *config) find(only string) (*Suite, int) {
	i := strings.LastIndex(only, "/")
	for si := range cfg.p.Suites {
		if s := &cfg.p.Suites[si]; i > 0 && s.Name == only[:i] {
			idx, err := strconv.Atoi(only[i+1:])
			if err == nil {
				return s, idx
			}
		}
	}
	fmt.Fprintf(os.Stderr, "no case %s\n", only)
	os.Exit(3)
	return nil, 0
}

// solo runs a case within limits of CPU
func (cfg *config) solo(only, out string) {
	runtime.GOMAXPROCS(2)
	cfg.limits(caseCPU)
	s, idx := cfg.find(only)
	col := newCollector()
	if f := cfg.runCase(col, s, idx); f != nil {
		col.res.Failures = append(col.res.Failures, *f)
	}
	col.res.Done = true
	col.write(out)
}

func (cfg *config) replay(only string) {
	cfg.limits(0)
	s, idx := cfg.find(only)
	col := newCollector()
	f := cfg.runCase(col, s, idx)
	if f == nil {
		fmt.Println("held")
		return
	}
	fmt.Print(report(cfg, f))
	os.Exit(1)
}

func report(cfg *config, f *failure) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s, seed %d, tier %s, case %s/%d\nkey: %s\n%s\n", cfg.p.ID, cfg.seed, cfg.tier, f.Suite, f.Idx, f.Key, f.Detail)
	for _, n := range f.Notes {
		fmt.Fprintf(&b, "  note: %s\n", n)
	}
	fmt.Fprintf(&b, "replay: VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s -only %s/%d\n", cfg.seed, cfg.tier, cfg.p.ID, f.Suite, f.Idx)
	return b.String()
}

type worker struct {
	k, n     int
	cmd      *exec.Cmd
	out      string
	flight   string
	stderr   *bytes.Buffer
	done     chan error
	seq      uint64
	since    time.Time
	skips    []string
	restarts int
	finished bool
	killed   bool
}

func (cfg *config) args(extra ...string) []string {
	a := []string{"-property", cfg.p.ID, "-tier", cfg.tier, "-seed", strconv.FormatInt(cfg.seed, 10), "-mult", fmt.Sprint(cfg.mult), "-suite", cfg.suite}
	if cfg.race {
		a = append(a, "-israce")
	}
	return append(a, extra...)
}

func (cfg *config) start(w *worker) error {
	w.cmd = exec.Command(os.Args[0], cfg.args("-child", fmt.Sprintf("%d/%d", w.k, w.n), "-out", w.out, "-flight", w.flight, "-skip", strings.Join(w.skips, ","))...)
	w.stderr = &bytes.Buffer{}
	w.cmd.Stderr = &limited{w: w.stderr}
	w.cmd.Env = childEnv()
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w.seq, w.since, w.killed = 0, time.Now(), false
	os.Remove(w.out)
	os.WriteFile(w.flight, make([]byte, 24), 0644)
	if err := w.cmd.Start(); err != nil {
		return err
	}
	w.done = make(chan error, 1)
	go func(c *exec.Cmd, d chan error) { d <- c.Wait() }(w.cmd, w.done)
	return nil
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
}

type limited struct{ w *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < 256<<10 {
		l.w.Write(p)
	}
	return len(p), nil
}

func (w *worker) inFlight() (seq uint64, si, idx int) {
	b, err := os.ReadFile(w.flight)
	if err != nil || len(b) < 24 {
		return 0, 0, 0
	}
	return binary.LittleEndian.Uint64(b), int(binary.LittleEndian.Uint64(b[8:])), int(binary.LittleEndian.Uint64(b[16:]))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// again runs a case alone: whether it ended, its result, or how it ended
func (cfg *config) again(dir, name string) (res *result, death string, inconclusive string) {
	out := filepath.Join(dir, "solo.json")
	os.Remove(out)
	cmd := exec.Command(os.Args[0], cfg.args("-only", name, "-out", out)...)
	var eb bytes.Buffer
	cmd.Stderr = &limited{w: &eb}
	cmd.Env = childEnv()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, "", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(300 * time.Second):
		cmd.Process.Kill()
		<-done
		return nil, "", fmt.Sprintf("case %s did not end within 300 s nor used %d s of CPU", name, caseCPU)
	}
	if b, rerr := os.ReadFile(out); rerr == nil {
		r := &result{}
		if json.Unmarshal(b, r) == nil && r.Done {
			return r, "", ""
		}
	}
	st := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if st.Signaled() {
		cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		if cpu >= (caseCPU-2)*time.Second {
			return nil, fmt.Sprintf("does not end: used %v of CPU", cpu.Round(time.Second)), ""
		}
		return nil, "", fmt.Sprintf("case %s was ended by %v", name, st.Signal())
	}
	return nil, fmt.Sprintf("process died: %v\n%s", err, tail(eb.String(), 6000)), ""
}

func (cfg *config) supervise(dir, knownFile string) int {
	t0 := time.Now()
	p := cfg.p
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if p.Race {
		n = max(1, n/2)
	}
	if p.Serial {
		n = 1
	}
	var ws []*worker
	for k := 0; k < n; k++ {
		w := &worker{k: k, n: n, out: filepath.Join(tmp, fmt.Sprintf("out%d", k)), flight: filepath.Join(tmp, fmt.Sprintf("flight%d", k))}
		if err := cfg.start(w); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		ws = append(ws, w)
	}
	total := result{Counts: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	var fails []failure
	var inconclusive []string
	merge := func(r *result) {
		total.Evals += r.Evals
		total.Cases += r.Cases
		for k, v := range r.Counts {
			total.Counts[k] += v
		}
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.Samples[:min(len(r.Samples), 2)]...)
		}
		fails = append(fails, r.Failures...)
		if r.SlowMs > total.SlowMs {
			total.SlowMs, total.Slow = r.SlowMs, r.Slow
		}
	}
	// bad handles a case which killed or hangs its child: it's run alone
	bad := func(w *worker, why, stderr string) (restart bool) {
		seq, si, idx := w.inFlight()
		if seq == 0 || si >= len(p.Suites) {
			inconclusive = append(inconclusive, fmt.Sprintf("a child ended before any case: %s\n%s", why, tail(stderr, 3000)))
			return false
		}
		s := &p.Suites[si]
		name := fmt.Sprintf("%s/%d", s.Name, idx)
		res, death, inc := cfg.again(tmp, name)
		switch {
		case death != "":
			fails = append(fails, failure{Suite: s.Name, Idx: idx, Key: "death", Detail: death})
			return false
		case res != nil:
			merge(res)
			if len(res.Failures) == 0 && strings.Contains(stderr, "fatal error: concurrent map") {
				fails = append(fails, failure{Suite: s.Name, Idx: idx, Key: "race", Detail: tail(stderr, 8000)})
				return false
			}
			w.skips = append(w.skips, name)
			w.restarts++
			if w.restarts > 4 {
				inconclusive = append(inconclusive, fmt.Sprintf("case %s: %s, but not alone\n%s", name, why, tail(stderr, 2000)))
				return false
			}
			return len(res.Failures) == 0
		default:
			inconclusive = append(inconclusive, inc)
			return false
		}
	}
	active := len(ws)
	for active > 0 {
		time.Sleep(50 * time.Millisecond)
		for _, w := range ws {
			if w.finished {
				continue
			}
			select {
			case err := <-w.done:
				r := &result{}
				b, rerr := os.ReadFile(w.out)
				if rerr == nil && json.Unmarshal(b, r) == nil && r.Done && !w.killed {
					merge(r)
					w.finished = true
					active--
					break
				}
				if w.cmd.ProcessState.ExitCode() == exitRace {
					_, si, idx := w.inFlight()
					fails = append(fails, failure{Suite: p.Suites[si].Name, Idx: idx, Key: "race", Detail: tail(w.stderr.String(), 12000)})
					w.finished = true
					active--
					break
				}
				why := fmt.Sprint(err)
				if w.killed {
					why = fmt.Sprintf("no end in %v", caseWall)
				}
				if bad(w, why, w.stderr.String()) {
					if cfg.start(w) == nil {
						break
					}
				}
				w.finished = true
				active--
			default:
				seq, _, _ := w.inFlight()
				if seq != w.seq {
					w.seq, w.since = seq, time.Now()
				}
				wall := caseWall
				if len(fails) > 0 { // there is a verdict already
					wall = 10 * time.Second
				}
				if time.Since(w.since) > wall && !w.killed {
					w.killed = true
					w.cmd.Process.Kill()
					if len(fails) > 0 {
						<-w.done
						w.finished = true
						active--
					}
				}
			}
		}
	}

	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Suite != fails[j].Suite {
			return fails[i].Suite < fails[j].Suite
		}
		return fails[i].Idx < fails[j].Idx
	})
	knowns := readKnown(knownFile, p.ID)
	var news []failure
	printed := map[string]bool{}
	for _, f := range fails {
		if what, ok := knowns[f.Key]; ok {
			if !printed[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
				printed[f.Key] = true
			}
			continue
		}
		news = append(news, f)
	}
	for _, e := range p.Expect {
		if total.Counts[e] == 0 && len(fails) == 0 {
			inconclusive = append(inconclusive, fmt.Sprintf("nothing observed of %q", e))
		}
	}
	if total.Cases == 0 {
		inconclusive = append(inconclusive, "no cases")
	}

	cov := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(hashes),
		"rule":                p.Rule,
		"samples":             append([]string{}, total.Samples...),
		"cases":               total.Cases,
		"observed":            total.Counts,
		"slowest_case":        fmt.Sprintf("%s %d ms", total.Slow, total.SlowMs),
	}
	if len(inconclusive) != 0 {
		cov["inconclusive"] = inconclusive
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": cfg.tier, "seed": cfg.seed, "level": level,
		"coverage": cov, "wall_s": float64(time.Since(t0).Milliseconds()) / 1000, "violations": len(news),
	}
	if len(p.Assume) != 0 {
		ev["assumptions"] = p.Assume
	}
	if dir != "" {
		os.MkdirAll(dir, 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if len(news) != 0 {
		path := filepath.Join(dir, "replay-"+p.ID+".txt")
		var b bytes.Buffer
		for i := range news {
			b.WriteString(report(cfg, &news[i]))
			b.WriteString("\n")
		}
		if dir != "" {
			os.WriteFile(path, b.Bytes(), 0644)
		}
		fmt.Print(tail(report(cfg, &news[0]), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if len(inconclusive) != 0 {
		fmt.Printf("INCONCLUSIVE property=%s\n%s\n", p.ID, strings.Join(inconclusive, "\n"))
		return 2
	}
	fmt.Printf("held property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs slowest=%s %dms\n", p.ID, cfg.tier, total.Cases, total.Evals, len(hashes),
		time.Since(t0).Seconds(), total.Slow, total.SlowMs)
	for _, k := range sortedKeys(total.Counts) {
		fmt.Printf("  %s: %d\n", k, total.Counts[k])
	}
	return 0
}

// readKnown reads lines "finding: property=<id> key=<key> | <what fails>"
func readKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		if k, what, ok := strings.Cut(l[len(pre):], " | "); ok {
			m[k] = what
		}
	}
	return m
}
