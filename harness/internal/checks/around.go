package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	golog "log"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	log "github.com/sirupsen/logrus"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C34: what is around the library in its process, and its logs

const aroundEnv = "VERIF_C34_CHILD"

type around struct {
	name string
	run  func(c *rt.C)
}

// togetherSuites are those with goroutines
var togetherSuites = []around{{"C15 same", c15Same}, {"C15 shared", c15Shared}, {"C15 mixed", c15Mixed}}

// aroundSuites are those whose outcome is decided by their seed
var aroundSuites = []around{
	{"C01 mixed", func(c *rt.C) { roundTrip(c, genWrite(c, stdSchema(), 150)) }},
	{"C01 column", func(c *rt.C) { roundTrip(c, oneColumn(c, 700)) }},
	{"C01 os", aroundOS},
	{"C08 mixed", func(c *rt.C) { c08Check(c, makeRef(c, stdSchema(), 150)) }},
	{"C08 column", c08Column},
	{"C11 mixed", c11Mixed},
	{"C12 mixed", c12Mixed},
	{"C23 mixed", c23Mixed},
	{"C23 schema", c23Schema},
	{"C23 options", c23Options},
	{"C25 mixed", c25Mixed},
	{"C25 closed", c25Closed},
	{"C14 partial", c14Partial},
	{"C18 schema", c18Schema},
	{"C20 random", c20Random},
	{"C02 small", c02Small},
	{"C10 edges", c10Edges},
	{"C10 mixed", func(c *rt.C) { c10Check(c, genWrite(c, stdSchema(), 100)) }},
	{"facts", aroundFacts},
	{"C21 column", c21Column},
	{"C28 tree", c28Tree},
	{"C31 encodings", c31Encodings},
	{"C31 codecs", c31Codecs},
	{"C31 types", c31Types},
	{"C31 short", c31Short},
	{"C31 missing", c31Missing},
	{"C31 range", c31Range},
	{"damage", aroundDamage},
	{"missing", aroundMissing},
}

// aroundOS writes to a file of the system, with the same bytes in every process
func aroundOS(c *rt.C) {
	dir, err := os.MkdirTemp("", "verif-around-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := genWrite(c, stdSchema(), 150)
	path := filepath.Join(dir, "f.orc")
	osWrite(c, path, w)
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	c.Eval(model.Hash(model.HashInit, string(data)))
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "opening a valid file failed: %v", err)
	}
	defer rd.Close()
	readBack(c, rd, w.rows, drive.ROpts{Cap: capSource(c.R, len(w.rows))})
}

// aroundDamage reads a damaged file
func aroundDamage(c *rt.C) {
	r := c.R
	m := smallFile(c, 60)
	data := append([]byte(nil), m.data...)
	if p, err := takeApart(data); err == nil && r.Intn(2) == 0 {
		data, _ = p.mutated(r)
	} else {
		for k := 1 + r.Intn(3); k > 0 && len(data) > 0; k-- {
			data[r.Intn(len(data))] = byte(r.Intn(256))
		}
	}
	c.Eval(model.Hash(model.HashInit, string(data)))
	rd, err := drive.Open(data)
	if err != nil {
		c.Count("refused: "+err.Error(), 1)
		return
	}
	defer rd.Close()
	if rd.NumberOfRows() > 10000 {
		return
	}
	rows, calls, err := drive.ReadAll(rd, drive.ROpts{Cap: func() int { return 50 }})
	c.Count("calls", calls)
	if err != nil {
		c.Count("refused: "+err.Error(), 1)
	}
	h := model.HashInit
	for _, v := range rows {
		h = model.Hash(h, v)
	}
	c.Eval(h)
}

// aroundFacts is all what a reader tells of a file
func aroundFacts(c *rt.C) {
	r := c.R
	var data []byte
	if r.Intn(2) == 0 {
		t := &model.Type{Kind: model.Struct}
		for i := r.Intn(20); i >= 0; i-- {
			t.Names = append(t.Names, strings.Repeat("name ", r.Intn(20))+strconv.Itoa(i))
			t.Kids = append(t.Kids, &model.Type{Kind: []model.Kind{model.String, model.Binary, model.Long, model.Double, model.Decimal}[r.Intn(5)], Nullable: r.Intn(2) == 0})
		}
		w := &wcase{t: t.Number()}
		w.fill(c, 1+r.Intn(100))
		for _, v := range w.rows {
			for i, x := range v.(model.Row) {
				if s, ok := x.(string); ok && t.Kids[i].Kind == model.String {
					v.(model.Row)[i] = bigString(r, r.Intn(2000)) + s
				}
			}
		}
		data = w.write(c)
	} else {
		data = makeRef(c, stdSchema(), 100).data
	}
	rd := open(c, data)
	defer rd.Close()
	h := model.Hash(model.HashInit, fmt.Sprint(rd.NumberOfRows(), *rd.GetReaderOptions()))
	for _, s := range rd.GetStatistics() {
		b, err := proto.Marshal(s)
		if err != nil {
			c.Fail("statistics", "%v", err)
		}
		h = model.Hash(h, string(b))
	}
	var walk func(t *api.TypeDescription)
	walk = func(t *api.TypeDescription) {
		h = model.Hash(h, fmt.Sprint(t.Id, t.Kind, t.Encoding, t.HasNulls, t.ChildrenNames))
		for _, k := range t.Children {
			walk(k)
		}
	}
	walk(rd.GetSchema())
	rows, _, err := drive.ReadAll(rd, drive.ROpts{Cap: capSource(r, 100)})
	if err != nil {
		c.Fail("read error", "%v", err)
	}
	for _, v := range rows {
		h = model.Hash(h, v)
	}
	c.Eval(h)
}

// aroundMissing opens and creates what cannot be
func aroundMissing(c *rt.C) {
	dir, err := os.MkdirTemp("", "verif-around-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "none", "f.orc")
	if c.R.Intn(2) == 0 {
		path = dir
	}
	if _, err := orc.NewOSFileReader(path); err == nil {
		c.Fail("open accepted", "a file which is none was opened")
	}
	w := genWrite(c, stdSchema(), 5)
	if _, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config()); err == nil {
		c.Fail("create accepted", "a file which cannot be was created")
	}
	c.Count("files which cannot be opened", 1)
}

// surroundings is what the library should leave as it is
func surroundings() map[string]string {
	m := map[string]string{}
	m["environment"] = fmt.Sprintf("%q", os.Environ())
	m["working directory"], _ = os.Getwd()
	m["arguments"] = fmt.Sprintf("%q", os.Args)
	m["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	m["number of threads"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	m["garbage collection"] = fmt.Sprint(gc, debug.SetMemoryLimit(-1))
	m["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	mask := syscall.Umask(0)
	syscall.Umask(mask)
	m["file mode mask"] = fmt.Sprintf("%o", mask)
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP, syscall.SIGPIPE} {
		m["signals"] += fmt.Sprint(signal.Ignored(s))
	}
	std := log.StandardLogger()
	hooks := 0
	for _, l := range std.Hooks {
		hooks += len(l)
	}
	m["logger of the application"] = fmt.Sprintf("%p %s %d hooks, caller %t, formatter %s", std.Out, std.GetLevel(), hooks, std.ReportCaller, reflect.TypeOf(std.Formatter))
	m["log of package log"] = fmt.Sprintf("%p %d %q", golog.Writer(), golog.Flags(), golog.Prefix())
	return m
}

// aroundChild runs cases as asked for by environment, if it's asked
func aroundChild() bool {
	l := strings.Fields(os.Getenv(aroundEnv))
	if len(l) != 4 {
		return false
	}
	seed, err := strconv.ParseInt(l[0], 10, 64)
	if err != nil {
		panic(err)
	}
	n, err := strconv.Atoi(l[1])
	if err != nil {
		panic(err)
	}
	results := bufio.NewWriter(os.NewFile(3, "results"))
	log.SetOutput(os.Stderr)
	log.SetLevel(log.TraceLevel)
	before := surroundings()
	if l[3] == "changed" {
		drive.Logs(log.TraceLevel)
	}
	var stop atomic.Bool
	done := make(chan struct{})
	if l[2] == "changing" {
		go func() {
			defer close(done)
			for i := 0; !stop.Load(); i++ {
				drive.Logs(log.AllLevels[i%len(log.AllLevels)])
				time.Sleep(50 * time.Microsecond)
			}
		}()
	} else {
		level, err := log.ParseLevel(l[2])
		if err != nil {
			panic(err)
		}
		drive.Logs(level)
		close(done)
	}
	goroutines := runtime.NumGoroutine()
	for i := 0; i < n; i++ {
		fmt.Fprintln(results, aroundCase(seed+int64(i), l[3] == "together"))
	}
	for k, v := range surroundings() {
		if v != before[k] {
			fmt.Fprintf(results, "CHANGED %s: before %s, after %s\n", k, before[k], v)
		}
	}
	for end := time.Now().Add(5 * time.Second); runtime.NumGoroutine() > goroutines; time.Sleep(time.Millisecond) {
		if time.Now().After(end) {
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			fmt.Fprintf(results, "CHANGED goroutines: before %d, after %d: %q\n", goroutines, runtime.NumGoroutine(), b)
			break
		}
	}
	stop.Store(true)
	<-done
	if b, err := io.ReadAll(os.Stdin); err != nil || string(b) != aroundInput {
		fmt.Fprintf(results, "CHANGED standard input: %d of %d bytes left, %v\n", len(b), len(aroundInput), err)
	}
	fmt.Fprintln(results, "end")
	if err := results.Flush(); err != nil {
		panic(err)
	}
	return true
}

const aroundInput = "input of the application\n"

// aroundCase runs a case, and tells of its outcome
func aroundCase(seed int64, together bool) (line string) {
	c := rt.NewC(seed)
	suites := aroundSuites
	if together {
		suites = togetherSuites
	}
	s := suites[c.R.Intn(len(suites))]
	defer func() {
		what := "held"
		if p := recover(); p != nil {
			if f, ok := p.(rt.Failure); ok {
				what = "failed: " + f.Key
			} else {
				what = fmt.Sprintf("panic: %v", p)
			}
		}
		line = fmt.Sprintf("%q", s.name+": "+what+": "+c.Told())
	}()
	s.run(c)
	return
}

var logLine = regexp.MustCompile(`^time="[^"]*" level=(\w+) (msg=.*|)$`)

// logLines looks at each line of logs
type logLines struct {
	left   []byte
	counts map[string]int
	most   log.Level
	bad    string
}

func (l *logLines) Write(p []byte) (int, error) {
	l.left = append(l.left, p...)
	for {
		i := bytes.IndexByte(l.left, '\n')
		if i < 0 {
			return len(p), nil
		}
		l.line(l.left[:i])
		l.left = l.left[i+1:]
	}
}

func (l *logLines) line(b []byte) {
	m := logLine.FindSubmatch(b)
	if m == nil {
		l.tell("printed", b)
		return
	}
	level, err := log.ParseLevel(string(m[1]))
	if err != nil {
		l.tell("printed", b)
		return
	}
	l.counts[string(m[1])]++
	if level > l.most {
		l.tell("logged over the level", b)
	}
}

func (l *logLines) tell(what string, b []byte) {
	if l.bad == "" {
		if len(b) > 500 {
			b = b[:500]
		}
		l.bad = fmt.Sprintf("%s: %q", what, b)
	}
}

var aroundLevels = []string{"panic", "error", "warning", "info", "debug", "trace", "changing"}

func c34Process(c *rt.C) {
	r := c.R
	n := 6 + r.Intn(12)
	seed := r.Int63()
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var want []string
	first := ""
	for k := 0; k < 3; k++ {
		level := aroundLevels[r.Intn(len(aroundLevels))]
		if k == 0 {
			level = "trace"
		}
		desc := fmt.Sprintf("cases %d to %d with level %s", seed, seed+int64(n)-1, level)
		lines := &logLines{counts: map[string]int{}, most: log.TraceLevel}
		if level != "changing" {
			lines.most, _ = log.ParseLevel(level)
		}
		cmd := exec.Command(exe, "-of", "another process")
		cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d %s %s", aroundEnv, seed, n, level, []string{"new", "changed"}[r.Intn(2)]))
		cmd.Stdin = strings.NewReader(aroundInput)
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.ExtraFiles = []*os.File{pw}
		var out tail
		cmd.Stdout, cmd.Stderr = &out, lines
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		pw.Close()
		results, err := io.ReadAll(pr)
		pr.Close()
		if err != nil {
			panic(err)
		}
		if err := cmd.Wait(); err != nil {
			c.Fail("process ended", "%s: %v, printed %s%s", desc, err, lines.bad, lines.left)
		}
		got := strings.Split(strings.TrimSpace(string(results)), "\n")
		if len(got) <= n || got[len(got)-1] != "end" {
			c.Fail("process ended", "%s: it ended on its way, after %d cases", desc, len(got))
		}
		if len(out.b) > 0 {
			c.Fail("printed to standard output", "%s: %q", desc, out.b)
		}
		if lines.bad != "" || len(lines.left) > 0 {
			c.Fail("printed", "%s: %s%q", desc, lines.bad, lines.left)
		}
		for _, l := range got[n : len(got)-1] {
			c.Fail("surroundings", "%s: %s", desc, l)
		}
		if want == nil {
			want, first = got[:n], level
			for _, l := range want {
				c.Eval(model.Hash(model.HashInit, l))
			}
			c.Sample("%s: %s", desc, want[0])
		}
		for i := range want {
			if got[i] != want[i] {
				c.Fail("level of logs", "case %d with level %s: %s, with level %s: %s", seed+int64(i), first, want[i], level, got[i])
			}
		}
		c.Count("processes of level "+level, 1)
		c.Count("cases compared", n)
		var levels []string
		for l := range lines.counts {
			levels = append(levels, l)
		}
		sort.Strings(levels)
		for _, l := range levels {
			c.Count("lines of logs", lines.counts[l])
		}
	}
}

// others keeps the lines which are no logs
type others struct {
	logs logLines
	tail tail
}

func (o *others) Write(p []byte) (int, error) {
	o.logs.left = append(o.logs.left, p...)
	for {
		i := bytes.IndexByte(o.logs.left, '\n')
		if i < 0 {
			return len(p), nil
		}
		if l := o.logs.left[:i+1]; logLine.Match(l[:i]) {
			o.logs.counts["all"]++
		} else {
			o.tail.Write(l)
		}
		o.logs.left = o.logs.left[i+1:]
	}
}

// c15Logs is goroutines with all that is logged, in a process whose logs nobody needs
func c15Logs(c *rt.C) {
	r := c.R
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	n := 2 + r.Intn(3)
	seed := r.Int63()
	level := []string{"trace", "changing"}[r.Intn(2)]
	cmd := exec.Command(exe, "-of", "another process")
	cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d %s together", aroundEnv, seed, n, level))
	cmd.Stdin = strings.NewReader(aroundInput)
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	bad := &others{logs: logLines{counts: map[string]int{}}}
	cmd.Stderr = bad
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	results, err := io.ReadAll(pr)
	pr.Close()
	if err != nil {
		panic(err)
	}
	if err := cmd.Wait(); err != nil {
		key := "process ended"
		if bytes.Contains(bad.tail.b, []byte("DATA RACE")) {
			key = "race"
		}
		c.Fail(key, "cases %d to %d with logs of level %s: %v: %s", seed, seed+int64(n)-1, level, err, bad.tail.b)
	}
	got := strings.Split(strings.TrimSpace(string(results)), "\n")
	for i, l := range got[:len(got)-1] {
		if i < n && !strings.Contains(l, ": held:") {
			c.Fail("failed with logs", "case %d with logs of level %s: %s", seed+int64(i), level, l)
		}
		c.Eval(model.Hash(model.HashInit, l))
	}
	c.Count("cases with logs", n)
	c.Count("lines of logs", bad.logs.counts["all"])
}
