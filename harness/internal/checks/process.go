package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	log "github.com/sirupsen/logrus"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C19 in other processes: a process has a time zone, working directory, arguments, environment and number of threads
// of its own, and another order of maps

const childEnv = "VERIF_C19_CHILD"

var processZones = []string{"UTC", "Asia/Tokyo", "America/Los_Angeles", "Europe/Berlin", "Pacific/Kiritimati", "Local"}

var processLevels = []string{"panic", "error", "info", "debug", "trace"}

// tail keeps the last of what is written
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if t.b = append(t.b, p...); len(t.b) > 4000 {
		t.b = append([]byte(nil), t.b[len(t.b)-2000:]...)
	}
	return len(p), nil
}

// Child writes the files asked for by environment, if it's asked
func Child() bool {
	if aroundChild() {
		return true
	}
	l := strings.Fields(os.Getenv(childEnv))
	if len(l) != 4 {
		return false
	}
	seed, err := strconv.ParseInt(l[0], 10, 64)
	if err != nil {
		panic(err)
	}
	n, err := strconv.Atoi(l[1])
	if err != nil {
		panic(err)
	}
	if l[2] != "Local" {
		loc, err := time.LoadLocation(l[2])
		if err != nil {
			panic(err)
		}
		time.Local = loc
	}
	level, err := log.ParseLevel(l[3])
	if err != nil {
		panic(err)
	}
	log.SetLevel(level)
	drive.Logs(level)
	for i := 0; i < n; i++ {
		_, h := processFile(seed + int64(i))
		fmt.Println(h)
	}
	return true
}

func processFile(seed int64) (*wcase, string) {
	c := rt.NewC(seed)
	w := genWrite(c, stdSchema(), 300)
	data := w.write(c)
	rd := open(c, data)
	defer rd.Close()
	readBack(c, rd, w.rows, drive.ROpts{Cap: capSource(c.R, len(w.rows))})
	return w, fmt.Sprintf("%d %x", len(data), sha256.Sum256(data))
}

func c19Process(c *rt.C) {
	r := c.R
	n := 10 + r.Intn(30)
	seed := r.Int63()
	var cases []*wcase
	var want []string
	for i := 0; i < n; i++ {
		w, h := processFile(seed + int64(i))
		cases = append(cases, w)
		want = append(want, h)
		w.eval(c)
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for k := 0; k < 2; k++ {
		zone := processZones[r.Intn(len(processZones))]
		level := processLevels[r.Intn(len(processLevels))]
		cmd := exec.Command(exe, "-of", "another process")
		cmd.Dir = []string{"/", "/tmp"}[r.Intn(2)]
		cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d %s %s", childEnv, seed, n, zone, level), fmt.Sprintf("GOMAXPROCS=%d", 1+r.Intn(8)), "LANG=tr_TR.UTF-8", "USER=somebody")
		var out bytes.Buffer
		var bad tail
		cmd.Stdout, cmd.Stderr = &out, &bad
		if err := cmd.Run(); err != nil {
			c.Fail("write error", "another process in time zone %s with log level %s: %v: %s", zone, level, err, bad.b)
		}
		got := strings.Split(strings.TrimSpace(out.String()), "\n")
		if len(got) != n {
			c.Fail("write error", "another process in time zone %s: %d of %d files", zone, len(got), n)
		}
		c.Count("processes of log level "+level, 1)
		for i := range want {
			if got[i] != want[i] {
				c.Fail("process", "file %d of %s is %s, when written by another process in time zone %s with log level %s it's %s", i, cases[i], want[i], zone, level, got[i])
			}
			c.Count("files of other processes compared", 1)
		}
	}
}

// otherEnv is the path of a program which does the same on another platform
const otherEnv = "VERIF_OTHER_PLATFORM"

func c32Bytes(c *rt.C) {
	r := c.R
	exe := os.Getenv(otherEnv)
	if exe == "" {
		panic("no program for another platform in " + otherEnv)
	}
	n := 50 + r.Intn(50)
	seed := r.Int63()
	cmd := exec.Command(exe, "-of", "another platform")
	cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%d %d Local error", childEnv, seed, n))
	var out bytes.Buffer
	var bad tail
	cmd.Stdout, cmd.Stderr = &out, &bad
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("%v: %s", err, bad.b))
	}
	got := strings.Split(strings.TrimSpace(out.String()), "\n")
	if len(got) != n {
		panic(fmt.Sprintf("%d of %d files", len(got), n))
	}
	for i := range got {
		w, want := processFile(seed + int64(i))
		w.eval(c)
		if got[i] != want {
			c.Fail("platform", "%s is %s on a platform of 32 bits and %s on one of 64", w, want, got[i])
		}
		c.Count("files of both platforms compared", 1)
	}
}

// buildEnv is the path of what the compiler says when it can't build for the platform
const buildEnv = "VERIF_BUILD_FAILED"

func c32Build(c *rt.C) {
	if path := os.Getenv(buildEnv); path != "" {
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		c.Fail("build", "builds for amd64, but not for 386: %s", b)
	}
	c.Count("platforms built for", 1)
	c.Eval(model.Hash(1, int64(32)))
}
