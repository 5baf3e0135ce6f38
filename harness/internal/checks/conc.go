package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// C15: independent readers and writers at the same time, with the race detector

// job is what a goroutine does, with things of its own made of its seed only
type job struct {
	seed int64
	kind int
	dir  string
}

// outcome of a job is the same whatever runs besides
type outcome struct {
	h     uint64
	err   string
	desc  string
	reads int
	rows  int
	files int
}

type event struct {
	at int64
	g  int
}

// delays gives other goroutines turns at operations of files, and logs them. Nothing is shared, so that it orders nothing.
func delays(fs *drive.FS, r *rand.Rand, events *[]event, g int, how int) {
	fs.OnOp = func(op string, n int) {
		if events != nil && len(*events) < 4000 {
			*events = append(*events, event{time.Now().UnixNano(), g})
		}
		switch how {
		case 1:
			if r.Intn(4) == 0 {
				runtime.Gosched()
			}
		case 2:
			if r.Intn(20) == 0 {
				time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
			}
		}
	}
}

func (j job) run(events *[]event, g, how int) (o outcome) {
	r := rand.New(rand.NewSource(j.seed))
	slow := rand.New(rand.NewSource(j.seed + int64(how)*7919 + int64(g)))
	defer func() {
		if p := recover(); p != nil {
			o.err = fmt.Sprintf("panic: %v", p)
		}
	}()
	o.h = model.HashInit
	tell := func(err error) bool {
		if err != nil {
			o.err = err.Error()
		}
		return err != nil
	}
	t := model.GenSchema(r, stdSchema())
	n := 1 + r.Intn(60)
	rows := model.GenCol(r, t, n)
	wo := drive.RandWOpts(r, n)
	// compressors are big, and slow with the race detector
	wo.Chunk = min(wo.Chunk, 8192)
	if wo.Zlib && wo.Stripe < 4000 {
		if wo.Stripe += 2000; r.Intn(2) == 0 {
			wo.Zlib = false
		}
	}
	batches := drive.Split(r, n)
	o.desc = fmt.Sprintf("kind %d %s %d rows %s", j.kind, t, n, wo)
	readAll := func(rd orc.Reader, t *model.Type) {
		defer rd.Close()
		if tell(schemaIs(rd, t)) {
			return
		}
		ns := 1 + r.Intn(3)
		var ss []orc.BatchReader
		var vs []*api.ColumnVector
		opt := &api.BatchOption{RowSize: 1 + r.Intn(n+1)}
		for k := 0; k < ns; k++ {
			br, err := rd.CreateBatchReader(opt)
			if tell(err) {
				return
			}
			defer br.Close()
			v, err := rd.GetSchema().CreateVector(opt)
			if tell(err) {
				return
			}
			ss, vs = append(ss, br), append(vs, v)
		}
		for k := 0; k < 8+r.Intn(10); k++ {
			i := r.Intn(ns)
			if r.Intn(3) == 0 {
				if tell(ss[i].Seek(uint64(r.Intn(n)))) {
					return
				}
			}
			got, end, err := drive.Batch(ss[i], t, vs[i])
			if tell(err) {
				return
			}
			o.reads++
			o.rows += len(got)
			o.h = model.Hash(o.h, model.Lst(got))
			o.h = model.Hash(o.h, end)
		}
	}
	switch j.kind {
	case 0: // write, and read it
		fs := drive.NewFS(nil)
		delays(fs, slow, events, g, how)
		if tell(drive.Write(t, rows, batches, wo, drive.VecStyle{}, fs.Handle())) {
			return
		}
		o.files++
		o.h = model.Hash(o.h, string(fs.Data))
		rfs := drive.NewFS(fs.Data)
		delays(rfs, slow, events, g, how)
		rd, err := orc.VerifNewReader(rfs.Handle())
		if tell(err) {
			return
		}
		readAll(rd, t)
	case 1: // read of another writer
		so := stdSchema()
		so.Nested, so.AnyRoot = true, true
		t = model.GenSchema(r, so)
		if k := len(t.Flat()); k > 6 {
			n = n*6/k + 1
		}
		rows = model.GenCol(r, t, n)
		data := refenc.Encode(r, t, rows, refenc.RandOptions(r, n)).B
		o.desc = fmt.Sprintf("kind %d %s %d rows of another writer", j.kind, t, n)
		rfs := drive.NewFS(data)
		delays(rfs, slow, events, g, how)
		rd, err := orc.VerifNewReader(rfs.Handle())
		if tell(err) {
			return
		}
		readAll(rd, t)
	case 2: // files of the system
		path := filepath.Join(j.dir, fmt.Sprintf("f%d-%d", g, j.seed))
		defer os.Remove(path)
		w, err := orc.NewOSFileWriter(path, drive.Schema(t), wo.Config())
		if tell(err) {
			return
		}
		at := 0
		for _, k := range batches {
			if tell(w.Write(drive.ToVector(t, rows[at:at+k], drive.VecStyle{}))) {
				return
			}
			at += k
			if how == 1 {
				runtime.Gosched()
			}
		}
		if tell(w.Close()) {
			return
		}
		o.files++
		b, err := os.ReadFile(path)
		if tell(err) {
			return
		}
		o.h = model.Hash(o.h, string(b))
		rd, err := orc.NewOSFileReader(path)
		if tell(err) {
			return
		}
		readAll(rd, t)
	case 3: // two writers in turns, refused batches and schemas, conversions
		var fss []*drive.FS
		var ws []orc.Writer
		for k := 0; k < 2; k++ {
			fs := drive.NewFS(nil)
			delays(fs, slow, events, g, how)
			w, err := orc.VerifNewWriter(drive.Schema(t), wo.Config(), fs.Handle())
			if tell(err) {
				return
			}
			fss, ws = append(fss, fs), append(ws, w)
		}
		at := 0
		for _, k := range batches {
			for i, w := range ws {
				part := rows[at : at+k]
				if i == 1 {
					part = rows[:k]
				}
				if tell(w.Write(drive.ToVector(t, part, drive.VecStyle{}))) {
					return
				}
				v := drive.ToVector(t, part, drive.VecStyle{})
				v.Kind++
				if w.Write(v) == nil {
					o.err = "wrong batch accepted"
					return
				}
			}
			at += k
		}
		for i, w := range ws {
			if tell(w.Close()) {
				return
			}
			o.files++
			o.h = model.Hash(o.h, string(fss[i].Data))
		}
		for k := 0; k < 20; k++ {
			ts := api.GetTimestamp(c16Instant(r, zones15[r.Intn(len(zones15))]))
			o.h = model.Hash(o.h, fmt.Sprint(ts.Time(), ts.GetMilliSeconds(), ts.GetMilliSecondsUtc(), api.Decimal64{Precision: r.Int63(), Scale: r.Intn(38)}, api.ToDays(api.FromDays(int32(r.Uint32())))))
		}
	}
	return
}

var zones15 = func() (l []*time.Location) {
	for _, z := range zones {
		loc, err := time.LoadLocation(z)
		if err != nil {
			panic(err)
		}
		l = append(l, loc)
	}
	return
}()

func schemaIs(rd orc.Reader, t *model.Type) error {
	if d := sameType(t, drive.FromSchema(rd.GetSchema())); d != "" {
		return fmt.Errorf("schema: %s", d)
	}
	return nil
}

func c15Case(c *rt.C, same bool) {
	r := c.R
	dir := scratch(c)
	defer os.RemoveAll(dir)
	g := 2 + r.Intn(7)
	jobs := make([][]job, g)
	kind := r.Intn(4)
	for i := range jobs {
		for k := 1 + r.Intn(2); k > 0; k-- {
			j := job{r.Int63(), r.Intn(4), dir}
			if same { // all do the same kind, so that they are in the same code
				j.kind = kind
			}
			jobs[i] = append(jobs[i], j)
		}
	}
	how := r.Intn(3)
	got := make([][]outcome, g)
	logs := make([][]event, g)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range jobs {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for _, j := range jobs[i] {
				got[i] = append(got[i], j.run(&logs[i], i, how))
			}
		}(i)
	}
	start.Done()
	done.Wait()
	// and alone, after it: so that what is made once is not made already
	for i := range jobs {
		for k, j := range jobs[i] {
			want, o := j.run(nil, i, 0), got[i][k]
			if want.err != "" {
				c.Fail("error alone", "%s: %s", want.desc, want.err)
			}
			if o.err != "" {
				c.Fail("error with others", "goroutine %d of %d, %s: %s", i, g, o.desc, o.err)
			}
			if o.h != want.h || o.reads != want.reads || o.rows != want.rows {
				c.Fail("differs with others", "goroutine %d of %d, %s: file or rows are not those when it runs alone (%d reads %d rows, alone %d and %d)", i, g, o.desc, o.reads, o.rows, want.reads, want.rows)
			}
			c.Count("jobs", 1)
			c.Count("files", o.files)
			c.Count("reads", o.reads)
			c.Count("rows read", o.rows)
			c.Sample("%d goroutines, one of them %s", g, o.desc)
		}
	}
	var all []event
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	h := model.Hash(model.HashInit, int64(c.Idx))
	turns := 0
	for i, e := range all {
		if i > 0 && all[i-1].g != e.g {
			turns++
			h = model.Hash(h, int64(e.g))
		}
	}
	c.Count("turns between goroutines at file operations", turns)
	c.Count("goroutines", g)
	if turns < g {
		c.Trivial()
	} else {
		c.Eval(h)
	}
}

func c15Mixed(c *rt.C) { c15Case(c, false) }
func c15Same(c *rt.C)  { c15Case(c, true) }

// plainFile is a file in memory without any lock, which would order the goroutines
type plainFile struct {
	*bytes.Reader
	data   []byte
	closed bool
	slow   *rand.Rand
	how    int
	log    *[]event
	g      int
}

func (f *plainFile) turn() {
	if f.log != nil && len(*f.log) < 4000 {
		*f.log = append(*f.log, event{time.Now().UnixNano(), f.g})
	}
	switch f.how {
	case 1:
		if f.slow.Intn(4) == 0 {
			runtime.Gosched()
		}
	case 2:
		if f.slow.Intn(20) == 0 {
			time.Sleep(time.Duration(f.slow.Intn(200)) * time.Microsecond)
		}
	}
}

func (f *plainFile) Read(p []byte) (int, error) {
	f.turn()
	if f.closed {
		return 0, errors.New("file already closed")
	}
	return f.Reader.Read(p)
}

func (f *plainFile) Seek(o int64, w int) (int64, error) {
	f.turn()
	if f.closed {
		return 0, errors.New("file already closed")
	}
	return f.Reader.Seek(o, w)
}

func (f *plainFile) Write(p []byte) (int, error) { return 0, errors.New("file is read only") }
func (f *plainFile) Size() (int64, error)        { return int64(len(f.data)), nil }
func (f *plainFile) Close() error {
	f.closed = true
	return nil
}

func (f *plainFile) Clone() (orcio.File, error) {
	n := *f
	n.Reader = bytes.NewReader(f.data)
	return &n, nil
}

// c15Shared reads by batch readers of one reader, each used by a goroutine of its own after all are made
func c15Shared(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 200)
	n := len(m.rows)
	g := 2 + r.Intn(5)
	how := r.Intn(3)
	logs := make([][]event, g)
	subs := make([]*rt.C, g)
	file := &plainFile{Reader: bytes.NewReader(m.data), data: m.data}
	var rd orc.Reader
	var err error
	if real := r.Intn(3) == 0; real {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "shared.orc")
		if err := os.WriteFile(path, m.data, 0600); err != nil {
			panic(err)
		}
		rd, err = orc.NewOSFileReader(path)
	} else {
		rd, err = orc.VerifNewReader(file)
	}
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	closeEarly := r.Intn(2) == 0
	ss := make([]*session, g)
	var common []uint32
	if r.Intn(2) == 0 {
		common = randTree(r, m.t)
	}
	for i := range ss {
		inc := common
		if r.Intn(2) == 0 {
			inc = randTree(r, m.t)
		}
		subs[i] = c.Sub()
		// clones are made of it while the batch reader is
		file.slow, file.how, file.log, file.g = rand.New(rand.NewSource(r.Int63())), how, &logs[i], i
		ss[i] = newSession(subs[i], rd, m.t, m.rows, inc, 1+r.Intn(n+2))
		ss[i].name = fmt.Sprintf("goroutine %d of columns %v: ", i, inc)
		logs[i] = nil
	}
	file.log = nil
	if closeEarly {
		rd.Close()
	} else {
		defer rd.Close()
	}
	failed := make([]interface{}, g)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range ss {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			defer func() { failed[i] = recover() }()
			s, r := ss[i], subs[i].R
			defer s.br.Close()
			start.Wait()
			if len(rowVectors(s.vec)) == 0 {
				return
			}
			for k := 3 + r.Intn(12); k > 0; k-- {
				switch r.Intn(6) {
				case 0, 1:
					if n > 0 {
						s.seek(r.Intn(n))
					}
				case 2:
					s.vector(1 + r.Intn(n+2))
				case 3:
					if rows := rd.NumberOfRows(); rows != uint64(n) {
						s.c.Fail("number of rows", "%snumber of rows is %d, not %d", s.name, rows, n)
					}
					if err := schemaIs(rd, m.t); err != nil {
						s.c.Fail("schema", "%s%v", s.name, err)
					}
					rd.GetStatistics()
				}
				s.next()
			}
			s.c.Count("batch readers of a shared reader", 1)
		}(i)
	}
	start.Done()
	done.Wait()
	for i := range ss {
		c.Join(subs[i])
		if failed[i] != nil {
			panic(failed[i])
		}
	}
	var all []event
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	h := model.Hash(model.HashInit, int64(c.Idx))
	turns := 0
	for i, e := range all {
		if i > 0 && all[i-1].g != e.g {
			turns++
			h = model.Hash(h, int64(e.g))
		}
	}
	c.Count("turns between goroutines of a shared reader", turns)
	c.Eval(h)
	c.Sample("%d goroutines read %s", g, m.desc)
}
