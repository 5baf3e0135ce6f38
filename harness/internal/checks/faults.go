package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
)

// C14: failing operations of files

// fault is how an operation fails
type fault struct {
	at            int
	sticky, short bool
}

func (f fault) String() string {
	s := fmt.Sprintf("operation %d", f.at)
	if f.short {
		s += " done in part"
	}
	if f.sticky {
		s += " and all after it"
	}
	return s
}

// points are operations to fail: all, or if there are a lot the first, the last and some
func points(r *rand.Rand, n, most int) []int {
	var l []int
	for i := 1; i <= n; i++ {
		if n <= most || i <= most/4 || i > n-most/4 || r.Intn(n) < most/2 {
			l = append(l, i)
		}
	}
	return l
}

// writeFaults writes with each of the operations failing
func writeFaults(c *rt.C, w *wcase, most int, each func(fs *drive.FS, errs int)) {
	r := c.R
	control := drive.NewFS(nil)
	if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, control.Handle()); err != nil {
		c.Fail("write error", "%v", err)
	}
	c.Count("operations of writers", control.Ops)
	// files of a lot of compressed streams are written a few times only
	if w.o.Zlib && most*control.Ops > 1500 {
		most = 1500 / control.Ops
	}
	if most < 8 {
		most = 8
	}
	for _, at := range points(r, control.Ops, most) {
		for mode := 0; mode < 4; mode++ {
			f := fault{at, mode&1 != 0, mode&2 != 0}
			fs := drive.NewFS(nil)
			fs.FailAt, fs.Sticky, fs.Short = f.at, f.sticky, f.short
			what := ""
			call := func(name string, g func() error) error {
				before := fs.Failed
				var err error
				if p, st := rt.Try(func() { err = g() }); p != nil {
					c.Fail("panic when writing", "%s: %s: panic %v\n%s", f, name, p, st)
				}
				if err == nil && fs.Failed > before {
					what += fmt.Sprintf(" %s did not tell of failed %s;", name, fs.FailedOp)
				}
				return err
			}
			errs := 0
			var wr orc.Writer
			err := call("new writer", func() (err error) {
				wr, err = orc.VerifNewWriter(drive.Schema(w.t), w.o.Config(), fs.Handle())
				return
			})
			if err != nil {
				errs++
			} else {
				done := 0
				for i, n := range w.batches {
					batch := drive.ToVector(w.t, w.rows[done:done+n], w.st)
					done += n
					if err := call(fmt.Sprintf("write of batch %d", i), func() error { return wr.Write(batch) }); err != nil {
						errs++
						if f.sticky && r.Intn(2) == 0 {
							break
						}
					}
				}
				err := call("close", wr.Close)
				if err != nil {
					errs++
				} else if fs.Failed > 0 {
					if d := diffBytes(control.Data, fs.Data); d != "" {
						c.Fail("closed without error", "%s (%s) failed, closing has no error, and file differs from a good one: %s;%s", f, fs.FailedOp, d, what)
					}
					if errs == 0 {
						c.Fail("write failure not told", "%s (%s) failed, and no call had an error", f, fs.FailedOp)
					}
				}
				if errs == 0 && fs.Failed == 0 {
					if d := diffBytes(control.Data, fs.Data); d != "" {
						c.Fail("file differs", "nothing failed: %s", d)
					}
				}
				if r.Intn(4) == 0 { // once more
					if p, st := rt.Try(func() { wr.Close() }); p != nil {
						c.Fail("panic in second close", "%v\n%s", p, st)
					}
				}
			}
			if fs.Failed > 0 {
				c.Count("writes with a failure", 1)
				c.Count("failed "+fs.FailedOp+" of writers", 1)
				if errs == 0 {
					c.Fail("write failure not told", "%s (%s) failed, and no call had an error", f, fs.FailedOp)
				}
			}
			if each != nil {
				each(fs, errs)
			}
			c.Eval(model.Hash(w.hash(), f.String()))
		}
	}
}

func smallWrite(c *rt.C, most int) *wcase {
	w := genWrite(c, stdSchema(), most)
	// many operations: small stripes
	if c.R.Intn(3) != 0 && w.o.Stripe > 3000 {
		w.o.Stripe = 50 + c.R.Intn(600)
	}
	return w
}

func c14Write(c *rt.C) {
	w := smallWrite(c, 120)
	c.Sample("%s", w)
	writeFaults(c, w, 40, nil)
}

// step of a script of reading
type step struct {
	kind byte // n next, s seek
	arg  int
}

// script is run on a file with faults
func readFaults(c *rt.C, m *made, most int, each func(fs *drive.FS, name string)) {
	r := c.R
	n := len(m.rows)
	var inc []uint32
	if r.Intn(2) == 0 {
		inc = randTree(r, m.t)
	}
	mask := drive.Included(m.t, inc)
	t := model.Project(m.t, mask)
	want := make([]model.Val, n)
	for i, v := range m.rows {
		want[i] = model.ProjectVal(m.t, v, mask)
	}
	capacity := 1 + r.Intn(n+1)
	if n/capacity > 12 {
		capacity = n/12 + 1
	}
	var script []step
	for i := 3 + r.Intn(10); i >= 0; i-- {
		if n > 0 && r.Intn(3) == 0 {
			script = append(script, step{'s', r.Intn(n)})
		} else {
			script = append(script, step{'n', 0})
		}
	}
	run := func(fs *drive.FS, f fault) {
		call := func(name string, g func() error) error {
			before := fs.Failed
			var err error
			if p, st := rt.Try(func() { err = g() }); p != nil {
				c.Fail("panic when reading", "%s: %s: panic %v\n%s", f, name, p, st)
			}
			if failed := fs.Failed > before; failed && err == nil {
				c.Count("failures worked around", 1) // what it did is checked as ever
			} else if !failed && err != nil && fs.Failed == 0 {
				c.Fail("read error", "%s: %v, nothing failed", name, err)
			}
			return err
		}
		var rd orc.Reader
		if call("open", func() (err error) { rd, err = orc.VerifNewReader(fs.Handle()); return }) != nil {
			return
		}
		defer rd.Close()
		if rd.NumberOfRows() != uint64(n) || sameType(m.t, drive.FromSchema(rd.GetSchema())) != "" {
			c.Fail("opened wrongly", "%s: %d rows of %d, schema %s", f, rd.NumberOfRows(), n, drive.FromSchema(rd.GetSchema()))
		}
		opt := &api.BatchOption{Includes: inc, RowSize: capacity}
		var br orc.BatchReader
		if call("create batch reader", func() (err error) { br, err = rd.CreateBatchReader(opt); return }) != nil {
			if f.sticky {
				return
			}
			var err error
			if br, err = rd.CreateBatchReader(opt); err != nil {
				c.Fail("not recovered", "%s: creating a batch reader again after the failure is over: %v", f, err)
			}
			c.Count("batch readers created again", 1)
		}
		defer br.Close()
		at, broken := 0, false
		read := func() bool {
			vec, err := rd.GetSchema().CreateVector(opt)
			if err != nil {
				c.Fail("vector error", "%v", err)
			}
			var rows []model.Val
			var end bool
			if err := call("next", func() error {
				var err error
				rows, end, err = drive.Batch(br, t, vec)
				if w, ok := err.(drive.Wrong); ok {
					c.Fail("wrong vector", "%s: %v", f, w)
				}
				return err
			}); err != nil {
				broken = true
				return false
			}
			if broken {
				c.Count("reads after a failed one", 1)
			}
			if at+len(rows) > n || end != (at+len(rows) == n) {
				c.Fail("rows after failure", "%s: %d rows at %d of %d, end %t", f, len(rows), at, n, end)
			}
			if d := model.DiffRows(want[at:at+len(rows)], rows); d != "" {
				c.Fail("rows after failure", "%s: at row %d of %d (failed before: %t): %s", f, at, n, broken, d)
			}
			at += len(rows)
			return true
		}
		for _, s := range script {
			if s.kind == 's' {
				if call("seek", func() error { return br.Seek(uint64(s.arg)) }) != nil {
					broken = true
				} else {
					at, broken = s.arg, false
				}
			} else {
				read()
			}
		}
		// after the failure rows are right again, if it is over
		if !f.sticky && fs.Failed > 0 && n > 0 {
			row := r.Intn(n)
			if err := br.Seek(uint64(row)); err == nil {
				c.Count("recovered by seek", 1)
				at, broken = row, false
				for i := 0; i < 4; i++ {
					if before := at; !read() {
						c.Fail("not recovered", "%s: reading at row %d, sought after the failure is over, fails", f, at)
					} else if at == before || at == n {
						break
					}
				}
			} else {
				c.Fail("not recovered", "%s: seeking to row %d after the failure is over: %v", f, row, err)
			}
		}
	}
	control := drive.NewFS(m.data)
	run(control, fault{})
	c.Count("operations of readers", control.Ops)
	if most*control.Ops > 12000 {
		most = 12000 / control.Ops
	}
	if most < 8 {
		most = 8
	}
	for _, at := range points(r, control.Ops, most) {
		for mode := 0; mode < 4; mode++ {
			f := fault{at, mode&1 != 0, mode&2 != 0}
			fs := drive.NewFS(m.data)
			fs.FailAt, fs.Sticky, fs.Short = f.at, f.sticky, f.short
			run(fs, f)
			if fs.Failed > 0 {
				c.Count("reads with a failure", 1)
				c.Count("failed "+fs.FailedOp+" of readers", 1)
			}
			if each != nil {
				each(fs, f.String())
			}
			c.Eval(model.Hash(model.Hash(model.HashInit, string(m.data)), f.String()))
		}
	}
}

func c14Read(c *rt.C) {
	m := makeFile(c, stdSchema(), 200)
	c.Sample("%s", m.desc)
	readFaults(c, m, 40, nil)
}

// reads which return less than asked for, or the end with the last bytes, are not failures
func c14Partial(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 400)
	m.eval(c)
	fs := drive.NewFS(m.data)
	fs.Partial = rand.New(rand.NewSource(r.Int63()))
	fs.PartialMost = 1 + r.Intn(100)
	fs.EOFWithData = r.Intn(2) == 0
	rd, err := orc.VerifNewReader(fs.Handle())
	if err != nil {
		c.Fail("open error", "reading by parts: %v", err)
	}
	s := newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(300))
	for i := 0; i < 30; i++ {
		if _, end := s.next(); end {
			break
		}
	}
	for i := 0; i < 4 && len(m.rows) > 0; i++ {
		s.seek(r.Intn(len(m.rows)))
		s.next()
	}
	s.br.Close()
	rd.Close()
	c.Count("partial reads", fs.Parts)
}

// files of the system: full device, file removed or cut while it is read, a path which can't be opened
func c14OS(c *rt.C) {
	r := c.R
	dir := scratch(c)
	defer os.RemoveAll(dir)
	w := smallWrite(c, 300)
	schema := drive.Schema(w.t)
	c.Eval(w.hash())
	// no space
	wr, err := orc.NewOSFileWriter("/dev/full", schema, w.o.Config())
	if err == nil {
		errs, at := 0, 0
		for _, n := range w.batches {
			if wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)) != nil {
				errs++
			}
			at += n
		}
		if err := wr.Close(); err == nil {
			c.Fail("closed without error", "file written to a full device is closed without error, %d errors before", errs)
		}
	}
	c.Count("full devices", 1)
	for _, p := range []string{filepath.Join(dir, "none", "x.orc"), dir} {
		if wr, err := orc.NewOSFileWriter(p, schema, w.o.Config()); err == nil {
			wr.Close()
			c.Fail("create without error", "writer of path %s has no error", p)
		}
		if rd, err := orc.NewOSFileReader(p); err == nil {
			rd.Close()
			c.Fail("open without error", "reader of path %s has no error", p)
		}
	}
	path := filepath.Join(dir, "a.orc")
	data := w.write(c)
	read := func(br orc.BatchReader, rd orc.Reader) (rows []model.Val, err error) {
		for i := 0; i < 50; i++ {
			vec, err := rd.GetSchema().CreateVector(&api.BatchOption{RowSize: 1 + r.Intn(200)})
			if err != nil {
				return rows, err
			}
			got, end, err := drive.Batch(br, w.t, vec)
			if err != nil {
				if x, ok := err.(drive.Wrong); ok {
					c.Fail("wrong vector", "%v", x)
				}
				return rows, err
			}
			rows = append(rows, got...)
			if end {
				break
			}
		}
		return rows, nil
	}
	for i := 0; i < 3; i++ {
		os.WriteFile(path, data, 0o600)
		rd, err := orc.NewOSFileReader(path)
		if err != nil {
			c.Fail("open error", "%v", err)
		}
		var br orc.BatchReader
		early := r.Intn(2) == 0
		if early {
			if br, err = rd.CreateBatchReader(&api.BatchOption{RowSize: 10}); err != nil {
				c.Fail("create error", "%v", err)
			}
		}
		cutTo := -1
		if r.Intn(2) == 0 {
			os.Remove(path)
		} else {
			cutTo = r.Intn(len(data))
			os.Truncate(path, int64(cutTo))
		}
		if !early {
			if br, err = rd.CreateBatchReader(&api.BatchOption{RowSize: 10}); err != nil {
				c.Count("errors of files gone", 1)
				rd.Close()
				continue
			}
		}
		rows, err := read(br, rd)
		if len(rows) > len(w.rows) {
			c.Fail("rows of file gone", "%d rows of %d", len(rows), len(w.rows))
		}
		if d := model.DiffRows(w.rows[:len(rows)], rows); d != "" {
			c.Fail("rows of file gone", "cut to %d of %d: %s", cutTo, len(data), d)
		}
		if err != nil {
			c.Count("errors of files gone", 1)
		}
		br.Close()
		rd.Close()
	}
	c14OSFile(c, path, data)
}

// the file of the system by itself
func c14OSFile(c *rt.C, path string, data []byte) {
	os.WriteFile(path, data, 0o600)
	f, err := orcio.OpenFileForRead(path)
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	g, err := f.Clone()
	if err != nil {
		c.Fail("clone error", "%v", err)
	}
	n, err := f.Size()
	if err != nil || n != int64(len(data)) {
		c.Fail("size", "size %d of %d, %v", n, len(data), err)
	}
	k := c.R.Intn(len(data))
	if o, err := f.Seek(int64(k), 0); err != nil || o != int64(k) {
		c.Fail("file seek", "to %d: %d %v", k, o, err)
	}
	b := make([]byte, len(data)-k)
	if n, err := f.Read(b); err != nil || n != len(b) || string(b) != string(data[k:]) {
		c.Fail("file read", "%d of %d, %v", n, len(b), err)
	}
	if n, err := f.Read(b); n != 0 || err == nil {
		c.Fail("file read", "%d at the end, %v", n, err)
	}
	// the clone is at the start, and is closed by itself
	b = make([]byte, 3)
	if n, err := g.Read(b); err != nil || string(b[:n]) != "ORC" {
		c.Fail("file clone", "read %q %v", b[:n], err)
	}
	if err := g.Close(); err != nil {
		c.Fail("file close", "%v", err)
	}
	if _, err := f.Seek(0, 0); err != nil {
		c.Fail("file seek", "after closing the clone: %v", err)
	}
	if _, err := f.Write([]byte("x")); err == nil {
		c.Fail("file write", "writing to a file opened for reading has no error")
	}
	if err := f.Close(); err != nil {
		c.Fail("file close", "%v", err)
	}
	if _, err := f.Read(b); err == nil {
		c.Fail("file closed", "reading has no error")
	}
	if _, err := f.Seek(0, 0); err == nil {
		c.Fail("file closed", "seeking has no error")
	}
	if _, err := f.Size(); err == nil {
		c.Fail("file closed", "size has no error")
	}
	if err := f.Close(); err == nil {
		c.Fail("file closed", "closing again has no error")
	}
	c.Count("system files", 1)
}

func scratch(c *rt.C) string {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		panic(err)
	}
	return dir
}

// C17: handles

func leaks(c *rt.C, fs *drive.FS, what string) {
	if fs.Open != 0 {
		c.Fail("handles open", "%s: %d of %d handles are open at the end", what, fs.Open, fs.Opened)
	}
	if len(fs.Misuse) > 0 {
		c.Fail("handle misuse", "%s: %v", what, fs.Misuse[0])
	}
	c.Count("handles", fs.Opened)
	if fs.Opened > 1 {
		c.Count("files of more handles", 1)
	}
}

// c17Read: several batch readers, closed in any order
func c17Read(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 300)
	m.eval(c)
	n := len(m.rows)
	fs := drive.NewFS(m.data)
	rd, err := orc.VerifNewReader(fs.Handle())
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	var ss []*session
	for i := r.Intn(4); i >= 0; i-- {
		var inc []uint32
		if r.Intn(2) == 0 {
			inc = randTree(r, m.t)
		}
		if r.Intn(5) == 0 { // refused
			if br, err := rd.CreateBatchReader(&api.BatchOption{RowSize: 10, Includes: []uint32{uint32(1 + r.Intn(3))}}); err == nil {
				br.Close()
			}
			if br, err := rd.CreateBatchReader(&api.BatchOption{RowSize: -r.Intn(2)}); err == nil {
				br.Close()
			}
		}
		s := newSession(c, rd, m.t, m.rows, inc, 1+r.Intn(200))
		for k := r.Intn(6); k > 0; k-- {
			if n > 0 && r.Intn(3) == 0 {
				s.seek(r.Intn(n))
			} else {
				s.next()
			}
		}
		if r.Intn(3) == 0 {
			s.br.Close()
		} else {
			ss = append(ss, s)
		}
	}
	first := r.Intn(2) == 0
	if first && r.Intn(2) == 0 {
		rd.Close()
		rd = nil
	}
	for _, s := range ss {
		if rd == nil && n > 0 { // handles of its own
			rows, _, err := drive.Batch(s.br, s.t, s.vec)
			if err == nil {
				if d := model.DiffRows(s.want[s.at:s.at+len(rows)], rows); d != "" {
					c.Fail("rows differ", "after the reader was closed: %s", d)
				}
			}
		}
		s.br.Close()
	}
	if rd != nil {
		rd.Close()
	}
	leaks(c, fs, "after closing all")
}

func c17Faults(c *rt.C) {
	if c.R.Intn(3) == 0 {
		w := smallWrite(c, 60)
		writeFaults(c, w, 12, func(fs *drive.FS, errs int) {
			if fs.Opened > 1 {
				c.Fail("handles", "writer opened %d handles", fs.Opened)
			}
			// a writer which was not created leaves the file to its caller
			if len(fs.Misuse) > 0 {
				c.Count("second closes", 1)
			}
		})
		return
	}
	m := makeFile(c, stdSchema(), 100)
	readFaults(c, m, 16, func(fs *drive.FS, name string) {
		open := fs.Open
		if fs.FailedOp != "" && fs.Failed > 0 && open == 1 && fs.Opened == 1 {
			return // not opened, the handle is the caller's
		}
		leaks(c, fs, name+" failing")
	})
}

// descriptors of the process in dir
func descriptors(dir string) (l []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && len(p) > len(dir) && p[:len(dir)] == dir {
			l = append(l, p)
		}
	}
	return
}

// c17OS: descriptors of files of the system
func c17OS(c *rt.C) {
	r := c.R
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "a.orc")
	w := smallWrite(c, 200)
	c.Eval(w.hash())
	none := func(what string) {
		if l := descriptors(dir); len(l) > 0 {
			c.Fail("descriptors open", "%s: %v", what, l)
		}
		c.Count("descriptor tables", 1)
	}
	// written, closed
	wr, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config())
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	at := 0
	for _, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)); err != nil {
			c.Fail("write error", "%v", err)
		}
		at += n
	}
	if len(descriptors(dir)) != 1 {
		c.Fail("descriptors", "writer has %d", len(descriptors(dir)))
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	none("writer closed")
	// refused schemas and options
	bad := w.o.Config()
	bad.ChunkSize = -1
	if wr, err := orc.NewOSFileWriter(filepath.Join(dir, "b.orc"), drive.Schema(w.t), bad); err == nil {
		wr.Close()
	}
	t := drive.Schema(w.t)
	t.Id = 77
	if wr, err := orc.NewOSFileWriter(filepath.Join(dir, "b.orc"), t, w.o.Config()); err == nil {
		wr.Close()
	}
	none("writer refused")
	// read, in part
	for i := 0; i < 3; i++ {
		rd, err := orc.NewOSFileReader(path)
		if err != nil {
			c.Fail("open error", "%v", err)
		}
		var brs []orc.BatchReader
		for k := r.Intn(3); k >= 0; k-- {
			s := newSession(c, rd, w.t, w.rows, nil, 1+r.Intn(100))
			for j := r.Intn(4); j > 0; j-- {
				s.next()
			}
			if len(w.rows) > 0 && r.Intn(2) == 0 {
				s.seek(r.Intn(len(w.rows)))
			}
			brs = append(brs, s.br)
		}
		r.Shuffle(len(brs), func(i, j int) { brs[i], brs[j] = brs[j], brs[i] })
		for _, b := range brs {
			b.Close()
		}
		if n := len(descriptors(dir)); n > 1 {
			c.Fail("descriptors open", "%d after batch readers were closed", n)
		}
		rd.Close()
		none("reader closed")
	}
	// damaged ones
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if f, err := refdec.Parse(data); err == nil && len(f.Stripes) > 0 {
		c.Count("stripes", len(f.Stripes))
	}
	for i := 0; i < 12; i++ {
		d := append([]byte(nil), data...)
		switch r.Intn(3) {
		case 0:
			d = d[:r.Intn(len(d))]
		default:
			for k := r.Intn(3); k >= 0; k-- {
				p := r.Intn(len(d))
				if r.Intn(2) == 0 {
					p = len(d) - 1 - r.Intn(min(len(d), 300))
				}
				d[p] = byte(r.Intn(256))
			}
		}
		os.WriteFile(path, d, 0o600)
		rd, err := orc.NewOSFileReader(path)
		if err != nil {
			c.Count("refused files", 1)
			none("opening refused")
			continue
		}
		opt := &api.BatchOption{RowSize: 100}
		br, err := rd.CreateBatchReader(opt)
		if err != nil {
			c.Count("refused batch readers", 1)
			if n := len(descriptors(dir)); n > 1 {
				c.Fail("descriptors open", "%d after creating a batch reader failed: %v", n, err)
			}
			rd.Close()
			none("reader closed after a refused batch reader")
			continue
		}
		if vec, err := rd.GetSchema().CreateVector(opt); err == nil {
			for k := 0; k < 20; k++ {
				if end, err := br.Next(vec); end || err != nil {
					if err != nil {
						c.Count("failed reads", 1)
					}
					break
				}
			}
			br.Seek(uint64(r.Intn(200)))
		}
		br.Close()
		rd.Close()
		none("closed after damage")
	}
	// an empty file
	os.WriteFile(path, nil, 0o600)
	if rd, err := orc.NewOSFileReader(path); err == nil {
		rd.Close()
	}
	none("empty file")
}

// c17Damaged: handles of damaged files
func c17Damaged(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 100)
	for i := 0; i < 6; i++ {
		data := append([]byte(nil), m.data...)
		if r.Intn(3) != 0 {
			if p, err := takeApart(m.data); err == nil {
				data = mutate(r, p)
			}
		} else {
			data[r.Intn(len(data))] = byte(r.Intn(256))
			data = data[:len(data)-min(len(data), r.Intn(3)/2*r.Intn(50))]
		}
		fs := drive.NewFS(data)
		h := fs.Handle()
		rd, err := orc.VerifNewReader(h)
		if err != nil {
			if fs.Open != 1 && len(fs.Misuse) == 0 && fs.Opened > 1 {
				c.Fail("handles open", "%d of %d after opening failed", fs.Open, fs.Opened)
			}
			h.Close()
			c.Count("refused files", 1)
			continue
		}
		n := 0
		for k := r.Intn(3); k >= 0; k-- {
			opt := &api.BatchOption{RowSize: 1 + r.Intn(50)}
			if r.Intn(2) == 0 {
				opt.Includes = randTree(r, drive.FromSchema(rd.GetSchema()))
			}
			br, err := rd.CreateBatchReader(opt)
			if err != nil {
				c.Count("refused batch readers", 1)
				if fs.Open != 1 {
					c.Fail("handles open", "%d after creating a batch reader failed: %v", fs.Open, err)
				}
				continue
			}
			if vec, err := rd.GetSchema().CreateVector(opt); err == nil {
				for j := 0; j < 20; j++ {
					if end, err := br.Next(vec); end || err != nil {
						if err != nil {
							c.Count("failed reads", 1)
						}
						break
					}
				}
				br.Seek(uint64(r.Intn(100)))
				br.Next(vec)
			}
			br.Close()
			if fs.Open != 1 {
				c.Fail("handles open", "%d after closing the batch reader", fs.Open)
			}
			n++
		}
		rd.Close()
		leaks(c, fs, "damaged file")
		c.Eval(model.Hash(9, string(data)))
	}
}

// mutate changes metadata or contents in a right frame
func mutate(r *rand.Rand, p *apart) []byte {
	data, _ := p.mutated(r)
	return data
}
