// Package checks has the oracles and workloads of the properties.
package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// nRows draws a number of rows
func nRows(r *rand.Rand, most int) int {
	var n int
	switch r.Intn(8) {
	case 0:
		n = r.Intn(4)
	case 1, 2:
		n = r.Intn(40)
	case 3, 4:
		n = r.Intn(300)
	case 5:
		n = []int{7, 8, 9, 63, 64, 65, 127, 128, 129, 130, 131, 511, 512, 513, 1000, 1024, 1025}[r.Intn(17)]
	default:
		n = r.Intn(most + 1)
	}
	return min(n, most)
}

// wcase is a file to be written
type wcase struct {
	t       *model.Type
	rows    []model.Val
	o       drive.WOpts
	batches []int
	st      drive.VecStyle
}

func genWrite(c *rt.C, so model.SchemaOpts, most int) *wcase {
	w := &wcase{t: model.GenSchema(c.R, so)}
	n := nRows(c.R, most)
	if k := len(w.t.Flat()); k > 8 {
		n = n * 8 / k
	}
	w.fill(c, n)
	return w
}

func (w *wcase) fill(c *rt.C, n int) {
	r := c.R
	w.rows = model.GenCol(r, w.t, n)
	w.o = drive.RandWOpts(r, n)
	w.batches = drive.Split(r, n)
	if r.Intn(2) == 0 {
		w.st.Junk = r
	}
	w.st.RootVec = r.Intn(3) == 0
	if r.Intn(4) == 0 {
		w.st.Omit = r
	}
	c.Note("schema %s", w.t)
	c.Note("rows %d, options %s, batches %v", n, w.o, brief(w.batches))
}

func (w *wcase) String() string {
	first := "none"
	if len(w.rows) > 0 {
		first = model.Show(w.rows[0])
	}
	return fmt.Sprintf("%s; %d rows; %s; batches %v; first row %s", w.t, len(w.rows), w.o, brief(w.batches), first)
}

func brief(l []int) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v...(%d)", l[:12], len(l))
	}
	return fmt.Sprint(l)
}

// hash tells cases apart
func (w *wcase) hash() uint64 {
	h := model.Hash(model.HashInit, fmt.Sprint(w.t, w.o))
	for _, v := range w.rows {
		h = model.Hash(h, v)
	}
	return h
}

// eval counts the case, one without rows is trivial
func (w *wcase) eval(c *rt.C) {
	if len(w.rows) == 0 {
		c.Trivial()
	} else {
		c.Eval(w.hash())
	}
	c.Count("rows", len(w.rows))
	c.Sample("%s", w)
}

// write writes the file, and fails if it's refused
func (w *wcase) write(c *rt.C) []byte {
	fs := drive.NewFS(nil)
	if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, fs.Handle()); err != nil {
		c.Fail("write error", "writing valid rows failed: %v", err)
	}
	c.Count("files written", 1)
	return fs.Data
}

func open(c *rt.C, data []byte) orc.Reader {
	rd, err := drive.Open(data)
	if err != nil {
		c.Fail("open error", "opening a valid file of %d bytes failed: %v", len(data), err)
	}
	return rd
}

// decode decodes by the independent decoder
func decode(c *rt.C, data []byte) *refdec.File {
	f, err := refdec.Parse(data)
	if err != nil {
		c.Fail("metadata", "independent reader: %v", err)
	}
	if err := f.Decode(); err != nil {
		c.Fail("data", "independent reader: %v", err)
	}
	return f
}

func observe(c *rt.C, f *refdec.File) {
	c.Count("stripes", len(f.Stripes))
	for _, s := range f.Stripes {
		c.Count("streams", len(s.Streams))
		for _, st := range s.Streams {
			c.Count("chunks", len(st.Chunks))
		}
		for _, col := range s.Cols {
			if col != nil {
				c.Count("int runs", len(col.Runs))
			}
		}
	}
}

// capSource draws capacities of vectors
func capSource(r *rand.Rand, n int) func() int {
	switch r.Intn(6) {
	case 0:
		k := 1 + r.Intn(4)
		if n > 3000 {
			k += 20
		}
		return func() int { return k }
	case 1:
		return func() int { return max(1, n) }
	case 2:
		return func() int { return n + 1 + r.Intn(100) }
	case 3:
		k := 1 + r.Intn(max(1, n))
		return func() int { return k }
	case 4:
		k := []int{7, 8, 9, 64, 100, 127, 128, 129, 511, 512, 513, 1000}[r.Intn(12)]
		return func() int { return k }
	default:
		return func() int { return 1 + r.Intn(1+n/2) }
	}
}

// junkFill makes a vector look used: values under it are other than nil, and nulls are set
func junkFill(r *rand.Rand, v *api.ColumnVector) {
	for i := range v.Vector {
		v.Vector[i].Null = r.Intn(2) == 0
		v.Vector[i].V = "stale"
	}
	for _, k := range v.Children {
		junkFill(r, k)
	}
}

// session is a batch reader driven with a model of it
type session struct {
	c     *rt.C
	rd    orc.Reader
	br    orc.BatchReader
	t     *model.Type // projected
	inc   []uint32
	want  []model.Val
	at    int
	ended bool
	vec   *api.ColumnVector
	cap   int
	name  string
}

// newSession opens a batch reader with the rows to be expected of all columns
func newSession(c *rt.C, rd orc.Reader, full *model.Type, rows []model.Val, inc []uint32, capacity int) *session {
	s := &session{c: c, rd: rd, inc: inc, cap: capacity}
	m := drive.Included(full, inc)
	s.t = model.Project(full, m)
	s.want = rows
	if len(inc) != 0 {
		s.want = make([]model.Val, len(rows))
		for i, v := range rows {
			s.want[i] = model.ProjectVal(full, v, m)
		}
	}
	opt := &api.BatchOption{Includes: inc, RowSize: capacity}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "creating batch reader of columns %v failed: %v", inc, err)
	}
	s.br = br
	s.vector(capacity)
	return s
}

func (s *session) vector(capacity int) {
	vec, err := s.rd.GetSchema().CreateVector(&api.BatchOption{Includes: s.inc, RowSize: capacity})
	if err != nil {
		s.c.Fail("vector error", "creating vector failed: %v", err)
	}
	s.vec, s.cap = vec, capacity
}

// next reads and compares with the model
func (s *session) next() (n int, end bool) {
	rows, end, err := drive.Batch(s.br, s.t, s.vec)
	if err != nil {
		s.c.Fail(errKey("next", err), "%sreading at row %d of %d with capacity %d failed: %v", s.name, s.at, len(s.want), s.cap, err)
	}
	left := s.want[s.at:]
	switch {
	case len(rows) > s.cap:
		s.c.Fail("rows over capacity", "%sa call delivered %d rows in a vector of %d", s.name, len(rows), s.cap)
	case len(rows) > len(left):
		s.c.Fail("too many rows", "%sa call at row %d delivered %d rows, %d are left", s.name, s.at, len(rows), len(left))
	case len(rows) == 0 && len(left) != 0:
		s.c.Fail("no rows", "%sa call at row %d delivered no rows, %d are left", s.name, s.at, len(left))
	}
	if d := model.DiffRows(left[:len(rows)], rows); d != "" {
		s.c.Fail("rows differ", "%sreading at row %d of %d: %s", s.name, s.at, len(s.want), d)
	}
	s.at += len(rows)
	if end != (s.at == len(s.want)) {
		s.c.Fail("end", "%safter row %d of %d end is %t", s.name, s.at, len(s.want), end)
	}
	s.c.Count("reads", 1)
	s.c.Count("rows read", len(rows))
	return len(rows), end
}

func (s *session) seek(row int) {
	if err := s.br.Seek(uint64(row)); err != nil {
		s.c.Fail("seek error", "%sseeking to row %d of %d failed: %v", s.name, row, len(s.want), err)
	}
	s.at = row
	s.c.Count("seeks", 1)
}

func errKey(what string, err error) string {
	var w drive.Wrong
	if errors.As(err, &w) {
		return what + " wrong vector"
	}
	return what + " error"
}

// readBack reads all and compares
func readBack(c *rt.C, rd orc.Reader, want []model.Val, o drive.ROpts) {
	if n := rd.NumberOfRows(); n != uint64(len(want)) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", n, len(want))
	}
	got, calls, err := drive.ReadAll(rd, o)
	if err != nil {
		c.Fail(errKey("read", err), "reading failed after %d rows of %d: %v", len(got), len(want), err)
	}
	if d := model.DiffRows(want, got); d != "" {
		c.Fail("rows differ", "%s", d)
	}
	c.Count("reads", calls)
	c.Count("rows read", len(got))
}

// made is a file, of the writer under test or of the independent one
type made struct {
	data []byte
	t    *model.Type
	rows []model.Val
	ref  bool
	desc string
}

// makeFile makes a file either way. Nested ones are of the independent writer.
func makeFile(c *rt.C, so model.SchemaOpts, most int) *made {
	r := c.R
	m := &made{ref: r.Intn(2) == 0}
	if m.ref {
		so.Nested = r.Intn(2) == 0
		so.AnyRoot = true
		m.t = model.GenSchema(r, so)
		n := nRows(r, most)
		if k := len(m.t.Flat()); k > 8 {
			n = n * 8 / k
		}
		m.rows = model.GenCol(r, m.t, n)
		o := refenc.RandOptions(r, n)
		m.desc = fmt.Sprintf("%s; %d rows by the independent writer with %+v", m.t, n, o)
		c.Note("%s", m.desc)
		m.data = refenc.Encode(r, m.t, m.rows, o).B
		c.Count("files of independent writer", 1)
		return m
	}
	w := genWrite(c, so, most)
	m.data, m.t, m.rows = w.write(c), w.t, w.rows
	m.desc = w.String()
	return m
}

func (m *made) eval(c *rt.C) {
	if len(m.rows) == 0 {
		c.Trivial()
		return
	}
	h := model.Hash(model.HashInit, m.desc)
	for _, v := range m.rows {
		h = model.Hash(h, v)
	}
	c.Eval(h)
	c.Sample("%s", m.desc)
}

func stdSchema() model.SchemaOpts { return model.SchemaOpts{MaxCols: 6, MaxDepth: 3} }

func diffBytes(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("bytes differ at %d of %d and %d", i, len(a), len(b))
		}
	}
	return fmt.Sprintf("lengths are %d and %d", len(a), len(b))
}

func config1(o drive.WOpts) config.WriterOptions { return o.Config() }
