package checks

import (
	"fmt"
	"sort"
	"syscall"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// C30: work in proportion to rows

// cpu is the time of all threads
func cpu() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

const (
	workTimes = 16
	workMost  = 6 * workTimes        // how much more time that may take; what grows by squares takes 16 times 16
	workLeast = 2 * time.Millisecond // less is not told apart
)

// proportion compares the time of doing some and 16 times of it. A time is taken again if it's long, so that something
// else which runs here has no say.
func proportion(c *rt.C, what string, some, more func()) {
	var l []time.Duration
	took := func(f func()) time.Duration {
		t := cpu()
		f()
		return cpu() - t
	}
	for i := 0; i < 3; i++ {
		l = append(l, took(some))
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	a := l[1]
	if a < workLeast {
		a = workLeast
	}
	b := took(more)
	for i := 0; b > workMost*a && i < 4; i++ {
		if t := took(some); t > a {
			a = t
		}
		if t := took(more); t < b {
			b = t
		}
		c.Count("measured again", 1)
	}
	if b > workMost*a {
		c.Fail("out of proportion", "%s takes %v, and %v for %d times as much", what, a, b, workTimes)
	}
	switch x := float64(b) / float64(a); {
	case x < 12:
		c.Count("times less than 12", 1)
	case x < 20:
		c.Count("times 12 to 20", 1)
	case x < 40:
		c.Count("times 20 to 40", 1)
	default:
		c.Count("times 40 or more", 1)
	}
	c.Count("measured: "+what, 1)
	c.Count("measured", 1)
}

// bulk has rows which are alike however many there are
type bulk struct {
	t      *model.Type
	base   []model.Val
	unlike bool // strings are all different
}

func newBulk(c *rt.C, so model.SchemaOpts) *bulk {
	r := c.R
	b := &bulk{t: model.GenSchema(r, so), unlike: r.Intn(2) == 0}
	b.base = model.GenCol(r, b.t, 300+r.Intn(500))
	return b
}

func (b *bulk) values() int { return len(b.t.Flat()) }

func (b *bulk) rows(n int) []model.Val {
	rows := make([]model.Val, n)
	for i := range rows {
		rows[i] = b.base[i%len(b.base)]
		if b.unlike {
			rows[i] = unlike(b.t, rows[i], i)
		}
	}
	return rows
}

func unlike(t *model.Type, v model.Val, i int) model.Val {
	if v == nil {
		return nil
	}
	switch t.Kind {
	case model.String, model.Varchar:
		return v.(string) + fmt.Sprint(i)
	case model.Struct:
		row := append(model.Row(nil), v.(model.Row)...)
		for k := range row {
			row[k] = unlike(t.Kids[k], row[k], i)
		}
		return row
	}
	return v
}

func (b *bulk) vectors(rows []model.Val, most int) (l []*api.ColumnVector) {
	for at := 0; at < len(rows); at += most {
		to := at + most
		if to > len(rows) {
			to = len(rows)
		}
		l = append(l, drive.ToVector(b.t, rows[at:to], drive.VecStyle{}))
	}
	return
}

func writeAll(c *rt.C, b *bulk, o drive.WOpts, l []*api.ColumnVector, f orcio.File) {
	w, err := orc.VerifNewWriter(drive.Schema(b.t), o.Config(), f)
	if err != nil {
		c.Fail("writer error", "%v", err)
	}
	for _, v := range l {
		if err := w.Write(v); err != nil {
			c.Fail("write error", "%v", err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
}

func workSchema(c *rt.C) model.SchemaOpts {
	return model.SchemaOpts{MaxCols: 1 + c.R.Intn(3), MaxDepth: 2}
}

func c30Opts(c *rt.C, n int) drive.WOpts {
	o := drive.RandWOpts(c.R, n)
	if o.Stripe < 4096 { // else most is for footers
		o.Stripe = 4096 + c.R.Intn(1<<16)
	}
	if c.R.Intn(3) == 0 {
		o.Stripe = 256 << 20
	}
	if o.Chunk < 128 {
		o.Chunk = []int{128, 1000, 65536, 262144}[c.R.Intn(4)]
	}
	return o
}

// c30Write writes by small and large batches
func c30Write(c *rt.C) {
	r := c.R
	b := newBulk(c, workSchema(c))
	n := 16000 / b.values()
	o := c30Opts(c, n)
	batch := []int{1, 7, 1000, 1 << 30}[r.Intn(4)]
	c.Note("%s; %d rows; %s; batches of %d; strings different: %t", b.t, n, o, batch, b.unlike)
	some, more := b.vectors(b.rows(n), batch), b.vectors(b.rows(n*workTimes), batch)
	proportion(c, "writing", func() { writeAll(c, b, o, some, &sink{}) }, func() { writeAll(c, b, o, more, &sink{}) })
	c.Eval(model.Hash(model.Hash(model.HashInit, b.t.String()), fmt.Sprint(o, batch, b.unlike)))
}

// bulkFile is by the writer or by the independent one
func bulkFile(c *rt.C, b *bulk, ref bool, o drive.WOpts, ro refenc.Options, n int) []byte {
	rows := b.rows(n)
	if !ref {
		fs := drive.NewFS(nil)
		writeAll(c, b, o, b.vectors(rows, 1000), fs.Handle())
		return fs.Data
	}
	per := ro.StripeRows[0]
	ro.StripeRows = nil
	for left := n; left > 0; left -= per {
		k := per
		if k > left {
			k = left
		}
		ro.StripeRows = append(ro.StripeRows, k)
	}
	return refenc.Encode(c.R, b.t, rows, ro).B
}

// bulkFiles are of some rows, and of 16 times as many
func bulkFiles(c *rt.C, index bool) (b *bulk, n int, some, more []byte) {
	r := c.R
	ref := r.Intn(2) == 0
	so := workSchema(c)
	if ref {
		so.Nested = r.Intn(2) == 0
	}
	b = newBulk(c, so)
	n = 16000 / b.values()
	o := c30Opts(c, n)
	if o.Stride < 100 {
		o.Stride = []int{100, 1000, 10000}[r.Intn(3)]
	}
	ro := refenc.RandOptions(r, n)
	if ro.Block < 1000 {
		ro.Block = 1000
	}
	ro.StripeRows = []int{500 + r.Intn(n)}
	if r.Intn(2) == 0 {
		ro.StripeRows[0] = n * workTimes
	}
	ro.Stride = []int{0, 100, 1000, 10000}[r.Intn(4)]
	ro.Meta, ro.Metadata, ro.Gaps, ro.DictEither = 0, 0, false, false
	if index {
		if ro.StripeRows[0] <= n { // many in both
			ro.StripeRows[0] = 1 + n/(4+r.Intn(8))
		}
		if o.Stripe < 1<<20 {
			o.Stripe = 4096
		}
		// in strides and chunks less than the shorter file
		o.Index, o.Stride, o.Chunk = true, []int{50, 200}[r.Intn(2)], []int{1000, 4096}[r.Intn(2)]
		ro.Stride, ro.Block = o.Stride, o.Chunk
	}
	if ref {
		c.Note("%s; %d rows by the independent writer with %+v; strings different: %t", b.t, n, ro, b.unlike)
		c.Count("files of independent writer", 2)
	} else {
		c.Note("%s; %d rows; %s; strings different: %t", b.t, n, o, b.unlike)
	}
	c.Eval(model.Hash(model.Hash(model.HashInit, b.t.String()), fmt.Sprint(o, ro, ref, b.unlike)))
	return b, n, bulkFile(c, b, ref, o, ro, n), bulkFile(c, b, ref, o, ro, n*workTimes)
}

// readAll reads all, with a capacity of all rows if it's 0
func readAll(c *rt.C, b *bulk, capacity int) func(data []byte, n int) func() {
	return func(data []byte, n int) func() {
		capacity := capacity
		if capacity == 0 {
			capacity = n
		}
		return func() {
			rd := open(c, data)
			defer rd.Close()
			opt := &api.BatchOption{RowSize: capacity}
			br, err := rd.CreateBatchReader(opt)
			if err != nil {
				c.Fail("create error", "%v", err)
			}
			defer br.Close()
			vec, err := rd.GetSchema().CreateVector(opt)
			if err != nil {
				c.Fail("vector error", "%v", err)
			}
			at := 0
			for {
				end, err := br.Next(vec)
				if err != nil {
					c.Fail("next error", "at row %d: %v", at, err)
				}
				at += drive.Rows(b.t, vec)
				if end {
					break
				}
			}
			if at != n {
				c.Fail("rows", "%d are read of %d", at, n)
			}
		}
	}
}

// c30Read reads all by small and large batches
func c30Read(c *rt.C) {
	b, n, some, more := bulkFiles(c, false)
	capacity := []int{1, 7, 1000, 100000, 0}[c.R.Intn(5)]
	c.Note("capacity %d", capacity)
	read := readAll(c, b, capacity)
	proportion(c, "reading", read(some, n), read(more, n*workTimes))
}

// c30Stripes has stripes of a row or some
func c30Stripes(c *rt.C) {
	r := c.R
	b := newBulk(c, model.SchemaOpts{MaxCols: 2, MaxDepth: 1})
	n := 60 + r.Intn(60)
	o := c30Opts(c, n)
	o.Stripe = 1 + r.Intn(20)
	o.Zlib = r.Intn(3) == 0
	o.Chunk = 256 + r.Intn(1000)
	c.Note("%s; %d rows; %s; strings different: %t", b.t, n, o, b.unlike)
	c.Eval(model.Hash(model.Hash(model.HashInit, b.t.String()), fmt.Sprint(n, o, b.unlike)))
	some, more := b.vectors(b.rows(n), 100), b.vectors(b.rows(n*workTimes), 100)
	proportion(c, "writing stripes", func() { writeAll(c, b, o, some, &sink{}) }, func() { writeAll(c, b, o, more, &sink{}) })
	file := func(l []*api.ColumnVector) []byte {
		fs := drive.NewFS(nil)
		writeAll(c, b, o, l, fs.Handle())
		return fs.Data
	}
	x, y := file(some), file(more)
	c.Count("stripes", len(decode(c, y).Stripes))
	proportion(c, "opening stripes", func() { open(c, x).Close() }, func() { open(c, y).Close() })
	read := readAll(c, b, []int{1, 100, 0}[r.Intn(3)])
	proportion(c, "reading stripes", read(x, n), read(y, n*workTimes))
}

// c30Seek seeks in files with an index
func c30Seek(c *rt.C) {
	r := c.R
	b, n, some, more := bulkFiles(c, true)
	places := make([]float64, 64)
	for i := range places {
		places[i] = r.Float64()
	}
	seek := func(data []byte, n, times int) func() {
		return func() {
			rd := open(c, data)
			defer rd.Close()
			opt := &api.BatchOption{RowSize: 10}
			br, err := rd.CreateBatchReader(opt)
			if err != nil {
				c.Fail("create error", "%v", err)
			}
			defer br.Close()
			vec, err := rd.GetSchema().CreateVector(opt)
			if err != nil {
				c.Fail("vector error", "%v", err)
			}
			for i := 0; i < times; i++ {
				at := int(places[i%len(places)] * float64(n))
				if err := br.Seek(uint64(at)); err != nil {
					c.Fail("seek error", "%v", err)
				}
				if _, err := br.Next(vec); err != nil {
					c.Fail("next error", "at row %d: %v", at, err)
				}
				if drive.Rows(b.t, vec) == 0 {
					c.Fail("no rows", "at row %d of %d", at, n)
				}
			}
		}
	}
	// the same number of them in a file 16 times as long, for which there is the time to make a reader
	proportion(c, "seeking", seek(some, n, 64), seek(more, n*workTimes, 64*workTimes))
}
