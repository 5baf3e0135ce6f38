package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
)

// C27: memory is of a stripe or of chunks, not of the file

// sink keeps only the length of what is written
type sink struct{ n int64 }

func (s *sink) Write(p []byte) (int, error)    { s.n += int64(len(p)); return len(p), nil }
func (s *sink) Read([]byte) (int, error)       { return 0, errors.New("not for reading") }
func (s *sink) Seek(int64, int) (int64, error) { return 0, errors.New("not for reading") }
func (s *sink) Close() error                   { return nil }
func (s *sink) Size() (int64, error)           { return s.n, nil }
func (s *sink) Clone() (orcio.File, error)     { return nil, io.ErrUnexpectedEOF }
func (s *sink) Name() string                   { return "sink" }

// live is the bytes of objects in use
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what finalizers and pools still had
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// steady are batches of data which does not get small by encoding
type steady struct {
	t    *model.Type
	vecs []*api.ColumnVector
	rows int // of a batch
	size int // of a batch, encoded about
}

func newSteady(r *rand.Rand, cols int, dict bool) *steady {
	b := &steady{t: &model.Type{Kind: model.Struct}, rows: 300 + r.Intn(700)}
	dicts := make([][]string, cols)
	for i := 0; i < cols; i++ {
		k := &model.Type{Kind: []model.Kind{model.Long, model.Double, model.String, model.Binary, model.Timestamp, model.String, model.Int, model.Byte}[r.Intn(8)], Nullable: r.Intn(3) == 0}
		k.Enc = model.DefaultEnc(k.Kind)
		if k.Kind == model.String && dict && r.Intn(2) == 0 {
			k.Enc = model.DictionaryV2
			for j := 0; j < 500; j++ {
				dicts[i] = append(dicts[i], text(r, 12))
			}
		}
		b.t.Kids = append(b.t.Kids, k)
		b.t.Names = append(b.t.Names, fmt.Sprintf("c%d", i))
		b.size += b.rows * map[model.Kind]int{model.Long: 8, model.Double: 8, model.String: 21, model.Binary: 21, model.Timestamp: 8, model.Int: 4, model.Byte: 1}[k.Kind]
		if k.Enc == model.DictionaryV2 {
			b.size -= b.rows * 19
		}
	}
	b.t.Number()
	for j := 0; j < 3; j++ {
		rows := make([]model.Val, b.rows)
		for x := range rows {
			row := make(model.Row, cols)
			for i, k := range b.t.Kids {
				if k.Nullable && r.Intn(10) == 0 {
					continue
				}
				switch k.Kind {
				case model.Long:
					row[i] = int64(r.Uint64())
				case model.Int:
					row[i] = int32(r.Uint32())
				case model.Byte:
					row[i] = byte(r.Intn(256))
				case model.Double:
					row[i] = model.F64(math.Float64bits(r.NormFloat64()))
				case model.Binary:
					row[i] = model.Bin(text(r, 20))
				case model.Timestamp:
					row[i] = model.TS{S: r.Int63n(4e9), N: uint32(r.Intn(1e9))}
				default:
					if dicts[i] != nil {
						row[i] = dicts[i][r.Intn(500)]
					} else {
						row[i] = text(r, 20)
					}
				}
			}
			rows[x] = row
		}
		b.vecs = append(b.vecs, drive.ToVector(b.t, rows, drive.VecStyle{}))
	}
	return b
}

func text(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
	}
	return string(b)
}

// write writes about size bytes, at is called after each batch
func (b *steady) write(c *rt.C, f orcio.File, o drive.WOpts, size int, at func(i, n int)) (rows int) {
	w, err := orc.VerifNewWriter(drive.Schema(b.t), o.Config(), f)
	if err != nil {
		c.Fail("writer error", "%v", err)
	}
	n := size/b.size + 1
	for i := 0; i < n; i++ {
		if err := w.Write(b.vecs[i%len(b.vecs)]); err != nil {
			c.Fail("write error", "%v", err)
		}
		if at != nil {
			at(i, n)
		}
		rows += b.rows
	}
	if err := w.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	return rows
}

func steadyOpts(r *rand.Rand, stripe int) drive.WOpts {
	return drive.WOpts{Zlib: r.Intn(2) == 0, Chunk: 4096 << r.Intn(4), Stripe: stripe, Index: r.Intn(2) == 0, Stride: 10000}
}

// growth checks the memory in use by points of a run
type growth struct {
	c     *rt.C
	at    []int64
	units []int
}

func (g *growth) sample(unit int) {
	g.at = append(g.at, live())
	g.units = append(g.units, unit)
	g.c.Count("memory samples", 1)
}

// check allows for fixed bytes more than at first, and by unit
func (g *growth) check(what string, fixed, unit int64) {
	for i := range g.at {
		most := g.at[0] + fixed + unit*int64(g.units[i]-g.units[0])
		if g.at[i] > most {
			g.c.Fail("memory grows", "%s: %d bytes in use at %d, %d at %d, by samples %v", what, g.at[0], g.units[0], g.at[i], g.units[i], g.at)
		}
	}
}

// a file of many stripes is written
func c27Writer(c *rt.C) {
	r := c.R
	cols := 1 + r.Intn(3)
	b := newSteady(r, cols, true)
	o := steadyOpts(r, 60000+r.Intn(100000))
	size := 70 * (o.Stripe + b.size)
	desc := fmt.Sprintf("schema %s, batches of %d, about %d bytes with %s", b.t, b.rows, size, o)
	c.Note("%s", desc)
	g := &growth{c: c}
	s := &sink{}
	g.sample(0)
	b.write(c, s, o, size, func(i, n int) {
		if k := i * 12 / n; k >= 2*len(g.at) {
			g.sample(int(s.n))
		}
	})
	// a stripe maybe in memory as values (numbers of a dictionary are many times what they are encoded), encoded, and
	// in a buffer for compression
	g.check("writing", 14*int64(o.Stripe+b.size)+int64(cols*12*o.Chunk)+1<<19, 0)
	c.Count("bytes written", int(s.n))
	c.Eval(model.Hash(model.HashInit, desc))
	c.Sample("%s", desc)
}

// a file is read, of one or some stripes
func c27Reader(c *rt.C) {
	r := c.R
	cols := 1 + r.Intn(2)
	b := newSteady(r, cols, r.Intn(3) == 0)
	size := 8<<20 + r.Intn(8<<20)
	o := steadyOpts(r, 0)
	stripes := []int{1, 1, 2, 5}[r.Intn(4)]
	if !o.Zlib {
		stripes = 1
	}
	o.Stripe = size/stripes + b.size
	if stripes == 1 {
		o.Stripe = 256 << 20
	}
	fs := drive.NewFS(nil)
	rows := b.write(c, fs.Handle(), o, size, nil)
	desc := fmt.Sprintf("schema %s, %d rows, %d bytes with %s", b.t, rows, len(fs.Data), o)
	c.Note("%s", desc)
	streams := 0
	d, err := refdec.Parse(fs.Data)
	if err != nil {
		c.Fail("not parsed", "%v", err)
	}
	for _, s := range d.Stripes {
		streams += len(s.Streams)
	}
	nstripes := len(d.Stripes)
	d = nil
	b.vecs = nil

	rd, err := orc.VerifNewReader(fs.Handle())
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	k := 500 + r.Intn(3000)
	opt := &api.BatchOption{RowSize: k}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	g := &growth{c: c}
	g.sample(0)
	at := 0
	for {
		end, err := br.Next(vec)
		if err != nil {
			c.Fail("read error", "%v", err)
		}
		at += drive.Rows(b.t, vec)
		if len(g.at)-1 <= at*6/rows {
			g.sample(at)
		}
		if end {
			break
		}
	}
	g.sample(at)
	if at != rows {
		c.Fail("rows", "%d rows of %d", at, rows)
	}
	// of each stream a chunk as it is and as restored, in buffers with room, and the values of a run
	chunk := 5 * o.Chunk
	if !o.Zlib {
		chunk = 3 * piece
	}
	g.check(fmt.Sprintf("reading %d streams of %d stripes", streams, nstripes), int64(streams)*int64(chunk+1<<16)+int64(k*cols*150)+1<<19, 0)
	if !o.Zlib {
		c.Count("without compression", 1)
	}

	// the readers are at work, any number of times
	g = &growth{c: c}
	runtime.KeepAlive(br)
	br.Close()
	n := 60
	for i := 0; i < n; i++ {
		br, err := rd.CreateBatchReader(opt)
		if err != nil {
			c.Fail("create error", "%v", err)
		}
		for j := 0; j < 3; j++ {
			if err := br.Seek(uint64(r.Intn(rows))); err != nil {
				c.Fail("seek error", "%v", err)
			}
			if _, err := br.Next(vec); err != nil {
				c.Fail("read error", "%v", err)
			}
			c.Count("seeks", 1)
		}
		br.Close()
		br = nil
		if i%20 == 4 {
			g.sample(i)
		}
	}
	g.check("batch readers made and closed", 1<<19, 0)
	rd.Close()
	runtime.KeepAlive(rd)
	c.Count("bytes read", len(fs.Data))
	c.Eval(model.Hash(model.HashInit, desc))
	c.Sample("%s", desc)
}

// one batch reader is sought in again and again
func c27Seeks(c *rt.C) {
	r := c.R
	b := newSteady(r, 1+r.Intn(2), true)
	size := 1 << 20
	o := steadyOpts(r, 300000)
	o.Index = r.Intn(4) != 0
	o.Stride = 1000
	fs := drive.NewFS(nil)
	rows := b.write(c, fs.Handle(), o, size, nil)
	desc := fmt.Sprintf("schema %s, %d rows, %d bytes with %s", b.t, rows, len(fs.Data), o)
	c.Note("%s", desc)
	b.vecs = nil
	rd := open(c, fs.Data)
	k := 10 + r.Intn(300)
	opt := &api.BatchOption{RowSize: k}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	routines := runtime.NumGoroutine()
	g := &growth{c: c}
	n := 240
	for i := 0; i < n; i++ {
		if err := br.Seek(uint64(r.Intn(rows))); err != nil {
			c.Fail("seek error", "%v", err)
		}
		if _, err := br.Next(vec); err != nil {
			c.Fail("read error", "%v", err)
		}
		if i%100 == 39 {
			g.sample(i)
		}
	}
	c.Count("seeks", n)
	// where it was is of some effect on buffers
	g.check("seeking", 1<<20, 0)
	if k := settled(routines); k > routines {
		c.Fail("goroutines", "%d goroutines before, %d after", routines, k)
	}
	br.Close()
	rd.Close()
	c.Eval(model.Hash(model.HashInit, desc))
	c.Sample("%s", desc)
}

// settled waits for goroutines to end
func settled(n int) int {
	for i := 0; i < 200 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(time.Millisecond)
	}
	return runtime.NumGoroutine()
}
