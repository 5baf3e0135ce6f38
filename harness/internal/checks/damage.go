package checks

import (
	"bytes"
	"compress/flate"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
	"verif/harness/internal/wire"
)

// C13: damaged files

// use is a file, damaged or not, in use by a monitored reader
type use struct {
	c      *rt.C
	fs     *drive.FS
	data   []byte
	zlib   bool // may be compressed
	nested bool // lists, maps or dictionaries, of which data may be long runs
	what   string
	calls  int
	opened bool
	rows   int
	errs   int
	loop   bool
	limit  uint64 // of memory of a call but for its cells, by the kind of damage if 0
}

// most is the memory a call may take: by the data in the file, and by the rows asked for
func (u *use) most(cells int) uint64 {
	if u.limit != 0 {
		return u.limit + uint64(cells)*400
	}
	n := uint64(len(u.data))
	if u.zlib {
		n *= 1100 // as deflate does
	}
	if u.nested {
		n *= 3 * 4096 // runs of 512 values in 4 bytes, each with its record
		n += 400 << 20
	} else {
		n *= 64
	}
	m := 48<<20 + n + uint64(cells)*400
	return min(m, 3<<30)
}

// call makes a call of the library, and watches it
func (u *use) call(name string, cells int, f func()) {
	c := u.c
	u.fs.Reads = 0
	u.fs.MaxReadBytes = int64(len(u.data)+1<<16) * 400
	before := rt.Allocated()
	start := time.Now()
	p, st := rt.Try(f)
	u.calls++
	if p != nil {
		if b, ok := p.(drive.Budget); ok {
			c.Fail("endless reading in "+name, "%s: %s reads %d bytes of a file of %d", u.what, name, b.Bytes, len(u.data))
		}
		u.save()
		c.Fail("panic in "+name, "%s: %s: panic: %v\n%s", u.what, name, p, st)
	}
	if a := rt.Allocated() - before; a > u.most(cells) {
		u.save()
		c.Fail("memory in "+name, "%s: %s of a file of %d bytes allocated %d bytes, for %d cells", u.what, name, len(u.data), a, cells)
	}
	if d := time.Since(start); d > 500*time.Millisecond {
		c.Count("slow calls", 1)
	}
}

func (u *use) save() {
	if len(u.data) <= 1500 {
		u.c.Note("file: %x", u.data)
	}
}

// wellFormed tells if vectors of rows have the same length, and values are of the type
func wellFormed(t *model.Type, v *api.ColumnVector, n int) string {
	if v == nil || v.Id != t.ID || v.Kind != pb.Type_Kind(t.Kind) || len(v.Children) != len(t.Kids) {
		return fmt.Sprintf("vector of column %d is not of it", t.ID)
	}
	if t.Kind != model.Struct || len(v.Vector) != 0 {
		if n >= 0 && len(v.Vector) != n {
			return fmt.Sprintf("column %d has %d values, should be %d", t.ID, len(v.Vector), n)
		}
	}
	if t.Kind == model.Struct {
		for i, k := range t.Kids {
			if d := wellFormed(k, v.Children[i], n); d != "" {
				return d
			}
		}
		return ""
	}
	total := 0
	for i, x := range v.Vector {
		if x.Null {
			continue
		}
		var ok bool
		switch t.Kind {
		case model.Boolean:
			_, ok = x.V.(bool)
		case model.Byte:
			_, ok = x.V.(byte)
		case model.Short:
			_, ok = x.V.(int16)
		case model.Int:
			_, ok = x.V.(int32)
		case model.Long:
			_, ok = x.V.(int64)
		case model.Float:
			_, ok = x.V.(float32)
		case model.Double:
			_, ok = x.V.(float64)
		case model.String, model.Char, model.Varchar:
			_, ok = x.V.(string)
		case model.Binary:
			_, ok = x.V.([]byte)
		case model.Decimal:
			_, ok = x.V.(api.Decimal64)
		case model.Date:
			_, ok = x.V.(api.Date)
		case model.Timestamp:
			_, ok = x.V.(api.Timestamp)
		case model.List, model.Map:
			switch l := x.V.(type) {
			case int:
				ok, total = l >= 0, total+l
			case uint64:
				ok, total = l < 1<<40, total+int(l)
			}
		default:
			ok = true
		}
		if !ok {
			return fmt.Sprintf("column %d %s has value %T %v at %d", t.ID, t.Kind, x.V, x.V, i)
		}
	}
	if t.Kind == model.List || t.Kind == model.Map {
		for i, k := range t.Kids {
			if d := wellFormed(k, v.Children[i], total); d != "" {
				return "elements: " + d
			}
		}
	}
	return ""
}

// exercise opens, reads and seeks
func exercise(c *rt.C, data []byte, zlib bool, what string, light bool) *use {
	u := &use{c: c, data: data, zlib: zlib, what: what, fs: drive.NewFS(data)}
	u.exercise(light)
	return u
}

func (u *use) exercise(light bool) *use {
	c, what := u.c, u.what
	r := c.R
	var rd orc.Reader
	var err error
	u.call("open", 0, func() { rd, err = orc.VerifNewReader(u.fs.Handle()) })
	if err != nil {
		u.errs++
		return u
	}
	u.opened = true
	c.Count("damaged files opened", 1)
	var td *api.TypeDescription
	var total uint64
	u.call("schema", 0, func() { td, total = rd.GetSchema(), rd.NumberOfRows(); rd.GetStatistics(); rd.GetReaderOptions() })
	full := drive.FromSchema(td)
	cols := len(full.Flat())
	for _, t := range full.Flat() {
		switch t.Kind {
		case model.List, model.Map, model.Union, model.String, model.Char, model.Varchar:
			u.nested = true
		}
	}
	rounds := 1
	if !light {
		rounds += r.Intn(3)
	}
	for round := 0; round < rounds; round++ {
		var inc []uint32
		if round > 0 || r.Intn(4) == 0 {
			inc = randTree(r, full)
		}
		t := model.Project(full, drive.Included(full, inc))
		capacity := 1 + r.Intn(400)
		if r.Intn(6) == 0 {
			capacity = 1 + r.Intn(3)
		}
		opt := &api.BatchOption{Includes: inc, RowSize: capacity}
		var br orc.BatchReader
		u.call("batch reader", cols, func() { br, err = rd.CreateBatchReader(opt) })
		if err != nil {
			u.errs++
			continue
		}
		var vec *api.ColumnVector
		u.call("vector", cols*capacity, func() { vec, err = td.CreateVector(opt) })
		if err != nil {
			u.errs++
			u.call("close", 0, br.Close)
			continue
		}
		at, known := uint64(0), true
		read := func() (more bool) {
			var end bool
			u.call("next", cols*capacity, func() { end, err = br.Next(vec) })
			if err != nil {
				u.errs++
				known = false
				return false
			}
			n := drive.Rows(t, vec)
			if d := wellFormed(t, vec, n); d != "" && (hasRows(full, inc) || len(inc) == 0 && hasRows(full, nil)) {
				u.save()
				c.Fail("rows of vector", "%s: a batch of %d rows without error: %s", what, n, d)
			}
			if n > capacity {
				u.save()
				c.Fail("rows over capacity", "%s: %d rows in a vector of %d", what, n, capacity)
			}
			u.rows += n
			if known {
				at += uint64(n)
				if at > total {
					u.save()
					c.Fail("too many rows", "%s: %d rows of %d told", what, at, total)
				}
				if hasRows(full, inc) && end != (at == total) {
					u.save()
					c.Fail("end", "%s: at row %d of %d end is %t", what, at, total, end)
				}
			}
			if n == 0 && !end && hasRows(full, inc) {
				u.save()
				c.Fail("no progress", "%s: a call at row %d of %d told delivers no rows, no end and no error", what, at, total)
			}
			return !end
		}
		limit := 60
		if light {
			limit = 12
		}
		for i := 0; i < limit && read(); i++ {
		}
		seeks := 3
		if light {
			seeks = 1
		}
		for i := 0; i < seeks; i++ {
			row := uint64(r.Intn(400))
			if total > 0 {
				switch r.Intn(4) {
				case 0:
					row = r.Uint64() % total
				case 1:
					row = total - 1
				case 2:
					row %= total
				}
			}
			u.call("seek", cols*1000, func() { err = br.Seek(row) })
			if err != nil {
				u.errs++
			} else {
				if row >= total {
					c.Fail("seek over the end", "%s: seek to row %d of %d told", what, row, total)
				}
				at, known = row, true
			}
			for k := r.Intn(3); k >= 0 && read(); k-- {
			}
		}
		u.call("close", 0, br.Close)
	}
	u.call("close", 0, rd.Close)
	return u
}

func (u *use) tell() {
	c := u.c
	c.Count("calls", u.calls)
	c.Count("errors", u.errs)
	c.Count("rows read of damaged files", u.rows)
	c.Count("damaged files", 1)
	h := model.Hash(model.HashInit, string(u.data))
	c.Eval(h)
}

// smallFile makes a file for damage
func smallFile(c *rt.C, most int) *made {
	r := c.R
	if most > 50 && r.Intn(40) == 0 {
		if files := sampleFiles(); len(files) > 0 {
			p := files[r.Intn(len(files))]
			if st, err := os.Stat(p); err == nil && st.Size() < 60000 {
				data, err := os.ReadFile(p)
				if err == nil {
					c.Note("sample file %s", p)
					return &made{data: data, desc: p, ref: true}
				}
			}
		}
	}
	return makeFile(c, stdSchema(), most)
}

func isZlib(data []byte) bool {
	f, err := refdec.Parse(data)
	return err != nil || f.Kind != 0
}

// c13Bytes: bytes changed, removed, added, and files cut
func c13Bytes(c *rt.C) {
	r := c.R
	m := smallFile(c, 300)
	for i := 0; i < 8; i++ {
		data := append([]byte(nil), m.data...)
		what := ""
		at := func() int {
			n := len(data)
			if n == 0 {
				return 0
			}
			switch r.Intn(3) {
			case 0:
				return n - 1 - min(n-1, r.Intn(40)) // tail
			case 1:
				return n - 1 - min(n-1, r.Intn(600))
			}
			return r.Intn(n)
		}
		for k := r.Intn(3); k >= 0; k-- {
			if len(data) == 0 {
				break
			}
			p := at()
			switch r.Intn(8) {
			case 0, 1, 2:
				b := byte(r.Intn(256))
				if r.Intn(2) == 0 {
					b = []byte{0, 1, 0x7f, 0x80, 0xff, data[p] + 1, data[p] - 1, data[p] ^ 1<<uint(r.Intn(8))}[r.Intn(8)]
				}
				what += fmt.Sprintf(" byte %d of %d from %02x to %02x;", p, len(data), data[p], b)
				data[p] = b
			case 3:
				what += fmt.Sprintf(" cut to %d;", p)
				data = data[:p]
			case 4:
				n := min(len(data)-p, 1+r.Intn(20))
				what += fmt.Sprintf(" removed %d bytes at %d;", n, p)
				data = append(data[:p], data[p+n:]...)
			case 5:
				ins := make([]byte, 1+r.Intn(20))
				r.Read(ins)
				what += fmt.Sprintf(" %d bytes added at %d;", len(ins), p)
				data = append(data[:p:p], append(ins, data[p:]...)...)
			case 6:
				n := min(len(data)-p, 1+r.Intn(60))
				b := []byte{0, 0xff, byte(r.Intn(256))}[r.Intn(3)]
				what += fmt.Sprintf(" %d bytes at %d set to %02x;", n, p, b)
				for j := 0; j < n; j++ {
					data[p+j] = b
				}
			case 7:
				n := min(len(data)-p, 1+r.Intn(60))
				q := r.Intn(len(data) - n + 1)
				what += fmt.Sprintf(" %d bytes at %d copied to %d;", n, q, p)
				copy(data[p:p+n], data[q:q+n])
			}
		}
		u := exercise(c, data, isZlib(data), what, false)
		u.tell()
	}
	c.Sample("%s", m.desc)
}

// c13Every: all cuts and all changes of a byte of a small file
func c13Every(c *rt.C) {
	r := c.R
	m := makeFile(c, model.SchemaOpts{MaxCols: 3, MaxDepth: 2}, 12)
	for len(m.data) > 2500 {
		m = makeFile(c, model.SchemaOpts{MaxCols: 3, MaxDepth: 2}, 12)
	}
	n := len(m.data)
	zl := isZlib(m.data)
	c.Sample("%s", m.desc)
	c.Note("all cuts and byte changes of file of %d bytes", n)
	for at := 0; at < n; at++ {
		u := exercise(c, m.data[:at:at], zl, fmt.Sprintf("cut to %d of %d", at, n), true)
		u.tell()
		if u.opened && zl == false && at < n {
			c.Count("cut files opened", 1)
		}
		for _, b := range []byte{m.data[at] + 1, m.data[at] - 1, ^m.data[at], 0, 0xff, m.data[at] ^ 1<<uint(r.Intn(8)), byte(r.Intn(256))} {
			if b == m.data[at] {
				continue
			}
			data := append([]byte(nil), m.data...)
			data[at] = b
			u := exercise(c, data, true, fmt.Sprintf("byte %d of %d from %02x to %02x", at, n, m.data[at], b), true)
			u.tell()
		}
	}
}

var (
	colStats = &wire.Shape{Msgs: map[int]*wire.Shape{2: {}, 3: {}, 4: {}, 5: {Packed: map[int]bool{1: true}}, 6: {}, 7: {}, 8: {}, 9: {}}}
	footer   = &wire.Shape{Msgs: map[int]*wire.Shape{3: {}, 4: {Packed: map[int]bool{2: true}}, 5: {}, 7: colStats}}
	stripeF  = &wire.Shape{Msgs: map[int]*wire.Shape{1: {}, 2: {}}}
	rowIndex = &wire.Shape{Msgs: map[int]*wire.Shape{1: {Packed: map[int]bool{1: true}, Msgs: map[int]*wire.Shape{2: colStats}}}}
	ps       = &wire.Shape{Packed: map[int]bool{4: true}}
)

// pack makes chunks
func pack(r *rand.Rand, f *refdec.File, data []byte) []byte {
	if f.Kind == 0 {
		return data
	}
	var out []byte
	for len(data) > 0 {
		n := min(len(data), f.Block)
		b, orig := data[:n], 1
		if r.Intn(2) == 0 {
			var z bytes.Buffer
			w, _ := flate.NewWriter(&z, 1+r.Intn(9))
			w.Write(b)
			w.Close()
			if z.Len() < n {
				b, orig = z.Bytes(), 0
			}
		}
		h := len(b)<<1 | orig
		out = append(out, byte(h), byte(h>>8), byte(h>>16))
		out = append(out, b...)
		data = data[n:]
	}
	return out
}

// apart is parts of a file, to be changed and put together with right lengths
type apart struct {
	f       *refdec.File
	footer  []*wire.Node
	ps      []*wire.Node
	stripes []*part
}

type part struct {
	footer  []*wire.Node
	streams [][]byte // raw
}

func takeApart(data []byte) (*apart, error) {
	f, err := refdec.Parse(data)
	if err != nil {
		return nil, err
	}
	p := &apart{f: f}
	psAt := len(data) - 1 - f.PSLen
	if p.ps, err = wire.Tree(data[psAt:len(data)-1], ps); err != nil {
		return nil, err
	}
	fb, _, err := refdec.Decompress(f.Kind, data[f.FooterAt:psAt], f.Block)
	if err != nil {
		return nil, err
	}
	if p.footer, err = wire.Tree(fb, footer); err != nil {
		return nil, err
	}
	for _, s := range f.Stripes {
		sp := &part{}
		for _, st := range s.Streams {
			sp.streams = append(sp.streams, st.Raw)
		}
		at := s.Offset + s.IndexLen + s.DataLen
		b, _, err := refdec.Decompress(f.Kind, data[at:at+s.FooterLen], f.Block)
		if err != nil {
			return nil, err
		}
		if sp.footer, err = wire.Tree(b, stripeF); err != nil {
			return nil, err
		}
		p.stripes = append(p.stripes, sp)
	}
	return p, nil
}

// together puts the file together. Footers are changed last, so that lengths may be wrong too.
func (p *apart) together(r *rand.Rand, stripeFooter map[int]func([]*wire.Node) []*wire.Node, foot, post func([]*wire.Node) []*wire.Node) []byte {
	out := []byte("ORC")
	infos := wire.All(p.footer, 3)
	for i, s := range p.stripes {
		start := uint64(len(out))
		var index, data uint64
		sts := wire.All(s.footer, 1)
		for k, b := range s.streams {
			sts[k].Kids = wire.SetU(sts[k].Kids, 3, uint64(len(b)))
			if kd := p.f.Stripes[i].Streams[k].Kind; kd == refdec.RowIndex || kd == refdec.Bloom || kd == refdec.BloomUtf8 {
				index += uint64(len(b))
			} else {
				data += uint64(len(b))
			}
			out = append(out, b...)
		}
		ft := s.footer
		if m := stripeFooter[i]; m != nil {
			ft = m(ft)
		}
		fb := pack(r, p.f, wire.Put(nil, ft))
		out = append(out, fb...)
		infos[i].Kids = wire.SetU(infos[i].Kids, 1, start)
		infos[i].Kids = wire.SetU(infos[i].Kids, 2, index)
		infos[i].Kids = wire.SetU(infos[i].Kids, 3, data)
		infos[i].Kids = wire.SetU(infos[i].Kids, 4, uint64(len(fb)))
	}
	ft := p.footer
	if foot != nil {
		ft = foot(ft)
	}
	fb := pack(r, p.f, wire.Put(nil, ft))
	out = append(out, fb...)
	p.ps = wire.SetU(p.ps, 1, uint64(len(fb)))
	p.ps = wire.SetU(p.ps, 5, 0)
	ps := p.ps
	if post != nil {
		ps = post(ps)
	}
	pb := wire.Put(nil, ps)
	if len(pb) > 255 {
		pb = pb[:255]
	}
	out = append(out, pb...)
	return append(out, byte(len(pb)))
}

// c13Meta: metadata and data of any contents, in a right frame
func c13Meta(c *rt.C) {
	r := c.R
	m := smallFile(c, 200)
	for i := 0; i < 10; i++ {
		p, err := takeApart(m.data)
		if err != nil {
			c.Count("samples out of scope", 1)
			return
		}
		data, what := p.mutated(r)
		u := exercise(c, data, p.f.Kind != 0 || strings.Contains(what, "postscript"), what, false)
		u.tell()
		if u.opened && u.rows > 0 {
			c.Count("reframed files with rows", 1)
		}
	}
	c.Sample("%s", m.desc)
}

// mutated changes the metadata or contents, and tells what
func (p *apart) mutated(r *rand.Rand) ([]byte, string) {
	what := ""
	mut := func(name string) func([]*wire.Node) []*wire.Node {
		return func(l []*wire.Node) []*wire.Node {
			for k := r.Intn(3); k >= 0; k-- {
				var w string
				l, w = wire.Mutate(r, l)
				what += " " + name + ": " + w + ";"
			}
			return l
		}
	}
	var foot, post func([]*wire.Node) []*wire.Node
	sf := map[int]func([]*wire.Node) []*wire.Node{}
	for k := r.Intn(2); k >= 0; k-- {
		kind := r.Intn(12)
		if len(p.stripes) == 0 {
			kind = 11 - r.Intn(4)
		}
		switch {
		case kind < 3: // stripe footer
			j := r.Intn(len(p.stripes))
			sf[j] = mut(fmt.Sprintf("footer of stripe %d", j))
		case kind < 6: // stream contents
			j := r.Intn(len(p.stripes))
			if len(p.stripes[j].streams) == 0 {
				break
			}
			n := r.Intn(len(p.stripes[j].streams))
			st := p.f.Stripes[j].Streams[n]
			d := append([]byte(nil), st.Data...)
			if st.Kind == refdec.RowIndex {
				if l, err := wire.Tree(d, rowIndex); err == nil {
					d = wire.Put(nil, mut(fmt.Sprintf("index of stripe %d column %d", j, st.Col))(l))
				}
			} else {
				d = changeData(r, d)
				what += fmt.Sprintf(" stream %d of column %d in stripe %d changed;", st.Kind, st.Col, j)
			}
			p.stripes[j].streams[n] = pack(r, p.f, d)
		case kind < 8: // row index
			for j, s := range p.stripes {
				for n, st := range p.f.Stripes[j].Streams {
					if st.Kind == refdec.RowIndex && r.Intn(3) == 0 {
						if l, err := wire.Tree(st.Data, rowIndex); err == nil {
							s.streams[n] = pack(r, p.f, wire.Put(nil, mut(fmt.Sprintf("index of stripe %d column %d", j, st.Col))(l)))
						}
					}
				}
			}
		case kind < 11:
			foot = mut("footer")
		default:
			post = mut("postscript")
		}
	}
	return p.together(r, sf, foot, post), what
}

// changeData changes the bytes of a stream
func changeData(r *rand.Rand, d []byte) []byte {
	for k := r.Intn(4); k >= 0; k-- {
		switch r.Intn(7) {
		case 0:
			d = d[:r.Intn(len(d)+1)]
		case 1:
			x := make([]byte, r.Intn(60))
			r.Read(x)
			d = append(d, x...)
		case 2:
			d = make([]byte, r.Intn(200))
			r.Read(d)
		case 3: // long runs
			d = append(d, bytes.Repeat([][]byte{{0xc1, 0xff, 0x00, 0x00}, {0x07, 0xff}, {0xc1, 0xff, 0x02, 0x02}, {0x7f, 0xff}, {0x38, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x7f, 0x00}}[r.Intn(6)], 1+r.Intn(40))...)
		case 4: // a huge value first
			d = append(append([]byte(nil), [][]byte{
				{0x38, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x18, 0x7f, 0xff, 0xff, 0xff},
				{0x38, 0x80, 0, 0, 0, 0, 0, 0, 0}, {0x20, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
			}[r.Intn(5)]...), d...)
		default:
			if len(d) > 0 {
				d[r.Intn(len(d))] = byte(r.Intn(256))
			}
		}
	}
	return d
}

// c13Inflated: chunks of data which are decompressed to much more than the chunk size
func c13Inflated(c *rt.C) {
	r := c.R
	m := smallFile(c, 200)
	p, err := takeApart(m.data)
	if err != nil || p.f.Kind == 0 || len(p.stripes) == 0 {
		c.Count("samples out of scope", 1)
		return
	}
	j := r.Intn(len(p.stripes))
	s := p.stripes[j]
	if len(s.streams) == 0 {
		c.Count("samples out of scope", 1)
		return
	}
	block := 64<<10 + r.Intn(400<<10)
	n := r.Intn(len(s.streams))
	st := p.f.Stripes[j].Streams[n]
	if st.Kind == refdec.RowIndex || st.Kind == refdec.Bloom || st.Kind == refdec.BloomUtf8 {
		return // metadata is read as a whole
	}
	// zeros are runs of anything
	size := 60<<20 + r.Intn(40<<20)
	var z bytes.Buffer
	w, _ := flate.NewWriter(&z, 9)
	for fill, i := bytes.Repeat([]byte{byte(r.Intn(2) * 0x31)}, 1<<20), 0; i < size; i += len(fill) {
		w.Write(fill)
	}
	w.Close()
	if z.Len() > block {
		block = z.Len()
	}
	h := z.Len() << 1
	chunk := append([]byte{byte(h), byte(h >> 8), byte(h >> 16)}, z.Bytes()...)
	switch r.Intn(4) {
	case 0:
		s.streams[n] = append(append([]byte(nil), s.streams[n]...), chunk...)
	case 1:
		s.streams[n] = chunk
	default:
		s.streams[n] = append(chunk, s.streams[n]...)
	}
	data := p.together(r, nil, nil, func(l []*wire.Node) []*wire.Node { return wire.SetU(l, 3, uint64(block)) })
	what := fmt.Sprintf("chunk of %d bytes which is of %d when decompressed, block size %d, in stream %d of column %d of stripe %d", z.Len(), size, block, st.Kind, st.Col, j)
	u := &use{c: c, data: data, zlib: true, what: what, fs: drive.NewFS(data), limit: 24<<20 + 160*uint64(block) + 64*uint64(len(data))}
	u.exercise(false)
	u.tell()
	if u.errs > 0 {
		c.Count("inflated chunks refused", 1)
	}
	c.Sample("%s %s", m.desc, what)
}

// c13Over: a chunk of data is larger than the chunk size which the file tells, a little or much, kept as original or not
func c13Over(c *rt.C) {
	r := c.R
	m := smallFile(c, 300)
	p, err := takeApart(m.data)
	if err != nil || p.f.Kind == 0 {
		c.Count("samples out of scope", 1)
		return
	}
	most := 0 // of data
	var sizes []int
	for _, s := range p.f.Stripes {
		if s.Rows == 0 {
			continue
		}
		for _, st := range s.Streams {
			if st.Kind >= refdec.RowIndex {
				continue
			}
			for _, k := range st.Chunks {
				n := max(k.Len, k.Size)
				most = max(most, n)
				sizes = append(sizes, n)
			}
		}
	}
	if most < 2 {
		c.Count("samples out of scope", 1)
		return
	}
	block := most - 1
	if r.Intn(2) == 0 {
		block = max(1, sizes[r.Intn(len(sizes))]-1)
	}
	data := p.together(r, nil, nil, nil)
	f, err := refdec.Parse(data)
	if err != nil {
		c.Fail("not parsed", "%v", err)
	}
	ps := wire.Put(nil, wire.SetU(p.ps, 3, uint64(block)))
	data = append(append(append([]byte(nil), data[:len(data)-f.PSLen-1]...), ps...), byte(len(ps)))
	c.Note("%s, chunk size changed to %d, largest chunk has %d", m.desc, block, most)
	fs := drive.NewFS(data)
	rd, err := orc.VerifNewReader(fs.Handle())
	if err != nil { // footer is over it too
		c.Count("chunks over the size refused", 1)
		return
	}
	defer rd.Close()
	seen := make([]bool, len(data))
	fs.OnRead = func(off int64, n int) {
		for i := range seen[off : off+int64(n)] {
			seen[off+int64(i)] = true
		}
	}
	rows, _, err := drive.ReadAll(rd, drive.ROpts{})
	var w drive.Wrong
	if err == nil || errors.As(err, &w) {
		// a dictionary of no values is not read
		for i, s := range f.Stripes {
			for _, st := range s.Streams {
				for _, k := range st.Chunks {
					if n := max(k.Len, k.Size); n > block && k.Len > 0 && st.Kind < refdec.RowIndex && seen[int(st.Offset)+k.At+3+k.Len-1] {
						c.Fail("chunk over the size", "a file with a chunk of data of %d bytes in stream %d of column %d of stripe %d and a chunk size of %d gives %d rows and %v",
							n, st.Kind, st.Col, i, block, len(rows), err)
					}
				}
			}
		}
		c.Count("chunks over the size not needed", 1)
		return
	}
	c.Count("chunks over the size refused", 1)
	c.Count("rows before a chunk over the size", len(rows))
	c.Eval(model.Hash(model.HashInit, fmt.Sprintf("%s %d", m.desc, block)))
}
