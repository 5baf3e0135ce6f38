package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
	"verif/harness/internal/wire"
)

// C33: numbers over 32 bits, of bytes and rows

const over32 = uint64(1) << 32

// jumps makes distances, of which one makes offsets pass 2^31 or 2^32
func jumps(r *rand.Rand, n int) func() uint64 {
	big := r.Intn(n)
	i := -1
	return func() uint64 {
		i++
		switch {
		case i == big:
			d := []uint64{1 << 31, over32, over32, over32 * 3, 1 << 40}[r.Intn(5)]
			return d + uint64(r.Intn(2000)) - 1000
		case r.Intn(3) == 0:
			return uint64(r.Int63n(1 << 33))
		default:
			return 0
		}
	}
}

func openSparse(c *rt.C, s *drive.Sparse) orc.Reader {
	rd, err := orc.VerifNewReader(s.Handle())
	if err != nil {
		c.Fail("open error", "opening a file of %d bytes failed: %v", s.Size(), err)
	}
	return rd
}

func closed(c *rt.C, s *drive.Sparse) {
	if s.Open != 0 {
		c.Fail("handles", "%d handles are open after closing", s.Open)
	}
	c.Count("reads over 4 GB", int(s.High))
}

func c33Gaps(c *rt.C) {
	r := c.R
	so := stdSchema()
	so.Nested, so.AnyRoot = r.Intn(2) == 0, true
	t := model.GenSchema(r, so)
	n := nRows(r, 1000)
	rows := model.GenCol(r, t, n)
	o := refenc.RandOptions(r, n)
	desc := fmt.Sprintf("%s; %d rows by the independent writer with %+v", t, n, o)
	k := max(1, len(o.StripeRows))
	if r.Intn(3) != 0 {
		o.Jump = jumps(r, k+1)
	}
	if o.Jump == nil || r.Intn(3) == 0 {
		o.Bloom, o.JumpIn = false, jumps(r, k)
	}
	f := refenc.Encode(r, t, rows, o)
	s := drive.NewSparse()
	if len(f.Segs) == 0 || f.Segs[0].At > 0 {
		s.Put(0, f.B[:min(len(f.B), 3)])
	}
	segs := append([]refenc.Seg{{At: 0, Off: 0}}, f.Segs...)
	for i, g := range segs {
		end := len(f.B)
		if i+1 < len(segs) {
			end = segs[i+1].At
		}
		s.Put(int64(g.Off), f.B[g.At:end])
	}
	c.Note("%s; %d bytes, parts at %v", desc, s.Size(), segs)
	h := model.Hash(model.HashInit, desc)
	for _, v := range rows {
		h = model.Hash(h, v)
	}
	if n == 0 {
		c.Trivial()
	} else {
		c.Eval(h)
		c.Sample("%s; %d bytes", desc, s.Size())
	}
	if s.Size() > int64(over32) {
		c.Count("files over 4 GB", 1)
	}
	rd := openSparse(c, s)
	if got := rd.NumberOfRows(); got != uint64(n) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", got, n)
	}
	for i := 0; i < 2; i++ {
		ses := newSession(c, rd, t, rows, nil, 1+r.Intn(n+1))
		for k := 0; k < 12; k++ {
			if n > 0 && r.Intn(2) == 0 {
				ses.seek(r.Intn(n))
			}
			if ses.at < n {
				ses.next()
			}
		}
		for ses.at < n {
			ses.next()
		}
		ses.br.Close()
	}
	rd.Close()
	closed(c, s)
}

// hugeFile is made by hand of streams of formulas
type hugeFile struct {
	s     *drive.Sparse
	off   int64
	zlib  bool
	block int
	infos []*wire.W
}

func newHuge(zlib bool, block int) *hugeFile {
	f := &hugeFile{s: drive.NewSparse(), zlib: zlib, block: block}
	f.put([]byte("ORC"))
	return f
}

func (f *hugeFile) put(b []byte) {
	f.s.Put(f.off, b)
	f.off += int64(len(b))
}

// chunks puts bytes in original chunks, if there's compression
func (f *hugeFile) chunks(b []byte) {
	for f.zlib && len(b) > 0 {
		n := min(len(b), f.block)
		h := n<<1 | 1
		f.put([]byte{byte(h), byte(h >> 8), byte(h >> 16)})
		f.put(b[:n])
		b = b[n:]
	}
	if !f.zlib {
		f.put(b)
	}
}

// virtual puts a stream of many bytes, of which only some are not zero, by putting these after it
func (f *hugeFile) virtual(n int64, some func(put func(at int64, b []byte))) {
	start := f.off
	if !f.zlib {
		some(func(at int64, b []byte) { f.s.Put(start+at, b) })
		f.off += n
		return
	}
	for at := int64(0); at < n; at += int64(f.block) {
		k := int(min(int64(f.block), n-at))
		h := k<<1 | 1
		f.put([]byte{byte(h), byte(h >> 8), byte(h >> 16)})
		f.off += int64(k)
	}
	some(func(at int64, b []byte) {
		for len(b) > 0 {
			k := int64(f.block) - at%int64(f.block)
			k = min(k, int64(len(b)))
			f.s.Put(start+at/int64(f.block)*int64(f.block+3)+3+at%int64(f.block), b[:k])
			at += k
			b = b[k:]
		}
	})
}

// pos is the position of an offset in a stream
func (f *hugeFile) pos(off uint64) []uint64 {
	if !f.zlib {
		return []uint64{off}
	}
	b := uint64(f.block)
	return []uint64{off / b * (b + 3), off % b}
}

// hugeStream is a stream of a stripe
type hugeStream struct {
	kind, col int
	put       func()
}

// stripe puts index and streams and a footer
func (f *hugeFile) stripe(rows uint64, types int, index [][][]uint64, parts []hugeStream, dict []uint64) {
	off := f.off
	foot := &wire.W{}
	stream := func(kind, col int, put func()) {
		at := f.off
		put()
		foot.M(1, (&wire.W{}).U(1, uint64(kind)).U(2, uint64(col)).U(3, uint64(f.off-at)))
	}
	for col := range index {
		stream(refdec.RowIndex, col, func() {
			w := &wire.W{}
			for _, p := range index[col] {
				w.M(1, (&wire.W{}).Packed(1, p))
			}
			f.chunks(w.Bytes())
		})
	}
	ilen := f.off - off
	for _, p := range parts {
		stream(p.kind, p.col, p.put)
	}
	dlen := f.off - off - ilen
	for i := 0; i < types; i++ {
		foot.M(2, (&wire.W{}).U(1, dict[i]))
	}
	at := f.off
	f.chunks(foot.Bytes())
	f.infos = append(f.infos, (&wire.W{}).U(1, uint64(off)).U(2, uint64(ilen)).U(3, uint64(dlen)).U(4, uint64(f.off-at)).U(5, rows))
}

func (f *hugeFile) end(t *model.Type, rows uint64, stride int) {
	foot := (&wire.W{}).U(1, 3).U(2, uint64(f.off-3))
	for _, i := range f.infos {
		foot.M(3, i)
	}
	for _, t := range t.Flat() {
		w := (&wire.W{}).U(1, uint64(t.Kind))
		var subs []uint64
		for _, k := range t.Kids {
			subs = append(subs, uint64(k.ID))
		}
		if len(subs) != 0 {
			w.Packed(2, subs)
		}
		for _, n := range t.Names {
			w.S(3, n)
		}
		foot.M(4, w)
	}
	foot.U(6, rows)
	for range t.Flat() {
		foot.M(7, (&wire.W{}).U(1, rows).U(10, 1))
	}
	foot.U(8, uint64(stride))
	at := f.off
	f.chunks(foot.Bytes())
	n := f.off - at
	kind := uint64(0)
	if f.zlib {
		kind = 1
	}
	ps := (&wire.W{}).U(1, uint64(n)).U(2, kind).U(3, uint64(f.block)).Packed(4, []uint64{0, 12}).U(5, 0).U(6, 6).S(8000, "ORC")
	f.put(ps.Bytes())
	f.put([]byte{byte(len(ps.Bytes()))})
}

// generated puts a stream of n bytes which are made when they are read
func (f *hugeFile) generated(n uint64, of func(at uint64) byte) {
	if !f.zlib {
		f.s.Generate(f.off, int64(n), func(off int64, b []byte) {
			for i := range b {
				b[i] = of(uint64(off) + uint64(i))
			}
		})
		f.off += int64(n)
		return
	}
	block := uint64(f.block)
	full := n + (n+block-1)/block*3
	f.s.Generate(f.off, int64(full), func(off int64, b []byte) {
		k, at := uint64(off)/(block+3), uint64(off)%(block+3)
		for i := range b {
			if at < 3 {
				b[i] = byte((min(block, n-k*block)<<1 | 1) >> (8 * at))
			} else {
				b[i] = of(k*block + at - 3)
			}
			if at++; at == block+3 {
				k, at = k+1, 0
			}
		}
	})
	f.off += int64(full)
}

const (
	runRows  = 512 // of a delta run
	runBytes = 10  // of it, with a base of 7 bytes
)

// byteRuns are n bytes in runs of the same length, each of a byte
type byteRuns struct {
	n, run uint64 // run is from 3 to 130
	of     func(k uint64) byte
}

func (b byteRuns) length() uint64 {
	n := b.n / b.run * 2
	switch left := b.n % b.run; {
	case left >= 3:
		n += 2
	case left > 0:
		n += 1 + left
	}
	return n
}

func (b byteRuns) at(off uint64) byte {
	k := off / 2
	if left := b.n - min(b.n, k*b.run); left < 3 || k*b.run > b.n { // literals at the end
		k = b.n / b.run
		if off == 2*k {
			return byte(-int8(b.n % b.run))
		}
		return b.of(k)
	} else if off%2 == 0 {
		return byte(min(b.run, left) - 3)
	}
	return b.of(k)
}

// hugeRows is a file of more rows than 32 bits can count. In stripe s, row i has 3*i+s, is null or else has the number
// of rows with a value before it divided by a length of runs, and bit i%8 of 37 times i divided by another
type hugeRows struct {
	stripes          []uint64
	total            uint64
	pres, byts, bits uint64 // lengths of runs
}

// presentBefore is how many rows of the first have a value
func (h *hugeRows) presentBefore(i uint64) uint64 {
	p := h.pres * 8
	return i/(2*p)*p + min(i%(2*p), p)
}

func (h *hugeRows) row(row uint64) model.Val {
	si := 0
	for ; row >= h.stripes[si]; si++ {
		row -= h.stripes[si]
	}
	var b model.Val
	if row/(8*h.pres)%2 == 0 {
		b = byte(h.presentBefore(row) / h.byts)
	}
	return model.Row{int64(3*row) + int64(si), b, byte(37*(row/(8*h.bits)))>>(7-row%8)&1 != 0}
}

func c33Rows(c *rt.C) {
	r := c.R
	t := &model.Type{Kind: model.Struct, Names: []string{"a", "b", "c"}}
	t.Kids = []*model.Type{{Kind: model.Long}, {Kind: model.Byte, Nullable: true}, {Kind: model.Boolean}}
	t = t.Number()
	f := newHuge(r.Intn(2) == 0, []int{1000, 4096, 65536, 262144, 300_001, 1 << 20}[r.Intn(6)])
	run := func() uint64 { return []uint64{3, 10, 129, 130, 3 + uint64(r.Intn(128))}[r.Intn(5)] }
	h := &hugeRows{pres: run(), byts: run(), bits: run()}
	per := []uint64{1 << 30, 1<<31 - 500, 1<<32 - 200, 1<<32 + 777, 1 << 36, 1 << 38, 1 << 39}[r.Intn(7)]
	for h.total < over32+5000 || len(h.stripes) < 2 {
		n := per + uint64(r.Intn(3000))
		if r.Intn(4) == 0 {
			n = 1 + uint64(r.Intn(5000))
		}
		h.stripes = append(h.stripes, n)
		h.total += n
	}
	stride := []int{1 << 18, 1 << 20, 1_000_000, 3_333_333}[r.Intn(4)]
	if per > over32 {
		stride = 1<<25 - r.Intn(3)
	}
	desc := fmt.Sprintf("%+v in strides of %d, chunks of %d, zlib %t", *h, stride, f.block, f.zlib)
	c.Note("%s", desc)
	for si, n := range h.stripes {
		index := make([][][]uint64, 4)
		for i := uint64(0); i < n; i += uint64(stride) {
			index[0] = append(index[0], nil)
			index[1] = append(index[1], append(f.pos(i/runRows*runBytes), i%runRows))
			present := append(f.pos(i/8/h.pres*2), i/8%h.pres, i%8)
			k := h.presentBefore(i)
			index[2] = append(index[2], append(present, append(f.pos(k/h.byts*2), k%h.byts)...))
			index[3] = append(index[3], append(f.pos(i/8/h.bits*2), i/8%h.bits, i%8))
		}
		longLength := n / runRows * runBytes
		if left := n % runRows; left > 0 {
			longLength += runBytes
		}
		long := func(at uint64) byte {
			k, j := at/runBytes, at%runBytes
			m := min(runRows, n-k*runRows)
			v := (3*k*runRows + uint64(si)) << 1
			if m == 1 { // direct, of 8 bytes
				if j < 2 {
					return [2]byte{1<<6 | 31<<1, 0}[j]
				}
				return byte(v >> (8 * (9 - j)))
			}
			switch {
			case j == 0:
				return 3<<6 | byte((m-1)>>8)
			case j == 1:
				return byte(m - 1)
			case j < 8:
				return byte(v>>(7*(j-2))) | 0x80
			case j == 8:
				return byte(v >> 42)
			}
			return 6
		}
		byteStream := func(b byteRuns) func() {
			return func() { f.generated(b.length(), b.at) }
		}
		f.stripe(n, 4, index, []hugeStream{
			{refdec.Data, 1, func() { f.generated(longLength, long) }},
			{refdec.Present, 2, byteStream(byteRuns{(n + 7) / 8, h.pres, func(k uint64) byte { return byte(k&1) - 1 }})},
			{refdec.Data, 2, byteStream(byteRuns{h.presentBefore(n), h.byts, func(k uint64) byte { return byte(k) }})},
			{refdec.Data, 3, byteStream(byteRuns{(n + 7) / 8, h.bits, func(k uint64) byte { return byte(37 * k) }})},
		}, []uint64{0, 2, 0, 0})
	}
	f.end(t, h.total, stride)
	c.Eval(model.Hash(model.HashInit, desc))
	c.Sample("%s, %d bytes", desc, f.s.Size())
	rd := openSparse(c, f.s)
	if n := rd.NumberOfRows(); n != h.total {
		c.Fail("number of rows", "reader tells %d rows, there are %d", n, h.total)
	}
	for k := 0; k < 4; k++ {
		inc := [][]uint32{nil, {0, 1}, {0, 2}, {0, 3}}[k]
		capacity := 1 + r.Intn(3000)
		opt := &api.BatchOption{Includes: inc, RowSize: capacity}
		br, err := rd.CreateBatchReader(opt)
		if err != nil {
			c.Fail("create error", "%v", err)
		}
		vec, err := rd.GetSchema().CreateVector(opt)
		if err != nil {
			c.Fail("vector error", "%v", err)
		}
		pt := model.Project(t, drive.Included(t, inc))
		for m := 0; m < 7; m++ {
			row := r.Uint64() % h.total
			switch r.Intn(4) {
			case 0:
				row = min(h.total-1, over32-uint64(r.Intn(4000))+uint64(r.Intn(3000)))
			case 1:
				row = 1<<31 - uint64(r.Intn(4000)) + uint64(r.Intn(3000))
			case 2: // about the end of a stripe
				row = 0
				for i := 0; i <= r.Intn(len(h.stripes)); i++ {
					row += h.stripes[i]
				}
				row -= 1 + min(row-1, uint64(r.Intn(5000)))
			}
			if stride > 1<<22 && r.Intn(24) != 0 { // not far in its stride
				s := uint64(0)
				for i := 0; row-s >= h.stripes[i]; i++ {
					s += h.stripes[i]
				}
				row = s + (row-s)/uint64(stride)*uint64(stride) + (row-s)%uint64(stride)%30000
			}
			if err := br.Seek(row); err != nil {
				c.Fail("seek error", "seeking to row %d of %d failed: %v", row, h.total, err)
			}
			c.Count("seeks", 1)
			if row >= over32 {
				c.Count("seeks over 2^32", 1)
			}
			for b := 0; b < 3 && row < h.total; b++ {
				rows, end, err := drive.Batch(br, pt, vec)
				if err != nil {
					c.Fail(errKey("next", err), "reading columns %v at row %d of %d failed: %v", inc, row, h.total, err)
				}
				if len(rows) == 0 || len(rows) > capacity || uint64(len(rows)) > h.total-row {
					c.Fail("number of rows", "reading at row %d of %d with capacity %d delivered %d", row, h.total, capacity, len(rows))
				}
				for i, v := range rows {
					want := model.ProjectVal(t, h.row(row+uint64(i)), drive.Included(t, inc))
					if d := model.DiffRows([]model.Val{want}, []model.Val{v}); d != "" {
						c.Fail("rows differ", "row %d of %d, columns %v: %s", row+uint64(i), h.total, inc, d)
					}
				}
				row += uint64(len(rows))
				c.Count("rows read", len(rows))
				if end != (row == h.total) {
					c.Fail("end", "after row %d of %d end is %t", row, h.total, end)
				}
			}
		}
		for _, row := range []uint64{h.total, h.total + 1, h.total + over32, 1 << 63, 1<<64 - 1} {
			if err := br.Seek(row); err == nil {
				c.Fail("seek accepted", "seeking to row %d of %d gave no error", row, h.total)
			}
		}
		br.Close()
	}
	rd.Close()
	closed(c, f.s)
}

// a stream of more bytes than 32 bits can count, of few long values
func c33Stream(c *rt.C) {
	r := c.R
	kind := []model.Kind{model.Binary, model.String}[r.Intn(2)]
	t := &model.Type{Kind: model.Struct, Names: []string{"v", "w"}, Kids: []*model.Type{{Kind: kind}, {Kind: kind}}}
	t = t.Number()
	f := newHuge(r.Intn(2) == 0, []int{1 << 20, 1<<23 - 1, 1 << 22, 3_000_001}[r.Intn(4)])
	size := int64(100_000 + r.Intn(3_000_000))
	n := (int64(over32)+int64(r.Intn(1<<28)))/size + 20
	stride := 1 + r.Intn(20)
	told := n // the last values are not there
	if r.Intn(3) == 0 {
		told += 1 + int64(r.Intn(20))
	}
	desc := fmt.Sprintf("%d values of %d told, of %d bytes in strides of %d, chunks of %d, zlib %t", n, told, size, stride, f.block, f.zlib)
	c.Note("%s", desc)
	mark := func(i int64) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(i)*0x9E3779B97F4A7C15&0x7f7f7f7f7f7f7f7f)
		return b[:]
	}
	var lengths []byte
	index := make([][][]uint64, 3)
	runAt := func(i int64) uint64 { return uint64(i / runRows * 7) }
	for i := int64(0); i < told; i += int64(stride) {
		index[0], index[2] = append(index[0], nil), append(index[2], []uint64{0, 0, 0, 0, 0})
		index[1] = append(index[1], append(f.pos(uint64(i*size)), append(f.pos(runAt(i)), uint64(i%runRows))...))
	}
	for i := int64(0); i < told; i += runRows {
		k := min(runRows, told-i)
		lengths = append(lengths, 3<<6|byte((k-1)>>8), byte(k-1), byte(size)|0x80, byte(size>>7)|0x80, byte(size>>14)|0x80, byte(size>>21), 0)
	}
	f.stripe(uint64(told), 3, index, []hugeStream{
		{refdec.Data, 1, func() {
			f.virtual(n*size, func(put func(int64, []byte)) {
				for i := int64(0); i < n; i++ {
					put(i*size, mark(i))
					put(i*size+size-8, mark(^i))
				}
			})
		}},
		{refdec.Data, 2, func() { f.virtual(30*size, func(func(int64, []byte)) {}) }},
		{refdec.Length, 1, func() { f.chunks(lengths) }},
		{refdec.Length, 2, func() { f.chunks(lengths) }},
	}, []uint64{0, 2, 2})
	f.end(t, uint64(told), stride)
	c.Eval(model.Hash(model.HashInit, fmt.Sprint(kind, desc)))
	c.Sample("%s", desc)
	rd := openSparse(c, f.s)
	opt := &api.BatchOption{Includes: []uint32{0, 1}, RowSize: 1 + r.Intn(3)}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	for k := 0; k < 8; k++ {
		row := r.Int63n(told)
		if k < 2 && told > n {
			row = n - int64(1+r.Intn(4))
		} else if r.Intn(2) == 0 {
			row = max(0, min(n-1, int64(over32>>uint(r.Intn(2)))/size-int64(r.Intn(4))))
		}
		if err := br.Seek(uint64(row)); err != nil {
			if row >= n {
				c.Count("values over the end refused", 1)
				continue
			}
			c.Fail("seek error", "seeking to row %d of %d failed: %v", row, n, err)
		}
		c.Count("seeks", 1)
		for b := 0; b < 3 && row < told || row < n && row > n-5; b++ {
			end, err := br.Next(vec)
			if err != nil {
				if told > n && row+int64(opt.RowSize) > n {
					c.Count("values over the end refused", 1)
					break
				}
				c.Fail("next error", "reading at row %d of %d failed: %v", row, n, err)
			}
			for _, x := range vec.Children[0].Vector {
				var got []byte
				switch v := x.V.(type) {
				case []byte:
					got = v
				case string:
					got = []byte(v)
				}
				if row >= n {
					c.Fail("rows made up", "row %d was delivered, there are %d", row, n)
				}
				if int64(len(got)) != size || string(got[:8]) != string(mark(row)) || string(got[size-8:]) != string(mark(^row)) {
					c.Fail("rows differ", "row %d of %d has a value of %d bytes, from % x, there is one of %d from % x", row, n, len(got), got[:min(8, len(got))], size, mark(row))
				}
				row++
				c.Count("rows read", 1)
				if row*size > int64(over32) {
					c.Count("values over 4 GB in a stream", 1)
				}
			}
			if end != (row == told) {
				c.Fail("end", "after row %d of %d end is %t", row, told, end)
			}
		}
	}
	br.Close()
	rd.Close()
	closed(c, f.s)
}

// files of over 4 GB written
func c33Write(c *rt.C) {
	r := c.R
	kind := []model.Kind{model.Binary, model.String}[r.Intn(2)]
	t := &model.Type{Kind: model.Struct, Names: []string{"v", "n"}, Kids: []*model.Type{{Kind: kind, Nullable: r.Intn(2) == 0, Enc: model.DirectV2}, {Kind: model.Long, Enc: model.DirectV2}}}
	t = t.Number()
	o := drive.WOpts{Chunk: 262144, Stripe: 1 << uint(20+r.Intn(7)), Index: r.Intn(2) == 0, Stride: 1 + r.Intn(30)}
	size := 500_000 + r.Intn(3_000_000)
	n := int((over32+uint64(r.Intn(1<<27)))/uint64(size)) + 5
	c.Note("%s, %d rows with values of %d bytes, %s", t, n, size, o)
	s := drive.NewSparse()
	wr, err := orc.VerifNewWriter(drive.Schema(t), o.Config(), s.Handle())
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	value := make([]byte, size)
	fill := func(i int) {
		binary.BigEndian.PutUint64(value, uint64(i)&0x7f7f7f7f)
		binary.BigEndian.PutUint64(value[size-8:], uint64(n-i)&0x7f7f7f7f)
	}
	null := func(i int) bool { return t.Kids[0].Nullable && i%11 == 5 }
	var bytes uint64
	for i := 0; i < n; i++ {
		fill(i)
		v := api.Value{V: value}
		if kind == model.String {
			v.V = string(value)
		}
		if null(i) {
			v = api.Value{Null: true}
		} else {
			bytes += uint64(size)
		}
		vec := &api.ColumnVector{Kind: pb.Type_STRUCT, Children: []*api.ColumnVector{
			{Id: 1, Kind: pb.Type_Kind(kind), Vector: []api.Value{v}}, {Id: 2, Kind: pb.Type_LONG, Vector: []api.Value{{V: int64(i) << 33}}}}}
		if err := wr.Write(vec); err != nil {
			c.Fail("write error", "row %d of %d: %v", i, n, err)
		}
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	c.Eval(model.Hash(model.HashInit, fmt.Sprint(t, n, size, o)))
	c.Sample("%s, %d rows with values of %d bytes, %s", t, n, size, o)
	c.Count("MB written", int(s.Size()>>20))
	// the footer
	tail := make([]byte, min(s.Size(), 1<<20))
	s.Get(s.Size()-int64(len(tail)), tail)
	psl := int(tail[len(tail)-1])
	psAt := len(tail) - 1 - psl
	ps, err := wire.Parse(tail[psAt : len(tail)-1])
	if err != nil {
		c.Fail("metadata", "postscript: %v", err)
	}
	foot, err := wire.Parse(tail[psAt-int(ps.U(1)) : psAt])
	if err != nil {
		c.Fail("metadata", "footer: %v", err)
	}
	footAt := uint64(s.Size()) - uint64(len(tail)-psAt) - ps.U(1) - ps.U(5)
	at, rows := uint64(3), uint64(0)
	infos, err := foot.Msgs(3)
	if err != nil {
		c.Fail("metadata", "stripes: %v", err)
	}
	for i, m := range infos {
		if m.U(1) != at {
			c.Fail("stripe offset", "stripe %d of %d is at %d, the one before ends at %d", i, len(infos), m.U(1), at)
		}
		at += m.U(2) + m.U(3) + m.U(4)
		rows += m.U(5)
	}
	if at != footAt || rows != uint64(n) || foot.U(6) != uint64(n) || foot.U(2) != footAt-3 {
		c.Fail("footer", "stripes end at %d and have %d rows, footer is at %d and tells %d rows and %d bytes of stripes, %d rows were written", at, rows, footAt, foot.U(6), foot.U(2), n)
	}
	stats, err := foot.Msgs(7)
	if err != nil || len(stats) != 3 {
		c.Fail("metadata", "statistics: %v", err)
	}
	field := 8
	if kind == model.String {
		field = 4
	}
	st, _, err := stats[1].Msg(field)
	sum := st.Z(1)
	if kind == model.String {
		sum = st.Z(3)
	}
	if err != nil || uint64(sum) != bytes {
		c.Fail("statistics", "sum of lengths is %d, there are %d bytes (%v)", sum, bytes, err)
	}
	// bytes on disk, by the footers of stripes
	disk := make([]uint64, 3)
	for i, m := range infos {
		b := make([]byte, m.U(4))
		s.Get(int64(m.U(1)+m.U(2)+m.U(3)), b)
		sf, err := wire.Parse(b)
		if err != nil {
			c.Fail("metadata", "footer of stripe %d: %v", i, err)
		}
		streams, err := sf.Msgs(1)
		if err != nil {
			c.Fail("metadata", "footer of stripe %d: %v", i, err)
		}
		for _, st := range streams {
			if st.U(1) != refdec.RowIndex {
				disk[st.U(2)] += st.U(3)
			}
		}
	}
	for i, n := range disk {
		if got := stats[i].U(11); got != n {
			c.Fail("statistics", "column %d has %d bytes on disk, streams have %d", i, got, n)
		}
	}
	// rows
	rd := openSparse(c, s)
	defer rd.Close()
	if got := rd.NumberOfRows(); got != uint64(n) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", got, n)
	}
	opt := &api.BatchOption{RowSize: 2}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	defer br.Close()
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	for k := 0; k < 10; k++ {
		row := r.Intn(n)
		if k == 0 {
			row = n - 1
		}
		if err := br.Seek(uint64(row)); err != nil {
			c.Fail("seek error", "seeking to row %d of %d failed: %v", row, n, err)
		}
		c.Count("seeks", 1)
		for b := 0; b < 3 && row < n; b++ {
			if _, err := br.Next(vec); err != nil {
				c.Fail("next error", "reading at row %d of %d failed: %v", row, n, err)
			}
			for i, x := range vec.Children[0].Vector {
				y := vec.Children[1].Vector[i]
				if x.Null != null(row) || y.Null || y.V.(int64) != int64(row)<<33 {
					c.Fail("rows differ", "row %d of %d has null %t and %v", row, n, x.Null, y)
				}
				if !x.Null {
					fill(row)
					var ok bool
					switch v := x.V.(type) {
					case []byte:
						ok = string(v) == string(value)
					case string:
						ok = v == string(value)
					}
					if !ok {
						c.Fail("rows differ", "row %d of %d has another value", row, n)
					}
				}
				row++
				c.Count("rows read", 1)
			}
		}
	}
}

// c33Told has a stripe told to have more rows than 32 bits can count, of which there are few
func c33Told(c *rt.C) {
	r := c.R
	kinds := []model.Kind{model.Long, model.Byte, model.Boolean}
	kind := kinds[r.Intn(3)]
	t := &model.Type{Kind: model.Struct, Names: []string{"x"}, Kids: []*model.Type{{Kind: kind}}}
	t = t.Number()
	f := newHuge(r.Intn(2) == 0, []int{10, 100, 4096, 65536}[r.Intn(4)])
	there := uint64(1+r.Intn(10)) * runRows
	told := there + []uint64{0, 1 << 31, over32, over32 * 5, 1 << 45, 1 << 60}[r.Intn(6)]
	stride := 1 + r.Intn(700)
	entries := uint64(0)
	if r.Intn(2) == 0 {
		entries = min(there, there/uint64(stride)+1)
	}
	var runs []byte
	var at func(i uint64) []uint64
	var row func(i uint64) model.Val
	enc := uint64(0)
	switch kind {
	case model.Long:
		enc = 2
		for k := uint64(0); k < there/runRows; k++ {
			runs = append(runs, 3<<6|1, 255)
			runs = wire.AppendUvarint(runs, k*runRows*2)
			for len(runs)%runBytes != 9 {
				runs[len(runs)-1] |= 0x80
				runs = append(runs, 0)
			}
			runs = append(runs, 2)
		}
		at = func(i uint64) []uint64 { return append(f.pos(i/runRows*runBytes), i%runRows) }
		row = func(i uint64) model.Val { return int64(i) }
	case model.Byte:
		b := byteRuns{there, 64, func(k uint64) byte { return byte(k) }}
		for i := uint64(0); i < b.length(); i++ {
			runs = append(runs, b.at(i))
		}
		at = func(i uint64) []uint64 { return append(f.pos(i/64*2), i%64) }
		row = func(i uint64) model.Val { return byte(i / 64) }
	case model.Boolean:
		b := byteRuns{there / 8, 64, func(k uint64) byte { return byte(37 * (k + 1)) }}
		for i := uint64(0); i < b.length(); i++ {
			runs = append(runs, b.at(i))
		}
		at = func(i uint64) []uint64 { return append(f.pos(i/8/64*2), i/8%64, i%8) }
		row = func(i uint64) model.Val { return byte(37*(i/8/64+1))>>(7-i%8)&1 != 0 }
	}
	var index [][][]uint64
	if entries > 0 {
		index = make([][][]uint64, 2)
		for i := uint64(0); i < entries && i*uint64(stride) < there; i++ {
			index[0] = append(index[0], nil)
			index[1] = append(index[1], at(i*uint64(stride)))
		}
	}
	f.stripe(told, 2, index, []hugeStream{{refdec.Data, 1, func() { f.chunks(runs) }}}, []uint64{0, enc})
	f.end(t, told, stride)
	desc := fmt.Sprintf("%s, %d rows of %d told, %d entries of strides of %d, chunks of %d, zlib %t", t, there, told, entries, stride, f.block, f.zlib)
	c.Note("%s", desc)
	c.Eval(model.Hash(model.HashInit, desc))
	c.Sample("%s", desc)
	rd := openSparse(c, f.s)
	if n := rd.NumberOfRows(); n != told {
		c.Fail("number of rows", "reader tells %d rows, there are %d", n, told)
	}
	opt := &api.BatchOption{RowSize: 1 + r.Intn(200)}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	for k := 0; k < 30; k++ {
		n := uint64(r.Intn(int(there)))
		switch r.Intn(4) {
		case 0:
			n += (uint64(stride) << 32) * uint64(r.Intn(3))
		case 1:
			n += []uint64{1 << 31, over32, over32 << 1}[r.Intn(3)]
		case 2:
			n = r.Uint64() % told
		}
		err := br.Seek(n)
		if err == nil && n >= told {
			c.Fail("seek accepted", "seeking to row %d of %d gave no error", n, told)
		}
		if err != nil && n < there {
			c.Fail("seek error", "seeking to row %d of %d failed: %v", n, there, err)
		}
		if err != nil {
			c.Count("seeks refused", 1)
			continue
		}
		c.Count("seeks", 1)
		rows, _, err := drive.Batch(br, t, vec)
		if err != nil && n+uint64(opt.RowSize) <= there {
			c.Fail("next error", "reading at row %d of %d failed: %v", n, there, err)
		}
		if err != nil {
			continue
		}
		for i, v := range rows {
			if at := n + uint64(i); at >= there {
				c.Fail("rows made up", "row %d was delivered as %v, there are %d", at, v, there)
			} else if d := model.DiffRows([]model.Val{model.Row{row(at)}}, []model.Val{v}); d != "" {
				c.Fail("rows differ", "row %d: %s", at, d)
			}
		}
		c.Count("rows read", len(rows))
	}
	br.Close()
	rd.Close()
	closed(c, f.s)
}
