package checks

import (
	"encoding/binary"
	"fmt"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
	"verif/harness/internal/wire"
)

// C31: what cannot be read. Files of the independent writer have something readers may not know, or lack something.
// Oracle: up to an error rows are the right ones, and without error they are all there.

type oddCase struct {
	t    *model.Type
	rows []model.Val
	o    refenc.Options
	hit  map[uint32]bool // columns which are odd
}

func newOdd(c *rt.C, most int) *oddCase {
	r := c.R
	k := &oddCase{hit: map[uint32]bool{}}
	k.t = model.GenSchema(r, model.SchemaOpts{MaxCols: 4, MaxDepth: 3, Nested: r.Intn(2) == 0, AnyRoot: true})
	n := 1 + nRows(r, most)
	if l := len(k.t.Flat()); l > 8 {
		n = 1 + n*8/l
	}
	k.rows = model.GenCol(r, k.t, n)
	k.o = refenc.RandOptions(r, n)
	return k
}

// column picks some columns of those which are fit
func (k *oddCase) column(c *rt.C, fit func(t *model.Type) bool) map[uint32]bool {
	var l []*model.Type
	for _, t := range k.t.Flat() {
		if fit(t) {
			l = append(l, t)
		}
	}
	m := map[uint32]bool{}
	if len(l) == 0 {
		return m
	}
	for i := c.R.Intn(2); i >= 0; i-- {
		m[l[c.R.Intn(len(l))].ID] = true
	}
	return m
}

func (k *oddCase) encode(c *rt.C, what string, odd *refenc.Odd) []byte {
	c.Note("%s: %s; %d rows by the independent writer with %+v", what, k.t, len(k.rows), k.o)
	k.o.Odd = odd
	data := refenc.Encode(c.R, k.t, k.rows, k.o).B
	k.o.Odd = nil
	if len(k.hit) == 0 {
		c.Trivial()
	} else {
		c.Eval(model.Hash(model.Hash(model.HashInit, k.t.String()), fmt.Sprint(what, k.hit, len(data), k.rows)))
		c.Count("files with "+what, 1)
	}
	return data
}

// others are the columns which can be read without the odd ones
func (k *oddCase) others() []uint32 {
	var inc []uint32
	var whole func(t *model.Type) bool
	whole = func(t *model.Type) bool {
		if k.hit[t.ID] {
			return false
		}
		for _, x := range t.Kids {
			if !whole(x) {
				return false
			}
		}
		return true
	}
	var walk func(t *model.Type)
	walk = func(t *model.Type) {
		if k.hit[t.ID] || t.Kind != model.Struct && !whole(t) {
			return
		}
		inc = append(inc, t.ID)
		for _, x := range t.Kids {
			walk(x)
		}
	}
	walk(k.t)
	if !validTree(k.t, inc) || !hasRows(k.t, inc) {
		return nil
	}
	return inc
}

// read returns if it was refused. Opening may be refused only if the whole file is odd.
func (k *oddCase) read(c *rt.C, data []byte, inc []uint32, what string) bool {
	r := c.R
	rd, err := drive.Open(data)
	if err != nil {
		return true
	}
	defer rd.Close()
	if n := rd.NumberOfRows(); n != uint64(len(k.rows)) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", n, len(k.rows))
	}
	want := k.rows
	if len(inc) != 0 {
		m := drive.Included(k.t, inc)
		want = make([]model.Val, len(k.rows))
		for i, v := range k.rows {
			want[i] = model.ProjectVal(k.t, v, m)
		}
	}
	got, calls, err := drive.ReadAll(rd, drive.ROpts{Inc: inc, Cap: capSource(r, len(k.rows)), Reuse: r.Intn(2) == 0})
	if err != nil && errKey("read", err) != "read error" {
		c.Fail("misread", "%s: reading columns %v after %d rows of %d: %v", what, inc, len(got), len(want), err)
	}
	if len(got) > len(want) {
		c.Fail("misread", "%s: reading columns %v has %d rows, there are %d", what, inc, len(got), len(want))
	}
	if d := model.DiffRows(want[:len(got)], got); d != "" {
		c.Fail("misread", "%s: columns %v: %s", what, inc, d)
	}
	c.Count("reads", calls)
	c.Count("rows read before an error", len(got))
	if r.Intn(2) == 0 && len(want) > 0 {
		k.seek(c, rd, inc, want, what)
	}
	return err != nil
}

// seek reads at some rows
func (k *oddCase) seek(c *rt.C, rd orc.Reader, inc []uint32, want []model.Val, what string) {
	r := c.R
	opt := &api.BatchOption{Includes: inc, RowSize: 1 + r.Intn(30)}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		return
	}
	defer br.Close()
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector error", "%v", err)
	}
	t := model.Project(k.t, drive.Included(k.t, inc))
	for i := 2 + r.Intn(4); i > 0; i-- {
		at := r.Intn(len(want))
		if err := br.Seek(uint64(at)); err != nil {
			c.Count("seeks refused", 1)
			continue
		}
		for j := r.Intn(3); j >= 0 && at < len(want); j-- {
			got, _, err := drive.Batch(br, t, vec)
			if err != nil && errKey("read", err) != "read error" {
				c.Fail("misread", "%s: reading columns %v at row %d of %d: %v", what, inc, at, len(want), err)
			}
			if err != nil {
				c.Count("refused after seek", 1)
				break
			}
			if len(got) == 0 || len(got) > len(want)-at {
				c.Fail("misread", "%s: reading columns %v at row %d of %d has %d rows", what, inc, at, len(want), len(got))
			}
			if d := model.DiffRows(want[at:at+len(got)], got); d != "" {
				c.Fail("misread", "%s: columns %v after seeking to row %d: %s", what, inc, at, d)
			}
			at += len(got)
			c.Count("read after seek", 1)
		}
	}
}

// check reads all columns and those which are not odd
func (k *oddCase) check(c *rt.C, data []byte, what string) {
	if k.read(c, data, nil, what) {
		if len(k.hit) == 0 {
			c.Fail("refused", "a file without %s is refused", what)
		}
		c.Count("refused: "+what, 1)
	} else if len(k.hit) != 0 {
		c.Count("read exactly: "+what, 1)
	}
	if inc := k.others(); len(inc) != 0 {
		if k.read(c, data, inc, what) {
			c.Fail("others refused", "%s of columns %v: reading the other columns %v is refused", what, k.hit, inc)
		}
		c.Count("other columns read", 1)
	}
}

// c31Encodings: integers of the old run lengths, and encodings which are none of the type
func c31Encodings(c *rt.C) {
	r := c.R
	k := newOdd(c, 400)
	odd := &refenc.Odd{}
	what := "old encodings"
	if r.Intn(2) == 0 {
		cols := k.column(c, func(t *model.Type) bool { return model.DefaultEnc(t.Kind) == model.DirectV2 })
		often := 1 + r.Intn(3)
		odd.V1 = func(t *model.Type) bool {
			if !cols[t.ID] || r.Intn(often) != 0 {
				return false
			}
			k.hit[t.ID] = true
			return true
		}
	} else {
		what = "wrong encodings"
		cols := k.column(c, func(t *model.Type) bool { return true })
		often := 1 + r.Intn(3)
		odd.Enc = func(t *model.Type, enc model.Enc) int {
			if !cols[t.ID] || r.Intn(often) != 0 {
				return int(enc)
			}
			k.hit[t.ID] = true
			none := []int{1, 3, 4, 5, 100}
			switch {
			case model.DefaultEnc(t.Kind) == model.Direct:
				none = []int{1, 2, 3, 4, 100}
			case t.Kind == model.String || t.Kind == model.Varchar || t.Kind == model.Char:
				none = []int{4, 5, 100}
				if enc == model.DictionaryV2 {
					none = append(none, 0)
				} else {
					none = append(none, 1)
				}
			}
			return none[r.Intn(len(none))]
		}
	}
	k.check(c, k.encode(c, what, odd), what)
}

// c31Codecs: compression by other kinds
func c31Codecs(c *rt.C) {
	r := c.R
	k := newOdd(c, 300)
	k.o.Kind = 1
	odd := &refenc.Odd{Codec: []int{2, 3, 4, 5, 6, 100}[r.Intn(6)]}
	k.hit[0] = true
	small := r.Intn(3)
	odd.Pack = func(b []byte) []byte {
		if small == 0 || small == 1 && len(b) < 400 { // original, as is the footer so
			return nil
		}
		return pack31(odd.Codec, b)
	}
	what := fmt.Sprintf("compression %d", odd.Codec)
	data := k.encode(c, what, odd)
	if k.read(c, data, nil, what) {
		c.Count("refused: other compression", 1)
	} else {
		c.Count("read exactly: other compression", 1)
	}
}

// pack31 has literals only
func pack31(codec int, b []byte) []byte {
	switch codec {
	case 2: // SNAPPY
		d := wire.AppendUvarint(nil, uint64(len(b)))
		for len(b) > 0 {
			n := len(b)
			if n > 60 {
				n = 60
			}
			d = append(append(d, byte(n-1)<<2), b[:n]...)
			b = b[n:]
		}
		return d
	case 3: // LZO
		if len(b) > 238 {
			return nil
		}
		return append(append([]byte{byte(17 + len(b))}, b...), 17, 0, 0)
	case 4: // LZ4
		n := len(b)
		if n < 15 {
			return append([]byte{byte(n << 4)}, b...)
		}
		d := []byte{0xf0}
		for n -= 15; n >= 255; n -= 255 {
			d = append(d, 255)
		}
		return append(append(d, byte(n)), b...)
	case 5: // ZSTD
		if len(b) > 100000 {
			return nil
		}
		d := binary.LittleEndian.AppendUint32([]byte{0x28, 0xb5, 0x2f, 0xfd, 0xa0}, uint32(len(b)))
		h := uint32(len(b))<<3 | 1
		return append(append(d, byte(h), byte(h>>8), byte(h>>16)), b...)
	}
	return b
}

// c31Types: types without reader
func c31Types(c *rt.C) {
	r := c.R
	k := newOdd(c, 200)
	cols := k.column(c, func(t *model.Type) bool { return t.ID != 0 })
	kinds := []int{int(model.Union), 18, 19, 20, 100}
	kind := kinds[r.Intn(len(kinds))]
	k.hit = cols
	what := "types without reader"
	data := k.encode(c, what, &refenc.Odd{Kind: func(t *model.Type) int {
		if cols[t.ID] {
			return kind
		}
		return -1
	}})
	if len(cols) == 0 {
		return
	}
	rd, err := drive.Open(data)
	if err != nil {
		c.Count("refused: "+what, 1)
		return
	}
	defer rd.Close()
	c.Count("opened: "+what, 1)
	opt := &api.BatchOption{RowSize: 10}
	vec, verr := rd.GetSchema().CreateVector(opt)
	br, err := rd.CreateBatchReader(opt)
	if err == nil {
		if verr == nil {
			if _, err = br.Next(vec); err == nil {
				c.Fail("misread", "columns %v of kind %d are read", cols, kind)
			}
		}
		br.Close()
	}
	c.Count("refused: "+what, 1)
	if inc := k.others(); len(inc) != 0 {
		k.read(c, data, inc, what)
		c.Count("other columns read", 1)
	}
}

// c31Short: streams with too few values or bytes
func c31Short(c *rt.C) {
	r := c.R
	k := newOdd(c, 600)
	cols := k.column(c, func(t *model.Type) bool { return true })
	often := 1 + r.Intn(4)
	hit := func(t *model.Type) bool {
		if !cols[t.ID] || r.Intn(often) != 0 {
			return false
		}
		k.hit[t.ID] = true
		return true
	}
	less := func(n int) int {
		if r.Intn(2) == 0 {
			return n - 1 - r.Intn(1+n/8)
		}
		return r.Intn(n)
	}
	odd := &refenc.Odd{}
	what := "fewer values"
	if r.Intn(2) == 0 {
		odd.Ints = func(t *model.Type, kind int, v []int64) []int64 {
			if len(v) == 0 || !hit(t) {
				return v
			}
			return v[:less(len(v))]
		}
		odd.Keep = func(t *model.Type, kind int, n int) int {
			if n == 0 || kind == refdec.Present && n < 16 || !hit(t) {
				return n
			}
			if n = less(n); kind == refdec.Present && n < 8 {
				n = 8 // a file without nulls is another one
			}
			return n
		}
	} else {
		what = "fewer bytes"
		odd.Data = func(t *model.Type, kind int, b []byte) []byte {
			if len(b) == 0 || kind == refdec.Present && len(b) < 2 || !hit(t) {
				return b
			}
			n := less(len(b))
			if kind == refdec.Present && n == 0 {
				n = 1
			}
			return b[:n]
		}
	}
	k.check(c, k.encode(c, what, odd), what)
}

// c31Missing: streams which are not there
func c31Missing(c *rt.C) {
	r := c.R
	k := newOdd(c, 300)
	cols := k.column(c, func(t *model.Type) bool { return t.Kind != model.Struct })
	often := 1 + r.Intn(4)
	what := "missing streams"
	k.check(c, k.encode(c, what, &refenc.Odd{Drop: func(t *model.Type, kind int) bool {
		// a file without nulls is another one
		if kind == refdec.Present || !cols[t.ID] || r.Intn(often) != 0 {
			return false
		}
		k.hit[t.ID] = true
		return true
	}}), what)
}

// c31Range: values which the types do not have
func c31Range(c *rt.C) {
	r := c.R
	k := newOdd(c, 300)
	cols := k.column(c, func(t *model.Type) bool {
		switch t.Kind {
		case model.Boolean, model.Byte, model.Float, model.Double, model.Struct, model.Long:
			return false
		}
		return true
	})
	what := "values out of range"
	for _, t := range k.t.Flat() {
		if cols[t.ID] && t.Kind == model.Decimal {
			k.o.Stride = 0 // positions after a longer varint are others
		}
	}
	odd := &refenc.Odd{}
	odd.Ints = func(t *model.Type, kind int, v []int64) []int64 {
		if len(v) == 0 || !cols[t.ID] || r.Intn(3) == 0 {
			return v
		}
		i := r.Intn(len(v))
		w := append([]int64(nil), v...)
		sign := int64(1 - 2*r.Intn(2))
		switch {
		case t.Kind == model.Short:
			w[i] = sign*(1<<15+1) + sign*(model.RandBits(r, 1+r.Intn(62))&(1<<60-1))
		case t.Kind == model.Int:
			w[i] = sign*(1<<31+1) + sign*(model.RandBits(r, 1+r.Intn(62))&(1<<60-1))
		case t.Kind == model.Date:
			w[i] = sign*(1<<31+1) + sign*(model.RandBits(r, 1+r.Intn(62))&(1<<60-1))
		case t.Kind == model.Timestamp && kind == refdec.Secondary:
			w[i] = int64(1e9+r.Intn(1e9)) << 3
			if r.Intn(3) == 0 {
				w[i] = int64(11+r.Intn(1<<20))<<3 | 7
			}
		case kind == refdec.Length || kind == refdec.Data && (t.Kind == model.String || t.Kind == model.Char || t.Kind == model.Varchar):
			w[i] += 1 << uint(20+r.Intn(43))
		default:
			return v
		}
		k.hit[t.ID] = true
		return w
	}
	odd.Data = func(t *model.Type, kind int, b []byte) []byte {
		if t.Kind != model.Decimal || kind != refdec.Data || len(b) == 0 || !cols[t.ID] || r.Intn(3) == 0 {
			return b
		}
		// a varint over 64 bits
		i := r.Intn(len(b))
		for i > 0 && b[i-1]&0x80 != 0 {
			i--
		}
		e := i
		for b[e]&0x80 != 0 {
			e++
		}
		long := make([]byte, 9, 30)
		r.Read(long)
		for j := range long {
			long[j] |= 0x80
		}
		switch r.Intn(3) {
		case 0: // 64 to 70 bits
			long = append(long, 2+byte(r.Intn(126)))
		case 1:
			long = append(long, 0x80|byte(r.Intn(128)), 1+byte(r.Intn(127)))
		default:
			for j := r.Intn(8); j >= 0; j-- {
				long = append(long, 0x80|byte(r.Intn(128)))
			}
			long = append(long, 1+byte(r.Intn(127)))
		}
		k.hit[t.ID] = true
		return append(append(append([]byte(nil), b[:i]...), long...), b[e+1:]...)
	}
	k.check(c, k.encode(c, what, odd), what)
}
