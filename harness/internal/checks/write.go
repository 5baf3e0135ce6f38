package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// C01: rows written are rows read

func roundTrip(c *rt.C, w *wcase) {
	data := w.write(c)
	w.eval(c)
	rd := open(c, data)
	readBack(c, rd, w.rows, drive.ROpts{Cap: capSource(c.R, len(w.rows)), Reuse: c.R.Intn(2) == 0})
	rd.Close()
}

func c01Mixed(c *rt.C) { roundTrip(c, genWrite(c, stdSchema(), 1500)) }

// one column at a time, with more rows
func c01Column(c *rt.C) { roundTrip(c, oneColumn(c, 6000)) }

func oneColumn(c *rt.C, most int) *wcase {
	so := model.SchemaOpts{MaxCols: 1}
	t := &model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{model.GenPrimitive(c.R, so)}}
	t.Kids[0].Nullable = c.R.Intn(3) == 0
	w := &wcase{t: t.Number()}
	w.fill(c, nRows(c.R, most))
	return w
}

// primitive root
func c01Root(c *rt.C) {
	w := &wcase{t: model.GenPrimitive(c.R, model.SchemaOpts{})}
	w.t.Nullable = c.R.Intn(2) == 0
	w.t.Number()
	w.fill(c, nRows(c.R, 2000))
	roundTrip(c, w)
}

// big ones: many columns, many rows, long values
func c01Big(c *rt.C) { roundTrip(c, bigCase(c, c.Idx)) }

func bigCase(c *rt.C, idx int) *wcase {
	r := c.R
	w := &wcase{}
	switch idx % 6 {
	case 0: // wide
		so := model.SchemaOpts{MaxCols: 1, MaxDepth: 1}
		t := &model.Type{Kind: model.Struct}
		for i := 0; i < 120+idx%3*40; i++ { // ids over a byte of varint
			k := model.GenSchema(r, so)
			t.Kids = append(t.Kids, k.Kids[0])
			t.Names = append(t.Names, fmt.Sprintf("col%d", i))
		}
		w.t = t.Number()
		w.fill(c, 150+r.Intn(300))
	case 1: // many rows
		w = oneColumn(c, 10)
		w.fill(c, 70000+r.Intn(30000))
		w.batches = bigBatches(r, len(w.rows))
		w.o.Chunk = max(w.o.Chunk, 200)
		w.o.Stripe = max(w.o.Stripe, 20000)
	case 2: // values over a chunk
		kinds := []model.Kind{model.String, model.Binary, model.Varchar, model.Char}
		k := &model.Type{Kind: kinds[r.Intn(4)], Nullable: r.Intn(2) == 0, Enc: model.DirectV2}
		if idx%24 == 2 {
			k.Kind = model.Binary
		}
		if k.Kind != model.Binary && r.Intn(2) == 0 {
			k.Enc = model.DictionaryV2
		}
		t := &model.Type{Kind: model.Struct, Names: []string{"s", "i"}, Kids: []*model.Type{k, {Kind: model.Long, Enc: model.DirectV2}}}
		w.t = t.Number()
		w.fill(c, 1+r.Intn(12))
		for _, row := range w.rows {
			if row.(model.Row)[0] == nil || r.Intn(3) == 0 {
				continue
			}
			s := bigString(r, []int{300000, 262144, 262145, 65536, 524288 + r.Intn(1000), 8192, 1<<20 + r.Intn(2), 2500000}[r.Intn(8)])
			if k.Kind == model.Binary {
				row.(model.Row)[0] = model.Bin(s)
			} else {
				row.(model.Row)[0] = s
			}
		}
		w.o.Chunk = max(w.o.Chunk, 1000)
		if idx%24 == 2 && k.Kind == model.Binary { // the longest chunks
			for _, row := range w.rows {
				if row.(model.Row)[0] != nil {
					b := make([]byte, 1<<21+r.Intn(1<<20))
					r.Read(b)
					row.(model.Row)[0] = model.Bin(b)
				}
			}
			w.o.Chunk, w.o.Zlib, w.o.Stripe = 1<<23-1, true, 256<<20
		}
	case 3: // deep
		t := model.GenPrimitive(r, model.SchemaOpts{})
		t.Nullable = r.Intn(2) == 0
		for d := 0; d < 25; d++ {
			t = &model.Type{Kind: model.Struct, Names: []string{"x"}, Kids: []*model.Type{t}, Nullable: d < 24 && r.Intn(2) == 0}
		}
		w.t = t.Number()
		w.fill(c, 500+r.Intn(1500))
	case 4: // dictionary of more strings than 2 bytes tell
		k := &model.Type{Kind: []model.Kind{model.String, model.Varchar, model.Char}[r.Intn(3)], Nullable: r.Intn(2) == 0, Enc: model.DictionaryV2}
		w.t = (&model.Type{Kind: model.Struct, Names: []string{"s"}, Kids: []*model.Type{k}}).Number()
		w.fill(c, 66000+r.Intn(20000))
		keys := r.Perm(len(w.rows))
		prefix := strings.Repeat("p", r.Intn(40))
		for i, row := range w.rows {
			if row.(model.Row)[0] != nil && r.Intn(200) != 0 {
				row.(model.Row)[0] = fmt.Sprintf("%s%d", prefix, keys[i])
			}
		}
		w.batches = bigBatches(r, len(w.rows))
		w.o.Chunk = max(w.o.Chunk, 1000)
		w.o.Stripe = []int{256 << 20, 300000}[r.Intn(2)]
	case 5: // more stripes than a byte tells, or more rows than 20 bits
		w = oneColumn(c, 10)
		if idx%12 == 5 {
			w.t = (&model.Type{Kind: model.Struct, Names: []string{"x"}, Kids: []*model.Type{{Kind: []model.Kind{model.Double, model.Float}[r.Intn(2)], Nullable: r.Intn(2) == 0, Enc: model.Direct}}}).Number()
			w.fill(c, 1500+r.Intn(2500))
			w.batches = drive.Split(r, len(w.rows))
			w.o.Stripe = 1 + r.Intn(8)
			w.o.Chunk = min(w.o.Chunk, w.o.Stripe)
			break
		}
		w.t = (&model.Type{Kind: model.Struct, Names: []string{"x"}, Kids: []*model.Type{{Kind: []model.Kind{model.Boolean, model.Byte, model.Date}[r.Intn(3)], Nullable: r.Intn(2) == 0, Enc: w.t.Kids[0].Enc}}}).Number()
		if w.t.Kids[0].Kind == model.Date {
			w.t.Kids[0].Enc = model.DirectV2
		} else {
			w.t.Kids[0].Enc = model.Direct
		}
		w.fill(c, 1<<20+r.Intn(1000))
		w.batches = [][]int{bigBatches(r, len(w.rows)), {len(w.rows)}}[r.Intn(2)]
		w.o.Chunk = max(w.o.Chunk, 10000)
		w.o.Stripe = max(w.o.Stripe, 200000)
		w.o.Stride = max(w.o.Stride, 5000)
	}
	return w
}

func bigBatches(r *rand.Rand, n int) []int {
	k := 1000 + r.Intn(20000)
	var l []int
	for n > 0 {
		l = append(l, min(n, k))
		n -= min(n, k)
	}
	return l
}

func bigString(r *rand.Rand, n int) string {
	var sb strings.Builder
	sb.Grow(n)
	for sb.Len() < n {
		switch r.Intn(3) {
		case 0:
			sb.WriteString(strings.Repeat(string(rune('a'+r.Intn(26))), 1+r.Intn(500)))
		default:
			for i := 0; i < 200; i++ {
				sb.WriteByte(byte(32 + r.Intn(95)))
			}
		}
	}
	return sb.String()[:n]
}

// with files of the operating system
func c01OS(c *rt.C) {
	dir, err := os.MkdirTemp("", "verif-os-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := genWrite(c, stdSchema(), 1500)
	if c.R.Intn(3) == 0 { // as most will be used
		w.o.Zlib, w.o.Chunk, w.o.Stripe = true, 262144, 256<<20
	}
	path := filepath.Join(dir, "f.orc")
	if c.R.Intn(2) == 0 { // written over a longer file
		os.WriteFile(path, make([]byte, 1<<20), 0644)
	}
	osWrite(c, path, w)
	w.eval(c)
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "opening a valid file failed: %v", err)
	}
	defer rd.Close()
	readBack(c, rd, w.rows, drive.ROpts{Cap: capSource(c.R, len(w.rows)), Reuse: c.R.Intn(2) == 0})
}

// c01Copy writes the batches of a reader as they were read, with the schema of the reader
func c01Copy(c *rt.C) {
	r := c.R
	m := &made{}
	if r.Intn(2) == 0 {
		w := genWrite(c, stdSchema(), 600)
		m.data, m.t, m.rows, m.desc = w.write(c), w.t, w.rows, w.String()
	} else {
		m.t = model.GenSchema(r, stdSchema())
		m.rows = model.GenCol(r, m.t, nRows(r, 300))
		o := refenc.RandOptions(r, len(m.rows))
		m.desc = fmt.Sprintf("%s; %d rows by the independent writer with %+v", m.t, len(m.rows), o)
		c.Note("%s", m.desc)
		m.data = refenc.Encode(r, m.t, m.rows, o).B
	}
	m.eval(c)
	for i := 0; i < 1+r.Intn(2); i++ {
		rd := open(c, m.data)
		caps := capSource(r, len(m.rows))
		s := newSession(c, rd, m.t, m.rows, nil, caps())
		o := drive.RandWOpts(r, len(m.rows))
		fs := drive.NewFS(nil)
		opts := o.Config()
		if len(m.rows) == 0 { // encodings are those of stripes
			setEncodings(m.t, rd.GetSchema())
		}
		wr, err := orc.VerifNewWriter(rd.GetSchema(), opts, fs.Handle())
		if err != nil {
			c.Fail("create error", "creating writer with the schema of a reader failed: %v", err)
		}
		calls := 0
		for {
			if r.Intn(3) == 0 {
				s.vector(caps())
			} else if r.Intn(3) == 0 {
				junkFill(r, s.vec)
			}
			at := s.at
			_, end := s.next()
			if err := wr.Write(s.vec); err != nil {
				c.Fail("write error", "writing the batch read at row %d of %d failed: %v", at, len(m.rows), err)
			}
			if end {
				break
			}
			if calls++; calls > len(m.rows)+10 {
				c.Fail("no end", "%d rows are not at end after %d calls", len(m.rows), calls)
			}
		}
		s.br.Close()
		if r.Intn(2) == 0 {
			rd.Close()
		}
		if err := wr.Close(); err != nil {
			c.Fail("close error", "closing writer failed: %v", err)
		}
		rd.Close()
		m.data = fs.Data
		c.Count("files copied", 1)
	}
	rd := open(c, m.data)
	defer rd.Close()
	readBack(c, rd, m.rows, drive.ROpts{Cap: capSource(r, len(m.rows)), Reuse: r.Intn(2) == 0})
}

func setEncodings(t *model.Type, td *api.TypeDescription) {
	td.Encoding = pb.ColumnEncoding_Kind(t.Enc)
	for i, k := range t.Kids {
		setEncodings(k, td.Children[i])
	}
}

func osWrite(c *rt.C, path string, w *wcase) {
	wr, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config())
	if err != nil {
		c.Fail("create error", "creating writer failed: %v", err)
	}
	at := 0
	for i, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)); err != nil {
			c.Fail("write error", "writing batch %d failed: %v", i, err)
		}
		at += n
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "closing writer failed: %v", err)
	}
	c.Count("files written", 1)
}

// C03: nulls

func nullSchema(r *rand.Rand, kind model.Kind) *model.Type {
	var gen func(d int) *model.Type
	leaf := func() *model.Type {
		k := kind
		if r.Intn(3) == 0 {
			return model.GenPrimitive(r, model.SchemaOpts{})
		}
		t := &model.Type{Kind: k, Enc: model.DefaultEnc(k)}
		if (k == model.String || k == model.Char || k == model.Varchar) && r.Intn(2) == 0 {
			t.Enc = model.DictionaryV2
		}
		return t
	}
	gen = func(d int) *model.Type {
		if d > 0 && (d >= 4 || r.Intn(5) < 3) {
			t := leaf()
			t.Nullable = r.Intn(4) != 0
			return t
		}
		t := &model.Type{Kind: model.Struct, Nullable: d > 0 && r.Intn(3) != 0}
		for i := 0; i < 1+r.Intn(3); i++ {
			t.Names = append(t.Names, string(rune('a'+i)))
			t.Kids = append(t.Kids, gen(d+1))
		}
		return t
	}
	return gen(0).Number()
}

var allKinds = []model.Kind{model.Boolean, model.Byte, model.Short, model.Int, model.Long, model.Float, model.Double, model.String, model.Binary,
	model.Timestamp, model.Decimal, model.Date, model.Varchar, model.Char}

func c03Nulls(c *rt.C) {
	r := c.R
	w := &wcase{t: nullSchema(r, allKinds[c.Idx%len(allKinds)])}
	n := nRows(r, 1200)
	if k := len(w.t.Flat()); k > 8 {
		n = n * 8 / k
	}
	w.fill(c, n)
	data := w.write(c)
	countNulls(c, w.t, w.rows)
	w.eval(c)
	rd := open(c, data)
	reuseRead(c, rd, w.t, w.rows)
	rd.Close()
}

// reuseRead reads all with one vector full of stale values, and maybe again after a seek
func reuseRead(c *rt.C, rd orc.Reader, t *model.Type, rows []model.Val) {
	r := c.R
	s := newSession(c, rd, t, rows, nil, capSource(r, len(rows))())
	defer s.br.Close()
	for pass := 0; pass < 2; pass++ {
		for {
			if r.Intn(3) == 0 {
				junkFill(r, s.vec)
			}
			if _, end := s.next(); end {
				break
			}
		}
		if len(rows) == 0 {
			break
		}
		s.seek(r.Intn(len(rows)))
	}
}

func countNulls(c *rt.C, t *model.Type, rows []model.Val) {
	for _, v := range rows {
		if v == nil {
			c.Count("nulls", 1)
			continue
		}
		if row, ok := v.(model.Row); ok {
			for j, k := range t.Kids {
				countNulls(c, k, row[j:j+1])
			}
		}
	}
}

// all patterns of nulls of 10 rows in a column in a struct, by index
func c03All(c *rt.C) {
	r := c.R
	kind := allKinds[c.Idx%len(allKinds)]
	pat := c.Idx / len(allKinds)
	k := &model.Type{Kind: kind, Enc: model.DefaultEnc(kind), Nullable: true}
	st := &model.Type{Kind: model.Struct, Nullable: true, Names: []string{"v"}, Kids: []*model.Type{k}}
	w := &wcase{t: (&model.Type{Kind: model.Struct, Names: []string{"s"}, Kids: []*model.Type{st}}).Number()}
	n := 6
	x := pat % 729 // each row: value, null, null struct
	vals := model.GenPresent(r, k, n)
	for i := 0; i < n; i++ {
		var row model.Row
		switch x % 3 {
		case 0:
			row = model.Row{model.Row{vals[i]}}
		case 1:
			row = model.Row{model.Row{nil}}
		case 2:
			row = model.Row{nil}
		}
		x /= 3
		w.rows = append(w.rows, row)
	}
	w.o = drive.WOpts{Zlib: r.Intn(2) == 0, Chunk: 1 + r.Intn(40), Stripe: []int{1, 10, 30, 1 << 20}[r.Intn(4)], Index: r.Intn(2) == 0, Stride: 1 + r.Intn(7)}
	w.batches = drive.Split(r, n)
	w.st.Junk = r
	c.Note("schema %s rows %s options %s", w.t, model.Show(model.Lst(w.rows)), w.o)
	data := w.write(c)
	countNulls(c, w.t, w.rows)
	w.eval(c)
	rd := open(c, data)
	reuseRead(c, rd, w.t, w.rows)
	f := decode(c, data)
	if d := model.DiffRows(w.rows, f.Values); d != "" {
		c.Fail("independent reader", "%s", d)
	}
}

// files of other writers, with present streams there or not
func c03Ref(c *rt.C) {
	so := stdSchema()
	m := makeRef(c, so, 1000)
	countNulls(c, m.t, m.rows)
	m.eval(c)
	rd := open(c, m.data)
	reuseRead(c, rd, m.t, m.rows)
	rd.Close()
}

// C07: independent reader

func c07Check(c *rt.C, w *wcase) {
	data := w.write(c)
	w.eval(c)
	checkByRef(c, w, data)
}

func c07Mixed(c *rt.C)  { c07Check(c, genWrite(c, stdSchema(), 1500)) }
func c07Column(c *rt.C) { c07Check(c, oneColumn(c, 6000)) }

func c07Big(c *rt.C) {
	r := c.R
	if c.Idx%2 == 0 {
		c07Check(c, bigCase(c, c.Idx/2))
		return
	}
	w := oneColumn(c, 10)
	w.fill(c, 30000+r.Intn(30000))
	w.batches = bigBatches(r, len(w.rows))
	w.o.Chunk = max(w.o.Chunk, 200)
	w.o.Stripe = max(w.o.Stripe, 20000)
	c07Check(c, w)
}

func sameType(a, b *model.Type) string {
	if a.Kind != b.Kind || len(a.Kids) != len(b.Kids) {
		return fmt.Sprintf("type %d is %s, should be %s", a.ID, b, a)
	}
	if a.ID != b.ID {
		return fmt.Sprintf("type %d has id %d", a.ID, b.ID)
	}
	if a.Kind == model.Struct {
		if len(a.Names) != len(b.Names) {
			return fmt.Sprintf("type %d has %d names, should be %d", a.ID, len(b.Names), len(a.Names))
		}
		for i := range a.Names {
			if a.Names[i] != b.Names[i] {
				return fmt.Sprintf("type %d field %d has name %q, should be %q", a.ID, i, b.Names[i], a.Names[i])
			}
		}
	}
	for i := range a.Kids {
		if d := sameType(a.Kids[i], b.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func checkByRef(c *rt.C, w *wcase, data []byte) {
	f := decode(c, data)
	observe(c, f)
	if d := sameType(w.t, f.Types[0]); d != "" {
		c.Fail("schema", "%s", d)
	}
	if d := model.DiffRows(w.rows, f.Values); d != "" {
		c.Fail("rows differ", "%s", d)
	}
	kind := 0
	if w.o.Zlib {
		kind = 1
	}
	if f.Kind != kind {
		c.Fail("compression", "file has compression %d, should be %d", f.Kind, kind)
	}
	for i, s := range f.Stripes {
		for _, t := range w.t.Flat() {
			want := model.DefaultEnc(t.Kind)
			if t.Enc == model.DictionaryV2 {
				want = t.Enc
			}
			if s.Encs[t.ID] != want {
				c.Fail("encoding", "stripe %d column %d %s has encoding %d, should be %d", i, t.ID, t.Kind, s.Encs[t.ID], want)
			}
		}
	}
}

// C09: structure

func c09Check(c *rt.C, w *wcase) {
	data := w.write(c)
	w.eval(c)
	f := decode(c, data)
	observe(c, f)
	if err := f.Tiling(); err != nil {
		c.Fail("tiling", "%v", err)
	}
	if f.Rows != uint64(len(w.rows)) {
		c.Fail("rows", "file has %d rows, %d were written", f.Rows, len(w.rows))
	}
	if len(f.Stats) != len(f.Types) || len(f.Types) != len(w.t.Flat()) {
		c.Fail("columns", "file has %d types and %d statistics of %d columns", len(f.Types), len(f.Stats), len(w.t.Flat()))
	}
	if len(w.rows) == 0 && len(f.Stripes) != 0 {
		c.Fail("stripes", "file without rows has %d stripes", len(f.Stripes))
	}
	if f.HasStride != w.o.Index && f.Stride != 0 || w.o.Index && f.Stride != uint64(w.o.Stride) {
		c.Fail("stride", "stride %d is in the file of %s", f.Stride, w.o)
	}
	for i, s := range f.Stripes {
		if !w.o.Index && s.IndexLen != 0 {
			c.Fail("index", "stripe %d has index of %d bytes", i, s.IndexLen)
		}
		for _, t := range w.t.Flat() {
			if w.o.Index {
				if _, ok, err := f.Index(s, t.ID); !ok || err != nil {
					c.Fail("index", "stripe %d has no index of column %d: %v", i, t.ID, err)
				}
			}
		}
	}
	kind := 0
	if w.o.Zlib {
		kind = 1
		if f.Block != w.o.Chunk {
			c.Fail("block size", "compression block size is %d of %s", f.Block, w.o)
		}
	}
	if f.Kind != kind {
		c.Fail("compression", "compression is %d of %s", f.Kind, w.o)
	}
	if string(data[:3]) != "ORC" {
		c.Fail("magic", "file starts with %q", data[:3])
	}
}

func c09Mixed(c *rt.C) { c09Check(c, genWrite(c, stdSchema(), 1500)) }

// many stripes, and rows which end with the stripe
func c09Stripes(c *rt.C) {
	w := genWrite(c, stdSchema(), 600)
	w.o.Stripe = 1 + c.R.Intn(300)
	w.o.Chunk = min(w.o.Chunk, 4096)
	c.Note("options are %s", w.o)
	c09Check(c, w)
}

// C18: schema

func c18Schema(c *rt.C) {
	r := c.R
	so := model.SchemaOpts{MaxCols: 1 + r.Intn(12), MaxDepth: 1 + r.Intn(5), Names: true}
	w := &wcase{t: model.GenSchema(r, so)}
	w.fill(c, r.Intn(20))
	data := w.write(c)
	c.Eval(model.Hash(model.HashInit, fmt.Sprintf("%s %q", w.t, w.t.Flat()[0].Names)))
	c.Sample("%s %q", w.t, w.t.Names)
	c18Read(c, data, w.t, true)
	c.Count("columns", len(w.t.Flat()))
	f := decode(c, data)
	if d := sameType(w.t, f.Types[0]); d != "" {
		c.Fail("schema in file", "%s", d)
	}
}

func c18Read(c *rt.C, data []byte, t *model.Type, written bool) {
	rd := open(c, data)
	defer rd.Close()
	got := drive.FromSchema(rd.GetSchema())
	if d := sameType(t, got); d != "" {
		c.Fail("schema", "%s", d)
	}
	a, b := t.Flat(), got.Flat()
	for i := range a {
		if written && a[i].Nullable != b[i].Nullable {
			c.Fail("nulls", "column %d %s was written with nulls %t, is read with %t", i, a[i].Kind, a[i].Nullable, b[i].Nullable)
		}
	}
	// vectors are of the schema
	vec, err := rd.GetSchema().CreateVector(&api.BatchOption{RowSize: 3})
	if err != nil {
		c.Fail("vector", "%v", err)
	}
	var walk func(t *model.Type, v *api.ColumnVector)
	walk = func(t *model.Type, v *api.ColumnVector) {
		if v == nil || v.Id != t.ID || int(v.Kind) != int(t.Kind) || len(v.Children) != len(t.Kids) {
			c.Fail("vector", "vector of column %d %s is not as schema", t.ID, t.Kind)
		}
		for i := range t.Kids {
			walk(t.Kids[i], v.Children[i])
		}
	}
	walk(t, vec)
}
