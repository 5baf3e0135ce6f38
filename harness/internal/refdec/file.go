package refdec

import (
	"encoding/binary"

	"verif/harness/internal/model"
	"verif/harness/internal/wire"
)

const (
	Present = iota
	Data
	Length
	DictData
	DictCount
	Secondary
	RowIndex
	Bloom
	BloomUtf8
)

type File struct {
	Raw                []byte
	PSLen              int
	PS                 wire.Msg
	Kind, Block        int
	FooterLen, MetaLen uint64
	FooterAt           uint64
	Footer             wire.Msg
	Types              []*model.Type
	Rows, ContentLen   uint64
	HeaderLen          uint64
	Stride             uint64
	HasStride          bool
	Stats              []wire.Msg
	Stripes            []*Stripe
	Values             []model.Val // rows, after Decode
}

type Stream struct {
	Kind   int
	Col    uint32
	Len    uint64
	Offset uint64
	Raw    []byte
	Data   []byte
	Chunks []Chunk
}

type Stripe struct {
	Offset, IndexLen, DataLen, FooterLen, Rows uint64
	Streams                                    []*Stream
	Encs                                       []model.Enc
	DictSizes                                  []uint64
	Cols                                       []*Col
	byKey                                      map[[2]int]*Stream
	Values                                     []model.Val
}

// Col is what was decoded of a column in a stripe
type Col struct {
	N       int // rows of it, without those of null parents
	Present []bool
	Vals    []model.Val // of N, nil is null
	RowsAt  []int       // number of rows of it before each row of parent's top level, RowsAt[rows] is N
	Seqs    []*Seq      // streams but present, in order of positions
	Runs    []Run
}

type Seq struct {
	Kind  int
	Type  byte // 'i' signed ints, 'u' unsigned ints, 'b' bytes, 'z' bools, 'r' raw
	Ints  []int64
	Bytes []byte
	Bools []bool
	At    []int // raw: offset of each value, with one more for the end
}

func (s *Stripe) stream(col uint32, kind int) *Stream { return s.byKey[[2]int{int(col), kind}] }

func isIndex(kind int) bool { return kind == RowIndex || kind == Bloom || kind == BloomUtf8 }

// Parse reads metadata, and checks it's consistent
func Parse(b []byte) (f *File, err error) {
	f = &File{Raw: b}
	if len(b) < 4 || string(b[:3]) != "ORC" {
		return nil, errf("file does not start with magic")
	}
	f.PSLen = int(b[len(b)-1])
	psAt := len(b) - 1 - f.PSLen
	if psAt < 3 {
		return nil, errf("postscript of %d bytes in file of %d", f.PSLen, len(b))
	}
	if f.PS, err = wire.Parse(b[psAt : len(b)-1]); err != nil {
		return nil, errf("postscript: %v", err)
	}
	if m := string(f.PS.B(8000)); m != "ORC" {
		return nil, errf("postscript magic %q", m)
	}
	f.Kind, f.Block = int(f.PS.U(2)), int(f.PS.U(3))
	if f.Kind != 0 && (f.Block <= 0 || f.Block >= 1<<23) {
		return nil, errf("compression block size %d", f.Block)
	}
	vs, err := f.PS.Us(4)
	if err != nil || len(vs) != 2 || vs[0] != 0 || (vs[1] != 11 && vs[1] != 12) {
		return nil, errf("postscript version %v %v", vs, err)
	}
	f.FooterLen, f.MetaLen = f.PS.U(1), f.PS.U(5)
	if f.FooterLen+f.MetaLen > uint64(psAt-3) {
		return nil, errf("footer of %d bytes and metadata of %d in file of %d", f.FooterLen, f.MetaLen, len(b))
	}
	f.FooterAt = uint64(psAt) - f.FooterLen
	fb, _, err := Decompress(f.Kind, b[f.FooterAt:psAt], f.Block)
	if err != nil {
		return nil, errf("footer: %v", err)
	}
	if f.Footer, err = wire.Parse(fb); err != nil {
		return nil, errf("footer: %v", err)
	}
	f.HeaderLen, f.ContentLen, f.Rows = f.Footer.U(1), f.Footer.U(2), f.Footer.U(6)
	f.Stride, f.HasStride = f.Footer.U(8), f.Footer.Has(8)
	if f.Stats, err = f.Footer.Msgs(7); err != nil {
		return nil, errf("statistics: %v", err)
	}
	if err = f.parseTypes(); err != nil {
		return nil, err
	}
	if len(f.Stats) != 0 && len(f.Stats) != len(f.Types) {
		return nil, errf("%d statistics of %d types", len(f.Stats), len(f.Types))
	}
	stripes, err := f.Footer.Msgs(3)
	if err != nil {
		return nil, errf("stripes: %v", err)
	}
	var rows uint64
	for i, m := range stripes {
		s := &Stripe{Offset: m.U(1), IndexLen: m.U(2), DataLen: m.U(3), FooterLen: m.U(4), Rows: m.U(5)}
		if err = f.parseStripe(s); err != nil {
			return nil, errf("stripe %d: %v", i, err)
		}
		rows += s.Rows
		f.Stripes = append(f.Stripes, s)
	}
	if rows != f.Rows {
		return nil, errf("stripes have %d rows, footer tells %d", rows, f.Rows)
	}
	return f, nil
}

func (f *File) parseTypes() error {
	ms, err := f.Footer.Msgs(4)
	if err != nil {
		return errf("types: %v", err)
	}
	if len(ms) == 0 {
		return errf("no types")
	}
	for i, m := range ms {
		f.Types = append(f.Types, &model.Type{Kind: model.Kind(m.U(1)), ID: uint32(i)})
	}
	parents := make([]int, len(ms))
	for i, m := range ms {
		t := f.Types[i]
		subs, err := m.Us(2)
		if err != nil {
			return errf("type %d: %v", i, err)
		}
		for _, s := range subs {
			if int(s) <= i || int(s) >= len(ms) {
				return errf("type %d has subtype %d", i, s)
			}
			parents[s]++
			t.Kids = append(t.Kids, f.Types[s])
		}
		for _, n := range m.Bs(3) {
			t.Names = append(t.Names, string(n))
		}
		ok := true
		switch t.Kind {
		case model.Struct:
			ok = len(t.Names) == len(t.Kids)
		case model.List:
			ok = len(t.Kids) == 1 && len(t.Names) == 0
		case model.Map:
			ok = len(t.Kids) == 2 && len(t.Names) == 0
		default:
			ok = len(t.Kids) == 0 && len(t.Names) == 0
		}
		if !ok || t.Kind > model.Char || t.Kind == model.Union {
			return errf("type %d of kind %d has %d subtypes and %d names", i, t.Kind, len(t.Kids), len(t.Names))
		}
	}
	for i := 1; i < len(parents); i++ {
		if parents[i] != 1 {
			return errf("type %d has %d parents", i, parents[i])
		}
	}
	// pre-order
	for i, t := range f.Types[0].Flat() {
		if t.ID != uint32(i) {
			return errf("types are not in pre-order at %d", i)
		}
	}
	return nil
}

func (f *File) parseStripe(s *Stripe) error {
	end := s.Offset + s.IndexLen + s.DataLen + s.FooterLen
	if s.Offset < 3 || end < s.Offset || end > f.FooterAt-f.MetaLen {
		return errf("[%d, %d) is not before the footer at %d", s.Offset, end, f.FooterAt)
	}
	if s.Rows == 0 && s.FooterLen == 0 {
		return nil
	}
	fat := s.Offset + s.IndexLen + s.DataLen
	fb, _, err := Decompress(f.Kind, f.Raw[fat:end], f.Block)
	if err != nil {
		return errf("footer: %v", err)
	}
	m, err := wire.Parse(fb)
	if err != nil {
		return errf("footer: %v", err)
	}
	encs, err := m.Msgs(2)
	if err != nil {
		return errf("encodings: %v", err)
	}
	if len(encs) != len(f.Types) {
		return errf("%d encodings of %d columns", len(encs), len(f.Types))
	}
	for _, e := range encs {
		s.Encs = append(s.Encs, model.Enc(e.U(1)))
		s.DictSizes = append(s.DictSizes, e.U(2))
	}
	streams, err := m.Msgs(1)
	if err != nil {
		return errf("streams: %v", err)
	}
	s.byKey = map[[2]int]*Stream{}
	at, inData := s.Offset, false
	var index, data uint64
	for _, sm := range streams {
		st := &Stream{Kind: int(sm.U(1)), Col: uint32(sm.U(2)), Len: sm.U(3), Offset: at}
		if int(st.Col) >= len(f.Types) {
			return errf("stream of column %d", st.Col)
		}
		if isIndex(st.Kind) {
			if inData {
				return errf("index stream of column %d after data streams", st.Col)
			}
			index += st.Len
		} else {
			if !inData && index != s.IndexLen {
				return errf("index streams have %d bytes, index length is %d", index, s.IndexLen)
			}
			inData = true
			data += st.Len
		}
		if st.Len > fat-at {
			return errf("stream %d of column %d is over the stripe", st.Kind, st.Col)
		}
		st.Raw = f.Raw[at : at+st.Len]
		if st.Kind != Bloom && st.Kind != BloomUtf8 {
			if st.Data, st.Chunks, err = Decompress(f.Kind, st.Raw, f.Block); err != nil {
				return errf("stream %d of column %d: %v", st.Kind, st.Col, err)
			}
		}
		key := [2]int{int(st.Col), st.Kind}
		if s.byKey[key] != nil {
			return errf("two streams %d of column %d", st.Kind, st.Col)
		}
		s.byKey[key] = st
		s.Streams = append(s.Streams, st)
		at += st.Len
	}
	if index != s.IndexLen || data != s.DataLen {
		return errf("streams have %d and %d bytes, index and data lengths are %d and %d", index, data, s.IndexLen, s.DataLen)
	}
	return nil
}

// Decode reads all rows
func (f *File) Decode() error {
	for i, s := range f.Stripes {
		if s.Rows == 0 {
			continue
		}
		if err := f.decodeStripe(s); err != nil {
			return errf("stripe %d: %v", i, err)
		}
		f.Values = append(f.Values, s.Values...)
	}
	return nil
}

func (f *File) decodeStripe(s *Stripe) error {
	s.Cols = make([]*Col, len(f.Types))
	n := int(s.Rows)
	at := make([]int, n+1)
	for i := range at {
		at[i] = i
	}
	c, err := f.decodeCol(s, f.Types[0], n, at)
	if err != nil {
		return err
	}
	s.Values = c.Vals
	return nil
}

// decodeCol decodes n rows of the column, at is their numbers before each row of the stripe
func (f *File) decodeCol(s *Stripe, t *model.Type, n int, at []int) (c *Col, err error) {
	c = &Col{N: n, RowsAt: at}
	s.Cols[t.ID] = c
	fail := func(kind int, err error) error { return errf("column %d %s stream %d: %v", t.ID, t.Kind, kind, err) }

	allowed := map[int]bool{Present: true}
	defer func() {
		if err != nil {
			return
		}
		for _, st := range s.Streams {
			if st.Col == t.ID && !isIndex(st.Kind) && !allowed[st.Kind] {
				err = errf("column %d %s has stream of kind %d", t.ID, t.Kind, st.Kind)
			}
		}
	}()

	count := n
	if st := s.stream(t.ID, Present); st != nil {
		bs, used, err := Bools(st.Data, n)
		if err != nil {
			return nil, fail(Present, err)
		}
		if used != len(st.Data) {
			return nil, fail(Present, errf("%d bytes left over", len(st.Data)-used))
		}
		c.Present = bs
		count = 0
		for _, v := range bs {
			if v {
				count++
			}
		}
	}
	data := func(kind int) []byte {
		allowed[kind] = true
		st := s.stream(t.ID, kind)
		if st == nil {
			return nil
		}
		return st.Data
	}
	ints := func(kind int, n int, signed bool) ([]int64, error) {
		b := data(kind)
		v, used, runs, err := Ints(b, n, signed)
		if err != nil {
			return nil, fail(kind, err)
		}
		if used != len(b) {
			return nil, fail(kind, errf("%d bytes left over", len(b)-used))
		}
		c.Runs = append(c.Runs, runs...)
		ty := byte('u')
		if signed {
			ty = 'i'
		}
		c.Seqs = append(c.Seqs, &Seq{Kind: kind, Type: ty, Ints: v})
		return v, nil
	}
	raw := func(kind int, lens []int64) ([][]byte, error) {
		b := data(kind)
		q := &Seq{Kind: kind, Type: 'r', Bytes: b}
		var vs [][]byte
		o := 0
		for _, l := range lens {
			if l < 0 || int64(len(b)-o) < l {
				return nil, fail(kind, errf("has %d bytes, value of %d at %d", len(b), l, o))
			}
			q.At = append(q.At, o)
			vs = append(vs, b[o:o+int(l)])
			o += int(l)
		}
		q.At = append(q.At, o)
		if o != len(b) {
			return nil, fail(kind, errf("%d bytes left over", len(b)-o))
		}
		c.Seqs = append(c.Seqs, q)
		return vs, nil
	}
	enc := s.Encs[t.ID]
	wantEnc := model.DefaultEnc(t.Kind)
	dictOK := t.Kind == model.String || t.Kind == model.Char || t.Kind == model.Varchar
	if enc != wantEnc && !(dictOK && enc == model.DictionaryV2) {
		return nil, errf("column %d %s has encoding %d", t.ID, t.Kind, enc)
	}

	vals := make([]model.Val, count)
	switch t.Kind {
	case model.Boolean:
		b := data(Data)
		v, used, err := Bools(b, count)
		if err != nil {
			return nil, fail(Data, err)
		}
		if used != len(b) {
			return nil, fail(Data, errf("%d bytes left over", len(b)-used))
		}
		for i := range vals {
			vals[i] = v[i]
		}
		c.Seqs = append(c.Seqs, &Seq{Kind: Data, Type: 'z', Bools: v})
	case model.Byte:
		b := data(Data)
		v, used, err := Bytes(b, count)
		if err != nil {
			return nil, fail(Data, err)
		}
		if used != len(b) {
			return nil, fail(Data, errf("%d bytes left over", len(b)-used))
		}
		for i := range vals {
			vals[i] = v[i]
		}
		c.Seqs = append(c.Seqs, &Seq{Kind: Data, Type: 'b', Bytes: v})
	case model.Short, model.Int, model.Long, model.Date:
		v, err := ints(Data, count, true)
		if err != nil {
			return nil, err
		}
		for i, x := range v {
			ok := true
			switch t.Kind {
			case model.Short:
				vals[i], ok = int16(x), int64(int16(x)) == x
			case model.Int:
				vals[i], ok = int32(x), int64(int32(x)) == x
			case model.Date:
				vals[i], ok = model.Day(x), int64(int32(x)) == x
			default:
				vals[i] = x
			}
			if !ok {
				return nil, fail(Data, errf("value %d of %s", x, t.Kind))
			}
		}
	case model.Float, model.Double:
		w := int64(4)
		if t.Kind == model.Double {
			w = 8
		}
		lens := make([]int64, count)
		for i := range lens {
			lens[i] = w
		}
		bs, err := raw(Data, lens)
		if err != nil {
			return nil, err
		}
		for i, b := range bs {
			if w == 4 {
				vals[i] = model.F32(binary.LittleEndian.Uint32(b))
			} else {
				vals[i] = model.F64(binary.LittleEndian.Uint64(b))
			}
		}
	case model.String, model.Varchar, model.Char, model.Binary:
		if enc == model.DictionaryV2 {
			idx, err := ints(Data, count, false)
			if err != nil {
				return nil, err
			}
			seqs := c.Seqs
			size := int(s.DictSizes[t.ID])
			lens, err := ints(Length, size, false)
			if err != nil {
				return nil, err
			}
			words, err := raw(DictData, lens)
			if err != nil {
				return nil, err
			}
			c.Seqs = seqs // dictionary is not in positions
			for i, x := range idx {
				if x < 0 || x >= int64(len(words)) {
					return nil, fail(Data, errf("index %d in dictionary of %d", x, len(words)))
				}
				vals[i] = string(words[x])
			}
			break
		}
		lens, err := ints(Length, count, false)
		if err != nil {
			return nil, err
		}
		bs, err := raw(Data, lens)
		if err != nil {
			return nil, err
		}
		c.Seqs[0], c.Seqs[1] = c.Seqs[1], c.Seqs[0]
		for i, b := range bs {
			if t.Kind == model.Binary {
				vals[i] = model.Bin(b)
			} else {
				vals[i] = string(b)
			}
		}
	case model.Decimal:
		b := data(Data)
		var lens []int64
		o := 0
		for i := 0; i < count; i++ {
			u, k, err := wire.Uvarint(b[o:])
			if err != nil {
				return nil, fail(Data, errf("value %d: %v", i, err))
			}
			vals[i] = model.Dec{U: unzig(u)}
			lens = append(lens, int64(k))
			o += k
		}
		if _, err := raw(Data, lens); err != nil {
			return nil, err
		}
		sc, err := ints(Secondary, count, true)
		if err != nil {
			return nil, err
		}
		for i := range vals {
			d := vals[i].(model.Dec)
			d.S = int(sc[i])
			vals[i] = d
		}
	case model.Timestamp:
		secs, err := ints(Data, count, true)
		if err != nil {
			return nil, err
		}
		ns, err := ints(Secondary, count, false)
		if err != nil {
			return nil, err
		}
		for i := range vals {
			n := uint64(ns[i]) >> 3
			if z := ns[i] & 7; z != 0 {
				for ; z >= 0; z-- {
					n *= 10
				}
			}
			if n >= 1e9 {
				return nil, fail(Secondary, errf("nanoseconds %d", n))
			}
			vals[i] = model.TS{S: secs[i], N: uint32(n)}
		}
	case model.Struct:
		kidAt := c.valuesAt()
		rows := make([]model.Row, count)
		for i := range rows {
			rows[i] = make(model.Row, len(t.Kids))
		}
		for j, k := range t.Kids {
			kc, err := f.decodeCol(s, k, count, kidAt)
			if err != nil {
				return nil, err
			}
			for i := range rows {
				rows[i][j] = kc.Vals[i]
			}
		}
		for i := range vals {
			vals[i] = rows[i]
		}
	case model.List, model.Map:
		lens, err := ints(Length, count, false)
		if err != nil {
			return nil, err
		}
		before := make([]int, count+1)
		for i, l := range lens {
			if l < 0 || l > 1<<28 {
				return nil, fail(Length, errf("length %d", l))
			}
			before[i+1] = before[i] + int(l)
		}
		va := c.valuesAt()
		kidAt := make([]int, len(va))
		for i, x := range va {
			kidAt[i] = before[x]
		}
		total := before[count]
		var kids [2][]model.Val
		for j, k := range t.Kids {
			kc, err := f.decodeCol(s, k, total, kidAt)
			if err != nil {
				return nil, err
			}
			kids[j] = kc.Vals
		}
		for i := range vals {
			a, b := before[i], before[i+1]
			if t.Kind == model.List {
				vals[i] = model.Lst(kids[0][a:b:b])
			} else {
				vals[i] = model.Mp{K: kids[0][a:b:b], V: kids[1][a:b:b]}
			}
		}
	}

	if c.Present == nil {
		c.Vals = vals
		return c, nil
	}
	c.Vals = make([]model.Val, n)
	j := 0
	for i, p := range c.Present {
		if p {
			c.Vals[i] = vals[j]
			j++
		}
	}
	return c, nil
}

// valuesAt is the numbers of values which are not null before each row of stripe
func (c *Col) valuesAt() []int {
	if c.Present == nil {
		return c.RowsAt
	}
	before := make([]int, c.N+1)
	for i, p := range c.Present {
		before[i+1] = before[i]
		if p {
			before[i+1]++
		}
	}
	at := make([]int, len(c.RowsAt))
	for i, x := range c.RowsAt {
		at[i] = before[x]
	}
	return at
}

// Tiling checks the layout of a file by a writer which leaves no gaps
func (f *File) Tiling() error {
	if f.HeaderLen != 3 {
		return errf("header length %d", f.HeaderLen)
	}
	at := uint64(3)
	var content uint64
	for i, s := range f.Stripes {
		if s.Offset != at {
			return errf("stripe %d is at %d, should be at %d", i, s.Offset, at)
		}
		if s.Rows == 0 {
			return errf("stripe %d has no rows", i)
		}
		l := s.IndexLen + s.DataLen + s.FooterLen
		at += l
		content += l
	}
	if content != f.ContentLen {
		return errf("content length %d, stripes have %d", f.ContentLen, content)
	}
	if f.FooterAt-f.MetaLen != at {
		return errf("stripes end at %d, footer is at %d with metadata of %d", at, f.FooterAt, f.MetaLen)
	}
	return nil
}

// Index is a row index of a column in a stripe
func (f *File) Index(s *Stripe, col uint32) (entries []wire.Msg, ok bool, err error) {
	st := s.stream(col, RowIndex)
	if st == nil {
		return nil, false, nil
	}
	m, err := wire.Parse(st.Data)
	if err != nil {
		return nil, true, errf("row index of column %d: %v", col, err)
	}
	entries, err = m.Msgs(1)
	return entries, true, err
}

// CheckIndex follows positions of all entries. Returns the number of positions followed.
func (f *File) CheckIndex() (followed int, err error) {
	for si, s := range f.Stripes {
		if s.Rows == 0 {
			continue
		}
		want := int((s.Rows + f.Stride - 1) / f.Stride)
		for _, t := range f.Types {
			es, ok, err := f.Index(s, t.ID)
			if err != nil {
				return followed, err
			}
			if !ok {
				return followed, errf("stripe %d has no row index of column %d", si, t.ID)
			}
			if len(es) != want {
				return followed, errf("stripe %d column %d has %d index entries of %d rows by %d", si, t.ID, len(es), s.Rows, f.Stride)
			}
			for e, m := range es {
				if n := len(es); n > 48 && e >= 8 && e < n-4 && (uint64(e)*2654435761>>7)%uint64(n) >= 36 {
					continue // enough of them
				}
				pos, err := m.Us(1)
				if err != nil {
					return followed, errf("stripe %d column %d positions: %v", si, t.ID, err)
				}
				if err := f.follow(s, t, e*int(f.Stride), pos, &followed); err != nil {
					return followed, errf("stripe %d column %d %s stride %d (positions %v): %v", si, t.ID, t.Kind, e, pos, err)
				}
			}
		}
	}
	return followed, nil
}

func (f *File) follow(s *Stripe, t *model.Type, row int, pos []uint64, followed *int) error {
	c := s.Cols[t.ID]
	take := func(n int) ([]int, error) {
		if len(pos) < n {
			return nil, errf("too few positions")
		}
		var p []int
		for _, x := range pos[:n] {
			if x > 1<<40 {
				return nil, errf("position %d", x)
			}
			p = append(p, int(x))
		}
		pos = pos[n:]
		return p, nil
	}
	// start of the rest of a stream, and its remaining positions
	start := func(kind int, n int) (rest []byte, p []int, err error) {
		if f.Kind != 0 {
			n++
		}
		if p, err = take(n); err != nil {
			return nil, nil, err
		}
		var st *Stream = s.stream(t.ID, kind)
		if st == nil {
			st = &Stream{}
		}
		b := st.Raw
		if f.Kind != 0 {
			if p[0] > len(b) {
				return nil, nil, errf("stream %d position of chunk %d over %d", kind, p[0], len(b))
			}
			at := false
			for _, c := range st.Chunks {
				at = at || c.At == p[0]
			}
			if !at && p[0] != len(b) {
				return nil, nil, errf("stream %d position %d is not of a chunk", kind, p[0])
			}
			if b, _, err = Decompress(f.Kind, b[p[0]:], f.Block); err != nil {
				return nil, nil, err
			}
			p = p[1:]
		}
		if p[0] > len(b) {
			return nil, nil, errf("stream %d position %d over %d bytes", kind, p[0], len(b))
		}
		*followed++
		return b[p[0]:], p[1:], nil
	}
	bools := func(kind int, want []bool) error {
		rest, p, err := start(kind, 3)
		if err != nil {
			return err
		}
		if p[1] > 8 || p[0] > 130 {
			return errf("stream %d positions %v", kind, p)
		}
		if len(want) == 0 {
			return nil
		}
		skip := p[0]*8 + p[1]
		bs, used, err := Bools(rest, skip+len(want))
		if err != nil {
			return errf("stream %d: %v", kind, err)
		}
		if used != len(rest) {
			return errf("stream %d has %d bytes left over", kind, len(rest)-used)
		}
		for i, w := range want {
			if bs[skip+i] != w {
				return errf("stream %d value %d after the position is %t", kind, i, bs[skip+i])
			}
		}
		return nil
	}

	// a column of no rows has no streams, and whether it counts as having a PRESENT one can't be told
	if c.Present == nil && c.RowsAt[len(c.RowsAt)-1] == 0 {
		for _, p := range pos {
			if p != 0 {
				return errf("position %d of a column without rows", p)
			}
		}
		return nil
	}
	if c.Present != nil {
		if err := bools(Present, c.Present[c.RowsAt[row]:]); err != nil {
			return err
		}
	}
	k := c.valuesAt()[row]
	for _, q := range c.Seqs {
		switch q.Type {
		case 'z':
			if err := bools(q.Kind, q.Bools[k:]); err != nil {
				return err
			}
		case 'i', 'u':
			rest, p, err := start(q.Kind, 2)
			if err != nil {
				return err
			}
			if p[0] > 512 {
				return errf("stream %d positions %v", q.Kind, p)
			}
			want := q.Ints[k:]
			if len(want) == 0 {
				break
			}
			vs, used, _, err := Ints(rest, p[0]+len(want), q.Type == 'i')
			if err != nil {
				return errf("stream %d: %v", q.Kind, err)
			}
			if used != len(rest) {
				return errf("stream %d has %d bytes left over", q.Kind, len(rest)-used)
			}
			for i, w := range want {
				if vs[p[0]+i] != w {
					return errf("stream %d value %d after the position is %d, should be %d", q.Kind, i, vs[p[0]+i], w)
				}
			}
		case 'b':
			rest, p, err := start(q.Kind, 2)
			if err != nil {
				return err
			}
			if p[0] > 130 {
				return errf("stream %d positions %v", q.Kind, p)
			}
			want := q.Bytes[k:]
			if len(want) == 0 {
				break
			}
			vs, used, err := Bytes(rest, p[0]+len(want))
			if err != nil {
				return errf("stream %d: %v", q.Kind, err)
			}
			if used != len(rest) || string(vs[p[0]:]) != string(want) {
				return errf("stream %d values after the position are different", q.Kind)
			}
		case 'r':
			rest, _, err := start(q.Kind, 1)
			if err != nil {
				return err
			}
			if string(rest) != string(q.Bytes[q.At[k]:]) {
				return errf("stream %d position has %d bytes left, should be %d or is different", q.Kind, len(rest), len(q.Bytes)-q.At[k])
			}
		}
	}
	if len(pos) != 0 {
		return errf("%d positions left over", len(pos))
	}
	return nil
}
