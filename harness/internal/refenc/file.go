package refenc

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/wire"
)

type Options struct {
	Kind       int // 0 none, 1 zlib
	Block      int
	Stride     int // 0 without row index
	StripeRows []int
	Bloom      bool
	Gaps       bool // bytes between stripes
	NoStats    bool
	NoHasNull  bool
	OmitEmpty  bool // streams without bytes are left out
	KeepAll    bool // present streams are kept if there are no nulls
	Shuffle    bool
	Meta       int // bytes of user metadata
	SmallChunk bool
	Style      *Style
	DictEither bool // choose dictionary by stripe
	Precise    bool // column statistics of nulls are exact
	Padding    byte // bits after the last of booleans
	PadLists   bool
	Later      bool // fields of later versions of the format
	Metadata   int  // bytes of the metadata section, a small one if 0
	Odd        *Odd
	Jump       func() uint64 // bytes before a stripe and the tail which are in the file only
	JumpIn     func() uint64 // bytes of a bloom filter which are in the file only
}

// String has no addresses
func (o Options) String() string {
	type plain Options
	p := plain(o)
	p.Style, p.Odd, p.Jump, p.JumpIn = nil, nil, nil, nil
	s := fmt.Sprintf("%+v", p)
	if o.Style != nil {
		s += fmt.Sprintf(" style %+v", *o.Style)
	}
	if o.Odd != nil {
		s += " odd"
	}
	return s
}

func RandOptions(r *rand.Rand, rows int) Options {
	o := Options{Kind: r.Intn(2), Block: []int{64, 200, 1000, 4096, 65536, 262144}[r.Intn(6)]}
	if r.Intn(2) == 0 {
		o.Stride = []int{1, 3, 8, 10, 100, 1000, 10000, 1 + r.Intn(700)}[r.Intn(8)]
	}
	left := rows
	for left > 0 {
		n := left
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(left)
		}
		if r.Intn(12) == 0 {
			o.StripeRows = append(o.StripeRows, 0)
		}
		o.StripeRows = append(o.StripeRows, n)
		left -= n
	}
	if r.Intn(10) == 0 {
		o.StripeRows = append(o.StripeRows, 0)
	}
	o.Bloom = r.Intn(4) == 0
	o.Gaps = r.Intn(3) == 0
	o.NoStats = r.Intn(6) == 0
	o.NoHasNull = r.Intn(4) == 0
	o.OmitEmpty = r.Intn(2) == 0
	o.KeepAll = r.Intn(3) == 0
	o.Shuffle = r.Intn(3) == 0
	o.SmallChunk = r.Intn(3) == 0
	o.DictEither = r.Intn(2) == 0
	o.Precise = r.Intn(2) == 0
	if r.Intn(5) == 0 {
		o.Padding = byte(r.Intn(256))
	}
	if r.Intn(8) == 0 {
		o.Meta = []int{10, 20000, 70000}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		s := RandStyle(r)
		o.Style = &s
	}
	o.Later = r.Intn(3) == 0
	if r.Intn(12) == 0 {
		o.Metadata = 1 + r.Intn(40000)
	}
	return o
}

// Odd are features of files which readers may not have, and faults. Its functions may be nil.
type Odd struct {
	Codec int                                              // kind of compression instead
	Pack  func(b []byte) []byte                            // compresses a chunk, nil if it can't
	Kind  func(t *model.Type) int                          // of type in the footer, -1 for its own
	Enc   func(t *model.Type, enc model.Enc) int           // of a column in a stripe
	V1    func(t *model.Type) bool                         // integers in the old encoding
	Ints  func(t *model.Type, kind int, v []int64) []int64 // instead in a stream
	Keep  func(t *model.Type, kind int, n int) int         // of n values of other streams
	Data  func(t *model.Type, kind int, b []byte) []byte   // instead in a stream
	Drop  func(t *model.Type, kind int) bool               // a stream
}

type stream struct {
	kind  int
	col   uint32
	raw   []byte // compressed
	spans []span
}

type span struct{ data, at int } // start in data and in raw of a chunk

type enc struct {
	r       *rand.Rand
	o       Options
	t       *model.Type
	streams []*stream
	encs    []model.Enc
	dict    []int
	index   [][][]uint64 // positions by column and stride
	rows    int
	nulls   []bool
	counts  []uint64
	odd     Odd
	v1      bool
}

func (e *enc) compress(data []byte) (raw []byte, spans []span) {
	if e.o.Kind == 0 {
		return data, nil
	}
	for at := 0; at < len(data); {
		n := e.o.Block
		if e.o.SmallChunk {
			n = 1 + e.r.Intn(e.o.Block)
		}
		if n > len(data)-at {
			n = len(data) - at
		}
		spans = append(spans, span{at, len(raw)})
		raw = append(raw, e.chunk(data[at:at+n])...)
		at += n
		if e.o.SmallChunk && e.r.Intn(30) == 0 { // without data
			if e.r.Intn(2) == 0 || e.odd.Pack != nil {
				raw = append(raw, 1, 0, 0)
			} else if c := deflate(nil, 6); len(c) <= e.o.Block {
				raw = append(raw, byte(len(c)<<1), 0, 0)
				raw = append(raw, c...)
			}
		}
	}
	return
}

var deflaters sync.Map // of levels

func deflate(b []byte, level int) []byte {
	var buf bytes.Buffer
	p, _ := deflaters.LoadOrStore(level, &sync.Pool{New: func() interface{} {
		w, _ := flate.NewWriter(nil, level)
		return w
	}})
	w := p.(*sync.Pool).Get().(*flate.Writer)
	defer p.(*sync.Pool).Put(w)
	w.Reset(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func (e *enc) chunk(b []byte) []byte {
	if e.odd.Pack != nil {
		c, h := e.odd.Pack(b), 0
		if h = len(c) << 1; c == nil || len(c) > e.o.Block || e.r.Intn(4) == 0 {
			c, h = b, len(b)<<1|1
		}
		return append([]byte{byte(h), byte(h >> 8), byte(h >> 16)}, c...)
	}
	c := deflate(b, []int{1, 6, 9, 0, -2}[e.r.Intn(5)])
	orig := len(c) >= len(b) && e.r.Intn(4) != 0 || e.r.Intn(10) == 0 || len(c) > e.o.Block
	h := len(c) << 1
	if orig {
		c, h = b, len(b)<<1|1
	}
	return append([]byte{byte(h), byte(h >> 8), byte(h >> 16)}, c...)
}

func (e *enc) add(t *model.Type, kind int, data []byte) *stream {
	s := &stream{kind: kind, col: t.ID}
	if e.odd.Data != nil {
		data = e.odd.Data(t, kind, data)
	}
	s.raw, s.spans = e.compress(data)
	if e.odd.Drop != nil && e.odd.Drop(t, kind) {
		return s
	}
	if len(s.raw) == 0 && e.o.OmitEmpty {
		return s
	}
	e.streams = append(e.streams, s)
	return s
}

// pos is the position of an offset in data
func (e *enc) pos(s *stream, off int) []uint64 {
	if e.o.Kind == 0 {
		return []uint64{uint64(off)}
	}
	i := sort.Search(len(s.spans), func(i int) bool { return s.spans[i].data > off }) - 1
	if i < 0 {
		return []uint64{0, 0}
	}
	return []uint64{uint64(s.spans[i].at), uint64(off - s.spans[i].data)}
}

func (e *enc) ints(t *model.Type, kind int, vals []int64, signed bool, at []int) {
	st := RandStyle(e.r)
	if e.o.Style != nil {
		st = *e.o.Style
	}
	if e.odd.Ints != nil {
		vals = e.odd.Ints(t, kind, vals)
	}
	var m *Marked
	if e.v1 {
		m = IntsV1(e.r, vals, signed)
	} else {
		m = Ints(e.r, vals, signed, st)
	}
	s := e.add(t, kind, m.B)
	e.mark(t, at, func(k int) []uint64 {
		off, skip := m.At(k)
		return append(e.pos(s, off), uint64(skip))
	})
}

func (e *enc) keep(t *model.Type, kind, n int) int {
	if e.odd.Keep != nil {
		return e.odd.Keep(t, kind, n)
	}
	return n
}

func (e *enc) bools(t *model.Type, kind int, vals []bool, at []int) {
	if k := e.keep(t, kind, len(vals)); k < len(vals) {
		vals = vals[:k&^7] // others would be of the last byte
	}
	m := Bytes(e.r, PackBools(vals, e.o.Padding))
	s := e.add(t, kind, m.B)
	e.mark(t, at, func(k int) []uint64 {
		off, skip := m.At(k / 8)
		return append(e.pos(s, off), uint64(skip), uint64(k%8))
	})
}

func (e *enc) raw(t *model.Type, kind int, vals [][]byte, at []int) {
	var data []byte
	offs := []int{0}
	for _, v := range vals[:e.keep(t, kind, len(vals))] {
		data = append(data, v...)
		offs = append(offs, len(data))
	}
	s := e.add(t, kind, data)
	e.mark(t, at, func(k int) []uint64 {
		if k >= len(offs) {
			k = len(offs) - 1
		}
		return e.pos(s, offs[k])
	})
}

func (e *enc) mark(t *model.Type, at []int, f func(k int) []uint64) {
	if e.o.Stride == 0 || at == nil {
		return
	}
	for i := 0; i*e.o.Stride < e.rows; i++ {
		if len(e.index[t.ID]) <= i {
			e.index[t.ID] = append(e.index[t.ID], nil)
		}
		e.index[t.ID][i] = append(e.index[t.ID][i], f(at[i*e.o.Stride])...)
	}
}

// col encodes values, at is the number of them before each row of stripe
func (e *enc) col(t *model.Type, vals []model.Val, at []int) {
	e.encs[t.ID] = model.DefaultEnc(t.Kind)
	e.v1 = e.odd.V1 != nil && e.encs[t.ID] == model.DirectV2 && e.odd.V1(t)
	if e.v1 {
		e.encs[t.ID] = model.Direct
	}
	var pres []model.Val
	present := make([]bool, len(vals))
	before := make([]int, len(vals)+1)
	for i, v := range vals {
		before[i+1] = before[i]
		if v != nil {
			present[i] = true
			pres = append(pres, v)
			before[i+1]++
		} else {
			e.nulls[t.ID] = true
		}
	}
	e.counts[t.ID] += uint64(len(pres))
	if e.o.Stride > 0 {
		e.mark(t, at, func(int) []uint64 { return nil })
	}
	if len(pres) != len(vals) || e.o.KeepAll && t.Nullable {
		e.bools(t, refdec.Present, present, at)
		nat := make([]int, len(at))
		for i, x := range at {
			nat[i] = before[x]
		}
		at = nat
	}

	ints := func(f func(v model.Val) int64) []int64 {
		l := make([]int64, len(pres))
		for i, v := range pres {
			l[i] = f(v)
		}
		return l
	}
	switch t.Kind {
	case model.Boolean:
		l := make([]bool, len(pres))
		for i, v := range pres {
			l[i] = v.(bool)
		}
		e.bools(t, refdec.Data, l, at)
	case model.Byte:
		l := make([]byte, len(pres))
		for i, v := range pres {
			l[i] = v.(byte)
		}
		m := Bytes(e.r, l[:e.keep(t, refdec.Data, len(l))])
		s := e.add(t, refdec.Data, m.B)
		e.mark(t, at, func(k int) []uint64 {
			off, skip := m.At(k)
			return append(e.pos(s, off), uint64(skip))
		})
	case model.Short:
		e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return int64(v.(int16)) }), true, at)
	case model.Int:
		e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return int64(v.(int32)) }), true, at)
	case model.Long:
		e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return v.(int64) }), true, at)
	case model.Date:
		e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return int64(v.(model.Day)) }), true, at)
	case model.Float, model.Double:
		l := make([][]byte, len(pres))
		for i, v := range pres {
			if t.Kind == model.Float {
				l[i] = binary.LittleEndian.AppendUint32(nil, uint32(v.(model.F32)))
			} else {
				l[i] = binary.LittleEndian.AppendUint64(nil, uint64(v.(model.F64)))
			}
		}
		e.raw(t, refdec.Data, l, at)
	case model.String, model.Varchar, model.Char, model.Binary:
		str := func(v model.Val) string {
			if b, ok := v.(model.Bin); ok {
				return string(b)
			}
			return v.(string)
		}
		dict := t.Enc == model.DictionaryV2
		if e.o.DictEither && t.Kind != model.Binary {
			dict = e.r.Intn(2) == 0
		}
		if dict {
			e.dictionary(t, pres, str, ints, at)
			break
		}
		l := make([][]byte, len(pres))
		for i, v := range pres {
			l[i] = []byte(str(v))
		}
		e.raw(t, refdec.Data, l, at)
		e.ints(t, refdec.Length, ints(func(v model.Val) int64 { return int64(len(str(v))) }), false, at)
	case model.Decimal:
		l := make([][]byte, len(pres))
		for i, v := range pres {
			l[i] = wire.AppendUvarint(nil, zig(v.(model.Dec).U))
		}
		e.raw(t, refdec.Data, l, at)
		e.ints(t, refdec.Secondary, ints(func(v model.Val) int64 { return int64(v.(model.Dec).S) }), true, at)
	case model.Timestamp:
		e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return v.(model.TS).S }), true, at)
		e.ints(t, refdec.Secondary, ints(func(v model.Val) int64 { return int64(PackNanos(v.(model.TS).N)) }), false, at)
	case model.Struct:
		for j, k := range t.Kids {
			l := make([]model.Val, len(pres))
			for i, v := range pres {
				l[i] = v.(model.Row)[j]
			}
			e.col(k, l, at)
		}
	case model.List, model.Map:
		var kids [2][]model.Val
		lens := make([]int64, len(pres))
		ends := make([]int, len(pres)+1)
		for i, v := range pres {
			switch x := v.(type) {
			case model.Lst:
				kids[0] = append(kids[0], x...)
				lens[i] = int64(len(x))
			case model.Mp:
				kids[0] = append(kids[0], x.K...)
				kids[1] = append(kids[1], x.V...)
				lens[i] = int64(len(x.K))
			}
			ends[i+1] = ends[i] + int(lens[i])
		}
		e.ints(t, refdec.Length, lens, false, at)
		kat := make([]int, len(at))
		for i, x := range at {
			kat[i] = ends[x]
		}
		for j, k := range t.Kids {
			e.col(k, kids[j], kat)
		}
	}
}

func (e *enc) dictionary(t *model.Type, pres []model.Val, str func(model.Val) string, ints func(func(model.Val) int64) []int64, at []int) {
	e.encs[t.ID] = model.DictionaryV2
	if e.v1 {
		e.encs[t.ID] = model.Dictionary
	}
	ids := map[string]int{}
	var words []string
	for _, v := range pres {
		s := str(v)
		if _, ok := ids[s]; !ok {
			ids[s] = 0
			words = append(words, s)
		}
	}
	for i := e.r.Intn(4) - 1; i > 0; i-- { // never used
		s := model.GenString(e.r, 21+i)
		if _, ok := ids[s]; !ok {
			ids[s] = 0
			words = append(words, s)
		}
	}
	if e.r.Intn(2) == 0 {
		sort.Strings(words)
	} else {
		e.r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
	}
	var data [][]byte
	var lens []int64
	for i, w := range words {
		ids[w] = i
		data = append(data, []byte(w))
		lens = append(lens, int64(len(w)))
	}
	e.dict[t.ID] = len(words)
	e.ints(t, refdec.Data, ints(func(v model.Val) int64 { return int64(ids[str(v)]) }), false, at)
	e.ints(t, refdec.Length, lens, false, nil)
	e.raw(t, refdec.DictData, data, nil)
}

// PackNanos has a number of trailing zeros less one in 3 bits
func PackNanos(n uint32) uint64 {
	if n == 0 {
		return 0
	}
	z := 0
	v := uint64(n)
	for v%10 == 0 && z < 8 {
		v /= 10
		z++
	}
	if z < 2 {
		return uint64(n) << 3
	}
	return v<<3 | uint64(z-1)
}

// later adds fields no reader knows yet, which are to be skipped
func (e *enc) later(w *wire.W) *wire.W {
	if !e.o.Later || e.r.Intn(2) == 0 {
		return w
	}
	switch n := 60 + e.r.Intn(3000); e.r.Intn(3) {
	case 0:
		w.U(n, e.r.Uint64()>>uint(e.r.Intn(64)))
	case 1:
		w.S(n, strings.Repeat("x", e.r.Intn(20)))
	default:
		w.M(n, (&wire.W{}).U(1, 7).S(2, "y"))
	}
	return w
}

// File is what was encoded, and where its parts are
type File struct {
	B                          []byte
	Stripes                    [][4]uint64 // offset, index, data, footer lengths
	FooterAt, FooterLen, PSLen int
	Segs                       []Seg // where parts of B are in the file
	base                       uint64
}

// Seg is where the bytes from At on are
type Seg struct {
	At  int
	Off uint64
}

func (f *File) jump(n uint64) {
	f.base += n
	f.Segs = append(f.Segs, Seg{len(f.B), uint64(len(f.B)) + f.base})
}

// Encode makes a file of rows
func Encode(r *rand.Rand, root *model.Type, rows []model.Val, o Options) *File {
	types := root.Flat()
	f := &File{B: []byte("ORC")}
	e := &enc{r: r, o: o, t: root, nulls: make([]bool, len(types)), counts: make([]uint64, len(types))}
	if o.Odd != nil {
		e.odd = *o.Odd
	}
	footer := &wire.W{}
	footer.U(1, 3)
	stripeRows := o.StripeRows
	if stripeRows == nil {
		stripeRows = []int{len(rows)}
	}
	var infos []*wire.W
	at := 0
	for _, n := range stripeRows {
		if o.Gaps && r.Intn(2) == 0 {
			f.B = append(f.B, make([]byte, r.Intn(40))...)
		}
		if o.Jump != nil {
			f.jump(o.Jump())
		}
		info, lens := e.stripe(f, rows[at:at+n])
		infos = append(infos, info)
		f.Stripes = append(f.Stripes, lens)
		at += n
	}
	if o.Jump != nil {
		f.jump(o.Jump())
	}
	footer.U(2, uint64(len(f.B)-3)+f.base)
	for _, i := range infos {
		footer.M(3, e.later(i))
	}
	for _, t := range types {
		w := &wire.W{}
		kind := int(t.Kind)
		if e.odd.Kind != nil {
			if k := e.odd.Kind(t); k >= 0 {
				kind = k
			}
		}
		w.U(1, uint64(kind))
		var subs []uint64
		for _, k := range t.Kids {
			subs = append(subs, uint64(k.ID))
		}
		if len(subs) != 0 {
			w.Packed(2, subs)
		}
		if t.Kind == model.Struct {
			for _, n := range t.Names {
				w.S(3, n)
			}
		}
		switch t.Kind {
		case model.Char, model.Varchar:
			w.U(4, 100)
		case model.Decimal:
			w.U(5, 18)
			w.U(6, 4)
		}
		footer.M(4, e.later(w))
	}
	for i := 0; i < o.Meta; i += 5000 {
		n := o.Meta - i
		if n > 5000 {
			n = 5000
		}
		b := make([]byte, n)
		r.Read(b)
		footer.M(5, (&wire.W{}).S(1, "key").B(2, b))
	}
	footer.U(6, uint64(len(rows)))
	if !o.NoStats {
		for i := range types {
			w := &wire.W{}
			w.U(1, e.counts[i])
			if !o.NoHasNull {
				h := uint64(0)
				if e.nulls[i] || !o.Precise || types[i].Nullable && o.KeepAll {
					h = 1
				}
				w.U(10, h)
			}
			footer.M(7, e.later(w))
		}
	}
	if o.Stride > 0 {
		footer.U(8, uint64(o.Stride))
	} else if r.Intn(2) == 0 {
		footer.U(8, 0)
	}
	footer.U(9, 0)

	md := (&wire.W{}).M(1, &wire.W{})
	if o.Metadata > 0 {
		b := make([]byte, o.Metadata)
		r.Read(b)
		md.B(99, b)
	}
	meta, _ := e.compress(md.Bytes())
	if o.Metadata == 0 && r.Intn(2) == 0 {
		meta = nil
	}
	e.later(footer)
	f.B = append(f.B, meta...)
	fb, _ := e.compress(footer.Bytes())
	f.FooterAt, f.FooterLen = len(f.B), len(fb)
	f.B = append(f.B, fb...)
	ps := &wire.W{}
	codec := o.Kind
	if e.odd.Codec != 0 {
		codec = e.odd.Codec
	}
	ps.U(1, uint64(len(fb))).U(2, uint64(codec))
	if o.Kind != 0 || r.Intn(2) == 0 {
		ps.U(3, uint64(o.Block))
	}
	if r.Intn(2) == 0 {
		ps.Packed(4, []uint64{0, 12})
	} else {
		ps.U(4, 0).U(4, 12)
	}
	ps.U(5, uint64(len(meta))).U(6, []uint64{7, 0, 6, 9, 1 << 30}[r.Intn(5)])
	e.later(ps)
	ps.S(8000, "ORC")
	f.PSLen = len(ps.Bytes())
	f.B = append(f.B, ps.Bytes()...)
	f.B = append(f.B, byte(f.PSLen))
	return f
}

func (e *enc) stripe(f *File, rows []model.Val) (info *wire.W, lens [4]uint64) {
	types := e.t.Flat()
	e.streams, e.rows = nil, len(rows)
	e.encs = make([]model.Enc, len(types))
	e.dict = make([]int, len(types))
	e.index = make([][][]uint64, len(types))
	at := make([]int, len(rows)+1)
	for i := range at {
		at[i] = i
	}
	e.col(e.t, rows, at)
	data := e.streams
	if e.o.Shuffle {
		e.r.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	}
	var index []*stream
	for _, t := range types {
		if e.o.Stride > 0 && len(rows) > 0 {
			w := &wire.W{}
			for _, p := range e.index[t.ID] {
				en := &wire.W{}
				if e.r.Intn(2) == 0 {
					en.Packed(1, p)
				} else {
					for _, x := range p {
						en.U(1, x)
					}
				}
				if !e.o.NoStats {
					en.M(2, (&wire.W{}).U(1, 0).U(10, 1))
				}
				w.M(1, e.later(en))
			}
			raw, _ := e.compress(w.Bytes())
			index = append(index, &stream{kind: refdec.RowIndex, col: t.ID, raw: raw})
		}
		if e.o.Bloom {
			b := make([]byte, e.r.Intn(60))
			e.r.Read(b)
			k := refdec.Bloom
			if e.r.Intn(2) == 0 {
				k = refdec.BloomUtf8
			}
			index = append(index, &stream{kind: k, col: t.ID, raw: b})
		}
	}
	lens[0] = uint64(len(f.B)) + f.base
	foot := &wire.W{}
	if e.o.JumpIn != nil {
		n := e.o.JumpIn()
		foot.M(1, (&wire.W{}).U(1, refdec.Bloom).U(2, uint64(len(types)-1)).U(3, n))
		lens[1] += n
		f.jump(n)
	}
	for i, s := range append(index, data...) {
		f.B = append(f.B, s.raw...)
		w := &wire.W{}
		w.U(1, uint64(s.kind)).U(2, uint64(s.col)).U(3, uint64(len(s.raw)))
		foot.M(1, e.later(w))
		if i < len(index) {
			lens[1] += uint64(len(s.raw))
		} else {
			lens[2] += uint64(len(s.raw))
		}
	}
	for i := range types {
		w := &wire.W{}
		enc := int(e.encs[i])
		if e.odd.Enc != nil {
			enc = e.odd.Enc(types[i], e.encs[i])
		}
		w.U(1, uint64(enc))
		if e.encs[i] == model.DictionaryV2 || e.encs[i] == model.Dictionary || e.r.Intn(4) == 0 {
			w.U(2, uint64(e.dict[i]))
		}
		foot.M(2, e.later(w))
	}
	e.later(foot)
	if e.r.Intn(2) == 0 {
		foot.S(3, []string{"UTC", "America/Los_Angeles"}[e.r.Intn(2)])
	}
	fb, _ := e.compress(foot.Bytes())
	f.B = append(f.B, fb...)
	lens[3] = uint64(len(fb))
	info = &wire.W{}
	info.U(1, lens[0]).U(2, lens[1]).U(3, lens[2]).U(4, lens[3]).U(5, uint64(len(rows)))
	return
}
