package drive

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/encoding"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
	log "github.com/sirupsen/logrus"

	"verif/harness/internal/model"
)

// Quiet turns off logs of the library
func Quiet() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.ErrorLevel)
	Logs(log.PanicLevel)
}

// Logs sets the level of the library's logs
func Logs(l log.Level) {
	orc.SetLogLevel(l)
	column.SetLogLevel(l)
	common.SetLogLevel(l)
	encoding.SetLogLevel(l)
	orcio.SetLogLevel(l)
	stream.SetLogLevel(l)
}

// Schema makes the description, with ids numbered by the library
func Schema(t *model.Type) *api.TypeDescription {
	td := schema(t)
	if err := api.NormalizeSchema(td); err != nil {
		panic(err)
	}
	return td
}

func schema(t *model.Type) *api.TypeDescription {
	td := &api.TypeDescription{Kind: pb.Type_Kind(t.Kind), Encoding: pb.ColumnEncoding_Kind(t.Enc), HasNulls: t.Nullable}
	for i, k := range t.Kids {
		name := ""
		if i < len(t.Names) {
			name = t.Names[i]
		}
		td.AddChild(name, schema(k))
	}
	if t.Kind != model.Struct {
		td.ChildrenNames = nil
	}
	return td
}

// FromSchema is the model of a description
func FromSchema(td *api.TypeDescription) *model.Type {
	t := &model.Type{Kind: model.Kind(td.Kind), Nullable: td.HasNulls, Enc: model.Enc(td.Encoding), ID: td.Id}
	t.Names = append(t.Names, td.ChildrenNames...)
	for _, c := range td.Children {
		t.Kids = append(t.Kids, FromSchema(c))
	}
	return t
}

// WOpts are writer options
type WOpts struct {
	Zlib   bool
	Chunk  int
	Stripe int
	Index  bool
	Stride int
}

func (o WOpts) Config() config.WriterOptions {
	c := config.DefaultWriterOptions()
	c.CompressionKind = pb.CompressionKind_NONE
	if o.Zlib {
		c.CompressionKind = pb.CompressionKind_ZLIB
	}
	c.ChunkSize, c.StripeSize, c.WriteIndex, c.IndexStride = o.Chunk, o.Stripe, o.Index, o.Stride
	return c
}

func (o WOpts) String() string {
	return fmt.Sprintf("zlib=%t chunk=%d stripe=%d index=%t stride=%d", o.Zlib, o.Chunk, o.Stripe, o.Index, o.Stride)
}

func RandWOpts(r *rand.Rand, rows int) WOpts {
	o := WOpts{Zlib: r.Intn(2) == 0, Index: r.Intn(2) == 0, Stride: 1000}
	o.Chunk = []int{1 + r.Intn(10), 16 + r.Intn(100), 128, 1000, 4096, 65536, 262144}[r.Intn(7)]
	switch r.Intn(5) {
	case 0, 1:
		o.Stripe = 256 << 20
	case 2:
		o.Stripe = 1 + r.Intn(2000)
	default:
		o.Stripe = 500 + r.Intn(40000)
	}
	if o.Chunk < 64 && o.Zlib && rows > 2000 {
		o.Chunk = 64
	}
	if o.Stripe < 200 && rows > 100 {
		o.Stripe += 100 + rows
	}
	if o.Stripe < 50000 && o.Chunk > 4096 && rows > 60 { // a buffer of it is made for each stripe
		o.Chunk = 1024 + r.Intn(3000)
	}
	o.Stride = []int{1, 2, 7, 8, 10, 64, 100, 512, 1000, 10000, 1 + r.Intn(300)}[r.Intn(11)]
	return o
}

// VecStyle is how vectors are made
type VecStyle struct {
	Junk    *rand.Rand // values under nulls are anything
	RootVec bool       // structs without nulls have vectors too
	Omit    *rand.Rand // nullable structs without a null in a batch can have none
}

func present(rows []model.Val) bool {
	for _, x := range rows {
		if x == nil {
			return false
		}
	}
	return true
}

// ToVector makes a batch of rows
func ToVector(t *model.Type, rows []model.Val, st VecStyle) *api.ColumnVector {
	v := &api.ColumnVector{Id: t.ID, Kind: pb.Type_Kind(t.Kind)}
	if t.Kind == model.Struct {
		if t.Nullable || st.RootVec {
			v.Vector = make([]api.Value, len(rows))
			for i, x := range rows {
				v.Vector[i].Null = x == nil
			}
			if st.Omit != nil && st.Omit.Intn(2) == 0 && present(rows) {
				v.Vector = nil
			}
		}
		for j, k := range t.Kids {
			col := make([]model.Val, len(rows))
			under := make([]bool, len(rows))
			for i, x := range rows {
				if row, ok := x.(model.Row); ok {
					col[i] = row[j]
				} else {
					under[i] = true
				}
			}
			v.Children = append(v.Children, toVector(k, col, under, st))
		}
		return v
	}
	return toVector(t, rows, nil, st)
}

func toVector(t *model.Type, rows []model.Val, under []bool, st VecStyle) *api.ColumnVector {
	var v *api.ColumnVector
	if t.Kind == model.Struct {
		v = ToVector(t, rows, st)
		if under != nil && v.Vector != nil {
			for i, u := range under {
				if u && st.Junk != nil {
					v.Vector[i].Null = st.Junk.Intn(2) == 0
				}
			}
		}
		return v
	}
	v = &api.ColumnVector{Id: t.ID, Kind: pb.Type_Kind(t.Kind), Vector: make([]api.Value, len(rows))}
	for i, x := range rows {
		if x == nil {
			v.Vector[i].Null = true
			if st.Junk != nil {
				switch st.Junk.Intn(3) {
				case 0:
					v.Vector[i].V = ToValue(model.GenPresent(st.Junk, t, 1)[0])
				case 1:
					v.Vector[i].V = "junk"
				}
				if under != nil && under[i] && st.Junk.Intn(2) == 0 {
					v.Vector[i].Null = false
				}
			}
			continue
		}
		v.Vector[i].V = ToValue(x)
	}
	return v
}

// ToValue makes the value of the library's type
func ToValue(x model.Val) interface{} {
	switch v := x.(type) {
	case model.F32:
		return math.Float32frombits(uint32(v))
	case model.F64:
		return math.Float64frombits(uint64(v))
	case model.Bin:
		return []byte(v)
	case model.Dec:
		return api.Decimal64{Precision: v.U, Scale: v.S}
	case model.Day:
		return api.FromDays(int32(v))
	case model.TS:
		return api.Timestamp{Loc: time.UTC, Seconds: v.S, Nanos: uint64(v.N)}
	}
	return x
}

// FromValue makes the model of a value
func FromValue(k model.Kind, v interface{}) (model.Val, error) {
	switch k {
	case model.Boolean:
		if x, ok := v.(bool); ok {
			return x, nil
		}
	case model.Byte:
		if x, ok := v.(byte); ok {
			return x, nil
		}
	case model.Short:
		if x, ok := v.(int16); ok {
			return x, nil
		}
	case model.Int:
		if x, ok := v.(int32); ok {
			return x, nil
		}
	case model.Long:
		if x, ok := v.(int64); ok {
			return x, nil
		}
	case model.Float:
		if x, ok := v.(float32); ok {
			return model.F32(math.Float32bits(x)), nil
		}
	case model.Double:
		if x, ok := v.(float64); ok {
			return model.F64(math.Float64bits(x)), nil
		}
	case model.String, model.Varchar, model.Char:
		if x, ok := v.(string); ok {
			return x, nil
		}
	case model.Binary:
		if x, ok := v.([]byte); ok {
			return model.Bin(x), nil
		}
	case model.Decimal:
		if x, ok := v.(api.Decimal64); ok {
			return model.Dec{U: x.Precision, S: x.Scale}, nil
		}
	case model.Date:
		if x, ok := v.(api.Date); ok {
			t := time.Time(x)
			d := t.Unix() / 86400
			if t.Unix()%86400 != 0 {
				return nil, fmt.Errorf("date %v is not at midnight UTC", t)
			}
			if d != int64(int32(d)) {
				return nil, fmt.Errorf("date %v is over 32 bits", t)
			}
			return model.Day(d), nil
		}
	case model.Timestamp:
		if x, ok := v.(api.Timestamp); ok {
			if x.Nanos >= 1e9 {
				return nil, fmt.Errorf("timestamp has %d nanoseconds", x.Nanos)
			}
			return model.TS{S: x.Seconds, N: uint32(x.Nanos)}, nil
		}
	case model.List, model.Map:
		var n uint64
		switch x := v.(type) {
		case uint64:
			n = x
		case int:
			n = uint64(x)
		default:
			return nil, fmt.Errorf("%s has length of type %T", k, v)
		}
		return n, nil
	}
	return nil, fmt.Errorf("%s has value of type %T", k, v)
}

// FromVector makes rows of a batch read, of n rows
func FromVector(t *model.Type, v *api.ColumnVector, n int) ([]model.Val, error) {
	vals, err := fromVector(t, v, n, nil)
	return vals, err
}

func fromVector(t *model.Type, v *api.ColumnVector, n int, under []bool) ([]model.Val, error) {
	if v == nil {
		return nil, fmt.Errorf("column %d has no vector", t.ID)
	}
	if v.Id != t.ID || v.Kind != pb.Type_Kind(t.Kind) {
		return nil, fmt.Errorf("vector of column %d %s is of column %d %s", t.ID, t.Kind, v.Id, v.Kind)
	}
	if len(v.Children) != len(t.Kids) {
		return nil, fmt.Errorf("vector of column %d has %d children, should be %d", t.ID, len(v.Children), len(t.Kids))
	}
	vals := make([]model.Val, n)
	if t.Kind == model.Struct {
		nulls := under
		if len(v.Vector) != 0 {
			if len(v.Vector) != n {
				return nil, fmt.Errorf("struct column %d has %d rows, should be %d", t.ID, len(v.Vector), n)
			}
			nulls = make([]bool, n)
			for i := range nulls {
				nulls[i] = v.Vector[i].Null
				if under != nil && under[i] && !nulls[i] {
					return nil, fmt.Errorf("struct column %d row %d is not null, but its parent is", t.ID, i)
				}
			}
		}
		cols := make([][]model.Val, len(t.Kids))
		var err error
		for j, k := range t.Kids {
			if cols[j], err = fromVector(k, v.Children[j], n, nulls); err != nil {
				return nil, err
			}
		}
		for i := range vals {
			if nulls != nil && nulls[i] {
				continue
			}
			row := make(model.Row, len(t.Kids))
			for j := range cols {
				row[j] = cols[j][i]
			}
			vals[i] = row
		}
		return vals, nil
	}
	if len(v.Vector) != n {
		return nil, fmt.Errorf("column %d %s has %d rows, should be %d", t.ID, t.Kind, len(v.Vector), n)
	}
	var lens []int
	total := 0
	for i, x := range v.Vector {
		if under != nil && under[i] && !x.Null {
			return nil, fmt.Errorf("column %d row %d is not null, but its parent is", t.ID, i)
		}
		if x.Null {
			lens = append(lens, 0)
			continue
		}
		y, err := FromValue(t.Kind, x.V)
		if err != nil {
			return nil, fmt.Errorf("column %d row %d: %v", t.ID, i, err)
		}
		if l, ok := y.(uint64); ok {
			if l > 1<<30 {
				return nil, fmt.Errorf("column %d row %d has length %d", t.ID, i, l)
			}
			lens = append(lens, int(l))
			total += int(l)
			continue
		}
		vals[i] = y
	}
	if t.Kind != model.List && t.Kind != model.Map {
		return vals, nil
	}
	var kids [2][]model.Val
	for j, k := range t.Kids {
		var err error
		if kids[j], err = fromVector(k, v.Children[j], total, nil); err != nil {
			return nil, fmt.Errorf("elements of column %d: %v", t.ID, err)
		}
	}
	o := 0
	for i, x := range v.Vector {
		if x.Null {
			continue
		}
		a, b := o, o+lens[i]
		if t.Kind == model.List {
			vals[i] = model.Lst(kids[0][a:b:b])
		} else {
			vals[i] = model.Mp{K: kids[0][a:b:b], V: kids[1][a:b:b]}
		}
		o = b
	}
	return vals, nil
}

// Rows is the number of rows of a vector read
func Rows(t *model.Type, v *api.ColumnVector) int {
	if t.Kind != model.Struct || len(v.Vector) != 0 {
		return len(v.Vector)
	}
	for j, k := range t.Kids {
		if k.Kind != model.Struct || len(k.Kids) != 0 {
			if n := Rows(k, v.Children[j]); n != 0 {
				return n
			}
		}
	}
	return 0
}

// Split divides n rows in batches
func Split(r *rand.Rand, n int) []int {
	var l []int
	switch r.Intn(5) {
	case 0:
		return []int{n}
	case 1:
		for n > 0 {
			k := min(n, 1+r.Intn(5))
			l = append(l, k)
			n -= k
		}
	case 2:
		k := 1 + r.Intn(max(1, n))
		for n > 0 {
			l = append(l, min(n, k))
			n -= min(n, k)
		}
	default:
		for n > 0 {
			k := 1 + r.Intn(n)
			if r.Intn(6) == 0 {
				l = append(l, 0)
			}
			l = append(l, k)
			n -= k
		}
	}
	return l
}

// Write writes rows by batches to fs
func Write(t *model.Type, rows []model.Val, batches []int, o WOpts, st VecStyle, f orcio.File) error {
	w, err := orc.VerifNewWriter(Schema(t), o.Config(), f)
	if err != nil {
		return fmt.Errorf("new writer: %w", err)
	}
	at := 0
	for i, n := range batches {
		if err := w.Write(ToVector(t, rows[at:at+n], st)); err != nil {
			w.Close()
			return fmt.Errorf("batch %d: %w", i, err)
		}
		at += n
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("closing writer: %w", err)
	}
	return nil
}

// ROpts is how a file is read
type ROpts struct {
	Inc   []uint32 // nil all
	Cap   func() int
	Reuse bool // one vector
	Loc   *time.Location
}

// Included is Inc as set of all if nil
func Included(t *model.Type, inc []uint32) map[uint32]bool {
	m := map[uint32]bool{}
	if len(inc) == 0 {
		for _, x := range t.Flat() {
			m[x.ID] = true
		}
	}
	for _, i := range inc {
		m[i] = true
	}
	return m
}

// Batch reads one batch
func Batch(br orc.BatchReader, t *model.Type, vec *api.ColumnVector) (rows []model.Val, end bool, err error) {
	if end, err = br.Next(vec); err != nil {
		return nil, false, err
	}
	rows, verr := FromVector(t, vec, Rows(t, vec))
	if verr != nil {
		return nil, false, Wrong{verr}
	}
	return rows, end, nil
}

// Wrong is an error of what the library delivered, not of the library
type Wrong struct{ error }

// ReadAll reads to the end. Calls is the number of them.
func ReadAll(rd orc.Reader, o ROpts) (rows []model.Val, calls int, err error) {
	full := FromSchema(rd.GetSchema())
	t := model.Project(full, Included(full, o.Inc))
	capacity := 1000
	if o.Cap != nil {
		capacity = o.Cap()
	}
	opt := &api.BatchOption{Includes: o.Inc, RowSize: capacity, Loc: o.Loc}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		return nil, 0, err
	}
	defer br.Close()
	vec, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		return nil, 0, err
	}
	total := int(rd.NumberOfRows())
	for {
		got, end, err := Batch(br, t, vec)
		if err != nil {
			return rows, calls, err
		}
		calls++
		rows = append(rows, got...)
		if len(got) > capacity {
			return rows, calls, Wrong{fmt.Errorf("call %d delivered %d rows in a vector of %d", calls, len(got), capacity)}
		}
		if end != (len(rows) >= total) {
			return rows, calls, Wrong{fmt.Errorf("call %d with %d of %d rows has end %t", calls, len(rows), total, end)}
		}
		if end {
			return rows, calls, nil
		}
		if len(got) == 0 {
			return rows, calls, Wrong{fmt.Errorf("call %d delivered no rows, of %d are %d", calls, total, len(rows))}
		}
		if !o.Reuse {
			if o.Cap != nil {
				capacity = o.Cap()
			}
			if vec, err = rd.GetSchema().CreateVector(&api.BatchOption{Includes: o.Inc, RowSize: capacity}); err != nil {
				return rows, calls, err
			}
		}
	}
}

// Open opens a reader on data
func Open(data []byte) (orc.Reader, error) {
	return orc.VerifNewReader(NewFS(data).Handle())
}
