package checks

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C23: what cannot be stored

// column is a vector of a batch with its type and rows which are under a null
type column struct {
	v      *api.ColumnVector
	t      *model.Type
	under  []bool
	parent *api.ColumnVector
	index  int
}

func columns(t *model.Type, v *api.ColumnVector, n int) []column {
	var l []column
	var walk func(t *model.Type, v *api.ColumnVector, under []bool, parent *api.ColumnVector, index int)
	walk = func(t *model.Type, v *api.ColumnVector, under []bool, parent *api.ColumnVector, index int) {
		l = append(l, column{v, t, under, parent, index})
		if v.Vector != nil && t.Kind == model.Struct {
			u := make([]bool, n)
			for i := range u {
				u[i] = under[i] || v.Vector[i].Null
			}
			under = u
		}
		for i, k := range t.Kids {
			walk(k, v.Children[i], under, v, i)
		}
	}
	walk(t, v, make([]bool, n), nil, 0)
	return l
}

// values of all the types a value can have, and some it can't
var anyValues = []interface{}{true, byte(1), int8(1), int16(1), uint16(1), int32(1), uint32(1), int64(1), uint64(1), int(1), uint(1),
	float32(1), float64(1), "text", []byte("bytes"), api.Date(time.Unix(0, 0).UTC()), api.Timestamp{}, api.Decimal64{}, nil, time.Unix(0, 0), struct{}{},
	[]int64{1}, map[string]int{}, new(int64), &api.Decimal64{}, []api.Value{}, &api.Date{}, [1]byte{}, complex(1, 1), time.Duration(1), []string{"a"}}

// wrongValue is of another type than the kind has
func wrongValue(r *rand.Rand, k model.Kind) interface{} {
	for {
		v := anyValues[r.Intn(len(anyValues))]
		if _, err := drive.FromValue(k, v); err != nil || v == nil {
			return v
		}
	}
}

// spoil makes a batch of n rows not fit, in a single place. It gives what was done, or nothing if it could not.
func spoil(r *rand.Rand, t *model.Type, v *api.ColumnVector, n int) string {
	cols := columns(t, v, n)
	col := cols[r.Intn(len(cols))]
	// a row which is present as far as its parents are
	row := -1
	for try := 0; try < 20 && n > 0; try++ {
		if i := r.Intn(n); !col.under[i] {
			row = i
			break
		}
	}
	where := fmt.Sprintf("column %d %s", col.v.Id, col.t.Kind)
	switch r.Intn(13) {
	case 0, 1, 2: // value of a wrong type
		if col.t.Kind == model.Struct || row < 0 {
			return ""
		}
		x := wrongValue(r, col.t.Kind)
		col.v.Vector[row] = api.Value{V: x}
		return fmt.Sprintf("%s row %d of %d is a %T", where, row, n, x)
	case 3, 4: // null in a column without
		if col.t.Nullable || row < 0 || col.v.Vector == nil {
			return ""
		}
		col.v.Vector[row].Null = true
		return fmt.Sprintf("%s row %d of %d is null", where, row, n)
	case 5, 6: // a row too few or too many
		others := 0 // it isn't wrong if it's the only one
		for _, x := range cols {
			if x.v.Vector != nil && x.v != col.v {
				others++
			}
		}
		if others == 0 || col.v.Vector == nil || n == 0 {
			return ""
		}
		if r.Intn(2) == 0 {
			k := r.Intn(n)
			col.v.Vector = col.v.Vector[:k]
			return fmt.Sprintf("%s has %d rows of %d", where, k, n)
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			col.v.Vector = append(col.v.Vector, col.v.Vector[r.Intn(n)])
		}
		return fmt.Sprintf("%s has %d rows of %d", where, len(col.v.Vector), n)
	case 7: // no vector
		if col.parent == nil {
			return ""
		}
		if r.Intn(2) == 0 {
			col.parent.Children[col.index] = nil
			return where + " is nil"
		}
		if n == 0 || col.v.Vector == nil || col.t.Kind == model.Struct {
			return ""
		}
		others := 0
		for _, x := range cols {
			if x.v.Vector != nil && x.v != col.v {
				others++
			}
		}
		if others == 0 {
			return ""
		}
		col.v.Vector = nil
		return where + " has no values"
	case 8: // a child too few or too many
		if r.Intn(2) == 0 && len(col.v.Children) > 0 {
			i := r.Intn(len(col.v.Children))
			col.v.Children = append(append([]*api.ColumnVector(nil), col.v.Children[:i]...), col.v.Children[i+1:]...)
			return fmt.Sprintf("%s is without child %d", where, i)
		}
		col.v.Children = append(col.v.Children, &api.ColumnVector{Id: col.v.Id + 1, Kind: pb.Type_INT, Vector: make([]api.Value, n)})
		return where + " has a child more"
	case 9: // kind
		k := pb.Type_Kind(r.Intn(19))
		if k == col.v.Kind {
			return ""
		}
		col.v.Kind = k
		return fmt.Sprintf("%s is of kind %s", where, k)
	case 10: // id
		col.v.Id += uint32(1 + r.Intn(3))
		return fmt.Sprintf("%s has id %d", where, col.v.Id)
	case 11: // two children swapped
		if k := len(col.v.Children); k > 1 {
			i, j := r.Intn(k), r.Intn(k)
			if i != j {
				col.v.Children[i], col.v.Children[j] = col.v.Children[j], col.v.Children[i]
				return fmt.Sprintf("%s has children %d and %d swapped", where, i, j)
			}
		}
		return ""
	default: // a value the format does not hold
		if row < 0 {
			return ""
		}
		switch col.t.Kind {
		case model.Date:
			y := []int{5900000, -5900000, 100000000, -100000000, 12000000}[r.Intn(5)]
			col.v.Vector[row] = api.Value{V: api.NewDate(y, 1, 1)}
			return fmt.Sprintf("%s row %d is of year %d", where, row, y)
		case model.Timestamp:
			n := []uint64{1e9, 1e9 + 1, 1 << 61, math.MaxUint64, 999999999 + 1<<61}[r.Intn(5)]
			col.v.Vector[row] = api.Value{V: api.Timestamp{Loc: time.UTC, Nanos: n}}
			return fmt.Sprintf("%s row %d has %d nanoseconds", where, row, n)
		}
		return ""
	}
}

func c23Case(c *rt.C, w *wcase) {
	r := c.R
	w.st.Junk = nil
	control := drive.NewFS(nil)
	if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, control.Handle()); err != nil {
		c.Fail("write error", "%v", err)
	}
	fs := drive.NewFS(nil)
	wr, err := orc.VerifNewWriter(drive.Schema(w.t), w.o.Config(), fs.Handle())
	if err != nil {
		c.Fail("write error", "%v", err)
	}
	spoiled, last := 0, ""
	refused := func() {
		for k := r.Intn(3); k > 0; k-- {
			n := 1 + r.Intn(20)
			if r.Intn(8) == 0 {
				n = 0
			}
			if r.Intn(8) == 0 {
				n = 1 + r.Intn(600)
			}
			var v *api.ColumnVector
			what := ""
			for try := 0; try < 10 && what == ""; try++ {
				v = drive.ToVector(w.t, model.GenCol(r, w.t, n), w.st)
				what = spoil(r, w.t, v, n)
			}
			if r.Intn(100) == 0 {
				v, what = nil, "no batch"
			}
			if what == "" {
				continue
			}
			var err error
			if p, st := rt.Try(func() { err = wr.Write(v) }); p != nil {
				c.Fail("panic", "batch of %d rows whose %s: panic %v\n%s", n, what, p, st)
			}
			if err == nil {
				c.Fail("not refused", "batch of %d rows whose %s was accepted", n, what)
			}
			spoiled++
			last = what
			c.Count("batches refused", 1)
			c.Eval(model.Hash(w.hash(), what))
		}
	}
	done := 0
	for i, n := range w.batches {
		refused()
		vec := drive.ToVector(w.t, w.rows[done:done+n], w.st)
		done += n
		if err := wr.Write(vec); err != nil {
			c.Fail("valid batch refused", "batch %d after %d refused ones, the last with %s: %v", i, spoiled, last, err)
		}
	}
	refused()
	if err := wr.Close(); err != nil {
		c.Fail("close error", "after %d refused batches, the last with %s: %v", spoiled, last, err)
	}
	if d := diffBytes(control.Data, fs.Data); d != "" {
		c.Fail("trace of refused batch", "after %d refused batches, the last with %s: %s", spoiled, last, d)
	}
	c.Sample("%s; %d batches refused, the last whose %s", w, spoiled, last)
	// closed, nothing more is taken
	before := len(fs.Data)
	var after error
	if p, st := rt.Try(func() { after = wr.Write(drive.ToVector(w.t, model.GenCol(r, w.t, 1), w.st)) }); p != nil {
		c.Fail("panic", "write after close: %v\n%s", p, st)
	}
	if after == nil || len(fs.Data) != before {
		c.Fail("write after close", "error is %v, %d bytes were written", after, len(fs.Data)-before)
	}
}

func c23Mixed(c *rt.C)  { c23Case(c, genWrite(c, stdSchema(), 200)) }
func c23Column(c *rt.C) { c23Case(c, oneColumn(c, 300)) }

// storable writes rows with a schema and options which may be refused. If they are not the file is right.
func storable(c *rt.C, t *model.Type, td *api.TypeDescription, o config.WriterOptions, must string) {
	r := c.R
	n := nRows(r, 60)
	rows := model.GenCol(r, t, n)
	fs := drive.NewFS(nil)
	var err error
	stage := "creating the writer"
	if p, st := rt.Try(func() {
		var wr orc.Writer
		if wr, err = orc.VerifNewWriter(td, o, fs.Handle()); err != nil {
			return
		}
		if must != "" {
			c.Fail("not refused", "%s", must)
		}
		stage = "writing"
		if err = wr.Write(drive.ToVector(t, rows, drive.VecStyle{})); err != nil {
			wr.Close()
			return
		}
		stage = "closing"
		err = wr.Close()
	}); p != nil {
		c.Fail("panic", "%s: %v\n%s", stage, p, st)
	}
	if err != nil {
		c.Count("refused at "+stage, 1)
		return
	}
	f := decode(c, fs.Data)
	if d := model.DiffRows(rows, f.Values); d != "" {
		c.Fail("accepted and wrong", "independent reader: %s", d)
	}
	rd := open(c, fs.Data)
	defer rd.Close()
	readBack(c, rd, rows, drive.ROpts{Cap: capSource(r, n)})
	if o.WriteIndex {
		if _, err := f.CheckIndex(); err != nil {
			c.Fail("accepted and wrong", "%v", err)
		}
		if f.Stride != uint64(o.IndexStride) {
			c.Fail("accepted and wrong", "index stride is %d, asked for %d", f.Stride, o.IndexStride)
		}
	}
	c.Count("accepted and right", 1)
}

// c23Schema has schemas with a deviation
func c23Schema(c *rt.C) {
	r := c.R
	t := model.GenSchema(r, model.SchemaOpts{MaxCols: 5, MaxDepth: 3})
	td := drive.Schema(t)
	var flat []*api.TypeDescription
	var walk func(x *api.TypeDescription)
	walk = func(x *api.TypeDescription) {
		flat = append(flat, x)
		for _, k := range x.Children {
			walk(k)
		}
	}
	walk(td)
	i := r.Intn(len(flat))
	x := flat[i]
	must := ""
	switch r.Intn(8) {
	case 0, 1, 2: // any encoding
		e := r.Intn(4)
		t.Flat()[i].Enc = model.Enc(e)
		x.Encoding = pb.ColumnEncoding_Kind(e)
		if r.Intn(10) == 0 {
			x.Encoding = 4 + pb.ColumnEncoding_Kind(r.Intn(3))
			must = fmt.Sprintf("encoding %d of column %d", x.Encoding, i)
		}
		c.Note("column %d %s has encoding %s", i, x.Kind, x.Encoding)
	case 3: // kinds not written
		k := []pb.Type_Kind{pb.Type_LIST, pb.Type_MAP, pb.Type_UNION, 18, 99, -1}[r.Intn(6)]
		if i == 0 {
			return
		}
		x.Kind = k
		x.Children, x.ChildrenNames = nil, nil
		for j := r.Intn(3); j > 0; j-- {
			x.Children = append(x.Children, &api.TypeDescription{Kind: pb.Type_INT, Encoding: pb.ColumnEncoding_DIRECT_V2})
		}
		api.NormalizeSchema(td)
		must = fmt.Sprintf("column %d of kind %s with %d children", i, k, len(x.Children))
	case 4: // ids
		x.Id += uint32(1 + r.Intn(3))
		must = fmt.Sprintf("column %d has id %d", i, x.Id)
	case 5: // children of a primitive
		if x.Kind == pb.Type_STRUCT {
			return
		}
		x.Children = []*api.TypeDescription{{Kind: pb.Type_INT, Encoding: pb.ColumnEncoding_DIRECT_V2}}
		api.NormalizeSchema(td)
		must = fmt.Sprintf("column %d of kind %s with a child", i, x.Kind)
	case 6: // names
		if x.Kind != pb.Type_STRUCT {
			return
		}
		if r.Intn(2) == 0 && len(x.ChildrenNames) > 0 {
			x.ChildrenNames = x.ChildrenNames[:len(x.ChildrenNames)-1]
		} else {
			x.ChildrenNames = append(x.ChildrenNames, "more")
		}
		must = fmt.Sprintf("column %d has %d names of %d children", i, len(x.ChildrenNames), len(x.Children))
	case 7: // one node in two places
		if x.Kind != pb.Type_STRUCT || len(x.Children) == 0 {
			return
		}
		x.Children = append(x.Children, x.Children[0])
		x.ChildrenNames = append(x.ChildrenNames, "again")
		api.NormalizeSchema(td)
		must = fmt.Sprintf("column %d has a child twice", i)
	}
	c.Note("schema %s %s", t, must)
	c.Sample("%s %s", t, must)
	storable(c, t, td, drive.RandWOpts(r, 60).Config(), must)
	c.Count("schemas", 1)
	c.Eval(model.Hash(model.Hash(1, t.String()), fmt.Sprint(must, x.Kind, x.Encoding)))
}

// c23Options has options with edge values
func c23Options(c *rt.C) {
	r := c.R
	t := model.GenSchema(r, model.SchemaOpts{MaxCols: 4, MaxDepth: 2})
	o := drive.RandWOpts(r, 60).Config()
	edge := func() int {
		return int([]int64{0, 1, 2, -1, -2, math.MinInt64, math.MaxInt64, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxUint32 + 2, 1 << 23, 1<<23 - 1, 1 << 22, 255, 256}[r.Intn(17)])
	}
	must := ""
	switch r.Intn(6) {
	case 0:
		o.CompressionKind = pb.CompressionKind(r.Intn(8))
		if o.CompressionKind > 1 {
			must = fmt.Sprintf("compression %s", o.CompressionKind)
		}
	case 1, 2:
		o.ChunkSize = edge()
		if o.ChunkSize <= 0 || o.ChunkSize >= 1<<23 {
			must = fmt.Sprintf("chunk size %d", o.ChunkSize)
		}
	case 3:
		o.StripeSize = edge()
	default:
		o.WriteIndex, o.IndexStride = r.Intn(4) != 0, edge()
		if o.WriteIndex && (o.IndexStride <= 0 || uint64(o.IndexStride) > math.MaxUint32) {
			must = fmt.Sprintf("index stride %d", o.IndexStride)
		}
	}
	if o.CompressionKind == pb.CompressionKind_NONE && o.ChunkSize >= 1<<23 {
		must = ""
	}
	s := fmt.Sprintf("compression %s chunk %d stripe %d index %t stride %d", o.CompressionKind, o.ChunkSize, o.StripeSize, o.WriteIndex, o.IndexStride)
	c.Note("options %s", s)
	c.Sample("options %s", s)
	storable(c, t, drive.Schema(t), o, must)
	c.Count("options", 1)
	c.Eval(model.Hash(model.Hash(2, t.String()), s))
}
