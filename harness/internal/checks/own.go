package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C22: ownership of values, vectors, schemas and options

// copyVector copies all of a vector, contents of binaries too
func copyVector(v *api.ColumnVector) *api.ColumnVector {
	if v == nil {
		return nil
	}
	n := &api.ColumnVector{Id: v.Id, Kind: v.Kind}
	if v.Vector != nil {
		n.Vector = make([]api.Value, len(v.Vector))
		for i, x := range v.Vector {
			n.Vector[i] = copyValue(x)
		}
	}
	for _, k := range v.Children {
		n.Children = append(n.Children, copyVector(k))
	}
	return n
}

func copyValue(x api.Value) api.Value {
	if b, ok := x.V.([]byte); ok {
		x.V = append([]byte{}, b...)
	}
	return x
}

// diffVector tells what is not the same
func diffVector(a, b *api.ColumnVector) string {
	if a == nil || b == nil {
		if a != b {
			return "a vector is gone"
		}
		return ""
	}
	if a.Id != b.Id || a.Kind != b.Kind || len(a.Children) != len(b.Children) || len(a.Vector) != len(b.Vector) || (a.Vector == nil) != (b.Vector == nil) {
		return fmt.Sprintf("column %d %s of %d values and %d children is %d %s of %d and %d", a.Id, a.Kind, len(a.Vector), len(a.Children), b.Id, b.Kind, len(b.Vector), len(b.Children))
	}
	for i := range a.Vector {
		if d := diffValue(a.Vector[i], b.Vector[i]); d != "" {
			return fmt.Sprintf("column %d row %d %s", a.Id, i, d)
		}
	}
	for i := range a.Children {
		if d := diffVector(a.Children[i], b.Children[i]); d != "" {
			return d
		}
	}
	return ""
}

func diffValue(x, y api.Value) string {
	same := x.Null == y.Null
	switch v := x.V.(type) {
	case float32: // by bits, with NaN
		w, ok := y.V.(float32)
		same = same && ok && model.Equal(model.F32(bits32(v)), model.F32(bits32(w)))
	case float64:
		w, ok := y.V.(float64)
		same = same && ok && model.Equal(model.F64(bits64(v)), model.F64(bits64(w)))
	default:
		same = same && reflect.DeepEqual(x.V, y.V)
	}
	if same {
		return ""
	}
	return fmt.Sprintf("was %v, is %v", x, y)
}

// trash changes all of a vector in place: other values, contents of binaries, lengths, structure
func trash(r *rand.Rand, v *api.ColumnVector) {
	if v == nil {
		return
	}
	full := v.Vector[:cap(v.Vector)]
	for i := range full {
		if b, ok := full[i].V.([]byte); ok {
			for j := range b {
				b[j] ^= 0x5a
			}
		}
		switch r.Intn(3) {
		case 0:
			full[i] = api.Value{V: "trash"}
		case 1:
			full[i].Null = !full[i].Null
		}
	}
	switch r.Intn(3) {
	case 0:
		v.Vector = v.Vector[:0]
	case 1:
		v.Id, v.Kind = 99, 7
	}
	for _, k := range v.Children {
		trash(r, k)
	}
	if r.Intn(4) == 0 {
		for i := range v.Children {
			v.Children[i] = nil
		}
	}
}

func copySchema(t *api.TypeDescription) *api.TypeDescription {
	c := *t
	c.ChildrenNames = append([]string(nil), t.ChildrenNames...)
	c.Children = nil
	for _, k := range t.Children {
		c.Children = append(c.Children, copySchema(k))
	}
	return &c
}

func diffSchema(a, b *api.TypeDescription) string {
	if a.Id != b.Id || a.Kind != b.Kind || a.Encoding != b.Encoding || a.HasNulls != b.HasNulls || len(a.Children) != len(b.Children) || fmt.Sprintf("%q", a.ChildrenNames) != fmt.Sprintf("%q", b.ChildrenNames) {
		return fmt.Sprintf("type %d %s %s nulls %t names %q is %d %s %s nulls %t names %q", a.Id, a.Kind, a.Encoding, a.HasNulls, a.ChildrenNames, b.Id, b.Kind, b.Encoding, b.HasNulls, b.ChildrenNames)
	}
	for i := range a.Children {
		if d := diffSchema(a.Children[i], b.Children[i]); d != "" {
			return d
		}
	}
	return ""
}

func c22WriteCase(c *rt.C, w *wcase) {
	r := c.R
	w.st.Junk = nil
	control := drive.NewFS(nil)
	if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, control.Handle()); err != nil {
		c.Fail("write error", "%v", err)
	}
	w.eval(c)
	schema := drive.Schema(w.t)
	schemaWas := copySchema(schema)
	opts := w.o.Config()
	optsWas := opts
	fs := drive.NewFS(nil)
	wr, err := orc.VerifNewWriter(schema, opts, fs.Handle())
	if err != nil {
		c.Fail("write error", "%v", err)
	}
	check := func(when string) {
		if d := diffSchema(schemaWas, schema); d != "" {
			c.Fail("schema changed", "%s: %s", when, d)
		}
		if d := diffSchema(schemaWas, wr.GetSchema()); d != "" {
			c.Fail("schema of writer changed", "%s: %s", when, d)
		}
		if !reflect.DeepEqual(opts, optsWas) {
			c.Fail("options changed", "%s: %+v is %+v", when, optsWas, opts)
		}
	}
	check("after creation")
	var kept []*api.ColumnVector
	var keptWas []*api.ColumnVector
	done := 0
	for i, n := range w.batches {
		vec := drive.ToVector(w.t, w.rows[done:done+n], w.st)
		done += n
		was := copyVector(vec)
		if err := wr.Write(vec); err != nil {
			c.Fail("write error", "batch %d: %v", i, err)
		}
		if d := diffVector(was, vec); d != "" {
			c.Fail("batch changed by write", "batch %d of %d rows: %s", i, n, d)
		}
		if r.Intn(3) != 0 {
			trash(r, vec)
			c.Count("batches changed after write", 1)
		} else {
			kept, keptWas = append(kept, vec), append(keptWas, was)
		}
		if i < 10 {
			check(fmt.Sprintf("after batch %d", i))
		}
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	check("after close")
	for i := range kept {
		if d := diffVector(keptWas[i], kept[i]); d != "" {
			c.Fail("batch changed later", "%s", d)
		}
		c.Count("batches kept", 1)
	}
	if d := diffBytes(control.Data, fs.Data); d != "" {
		c.Fail("file depends on changed batch", "batches changed after their write returned: %s", d)
	}
	// a schema used is good for another
	if r.Intn(4) == 0 {
		again := drive.NewFS(nil)
		wr, err := orc.VerifNewWriter(schema, opts, again.Handle())
		if err != nil {
			c.Fail("schema used again", "%v", err)
		}
		if len(w.rows) > 0 {
			if err := wr.Write(drive.ToVector(w.t, w.rows, w.st)); err != nil {
				c.Fail("schema used again", "%v", err)
			}
		}
		if err := wr.Close(); err != nil {
			c.Fail("schema used again", "%v", err)
		}
		if d := diffBytes(control.Data, again.Data); d != "" {
			c.Fail("schema used again", "%s", d)
		}
	}
}

func c22Write(c *rt.C)  { c22WriteCase(c, genWrite(c, stdSchema(), 600)) }
func c22Column(c *rt.C) { c22WriteCase(c, oneColumn(c, 1500)) }

// keep is the caller's copy of the value records of one read
type keep struct {
	vec *api.ColumnVector // records copied, not what they point to
	at  int
	n   int
}

func keepVector(v *api.ColumnVector) *api.ColumnVector {
	n := &api.ColumnVector{Id: v.Id, Kind: v.Kind}
	if v.Vector != nil {
		n.Vector = append([]api.Value{}, v.Vector...)
	}
	for _, k := range v.Children {
		n.Children = append(n.Children, keepVector(k))
	}
	return n
}

// c22Read keeps records of reads until after the reader is closed, and changes bytes it was given
func c22Read(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 800)
	m.eval(c)
	data := append([]byte(nil), m.data...)
	fs := drive.NewFS(data)
	rd, err := orc.VerifNewReader(fs.Handle())
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	var inc []uint32
	if r.Intn(3) == 0 {
		inc = randTree(r, m.t)
		r.Shuffle(len(inc), func(i, j int) { inc[i], inc[j] = inc[j], inc[i] })
	}
	incWas := append([]uint32(nil), inc...)
	schemaWas := withoutEncodings(rd.GetSchema())
	s := newSession(c, rd, m.t, m.rows, inc, 1+r.Intn(len(m.rows)+2))
	var kept []keep
	changes := r.Intn(3) == 0
	for i := 0; i < 30; i++ {
		if r.Intn(4) == 0 && len(m.rows) > 0 {
			s.seek(r.Intn(len(m.rows)))
		}
		at := s.at
		n, end := s.next()
		switch {
		case n == 0:
		case changes: // bytes given are the caller's
			c.Count("batches changed after read", 1)
			trashBytes(r, s.vec)
		default:
			kept = append(kept, keep{keepVector(s.vec), at, n})
		}
		if r.Intn(8) == 0 {
			s.vector(1 + r.Intn(len(m.rows)+2))
		}
		if end {
			if len(m.rows) == 0 || r.Intn(2) == 0 {
				break
			}
			s.seek(r.Intn(len(m.rows)))
		}
	}
	check := func(when string) {
		for _, k := range kept {
			rows, err := drive.FromVector(s.t, k.vec, k.n)
			if err != nil {
				c.Fail("kept values changed", "%s, rows from %d: %v", when, k.at, err)
			}
			if d := model.DiffRows(s.want[k.at:k.at+k.n], rows); d != "" {
				c.Fail("kept values changed", "%s, rows from %d: %s", when, k.at, d)
			}
			c.Count("values kept", k.n)
		}
		if d := diffSchema(schemaWas, withoutEncodings(rd.GetSchema())); d != "" {
			c.Fail("schema changed", "%s: %s", when, d)
		}
		if fmt.Sprint(inc) != fmt.Sprint(incWas) {
			c.Fail("options changed", "%s: includes %v are %v", when, incWas, inc)
		}
	}
	check("after reading")
	// another reader of the same file
	other := newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(len(m.rows)+1))
	for i := 0; i < 3; i++ {
		other.next()
	}
	check("after reading by another batch reader")
	other.br.Close()
	s.br.Close()
	rd.Close()
	for i := range fs.Data { // nothing read points into the file
		fs.Data[i] = 0xee
	}
	check("after closing")
}

// trashBytes changes contents of binaries, and appends to them
func trashBytes(r *rand.Rand, v *api.ColumnVector) {
	for i := range v.Vector {
		if b, ok := v.Vector[i].V.([]byte); ok {
			for j := range b {
				b[j] ^= 0xa5
			}
			b = append(b, "appended"...)
			v.Vector[i].V = b
		}
	}
	for _, k := range v.Children {
		trashBytes(r, k)
	}
}

// c22Binary has more of the values which are not copied by assignment
func c22Binary(c *rt.C) {
	r := c.R
	k := &model.Type{Kind: model.Binary, Enc: model.DirectV2, Nullable: r.Intn(2) == 0}
	w := &wcase{t: (&model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{k}}).Number()}
	w.fill(c, nRows(r, 300))
	w.st.Junk = nil
	data := w.write(c)
	w.eval(c)
	rd := open(c, data)
	defer rd.Close()
	s := newSession(c, rd, w.t, w.rows, nil, len(w.rows)+1)
	defer s.br.Close()
	for s.at < len(s.want) {
		at := s.at
		s.next()
		n := s.at - at
		// each value changed, by itself and one after another, leaves the others
		col := s.vec.Children[0].Vector
		now := make([]model.Val, n)
		copy(now, w.rows[at:])
		for i := 0; i < n; i++ {
			b, ok := col[i].V.([]byte)
			if !ok || col[i].Null {
				continue
			}
			for j := range b {
				b[j]++
			}
			_ = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
			now[i] = model.Row{model.Bin(b)}
			if i > 20 && r.Intn(10) != 0 {
				continue
			}
			for j := 0; j < n; j++ {
				got, err := drive.FromValue(model.Binary, col[j].V)
				if col[j].Null {
					got, err = nil, nil
				}
				if err != nil || !model.Equal(got, now[j].(model.Row)[0]) {
					c.Fail("values share bytes", "changing value %d of a batch changed value %d", i, j)
				}
			}
			c.Count("values changed", 1)
		}
	}
}

func bits32(f float32) uint32 { return math.Float32bits(f) }
func bits64(f float64) uint64 { return math.Float64bits(f) }

// withoutEncodings is a copy of a reader's schema, encodings are those of the stripe read last
func withoutEncodings(t *api.TypeDescription) *api.TypeDescription {
	t = copySchema(t)
	var walk func(t *api.TypeDescription)
	walk = func(t *api.TypeDescription) {
		t.Encoding = 0
		for _, k := range t.Children {
			walk(k)
		}
	}
	walk(t)
	return t
}
