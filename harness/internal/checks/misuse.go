package checks

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C25: calls which cannot be right, and unusual ones which are

// vectors lists a vector with all under it
func vectors(v *api.ColumnVector) []*api.ColumnVector {
	l := []*api.ColumnVector{v}
	for _, k := range v.Children {
		l = append(l, vectors(k)...)
	}
	return l
}

// rowVectors are those which have a value of each row of the batch
func rowVectors(v *api.ColumnVector) []*api.ColumnVector {
	var l []*api.ColumnVector
	if v.Vector != nil {
		l = append(l, v)
	}
	if v.Kind == pb.Type_STRUCT {
		for _, k := range v.Children {
			l = append(l, rowVectors(k)...)
		}
	}
	return l
}

// misfit makes of a right vector one which isn't, in one place
func misfit(r *rand.Rand, v *api.ColumnVector) (*api.ColumnVector, string) {
	all := vectors(v)
	x := all[r.Intn(len(all))]
	where := fmt.Sprintf("vector of column %d %s ", x.Id, x.Kind)
	rows := rowVectors(v)
	for try := 0; try < 20; try++ {
		switch r.Intn(10) {
		case 0:
			x.Id += uint32(1 + r.Intn(3))
			return v, where + fmt.Sprintf("is of column %d", x.Id)
		case 1:
			k := pb.Type_Kind(r.Intn(18))
			if k == x.Kind {
				continue
			}
			x.Kind = k
			return v, where + fmt.Sprintf("is of kind %s", k)
		case 2:
			if len(x.Children) == 0 {
				continue
			}
			i := r.Intn(len(x.Children))
			x.Children[i] = nil
			return v, where + fmt.Sprintf("has nil as child %d", i)
		case 3:
			if len(x.Children) == 0 {
				continue
			}
			i := r.Intn(len(x.Children))
			x.Children = append(x.Children[:i:i], x.Children[i+1:]...)
			return v, where + fmt.Sprintf("is without child %d", i)
		case 4:
			if len(x.Children) < 2 {
				continue
			}
			i := 1 + r.Intn(len(x.Children)-1)
			x.Children[0], x.Children[i] = x.Children[i], x.Children[0]
			return v, where + fmt.Sprintf("has child %d first", i)
		case 5:
			id := uint32(r.Intn(8))
			if r.Intn(2) == 0 {
				id = x.Id
			}
			x.Children = append(x.Children, &api.ColumnVector{Id: id, Kind: pb.Type_LONG, Vector: make([]api.Value, 0, v.Cap())})
			return v, where + "has a child too many"
		case 6: // less room than the first one
			if len(rows) < 2 {
				continue
			}
			y := rows[1+r.Intn(len(rows)-1)]
			k := r.Intn(cap(y.Vector))
			y.Vector = make([]api.Value, 0, k)
			return v, fmt.Sprintf("vector of column %d has capacity %d of %d", y.Id, k, v.Cap())
		case 7: // none for one
			y := rows[r.Intn(len(rows))]
			y.Vector = nil
			if r.Intn(2) == 0 {
				y.Vector = []api.Value{}
			}
			return v, fmt.Sprintf("vector of column %d has no room", y.Id)
		case 8: // no room in all
			for _, y := range all {
				y.Vector = nil
				if r.Intn(2) == 0 {
					y.Vector = []api.Value{}
				}
			}
			return v, "no vector has room"
		default:
			if len(all) == 1 {
				continue
			}
			return all[1+r.Intn(len(all)-1)], "the vector is that of a child"
		}
	}
	return nil, "no vector"
}

// misuse reads by a vector which does not fit
func (s *session) misuse() {
	c, r := s.c, s.c.R
	var vec *api.ColumnVector
	what := "no vector"
	if r.Intn(10) != 0 {
		v, err := s.rd.GetSchema().CreateVector(&api.BatchOption{Includes: s.inc, RowSize: 1 + r.Intn(50)})
		if err != nil {
			c.Fail("vector error", "creating vector failed: %v", err)
		}
		if r.Intn(3) == 0 {
			junkFill(r, v)
		}
		vec, what = misfit(r, v)
	}
	c.Note("%snext at %d when %s", s.name, s.at, what)
	var end bool
	var err error
	if p, st := rt.Try(func() { end, err = s.br.Next(vec) }); p != nil {
		c.Fail("panic", "%sreading at row %d when %s: %v\n%s", s.name, s.at, what, p, st)
	}
	c.Count("vectors refused", 1)
	if err != nil {
		return
	}
	if s.at == len(s.want) && end && (vec == nil || vec.Len() == 0) {
		return // nothing was to be read into it
	}
	c.Fail("vector not refused", "%sreading at row %d of %d when %s has no error", s.name, s.at, len(s.want), what)
}

// c25Next has calls of next and seek which cannot be right between right ones
func c25Next(c *rt.C, m *made) {
	r := c.R
	n := len(m.rows)
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	var inc []uint32
	if r.Intn(2) == 0 {
		inc = randTree(r, m.t)
	}
	s := newSession(c, rd, m.t, m.rows, inc, capSource(r, min(n, 300))())
	defer s.br.Close()
	if len(rowVectors(s.vec)) == 0 {
		return
	}
	for i := 0; i < 12; i++ {
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			s.misuse()
		case 4, 5:
			s.next()
		case 6:
			if n > 0 {
				s.seek(r.Intn(n))
			}
		default:
			row := []uint64{uint64(n), uint64(n) + uint64(r.Intn(9)), 1 << 32, 1 << 63, 1<<64 - 1}[r.Intn(5)]
			if err := s.br.Seek(row); err == nil {
				c.Fail("seek over the end", "seeking to row %d of %d has no error", row, n)
			}
		}
	}
	for i := 0; ; i++ {
		if r.Intn(4) == 0 {
			s.misuse()
		}
		if _, end := s.next(); end {
			break
		}
		if i > n+2 {
			c.Fail("no end", "%d rows are not at end after %d calls", n, i)
		}
	}
}

func c25Mixed(c *rt.C)  { c25Next(c, makeFile(c, stdSchema(), 600)) }
func c25Column(c *rt.C) { c25Next(c, madeColumn(c, 600)) }

// madeColumn is a file of one column under the root
func madeColumn(c *rt.C, most int) *made {
	w := oneColumn(c, most)
	return &made{data: w.write(c), t: w.t, rows: w.rows, desc: w.String()}
}

// ownVector makes a vector as a caller can without CreateVector. Rows have k at least in all, and as many in the first.
func ownVector(r *rand.Rand, td *api.TypeDescription, opt *api.BatchOption, k int, first *bool, elements bool) *api.ColumnVector {
	v := &api.ColumnVector{Id: td.Id, Kind: td.Kind}
	n := k
	if elements {
		n = r.Intn(k + 3)
	} else if !*first {
		n += r.Intn(3) * r.Intn(20)
	}
	if td.Kind != pb.Type_STRUCT || td.HasNulls {
		*first = false
		v.Vector = make([]api.Value, []int{0, n, r.Intn(n + 1)}[r.Intn(3)], n)
		for i := range v.Vector {
			v.Vector[i] = api.Value{Null: r.Intn(2) == 0, V: "stale"}
		}
		if n == 0 && r.Intn(2) == 0 {
			v.Vector = nil
		}
	} else if !*first && r.Intn(3) == 0 { // not needed, of any capacity
		v.Vector = make([]api.Value, 0, r.Intn(2)*r.Intn(k+3))
	}
	for _, t := range td.Children {
		if opt.IsInclude(t.Id) {
			v.Children = append(v.Children, ownVector(r, t, opt, k, first, elements || td.Kind != pb.Type_STRUCT))
		}
	}
	return v
}

// fillVector gives a vector made without room its own
func fillVector(r *rand.Rand, v *api.ColumnVector, td *api.TypeDescription, k int, elements bool) {
	if elements {
		k = r.Intn(k + 3)
	}
	if td.Kind != pb.Type_STRUCT || td.HasNulls {
		v.Vector = make([]api.Value, r.Intn(k+1), k)
	}
	j := 0
	for _, t := range td.Children {
		if j < len(v.Children) && v.Children[j].Id == t.Id {
			fillVector(r, v.Children[j], t, k, elements || td.Kind != pb.Type_STRUCT)
			j++
		}
	}
}

// c25Own reads into vectors the caller has made, and with options which are used again for other readers
func c25Own(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 400)
	n := len(m.rows)
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	var ss []*session
	opt := &api.BatchOption{}
	for i := 0; i < 1+r.Intn(3); i++ {
		var inc []uint32
		if r.Intn(2) == 0 {
			inc = randTree(r, m.t)
		}
		// options are of the caller, who changes and uses them again
		opt.RowSize = 1 + r.Intn(100)
		if len(inc) <= cap(opt.Includes) && inc != nil && r.Intn(2) == 0 {
			opt.Includes = append(opt.Includes[:0], inc...)
		} else {
			opt.Includes = append([]uint32(nil), inc...)
		}
		s := newSession(c, rd, m.t, m.rows, inc, opt.RowSize)
		s.br.Close()
		var err error
		if s.br, err = rd.CreateBatchReader(opt); err != nil {
			c.Fail("create error", "creating batch reader of columns %v failed: %v", inc, err)
		}
		s.name = fmt.Sprintf("reader %d of columns %v: ", i, inc)
		if len(rowVectors(s.vec)) == 0 {
			s.br.Close()
			continue
		}
		ss = append(ss, s)
		c.Count("options used again", i)
	}
	switch r.Intn(3) {
	case 0:
		opt.Includes = []uint32{0}
		opt.RowSize = 1
	case 1:
		for i := range opt.Includes {
			opt.Includes[i] = uint32(r.Intn(9))
		}
		opt.RowSize = -1
		opt.Loc = time.FixedZone("other", 3600)
	}
	for i := 0; len(ss) > 0; i++ {
		k := r.Intn(len(ss))
		s := ss[k]
		own := &api.BatchOption{Includes: s.inc, RowSize: 1 + r.Intn(min(n, 200)+5), NotCreateVector: r.Intn(2) == 0}
		s.cap = own.RowSize
		if own.NotCreateVector {
			v, err := rd.GetSchema().CreateVector(own)
			if err != nil {
				c.Fail("vector error", "creating vector without room failed: %v", err)
			}
			fillVector(r, v, rd.GetSchema(), s.cap, false)
			s.vec = v
		} else {
			f := true
			s.vec = ownVector(r, rd.GetSchema(), own, s.cap, &f, false)
		}
		c.Count("own vectors", 1)
		for j := 0; j < 1+r.Intn(3); j++ {
			if n > 0 && r.Intn(6) == 0 && i < 20 {
				s.seek(r.Intn(n))
			}
			_, end := s.next()
			if end && (i >= 20 || r.Intn(3) == 0) {
				s.br.Close()
				ss = append(ss[:k], ss[k+1:]...)
				break
			}
		}
	}
}

// c25Closed closes again, and uses what is closed
func c25Closed(c *rt.C) {
	r := c.R
	w := genWrite(c, stdSchema(), 200)
	w.eval(c)
	dir, err := os.MkdirTemp("", "verif-closed-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.orc")
	wr, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config())
	if err != nil {
		c.Fail("writer error", "%v", err)
	}
	done := 0
	for _, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[done:done+n], w.st)); err != nil {
			c.Fail("write error", "%v", err)
		}
		done += n
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	before, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		what := "close"
		var err error
		p, st := rt.Try(func() {
			if r.Intn(2) == 0 {
				what = "write"
				rows := model.GenCol(r, w.t, 1+r.Intn(20))
				err = wr.Write(drive.ToVector(w.t, rows, w.st))
			} else {
				err = wr.Close()
			}
		})
		if p != nil {
			c.Fail("panic", "%s of a closed writer: %v\n%s", what, p, st)
		}
		if what == "write" && err == nil {
			c.Fail("write after close", "no error")
		}
		c.Count("calls after close", 1)
	}
	after, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if d := diffBytes(before, after); d != "" {
		c.Fail("file changed after close", "%s", d)
	}

	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	capacity := 1 + r.Intn(60)
	s := newSession(c, rd, w.t, w.rows, nil, capacity)
	other := newSession(c, rd, w.t, w.rows, nil, capacity)
	for i := 0; i < r.Intn(4); i++ {
		s.next()
		other.next()
	}
	s.br.Close()
	for i := 0; i < 1+r.Intn(5); i++ {
		var what string
		at := s.at
		p, st := rt.Try(func() {
			switch r.Intn(3) {
			case 0:
				what = "close"
				s.br.Close()
			case 1:
				what = "seek"
				if n := len(w.rows); n > 0 {
					row := r.Intn(n)
					at = -1
					if s.br.Seek(uint64(row)) == nil {
						at = row
					}
				}
			default:
				what = "next"
				s.vector(capacity)
				rows, _, err := drive.Batch(s.br, s.t, s.vec)
				if err != nil {
					at = -1 // not known without a seek
					return
				}
				if at >= 0 {
					if len(rows) > len(s.want)-at {
						c.Fail("rows of closed reader", "%d rows at %d of %d", len(rows), at, len(s.want))
					}
					if d := model.DiffRows(s.want[at:at+len(rows)], rows); d != "" {
						c.Fail("rows of closed reader", "%s", d)
					}
					at += len(rows)
				}
			}
		})
		if p != nil {
			c.Fail("panic", "%s of a closed batch reader: %v\n%s", what, p, st)
		}
		s.at = at
		c.Count("calls after close", 1)
	}
	// the other one is as it was
	for {
		if _, end := other.next(); end {
			break
		}
	}
	other.br.Close()
	for i := 0; i < 1+r.Intn(2); i++ {
		if p, st := rt.Try(rd.Close); p != nil {
			c.Fail("panic", "close of a closed reader: %v\n%s", p, st)
		}
	}
	if n := rd.NumberOfRows(); n != uint64(len(w.rows)) {
		c.Fail("rows of closed reader", "reader tells %d rows of %d after close", n, len(w.rows))
	}
	if t := drive.FromSchema(rd.GetSchema()); len(t.Flat()) != len(w.t.Flat()) {
		c.Fail("schema of closed reader", "%s of %s", t, w.t)
	}
	if p, st := rt.Try(func() {
		if br, err := rd.CreateBatchReader(&api.BatchOption{RowSize: capacity}); err == nil {
			br.Close()
		}
	}); p != nil {
		c.Fail("panic", "batch reader of a closed reader: %v\n%s", p, st)
	}
	c.Count("calls after close", 2)
}

// c25Options creates vectors and batch readers by options which may be wrong
func c25Options(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 60)
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	for i := 0; i < 6; i++ {
		size := []int{0, -1, -1 << 31, math.MinInt, 1, 2, 1000}[r.Intn(7)]
		opt := &api.BatchOption{RowSize: size, NotCreateVector: r.Intn(4) == 0}
		if r.Intn(2) == 0 {
			opt.Includes = randTree(r, m.t)
		}
		given := *opt
		given.Includes = append([]uint32(nil), opt.Includes...)
		var v *api.ColumnVector
		var br orc.BatchReader
		var verr, berr error
		if p, st := rt.Try(func() { v, verr = rd.GetSchema().CreateVector(opt) }); p != nil {
			c.Fail("panic", "creating vector with %+v: %v\n%s", *opt, p, st)
		}
		if p, st := rt.Try(func() { br, berr = rd.CreateBatchReader(opt) }); p != nil {
			c.Fail("panic", "creating batch reader with %+v: %v\n%s", *opt, p, st)
		}
		if (verr == nil) != (size > 0) {
			c.Fail("vector options", "creating vector with %+v has error %v", *opt, verr)
		}
		if (berr == nil) != (size > 0) {
			c.Fail("reader options", "creating batch reader with %+v has error %v", *opt, berr)
		}
		if !reflect.DeepEqual(given.Includes, append([]uint32(nil), opt.Includes...)) || given.RowSize != opt.RowSize {
			c.Fail("options changed", "%+v were %+v", *opt, given)
		}
		c.Count("options tried", 1)
		if berr == nil {
			br.Close()
		}
		if verr != nil {
			continue
		}
		// all vectors have room for the rows, and are those of the columns
		if d := checkMade(v, rd.GetSchema(), opt); d != "" {
			c.Fail("vector made", "with %+v %s", *opt, d)
		}
	}
}

func checkMade(v *api.ColumnVector, td *api.TypeDescription, opt *api.BatchOption) string {
	if v == nil || v.Id != td.Id || v.Kind != td.Kind {
		return fmt.Sprintf("column %d %s has vector %+v", td.Id, td.Kind, v)
	}
	if !opt.NotCreateVector && (td.Kind != pb.Type_STRUCT || td.HasNulls) && cap(v.Vector) < opt.RowSize {
		return fmt.Sprintf("vector of column %d %s has capacity %d", td.Id, td.Kind, cap(v.Vector))
	}
	j := 0
	for _, k := range td.Children {
		if !opt.IsInclude(k.Id) {
			continue
		}
		if j >= len(v.Children) {
			return fmt.Sprintf("vector of column %d has %d children", td.Id, len(v.Children))
		}
		if d := checkMade(v.Children[j], k, opt); d != "" {
			return d
		}
		j++
	}
	if j != len(v.Children) {
		return fmt.Sprintf("vector of column %d has %d children of %d", td.Id, len(v.Children), j)
	}
	return ""
}
