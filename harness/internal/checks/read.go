package checks

import (
	"fmt"
	"math/rand"

	"github.com/patrickhuang888/goorc/orc/api"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// C02: batches of any capacity

func c02Check(c *rt.C, m *made) {
	r := c.R
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	n := len(m.rows)
	if k := rd.NumberOfRows(); k != uint64(n) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", k, n)
	}
	caps := capSource(r, n)
	s := newSession(c, rd, m.t, m.rows, nil, caps())
	defer s.br.Close()
	mode := r.Intn(4) // reused, new of other capacities, new of the same, two in turn
	other := s.vec
	otherCap := s.cap
	if mode == 3 {
		s.vector(caps())
	}
	calls := 0
	for {
		switch mode {
		case 0:
			if r.Intn(4) == 0 {
				junkFill(r, s.vec)
			}
		case 1:
			s.vector(caps())
		case 2:
			s.vector(s.cap)
		case 3:
			s.vec, other = other, s.vec
			s.cap, otherCap = otherCap, s.cap
		}
		_, end := s.next()
		if calls++; calls > 2*n+10 {
			c.Fail("no end", "%d rows are not at end after %d calls", n, calls)
		}
		if end {
			break
		}
	}
	for i := 0; i < 1+r.Intn(4); i++ {
		if r.Intn(2) == 0 {
			s.vector(1 + r.Intn(2*n+2))
		}
		s.next() // none are left, and end
		c.Count("reads after end", 1)
	}
}

func c02Mixed(c *rt.C) { c02Check(c, makeFile(c, stdSchema(), 1500)) }

// small files by all capacities, stripes of few rows and of none
func c02Small(c *rt.C) {
	r := c.R
	so := model.SchemaOpts{MaxCols: 2, MaxDepth: 2, Nested: true, AnyRoot: true}
	m := &made{t: model.GenSchema(r, so), ref: true}
	n := r.Intn(14)
	m.rows = model.GenCol(r, m.t, n)
	o := refenc.RandOptions(r, n)
	o.StripeRows = nil
	for left := n; left > 0; {
		k := min(left, r.Intn(5))
		o.StripeRows = append(o.StripeRows, k)
		left -= k
	}
	if r.Intn(3) == 0 {
		o.StripeRows = append(o.StripeRows, 0)
	}
	m.desc = fmt.Sprintf("%s; %d rows in stripes of %v", m.t, n, o.StripeRows)
	c.Note("%s", m.desc)
	m.data = refenc.Encode(r, m.t, m.rows, o).B
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	for k := 1; k <= n+2; k++ {
		s := newSession(c, rd, m.t, m.rows, nil, k)
		s.name = fmt.Sprintf("capacity %d: ", k)
		for i := 0; ; i++ {
			if i > 2*n+10 {
				c.Fail("no end", "%d rows are not at end after %d calls of capacity %d", n, i, k)
			}
			if _, end := s.next(); end {
				break
			}
		}
		s.next()
		s.next()
		c.Count("reads after end", 2)
		s.br.Close()
	}
}

// C11: histories of seeks and reads

// marks are the rows at which something starts
func marks(data []byte, rows int) []int {
	l := []int{0, rows - 1}
	f, err := refdec.Parse(data)
	if err != nil {
		return l
	}
	at := 0
	for _, s := range f.Stripes {
		l = append(l, at)
		if f.Stride > 0 {
			for k := int(f.Stride); k < int(s.Rows) && len(l) < 2000; k += int(f.Stride) {
				l = append(l, at+k)
			}
		}
		at += int(s.Rows)
	}
	return l
}

func pickRow(r *rand.Rand, ms []int, rows, at int) int {
	n := 0
	switch r.Intn(5) {
	case 0, 1:
		n = ms[r.Intn(len(ms))] + r.Intn(3) - 1
	case 2:
		n = at + r.Intn(9) - 4
	default:
		n = r.Intn(rows)
	}
	return min(max(n, 0), rows-1)
}

func c11History(c *rt.C, m *made, ops int) {
	r := c.R
	n := len(m.rows)
	rd := open(c, m.data)
	defer rd.Close()
	ms := marks(m.data, n)
	var ss []*session
	for i := 0; i < 1+r.Intn(3); i++ {
		var inc []uint32
		if i > 0 && r.Intn(2) == 0 {
			inc = randTree(r, m.t)
		}
		s := newSession(c, rd, m.t, m.rows, inc, capSource(r, min(n, 300))())
		s.name = fmt.Sprintf("reader %d: ", i)
		ss = append(ss, s)
	}
	c.Count("batch readers", len(ss))
	for i := 0; i < ops && len(ss) > 0; i++ {
		k := r.Intn(len(ss))
		s := ss[k]
		switch x := r.Intn(20); {
		case x < 8:
			if r.Intn(4) == 0 {
				junkFill(r, s.vec)
			}
			c.Note("%snext at %d by %d", s.name, s.at, s.cap)
			s.next()
		case x < 16:
			if n == 0 {
				continue
			}
			row := pickRow(r, ms, n, s.at)
			c.Note("%sseek %d", s.name, row)
			s.seek(row)
			if r.Intn(3) != 0 {
				c.Note("%snext by %d", s.name, s.cap)
				s.next()
			}
		case x < 17:
			row := uint64(n) + uint64(r.Intn(3))
			if r.Intn(3) == 0 {
				row = []uint64{1 << 63, 1<<64 - 1, 1 << 32, uint64(2*n + 1)}[r.Intn(4)]
			}
			if row < uint64(n) {
				continue
			}
			c.Note("%srefused seek %d", s.name, row)
			if err := s.br.Seek(row); err == nil {
				c.Fail("seek over the end", "seeking to row %d of %d has no error", row, n)
			}
			c.Count("seeks refused", 1)
		case x < 19:
			k := 1 + r.Intn(min(n, 400)+2)
			c.Note("%scapacity %d", s.name, k)
			s.vector(k)
		default:
			if len(ss) > 1 {
				c.Note("%sclose", s.name)
				s.br.Close()
				ss = append(ss[:k:k], ss[k+1:]...)
			}
		}
	}
	for _, s := range ss {
		s.br.Close()
	}
}

func c11Mixed(c *rt.C) {
	m := makeFile(c, stdSchema(), 1200)
	m.eval(c)
	c11History(c, m, 12+c.R.Intn(20))
}

// one column with index, by which positions in the streams of its type are followed
func c11Column(c *rt.C) {
	r := c.R
	m := &made{}
	if r.Intn(3) == 0 {
		k := model.GenPrimitive(r, model.SchemaOpts{})
		k.Nullable = r.Intn(2) == 0
		switch r.Intn(4) {
		case 0:
			k = &model.Type{Kind: model.List, Enc: model.DirectV2, Kids: []*model.Type{k}, Nullable: r.Intn(2) == 0}
		case 1:
			k = &model.Type{Kind: model.Map, Enc: model.DirectV2, Kids: []*model.Type{{Kind: model.String, Enc: model.DirectV2}, k}, Nullable: r.Intn(2) == 0}
		}
		m.t = (&model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{k}}).Number()
		n := 1 + nRows(r, 2000)
		m.rows = model.GenCol(r, m.t, n)
		o := refenc.RandOptions(r, n)
		if r.Intn(4) != 0 {
			o.Stride = 1 + r.Intn(700)
		}
		m.desc = fmt.Sprintf("%s; %d rows by the independent writer with %+v", m.t, n, o)
		m.data = refenc.Encode(r, m.t, m.rows, o).B
	} else {
		w := oneColumn(c, 4000)
		w.o.Index = r.Intn(5) != 0
		if r.Intn(2) == 0 {
			w.o.Stride = 1 + r.Intn(800)
		}
		m.data, m.t, m.rows, m.desc = w.write(c), w.t, w.rows, w.String()
	}
	c.Note("%s", m.desc)
	m.eval(c)
	c11History(c, m, 16)
}

// seek to every row, from every kind of state
func c11Every(c *rt.C) {
	r := c.R
	m := makeFile(c, model.SchemaOpts{MaxCols: 3, MaxDepth: 2}, 60)
	n := len(m.rows)
	m.eval(c)
	rd := open(c, m.data)
	defer rd.Close()
	s := newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(7))
	defer s.br.Close()
	for _, row := range r.Perm(n) {
		c.Note("seek %d", row)
		s.seek(row)
		if r.Intn(5) == 0 {
			continue
		}
		if _, end := s.next(); !end && r.Intn(3) == 0 {
			s.next()
		}
	}
}

// C12: columns included

// randTree is a valid set of columns, maybe in other order and repeated
func randTree(r *rand.Rand, t *model.Type) []uint32 {
	var l []uint32
	p := 2 + r.Intn(3)
	var all func(t *model.Type)
	all = func(t *model.Type) {
		l = append(l, t.ID)
		for _, k := range t.Kids {
			all(k)
		}
	}
	var walk func(t *model.Type, whole bool)
	walk = func(t *model.Type, whole bool) {
		l = append(l, t.ID)
		for _, k := range t.Kids {
			if whole || t.Kind != model.Struct || r.Intn(p) != 0 {
				walk(k, whole)
			}
		}
	}
	walk(t, false)
	if !hasRows(t, l) {
		l = l[:0]
		all(t)
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	if r.Intn(6) == 0 {
		l = append(l, l[r.Intn(len(l))])
	}
	return l
}

// hasRows tells if some of the columns always has a vector, by which the rows can be told
func hasRows(t *model.Type, inc []uint32) bool {
	m := drive.Included(t, inc)
	for _, x := range t.Flat() {
		if m[x.ID] && x.Kind != model.Struct {
			return true
		}
	}
	return false
}

// validTree is if the set is a tree from the root which can be read
func validTree(t *model.Type, inc []uint32) bool {
	m := drive.Included(t, inc)
	flat := t.Flat()
	for id := range m {
		if uint64(id) >= uint64(len(flat)) {
			return false
		}
	}
	if !m[0] {
		return false
	}
	for _, x := range flat {
		for _, k := range x.Kids {
			if m[k.ID] && !m[x.ID] {
				return false
			}
			if x.Kind != model.Struct && m[x.ID] && !m[k.ID] {
				return false
			}
		}
	}
	return true
}

func c12Set(c *rt.C, m *made, inc []uint32, all bool) {
	r := c.R
	rd := open(c, m.data)
	defer rd.Close()
	c.Note("includes %v", inc)
	if !validTree(m.t, inc) {
		opt := &api.BatchOption{Includes: inc, RowSize: 10}
		br, err := rd.CreateBatchReader(opt)
		if err == nil {
			br.Close()
			c.Fail("wrong includes", "includes %v of %s are accepted", inc, m.t)
		}
		rt.Try(func() { rd.GetSchema().CreateVector(opt) })
		c.Count("sets refused", 1)
		return
	}
	if !hasRows(m.t, inc) {
		return
	}
	s := newSession(c, rd, m.t, m.rows, inc, capSource(r, len(m.rows))())
	defer s.br.Close()
	checkVectors(c, s.t, s.vec)
	for {
		if _, end := s.next(); end {
			break
		}
	}
	if n := len(m.rows); n > 0 {
		for i := 0; i < 2; i++ {
			s.seek(r.Intn(n))
			s.next()
		}
	}
	c.Count("sets read", 1)
}

// checkVectors checks that there are vectors of just the columns
func checkVectors(c *rt.C, t *model.Type, v *api.ColumnVector) {
	if v == nil || v.Id != t.ID || int(v.Kind) != int(t.Kind) || len(v.Children) != len(t.Kids) {
		c.Fail("vector", "vector of column %d %s is not of the columns included", t.ID, t.Kind)
	}
	for i, k := range t.Kids {
		checkVectors(c, k, v.Children[i])
	}
}

func c12Mixed(c *rt.C) {
	r := c.R
	m := makeFile(c, model.SchemaOpts{MaxCols: 8, MaxDepth: 3}, 500)
	m.eval(c)
	for i := 0; i < 3; i++ {
		c12Set(c, m, randTree(r, m.t), false)
	}
	// wrong ones mostly
	n := len(m.t.Flat())
	for i := 0; i < 4; i++ {
		var inc []uint32
		for k := 0; k < 1+r.Intn(n+1); k++ {
			inc = append(inc, uint32(r.Intn(n+1)))
		}
		if r.Intn(6) == 0 {
			inc = append(inc, []uint32{uint32(n), 1 << 31, 1<<32 - 1}[r.Intn(3)])
		}
		c12Set(c, m, inc, false)
	}
}

// all sets of columns of a small schema
func c12All(c *rt.C) {
	r := c.R
	var m *made
	for {
		m = makeFile(c, model.SchemaOpts{MaxCols: 4, MaxDepth: 3}, 30)
		if n := len(m.t.Flat()); n <= 7 {
			break
		}
	}
	m.eval(c)
	n := len(m.t.Flat())
	for x := 1; x < 1<<uint(n); x++ {
		var inc []uint32
		for i := 0; i < n; i++ {
			if x>>uint(i)&1 == 1 {
				inc = append(inc, uint32(i))
			}
		}
		if r.Intn(4) == 0 {
			r.Shuffle(len(inc), func(i, j int) { inc[i], inc[j] = inc[j], inc[i] })
		}
		c12Set(c, m, inc, true)
	}
}
