package checks

import (
	"fmt"
	"math/rand"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// large tables: as many rows as default strides, chunks and stripes are made for, or as many columns as sets of
// machine words don't hold

// largeCase is of many rows (even indexes) or columns (odd)
func largeCase(c *rt.C, wide bool) *wcase {
	r := c.R
	w := &wcase{}
	if wide {
		w.t = wideSchema(r, 65+r.Intn(130))
		w.fill(c, r.Intn(60))
		return w
	}
	t := &model.Type{Kind: model.Struct}
	for i := 0; i < 1+r.Intn(2); i++ {
		k := model.GenPrimitive(r, model.SchemaOpts{})
		k.Nullable = r.Intn(3) == 0
		t.Kids = append(t.Kids, k)
		t.Names = append(t.Names, fmt.Sprintf("c%d", i))
	}
	w.t = t.Number()
	n := 9990 + r.Intn(30)
	if r.Intn(2) == 0 {
		n = 20000 + r.Intn(60000)
	}
	w.fill(c, n)
	w.batches = [][]int{bigBatches(r, n), {n}, bigBatches(r, n)}[r.Intn(3)]
	w.o = drive.WOpts{Zlib: r.Intn(3) != 0, Chunk: []int{262144, 262144, 65536, 8192}[r.Intn(4)], Stripe: 256 << 20, Index: true,
		Stride: []int{10000, 10000, 10000, 5000, 9999, 1000, 70000}[r.Intn(7)]}
	if r.Intn(3) == 0 {
		w.o.Stripe = 20000 + r.Intn(300000)
		w.o.Chunk = min(w.o.Chunk, 8192)
	}
	c.Note("options are %s, batches %v", w.o, brief(w.batches))
	return w
}

func wideSchema(r *rand.Rand, n int) *model.Type {
	t := &model.Type{Kind: model.Struct}
	add := func(p, k *model.Type) {
		p.Names = append(p.Names, fmt.Sprintf("f%d", len(p.Kids)))
		p.Kids = append(p.Kids, k)
	}
	p := t
	for i := 0; i < n; i++ {
		switch r.Intn(30) {
		case 0:
			s := &model.Type{Kind: model.Struct, Nullable: r.Intn(2) == 0}
			add(p, s)
			k := model.GenPrimitive(r, model.SchemaOpts{})
			add(s, k)
			if r.Intn(2) == 0 {
				p = s
			}
			continue
		case 1:
			p = t
		}
		k := model.GenPrimitive(r, model.SchemaOpts{})
		k.Nullable = r.Intn(3) == 0
		add(p, k)
	}
	return t.Number()
}

// largeMade is a file of it, of the independent writer sometimes
func largeMade(c *rt.C, wide bool) *made {
	r := c.R
	if wide && r.Intn(2) == 0 {
		m := &made{t: wideSchema(r, 65+r.Intn(130)), ref: true}
		m.rows = model.GenCol(r, m.t, r.Intn(50))
		m.desc = fmt.Sprintf("%s; %d rows by the independent writer", m.t, len(m.rows))
		m.data = refenc.Encode(r, m.t, m.rows, refenc.RandOptions(r, len(m.rows))).B
		return m
	}
	w := largeCase(c, wide)
	return &made{data: w.write(c), t: w.t, rows: w.rows, desc: w.String()}
}

func c02Large(c *rt.C) {
	r := c.R
	m := largeMade(c, c.Idx%4 == 3)
	m.eval(c)
	n := len(m.rows)
	k := []int{1000, 1024, 9999, 10000, 10001, n, n + 1, 32768, 65536, 1 + r.Intn(n+1)}[r.Intn(10)]
	rd := open(c, m.data)
	defer rd.Close()
	s := newSession(c, rd, m.t, m.rows, nil, max(k, 1))
	defer s.br.Close()
	for i := 0; ; i++ {
		if _, end := s.next(); end {
			break
		}
		if i > n+10 {
			c.Fail("no end", "%d rows are not at end", n)
		}
	}
	s.next()
	c.Count("reads after end", 1)
}

func c09Large(c *rt.C) { c09Check(c, largeCase(c, c.Idx%3 == 2)) }
func c10Large(c *rt.C) { c10Check(c, largeCase(c, c.Idx%3 == 2)) }
func c19Large(c *rt.C) { c19Check(c, largeCase(c, c.Idx%3 == 2)) }
func c21Large(c *rt.C) { c21Check(c, largeCase(c, c.Idx%3 == 2)) }
func c24Large(c *rt.C) { c24Check(c, largeCase(c, c.Idx%3 == 2)) }

func c11Large(c *rt.C) {
	m := largeMade(c, c.Idx%4 == 3)
	m.eval(c)
	c11History(c, m, 8+c.R.Intn(8))
}

func c12Wide(c *rt.C) {
	m := largeMade(c, true)
	m.eval(c)
	for i := 0; i < 3; i++ {
		c12Set(c, m, randTree(c.R, m.t), false)
	}
	// a single one, maybe of a high number
	n := len(m.t.Flat())
	for i := 0; i < 3; i++ {
		c12Set(c, m, pathTo(m.t, uint32(n-1-c.R.Intn(n-1)*c.R.Intn(2))), false)
	}
}

// pathTo is a column with those it is in
func pathTo(t *model.Type, id uint32) []uint32 {
	l := []uint32{t.ID}
	for i, k := range t.Kids {
		if k.ID <= id && (i == len(t.Kids)-1 || t.Kids[i+1].ID > id) {
			return append(l, pathTo(k, id)...)
		}
	}
	return l
}

func c18Wide(c *rt.C) {
	w := largeCase(c, true)
	c.Eval(model.Hash(model.HashInit, w.t.String()))
	c18Read(c, w.write(c), w.t, true)
}

// c03Large has nulls in all columns
func c03Large(c *rt.C) {
	w := largeCase(c, c.Idx%3 == 2)
	for _, k := range w.t.Flat()[1:] {
		k.Nullable = true
	}
	o, b := w.o, w.batches
	w.fill(c, len(w.rows))
	w.o, w.batches = o, b
	roundTrip(c, w)
}
