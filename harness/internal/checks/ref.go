package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/patrickhuang888/goorc/orc"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// makeRef makes a file by the independent writer
func makeRef(c *rt.C, so model.SchemaOpts, most int) *made {
	r := c.R
	m := &made{ref: true}
	so.Nested, so.AnyRoot = true, true
	m.t = model.GenSchema(r, so)
	n := nRows(r, most)
	if k := len(m.t.Flat()); k > 8 {
		n = n * 8 / k
	}
	m.rows = model.GenCol(r, m.t, n)
	o := refenc.RandOptions(r, n)
	m.desc = fmt.Sprintf("%s; %d rows by the independent writer with %+v", m.t, n, o)
	c.Note("%s", m.desc)
	m.data = refenc.Encode(r, m.t, m.rows, o).B
	c.Count("files of independent writer", 1)
	return m
}

// C08

func c08Check(c *rt.C, m *made) {
	r := c.R
	m.eval(c)
	rd := open(c, m.data)
	readBack(c, rd, m.rows, drive.ROpts{Cap: capSource(r, len(m.rows)), Reuse: r.Intn(2) == 0})
	rd.Close()
	c.Count("rows", len(m.rows))
}

func c08Mixed(c *rt.C) { c08Check(c, makeRef(c, stdSchema(), 1200)) }

// one column: of a kind, or lists and maps of it
func c08Column(c *rt.C) {
	r := c.R
	m := &made{ref: true}
	k := model.GenPrimitive(r, model.SchemaOpts{})
	k.Nullable = r.Intn(2) == 0
	most := 5000
	switch r.Intn(6) {
	case 0:
		k = &model.Type{Kind: model.List, Enc: model.DirectV2, Kids: []*model.Type{k}, Nullable: r.Intn(2) == 0}
		most = 1500
	case 1:
		k2 := model.GenPrimitive(r, model.SchemaOpts{})
		k = &model.Type{Kind: model.Map, Enc: model.DirectV2, Kids: []*model.Type{k2, k}, Nullable: r.Intn(2) == 0}
		most = 1500
	}
	m.t = (&model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{k}}).Number()
	n := nRows(r, most)
	m.rows = model.GenCol(r, m.t, n)
	o := refenc.RandOptions(r, n)
	m.desc = fmt.Sprintf("%s; %d rows by the independent writer with %+v", m.t, n, o)
	c.Note("%s", m.desc)
	m.data = refenc.Encode(r, m.t, m.rows, o).B
	c.Count("files of independent writer", 1)
	c08Check(c, m)
}

// large footers, over what is read of the tail at once
func c08Footer(c *rt.C) {
	r := c.R
	m := &made{ref: true}
	t := &model.Type{Kind: model.Struct}
	n := 5 + r.Intn(10)
	cols := 3
	switch c.Idx % 3 {
	case 0:
		cols = 300 + r.Intn(900)
	}
	for i := 0; i < cols; i++ {
		t.Kids = append(t.Kids, &model.Type{Kind: model.Int, Enc: model.DirectV2, Nullable: r.Intn(2) == 0})
		t.Names = append(t.Names, fmt.Sprintf("a_rather_long_column_name_%d", i))
	}
	m.t = t.Number()
	o := refenc.RandOptions(r, n)
	switch c.Idx % 3 {
	case 1: // around the size read at once
		o.Meta = 16*1024 - 400 + r.Intn(500)
	case 2:
		o.Meta = 17000 + r.Intn(100000)
	}
	o.StripeRows = nil
	if r.Intn(2) == 0 {
		o.StripeRows = []int{1, n - 1}
	}
	m.rows = model.GenCol(r, m.t, n)
	m.desc = fmt.Sprintf("%d columns; %d rows; footer metadata of %d", cols, n, o.Meta)
	c.Note("%s", m.desc)
	f := refenc.Encode(r, m.t, m.rows, o)
	m.data = f.B
	c.Count("large footers", 1)
	c08Check(c, m)
}

// sample files of the Java implementation
func sampleFiles() []string {
	l, _ := filepath.Glob("/repo/testing/*.orc")
	sort.Strings(l)
	return l
}

func c08Samples(c *rt.C) {
	files := sampleFiles()
	if c.Idx >= 6*len(files) {
		return
	}
	path := files[c.Idx%len(files)]
	c.Note("file %s", path)
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	f, err := refdec.Parse(data)
	if err != nil {
		c.Count("samples out of scope", 1)
		return
	}
	if err := f.Decode(); err != nil {
		c.Count("samples out of scope", 1)
		return
	}
	c.Count("sample files", 1)
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "%v", err)
	}
	defer rd.Close()
	t := f.Types[0]
	got := drive.FromSchema(rd.GetSchema())
	if d := sameType(t, got); d != "" {
		c.Fail("schema", "%s", d)
	}
	capacity := []int{1000, 1, 777, 10000, 33, 4096}[c.Idx/len(files)]
	if len(f.Values) > 20000 && capacity < 33 {
		capacity = 63
	}
	s := newSession(c, rd, got, f.Values, nil, capacity)
	defer s.br.Close()
	for {
		if _, end := s.next(); end {
			break
		}
	}
	c.Count("rows", len(f.Values))
	c.Eval(model.Hash(uint64(capacity), path))
	c.Sample("%s with batches of %d", path, capacity)
	for i := 0; i < 12 && len(f.Values) > 0; i++ {
		s.seek(c.R.Intn(len(f.Values)))
		s.next()
	}
}
