package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C28: ids and vectors of a schema

func cloneSchema(td *api.TypeDescription) *api.TypeDescription {
	n := *td
	n.ChildrenNames = append([]string(nil), td.ChildrenNames...)
	n.Children = nil
	for _, k := range td.Children {
		n.Children = append(n.Children, cloneSchema(k))
	}
	return &n
}

func flatSchema(td *api.TypeDescription) (l []*api.TypeDescription) {
	l = append(l, td)
	for _, k := range td.Children {
		l = append(l, flatSchema(k)...)
	}
	return
}

func flatVector(v *api.ColumnVector) (l []*api.ColumnVector) {
	l = append(l, v)
	for _, k := range v.Children {
		l = append(l, flatVector(k)...)
	}
	return
}

// vectorIs compares with what should be made
func vectorIs(v *api.ColumnVector, td *api.TypeDescription, inc map[uint32]bool, opt *api.BatchOption) error {
	if v == nil {
		return fmt.Errorf("no vector of column %d", td.Id)
	}
	if v.Id != td.Id || v.Kind != td.Kind {
		return fmt.Errorf("vector of column %d %v is that of %d %v", td.Id, td.Kind, v.Id, v.Kind)
	}
	want := opt.RowSize
	if opt.NotCreateVector || td.Kind == pb.Type_STRUCT && !td.HasNulls {
		want = 0
	}
	if cap(v.Vector) != want {
		return fmt.Errorf("vector of column %d %v has room for %d rows, not %d", td.Id, td.Kind, cap(v.Vector), want)
	}
	for _, x := range v.Vector {
		if x.Null || x.V != nil {
			return fmt.Errorf("vector of column %d has values", td.Id)
		}
	}
	i := 0
	for _, k := range td.Children {
		if !inc[k.Id] {
			continue
		}
		if i == len(v.Children) {
			return fmt.Errorf("no vector of column %d", k.Id)
		}
		if err := vectorIs(v.Children[i], k, inc, opt); err != nil {
			return err
		}
		i++
	}
	if i != len(v.Children) {
		return fmt.Errorf("vector of column %d has %d children, not %d", td.Id, len(v.Children), i)
	}
	return nil
}

func c28Case(c *rt.C, t *model.Type) {
	r := c.R
	td := cloneSchema(drive.Schema(t))
	all := flatSchema(td)
	c.Note("schema %s", t)
	// numbered, whatever there was
	for _, x := range all {
		x.Id = []uint32{0, x.Id, uint32(r.Intn(9)), r.Uint32()}[r.Intn(4)]
	}
	before := cloneSchema(td)
	if err := api.NormalizeSchema(td); err != nil {
		c.Fail("normalize error", "numbering failed: %v", err)
	}
	for i, x := range all {
		if x.Id != uint32(i) {
			c.Fail("id", "type %d in pre-order has id %d", i, x.Id)
		}
	}
	for i, x := range flatSchema(before) {
		x.Id = uint32(i)
	}
	if !reflect.DeepEqual(before, cloneSchema(td)) {
		c.Fail("normalize", "numbering changed other than ids, from %v to %v", before, td)
	}
	flat, err := td.Flat()
	if err != nil {
		c.Fail("flat error", "listing types failed: %v", err)
	}
	if len(flat) != len(all) {
		c.Fail("flat", "%d types are listed, there are %d", len(flat), len(all))
	}
	for i := range flat {
		if flat[i] != all[i] {
			c.Fail("flat", "type %d listed is %d", i, flat[i].Id)
		}
	}
	types := api.SchemasToTypes(flat)
	if len(types) != len(all) {
		c.Fail("types", "%d types of %d", len(types), len(all))
	}
	for i, x := range types {
		if x.GetKind() != all[i].Kind || len(x.Subtypes) != len(all[i].Children) || strings.Join(x.FieldNames, "\x00") != strings.Join(all[i].ChildrenNames, "\x00") {
			c.Fail("types", "type %d %v is %v", i, all[i].Kind, x)
		}
		for j, k := range all[i].Children {
			if x.Subtypes[j] != k.Id {
				c.Fail("types", "child %d of type %d is %d, not %d", j, i, x.Subtypes[j], k.Id)
			}
		}
	}
	c.Count("types numbered", len(all))
	if len(all) > 1 { // not numbered
		bad := cloneSchema(td)
		l := flatSchema(bad)
		l[1+r.Intn(len(l)-1)].Id = 0
		if _, err := bad.Flat(); err == nil {
			c.Fail("not numbered", "types not all numbered are listed without error")
		}
		c.Count("schemas refused", 1)
	}
	c.Eval(model.Hash(model.HashInit, t.String()))
	// vectors
	for i := 0; i < 6; i++ {
		opt := &api.BatchOption{RowSize: []int{1, 1 + r.Intn(10), 1 + r.Intn(3000)}[r.Intn(3)], NotCreateVector: r.Intn(3) == 0}
		if len(all) > 60 {
			opt.RowSize = 1 + r.Intn(30)
		}
		if r.Intn(4) != 0 {
			opt.Includes = randTree(r, t)
		}
		inc := drive.Included(t, opt.Includes)
		had := append([]uint32(nil), opt.Includes...)
		schema := cloneSchema(td)
		v, err := td.CreateVector(opt)
		if err != nil {
			c.Fail("vector error", "making vectors of columns %v failed: %v", opt.Includes, err)
		}
		if err := vectorIs(v, td, inc, opt); err != nil {
			c.Fail("vector", "with columns %v, %d rows, not created %t: %v", opt.Includes, opt.RowSize, opt.NotCreateVector, err)
		}
		if !reflect.DeepEqual(schema, cloneSchema(td)) || len(had) != len(opt.Includes) || len(had) > 0 && !reflect.DeepEqual(had, opt.Includes) {
			c.Fail("changed", "making vectors changed schema or options")
		}
		w, err := td.CreateVector(opt)
		if err != nil {
			c.Fail("vector error", "making vectors of columns %v again failed: %v", opt.Includes, err)
		}
		// all are of their own
		vs := append(flatVector(v), flatVector(w)...)
		for k, x := range vs {
			x.Vector = x.Vector[:cap(x.Vector)]
			for j := range x.Vector {
				x.Vector[j] = api.Value{Null: k%2 == 0, V: [2]int{k, j}}
			}
		}
		for k, x := range vs {
			for j, y := range x.Vector {
				if y.Null != (k%2 == 0) || y.V != [2]int{k, j} {
					c.Fail("shared", "value %d of column %d was overwritten by %v of others", j, x.Id, y.V)
				}
			}
			x.Clear()
			if len(x.Vector) != 0 {
				c.Fail("clear", "vector of column %d has %d rows after clearing", x.Id, len(x.Vector))
			}
		}
		c.Count("vectors", len(vs))
		c.Eval(model.Hash(model.HashInit, fmt.Sprint(t, opt.Includes, opt.RowSize, opt.NotCreateVector)))
		// and what can not be made
		bad := *opt
		switch r.Intn(3) {
		case 0:
			bad.RowSize = -r.Intn(3)
		case 1: // list or map without elements
			var l []uint32
			for _, x := range all {
				if x.Kind != pb.Type_STRUCT && len(x.Children) > 0 {
					l = append(l, x.Children[r.Intn(len(x.Children))].Id)
				}
			}
			if len(l) == 0 {
				continue
			}
			not := l[r.Intn(len(l))]
			bad.Includes = nil
			for _, x := range all {
				if x.Id != not {
					bad.Includes = append(bad.Includes, x.Id)
				}
			}
		case 2: // union
			n := &bad
			n.Includes = nil
			other := cloneSchema(td)
			l := flatSchema(other)
			x := l[r.Intn(len(l))]
			x.Kind, x.Children, x.ChildrenNames = pb.Type_UNION, nil, nil
			if _, err := other.CreateVector(n); err == nil {
				c.Fail("vector of union", "vectors are made of a schema with union without error")
			}
			c.Count("vectors refused", 1)
			continue
		}
		if _, err := td.CreateVector(&bad); err == nil {
			c.Fail("vector refused", "vectors of columns %v and %d rows are made without error", bad.Includes, bad.RowSize)
		}
		c.Count("vectors refused", 1)
	}
	c.Sample("%s", t)
}

func c28Tree(c *rt.C) {
	so := stdSchema()
	so.Nested, so.AnyRoot, so.Names = true, true, c.R.Intn(3) == 0
	so.MaxDepth += c.R.Intn(4)
	c28Case(c, model.GenSchema(c.R, so))
}

func c28Wide(c *rt.C) {
	so := stdSchema()
	so.Nested = true
	so.MaxCols = 30 + c.R.Intn(300)
	c28Case(c, manyColumns(c.R, so))
}

func manyColumns(r *rand.Rand, so model.SchemaOpts) *model.Type {
	for {
		if t := model.GenSchema(r, so); len(t.Flat()) > 66 {
			return t
		}
	}
}
