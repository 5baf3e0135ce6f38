package checks

import (
	"fmt"

	"github.com/patrickhuang888/goorc/orc"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
	"verif/harness/internal/wire"
)

// C18: schemas of other writers, and which are not trees

func c18Other(c *rt.C) {
	m := makeFile(c, model.SchemaOpts{MaxCols: 1 + c.R.Intn(10), MaxDepth: 1 + c.R.Intn(5), Names: true}, 30)
	c18Read(c, m.data, m.t, !m.ref)
	c.Count("columns", len(m.t.Flat()))
	c.Eval(model.Hash(model.HashInit, fmt.Sprintf("%s %q", m.t, m.t.Flat()[0].Names)))
	c.Sample("%s", m.desc)
}

// c18Tree changes the types of a file in a way which is not a tree in pre-order
func c18Tree(c *rt.C) {
	r := c.R
	m := makeFile(c, model.SchemaOpts{MaxCols: 1 + r.Intn(5), MaxDepth: 1 + r.Intn(4), Names: true}, 10)
	for i := 0; i < 8; i++ {
		p, err := takeApart(m.data)
		if err != nil {
			c.Fail("metadata", "%v", err)
		}
		types := wire.All(p.footer, 4)
		n := len(types)
		at := r.Intn(n)
		subs := func(k int) []uint64 {
			var l []uint64
			for _, x := range wire.All(types[k].Kids, 2) {
				if x.Type == 0 {
					l = append(l, x.U)
				}
				l = append(l, x.Packed...)
			}
			return l
		}
		set := func(k int, l []uint64) {
			var kids []*wire.Node
			for _, x := range types[k].Kids {
				if x.Num != 2 {
					kids = append(kids, x)
				}
			}
			types[k].Kids = append(kids, &wire.Node{Num: 2, Type: 2, IsPacked: true, Packed: l})
		}
		// a type with children, if there is one
		for try := 0; try < 20 && len(subs(at)) == 0; try++ {
			at = r.Intn(n)
		}
		l := subs(at)
		what := ""
		switch r.Intn(8) {
		case 0: // child out of the types, itself, before, or shared
			if len(l) == 0 {
				continue
			}
			k := r.Intn(len(l))
			was := l[k]
			l[k] = []uint64{uint64(n), uint64(n + r.Intn(5)), 1 << 31, 1<<32 - 1, uint64(at), 0, uint64(r.Intn(n)), l[r.Intn(len(l))]}[r.Intn(8)]
			if l[k] == was {
				continue
			}
			set(at, l)
			what = fmt.Sprintf("child %d of type %d is %d, not %d", k, at, l[k], was)
		case 1: // child left out
			if len(l) == 0 {
				continue
			}
			k := r.Intn(len(l))
			set(at, append(l[:k:k], l[k+1:]...))
			what = fmt.Sprintf("child %d of type %d is not in it", k, at)
		case 2: // one more
			set(at, append(l, uint64(r.Intn(n))))
			what = fmt.Sprintf("type %d has a child more", at)
		case 3: // order
			if len(l) < 2 {
				continue
			}
			j, k := r.Intn(len(l)), r.Intn(len(l))
			if j == k {
				continue
			}
			l[j], l[k] = l[k], l[j]
			set(at, l)
			what = fmt.Sprintf("children %d and %d of type %d are swapped", j, k, at)
		case 4: // a type more, which is no child
			p.footer = append(p.footer, &wire.Node{Num: 4, Type: 2, IsMsg: true, Kids: []*wire.Node{{Num: 1, U: 3}}})
			what = "there is a type more"
		case 5: // the last type is not there
			if n < 2 {
				continue
			}
			var f []*wire.Node
			k := 0
			for _, x := range p.footer {
				if x.Num == 4 {
					if k++; k == n {
						continue
					}
				}
				f = append(f, x)
			}
			p.footer = f
			what = "the last type is not there"
		case 6: // names of a struct
			var f []*wire.Node
			names := 0
			for _, x := range types[at].Kids {
				if x.Num == 3 {
					if names++; names == 1 {
						continue
					}
				}
				f = append(f, x)
			}
			if k := wire.Get(types[at].Kids, 1); names == 0 || k == nil || k.U != uint64(model.Struct) {
				continue
			}
			types[at].Kids = f
			what = fmt.Sprintf("type %d has a name too few", at)
		case 7: // two types are children of each other
			if at == 0 || len(l) == 0 {
				continue
			}
			set(int(l[0]), append(subs(int(l[0])), uint64(at)))
			what = fmt.Sprintf("types %d and %d are children of each other", at, l[0])
		}
		data := p.together(r, nil, nil, nil)
		var rd orc.Reader
		var oerr error
		if pn, st := rt.Try(func() { rd, oerr = drive.Open(data) }); pn != nil {
			c.Fail("panic", "%s: %v\n%s", what, pn, st)
		}
		if oerr == nil {
			rd.Close()
			c.Fail("not refused", "%s: %s, but file was opened", m.t, what)
		}
		c.Count("schemas refused", 1)
		c.Eval(model.Hash(model.Hash(2, m.t.String()), what))
		c.Sample("%s: %s", m.t, what)
	}
}
