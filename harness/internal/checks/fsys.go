package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/rt"
)

// C29: files of the system

// entry is what there is of a name of a directory
type entry struct {
	mode  os.FileMode
	mtime time.Time
	data  string
}

// listing has all of a directory
func listing(dir string) map[string]entry {
	m := map[string]entry{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		e := entry{mode: fi.Mode()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			e.data, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			e.data, e.mtime = string(b), fi.ModTime()
		}
		rel, _ := filepath.Rel(dir, p)
		m[rel] = e
		return nil
	})
	return m
}

// changed tells the first difference, of names other than some
func changed(was, is map[string]entry, but ...string) string {
	skip := map[string]bool{}
	for _, n := range but {
		skip[n] = true
	}
	for n, e := range was {
		x, ok := is[n]
		switch {
		case skip[n]:
		case !ok:
			return fmt.Sprintf("%q is gone", n)
		case x.mode != e.mode:
			return fmt.Sprintf("%q has mode %v, it was %v", n, x.mode, e.mode)
		case x.data != e.data:
			return fmt.Sprintf("%q is changed, it has %d bytes and had %d", n, len(x.data), len(e.data))
		case !x.mtime.Equal(e.mtime):
			return fmt.Sprintf("%q is modified at %v", n, x.mtime)
		}
	}
	for n := range is {
		if _, ok := was[n]; !ok && !skip[n] {
			return fmt.Sprintf("%q is new", n)
		}
	}
	return ""
}

var oddFileNames = []string{"a.orc", "a", "a b.orc", "%s%d%n.orc", "-", "é世界.orc", "a\nb", "..a", "a.orc.tmp", "~", strings.Repeat("n", 255), "*", "\\", "$HOME"}

// place is a directory with other files, and where to write
type place struct {
	dir  string
	name string // of the file, in the directory
	path string // to give
}

var old = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)

func put(path string, data []byte) {
	if err := os.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
	if err := os.Chtimes(path, old, old); err != nil {
		panic(err)
	}
}

// somePlace makes the directory, and tells what's at the path
func somePlace(c *rt.C, valid []byte) (*place, string) {
	r := c.R
	p := &place{dir: scratch(c)}
	names := r.Perm(len(oddFileNames))
	p.name = oddFileNames[names[0]]
	for _, i := range names[1 : 1+r.Intn(4)] {
		put(filepath.Join(p.dir, oddFileNames[i]), model.GenBytes(r, r.Intn(50)))
	}
	for _, s := range []string{".tmp", ".bak", "~", ".crc"} {
		if len(p.name) < 200 && r.Intn(3) == 0 {
			put(filepath.Join(p.dir, p.name+s), []byte("other"))
		}
	}
	p.path = filepath.Join(p.dir, p.name)
	there := "nothing"
	switch r.Intn(6) {
	case 0:
		there = "a longer file"
		put(p.path, bytes.Repeat([]byte{0xa5}, len(valid)+1+r.Intn(100000)))
	case 1:
		there = "a shorter file"
		put(p.path, model.GenBytes(r, r.Intn(8)))
	case 2:
		there = "a file of the same"
		put(p.path, valid)
	case 3:
		there = "a link to a file"
		p.name = "target"
		put(filepath.Join(p.dir, p.name), bytes.Repeat([]byte{0x5a}, r.Intn(2*len(valid))))
		os.Symlink(filepath.Join(p.dir, p.name), p.path)
	}
	switch r.Intn(4) {
	case 0: // relative
		cwd, err := os.Getwd()
		if err == nil {
			if rel, err := filepath.Rel(cwd, p.path); err == nil {
				p.path = rel
			}
		}
	case 1:
		p.path = filepath.Dir(p.path) + "/.//" + filepath.Base(p.path)
	}
	c.Note("at %q there is %s", p.path, there)
	c.Count("paths with "+there, 1)
	return p, there
}

// c29Write writes where something may be
func c29Write(c *rt.C) {
	r := c.R
	w := genWrite(c, stdSchema(), 300)
	w.eval(c)
	want := w.write(c)
	p, _ := somePlace(c, want)
	defer os.RemoveAll(p.dir)
	was := listing(p.dir)
	var had int
	grows := func(when string) {
		b, err := os.ReadFile(filepath.Join(p.dir, p.name))
		if err != nil {
			c.Fail("no file", "%s: %v", when, err)
		}
		if len(b) < had {
			c.Fail("shrinks", "%s there are %d bytes, there were %d", when, len(b), had)
		}
		if !bytes.HasPrefix(want, b) {
			c.Fail("not a part", "%s: the file is no part of what is to be written: %s", when, diffBytes(want, b))
		}
		had = len(b)
		c.Count("files looked at in writing", 1)
		if s := changed(was, listing(p.dir), p.name); s != "" {
			c.Fail("other files", "%s: %s", when, s)
		}
	}
	wr, err := orc.NewOSFileWriter(p.path, drive.Schema(w.t), w.o.Config())
	if err != nil {
		c.Fail("create error", "creating writer failed: %v", err)
	}
	grows("writer created")
	at := 0
	for i, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)); err != nil {
			c.Fail("write error", "writing batch %d failed: %v", i, err)
		}
		at += n
		if i < 5 || r.Intn(10) == 0 {
			grows(fmt.Sprintf("batch %d written", i))
		}
		if r.Intn(10) == 0 { // not complete
			if rd, err := orc.NewOSFileReader(p.path); err == nil {
				rd.Close()
				c.Fail("opened in writing", "file of %d bytes is opened after batch %d, before it's closed", had, i)
			}
			c.Count("files opened in writing", 1)
		}
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "closing writer failed: %v", err)
	}
	grows("closed")
	if had != len(want) {
		c.Fail("file differs", "file has %d bytes, in memory %d are written", had, len(want))
	}
	if e := listing(p.dir)[p.name]; e.mode&^0777 != 0 || e.mode&0600 != 0600 {
		c.Fail("mode", "file has mode %v", e.mode)
	}
	c.Count("files written at paths", 1)
	rd, err := orc.NewOSFileReader(p.path)
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	defer rd.Close()
	readBack(c, rd, w.rows, drive.ROpts{Cap: capSource(r, len(w.rows))})
}

// notWritable has a schema or options which are refused
func notWritable(r *rand.Rand, td *api.TypeDescription, o *config.WriterOptions) string {
	l := flatSchema(td)
	x := l[r.Intn(len(l))]
	switch r.Intn(7) {
	case 0:
		o.ChunkSize, o.CompressionKind = int([]int64{0, -1, 1 << 23, 1 << 40}[r.Intn(4)]), pb.CompressionKind_ZLIB
		return fmt.Sprintf("chunk size %d", o.ChunkSize)
	case 1:
		o.CompressionKind = pb.CompressionKind(2 + r.Intn(4))
		return o.CompressionKind.String()
	case 2:
		o.WriteIndex, o.IndexStride = true, -r.Intn(2)
		return fmt.Sprintf("stride %d", o.IndexStride)
	case 3:
		x.Id += 1 + uint32(r.Intn(3))
		return fmt.Sprintf("id %d", x.Id)
	case 4:
		x.Encoding = 4
		if x.Kind == pb.Type_STRUCT {
			x.Encoding = pb.ColumnEncoding_DICTIONARY_V2
		}
		return fmt.Sprintf("%s of encoding %v", x.Kind, x.Encoding)
	case 5:
		x = l[len(l)-1]
		x.Kind, x.Children, x.ChildrenNames = []pb.Type_Kind{pb.Type_UNION, 77}[r.Intn(2)], nil, nil
		return x.Kind.String()
	}
	if td.Kind != pb.Type_STRUCT {
		td.Children = []*api.TypeDescription{{Id: 1, Kind: pb.Type_LONG, Encoding: pb.ColumnEncoding_DIRECT_V2}}
		return "child of a primitive"
	}
	td.ChildrenNames = append(td.ChildrenNames, "more")
	return "a name without child"
}

// c29Refused has writers refused, and paths not to be opened
func c29Refused(c *rt.C) {
	r := c.R
	w := genWrite(c, stdSchema(), 60)
	valid := w.write(c)
	p, there := somePlace(c, valid)
	defer os.RemoveAll(p.dir)
	was := listing(p.dir)
	same := func(what string) {
		if s := changed(was, listing(p.dir)); s != "" {
			c.Fail("changed though refused", "%s: %s", what, s)
		}
		c.Count("directories as they were", 1)
	}
	for k := 0; k < 3; k++ {
		td, o := cloneSchema(drive.Schema(w.t)), w.o.Config()
		what := notWritable(r, td, &o)
		wr, err := orc.NewOSFileWriter(p.path, td, o)
		if err == nil {
			wr.Close()
			c.Fail("not refused", "%s", what)
		}
		c.Count("writers refused", 1)
		same(fmt.Sprintf("writer refused for %s where there is %s", what, there))
		c.Eval(model.Hash(w.hash(), what+there))
	}
	// no place for a file
	os.Mkdir(filepath.Join(p.dir, "dir"), 0755)
	put(filepath.Join(p.dir, "plain"), valid)
	os.Symlink("nowhere", filepath.Join(p.dir, "dangling"))
	os.Symlink("loop", filepath.Join(p.dir, "loop"))
	was = listing(p.dir)
	for _, n := range []string{"", "dir", "dir/no/a.orc", "plain/a.orc", "loop", "dir/\x00", strings.Repeat("x", 300)} {
		path := filepath.Join(p.dir, n)
		if n == "" && r.Intn(2) == 0 {
			path = ""
		}
		if wr, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config()); err == nil {
			wr.Close()
			c.Fail("not refused", "path %q", path)
		}
		same(fmt.Sprintf("writer at %q", n))
	}
	for _, n := range []string{"", "dir", "dir/no", "plain/a.orc", "loop", "dangling", "missing", "dir/\x00"} {
		if rd, err := orc.NewOSFileReader(filepath.Join(p.dir, n)); err == nil {
			rd.Close()
			c.Fail("not refused", "path %q is opened", n)
		}
		same(fmt.Sprintf("reader at %q", n))
	}
	c.Count("paths refused", 15)
}

// flags tells the flags of the descriptors of a directory's files
func flags(dir string) (l []string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		p, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || !strings.HasPrefix(p, dir) {
			continue
		}
		b, err := os.ReadFile("/proc/self/fdinfo/" + e.Name())
		if err != nil {
			continue
		}
		for _, s := range strings.Split(string(b), "\n") {
			if f := strings.Fields(s); len(f) == 2 && f[0] == "flags:" {
				l = append(l, f[1])
			}
		}
	}
	return
}

// c29Read reads, and nothing else
func c29Read(c *rt.C) {
	r := c.R
	m := makeFile(c, stdSchema(), 300)
	m.eval(c)
	p, _ := somePlace(c, m.data)
	defer os.RemoveAll(p.dir)
	at := filepath.Join(p.dir, p.name)
	os.Remove(at)
	put(at, m.data)
	os.Chmod(at, []os.FileMode{0444, 0644, 0600}[r.Intn(3)])
	was := listing(p.dir)
	same := func(what string) {
		for _, f := range flags(p.dir) {
			if f[len(f)-1]&3 != 0 {
				c.Fail("open for writing", "%s: a descriptor has flags %s", what, f)
			}
			c.Count("descriptors", 1)
		}
		if s := changed(was, listing(p.dir)); s != "" {
			c.Fail("changed by reading", "%s: %s", what, s)
		}
	}
	rd, err := orc.NewOSFileReader(p.path)
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	same("opened")
	if n := rd.NumberOfRows(); n != uint64(len(m.rows)) {
		c.Fail("number of rows", "reader tells %d rows, there are %d", n, len(m.rows))
	}
	var ss []*session
	for k := 1 + r.Intn(2); k > 0; k-- {
		ss = append(ss, newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(100)))
	}
	for k := 2 + r.Intn(10); k > 0; k-- {
		s := ss[r.Intn(len(ss))]
		if s.at == len(s.want) || r.Intn(3) == 0 {
			if len(s.want) == 0 {
				break
			}
			s.seek(r.Intn(len(s.want)))
		}
		s.next()
		if r.Intn(4) == 0 {
			same("read")
		}
	}
	same("read")
	for _, s := range ss {
		s.br.Close()
	}
	rd.Close()
	same("closed")
	c.Count("files read as they were", 1)
}

// c29Descriptors counts those of files of many columns and stripes
func c29Descriptors(c *rt.C) {
	r := c.R
	w := &wcase{}
	t := &model.Type{Kind: model.Struct}
	for k := 1 + r.Intn(60); k > 0; k-- {
		x := model.GenPrimitive(r, model.SchemaOpts{})
		x.Nullable = r.Intn(2) == 0
		t.Names, t.Kids = append(t.Names, fmt.Sprint("c", k)), append(t.Kids, x)
	}
	w.t = t.Number()
	w.fill(c, 1+r.Intn(1+3000/len(t.Kids))%400)
	w.o.Stripe = 1 + r.Intn(3000)
	w.eval(c)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "a.orc")
	most := func(what string, n int) {
		if k := len(descriptors(dir)); k > n {
			c.Fail("descriptors", "%s: %d are open", what, k)
		}
		c.Count("descriptor tables", 1)
	}
	wr, err := orc.NewOSFileWriter(path, drive.Schema(w.t), w.o.Config())
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	at := 0
	for _, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)); err != nil {
			c.Fail("write error", "%v", err)
		}
		at += n
		if r.Intn(8) == 0 {
			most("writer", 2)
		}
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	f := decode(c, data)
	c.Count("stripes", len(f.Stripes))
	c.Count("columns", len(w.t.Kids))
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	most("reader", 2)
	var ss []*session
	for k := 1 + r.Intn(3); k > 0; k-- {
		ss = append(ss, newSession(c, rd, w.t, w.rows, nil, 1+r.Intn(100)))
		most(fmt.Sprintf("%d batch readers of %d columns and %d stripes", len(ss), len(w.t.Kids), len(f.Stripes)), 2+4*len(ss))
	}
	for k := 3 + r.Intn(10); k > 0; k-- {
		s := ss[r.Intn(len(ss))]
		if s.at == len(s.want) || r.Intn(3) == 0 {
			s.seek(r.Intn(len(s.want)))
		}
		s.next()
		most(fmt.Sprintf("%d batch readers of %d columns and %d stripes reading", len(ss), len(w.t.Kids), len(f.Stripes)), 2+4*len(ss))
	}
	for _, s := range ss {
		s.br.Close()
	}
	rd.Close()
	most("closed", 0)
}

// c29Replaced has another file, or none, at the path while it's read
func c29Replaced(c *rt.C) {
	r := c.R
	so := stdSchema()
	m := makeFile(c, so, 600)
	m.eval(c)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path, kept := filepath.Join(dir, "a.orc"), filepath.Join(dir, "kept.orc")
	put(path, m.data)
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	defer rd.Close()
	var ss []*session
	for k := 1 + r.Intn(2); k > 0; k-- {
		s := newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(1+len(m.rows)/2))
		for j := r.Intn(3); j > 0 && s.at < len(s.want); j-- {
			s.next()
		}
		ss = append(ss, s)
	}
	for round := 0; round < 2; round++ {
		if err := os.Rename(path, kept); err != nil {
			panic(err)
		}
		what := ""
		switch r.Intn(6) {
		case 0:
			what = "nothing"
		case 1:
			what = "junk"
			put(path, model.GenBytes(r, len(m.data)))
		case 2:
			what = "a directory"
			os.Mkdir(path, 0755)
		case 3:
			what = "a file with some bytes changed"
			b := append([]byte(nil), m.data...)
			for k := 1 + len(b)/50; k > 0; k-- {
				b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
			}
			put(path, b)
		default: // as alike as can be
			what = "a file with other values"
			w := &wcase{t: m.t, rows: model.GenCol(r, m.t, len(m.rows)), o: drive.RandWOpts(r, len(m.rows)), batches: []int{len(m.rows)}}
			fs := drive.NewFS(nil)
			if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, fs.Handle()); err != nil {
				what = "the file with rows turned" // lists and maps are not written
				put(path, append(append([]byte(nil), m.data[len(m.data)/2:]...), m.data[:len(m.data)/2]...))
			} else {
				put(path, fs.Data)
			}
		}
		c.Note("path has %s", what)
		c.Count("paths which got "+what, 1)
		ss = append(ss, newSession(c, rd, m.t, m.rows, nil, 1+r.Intn(1+len(m.rows)/2)))
		for _, s := range ss {
			s.name = "the path has " + what + ": "
			for k := 1 + r.Intn(4); k > 0; k-- {
				if len(s.want) > 0 && (s.at == len(s.want) || r.Intn(2) == 0) {
					s.seek(r.Intn(len(s.want)))
				}
				s.next()
				c.Count("batches read of a replaced file", 1)
			}
		}
		if n := rd.NumberOfRows(); n != uint64(len(m.rows)) {
			c.Fail("number of rows", "reader tells %d rows, there are %d", n, len(m.rows))
		}
		// and back
		if err := os.RemoveAll(path); err != nil {
			panic(err)
		}
		if err := os.Rename(kept, path); err != nil {
			panic(err)
		}
		for _, s := range ss {
			if len(s.want) == 0 {
				continue
			}
			s.name = "back: "
			s.seek(r.Intn(len(s.want)))
			for k := 1 + r.Intn(3); k > 0 && s.at < len(s.want); k-- {
				s.next()
			}
			c.Count("readers of a file put back", 1)
		}
	}
	for _, s := range ss {
		s.br.Close()
	}
}
