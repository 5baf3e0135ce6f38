package checks

import (
	"fmt"

	"github.com/patrickhuang888/goorc/orc"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
)

// C26: what is read of a file

const (
	tailRead = 64 << 10 // of the end of a file, to find its footer
	ahead    = 8 << 10  // of data in a stream, over the rows delivered: a run is decoded as a whole
	piece    = 1 << 18  // of a stream without compression
)

// meter counts how often each byte of a file was read
type meter struct {
	fs    *drive.FS
	times []uint8
	last  []int64 // bytes read since mark, by ranges of offset and length
	f     *refdec.File
	inc   map[uint32]bool
	types []*model.Type
	whole map[uint32]bool // elements: rows are not those of strides
}

func newMeter(c *rt.C, data []byte, f *refdec.File) *meter {
	m := &meter{fs: drive.NewFS(data), times: make([]uint8, len(data)), f: f, types: f.Types, whole: map[uint32]bool{}}
	m.fs.OnRead = func(off int64, n int) {
		for i := off; i < off+int64(n); i++ {
			if m.times[i] != 255 {
				m.times[i]++
			}
		}
		m.last = append(m.last, off, int64(n))
	}
	var walk func(t *model.Type, under bool)
	walk = func(t *model.Type, under bool) {
		m.whole[t.ID] = under
		for _, k := range t.Kids {
			walk(k, under || t.Kind == model.List || t.Kind == model.Map)
		}
	}
	walk(m.types[0], false)
	return m
}

// read tells the bytes read in a range since mark, as lowest and end
func (m *meter) read(from, end int64) (lo, hi int64, any bool) {
	for i := 0; i < len(m.last); i += 2 {
		a, b := max(m.last[i], from), min(m.last[i]+m.last[i+1], end)
		if a >= b {
			continue
		}
		if !any || a < lo {
			lo = a
		}
		if !any || b > hi {
			hi = b
		}
		any = true
	}
	return
}

func (m *meter) mark() { m.last = m.last[:0] }

// opened checks what opening has read
func (m *meter) opened(c *rt.C) {
	tail := int64(len(m.fs.Data)) - int64(m.f.FooterAt-m.f.MetaLen)
	low := int64(len(m.fs.Data)) - tail - tailRead
	if lo, hi, any := m.read(0, low); any {
		c.Fail("opening reads data", "opening a file of %d bytes with a tail of %d read its bytes from %d to %d", len(m.fs.Data), tail, lo, hi)
	}
	var n int64
	for i := 1; i < len(m.last); i += 2 {
		n += m.last[i]
	}
	if n > 2*tail+tailRead {
		c.Fail("opening reads too much", "opening a file with a tail of %d read %d bytes", tail, n)
	}
	if int64(len(m.fs.Data)) > tail+tailRead {
		c.Count("long files opened", 1)
	}
	clear(m.times) // the tail is of some stripes too
	m.mark()
}

// columns checks that only included columns were read, and once
func (m *meter) columns(c *rt.C, most uint8) {
	for si, s := range m.f.Stripes {
		for _, st := range s.Streams {
			if !m.inc[st.Col] || st.Kind == refdec.Bloom || st.Kind == refdec.BloomUtf8 {
				for i := st.Offset; i < st.Offset+st.Len; i++ {
					if m.times[i] != 0 {
						c.Fail("other column read", "stripe %d: byte %d of stream %d of column %d %s was read, which is not asked for",
							si, i-st.Offset, st.Kind, st.Col, m.types[st.Col].Kind)
					}
				}
				c.Count("streams not read", 1)
				continue
			}
			for i := st.Offset; i < st.Offset+st.Len; i++ {
				if m.times[i] > most {
					c.Fail("read again", "stripe %d: byte %d of %d of stream %d of column %d %s was read %d times",
						si, i-st.Offset, st.Len, st.Kind, st.Col, m.types[st.Col].Kind, m.times[i])
				}
			}
			c.Count("streams read", 1)
		}
	}
}

// over is where reading of a stream may have come to, from a place on
func (m *meter) over(st *refdec.Stream, p refdec.Place) int64 {
	if m.f.Kind == 0 {
		return min(int64(st.Len), int64(p.Off)+ahead+2*piece)
	}
	left := p.Off + ahead
	for i, k := range st.Chunks {
		if k.At < p.Chunk {
			continue
		}
		left -= k.Size
		if left < 0 { // and one to see whether there is more, empty ones don't tell
			for i++; i < len(st.Chunks); i++ {
				if st.Chunks[i].Size != 0 {
					return int64(st.Chunks[i].At + 3 + st.Chunks[i].Len)
				}
			}
		}
	}
	return int64(st.Len)
}

// rows checks that what was read since mark is for rows from to end of a stripe. Later stripes may have been set to
// their starts.
func (m *meter) rows(c *rt.C, what string, si, from, end int, seek bool) {
	stride := int(m.f.Stride)
	for i, s := range m.f.Stripes {
		for _, st := range s.Streams {
			if !m.inc[st.Col] || st.Kind >= refdec.RowIndex {
				continue
			}
			lo, hi, any := m.read(int64(st.Offset), int64(st.Offset+st.Len))
			if !any {
				continue
			}
			lo, hi = lo-int64(st.Offset), hi-int64(st.Offset)
			name := fmt.Sprintf("%s: stripe %d stream %d of column %d %s", what, i, st.Kind, st.Col, m.types[st.Col].Kind)
			if i < si || i > si && !seek {
				c.Fail("other stripe read", "%s was read from %d to %d, the rows are of stripe %d", name, lo, hi, si)
			}
			if i > si {
				from, end = 0, 1
			}
			if m.whole[st.Col] || m.f.Stride == 0 {
				continue
			}
			if k := from / stride; seek && k > 0 {
				if ps, ok := m.f.Places(s, st.Col, k); ok {
					if p, ok := ps[st.Kind]; ok {
						at := int64(p.Chunk)
						if m.f.Kind == 0 {
							at = int64(p.Off)
						}
						if lo < at {
							c.Fail("index not used", "%s was read from %d, row %d is in stride %d which is at %d", name, lo, from, k, at)
						}
						c.Count("strides skipped", 1)
					}
				}
			}
			if k := (end + stride - 1) / stride; k*stride < int(s.Rows) {
				if ps, ok := m.f.Places(s, st.Col, k); ok {
					if p, ok := ps[st.Kind]; ok {
						if o := m.over(st, p); hi > o {
							c.Fail("read ahead", "%s was read to %d of %d, rows to %d of %d are up to %d %v", name, hi, st.Len, end, s.Rows, o, p)
						}
						c.Count("strides not yet read", 1)
					}
				}
			}
		}
	}
	m.mark()
}

// stripeOf is the stripe of a row, and its row there
func (m *meter) stripeOf(row int) (si, at int) {
	for i, s := range m.f.Stripes {
		if row < int(s.Rows) {
			return i, row
		}
		row -= int(s.Rows)
	}
	return len(m.f.Stripes), 0
}

func (m *meter) open(c *rt.C, f *made, inc []uint32, capacity int) (orc.Reader, *session) {
	rd, err := orc.VerifNewReader(m.fs.Handle())
	if err != nil {
		c.Fail("open error", "opening failed: %v", err)
	}
	m.opened(c)
	m.inc = drive.Included(f.t, inc)
	return rd, newSession(c, rd, f.t, f.rows, inc, capacity)
}

func c26Check(c *rt.C, f *made) {
	r := c.R
	d, err := refdec.Parse(f.data)
	if err == nil {
		err = d.Decode()
	}
	if err != nil {
		c.Fail("not decoded", "%v", err)
	}
	n := len(f.rows)
	var inc []uint32
	if r.Intn(3) != 0 {
		inc = randTree(r, f.t)
	}
	caps := capSource(r, n)

	m := newMeter(c, f.data, d)
	rd, s := m.open(c, f, inc, caps())
	m.rows(c, "created", 0, 0, 1, true)
	for {
		at := s.at
		k, end := s.next()
		if k > 0 {
			si, row := m.stripeOf(at)
			m.rows(c, fmt.Sprintf("next at row %d", at), si, row, row+k, false)
		}
		if end {
			break
		}
		if r.Intn(8) == 0 {
			s.vector(caps())
		}
	}
	m.columns(c, 1)
	s.br.Close()
	rd.Close()

	if n == 0 {
		return
	}
	m = newMeter(c, f.data, d)
	rd, s = m.open(c, f, inc, caps())
	m.mark()
	ms := marks(f.data, n)
	for i := 0; i < 6; i++ {
		row := pickRow(r, ms, n, s.at)
		si, at := m.stripeOf(row)
		s.seek(row)
		m.rows(c, fmt.Sprintf("seek to row %d", row), si, at, at+1, true)
		for k := r.Intn(3); k > 0 && s.at < n; k-- {
			row := s.at
			si, at := m.stripeOf(row)
			k, _ := s.next()
			m.rows(c, fmt.Sprintf("next at row %d after seek", row), si, at, at+k, true)
		}
	}
	m.columns(c, 255)
	s.br.Close()
	rd.Close()
}

func c26Mixed(c *rt.C) {
	f := makeFile(c, stdSchema(), 1500)
	f.eval(c)
	c26Check(c, f)
}

func c26Large(c *rt.C) {
	f := largeMade(c, c.Idx%3 == 2)
	f.eval(c)
	c26Check(c, f)
}
