// Package refenc writes ORC files by the format specification, making legal choices at random.
package refenc

import (
	"math/bits"
	"math/rand"

	"verif/harness/internal/wire"
)

// Marked is encoded data with the positions where runs begin
type Marked struct {
	B    []byte
	Runs []Mark
	N    int // values
}

type Mark struct{ Val, Off int }

// At is the offset of the run which has value k, and values to skip in it
func (m *Marked) At(k int) (off, skip int) {
	if k >= m.N {
		return len(m.B), 0
	}
	lo, hi := 0, len(m.Runs)
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if m.Runs[mid].Val <= k {
			lo = mid
		} else {
			hi = mid
		}
	}
	return m.Runs[lo].Off, k - m.Runs[lo].Val
}

var Widths = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 26, 28, 30, 32, 40, 48, 56, 64}

func code(w int) int {
	for i, x := range Widths {
		if x >= w {
			return i
		}
	}
	panic("width")
}

type bitw struct {
	b []byte
	n int
}

func (w *bitw) put(v uint64, width int) {
	for i := width - 1; i >= 0; i-- {
		if w.n&7 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n>>3] |= byte(v>>uint(i)&1) << (7 - uint(w.n&7))
		w.n++
	}
}

func zig(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

// Style limits run kinds: bits of short repeat, direct, patched, delta
type Style struct {
	Kinds int
	Loose bool // widths over the smallest ones
}

func RandStyle(r *rand.Rand) Style {
	s := Style{Kinds: 15, Loose: r.Intn(3) == 0}
	if r.Intn(2) == 0 {
		s.Kinds = 1 + r.Intn(15)
	}
	return s
}

// Ints encodes by run length version 2
func Ints(r *rand.Rand, vals []int64, signed bool, st Style) *Marked {
	m := &Marked{N: len(vals)}
	enc := func(v int64) uint64 {
		if signed {
			return zig(v)
		}
		return uint64(v)
	}
	limit := func(max int) int {
		switch r.Intn(4) {
		case 0:
			return max
		case 1:
			return 1 + r.Intn(20)
		}
		return 1 + r.Intn(max)
	}
	for i := 0; i < len(vals); {
		left := vals[i:]
		m.Runs = append(m.Runs, Mark{i, len(m.B)})
		kinds := r.Perm(4)
		done := 0
		for _, k := range append(kinds, 1) {
			if st.Kinds>>uint(k)&1 == 0 && !(k == 1 && len(kinds) == 4) {
				continue
			}
			switch k {
			case 0:
				done = shortRepeat(r, m, left, enc)
			case 1:
				n := limit(512)
				if n > len(left) {
					n = len(left)
				}
				done = direct(r, m, left[:n], enc, st.Loose)
			case 2:
				n := limit(512)
				if n > len(left) {
					n = len(left)
				}
				done = patched(r, m, left[:n], signed, st.Loose)
			case 3:
				n := limit(512)
				if n > len(left) {
					n = len(left)
				}
				done = delta(r, m, left[:n], enc, st.Loose)
			}
			if done > 0 {
				break
			}
		}
		if done == 0 {
			done = direct(r, m, left[:1], enc, st.Loose)
		}
		i += done
	}
	return m
}

func shortRepeat(r *rand.Rand, m *Marked, v []int64, enc func(int64) uint64) int {
	n := 1
	for n < len(v) && n < 10 && v[n] == v[0] {
		n++
	}
	if n < 3 {
		return 0
	}
	n = 3 + r.Intn(n-2)
	u := enc(v[0])
	w := (bits.Len64(u) + 7) / 8
	if w == 0 {
		w = 1
	}
	if w < 8 && r.Intn(6) == 0 {
		w++
	}
	m.B = append(m.B, byte(w-1)<<3|byte(n-3))
	for i := w - 1; i >= 0; i-- {
		m.B = append(m.B, byte(u>>(8*uint(i))))
	}
	return n
}

func header(kind, widthCode, n int) []byte {
	return []byte{byte(kind<<6 | widthCode<<1 | (n-1)>>8), byte(n - 1)}
}

func pick(r *rand.Rand, need int, loose bool) int {
	c := code(need)
	if loose && c < 31 && r.Intn(2) == 0 {
		c += r.Intn(32 - c)
	}
	return c
}

func direct(r *rand.Rand, m *Marked, v []int64, enc func(int64) uint64, loose bool) int {
	need := 1
	for _, x := range v {
		if l := bits.Len64(enc(x)); l > need {
			need = l
		}
	}
	c := pick(r, need, loose)
	m.B = append(m.B, header(1, c, len(v))...)
	var w bitw
	for _, x := range v {
		w.put(enc(x), Widths[c])
	}
	m.B = append(m.B, w.b...)
	return len(v)
}

func sub(a, b int64) (d int64, ok bool) {
	d = a - b
	return d, (d < a) == (b > 0) || b == 0
}

func delta(r *rand.Rand, m *Marked, v []int64, enc func(int64) uint64, loose bool) int {
	if len(v) < 2 {
		return 0
	}
	d0, ok := sub(v[1], v[0])
	if !ok || d0 == -1<<63 {
		return 0
	}
	n := 2
	fixed := true
	need := 0
	for n < len(v) {
		d, ok := sub(v[n], v[n-1])
		if !ok || d == -1<<63 || d0 < 0 && d > 0 || d0 >= 0 && d < 0 {
			break
		}
		if d < 0 {
			d = -d
		}
		fx := fixed && (d == d0 || -d == d0)
		if fixed && !fx && n > 4 && r.Intn(2) == 0 {
			break // end the fixed one
		}
		fixed = fx
		if l := bits.Len64(uint64(d)); l > need {
			need = l
		}
		n++
	}
	c := 0
	if !fixed || loose && r.Intn(3) == 0 {
		if need < 2 {
			need = 2 // code 0 is of fixed delta
		}
		c = pick(r, need, loose)
	}
	m.B = append(m.B, header(3, c, n)...)
	m.B = wire.AppendUvarint(m.B, enc(v[0]))
	m.B = wire.AppendUvarint(m.B, zig(d0))
	if c != 0 {
		var w bitw
		for i := 2; i < n; i++ {
			d := v[i] - v[i-1]
			if d < 0 {
				d = -d
			}
			w.put(uint64(d), Widths[c])
		}
		m.B = append(m.B, w.b...)
	}
	return n
}

func patched(r *rand.Rand, m *Marked, v []int64, signed bool, loose bool) int {
	base := v[0]
	for _, x := range v {
		if x < base {
			base = x
		}
	}
	if base == -1<<63 {
		return 0
	}
	max := uint64(0)
	red := make([]uint64, len(v))
	var lens []int
	for i, x := range v {
		d, ok := sub(x, base)
		if !ok || d < 0 {
			return 0
		}
		red[i] = uint64(d)
		if red[i] > max {
			max = red[i]
		}
		lens = append(lens, bits.Len64(red[i]))
	}
	full := bits.Len64(max)
	if full < 2 {
		return 0
	}
	// width under the full one, with at most 31 patches
	for try := 0; try < 4; try++ {
		c := code(1 + r.Intn(full-1))
		w := Widths[c]
		if w >= full {
			continue
		}
		type patch struct {
			gap int
			p   uint64
		}
		var ps []patch
		last, maxGap := 0, 0
		for i, l := range lens {
			if l <= w {
				continue
			}
			gap := i - last
			for gap > 255 {
				ps = append(ps, patch{255, 0})
				gap -= 255
				maxGap = 255
			}
			if gap > maxGap {
				maxGap = gap
			}
			ps = append(ps, patch{gap, red[i] >> uint(w)})
			last = i
		}
		pgw := bits.Len(uint(maxGap))
		if pgw == 0 {
			pgw = 1
		}
		pc := code(full - w)
		pw := Widths[pc]
		if len(ps) == 0 || len(ps) > 31 || pgw+pw > 64 {
			continue
		}
		if loose && pgw < 8 && pgw+1+pw <= 64 && r.Intn(3) == 0 {
			pgw++
		}
		mag := uint64(base)
		if base < 0 {
			mag = uint64(-base)
		}
		bw := (bits.Len64(mag) + 8) / 8
		if bw > 8 {
			return 0
		}
		u := mag
		if base < 0 {
			u |= 1 << uint(bw*8-1)
		}
		m.B = append(m.B, header(2, c, len(v))...)
		m.B = append(m.B, byte(bw-1)<<5|byte(pc), byte(pgw-1)<<5|byte(len(ps)))
		for i := bw - 1; i >= 0; i-- {
			m.B = append(m.B, byte(u>>(8*uint(i))))
		}
		var bw1, bw2 bitw
		for _, x := range red {
			bw1.put(x&(1<<uint(w)-1), w)
		}
		m.B = append(m.B, bw1.b...)
		ew := Widths[code(pgw+pw)]
		for _, p := range ps {
			bw2.put(uint64(p.gap)<<uint(pw)|p.p, ew)
		}
		m.B = append(m.B, bw2.b...)
		return len(v)
	}
	return 0
}

// Bytes encodes by byte run length
func Bytes(r *rand.Rand, vals []byte) *Marked {
	m := &Marked{N: len(vals)}
	greedy := r.Intn(2) == 0
	for i := 0; i < len(vals); {
		m.Runs = append(m.Runs, Mark{i, len(m.B)})
		n := 1
		for i+n < len(vals) && n < 130 && vals[i+n] == vals[i] {
			n++
		}
		if n >= 3 && (greedy || r.Intn(4) != 0) {
			if !greedy {
				n = 3 + r.Intn(n-2)
			}
			m.B = append(m.B, byte(n-3), vals[i])
			i += n
			continue
		}
		n = 1 + r.Intn(128)
		if n > len(vals)-i {
			n = len(vals) - i
		}
		if greedy {
			for k := 1; k < n; k++ {
				if i+k+2 < len(vals) && vals[i+k] == vals[i+k+1] && vals[i+k] == vals[i+k+2] {
					n = k
					break
				}
			}
		}
		m.B = append(m.B, byte(256-n))
		m.B = append(m.B, vals[i:i+n]...)
		i += n
	}
	return m
}

// PackBools puts 8 values in a byte
func PackBools(vals []bool, pad byte) []byte {
	b := make([]byte, (len(vals)+7)/8)
	for i, v := range vals {
		if v {
			b[i>>3] |= 1 << (7 - uint(i&7))
		}
	}
	if k := uint(len(vals) & 7); k != 0 {
		b[len(b)-1] |= pad & (1<<(8-k) - 1)
	}
	return b
}

// IntsV1 encodes by run length version 1
func IntsV1(r *rand.Rand, vals []int64, signed bool) *Marked {
	m := &Marked{N: len(vals)}
	enc := func(v int64) uint64 {
		if signed {
			return zig(v)
		}
		return uint64(v)
	}
	for i := 0; i < len(vals); {
		m.Runs = append(m.Runs, Mark{i, len(m.B)})
		n := 1
		var by int64
		if i+1 < len(vals) {
			if d, ok := sub(vals[i+1], vals[i]); ok && d >= -128 && d <= 127 {
				by = d
				for n = 2; n < 130 && i+n < len(vals); n++ {
					if d, ok := sub(vals[i+n], vals[i+n-1]); !ok || d != by {
						break
					}
				}
			}
		}
		if n >= 3 {
			m.B = append(m.B, byte(n-3), byte(by))
			m.B = wire.AppendUvarint(m.B, enc(vals[i]))
			i += n
			continue
		}
		n = 1 + r.Intn(128)
		if n > len(vals)-i {
			n = len(vals) - i
		}
		m.B = append(m.B, byte(-n))
		for _, v := range vals[i : i+n] {
			m.B = wire.AppendUvarint(m.B, enc(v))
		}
		i += n
	}
	return m
}
