// Package refdec is an ORC decoder written from the format specification only.
package refdec

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"

	"verif/harness/internal/wire"
)

func errf(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// Chunk of a compressed stream
type Chunk struct {
	At       int // offset of header in stream
	Len      int // stored length
	Original bool
	Size     int // length of data restored
}

// Decompress restores a stream by chunks, strictly. block is the maximum of data in a chunk.
func Decompress(kind int, raw []byte, block int) (data []byte, chunks []Chunk, err error) {
	if kind == 0 {
		return raw, nil, nil
	}
	if kind != 1 {
		return nil, nil, errf("compression kind %d", kind)
	}
	for at := 0; at < len(raw); {
		if len(raw)-at < 3 {
			return nil, nil, errf("chunk header at %d is over the end %d", at, len(raw))
		}
		h := int(raw[at]) | int(raw[at+1])<<8 | int(raw[at+2])<<16
		c := Chunk{At: at, Len: h >> 1, Original: h&1 == 1}
		if c.Len > len(raw)-at-3 {
			return nil, nil, errf("chunk at %d of %d bytes is over the end %d", at, c.Len, len(raw))
		}
		if c.Len > block {
			return nil, nil, errf("chunk at %d of %d bytes is over the block size %d", at, c.Len, block)
		}
		b := raw[at+3 : at+3+c.Len]
		if c.Original {
			c.Size = c.Len
			data = append(data, b...)
		} else {
			in := bytes.NewReader(b)
			fr := flate.NewReader(in)
			out, err := io.ReadAll(fr)
			if err != nil {
				return nil, nil, errf("chunk at %d: %v", at, err)
			}
			if in.Len() != 0 {
				return nil, nil, errf("chunk at %d has %d bytes after its deflate data", at, in.Len())
			}
			c.Size = len(out)
			data = append(data, out...)
		}
		if c.Size > block {
			return nil, nil, errf("chunk at %d restores %d bytes over the block size %d", at, c.Size, block)
		}
		chunks = append(chunks, c)
		at += 3 + c.Len
	}
	return data, chunks, nil
}

func widthOf(code int) int {
	if code < 24 {
		return code + 1
	}
	return []int{26, 28, 30, 32, 40, 48, 56, 64}[code-24]
}

func closestFixed(n int) int {
	if n == 0 {
		return 1
	}
	if n <= 24 {
		return n
	}
	for _, w := range []int{26, 28, 30, 32, 40, 48, 56} {
		if n <= w {
			return w
		}
	}
	return 64
}

type bits struct {
	b   []byte
	pos int
}

func (r *bits) next(w int) (v uint64, err error) {
	if r.pos+w > len(r.b)*8 {
		return 0, io.ErrUnexpectedEOF
	}
	for i := 0; i < w; i++ {
		v = v<<1 | uint64(r.b[r.pos>>3]>>(7-uint(r.pos&7))&1)
		r.pos++
	}
	return v, nil
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

// Run is what an integer run was
type Run struct {
	Kind  int // 0 short repeat, 1 direct, 2 patched base, 3 delta
	Width int
	N     int
	Pos   int
}

// Ints decodes n values of integer run length version 2. Unsigned ones are by their bits.
func Ints(b []byte, n int, signed bool) (vals []int64, used int, runs []Run, err error) {
	fix := func(u uint64) int64 {
		if signed {
			return unzig(u)
		}
		return int64(u)
	}
	pos := 0
	eof := errf("integer runs end after %d bytes", len(b))
	for len(vals) < n {
		if pos >= len(b) {
			return vals, pos, runs, errf("%v, with %d values of %d", eof, len(vals), n)
		}
		h := b[pos]
		run := Run{Kind: int(h >> 6), Pos: pos}
		switch h >> 6 {
		case 0:
			w := int(h>>3&7) + 1
			cnt := int(h&7) + 3
			if pos+1+w > len(b) {
				return vals, pos, runs, eof
			}
			var u uint64
			for i := 0; i < w; i++ {
				u = u<<8 | uint64(b[pos+1+i])
			}
			pos += 1 + w
			for i := 0; i < cnt; i++ {
				vals = append(vals, fix(u))
			}
			run.Width, run.N = w*8, cnt
		case 1:
			if pos+2 > len(b) {
				return vals, pos, runs, eof
			}
			w := widthOf(int(h >> 1 & 31))
			cnt := (int(h&1)<<8 | int(b[pos+1])) + 1
			r := bits{b: b[pos+2:]}
			for i := 0; i < cnt; i++ {
				u, err := r.next(w)
				if err != nil {
					return vals, pos, runs, eof
				}
				vals = append(vals, fix(u))
			}
			pos += 2 + (r.pos+7)/8
			run.Width, run.N = w, cnt
		case 2:
			if pos+4 > len(b) {
				return vals, pos, runs, eof
			}
			w := widthOf(int(h >> 1 & 31))
			cnt := (int(h&1)<<8 | int(b[pos+1])) + 1
			bw := int(b[pos+2]>>5) + 1
			pw := widthOf(int(b[pos+2] & 31))
			pgw := int(b[pos+3]>>5) + 1
			pl := int(b[pos+3] & 31)
			pos += 4
			if pos+bw > len(b) {
				return vals, pos, runs, eof
			}
			var base uint64
			for i := 0; i < bw; i++ {
				base = base<<8 | uint64(b[pos+i])
			}
			pos += bw
			sign := uint64(1) << uint(bw*8-1)
			var bv int64
			if base&sign != 0 {
				bv = -int64(base &^ sign)
			} else {
				bv = int64(base)
			}
			r := bits{b: b[pos:]}
			raw := make([]uint64, cnt)
			for i := range raw {
				if raw[i], err = r.next(w); err != nil {
					return vals, pos, runs, eof
				}
			}
			pos += (r.pos + 7) / 8
			r = bits{b: b[pos:]}
			ew := closestFixed(pgw + pw)
			if pgw+pw > 64 {
				return vals, pos, runs, errf("patch of %d + %d bits", pgw, pw)
			}
			at := 0
			for i := 0; i < pl; i++ {
				e, err := r.next(ew)
				if err != nil {
					return vals, pos, runs, eof
				}
				gap, patch := int(e>>uint(pw)), e
				if pw < 64 {
					patch = e & (1<<uint(pw) - 1)
				}
				at += gap
				if patch == 0 && gap == 255 {
					continue
				}
				if at >= cnt {
					return vals, pos, runs, errf("patch at %d of %d values", at, cnt)
				}
				if w >= 64 {
					return vals, pos, runs, errf("patched values of %d bits", w)
				}
				raw[at] |= patch << uint(w)
			}
			pos += (r.pos + 7) / 8
			for _, u := range raw {
				vals = append(vals, bv+int64(u))
			}
			run.Width, run.N = w, cnt
		case 3:
			if pos+2 > len(b) {
				return vals, pos, runs, eof
			}
			code := int(h >> 1 & 31)
			w := 0
			if code != 0 {
				w = widthOf(code)
			}
			cnt := (int(h&1)<<8 | int(b[pos+1])) + 1
			pos += 2
			u, k, err := wire.Uvarint(b[pos:])
			if err != nil {
				return vals, pos, runs, eof
			}
			pos += k
			v := fix(u)
			du, k, err := wire.Uvarint(b[pos:])
			if err != nil {
				return vals, pos, runs, eof
			}
			pos += k
			d := unzig(du)
			vals = append(vals, v)
			if cnt > 1 {
				v += d
				vals = append(vals, v)
			}
			r := bits{b: b[pos:]}
			for i := 2; i < cnt; i++ {
				if w == 0 {
					v += d
				} else {
					u, err := r.next(w)
					if err != nil {
						return vals, pos, runs, eof
					}
					if d < 0 {
						v -= int64(u)
					} else {
						v += int64(u)
					}
				}
				vals = append(vals, v)
			}
			pos += (r.pos + 7) / 8
			run.Width, run.N = w, cnt
		}
		runs = append(runs, run)
	}
	if len(vals) > n {
		return vals, pos, runs, errf("runs have %d values, should be %d", len(vals), n)
	}
	return vals, pos, runs, nil
}

// Bytes decodes n values of byte run length
func Bytes(b []byte, n int) (vals []byte, used int, err error) {
	pos := 0
	for len(vals) < n {
		if pos >= len(b) {
			return vals, pos, errf("byte runs end with %d values of %d", len(vals), n)
		}
		c := int(b[pos])
		pos++
		if c < 128 {
			if pos >= len(b) {
				return vals, pos, errf("byte run without value")
			}
			for i := 0; i < c+3; i++ {
				vals = append(vals, b[pos])
			}
			pos++
		} else {
			l := 256 - c
			if pos+l > len(b) {
				return vals, pos, errf("byte literals over the end")
			}
			vals = append(vals, b[pos:pos+l]...)
			pos += l
		}
	}
	if len(vals) > n {
		return vals, pos, errf("byte runs have %d values, should be %d", len(vals), n)
	}
	return vals, pos, nil
}

// Bools decodes n bits in byte runs
func Bools(b []byte, n int) (vals []bool, used int, err error) {
	bs, used, err := Bytes(b, (n+7)/8)
	if err != nil {
		return nil, used, err
	}
	for i := 0; i < n; i++ {
		vals = append(vals, bs[i>>3]>>(7-uint(i&7))&1 == 1)
	}
	return vals, used, nil
}
