// Package wire reads and writes protobuf messages by field numbers, independent of generated code.
package wire

import (
	"errors"
	"math"
)

// Msg is the fields of a message by number, in order
type Msg struct {
	Fields map[int][]Field
}

type Field struct {
	Type int // wire type
	U    uint64
	B    []byte
}

var errWire = errors.New("wire: malformed message")

func Uvarint(b []byte) (v uint64, n int, err error) {
	for i := 0; i < len(b); i++ {
		if i == 10 {
			return 0, 0, errWire
		}
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, errWire
}

func Parse(b []byte) (m Msg, err error) {
	m.Fields = map[int][]Field{}
	for len(b) > 0 {
		tag, n, err := Uvarint(b)
		if err != nil {
			return m, err
		}
		b = b[n:]
		f := Field{Type: int(tag & 7)}
		switch f.Type {
		case 0:
			v, n, err := Uvarint(b)
			if err != nil {
				return m, err
			}
			f.U = v
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return m, errWire
			}
			for i := 7; i >= 0; i-- {
				f.U = f.U<<8 | uint64(b[i])
			}
			b = b[8:]
		case 2:
			v, n, err := Uvarint(b)
			if err != nil || v > uint64(len(b)-n) {
				return m, errWire
			}
			f.B = b[n : n+int(v)]
			b = b[n+int(v):]
		case 5:
			if len(b) < 4 {
				return m, errWire
			}
			f.U = uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
			b = b[4:]
		default:
			return m, errWire
		}
		m.Fields[int(tag>>3)] = append(m.Fields[int(tag>>3)], f)
	}
	return m, nil
}

func (m Msg) Has(n int) bool { return len(m.Fields[n]) != 0 }

// U is the last value of a varint or fixed field, or 0
func (m Msg) U(n int) uint64 {
	f := m.Fields[n]
	if len(f) == 0 {
		return 0
	}
	return f[len(f)-1].U
}

// Z is a zigzag field
func (m Msg) Z(n int) int64 { u := m.U(n); return int64(u>>1) ^ -int64(u&1) }

func (m Msg) F64(n int) float64 { return math.Float64frombits(m.U(n)) }

func (m Msg) B(n int) []byte {
	f := m.Fields[n]
	if len(f) == 0 {
		return nil
	}
	return f[len(f)-1].B
}

// Us is a repeated varint field, packed or not
func (m Msg) Us(n int) (us []uint64, err error) {
	for _, f := range m.Fields[n] {
		if f.Type != 2 {
			us = append(us, f.U)
			continue
		}
		for b := f.B; len(b) > 0; {
			v, k, err := Uvarint(b)
			if err != nil {
				return nil, err
			}
			us = append(us, v)
			b = b[k:]
		}
	}
	return
}

func (m Msg) Bs(n int) (bs [][]byte) {
	for _, f := range m.Fields[n] {
		bs = append(bs, f.B)
	}
	return
}

func (m Msg) Msgs(n int) (ms []Msg, err error) {
	for _, f := range m.Fields[n] {
		c, err := Parse(f.B)
		if err != nil {
			return nil, err
		}
		ms = append(ms, c)
	}
	return
}

func (m Msg) Msg(n int) (c Msg, ok bool, err error) {
	if !m.Has(n) {
		return
	}
	c, err = Parse(m.B(n))
	return c, true, err
}

// W writes a message
type W struct{ b []byte }

func (w *W) Bytes() []byte { return w.b }

func AppendUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (w *W) U(n int, v uint64) *W {
	w.b = AppendUvarint(w.b, uint64(n)<<3)
	w.b = AppendUvarint(w.b, v)
	return w
}

func (w *W) Z(n int, v int64) *W { return w.U(n, uint64(v)<<1^uint64(v>>63)) }

func (w *W) F64(n int, v float64) *W {
	w.b = AppendUvarint(w.b, uint64(n)<<3|1)
	u := math.Float64bits(v)
	for i := 0; i < 8; i++ {
		w.b = append(w.b, byte(u>>(8*uint(i))))
	}
	return w
}

func (w *W) B(n int, v []byte) *W {
	w.b = AppendUvarint(w.b, uint64(n)<<3|2)
	w.b = AppendUvarint(w.b, uint64(len(v)))
	w.b = append(w.b, v...)
	return w
}

func (w *W) S(n int, v string) *W { return w.B(n, []byte(v)) }

func (w *W) M(n int, m *W) *W { return w.B(n, m.b) }

func (w *W) Packed(n int, vs []uint64) *W {
	var b []byte
	for _, v := range vs {
		b = AppendUvarint(b, v)
	}
	return w.B(n, b)
}
