package wire

import "math/rand"

// Node is a field which can be changed
type Node struct {
	Num, Type int
	U         uint64
	B         []byte
	Packed    []uint64
	IsPacked  bool
	Kids      []*Node
	IsMsg     bool
}

// Shape tells which fields are messages, or packed varints
type Shape struct {
	Msgs   map[int]*Shape
	Packed map[int]bool
}

// Tree parses a message. What is not of the shape stays bytes.
func Tree(b []byte, sh *Shape) ([]*Node, error) {
	var l []*Node
	for len(b) > 0 {
		tag, n, err := Uvarint(b)
		if err != nil {
			return nil, err
		}
		m, err := Parse(b[:fieldLen(b, n, int(tag&7))])
		if err != nil {
			return nil, err
		}
		f := m.Fields[int(tag>>3)][0]
		nd := &Node{Num: int(tag >> 3), Type: f.Type, U: f.U, B: f.B}
		if f.Type == 2 && sh != nil {
			if k := sh.Msgs[nd.Num]; k != nil {
				nd.IsMsg = true
				if nd.Kids, err = Tree(f.B, k); err != nil {
					return nil, err
				}
			}
			if sh.Packed[nd.Num] {
				nd.IsPacked = true
				if nd.Packed, err = m.Us(nd.Num); err != nil {
					return nil, err
				}
			}
		}
		l = append(l, nd)
		b = b[fieldLen(b, n, f.Type):]
	}
	return l, nil
}

func fieldLen(b []byte, n, typ int) int {
	switch typ {
	case 0:
		_, k, err := Uvarint(b[n:])
		if err != nil {
			return len(b)
		}
		return n + k
	case 1:
		return min(n+8, len(b))
	case 5:
		return min(n+4, len(b))
	case 2:
		v, k, err := Uvarint(b[n:])
		if err != nil || v > uint64(len(b)-n-k) {
			return len(b)
		}
		return n + k + int(v)
	}
	return len(b)
}

// Put writes nodes
func Put(b []byte, l []*Node) []byte {
	for _, n := range l {
		b = AppendUvarint(b, uint64(n.Num)<<3|uint64(n.Type&7))
		switch n.Type {
		case 0:
			b = AppendUvarint(b, n.U)
		case 1, 5:
			k := 8
			if n.Type == 5 {
				k = 4
			}
			for i := 0; i < k; i++ {
				b = append(b, byte(n.U>>(8*uint(i))))
			}
		case 2:
			p := n.B
			if n.IsMsg {
				p = Put(nil, n.Kids)
			}
			if n.IsPacked {
				p = nil
				for _, u := range n.Packed {
					p = AppendUvarint(p, u)
				}
			}
			b = AppendUvarint(b, uint64(len(p)))
			b = append(b, p...)
		}
	}
	return b
}

// Get is the last field of the number, nil if there is none
func Get(l []*Node, num int) *Node {
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].Num == num {
			return l[i]
		}
	}
	return nil
}

// All are the fields of the number
func All(l []*Node, num int) (a []*Node) {
	for _, n := range l {
		if n.Num == num {
			a = append(a, n)
		}
	}
	return
}

// SetU sets a varint field
func SetU(l []*Node, num int, u uint64) []*Node {
	if n := Get(l, num); n != nil {
		n.U = u
		return l
	}
	return append(l, &Node{Num: num, U: u})
}

// Odd changes a number to one which may make trouble
func Odd(r *rand.Rand, u uint64) uint64 {
	switch r.Intn(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return u + 1
	case 3:
		return u - 1
	case 4:
		return 1<<64 - 1
	case 5:
		return 1<<63 + uint64(r.Intn(3)) - 1
	case 6:
		return 1<<32 + uint64(r.Intn(3)) - 1
	case 7:
		return 1<<31 + uint64(r.Intn(3)) - 1
	case 8:
		return u * 2
	case 9:
		return u / 2
	case 10:
		return 1 << uint(r.Intn(64))
	case 11:
		return u ^ 1<<uint(r.Intn(64))
	case 12:
		return uint64(r.Intn(40))
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

// Mutate changes one thing of the message, and tells what
func Mutate(r *rand.Rand, l []*Node) ([]*Node, string) {
	if len(l) == 0 {
		return append(l, &Node{Num: 1 + r.Intn(12), U: Odd(r, 0)}), "a field added"
	}
	i := r.Intn(len(l))
	n := l[i]
	name := func(what string) string { return what + " of field " + itoa(n.Num) }
	switch r.Intn(12) {
	case 0:
		return append(append([]*Node(nil), l[:i]...), l[i+1:]...), name("removal")
	case 1:
		return append(append([]*Node(nil), l[:i+1]...), l[i:]...), name("repetition")
	case 2:
		j := r.Intn(len(l))
		c := append([]*Node(nil), l...)
		c[i], c[j] = c[j], c[i]
		return c, name("exchange")
	}
	c := *n
	m := append([]*Node(nil), l...)
	m[i] = &c
	switch {
	case n.IsMsg:
		var what string
		c.Kids, what = Mutate(r, n.Kids)
		return m, what + name("")
	case n.IsPacked:
		c.Packed = append([]uint64(nil), n.Packed...)
		switch k := len(c.Packed); {
		case k == 0 || r.Intn(5) == 0:
			c.Packed = append(c.Packed, Odd(r, 0))
		case r.Intn(5) == 0:
			c.Packed = c.Packed[:k-1]
		default:
			j := r.Intn(k)
			c.Packed[j] = Odd(r, c.Packed[j])
		}
		return m, name("positions")
	case n.Type == 2:
		c.B = append([]byte(nil), n.B...)
		switch {
		case r.Intn(8) == 0:
			c.Type, c.U = 0, Odd(r, 0)
		case len(c.B) > 0 && r.Intn(2) == 0:
			c.B[r.Intn(len(c.B))] = byte(r.Intn(256))
		case len(c.B) > 0 && r.Intn(2) == 0:
			c.B = c.B[:r.Intn(len(c.B))]
		default:
			c.B = append(c.B, byte(r.Intn(256)))
		}
		return m, name("bytes")
	default:
		c.U = Odd(r, n.U)
		if r.Intn(30) == 0 {
			c.Type = []int{0, 1, 5, 3, 2}[r.Intn(5)]
		}
		return m, name("number " + utoa(c.U))
	}
}

func itoa(n int) string { return utoa(uint64(n)) }

func utoa(u uint64) string {
	if u == 0 {
		return "0"
	}
	var b []byte
	for ; u > 0; u /= 10 {
		b = append([]byte{byte('0' + u%10)}, b...)
	}
	return string(b)
}
