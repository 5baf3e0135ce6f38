package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/encoding"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/refenc"
	"verif/harness/internal/rt"
)

// flushPoints draws after which of n values the encoder is flushed. The last one is always.
func flushPoints(r *rand.Rand, n int) []int {
	var l []int
	switch r.Intn(4) {
	case 0, 1:
	case 2:
		for i := 0; i < 1+r.Intn(4); i++ {
			l = append(l, r.Intn(n+1))
		}
	case 3:
		k := 1 + r.Intn(max(1, min(n, 700)))
		for i := k; i < n; i += k {
			l = append(l, i)
		}
	}
	m := map[int]bool{}
	for _, i := range l {
		m[i] = true
	}
	l = l[:0]
	for i := 0; i < n; i++ {
		if m[i] {
			l = append(l, i)
		}
	}
	return append(l, n)
}

// encodeAll encodes n values in one buffer, with flushes
func encodeAll(c *rt.C, e encoding.Encoder, n int, val func(i int) interface{}, flush []int) (out []byte, ends []int) {
	var buf bytes.Buffer
	at := 0
	for _, f := range flush {
		for ; at < f; at++ {
			if err := e.Encode(val(at), &buf); err != nil {
				c.Fail("encode error", "encoding value %d of %d failed: %v", at, n, err)
			}
		}
		if err := e.Flush(&buf); err != nil {
			c.Fail("flush error", "flushing after value %d of %d failed: %v", at, n, err)
		}
		ends = append(ends, buf.Len())
	}
	return buf.Bytes(), ends
}

// libInts decodes all by the library
func libInts(data []byte, signed bool, most int) (vals []int64, err error) {
	in := bytes.NewReader(data)
	d := encoding.NewIntDecoder(signed)
	for in.Len() > 0 && len(vals) <= most {
		if signed {
			vs, err := d.DecodeInt(in)
			if err != nil {
				return vals, err
			}
			vals = append(vals, vs...)
			continue
		}
		us, err := d.DecodeUInt(in)
		if err != nil {
			return vals, err
		}
		for _, u := range us {
			vals = append(vals, int64(u))
		}
	}
	return vals, nil
}

func diffInts(want, got []int64) string {
	for i := range want {
		if i >= len(got) {
			break
		}
		if want[i] != got[i] {
			return fmt.Sprintf("value %d of %d is %d, should be %d", i, len(want), got[i], want[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d values, should be %d", len(got), len(want))
	}
	return ""
}

func showInts(v []int64) string {
	if len(v) > 24 {
		return fmt.Sprintf("%d... (%d values)", v[:24], len(v))
	}
	return fmt.Sprint(v)
}

// intsRound is the oracle of C04
func intsRound(c *rt.C, vals []int64, signed bool, flush []int) {
	data, ends := encodeAll(c, encoding.NewIntRLV2(signed, c.R.Intn(2) == 0), len(vals), func(i int) interface{} {
		if signed {
			return vals[i]
		}
		return uint64(vals[i])
	}, flush)
	fail := func(key, d string) {
		c.Fail(key, "signed %t, flushed after %v: %s\nvalues %s", signed, brief(flush), d, showInts(vals))
	}
	// by parts too, as each flush ends a run
	from, fb := 0, 0
	for i, f := range flush {
		want := vals[from:f]
		got, used, runs, err := refdec.Ints(data[fb:ends[i]], len(want), signed)
		if err != nil {
			fail("independent decoder", err.Error())
		}
		if used != ends[i]-fb {
			fail("left over", fmt.Sprintf("%d bytes after the last run", ends[i]-fb-used))
		}
		if d := diffInts(want, got); d != "" {
			fail("independent decoder", d)
		}
		for _, run := range runs {
			c.Count([]string{"short repeat runs", "direct runs", "patched base runs", "delta runs"}[run.Kind], 1)
		}
		from, fb = f, ends[i]
	}
	got, err := libInts(data, signed, len(vals)+1024)
	if err != nil {
		fail("decode error", err.Error())
	}
	if d := diffInts(vals, got); d != "" {
		fail("decoder", d)
	}
	c.Count("values", len(vals))
}

func hashInts(vals []int64, signed bool) uint64 {
	h := model.HashInit
	if signed {
		h++
	}
	for _, v := range vals {
		h = model.Hash(h, v)
	}
	return h
}

func c04Random(c *rt.C) {
	r := c.R
	signed := r.Intn(3) != 0
	bits := []int{8, 16, 32, 64, 64}[r.Intn(5)]
	vals := model.GenInts(r, nRows(r, 3000), bits)
	if !signed && r.Intn(2) == 0 {
		for i := range vals {
			vals[i] &= math.MaxInt64
		}
	}
	f := flushPoints(r, len(vals))
	intsRound(c, vals, signed, f)
	if len(vals) == 0 {
		c.Trivial()
		return
	}
	c.Eval(hashInts(vals, signed))
	c.Sample("signed %t %s flushed at %v", signed, showInts(vals), brief(f))
}

// widths by length and kind: narrow values of a width with one, two or no outliers of another
func c04Widths(c *rt.C) {
	r := c.R
	for k := 0; k < 4; k++ {
		w, ow := (c.Idx/2)%65, r.Intn(65)
		signed := c.Idx%2 == 0
		n := []int{1, 2, 3, 4, 5, 10, 11, 20, 100, 300, 511, 512, 513, 700, 1024}[r.Intn(15)]
		vals := make([]int64, n)
		base := int64(0)
		if r.Intn(2) == 0 {
			base = model.RandBits(r, r.Intn(65))
		}
		for i := range vals {
			vals[i] = base + model.RandBits(r, w)
		}
		switch r.Intn(4) {
		case 1, 2:
			vals[r.Intn(n)] = base + model.RandBits(r, ow)
			if r.Intn(2) == 0 {
				vals[r.Intn(n)] = base + model.RandBits(r, ow)
			}
		case 3:
			for i := 0; i < n; i += 1 + r.Intn(300) {
				vals[i] = base + model.RandBits(r, ow)
			}
		}
		intsRound(c, vals, signed, flushPoints(r, n))
		c.Eval(hashInts(vals, signed))
	}
}

var edgeInts = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 127, -128, 1 << 56}

// all sequences of up to 5 of the edge values, 81 of them by case
func c04Short(c *rt.C) {
	const all = 9 + 81 + 729 + 6561 + 59049
	for k := c.Idx * 81; k < (c.Idx+1)*81 && k < 2*all; k++ {
		x, signed := k/2, k%2 == 0
		n, size := 1, 9
		for x >= size {
			x -= size
			n, size = n+1, size*9
		}
		vals := make([]int64, n)
		for i := range vals {
			vals[i] = edgeInts[x%9]
			x /= 9
		}
		flush := []int{n}
		if k%3 == 0 && n > 1 {
			flush = []int{1 + k%(n-1+1)%n, n}
			if flush[0] == 0 || flush[0] >= n {
				flush = []int{n}
			}
		}
		intsRound(c, vals, signed, flush)
		c.Eval(hashInts(vals, signed))
	}
	c.Count("short sequences", 81)
}

// runs as other writers choose them
func c04Other(c *rt.C) {
	r := c.R
	signed := r.Intn(2) == 0
	vals := model.GenInts(r, nRows(r, 2000), 64)
	m := refenc.Ints(r, vals, signed, refenc.RandStyle(r))
	got, err := libInts(m.B, signed, len(vals)+1024)
	if err != nil {
		c.Fail("decode error", "runs of the independent encoder, signed %t: %v\nvalues %s", signed, err, showInts(vals))
	}
	if d := diffInts(vals, got); d != "" {
		c.Fail("decoder", "runs of the independent encoder, signed %t: %s\nvalues %s", signed, d, showInts(vals))
	}
	c.Count("values", len(vals))
	c.Count("runs of the independent encoder", len(m.Runs))
	if len(vals) == 0 {
		c.Trivial()
		return
	}
	c.Eval(hashInts(vals, signed))
}

// any bytes which are a run by the format decode to its values
func c04AnyRun(c *rt.C) {
	r := c.R
	for k := 0; k < 40; k++ {
		b := make([]byte, 4+r.Intn(1200))
		r.Read(b)
		if r.Intn(2) == 0 { // short runs, so that most are complete
			b[1] = byte(r.Intn(24))
			b[0] &^= 1
		}
		kind := int(b[0] >> 6)
		if kind == 2 && r.Intn(2) == 0 {
			b[3] = b[3]&0xe0 | byte(r.Intn(3))
			b[0] = b[0]&0xc1 | byte(r.Intn(24))<<1
		}
		signed := r.Intn(2) == 0
		n := int(b[0]&1)<<8 | int(b[1]) + 1
		if kind == 0 {
			n = int(b[0]&7) + 3
		}
		if kind == 3 && n < 2 {
			continue
		}
		want, used, _, err := refdec.Ints(b, n, signed)
		if kind == 3 { // varints over 64 bits are of no writer
			if _, k := binary.Uvarint(b[2:]); k <= 0 {
				continue
			} else if _, k = binary.Uvarint(b[2+k:]); k <= 0 {
				continue
			}
		}
		if err != nil {
			c.Count("no runs", 1)
			continue
		}
		in := bytes.NewReader(b)
		var got []int64
		d := encoding.NewIntDecoder(signed)
		if signed {
			got, err = d.DecodeInt(in)
		} else {
			var us []uint64
			us, err = d.DecodeUInt(in)
			for _, u := range us {
				got = append(got, int64(u))
			}
		}
		if err != nil {
			c.Fail("decode error", "run % x signed %t: %v", b[:used], signed, err)
		}
		if d := diffInts(want, got); d != "" {
			c.Fail("decoder", "run % x signed %t: %s", b[:used], signed, d)
		}
		if len(b)-in.Len() != used {
			c.Fail("decoder", "run % x signed %t took %d bytes, should take %d", b[:used], signed, len(b)-in.Len(), used)
		}
		c.Count([]string{"short repeat runs", "direct runs", "patched base runs", "delta runs"}[kind], 1)
		c.Eval(model.Hash(model.HashInit, string(b[:used])))
	}
}

// C05

// parts cuts data by ends
func parts(data []byte, ends []int) [][]byte {
	var l [][]byte
	at := 0
	for _, e := range ends {
		l = append(l, data[at:e])
		at = e
	}
	return l
}

func bytesRound(c *rt.C, vals []byte, flush []int) {
	data, ends := encodeAll(c, encoding.NewByteEncoder(c.R.Intn(2) == 0), len(vals), func(i int) interface{} { return vals[i] }, flush)
	at := 0
	for i, p := range parts(data, ends) {
		want := vals[at:flush[i]]
		got, used, err := refdec.Bytes(p, len(want))
		if err != nil || used != len(p) || !bytes.Equal(got, want) {
			c.Fail("bytes", "bytes % x flushed after %v: independent decoder has % x, %d of %d bytes used, %v", cut(want), flush, cut(got), used, len(p), err)
		}
		at = flush[i]
	}
	in := bytes.NewReader(data)
	var got []byte
	var err error
	for in.Len() > 0 {
		if got, err = encoding.DecodeByteRL(in, got); err != nil {
			c.Fail("bytes", "bytes % x flushed after %v: decoding failed: %v", cut(vals), flush, err)
		}
		c.Count("byte runs", 1)
	}
	if !bytes.Equal(got, vals) {
		c.Fail("bytes", "bytes % x flushed after %v are decoded as % x", cut(vals), flush, cut(got))
	}
	c.Count("values", len(vals))
}

func boolsRound(c *rt.C, vals []bool, flush []int) {
	data, ends := encodeAll(c, encoding.NewBoolEncoder(c.R.Intn(2) == 0), len(vals), func(i int) interface{} { return vals[i] }, flush)
	at := 0
	for i, p := range parts(data, ends) {
		want := vals[at:flush[i]]
		n := len(want)
		got, used, err := refdec.Bools(p, n)
		ok := err == nil && used == len(p)
		for j := 0; ok && j < n; j++ {
			ok = got[j] == want[j]
		}
		if !ok {
			c.Fail("bools", "bools %v flushed after %v: independent decoder has %v, %d of %d bytes used, %v", cutb(vals), flush, cutb(got), used, len(p), err)
		}
		in := bytes.NewReader(p)
		var lib []bool
		for in.Len() > 0 {
			if lib, err = encoding.DecodeBools(in, lib); err != nil {
				c.Fail("bools", "bools %v flushed after %v: decoding failed: %v", cutb(vals), flush, err)
			}
		}
		ok = len(lib) == (n+7)/8*8
		for j := 0; ok && j < n; j++ {
			ok = lib[j] == want[j]
		}
		for j := n; ok && j < len(lib); j++ {
			ok = !lib[j] // bits of no value are not left from others
		}
		if !ok {
			c.Fail("bools", "bools %v flushed after %v: part %d is decoded as %v", cutb(vals), flush, i, cutb(lib))
		}
		at = flush[i]
	}
	c.Count("values", len(vals))
	c.Count("bools", len(vals))
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func cutb(b []bool) []bool {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

func c05Random(c *rt.C) {
	r := c.R
	n := nRows(r, 3000)
	f := flushPoints(r, n)
	h := model.HashInit
	switch c.Idx % 6 {
	case 0, 1:
		vals := model.GenBytes(r, n)
		c.Sample("%d bytes flushed at %v: %x", n, brief(f), head(vals, 40))
		bytesRound(c, vals, f)
		h = model.Hash(1, string(vals))
	case 2:
		vals := model.GenBools(r, n)
		boolsRound(c, vals, f)
		for _, v := range vals {
			h = model.Hash(h, v)
		}
	case 3:
		vals := model.GenFloats(r, n)
		floatsRound(c, vals, f)
		for _, v := range vals {
			h = model.Hash(h, model.F64(math.Float64bits(v)))
		}
	case 4:
		vals := model.GenStrings(r, min(n, 600), false)
		stringsRound(c, vals, flushPoints(r, len(vals)))
		n = len(vals)
		for _, v := range vals {
			h = model.Hash(h, v)
		}
	case 5:
		vals := model.GenInts(r, n, 64)
		varintsRound(c, vals, f)
		h = hashInts(vals, true)
	}
	if n == 0 {
		c.Trivial()
		return
	}
	c.Eval(h)
}

func floatsRound(c *rt.C, vals []float64, flush []int) {
	n := len(vals)
	data, _ := encodeAll(c, encoding.NewDoubleEncoder(), n, func(i int) interface{} { return vals[i] }, flush)
	in := bytes.NewReader(data)
	if len(data) != 8*n {
		c.Fail("doubles", "%d doubles have %d bytes", n, len(data))
	}
	for i, v := range vals {
		if math.Float64frombits(binary.LittleEndian.Uint64(data[8*i:])) != v && v == v || binary.LittleEndian.Uint64(data[8*i:]) != math.Float64bits(v) {
			c.Fail("doubles", "double %v %x is encoded as % x", v, math.Float64bits(v), data[8*i:8*i+8])
		}
		got, err := encoding.DecodeDouble(in)
		if err != nil || math.Float64bits(got) != math.Float64bits(v) {
			c.Fail("doubles", "double %v %x is decoded as %v %x, %v", v, math.Float64bits(v), got, math.Float64bits(got), err)
		}
	}
	f32 := make([]uint32, n)
	for i := range f32 {
		f32[i] = math.Float32bits(float32(vals[i]))
		if c.R.Intn(2) == 0 {
			f32[i] = c.R.Uint32()
		}
		if i%7 == 3 { // signalling NaN and denormal ones
			f32[i] = []uint32{0x7f800001, 0xffbfffff, 1, 0x80000000, 0x7fc00001}[c.R.Intn(5)]
		}
	}
	data, _ = encodeAll(c, encoding.NewFloatEncoder(), n, func(i int) interface{} { return math.Float32frombits(f32[i]) }, flush)
	in = bytes.NewReader(data)
	if len(data) != 4*n {
		c.Fail("floats", "%d floats have %d bytes", n, len(data))
	}
	for i, v := range f32 {
		if binary.LittleEndian.Uint32(data[4*i:]) != v {
			c.Fail("floats", "float %x is encoded as % x", v, data[4*i:4*i+4])
		}
		got, err := encoding.DecodeFloat(in)
		if err != nil || math.Float32bits(got) != v {
			c.Fail("floats", "float %x is decoded as %x, %v", v, math.Float32bits(got), err)
		}
	}
	c.Count("values", 2*n)
	c.Count("floats", 2*n)
}

func stringsRound(c *rt.C, vals []string, flush []int) {
	given := make([]byte, 0, 100)
	data, _ := encodeAll(c, encoding.NewStringContentsEncoder(), len(vals), func(i int) interface{} {
		given = append(given[:0], vals[i]...) // buffer of caller is used again
		return given
	}, flush)
	in := bytes.NewReader(data)
	at := 0
	for i, v := range vals {
		if at+len(v) > len(data) || string(data[at:at+len(v)]) != v {
			c.Fail("strings", "value %d of %d is not in data", i, len(vals))
		}
		at += len(v)
		got, err := encoding.DecodeBytes(in, len(v))
		if err != nil || string(got) != v {
			c.Fail("strings", "value %d %q is decoded as %q, %v", i, v, got, err)
		}
	}
	if at != len(data) {
		c.Fail("strings", "%d bytes are left over", len(data)-at)
	}
	c.Count("values", len(vals))
	c.Count("strings", len(vals))
}

func varintsRound(c *rt.C, vals []int64, flush []int) {
	data, _ := encodeAll(c, encoding.NewVarint64Encoder(), len(vals), func(i int) interface{} { return vals[i] }, flush)
	in := bytes.NewReader(data)
	at := 0
	for i, v := range vals {
		var u uint64
		var sh uint
		for {
			if at >= len(data) {
				c.Fail("varints", "value %d of %d is over the end", i, len(vals))
			}
			b := data[at]
			at++
			u |= uint64(b&0x7f) << sh
			sh += 7
			if b < 0x80 {
				break
			}
		}
		if w := int64(u>>1) ^ -int64(u&1); w != v {
			c.Fail("varints", "value %d is encoded as %d", v, w)
		}
		got, err := encoding.DecodeVarInt64(in)
		if err != nil || got != v {
			c.Fail("varints", "value %d is decoded as %d, %v", v, got, err)
		}
	}
	if at != len(data) {
		c.Fail("varints", "%d bytes are left over", len(data)-at)
	}
	// unsigned ones
	var buf []byte
	for _, v := range vals {
		buf = binary.AppendUvarint(buf, uint64(v))
	}
	in = bytes.NewReader(buf)
	for _, v := range vals {
		got, err := encoding.ReadVUint(in)
		if err != nil || got != uint64(v) {
			c.Fail("varints", "unsigned %d is decoded as %d, %v", uint64(v), got, err)
		}
		if encoding.UnZigzag(encoding.Zigzag(v)) != v || encoding.Zigzag(v) != uint64(v)<<1^uint64(v>>63) {
			c.Fail("zigzag", "%d is %d zigzag", v, encoding.Zigzag(v))
		}
		if got := encoding.Convert(encoding.Zigzag(v)); got != v {
			c.Fail("zigzag", "%d is %d zigzag, converted %d", v, encoding.Zigzag(v), got)
		}
	}
	c.Count("values", 2*len(vals))
	c.Count("varints", 2*len(vals))
}

// all sequences of up to 9 of 3 byte values, and of up to 12 bools with a flush at each place
func c05Short(c *rt.C) {
	k := c.Idx
	if k < 9841+3*1024 { // 3+9+...+3^8 and some of the next
		for q := 0; q < 3; q++ {
			x := k*3 + q
			n, size := 1, 3
			for x >= size {
				x -= size
				n, size = n+1, size*3
			}
			vals := make([]byte, n)
			for i := range vals {
				vals[i] = []byte{0, 255, 7}[x%3]
				x /= 3
			}
			bytesRound(c, vals, []int{n})
			c.Eval(model.Hash(2, string(vals)))
			if n > 2 {
				bytesRound(c, vals, []int{k % n, n})
			}
		}
	}
	x := k
	n := 1
	for x >= 1<<uint(n) {
		x -= 1 << uint(n)
		n++
	}
	vals := make([]bool, n)
	h := uint64(3)
	for i := range vals {
		vals[i] = x>>uint(i)&1 == 1
		h = model.Hash(h, vals[i])
	}
	for f := 0; f < n; f++ {
		fl := []int{n}
		if f > 0 {
			fl = []int{f, n}
		}
		boolsRound(c, vals, fl)
	}
	c.Eval(h)
}

// runs of bytes of all lengths around the limits
func c05Runs(c *rt.C) {
	r := c.R
	var vals []byte
	for len(vals) < 100+r.Intn(500) {
		l := []int{1, 2, 3, 4, 126, 127, 128, 129, 130, 131, 132, 133, 255, 256, 257, 258, 259, 260, 261, 1 + r.Intn(300)}[r.Intn(20)]
		if r.Intn(2) == 0 {
			b := byte(r.Intn(3))
			for ; l > 0; l-- {
				vals = append(vals, b)
			}
		} else {
			for ; l > 0; l-- {
				vals = append(vals, byte(len(vals)))
			}
		}
	}
	bytesRound(c, vals, flushPoints(r, len(vals)))
	bs := make([]bool, 0, 8*len(vals))
	for _, b := range vals {
		for i := 0; i < 8; i++ {
			bs = append(bs, b>>uint(i)&1 == 1)
		}
	}
	bs = bs[:len(bs)-r.Intn(9)]
	boolsRound(c, bs, flushPoints(r, len(bs)))
	c.Eval(model.Hash(4, string(vals)))
}

// C06

func genData(r *rand.Rand, n int) []byte {
	b := make([]byte, 0, n+100)
	for len(b) < n {
		l := 1 + r.Intn(400)
		switch r.Intn(5) {
		case 0:
			for ; l > 0; l-- {
				b = append(b, byte(r.Intn(256)))
			}
		case 1:
			x := byte(r.Intn(256))
			for ; l > 0; l-- {
				b = append(b, x)
			}
		case 2:
			for ; l > 0; l-- {
				b = append(b, "abcdefgh"[r.Intn(8)])
			}
		case 3:
			if len(b) > 10 {
				at := r.Intn(len(b) - 5)
				b = append(b, b[at:min(len(b), at+l)]...)
			}
		case 4:
			for ; l > 0; l-- {
				b = append(b, byte(l))
			}
		}
	}
	return b[:n]
}

func checkChunks(c *rt.C, out, data []byte, size int, how string) []refdec.Chunk {
	got, chunks, err := refdec.Decompress(1, out, size)
	if err != nil {
		c.Fail("chunks", "%s of %d bytes by chunks of %d: %v", how, len(data), size, err)
	}
	if d := diffBytes(data, got); d != "" {
		c.Fail("data", "%s of %d bytes by chunks of %d restores other data: %s", how, len(data), size, d)
	}
	for i, ch := range chunks {
		if ch.Len > ch.Size && !(ch.Size == 0 && ch.Len <= 2) {
			c.Fail("original", "%s: chunk %d of %d bytes is stored as %d", how, i, ch.Size, ch.Len)
		}
		l, orig := common.DecChunkHeader(out[ch.At : ch.At+3])
		if l != ch.Len || orig != ch.Original {
			c.Fail("header", "%s: header % x is decoded as %d %t", how, out[ch.At:ch.At+3], l, orig)
		}
		if ch.Original {
			c.Count("original chunks", 1)
		} else {
			c.Count("deflated chunks", 1)
		}
	}
	var dst bytes.Buffer
	if err := common.DecompressChunks(pb.CompressionKind_ZLIB, &dst, bytes.NewBuffer(append([]byte(nil), out...))); err != nil {
		c.Fail("decompress error", "%s of %d bytes by chunks of %d: %v", how, len(data), size, err)
	}
	if d := diffBytes(data, dst.Bytes()); d != "" {
		c.Fail("decompress", "%s of %d bytes by chunks of %d: %s", how, len(data), size, d)
	}
	for _, ch := range chunks {
		if ch.Size == 0 { // not a chunk to it
			return chunks
		}
	}
	read, err := orc.ReadChunks(out, pb.CompressionKind_ZLIB, size)
	if err != nil {
		c.Fail("read chunks error", "%s of %d bytes by chunks of %d: %v", how, len(data), size, err)
	}
	if d := diffBytes(data, read); d != "" {
		c.Fail("read chunks", "%s of %d bytes by chunks of %d: %s", how, len(data), size, d)
	}
	c.Count("bytes", len(data))
	return chunks
}

func c06Chunks(c *rt.C) {
	r := c.R
	size := []int{1, 2, 3, 1 + r.Intn(40), 16, 127, 128, 129, 100 + r.Intn(1000), 4096, 32767, 32768, 65536, 262144, 1<<23 - 1}[r.Intn(15)]
	n := r.Intn(3000)
	switch r.Intn(5) {
	case 0:
		n = min(size*(1+r.Intn(3)), 600000) // whole chunks
	case 1:
		n = max(0, min(size*(1+r.Intn(3)), 600000)+r.Intn(3)-1)
	case 2:
		n = r.Intn(min(8*size, 300000) + 1)
	}
	if size < 16 {
		n = min(n, 600)
	}
	data := genData(r, n)
	if r.Intn(4) == 0 { // not compressible at all
		r.Read(data)
	}
	c06Data(c, size, data)
}

// chunks of up to the largest length of a header
func c06Large(c *rt.C) {
	r := c.R
	size := []int{1<<23 - 1, 1<<23 - 1, 1 << 22, 1<<22 - 1, 1 << 20, 1<<17 + r.Intn(1<<22)}[r.Intn(6)]
	n := []int{size - 1, size, size + 1, 2 * size, size + r.Intn(size)}[r.Intn(5)]
	data := make([]byte, n)
	r.Read(data)
	if r.Intn(3) == 0 {
		for i := range data { // some of 8 bits
			data[i] &= 0x3f
		}
	}
	c06Data(c, size, data)
}

// data which deflate makes but a few bytes shorter or longer
func c06Near(c *rt.C) {
	r := c.R
	// uniform, but for some bytes: of 200 to 500 the deflated length changes little by each
	n, a := 200+r.Intn(300), 190+r.Intn(67)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(r.Intn(a))
	}
	places, other := r.Perm(n), 1+r.Intn(2)
	change := func(k int) []byte {
		b := append([]byte(nil), data...)
		for _, i := range places[:k] {
			b[i] = byte(i % other)
		}
		return b
	}
	k := sort.Search(n, func(k int) bool {
		var dst bytes.Buffer
		src := change(k)
		if err := common.CompressingAllInChunks(pb.CompressionKind_ZLIB, n, &dst, bytes.NewBuffer(src)); err != nil {
			c.Fail("compress error", "%d bytes in one chunk: %v", n, err)
		}
		return dst.Len() > 0 && dst.Bytes()[0]&1 == 0
	})
	for i := max(0, k-8); i < min(n, k+4); i++ {
		b := change(i)
		if i%2 == 0 || r.Intn(4) == 0 {
			b = append(b, b[:r.Intn(n)]...) // a full chunk, not the last
		}
		c06Data(c, n, b)
	}
	c.Count("data near its deflated length", 12)
}

func c06Data(c *rt.C, size int, data []byte) {
	r := c.R
	n := len(data)
	src := append([]byte(nil), data...)
	kind := pb.CompressionKind_ZLIB
	var all bytes.Buffer
	if err := common.CompressingAllInChunks(kind, size, &all, bytes.NewBuffer(src)); err != nil {
		c.Fail("compress error", "%d bytes by chunks of %d: %v", n, size, err)
	}
	chunks := checkChunks(c, all.Bytes(), data, size, "compressing all")
	// while it is produced
	var out, buf bytes.Buffer
	for at := 0; at < n; {
		k := min(n-at, 1+r.Intn(1+2*size))
		if r.Intn(3) == 0 && n < 1<<20 {
			k = min(n-at, 1+r.Intn(20))
		}
		buf.Write(data[at : at+k])
		at += k
		before := out.Len()
		if buf.Len() > size || r.Intn(20) == 0 {
			if err := common.CompressingChunks(kind, size, &out, &buf); err != nil {
				c.Fail("compress error", "%d bytes by chunks of %d: %v", n, size, err)
			}
			if buf.Len() > size {
				c.Fail("left", "%d bytes are left not compressed by chunks of %d", buf.Len(), size)
			}
			if out.Len() > before {
				c.Count("piecewise compressions", 1)
			}
		}
	}
	if err := common.CompressingLeft(kind, size, &out, &buf); err != nil {
		c.Fail("compress error", "%d bytes by chunks of %d: %v", n, size, err)
	}
	checkChunks(c, out.Bytes(), data, size, "compressing piecewise")
	// cut in a chunk is an error
	b := all.Bytes()
	bounds := map[int]bool{0: true}
	for _, ch := range chunks {
		bounds[ch.At+3+ch.Len] = true
	}
	for i := 0; i < 12 && len(b) > 0 && (i < 4 || n < 1<<20); i++ {
		at := r.Intn(len(b))
		if i < 4 && len(chunks) > 0 {
			ch := chunks[r.Intn(len(chunks))]
			at = min(ch.At+1+i, len(b)-1)
		}
		var dst bytes.Buffer
		err := common.DecompressChunks(kind, &dst, bytes.NewBuffer(append([]byte(nil), b[:at]...)))
		if err == nil && !bounds[at] {
			c.Fail("truncated", "%d bytes of %d of chunks of %d, which end in a chunk, are decompressed without error to %d bytes of %d", at, len(b), size, dst.Len(), n)
		}
		if err == nil && !bytes.HasPrefix(data, dst.Bytes()) {
			c.Fail("truncated", "%d bytes of %d are decompressed to other data", at, len(b))
		}
		if read, err := orc.ReadChunks(b[:at:at], kind, size); err == nil && (!bounds[at] || !bytes.HasPrefix(data, read)) {
			c.Fail("truncated", "of %d bytes of %d of chunks of %d, %d are read without error", at, len(b), size, len(read))
		}
		c.Count("truncations", 1)
	}
	// chunks of another writer
	for _, ch := range chunks {
		if !ch.Original && ch.Len > 0 {
			var dst bytes.Buffer
			n, err := common.Decompress(kind, &dst, bytes.NewBuffer(append([]byte(nil), b[ch.At+3:ch.At+3+ch.Len]...)))
			if err != nil || int(n) != ch.Size || dst.Len() != ch.Size {
				c.Fail("decompress", "chunk of %d is decompressed to %d (%d told), %v", ch.Size, dst.Len(), n, err)
			}
			break
		}
	}
	if n == 0 {
		c.Trivial()
		return
	}
	c.Eval(model.Hash(uint64(size), string(data)))
	c.Sample("%d bytes by chunks of %d: %d chunks", n, size, len(chunks))
}

// all headers
func c06Headers(c *rt.C) {
	for k := 0; k < 4096; k++ {
		v := c.Idx*4096 + k
		h := []byte{byte(v), byte(v >> 8), byte(v >> 16)}
		l, orig := common.DecChunkHeader(h)
		if l != v>>1 || orig != (v&1 == 1) {
			c.Fail("header", "header % x is decoded as %d %t", h, l, orig)
		}
	}
	c.Count("headers", 4096)
	c.Eval(uint64(c.Idx))
}

// C20

// decoders are run until an error, or all is consumed
type decoder struct {
	name string
	// step decodes once, and tells the number of values and the most there may be of the bytes it took
	step func(in *bytes.Reader) (n int, err error)
	most func(took int) int
}

func decoders(r *rand.Rand) []decoder {
	sd, ud := encoding.NewIntDecoder(true), encoding.NewIntDecoder(false)
	dd := encoding.NewDateV2DeCoder()
	length := r.Intn(100)
	if r.Intn(8) == 0 {
		length = []int{-1, 0, 1 << 20, 1 << 30, math.MaxInt, math.MinInt, 1<<20 + 1}[r.Intn(7)]
	}
	run := func(took int) int { return 512 }
	return []decoder{
		{"signed ints", func(in *bytes.Reader) (int, error) { v, err := sd.DecodeInt(in); return len(v), err }, run},
		{"unsigned ints", func(in *bytes.Reader) (int, error) { v, err := ud.DecodeUInt(in); return len(v), err }, run},
		{"dates", func(in *bytes.Reader) (int, error) { v, err := dd.Decode(in); return len(v), err }, run},
		{"bytes", func(in *bytes.Reader) (int, error) { v, err := encoding.DecodeByteRL(in, nil); return len(v), err }, func(int) int { return 130 }},
		{"bools", func(in *bytes.Reader) (int, error) { v, err := encoding.DecodeBools(in, nil); return len(v), err }, func(int) int { return 130 * 8 }},
		{"varint", func(in *bytes.Reader) (int, error) { _, err := encoding.DecodeVarInt64(in); return 1, err }, func(int) int { return 1 }},
		{"varuint", func(in *bytes.Reader) (int, error) { _, err := encoding.ReadVUint(in); return 1, err }, func(int) int { return 1 }},
		{"float", func(in *bytes.Reader) (int, error) { _, err := encoding.DecodeFloat(in); return 1, err }, func(t int) int { return t / 4 }},
		{"double", func(in *bytes.Reader) (int, error) { _, err := encoding.DecodeDouble(in); return 1, err }, func(t int) int { return t / 8 }},
		{"contents", func(in *bytes.Reader) (int, error) {
			before := rt.Allocated()
			v, err := encoding.DecodeBytes(in, length)
			if err == nil && len(v) != length {
				return 1 << 30, nil
			}
			if a := rt.Allocated() - before; a > 16<<20 {
				return 1 << 30, nil
			}
			if err == nil && length == 0 {
				in.ReadByte()
			}
			return len(v), err
		}, func(t int) int { return t }},
	}
}

func survive(c *rt.C, d decoder, data []byte) {
	in := bytes.NewReader(data)
	var p interface{}
	var st string
	steps, n := 0, 0
	for in.Len() > 0 {
		before := in.Len()
		var err error
		p, st = rt.Try(func() { n, err = d.step(in) })
		if p != nil {
			c.Fail("panic in "+d.name, "decoding % x as %s: panic %v\n%s", cut(data), d.name, p, st)
		}
		took := before - in.Len()
		if took == 0 && err == nil {
			c.Fail("no progress in "+d.name, "decoding % x as %s consumed nothing and had no error", cut(data), d.name)
		}
		if err == nil && n > d.most(took) {
			c.Fail("too many values of "+d.name, "decoding % x as %s made %d values of %d bytes", cut(data), d.name, n, took)
		}
		if err != nil {
			c.Count("errors", 1)
			return
		}
		c.Count("values", n)
		if steps++; steps > len(data) {
			c.Fail("no progress in "+d.name, "decoding % x as %s made %d steps", cut(data), d.name, steps)
		}
	}
	// at the end
	p, st = rt.Try(func() {
		if _, err := d.step(in); err == nil && d.name != "contents" {
			c.Fail("no error at end in "+d.name, "decoding % x as %s has no error at the end of input", cut(data), d.name)
		}
	})
	if p != nil {
		c.Fail("panic in "+d.name, "decoding % x as %s at its end: panic %v\n%s", cut(data), d.name, p, st)
	}
}

// all of one or two bytes, and of three and more by their first ones
func c20Short(c *rt.C) {
	r := c.R
	for lo := 0; lo < 256; lo++ {
		data := []byte{byte(c.Idx), byte(lo)}
		ds := decoders(r)
		for _, d := range ds {
			survive(c, d, data[:1])
			survive(c, d, data)
		}
		for k := 0; k < 3; k++ {
			more := append([]byte(nil), data...)
			for i := r.Intn(30); i >= 0; i-- {
				more = append(more, []byte{0, 1, 255, 128, 127, byte(r.Intn(256)), byte(r.Intn(256))}[r.Intn(7)])
			}
			survive(c, ds[r.Intn(len(ds))], more)
			survive(c, ds[r.Intn(2)], more)
			c.Eval(model.Hash(5, string(more)))
		}
	}
}

func c20Random(c *rt.C) {
	r := c.R
	var data []byte
	switch r.Intn(3) {
	case 0:
		data = make([]byte, r.Intn(4000))
		r.Read(data)
	case 1: // a legal encoding, then changed
		data = append(data, refenc.Ints(r, model.GenInts(r, 1+r.Intn(1000), 64), r.Intn(2) == 0, refenc.RandStyle(r)).B...)
		for i := r.Intn(4); i >= 0; i-- {
			data[r.Intn(len(data))] = byte(r.Intn(256))
		}
		data = data[:r.Intn(len(data)+1)]
	case 2:
		data = append(data, refenc.Bytes(r, model.GenBytes(r, 1+r.Intn(1000))).B...)
		for i := r.Intn(4); i >= 0; i-- {
			data[r.Intn(len(data))] = byte(r.Intn(256))
		}
		data = data[:r.Intn(len(data)+1)]
	}
	c.Sample("%d bytes: %x", len(data), head(data, 40))
	for _, d := range decoders(r) {
		survive(c, d, data)
	}
	c.Eval(model.Hash(6, string(data)))
}

// chunks of any bytes
func c20Chunks(c *rt.C) {
	r := c.R
	var data []byte
	switch r.Intn(3) {
	case 0:
		data = make([]byte, r.Intn(300))
		r.Read(data)
	default:
		var all bytes.Buffer
		if err := common.CompressingAllInChunks(pb.CompressionKind_ZLIB, 1+r.Intn(500), &all, bytes.NewBuffer(genData(r, r.Intn(3000)))); err != nil {
			c.Fail("compress error", "%v", err)
		}
		data = all.Bytes()
		for i := r.Intn(4); i >= 0 && len(data) > 0; i-- {
			data[r.Intn(len(data))] = byte(r.Intn(256))
		}
		data = data[:r.Intn(len(data)+1)]
	}
	for _, kind := range []pb.CompressionKind{pb.CompressionKind_ZLIB, pb.CompressionKind_NONE, pb.CompressionKind_SNAPPY} {
		var dst bytes.Buffer
		before := rt.Allocated()
		p, st := rt.Try(func() {
			err := common.DecompressChunks(kind, &dst, bytes.NewBuffer(append([]byte(nil), data...)))
			if err != nil {
				c.Count("errors", 1)
			} else {
				c.Count("chunk sequences restored", 1)
			}
		})
		if p != nil {
			c.Fail("panic in chunks", "decompressing % x: panic %v\n%s", cut(data), p, st)
		}
		if a, most := rt.Allocated()-before, uint64(24<<20+3000*len(data)); a > most {
			c.Fail("memory of chunks", "decompressing %d bytes allocated %d", len(data), a)
		}
		p, st = rt.Try(func() {
			dst.Reset()
			common.Decompress(kind, &dst, bytes.NewBuffer(append([]byte(nil), data...)))
		})
		if p == nil {
			size := 1 + r.Intn(1<<uint(r.Intn(23)))
			p, st = rt.Try(func() {
				if d, err := orc.ReadChunks(data, kind, size); err == nil && len(d) > size*(len(data)/3+1) {
					c.Fail("size of chunks", "%d bytes restored of %d with chunks of %d", len(d), len(data), size)
				}
			})
		}
		if p != nil {
			c.Fail("panic in chunk", "decompressing % x: panic %v\n%s", cut(data), p, st)
		}
	}
	c.Eval(model.Hash(7, string(data)))
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
