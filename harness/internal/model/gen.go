package model

import (
	"math"
	"math/rand"
	"strings"
)

// SchemaOpts limits what schemas are generated
type SchemaOpts struct {
	Nested   bool // lists and maps too, else what can be written
	MaxCols  int
	MaxDepth int
	NoDict   bool
	AnyRoot  bool // root maybe primitive or nullable
	Names    bool // odd field names
	NonNull  bool // no nullable columns
}

var primitives = []Kind{Boolean, Byte, Short, Int, Long, Float, Double, String, Binary, Timestamp, Decimal, Date, Varchar, Char}

func GenPrimitive(r *rand.Rand, o SchemaOpts) *Type {
	k := primitives[r.Intn(len(primitives))]
	t := &Type{Kind: k, Enc: DefaultEnc(k)}
	if (k == String || k == Varchar || k == Char) && !o.NoDict && r.Intn(2) == 0 {
		t.Enc = DictionaryV2
	}
	return t
}

func GenSchema(r *rand.Rand, o SchemaOpts) *Type {
	if o.MaxCols == 0 {
		o.MaxCols = 6
	}
	if o.AnyRoot && r.Intn(12) == 0 {
		t := GenPrimitive(r, o)
		t.Nullable = !o.NonNull && r.Intn(2) == 0
		return t.Number()
	}
	n := 1 + r.Intn(o.MaxCols)
	if r.Intn(3) == 0 {
		n = 1
	}
	t := genStruct(r, o, n, 0)
	t.Nullable = o.AnyRoot && !o.NonNull && r.Intn(10) == 0
	return t.Number()
}

func genStruct(r *rand.Rand, o SchemaOpts, n int, depth int) *Type {
	t := &Type{Kind: Struct, Enc: Direct}
	for i := 0; i < n; i++ {
		t.Names = append(t.Names, genName(r, o, i))
		t.Kids = append(t.Kids, genType(r, o, depth+1))
	}
	return t
}

func genName(r *rand.Rand, o SchemaOpts, i int) string {
	if o.Names {
		switch r.Intn(8) {
		case 0:
			return ""
		case 1:
			return "f"
		case 2:
			return "名前é∂" + string(rune('a'+i%26))
		case 3:
			return strings.Repeat("long_name_", 1+r.Intn(60))
		case 4:
			return "with space.\"dot\"\n`" + string(rune('0'+i%10))
		}
	}
	return "c" + string(rune('a'+i%26))
}

func genType(r *rand.Rand, o SchemaOpts, depth int) *Type {
	var t *Type
	x := r.Intn(10)
	switch {
	case depth < o.MaxDepth && x < 2:
		n := 1 + r.Intn(3)
		t = genStruct(r, o, n, depth)
	case o.Nested && depth < o.MaxDepth && x < 4:
		t = &Type{Kind: List, Enc: DirectV2, Kids: []*Type{genType(r, o, depth+1)}}
	case o.Nested && depth < o.MaxDepth && x < 6:
		t = &Type{Kind: Map, Enc: DirectV2, Kids: []*Type{genType(r, o, depth+1), genType(r, o, depth+1)}}
	default:
		t = GenPrimitive(r, o)
	}
	t.Nullable = !o.NonNull && r.Intn(2) == 0
	return t
}

// GenNulls makes a pattern, true is null
func GenNulls(r *rand.Rand, n int) []bool {
	nulls := make([]bool, n)
	switch r.Intn(9) {
	case 0: // none
	case 1: // all
		for i := range nulls {
			nulls[i] = true
		}
	case 2: // some
		for i := range nulls {
			nulls[i] = r.Intn(10) == 0
		}
	case 3: // half
		for i := range nulls {
			nulls[i] = r.Intn(2) == 0
		}
	case 4: // most
		for i := range nulls {
			nulls[i] = r.Intn(10) != 0
		}
	case 5: // runs around bytes of bits
		for i := 0; i < n; {
			l := []int{1, 7, 8, 9, 15, 16, 17, 64, 1 + r.Intn(40), 200 + r.Intn(1000)}[r.Intn(10)]
			v := r.Intn(2) == 0
			for ; l > 0 && i < n; l-- {
				nulls[i] = v
				i++
			}
		}
	case 6: // period
		p := 2 + r.Intn(16)
		at := r.Intn(p)
		inv := r.Intn(2) == 0
		for i := range nulls {
			nulls[i] = (i%p == at) != inv
		}
	case 7: // only last or first ones
		if n > 0 {
			for i := 0; i < 1+r.Intn(3); i++ {
				if r.Intn(2) == 0 {
					nulls[n-1-r.Intn(min(n, 9))] = true
				} else {
					nulls[r.Intn(min(n, 9))] = true
				}
			}
		}
	case 8: // first part without, then with
		at := 0
		if n > 0 {
			at = r.Intn(n)
		}
		inv := r.Intn(2) == 0
		for i := range nulls {
			if (i >= at) != inv {
				nulls[i] = r.Intn(3) == 0
			}
		}
	}
	return nulls
}

// GenCol makes n values of a column, nil are nulls
func GenCol(r *rand.Rand, t *Type, n int) []Val {
	vals := make([]Val, n)
	present := n
	var nulls []bool
	if t.Nullable {
		nulls = GenNulls(r, n)
		for _, v := range nulls {
			if v {
				present--
			}
		}
	}
	p := GenPresent(r, t, present)
	j := 0
	for i := range vals {
		if nulls != nil && nulls[i] {
			continue
		}
		vals[i] = p[j]
		j++
	}
	return vals
}

// GenPresent makes n values which are not null
func GenPresent(r *rand.Rand, t *Type, n int) []Val {
	vals := make([]Val, n)
	switch t.Kind {
	case Boolean:
		for i, v := range GenBools(r, n) {
			vals[i] = v
		}
	case Byte:
		for i, v := range GenBytes(r, n) {
			vals[i] = v
		}
	case Short:
		for i, v := range GenInts(r, n, 16) {
			vals[i] = int16(v)
		}
	case Int:
		for i, v := range GenInts(r, n, 32) {
			vals[i] = int32(v)
		}
	case Long:
		for i, v := range GenInts(r, n, 64) {
			vals[i] = v
		}
	case Float:
		for i, v := range GenFloats(r, n) {
			f := float32(v)
			if v != v {
				f = math.Float32frombits(0x7fc00000 | uint32(r.Intn(4)))
			}
			vals[i] = F32(math.Float32bits(f))
		}
		if r.Intn(4) == 0 {
			for i := range vals {
				vals[i] = F32(r.Uint32() | noSignaling32)
			}
		}
	case Double:
		for i, v := range GenFloats(r, n) {
			vals[i] = F64(math.Float64bits(v))
		}
	case String, Varchar, Char:
		for i, v := range GenStrings(r, n, t.Enc == DictionaryV2) {
			vals[i] = v
		}
	case Binary:
		for i, v := range GenStrings(r, n, false) {
			vals[i] = Bin(v)
		}
	case Timestamp:
		for i := range vals {
			vals[i] = TS{}
		}
		secs := GenInts(r, n, 40)
		mode := r.Intn(4)
		for i := range vals {
			var nanos uint32
			switch mode {
			case 0:
			case 1:
				nanos = uint32(r.Intn(1_000_000_000))
			case 2:
				p := uint32(math.Pow10(r.Intn(10)))
				nanos = uint32(r.Intn(1_000_000_000)) / p * p
			case 3:
				nanos = []uint32{0, 1, 999_999_999, 100, 1000, 10, 100_000_000, 999_000_000, 123_456_700}[r.Intn(9)]
			}
			s := secs[i]
			if r.Intn(3) == 0 {
				s = s % (200 * 365 * 86400)
			}
			vals[i] = TS{s, nanos}
		}
	case Decimal:
		scale := r.Intn(19)
		mode := r.Intn(4)
		for i, v := range GenInts(r, n, 64) {
			if mode == 0 {
				scale = r.Intn(39)
			} else if mode == 1 && r.Intn(20) == 0 {
				scale = r.Intn(45) - 5
			}
			vals[i] = Dec{v, scale}
		}
	case Date:
		bits := []int{32, 16, 20}[r.Intn(3)]
		for i, v := range GenInts(r, n, bits) {
			vals[i] = Day(v)
		}
	case Struct:
		cols := make([][]Val, len(t.Kids))
		for i, k := range t.Kids {
			cols[i] = GenCol(r, k, n)
		}
		for i := range vals {
			row := make(Row, len(t.Kids))
			for j := range cols {
				row[j] = cols[j][i]
			}
			vals[i] = row
		}
	case List, Map:
		lens := make([]int, n)
		total := 0
		mode := r.Intn(4)
		for i := range lens {
			switch mode {
			case 0:
				lens[i] = r.Intn(3)
			case 1:
				lens[i] = r.Intn(8)
			case 2:
				if r.Intn(4) == 0 {
					lens[i] = 1 + r.Intn(12)
				}
			case 3:
				lens[i] = 2
				if r.Intn(60) == 0 && n < 5000 {
					lens[i] = r.Intn(700)
				}
			}
			if total > 40000 {
				lens[i] = 0
			}
			total += lens[i]
		}
		if n > 0 && r.Intn(10) == 0 && total < 20000 && n < 2000 { // over the part of elements
			i := r.Intn(n)
			l := 4000 + r.Intn(5000)
			total += l - lens[i]
			lens[i] = l
		}
		a := GenCol(r, t.Kids[0], total)
		var b []Val
		if t.Kind == Map {
			b = GenCol(r, t.Kids[1], total)
		}
		o := 0
		for i, l := range lens {
			if t.Kind == List {
				vals[i] = Lst(a[o : o+l : o+l])
			} else {
				vals[i] = Mp{a[o : o+l : o+l], b[o : o+l : o+l]}
			}
			o += l
		}
	default:
		panic("kind")
	}
	return vals
}

// noSignaling32 makes every NaN a quiet one, signaling ones may change in a conversion
const noSignaling32 = 1 << 22

func segLen(r *rand.Rand) int {
	switch r.Intn(7) {
	case 0:
		return 1 + r.Intn(3)
	case 1:
		return 3 + r.Intn(9)
	case 2:
		return 10 + r.Intn(120)
	case 3:
		return 100 + r.Intn(500)
	case 4:
		return []int{3, 10, 11, 127, 128, 129, 130, 131, 255, 256, 257, 511, 512, 513, 1024}[r.Intn(15)]
	case 5:
		return 500 + r.Intn(1500)
	}
	return 1 + r.Intn(20)
}

func clampBits(v int64, bits int) int64 {
	if bits >= 64 {
		return v
	}
	s := uint(64 - bits)
	return v << s >> s
}

// RandBits is a random number of at most w bits magnitude, w up to 64
func RandBits(r *rand.Rand, w int) int64 {
	if w <= 0 {
		return 0
	}
	v := r.Uint64()
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return int64(v)
}

// GenInts makes values of signed bits, in segments of patterns by which runs are chosen
func GenInts(r *rand.Rand, n int, bits int) []int64 {
	vals := make([]int64, 0, n)
	maxV, minV := int64(math.MaxInt64)>>uint(64-bits), int64(math.MinInt64)>>uint(64-bits)
	uniform := r.Intn(3) == 0 // one pattern for all
	kind := r.Intn(14)
	for len(vals) < n {
		if !uniform {
			kind = r.Intn(14)
		}
		l := segLen(r)
		if uniform {
			l = n
		}
		if l > n-len(vals) {
			l = n - len(vals)
		}
		w := 1 + r.Intn(bits)
		base := clampBits(RandBits(r, 1+r.Intn(bits)), bits)
		if r.Intn(2) == 0 {
			base = clampBits(-base, bits)
		}
		emit := func(v int64) { vals = append(vals, clampBits(v, bits)) }
		switch kind {
		case 0: // constant
			for i := 0; i < l; i++ {
				emit(base)
			}
		case 1: // fixed delta
			d := RandBits(r, 1+r.Intn(bits))
			if r.Intn(2) == 0 {
				d = -d
			}
			if r.Intn(2) == 0 {
				d = int64(r.Intn(7) - 3)
			}
			v := base
			for i := 0; i < l; i++ {
				emit(v)
				v += d
			}
		case 2, 3: // monotonic
			dw := r.Intn(bits)
			if r.Intn(2) == 0 {
				dw = r.Intn(8)
			}
			v := base
			for i := 0; i < l; i++ {
				emit(v)
				d := RandBits(r, dw) & math.MaxInt64
				if kind == 3 {
					d = -d
				}
				if nv := v + d; (kind == 2) != (nv < v) && nv <= maxV && nv >= minV {
					v = nv
				}
			}
		case 4: // random of a width
			for i := 0; i < l; i++ {
				emit(RandBits(r, w))
			}
		case 5: // random of a width, both signs
			for i := 0; i < l; i++ {
				v := RandBits(r, w)
				if r.Intn(2) == 0 {
					v = -v
				}
				emit(v)
			}
		case 6, 7: // narrow with outliers
			nw, ow := 1+r.Intn(max(1, bits*2/3)), 1+r.Intn(bits)
			every := 6 + r.Intn(300)
			b := base
			if kind == 7 {
				b = 0
			}
			for i := 0; i < l; i++ {
				v := b + RandBits(r, nw)
				if r.Intn(every) == 0 {
					v = b + RandBits(r, ow)
				}
				emit(v)
			}
		case 8: // extremes
			ex := []int64{maxV, minV, 0, 1, -1, maxV - 1, minV + 1, 127, -128, 255, 256}
			for i := 0; i < l; i++ {
				emit(ex[r.Intn(len(ex))])
			}
		case 9: // one extreme in constants
			at := r.Intn(l)
			for i := 0; i < l; i++ {
				if i == at {
					emit([]int64{maxV, minV, base + 1, base - 1, -base}[r.Intn(5)])
				} else {
					emit(base)
				}
			}
		case 10: // alternating
			b2 := clampBits(RandBits(r, w), bits)
			for i := 0; i < l; i++ {
				if i%2 == 0 {
					emit(base)
				} else {
					emit(b2)
				}
			}
		case 11: // zeros with few
			for i := 0; i < l; i++ {
				if r.Intn(15) == 0 {
					emit(RandBits(r, w))
				} else {
					emit(0)
				}
			}
		case 12: // all negative
			for i := 0; i < l; i++ {
				v := -(RandBits(r, w) & math.MaxInt64)
				if v == 0 {
					v = -1
				}
				emit(v)
			}
		case 13: // short runs
			for i := 0; i < l; {
				v := RandBits(r, w)
				for k := 1 + r.Intn(12); k > 0 && i < l; k-- {
					emit(v)
					i++
				}
			}
		}
	}
	return vals
}

func GenBools(r *rand.Rand, n int) []bool {
	vals := GenNulls(r, n)
	return vals
}

func GenBytes(r *rand.Rand, n int) []byte {
	vals := make([]byte, 0, n)
	for len(vals) < n {
		l := segLen(r)
		if r.Intn(2) == 0 {
			l = 1 + r.Intn(5)
		}
		if r.Intn(2) == 0 { // run
			v := byte(r.Intn(256))
			for ; l > 0 && len(vals) < n; l-- {
				vals = append(vals, v)
			}
		} else {
			m := 256
			if r.Intn(2) == 0 {
				m = 2
			}
			for ; l > 0 && len(vals) < n; l-- {
				vals = append(vals, byte(r.Intn(m)))
			}
		}
	}
	return vals
}

func GenFloats(r *rand.Rand, n int) []float64 {
	vals := make([]float64, n)
	mode := r.Intn(6)
	sp := []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1, -1, 0.1, 1e-300}
	for i := range vals {
		switch mode {
		case 0:
			vals[i] = math.Float64frombits(r.Uint64() &^ (1 << 62))
		case 1:
			vals[i] = sp[r.Intn(len(sp))]
		case 2:
			vals[i] = float64(r.Intn(1000)) / 8
		case 3:
			vals[i] = -1 - r.Float64()*1000
		case 4:
			vals[i] = r.NormFloat64() * 1e6
			if r.Intn(50) == 0 {
				vals[i] = sp[r.Intn(len(sp))]
			}
		case 5:
			vals[i] = math.Float64frombits(r.Uint64() | 1<<51)
		}
	}
	return vals
}

func GenStrings(r *rand.Rand, n int, few bool) []string {
	vals := make([]string, n)
	mode := r.Intn(7)
	if few && r.Intn(3) != 0 {
		mode = 0
	}
	var pool []string
	for i := 0; i < 1+r.Intn(40); i++ {
		pool = append(pool, GenString(r, r.Intn(20)))
	}
	budget := 400_000
	for i := range vals {
		switch mode {
		case 0:
			vals[i] = pool[r.Intn(len(pool))]
		case 1:
			vals[i] = GenString(r, r.Intn(12))
		case 2:
			vals[i] = GenString(r, r.Intn(200))
		case 3:
			vals[i] = ""
			if r.Intn(4) == 0 {
				vals[i] = GenString(r, 1+r.Intn(3))
			}
		case 4: // prefix
			vals[i] = strings.Repeat("prefix", r.Intn(3)) + pool[r.Intn(len(pool))]
		case 5:
			vals[i] = GenString(r, r.Intn(12))
			if r.Intn(40) == 0 {
				vals[i] = GenString(r, 900+r.Intn(300))
			}
			if r.Intn(200) == 0 {
				vals[i] = strings.Repeat(GenString(r, 10), r.Intn(3000))
			}
		case 6:
			if i > 0 && r.Intn(3) != 0 {
				vals[i] = vals[i-1]
			} else {
				vals[i] = GenString(r, r.Intn(30))
			}
		}
		if budget -= len(vals[i]); budget < 0 {
			vals[i] = ""
		}
	}
	return vals
}

func GenString(r *rand.Rand, n int) string {
	b := make([]byte, 0, n)
	switch r.Intn(8) {
	case 0:
		for len(b) < n {
			b = append(b, byte(r.Intn(256))) // not UTF-8
		}
	case 1:
		for len(b) < n {
			b = append(b, string([]rune("aé世🎉\x00ÿ")[r.Intn(6)])...)
		}
	default:
		for len(b) < n {
			b = append(b, "abcdefghijklmnopqrstuvwxyz0123 "[r.Intn(31)])
		}
	}
	return string(b)
}
