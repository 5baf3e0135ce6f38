package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
	"verif/harness/internal/wire"
)

// columnVals has for each column its values by row, and if the row of its parent is null
type columnVals struct {
	vals  [][]model.Val
	under [][]bool
}

func flatten(t *model.Type, rows []model.Val) *columnVals {
	n := len(t.Flat())
	cv := &columnVals{vals: make([][]model.Val, n), under: make([][]bool, n)}
	var walk func(t *model.Type, vals []model.Val, under []bool)
	walk = func(t *model.Type, vals []model.Val, under []bool) {
		cv.vals[t.ID], cv.under[t.ID] = vals, under
		for j, k := range t.Kids {
			kv, ku := make([]model.Val, len(vals)), make([]bool, len(vals))
			for i, v := range vals {
				if v == nil {
					ku[i] = true
				} else {
					kv[i] = v.(model.Row)[j]
				}
			}
			walk(k, kv, ku)
		}
	}
	walk(t, rows, make([]bool, len(rows)))
	return cv
}

// statsOf checks statistics m of the column with values [from, to)
func (cv *columnVals) statsOf(t *model.Type, m wire.Msg, from, to int, loc *time.Location) (key string, err error) {
	var vals []model.Val
	null := false
	for i := from; i < to; i++ {
		if v := cv.vals[t.ID][i]; v != nil {
			vals = append(vals, v)
		} else if !cv.under[t.ID][i] {
			null = true
		}
	}
	if n := m.U(1); n != uint64(len(vals)) {
		return "count", fmt.Errorf("number of values is %d, should be %d", n, len(vals))
	}
	if null && m.Has(10) && m.U(10) == 0 {
		return "has null", fmt.Errorf("has no null, but a row is null")
	}
	sub := func(n int) (wire.Msg, bool, error) { return m.Msg(n) }
	absent := func(s wire.Msg, ns ...int) error {
		for _, n := range ns {
			if s.Has(n) {
				return fmt.Errorf("has field %d, but there are no values", n)
			}
		}
		return nil
	}
	switch t.Kind {
	case model.Byte, model.Short, model.Int, model.Long:
		s, ok, err := sub(2)
		if err != nil || !ok && len(vals) > 0 {
			return "int", fmt.Errorf("no integer statistics: %v", err)
		}
		if len(vals) == 0 {
			if s.Z(3) != 0 {
				return "sum", fmt.Errorf("sum is %d of no values", s.Z(3))
			}
			return "minimum", absent(s, 1, 2)
		}
		lo, hi, sum, abs := int64(math.MaxInt64), int64(math.MinInt64), new(big.Int), new(big.Int)
		for _, v := range vals {
			var x int64
			switch y := v.(type) {
			case byte:
				x = int64(int8(y))
			case int16:
				x = int64(y)
			case int32:
				x = int64(y)
			case int64:
				x = y
			}
			lo, hi = min(lo, x), max(hi, x)
			b := big.NewInt(x)
			sum.Add(sum, b)
			abs.Add(abs, b.Abs(b))
		}
		if !s.Has(1) || s.Z(1) != lo {
			return "minimum", fmt.Errorf("minimum is %d (%t), should be %d", s.Z(1), s.Has(1), lo)
		}
		if !s.Has(2) || s.Z(2) != hi {
			return "maximum", fmt.Errorf("maximum is %d (%t), should be %d", s.Z(2), s.Has(2), hi)
		}
		if s.Has(3) && (!sum.IsInt64() || sum.Int64() != s.Z(3)) {
			return "sum", fmt.Errorf("sum is %d, should be %v", s.Z(3), sum)
		}
		if !s.Has(3) && abs.IsInt64() {
			return "sum", fmt.Errorf("sum is absent, should be %v", sum)
		}
	case model.Float, model.Double:
		s, ok, err := sub(3)
		if err != nil || !ok && len(vals) > 0 {
			return "double", fmt.Errorf("no double statistics: %v", err)
		}
		if len(vals) == 0 {
			if s.F64(3) != 0 {
				return "sum", fmt.Errorf("sum is %v of no values", s.F64(3))
			}
			return "minimum", absent(s, 1, 2)
		}
		lo, hi, sum, abs := math.Inf(1), math.Inf(-1), 0.0, 0.0
		nan, some := false, false
		for _, v := range vals {
			var x float64
			switch y := v.(type) {
			case model.F32:
				x = float64(math.Float32frombits(uint32(y)))
			case model.F64:
				x = math.Float64frombits(uint64(y))
			}
			if x != x {
				nan = true
				continue
			}
			some = true
			lo, hi = math.Min(lo, x), math.Max(hi, x)
			sum += x
			abs += math.Abs(x)
		}
		for f, want := range map[int]float64{1: lo, 2: hi} {
			name := []string{"", "minimum", "maximum"}[f]
			got := s.F64(f)
			switch {
			case nan && (!s.Has(f) || got != got):
			case !some && s.Has(f):
				return name, fmt.Errorf("%s is %v, but all values are NaN", name, got)
			case !some:
			case !s.Has(f) || got != want:
				return name, fmt.Errorf("%s is %v (%t), should be %v", name, got, s.Has(f), want)
			}
		}
		got := s.F64(3)
		switch {
		case nan:
			if s.Has(3) && got == got {
				return "sum", fmt.Errorf("sum is %v with NaN values", got)
			}
		case math.IsInf(abs, 0):
			if s.Has(3) && !math.IsInf(got, 0) && got == got {
				// sums of some orders do not overflow
				if tol := abs; math.IsInf(tol, 0) && hasInf(vals) {
					return "sum", fmt.Errorf("sum is %v with infinite values", got)
				}
			}
		case !s.Has(3) || math.Abs(got-sum) > 4e-16*abs*float64(len(vals)+2):
			return "sum", fmt.Errorf("sum is %v (%t), should be %v", got, s.Has(3), sum)
		}
	case model.String, model.Varchar, model.Char:
		s, ok, err := sub(4)
		if err != nil || !ok && len(vals) > 0 {
			return "string", fmt.Errorf("no string statistics: %v", err)
		}
		if len(vals) == 0 {
			if s.Z(3) != 0 {
				return "sum", fmt.Errorf("sum is %d of no values", s.Z(3))
			}
			return "minimum", absent(s, 1, 2, 4, 5)
		}
		lo, hi, sum := vals[0].(string), vals[0].(string), 0
		for _, v := range vals {
			x := v.(string)
			lo, hi = min(lo, x), max(hi, x)
			sum += len(x)
		}
		switch {
		case s.Has(1) && s.Has(4), s.Has(2) && s.Has(5):
			return "bounds", fmt.Errorf("has minimum or maximum and its bound")
		case s.Has(1) && string(s.B(1)) != lo:
			return "minimum", fmt.Errorf("minimum is %.50q, should be %.50q", s.B(1), lo)
		case s.Has(2) && string(s.B(2)) != hi:
			return "maximum", fmt.Errorf("maximum is %.50q, should be %.50q", s.B(2), hi)
		case s.Has(4) && string(s.B(4)) > lo:
			return "lower bound", fmt.Errorf("lower bound %.50q is over minimum %.50q (%d and %d bytes)", s.B(4), lo, len(s.B(4)), len(lo))
		case s.Has(5) && string(s.B(5)) < hi:
			return "upper bound", fmt.Errorf("upper bound %.50q is less than maximum %.50q (%d and %d bytes)", s.B(5), hi, len(s.B(5)), len(hi))
		case !s.Has(1) && len(lo) < 1000 && !anyLong(vals):
			return "minimum", fmt.Errorf("minimum is absent, should be %.50q", lo)
		case !s.Has(2) && len(hi) < 1000 && !anyLong(vals):
			return "maximum", fmt.Errorf("maximum is absent, should be %.50q", hi)
		case !s.Has(1) && !s.Has(4):
			return "minimum", fmt.Errorf("no minimum nor lower bound")
		case !s.Has(3) || s.Z(3) != int64(sum):
			return "sum", fmt.Errorf("sum of lengths is %d (%t), should be %d", s.Z(3), s.Has(3), sum)
		}
	case model.Boolean:
		s, ok, err := sub(5)
		if err != nil || !ok && len(vals) > 0 {
			return "boolean", fmt.Errorf("no boolean statistics: %v", err)
		}
		n := uint64(0)
		for _, v := range vals {
			if v.(bool) {
				n++
			}
		}
		us, err := s.Us(1)
		if err != nil {
			return "boolean", err
		}
		if len(us) == 0 && n == 0 && len(vals) == 0 {
			return "", nil
		}
		if len(us) != 1 || us[0] != n {
			return "count of true", fmt.Errorf("count of true is %v, should be %d", us, n)
		}
	case model.Binary:
		s, ok, err := sub(8)
		if err != nil || !ok && len(vals) > 0 {
			return "binary", fmt.Errorf("no binary statistics: %v", err)
		}
		sum := 0
		for _, v := range vals {
			sum += len(v.(model.Bin))
		}
		if s.Z(1) != int64(sum) {
			return "sum", fmt.Errorf("sum of lengths is %d, should be %d", s.Z(1), sum)
		}
	case model.Decimal:
		s, ok, err := sub(6)
		if err != nil || !ok && len(vals) > 0 {
			return "decimal", fmt.Errorf("no decimal statistics: %v", err)
		}
		if len(vals) == 0 {
			if x, ok := new(big.Rat).SetString(string(s.B(3))); s.Has(3) && len(s.B(3)) > 0 && (!ok || x.Sign() != 0) {
				return "sum", fmt.Errorf("sum is %q of no values", s.B(3))
			}
			if len(s.B(1)) > 0 || len(s.B(2)) > 0 {
				return "minimum", fmt.Errorf("minimum and maximum are %q %q of no values", s.B(1), s.B(2))
			}
			return "", nil
		}
		var lo, hi *big.Rat
		sum := new(big.Rat)
		wide := false
		for _, v := range vals {
			d := v.(model.Dec)
			if d.S > 18 || d.S < -18 {
				wide = true
			}
			x := decRat(d)
			if lo == nil || x.Cmp(lo) < 0 {
				lo = x
			}
			if hi == nil || x.Cmp(hi) > 0 {
				hi = x
			}
			sum.Add(sum, x)
		}
		for f, want := range []*big.Rat{1: lo, 2: hi, 3: sum} {
			if f == 0 {
				continue
			}
			name := []string{"", "minimum", "maximum", "sum"}[f]
			b := string(s.B(f))
			if !s.Has(f) || b == "" {
				if !wide {
					return name, fmt.Errorf("%s is absent, should be %s", name, want.RatString())
				}
				continue
			}
			got, ok := new(big.Rat).SetString(b)
			if !ok || got.Cmp(want) != 0 {
				return name, fmt.Errorf("%s is %.60q, should be %.60s", name, b, want.RatString())
			}
		}
	case model.Date:
		s, ok, err := sub(7)
		if err != nil || !ok && len(vals) > 0 {
			return "date", fmt.Errorf("no date statistics: %v", err)
		}
		if len(vals) == 0 {
			return "minimum", absent(s, 1, 2)
		}
		lo, hi := vals[0].(model.Day), vals[0].(model.Day)
		for _, v := range vals {
			lo, hi = min(lo, v.(model.Day)), max(hi, v.(model.Day))
		}
		if !s.Has(1) || s.Z(1) != int64(lo) {
			return "minimum", fmt.Errorf("minimum is %d (%t), should be %d", s.Z(1), s.Has(1), lo)
		}
		if !s.Has(2) || s.Z(2) != int64(hi) {
			return "maximum", fmt.Errorf("maximum is %d (%t), should be %d", s.Z(2), s.Has(2), hi)
		}
	case model.Timestamp:
		s, ok, err := sub(9)
		if err != nil || !ok && len(vals) > 0 {
			return "timestamp", fmt.Errorf("no timestamp statistics: %v", err)
		}
		if len(vals) == 0 {
			return "minimum", absent(s, 1, 2, 3, 4)
		}
		for _, v := range vals {
			if x := v.(model.TS).S; x > 9e15 || x < -9e15 { // milliseconds of it are over 64 bits
				return "timestamp", absent(s, 1, 2, 3, 4)
			}
		}
		base := time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Unix()
		var lo, hi, lou, hiu int64
		for i, v := range vals {
			x := v.(model.TS)
			ms := (base+x.S)*1000 + int64(x.N)/1000000
			_, off := time.Unix(base+x.S, 0).In(loc).Zone()
			u := ms + int64(off)*1000
			if i == 0 {
				lo, hi, lou, hiu = ms, ms, u, u
			}
			lo, hi, lou, hiu = min(lo, ms), max(hi, ms), min(lou, u), max(hiu, u)
		}
		for f, want := range []int64{1: lo, 2: hi, 3: lou, 4: hiu} {
			if f > 0 && (!s.Has(f) || s.Z(f) != want) {
				return "timestamp", fmt.Errorf("field %d (minimum, maximum, and of UTC) is %d (%t), should be %d", f, s.Z(f), s.Has(f), want)
			}
		}
	}
	return "", nil
}

func hasInf(vals []model.Val) bool {
	for _, v := range vals {
		switch y := v.(type) {
		case model.F32:
			if math.IsInf(float64(math.Float32frombits(uint32(y))), 0) {
				return true
			}
		case model.F64:
			if math.IsInf(math.Float64frombits(uint64(y)), 0) {
				return true
			}
		}
	}
	return false
}

func anyLong(vals []model.Val) bool {
	for _, v := range vals {
		if len(v.(string)) >= 1000 {
			return true
		}
	}
	return false
}

func decRat(d model.Dec) *big.Rat {
	x := new(big.Rat).SetInt64(d.U)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(d.S, -d.S))), nil)
	if d.S >= 0 {
		return x.Quo(x, new(big.Rat).SetInt(p))
	}
	return x.Mul(x, new(big.Rat).SetInt(p))
}

// statsCheck is the oracle of C10
func statsCheck(c *rt.C, t *model.Type, rows []model.Val, data []byte, index bool, loc *time.Location) {
	f, err := refdec.Parse(data)
	if err != nil {
		c.Fail("metadata", "independent reader: %v", err)
	}
	cv := flatten(t, rows)
	flat := t.Flat()
	if len(f.Stats) != len(flat) {
		c.Fail("columns", "there are statistics of %d columns of %d", len(f.Stats), len(flat))
	}
	rd := open(c, data)
	defer rd.Close()
	told := rd.GetStatistics()
	if len(told) != len(flat) {
		c.Fail("columns", "reader has statistics of %d columns of %d", len(told), len(flat))
	}
	for i, x := range flat {
		if key, err := cv.statsOf(x, f.Stats[i], 0, len(rows), loc); err != nil {
			c.Fail(x.Kind.String()+" "+key, "file statistics of column %d %s: %v", i, x.Kind, err)
		}
		c.Count("file statistics", 1)
		b, err := proto.Marshal(told[i])
		if err != nil {
			c.Fail("marshal", "%v", err)
		}
		m, err := wire.Parse(b)
		if err != nil {
			c.Fail("marshal", "%v", err)
		}
		if key, err := cv.statsOf(x, m, 0, len(rows), loc); err != nil {
			c.Fail(x.Kind.String()+" told "+key, "statistics of column %d %s by the reader: %v", i, x.Kind, err)
		}
		if f.Stats[i].Has(11) {
			var n, ix uint64
			for _, s := range f.Stripes {
				for _, st := range s.Streams {
					if st.Col == x.ID {
						if st.Kind >= refdec.RowIndex {
							ix += st.Len
						} else {
							n += st.Len
						}
					}
				}
			}
			if u := f.Stats[i].U(11); u != n && u != n+ix {
				c.Fail("bytes on disk", "column %d %s has %d bytes on disk, its streams have %d", i, x.Kind, u, n)
			}
		}
	}
	if !index {
		return
	}
	at := 0
	for si, s := range f.Stripes {
		for _, x := range flat {
			es, ok, err := f.Index(s, x.ID)
			if err != nil || !ok {
				c.Fail("index", "stripe %d has no index of column %d: %v", si, x.ID, err)
			}
			for e, m := range es {
				from := e * int(f.Stride)
				to := min(from+int(f.Stride), int(s.Rows))
				if from >= to {
					c.Fail("index", "stripe %d of %d rows column %d has %d index entries of stride %d", si, s.Rows, x.ID, len(es), f.Stride)
				}
				sm, ok, err := m.Msg(2)
				if err != nil {
					c.Fail("index", "statistics of stride: %v", err)
				}
				if !ok {
					c.Fail("index", "stripe %d column %d stride %d has no statistics", si, x.ID, e)
				}
				if key, err := cv.statsOf(x, sm, at+from, at+to, loc); err != nil {
					c.Fail("stride "+x.Kind.String()+" "+key, "statistics of stripe %d column %d %s stride %d: %v", si, x.ID, x.Kind, e, err)
				}
				c.Count("stride statistics", 1)
			}
		}
		at += int(s.Rows)
	}
}

func c10Check(c *rt.C, w *wcase) {
	data := w.write(c)
	w.eval(c)
	statsCheck(c, w.t, w.rows, data, w.o.Index, time.UTC)
}

func c10Mixed(c *rt.C)  { c10Check(c, genWrite(c, stdSchema(), 1200)) }
func c10Column(c *rt.C) { c10Check(c, oneColumn(c, 3000)) }

// values at which sums overflow, bounds are cut or minimums are first and last
func c10Edges(c *rt.C) {
	r := c.R
	kind := allKinds[c.Idx%len(allKinds)]
	k := &model.Type{Kind: kind, Enc: model.DefaultEnc(kind), Nullable: r.Intn(2) == 0}
	if (kind == model.String || kind == model.Varchar || kind == model.Char) && r.Intn(2) == 0 {
		k.Enc = model.DictionaryV2
	}
	w := &wcase{t: (&model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{k}}).Number()}
	n := 1 + r.Intn(60)
	w.fill(c, n)
	edge := func() model.Val {
		switch kind {
		case model.Byte:
			return []byte{0, 127, 128, 255, 1}[r.Intn(5)]
		case model.Short:
			return []int16{0, 32767, -32768, -1}[r.Intn(4)]
		case model.Int:
			return []int32{0, math.MaxInt32, math.MinInt32, -1}[r.Intn(4)]
		case model.Long:
			return []int64{0, math.MaxInt64, math.MinInt64, -1, 1, math.MaxInt64 / 2, math.MinInt64 / 2}[r.Intn(7)]
		case model.Double:
			x := []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -3}[r.Intn(9)]
			return model.F64(math.Float64bits(x))
		case model.Float:
			x := []float32{0, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, 1e-45, -3}[r.Intn(8)]
			return model.F32(math.Float32bits(x))
		case model.String, model.Varchar, model.Char:
			pool := []string{"", "a", "\xff", "\xff\xff\xff", "\U0010ffff", "é", "\xed\xa0\x80", "\x00", "\ud7ff", "\ue000", "\u007f", "\u07ff", "\uffff", "\ufffd", "\U00010000"}
			s := ""
			l := []int{0, 1, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1030, 2000}[r.Intn(14)]
			x := pool[r.Intn(len(pool))]
			if x == "" {
				return ""
			}
			for len(s) < l {
				s += x
			}
			if r.Intn(2) == 0 && len(s) > 0 {
				s = s[:r.Intn(len(s)+1)]
			}
			return s + pool[r.Intn(len(pool))]
		case model.Date:
			return model.Day([]int32{0, 1, -1, math.MaxInt32 / 400, math.MinInt32 / 400, 16436, math.MaxInt32, math.MinInt32}[r.Intn(8)])
		case model.Timestamp:
			return model.TS{S: []int64{0, 1, -1, -1420070400, -1420070401, 1e10, -1e10, 8e15, -8e15, 1e16, -1e16, math.MaxInt64, math.MinInt64}[r.Intn(13)], N: []uint32{0, 1, 999999, 1000000, 999999999, 500000000}[r.Intn(6)]}
		case model.Decimal:
			return model.Dec{U: []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 10, 100, 12345}[r.Intn(8)], S: []int{r.Intn(22) - 2, r.Intn(22) - 2, r.Intn(22) - 2, 98 + r.Intn(5), -98 - r.Intn(5), 300}[r.Intn(6)]}
		}
		return model.GenPresent(r, k, 1)[0]
	}
	for _, row := range w.rows {
		if row.(model.Row)[0] != nil && r.Intn(3) != 0 {
			row.(model.Row)[0] = edge()
		}
	}
	w.o.Index = r.Intn(3) != 0
	w.o.Stride = 1 + r.Intn(20)
	c.Note("values %s options %s", model.Show(model.Lst(w.rows)), w.o)
	c10Check(c, w)
}

var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "Europe/Berlin", "Pacific/Apia", "America/Caracas", "Asia/Shanghai", "Africa/Casablanca", "America/St_Johns", "Antarctica/Troll"}

func zone(r *rand.Rand) *time.Location {
	if r.Intn(4) == 0 {
		return time.FixedZone("fixed", (r.Intn(27*4)-12*4)*900)
	}
	l, err := time.LoadLocation(zones[r.Intn(len(zones))])
	if err != nil {
		panic(err)
	}
	return l
}

// timestamps of other locations
func c10Zones(c *rt.C) {
	r := c.R
	loc := zone(r)
	k := &model.Type{Kind: model.Timestamp, Enc: model.DirectV2, Nullable: r.Intn(2) == 0}
	w := &wcase{t: (&model.Type{Kind: model.Struct, Names: []string{"a"}, Kids: []*model.Type{k}}).Number()}
	w.fill(c, nRows(r, 300))
	c.Note("location %s", loc)
	vec := drive.ToVector(w.t, w.rows, drive.VecStyle{})
	for i, v := range vec.Children[0].Vector {
		if ts, ok := v.V.(api.Timestamp); ok {
			ts.Loc = loc
			vec.Children[0].Vector[i].V = ts
		}
	}
	fs := drive.NewFS(nil)
	wr, err := orc.VerifNewWriter(drive.Schema(w.t), w.o.Config(), fs.Handle())
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	if err := wr.Write(vec); err != nil {
		c.Fail("write error", "%v", err)
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	w.eval(c)
	statsCheck(c, w.t, w.rows, fs.Data, w.o.Index, loc)
	c.Count("locations", 1)
}

// C21: row index

func c21Check(c *rt.C, w *wcase) {
	w.o.Index = true
	data := w.write(c)
	w.eval(c)
	f := decode(c, data)
	n, err := f.CheckIndex()
	if err != nil {
		c.Fail("position", "%v", err)
	}
	c.Count("positions followed", n)
	for _, s := range f.Stripes {
		c.Count("strides", int((s.Rows+f.Stride-1)/f.Stride))
	}
	w.o.Index = false
	fs := drive.NewFS(nil)
	if err := drive.Write(w.t, w.rows, w.batches, w.o, w.st, fs.Handle()); err != nil {
		c.Fail("write error", "without index: %v", err)
	}
	g := decode(c, fs.Data)
	for i, s := range g.Stripes {
		if s.IndexLen != 0 {
			c.Fail("index not asked", "stripe %d has an index of %d bytes without the option", i, s.IndexLen)
		}
		for _, st := range s.Streams {
			if st.Kind >= refdec.RowIndex {
				c.Fail("index not asked", "stripe %d has an index stream without the option", i)
			}
		}
	}
	if d := model.DiffRows(w.rows, g.Values); d != "" {
		c.Fail("rows", "without index %s", d)
	}
	if d := model.DiffRows(w.rows, f.Values); d != "" {
		c.Fail("rows", "with index %s", d)
	}
	if w.o.Stride < len(w.rows) && len(f.Stripes) == 1 && c.R.Intn(2) == 0 { // by the reader
		w.o.Index = true
		rd := open(c, data)
		defer rd.Close()
		s := newSession(c, rd, w.t, w.rows, nil, 1+c.R.Intn(w.o.Stride))
		defer s.br.Close()
		for i := 0; i < 4; i++ {
			s.seek(c.R.Intn((len(w.rows)+w.o.Stride-1)/w.o.Stride) * w.o.Stride)
			s.next()
		}
	}
}

func c21Mixed(c *rt.C) { c21Check(c, genWrite(c, stdSchema(), 800)) }

func c21Column(c *rt.C) {
	w := oneColumn(c, 2500)
	if c.R.Intn(2) == 0 {
		w.o.Stride = 1 + c.R.Intn(1200)
	}
	c21Check(c, w)
}

// C19: determinism

// statsKey is what does not depend on the layout, sums of floats apart
func statsKey(m wire.Msg, kind model.Kind) (key string, sum float64) {
	key = fmt.Sprint("count ", m.U(1), " null ", m.Has(10), m.U(10))
	for n := 2; n <= 9; n++ {
		s, ok, _ := m.Msg(n)
		if !ok {
			continue
		}
		if n == 3 {
			sum = s.F64(3)
			key += fmt.Sprintf(" double %t %x %t %x %t", s.Has(1), s.U(1), s.Has(2), s.U(2), s.Has(3))
			continue
		}
		if n == 5 {
			us, _ := s.Us(1)
			key += fmt.Sprint(" bucket ", us)
			continue
		}
		key += fmt.Sprintf(" %d:", n)
		for f := 1; f <= 5; f++ {
			if s.Has(f) {
				if n == 4 && f != 3 || n == 6 {
					key += fmt.Sprintf(" %d=%q", f, s.B(f))
				} else {
					key += fmt.Sprintf(" %d=%d", f, s.U(f))
				}
			}
		}
	}
	return key, sum
}

func c19Check(c *rt.C, w *wcase) {
	r := c.R
	data := w.write(c)
	w.eval(c)
	for i := 0; i < 3; i++ {
		w2 := *w
		how := "same batches"
		if i > 0 {
			w2.batches = drive.Split(r, len(w.rows))
			how = fmt.Sprintf("batches %v instead of %v", brief(w2.batches), brief(w.batches))
		}
		w2.st = drive.VecStyle{RootVec: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			w2.st.Junk = r
		}
		fs := drive.NewFS(nil)
		var err error
		if i == 2 {
			how += ", one vector"
			err = writeReused(r, &w2, fs)
		} else {
			err = drive.Write(w2.t, w2.rows, w2.batches, w2.o, w2.st, fs.Handle())
		}
		if err != nil {
			c.Fail("write error", "%s: %v", how, err)
		}
		if d := diffBytes(data, fs.Data); d != "" {
			c.Fail("bytes", "writing the same rows again with %s makes another file: %s", how, d)
		}
		c.Count("files compared", 1)
	}
	// other options
	f, err := refdec.Parse(data)
	if err != nil {
		c.Fail("metadata", "%v", err)
	}
	for i := 0; i < 2; i++ {
		w2 := *w
		w2.t = w.t.Clone()
		for _, t := range w2.t.Flat() {
			if t.Kind == model.String || t.Kind == model.Char || t.Kind == model.Varchar {
				if r.Intn(2) == 0 {
					t.Enc = model.DirectV2 + model.DictionaryV2 - t.Enc
				}
			}
		}
		w2.o = drive.RandWOpts(r, len(w.rows))
		w2.batches = drive.Split(r, len(w.rows))
		fs := drive.NewFS(nil)
		if err := drive.Write(w2.t, w2.rows, w2.batches, w2.o, w2.st, fs.Handle()); err != nil {
			c.Fail("write error", "with options %s: %v", w2.o, err)
		}
		g := decode(c, fs.Data)
		if d := model.DiffRows(w.rows, g.Values); d != "" {
			c.Fail("rows", "with options %s: %s", w2.o, d)
		}
		if g.Rows != f.Rows || len(f.Stats) != len(g.Stats) {
			c.Fail("counts", "with options %s there are %d rows and %d statistics, with %s %d and %d", w2.o, g.Rows, len(g.Stats), w.o, f.Rows, len(f.Stats))
		}
		for j, t := range w.t.Flat() {
			a, as := statsKey(f.Stats[j], t.Kind)
			b, bs := statsKey(g.Stats[j], t.Kind)
			if a != b || (as == as) != (bs == bs) || math.Abs(as-bs) > 1e-9*math.Abs(as)+1e-300 && !floatNoise(w, t) {
				c.Fail("statistics", "column %d %s with options %s has statistics %.300s %v, with %s %.300s %v", j, t.Kind, w2.o, b, bs, w.o, a, as)
			}
		}
		c.Count("layouts compared", 1)
	}
}

// floatNoise is if sums of the column depend on order a lot
func floatNoise(w *wcase, t *model.Type) bool { return t.Kind == model.Float || t.Kind == model.Double }

// writeReused writes all batches with one vector
func writeReused(r *rand.Rand, w *wcase, fs *drive.FS) error {
	wr, err := orc.VerifNewWriter(drive.Schema(w.t), w.o.Config(), fs.Handle())
	if err != nil {
		return err
	}
	var vec *api.ColumnVector
	at := 0
	for _, n := range w.batches {
		v := drive.ToVector(w.t, w.rows[at:at+n], w.st)
		if vec == nil {
			vec = v
		} else {
			refill(vec, v)
		}
		if err := wr.Write(vec); err != nil {
			wr.Close()
			return err
		}
		at += n
	}
	return wr.Close()
}

// refill puts values of v in vec, keeping the slices
func refill(vec, v *api.ColumnVector) {
	if v.Vector != nil {
		if cap(vec.Vector) < len(v.Vector) {
			vec.Vector = make([]api.Value, len(v.Vector), 2*len(v.Vector))
		}
		vec.Vector = vec.Vector[:len(v.Vector)]
		copy(vec.Vector, v.Vector)
	}
	for i := range v.Children {
		refill(vec.Children[i], v.Children[i])
	}
}

func c19Mixed(c *rt.C)  { c19Check(c, genWrite(c, stdSchema(), 600)) }
func c19Column(c *rt.C) { c19Check(c, oneColumn(c, 1500)) }

// C24: size of stripes

// rawBytes is at least what the encoded values of a row take, but for compression
func rawBytes(t *model.Type, v model.Val) int {
	n := 2 // present
	if v == nil {
		return n + 1
	}
	switch x := v.(type) {
	case model.Row:
		for i, k := range t.Kids {
			n += rawBytes(k, x[i])
		}
	case bool, byte:
		n += 3
	case string:
		n += len(x) + 12
	case model.Bin:
		n += len(x) + 12
	case model.Dec:
		n += 24
	case model.TS:
		n += 24
	default:
		n += 12
	}
	return n
}

// allRaw is rawBytes, with those of null structs
func allRaw(t *model.Type, v model.Val) int {
	if v == nil {
		n := 3
		for _, k := range t.Kids {
			n += allRaw(k, nil)
		}
		return n
	}
	if row, ok := v.(model.Row); ok {
		n := 2
		for i, k := range t.Kids {
			n += allRaw(k, row[i])
		}
		return n
	}
	return rawBytes(t, v)
}

// framed is n bytes with headers of chunks
func framed(o drive.WOpts, n int) int {
	if o.Zlib {
		n += 3 * (n/o.Chunk + 1)
	}
	return n
}

func c24Check(c *rt.C, w *wcase) {
	// writing batch by batch, watching the file grow
	fs := drive.NewFS(nil)
	wr, err := orc.VerifNewWriter(drive.Schema(w.t), w.o.Config(), fs.Handle())
	if err != nil {
		c.Fail("create error", "%v", err)
	}
	type mark struct{ rows, size int }
	marks := []mark{{0, len(fs.Data)}}
	at := 0
	for i, n := range w.batches {
		if err := wr.Write(drive.ToVector(w.t, w.rows[at:at+n], w.st)); err != nil {
			c.Fail("write error", "batch %d: %v", i, err)
		}
		at += n
		marks = append(marks, mark{at, len(fs.Data)})
	}
	if err := wr.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	w.eval(c)
	f, err := refdec.Parse(fs.Data)
	if err != nil {
		c.Fail("metadata", "%v", err)
	}
	c.Count("stripes", len(f.Stripes))
	ends := map[int]bool{3: true, 0: len(f.Stripes) == 0 || marks[0].size == 0}
	var ss []mark
	rows := 0
	streams, dict := 0, false
	for _, t := range w.t.Flat() {
		streams += 2
		switch t.Kind {
		case model.String, model.Binary, model.Decimal, model.Timestamp, model.Char, model.Varchar:
			streams += 2
		}
		dict = dict || t.Enc == model.DictionaryV2
	}
	total := 0
	for i, s := range f.Stripes {
		end := int(s.Offset + s.IndexLen + s.DataLen + s.FooterLen)
		ends[end] = true
		raw, most := 0, 0
		for _, v := range w.rows[rows : rows+int(s.Rows)] {
			b := allRaw(w.t, v)
			raw += b
			most = max(most, b)
		}
		total += framed(w.o, raw) + streams*8
		rows += int(s.Rows)
		ss = append(ss, mark{rows, end})
		// encoders hold up to 512 values of each stream, a chunk has a header
		over := int64(most + streams*(512*9+700))
		if w.o.Zlib {
			over += int64(streams) * 8 * (2 + (int64(w.o.Stripe)+int64(most))/int64(w.o.Chunk))
		}
		if dict {
			over += int64(s.Rows)*8*int64(streams) + int64(most)*8
		}
		if int64(s.DataLen) > int64(w.o.Stripe)+over {
			c.Fail("too long", "stripe %d has %d bytes of data, over the stripe size of %s by more than a row and what encoders hold", i, s.DataLen, w.o)
		}
		if i == len(f.Stripes)-1 {
			break
		}
		c.Count("whole stripes", 1)
		if n := framed(w.o, raw) + streams*8; n < w.o.Stripe {
			c.Fail("cut early", "stripe %d of %d rows has values of at most %d bytes, less than the stripe size of %s", i, s.Rows, n, w.o)
		}
		slack := 0
		if w.o.Zlib {
			slack = streams * (w.o.Chunk + 8)
		}
		if !dict && int(s.DataLen)+slack < w.o.Stripe {
			c.Fail("cut early", "stripe %d has %d bytes of data, less than the stripe size of %s", i, s.DataLen, w.o)
		}
	}
	if total < w.o.Stripe && len(f.Stripes) > 1 {
		c.Fail("stripes", "%d stripes of %d bytes in all with %s", len(f.Stripes), total, w.o)
	}
	for k, m := range marks {
		if !ends[m.size] {
			c.Fail("incomplete stripe written", "after %d rows file has %d bytes, where no stripe ends", m.rows, m.size)
		}
		// a stripe which has its rows is in the file
		for i, s := range ss {
			if i < len(ss)-1 && m.rows >= s.rows && m.size < s.size {
				c.Fail("stripe kept", "after %d rows stripe %d of %d rows is not written, file has %d bytes", m.rows, i, s.rows, m.size)
			}
			if m.size >= s.size && m.rows < s.rows {
				c.Fail("stripe before its rows", "after %d rows file has the stripe which ends at row %d", m.rows, s.rows)
			}
		}
		if k > 0 && m.size > marks[k-1].size {
			c.Count("growth steps", 1)
		}
	}
}

func c24Mixed(c *rt.C) {
	r := c.R
	w := genWrite(c, stdSchema(), 1500)
	if r.Intn(4) != 0 {
		raw := 0
		for _, v := range w.rows {
			raw += allRaw(w.t, v)
		}
		w.o.Stripe = 200 + raw/(1+r.Intn(12))
	}
	if w.o.Zlib && r.Intn(2) == 0 {
		w.o.Chunk = 1 + r.Intn(300)
	}
	c.Note("options %s", w.o)
	c24Check(c, w)
}

// columns of which no values are held: the rows of each stripe are known
func c24Exact(c *rt.C) {
	r := c.R
	t := &model.Type{Kind: model.Struct}
	per := 0
	for i := 0; i < 1+r.Intn(4); i++ {
		k := &model.Type{Kind: model.Double}
		per += 8
		if r.Intn(2) == 0 {
			k.Kind = model.Float
			per -= 4
		}
		t.Kids = append(t.Kids, k)
		t.Names = append(t.Names, fmt.Sprintf("c%d", i))
	}
	w := &wcase{t: t.Number()}
	w.fill(c, nRows(r, 1000))
	w.o.Zlib = false
	w.o.Stripe = 1 + r.Intn(per*(len(w.rows)+2))
	c.Note("options %s", w.o)
	data := w.write(c)
	w.eval(c)
	f, err := refdec.Parse(data)
	if err != nil {
		c.Fail("metadata", "%v", err)
	}
	want := (w.o.Stripe + per - 1) / per
	left := len(w.rows)
	for i, s := range f.Stripes {
		if int(s.Rows) != min(left, want) {
			c.Fail("rows of stripe", "stripe %d has %d rows of %d bytes, should have %d by the stripe size of %s", i, s.Rows, per, min(left, want), w.o)
		}
		left -= int(s.Rows)
		c.Count("exact stripes", 1)
	}
	if left != 0 {
		c.Fail("rows of stripe", "%d rows are in no stripe", left)
	}
}
