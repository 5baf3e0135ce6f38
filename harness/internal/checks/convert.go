package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/orc/encoding"
	"github.com/patrickhuang888/goorc/pb/pb"

	"verif/harness/internal/drive"
	"verif/harness/internal/model"
	"verif/harness/internal/refdec"
	"verif/harness/internal/rt"
)

// C16: conversions

// civil is the proleptic Gregorian date of a day from 1970-01-01, counted in cycles of 400 years
func civil(day int64) (year, month, dayOfMonth int64) {
	z := day + 719468 // from 0000-03-01
	era := z / 146097
	if z%146097 < 0 {
		era--
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	dayOfMonth = doy - (153*mp+2)/5 + 1
	month = mp + 3
	if month > 12 {
		month -= 12
	}
	year = yoe + era*400
	if month <= 2 {
		year++
	}
	return
}

func oneDay(c *rt.C, day int32) {
	y, m, d := civil(int64(day))
	got := api.FromDays(day)
	t := time.Time(got)
	gy, gm, gd := t.Date()
	if int64(gy) != y || int64(gm) != m || int64(gd) != d || t.Hour() != 0 || t.Minute() != 0 || t.Second() != 0 || t.Nanosecond() != 0 {
		c.Fail("date of day", "day %d is %d-%d-%d, FromDays gives %s", day, y, m, d, t)
	}
	if back := api.ToDays(got); back != day {
		c.Fail("day of date", "day %d is %d when converted there and back", day, back)
	}
	n := api.NewDate(int(y), time.Month(m), int(d))
	if back := api.ToDays(n); back != day {
		c.Fail("day of date", "NewDate of %d-%d-%d is of day %d, not %d", y, m, d, back, day)
	}
	if !time.Time(n).Equal(t) {
		c.Fail("new date", "NewDate of %d-%d-%d is %s", y, m, d, time.Time(n))
	}
	if 0 <= y && y <= 9999 {
		if s, want := got.String(), fmt.Sprintf("%04d-%02d-%02d", y, m, d); s != want {
			c.Fail("text of date", "day %d is %q, should be %q", day, s, want)
		}
	}
}

const firstDay, lastDay = -2180000, 2932896 // years -4000 to 9999
const dayBlock = 5000

// all days of 14000 years in blocks
func c16Days(c *rt.C) {
	from := firstDay + c.Idx*dayBlock
	for i := from; i < from+dayBlock && i <= lastDay; i++ {
		oneDay(c, int32(i))
	}
	c.Count("days", dayBlock)
	c.Eval(model.Hash(1, int64(from)))
	if c.Idx%100 == 0 {
		y, m, d := civil(int64(from))
		c.Sample("days %d (%d-%d-%d) to %d", from, y, m, d, from+dayBlock)
	}
}

// any day, times of a day, sequences of dates encoded
func c16Dates(c *rt.C) {
	r := c.R
	for i := 0; i < 200; i++ {
		day := int32(r.Uint32())
		switch r.Intn(4) {
		case 0:
			day = []int32{math.MaxInt32, math.MinInt32, 0, -1, 1, 106751, 106752, -106751, -106752, -106753}[r.Intn(10)]
		case 1:
			day >>= uint(r.Intn(31))
		}
		oneDay(c, day)
		c.Count("days", 1)
		// any time of the day is of the day
		t := time.Time(api.FromDays(day)).Add(time.Duration(r.Int63n(int64(24 * time.Hour))))
		if got := api.ToDays(api.Date(t)); got != day {
			c.Fail("day of time", "%s is of day %d, ToDays gives %d", t, day, got)
		}
		t = time.Time(api.FromDays(day)).Add(24*time.Hour - 1)
		if got := api.ToDays(api.Date(t)); got != day {
			c.Fail("day of time", "%s is of day %d, ToDays gives %d", t, day, got)
		}
		c.Eval(model.Hash(2, int64(day)))
	}
	// encoded
	n := nRows(r, 1500)
	days := model.GenInts(r, n, 32)
	var out bytes.Buffer
	e := encoding.NewDateV2Encoder(r.Intn(2) == 0)
	for _, d := range days {
		if err := e.Encode(api.FromDays(int32(d)), &out); err != nil {
			c.Fail("date encode error", "%v", err)
		}
	}
	if err := e.Flush(&out); err != nil {
		c.Fail("date encode error", "%v", err)
	}
	vals, _, _, err := refdec.Ints(out.Bytes(), n, true)
	if err != nil || len(vals) != len(days) {
		c.Fail("dates encoded", "independent decoder: %v, %d dates of %d", err, len(vals), len(days))
	}
	var got []api.Date
	in := bytes.NewBuffer(out.Bytes())
	d := encoding.NewDateV2DeCoder()
	for in.Len() > 0 {
		l, err := d.Decode(in)
		if err != nil {
			c.Fail("date decode error", "after %d of %d dates: %v", len(got), len(days), err)
		}
		got = append(got, l...)
	}
	if len(got) != len(days) {
		c.Fail("dates decoded", "%d dates of %d", len(got), len(days))
	}
	for i, v := range days {
		if vals[i] != v || api.ToDays(got[i]) != int32(v) {
			c.Fail("dates decoded", "date %d of %d is of day %d, encoded %d, decoded %d", i, n, v, vals[i], api.ToDays(got[i]))
		}
	}
	c.Count("dates encoded", n)
}

// c16Zones are locations with daylight saving in 2015-01-01 (south), none, changed rules, odd offsets and before zones were
var c16Zones = append([]string{"America/Sao_Paulo", "Australia/Sydney", "Europe/Dublin", "Europe/London", "Asia/Tehran", "Asia/Kathmandu", "Pacific/Kiritimati", "Pacific/Chatham", "America/Los_Angeles", "Africa/Monrovia", "Europe/Moscow", "Atlantic/Azores"}, zones...)

// base2015 is the instant of local 2015-01-01 00:00, by the offsets of instants
func base2015(loc *time.Location) int64 {
	const utc = 1420070400
	u := int64(utc)
	for i := 0; i < 4; i++ {
		_, off := time.Unix(u, 0).In(loc).Zone()
		u = utc - int64(off)
	}
	return u
}

func floorDiv(a, b *big.Int) int64 {
	var q, m big.Int
	q.DivMod(a, b, &m) // euclidean, b is positive
	return q.Int64()
}

func c16Instant(r *rand.Rand, loc *time.Location) time.Time {
	var u int64
	switch r.Intn(6) {
	case 0: // 1800 to 2100
		u = -5364662400 + r.Int63n(9467107200)
	case 1:
		u = r.Int63n(1<<40) - 1<<39
	case 2: // about epochs
		u = []int64{0, base2015(loc), 1420070400, -1 << 31, 1 << 31}[r.Intn(5)] + int64(r.Intn(5)) - 2
	case 3: // near a change of offset
		t := time.Unix(-2000000000+r.Int63n(4000000000), 0).In(loc)
		if _, end := t.ZoneBounds(); !end.IsZero() {
			t = end
		}
		u = t.Unix() + []int64{-7200, -3601, -3600, -1800, -1, 0, 1, 1800, 3599, 3600, 7200}[r.Intn(11)]
	case 4: // before 1970
		u = -r.Int63n(4000000000)
	case 5:
		u = time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), 0, loc).Unix()
	}
	n := []int64{0, 1, 999, 1000, 999999, 1000000, 1500000, 500000000, 999000000, 999999999, r.Int63n(1e9), r.Int63n(1000) * 1e6}[r.Intn(12)]
	return time.Unix(u, n).In(loc)
}

func c16Zone(c *rt.C) *time.Location {
	r := c.R
	switch r.Intn(6) {
	case 0:
		return time.FixedZone("fixed", r.Intn(28*3600)-14*3600)
	case 1:
		return time.UTC
	}
	l, err := time.LoadLocation(c16Zones[r.Intn(len(c16Zones))])
	if err != nil {
		panic(err)
	}
	return l
}

func c16Times(c *rt.C) {
	r := c.R
	for i := 0; i < 100; i++ {
		loc := c16Zone(c)
		t := c16Instant(r, loc)
		if i == 0 {
			c.Sample("%s in %s", t, loc)
		}
		ts := api.GetTimestamp(t)
		base := base2015(loc)
		if ts.Seconds != t.Unix()-base || ts.Nanos != uint64(t.Nanosecond()) {
			c.Fail("timestamp of time", "%s in %s is %d seconds and %d nanoseconds from local 2015, GetTimestamp gives %d and %d", t, loc, t.Unix()-base, t.Nanosecond(), ts.Seconds, ts.Nanos)
		}
		back := ts.Time()
		if !back.Equal(t) || back.Location().String() != loc.String() {
			c.Fail("time of timestamp", "%s in %s is %s in %s when converted there and back", t, loc, back, back.Location())
		}
		if _, a := t.Zone(); true {
			if _, b := back.Zone(); a != b {
				c.Fail("time of timestamp", "%s in %s has another offset when converted there and back: %s", t, loc, back)
			}
		}
		oneTimestamp(c, api.Timestamp{Loc: loc, Seconds: ts.Seconds, Nanos: ts.Nanos}, base, loc)
		// any seconds and no location
		s := r.Int63n(1<<44) - 1<<43
		if r.Intn(4) == 0 {
			s = r.Int63n(1<<52) - 1<<51
		}
		n := uint64(r.Int63n(1e9))
		oneTimestamp(c, api.Timestamp{Seconds: s, Nanos: n}, 1420070400, time.UTC)
		if s > -1<<40 && s < 1<<40 {
			oneTimestamp(c, api.Timestamp{Loc: loc, Seconds: s, Nanos: n}, base, loc)
		}
		c.Eval(model.Hash(3, loc.String()+t.String()))
		c.Count("times", 1)
		c.Count("instants in "+loc.String()[:strings.IndexByte(loc.String()+"/", '/')], 1)
	}
}

func oneTimestamp(c *rt.C, ts api.Timestamp, base int64, loc *time.Location) {
	t := ts.Time()
	if t.Unix() != base+ts.Seconds || t.Nanosecond() != int(ts.Nanos) || t.Location().String() != loc.String() {
		c.Fail("time of timestamp", "%+v is %s, should be %d seconds from 1970", ts, t, base+ts.Seconds)
	}
	ns := new(big.Int).Mul(big.NewInt(base+ts.Seconds), big.NewInt(1e9))
	ns.Add(ns, new(big.Int).SetUint64(ts.Nanos))
	if ms := floorDiv(ns, big.NewInt(1e6)); ts.GetMilliSeconds() != ms {
		c.Fail("milliseconds", "%+v (%s) has %d milliseconds from 1970, GetMilliSeconds gives %d", ts, t, ms, ts.GetMilliSeconds())
	}
	_, off := time.Unix(base+ts.Seconds, 0).In(loc).Zone()
	ns.Add(ns, new(big.Int).Mul(big.NewInt(int64(off)), big.NewInt(1e9)))
	if ms := floorDiv(ns, big.NewInt(1e6)); ts.GetMilliSecondsUtc() != ms {
		c.Fail("milliseconds of local time", "%+v (%s) has %d milliseconds as if of UTC, GetMilliSecondsUtc gives %d", ts, t, ms, ts.GetMilliSecondsUtc())
	}
	c.Count("timestamps", 1)
}

// unpack is the specification: three low bits are zeros left out less one
func unpack(p uint64) uint64 {
	n := p >> 3
	if z := p & 7; z != 0 {
		n *= []uint64{0, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000}[z]
	}
	return n
}

const nanoBlock = 100000

// blocks of nanoseconds: all of them if thorough
func c16Nanos(c *rt.C) {
	block := c.Idx
	if !c.Thorough {
		block = c.R.Intn(10000)
	}
	from := uint64(block) * nanoBlock
	for i := uint64(0); i < nanoBlock; i++ {
		oneNano(c, from+i)
	}
	// and those with zeros
	for z, k := uint64(10), 0; z < 1e9; z, k = z*10, k+1 {
		for i := 0; i < 50; i++ {
			oneNano(c, uint64(c.R.Int63n(int64(1e9/z)))*z)
		}
		// packed by anyone
		for p := uint64(0); p < 8; p++ {
			n := uint64(c.R.Int63n(int64(1e9/z))) / 100
			packed := n<<3 | p
			if want := unpack(packed); want < 1e9 {
				if got := api.DecodingTimestampNanos(packed); got != want {
					c.Fail("nanoseconds unpacked", "%d packed is %d, DecodingTimestampNanos gives %d", packed, want, got)
				}
				if got := encoding.DecodingNano(packed); uint64(got) != want {
					c.Fail("nanoseconds unpacked", "%d packed is %d, DecodingNano gives %d", packed, want, got)
				}
			}
		}
	}
	c.Count("nanoseconds", nanoBlock)
	c.Eval(model.Hash(4, int64(block)))
	if c.Idx%100 == 0 {
		c.Sample("nanoseconds from %d on", from)
	}
}

func oneNano(c *rt.C, n uint64) {
	p := api.EncodingTimestampNanos(n)
	if unpack(p) != n {
		c.Fail("nanoseconds packed", "%d is packed as %d, which is %d", n, p, unpack(p))
	}
	if got := api.DecodingTimestampNanos(p); got != n {
		c.Fail("nanoseconds unpacked", "%d is packed as %d, DecodingTimestampNanos gives %d", n, p, got)
	}
	// those of the other package
	q := encoding.EncodingNano(n)
	if unpack(q) != n {
		c.Fail("nanoseconds packed", "%d is packed as %d, which is %d", n, q, unpack(q))
	}
	if got := encoding.DecodingNano(q); uint64(got) != n {
		c.Fail("nanoseconds unpacked", "%d is packed as %d, DecodingNano gives %d", n, q, got)
	}
}

func c16Decimals(c *rt.C) {
	r := c.R
	for i := 0; i < 300; i++ {
		u := model.RandBits(r, 1+r.Intn(64))
		switch r.Intn(5) {
		case 0:
			u = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 10, 100, -10, -100, 1e18, 999999999999999999}[r.Intn(13)]
		case 1: // round ones
			u = model.RandBits(r, 1+r.Intn(20))
			for k := r.Intn(10); k > 0; k-- {
				u *= 10
			}
		}
		s := r.Intn(39)
		switch r.Intn(8) {
		case 0:
			s = -r.Intn(39)
		case 1:
			s = r.Intn(800) - 400
		}
		d := api.Decimal64{Precision: u, Scale: s}
		want := new(big.Rat).SetInt64(u)
		pow := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(s))), nil))
		if s > 0 {
			want.Quo(want, pow)
		} else {
			want.Mul(want, pow)
		}
		text := d.String()
		got, ok := new(big.Rat).SetString(text)
		if !ok || got.Cmp(want) != 0 {
			c.Fail("text of decimal", "%d of scale %d has text %q", u, s, text)
		}
		if s >= 0 && s < 39 && strings.ContainsAny(text, "eE/") {
			c.Fail("text of decimal", "%d of scale %d has text %q, not a decimal", u, s, text)
		}
		f, _ := want.Float64()
		if g := d.Float64(); g != f || math.Signbit(g) != math.Signbit(f) {
			c.Fail("float of decimal", "%d of scale %d is %s, nearest float %g, Float64 gives %g", u, s, text, f, g)
		}
		c.Eval(model.Hash(5, model.Dec{U: u, S: s}))
		c.Count("decimals", 1)
		if i == 0 {
			c.Sample("decimal %d scale %d", u, s)
		}
	}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// times through a file, read in the location they were written in
func c16File(c *rt.C) {
	r := c.R
	loc := c16Zone(c)
	n := nRows(r, 300)
	times := make([]time.Time, n)
	dates := make([]time.Time, n)
	schema := &api.TypeDescription{Kind: pb.Type_STRUCT, ChildrenNames: []string{"t", "d"}, Children: []*api.TypeDescription{
		{Kind: pb.Type_TIMESTAMP, Encoding: pb.ColumnEncoding_DIRECT_V2}, {Kind: pb.Type_DATE, Encoding: pb.ColumnEncoding_DIRECT_V2}}}
	if err := api.NormalizeSchema(schema); err != nil {
		c.Fail("schema", "%v", err)
	}
	vec, err := schema.CreateVector(&api.BatchOption{RowSize: n + 1})
	if err != nil {
		c.Fail("vector", "%v", err)
	}
	vec.Children[0].Vector, vec.Children[1].Vector = vec.Children[0].Vector[:n], vec.Children[1].Vector[:n]
	for i := range times {
		times[i] = c16Instant(r, loc)
		vec.Children[0].Vector[i] = api.Value{V: api.GetTimestamp(times[i])}
		y, m, d := civil(int64(r.Intn(5000000) - 2000000))
		dates[i] = time.Date(int(y), time.Month(m), int(d), 0, 0, 0, 0, time.UTC)
		vec.Children[1].Vector[i] = api.Value{V: api.NewDate(int(y), time.Month(m), int(d))}
	}
	opts := config.DefaultWriterOptions()
	opts.CompressionKind = pb.CompressionKind_NONE
	fs := drive.NewFS(nil)
	w, err := orc.VerifNewWriter(schema, opts, fs.Handle())
	if err != nil {
		c.Fail("writer", "%v", err)
	}
	if n > 0 {
		if err := w.Write(vec); err != nil {
			c.Fail("write error", "%v", err)
		}
	}
	if err := w.Close(); err != nil {
		c.Fail("close error", "%v", err)
	}
	rd := open(c, fs.Data)
	defer rd.Close()
	opt := &api.BatchOption{RowSize: n + 1, Loc: loc}
	br, err := rd.CreateBatchReader(opt)
	if err != nil {
		c.Fail("batch reader", "%v", err)
	}
	defer br.Close()
	out, err := rd.GetSchema().CreateVector(opt)
	if err != nil {
		c.Fail("vector", "%v", err)
	}
	if n > 0 {
		if _, err := br.Next(out); err != nil {
			c.Fail("read error", "%v", err)
		}
	}
	if len(out.Children[0].Vector) != n && n > 0 {
		c.Fail("rows", "%d of %d", len(out.Children[0].Vector), n)
	}
	for i := 0; i < n; i++ {
		ts, ok := out.Children[0].Vector[i].V.(api.Timestamp)
		if !ok {
			c.Fail("timestamp read", "row %d has a %T", i, out.Children[0].Vector[i].V)
		}
		if got := ts.Time(); !got.Equal(times[i]) || got.Location().String() != loc.String() {
			c.Fail("timestamp read", "row %d: %s in %s was written, %s in %s is read", i, times[i], loc, got, got.Location())
		}
		d, ok := out.Children[1].Vector[i].V.(api.Date)
		if !ok || !time.Time(d).Equal(dates[i]) {
			c.Fail("date read", "row %d: %s was written, %v is read", i, dates[i], out.Children[1].Vector[i].V)
		}
	}
	c.Count("times of files", n)
	if n > 0 {
		c.Eval(model.Hash(6, loc.String()+times[0].String()))
	} else {
		c.Trivial()
	}
}
