package checks

import (
	"fmt"
	"math"
	"math/big"
	"time"
	_ "time/tzdata" // zone names must resolve wherever the check runs

	"github.com/mindstand/gotime"
	"pgregory.net/rapid"

	"vharness/prop"
	"vharness/ps"
)

// civil converts days since 1970-01-01 to a proleptic Gregorian date
// (Hinnant's algorithm; independent of package time).
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 && z%146097 != 0 {
		era--
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		y++
	}
	return
}

func floorDiv(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r < 0 {
		q--
		r += b
	}
	return
}

type wall struct {
	y       int64
	mo, d   int
	h, m, s int
	n       int
}

func wallOf(secs, nano int64) wall {
	days, r := floorDiv(secs, 86400)
	y, mo, d := civil(days)
	return wall{y, mo, d, int(r / 3600), int(r / 60 % 60), int(r % 60), int(nano)}
}

type fielded interface {
	Hour() int
	Minute() int
	Second() int
	Nanosecond() int
}
type dated interface {
	Year() int
	Month() time.Month
	Day() int
}

func fieldsOf(x interface{}) wall {
	var w wall
	if d, ok := x.(dated); ok {
		w.y, w.mo, w.d = int64(d.Year()), int(d.Month()), d.Day()
	}
	if f, ok := x.(fielded); ok {
		w.h, w.m, w.s, w.n = f.Hour(), f.Minute(), f.Second(), f.Nanosecond()
	}
	return w
}

var zones = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Asia/Kathmandu", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Tehran", "Pacific/Chatham", "Etc/GMT+12", "Pacific/Kiritimati"}

// instantsOf lists the instants that show the wall-clock seconds in loc: none
// in a gap, two when a change sets the clock back.
func instantsOf(secs int64, loc *time.Location) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for _, d := range []int64{-172800, -93600, -86400, -43200, -7200, 0, 7200, 43200, 86400, 93600, 172800} {
		_, off := time.Unix(secs+d, 0).In(loc).Zone()
		at := secs - int64(off)
		if _, o2 := time.Unix(at, 0).In(loc).Zone(); o2 == off && !seen[at] {
			seen[at] = true
			out = append(out, at)
		}
	}
	return out
}

// genSecs draws seconds since the epoch in range, with a bias to moments
// around zone changes of loc.
func genSecs(t *rapid.T, loc *time.Location) int64 {
	switch rapid.IntRange(0, 5).Draw(t, "secs") {
	case 0:
		return rapid.Int64Range(-4e9, 4e9).Draw(t, "near")
	case 1:
		return rapid.SampledFrom([]int64{0, -1, 1, -86400, 86399, 951782400, 951868800, 1<<31 - 1, 1 << 31, -(1 << 31), -62135596800, -62135596801, 253402300799, 253402300800, 9223372036, 9223372037, -9223372036, -9223372037, 31556889864403199, -31557014167219200}).Draw(t, "edge")
	case 2:
		return rapid.Int64Range(-31557014167219200, 31556889864403199).Draw(t, "far")
	default:
		at := time.Unix(rapid.Int64Range(-3e9, 4e9).Draw(t, "around"), 0).In(loc)
		start, end := at.ZoneBounds()
		b := end
		if b.IsZero() {
			b = start
		}
		if b.IsZero() {
			return at.Unix()
		}
		_, off := b.Add(-time.Second).In(loc).Zone()
		return b.Unix() + int64(off) + rapid.Int64Range(-10800, 10800).Draw(t, "delta")
	}
}

func genNano(t *rapid.T) int64 {
	if rapid.IntRange(0, 2).Draw(t, "nk") == 0 {
		return rapid.SampledFrom([]int64{0, 1, 999, 1000000, 999999999, 500000000}).Draw(t, "nano")
	}
	return rapid.Int64Range(0, 999999999).Draw(t, "nano")
}

type timeCase struct {
	Kind string `json:"kind"`
	S    int64  `json:"s"`
	N    int64  `json:"n"`
	Off  int    `json:"off"`
	Zone string `json:"zone,omitempty"`
	D    int64  `json:"d,omitempty"`
	Wrap bool   `json:"wrap,omitempty"`
}

var timeKinds = []string{"date", "clock", "clockfrom", "localclock", "localtime", "localtime", "zoned", "zonedin", "zoneid", "zoneid", "duration", "durationdec", "badzone"}

func genTimeCase(t *rapid.T) timeCase {
	c := timeCase{Kind: rapid.SampledFrom(timeKinds).Draw(t, "kind"), Wrap: rapid.Bool().Draw(t, "wrap")}
	loc := time.Local
	switch c.Kind {
	case "zonedin", "zoneid", "clockfrom":
		c.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
		loc, _ = time.LoadLocation(c.Zone)
	case "badzone":
		c.Zone = rapid.SampledFrom([]string{"Nowhere/City", "", "../etc/passwd", "europe/berlin\x00", "+25:99", "%s%d", "Mars"}).Draw(t, "zone")
	}
	switch c.Kind {
	case "duration":
		switch rapid.IntRange(0, 2).Draw(t, "dk") {
		case 0:
			c.D = rapid.SampledFrom([]int64{0, 1, -1, 999999999, -999999999, 1e9, -1e9, 1000000001, -1000000001, 86400e9, -86400e9, math.MaxInt64, math.MinInt64, 2600640e9, 3600e9}).Draw(t, "d")
		case 1:
			c.D = rapid.Int64().Draw(t, "d")
		default:
			c.D = rapid.Int64Range(-1e13, 1e13).Draw(t, "d")
		}
		return c
	case "durationdec":
		c.D = rapid.SampledFrom([]int64{0, 0, 1, -1, 30, 106751, 106752, -106751, -106752, 1e6, 1e12, math.MaxInt64, math.MinInt64}).Draw(t, "days")
		switch rapid.IntRange(0, 2).Draw(t, "sk") {
		case 0:
			c.S = rapid.Int64Range(-100000, 100000).Draw(t, "s")
		case 1:
			c.S = rapid.SampledFrom([]int64{0, 9223372036, 9223372037, -9223372036, -9223372037, math.MaxInt64, math.MinInt64, 86400, -86400}).Draw(t, "s")
		default:
			c.S = rapid.Int64Range(-9e9, 9e9).Draw(t, "s")
		}
		c.N = rapid.SampledFrom([]int64{0, 1, -1, 999999999, -999999999, 854775807, 854775808, -854775808, -854775809, 145224193}).Draw(t, "n")
		return c
	}
	c.S = genSecs(t, loc)
	c.N = genNano(t)
	c.Off = rapid.SampledFrom([]int{0, 3600, -3600, 7200, 19800, -12600, 20700, 18 * 3600, -18 * 3600, 1, -1, 3599, -3601}).Draw(t, "off")
	if rapid.IntRange(0, 2).Draw(t, "offr") == 0 {
		c.Off = rapid.IntRange(-18*3600, 18*3600).Draw(t, "offv")
	}
	return c
}

// encTemporal encodes x (possibly nested) and returns the structure found.
func encTemporal(x interface{}, wrap bool) (ps.V, error) {
	cd := codecFor(2)
	in := x
	if wrap {
		in = map[string]interface{}{"a": []interface{}{x, "end"}, "b": 7}
	}
	b, err := cd.marshal(in)
	if err != nil {
		return ps.V{}, fmt.Errorf("encoding %T failed: %v", x, err)
	}
	msgs, err := ps.Dechunk(b)
	if err != nil || len(msgs) != 1 {
		return ps.V{}, fmt.Errorf("encoding of %T is not one message: %v", x, err)
	}
	v, err := ps.Parse(msgs[0].Body)
	if err != nil {
		return ps.V{}, fmt.Errorf("encoding of %T is not legal: %v", x, err)
	}
	if wrap {
		l, ok := v.Get("a")
		e, ok2 := v.Get("b")
		if !ok || !ok2 || e.I != 7 || len(l.L) != 2 || string(l.L[1].S) != "end" {
			return ps.V{}, fmt.Errorf("value around %T damaged: %s", x, ps.Show(v))
		}
		return l.L[0], nil
	}
	return v, nil
}

func decTemporal(v ps.V, wrap bool) (interface{}, error) {
	cd := codecFor(2)
	in := v
	if wrap {
		in = ps.StructV(0x71, ps.ListV(v, ps.StrV("end")))
	}
	x, err := cd.unmarshal(ps.Chunk(ps.Encode(in), nil))
	if err != nil {
		return nil, err
	}
	if wrap {
		l, ok := recordFields(x)
		if !ok || len(l) != 2 || l[1] != "end" {
			return nil, fmt.Errorf("record around the structure damaged: %T %v", x, x)
		}
		return l[0], nil
	}
	return x, nil
}

func wantStruct(got ps.V, sig byte, ints ...int64) error {
	var l []ps.V
	for _, i := range ints {
		l = append(l, ps.IntV(i))
	}
	if d := ps.Diff(ps.StructV(sig, l...), got); d != "" {
		return fmt.Errorf("encoded as %s: %s", ps.Show(got), d)
	}
	return nil
}

func offsetOf(t time.Time) int { _, o := t.Zone(); return o }

func dayNano(w wall) int64 { return int64((w.h*60+w.m)*60+w.s)*1e9 + int64(w.n) }

func runTime(ctx *prop.Ctx, c timeCase) error {
	ctx.Label(c.Kind)
	ctx.Label("TZ=" + time.Local.String() + envOrNone("TZ"))
	fz := time.FixedZone("x", c.Off)
	w := wallOf(c.S, c.N)
	tooFar := c.S > 9223372036 || c.S < -9223372036
	if tooFar {
		ctx.Label("beyond 292 years")
	}
	if c.S < 0 || c.N != 0 || c.Off != 0 || c.D != 0 || c.Zone != "" {
		ctx.NonTrivial()
	}
	switch c.Kind {
	case "date":
		days, _ := floorDiv(c.S, 86400)
		d := gotime.NewDate(int(w.y), time.Month(w.mo), w.d)
		v, err := encTemporal(d, c.Wrap)
		if err != nil {
			return err
		}
		if err := wantStruct(v, 'D', days); err != nil {
			return fmt.Errorf("date %d-%d-%d: %v", w.y, w.mo, w.d, err)
		}
		x, err := decTemporal(ps.StructV('D', ps.IntV(days)), c.Wrap)
		if err != nil {
			return fmt.Errorf("date of day %d: %v", days, err)
		}
		g, ok := x.(gotime.Date)
		if !ok {
			return fmt.Errorf("date decoded as %T", x)
		}
		if f := fieldsOf(g); f != (wall{y: w.y, mo: w.mo, d: w.d}) {
			return fmt.Errorf("day %d decoded as %d-%d-%d, is %d-%d-%d", days, f.y, f.mo, f.d, w.y, w.mo, w.d)
		}
	case "clock":
		k := gotime.NewClock(w.h, w.m, w.s, w.n, fz)
		v, err := encTemporal(k, c.Wrap)
		if err != nil {
			return err
		}
		if err := wantStruct(v, 'T', dayNano(w), int64(c.Off)); err != nil {
			return fmt.Errorf("time %v: %v", k.GetTime(), err)
		}
		x, err := decTemporal(ps.StructV('T', ps.IntV(dayNano(w)), ps.IntV(int64(c.Off))), c.Wrap)
		if err != nil {
			return fmt.Errorf("time: %v", err)
		}
		g, ok := x.(gotime.Clock)
		if !ok {
			return fmt.Errorf("time decoded as %T", x)
		}
		if f := fieldsOf(g); f.h != w.h || f.m != w.m || f.s != w.s || f.n != w.n || offsetOf(g.GetTime()) != c.Off {
			return fmt.Errorf("time %+v offset %d decoded as %v", w, c.Off, g.GetTime())
		}
	case "clockfrom":
		loc, _ := time.LoadLocation(c.Zone)
		k := gotime.NewClockFromTime(time.Unix(c.S, c.N).In(loc))
		v, err := encTemporal(k, c.Wrap)
		if err != nil {
			return err
		}
		if err := wantStruct(v, 'T', dayNano(fieldsOf(k)), int64(offsetOf(k.GetTime()))); err != nil {
			return fmt.Errorf("time %v: %v", k.GetTime(), err)
		}
	case "localclock":
		k := gotime.NewLocalClock(w.h, w.m, w.s, w.n)
		v, err := encTemporal(k, c.Wrap)
		if err != nil {
			return err
		}
		if err := wantStruct(v, 't', dayNano(w)); err != nil {
			return fmt.Errorf("local time %v: %v", k.GetTime(), err)
		}
		x, err := decTemporal(ps.StructV('t', ps.IntV(dayNano(w))), c.Wrap)
		if err != nil {
			return fmt.Errorf("local time: %v", err)
		}
		g, ok := x.(gotime.LocalClock)
		if !ok {
			return fmt.Errorf("local time decoded as %T", x)
		}
		if f := fieldsOf(g); f.h != w.h || f.m != w.m || f.s != w.s || f.n != w.n {
			return fmt.Errorf("local time %+v decoded as %+v", w, f)
		}
	case "localtime":
		at := instantsOf(c.S, time.Local)
		if len(at) == 0 {
			ctx.Label("gap skipped") // a local time.Time cannot show these fields
			return nil
		}
		if len(at) > 1 {
			ctx.Label("ambiguous")
		}
		for _, a := range at {
			lt := gotime.NewLocalTimeFromTime(time.Unix(a, c.N))
			v, err := encTemporal(lt, c.Wrap)
			if err != nil {
				return err
			}
			if err := wantStruct(v, 'd', c.S, c.N); err != nil {
				return fmt.Errorf("local date-time %v: %v", lt.GetTime(), err)
			}
		}
		x, err := decTemporal(ps.StructV('d', ps.IntV(c.S), ps.IntV(c.N)), c.Wrap)
		if err != nil {
			return fmt.Errorf("local date-time: %v", err)
		}
		g, ok := x.(gotime.LocalTime)
		if !ok {
			return fmt.Errorf("local date-time decoded as %T", x)
		}
		if f := fieldsOf(g); f != w {
			return fmt.Errorf("local date-time %+v decoded as %+v", w, f)
		}
		v, err := encTemporal(g, c.Wrap)
		if err != nil {
			return err
		}
		return wantStruct(v, 'd', c.S, c.N)
	case "zoned", "zonedin":
		loc := fz
		if c.Kind == "zonedin" {
			loc, _ = time.LoadLocation(c.Zone)
		}
		tm := time.Unix(c.S, c.N).In(loc)
		off := offsetOf(tm)
		v, err := encTemporal(tm, c.Wrap)
		if err != nil {
			return err
		}
		if err := wantStruct(v, 'F', c.S+int64(off), c.N, int64(off)); err != nil {
			return fmt.Errorf("date-time %v: %v", tm, err)
		}
		x, err := decTemporal(ps.StructV('F', ps.IntV(c.S+int64(off)), ps.IntV(c.N), ps.IntV(int64(off))), c.Wrap)
		if err != nil {
			return fmt.Errorf("date-time: %v", err)
		}
		g, ok := x.(time.Time)
		if !ok {
			return fmt.Errorf("date-time decoded as %T", x)
		}
		if g.Unix() != c.S || int64(g.Nanosecond()) != c.N || offsetOf(g) != off || fieldsOf(g) != wallOf(c.S+int64(off), c.N) {
			return fmt.Errorf("date-time %v (offset %d) decoded as %v", tm, off, g)
		}
	case "zoneid":
		loc, _ := time.LoadLocation(c.Zone)
		at := instantsOf(c.S, loc)
		x, err := decTemporal(ps.StructV('f', ps.IntV(c.S), ps.IntV(c.N), ps.StrV(c.Zone)), c.Wrap)
		if err != nil {
			return fmt.Errorf("date-time in zone %s: %v", c.Zone, err)
		}
		g, ok := x.(time.Time)
		if !ok {
			return fmt.Errorf("date-time decoded as %T", x)
		}
		if len(at) == 0 {
			ctx.Label("gap skipped")
			return nil
		}
		if len(at) > 1 {
			ctx.Label("ambiguous")
		}
		hit := false
		for _, a := range at {
			hit = hit || g.Unix() == a
		}
		if f := fieldsOf(g); f != w || !hit {
			return fmt.Errorf("date-time %+v in %s decoded as %v", w, c.Zone, g)
		}
		if offsetOf(g) != offsetOf(time.Unix(g.Unix(), 0).In(loc)) {
			return fmt.Errorf("date-time in %s decoded with offset %d", c.Zone, offsetOf(g))
		}
	case "badzone":
		x, err := decTemporal(ps.StructV('f', ps.IntV(c.S), ps.IntV(c.N), ps.StrV(c.Zone)), c.Wrap)
		if _, e := time.LoadLocation(c.Zone); e != nil && err == nil {
			return fmt.Errorf("date-time in unknown zone %q decoded as %v", c.Zone, x)
		}
	case "duration":
		v, err := encTemporal(time.Duration(c.D), c.Wrap)
		if err != nil {
			return err
		}
		if v.K != ps.Struct || v.Sig != 'E' || len(v.L) != 4 {
			return fmt.Errorf("duration encoded as %s", ps.Show(v))
		}
		for _, f := range v.L {
			if f.K != ps.Int {
				return fmt.Errorf("duration encoded as %s", ps.Show(v))
			}
		}
		if v.L[0].I != 0 || durSum(v.L[1].I, v.L[2].I, v.L[3].I).Cmp(big.NewInt(c.D)) != 0 {
			return fmt.Errorf("duration %v encoded as %s", time.Duration(c.D), ps.Show(v))
		}
		x, err := decTemporal(v, c.Wrap)
		if err != nil {
			return fmt.Errorf("own encoding of duration %v: %v", time.Duration(c.D), err)
		}
		if g, ok := x.(time.Duration); !ok || int64(g) != c.D {
			return fmt.Errorf("duration %v came back as %T %v", time.Duration(c.D), x, x)
		}
	case "durationdec":
		sum := durSum(c.D, c.S, c.N)
		x, err := decTemporal(ps.StructV('E', ps.IntV(0), ps.IntV(c.D), ps.IntV(c.S), ps.IntV(c.N)), c.Wrap)
		if !sum.IsInt64() {
			ctx.Label("overflow")
			if err == nil {
				return fmt.Errorf("duration of %d days %d s %d ns, which does not fit, decoded as %v", c.D, c.S, c.N, x)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("duration of %d days %d s %d ns: %v", c.D, c.S, c.N, err)
		}
		if g, ok := x.(time.Duration); !ok || int64(g) != sum.Int64() {
			return fmt.Errorf("duration of %d days %d s %d ns decoded as %v", c.D, c.S, c.N, x)
		}
	}
	return nil
}

func durSum(days, s, n int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(days), big.NewInt(86400))
	x.Add(x, big.NewInt(s))
	x.Mul(x, big.NewInt(1e9))
	return x.Add(x, big.NewInt(n))
}

func init() {
	prop.Add(prop.Part{Prop: "C07", Name: "temporal",
		Rule:  "dates, times, local and zoned date-times and durations from -10^9 to 10^9 years with a bias to zone changes, encoded and decoded against an own calendar, in processes under different time zones; non-trivial: not the epoch itself",
		Quick: 600000, Thorough: 2000000,
		Envs: []string{"TZ=UTC", "TZ=Europe/Berlin", "TZ=America/New_York", "TZ=Asia/Kolkata", "TZ=Australia/Lord_Howe", "TZ=America/St_Johns", "TZ=Pacific/Apia", "TZ=Africa/Casablanca"}},
		genTimeCase, runTime)
}
