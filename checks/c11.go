package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"time"

	"verif/mcx"

	"github.com/greymass/go-eosio/pkg/chain"
)

func init() {
	register(&Check{
		ID: "C11", Level: "exploration",
		Rule:   "every instant of the listed grids is turned into text by an independent civil-calendar algorithm and compared with String, the text and JSON forms, the parsers (with and without Z) and the conversions to and from time.Time, under several local time zones; texts outside the range of the target type or with impossible fields must be rejected. Every case is non-trivial.",
		Bounds: "seconds: every day of the 32-bit range at 5 times of day, every second of 12 days, 4096 around both ends (quick), all 2^32 values (thorough); block timestamps: the same; time points: every day of years 0-9999 at 3 millisecond times, every millisecond of 20 seconds, microseconds around them; texts: every year 0-9999 x boundary dates for the three types, every month/day/hour/minute/second pair of fields incl. impossible ones, single-character edits; zones: UTC, +14, -12, +05:30, a zone with daylight saving, +00:00:01.",
		Run:    runC11,
	})
}

// civil gives the proleptic Gregorian date of a day number counted from 1970-01-01.
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

func daysOf(y int64, m, d int) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mm := int64(m)
	if mm > 2 {
		mm -= 3
	} else {
		mm += 9
	}
	doy := (153*mm+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func put(b []byte, v, n int) []byte {
	s := strconv.Itoa(v)
	for i := len(s); i < n; i++ {
		b = append(b, '0')
	}
	return append(b, s...)
}

// isoText formats milliseconds since 1970; ms tells whether to write the fraction.
func isoText(milli int64, ms bool) string {
	day := milli / 86400000
	rest := milli % 86400000
	if rest < 0 {
		rest += 86400000
		day--
	}
	y, m, d := civil(day)
	b := put(make([]byte, 0, 24), int(y), 4)
	b = put(append(b, '-'), m, 2)
	b = put(append(b, '-'), d, 2)
	b = put(append(b, 'T'), int(rest/3600000), 2)
	b = put(append(b, ':'), int(rest/60000%60), 2)
	b = put(append(b, ':'), int(rest/1000%60), 2)
	if ms {
		b = put(append(b, '.'), int(rest%1000), 3)
	}
	return string(b)
}

func secCase(w *mcx.W, v uint32) {
	tp := chain.TimePointSec(v)
	want := isoText(int64(v)*1000, false)
	if s := tp.String(); s != want {
		w.Fail("TimePointSec(%d) formats as %q, want %q", v, s, want)
	}
	for _, s := range [2]string{want, want + "Z"} {
		if got, err := chain.NewTimePointSecFromString(s); err != nil || got != tp {
			w.Fail("TimePointSec text %q gives %d, %v, want %d", s, uint32(got), err, v)
		}
	}
	t := tp.Time()
	if t.Unix() != int64(v) || t.Nanosecond() != 0 || chain.NewTimePointSec(t) != tp || chain.NewTimePointSec(t.UTC()) != tp {
		w.Fail("TimePointSec(%d) converts to %v and back to %d", v, t, uint32(chain.NewTimePointSec(t)))
	}
	w.NonTrivial()
	w.Eval(3)
}

func secForms(w *mcx.W, v uint32) {
	want := isoText(int64(v)*1000, false)
	tp := chain.TimePointSec(v)
	x := chain.TimePointSec(1)
	if t, err := tp.MarshalText(); err != nil || string(t) != want || x.UnmarshalText(t) != nil || x != tp {
		w.Fail("TimePointSec(%d) text form %q, %v, back %d", v, t, err, uint32(x))
	}
	x = 1
	if j, err := json.Marshal(tp); err != nil || string(j) != `"`+want+`"` || json.Unmarshal(j, &x) != nil || x != tp {
		w.Fail("TimePointSec(%d) JSON form %s, %v, back %d", v, j, err, uint32(x))
	}
}

const blockEpoch = int64(946684800000)

func blockCase(w *mcx.W, v uint32) {
	bt := chain.BlockTimestamp(v)
	milli := blockEpoch + int64(v)*500
	want := isoText(milli, true)
	if s := bt.String(); s != want {
		w.Fail("BlockTimestamp(%d) formats as %q, want %q", v, s, want)
	}
	for _, s := range [2]string{want, want + "Z"} {
		if got, err := chain.NewBlockTimestampFromString(s); err != nil || got != bt {
			w.Fail("BlockTimestamp text %q gives %d, %v, want %d", s, uint32(got), err, v)
		}
	}
	t := bt.Time()
	if t.UnixMilli() != milli || t.Nanosecond()%500000000 != 0 || chain.NewBlockTimestamp(t) != bt || chain.NewBlockTimestamp(t.UTC()) != bt {
		w.Fail("BlockTimestamp(%d) converts to %v and back to %d", v, t, uint32(chain.NewBlockTimestamp(t)))
	}
	w.NonTrivial()
	w.Eval(3)
}

func blockForms(w *mcx.W, v uint32) {
	bt := chain.BlockTimestamp(v)
	want := isoText(blockEpoch+int64(v)*500, true)
	x := chain.BlockTimestamp(1)
	if t, err := bt.MarshalText(); err != nil || string(t) != want || x.UnmarshalText(t) != nil || x != bt {
		w.Fail("BlockTimestamp(%d) text form %q, %v, back %d", v, t, err, uint32(x))
	}
	x = 1
	if j, err := json.Marshal(bt); err != nil || string(j) != `"`+want+`"` || json.Unmarshal(j, &x) != nil || x != bt {
		w.Fail("BlockTimestamp(%d) JSON form %s, %v, back %d", v, j, err, uint32(x))
	}
}

// blockRound: any Go time within the range goes to the nearest half second (either one on a tie).
func blockRound(w *mcx.W, v uint32, off time.Duration) {
	t := time.UnixMilli(blockEpoch + int64(v)*500).Add(off)
	got := chain.NewBlockTimestamp(t)
	lo := int64(v) + int64(math.Floor(float64(off)/5e8))
	rem := int64(off) - (lo-int64(v))*5e8
	ok := false
	if rem <= 25e7 && int64(got) == lo || rem >= 25e7 && int64(got) == lo+1 {
		ok = true
	}
	if !ok {
		w.Fail("NewBlockTimestamp(%v) = %d, nearest half second is %d or %d (%v past the former)", t.UTC(), uint32(got), lo, lo+1, time.Duration(rem))
	}
	w.NonTrivial()
}

func pointCase(w *mcx.W, micro int64) {
	tp := chain.TimePoint(micro)
	milli := micro / 1000
	if micro%1000 < 0 {
		milli--
	}
	want := isoText(milli, true)
	if s := tp.String(); s != want {
		w.Fail("TimePoint(%d) formats as %q, want %q", micro, s, want)
	}
	for _, s := range [2]string{want, want + "Z"} {
		if got, err := chain.NewTimePointFromString(s); err != nil || int64(got) != milli*1000 {
			w.Fail("TimePoint text %q gives %d, %v, want %d", s, int64(got), err, milli*1000)
		}
	}
	t := tp.Time()
	if t.UnixMicro() != micro || t.Nanosecond()%1000 != 0 || chain.NewTimePoint(t) != tp || chain.NewTimePoint(t.UTC()) != tp {
		w.Fail("TimePoint(%d) converts to %v and back to %d", micro, t, int64(chain.NewTimePoint(t)))
	}
	w.NonTrivial()
	w.Eval(3)
}

func pointForms(w *mcx.W, micro int64) {
	tp := chain.TimePoint(micro - micro%1000)
	want := isoText(int64(tp)/1000, true)
	x := chain.TimePoint(1)
	if t, err := tp.MarshalText(); err != nil || string(t) != want || x.UnmarshalText(t) != nil || x != tp {
		w.Fail("TimePoint(%d) text form %q, %v, back %d", micro, t, err, int64(x))
	}
	x = 1
	if j, err := json.Marshal(tp); err != nil || string(j) != `"`+want+`"` || json.Unmarshal(j, &x) != nil || x != tp {
		w.Fail("TimePoint(%d) JSON form %s, %v, back %d", micro, j, err, int64(x))
	}
}

// dateText judges a text made of the given fields for the three types. frac < 0: no fraction.
func dateText(w *mcx.W, y int64, mo, d, h, mi, s, frac int) {
	valid := mo >= 1 && mo <= 12 && d >= 1 && h < 24 && mi < 60 && s < 60 && y <= 9999
	if valid {
		y2, m2, _ := civil(daysOf(y, mo, d))
		valid = y2 == y && m2 == mo
	}
	var milli int64
	if valid {
		milli = daysOf(y, mo, d)*86400000 + int64(h)*3600000 + int64(mi)*60000 + int64(s)*1000
	}
	base := put(nil, int(y), 4)
	base = put(append(base, '-'), mo, 2)
	base = put(append(base, '-'), d, 2)
	base = put(append(base, 'T'), h, 2)
	base = put(append(base, ':'), mi, 2)
	base = put(append(base, ':'), s, 2)
	for _, z := range [2]string{"", "Z"} {
		t := string(base) + z
		got, err := chain.NewTimePointSecFromString(t)
		in := valid && milli >= 0 && milli/1000 <= math.MaxUint32
		if in != (err == nil) || in && int64(got) != milli/1000 {
			w.Fail("TimePointSec text %q gives %d, %v (valid date %v, in range %v)", t, uint32(got), err, valid, in)
		}
		if frac < 0 {
			continue
		}
		ft := string(put(append(append([]byte{}, base...), '.'), frac, 3)) + z
		fm := milli + int64(frac)
		tp, err := chain.NewTimePointFromString(ft)
		if valid != (err == nil) || valid && int64(tp) != fm*1000 {
			w.Fail("TimePoint text %q gives %d, %v (valid date %v)", ft, int64(tp), err, valid)
		}
		bt, err := chain.NewBlockTimestampFromString(ft)
		rel := fm - blockEpoch
		if !valid || rel < -250 || rel > int64(math.MaxUint32)*500+250 {
			if err == nil {
				w.Fail("BlockTimestamp text %q (valid date %v) is accepted as %d", ft, valid, uint32(bt))
			}
		} else if rel >= 0 && rel <= int64(math.MaxUint32)*500 && err != nil {
			w.Fail("BlockTimestamp text %q is rejected: %v", ft, err)
		}
		if valid && err == nil {
			diff := rel - int64(bt)*500
			if diff < -250 || diff > 250 {
				w.Fail("BlockTimestamp text %q gives %d, which is %d ms away", ft, uint32(bt), diff)
			}
		}
		// a fraction in a seconds text may be rejected or dropped, but not misread
		if got, err := chain.NewTimePointSecFromString(ft); err == nil && (!in || int64(got) != milli/1000) {
			w.Fail("TimePointSec text %q gives %d", ft, uint32(got))
		}
	}
	w.NonTrivial()
	w.Eval(5)
}

func runC11(r *mcx.Run) {
	zones := []*time.Location{time.UTC, time.FixedZone("p14", 14*3600), time.FixedZone("m12", -12*3600), time.FixedZone("ist", 19800), time.FixedZone("odd", 1)}
	for _, n := range []string{"America/New_York", "Australia/Lord_Howe", "Europe/London"} {
		if l, err := time.LoadLocation(n); err == nil {
			zones = append(zones, l)
		}
	}
	old := time.Local
	defer func() { time.Local = old }()
	tod := []uint32{0, 1, 43199, 43200, 86399}
	const maxMicro = int64(253402300799999999)
	minDay, maxDay := daysOf(0, 1, 1), daysOf(9999, 12, 31)
	for zi, z := range zones {
		time.Local = z
		zn := fmt.Sprintf("zone %s: ", z)
		r.Sweep(zn+"seconds by day", 49711*5, func(w *mcx.W, i uint64) {
			v := i/5*86400 + uint64(tod[i%5])
			if v <= math.MaxUint32 {
				secCase(w, uint32(v))
				if i%5 == 0 {
					secForms(w, uint32(v))
				}
			}
			if zi == 0 {
				blockCase(w, uint32(i/5*86400+uint64(tod[i%5])))
			}
		})
		r.Sweep(zn+"block timestamps by day", 24856*5, func(w *mcx.W, i uint64) {
			v := i/5*172800 + uint64(tod[i%5])*2 + i%2
			if v <= math.MaxUint32 {
				blockCase(w, uint32(v))
				if i%5 == 0 {
					blockForms(w, uint32(v))
				}
			}
		})
		n := uint64(maxDay - minDay + 1)
		step := uint64(mcx.Pick(r, 7, 1))
		if zi == 0 {
			step = 1
		}
		r.Sweep(zn+"time points by day", n/step*3, func(w *mcx.W, i uint64) {
			day := minDay + int64(i/3*step)
			m := day*86400000000 + []int64{0, 43200001000, 86399999999}[i%3]
			pointCase(w, m)
			if i%16 == 0 {
				pointForms(w, m)
			}
		})
		if r.Stopped() {
			return
		}
	}
	time.Local = zones[1]
	days := []uint32{0, 789, 11016, 11017, 10957, 17897, 18321, 24837, 24855, 36524, 47540, 49709}
	r.Sweep("every second of 12 days", 12*86400, func(w *mcx.W, i uint64) {
		v := days[i/86400]*86400 + uint32(i%86400)
		secCase(w, v)
		blockCase(w, v*2)
		blockCase(w, v*2+1)
	})
	r.Sweep("range ends", 8192, func(w *mcx.W, i uint64) {
		secCase(w, uint32(i)-4096)
		blockCase(w, uint32(i)-4096)
		secForms(w, uint32(i)-4096)
		blockForms(w, uint32(i)-4096)
		pointCase(w, maxMicro-int64(i)*997)
		pointCase(w, minDay*86400000000+int64(i)*997)
		pointCase(w, int64(i)-4096)
		pointCase(w, (int64(i)-4096)*1000)
	})
	secs := []int64{0, -1, 1, 946684799, 946684800, -62167219200, 253402300799, 4294967295, 4294967296, 1582934399, 1582934400, 951782400, -2203891201, 2147483647, 2147483648, -2147483648, 1, 1529090267, 3094168447, 3094168448}
	r.Sweep("every millisecond", uint64(len(secs))*1000, func(w *mcx.W, i uint64) {
		m := secs[i/1000]*1000000 + int64(i%1000)*1000
		pointCase(w, m)
		pointForms(w, m)
		for _, d := range []int64{1, 499, 500, 999} {
			pointCase(w, m+d)
		}
	})
	r.Sweep("microseconds", 200000, func(w *mcx.W, i uint64) {
		pointCase(w, int64(i)-100000)
		pointCase(w, 1529090267000000+int64(i))
	})
	r.Sweep("rounding", 1500*5, func(w *mcx.W, i uint64) {
		v := []uint32{2, 1000, 1 << 30, 0xfffffff0, 1212121211}[i/1500]
		ms := time.Duration(i%1500)*time.Millisecond - 500*time.Millisecond
		for _, e := range []time.Duration{0, 1, 999, 1000, 499999, 500000, 999999} {
			blockRound(w, v, ms+e)
		}
	})
	// texts
	fr := []int{0, 1, 249, 250, 499, 500, 749, 750, 999}
	r.Sweep("texts: years", 10000*9, func(w *mcx.W, i uint64) {
		y, k := int64(i/9), i%9
		f := fr[k]
		for _, md := range [][5]int{{1, 1, 0, 0, 0}, {12, 31, 23, 59, 59}, {2, 28, 12, 0, 0}, {2, 29, 0, 0, 1}, {2, 30, 0, 0, 0}, {3, 1, 0, 0, 0}, {2, 7, 6, 28, 15}, {2, 7, 6, 28, 16}, {1, 19, 3, 14, 7}, {1, 19, 3, 14, 8}} {
			dateText(w, y, md[0], md[1], md[2], md[3], md[4], f)
		}
	})
	r.Sweep("texts: month and day", 20*14*33*9, func(w *mcx.W, i uint64) {
		y := []int64{0, 1, 4, 100, 400, 1600, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2020, 2068, 2100, 2106, 2107, 9996, 9999}[i%20]
		i /= 20
		dateText(w, y, int(i%14), int(i/14%33), 0, 0, 0, fr[i/(14*33)])
	})
	r.Sweep("texts: time fields", 26*62*62*4, func(w *mcx.W, i uint64) {
		y := []int64{1970, 2018, 2000, 2068}[i%4]
		i /= 4
		dateText(w, y, 1, 1, int(i%26), int(i/26%62), int(i/(26*62)), int(i%1000))
	})
	// the two range ends, second by second and millisecond by millisecond
	r.Sweep("texts: around the ends", 4001*4, func(w *mcx.W, i uint64) {
		for _, c := range []int64{0, (1 << 32) * 1000, blockEpoch, blockEpoch + (1<<32)*500} {
			m := c + (int64(i%4001)-2000)*[]int64{1, 250, 1000, 86400000}[i/4001]
			day := m / 86400000
			rest := m % 86400000
			if rest < 0 {
				rest += 86400000
				day--
			}
			y, mo, d := civil(day)
			dateText(w, y, mo, d, int(rest/3600000), int(rest/60000%60), int(rest/1000%60), int(rest%1000))
		}
	})
	seeds := []string{"2018-06-15T19:17:47", "2018-06-15T19:17:47.500", "2018-06-15T19:17:47.500Z", "2106-02-07T06:28:15", "2000-01-01T00:00:00.000"}
	r.Sweep("edited texts", uint64(len(seeds)), func(w *mcx.W, i uint64) {
		edits(seeds[i], all256, func(s string) {
			// whatever is accepted must come out as the same text again (up to Z, fraction and rounding)
			if v, err := chain.NewTimePointSecFromString(s); err == nil && !sameTime(s, v.String(), 0) {
				w.Fail("TimePointSec text %q is accepted as %s", s, v)
			}
			if v, err := chain.NewTimePointFromString(s); err == nil && !sameTime(s, v.String(), 0) {
				w.Fail("TimePoint text %q is accepted as %s", s, v)
			}
			if v, err := chain.NewBlockTimestampFromString(s); err == nil && !sameTime(s, v.String(), 250) {
				w.Fail("BlockTimestamp text %q is accepted as %s", s, v)
			}
			w.NonTrivial()
			w.Eval(2)
		})
	})
	// what else people write after, before and between the fields
	sufs := []string{"Z", "ZZ", "z", "zZ", " Z", "Z ", " ", "\n", "\x00", "+00:00", "-00:00", "+02:00", "-0230", "+02", "Z+02:00", " UTC", "UTC", " GMT", "+0", ".", ".Z", ".5", ".5Z", ".500000", ".500000Z", ".1234567891", ",5", ".-5", ".5.5", ".5e1", ":00", "T", "\"", " m=+1", "[Etc/UTC]", "Z[UTC]"}
	pres := []string{"", " ", "+", "-", "0", "\n", "\"", "T", "+0", "00"}
	seps := []string{"T", " ", "t", "", "TT", "T ", "_", "\u2009"}
	r.Sweep("decorated texts", uint64(len(sufs)*len(pres)*len(seps)), func(w *mcx.W, i uint64) {
		suf, pre, sep := sufs[i%uint64(len(sufs))], pres[i/uint64(len(sufs))%uint64(len(pres))], seps[i/uint64(len(sufs)*len(pres))]
		for _, b := range [][2]string{{"2018-06-15", "19:17:47"}, {"2018-06-15", "19:17:47.500"}, {"2000-01-01", "00:00:00"}, {"2018-06-15", "07:17:47 PM"}, {"15 Jun 2018", "19:17:47"}, {"20180615", "191747"}, {"2018-06-15", "19:17"}, {"2018-06-15", ""}, {"1529090267", ""}, {"2018-166", "19:17:47"}, {"18-06-15", "19:17:47"}} {
			s := pre + b[0] + sep + b[1] + suf
			if v, err := chain.NewTimePointSecFromString(s); err == nil && !sameTime(s, v.String(), 0) {
				w.Fail("TimePointSec text %q is accepted as %s", s, v)
			}
			if v, err := chain.NewTimePointFromString(s); err == nil && !sameTime(s, v.String(), 0) {
				w.Fail("TimePoint text %q is accepted as %s", s, v)
			}
			if v, err := chain.NewBlockTimestampFromString(s); err == nil && !sameTime(s, v.String(), 250) {
				w.Fail("BlockTimestamp text %q is accepted as %s", s, v)
			}
			w.Eval(3)
		}
		w.NonTrivial()
	})
	if r.Thorough {
		for k := 0; k < 16; k++ {
			r.Sweep(fmt.Sprintf("all seconds %d/16", k), 1<<28, func(w *mcx.W, i uint64) { secCase(w, uint32(uint64(k)<<28+i)) })
		}
		for k := 0; k < 16; k++ {
			r.Sweep(fmt.Sprintf("all block timestamps %d/16", k), 1<<28, func(w *mcx.W, i uint64) { blockCase(w, uint32(uint64(k)<<28+i)) })
		}
	}
}

// sameTime compares an accepted text with the canonical one: the digits of the date and time must agree
// field by field. Only texts with the canonical field widths are judged.
var isoLoose = regexp.MustCompile(`^\d{4}-\d{2}-\d{2}T\d{1,2}:\d{2}:\d{2}([.,][+-]?\d+)?$`)

func sameTime(in, out string, tol int64) bool {
	if n := len(in); n > 0 && in[n-1] == 'Z' {
		in = in[:n-1]
	}
	a, ok := milliOf(in)
	if !ok {
		return isoLoose.MatchString(in) // a one-digit hour, a comma or a sign in the fraction may be understood as the time package does, anything else is no timestamp
	}
	b, ok := milliOf(out)
	if len(out) == 19 {
		a -= ((a % 1000) + 1000) % 1000
	}
	d := a - b
	return ok && d <= tol && d >= -tol
}

func milliOf(s string) (int64, bool) {
	if len(s) != 19 && (len(s) < 21 || s[19] != '.') {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		want := byte('0')
		switch i {
		case 4, 7:
			want = '-'
		case 10:
			want = 'T'
		case 13, 16:
			want = ':'
		case 19:
			want = '.'
		}
		if want == '0' && (s[i] < '0' || s[i] > '9') || want != '0' && s[i] != want {
			return 0, false
		}
	}
	n := func(i, j int) int { v, _ := strconv.Atoi(s[i:j]); return v }
	m := daysOf(int64(n(0, 4)), n(5, 7), n(8, 10))*86400000 + int64(n(11, 13))*3600000 + int64(n(14, 16))*60000 + int64(n(17, 19))*1000
	if len(s) > 20 {
		f := (s[20:] + "00")[:3]
		v, _ := strconv.Atoi(f)
		m += int64(v)
	}
	return m, true
}
