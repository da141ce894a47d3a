package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

// form is one text of a value and what it has to mean.
type form struct {
	kind string // spelling, for the evidence
	text string
	want string // rendering of the value, or errText
}

const errText = "error"

// scalar describes a text type: how to make one, how to show its value and
// which texts mean what. Its reference never uses the code under test.
type scalar struct {
	name   string
	zero   func() interface{} // pointer to a zero value
	show   func(v interface{}) string
	forms  func(r *rand.Rand) form
	errors func(r *rand.Rand) string      // a text that is not a value
	empty  []string                       // texts that leave the value alone
	rand   func(r *rand.Rand) interface{} // pointer to a value with a text form of its own
	noText bool                           // writes through its kind
	noJSON bool
	keep   bool // does not overwrite a value that is set
}

func days(y, m, d int) int64 {
	// days since 1970-01-01 in the proleptic Gregorian calendar
	yy := int64(y)
	if m <= 2 {
		yy--
	}
	era := yy / 400
	if yy < 0 {
		era = (yy - 399) / 400
	}
	yoe := yy - era*400
	mp := int64((m + 9) % 12)
	doy := (153*mp+2)/5 + int64(d) - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

type stamp struct {
	y, mo, d, h, mi, s, ns int
	off                    int // minutes
}

func (t stamp) unix() int64 {
	return days(t.y, t.mo, t.d)*86400 + int64(t.h*3600+t.mi*60+t.s) - int64(t.off)*60
}

func (t stamp) show() string { return fmt.Sprintf("%d.%09d%+d", t.unix(), t.ns, t.off) }

func showTime(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf("%d.%09d%+d", t.Unix(), t.Nanosecond(), off/60)
}

func randStamp(r *rand.Rand) stamp {
	t := stamp{y: 1 + r.Intn(9999), mo: 1 + r.Intn(12), d: 1 + r.Intn(28), h: r.Intn(24), mi: r.Intn(60), s: r.Intn(60)}
	if r.Intn(3) > 0 {
		t.y = 1900 + r.Intn(200)
	}
	switch r.Intn(6) {
	case 0:
		t.d = []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[t.mo-1]
	case 1:
		t.y, t.mo, t.d = 4*(1+r.Intn(500)), 2, 29
		if t.y%100 == 0 && t.y%400 != 0 {
			t.d = 28
		}
	}
	switch r.Intn(5) {
	case 0:
	case 1:
		t.off = 60 * (r.Intn(27) - 12)
	default:
		t.off = r.Intn(27*60) - 12*60
	}
	if r.Intn(12) == 0 {
		t.h, t.mi, t.s = 0, 0, 0
	}
	if r.Intn(2) == 0 {
		t.ns = r.Intn(1e9)
		for i := r.Intn(9); i > 0; i-- {
			t.ns -= t.ns % int(math.Pow10(i))
		}
	}
	return t
}

func (t stamp) zone(colon bool) string {
	s, o := '+', t.off
	if o < 0 {
		s, o = '-', -o
	}
	if colon {
		return fmt.Sprintf("%c%02d:%02d", s, o/60, o%60)
	}
	return fmt.Sprintf("%c%02d%02d", s, o/60, o%60)
}

func (t stamp) frac(r *rand.Rand) string {
	if t.ns == 0 {
		return ""
	}
	s := strings.TrimRight(fmt.Sprintf("%09d", t.ns), "0")
	for len(s) < 9 && r.Intn(3) == 0 {
		s += "0"
	}
	return "." + s
}

func dateForm(r *rand.Rand) form {
	t := randStamp(r)
	f := form{}
	ymd := fmt.Sprintf("%04d-%02d-%02d", t.y, t.mo, t.d)
	hm := fmt.Sprintf("%02d:%02d", t.h, t.mi)
	hms := hm + fmt.Sprintf(":%02d", t.s)
	utc := func() { t.off = 0 }
	whole := func() { t.ns = 0 }
	noSec := func() { t.s, t.ns = 0, 0 }
	midnight := func() { t.h, t.mi, t.s, t.ns, t.off = 0, 0, 0, 0, 0 }
	switch r.Intn(22) {
	case 0, 1:
		f.kind, f.text = "zone", ymd+"T"+hms+t.frac(r)+t.zone(true)
	case 2, 3:
		utc()
		f.kind, f.text = "Z", ymd+"T"+hms+t.frac(r)+"Z"
	case 4:
		utc()
		f.kind, f.text = "no-zone", ymd+"T"+hms+t.frac(r)
	case 5:
		f.kind, f.text = "zone-hhmm", ymd+"T"+hms+t.frac(r)+t.zone(false)
	case 6:
		noSec()
		f.kind, f.text = "minutes-zone", ymd+"T"+hm+t.zone(true)
	case 7:
		noSec()
		utc()
		f.kind, f.text = "minutes-Z", ymd+"T"+hm+"Z"
	case 8:
		noSec()
		utc()
		f.kind, f.text = "minutes", ymd+"T"+hm
	case 9:
		noSec()
		utc()
		f.kind, f.text = "minutes-space", ymd+" "+hm
	case 10:
		whole()
		utc()
		f.kind, f.text = "seconds-space", ymd+" "+hms
	case 11:
		midnight()
		f.kind, f.text = "date", ymd
	case 12:
		midnight()
		t.d = 1
		f.kind, f.text = "month", ymd[:7]
	case 13:
		midnight()
		t.mo, t.d = 1, 1
		f.kind, f.text = "year", ymd[:4]
	case 14:
		midnight()
		f.kind, f.text = "colon-date", strings.Replace(ymd, "-", ":", -1)
	case 15:
		utc()
		f.kind, f.text = "colon-time", strings.Replace(ymd, "-", ":", -1)+" "+hms+t.frac(r)
	case 16:
		whole()
		f.kind, f.text = "slash", strings.Replace(ymd, "-", "/", -1)+"T"+hms+t.zone(true)
	case 17:
		whole()
		y := r.Intn(100)
		t.y = 1900 + y
		if y < 69 {
			t.y += 100
		}
		if t.mo == 2 && t.d == 29 {
			t.d = 28
		}
		f.kind, f.text = "slash-yy", fmt.Sprintf("%02d/%02d/%02dT%s", y, t.mo, t.d, hms)+t.zone(true)
		if strings.HasPrefix(f.text, "00/00/00") {
			return dateForm(r)
		}
	case 18:
		whole()
		f.kind, f.text = "arri", fmt.Sprintf("%04d%02d%02dT%02dh%02dm%02d", t.y, t.mo, t.d, t.h, t.mi, t.s)
		if r.Intn(2) == 0 {
			f.text += "s"
		}
		f.text += t.zone(true)
	case 19:
		h := r.Intn(10)
		sg := []int{1, -1}[r.Intn(2)]
		t.off = sg * h * 60
		f.kind, f.text = "zone-h", ymd+"T"+hms+t.frac(r)+string("-.+"[sg+1])+strconv.Itoa(h)
		if r.Intn(2) == 0 {
			m := r.Intn(60)
			t.off += sg * m
			f.kind, f.text = "zone-h:mm", f.text+fmt.Sprintf(":%02d", m)
		}
	case 20:
		whole()
		f.kind = "zone-00hmm"
		t.off = []int{1, -1}[r.Intn(2)] * (r.Intn(10)*60 + r.Intn(60))
		z := t.zone(false)
		f.text = ymd + "T" + hms + z[:1] + "0" + z[1:]
	case 21:
		// a time of day has no date
		whole()
		z := strings.Replace(t.zone(true), ":", "", 1)
		t.y, t.mo, t.d = 0, 1, 1
		switch r.Intn(3) {
		case 0:
			f.kind, f.text = "time-zone", hms+t.zone(true)
		case 1:
			utc()
			f.kind, f.text = "time", hms
		default:
			f.kind, f.text = "time-packed", strings.Replace(hms, ":", "", -1)+z
		}
	}
	f.want = t.show()
	return f
}

func timeForm(r *rand.Rand) form {
	for {
		if f := dateForm(r); strings.HasPrefix(f.kind, "time") {
			return f
		}
	}
}

func notDate(r *rand.Rand) string {
	t := randStamp(r)
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf("%04d-%02d-%02dT10:20:30Z", t.y, 13+r.Intn(80), t.d)
	case 1:
		return fmt.Sprintf("%04d-%02d-%02dT10:20:30Z", t.y, t.mo, 32+r.Intn(60))
	case 2:
		return fmt.Sprintf("%04d-%02d-%02dT%02d:20:30+01:00", t.y, t.mo, t.d, 24+r.Intn(70))
	case 3:
		return fmt.Sprintf("%04d-02-30T10:20:30", t.y)
	case 4:
		return fmt.Sprintf("%04d-%02d-%02dT10:%02d:30", t.y, t.mo, t.d, 60+r.Intn(40))
	case 5:
		return fmt.Sprintf("%04d-%02d-%02d at noon", t.y, t.mo, t.d)
	case 6:
		return []string{"yesterday", "-", "T", "2018-", "2018-1-1T", "12:60:00", "Z", "+01:00", "20180101", "2018-01-01T10:20:30+01:00x"}[r.Intn(10)]
	}
	return fmt.Sprintf("%d-%02d-%02dT10:20:30Z", 10000+r.Intn(100000), t.mo, t.d)
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func word(r *rand.Rand) string {
	return pick(r, "abc", "maybe", "0x", "1.2.3", "x1", "one", "1x", " ", "é", ",")
}

func randInt(r *rand.Rand, bits uint) int64 {
	v := int64(r.Uint64() >> uint(1+r.Intn(62)))
	if bits < 63 {
		v &= 1<<(bits-1) - 1
	}
	if r.Intn(2) == 0 {
		v = -v
	}
	return v
}

// decimal makes the text of a decimal number and the number.
func decimal(r *rand.Rand, digits int) (string, *big.Rat) {
	n := 1 + r.Intn(digits)
	b := make([]byte, 0, n+2)
	if r.Intn(2) == 0 {
		b = append(b, '-')
	} else if r.Intn(5) == 0 {
		b = append(b, '+')
	}
	dot := r.Intn(n + 1)
	for i := 0; i < n; i++ {
		if i == dot {
			if i == 0 {
				b = append(b, '0')
			}
			b = append(b, '.')
		}
		b = append(b, byte('0'+r.Intn(10)))
	}
	s := string(b)
	if strings.HasSuffix(s, ".") {
		s += "0"
	}
	v, _ := new(big.Rat).SetString(s)
	return s, v
}

func showF(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func floatForm(bits int) func(r *rand.Rand) form {
	near := func(v *big.Rat) string {
		if bits == 32 {
			f, _ := v.Float32()
			return showF(float64(f))
		}
		f, _ := v.Float64()
		return showF(f)
	}
	return func(r *rand.Rand) form {
		switch r.Intn(8) {
		case 0:
			return form{"nan", pick(r, "NaN", "nan", "NAN"), "NaN"}
		case 1:
			return form{"+inf", pick(r, "Inf", "+Inf", "inf", "+INF"), "+Inf"}
		case 2:
			return form{"-inf", pick(r, "-Inf", "-inf"), "-Inf"}
		case 3:
			s, v := decimal(r, 6)
			e := r.Intn(30) - 15
			p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
			m := new(big.Rat).SetInt(p)
			if e < 0 {
				m.Inv(m)
			}
			f := form{"exponent", s + pick(r, "e", "E") + strconv.Itoa(e), near(v.Mul(v, m))}
			if strings.HasPrefix(s, "-") && v.Sign() == 0 {
				f.want = "-0"
			}
			return f
		case 4:
			s, v := decimal(r, 8)
			f := form{"unit", s + pick(r, " mm", "mm", " s", "%", " Hz", "kHz", " fps", "m/s", "°"), near(v)}
			if strings.HasPrefix(s, "-") && v.Sign() == 0 {
				f.want = "-0"
			}
			return f
		}
		s, v := decimal(r, 14)
		f := form{"decimal", s, near(v)}
		if strings.HasPrefix(s, "-") && v.Sign() == 0 {
			f.want = "-0"
		}
		return f
	}
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func durForm(r *rand.Rand) form {
	switch r.Intn(3) {
	case 0:
		n := randInt(r, 33)
		return form{"seconds", strconv.FormatInt(n, 10), strconv.FormatInt(n*1e9, 10)}
	}
	var ns int64
	var parts []string
	for _, u := range []struct {
		n string
		v int64
	}{{"h", 3600e9}, {"m", 60e9}, {"s", 1e9}, {"ms", 1e6}, {"us", 1e3}, {"ns", 1}} {
		if r.Intn(2) == 0 {
			n := int64(r.Intn(1000))
			parts = append(parts, fmt.Sprintf("%d%s", n, u.n))
			ns += n * u.v
		}
	}
	if len(parts) == 0 {
		return durForm(r)
	}
	sign, sep, kind := "", "", "units"
	if r.Intn(3) == 0 {
		sign, ns = "-", -ns
	}
	if r.Intn(2) == 0 {
		sep, kind = pick(r, " ", "  ", "\t"), "spaced"
	}
	return form{kind, sign + strings.Join(parts, sep), strconv.FormatInt(ns, 10)}
}

func ratForm(r *rand.Rand) form {
	n, d := randInt(r, 63), randInt(r, 63)
	if d < 0 {
		d = -d
	}
	if d == 0 {
		d = 1
	}
	switch r.Intn(4) {
	case 0:
		return form{"n/m", fmt.Sprintf("%d/%d", n, d), fmt.Sprintf("%d/%d", n, d)}
	case 1:
		return form{"n m", fmt.Sprintf("%d %d", n, d), fmt.Sprintf("%d/%d", n, d)}
	}
	return form{"n", strconv.FormatInt(n, 10), fmt.Sprintf("%d/1", n)}
}

var syncWords = map[string]xmp.SyncFlags{"create": 1, "replace": 2, "delete": 4, "append": 8, "unique": 16, "nofail": 32,
	"default": 23, "merge": 49, "extend": 51, "add": 49}

func syncForm(r *rand.Rand) form {
	var names []string
	var v xmp.SyncFlags
	for n := 1 + r.Intn(4); n > 0; n-- {
		w := pick(r, "create", "replace", "delete", "append", "unique", "nofail", "default", "merge", "extend", "add")
		v |= syncWords[w]
		if r.Intn(3) == 0 {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		names = append(names, w)
	}
	return form{fmt.Sprint(len(names)), strings.Join(names, ","), strconv.Itoa(int(v))}
}

var scalars = []scalar{
	{
		name: "Bool", zero: func() interface{} { return new(xmp.Bool) },
		show: func(v interface{}) string { return strconv.FormatBool(v.(*xmp.Bool).Value()) },
		forms: func(r *rand.Rand) form {
			b := r.Intn(2) == 0
			if b {
				return form{"true", pick(r, "True", "true", "TRUE"), "true"}
			}
			return form{"false", pick(r, "False", "false", "FALSE"), "false"}
		},
		errors: func(r *rand.Rand) string { return pick(r, "yes", "no", "1", "0", "", "Truee", " True", "T") },
		rand:   func(r *rand.Rand) interface{} { b := xmp.Bool(r.Intn(2) == 0); return &b },
	},
	{
		name: "Date", zero: func() interface{} { return new(xmp.Date) },
		show:   func(v interface{}) string { return showTime(v.(*xmp.Date).Value()) },
		forms:  dateForm,
		errors: notDate,
		rand: func(r *rand.Rand) interface{} {
			if r.Intn(20) == 0 {
				return new(xmp.Date)
			}
			t := randStamp(r)
			d := xmp.NewDate(time.Unix(t.unix(), int64(t.ns)).In(time.FixedZone("", t.off*60)))
			if y := d.Value().Year(); y < 1 || y > 9999 {
				return new(xmp.Date)
			}
			return &d
		},
	},
	{
		name: "Time", zero: func() interface{} { return new(xmp.Time) },
		show:  func(v interface{}) string { return showTime(v.(*xmp.Time).Value()) },
		forms: timeForm,
		errors: func(r *rand.Rand) string {
			return pick(r, "25:00:00", "10:60:00", "10:00", "noon", "10:00:00Z+1", "2018-01-01")
		},
		empty: []string{""},
		rand: func(r *rand.Rand) interface{} {
			t := randStamp(r)
			v := xmp.NewTime(time.Date(0, 1, 1, t.h, t.mi, t.s, 0, time.FixedZone("", t.off*60)))
			return &v
		},
	},
	{
		name: "GUID", zero: func() interface{} { return new(xmp.GUID) },
		show: func(v interface{}) string { return v.(*xmp.GUID).Value() + "|" + v.(*xmp.GUID).Issuer() },
		forms: func(r *rand.Rand) form {
			id, is := genToken(r), pick(r, "uuid", "xmp.did", "a:b", "adobe:docid:indd", "")
			if strings.Contains(id, ":") {
				id = "x"
			}
			if is == "" {
				return form{"plain", id, id + "|"}
			}
			return form{"issuer", is + ":" + id, is + ":" + id + "|" + is}
		},
		rand: func(r *rand.Rand) interface{} { g := xmp.GUID(genText(r)); return &g },
	},
	{
		name: "NullInt", zero: func() interface{} { return new(xmp.NullInt) },
		show: func(v interface{}) string { return strconv.Itoa(v.(*xmp.NullInt).Value()) },
		forms: func(r *rand.Rand) form {
			n := randInt(r, 63)
			return form{"int", strconv.FormatInt(n, 10), strconv.FormatInt(n, 10)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "1.5", "1e3", "99999999999999999999", word(r)) },
		empty:  []string{"", "-", "--", "---", "NaN", "unknown"},
		rand:   func(r *rand.Rand) interface{} { n := xmp.NullInt(randInt(r, 63)); return &n },
	},
	{
		name: "SplitInt", zero: func() interface{} { return new(xmp.SplitInt) },
		show: func(v interface{}) string { return strconv.FormatUint(uint64(v.(*xmp.SplitInt).Value()), 10) },
		forms: func(r *rand.Rand) form {
			n := r.Uint32() >> uint(r.Intn(32))
			if r.Intn(2) == 0 {
				return form{"split", fmt.Sprintf("%d:%d:%d:%d", n>>24, n>>16&255, n>>8&255, n&255), fmt.Sprint(n)}
			}
			return form{"int", fmt.Sprint(n), fmt.Sprint(n)}
		},
		errors: func(r *rand.Rand) string {
			return pick(r, "1:2:3", "1:2:3:4:5", "256:0:0:0", "1:2:3:999", "4294967296", "a:b:c:d", "1.5", word(r))
		},
		empty:  []string{"", "-", "--", "---", "NaN", "unknown"},
		rand:   func(r *rand.Rand) interface{} { n := xmp.SplitInt(r.Uint32()); return &n },
		noText: true,
	},
	{
		name: "NullString", zero: func() interface{} { return new(xmp.NullString) },
		show: func(v interface{}) string { return v.(*xmp.NullString).Value() },
		forms: func(r *rand.Rand) form {
			s := strings.TrimSpace(genText(r)) + "x"
			if r.Intn(2) == 0 {
				return form{"spaced", pick(r, " ", "\t", "\n", "  ") + s + pick(r, " ", "\t", "\n"), s}
			}
			return form{"text", s, s}
		},
		empty: []string{"", "-", "--", "unknown", " - ", "  "},
		rand:  func(r *rand.Rand) interface{} { s := xmp.NullString(strings.TrimSpace(genText(r)) + "x"); return &s },
		keep:  true,
	},
	{
		name: "NullBool", zero: func() interface{} { return new(xmp.NullBool) },
		show: func(v interface{}) string { return strconv.FormatBool(v.(*xmp.NullBool).Value()) },
		forms: func(r *rand.Rand) form {
			if r.Intn(2) == 0 {
				return form{"true", pick(r, "true", "True", "on", "ON", "yes", "Yes", "1", "enabled"), "true"}
			}
			return form{"false", pick(r, "false", "off", "no", "0", "disabled", "False", "2"), "false"}
		},
		empty: []string{"", "-", "--", "---"},
		rand:  func(r *rand.Rand) interface{} { b := xmp.NullBool(r.Intn(2) == 0); return &b },
	},
	{
		name: "Duration", zero: func() interface{} { return new(xmp.Duration) },
		show:   func(v interface{}) string { return strconv.FormatInt(int64(v.(*xmp.Duration).Duration()), 10) },
		forms:  durForm,
		errors: func(r *rand.Rand) string { return pick(r, "", "1y", "h", "1.5", "10:20", "-", word(r)) },
		rand:   func(r *rand.Rand) interface{} { d := xmp.Duration(randInt(r, 63)); return &d },
	},
	{
		name: "NullFloat", zero: func() interface{} { return new(xmp.NullFloat) },
		show:   func(v interface{}) string { return showF(v.(*xmp.NullFloat).Value()) },
		forms:  floatForm(32),
		errors: func(r *rand.Rand) string { return pick(r, "1.2.3", "abc", "+-1", "1-2", ".", "1e", "1e400") },
		empty:  []string{"", "-", "--", "---", "unknown"},
		rand: func(r *rand.Rand) interface{} {
			f := math.Float32frombits(r.Uint32())
			if r.Intn(2) == 0 {
				f = float32(r.Intn(2000000)-1000000) / float32(int(1)<<uint(r.Intn(12)))
			}
			v := xmp.NullFloat(f)
			return &v
		},
	},
	{
		name: "NullFloat64", zero: func() interface{} { return new(xmp.NullFloat64) },
		show:   func(v interface{}) string { return showF(v.(*xmp.NullFloat64).Value()) },
		forms:  floatForm(64),
		errors: func(r *rand.Rand) string { return pick(r, "1.2.3", "abc", "+-1", "1-2", ".", "1e", "1e400") },
		empty:  []string{"", "-", "--", "---", "unknown"},
		rand: func(r *rand.Rand) interface{} {
			f := math.Float64frombits(r.Uint64())
			if r.Intn(2) == 0 {
				f = float64(r.Intn(2000000)-1000000) / 1000
			}
			v := xmp.NullFloat64(f)
			return &v
		},
	},
	{
		name: "Rational", zero: func() interface{} { return new(xmp.Rational) },
		show: func(v interface{}) string {
			q := v.(*xmp.Rational)
			return fmt.Sprintf("%d/%d", q.Num, q.Den)
		},
		forms:  ratForm,
		errors: func(r *rand.Rand) string { return pick(r, "a/b", "1/", "/2", "1.2.3", "x", "1/x", "½", "--1") },
		empty:  []string{""},
		rand: func(r *rand.Rand) interface{} {
			d := randInt(r, 63)
			if d < 0 {
				d = -d
			}
			return &xmp.Rational{Num: randInt(r, 63), Den: d + 1}
		},
	},
	{
		name: "SyncFlags", zero: func() interface{} { return new(xmp.SyncFlags) },
		show:  func(v interface{}) string { return strconv.Itoa(int(*v.(*xmp.SyncFlags))) },
		forms: syncForm,
		errors: func(r *rand.Rand) string {
			return pick(r, "foo", "create,foo", ",", "create,", "createreplace", "none")
		},
	},
}

func sameScalar(s *scalar, v, w interface{}) bool {
	a, b := s.show(v), s.show(w)
	return a == b
}

// scalarText: every spelling means what it says, texts that are no value are
// refused without touching the variable, and a value survives its own text.
func scalarText(c *Case) { textChecks(c, &scalars[c.Idx%len(scalars)]) }

func textChecks(c *Case, s *scalar) {
	r := c.R
	set := func(v interface{}, text string) error {
		return v.(encoding.TextUnmarshaler).UnmarshalText([]byte(text))
	}
	for i := 0; i < 24; i++ {
		if s.forms != nil {
			f := s.forms(r)
			v := s.zero()
			if r.Intn(2) == 0 && s.rand != nil && !s.keep {
				v = s.rand(r) // overwrites
			}
			c.Art("text", f.text)
			if err := set(v, f.text); err != nil {
				c.Fail("refused:"+s.name+":"+f.kind, "%s: %q is refused: %v", s.name, f.text, err)
			} else if got := s.show(v); got != f.want {
				c.Fail("meaning:"+s.name+":"+f.kind, "%s: %q means %s, got %s", s.name, f.text, f.want, got)
			}
			c.Eval(1)
			c.Event("text:" + s.name + ":" + f.kind)
			c.Seen(s.name, f.text)
		}
		if s.errors != nil {
			v := s.zero()
			if r.Intn(2) == 0 && s.rand != nil {
				v = s.rand(r)
			}
			before := s.show(v)
			text := s.errors(r)
			c.Art("text", text)
			if s.keep && before != s.show(s.zero()) {
				continue
			}
			if err := set(v, text); err == nil {
				c.Fail("accepted:"+s.name, "%s: %q is accepted as %s", s.name, text, s.show(v))
			} else if got := s.show(v); got != before {
				c.Fail("touched:"+s.name, "%s: refusing %q changed the value from %s to %s", s.name, text, before, got)
			}
			c.Eval(1)
			c.Event("bad:" + s.name)
			c.Seen(s.name, "bad", text)
		}
		if len(s.empty) > 0 && s.rand != nil {
			v := s.rand(r)
			before := s.show(v)
			text := pick(r, s.empty...)
			c.Art("text", text)
			if err := set(v, text); err != nil {
				c.Fail("empty:"+s.name, "%s: placeholder %q is refused: %v", s.name, text, err)
			} else if got := s.show(v); got != before {
				c.Fail("empty:"+s.name, "%s: placeholder %q changed the value from %s to %s", s.name, text, before, got)
			}
			c.Eval(1)
			c.Event("placeholder:" + s.name)
		}
		if s.rand == nil {
			continue
		}
		v := s.rand(r)
		c.Art("text", s.show(v))
		if !s.noText {
			b, err := v.(encoding.TextMarshaler).MarshalText()
			if err != nil {
				c.Fail("write:"+s.name, "%s: cannot write %s: %v", s.name, s.show(v), err)
				continue
			}
			w := s.zero()
			if err := set(w, string(b)); err != nil {
				c.Fail("reread:"+s.name, "%s: %s is written as %q, which cannot be read: %v", s.name, s.show(v), b, err)
			} else if !sameScalar(s, v, w) {
				c.Fail("round:"+s.name, "%s: %s is written as %q, which reads back as %s", s.name, s.show(v), b, s.show(w))
			} else if b2, _ := w.(encoding.TextMarshaler).MarshalText(); string(b2) != string(b) {
				c.Fail("stable:"+s.name, "%s: %q is written as %q after reading", s.name, b, b2)
			}
			c.Eval(1)
			c.Event("round:" + s.name)
			c.Seen(s.name, "val", string(b))
		}
		if s.noJSON {
			continue
		}
		b, err := json.Marshal(v)
		if err != nil {
			c.Fail("json:"+s.name, "%s: cannot write %s as JSON: %v", s.name, s.show(v), err)
			continue
		}
		w := s.zero()
		if err := json.Unmarshal(b, w); err != nil {
			c.Fail("json:"+s.name, "%s: %s is JSON %s, which cannot be read: %v", s.name, s.show(v), b, err)
		} else if !sameScalar(s, v, w) {
			c.Fail("json:"+s.name, "%s: %s is JSON %s, which reads back as %s", s.name, s.show(v), b, s.show(w))
		}
		c.Eval(1)
		c.Event("json:" + s.name)
	}
}

// scalarMath checks conversions of values: rationals from decimals, rounding
// of durations, and the helpers around them.
func scalarMath(c *Case) {
	r := c.R
	for i := 0; i < 24; i++ {
		s, v := decimal(r, 7)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		c.Art("text", s)
		var q xmp.Rational
		if err := q.UnmarshalText([]byte(s)); err != nil {
			c.Fail("rational", "decimal %q is refused: %v", s, err)
		} else {
			x, _ := v.Float64()
			tol := 1e-6 + 4e-7*math.Abs(x)
			if x > 0 && x < 1 {
				tol += 0.0051 * x // shutter speeds: 1/n
			}
			switch {
			case q.Den <= 0:
				c.Fail("rational-sign", "decimal %q reads as %s, denominator not positive", s, q)
			case math.Abs(float64(q.Num)/float64(q.Den)-x) > tol:
				c.Fail("rational", "decimal %q reads as %s", s, q)
			case q.Value() != float64(q.Num)/float64(q.Den):
				c.Fail("rational-value", "value of %s is %v", q, q.Value())
			case gcd64(q.Num, q.Den) != 1:
				c.Fail("rational-terms", "decimal %q reads as %s, not in lowest terms", s, q)
			}
		}
		c.Eval(1)
		c.Event("rational")
		c.Seen("dec", s)

		d := randInt(r, 46)
		if r.Intn(3) == 0 {
			d = d / 1e9 * 1e9
		}
		dd := xmp.Duration(d)
		up := func(unit int64) int64 { // away from zero
			n := d / unit
			if d%unit > 0 {
				n++
			} else if d%unit < 0 {
				n--
			}
			return n
		}
		c.Art("duration", fmt.Sprint(d))
		for _, u := range []struct {
			n    string
			unit int64
			got  int64
		}{
			{"days", 86400e9, int64(dd.RoundToDays())}, {"hours", 3600e9, dd.RoundToHours()}, {"minutes", 60e9, dd.RoundToMinutes()},
			{"seconds", 1e9, dd.RoundToSeconds()}, {"milliseconds", 1e6, dd.RoundToMillisecond()},
		} {
			if want := up(u.unit); u.got != want {
				c.Fail("round-"+u.n, "%d ns is %d %s, got %d", d, want, u.n, u.got)
			}
			if got, want := int64(dd.Truncate(time.Duration(u.unit))), up(u.unit)*u.unit; got != want {
				c.Fail("truncate", "%d ns in steps of %d ns is %d, got %d", d, u.unit, want, got)
			}
		}
		c.Eval(10)
		c.Event("rounding")
		a, b := randInt(r, 60), randInt(r, 60)
		hi, lo := a, b
		if b > a {
			hi, lo = b, a
		}
		if xmp.Max64(a, b) != hi || xmp.Min64(a, b) != lo || xmp.Max(int(a), int(b)) != int(hi) || xmp.Min(int(a), int(b)) != int(lo) {
			c.Fail("minmax", "Max/Min of %d and %d", a, b)
		}
	}
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// scalarZero: values that are set are not empty, values that are not set are.
func scalarZero(c *Case) {
	r := c.R
	for i := 0; i < 16; i++ {
		t := randStamp(r)
		d := xmp.NewDate(time.Unix(t.unix(), 0))
		g := genToken(r) + "x"
		for _, x := range []struct {
			n    string
			v, e xmp.Zero
		}{
			{"Date", d, xmp.Date{}}, {"Time", d.Time(), xmp.Time{}}, {"GUID", xmp.GUID(g), xmp.GUID("")}, {"Url", xmp.Url(g), xmp.Url("")},
			{"Uri", xmp.NewUri(g), xmp.Uri("")}, {"AgentName", xmp.AgentName(g), xmp.AgentName("")},
			{"Rational", xmp.Rational{Num: int64(r.Intn(5)), Den: 1 + int64(r.Intn(5))}, xmp.Rational{}},
			{"GPSCoord", xmp.GPSCoord(fmt.Sprintf("%d,%.4fN", r.Intn(90), 1+r.Float64())), xmp.GPSCoord("")},
			{"UriArray", xmp.UriArray{xmp.Uri(g)}, xmp.UriArray{}}, {"UriList", xmp.UriList{xmp.Uri(g)}, xmp.UriList{}},
		} {
			if x.v.IsZero() {
				c.Fail("zero:"+x.n, "%s %v counts as empty", x.n, x.v)
			}
			if !x.e.IsZero() {
				c.Fail("zero:"+x.n, "empty %s does not count as empty", x.n)
			}
			c.Eval(2)
			c.Event("zero:" + x.n)
		}
		if !reflect.DeepEqual(xmp.NewUri(g).Value(), g) || xmp.Url(g).Value() != g || xmp.AgentName(g).String() != g {
			c.Fail("value", "value of %q", g)
		}
	}
}

func init() {
	register(&Property{ID: "P17", Rule: "every text of a value of the core types is read as the value an independent reference computes for it, texts that are no value are refused, and a value is read back from the text and the JSON it is written as",
		Scenarios: []Scenario{
			{"text", 26 * 1500, 26 * 40000, scalarText},
			{"math", 8000, 400000, scalarMath},
			{"zero", 100, 2000, scalarZero},
		}})
}
