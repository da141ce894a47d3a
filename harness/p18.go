package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
)

type count struct {
	n, rate, base int64
}

func (f count) show() string { return fmt.Sprintf("%d@%d/%d", f.n, f.rate, f.base) }
func (f count) text() string {
	s := strconv.FormatInt(f.n, 10)
	if f.n == -1 {
		s = "maximum"
	}
	if f.rate == 1 && f.base == 1 {
		return s
	}
	return s + "f" + rateText(f.rate, f.base)
}

func rateText(rate, base int64) string {
	if base == 1 {
		return strconv.FormatInt(rate, 10)
	}
	return fmt.Sprintf("%ds%d", rate, base)
}

func randRate(r *rand.Rand) (int64, int64) {
	switch r.Intn(4) {
	case 0:
		return 1, 1
	case 1:
		return []int64{24, 25, 30, 48000, 44100, 254016000000}[r.Intn(6)], 1
	case 2:
		return []int64{24000, 30000, 60000}[r.Intn(3)], 1001
	}
	return 1 + r.Int63n(1<<uint(1+r.Intn(60))), 1 + r.Int63n(1<<uint(1+r.Intn(60)))
}

func randCount(r *rand.Rand) count {
	f := count{n: randInt(r, 63)}
	if r.Intn(6) == 0 {
		f.n = 0
	}
	f.rate, f.base = randRate(r)
	if f.n == -1 {
		f.rate, f.base = 1, 1
	}
	return f
}

func showCount(x xmpdm.FrameCount) string { return count{x.Count, x.Rate.Rate, x.Rate.Base}.show() }
func toCount(f count) xmpdm.FrameCount {
	return xmpdm.FrameCount{Count: f.n, Rate: xmpdm.FrameRate{Rate: f.rate, Base: f.base}}
}

func partName(r *rand.Rand) string {
	s := ""
	for i := 1 + r.Intn(3); i > 0; i-- {
		s += "/" + pick(r, "metadata", "content", "audio", "dr", "a b", "frame10", "x", "ünï")
	}
	return s + "/"
}

func showPart(p xmpdm.Part) string {
	return fmt.Sprintf("%s|%s|%s", p.Path, showCount(p.Start), showCount(p.Duration))
}

func partForm(r *rand.Rand) form {
	p := partName(r)
	if r.Intn(4) == 0 {
		p = "/"
	}
	none := count{}
	switch r.Intn(4) {
	case 0:
		if r.Intn(2) == 0 && p != "/" {
			p = strings.TrimSuffix(p, "/")
		}
		return form{"path", p, fmt.Sprintf("%s|%s|%s", p, none.show(), none.show())}
	case 1:
		d := randCount(r)
		return form{"duration", p + "time:" + d.text(), fmt.Sprintf("%s|%s|%s", p, none.show(), d.show())}
	case 2:
		a, d := randCount(r), randCount(r)
		return form{"start-duration", p + "time:" + a.text() + "d" + d.text(), fmt.Sprintf("%s|%s|%s", p, a.show(), d.show())}
	}
	a := randCount(r)
	a.n = r.Int63n(1 << 40)
	e := a
	e.n += r.Int63n(1 << 40)
	d := a
	d.n = e.n - a.n
	return form{"range", p + "time:" + a.text() + "r" + e.text(), fmt.Sprintf("%s|%s|%s", p, a.show(), d.show())}
}

func randPart(r *rand.Rand) xmpdm.Part {
	p := xmpdm.Part{Path: partName(r)}
	if r.Intn(3) > 0 {
		p.Duration = toCount(randCount(r))
		if r.Intn(2) == 0 {
			p.Start = toCount(randCount(r))
		}
	} else if r.Intn(2) == 0 {
		p.Path = strings.TrimSuffix(p.Path, "/")
	}
	return p
}

func randWords(r *rand.Rand, words ...string) []string {
	var l []string
	for i := 1 + r.Intn(4); i > 0; i-- {
		l = append(l, pick(r, words...))
	}
	return l
}

func exifDateForm(r *rand.Rand) form {
	t := randStamp(r)
	ymd := fmt.Sprintf("%04d:%02d:%02d", t.y, t.mo, t.d)
	iso := strings.Replace(ymd, ":", "-", -1)
	hm := fmt.Sprintf("%02d:%02d", t.h, t.mi)
	hms := hm + fmt.Sprintf(":%02d", t.s)
	f := form{}
	switch r.Intn(9) {
	case 0, 1:
		t.off, t.ns = 0, 0
		f.kind, f.text = "exif", ymd+" "+hms
	case 2:
		t.off, t.ns, t.s = 0, 0, 0
		f.kind, f.text = "exif-minutes", ymd+" "+hm
	case 3:
		t.off, t.ns, t.s, t.h, t.mi = 0, 0, 0, 0, 0
		f.kind, f.text = "exif-day", ymd
	case 4:
		t.off, t.ns, t.s, t.h, t.mi, t.d = 0, 0, 0, 0, 0, 1
		f.kind, f.text = "exif-month", ymd[:7]
	case 5:
		f.kind, f.text = "exif-zone", ymd+" "+hms+t.frac(r)+t.zone(true)
	case 6:
		f.kind, f.text = "iso-zone", iso+"T"+hms+t.frac(r)+t.zone(true)
	case 7:
		t.off = 0
		f.kind, f.text = "iso", iso+"T"+hms+t.frac(r)+pick(r, "", "Z")
	case 8:
		t.off, t.s, t.ns = 0, 0, 0
		f.kind, f.text = "iso-minutes", iso+"T"+hm
	}
	f.want = t.show()
	return f
}

func list(v interface{}) string { return fmt.Sprintf("%q", v) }

func words(r *rand.Rand, sep string, w ...string) form {
	l := randWords(r, w...)
	return form{strconv.Itoa(len(l)), strings.Join(l, sep), list(l)}
}

func bytesForm(r *rand.Rand) form {
	var s []string
	for i := 1 + r.Intn(8); i > 0; i-- {
		s = append(s, strconv.Itoa(r.Intn(256)))
	}
	return form{"bytes", strings.Join(s, pick(r, " ", "  ", "\t", "\n")), strings.Join(s, " ")}
}

func rating(r *rand.Rand) (f [4]string) {
	f[0] = pick(r, "mpaa", "us-tv", "de-movie", "")
	f[1] = pick(r, "PG-13", "TV-MA", "FSK 12", "R (cut)")
	f[2] = pick(r, "300", "", "100", "(x)")
	f[3] = pick(r, "", "violence", "language (mild)", "a)", "(b")
	return
}

var modelScalars = []scalar{
	{
		name: "FrameRate", zero: func() interface{} { return new(xmpdm.FrameRate) },
		show: func(v interface{}) string {
			x := v.(*xmpdm.FrameRate)
			return fmt.Sprintf("%d/%d", x.Rate, x.Base)
		},
		forms: func(r *rand.Rand) form {
			n, b := randRate(r)
			t := "f" + rateText(n, b)
			if b == 1 && r.Intn(3) == 0 {
				t += pick(r, "s1", "s0")
			}
			return form{"rate", t, fmt.Sprintf("%d/%d", n, b)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "25", "f", "fx", "f25s", "f25sx", "25f", "f1.5", "F25") },
		rand: func(r *rand.Rand) interface{} {
			n, b := randRate(r)
			return &xmpdm.FrameRate{Rate: n, Base: b}
		},
	},
	{
		name: "FrameCount", zero: func() interface{} { return new(xmpdm.FrameCount) },
		show: func(v interface{}) string { return showCount(*v.(*xmpdm.FrameCount)) },
		forms: func(r *rand.Rand) form {
			f := randCount(r)
			return form{"count", f.text(), f.show()}
		},
		errors: func(r *rand.Rand) string {
			return pick(r, "", "f25", "xf25", "10fx", "10f", "minimum", "1.5", "10f25sx", "10 f25")
		},
		rand: func(r *rand.Rand) interface{} {
			f := toCount(randCount(r))
			return &f
		},
	},
	{
		name: "Part", zero: func() interface{} { return new(xmpdm.Part) },
		show:  func(v interface{}) string { return showPart(*v.(*xmpdm.Part)) },
		forms: partForm,
		errors: func(r *rand.Rand) string {
			return pick(r, "time:x", "/time:1dx", "/time:xd1", "/time:1rx", "time:", "/a/time:1f")
		},
		rand: func(r *rand.Rand) interface{} {
			p := randPart(r)
			return &p
		},
	},
	{
		name: "PartList", zero: func() interface{} { return new(xmpdm.PartList) },
		show: func(v interface{}) string {
			var s []string
			for _, p := range *v.(*xmpdm.PartList) {
				s = append(s, showPart(p))
			}
			return strings.Join(s, "\n")
		},
		forms: func(r *rand.Rand) form {
			var t, w []string
			for i := 1 + r.Intn(4); i > 0; i-- {
				f := partForm(r)
				t, w = append(t, f.text), append(w, f.want)
			}
			return form{strconv.Itoa(len(t)), strings.Join(t, ";"), strings.Join(w, "\n")}
		},
		errors: func(r *rand.Rand) string { return pick(r, "/a;time:x", "time:x;/b", "/a/;/b/time:1dx") },
		rand: func(r *rand.Rand) interface{} {
			l := xmpdm.PartList{}
			for i := 1 + r.Intn(4); i > 0; i-- {
				l.AddPart(randPart(r))
			}
			return &l
		},
	},
	{
		name: "MarkerTypeList", zero: func() interface{} { return new(xmpdm.MarkerTypeList) },
		show: func(v interface{}) string { return list(*v.(*xmpdm.MarkerTypeList)) },
		forms: func(r *rand.Rand) form {
			return words(r, pick(r, ",", ", ", " ,", ",,"), "Chapter", "Cue", "Beat", "Speech", "Track", "FLVCuePoint")
		},
		rand: func(r *rand.Rand) interface{} {
			l := xmpdm.MarkerTypeList{}
			for _, s := range randWords(r, "Chapter", "Cue", "x y") {
				l = append(l, xmpdm.MarkerType(s))
			}
			return &l
		},
	},
	{
		name: "VideoFrameRate", zero: func() interface{} { return new(xmpdm.VideoFrameRate) },
		show: func(v interface{}) string { return fmt.Sprintf("%.4f", float64(*v.(*xmpdm.VideoFrameRate))) },
		forms: func(r *rand.Rand) form {
			switch r.Intn(5) {
			case 0:
				return form{"pal", pick(r, "PAL", "pal", "Pal"), "25.0000"}
			case 1:
				return form{"ntsc", pick(r, "NTSC", "ntsc"), "29.9700"}
			case 2:
				n, d := 1+r.Intn(120000), []int{1, 1001, 1000, 2}[r.Intn(4)]
				return form{"rational", fmt.Sprintf("%d/%d", n, d), fmt.Sprintf("%.4f", float64(n)/float64(d))}
			}
			// values that rationals below one do not round
			n := 1 + r.Intn(120)
			t := strconv.Itoa(n)
			f := float64(n)
			if r.Intn(2) == 0 {
				h := r.Intn(100)
				t += fmt.Sprintf(".%02d", h)
				f += float64(h) / 100
			}
			return form{"decimal", t + pick(r, "", "fps", " fps", "p", "i"), fmt.Sprintf("%.4f", f)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "secam", "fps", "x25", "p") },
		empty:  []string{""},
		rand: func(r *rand.Rand) interface{} {
			v := xmpdm.VideoFrameRate(r.Intn(100))
			return &v
		},
		noText: true, noJSON: true,
	},
	{
		name: "exif.ByteArray", zero: func() interface{} { return new(exif.ByteArray) },
		show:   func(v interface{}) string { return v.(*exif.ByteArray).String() },
		forms:  bytesForm,
		errors: func(r *rand.Rand) string { return pick(r, "256", "1 2 x", "-1", "1,2", "0x10") },
		empty:  []string{"", " "},
		rand: func(r *rand.Rand) interface{} {
			b := make(exif.ByteArray, 1+r.Intn(9))
			r.Read(b)
			return &b
		},
	},
	{
		name: "exif.Date", zero: func() interface{} { return new(exif.Date) },
		show:  func(v interface{}) string { return showTime(v.(*exif.Date).Value()) },
		forms: exifDateForm,
		errors: func(r *rand.Rand) string {
			return pick(r, "2018:13:01", "2018:02:30 10:00:00", "noon", "10:00:00", "2018:01:01 25:00:00", "20180101")
		},
		empty: []string{""},
		rand: func(r *rand.Rand) interface{} {
			t := randStamp(r)
			t.off = 0
			d := exif.Date(time.Unix(t.unix(), 0).UTC())
			return &d
		},
	},
	{
		name: "exif.Flash", zero: func() interface{} { return new(exif.Flash) },
		show: func(v interface{}) string { return fmt.Sprintf("%+v", *v.(*exif.Flash)) },
		forms: func(r *rand.Rand) form {
			n := r.Intn(128)
			w := fmt.Sprintf("{Fired:%v Function:%v Mode:%d RedEyeMode:%v Return:%d}", n&1 == 1, n/32%2 == 1, n/8%4, n/64 == 1, n/2%4)
			return form{"bits", strconv.Itoa(n), w}
		},
		errors: func(r *rand.Rand) string { return pick(r, "fired", "0x19", "1.5", "true") },
		empty:  []string{""},
		rand: func(r *rand.Rand) interface{} {
			return &exif.Flash{Fired: xmp.Bool(r.Intn(2) == 0), Mode: exif.FlashMode(r.Intn(4))}
		},
		noText: true, noJSON: true,
	},
	{
		name: "exif.CFAPattern", zero: func() interface{} { return new(exif.CFAPattern) },
		show: func(v interface{}) string {
			x := v.(*exif.CFAPattern)
			return fmt.Sprintf("%dx%d %s", x.Columns, x.Rows, x.Values)
		},
		forms: func(r *rand.Rand) form {
			f := bytesForm(r)
			a, b := r.Intn(9), r.Intn(9)
			return form{"cfa", fmt.Sprintf("%d %d %s", a, b, f.text), fmt.Sprintf("%dx%d %s", a, b, f.want)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "x 1 1", "1 x 1", "1 1 x", "1 1 256", "1 1 -1") },
		noText: true, noJSON: true,
	},
	{
		name: "exif.DeviceSettings", zero: func() interface{} { return new(exif.DeviceSettings) },
		show: func(v interface{}) string {
			x := v.(*exif.DeviceSettings)
			return fmt.Sprintf("%dx%d %q", x.Columns, x.Rows, []string(x.Values))
		},
		forms: func(r *rand.Rand) form {
			w := randWords(r, "a", "b1", "-", "ü")
			a, b := r.Intn(9), r.Intn(9)
			return form{"settings", fmt.Sprintf("%d %d %s", a, b, strings.Join(w, "  ")), fmt.Sprintf("%dx%d %q", a, b, w)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "x 1 1", "1 x 1") },
		noText: true, noJSON: true,
	},
	{
		name: "exif.OECF", zero: func() interface{} { return new(exif.OECF) },
		show: func(v interface{}) string {
			x := v.(*exif.OECF)
			return fmt.Sprintf("%dx%d %q %v", x.Columns, x.Rows, []string(x.Names), x.Values)
		},
		forms: func(r *rand.Rand) form {
			a, b := 1+r.Intn(3), 1+r.Intn(3)
			var n, vt, vw []string
			for i := 0; i < a; i++ {
				n = append(n, pick(r, "R", "G", "B", "Log", "1"))
			}
			for i := 0; i < a*b; i++ {
				f := ratForm(r)
				if strings.Contains(f.text, " ") {
					f.text = f.want
				}
				vt, vw = append(vt, f.text), append(vw, f.want)
			}
			return form{"oecf", fmt.Sprintf("%d %d %s %s", a, b, strings.Join(n, " "), strings.Join(vt, " ")), fmt.Sprintf("%dx%d %q %v", a, b, n, vw)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "x 1 a 1/2", "1 x a 1/2", "1 1 a x") },
		noText: true, noJSON: true,
	},
	{
		name: "crs.Point", zero: func() interface{} { return new(crs.Point) },
		show: func(v interface{}) string { x := v.(*crs.Point); return fmt.Sprint(x.X, x.Y) },
		forms: func(r *rand.Rand) form {
			a, b := randInt(r, 63), randInt(r, 63)
			return form{"point", fmt.Sprintf("%d, %d", a, b), fmt.Sprint(a, b)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "1", "x, 1", "1, x", "1; 2") },
		rand:   func(r *rand.Rand) interface{} { return &crs.Point{X: randInt(r, 63), Y: randInt(r, 63)} },
	},
	{
		name: "pm.Time", zero: func() interface{} { return new(pm.Time) },
		show: func(v interface{}) string { return showTime(time.Time(*v.(*pm.Time))) },
		forms: func(r *rand.Rand) form {
			t := randStamp(r)
			t.y, t.mo, t.d, t.ns = 0, 1, 1, 0
			return form{"time", fmt.Sprintf("%02d%02d%02d%s", t.h, t.mi, t.s, t.zone(false)), t.show()}
		},
		errors: func(r *rand.Rand) string { return pick(r, "250000+0000", "10:00:00", "101010", "106000+0100", "x") },
		empty:  []string{""},
		rand: func(r *rand.Rand) interface{} {
			t := randStamp(r)
			v := pm.Time(time.Date(0, 1, 1, t.h, t.mi, t.s, 0, time.FixedZone("", t.off*60)))
			return &v
		},
	},
	{
		name: "pm.Preferences", zero: func() interface{} { return new(pm.Preferences) },
		show: func(v interface{}) string { return fmt.Sprint(*v.(*pm.Preferences)) },
		forms: func(r *rand.Rand) form {
			a, b, d, e := r.Intn(2), r.Intn(9), r.Intn(6), r.Intn(100000)-1
			return form{"prefs", fmt.Sprintf("%d:%d:%d:%d", a, b, d, e), fmt.Sprintf("{%d %d %d %d}", a, b, d, e)}
		},
		errors: func(r *rand.Rand) string {
			return pick(r, "", "1:2:3", "1:2:3:4:5", "x:1:2:3", "1:2:3:x", "1:x:1:1", "1:1:x:1")
		},
		rand: func(r *rand.Rand) interface{} {
			return &pm.Preferences{TagStatus: r.Intn(2), ColorClass: r.Intn(9), Rating: r.Intn(6), Frame: r.Intn(1000) - 1}
		},
	},
	{
		name: "id3.Time23", zero: func() interface{} { return new(id3.Time23) },
		show: func(v interface{}) string { return v.(*id3.Time23).Value().Format("15:04:05") },
		forms: func(r *rand.Rand) form {
			h, m := r.Intn(24), r.Intn(60)
			return form{"HHMM", fmt.Sprintf("%02d%02d", h, m), fmt.Sprintf("%02d:%02d:00", h, m)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "2400", "1060", "12:30", "123") },
		rand: func(r *rand.Rand) interface{} {
			v := id3.Time23(time.Date(0, 1, 1, r.Intn(24), r.Intn(60), 0, 0, time.UTC))
			return &v
		},
	},
	{
		name: "id3.Date23", zero: func() interface{} { return new(id3.Date23) },
		show: func(v interface{}) string {
			t := v.(*id3.Date23).Value()
			return fmt.Sprintf("day %d month %d", t.Day(), t.Month())
		},
		forms: func(r *rand.Rand) form {
			m := 1 + r.Intn(12)
			d := 1 + r.Intn([]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1])
			return form{"DDMM", fmt.Sprintf("%02d%02d", d, m), fmt.Sprintf("day %d month %d", d, m)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "3202", "0113", "3102", "12.3", "123") },
		rand: func(r *rand.Rand) interface{} {
			v := id3.Date23(time.Date(0, time.Month(1+r.Intn(12)), 1+r.Intn(28), 0, 0, 0, 0, time.UTC))
			return &v
		},
	},
	{
		name: "id3.GenreV1", zero: func() interface{} { return new(id3.GenreV1) },
		show: func(v interface{}) string { return strconv.Itoa(int(*v.(*id3.GenreV1))) },
		forms: func(r *rand.Rand) form {
			n := r.Intn(256)
			if s, ok := id3.GenreMap[id3.GenreV1(n)]; ok && r.Intn(2) == 0 {
				return form{"name", s, strconv.Itoa(n)}
			}
			return form{"number", strconv.Itoa(n), strconv.Itoa(n)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "Nonsense", "256", "-1", "1984", "rock'n'roll") },
		rand:   func(r *rand.Rand) interface{} { v := id3.GenreV1(r.Intn(256)); return &v },
	},
	{
		name: "id3.Genre", zero: func() interface{} { return new(id3.Genre) },
		show: func(v interface{}) string { return list([]string(*v.(*id3.Genre))) },
		forms: func(r *rand.Rand) form {
			var t, w []string
			for i := 1 + r.Intn(3); i > 0; i-- {
				n := r.Intn(256)
				s, ok := id3.GenreMap[id3.GenreV1(n)]
				switch {
				case r.Intn(4) == 0:
					s = pick(r, "RX", "CR", "My own", "1984", "300", "ünï")
					t = append(t, s)
					w = append(w, map[string]string{"RX": "Remix", "CR": "Cover"}[s]+"")
					if w[len(w)-1] == "" {
						w[len(w)-1] = s
					}
				case ok && r.Intn(2) == 0:
					t, w = append(t, s), append(w, s)
				case ok:
					t, w = append(t, strconv.Itoa(n)), append(w, s)
				default:
					t, w = append(t, strconv.Itoa(n)), append(w, strconv.Itoa(n))
				}
			}
			return form{"list", strings.Join(t, pick(r, ",", ", ")), list(w)}
		},
		rand: nil,
	},
	{
		name: "id3.TrackNum", zero: func() interface{} { return new(id3.TrackNum) },
		show: func(v interface{}) string { return fmt.Sprint(*v.(*id3.TrackNum)) },
		forms: func(r *rand.Rand) form {
			a, b := r.Intn(200), 1+r.Intn(200)
			if r.Intn(2) == 0 {
				return form{"n", strconv.Itoa(a), fmt.Sprintf("{%d 0}", a)}
			}
			return form{"n/m", fmt.Sprintf("%d/%d", a, b), fmt.Sprintf("{%d %d}", a, b)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "x", "1/x", "/2", "1.5", "x/2") },
		rand:   func(r *rand.Rand) interface{} { return &id3.TrackNum{Track: r.Intn(100), Total: r.Intn(100)} },
	},
	{
		name: "qt.Point", zero: func() interface{} { return new(qt.Point) },
		show: func(v interface{}) string { x := v.(*qt.Point); return fmt.Sprint(x.X, x.Y) },
		forms: func(r *rand.Rand) form {
			a, b := int(randInt(r, 62)), int(randInt(r, 62))
			return form{"point", fmt.Sprintf("%d%s%d", a, pick(r, ",", "/", ":", " ", ";"), b), fmt.Sprint(a, b)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "", "1", "x,1", "1,x", "1|2") },
		rand:   func(r *rand.Rand) interface{} { return &qt.Point{X: 1 + r.Intn(5000), Y: int(randInt(r, 62))} },
	},
	{
		name: "qt.ContentRating", zero: func() interface{} { return new(qt.ContentRating) },
		show: func(v interface{}) string {
			x := v.(*qt.ContentRating)
			return list([4]string{x.Standard, x.Rating, x.Score, x.Reasons})
		},
		forms: func(r *rand.Rand) form {
			f := rating(r)
			return form{"rating", pick(r, "(", " (") + strings.Join(f[:], "|") + pick(r, ")", ") "), list(f)}
		},
		rand: func(r *rand.Rand) interface{} {
			f := rating(r)
			return &qt.ContentRating{Standard: f[0], Rating: f[1], Score: f[2], Reasons: f[3]}
		},
	},
	{
		name: "itunes.ContentRating", zero: func() interface{} { return new(itunes.ContentRating) },
		show: func(v interface{}) string {
			x := v.(*itunes.ContentRating)
			return list([4]string{x.Standard, x.Rating, x.Score, x.Reasons})
		},
		forms: func(r *rand.Rand) form {
			f := rating(r)
			return form{"rating", pick(r, "(", " (") + strings.Join(f[:], "|") + pick(r, ")", ") "), list(f)}
		},
		rand: func(r *rand.Rand) interface{} {
			f := rating(r)
			return &itunes.ContentRating{Standard: f[0], Rating: f[1], Score: f[2], Reasons: f[3]}
		},
	},
	{
		name: "itunes.SMPB", zero: func() interface{} { return new(itunes.SMPB) },
		show: func(v interface{}) string { return fmt.Sprint(*v.(*itunes.SMPB)) },
		forms: func(r *rand.Rand) form {
			a, b, n, e := r.Int31(), r.Int31()>>uint(r.Intn(30)), r.Int63()>>uint(r.Intn(60)), r.Int63()>>uint(32+r.Intn(30))
			return form{"smpb", fmt.Sprintf(" 00000000 %08X %08X %016X 00000000 %08X 00000000 00000000", a, b, n, e), fmt.Sprintf("{%d %d %d %d}", a, b, n, e)}
		},
		errors: func(r *rand.Rand) string { return pick(r, "0 x 0 0 0 0", "0 0 x 0 0 0", "0 0 0 x", "0 0 0 0 0 x") },
		rand: func(r *rand.Rand) interface{} {
			return &itunes.SMPB{EncoderDelay: 1, EndOffset: int64(r.Intn(99))}
		},
		noText: true, noJSON: true,
	},
	{
		name: "ixml.Bool", zero: func() interface{} { return new(ixml.Bool) },
		show: func(v interface{}) string { return strconv.FormatBool(v.(*ixml.Bool).Value()) },
		forms: func(r *rand.Rand) form {
			if r.Intn(2) == 0 {
				return form{"true", pick(r, "TRUE", "true", "True"), "true"}
			}
			return form{"false", pick(r, "FALSE", "false", "False"), "false"}
		},
		errors: func(r *rand.Rand) string { return pick(r, "yes", "1", "T", "truee") },
		rand:   func(r *rand.Rand) interface{} { v := ixml.Bool(r.Intn(2) == 0); return &v },
	},
	{
		name: "ixml.TakeTypeList", zero: func() interface{} { return new(ixml.TakeTypeList) },
		show: func(v interface{}) string { return list(*v.(*ixml.TakeTypeList)) },
		forms: func(r *rand.Rand) form {
			return words(r, ",", "DEFAULT", "NO_GOOD", "FALSE_START", "WILD_TRACK", "PICKUP", "REHEARSAL", "ANNOUNCEMENT", "SOUND_GUIDE", "FUTURE")
		},
		rand: func(r *rand.Rand) interface{} {
			l := ixml.TakeTypeList{}
			for _, s := range randWords(r, "NO_GOOD", "PICKUP", "FUTURE") {
				l = append(l, ixml.TakeType(s))
			}
			return &l
		},
	},
	{
		name: "ixml.LocationTypeList", zero: func() interface{} { return new(ixml.LocationTypeList) },
		show:  func(v interface{}) string { return list(*v.(*ixml.LocationTypeList)) },
		forms: func(r *rand.Rand) form { return words(r, ",", "INT", "EXT", "OTHER") },
		rand: func(r *rand.Rand) interface{} {
			l := ixml.LocationTypeList{}
			for _, s := range randWords(r, "INT", "EXT", "FUTURE") {
				l = append(l, ixml.LocationType(s))
			}
			return &l
		},
	},
	{
		name: "ixml.LocationTimeList", zero: func() interface{} { return new(ixml.LocationTimeList) },
		show: func(v interface{}) string { return list(*v.(*ixml.LocationTimeList)) },
		forms: func(r *rand.Rand) form {
			return words(r, ",", "SUNRISE", "MORNING", "MIDDAY", "DAY", "AFTERNOON", "EVENING", "SUNSET", "NIGHT", "DUSK")
		},
		rand: func(r *rand.Rand) interface{} {
			l := ixml.LocationTimeList{}
			for _, s := range randWords(r, "DAY", "NIGHT", "DUSK") {
				l = append(l, ixml.LocationTime(s))
			}
			return &l
		},
	},
	{
		name: "ixml.TimecodeFlag", zero: func() interface{} { return new(ixml.TimecodeFlag) },
		show: func(v interface{}) string { return string(*v.(*ixml.TimecodeFlag)) },
		forms: func(r *rand.Rand) form {
			s := pick(r, "DF", "NDF")
			return form{"flag", s, s}
		},
		errors: func(r *rand.Rand) string { return pick(r, "df", "DROP", "ND", "x") },
		noText: true, noJSON: true,
	},
	{
		name: "riff.StringArray", zero: func() interface{} { return new(riff.StringArray) },
		show:  func(v interface{}) string { return list([]string(*v.(*riff.StringArray))) },
		forms: func(r *rand.Rand) form { return words(r, "; ", "a", "b c", "d;e", "ü, x") },
	},
	{
		name: "riff.AltString", zero: func() interface{} { return new(riff.AltString) },
		show: func(v interface{}) string {
			var s []string
			for _, a := range *v.(*riff.AltString) {
				s = append(s, a.Lang+":"+a.Value)
			}
			return list(s)
		},
		forms: func(r *rand.Rand) form {
			w := pick(r, "a", "b c", "d;e", "ü, x")
			return form{"alt", w, list([]string{"eng:" + w})}
		},
	},
}

func modelText(c *Case) { textChecks(c, &modelScalars[c.Idx%len(modelScalars)]) }

// timecodes checks time codes, durations in attributes, GPS coordinates and
// the order of markers.
func timecodes(c *Case) {
	r := c.R
	for i := 0; i < 16; i++ {
		// a time code keeps its text and fields through JSON and XMP
		tc := [4]int{r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(60)}
		sep := pick(r, ":", ";")
		text := fmt.Sprintf("%02d%s%02d%s%02d%s%02d", tc[0], sep, tc[1], sep, tc[2], sep, tc[3])
		formats := []xmpdm.TimecodeFormat{xmpdm.TimecodeFormat24, xmpdm.TimecodeFormat25, xmpdm.TimecodeFormat2997, xmpdm.TimecodeFormat2997ND, xmpdm.TimecodeFormat5994, xmpdm.TimecodeFormat23976}
		ft := formats[r.Intn(len(formats))]
		c.Art("text", text)
		v := xmpdm.Timecode{Format: ft, Value: text, IsDropFrame: sep == ";"}
		if err := v.Unpack(); err != nil {
			c.Fail("unpack", "time code %q: %v", text, err)
			continue
		}
		ok := func(v xmpdm.Timecode, where string) {
			if v.H != tc[0] || v.M != tc[1] || v.S != tc[2] || v.F != tc[3] || v.IsDropFrame != (sep == ";") || v.Format != ft || v.Value != text || v.String() != text {
				c.Fail("timecode:"+where, "%s: time code %q %q is %+v (%s)", where, text, ft, v, v)
			}
			c.Eval(1)
			c.Event("timecode:" + where)
		}
		ok(v, "unpack")
		fld := strings.Split(text, sep)
		if k := r.Intn(5); k < 4 {
			fld[k] = pick(r, "x", "", "1.5", "0x2", "--")
		} else {
			fld = fld[:1+r.Intn(3)]
		}
		if bad := (xmpdm.Timecode{Format: ft, Value: strings.Join(fld, sep), IsDropFrame: sep == ";"}); bad.Unpack() == nil {
			c.Fail("unpack:bad", "time code %q is accepted as %+v", bad.Value, bad)
		}
		b, err := json.Marshal(v)
		var w xmpdm.Timecode
		if err == nil {
			err = json.Unmarshal(b, &w)
		}
		if err != nil {
			c.Fail("timecode:json", "time code %q: %v (%s)", text, err, b)
		} else {
			ok(w, "json")
		}
		bare := v
		if r.Intn(2) == 0 {
			bare.Value = "" // built from its fields
		} else if r.Intn(2) == 0 {
			bare = xmpdm.Timecode{Format: ft, Value: text} // or text
		}
		d := xmp.NewDocument()
		dm, err := xmpdm.MakeModel(d)
		if err != nil {
			c.Fail("model", "%v", err)
			return
		}
		dm.StartTimecode = bare
		x, err := xmp.Marshal(d)
		d.Close()
		d2 := xmp.NewDocument()
		if err == nil {
			err = xmp.Unmarshal(x, d2)
		}
		if m := xmpdm.FindModel(d2); err != nil || m == nil {
			c.Fail("timecode:xmp", "time code %q is lost: %v", text, err)
		} else {
			ok(m.StartTimecode, "xmp")
		}
		d2.Close()
		c.Seen("tc", text, string(ft))

		// durations written as text
		h, m, s := r.Intn(30), r.Intn(60), r.Intn(60)
		var want int64 // in nanoseconds
		var t string
		switch r.Intn(3) {
		case 0:
			t = fmt.Sprintf("%d:%02d:%02d", h, m, s)
			want = int64(h*3600+m*60+s) * 1e9
		case 1:
			t = fmt.Sprintf("%d:%02d", m, s)
			want = int64(m*60+s) * 1e9
		default:
			t = fmt.Sprint(s)
			want = int64(s) * 1e9
		}
		if n := r.Intn(10); n > 0 {
			f := ""
			for i := 0; i < n; i++ {
				f += string(rune('0' + r.Intn(10)))
			}
			ns, _ := strconv.ParseInt((f + "000000000")[:9], 10, 64)
			want += ns
			t += "." + f
		}
		bad := r.Intn(6) == 0
		if bad {
			t = pick(r, "soon", t+"x", "x"+t, "1:2:3:"+t, t+":", t+"s", "1."+t+".5", ":"+t, t+" min", "1h")
		}
		c.Art("text", t)
		prop := pick(r, "duration", "introTime", "outCue", "relativeTimestamp")
		src := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:xmpDM="http://ns.adobe.com/xmp/1.0/DynamicMedia/" xmpDM:` + prop + `="` + t + `"/></rdf:RDF></x:xmpmeta>`
		d3 := xmp.NewDocument()
		err = xmp.Unmarshal([]byte(src), d3)
		switch {
		case bad && err == nil:
			c.Fail("mediatime-bad", "%s %q is no time, but was accepted", prop, t)
		case bad:
			c.Event("mediatime refused")
		case err != nil:
			c.Fail("mediatime", "%s %q: %v", prop, t, err)
		default:
			mt := func(d *xmp.Document, where string) {
				m := xmpdm.FindModel(d)
				if m == nil {
					c.Fail("mediatime"+where, "%s %q is lost%s", prop, t, where)
					return
				}
				v := map[string]xmpdm.MediaTime{"duration": m.Duration, "introTime": m.IntroTime, "outCue": m.OutCue, "relativeTimestamp": m.RelativeTimestamp}[prop]
				if v.Scale.Den == 0 {
					v.Scale = xmp.Rational{Num: 0, Den: 1}
				}
				got := new(big.Rat).Mul(big.NewRat(v.Value, 1), big.NewRat(v.Scale.Num, v.Scale.Den))
				if got.Cmp(big.NewRat(want, 1e9)) != 0 {
					c.Fail("mediatime"+where, "%s %q is %d ns, got %d * %s%s", prop, t, want, v.Value, v.Scale, where)
				}
			}
			mt(d3, "")
			b, err := xmp.Marshal(d3)
			d4 := xmp.NewDocument()
			if err == nil {
				err = xmp.Unmarshal(b, d4)
			}
			if err != nil {
				c.Fail("mediatime:xmp", "%s %q: %v", prop, t, err)
			} else {
				mt(d4, " after a round trip")
			}
			d4.Close()
		}
		d3.Close()
		c.Eval(1)
		c.Event("mediatime")

		// GPS coordinates from decimal degrees
		deg := (r.Float64()*2 - 1) * 180
		t = strconv.FormatFloat(deg, 'f', 1+r.Intn(9), 64)
		c.Art("text", t)
		var g exif.GPSCoord
		exact, _ := strconv.ParseFloat(t, 64)
		if err := g.UnmarshalText([]byte(t)); err != nil {
			c.Fail("gps", "coordinate %q: %v", t, err)
		} else {
			sum := g[0].Value() + g[1].Value()/60 + g[2].Value()/3600
			if math.Abs(sum-math.Abs(exact)) > 1e-7 || g[0].Value() != math.Trunc(g[0].Value()) || g[1].Value() != math.Trunc(g[1].Value()) || g[1].Value() >= 60 || g[2].Value() > 60.00001 || g[0].Value() < 0 || g[1].Value() < 0 || g[2].Value() < 0 {
				c.Fail("gps", "coordinate %q is %v %v %v", t, g[0], g[1], g[2])
			}
		}
		c.Eval(1)
		c.Event("gps")
		c.Seen("gps", t)
	}
	// markers in the order of their times
	n := 2 + r.Intn(12)
	var l xmpdm.MarkerList
	secs := map[string]float64{}
	kinds := []string{"Chapter", "Cue", "Beat", "Speech"}
	types := map[string][]string{}
	for i := 0; i < n; i++ {
		rate, base := []int64{1, 24, 25, 30000, 48000}[r.Intn(5)], int64(1)
		if rate == 30000 {
			base = 1001
		}
		cnt := r.Int63n(1000 * rate)
		name := fmt.Sprintf("m%d", i)
		secs[name] = float64(cnt) * float64(base) / float64(rate)
		m := xmpdm.Marker{Name: name, StartTime: toCount(count{cnt, rate, base})}
		for _, k := range kinds {
			if r.Intn(3) == 0 {
				m.Types = append(m.Types, xmpdm.MarkerType(k))
				types[name] = append(types[name], k)
			}
		}
		l = append(l, m)
	}
	var want []string
	for _, m := range l {
		want = append(want, m.Name)
	}
	k1, k2 := pick(r, kinds...), pick(r, kinds...)
	var keep []string
	for _, nm := range want {
		for _, k := range types[nm] {
			if k == k1 || k == k2 {
				keep = append(keep, nm)
				break
			}
		}
	}
	var got []string
	for _, m := range l.Filter(xmpdm.MarkerTypeList{xmpdm.MarkerType(k1), xmpdm.MarkerType(k2)}) {
		got = append(got, m.Name)
	}
	if strings.Join(got, " ") != strings.Join(keep, " ") {
		c.Fail("marker-filter", "markers of type %s or %s are %v, got %v", k1, k2, keep, got)
	}
	l.Sort()
	sort.SliceStable(want, func(i, j int) bool { return secs[want[i]] < secs[want[j]] })
	for i, m := range l {
		if math.Abs(secs[m.Name]-secs[want[i]]) > 1e-9 {
			c.Fail("marker-sort", "marker %d of the sorted list is %s at %f s, not %s at %f s", i, m.Name, secs[m.Name], want[i], secs[want[i]])
			break
		}
	}
	c.Eval(n + 1)
	c.Event("markers")
}

func init() {
	register(&Property{ID: "P18", Rule: "every text of a value type of the models is read as the value an independent reference computes for it, other texts are refused, values come back from their text and JSON, and markers sort and filter by time and type",
		Scenarios: []Scenario{
			{"text", 31 * 2000, 31 * 60000, modelText},
			{"media", 4000, 200000, timecodes},
		}})
}
