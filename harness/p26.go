package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Native metadata whose XMP form is another notation: what was set natively
// is what the packet says, and the other way around.

func camDate(t stamp) string {
	return fmt.Sprintf("%04d:%02d:%02d %02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s)
}

// fraction makes the digits of a part of a second.
func fraction(r *rand.Rand) (string, int) {
	switch r.Intn(6) {
	case 0:
		return "", 0
	case 1:
		z := strings.Repeat("0", 1+r.Intn(9))
		return z, 0
	}
	n := 1 + r.Intn(9)
	s := ""
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			s += "0"
		} else {
			s += strconv.Itoa(r.Intn(10))
		}
	}
	v, _ := strconv.Atoi(s)
	for i := n; i < 9; i++ {
		v *= 10
	}
	return s, v
}

func trimFraction(s string) string { return strings.TrimRight(strings.TrimSpace(s), "0") }

// gpsMinutes reads "DDD,MM.mmk" or "DDD,MM,SSk" exactly.
var gpsText = regexp.MustCompile(`^(\d+),(\d+(?:\.\d+)?)(?:,(\d+(?:\.\d+)?))?([NSEW])$`)

func gpsMinutes(s string) (*big.Rat, string, error) {
	v := gpsText.FindStringSubmatch(s)
	if v == nil {
		return nil, "", fmt.Errorf("no coordinate: %q", s)
	}
	num := func(s string) *big.Rat {
		n, ok := new(big.Rat).SetString(s)
		if !ok {
			n = new(big.Rat)
		}
		return n
	}
	m := num(v[2])
	sixty := big.NewRat(60, 1)
	if m.Cmp(sixty) >= 0 {
		return nil, "", fmt.Errorf("%s minutes: %q", v[2], s)
	}
	if v[3] != "" {
		sec := num(v[3])
		if sec.Cmp(sixty) >= 0 {
			return nil, "", fmt.Errorf("%s seconds: %q", v[3], s)
		}
		m.Add(m, sec.Quo(sec, sixty))
	}
	d := num(v[1])
	return m.Add(m, d.Mul(d, sixty)), v[4], nil
}

func near(a, b *big.Rat, eps float64) bool {
	d, _ := new(big.Rat).Sub(a, b).Float64()
	return math.Abs(d) <= eps
}

// coordinate makes degrees, minutes and seconds the ways cameras store them.
func coordinate(r *rand.Rand, max int) (exif.GPSCoord, *big.Rat) {
	var g exif.GPSCoord
	sum := new(big.Rat)
	add := func(i int, n, d int64, unit *big.Rat) {
		g[i] = xmp.Rational{Num: n, Den: d}
		v := big.NewRat(n, d)
		sum.Add(sum, v.Mul(v, unit))
	}
	deg, min, sec := big.NewRat(60, 1), big.NewRat(1, 1), big.NewRat(1, 60)
	near := func(n, d int64) (int64, int64) { // often close to the next unit
		switch r.Intn(4) {
		case 0:
			return n*d - 1, d
		case 1:
			return 0, d
		}
		return r.Int63n(n * d), d
	}
	dens := []int64{1, 10, 100, 1000, 10000, 1000000, 7, 9999}
	den := dens[r.Intn(len(dens))]
	switch r.Intn(4) {
	case 0: // decimal degrees
		n, d := near(int64(max), den)
		add(0, n, d, deg)
		add(1, 0, 1, min)
		add(2, 0, 1, sec)
	case 1: // degrees and decimal minutes
		add(0, int64(r.Intn(max)), 1, deg)
		n, d := near(60, den)
		add(1, n, d, min)
		add(2, 0, 1, sec)
	default:
		add(0, int64(r.Intn(max)), 1, deg)
		add(1, int64(r.Intn(60)), 1, min)
		n, d := near(60, den)
		add(2, n, d, sec)
	}
	return g, sum
}

type wantDate struct {
	t  stamp
	ns int
}

func (w wantDate) ok(s string) bool {
	t, err := time.Parse(time.RFC3339Nano, s)
	return err == nil && t.Unix() == w.t.unix() && t.Nanosecond() == w.ns
}

func textOf(v *val) string {
	if v == nil {
		return ""
	}
	return v.text
}

func listOf(v *val) (l []string) {
	if v != nil {
		for _, i := range v.items {
			l = append(l, i.text)
		}
	}
	return
}

func defaultOf(v *val) string {
	if v != nil {
		for _, i := range v.items {
			if i.lang == "x-default" {
				return i.text
			}
		}
	}
	return ""
}

func name26(r *rand.Rand) string {
	return pick(r, "Ann", "Bob Smith", "Zoë", "C. D.", "O'Neil & Söhne", "a,b", "<x>", "名前") + pick(r, "", "", strconv.Itoa(r.Intn(99)))
}

var exifDates = []struct{ date, frac, prop string }{
	{"0x0132", "0x9290", "xmp:ModifyDate"},
	{"0x9003", "0x9291", "photoshop:DateCreated"},
	{"0x9004", "0x9292", "exif:DateTimeDigitized"},
}

var exifTexts = []struct{ tag, prop string }{
	{"0x010e", "dc:description"},
	{"0x8298", "dc:rights"},
	{"0x0131", "xmp:CreatorTool"},
}

var tiffTags = []struct{ tag, prop string }{
	{"0x0100", "tiff:ImageWidth"},
	{"0x0101", "tiff:ImageLength"},
	{"0x010f", "tiff:Make"},
	{"0x0110", "tiff:Model"},
	{"0x0115", "tiff:SamplesPerPixel"},
	{"0x011a", "tiff:XResolution"},
	{"0x011b", "tiff:YResolution"},
	{"0x0112", "tiff:Orientation"},
}

func exifOut(c *Case) {
	r := c.R
	e := &exif.ExifInfo{}
	tags := map[string]string{}
	var log []string
	set := func(tag, s string) bool {
		log = append(log, fmt.Sprintf("%s=%q", tag, s))
		if err := e.SetTag(tag, s); err != nil {
			c.Fail("set "+tag, "SetTag(%q,%q): %v", tag, s, err)
			return false
		}
		tags[tag] = s
		return true
	}
	dates := map[string]wantDate{}
	for _, x := range exifDates {
		if r.Intn(3) == 0 {
			continue
		}
		t := randStamp(r)
		t.ns, t.off = 0, 0
		if !set(x.date, camDate(t)) {
			return
		}
		f, ns := fraction(r)
		if f != "" && !set(x.frac, f+pick(r, "", "", " ", "   ")) {
			return
		}
		dates[x.prop] = wantDate{t, ns}
	}
	var artists []string
	if r.Intn(2) == 0 {
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			artists = append(artists, name26(r))
		}
		if !set("0x013b", strings.Join(artists, pick(r, ";", "; ", " ; "))) {
			return
		}
	}
	texts := map[string]string{}
	for _, x := range exifTexts {
		if r.Intn(2) == 0 {
			s := name26(r)
			texts[x.prop] = s
			if !set(x.tag, s) {
				return
			}
		}
	}
	coords := map[string]*big.Rat{}
	refs := map[string]string{}
	gps := func(prop string, at *exif.GPSCoord, tag, reftag string, max int, ref ...string) bool {
		if r.Intn(2) == 0 {
			return true
		}
		k := ref[r.Intn(len(ref))]
		if !set(reftag, k) {
			return false
		}
		var sum *big.Rat
		if r.Intn(4) == 0 {
			v := r.Float64() * float64(max)
			if r.Intn(3) == 0 {
				v = math.Floor(v*60) / 60
			}
			s := strconv.FormatFloat(v, 'f', 1+r.Intn(9), 64)
			if !set(tag, s) {
				return false
			}
			n, _ := new(big.Rat).SetString(s)
			sum = n.Mul(n, big.NewRat(60, 1))
			refs[prop+" decimal"] = "1"
		} else {
			*at, sum = coordinate(r, max)
			log = append(log, fmt.Sprintf("%s=%v", tag, *at))
		}
		coords[prop] = sum
		refs[prop] = k
		return true
	}
	if !gps("exif:GPSLatitude", &e.GPSLatitude, "0x0002", "0x0001", 90, "N", "S") ||
		!gps("exif:GPSLongitude", &e.GPSLongitude, "0x0004", "0x0003", 180, "E", "W") ||
		!gps("exif:GPSDestLatitude", &e.GPSDestLatitude, "0x0014", "0x0013", 90, "N", "S") ||
		!gps("exif:GPSDestLongitude", &e.GPSDestLongitude, "0x0016", "0x0015", 180, "E", "W") {
		return
	}
	if r.Intn(2) == 0 {
		t := randStamp(r)
		t.off, t.ns = 0, 0
		if !set("0x001d", camDate(t)[:10]) {
			return
		}
		den := []int64{1, 10, 100, 1000, 1000000, 3}[r.Intn(6)]
		n := int64(t.s) * den
		if den > 1 {
			n += r.Int63n(den)
		}
		e.GPSTimeStamp = xmp.RationalArray{{Num: int64(t.h), Den: 1}, {Num: int64(t.mi), Den: 1}, {Num: n, Den: den}}
		log = append(log, fmt.Sprintf("time=%v", e.GPSTimeStamp))
		f := n % den
		dates["exif:GPSTimeStamp"] = wantDate{t, int((f*2000000000/den + 1) / 2)}
	}
	if len(log) == 0 {
		return
	}
	c.Event("native EXIF")
	c.Sample("%v", log)
	c.Seen("exif", strings.Join(sortedKeys(dates), " "), fmt.Sprint(len(artists)), strings.Join(sortedKeys(texts), " "), strings.Join(sortedKeys(coords), " "))
	d := xmp.NewDocument()
	if _, err := d.AddModel(e); err != nil {
		c.Fail("add", "AddModel: %v", err)
		return
	}
	check := func(pass string, b []byte) bool {
		p, err := readXMP(b)
		if err != nil {
			c.Fail("read", "%s: %v", pass, err)
			return false
		}
		get := func(n string) *val { return p.props[golden.q(n)] }
		for _, n := range []string{"xmp:ModifyDate", "photoshop:DateCreated", "exif:DateTimeDigitized", "exif:GPSTimeStamp"} {
			c.Eval(1)
			w, ok := dates[n]
			if s := textOf(get(n)); ok && !w.ok(s) || !ok && s != "" {
				c.Fail("date "+n, "%s: %s is %q, want %v %d ns (%v) after %v", pass, n, s, w.t, w.ns, ok, log)
			}
		}
		if l := listOf(get("dc:creator")); fmt.Sprintf("%q", l) != fmt.Sprintf("%q", artists) {
			c.Fail("artist", "%s: creators %q, want %q after %v", pass, l, artists, log)
		}
		for _, x := range exifTexts {
			c.Eval(1)
			s := textOf(get(x.prop))
			if x.prop != "xmp:CreatorTool" {
				s = defaultOf(get(x.prop))
			}
			if s != texts[x.prop] {
				c.Fail("text "+x.prop, "%s: %s is %q, want %q after %v", pass, x.prop, s, texts[x.prop], log)
			}
		}
		for _, n := range []string{"exif:GPSLatitude", "exif:GPSLongitude", "exif:GPSDestLatitude", "exif:GPSDestLongitude"} {
			c.Eval(1)
			v := get(n)
			w := coords[n]
			if w == nil {
				if v != nil && v.text != "" {
					c.Fail("gps "+n, "%s: %s is %q after %v", pass, n, v.text, log)
				}
				continue
			}
			got, ref, err := gpsMinutes(textOf(v))
			eps := 1.5e-7
			if refs[n+" decimal"] != "" {
				eps = 2e-6 // single precision seconds
			}
			if err != nil || ref != refs[n] || !near(got, w, eps) {
				ws, _ := w.Float64()
				c.Fail("gps "+n, "%s: %s is %q (%v), want %.8f minutes %s after %v", pass, n, textOf(v), err, ws, refs[n], log)
			}
		}
		return true
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "Marshal: %v after %v", err, log)
		return
	}
	c.Art("packet.xmp", b)
	if !check("written", b) {
		return
	}
	d2 := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d2); err != nil {
		c.Fail("reread", "Unmarshal: %v", err)
		return
	}
	defer d2.Close()
	e2 := exif.FindModel(d2)
	if e2 == nil {
		c.Fail("model", "no EXIF model after reading the packet of %v", log)
		return
	}
	for _, x := range exifDates {
		c.Eval(1)
		got, err := e2.GetTag(x.date)
		if err != nil || got != tags[x.date] {
			c.Fail("back "+x.prop, "tag %s is %q (%v), want %q after %v", x.date, got, err, tags[x.date], log)
		}
		got, err = e2.GetTag(x.frac)
		if err != nil || trimFraction(got) != trimFraction(tags[x.frac]) {
			c.Fail("back "+x.prop, "tag %s is %q (%v), want %q after %v", x.frac, got, err, tags[x.frac], log)
		}
	}
	if got, err := e2.GetTag("0x013b"); err != nil || got != strings.Join(artists, "; ") {
		c.Fail("back artist", "artist is %q (%v), want %q", got, err, strings.Join(artists, "; "))
	}
	for _, x := range exifTexts {
		if got, err := e2.GetTag(x.tag); err != nil || got != texts[x.prop] {
			c.Fail("back "+x.prop, "tag %s is %q (%v), want %q", x.tag, got, err, texts[x.prop])
		}
	}
	b2, err := xmp.Marshal(d2)
	if err != nil {
		c.Fail("rewrite", "Marshal: %v", err)
		return
	}
	check("rewritten", b2)
}

// exifIn reads packets other programs wrote.
func exifIn(c *Case) {
	r := c.R
	g := newGdoc()
	put := func(n string, v *val) {
		q := golden.q(n)
		g.props[q] = v
		g.pfx[q.uri] = n[:strings.Index(n, ":")]
	}
	want := map[string]string{}
	put("exif:PixelXDimension", sval("17"))
	for _, x := range exifDates {
		if r.Intn(3) == 0 {
			continue
		}
		t := randStamp(r)
		f, _ := fraction(r)
		s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", t.y, t.mo, t.d, t.h, t.mi, t.s)
		if f != "" {
			s += "." + f
		}
		s += pick(r, "Z", "+02:00", "-11:30", "+05:45", "+00:00")
		put(x.prop, sval(s))
		want[x.date] = camDate(t)
		want[x.frac] = trimFraction(f)
	}
	if r.Intn(2) == 0 {
		v := &val{kind: 'a', typ: "Seq"}
		var l []string
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			s := name26(r)
			l = append(l, s)
			v.items = append(v.items, sval(s))
		}
		put("dc:creator", v)
		want["0x013b"] = strings.Join(l, "; ")
	}
	for _, x := range exifTexts {
		if r.Intn(2) == 0 {
			continue
		}
		s := name26(r)
		if x.prop == "xmp:CreatorTool" {
			put(x.prop, sval(s))
		} else {
			d := sval(s)
			d.lang = "x-default"
			v := &val{kind: 'a', typ: "Alt", items: []*val{d}}
			if r.Intn(2) == 0 {
				o := sval(s + " auf Deutsch")
				o.lang = "de-DE"
				v.items = append(v.items, o)
			}
			put(x.prop, v)
		}
		want[x.tag] = s
	}
	for _, x := range tiffTags {
		if r.Intn(3) > 0 {
			continue
		}
		s := strconv.Itoa(1 + r.Intn(8))
		switch {
		case strings.HasSuffix(x.prop, "Resolution"):
			s = fmt.Sprintf("%d/%d", 1+r.Intn(9999), 1+r.Intn(99))
		case x.tag == "0x010f" || x.tag == "0x0110":
			s = name26(r)
		}
		put(x.prop, sval(s))
		want[x.tag] = s
	}
	c.Event("packet read")
	c.Seen("in", strings.Join(sortedKeys(want), " "))
	b := writeXMP(g, randStyle(r), r)
	c.Art("packet.xmp", b)
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal(b, d); err != nil {
		c.Fail("read", "Unmarshal: %v", err)
		return
	}
	e := exif.FindModel(d)
	if e == nil {
		c.Fail("model", "no EXIF model")
		return
	}
	tags := []string{"0x013b"}
	for _, x := range exifDates {
		tags = append(tags, x.date, x.frac)
	}
	for _, x := range exifTexts {
		tags = append(tags, x.tag)
	}
	for _, x := range tiffTags {
		tags = append(tags, x.tag)
	}
	for _, t := range tags {
		c.Eval(1)
		got, err := e.GetTag(t)
		if strings.HasPrefix(t, "0x929") {
			got = trimFraction(got)
		}
		if got == "0" || got == "0/1" || got == "0/0" {
			got = ""
		}
		if err != nil || got != want[t] {
			c.Fail("tag "+t, "tag %s is %q (%v), want %q", t, got, err, want[t])
		}
	}
}

// iso6709 makes a location text; in degrees.
func iso6709Text(r *rand.Rand) (s string, lat, lon *big.Rat, alt string) {
	part := func(max, width int) (string, *big.Rat) {
		sign, k := "+", int64(1)
		if r.Intn(2) == 0 {
			sign, k = "-", -1
		}
		frac := ""
		fr := new(big.Rat)
		if n := r.Intn(7); n > 0 {
			frac = fmt.Sprintf("%0*d", n, r.Int63n(int64(math.Pow10(n))))
			fr.SetString("0." + frac)
			frac = "." + frac
		}
		deg := r.Intn(max)
		s := fmt.Sprintf("%s%0*d", sign, width, deg)
		v := big.NewRat(int64(deg), 1)
		unit := big.NewRat(1, 1)
		for form := pick(r, "d", "d", "d", "dm", "dms"); len(form) > 1; form = form[1:] {
			n := r.Intn(60)
			s += fmt.Sprintf("%02d", n)
			unit.Quo(unit, big.NewRat(60, 1))
			v.Add(v, new(big.Rat).Mul(big.NewRat(int64(n), 1), unit))
		}
		v.Add(v, fr.Mul(fr, unit))
		return s + frac, v.Mul(v, big.NewRat(k, 1))
	}
	a, lat := part(90, 2)
	o, lon := part(180, 3)
	s = a + o
	if r.Intn(3) > 0 {
		alt = pick(r, "", "-") + pick(r, "0.5", "362.904", "8848", "12.25", "7")
		if alt[0] == '-' {
			s += alt
		} else {
			s += "+" + alt
		}
	}
	return s + "/", lat, lon, alt
}

func qtLocation(c *Case) {
	r := c.R
	info := &qt.QtInfo{}
	const pre = "com.apple.quicktime.location."
	s, lat, lon, alt := iso6709Text(r)
	set := map[string]string{"iso6709": s, "name": name26(r)}
	for _, t := range []string{"body", "note"} {
		if r.Intn(2) == 0 {
			set[t] = name26(r)
		}
	}
	if r.Intn(2) == 0 {
		set["role"] = strconv.Itoa(1 + r.Intn(2))
	}
	for _, t := range sortedKeys(set) {
		if err := info.SetTag(pre+t, set[t]); err != nil {
			c.Fail("set", "SetTag(%q,%q): %v", t, set[t], err)
			return
		}
	}
	d := xmp.NewDocument()
	d.AddModel(info)
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "Marshal: %v after %v", err, set)
		return
	}
	c.Art("packet.xmp", b)
	c.Event("location")
	c.Seen("qt", fmt.Sprint(len(s)), fmt.Sprint(lat.Sign(), lon.Sign()))
	p, err := readXMP(b)
	if err != nil {
		c.Fail("read", "%v", err)
		return
	}
	var loc *val
	if m := p.props[golden.q("qt:mdta")]; m != nil {
		loc = m.fields[golden.q("qt:Location")]
	}
	if loc == nil {
		c.Fail("location", "no location in the packet of %v", set)
		return
	}
	get := func(n string) string { return textOf(loc.fields[golden.q("qt:"+n)]) }
	checkPoint := func(what, text string, w *big.Rat, pos, neg string) {
		c.Eval(1)
		got, ref, err := gpsMinutes(text)
		if err != nil {
			c.Fail("gps", "%s of %v is %q: %v", what, set, text, err)
			return
		}
		if ref == neg {
			got.Neg(got)
		} else if ref != pos {
			c.Fail("gps", "%s of %v is %q", what, set, text)
			return
		}
		if !near(got, new(big.Rat).Mul(w, big.NewRat(60, 1)), 1.5e-7) {
			c.Fail("gps", "%s of %v is %q", what, set, text)
		}
	}
	checkPoint("latitude", get("Latitude"), lat, "N", "S")
	checkPoint("longitude", get("Longitude"), lon, "E", "W")
	for n, t := range map[string]string{"Name": "name", "Body": "body", "Note": "note", "Role": "role"} {
		c.Eval(1)
		if get(n) != set[t] {
			c.Fail("location "+t, "%s is %q, want %q", n, get(n), set[t])
		}
	}
	if a, _ := strconv.ParseFloat(get("Altitude"), 64); fmt.Sprint(a) != fmt.Sprint(parse0(alt)) {
		c.Fail("altitude", "altitude of %v is %q", set, get("Altitude"))
	}
	// and back
	d2 := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d2); err != nil {
		c.Fail("reread", "Unmarshal: %v", err)
		return
	}
	defer d2.Close()
	checkISO(c, d2, set, lat, lon, alt)
}

func parse0(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}

var isoOut = regexp.MustCompile(`^([+-]\d{2}(?:\.\d+)?)([+-]\d{3}(?:\.\d+)?)([+-]\d+(?:\.\d+)?)?/$`)

func checkISO(c *Case, d *xmp.Document, set map[string]string, lat, lon *big.Rat, alt string) {
	m, _ := d.FindModel(qt.NsQuicktime).(*qt.QtInfo)
	if m == nil {
		c.Fail("model", "no QuickTime model")
		return
	}
	for _, t := range []string{"name", "body", "note", "role"} {
		c.Eval(1)
		got, err := m.GetTag("com.apple.quicktime.location." + t)
		if got == "0" {
			got = ""
		}
		if err != nil || got != set[t] {
			c.Fail("tag "+t, "tag %s is %q (%v), want %q", t, got, err, set[t])
		}
	}
	c.Eval(1)
	got, err := m.GetTag("com.apple.quicktime.location.iso6709")
	v := isoOut.FindStringSubmatch(got)
	if err != nil || v == nil {
		c.Fail("iso", "location is %q (%v) for %v", got, err, set)
		return
	}
	a, _ := new(big.Rat).SetString(v[1])
	o, _ := new(big.Rat).SetString(v[2])
	if !near(a, lat, 2e-8) || !near(o, lon, 2e-8) || parse0(v[3]) != parse0(alt) {
		c.Fail("iso", "location is %q for %v", got, set)
	}
}

func qtIn(c *Case) {
	r := c.R
	g := newGdoc()
	f := map[qname]*val{}
	field := func(n, s string) { f[golden.q("qt:"+n)] = sval(s) }
	set := map[string]string{"name": name26(r)}
	field("Name", set["name"])
	coord := func(max int, pos, neg string) (string, *big.Rat) {
		d, m := r.Intn(max), r.Intn(60)
		v := new(big.Rat).SetInt64(int64(d))
		v.Add(v, big.NewRat(int64(m), 60))
		s := fmt.Sprintf("%d,%d", d, m)
		switch r.Intn(3) {
		case 0:
			n := r.Intn(60)
			s += fmt.Sprintf(",%d", n)
			v.Add(v, big.NewRat(int64(n), 3600))
		default:
			n := r.Int63n(1e6)
			s += fmt.Sprintf(".%06d", n)
			v.Add(v, big.NewRat(n, 60e6))
		}
		if r.Intn(2) == 0 {
			return s + neg, v.Neg(v)
		}
		return s + pos, v
	}
	la, lat := coord(90, "N", "S")
	lo, lon := coord(180, "E", "W")
	field("Latitude", la)
	field("Longitude", lo)
	alt := pick(r, "", "12.5", "-3", "0.25")
	if alt != "" {
		field("Altitude", alt)
	}
	if r.Intn(2) == 0 {
		set["note"] = name26(r)
		field("Note", set["note"])
	}
	mdta := &val{kind: 't', fields: map[qname]*val{golden.q("qt:Location"): {kind: 't', fields: f}}}
	q := golden.q("qt:mdta")
	g.props[q] = mdta
	g.pfx[q.uri] = "qt"
	b := writeXMP(g, randStyle(r), r)
	c.Art("packet.xmp", b)
	c.Event("location read")
	c.Seen("qtin", fmt.Sprint(lat.Sign(), lon.Sign()), alt, fmt.Sprint(strings.Count(la+lo, ",")))
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal(b, d); err != nil {
		c.Fail("read", "Unmarshal: %v", err)
		return
	}
	set["from"] = la + " " + lo
	checkISO(c, d, set, lat, lon, alt)
}

// id3Dates: the three date frames of ID3v2.3 make one date.
func id3Dates(c *Case) {
	r := c.R
	m := &id3.ID3{}
	t := randStamp(r)
	t.s, t.ns, t.off = 0, 0, 0
	if r.Intn(4) == 0 {
		t.h, t.mi = 0, 0
	}
	set := map[string]string{
		"TYER": fmt.Sprintf("%d", t.y),
		"TDAT": fmt.Sprintf("%02d%02d", t.d, t.mo),
		"TIME": fmt.Sprintf("%02d%02d", t.h, t.mi),
	}
	for _, k := range sortedKeys(set) {
		if err := m.SetTag(k, set[k]); err != nil {
			c.Fail("set", "SetTag(%q,%q): %v", k, set[k], err)
			return
		}
	}
	d := xmp.NewDocument()
	d.AddModel(m)
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "Marshal: %v", err)
		return
	}
	c.Art("packet.xmp", b)
	c.Event("ID3 date")
	c.Seen("id3", fmt.Sprint(t.mo, t.d), fmt.Sprint(t.h))
	p, err := readXMP(b)
	if err != nil {
		c.Fail("read", "%v", err)
		return
	}
	c.Eval(1)
	if s := textOf(p.props[golden.q("xmp:CreateDate")]); !(wantDate{t, 0}).ok(s) {
		c.Fail("date", "creation date is %q for %v", s, set)
	}
}

func init() {
	register(&Property{ID: "P26",
		Rule: "values of native metadata whose XMP form is another notation are converted exactly in both directions",
		Scenarios: []Scenario{
			{"EXIF to XMP", 8000, 120000, exifOut},
			{"XMP to EXIF", 6000, 80000, exifIn},
			{"QuickTime location", 4000, 50000, qtLocation},
			{"QuickTime packets", 3000, 40000, qtIn},
			{"ID3 dates", 1500, 20000, id3Dates},
			{"EXIF tags", 6000, 100000, tagsOut},
		}})
}
