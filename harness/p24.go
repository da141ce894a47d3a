package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Versions: ordering against triples, and what a decoder of a version takes.

type triple [3]int

func (a triple) cmp(b triple) int {
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (a triple) v() xmp.Version { return xmp.Version{Major: a[0], Minor: a[1], Patch: a[2]} }

// in tells whether a version is in a range; 0.0.0 is any version and no bound.
func (a triple) in(lo, hi triple) bool {
	var z triple
	return a == z || (lo == z || a.cmp(lo) >= 0) && (hi == z || a.cmp(hi) <= 0)
}

func randTriple(r *rand.Rand) triple {
	n := func() int {
		switch r.Intn(8) {
		case 0:
			return r.Intn(1 << 30)
		case 1:
			return 9 + r.Intn(3)
		}
		return r.Intn(4)
	}
	return triple{n(), n(), n()}
}

func versionOrder(c *Case) {
	r := c.R
	a, b, v := randTriple(r), randTriple(r), randTriple(r)
	switch r.Intn(6) {
	case 0:
		v = a
	case 1:
		v = b
	case 2:
		b = a
	case 3:
		a = triple{}
	case 4:
		b = triple{}
	}
	if b != (triple{}) && a.cmp(b) > 0 {
		a, b = b, a
	}
	c.Eval(8)
	c.Seen(a, b, v)
	c.Event("versions compared")
	if g := v.v().Before(a.v()); g != (v.cmp(a) < 0) {
		c.Fail("before", "%v before %v is %v", v, a, g)
	}
	if g := v.v().After(a.v()); g != (v.cmp(a) > 0) {
		c.Fail("after", "%v after %v is %v", v, a, g)
	}
	if g := v.v().Equal(a.v()); g != (v == a) {
		c.Fail("equal", "%v equals %v is %v", v, a, g)
	}
	if g := v.v().Between(a.v(), b.v()); g != v.in(a, b) {
		c.Fail("between", "%v between %v and %v is %v", v, a, b, g)
	}
	if g := v.v().IsZero(); g != (v == triple{}) {
		c.Fail("zero", "IsZero of %v is %v", v, g)
	}
	s := fmt.Sprintf("%d.%d.%d", v[0], v[1], v[2])
	if g := v.v().String(); g != s {
		c.Fail("string", "%v is written as %q", v, g)
	}
	w := v
	k := r.Intn(3)
	for i := 2; i > 2-k; i-- {
		w[i] = 0
		s = s[:strings.LastIndex(s, ".")]
	}
	if g, err := xmp.ParseVersion(s); err != nil || g != w.v() {
		c.Fail("parse", "ParseVersion(%q) is %v (%v)", s, g, err)
	}
	bad := pick(r, "", ".", s+".", "."+s, s+".x", "v"+s, s+" ", s+"..1", "1.2.3.4", "1,2", "a.b.c", "1.x.3", "1.2.x", "x.2.3", "0x1", "1.2e1")
	if g, err := xmp.ParseVersion(bad); err == nil {
		c.Fail("accept", "ParseVersion(%q) is %v", bad, g)
	}
}

// verModel has a field for every form of a version range.
type verModel struct {
	Any    string         `xmp:"vfver:any"`
	AnyA   string         `xmp:"vfver:anya,attr"`
	Only   string         `xmp:"vfver:only,v1.2"`
	From   string         `xmp:"vfver:from,v1.2+"`
	FromA  string         `xmp:"vfver:froma,attr,v2.0.1+"`
	Until  string         `xmp:"vfver:until,v1.2-"`
	UntilA int            `xmp:"vfver:untila,attr,v2.3.4-"`
	Span   string         `xmp:"vfver:span,v1.2<2.3.4"`
	SpanL  xmp.StringList `xmp:"vfver:spanl,v1.10<2"`
	Old    string         `xmp:"vfver:twice,v1.9.9-"`
	New    int            `xmp:"vfver:twice,v2.0+"`
	Empty  string         `xmp:"vfver:empty,empty,v1.2+"`
}

var verRange = map[string][2]triple{
	"any": {}, "anya": {},
	"only":   {{1, 2, 0}, {1, 2, 0}},
	"from":   {{1, 2, 0}, {}},
	"froma":  {{2, 0, 1}, {}},
	"until":  {{}, {1, 2, 0}},
	"untila": {{}, {2, 3, 4}},
	"span":   {{1, 2, 0}, {2, 3, 4}},
	"spanl":  {{1, 10, 0}, {2, 0, 0}},
	"old":    {{}, {1, 9, 9}},
	"new":    {{2, 0, 0}, {}},
	"empty":  {{1, 2, 0}, {}},
}

var nsVer = xmp.NewNamespace("vfver", "http://example.com/verif/ver/1.0/", func(string) xmp.Model { return &verModel{} })

func (x *verModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsVer} }
func (x *verModel) Can(n string) bool                 { return n == "vfver" }
func (x *verModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *verModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *verModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *verModel) CanTag(tag string) bool            { return false }
func (x *verModel) GetTag(tag string) (string, error) { return "", nil }
func (x *verModel) SetTag(tag, value string) error    { return nil }

var verOnce sync.Once

func (x *verModel) get(n string) string {
	switch n {
	case "any":
		return x.Any
	case "anya":
		return x.AnyA
	case "only":
		return x.Only
	case "from":
		return x.From
	case "froma":
		return x.FromA
	case "until":
		return x.Until
	case "untila":
		if x.UntilA == 0 {
			return ""
		}
		return fmt.Sprint(x.UntilA)
	case "span":
		return x.Span
	case "spanl":
		return strings.Join(x.SpanL, "|")
	case "old":
		return x.Old
	case "new":
		if x.New == 0 {
			return ""
		}
		return fmt.Sprint(x.New)
	case "empty":
		return x.Empty
	}
	panic(n)
}

// bounds are the versions around which fields come and go.
var bounds = []triple{{1, 2, 0}, {2, 0, 1}, {2, 3, 4}, {1, 10, 0}, {2, 0, 0}, {1, 9, 9}, {2, 3, 0}, {2, 4, 0}}

func nearBound(r *rand.Rand) triple {
	if r.Intn(8) == 0 {
		return triple{}
	}
	v := bounds[r.Intn(len(bounds))]
	switch r.Intn(4) {
	case 0:
		v[2]++
	case 1:
		switch {
		case v[2] > 0:
			v[2]--
		case v[1] > 0:
			v[1]--
			v[2] = 9
		default:
			v[0]--
			v[1] = 9
		}
	case 2:
		if r.Intn(2) == 0 {
			return randTriple(r)
		}
	}
	return v
}

func versionModel(c *Case) {
	verOnce.Do(func() { xmp.Register(nsVer) })
	r := c.R
	v := nearBound(r)
	g := newGdoc()
	want := map[string]string{}
	q := func(n string) qname { return qname{nsVer.GetURI(), n} }
	g.pfx[nsVer.GetURI()] = "vfver"
	for _, n := range sortedKeys(verRange) {
		if n == "old" || n == "new" || r.Intn(3) == 0 {
			continue
		}
		var x *val
		s := genToken(r)
		switch n {
		case "untila":
			s = fmt.Sprint(1 + r.Intn(1000))
			x = sval(s)
		case "spanl":
			s = "a|" + s
			x = &val{kind: 'a', typ: "Seq", items: []*val{sval("a"), sval(s[2:])}}
		default:
			x = sval(s)
		}
		g.props[q(n)] = x
		want[n] = s
	}
	if r.Intn(2) == 0 {
		s := fmt.Sprint(1 + r.Intn(1000))
		g.props[q("twice")] = sval(s)
		// without a version the first field of the name is meant
		if v.in(verRange["old"][0], verRange["old"][1]) {
			want["old"] = s
		} else {
			want["new"] = s
		}
	}
	if len(g.props) == 0 {
		return
	}
	for n := range want {
		if !v.in(verRange[n][0], verRange[n][1]) {
			delete(want, n)
		}
	}
	st := randStyle(r)
	b := writeXMP(g, st, r)
	c.Art("packet.xmp", b)
	c.Seen("model", v, strings.Join(sortedKeys(want), " "))
	c.Event("packet decoded for a version")
	d := decodeVersion(c, b, v)
	if d == nil {
		return
	}
	defer d.Close()
	m, _ := d.FindModel(nsVer).(*verModel)
	if m == nil {
		c.Fail("model", "no model for version %v", v)
		return
	}
	for n := range verRange {
		c.Eval(1)
		if got := m.get(n); got != want[n] {
			c.Fail("field "+n, "version %v: field %s (%v) is %q, want %q", v, n, verRange[n], got, want[n])
		}
	}
	sameProps(c, d, b, fmt.Sprint("version ", v))
}

func decodeVersion(c *Case, b []byte, v triple) *xmp.Document {
	d := xmp.NewDocument()
	dec := xmp.NewDecoder(bytes.NewReader(b))
	dec.SetVersion(v.v())
	if err := dec.Decode(d); err != nil {
		c.Fail("decode", "version %v: %v", v, err)
		return nil
	}
	return d
}

// sameProps: whatever a version does not know is kept as it is.
func sameProps(c *Case, d *xmp.Document, b []byte, what string) {
	in, err := readXMP(b)
	if err != nil {
		c.Fail("harness", "%v", err)
		return
	}
	out, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("write", "%s: %v", what, err)
		return
	}
	p, err := readXMP(out)
	if err != nil {
		c.Fail("read", "%s: %v", what, err)
		return
	}
	c.Eval(len(in.props))
	for k, x := range in.props {
		y := p.props[k]
		if y == nil || x.String() != y.String() {
			c.Art("out.xmp", out)
			c.Fail("kept", "%s: property %v was %v and is %v", what, k, x, y)
		}
	}
}

// versionID3 decodes ID3 properties as ID3v2.3 and v2.4.
func versionID3(c *Case) {
	r := c.R
	g := genDoc(r, genOpt{models: []string{"id3"}, maxProps: 12})
	if len(g.props) == 0 {
		return
	}
	v := nearBound(r)
	tag := map[string]string{}
	for _, n := range nativeTags["id3"] {
		if n.Text {
			tag[n.Prop] = n.Tag
		}
	}
	b := writeXMP(g, randStyle(r), r)
	c.Art("packet.xmp", b)
	d := decodeVersion(c, b, v)
	if d == nil {
		return
	}
	defer d.Close()
	c.Event("ID3 decoded for a version")
	var names []string
	m := id3.FindModel(d)
	if m == nil {
		c.Fail("model", "no ID3 model")
		return
	}
	for k, x := range g.props {
		n := "id3:" + k.local
		if tag[n] == "" || x.kind != 's' {
			continue
		}
		var lo, hi triple
		if strings.HasSuffix(k.local, "_v23") {
			hi = triple{2, 3, 0}
		} else if id3v24[k.local] {
			lo = triple{2, 4, 0}
		}
		names = append(names, k.local)
		// a value the model took is found at its path, others as nodes
		c.Eval(1)
		got, err := m.GetTag(tag[n])
		has := got != "" && !zeroText(&nativeTag{Type: "x"}, got)
		if err != nil || has != v.in(lo, hi) && !zeroText(&nativeTag{Type: "x"}, x.text) {
			c.Fail("id3 "+k.local, "version %v: %s=%q is tag %s=%q (%v)", v, n, x.text, tag[n], got, err)
		}
	}
	sameProps(c, d, b, fmt.Sprint("version ", v))
	c.Seen("id3", v, strings.Join(names, " "))
}

var id3v24 = map[string]bool{}

func init() {
	for _, n := range strings.Fields("audioSeekPointIndex equalization relativeVolumeAdjustment seek signature encodingTime originalReleaseTime recordingTime releaseTime taggingTime involvedPeopleList musicianCreditsList mood producedNotice albumSortOrder performerSortOrder titleSortOrder setSubtitle") {
		id3v24[n] = true
	}
	register(&Property{ID: "P24",
		Rule: "versions are ordered by number and a decoder of a version takes exactly the fields of that version and keeps the rest",
		Scenarios: []Scenario{
			{"order", 60000, 900000, versionOrder},
			{"model", 10000, 120000, versionModel},
			{"id3", 3000, 40000, versionID3},
		}})
}
