package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/xmp"
)

// Native tags: a reference of what was set against the tag functions and the
// properties in the packet.

var morePool = map[string][]string{
	"exif.Date":       {"2017:05:06 07:08:09", "1999:12:31 23:59:59"},
	"exif.ByteArray":  {"1", "1 2 255", "0 7"},
	"xmp.StringList":  {"a", "a\nb", "one\ntwo words\nthree"},
	"xmp.StringArray": {"a", "a\nb", "one\ntwo words"},
	"id3.Time23":      {"0000"},
}

// tagText makes a text for a tag, "" if there is none.
func tagText(r *rand.Rand, n *nativeTag) string {
	if !n.Text {
		return ""
	}
	if n.Type == "id3.Bool" {
		return pick(r, "0", "1")
	}
	if v := leafVal(r, &Schema{Type: n.Type}); v != nil {
		return strings.TrimSpace(v.text)
	}
	if p := morePool[n.Type]; len(p) > 0 {
		return p[r.Intn(len(p))]
	}
	return ""
}

// zeroText tells whether a text is the zero value of its type, which tags
// without a value cannot be told from.
func zeroText(n *nativeTag, s string) bool {
	switch n.Type {
	case "string", "[]uint8":
		return false
	}
	return strings.Trim(s, "0.,:/- ") == "" || strings.EqualFold(s, "false") || s == "None" || s == "no"
}

func isNum(t string) bool {
	switch t {
	case "int", "int64", "float32", "float64":
		return true
	}
	return false
}

// appends: types that collect values
func appends(t string) bool {
	return t == "xmp.StringList" || t == "xmp.StringArray" || t == "id3.Genre"
}

func asTag(got, want string, n *nativeTag) bool {
	return got == want || got == "" && zeroText(n, want)
}

// propTexts reads a property as the texts a tag of it may have.
func propTexts(v *val) []string {
	switch v.kind {
	case 's':
		return []string{v.text}
	case 'a':
		var l []string
		for _, i := range v.items {
			l = append(l, i.text)
		}
		return []string{strings.Join(l, "\n"), strings.Join(l, ","), strings.Join(l, ", "), strings.Join(l, " ")}
	}
	return nil
}

// where finds the properties a model's tags are written to.
func where(d *rdfDoc, at string) map[qname]*val {
	if at == "" {
		return d.props
	}
	v := d.props[golden.q(at)]
	if v == nil {
		return nil
	}
	return v.fields
}

func tagSchema(prefix, at, prop string) *Schema {
	for _, ms := range golden.Models {
		if ms.Prefix != prefix || !strings.HasPrefix(prop, prefix+":") {
			continue
		}
		m := ms.Props
		if at != "" {
			if m[at] == nil {
				return nil
			}
			m = m[at].Fields
		}
		s := m[prop]
		if s == nil || !usable(s) || s.Kind == "struct" || s.Kind == "other" {
			return nil
		}
		return s
	}
	return nil
}

func checkList(c *Case, what string, m tagger, tags []nativeTag, set map[string]string) {
	l, ok := m.(tagLister)
	if !ok {
		return
	}
	c.Eval(1)
	got, err := l.ListTags()
	if err != nil {
		c.Fail("list", "%s: ListTags: %v", what, err)
		return
	}
	compareList(c, what, got, tags, set)
}

func compareList(c *Case, what string, got xmp.TagList, tags []nativeTag, set map[string]string) {
	seen := map[string]bool{}
	by := map[string]*nativeTag{}
	for i := range tags {
		by[tags[i].Tag] = &tags[i]
	}
	for _, t := range got {
		if seen[t.Key] {
			c.Fail("list", "%s: ListTags has %q twice", what, t.Key)
		}
		seen[t.Key] = true
		n := by[t.Key]
		if n == nil {
			c.Fail("list", "%s: ListTags has %q, which is no tag", what, t.Key)
			continue
		}
		if w, ok := set[t.Key]; !ok || !asTag(t.Value, w, n) {
			c.Fail("list", "%s: ListTags has %q=%q, set was %q (%v)", what, t.Key, t.Value, w, ok)
		}
	}
	for k, w := range set {
		if !seen[k] && !zeroText(by[k], w) {
			c.Fail("list", "%s: %q=%q is missing from ListTags", what, k, w)
		}
	}
}

func tagsSet(c *Case) {
	tm := tagModels[c.Idx%len(tagModels)]
	tags := nativeTags[tm.name]
	m := tm.make()
	top := m
	var info *qt.QtInfo
	if tm.at != "" {
		// half of the time through the model that holds all parts
		info = &qt.QtInfo{}
		if c.R.Intn(2) == 0 {
			top = info
		} else {
			switch v := m.(type) {
			case *qt.QtUserdata:
				info.Udta = v
			case *qt.QtMetadata:
				info.Mdta = v
			case *qt.QtPlayer:
				info.Player = v
			case *qt.QtProApps:
				info.ProApps = v
			}
		}
	}
	what := tm.name
	set := map[string]string{}
	var log []string
	check := func(n *nativeTag) {
		c.Eval(1)
		got, err := top.GetTag(n.Tag)
		w, ok := set[n.Tag]
		if err != nil {
			c.Fail("get "+tm.name+" "+n.Type, "%s: GetTag(%q): %v after %v", what, n.Tag, err, log)
		} else if !ok && got != "" || ok && !asTag(got, w, n) {
			c.Fail("get "+tm.name+" "+n.Type, "%s: GetTag(%q) is %q, want %q after %v", what, n.Tag, got, w, log)
		}
	}
	for i, k := 0, 1+c.R.Intn(24); i < k && !c.failed(); i++ {
		n := &tags[c.R.Intn(len(tags))]
		if c.R.Intn(3) > 0 && len(set) > 0 {
			// again
			ks := sortedKeys(set)
			t := ks[c.R.Intn(len(ks))]
			for j := range tags {
				if tags[j].Tag == t {
					n = &tags[j]
				}
			}
			if c.R.Intn(2) == 0 {
				n = &tags[c.R.Intn(len(tags))]
			}
		}
		switch c.R.Intn(8) {
		case 0:
			// no such tag
			t := []string{"zzzz", "no.such.tag", "XXXZ", n.Tag + "z", strings.ToUpper(n.Tag) + "~"}[c.R.Intn(5)]
			if tm.any {
				continue
			}
			err := top.SetTag(t, "text")
			if top != tagger(info) {
				if err == nil {
					c.Fail("unknown", "%s: SetTag(%q) is accepted", what, t)
				}
				if top.CanTag(t) {
					c.Fail("unknown", "%s: CanTag(%q)", what, t)
				}
				if _, err := top.GetTag(t); err == nil {
					c.Fail("unknown", "%s: GetTag(%q) is accepted", what, t)
				}
			} else if top.CanTag(t) {
				c.Fail("unknown", "%s: CanTag(%q)", what, t)
			}
			c.Event("unknown tag")
			c.Eval(3)
		case 1:
			// no such value
			if isNum(n.Type) {
				s := pick(c.R, "abc", "1x", "--1", "1,5,", "0x", "")
				if err := top.SetTag(n.Tag, s); err == nil {
					c.Fail("bad value", "%s: SetTag(%q,%q) is accepted", what, n.Tag, s)
				}
				c.Event("bad value")
				c.Eval(1)
				check(n)
			} else if n.Type == "xmp.RationalArray" || n.Type == "exif.ComponentArray" || n.Type == "xmp.IntList" {
				err := top.SetTag(n.Tag, "text")
				got, gerr := top.GetTag(n.Tag)
				if err == nil && (gerr == nil && got == "") {
					c.Fail("lost", "%s: SetTag(%q) is accepted and GetTag has nothing", what, n.Tag)
				}
				c.Event("tag without a text form")
				c.Eval(1)
			}
		default:
			s := tagText(c.R, n)
			if s == "" {
				continue
			}
			if _, ok := set[n.Tag]; ok && appends(n.Type) {
				continue
			}
			if !top.CanTag(n.Tag) {
				c.Fail("can "+tm.name, "%s: CanTag(%q) is false", what, n.Tag)
			}
			t := n.Tag
			if tm.name == "exif" && c.R.Intn(3) == 0 {
				t = "0x" + strings.ToUpper(t[2:])
			}
			if !top.CanTag(t) {
				c.Fail("can "+tm.name, "%s: CanTag(%q) is false", what, t)
			}
			log = append(log, fmt.Sprintf("%s=%q", t, s))
			if err := top.SetTag(t, s); err != nil {
				c.Fail("set "+tm.name+" "+n.Type, "%s: SetTag(%q,%q): %v", what, t, s, err)
				return
			}
			set[n.Tag] = s
			c.Event("tag set")
			c.Seen(tm.name, n.Tag)
			check(n)
			if !top.CanTag(n.Tag) {
				c.Fail("can "+tm.name, "%s: CanTag(%q) is false once it is set", what, n.Tag)
			}
		}
	}
	for i := range tags {
		if tags[i].Text {
			check(&tags[i])
		}
	}
	checkList(c, what, top, tags, set)
	if c.failed() {
		return
	}
	// the properties in a packet
	d := xmp.NewDocument()
	var err error
	if info != nil {
		_, err = d.AddModel(info)
	} else {
		_, err = d.AddModel(m)
	}
	if err != nil {
		c.Fail("packet", "%s: AddModel: %v", what, err)
		return
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("packet "+tm.name, "%s: Marshal after %v: %v", what, log, err)
		return
	}
	x, err := readXMP(b)
	if err != nil {
		c.Art("out.xmp", b)
		c.Fail("packet "+tm.name, "%s: %v after %v", what, err, log)
		return
	}
	props := where(x, tm.at)
	for i := range tags {
		n := &tags[i]
		s := tagSchema(tm.prefix, tm.at, n.Prop)
		if s == nil || n.Ver != "" {
			continue
		}
		c.Eval(1)
		w, ok := set[n.Tag]
		v := props[golden.q(n.Prop)]
		if v == nil {
			if ok && !zeroText(n, w) {
				c.Art("out.xmp", b)
				c.Fail("packet "+tm.name+" "+n.Type, "%s: %s=%q is set, %s is missing from the packet", what, n.Tag, w, n.Prop)
			}
			continue
		}
		found := false
		for _, t := range propTexts(v) {
			found = found || strings.TrimSpace(t) == w
		}
		if ok && !found || !ok && tm.name != "riff" && len(sharing(tags, n.Prop)) < 2 && n.Text && !zeroProp(v) {
			c.Art("out.xmp", b)
			c.Fail("packet "+tm.name+" "+n.Type, "%s: %s=%q (%v), the packet has %s=%q", what, n.Tag, w, ok, n.Prop, propTexts(v))
		}
	}
	// and back
	e := xmp.NewDocument()
	if err := xmp.Unmarshal(b, e); err != nil {
		c.Fail("reread", "%s: %v", what, err)
		return
	}
	var back tagger
	if f := e.FindModel(d.FindNs(tm.prefix, "")); f != nil {
		back, _ = f.(tagger)
	}
	if back == nil && len(set) > 0 {
		for k, v := range set {
			for i := range tags {
				if tags[i].Tag == k && tagSchema(tm.prefix, tm.at, tags[i].Prop) != nil && !zeroText(&tags[i], v) {
					c.Fail("reread", "%s: %s=%q is set, the packet has no model", what, k, v)
				}
			}
		}
		return
	}
	for i := range tags {
		n := &tags[i]
		w, ok := set[n.Tag]
		if !ok || tagSchema(tm.prefix, tm.at, n.Prop) == nil {
			continue
		}
		c.Eval(1)
		got, err := back.GetTag(n.Tag)
		if err != nil || !asTag(got, w, n) {
			c.Art("out.xmp", b)
			c.Fail("reread "+tm.name+" "+n.Type, "%s: %s=%q was set, GetTag of the packet is %q (%v)", what, n.Tag, w, got, err)
		}
	}
	c.Event("packets")
}

func zeroProp(v *val) bool {
	return v.kind == 's' && (strings.Trim(v.text, "0.,:/- ") == "" || strings.EqualFold(v.text, "false"))
}

func sharing(tags []nativeTag, prop string) (l []string) {
	for _, t := range tags {
		if t.Prop == prop {
			l = append(l, t.Tag)
		}
	}
	return
}

// qtParts sets tags of all parts through the one model.
func qtParts(c *Case) {
	info := &qt.QtInfo{}
	sets := map[string]map[string]string{}
	var all []nativeTag
	parts := []string{"udta", "mdta", "player", "proapps"}
	for _, p := range parts {
		sets[p] = map[string]string{}
		all = append(all, nativeTags[p]...)
	}
	var log []string
	var chk *chunk
	var emb *gdoc
	for i, k := 0, 1+c.R.Intn(20); i < k; i++ {
		if c.R.Intn(12) == 0 {
			chk = newChunk(c.R)
			t := pick(c.R, "iXML", "info.ixml.xml", "info.ixml.metadata", "info.ixml.info")
			if !info.CanTag(t) {
				c.Fail("ixml", "CanTag(%q) is false", t)
			}
			if err := info.SetTag(t, chk.text(c.R)); err != nil {
				c.Fail("ixml", "SetTag(%q): %v", t, err)
				return
			}
			log = append(log, t)
			c.Event("iXML tag")
			continue
		}
		if c.R.Intn(12) == 0 {
			emb = genDoc(c.R, genOpt{models: []string{"crs", "xmpTPg"}, maxProps: 6})
			if !info.CanTag("XMP_") {
				c.Fail("xmp", "CanTag(XMP_) is false")
			}
			if err := info.SetTag("XMP_", string(writeXMP(emb, randStyle(c.R), c.R))); err != nil {
				c.Fail("xmp", "SetTag(XMP_): %v", err)
				return
			}
			log = append(log, "XMP_")
			c.Event("XMP tag")
			continue
		}
		p := parts[c.R.Intn(4)]
		tags := nativeTags[p]
		n := &tags[c.R.Intn(len(tags))]
		s := tagText(c.R, n)
		if _, ok := sets[p][n.Tag]; s == "" || ok && appends(n.Type) {
			continue
		}
		log = append(log, fmt.Sprintf("%s=%q", n.Tag, s))
		if err := info.SetTag(n.Tag, s); err != nil {
			c.Fail("set "+p, "SetTag(%q,%q): %v", n.Tag, s, err)
			return
		}
		sets[p][n.Tag] = s
		if c.R.Intn(10) == 0 {
			if err := info.SetTag("com.acme.tag", "x"); err != nil {
				c.Fail("other", "a tag of another vendor: %v", err)
			}
		}
		c.Event("tag set")
	}
	union := map[string]string{}
	for _, p := range parts {
		for i := range nativeTags[p] {
			n := &nativeTags[p][i]
			if !n.Text {
				continue
			}
			c.Eval(1)
			w, ok := sets[p][n.Tag]
			got, err := info.GetTag(n.Tag)
			if err != nil || !ok && got != "" || ok && !asTag(got, w, n) {
				c.Fail("get "+p, "GetTag(%q) is %q (%v), want %q after %v", n.Tag, got, err, w, log)
			}
		}
		for k, v := range sets[p] {
			union[k] = v
		}
	}
	checkList(c, "QtInfo", info, all, union)
	if c.failed() {
		return
	}
	d := xmp.NewDocument()
	d.AddModel(info)
	b, err := xmp.Marshal(d)
	if err != nil {
		c.Fail("packet", "Marshal: %v after %v", err, log)
		return
	}
	x, err := readXMP(b)
	if err != nil {
		c.Fail("packet", "%v after %v", err, log)
		return
	}
	if emb != nil {
		// properties of an embedded packet become properties of the document
		want, got := emb.rdfDoc.flat(), x.flat()
		c.Eval(len(want))
		for k, v := range want {
			if got[k] != v && k != "about" {
				c.Art("out.xmp", b)
				c.Fail("xmp", "%s=%q of the XMP_ tag, the document has %q", k, v, got[k])
				return
			}
		}
	}
	if chk != nil {
		m := d.FindModel(ixml.NsIXML)
		c.Eval(1)
		if m == nil {
			c.Fail("ixml", "no iXML model after %v", log)
			return
		}
		chk.sameChunk(c, "tag", m.(*ixml.IXML))
	}
	c.Seen(len(union), emb != nil, chk != nil)
}

// id3Names: names of other ID3 versions, after the change notes of ID3v2.3
// and v2.4 (frames whose layout changed are left out).
var id3Names = [][2]string{
	{"CNT", "PCNT"}, {"COM", "COMM"}, {"MCI", "MCDI"}, {"MLL", "MLLT"}, {"STC", "SYTC"}, {"TAL", "TALB"}, {"TBP", "TBPM"}, {"TCM", "TCOM"}, {"TCO", "TCON"},
	{"TCR", "TCOP"}, {"TDY", "TDLY"}, {"TEN", "TENC"}, {"TFT", "TFLT"}, {"TKE", "TKEY"}, {"TLA", "TLAN"}, {"TLE", "TLEN"}, {"TMT", "TMED"}, {"TOA", "TOPE"},
	{"TOF", "TOFN"}, {"TOL", "TOLY"}, {"TOR", "TORY"}, {"TOT", "TOAL"}, {"TP1", "TPE1"}, {"TP2", "TPE2"}, {"TP3", "TPE3"}, {"TP4", "TPE4"}, {"TPA", "TPOS"},
	{"TPB", "TPUB"}, {"TRC", "TSRC"}, {"TRK", "TRCK"}, {"TSI", "TSIZ"}, {"TSS", "TSSE"}, {"TT1", "TIT1"}, {"TT2", "TIT2"}, {"TT3", "TIT3"}, {"TXT", "TEXT"},
	{"TXX", "TXXX"}, {"TYE", "TYER"}, {"UFI", "UFID"}, {"ULT", "USLT"}, {"WAF", "WOAF"}, {"WAR", "WOAR"}, {"WAS", "WOAS"}, {"WCM", "WCOM"}, {"WCP", "WCOP"},
	{"WPB", "WPUB"}, {"WXX", "WXXX"}, {"TCP", "TCMP"}, {"TST", "TSOT"}, {"TSA", "TSOA"}, {"TSP", "TSOP"}, {"TSC", "TSOC"}, {"TS2", "TSO2"},
	{"0x0003", "TIT2"}, {"0x0021", "TPE1"}, {"0x003f", "TALB"}, {"0x005d", "TYER"}, {"0x0061", "COMM"}, {"0x007d", "TRCK"}, {"0x007f", "TCON"},
}

func tagNames(c *Case) {
	pair := id3Names[c.Idx%len(id3Names)]
	tags := nativeTags["id3"]
	var n *nativeTag
	for i := range tags {
		if tags[i].Tag == pair[1] {
			n = &tags[i]
		}
	}
	for i := 0; i < 4; i++ {
		s := tagText(c.R, n)
		if s == "" {
			return
		}
		m := &id3.ID3{}
		a, b := pair[c.R.Intn(2)], pair[c.R.Intn(2)]
		if !m.CanTag(a) {
			c.Fail("names", "id3: CanTag(%q) is false", a)
		}
		if err := m.SetTag(a, s); err != nil {
			c.Fail("names", "id3: SetTag(%q,%q): %v", a, s, err)
			return
		}
		got, err := m.GetTag(b)
		c.Eval(2)
		if err != nil || !asTag(got, s, n) {
			c.Fail("names", "id3: SetTag(%q,%q), GetTag(%q) is %q (%v)", a, s, b, got, err)
		}
		l, err := m.ListTags()
		if err != nil {
			c.Fail("names", "id3: ListTags: %v", err)
			return
		}
		compareList(c, "id3 "+a, l, tags, map[string]string{n.Tag: s})
		t := pick(c.R, "XYZ", "ZZ", "TXYZW", "0x0100", "")
		if m.CanTag(t) || m.SetTag(t, "x") == nil {
			c.Fail("names", "id3: %q is taken for a tag", t)
		}
		c.Seen(a, b)
	}
	// EXIF tags are numbers: digits in either case
	et := nativeTags["exif"]
	n = &et[c.R.Intn(len(et))]
	if s := tagText(c.R, n); s != "" {
		up := "0x" + strings.ToUpper(n.Tag[2:])
		a, b := n.Tag, up
		if c.R.Intn(2) == 0 {
			a, b = b, a
		}
		m := &exif.ExifInfo{}
		err := m.SetTag(a, s)
		got, gerr := m.GetTag(b)
		c.Eval(1)
		if err != nil || gerr != nil || !asTag(got, s, n) || !m.CanTag(a) || !m.CanTag(b) {
			c.Fail("names", "exif: SetTag(%q,%q) %v, GetTag(%q) is %q (%v), CanTag %v %v", a, s, err, b, got, gerr, m.CanTag(a), m.CanTag(b))
		}
	}
	c.Event("names")
}

// A model of the user's own.
type VtInner struct {
	Depth int `vt:"DPTH" xmp:"vt:depth"`
}

type vtStruct struct{ A string }

type vtModel struct {
	VtInner
	Title  string         `vt:"TITL" xmp:"vt:title"`
	Count  int64          `vt:"CNT8" xmp:"vt:count"`
	Small  int8           `vt:"SMAL" xmp:"vt:small"`
	U      uint16         `vt:"U16_" xmp:"vt:u"`
	F32    float32        `vt:"FL32" xmp:"vt:f32"`
	F64    float64        `vt:"FL64" xmp:"vt:f64"`
	B      bool           `vt:"BOOL" xmp:"vt:b"`
	Raw    []byte         `vt:"RAW_" xmp:"vt:raw"`
	PInt   *int           `vt:"PINT" xmp:"vt:pint"`
	PStr   *string        `vt:"PSTR" xmp:"vt:pstr"`
	PRaw   *[]byte        `vt:"PRAW" xmp:"vt:praw"`
	D      xmp.Date       `vt:"DATE" xmp:"vt:date"`
	PD     *xmp.Date      `vt:"PDAT" xmp:"vt:pdate"`
	R      xmp.Rational   `vt:"RATI" xmp:"vt:ratio"`
	PR     *xmp.Rational  `vt:"PRAT" xmp:"vt:pratio"`
	Alt    xmp.AltString  `vt:"ALTS" xmp:"vt:alt"`
	PAlt   *xmp.AltString `vt:"PALT" xmp:"vt:palt"`
	Zero   int            `vt:"ZERO,empty" xmp:"vt:zero"`
	St     vtStruct       `vt:"STRU" xmp:"vt:struct"`
	Arr    []int          `vt:"ARR_" xmp:"vt:arr"`
	Dotted string         `vt:"com.acme.sys" xmp:"vt:sys"`
	Pre    string         `vt:"vt:named" xmp:"vt:named"`
	Hidden string         `vt:"-" xmp:"vt:hidden"`
}

func (*vtModel) Can(ns string) bool              { return ns == "vt" }
func (*vtModel) SyncModel(*xmp.Document) error   { return nil }
func (*vtModel) SyncFromXMP(*xmp.Document) error { return nil }
func (*vtModel) SyncToXMP(*xmp.Document) error   { return nil }
func (*vtModel) CanTag(string) bool              { return true }
func (*vtModel) GetTag(string) (string, error)   { return "", nil }
func (*vtModel) SetTag(a, b string) error        { return nil }
func (*vtModel) Namespaces() xmp.NamespaceList {
	return xmp.NamespaceList{&xmp.Namespace{Name: "vt", URI: "http://ns.acme.com/vt/"}}
}

type vtField struct {
	tag   string
	value func(r *rand.Rand) string
	bad   []string
	zero  string // text of the zero value
}

var vtFields = []vtField{
	{"DPTH", func(r *rand.Rand) string { return fmt.Sprint(r.Intn(2000) - 1000) }, []string{"x", "1.5", "99999999999999999999"}, "0"},
	{"TITL", func(r *rand.Rand) string { return strings.TrimSpace(genText(r)) }, nil, ""},
	{"CNT8", func(r *rand.Rand) string { return fmt.Sprint(r.Int63() - r.Int63()) }, []string{"x", "9223372036854775808"}, "0"},
	{"SMAL", func(r *rand.Rand) string { return fmt.Sprint(r.Intn(256) - 128) }, []string{"128", "-129", "3.0"}, "0"},
	{"U16_", func(r *rand.Rand) string { return fmt.Sprint(r.Intn(65536)) }, []string{"-1", "65536"}, "0"},
	{"FL32", func(r *rand.Rand) string { return fmt.Sprint(float64(r.Intn(4000)-2000) / 8) }, []string{"x", "1e99"}, "0"},
	{"FL64", func(r *rand.Rand) string { return fmt.Sprint(float64(r.Intn(4000)-2000) / 8) }, []string{"x", "1,5"}, "0"},
	{"BOOL", func(r *rand.Rand) string { return pick(r, "true", "false") }, []string{"yes", "2", ""}, "false"},
	{"RAW_", func(r *rand.Rand) string { return genToken(r) }, nil, ""},
	{"PINT", func(r *rand.Rand) string { return fmt.Sprint(r.Intn(2000) - 1000) }, []string{"x", "1.5"}, "nil"},
	{"PSTR", func(r *rand.Rand) string { return strings.TrimSpace(genText(r)) }, nil, "nil"},
	{"PRAW", func(r *rand.Rand) string { return genToken(r) }, nil, "nil"},
	{"DATE", func(r *rand.Rand) string { return pick(r, golden.Types["xmp.Date"]...) }, []string{"yesterday", "2017-13-01"}, ""},
	{"PDAT", func(r *rand.Rand) string { return pick(r, golden.Types["xmp.Date"]...) }, []string{"yesterday", "2017-13-01"}, "nil"},
	{"RATI", func(r *rand.Rand) string { return fmt.Sprintf("%d/%d", r.Intn(50)-20, 1+r.Intn(9)) }, []string{"x", "a/b"}, ""},
	{"PRAT", func(r *rand.Rand) string { return fmt.Sprintf("%d/%d", r.Intn(50)-20, 1+r.Intn(9)) }, []string{"x", "a/b"}, "nil"},
	{"ZERO", func(r *rand.Rand) string { return fmt.Sprint(r.Intn(3)) }, []string{"x"}, "empty"},
	{"com.acme.sys", func(r *rand.Rand) string { return genToken(r) }, nil, ""},
	{"vt:named", func(r *rand.Rand) string { return genToken(r) }, nil, ""},
}

func ownModel(c *Case) {
	m := &vtModel{}
	set := map[string]string{}
	alts := map[string]*alt{"ALTS": {by: map[string]string{}}, "PALT": {by: map[string]string{}}}
	langSet := []string{"en", "de", "pt-BR", "fr"}
	var log []string
	want := func(f *vtField) string {
		s, ok := set[f.tag]
		if f.zero == "empty" {
			if !ok {
				return "0"
			}
			return s
		}
		if !ok || s == f.zero {
			return ""
		}
		return s
	}
	name := func(f *vtField) string {
		if f.tag == "vt:named" && c.R.Intn(2) == 0 {
			return "named"
		}
		return f.tag
	}
	for i, k := 0, 1+c.R.Intn(30); i < k && !c.failed(); i++ {
		f := &vtFields[c.R.Intn(len(vtFields))]
		c.Eval(1)
		switch c.R.Intn(10) {
		case 0:
			if len(f.bad) > 0 {
				s := f.bad[c.R.Intn(len(f.bad))]
				log = append(log, fmt.Sprintf("%s=%q!", f.tag, s))
				if xmp.SetNativeField(m, f.tag, s) == nil {
					c.Fail("bad", "SetNativeField(%s,%q) is accepted", f.tag, s)
				}
			}
		case 1:
			t := pick(c.R, "NONE", "Title", "title", "vt:title", "Hidden", "-", "TITL2", "tit", "STRU", "ARR_", "ALTS")
			log = append(log, t+"!")
			if xmp.SetNativeField(m, t, "1") == nil {
				c.Fail("unknown", "SetNativeField(%s) is accepted", t)
			}
			if t != "STRU" && t != "ARR_" && t != "ALTS" {
				if _, err := xmp.GetNativeField(m, t); err == nil {
					c.Fail("unknown", "GetNativeField(%s) is accepted", t)
				}
			}
		case 2, 3, 4:
			t := pick(c.R, "ALTS", "PALT")
			l, s := pick(c.R, langSet...), genToken(c.R)
			if c.R.Intn(4) == 0 {
				l = ""
			}
			log = append(log, fmt.Sprintf("%s[%s]=%q", t, l, s))
			if err := xmp.SetLocaleField(m, l, t, s); err != nil {
				c.Fail("locale", "SetLocaleField(%s,%s): %v", l, t, err)
				return
			}
			alts[t].set(l, s)
			c.Event("locale tags set")
		case 5:
			t := pick(c.R, "TITL", "ARR_", "NONE", "PINT", "RAW_")
			if xmp.SetLocaleField(m, "en", t, "x") == nil {
				c.Fail("locale", "SetLocaleField(%s) is accepted", t)
			}
			if _, err := xmp.GetLocaleField(m, "en", t); err == nil {
				c.Fail("locale", "GetLocaleField(%s) is accepted", t)
			}
		default:
			s := f.value(c.R)
			if s == "" {
				continue
			}
			log = append(log, fmt.Sprintf("%s=%q", f.tag, s))
			if err := xmp.SetNativeField(m, name(f), s); err != nil {
				c.Fail("set", "SetNativeField(%s,%q): %v", f.tag, s, err)
				return
			}
			set[f.tag] = s
			c.Event("own tags set")
		}
		f = &vtFields[c.R.Intn(len(vtFields))]
		if got, err := xmp.GetNativeField(m, name(f)); err != nil || got != want(f) {
			c.Fail("get", "GetNativeField(%s) is %q (%v), want %q after %v", f.tag, got, err, want(f), log)
		}
		t := pick(c.R, "ALTS", "PALT")
		l := pick(c.R, langSet...)
		if got, err := xmp.GetLocaleField(m, l, t); err != nil || got != alts[t].get(l) {
			c.Fail("locale", "GetLocaleField(%s,%s) is %q (%v), want %q after %v", l, t, got, err, alts[t].get(l), log)
		}
	}
	got, err := xmp.ListNativeFields(m)
	if err != nil {
		c.Fail("list", "ListNativeFields: %v after %v", err, log)
		return
	}
	var have, exp []string
	for _, t := range got {
		have = append(have, fmt.Sprintf("%s %q", t.Key, t.Value))
	}
	for i := range vtFields {
		f := &vtFields[i]
		if s := want(f); s != "" {
			exp = append(exp, fmt.Sprintf("%s %q", f.tag, s))
		}
	}
	for t, a := range alts {
		if a.has {
			exp = append(exp, fmt.Sprintf("%s %q", t, a.text))
		}
		for l, s := range a.by {
			if l != a.lang {
				exp = append(exp, fmt.Sprintf("%s %q", t, s))
			}
		}
	}
	sort.Strings(have)
	sort.Strings(exp)
	c.Eval(len(exp))
	if !reflect.DeepEqual(have, exp) && len(have)+len(exp) > 0 {
		c.Fail("list", "ListNativeFields: %s after %v", head(strDiff(exp, have), 4), log)
	}
	c.Seen(len(set), alts["ALTS"].has, alts["PALT"].has)
}

func init() {
	register(&Property{ID: "P21", Rule: "every tag set through a model's tag functions reads back, is listed and stands in the packet with its text, and refused ones change nothing",
		Scenarios: []Scenario{
			{"tags", 9000, 120000, tagsSet},
			{"quicktime", 2500, 30000, qtParts},
			{"names", 1500, 12000, tagNames},
			{"own model", 6000, 80000, ownModel},
			{"field tags", 2000, 30000, fieldTags},
		}})
}
