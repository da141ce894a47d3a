package main

import (
	"encoding/xml"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/models/ixml"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// iXML chunks: a generator of chunks with their meaning (from the iXML
// specification) as XMP values and as the chunk a current writer produces.

const ixmlURI = "http://ns.adobe.com/ixml/1.0/"

// celem is one element of a chunk.
type celem struct {
	tag  string
	text string
	attr [][2]string
	kids []*celem
}

func (e *celem) flat(path string, out map[string]string) {
	path += "/" + e.tag
	for _, a := range e.attr {
		out[path+"@"+a[0]] = a[1]
	}
	if t := strings.TrimSpace(e.text); t != "" {
		out[path] = t
	}
	n := map[string]int{}
	for _, k := range e.kids {
		p := path
		if i := n[k.tag]; i > 0 {
			p += fmt.Sprintf("[%d]", i)
		}
		n[k.tag]++
		k.flat(p, out)
	}
}

func elToChunk(e *el) *celem {
	c := &celem{tag: e.local, text: e.text}
	if e.prefix != "" {
		c.tag = e.prefix + ":" + e.local
	}
	for _, a := range e.attrs {
		n := a.Name.Local
		if a.Name.Space != "" {
			n = a.Name.Space + ":" + n
		}
		c.attr = append(c.attr, [2]string{n, a.Value})
	}
	for _, k := range e.kids {
		c.kids = append(c.kids, elToChunk(k))
	}
	return c
}

func (e *celem) write(b *strings.Builder, r *rand.Rand, nl string) {
	b.WriteString("<" + e.tag)
	for _, a := range e.attr {
		b.WriteString(" " + a[0] + `="` + escText(a[1], '"', &style{}, nil) + `"`)
	}
	if e.text == "" && len(e.kids) == 0 && r.Intn(2) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	switch {
	case e.text != "" && r.Intn(6) == 0 && !strings.Contains(e.text, "]]>"):
		b.WriteString("<![CDATA[" + e.text + "]]>")
	default:
		b.WriteString(escText(e.text, '"', &style{charref: r.Intn(4) == 0}, r))
	}
	in := nl
	if nl != "" {
		in += "\t"
	}
	for _, k := range e.kids {
		b.WriteString(in)
		if r.Intn(12) == 0 {
			b.WriteString("<!-- " + genToken(r) + " -->")
		}
		k.write(b, r, in)
	}
	if len(e.kids) > 0 {
		b.WriteString(nl)
	}
	b.WriteString("</" + e.tag + ">")
}

type cfield struct{ tag, name, kind string }

var chunkTop = []cfield{
	{"IXML_VERSION", "version", "version"}, {"PROJECT", "project", "s"}, {"SCENE", "sceneName", "s"}, {"TAPE", "soundRoll", "s"},
	{"TAKE", "take", "i"}, {"TAKE_TYPE", "takeType", "takes"}, {"CIRCLED", "circled", "b"}, {"FILE_UID", "fileUid", "s"},
	{"UBITS", "userBits", "s"}, {"NOTE", "note", "s"},
}

var chunkStructs = []struct {
	cfield
	fields []cfield
}{
	{cfield{"SPEED", "speed", "t"}, []cfield{
		{"NOTE", "note", "s"}, {"MASTER_SPEED", "masterSpeed", "r"}, {"CURRENT_SPEED", "currentSpeed", "r"}, {"TIMECODE_RATE", "timecodeRate", "r"},
		{"TIMECODE_FLAG", "timecodeFlag", "flag"}, {"FILE_SAMPLE_RATE", "fileSampleRate", "r"}, {"AUDIO_BIT_DEPTH", "audioBitDepth", "i"},
		{"DIGITIZER_SAMPLE_RATE", "digitizerSampleRate", "i"}, {"TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_HI", "timestampSamplesSinceMidnightHI", "i"},
		{"TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_LO", "timestampSamplesSinceMidnightLO", "i"}, {"TIMESTAMP_SAMPLE_RATE", "timestampSampleRate", "i"}}},
	{cfield{"HISTORY", "history", "t"}, []cfield{
		{"ORIGINAL_FILENAME", "originalFilename", "s"}, {"PARENT_FILENAME", "parentFilename", "s"}, {"PARENT_UID", "parentUID", "s"}}},
	{cfield{"FILE_SET", "fileSet", "t"}, []cfield{
		{"TOTAL_FILES", "totalFiles", "i"}, {"FAMILY_UID", "familyUID", "s"}, {"FAMILY_NAME", "familyName", "s"}, {"FILE_SET_INDEX", "fileSetIndex", "s"}}},
	{cfield{"USER", "userData", "t"}, []cfield{
		{"", "comment", "s"}, {"FULL_TITLE", "fullTitle", "s"}, {"DIRECTOR_NAME", "directorName", "s"}, {"PRODUCTION_NAME", "productionName", "s"},
		{"PRODUCTION_ADDRESS", "productionAddress", "s"}, {"PRODUCTION_EMAIL", "productionEmail", "s"}, {"PRODUCTION_PHONE", "productionPhone", "s"},
		{"PRODUCTION_NOTE", "productionNote", "s"}, {"SOUND_MIXER_NAME", "soundMixerName", "s"}, {"SOUND_MIXER_ADDRESS", "soundMixerAddress", "s"},
		{"SOUND_MIXER_EMAIL", "soundMixerEmail", "s"}, {"SOUND_MIXER_PHONE", "soundMixerPhone", "s"}, {"SOUND_MIXER_NOTE", "soundMixerNote", "s"},
		{"AUDIO_RECORDER_MODEL", "audioRecorderModel", "s"}, {"AUDIO_RECORDER_SERIAL_NUMBER", "audioRecorderSerialNumber", "s"}, {"AUDIO_RECORDER_FIRMWARE", "audioRecorderFirmware", "s"}}},
	{cfield{"LOCATION", "location", "t"}, []cfield{
		{"LOCATION_NAME", "locationName", "s"}, {"LOCATION_GPS", "locationGps", "s"}, {"LOCATION_ALTITUDE", "locationAltitude", "s"},
		{"LOCATION_TYPE", "locationType", "loctypes"}, {"LOCATION_TIME", "locationTime", "loctimes"}}},
}

var syncPointFields = []cfield{
	{"SYNC_POINT_TYPE", "syncPointType", "sptype"}, {"SYNC_POINT_FUNCTION", "syncPointFunction", "spfunc"}, {"SYNC_POINT_COMMENT", "syncPointComment", "s"},
	{"SYNC_POINT_LOW", "syncPointLow", "i"}, {"SYNC_POINT_HIGH", "syncPointHigh", "i"}, {"SYNC_POINT_EVENT_DURATION", "syncPointEventDuration", "i"},
}

var trackFields = []cfield{
	{"CHANNEL_INDEX", "channelIndex", "i"}, {"INTERLEAVE_INDEX", "interleaveIndex", "i"}, {"NAME", "name", "s"}, {"FUNCTION", "function", "func"},
}
var mixFields = []cfield{{"LEVEL", "level", "s"}, {"PAN", "pan", "s"}}

func iq(name string) qname { return qname{ixmlURI, name} }
func sval(s string) *val   { return &val{kind: 's', text: s} }

// leaf makes a value of a field: its text in the source, the text written
// in a chunk, the text in XMP.
func (f cfield) leaf(r *rand.Rand) (src, chunk, x string) {
	switch f.kind {
	case "s", "i", "r", "takes", "loctypes", "loctimes":
		if r.Intn(12) == 0 {
			return "", "", "" // an empty element
		}
	}
	switch f.kind {
	case "s":
		s := strings.TrimSpace(genText(r))
		return s, s, s
	case "i":
		n := r.Int63n(1 << uint(1+r.Intn(31)))
		s := strconv.FormatInt(n, 10)
		t := ""
		if n > 0 {
			t = s
		}
		if r.Intn(8) == 0 {
			s = " " + s + "\n"
		}
		return s, t, t
	case "b":
		v := r.Intn(2) == 0
		t := "FALSE"
		if v {
			t = "TRUE"
		}
		src = t
		if r.Intn(3) == 0 {
			src = strings.ToLower(t)
		}
		if !v {
			t = ""
		}
		return src, t, t
	case "r":
		n, d := 1+r.Intn(100000), 1
		if r.Intn(2) == 0 {
			d = []int{1, 1001, 1000, 24}[r.Intn(4)]
		}
		x := fmt.Sprintf("%d/%d", n, d)
		if d == 1 && r.Intn(2) == 0 {
			return strconv.Itoa(n), x, x
		}
		return x, x, x
	case "flag":
		s := pick(r, "DF", "NDF")
		return s, s, s
	case "version":
		s := pick(r, "1.3", "1.4", "1.52", "2.0", "2.10")
		return s, s, s
	case "takes":
		s := strings.Join(randWords(r, "DEFAULT", "NO_GOOD", "FALSE_START", "WILD_TRACK", "PICKUP", "REHEARSAL", "ANNOUNCEMENT", "SOUND_GUIDE", "FUTURE"), ",")
		return s, s, s
	case "loctypes":
		s := strings.Join(randWords(r, "INT", "EXT"), ",")
		return s, s, s
	case "loctimes":
		s := strings.Join(randWords(r, "SUNRISE", "MORNING", "MIDDAY", "DAY", "AFTERNOON", "EVENING", "SUNSET", "NIGHT"), ",")
		return s, s, s
	case "sptype":
		s := pick(r, "RELATIVE", "ABSOLUTE")
		return s, s, s
	case "spfunc":
		s := pick(r, "PRE_RECORD_SAMPLECOUNT", "SLATE_GENERIC", "HEAD_SLATE", "TAIL_SLATE", "MARKER_GENERIC", "MARKER_AUTOPLAY", "MARKER_AUTOPLAYSTOP", "MARKER_AUTOPLAYLOOP", "GROUP_OFFSET")
		return s, s, s
	case "func":
		s := pick(r, "M-MID_SIDE", "S-MID_SIDE", "X-X_Y", "Y-X_Y", "L-MIX", "MIX", "LEFT", "F-DMS", "Ls-5.1", "LFE2-GENERIC", "W-SOUNDFIELD", "VIDEO", "FUTURE")
		return s, s, s
	}
	panic(f.kind)
}

type chunk struct {
	src   *celem            // as found in a file
	want  *celem            // as written now
	props map[qname]*val    // as XMP
	attr  bool              // has what RDF cannot express
	vals  map[string]string // values of simple fields, by chunk path
}

func (k *chunk) struc(r *rand.Rand, path string, fields []cfield, p float64) (src, want *celem, v *val) {
	src, want, v = &celem{}, &celem{}, &val{kind: 't', fields: map[qname]*val{}}
	for _, f := range fields {
		if r.Float64() > p {
			continue
		}
		s, c, x := f.leaf(r)
		if f.tag == "" {
			src.text, want.text = s, c
			if r.Intn(2) == 0 {
				src.text = "\n  " + s + " \n"
			}
		} else {
			src.kids = append(src.kids, &celem{tag: f.tag, text: s})
			if c != "" {
				want.kids = append(want.kids, &celem{tag: f.tag, text: c})
			}
		}
		if x != "" {
			v.fields[iq(f.name)] = sval(x)
			k.vals[path+f.name] = x
		}
	}
	r.Shuffle(len(src.kids), func(i, j int) { src.kids[i], src.kids[j] = src.kids[j], src.kids[i] })
	return
}

func (k *chunk) extension(r *rand.Rand, depth int) (*celem, *val) {
	e := &celem{}
	if depth > 0 && r.Intn(2) == 0 {
		v := &val{kind: 't', fields: map[qname]*val{}}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			c, cv := k.extension(r, depth-1)
			c.tag = fmt.Sprintf("%s_%d", pick(r, "UUID", "Name", "x", "VALUE"), i)
			e.kids = append(e.kids, c)
			v.fields[qname{"", c.tag}] = cv
		}
		if k.attr && r.Intn(3) == 0 {
			e.attr = append(e.attr, [2]string{pick(r, "id", "kind"), genText(r)})
		}
		return e, v
	}
	e.text = strings.TrimSpace(genText(r))
	return e, sval(e.text)
}

func newChunk(r *rand.Rand) *chunk {
	k := &chunk{src: &celem{tag: "BWFXML"}, want: &celem{tag: "BWFXML"}, props: map[qname]*val{}, vals: map[string]string{}, attr: r.Intn(4) == 0}
	p := []float64{0.2, 0.6, 1}[r.Intn(3)]
	add := func(src, want *celem) {
		if src != nil {
			k.src.kids = append(k.src.kids, src)
		}
		if want != nil {
			k.want.kids = append(k.want.kids, want)
		}
	}
	var takes string
	for _, f := range chunkTop {
		if r.Float64() > p && f.tag != "IXML_VERSION" {
			continue
		}
		s, c, x := f.leaf(r)
		if f.tag == "TAKE_TYPE" {
			takes = c
			add(&celem{tag: f.tag, text: s}, nil)
			continue
		}
		var w *celem
		if c != "" {
			w = &celem{tag: f.tag, text: c}
			k.props[iq(f.name)] = sval(x)
			k.vals[f.name] = x
		}
		add(&celem{tag: f.tag, text: s}, w)
	}
	// flags of version 1
	for _, f := range []string{"NO_GOOD", "FALSE_START", "WILD_TRACK"} {
		if r.Float64() > p/2 {
			continue
		}
		v := pick(r, "TRUE", "FALSE", "true", "False")
		add(&celem{tag: f, text: v}, nil)
		if strings.ToUpper(v) == "TRUE" && !strings.Contains(","+takes+",", ","+f+",") {
			if takes != "" {
				takes += ","
			}
			takes += f
		}
	}
	if takes != "" {
		add(nil, &celem{tag: "TAKE_TYPE", text: takes})
		k.props[iq("takeType")] = sval(takes)
		k.vals["takeType"] = takes
	}
	for _, t := range chunkStructs {
		if r.Float64() > p {
			continue
		}
		s, w, v := k.struc(r, t.name+"/", t.fields, []float64{0.3, 0.7, 1}[r.Intn(3)])
		if len(v.fields) == 0 {
			continue
		}
		s.tag, w.tag = t.tag, t.tag
		if t.tag == "SPEED" && len(s.kids) > 1 && r.Intn(4) == 0 {
			// in two parts
			n := 1 + r.Intn(len(s.kids)-1)
			add(&celem{tag: "SPEED", kids: s.kids[n:]}, nil)
			s.kids = s.kids[:n]
		}
		add(s, w)
		k.props[iq(t.name)] = v
	}
	// sync points
	var points []*celem
	var pv []*val
	if r.Float64() < p {
		l := &celem{tag: "SYNC_POINT_LIST"}
		n := 1 + r.Intn(4)
		l.kids = append(l.kids, &celem{tag: "SYNC_POINT_COUNT", text: strconv.Itoa(n)})
		for i := 0; i < n; i++ {
			s, w, v := k.struc(r, "-", syncPointFields[2:], 0.6)
			for j := 1; j >= 0; j-- {
				t, _, _ := syncPointFields[j].leaf(r)
				s.kids = append(s.kids, &celem{tag: syncPointFields[j].tag, text: t})
				w.kids = append(w.kids, &celem{tag: syncPointFields[j].tag, text: t})
				v.fields[iq(syncPointFields[j].name)] = sval(t)
			}
			s.tag, w.tag = "SYNC_POINT", "SYNC_POINT"
			l.kids = append(l.kids, s)
			points, pv = append(points, w), append(pv, v)
		}
		if r.Intn(5) == 0 {
			l.kids = append(l.kids, &celem{tag: "FUTURE", kids: []*celem{{tag: "SYNC_POINT", text: "no"}}})
		}
		add(l, nil)
	}
	if r.Float64() < p/2 {
		n := r.Intn(100000)
		add(&celem{tag: "PRE_RECORD_SAMPLECOUNT", text: strconv.Itoa(n)}, nil)
		if n > 0 {
			low := &celem{tag: "SYNC_POINT_LOW", text: strconv.Itoa(n)}
			found := false
			for i, v := range pv {
				if v.fields[iq("syncPointFunction")].text == "PRE_RECORD_SAMPLECOUNT" {
					v.fields[iq("syncPointLow")] = sval(low.text)
					var kids []*celem
					for _, c := range points[i].kids {
						if c.tag != low.tag {
							kids = append(kids, c)
						}
					}
					points[i].kids = append(kids, low)
					found = true
					break
				}
			}
			if !found {
				note := "upgrade from deprecated property root.PRE_RECORD_SAMPLECOUNT"
				points = append(points, &celem{tag: "SYNC_POINT", kids: []*celem{{tag: "SYNC_POINT_TYPE", text: "RELATIVE"}, {tag: "SYNC_POINT_FUNCTION", text: "PRE_RECORD_SAMPLECOUNT"}, {tag: "SYNC_POINT_COMMENT", text: note}, low}})
				pv = append(pv, &val{kind: 't', fields: map[qname]*val{iq("syncPointType"): sval("RELATIVE"), iq("syncPointFunction"): sval("PRE_RECORD_SAMPLECOUNT"), iq("syncPointComment"): sval(note), iq("syncPointLow"): sval(low.text)}})
			}
		}
	}
	if len(points) > 0 {
		add(nil, &celem{tag: "SYNC_POINT_LIST", kids: append([]*celem{{tag: "SYNC_POINT_COUNT", text: strconv.Itoa(len(points))}}, points...)})
		k.props[iq("syncPoints")] = &val{kind: 'a', typ: "Seq", items: pv}
	}
	// tracks
	if r.Float64() < p {
		l, w := &celem{tag: "TRACK_LIST"}, &celem{tag: "TRACK_LIST"}
		n := 1 + r.Intn(5)
		l.kids = append(l.kids, &celem{tag: "TRACK_COUNT", text: strconv.Itoa(n)})
		w.kids = append(w.kids, &celem{tag: "TRACK_COUNT", text: strconv.Itoa(n)})
		var tv []*val
		for i := 0; i < n; i++ {
			ts, tw, v := k.struc(r, "-", trackFields[1:], 0.7)
			ts.tag, tw.tag = "TRACK", "TRACK"
			for _, e := range []*celem{ts, tw} {
				e.kids = append([]*celem{{tag: "CHANNEL_INDEX", text: strconv.Itoa(i + 1)}}, e.kids...)
			}
			v.fields[iq("channelIndex")] = sval(strconv.Itoa(i + 1))
			if r.Intn(3) == 0 {
				ms, mw, mv := k.struc(r, "-", mixFields, 0.7)
				ms.tag, mw.tag = "DEFAULT_MIX", "DEFAULT_MIX"
				ts.kids, tw.kids = append(ts.kids, ms), append(tw.kids, mw)
				v.fields[iq("defaultMix")] = mv
			}
			l.kids, w.kids = append(l.kids, ts), append(w.kids, tw)
			tv = append(tv, v)
		}
		if r.Intn(5) == 0 {
			l.kids = append(l.kids, &celem{tag: "FUTURE", kids: []*celem{{tag: "TRACK", text: "no"}}})
		}
		add(l, w)
		k.props[iq("trackList")] = &val{kind: 'a', typ: "Seq", items: tv}
	}
	// private data
	if r.Float64() < p {
		ev := &val{kind: 't', fields: map[qname]*val{}}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			e, v := k.extension(r, 3)
			e.tag = fmt.Sprintf("%s_PRIVATE_%d", pick(r, "TRIMMER", "BEXT", "ASWG", "Steinberg"), i)
			add(e, e)
			ev.fields[qname{"", e.tag}] = v
		}
		k.props[iq("extension")] = ev
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(k.src.kids), func(i, j int) { k.src.kids[i], k.src.kids[j] = k.src.kids[j], k.src.kids[i] })
	}
	return k
}

func (k *chunk) text(r *rand.Rand) string {
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + pick(r, "", "\n", "\r\n"))
	}
	k.src.write(&b, r, pick(r, "", "\n", "\n  "))
	if r.Intn(3) == 0 {
		b.WriteString("\n")
	}
	return b.String()
}

// sameChunk compares the chunk written for m with the expected one.
func (k *chunk) sameChunk(c *Case, where string, m *ixml.IXML) []byte {
	var b []byte
	var err error
	if c.R.Intn(2) == 0 {
		b, err = xml.Marshal(m)
	} else {
		b, err = xml.MarshalIndent(m, "", "\t")
	}
	if err != nil {
		c.Fail("write:"+where, "%s: %v", where, err)
		return nil
	}
	c.Art(where+".xml", b)
	root, err := parseXML(b)
	if err != nil {
		c.Fail("write:"+where, "%s: the chunk is no XML: %v", where, err)
		return nil
	}
	want, got := map[string]string{}, map[string]string{}
	k.want.flat("", want)
	elToChunk(root).flat("", got)
	c.Eval(len(want))
	if d := diffMaps(want, got); len(d) > 0 {
		c.Fail("chunk:"+where+":"+strings.SplitN(d[0], ":", 2)[0], "%s: %s", where, head(d, 4))
	}
	c.Event("written:" + where)
	return b
}

func ixmlChunks(c *Case) {
	r := c.R
	k := newChunk(r)
	text := k.text(r)
	c.Art("chunk", text)
	c.Seen("chunk", text)
	m := &ixml.IXML{Version: "2.0"}
	if r.Intn(3) == 0 {
		m.Project, m.TakeType = "old", ixml.TakeTypeList{ixml.TakeTypePickup} // replaced
	}
	var err error
	if r.Intn(2) == 0 {
		err = m.ParseXML([]byte(text))
	} else {
		err = m.UnmarshalText([]byte(text))
	}
	if err != nil {
		c.Fail("parse", "a chunk is refused: %v", err)
		return
	}
	if m.IsNotGood || m.IsFalseStart || m.IsWildTrack || m.PreRecordSamplecount != 0 {
		c.Fail("upgrade", "old flags remain")
	}
	b := k.sameChunk(c, "parsed", m)
	if b == nil || c.failed() {
		return
	}
	m2 := &ixml.IXML{}
	if err := m2.ParseXML(b); err != nil {
		c.Fail("reparse", "the written chunk is refused: %v", err)
		return
	}
	k.sameChunk(c, "reparsed", m2)

	// through XMP
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		c.Fail("model", "%v", err)
		return
	}
	for round := 1; round <= 2; round++ {
		x, err := xmp.Marshal(d)
		if err != nil {
			c.Fail("xmp", "a document with the chunk cannot be written: %v", err)
			return
		}
		c.Art(fmt.Sprintf("xmp%d", round), x)
		if !k.attr {
			doc, err := readXMP(x)
			if err != nil {
				c.Fail("xmp", "round %d: %v", round, err)
				return
			}
			want := map[string]string{}
			for q, v := range k.props {
				if !v.empty() {
					want[q.String()] = v.String()
				}
			}
			c.Eval(len(want))
			got := doc.flat()
			for q := range doc.props {
				if q.uri != ixmlURI {
					delete(got, q.String()) // what the chunk means to others
				}
			}
			if l := diffMaps(want, got); len(l) > 0 {
				c.Fail("xmp:"+strings.SplitN(l[0], ": ", 2)[0], "round %d: %s", round, head(l, 3))
				return
			}
			c.Event("xmp")
		} else if _, err := parseXML(x); err != nil {
			c.Fail("xmp", "round %d: %v", round, err)
			return
		}
		d2 := xmp.NewDocument()
		if err := xmp.Unmarshal(x, d2); err != nil {
			c.Fail("xmp", "round %d: %v", round, err)
			d2.Close()
			return
		}
		d.Close()
		d = d2
		m3 := ixml.FindModel(d)
		if m3 == nil {
			c.Fail("xmp", "round %d: the model is lost", round)
			return
		}
		k.sameChunk(c, fmt.Sprintf("xmp%d", round), m3)
		if c.failed() {
			return
		}
		m = m3
	}
	j, err := d.MarshalJSON()
	if err != nil {
		c.Fail("json", "%v", err)
		return
	}
	c.Art("json", j)
	d3 := xmp.NewDocument()
	defer d3.Close()
	if err := d3.UnmarshalJSON(j); err != nil {
		c.Fail("json", "%v", err)
		return
	}
	if m3 := ixml.FindModel(d3); m3 == nil {
		c.Fail("json", "the model is lost")
	} else if !k.attr {
		k.sameChunk(c, "json", m3)
	}

	// what the chunk says in the standard vocabulary
	if err := m.SyncToXMP(d); err != nil {
		c.Fail("sync", "%v", err)
		return
	}
	dm := xmpdm.FindModel(d)
	if dm == nil {
		c.Fail("sync", "no xmpDM")
		return
	}
	eq := func(what string, got interface{}, want string) {
		if s := fmt.Sprint(got); s != want {
			c.Fail("sync:"+what, "%s is %q, the chunk has %q", what, s, want)
		}
		c.Eval(1)
	}
	num := func(s string) string {
		if s == "" {
			return "0"
		}
		return s
	}
	eq("tapeName", dm.TapeName, k.vals["soundRoll"])
	eq("scene", dm.Scene, k.vals["sceneName"])
	eq("trackNumber", dm.TrackNumber, num(k.vals["take"]))
	eq("logComment", dm.LogComment, k.vals["note"])
	eq("projectName", dm.ProjectName, k.vals["project"])
	eq("good", dm.Good.Value(), strconv.FormatBool(k.vals["circled"] == "TRUE"))
	rate := "0"
	if v := k.vals["speed/fileSampleRate"]; v != "" {
		x, _ := new(big.Rat).SetString(v)
		f, _ := x.Float64()
		rate = fmt.Sprint(f)
	}
	eq("audioSampleRate", dm.AudioSampleRate, rate)
	c.Event("sync")
}

// ixmlBroken checks that chunks that are none are refused and leave the
// model alone.
func ixmlBroken(c *Case) {
	r := c.R
	k := newChunk(r)
	good := newChunk(r).text(r)
	m := &ixml.IXML{}
	if err := m.ParseXML([]byte(good)); err != nil {
		c.Fail("parse", "%v", err)
		return
	}
	for i := 0; i < 4; i++ {
		src := *k.src
		src.kids = append([]*celem{}, src.kids...)
		bad := func(e *celem) { src.kids = append(src.kids, e) }
		cut := false
		kind := r.Intn(7)
		switch kind {
		case 0:
			bad(&celem{tag: pick(r, "TAKE", "PRE_RECORD_SAMPLECOUNT"), text: pick(r, "x", "1a", "1.5")})
		case 1:
			bad(&celem{tag: pick(r, "NO_GOOD", "FALSE_START", "WILD_TRACK", "CIRCLED"), text: pick(r, "MAYBE", "YES", "2")})
		case 2:
			bad(&celem{tag: "SPEED", kids: []*celem{{tag: "MASTER_SPEED", text: pick(r, "x/y", "24/", "fast")}}})
		case 3:
			bad(&celem{tag: "SPEED", kids: []*celem{{tag: "TIMECODE_FLAG", text: pick(r, "df", "DROP")}}})
		case 4:
			bad(&celem{tag: "SYNC_POINT_LIST", kids: []*celem{{tag: "SYNC_POINT", kids: []*celem{{tag: "SYNC_POINT_LOW", text: "low"}}}}})
		case 5:
			src.tag = pick(r, "IXML", "bwfxml", "BWFXML2")
		default:
			cut = true
		}
		k2 := *k
		k2.src = &src
		text := k2.text(r)
		if cut {
			text = strings.TrimSpace(text)
			text = text[:r.Intn(len(text)-1)]
		}
		c.Art("broken", text)
		before := *m
		b1, _ := xml.Marshal(m)
		err := m.ParseXML([]byte(text))
		b2, _ := xml.Marshal(m)
		if err == nil {
			c.Fail(fmt.Sprintf("accepted:%d", kind), "a broken chunk is accepted")
			return
		}
		if !reflect.DeepEqual(before, *m) || string(b1) != string(b2) {
			c.Fail("changed", "a refused chunk changed the model: %s -> %s", b1, b2)
			return
		}
		c.Eval(1)
		c.Event("refused")
		c.Seen("broken", text)
	}
}

// ixmlTime compares start time codes with exact arithmetic.
func ixmlTime(c *Case) {
	r := c.R
	rates := []struct {
		num, den int64
		nd, df   string
	}{
		{24000, 1001, "23976Timecode", "23976Timecode"}, {24, 1, "24Timecode", "24Timecode"}, {25, 1, "25Timecode", "25Timecode"},
		{30000, 1001, "2997NonDropTimecode", "2997DropTimecode"}, {30, 1, "30Timecode", "30Timecode"}, {50, 1, "50Timecode", "50Timecode"},
		{60000, 1001, "5994NonDropTimecode", "5994DropTimecode"}, {60, 1, "60Timecode", "60Timecode"},
	}
	for i := 0; i < 32; i++ {
		fr := rates[r.Intn(len(rates))]
		rate := []int64{8000, 32000, 44100, 44056, 47952, 48000, 48048, 88200, 96000, 176400, 192000, 384000}[r.Intn(12)]
		sec := r.Int63n(86400)
		n := sec*rate + r.Int63n(rate)
		switch r.Intn(4) {
		case 0:
			n = sec * rate
		case 1:
			n = sec*rate + rate - 1
		}
		df := r.Intn(2) == 0
		flag, want := "NDF", fr.nd
		if df {
			flag, want = "DF", fr.df
		}
		speed := &celem{tag: "SPEED", kids: []*celem{
			{tag: "TIMECODE_RATE", text: fmt.Sprintf("%d/%d", fr.num, fr.den)}, {tag: "TIMECODE_FLAG", text: flag},
			{tag: "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_HI", text: strconv.FormatInt(n>>32, 10)},
			{tag: "TIMESTAMP_SAMPLES_SINCE_MIDNIGHT_LO", text: strconv.FormatInt(n&(1<<32-1), 10)},
			{tag: "TIMESTAMP_SAMPLE_RATE", text: strconv.FormatInt(rate, 10)}}}
		k := &chunk{src: &celem{tag: "BWFXML", kids: []*celem{speed}}}
		text := k.text(r)
		c.Art("chunk", text)
		m := &ixml.IXML{}
		if err := m.ParseXML([]byte(text)); err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		d := xmp.NewDocument()
		d.AddModel(m)
		if err := m.SyncToXMP(d); err != nil {
			c.Fail("sync", "%v", err)
			d.Close()
			return
		}
		nominal := (fr.num + fr.den - 1) / fr.den
		s := n / rate
		f := (n % rate) * nominal / rate
		sep := ":"
		if df {
			sep = ";"
		}
		ts := fmt.Sprintf("%02d%s%02d%s%02d%s%02d", s/3600, sep, s/60%60, sep, s%60, sep, f)
		tc := xmpdm.FindModel(d).StartTimecode
		if tc.String() != ts || string(tc.Format) != want {
			c.Fail("timecode", "%d samples at %d with %d/%d %s are %s (%s), got %s (%s)", n, rate, fr.num, fr.den, flag, ts, want, tc, tc.Format)
		}
		x, err := xmp.Marshal(d)
		d.Close()
		if err != nil {
			c.Fail("xmp", "%v", err)
			return
		}
		if doc, err := readXMP(x); err != nil {
			c.Fail("xmp", "%v", err)
		} else {
			v := doc.props[qname{"http://ns.adobe.com/xmp/1.0/DynamicMedia/", "startTimecode"}]
			if v == nil || v.kind != 't' || v.fields[qname{"http://ns.adobe.com/xmp/1.0/DynamicMedia/", "timeValue"}].text != ts {
				c.Fail("timecode:xmp", "%d samples at %d: the start time code %s is written as %s", n, rate, ts, v)
			}
		}
		c.Eval(2)
		c.Event("timecode")
		c.Seen("tc", n, rate, fr.num, df)
	}
}

func init() {
	register(&Property{ID: "P19", Rule: "a chunk means what the iXML specification says: an independent generator knows its XMP values and the chunk a current writer produces; broken chunks are refused without effect; start time codes follow exact arithmetic",
		Scenarios: []Scenario{
			{"chunks", 6000, 200000, ixmlChunks},
			{"broken", 3000, 60000, ixmlBroken},
			{"time", 800, 40000, ixmlTime},
		}})
}
