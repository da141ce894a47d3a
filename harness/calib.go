package main

// Calibration (developer tool, not run by checks): derives golden.json from
// the library once. The result is reviewed and committed; checks only read it.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func roundtrip(b []byte) (*rdfDoc, error) {
	d := &xmp.Document{}
	if err := xmp.Unmarshal(b, d); err != nil {
		return nil, err
	}
	defer d.Close()
	out, err := xmp.Marshal(d)
	if err != nil {
		return nil, err
	}
	return readXMP(out)
}

// at builds a document holding leaf value text at the given schema path
func single(prop string, v *val) *gdoc {
	d := newGdoc()
	for p, u := range golden.uris {
		d.pfx[u] = p
	}
	d.props[golden.q(prop)] = v
	return d
}

type leafRef struct {
	prop string
	path []string // field names, "[]" for array items
	s    *Schema
	lens []int
	arrs []string
	in   []*Schema // enclosing structures, by path position
}

func (s *Schema) sample() *val {
	switch {
	case s.Kind == "array":
		return &val{kind: 'a', typ: s.Arr, items: []*val{s.Elem.sample(), s.Elem.sample()}}
	case s.Sample != "":
		return &val{kind: 's', text: s.Sample}
	}
	panic("no sample")
}

func (l leafRef) wrap(text string) *val {
	v := &val{kind: 's', text: text}
	ai := len(l.arrs) - 1
	for i := len(l.path) - 1; i >= 0; i-- {
		if l.path[i] == "[]" {
			a := &val{kind: 'a', typ: l.arrs[ai]}
			n := l.lens[ai]
			if n == 0 {
				n = 1
			}
			for j := 0; j < n; j++ {
				a.items = append(a.items, v)
			}
			ai--
			v = a
		} else {
			v = &val{kind: 't', fields: map[qname]*val{golden.q(l.path[i]): v}}
			if l.in[i].All {
				for f, fs := range l.in[i].Fields {
					if f != l.path[i] {
						v.fields[golden.q(f)] = fs.sample()
					}
				}
			}
		}
	}
	return v
}

func leaves(prop string, s *Schema, path []string, lens []int, arrs []string, in []*Schema, out *[]leafRef) {
	switch s.Kind {
	case "leaf":
		*out = append(*out, leafRef{prop, append([]string{}, path...), s, append([]int{}, lens...), append([]string{}, arrs...), append([]*Schema{}, in...)})
	case "array":
		leaves(prop, s.Elem, append(path, "[]"), append(lens, s.Len), append(arrs, s.Arr), append(in, nil), out)
	case "struct":
		for _, k := range sortedKeys(s.Fields) {
			leaves(prop, s.Fields[k], append(path, k), lens, arrs, append(in, s), out)
		}
	}
}

var genericPool = func() []string {
	var p []string
	for i := -2; i < 260; i++ {
		p = append(p, fmt.Sprint(i))
	}
	p = append(p, "1000", "4096", "32768", "65535", "65536", "100000", "2147483647", "-2147483648", "4294967295", "9007199254740993", "9223372036854775807", "-9223372036854775808",
		"0.5", "1.5", "-2.25", "3.14159", "0.1", "1e+06", "1e+20", "1e-07", "12345.678", "0.015625", "99.99", "-0.001", "180.5", "0.333", "23.976", "29.97",
		"1/2", "3/4", "1/125", "72/1", "300/1", "28/10", "-1/3", "30000/1001", "24000/1001", "65535/1000", "2147483647/2", "0/1",
		"True", "False", "true", "false", "1", "0", "yes", "no", "Y", "N",
		"2012-05-17T10:20:30Z", "2012-05-17T10:20:30+02:00", "1999-12-31T23:59:59-08:00", "2020-02-29T00:00:00Z", "2001-09-09T01:46:40+05:30",
		"2012", "2012-05", "2012-05-17", "2012-05-17T10:20", "2012-05-17T10:20Z", "2012-05-17T10:20:30", "2012-05-17T10:20:30.123Z", "1712", "0305",
		"51,30.5N", "0,7.65W", "48,51,24N", "2,21,3E", "51,30.500000N", "33,52.1234S", "151,12.55E", "12,34.567890W",
		"http://example.com/", "http://example.com/path?q=1", "mailto:a@b.c", "https://a.b/c#d", "file:///tmp/x", "urn:x:y",
		"uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "xmp.iid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "xmp.did:0A0B0C0D0E0F", "adobe:docid:photoshop:123", "xmp.iid:53e93d31-5f4d-4a3d-9c55-02c7b6b2c04d",
		"Adobe Photoshop CS6 (Windows)", "GoPro Hero", "Adobe Photoshop Lightroom 5.0 (Macintosh)",
		"0, 0", "255, 255", "128, 100", "12,34", "1 2", "10,20,30", "#FF00FF",
		"time:0d100f25", "time:10d20f30", "time:##", "time:0##", "time:5##d10", "time:0d10", "/content/audio", "/metadata", "/content", "/metadata;/content", "/", "time:0##d1000r10",
		"100f25", "0f24", "1234f30000s1001", "100", "10f29.97", "f25", "f24", "f30000s1001", "30000/1001", "25",
		"default", "thumbnail", "draft", "low-res", "thumbnail:jpeg:640x480", "proof:pdf", "screen", "screen:gif:8x8:7:a", "thumbnail:gif:8x8:7:a",
		"24Timecode", "25Timecode", "2997DropTimecode", "2997NonDropTimecode", "30Timecode", "50Timecode", "5994DropTimecode", "5994NonDropTimecode", "60Timecode", "23976Timecode",
		"10:11:12:13", "10:11:12;13", "00:00:00:00",
		"AQID", "aGVsbG8gd29ybGQ=", "AAAA", "hello", "deadbeef", "01,02,03", "1,2,3",
		"1/10", "3/12", "7", "7/0", "17/20", "rock", "(17)", "17", "1712", "2359", "235959", "120000-0700", "10:20:30", "102030+0200",
		"+12.3400-098.7600/", "+12.3400-098.7600+100.000/", "place|+12.3+098.7|earth", "geo",
		"1:2:3", "1;2;3", "a;b;c", "a,b", "/content/", "/content/time:5f25", "/a/;/b/time:10f24d20f24", "/metadata/;/content/audio/", "Rock, Foo", "Blues, Jazz, Pop", "Remix", "My Genre, Other", "Chapter", "Cue", "Chapter,Index", "Speech,Track,Cue", "(mpaa|PG-13|300|)", "(us-tv|TV-14|500|V L)", "(x|y||)", "0:1:-00001", "0:0:2", "us-tv|TV-14|500|", "mpaa|PG-13|300|", "text value", "v1.0", "x",
		"00000000 00000210 00000726 00000000000DC5CA 00000000 00000000 00000000 00000000 00000000 00000000 00000000 00000000",
		"1,0,0", "2,2,1,0,0,1", "1;1", "11:22", "2 2 0 1 1 2", "GRBG", "1 1 1", "3,4", "1920,1080", "1920 1080", "4:3",
		"0,1,2,3", "-3", "1 2 3 4", "{1,2}", "[1,2]",
		"-128", "127", "32767", "-32768", "-2147483648", "18446744073709551615", "3.4028235e+38", "1e-45", "1.7976931348623157e+308", "5e-324", "16777217", "16777216", "0.1", "0.3", "1.1",
		"a#b", "x y#<z & w>", "#", "a#", "#b", "é#ß", "0x00000001", "0x0000ABCD", "0xFFFFFFFF", "0x12345678", "3<>4", "-1<>0", "0<>7", "2147483647<>-5", "~x", "~a b", "~~", "~<&>\"'")
	return p
}()

var strRe = regexp.MustCompile(`"([^"\n]{1,60})"`)

func calibrate() {
	pool := append([]string{}, genericPool...)
	seen := map[string]bool{}
	for _, s := range pool {
		seen[s] = true
	}
	files, _ := filepath.Glob("/repo/models/*/*.go")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, m := range strRe.FindAllStringSubmatch(string(b), -1) {
			s := m[1]
			if strings.ContainsAny(s, "\\%`") || strings.TrimSpace(s) != s || seen[s] || strings.HasPrefix(s, "xmp:") {
				continue
			}
			seen[s] = true
			pool = append(pool, s)
		}
	}
	golden = &Golden{Models: dumpSchemas(), Types: map[string][]string{}, Free: map[string]bool{}, Compat: map[string][]string{}}
	golden.index()
	nsuri := map[string]string{}
	for _, m := range golden.Models {
		for p, u := range m.NS {
			nsuri[p] = u
		}
	}
	type job struct {
		m *ModelSchema
		l leafRef
	}
	var jobs []job
	for _, m := range golden.Models {
		m.Defaults = map[string]string{} // what appears when only the model exists
	}
	for _, m := range golden.Models {
		for _, k := range sortedKeys(m.Props) {
			s := m.Props[k]
			if s.Omit || s.Ver != "" {
				continue
			}
			var l []leafRef
			leaves(k, s, nil, nil, nil, nil, &l)
			for _, x := range l {
				if x.s.Omit || x.s.Ver != "" {
					continue
				}
				jobs = append(jobs, job{m, x})
			}
		}
	}
	try := func(j job, text string) (ok bool, got string, extra map[string]string) {
		defer func() {
			if e := recover(); e != nil {
				ok, got = false, fmt.Sprint("panic ", e)
			}
		}()
		d := single(j.l.prop, j.l.wrap(text))
		r, err := roundtrip(writeXMP(d, canonStyle, nil))
		if err != nil {
			return false, err.Error(), nil
		}
		want := d.flat()
		g := r.flat()
		k := golden.q(j.l.prop).String()
		extra = map[string]string{}
		for p, v := range g {
			if p != k {
				extra[p] = v
			}
		}
		return g[k] == want[k], g[k], extra
	}
	// free-text types
	free := []string{"a, b , c,", "a\nb", "1;", "x & y <z>", "100 %", "日本語", "a/b;c,d", "0.50", "+1"}
	typeSeen := map[string]bool{}
	notfree := map[string]bool{}
	for _, j := range jobs {
		ok := true
		for _, t := range free {
			if o, _, _ := try(j, t); !o {
				ok = false
			}
		}
		if ok && !notfree[j.l.s.Type] {
			golden.Free[j.l.s.Type] = true
		} else if !ok && j.l.s.Base != "" && j.l.s.Type != "string" {
			notfree[j.l.s.Type] = true
			delete(golden.Free, j.l.s.Type)
		}
	}
	golden.Free["string"] = true
	for _, j := range jobs {
		t := j.l.s.Type
		if len(j.l.s.Vals) > 0 && j.l.s.Sample != "" {
			continue
		}
		if golden.Free[t] || typeSeen[t] {
			continue
		}
		typeSeen[t] = true
		var vals []string
		for _, p := range pool {
			if ok, _, _ := try(j, p); ok {
				vals = append(vals, p)
			}
		}
		if len(vals) > 60 { // keep the file small
			var few []string
			for i := 0; i < 60; i++ {
				few = append(few, vals[i*len(vals)/60])
			}
			vals = few
		}
		golden.Types[t] = vals
	}
	// per leaf
	fmt.Fprintln(os.Stderr, "leaves", len(jobs))
	for _, j := range jobs {
		var vals []string
		if len(j.l.s.Vals) > 0 {
			vals = j.l.s.Vals
		} else if golden.Free[j.l.s.Type] {
			vals = append(free, "plain text")
		} else {
			vals = golden.Types[j.l.s.Type]
		}
		var bad []string
		var good []string
		for _, v := range vals {
			ok, got, extra := try(j, v)
			if !ok {
				bad = append(bad, fmt.Sprintf("%q->%s", v, got))
			} else {
				good = append(good, v)
			}
			for p, x := range extra {
				if old, ok := j.m.Defaults[p]; ok && old != x {
					fmt.Fprintf(os.Stderr, "VARDEFAULT %s %v %q: %s = %s (was %s)\n", j.l.prop, j.l.path, v, p, x, old)
				} else if !ok {
					fmt.Fprintf(os.Stderr, "DEFAULT %s: %s %v adds %s = %s\n", j.m.Prefix, j.l.prop, j.l.path, p, x)
					j.m.Defaults[p] = x
				}
			}
		}
		if len(vals) == 0 {
			ok, got, _ := try(j, "1")
			fmt.Fprintf(os.Stderr, "NOVALS %s %v type %s: 1 -> %v %s\n", j.l.prop, j.l.path, j.l.s.Type, ok, got)
			j.l.s.Bad = "no canonical value"
		} else if len(good) == 0 {
			fmt.Fprintf(os.Stderr, "BAD %s %v type %s: %v\n", j.l.prop, j.l.path, j.l.s.Type, bad[:min(3, len(bad))])
			j.l.s.Bad = "not identity"
		} else if len(bad) > 0 {
			fmt.Fprintf(os.Stderr, "PARTIAL %s %v type %s: %v\n", j.l.prop, j.l.path, j.l.s.Type, bad[:min(3, len(bad))])
			if golden.Free[j.l.s.Type] {
				j.l.s.Bad = "partial"
			} else {
				j.l.s.Vals = good
			}
		}
	}
	// alt properties
	for _, m := range golden.Models {
		for _, k := range sortedKeys(m.Props) {
			s := m.Props[k]
			if s.Kind != "alt" || s.Omit || s.Ver != "" {
				continue
			}
			d := single(k, &val{kind: 'a', typ: "Alt", items: []*val{{kind: 's', text: "hello <w>", lang: "x-default"}, {kind: 's', text: "hallo", lang: "de"}}})
			r, err := roundtrip(writeXMP(d, canonStyle, nil))
			if err != nil || r.flat()[golden.q(k).String()] != d.flat()[golden.q(k).String()] {
				fmt.Fprintf(os.Stderr, "BADALT %s %v\n", k, err)
				s.Bad = "not identity"
			}
		}
	}
	// compat
	r := rand.New(rand.NewSource(1))
	names := sortedKeys(golden.byPfx)
	for i, a := range names {
		for _, b := range names[i+1:] {
			ok := true
			var why []string
			for n := 0; n < 150 && ok; n++ {
				d := genDoc(r, genOpt{models: []string{a, b}, maxProps: 10})
				why = rtDiff(d, canonStyle, r)
				ok = len(why) == 0
			}
			if ok {
				golden.Compat[a] = append(golden.Compat[a], b)
				golden.Compat[b] = append(golden.Compat[b], a)
			} else {
				fmt.Fprintf(os.Stderr, "INCOMPAT %s %s: %s\n", a, b, why[0])
			}
		}
	}
	for _, l := range golden.Compat {
		sort.Strings(l)
	}
	b, _ := json.MarshalIndent(golden, "", " ")
	os.WriteFile("golden.json", b, 0644)
}

// rtDiff compares a document with what comes back after load and save.
func rtDiff(d *gdoc, st style, r *rand.Rand) (out []string) {
	defer func() {
		if e := recover(); e != nil {
			out = []string{fmt.Sprint("panic: ", e)}
		}
	}()
	got, err := roundtrip(writeXMP(d, st, r))
	if err != nil {
		return []string{"error: " + err.Error()}
	}
	return diffAllow(d, got)
}

// diffAllow: like diffMaps but tolerates the documented model defaults.
func diffAllow(d *gdoc, got *rdfDoc) []string {
	want, g := d.flat(), got.flat()
	for _, m := range d.models {
		for p, v := range golden.byPfx[m].Defaults {
			if _, ok := want[p]; !ok && g[p] == v {
				delete(g, p)
			}
		}
	}
	return diffMaps(want, g)
}
