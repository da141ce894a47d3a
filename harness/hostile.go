package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"strings"
)

// Hostile inputs: mutations of valid packets on the byte, token and tree
// level, and values of the wrong kind or with extreme text.

var hostileText = []string{
	"", " ", "-", "+", ".", ",", ";", ":", "/", "//", "0", "-0", "00", "1/0", "0/0", "-1/1", "1/-1", "9223372036854775807", "9223372036854775808",
	"-9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e308", "1e309", "-1e309", "1e-400", "NaN", "nan", "Inf", "-Inf", "0x10", "0b1", "1_000",
	"1.5", "1,5", "1.5.5", "True", "true", "TRUE", "False", "t", "yes", "maybe", "2016", "2016-13", "2016-02-30", "2016-01-01T25:00:00", "2016-01-01T10:00:00+99:99",
	"0000-00-00", "0000-00-00T00:00:00Z", "2016:01:01 10:00:00", "99999-01-01", "01:02:03:04", "01;02;03;04", "99:99:99:99", "-1:00:00:00", "1:2:3", ":::",
	"25,30.5N", "181,0.0W", "25,30,15E", "25,30.5", "N", "91.5S", "a", "(", ")", "()", "(1", "1)", "[", "]", "[]", "{}", "1 2 3", "1;2;3;4;5", "1,2,3,4,5,6,7,8,9,10",
	"100 200 300", "#fff", "rgb", "uuid:", "xmp.iid:", "\u0000", "\u0001", "\ufffe", "\ufffd", "é", "日本", "😀", "\u202e", "a\u0300", "=", "a=", "=b", "a=b", "a=b=c", "a=b;c=d;", "x:y:z",
	"5 1 2 3", "4294967296", "4294967295", "-2147483649", "2147483648", "65536 65536", "1000000000 1000000000", "3 3 a b c", "2 2 1 2 3 4", "1 1", "-1 -1", "30/0s1", "f0", "100f30000s1001", "f", "100f", "100f-1", "1f0", "0f0s0", "s", "maximum",
	"AAAA", "AA==", "====", "%%%", "%00", "\r\n", "\t", "1\n2", "null", "undefined", "../../x", "C:\\x", "http://[::1", "<a>", "]]>", "&amp;", "--", "mpaa|PG|200|", "|||", "|", "us-tv|TV-MA|600|x|y", "1 of 2", "1/2/3",
	"00:00:00.000", "24", "23976Timecode", "P1D", "1.2.3.4", "v1", "1.2", "1.", ".1", "999999999999.999999999999",
}

func hostileVal(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return genText(r)
	case 1:
		return strings.Repeat(hostileText[r.Intn(len(hostileText))], 1+r.Intn(400))
	case 2:
		return hostileText[r.Intn(len(hostileText))] + hostileText[r.Intn(len(hostileText))]
	case 3:
		return fmt.Sprint(r.Uint64())
	case 4:
		return fmt.Sprintf("%d/%d", r.Int63()-r.Int63(), r.Int63()-r.Int63())
	}
	return hostileText[r.Intn(len(hostileText))]
}

// xmlText drops the characters that cannot occur in XML
func xmlText(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd && c != 0xfffe || c >= 0x10000 && c <= 0x10ffff {
			return c
		}
		return -1
	}, s)
}

// mutateText changes the text of a leaf, or all leaves with chance 1/n.
func (v *val) mutateText(r *rand.Rand, n int) {
	switch v.kind {
	case 's':
		if r.Intn(n) == 0 {
			v.text = xmlText(hostileVal(r))
		}
	case 'a':
		for _, x := range v.items {
			x.mutateText(r, n)
		}
	case 't':
		for _, x := range v.fields {
			x.mutateText(r, n)
		}
	}
}

// wrongKind replaces parts of a value by values of another kind.
func wrongKind(r *rand.Rand, v *val, depth int) *val {
	if r.Intn(3) == 0 || depth > 3 {
		switch r.Intn(9) {
		case 0:
			return &val{kind: 's', text: xmlText(hostileVal(r))}
		case 1:
			return &val{kind: 'a', typ: []string{"Seq", "Bag", "Alt"}[r.Intn(3)], items: []*val{v}}
		case 2:
			return &val{kind: 'a', typ: []string{"Seq", "Bag", "Alt"}[r.Intn(3)]}
		case 3:
			return &val{kind: 't', fields: map[qname]*val{golden.q([]string{"stRef:instanceID", "dc:title", "xmp:Rating", "exif:Flash", "xmpDM:value", "stEvt:when"}[r.Intn(6)]): v}}
		case 4:
			return &val{kind: 's', text: xmlText(hostileVal(r)), lang: []string{"", "en", "x-default", "??"}[r.Intn(4)]}
		case 5:
			if v.kind == 'a' {
				v.typ = []string{"Seq", "Bag", "Alt"}[r.Intn(3)]
			}
			return v
		case 6:
			if v.kind == 'a' && len(v.items) > 0 {
				return v.items[0]
			}
			return v
		case 7:
			if v.kind == 'a' && len(v.items) > 0 {
				for i := 0; i < 3; i++ {
					v.items = append(v.items, v.items[r.Intn(len(v.items))])
				}
			}
			return v
		default:
			return genUnknown(r, unkPool[:1], 0)
		}
	}
	switch v.kind {
	case 'a':
		for i := range v.items {
			v.items[i] = wrongKind(r, v.items[i], depth+1)
		}
	case 't':
		for k := range v.fields {
			v.fields[k] = wrongKind(r, v.fields[k], depth+1)
		}
	}
	return v
}

var hostileTokens = []string{
	"<", ">", "</", "/>", "\"", "'", "&", "&#0;", "&#x1F;", "&lt;", "&unknown;", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE x [<!ENTITY a \"b\">]>",
	"xmlns=\"\"", "xmlns:xmp=\"urn:other\"", "xmlns:rdf=\"urn:other\"", " rdf:about=\"x\"", " rdf:parseType=\"Resource\"", " rdf:parseType=\"Literal\"", " rdf:parseType=\"Collection\"",
	" rdf:resource=\"http://x/\"", " rdf:nodeID=\"a\"", " rdf:ID=\"a\"", " xml:lang=\"en\"", " xml:lang=\"x-default\"", " xml:space=\"preserve\"", " xml:base=\"/\"",
	"<rdf:li>", "</rdf:li>", "<rdf:li/>", "<rdf:Seq>", "</rdf:Seq>", "<rdf:Bag/>", "<rdf:Alt/>", "<rdf:Alt><rdf:li/></rdf:Alt>", "<rdf:value>v</rdf:value>", "<rdf:Description/>", "<rdf:Description rdf:about=\"\"/>",
	"<rdf:RDF>", "</rdf:RDF>", "<x:xmpmeta>", "</x:xmpmeta>", "<a:b xmlns:a=\"urn:a\">t</a:b>", "<:a/>", "<a:/>", "<xmp:Rating/>", "<dc:title>x</dc:title>", "<rdf:type>x</rdf:type>",
	"\x00", "\xff\xfe", "\xed\xa0\x80", "\ufeff", "<?xpacket end=\"w\"?>", "<?xpacket begin=\"\"?>", "<?xml version=\"1.1\"?>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "rdf:", "xmp:", "dc:", "xmpMM:", "stRef:",
}

func mutateBytes(r *rand.Rand, b, other []byte) []byte {
	b = append([]byte{}, b...)
	for i, n := 0, 1+r.Intn(6); i < n && len(b) > 0; i++ {
		p := r.Intn(len(b))
		q := p + r.Intn(len(b)-p)
		if r.Intn(3) > 0 {
			q = min(len(b), p+r.Intn(40))
		}
		switch r.Intn(9) {
		case 0:
			b[p] ^= 1 << r.Intn(8)
		case 1:
			b = append(b[:p:p], b[q:]...)
		case 2:
			b = bytes.Join([][]byte{b[:q], b[p:q], b[q:]}, nil)
		case 3:
			b = b[:p]
		case 4, 5:
			t := hostileTokens[r.Intn(len(hostileTokens))]
			if r.Intn(2) == 0 { // at a tag boundary
				if j := bytes.IndexAny(b[p:], "<> "); j >= 0 {
					p += j + r.Intn(2)
				}
			}
			b = bytes.Join([][]byte{b[:p], []byte(t), b[p:]}, nil)
		case 6:
			if len(other) > 0 {
				s := r.Intn(len(other))
				e := min(len(other), s+r.Intn(400))
				b = bytes.Join([][]byte{b[:p], other[s:e], b[p:]}, nil)
			}
		case 7: // move an element
			s, e := elemAt(b, p)
			if e > s {
				x := append([]byte{}, b[s:e]...)
				if r.Intn(2) == 0 {
					b = append(b[:s:s], b[e:]...)
				}
				if len(b) == 0 {
					break
				}
				at := r.Intn(len(b))
				if j := bytes.IndexByte(b[at:], '<'); j >= 0 {
					at += j
				}
				b = bytes.Join([][]byte{b[:at], x, b[at:]}, nil)
			}
		case 8: // rename a name
			if j := bytes.IndexByte(b[p:], ':'); j >= 0 {
				names := []string{"rdf:li", "rdf:Seq", "rdf:Bag", "rdf:Alt", "rdf:Description", "xmp:Rating", "dc:title", "dc:creator", "xmpMM:History", "xmpMM:Pantry", "exif:Flash", "stRef:instanceID", "xml:lang", "a:b"}
				n := names[r.Intn(len(names))]
				s := p + j
				for s > 0 && isNameByte(b[s-1]) {
					s--
				}
				e := p + j + 1
				for e < len(b) && isNameByte(b[e]) {
					e++
				}
				old := string(b[s:e])
				if r.Intn(2) == 0 {
					b = bytes.ReplaceAll(b, []byte(old), []byte(n))
				} else {
					b = bytes.Join([][]byte{b[:s], []byte(n), b[e:]}, nil)
				}
			}
		}
		if len(b) > 300000 {
			b = b[:300000]
		}
	}
	return b
}

func isNameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

// elemAt finds the extent of the element that starts at or after p.
func elemAt(b []byte, p int) (int, int) {
	j := bytes.IndexByte(b[p:], '<')
	if j < 0 || p+j+1 >= len(b) || !isNameByte(b[p+j+1]) {
		return 0, 0
	}
	s := p + j
	e := s + 1
	for e < len(b) && (isNameByte(b[e]) || b[e] == ':') {
		e++
	}
	end := "</" + string(b[s+1:e]) + ">"
	if k := bytes.Index(b[e:], []byte(end)); k >= 0 {
		return s, e + k + len(end)
	}
	return 0, 0
}

// tree level: random operations on the XML element tree, written back as
// well-formed XML with declared prefixes.
func mutateTree(r *rand.Rand, root *el) {
	var all []*el
	var walk func(e *el)
	walk = func(e *el) {
		all = append(all, e)
		for _, k := range e.kids {
			walk(k)
		}
	}
	walk(root)
	pick := func() *el { return all[r.Intn(len(all))] }
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		e := pick()
		o := pick()
		switch r.Intn(11) {
		case 0:
			if len(e.kids) > 0 {
				k := r.Intn(len(e.kids))
				e.kids = append(e.kids[:k:k], e.kids[k+1:]...)
			}
		case 1:
			if len(e.kids) > 0 {
				e.kids = append(e.kids, e.kids[r.Intn(len(e.kids))].clone(0))
			}
		case 2:
			e.kids = append(e.kids, o.clone(0))
		case 3:
			e.space, e.local = o.space, o.local
		case 4:
			e.text = xmlText(hostileVal(r))
		case 5:
			e.kids = nil
		case 6:
			e.attrs = append([]xmlAttr{}, o.attrs...)
		case 7:
			if len(o.attrs) > 0 {
				a := o.attrs[r.Intn(len(o.attrs))]
				for _, x := range e.attrs {
					if x.Name == a.Name {
						a.Name.Local = "z" + a.Name.Local
					}
				}
				if r.Intn(2) == 0 {
					a.Value = xmlText(hostileVal(r))
				}
				e.attrs = append(e.attrs, a)
			}
		case 8:
			w := &el{space: nsRDF, local: []string{"Seq", "Bag", "Alt", "li", "Description", "value", "type"}[r.Intn(7)], kids: e.kids}
			e.kids = []*el{w}
		case 9:
			if len(e.kids) == 1 {
				e.kids = e.kids[0].kids
			}
		case 10:
			q := golden.q(allPropName(r))
			e.space, e.local = q.uri, q.local
		}
	}
}

func allPropName(r *rand.Rand) string {
	f := strings.Fields(allProps[r.Intn(len(allProps))])
	return f[1]
}

func (e *el) clone(depth int) *el {
	x := &el{space: e.space, local: e.local, text: e.text, attrs: append([]xmlAttr{}, e.attrs...)}
	if depth < 12 {
		for _, k := range e.kids {
			x.kids = append(x.kids, k.clone(depth+1))
		}
	}
	return x
}

func (e *el) xml() []byte {
	pfx := map[string]string{nsRDF: "rdf", nsX: "x", nsXMLu: "xml"}
	var collect func(e *el, d int)
	collect = func(e *el, d int) {
		add := func(u string) {
			if _, ok := pfx[u]; !ok && u != "" {
				p, known := golden.known(u)
				if !known {
					p = fmt.Sprintf("q%d", len(pfx))
				}
				pfx[u] = p
			}
		}
		add(e.space)
		for _, a := range e.attrs {
			add(a.Name.Space)
		}
		if d < 60 {
			for _, k := range e.kids {
				collect(k, d+1)
			}
		}
	}
	collect(e, 0)
	var b strings.Builder
	var w func(e *el, d int)
	name := func(u, l string) string {
		if u == "" {
			return l
		}
		return pfx[u] + ":" + l
	}
	w = func(e *el, d int) {
		b.WriteString("<" + name(e.space, e.local))
		if d == 0 {
			for _, u := range sortedKeys(pfx) {
				if u != nsXMLu {
					fmt.Fprintf(&b, " xmlns:%s=\"%s\"", pfx[u], escText(u, '"', &canonStyle, nil))
				}
			}
		}
		for _, a := range e.attrs {
			fmt.Fprintf(&b, " %s=\"%s\"", name(a.Name.Space, a.Name.Local), escText(a.Value, '"', &canonStyle, nil))
		}
		b.WriteString(">" + escText(e.text, 0, &canonStyle, nil))
		if d < 60 {
			for _, k := range e.kids {
				w(k, d+1)
			}
		}
		b.WriteString("</" + name(e.space, e.local) + ">")
	}
	w(e, 0)
	return []byte(b.String())
}

// mutateJSON replaces parts of a decoded JSON value.
func mutateJSON(r *rand.Rand, v any, n int) any {
	if r.Intn(n) == 0 {
		switch r.Intn(14) {
		case 0:
			return nil
		case 1:
			return true
		case 2:
			return r.NormFloat64() * 1e9
		case 3:
			return 1e300
		case 4:
			return hostileVal(r)
		case 5:
			return []any{v}
		case 6:
			return []any{}
		case 7:
			return map[string]any{}
		case 8:
			return map[string]any{"value": v, "lang": "en", "isDefault": true}
		case 9:
			return []any{v, hostileVal(r), nil, 1.5, map[string]any{"a": v}}
		case 10:
			return map[string]any{"rdf:value": v}
		case 11:
			return map[string]any{allPropName(r): v}
		case 12:
			return []any{map[string]any{"value": v, "lang": 5, "isDefault": "x"}, map[string]any{"value": "w", "lang": "en"}}
		case 13:
			return ""
		}
	}
	switch v := v.(type) {
	case []any:
		for i := range v {
			v[i] = mutateJSON(r, v[i], n)
		}
		if len(v) > 0 && r.Intn(n) == 0 {
			v = append(v, v[r.Intn(len(v))])
		}
		return v
	case map[string]any:
		for _, k := range sortedKeys(v) {
			v[k] = mutateJSON(r, v[k], n)
			if r.Intn(n) == 0 {
				x := v[k]
				delete(v, k)
				v[[]string{"", ":", "a", "a:", ":b", "a:b:c", "rdf:li", "xmlns:q", "xml:lang", "dc:title", "acme:x", "namespaces", allPropName(r)}[r.Intn(13)]] = x
			}
		}
		return v
	}
	return v
}

func jsonBytes(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		return []byte("null")
	}
	return b
}

type xmlAttr = xml.Attr
