package main

// Independent reading of an XMP packet. It shares no code with the library
// under test: it walks encoding/xml tokens and builds the RDF/XMP value tree
// (simple values, arrays, structures) defined by ISO 16684-1.

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode"
)

const (
	nsRDF  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	nsX    = "adobe:ns:meta/"
	nsXMLu = "http://www.w3.org/XML/1998/namespace"
)

// el is a raw XML element with resolved namespaces.
type el struct {
	space, local string
	attrs        []xml.Attr
	kids         []*el
	text         string
	prefix       string
}

// parseXML parses one XML document strictly (no undeclared prefixes, no
// trailing content). Processing instructions and comments are skipped.
func parseXML(b []byte) (*el, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	// resolve prefixes ourselves, RawToken leaves them in place
	type scope map[string]string
	scopes := []scope{{"xml": nsXMLu}}
	lookup := func(p string) (string, bool) {
		for i := len(scopes) - 1; i >= 0; i-- {
			if u, ok := scopes[i][p]; ok {
				return u, true
			}
		}
		return "", p == ""
	}
	var root *el
	var stack []*el
	var names []string
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			sc := scope{}
			seen := map[string]bool{}
			for _, x := range append([]xml.Attr{{Name: t.Name}}, t.Attr...) {
				if !ncName(x.Name.Local) || x.Name.Space != "" && !ncName(x.Name.Space) {
					return nil, fmt.Errorf("name %q:%q is not well-formed", x.Name.Space, x.Name.Local)
				}
			}
			for _, a := range t.Attr {
				k := a.Name.Space + ":" + a.Name.Local
				if seen[k] {
					return nil, fmt.Errorf("duplicate attribute %s on <%s:%s>", k, t.Name.Space, t.Name.Local)
				}
				seen[k] = true
				if a.Name.Space == "xmlns" {
					sc[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					sc[""] = a.Value
				}
			}
			scopes = append(scopes, sc)
			u, ok := lookup(t.Name.Space)
			if !ok {
				return nil, fmt.Errorf("undeclared prefix %q on element %s", t.Name.Space, t.Name.Local)
			}
			e := &el{space: u, local: t.Name.Local, prefix: t.Name.Space}
			seenU := map[string]bool{}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
					continue
				}
				au := ""
				if a.Name.Space != "" {
					if au, ok = lookup(a.Name.Space); !ok {
						return nil, fmt.Errorf("undeclared prefix %q on attribute %s", a.Name.Space, a.Name.Local)
					}
				}
				k := au + " " + a.Name.Local
				if seenU[k] {
					return nil, fmt.Errorf("duplicate expanded attribute %s", k)
				}
				seenU[k] = true
				e.attrs = append(e.attrs, xml.Attr{Name: xml.Name{Space: au, Local: a.Name.Local}, Value: a.Value})
			}
			if len(stack) == 0 {
				if root != nil {
					return nil, fmt.Errorf("more than one root element")
				}
				root = e
			} else {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
			}
			stack = append(stack, e)
			names = append(names, t.Name.Space+":"+t.Name.Local)
		case xml.EndElement:
			if len(stack) == 0 {
				return nil, fmt.Errorf("unexpected end element %s", t.Name.Local)
			}
			if n := names[len(names)-1]; n != t.Name.Space+":"+t.Name.Local {
				return nil, fmt.Errorf("element %s closed by %s:%s", n, t.Name.Space, t.Name.Local)
			}
			stack = stack[:len(stack)-1]
			names = names[:len(names)-1]
			scopes = scopes[:len(scopes)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(t)
			} else if strings.TrimSpace(string(t)) != "" {
				return nil, fmt.Errorf("text outside root element: %q", string(t))
			}
		}
	}
	if len(stack) > 0 {
		return nil, fmt.Errorf("unclosed element %s", names[len(names)-1])
	}
	if root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return root, nil
}

type qname struct{ uri, local string }

func (q qname) String() string { return "{" + q.uri + "}" + q.local }

// val is one XMP value.
type val struct {
	kind   byte // 's' simple, 'a' array, 't' structure
	text   string
	lang   string // xml:lang qualifier
	typ    string // Seq, Bag, Alt
	items  []*val
	fields map[qname]*val
}

type rdfDoc struct {
	about   string
	toolkit string
	props   map[qname]*val
}

func (v *val) empty() bool {
	switch v.kind {
	case 's':
		return v.text == ""
	case 'a':
		for _, x := range v.items {
			if !x.empty() {
				return false
			}
		}
		return true
	default:
		for _, x := range v.fields {
			if !x.empty() {
				return false
			}
		}
		return true
	}
}

// String renders v canonically: structure fields sorted, alternatives with a
// language sorted behind their default.
func (v *val) String() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v *val) write(b *strings.Builder) {
	if v == nil {
		b.WriteString("<absent>")
		return
	}
	switch v.kind {
	case 's':
		fmt.Fprintf(b, "%q", v.text)
	case 'a':
		b.WriteString(v.typ + "[")
		items := v.items
		if v.typ == "Alt" {
			// languages are keys, only the default has a fixed position
			rank := func(x *val) string {
				if x.lang == "x-default" {
					return ""
				}
				return x.lang
			}
			items = append([]*val{}, items...)
			sort.SliceStable(items, func(i, j int) bool { return rank(items[i]) < rank(items[j]) })
		}
		for i, x := range items {
			if i > 0 {
				b.WriteString(", ")
			}
			if x.lang != "" {
				b.WriteString("@" + x.lang + " ")
			}
			x.write(b)
		}
		b.WriteString("]")
	case 't':
		keys := make([]qname, 0, len(v.fields))
		for k, f := range v.fields {
			if !f.empty() {
				keys = append(keys, k)
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		b.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(k.String() + "=")
			v.fields[k].write(b)
		}
		b.WriteString("}")
	}
}

func attrOf(e *el, uri, local string) (string, bool) {
	for _, a := range e.attrs {
		if a.Name.Space == uri && a.Name.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

func readValue(e *el) (*val, error) {
	lang, _ := attrOf(e, nsXMLu, "lang")
	v, err := readValue0(e)
	if v != nil {
		v.lang = lang
	}
	return v, err
}

func structFrom(fields map[qname]*val, e *el) error {
	add := func(q qname, v *val) error {
		if v.empty() {
			return nil
		}
		if _, ok := fields[q]; ok {
			return fmt.Errorf("field %v occurs twice in a structure", q)
		}
		fields[q] = v
		return nil
	}
	for _, a := range e.attrs {
		if a.Name.Space == nsRDF || a.Name.Space == nsXMLu {
			continue
		}
		if err := add(qname{a.Name.Space, a.Name.Local}, &val{kind: 's', text: strings.TrimSpace(a.Value)}); err != nil {
			return err
		}
	}
	for _, k := range e.kids {
		if k.space == nsRDF && k.local == "Description" {
			if err := structFrom(fields, k); err != nil {
				return err
			}
			continue
		}
		v, err := readValue(k)
		if err != nil {
			return err
		}
		if err := add(qname{k.space, k.local}, v); err != nil {
			return err
		}
	}
	return nil
}

func readValue0(e *el) (*val, error) {
	if r, ok := attrOf(e, nsRDF, "resource"); ok {
		return &val{kind: 's', text: r}, nil
	}
	if len(e.kids) == 1 && e.kids[0].space == nsRDF {
		switch k := e.kids[0]; k.local {
		case "Seq", "Bag", "Alt":
			a := &val{kind: 'a', typ: k.local}
			for _, li := range k.kids {
				if li.space != nsRDF || li.local != "li" {
					return nil, fmt.Errorf("array item is <%s>", li.local)
				}
				v, err := readValue(li)
				if err != nil {
					return nil, err
				}
				a.items = append(a.items, v)
			}
			return a, nil
		}
	}
	hasField := false
	for _, a := range e.attrs {
		if a.Name.Space != nsRDF && a.Name.Space != nsXMLu {
			hasField = true
		}
	}
	if len(e.kids) > 0 || hasField {
		s := &val{kind: 't', fields: map[qname]*val{}}
		if err := structFrom(s.fields, e); err != nil {
			return nil, err
		}
		return s, nil
	}
	return &val{kind: 's', text: strings.TrimSpace(e.text)}, nil
}

// readXMP reads a serialized XMP document (with or without packet wrapper and
// x:xmpmeta element) into its property map.
func readXMP(b []byte) (*rdfDoc, error) {
	root, err := parseXML(b)
	if err != nil {
		return nil, err
	}
	d := &rdfDoc{props: map[qname]*val{}}
	if root.space == nsX && root.local == "xmpmeta" {
		d.toolkit, _ = attrOf(root, nsX, "xmptk")
		if len(root.kids) != 1 {
			return nil, fmt.Errorf("x:xmpmeta has %d children", len(root.kids))
		}
		root = root.kids[0]
	}
	if root.space != nsRDF || root.local != "RDF" {
		return nil, fmt.Errorf("root is {%s}%s, not rdf:RDF", root.space, root.local)
	}
	for _, n := range root.kids {
		if n.space != nsRDF || n.local != "Description" {
			return nil, fmt.Errorf("child of rdf:RDF is %s", n.local)
		}
		if a, ok := attrOf(n, nsRDF, "about"); ok {
			if d.about != "" && a != "" && d.about != a {
				return nil, fmt.Errorf("two different rdf:about values")
			}
			if a != "" {
				d.about = a
			}
		}
		if err := structFrom(d.props, n); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// flat lists property -> canonical value.
func (d *rdfDoc) flat() map[string]string {
	m := map[string]string{}
	for k, v := range d.props {
		if !v.empty() {
			m[k.String()] = v.String()
		}
	}
	return m
}

func diffMaps(want, got map[string]string) []string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("%s: lost, was %s", k, v))
		} else if g != v {
			out = append(out, fmt.Sprintf("%s: was %s, is %s", k, v, g))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("%s: appeared as %s", k, v))
		}
	}
	sort.Strings(out)
	return out
}

func ncName(s string) bool {
	for i, c := range s {
		if c == '_' || unicode.IsLetter(c) {
			continue
		}
		if i == 0 || c != '-' && c != '.' && c != 0xb7 && !unicode.IsDigit(c) && !unicode.IsMark(c) {
			return false
		}
	}
	return s != ""
}
