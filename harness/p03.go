package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// expectPaths lists path = text for a registered property value.
func expectPaths(path string, s *Schema, v *val, pfx string, out *[]string) {
	switch v.kind {
	case 's':
		if v.text != "" {
			*out = append(*out, path+" = "+v.text)
		}
	case 'a':
		if s != nil && s.Type == "xmpbase.IdentifierArray" {
			return // addressed as one text per item
		}
		for i, x := range v.items {
			if x.lang == "x-default" && sameText(v.items[1:], x.text) {
				continue // the default is one of the languages, listed as such
			}
			p := fmt.Sprintf("%s[%d]", path, i)
			if strings.HasSuffix(path, "]") {
				p = fmt.Sprintf("%s/[%d]", path, i)
			}
			if x.lang != "" {
				p = fmt.Sprintf("%s[%s]", path, x.lang)
			}
			var e *Schema
			if s != nil {
				e = s.Elem
			}
			expectPaths(p, e, x, pfx, out)
		}
	case 't':
		for k, x := range v.fields {
			if k.uri == "" {
				continue // no path can name it
			}
			p, _ := golden.known(k.uri)
			var e *Schema
			if s != nil {
				e = s.Fields[p+":"+k.local]
			}
			seg := p + ":" + k.local
			if p == pfx {
				seg = k.local
			}
			expectPaths(path+"/"+seg, e, x, pfx, out)
		}
	}
}

func sameText(l []*val, t string) bool {
	for _, x := range l {
		if x.text == t {
			return true
		}
	}
	return false
}

func init() {
	register(&Property{
		ID:   "P03",
		Rule: "generated values of registered properties decoded from XML; the oracle is the committed property table (name, value kind, canonical text): each must land in the typed model, be listed by path and be returned by GetPath; distinct by (property, value shape) or (document shape)",
		Scenarios: []Scenario{
			{"model access", 3000, 40000, modelAccess},
			{"properties", 12 * len(allProps), 60 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				c.Seen(p, v.shape())
				c.Sample("%s = %s", p, v)
				bind(c, singleDoc(m, p, v))
			}},
			{"values", len(leafTable), len(leafTable), func(c *Case) {
				l := leafTable[c.Idx]
				c.Seen(l.ref.prop, l.ref.path, l.text)
				bind(c, singleDoc(l.model, l.ref.prop, l.ref.wrap(l.text)))
			}},
			{"documents", 2000, 60000, func(c *Case) {
				d := genDoc(c.R, genOpt{about: true, maxProps: 10})
				c.Seen(d.shapes())
				bind(c, d)
			}},
		},
	})
}

func bind(c *Case, d *gdoc) {
	b := writeXMP(d, randStyle(c.R), c.R)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	have := map[string]bool{}
	for q := range d.props {
		have[d.pfx[q.uri]] = true
	}
	for _, m := range sortedKeys(have) {
		ms := golden.byPfx[m]
		if ms == nil {
			continue
		}
		ns, err := xmp.GetNamespace(m)
		if err != nil {
			c.Fail("namespace:"+m, "namespace %s is not registered", m)
			continue
		}
		if ns.GetURI() != ms.URI {
			c.Fail("uri:"+m, "namespace %s has URI %s, not %s", m, ns.GetURI(), ms.URI)
		}
		mod := doc.FindModel(ns)
		if mod == nil {
			c.Fail("model:"+m, "no model for %s after decoding its properties", m)
			continue
		}
		if t := fmt.Sprintf("%T", mod); t != ms.Type {
			c.Fail("model-type:"+m, "model for %s is %s, not %s", m, t, ms.Type)
		}
		n := doc.FindNode(ns)
		if n == nil {
			c.Fail("node:"+m, "no node for %s", m)
			continue
		}
		c.Eval(3)
		for _, x := range n.Nodes {
			c.Fail("untyped:"+x.FullName(), "registered property %s was kept as untyped node", x.FullName())
		}
		for _, a := range n.Attr {
			if a.Name.Space == "" && !strings.HasPrefix(a.Name.Local, "xmlns") && !strings.HasPrefix(a.Name.Local, "rdf:") {
				c.Fail("untyped:"+a.Name.Local, "registered property %s was kept as untyped attribute", a.Name.Local)
			}
		}
	}
	var want []string
	for q, v := range d.props {
		p := d.pfx[q.uri]
		ms := golden.byPfx[p]
		if ms == nil {
			continue
		}
		expectPaths(p+":"+q.local, ms.Props[p+":"+q.local], v, p, &want)
	}
	sort.Strings(want)
	got, err := listPaths(doc)
	if err != nil {
		c.Fail("listpaths", "%v", err)
		return
	}
	gm := map[string]bool{}
	for _, g := range got {
		gm[g] = true
	}
	for _, w := range want {
		c.Eval(2)
		i := strings.Index(w, " = ")
		path, text := w[:i], w[i+3:]
		if !gm[w] {
			c.Fail("list:"+path, "path list lacks %s\n  has %s", w, head(got, 12))
		}
		s, err := doc.GetPath(xmp.Path(path))
		if err != nil || s != text {
			c.Fail("get:"+path, "GetPath(%s) = %q, %v; the document says %q", path, s, err, text)
		}
		if c.failed() {
			return
		}
	}
}
