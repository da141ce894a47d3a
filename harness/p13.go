package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// liveNodes collects the nodes reachable from a document.
func liveNodes(doc *xmp.Document, out map[*xmp.Node]string, name string) {
	seen := map[uintptr]bool{}
	var node func(n *xmp.Node)
	var walk func(v reflect.Value, depth int)
	node = func(n *xmp.Node) {
		if n == nil || out[n] != "" {
			return
		}
		out[n] = name + " " + n.XMLName.Local
		for _, x := range n.Nodes {
			node(x)
		}
		if n.Model != nil {
			walk(reflect.ValueOf(n.Model), 0)
		}
	}
	ext := reflect.TypeOf(&xmp.Extension{})
	nt := reflect.TypeOf(&xmp.Node{})
	walk = func(v reflect.Value, depth int) {
		if depth > 12 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.CanInterface() {
				switch v.Type() {
				case ext:
					node((*xmp.Node)(v.Interface().(*xmp.Extension)))
					return
				case nt:
					node(v.Interface().(*xmp.Node))
					return
				}
			}
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			switch v.Type().Elem().Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), depth+1)
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k), depth+1)
			}
		}
	}
	for _, n := range doc.Nodes() {
		node(n)
	}
}

// poolCheck takes every free node from the node pool: each must be handed out
// once, be empty and belong to no document.
func poolCheck(c *Case, docs map[string]*xmp.Document) {
	live := map[*xmp.Node]string{}
	for k, d := range docs {
		l := map[*xmp.Node]string{}
		liveNodes(d, l, k)
		for n, s := range l {
			if o := live[n]; o != "" {
				c.Fail("shared", "a node belongs to two documents: %s and %s", o, s)
				return
			}
			live[n] = s
		}
	}
	const max = 6000
	got := make(map[*xmp.Node]bool, max)
	for i := 0; i < max; i++ {
		n := xmp.NewNode(xml.Name{Local: "p:x"})
		if got[n] {
			c.Fail("twice", "NewNode handed out the same node twice")
			return
		}
		got[n] = true
		if s := live[n]; s != "" {
			c.Fail("live", "NewNode handed out a node that is part of a document: %s", s)
			return
		}
		if len(n.Attr) > 0 || len(n.Nodes) > 0 || n.Model != nil || n.Value != "" || n.XMLName.Local != "p:x" || n.XMLName.Space != "" {
			c.Fail("unclean", "NewNode handed out a node with content: %+v", *n)
			return
		}
	}
	c.Eval(max + len(live))
	for n := range got {
		n.Close()
	}
	c.Event("pool drained")
}

func brokenInput(c *Case, b []byte) []byte {
	r := c.R
	out := append([]byte{}, b...)
	switch r.Intn(6) {
	case 4:
		// well-formed, but with a value of the wrong type or a wrong name
		bad := []string{
			`<xmp:CreateDate xmlns:xmp="http://ns.adobe.com/xap/1.0/">never</xmp:CreateDate>`,
			`<xmpMM:DerivedFrom xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" rdf:parseType="Resource"><xmpMM:nosuch>1</xmpMM:nosuch></xmpMM:DerivedFrom>`,
			`<nons:x>1</nons:x>`,
		}[r.Intn(3)]
		n := strings.Count(string(out), "</rdf:Description>")
		if n == 0 {
			return out[:len(out)/2]
		}
		i := 0
		for k := 1 + r.Intn(n); k > 0; k-- {
			i += strings.Index(string(out[i:]), "</rdf:Description>") + 1
		}
		i--
		return append(out[:i:i], append([]byte(bad), out[i:]...)...)
	case 5:
		if i := strings.LastIndex(string(out), "</rdf:Description>"); i > 0 {
			i += len("</rdf:Description>")
			return append(out[:i:i], append([]byte("<rdf:li>x</rdf:li>"), out[i:]...)...)
		}
		return out[:len(out)/2]
	case 0:
		return out[:r.Intn(len(out)+1)]
	case 1:
		for i, n := 0, 1+r.Intn(4); i < n && len(out) > 0; i++ {
			out[r.Intn(len(out))] = byte(r.Intn(256))
		}
	case 2:
		i := strings.LastIndex(string(out), "</rdf:Description>")
		if i > 0 {
			out = append(out[:i], append([]byte("<nons:x>1</nons:x>"), out[i:]...)...)
		}
	default:
		if i := strings.LastIndex(string(out), "</"); i > 0 {
			out = append(out[:i], "</x>"...)
		}
	}
	return out
}

func namespaceSet(d *xmp.Document) string {
	var l []string
	for _, ns := range d.Namespaces() {
		l = append(l, ns.GetName()+"="+ns.GetURI())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// brokenJSON damages the JSON form of a document.
func brokenJSON(r *rand.Rand, b []byte) []byte {
	s := string(b)
	models := `"models":{`
	i := strings.LastIndex(s, models) + len(models)
	switch r.Intn(5) {
	case 0:
		return []byte(s[:r.Intn(len(s))])
	case 1:
		return []byte(s[:i] + `"zzz":7,` + s[i:])
	case 2:
		return []byte(s[:i] + `"xmp":{"xmp:CreateDate":"never"},` + s[i:])
	case 3:
		return []byte(s[:i] + `"nons":{"nons:x":"1"},` + s[i:])
	}
	// the last one is the first to be refused
	return []byte(strings.TrimSuffix(s, "}}") + `,"zz":{"zz:a":"1"}}}`)
}

// isolation runs histories over several documents at once.
func isolation(c *Case) {
	r := c.R
	n := 2 + r.Intn(3)
	var ws []*world
	fresh := func() *world {
		return newWorld(c, genDoc(r, genOpt{unknown: r.Intn(2) == 0, about: true, maxProps: 5}))
	}
	for i := 0; i < n; i++ {
		w := fresh()
		if w == nil {
			return
		}
		ws = append(ws, w)
	}
	defer func() {
		for _, w := range ws {
			w.doc.Close()
		}
	}()
	type kept struct{ b, copy []byte }
	var outs []kept
	log := []string{"start"}
	note := func(f string, a ...any) {
		log = append(log, fmt.Sprintf(f, a...))
		c.Event(strings.Fields(f)[0])
	}
	docs := func() map[string]*xmp.Document {
		m := map[string]*xmp.Document{}
		for i, w := range ws {
			m[fmt.Sprint("document ", i)] = w.doc
		}
		return m
	}
	for i, m := 0, 3+r.Intn(14); i < m; i++ {
		k := r.Intn(n)
		w := ws[k]
		before := make([]string, n)
		for j, x := range ws {
			before[j] = namespaceSet(x.doc)
		}
		op := r.Intn(13)
		switch op {
		case 0, 1, 2, 3:
			note("edit %d", k)
			if !w.step(c) {
				return
			}
		case 4:
			note("replace %d", k)
			w.doc.Close()
			x := fresh()
			if x == nil {
				return
			}
			if r.Intn(3) == 0 {
				// closing again is harmless
				w.doc.Close()
			}
			ws[k] = x
		case 5:
			note("broken")
			d := genDoc(r, genOpt{unknown: true, about: true, maxProps: 5})
			if doc, err := decodeXML(brokenInput(c, writeXMP(d, randStyle(r), r))); err == nil {
				doc.Close()
			}
		case 6:
			// a failed decode into a document leaves it alone
			note("redecode %d", k)
			d := genDoc(r, genOpt{unknown: true, about: true, maxProps: 5})
			if r.Intn(2) == 0 {
				d.toolkit = "other " + genToken(r)
			}
			b := brokenInput(c, writeXMP(d, randStyle(r), r))
			if probe, err := decodeXML(b); err == nil {
				probe.Close()
				break
			}
			if err := xmp.Unmarshal(b, w.doc); err == nil {
				c.Fail("redecode", "an input is refused by a new document but accepted by a used one")
				return
			}
		case 7:
			note("write %d", k)
			if w.models {
				break // saving changes synced models
			}
			b, err := xmp.Marshal(w.doc)
			if err != nil {
				c.Fail("encode", "%v", err)
				return
			}
			outs = append(outs, kept{b, append([]byte{}, b...)})
			if b, err = json.Marshal(w.doc); err == nil {
				outs = append(outs, kept{b, append([]byte{}, b...)})
				x := &xmp.Document{}
				if err := json.Unmarshal(b, x); err != nil {
					c.Fail("json", "%v", err)
					return
				}
				x.Close()
			}
		case 8:
			if w.models {
				break // listing changes synced models
			}
			note("copy %d", k)
			x := xmp.NewDocument()
			if err := x.Merge(w.doc, xmp.EXTEND); err == nil {
				for _, q := range r.Perm(len(w.d.models))[:r.Intn(1+len(w.d.models))] {
					x.RemoveNamespaceByName(w.d.models[q])
				}
				if p, err := x.ListPaths(); err == nil {
					for _, v := range p {
						if r.Intn(2) == 0 {
							x.SetPath(xmp.PathValue{Path: v.Path, Value: "", Flags: xmp.DELETE | xmp.NOFAIL})
						} else if r.Intn(2) == 0 {
							x.SetPath(xmp.PathValue{Path: v.Path, Value: "other", Flags: xmp.REPLACE | xmp.NOFAIL})
						}
					}
				}
			}
			x.Close()
		case 9:
			if w.models {
				break
			}
			note("merge into %d", k)
			x := xmp.NewDocument()
			if r.Intn(2) == 0 {
				if y, err := decodeXML(writeXMP(w.d, randStyle(r), r)); err == nil {
					x.Close()
					x = y
				}
			}
			// what is added here must not come back
			x.Merge(w.doc, xmp.MERGE)
			x.SyncModels()
			x.SetDirty()
			xmp.Marshal(x)
			x.Close()
		case 12:
			// the same for JSON
			note("redecode-json %d", k)
			d := genDoc(r, genOpt{unknown: true, about: true, maxProps: 5})
			x, err := decodeXML(writeXMP(d, randStyle(r), r))
			if err != nil {
				break
			}
			b, err := json.Marshal(x)
			x.Close()
			if err != nil {
				break
			}
			b = brokenJSON(r, b)
			probe := &xmp.Document{}
			err = json.Unmarshal(b, probe)
			probe.Close()
			if err == nil {
				break
			}
			c.Event("refused JSON")
			if err := json.Unmarshal(b, w.doc); err == nil {
				c.Fail("redecode", "JSON is refused by a new document but accepted by a used one")
				return
			}
		case 10:
			note("hostile")
			b := hostileXML(r)
			if doc, err := decodeXML(b); err == nil {
				doc.Close()
			}
		default:
			note("pool")
			poolCheck(c, docs())
		}
		if c.failed() {
			return
		}
		for j, x := range ws {
			if s := namespaceSet(x.doc); s != before[j] && (op > 4 || j != k) {
				c.Art("operations", strings.Join(log, "\n"))
				c.Fail("namespaces", "namespaces of document %d changed with operation %s on others:\n  %s\n  %s", j, log[len(log)-1], before[j], s)
				return
			}
			if !x.verify(c, fmt.Sprintf("document %d after operation %d (%s)", j, i, log[len(log)-1])) {
				c.Art("operations", strings.Join(log, "\n"))
				return
			}
		}
		for _, o := range outs {
			if string(o.b) != string(o.copy) {
				c.Fail("output", "an output changed after it was returned (operation %s)", log[len(log)-1])
				return
			}
		}
	}
	c.Seen(strings.Join(log, ";"))
	poolCheck(c, docs())
	for _, w := range ws {
		if c.failed() {
			return
		}
		w.finish(c)
	}
	poolCheck(c, nil)
}

// hostileXML gives XML of odd shapes, some of it valid XMP.
func hostileXML(r *rand.Rand) []byte {
	frag := []string{`<dc:title><rdf:Alt><rdf:li>a</rdf:li></rdf:Alt></dc:title>`, `<dc:title><rdf:Bag><rdf:li>a</rdf:li></rdf:Bag></dc:title>`,
		`<xmpMM:Ingredients><rdf:Bag><rdf:li stRef:instanceID="x"/></rdf:Bag></xmpMM:Ingredients>`, `<dc:creator rdf:parseType="Resource"><a/></dc:creator>`,
		`<z:q xmlns:z="urn:z"><z:a><z:b>1</z:b></z:a></z:q>`, `<xmpDM:Tracks><rdf:Bag><rdf:li><rdf:Description/></rdf:li></rdf:Bag></xmpDM:Tracks>`,
		`<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description xmpMM:InstanceID="1"><dc:title>x</dc:title></rdf:Description></rdf:li></rdf:Bag></xmpMM:Pantry>`,
		`<!-- c -->`, `text`, `<dc:format/>`, `<dc:date><rdf:Seq><rdf:li>nodate</rdf:li></rdf:Seq></dc:date>`, `<xmp:CreateDate>nodate</xmp:CreateDate>`}
	var b strings.Builder
	b.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">`)
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		b.WriteString(`<rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:xmp="http://ns.adobe.com/xap/1.0/" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:xmpDM="http://ns.adobe.com/xmp/1.0/DynamicMedia/">`)
		for j, m := 0, r.Intn(5); j < m; j++ {
			b.WriteString(frag[r.Intn(len(frag))])
		}
		b.WriteString(`</rdf:Description>`)
	}
	b.WriteString(`</rdf:RDF></x:xmpmeta>`)
	return []byte(b.String())
}

func init() {
	register(&Property{
		ID:   "P13",
		Rule: "interleaved histories over 2-4 documents: edits, closing (also twice), decoding of valid, broken and hostile input, failed decodes into existing documents, writing, merging copies; after every operation every document is compared with its own reference; the node pool is drained and every free node must be unique, empty and part of no document; distinct by operation history",
		Scenarios: []Scenario{
			{"isolation", 5000, 100000, isolation},
		},
	})
}
