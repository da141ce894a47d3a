package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// faultWriter accepts a number of bytes and then fails.
type faultWriter struct {
	buf    bytes.Buffer // not embedded: only Write may be seen
	limit  int
	err    error
	calls  int
	after  int // writes after the first failure
	failed bool
	short  bool // take the part that fits before failing
	chunk  int  // fail at this call instead
}

func (w *faultWriter) Write(b []byte) (int, error) {
	w.calls++
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.chunk > 0 {
		if w.calls >= w.chunk {
			w.failed = true
			n := 0
			if w.short {
				n = len(b) / 2
				w.buf.Write(b[:n])
			}
			return n, w.err
		}
		return w.buf.Write(b)
	}
	if w.limit >= 0 && w.buf.Len()+len(b) > w.limit {
		n := 0
		if w.short {
			n = w.limit - w.buf.Len()
		}
		w.buf.Write(b[:n])
		w.failed = true
		return n, w.err
	}
	return w.buf.Write(b)
}

type encOpt struct {
	flags          int
	setFlags       bool
	prefix, indent string
	max            int64
}

func (o encOpt) String() string {
	return fmt.Sprintf("flags=%d(%v) indent=%q,%q max=%d", o.flags, o.setFlags, o.prefix, o.indent, o.max)
}

func (o encOpt) encoder(w io.Writer) *xmp.Encoder {
	e := xmp.NewEncoder(w)
	if o.setFlags {
		e.SetFlags(o.flags)
	}
	if o.prefix+o.indent != "" {
		e.Indent(o.prefix, o.indent)
	}
	if o.max != 0 {
		e.SetMaxSize(o.max)
	}
	return e
}

func randOpt(c *Case) encOpt {
	o := encOpt{flags: []int{0, xmp.Xpacket, xmp.Xpacket | xmp.Xpadding}[c.R.Intn(3)], setFlags: c.R.Intn(4) > 0}
	switch c.R.Intn(5) {
	case 0:
		o.indent = "  "
	case 1:
		o.prefix, o.indent = " ", "\t"
	}
	return o
}

func (o encOpt) packet() bool  { return !o.setFlags || o.flags&xmp.Xpacket > 0 }
func (o encOpt) padding() bool { return o.setFlags && o.flags == xmp.Xpacket|xmp.Xpadding }

func init() {
	register(&Property{
		ID: "P06",
		Rule: "generated documents encoded with a size limit at, around and far from their exact size, with and without packet wrapper, padding and indentation, and into writers that fail at every kind of position; " +
			"the written bytes are counted from outside; distinct by (options, distance of the limit from the size, document shape)",
		Scenarios: []Scenario{
			{"limits", 5000, 120000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 6})
				doc, err := decodeXML(writeXMP(d, canonStyle, nil))
				if err != nil {
					return
				}
				defer doc.Close()
				o := randOpt(c)
				var full bytes.Buffer
				if err := o.encoder(&full).Encode(doc); err != nil {
					c.Fail("encode", "%v", err)
					return
				}
				x, err := readXMP(full.Bytes())
				if err != nil {
					c.Fail("bad-output", "%v", err)
					return
				}
				n := int64(full.Len())
				want := x.flat()
				for i := 0; i < 12; i++ {
					o.max = n
					switch c.R.Intn(9) {
					case 0:
						o.max = n
					case 1:
						o.max = n - 1
					case 2:
						o.max = n + 1
					case 3:
						o.max = n - int64(c.R.Intn(30))
					case 4:
						o.max = n + int64(c.R.Intn(200))
					case 5:
						o.max = 1 + int64(c.R.Intn(int(n)))
					case 6:
						o.max = 1 + int64(c.R.Intn(80))
					case 7:
						o.max = n + int64(c.R.Intn(9000))
					case 8:
						o.max = n - n%4096 + []int64{-1, 0, 1}[c.R.Intn(3)]
						if o.max < 1 {
							o.max = 1
						}
					}
					c.Art("options", o.String()+fmt.Sprintf(" size=%d", n))
					c.Seen(o.flags, o.setFlags, o.indent, o.max-n, d.shapes())
					var b bytes.Buffer
					err := o.encoder(&b).Encode(doc)
					c.Eval(3)
					got := int64(b.Len())
					if got > o.max {
						c.Fail("over-limit", "%d bytes written with a limit of %d", got, o.max)
					}
					if o.max < n {
						c.Event("limit below size")
						if err == nil {
							c.Fail("no-overflow", "document of %d bytes encoded without error under a limit of %d", n, o.max)
						} else if !errors.Is(err, xmp.ErrOverflow) {
							c.Fail("overflow-error", "error is %v, not ErrOverflow", err)
						}
						continue
					}
					c.Event("limit at or above size")
					c.Art("output", b.Bytes())
					if err != nil {
						c.Fail("false-overflow", "document of %d bytes does not fit a limit of %d: %v", n, o.max, err)
						continue
					}
					exp := n
					if o.padding() {
						exp = o.max
						c.Event("padded")
					}
					if got != exp {
						c.Fail("size", "%d bytes written, expected %d (size %d, limit %d)", got, exp, n, o.max)
						continue
					}
					y, err := readXMP(b.Bytes())
					if err != nil {
						c.Fail("bad-output", "limited output is not valid: %v", err)
						continue
					}
					c.Eval(len(want))
					if diff := diffMaps(want, y.flat()); len(diff) > 0 {
						c.Fail("content", "limit changes the content:\n  %s", head(diff, 4))
					}
					checkFrame(c, b.Bytes(), o)
					if o.packet() && c.R.Intn(3) == 0 {
						pp, err := xmp.ScanPackets(&pieces{b: append([]byte("junk"), b.Bytes()...), r: c.R})
						if err != nil || len(pp) != 1 || !bytes.Equal(pp[0], b.Bytes()) {
							c.Fail("scan", "the packet is not found again (%d found, %v)", len(pp), err)
						}
					}
				}
			}},
			{"faults", 2500, 120000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 5})
				doc, err := decodeXML(writeXMP(d, canonStyle, nil))
				if err != nil {
					return
				}
				defer doc.Close()
				o := randOpt(c)
				var full bytes.Buffer
				if err := o.encoder(&full).Encode(doc); err != nil {
					c.Fail("encode", "%v", err)
					return
				}
				n := full.Len()
				if c.R.Intn(2) == 0 {
					o.max = int64(n + c.R.Intn(300))
				}
				total := &faultWriter{limit: -1}
				if err := o.encoder(total).Encode(doc); err != nil {
					c.Fail("encode", "%v", err)
					return
				}
				n = total.buf.Len()
				werr := errors.New("disk full")
				for i := 0; i < 8; i++ {
					w := &faultWriter{err: werr, short: c.R.Intn(2) == 0, limit: c.R.Intn(n)}
					switch c.R.Intn(4) {
					case 0:
						w.chunk = 1 + c.R.Intn(total.calls)
					case 1:
						w.limit = n - 1 - c.R.Intn(min(n, 40))
					case 2:
						w.limit = c.R.Intn(min(n, 70))
					}
					c.Art("fault", fmt.Sprintf("%s; fails after %d bytes / at call %d, size %d", o, w.limit, w.chunk, n))
					c.Seen(o.String(), w.limit, w.chunk, d.shapes())
					err := o.encoder(w).Encode(doc)
					c.Eval(2)
					c.Event("write fault")
					if err == nil {
						c.Fail("fault-ignored", "writing failed, but Encode reports success")
					} else if !errors.Is(err, werr) {
						c.Fail("fault-error", "Encode reports %v instead of the error of the writer", err)
					}
				}
				// a writer that only just takes everything
				w := &faultWriter{err: werr, limit: n, short: true}
				if err := o.encoder(w).Encode(doc); err != nil {
					c.Fail("fault-false", "Encode fails though all bytes were taken: %v", err)
				}
				if w.buf.Len() != n {
					c.Fail("fault-size", "wrote %d bytes, earlier %d", w.buf.Len(), n)
				}
				// the document is intact
				if f, _, err := docFlat(doc); err != nil {
					c.Fail("after-fault", "%v", err)
				} else {
					x, _ := readXMP(full.Bytes())
					if diff := diffMaps(x.flat(), f); len(diff) > 0 {
						c.Fail("after-fault", "document changed by failed encodes:\n  %s", head(diff, 4))
					}
				}
			}},
			{"reuse", 400, 20000, func(c *Case) {
				// one encoder writes several documents to a stream
				var b bytes.Buffer
				e := xmp.NewEncoder(&b)
				n := 2 + c.R.Intn(3)
				var want []map[string]string
				for i := 0; i < n; i++ {
					d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 4})
					doc, err := decodeXML(writeXMP(d, canonStyle, nil))
					if err != nil {
						return
					}
					f, _, err := docFlat(doc)
					if err != nil {
						c.Fail("encode", "%v", err)
						return
					}
					want = append(want, f)
					if err := e.Encode(doc); err != nil {
						c.Fail("reuse", "encoding document %d with the same encoder: %v", i, err)
						return
					}
					doc.Close()
				}
				c.Art("output", b.Bytes())
				pp, err := xmp.ScanPackets(bytes.NewReader(b.Bytes()))
				c.Eval(n + 1)
				c.Seen(n, b.Len())
				if err != nil || len(pp) != n {
					c.Fail("reuse", "%d of %d packets found in the stream, %v", len(pp), n, err)
					return
				}
				for i, p := range pp {
					x, err := readXMP(p)
					if err != nil {
						c.Fail("reuse", "packet %d: %v", i, err)
						return
					}
					if diff := diffMaps(want[i], x.flat()); len(diff) > 0 {
						c.Fail("reuse", "packet %d differs:\n  %s", i, head(diff, 4))
					}
				}
			}},
		},
	})
}

// checkFrame looks at what surrounds the document.
func checkFrame(c *Case, b []byte, o encOpt) {
	s := string(b)
	body := s
	if o.packet() {
		i := strings.Index(s, "?>")
		if !strings.HasPrefix(s, "<?xpacket begin=") || i < 0 || !strings.Contains(s[:i], `id="W5M0MpCehiHzreSzNTczkc9d"`) {
			c.Fail("header", "packet header missing: %.80q", s)
			return
		}
		if !strings.HasSuffix(s, `<?xpacket end="w"?>`) {
			c.Fail("trailer", "packet trailer missing: %q", s[max(0, len(s)-60):])
			return
		}
		body = s[i+2 : len(s)-len(`<?xpacket end="w"?>`)]
	} else if strings.Contains(s, "<?xpacket") {
		c.Fail("no-wrapper", "packet wrapper written without Xpacket")
	}
	k := strings.Index(body, "</x:xmpmeta>")
	if k < 0 || !strings.HasPrefix(strings.TrimSpace(body), "<x:xmpmeta ") {
		c.Fail("xmpmeta", "x:xmpmeta element missing")
		return
	}
	pad := body[k+len("</x:xmpmeta>"):]
	if strings.Trim(pad, " \n") != "" {
		c.Fail("padding", "padding contains %q", strings.TrimSpace(pad))
	}
	for _, l := range strings.Split(pad, "\n") {
		if len(l) > 200 {
			c.Fail("padding", "padding line of %d characters", len(l))
			break
		}
	}
	c.Eval(3)
}

// checkForm: structure and namespaces of a written packet.
func checkForm(c *Case, b []byte, about, toolkit string, opt encOpt) *rdfDoc {
	c.Art("output", b)
	checkFrame(c, b, opt)
	root, err := parseXML(b)
	if err != nil {
		c.Fail("malformed", "%v", err)
		return nil
	}
	if root.space != nsX || root.local != "xmpmeta" || len(root.kids) != 1 {
		c.Fail("root", "root is %s with %d children", root.local, len(root.kids))
		return nil
	}
	if tk, ok := attrOf(root, nsX, "xmptk"); !ok || toolkit != "" && tk != toolkit {
		c.Fail("toolkit", "x:xmptk is %q, not %q", tk, toolkit)
	}
	rdf := root.kids[0]
	if rdf.space != nsRDF || rdf.local != "RDF" {
		c.Fail("rdf", "child of x:xmpmeta is %s", rdf.local)
		return nil
	}
	props := map[string]bool{}
	for _, k := range rdf.kids {
		if k.space != nsRDF || k.local != "Description" {
			c.Fail("description", "child of rdf:RDF is %s", k.local)
			return nil
		}
		a, ok := attrOf(k, nsRDF, "about")
		if !ok || a != about {
			c.Fail("about", "rdf:about is %q (present %v), not %q", a, ok, about)
		}
		if strings.TrimSpace(k.text) != "" {
			c.Fail("text", "text %q inside rdf:Description", k.text)
		}
		prop := func(u, l string) {
			if u == "" || u == nsRDF || u == nsX {
				c.Fail("unqualified", "property %q in namespace %q", l, u)
			}
			n := u + " " + l
			if props[n] {
				c.Fail("duplicate:"+l, "property %s is written twice", l)
			}
			props[n] = true
		}
		for _, a := range k.attrs {
			if a.Name.Space != nsRDF && a.Name.Space != nsXMLu {
				prop(a.Name.Space, a.Name.Local)
			}
		}
		for _, x := range k.kids {
			prop(x.space, x.local)
		}
	}
	// registered namespaces appear under their standard prefix
	var walk func(e *el)
	walk = func(e *el) {
		if p, ok := golden.known(e.space); ok && e.prefix != p {
			c.Fail("prefix:"+p, "element %s of %s has prefix %q", e.local, e.space, e.prefix)
		}
		if e.prefix == "" {
			c.Fail("no-prefix:"+e.local, "element %s without a prefix", e.local)
		}
		switch {
		case e.space == nsRDF && (e.local == "Seq" || e.local == "Bag" || e.local == "Alt"):
			langs := map[string]bool{}
			for i, li := range e.kids {
				if li.space != nsRDF || li.local != "li" {
					c.Fail("array-item", "array item is %s", li.local)
				}
				if l, ok := attrOf(li, nsXMLu, "lang"); ok {
					if langs[l] && e.local == "Alt" {
						c.Fail("dup-lang", "language %s twice in one alternative", l)
					}
					langs[l] = true
					if l == "x-default" && i > 0 {
						c.Fail("default-first", "x-default is not the first alternative")
					}
				}
			}
		}
		for _, k := range e.kids {
			walk(k)
		}
	}
	walk(root)
	for _, k := range rdf.kids {
		for _, x := range k.kids {
			checkElt(c, x)
		}
	}
	c.Eval(4 + len(props))
	if c.failed() {
		return nil
	}
	x, err := readXMP(b)
	if err != nil {
		c.Fail("rdf", "%v", err)
		return nil
	}
	return x
}

// checkElt: the form of a property element, RDF/XML grammar 7.2.14 ff. as
// far as XMP uses it.
func checkElt(c *Case, e *el) {
	pt, hasPt := attrOf(e, nsRDF, "parseType")
	propAttrs, lang := 0, false
	for _, a := range e.attrs {
		if a.Name.Space != nsRDF && a.Name.Space != nsXMLu {
			propAttrs++
		}
		lang = lang || a.Name.Space == nsXMLu
	}
	text := strings.TrimSpace(e.text) != ""
	if text && len(e.kids) > 0 {
		c.Fail("rdf:mixed", "%s contains text and elements", e.local)
	}
	switch {
	case hasPt && pt != "Resource":
		return
	case hasPt:
		if propAttrs > 0 {
			c.Fail("rdf:attrs", "%s with parseType Resource has a property attribute", e.local)
		}
		if text {
			c.Fail("rdf:text", "%s with parseType Resource contains text", e.local)
		}
		for _, k := range e.kids {
			if k.space == nsRDF && k.local != "value" && k.local != "type" {
				c.Fail("rdf:in", "%s with parseType Resource contains rdf:%s", e.local, k.local)
			}
			checkElt(c, k)
		}
	case len(e.kids) > 0:
		k := e.kids[0]
		if len(e.kids) > 1 || k.space != nsRDF {
			c.Fail("rdf:node", "%s contains fields but is not marked as structure", e.local)
			return
		}
		if propAttrs > 0 {
			c.Fail("rdf:attrs", "%s with a resource has a property attribute", e.local)
		}
		switch k.local {
		case "Seq", "Bag", "Alt":
			for _, li := range k.kids {
				checkElt(c, li)
			}
		case "Description":
			for _, x := range k.kids {
				checkElt(c, x)
			}
		default:
			c.Fail("rdf:node", "%s contains rdf:%s", e.local, k.local)
		}
	case text && propAttrs > 0:
		c.Fail("rdf:attrs", "%s contains text and has a property attribute", e.local)
	}
	_ = lang
}

var evil = []string{"<", ">", "&", "\"", "'", "]]>", "&amp;", "<?xpacket end=\"w\"?>", "-->", "</x:xmpmeta>", "\x00", "\x01", "\x0b", "\x1f", "\x7f", "\u0085", "\u2028", "\ufffe", "\uffff", "\ud7ff", "\ue000", "\U0010ffff", "\xff", "\xc0\x80", "\xed\xa0\x80", "a\rb", "\t", "é"}

func init() {
	register(&Property{
		ID: "P07",
		Rule: "documents decoded, built through AddModel, through SetPath and from JSON, with values that contain every character XML treats specially, encoded with all encoder options; " +
			"the output is parsed by the independent strict reader and its structure checked; distinct by (options, shape, text)",
		Scenarios: []Scenario{
			{"decoded", 6000, 150000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 8})
				if c.R.Intn(2) == 0 {
					d.toolkit = genText(c.R)
				}
				st := randStyle(c.R)
				st.wrapper = true
				doc, err := decodeXML(writeXMP(d, st, c.R))
				if err != nil {
					return
				}
				defer doc.Close()
				o := randOpt(c)
				c.Seen(o, d.shapes())
				var b bytes.Buffer
				if err := o.encoder(&b).Encode(doc); err != nil {
					c.Fail("encode", "%v", err)
					return
				}
				if x := checkForm(c, b.Bytes(), d.about, d.toolkit, o); x != nil {
					if diff := diffAllow(d, x); len(diff) > 0 {
						c.Fail(diffKey("content", diff), "written content differs:\n  %s", head(diff, 4))
					}
				}
				// the helpers write the same content
				m1, e1 := xmp.Marshal(doc)
				m2, e2 := xmp.MarshalIndent(doc, o.prefix, o.indent)
				if e1 != nil || e2 != nil {
					c.Fail("marshal", "%v, %v", e1, e2)
					return
				}
				for _, m := range [][]byte{m1, m2} {
					if x := checkForm(c, m, d.about, d.toolkit, encOpt{}); x != nil {
						if diff := diffAllow(d, x); len(diff) > 0 {
							c.Fail(diffKey("content", diff), "Marshal writes other content:\n  %s", head(diff, 4))
						}
					}
				}
			}},
			{"text", 3000, 150000, func(c *Case) {
				// text set through the API may contain anything; XML must come out
				doc := xmp.NewDocument()
				defer doc.Close()
				o := randOpt(c)
				type pv struct{ path, text string }
				var set []pv
				for _, p := range []string{"dc:source", "dc:title[x-default]", "dc:creator[0]", "dc:subject[0]", "dc:creator[1]", "photoshop:City", "xmp:Nickname", "xmpMM:DerivedFrom/stRef:documentID", "acme:one", "acme:two/three", "pdf:Keywords"} {
					if c.R.Intn(3) == 0 {
						continue
					}
					t := "a" + genText(c.R) + evil[c.R.Intn(len(evil))] + genToken(c.R)
					if c.R.Intn(3) == 0 {
						t = evil[c.R.Intn(len(evil))] + t
					}
					if err := doc.SetPath(xmp.PathValue{Namespace: map[bool]string{true: "http://acme.example.com/ns/1.0/"}[strings.HasPrefix(p, "acme")], Path: xmp.Path(p), Value: t}); err != nil {
						continue
					}
					set = append(set, pv{p, t})
				}
				c.Art("set", fmt.Sprintf("%q", set))
				c.Seen(fmt.Sprint(set))
				if len(set) == 0 {
					return
				}
				var b bytes.Buffer
				if err := o.encoder(&b).Encode(doc); err != nil {
					c.Event("refused")
					return
				}
				x := checkForm(c, b.Bytes(), "", "", o)
				if x == nil {
					return
				}
				// texts come back, with what XML cannot carry replaced
				doc2, err := decodeXML(b.Bytes())
				if err != nil {
					c.Fail("redecode", "%v", err)
					return
				}
				defer doc2.Close()
				for _, s := range set {
					w, _ := doc.GetPath(xmp.Path(s.path))
					g, err := doc2.GetPath(xmp.Path(s.path))
					c.Eval(1)
					if norm(g) != norm(w) || err != nil {
						c.Fail("text:"+s.path, "%s was %q, reads back as %q, %v", s.path, w, g, err)
					}
				}
			}},
			{"every-structure", len(allProps), 20 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				doc, err := decodeXML(writeXMP(singleDoc(m, p, v), canonStyle, nil))
				if err != nil {
					return
				}
				defer doc.Close()
				b, err := xmp.Marshal(doc)
				if err != nil {
					c.Fail("encode", "%v", err)
					return
				}
				c.Seen(p, v.shape())
				checkForm(c, b, "", "", encOpt{})
			}},
			{"models", 24 * 12, 24 * 400, func(c *Case) {
				// models created empty, filled through paths, removed again
				names := sortedKeys(golden.byPfx)
				m := names[c.Idx%len(names)]
				ns, err := xmp.GetNamespace(m)
				if err != nil {
					return
				}
				doc := xmp.NewDocument()
				defer doc.Close()
				if _, err := doc.MakeModel(ns); err != nil {
					c.Fail("makemodel", "%v", err)
					return
				}
				n := 1 + c.R.Intn(5)
				keys := sortedKeys(golden.byPfx[m].Props)
				for i := 0; i < n; i++ {
					k := keys[c.R.Intn(len(keys))]
					s := golden.byPfx[m].Props[k]
					if s.Kind != "leaf" || !usable(s) {
						continue
					}
					v := genVal(c.R, s, 0)
					if v == nil || v.empty() {
						continue
					}
					doc.SetPath(xmp.PathValue{Path: xmp.Path(k), Value: v.text})
				}
				o := randOpt(c)
				var b bytes.Buffer
				if err := o.encoder(&b).Encode(doc); err != nil {
					c.Fail("encode:"+m, "%v", err)
					return
				}
				c.Seen(m, o, b.Len())
				checkForm(c, b.Bytes(), "", "", o)
				for _, x := range doc.Namespaces() {
					doc.RemoveNamespace(x)
				}
				b.Reset()
				if err := o.encoder(&b).Encode(doc); err != nil {
					c.Fail("encode-empty", "%v", err)
					return
				}
				checkForm(c, b.Bytes(), "", "", o)
			}},
		},
	})
}

// norm is what XML 1.0 makes of a text
func norm(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	var out string
	if err := xml.Unmarshal([]byte("<a>"+b.String()+"</a>"), &out); err != nil {
		return s
	}
	return strings.TrimSpace(out)
}
