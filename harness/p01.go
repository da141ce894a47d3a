package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// allProps lists every property of the golden schema.
var allProps = func() []string {
	var out []string
	for _, m := range sortedKeys(golden.byPfx) {
		for _, k := range sortedKeys(golden.byPfx[m].Props) {
			if usable(golden.byPfx[m].Props[k]) {
				out = append(out, m+" "+k)
			}
		}
	}
	return out
}()

func propSchema(i int) (model, prop string, s *Schema) {
	f := strings.Fields(allProps[i%len(allProps)])
	return f[0], f[1], golden.byPfx[f[0]].Props[f[1]]
}

func singleDoc(m, prop string, v *val) *gdoc {
	d := single(prop, v)
	d.models = []string{m}
	return d
}

// checkRT: decode, encode, compare with what went in.
func checkRT(c *Case, d *gdoc, b []byte) (*xmp.Document, []byte) {
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode-error", "valid document refused: %v", err)
		return nil, nil
	}
	out, err := xmp.Marshal(doc)
	if err != nil {
		c.Fail("encode-error", "decoded document cannot be written: %v", err)
		return doc, nil
	}
	c.Art("output", out)
	got, err := readXMP(out)
	if err != nil {
		c.Fail("bad-output", "written document is not valid XMP: %v", err)
		return doc, nil
	}
	c.Eval(len(d.props) + 2)
	if diff := diffAllow(d, got); len(diff) > 0 {
		c.Fail(diffKey("roundtrip", diff), "values changed by decode and encode:\n  %s", head(diff, 8))
	}
	if got.about != d.about {
		c.Fail("about", "rdf:about %q became %q", d.about, got.about)
	}
	if d.toolkit != "" && got.toolkit != d.toolkit {
		c.Fail("toolkit", "x:xmptk %q became %q", d.toolkit, got.toolkit)
	}
	return doc, out
}

func init() {
	register(&Property{
		ID: "P01",
		Rule: "documents generated over the 24 registered models (all usable properties) and unregistered namespaces, written by the harness' own serializer, decoded and encoded by the library and read back by an independent RDF reader; " +
			"a case is non-trivial when it carries at least one property, distinct by the set of (property, value shape) it holds",
		Scenarios: []Scenario{
			{"each-property", 8 * len(allProps), 40 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				d := singleDoc(m, p, v)
				c.Seen(p, v.shape())
				c.Sample("%s = %s", p, v)
				doc, _ := checkRT(c, d, writeXMP(d, canonStyle, nil))
				doc.Close()
			}},
			{"each-value", len(leafTable), len(leafTable), func(c *Case) {
				l := leafTable[c.Idx]
				d := singleDoc(l.model, l.ref.prop, l.ref.wrap(l.text))
				c.Seen(l.ref.prop, l.ref.path, l.text)
				doc, _ := checkRT(c, d, writeXMP(d, canonStyle, nil))
				doc.Close()
			}},
			{"documents", 4000, 150000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 12})
				if c.R.Intn(2) == 0 {
					d.toolkit = "Toolkit " + genToken(c.R)
				}
				st := randStyle(c.R)
				if d.toolkit != "" {
					st.wrapper = true
				}
				c.Seen(d.shapes())
				doc, out := checkRT(c, d, writeXMP(d, st, c.R))
				if out == nil {
					return
				}
				c.Sample("%s", d.shapes())
				// writing is a fixed point
				doc2, err := decodeXML(out)
				if err != nil {
					c.Fail("redecode", "own output refused: %v", err)
					return
				}
				f2, out2, err := docFlat(doc2)
				if err != nil {
					c.Fail("reencode", "%v", err)
					return
				}
				x, _ := readXMP(out)
				c.Eval(len(f2))
				if diff := diffMaps(x.flat(), f2); len(diff) > 0 {
					c.Art("output2", out2)
					c.Fail(diffKey("fixpoint", diff), "second trip changes values:\n  %s", head(diff, 6))
				}
				doc.Close()
				doc2.Close()
			}},
			{"misfits", 10 * len(allProps), 100 * len(allProps), misfits},
			{"strays", 40 * len(structProps), 600 * len(structProps), strays},
			{"whole-model", 24 * 6, 24 * 300, func(c *Case) {
				// every property of one model at once, rebuilt through AddModel
				names := sortedKeys(golden.byPfx)
				m := names[c.Idx%len(names)]
				d := newGdoc()
				for p, u := range golden.uris {
					d.pfx[u] = p
				}
				d.models = []string{m}
				ms := golden.byPfx[m]
				for _, k := range sortedKeys(ms.Props) {
					if v := genVal(c.R, ms.Props[k], 0); v != nil && !v.empty() && c.R.Intn(20) > 0 {
						d.props[golden.q(k)] = v
					}
				}
				c.Seen(m, len(d.props))
				doc, _ := checkRT(c, d, writeXMP(d, randStyle(c.R), c.R))
				if doc == nil || c.failed() {
					return
				}
				// the decoded model put into a new document writes the same values
				doc2 := xmp.NewDocument()
				for _, n := range doc.Nodes() {
					if n.Model != nil {
						if _, err := doc2.AddModel(n.Model); err != nil {
							c.Fail("addmodel", "%v", err)
							return
						}
					}
				}
				out, err := xmp.Marshal(doc2)
				if err != nil {
					c.Fail("addmodel-encode", "%v", err)
					return
				}
				got, err := readXMP(out)
				if err != nil {
					c.Fail("addmodel-bad-output", "%v", err)
					return
				}
				c.Art("output2", out)
				g := got.flat()
				c.Eval(len(d.props))
				for k, v := range d.flat() {
					if g[k] != v {
						c.Fail("addmodel:"+k, "model moved to a new document: %s was %s, is %s", k, v, g[k])
					}
				}
			}},
			{"odd packets", 2000, 40000, oddPackets},
			{"lists of models", 2000, 40000, listRoundTrip},
			{"corpus", 200, 200, func(c *Case) {
				name, b := corpusFile(c.Idx)
				if b == nil || c.Idx >= len(corpus) {
					return
				}
				c.Art("file", name)
				doc, err := xmp.Read(bytes.NewReader(b))
				if err != nil {
					c.Event("corpus-refused")
					return
				}
				f1, out, err := docFlat(doc)
				if err != nil {
					c.Fail("corpus-encode:"+name, "%v", err)
					return
				}
				doc2, err := decodeXML(out)
				if err != nil {
					c.Fail("corpus-redecode:"+name, "%v", err)
					return
				}
				f2, _, err := docFlat(doc2)
				if err != nil {
					c.Fail("corpus-reencode:"+name, "%v", err)
					return
				}
				c.Seen(name)
				c.Eval(len(f1))
				if diff := diffMaps(f1, f2); len(diff) > 0 {
					c.Fail("corpus:"+name, "sample file changes on the second trip:\n  %s", head(diff, 6))
				}
				// nothing of the sample that a first trip keeps verbatim may vanish:
				// every unregistered property is carried through unchanged
				in, err := readXMP(stripPacket(b))
				if err != nil {
					return
				}
				for q, v := range in.props {
					if v.empty() || registeredURI(q.uri) {
						continue
					}
					c.Eval(1)
					if f1[q.String()] == "" {
						c.Fail("corpus-lost:"+name, "property %v of the sample is lost", q)
					}
				}
			}},
		},
	})

	register(&Property{
		ID: "P02",
		Rule: "each generated document is written twice: once plainly and once in a random equivalent RDF/XML spelling (attribute/element form, parseType/Description/shorthand structures, split descriptions, prefixes, CDATA, character references, comments, whitespace); " +
			"both are decoded and compared by path list and by re-encoded content; distinct by (spelling, document shape)",
		Scenarios: []Scenario{
			{"spellings", 15000, 200000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(3) == 0, about: true, maxProps: 8})
				st := randStyle(c.R)
				equiv(c, d, writeXMP(d, canonStyle, nil), writeXMP(d, st, c.R))
				c.Seen(fmt.Sprintf("%+v", st), d.shapes())
				c.Sample("%+v", st)
			}},
			{"one-property", 6 * len(allProps), 30 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				d := singleDoc(m, p, v)
				st := randStyle(c.R)
				equiv(c, d, writeXMP(d, canonStyle, nil), writeXMP(d, st, c.R))
				c.Seen(p, v.shape(), st.attrs, st.nested, st.rename)
			}},
			{"value-forms", 6 * len(allProps), 60 * len(allProps), func(c *Case) {
				// simple values as rdf:resource or rdf:value
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				d := singleDoc(m, p, v)
				st := randStyle(c.R)
				st.attrs, st.values = 0, 1+c.R.Intn(2)
				if st.nested == 2 {
					st.nested = c.R.Intn(2)
				}
				equiv(c, d, writeXMP(d, canonStyle, nil), writeXMP(d, st, c.R))
				c.Seen(p, v.shape(), st.values, st.nested)
			}},
			{"wrapping", 800, 20000, func(c *Case) {
				// trailing padding, leading blank, processing instructions, different readers
				d := genDoc(c.R, genOpt{unknown: true, about: true, maxProps: 5})
				st := randStyle(c.R)
				st.packet = true
				b := writeXMP(d, st, c.R)
				pad := strings.Repeat(" ", c.R.Intn(3000))
				i := bytes.LastIndex(b, []byte("<?xpacket end"))
				b2 := append(append(append([]byte{}, b[:i]...), pad+"\n"...), b[i:]...)
				if c.R.Intn(2) == 0 {
					b2 = append([]byte("\n  "), b2...)
				}
				if c.R.Intn(2) == 0 {
					b2 = append(b2, "\n\n"...)
				}
				equiv(c, d, b, b2)
				// reading a stream in pieces is the same as reading it whole
				doc, err := xmp.Read(&pieces{b: b2, r: c.R})
				if err != nil {
					c.Fail("read", "Read of a valid packet: %v", err)
					return
				}
				doc1, _ := decodeXML(b2)
				l1, _ := listPaths(doc)
				l2, _ := listPaths(doc1)
				c.Eval(1)
				if diff := strDiff(l1, l2); len(diff) > 0 {
					c.Fail("read-differs", "Read and Unmarshal disagree:\n  %s", head(diff, 6))
				}
				c.Seen(len(pad)/64, st.attrs, d.shapes())
			}},
		},
	})
}

func registeredURI(u string) bool {
	for _, m := range golden.Models {
		for _, x := range m.NS {
			if x == u {
				return true
			}
		}
	}
	return false
}

func stripPacket(b []byte) []byte {
	if i := bytes.Index(b, []byte("<x:xmpmeta")); i >= 0 {
		if j := bytes.Index(b, []byte("</x:xmpmeta>")); j > i {
			return b[i : j+len("</x:xmpmeta>")]
		}
	}
	return b
}

func equiv(c *Case, d *gdoc, b1, b2 []byte) {
	c.Art("plain", b1)
	c.Art("variant", b2)
	d1, err := decodeXML(b1)
	if err != nil {
		c.Fail("decode-plain", "plain spelling refused: %v", err)
		return
	}
	d2, err := decodeXML(b2)
	if err != nil {
		c.Fail("decode-variant", "equivalent spelling refused: %v", err)
		return
	}
	l1, e1 := listPaths(d1)
	l2, e2 := listPaths(d2)
	if e1 != nil || e2 != nil {
		c.Fail("listpaths", "ListPaths: %v, %v", e1, e2)
		return
	}
	c.Eval(len(l1))
	if diff := strDiff(l1, l2); len(diff) > 0 {
		c.Fail(diffKey("paths", diff), "equivalent spellings give different paths:\n  %s", head(diff, 6))
	}
	f1, o1, e1 := docFlat(d1)
	f2, o2, e2 := docFlat(d2)
	if e1 != nil || e2 != nil {
		c.Fail("encode", "%v, %v", e1, e2)
		return
	}
	c.Art("plain-out", o1)
	c.Art("variant-out", o2)
	c.Eval(len(f1))
	if diff := diffMaps(f1, f2); len(diff) > 0 {
		c.Fail(diffKey("values", diff), "equivalent spellings give different values:\n  %s", head(diff, 6))
	}
	d1.Close()
	d2.Close()
	// decoding twice into fresh documents agrees with itself
	d3, err := decodeXML(b2)
	if err != nil {
		c.Fail("decode-again", "second decode of the same bytes fails: %v", err)
		return
	}
	l3, _ := listPaths(d3)
	if diff := strDiff(l2, l3); len(diff) > 0 {
		c.Fail("decode-again", "second decode of the same bytes differs:\n  %s", head(diff, 6))
	}
	d3.Close()
}

type leafCase struct {
	model string
	ref   leafRef
	text  string
}

// leafTable: every leaf of every property with each of its known values.
var leafTable = func() []leafCase {
	var out []leafCase
	for _, m := range sortedKeys(golden.byPfx) {
		ms := golden.byPfx[m]
		for _, k := range sortedKeys(ms.Props) {
			if !usable(ms.Props[k]) {
				continue
			}
			var ls []leafRef
			leaves(k, ms.Props[k], nil, nil, nil, nil, &ls)
			for _, l := range ls {
				if l.s.Omit || l.s.Ver != "" || l.s.Bad != "" || badPath(ms.Props[k], l) {
					continue
				}
				pool := l.s.Vals
				if len(pool) == 0 {
					pool = golden.Types[l.s.Type]
				}
				if len(pool) > 60 {
					// long pools are sampled evenly, all of them are used by the random scenarios
					var p []string
					for i := 0; i < 60; i++ {
						p = append(p, pool[i*len(pool)/60])
					}
					pool = p
				}
				for _, t := range pool {
					out = append(out, leafCase{m, l, t})
				}
			}
		}
	}
	return out
}()

// badPath: the leaf sits below an excluded structure
func badPath(s *Schema, l leafRef) bool {
	for _, p := range l.path {
		if s == nil || s.Omit || s.Ver != "" || s.Bad != "" {
			return true
		}
		if p == "[]" {
			s = s.Elem
		} else {
			s = s.Fields[p]
		}
	}
	return s == nil || s.Omit || s.Ver != "" || s.Bad != ""
}
