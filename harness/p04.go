package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// jsonable: JSON has no form for arrays of arrays, nor for an Alt without
// languages; unregistered arrays come back as Seq.
func jsonable(v *val, inArr bool) bool {
	switch v.kind {
	case 'a':
		if inArr {
			return false
		}
		for _, x := range v.items {
			if !jsonable(x, true) {
				return false
			}
		}
	case 't':
		for _, x := range v.fields {
			if !jsonable(x, false) {
				return false
			}
		}
	}
	return true
}

func bagToSeq(v *val) *val {
	n := &val{kind: v.kind, text: v.text, lang: v.lang, typ: v.typ}
	if v.kind == 'a' {
		if n.typ == "Bag" {
			n.typ = "Seq"
		}
		for _, x := range v.items {
			n.items = append(n.items, bagToSeq(x))
		}
	}
	if v.kind == 't' {
		n.fields = map[qname]*val{}
		for k, x := range v.fields {
			n.fields[k] = bagToSeq(x)
		}
	}
	return n
}

// unknownProp: the library has no field for this property
func (d *gdoc) unknownProp(q qname) bool {
	p, ok := golden.known(q.uri)
	return !ok || strings.HasPrefix(q.local, "un_") && golden.byPfx[p] != nil
}

// jsonDomain removes what JSON cannot carry from an unregistered namespace.
func jsonDomain(d *gdoc) {
	for q, v := range d.props {
		if d.unknownProp(q) && !jsonable(v, false) {
			delete(d.props, q)
		}
	}
	if len(d.props) == 0 {
		d.about = ""
	}
}

func jsonWant(d *gdoc) *gdoc {
	n := newGdoc()
	n.pfx, n.models, n.about, n.toolkit = d.pfx, d.models, d.about, d.toolkit
	for q, v := range d.props {
		if d.unknownProp(q) {
			v = bagToSeq(v)
		}
		n.props[q] = v
	}
	return n
}

// sharedText reports whether v (or a part) is an Alt whose default repeats a language.
func sharedText(v *val) bool {
	for i, x := range v.items {
		if v.typ == "Alt" && i > 0 && x.text == v.items[0].text || sharedText(x) {
			return true
		}
	}
	for _, x := range v.fields {
		if sharedText(x) {
			return true
		}
	}
	return false
}

func defaultsJSON(d *gdoc) map[string]string {
	m := map[string]string{}
	for _, mo := range d.models {
		for q, v := range golden.byPfx[mo].Defaults {
			i := strings.Index(q, "}")
			p, _ := golden.known(q[1:i])
			m[p+":"+q[i+1:]] = v
		}
	}
	return m
}

func checkJSON(c *Case, d *gdoc) {
	b := writeXMP(d, canonStyle, nil)
	c.Art("input", b)
	doc, err := decodeXML(b)
	if err != nil {
		c.Fail("decode", "%v", err)
		return
	}
	defer doc.Close()
	j, err := json.Marshal(doc)
	if err != nil {
		c.Fail("to-json", "%v", err)
		return
	}
	c.Art("json", j)
	// the JSON form says the same as the XML form
	flat, top, err := jsonFlat(j)
	if err != nil {
		c.Fail("json-form", "%v", err)
		return
	}
	want := map[string]string{}
	for q, v := range d.props {
		if !v.empty() && !sharedText(v) {
			want[d.pfx[q.uri]+":"+q.local] = d.jsonExpect(v)
		}
	}
	def := defaultsJSON(d)
	for k, v := range flat {
		if _, ok := want[k]; !ok {
			if def[k] == v {
				delete(flat, k)
			}
			for q, x := range d.props {
				if sharedText(x) && d.pfx[q.uri]+":"+q.local == k {
					delete(flat, k)
				}
			}
		}
	}
	c.Eval(len(want) + 2)
	if diff := diffMaps(want, flat); len(diff) > 0 {
		c.Fail(diffKey("json", diff), "JSON form disagrees with the document:\n  %s", head(diff, 6))
	}
	if s, _ := top["about"].(string); s != d.about {
		c.Fail("json-about", "about is %q in JSON, %q in the document", s, d.about)
	}
	if s, _ := top["toolkit"].(string); d.toolkit != "" && s != d.toolkit {
		c.Fail("json-toolkit", "toolkit is %q in JSON, %q in the document", s, d.toolkit)
	}
	nsm, _ := top["namespaces"].(map[string]any)
	uris := map[string]bool{}
	collectURIs(d.props, uris)
	for u := range uris {
		if u == "" || u == nsRDF {
			continue
		}
		if got, _ := nsm[d.pfx[u]].(string); got != u {
			c.Fail("json-namespaces", "namespace %s of the document is %q in JSON", d.pfx[u], got)
		}
	}
	// and loads back into the same document
	doc2 := xmp.NewDocument()
	if err := json.Unmarshal(j, doc2); err != nil {
		c.Fail("from-json", "own JSON refused: %v", err)
		return
	}
	defer doc2.Close()
	out, err := xmp.Marshal(doc2)
	if err != nil {
		c.Fail("json-to-xml", "%v", err)
		return
	}
	c.Art("output", out)
	got, err := readXMP(out)
	if err != nil {
		c.Fail("bad-output", "%v", err)
		return
	}
	w := jsonWant(d)
	c.Eval(len(w.props) + 2)
	if diff := diffAllow(w, got); len(diff) > 0 {
		c.Fail(diffKey("roundtrip", diff), "values changed by JSON and back:\n  %s", head(diff, 8))
	}
	if got.about != d.about {
		c.Fail("about", "rdf:about %q became %q through JSON", d.about, got.about)
	}
	if d.toolkit != "" && got.toolkit != d.toolkit {
		c.Fail("toolkit", "x:xmptk %q became %q through JSON", d.toolkit, got.toolkit)
	}
	// once more gives the same JSON
	j2, err := json.Marshal(doc2)
	if err != nil {
		c.Fail("to-json-again", "%v", err)
		return
	}
	c.Eval(1)
	if !bytes.Equal(canonJSON(j), canonJSON(j2)) {
		c.Art("json2", j2)
		c.Fail("json-fixpoint", "JSON of the reloaded document differs")
	}
	l1, _ := listPaths(doc)
	l2, _ := listPaths(doc2)
	if diff := strDiff(l1, l2); len(diff) > 0 {
		c.Fail(diffKey("paths", diff), "path lists differ after JSON:\n  %s", head(diff, 6))
	}
}

func canonJSON(b []byte) []byte {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	o, _ := json.Marshal(v)
	return o
}

func init() {
	register(&Property{
		ID:   "P04",
		Rule: "generated documents taken from XML to JSON and back to XML; the JSON is read by a generic JSON parser of the harness and compared with the document, the reloaded document with the RDF reader; distinct by (property, value shape) or document shape",
		Scenarios: []Scenario{
			{"properties", 2 * len(allProps), 40 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil || v.empty() {
					return
				}
				c.Seen(p, v.shape())
				c.Sample("%s = %s", p, v)
				checkJSON(c, singleDoc(m, p, v))
			}},
			{"values", len(leafTable), len(leafTable), func(c *Case) {
				l := leafTable[c.Idx]
				c.Seen(l.ref.prop, l.ref.path, l.text)
				checkJSON(c, singleDoc(l.model, l.ref.prop, l.ref.wrap(l.text)))
			}},
			{"lists of models", 2000, 40000, listJSON},
			{"documents", 2500, 80000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 10})
				if c.R.Intn(2) == 0 {
					d.toolkit = "Toolkit " + genToken(c.R)
				}
				jsonDomain(d)
				c.Seen(d.shapes())
				checkJSON(c, d)
			}},
			{"handwritten", 1500, 30000, func(c *Case) {
				// JSON written by the harness loads like the equivalent XML
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 6})
				jsonDomain(d)
				for _, q := range sortedQ(d.props) {
					if d.unknownProp(q) {
						putNumbers(c.R, d.props[q])
					}
				}
				j := writeJSON(d, c.R)
				c.Art("json", j)
				doc := xmp.NewDocument()
				if err := json.Unmarshal(j, doc); err != nil {
					c.Fail("from-json", "%v", err)
					return
				}
				defer doc.Close()
				f, out, err := docFlat(doc)
				if err != nil {
					c.Fail("json-to-xml", "%v", err)
					return
				}
				c.Art("output", out)
				got, _ := readXMP(out)
				c.Eval(len(f))
				c.Seen(d.shapes())
				if diff := diffAllow(jsonWant(d), got); len(diff) > 0 {
					c.Fail(diffKey("handwritten", diff), "JSON loads as something else:\n  %s", head(diff, 6))
				}
				if got.about != d.about {
					c.Fail("about", "about %q became %q", d.about, got.about)
				}
			}},
		},
	})
}

// putNumbers replaces some of the texts in v by numbers and truth values.
func putNumbers(r *rand.Rand, v *val) {
	if v.kind == 's' && r.Intn(3) == 0 {
		switch r.Intn(6) {
		case 0:
			v.text = strconv.FormatInt(r.Int63n(1<<53)>>uint(r.Intn(53))*int64(1-2*r.Intn(2)), 10)
		case 1:
			v.text = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(12))), 'f', -1, 64)
		case 2:
			v.text = strconv.FormatFloat(r.Float64(), 'f', -1, 64)
		case 3:
			v.text = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(60)-30)), 'f', -1, 64)
		case 4:
			v.text = pick(r, "true", "false")
		default:
			v.text = pick(r, "0", "-1", "16777217", "4294967296", "9007199254740991", "0.1", "1.5", "100000000000000000000000")
		}
	}
	for _, x := range v.items {
		if v.typ != "Alt" {
			putNumbers(r, x)
		}
	}
	for _, q := range sortedQ(v.fields) {
		putNumbers(r, v.fields[q])
	}
}

// jsonText writes some numbers and truth values without quotes. Their text has to be the usual one.
func jsonText(r *rand.Rand, s string) any {
	if r.Intn(3) == 0 {
		return s
	}
	if s == "true" || s == "false" {
		return s == "true"
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == s && json.Valid([]byte(s)) {
		return json.RawMessage(s)
	}
	return s
}

func jsonVal(d *gdoc, v *val, r *rand.Rand) any {
	switch v.kind {
	case 's':
		return jsonText(r, v.text)
	case 'a':
		out := []any{}
		for _, x := range v.items {
			if v.typ == "Alt" && x.lang != "" {
				l := x.lang
				out = append(out, map[string]any{"value": x.text, "lang": l, "isDefault": x.lang == "x-default"})
			} else {
				out = append(out, jsonVal(d, x, r))
			}
		}
		return out
	}
	m := map[string]any{}
	for _, k := range sortedQ(v.fields) {
		x := v.fields[k]
		n := k.local
		if k.uri != "" {
			n = d.pfx[k.uri] + ":" + n
		}
		if k.uri == nsRDF {
			n = "rdf:" + k.local
		}
		m[n] = jsonVal(d, x, r)
	}
	return m
}

func writeJSON(d *gdoc, r *rand.Rand) []byte {
	uris := map[string]bool{}
	collectURIs(d.props, uris)
	ns := map[string]any{}
	for u := range uris {
		if u != "" && u != nsRDF {
			ns[d.pfx[u]] = u
		}
	}
	models := map[string]any{}
	for _, q := range sortedQ(d.props) {
		v := d.props[q]
		p := d.pfx[q.uri]
		m, _ := models[p].(map[string]any)
		if m == nil {
			m = map[string]any{}
			models[p] = m
		}
		m[p+":"+q.local] = jsonVal(d, v, r)
	}
	b, err := json.Marshal(map[string]any{"about": d.about, "toolkit": "hand", "namespaces": ns, "models": models})
	if err != nil {
		panic(fmt.Sprint(err))
	}
	return b
}
