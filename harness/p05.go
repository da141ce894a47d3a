package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// use exercises a decoded document in every way and checks what it writes.
// sound tells that the input was well-formed; the decoder is lenient (it takes
// repeated attributes, say) and what it took is then written again.
func use(c *Case, d *xmp.Document, sound bool) {
	out, err := xmp.Marshal(d)
	if err != nil {
		c.Event("encode refused")
	} else {
		c.Art("output", out)
		c.Eval(2)
		if _, err := parseXML(out); err != nil && sound {
			c.Fail("malformed-output", "written packet is not well-formed: %v", err)
		} else if d2, err := decodeXML(out); err != nil {
			c.Fail("own-output-refused", "written packet is refused: %v", err)
		} else {
			d2.Close()
		}
	}
	j, err := json.Marshal(d)
	if err != nil {
		c.Event("json refused")
	} else {
		c.Art("json", j)
		c.Eval(1)
		d3 := xmp.NewDocument()
		if !json.Valid(j) {
			c.Fail("malformed-json", "written JSON is not valid")
		} else if err := json.Unmarshal(j, d3); err != nil {
			c.Fail("own-json-refused", "written JSON is refused: %v", err)
		}
		d3.Close()
	}
	l, err := d.ListPaths()
	if err == nil {
		for i, v := range l {
			if i > 60 {
				break
			}
			d.GetPath(v.Path)
		}
	}
	c.Eval(1)
}

func tryXML(c *Case, b []byte) {
	c.Art("input", b)
	d, err := decodeXML(b)
	c.Eval(1)
	if err != nil {
		c.Event("refused")
		return
	}
	c.Event("accepted")
	_, err = parseXML(stripPacket(b))
	use(c, d, err == nil)
	d.Close()
}

func hostileBase(c *Case) *gdoc {
	d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 5})
	return d
}

func basePacket(c *Case) []byte {
	if c.R.Intn(3) == 0 {
		_, b := corpusFile(c.R.Intn(1 << 20))
		if len(b) > 0 && len(b) < 40000 {
			return b
		}
	}
	return writeXMP(hostileBase(c), randStyle(c.R), c.R)
}

func init() {
	register(&Property{
		ID: "P05",
		Rule: "valid packets, JSON documents and binary streams mutated on byte, token, tree and value level; every leaf of every model given hostile text; hostile path strings; " +
			"an accepted document is written as XML and JSON, listed and read; a case counts when the input was handed to the library, distinct by input",
		Scenarios: []Scenario{
			{"bytes", 12000, 1500000, func(c *Case) {
				b := mutateBytes(c.R, basePacket(c), basePacket(c))
				c.Seen(string(b))
				tryXML(c, b)
			}},
			{"tree", 12000, 1500000, func(c *Case) {
				root, err := parseXML(stripPacket(basePacket(c)))
				if err != nil {
					return
				}
				mutateTree(c.R, root)
				b := root.xml()
				c.Seen(string(b))
				tryXML(c, b)
			}},
			{"values", 10000, 800000, func(c *Case) {
				d := hostileBase(c)
				for _, v := range d.props {
					v.mutateText(c.R, 1+c.R.Intn(3))
				}
				b := writeXMP(d, randStyle(c.R), c.R)
				c.Seen(string(b))
				c.Sample("%s", d.shapes())
				tryXML(c, b)
			}},
			{"leaf-text", len(hostileLeaves), len(hostileLeaves) * 60, func(c *Case) {
				l := hostileLeaves[c.Idx%len(hostileLeaves)]
				for i := 0; i < 12; i++ {
					t := xmlText(hostileVal(c.R))
					if c.Idx < len(hostileLeaves) && i < 4 {
						t = xmlText(hostileText[(c.Idx*4+i)%len(hostileText)])
					}
					d := singleDoc(l.model, l.ref.prop, l.ref.wrap(t))
					b := writeXMP(d, canonStyle, nil)
					c.Seen(l.ref.prop, l.ref.path, t)
					tryXML(c, b)
				}
			}},
			{"kinds", 3 * len(allProps), 120 * len(allProps), func(c *Case) {
				m, p, s := propSchema(c.Idx)
				v := genVal(c.R, s, 0)
				if v == nil {
					return
				}
				for i := 0; i < 4; i++ {
					v = wrongKind(c.R, v, 0)
					d := singleDoc(m, p, v)
					for _, u := range unkPool {
						d.pfx[u.uri] = u.prefix
					}
					st := randStyle(c.R)
					st.rename = false
					b := writeXMP(d, st, c.R)
					if len(b) > 100000 {
						return
					}
					c.Seen(p, v.shape())
					tryXML(c, b)
				}
			}},
			{"json", 8000, 600000, func(c *Case) {
				d, err := decodeXML(writeXMP(hostileBase(c), canonStyle, nil))
				if err != nil {
					return
				}
				j, err := json.Marshal(d)
				d.Close()
				if err != nil {
					return
				}
				var b []byte
				if c.R.Intn(4) == 0 {
					b = mutateBytes(c.R, j, j)
				} else {
					var v any
					json.Unmarshal(j, &v)
					b = jsonBytes(mutateJSON(c.R, v, []int{4, 10, 40}[c.R.Intn(3)]))
				}
				c.Seen(string(b))
				c.Art("input", b)
				d = xmp.NewDocument()
				c.Eval(1)
				if err := json.Unmarshal(b, d); err != nil {
					c.Event("json input refused")
					return
				}
				c.Event("json input accepted")
				use(c, d, true)
				d.Close()
			}},
			{"stream", 4000, 300000, func(c *Case) {
				var s []byte
				for i, n := 0, c.R.Intn(6); i < n; i++ {
					switch c.R.Intn(4) {
					case 0:
						x := make([]byte, c.R.Intn(6000))
						c.R.Read(x)
						s = append(s, x...)
					case 1:
						s = append(s, mutateBytes(c.R, basePacket(c), nil)...)
					case 2:
						t := []string{"<?xpacket begin", "<?xpacket end", "W5M0MpCehiHzreSzNTczkc9d", pktHead, pktTail, "<?xpacket end=\"w\"", "<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d"}
						s = append(s, t[c.R.Intn(len(t))]...)
					case 3:
						s = append(s, basePacket(c)...)
					}
				}
				c.Seen(string(s))
				c.Art("input", s)
				c.Eval(2)
				if pp, err := xmp.ScanPackets(&pieces{b: s, r: c.R}); err == nil {
					if len(pp) == 0 {
						c.Fail("no-packets", "ScanPackets without error and without packets")
					}
					for _, p := range pp {
						tryXML(c, p)
					}
				}
				if d, err := xmp.Scan(bytes.NewReader(s)); err == nil {
					use(c, d, false)
				}
				if d, err := xmp.Read(bytes.NewReader(s)); err == nil {
					use(c, d, false)
				}
			}},
			{"paths", 6000, 400000, func(c *Case) {
				g := hostileBase(c)
				d, err := decodeXML(writeXMP(g, canonStyle, nil))
				if err != nil {
					return
				}
				defer d.Close()
				l, _ := d.ListPaths()
				var hist []string
				for i := 0; i < 12; i++ {
					p := hostilePath(c, l)
					v := ""
					if c.R.Intn(4) > 0 {
						v = hostileVal(c.R)
					}
					f := xmp.SyncFlags(c.R.Intn(64))
					if c.R.Intn(2) == 0 {
						f = xmp.DEFAULT
					}
					hist = append(hist, fmt.Sprintf("%q = %q flags %d", p, v, f))
					c.Art("calls", strings.Join(hist, "\n"))
					c.Seen(p, f, v == "")
					d.GetPath(p)
					err := d.SetPath(xmp.PathValue{Path: p, Value: v, Flags: f})
					c.Eval(2)
					if err == nil {
						c.Event("path set")
					}
					p.NamespacePrefix()
					p.Fields()
					p.Len()
					d.ListPaths()
				}
				if out, err := xmp.Marshal(d); err == nil {
					c.Art("output", out)
					if _, err := parseXML(out); err != nil {
						c.Fail("malformed-after-path", "document is not well-formed after setting paths: %v", err)
					}
				}
			}},
			{"deep", 24, 60, func(c *Case) {
				// nesting depth grows linearly and must not exhaust memory or time
				n := []int{10, 100, 1000, 5000}[c.Idx%4]
				var b strings.Builder
				b.WriteString(`<rdf:RDF xmlns:rdf="` + nsRDF + `" xmlns:a="urn:a" xmlns:dc="` + golden.uris["dc"] + `" xmlns:xmpMM="` + golden.uris["xmpMM"] + `"><rdf:Description rdf:about="">`)
				open, cl := "<a:x>", "</a:x>"
				switch c.Idx / 4 % 6 {
				case 1:
					open, cl = "<a:x><rdf:Seq><rdf:li>", "</rdf:li></rdf:Seq></a:x>"
				case 2:
					open, cl = "<dc:title><rdf:Alt><rdf:li>", "</rdf:li></rdf:Alt></dc:title>"
				case 3:
					open, cl = `<a:x rdf:parseType="Resource">`, "</a:x>"
				case 4:
					open, cl = "<xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description>", "</rdf:Description></rdf:li></rdf:Bag></xmpMM:Pantry>"
				case 5:
					open, cl = "<a:x><rdf:Description>", "</rdf:Description></a:x>"
				}
				for i := 0; i < n; i++ {
					b.WriteString(open)
				}
				b.WriteString("v")
				for i := 0; i < n; i++ {
					b.WriteString(cl)
				}
				b.WriteString("</rdf:Description></rdf:RDF>")
				c.Seen(n, open)
				d, err := decodeXML([]byte(b.String()))
				c.Eval(1)
				if err != nil {
					return
				}
				if out, err := xmp.Marshal(d); err == nil {
					if _, err := parseXML(out); err != nil {
						c.Fail("malformed-output", "%v", err)
					}
				}
				if n <= 1000 {
					json.Marshal(d)
					d.ListPaths()
				}
				d.Close()
			}},
		},
	})
}

func hostilePath(c *Case, l xmp.PathValueList) xmp.Path {
	var p string
	if len(l) > 0 && c.R.Intn(2) == 0 {
		p = string(l[c.R.Intn(len(l))].Path)
	} else {
		p = allPropName(c.R)
	}
	for i, n := 0, c.R.Intn(4); i < n; i++ {
		t := []string{"[0]", "[1]", "[7]", "[-1]", "[-2]", "[]", "[en]", "[x-default]", "[", "]", "/", "//", ":", "a:", ":a", "/stRef:instanceID", "/dc:title", "/rdf:li", "/xmp:Rating",
			"[0][1]", "[99999999999999999999]", "[1e3]", "[0x1]", "[ 1]", "é", "acme:x", "/acme:y[2]/z", ".", "*", "\x00", " ", "xmlns:a", "rdf:about", "[200]"}
		s := t[c.R.Intn(len(t))]
		switch k := c.R.Intn(6); {
		case k < 3:
			p += s
		case k == 3:
			p = s + p
		case k == 4 && len(p) > 0:
			j := c.R.Intn(len(p))
			p = p[:j] + s + p[j:]
		case len(p) > 0:
			j := c.R.Intn(len(p))
			p = p[:j]
		}
	}
	return xmp.Path(p)
}

// hostileLeaves: one entry per leaf of every property
var hostileLeaves = func() []leafCase {
	var out []leafCase
	seen := map[string]bool{}
	for _, l := range leafTable {
		k := l.ref.prop + strings.Join(l.ref.path, "/")
		if !seen[k] {
			seen[k] = true
			out = append(out, l)
		}
	}
	rand.New(rand.NewSource(5)).Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}()
