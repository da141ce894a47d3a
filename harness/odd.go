package main

import (
	"bytes"
	"fmt"

	"github.com/trimmer-io/go-xmp/xmp"
)

// oddPackets: RDF/XML around the properties that is unusual, or not XMP at
// all. A document may be refused, but one that is accepted keeps everything.
func oddPackets(c *Case) {
	r := c.R
	gen := func() (*gdoc, []byte, []byte) {
		d := genDoc(r, genOpt{unknown: true, about: false, maxProps: 4})
		st := canonStyle
		b := writeXMP(d, st, r)
		i, j := bytes.Index(b, []byte("<rdf:RDF")), bytes.LastIndex(b, []byte("</rdf:RDF>"))
		if i < 0 || j < 0 {
			return nil, nil, nil
		}
		rdf := b[i : j+len("</rdf:RDF>")]
		return d, rdf, rdf[bytes.IndexByte(rdf, '>')+1 : j-i]
	}
	_, rdf, in := gen()
	if rdf == nil {
		return
	}
	open := rdf[:bytes.IndexByte(rdf, '>')+1]
	mark := genToken(r) + fmt.Sprint(r.Int31())
	const vx = "http://example.org/odd/"
	extra := fmt.Sprintf(`<rdf:Description xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:vx="%s" rdf:about=""><vx:odd>%s</vx:odd></rdf:Description>`, vx, mark)
	rdf2 := `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">` + extra + `</rdf:RDF>`
	if r.Intn(2) == 0 {
		extra = fmt.Sprintf(`<rdf:Description xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:vx="%s" rdf:about="" vx:odd="%s"/>`, vx, mark)
	}
	meta := func(s string) string { return `<x:xmpmeta xmlns:x="adobe:ns:meta/">` + s + `</x:xmpmeta>` }
	how := pick(r, "two rdf:RDF", "rdf:RDF before", "empty rdf:RDF before", "nested x:xmpmeta", "typed node", "typed node before", "extra in x:xmpmeta", "rdf:Description in rdf:Description", "extra in the middle", "rdf:RDF in rdf:RDF")
	var s string
	switch how {
	case "two rdf:RDF":
		s = meta(string(rdf) + rdf2)
	case "rdf:RDF before":
		s = meta(rdf2 + string(rdf))
	case "empty rdf:RDF before":
		s = meta(`<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>` + rdf2)
	case "nested x:xmpmeta":
		s = meta(meta(string(open) + extra + "</rdf:RDF>"))
	case "typed node":
		s = meta(string(open) + string(in) + fmt.Sprintf(`<vx:Thing xmlns:vx="%s" rdf:about=""><vx:odd>%s</vx:odd></vx:Thing></rdf:RDF>`, vx, mark))
	case "typed node before":
		s = meta(string(open) + fmt.Sprintf(`<vx:Thing xmlns:vx="%s" vx:odd="%s"/>`, vx, mark) + string(in) + "</rdf:RDF>")
	case "extra in x:xmpmeta":
		s = meta(string(rdf) + extra)
	case "rdf:Description in rdf:Description":
		s = meta(string(open) + `<rdf:Description rdf:about="">` + extra + "</rdf:Description></rdf:RDF>")
	case "extra in the middle":
		s = meta(string(open) + extra + string(in) + extra + "</rdf:RDF>")
	case "rdf:RDF in rdf:RDF":
		s = meta(string(open) + string(in) + rdf2 + "</rdf:RDF>")
	}
	c.Art("packet", s)
	c.Eval(1)
	doc := xmp.NewDocument()
	err := xmp.Unmarshal([]byte(s), doc)
	c.Event(how + map[bool]string{true: " refused", false: " accepted"}[err != nil])
	c.Seen(how, err == nil)
	if err != nil {
		return
	}
	out, err := xmp.Marshal(doc)
	if err != nil {
		c.Fail("write:"+how, "%s: accepted, but not written: %v", how, err)
		return
	}
	got, err := readXMP(out)
	if err != nil {
		c.Fail("output:"+how, "%s: %v", how, err)
		return
	}
	c.Art("written", out)
	v := got.props[qname{vx, "odd"}]
	if v == nil || v.text != mark {
		c.Fail("lost:"+how, "%s: the document was accepted without an error, but vx:odd = %q is missing from what is written: %v", how, mark, v)
	}
	if n := bytes.Count(out, []byte(mark)); n > 1 {
		c.Fail("twice:"+how, "%s: vx:odd was written %d times", how, n)
	}
}
