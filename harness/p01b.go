package main

import (
	"bytes"

	"github.com/trimmer-io/go-xmp/xmp"
)

// structProps are the properties that hold a structure somewhere.
var structProps = func() []int {
	var has func(s *Schema) bool
	has = func(s *Schema) bool {
		switch s.Kind {
		case "struct":
			return true
		case "array":
			return s.Elem != nil && has(s.Elem)
		}
		return false
	}
	var l []int
	for i := range allProps {
		if _, _, s := propSchema(i); has(s) {
			l = append(l, i)
		}
	}
	return l
}()

func structsIn(v *val, l []*val) []*val {
	switch v.kind {
	case 'a':
		for _, x := range v.items {
			l = structsIn(x, l)
		}
	case 't':
		l = append(l, v)
		for _, k := range sortedQ(v.fields) {
			l = structsIn(v.fields[k], l)
		}
	}
	return l
}

// strays puts properties into structures that do not have them. Such a document
// may be refused, but when it is read nothing of it may get lost.
func strays(c *Case) {
	r := c.R
	i := structProps[c.Idx%len(structProps)]
	m, p, s := propSchema(i)
	v := genVal(r, s, 0)
	if v == nil || v.empty() {
		return
	}
	d := singleDoc(m, p, v)
	l := structsIn(v, nil)
	if len(l) == 0 {
		return
	}
	t := l[r.Intn(len(l))]
	var q qname
	var kind string
	switch r.Intn(4) {
	case 0:
		q, kind = qname{golden.q(p).uri, "vfStray"}, "unknown name"
	case 1:
		q, kind = qname{unkPool[0].uri, "stray"}, "unknown namespace"
		d.pfx[unkPool[0].uri] = unkPool[0].prefix
	case 2:
		k := sortedQ(t.fields)
		if len(k) == 0 {
			return
		}
		q, kind = qname{k[r.Intn(len(k))].uri, "vfStray"}, "unknown field"
	default:
		j := r.Intn(len(allProps))
		_, o, _ := propSchema(j)
		q, kind = golden.q(o), "other property"
		if _, ok := t.fields[q]; ok {
			return
		}
	}
	x := newScalar("stray " + genToken(r))
	switch r.Intn(4) {
	case 0:
		x = &val{kind: 'a', typ: pick(r, "Seq", "Bag"), items: []*val{x, newScalar("b")}}
	case 1:
		x = &val{kind: 't', fields: map[qname]*val{{unkPool[0].uri, "in"}: x}}
		d.pfx[unkPool[0].uri] = unkPool[0].prefix
	}
	t.fields[q] = x
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	c.Seen(p, kind, x.shape())
	c.Eval(1)
	doc, err := decodeXML(b)
	if err != nil {
		c.Event("refused: " + kind)
		return
	}
	defer doc.Close()
	c.Event("read: " + kind)
	out, err := xmp.Marshal(doc)
	if err != nil {
		c.Fail("strays encode "+p, "%v", err)
		return
	}
	c.Art("output", out)
	got, err := readXMP(out)
	if err != nil {
		c.Fail("strays output "+p, "%v", err)
		return
	}
	if diff := diffAllow(d, got); len(diff) > 0 {
		c.Fail("strays "+p, "%s of a structure got lost: %s", kind, head(diff, 4))
	}
}

// misfits gives properties a value of another kind. Such a document may be
// refused, but when it is read no text of it may get lost.
func misfits(c *Case) {
	r := c.R
	m, p, s := propSchema(c.Idx)
	word := "misfit" + genToken(r)
	var v *val
	kind := pick(r, "array", "alt", "struct", "nested")
	switch kind {
	case "array":
		v = &val{kind: 'a', typ: pick(r, "Seq", "Bag"), items: []*val{newScalar(word), newScalar("b")}}
	case "alt":
		v = &val{kind: 'a', typ: "Alt", items: []*val{{kind: 's', text: word, lang: "x-default"}, {kind: 's', text: "b", lang: "de"}}}
	case "struct":
		v = &val{kind: 't', fields: map[qname]*val{{unkPool[0].uri, "in"}: newScalar(word)}}
	case "nested":
		v = &val{kind: 'a', typ: "Seq", items: []*val{{kind: 't', fields: map[qname]*val{{unkPool[0].uri, "in"}: newScalar(word)}}}}
	}
	d := singleDoc(m, p, v)
	d.pfx[unkPool[0].uri] = unkPool[0].prefix
	b := writeXMP(d, randStyle(r), r)
	c.Art("input", b)
	c.Seen(p, kind)
	c.Eval(1)
	if s.Kind != "leaf" && (s.Kind != "alt" || kind != "array") {
		return // values inside arrays and structures may get lost
	}
	what := kind + " for " + s.Kind
	doc, err := decodeXML(b)
	if err != nil {
		c.Event("refused: " + what)
		return
	}
	defer doc.Close()
	c.Event("read: " + what)
	out, err := xmp.Marshal(doc)
	if err != nil {
		c.Fail("misfits encode "+what+" "+s.Type, "%s %v", p, err)
		return
	}
	c.Art("output", out)
	// the value can be listed, read and replaced by its path
	l, err := doc.ListPaths()
	if err != nil {
		c.Fail("misfits list "+what, "%s: %v", p, err)
		return
	}
	listed := false
	for _, x := range l {
		if x.Value == word {
			listed = true
			if t, err := doc.GetPath(x.Path); err != nil || t != word {
				c.Fail("misfits get "+what, "%s: %s is %q, %v", p, x.Path, t, err)
				return
			}
		}
	}
	if !listed && kind != "nested" {
		c.Fail("misfits list "+what, "%s is not listed", p)
	}
	if r.Intn(3) == 0 && s.Kind == "leaf" && (kind == "array" || kind == "alt") {
		err := doc.SetPath(xmp.PathValue{Path: xmp.Path(p), Flags: xmp.DELETE})
		out, _ := xmp.Marshal(doc)
		if err == nil && bytes.Contains(out, []byte(word)) {
			c.Fail("misfits delete "+what, "%s is still there", p)
		}
		return
	}
	if !bytes.Contains(out, []byte(word)) {
		c.Fail("misfits "+what+" "+s.Type, "%s (%s): text got lost", p, s.Type)
	}
}
