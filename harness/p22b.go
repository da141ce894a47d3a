package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/trimmer-io/go-xmp/xmp"
)

// usedDocument decodes into a document that has contents and a history:
// nothing of them may be left.
func usedDocument(c *Case) {
	r := c.R
	doc := xmp.NewDocument()
	defer doc.Close()
	var log []string
	load := func(d *xmp.Document, asJSON bool, b []byte) error {
		if asJSON {
			return json.Unmarshal(b, d)
		}
		return xmp.Unmarshal(b, d)
	}
	for i, n := 0, 2+r.Intn(2); i < n; i++ {
		b, g := anyDoc(c)
		if g != nil && r.Intn(3) == 0 {
			// parts that may be absent
			g.toolkit, g.about = "", ""
			if r.Intn(2) == 0 {
				g.toolkit = "Toolkit " + genToken(r)
			}
			st := randStyle(r)
			st.wrapper = true
			b = writeXMP(g, st, r)
		}
		what, asJSON := "packet", r.Intn(3) == 0
		if asJSON {
			x, err := decodeXML(b)
			if err != nil {
				return
			}
			b, err = json.Marshal(x)
			x.Close()
			if err != nil {
				return
			}
			what = "JSON"
		}
		c.Art(fmt.Sprintf("input %d", i), b)
		fresh := xmp.NewDocument()
		e1, e2 := load(fresh, asJSON, b), load(doc, asJSON, b)
		c.Eval(4)
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			c.Fail("used:error", "%s decoded into a new document: %v, into one with contents: %v (%v)", what, e1, e2, log)
			return
		}
		if e1 != nil {
			return
		}
		log = append(log, what)
		c.Seen(len(b), what, i)
		if x, y := dumpDoc(fresh), dumpDoc(doc); !reflect.DeepEqual(x, y) {
			c.Fail("used:state", "%s decoded into a document with contents differs from one decoded into a new document (%v): %s", what, log, dumpDiff(x, y))
			return
		}
		o1, e1 := xmp.Marshal(fresh)
		o2, e2 := xmp.Marshal(doc)
		if string(o1) != string(o2) || fmt.Sprint(e1) != fmt.Sprint(e2) {
			c.Fail("used:packet", "the packet depends on what the document contained before (%v, %v, %v): %s", log, e1, e2, oneLine(string(o1), string(o2)))
			return
		}
		j1, _ := json.Marshal(fresh)
		j2, _ := json.Marshal(doc)
		if string(j1) != string(j2) {
			c.Fail("used:json", "JSON depends on what the document contained before (%v): %s", log, oneLine(string(j1), string(j2)))
			return
		}
		fresh.Close()
		c.Event("used document " + what)
		// a history in between
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(4) {
			case 0:
				doc.SetPath(xmp.PathValue{Path: xmp.Path("dc:source"), Value: genToken(r), Flags: xmp.CREATE | xmp.REPLACE})
				log = append(log, "edit")
			case 1:
				if l := doc.Namespaces(); len(l) > 0 {
					doc.RemoveNamespace(l[r.Intn(len(l))])
					log = append(log, "remove")
				}
			case 2:
				a := accessors[r.Intn(len(accessors))]
				a.make(doc)
				log = append(log, "make "+a.name)
			case 3:
				if r.Intn(3) == 0 {
					doc.Close()
					log = append(log, "close")
				} else {
					xmp.Unmarshal(brokenInput(c, b), doc)
					log = append(log, "broken")
				}
			}
		}
	}
}
