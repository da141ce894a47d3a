package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// twinModel has the properties of two namespaces.
type twinModel struct {
	Alpha string          `vta:"Alpha" xmp:"vta:alpha"`
	Same  string          `vta:"Same" xmp:"vta:same"`
	Count int             `xmp:"vta:count,attr"`
	List  xmp.StringList  `xmp:"vta:list"`
	Beta  string          `xmp:"vtb:beta"`
	Other string          `xmp:"vtb:same"`
	Flag  int             `xmp:"vtb:flag,attr"`
	Title xmp.AltString   `xmp:"vtb:title"`
	Bag   xmp.StringArray `xmp:"vtb:bag"`
	Sub   *twinSub        `xmp:"vtb:sub"`
}

type twinSub struct {
	X string `xmp:"vtb:x"`
	Y string `xmp:"vta:y"`
}

var nsTwinA = xmp.NewNamespace("vta", "urn:verif:twin:a", func(string) xmp.Model { return &twinModel{} })
var nsTwinB = xmp.NewNamespace("vtb", "http://verif.example.org/twin/b#", func(string) xmp.Model { return &twinModel{} })

func init() {
	xmp.Register(nsTwinA)
	xmp.Register(nsTwinB)
}

func (x *twinModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsTwinA, nsTwinB} }
func (x *twinModel) Can(n string) bool                 { return n == "vta" || n == "vtb" }
func (x *twinModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *twinModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *twinModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *twinModel) CanTag(tag string) bool            { return false }
func (x *twinModel) GetTag(tag string) (string, error) { return "", nil }
func (x *twinModel) SetTag(tag, value string) error    { return nil }

// twinState is the reference: a text per path.
type twinState map[string]string

func (s twinState) lines() []string {
	var l []string
	for k, v := range s {
		l = append(l, k+" = "+v)
	}
	sort.Strings(l)
	return l
}

// props gives the abstract document.
func (s twinState) props() map[qname]*val {
	out := map[qname]*val{}
	uri := map[string]string{"vta": nsTwinA.GetURI(), "vtb": nsTwinB.GetURI()}
	name := func(p string) qname {
		i := strings.Index(p, ":")
		return qname{uri[p[:i]], p[i+1:]}
	}
	ks := make([]string, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := s[k]
		switch {
		case strings.HasPrefix(k, "vtb:title["):
			q := name("vtb:title")
			if out[q] == nil {
				out[q] = &val{kind: 'a', typ: "Alt"}
			}
			x := &val{kind: 's', text: v, lang: k[len("vtb:title[") : len(k)-1]}
			if x.lang == "x-default" {
				out[q].items = append([]*val{x}, out[q].items...)
			} else {
				out[q].items = append(out[q].items, x)
			}
		case strings.HasSuffix(k, "]"):
			q := name(k[:strings.Index(k, "[")])
			if out[q] == nil {
				out[q] = &val{kind: 'a', typ: map[string]string{"list": "Seq", "bag": "Bag"}[q.local]}
			}
			out[q].items = append(out[q].items, &val{kind: 's', text: v})
		case strings.HasPrefix(k, "vtb:sub/"):
			q := name("vtb:sub")
			if out[q] == nil {
				out[q] = &val{kind: 't', fields: map[qname]*val{}}
			}
			f := k[len("vtb:sub/"):]
			if !strings.Contains(f, ":") {
				f = "vtb:" + f
			}
			out[q].fields[name(f)] = newScalar(v)
		default:
			out[name(k)] = newScalar(v)
		}
	}
	return out
}

// twins runs histories on documents with a model of two namespaces.
func twins(c *Case) {
	r := c.R
	s := twinState{}
	text := func() string { return genToken(r) + " " + pick(r, "a", "b&c", "ä") }
	scalars := []string{"vta:alpha", "vta:same", "vtb:beta", "vtb:same", "vtb:sub/x", "vtb:sub/vta:y", "vta:za", "vtb:zb", "vta:count", "vtb:flag"}
	randomValue := func(p string) string {
		if p == "vta:count" || p == "vtb:flag" {
			return fmt.Sprint(1 + r.Intn(1000))
		}
		return text()
	}
	random := func() twinState {
		s := twinState{}
		for _, p := range scalars {
			if r.Intn(3) == 0 {
				s[p] = randomValue(p)
			}
		}
		for i, n := 0, r.Intn(4); i < n; i++ {
			s[fmt.Sprintf("vta:list[%d]", i)] = text()
		}
		for i, n := 0, r.Intn(4); i < n; i++ {
			s[fmt.Sprintf("vtb:bag[%d]", i)] = text()
		}
		if r.Intn(2) == 0 {
			s["vtb:title[x-default]"] = text()
			if r.Intn(2) == 0 {
				s["vtb:title[de]"] = text()
			}
		}
		return s
	}
	write := func(s twinState) []byte {
		d := newGdoc()
		d.pfx = map[string]string{nsTwinA.GetURI(): pick(r, "vta", "a", "vtb"), nsTwinB.GetURI(): pick(r, "vtb", "b")}
		if d.pfx[nsTwinA.GetURI()] == d.pfx[nsTwinB.GetURI()] {
			d.pfx[nsTwinB.GetURI()] = "vta" // exchanged
		}
		for q, v := range s.props() {
			d.props[q] = v
		}
		return writeXMP(d, randStyle(r), r)
	}
	doc := xmp.NewDocument()
	defer func() { doc.Close() }()
	var log []string
	load := func(b []byte) *xmp.Document {
		c.Art("input", b)
		x, err := decodeXML(b)
		if err != nil {
			c.Fail("decode", "%v", err)
			return nil
		}
		return x
	}
	check := func() bool {
		what := log[len(log)-1]
		c.Art("history", strings.Join(log, "\n"))
		l, err := doc.ListPaths()
		if err != nil {
			c.Fail("list", "%v", err)
			return false
		}
		var got []string
		for _, v := range l {
			// properties unknown to the model may be listed with another prefix
			p := v.Path.String()
			if strings.HasPrefix(p, "vta:vtb:") || strings.HasPrefix(p, "vtb:vta:") {
				p = p[len("vta:"):]
			}
			got = append(got, p+" = "+v.Value)
			if g, err := doc.GetPath(xmp.Path(p)); err != nil || g != v.Value {
				c.Fail("get", "after %s: GetPath(%s) is %q, %v, listed is %q", what, p, g, err, v.Value)
				return false
			}
			if g, err := doc.GetPath(v.Path); err != nil || g != v.Value {
				c.Fail("get", "after %s: GetPath(%s) is %q, %v, listed is %q", what, v.Path, g, err, v.Value)
				return false
			}
		}
		sort.Strings(got)
		c.Eval(len(got) + len(s))
		if diff := strDiff(s.lines(), got); len(diff) > 0 {
			c.Fail("paths", "after %s:\n  %s", what, head(diff, 6))
			return false
		}
		b, err := xmp.Marshal(doc)
		if err != nil {
			c.Fail("encode", "after %s: %v", what, err)
			return false
		}
		x, err := readXMP(b)
		if err != nil {
			c.Fail("output", "after %s: %v", what, err)
			return false
		}
		want := (&rdfDoc{props: s.props()}).flat()
		if diff := diffMaps(want, x.flat()); len(diff) > 0 {
			c.Art("output", b)
			c.Fail("packet", "after %s:\n  %s", what, head(diff, 6))
			return false
		}
		if len(s) == 0 {
			return true
		}
		// one model for both namespaces
		ma, mb := doc.FindModel(nsTwinA), doc.FindModel(nsTwinB)
		if ma == nil || ma != mb {
			c.Fail("model", "after %s: the namespaces have the models %v and %v", what, reflect.TypeOf(ma), reflect.TypeOf(mb))
			return false
		}
		m := ma.(*twinModel)
		vals := map[string]string{"vta:alpha": m.Alpha, "vta:same": m.Same, "vtb:beta": m.Beta, "vtb:same": m.Other, "vta:list[0]": append(m.List, "")[0], "vtb:title[x-default]": m.Title.Default()}
		if m.Sub != nil {
			vals["vtb:sub/x"], vals["vtb:sub/vta:y"] = m.Sub.X, m.Sub.Y
		}
		for k, v := range vals {
			if s[k] != v {
				c.Fail("field", "after %s: the field of %s is %q, not %q", what, k, v, s[k])
				return false
			}
		}
		// the JSON form names both namespaces
		j, err := json.Marshal(doc)
		if err != nil {
			c.Fail("json", "after %s: %v", what, err)
			return false
		}
		var f struct {
			Namespaces map[string]string         `json:"namespaces"`
			Models     map[string]map[string]any `json:"models"`
		}
		if err := json.Unmarshal(j, &f); err != nil {
			c.Fail("json", "after %s: %v", what, err)
			return false
		}
		for k := range s {
			if len(log) > 1 {
				break // changes need not declare namespaces
			}
			ns := map[string]*xmp.Namespace{"vta": nsTwinA, "vtb": nsTwinB}[k[:3]]
			if f.Namespaces[k[:3]] != ns.GetURI() {
				c.Art("json", j)
				c.Fail("json-ns", "after %s: the JSON uses %s, its namespaces are %v", what, k, f.Namespaces)
				return false
			}
			found := false
			for _, n := range doc.Namespaces() {
				found = found || n.GetURI() == ns.GetURI()
			}
			if !found {
				c.Fail("namespaces", "after %s: the document uses %s, its namespaces are %s", what, k, namespaceSet(doc))
				return false
			}
		}
		return true
	}
	switch r.Intn(4) {
	case 0:
		log = append(log, "new")
	case 1:
		log = append(log, "MakeModel")
		m, err := doc.MakeModel([]*xmp.Namespace{nsTwinA, nsTwinB}[r.Intn(2)])
		if err != nil {
			c.Fail("make", "%v", err)
			return
		}
		x := m.(*twinModel)
		x.Beta, s["vtb:beta"] = "made", "made"
		if r.Intn(2) == 0 {
			x.Alpha, s["vta:alpha"] = "made too", "made too"
		}
		doc.SetDirty()
	default:
		s = random()
		log = append(log, "load")
		doc.Close()
		if doc = load(write(s)); doc == nil {
			doc = xmp.NewDocument()
			return
		}
	}
	if !check() {
		return
	}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		switch op := r.Intn(8); op {
		case 0, 1, 2:
			p := pick(r, scalars...)
			v := randomValue(p)
			log = append(log, "set "+p)
			if err := doc.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
				c.Fail("set", "SetPath(%s): %v", p, err)
				return
			}
			s[p] = v
		case 3:
			p := pick(r, scalars...)
			if p == "vtb:sub/x" || p == "vtb:sub/vta:y" || len(doc.Nodes()) == 0 || s[p] == "" {
				continue
			}
			log = append(log, "delete "+p)
			if err := doc.SetPath(xmp.PathValue{Path: xmp.Path(p), Flags: xmp.DELETE}); err != nil {
				c.Fail("delete", "SetPath(%s): %v", p, err)
				return
			}
			delete(s, p)
		case 4:
			o := random()
			delete(o, "vtb:title[de]")
			log = append(log, "merge")
			x := load(write(o))
			if x == nil {
				return
			}
			err := doc.Merge(x, xmp.CREATE|xmp.REPLACE)
			x.Close()
			if err != nil {
				c.Fail("merge", "%v", err)
				return
			}
			if t := o["vtb:title[x-default]"]; t != "" && s["vtb:title[x-default]"] != "" {
				s["vtb:title[x-default]"] = t
				delete(o, "vtb:title[x-default]")
			}
			for k, v := range o {
				s[k] = v
			}
		case 5:
			log = append(log, "json")
			b, err := json.Marshal(doc)
			if err != nil {
				c.Fail("json", "%v", err)
				return
			}
			x := &xmp.Document{}
			if err := json.Unmarshal(b, x); err != nil {
				c.Art("json", b)
				c.Fail("json", "own JSON is refused: %v", err)
				return
			}
			doc.Close()
			doc = x
		case 6:
			log = append(log, "field")
			ns := []*xmp.Namespace{nsTwinA, nsTwinB}[r.Intn(2)]
			m, err := doc.MakeModel(ns)
			if err != nil {
				c.Fail("make", "%v", err)
				return
			}
			m.(*twinModel).Other = text()
			s["vtb:same"] = m.(*twinModel).Other
			doc.SetDirty()
		default:
			log = append(log, "reload")
			b, err := xmp.Marshal(doc)
			if err != nil {
				c.Fail("encode", "%v", err)
				return
			}
			x := load(b)
			if x == nil {
				return
			}
			doc.Close()
			doc = x
		}
		if !check() {
			return
		}
	}
	c.Seen("twins", strings.Join(log, ","))
}
