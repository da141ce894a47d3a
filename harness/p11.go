package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

func cloneVal(v *val) *val {
	n := *v
	n.items = nil
	for _, x := range v.items {
		n.items = append(n.items, cloneVal(x))
	}
	if v.fields != nil {
		n.fields = map[qname]*val{}
		for k, x := range v.fields {
			n.fields[k] = cloneVal(x)
		}
	}
	return &n
}

// addressable reports whether paths can name everything inside v.
func addressable(s *Schema, v *val) bool {
	if s != nil && s.Type == "xmpbase.IdentifierArray" {
		return false
	}
	// items of arrays of fixed length exist from the start
	if s != nil && s.Len > 0 {
		return false
	}
	for _, x := range v.items {
		if x.kind == 'a' {
			return false
		}
		var e *Schema
		if s != nil {
			e = s.Elem
		}
		if !addressable(e, x) {
			return false
		}
	}
	for k, x := range v.fields {
		p, _ := golden.known(k.uri)
		var e *Schema
		if s != nil {
			e = s.Fields[p+":"+k.local]
		}
		if k.uri == "" || !addressable(e, x) {
			return false
		}
	}
	return true
}

func (d *gdoc) schemaOf(q qname) *Schema {
	if ms := golden.byPfx[d.pfx[q.uri]]; ms != nil {
		return ms.Props[d.pfx[q.uri]+":"+q.local]
	}
	return nil
}

func sub(s *Schema, k qname) *Schema {
	if s == nil {
		return nil
	}
	p, _ := golden.known(k.uri)
	return s.Fields[p+":"+k.local]
}

// mergeable reports whether src can be laid over dst item by item.
func mergeable(s *Schema, dst, src *val) bool {
	if coupled(s) || dst.kind != src.kind || dst.kind == 'a' && (dst.typ == "Alt") != (src.typ == "Alt") {
		return false
	}
	if s != nil && dst.kind == 's' && strings.Trim(dst.text, "0,. ") == "" {
		return false // may be there only because a later item is
	}
	if src.kind == 'a' && src.typ == "Alt" && (dst.items[0].lang != "x-default" || src.items[0].lang != "x-default") {
		return false
	}
	if src.kind == 'a' && src.typ != "Alt" {
		for i := range src.items {
			if i < len(dst.items) {
				var e *Schema
				if s != nil {
					e = s.Elem
				}
				if !mergeable(e, dst.items[i], src.items[i]) {
					return false
				}
			}
		}
	}
	for k, x := range src.fields {
		if y := dst.fields[k]; y != nil && !mergeable(sub(s, k), y, x) {
			return false
		}
	}
	return true
}

// asPaths gives the form a value takes when it is set by its paths.
func asPaths(s *Schema, v *val) *val {
	if v.kind == 'a' && s == nil && v.typ != "Alt" {
		v.typ = "Seq"
	}
	for _, x := range v.items {
		var e *Schema
		if s != nil {
			e = s.Elem
		}
		asPaths(e, x)
	}
	for k, x := range v.fields {
		asPaths(sub(s, k), x)
	}
	return v
}

// overlay is the merge of src into dst.
func overlay(c *Case, s *Schema, dst, src *val, create, replace bool) {
	switch {
	case src.kind == 's':
		if replace {
			c.Event("overwritten")
			dst.text = src.text
		} else {
			c.Event("kept")
		}
	case src.kind == 'a' && src.typ == "Alt":
	next:
		for _, x := range src.items {
			for _, y := range dst.items {
				if x.lang == y.lang {
					overlay(c, nil, y, x, create, replace)
					continue next
				}
			}
			if create {
				c.Event("language added")
				dst.items = append(dst.items, cloneVal(x))
			}
		}
	case src.kind == 'a':
		var e *Schema
		if s != nil {
			e = s.Elem
		}
		for i, x := range src.items {
			if i < len(dst.items) {
				overlay(c, e, dst.items[i], x, create, replace)
			} else if create {
				c.Event("item added")
				dst.items = append(dst.items, asPaths(e, cloneVal(x)))
			}
		}
	case src.kind == 't':
		for k, x := range src.fields {
			if y := dst.fields[k]; y != nil {
				overlay(c, sub(s, k), y, x, create, replace)
			} else if create {
				c.Event("field added")
				dst.fields[k] = asPaths(sub(s, k), cloneVal(x))
			}
		}
	}
}

// similar changes some of the texts, items and fields of v.
func similar(c *Case, s *Schema, v *val) *val {
	if size(v) > 40 {
		return cloneVal(v)
	}
	return genLike(c, s, v)
}

// size counts the texts of a value.
func size(v *val) int {
	n := 1
	for _, x := range v.items {
		n += size(x)
	}
	for _, x := range v.fields {
		n += size(x)
	}
	return n
}

func genLike(c *Case, s *Schema, v *val) *val {
	r := c.R
	switch v.kind {
	case 's':
		if s != nil {
			if x := leafVal(r, s); x != nil && x.kind == 's' {
				return x
			}
			return cloneVal(v)
		}
		return &val{kind: 's', text: freshText(c), lang: v.lang}
	case 'a':
		n := &val{kind: 'a', typ: v.typ}
		if v.typ == "Alt" {
			for i, x := range v.items {
				if i > 0 && r.Intn(3) == 0 {
					continue
				}
				n.items = append(n.items, &val{kind: 's', text: freshText(c), lang: x.lang})
			}
			l := langs[r.Intn(len(langs))]
			for _, x := range n.items {
				if x.lang == l {
					return n
				}
			}
			n.items = append(n.items, &val{kind: 's', text: freshText(c), lang: l})
			return n
		}
		if len(v.items) == 0 {
			return cloneVal(v)
		}
		var e *Schema
		if s != nil {
			e = s.Elem
		}
		m := 1 + r.Intn(len(v.items)+12)
		if s != nil && s.Len > 0 {
			m = len(v.items)
		}
		for i := 0; i < m; i++ {
			n.items = append(n.items, genLike(c, e, v.items[i%len(v.items)]))
		}
		return n
	case 't':
		n := &val{kind: 't', fields: map[qname]*val{}}
		for _, k := range sortedQ(v.fields) {
			if len(n.fields) == 0 || r.Intn(3) > 0 {
				n.fields[k] = genLike(c, sub(s, k), v.fields[k])
			}
		}
		return n
	}
	return cloneVal(v)
}

// prune removes what paths cannot name.
func (d *gdoc) prune() {
	for q, v := range d.props {
		if !addressable(d.schemaOf(q), v) {
			delete(d.props, q)
		}
	}
}

// decodeWorld reads d in style st.
func (w *world) mergeFrom(c *Case, b *world, f xmp.SyncFlags, name string) bool {
	create, replace := has(f, xmp.CREATE), has(f, xmp.REPLACE)
	before, _ := listPaths(b.doc)
	flat, _, err1 := docFlat(b.doc)
	w.log = append(w.log, "Merge("+flagString(f)+")")
	err := w.doc.Merge(b.doc, f)
	if err != nil {
		c.Fail("merge", "Merge(%s): %v", name, err)
		return false
	}
	// reference; values a model always has are part of the source
	if replace {
		for _, m := range b.d.models {
			ms := golden.byPfx[m]
			if !b.d.hasModel(ms) {
				continue
			}
			for _, k := range sortedQ(w.d.props) {
				if t := ms.Defaults[k.String()]; t != "" && b.d.props[k] == nil {
					c.Event("default overwrites")
					w.d.props[k] = newScalar(strings.Trim(t, "\""))
				}
			}
		}
	}
	for _, q := range sortedQ(b.d.props) {
		src := b.d.props[q]
		s := b.d.schemaOf(q)
		if dst := w.d.props[q]; dst != nil {
			overlay(c, s, dst, src, create, replace)
		} else if create {
			c.Event("property added")
			w.d.props[q] = asPaths(s, cloneVal(src))
		}
	}
	for u, p := range b.d.pfx {
		if w.d.pfx[u] == "" {
			w.d.pfx[u] = p
		}
	}
	for _, m := range b.d.models {
		in := false
		for _, x := range w.d.models {
			in = in || x == m
		}
		if !in && create {
			w.d.models = append(w.d.models, m)
		}
	}
	w.models = w.models || b.models
	if create {
		for k, v := range b.extra {
			w.extra[k] = v
		}
	}
	for _, q := range sortedQ(w.d.props) {
		p := w.d.pfx[q.uri] + ":" + q.local + " = "
		for k := range w.extra {
			if strings.HasPrefix(k, p) {
				delete(w.extra, k)
			}
		}
	}
	if !w.verify(c, "Merge("+name+")") {
		return false
	}
	// the source stays what it was
	after, _ := listPaths(b.doc)
	flat2, _, err2 := docFlat(b.doc)
	c.Eval(len(after) + len(flat))
	if diff := strDiff(before, after); len(diff) > 0 {
		c.Fail("source", "merging changed the source:\n  %s", head(diff, 5))
		return false
	}
	if err1 != nil || err2 != nil {
		c.Fail("source", "source cannot be written: %v %v", err1, err2)
		return false
	}
	if diff := diffMaps(flat, flat2); len(diff) > 0 {
		c.Fail("source", "merging changed the source:\n  %s", head(diff, 5))
		return false
	}
	return true
}

var mergeFlags = []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.ADD, xmp.DEFAULT, xmp.CREATE | xmp.REPLACE, xmp.CREATE | xmp.REPLACE | xmp.APPEND | xmp.NOFAIL, xmp.REPLACE | xmp.NOFAIL, 0}

func pickMergeFlags(c *Case) (xmp.SyncFlags, string) {
	f := mergeFlags[c.R.Intn(len(mergeFlags))]
	if f == 0 {
		return xmp.DEFAULT, "0"
	}
	return f, flagString(f)
}

// dropDefaults removes properties that exist in every document.
func (d *gdoc) dropDefaults() {
	for q := range d.props {
		if ms := golden.byPfx[d.pfx[q.uri]]; ms != nil && hasDefault(ms, q) {
			delete(d.props, q)
		}
	}
}

// defaults reports that the document has values the models make up.
func (d *gdoc) defaults() bool {
	for _, m := range d.models {
		if len(golden.byPfx[m].Defaults) > 0 {
			return true
		}
	}
	return false
}

func init() {
	register(&Property{
		ID:   "P11",
		Rule: "generated documents are merged into empty, overlapping and foreign documents with different flags, several merges in a row; a structural overlay of the two references predicts paths and output of the target, source and untouched properties are compared as well; distinct by (flags, kinds of overlap, models)",
		Scenarios: []Scenario{
			{"copy", 6000, 120000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 8})
				d.prune()
				b := newWorld(c, d)
				if b == nil {
					return
				}
				e := newGdoc()
				e.pfx = d.pfx
				e.models = nil
				w := &world{d: e, doc: xmp.NewDocument(), extra: map[string]int{}}
				f, name := pickMergeFlags(c)
				if !has(f, xmp.CREATE) {
					f, name = xmp.MERGE, "MERGE"
				}
				if !has(f, xmp.REPLACE) {
					d.dropDefaults()
					if b = newWorld(c, d); b == nil {
						return
					}
				}
				c.Seen("copy", name, d.shapes())
				if w.mergeFrom(c, b, f, name) {
					w.finish(c)
				}
			}},
			{"overlap", 8000, 160000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 6})
				d.prune()
				w := newWorld(c, d)
				if w == nil {
					return
				}
				for i, n := 0, 1+c.R.Intn(3); i < n; i++ {
					b := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 3, models: d.models})
					for _, q := range sortedQ(d.props) {
						if c.R.Intn(2) == 0 {
							b.props[q] = similar(c, d.schemaOf(q), d.props[q])
							b.pfx[q.uri] = d.pfx[q.uri]
							var uris = map[string]bool{}
							collectURIs(map[qname]*val{q: d.props[q]}, uris)
							for u := range uris {
								b.pfx[u] = d.pfx[u]
							}
						}
					}
					b.prune()
					for q, v := range b.props {
						uniqAlts(c, v)
						if x := d.props[q]; x != nil && !mergeable(d.schemaOf(q), x, v) {
							delete(b.props, q)
						}
					}
					f, name := pickMergeFlags(c)
					if f&(xmp.CREATE|xmp.REPLACE|xmp.UNIQUE|xmp.APPEND) == xmp.CREATE || !has(f, xmp.CREATE) {
						if d.defaults() || b.defaults() {
							f, name = xmp.MERGE, "MERGE"
						}
					}
					if !has(f, xmp.REPLACE) {
						b.dropDefaults()
					}
					c.Seen("overlap", name, b.shapes())
					bw := newWorld(c, b)
					if bw == nil {
						return
					}
					if !w.mergeFrom(c, bw, f, name) {
						return
					}
					bw.doc.Close()
				}
				w.finish(c)
			}},
			{"prefixes", 4000, 80000, func(c *Case) {
				mergePrefixes(c)
			}},
		},
	})
}

// mergePrefixes merges documents whose unregistered namespaces use different
// prefixes for one URI and one prefix for different URIs.
func mergePrefixes(c *Case) {
	r := c.R
	uris := []string{"http://one.example.com/a/", "http://two.example.com/b#", "urn:example:three", "http://four.example.com/"}
	// names that are free in one document may be taken in the other
	pfx := []string{"aa", "bb", "cc", "dd"}
	if r.Intn(2) == 0 {
		pfx = []string{"aa", "aa1", "aa2", "bb", "bb1", "aa3", "bb2"}
	}
	mk := func() (map[string]*val, []byte) {
		p := r.Perm(len(pfx))
		var ns []unkNS
		for i, u := range uris {
			ns = append(ns, unkNS{pfx[p[i]], u})
		}
		d := newGdoc()
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			x := ns[r.Intn(len(ns))]
			v := genUnknown(r, ns, 1)
			if !v.empty() {
				d.props[qname{x.uri, fmt.Sprintf("n%d", r.Intn(6))}] = v
			}
		}
		if r.Intn(2) == 0 {
			d.props[qname{golden.byPfx["dc"].URI, "source"}] = newScalar(freshText(c))
		}
		d.pfx = map[string]string{golden.byPfx["dc"].URI: "dc"}
		for _, x := range ns {
			d.pfx[x.uri] = x.prefix
		}
		d.prune()
		props := map[string]*val{}
		for _, q := range sortedQ(d.props) {
			uniqAlts(c, d.props[q])
			props[q.String()] = d.props[q]
		}
		b := writeXMP(d, style{wrapper: true, pretty: true, quote: '"', rootNS: r.Intn(3)}, r)
		return props, b
	}
	p1, b1 := mk()
	p2, b2 := mk()
	c.Art("target", b1)
	c.Art("source", b2)
	d1, err1 := decodeXML(b1)
	d2, err2 := decodeXML(b2)
	if err1 != nil || err2 != nil {
		c.Fail("decode", "%v %v", err1, err2)
		return
	}
	f, name := pickMergeFlags(c)
	if !has(f, xmp.CREATE) {
		f, name = xmp.EXTEND, "EXTEND"
	}
	for q := range p2 {
		if x := p1[q]; x != nil && !mergeable(nil, x, p2[q]) {
			return
		}
	}
	if err := d1.Merge(d2, f); err != nil {
		c.Fail("merge", "Merge(%s): %v", name, err)
		return
	}
	var keys []string
	for q := range p2 {
		keys = append(keys, q)
	}
	sort.Strings(keys)
	over := 0
	for _, q := range keys {
		if x := p1[q]; x != nil {
			over++
			overlay(c, nil, x, p2[q], true, has(f, xmp.REPLACE))
		} else {
			p1[q] = asPaths(nil, cloneVal(p2[q]))
		}
	}
	c.Seen("prefixes", name, fmt.Sprint(over), fmt.Sprint(len(p1)), fmt.Sprint(len(p2)))
	want := map[string]string{}
	for q, v := range p1 {
		want[q] = v.String()
	}
	got, out, err := docFlat(d1)
	c.Art("output", out)
	if err != nil {
		c.Fail("output", "merged document: %v", err)
		return
	}
	c.Eval(len(want))
	if diff := diffMaps(want, got); len(diff) > 0 {
		c.Fail(diffKey("prefixes", diff), "merged document differs:\n  %s", head(diff, 6))
	}
}

var _ = rand.Int
