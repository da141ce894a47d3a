package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
)

// models that write into other properties when a changed document is saved;
// their paths are looked at model by model
var syncModels = map[string]bool{"iXML": true, "id3": true, "riffinfo": true, "exif": true, "qt": true, "tiff": true, "pdf": true}

// structures whose fields depend on each other
func coupled(s *Schema) bool {
	return s != nil && (s.All || overrides[s.Type].fields != nil)
}

// site is a place in a document that a path can name.
type site struct {
	path   string
	s      *Schema // nil in unregistered namespaces
	v      *val    // current value, nil when missing
	kind   byte    // 's' scalar, 'a' array, 'l' alternative by language
	text   func(*Case) string
	put    func(t string) // make the value t (scalar, item)
	del    func()         // remove it
	parent *val           // array of an item
	idx    int
	last   bool // only field of its structure
}

func pathSeg(base, pfx string, k qname, d *gdoc, typed bool) string {
	p := d.pfx[k.uri]
	if g, ok := golden.known(k.uri); ok {
		p = g
	}
	seg := p + ":" + k.local
	// a segment without prefix has that of the last one which has any
	last := pfx
	for _, f := range strings.Split(base[strings.Index(base, ":")+1:], "/") {
		if i := strings.Index(f, ":"); i > 0 && (strings.Index(f, "[") < 0 || i < strings.Index(f, "[")) {
			last = f[:i]
		}
	}
	if p == pfx && (typed || p == last) {
		seg = k.local
	}
	return base + "/" + seg
}

func freshText(c *Case) string { return genText(c.R) + " " + genToken(c.R) }

func textFor(s *Schema) func(*Case) string {
	return func(c *Case) string {
		if s == nil {
			return freshText(c)
		}
		v := leafVal(c.R, s)
		if v == nil {
			return ""
		}
		return v.text
	}
}

func altish(s *Schema, v *val) bool {
	if s != nil {
		return s.Kind == "alt"
	}
	return v != nil && v.kind == 'a' && v.typ == "Alt"
}

// sites lists the places of a property, missing ones included.
func (d *gdoc) sites(path string, s *Schema, v *val, pfx string, put func(*val), del func(), last bool, depth int, out *[]*site) {
	if s != nil && (!usable(s) || coupled(s) || s.Type == "xmpbase.IdentifierArray") {
		return
	}
	switch {
	case altish(s, v) && strings.HasSuffix(path, "]"):
		// not addressable
	case altish(s, v):
		has := map[string]bool{}
		if v != nil {
			for i, x := range v.items {
				i, x := i, x
				has[x.lang] = true
				*out = append(*out, &site{path: path + "[" + x.lang + "]", s: s, v: x, kind: 'l', text: freshText,
					put: func(t string) { v.items[i].text = t },
					del: func() { v.items = append(append([]*val{}, v.items[:i]...), v.items[i+1:]...) }, parent: v, idx: i})
			}
		}
		for _, l := range langs {
			l := l
			if has[l] || v == nil || s == nil && len(v.items) == 0 {
				continue
			}
			*out = append(*out, &site{path: path + "[" + l + "]", s: s, kind: 'l', text: freshText,
				put: func(t string) { v.items = append(v.items, &val{kind: 's', text: t, lang: l}) }, parent: v, idx: -1})
			break
		}
		*out = append(*out, &site{path: path, s: s, v: v, kind: 'A', text: freshText, del: del, last: last,
			put: func(t string) {
				put(&val{kind: 'a', typ: "Alt", items: []*val{{kind: 's', text: t, lang: "x-default"}}})
			}})
	case s != nil && s.Kind == "leaf" || s == nil && (v == nil || v.kind == 's'):
		*out = append(*out, &site{path: path, s: s, v: v, kind: 's', text: textFor(s), del: del, last: last,
			put: func(t string) { put(&val{kind: 's', text: t}) }})
	case s != nil && s.Kind == "array" || s == nil && v.kind == 'a':
		var e *Schema
		n := 0
		if s != nil {
			e = s.Elem
		}
		if v != nil {
			n = len(v.items)
		}
		if strings.HasSuffix(path, "]") {
			return // arrays of arrays are not addressable
		}
		simple := e == nil || e.Kind == "leaf"
		for i := 0; i < n; i++ {
			i := i
			if e == nil && v.items[i].kind != 's' {
				simple = false
			}
			if s != nil && s.Len > 0 {
				d.sites(fmt.Sprintf("%s[%d]", path, i), e, v.items[i], pfx, func(x *val) { v.items[i] = x }, nil, false, depth+1, out)
				continue
			}
			d.sites(fmt.Sprintf("%s[%d]", path, i), e, v.items[i], pfx, func(x *val) { v.items[i] = x },
				func() { v.items = append(append([]*val{}, v.items[:i]...), v.items[i+1:]...) }, n == 1, depth+1, out)
		}
		if s != nil && s.Len > 0 {
			return
		}
		if simple && e != nil || simple && n > 0 {
			typ := "Seq"
			if s != nil {
				typ = s.Arr
			} else {
				typ = v.typ
			}
			// one more item by index
			*out = append(*out, &site{path: fmt.Sprintf("%s[%d]", path, n), s: e, kind: 's', text: textFor(e),
				put: func(t string) {
					if v == nil {
						put(&val{kind: 'a', typ: typ, items: []*val{{kind: 's', text: t}}})
						return
					}
					v.items = append(v.items, &val{kind: 's', text: t})
				}})
			*out = append(*out, &site{path: path, s: e, v: v, kind: 'a', text: textFor(e), del: del, last: last,
				put: func(t string) { put(&val{kind: 'a', typ: typ, items: []*val{{kind: 's', text: t}}}) }})
		} else if e != nil && e.Kind == "struct" && depth < 4 && n < 5 {
			// a field of one more structure
			nv := &val{kind: 't', fields: map[qname]*val{}}
			arr := v
			d.sites(fmt.Sprintf("%s[%d]", path, n), e, nv, pfx, func(x *val) {}, nil, false, depth+1, wrapPut(out, func() {
				if arr == nil {
					put(&val{kind: 'a', typ: s.Arr, items: []*val{nv}})
				} else {
					arr.items = append(arr.items, nv)
				}
			}))
			flush(out)
		}
	case s != nil && s.Kind == "struct" || s == nil && v.kind == 't':
		if v == nil {
			if depth > 3 {
				return
			}
			nv := &val{kind: 't', fields: map[qname]*val{}}
			d.sites(path, s, nv, pfx, func(x *val) {}, nil, false, depth+1, wrapPut(out, func() { put(nv) }))
			flush(out)
			return
		}
		seen := map[qname]bool{}
		locals := map[string]int{}
		for k := range v.fields {
			locals[k.local]++
		}
		for _, k := range sortedQ(v.fields) {
			k := k
			seen[k] = true
			if k.uri == "" {
				continue
			}
			var e *Schema
			if s != nil {
				p, _ := golden.known(k.uri)
				if e = s.Fields[p+":"+k.local]; e == nil {
					continue
				}
			} else if locals[k.local] > 1 && depth > 0 {
				continue // the namespace of deeper names depends on the path
			}
			d.sites(pathSeg(path, pfx, k, d, s != nil), e, v.fields[k], pfx, func(x *val) { v.fields[k] = x },
				func() { delete(v.fields, k) }, len(v.fields) == 1, depth+1, out)
		}
		if s != nil {
			for _, f := range sortedKeys(s.Fields) {
				k := golden.q(f)
				if !seen[k] && k.uri != "" {
					d.sites(pathSeg(path, pfx, k, d, s != nil), s.Fields[f], nil, pfx, func(x *val) { v.fields[k] = x }, nil, false, depth+1, out)
				}
			}
		} else if len(v.fields) > 0 && locals["freshField"] == 0 && depth == 0 {
			k := qname{"", "freshField"}
			for u, p := range d.pfx {
				if p == pfx {
					k.uri = u
				}
			}
			if k.uri != "" {
				d.sites(pathSeg(path, pfx, k, d, s != nil), nil, nil, pfx, func(x *val) { v.fields[k] = x }, nil, false, depth+1, out)
			}
		}
	}
}

// wrapPut collects the sites of a value that does not exist yet; flush makes
// setting any of them create it.
type pending struct {
	dst    *[]*site
	l      []*site
	create func()
}

var pend []*pending

func wrapPut(out *[]*site, create func()) *[]*site {
	p := &pending{dst: out, create: create}
	pend = append(pend, p)
	return &p.l
}

func flush(out *[]*site) {
	p := pend[len(pend)-1]
	pend = pend[:len(pend)-1]
	for _, s := range p.l {
		if s.put == nil || s.v != nil {
			continue
		}
		put := s.put
		s.put = func(t string) { put(t); p.create() }
		*out = append(*out, s)
	}
}

func sortedQ(m map[qname]*val) []qname {
	var l []qname
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// allSites lists the places of the document and some properties it lacks.
func (d *gdoc) allSites(c *Case, missing int) []*site {
	var out []*site
	for _, q := range sortedQ(d.props) {
		q := q
		p := d.pfx[q.uri]
		var s *Schema
		if ms := golden.byPfx[p]; ms != nil {
			s = ms.Props[p+":"+q.local]
		}
		if s != nil && hasDefault(golden.byPfx[p], q) {
			continue
		}
		d.sites(p+":"+q.local, s, d.props[q], p, func(x *val) { d.props[q] = x }, func() { delete(d.props, q) }, false, 0, &out)
	}
	for i := 0; i < missing; i++ {
		m := d.models[c.R.Intn(len(d.models))]
		ms := golden.byPfx[m]
		k := sortedKeys(ms.Props)
		n := k[c.R.Intn(len(k))]
		s := ms.Props[n]
		if len(ms.Defaults) > 0 && !d.hasModel(ms) {
			continue // a new model comes with default values
		}
		if hasDefault(ms, golden.q(n)) || s.Empty || !usable(s) || s.Omit || s.Ver != "" || s.Kind == "other" {
			continue
		}
		q := golden.q(n)
		if d.props[q] != nil {
			continue
		}
		p := n[:strings.Index(n, ":")]
		d.sites(n, s, nil, p, func(x *val) { d.props[q] = x }, nil, false, 0, &out)
	}
	return out
}

func (d *gdoc) hasModel(ms *ModelSchema) bool {
	for q := range d.props {
		if q.uri == ms.URI {
			return true
		}
	}
	return false
}

// hasDefault tells that the property is never missing.
func hasDefault(ms *ModelSchema, q qname) bool { return ms.Defaults[q.String()] != "" }

// uniqAlts gives every language of an alternative a text of its own.
func uniqAlts(c *Case, v *val) {
	if v.kind == 'a' && v.typ == "Alt" && len(v.items) > 0 && v.items[0].lang != "" {
		for i, x := range v.items {
			x.text = fmt.Sprintf("%s #%d", x.text, i)
		}
	}
	for _, x := range v.items {
		uniqAlts(c, x)
	}
	for _, x := range v.fields {
		uniqAlts(c, x)
	}
}

// world is a document and the reference that follows it.
type world struct {
	d      *gdoc
	doc    *xmp.Document
	models bool // compare model by model, saving would change other properties
	extra  map[string]int
	log    []string
}

func (w *world) paths() ([]string, error) {
	if !w.models {
		return listPaths(w.doc)
	}
	var out []string
	for _, n := range w.doc.Nodes() {
		if n.Model == nil {
			continue
		}
		l, err := xmp.ListModelPaths(n.Model)
		if err != nil {
			return nil, err
		}
		for _, v := range l {
			if n.Model.Can(v.Path.NamespacePrefix()) { // leave out copies of other properties
				out = append(out, string(v.Path)+" = "+v.Value)
			}
		}
	}
	return out, nil
}

func (w *world) want() []string {
	var want []string
	for q, v := range w.d.props {
		p := w.d.pfx[q.uri]
		var s *Schema
		if ms := golden.byPfx[p]; ms != nil {
			s = ms.Props[p+":"+q.local]
		}
		if s == nil {
			if !w.models {
				rawPaths(w.d, p+":"+q.local, v, p, &want)
			}
			continue
		}
		expectPaths(p+":"+q.local, s, v, p, &want)
	}
	return want
}

// rawPaths lists the paths of an unregistered property.
func rawPaths(d *gdoc, path string, v *val, pfx string, out *[]string) {
	switch v.kind {
	case 's':
		if v.text != "" {
			*out = append(*out, path+" = "+v.text)
		}
	case 'a':
		for i, x := range v.items {
			p := fmt.Sprintf("%s[%d]", path, i)
			if strings.HasSuffix(path, "]") {
				p = fmt.Sprintf("%s/[%d]", path, i)
			}
			if v.typ == "Alt" {
				l := x.lang
				p = fmt.Sprintf("%s[%s]", path, l)
				if strings.HasSuffix(path, "]") {
					p = fmt.Sprintf("%s/[%s]", path, l)
				}
			}
			rawPaths(d, p, x, pfx, out)
		}
	case 't':
		for k, x := range v.fields {
			rawPaths(d, pathSeg(path, pfx, k, d, false), x, pfx, out)
		}
	}
}

func minus(a, b []string) (map[string]int, []string) {
	m := map[string]int{}
	for _, s := range a {
		m[s]++
	}
	var miss []string
	for _, s := range b {
		if m[s] == 0 {
			miss = append(miss, s)
			continue
		}
		if m[s]--; m[s] == 0 {
			delete(m, s)
		}
	}
	return m, miss
}

func newWorld(c *Case, d *gdoc) *world {
	for _, v := range d.props {
		uniqAlts(c, v)
	}
	if c.R.Intn(3) == 0 {
		d.toolkit = "Toolkit " + genToken(c.R)
	}
	w := &world{d: d}
	for _, m := range d.models {
		if syncModels[m] {
			w.models = true
		}
	}
	st := randStyle(c.R)
	if d.toolkit != "" {
		st.wrapper = true
	}
	if len(d.props) == 0 {
		d.about = "" // no Description to carry it
	}
	b := writeXMP(d, st, c.R)
	c.Art("input", b)
	var err error
	if w.doc, err = decodeXML(b); err != nil {
		c.Fail("decode", "%v", err)
		return nil
	}
	got, err := w.paths()
	if err != nil {
		c.Fail("list", "%v", err)
		return nil
	}
	var miss []string
	w.extra, miss = minus(got, w.want())
	if len(miss) > 0 {
		c.Fail("list", "path list lacks\n  %s\n  has %s", head(miss, 5), head(sortedKeys(w.extra), 5))
		return nil
	}
	return w
}

// verify compares the whole path list with the reference.
func (w *world) verify(c *Case, what string) bool {
	got, err := w.paths()
	c.Eval(1 + len(got))
	if err != nil {
		c.Fail("list", "%s: %v", what, err)
		return false
	}
	rest, miss := minus(got, w.want())
	// properties a model always writes stay as they were unless set
	var add []string
	for s, n := range rest {
		if w.extra[s] != n {
			add = append(add, s)
		}
	}
	var gone []string
	for s, n := range w.extra {
		if rest[s] != n && rest[s] == 0 {
			gone = append(gone, s)
		}
	}
	for _, s := range gone {
		p := s[:strings.Index(s, " = ")]
		if strings.Contains(what, p) {
			delete(w.extra, s) // a default that has been set
			continue
		}
		miss = append(miss, s)
	}
	if len(miss)+len(add) > 0 {
		sort.Strings(add)
		sort.Strings(miss)
		c.Art("history", strings.Join(w.log, "\n"))
		c.Fail("state", "after %s\n  missing: %s\n  unexpected: %s", what, head(miss, 5), head(add, 5))
		return false
	}
	return true
}

func (w *world) set(p string, v string, f xmp.SyncFlags) error {
	w.log = append(w.log, fmt.Sprintf("SetPath(%s, %q, %s)", p, v, flagString(f)))
	return w.doc.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: f})
}

func flagString(f xmp.SyncFlags) string {
	var s []string
	for i, n := range []string{"CREATE", "REPLACE", "DELETE", "APPEND", "UNIQUE", "NOFAIL"} {
		if f&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, "|")
}

func oneOf[T any](c *Case, l ...T) T { return l[c.R.Intn(len(l))] }

// step performs one operation that must succeed.
func (w *world) step(c *Case) bool {
	sites := w.d.allSites(c, 6)
	if len(sites) == 0 {
		return true
	}
	s := sites[c.R.Intn(len(sites))]
	var val string
	var f xmp.SyncFlags
	var apply func()
	op := ""
	cur := ""
	if s.v != nil {
		cur = s.v.text
	}
	for i := 0; i < 5; i++ {
		if val = s.text(c); val != cur {
			break
		}
	}
	if val == "" || val == cur {
		return true
	}
	switch {
	case s.kind == 's' && s.v != nil:
		if c.R.Intn(3) == 0 && s.del != nil && !s.last {
			op, val = "delete", ""
			f = oneOf(c, xmp.DELETE, 0, xmp.DELETE|xmp.REPLACE)
			apply = s.del
		} else {
			op = "replace"
			f = oneOf(c, xmp.REPLACE, 0, xmp.REPLACE|xmp.CREATE, xmp.EXTEND, xmp.CREATE|xmp.REPLACE|xmp.DELETE)
			apply = func() { s.put(val) }
		}
	case s.kind == 's':
		op = "create"
		f = oneOf(c, xmp.CREATE, 0, xmp.CREATE|xmp.REPLACE, xmp.MERGE, xmp.EXTEND)
		apply = func() { s.put(val) }
	case s.kind == 'l' && s.v != nil:
		if c.R.Intn(3) == 0 && s.v.lang != "x-default" {
			op, val = "delete-lang", ""
			f = oneOf(c, xmp.DELETE, 0, xmp.DELETE|xmp.CREATE)
			apply = s.del
		} else {
			op = "replace-lang"
			f = oneOf(c, xmp.REPLACE, 0, xmp.REPLACE|xmp.CREATE, xmp.EXTEND)
			apply = func() { s.put(val) }
		}
	case s.kind == 'l':
		op = "add-lang"
		f = oneOf(c, xmp.CREATE, 0, xmp.CREATE|xmp.REPLACE, xmp.MERGE, xmp.EXTEND, xmp.CREATE|xmp.APPEND)
		apply = func() { s.put(val) }
	case s.kind == 'A' && s.v != nil:
		if c.R.Intn(2) == 0 && !s.last && s.del != nil {
			op, val = "delete-alt", ""
			f = oneOf(c, xmp.DELETE, 0)
			apply = s.del
		} else {
			op = "replace-alt"
			f = oneOf(c, xmp.REPLACE, xmp.REPLACE|xmp.CREATE)
			apply = func() { s.put(val) }
		}
	case s.kind == 'A':
		op = "create-alt"
		f = oneOf(c, xmp.CREATE, 0, xmp.CREATE|xmp.REPLACE, xmp.MERGE, xmp.CREATE|xmp.APPEND)
		apply = func() { s.put(val) }
	case s.kind == 'a' && s.v != nil:
		has := false
		for _, x := range s.v.items {
			has = has || x.text == val
		}
		switch k := c.R.Intn(5); {
		case k == 0 && !s.last && s.del != nil:
			op, val = "delete-array", ""
			f = oneOf(c, xmp.DELETE, 0)
			apply = s.del
		case k == 1:
			if has {
				return true
			}
			op = "replace-array"
			f = oneOf(c, xmp.REPLACE, xmp.REPLACE|xmp.CREATE)
			apply = func() { s.put(val) }
		default:
			if has {
				return true
			}
			op = "append"
			f = oneOf(c, xmp.APPEND, xmp.UNIQUE, 0, xmp.MERGE, xmp.APPEND|xmp.CREATE, xmp.APPEND|xmp.REPLACE, xmp.UNIQUE|xmp.APPEND)
			apply = func() { s.v.items = append(s.v.items, newScalar(val)) }
		}
	default:
		op = "create-array"
		f = oneOf(c, xmp.CREATE, 0, xmp.CREATE|xmp.REPLACE, xmp.MERGE, xmp.CREATE|xmp.APPEND)
		apply = func() { s.put(val) }
	}
	what := fmt.Sprintf("%s: SetPath(%s, %q, %s)", op, s.path, val, flagString(f))
	c.Event(op)
	c.Seen(op, s.path, flagString(f))
	if err := w.set(s.path, val, f); err != nil {
		c.Art("history", strings.Join(w.log, "\n"))
		c.Fail("refused:"+op, "%s: %v", what, err)
		return false
	}
	apply()
	if op != "append" && op != "delete" {
		g, err := w.doc.GetPath(xmp.Path(s.path))
		c.Eval(1)
		if err != nil && val != "" || g != val {
			c.Art("history", strings.Join(w.log, "\n"))
			c.Fail("get:"+op, "%s, then GetPath gives %q, %v", what, g, err)
			return false
		}
	}
	return w.verify(c, what)
}

func newScalar(t string) *val { return &val{kind: 's', text: t} }

// finish writes the changed document and compares it with the reference.
// checkHead compares what a packet says about the document as a whole.
func (w *world) checkHead(c *Case, x *rdfDoc) {
	if w.d.toolkit != "" && x.toolkit != w.d.toolkit {
		c.Fail("toolkit", "x:xmptk %q became %q", w.d.toolkit, x.toolkit)
	}
	if len(x.props) > 0 && x.about != w.d.about {
		c.Fail("about", "rdf:about %q became %q", w.d.about, x.about)
	}
}

func (w *world) finish(c *Case) {
	defer w.doc.Close()
	if c.failed() {
		return
	}
	out, err := xmp.Marshal(w.doc)
	if w.models {
		// saving changed other properties
		if x, e := readXMP(out); err == nil && e == nil {
			w.checkHead(c, x)
		}
		return
	}
	c.Art("history", strings.Join(w.log, "\n"))
	if err != nil {
		c.Fail("encode", "changed document cannot be written: %v", err)
		return
	}
	c.Art("output", out)
	x, err := readXMP(out)
	if err != nil {
		c.Fail("output", "%v", err)
		return
	}
	c.Eval(len(w.d.props))
	w.checkHead(c, x)
	if diff := diffAllow(w.d, x); len(diff) > 0 {
		c.Fail(diffKey("written", diff), "written document differs from the reference:\n  %s", head(diff, 6))
		return
	}
	doc2, err := decodeXML(out)
	if err != nil {
		c.Fail("reread", "%v", err)
		return
	}
	l1, _ := listPaths(w.doc)
	l2, _ := listPaths(doc2)
	if diff := strDiff(l1, l2); len(diff) > 0 {
		c.Fail("reread", "paths change when the document is saved and loaded:\n  %s", head(diff, 6))
	}
	doc2.Close()
}

func init() {
	register(&Property{
		ID:   "P09",
		Rule: "histories of SetPath operations at existing and missing places of generated documents; after every operation GetPath and the complete path list are compared with a reference document that went through the same history; distinct by (operation, path, flags)",
		Scenarios: []Scenario{
			{"histories", 20000, 400000, func(c *Case) {
				d := genDoc(c.R, genOpt{unknown: c.R.Intn(2) == 0, about: true, maxProps: 6})
				if w := newWorld(c, d); w != nil {
					for i, n := 0, 1+c.R.Intn(14); i < n; i++ {
						if !w.step(c) {
							return
						}
					}
					w.finish(c)
				}
			}},
			{"holes", 2500, 40000, holes},
		},
	})
}
