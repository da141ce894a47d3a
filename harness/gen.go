package main

// Document generator and serializer. Documents are built as abstract XMP value
// trees (rdfDoc) over the committed golden schema plus arbitrary unregistered
// namespaces, and written in any of the equivalent RDF/XML spellings that
// XMP part 1 allows. No library code is used here.

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

//go:embed golden.json
var goldenRaw []byte

type Golden struct {
	Models []*ModelSchema      `json:"models"`
	Types  map[string][]string `json:"types"`
	Free   map[string]bool     `json:"free"`
	Compat map[string][]string `json:"compat"`
	byPfx  map[string]*ModelSchema
	uris   map[string]string // prefix -> uri for all registered namespaces used
}

var golden = func() *Golden {
	g := &Golden{}
	if err := json.Unmarshal(goldenRaw, g); err != nil {
		panic(err)
	}
	g.index()
	return g
}()

func (g *Golden) index() {
	g.byPfx = map[string]*ModelSchema{}
	g.uris = map[string]string{}
	for _, m := range g.Models {
		g.byPfx[m.Prefix] = m
		for p, u := range m.NS {
			g.uris[p] = u
		}
	}
	for p, u := range extraNS {
		g.uris[p] = u
	}
}

// namespaces that only occur inside structures
var extraNS = map[string]string{
	"stRef":   "http://ns.adobe.com/xap/1.0/sType/ResourceRef#",
	"stEvt":   "http://ns.adobe.com/xap/1.0/sType/ResourceEvent#",
	"stVer":   "http://ns.adobe.com/xap/1.0/sType/Version#",
	"stJob":   "http://ns.adobe.com/xap/1.0/sType/Job#",
	"stDim":   "http://ns.adobe.com/xap/1.0/sType/Dimensions#",
	"stFnt":   "http://ns.adobe.com/xap/1.0/sType/Font#",
	"stMfs":   "http://ns.adobe.com/xap/1.0/sType/ManifestItem#",
	"xmpG":    "http://ns.adobe.com/xap/1.0/g/",
	"xmpGImg": "http://ns.adobe.com/xap/1.0/g/img/",
	"xmpidq":  "http://ns.adobe.com/xmp/Identifier/qual/1.0/",
	"stArea":  "http://ns.adobe.com/xmp/sType/Area#",
}

func (g *Golden) q(name string) qname {
	i := strings.Index(name, ":")
	if i < 0 {
		return qname{"", name}
	}
	u, ok := g.uris[name[:i]]
	if !ok {
		panic("no uri for prefix of " + name)
	}
	return qname{u, name[i+1:]}
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

// ---------------------------------------------------------------- text

var textWords = []string{
	"alpha", "Beta 2", "c", "x & y", "a<b>c", "\"quoted\"", "it's", "naïve café", "日本語テキスト", "emoji 😀🎬",
	"tab\tinside", "line\nbreak", "50%", "a;b", "a,b", "100", "0.5", "-1", "True", "x-default", "]]>",
	"http://example.com/?a=1&b=2", "uuid:0f9a-11", "path/with/slash", "[3]", "a:b", "<?xpacket end=?>", "&amp;", "&#x41;",
	"Ω≈ç√", "مرحبا", "\u00a0nbsp\u00a0x", "e\u0301", "very long " + strings.Repeat("lorem ipsum ", 40), "back\\slash", "{json}", "null",
}

func genText(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		n := 1 + r.Intn(24)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch r.Intn(8) {
			case 0:
				b.WriteRune(rune(0xA1 + r.Intn(0x500)))
			case 1:
				b.WriteRune([]rune{'&', '<', '>', '"', '\'', '/', ':', ';', '[', ']', '=', '#', '%', ','}[r.Intn(14)])
			case 2:
				b.WriteRune(rune(0x4e00 + r.Intn(0x2000)))
			case 3:
				b.WriteRune(rune(0x1F300 + r.Intn(0x200)))
			default:
				b.WriteByte(byte('!' + r.Intn(94)))
			}
		}
		return b.String()
	}
	s := strings.TrimSpace(textWords[r.Intn(len(textWords))])
	if r.Intn(2) == 0 {
		s = fmt.Sprintf("%s-%d", s, r.Intn(1000))
	}
	return s
}

// genToken makes a short unique-looking word
func genToken(r *rand.Rand) string { return fmt.Sprintf("tok%d", r.Intn(1<<30)) }

var langs = []string{"en", "en-US", "de-DE", "fr", "ja", "pt-BR", "zh-Hans"}

// ---------------------------------------------------------------- schema values

func leafVal(r *rand.Rand, s *Schema) *val {
	if golden.Free[s.Type] && len(s.Vals) == 0 {
		return &val{kind: 's', text: genText(r)}
	}
	pool := s.Vals
	if len(pool) == 0 {
		pool = golden.Types[s.Type]
	}
	if len(pool) == 0 {
		return nil
	}
	return &val{kind: 's', text: pool[r.Intn(len(pool))]}
}

func usable(s *Schema) bool {
	if s.Omit || s.Ver != "" || s.Bad != "" {
		return false
	}
	switch s.Kind {
	case "leaf":
		return golden.Free[s.Type] || len(s.Vals) > 0 || len(golden.Types[s.Type]) > 0
	case "alt":
		return true
	case "array":
		return s.Elem != nil && usable(s.Elem)
	case "struct":
		for _, f := range s.Fields {
			if usable(f) {
				return true
			}
		}
	}
	return false
}

// genVal makes a random value for schema s, or nil. An array's Go type may be
// of fixed length (arr "Bag" over a Go array); schema.Len carries it.
func genVal(r *rand.Rand, s *Schema, depth int) *val {
	if !usable(s) {
		return nil
	}
	switch s.Kind {
	case "leaf":
		return leafVal(r, s)
	case "alt":
		a := &val{kind: 'a', typ: "Alt"}
		if r.Intn(4) > 0 {
			a.items = append(a.items, &val{kind: 's', text: genText(r), lang: "x-default"})
		}
		n := r.Intn(3)
		p := r.Perm(len(langs))
		for i := 0; i < n; i++ {
			a.items = append(a.items, &val{kind: 's', text: genText(r), lang: langs[p[i]]})
		}
		if len(a.items) == 0 || a.items[0].lang != "x-default" {
			a.items = append([]*val{{kind: 's', text: genText(r), lang: "x-default"}}, a.items...)
		}
		return a
	case "array":
		a := &val{kind: 'a', typ: s.Arr}
		n := 1 + r.Intn(4)
		if s.Elem.Kind == "struct" {
			n = 1 + r.Intn(3)
		}
		if s.Len > 0 {
			n = s.Len
		}
		if s.Arr == "Alt" && s.Elem.Kind == "leaf" && n > 3 {
			n = 3
		}
		for i := 0; i < n; i++ {
			if v := genVal(r, s.Elem, depth+1); v != nil && !v.empty() {
				a.items = append(a.items, v)
			}
		}
		if len(a.items) == 0 {
			return nil
		}
		return a
	case "struct":
		v := &val{kind: 't', fields: map[qname]*val{}}
		keys := sortedKeys(s.Fields)
		for try := 0; try < 3 && len(v.fields) == 0; try++ {
			for _, k := range keys {
				if !s.All && (depth > 3 && r.Intn(3) > 0 || r.Intn(3) == 0) {
					continue
				}
				if f := genVal(r, s.Fields[k], depth+1); f != nil && !f.empty() {
					v.fields[golden.q(k)] = f
				}
			}
		}
		if len(v.fields) == 0 {
			return nil
		}
		return v
	}
	return nil
}

// ---------------------------------------------------------------- unknown namespaces

type unkNS struct{ prefix, uri string }

var unkPool = []unkNS{
	{"acme", "http://acme.example.com/ns/1.0/"},
	{"zeta", "http://zeta.example.org/schema#"},
	{"my-ns", "urn:example:my-ns"},
	{"Lab_2", "http://lab.example.net/two/"},
	{"q.q", "http://q.example.net/q.q#"},
}

var unkNames = []string{"Alpha", "beta", "Gamma-3", "delta_x", "e.f", "Title", "description", "li2", "Größe", "n1", "n2", "n3", "n4"}

// genUnknown makes an arbitrary value in an unregistered namespace.
func genUnknown(r *rand.Rand, ns []unkNS, depth int) *val {
	k := r.Intn(10)
	if depth >= 3 {
		k = 0
	}
	switch {
	case k < 5:
		return &val{kind: 's', text: genText(r)}
	case k < 8:
		a := &val{kind: 'a', typ: []string{"Seq", "Bag", "Alt"}[r.Intn(3)]}
		if a.typ == "Alt" {
			a.items = append(a.items, &val{kind: 's', text: genText(r), lang: "x-default"})
			for i, p := 0, r.Perm(len(langs)); i < r.Intn(3); i++ {
				a.items = append(a.items, &val{kind: 's', text: genText(r), lang: langs[p[i]]})
			}
			return a
		}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			if v := genUnknown(r, ns, depth+1); !v.empty() {
				a.items = append(a.items, v)
			}
		}
		if len(a.items) == 0 {
			return &val{kind: 's', text: genText(r)}
		}
		return a
	default:
		v := &val{kind: 't', fields: map[qname]*val{}}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			x := ns[r.Intn(len(ns))]
			if f := genUnknown(r, ns, depth+1); !f.empty() {
				v.fields[qname{x.uri, unkNames[r.Intn(len(unkNames))]}] = f
			}
		}
		return v
	}
}

// ---------------------------------------------------------------- documents

type genOpt struct {
	models   []string // nil: random
	maxProps int
	unknown  bool
	about    bool
}

type gdoc struct {
	*rdfDoc
	pfx    map[string]string // uri -> prefix (preferred)
	models []string
}

func newGdoc() *gdoc {
	return &gdoc{rdfDoc: &rdfDoc{props: map[qname]*val{}}, pfx: map[string]string{}}
}

func compatible(a, b string) bool {
	for _, x := range golden.Compat[a] {
		if x == b {
			return true
		}
	}
	return false
}

func pickModels(r *rand.Rand, n int) []string {
	names := sortedKeys(golden.byPfx)
	p := r.Perm(len(names))
	var out []string
next:
	for _, i := range p {
		if len(out) >= n {
			break
		}
		for _, o := range out {
			if !compatible(o, names[i]) {
				continue next
			}
		}
		out = append(out, names[i])
	}
	return out
}

func genDoc(r *rand.Rand, o genOpt) *gdoc {
	d := newGdoc()
	for p, u := range golden.uris {
		d.pfx[u] = p
	}
	if o.models == nil {
		o.models = pickModels(r, 1+r.Intn(5))
	}
	if o.maxProps == 0 {
		o.maxProps = 8
	}
	d.models = o.models
	for _, m := range o.models {
		ms := golden.byPfx[m]
		keys := sortedKeys(ms.Props)
		n := 1 + r.Intn(o.maxProps)
		for i := 0; i < n; i++ {
			k := keys[r.Intn(len(keys))]
			if v := genVal(r, ms.Props[k], 0); v != nil && !v.empty() {
				d.props[golden.q(k)] = v
			}
		}
	}
	if o.unknown {
		n := 1 + r.Intn(3)
		var ns []unkNS
		for _, i := range r.Perm(len(unkPool))[:n] {
			ns = append(ns, unkPool[i])
			d.pfx[unkPool[i].uri] = unkPool[i].prefix
		}
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			x := ns[r.Intn(len(ns))]
			if v := genUnknown(r, ns, 0); !v.empty() {
				d.props[qname{x.uri, unkNames[r.Intn(len(unkNames))]}] = v
			}
		}
	}
	if o.unknown && r.Intn(3) == 0 {
		// properties the registered models do not know
		m := o.models[r.Intn(len(o.models))]
		ns := unkPool[:2]
		for _, x := range ns {
			d.pfx[x.uri] = x.prefix
		}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			if v := genUnknown(r, ns, 0); !v.empty() {
				d.props[qname{golden.byPfx[m].URI, "un_" + unkNames[r.Intn(len(unkNames))]}] = v
			}
		}
	}
	if o.about && len(d.props) > 0 {
		// nothing carries it in an empty document
		d.about = []string{"", "uuid:5a7f-" + genToken(r), "http://example.com/a?b=1&c=2"}[r.Intn(3)]
	}
	if r.Intn(50) == 0 {
		grow(r, d, o)
	}
	return d
}

// sizes on and around the limits programs like
var sizes = []int{9, 10, 11, 16, 17, 31, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300}

// longText makes a text of n bytes or a little more.
func longText(r *rand.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		switch r.Intn(30) {
		case 0:
			b.WriteString(genText(r))
		case 1:
			b.WriteString("ß&<日本🎼")
		default:
			b.WriteString("abcdefghij "[r.Intn(5):])
		}
	}
	return strings.Join(strings.Fields(b.String()), " ") + "."
}

// grow makes parts of a document large: long texts, long arrays, many languages, deep and wide
// structures, many properties and namespaces.
func grow(r *rand.Rand, d *gdoc, o genOpt) {
	size := func() int { return sizes[r.Intn(len(sizes))] }
	for _, q := range sortedQ(d.props) {
		if r.Intn(3) > 0 {
			continue
		}
		p, known := golden.known(q.uri)
		var s *Schema
		if known {
			ms := golden.byPfx[p]
			if ms != nil {
				s = ms.Props[p+":"+q.local]
			}
			if s == nil && !strings.HasPrefix(q.local, "un_") {
				continue
			}
		}
		v := d.props[q]
		switch {
		case v.kind == 's' && (s == nil || s.Kind == "leaf" && golden.Free[s.Type] && len(s.Vals) == 0):
			v.text = longText(r, []int{254, 1022, 1024, 4094, 4097, 16384, 65534}[r.Intn(7)])
		case v.typ == "Alt" && (s == nil || s.Kind == "alt"):
			for i, n := 0, 1+size()/5; i < n; i++ {
				v.items = append(v.items, &val{kind: 's', text: genText(r), lang: fmt.Sprintf("x-n%d", i)})
			}
		case v.kind == 'a' && v.typ != "Alt" && (s == nil || s.Kind == "array" && s.Elem.Kind == "leaf" && golden.Free[s.Elem.Type] && len(s.Elem.Vals) == 0 && s.Len == 0):
			if v.items[0].kind != 's' {
				continue
			}
			for n := size(); len(v.items) < n; {
				v.items = append(v.items, &val{kind: 's', text: fmt.Sprintf("%s %d", genText(r), len(v.items))})
			}
		}
	}
	if !o.unknown {
		return
	}
	var ns []unkNS
	for i, n := 0, 1+size()/10; i < n; i++ {
		x := unkNS{fmt.Sprintf("g%d", i), fmt.Sprintf("http://big.example.org/%d/", i)}
		d.pfx[x.uri] = x.prefix
		ns = append(ns, x)
		d.props[qname{x.uri, "first"}] = &val{kind: 's', text: genText(r)}
	}
	x := ns[r.Intn(len(ns))]
	switch r.Intn(3) {
	case 0: // deep
		v := &val{kind: 's', text: genText(r)}
		for i := 4 + r.Intn(24); i > 0; i-- {
			v = &val{kind: 't', fields: map[qname]*val{{x.uri, unkNames[r.Intn(len(unkNames))]}: v}}
			if r.Intn(6) == 0 {
				v = &val{kind: 'a', typ: "Seq", items: []*val{v, {kind: 't', fields: map[qname]*val{{x.uri, "n1"}: {kind: 's', text: genText(r)}}}}}
			}
		}
		d.props[qname{x.uri, "deep"}] = v
	case 1: // wide
		v := &val{kind: 't', fields: map[qname]*val{}}
		for i := size(); i > 0; i-- {
			v.fields[qname{ns[r.Intn(len(ns))].uri, fmt.Sprintf("f%d", i)}] = &val{kind: 's', text: genText(r)}
		}
		d.props[qname{x.uri, "wide"}] = v
	default: // many
		for i := size(); i > 0; i-- {
			d.props[qname{x.uri, fmt.Sprintf("p%d", i)}] = &val{kind: 's', text: genText(r)}
		}
	}
}

// ---------------------------------------------------------------- serializer

type style struct {
	attrs     int // 0: never attribute form, 1: sometimes, 2: whenever possible
	abouts    int // rdf:about: 0 everywhere, 1 empty except at aboutAt, 2 missing except at aboutAt
	aboutAt   int
	nested    int  // structures: 0 parseType=Resource, 1 nested rdf:Description, 2 random incl. attribute shorthand
	split     int  // 0 one Description per namespace, 1 single, 2 random split
	pretty    bool // indentation
	packet    bool
	wrapper   bool
	rename    bool // rename prefixes
	rootNS    int  // 0 xmlns on Description, 1 on rdf:RDF, 2 on x:xmpmeta
	quote     byte // attribute quote
	comments  bool
	cdata     bool
	charref   bool
	selfClose bool
	shuffle   bool
	values    int // one of n simple values is written as rdf:resource or rdf:value
}

var canonStyle = style{wrapper: true, pretty: true, quote: '"'}

type xw struct {
	b   strings.Builder
	r   *rand.Rand
	st  style
	pfx map[string]string
}

func escText(s string, q byte, st *style, r *rand.Rand) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString("&amp;")
		case c == '<':
			b.WriteString("&lt;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '"' && q == '"':
			b.WriteString("&quot;")
		case c == '\'' && q == '\'':
			b.WriteString("&apos;")
		case c == '\n' || c == '\t' || c == '\r':
			fmt.Fprintf(&b, "&#x%X;", c)
		case st.charref && r != nil && r.Intn(4) == 0:
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "&#x%x;", c)
			} else {
				fmt.Fprintf(&b, "&#%d;", c)
			}
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (w *xw) text(s string) {
	if w.st.cdata && w.r.Intn(2) == 0 && !strings.Contains(s, "]]>") {
		i := 0
		for k := range s {
			if k > 0 && w.r.Intn(6) == 0 {
				i = k
				break
			}
		}
		w.b.WriteString(escText(s[:i], 0, &w.st, w.r))
		w.b.WriteString("<![CDATA[" + s[i:] + "]]>")
		return
	}
	if w.st.comments && w.r.Intn(3) == 0 {
		i := 0
		for k := range s {
			i = k
			if w.r.Intn(4) == 0 {
				break
			}
		}
		w.b.WriteString(escText(s[:i], 0, &w.st, w.r) + "<!-- c -->" + escText(s[i:], 0, &w.st, w.r))
		return
	}
	w.b.WriteString(escText(s, 0, &w.st, w.r))
}

func (w *xw) attr(name, v string) {
	q := w.st.quote
	if q == 0 {
		q = '"'
	}
	w.b.WriteString(" " + name + "=" + string(q) + escText(v, q, &w.st, w.r) + string(q))
}

func (w *xw) nl(depth int) {
	if w.st.pretty {
		w.b.WriteString("\n" + strings.Repeat(" ", depth))
		if w.st.comments && w.r.Intn(6) == 0 {
			w.b.WriteString("<!-- note --> ")
		}
	}
}

func (w *xw) n(q qname) string {
	if q.uri == "" {
		return q.local
	}
	p, ok := w.pfx[q.uri]
	if !ok {
		panic("no prefix for " + q.uri)
	}
	return p + ":" + q.local
}

func (w *xw) qs(m map[qname]*val) []qname {
	out := make([]qname, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return w.n(out[i]) < w.n(out[j]) })
	if w.st.shuffle {
		w.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// asAttr decides whether a property may be written in attribute form.
func (w *xw) asAttr(v *val) bool {
	if v.kind != 's' || v.lang != "" || v.text == "" {
		return false
	}
	switch w.st.attrs {
	case 0:
		return false
	case 1:
		return w.r.Intn(2) == 0
	}
	return true
}

func collectURIs(m map[qname]*val, out map[string]bool) {
	var walk func(v *val)
	walk = func(v *val) {
		for _, x := range v.items {
			walk(x)
		}
		for k, x := range v.fields {
			out[k.uri] = true
			walk(x)
		}
	}
	for k, v := range m {
		out[k.uri] = true
		walk(v)
	}
}

func (w *xw) prop(q qname, v *val, depth int) { w.elem(w.n(q), v, depth) }

func (w *xw) elem(name string, v *val, depth int) {
	w.nl(depth)
	w.b.WriteString("<" + name)
	if v.lang != "" {
		w.attr("xml:lang", v.lang)
	}
	switch v.kind {
	case 's':
		if w.st.values > 0 && v.lang == "" && v.text != "" && w.r.Intn(w.st.values) == 0 {
			switch w.r.Intn(4) {
			case 0:
				w.attr("rdf:resource", v.text)
				w.b.WriteString("/>")
			case 1:
				w.attr("rdf:parseType", "Resource")
				w.b.WriteString("><rdf:value>")
				w.text(v.text)
				w.b.WriteString("</rdf:value></" + name + ">")
			case 2:
				w.b.WriteString("><rdf:Description><rdf:value>")
				w.text(v.text)
				w.b.WriteString("</rdf:value></rdf:Description></" + name + ">")
			case 3:
				w.attr("rdf:parseType", "Resource")
				w.b.WriteString("><rdf:value")
				w.attr("rdf:resource", v.text)
				w.b.WriteString("/></" + name + ">")
			}
			return
		}
		if v.text == "" && w.st.selfClose {
			w.b.WriteString("/>")
			return
		}
		w.b.WriteString(">")
		if w.st.pretty && w.r != nil && w.st.comments && w.r.Intn(5) == 0 {
			w.b.WriteString("\n  ")
		}
		w.text(v.text)
		w.b.WriteString("</" + name + ">")
	case 'a':
		w.b.WriteString(">")
		w.nl(depth + 1)
		w.b.WriteString("<rdf:" + v.typ + ">")
		for _, x := range v.items {
			w.elem("rdf:li", x, depth+2)
		}
		w.nl(depth + 1)
		w.b.WriteString("</rdf:" + v.typ + ">")
		w.nl(depth)
		w.b.WriteString("</" + name + ">")
	case 't':
		keys := w.qs(v.fields)
		mode := w.st.nested
		if mode == 2 {
			mode = w.r.Intn(3)
		}
		if mode == 2 { // attribute shorthand only when every field is simple
			for _, k := range keys {
				f := v.fields[k]
				if f.kind != 's' || f.lang != "" || f.text == "" {
					mode = w.r.Intn(2)
				}
			}
		}
		if mode == 2 {
			for _, k := range keys {
				w.attr(w.n(k), v.fields[k].text)
			}
			w.b.WriteString("/>")
			return
		}
		var rest []qname
		if mode == 0 {
			w.attr("rdf:parseType", "Resource")
			w.b.WriteString(">")
			rest = keys
		} else {
			w.b.WriteString(">")
			w.nl(depth + 1)
			w.b.WriteString("<rdf:Description")
			for _, k := range keys {
				if w.asAttr(v.fields[k]) {
					w.attr(w.n(k), v.fields[k].text)
				} else {
					rest = append(rest, k)
				}
			}
			w.b.WriteString(">")
		}
		for _, k := range rest {
			w.prop(k, v.fields[k], depth+2)
		}
		if mode == 1 {
			w.nl(depth + 1)
			w.b.WriteString("</rdf:Description>")
		}
		w.nl(depth)
		w.b.WriteString("</" + name + ">")
	}
}

const pktHead = "<?xpacket begin=\"\uFEFF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n"
const pktTail = "\n<?xpacket end=\"w\"?>"

// writeXMP serializes d. With a nil r the style must be deterministic.
func writeXMP(d *gdoc, st style, r *rand.Rand) []byte {
	w := &xw{r: r, st: st, pfx: map[string]string{}}
	for u, p := range d.pfx {
		w.pfx[u] = p
	}
	uris := map[string]bool{}
	collectURIs(d.props, uris)
	if st.rename {
		i := 0
		keys := make([]string, 0)
		for u := range uris {
			keys = append(keys, u)
		}
		sort.Strings(keys)
		for _, u := range keys {
			if _, known := golden.known(u); !known {
				continue
			}
			if r.Intn(2) == 0 {
				w.pfx[u] = fmt.Sprintf("ns%d", i)
				i++
			}
		}
	}
	if st.packet {
		w.b.WriteString(pktHead)
	}
	xmlns := func(us map[string]bool) {
		keys := make([]string, 0)
		for u := range us {
			if u != "" && u != nsRDF && u != nsX {
				keys = append(keys, u)
			}
		}
		sort.Strings(keys)
		for _, u := range keys {
			w.attr("xmlns:"+w.pfx[u], u)
		}
	}
	if st.wrapper {
		w.b.WriteString("<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"")
		if d.toolkit != "" {
			w.attr("x:xmptk", d.toolkit)
		}
		if st.rootNS == 2 {
			xmlns(uris)
		}
		w.b.WriteString(">")
		w.nl(0)
	}
	w.b.WriteString("<rdf:RDF xmlns:rdf=\"" + nsRDF + "\"")
	if st.rootNS == 1 || (st.rootNS == 2 && !st.wrapper) {
		xmlns(uris)
	}
	w.b.WriteString(">")
	keys := w.qs(d.props)
	var groups [][]qname
	switch st.split {
	case 1:
		groups = [][]qname{keys}
	case 2:
		groups = make([][]qname, 1+r.Intn(4))
		for _, k := range keys {
			i := r.Intn(len(groups))
			groups[i] = append(groups[i], k)
		}
	default:
		m := map[string][]qname{}
		var us []string
		for _, k := range keys {
			if m[k.uri] == nil {
				us = append(us, k.uri)
			}
			m[k.uri] = append(m[k.uri], k)
		}
		for _, u := range us {
			groups = append(groups, m[u])
		}
	}
	for i, g := range groups {
		w.nl(1)
		w.b.WriteString("<rdf:Description")
		// an empty rdf:about or none stands for the resource of the packet
		switch {
		case st.abouts == 1 && i != st.aboutAt%len(groups):
			w.attr("rdf:about", "")
		case st.abouts == 2 && i != st.aboutAt%len(groups):
		default:
			w.attr("rdf:about", d.about)
		}
		if st.rootNS == 0 {
			us := map[string]bool{}
			sub := map[qname]*val{}
			for _, k := range g {
				sub[k] = d.props[k]
			}
			collectURIs(sub, us)
			xmlns(us)
		}
		var rest []qname
		for _, k := range g {
			if w.asAttr(d.props[k]) {
				w.attr(w.n(k), d.props[k].text)
			} else {
				rest = append(rest, k)
			}
		}
		if len(rest) == 0 && st.selfClose {
			w.b.WriteString("/>")
			continue
		}
		w.b.WriteString(">")
		for _, k := range rest {
			w.prop(k, d.props[k], 2)
		}
		w.nl(1)
		w.b.WriteString("</rdf:Description>")
	}
	w.nl(0)
	w.b.WriteString("</rdf:RDF>")
	if st.wrapper {
		w.nl(0)
		w.b.WriteString("</x:xmpmeta>")
	}
	if st.packet {
		w.b.WriteString(pktTail)
	}
	return []byte(w.b.String())
}

func (g *Golden) known(uri string) (string, bool) {
	for p, u := range g.uris {
		if u == uri {
			return p, true
		}
	}
	return "", false
}

func randStyle(r *rand.Rand) style {
	return style{
		attrs: r.Intn(3), nested: r.Intn(3), split: r.Intn(3), pretty: r.Intn(2) == 0,
		packet: r.Intn(2) == 0, wrapper: r.Intn(3) > 0, rename: r.Intn(3) == 0,
		rootNS: r.Intn(3), quote: []byte{'"', '\''}[r.Intn(2)], comments: r.Intn(3) == 0,
		cdata: r.Intn(4) == 0, charref: r.Intn(4) == 0, selfClose: r.Intn(2) == 0, shuffle: r.Intn(2) == 0,
		abouts: r.Intn(6), aboutAt: r.Intn(8),
	}
}
